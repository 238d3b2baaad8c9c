From 608b3bcdfebd4fdf91a65bd2c81cee37d3bc67b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 01/45] fix: widen the ABA tag of LockFreeStack from 16 to 32
 bits

A thread stalled inside pop or push while others performed a multiple of 65536
operations saw an unchanged head and corrupted the stack (objects lost).
---
 .../modules/core/include/klepsydra/core/lock_free_stack.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/lock_free_stack.h b/core/modules/core/include/klepsydra/core/lock_free_stack.h
index a60e83c..88e407d 100644
--- a/core/modules/core/include/klepsydra/core/lock_free_stack.h
+++ b/core/modules/core/include/klepsydra/core/lock_free_stack.h
@@ -38,8 +38,10 @@ class LockFreeStack
 
     struct head_t final
     {
-        uint16_t aba;
-        uint16_t node_index;
+        // 32 bit: a 16 bit tag wraps within a millisecond, while a stalled thread still holds an
+        // old head that would then compare equal.
+        uint32_t aba;
+        uint32_t node_index;
         head_t() noexcept
             : aba(0)
             , node_index(UNDEF_INDEX)
@@ -55,7 +57,7 @@ class LockFreeStack
     using aligned_node_t =
         typename std::aligned_storage<sizeof(node_t), std::alignment_of<node_t>::value>::type;
 
-    static_assert(sizeof(head_t) == 2 * sizeof(uint16_t), "Stack head should be 2 pointers size.");
+    static_assert(sizeof(head_t) == 2 * sizeof(uint32_t), "Stack head should be 2 pointers size.");
 
     std::unique_ptr<aligned_node_t[]> node_buffer_ptr;
     node_t *node_buffer;
-- 
2.43.0


From 2b6275e0f8c6b56570aceaf7c11c46c21cd723c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 02/45] fix: let ~SmartObjectPool wait for objects that are
 just being returned

A deleter that had already locked the pool pushed into the stack after the destructor
had deleted it (use after free).
---
 .../core/include/klepsydra/core/smart_object_pool.h   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index f4f1d36..f781b43 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -17,10 +17,12 @@
 #ifndef SMART_OBJECT_POOL_H
 #define SMART_OBJECT_POOL_H
 
+#include <atomic>
 #include <functional>
 #include <klepsydra/core/lock_free_stack.h>
 #include <memory>
 #include <stdexcept>
+#include <thread>
 
 #include <spdlog/spdlog.h>
 
@@ -97,6 +99,15 @@ public:
 
     virtual ~SmartObjectPool()
     {
+        // From here on released objects are deleted instead of returned. Wait for the releases that
+        // have already locked the pool, they still need the stack.
+        std::weak_ptr<SmartObjectPool<T, D> *> returning(this_ptr_);
+        this_ptr_.reset();
+        while (!returning.expired()) {
+            std::this_thread::yield();
+        }
+        std::atomic_thread_fence(std::memory_order_acquire);
+
         std::unique_ptr<T, D> t_ptr;
         while (pool_->pop(t_ptr)) {
             if (_finalizerFunction) {
-- 
2.43.0


From fbff9f695b7dc18d661a2a94aba511197928a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 03/45] fix: SafeQueue timed pops must check the queue again
 after waiting

After a spurious wake-up, or when another thread took the element first, timeout_pop
and timeout_move_pop read front() of an empty queue. When woken at the deadline they
gave up with the element still in the queue and the wake-up of another pop consumed.
---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index d331aab..c46be4e 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -287,8 +287,10 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() // Lambda funct
+                                                { return !m_queue.empty(); }))
                 return false;
         }
 
@@ -315,8 +317,10 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() // Lambda funct
+                                                { return !m_queue.empty(); }))
                 return false;
         }
 
-- 
2.43.0


From 76a21039d494cf0d0d971ec56f6214f3fa266f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 04/45] fix: blocking pushes into a SafeQueue without limit
 must not block

A maximum of 0 means no limit, but push and move_push waited forever.
---
 .../include/klepsydra/mem_core/safe_queue.h   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index c46be4e..37d641d 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -89,7 +89,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return !is_full(); });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -106,7 +106,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return !is_full(); });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -123,7 +123,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return !is_full(); });
 
         m_queue.push(std::move(item));
         m_non_empty_condition.notify_one();
@@ -139,7 +139,7 @@ public:
     {
         std::lock_guard<std::mutex> lock(m_mutex);
 
-        if ((m_max_num_items > 0 && m_queue.size() >= m_max_num_items)) {
+        if (is_full()) {
             return false;
         }
 
@@ -157,7 +157,7 @@ public:
     {
         std::lock_guard<std::mutex> lock(m_mutex);
 
-        if ((m_max_num_items > 0 && m_queue.size() >= m_max_num_items)) {
+        if (is_full()) {
             return false;
         }
 
@@ -175,7 +175,7 @@ public:
     {
         std::lock_guard<std::mutex> lock(m_mutex);
 
-        if ((m_max_num_items > 0 && m_queue.size() >= m_max_num_items)) {
+        if (is_full()) {
             return false;
         }
 
@@ -194,7 +194,7 @@ public:
         std::lock_guard<std::mutex> lock(m_mutex);
 
         uint discardedItems = 0;
-        while ((m_max_num_items > 0 && m_queue.size() >= m_max_num_items)) {
+        while (is_full()) {
             m_queue.pop();
             discardedItems++;
         }
@@ -357,7 +357,7 @@ public:
     bool full() const
     {
         std::lock_guard<std::mutex> lock(m_mutex);
-        return (m_max_num_items > 0 && m_queue.size() >= m_max_num_items);
+        return is_full();
     }
 
     /**
@@ -416,6 +416,9 @@ public:
     }
 
 private:
+    // to be called with m_mutex locked
+    bool is_full() const { return m_max_num_items > 0 && m_queue.size() >= m_max_num_items; }
+
     std::queue<T, Container> m_queue;
     mutable std::mutex m_mutex;
     std::condition_variable m_non_empty_condition;
-- 
2.43.0


From 5e40f66f28fe16912b5031bd619bfe7cd3cae609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 05/45] fix: swap and assignment of SafeQueues deadlocked and
 lost wake-ups

The two mutexes were locked in argument order (deadlock between a.swap(b) and b.swap(a)),
move assignment did not lock its source at all, and blocked pushes were never told that
the exchanged content left room.
---
 .../include/klepsydra/mem_core/safe_queue.h   | 39 ++++++++++++-------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 37d641d..f0d4307 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -367,15 +367,13 @@ public:
     void swap(SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::lock(m_mutex, sq.m_mutex);
+            std::lock_guard<std::mutex> lock1(m_mutex, std::adopt_lock);
+            std::lock_guard<std::mutex> lock2(sq.m_mutex, std::adopt_lock);
             m_queue.swap(sq.m_queue);
 
-            if (!m_queue.empty())
-                m_non_empty_condition.notify_all();
-
-            if (!sq.m_queue.empty())
-                sq.m_non_empty_condition.notify_all();
+            notify_changed();
+            sq.notify_changed();
         }
     }
 
@@ -387,13 +385,13 @@ public:
     SafeQueue &operator=(const SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::lock(m_mutex, sq.m_mutex);
+            std::lock_guard<std::mutex> lock1(m_mutex, std::adopt_lock);
+            std::lock_guard<std::mutex> lock2(sq.m_mutex, std::adopt_lock);
             std::queue<T, Container> temp{sq.m_queue};
             m_queue.swap(temp);
 
-            if (!m_queue.empty())
-                m_non_empty_condition.notify_all();
+            notify_changed();
         }
 
         return *this;
@@ -406,11 +404,15 @@ public:
      */
     SafeQueue &operator=(SafeQueue &&sq)
     {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        m_queue = std::move(sq.m_queue);
+        if (this != &sq) {
+            std::lock(m_mutex, sq.m_mutex);
+            std::lock_guard<std::mutex> lock1(m_mutex, std::adopt_lock);
+            std::lock_guard<std::mutex> lock2(sq.m_mutex, std::adopt_lock);
+            m_queue = std::move(sq.m_queue);
 
-        if (!m_queue.empty())
-            m_non_empty_condition.notify_all();
+            notify_changed();
+            sq.notify_changed();
+        }
 
         return *this;
     }
@@ -419,6 +421,13 @@ private:
     // to be called with m_mutex locked
     bool is_full() const { return m_max_num_items > 0 && m_queue.size() >= m_max_num_items; }
 
+    // the whole content was exchanged: both kinds of waiters may be able to go on
+    void notify_changed()
+    {
+        m_non_empty_condition.notify_all();
+        m_non_full_condition.notify_all();
+    }
+
     std::queue<T, Container> m_queue;
     mutable std::mutex m_mutex;
     std::condition_variable m_non_empty_condition;
-- 
2.43.0


From 415e1d81d4ee3fb9f5401d478b78933c17dca437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 06/45] fix: SafeQueue copies keep their maximum size, and
 raising it wakes pushes

A copied or moved-to queue became unlimited, the moved-from one was read unlocked, and
set_max_num_items neither locked nor woke the pushes the new maximum makes possible.
---
 .../include/klepsydra/mem_core/safe_queue.h      | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index f0d4307..754556b 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -59,7 +59,13 @@ public:
      * @brief SafeQueue
      * @param sq
      */
-    SafeQueue(SafeQueue &&sq) { m_queue = std::move(sq.m_queue); }
+    SafeQueue(SafeQueue &&sq)
+    {
+        std::lock_guard<std::mutex> lock(sq.m_mutex);
+        m_queue = std::move(sq.m_queue);
+        m_max_num_items = sq.m_max_num_items;
+        sq.notify_changed();
+    }
 
     /**
      * @brief SafeQueue
@@ -69,6 +75,7 @@ public:
     {
         std::lock_guard<std::mutex> lock(sq.m_mutex);
         m_queue = sq.m_queue;
+        m_max_num_items = sq.m_max_num_items;
     }
 
     ~SafeQueue() { std::lock_guard<std::mutex> lock(m_mutex); }
@@ -77,7 +84,12 @@ public:
      * @brief set_max_num_items Sets the maximum number of items in the queue. Defaults is 0: No limit
      * @param max_num_items
      */
-    void set_max_num_items(unsigned int max_num_items) { m_max_num_items = max_num_items; }
+    void set_max_num_items(unsigned int max_num_items)
+    {
+        std::lock_guard<std::mutex> lock(m_mutex);
+        m_max_num_items = max_num_items;
+        m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief push Pushes the item into the queue. It blocks if the queue is full
-- 
2.43.0


From 3d7137ad0a461345775b11566c41ed2bd7e51bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 07/45] fix: publish ring-buffer slots of several producers
 with release order

The availability flags were plain ints, so a consumer that saw a slot
flagged had no guarantee to see the event written into it.
---
 .../disruptor4cpp/multi_producer_sequencer.h         | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 02fe4d2..ad434b3 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -47,9 +47,9 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 #define DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
-#include <cstring>
 #include <memory>
 #include <stdexcept>
 #include <thread>
@@ -79,7 +79,9 @@ public:
         , wait_strategy_()
         , gating_sequences_()
     {
-        std::memset(available_buffer_, ~0, sizeof(available_buffer_));
+        for (auto &flag : available_buffer_) {
+            flag.store(-1, std::memory_order_relaxed);
+        }
     }
 
     ~multi_producer_sequencer() = default;
@@ -209,7 +211,7 @@ public:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        return available_buffer_[index] == flag;
+        return available_buffer_[index].load(std::memory_order_acquire) == flag;
     }
 
     int64_t get_highest_published_sequence(int64_t lower_bound, int64_t available_sequence) const
@@ -247,7 +249,7 @@ private:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        available_buffer_[index] = flag;
+        available_buffer_[index].store(flag, std::memory_order_release);
     }
 
     int calculate_availability_flag(int64_t seq) const
@@ -261,7 +263,7 @@ private:
     TSequence gating_sequence_cache_;
     TWaitStrategy wait_strategy_;
     std::vector<TSequence *> gating_sequences_;
-    int available_buffer_[BufferSize];
+    std::atomic<int> available_buffer_[BufferSize];
 };
 } // namespace disruptor4cpp
 
-- 
2.43.0


From 6d126d2b48dba95fac8a7c9d237e4544615a3ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 08/45] fix: capacity checks of the ring buffer must not
 truncate the cursor to int

From sequence 2^31 on, try_next of several producers found room in a full
buffer and overwrote events that were not consumed yet.
---
 .../high_performance/disruptor4cpp/multi_producer_sequencer.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index ad434b3..6f59442 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -232,7 +232,7 @@ private:
     static constexpr int INDEX_MASK = static_cast<int>(BufferSize) - 1;
     static constexpr int INDEX_SHIFT = util::log2(BufferSize);
 
-    bool has_available_capacity(int required_capacity, int cursor_value)
+    bool has_available_capacity(int required_capacity, int64_t cursor_value)
     {
         int64_t wrap_point = (cursor_value + required_capacity) - static_cast<int64_t>(BufferSize);
         int64_t cached_gating_sequence = gating_sequence_cache_.get();
-- 
2.43.0


From 033bd1e58378fe890e681bc2037d018f90bc9251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 09/45] fix: phased_backoff_wait_strategy must measure its
 phases on the steady clock

With the system clock set back, a waiter spun on without looking at alerts
until the clock had caught up again.
---
 .../wait_strategies/phased_backoff_wait_strategy.h        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/phased_backoff_wait_strategy.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/phased_backoff_wait_strategy.h
index d7c7ec2..523d168 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/phased_backoff_wait_strategy.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/phased_backoff_wait_strategy.h
@@ -69,7 +69,7 @@ public:
                      const TSequenceBarrier &seq_barrier)
     {
         int64_t available_sequence = 0;
-        std::chrono::system_clock::time_point start_time;
+        std::chrono::steady_clock::time_point start_time;
         int counter = SPIN_TRIES;
 
         do {
@@ -78,11 +78,11 @@ public:
 
             --counter;
             if (counter == 0) {
-                if (start_time.time_since_epoch() == std::chrono::system_clock::duration::zero())
-                    start_time = std::chrono::system_clock::now();
+                if (start_time.time_since_epoch() == std::chrono::steady_clock::duration::zero())
+                    start_time = std::chrono::steady_clock::now();
                 else {
                     int64_t time_delta = std::chrono::duration_cast<std::chrono::nanoseconds>(
-                                             std::chrono::system_clock::now() - start_time)
+                                             std::chrono::steady_clock::now() - start_time)
                                              .count();
                     if (time_delta > YieldTimeoutNanoseconds)
                         return fallback_strategy_.wait_for(seq,
-- 
2.43.0


From 63d73139ba5240ca4225a9197b0bf8daf477580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 10/45] fix: lost wake-up in lite_blocking_wait_strategy

Neither the waiter's flag and cursor check nor the publisher's cursor and flag
check were ordered (store, then load of another variable), so both could miss
each other and the waiter slept on although its event was published.
---
 .../wait_strategies/lite_blocking_wait_strategy.h         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
index c3d65de..5830b62 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
@@ -74,7 +74,10 @@ public:
         if ((available_sequence = cursor_sequence.get()) < seq) {
             std::unique_lock<std::recursive_mutex> lock(mutex_);
             do {
-                signal_needed_.store(true, std::memory_order_release);
+                signal_needed_.store(true, std::memory_order_relaxed);
+                // pairs with the fence of signal_all_when_blocking: either this thread sees the
+                // new cursor (or alert), or the signalling thread sees signal_needed_.
+                std::atomic_thread_fence(std::memory_order_seq_cst);
                 if ((available_sequence = cursor_sequence.get()) >= seq)
                     break;
 
@@ -91,7 +94,8 @@ public:
 
     void signal_all_when_blocking()
     {
-        if (signal_needed_.exchange(false, std::memory_order_release)) {
+        std::atomic_thread_fence(std::memory_order_seq_cst);
+        if (signal_needed_.exchange(false, std::memory_order_acq_rel)) {
             std::lock_guard<std::recursive_mutex> lock(mutex_);
             processor_notify_condition_.notify_all();
         }
-- 
2.43.0


From c4fd6c6767d17485d3817c4ec66db787f6395fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 11/45] fix: event processors lost a halt, or ran twice after
 one

A halt between the start of run() and clear_alert() was forgotten, a run()
right after a halt was accepted while the halted run was still going on, and
halting a no_op_event_processor did not wake it up.
---
 .../disruptor4cpp/batch_event_processor.h     | 13 +++++++++---
 .../disruptor4cpp/no_op_event_processor.h     | 20 +++++++++++++++----
 .../disruptor4cpp/sequence_barrier.h          |  3 ++-
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
index 7ac664f..7b46297 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
@@ -73,6 +73,7 @@ public:
         , sequence_barrier_(sequence_barrier)
         , event_handler_(evt_handler)
         , running_(false)
+        , occupied_(false)
         , name_(name)
     {}
 
@@ -87,6 +88,7 @@ public:
         , event_handler_(evt_handler)
         , sequence_barrier_ptr_(std::move(sequence_barrier_ptr))
         , running_(false)
+        , occupied_(false)
         , name_(name)
     {}
 
@@ -102,17 +104,19 @@ public:
 
     void run()
     {
-        bool expected_running_state = false;
-        if (!running_.compare_exchange_strong(expected_running_state, true))
+        // A run that was told to halt goes on until it notices: running_ alone does not tell.
+        bool expected_occupied_state = false;
+        if (!occupied_.compare_exchange_strong(expected_occupied_state, true))
             throw std::runtime_error("Thread is already running");
 
+        running_.store(true, std::memory_order_release);
         sequence_barrier_.clear_alert();
         notify_start();
 
         typename TRingBuffer::event_type *event = nullptr;
         int64_t next_sequence = sequence_.get() + 1;
         try {
-            while (true) {
+            while (is_running()) { // a halt may have come before the alert was cleared
                 try {
                     const int64_t available_sequence = sequence_barrier_.wait_for(next_sequence);
                     while (next_sequence <= available_sequence) {
@@ -149,10 +153,12 @@ public:
             spdlog::debug("kpsr::high_perf::batch_event_processor. notify_shutdown on {}.", name_);
             notify_shutdown();
             running_.store(false, std::memory_order_release);
+            occupied_.store(false, std::memory_order_release);
             throw;
         }
         notify_shutdown();
         running_.store(false, std::memory_order_release);
+        occupied_.store(false, std::memory_order_release);
     }
 
 private:
@@ -189,6 +195,7 @@ private:
     event_handler<typename TRingBuffer::event_type> &event_handler_;
     std::unique_ptr<typename TRingBuffer::sequence_barrier_type> sequence_barrier_ptr_;
     std::atomic<bool> running_;
+    std::atomic<bool> occupied_;
     std::string name_;
 };
 } // namespace disruptor4cpp
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
index 833c6ff..ffd53b5 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
@@ -68,6 +68,7 @@ public:
         , ring_buffer_(ring_buffer)
         , sequence_barrier_(sequence_barrier)
         , running_(false)
+        , occupied_(false)
     {}
 
     no_op_event_processor(
@@ -78,26 +79,34 @@ public:
         , sequence_barrier_(*sequence_barrier_ptr)
         , sequence_barrier_ptr_(std::move(sequence_barrier_ptr))
         , running_(false)
+        , occupied_(false)
     {}
 
     typename TRingBuffer::sequence_type &get_sequence() { return sequence_; }
 
-    void halt() { running_.store(false, std::memory_order_release); }
+    void halt()
+    {
+        running_.store(false, std::memory_order_release);
+        sequence_barrier_.alert();
+    }
 
     bool is_running() const { return running_.load(std::memory_order_acquire); }
 
     void run()
     {
-        bool expected_running_state = false;
-        if (!running_.compare_exchange_strong(expected_running_state, true))
+        // A run that was told to halt goes on until it notices: running_ alone does not tell.
+        bool expected_occupied_state = false;
+        if (!occupied_.compare_exchange_strong(expected_occupied_state, true))
             throw std::runtime_error("Thread is already running");
 
+        running_.store(true, std::memory_order_release);
+
         // Implemenent with the same logic in batch event processor without notification.
         // Different from the java version.
         sequence_barrier_.clear_alert();
         int64_t next_sequence = sequence_.get() + 1;
         try {
-            while (true) {
+            while (is_running()) { // a halt may have come before the alert was cleared
                 try {
                     const int64_t available_sequence = sequence_barrier_.wait_for(next_sequence);
                     while (next_sequence <= available_sequence) {
@@ -115,9 +124,11 @@ public:
             }
         } catch (...) {
             running_.store(false, std::memory_order_release);
+            occupied_.store(false, std::memory_order_release);
             throw;
         }
         running_.store(false, std::memory_order_release);
+        occupied_.store(false, std::memory_order_release);
     }
 
 private:
@@ -126,6 +137,7 @@ private:
     typename TRingBuffer::sequence_barrier_type &sequence_barrier_;
     std::unique_ptr<typename TRingBuffer::sequence_barrier_type> sequence_barrier_ptr_;
     std::atomic<bool> running_;
+    std::atomic<bool> occupied_;
 };
 } // namespace disruptor4cpp
 
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
index c56db6d..008afb1 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
@@ -102,7 +102,8 @@ public:
         wait_strategy_.signal_all_when_blocking();
     }
 
-    void clear_alert() { alerted_.store(false, std::memory_order_release); }
+    // a read-modify-write, so that what was done before an alert that gets lost here is visible
+    void clear_alert() { alerted_.exchange(false, std::memory_order_acq_rel); }
 
     void check_alert() const
     {
-- 
2.43.0


From adc4881f1298d56f59065e7045e6c7bbc3487ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 12/45] fix: SafeEventEmitter once-listeners, queries and
 removeAllListeners

Concurrent or re-entrant emits ran a once-listener several times and threw out
of emitEvent; queries and removeAllListeners were not locked; removeAllListeners
passed a null pointer to the container for once-listeners.
---
 .../klepsydra/core/safe_event_emitter.h       | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index 6354945..9c05239 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -117,7 +117,7 @@ public:
                    const Event &event) override
     {
         spdlog::trace("{}. subscriberName: {}", __PRETTY_FUNCTION__, subscriberName);
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
 
@@ -132,10 +132,11 @@ public:
         }
 
         for (auto &h : handlers) {
-            h->runCallback(event, enqueuedTimeNs);
-            if (h->isOnce) {
-                removeListener(nullptr, h->id);
+            // a once-listener runs in the emit that takes it out, no matter how many emits saw it
+            if (h->isOnce && !eraseListener(h)) {
+                continue;
             }
+            h->runCallback(event, enqueuedTimeNs);
         }
     }
 
@@ -146,7 +147,7 @@ public:
      */
     void discardEvent(const std::string &subscriberName) override
     {
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
             auto range = listeners.equal_range(subscriberName);
@@ -176,6 +177,7 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
         auto i = std::find_if(listeners.begin(),
                               listeners.end(),
                               [&](std::pair<const std::string, std::shared_ptr<ListenerBase>> p) {
@@ -189,9 +191,13 @@ public:
 
     void removeAllListeners(Container *container) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
         if (container) {
             for (auto &subscriberListenerBasePair : listeners) {
-                container->detach(subscriberListenerBasePair.second->listenerStats.get());
+                // once-listeners have no statistics
+                if (subscriberListenerBasePair.second->listenerStats) {
+                    container->detach(subscriberListenerBasePair.second->listenerStats.get());
+                }
             }
         }
         // clear the map
@@ -242,6 +248,19 @@ private:
         }
     };
 
+    // returns whether the listener was still registered
+    bool eraseListener(const std::shared_ptr<ListenerBase> &listener)
+    {
+        std::lock_guard<std::mutex> lock(mutex);
+        for (auto i = listeners.begin(); i != listeners.end(); ++i) {
+            if (i->second == listener) {
+                listeners.erase(i);
+                return true;
+            }
+        }
+        return false;
+    }
+
     unsigned int addListener(Container *container,
                              const std::string &listenerName,
                              const std::string &subscriberName,
-- 
2.43.0


From 93abfa772b23fb2bcde8bbab5671098b9b06ddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 13/45] fix: event loops register once, survive failed starts
 and stop when destroyed

---
 .../klepsydra/high_performance/event_loop.h   | 32 ++++++++++++-------
 .../event_loop_middleware_provider.h          |  2 +-
 .../high_performance/event_loop_publisher.h   | 17 +++++++---
 3 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index 1c11a91..57cfb04 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -78,21 +78,23 @@ public:
         , _isStarted(false)
         , _eventLoopTask([this] {
             spdlog::trace("kpsr::high_perf::EventLoop::_eventLoopTask begin");
-            std::vector<disruptor4cpp::sequence *> sequences_to_add;
-            sequences_to_add.resize(1);
-            sequences_to_add[0] = &batchEventProcessor->get_sequence();
-            this->_ringBuffer.add_gating_sequences(sequences_to_add);
             spdlog::debug(EVENT_LOOP_START_MESSAGE);
             this->batchEventProcessor->run();
             spdlog::trace("kpsr::high_perf::EventLoop::_eventLoopTask end.");
         })
-        , _batchProcessTask(_eventLoopTask)
-        , _batchProcessorThreadFuture(_batchProcessTask.get_future())
         , _timeoutUs(timeoutUS)
     {
         auto barrier = _ringBuffer.new_barrier();
         batchEventProcessor = std::unique_ptr<BatchProcessor>(
             new BatchProcessor(_ringBuffer, std::move(barrier), _eventHandler, name));
+        // The gating sequences are not synchronised: register before there are publishers.
+        _ringBuffer.add_gating_sequences({&batchEventProcessor->get_sequence()});
+    }
+
+    ~EventLoop()
+    {
+        stop();
+        _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
     }
 
     /**
@@ -103,7 +105,13 @@ public:
         if (isStarted()) {
             return;
         }
-        batchProcessorThread = std::thread(std::move(_batchProcessTask));
+        // Skip what was published while stopped, but no slot that a publisher is still writing.
+        disruptor4cpp::sequence &sequence = batchEventProcessor->get_sequence();
+        sequence.set(_ringBuffer.get_highest_published_sequence(sequence.get() + 1,
+                                                                _ringBuffer.get_cursor()));
+        std::packaged_task<void()> batchProcessTask(_eventLoopTask);
+        _batchProcessorThreadFuture = batchProcessTask.get_future();
+        batchProcessorThread = std::thread(std::move(batchProcessTask));
         spdlog::debug(
             "kpsr::high_perf::EventLoop::start. Starting the event loop here with threadname {}",
             _threadName);
@@ -128,15 +136,18 @@ public:
             return;
         }
         _isStarted.store(false, std::memory_order_release);
+        // A halt before the thread has entered its run loop would be lost.
+        while (!this->batchEventProcessor->is_running() &&
+               _batchProcessorThreadFuture.wait_for(std::chrono::microseconds(0)) !=
+                   std::future_status::ready) {
+            std::this_thread::sleep_for(std::chrono::microseconds(100));
+        }
         this->batchEventProcessor->halt();
         spdlog::debug("kpsr::high_perf::EventLoop::stop. Halting the batchEventProcessor");
         if (this->batchProcessorThread.joinable()) {
             this->batchProcessorThread.join();
         }
         spdlog::debug("kpsr::high_perf::EventLoop::stop. Eventloop {} stopped.", this->_name);
-        // make _batchProcessTask reusable
-        _batchProcessTask = std::packaged_task<void()>(_eventLoopTask);
-        _batchProcessorThreadFuture = _batchProcessTask.get_future();
     }
 
     bool isStarted() { return _isStarted.load(std::memory_order_acquire); }
@@ -153,7 +164,6 @@ private:
     std::unique_ptr<BatchProcessor> batchEventProcessor;
     std::atomic_bool _isStarted;
     std::function<void()> _eventLoopTask;
-    std::packaged_task<void()> _batchProcessTask;
     std::thread batchProcessorThread;
     std::future<void> _batchProcessorThreadFuture;
     const long _timeoutUs;
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
index e063641..e59e281 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
@@ -88,7 +88,7 @@ public:
         , _scheduler(nullptr)
     {}
 
-    ~EventLoopMiddlewareProvider() {}
+    ~EventLoopMiddlewareProvider() { stop(); }
 
     template<class T>
     /**
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
index 22a5a45..7f3917a 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
@@ -117,13 +117,22 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _prePublishingStep(seq);
-            _ringBuffer[seq].eventData = std::static_pointer_cast<const void>(event);
-            _ringBuffer[seq].eventName = _eventName;
+            try {
+                _prePublishingStep(seq);
+                _ringBuffer[seq].eventData = std::static_pointer_cast<const void>(event);
+                _ringBuffer[seq].eventName = _eventName;
+            } catch (...) {
+                // Hand the claimed slot over empty, or the event loop would wait for it forever.
+                _ringBuffer[seq].eventData.reset();
+                _ringBuffer[seq].eventName.clear();
+                _ringBuffer.publish(seq);
+                throw;
+            }
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
             spdlog::info("EventLoopPublisher::internalPublish. no more capacity.{}", _eventName);
-            _discardedMessages++;
+            // Threads may share the publisher.
+            __atomic_fetch_add(&_discardedMessages, 1, __ATOMIC_RELAXED);
         }
     }
 
-- 
2.43.0


From d523fb25dbd9d125bfff6571deb1b74a30cc7c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 14/45] fix: data multiplexer slots shared one event, lost on
 exceptions and failed starts

---
 .../data_multiplexer_middleware_provider.h    |  4 +-
 .../data_multiplexer_publisher.h              | 21 +++++++++--
 .../data_multiplexer_subscriber.h             | 37 ++++++++++++-------
 3 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
index 2339a4b..ad28390 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
@@ -108,7 +108,9 @@ public:
         : _name(name)
         , _container(container)
         , _modelEvent(new DataMultiplexerDataWrapper<TEvent>(std::make_shared<TEvent>(event)))
-        , _ringBuffer(_modelEvent.get())
+        , _ringBuffer([this](DataMultiplexerDataWrapper<TEvent> &slot) {
+            *slot.eventData = *_modelEvent->eventData; // the slots are written in place
+        })
         , _publisher(container, name, eventCloner, _ringBuffer)
     {}
 
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
index dfe006e..4446eaa 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
@@ -97,7 +97,9 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventCloner(event, _ringBuffer[seq].eventData);
+            fillSlot(seq, [&](std::shared_ptr<TEvent> &eventData) {
+                _eventCloner(event, eventData);
+            });
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -116,7 +118,9 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventClonerSharedPtr(event, _ringBuffer[seq].eventData);
+            fillSlot(seq, [&](std::shared_ptr<TEvent> &eventData) {
+                _eventClonerSharedPtr(event, eventData);
+            });
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -136,7 +140,7 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            process(*_ringBuffer[seq].eventData);
+            fillSlot(seq, [&](std::shared_ptr<TEvent> &eventData) { process(*eventData); });
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -148,6 +152,17 @@ public:
     }
 
 private:
+    template<typename Fill>
+    void fillSlot(int64_t seq, Fill fill)
+    {
+        try {
+            fill(_ringBuffer[seq].eventData);
+        } catch (...) {
+            _ringBuffer.claim(seq - 1); // nothing is published: give the slot back
+            throw;
+        }
+    }
+
     RingBuffer &_ringBuffer;
     std::function<void(const TEvent &, std::shared_ptr<TEvent> &)> _eventCloner;
     std::function<void(std::shared_ptr<const TEvent> &, std::shared_ptr<TEvent> &)>
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
index 47c3530..e0798e8 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
@@ -79,13 +79,7 @@ public:
         , _ringBuffer(ringBuffer)
         , _eventHandler(this->name, this->_eventEmitter)
         , _started(false)
-        , _batchProcessorTask([this] {
-            std::vector<disruptor4cpp::sequence *> sequences_to_add;
-            sequences_to_add.resize(1);
-            sequences_to_add[0] = &batchEventProcessor.get()->get_sequence();
-            this->_ringBuffer.add_gating_sequences(sequences_to_add);
-            this->batchEventProcessor->run();
-        })
+        , _batchProcessorTask([this] { this->batchEventProcessor->run(); })
         , _batchProcessorThread()
         , _batchProcessorThreadFuture(_batchProcessorTask.get_future())
         , _timeoutUs(timeoutUS)
@@ -94,7 +88,13 @@ public:
         batchEventProcessor = std::unique_ptr<BatchProcessor>(
             new BatchProcessor(_ringBuffer, std::move(barrier), _eventHandler, this->name));
 
-        _batchProcessorThread = std::thread(std::move(_batchProcessorTask));
+        _ringBuffer.add_gating_sequences({&batchEventProcessor->get_sequence()});
+        try {
+            _batchProcessorThread = std::thread(std::move(_batchProcessorTask));
+        } catch (...) {
+            _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
+            throw;
+        }
         _started = true;
         spdlog::debug("{}. DataMultiplexerSubscriber with name {} has been started.",
                       __PRETTY_FUNCTION__,
@@ -102,6 +102,7 @@ public:
         long counterUs = 0;
         while (!this->batchEventProcessor->is_running()) {
             if (counterUs > _timeoutUs) {
+                stop(); // there will be no destructor to do it
                 throw std::runtime_error("Could not start the DataMultiplexerListener");
             }
             std::this_thread::sleep_for(std::chrono::microseconds(100));
@@ -111,22 +112,32 @@ public:
 
     virtual ~DataMultiplexerSubscriber()
     {
-        // TODO Move this to stop method and/or ensure all listeners are removed.
+        // TODO ensure all listeners are removed.
+        stop();
+    }
+
+    std::unique_ptr<BatchProcessor> batchEventProcessor;
+
+private:
+    void stop()
+    {
         if (!_started) {
             return;
         }
-        while (!batchEventProcessor->is_running()) {
+        _started = false;
+        // A halt before the thread has entered its run loop would be lost.
+        while (!batchEventProcessor->is_running() &&
+               _batchProcessorThreadFuture.wait_for(std::chrono::microseconds(0)) !=
+                   std::future_status::ready) {
             std::this_thread::sleep_for(std::chrono::microseconds(1));
         }
         batchEventProcessor->halt();
         if (_batchProcessorThread.joinable()) {
             _batchProcessorThread.join();
         }
+        _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
     }
 
-    std::unique_ptr<BatchProcessor> batchEventProcessor;
-
-private:
     RingBuffer &_ringBuffer;
     DataMultiplexerEventHandler<TEvent> _eventHandler;
     std::atomic<bool> _started;
-- 
2.43.0


From 786f9437ed9e4ccaa91b3236eeebffc30ef8ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 15/45] fix: threads sharing a concurrent publisher must not
 share its producer token unlocked

---
 .../klepsydra/mem_core/concurrent_queue_publisher.h       | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_publisher.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_publisher.h
index 84c25cc..84fc7df 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_publisher.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_publisher.h
@@ -17,6 +17,8 @@
 #ifndef CONCURRENT_PUBLISHER_H
 #define CONCURRENT_PUBLISHER_H
 
+#include <mutex>
+
 #include <klepsydra/core/object_pool_publisher.h>
 
 #include <concurrentqueue.h>
@@ -75,6 +77,7 @@ public:
             _internalQueuePush = [&](EventData<const T> &safeQueueEvent) {
                 // Non-blocking call
                 uint discardedItems = 0;
+                std::lock_guard<std::mutex> lock(_tokenMutex);
                 while (!_internalQueue.try_enqueue(_token, safeQueueEvent)) {
                     EventData<const T> dummyEvent;
                     bool removed = _internalQueue.try_dequeue_from_producer(_token, dummyEvent);
@@ -87,8 +90,11 @@ public:
         } else {
             _internalQueuePush = [&](EventData<const T> &safeQueueEvent) {
                 // Blocking call
+                std::unique_lock<std::mutex> lock(_tokenMutex);
                 while (!_internalQueue.try_enqueue(_token, safeQueueEvent)) {
+                    lock.unlock();
                     std::this_thread::sleep_for(std::chrono::microseconds(10));
+                    lock.lock();
                 }
             };
         }
@@ -115,6 +121,8 @@ private:
     moodycamel::ConcurrentQueue<EventData<const T>> &_internalQueue;
     bool _discardItemsWhenFull;
     moodycamel::ProducerToken &_token;
+    // A producer token must not be used by several threads at once, a publisher may be.
+    std::mutex _tokenMutex;
     std::function<void(EventData<const T> &)> _internalQueuePush;
     std::function<long long unsigned int(void)> _updateTime;
 };
-- 
2.43.0


From a5efbfb994b72b7650ed889c8ceecfa1d460be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 16/45] fix: in-memory pollers survive slow or failed starts,
 throwing listeners and destruction while running

---
 .../mem_core/basic_middleware_provider.h      |  3 +++
 .../mem_core/concurrent_middleware_provider.h |  3 +++
 .../mem_core/concurrent_queue_poller.h        |  2 ++
 .../mem_core/in_memory_queue_poller.h         |  3 ---
 .../klepsydra/mem_core/safe_queue_poller.h    |  2 ++
 .../mem_mdlw/src/in_memory_queue_poller.cpp   | 25 +++++++++++++------
 6 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
index 8601697..049192a 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
@@ -78,6 +78,9 @@ public:
             new SafeQueuePoller<T>(_internalQueue, this->_eventEmitter, eventName, 1000));
     }
 
+    // The poller must not outlive the queue.
+    ~BasicMiddlewareProvider() { this->_poller.reset(); }
+
     SafeQueue<EventData<const T>> _internalQueue;
 };
 } // namespace mem
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
index a14246f..e4f3335 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
@@ -86,6 +86,9 @@ public:
                                          _token));
     }
 
+    // The poller must not outlive the queue.
+    ~ConcurrentMiddlewareProvider() { this->_poller.reset(); }
+
     /**
      * @brief _internalQueue
      */
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
index 04b0a68..9438099 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
@@ -70,6 +70,8 @@ public:
         , _token(token)
     {}
 
+    ~ConcurrentQueuePoller() { this->stop(); }
+
 private:
     void takeEventFromQueue() override
     {
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/in_memory_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/in_memory_queue_poller.h
index 2b802bc..6a6dc6e 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/in_memory_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/in_memory_queue_poller.h
@@ -63,8 +63,6 @@ public:
         , _eventName(eventName)
         , _threadNotifier()
         , _sleepPeriodUS(sleepPeriodUS)
-        , _loopFunction(std::bind(&InMemoryQueuePoller::pollingLoop, this))
-        , _threadNotifierFuture(_loopFunction.get_future())
         , _timeoutUs(timeoutMS * 1000)
     {}
 
@@ -102,7 +100,6 @@ protected:
     unsigned int _sleepPeriodUS;
 
 private:
-    std::packaged_task<void()> _loopFunction;
     std::future<void> _threadNotifierFuture;
     long _timeoutUs;
 };
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
index 512cfdb..4fbf3c4 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
@@ -63,6 +63,8 @@ public:
         , _internalQueue(safeQueue)
     {}
 
+    ~SafeQueuePoller() { this->stop(); }
+
 private:
     void takeEventFromQueue() override
     {
diff --git a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
index 9f397b6..1a1119f 100644
--- a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
+++ b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
@@ -22,8 +22,10 @@ void InMemoryQueuePoller::start()
     if (isStarted()) {
         return;
     }
+    std::packaged_task<void()> loopFunction(std::bind(&InMemoryQueuePoller::pollingLoop, this));
+    _threadNotifierFuture = loopFunction.get_future();
+    _threadNotifier = std::thread(std::move(loopFunction));
     this->_started.store(true, std::memory_order_release);
-    _threadNotifier = std::thread(std::move(_loopFunction));
     int counterUs = 0;
     while (!isRunning()) {
         if (counterUs > _timeoutUs) {
@@ -39,28 +41,35 @@ void InMemoryQueuePoller::stop()
     if (!isStarted()) {
         return;
     }
+    // A thread that has not entered its loop yet would miss that it has to stop.
+    while (!isRunning() && _threadNotifierFuture.wait_for(std::chrono::microseconds(0)) !=
+                               std::future_status::ready) {
+        std::this_thread::sleep_for(std::chrono::microseconds(100));
+    }
     _running.store(false, std::memory_order_release);
     if (_threadNotifier.joinable()) {
         _threadNotifier.join();
     }
-    _loopFunction = (std::packaged_task<void()>(
-        std::bind(&InMemoryQueuePoller::pollingLoop, this))); // to allow restarting
     _started.store(false, std::memory_order_release);
 }
 
 InMemoryQueuePoller::~InMemoryQueuePoller()
 {
-    _running = false;
-    if (_threadNotifier.joinable()) {
-        _threadNotifier.join();
-    }
+    // Derived classes have to stop on their own: the loop uses their members.
+    stop();
 }
 
 void InMemoryQueuePoller::pollingLoop()
 {
     _running.store(true, std::memory_order_release);
     while (isRunning()) {
-        takeEventFromQueue();
+        try {
+            takeEventFromQueue();
+        } catch (const std::exception &ex) {
+            spdlog::error("InMemoryQueuePoller. Exception while processing {}: {}",
+                          _eventName,
+                          ex.what());
+        }
     }
 }
 
-- 
2.43.0


From e69598c9ff9aaed1b8c6f478cb35e620e04b7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 17/45] fix: scheduler keeps time by the steady clock and
 always stops its tasks

A repeating task measured its run time with the system clock, so a clock
adjustment made it run early or not for the length of the jump, and runs of
more than 2^31 us overflowed. Destroying the scheduler, or scheduling another
task under the name of one that had not been stopped, destroyed a joinable
thread and terminated the process. The task map was not protected although
tasks run on threads of their own and may use the scheduler.
---
 .../klepsydra/mem_core/basic_scheduler.h      |  8 +++
 core/modules/mem_mdlw/src/basic_scheduler.cpp | 52 +++++++++++++++----
 2 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
index 4d75aa9..827ced7 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
@@ -21,6 +21,7 @@
 #include <future>
 #include <map>
 #include <memory>
+#include <mutex>
 #include <thread>
 
 #include <klepsydra/sdk/scheduler.h>
@@ -38,6 +39,11 @@ namespace mem {
 class BasicScheduler : public Scheduler
 {
 public:
+    /**
+     * @brief Stops the tasks that are still scheduled.
+     */
+    virtual ~BasicScheduler();
+
     /**
      * @brief Start Scheduled Task
      * @param name Name of task
@@ -99,10 +105,12 @@ private:
         int _after;
         bool _repeat;
         std::atomic_bool _isRunning;
+        std::mutex _stopMutex;
         std::thread _thread;
         std::function<void()> _task;
     };
 
+    std::mutex _threadMapMutex;
     std::map<std::string, std::shared_ptr<ScheduledThread>> _threadMap;
 };
 } // namespace mem
diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index c138501..54308b2 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -34,7 +34,7 @@ void kpsr::mem::BasicScheduler::ScheduledThread::start()
             long long before = 0;
             long long after = 0;
             while (_isRunning) {
-                int effectiveSleepTime = _after - (after - before);
+                long long effectiveSleepTime = _after - (after - before);
                 if (effectiveSleepTime > 0) {
                     std::this_thread::sleep_for(std::chrono::microseconds(effectiveSleepTime));
                 } else {
@@ -43,11 +43,11 @@ void kpsr::mem::BasicScheduler::ScheduledThread::start()
                         effectiveSleepTime);
                 }
                 before = std::chrono::duration_cast<std::chrono::microseconds>(
-                             std::chrono::system_clock::now().time_since_epoch())
+                             std::chrono::steady_clock::now().time_since_epoch())
                              .count();
                 _task();
                 after = std::chrono::duration_cast<std::chrono::microseconds>(
-                            std::chrono::system_clock::now().time_since_epoch())
+                            std::chrono::steady_clock::now().time_since_epoch())
                             .count();
             }
         } else {
@@ -64,26 +64,60 @@ void kpsr::mem::BasicScheduler::ScheduledThread::start()
 void kpsr::mem::BasicScheduler::ScheduledThread::stop()
 {
     _isRunning = false;
+    std::lock_guard<std::mutex> lock(_stopMutex);
     if (_thread.joinable()) {
         _thread.join();
     }
 }
 
+kpsr::mem::BasicScheduler::~BasicScheduler()
+{
+    std::unique_lock<std::mutex> lock(_threadMapMutex);
+    while (!_threadMap.empty()) {
+        const std::string name = _threadMap.begin()->first;
+        lock.unlock();
+        stopScheduledTask(name);
+        lock.lock();
+    }
+}
+
 void kpsr::mem::BasicScheduler::startScheduledTask(const std::string &name,
                                                    int after,
                                                    bool repeat,
                                                    std::function<void()> task)
 {
-    _threadMap[name] = std::shared_ptr<ScheduledThread>(
-        new ScheduledThread(name, after, repeat, task));
-    _threadMap[name]->start();
+    std::shared_ptr<ScheduledThread> newThread = std::make_shared<ScheduledThread>(name,
+                                                                                   after,
+                                                                                   repeat,
+                                                                                   task);
+    // A task already scheduled under this name is stopped before it is replaced.
+    std::unique_lock<std::mutex> lock(_threadMapMutex);
+    while (_threadMap.find(name) != _threadMap.end()) {
+        lock.unlock();
+        stopScheduledTask(name);
+        lock.lock();
+    }
+    _threadMap[name] = newThread;
+    newThread->start();
 }
 
 void kpsr::mem::BasicScheduler::stopScheduledTask(const std::string &name)
 {
-    if (_threadMap.find(name) != _threadMap.end()) {
-        _threadMap[name]->stop();
-        _threadMap.erase(name);
+    std::shared_ptr<ScheduledThread> thread;
+    {
+        std::lock_guard<std::mutex> lock(_threadMapMutex);
+        auto it = _threadMap.find(name);
+        if (it == _threadMap.end()) {
+            return;
+        }
+        thread = it->second;
+    }
+    // The map is not locked here: the task can be using this scheduler for other tasks.
+    thread->stop();
+    std::lock_guard<std::mutex> lock(_threadMapMutex);
+    auto it = _threadMap.find(name);
+    if (it != _threadMap.end() && it->second == thread) {
+        _threadMap.erase(it);
     }
 }
 
-- 
2.43.0


From 2814a0cd8a6752d7fc806dfe972e4223cb594af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 18/45] fix: sockets close their descriptor once and report
 failures

close() took success for failure and the other way round: it threw after a
successful close with the handle still valid, so that the destructor closed the
descriptor number again, which may belong to somebody else by then. An
interrupted close was repeated. Writing to a connection closed by the peer
raised SIGPIPE instead of returning EPIPE. A connection on descriptor 0 could
not be read. accept() wrote beyond its fd_set for descriptors over FD_SETSIZE
and leaked the connection when out of memory. A failing fcntl went unnoticed.
---
 .../klepsydra/socket_core/data_socket.tpp     |  2 +-
 core/modules/socket_mdlw/src/base_socket.cpp  | 46 +++++++++----------
 core/modules/socket_mdlw/src/data_socket.cpp  |  7 ++-
 .../modules/socket_mdlw/src/server_socket.cpp | 21 +++++++--
 4 files changed, 47 insertions(+), 29 deletions(-)

diff --git a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
index c9323ea..f48a401 100644
--- a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
+++ b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
@@ -35,7 +35,7 @@ template<typename F>
  */
 std::size_t DataSocket::getMessageData(char* buffer, std::size_t size, F scanForEnd)
 {
-    if (getSocketId() == 0)
+    if (getSocketId() == invalidSocketId)
     {
         throw std::logic_error(buildErrorMessage("DataSocket::", __func__, ": accept called on a bad socket object (this object was moved)"));
     }
diff --git a/core/modules/socket_mdlw/src/base_socket.cpp b/core/modules/socket_mdlw/src/base_socket.cpp
index 506ef7b..b535c97 100644
--- a/core/modules/socket_mdlw/src/base_socket.cpp
+++ b/core/modules/socket_mdlw/src/base_socket.cpp
@@ -58,30 +58,30 @@ void kpsr::socket_mdlw::BaseSocket::close()
                               __func__,
                               ": accept called on a bad socket object (this object was moved)"));
     }
-    while (true) {
-        int state = ::close(socketId);
-        if (state == invalidSocketId) {
-            break;
-        }
-        switch (errno) {
-        case EBADF:
-            throw std::domain_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EBADF: ", socketId, " ", std::strerror(errno)));
-        case EIO:
-            throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EIO:  ", socketId, " ", std::strerror(errno)));
-        case EINTR: {
-            // TODO: Check for user interrupt flags.
-            //       Beyond the scope of this project
-            //       so continue normal operations.
-            break;
-        }
-        default:
-            throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: ???:  ", socketId, " ", std::strerror(errno)));
-        }
-    }
+    // The descriptor is released whatever close returns. It cannot be closed again as it may
+    // already belong to somebody else.
+    int const closingId = socketId;
     socketId = invalidSocketId;
+    if (::close(closingId) == 0) {
+        return;
+    }
+    switch (errno) {
+    case EBADF:
+        throw std::domain_error(buildErrorMessage(
+            "BaseSocket::", __func__, ": close: EBADF: ", closingId, " ", std::strerror(errno)));
+    case EIO:
+        throw std::runtime_error(buildErrorMessage(
+            "BaseSocket::", __func__, ": close: EIO:  ", closingId, " ", std::strerror(errno)));
+    case EINTR: {
+        // TODO: Check for user interrupt flags.
+        //       Beyond the scope of this project
+        //       so continue normal operations.
+        break;
+    }
+    default:
+        throw std::runtime_error(buildErrorMessage(
+            "BaseSocket::", __func__, ": close: ???:  ", closingId, " ", std::strerror(errno)));
+    }
 }
 
 void kpsr::socket_mdlw::BaseSocket::swap(kpsr::socket_mdlw::BaseSocket &other) noexcept
diff --git a/core/modules/socket_mdlw/src/data_socket.cpp b/core/modules/socket_mdlw/src/data_socket.cpp
index b8b9590..5d3b6da 100644
--- a/core/modules/socket_mdlw/src/data_socket.cpp
+++ b/core/modules/socket_mdlw/src/data_socket.cpp
@@ -14,6 +14,7 @@
 
 #include <arpa/inet.h>
 #include <cstring>
+#include <sys/socket.h>
 #include <unistd.h>
 
 #include <klepsydra/socket_core/data_socket.h>
@@ -24,7 +25,11 @@ void kpsr::socket_mdlw::DataSocket::putMessageData(char const *buffer, std::size
     std::size_t dataWritten = 0;
 
     while (dataWritten < size) {
-        std::size_t put = write(getSocketId(), buffer + dataWritten, size - dataWritten);
+        // No SIGPIPE, which ends the process: a connection closed by the peer is reported as EPIPE.
+        std::size_t put = ::send(getSocketId(),
+                                 buffer + dataWritten,
+                                 size - dataWritten,
+                                 MSG_NOSIGNAL);
         if (put == static_cast<std::size_t>(-1)) {
             switch (errno) {
             case EINVAL:
diff --git a/core/modules/socket_mdlw/src/server_socket.cpp b/core/modules/socket_mdlw/src/server_socket.cpp
index 31bcae1..3a627c9 100644
--- a/core/modules/socket_mdlw/src/server_socket.cpp
+++ b/core/modules/socket_mdlw/src/server_socket.cpp
@@ -31,7 +31,11 @@ kpsr::socket_mdlw::ServerSocket::ServerSocket(int port)
     serverAddr.sin_addr.s_addr = INADDR_ANY;
 
     // Set the server socket to non-blocking
-    ::fcntl(getSocketId(), F_SETFL, O_NONBLOCK);
+    if (::fcntl(getSocketId(), F_SETFL, O_NONBLOCK) != 0) {
+        close();
+        throw std::runtime_error(
+            buildErrorMessage("ServerSocket::", __func__, ": fcntl: ", strerror(errno)));
+    }
 
     if (::bind(getSocketId(), (struct sockaddr *) &serverAddr, sizeof(serverAddr)) != 0) {
         close();
@@ -55,7 +59,11 @@ kpsr::socket_mdlw::ServerSocket::ServerSocket(const std::string &socketPath)
     strncpy(serverAddr.sun_path, socketPath.data(), sizeof(serverAddr.sun_path) - 1);
 
     // Set the server socket to non-blocking
-    ::fcntl(getSocketId(), F_SETFL, O_NONBLOCK);
+    if (::fcntl(getSocketId(), F_SETFL, O_NONBLOCK) != 0) {
+        close();
+        throw std::runtime_error(
+            buildErrorMessage("ServerSocket::", __func__, ": fcntl: ", strerror(errno)));
+    }
 
     if (::bind(getSocketId(), (struct sockaddr *) &serverAddr, sizeof(serverAddr)) != 0) {
         close();
@@ -79,6 +87,11 @@ std::shared_ptr<kpsr::socket_mdlw::DataSocket> kpsr::socket_mdlw::ServerSocket::
                               ": accept called on a bad socket object (this object was moved)"));
     }
 
+    if (getSocketId() >= FD_SETSIZE) {
+        throw std::runtime_error(
+            buildErrorMessage("ServerSocket:", __func__, ": accept: descriptor too big for select"));
+    }
+
     struct timeval tv;
     fd_set readfds;
 
@@ -103,6 +116,6 @@ std::shared_ptr<kpsr::socket_mdlw::DataSocket> kpsr::socket_mdlw::ServerSocket::
         throw std::runtime_error(
             buildErrorMessage("ServerSocket:", __func__, ": accept: ", strerror(errno)));
     }
-    return std::shared_ptr<kpsr::socket_mdlw::DataSocket>(
-        new kpsr::socket_mdlw::DataSocket(newSocket));
+    kpsr::socket_mdlw::DataSocket acceptedSocket(newSocket);
+    return std::make_shared<kpsr::socket_mdlw::DataSocket>(std::move(acceptedSocket));
 }
-- 
2.43.0


From 6f930441dfeab0ffd4ba7b3d24468cba04cd3c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 19/45] fix: request/reply handlers run callbacks and publish
 without holding their request list

A callback that issued a request invalidated the vector it was called from,
and MultiThreadCallbackHandler deadlocked when a reply arrived during the
publication or when a callback issued a request.
---
 .../include/klepsydra/core/callback_handler.h | 55 ++++++++++++++-----
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/callback_handler.h b/core/modules/core/include/klepsydra/core/callback_handler.h
index 6808a56..10a59cb 100644
--- a/core/modules/core/include/klepsydra/core/callback_handler.h
+++ b/core/modules/core/include/klepsydra/core/callback_handler.h
@@ -116,22 +116,18 @@ public:
     virtual void requestAndReply(const Request &request,
                                  const std::function<void(const Reply &)> &callback)
     {
-        std::pair<Request, std::function<void(const Reply &)>> pair = std::make_pair(request,
-                                                                                     callback);
-        _requestCallbackVector.push_back(pair);
+        addRequest(request, callback);
         _publisher->publish(request);
     }
 
 protected:
     virtual void onReplyReceived(const Reply &reply)
     {
-        for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end();) {
-            if (_correlationFunction((*it).first, reply)) {
-                (*it).second(reply);
-                _requestCallbackVector.erase(it);
-                return;
-            }
-            ++it;
+        // The request is no longer pending when its callback runs: the callback may issue requests.
+        std::function<void(const Reply &)> callback;
+        if (takeCallback(reply, callback)) {
+            callback(reply);
+            return;
         }
         spdlog::info(
             "CallbackHandler::onReplyReceived. Reply not mapped. Callback name: {}. _publisher: {}",
@@ -139,6 +135,30 @@ protected:
             _publisher->name);
     }
 
+    virtual void addRequest(const Request &request,
+                            const std::function<void(const Reply &)> &callback)
+    {
+        std::pair<Request, std::function<void(const Reply &)>> pair = std::make_pair(request,
+                                                                                     callback);
+        _requestCallbackVector.push_back(pair);
+    }
+
+    /**
+     * @brief takeCallback removes the request that is correlated to the reply.
+     * @return false if there is no such request.
+     */
+    virtual bool takeCallback(const Reply &reply, std::function<void(const Reply &)> &callback)
+    {
+        for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end(); ++it) {
+            if (_correlationFunction((*it).first, reply)) {
+                callback = std::move((*it).second);
+                _requestCallbackVector.erase(it);
+                return true;
+            }
+        }
+        return false;
+    }
+
 private:
     Publisher<Request> *_publisher;
     Subscriber<Reply> *_subscriber;
@@ -229,18 +249,27 @@ public:
     void requestAndReply(const Request &request,
                          const std::function<void(const Reply &)> &callback) override
     {
-        std::lock_guard<std::mutex> lock(_mutex);
+        std::lock_guard<std::recursive_mutex> lock(_publishMutex);
         CallbackHandler<Request, Reply>::requestAndReply(request, callback);
     }
 
 protected:
-    void onReplyReceived(const Reply &reply) override
+    void addRequest(const Request &request,
+                    const std::function<void(const Reply &)> &callback) override
+    {
+        std::lock_guard<std::mutex> lock(_mutex);
+        CallbackHandler<Request, Reply>::addRequest(request, callback);
+    }
+
+    bool takeCallback(const Reply &reply, std::function<void(const Reply &)> &callback) override
     {
         std::lock_guard<std::mutex> lock(_mutex);
-        CallbackHandler<Request, Reply>::onReplyReceived(reply);
+        return CallbackHandler<Request, Reply>::takeCallback(reply, callback);
     }
 
 private:
+    // Serialises the publications only: replies may arrive, and callbacks run, during a publication.
+    mutable std::recursive_mutex _publishMutex;
     mutable std::mutex _mutex;
 };
 } // namespace kpsr
-- 
2.43.0


From ee5b0ae0eecae71bb5225e43bffd7657cbd4a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 20/45] fix: container detaches the object it is given and
 guards its registries

Detaching one publisher removed all of them, detaching by name removed an
equally named other object, statistics of services could not be detached, and
starting or stopping iterated over the registries without their locks.
---
 .../include/klepsydra/core/core_container.h   |  7 ++-
 core/modules/core/src/core_container.cpp      | 56 +++++++++++--------
 2 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/core_container.h b/core/modules/core/include/klepsydra/core/core_container.h
index 9c3c11d..fcb54d5 100644
--- a/core/modules/core/include/klepsydra/core/core_container.h
+++ b/core/modules/core/include/klepsydra/core/core_container.h
@@ -99,6 +99,12 @@ public:
      */
     void attach(ServiceStats *serviceStats);
 
+    /**
+     * @brief detach a service statistics from the container
+     * @param serviceStats Pointer to a service stats.
+     */
+    void detach(ServiceStats *serviceStats);
+
     /**
      * @brief attach a publication statistics to the container
      * @param publicationStats Pointer to a publication stats.
@@ -138,7 +144,6 @@ protected:
     std::vector<PublicationStats *> _publicationStats;
     std::vector<SubscriptionStats *> _subscriptionStats;
     mutable std::mutex _serviceMutex;
-    mutable std::mutex _serviceStatsMutex;
     mutable std::mutex _publishStatsMutex;
     mutable std::mutex _subscriptionStatsMutex;
     mutable std::mutex _functionStatsMutex;
diff --git a/core/modules/core/src/core_container.cpp b/core/modules/core/src/core_container.cpp
index b1d9542..87344dc 100644
--- a/core/modules/core/src/core_container.cpp
+++ b/core/modules/core/src/core_container.cpp
@@ -35,6 +35,12 @@ kpsr::CoreContainer::~CoreContainer()
 
 void kpsr::CoreContainer::start()
 {
+    std::lock(_serviceMutex, _functionStatsMutex, _publishStatsMutex, _subscriptionStatsMutex);
+    std::lock_guard<std::mutex> serviceLock(_serviceMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> functionLock(_functionStatsMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> publishLock(_publishStatsMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> subscriptionLock(_subscriptionStatsMutex, std::adopt_lock);
+
     _running = true;
 
     for (auto stats : _serviceStats) {
@@ -56,6 +62,12 @@ void kpsr::CoreContainer::start()
 
 void kpsr::CoreContainer::stop()
 {
+    std::lock(_serviceMutex, _functionStatsMutex, _publishStatsMutex, _subscriptionStatsMutex);
+    std::lock_guard<std::mutex> serviceLock(_serviceMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> functionLock(_functionStatsMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> publishLock(_publishStatsMutex, std::adopt_lock);
+    std::lock_guard<std::mutex> subscriptionLock(_subscriptionStatsMutex, std::adopt_lock);
+
     _running = false;
 
     for (auto stats : _serviceStats) {
@@ -98,21 +110,13 @@ void kpsr::CoreContainer::detach(Service *service)
     }
     std::lock_guard<std::mutex> lock(_serviceMutex);
     {
-        auto itr = std::find_if(_managedServices.begin(),
-                                _managedServices.end(),
-                                [service](Service *item) {
-                                    return item->serviceStats.name == service->serviceStats.name;
-                                });
+        auto itr = std::find(_managedServices.begin(), _managedServices.end(), service);
         if (itr != _managedServices.end()) {
             _managedServices.erase(itr);
         }
     }
     {
-        auto itr = std::find_if(_serviceStats.begin(),
-                                _serviceStats.end(),
-                                [service](ServiceStats *item) {
-                                    return item->name == service->serviceStats.name;
-                                });
+        auto itr = std::find(_serviceStats.begin(), _serviceStats.end(), &service->serviceStats);
         if (itr != _serviceStats.end()) {
             _serviceStats.erase(itr);
         }
@@ -141,11 +145,7 @@ void kpsr::CoreContainer::detach(FunctionStats *functionStats)
         return;
     }
     std::lock_guard<std::mutex> lock(_functionStatsMutex);
-    auto itr = std::find_if(_functionStats.begin(),
-                            _functionStats.end(),
-                            [functionStats](FunctionStats *item) {
-                                return item->name == functionStats->name;
-                            });
+    auto itr = std::find(_functionStats.begin(), _functionStats.end(), functionStats);
     if (itr != _functionStats.end()) {
         _functionStats.erase(itr);
     }
@@ -156,7 +156,7 @@ void kpsr::CoreContainer::attach(ServiceStats *serviceStats)
     if (nullptr == serviceStats) {
         return;
     }
-    std::lock_guard<std::mutex> lock(_serviceStatsMutex);
+    std::lock_guard<std::mutex> lock(_serviceMutex);
     _serviceStats.push_back(serviceStats);
     if (_running) {
         spdlog::info(
@@ -167,6 +167,18 @@ void kpsr::CoreContainer::attach(ServiceStats *serviceStats)
     }
 }
 
+void kpsr::CoreContainer::detach(ServiceStats *serviceStats)
+{
+    if (nullptr == serviceStats) {
+        return;
+    }
+    std::lock_guard<std::mutex> lock(_serviceMutex);
+    auto itr = std::find(_serviceStats.begin(), _serviceStats.end(), serviceStats);
+    if (itr != _serviceStats.end()) {
+        _serviceStats.erase(itr);
+    }
+}
+
 void kpsr::CoreContainer::attach(PublicationStats *publicationStats)
 {
     if (nullptr == publicationStats) {
@@ -205,11 +217,7 @@ void kpsr::CoreContainer::detach(SubscriptionStats *subscriptionStats)
         return;
     }
     std::lock_guard<std::mutex> lock(_subscriptionStatsMutex);
-    auto itr = std::find_if(_subscriptionStats.begin(),
-                            _subscriptionStats.end(),
-                            [subscriptionStats](SubscriptionStats *item) {
-                                return item->name == subscriptionStats->name;
-                            });
+    auto itr = std::find(_subscriptionStats.begin(), _subscriptionStats.end(), subscriptionStats);
     if (itr != _subscriptionStats.end()) {
         _subscriptionStats.erase(itr);
     }
@@ -220,7 +228,11 @@ void kpsr::CoreContainer::detach(PublicationStats *publicationStats)
     if (nullptr == publicationStats) {
         return;
     }
-    _publicationStats.clear();
+    std::lock_guard<std::mutex> lock(_publishStatsMutex);
+    auto itr = std::find(_publicationStats.begin(), _publicationStats.end(), publicationStats);
+    if (itr != _publicationStats.end()) {
+        _publicationStats.erase(itr);
+    }
 }
 
 std::string kpsr::CoreContainer::getName() const
-- 
2.43.0


From f57cd851eb5401631aa6b54fd8f97ccdbd2faafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 21/45] fix: ZMQ pollers survive interrupted polls, throwing
 listeners and incomplete messages

---
 .../klepsydra/zmq_core/binary_zmq_poller.h    |  7 +--
 .../klepsydra/zmq_core/json_zmq_poller.h      |  5 ++-
 .../zmq_core/void_caster_zmq_poller.h         | 10 ++---
 .../include/klepsydra/zmq_core/zmq_poller.h   | 44 ++++++++++++++++++-
 4 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
index 1bf8079..a2e80af 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
@@ -61,10 +61,11 @@ public:
 
             if (items[0].revents & ZMQ_POLLIN) {
                 zmq::message_t topicMsg;
-                _subscriber.recv(topicMsg);
-                std::string topic(static_cast<char *>(topicMsg.data()), topicMsg.size());
                 zmq::message_t content;
-                _subscriber.recv(content);
+                if (!receive(topicMsg, content)) {
+                    continue;
+                }
+                std::string topic(static_cast<char *>(topicMsg.data()), topicMsg.size());
                 kpsr::core::NonCopyingStringBuffer buffer((char *) content.data(), content.size());
                 Base bufferPointer = &buffer;
                 executeFunction(topic, bufferPointer);
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
index 564104b..5f9ef72 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
@@ -59,8 +59,9 @@ public:
             if (items[0].revents & ZMQ_POLLIN) {
                 zmq::message_t topicMsg;
                 zmq::message_t content;
-                _subscriber.recv(topicMsg);
-                _subscriber.recv(content);
+                if (!receive(topicMsg, content)) {
+                    continue;
+                }
                 std::string topic(static_cast<char *>(topicMsg.data()), topicMsg.size());
                 std::string contentString(static_cast<char *>(content.data()), content.size());
                 executeFunction(topic, contentString);
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
index c19a2bb..a1af09e 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
@@ -56,14 +56,14 @@ public:
 
             if (items[0].revents & ZMQ_POLLIN) {
                 zmq::message_t topicMsg;
-                _subscriber.recv(topicMsg);
-                std::string topic(static_cast<char *>(topicMsg.data()), topicMsg.size());
                 zmq::message_t content;
-                this->_subscriber.recv(content);
+                if (!this->receive(topicMsg, content)) {
+                    continue;
+                }
+                std::string topic(static_cast<char *>(topicMsg.data()), topicMsg.size());
 
                 unsigned char *data = (unsigned char *) content.data();
-                std::vector<unsigned char> event(content.size());
-                memcpy(&event[0], data, content.size());
+                std::vector<unsigned char> event(data, data + content.size());
 
                 this->executeFunction(topic, event);
             }
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 25dda71..24a7e10 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -23,6 +23,11 @@
 #include <map>
 #include <mutex>
 #include <string>
+#include <thread>
+
+#include <spdlog/spdlog.h>
+
+#include <zmq.hpp>
 
 namespace kpsr {
 namespace zmq_mdlw {
@@ -148,8 +153,43 @@ public:
 protected:
     void pollingLoop()
     {
-        _running.store(true, std::memory_order_relaxed);
-        this->poll();
+        _running.store(true, std::memory_order_release);
+        while (isRunning()) {
+            try {
+                this->poll();
+            } catch (const zmq::error_t &ex) {
+                if (ex.num() != EINTR) {
+                    spdlog::error("ZMQPoller. The subscriber cannot be polled any more: {}",
+                                  ex.what());
+                    return;
+                }
+            } catch (const std::exception &ex) {
+                spdlog::error("ZMQPoller. Exception while processing a message: {}", ex.what());
+            }
+        }
+    }
+
+    /**
+     * @brief receive takes one message from the socket, whatever its number of parts.
+     * @param topic
+     * @param content
+     * @return true if the message consists of topic and content
+     */
+    bool receive(zmq::message_t &topic, zmq::message_t &content)
+    {
+        _subscriber.recv(topic);
+        if (!topic.more()) {
+            return false;
+        }
+        _subscriber.recv(content);
+        if (!content.more()) {
+            return true;
+        }
+        zmq::message_t rest;
+        do {
+            _subscriber.recv(rest);
+        } while (rest.more());
+        return false;
     }
 
     /**
-- 
2.43.0


From 50968e0c2db136d63287452521aad960be6776dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 22/45] fix: ZMQ channels build the payload before they send
 the topic

---
 .../zmq_mdlw/include/klepsydra/zmq_core/binary_to_zmq_channel.h | 2 +-
 .../zmq_mdlw/include/klepsydra/zmq_core/json_to_zmq_channel.h   | 2 +-
 .../include/klepsydra/zmq_core/void_caster_to_zmq_channel.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_to_zmq_channel.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_to_zmq_channel.h
index 2643c7f..472c87a 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_to_zmq_channel.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_to_zmq_channel.h
@@ -70,8 +70,8 @@ protected:
     void internalPublish(std::shared_ptr<const Base> event) override
     {
         auto buffer = dynamic_cast<std::stringbuf *>(*event);
-        _publisher.send(zmq::const_buffer(_topic.c_str(), _topic.size()), zmq::send_flags::sndmore);
         zmq::message_t message(buffer->str().data(), buffer->str().size());
+        _publisher.send(zmq::const_buffer(_topic.c_str(), _topic.size()), zmq::send_flags::sndmore);
         _publisher.send(message);
     }
 
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_to_zmq_channel.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_to_zmq_channel.h
index d3681a0..a998ea5 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_to_zmq_channel.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_to_zmq_channel.h
@@ -65,8 +65,8 @@ public:
 protected:
     void internalPublish(std::shared_ptr<const std::string> event) override
     {
-        _publisher.send(zmq::const_buffer(_topic.data(), _topic.size()), zmq::send_flags::sndmore);
         zmq::message_t message(event->c_str(), event->size());
+        _publisher.send(zmq::const_buffer(_topic.data(), _topic.size()), zmq::send_flags::sndmore);
         _publisher.send(message);
     }
 
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_to_zmq_channel.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_to_zmq_channel.h
index cb8dd3b..3a611b3 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_to_zmq_channel.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_to_zmq_channel.h
@@ -60,8 +60,8 @@ public:
 protected:
     void internalPublish(std::shared_ptr<const std::vector<unsigned char>> event) override
     {
-        _publisher.send(zmq::const_buffer(_topic.data(), _topic.size()), zmq::send_flags::sndmore);
         zmq::message_t message(event->data(), event->size());
+        _publisher.send(zmq::const_buffer(_topic.data(), _topic.size()), zmq::send_flags::sndmore);
         _publisher.send(message);
     }
 
-- 
2.43.0


From d0b2994dab564973f8203f604ccfdadf57faeabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 23/45] fix: void caster refuses messages shorter than the
 event

---
 .../include/klepsydra/serialization/void_caster_mapper.h      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
index 452b703..bd1e000 100644
--- a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
+++ b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
@@ -19,6 +19,7 @@
 
 #include <cstring>
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 
 #include <klepsydra/serialization/mapper.h>
@@ -45,6 +46,9 @@ public:
      */
     void fromMiddleware(const std::vector<unsigned char> &message, T &event)
     {
+        if (message.size() < sizeof(T)) {
+            throw std::length_error("VoidCaster: message is shorter than the event");
+        }
         std::memcpy(&event, message.data(), sizeof(T));
     }
 
-- 
2.43.0


From 69533ab56acdac0ebcd945294233780b891ba9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 24/45] fix: ZMQ pollers survive slow or failed starts and
 destruction while running

---
 .../klepsydra/zmq_core/binary_zmq_poller.h    |  2 ++
 .../zmq_core/from_zmq_middleware_provider.h   |  5 +++--
 .../klepsydra/zmq_core/json_zmq_poller.h      |  2 ++
 .../zmq_core/void_caster_zmq_poller.h         |  2 ++
 .../include/klepsydra/zmq_core/zmq_poller.h   | 21 ++++++++++---------
 5 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
index a2e80af..8e46e34 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
@@ -49,6 +49,8 @@ public:
         : ZMQPoller(subscriber, pollPeriod)
     {}
 
+    ~BinaryZMQPoller() override { stop(); }
+
     /**
      * @brief poll
      */
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index f6be1db..5f63005 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -99,9 +99,10 @@ public:
     void stop() { _zmqPoller->stop(); }
 
 private:
-    std::unique_ptr<ZMQPoller<U>> _zmqPoller;
-
     std::map<std::string, std::shared_ptr<void>> _subscriberMap;
+
+    // Destroyed first: its thread uses the channels above.
+    std::unique_ptr<ZMQPoller<U>> _zmqPoller;
 };
 
 /**
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
index 5f9ef72..c547297 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
@@ -46,6 +46,8 @@ public:
         : ZMQPoller(subscriber, pollPeriod)
     {}
 
+    ~JsonZMQPoller() override { stop(); }
+
     /**
      * @brief poll
      */
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
index a1af09e..a87bddc 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
@@ -44,6 +44,8 @@ public:
         : ZMQPoller<std::vector<unsigned char>>(subscriber, pollPeriod)
     {}
 
+    ~VoidCasterZMQPoller() override { stop(); }
+
     /**
      * @brief poll
      */
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 24a7e10..478de65 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -60,8 +60,6 @@ public:
         , _pollPeriod(pollPeriod)
         , _running(false)
         , _started(false)
-        , _poller(std::bind(&ZMQPoller::pollingLoop, this))
-        , _threadNotifierFuture(_poller.get_future())
         , _timeoutUs(timeoutUS)
     {}
 
@@ -73,8 +71,10 @@ public:
         if (isStarted()) {
             return;
         }
+        std::packaged_task<void()> loopFunction(std::bind(&ZMQPoller::pollingLoop, this));
+        _threadNotifierFuture = loopFunction.get_future();
+        _threadNotifier = std::thread(std::move(loopFunction));
         this->_started.store(true, std::memory_order_release);
-        _threadNotifier = std::thread(std::move(_poller));
         spdlog::debug("Started the poller");
         long counterUs = 0;
         while (!isRunning()) {
@@ -94,20 +94,22 @@ public:
         if (!isStarted()) {
             return;
         }
+        // A thread that has not entered its loop yet would miss that it has to stop.
+        while (!isRunning() && _threadNotifierFuture.wait_for(std::chrono::microseconds(0)) !=
+                                   std::future_status::ready) {
+            std::this_thread::sleep_for(std::chrono::microseconds(100));
+        }
         _running.store(false, std::memory_order_release);
         if (_threadNotifier.joinable()) {
             _threadNotifier.join();
         }
-        _poller = std::packaged_task<void()>(std::bind(&ZMQPoller::pollingLoop, this));
         _started.store(false, std::memory_order_release);
     }
 
-    ~ZMQPoller()
+    virtual ~ZMQPoller()
     {
-        _running = false;
-        if (_threadNotifier.joinable()) {
-            _threadNotifier.join();
-        }
+        // Derived classes have to stop on their own: the loop calls their poll().
+        ZMQPoller::stop();
     }
 
     /**
@@ -207,7 +209,6 @@ protected:
     std::thread _threadNotifier;
     std::atomic<bool> _running;
     std::atomic<bool> _started;
-    std::packaged_task<void()> _poller;
     std::future<void> _threadNotifierFuture;
     std::mutex mutex;
 
-- 
2.43.0


From 697a7b37d61cddf61da257e610d904bf5e96ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 25/45] fix: a ZMQ topic can be registered again after it was
 unregistered

---
 .../klepsydra/zmq_core/from_zmq_middleware_provider.h       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index 5f63005..a1ba877 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -86,7 +86,11 @@ public:
      * @brief unregisterFromTopic
      * @param topic
      */
-    void unregisterFromTopic(const std::string &topic) { _zmqPoller->unregisterFromTopic(topic); }
+    void unregisterFromTopic(const std::string &topic)
+    {
+        _zmqPoller->unregisterFromTopic(topic);
+        _subscriberMap.erase(topic);
+    }
 
     /**
      * @brief start Launches the polling thread.
-- 
2.43.0


From 828884c415724b7bd5045f429149e43239468ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 26/45] fix: the ZMQ configuration poller survives interrupted
 polls and messages it cannot decode

---
 .../include/klepsydra/zmq_core/zmq_env.h      |  5 ++++-
 core/modules/zmq_mdlw/src/zmq_env.cpp         | 22 ++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
index 3b438dc..1de3478 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
@@ -19,7 +19,10 @@
 
 #include <zmq.hpp>
 
+#include <atomic>
 #include <future>
+#include <mutex>
+#include <thread>
 
 #include <klepsydra/serialization/json_cereal_mapper.h>
 
@@ -57,7 +60,7 @@ private:
     ZMQEnv *_zmqEnv;
     long _sourceId;
     int _pollPeriod;
-    bool _running;
+    std::atomic<bool> _running;
     kpsr::Mapper<ZMQEnvironmentData, std::string> mapper;
     std::thread _threadPoller;
 };
diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index 2315b74..dfc72ec 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -193,7 +193,17 @@ void kpsr::zmq_mdlw::ZMQConfigurationPoller::start()
     _running = true;
     _threadPoller = std::thread([this]() {
         while (_running) {
-            poll();
+            try {
+                poll();
+            } catch (const zmq::error_t &ex) {
+                if (ex.num() != EINTR) {
+                    spdlog::error("ZMQConfigurationPoller. The subscriber cannot be polled any more: {}",
+                                  ex.what());
+                    return;
+                }
+            } catch (const std::exception &ex) {
+                spdlog::error("ZMQConfigurationPoller. Update could not be applied: {}", ex.what());
+            }
         }
     });
 }
@@ -215,7 +225,17 @@ void kpsr::zmq_mdlw::ZMQConfigurationPoller::poll()
         zmq::message_t topicMsg;
         zmq::message_t content;
         _zmqEnv->_zmqSubscriber.recv(topicMsg);
+        if (!topicMsg.more()) {
+            return;
+        }
         _zmqEnv->_zmqSubscriber.recv(content);
+        if (content.more()) {
+            zmq::message_t rest;
+            do {
+                _zmqEnv->_zmqSubscriber.recv(rest);
+            } while (rest.more());
+            return;
+        }
         std::string topic(static_cast<char *>(topicMsg.data()), topicMsg.size());
         std::string contentString(static_cast<char *>(content.data()), content.size());
         spdlog::info("kpsr::zmq_mdlw::ZMQConfigurationPoller::on_data_available.");
-- 
2.43.0


From 4fca56e48c458ea9f41df28f5cb858e0db1c99a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 27/45] fix: ZMQ environments guard their configuration against
 their polling thread

---
 .../zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h  |  2 ++
 core/modules/zmq_mdlw/src/zmq_env.cpp              | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
index 1de3478..d58db8b 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
@@ -208,6 +208,8 @@ private:
     ZMQConfigurationPoller *_poller;
     kpsr::Mapper<ZMQEnvironmentData, std::string> mapper;
     bool _isEnvLocal;
+    // The polling thread updates what the user's threads read and publish.
+    std::mutex _mutex;
 };
 } // namespace zmq_mdlw
 } // namespace kpsr
diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index dfc72ec..34f6d58 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -88,6 +88,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
 
 bool kpsr::zmq_mdlw::ZMQEnv::updateConfiguration(const std::string &configurationData)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->updateConfiguration(configurationData);
 }
 
@@ -96,6 +97,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyString(const std::string &key,
                                                const std::string &defaultValue,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyString(key, value, defaultValue, rootNode);
 }
 
@@ -104,6 +106,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyInt(const std::string &key,
                                             const int defaultValue,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyInt(key, value, defaultValue, rootNode);
 }
 
@@ -112,6 +115,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyFloat(const std::string &key,
                                               const float defaultValue,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyFloat(key, value, defaultValue, rootNode);
 }
 
@@ -120,6 +124,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyBool(const std::string &key,
                                              const bool defaultValue,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyBool(key, value, defaultValue, rootNode);
 }
 
@@ -127,6 +132,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyString(const std::string &key,
                                                const std::string &value,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyString(key, value, rootNode);
     publishConfiguration();
 }
@@ -135,6 +141,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyInt(const std::string &key,
                                             const int &value,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyInt(key, value, rootNode);
     publishConfiguration();
 }
@@ -143,6 +150,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyFloat(const std::string &key,
                                               const float &value,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyFloat(key, value, rootNode);
     publishConfiguration();
 }
@@ -151,12 +159,14 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyBool(const std::string &key,
                                              const bool &value,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyBool(key, value, rootNode);
     publishConfiguration();
 }
 
 bool kpsr::zmq_mdlw::ZMQEnv::loadFile(const std::string &fileName, const std::string &nodeName)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     if (_decorableEnv->loadFile(fileName, nodeName)) {
         publishConfiguration();
         return true;
@@ -169,10 +179,10 @@ void kpsr::zmq_mdlw::ZMQEnv::publishConfiguration()
 {
     std::string configurationData = _decorableEnv->exportEnvironment();
     ZMQEnvironmentData environmentData(_zmqKey, configurationData, _timestamp);
-    _zmqPublisher.send(zmq::const_buffer(_topicName.c_str(), _topicName.size()),
-                       zmq::send_flags::sndmore);
     std::string serializeEnvironmentData;
     mapper.toMiddleware(environmentData, serializeEnvironmentData);
+    _zmqPublisher.send(zmq::const_buffer(_topicName.c_str(), _topicName.size()),
+                       zmq::send_flags::sndmore);
     _zmqPublisher.send(
         zmq::const_buffer(serializeEnvironmentData.c_str(), serializeEnvironmentData.size()));
 }
-- 
2.43.0


From 79cf732834ce220dedcbbbb062d58cdb49f9c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 28/45] fix: ZMQ environments created in the same millisecond
 no longer share their source id

---
 core/modules/zmq_mdlw/src/zmq_env.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index 34f6d58..4db409f 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 #include <algorithm>
-#include <chrono>
+#include <random>
 #include <string.h>
 
 #include <spdlog/spdlog.h>
@@ -25,6 +25,14 @@ static const std::string DEFAULT_ZMQ_TOPIC_NAME = "DEFAULT_ZMQ_TOPIC_NAME";
 static const std::string DEFAULT_ZMQ_ENV_KEY = "DEFAULT_ZMQ_ENV_KEY";
 static const int DEFAULT_ZMQ_ENV_POOL_PERIOD = 1000;
 
+// Environments ignore updates with their own id, so no two of them may share one, even if they are
+// created within the same millisecond.
+static long createSourceId()
+{
+    std::random_device device;
+    return static_cast<long>((static_cast<unsigned long long>(device()) << 31) ^ device());
+}
+
 kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(const std::string &configurationFileName,
                                std::string zmqKey,
                                std::string topicName,
@@ -40,9 +48,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(const std::string &configurationFileName,
     , _topicName(topicName)
     , _zmqKey(zmqKey)
     , _pollPeriod(pollPeriod)
-    , _timestamp(std::chrono::duration_cast<std::chrono::milliseconds>(
-                     std::chrono::system_clock::now().time_since_epoch())
-                     .count())
+    , _timestamp(createSourceId())
     , mapper()
     , _isEnvLocal(true)
 {
@@ -66,9 +72,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
     : _zmqSubscriber(zmqSubscriber)
     , _decorableEnv(configurationEnvironment)
     , _zmqPublisher(zmqPublisher)
-    , _timestamp(std::chrono::duration_cast<std::chrono::milliseconds>(
-                     std::chrono::system_clock::now().time_since_epoch())
-                     .count())
+    , _timestamp(createSourceId())
     , mapper()
     , _isEnvLocal(false)
 {
-- 
2.43.0


From 2cadfc57688b971c73181af59e5288d4e5b098cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 29/45] fix: SafeQueue: a waiter whose operation throws hands
 its wake-up on

push() and the popping operations wait on a condition variable that is
notified with notify_one. If the operation then threw (std::bad_alloc, or
the element's copy), the wake-up was used up without anything having
changed, and another caller that could have gone on slept forever.
---
 .../include/klepsydra/mem_core/safe_queue.h   | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 754556b..3cbf21a 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -103,7 +103,9 @@ public:
                                   [this]() // Lambda funct
                                   { return !is_full(); });
 
+        WakeOnFailure guard(m_non_full_condition);
         m_queue.push(item);
+        guard.succeeded();
         m_non_empty_condition.notify_one();
         return true;
     }
@@ -120,7 +122,9 @@ public:
                                   [this]() // Lambda funct
                                   { return !is_full(); });
 
+        WakeOnFailure guard(m_non_full_condition);
         m_queue.push(item);
+        guard.succeeded();
         m_non_empty_condition.notify_one();
         return true;
     }
@@ -137,7 +141,9 @@ public:
                                   [this]() // Lambda funct
                                   { return !is_full(); });
 
+        WakeOnFailure guard(m_non_full_condition);
         m_queue.push(std::move(item));
+        guard.succeeded();
         m_non_empty_condition.notify_one();
         return true;
     }
@@ -211,7 +217,9 @@ public:
             discardedItems++;
         }
 
+        WakeOnFailure guard(m_non_full_condition);
         m_queue.push(std::move(item));
+        guard.succeeded();
         m_non_empty_condition.notify_one();
         return discardedItems;
     }
@@ -226,7 +234,9 @@ public:
         m_non_empty_condition.wait(lock,
                                    [this]() // Lambda funct
                                    { return !m_queue.empty(); });
+        WakeOnFailure guard(m_non_empty_condition);
         item = m_queue.front();
+        guard.succeeded();
         m_queue.pop();
         m_non_full_condition.notify_one();
     }
@@ -243,7 +253,9 @@ public:
         m_non_empty_condition.wait(lock,
                                    [this]() // Lambda funct
                                    { return !m_queue.empty(); });
+        WakeOnFailure guard(m_non_empty_condition);
         item = std::move(m_queue.front());
+        guard.succeeded();
         m_queue.pop();
         m_non_full_condition.notify_one();
     }
@@ -306,7 +318,9 @@ public:
                 return false;
         }
 
+        WakeOnFailure guard(m_non_empty_condition);
         item = m_queue.front();
+        guard.succeeded();
         m_queue.pop();
         m_non_full_condition.notify_one();
         return true;
@@ -336,7 +350,9 @@ public:
                 return false;
         }
 
+        WakeOnFailure guard(m_non_empty_condition);
         item = std::move(m_queue.front());
+        guard.succeeded();
         m_queue.pop();
         m_non_full_condition.notify_one();
         return true;
@@ -430,6 +446,29 @@ public:
     }
 
 private:
+    // An operation that throws after it was woken up cannot use what it was woken up for: wake another waiter instead.
+    class WakeOnFailure
+    {
+    public:
+        explicit WakeOnFailure(std::condition_variable &condition)
+            : m_condition(condition)
+            , m_succeeded(false)
+        {}
+        WakeOnFailure(const WakeOnFailure &) = delete;
+        WakeOnFailure &operator=(const WakeOnFailure &) = delete;
+        ~WakeOnFailure()
+        {
+            if (!m_succeeded) {
+                m_condition.notify_one();
+            }
+        }
+        void succeeded() { m_succeeded = true; }
+
+    private:
+        std::condition_variable &m_condition;
+        bool m_succeeded;
+    };
+
     // to be called with m_mutex locked
     bool is_full() const { return m_max_num_items > 0 && m_queue.size() >= m_max_num_items; }
 
-- 
2.43.0


From efdd6e30b576447b10988856d9e30e368db4ff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 30/45] fix: asking for the statistics of an unknown listener
 registers nothing

EventEmitterSubscriber::getSubscriptionStats added the unknown name with id 0:
removing that name then threw, or with the UNSAFE emitters, whose ids start at
0, returned and removed another listener.
---
 .../include/klepsydra/core/event_emitter_subscriber.h    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
index 731899f..67047b2 100644
--- a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
+++ b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
@@ -167,11 +167,16 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name)
     {
+        auto listenerIterator = _listenersMap.find(name);
+        if (listenerIterator == _listenersMap.end()) {
+            spdlog::debug("{}. Listener {} not found.", __PRETTY_FUNCTION__, name);
+            return nullptr;
+        }
         spdlog::trace("{}. ListenerId {} for name: {}",
                       __PRETTY_FUNCTION__,
-                      _listenersMap[name],
+                      listenerIterator->second,
                       name);
-        return _eventEmitter->getListenerStats(_listenersMap[name]);
+        return _eventEmitter->getListenerStats(listenerIterator->second);
     }
 
 protected:
-- 
2.43.0


From a5cbbda2baeb38950c39ea9e26606e7065b077bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 31/45] fix: UnsafeMultiListenerEventEmitter: statistics are
 found after a removal

getListenerStats compared the listener id with the number of statistics left: after
a removal it did not find those of later listeners, or threw for removed ones.
---
 .../klepsydra/core/unsafe_multi_listener_event_emitter.h     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
index 07a6d87..8b57cac 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
@@ -227,10 +227,11 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
-        if (_listenerStats.size() <= listenerId) {
+        auto listenerStatsIterator = _listenerStats.find(listenerId);
+        if (listenerStatsIterator == _listenerStats.end()) {
             return nullptr;
         }
-        return _listenerStats.at(listenerId);
+        return listenerStatsIterator->second;
     }
 
 private:
-- 
2.43.0


From 04329ca4790c9ac06344b29a4366a88d790fad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 32/45] fix: sockets refuse addresses they cannot represent

A path longer than a socket address was shortened and a port above 65535 taken
modulo 65536: the socket was bound to, or connected to, another address than asked for.
---
 core/modules/socket_mdlw/src/connect_socket.cpp | 11 +++++++++++
 core/modules/socket_mdlw/src/server_socket.cpp  | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/core/modules/socket_mdlw/src/connect_socket.cpp b/core/modules/socket_mdlw/src/connect_socket.cpp
index 049fab8..bc615be 100644
--- a/core/modules/socket_mdlw/src/connect_socket.cpp
+++ b/core/modules/socket_mdlw/src/connect_socket.cpp
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 #include <arpa/inet.h>
+#include <cstdint>
 #include <cstring>
 #include <sys/un.h>
 #include <unistd.h>
@@ -25,6 +26,11 @@
 kpsr::socket_mdlw::ConnectSocket::ConnectSocket(const std::string &host, int port)
     : kpsr::socket_mdlw::DataSocket(::socket(PF_INET, SOCK_STREAM, 0))
 {
+    if (port < 0 || port > UINT16_MAX) {
+        throw std::invalid_argument(
+            buildErrorMessage("ConnectSocket::", __func__, ": not a port number: ", port));
+    }
+
     struct sockaddr_in serverAddr
     {};
     serverAddr.sin_family = AF_INET;
@@ -44,6 +50,11 @@ kpsr::socket_mdlw::ConnectSocket::ConnectSocket(const std::string &path)
     struct sockaddr_un serverAddr
     {};
     serverAddr.sun_family = AF_UNIX;
+    // A shortened path is the address of another socket.
+    if (path.size() >= sizeof(serverAddr.sun_path)) {
+        throw std::invalid_argument(
+            buildErrorMessage("ConnectSocket::", __func__, ": path too long: ", path));
+    }
     strncpy(serverAddr.sun_path, path.data(), sizeof(serverAddr.sun_path) - 1);
 
     if (::connect(getSocketId(), (struct sockaddr *) &serverAddr, sizeof(serverAddr)) != 0) {
diff --git a/core/modules/socket_mdlw/src/server_socket.cpp b/core/modules/socket_mdlw/src/server_socket.cpp
index 3a627c9..fc2512e 100644
--- a/core/modules/socket_mdlw/src/server_socket.cpp
+++ b/core/modules/socket_mdlw/src/server_socket.cpp
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 #include <arpa/inet.h>
+#include <cstdint>
 #include <sys/un.h>
 
 #include <fcntl.h>
@@ -24,6 +25,11 @@
 kpsr::socket_mdlw::ServerSocket::ServerSocket(int port)
     : BaseSocket(::socket(PF_INET, SOCK_STREAM, 0))
 {
+    if (port < 0 || port > UINT16_MAX) {
+        throw std::invalid_argument(
+            buildErrorMessage("ServerSocket::", __func__, ": not a port number: ", port));
+    }
+
     struct sockaddr_in serverAddr;
     bzero((char *) &serverAddr, sizeof(serverAddr));
     serverAddr.sin_family = AF_INET;
@@ -56,6 +62,11 @@ kpsr::socket_mdlw::ServerSocket::ServerSocket(const std::string &socketPath)
     struct sockaddr_un serverAddr
     {};
     serverAddr.sun_family = AF_UNIX;
+    // A shortened path is the address of another socket.
+    if (socketPath.size() >= sizeof(serverAddr.sun_path)) {
+        throw std::invalid_argument(
+            buildErrorMessage("ServerSocket::", __func__, ": path too long: ", socketPath));
+    }
     strncpy(serverAddr.sun_path, socketPath.data(), sizeof(serverAddr.sun_path) - 1);
 
     // Set the server socket to non-blocking
-- 
2.43.0


From b590e38c68a940c87325021ff9bdb1ac0f96de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:55 +0000
Subject: [PATCH 33/45] fix: SmartObjectPool counts concurrent refusals exactly

---
 core/modules/core/include/klepsydra/core/smart_object_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index f781b43..840d97c 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -150,7 +150,7 @@ public:
     /*!
      * @brief objectPoolFails
      */
-    long objectPoolFails = 0;
+    std::atomic<long> objectPoolFails{0};
 
 private:
     std::function<void(T &)> _finalizerFunction;
-- 
2.43.0


From 4910ed891db36517a698f9aab4dcd547753306c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:16 +0000
Subject: [PATCH 34/45] fix: state machines notify from copies: observers and
 actions may change what is registered

Observers of one update are all told of the state that update led to, even when one of them
updates the machine again, unregisters the observers or registers another. One-off actions are
taken out before they run, so that they do not run again after one of them threw, and actions may
add and remove actions of the state they run for.
---
 .../state_machine/src/state_machine_impl.cpp      |  7 +++++--
 .../state_machine/src/state_machine_listener.cpp  | 15 ++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_impl.cpp b/state_machine/modules/state_machine/src/state_machine_impl.cpp
index 684a9a2..cde81df 100644
--- a/state_machine/modules/state_machine/src/state_machine_impl.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_impl.cpp
@@ -74,8 +74,11 @@ void StateMachineImpl::enqueueAndUpdate(const std::string &event)
 
 void StateMachineImpl::updateObservers(const std::string &stateId, bool stateChanged)
 {
-    for (auto observer : _observers) {
-        observer(_id + ":" + stateId, stateChanged);
+    // Observers may change the state and the observers: all are told of the state given here.
+    const std::string completeName = _id + ":" + stateId;
+    auto observers = _observers;
+    for (auto &observer : observers) {
+        observer(completeName, stateChanged);
     }
 }
 
diff --git a/state_machine/modules/state_machine/src/state_machine_listener.cpp b/state_machine/modules/state_machine/src/state_machine_listener.cpp
index 61edb07..e94a0ae 100644
--- a/state_machine/modules/state_machine/src/state_machine_listener.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_listener.cpp
@@ -54,21 +54,26 @@ void StateMachineListener::removeActions()
 
 void StateMachineListener::updateCurrentState(const std::string &currentStateId, bool stateChanged)
 {
+    // Actions may add and remove actions: what is run is never what they change.
     if (stateChanged) {
-        if (_oneOffActions.find(currentStateId) != _oneOffActions.end()) {
-            for (auto action : _oneOffActions[currentStateId]) {
+        auto oneOffActions = _oneOffActions.find(currentStateId);
+        if (oneOffActions != _oneOffActions.end()) {
+            auto actions = std::move(oneOffActions->second);
+            _oneOffActions.erase(oneOffActions);
+            for (auto &action : actions) {
                 action(currentStateId);
             }
-            _oneOffActions.erase(currentStateId);
         }
         if (_actions.find(currentStateId) != _actions.end()) {
-            for (auto action : _actions[currentStateId]) {
+            auto actions = _actions[currentStateId];
+            for (auto &action : actions) {
                 action(currentStateId);
             }
         }
     }
     if (_periodicActions.find(currentStateId) != _periodicActions.end()) {
-        for (auto action : _periodicActions[currentStateId]) {
+        auto actions = _periodicActions[currentStateId];
+        for (auto &action : actions) {
             action(currentStateId);
         }
     }
-- 
2.43.0


From 61c1e1ac642c80a5748ccc1d36b7e72f5d636e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 35/45] fix: ConfigFile does not take a file that could not be
 read to its end for a complete one

---
 core/modules/core/include/klepsydra/core/config_file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/config_file.h b/core/modules/core/include/klepsydra/core/config_file.h
index 3a4f3fd..b605473 100644
--- a/core/modules/core/include/klepsydra/core/config_file.h
+++ b/core/modules/core/include/klepsydra/core/config_file.h
@@ -113,6 +113,8 @@ private:
 
             parseLine(temp, lineNo);
         }
+        if (file.bad())
+            throw std::invalid_argument("CFG: File couldn't be read to its end!\n");
     }
 
 public:
-- 
2.43.0


From 39ad6ead8c640821105cf2956e8997eb49071ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:05 +0000
Subject: [PATCH 36/45] fix: MemEnv stores no empty string when copying the
 value fails

---
 core/modules/mem_mdlw/src/mem_env.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/src/mem_env.cpp b/core/modules/mem_mdlw/src/mem_env.cpp
index b0d40bf..ef467e6 100644
--- a/core/modules/mem_mdlw/src/mem_env.cpp
+++ b/core/modules/mem_mdlw/src/mem_env.cpp
@@ -82,8 +82,10 @@ void kpsr::mem::MemEnv::setPropertyString(const std::string &key,
                                           const std::string &value,
                                           std::string const &rootNode)
 {
+    // Copied first: a copy that fails must not leave an empty value under a new key.
+    std::string copy(value);
     std::lock_guard<std::mutex> lock(mutex);
-    stringDataMap[key] = value;
+    stringDataMap[key] = std::move(copy);
 }
 
 void kpsr::mem::MemEnv::setPropertyInt(const std::string &key,
-- 
2.43.0


From 8e86612b64dcc15afaa8c694b611913550956518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:39 +0000
Subject: [PATCH 37/45] fix: SafeEventEmitter leaves no statistics in the
 container when adding a listener fails

---
 .../klepsydra/core/safe_event_emitter.h        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index 9c05239..d3f439b 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -276,14 +276,20 @@ private:
                                                                       listenerName,
                                                                       EVENT_EMITTER_NAME,
                                                                       container);
+            auto listener = listeners.insert(
+                std::make_pair(subscriberName,
+                               std::make_shared<ListenerWithStats>(listenerId,
+                                                                   isOnce,
+                                                                   callback,
+                                                                   listenerStats)));
             if (container != nullptr) {
-                container->attach(listenerStats.get());
+                try {
+                    container->attach(listenerStats.get());
+                } catch (...) {
+                    listeners.erase(listener);
+                    throw;
+                }
             }
-            listeners.insert(std::make_pair(subscriberName,
-                                            std::make_shared<ListenerWithStats>(listenerId,
-                                                                                isOnce,
-                                                                                callback,
-                                                                                listenerStats)));
         } else {
             listeners.insert(
                 std::make_pair(subscriberName,
-- 
2.43.0


From b7b9a9eb7d16a33e287636ca726e0836767d5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:12 +0000
Subject: [PATCH 38/45] fix: EventEmitterSubscriber keeps no listener whose
 name could not be stored

---
 .../klepsydra/core/event_emitter_subscriber.h | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
index 67047b2..f2539a0 100644
--- a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
+++ b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
@@ -103,11 +103,7 @@ public:
 
         std::function<void(const std::shared_ptr<const T> &)> internalListener =
             [listener](const std::shared_ptr<const T> &event) { listener(*event.get()); };
-        unsigned int listenerId = _eventEmitter->on(this->container,
-                                                    name,
-                                                    this->name,
-                                                    internalListener);
-        _listenersMap[name] = listenerId;
+        unsigned int listenerId = addListener(name, internalListener);
         spdlog::trace("{}. ListenerId {} for name: {}", __PRETTY_FUNCTION__, listenerId, name);
     }
 
@@ -125,8 +121,7 @@ public:
                 "kpsr::EventEmitterSubscriber::registerSharedPtrListener: No callbak provided.");
         }
 
-        unsigned int listenerId = _eventEmitter->on(this->container, name, this->name, listener);
-        _listenersMap[name] = listenerId;
+        addListener(name, listener);
     }
 
     /*!
@@ -183,6 +178,22 @@ protected:
     std::shared_ptr<EventEmitterInterface<std::shared_ptr<const T>>> _eventEmitter;
 
 private:
+    unsigned int addListener(const std::string &name,
+                             const std::function<void(const std::shared_ptr<const T> &)> &listener)
+    {
+        // the name goes in first: a listener whose name is not known could not be removed again
+        auto entry = _listenersMap.insert(std::make_pair(name, 0u));
+        try {
+            entry.first->second = _eventEmitter->on(this->container, name, this->name, listener);
+        } catch (...) {
+            if (entry.second) {
+                _listenersMap.erase(entry.first);
+            }
+            throw;
+        }
+        return entry.first->second;
+    }
+
     std::map<std::string, unsigned int> _listenersMap;
     typedef typename std::map<std::string, unsigned int>::iterator it_type;
 };
-- 
2.43.0


From fc096e65480a496c58ad24e2e17550ce2b8c8ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:57 +0000
Subject: [PATCH 39/45] fix: UnsafeMultiListenerEventEmitter: adding a listener
 that fails leaves nothing behind

---
 .../unsafe_multi_listener_event_emitter.h     | 38 +++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
index 8b57cac..223ec31 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
@@ -71,18 +71,12 @@ public:
             spdlog::info("Listener {} was already added.", listenerName);
             return _listenersNameMap[listenerName];
         } else {
-            if (_subscriberNameMap.find(subscriberName) == _subscriberNameMap.end()) {
-                _subscriberNameMap[subscriberName] = std::vector<unsigned int>(0);
-            }
             unsigned int listenerId = _listeners.size();
-            std::string listenerKeyName = listenerName;
-            _listenersNameMap[listenerKeyName] = listenerId;
+            std::shared_ptr<SubscriptionStats> listenerStat(nullptr);
             if (container) {
-                auto listenerStat = std::make_shared<SubscriptionStats>(subscriberName,
-                                                                        listenerName,
-                                                                        EVENT_EMITTER_NAME);
-                _listenerStats[listenerId] = listenerStat;
-                container->attach(listenerStat.get());
+                listenerStat = std::make_shared<SubscriptionStats>(subscriberName,
+                                                                   listenerName,
+                                                                   EVENT_EMITTER_NAME);
                 auto wrappedCallback = [listenerStat,
                                         callback](const Event &event,
                                                   long long unsigned int enqueuedTimeNs) {
@@ -103,7 +97,29 @@ public:
                 };
                 _listeners.push_back(wrappedCallback);
             }
-            _subscriberNameMap[subscriberName].push_back(listenerId);
+            try {
+                _listenersNameMap[listenerName] = listenerId;
+                _subscriberNameMap[subscriberName].push_back(listenerId);
+                if (container) {
+                    _listenerStats[listenerId] = listenerStat;
+                    container->attach(listenerStat.get());
+                }
+            } catch (...) {
+                _listenersNameMap.erase(listenerName);
+                auto subscriber = _subscriberNameMap.find(subscriberName);
+                if (subscriber != _subscriberNameMap.end()) {
+                    auto &ids = subscriber->second;
+                    if (!ids.empty() && ids.back() == listenerId) {
+                        ids.pop_back();
+                    }
+                    if (ids.empty()) {
+                        _subscriberNameMap.erase(subscriber);
+                    }
+                }
+                _listenerStats.erase(listenerId);
+                _listeners.pop_back();
+                throw;
+            }
             return listenerId;
         }
     }
-- 
2.43.0


From ac832a7adf2f04e0017725ec135002198e564801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:32 +0000
Subject: [PATCH 40/45] fix: UnsafeMultiListenerEventEmitter::removeListener
 copies no name, which may fail halfway

---
 .../core/unsafe_multi_listener_event_emitter.h  | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
index 223ec31..a22ad12 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
@@ -145,16 +145,13 @@ public:
     {
         if (_listeners.size() > listenerId) {
             _listeners[listenerId] = nullptr;
-            std::string listenerName;
-            bool found = false;
-            for (auto &it : _listenersNameMap) {
-                if (it.second == listenerId) {
-                    listenerName = it.first;
-                    found = true;
-                    break;
-                }
-            }
-            if (found) {
+            auto listenerName = std::find_if(_listenersNameMap.begin(),
+                                             _listenersNameMap.end(),
+                                             [&listenerId](
+                                                 const std::pair<const std::string, unsigned int> &p) {
+                                                 return p.second == listenerId;
+                                             });
+            if (listenerName != _listenersNameMap.end()) {
                 _listenersNameMap.erase(listenerName);
                 if (container && (_listenerStats.find(listenerId) != _listenerStats.end())) {
                     container->detach(_listenerStats[listenerId].get());
-- 
2.43.0


From c99b03900c9fc4277fa3123132de165dd2481b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:15 +0000
Subject: [PATCH 41/45] fix: ObjectPoolPublisher frees its pool when its
 construction fails

---
 .../include/klepsydra/core/object_pool_publisher.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/object_pool_publisher.h b/core/modules/core/include/klepsydra/core/object_pool_publisher.h
index f3bdb8c..f90265e 100644
--- a/core/modules/core/include/klepsydra/core/object_pool_publisher.h
+++ b/core/modules/core/include/klepsydra/core/object_pool_publisher.h
@@ -58,11 +58,11 @@ public:
                         std::function<void(T &)> finalizerFunction = nullptr)
         : Publisher<T>(container, name, type)
     {
-        _objectPool = poolSize == 0 ? nullptr
-                                    : new SmartObjectPool<T>(name,
-                                                             poolSize,
-                                                             initializerFunction,
-                                                             finalizerFunction);
+        _objectPool.reset(poolSize == 0 ? nullptr
+                                        : new SmartObjectPool<T>(name,
+                                                                 poolSize,
+                                                                 initializerFunction,
+                                                                 finalizerFunction));
         this->publicationStats._totalEventAllocations = poolSize;
         if (initializerFunction) {
             _initializerFunction = [this, initializerFunction](T &t) { initializerFunction(t); };
@@ -132,7 +132,7 @@ public:
         }
     }
 
-    virtual ~ObjectPoolPublisher() { delete _objectPool; }
+    virtual ~ObjectPoolPublisher() {}
 
     /*!
      * @brief internalPublish
@@ -163,7 +163,7 @@ public:
 
 private:
     std::function<void(T &)> _initializerFunction;
-    SmartObjectPool<T> *_objectPool;
+    std::unique_ptr<SmartObjectPool<T>> _objectPool;
     std::function<void(const T &, T &)> _eventCloner;
 
     std::function<std::shared_ptr<T>(const T &eventData)> _eventCreatorWrapper = nullptr;
-- 
2.43.0


From 37479bbc103c309404e016c9bea058dbb743344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:29 +0000
Subject: [PATCH 42/45] fix: a LockFreeStack without capacity writes nowhere
 and is empty

---
 core/modules/core/include/klepsydra/core/lock_free_stack.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/lock_free_stack.h b/core/modules/core/include/klepsydra/core/lock_free_stack.h
index 88e407d..6e70661 100644
--- a/core/modules/core/include/klepsydra/core/lock_free_stack.h
+++ b/core/modules/core/include/klepsydra/core/lock_free_stack.h
@@ -74,6 +74,10 @@ public:
         node_buffer_ptr.reset(new aligned_node_t[realCapacity]);
         node_buffer = reinterpret_cast<node_t *>(node_buffer_ptr.get());
         data_buffer.resize(realCapacity);
+        if (realCapacity == 0) {
+            head.store(head_t(), std::memory_order_relaxed);
+            return;
+        }
         for (size_t i = 0; i < realCapacity - 1; ++i) {
             if (initFunction != nullptr) {
                 initFunction(data_buffer[i]);
-- 
2.43.0


From 21ab5dd9e0ec37cb4756f6a12a25cec52f06ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:56 +0000
Subject: [PATCH 43/45] fix: a destroyed managed service is not called by
 system events any more

---
 .../core/include/klepsydra/core/manage_service.h   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/manage_service.h b/core/modules/core/include/klepsydra/core/manage_service.h
index 5c130ed..eb5d613 100644
--- a/core/modules/core/include/klepsydra/core/manage_service.h
+++ b/core/modules/core/include/klepsydra/core/manage_service.h
@@ -19,6 +19,7 @@
 
 #include <atomic>
 #include <map>
+#include <memory>
 
 #include <spdlog/spdlog.h>
 
@@ -57,10 +58,17 @@ public:
                    Subscriber<SystemEventData> *systemStatusEventSubscriber,
                    std::string serviceName)
         : Service(nullptr, environment, serviceName, false)
+        , _self(this, [](ManagedService *) {})
     {
         if (systemStatusEventSubscriber != nullptr) {
-            std::function<void(SystemEventData)> systemListener =
-                std::bind(&ManagedService::onSystemMessageReceived, this, std::placeholders::_1);
+            // the subscriber may have events for this listener after the service is gone
+            std::weak_ptr<ManagedService> self(_self);
+            std::function<void(SystemEventData)> systemListener = [self](SystemEventData event) {
+                std::shared_ptr<ManagedService> service = self.lock();
+                if (service) {
+                    service->onSystemMessageReceived(event);
+                }
+            };
             systemStatusEventSubscriber->registerListener(serviceName, systemListener);
         }
     }
@@ -80,6 +88,8 @@ private:
             shutdown();
         }
     }
+
+    std::shared_ptr<ManagedService> _self; // does not own: tells the listener that this is alive
 };
 } // namespace kpsr
 
-- 
2.43.0


From 8df838b2d0579a020bc6bac05f3b9dc485a10d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:52 +0000
Subject: [PATCH 44/45] fix: removing a listener from a SafeEventEmitter needs
 no memory

---
 core/modules/core/include/klepsydra/core/safe_event_emitter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index d3f439b..55a7b7f 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -91,7 +91,7 @@ public:
 
         auto i = std::find_if(listeners.begin(),
                               listeners.end(),
-                              [&](std::pair<const std::string, std::shared_ptr<ListenerBase>> p) {
+                              [&](const std::pair<const std::string, std::shared_ptr<ListenerBase>> &p) {
                                   return p.second->id == listenerId;
                               });
         if (i != listeners.end()) {
@@ -180,7 +180,7 @@ public:
         std::lock_guard<std::mutex> lock(mutex);
         auto i = std::find_if(listeners.begin(),
                               listeners.end(),
-                              [&](std::pair<const std::string, std::shared_ptr<ListenerBase>> p) {
+                              [&](const std::pair<const std::string, std::shared_ptr<ListenerBase>> &p) {
                                   return p.second->id == listenerId;
                               });
         if (i == listeners.end()) {
-- 
2.43.0


From 1ea6425b2db167c861725411f3a6ec6c0b867baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:02 +0000
Subject: [PATCH 45/45] fix: destroying a BasicScheduler needs no memory

---
 core/modules/mem_mdlw/src/basic_scheduler.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index 54308b2..6dabb22 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -74,10 +74,16 @@ kpsr::mem::BasicScheduler::~BasicScheduler()
 {
     std::unique_lock<std::mutex> lock(_threadMapMutex);
     while (!_threadMap.empty()) {
-        const std::string name = _threadMap.begin()->first;
+        std::shared_ptr<ScheduledThread> thread = _threadMap.begin()->second;
         lock.unlock();
-        stopScheduledTask(name);
+        thread->stop();
         lock.lock();
+        for (auto it = _threadMap.begin(); it != _threadMap.end(); ++it) {
+            if (it->second == thread) {
+                _threadMap.erase(it);
+                break;
+            }
+        }
     }
 }
 
-- 
2.43.0

