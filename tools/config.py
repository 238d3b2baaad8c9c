# One entry per claimed property. srcs: globs relative to /repo, compiled with instrumentation.
# runs: number of simulated runs in the quick tier; the thorough tier runs THOROUGH times as many.
THOROUGH = 30
MEM = "core/modules/mem_mdlw/src/*.cpp"
HP = "high_performance/modules/high_performance/src/*.cpp"
SOCK = "core/modules/socket_mdlw/src/*.cpp"
SDK = "KlepsydraSDK interfaces (stubs/klepsydra/sdk)"
ZMQ = "libzmq and cppzmq (stubs/zmq.hpp: PUB/SUB sockets on a simulated lossy network)"
FSM = "state_machine/modules/state_machine/src/*.cpp"
SIM = "threads, clocks, timers, mutexes, condition variables, futexes, heap (simulator)"
PROPS = {
    "C01": dict(harness=["C01_pool.cpp"], srcs=[], runs=300000,
                real=["kpsr::LockFreeStack", "kpsr::SmartObjectPool"], stub=[SIM]),
    "C02": dict(harness=["C02_pool_lifetime.cpp"], srcs=[], runs=300000,
                real=["kpsr::SmartObjectPool", "kpsr::LockFreeStack", "kpsr::ObjectPoolPublisher"], stub=[SIM, SDK]),
    "C03": dict(harness=["C03_queue_lin.cpp"], srcs=[], runs=250000, real=["kpsr::mem::SafeQueue"], stub=[SIM]),
    "C04": dict(harness=["C04_queue_progress.cpp"], srcs=[], runs=300000, real=["kpsr::mem::SafeQueue"], stub=[SIM]),
    "C05": dict(harness=["C05_ring_buffer.cpp"], srcs=[], runs=100000, real=["disruptor4cpp ring_buffer, sequencers, barriers, batch_event_processor, wait strategies"], stub=[SIM]),
    "C06": dict(harness=["C06_backpressure.cpp"], srcs=[], runs=200000, real=["disruptor4cpp ring_buffer, single and multi producer sequencers, barriers"], stub=[SIM]),
    "C07": dict(harness=["C07_wait.cpp"], srcs=[], runs=150000, real=["disruptor4cpp wait strategies, sequence_barrier, sequencers"], stub=[SIM]),
    "C08": dict(harness=["C08_processor.cpp"], srcs=[], runs=125000, real=["disruptor4cpp batch_event_processor, no_op_event_processor, sequence_barrier, wait strategies, ring_buffer"], stub=[SIM]),
    "C15": dict(harness=["C15_emitter.cpp"], srcs=[], runs=200000, real=["kpsr::SafeEventEmitter, UnsafeMultiListenerEventEmitter, UnsafeSingleListenerEventEmitter, EventEmitterSubscriber"], stub=[SIM, SDK]),
    "C09": dict(harness=["C09_event_loop.cpp"], srcs=[MEM, HP], runs=75000, real=["kpsr::high_performance::EventLoopMiddlewareProvider, EventLoop, EventLoopPublisher, EventLoopSubscriber", "SafeEventEmitter, UnsafeMultiListenerEventEmitter", "ObjectPoolPublisher, SmartObjectPool", "disruptor4cpp"], stub=[SIM, SDK]),
    "C10": dict(harness=["C10_loop_lifecycle.cpp"], srcs=[MEM, HP], runs=75000, real=["kpsr::high_performance::EventLoopMiddlewareProvider, EventLoop, EventLoopPublisher, EventLoopSubscriber", "SafeEventEmitter", "disruptor4cpp"], stub=[SIM, SDK]),
    "C11": dict(harness=["C11_multiplexer.cpp"], srcs=[], runs=75000, real=["kpsr::high_performance::DataMultiplexerMiddlewareProvider, Publisher, Subscriber, EventHandler", "SafeEventEmitter, EventEmitterSubscriber", "disruptor4cpp"], stub=[SIM, SDK]),
    "C12": dict(harness=["C12_basic_mdlw.cpp"], srcs=[MEM], runs=100000, real=["kpsr::mem::BasicMiddlewareProvider, BasicPublisher, SafeQueue, SafeQueuePoller, InMemoryQueuePoller", "SafeEventEmitter, EventEmitterSubscriber", "ObjectPoolPublisher, SmartObjectPool"], stub=[SIM, SDK]),
    "C13": dict(harness=["C13_concurrent_mdlw.cpp"], srcs=[MEM], runs=50000, real=["kpsr::mem::ConcurrentMiddlewareProvider, ConcurrentQueuePublisher, ConcurrentQueuePoller, InMemoryQueuePoller", "moodycamel::ConcurrentQueue", "SafeEventEmitter, EventEmitterSubscriber", "ObjectPoolPublisher, SmartObjectPool"], stub=[SIM, SDK]),
    "C14": dict(harness=["C14_poller_lifecycle.cpp"], srcs=[MEM], runs=100000, real=["kpsr::mem::InMemoryQueuePoller, SafeQueuePoller, ConcurrentQueuePoller, BasicMiddlewareProvider, ConcurrentMiddlewareProvider", "SafeEventEmitter", "moodycamel::ConcurrentQueue"], stub=[SIM, SDK]),
    "C16": dict(harness=["C16_scheduler.cpp"], srcs=[MEM, HP], runs=200000, real=["kpsr::mem::BasicScheduler", "kpsr::high_performance::EventLoopScheduler, EventLoopMiddlewareProvider, EventLoop, EventLoopFunctionExecutorListener", "disruptor4cpp"], stub=[SIM, SDK]),
    "C18": dict(harness=["C18_socket_data.cpp"], srcs=[SOCK], runs=100000, real=["kpsr::socket_mdlw::DataSocket, BaseSocket, ServerSocket, ConnectSocket, ProtocolSimple, StringSizer"], stub=[SIM, "descriptor table, TCP and Unix stream sockets (sim/net.cpp)"]),
    "C19": dict(harness=["C19_sockets.cpp"], srcs=[SOCK], runs=100000, real=["kpsr::socket_mdlw::BaseSocket, DataSocket, ServerSocket, ConnectSocket"], stub=[SIM, "descriptor table, TCP and Unix stream sockets (sim/net.cpp)"]),
    "C20": dict(harness=["C20_request_reply.cpp"], srcs=[MEM], runs=200000, real=["kpsr::CallbackHandler, MultiThreadCallbackHandler", "SafeEventEmitter, EventEmitterSubscriber", "BasicMiddlewareProvider, BasicPublisher, SafeQueue, SafeQueuePoller"], stub=[SIM, SDK, "publisher that answers inside the publication (harness)"]),
    "C21": dict(harness=["C21_cache.cpp"], srcs=[], runs=200000, real=["kpsr::mem::CacheListener, MultiThreadCacheListener, TestCacheListener"], stub=[SIM, SDK]),
    "C22": dict(harness=["C22_mem_env.cpp"], srcs=["core/modules/mem_mdlw/src/mem_env.cpp"], runs=200000, real=["kpsr::mem::MemEnv"], stub=[SIM, SDK]),
    "C26": dict(harness=["C26_container.cpp"], srcs=["core/modules/core/src/core_container.cpp"], runs=200000, real=["kpsr::CoreContainer"], stub=[SIM, SDK]),
    "C27": dict(harness=["C27_published_events.cpp"], srcs=[MEM, HP], runs=100000, real=["kpsr::ObjectPoolPublisher, SmartObjectPool, LockFreeStack", "BasicPublisher, ConcurrentQueuePublisher, EventLoopPublisher, EventEmitterPublisher and their providers, queues, pollers and event loop", "SafeEventEmitter, EventEmitterSubscriber", "disruptor4cpp", "moodycamel::ConcurrentQueue"], stub=[SIM, SDK]),
    "C23": dict(harness=["C23_zmq_messages.cpp"], srcs=[], runs=50000, real=["kpsr::zmq_mdlw::ToZMQMiddlewareProvider, FromZmqMiddlewareProvider, FromZmqChannel, JsonZMQPoller, BinaryZMQPoller, VoidCasterZMQPoller and the matching channels", "ToMiddlewareChannel, FromMiddlewareChannel, ObjectPoolPublisher, JSON, binary and void caster mappers", "cereal, SafeEventEmitter"], stub=[SIM, SDK, ZMQ]),
    "C24": dict(harness=["C24_zmq_lifecycle.cpp"], srcs=[], runs=50000, real=["kpsr::zmq_mdlw::FromZmqMiddlewareProvider, FromZmqChannel, ZMQPoller, JsonZMQPoller, BinaryZMQPoller, VoidCasterZMQPoller", "FromMiddlewareChannel, mappers, SafeEventEmitter"], stub=[SIM, SDK, ZMQ]),
    "C25": dict(harness=["C25_zmq_env.cpp"], srcs=["core/modules/zmq_mdlw/src/zmq_env.cpp", "core/modules/core/src/configuration_environment.cpp"], runs=30000, real=["kpsr::zmq_mdlw::ZMQEnv, ZMQConfigurationPoller, ZMQEnvironmentData", "kpsr::ConfigurationEnvironment, ConfigurationProperties, JSON mapper, cereal"], stub=[SIM, SDK, ZMQ]),
    "C28": dict(harness=["C28_state_machine.cpp"], srcs=[MEM, HP, FSM], runs=150000, real=["kpsr::fsm::StateMachineImpl, StateImpl, TransitionImpl, SMFactoryImpl, StateMachineListener", "EventLoopMiddlewareProvider, EventLoop, EventLoopPublisher, EventLoopSubscriber, EventLoopScheduler, BasicScheduler", "disruptor4cpp"], stub=[SIM, SDK]),
    "C29": dict(harness=["C29_files.cpp"], srcs=["core/modules/core/src/configuration_environment.cpp", "core/modules/core/src/prop_file_environment.cpp", FSM, "state_machine/modules/json_conf/src/*.cpp"], runs=50000, real=["kpsr::ConfigurationEnvironment, ConfigurationProperties", "kpsr::PropertyFileEnvironment, ConfigFile", "kpsr::fsm::FromJson, JsonConfigLoader, SMFactoryImpl, StateMachineImpl, StateMachineListener", "cereal, std::ifstream"], stub=["disk: opening and reading of files (sim/disk.cpp)", SIM, SDK]),
    "C30": dict(harness=["C30_pipeline.cpp"], srcs=[MEM, HP], runs=100000,
                real=["kpsr::EventForwarder, ManagedService, process forwarders of the providers",
                      "BasicMiddlewareProvider, ConcurrentMiddlewareProvider, EventEmitterMiddlewareProvider, EventLoopMiddlewareProvider",
                      "ObjectPoolPublisher, SmartObjectPool, SafeEventEmitter, EventEmitterSubscriber", "disruptor4cpp", "moodycamel::ConcurrentQueue"],
                stub=[SIM, SDK]),
    "C31": dict(harness=["C31_statistics.cpp"], srcs=[MEM, HP], runs=100000,
                real=["SafeEventEmitter, UnsafeMultiListenerEventEmitter, UnsafeSingleListenerEventEmitter, EventEmitterSubscriber",
                      "ObjectPoolPublisher, SmartObjectPool, BasicPublisher, ConcurrentQueuePublisher, EventLoopPublisher, DataMultiplexerPublisher, EventEmitterPublisher",
                      "the in-memory, event loop, data multiplexer and emitter middleware providers with their queues, pollers and threads",
                      "disruptor4cpp", "moodycamel::ConcurrentQueue"],
                stub=[SIM, SDK]),
}
PURE = ("pure function of its inputs in one thread: no schedule, clock, I/O, message or crash can change the outcome, so "
        "there is nothing for a simulator to decide (plain property-based testing territory)")
NOT_APPLICABLE = {
    "N02": PURE,
    "N03": "parsing and mapping of values; " + PURE,
}
