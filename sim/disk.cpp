// ksim: files. They are real (memory backed, reachable through /proc/self/fd), so that whatever way of reading them works;
// opening them and reading from them goes through here and fails as disks do.
#include "internal.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace ksim {
namespace disk {
constexpr int MAXFD = 1200;
static bool fds[MAXFD]; // descriptors through which a file of the simulated disk is read
static int files[64], nfiles;
static char names[64][32];
static FILE *(*real_fopen)(const char *, const char *);
static int (*real_fclose)(FILE *);
static Stats st;

Stats &stats() { return st; }
void init_process()
{
    real_fopen = (FILE * (*) (const char *, const char *) ) dlsym(RTLD_NEXT, "fopen64");
    real_fclose = (int (*)(FILE *)) dlsym(RTLD_NEXT, "fclose");
}
bool is(int fd) { return fd >= 0 && fd < MAXFD && fds[fd]; }
void closed(int fd) { fds[fd] = false; }
const char *put(const void *data, size_t n)
{
    if (nfiles == 64) fail("harness-error", "too many simulated files");
    int fd = (int) raw_syscall(SYS_memfd_create, (long) "ksim", 0);
    int high = fd < 0 ? -1 : (int) raw_syscall(SYS_fcntl, fd, F_DUPFD, 400);
    if (high < 0) fail("harness-error", "cannot create a file");
    raw_syscall(SYS_close, fd);
    for (size_t k = 0; k < n;) {
        long r = raw_syscall(SYS_write, high, (long) data + k, n - k);
        if (r <= 0) fail("harness-error", "cannot write a file");
        k += r;
    }
    files[nfiles] = high;
    snprintf(names[nfiles], sizeof names[0], "/proc/self/fd/%d", high);
    return names[nfiles++];
}
static bool ours(const char *path)
{
    for (int i = 0; i < nfiles; i++)
        if (!strcmp(path, names[i])) return true;
    return false;
}
static bool refuse()
{
    point();
    if (!fault(F_DISKERR, 1, 6)) return false;
    static const int e[] = {EIO, EMFILE, ENFILE, EACCES, ENOENT, ENOMEM};
    errno = e[fault_val(F_DISKERR, 6)];
    st.open_failed++;
    return true;
}
static int opened(int fd)
{
    if (fd >= 0 && fd < MAXFD) {
        fds[fd] = true;
        st.opened++;
    }
    return fd;
}
ssize_t do_read(int fd, void *b, size_t n)
{
    point();
    if (fault(F_EINTR, 1, 8)) {
        st.interrupted++;
        errno = EINTR;
        return -1;
    }
    if (fault(F_DISKERR, 1, 8)) {
        st.read_failed++;
        errno = EIO;
        return -1;
    }
    if (n > 1 && fault(F_SHORTIO, 1, 2)) {
        st.short_reads++;
        n = 1 + fault_val(F_SHORTIO, n < 300 ? n - 1 : 299);
    }
    long r = raw_syscall(SYS_read, fd, (long) b, n);
    if (r < 0) {
        errno = (int) -r;
        return -1;
    }
    log("disk read %ld", r);
    return r;
}
static int do_open(int dir, const char *path, int flags, int mode)
{
    const bool mine = G.active && ours(path);
    if (mine && refuse()) return -1;
    long r = raw_syscall(SYS_openat, dir, (long) path, flags, mode);
    if (r < 0) {
        errno = (int) -r;
        return -1;
    }
    return mine ? opened((int) r) : (int) r;
}
static FILE *do_fopen(const char *path, const char *mode)
{
    const bool mine = G.active && ours(path);
    if (mine && refuse()) return nullptr;
    if (!real_fopen) init_process();
    FILE *f = real_fopen(path, mode);
    if (mine && f) opened(fileno(f));
    return f;
}
} // namespace disk
} // namespace ksim

using namespace ksim;
extern "C" {
#undef fopen64
#undef open64
#undef openat64
FILE *fopen(const char *path, const char *mode) { return disk::do_fopen(path, mode); }
FILE *fopen64(const char *path, const char *mode) { return disk::do_fopen(path, mode); }
int fclose(FILE *f)
{
    int fd = fileno(f);
    if (disk::is(fd)) disk::closed(fd);
    if (!disk::real_fclose) disk::init_process();
    return disk::real_fclose(f);
}
#define MODE \
    int mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; \
        va_start(ap, flags); \
        mode = va_arg(ap, int); \
        va_end(ap); \
    }
int open(const char *path, int flags, ...)
{
    MODE
    return disk::do_open(AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
    MODE
    return disk::do_open(AT_FDCWD, path, flags, mode);
}
int openat(int dir, const char *path, int flags, ...)
{
    MODE
    return disk::do_open(dir, path, flags, mode);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
}
