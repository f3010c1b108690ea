// Preloaded into the tools: makes reads of the input and writes of the output short, interrupted or
// failing at a chosen byte. Only the tracked descriptors are affected.
//   FI_IN / FI_OUT   path of the tracked input / output file (unset: descriptor 0 / 1)
//   FI_RFAIL=n       after n bytes of input, reads fail with FI_ERRNO (default EIO)
//   FI_WFAIL=n       after n bytes of output, writes fail with FI_ERRNO (default ENOSPC)
//   FI_ONCE=1        only one call fails
//   FI_RCHUNK=k, FI_WCHUNK=k  at most k bytes per call (several sizes: k1,k2,... used cyclically)
//   FI_EINTR=m       every m-th call on a tracked descriptor fails with EINTR
//   FI_CLOCK=s       the time of day is s seconds later
//   FI_PID=n         the process has the number n
//   FI_MARK=path     created as soon as a read or write was made to fail
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int in_fd = -1, out_fd = -1;
static const char *in_path, *out_path, *mark;
static long rfail = -1, wfail = -1, err_no = 0, once = 0, eintr = 0;
static long rdone = 0, wdone = 0, calls = 0, rhit = 0, whit = 0;
static long rch[16], wch[16];
static int nr = 0, nw = 0;
static unsigned long ri = 0, wi = 0;

static long num(const char *n, long d) {
    const char *s = getenv(n);
    return s && *s ? atol(s) : d;
}
static int list(const char *n, long *out) {
    const char *s = getenv(n);
    int k = 0;
    while (s && *s && k < 16) {
        out[k] = atol(s);
        if (out[k] > 0) k++;
        s = strchr(s, ',');
        if (s) s++;
    }
    return k;
}
__attribute__((constructor)) static void init(void) {
    in_path = getenv("FI_IN");
    out_path = getenv("FI_OUT");
    mark = getenv("FI_MARK");
    if (in_path && !*in_path) in_path = 0;
    if (out_path && !*out_path) out_path = 0;
    rfail = num("FI_RFAIL", -1);
    wfail = num("FI_WFAIL", -1);
    err_no = num("FI_ERRNO", 0);
    once = num("FI_ONCE", 0);
    eintr = num("FI_EINTR", 0);
    nr = list("FI_RCHUNK", rch);
    nw = list("FI_WCHUNK", wch);
    if (!in_path) in_fd = 0;
    if (!out_path) out_fd = 1;
}
static void hit(void) {
    if (mark) {
        int f = syscall(SYS_openat, AT_FDCWD, mark, O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
        if (f >= 0) syscall(SYS_close, f);
    }
}
static int interrupted(void) {
    calls++;
    if (eintr > 0 && calls % eintr == 0) {
        errno = EINTR;
        return 1;
    }
    return 0;
}
// number of bytes that may be read now, or -1 with errno set
static ssize_t allow_read(size_t n) {
    if (interrupted()) return -1;
    if (rfail >= 0 && !(once && rhit)) {
        if (n > 0 && rdone >= rfail) {
            rhit++;
            hit();
            errno = err_no ? err_no : EIO;
            return -1;
        }
        if ((long)n > rfail - rdone) n = rfail - rdone;
    }
    if (nr) {
        long k = rch[ri++ % nr];
        if ((long)n > k) n = k;
    }
    return n;
}
static ssize_t allow_write(size_t n) {
    if (interrupted()) return -1;
    if (wfail >= 0 && !(once && whit)) {
        if (n > 0 && wdone >= wfail) {
            whit++;
            hit();
            errno = err_no ? err_no : ENOSPC;
            return -1;
        }
        if ((long)n > wfail - wdone) n = wfail - wdone;
    }
    if (nw) {
        long k = wch[wi++ % nw];
        if ((long)n > k) n = k;
    }
    return n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (r == 0 && c != CLOCK_MONOTONIC && c != CLOCK_PROCESS_CPUTIME_ID && c != CLOCK_THREAD_CPUTIME_ID && c != CLOCK_BOOTTIME && c != CLOCK_MONOTONIC_RAW && c != CLOCK_MONOTONIC_COARSE)
        t->tv_sec += num("FI_CLOCK", 0);
    return r;
}
pid_t getpid(void) {
    long n = num("FI_PID", 0);
    return n > 0 ? n : syscall(SYS_getpid);
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *v, void *z) {
    struct timespec t;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &t);
    if (v) v->tv_sec = t.tv_sec, v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
static ssize_t raw(ssize_t r) { return r; }

ssize_t read(int fd, void *b, size_t n) {
    if (fd != in_fd) return raw(syscall(SYS_read, fd, b, n));
    ssize_t a = allow_read(n);
    if (a < 0) return -1;
    ssize_t r = syscall(SYS_read, fd, b, (size_t)a);
    if (r > 0) rdone += r;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (fd != out_fd) return raw(syscall(SYS_write, fd, b, n));
    ssize_t a = allow_write(n);
    if (a < 0) return -1;
    ssize_t r = syscall(SYS_write, fd, b, (size_t)a);
    if (r > 0) wdone += r;
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (fd != in_fd) return raw(syscall(SYS_readv, fd, v, c));
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (fd != out_fd) return raw(syscall(SYS_writev, fd, v, c));
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (fd == in_fd && rfail >= 0) {
        if (o >= rfail) {
            hit();
            errno = err_no ? err_no : EIO;
            return -1;
        }
        if ((long)n > rfail - o) n = rfail - o;
    }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    (void)a, (void)ao, (void)b, (void)bo, (void)n, (void)f;
    errno = EXDEV;
    return -1;
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
    (void)a, (void)b, (void)o, (void)n;
    errno = EINVAL;
    return -1;
}
ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    (void)a, (void)ao, (void)b, (void)bo, (void)n, (void)f;
    errno = EINVAL;
    return -1;
}
static int track(const char *p, int fd) {
    if (fd >= 0 && in_path && !strcmp(p, in_path)) in_fd = fd;
    if (fd >= 0 && out_path && !strcmp(p, out_path)) out_fd = fd;
    return fd;
}
static int do_open(int at, const char *p, int flags, va_list l) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(l, mode_t);
    return track(p, syscall(SYS_openat, at, p, flags, m));
}
#define OPEN(name)                              \
    int name(const char *p, int flags, ...) {   \
        va_list l;                              \
        va_start(l, flags);                     \
        int r = do_open(AT_FDCWD, p, flags, l); \
        va_end(l);                              \
        return r;                               \
    }
#define OPENAT(name)                                  \
    int name(int at, const char *p, int flags, ...) { \
        va_list l;                                    \
        va_start(l, flags);                           \
        int r = do_open(at, p, flags, l);             \
        va_end(l);                                    \
        return r;                                     \
    }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)
int close(int fd) {
    if (in_path && fd == in_fd) in_fd = -1;
    if (out_path && fd == out_fd) out_fd = -1;
    return syscall(SYS_close, fd);
}
