/* LD_PRELOAD fault injector for reads of one file (or of stdin): short reads, EINTR and EIO
   according to a plan; counts what was delivered and writes the counts on exit (with
   VF_SHIM_TRACE also how much had been delivered after each read). With VF_SHIM_TICK
   every read seems to take that many milliseconds (the monotonic clock is moved, nothing sleeps). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int target = -1, plan_len, plan_pos, reads, intr, failed;
static long plan[4096], trace[4096], fail_at = -1, off, tick;
static int traced;
static const char *path;

static void setup(void) {
    static int done;
    if (done) return;
    done = 1;
    path = getenv("VF_SHIM_PATH");
    if (getenv("VF_SHIM_STDIN")) target = 0;
    if (getenv("VF_SHIM_FAIL")) fail_at = atol(getenv("VF_SHIM_FAIL"));
    if (getenv("VF_SHIM_TICK")) tick = atol(getenv("VF_SHIM_TICK"));
    const char *p = getenv("VF_SHIM_PLAN");
    while (p && *p && plan_len < 4096) {
        plan[plan_len++] = strtol(p, (char **)&p, 10);
        if (*p == ',') p++;
    }
}

static int opened(int fd, const char *name) {
    setup();
    if (fd >= 0 && path && name && !strcmp(name, path)) { target = fd; off = 0; }
    return fd;
}

#define OPEN(NAME)                                                              \
    int NAME(const char *name, int flags, ...) {                                \
        static int (*real)(const char *, int, ...);                             \
        if (!real) real = dlsym(RTLD_NEXT, #NAME);                              \
        va_list ap; va_start(ap, flags);                                        \
        int mode = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0;     \
        va_end(ap);                                                             \
        return opened(real(name, flags, mode), name);                           \
    }
OPEN(open)
OPEN(open64)

#define OPENAT(NAME)                                                            \
    int NAME(int dir, const char *name, int flags, ...) {                       \
        static int (*real)(int, const char *, int, ...);                        \
        if (!real) real = dlsym(RTLD_NEXT, #NAME);                              \
        va_list ap; va_start(ap, flags);                                        \
        int mode = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0;     \
        va_end(ap);                                                             \
        return opened(real(dir, name, flags, mode), name);                      \
    }
OPENAT(openat)
OPENAT(openat64)

int close(int fd) {
    static int (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "close");
    if (fd == target && fd != 0) target = -1;
    return real(fd);
}

static ssize_t (*real_read)(int, void *, size_t);

ssize_t read(int fd, void *buf, size_t n) {
    if (!real_read) real_read = dlsym(RTLD_NEXT, "read");
    setup();
    if (fd != target || n == 0) return real_read(fd, buf, n);
    reads++;
    if (fail_at >= 0 && off >= fail_at) { failed++; errno = EIO; return -1; }
    if (plan_len) {
        long p = plan[plan_pos++ % plan_len];
        if (p == 0) { intr++; errno = EINTR; return -1; }
        if (p > 0 && (size_t)p < n) n = p;
    }
    if (fail_at >= 0 && off + (long)n > fail_at) n = fail_at - off;
    ssize_t r = real_read(fd, buf, n);
    if (r > 0) off += r;
    if (r > 0 && traced < 4096) trace[traced++] = off;
    return r;
}

ssize_t readv(int fd, const struct iovec *v, int c) {
    static ssize_t (*real)(int, const struct iovec *, int);
    if (!real) real = dlsym(RTLD_NEXT, "readv");
    if (fd != target || c == 0) return real(fd, v, c);
    return read(fd, v[0].iov_base, v[0].iov_len);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (r == 0 && tick && c == CLOCK_MONOTONIC) {
        long ms = tick * reads;
        t->tv_sec += ms / 1000;
        t->tv_nsec += ms % 1000 * 1000000;
        if (t->tv_nsec >= 1000000000) { t->tv_nsec -= 1000000000; t->tv_sec++; }
    }
    return r;
}

__attribute__((destructor)) static void report(void) {
    const char *log = getenv("VF_SHIM_LOG");
    if (!log) return;
    FILE *f = fopen(log, "w");
    if (!f) return;
    fprintf(f, "%d %d %d %ld\n", reads, intr, failed, off);
    for (int i = 0; getenv("VF_SHIM_TRACE") && i < traced; i++) fprintf(f, "%ld ", trace[i]);
    fclose(f);
}
