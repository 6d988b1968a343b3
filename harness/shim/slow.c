/* Creating a file takes QLC_SLOW milliseconds, removing one none. What is created has room for
   QLC_ROOM bytes in all. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static volatile char created[4096];
static long used;

static int note(int fd, int flags) {
    if (fd >= 0 && fd < 4096) created[fd] = (flags & O_CREAT) != 0;
    return fd;
}

static void nap(int flags) {
    const char *ms = getenv("QLC_SLOW");
    if (ms && (flags & O_CREAT)) usleep(1000 * atoi(ms));
}

#define OPEN(name)                                                      \
    int name(const char *path, int flags, ...) {                        \
        static int (*real)(const char *, int, ...);                     \
        va_list args;                                                   \
        mode_t mode = 0;                                                \
        if (!real) real = dlsym(RTLD_NEXT, #name);                      \
        if (flags & (O_CREAT | O_TMPFILE)) {                            \
            va_start(args, flags);                                      \
            mode = va_arg(args, mode_t);                                \
            va_end(args);                                               \
        }                                                               \
        nap(flags);                                                     \
        return note(real(path, flags, mode), flags);                    \
    }

OPEN(open)
OPEN(open64)

int close(int fd) {
    static int (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "close");
    if (fd >= 0 && fd < 4096) created[fd] = 0;
    return real(fd);
}

/* Bytes of n there is room for, or -1 */
static long room(int fd, size_t n) {
    const char *text = getenv("QLC_ROOM");
    long all, before;
    if (!text || fd < 0 || fd >= 4096 || !created[fd] || !n) return n;
    all = atol(text);
    before = __sync_fetch_and_add(&used, n);
    if (before >= all) {
        errno = ENOSPC;
        return -1;
    }
    return before + (long)n > all ? all - before : (long)n;
}

static size_t total(const struct iovec *v, int count) {
    size_t n = 0;
    for (int i = 0; i < count; i++) n += v[i].iov_len;
    return n;
}

#define WRITE(name, params, own, n, again)                              \
    ssize_t name params {                                               \
        static ssize_t (*real) params;                                  \
        long most = room(fd, n);                                        \
        if (!real) real = dlsym(RTLD_NEXT, #name);                      \
        if (most < 0) return -1;                                        \
        if ((size_t)most < (n)) {                                       \
            again                                                       \
        }                                                               \
        return real own;                                                \
    }

WRITE(write, (int fd, const void *buf, size_t size), (fd, buf, size), size, size = most;)
WRITE(pwrite, (int fd, const void *buf, size_t size, off_t at), (fd, buf, size, at), size, size = most;)
WRITE(pwrite64, (int fd, const void *buf, size_t size, off64_t at), (fd, buf, size, at), size, size = most;)
/* A prefix of several buffers: at least one whole one, or part of the first */
#define FEWER                                                           \
    static __thread struct iovec one;                                   \
    one = v[0];                                                         \
    if ((long)one.iov_len > most) one.iov_len = most;                   \
    v = &one;                                                           \
    count = 1;
WRITE(writev, (int fd, const struct iovec *v, int count), (fd, v, count), total(v, count), FEWER)
WRITE(pwritev, (int fd, const struct iovec *v, int count, off_t at), (fd, v, count, at), total(v, count), FEWER)
WRITE(pwritev64, (int fd, const struct iovec *v, int count, off64_t at), (fd, v, count, at), total(v, count), FEWER)
