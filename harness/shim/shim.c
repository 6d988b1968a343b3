/* Preloaded into the compiler: logs file operations, delays them, makes chosen ones fail, cuts them
 * short, interrupts them, or ends the process there.
 *
 * QLC_IO_BASE   only paths below this directory count
 * QLC_IO_LOG    operations are appended here, as "<operation> <n> <path relative to the base>"
 * QLC_IO_PLAN   lines "<operation> <n> <action> <path>"; n counts the operations of that kind on that
 *               path from 1, 0 stands for all of them
 * QLC_IO_DELAY  seed; operations and thread starts are delayed at random
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAX_FD 4096
#define MAX_PLAN 64
#define MAX_SEEN 4096

enum action { NONE, EIO_, ENOSPC_, EACCES_, EMFILE_, EINTR_, SHORT_, KILL_, HALFKILL_ };
static const char *action_names[] = {"none", "eio", "enospc", "eacces", "emfile", "eintr", "short", "kill", "halfkill"};

struct plan { char op[16]; unsigned n; enum action action; char path[3000]; };
struct seen { char *key; unsigned n; };
struct dir_entry { DIR *dir; char *path; };

static struct plan plans[MAX_PLAN];
static int plan_count;
static struct seen seen[MAX_SEEN];
static int seen_count;
static char *fd_path[MAX_FD];
static struct dir_entry dirs[MAX_FD];
static char base[2000];
static int log_fd = -1;
static uint64_t delay_seed;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int ready;

static void setup(void) {
    if (ready) return;
    pthread_mutex_lock(&lock);
    if (!ready) {
        const char *b = getenv("QLC_IO_BASE");
        snprintf(base, sizeof base, "%s", b ? b : "");
        const char *l = getenv("QLC_IO_LOG");
        if (l) log_fd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        const char *d = getenv("QLC_IO_DELAY");
        if (d) delay_seed = strtoull(d, NULL, 10) * 2 + 1;
        const char *p = getenv("QLC_IO_PLAN");
        while (p && *p && plan_count < MAX_PLAN) {
            char name[16];
            int used = 0;
            struct plan *e = &plans[plan_count];
            if (sscanf(p, "%15s %u %15s %n", e->op, &e->n, name, &used) == 3) {
                const char *end = strchr(p + used, '\n');
                size_t len = end ? (size_t)(end - (p + used)) : strlen(p + used);
                if (len < sizeof e->path) {
                    memcpy(e->path, p + used, len);
                    e->path[len] = 0;
                    for (unsigned i = 0; i < sizeof action_names / sizeof *action_names; i++)
                        if (!strcmp(name, action_names[i])) e->action = (enum action)i;
                    plan_count++;
                }
            }
            p = strchr(p, '\n');
            if (p) p++;
        }
        ready = 1;
    }
    pthread_mutex_unlock(&lock);
}

static void pause_a_little(void) {
    if (!delay_seed) return;
    pthread_mutex_lock(&lock);
    delay_seed = delay_seed * 6364136223846793005ULL + 1442695040888963407ULL;
    uint64_t r = delay_seed >> 33;
    pthread_mutex_unlock(&lock);
    if (r % 128 == 5) {
        struct timespec t = {0, 60000000};
        nanosleep(&t, NULL);
    } else if (r % 4 == 0) {
        struct timespec t = {0, (long)(r / 4 % 3000) * 1000};
        nanosleep(&t, NULL);
    }
}

/* Path relative to the base, or NULL if it does not count */
static char *relevant(const char *path) {
    char full[6000];
    if (!base[0] || !path) return NULL;
    if (path[0] == '/') {
        snprintf(full, sizeof full, "%s", path);
    } else {
        char cwd[2900];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return NULL;
        while (path[0] == '.' && path[1] == '/') path += 2;
        snprintf(full, sizeof full, "%s/%s", cwd, strcmp(path, ".") ? path : "");
    }
    size_t n = strlen(base);
    if (strncmp(full, base, n) || full[n] != '/') return NULL;
    return strdup(full + n + 1);
}

static enum action step(const char *op, const char *rel) {
    enum action result = NONE;
    char key[3100];
    unsigned n = 0;
    pause_a_little();
    pthread_mutex_lock(&lock);
    snprintf(key, sizeof key, "%s %s", op, rel);
    for (int i = 0; i < seen_count && !n; i++)
        if (!strcmp(seen[i].key, key)) n = ++seen[i].n;
    if (!n && seen_count < MAX_SEEN) {
        seen[seen_count].key = strdup(key);
        n = seen[seen_count++].n = 1;
    }
    if (log_fd >= 0) {
        char line[3200];
        int len = snprintf(line, sizeof line, "%s %u %s\n", op, n, rel);
        syscall(SYS_write, log_fd, line, (size_t)len);
    }
    for (int i = 0; i < plan_count; i++)
        if (!strcmp(plans[i].op, op) && (plans[i].n == n || !plans[i].n) && !strcmp(plans[i].path, rel)) result = plans[i].action;
    pthread_mutex_unlock(&lock);
    if (result == KILL_) {
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
    return result;
}

/* Sets errno; whether the operation is to fail */
static int fails(enum action a) {
    switch (a) {
    case EIO_: errno = EIO; return 1;
    case ENOSPC_: errno = ENOSPC; return 1;
    case EACCES_: errno = EACCES; return 1;
    case EMFILE_: errno = EMFILE; return 1;
    case EINTR_: errno = EINTR; return 1;
    default: return 0;
    }
}

#define REAL(name) \
    static __typeof__(name) *real; \
    if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static void remember(int fd, char *rel) {
    if (fd >= 0 && fd < MAX_FD) {
        pthread_mutex_lock(&lock);
        fd_path[fd] = rel;
        pthread_mutex_unlock(&lock);
    }
}

static char *path_of(int fd) {
    if (fd < 3 || fd >= MAX_FD) return NULL;
    pthread_mutex_lock(&lock);
    char *p = fd_path[fd];
    pthread_mutex_unlock(&lock);
    return p;
}

static int is_write(int flags) { return (flags & O_ACCMODE) != O_RDONLY; }

#define OPEN_BODY(call) \
    setup(); \
    char *rel = relevant(path); \
    if (rel) { \
        enum action a = step(is_write(flags) ? "create" : "open", rel); \
        if (fails(a)) return -1; \
    } \
    int fd = call; \
    remember(fd, rel); \
    return fd

int open(const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t mode = va_arg(ap, mode_t);
    va_end(ap);
    REAL(open);
    OPEN_BODY(real(path, flags, mode));
}

int open64(const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t mode = va_arg(ap, mode_t);
    va_end(ap);
    REAL(open64);
    OPEN_BODY(real(path, flags, mode));
}

int openat(int at, const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t mode = va_arg(ap, mode_t);
    va_end(ap);
    REAL(openat);
    OPEN_BODY(real(at, path, flags, mode));
}

int openat64(int at, const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t mode = va_arg(ap, mode_t);
    va_end(ap);
    REAL(openat64);
    OPEN_BODY(real(at, path, flags, mode));
}

int close(int fd) {
    REAL(close);
    setup();
    remember(fd, NULL);
    return real(fd);
}

ssize_t read(int fd, void *buf, size_t n) {
    REAL(read);
    setup();
    char *p = path_of(fd);
    if (p) {
        enum action a = step("read", p);
        if (fails(a)) return -1;
        if ((a == SHORT_ || a == HALFKILL_) && n > 1) n = n > 7 ? 7 : 1;
    }
    return real(fd, buf, n);
}

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    setup();
    char *p = path_of(fd);
    if (p) {
        enum action a = step("write", p);
        if (fails(a)) return -1;
        if (a == SHORT_ && n > 1) n /= 2;
        if (a == HALFKILL_) {
            real(fd, buf, n / 2);
            kill(getpid(), SIGKILL);
            for (;;) pause();
        }
    }
    return real(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int count) {
    REAL(writev);
    setup();
    char *p = path_of(fd);
    if (p) {
        enum action a = step("write", p);
        if (fails(a)) return -1;
        if (a == SHORT_ && count > 1) count = 1;
    }
    return real(fd, v, count);
}

DIR *opendir(const char *path) {
    REAL(opendir);
    setup();
    char *rel = relevant(path);
    if (rel && fails(step("opendir", rel))) return NULL;
    DIR *d = real(path);
    if (d && rel) {
        pthread_mutex_lock(&lock);
        for (int i = 0; i < MAX_FD; i++)
            if (!dirs[i].dir) {
                dirs[i].dir = d;
                dirs[i].path = rel;
                break;
            }
        pthread_mutex_unlock(&lock);
    }
    return d;
}

int closedir(DIR *d) {
    REAL(closedir);
    setup();
    pthread_mutex_lock(&lock);
    for (int i = 0; i < MAX_FD; i++)
        if (dirs[i].dir == d) dirs[i].dir = NULL;
    pthread_mutex_unlock(&lock);
    return real(d);
}

struct dirent64 *readdir64(DIR *d) {
    REAL(readdir64);
    setup();
    char *p = NULL;
    pthread_mutex_lock(&lock);
    for (int i = 0; i < MAX_FD; i++)
        if (dirs[i].dir == d) p = dirs[i].path;
    pthread_mutex_unlock(&lock);
    if (p && fails(step("readdir", p))) return NULL;
    return real(d);
}

int rename(const char *from, const char *to) {
    REAL(rename);
    setup();
    char *rel = relevant(to);
    if (rel && fails(step("rename", rel))) return -1;
    return real(from, to);
}

int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    setup();
    char *p = path_of(fd);
    if (p && fails(step("truncate", p))) return -1;
    return real(fd, n);
}

int fsync(int fd) {
    REAL(fsync);
    setup();
    char *p = path_of(fd);
    if (p && fails(step("sync", p))) return -1;
    return real(fd);
}

int statx(int at, const char *restrict path, int flags, unsigned mask, struct statx *restrict out) {
    static int (*real)(int, const char *, int, unsigned, struct statx *);
    if (!real) real = (int (*)(int, const char *, int, unsigned, struct statx *))dlsym(RTLD_NEXT, "statx");
    setup();
    char *rel = path && path[0] ? relevant(path) : NULL;
    if (rel && fails(step("stat", rel))) return -1;
    return real(at, path, flags, mask, out);
}

int pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*body)(void *), void *arg) {
    REAL(pthread_create);
    setup();
    if (fails(step("thread", ""))) return EAGAIN;
    return real(t, attr, body, arg);
}
