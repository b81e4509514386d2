/* Interposes the C library calls that change files.
 *
 * Once armed, the calls are counted, and at a given call, and optionally at
 * each one after it, something happens: the process is killed, the process is
 * stopped, or the call fails.
 *
 * In a schedule (SCHED), the process is stopped before it takes a lock, and
 * at the given call after that.  Where it was stopped is written to a file
 * descriptor.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>

enum { OFF, COUNT, KILL, FAIL, STOP, STOPALL, FAILALL, SCHED };

static volatile int mode = OFF;
static volatile long target, count;
static volatile int code = EIO;
static pid_t owner;

void fault_arm(int m, long n, int e)
{
    owner = getpid();
    target = n;
    count = 0;
    code = e;
    mode = m;
}

long fault_count(void)
{
    return count;
}

static int is_armed(void)
{
    return mode != OFF && getpid() == owner;
}

/* Say where this is and wait. */
static void wait_at(const char *where)
{
    syscall(SYS_write, code, where, 1);
    raise(SIGSTOP);
}

/* Returns whether the call must fail. */
static int hit(void)
{
    if (!is_armed())
        return 0;
    count++;
    switch (mode) {
    case KILL:
        if (count == target)
            kill(getpid(), SIGKILL);
        return 0;
    case FAIL:
        return count == target;
    case FAILALL:
        return count >= target;
    case STOP:
        if (count == target)
            raise(SIGSTOP);
        return 0;
    case SCHED:
        if (count == target)
            wait_at("c");
        return 0;
    case STOPALL:
        if (count >= target)
            raise(SIGSTOP);
        return 0;
    }
    return 0;
}

static int failed(void)
{
    errno = code;
    return -1;
}

static int regular(int fd)
{
    struct stat st;
    if (!is_armed())
        return 0;
    return syscall(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode);
}

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)

/* Whether opening a file changes it or makes one. */
static int makes(int dir, const char *path, int flags)
{
    struct stat st;
    /* What replaces this file isn't interrupted by other programs. */
    if (is_armed() && mode == STOP && strstr(path, "/info.json")
            && flags & O_CREAT)
        mode = OFF;
    if (!is_armed() || !(flags & (O_CREAT | O_TRUNC)))
        return 0;
    if (!strncmp(path, "/dev/", 5) && strncmp(path, "/dev/shm/", 9))
        return 0;
    return flags & O_TRUNC
        || syscall(SYS_newfstatat, dir, path, &st, 0) != 0;
}

#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
    REAL(name); \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); \
    } \
    if (makes(AT_FDCWD, path, flags) && hit()) return failed(); \
    return real(path, flags, m); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) \
{ \
    REAL(name); \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); \
    } \
    if (makes(dir, path, flags) && hit()) return failed(); \
    return real(dir, path, flags, m); \
}
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *data, size_t n)
{
    REAL(write);
    if (regular(fd) && hit()) {
        return failed();
    }
    return real(fd, data, n);
}
#define PWRITE(name, off) \
ssize_t name(int fd, const void *data, size_t n, off o) \
{ \
    REAL(name); \
    if (regular(fd) && hit()) return failed(); \
    return real(fd, data, n, o); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

#define SENDFILE(name, off) \
ssize_t name(int out, int in, off *o, size_t n) \
{ \
    REAL(name); \
    if (regular(out) && hit()) return failed(); \
    return real(out, in, o, n); \
}
SENDFILE(sendfile, off_t)
SENDFILE(sendfile64, off64_t)

ssize_t copy_file_range(int in, off64_t *a, int out, off64_t *b, size_t n,
                        unsigned flags)
{
    REAL(copy_file_range);
    if (regular(out) && hit()) return failed();
    return real(in, a, out, b, n, flags);
}

#define CALL(name, params, args) \
int name params \
{ \
    REAL(name); \
    if (hit()) return failed(); \
    return real args; \
}
CALL(rename, (const char *a, const char *b), (a, b))
CALL(renameat, (int x, const char *a, int y, const char *b), (x, a, y, b))
CALL(unlink, (const char *a), (a))
CALL(unlinkat, (int x, const char *a, int f), (x, a, f))
CALL(rmdir, (const char *a), (a))

int mkdir(const char *path, mode_t m)
{
    REAL(mkdir);
    struct stat st;
    /* This changes nothing if there is something already. */
    if (is_armed() && syscall(SYS_newfstatat, AT_FDCWD, path, &st, 0) != 0
            && hit())
        return failed();
    return real(path, m);
}
CALL(mkdirat, (int x, const char *a, mode_t m), (x, a, m))
CALL(symlink, (const char *a, const char *b), (a, b))
CALL(symlinkat, (const char *a, int x, const char *b), (a, x, b))
CALL(link, (const char *a, const char *b), (a, b))
CALL(linkat, (int x, const char *a, int y, const char *b, int f),
     (x, a, y, b, f))
CALL(chmod, (const char *a, mode_t m), (a, m))
CALL(fchmod, (int x, mode_t m), (x, m))
CALL(fchmodat, (int x, const char *a, mode_t m, int f), (x, a, m, f))
CALL(truncate, (const char *a, off_t n), (a, n))
CALL(truncate64, (const char *a, off64_t n), (a, n))
CALL(ftruncate, (int x, off_t n), (x, n))
CALL(ftruncate64, (int x, off64_t n), (x, n))
CALL(utimensat, (int x, const char *a, const struct timespec t[2], int f),
     (x, a, t, f))
CALL(futimens, (int x, const struct timespec t[2]), (x, t))

static void before_lock(void)
{
    if (is_armed() && mode == SCHED) {
        wait_at("l");
        count = 0;
    }
}

int bind(int fd, const struct sockaddr *a, socklen_t n)
{
    REAL(bind);
    if (a && a->sa_family == AF_UNIX)
        before_lock();
    return real(fd, a, n);
}

int flock(int fd, int op)
{
    REAL(flock);
    if (op != LOCK_UN)
        before_lock();
    return real(fd, op);
}
