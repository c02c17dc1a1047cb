/* Preloaded into the fork server: counts the calls that change files below a
   directory, logs them, and kills the process at a chosen one. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static int logfd = -1;
static long at = -1;
static int mode;            /* 0: kill before the call, 1: in the middle of a write */
static volatile long count;

void shim_arm(const char *p, int fd, long n, int m)
{
    strncpy(prefix, p, sizeof prefix - 1);
    logfd = fd;
    at = n;
    mode = m;
    count = 0;
}

long shim_disarm(void)
{
    prefix[0] = 0;
    return count;
}

static int below(const char *path)
{
    if (!prefix[0] || !path)
        return 0;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd - 1))
            return 0;
        strcat(cwd, "/");
        return !strncmp(cwd, prefix, strlen(prefix));
    }
    return !strncmp(path, prefix, strlen(prefix));
}

static int fd_path(int fd, char *buf)
{
    char p[64];
    ssize_t n;
    buf[0] = 0;
    if (!prefix[0])
        return 0;
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    n = readlink(p, buf, PATH_MAX - 1);
    if (n <= 0)
        return 0;
    buf[n] = 0;
    return !strncmp(buf, prefix, strlen(prefix));
}

/* Returns the number of bytes of a write to do before the end, or -1 to go on. */
static long hit(const char *what, const char *path, long size)
{
    long n = __sync_fetch_and_add(&count, 1);
    if (logfd >= 0) {
        char line[PATH_MAX + 100];
        int k = snprintf(line, sizeof line, "%s\t%ld\t%s\n", what, size, path);
        syscall(SYS_write, logfd, line, (long)k);
    }
    if (n != at)
        return -1;
    if (mode == 1 && size > 1)
        return size / 2;
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;)
        pause();
}

static void die(void)
{
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;)
        pause();
}

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
    mode_t m = 0; \
    REAL(name); \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    if ((flags & (O_CREAT | O_TRUNC)) && below(path)) { \
        struct stat st; \
        if ((flags & O_TRUNC) || stat(path, &st)) hit("open", path, 0); \
    } \
    return real(path, flags, m); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int d, const char *path, int flags, ...) \
{ \
    mode_t m = 0; \
    REAL(name); \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    if ((flags & (O_CREAT | O_TRUNC)) && below(path)) { \
        struct stat st; \
        if ((flags & O_TRUNC) || stat(path, &st)) hit("open", path, 0); \
    } \
    return real(d, path, flags, m); \
}
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *buf, size_t n)
{
    char p[PATH_MAX];
    REAL(write);
    if (fd_path(fd, p)) {
        long k = hit("write", p, n);
        if (k >= 0) { real(fd, buf, k); die(); }
    }
    return real(fd, buf, n);
}

#define PWRITE(name, off_type) \
ssize_t name(int fd, const void *buf, size_t n, off_type off) \
{ \
    char p[PATH_MAX]; \
    REAL(name); \
    if (fd_path(fd, p)) { \
        long k = hit("pwrite", p, n); \
        if (k >= 0) { real(fd, buf, k, off); die(); } \
    } \
    return real(fd, buf, n, off); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

ssize_t writev(int fd, const struct iovec *v, int n)
{
    char p[PATH_MAX];
    REAL(writev);
    if (fd_path(fd, p)) hit("writev", p, 0);
    return real(fd, v, n);
}

#define FD1(name, ret, type) \
ret name(int fd, type x) \
{ \
    char p[PATH_MAX]; \
    REAL(name); \
    if (fd_path(fd, p)) hit(#name, p, 0); \
    return real(fd, x); \
}
FD1(ftruncate, int, off_t)
FD1(ftruncate64, int, off64_t)

#define FD0(name) \
int name(int fd) \
{ \
    char p[PATH_MAX]; \
    REAL(name); \
    if (fd_path(fd, p)) hit(#name, p, 0); \
    return real(fd); \
}
FD0(fsync)
FD0(fdatasync)

#define PATH1(name) \
int name(const char *path) \
{ \
    REAL(name); \
    if (below(path)) hit(#name, path, 0); \
    return real(path); \
}
PATH1(unlink)
PATH1(rmdir)
PATH1(remove)

int mkdir(const char *path, mode_t m)
{
    REAL(mkdir);
    if (below(path)) hit("mkdir", path, 0);
    return real(path, m);
}

int unlinkat(int d, const char *path, int f)
{
    REAL(unlinkat);
    if (below(path)) hit("unlink", path, 0);
    return real(d, path, f);
}

int rename(const char *a, const char *b)
{
    REAL(rename);
    if (below(a) || below(b)) hit("rename", b, 0);
    return real(a, b);
}

int renameat(int d, const char *a, int e, const char *b)
{
    REAL(renameat);
    if (below(a) || below(b)) hit("rename", b, 0);
    return real(d, a, e, b);
}

int link(const char *a, const char *b)
{
    REAL(link);
    if (below(b)) hit("link", b, 0);
    return real(a, b);
}

int symlink(const char *a, const char *b)
{
    REAL(symlink);
    if (below(b)) hit("symlink", b, 0);
    return real(a, b);
}

int truncate(const char *a, off_t n)
{
    REAL(truncate);
    if (below(a)) hit("truncate", a, 0);
    return real(a, n);
}
