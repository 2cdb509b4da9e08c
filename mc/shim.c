/* Records everything that changes files below $HMC_DIR into $HMC_LOG and
 * gives the process an adjustable clock.  Preloaded into the processes the
 * crash checks start, and into nothing else. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
static char *names[MAXFD];
static int flags_of[MAXFD];
static int logfd = -2;
static const char *dir;
static int64_t clock_base = 0;
static int on = 0;

void hmc_set_time(int64_t t) { clock_base = t; }
void hmc_record(int v) { on = v; }

static void init(void)
{
    if (logfd != -2)
        return;
    dir = getenv("HMC_DIR");
    const char *l = getenv("HMC_LOG");
    logfd = (dir && l) ? (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600) : -1;
}

static void put(char op, const char *name, int64_t off, const void *data, int64_t n)
{
    if (logfd < 0 || !on)
        return;
    int32_t nl = (int32_t)strlen(name);
    char *buf = malloc(1 + 4 + 8 + 8 + nl + (data ? n : 0)), *p = buf;
    *p++ = op;
    memcpy(p, &nl, 4); p += 4;
    memcpy(p, &off, 8); p += 8;
    int64_t dl = data ? n : -1 - n;
    memcpy(p, &dl, 8); p += 8;
    memcpy(p, name, nl); p += nl;
    if (data) { memcpy(p, data, n); p += n; }
    syscall(SYS_write, logfd, buf, (size_t)(p - buf));
    free(buf);
}

static int ours(const char *path) { init(); return logfd >= 0 && dir && !strncmp(path, dir, strlen(dir)); }

static const char *absolute(int dfd, const char *path, char *buf, size_t n)
{
    if (path[0] == '/' || dfd != AT_FDCWD || !getcwd(buf, n))
        return path;
    size_t l = strlen(buf);
    snprintf(buf + l, n - l, "/%s", path);
    return buf;
}

static int opened(int fd, const char *path, int flags)
{
    char b[8192];
    int e = errno;
    path = absolute(AT_FDCWD, path, b, sizeof b);
    if (fd >= 0 && fd < MAXFD && ours(path)) {
        free(names[fd]);
        names[fd] = strdup(path);
        flags_of[fd] = flags;
        put(flags & O_TRUNC ? 'T' : flags & O_CREAT ? 'C' : 'O', path, flags, NULL, 0);
    }
    errno = e;
    return fd;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }

int open(const char *p, int flags, ...) { REAL(int, open, const char *, int, ...); MODE return opened(real(p, flags, m), p, flags); }
int open64(const char *p, int flags, ...) { REAL(int, open64, const char *, int, ...); MODE return opened(real(p, flags, m), p, flags); }
int openat(int d, const char *p, int flags, ...) { REAL(int, openat, int, const char *, int, ...); MODE return opened(real(d, p, flags, m), p, flags); }
int openat64(int d, const char *p, int flags, ...) { REAL(int, openat64, int, const char *, int, ...); MODE return opened(real(d, p, flags, m), p, flags); }

int close(int fd)
{
    REAL(int, close, int);
    if (fd >= 0 && fd < MAXFD && names[fd]) {
        put('c', names[fd], 0, NULL, 0);
        free(names[fd]);
        names[fd] = NULL;
    }
    return real(fd);
}

static int known(int fd) { return fd >= 0 && fd < MAXFD && names[fd]; }

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t);
    off_t at = known(fd) ? ((flags_of[fd] & O_APPEND) ? lseek(fd, 0, SEEK_END) : lseek(fd, 0, SEEK_CUR)) : 0;
    ssize_t r = real(fd, b, n);
    if (r > 0 && known(fd))
        put('w', names[fd], at, b, r);
    return r;
}
#define PW(NAME, OFF) ssize_t NAME(int fd, const void *b, size_t n, OFF at) { \
    REAL(ssize_t, NAME, int, const void *, size_t, OFF); \
    ssize_t r = real(fd, b, n, at); \
    if (r > 0 && known(fd)) put('w', names[fd], at, b, r); \
    return r; }
PW(pwrite, off_t)
PW(pwrite64, off64_t)
#define FT(NAME, OFF) int NAME(int fd, OFF n) { REAL(int, NAME, int, OFF); int r = real(fd, n); \
    if (!r && known(fd)) put('t', names[fd], n, NULL, 0); return r; }
FT(ftruncate, off_t)
FT(ftruncate64, off64_t)
int truncate(const char *p, off_t n) { REAL(int, truncate, const char *, off_t); char b[8192]; int r = real(p, n);
    p = absolute(AT_FDCWD, p, b, sizeof b); if (!r && ours(p)) put('t', p, n, NULL, 0); return r; }
int truncate64(const char *p, off64_t n) { REAL(int, truncate64, const char *, off64_t); char b[8192]; int r = real(p, n);
    p = absolute(AT_FDCWD, p, b, sizeof b); if (!r && ours(p)) put('t', p, n, NULL, 0); return r; }
int unlink(const char *p) { REAL(int, unlink, const char *); char b[8192]; int r = real(p);
    p = absolute(AT_FDCWD, p, b, sizeof b); if (!r && ours(p)) put('u', p, 0, NULL, 0); return r; }
#define RN(q) char b[8192], b2[8192]; if (!r) { p = absolute(AT_FDCWD, p, b, sizeof b); q = absolute(AT_FDCWD, q, b2, sizeof b2); \
    if (ours(p) || ours(q)) put('r', p, 0, q, (int64_t)strlen(q)); }
int rename(const char *p, const char *q) { REAL(int, rename, const char *, const char *); int r = real(p, q); RN(q) return r; }
int renameat(int d, const char *p, int e, const char *q) { REAL(int, renameat, int, const char *, int, const char *); int r = real(d, p, e, q); RN(q) return r; }
int renameat2(int d, const char *p, int e, const char *q, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); int r = real(d, p, e, q, f); RN(q) return r; }

/* the clock */
int clock_gettime(clockid_t c, struct timespec *t)
{
    if (clock_base && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        t->tv_sec = clock_base;
        t->tv_nsec = 0;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, t);
}
int gettimeofday(struct timeval *restrict t, void *restrict z)
{
    (void)z;
    if (clock_base) { t->tv_sec = clock_base; t->tv_usec = 0; return 0; }
    struct timespec s;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p)
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (p) *p = s.tv_sec;
    return s.tv_sec;
}
