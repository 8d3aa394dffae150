/* LD_PRELOAD library: makes chosen file system calls below a scratch directory fail.
 *
 * zv_arm(prefix, mask, nth, err, persistent): the nth matching call (from 1; 0: none, only counting) fails with err
 * (err -1: write calls transfer about half and then fail with ENOSPC, read calls report the end of the file).
 * err -2: nothing fails; the process stops itself (SIGSTOP) before each matching call, and in the middle of each write.
 * zv_disarm() returns the number of matching calls seen, zv_fired() the number of calls that failed.
 * Calls on other paths, and all calls while it is not armed, go through unchanged. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPENR = 1, OPENW = 2, READ = 4, WRITE = 8, CLOSE = 16, RENAME = 32, MKDIR = 64, UNLINK = 128, STAT = 256, OPENDIR = 512, SEEK = 1024 };

static char prefix[PATH_MAX];
static size_t prefix_len;
static atomic_int armed, mask, err, persistent;
static atomic_long nth, seen, fired;

#define REAL(name) ({ static void * p; if(!p) p = dlsym(RTLD_NEXT, #name); (__typeof__(&name)) p; })

void zv_arm(const char * p, int m, long n, int e, int pers) {
    strncpy(prefix, p, sizeof(prefix) - 1);
    prefix_len = strlen(prefix);
    mask = m; nth = n; err = e; persistent = pers; seen = 0; fired = 0;
    armed = 1;
}
long zv_disarm(void) { armed = 0; return seen; }
long zv_fired(void) { return fired; }

static int inside(const char * path) {
    return path && strncmp(path, prefix, prefix_len) == 0;
}

static int fd_inside(int fd) {
    char link[64], buf[PATH_MAX];
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    ssize_t n = REAL(readlink)(link, buf, sizeof(buf) - 1);
    if(n <= 0) return 0;
    buf[n] = 0;
    return inside(buf);
}

/* does this call fail? */
static int hit(int kind) {
    if(!(mask & kind)) return 0;
    long n = ++seen;
    if(err == -2) {
        raise(SIGSTOP);
        return 0;
    }
    if(nth > 0 && (n == nth || (persistent && n > nth))) {
        ++fired;
        return 1;
    }
    return 0;
}
static int fail_path(int kind, const char * path) {
    if(!armed) return 0;
    int e = errno;
    if(inside(path) && hit(kind)) { errno = err > 0 ? (int) err : EIO; return 1; }
    errno = e;
    return 0;
}
static int fail_fd(int kind, int fd) {
    if(!armed) return 0;
    int e = errno;
    if(fd_inside(fd) && hit(kind)) { errno = err > 0 ? (int) err : EIO; return 1; }
    errno = e;
    return 0;
}
static int wr(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT); }

#define OPENFN(name) \
int name(const char * path, int flags, ...) { \
    mode_t m = 0; \
    if(flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    if(fail_path(wr(flags) ? OPENW : (flags & O_DIRECTORY) ? OPENDIR : OPENR, path)) return -1; \
    return REAL(name)(path, flags, m); \
}
OPENFN(open)
OPENFN(open64)
#define OPENATFN(name) \
int name(int d, const char * path, int flags, ...) { \
    mode_t m = 0; \
    if(flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    if(fail_path(wr(flags) ? OPENW : (flags & O_DIRECTORY) ? OPENDIR : OPENR, path)) return -1; \
    return REAL(name)(d, path, flags, m); \
}
OPENATFN(openat)
OPENATFN(openat64)
#define FOPENFN(name) \
FILE * name(const char * path, const char * mode) { \
    if(fail_path(strpbrk(mode, "wa+") ? OPENW : OPENR, path)) return NULL; \
    return REAL(name)(path, mode); \
}
FOPENFN(fopen)
FOPENFN(fopen64)

ssize_t write(int fd, const void * b, size_t n) {
    if(fail_fd(WRITE, fd)) {
        if(err == -1 && n > 1) { n = n / 2; persistent = 1; nth = 1; return REAL(write)(fd, b, n); }
        return -1;
    }
    if(armed && err == -2 && n > 1 && (mask & WRITE) && fd_inside(fd)) {
        ssize_t k = REAL(write)(fd, b, n / 2);
        if(k < 0) return k;
        hit(WRITE);
        ssize_t m = REAL(write)(fd, (const char *) b + k, n - k);
        return m < 0 ? k : k + m;
    }
    return REAL(write)(fd, b, n);
}
ssize_t writev(int fd, const struct iovec * v, int c) {
    if(fail_fd(WRITE, fd)) {
        if(err == -1 && c > 1) { persistent = 1; nth = 1; return REAL(writev)(fd, v, 1); }
        return -1;
    }
    if(armed && err == -2 && c > 1 && (mask & WRITE) && fd_inside(fd)) {
        ssize_t k = REAL(writev)(fd, v, 1);
        if(k < 0 || (size_t) k < v[0].iov_len) return k;
        hit(WRITE);
        ssize_t m = REAL(writev)(fd, v + 1, c - 1);
        return m < 0 ? k : k + m;
    }
    return REAL(writev)(fd, v, c);
}
#define PWRITEFN(name, off) ssize_t name(int fd, const void * b, size_t n, off o) { if(fail_fd(WRITE, fd)) return -1; return REAL(name)(fd, b, n, o); }
PWRITEFN(pwrite, off_t)
PWRITEFN(pwrite64, off64_t)
size_t fwrite(const void * b, size_t s, size_t n, FILE * f) {
    if(armed && fail_fd(WRITE, fileno(f))) return 0;
    return REAL(fwrite)(b, s, n, f);
}
ssize_t read(int fd, void * b, size_t n) {
    if(fail_fd(READ, fd)) return err == -1 ? 0 : -1;
    return REAL(read)(fd, b, n);
}
ssize_t readv(int fd, const struct iovec * v, int c) {
    if(fail_fd(READ, fd)) return err == -1 ? 0 : -1;
    return REAL(readv)(fd, v, c);
}
#define PREADFN(name, off) ssize_t name(int fd, void * b, size_t n, off o) { if(fail_fd(READ, fd)) return err == -1 ? 0 : -1; return REAL(name)(fd, b, n, o); }
PREADFN(pread, off_t)
PREADFN(pread64, off64_t)
size_t fread(void * b, size_t s, size_t n, FILE * f) {
    if(armed && fail_fd(READ, fileno(f))) return 0;
    return REAL(fread)(b, s, n, f);
}
/* the descriptor is closed all the same, as on Linux; only files open for writing report errors then */
static int closing(int fd) {
    if(!armed || !(mask & CLOSE)) return 0;
    int fl = fcntl(fd, F_GETFL);
    return fl >= 0 && (fl & O_ACCMODE) != O_RDONLY && fail_fd(CLOSE, fd);
}
int close(int fd) {
    if(closing(fd)) { int e = errno; REAL(close)(fd); errno = e; return -1; }
    return REAL(close)(fd);
}
int fclose(FILE * f) {
    if(closing(fileno(f))) { int e = errno; REAL(fclose)(f); errno = e; return EOF; }
    return REAL(fclose)(f);
}
int rename(const char * a, const char * b) {
    if(fail_path(RENAME, b)) return -1;
    return REAL(rename)(a, b);
}
int renameat(int x, const char * a, int y, const char * b) {
    if(fail_path(RENAME, b)) return -1;
    return REAL(renameat)(x, a, y, b);
}
int mkdir(const char * p, mode_t m) {
    if(fail_path(MKDIR, p)) return -1;
    return REAL(mkdir)(p, m);
}
int mkdirat(int d, const char * p, mode_t m) {
    if(fail_path(MKDIR, p)) return -1;
    return REAL(mkdirat)(d, p, m);
}
int unlink(const char * p) {
    if(fail_path(UNLINK, p)) return -1;
    return REAL(unlink)(p);
}
int rmdir(const char * p) {
    if(fail_path(UNLINK, p)) return -1;
    return REAL(rmdir)(p);
}
int remove(const char * p) {
    if(fail_path(UNLINK, p)) return -1;
    return REAL(remove)(p);
}
int unlinkat(int d, const char * p, int fl) {
    if(armed && (p[0] == '/' ? inside(p) : fd_inside(d)) && hit(UNLINK)) { errno = err > 0 ? (int) err : EIO; return -1; }
    return REAL(unlinkat)(d, p, fl);
}
int truncate(const char * p, off_t n) {
    if(fail_path(WRITE, p)) return -1;
    return REAL(truncate)(p, n);
}
int ftruncate(int fd, off_t n) {
    if(fail_fd(WRITE, fd)) return -1;
    return REAL(ftruncate)(fd, n);
}
int stat(const char * p, struct stat * s) {
    if(fail_path(STAT, p)) return -1;
    return REAL(stat)(p, s);
}
int stat64(const char * p, struct stat64 * s) {
    if(fail_path(STAT, p)) return -1;
    return REAL(stat64)(p, s);
}
int lstat(const char * p, struct stat * s) {
    if(fail_path(STAT, p)) return -1;
    return REAL(lstat)(p, s);
}
DIR * opendir(const char * p) {
    if(fail_path(OPENDIR, p)) return NULL;
    return REAL(opendir)(p);
}
off_t lseek(int fd, off_t o, int w) {
    if(fail_fd(SEEK, fd)) return -1;
    return REAL(lseek)(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) {
    if(fail_fd(SEEK, fd)) return -1;
    return REAL(lseek64)(fd, o, w);
}
