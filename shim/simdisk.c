/* libsimdisk: LD_PRELOAD interposer that puts every file operation under one scratch directory behind a
 * callback owned by the simulator.  Anything outside the registered root goes straight to libc.
 *
 * The hook is called before the operation with (op, path, path2, fd, n) and returns
 *     0            perform the operation
 *    -errno        fail with errno, no effect
 *     k > 0        write/read: transfer at most k bytes
 *     TORN | k     write: transfer k bytes for real, then fail with EIO (a crash in the middle of a write)
 * close() always closes the descriptor for real; a negative answer only makes it report the error.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/types.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_TRUNC, OP_FSYNC, OP_STAT, OP_MKDIR, OP_RMDIR, OP_LINK };
#define TORN (1L << 40)
#define MAXFD 4096

typedef long (*hook_t)(int op, const char *path, const char *path2, int fd, long n);
static hook_t the_hook;
static char root[PATH_MAX];
static size_t rootlen;
static char *fdpath[MAXFD];

void simdisk_set(const char *r, hook_t h)
{
    the_hook = NULL;
    for (int i = 0; i < MAXFD; i++) { free(fdpath[i]); fdpath[i] = NULL; }
    if (r && h) { strncpy(root, r, sizeof root - 1); rootlen = strlen(root); the_hook = h; }
    else rootlen = 0;
}
int simdisk_present(void) { return 1; }
/* number of descriptors under the root that are still open */
int simdisk_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += fdpath[i] != NULL; return n; }

static const char *absolute(int dirfd, const char *p, char *buf)
{
    if (!p || !*p) return NULL;
    if (p[0] == '/') { strncpy(buf, p, PATH_MAX - 1); buf[PATH_MAX - 1] = 0; }
    else {
        char cwd[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return NULL; }
        else if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) strncpy(cwd, fdpath[dirfd], sizeof cwd - 1);
        else return NULL;
        if (snprintf(buf, PATH_MAX, "%s/%s", cwd, p) >= PATH_MAX) return NULL;
    }
    /* drop "/./" and doubled slashes */
    char *o = buf;
    for (char *s = buf; *s; ) {
        if (s[0] == '/' && s[1] == '/') { s++; continue; }
        if (s[0] == '/' && s[1] == '.' && (s[2] == '/' || !s[2])) { s += 2; continue; }
        *o++ = *s++;
    }
    *o = 0;
    return buf;
}
static int inside(const char *p) { return p && rootlen && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]); }
static long ask(int op, const char *p, const char *p2, int fd, long n)
{
    hook_t h = the_hook;
    if (!h) return 0;
    int e = errno;
    long r = h(op, p, p2, fd, n);
    errno = e;
    return r;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static void remember(int fd, const char *p) { if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(p); } }

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    char b[PATH_MAX];
    const char *p = the_hook ? absolute(dirfd, path, b) : NULL;
    int in = inside(p);
    if (in) { long r = ask(OP_OPEN, p, NULL, -1, flags); if (r < 0) { errno = -r; return -1; } }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (in && fd >= 0) remember(fd, p);
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static const char *tracked(int fd) { return the_hook && fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }

ssize_t write(int fd, const void *buf, size_t n)
{
    const char *p = tracked(fd);
    if (p) {
        long r = ask(OP_WRITE, p, NULL, fd, (long)n);
        if (r < 0) { errno = -r; return -1; }
        if (r & TORN) {
            long k = r & (TORN - 1); if ((size_t)k > n) k = n;
            if (k > 0) { ssize_t x = syscall(SYS_write, fd, buf, k); (void)x; }
            errno = EIO; return -1;
        }
        if (r > 0 && (size_t)r < n) n = r;
    }
    return syscall(SYS_write, fd, buf, n);
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t off)
{
    const char *p = tracked(fd);
    if (p) {
        long r = ask(OP_WRITE, p, NULL, fd, (long)n);
        if (r < 0) { errno = -r; return -1; }
        if (r & TORN) { long k = r & (TORN - 1); if (k > 0) { ssize_t x = syscall(SYS_pwrite64, fd, buf, k, off); (void)x; } errno = EIO; return -1; }
        if (r > 0 && (size_t)r < n) n = r;
    }
    return syscall(SYS_pwrite64, fd, buf, n, off);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t read(int fd, void *buf, size_t n)
{
    const char *p = tracked(fd);
    if (p) {
        long r = ask(OP_READ, p, NULL, fd, (long)n);
        if (r < 0) { errno = -r; return -1; }
        if (r > 0 && (size_t)r < n) n = r;
    }
    return syscall(SYS_read, fd, buf, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (tracked(o) || tracked(i)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t sendfile64(int o, int i, off_t *off, size_t n) { if (tracked(o) || tracked(i)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned f) { if (tracked(o) || tracked(i)) { errno = EXDEV; return -1; } return syscall(SYS_copy_file_range, i, io, o, oo, n, f); }

int close(int fd)
{
    const char *p = tracked(fd);
    long r = 0;
    if (p) {
        r = ask(OP_CLOSE, p, NULL, fd, 0);
    }
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; }
    int x = syscall(SYS_close, fd);
    if (r < 0) { errno = -r; return -1; }
    return x;
}
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned flags)
{
    char b1[PATH_MAX], b2[PATH_MAX];
    if (the_hook) {
        const char *p = absolute(d1, a, b1), *q = absolute(d2, b, b2);
        if (inside(p) || inside(q)) { long r = ask(OP_RENAME, p, q, -1, 0); if (r < 0) { errno = -r; return -1; } }
    }
    return syscall(SYS_renameat2, d1, a, d2, b, flags);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }

static int path_op(int op, int d, const char *path, const char *path2)
{
    char b[PATH_MAX];
    if (!the_hook) return 0;
    const char *p = absolute(d, path, b);
    if (inside(p)) { long r = ask(op, p, path2, -1, 0); if (r < 0) { errno = -r; return -1; } }
    return 0;
}
int unlink(const char *p) { if (path_op(OP_UNLINK, AT_FDCWD, p, NULL)) return -1; return syscall(SYS_unlink, p); }
int unlinkat(int d, const char *p, int f) { if (path_op(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, d, p, NULL)) return -1; return syscall(SYS_unlinkat, d, p, f); }
int remove(const char *p) { if (path_op(OP_UNLINK, AT_FDCWD, p, NULL)) return -1; if (syscall(SYS_unlink, p) == 0) return 0; if (errno == EISDIR) return syscall(SYS_rmdir, p); return -1; }
int rmdir(const char *p) { if (path_op(OP_RMDIR, AT_FDCWD, p, NULL)) return -1; return syscall(SYS_rmdir, p); }
int mkdir(const char *p, mode_t m) { if (path_op(OP_MKDIR, AT_FDCWD, p, NULL)) return -1; return syscall(SYS_mkdir, p, m); }
int mkdirat(int d, const char *p, mode_t m) { if (path_op(OP_MKDIR, d, p, NULL)) return -1; return syscall(SYS_mkdirat, d, p, m); }
int link(const char *a, const char *b) { if (path_op(OP_LINK, AT_FDCWD, a, b)) return -1; return syscall(SYS_link, a, b); }
int linkat(int d, const char *a, int d2, const char *b, int f) { if (path_op(OP_LINK, d, a, b)) return -1; return syscall(SYS_linkat, d, a, d2, b, f); }
int symlink(const char *a, const char *b) { if (path_op(OP_LINK, AT_FDCWD, b, a)) return -1; return syscall(SYS_symlink, a, b); }
int truncate(const char *p, off_t n) { if (path_op(OP_TRUNC, AT_FDCWD, p, NULL)) return -1; return syscall(SYS_truncate, p, n); }
int truncate64(const char *p, off_t n) { if (path_op(OP_TRUNC, AT_FDCWD, p, NULL)) return -1; return syscall(SYS_truncate, p, n); }
static int do_ftruncate(int fd, off_t n)
{
    const char *p = tracked(fd);
    if (p) { long r = ask(OP_TRUNC, p, NULL, fd, n); if (r < 0) { errno = -r; return -1; } }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off_t n) { return do_ftruncate(fd, n); }
static int do_sync(int fd, long nr)
{
    const char *p = tracked(fd);
    if (p) { long r = ask(OP_FSYNC, p, NULL, fd, 0); if (r < 0) { errno = -r; return -1; } return 0; }
    return syscall(nr, fd);
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

/* existence checks: scheduling points only */
#define STATFN(name, st) int name(const char *restrict p, struct st *restrict s) { \
    REAL(int, #name, const char *, struct st *); if (path_op(OP_STAT, AT_FDCWD, p, NULL)) return -1; return real(p, s); }
STATFN(stat, stat)
STATFN(stat64, stat64)
STATFN(lstat, stat)
STATFN(lstat64, stat64)
int fstatat(int d, const char *restrict p, struct stat *restrict s, int f)
{ REAL(int, "fstatat", int, const char *, struct stat *, int); if (path_op(OP_STAT, d, p, NULL)) return -1; return real(d, p, s, f); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict s, int f)
{ REAL(int, "fstatat64", int, const char *, struct stat64 *, int); if (path_op(OP_STAT, d, p, NULL)) return -1; return real(d, p, s, f); }
int access(const char *p, int m) { if (path_op(OP_STAT, AT_FDCWD, p, NULL)) return -1; return syscall(SYS_access, p, m); }
