/* simshim: puts every call through which a luafmt process meets its environment behind a simulated kernel.
 *
 * Loaded with LD_PRELOAD into the unmodified program. Until a process has been spawned by the driver the
 * library is a fork server: it overrides __libc_start_main, reads SPAWN / REAP / KILL commands from a
 * control socket (descriptor 0), forks, and starts the program's main() in the child with the arguments and
 * environment the driver sent. In the child every file, directory, stream, clock, randomness and identity
 * call is turned into one request on a socket to the driver, which answers from the simulated kernel.
 * Nothing here draws a random number, reads a real clock or touches a real file.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <dlfcn.h>

#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

/* the glibc headers' struct stat / stat64 are the same layout on x86-64 */
#include <sys/stat.h>

#define CHAN_FD 500
#define CTL_FD 501
#define ERR_FD 502

enum {
    OP_OPEN = 1, OP_READ, OP_PREAD, OP_WRITE, OP_PWRITE, OP_LSEEK, OP_CLOSE, OP_STAT, OP_FSTAT, OP_OPENDIR,
    OP_GETDENTS, OP_REWINDDIR, OP_UNLINK, OP_RENAME, OP_MKDIR, OP_LINK, OP_SYMLINK, OP_READLINK, OP_REALPATH,
    OP_CHMOD, OP_FCHMOD, OP_CHOWN, OP_FCHOWN, OP_TRUNCATE, OP_FTRUNCATE, OP_FSYNC, OP_UTIMENS, OP_FUTIMENS,
    OP_ACCESS, OP_CHDIR, OP_FCHDIR, OP_GETCWD, OP_UMASK, OP_FLOCK, OP_DUP, OP_DUP2, OP_FCNTL, OP_COPYRANGE,
    OP_ISATTY, OP_CLOCK, OP_SLEEP, OP_GETID, OP_GETRANDOM, OP_YIELD, OP_MMAPFD, OP_FALLOCATE, OP_SYNC,
    OP_NOSYS
};

struct req { uint32_t len; uint32_t op; int64_t a[6]; };
struct rep { uint32_t len; int32_t err; int64_t ret; };

static volatile int active = 0;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

/* ---- raw system calls: never through an interposable symbol ---- */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) \
    raw6((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static long ret_errno(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

static void die(const char *msg) {
    RAW(SYS_write, ERR_FD, msg, strlen(msg));
    RAW(SYS_exit_group, 99);
    __builtin_unreachable();
}

static void wr_all(int fd, const void *p, size_t n) {
    const char *c = p;
    while (n) {
        long r = RAW(SYS_write, fd, c, n);
        if (r == -EINTR) continue;
        if (r <= 0) RAW(SYS_exit_group, 98); /* the driver is gone */
        c += r; n -= (size_t)r;
    }
}
static void rd_all(int fd, void *p, size_t n) {
    char *c = p;
    while (n) {
        long r = RAW(SYS_read, fd, c, n);
        if (r == -EINTR) continue;
        if (r <= 0) RAW(SYS_exit_group, 98);
        c += r; n -= (size_t)r;
    }
}

/* ---- one request, one reply ---- */
struct out { const void *p; size_t n; };
static int64_t rpc(int op, const int64_t *a, int na, const struct out *outs, int nouts, void *in, size_t incap) {
    struct req rq;
    struct rep rp;
    char small[4096];
    memset(&rq, 0, sizeof rq);
    for (int i = 0; i < na; i++) rq.a[i] = a[i];
    size_t tot = 0;
    for (int i = 0; i < nouts; i++) tot += outs[i].n;
    rq.op = (uint32_t)op;
    rq.len = (uint32_t)tot;
    pthread_mutex_lock(&lock);
    if (sizeof rq + tot <= sizeof small) {
        size_t o = sizeof rq;
        memcpy(small, &rq, sizeof rq);
        for (int i = 0; i < nouts; i++) { memcpy(small + o, outs[i].p, outs[i].n); o += outs[i].n; }
        wr_all(CHAN_FD, small, o);
    } else {
        wr_all(CHAN_FD, &rq, sizeof rq);
        for (int i = 0; i < nouts; i++) wr_all(CHAN_FD, outs[i].p, outs[i].n);
    }
    rd_all(CHAN_FD, &rp, sizeof rp);
    if (rp.len) {
        if (rp.len > incap) die("simshim: oversized reply\n");
        rd_all(CHAN_FD, in, rp.len);
    }
    pthread_mutex_unlock(&lock);
    if (rp.err) { errno = rp.err; return -1; }
    return rp.ret;
}
#define A(...) ((const int64_t[]){__VA_ARGS__}), (int)(sizeof((int64_t[]){__VA_ARGS__}) / sizeof(int64_t))
static struct out pstr(const char *p) { struct out o = { p, strlen(p) }; return o; }
#define PTHROW(p) do { uintptr_t pv_ = (uintptr_t)(p); __asm__ volatile("" : "+r"(pv_)); \
    if (pv_ == 0) { errno = EFAULT; return -1; } } while (0)

/* ---- open / close / read / write ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    PTHROW(path);
    struct out o = pstr(path);
    return (int)rpc(OP_OPEN, A(dirfd, flags, mode), &o, 1, NULL, 0);
}
#define GETMODE(last) mode_t mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, last); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) {
    GETMODE(flags)
    if (!active) return (int)ret_errno(RAW(SYS_openat, AT_FDCWD, path, flags, mode));
    return do_open(AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
    GETMODE(flags)
    if (!active) return (int)ret_errno(RAW(SYS_openat, AT_FDCWD, path, flags, mode));
    return do_open(AT_FDCWD, path, flags, mode);
}
int openat(int dirfd, const char *path, int flags, ...) {
    GETMODE(flags)
    if (!active) return (int)ret_errno(RAW(SYS_openat, dirfd, path, flags, mode));
    return do_open(dirfd, path, flags, mode);
}
int openat64(int dirfd, const char *path, int flags, ...) {
    GETMODE(flags)
    if (!active) return (int)ret_errno(RAW(SYS_openat, dirfd, path, flags, mode));
    return do_open(dirfd, path, flags, mode);
}
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
    if (!active) return (int)ret_errno(RAW(SYS_close, fd));
    return (int)rpc(OP_CLOSE, A(fd), NULL, 0, NULL, 0);
}
ssize_t read(int fd, void *buf, size_t n) {
    if (!active) return ret_errno(RAW(SYS_read, fd, buf, n));
    if (n > (1u << 26)) n = 1u << 26;
    return rpc(OP_READ, A(fd, (int64_t)n), NULL, 0, buf, n);
}
static ssize_t do_pread(int fd, void *buf, size_t n, off_t off) {
    if (!active) return ret_errno(RAW(SYS_pread64, fd, buf, n, off));
    if (n > (1u << 26)) n = 1u << 26;
    return rpc(OP_PREAD, A(fd, (int64_t)n, off), NULL, 0, buf, n);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }
static ssize_t do_readv(int fd, const struct iovec *v, int c, off_t off, int pos) {
    size_t tot = 0;
    for (int i = 0; i < c; i++) tot += v[i].iov_len;
    if (tot > (1u << 26)) tot = 1u << 26;
    char *b = malloc(tot ? tot : 1);
    ssize_t r = pos ? rpc(OP_PREAD, A(fd, (int64_t)tot, off), NULL, 0, b, tot)
                    : rpc(OP_READ, A(fd, (int64_t)tot), NULL, 0, b, tot);
    int e = errno;
    if (r > 0) {
        size_t left = (size_t)r, o = 0;
        for (int i = 0; i < c && left; i++) {
            size_t k = v[i].iov_len < left ? v[i].iov_len : left;
            memcpy(v[i].iov_base, b + o, k);
            o += k; left -= k;
        }
    }
    free(b);
    errno = e;
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!active) return ret_errno(RAW(SYS_readv, fd, v, c));
    return do_readv(fd, v, c, 0, 0);
}
ssize_t preadv(int fd, const struct iovec *v, int c, off_t off) { return do_readv(fd, v, c, off, 1); }
ssize_t preadv64(int fd, const struct iovec *v, int c, off_t off) { return do_readv(fd, v, c, off, 1); }

ssize_t write(int fd, const void *buf, size_t n) {
    if (!active) return ret_errno(RAW(SYS_write, fd, buf, n));
    if (n > (1u << 26)) n = 1u << 26;
    struct out o = { buf, n };
    return rpc(OP_WRITE, A(fd), &o, 1, NULL, 0);
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t off) {
    if (!active) return ret_errno(RAW(SYS_pwrite64, fd, buf, n, off));
    struct out o = { buf, n };
    return rpc(OP_PWRITE, A(fd, off), &o, 1, NULL, 0);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return do_pwrite(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return do_pwrite(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!active) return ret_errno(RAW(SYS_writev, fd, v, c));
    struct out *o = malloc(sizeof *o * (size_t)(c ? c : 1));
    for (int i = 0; i < c; i++) { o[i].p = v[i].iov_base; o[i].n = v[i].iov_len; }
    ssize_t r = rpc(OP_WRITE, A(fd), o, c, NULL, 0);
    int e = errno;
    free(o);
    errno = e;
    return r;
}
static ssize_t do_pwritev(int fd, const struct iovec *v, int c, off_t off) {
    struct out *o = malloc(sizeof *o * (size_t)(c ? c : 1));
    for (int i = 0; i < c; i++) { o[i].p = v[i].iov_base; o[i].n = v[i].iov_len; }
    ssize_t r = rpc(OP_PWRITE, A(fd, off), o, c, NULL, 0);
    int e = errno;
    free(o);
    errno = e;
    return r;
}
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t off) { return do_pwritev(fd, v, c, off); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off_t off) { return do_pwritev(fd, v, c, off); }

static off_t do_lseek(int fd, off_t off, int wh) {
    if (!active) return ret_errno(RAW(SYS_lseek, fd, off, wh));
    return rpc(OP_LSEEK, A(fd, off, wh), NULL, 0, NULL, 0);
}
off_t lseek(int fd, off_t off, int wh) { return do_lseek(fd, off, wh); }
off_t lseek64(int fd, off_t off, int wh) { return do_lseek(fd, off, wh); }

/* ---- stat family ---- */
struct wst { int64_t dev, ino, mode, nlink, uid, gid, size, blksize, blocks, at, an, mt, mn, ct, cn, bt, bn; };
static void to_stat(const struct wst *w, struct stat *s) {
    memset(s, 0, sizeof *s);
    s->st_dev = (dev_t)w->dev; s->st_ino = (ino_t)w->ino; s->st_mode = (mode_t)w->mode;
    s->st_nlink = (nlink_t)w->nlink; s->st_uid = (uid_t)w->uid; s->st_gid = (gid_t)w->gid;
    s->st_size = w->size; s->st_blksize = w->blksize; s->st_blocks = w->blocks;
    s->st_atim.tv_sec = w->at; s->st_atim.tv_nsec = w->an;
    s->st_mtim.tv_sec = w->mt; s->st_mtim.tv_nsec = w->mn;
    s->st_ctim.tv_sec = w->ct; s->st_ctim.tv_nsec = w->cn;
}
static int do_statat(int dirfd, const char *path, struct wst *w, int flags) {
    PTHROW(path);
    struct out o = pstr(path);
    return (int)rpc(OP_STAT, A(dirfd, flags), &o, 1, w, sizeof *w);
}
static int statat_c(int dirfd, const char *path, struct stat *s, int flags) {
    if (!active) return (int)ret_errno(RAW(SYS_newfstatat, dirfd, path, s, flags));
    struct wst w;
    int r = do_statat(dirfd, path, &w, flags);
    if (r == 0) to_stat(&w, s);
    return r;
}
int stat(const char *restrict p, struct stat *restrict s) { return statat_c(AT_FDCWD, p, s, 0); }
int lstat(const char *restrict p, struct stat *restrict s) { return statat_c(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *restrict p, struct stat *restrict s, int f) { return statat_c(d, p, s, f); }
int fstat(int fd, struct stat *s) {
    if (!active) return (int)ret_errno(RAW(SYS_fstat, fd, s));
    struct wst w;
    int r = (int)rpc(OP_FSTAT, A(fd), NULL, 0, &w, sizeof w);
    if (r == 0) to_stat(&w, s);
    return r;
}
int stat64(const char *restrict p, struct stat64 *restrict s) { return stat(p, (struct stat *)s); }
int lstat64(const char *restrict p, struct stat64 *restrict s) { return lstat(p, (struct stat *)s); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict s, int f) { return statat_c(d, p, (struct stat *)s, f); }
int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *)s); }
int statx(int dirfd, const char *restrict path, int flags, unsigned mask, struct statx *restrict sx) {
    if (!active) return (int)ret_errno(RAW(SYS_statx, dirfd, path, flags, mask, sx));
    /* the standard library probes for statx with null pointers and expects EFAULT */
    uintptr_t pv = (uintptr_t)path, sv = (uintptr_t)sx;
    __asm__ volatile("" : "+r"(pv), "+r"(sv));
    if (pv == 0 || sv == 0) { errno = EFAULT; return -1; }
    struct wst w;
    int r;
    if (path[0] == 0 && (flags & AT_EMPTY_PATH)) r = (int)rpc(OP_FSTAT, A(dirfd), NULL, 0, &w, sizeof w);
    else r = do_statat(dirfd, path, &w, flags);
    if (r) return r;
    memset(sx, 0, sizeof *sx);
    sx->stx_mask = STATX_BASIC_STATS | STATX_BTIME;
    sx->stx_blksize = (uint32_t)w.blksize; sx->stx_nlink = (uint32_t)w.nlink;
    sx->stx_uid = (uint32_t)w.uid; sx->stx_gid = (uint32_t)w.gid; sx->stx_mode = (uint16_t)w.mode;
    sx->stx_ino = (uint64_t)w.ino; sx->stx_size = (uint64_t)w.size; sx->stx_blocks = (uint64_t)w.blocks;
    sx->stx_atime.tv_sec = w.at; sx->stx_atime.tv_nsec = (uint32_t)w.an;
    sx->stx_mtime.tv_sec = w.mt; sx->stx_mtime.tv_nsec = (uint32_t)w.mn;
    sx->stx_ctime.tv_sec = w.ct; sx->stx_ctime.tv_nsec = (uint32_t)w.cn;
    sx->stx_btime.tv_sec = w.bt; sx->stx_btime.tv_nsec = (uint32_t)w.bn;
    sx->stx_dev_major = (uint32_t)(w.dev >> 8); sx->stx_dev_minor = (uint32_t)(w.dev & 255);
    return 0;
}

/* ---- directories ---- */
struct simdir { int fd; int eof; size_t pos, len; struct dirent64 cur; char buf[65536]; };
static DIR *mkdirp(int fd) {
    struct simdir *d = calloc(1, sizeof *d);
    d->fd = fd;
    return (DIR *)d;
}
DIR *opendir(const char *path) {
    if (!active) die("simshim: opendir before start\n");
    struct out o = pstr(path);
    int fd = (int)rpc(OP_OPENDIR, A(0), &o, 1, NULL, 0);
    return fd < 0 ? NULL : mkdirp(fd);
}
DIR *fdopendir(int fd) {
    struct wst w;
    if (rpc(OP_FSTAT, A(fd), NULL, 0, &w, sizeof w) < 0) return NULL;
    if ((w.mode & S_IFMT) != S_IFDIR) { errno = ENOTDIR; return NULL; }
    return mkdirp(fd);
}
struct dirent64 *readdir64(DIR *dp) {
    struct simdir *d = (struct simdir *)dp;
    if (d->pos >= d->len) {
        if (d->eof) return NULL;
        int64_t r = rpc(OP_GETDENTS, A(d->fd), NULL, 0, d->buf, sizeof d->buf);
        if (r < 0) return NULL;
        if (r == 0) { d->eof = 1; return NULL; }
        d->pos = 0;
        d->len = (size_t)r;
    }
    char *p = d->buf + d->pos;
    uint64_t ino; uint16_t nl;
    memcpy(&ino, p, 8);
    memcpy(&nl, p + 10, 2);
    memset(&d->cur, 0, offsetof(struct dirent64, d_name));
    d->cur.d_ino = ino;
    d->cur.d_type = (unsigned char)p[8];
    d->cur.d_off = (off64_t)d->pos;
    memcpy(d->cur.d_name, p + 12, nl);
    d->cur.d_name[nl] = 0;
    d->cur.d_reclen = (unsigned short)((offsetof(struct dirent64, d_name) + nl + 1 + 7) & ~7u);
    d->pos += 12 + (size_t)nl;
    return &d->cur;
}
struct dirent *readdir(DIR *dp) { return (struct dirent *)readdir64(dp); }
int readdir64_r(DIR *dp, struct dirent64 *e, struct dirent64 **res) {
    int save = errno;
    errno = 0;
    struct dirent64 *x = readdir64(dp);
    int er = errno;
    errno = save;
    if (!x) { *res = NULL; return er; }
    memcpy(e, x, sizeof *x);
    *res = e;
    return 0;
}
int closedir(DIR *dp) {
    struct simdir *d = (struct simdir *)dp;
    int fd = d->fd;
    free(d);
    return close(fd);
}
int dirfd(DIR *dp) { return ((struct simdir *)dp)->fd; }
void rewinddir(DIR *dp) {
    struct simdir *d = (struct simdir *)dp;
    d->pos = d->len = 0; d->eof = 0;
    rpc(OP_REWINDDIR, A(d->fd), NULL, 0, NULL, 0);
}

/* ---- names ---- */
int unlinkat(int dirfd, const char *p, int flags) {
    PTHROW(p);
    struct out o = pstr(p);
    return (int)rpc(OP_UNLINK, A(dirfd, flags), &o, 1, NULL, 0);
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) {
    int r = unlinkat(AT_FDCWD, p, 0);
    if (r < 0 && errno == EISDIR) r = unlinkat(AT_FDCWD, p, AT_REMOVEDIR);
    return r;
}
static int two(int op, int64_t a, int64_t b, int64_t c, const char *p, const char *q) {
    if (!p || !q) { errno = EFAULT; return -1; }
    struct out o[2] = { { p, strlen(p) + 1 }, { q, strlen(q) } };
    return (int)rpc(op, A(a, b, c), o, 2, NULL, 0);
}
int renameat2(int od, const char *p, int nd, const char *q, unsigned f) { return two(OP_RENAME, od, nd, f, p, q); }
int renameat(int od, const char *p, int nd, const char *q) { return two(OP_RENAME, od, nd, 0, p, q); }
int rename(const char *p, const char *q) { return two(OP_RENAME, AT_FDCWD, AT_FDCWD, 0, p, q); }
int linkat(int od, const char *p, int nd, const char *q, int f) { return two(OP_LINK, od, nd, f, p, q); }
int link(const char *p, const char *q) { return two(OP_LINK, AT_FDCWD, AT_FDCWD, 0, p, q); }
int symlinkat(const char *t, int nd, const char *q) { return two(OP_SYMLINK, nd, 0, 0, t, q); }
int symlink(const char *t, const char *q) { return two(OP_SYMLINK, AT_FDCWD, 0, 0, t, q); }
int mkdirat(int d, const char *p, mode_t m) {
    PTHROW(p);
    struct out o = pstr(p);
    return (int)rpc(OP_MKDIR, A(d, m), &o, 1, NULL, 0);
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
ssize_t readlinkat(int d, const char *restrict p, char *restrict b, size_t n) {
    PTHROW(p);
    if (!active) return ret_errno(RAW(SYS_readlinkat, d, p, b, n));
    struct out o = pstr(p);
    return rpc(OP_READLINK, A(d, (int64_t)n), &o, 1, b, n);
}
ssize_t readlink(const char *restrict p, char *restrict b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }
char *realpath(const char *restrict p, char *restrict resolved) {
    if (!p) { errno = EINVAL; return NULL; }
    char buf[PATH_MAX + 1];
    struct out o = pstr(p);
    int64_t r = rpc(OP_REALPATH, A(0), &o, 1, buf, PATH_MAX);
    if (r < 0) return NULL;
    buf[r] = 0;
    if (!resolved) resolved = malloc((size_t)r + 1);
    memcpy(resolved, buf, (size_t)r + 1);
    return resolved;
}
char *__realpath_chk(const char *p, char *resolved, size_t n) { (void)n; return realpath(p, resolved); }
char *canonicalize_file_name(const char *p) { return realpath(p, NULL); }
int fchmodat(int d, const char *p, mode_t m, int f) {
    PTHROW(p);
    struct out o = pstr(p);
    return (int)rpc(OP_CHMOD, A(d, m, f), &o, 1, NULL, 0);
}
int chmod(const char *p, mode_t m) { return fchmodat(AT_FDCWD, p, m, 0); }
int lchmod(const char *p, mode_t m) { return fchmodat(AT_FDCWD, p, m, AT_SYMLINK_NOFOLLOW); }
int fchmod(int fd, mode_t m) { return (int)rpc(OP_FCHMOD, A(fd, m), NULL, 0, NULL, 0); }
int fchownat(int d, const char *p, uid_t u, gid_t g, int f) {
    PTHROW(p);
    struct out o = pstr(p);
    return (int)rpc(OP_CHOWN, A(d, (int32_t)u, (int32_t)g, f), &o, 1, NULL, 0);
}
int chown(const char *p, uid_t u, gid_t g) { return fchownat(AT_FDCWD, p, u, g, 0); }
int lchown(const char *p, uid_t u, gid_t g) { return fchownat(AT_FDCWD, p, u, g, AT_SYMLINK_NOFOLLOW); }
int fchown(int fd, uid_t u, gid_t g) { return (int)rpc(OP_FCHOWN, A(fd, (int32_t)u, (int32_t)g), NULL, 0, NULL, 0); }
int truncate(const char *p, off_t n) {
    PTHROW(p);
    struct out o = pstr(p);
    return (int)rpc(OP_TRUNCATE, A(n), &o, 1, NULL, 0);
}
int truncate64(const char *p, off_t n) { return truncate(p, n); }
int ftruncate(int fd, off_t n) { return (int)rpc(OP_FTRUNCATE, A(fd, n), NULL, 0, NULL, 0); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int fsync(int fd) { return (int)rpc(OP_FSYNC, A(fd, 0), NULL, 0, NULL, 0); }
int fdatasync(int fd) { return (int)rpc(OP_FSYNC, A(fd, 1), NULL, 0, NULL, 0); }
int syncfs(int fd) { return (int)rpc(OP_FSYNC, A(fd, 2), NULL, 0, NULL, 0); }
void sync(void) { rpc(OP_SYNC, A(0), NULL, 0, NULL, 0); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    if (!p) return (int)rpc(OP_FUTIMENS, A(d), NULL, 0, NULL, 0);
    struct out o = pstr(p);
    int64_t s = t ? t[1].tv_sec : -1, n = t ? t[1].tv_nsec : 0;
    return (int)rpc(OP_UTIMENS, A(d, f, s, n), &o, 1, NULL, 0);
}
int utimes(const char *p, const struct timeval t[2]) { (void)t; return utimensat(AT_FDCWD, p, NULL, 0); }
int futimens(int fd, const struct timespec t[2]) {
    int64_t s = t ? t[1].tv_sec : -1, n = t ? t[1].tv_nsec : 0;
    return (int)rpc(OP_FUTIMENS, A(fd, s, n), NULL, 0, NULL, 0);
}
int faccessat(int d, const char *p, int m, int f) {
    PTHROW(p);
    struct out o = pstr(p);
    return (int)rpc(OP_ACCESS, A(d, m, f), &o, 1, NULL, 0);
}
int access(const char *p, int m) {
    if (!active) return (int)ret_errno(RAW(SYS_access, p, m));
    return faccessat(AT_FDCWD, p, m, 0);
}
int euidaccess(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }
int chdir(const char *p) {
    PTHROW(p);
    struct out o = pstr(p);
    return (int)rpc(OP_CHDIR, A(0), &o, 1, NULL, 0);
}
int fchdir(int fd) { return (int)rpc(OP_FCHDIR, A(fd), NULL, 0, NULL, 0); }
char *getcwd(char *b, size_t n) {
    char tmp[PATH_MAX + 1];
    int64_t r = rpc(OP_GETCWD, A(0), NULL, 0, tmp, PATH_MAX);
    if (r < 0) return NULL;
    tmp[r] = 0;
    if (!b) { b = malloc(n > (size_t)r + 1 ? n : (size_t)r + 1); n = (size_t)r + 1; }
    if (n < (size_t)r + 1) { errno = ERANGE; return NULL; }
    memcpy(b, tmp, (size_t)r + 1);
    return b;
}
mode_t umask(mode_t m) { return (mode_t)rpc(OP_UMASK, A(m), NULL, 0, NULL, 0); }
int flock(int fd, int op) { return (int)rpc(OP_FLOCK, A(fd, op), NULL, 0, NULL, 0); }
int lockf(int fd, int c, off_t n) { (void)n; return (int)rpc(OP_FLOCK, A(fd, c), NULL, 0, NULL, 0); }
int posix_fallocate(int fd, off_t o, off_t n) {
    int s = errno;
    int r = (int)rpc(OP_FALLOCATE, A(fd, 0, o, n), NULL, 0, NULL, 0);
    if (r < 0) { r = errno; errno = s; }
    return r;
}
int posix_fallocate64(int fd, off_t o, off_t n) { return posix_fallocate(fd, o, n); }
int fallocate(int fd, int m, off_t o, off_t n) { return (int)rpc(OP_FALLOCATE, A(fd, m, o, n), NULL, 0, NULL, 0); }
int fallocate64(int fd, int m, off_t o, off_t n) { return fallocate(fd, m, o, n); }
int posix_fadvise(int fd, off_t o, off_t n, int a) { (void)fd; (void)o; (void)n; (void)a; return 0; }
int posix_fadvise64(int fd, off_t o, off_t n, int a) { (void)fd; (void)o; (void)n; (void)a; return 0; }
int sync_file_range(int fd, off_t o, off_t n, unsigned f) { (void)fd; (void)o; (void)n; (void)f; return 0; }

/* ---- descriptors ---- */
static int do_fcntl(int fd, int cmd, long arg) {
    if (!active) return (int)ret_errno(RAW(SYS_fcntl, fd, cmd, arg));
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return (int)rpc(OP_DUP, A(fd, arg), NULL, 0, NULL, 0);
    return (int)rpc(OP_FCNTL, A(fd, cmd, arg), NULL, 0, NULL, 0);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long x = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, x); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long x = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, x); }
int dup(int fd) { return (int)rpc(OP_DUP, A(fd, 0), NULL, 0, NULL, 0); }
int dup2(int a, int b) {
    if (!active) return (int)ret_errno(RAW(SYS_dup2, a, b));
    return (int)rpc(OP_DUP2, A(a, b), NULL, 0, NULL, 0);
}
int dup3(int a, int b, int f) { (void)f; return dup2(a, b); }
static ssize_t do_copy(int in, off_t *oi, int out, off_t *oo, size_t n) {
    if (n > (1u << 26)) n = 1u << 26;
    int64_t r = rpc(OP_COPYRANGE, A(in, out, (int64_t)n, oi ? *oi : -1, oo ? *oo : -1), NULL, 0, NULL, 0);
    if (r > 0) { if (oi) *oi += r; if (oo) *oo += r; }
    return r;
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) { (void)f; return do_copy(in, oi, out, oo, n); }
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return do_copy(in, off, out, NULL, n); }
ssize_t sendfile64(int out, int in, off_t *off, size_t n) { return do_copy(in, off, out, NULL, n); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
    (void)a; (void)b; (void)c; (void)d; (void)n; (void)f;
    errno = EINVAL;
    return -1;
}
int isatty(int fd) {
    if (!active) return 0;
    int64_t r = rpc(OP_ISATTY, A(fd), NULL, 0, NULL, 0);
    return r == 1;
}
int ioctl(int fd, unsigned long rq, ...) { (void)fd; (void)rq; errno = ENOTTY; return -1; }
int pipe(int p[2]) { (void)p; errno = EMFILE; return -1; }
int pipe2(int p[2], int f) { (void)p; (void)f; errno = EMFILE; return -1; }

void *mmap(void *addr, size_t n, int prot, int flags, int fd, off_t off) {
    if (active && fd >= 0 && !(flags & MAP_ANONYMOUS)) {
        rpc(OP_MMAPFD, A(fd), NULL, 0, NULL, 0);
        errno = ENODEV;
        return MAP_FAILED;
    }
    return (void *)ret_errno(RAW(SYS_mmap, addr, n, prot, flags, fd, off));
}
void *mmap64(void *addr, size_t n, int prot, int flags, int fd, off_t off) { return mmap(addr, n, prot, flags, fd, off); }

/* ---- clock, sleep, identity, randomness ---- */
int clock_gettime(clockid_t id, struct timespec *t) {
    if (!active) return (int)ret_errno(RAW(SYS_clock_gettime, id, t));
    int64_t ns = rpc(OP_CLOCK, A(id), NULL, 0, NULL, 0);
    t->tv_sec = ns / 1000000000;
    t->tv_nsec = ns % 1000000000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void)tz;
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    tv->tv_sec = s.tv_sec;
    tv->tv_usec = s.tv_nsec / 1000;
    return 0;
}
static int do_sleep(int64_t ns) { return (int)rpc(OP_SLEEP, A(ns), NULL, 0, NULL, 0); }
int nanosleep(const struct timespec *a, struct timespec *b) {
    (void)b;
    if (!active) return (int)ret_errno(RAW(SYS_nanosleep, a, b));
    return do_sleep((int64_t)a->tv_sec * 1000000000 + a->tv_nsec);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
    (void)b;
    int64_t ns = (int64_t)a->tv_sec * 1000000000 + a->tv_nsec;
    if (fl & TIMER_ABSTIME) {
        struct timespec now;
        clock_gettime(id, &now);
        ns -= (int64_t)now.tv_sec * 1000000000 + now.tv_nsec;
        if (ns < 0) ns = 0;
    }
    do_sleep(ns);
    return 0;
}
int usleep(useconds_t u) { return do_sleep((int64_t)u * 1000); }
unsigned sleep(unsigned s) { do_sleep((int64_t)s * 1000000000); return 0; }
static int64_t getid(int w) { return rpc(OP_GETID, A(w), NULL, 0, NULL, 0); }
pid_t getpid(void) { return active ? (pid_t)getid(0) : (pid_t)RAW(SYS_getpid); }
pid_t gettid(void) { return active ? (pid_t)getid(0) : (pid_t)RAW(SYS_gettid); }
pid_t getppid(void) { return active ? (pid_t)getid(1) : (pid_t)RAW(SYS_getppid); }
uid_t getuid(void) { return active ? (uid_t)getid(2) : (uid_t)RAW(SYS_getuid); }
uid_t geteuid(void) { return active ? (uid_t)getid(2) : (uid_t)RAW(SYS_geteuid); }
gid_t getgid(void) { return active ? (gid_t)getid(3) : (gid_t)RAW(SYS_getgid); }
gid_t getegid(void) { return active ? (gid_t)getid(3) : (gid_t)RAW(SYS_getegid); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!active) return ret_errno(RAW(SYS_getrandom, b, n, f));
    if (n > 65536) n = 65536;
    return rpc(OP_GETRANDOM, A((int64_t)n), NULL, 0, b, n);
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

/* programs are not started from inside the simulation */
pid_t fork(void) {
    if (!active) return (pid_t)ret_errno(RAW(SYS_fork));
    rpc(OP_NOSYS, A(1), NULL, 0, NULL, 0);
    errno = EAGAIN;
    return -1;
}
pid_t vfork(void) { return fork(); }
int posix_spawn(pid_t *p, const char *f, const void *a, const void *b, char *const c[], char *const d[]) {
    (void)p; (void)f; (void)a; (void)b; (void)c; (void)d;
    return EAGAIN;
}
int posix_spawnp(pid_t *p, const char *f, const void *a, const void *b, char *const c[], char *const d[]) {
    (void)p; (void)f; (void)a; (void)b; (void)c; (void)d;
    return EAGAIN;
}
int execve(const char *f, char *const a[], char *const e[]) { (void)f; (void)a; (void)e; errno = EACCES; return -1; }
int execvp(const char *f, char *const a[]) { (void)f; (void)a; errno = EACCES; return -1; }

/* the token scheduler of libsim takes over futex waits of library code */
static long (*futex_hook)(uint32_t *, int, uint32_t) = NULL;
void simshim_set_futex_hook(long (*h)(uint32_t *, int, uint32_t)) { futex_hook = h; }
int64_t simshim_yield(int64_t a) { return rpc(OP_YIELD, A(a), NULL, 0, NULL, 0); }

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active) switch (n) {
        case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
        case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
        case SYS_copy_file_range: return copy_file_range((int)a, (off64_t *)b, (int)c, (off64_t *)d, (size_t)e, (unsigned)f);
        case SYS_renameat2: return renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
        case SYS_openat: return do_open((int)a, (const char *)b, (int)c, (mode_t)d);
        case SYS_open: return do_open(AT_FDCWD, (const char *)a, (int)b, (mode_t)c);
        case SYS_read: return read((int)a, (void *)b, (size_t)c);
        case SYS_write: return write((int)a, (const void *)b, (size_t)c);
        case SYS_close: return close((int)a);
        case SYS_fsync: return fsync((int)a);
        case SYS_unlinkat: return unlinkat((int)a, (const char *)b, (int)c);
        case SYS_fchmodat2: return fchmodat((int)a, (const char *)b, (mode_t)c, (int)d);
        case SYS_faccessat2: return faccessat((int)a, (const char *)b, (int)c, (int)d);
        case SYS_getpid: return getpid();
        case SYS_gettid: return getpid();
        case SYS_fork: case SYS_vfork: case SYS_execve: case SYS_pidfd_open: case SYS_clone3: errno = ENOSYS; return -1;
        case SYS_futex:
            if (futex_hook) {
                long r = futex_hook((uint32_t *)a, (int)b, (uint32_t)c);
                if (r != -1000) return r;
            }
            break;
        default: break;
    }
    return ret_errno(raw6(n, a, b, c, d, e, f));
}

/* ---- fork server ---- */
struct ctl { uint32_t cmd; uint32_t len; int64_t a, b; };
enum { CTL_SPAWN = 1, CTL_REAP = 2, CTL_KILL = 3 };

static int recv_ctl(struct ctl *c, int *fd) {
    char cb[CMSG_SPACE(sizeof(int))];
    struct iovec iov = { c, sizeof *c };
    struct msghdr m;
    memset(&m, 0, sizeof m);
    m.msg_iov = &iov; m.msg_iovlen = 1;
    m.msg_control = cb; m.msg_controllen = sizeof cb;
    long r;
    do r = RAW(SYS_recvmsg, CTL_FD, &m, MSG_WAITALL); while (r == -EINTR);
    if (r != (long)sizeof *c) return -1;
    *fd = -1;
    struct cmsghdr *h = CMSG_FIRSTHDR(&m);
    if (h && h->cmsg_level == SOL_SOCKET && h->cmsg_type == SCM_RIGHTS) memcpy(fd, CMSG_DATA(h), sizeof(int));
    return 0;
}

typedef int (*main_fn)(int, char **, char **);
typedef int (*start_fn)(main_fn, int, char **, void (*)(void), void (*)(void), void (*)(void), void *);

int __libc_start_main(main_fn mainf, int argc, char **argv, void (*init)(void), void (*fini)(void),
                      void (*rtld_fini)(void), void *stack_end) {
    start_fn real = (start_fn)dlsym(RTLD_NEXT, "__libc_start_main");
    if (!getenv("SIMSHIM")) return real(mainf, argc, argv, init, fini, rtld_fini, stack_end);
    RAW(SYS_dup2, 2, ERR_FD);
    RAW(SYS_dup2, 0, CTL_FD);
    long nul = RAW(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
    RAW(SYS_dup2, nul, 0); RAW(SYS_dup2, nul, 1); RAW(SYS_dup2, nul, 2);
    if (nul > 2) RAW(SYS_close, nul);
    for (;;) {
        struct ctl c;
        int fd;
        if (recv_ctl(&c, &fd) < 0) RAW(SYS_exit_group, 0);
        if (c.cmd == CTL_SPAWN) {
            char *blob = malloc(c.len + 1);
            rd_all(CTL_FD, blob, c.len);
            blob[c.len] = 0;
            if (fd < 0) die("simshim: spawn without channel\n");
            long pid = RAW(SYS_fork);
            if (pid == 0) {
                RAW(SYS_dup2, fd, CHAN_FD);
                RAW(SYS_close, fd);
                RAW(SYS_close, CTL_FD);
                struct rlimit rl = { 0, 0 };
                RAW(SYS_setrlimit, RLIMIT_CORE, &rl);
                rl.rlim_cur = rl.rlim_max = 40;
                RAW(SYS_setrlimit, RLIMIT_CPU, &rl);
                rl.rlim_cur = rl.rlim_max = 4ul << 30;
                RAW(SYS_setrlimit, RLIMIT_AS, &rl);
                int ac = (int)c.a, ec = (int)c.b;
                char **v = calloc((size_t)(ac + ec + 4), sizeof *v);
                char *p = blob;
                for (int i = 0; i < ac; i++) { v[i] = p; p += strlen(p) + 1; }
                for (int i = 0; i < ec; i++) { v[ac + 1 + i] = p; p += strlen(p) + 1; }
                extern char **environ;
                environ = v + ac + 1;
                active = 1;
                int r = real(mainf, ac, v, init, fini, rtld_fini, stack_end);
                RAW(SYS_exit_group, r);
            }
            RAW(SYS_close, fd);
            free(blob);
            int64_t r = pid;
            wr_all(CTL_FD, &r, sizeof r);
        } else {
            int st = 0;
            if (c.cmd == CTL_KILL) RAW(SYS_kill, c.a, SIGKILL);
            long r;
            do r = RAW(SYS_wait4, c.a, &st, 0, NULL); while (r == -EINTR);
            int64_t o = r < 0 ? -1 : st;
            wr_all(CTL_FD, &o, sizeof o);
        }
    }
}
