/* LD_PRELOAD monitor: records, delays, fails or kills at filesystem
   operations below BV_ROOT.  Controlled through a shared state file.

   BV_STATE  path of a mmapped struct state
   BV_ROOT   ':'-separated absolute path prefixes that are watched
   BV_LOG    (optional) event log, one line per event: pid op ret path[\tpath2] */
#define _GNU_SOURCE
#define _LARGEFILE64_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct state {
    uint64_t n;          /* events so far (all processes) */
    uint64_t kill_at;    /* kill the process group before event n == kill_at (1-based); 0: never */
    uint64_t torn;       /* when killing at a write, write half of it first */
    uint64_t fail_at;    /* fail event n with fail_errno */
    uint64_t fail_errno;
    uint64_t fail_more;  /* also fail every later event of the same kind */
    uint64_t fail_kinds; /* bitmask of kinds counted as events; 0: all */
    uint64_t delay_us;   /* sleep up to this long before each event */
    uint64_t delay_seed;
    uint64_t hits;       /* kills or failures delivered */
    uint64_t fail_kind;  /* kind of the failed event */
    uint64_t kill_self;  /* kill only the process, not the group */
    uint64_t short_write;/* seed: make writes short at random */
    uint64_t stop_at;    /* SIGSTOP the process before event n */
    uint64_t stop_pid;   /* the process that was stopped */
    uint64_t kinds[20];  /* events seen of each kind */
};

enum { K_OPEN = 1, K_WRITE = 2, K_RENAME = 4, K_UNLINK = 8, K_MKDIR = 16, K_TRUNC = 32, K_FSYNC = 64, K_LINK = 128,
       K_MMAP = 256, K_READ = 512, K_OPENR = 1024, K_STAT = 2048, K_CLOSE = 4096, K_SEEK = 8192,
       K_DIR = 16384, K_META = 32768, K_FSTAT = 65536, K_READLINK = 131072 };
#define QUIET (K_READ | K_OPENR | K_STAT | K_CLOSE | K_SEEK | K_DIR | K_META | K_FSTAT | K_READLINK)

static volatile struct state *S;
static char roots[8][PATH_MAX];
static int nroots;
static char logp[PATH_MAX];
static int inited;

static void init(void)
{
    if (inited) return;
    inited = 1;
    const char *s = getenv("BV_STATE"), *r = getenv("BV_ROOT"), *l = getenv("BV_LOG");
    if (!s || !r) return;
    if (getenv("BV_NOT")) { /* leave out processes of this name */
        char c[64]; int f = syscall(SYS_openat, AT_FDCWD, "/proc/self/comm", O_RDONLY | O_CLOEXEC, 0);
        long k = f < 0 ? 0 : syscall(SYS_read, f, c, sizeof c - 1);
        if (f >= 0) syscall(SYS_close, f);
        if (k > 0) { c[k] = 0; c[strcspn(c, "\n")] = 0; if (!strcmp(c, getenv("BV_NOT"))) return; }
    }
    while (*r && nroots < 8) {
        const char *e = strchr(r, ':');
        size_t n = e ? (size_t)(e - r) : strlen(r);
        if (n && n < PATH_MAX) { memcpy(roots[nroots], r, n); roots[nroots][n] = 0; nroots++; }
        r += n + (e != NULL);
    }
    if (l) strncpy(logp, l, PATH_MAX - 1);
    int fd = syscall(SYS_openat, AT_FDCWD, s, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) return;
    void *p = (void *)syscall(SYS_mmap, NULL, sizeof(struct state), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (p != MAP_FAILED) S = p;
}
__attribute__((constructor)) static void ctor(void) { init(); }

static int under(const char *p)
{
    for (int i = 0; i < nroots; i++) {
        size_t n = strlen(roots[i]);
        if (!strncmp(p, roots[i], n) && (p[n] == '/' || !p[n])) return 1;
    }
    return 0;
}

/* absolute path of dirfd+path, lexically (".", ".." kept) */
static int abspath(int dirfd, const char *p, char *out)
{
    if (!S || !p) return 0;
    if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); }
    else {
        char d[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!syscall(SYS_getcwd, d, sizeof d)) return 0; }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, d, sizeof d - 1);
            if (n < 0) return 0;
            d[n] = 0;
        }
        const char *q = p;
        while (q[0] == '.' && q[1] == '/') q += 2;
        snprintf(out, PATH_MAX, "%s/%s", d, q);
    }
    return under(out);
}

static int fdpath(int fd, char *out)
{
    if (!S || fd < 0) return 0;
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, out, PATH_MAX - 1);
    if (n < 0) return 0;
    out[n] = 0;
    return under(out);
}

static void logev(const char *op, long ret, const char *p, const char *p2)
{
    if (!logp[0]) return;
    char buf[3 * PATH_MAX];
    int e = errno;
    int n = snprintf(buf, sizeof buf, "%d %s %ld ", getenv("BV_PGID") ? (int)getpgrp() : (int)getpid(), op, ret);
    for (const char *x = p; *x && n < (int)sizeof buf - 10; x++)
        if ((unsigned char)*x < 33 || *x == '%' || *x == 127) n += snprintf(buf + n, 5, "%%%02x", (unsigned char)*x); else buf[n++] = *x;
    if (p2) {
        buf[n++] = '\t';
        for (const char *x = p2; *x && n < (int)sizeof buf - 10; x++)
            if ((unsigned char)*x < 33 || *x == '%' || *x == 127) n += snprintf(buf + n, 5, "%%%02x", (unsigned char)*x); else buf[n++] = *x;
    }
    buf[n++] = '\n';
    int fd = syscall(SYS_openat, AT_FDCWD, logp, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    if (fd >= 0) { long w = syscall(SYS_write, fd, buf, n); (void)w; syscall(SYS_close, fd); }
    errno = e;
}

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; return x ^ x >> 33; }

static void die(void)
{
    __sync_fetch_and_add(&S->hits, 1);
    syscall(SYS_kill, S->kill_self ? (int)getpid() : 0, SIGKILL);
    for (;;) syscall(SYS_pause);
}

/* 0: go on; >0: errno to fail with; -1: this is the kill point (writes tear first) */
static int event(int kind)
{
    if (S->fail_kinds && !(S->fail_kinds & kind)) return 0;
    if (!S->fail_kinds && (kind & QUIET)) return 0;
    __sync_add_and_fetch(&S->kinds[__builtin_ctz(kind)], 1);
    uint64_t n = __sync_add_and_fetch(&S->n, 1);
    if (S->delay_us) {
        uint64_t d = mix(n * 0x9e3779b97f4a7c15ULL + S->delay_seed);
        if (d & 7) d = 0; else d = (d >> 8) % S->delay_us;
        if (d) { struct timespec t = {d / 1000000, (d % 1000000) * 1000}; syscall(SYS_nanosleep, &t, NULL); }
    }
    if (S->stop_at && n == S->stop_at) { S->stop_pid = getpid(); __sync_fetch_and_add(&S->hits, 1); syscall(SYS_kill, (int)getpid(), SIGSTOP); }
    if (S->kill_at && n == S->kill_at) {
        if (kind == K_WRITE && S->torn) return -1;
        die();
    }
    if (S->fail_at && (n == S->fail_at || (S->fail_more && S->hits && S->fail_kind == (uint64_t)kind))) {
        if (n == S->fail_at) S->fail_kind = kind;
        __sync_fetch_and_add(&S->hits, 1);
        return S->fail_errno;
    }
    return 0;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name); if (!inited) init()
#define CHK(kind) do { int e_ = event(kind); if (e_ > 0) { logev("fail", -e_, p, NULL); errno = e_; return -1; } } while (0)

static int wr_flags(int f) { return (f & O_ACCMODE) != O_RDONLY || (f & (O_CREAT | O_TRUNC)); }

#define OPEN_BODY(dfd, call) \
    char p[PATH_MAX]; int w = abspath(dfd, path, p), ch = wr_flags(flags); \
    if (w && !(flags & O_DIRECTORY)) CHK(ch ? K_OPEN : K_OPENR); \
    int r = call; \
    if (w) logev(ch ? (flags & O_TRUNC ? "trunc" : "open") : "openr", r < 0 ? -errno : r, p, NULL); \
    return r;
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }

int open(const char *path, int flags, ...) { MODE REAL(int, open, const char *, int, ...); OPEN_BODY(AT_FDCWD, real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { MODE REAL(int, open64, const char *, int, ...); OPEN_BODY(AT_FDCWD, real(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { MODE REAL(int, openat, int, const char *, int, ...); OPEN_BODY(d, real(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { MODE REAL(int, openat64, int, const char *, int, ...); OPEN_BODY(d, real(d, path, flags, mode)) }
int __open_2(const char *path, int flags) { REAL(int, __open_2, const char *, int); OPEN_BODY(AT_FDCWD, real(path, flags)) }
int __open64_2(const char *path, int flags) { REAL(int, __open64_2, const char *, int); OPEN_BODY(AT_FDCWD, real(path, flags)) }
int __openat_2(int d, const char *path, int flags) { REAL(int, __openat_2, int, const char *, int); OPEN_BODY(d, real(d, path, flags)) }
int __openat64_2(int d, const char *path, int flags) { REAL(int, __openat64_2, int, const char *, int); OPEN_BODY(d, real(d, path, flags)) }
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static FILE *do_fopen(FILE *(*real)(const char *, const char *), const char *path, const char *m)
{
    char p[PATH_MAX]; int w = abspath(AT_FDCWD, path, p), ch = strpbrk(m, "wa+") != NULL;
    if (w) { int e = event(ch ? K_OPEN : K_OPENR); if (e > 0) { logev("fail", -e, p, NULL); errno = e; return NULL; } }
    FILE *r = real(path, m);
    if (w) logev(ch ? (*m == 'w' ? "trunc" : "open") : "openr", r ? 0 : -errno, p, NULL);
    return r;
}
FILE *fopen(const char *path, const char *m) { REAL(FILE *, fopen, const char *, const char *); return do_fopen(real, path, m); }
FILE *fopen64(const char *path, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(real, path, m); }

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t);
    char p[PATH_MAX];
    if (!S || !fdpath(fd, p)) return real(fd, b, n);
    int e = event(K_WRITE);
    if (e > 0) { logev("fail", -e, p, NULL); errno = e; return -1; }
    if (e < 0) { if (n > 1) real(fd, b, n / 2); die(); }
    size_t m = n;
    if (S->short_write && n > 1) { uint64_t x = mix(S->n + S->short_write); if (!(x & 3)) m = 1 + (x >> 8) % (n - 1); }
    ssize_t r = real(fd, b, m);
    logev("write", r, p, NULL);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    char p[PATH_MAX];
    if (!S || !fdpath(fd, p)) return real(fd, b, n, o);
    int e = event(K_WRITE);
    if (e > 0) { logev("fail", -e, p, NULL); errno = e; return -1; }
    if (e < 0) { if (n > 1) real(fd, b, n / 2, o); die(); }
    ssize_t r = real(fd, b, n, o);
    logev("write", r, p, NULL);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    char p[PATH_MAX];
    if (!S || !fdpath(fd, p)) return real(fd, v, c);
    int e = event(K_WRITE);
    if (e > 0) { logev("fail", -e, p, NULL); errno = e; return -1; }
    if (e < 0) die();
    ssize_t r = real(fd, v, c);
    logev("write", r, p, NULL);
    return r;
}
ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, read, int, void *, size_t);
    char p[PATH_MAX];
    if (!S || !(S->fail_kinds & K_READ) || !fdpath(fd, p)) return real(fd, b, n);
    CHK(K_READ);
    return real(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
    REAL(ssize_t, pread64, int, void *, size_t, off64_t);
    char p[PATH_MAX];
    if (!S || !(S->fail_kinds & K_READ) || !fdpath(fd, p)) return real(fd, b, n, o);
    CHK(K_READ);
    return real(fd, b, n, o);
}

static int p2op(const char *op, int kind, int d1, const char *a, int d2, const char *b, char *p, char *q)
{
    int w = abspath(d1, a, p), w2 = abspath(d2, b, q);
    (void)op;
    if (!(w || w2)) return -1;
    return event(kind);
}
#define TWO(op, kind, d1, a, d2, b, call) \
    char p[PATH_MAX] = "", q[PATH_MAX] = ""; int e = p2op(op, kind, d1, a, d2, b, p, q); \
    int w = S && (under(p) || under(q)); \
    if (w && e > 0) { logev("fail", -e, p, q); errno = e; return -1; } \
    int r = call; if (w) logev(op, r < 0 ? -errno : r, p, q); return r;
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); TWO("rename", K_RENAME, AT_FDCWD, a, AT_FDCWD, b, real(a, b)) }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(int, renameat, int, const char *, int, const char *); TWO("rename", K_RENAME, d1, a, d2, b, real(d1, a, d2, b)) }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); TWO("rename", K_RENAME, d1, a, d2, b, real(d1, a, d2, b, f)) }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); TWO("link", K_LINK, AT_FDCWD, a, AT_FDCWD, b, real(a, b)) }
int linkat(int d1, const char *a, int d2, const char *b, int f) { REAL(int, linkat, int, const char *, int, const char *, int); TWO("link", K_LINK, d1, a, d2, b, real(d1, a, d2, b, f)) }

#define ONE(op, kind, d, a, call) \
    char p[PATH_MAX]; int w = abspath(d, a, p); \
    if (w) CHK(kind); \
    int r = call; if (w) logev(op, r < 0 ? -errno : r, p, NULL); return r;
int unlink(const char *a) { REAL(int, unlink, const char *); ONE("unlink", K_UNLINK, AT_FDCWD, a, real(a)) }
int unlinkat(int d, const char *a, int f) { REAL(int, unlinkat, int, const char *, int); ONE("unlink", K_UNLINK, d, a, real(d, a, f)) }
int rmdir(const char *a) { REAL(int, rmdir, const char *); ONE("rmdir", K_UNLINK, AT_FDCWD, a, real(a)) }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char *, mode_t); ONE("mkdir", K_MKDIR, AT_FDCWD, a, real(a, m)) }
int mkdirat(int d, const char *a, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); ONE("mkdir", K_MKDIR, d, a, real(d, a, m)) }
int symlink(const char *t, const char *a) { REAL(int, symlink, const char *, const char *); ONE("symlink", K_LINK, AT_FDCWD, a, real(t, a)) }
int symlinkat(const char *t, int d, const char *a) { REAL(int, symlinkat, const char *, int, const char *); ONE("symlink", K_LINK, d, a, real(t, d, a)) }
int mknod(const char *a, mode_t m, dev_t v) { REAL(int, mknod, const char *, mode_t, dev_t); ONE("mknod", K_LINK, AT_FDCWD, a, real(a, m, v)) }
int chmod(const char *a, mode_t m) { REAL(int, chmod, const char *, mode_t); ONE("chmod", K_META, AT_FDCWD, a, real(a, m)) }
int fchmodat(int d, const char *a, mode_t m, int f) { REAL(int, fchmodat, int, const char *, mode_t, int); ONE("chmod", K_META, d, a, real(d, a, m, f)) }
int chown(const char *a, uid_t u, gid_t g) { REAL(int, chown, const char *, uid_t, gid_t); ONE("chown", K_META, AT_FDCWD, a, real(a, u, g)) }
int lchown(const char *a, uid_t u, gid_t g) { REAL(int, lchown, const char *, uid_t, gid_t); ONE("chown", K_META, AT_FDCWD, a, real(a, u, g)) }
int utimensat(int d, const char *a, const struct timespec *t, int f) { REAL(int, utimensat, int, const char *, const struct timespec *, int); ONE("utime", K_META, d, a, real(d, a, t, f)) }
int setxattr(const char *a, const char *n, const void *v, size_t z, int f) { REAL(int, setxattr, const char *, const char *, const void *, size_t, int); ONE("setxattr", K_META, AT_FDCWD, a, real(a, n, v, z, f)) }
int lsetxattr(const char *a, const char *n, const void *v, size_t z, int f) { REAL(int, lsetxattr, const char *, const char *, const void *, size_t, int); ONE("setxattr", K_META, AT_FDCWD, a, real(a, n, v, z, f)) }
/* not logged, and events only when asked for */
#define RD(kind, d, a, call) \
    char p[PATH_MAX]; \
    if (S && (S->fail_kinds & (kind)) && abspath(d, a, p)) CHK(kind); \
    return call;
int stat(const char *a, struct stat *b) { REAL(int, stat, const char *, struct stat *); RD(K_STAT, AT_FDCWD, a, real(a, b)) }
int stat64(const char *a, struct stat64 *b) { REAL(int, stat64, const char *, struct stat64 *); RD(K_STAT, AT_FDCWD, a, real(a, b)) }
int lstat(const char *a, struct stat *b) { REAL(int, lstat, const char *, struct stat *); RD(K_STAT, AT_FDCWD, a, real(a, b)) }
int lstat64(const char *a, struct stat64 *b) { REAL(int, lstat64, const char *, struct stat64 *); RD(K_STAT, AT_FDCWD, a, real(a, b)) }
int fstatat(int d, const char *a, struct stat *b, int f) { REAL(int, fstatat, int, const char *, struct stat *, int); RD(K_STAT, d, a, real(d, a, b, f)) }
int fstatat64(int d, const char *a, struct stat64 *b, int f) { REAL(int, fstatat64, int, const char *, struct stat64 *, int); RD(K_STAT, d, a, real(d, a, b, f)) }
#define FSTAT(real_call) \
    char p[PATH_MAX]; \
    if (S && (S->fail_kinds & K_FSTAT) && fdpath(fd, p)) CHK(K_FSTAT); \
    return real_call;
int fstat(int fd, struct stat *b) { REAL(int, fstat, int, struct stat *); FSTAT(real(fd, b)) }
int fstat64(int fd, struct stat64 *b) { REAL(int, fstat64, int, struct stat64 *); FSTAT(real(fd, b)) }
ssize_t readlink(const char *a, char *b, size_t n) { REAL(ssize_t, readlink, const char *, char *, size_t); RD(K_READLINK, AT_FDCWD, a, real(a, b, n)) }
ssize_t readlinkat(int d, const char *a, char *b, size_t n) { REAL(ssize_t, readlinkat, int, const char *, char *, size_t); RD(K_READLINK, d, a, real(d, a, b, n)) }
static int dir_fail(int fd, const char *path)
{
    char p[PATH_MAX];
    if (!S || !(S->fail_kinds & K_DIR)) return 0;
    if (path ? !abspath(AT_FDCWD, path, p) : !fdpath(fd, p)) return 0;
    int e = event(K_DIR);
    if (e > 0) { logev("fail", -e, p, NULL); return e; }
    return 0;
}
DIR *opendir(const char *a) { REAL(DIR *, opendir, const char *); int e = dir_fail(-1, a); if (e) { errno = e; return NULL; } return real(a); }
DIR *fdopendir(int fd) { REAL(DIR *, fdopendir, int); int e = dir_fail(fd, NULL); if (e) { errno = e; return NULL; } return real(fd); }
struct dirent *readdir(DIR *d) { REAL(struct dirent *, readdir, DIR *); int e = dir_fail(dirfd(d), NULL); if (e) { errno = e; return NULL; } return real(d); }
struct dirent64 *readdir64(DIR *d) { REAL(struct dirent64 *, readdir64, DIR *); int e = dir_fail(dirfd(d), NULL); if (e) { errno = e; return NULL; } return real(d); }
int truncate(const char *a, off_t n) { REAL(int, truncate, const char *, off_t); ONE("truncate", K_TRUNC, AT_FDCWD, a, real(a, n)) }
int truncate64(const char *a, off64_t n) { REAL(int, truncate64, const char *, off64_t); ONE("truncate", K_TRUNC, AT_FDCWD, a, real(a, n)) }

#define FD(op, kind, call) \
    char p[PATH_MAX]; int w = S && fdpath(fd, p); \
    if (w) CHK(kind); \
    int r = call; if (w) logev(op, r < 0 ? -errno : r, p, NULL); return r;
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); FD("ftruncate", K_TRUNC, real(fd, n)) }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); FD("ftruncate", K_TRUNC, real(fd, n)) }
int fsync(int fd) { REAL(int, fsync, int); FD("fsync", K_FSYNC, real(fd)) }
int fdatasync(int fd) { REAL(int, fdatasync, int); FD("fsync", K_FSYNC, real(fd)) }
int close(int fd)
{
    REAL(int, close, int);
    char p[PATH_MAX];
    if (!S || !(S->fail_kinds & K_CLOSE) || !fdpath(fd, p)) return real(fd);
    int fl = fcntl(fd, F_GETFL);
    if (fl < 0 || (fl & O_ACCMODE) == O_RDONLY) return real(fd);
    int e = event(K_CLOSE);
    int r = real(fd);
    if (e > 0) { logev("fail", -e, p, NULL); errno = e; return -1; }
    return r;
}

static void *do_mmap(void *r, int prot, int flags, int fd)
{
    char p[PATH_MAX];
    if (S && fd >= 0 && (prot & PROT_WRITE) && (flags & MAP_SHARED) && fdpath(fd, p))
        logev("mmapw", r == MAP_FAILED ? -errno : 0, p, NULL);
    return r;
}
static int mm_event(int prot, int flags, int fd)
{
    char p[PATH_MAX];
    if (S && fd >= 0 && (prot & PROT_WRITE) && (flags & MAP_SHARED) && fdpath(fd, p)) return event(K_MMAP);
    return 0;
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o)
{
    REAL(void *, mmap, void *, size_t, int, int, int, off_t);
    int e = mm_event(prot, flags, fd);
    if (e > 0) { char p[PATH_MAX]; if (fdpath(fd, p)) logev("fail", -e, p, NULL); errno = e; return MAP_FAILED; }
    return do_mmap(real(a, n, prot, flags, fd, o), prot, flags, fd);
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t o)
{
    REAL(void *, mmap64, void *, size_t, int, int, int, off64_t);
    int e = mm_event(prot, flags, fd);
    if (e > 0) { char p[PATH_MAX]; if (fdpath(fd, p)) logev("fail", -e, p, NULL); errno = e; return MAP_FAILED; }
    return do_mmap(real(a, n, prot, flags, fd, o), prot, flags, fd);
}
int msync(void *a, size_t n, int f)
{
    REAL(int, msync, void *, size_t, int);
    char p[PATH_MAX] = "";
    if (S) {
        /* which file? look the address up */
        int fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/maps", O_RDONLY | O_CLOEXEC, 0);
        FILE *m = fd >= 0 ? fdopen(fd, "r") : NULL;
        char l[PATH_MAX + 200];
        while (m && fgets(l, sizeof l, m)) {
            unsigned long lo, hi; int pos = 0;
            if (sscanf(l, "%lx-%lx %*s %*s %*s %*s %n", &lo, &hi, &pos) >= 2 && (unsigned long)a >= lo && (unsigned long)a < hi) {
                l[strcspn(l, "\n")] = 0;
                if (pos && under(l + pos)) snprintf(p, sizeof p, "%s", l + pos);
                break;
            }
        }
        if (m) fclose(m);
    }
    if (p[0]) CHK(K_FSYNC);
    int r = real(a, n, f);
    if (p[0]) logev("msync", r, p, NULL);
    return r;
}
