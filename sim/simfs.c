/* simfs: an LD_PRELOAD storage seam for deterministic simulation.
 *
 * Every file-system call on a path below the scratch prefix becomes one
 * numbered simulated operation.  A job runs in one of two modes:
 *   mode 1 (local): a fault plan in shared memory says what happens at the
 *           n-th operation (error, short transfer, full disk, torn write,
 *           death before or after the operation);
 *   mode 2 (remote): the job blocks on every operation until the simulator
 *           grants it and says what happens.
 * Calls on other paths, and all calls in mode 0, pass straight through.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXPLAN 64
#define LOGCAP (1 << 20)
#define MAXFD 4096
#define CRASH_CODE 77

enum { OP_OPEN_R = 1, OP_OPEN_W, OP_READ, OP_WRITE, OP_TRUNC, OP_FSYNC, OP_CLOSE_W,
       OP_RENAME, OP_UNLINK, OP_MKDIR, OP_LISTDIR, OP_MMAP, OP_STAT };
static const char *OPN[] = {"?", "open_r", "open_w", "read", "write", "trunc", "fsync", "close_w",
                            "rename", "unlink", "mkdir", "listdir", "mmap", "stat"};
enum { A_OK = 0, A_ERR, A_SHORT, A_FULL, A_CRASH_BEFORE, A_TORN, A_CRASH_AFTER, A_STICKY };

struct plan { uint32_t at, action; int32_t err; uint32_t arg; };
struct region {
    int32_t mode, req_fd, resp_fd;
    uint32_t nops;          /* operations so far */
    uint32_t nplan;
    uint32_t full;          /* disk is full: writes fail with ENOSPC */
    uint32_t sticky;        /* every following read fails with EIO */
    uint32_t nfired;
    uint32_t listseed;
    uint32_t loglen;
    uint32_t logdrop;
    uint32_t count[16];     /* per op kind */
    uint32_t firedat[MAXPLAN];
    uint32_t inputopenw;
    struct plan plan[MAXPLAN];
    char log[LOGCAP];
};
struct req { int32_t op, pad; int64_t off, len; char path[240]; char path2[240]; };
struct resp { int32_t action, err, arg, pad; };

static struct region *R;
static char prefix[512];
static size_t plen;
static char *fdpath[MAXFD];
static unsigned char fdw[MAXFD];

size_t simfs_region_size(void) { return sizeof(struct region); }
void simfs_attach(void *p) { R = (struct region *)p; }
void simfs_prefix(const char *p) { strncpy(prefix, p, sizeof(prefix) - 1); plen = strlen(prefix); }
int simfs_present(void) { return 1; }

#define REAL(name) ((__typeof__(&name))real(#name))
static void *real(const char *n) {
    /* tiny cache keyed by the literal's address */
    static const char *k[128]; static void *v[128]; static int c;
    for (int i = 0; i < c; i++) if (k[i] == n) return v[i];
    void *p = dlsym(RTLD_NEXT, n);
    if (!p) { const char m[] = "simfs: missing symbol\n"; syscall(SYS_write, 2, m, sizeof(m) - 1); _exit(99); }
    if (c < 128) { k[c] = n; v[c] = p; __sync_synchronize(); c++; }
    return p;
}

static int under(const char *path, char *out) {
    if (!R || !R->mode || !plen || !path) return 0;
    if (path[0] == '/') {
        if (strncmp(path, prefix, plen)) return 0;
        strncpy(out, path, 767); out[767] = 0; return 1;
    }
    char cwd[512];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    if (strncmp(cwd, prefix, plen - 1)) return 0;
    snprintf(out, 768, "%s/%s", cwd, path);
    return strncmp(out, prefix, plen) == 0;
}
static const char *rel(const char *p) { return strncmp(p, prefix, plen) ? p : p + plen; }

static void logop(uint32_t n, int op, const char *p, const char *p2, int64_t off, int64_t len, int act) {
    char b[900];
    int k = snprintf(b, sizeof b, "%u %s %s%s%s %lld %lld%s%d\n", n, OPN[op], rel(p), p2 ? ">" : "", p2 ? rel(p2) : "",
                     (long long)off, (long long)len, act ? " !" : " ", act);
    if (R->loglen + k < LOGCAP) { memcpy(R->log + R->loglen, b, k); R->loglen += k; }
    else R->logdrop++;
}

/* Decide what happens at this operation. Dies here for crash-before. */
static struct resp verdict(int op, const char *p, const char *p2, int64_t off, int64_t len) {
    struct resp v = {0, 0, 0, 0};
    R->count[op]++;
    if (R->mode == 2) {
        struct req q; memset(&q, 0, sizeof q);
        q.op = op; q.off = off; q.len = len;
        strncpy(q.path, rel(p), sizeof(q.path) - 1);
        if (p2) strncpy(q.path2, rel(p2), sizeof(q.path2) - 1);
        if (syscall(SYS_write, R->req_fd, &q, sizeof q) != sizeof q) _exit(98);
        size_t got = 0;
        while (got < sizeof v) {
            ssize_t r = syscall(SYS_read, R->resp_fd, (char *)&v + got, sizeof v - got);
            if (r <= 0) { if (r < 0 && errno == EINTR) continue; _exit(98); }
            got += r;
        }
        R->nops++;
    } else {
        if (op == OP_STAT) return v;     /* only a scheduling point */
        uint32_t n = R->nops++;
        for (uint32_t i = 0; i < R->nplan; i++)
            if (R->plan[i].at == n) {
                v.action = R->plan[i].action; v.err = R->plan[i].err; v.arg = R->plan[i].arg;
            }
        int rd = (op == OP_READ || op == OP_OPEN_R || op == OP_MMAP || op == OP_LISTDIR);
        int wr = (op == OP_WRITE || op == OP_TRUNC);
        /* faults that make no sense for the operation do nothing */
        if (v.action == A_FULL) { R->full = 1; }
        if (v.action == A_STICKY) { R->sticky = 1; v.action = A_OK; }
        if (v.action == A_SHORT && op != OP_READ && op != OP_WRITE) v.action = A_OK;
        if (v.action == A_TORN && op != OP_WRITE) v.action = A_CRASH_BEFORE;
        if (v.action != A_FULL && R->full && wr) { v.action = A_ERR; v.err = ENOSPC; }
        if (v.action == A_OK && R->full && op == OP_MKDIR) { v.action = A_ERR; v.err = ENOSPC; }
        if (v.action == A_OK && R->sticky && rd) { v.action = A_ERR; v.err = EIO; }
        if (v.action == A_FULL && !wr) v.action = A_OK;
        if (v.action) { if (R->nfired < MAXPLAN) R->firedat[R->nfired] = n; R->nfired++; }
        logop(n, op, p, p2, off, len, v.action);
    }
    if (v.action == A_CRASH_BEFORE) _exit(CRASH_CODE);
    return v;
}
#define AFTER(v) do { if ((v).action == A_CRASH_AFTER) _exit(CRASH_CODE); } while (0)

static void track(int fd, const char *p, int w) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]); fdpath[fd] = p ? strdup(p) : NULL; fdw[fd] = w;
}
static const char *tracked(int fd) {
    return (R && R->mode && fd >= 0 && fd < MAXFD) ? fdpath[fd] : NULL;
}

/* ---- open ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char full[768];
    int (*ro)(int, const char *, int, ...) = (int (*)(int, const char *, int, ...))real("openat");
    if (!under(path, full) || (dirfd != AT_FDCWD && path[0] != '/')) {
        int fd = ro(dirfd, path, flags, mode);
        if (fd >= 0 && fd < MAXFD && fdpath[fd]) track(fd, NULL, 0);
        return fd;
    }
    int w = (flags & O_ACCMODE) != O_RDONLY;
    struct resp v = verdict((flags & O_DIRECTORY) ? OP_LISTDIR : w ? OP_OPEN_W : OP_OPEN_R, full, NULL, flags, 0);
    if (v.action == A_ERR) { errno = v.err; return -1; }
    if (R->full && (flags & O_CREAT)) {
        struct stat st;
        if (syscall(SYS_newfstatat, AT_FDCWD, full, &st, 0) != 0) { errno = ENOSPC; return -1; }
    }
    int fd = ro(dirfd, path, flags, mode);
    int e = errno;
    if (fd >= 0) track(fd, full, w);
    AFTER(v);
    errno = e;
    return fd;
}
#define MODEARG(flags) mode_t mode = 0; if (((flags) & O_CREAT) || ((flags) & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODEARG(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODEARG(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODEARG(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODEARG(flags) return do_open(d, p, flags, mode); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    const char *p = tracked(fd);
    if (!p) { if (fd >= 0 && fd < MAXFD && fdpath[fd]) track(fd, NULL, 0); return REAL(close)(fd); }
    struct resp v = {0, 0, 0, 0};
    if (fdw[fd]) v = verdict(OP_CLOSE_W, p, NULL, 0, 0);
    track(fd, NULL, 0);
    int r = REAL(close)(fd), e = errno;
    AFTER(v);
    if (v.action == A_ERR) { errno = v.err; return -1; }
    errno = e;
    return r;
}
int dup(int fd) { int n = REAL(dup)(fd); if (n >= 0) track(n, fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL, fd >= 0 && fd < MAXFD ? fdw[fd] : 0); return n; }
int dup2(int fd, int to) { int n = REAL(dup2)(fd, to); if (n >= 0 && n != fd) track(n, fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL, fd >= 0 && fd < MAXFD ? fdw[fd] : 0); return n; }
int dup3(int fd, int to, int f) { int n = REAL(dup3)(fd, to, f); if (n >= 0) track(n, fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL, fd >= 0 && fd < MAXFD ? fdw[fd] : 0); return n; }
static int do_fcntl(int fd, int cmd, void *arg) {
    int (*rf)(int, int, ...) = (int (*)(int, int, ...))real("fcntl64");
    int n = rf(fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && n >= 0)
        track(n, fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL, fd >= 0 && fd < MAXFD ? fdw[fd] : 0);
    return n;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ---- data ---- */
static ssize_t raw_write(int fd, const void *b, size_t n, off_t off, int at) {
    return at ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
}
/* HDF5's LZF filter keeps a 1 MB hash table on the stack and reads it uninitialised: what it emits depends on what
 * earlier calls left there.  Wiped at the start of a job and after each write, so that a run depends on its seed only. */
__attribute__((noinline)) void simfs_wipe_stack(void) {
    volatile char *b = __builtin_alloca(1200 * 1024);
    memset((char *)b, 0, 1200 * 1024);
    __asm__ volatile("" : : "r"(b) : "memory");
}
static ssize_t do_write(int fd, const char *p, const void *b, size_t n, off_t off, int at) {
    off_t pos = at ? off : syscall(SYS_lseek, fd, 0, SEEK_CUR);
    struct resp v = verdict(OP_WRITE, p, NULL, pos, n);
    if (v.action == A_ERR) { errno = v.err; return -1; }
    if (v.action == A_TORN) {
        size_t k = n * (size_t)(v.arg & 255) / 256;
        if (k) raw_write(fd, b, k, off, at);
        _exit(CRASH_CODE);
    }
    if ((v.action == A_SHORT || v.action == A_FULL) && n > 1) n = n / 2;
    else if (v.action == A_FULL) { errno = ENOSPC; return -1; }
    ssize_t r = raw_write(fd, b, n, off, at); int e = errno;
    if (n < 65536) simfs_wipe_stack();
    AFTER(v);
    errno = e;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    const char *p = tracked(fd);
    return p ? do_write(fd, p, b, n, 0, 0) : REAL(write)(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    const char *p = tracked(fd);
    return p ? do_write(fd, p, b, n, o, 1) : REAL(pwrite)(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    const char *p = tracked(fd);
    return p ? do_write(fd, p, b, n, o, 1) : REAL(pwrite64)(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    const char *p = tracked(fd);
    if (!p) return REAL(writev)(fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, p, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
static ssize_t do_read(int fd, const char *p, void *b, size_t n, off_t off, int at) {
    off_t pos = at ? off : syscall(SYS_lseek, fd, 0, SEEK_CUR);
    struct resp v = verdict(OP_READ, p, NULL, pos, n);
    if (v.action == A_ERR) { errno = v.err; return -1; }
    if (v.action == A_SHORT && n > 1) n = n / 2;
    ssize_t r = at ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n); int e = errno;
    AFTER(v);
    errno = e;
    return r;
}
ssize_t read(int fd, void *b, size_t n) {
    const char *p = tracked(fd);
    return p ? do_read(fd, p, b, n, 0, 0) : REAL(read)(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    const char *p = tracked(fd);
    return p ? do_read(fd, p, b, n, o, 1) : REAL(pread)(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    const char *p = tracked(fd);
    return p ? do_read(fd, p, b, n, o, 1) : REAL(pread64)(fd, b, n, o);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    const char *pi = tracked(in), *po = tracked(out);
    if (pi) { struct resp v = verdict(OP_READ, pi, NULL, 0, n); if (v.action == A_ERR) { errno = v.err; return -1; } AFTER(v); }
    if (po) { struct resp v = verdict(OP_WRITE, po, NULL, 0, n); if (v.action == A_ERR || v.action == A_FULL) { errno = v.action == A_FULL ? ENOSPC : v.err; return -1; } if (v.action == A_TORN) _exit(CRASH_CODE); AFTER(v); }
    return syscall(SYS_sendfile, out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return sendfile(out, in, (off_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
    const char *pi = tracked(in), *po = tracked(out);
    if (pi) { struct resp v = verdict(OP_READ, pi, NULL, 0, n); if (v.action == A_ERR) { errno = v.err; return -1; } AFTER(v); }
    if (po) { struct resp v = verdict(OP_WRITE, po, NULL, 0, n); if (v.action == A_ERR || v.action == A_FULL) { errno = v.action == A_FULL ? ENOSPC : v.err; return -1; } if (v.action == A_TORN) _exit(CRASH_CODE); AFTER(v); }
    return syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
}
/* stdio (numpy tofile/fromfile use a dup'd FILE*) */
FILE *fdopen(int fd, const char *m) {
    FILE *f = REAL(fdopen)(fd, m);
    if (f && tracked(fd)) setvbuf(f, NULL, _IONBF, 0);
    return f;
}
static FILE *do_fopen(const char *p, const char *m) {
    char full[768];
    FILE *(*rf)(const char *, const char *) = (FILE * (*)(const char *, const char *)) real("fopen64");
    if (!under(p, full)) return rf(p, m);
    int w = strpbrk(m, "wa+") != NULL;
    struct resp v = verdict(w ? OP_OPEN_W : OP_OPEN_R, full, NULL, 0, 0);
    if (v.action == A_ERR) { errno = v.err; return NULL; }
    FILE *f = rf(p, m);
    if (f) { track(fileno(f), full, w); setvbuf(f, NULL, _IONBF, 0); }
    AFTER(v);
    return f;
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m); }
int fclose(FILE *f) { int fd = f ? fileno(f) : -1; if (fd >= 0 && fd < MAXFD && fdpath[fd]) track(fd, NULL, 0); return REAL(fclose)(f); }
size_t fwrite(const void *b, size_t s, size_t c, FILE *f) {
    const char *p = (R && R->mode && f) ? tracked(fileno(f)) : NULL;
    if (!p || !s || !c) return REAL(fwrite)(b, s, c, f);
    struct resp v = verdict(OP_WRITE, p, NULL, (int64_t)ftello(f), (int64_t)(s * c));
    if (v.action == A_ERR) { errno = v.err; return 0; }
    if (v.action == A_TORN) { size_t k = s * c * (v.arg & 255) / 256; if (k) REAL(fwrite)(b, 1, k, f); _exit(CRASH_CODE); }
    if (v.action == A_FULL) { REAL(fwrite)(b, s, c / 2, f); errno = ENOSPC; return c / 2; }
    size_t r = REAL(fwrite)(b, s, c, f); int e = errno;
    AFTER(v);
    errno = e;
    return r;
}
size_t fread(void *b, size_t s, size_t c, FILE *f) {
    const char *p = (R && R->mode && f) ? tracked(fileno(f)) : NULL;
    if (!p || !s || !c) return REAL(fread)(b, s, c, f);
    struct resp v = verdict(OP_READ, p, NULL, (int64_t)ftello(f), (int64_t)(s * c));
    if (v.action == A_ERR) { errno = v.err; return 0; }
    size_t r = REAL(fread)(b, s, c, f); int e = errno;
    AFTER(v);
    errno = e;
    return r;
}
static int do_trunc(int fd, const char *p, off_t n) {
    struct resp v = verdict(OP_TRUNC, p, NULL, n, 0);
    if (v.action == A_ERR) { errno = v.err; return -1; }
    if (v.action == A_FULL) { errno = ENOSPC; return -1; }
    int r = fd >= 0 ? syscall(SYS_ftruncate, fd, n) : syscall(SYS_truncate, p, n); int e = errno;
    AFTER(v);
    errno = e;
    return r;
}
int ftruncate(int fd, off_t n) { const char *p = tracked(fd); return p ? do_trunc(fd, p, n) : REAL(ftruncate)(fd, n); }
int ftruncate64(int fd, off64_t n) { const char *p = tracked(fd); return p ? do_trunc(fd, p, n) : REAL(ftruncate64)(fd, n); }
int truncate(const char *p, off_t n) { char f[768]; return under(p, f) ? do_trunc(-1, f, n) : REAL(truncate)(p, n); }
int truncate64(const char *p, off64_t n) { char f[768]; return under(p, f) ? do_trunc(-1, f, n) : REAL(truncate64)(p, n); }
#define SYNCLIKE(name) int name(int fd) { const char *p = tracked(fd); if (!p) return REAL(name)(fd); \
    struct resp v = verdict(OP_FSYNC, p, NULL, 0, 0); if (v.action == A_ERR) { errno = v.err; return -1; } AFTER(v); return 0; }
SYNCLIKE(fsync)
SYNCLIKE(fdatasync)
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) {
    const char *p = (flags & MAP_ANONYMOUS) ? NULL : tracked(fd);
    if (p) { struct resp v = verdict(OP_MMAP, p, NULL, o, n); if (v.action == A_ERR) { errno = ENOMEM; return MAP_FAILED; } AFTER(v); }
    return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, o);
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t o) { return mmap(a, n, prot, flags, fd, o); }

/* ---- names ---- */
#define NAMEOP2(decl, call, opc, A, B) decl { char fa[768], fb[768]; int ua = under(A, fa), ub = under(B, fb); \
    if (!ua && !ub) return call; struct resp v = verdict(opc, ua ? fa : A, ub ? fb : B, 0, 0); \
    if (v.action == A_ERR) { errno = v.err; return -1; } int r = call; int e = errno; AFTER(v); errno = e; return r; }
#define NAMEOP1(decl, call, opc, A) decl { char fa[768]; \
    if (!under(A, fa)) return call; struct resp v = verdict(opc, fa, NULL, 0, 0); \
    if (v.action == A_ERR) { errno = v.err; return -1; } int r = call; int e = errno; AFTER(v); errno = e; return r; }
NAMEOP2(int rename(const char *a, const char *b), REAL(rename)(a, b), OP_RENAME, a, b)
NAMEOP2(int renameat(int x, const char *a, int y, const char *b), REAL(renameat)(x, a, y, b), OP_RENAME, a, b)
NAMEOP2(int renameat2(int x, const char *a, int y, const char *b, unsigned f), REAL(renameat2)(x, a, y, b, f), OP_RENAME, a, b)
NAMEOP2(int link(const char *a, const char *b), REAL(link)(a, b), OP_RENAME, a, b)
NAMEOP2(int symlink(const char *a, const char *b), REAL(symlink)(a, b), OP_RENAME, a, b)
NAMEOP1(int unlink(const char *a), REAL(unlink)(a), OP_UNLINK, a)
NAMEOP1(int unlinkat(int d, const char *a, int f), REAL(unlinkat)(d, a, f), OP_UNLINK, a)
NAMEOP1(int remove(const char *a), REAL(remove)(a), OP_UNLINK, a)
NAMEOP1(int rmdir(const char *a), REAL(rmdir)(a), OP_UNLINK, a)
NAMEOP1(int mkdir(const char *a, mode_t m), REAL(mkdir)(a, m), OP_MKDIR, a)
NAMEOP1(int mkdirat(int d, const char *a, mode_t m), REAL(mkdirat)(d, a, m), OP_MKDIR, a)
#define STATOP(decl, call, A) decl { char fa[768]; if (under(A, fa)) { struct resp v = verdict(OP_STAT, fa, NULL, 0, 0); \
    if (v.action == A_ERR) { errno = v.err; return -1; } int r = call; int e = errno; AFTER(v); errno = e; return r; } return call; }
STATOP(int stat(const char *a, struct stat *s), REAL(stat)(a, s), a)
STATOP(int stat64(const char *a, struct stat64 *s), REAL(stat64)(a, s), a)
STATOP(int lstat(const char *a, struct stat *s), REAL(lstat)(a, s), a)
STATOP(int lstat64(const char *a, struct stat64 *s), REAL(lstat64)(a, s), a)
STATOP(int fstatat(int d, const char *a, struct stat *s, int f), REAL(fstatat)(d, a, s, f), a)
STATOP(int fstatat64(int d, const char *a, struct stat64 *s, int f), REAL(fstatat64)(d, a, s, f), a)
STATOP(int access(const char *a, int m), REAL(access)(a, m), a)
STATOP(int faccessat(int d, const char *a, int m, int f), REAL(faccessat)(d, a, m, f), a)

/* ---- directory listing in a seeded order ---- */
struct dcache { DIR *d; int n, i; struct dirent64 *e; };
static struct dcache DC[64];
static int cmpd(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
static void fill(struct dcache *c, DIR *d, const char *p) {
    struct dirent64 *(*rr)(DIR *) = (struct dirent64 * (*)(DIR *)) real("readdir64");
    int cap = 0; c->d = d; c->n = c->i = 0; c->e = NULL;
    for (struct dirent64 *x; (x = rr(d));) {
        if (c->n == cap) { cap = cap ? 2 * cap : 32; c->e = realloc(c->e, cap * sizeof(*c->e)); }
        memcpy(&c->e[c->n], x, x->d_reclen < sizeof(*x) ? x->d_reclen : sizeof(*x)); c->n++;
    }
    if (c->n) qsort(c->e, c->n, sizeof(*c->e), cmpd);
    if (R->listseed) {
        uint64_t s = R->listseed * 0x9E3779B97F4A7C15ull;
        for (const char *q = rel(p); *q; q++) s = (s ^ (unsigned char)*q) * 0x100000001B3ull;
        for (int i = c->n - 1; i > 0; i--) {
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            int j = s % (i + 1);
            struct dirent64 t = c->e[i]; c->e[i] = c->e[j]; c->e[j] = t;
        }
    }
}
static DIR *after_open(DIR *d, const char *p) {
    if (d) for (int i = 0; i < 64; i++) if (!DC[i].d) { fill(&DC[i], d, p); break; }
    return d;
}
DIR *opendir(const char *p) {
    char f[768];
    if (!under(p, f)) return REAL(opendir)(p);
    struct resp v = verdict(OP_LISTDIR, f, NULL, 0, 0);
    if (v.action == A_ERR) { errno = v.err; return NULL; }
    DIR *d = REAL(opendir)(p);
    AFTER(v);
    return after_open(d, f);
}
DIR *fdopendir(int fd) {
    const char *p = tracked(fd);
    DIR *d = REAL(fdopendir)(fd);
    return p ? after_open(d, p) : d;
}
static struct dcache *find(DIR *d) { if (R && R->mode) for (int i = 0; i < 64; i++) if (DC[i].d == d) return &DC[i]; return NULL; }
struct dirent64 *readdir64(DIR *d) {
    struct dcache *c = find(d);
    if (!c) return REAL(readdir64)(d);
    return c->i < c->n ? &c->e[c->i++] : NULL;
}
struct dirent *readdir(DIR *d) {
    struct dcache *c = find(d);
    if (!c) return REAL(readdir)(d);
    return c->i < c->n ? (struct dirent *)&c->e[c->i++] : NULL;
}
int closedir(DIR *d) {
    for (int i = 0; i < 64; i++) if (DC[i].d == d) { free(DC[i].e); DC[i].e = NULL; DC[i].d = NULL; }
    return REAL(closedir)(d);
}
