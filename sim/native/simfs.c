/* Seeded faults in file operations below one directory (LD_PRELOAD).
 *
 * Off until simfs_arm(); counts operations on paths below the prefix and on
 * files opened there, and acts at the operation with a given number:
 * fail with an errno (once, or from then on), transfer only part of the data,
 * or end the process after part of the data has been written. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <unistd.h>

enum { C_WRITE = 1, C_READ = 2, C_OPEN = 4, C_META = 8, C_MALLOC = 16 };
enum { A_NONE, A_FAIL, A_SHORT, A_CRASH };

static struct {
    int on, mask, action, err, sticky, frac; /* frac: part of the data in 1/1000 */
    long at, n, hit, bytes;
    char prefix[1024];
    size_t plen;
    char log[1 << 14];
    size_t nlog;
} S;

#define MAXFD 4096
static unsigned char tracked[MAXFD]; /* 1: below the prefix, 2: writable */
#define MAXFILE 64
static FILE *files[MAXFILE];

#define REAL(ret, name, args) \
    static ret(*real_##name) args; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

void simfs_arm(const char *prefix, int mask, int action, long at, int err, int sticky, int frac) {
    S.mask = mask; S.action = action; S.at = at; S.err = err; S.sticky = sticky; S.frac = frac;
    S.n = S.hit = S.bytes = 0; S.nlog = 0; S.log[0] = 0;
    strncpy(S.prefix, prefix, sizeof S.prefix - 1);
    S.plen = strlen(S.prefix);
    S.on = 1;
}
void simfs_off(void) { S.on = 0; }
long simfs_ops(void) { return S.n; }
long simfs_hits(void) { return S.hit; }
long simfs_bytes(void) { return S.bytes; }
const char *simfs_log(void) { return S.log; }

static int below(const char *p) {
    char buf[2048];
    if (!S.on || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, 1000)) return 0;
        size_t n = strlen(buf);
        if (n + strlen(p) + 2 > sizeof buf) return 0;
        buf[n] = '/';
        strcpy(buf + n + 1, p[0] == '.' && p[1] == '/' ? p + 2 : p);
        p = buf;
    }
    return strncmp(p, S.prefix, S.plen) == 0;
}
static int fdok(int fd) { return S.on && fd >= 0 && fd < MAXFD && tracked[fd]; }

static void note(char c) {
    if (S.nlog + 2 < sizeof S.log) { S.log[S.nlog++] = c; S.log[S.nlog] = 0; }
}

/* 0: go on; A_FAIL: errno set; A_SHORT, A_CRASH: the caller handles it */
static int step(int cls, char c) {
    if (!S.on || !(S.mask & cls)) return 0;
    S.n++;
    note(c);
    int now = S.n == S.at || (S.sticky && S.hit && S.action == A_FAIL);
    if (!now) return 0;
    S.hit++;
    note('!');
    if (S.action == A_FAIL) errno = S.err;
    return S.action;
}
static void die(void) { _exit(99); }
static size_t part(size_t n) { size_t k = (size_t)((double)n * S.frac / 1000.0); return k < n ? k : (n ? n - 1 : 0); }

static void track(int fd, int flags) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 1 | ((flags & O_ACCMODE) != O_RDONLY ? 2 : 0); }

#define OPEN_BODY(call_real) \
    int in = below(path); \
    if (in) { int a = step(flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR) ? C_OPEN | C_META : C_OPEN, flags & (O_WRONLY | O_RDWR) ? 'O' : 'o'); \
        if (a == A_FAIL) return -1; if (a == A_CRASH) die(); } \
    int fd = call_real; \
    if (in) track(fd, flags); else if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; \
    return fd

#define MODE() mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { REAL(int, open, (const char *, int, ...)); MODE(); OPEN_BODY(real_open(path, flags, mode)); }
int open64(const char *path, int flags, ...) { REAL(int, open64, (const char *, int, ...)); MODE(); OPEN_BODY(real_open64(path, flags, mode)); }
int openat(int d, const char *path, int flags, ...) { REAL(int, openat, (int, const char *, int, ...)); MODE(); OPEN_BODY(real_openat(d, path, flags, mode)); }
int openat64(int d, const char *path, int flags, ...) { REAL(int, openat64, (int, const char *, int, ...)); MODE(); OPEN_BODY(real_openat64(d, path, flags, mode)); }

#define WRITE_BODY(fd, n, whole, some) \
    if (fdok(fd)) { int a = step(C_WRITE, 'w'); \
        if (a == A_FAIL) return -1; \
        if (a == A_SHORT || a == A_CRASH) { size_t k = part(n); ssize_t r = 0; \
            if (a == A_SHORT && k == 0) k = n ? 1 : 0; \
            if (k) r = some; \
            if (a == A_CRASH) die(); \
            return r; } \
        S.bytes += n; } \
    return whole
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, (int, const void *, size_t)); WRITE_BODY(fd, n, real_write(fd, b, n), real_write(fd, b, k)); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite, (int, const void *, size_t, off_t)); WRITE_BODY(fd, n, real_pwrite(fd, b, n, o), real_pwrite(fd, b, k, o)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, pwrite64, (int, const void *, size_t, off64_t)); WRITE_BODY(fd, n, real_pwrite64(fd, b, n, o), real_pwrite64(fd, b, k, o)); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    REAL(ssize_t, write, (int, const void *, size_t));
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    WRITE_BODY(fd, n, real_writev(fd, v, c), real_write(fd, v[0].iov_base, k < v[0].iov_len ? k : v[0].iov_len));
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { REAL(ssize_t, sendfile, (int, int, off_t *, size_t)); WRITE_BODY(out, n, real_sendfile(out, in, o, n), real_sendfile(out, in, o, k > 7 ? 7 : k)); }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { REAL(ssize_t, sendfile64, (int, int, off64_t *, size_t)); WRITE_BODY(out, n, real_sendfile64(out, in, o, n), real_sendfile64(out, in, o, k > 7 ? 7 : k)); }

#define READ_BODY(fd, n, whole, some) \
    if (fdok(fd)) { int a = step(C_READ, 'r'); \
        if (a == A_FAIL) return -1; \
        if (a == A_CRASH) die(); \
        if (a == A_SHORT) { size_t k = part(n); if (k == 0) k = n ? 1 : 0; return some; } } \
    return whole
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, (int, void *, size_t)); READ_BODY(fd, n, real_read(fd, b, n), real_read(fd, b, k)); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, pread, (int, void *, size_t, off_t)); READ_BODY(fd, n, real_pread(fd, b, n, o), real_pread(fd, b, k, o)); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, pread64, (int, void *, size_t, off64_t)); READ_BODY(fd, n, real_pread64(fd, b, n, o), real_pread64(fd, b, k, o)); }

#define META(c, cond, call) if (cond) { int a = step(C_META, c); if (a == A_FAIL) return -1; if (a == A_CRASH) die(); } return call
int rename(const char *a_, const char *b_) { REAL(int, rename, (const char *, const char *)); META('R', below(a_) || below(b_), real_rename(a_, b_)); }
int renameat(int d1, const char *a_, int d2, const char *b_) { REAL(int, renameat, (int, const char *, int, const char *)); META('R', below(a_) || below(b_), real_renameat(d1, a_, d2, b_)); }
int unlink(const char *p) { REAL(int, unlink, (const char *)); META('U', below(p), real_unlink(p)); }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, (int, const char *, int)); META('U', below(p), real_unlinkat(d, p, f)); }
int remove(const char *p) { REAL(int, remove, (const char *)); META('U', below(p), real_remove(p)); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, (const char *, mode_t)); META('M', below(p), real_mkdir(p, m)); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, (int, off_t)); META('T', fdok(fd), real_ftruncate(fd, n)); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, (int, off64_t)); META('T', fdok(fd), real_ftruncate64(fd, n)); }
int fsync(int fd) { REAL(int, fsync, (int)); META('S', fdok(fd), real_fsync(fd)); }

int close(int fd) {
    REAL(int, close, (int));
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    return real_close(fd);
}

static int fslot(FILE *f) { if (f) for (int i = 0; i < MAXFILE; i++) if (files[i] == f) return i; return -1; }
#define FOPEN_BODY(call_real) \
    int in = below(path), w = mode && (mode[0] != 'r' || strchr(mode, '+')); \
    if (in) { int a = step(w ? C_OPEN | C_META : C_OPEN, w ? 'O' : 'o'); if (a == A_FAIL) return NULL; if (a == A_CRASH) die(); } \
    FILE *f = call_real; \
    if (in && f) for (int i = 0; i < MAXFILE; i++) if (!files[i]) { files[i] = f; break; } \
    return f
FILE *fopen(const char *path, const char *mode) { REAL(FILE *, fopen, (const char *, const char *)); FOPEN_BODY(real_fopen(path, mode)); }
FILE *fopen64(const char *path, const char *mode) { REAL(FILE *, fopen64, (const char *, const char *)); FOPEN_BODY(real_fopen64(path, mode)); }
int fclose(FILE *f) {
    REAL(int, fclose, (FILE *));
    int i = fslot(f);
    if (i >= 0) files[i] = NULL;
    return real_fclose(f);
}
size_t fread(void *b, size_t sz, size_t n, FILE *f) {
    REAL(size_t, fread, (void *, size_t, size_t, FILE *));
    if (S.on && fslot(f) >= 0) {
        int a = step(C_READ, 'r');
        if (a == A_CRASH) die();
        if (a == A_FAIL) return 0;
        if (a == A_SHORT) {
            size_t bytes = part(sz * n), got = real_fread(b, 1, bytes, f);
            return sz ? got / sz : 0;
        }
    }
    return real_fread(b, sz, n, f);
}
int fseek(FILE *f, long o, int w) {
    REAL(int, fseek, (FILE *, long, int));
    if (S.on && fslot(f) >= 0 && step(C_READ, 's') == A_FAIL) return -1;
    return real_fseek(f, o, w);
}
size_t fwrite(const void *b, size_t sz, size_t n, FILE *f) {
    REAL(size_t, fwrite, (const void *, size_t, size_t, FILE *));
    if (S.on && fslot(f) >= 0) {
        int a = step(C_WRITE, 'w');
        if (a == A_FAIL) return 0;
        if (a == A_SHORT || a == A_CRASH) {
            size_t k = real_fwrite(b, 1, part(sz * n), f);
            if (a == A_CRASH) { fflush(f); die(); }
            return sz ? k / sz : 0;
        }
    }
    return real_fwrite(b, sz, n, f);
}

/* allocations of one thread of one library, only where a check asks for it */
extern void *__libc_malloc(size_t);
void *malloc(size_t n) {
    if (S.on && (S.mask & C_MALLOC) && step(C_MALLOC, 'm') == A_FAIL) { errno = ENOMEM; return NULL; }
    return __libc_malloc(n);
}
