// Fault injector for file operations below one directory. Inert until armed (fault_arm).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
enum { OFF, COUNT, CRASH, TEAR, FAIL, FAILFROM, SHORT };
static int soft = 0, dead = 0;  // soft: instead of dying, no operation has any effect from the crash on
static int mode = OFF, target = -1, counter = 0, err = 0;
static long part = 0;
static char root[PATH_MAX];
static char mine[MAXFD];
static char trace[1 << 16];
static int tracelen = 0;

void fault_arm(const char *dir, int m, int k, long p, int e) {
    strncpy(root, dir, sizeof root - 1);
    soft = m >= 100; dead = 0; m %= 100;
    mode = m; target = k; part = p; err = e; counter = 0; tracelen = 0; trace[0] = 0;
    memset(mine, 0, sizeof mine);
}
void fault_disarm(void) { mode = OFF; }
int fault_dead(void) { return dead; }
int fault_count(void) { return counter; }
const char *fault_trace(void) { return trace; }

static int below(int dirfd, const char *path) {
    if (mode == OFF || !path) return 0;
    char buf[2 * PATH_MAX + 2];
    if (path[0] == '/') snprintf(buf, sizeof buf, "%s", path);
    else if (dirfd == AT_FDCWD) {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
    } else {
        char l[64], d[PATH_MAX];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(l, d, sizeof d - 1);
        if (n < 0) return 0;
        d[n] = 0;
        snprintf(buf, sizeof buf, "%s/%s", d, path);
    }
    return strncmp(buf, root, strlen(root)) == 0;
}

// Returns 1 if the operation must fail (errno set). For writes, *n may be cut.
static int point(const char *name, size_t *n, int iswrite) {
    int k = counter++;
    if (tracelen < (int)sizeof trace - 64)
        tracelen += snprintf(trace + tracelen, 64, "%s:%ld;", name, n ? (long)*n : -1L);
    if (dead) { errno = EIO; return 1; }
    if (mode == CRASH && k == target) { if (!soft) _exit(137); dead = 1; errno = EIO; return 1; }
    if (mode == FAIL && k == target) { errno = err; return 1; }
    if (mode == FAILFROM && k >= target) { errno = err; return 1; }
    if (mode == SHORT && k == target && iswrite && n && part > 0 && (size_t)part < *n) *n = part;
    if (mode == TEAR && k == target && iswrite && n) { *n = (size_t)part < *n ? (size_t)part : *n; return 2; }
    return 0;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int opened(int fd) { if (fd >= 0 && fd < MAXFD) mine[fd] = 1; return fd; }
static int writes(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

#define OPENBODY(call, dfd) \
    mode_t m = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (below(dfd, path) && writes(flags)) { if (point("open", NULL, 0)) return -1; return opened(call); } \
    return call;
int open(const char *path, int flags, ...) { REAL(open); OPENBODY(real(path, flags, m), AT_FDCWD) }
int open64(const char *path, int flags, ...) { REAL(open64); OPENBODY(real(path, flags, m), AT_FDCWD) }
int openat(int d, const char *path, int flags, ...) { REAL(openat); OPENBODY(real(d, path, flags, m), d) }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64); OPENBODY(real(d, path, flags, m), d) }
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

FILE *fopen(const char *path, const char *md) {
    REAL(fopen);
    if (below(AT_FDCWD, path) && md && md[0] != 'r' && point("fopen", NULL, 0)) return NULL;
    return real(path, md);
}
#define ISMINE(fd) (mode != OFF && (fd) >= 0 && (fd) < MAXFD && mine[fd])
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!ISMINE(fd)) return real(fd, b, n);
    int r = point("write", &n, 1);
    if (r == 1) return -1;
    ssize_t x = n ? real(fd, b, n) : 0;
    if (r == 2) { if (!soft) _exit(137); dead = 1; errno = EIO; return -1; }
    return x;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite);
    if (!ISMINE(fd)) return real(fd, b, n, o);
    int r = point("pwrite", &n, 1);
    if (r == 1) return -1;
    ssize_t x = n ? real(fd, b, n, o) : 0;
    if (r == 2) { if (!soft) _exit(137); dead = 1; errno = EIO; return -1; }
    return x;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    if (!ISMINE(fd)) return real(fd, b, n, o);
    int r = point("pwrite", &n, 1);
    if (r == 1) return -1;
    ssize_t x = n ? real(fd, b, n, o) : 0;
    if (r == 2) { if (!soft) _exit(137); dead = 1; errno = EIO; return -1; }
    return x;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    if (ISMINE(fd)) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; if (point("writev", &n, 0)) return -1; }
    return real(fd, v, c);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n);
ssize_t sendfile64(int out, int in, off64_t *o, size_t n);
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
    static ssize_t (*real)(int, int, off_t *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "sendfile");
    if (!ISMINE(out)) return real(out, in, o, n);
    int r = point("sendfile", &n, 1);
    if (r == 1) return -1;
    ssize_t x = n ? real(out, in, o, n) : 0;
    if (r == 2) { if (!soft) _exit(137); dead = 1; errno = EIO; return -1; }
    return x;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    static ssize_t (*real)(int, int, off64_t *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "sendfile64");
    if (!ISMINE(out)) return real(out, in, o, n);
    int r = point("sendfile", &n, 1);
    if (r == 1) return -1;
    ssize_t x = n ? real(out, in, o, n) : 0;
    if (r == 2) { if (!soft) _exit(137); dead = 1; errno = EIO; return -1; }
    return x;
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (!ISMINE(out)) return real(in, oi, out, oo, n, f);
    int r = point("copy", &n, 1);
    if (r == 1) return -1;
    ssize_t x = n ? real(in, oi, out, oo, n, f) : 0;
    if (r == 2) { if (!soft) _exit(137); dead = 1; errno = EIO; return -1; }
    return x;
}
#define FDOP(ret, name, args, call) ret name args { REAL(name); if (ISMINE(fd) && point(#name, NULL, 0)) return -1; return call; }
FDOP(int, ftruncate, (int fd, off_t n), real(fd, n))
FDOP(int, ftruncate64, (int fd, off64_t n), real(fd, n))
FDOP(int, fsync, (int fd), real(fd))
FDOP(int, fdatasync, (int fd), real(fd))
int close(int fd) {
    REAL(close);
    if (ISMINE(fd)) { int r = point("close", NULL, 0); mine[fd] = 0; int e = errno; int x = real(fd); if (r) { errno = e; return -1; } return x; }
    return real(fd);
}
int dup(int fd) { REAL(dup); int r = real(fd); if (ISMINE(fd)) opened(r); return r; }
#define PATHOP(name, args, path, call) int name args { REAL(name); if (below(AT_FDCWD, path) && point(#name, NULL, 0)) return -1; return call; }
PATHOP(unlink, (const char *a), a, real(a))
PATHOP(remove, (const char *a), a, real(a))
PATHOP(truncate, (const char *a, off_t n), a, real(a, n))
PATHOP(truncate64, (const char *a, off64_t n), a, real(a, n))
PATHOP(mkdir, (const char *a, mode_t m), a, real(a, m))
PATHOP(rmdir, (const char *a), a, real(a))
// Every directory counts as a file system of its own: nothing can be renamed or linked from one to another.
static int folder(int d, const char *p, char *out) {
    char b[2 * PATH_MAX], l[64];
    const char *s = strrchr(p, '/');
    if (p[0] == '/') snprintf(b, sizeof b, "%.*s", (int)(s - p) + 1, p);
    else {
        char base[PATH_MAX] = ".";
        if (d != AT_FDCWD) { snprintf(l, sizeof l, "/proc/self/fd/%d", d); ssize_t n = readlink(l, base, sizeof base - 1); if (n > 0) base[n] = 0; }
        snprintf(b, sizeof b, "%s/%.*s", base, s ? (int)(s - p) : 0, p);
    }
    return realpath(b, out) != NULL;
}
static int apart(int d, const char *a, int e, const char *b) {
    char x[PATH_MAX], y[PATH_MAX];
    if (!folder(d, a, x) || !folder(e, b, y) || !strcmp(x, y)) return 0;
    errno = EXDEV;
    return 1;
}
int rename(const char *a, const char *b) { REAL(rename); if (below(AT_FDCWD, b) && (point("rename", NULL, 0) || apart(AT_FDCWD, a, AT_FDCWD, b))) return -1; return real(a, b); }
int link(const char *a, const char *b) { REAL(link); if (below(AT_FDCWD, b) && (point("link", NULL, 0) || apart(AT_FDCWD, a, AT_FDCWD, b))) return -1; return real(a, b); }
PATHOP(symlink, (const char *a, const char *b), b, real(a, b))
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); if (below(d, a) && point("unlinkat", NULL, 0)) return -1; return real(d, a, f); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); if (below(e, b) && (point("renameat", NULL, 0) || apart(d, a, e, b))) return -1; return real(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(renameat2); if (below(e, b) && (point("renameat2", NULL, 0) || apart(d, a, e, b))) return -1; return real(d, a, e, b, f); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(linkat); if (below(e, b) && (point("linkat", NULL, 0) || apart(d, a, e, b))) return -1; return real(d, a, e, b, f); }
