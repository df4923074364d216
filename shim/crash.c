/* Preloaded into the interpreter that runs the code under test. Numbers the file system operations of the
 * armed process under two roots, and kills it or makes an operation fail at a given number. Renames and
 * links between the roots can be made to fail with EXDEV, as if they were different file systems. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

enum { OFF, COUNT, KILL, FAIL, FULL };
static char root[2][PATH_MAX];
static int cross, mode, count, hit, err, ntrig;
static struct { int mode, at, err; } trig[8];
static char ops[65536];
static size_t nops;
static unsigned char watched[4096];

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

void hs_roots(const char *a, const char *b, int cross_) {
    snprintf(root[0], PATH_MAX, "%s", a);
    snprintf(root[1], PATH_MAX, "%s", b);
    cross = cross_;
}
void hs_also(int mode_, int at_, int err_) {
    if (ntrig < 8) { trig[ntrig].mode = mode_; trig[ntrig].at = at_; trig[ntrig].err = err_; ntrig++; }
}
void hs_arm(int mode_, int at_, int err_) { mode = mode_; count = 0; hit = 0; nops = 0; ops[0] = 0; ntrig = 0; if (mode_) hs_also(mode_, at_, err_); }
int hs_count(void) { return count; }
int hs_hit(void) { return hit; }
const char *hs_ops(void) { return ops; }

static int which(int dirfd, const char *p) {
    char buf[PATH_MAX], link[64], base[PATH_MAX];
    if (!p) return -1;
    if (p[0] != '/') {
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return -1; }
        else {
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(link, base, sizeof base - 1);
            if (n < 0) return -1;
            base[n] = 0;
        }
        if (snprintf(buf, sizeof buf, "%s/%s", base, p) >= (int)sizeof buf) return -1;
        p = buf;
    }
    for (int i = 0; i < 2; i++) {
        size_t n = strlen(root[i]);
        if (n && !strncmp(p, root[i], n) && (p[n] == '/' || !p[n])) return i;
    }
    return -1;
}
/* Returns nonzero (errno set) if the operation has to fail. grows: consumes disk space */
static int op(const char *name, int grows) {
    if (mode == OFF) return 0;
    count++;
    if (nops + 24 < sizeof ops) nops += snprintf(ops + nops, 24, "%s%s", nops ? " " : "", name);
    for (int i = 0; i < ntrig; i++) {
        if (trig[i].mode == KILL && count == trig[i].at) { kill(getpid(), SIGKILL); for (;;) pause(); }
        if ((trig[i].mode == FAIL && count == trig[i].at) || (trig[i].mode == FULL && count >= trig[i].at && grows)) {
            hit++; err = trig[i].err; errno = err; return -1;
        }
    }
    return 0;
}
static int dies_next(void) {
    for (int i = 0; i < ntrig; i++) if (trig[i].mode == KILL && count + 1 == trig[i].at) return 1;
    return 0;
}
static void mark(int fd, int on) { if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = on; }
static int is_marked(int fd) { return fd >= 0 && fd < (int)sizeof watched && watched[fd]; }

static int creates(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
#define OPEN_BODY(dirfd, call) \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    int w = mode != OFF && !(flags & O_DIRECTORY) && which(dirfd, path) >= 0; \
    if (w && op(creates(flags) ? "create" : "open", creates(flags))) return -1; \
    int fd = call; \
    mark(fd, w && creates(flags)); \
    return fd;
int open(const char *path, int flags, ...) { REAL(open); OPEN_BODY(AT_FDCWD, real(path, flags, m)) }
int open64(const char *path, int flags, ...) { REAL(open64); OPEN_BODY(AT_FDCWD, real(path, flags, m)) }
int openat(int d, const char *path, int flags, ...) { REAL(openat); OPEN_BODY(d, real(d, path, flags, m)) }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64); OPEN_BODY(d, real(d, path, flags, m)) }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (is_marked(fd) && mode != OFF) {
        if (n > 1) {   /* torn write */
            int before = hit;
            ssize_t half = 0;
            if (dies_next()) half = real(fd, b, n / 2);
            if (op("write", 1)) { if (hit > before && err != EINTR) half = real(fd, b, n / 2); errno = err; return half < 0 ? half : -1; }
            return real(fd, b, n);
        }
        if (op("write", 1)) return -1;
    }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    if (is_marked(fd) && op("write", 1)) return -1;
    return real(fd, b, n, o);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(sendfile64);
    if (is_marked(o) && op("write", 1)) return -1;
    return real(o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(sendfile);
    if (is_marked(o) && op("write", 1)) return -1;
    return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (is_marked(o) && op("write", 1)) return -1;
    return real(i, oi, o, oo, n, f);
}
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (is_marked(fd) && op("truncate", 0)) return -1; return real(fd, n); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (is_marked(fd) && op("truncate", 0)) return -1; return real(fd, n); }
int fsync(int fd) { REAL(fsync); if (is_marked(fd) && op("fsync", 0)) return -1; return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (is_marked(fd) && op("fsync", 0)) return -1; return real(fd); }
int close(int fd) {
    REAL(close);
    if (is_marked(fd)) { mark(fd, 0); if (mode != OFF && op("close", 0)) { int e = errno; real(fd); errno = e; return -1; } }
    return real(fd);
}

static int two(int d1, const char *a, int d2, const char *b, const char *name) {
    int x = which(d1, a), y = which(d2, b);
    if (x < 0 && y < 0) return 0;
    if (op(name, 0)) return -1;
    if (cross && x >= 0 && y >= 0 && x != y) { errno = EXDEV; return -1; }
    return 0;
}
int rename(const char *a, const char *b) { REAL(rename); if (two(AT_FDCWD, a, AT_FDCWD, b, "rename")) return -1; return real(a, b); }
int renameat(int c, const char *a, int d, const char *b) { REAL(renameat); if (two(c, a, d, b, "rename")) return -1; return real(c, a, d, b); }
int renameat2(int c, const char *a, int d, const char *b, unsigned f) { REAL(renameat2); if (two(c, a, d, b, "rename")) return -1; return real(c, a, d, b, f); }
int link(const char *a, const char *b) { REAL(link); if (two(AT_FDCWD, a, AT_FDCWD, b, "link")) return -1; return real(a, b); }
int linkat(int c, const char *a, int d, const char *b, int f) { REAL(linkat); if (two(c, a, d, b, "link")) return -1; return real(c, a, d, b, f); }

#define ONE(dirfd, name, grows) if (mode != OFF && which(dirfd, path) >= 0 && op(name, grows)) return -1
int symlink(const char *t, const char *path) { REAL(symlink); ONE(AT_FDCWD, "symlink", 1); return real(t, path); }
int symlinkat(const char *t, int d, const char *path) { REAL(symlinkat); ONE(d, "symlink", 1); return real(t, d, path); }
int mkdir(const char *path, mode_t m) { REAL(mkdir); ONE(AT_FDCWD, "mkdir", 1); return real(path, m); }
int mkdirat(int d, const char *path, mode_t m) { REAL(mkdirat); ONE(d, "mkdir", 1); return real(d, path, m); }
int rmdir(const char *path) { REAL(rmdir); ONE(AT_FDCWD, "rmdir", 0); return real(path); }
int unlink(const char *path) { REAL(unlink); ONE(AT_FDCWD, "unlink", 0); return real(path); }
int unlinkat(int d, const char *path, int f) { REAL(unlinkat); ONE(d, f & AT_REMOVEDIR ? "rmdir" : "unlink", 0); return real(d, path, f); }
