/* Preloaded into the process under test: numbers every file operation after
 * mc_arm() and, at a chosen one, dies, tears a write, fails it, or raises
 * SIGINT. Also tracks which files hold data that was not synced. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, BEFORE, AFTER, TORN, FAIL, SHORT, INT_, FULL };
#define MAXOPS 4000
#define MAXD 256

struct fault { long at; int mode; long arg; };
static int armed, nfaults, outfd = -1;
static struct fault faults[4];
static long nops;
static char kinds[MAXOPS];
static long sizes[MAXOPS];
static char xdev[4096];
static struct { dev_t d; ino_t i; } dirty[MAXD];
static int ndirty;

void mc_arm(int fd) { nops = 0; outfd = fd; armed = 1; }
void mc_disarm(void) { armed = 0; }
void mc_fault(long at, int mode, long arg) {
    faults[nfaults].at = at; faults[nfaults].mode = mode;
    faults[nfaults].arg = arg; nfaults++;
}
void mc_clear(void) { nfaults = 0; ndirty = 0; xdev[0] = 0; armed = 0; }
void mc_xdev(const char *p) { snprintf(xdev, sizeof xdev, "%s", p); }
long mc_ops(void) { return nops; }
char mc_kind(long i) { return kinds[i]; }
long mc_size(long i) { return sizes[i]; }
int mc_ndirty(void) { return ndirty; }

void mc_report(void) {
    char b[8192]; int n = 0;
    n += snprintf(b + n, sizeof b - n, "dirty");
    for (int i = 0; i < ndirty && n < 8000; i++)
        n += snprintf(b + n, sizeof b - n, " %lu:%lu",
                      (unsigned long)dirty[i].d, (unsigned long)dirty[i].i);
    n += snprintf(b + n, sizeof b - n, "\n");
    if (outfd >= 0) syscall(SYS_write, outfd, b, n);
}
static void die(void) { mc_report(); syscall(SYS_exit_group, 77); }

static void mark(int fd, int on) {
    struct stat s; int i;
    if (fstat(fd, &s) || !S_ISREG(s.st_mode)) return;
    for (i = 0; i < ndirty; i++)
        if (dirty[i].d == s.st_dev && dirty[i].i == s.st_ino) {
            if (!on) dirty[i] = dirty[--ndirty];
            return;
        }
    if (on && ndirty < MAXD) { dirty[ndirty].d = s.st_dev; dirty[ndirty++].i = s.st_ino; }
}

/* returns 0: perform; 1: fail with errno set; otherwise a byte count in *cut
 * for a torn (die afterwards) or short write */
static __thread int post;
static int enter(char kind, long size, long *cut) {
    long k; int i;
    post = 0;
    if (cut) *cut = -1;
    if (!armed) return 0;
    k = nops++;
    if (k < MAXOPS) { kinds[k] = kind; sizes[k] = size; }
    for (i = 0; i < nfaults; i++) {
        struct fault *f = &faults[i];
        if (f->mode == FULL) {
            if (k >= f->at && strchr("wOsc", kind)) { errno = ENOSPC; return 1; }
            continue;
        }
        if (f->at != k) continue;
        switch (f->mode) {
        case BEFORE: die();
        case FAIL: errno = (int)f->arg; return 1;
        case AFTER: post = AFTER; break;
        case INT_: post = INT_; break;
        case TORN: post = AFTER; if (cut) *cut = f->arg; break;
        case SHORT: if (cut) *cut = f->arg; break;
        }
    }
    return 0;
}
static void leave(void) {
    int p = post, e = errno;
    post = 0;
    if (p == AFTER) die();
    if (p == INT_) { raise(SIGINT); errno = e; }
}

static int do_open(int at, const char *p, int fl, mode_t m) {
    int w = (fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE) != O_RDONLY;
    int fd;
    if (enter(w ? 'O' : 'o', 0, 0)) return -1;
    fd = (int)syscall(SYS_openat, at, p, fl, m);
    if (fd < 0) { errno = errno; }
    else if (armed && (fl & (O_CREAT | O_TRUNC)) && (fl & O_ACCMODE) != O_RDONLY) {
        struct stat s;
        if (!fstat(fd, &s) && s.st_size == 0) mark(fd, 1);
    }
    leave();
    return fd;
}
#define OPENS(name, pre, at) int name pre { mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    return do_open(at, p, fl, m); }
OPENS(open, (const char *p, int fl, ...), AT_FDCWD)
OPENS(open64, (const char *p, int fl, ...), AT_FDCWD)
OPENS(openat, (int d, const char *p, int fl, ...), d)
OPENS(openat64, (int d, const char *p, int fl, ...), d)
int __open64_2(const char *p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
int __open_2(const char *p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_TRUNC | O_WRONLY, m); }

ssize_t write(int fd, const void *b, size_t n) {
    long cut; ssize_t r;
    if (fd == outfd) return syscall(SYS_write, fd, b, n);
    if (enter('w', (long)n, &cut)) return -1;
    if (cut >= 0 && (size_t)cut < n) n = (size_t)cut;
    r = syscall(SYS_write, fd, b, n);
    if (armed && r > 0) mark(fd, 1);
    leave();
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    long cut; ssize_t r;
    if (enter('w', (long)n, &cut)) return -1;
    if (cut >= 0 && (size_t)cut < n) n = (size_t)cut;
    r = syscall(SYS_pwrite64, fd, b, n, o);
    if (armed && r > 0) mark(fd, 1);
    leave();
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    ssize_t r; long n = 0; int i;
    for (i = 0; i < c; i++) n += (long)v[i].iov_len;
    if (enter('w', n, 0)) return -1;
    r = syscall(SYS_writev, fd, v, c);
    if (armed && r > 0) mark(fd, 1);
    leave();
    return r;
}
static ssize_t do_sendfile(int o, int i, off_t *off, size_t n) {
    long cut; ssize_t r; struct stat s;
    long sz = (!fstat(i, &s)) ? (long)s.st_size : 0;
    if ((size_t)sz > n) sz = (long)n;
    if (enter('s', sz, &cut)) return -1;
    if (cut >= 0 && (size_t)cut < n) n = (size_t)cut;
    r = n ? syscall(SYS_sendfile, o, i, off, n) : 0;
    if (armed && r > 0) mark(o, 1);
    leave();
    return r;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return do_sendfile(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return do_sendfile(o, i, (off_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
    long cut; ssize_t r; struct stat s;
    long sz = (!fstat(i, &s)) ? (long)s.st_size : 0;
    if ((size_t)sz > n) sz = (long)n;
    if (enter('c', sz, &cut)) return -1;
    if (cut >= 0 && (size_t)cut < n) n = (size_t)cut;
    r = n ? syscall(SYS_copy_file_range, i, oi, o, oo, n, f) : 0;
    if (armed && r > 0) mark(o, 1);
    leave();
    return r;
}
ssize_t read(int fd, void *b, size_t n) {
    ssize_t r;
    if (enter('r', 0, 0)) return -1;
    r = syscall(SYS_read, fd, b, n);
    leave();
    return r;
}
int ftruncate64(int fd, off_t n) {
    int r;
    if (enter('t', n, 0)) return -1;
    r = (int)syscall(SYS_ftruncate, fd, n);
    if (armed && !r) mark(fd, 1);
    leave();
    return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off_t n) {
    int r;
    if (enter('t', n, 0)) return -1;
    r = (int)syscall(SYS_truncate, p, n);
    if (armed && !r) { int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDONLY, 0); if (fd >= 0) { mark(fd, 1); syscall(SYS_close, fd); } }
    leave();
    return r;
}
int truncate(const char *p, off_t n) { return truncate64(p, n); }
static int sync_(const char *n, int fd) {
    int r;
    if (enter('f', 0, 0)) return -1;
    r = (int)syscall(n[1] == 'd' ? SYS_fdatasync : SYS_fsync, fd);
    if (armed && !r) mark(fd, 0);
    leave();
    return r;
}
int fsync(int fd) { return sync_("fs", fd); }
int fdatasync(int fd) { return sync_("fd", fd); }
void sync(void) { if (armed) ndirty = 0; }
int syncfs(int fd) { (void)fd; if (armed) ndirty = 0; return 0; }
int close(int fd) {
    int r;
    if (fd == outfd) return (int)syscall(SYS_close, fd);
    if (enter('x', 0, 0)) { int e = errno; syscall(SYS_close, fd); errno = e; return -1; }
    r = (int)syscall(SYS_close, fd);
    leave();
    return r;
}
static int across(const char *a, const char *b) {
    size_t n = strlen(xdev);
    if (!n) return 0;
    return !strncmp(a, xdev, n) != !strncmp(b, xdev, n);
}
static int do_rename(char k, int da, const char *a, int db, const char *b, unsigned f) {
    int r;
    if (enter(k, 0, 0)) return -1;
    if (armed && across(a, b)) { errno = EXDEV; r = -1; }
    else if (k == 'R') r = (int)syscall(SYS_renameat2, da, a, db, b, f);
    else r = (int)syscall(SYS_linkat, da, a, db, b, f);
    leave();
    return r;
}
int rename(const char *a, const char *b) { return do_rename('R', AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int da, const char *a, int db, const char *b) { return do_rename('R', da, a, db, b, 0); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { return do_rename('R', da, a, db, b, f); }
int link(const char *a, const char *b) { return do_rename('L', AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int da, const char *a, int db, const char *b, int f) { return do_rename('L', da, a, db, b, (unsigned)f); }
#define ONE(kind, call) int r_; if (enter(kind, 0, 0)) return -1; r_ = (int)(call); leave(); return r_
int unlink(const char *p) { ONE('u', syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
int unlinkat(int d, const char *p, int f) { ONE('u', syscall(SYS_unlinkat, d, p, f)); }
int symlink(const char *a, const char *b) { ONE('y', syscall(SYS_symlinkat, a, AT_FDCWD, b)); }
int chmod(const char *p, mode_t m) { ONE('m', syscall(SYS_fchmodat, AT_FDCWD, p, m)); }
int fchmod(int fd, mode_t m) { ONE('m', syscall(SYS_fchmod, fd, m)); }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; ONE('m', syscall(SYS_fchmodat, d, p, m)); }
int chown(const char *p, uid_t u, gid_t g) { ONE('n', syscall(SYS_chown, p, u, g)); }
int fchown(int fd, uid_t u, gid_t g) { ONE('n', syscall(SYS_fchown, fd, u, g)); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { ONE('U', syscall(SYS_utimensat, d, p, t, f)); }
int futimens(int fd, const struct timespec t[2]) { ONE('U', syscall(SYS_utimensat, fd, 0, t, 0)); }
int mkdir(const char *p, mode_t m) { ONE('d', syscall(SYS_mkdirat, AT_FDCWD, p, m)); }
int rmdir(const char *p) { ONE('d', syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)); }
