/* fsx: hands every file-system step of a worker process below one directory to a controller.
 *
 * Loaded with LD_PRELOAD.  Until fsx_start() is called in a (forked) worker all calls pass through.  Afterwards
 * each intercepted call on a path below the directory sends one line to the controller and waits for one byte:
 *   g  perform it      k  die on the spot (SIGKILL)      e  fail with EIO/ENOSPC/EPERM
 * Writes are split in two halves with a step before each, so that death and interleaving can tear them.
 * Sleeping and the clocks are virtual (a shared counter of nanoseconds that only the controller advances).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int ctl = -1;
static char root[512];
static size_t rootlen;
static volatile int64_t *vclock;          /* virtual nanoseconds since the epoch */
static unsigned char tracked[4096];

void fsx_start(int fd, const char *dir, int64_t *clk) {
    ctl = fd; strncpy(root, dir, sizeof root - 1); rootlen = strlen(root); vclock = clk; memset(tracked, 0, sizeof tracked);
}
void fsx_stop(void) { ctl = -1; }

#define REAL(name) static __typeof__(name) *real_##name; if (!real_##name) real_##name = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static int ask(const char *op, const char *a, const char *b) {
    char buf[2200]; char r = 0; int e = errno;
    int n = snprintf(buf, sizeof buf, "%s\t%s\t%s\n", op, a ? a : "", b ? b : "");
    if (syscall(SYS_sendto, ctl, buf, n, MSG_NOSIGNAL, 0, 0) != n) _exit(99);
    long k;
    do { k = syscall(SYS_read, ctl, &r, 1); } while (k < 0 && errno == EINTR);
    if (k != 1) _exit(98);
    if (r == 'k') { syscall(SYS_kill, getpid(), SIGKILL); for (;;) ; }
    errno = e;
    return r;
}

static const char *full(int dirfd, const char *p, char *out, size_t n) {
    if (!p) return "";
    if (p[0] == '/') { snprintf(out, n, "%s", p); return out; }
    char base[1024]; base[0] = 0;
    if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); long k = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1); base[k > 0 ? k : 0] = 0; }
    snprintf(out, n, "%s/%s", base, p);
    return out;
}
static int in(const char *p) { return ctl >= 0 && strncmp(p, root, rootlen) == 0; }

#define STEP1(op, dirfd, path, err, call) do { \
    char b1[1100]; const char *f1; if (ctl >= 0 && in(f1 = full(dirfd, path, b1, sizeof b1))) \
        if (ask(op, f1 + rootlen, 0) == 'e') { errno = err; return -1; } \
    return call; } while (0)
#define STEP2(op, d1, p1, d2, p2, err, call) do { \
    char b1[1100], b2[1100]; if (ctl >= 0) { const char *f1 = full(d1, p1, b1, sizeof b1), *f2 = full(d2, p2, b2, sizeof b2); \
        if (in(f1) || in(f2)) if (ask(op, in(f1) ? f1 + rootlen : f1, in(f2) ? f2 + rootlen : f2) == 'e') { errno = err; return -1; } } \
    return call; } while (0)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char b[1100]; const char *f;
    if (ctl < 0 || !in(f = full(dirfd, path, b, sizeof b))) return syscall(SYS_openat, dirfd, path, flags, mode);
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    const char *op = !w ? "open-r" : flags & O_EXCL ? "create-excl" : flags & O_TRUNC ? "open-trunc" : "open-w";
    if (ask(op, f + rootlen, 0) == 'e') { errno = EACCES; return -1; }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = w ? 2 : 1;
    return fd;
}
#define OPENBODY(dirfd) mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return do_open(dirfd, path, flags, m)
int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
int openat(int d, const char *path, int flags, ...) { OPENBODY(d); }
int openat64(int d, const char *path, int flags, ...) { OPENBODY(d); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) { if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 0; return syscall(SYS_close, fd); }

static int tr(int fd) { return ctl >= 0 && fd >= 0 && fd < (int)sizeof tracked && tracked[fd] == 2; }

ssize_t write(int fd, const void *buf, size_t n) {
    if (!tr(fd) || n == 0) return syscall(SYS_write, fd, buf, n);
    size_t h = n / 2, done = 0;
    if (ask("write-1", "", 0) == 'e') { errno = ENOSPC; return -1; }
    if (h) { long k = syscall(SYS_write, fd, buf, h); if (k < 0) return -1; done = k; if (ask("write-2", "", 0) == 'e') return done; }
    while (done < n) { long k = syscall(SYS_write, fd, (const char *)buf + done, n - done); if (k < 0) return done ? (ssize_t)done : -1; done += k; }
    return done;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    if (tr(fd)) {
        if (ask("write-1", "", 0) == 'e') { errno = ENOSPC; return -1; }
        syscall(SYS_pwrite64, fd, buf, n / 2, off);
        if (ask("write-2", "", 0) == 'e') { errno = ENOSPC; return -1; }
    }
    return syscall(SYS_pwrite64, fd, buf, n, off);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    ssize_t t = 0;
    if (!tr(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) { ssize_t k = write(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; if ((size_t)k < v[i].iov_len) break; }
    return t;
}
static size_t half(int in_fd, off64_t pos, size_t n) {   /* the first transfer of a file ends in its middle */
    struct stat s; if (syscall(SYS_fstat, in_fd, &s) < 0) return n;
    off64_t left = s.st_size - pos;
    return pos == 0 && left > 1 && (size_t)(left / 2) < n ? (size_t)(left / 2) : n;
}
ssize_t sendfile64(int out, int in_fd, off64_t *off, size_t n) {
    if (tr(out)) {
        off64_t pos = off ? *off : syscall(SYS_lseek, in_fd, 0, SEEK_CUR);
        n = half(in_fd, pos, n);
        if (ask(pos ? "write-2" : "write-1", "", 0) == 'e') { errno = ENOSPC; return -1; }
    }
    return syscall(SYS_sendfile, out, in_fd, off, n);
}
ssize_t sendfile(int out, int in_fd, off_t *off, size_t n) { return sendfile64(out, in_fd, (off64_t *)off, n); }
ssize_t copy_file_range(int in_fd, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) {
    if (tr(out)) {
        off64_t pos = io ? *io : syscall(SYS_lseek, in_fd, 0, SEEK_CUR);
        n = half(in_fd, pos, n);
        if (ask(pos ? "write-2" : "write-1", "", 0) == 'e') { errno = ENOSPC; return -1; }
    }
    return syscall(SYS_copy_file_range, in_fd, io, out, oo, n, fl);
}
int ftruncate64(int fd, off64_t n) { if (tr(fd) && ask("truncate", "", 0) == 'e') { errno = EIO; return -1; } return syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate(const char *p, off_t n) { STEP1("truncate", AT_FDCWD, p, EIO, syscall(SYS_truncate, p, n)); }
int fsync(int fd) { return tr(fd) ? 0 : syscall(SYS_fsync, fd); }

int rename(const char *a, const char *b) { STEP2("rename", AT_FDCWD, a, AT_FDCWD, b, EPERM, syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b)); }
int renameat(int d, const char *a, int e, const char *b) { STEP2("rename", d, a, e, b, EPERM, syscall(SYS_renameat, d, a, e, b)); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { STEP2("rename", d, a, e, b, EPERM, syscall(SYS_renameat2, d, a, e, b, f)); }
int link(const char *a, const char *b) { STEP2("link", AT_FDCWD, a, AT_FDCWD, b, EPERM, syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0)); }
int linkat(int d, const char *a, int e, const char *b, int f) { STEP2("link", d, a, e, b, EPERM, syscall(SYS_linkat, d, a, e, b, f)); }
int symlink(const char *a, const char *b) { STEP2("symlink", AT_FDCWD, a, AT_FDCWD, b, EPERM, syscall(SYS_symlinkat, a, AT_FDCWD, b)); }
int symlinkat(const char *a, int d, const char *b) { STEP2("symlink", AT_FDCWD, a, d, b, EPERM, syscall(SYS_symlinkat, a, d, b)); }
int unlink(const char *p) { STEP1("unlink", AT_FDCWD, p, EPERM, syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
int unlinkat(int d, const char *p, int f) { STEP1("unlink", d, p, EPERM, syscall(SYS_unlinkat, d, p, f)); }
int remove(const char *p) { STEP1("unlink", AT_FDCWD, p, EPERM, syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
int rmdir(const char *p) { STEP1("rmdir", AT_FDCWD, p, EPERM, syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)); }
int mkdir(const char *p, mode_t m) { STEP1("mkdir", AT_FDCWD, p, EPERM, syscall(SYS_mkdirat, AT_FDCWD, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { STEP1("mkdir", d, p, EPERM, syscall(SYS_mkdirat, d, p, m)); }
int chmod(const char *p, mode_t m) { STEP1("chmod", AT_FDCWD, p, EPERM, syscall(SYS_fchmodat, AT_FDCWD, p, m)); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { STEP1("utime", d, p, EPERM, syscall(SYS_utimensat, d, p, t, f)); }

/* looking at a name is a step as well: other workers may act between two looks */
#define LOOK(d, p) do { char b1[1100]; const char *f1; if (ctl >= 0 && (p) && in(f1 = full(d, p, b1, sizeof b1))) ask("look", f1 + rootlen, 0); } while (0)
int stat(const char *p, struct stat *s) { LOOK(AT_FDCWD, p); REAL(stat); return real_stat(p, s); }
int stat64(const char *p, struct stat64 *s) { LOOK(AT_FDCWD, p); REAL(stat64); return real_stat64(p, s); }
int lstat(const char *p, struct stat *s) { LOOK(AT_FDCWD, p); REAL(lstat); return real_lstat(p, s); }
int lstat64(const char *p, struct stat64 *s) { LOOK(AT_FDCWD, p); REAL(lstat64); return real_lstat64(p, s); }
int fstatat(int d, const char *p, struct stat *s, int f) { LOOK(d, p); REAL(fstatat); return real_fstatat(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { LOOK(d, p); REAL(fstatat64); return real_fstatat64(d, p, s, f); }
int access(const char *p, int m) { LOOK(AT_FDCWD, p); REAL(access); return real_access(p, m); }

int flock(int fd, int op) {
    if (ctl < 0 || fd < 0 || fd >= (int)sizeof tracked || !tracked[fd]) return syscall(SYS_flock, fd, op);
    if (op & LOCK_UN) { ask("unlock", "", 0); return syscall(SYS_flock, fd, op); }
    int first = ask("lock", "", 0);
    if (first == 'e') { errno = EIO; return -1; }
    for (;;) {
        int r = syscall(SYS_flock, fd, op | LOCK_NB);
        if (r == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) return r;
        ask("blocked", "", 0);
    }
}
static int do_fcntl(int fd, int cmd, long arg) {
    if (ctl >= 0 && fd >= 0 && fd < (int)sizeof tracked && tracked[fd] && (cmd == F_SETLK || cmd == F_SETLKW)) {
        if (ask("lock", "", 0) == 'e') { errno = EIO; return -1; }
        for (;;) {
            int r = syscall(SYS_fcntl, fd, F_SETLK, arg);
            if (r == 0 || cmd == F_SETLK || (errno != EAGAIN && errno != EACCES)) return r;
            ask("blocked", "", 0);
        }
    }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

/* time */
static void vsleep(int64_t ns) { char b[40]; snprintf(b, sizeof b, "%lld", (long long)ns); ask("sleep", b, 0); }
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
    if (ctl < 0) { long r = syscall(SYS_clock_nanosleep, c, flags, t, rem); return r < 0 ? errno : 0; }
    int64_t ns = t->tv_sec * 1000000000LL + t->tv_nsec;
    if (flags & TIMER_ABSTIME) ns -= *vclock;
    vsleep(ns > 0 ? ns : 0);
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
    if (ctl < 0) return syscall(SYS_nanosleep, t, rem);
    vsleep(t->tv_sec * 1000000000LL + t->tv_nsec);
    return 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if (ctl < 0 || !vclock || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return syscall(SYS_clock_gettime, c, t) < 0 ? -1 : 0;
    t->tv_sec = *vclock / 1000000000LL; t->tv_nsec = *vclock % 1000000000LL;
    return 0;
}
