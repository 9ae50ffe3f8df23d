/* Interposed file system calls.  Calls that concern files below a chosen directory are announced to the simulator
 * over a socket; the simulator answers with a verdict (go on, fail with an errno, transfer fewer bytes, be killed, be
 * interrupted), and is told the result.  Everything else passes through untouched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
enum { K_OPEN = 1, K_CLOSE, K_READ, K_WRITE, K_FSYNC, K_TRUNC, K_RENAME, K_UNLINK, K_LINK, K_SYMLINK, K_CHMOD, K_STAT,
       K_MKDIR, K_LOCK, K_WAIT, K_DIR, K_SYNC };
enum { GO = 0, FAIL = 1, SHORT = 2, KILL = 3, SHORTKILL = 4, INT = 5, FAILAFTER = 6 };

struct req { int32_t kind, fd; int64_t off, len; int32_t flags, p1, p2, data; };
struct verdict { int32_t action, arg; };
struct res { int64_t ret; int32_t err, pad; };

static int sock = -1;
static char root[PATH_MAX];
static size_t rootlen;
static unsigned char tracked[MAXFD];
static __thread int inside;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static long rw(int wr, int fd, void *b, size_t n) {
    char *p = b;
    while (n) {
        long r = wr ? syscall(SYS_write, fd, p, n) : syscall(SYS_read, fd, p, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) _exit(111);
        p += r; n -= r;
    }
    return 0;
}

void shim_on(const char *dir, int fd) {
    if (!realpath(dir, root)) _exit(112);
    rootlen = strlen(root);
    memset(tracked, 0, sizeof tracked);
    sock = fd;
}
void shim_off(void) { sock = -1; }
int shim_present(void) { return 1; }

/* absolute path without resolving the last component; returns 1 if it lies below the directory */
static int below(int dirfd, const char *path, char *out) {
    char buf[PATH_MAX];
    if (sock < 0 || inside || !path) return 0;
    if (path[0] == '/') {
        if (strlen(path) >= PATH_MAX) return 0;
        strcpy(buf, path);
    } else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (!getcwd(base, sizeof base)) return 0;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(l, base, sizeof base - 1);
            if (n <= 0) return 0;
            base[n] = 0;
        }
        if (snprintf(buf, sizeof buf, "%s/%s", base, path) >= (int)sizeof buf) return 0;
    }
    char *slash = strrchr(buf, '/');
    char dir[PATH_MAX];
    int saved = errno;
    if (slash && slash != buf && strcmp(slash, "/..") && strcmp(slash, "/.")) {
        *slash = 0;
        if (!realpath(buf, dir)) { errno = saved; *slash = '/'; strcpy(dir, buf); *strrchr(dir, '/') = 0; }
        *slash = '/';
        if (snprintf(out, PATH_MAX, "%s%s", dir, slash) >= PATH_MAX) return 0;
    } else strcpy(out, buf);
    errno = saved;
    return !strncmp(out, root, rootlen) && (out[rootlen] == '/' || out[rootlen] == 0);
}

static struct verdict ask(int kind, int fd, int64_t off, int64_t len, int flags, const char *p1, const char *p2,
                          const void *data, size_t n) {
    struct req r = { kind, fd, off, len, flags, p1 ? strlen(p1) : 0, p2 ? strlen(p2) : 0, n };
    struct verdict v;
    inside = 1;
    rw(1, sock, &r, sizeof r);
    if (r.p1) rw(1, sock, (void *)p1, r.p1);
    if (r.p2) rw(1, sock, (void *)p2, r.p2);
    if (n) rw(1, sock, (void *)data, n);
    rw(0, sock, &v, sizeof v);
    if (v.action == KILL) kill(getpid(), SIGKILL);
    inside = 0;
    return v;
}

static long tell(struct verdict v, long ret) {
    struct res r = { ret, ret < 0 ? errno : 0, 0 };
    int saved = errno;
    rw(1, sock, &r, sizeof r);
    if (v.action == SHORTKILL) kill(getpid(), SIGKILL);
    if (v.action == INT) raise(SIGINT);
    errno = saved;
    return ret;
}
static long failed(struct verdict v) { errno = v.arg; return tell(v, -1); }

#define STD(v, call) ({ long _r; \
    if ((v).action == FAIL) _r = failed(v); \
    else if ((v).action == FAILAFTER) { (void)(call); _r = failed(v); } \
    else { _r = tell(v, call); } _r; })

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char p[PATH_MAX];
    if (!below(dirfd, path, p) || (flags & O_DIRECTORY)) return syscall(SYS_openat, dirfd, path, flags, mode);
    struct verdict v = ask(K_OPEN, -1, 0, 0, flags, p, 0, 0, 0);
    if (v.action == FAIL) return failed(v);
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 1;
    return tell(v, fd);
}
static mode_t getmode(int flags, va_list ap) { return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; }
#define OPEN(name) int name(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); \
    mode_t m = getmode(flags, ap); va_end(ap); return do_open(AT_FDCWD, path, flags, m); }
#define OPENAT(name) int name(int d, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); \
    mode_t m = getmode(flags, ap); va_end(ap); return do_open(d, path, flags, m); }
OPEN(open) OPEN(open64) OPENAT(openat) OPENAT(openat64)
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int on(int fd) { return sock >= 0 && !inside && fd >= 0 && fd < MAXFD && tracked[fd]; }

int close(int fd) {
    if (!on(fd)) return syscall(SYS_close, fd);
    struct verdict v = ask(K_CLOSE, fd, 0, 0, 0, 0, 0, 0, 0);
    tracked[fd] = 0;
    long r = syscall(SYS_close, fd);   /* an error of close is reported after the descriptor is gone */
    if (v.action == FAIL) return failed(v);
    return tell(v, r);
}

static ssize_t do_read(int fd, void *b, size_t n, int64_t off) {
    int64_t o = off >= 0 ? off : syscall(SYS_lseek, fd, 0, SEEK_CUR);
    struct verdict v = ask(K_READ, fd, o, n, 0, 0, 0, 0, 0);
    if (v.action == FAIL) return failed(v);
    if (v.action == SHORT || v.action == SHORTKILL) n = (size_t)v.arg < n ? (size_t)v.arg : n;
    return tell(v, off >= 0 ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n));
}
ssize_t read(int fd, void *b, size_t n) { return on(fd) ? do_read(fd, b, n, -1) : syscall(SYS_read, fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return on(fd) ? do_read(fd, b, n, o) : syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }

static ssize_t do_write(int fd, const void *b, size_t n, int64_t off) {
    int64_t o = off;
    if (off < 0) {
        int fl = syscall(SYS_fcntl, fd, F_GETFL);
        struct stat st;
        if ((fl & O_APPEND) && !fstat(fd, &st)) o = st.st_size; else o = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    }
    struct verdict v = ask(K_WRITE, fd, o, n, 0, 0, 0, b, n);
    if (v.action == FAIL) return failed(v);
    if (v.action == SHORT || v.action == SHORTKILL) n = (size_t)v.arg < n ? (size_t)v.arg : n;
    if (v.action == SHORTKILL && n == 0) kill(getpid(), SIGKILL);
    return tell(v, off >= 0 ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n));
}
ssize_t write(int fd, const void *b, size_t n) { return on(fd) ? do_write(fd, b, n, -1) : syscall(SYS_write, fd, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return on(fd) ? do_write(fd, b, n, o) : syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!on(fd)) return syscall(SYS_writev, fd, v, c);
    return c > 0 ? do_write(fd, v[0].iov_base, v[0].iov_len, -1) : 0;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!on(fd)) return syscall(SYS_readv, fd, v, c);
    return c > 0 ? do_read(fd, v[0].iov_base, v[0].iov_len, -1) : 0;
}
/* callers fall back to read and write */
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (on(o) || on(i)) { errno = ENOSYS; return -1; }
    return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
    if (on(o) || on(i)) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, i, oi, o, oo, n, f);
}

int fsync(int fd) {
    if (!on(fd)) return syscall(SYS_fsync, fd);
    struct verdict v = ask(K_FSYNC, fd, 0, 0, 0, 0, 0, 0, 0);
    return STD(v, 0);      /* durability is modelled by the simulator, the real call would only cost time */
}
int fdatasync(int fd) { return on(fd) ? fsync(fd) : syscall(SYS_fdatasync, fd); }
void sync(void) {
    if (sock >= 0 && !inside) tell(ask(K_SYNC, -1, 0, 0, 0, 0, 0, 0, 0), 0);
    else syscall(SYS_sync);
}
int ftruncate64(int fd, off64_t n) {
    if (!on(fd)) return syscall(SYS_ftruncate, fd, n);
    struct verdict v = ask(K_TRUNC, fd, 0, n, 0, 0, 0, 0, 0);
    return STD(v, syscall(SYS_ftruncate, fd, n));
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *path, off64_t n) {
    char p[PATH_MAX];
    if (!below(AT_FDCWD, path, p)) return syscall(SYS_truncate, path, n);
    struct verdict v = ask(K_TRUNC, -1, 0, n, 0, p, 0, 0, 0);
    return STD(v, syscall(SYS_truncate, path, n));
}
int truncate(const char *path, off_t n) { return truncate64(path, n); }
int posix_fallocate64(int fd, off64_t o, off64_t n) {
    if (on(fd)) return EOPNOTSUPP;
    return syscall(SYS_fallocate, fd, 0, o, n) < 0 ? errno : 0;
}

static int do_rename(int da, const char *a, int db, const char *b, unsigned f) {
    char p[PATH_MAX], q[PATH_MAX];
    int x = below(da, a, p), y = below(db, b, q);
    if (!x && !y) return syscall(SYS_renameat2, da, a, db, b, f);
    struct verdict v = ask(K_RENAME, -1, 0, 0, f, p, q, 0, 0);
    return STD(v, syscall(SYS_renameat2, da, a, db, b, f));
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int da, const char *a, int db, const char *b) { return do_rename(da, a, db, b, 0); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { return do_rename(da, a, db, b, f); }

static int do_unlink(int d, const char *path, int f) {
    char p[PATH_MAX];
    if (!below(d, path, p)) return syscall(SYS_unlinkat, d, path, f);
    struct verdict v = ask(K_UNLINK, -1, 0, 0, f, p, 0, 0, 0);
    return STD(v, syscall(SYS_unlinkat, d, path, f));
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int remove(const char *p) {
    struct stat st;
    if (fstatat(AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW)) return -1;
    return do_unlink(AT_FDCWD, p, S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0);
}

int linkat(int da, const char *a, int db, const char *b, int f) {
    char p[PATH_MAX], q[PATH_MAX];
    int x = below(da, a, p), y = below(db, b, q);
    if (!x && !y) return syscall(SYS_linkat, da, a, db, b, f);
    struct verdict v = ask(K_LINK, -1, 0, 0, f, p, q, 0, 0);
    return STD(v, syscall(SYS_linkat, da, a, db, b, f));
}
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlinkat(const char *t, int d, const char *path) {
    char p[PATH_MAX];
    if (!below(d, path, p)) return syscall(SYS_symlinkat, t, d, path);
    struct verdict v = ask(K_SYMLINK, -1, 0, 0, 0, p, t, 0, 0);
    return STD(v, syscall(SYS_symlinkat, t, d, path));
}
int symlink(const char *t, const char *p) { return symlinkat(t, AT_FDCWD, p); }

int fchmodat(int d, const char *path, mode_t m, int f) {
    char p[PATH_MAX];
    REAL(int, fchmodat, int, const char *, mode_t, int);
    if (!below(d, path, p)) return real_fchmodat(d, path, m, f);
    struct verdict v = ask(K_CHMOD, -1, 0, 0, 0, p, 0, 0, 0);
    return STD(v, syscall(SYS_fchmodat, d, path, m));
}
int chmod(const char *p, mode_t m) { return fchmodat(AT_FDCWD, p, m, 0); }
int fchmod(int fd, mode_t m) {
    if (!on(fd)) return syscall(SYS_fchmod, fd, m);
    struct verdict v = ask(K_CHMOD, fd, 0, 0, 0, 0, 0, 0, 0);
    return STD(v, syscall(SYS_fchmod, fd, m));
}

/* queries of the file system: places where another process may come in between */
static void look(int d, const char *path) {
    char p[PATH_MAX];
    if (below(d, path, p)) tell(ask(K_STAT, -1, 0, 0, 0, p, 0, 0, 0), 0);
}
int stat64(const char *p, struct stat64 *b) { look(AT_FDCWD, p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
int stat(const char *p, struct stat *b) { look(AT_FDCWD, p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
int access(const char *p, int m) { look(AT_FDCWD, p); return syscall(SYS_faccessat, AT_FDCWD, p, m); }

int mkdirat(int d, const char *path, mode_t m) {
    char p[PATH_MAX];
    if (!below(d, path, p)) return syscall(SYS_mkdirat, d, path, m);
    struct verdict v = ask(K_MKDIR, -1, 0, 0, 0, p, 0, 0, 0);
    return STD(v, syscall(SYS_mkdirat, d, path, m));
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }

/* waiting for a lock is visible to the simulator */
int flock(int fd, int op) {
    if (!on(fd)) return syscall(SYS_flock, fd, op);
    for (;;) {
        struct verdict v = ask(K_LOCK, fd, 0, 0, op, 0, 0, 0, 0);
        if (v.action == FAIL) return failed(v);
        long r = syscall(SYS_flock, fd, op | LOCK_NB);
        if (r < 0 && errno == EWOULDBLOCK && !(op & LOCK_NB)) {
            tell(v, -1);
            tell(ask(K_WAIT, fd, 0, 0, 0, 0, 0, 0, 0), 0);
            continue;
        }
        return tell(v, r);
    }
}
static int do_fcntl(int fd, int cmd, void *arg) {
    if (on(fd) && (cmd == F_SETLKW || cmd == F_OFD_SETLKW)) {
        for (;;) {
            struct verdict v = ask(K_LOCK, fd, 0, 0, cmd, 0, 0, 0, 0);
            if (v.action == FAIL) return failed(v);
            long r = syscall(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg);
            if (r < 0 && (errno == EAGAIN || errno == EACCES)) {
                tell(v, -1);
                tell(ask(K_WAIT, fd, 0, 0, 0, 0, 0, 0, 0), 0);
                continue;
            }
            return tell(v, r);
        }
    }
    long r = syscall(SYS_fcntl, fd, cmd, arg);
    if (r >= 0 && r < MAXFD && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && on(fd)) tracked[r] = 1;
    return r;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
