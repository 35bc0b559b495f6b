/* LD_PRELOAD shim: counts, logs and disturbs the file operations of a child process.
 *
 * PBT_SHIM_LOG   file to append "n<TAB>op<TAB>path<TAB>result" lines to
 * PBT_SHIM_AT    number of the operation to disturb (from 1; 0: none)
 * PBT_SHIM_AT2, PBT_SHIM_MODE2  a second, later operation and what happens to it
 * PBT_SHIM_MODE  errno=N | sticky=N | eintr | short | partial=N | zero |
 *                kill_before | kill_mid | kill_after
 *                sticky: this and every later operation of the same kind on the same path fails
 *                partial: half is written (nothing if that is less than a byte), then every later write to that
 *                path fails
 *
 * Only operations on files below the working directory's parent, and writes to standard output,
 * are counted: the loader and the language runtime are left alone. Nothing here changes a file
 * other than as the program itself asked for.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 256
static char fdpath[NFD][256];
static char tracked[NFD];
static int log_fd = -1, at, err_no, inited;
static long count;
static char sticky_path[256], sticky_op[16];
enum what { NONE, ERRNO, STICKY, EINTR_, SHORT, PARTIAL, ZERO, KILL_BEFORE, KILL_MID, KILL_AFTER };
static enum what mode, mode2;
static int at2, err_no2, sticky_err;

static enum what mode_of(const char *s, int *err) {
    if (!strncmp(s, "errno=", 6)) return *err = atoi(s + 6), ERRNO;
    if (!strncmp(s, "sticky=", 7)) return *err = atoi(s + 7), STICKY;
    if (!strncmp(s, "partial=", 8)) return *err = atoi(s + 8), PARTIAL;
    if (!strcmp(s, "eintr")) return EINTR_;
    if (!strcmp(s, "short")) return SHORT;
    if (!strcmp(s, "zero")) return ZERO;
    if (!strcmp(s, "kill_before")) return KILL_BEFORE;
    if (!strcmp(s, "kill_mid")) return KILL_MID;
    if (!strcmp(s, "kill_after")) return KILL_AFTER;
    return NONE;
}

static void init(void) {
    if (inited) return;
    inited = 1;
    const char *s = getenv("PBT_SHIM_LOG");
    if (s && *s) {
        int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
        if (fd >= 0) {
            log_fd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 200);
            syscall(SYS_close, fd);
        }
    }
    if ((s = getenv("PBT_SHIM_AT"))) at = atoi(s);
    if ((s = getenv("PBT_SHIM_MODE"))) mode = mode_of(s, &err_no);
    if ((s = getenv("PBT_SHIM_AT2"))) at2 = atoi(s);
    if ((s = getenv("PBT_SHIM_MODE2"))) mode2 = mode_of(s, &err_no2);
    tracked[1] = 1;
    strcpy(fdpath[1], "<stdout>");
}

static void die(void) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) ;
}

static int interesting(const char *p) {
    static const char *skip[] = {"/proc", "/sys", "/dev", "/etc", "/usr", "/lib", "/root", "/home", 0};
    for (int i = 0; skip[i]; i++) {
        size_t n = strlen(skip[i]);
        if (!strncmp(p, skip[i], n) && (p[n] == 0 || p[n] == '/' || (n == 4 && p[1] == 'l'))) return 0;
    }
    return 1;
}

static void note(long n, const char *op, const char *path, long r) {
    if (log_fd < 0) return;
    char buf[512], esc[300];
    int k = 0;
    for (const char *c = path; *c && k < 290; c++) esc[k++] = (*c == '\n' || *c == '\t') ? '?' : *c;
    esc[k] = 0;
    int len = snprintf(buf, sizeof buf, "%ld\t%s\t%s\t%ld\n", n, op, esc, r);
    syscall(SYS_write, log_fd, buf, len);
}

/* what to do with this operation: 0 go on, 1 fail with errno set, else an enum above */
static long cur;
static int begin(const char *op, const char *path) {
    init();
    cur = ++count;
    if (at2 && cur > at) at = at2, mode = mode2, err_no = err_no2, at2 = 0;
    if (sticky_path[0] && !strcmp(sticky_path, path) && !strcmp(sticky_op, op)) {
        note(cur, op, path, -sticky_err);
        errno = sticky_err;
        return 1;
    }
    if (cur != at) return 0;
    switch (mode) {
    case STICKY:
        sticky_err = err_no;
        snprintf(sticky_path, sizeof sticky_path, "%s", path);
        snprintf(sticky_op, sizeof sticky_op, "%s", op);
        /* fall through */
    case ERRNO:
        note(cur, op, path, -err_no);
        errno = err_no;
        return 1;
    case EINTR_:
        note(cur, op, path, -EINTR);
        errno = EINTR;
        return 1;
    case PARTIAL:
        sticky_err = err_no;
        snprintf(sticky_path, sizeof sticky_path, "%s", path);
        snprintf(sticky_op, sizeof sticky_op, "%s", op);
        return PARTIAL + 10;
    case KILL_BEFORE:
        note(cur, op, path, -999);
        die();
        return 0;
    case SHORT: case ZERO: case KILL_MID: case KILL_AFTER:
        return mode + 10;
    default:
        return 0;
    }
}

static void end(int what, const char *op, const char *path, long r) {
    int e = errno;
    note(cur, op, path, r < 0 ? -e : r);
    if (what == KILL_AFTER + 10 || what == KILL_MID + 10) die();
    errno = e;
}

static const char *pathof(int fd) { return fd >= 0 && fd < NFD && tracked[fd] ? fdpath[fd] : 0; }

static void track(int fd, const char *p) {
    if (fd >= 3 && fd < NFD) {
        tracked[fd] = 1;
        snprintf(fdpath[fd], sizeof fdpath[fd], "%s", p);
    }
}

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

#define OPENER(name, ATPARM, ATARG)                                                  \
    int name(ATPARM const char *p, int flags, ...) {                                 \
        va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);  \
        init();                                                                      \
        if (!interesting(p)) return REAL(name)(ATARG p, flags, m);                   \
        const char *op = (flags & O_ACCMODE) == O_RDONLY ? "open_r"                  \
            : (flags & O_EXCL) ? "open_x" : "open_w";                                \
        int w = begin(op, p);                                                        \
        if (w == 1) return -1;                                                       \
        int r = REAL(name)(ATARG p, flags, m);                                       \
        if (r >= 0) track(r, p);                                                     \
        end(w, op, p, r);                                                            \
        return r;                                                                    \
    }
#define C ,
OPENER(open, , )
OPENER(open64, , )
OPENER(openat, int d C, d C)
OPENER(openat64, int d C, d C)

int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }

int close(int fd) {
    const char *p = pathof(fd);
    if (!p || fd < 3) return REAL(close)(fd);
    char path[256];
    strcpy(path, p);
    int w = begin("close", path), fault = errno;
    int r = REAL(close)(fd);
    tracked[fd] = 0;
    if (w == 1) return errno = fault, -1;
    end(w, "close", path, r);
    return r;
}

/* how much of a transfer of n bytes to let through */
static size_t part(int w, size_t n) {
    if (w == SHORT + 10 || w == PARTIAL + 10) return n > 1 ? n / 2 : n;
    if (w == KILL_MID + 10) return n / 2;
    if (w == ZERO + 10) return 0;
    return n;
}

#define XFER(name, op, BUFT, PARM, ARG)                                              \
    ssize_t name(int fd, BUFT buf, size_t n PARM) {                                  \
        init();                                                                      \
        const char *p = pathof(fd);                                                  \
        if (!p) return REAL(name)(fd, buf, n ARG);                                   \
        int w = begin(op, p);                                                        \
        if (w == 1) return -1;                                                       \
        if (w == PARTIAL + 10 && n <= 1) {                                           \
            errno = err_no;                                                          \
            return -1;                                                               \
        }                                                                            \
        size_t k = part(w, n);                                                       \
        ssize_t r = k || !n ? REAL(name)(fd, buf, k ARG) : 0;                        \
        end(w, op, p, r);                                                            \
        return r;                                                                    \
    }
XFER(read, "read", void *, , )
XFER(write, "write", const void *, , )
XFER(pread, "read", void *, C off_t o, C o)
XFER(pread64, "read", void *, C off64_t o, C o)
XFER(pwrite, "write", const void *, C off_t o, C o)
XFER(pwrite64, "write", const void *, C off64_t o, C o)

/* vectors: one part at a time is always allowed */
ssize_t writev(int fd, const struct iovec *v, int n) {
    init();
    if (!pathof(fd)) return REAL(writev)(fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    init();
    if (!pathof(fd)) return REAL(readv)(fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

/* make the runtime fall back on plain reads and writes */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
    (void)a; (void)b; (void)c; (void)d; (void)e; (void)f;
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile(int a, int b, off_t *c, size_t d) {
    (void)a; (void)b; (void)c; (void)d;
    errno = EINVAL;
    return -1;
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { return sendfile(a, b, c, d); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
    (void)a; (void)b; (void)c; (void)d; (void)e; (void)f;
    errno = EINVAL;
    return -1;
}

#define PATHOP(name, op, PARMS, ARGS, PATH)                                          \
    int name PARMS {                                                                 \
        init();                                                                      \
        if (!interesting(PATH)) return REAL(name) ARGS;                              \
        int w = begin(op, PATH);                                                     \
        if (w == 1) return -1;                                                       \
        int r = REAL(name) ARGS;                                                     \
        end(w, op, PATH, r);                                                         \
        return r;                                                                    \
    }
PATHOP(rename, "rename", (const char *a, const char *b), (a, b), a)
PATHOP(renameat, "rename", (int x, const char *a, int y, const char *b), (x, a, y, b), a)
PATHOP(renameat2, "rename", (int x, const char *a, int y, const char *b, unsigned f), (x, a, y, b, f), a)
PATHOP(link, "link", (const char *a, const char *b), (a, b), a)
PATHOP(linkat, "link", (int x, const char *a, int y, const char *b, int f), (x, a, y, b, f), a)
PATHOP(symlink, "link", (const char *a, const char *b), (a, b), b)
PATHOP(unlink, "unlink", (const char *a), (a), a)
PATHOP(unlinkat, "unlink", (int d, const char *a, int f), (d, a, f), a)
PATHOP(remove, "unlink", (const char *a), (a), a)
PATHOP(rmdir, "unlink", (const char *a), (a), a)
PATHOP(truncate, "truncate", (const char *a, off_t n), (a, n), a)
PATHOP(truncate64, "truncate", (const char *a, off64_t n), (a, n), a)
PATHOP(chmod, "chmod", (const char *a, mode_t m), (a, m), a)
PATHOP(mkdir, "mkdir", (const char *a, mode_t m), (a, m), a)
PATHOP(stat, "stat", (const char *a, struct stat *s), (a, s), a)
PATHOP(stat64, "stat", (const char *a, struct stat64 *s), (a, s), a)
PATHOP(lstat, "stat", (const char *a, struct stat *s), (a, s), a)
PATHOP(lstat64, "stat", (const char *a, struct stat64 *s), (a, s), a)
PATHOP(access, "stat", (const char *a, int m), (a, m), a)
PATHOP(faccessat, "stat", (int d, const char *a, int m, int f), (d, a, m, f), a)

static const char *stat_path(int fd, const char *a) {
    if (a && *a) return interesting(a) ? a : 0;
    return fd > 2 ? pathof(fd) : 0;
}
int statx(int fd, const char *restrict a, int fl, unsigned m, struct statx *restrict s) {
    init();
    const char *p = stat_path(fd, a);
    if (!p) return REAL(statx)(fd, a, fl, m, s);
    const char *op = a && *a ? "stat" : "fstat";
    int w = begin(op, p);
    if (w == 1) return -1;
    int r = REAL(statx)(fd, a, fl, m, s);
    end(w, op, p, r);
    return r;
}
int fstatat(int fd, const char *a, struct stat *s, int fl) {
    init();
    const char *p = stat_path(fd, a);
    if (!p) return REAL(fstatat)(fd, a, s, fl);
    int w = begin("stat", p);
    if (w == 1) return -1;
    int r = REAL(fstatat)(fd, a, s, fl);
    end(w, "stat", p, r);
    return r;
}
int fstatat64(int fd, const char *a, struct stat64 *s, int fl) {
    init();
    const char *p = stat_path(fd, a);
    if (!p) return REAL(fstatat64)(fd, a, s, fl);
    int w = begin("stat", p);
    if (w == 1) return -1;
    int r = REAL(fstatat64)(fd, a, s, fl);
    end(w, "stat", p, r);
    return r;
}

#define FDOP(name, op, PARMS, ARGS)                                                  \
    int name PARMS {                                                                 \
        init();                                                                      \
        const char *p = fd > 2 ? pathof(fd) : 0;                                     \
        if (!p) return REAL(name) ARGS;                                              \
        int w = begin(op, p);                                                        \
        if (w == 1) return -1;                                                       \
        int r = REAL(name) ARGS;                                                     \
        end(w, op, p, r);                                                            \
        return r;                                                                    \
    }
FDOP(ftruncate, "truncate", (int fd, off_t n), (fd, n))
FDOP(ftruncate64, "truncate", (int fd, off64_t n), (fd, n))
FDOP(fsync, "sync", (int fd), (fd))
FDOP(fdatasync, "sync", (int fd), (fd))
FDOP(fchmod, "chmod", (int fd, mode_t m), (fd, m))
FDOP(fstat, "fstat", (int fd, struct stat *s), (fd, s))
FDOP(fstat64, "fstat", (int fd, struct stat64 *s), (fd, s))
