/* simdisk: an LD_PRELOAD seam between the process and the disk.
 *
 * Every file operation on a path below a scratch root chosen by the simulator is
 * numbered, logged and submitted to a fault plan before it is (or is not)
 * carried out.  Everything outside the root passes straight through, and the
 * whole layer is inert until simdisk_enable() is called.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/sendfile.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE, OP_PWRITE, OP_TRUNC, OP_FSYNC, OP_CLOSE, OP_RENAME,
       OP_UNLINK, OP_READ, OP_FLOCK, OP_LINK };
enum { F_NONE = 0, F_ERR, F_SHORT, F_CRASH_BEFORE, F_CRASH_TORN, F_CRASH_AFTER,
       F_STICKY_ERR, F_EINTR, F_PAUSE };

#define MAXFD 4096
#define MAXPLAN 64
#define MAXLOG 65536

static char root[PATH_MAX];
static size_t rootlen;
static int enabled;
static unsigned char tracked[MAXFD];
static char fdpath[MAXFD][256];

static struct { int64_t at; int kind; int64_t arg; } plan[MAXPLAN];
static int nplan;
static int64_t seq;
static int sticky_errno;           /* every mutating op fails with it until healed */
static int64_t space_left = -1;    /* bytes that still fit on the disk, -1: no limit */
static int cwd_inside;             /* do relative paths lie below the root? */
static int count_reads;            /* are reads numbered (and so can fail)? */
static int64_t fired[16];
static int pause_out = -1, pause_in = -1;   /* where a paused process reports and waits */

static struct simlog { int32_t op, err; int64_t off, len, res; char path[96]; } logbuf[MAXLOG];
static int nlog;

void simdisk_root(const char *p) { strncpy(root, p, sizeof root - 1); rootlen = strlen(root); }
void simdisk_enable(int on) { enabled = on; }
void simdisk_reset(void) {
  nplan = 0; seq = 0; nlog = 0; sticky_errno = 0; space_left = -1; count_reads = 0;
  memset(fired, 0, sizeof fired);
}
void simdisk_plan(int64_t at, int kind, int64_t arg) {
  if (nplan < MAXPLAN) { plan[nplan].at = at; plan[nplan].kind = kind; plan[nplan].arg = arg; nplan++; }
}
void simdisk_pause(int out, int in) { pause_out = out; pause_in = in; }
void simdisk_space(int64_t n) { space_left = n; }
void simdisk_heal(void) { sticky_errno = 0; space_left = -1; nplan = 0; }
void simdisk_cwd(int on) { cwd_inside = on; }
void simdisk_reads(int on) { count_reads = on; }
int64_t simdisk_seq(void) { return seq; }
int64_t simdisk_fired(int kind) { return kind >= 0 && kind < 16 ? fired[kind] : 0; }
int simdisk_nlog(void) { return nlog; }
int simdisk_log(int i, int32_t *op, int32_t *err, int64_t *off, int64_t *len, int64_t *res, char *path) {
  if (i < 0 || i >= nlog) return -1;
  *op = logbuf[i].op; *err = logbuf[i].err; *off = logbuf[i].off; *len = logbuf[i].len;
  *res = logbuf[i].res; memcpy(path, logbuf[i].path, 96); return 0;
}

static int under_root(const char *p) {
  if (!enabled || !rootlen || !p) return 0;
  if (cwd_inside && p[0] && p[0] != '/') return 1;
  return strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0);
}
static int fd_tracked(int fd) { return enabled && fd >= 0 && fd < MAXFD && tracked[fd]; }
static const char *rel(const char *p) { return p[0] == '/' && under_root(p) ? p + rootlen : p; }

static void record(int op, const char *path, int64_t off, int64_t len, int64_t res, int err) {
  if (nlog >= MAXLOG) return;
  struct simlog *l = &logbuf[nlog++];
  l->op = op; l->err = err; l->off = off; l->len = len; l->res = res;
  strncpy(l->path, path ? rel(path) : "", sizeof l->path - 1); l->path[sizeof l->path - 1] = 0;
}

/* The fault (if any) for the next numbered operation. */
static int next_fault(int64_t *arg) {
  int64_t me = seq++;
  for (int i = 0; i < nplan; i++)
    if (plan[i].at == me) { *arg = plan[i].arg; return plan[i].kind; }
  return F_NONE;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

#define CRASH() _exit(77)

/* 0: carry on; 1: *res is the result (errno set) */
static int prelude(int op, const char *path, int64_t off, int64_t len, int64_t *res, int *kind, int64_t *arg) {
  *kind = next_fault(arg);
  if (*kind == F_PAUSE && pause_out >= 0) {      /* other processes run here */
    char c = 'p';
    fired[F_PAUSE]++;
    if (syscall(SYS_write, pause_out, &c, 1) != 1) CRASH();
    while (syscall(SYS_read, pause_in, &c, 1) < 0 && errno == EINTR) { }
    *kind = F_NONE;
  }
  if (*kind == F_CRASH_BEFORE) { fired[F_CRASH_BEFORE]++; CRASH(); }
  if (*kind == F_EINTR && (op == OP_WRITE || op == OP_PWRITE)) {
    fired[F_EINTR]++;
    record(op, path, off, len, -1, EINTR); errno = EINTR; *res = -1; return 1;
  }
  if (*kind == F_ERR || *kind == F_STICKY_ERR) {
    fired[*kind]++;
    if (*kind == F_STICKY_ERR) sticky_errno = (int)*arg;
    record(op, path, off, len, -1, (int)*arg);
    errno = (int)*arg; *res = -1; return 1;
  }
  if (sticky_errno && op != OP_CLOSE && op != OP_READ && op != OP_FLOCK) {
    fired[F_STICKY_ERR]++;
    record(op, path, off, len, -1, sticky_errno);
    errno = sticky_errno; *res = -1; return 1;
  }
  return 0;
}
static void postlude(int op, const char *path, int64_t off, int64_t len, int64_t res, int kind) {
  record(op, path, off, len, res, res < 0 ? errno : 0);
  if (kind == F_CRASH_AFTER) { fired[F_CRASH_AFTER]++; CRASH(); }
}

static int do_open(const char *path, int flags, mode_t mode, int fd) { (void)flags; (void)mode;
  if (fd >= 0 && fd < MAXFD) {
    tracked[fd] = 1;
    strncpy(fdpath[fd], path, sizeof fdpath[fd] - 1); fdpath[fd][sizeof fdpath[fd] - 1] = 0;
  }
  return fd;
}

#define OPEN_BODY(NAME, CALL)                                                      \
  mode_t mode = 0;                                                                 \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  if (!under_root(path)) { int fd = CALL; if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; return fd; } \
  int writes = (flags & O_ACCMODE) != O_RDONLY;                                    \
  if (!writes && !count_reads) { int fd = CALL; return do_open(path, flags, mode, fd); } \
  int64_t res, arg = 0; int kind;                                                  \
  if (prelude(OP_OPEN, path, 0, flags, &res, &kind, &arg)) return (int)res;        \
  int fd = CALL; int e = errno; do_open(path, flags, mode, fd); errno = e;         \
  postlude(OP_OPEN, path, 0, flags, fd < 0 ? -1 : 0, kind); errno = e; return fd;

int open(const char *path, int flags, ...) { REAL(int, "open", const char *, int, ...); OPEN_BODY("open", real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { REAL(int, "open64", const char *, int, ...); OPEN_BODY("open64", real(path, flags, mode)) }
int openat(int dfd, const char *path, int flags, ...) { REAL(int, "openat", int, const char *, int, ...); OPEN_BODY("openat", real(dfd, path, flags, mode)) }
int openat64(int dfd, const char *path, int flags, ...) { REAL(int, "openat64", int, const char *, int, ...); OPEN_BODY("openat64", real(dfd, path, flags, mode)) }

#define WRITE_BODY(OP, OFF, CALL_N)                                                \
  if (!fd_tracked(fd)) { size_t k = n; return CALL_N; }                            \
  int64_t res, arg = 0; int kind;                                                  \
  if (prelude(OP, fdpath[fd], OFF, n, &res, &kind, &arg)) return res;              \
  size_t k = n; int torn = 0;                                                      \
  if (kind == F_SHORT && n > 1) { k = 1 + (size_t)arg % (n - 1); fired[F_SHORT]++; } \
  if (kind == F_CRASH_TORN) { k = n ? (size_t)arg % n : 0; torn = 1; fired[F_CRASH_TORN]++; } \
  if (space_left >= 0 && (int64_t)k > space_left) k = space_left;                  \
  if (k == 0 && n && !torn) { record(OP, fdpath[fd], OFF, n, -1, ENOSPC); fired[10]++; errno = ENOSPC; return -1; } \
  ssize_t r = k ? CALL_N : 0;                                                      \
  if (torn) CRASH();                                                               \
  if (r > 0 && space_left >= 0) space_left -= r;                                   \
  int e = errno; postlude(OP, fdpath[fd], OFF, n, r, kind); errno = e; return r;

ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t); WRITE_BODY(OP_WRITE, -1, real(fd, b, k)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, "pwrite", int, const void *, size_t, off_t); WRITE_BODY(OP_PWRITE, o, real(fd, b, k, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); WRITE_BODY(OP_PWRITE, o, real(fd, b, k, o)) }

/* vectored and in-kernel copies count as one write each */
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, "writev", int, const struct iovec *, int);
  if (!fd_tracked(fd)) return real(fd, v, c);
  if (c < 1) return 0;
  return write(fd, v[0].iov_base, v[0].iov_len);
}
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { REAL(ssize_t, "sendfile", int, int, off_t *, size_t); WRITE_BODY(OP_WRITE, -1, real(fd, in, o, k)) }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) { REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t); WRITE_BODY(OP_WRITE, -1, real(fd, in, o, k)) }
ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned); WRITE_BODY(OP_WRITE, -1, real(in, oi, fd, oo, k, f)) }

#define SIMPLE_FD(OP, OFF, LEN, CALL)                                              \
  int64_t res, arg = 0; int kind;                                                  \
  if (prelude(OP, fdpath[fd], OFF, LEN, &res, &kind, &arg)) return (int)res;       \
  int r = CALL; int e = errno; postlude(OP, fdpath[fd], OFF, LEN, r, kind); errno = e; return r;

int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", int, off_t); if (!fd_tracked(fd)) return real(fd, n); SIMPLE_FD(OP_TRUNC, n, 0, real(fd, n)) }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); if (!fd_tracked(fd)) return real(fd, n); SIMPLE_FD(OP_TRUNC, n, 0, real(fd, n)) }
int fsync(int fd) { REAL(int, "fsync", int); if (!fd_tracked(fd)) return real(fd); SIMPLE_FD(OP_FSYNC, 0, 0, real(fd)) }
int fdatasync(int fd) { REAL(int, "fdatasync", int); if (!fd_tracked(fd)) return real(fd); SIMPLE_FD(OP_FSYNC, 0, 1, real(fd)) }

int close(int fd) {
  REAL(int, "close", int);
  if (fd >= 0 && fd < MAXFD && tracked[fd] && !enabled) tracked[fd] = 0;
  if (!fd_tracked(fd)) return real(fd);
  int64_t arg = 0; int kind = next_fault(&arg);
  if (kind == F_CRASH_BEFORE) { fired[kind]++; CRASH(); }
  tracked[fd] = 0;
  int r = real(fd), e = errno;             /* Linux: the descriptor is gone even when close() fails */
  if (kind == F_ERR) { fired[kind]++; record(OP_CLOSE, fdpath[fd], 0, 0, -1, (int)arg); errno = (int)arg; return -1; }
  errno = e; postlude(OP_CLOSE, fdpath[fd], 0, 0, r, kind); errno = e; return r;
}

int rename(const char *a, const char *b) {
  REAL(int, "rename", const char *, const char *);
  if (!under_root(a) && !under_root(b)) return real(a, b);
  int64_t res, arg = 0; int kind;
  if (prelude(OP_RENAME, b, 0, 0, &res, &kind, &arg)) return (int)res;
  int r = real(a, b), e = errno; postlude(OP_RENAME, b, 0, 0, r, kind); errno = e; return r;
}
int renameat(int d1, const char *a, int d2, const char *b) {
  REAL(int, "renameat", int, const char *, int, const char *);
  if (!under_root(a) && !under_root(b)) return real(d1, a, d2, b);
  int64_t res, arg = 0; int kind;
  if (prelude(OP_RENAME, b, 0, 0, &res, &kind, &arg)) return (int)res;
  int r = real(d1, a, d2, b), e = errno; postlude(OP_RENAME, b, 0, 0, r, kind); errno = e; return r;
}
int unlink(const char *a) {
  REAL(int, "unlink", const char *);
  if (!under_root(a)) return real(a);
  int64_t res, arg = 0; int kind;
  if (prelude(OP_UNLINK, a, 0, 0, &res, &kind, &arg)) return (int)res;
  int r = real(a), e = errno; postlude(OP_UNLINK, a, 0, 0, r, kind); errno = e; return r;
}
int unlinkat(int d, const char *a, int f) {
  REAL(int, "unlinkat", int, const char *, int);
  if (!under_root(a)) return real(d, a, f);
  int64_t res, arg = 0; int kind;
  if (prelude(OP_UNLINK, a, 0, 0, &res, &kind, &arg)) return (int)res;
  int r = real(d, a, f), e = errno; postlude(OP_UNLINK, a, 0, 0, r, kind); errno = e; return r;
}
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) {
  REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
  if (!under_root(a) && !under_root(b)) return real(d1, a, d2, b, f);
  int64_t res, arg = 0; int kind;
  if (prelude(OP_RENAME, b, 0, 0, &res, &kind, &arg)) return (int)res;
  int r = real(d1, a, d2, b, f), e = errno; postlude(OP_RENAME, b, 0, 0, r, kind); errno = e; return r;
}
int remove(const char *a) {
  REAL(int, "remove", const char *);
  if (!under_root(a)) return real(a);
  int64_t res, arg = 0; int kind;
  if (prelude(OP_UNLINK, a, 0, 0, &res, &kind, &arg)) return (int)res;
  int r = real(a), e = errno; postlude(OP_UNLINK, a, 0, 0, r, kind); errno = e; return r;
}
int truncate(const char *a, off_t n) {
  REAL(int, "truncate", const char *, off_t);
  if (!under_root(a)) return real(a, n);
  int64_t res, arg = 0; int kind;
  if (prelude(OP_TRUNC, a, n, 0, &res, &kind, &arg)) return (int)res;
  int r = real(a, n), e = errno; postlude(OP_TRUNC, a, n, 0, r, kind); errno = e; return r;
}
int link(const char *a, const char *b) {
  REAL(int, "link", const char *, const char *);
  if (!under_root(a) && !under_root(b)) return real(a, b);
  int64_t res, arg = 0; int kind;
  if (prelude(OP_LINK, b, 0, 0, &res, &kind, &arg)) return (int)res;
  int r = real(a, b), e = errno; postlude(OP_LINK, b, 0, 0, r, kind); errno = e; return r;
}
int flock(int fd, int how) {
  REAL(int, "flock", int, int);
  if (!fd_tracked(fd) || (how & LOCK_SH) || (how & LOCK_UN)) return real(fd, how);
  SIMPLE_FD(OP_FLOCK, 0, how, real(fd, how))
}
#define READ_BODY(OFF, CALL_N)                                                     \
  if (!fd_tracked(fd) || !count_reads) { size_t k = n; return CALL_N; }            \
  int64_t res, arg = 0; int kind;                                                  \
  if (prelude(OP_READ, fdpath[fd], OFF, n, &res, &kind, &arg)) return res;         \
  size_t k = n; if (kind == F_SHORT && n > 1) { k = 1 + (size_t)arg % (n - 1); fired[F_SHORT]++; } \
  ssize_t r = CALL_N; int e = errno; postlude(OP_READ, fdpath[fd], OFF, n, r, kind); errno = e; return r;
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, "read", int, void *, size_t); READ_BODY(-1, real(fd, b, k)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, "pread", int, void *, size_t, off_t); READ_BODY(o, real(fd, b, k, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, "pread64", int, void *, size_t, off64_t); READ_BODY(o, real(fd, b, k, o)) }
