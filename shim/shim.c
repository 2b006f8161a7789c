// LD_PRELOAD shim: the seam between the real, unmodified bulloak binary and
// the simulator.  Every libc call the program makes that touches files,
// standard streams, randomness, clocks or process identity becomes a message
// to the simulator, which answers from its virtual world.  The shim also turns
// the process into a fork server, so one exec serves thousands of runs.
//
// Nothing virtual ever reaches the real file system: virtual descriptors live
// far above real ones, paths outside a small read-only whitelist are only ever
// sent to the simulator, and a seccomp filter refuses real mutating calls.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <linux/audit.h>

#define EXPORT __attribute__((visibility("default")))

// ---- raw system calls (never interposed) --------------------------------
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) \
  raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret_errno(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

// ---- protocol -------------------------------------------------------------
enum {
  OP_OPEN = 1, OP_READ, OP_PREAD, OP_WRITE, OP_PWRITE, OP_CLOSE, OP_LSEEK,
  OP_STAT, OP_LSTAT, OP_FSTAT, OP_ACCESS, OP_FSYNC, OP_FDATASYNC, OP_RENAME,
  OP_LINK, OP_SYMLINK, OP_UNLINK, OP_RMDIR, OP_MKDIR, OP_READLINK,
  OP_REALPATH, OP_GETCWD, OP_CHDIR, OP_CHMOD, OP_FCHMOD, OP_UTIMES,
  OP_FUTIMES, OP_TRUNCATE, OP_FTRUNCATE, OP_READDIR, OP_DUP, OP_CLOCK,
  OP_SLEEP, OP_FLOCK, OP_SYNC, OP_CHOWN, OP_MISC
};

#define MAXDATA 61440
struct req {
  uint32_t op;
  uint32_t len1, len2;
  uint32_t pad;
  int64_t a[4];
  char data[MAXDATA + 4096 * 2];
};
struct rsp {
  int64_t ret;
  int32_t err;
  uint32_t len;
  int64_t x[6];
  char data[MAXDATA + 4096 * 2];
};
#define REQ_HDR offsetof(struct req, data)
#define RSP_HDR offsetof(struct rsp, data)

#define VBASE 0x40000000
#define CH_FD 900

static int active = 0;
static uint64_t g_seed;
static int g_pid = 4242;
static struct req g_req;
static struct rsp g_rsp;
static pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER;

static void die(int code) {
  RAW(SYS_exit_group, code);
  __builtin_unreachable();
}

// Send g_req, wait for g_rsp.  Caller holds g_mu.
static int64_t call_locked(void) {
  size_t n = REQ_HDR + g_req.len1 + g_req.len2;
  for (;;) {
    long r = RAW(SYS_sendto, CH_FD, &g_req, n, MSG_NOSIGNAL, 0, 0);
    if (r == -EINTR) continue;
    if (r != (long)n) die(125);
    break;
  }
  for (;;) {
    long r = RAW(SYS_recvfrom, CH_FD, &g_rsp, sizeof g_rsp, 0, 0, 0);
    if (r == -EINTR) continue;
    if (r < (long)RSP_HDR) die(125);
    break;
  }
  if (g_rsp.ret < 0) errno = g_rsp.err;
  return g_rsp.ret;
}
static void rq(uint32_t op, int64_t a0, int64_t a1, int64_t a2, int64_t a3) {
  g_req.op = op;
  g_req.len1 = g_req.len2 = g_req.pad = 0;
  g_req.a[0] = a0;
  g_req.a[1] = a1;
  g_req.a[2] = a2;
  g_req.a[3] = a3;
}
static int rq_path1(const char *p) {
  size_t n = strlen(p);
  if (n > 4095) {
    errno = ENAMETOOLONG;
    return -1;
  }
  memcpy(g_req.data, p, n);
  g_req.len1 = n;
  return 0;
}
static int rq_path2(const char *p) {
  size_t n = strlen(p);
  if (n > 4095) {
    errno = ENAMETOOLONG;
    return -1;
  }
  memcpy(g_req.data + g_req.len1, p, n);
  g_req.len2 = n;
  return 0;
}
static int64_t simple(uint32_t op, int64_t a0, int64_t a1, int64_t a2, int64_t a3) {
  pthread_mutex_lock(&g_mu);
  rq(op, a0, a1, a2, a3);
  int64_t r = call_locked();
  pthread_mutex_unlock(&g_mu);
  return r;
}
static int64_t path_call(uint32_t op, const char *p, int64_t a0, int64_t a1, int64_t a2) {
  if (!p) {
    errno = EFAULT;
    return -1;
  }
  pthread_mutex_lock(&g_mu);
  rq(op, a0, a1, a2, 0);
  int64_t r = rq_path1(p);
  if (r == 0) r = call_locked();
  pthread_mutex_unlock(&g_mu);
  return r;
}
static int64_t path2_call(uint32_t op, const char *p, const char *q, int64_t a0, int64_t a1, int64_t a2) {
  if (!p || !q) {
    errno = EFAULT;
    return -1;
  }
  pthread_mutex_lock(&g_mu);
  rq(op, a0, a1, a2, 0);
  int64_t r = rq_path1(p);
  if (r == 0) r = rq_path2(q);
  if (r == 0) r = call_locked();
  pthread_mutex_unlock(&g_mu);
  return r;
}

static int virt_fd(int fd) { return active && (fd >= VBASE || (fd >= 0 && fd <= 2)); }
static int real_path(const char *p) {
  static const char *wl[] = {"/proc/", "/sys/", "/dev/", "/etc/", "/usr/", "/lib/", "/lib64/", "/opt/veriftools/", 0};
  if (!active) return 1;
  if (!p) return 0;
  for (int i = 0; wl[i]; i++)
    if (strncmp(p, wl[i], strlen(wl[i])) == 0) return 1;
  return 0;
}

// ---- open / close -----------------------------------------------------------
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  if (real_path(path) || (active && dirfd != AT_FDCWD && !virt_fd(dirfd) && path && path[0] != '/')) {
    if (active) flags &= ~(O_CREAT | O_TRUNC);  // the real file system is read-only
    if (active && (flags & O_ACCMODE) != O_RDONLY && path && strcmp(path, "/dev/null")) {
      errno = EROFS;
      return -1;
    }
    return (int)ret_errno(RAW(SYS_openat, dirfd, path, flags, mode));
  }
  return (int)path_call(OP_OPEN, path, dirfd, flags, mode);
}
#define VA_MODE(flags)                                   \
  mode_t mode = 0;                                       \
  if ((flags) & (O_CREAT | __O_TMPFILE)) {               \
    va_list ap;                                          \
    va_start(ap, flags);                                 \
    mode = va_arg(ap, int);                              \
    va_end(ap);                                          \
  }
EXPORT int open(const char *p, int flags, ...) { VA_MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { VA_MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int openat(int d, const char *p, int flags, ...) { VA_MODE(flags) return do_open(d, p, flags, mode); }
EXPORT int openat64(int d, const char *p, int flags, ...) { VA_MODE(flags) return do_open(d, p, flags, mode); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int close(int fd) {
  if (virt_fd(fd)) return (int)simple(OP_CLOSE, fd, 0, 0, 0);
  if (active && fd == CH_FD) return 0;
  return (int)ret_errno(RAW(SYS_close, fd));
}

// ---- data ----------------------------------------------------------------------
static ssize_t v_read(uint32_t op, int fd, void *buf, size_t n, off_t off) {
  if (n > MAXDATA) n = MAXDATA;
  pthread_mutex_lock(&g_mu);
  rq(op, fd, (int64_t)n, off, 0);
  ssize_t r = call_locked();
  if (r > 0) memcpy(buf, g_rsp.data, r);
  pthread_mutex_unlock(&g_mu);
  return r;
}
static ssize_t v_write(uint32_t op, int fd, const void *buf, size_t n, off_t off) {
  if (n > MAXDATA) n = MAXDATA;
  pthread_mutex_lock(&g_mu);
  rq(op, fd, (int64_t)n, off, 0);
  memcpy(g_req.data, buf, n);
  g_req.len1 = n;
  ssize_t r = call_locked();
  pthread_mutex_unlock(&g_mu);
  return r;
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  return virt_fd(fd) ? v_read(OP_READ, fd, b, n, 0) : ret_errno(RAW(SYS_read, fd, b, n));
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) {
  return virt_fd(fd) ? v_read(OP_PREAD, fd, b, n, o) : ret_errno(RAW(SYS_pread64, fd, b, n, o));
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  return virt_fd(fd) ? v_write(OP_WRITE, fd, b, n, 0) : ret_errno(RAW(SYS_write, fd, b, n));
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  return virt_fd(fd) ? v_write(OP_PWRITE, fd, b, n, o) : ret_errno(RAW(SYS_pwrite64, fd, b, n, o));
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *iov, int cnt) {
  if (!virt_fd(fd)) return ret_errno(RAW(SYS_readv, fd, iov, cnt));
  for (int i = 0; i < cnt; i++)
    if (iov[i].iov_len) return v_read(OP_READ, fd, iov[i].iov_base, iov[i].iov_len, 0);
  return 0;
}
EXPORT ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  if (!virt_fd(fd)) return ret_errno(RAW(SYS_writev, fd, iov, cnt));
  pthread_mutex_lock(&g_mu);
  size_t tot = 0;
  rq(OP_WRITE, fd, 0, 0, 0);
  for (int i = 0; i < cnt && tot < MAXDATA; i++) {
    size_t k = iov[i].iov_len;
    if (k > MAXDATA - tot) k = MAXDATA - tot;
    memcpy(g_req.data + tot, iov[i].iov_base, k);
    tot += k;
  }
  g_req.len1 = tot;
  g_req.a[1] = tot;
  ssize_t r = call_locked();
  pthread_mutex_unlock(&g_mu);
  return r;
}
EXPORT ssize_t preadv(int fd, const struct iovec *iov, int cnt, off_t o) {
  if (!virt_fd(fd)) return ret_errno(RAW(SYS_preadv, fd, iov, cnt, o));
  for (int i = 0; i < cnt; i++)
    if (iov[i].iov_len) return v_read(OP_PREAD, fd, iov[i].iov_base, iov[i].iov_len, o);
  return 0;
}
EXPORT ssize_t preadv64(int fd, const struct iovec *iov, int cnt, off_t o) { return preadv(fd, iov, cnt, o); }
EXPORT ssize_t pwritev(int fd, const struct iovec *iov, int cnt, off_t o) {
  if (!virt_fd(fd)) return ret_errno(RAW(SYS_pwritev, fd, iov, cnt, o));
  for (int i = 0; i < cnt; i++)
    if (iov[i].iov_len) return v_write(OP_PWRITE, fd, iov[i].iov_base, iov[i].iov_len, o);
  return 0;
}
EXPORT ssize_t pwritev64(int fd, const struct iovec *iov, int cnt, off_t o) { return pwritev(fd, iov, cnt, o); }
EXPORT off_t lseek(int fd, off_t o, int w) {
  return virt_fd(fd) ? simple(OP_LSEEK, fd, o, w, 0) : ret_errno(RAW(SYS_lseek, fd, o, w));
}
EXPORT off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
EXPORT int fsync(int fd) { return virt_fd(fd) ? (int)simple(OP_FSYNC, fd, 0, 0, 0) : (int)ret_errno(RAW(SYS_fsync, fd)); }
EXPORT int fdatasync(int fd) { return virt_fd(fd) ? (int)simple(OP_FDATASYNC, fd, 0, 0, 0) : (int)ret_errno(RAW(SYS_fdatasync, fd)); }
EXPORT int syncfs(int fd) { return virt_fd(fd) ? (int)simple(OP_SYNC, 0, 0, 0, 0) : 0; }
EXPORT void sync(void) { if (active) simple(OP_SYNC, 0, 0, 0, 0); }
EXPORT int ftruncate(int fd, off_t l) { return virt_fd(fd) ? (int)simple(OP_FTRUNCATE, fd, l, 0, 0) : (int)ret_errno(RAW(SYS_ftruncate, fd, l)); }
EXPORT int ftruncate64(int fd, off_t l) { return ftruncate(fd, l); }
EXPORT int truncate(const char *p, off_t l) { return active ? (int)path_call(OP_TRUNCATE, p, l, 0, 0) : (int)ret_errno(RAW(SYS_truncate, p, l)); }
EXPORT int truncate64(const char *p, off_t l) { return truncate(p, l); }
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  if (virt_fd(a) || virt_fd(c)) { errno = ENOSYS; return -1; }
  return ret_errno(RAW(SYS_copy_file_range, a, b, c, d, n, f));
}
EXPORT ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  if (virt_fd(o) || virt_fd(i)) { errno = EINVAL; return -1; }
  return ret_errno(RAW(SYS_sendfile, o, i, off, n));
}
EXPORT ssize_t sendfile64(int o, int i, off_t *off, size_t n) { return sendfile(o, i, off, n); }
EXPORT ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  if (virt_fd(a) || virt_fd(c)) { errno = EINVAL; return -1; }
  return ret_errno(RAW(SYS_splice, a, b, c, d, n, f));
}
EXPORT int fallocate(int fd, int m, off_t o, off_t l) { (void)fd; (void)m; (void)o; (void)l; errno = EOPNOTSUPP; return -1; }
EXPORT int fallocate64(int fd, int m, off_t o, off_t l) { return fallocate(fd, m, o, l); }
EXPORT int posix_fallocate(int fd, off_t o, off_t l) { (void)fd; (void)o; (void)l; return EOPNOTSUPP; }
EXPORT int posix_fallocate64(int fd, off_t o, off_t l) { (void)fd; (void)o; (void)l; return EOPNOTSUPP; }
EXPORT int posix_fadvise(int fd, off_t o, off_t l, int a) { (void)fd; (void)o; (void)l; (void)a; return 0; }
EXPORT int posix_fadvise64(int fd, off_t o, off_t l, int a) { (void)fd; (void)o; (void)l; (void)a; return 0; }

// ---- metadata --------------------------------------------------------------------
// x: mode, size, ino, nlink, mtime_ns, kind
static void fill_stat(struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = g_rsp.x[0];
  st->st_size = g_rsp.x[1];
  st->st_ino = g_rsp.x[2];
  st->st_nlink = g_rsp.x[3];
  st->st_dev = 77 + g_rsp.x[5];
  st->st_blksize = 4096;
  st->st_blocks = (g_rsp.x[1] + 511) / 512;
  st->st_mtim.tv_sec = g_rsp.x[4] / 1000000000;
  st->st_mtim.tv_nsec = g_rsp.x[4] % 1000000000;
  st->st_ctim = st->st_atim = st->st_mtim;
}
static int v_stat(int dirfd, const char *p, int flags, struct stat *st) {
  pthread_mutex_lock(&g_mu);
  int64_t r;
  if ((flags & AT_EMPTY_PATH) && p && !*p) {
    rq(OP_FSTAT, dirfd, 0, 0, 0);
    r = call_locked();
  } else {
    rq((flags & AT_SYMLINK_NOFOLLOW) ? OP_LSTAT : OP_STAT, dirfd, 0, 0, 0);
    r = rq_path1(p);
    if (r == 0) r = call_locked();
  }
  if (r == 0) fill_stat(st);
  pthread_mutex_unlock(&g_mu);
  return (int)r;
}
static int do_fstatat(int d, const char *p, struct stat *st, int flags) {
  if (!p) { errno = EFAULT; return -1; }
  if (!active || (p[0] && real_path(p)) || (!p[0] && !virt_fd(d)) || (d != AT_FDCWD && !virt_fd(d) && p[0] != '/'))
    return (int)ret_errno(RAW(SYS_newfstatat, d, p, st, flags));
  return v_stat(d, p, flags, st);
}
EXPORT int stat(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, 0); }
EXPORT int stat64(const char *p, struct stat64 *st) { return do_fstatat(AT_FDCWD, p, (struct stat *)st, 0); }
EXPORT int lstat(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return do_fstatat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstat(int fd, struct stat *st) { return do_fstatat(fd, "", st, AT_EMPTY_PATH); }
EXPORT int fstat64(int fd, struct stat64 *st) { return do_fstatat(fd, "", (struct stat *)st, AT_EMPTY_PATH); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int f) { return do_fstatat(d, p, st, f); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int f) { return do_fstatat(d, p, (struct stat *)st, f); }
static int do_statx(int d, const char *p, int flags, unsigned mask, struct statx *sx) {
  if (!active) return (int)ret_errno(RAW(SYS_statx, d, p, flags, mask, sx));
  if (!p || !sx) { errno = EFAULT; return -1; }
  if ((p[0] && real_path(p)) || (!p[0] && !virt_fd(d))) return (int)ret_errno(RAW(SYS_statx, d, p, flags, mask, sx));
  struct stat st;
  int r = v_stat(d, p, flags, &st);
  if (r) return r;
  memset(sx, 0, sizeof *sx);
  sx->stx_mask = STATX_BASIC_STATS;
  sx->stx_blksize = 4096;
  sx->stx_nlink = st.st_nlink;
  sx->stx_mode = st.st_mode;
  sx->stx_ino = st.st_ino;
  sx->stx_size = st.st_size;
  sx->stx_blocks = st.st_blocks;
  sx->stx_mtime.tv_sec = st.st_mtim.tv_sec;
  sx->stx_mtime.tv_nsec = st.st_mtim.tv_nsec;
  sx->stx_atime = sx->stx_ctime = sx->stx_mtime;
  sx->stx_dev_minor = 77;
  return 0;
}
EXPORT int statx(int d, const char *restrict p, int flags, unsigned mask, struct statx *restrict sx) { return do_statx(d, p, flags, mask, sx); }
static int do_access(int d, const char *p, int m) {
  if (!p) { errno = EFAULT; return -1; }
  if (real_path(p)) return (int)ret_errno(RAW(SYS_faccessat, d, p, m));
  return (int)path_call(OP_ACCESS, p, d, m, 0);
}
EXPORT int access(const char *p, int m) { return do_access(AT_FDCWD, p, m); }
EXPORT int euidaccess(const char *p, int m) { return do_access(AT_FDCWD, p, m); }
EXPORT int eaccess(const char *p, int m) { return do_access(AT_FDCWD, p, m); }
EXPORT int faccessat(int d, const char *p, int m, int f) { (void)f; return do_access(d, p, m); }

EXPORT int rename(const char *a, const char *b) { return active ? (int)path2_call(OP_RENAME, a, b, 0, AT_FDCWD, AT_FDCWD) : (int)ret_errno(RAW(SYS_rename, a, b)); }
EXPORT int renameat(int d, const char *a, int e, const char *b) { return active ? (int)path2_call(OP_RENAME, a, b, 0, d, e) : (int)ret_errno(RAW(SYS_renameat, d, a, e, b)); }
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned f) { return active ? (int)path2_call(OP_RENAME, a, b, f, d, e) : (int)ret_errno(RAW(SYS_renameat2, d, a, e, b, f)); }
EXPORT int link(const char *a, const char *b) { return active ? (int)path2_call(OP_LINK, a, b, 0, AT_FDCWD, AT_FDCWD) : (int)ret_errno(RAW(SYS_link, a, b)); }
EXPORT int linkat(int d, const char *a, int e, const char *b, int f) { return active ? (int)path2_call(OP_LINK, a, b, f, d, e) : (int)ret_errno(RAW(SYS_linkat, d, a, e, b, f)); }
EXPORT int symlink(const char *a, const char *b) { return active ? (int)path2_call(OP_SYMLINK, a, b, 0, AT_FDCWD, AT_FDCWD) : (int)ret_errno(RAW(SYS_symlink, a, b)); }
EXPORT int symlinkat(const char *a, int d, const char *b) { return active ? (int)path2_call(OP_SYMLINK, a, b, 0, AT_FDCWD, d) : (int)ret_errno(RAW(SYS_symlinkat, a, d, b)); }
EXPORT int unlink(const char *a) { return active ? (int)path_call(OP_UNLINK, a, AT_FDCWD, 0, 0) : (int)ret_errno(RAW(SYS_unlink, a)); }
EXPORT int unlinkat(int d, const char *a, int f) {
  if (!active) return (int)ret_errno(RAW(SYS_unlinkat, d, a, f));
  return (int)path_call((f & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, a, d, 0, 0);
}
EXPORT int remove(const char *a) {
  if (!active) return (int)ret_errno(RAW(SYS_unlink, a));
  return (int)path_call(OP_UNLINK, a, AT_FDCWD, 0, 0);
}
EXPORT int rmdir(const char *a) { return active ? (int)path_call(OP_RMDIR, a, AT_FDCWD, 0, 0) : (int)ret_errno(RAW(SYS_rmdir, a)); }
EXPORT int mkdir(const char *a, mode_t m) { return active ? (int)path_call(OP_MKDIR, a, AT_FDCWD, m, 0) : (int)ret_errno(RAW(SYS_mkdir, a, m)); }
EXPORT int mkdirat(int d, const char *a, mode_t m) { return active ? (int)path_call(OP_MKDIR, a, d, m, 0) : (int)ret_errno(RAW(SYS_mkdirat, d, a, m)); }
static ssize_t do_readlink(int d, const char *p, char *b, size_t n) {
  if (!p) { errno = EFAULT; return -1; }
  if (real_path(p)) return ret_errno(RAW(SYS_readlinkat, d, p, b, n));
  pthread_mutex_lock(&g_mu);
  rq(OP_READLINK, d, n, 0, 0);
  ssize_t r = rq_path1(p);
  if (r == 0) r = call_locked();
  if (r >= 0) {
    size_t k = g_rsp.len < n ? g_rsp.len : n;
    memcpy(b, g_rsp.data, k);
    r = k;
  }
  pthread_mutex_unlock(&g_mu);
  return r;
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { return do_readlink(AT_FDCWD, p, b, n); }
EXPORT ssize_t readlinkat(int d, const char *p, char *b, size_t n) { return do_readlink(d, p, b, n); }
EXPORT char *realpath(const char *p, char *out) {
  if (!p) { errno = EINVAL; return 0; }
  if (!active || real_path(p)) {
    if (!out) out = malloc(4096);
    if (out) { strncpy(out, p, 4095); out[4095] = 0; }
    return out;
  }
  pthread_mutex_lock(&g_mu);
  rq(OP_REALPATH, 0, 0, 0, 0);
  int64_t r = rq_path1(p);
  if (r == 0) r = call_locked();
  char *res = 0;
  if (r >= 0) {
    if (!out) out = malloc(4096);
    res = out;
    if (res) {
      uint32_t k = g_rsp.len > 4095 ? 4095 : g_rsp.len;
      memcpy(res, g_rsp.data, k);
      res[k] = 0;
    }
  }
  pthread_mutex_unlock(&g_mu);
  return res;
}
EXPORT char *canonicalize_file_name(const char *p) { return realpath(p, 0); }
EXPORT char *getcwd(char *b, size_t n) {
  if (!active) {
    if (!b) { if (!n) n = 4096; b = malloc(n); }
    long r = RAW(SYS_getcwd, b, n);
    return ret_errno(r) < 0 ? 0 : b;
  }
  pthread_mutex_lock(&g_mu);
  rq(OP_GETCWD, 0, 0, 0, 0);
  int64_t r = call_locked();
  char *res = 0;
  if (r >= 0) {
    if (!b) { if (!n) n = 4096; b = malloc(n); }
    if (g_rsp.len + 1 > n) errno = ERANGE;
    else { memcpy(b, g_rsp.data, g_rsp.len); b[g_rsp.len] = 0; res = b; }
  }
  pthread_mutex_unlock(&g_mu);
  return res;
}
EXPORT int chdir(const char *p) { return active ? (int)path_call(OP_CHDIR, p, 0, 0, 0) : (int)ret_errno(RAW(SYS_chdir, p)); }
EXPORT int fchdir(int fd) { (void)fd; errno = ENOSYS; return -1; }
EXPORT int chmod(const char *p, mode_t m) { return active ? (int)path_call(OP_CHMOD, p, AT_FDCWD, m, 0) : (int)ret_errno(RAW(SYS_chmod, p, m)); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; return active ? (int)path_call(OP_CHMOD, p, d, m, 0) : (int)ret_errno(RAW(SYS_fchmodat, d, p, m)); }
EXPORT int fchmod(int fd, mode_t m) { return virt_fd(fd) ? (int)simple(OP_FCHMOD, fd, m, 0, 0) : (int)ret_errno(RAW(SYS_fchmod, fd, m)); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { (void)u; (void)g; return (int)path_call(OP_CHOWN, p, AT_FDCWD, 0, 0); }
EXPORT int lchown(const char *p, uid_t u, gid_t g) { (void)u; (void)g; return (int)path_call(OP_CHOWN, p, AT_FDCWD, 0, 0); }
EXPORT int fchown(int fd, uid_t u, gid_t g) { (void)fd; (void)u; (void)g; return 0; }
EXPORT int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { (void)u; (void)g; (void)f; return (int)path_call(OP_CHOWN, p, d, 0, 0); }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int f) {
  (void)t; (void)f;
  if (!p) return (int)simple(OP_FUTIMES, d, 0, 0, 0);
  return (int)path_call(OP_UTIMES, p, d, 0, 0);
}
EXPORT int futimens(int fd, const struct timespec t[2]) { (void)t; return (int)simple(OP_FUTIMES, fd, 0, 0, 0); }
EXPORT int utimes(const char *p, const struct timeval t[2]) { (void)t; return (int)path_call(OP_UTIMES, p, AT_FDCWD, 0, 0); }
EXPORT int flock(int fd, int op) { return virt_fd(fd) ? (int)simple(OP_FLOCK, fd, op, 0, 0) : (int)ret_errno(RAW(SYS_flock, fd, op)); }

// ---- directories -----------------------------------------------------------------
struct vdir { int fd; size_t pos, len; char *buf; struct dirent64 de; };
EXPORT DIR *opendir(const char *p) {
  int fd = do_open(AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
  if (fd < 0) return 0;
  return fdopendir(fd);
}
EXPORT DIR *fdopendir(int fd) {
  struct vdir *d = calloc(1, sizeof *d);
  d->fd = fd;
  if (!virt_fd(fd)) return (DIR *)d;  // real directories read as empty
  pthread_mutex_lock(&g_mu);
  rq(OP_READDIR, fd, 0, 0, 0);
  int64_t r = call_locked();
  if (r >= 0) {
    d->buf = malloc(g_rsp.len + 1);
    memcpy(d->buf, g_rsp.data, g_rsp.len);
    d->len = g_rsp.len;
  }
  pthread_mutex_unlock(&g_mu);
  if (r < 0) { free(d); return 0; }
  return (DIR *)d;
}
// entries: kind byte, name, NUL
EXPORT struct dirent64 *readdir64(DIR *dd) {
  struct vdir *d = (struct vdir *)dd;
  if (d->pos >= d->len) return 0;
  memset(&d->de, 0, sizeof d->de);
  d->de.d_type = d->buf[d->pos++];
  size_t n = strlen(d->buf + d->pos);
  memcpy(d->de.d_name, d->buf + d->pos, n < 255 ? n : 255);
  d->de.d_ino = 1000 + d->pos;
  d->de.d_reclen = sizeof d->de;
  d->de.d_off = d->pos;
  d->pos += n + 1;
  return &d->de;
}
EXPORT struct dirent *readdir(DIR *dd) { return (struct dirent *)readdir64(dd); }
EXPORT int closedir(DIR *dd) {
  struct vdir *d = (struct vdir *)dd;
  close(d->fd);
  free(d->buf);
  free(d);
  return 0;
}
EXPORT int dirfd(DIR *dd) { return ((struct vdir *)dd)->fd; }

// ---- descriptors -----------------------------------------------------------------
EXPORT int dup(int fd) { return virt_fd(fd) ? (int)simple(OP_DUP, fd, 0, 0, 0) : (int)ret_errno(RAW(SYS_dup, fd)); }
EXPORT int dup2(int a, int b) { if (virt_fd(a) || virt_fd(b)) { errno = EBADF; return -1; } return (int)ret_errno(RAW(SYS_dup2, a, b)); }
EXPORT int dup3(int a, int b, int f) { if (virt_fd(a) || virt_fd(b)) { errno = EBADF; return -1; } return (int)ret_errno(RAW(SYS_dup3, a, b, f)); }
static int do_fcntl(int fd, int cmd, long arg) {
  if (!virt_fd(fd)) return (int)ret_errno(RAW(SYS_fcntl, fd, cmd, arg));
  switch (cmd) {
    case F_DUPFD: case F_DUPFD_CLOEXEC: return (int)simple(OP_DUP, fd, 0, 0, 0);
    case F_GETFD: return FD_CLOEXEC;
    case F_SETFD: return 0;
    case F_GETFL: return fd == 0 ? O_RDONLY : (fd <= 2 ? O_WRONLY : O_RDWR);
    case F_SETFL: return 0;
    case F_GETLK: ((struct flock *)arg)->l_type = F_UNLCK; return 0;
    case F_SETLK: case F_SETLKW: return 0;
    default: return 0;
  }
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, arg); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, arg); }
EXPORT int isatty(int fd) { if (virt_fd(fd)) { errno = ENOTTY; return 0; } struct termios *t = 0; (void)t; errno = ENOTTY; return 0; }
EXPORT int ioctl(int fd, unsigned long rqst, ...) {
  va_list ap; va_start(ap, rqst); long arg = va_arg(ap, long); va_end(ap);
  if (virt_fd(fd)) { errno = ENOTTY; return -1; }
  return (int)ret_errno(RAW(SYS_ioctl, fd, rqst, arg));
}
EXPORT int poll(struct pollfd *p, nfds_t n, int t) {
  if (!active) return (int)ret_errno(RAW(SYS_poll, p, n, t));
  for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
  return 0;
}
EXPORT void *mmap64(void *a, size_t n, int prot, int fl, int fd, off64_t o) {
  if (active && !(fl & 0x20) && virt_fd(fd)) { errno = ENODEV; return (void *)-1; }
  long r = RAW(SYS_mmap, a, n, prot, fl, fd, o);
  return (void *)ret_errno(r);
}
EXPORT void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) { return mmap64(a, n, prot, fl, fd, o); }

// ---- randomness, clocks, identity ------------------------------------------------
static void fill_random(void *b, size_t n) {
  unsigned char *p = b;
  for (size_t i = 0; i < n; i += 8) {
    g_seed += 0x9E3779B97F4A7C15ull;
    uint64_t z = g_seed;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    for (size_t k = 0; k < 8 && i + k < n; k++) p[i + k] = (unsigned char)(z >> (8 * k));
  }
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!active) return ret_errno(RAW(SYS_getrandom, b, n, f));
  fill_random(b, n);
  return n;
}
EXPORT int getentropy(void *b, size_t n) { if (!active) return RAW(SYS_getrandom, b, n, 0) < 0 ? -1 : 0; fill_random(b, n); return 0; }
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!active) return (int)ret_errno(RAW(SYS_clock_gettime, c, ts));
  pthread_mutex_lock(&g_mu);
  rq(OP_CLOCK, c, 0, 0, 0);
  int64_t r = call_locked();
  if (r >= 0) { ts->tv_sec = g_rsp.x[0] / 1000000000; ts->tv_nsec = g_rsp.x[0] % 1000000000; r = 0; }
  pthread_mutex_unlock(&g_mu);
  return (int)r;
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  (void)tz;
  struct timespec ts;
  if (clock_gettime(CLOCK_REALTIME, &ts)) return -1;
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *m) {
  (void)m;
  if (!active) return (int)-RAW(SYS_clock_nanosleep, c, fl, r, m);
  simple(OP_SLEEP, r->tv_sec * 1000000000ll + r->tv_nsec, fl & TIMER_ABSTIME, 0, 0);
  return 0;
}
EXPORT int nanosleep(const struct timespec *r, struct timespec *m) { return clock_nanosleep(CLOCK_REALTIME, 0, r, m); }
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, 0); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, 0); return 0; }
EXPORT int sched_yield(void) { if (active) simple(OP_SLEEP, 1000, 0, 0, 0); return 0; }
EXPORT pid_t getpid(void) { return active ? g_pid : (pid_t)RAW(SYS_getpid); }
EXPORT pid_t gettid(void) { return active ? g_pid : (pid_t)RAW(SYS_gettid); }
EXPORT pid_t getppid(void) { return active ? 1 : (pid_t)RAW(SYS_getppid); }

EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active) switch (n) {
      case SYS_getrandom: return getrandom((void *)a, b, c);
      case SYS_statx: return do_statx(a, (const char *)b, c, d, (struct statx *)e);
      case SYS_renameat2: return renameat2(a, (const char *)b, c, (const char *)d, e);
      case SYS_renameat: return renameat(a, (const char *)b, c, (const char *)d);
      case SYS_rename: return rename((const char *)a, (const char *)b);
      case SYS_open: return do_open(AT_FDCWD, (const char *)a, b, c);
      case SYS_openat: return do_open(a, (const char *)b, c, d);
      case SYS_read: return read(a, (void *)b, c);
      case SYS_write: return write(a, (void *)b, c);
      case SYS_close: return close(a);
      case SYS_unlink: return unlink((const char *)a);
      case SYS_unlinkat: return unlinkat(a, (const char *)b, c);
      case SYS_linkat: return linkat(a, (const char *)b, c, (const char *)d, e);
      case SYS_fsync: return fsync(a);
      case SYS_fdatasync: return fdatasync(a);
      case SYS_ftruncate: return ftruncate(a, b);
      case SYS_mkdir: return mkdir((const char *)a, b);
      case SYS_copy_file_range: return copy_file_range(a, (void *)b, c, (void *)d, e, f);
      case SYS_getpid: case SYS_gettid: return g_pid;
      case SYS_clock_gettime: return clock_gettime(a, (void *)b);
      default: break;
    }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}

// ---- containment -----------------------------------------------------------------
static void contain(void) {
#define DENY(nr) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (nr), 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | EPERM)
  struct sock_filter f[] = {
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
      DENY(SYS_unlink), DENY(SYS_unlinkat), DENY(SYS_rename), DENY(SYS_renameat), DENY(SYS_renameat2),
      DENY(SYS_link), DENY(SYS_linkat), DENY(SYS_symlink), DENY(SYS_symlinkat), DENY(SYS_mkdir), DENY(SYS_mkdirat),
      DENY(SYS_rmdir), DENY(SYS_truncate), DENY(SYS_ftruncate), DENY(SYS_chmod), DENY(SYS_fchmodat), DENY(SYS_fchmod),
      DENY(SYS_chown), DENY(SYS_lchown), DENY(SYS_fchown), DENY(SYS_fchownat), DENY(SYS_creat), DENY(SYS_mknod), DENY(SYS_mknodat),
      DENY(SYS_execve), DENY(SYS_execveat), DENY(SYS_ptrace), DENY(SYS_mount), DENY(SYS_umount2), DENY(SYS_socket), DENY(SYS_connect),
      DENY(SYS_kill), DENY(SYS_utimensat), DENY(SYS_setxattr), DENY(SYS_fallocate),
      // open(path, flags) / openat(dir, path, flags): refuse anything that can write
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_open, 0, 3),
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[1])),
      BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0, 4),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | EPERM),
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_openat, 0, 2),
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[2])),
      BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 1, 0),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | EPERM),
  };
  struct sock_fprog prog = {sizeof f / sizeof f[0], f};
  RAW(SYS_prctl, PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
  RAW(SYS_prctl, PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog, 0, 0);
}

// ---- fork server -----------------------------------------------------------------
// Control messages (SOCK_SEQPACKET):
//   'F' u32 argc, u64 seed, u32 pid, u32 envlen..., argv blob (NUL separated); one fd attached
//   'W' i32 pid  -> i32 status
struct ctl { uint32_t kind; uint32_t argc; uint64_t seed; uint32_t pid; uint32_t len; char data[32768]; };

typedef int (*main_t)(int, char **, char **);
typedef int (*lsm_t)(main_t, int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
extern char **environ;
#include <dlfcn.h>

EXPORT int __libc_start_main(main_t m, int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rtld)(void), void *end) {
  lsm_t real = (lsm_t)dlsym(RTLD_NEXT, "__libc_start_main");
  const char *s = getenv("SIM_CTL_FD");
  if (!s) return real(m, argc, argv, init, fini, rtld, end);
  int ctl = atoi(s);
  unsetenv("SIM_CTL_FD");
  unsetenv("LD_PRELOAD");
  RAW(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0);
  contain();
  static struct ctl c;
  for (;;) {
    char cbuf[CMSG_SPACE(sizeof(int))];
    struct iovec iov = {&c, sizeof c};
    struct msghdr mh = {0};
    mh.msg_iov = &iov;
    mh.msg_iovlen = 1;
    mh.msg_control = cbuf;
    mh.msg_controllen = sizeof cbuf;
    long r = RAW(SYS_recvmsg, ctl, &mh, 0);
    if (r == -EINTR) continue;
    if (r <= 0) die(0);
    if (c.kind == 'W') {
      int st = -1;
      long w;
      do w = RAW(SYS_wait4, (int)c.pid, &st, 0, 0); while (w == -EINTR);
      if (w < 0) st = -1;
      RAW(SYS_sendto, ctl, &st, sizeof st, MSG_NOSIGNAL, 0, 0);
      continue;
    }
    int ch = -1;
    struct cmsghdr *cm = CMSG_FIRSTHDR(&mh);
    if (cm) memcpy(&ch, CMSG_DATA(cm), sizeof ch);
    pid_t pid = fork();
    if (pid) {
      if (ch >= 0) RAW(SYS_close, ch);
      RAW(SYS_sendto, ctl, &pid, sizeof pid, MSG_NOSIGNAL, 0, 0);
      continue;
    }
    // child
    RAW(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0);
    RAW(SYS_dup2, ch, CH_FD);
    RAW(SYS_close, ch);
    RAW(SYS_close, ctl);
    struct rlimit rl = {20, 22};
    RAW(SYS_prlimit64, 0, RLIMIT_CPU, &rl, 0);
    struct rlimit ra = {4ull << 30, 4ull << 30};
    RAW(SYS_prlimit64, 0, RLIMIT_AS, &ra, 0);
    struct rlimit rc = {0, 0};
    RAW(SYS_prlimit64, 0, RLIMIT_CORE, &rc, 0);
    g_seed = c.seed;
    g_pid = c.pid;
    int ne = 0;
    while (environ[ne]) ne++;
    uint32_t more = c.argc >> 16;
    c.argc &= 0xffff;
    char **av = calloc(c.argc + ne + more + 2, sizeof(char *));
    char *p = c.data;
    for (uint32_t i = 0; i < c.argc; i++) { av[i] = p; p += strlen(p) + 1; }
    char **ev = av + c.argc + 1;
    for (uint32_t i = 0; i < more; i++) {
      if (!strncmp(p, "SIM_STACK_KB=", 13)) {
        struct rlimit rs = {strtoull(p + 13, 0, 10) << 10, RLIM_INFINITY};
        rs.rlim_max = 8 << 20;
        RAW(SYS_prlimit64, 0, RLIMIT_STACK, &rs, 0);
      }
      *ev++ = p;
      p += strlen(p) + 1;
    }
    // The variables of the run come first and hide the others.
    for (int i = 0; i < ne; i++) *ev++ = environ[i];
    environ = av + c.argc + 1;
    active = 1;
    return real(m, c.argc, av, init, fini, rtld, end);
  }
}
