/* Environment seam for the checks (LD_PRELOAD): a virtual clock and a file operation counter that
   can stop the process, tear a write or fail an operation. Inert until configured through ctypes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* ---------- clock ---------- */
static volatile int clk_mode = 0;            /* 0 real, 1 fixed, 2 script */
static volatile long long clk_now = 0;       /* ns */
static volatile int clk_mono = 0;            /* virtualise CLOCK_MONOTONIC too */
static long long clk_script[4096];
static volatile int clk_len = 0, clk_pos = 0;
static volatile long clk_calls = 0;

static int (*r_clock_gettime)(clockid_t, struct timespec *);

void shim_clock(int mode, long long ns, int mono) { clk_mode = mode; clk_now = ns; clk_mono = mono; clk_pos = 0; clk_calls = 0; }
void shim_clock_script(const long long *v, int n) { if (n > 4096) n = 4096; memcpy(clk_script, v, n * sizeof *v); clk_len = n; clk_pos = 0; clk_mode = 2; clk_calls = 0; }
void shim_clock_set(long long ns) { clk_now = ns; }
long long shim_clock_get(void) { return clk_now; }
long shim_clock_calls(void) { return clk_calls; }

static long long vnow(void) {
  clk_calls++;
  if (clk_mode == 2) {
    if (clk_pos < clk_len) clk_now = clk_script[clk_pos++];
    return clk_now;
  }
  return clk_now;
}
static int isreal(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI; }
static int ismono(clockid_t c) { return c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME; }

int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!r_clock_gettime) r_clock_gettime = dlsym(RTLD_NEXT, "clock_gettime");
  if (clk_mode && (isreal(c) || (clk_mono && ismono(c)))) {
    long long v = ismono(c) ? clk_now : vnow();
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
    return 0;
  }
  return r_clock_gettime(c, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  (void)tz;
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec; return ts.tv_sec;
}

/* ---------- files ---------- */
/* modes: 0 off, 1 count only, 2 exit before op N, 3 exit inside op N (writes: after `part` bytes, others: after the op),
   4 fail op N with errno, 5 fail op N (writes: after `part` bytes are written) with errno and every later write too */
static char fs_prefix[4096];
static size_t fs_plen = 0;
static volatile int fs_mode = 0, fs_err = 0;
static volatile long fs_target = 0, fs_count = 0, fs_part = 0;
static unsigned char fs_fd[65536];
static char fs_log[65536]; static volatile int fs_loglen = 0;

void shim_fs(const char *prefix, int mode, long target, long part, int err) {
  strncpy(fs_prefix, prefix, sizeof fs_prefix - 1); fs_plen = strlen(fs_prefix);
  fs_mode = mode; fs_target = target; fs_part = part; fs_err = err; fs_count = 0; fs_loglen = 0; fs_log[0] = 0;
}
void shim_fs_off(void) { fs_mode = 0; }
long shim_fs_count(void) { return fs_count; }
const char *shim_fs_log(void) { return fs_log; }

static int inpath(const char *p) {
  if (!fs_mode || !p || !fs_plen) return 0;
  size_t i = 0;
  while (i < fs_plen) {
    if (*p != fs_prefix[i]) return 0;
    if (*p == '/') while (p[1] == '/') p++;   /* "//a" names the same file as "/a" */
    p++; i++;
  }
  return 1;
}
static int infd(int fd) { return fs_mode && fd >= 0 && fd < 65536 && fs_fd[fd]; }
static void note(const char *op, long n) {
  int left = (int)sizeof fs_log - fs_loglen - 64;
  if (left > 0) fs_loglen += snprintf(fs_log + fs_loglen, 64, "%s:%ld;", op, n);
}
/* returns 1 if the op must fail (errno set), 2 if the process must stop after the op; may not return */
static int gate(const char *op, long n) {
  long i = fs_count++;
  note(op, n);
  if (fs_mode == 2 && i == fs_target) _exit(77);
  if (fs_mode == 3 && i == fs_target) return 2;
  if (fs_mode == 4 && i == fs_target) { errno = fs_err; return 1; }
  if (fs_mode == 5 && i == fs_target) { errno = fs_err; return 3; }
  return 0;
}
#define REAL(ret, name, args) static ret (*r_##name) args; if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name)
static int wants_write(int flags) { return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) != 0; }

#define OPEN_BODY(CALL, PATH) \
  int g = 0, mine = inpath(PATH) && wants_write(flags); \
  if (mine) { g = gate("open", 0); if (g == 1 || g == 3) { errno = fs_err; return -1; } } \
  int fd = CALL; \
  if (g == 2) _exit(77); \
  if (fd >= 0 && fd < 65536) fs_fd[fd] = mine; \
  return fd;
#define MODE_ARG mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }

int open(const char *p, int flags, ...) { MODE_ARG REAL(int, open, (const char *, int, ...)); OPEN_BODY(r_open(p, flags, m), p) }
int open64(const char *p, int flags, ...) { MODE_ARG REAL(int, open64, (const char *, int, ...)); OPEN_BODY(r_open64(p, flags, m), p) }
int openat(int d, const char *p, int flags, ...) { MODE_ARG REAL(int, openat, (int, const char *, int, ...)); OPEN_BODY(r_openat(d, p, flags, m), p) }
int openat64(int d, const char *p, int flags, ...) { MODE_ARG REAL(int, openat64, (int, const char *, int, ...)); OPEN_BODY(r_openat64(d, p, flags, m), p) }

static ssize_t tear(int g, ssize_t (*w)(int, const void *, size_t), int fd, const void *b, size_t n) {
  size_t k = fs_part < 0 ? n : (size_t)fs_part; if (k > n) k = n;
  if (k) w(fd, b, k);
  if (g == 2) _exit(77);
  errno = fs_err; return -1;
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, (int, const void *, size_t));
  if (infd(fd)) { int g = gate("write", (long)n); if (g == 1) return -1; if (g) return tear(g, r_write, fd, b, n); }
  return r_write(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, pwrite, (int, const void *, size_t, off_t));
  if (infd(fd)) { int g = gate("write", (long)n); if (g == 1) return -1;
    if (g) { size_t k = fs_part < 0 ? n : (size_t)fs_part; if (k > n) k = n; if (k) r_pwrite(fd, b, k, o); if (g == 2) _exit(77); errno = fs_err; return -1; } }
  return r_pwrite(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, (off_t)o); }
int close(int fd) {
  REAL(int, close, (int));
  if (fd >= 0 && fd < 65536) {
    int mine = infd(fd); fs_fd[fd] = 0;
    if (mine) { int g = gate("close", 0); int r = r_close(fd); if (g == 2) _exit(77); if (g) { errno = fs_err; return -1; } return r; }
  }
  return r_close(fd);
}
#define PATHOP(COND, OP, CALL) \
  int g = 0; if (COND) { g = gate(OP, 0); if (g == 1 || g == 3) { errno = fs_err; return -1; } } \
  int r = CALL; if (g == 2) _exit(77); return r;
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, (const char *, mode_t)); PATHOP(inpath(p), "mkdir", r_mkdir(p, m)) }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, mkdirat, (int, const char *, mode_t)); PATHOP(inpath(p), "mkdir", r_mkdirat(d, p, m)) }
int unlink(const char *p) { REAL(int, unlink, (const char *)); PATHOP(inpath(p), "unlink", r_unlink(p)) }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, (int, const char *, int)); PATHOP(inpath(p), "unlink", r_unlinkat(d, p, f)) }
int rmdir(const char *p) { REAL(int, rmdir, (const char *)); PATHOP(inpath(p), "rmdir", r_rmdir(p)) }
int rename(const char *a, const char *b) { REAL(int, rename, (const char *, const char *)); PATHOP(inpath(a) || inpath(b), "rename", r_rename(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, renameat, (int, const char *, int, const char *)); PATHOP(inpath(a) || inpath(b), "rename", r_renameat(x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { REAL(int, renameat2, (int, const char *, int, const char *, unsigned)); PATHOP(inpath(a) || inpath(b), "rename", r_renameat2(x, a, y, b, f)) }
int link(const char *a, const char *b) { REAL(int, link, (const char *, const char *)); PATHOP(inpath(a) || inpath(b), "link", r_link(a, b)) }
int symlink(const char *a, const char *b) { REAL(int, symlink, (const char *, const char *)); PATHOP(inpath(b), "symlink", r_symlink(a, b)) }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, (int, off_t)); PATHOP(infd(fd), "truncate", r_ftruncate(fd, n)) }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, (int, off64_t)); PATHOP(infd(fd), "truncate", r_ftruncate64(fd, n)) }
int truncate(const char *p, off_t n) { REAL(int, truncate, (const char *, off_t)); PATHOP(inpath(p), "truncate", r_truncate(p, n)) }
int fsync(int fd) { REAL(int, fsync, (int)); PATHOP(infd(fd), "fsync", r_fsync(fd)) }
int fdatasync(int fd) { REAL(int, fdatasync, (int)); PATHOP(infd(fd), "fsync", r_fdatasync(fd)) }
