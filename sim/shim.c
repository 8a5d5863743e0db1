/* LD_PRELOAD storage and wall-clock seam for the deterministic simulator.
 *
 * Real libraries (HDF5/netCDF, GDAL, CPython) do real I/O; calls that touch a path under the armed
 * prefix are counted per operation class, and a fault plan ("the n-th write fails with ENOSPC",
 * "the process dies half way through the n-th write", ...) may be applied.  Nothing outside the
 * prefix is ever touched.  Inert until dst_reset() is called with a non-empty prefix.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { C_OPENW, C_OPENR, C_WRITE, C_READ, C_CLOSEW, C_FSYNC, C_MKDIR, C_UNLINK, C_RENAME, C_TRUNC, NCLS };
enum { A_NONE, A_FAIL, A_SHORT, A_EXIT, A_TORN_EXIT, A_PARTIAL_FAIL };

#define MAXFD 4096
#define MAXPLAN 16
static char prefix[4096];
static size_t prefix_len;
static unsigned char fdflag[MAXFD]; /* 1 tracked, 2 writable */
static char *fdpath[MAXFD];
static long counts[NCLS];
static unsigned long long digest = 1469598103934665603ULL;
struct plan { int cls; long nth; int action; int err; long count; long fired; char filt[128]; };
static struct plan plans[MAXPLAN];
static int nplans;
static char fired_path[4096];
static long depth_off;
static int clock_on;
static long long clock_ns;

#define REAL(ret, name, args) static ret(*real_##name) args; if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

void dst_reset(const char *p) {
  size_t n = strlen(p);
  if (n >= sizeof(prefix)) n = 0;
  memcpy(prefix, p, n); prefix[n] = 0; prefix_len = n;
  memset(counts, 0, sizeof(counts)); nplans = 0; fired_path[0] = 0;
  digest = 1469598103934665603ULL;
}
int dst_arm(int cls, long nth, int action, int err, long count, const char *filt) {
  if (nplans >= MAXPLAN) return -1;
  struct plan *q = &plans[nplans];
  q->cls = cls; q->nth = nth; q->action = action; q->err = err; q->count = count; q->fired = 0;
  q->filt[0] = 0;
  if (filt) { strncpy(q->filt, filt, sizeof(q->filt) - 1); q->filt[sizeof(q->filt) - 1] = 0; }
  return nplans++;
}
void dst_disarm(void) { nplans = 0; }
long dst_count(int cls) { return counts[cls]; }
long dst_fired(int i) { return i < nplans ? plans[i].fired : 0; }
unsigned long long dst_digest(void) { return digest; }
const char *dst_fired_path(void) { return fired_path; }
void dst_pause(int on) { depth_off = on; }
void dst_clock(int on, long long ns) { clock_on = on; clock_ns = ns; }
int dst_open_count(int only_write) {
  int c = 0; for (int i = 0; i < MAXFD; i++) if ((fdflag[i] & 1) && (!only_write || (fdflag[i] & 2))) c++;
  return c;
}
int dst_open_path(int idx, char *buf, int n) {
  int c = 0;
  for (int i = 0; i < MAXFD; i++) if (fdflag[i] & 1) { if (c++ == idx) { snprintf(buf, n, "%s", fdpath[i] ? fdpath[i] : "?"); return i; } }
  return -1;
}

static int under(const char *p) {
  return prefix_len && p && strncmp(p, prefix, prefix_len) == 0;
}
static void mix(unsigned long long v) { digest ^= v; digest *= 1099511628211ULL; }
static void mixs(const char *s) { while (*s) { mix((unsigned char)*s++); } }

/* returns action to apply; sets *err */
static int consult(int cls, const char *path, int *err) {
  if (depth_off) return A_NONE;
  counts[cls]++;
  mix(cls + 1); if (path) mixs(path + (under(path) ? prefix_len : 0));
  for (int i = 0; i < nplans; i++) {
    struct plan *q = &plans[i];
    if (q->cls != cls) continue;
    if (q->filt[0] && (!path || !strstr(path, q->filt))) continue;
    if (q->nth > 0) { q->nth--; continue; }
    if (q->count >= 0 && q->fired >= q->count) continue;
    q->fired++;
    if (path) { strncpy(fired_path, path, sizeof(fired_path) - 1); }
    *err = q->err;
    if (q->action == A_EXIT) _exit(q->err);
    return q->action;
  }
  return A_NONE;
}

static void track(int fd, const char *path, int writable) {
  if (fd >= 0 && fd < MAXFD) { fdflag[fd] = 1 | (writable ? 2 : 0); free(fdpath[fd]); fdpath[fd] = strdup(path); }
}
static int is_w(int flags) { return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) != 0; }

#define OPENBODY(CALL) \
  int w = is_w(flags); int tr = under(path); int e = 0; \
  if (tr && !(flags & O_DIRECTORY)) { if (consult(w ? C_OPENW : C_OPENR, path, &e) != A_NONE) { errno = e; return -1; } } \
  int fd = CALL; if (tr && fd >= 0 && !(flags & O_DIRECTORY)) track(fd, path, w); return fd;

int open(const char *path, int flags, ...) {
  mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  REAL(int, open, (const char *, int, ...)); OPENBODY(real_open(path, flags, mode))
}
int open64(const char *path, int flags, ...) {
  mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  REAL(int, open64, (const char *, int, ...)); OPENBODY(real_open64(path, flags, mode))
}
/* Path of a name relative to a directory descriptor below the prefix, else the name itself. */
static const char *at(int dfd, const char *name, char *buf, size_t n) {
  if (!name || name[0] == '/' || dfd < 0 || dfd >= MAXFD || !(fdflag[dfd] & 1) || !fdpath[dfd]) return name;
  snprintf(buf, n, "%s/%s", fdpath[dfd], name); return buf;
}
#define OPENATBODY(CALL) \
  char buf[4352]; const char *path = at(dfd, name, buf, sizeof buf); OPENBODY(CALL)
int openat(int dfd, const char *name, int flags, ...) {
  mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  REAL(int, openat, (int, const char *, int, ...)); OPENATBODY(real_openat(dfd, name, flags, mode))
}
int openat64(int dfd, const char *name, int flags, ...) {
  mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  REAL(int, openat64, (int, const char *, int, ...)); OPENATBODY(real_openat64(dfd, name, flags, mode))
}
#define FOPENBODY(NAME) \
  REAL(FILE *, NAME, (const char *, const char *)); int w = mode[0] != 'r' || strchr(mode, '+'); int tr = under(path); int e = 0; \
  if (tr && consult(w ? C_OPENW : C_OPENR, path, &e) != A_NONE) { errno = e; return NULL; } \
  FILE *f = real_##NAME(path, mode); if (tr && f) track(fileno(f), path, w); return f;
FILE *fopen(const char *path, const char *mode) { FOPENBODY(fopen) }
FILE *fopen64(const char *path, const char *mode) { FOPENBODY(fopen64) }

#define TRK(fd) (prefix_len && (fd) >= 0 && (fd) < MAXFD && (fdflag[fd] & 1))

int close(int fd) {
  REAL(int, close, (int));
  if (TRK(fd)) {
    int e = 0, a = A_NONE; if (fdflag[fd] & 2) a = consult(C_CLOSEW, fdpath[fd], &e);
    fdflag[fd] = 0; int r = real_close(fd); if (a != A_NONE) { errno = e; return -1; } return r;
  }
  return real_close(fd);
}
int fclose(FILE *f) {
  REAL(int, fclose, (FILE *)); int fd = f ? fileno(f) : -1;
  if (TRK(fd)) {
    int e = 0, a = A_NONE; if (fdflag[fd] & 2) a = consult(C_CLOSEW, fdpath[fd], &e);
    fdflag[fd] = 0; int r = real_fclose(f); if (a != A_NONE) { errno = e; return EOF; } return r;
  }
  return real_fclose(f);
}
#define WBODY(FULL, PART, N) \
  if (TRK(fd)) { int e = 0; int a = consult(C_WRITE, fdpath[fd], &e); size_t h = (N) / 2; \
    if (a == A_FAIL) { errno = e; return -1; } \
    if (a == A_SHORT && h > 0) return PART; \
    if (a == A_TORN_EXIT) { if (h > 0) { if (PART < 0) {} } _exit(e); } \
    if (a == A_PARTIAL_FAIL) { if (h > 0) { if (PART < 0) {} } errno = e; return -1; } } \
  return FULL;
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, (int, const void *, size_t)); WBODY(real_write(fd, b, n), real_write(fd, b, h), n) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite, (int, const void *, size_t, off_t)); WBODY(real_pwrite(fd, b, n, o), real_pwrite(fd, b, h, o), n) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, pwrite64, (int, const void *, size_t, off64_t)); WBODY(real_pwrite64(fd, b, n, o), real_pwrite64(fd, b, h, o), n) }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, (int, const struct iovec *, int));
  if (TRK(fd)) { int e = 0; int a = consult(C_WRITE, fdpath[fd], &e);
    if (a == A_FAIL || a == A_PARTIAL_FAIL) { errno = e; return -1; } if (a == A_TORN_EXIT) _exit(e); }
  return real_writev(fd, v, c);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
  REAL(size_t, fwrite, (const void *, size_t, size_t, FILE *)); int fd = f ? fileno(f) : -1;
  if (TRK(fd)) { int e = 0; int a = consult(C_WRITE, fdpath[fd], &e); size_t h = n / 2;
    /* A stream retries short transfers itself; a short count from it is an error. */
    if (a == A_FAIL) { f->_flags |= 0x20; errno = e; return 0; }
    if (a == A_PARTIAL_FAIL) { if (h) h = real_fwrite(b, s, h, f); f->_flags |= 0x20; errno = e ? e : ENOSPC; return h; }
    if (a == A_TORN_EXIT) { if (h) real_fwrite(b, s, h, f); fflush(f); _exit(e); } }
  return real_fwrite(b, s, n, f);
}
#define RBODY(FULL, PART, N) \
  if (TRK(fd)) { int e = 0; int a = consult(C_READ, fdpath[fd], &e); size_t h = ((N) + 1) / 2; \
    if (a == A_FAIL) { errno = e; return -1; } if (a == A_SHORT && (N) > 1) return PART; } \
  return FULL;
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, (int, void *, size_t)); RBODY(real_read(fd, b, n), real_read(fd, b, h), n) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, pread, (int, void *, size_t, off_t)); RBODY(real_pread(fd, b, n, o), real_pread(fd, b, h, o), n) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, pread64, (int, void *, size_t, off64_t)); RBODY(real_pread64(fd, b, n, o), real_pread64(fd, b, h, o), n) }
size_t fread(void *b, size_t s, size_t n, FILE *f) {
  REAL(size_t, fread, (void *, size_t, size_t, FILE *)); int fd = f ? fileno(f) : -1;
  if (TRK(fd)) { int e = 0; int a = consult(C_READ, fdpath[fd], &e);
    if (a == A_FAIL) { f->_flags |= 0x20; errno = e; return 0; } }
  return real_fread(b, s, n, f);
}
int fsync(int fd) { REAL(int, fsync, (int)); if (TRK(fd)) { int e = 0; if (consult(C_FSYNC, fdpath[fd], &e)) { errno = e; return -1; } } return real_fsync(fd); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, (int, off_t)); if (TRK(fd)) { int e = 0; if (consult(C_TRUNC, fdpath[fd], &e)) { errno = e; return -1; } } return real_ftruncate(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, (int, off64_t)); if (TRK(fd)) { int e = 0; if (consult(C_TRUNC, fdpath[fd], &e)) { errno = e; return -1; } } return real_ftruncate64(fd, n); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, (const char *, mode_t)); if (under(p)) { int e = 0; if (consult(C_MKDIR, p, &e)) { errno = e; return -1; } } return real_mkdir(p, m); }
int unlink(const char *p) { REAL(int, unlink, (const char *)); if (under(p)) { int e = 0; if (consult(C_UNLINK, p, &e)) { errno = e; return -1; } } return real_unlink(p); }
int unlinkat(int d, const char *p, int f) {
  REAL(int, unlinkat, (int, const char *, int)); char buf[4352]; const char *q = at(d, p, buf, sizeof buf);
  if (under(q)) { int e = 0; if (consult(C_UNLINK, q, &e)) { errno = e; return -1; } } return real_unlinkat(d, p, f);
}
int mkdirat(int d, const char *p, mode_t m) {
  REAL(int, mkdirat, (int, const char *, mode_t)); char buf[4352]; const char *q = at(d, p, buf, sizeof buf);
  if (under(q)) { int e = 0; if (consult(C_MKDIR, q, &e)) { errno = e; return -1; } } return real_mkdirat(d, p, m);
}
int rmdir(const char *p) { REAL(int, rmdir, (const char *)); if (under(p)) { int e = 0; if (consult(C_UNLINK, p, &e)) { errno = e; return -1; } } return real_rmdir(p); }
int rename(const char *a, const char *b) { REAL(int, rename, (const char *, const char *)); if (under(a) || under(b)) { int e = 0; if (consult(C_RENAME, b, &e)) { errno = e; return -1; } } return real_rename(a, b); }

int clock_gettime(clockid_t id, struct timespec *ts) {
  REAL(int, clock_gettime, (clockid_t, struct timespec *));
  if (clock_on && id == CLOCK_REALTIME) { ts->tv_sec = clock_ns / 1000000000LL; ts->tv_nsec = clock_ns % 1000000000LL; return 0; }
  return real_clock_gettime(id, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  REAL(int, gettimeofday, (struct timeval *, void *));
  if (clock_on) { tv->tv_sec = clock_ns / 1000000000LL; tv->tv_usec = (clock_ns % 1000000000LL) / 1000; return 0; }
  return real_gettimeofday(tv, tz);
}
time_t time(time_t *t) {
  REAL(time_t, time, (time_t *));
  if (clock_on) { time_t v = clock_ns / 1000000000LL; if (t) *t = v; return v; }
  return real_time(t);
}
