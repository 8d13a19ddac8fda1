#include "drv.h"
#include <fcntl.h>
#include <sys/ioctl.h>
#include <futils/inotify.h>
/* simulated kernel */
static int on, isopen[8], nfd, cloexec[8], watched[8], ops, failop, live, lastfail; static uint32_t wantmask; static const char *wantpath; static int low;
static uint8_t *batch; static int blen, announced, reads, ioctls; static int off[5000], nev, seen, inuse;
void *__real_malloc(size_t); void __real_free(void *);
static int hit(void) { if (!on) return 0; if (++ops == failop) { static const int E[] = {5, ENOSPC, ENOENT, EMFILE, EACCES, ENOMEM, EINTR, EBADF, ENAMETOOLONG, EAGAIN, ENOTDIR, EINVAL}; static int k; errno = E[k++ / 5 % 12]; return 1; } return 0; }
void *__wrap_malloc(size_t n) { if (hit()) { errno = ENOMEM; return NULL; } void *p = __real_malloc(n); if (on) live++; return p; }
void __wrap_free(void *p) { if (on && p) live--; __real_free(p); }
static int newfd(int fl) { if (hit()) return -1; int f = low + nfd++; isopen[f & 7] = 1; cloexec[f & 7] = !!(fl & O_CLOEXEC); watched[f & 7] = 0; return f; }
int __wrap_inotify_init(void) { return newfd(0); }
int __wrap_inotify_init1(int f) { return newfd(f); }
int __wrap_inotify_add_watch(int fd, const char *p, uint32_t m) { if (hit()) return -1; if (fd < 0 || !isopen[fd & 7]) FAIL("watch on descriptor %d that is not open", fd); if (strcmp(p, wantpath) || m != wantmask) FAIL("watch on %s with mask %x instead of %s with %x", p, m, wantpath, wantmask); watched[fd & 7] = 1; return 1 + rndn(100); }
int __real_close(int); int __real_fcntl(int, int, ...);
int __wrap_close(int fd) { if (!on) return __real_close(fd); if (fd < 0 || !isopen[fd & 7]) FAIL("close of descriptor %d that is not open", fd); isopen[fd & 7] = 0; return 0; }
static int ctl(int fd, int c, int v) { if (fd < 0 || !isopen[fd & 7]) FAIL("fcntl on descriptor %d that is not open", fd); if (hit()) return -1; if (c == F_GETFD) return cloexec[fd & 7]; if (c == F_SETFD) cloexec[fd & 7] = v & 1; return 0; }
int __wrap_fcntl(int fd, int c, ...) { va_list a; va_start(a, c); int v = va_arg(a, int); va_end(a); return ctl(fd, c, v); }
int __wrap_fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); int v = va_arg(a, int); va_end(a); return ctl(fd, c, v); }
int __wrap_ioctl(int fd, unsigned long q, ...) { va_list a; va_start(a, q); int *n = va_arg(a, int *); va_end(a); if (q == FIOCLEX) return ctl(fd, F_SETFD, FD_CLOEXEC); if (fd != 7 || q != FIONREAD) FAIL("ioctl %d %lx", fd, q); ioctls++; if (hit()) return -1; *n = announced; return 0; }
ssize_t __wrap_read(int fd, void *b, size_t n) { int i; if (fd != 7) FAIL("read from descriptor %d", fd); reads++; if (hit()) return -1; if (announced <= 0) FAIL("read without data"); 
	/* whole events only */ for (i = nev; i > 0 && (size_t)off[i] > n; i--); if (!i) { errno = EINVAL; return -1; } nev = i; memcpy(b, batch, off[i]); memset((char *)b + off[i], 0xa5, n - off[i]); return off[i]; }
static void *ud = &ud;
static void cb(struct inotify_event *e, void *d) { CHECK(d == ud, "callback with another user pointer"); CHECK(reads == 1, "callback without a read"); CHECK(seen < nev, "callback %d beyond the last event", seen); CHECK(!memcmp(e, batch + off[seen], off[seen + 1] - off[seen]), "callback %d of %d gets other data", seen, nev); seen++; }
static void reset(void) { int i; for (i = 0; i < 8; i++) isopen[i] = 0; nfd = ops = live = reads = ioctls = seen = 0; }
static void proc(int n, int big) { int i, k, ops0, total; uint8_t *b = malloc(64 + n * (16 + 300)); blen = 0; off[0] = 0;
	for (i = 0; i < n; i++) { struct inotify_event e = {(int)rnd(), (uint32_t)rnd(), (uint32_t)rnd(), 0}; e.len = rndn(3) == 0 ? 0 : 16 * (1 + rndn(big ? 17 : 3)); if (rndn(5) == 0) e.len = 4 * rndn(8); memcpy(b + blen, &e, 16); for (k = 0; k < (int)e.len; k++) b[blen + 16 + k] = rndn(2) ? 0 : rnd(); blen += 16 + e.len; off[i + 1] = blen; }
	batch = xmem(b, blen); free(b); total = n; announced = blen;
	nev = total; failop = 0; reset(); EVAL(); on = 1; inotify_process_fd(7, cb, ud); on = 0; CHECK(seen == total, "%d of %d events reported (%d bytes)", seen, total, blen); CHECK(!live, "memory leaked"); ops0 = ops;
	for (k = 1; k <= ops0; k++) { nev = total; reset(); failop = k; EVAL(); on = 1; inotify_process_fd(7, cb, ud); on = 0; CHECK(!seen, "callback although call %d fails", k); CHECK(!live, "memory leaked when call %d fails", k); }
	failop = 0; for (k = -2; k <= 0; k++) { nev = 0; announced = k; reset(); on = 1; inotify_process_fd(7, cb, ud); on = 0; CHECK(!seen && !live && !reads, "activity without data"); }
	free(batch); }
static void create(int l, const char *p, uint32_t m) { int k, r, i, n; wantpath = p; wantmask = m; low = l;
	for (k = 0; k <= 6; k++) { reset(); failop = k; EVAL(); on = 1; r = inotify_create(p, m); on = 0; for (i = n = 0; i < 8; i++) n += isopen[i]; CHECK(r == -1 || (r >= 0 && isopen[r & 7]), "create returns %d, which is not open", r); CHECK(n == (r >= 0), "%d descriptors open after create = %d (failing call %d)", n, r, k);
		if (r >= 0) CHECK(watched[r & 7], "no watch"); if (!k) CHECK(r >= 0 && cloexec[r & 7], "nothing fails but create = %d, close-on-exec %d", r, r >= 0 ? cloexec[r & 7] : 0);
		if (r >= 0) { on = 1; inotify_destroy(r); on = 0; CHECK(!isopen[r & 7], "destroy does not close"); } on = 1; inotify_destroy(-1); inotify_destroy(-5); on = 0; } failop = 0; }
int sweep(const char *p, uint64_t N) { uint64_t i; (void)p; for (i = 0; i < N; i++) { create(rndn(4), rndn(2) ? "/x" : "", rnd()); proc(1 + rndn(4), 1); proc(1 + rndn(40), rndn(2)); if (i % 50 == 0) proc(1000 + rndn(3000), 1); 
		/* totals around the buffer of 512 bytes */ proc(30 + rndn(5), 0); } return 0; }
int replay(const char *p, int c, char **v) { int i; (void)p; (void)c; if (!strcmp(v[0], "events")) { for (i = 0; i < 300; i++) { drv_s = i; proc(1 + rndn(40), i & 1); } } else create(!strcmp(v[0], "destroy") ? 0 : 1, "/p", 3); return 3; }
