#include "drv.h"
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <futils/fdutils.h>
#include <futils/synctools.h>
/* simulated kernel: descriptors 50.. */
static int fdflags, status, nf, fail_at, fail_err, calls;
static int failed; static int hit(void) { calls++; if (fail_at && calls == fail_at) { failed = 1; errno = fail_err; return 1; } return 0; }
int __wrap_fcntl(int fd, int c, ...) { va_list a; va_start(a, c); int v = va_arg(a, int); va_end(a);
	if (hit()) return -1; if (fd != 50) { errno = EBADF; return -1; }
	switch (c) { case F_GETFD: return fdflags; case F_SETFD: fdflags = v; return 0; case F_GETFL: return status; case F_SETFL: status = v; return 0; } errno = EINVAL; return -1; }
int __wrap_fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); int v = va_arg(a, int); va_end(a); return __wrap_fcntl(fd, c, v); }
int __wrap_ioctl(int fd, unsigned long q, ...) { if (q != FIOCLEX && q != FIONCLEX) FAIL("ioctl %lx", q); if (hit()) return -1; if (fd != 50) { errno = EBADF; return -1; } fdflags = q == FIOCLEX ? fdflags | FD_CLOEXEC : fdflags & ~FD_CLOEXEC; return 0; }
static struct { int open, flags, synced; char path[512]; } F[16]; static int nF; static char want[512], dir[512]; static int oom, live;
int __wrap_open(const char *p, int fl, ...) { if (hit()) return -1; int i = nF++; if (i >= 16) FAIL("too many opens"); F[i].open = 1; F[i].flags = fl; F[i].synced = 0; snprintf(F[i].path, 512, "%s", p); return 50 + i; }
int __wrap_open64(const char *p, int fl, ...) { return __wrap_open(p, fl); }
int __wrap_openat(int d, const char *p, int fl, ...) { if (d != AT_FDCWD) FAIL("openat of directory %d", d); return __wrap_open(p, fl); }
int __wrap_openat64(int d, const char *p, int fl, ...) { return __wrap_openat(d, p, fl); }
static int sync_(int fd) { if (fd < 50 || fd >= 50 + nF || !F[fd - 50].open) FAIL("sync of a descriptor that is not open"); if (hit()) return -1; F[fd - 50].synced = 1; return 0; }
int __wrap_fsync(int fd) { return sync_(fd); }
int __wrap_fdatasync(int fd) { return sync_(fd); }
int __wrap_close(int fd) { if (fd < 50 || fd >= 50 + nF || !F[fd - 50].open) FAIL("close of a descriptor that is not open"); F[fd - 50].open = 0; int was = failed; if (hit()) { failed = was; return -1; } return 0; }
char *__wrap_strdup(const char *s) { if (oom) { errno = ENOMEM; return NULL; } char *r = malloc(strlen(s) + 1); strcpy(r, s); return r; }
static void flags(const char *fn, int a, int b, int fl) {
	int k, r; for (k = 0; k <= 2; k++) { fdflags = a; status = b; fail_at = k; calls = failed = 0; fail_err = 1 + rndn(40); EVAL();
		if (!strcmp(fn, "fd_has_close_on_exec")) { r = fd_has_close_on_exec(50); CHECK(r == (failed ? 0 : a & FD_CLOEXEC ? 1 : 0), "has_close_on_exec(%x) = %d", a, r); CHECK(fdflags == a && status == b, "query changes flags"); continue; }
		int cl = !strcmp(fn, "fd_set_close_on_exec"); r = cl ? fd_set_close_on_exec(50) : fd_add_flags(50, fl);
		if (failed) { CHECK(r == -fail_err, "%s: call %d failing with %d is reported as %d", fn, k, fail_err, r); CHECK(fdflags == a && status == b, "%s: flags changed on failure", fn); }
		else { CHECK(r == 0, "%s = %d", fn, r); CHECK(fdflags == (cl ? a | FD_CLOEXEC : a) && status == (cl ? b : b | fl), "%s: flags %x %x become %x %x (adding %x)", fn, a, b, fdflags, status, fl); } }
	CHECK(fd_set_close_on_exec(49) < 0 && fd_has_close_on_exec(49) == 0 && fd_add_flags(49, 1) < 0, "bad descriptor accepted");
}
static void sync1(int which, const char *path) {
	int k, o, r, i; char *sl; snprintf(dir, 512, "%s", path); sl = strrchr(dir, '/'); if (sl) sl[1] = 0;
	for (o = 0; o < (which == 2 ? 2 : 1); o++) for (k = 0; k <= 7; k++) { nF = calls = failed = 0; oom = o; fail_at = k; fail_err = 1 + rndn(40); EVAL();
		char *p = xmem(path, strlen(path) + 1); r = which == 0 ? sync_file(p) : which == 1 ? sync_folder(p) : sync_file_and_folder(p); CHECK(!strcmp(p, path), "argument modified"); free(p); 
		int f = 0, d = 0; for (i = 0; i < nF; i++) { CHECK(!F[i].open, "descriptor leaked (failing step %d)", k); CHECK(!(F[i].flags & (O_CREAT | O_TRUNC | O_PATH)), "opened with flags %x", F[i].flags);
			if (F[i].synced && !strcmp(F[i].path, path) && !(F[i].flags & O_DIRECTORY)) f = 1; if (F[i].synced && (F[i].flags & O_DIRECTORY) && !strcmp(F[i].path, which == 1 ? path : dir) && (which == 1 || sl)) d = 1; }
		int good = which == 0 ? f : which == 1 ? d : f && d;
		CHECK((r == 0) == good, "sync kind %d of '%s' with failing step %d returns %d, file flushed %d, folder flushed %d", which, path, k, r, f, d); CHECK(r <= 0, "returns %d", r); CHECK(!failed || o || (which == 2 && !sl) || r == -fail_err, "sync kind %d of '%s': step %d fails with errno %d but %d is returned", which, path, k, fail_err, r);
		if (!k && !o && (which < 2 || sl)) CHECK(r == 0, "nothing fails but sync kind %d returns %d", which, r);
	}
}
int sweep(const char *p, uint64_t n) { uint64_t i; int k; static const char *P[] = {"/a/b", "a", "", "/", "/x", "d/", "a/b/c.txt", "//x", "a//b"};
	for (i = 0; i < n; i++) {
		if (!strcmp(p, "C27")) { int a = rndn(2) ? rndn(4) : rnd() & 0x7fffffff, b = rnd() & 0x7fffffff, f = rndn(2) ? 1 << rndn(31) : rnd() & 0x7fffffff; flags("fd_set_close_on_exec", a, b, f); flags("fd_has_close_on_exec", a, b, f); flags("fd_add_flags", a, b, f); }
		else { char q[300]; int m = rndn(200); for (k = 0; k < m; k++) q[k] = rndn(6) ? 'a' + rndn(26) : '/'; q[m] = 0; for (k = 0; k < 3; k++) { sync1(k, q); if (i < 9) sync1(k, P[i]); }
			CHECK(sync_file(NULL) < 0 && sync_folder(NULL) < 0 && sync_file_and_folder(NULL) < 0, "missing path accepted"); }
	}
	return 0; }
int replay(const char *p, int c, char **v) { if (c < 4) return 3; flags(v[0], strtoul(v[1], 0, 10), strtoul(v[2], 0, 10), strtoul(v[3], 0, 10)); return 0; }
