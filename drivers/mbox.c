/* model-based histories of mbox and dynmbox; "another thread" runs in the
 * hooks of lock release and of the waits */
#include "drv.h"
#include <limits.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <time.h>
#include <futils/mbox.h>
#include <futils/dynmbox.h>
#define RING 65536
/* ------------------------------------------------- resources, faults, lock */
static int track, live, fds_live, alloc_fail, pipe_fail, held, armed, depth;
void *__real_calloc(size_t, size_t); void *__real_malloc(size_t); void __real_free(void *);
static void *L[64]; static void ladd(void *p) { int i; if (!p || !track) return; for (i = 0; i < 64; i++) if (!L[i]) { L[i] = p; live++; return; } }
static int ofail(void) { if (track && alloc_fail && !--alloc_fail) { errno = ENOMEM; return 1; } return 0; }
void *__wrap_calloc(size_t a, size_t b) { if (ofail()) return NULL; void *p = __real_calloc(a, b); ladd(p); return p; }
void *__wrap_malloc(size_t a) { if (ofail()) return NULL; void *p = __real_malloc(a); if (p && track) memset(p, 0xa5, a); ladd(p); return p; }
void __wrap_free(void *p) { int i; if (p) for (i = 0; i < 64; i++) if (L[i] == p) { L[i] = NULL; live--; break; } __real_free(p); }
int __real_pipe(int *), __real_pipe2(int *, int), __real_close(int);
int __wrap_pipe(int *f) { if (pipe_fail) { errno = pipe_fail; return -1; } int r = __real_pipe(f); if (!r) fds_live += 2; return r; }
int __wrap_pipe2(int *f, int g) { if (pipe_fail) { errno = pipe_fail; return -1; } int r = __real_pipe2(f, g); if (!r) fds_live += 2; return r; }
int __wrap_close(int fd) { int r = __real_close(fd); CHECK(r == 0, "close of a descriptor that is not open"); fds_live--; return r; }
static void after_release(int waiting);
int __real_pthread_mutex_lock(pthread_mutex_t *), __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { CHECK(!held, "lock taken twice"); held++; return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { CHECK(held, "unlock without the lock"); held--; int r = __real_pthread_mutex_unlock(m); after_release(0); return r; }
static int wakes; int __real_pthread_cond_signal(pthread_cond_t *), __real_pthread_cond_broadcast(pthread_cond_t *);
int __wrap_pthread_cond_signal(pthread_cond_t *c) { wakes++; return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { wakes++; return __real_pthread_cond_broadcast(c); }
/* ------------------------------------------------------------------- clock */
static int io_on; static int64_t now_s, now_us; static int clock_fail; static unsigned timeout; static int timedout, waits;
int __wrap_gettimeofday(struct timeval *tv, void *z) { (void)z; if (clock_fail) { errno = clock_fail; return -1; } tv->tv_sec = now_s; tv->tv_usec = now_us; return 0; }
int __wrap_clock_gettime(clockid_t k, struct timespec *t) { CHECK(k == CLOCK_REALTIME || io_on, "deadline taken from clock %d", (int)k); if (clock_fail) { errno = clock_fail; return -1; } t->tv_sec = now_s; t->tv_nsec = now_us * 1000; return 0; }
static void released(pthread_mutex_t *m) { CHECK(held, "waiting without the lock"); held--; __real_pthread_mutex_unlock(m); after_release(1); CHECK(!held, "lock kept by another call"); held++; __real_pthread_mutex_lock(m); waits++; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { (void)c; CHECK(timeout == 0, "endless wait although the timeout is %u ms", timeout); released(m); return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void)c;
	CHECK(timeout > 0, "a wait without timeout has a deadline"); CHECK(t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "deadline with %ld ns", (long)t->tv_nsec);
	__int128 d = (__int128)t->tv_sec * 1000000000 + t->tv_nsec, w = ((__int128)now_s * 1000000 + now_us) * 1000 + (__int128)timeout * 1000000;
	CHECK(d == w, "timeout %u ms at %lld.%06lld: deadline %lld.%09ld", timeout, (long long)now_s, (long long)now_us, (long long)t->tv_sec, (long)t->tv_nsec);
	if (rndn(4) == 0) { timedout = 1; return ETIMEDOUT; } released(m); return 0; }
/* -------------------------------------------- system calls of mbox, faults */
static int wr_ok, rd_ok, last_err, eintr, io_fail, poll_ret, poll_first, polled, wfd = -1, rd_eof; static size_t msz;
ssize_t __real_write(int, const void *, size_t), __real_read(int, void *, size_t); int __real_poll(struct pollfd *, nfds_t, int);
static int fault(void) { if (eintr > 0) { eintr--; errno = last_err = EINTR; return 1; } if (io_fail) { errno = last_err = io_fail; return 1; } return 0; }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (!io_on) return __real_write(fd, b, n); CHECK(n == msz, "write of %zu bytes of a message of %zu", n, msz); if (fault()) return -1; ssize_t r = __real_write(fd, b, n); if (r < 0) last_err = errno; else { CHECK(r == (ssize_t)n, "message torn: %zd of %zu", r, n); wr_ok++; } return r; }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (!io_on) return __real_read(fd, b, n); if (fault()) return -1; if (rd_eof) return 0; ssize_t r = __real_read(fd, b, n); if (r < 0) last_err = errno; else rd_ok++; return r; }
static int races; static void makeroom(struct pollfd *p);
int __wrap_poll(struct pollfd *p, nfds_t n, int to) { CHECK(n == 1 && p->fd == wfd && (p->events & POLLOUT), "wait on the wrong descriptor"); polled++;
	if (timeout == 0) CHECK(to < 0, "endless wait has timeout %d", to); else CHECK(to == (int)timeout, "timeout %u ms, no time has passed: waits %d ms", timeout, to);
	poll_first = 0; if (eintr > 0 && rndn(2)) { eintr--; errno = EINTR; return -1; } if (poll_ret < 0) { errno = last_err = -poll_ret; return -1; } if (poll_ret == 0 && timeout) return 0;
	p->revents = 0; if (__real_poll(p, 1, 0) == 1) return 1; p->revents = POLLOUT;
	if (races < 3 && rndn(2)) { races++; return 1; } /* another producer is faster */ if (timeout && rndn(3) == 0) { poll_ret = 0; return 0; } makeroom(p); return 1; }
/* ------------------------------------------------------- the dynamic model */
struct m { size_t n; uint64_t seed; };
static struct m Q[40000]; static size_t qh, qt, used, maxsz; static struct dynmbox *B; static int quiet; /* tentative message at Q[qt] counted in used */
static uint8_t pat(uint64_t s, size_t i) { return (uint8_t)((s + i * 0x9E3779B97F4A7C15ull) >> 29) ^ (uint8_t)i; }
static int pending(void) { int n = -1; ioctl(dynmbox_get_read_fd(B), FIONREAD, &n); return n; }
static size_t maybe; /* 1 while a push that must succeed is executing */
static int dpeek(void) {
	uint8_t *buf = __real_malloc(maxsz + 32); memset(buf, 0xc3, maxsz + 32); size_t i; int w0 = wakes; depth++;
	ssize_t r = dynmbox_peek(B, buf + 16); EVAL();
	CHECK(!held, "peek returns with the lock held");
	if (qh == qt + maybe) { CHECK(r == -EAGAIN, "peek of an empty box returns %zd", r); r = -1; }
	else if (r == -EAGAIN && qh == qt) r = -1; /* the message being pushed is not there yet */
	else { CHECK(r == (ssize_t)Q[qh].n, "peek returns %zd, oldest message has %zu bytes", r, Q[qh].n); for (i = 0; i < Q[qh].n; i++) CHECK(buf[16 + i] == pat(Q[qh].seed, i), "byte %zu of a message of %zu changed", i, Q[qh].n);
		used -= 4 + Q[qh].n; qh++; CHECK(wakes > w0, "a peek frees space without waking a waiting pusher"); r = 0; }
	size_t e = r < 0 ? 0 : Q[qh - 1].n; for (i = 0; i < maxsz + 32; i++) if (i < 16 || i >= 16 + e) CHECK(buf[i] == 0xc3, "peek writes outside the message (offset %zd, message of %zu)", (ssize_t)i - 16, e);
	depth--; __real_free(buf); return r < 0 ? 0 : 1;
}
/* other threads: at every release the descriptor counts the queued messages */
static void after_release(int waiting) {
	if (!armed || depth) return; depth++; unsigned t0 = timeout; int n = pending(), k, r;
	if (waiting) CHECK(n == (int)(qt - qh), "%d notification bytes while %zu messages are queued (lock released to wait)", n, qt - qh);
	CHECK(n >= (int)(qt - qh) && n <= (int)(qt + maybe - qh), "%d notification bytes, %zu messages queued", n, qt - qh);
	if (waiting) { r = waits > 6 ? n : (int)rndn(n + 1); if (r > 300 && waits <= 6) r = 300; for (k = 0; k < r; k++) dpeek(); }
	else if (rndn(3) == 0) { if (n) { CHECK(dpeek(), "descriptor readable, but nothing to peek"); } else CHECK(!dpeek(), "a message is queued, but the descriptor is not readable"); CHECK(pending() == n - (n > 0), "notification bytes %d after the peek, before %d", pending(), n); }
	timeout = t0; depth--;
}
static void dpush(size_t n, int block, unsigned tmo) {
	uint64_t s = rnd(); uint8_t *b = __real_malloc(n + 1); size_t i; int r, big = n > maxsz, fit = used + 4 + n <= RING; for (i = 0; i < n; i++) b[i] = pat(s, i);
	int nul = n > 0 && rndn(50) == 0; EVAL();
	timeout = tmo; timedout = waits = 0; clock_fail = block && tmo && rndn(40) == 0 ? 1 + rndn(40) : 0;
	int bad = big || nul || clock_fail; size_t h0 = qh;
	if (!bad && (fit || block)) { if (qt + 1 >= 40000) { __real_free(b); return; } Q[qt] = (struct m){n, s}; maybe = 1; if (fit) used += 4 + n; }
	r = block ? dynmbox_push_block(B, nul ? NULL : b, n, tmo) : dynmbox_push(B, nul ? NULL : b, n);
	maybe = 0; CHECK(!held, "push returns with the lock held");
	if (big || nul) CHECK(r == -EINVAL, "push of %zu bytes (maximum %zu%s) returns %d", n, maxsz, nul ? ", no message" : "", r);
	else if (clock_fail) CHECK(r == -clock_fail, "clock failure %d reported as %d", clock_fail, r);
	else if (!block) CHECK(r == (fit ? 0 : -EAGAIN), "push of %zu bytes with %zu of %d used returns %d", n, used, RING, r);
	else CHECK(timedout ? r == -ETIMEDOUT : r == 0, "blocking push (timeout %u, %s) returns %d", tmo, timedout ? "timed out" : "room was made", r);
	if (r == 0) { if (!fit) { used += 4 + n; CHECK(waits > 0, "queued without room"); } qt++; } else CHECK(h0 <= qt, "a refused message was delivered");
	clock_fail = 0; for (i = 0; i < n; i++) CHECK(b[i] == pat(s, i), "push changes the message"); __real_free(b);
	int q = pending(); CHECK(q == (int)(qt - qh), "%d notification bytes, %zu messages queued", q, qt - qh);
}
static void dopen(size_t max) { int f; track = 1; B = dynmbox_new(max); track = 0; CHECK(B, "creation with maximum %zu refused", max); maxsz = max; qh = qt = used = maybe = 0; armed = 1;
	CHECK(dynmbox_get_max_size(B) == (ssize_t)max, "maximum size"); for (f = 0; f < 2; f++) { int x = dynmbox_get_read_fd(B) + f; if (f && fcntl(x, F_GETFD) < 0) continue; CHECK(fcntl(x, F_GETFL) & O_NONBLOCK, "end %d of the pipe blocks", f); CHECK(fcntl(x, F_GETFD) & FD_CLOEXEC, "end %d of the pipe is inherited by children", f); } }
static void dclose(void) { armed = 0; dynmbox_destroy(B); CHECK(!live && !fds_live, "destroy leaves %d blocks and %d descriptors", live, fds_live); }
static void qshift(void) { if (qh > 1000) { memmove(Q, Q + qh, (qt - qh) * sizeof *Q); qt -= qh; qh = 0; } }
/* bring the ring to read index R with U bytes used (as messages of maximum size max), then run */
static void ring(size_t R, size_t U) { size_t n, left = R; while (left) { n = left < 8 ? left : 4 + maxsz <= left ? 4 + maxsz : left; if (left - n < 4 && left != n) n -= 4 - (left - n) % 4 < n ? 4 : 0; if (n < 4) break; dpush(n - 4, 0, 0); while (dpeek()); left -= n; qshift(); }
	left = U; while (left >= 4) { n = 4 + maxsz <= left ? 4 + maxsz : left; dpush(n - 4, 0, 0); left -= n; } }
static void history(int len, size_t max, int blocking) {
	int i, k; dopen(max); int style = rndn(4); for (i = 0; i < len; i++) { qshift();
		size_t n = style == 0 ? rndn(max + 1) : style == 1 ? rndn(max < 40 ? max + 1 : 40) : style == 2 ? max - rndn(max < 8 ? max + 1 : 8) : (rndn(2) ? max : rndn(max + 1)); if (rndn(20) == 0) n = max + 1 + rndn(3);
		if (rndn(12) == 0 && used + 4 < RING) { n = RING - used - 4 + (rndn(3) - 1); if (n > max + 2 || (ssize_t)n < 0) n = max; }
		k = rndn(100); now_s = rndn(1u << 31); now_us = rndn(4) ? rndn(1000000) : 999999;
		if (k < 45) dpush(n, 0, 0); else if (k < 60 && blocking) dpush(n, 1, rndn(2) ? 0 : rndn(3) ? 1 + rndn(100000) : (uint32_t)rndv(32)); else { if (rndn(30) == 0) CHECK(dynmbox_peek(B, NULL) == -EINVAL, "missing argument"); k = rndn(3) ? 1 : rndn(60); while (k-- && dpeek()); }
		int q = pending(); CHECK(q == (int)(qt - qh), "%d notification bytes, %zu messages queued", q, qt - qh); }
	while (dpeek()); CHECK(qh == qt && used == 0, "messages lost"); dclose(); }
static void dlife(size_t max) { int k; struct dynmbox *b;
	for (k = 0; k < 5; k++) { track = 1; alloc_fail = k <= 2 ? k : 0; pipe_fail = k == 3 ? EMFILE : 0; EVAL(); int ok = max <= DYNMBOX_MAX_SIZE && (k == 0 || k == 4); b = dynmbox_new(max); track = 0; alloc_fail = pipe_fail = 0;
		CHECK(!b || ok, "dynmbox of maximum %zu created (failing step %d)", max, k); CHECK(b || !ok, "dynmbox of maximum %zu refused", max); if (b) dynmbox_destroy(b); CHECK(!live && !fds_live, "maximum %zu, failing step %d: %d blocks and %d descriptors left", max, k, live, fds_live); }
	CHECK(dynmbox_get_read_fd(NULL) == -1 && dynmbox_get_max_size(NULL) == -EINVAL && dynmbox_push(NULL, "", 1) == -EINVAL && dynmbox_push_block(NULL, "", 1, 1) == -EINVAL && dynmbox_peek(NULL, &k) == -EINVAL, "no box"); dynmbox_destroy(NULL); }
static void args(void) { char c = 0; dopen(16); armed = 0; CHECK(dynmbox_push(B, NULL, 1) == -EINVAL && dynmbox_push_block(B, NULL, 1, 0) == -EINVAL && dynmbox_peek(B, NULL) == -EINVAL && dynmbox_push(B, &c, 17) == -EINVAL, "bad argument accepted"); CHECK(pending() == 0, "refused message is notified"); dclose(); }
/* -------------------------------------------------------------------- mbox */
static struct mbox *M; static uint64_t S[100000]; static size_t sh, st_;
static void mopen(size_t n) { int f, p[2]; track = 1; M = mbox_new(n); track = 0; CHECK(M, "mbox of %zu bytes refused", n); (void)p; msz = n; sh = st_ = 0; for (f = 0; f < 2; f++) { int x = mbox_get_read_fd(M) + f; CHECK(fcntl(x, F_GETFL) & O_NONBLOCK, "end %d of the pipe blocks", f); CHECK(fcntl(x, F_GETFD) & FD_CLOEXEC, "end %d of the pipe is inherited by children", f); } wfd = mbox_get_read_fd(M) + 1; }
static void mclose(void) { mbox_destroy(M); CHECK(!live && !fds_live, "destroy leaves %d blocks and %d descriptors", live, fds_live); }
static void faults(void) { eintr = rndn(4) ? 0 : rndn(5); io_fail = rndn(12) ? 0 : EIO; last_err = 0; wr_ok = rd_ok = 0; }
/* a consumer elsewhere */
static void makeroom(struct pollfd *p) { uint8_t *b = __real_malloc(msz); size_t i; do { CHECK(__real_read(wfd - 1, b, msz) == (ssize_t)msz && sh < st_, "the box is not writable, but empty"); for (i = 0; i < msz; i++) CHECK(b[i] == pat(S[sh], i), "byte %zu of a message changed", i); sh++; } while (__real_poll(p, 1, 0) != 1); __real_free(b); }
static int mpush(int block, unsigned tmo) {
	uint64_t s = rnd(); uint8_t *b = __real_malloc(msz); size_t i; int r; for (i = 0; i < msz; i++) b[i] = pat(s, i); EVAL(); faults();
	timeout = tmo; poll_first = 1; polled = races = 0; poll_ret = block ? (rndn(4) ? 1 : rndn(2) ? 0 : -ENOMEM) : 1; io_on = 1;
	r = block ? mbox_push_block(M, b, tmo) : mbox_push(M, b); io_on = 0; eintr = 0;
	if (block && tmo > INT_MAX) CHECK(r == -EINVAL && !polled, "timeout %u ms returns %d after %d waits", tmo, r, polled);
	else if (block && poll_ret == 0 && tmo) CHECK(r == -ETIMEDOUT && !wr_ok, "timed out wait returns %d", r);
	else if (block && poll_ret < 0) CHECK(r == poll_ret, "failing wait returns %d", r);
	else if (block && !io_fail) CHECK(r == 0 && wr_ok == 1, "a blocking push that did not time out returns %d (%d times another producer took the room), message written %d times", r, races, wr_ok);
	else { CHECK(wr_ok <= 1, "message written %d times", wr_ok); CHECK(r == (wr_ok ? 0 : -last_err), "write %s (error %d) is reported as %d", wr_ok ? "done" : "failed", last_err, r); CHECK(r != -EINTR, "interruption reported"); if (st_ == sh && !io_fail) CHECK(r == 0, "push to an empty box returns %d", r); }
	CHECK((r == 0) == (wr_ok == 1), "returns %d, message written %d times", r, wr_ok);
	io_fail = 0; for (i = 0; i < msz; i++) CHECK(b[i] == pat(s, i), "push changes the message"); __real_free(b); if (r == 0) S[st_++] = s; return r; }
static int mpeek(int noisy) {
	uint8_t *b = __real_malloc(msz + 32); size_t i; int r; memset(b, 0xc3, msz + 32); EVAL(); if (noisy) faults(); else eintr = io_fail = 0; rd_ok = 0; rd_eof = noisy && sh == st_ && rndn(8) == 0; io_on = 1; r = mbox_peek(M, b + 16); io_on = 0; eintr = 0;
	if (io_fail) CHECK(r == -io_fail, "failing read returns %d", r); else if (rd_eof) CHECK(r == -EPIPE, "end of file returns %d", r); else CHECK(r == (sh == st_ ? -EAGAIN : 0), "peek of a box with %zu messages returns %d", st_ - sh, r);
	if (r == 0) { for (i = 0; i < msz; i++) CHECK(b[16 + i] == pat(S[sh], i), "byte %zu of a message of %zu changed", i, msz); sh++; }
	for (i = 0; i < msz + 32; i++) if (r || i < 16 || i >= 16 + msz) CHECK(b[i] == 0xc3, "peek writes outside the message (offset %zd)", (ssize_t)i - 16);
	io_fail = rd_eof = 0; __real_free(b); return r == 0; }
static void mhist(size_t n, int len, int block) { int i, k; mopen(n); for (i = 0; i < len && st_ < 90000; i++) { k = rndn(100);
		if (k < 10 && block) { mpush(1, rndn(2) ? 0 : rndn(3) ? 1 + rndn(100000) : (uint32_t)rndv(32)); } else if (k < 55) mpush(0, 0); else if (k < 58) { int j = rndn(200); while (j-- && st_ < 90000) mpush(0, 0); } else if (k < 61) { int j = rndn(200); while (j--) mpeek(1); } else mpeek(1); if (rndn(40) == 0) { char c; CHECK(mbox_push(M, NULL) == -EINVAL && mbox_push_block(M, NULL, 1) == -EINVAL && mbox_peek(M, NULL) == -EINVAL && mbox_push(NULL, &c) == -EINVAL && mbox_push_block(NULL, &c, 1) == -EINVAL && mbox_peek(NULL, &c) == -EINVAL, "missing argument accepted"); } }
	while (mpeek(0)); CHECK(sh == st_, "messages lost"); mclose(); }
static void mlife(size_t n) { int k; struct mbox *b;
	for (k = 0; k < 3; k++) { track = 1; alloc_fail = k == 1; pipe_fail = k == 2 ? EMFILE : 0; EVAL(); int ok = n > 0 && n < PIPE_BUF && k == 0; b = mbox_new(n); track = 0; alloc_fail = pipe_fail = 0;
		CHECK(!b || ok, "mbox of %zu bytes created (failing step %d)", n, k); CHECK(b || !ok, "mbox of %zu bytes refused", n); if (b) mbox_destroy(b); CHECK(!live && !fds_live, "%zu bytes, failing step %d: %d blocks and %d descriptors left", n, k, live, fds_live); }
	CHECK(mbox_get_read_fd(NULL) == -1, "no box"); mbox_destroy(NULL); }
static void dblock(size_t max, unsigned tmo) { int i; for (i = 0; i < 6; i++) { dopen(max); now_s = rndn(1u << 31); now_us = rndn(1000000); while (used + 4 + max <= RING) dpush(max, 0, 0); qshift(); dpush(max, 1, tmo); while (dpeek()); dclose(); } }
int sweep(const char *p, uint64_t n) { uint64_t i; static const size_t SZ[] = {0, 1, 2, 3, 4, 5, 7, 8, 16, 60, 255, 1000, 4092, 16380, 32764, 32765, 65531, 65532};
	if (!strcmp(p, "C20")) { for (i = 0; i < 40; i++) { mlife(i < 20 ? i : i < 30 ? 4086 + i - 20 : 4090 + i - 30); mlife(rndv(64)); } for (i = 0; i < n; i++) { size_t z = i < 8 ? 1 + i : i < 12 ? 4095 - (i - 8) : 1 + rndn(4095); mhist(z, 400, 1); } return 0; }
	if (!strcmp(p, "C33")) { for (i = 0; i < n; i++) { dblock(rndn(2) ? 65532 : 1 + rndn(60000), rndn(3) ? 1 + rndn(1000000) : (uint32_t)rndv(32)); if (rndn(2) == 0) mhist(1 + rndn(100), 150, 1); } return 0; }
	args(); for (i = 0; i < 18; i++) { dlife(SZ[i]); dlife(65520 + i); dlife(rndv(64)); history(300, SZ[i], 1); }
	for (i = 0; i < n; i++) history(300, rndn(3) ? SZ[rndn(18)] : rndn(65533), 1);
	return 0; }
#define A(i) strtoull(v[i], 0, 10)
int replay(const char *p, int c, char **v) { (void)p; size_t i;
	if (!strcmp(v[0], "args")) args(); else if (!strcmp(v[0], "life")) dlife(A(1)); else if (!strcmp(v[0], "mlife")) mlife(A(1));
	else if (!strcmp(v[0], "mbox")) { if (A(1) < 1 || A(1) >= PIPE_BUF) mlife(A(1)); else for (i = 0; i < 10; i++) mhist(A(1), 200, 0); }
	else if (!strcmp(v[0], "mblock")) { mopen(A(1)); for (i = 0; i < 40; i++) { mpush(1, A(2)); mpeek(1); } while (mpeek(0)); mclose(); }
	else if (c >= 5 && (!strcmp(v[0], "push") || !strcmp(v[0], "block") || !strcmp(v[0], "peek"))) { int blk = v[0][0] == 'b', pk = v[0][1] == 'e', k; size_t max = A(4); if (max > DYNMBOX_MAX_SIZE) return 3;
		for (k = 0; k < 3; k++) { dopen(max); ring(A(1), A(2)); if (!pk) dpush(A(3), blk, blk ? A(5) : 0); while (dpeek()); dclose(); } for (k = 0; k < 10; k++) history(300, max, blk); }
	else return 3; return 0; }
