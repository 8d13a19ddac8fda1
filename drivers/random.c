#define _GNU_SOURCE
#include "drv.h"
#include <fcntl.h>
#include <link.h>
#include <math.h>
#include <setjmp.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <futils/random.h>
/* ---- simulated system sources, one log per thread */
struct src { uint8_t got[5000]; uint8_t have[5000]; uintptr_t base; int n, calls, opens, closes, badfd, full, exhausted; };
static __thread struct src S;
static __thread int fault_script, armed; static __thread jmp_buf aborted; static __thread int failing, shortmax;
static __thread uint64_t sysrnd = 77; static __thread int strong_;
static uint8_t sysb(void) { sysrnd = sysrnd * 6364136223846793005ull + 1442695040888963407ull; return sysrnd >> 33; }
static int oom;
static uint64_t srnd_ = 5; static uint64_t srnd(void) { srnd_ ^= srnd_ << 13; srnd_ ^= srnd_ >> 7; srnd_ ^= srnd_ << 17; return srnd_; }
static void begin(void) { memset(&S, 0, sizeof S); }
static ssize_t give(void *p, size_t n) {
	size_t k; uint8_t *q = p; S.calls++;
	if (!S.n) S.base = (uintptr_t)p; S.n++;
	for (k = 0; k < n; k++) { uint8_t b = sysb(); q[k] = b; uintptr_t o = (uintptr_t)(q + k) - S.base; if (o < sizeof S.got) { S.got[o] = b; S.have[o] = 1; } }
	return n;
}
static ssize_t answer(void *p, size_t n, int dev) {
	if (S.calls > 400) { if (dev) { errno = EIO; return -1; } errno = ENOSYS; return -1; }
	if (!fault_script) return give(p, n);
	switch (srnd() % (fault_script == 2 ? 12 : 7)) {
	case 0: case 1: case 2: { size_t k = 1 + srnd() % n; if (k > n) k = n; return give(p, k); }
	case 3: case 4: S.calls++; errno = EINTR; return -1;
	case 5: return give(p, 1);
	case 6: return give(p, n);
	case 7: S.calls++; return 0;
	default: S.calls++; { static const int e[] = { EAGAIN, ENOSYS, EIO, EPERM, EFAULT }; errno = e[srnd() % 5]; } return -1;
	}
}
ssize_t __wrap_getrandom(void *p, size_t n, unsigned f) { if (strong_ && (f & 4)) FAIL("strong bytes are asked from a source that may not be ready"); return answer(p, n, 0); }
int __wrap_open(const char *p, int fl, ...) { S.opens++; if (strong_ && strcmp(p, "/dev/random")) FAIL("strong bytes are read from %s, which may not be ready", p); if (strcmp(p, "/dev/random") && strcmp(p, "/dev/urandom")) FAIL("random source '%s'", p); if (fault_script == 2 && srnd() % 4 == 0) { errno = ENOENT; return -1; } return 60; }
int __wrap_open64(const char *p, int fl, ...) { return __wrap_open(p, fl); }
int __wrap_openat(int d, const char *p, int fl, ...) { (void)d; return __wrap_open(p, fl); }
long __wrap_syscall(long nr, ...) { va_list a; va_start(a, nr); void *p = va_arg(a, void *); size_t n = va_arg(a, size_t); unsigned fl = va_arg(a, unsigned); va_end(a); if (strong_ && (fl & 4)) FAIL("strong bytes are asked from a source that may not be ready"); if (nr != SYS_getrandom) FAIL("system call %ld", nr); return answer(p, n, 0); }
ssize_t __wrap_read(int fd, void *p, size_t n) { if (fd != 60) FAIL("read of descriptor %d", fd); return answer(p, n, 1); }
int __wrap_close(int fd) { if (fd != 60) FAIL("close of descriptor %d", fd); S.closes++; return 0; }
void __wrap_abort(void) { if (armed) longjmp(aborted, 1); FAIL("abort()"); _exit(1); }
void *__real_malloc(size_t n); static long live; void __real_free(void *);
static __thread int tracked;
void *__wrap_malloc(size_t n) { if (tracked) { if (oom) { errno = ENOMEM; return NULL; } live++; } return __real_malloc(n); }
void __wrap_free(void *p) { if (tracked && p) live--; __real_free(p); }

/* ---- reference: ChaCha20 (RFC 8439) and the pool with fast key erasure */
static void block(const uint32_t in[16], uint8_t out[64]) {
	uint32_t x[16]; int i; memcpy(x, in, 64);
#define R(v, k) (((v) << (k)) | ((v) >> (32 - (k))))
#define Q(a, b, c, d) do { x[a] += x[b]; x[d] ^= x[a]; x[d] = R(x[d], 16); x[c] += x[d]; x[b] ^= x[c]; x[b] = R(x[b], 12); x[a] += x[b]; x[d] ^= x[a]; x[d] = R(x[d], 8); x[c] += x[d]; x[b] ^= x[c]; x[b] = R(x[b], 7); } while (0)
	for (i = 0; i < 10; i++) { Q(0, 4, 8, 12); Q(1, 5, 9, 13); Q(2, 6, 10, 14); Q(3, 7, 11, 15); Q(0, 5, 10, 15); Q(1, 6, 11, 12); Q(2, 7, 8, 13); Q(3, 4, 9, 14); }
	for (i = 0; i < 16; i++) { uint32_t v = x[i] + in[i]; out[4 * i] = v; out[4 * i + 1] = v >> 8; out[4 * i + 2] = v >> 16; out[4 * i + 3] = v >> 24; }
}
static void key(uint32_t x[16], const uint8_t k[44]) {
	static const char c[17] = "expand 32-byte k"; uint8_t b[64]; memcpy(b, c, 16); memcpy(b + 16, k, 32); memset(b + 48, 0, 4); memcpy(b + 52, k + 32, 12);
	int i; for (i = 0; i < 16; i++) x[i] = b[4 * i] | b[4 * i + 1] << 8 | b[4 * i + 2] << 16 | (uint32_t)b[4 * i + 3] << 24;
}
static void stream(uint32_t x[16], uint8_t *o, size_t n) { uint8_t b[64]; while (n) { size_t k = n < 64 ? n : 64; block(x, b); x[12]++; memcpy(o, b, k); o += k; n -= k; } }
struct model { uint32_t x[16]; uint8_t buf[512]; size_t avail; int seeded; };
static struct model M;
static void m_seed(struct model *m, const uint8_t k[44]) { key(m->x, k); m->avail = 0; m->seeded = 1; }
static void m_reload(struct model *m) { size_t c = 512 - m->avail; memmove(m->buf, m->buf + c, m->avail); stream(m->x, m->buf + m->avail, c); m->avail = 512; key(m->x, m->buf); memset(m->buf, 0, 44); m->avail -= 44; }
static void m_take(struct model *m, uint8_t *o, size_t n) { memcpy(o, m->buf + 512 - m->avail, n); memset(m->buf + 512 - m->avail, 0, n); m->avail -= n; }
static void m_rand(struct model *m, uint8_t *o, size_t n) {
	if (n >= 512 - 44) { uint8_t k[44]; uint32_t x[16]; if (m->avail < 44) m_reload(m); m_take(m, k, 44); key(x, k); stream(x, o, n); return; }
	if (m->avail < n) m_reload(m);
	m_take(m, o, n);
}
/* a fresh seed: the model takes the key the system delivered */
static void sync_seed(void) { size_t k; for (k = 0; k < 44; k++) CHECK(S.have[k], "byte %zu of the seed was not delivered by the system", k); CHECK(!S.have[44], "more than a seed was fetched"); m_seed(&M, S.got); begin(); }
static void reseed(void) { begin(); fault_script = 0; int r = futils_random_reseed(); CHECK(r == 0, "reseed = %d with a working source", r); CHECK(S.n, "reseed took nothing from the system"); sync_seed(); }
/* memory that outlives a call: thread-local block and globals of the program */
static uint8_t *tls; static size_t tlsn;
static int cb(struct dl_phdr_info *i, size_t s, void *d) { int k; if (tls) return 0; for (k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { tls = i->dlpi_tls_data; tlsn = i->dlpi_phdr[k].p_memsz; } return 1; }
static void erased(const uint8_t *o, size_t n, const char *w) { size_t k; if (!tls) dl_iterate_phdr(cb, NULL); if (!tls || n < 8 || n > 200000) return;
	const uint8_t *s = (uint8_t *)&S, *e = s + sizeof S;
	for (k = 0; k + 8 <= n; k += k + 16 <= n ? 8 : 1) { uint8_t *q = tls; while ((q = memmem(q, tls + tlsn - q, o + k, 8))) { if (q >= s && q < e) { q++; continue; } FAIL("%s: bytes handed out (offset %zu of %zu) are still in memory", w, k, n); } } }
/* single bytes left where the bytes handed out were: counted, as a byte may be equal by chance */
static struct { unsigned n, first, last, tot, left; } E_[2];
static void survive(const uint8_t *o, size_t n, const uint8_t *q) {
	int c = n > 64; size_t k; unsigned l = 0; E_[c].n++; for (k = 0; k < n; k++) l += o[k] && q[k] == o[k];
	E_[c].first += o[0] && q[0] == o[0]; E_[c].last += o[n - 1] && q[n - 1] == o[n - 1]; E_[c].left += l; E_[c].tot += n;
	if (E_[c].n >= 25) { CHECK(E_[c].first * 4 < E_[c].n, "the first byte of a request stays in memory (%u of %u requests, the last one of %zu bytes)", E_[c].first, E_[c].n, n); CHECK(E_[c].last * 4 < E_[c].n, "the last byte of a request stays in memory (%u of %u requests, the last one of %zu bytes)", E_[c].last, E_[c].n, n); CHECK(E_[c].left * 40 <= E_[c].tot, "%u of %u bytes handed out stay in memory", E_[c].left, E_[c].tot); }
}
/* the key that produced an output must not outlive it */
static void nokey(const uint8_t *o, size_t n) { size_t k; if (!tls) dl_iterate_phdr(cb, NULL); if (!tls || n < 64) return;
	for (k = 0; k + 44 <= tlsn; k++) { uint32_t x[16]; uint8_t b[64]; if ((uint8_t *)&S < tls + k + 44 && tls + k < (uint8_t *)(&S + 1)) continue; key(x, tls + k); block(x, b); if (!memcmp(b, o, 64)) FAIL("the key that produced a request of %zu bytes is still in memory", n); } }
/* request of n bytes against the model */
static void req(size_t n) {
	uint8_t *b = malloc(n + 64), *w = malloc(n + 1), *q = NULL; memset(b, 0xa5, n + 64); begin(); EVAL();
	if (!tls) dl_iterate_phdr(cb, NULL);
	if (tls && n >= 8 && n <= M.avail) q = memmem(tls, tlsn, M.buf + 512 - M.avail, n);
	futils_random(b + 32, n); if (S.n) { sync_seed(); q = NULL; }
	m_rand(&M, w, n); if (q && n < 512 - 44) survive(w, n, q); if (n >= 512 - 44) nokey(w, n); if (memcmp(b + 32, w, n)) { size_t k = 0; while (b[32 + k] == w[k]) k++; FAIL("request of %zu bytes: byte %zu is not the next byte of the key stream (%zu were available)", n, k, M.avail); }
	size_t k; for (k = 0; k < 32; k++) CHECK(b[k] == 0xa5 && b[32 + n + k] == 0xa5, "request of %zu bytes writes outside the buffer", n);
	erased(w, n, "request"); memset(w, 0, n); free(b); free(w);
}
static void nextword(uint64_t v, int bytes, const char *w) { uint64_t x = 0; begin(); m_rand(&M, (uint8_t *)&x, bytes); CHECK(v == x, "%s = %llx but the next %d bytes of the stream are %llx", w, (unsigned long long)v, bytes, (unsigned long long)x); EVAL(); }
static void api(void) {
	uint8_t a8; uint16_t a16; uint32_t a32; uint64_t a64; uint8_t b[9];
	reseed(); int i; for (i = 0; i < 300; i++) {
		nextword(futils_randomr8(), 1, "randomr8"); nextword(futils_randomr16(), 2, "randomr16"); nextword(futils_randomr32(), 4, "randomr32"); nextword(futils_randomr64(), 8, "randomr64");
		CHECK(futils_random8(&a8) == 0, "random8"); nextword(a8, 1, "random8"); CHECK(futils_random16(&a16) == 0, "random16"); nextword(a16, 2, "random16");
		CHECK(futils_random32(&a32) == 0, "random32"); nextword(a32, 4, "random32"); CHECK(futils_random64(&a64) == 0, "random64"); nextword(a64, 8, "random64");
		memset(b, 0xa5, 9); CHECK(futils_random_bytes(b, 8) == 0, "random_bytes"); memcpy(&a64, b, 8); nextword(a64, 8, "random_bytes"); CHECK(b[8] == 0xa5, "random_bytes writes too much");
	}
	CHECK(futils_random8(NULL) == -EINVAL && futils_random16(NULL) == -EINVAL && futils_random32(NULL) == -EINVAL && futils_random64(NULL) == -EINVAL, "missing output accepted");
	CHECK(futils_random8_maximum(NULL, 3) == -EINVAL && futils_random16_maximum(NULL, 3) == -EINVAL && futils_random32_maximum(NULL, 3) == -EINVAL && futils_random64_maximum(NULL, 3) == -EINVAL, "missing output accepted");
	CHECK(futils_random_bytes(NULL, 3) == -EINVAL && futils_random_bytes(b, 0) == -EINVAL, "missing buffer accepted");
}
/* ---- C15: range and balance, whatever way the words are used */
static uint64_t bounded(int bits, uint64_t m) {
	uint8_t a; uint16_t b; uint32_t c; uint64_t d;
	int w = rnd() & 1;
	switch (bits) {
	case 8: if (w) return futils_randomr8_maximum(m); CHECK(!futils_random8_maximum(&a, m), "maximum"); return a;
	case 16: if (w) return futils_randomr16_maximum(m); CHECK(!futils_random16_maximum(&b, m), "maximum"); return b;
	case 32: if (w) return futils_randomr32_maximum(m); CHECK(!futils_random32_maximum(&c, m), "maximum"); return c;
	default: if (w) return futils_randomr64_maximum(m); CHECK(!futils_random64_maximum(&d, m), "maximum"); return d;
	}
}
static void maxi(int bits, uint64_t m, int n) {
	uint64_t cnt[16] = { 0 }, buckets = m < 15 ? m + 1 : 7, last[257] = { 0 }, ones[64] = { 0 }, i; double e; int b, low = 0;
	while (low < 51 && (m >> 13) >> low > 1) low++;      /* bits below this one are balanced up to 2^-12 */
	for (i = 0; i < (uint64_t)n; i++) {
		uint64_t v = bounded(bits, m); EVAL(); CHECK(v <= m, "random%d_maximum(%llu) = %llu", bits, (unsigned long long)m, (unsigned long long)v);
		cnt[m < 15 ? v : (uint64_t)((unsigned __int128)v * 7 / ((unsigned __int128)m + 1))]++;
		if (m < 256) last[v]++;
		for (b = 0; b < low; b++) ones[b] += v >> b & 1;
	}
	if (n < 2000) return;
	for (i = 0; i < buckets; i++) {
		double p = m < 15 ? 1.0 / (m + 1) : ((double)(uint64_t)((((unsigned __int128)(i + 1) * ((unsigned __int128)m + 1) + 6) / 7) - (((unsigned __int128)i * ((unsigned __int128)m + 1) + 6) / 7))) / ((double)m + 1);
		e = n * p; CHECK(fabs(cnt[i] - e) <= 7 * sqrt(e * (1 - p)) + 1, "random%d_maximum(%llu): part %llu of the range drawn %llu times out of %d", bits, (unsigned long long)m, (unsigned long long)i, (unsigned long long)cnt[i], n);
	}
	if (m < 256) for (i = 0; i <= m; i++) { double p = 1.0 / (m + 1); e = n * p; CHECK(fabs(last[i] - e) <= 7 * sqrt(e * (1 - p)) + 1, "random%d_maximum(%llu): %llu drawn %llu times out of %d", bits, (unsigned long long)m, (unsigned long long)i, (unsigned long long)last[i], n); }
	for (b = 0; b < low; b++) CHECK(fabs(ones[b] - n / 2.0) <= 3.5 * sqrt(n) + n / 4096.0 + 1, "random%d_maximum(%llu): bit %d set %llu times out of %d", bits, (unsigned long long)m, b, (unsigned long long)ones[b], n);
}
/* no value of any byte of a wide draw is missing or too frequent */
static void bytes_(int bits, int k, int n) {
	static int c[8][256]; int i, j; memset(c, 0, sizeof c); uint64_t m = k == 64 ? ~0ull : (1ull << k) - 1;
	for (i = 0; i < n; i++) { uint64_t v = bits == 1 ? (uint64_t)ldexp(futils_randomrd(), 53) >> 5 : bits == 2 ? (uint64_t)ldexp(futils_randomrf(), 24) : bounded(bits, m); EVAL(); for (j = 0; j < k / 8; j++) c[j][v >> (8 * j) & 255]++; }
	double e = n / 256.0; for (j = 0; j < k / 8; j++) for (i = 0; i < 256; i++) CHECK(fabs(c[j][i] - e) <= 7.5 * sqrt(e) + 1, "%s %d: byte %d has the value %d %d times out of %d", bits < 3 ? "float of bits" : "draws of bits", k, j, i, c[j][i], n);
}
/* no two bits of a wide draw, or of two draws in a row, move together */
static void joint(int bits, int k, int n) {
	static int in[64][64], ac[64][64]; int t, i, j; uint64_t v, o = 0, m = k == 64 ? ~0ull : (1ull << k) - 1; memset(in, 0, sizeof in); memset(ac, 0, sizeof ac);
	for (t = 0; t <= n; t++) { v = bits == 1 ? (uint64_t)ldexp(futils_randomrd(), 53) : bits == 2 ? (uint64_t)ldexp(futils_randomrf(), 24) : bounded(bits, m); EVAL();
		if (t) for (i = 0; i < k; i++) { uint64_t a = v ^ -(v >> i & 1), b = o ^ -(v >> i & 1); for (j = 0; j < k; j++) { in[i][j] += a >> j & 1; ac[i][j] += b >> j & 1; } } o = v; }
	double tol = 3.6 * sqrt(n); for (i = 0; i < k; i++) for (j = 0; j < k; j++) { if (j < i) CHECK(fabs(in[i][j] - n / 2.0) < tol, "%s %d: bits %d and %d differ %d times out of %d", bits < 3 ? "float of bits" : "draws of bits", k, i, j, in[i][j], n);
		CHECK(fabs(ac[i][j] - n / 2.0) < tol, "%s %d: bit %d and bit %d of the draw before differ %d times out of %d", bits < 3 ? "float of bits" : "draws of bits", k, i, j, ac[i][j], n); }
}
static void allbytes(int n) { int q; joint(8, 8, 3000); for (q = 8; q <= 16; q += 8) joint(16, q, 3000); for (q = 8; q <= 32; q += 8) joint(32, q, 3000); for (q = 8; q <= 64; q += 8) joint(64, q, 3000); joint(64, 62, 3000); joint(1, 53, 3000); joint(2, 24, 3000);
	 int k; bytes_(8, 8, n); for (k = 8; k <= 16; k += 8) bytes_(16, k, n); for (k = 8; k <= 32; k += 8) bytes_(32, k, n); for (k = 8; k <= 64; k += 8) bytes_(64, k, n); bytes_(1, 48, n); bytes_(2, 24, n); }
static void reals(int n) {
	uint64_t ones[53] = { 0 }, pair[53] = { 0 }; int i, k; uint64_t f1[24] = { 0 }, f2[24] = { 0 };
	for (i = 0; i < n; i++) {
		double d = futils_randomrd(); float f = futils_randomrf(); EVAL();
		CHECK(d >= 0 && d < 1, "randomrd = %a", d); double x = ldexp(d, 53); CHECK(x == floor(x), "randomrd = %a is not on the grid", d);
		CHECK(f >= 0 && f < 1, "randomrf = %a", f); double y = ldexp(f, 24); CHECK(y == floor(y), "randomrf = %a is not on the grid", f);
		uint64_t u = x, w = y; for (k = 0; k < 53; k++) { ones[k] += u >> k & 1; if (k) pair[k] += (u >> k ^ u >> (k - 1)) & 1; } for (k = 0; k < 24; k++) { f1[k] += w >> k & 1; if (k) f2[k] += (w >> k ^ w >> (k - 1)) & 1; }
	}
	double tol = 3.5 * sqrt(n);
	for (k = 0; k < 53; k++) CHECK(fabs(ones[k] - n / 2.0) < tol && (!k || fabs(pair[k] - n / 2.0) < tol), "bit %d of randomrd is not balanced (%llu of %d)", k, (unsigned long long)ones[k], n);
	for (k = 0; k < 24; k++) CHECK(fabs(f1[k] - n / 2.0) < tol && (!k || fabs(f2[k] - n / 2.0) < tol), "bit %d of randomrf is not balanced (%llu of %d)", k, (unsigned long long)f1[k], n);
}
/* ---- C16 */
static const char *AL[] = { "0123456789abcdef", "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/" };
static int kindof(const char *s) { return !strcmp(s, "base16") ? 0 : !strcmp(s, "base32") ? 1 : 2; }
static int callstr(int k, char *b, size_t l, size_t c) { return k == 0 ? futils_random_base16(b, l, c) : k == 1 ? futils_random_base32(b, l, c) : futils_random_base64(b, l, c); }
static unsigned long long full_(int k, unsigned long long c) { return k == 0 ? c * 2 : k == 1 ? (c + 4) / 5 * 8 : (c + 2) / 3 * 4; }
/* symbols and the number of bits the last one carries */
static void shape(int k, size_t c, size_t *sym, int *lastbits) { static const int B[] = { 4, 5, 6 }; size_t bits = c * 8; *sym = (bits + B[k] - 1) / B[k]; *lastbits = bits % B[k] ? bits % B[k] : B[k]; }
static void str1(int k, size_t len, size_t count) {
	static const int B[] = { 4, 5, 6 }; static const char *N[] = { "base16", "base32", "base64" };
	if (count > ((size_t)1 << 61)) { char t[4] = { 1, 2, 3, 4 }; int r = callstr(k, t, len > 4 ? 4 : len, count); CHECK(r == -EINVAL && t[0] == 1 && t[3] == 4, "%s of %zu bytes = %d", N[k], count, r); return; }
	unsigned long long full = full_(k, count); size_t i, sym; int lb; shape(k, count, &sym, &lb);
	char *b = malloc(len + 32); memset(b, 0x5a, len + 32); EVAL();
	int r = callstr(k, b + 16, len, count);
	if (full > 2147483647ull) { CHECK(r < 0, "%s of %zu bytes accepted: %d", N[k], count, r); for (i = 0; i < len + 32; i++) CHECK(b[i] == 0x5a, "refused request writes"); free(b); return; }
	CHECK((unsigned long long)r == full, "%s(len %zu, count %zu) = %d, not %llu", N[k], len, count, r, full);
	for (i = 0; i < 16; i++) CHECK(b[i] == 0x5a && b[16 + len + i] == 0x5a, "%s(len %zu, count %zu) writes outside the buffer", N[k], len, count);
	if (len) { size_t vis = full < len - 1 ? full : len - 1; char *p = b + 16;
		CHECK(p[vis] == 0, "%s(len %zu, count %zu): not terminated at %zu", N[k], len, count, vis);
		for (i = vis + 1; i < len; i++) CHECK(p[i] == 0x5a, "%s(len %zu, count %zu): byte %zu after the text written", N[k], len, count, i);
		for (i = 0; i < vis; i++) { const char *q = p[i] ? strchr(AL[k], p[i]) : NULL;
			if (i < sym) { CHECK(q, "%s(len %zu, count %zu): symbol %zu is %02x", N[k], len, count, i, (uint8_t)p[i]); if (i == sym - 1) CHECK(!((q - AL[k]) & ((1 << (B[k] - lb)) - 1)), "%s(len %zu, count %zu): last symbol '%c' carries bits beyond the data", N[k], len, count, p[i]); }
			else CHECK(p[i] == '=', "%s(len %zu, count %zu): padding at %zu is %02x", N[k], len, count, i, (uint8_t)p[i]); } }
	free(b);
}
/* every bit of every symbol is balanced and independent of every other one of a short text */
static void indep(int k, size_t count, int n) {
	static const int B[] = { 4, 5, 6 }; size_t sym, i, j; int lb; shape(k, count, &sym, &lb); int nb = sym * B[k]; static uint32_t one[256], same[256][256]; memset(one, 0, sizeof one); memset(same, 0, sizeof same);
	char b[128]; int t; uint8_t bit[256]; if (nb > 250) return;
	for (t = 0; t < n; t++) { callstr(k, b, sizeof b, count); EVAL(); for (i = 0; i < sym; i++) { int v = strchr(AL[k], b[i]) - AL[k]; for (j = 0; j < (size_t)B[k]; j++) bit[i * B[k] + j] = v >> (B[k] - 1 - j) & 1; }
		for (i = 0; i < (size_t)nb; i++) { one[i] += bit[i]; for (j = 0; j < i; j++) same[i][j] += bit[i] == bit[j]; } }
	int eff = (sym - 1) * B[k] + lb; double tol = 3.6 * sqrt(n); 
	for (i = 0; i < (size_t)eff; i++) { CHECK(fabs(one[i] - n / 2.0) < tol, "base%d of %zu bytes: bit %zu of the text is not balanced", 1 << B[k], count, i); for (j = 0; j < i; j++) CHECK(fabs(same[i][j] - n / 2.0) < tol, "base%d of %zu bytes: bits %zu and %zu of the text are not independent", 1 << B[k], count, j, i); }
}
static void string1(size_t len, size_t count, size_t al) {
	char a[300], *b = malloc(len + 32); size_t i; EVAL(); if (al > 255) al = 255; for (i = 0; i < al; i++) a[i] = 255 - i; a[al] = 0; memset(b, 0x5a, len + 32);
	char *ax = xmem(a, al + 1); int r = futils_random_string(b + 16, len, count, ax); free(ax);
	if (count > 2147483647u) { CHECK(r < 0, "string of %zu accepted", count); free(b); return; }
	CHECK((size_t)r == (al ? count : 0), "string(len %zu, count %zu, set of %zu) = %d", len, count, al, r);
	size_t full = al ? count : 0, vis = len ? full < len - 1 ? full : len - 1 : 0;
	for (i = 0; i < 16; i++) CHECK(b[i] == 0x5a && b[16 + len + i] == 0x5a, "string writes outside the buffer");
	for (i = 0; i < vis; i++) CHECK(b[16 + i] && memchr(a, b[16 + i], al), "string: character %zu is not in the set", i);
	if (len) CHECK(!b[16 + vis], "string(len %zu, count %zu): not terminated", len, count); for (i = vis + 1; i < len; i++) CHECK(b[16 + i] == 0x5a, "string: byte after the text written");
	free(b);
}
static void strdist(size_t al, int n) { char a[64], b[9]; size_t i; int cnt[8][64] = { 0 }, t; for (i = 0; i < al; i++) a[i] = 'A' + i; a[al] = 0; for (t = 0; t < n; t++) { EVAL(); futils_random_string(b, 9, 8, a); for (i = 0; i < 8; i++) cnt[i][b[i] - 'A']++; }
	double e = (double)n / al; int j; for (i = 0; i < 8; i++) for (j = 0; j < (int)al; j++) CHECK(fabs(cnt[i][j] - e) <= 7 * sqrt(e) + 1, "string over %zu characters: character %d drawn %d times at position %zu out of %d", al, j, cnt[i][j], i, n); }
/* a set with repeated characters, also longer than there are bytes: each place counts */
static void strlong(size_t al, int n) { char *a = malloc(al + 1), b[9]; size_t i; int f = 0, l = 0, m = 0, o = 0, t; for (i = 0; i < al; i++) a[i] = 'x'; a[0] = 'F'; a[al - 1] = 'L'; a[al / 2] = 'M'; a[al] = 0;
	for (t = 0; t < n; t++) { EVAL(); futils_random_string(b, 9, 8, a); for (i = 0; i < 8; i++) { f += b[i] == 'F'; l += b[i] == 'L'; m += b[i] == 'M'; o += !strchr("FLMx", b[i]); } }
	double e = 8.0 * n / al, s = 7 * sqrt(e) + 1; CHECK(!o && fabs(f - e) <= s && fabs(l - e) <= s && fabs(m - e) <= s, "string over a set of %zu: first, middle and last character drawn %d, %d and %d times, expected %g", al, f, m, l, e); free(a); }
/* ---- C18 */
static void shuf(size_t n, size_t sz, int fail) {
	size_t tot = n * sz, i, j; uint8_t *b = malloc(tot + 64), *o = malloc(tot + 1), *seen = calloc(n + 1, 1); EVAL();
	memset(b, 0xa5, tot + 64); for (i = 0; i < n; i++) for (j = 0; j < sz; j++) b[32 + i * sz + j] = (j < 8 ? (uint64_t)i >> (8 * (j % 8)) : i * 31 + j); memcpy(o, b + 32, tot);
	tracked = 1; live = 0; oom = fail; int r = futils_random_shuffle(b + 32, n, sz); tracked = 0; CHECK(!live, "shuffle leaks memory"); oom = 0;
	for (i = 0; i < 32; i++) CHECK(b[i] == 0xa5 && b[32 + tot + i] == 0xa5, "shuffle writes outside the array");
	if (r) { CHECK(fail, "shuffle of %zu x %zu = %d", n, sz, r); CHECK(r == -ENOMEM, "shuffle: failed allocation reported as %d", r); CHECK(!memcmp(b + 32, o, tot), "shuffle: array changed although the allocation failed"); }
	else if (sz >= 1 && n <= (sz == 1 ? 256 : sz == 2 ? 65536 : 1u << 20)) for (i = 0; i < n; i++) { uint64_t e = 0; memcpy(&e, b + 32 + i * sz, sz < 8 ? sz : 8); CHECK(e < n && !seen[e], "shuffle of %zu x %zu: not a permutation", n, sz); seen[e] = 1; for (j = 0; j < sz; j++) CHECK(b[32 + i * sz + j] == o[e * sz + j], "shuffle of %zu x %zu: element %llu damaged", n, sz, (unsigned long long)e); }
	free(b); free(o); free(seen);
}
/* success without memory is success only if the array is shuffled */
static void shufoom(size_t n, size_t sz) { int t, moved = 0; uint8_t *b = malloc(n * sz), *o = malloc(n * sz); size_t i; for (i = 0; i < n * sz; i++) o[i] = i / sz + 1;
	for (t = 0; t < 60 && !moved; t++) { memcpy(b, o, n * sz); EVAL(); tracked = oom = 1; int r = futils_random_shuffle(b, n, sz); tracked = oom = 0; moved = r || memcmp(b, o, n * sz); } free(b); free(o);
	CHECK(moved, "shuffle of %zu x %zu without memory reports success and does nothing", n, sz); }
static void perms(int n, size_t sz, int trials) {
	int f = 1, i, j, t; for (i = 2; i <= n; i++) f *= i; int *c = calloc(f, sizeof(int)); uint8_t b[8 * 32];
	for (t = 0; t < trials; t++) { for (i = 0; i < n; i++) memset(b + i * sz, i, sz); EVAL(); if (futils_random_shuffle(b, n, sz)) FAIL("shuffle fails"); int ix = 0; for (i = 0; i < n; i++) { int l = 0; for (j = i + 1; j < n; j++) l += b[j * sz] < b[i * sz]; ix = ix * (n - i) + l; } c[ix]++; }
	double e = (double)trials / f; for (i = 0; i < f; i++) CHECK(fabs(c[i] - e) <= 7 * sqrt(e) + 1, "shuffle of %d elements of %zu bytes: permutation %d drawn %d times out of %d", n, sz, i, c[i], trials); free(c);
}
/* ---- C19 */
static void faults(uint64_t n) {
	uint64_t i; for (i = 0; i < n; i++) {
		static uint8_t b[5020]; size_t l = 1 + (srnd() % 4 ? srnd() % 60 : srnd() % 4900), k; int r; EVAL();
		/* strong bytes */
		begin(); fault_script = 1 + (srnd() & 1); memset(b, 0xee, sizeof b); strong_ = 1; r = futils_random_strong(b + 8, l); strong_ = 0; fault_script = 0;
		CHECK(r <= 0, "random_strong = %d", r); CHECK(S.opens == 0 || S.closes <= S.opens, "descriptor"); 
		for (k = 0; k < 8; k++) CHECK(b[k] == 0xee && b[8 + l + k] == 0xee, "random_strong writes outside");
		if (!r) for (k = 0; k < l; k++) { uintptr_t o = (uintptr_t)(b + 8 + k) - S.base; CHECK(o < sizeof S.have && S.have[o] && S.got[o] == b[8 + k], "random_strong: byte %zu of %zu was not delivered by the system", k, l); }
		/* a reseed and the draw after it */
		begin(); fault_script = 1 + (srnd() & 1); int had = M.seeded; (void)had; r = futils_random_reseed(); fault_script = 0; int n1 = S.n;
		if (!r) { sync_seed(); req(44); } else { CHECK(r < 0, "reseed = %d", r); (void)n1;
			/* the old seed must not be used any more: next output comes from a fresh seed */
			begin(); futils_random(b, 40); CHECK(S.n, "output from the former seed after a reseed request"); sync_seed(); uint8_t w[40]; m_rand(&M, w, 40); CHECK(!memcmp(w, b, 40), "output after a failed reseed is not from the fresh seed"); }
		/* first draw with failing sources: abort or a complete seed */
		begin(); fault_script = 2; r = futils_random_reseed();
		if (r) { begin(); armed = 1; if (!setjmp(aborted)) { futils_random(b, 40); armed = 0; fault_script = 0; CHECK(S.n, "output without a seed"); sync_seed(); uint8_t w[40]; m_rand(&M, w, 40); CHECK(!memcmp(w, b, 40), "output is not from the fresh seed"); }
			else { armed = 0; fault_script = 0; M.seeded = 0; } } else sync_seed();
		fault_script = 0; reseed();
	}
	CHECK(futils_random_strong(NULL, 4) < 0, "missing buffer accepted"); { uint8_t z[4]; CHECK(futils_random_strong(z, 0) < 0, "empty request accepted"); }
}
static pthread_barrier_t bar; static int rounds;
static void *worker(void *a) { int i, seeds = 0; struct model m; memset(&m, 0, sizeof m); sysrnd = 1000 + (uintptr_t)a; uint8_t b[24], w[24];
	for (i = 0; i < rounds; i++) { pthread_barrier_wait(&bar); begin(); futils_random(b, 24);
		if (i == 0 || i % 3 != 1) { CHECK(S.n, "a thread draws without taking a fresh seed after a reseed request (round %d)", i); size_t k; for (k = 0; k < 44; k++) CHECK(S.have[k], "incomplete seed"); m_seed(&m, S.got); seeds++; } else CHECK(!S.n, "needless seed");
		m_rand(&m, w, 24); CHECK(!memcmp(b, w, 24), "thread output is not from its own seed"); pthread_barrier_wait(&bar); } return NULL; }
static void threads(void) { pthread_t t[4]; long i; rounds = 24; pthread_barrier_init(&bar, NULL, 5); for (i = 0; i < 4; i++) pthread_create(&t[i], NULL, worker, (void *)i);
	int r; for (r = 0; r < rounds; r++) { int q; if (r % 3 == 0) reseed(); if (r % 3 == 2) for (q = 0; q < 1 + r / 3; q++) reseed(); pthread_barrier_wait(&bar); pthread_barrier_wait(&bar); } for (i = 0; i < 4; i++) pthread_join(t[i], NULL); pthread_barrier_destroy(&bar); }
static void fill(size_t avail, size_t len) { reseed(); size_t k; req(1); if (avail > M.avail) { avail = M.avail; } for (k = M.avail; k > avail; ) { size_t q = k - avail; if (q > 400) q = 400; req(q); k = M.avail; } req(len); req(60); req(3); req(500); }
int sweep(const char *prop, uint64_t n) {
	uint64_t i; srnd_ = rnd() | 1; sysrnd = rnd(); begin(); uint8_t z[4]; futils_random(z, 4); CHECK(S.n, "output without a seed"); sync_seed(); m_rand(&M, z, 4);
	int p = atoi(prop + 1);
	if (p == 15) { static const int W[] = { 8, 16, 32, 64 }; int w; static const uint64_t X[] = { 0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 100, 127, 128, 129, 200, 255 };
		for (w = 0; w < 4; w++) { for (i = 0; i < 16; i++) maxi(W[w], X[i], 4000); if (w) for (i = 8; i < (uint64_t)W[w]; i++) { int q; for (q = -2; q < 3; q++) maxi(W[w], (1ull << i) + q, 300); maxi(W[w], (1ull << i) / 4 * 5, 2500); maxi(W[w], (1ull << i) / 4 * 6, 2500); maxi(W[w], (1ull << i) / 4 * 6 | 1, 2500); maxi(W[w], (1ull << i) / 4 * 7, 2500); } if (w == 3) maxi(64, ~0ull, 4000); for (i = 0; i < n; i++) maxi(W[w], rndv(W[w]), 20); }
		reals(20000); allbytes(25000); api(); }
	if (p == 16) { int k; for (k = 0; k < 3; k++) { for (i = 0; i < 70; i++) { size_t c; for (c = 0; c < 45; c++) str1(k, i, c); } for (i = 0; i < n; i++) str1(k, rndn(300), rndn(200)); size_t c; for (c = 1; c < 13; c++) indep(k, c, 6000);
			static const size_t BIG[] = { 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000ull, 0xffffffff, 0x4ffffff6, 0x4ffffffb, 0x5ffffffd, 0x60000000, 0x5ffffffe, 0x4ffffffa, (size_t)-1, (size_t)-2, (size_t)-3, (size_t)-4, (size_t)-5, ((size_t)1 << 63), ((size_t)1 << 62) + 1, (size_t)1 << 33, ((size_t)1 << 32) + 3 }; for (i = 0; i < sizeof BIG / sizeof *BIG; i++) str1(k, 10, BIG[i]); }
		for (i = 0; i < n * 3; i++) string1(rndn(60), rndn(70), rndn(256)); string1(10, 0x7fffffff, 3); string1(10, 0x80000000ull, 3); string1(10, (size_t)-1, 3); string1(10, (size_t)1 << 32, 3); for (i = 1; i < 40; i += 3) strdist(i, 4000); for (i = 3; i < 20; i++) strlong(i * 32 + (i & 3), 10000); }
	if (p == 17) { api(); for (i = 0; i < n; i++) switch (rndn(5)) { case 0: req(rndn(8)); break; case 1: req(rndn(60)); break; case 2: req(440 + rndn(90)); break; case 3: req(rndn(1500)); break; default: if (rndn(20) == 0) reseed(); req(rndn(500)); }
		for (i = 0; i < 520; i++) req(i); for (i = 0; i < n / 4; i++) fill(rndn(513), rndn(600)); req(70000); req((1u << 26) + 300); fault_script = 0; }
	if (p == 18) { for (i = 0; i < n; i++) shuf(rndn(200), rndn(40), rndn(10) == 0); for (i = 0; i < 70; i++) { shuf(i, 8, 0); shuf(i, 1, 0); shuf(i, 9, 0); shuf(2, i, 0); shuf(3, i, 1); shuf(257 + i, 4, 0); } shuf(70000, 4, 0); shuf(3, 70000, 0); CHECK(futils_random_shuffle(NULL, 4, 4) == -EINVAL, "missing array accepted");
		for (i = 2; i < 7; i++) { shufoom(i, 8); shufoom(i, 33); shufoom(i, 5000); } perms(2, 1, 4000); perms(3, 4, 12000); perms(4, 9, 24000); perms(5, 2, 60000); perms(4, 8, 24000); }
	if (p == 19) { faults(n); threads(); for (i = 0; i < 50; i++) { reseed(); req(rndn(600)); } }
	return 0;
}
int replay(const char *prop, int c, char **v) {
	uint8_t z[4]; srnd_ = 99; begin(); futils_random(z, 4); CHECK(S.n, "output without a seed"); sync_seed(); m_rand(&M, z, 4); uint64_t a = c > 1 ? strtoull(v[1], 0, 10) : 0, b = c > 2 ? strtoull(v[2], 0, 10) : 0, d = c > 3 ? strtoull(v[3], 0, 10) : 0;
	if (!strcmp(v[0], "max")) { maxi(a, b, 20000); for (d = 2; d && d < b; d *= 2) if (d > b / 2) { maxi(a, d / 4 * 6 - (~b & 1), 20000); maxi(a, d / 4 * 5 + (b & 1), 20000); maxi(a, d / 4 * 7 + (b & 1), 20000); } allbytes(25000); return 0; }
	if (!strcmp(v[0], "api")) { api(); reals(20000); allbytes(25000); return 0; }
	if (!strcmp(v[0], "req")) { int i; for (i = 0; i < 300; i++) { req(a); req(rndn(50)); } return 0; }
	if (!strcmp(v[0], "fill")) { fill(a, b); return 0; }
	if (!strcmp(v[0], "str")) { int k = kindof(v[1]); b = strtoull(v[2], 0, 10); d = strtoull(v[3], 0, 10); str1(k, b, d); if (d && d < 13) indep(k, d, 6000); return 0; }
	if (!strcmp(v[0], "string")) { string1(a, b, d); if (d && d < 60) strdist(d, 4000); if (d > 3) strlong(d < 70000 ? d : 70000, 20000); return 0; }
	if (!strcmp(v[0], "shuffle")) { int i; for (i = 0; i < 50; i++) { shuf(a > 60000 ? 60000 : a, b > 200 ? 200 : b, i & 1); } if (a > 1 && a < 6 && b && b < 33) perms(a, b, 24000); return 0; }
	if (!strcmp(v[0], "faults")) { faults(a); threads(); return 0; }
	return 3;
}
