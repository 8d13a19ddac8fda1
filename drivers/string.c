#include "drv.h"
#include <iconv.h>
#include <wchar.h>
#include <futils/string.h>
static int live_conv, live_mem, failn, nalloc, on;
iconv_t __real_iconv_open(const char *, const char *); int __real_iconv_close(iconv_t); void *__real_calloc(size_t, size_t); void *__real_malloc(size_t); void __real_free(void *);
static int hit(void) { return on && ++nalloc == failn; }
iconv_t __wrap_iconv_open(const char *a, const char *b) { if (hit()) { errno = EINVAL; return (iconv_t)-1; } int o = on; on = 0; iconv_t r = __real_iconv_open(a, b); on = o; if (on && r != (iconv_t)-1) live_conv++; return r; }
int __wrap_iconv_close(iconv_t c) { int o = on; on = 0; int r = __real_iconv_close(c); on = o; if (on) live_conv--; return r; }
void *__wrap_calloc(size_t a, size_t b) { if (hit()) { errno = ENOMEM; return NULL; } void *r = __real_calloc(a, b); if (on && r) live_mem++; return r; }
void *__wrap_malloc(size_t a) { if (hit()) { errno = ENOMEM; return NULL; } void *r = __real_malloc(a); if (on && r) live_mem++; return r; }
void __wrap_free(void *p) { if (on && p) live_mem--; __real_free(p); }
/* independent decoder: characters, -1 malformed, -2 contested (beyond U+10FFFF, which converters treat differently) */
static int dec(const uint8_t *s, uint32_t *w) { int n = 0, k, l; uint32_t c; static const uint32_t lo[] = {0, 0, 0x80, 0x800, 0x10000};
	while (*s) { if (*s < 0x80) { w[n++] = *s++; continue; } if (*s >= 0xf8) return -2; l = *s >= 0xf0 ? 4 : *s >= 0xe0 ? 3 : *s >= 0xc2 ? 2 : 0; if (!l) return -1; c = *s++ & (0x7f >> l);
		for (k = 1; k < l; k++, s++) { if ((*s & 0xc0) != 0x80) return -1; c = c << 6 | (*s & 0x3f); }
		if (c < lo[l]) return -1; if (c >= 0xd800 && c < 0xe000) return -1; if (c > 0x10ffff) return -2; w[n++] = c; } return n; }
static int put(uint32_t c, uint8_t *o) { if (c < 0x80) { o[0] = c; return 1; } if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
	if (c < 0x10000) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; } o[0] = 0xf0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4; }
static uint32_t W[5000]; static uint8_t E[20000];
static int in(const wchar_t *f, uint32_t c) { for (; *f; f++) if ((uint32_t)*f == c) return 1; return 0; }
static const char *show(const uint8_t *s) { static char b[200]; hex(b, s, strlen((char *)s) > 40 ? 40 : strlen((char *)s)); return b; }
static void clean(const char *what) { CHECK(!live_conv, "%s: converter leaked", what); CHECK(!live_mem, "%s: memory leaked", what); }
#define CALL(x) (live_conv = live_mem = nalloc = 0, on = 1, r = (x), on = 0)
static void check1(const uint8_t *t, size_t mb, size_t mw, const wchar_t *f) {
	int n = dec(t, W), r, exp = 0, i, k, neg = 0; size_t L = strlen((char *)t); if (n == -2) return;
	if (mb && L >= mb) exp = -E2BIG; else if (n < 0) neg = 1; else if (mw && (size_t)n > mw) exp = -E2BIG; else if (f) for (i = 0; i < n; i++) if (in(f, W[i])) exp = -EPROTO;
	char *c = xmem(t, L + 1); failn = 0; EVAL(); CALL(futils_string_check_utf8(c, mb, mw, f)); clean("check");
	if (neg) CHECK(r < 0 && r != -EPROTO && r != -E2BIG, "check of malformed %s = %d", show(t), r); else CHECK(r == exp, "check of %s (%zu bytes, %d characters), limits %zu bytes %zu characters = %d instead of %d", show(t), L, n, mb, mw, r, exp);
	CHECK(!memcmp(c, t, L + 1), "check modifies the text");
	for (k = 1; k <= nalloc + 1 && k < 6; k++) { failn = k; CALL(futils_string_check_utf8(c, mb, mw, f)); clean("check with a failing allocation"); if (nalloc >= k) CHECK(r < 0, "failing allocation %d not reported", k); }
	failn = 0; free(c); }
static void san1(const uint8_t *t, size_t sz, const wchar_t *f, uint32_t rep) {
	int n = dec(t, W), r, i, l, k; size_t L = strlen((char *)t), o = 0; if (n == -2) return;
	for (i = 0; i < n; i++) { l = put(f && in(f, W[i]) ? rep : W[i], E + o); if (o + l > sz - 1) break; o += l; }
	char *c = xmem(t, L + 1), *out = xmem(NULL, sz); memset(out, 0x5a, sz); failn = 0; EVAL(); CALL(futils_string_sanitize_utf8(c, out, sz, f, rep)); clean("sanitize");
	if (sz < 2) CHECK(r == -EINVAL, "sanitize into %zu bytes = %d", sz, r);
	else if (n < 0) CHECK(r < 0, "sanitize of malformed %s = %d", show(t), r);
	else { CHECK(r == (int)o, "sanitize of %s into %zu bytes, replacement U+%04X: %d instead of %zu", show(t), sz, rep, r, o); CHECK(out[o] == 0, "sanitize of %s into %zu bytes: not terminated", show(t), sz); CHECK(!memcmp(out, E, o), "sanitize of %s into %zu bytes gives %s", show(t), sz, show((uint8_t *)out)); }
	CHECK(!memcmp(c, t, L + 1), "sanitize modifies the text");
	for (k = 1; k <= nalloc + 1 && k < 8; k++) { failn = k; CALL(futils_string_sanitize_utf8(c, out, sz, f, rep)); clean("sanitize with a failing allocation"); if (nalloc >= k) CHECK(r < 0, "failing allocation %d not reported", k); }
	failn = 0; free(c); free(out); }
static uint32_t rc(void) { uint32_t c; do switch (rndn(8)) { case 0: c = 1 + rndn(0x1f); break; case 1: c = 0x80 + rndn(0x780); break; case 2: c = 0x800 + rndn(0xf800); break; case 3: c = 0x10000 + rndn(0x100000); break;
	case 4: { static const uint32_t b[] = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0xfeff, 0xfffe}; c = b[rndn(12)]; break; } case 5: c = "\"*/:<>?\\|"[rndn(9)]; break; default: c = 0x20 + rndn(0x5f); } while (c >= 0xd800 && c < 0xe000); return c; }
static int text(uint8_t *b, int n) { int o = 0; while (n--) o += put(rc(), b + o); b[o] = 0; return o; }
static void set(wchar_t *f) { int n = rndn(6), i; for (i = 0; i < n; i++) f[i] = rc(); f[n] = 0; }
int sweep(const char *p, uint64_t N) { uint64_t i; static uint8_t b[20000]; wchar_t f[8]; (void)p;
	CHECK(futils_string_check_utf8(NULL, 0, 0, NULL) == -EINVAL && futils_string_sanitize_utf8(NULL, (char *)b, 8, NULL, 0) == -EINVAL && futils_string_sanitize_utf8("x", NULL, 8, NULL, 0) == -EINVAL, "missing argument accepted");
	/* every two byte text and every first three bytes */
	for (i = 0; i < 65536; i += 1 + (N < 3000)) { b[0] = i; b[1] = i >> 8; b[2] = 0; check1(b, 0, 0, NULL); if (b[0] >= 0x80 && b[1] >= 0x80) { b[2] = 0x80 + rndn(64); b[3] = rndn(2) ? 0x80 + rndn(64) : 0; b[4] = 0; check1(b, 0, 0, NULL); } }
	for (i = 1; i < 4000; i += i < 300 ? 1 : 97) { size_t j, o = 0; wchar_t g[3] = {0x3042, 0, 0}; for (j = 0; j + 1 < i; j++) b[o++] = 'a' + j % 26; o += put(0x3042, b + o); b[o] = 0; check1(b, 0, 0, g); san1(b, o + 8, g, '_'); if (i > 2) { b[0] = 0xe3; b[1] = 0x81; } check1(b, 0, 0, g); }
	for (i = 0; i < N; i++) { int big = rndn(40) == 0, o = text(b, big ? 200 + rndn(3000) : rndn(14)); int k = rndn(3);
		if (k == 0 && o) { int j = rndn(o); b[j] = 1 + rndn(255); } else if (k == 1 && o && rndn(2)) b[rndn(o)] = 0; else if (k == 1 && o < 100) { memmove(b + 1, b, o + 1); b[0] = 0x80 + rndn(0x80); }
		o = strlen((char *)b); set(f); int n = dec(b, W); if (n > 0 && rndn(2)) { f[0] = W[rndn(n)]; f[1] = 0; }
		check1(b, rndn(2) ? 0 : (size_t)(o + rndn(4)), rndn(2) || n < 0 ? 0 : (size_t)n + rndn(4), rndn(4) ? f : NULL); if (o > 2) check1(b, o - 1, n > 1 ? n - 1 : 0, f); check1(b, 0, n > 1 ? n - 1 : 0, NULL); check1(b, rnd(), rnd(), rndn(2) ? f : FUTILS_STRING_EXFAT_FORBIDDEN);
		uint32_t rep = rndn(3) ? '_' : rc(); int z, lim = big ? 2 : o + 8;
		for (z = big ? o : 0; z < (big ? o + 3 : lim); z++) san1(b, z, rndn(4) ? f : NULL, rep);
		for (z = 0; z < 3; z++) san1(b, rndn(4 * o + 4), rndn(4) ? f : FUTILS_STRING_EXFAT_FORBIDDEN, rep);
	}
	return 0; }
int replay(const char *p, int c, char **v) { static uint8_t b[4096]; int i, j; wchar_t f[4] = {'a', 0};
	if (c < 4) return 3; int L = atoi(v[1]); for (j = 0; j < 40; j++) for (i = 0; i <= L; i++) { drv_s = 77 * j + i; int o = text(b, i); if ((int)strlen((char *)b) != o) continue; if (j & 1) { b[o / 2] = j & 2 ? 'a' : 0xff; }
		dec(b, W); f[0] = W[0] ? W[0] : 'a'; if (!strcmp(v[0], "check")) { size_t m = strtoull(v[2], 0, 10), w = strtoull(v[3], 0, 10); check1(b, m, w, v[4][0] == '1' ? f : NULL); check1(b, o, i, f); check1(b, o + 1, i, f); } else { uint32_t r = strtoul(v[3], 0, 10); if (r == 0 || r > 0x10ffff || (r >= 0xd800 && r < 0xe000)) r = '_'; for (int z = 0; z < 12; z++) san1(b, z, v[4][0] == '1' ? f : NULL, r); san1(b, strtoull(v[2], 0, 10), v[4][0] == '1' ? f : NULL, r); } }
	return 3; }
