#include "drv.h"
#include <futils/varint.h>
static int mxl(int w) { return w == 16 ? 3 : w == 32 ? 5 : 10; }
static uint64_t zz(uint64_t v, int w) { uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1; return ((v << 1) ^ ((v >> (w - 1)) & 1 ? ~0ull : 0)) & m; }
static uint64_t unzz(uint64_t u, int w) { uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1; return ((u >> 1) ^ (u & 1 ? ~0ull : 0)) & m; }
static int wr(const char *t, uint8_t *d, size_t dl, uint64_t v, size_t *l) {
	if (!strcmp(t, "u16")) return futils_varint_write_u16(d, dl, v, l);
	if (!strcmp(t, "i16")) return futils_varint_write_i16(d, dl, v, l);
	if (!strcmp(t, "u32")) return futils_varint_write_u32(d, dl, v, l);
	if (!strcmp(t, "i32")) return futils_varint_write_i32(d, dl, v, l);
	if (!strcmp(t, "u64")) return futils_varint_write_u64(d, dl, v, l);
	return futils_varint_write_i64(d, dl, v, l);
}
static int rd(const char *t, const uint8_t *s, size_t sl, uint64_t *v, size_t *l) {
	int r;
#define R(T, C, W) if (!strcmp(t, #T)) { C x = 0; r = futils_varint_read_##T(s, sl, &x, l); *v = (uint64_t)x & (W == 64 ? ~0ull : (1ull << (W & 63)) - 1); return r; }
	R(u16, uint16_t, 16) R(i16, int16_t, 16) R(u32, uint32_t, 32) R(i32, int32_t, 32) R(u64, uint64_t, 64) R(i64, int64_t, 64)
	return -1;
}
static void ckrn(const char *t, const uint8_t *s) {
	size_t l; int r = 0;
#define N(T, C) if (!strcmp(t, #T)) { C x; r = futils_varint_read_##T(s, 4, NULL, &l) < 0 && futils_varint_read_##T(s, 4, &x, NULL) < 0 && futils_varint_read_##T(NULL, 4, &x, &l) < 0; }
	N(u16, uint16_t) N(i16, int16_t) N(u32, uint32_t) N(i32, int32_t) N(u64, uint64_t) N(i64, int64_t)
	CHECK(r, "read %s with a missing argument accepted", t);
}
static void ckw(const char *t, uint64_t v, size_t dl) {
	int w = atoi(t + 1), i; uint64_t u = t[0] == 'i' ? zz(v, w) : v; uint8_t e[10]; size_t n = 0, l = 12345; uint64_t x = u;
	do { e[n] = x & 0x7f; x >>= 7; if (x) e[n] |= 0x80; n++; } while (x);
	uint8_t *d = malloc(dl ? dl : 1); for (i = 0; i < (int)dl; i++) d[i] = 0xa5;
	int r = wr(t, d, dl, v, &l); EVAL();
	if (dl < (size_t)mxl(w)) {
		CHECK(r < 0, "write %s %llu into %zu bytes accepted", t, (unsigned long long)v, dl);
		n = 0;
	} else {
		CHECK(r == 0, "write %s %llu into %zu bytes gives %d", t, (unsigned long long)v, dl, r);
		CHECK(l == n, "write %s %llu reports %zu bytes, canonical is %zu", t, (unsigned long long)v, l, n);
		CHECK(!memcmp(d, e, n), "write %s %llu: bytes are not canonical", t, (unsigned long long)v);
	}
	for (i = n; i < (int)dl; i++) CHECK(d[i] == 0xa5, "write %s %llu touches byte %d after the encoding", t, (unsigned long long)v, i);
	free(d);
	uint8_t b[16]; CHECK(wr(t, NULL, 16, v, &l) < 0, "write NULL dst accepted");
	memset(b, 0x5a, 16); CHECK(wr(t, b, 16, v, NULL) < 0, "write NULL len accepted"); for (i = 0; i < 16; i++) CHECK(b[i] == 0x5a, "write with missing argument wrote");
}
static void ckr(const char *t, const uint8_t *b, size_t sl) {
	int w = atoi(t + 1), k, ok = 0; size_t n = 0, l = 777; uint64_t acc = 0, v = 0; char h[600]; hex(h, b, sl < 250 ? sl : 250);
	uint8_t *s = xmem(b, sl);
	for (k = 0; k < mxl(w) && k < (int)sl; k++) {
		uint64_t g = b[k] & 0x7f; int room = w - 7 * k;
		if (room < 7 && (g >> room)) { if (b[k] & 0x80) {} break; }
		acc |= g << (7 * k);
		if (!(b[k] & 0x80)) { ok = 1; n = k + 1; break; }
	}
	int r = rd(t, s, sl, &v, &l); EVAL();
	CHECK(r <= 0, "read %s [%s]: positive result %d", t, h, r);
	CHECK((r == 0) == ok, "read %s [%s] gives %d, expected %s", t, h, r, ok ? "success" : "rejection");
	if (ok) { CHECK(l == n, "read %s [%s] consumed %zu expected %zu", t, h, l, n);
		uint64_t e = t[0] == 'i' ? unzz(acc, w) : acc;
		CHECK(v == e, "read %s [%s] = %llx expected %llx", t, h, (unsigned long long)v, (unsigned long long)e); }
	free(s);
}
static void ckrt(const char *t, uint64_t v) {
	uint8_t b[24]; size_t l = 0, l2 = 0, i; uint64_t o = 0; int w = atoi(t + 1);
	CHECK(wr(t, b, 24, v, &l) == 0, "roundtrip %s %llu: write fails", t, (unsigned long long)v);
	for (i = l; i < 24; i++) b[i] = rnd();
	for (i = 0; i < 3; i++) {
		size_t sl = l + (i == 0 ? 0 : i == 1 ? 1 : 24 - l); uint8_t *s = xmem(b, sl);
		int r = rd(t, s, sl, &o, &l2); EVAL();
		CHECK(r == 0, "roundtrip %s %llu: read of %zu of %zu bytes gives %d", t, (unsigned long long)v, sl, l, r);
		CHECK(o == v && l2 == l, "roundtrip %s %llu gives %llu, %zu/%zu bytes", t, (unsigned long long)v, (unsigned long long)o, l2, l);
		free(s);
	}
}
static const char *T[] = {"u16", "i16", "u32", "i32", "u64", "i64"};
int sweep(const char *p, uint64_t n) {
	uint64_t i; int k, j;
	for (k = 0; k < 6; k++) { int w = atoi(T[k] + 1);
		if (!strcmp(p, "C02")) {
			{ uint8_t q[4] = {1, 2, 3, 4}; ckrn(T[k], q); }
			for (i = 0; i < n; i++) { uint8_t b[14]; size_t len = rndn(14); uint64_t mode = rndn(4);
				for (j = 0; j < 14; j++) b[j] = mode == 0 ? rnd() : mode == 1 ? (rnd() | 0x80) : mode == 2 ? 0x80 | (rnd() & (rnd() & rnd())) : 0xff;
				if (mode) b[rndn(12)] = rnd() & 0x7f & (rndn(2) ? 0xff : 3);
				ckr(T[k], b, len); }
			if (w == 16) for (i = 0; i < (1 << 24); i += 61) { uint8_t b[3] = {i, i >> 8, i >> 16}; ckr(T[k], b, 3); }
		} else for (i = 0; i < n || (w == 16 && i < 65536); i++) {
			uint64_t v = w == 16 && i < 65536 ? i : rndv(w);
			if (!strcmp(p, "C01")) ckrt(T[k], v); else ckw(T[k], v, i & 1 ? 16 : rndn(12));
		}
	}
	return 0;
}
int replay(const char *p, int argc, char **a) {
	uint8_t b[64];
	if (!strcmp(a[0], "write")) { uint64_t dl = strtoull(a[3], 0, 10); ckw(a[1], strtoull(a[2], 0, 10), dl > 4096 ? 4096 : dl); }
	else if (!strcmp(a[0], "read")) ckr(a[1], b, unhex(b, a[2]));
	else if (!strcmp(a[0], "rt")) ckrt(a[1], strtoull(a[2], 0, 10));
	return 0;
}
