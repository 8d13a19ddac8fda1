#include "drv.h"
#include <time.h>
#include <futils/systimetools.h>
typedef __int128 I;
static int leap(I y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mlen(I y, int m) { static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return L[m - 1] + (m == 2 && leap(y)); }
static I fdiv(I a, I b) { return a / b - (a % b < 0); }
/* days since 1970-01-01, by Howard Hinnant's civil algorithm (independent of the code and of the specification formula) */
static I days(I y, int m, I d) { y -= m <= 2; I era = fdiv(y, 400), yoe = y - era * 400, doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468 + d - 1; }
static const char *WD[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *MN[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static void k_from(int64_t y, int mo, int d, int H, int M, int S, int32_t off) {
	struct tm t, c; uint64_t e = 77; int32_t o = 55; memset(&t, 0, sizeof t); t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = H; t.tm_min = M; t.tm_sec = S; t.tm_gmtoff = off; t.tm_wday = rndn(7); t.tm_yday = rndn(366); t.tm_isdst = (int)rndn(3) - 1; c = t; EVAL();
	int r = time_local_from_tm(&t, &e, &o); I w = days(y, mo, d) * 86400 + H * 3600 + M * 60 + S - off;
	CHECK(r == 0 && o == off && (int64_t)e == (int64_t)w, "from_tm %lld-%d-%d %d:%d:%d off %d = %lld (%d), expected %lld", (long long)y, mo, d, H, M, S, off, (long long)e, r, (long long)w);
	CHECK(!memcmp(&t, &c, sizeof t), "from_tm changed its argument"); CHECK(time_local_from_tm(NULL, &e, &o) < 0 && time_local_from_tm(&t, NULL, NULL) < 0, "missing argument accepted");
}
static void k_to(uint64_t e, int32_t off) {
	struct tm t; memset(&t, 0x5a, sizeof t); I T = (I)(int64_t)e + off; EVAL(); uint64_t e2 = 7; int32_t o2 = 5;
	int r = time_local_to_tm(e, off, &t); I D = fdiv(T, 86400), s = T - D * 86400;
	if (T / 31556952 > INT32_MAX - 100) { CHECK(r <= 0, "to_tm"); if (r < 0) return; }
	CHECK(r == 0, "to_tm(%lld, %d) returns %d", (long long)e, off, r);
	CHECK(t.tm_mon >= 0 && t.tm_mon < 12 && t.tm_mday >= 1 && t.tm_mday <= mlen((I)t.tm_year + 1900, t.tm_mon + 1) && days((I)t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) == D && t.tm_hour * 3600 + t.tm_min * 60 + t.tm_sec == s && t.tm_hour >= 0 && t.tm_min >= 0 && t.tm_min < 60 && t.tm_sec >= 0 && t.tm_sec < 60, "to_tm(%lld, %d) = %d-%d-%d %d:%d:%d", (long long)e, off, t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec);
	CHECK(t.tm_wday == (int)(((D + 4) % 7 + 7) % 7) && t.tm_gmtoff == off, "to_tm(%lld, %d) weekday %d offset %ld", (long long)e, off, t.tm_wday, t.tm_gmtoff);
	if (t.tm_year < 0) return;
	CHECK(time_local_from_tm(&t, &e2, &o2) == 0 && e2 == e && o2 == off, "to_tm and back: %llu %d became %llu %d", (unsigned long long)e, off, (unsigned long long)e2, o2);
}
static void render(char *o, int fmt, I T, int32_t off) {
	I D = fdiv(T, 86400); int s = (int)(T - D * 86400), a = off < 0 ? -off : off, wd = (int)(((D + 4) % 7 + 7) % 7); long long y = 1970 + (long long)fdiv(D * 400, 146097); int m, d; char sg = off < 0 ? '-' : '+', z[16];
	while (days(y, 1, 1) > D) y--; while (days(y + 1, 1, 1) <= D) y++; for (m = 12; days(y, m, 1) > D; m--); d = 1 + (int)(D - days(y, m, 1));
	if (fmt == 0) sprintf(o, "%04lld%02d%02dT%02d%02d%02d%c%02d%02d", y, m, d, s / 3600, s / 60 % 60, s % 60, sg, a / 3600, a / 60 % 60);
	else if (fmt == 1) sprintf(o, "%04lld-%02d-%02dT%02d:%02d:%02d%c%02d:%02d", y, m, d, s / 3600, s / 60 % 60, s % 60, sg, a / 3600, a / 60 % 60);
	else { sprintf(z, "%c%02d%02d", sg, a / 3600, a / 60 % 60); sprintf(o, "%s, %d %s %lld %02d:%02d:%02d %s", WD[wd], d, MN[m - 1], y, s / 3600, s / 60 % 60, s % 60, off ? z : "GMT"); }
}
static void k_round(int fmt, uint64_t e, int32_t off) {
	static const enum time_fmt F[] = {TIME_FMT_ISO8601_SHORT, TIME_FMT_ISO8601_LONG, TIME_FMT_RFC1123}; char w[64], *b; size_t n = 40 + rndn(5); uint64_t e2 = 1; int32_t o2 = 1; EVAL();
	render(w, fmt, (I)e + off, off); b = malloc(n); memset(b, 'x', n); int r = time_local_format(e, off, F[fmt], b, n);
	CHECK(r == 0 && memchr(b, 0, n) && !strcmp(b, w), "format %d of %llu %d = %d '%.*s', expected '%s'", fmt, (unsigned long long)e, off, r, (int)n, b, w);
	char *x = xmem(b, strlen(b) + 1); r = time_local_parse(x, &e2, &o2); CHECK(r == 0 && e2 == e && o2 == off, "'%s' is parsed as %lld %d (%d), formatted from %llu %d", x, (long long)e2, o2, r, (unsigned long long)e, off); free(x); free(b);
	{ uint8_t m[8]; memset(m, 0x77, 8); size_t k = 1 + rndn(7); char *q = malloc(k); time_local_format(e, off, F[fmt], q, k); free(q); }
	CHECK(time_local_format(e, off, F[fmt], NULL, 10) < 0 && time_local_format(e, off, F[fmt], w, 0) < 0, "format without a buffer accepted");
}
/* ---- lenient text oracle: number = blanks, optional '+', digits up to the end of the field */
static int num(const char *s, int n, int *v) {
	int i = 0, neg = 0; *v = 0; while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++;
	if (i < n && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
	if (i == n) return 0; for (; i < n; i++) { if (s[i] < '0' || s[i] > '9') return 0; *v = *v * 10 + s[i] - '0'; }
	return !(neg && *v);
}
static int o_date(const char *s, size_t n, int *v) {
	if (n == 10) return s[4] == '-' && s[7] == '-' && num(s, 4, v) && num(s + 5, 2, v + 1) && num(s + 8, 2, v + 2) && v[1] >= 1 && v[1] <= 12;
	return n == 8 && num(s, 4, v) && num(s + 4, 2, v + 1) && num(s + 6, 2, v + 2) && v[1] >= 1 && v[1] <= 12;
}
static int o_time(const char *s, size_t n, int *v) {
	int a, b, c, z, w;
	if (n && s[0] == 'T') s++, n--;
	if (n >= 8 && s[2] == ':' && s[5] == ':') { a = num(s, 2, v) && num(s + 3, 2, v + 1) && num(s + 6, 2, v + 2); s += 8; n -= 8; }
	else if (n >= 6) { a = num(s, 2, v) && num(s + 2, 2, v + 1) && num(s + 4, 2, v + 2); s += 6; n -= 6; } else return 0;
	if (!a) return 0; if (n && *s == ' ') s++, n--;
	v[3] = 0; if ((n == 1 && *s == 'Z') || (n == 2 && !memcmp(s, "UT", 2)) || (n == 3 && (!memcmp(s, "UTC", 3) || !memcmp(s, "GMT", 3)))) return 1;
	if (!((n == 6 && s[3] == ':') || n == 5) || (*s != '+' && *s != '-')) return 0;
	b = num(s + 1, 2, &z); c = num(s + n - 2, 2, &w); v[3] = (z * 60 + w) * 60 * (*s == '-' ? -1 : 1); return b && c;
}
static int mon(const char *s) { int i; for (i = 0; i < 12; i++) if (!memcmp(s, MN[i], 3)) return i + 1; return 0; }
static int o_whole(const char *s, size_t n, int *v) {
	int i, k = 0, w = 0; for (i = 0; i < 7; i++) if (n >= 16 && !memcmp(s, WD[i], 3)) w = 1;
	if (w) { int inv = !(s[5] >= '0' && s[5] <= '9'), one; if (s[3] != ',') return 0; k = 5; if (inv) { v[1] = mon(s + k); k += 4; } one = s[k + 1] == ' '; if (!num(s + k, 2 - one, v + 2)) return 0; k += 3 - one; if (!inv) { v[1] = mon(s + k); k += 4; } if (!v[1] || !num(s + k, 4, v)) return 0; k += 4; }
	else if (n >= 10 && strchr("T ", s[10]) && o_date(s, 10, v)) k = 10; else if (n >= 8 && strchr("T ", s[8]) && o_date(s, 8, v)) k = 8; else return 0;
	s += k; n -= k; if (n && *s == ' ') s++, n--; return o_time(s, n, v + 3);
}
static int64_t inst(const int *v) { return (int64_t)(days(v[0], v[1], v[2]) * 86400 + (I)v[3] * 3600 + v[4] * 60 + v[5] - v[6]); }
static void k_text(const char *t) {
	size_t n = strlen(t); char *s = xmem(t, n + 1); uint64_t e = 1; int32_t o = 1; int v[7] = {0}; EVAL();
	int r = time_local_parse(s, &e, &o), k = o_whole(s, n, v);
	CHECK(r <= 0 && r > -4096, "parse of '%s' returns %d", s, r);
	if (r == 0) CHECK(k && (int64_t)e == inst(v) && o == v[6], "'%s' is parsed as %lld offset %d, it denotes %s %lld offset %d", s, (long long)e, o, k ? "" : "nothing", (long long)inst(v), v[6]);
	CHECK(time_local_parse(NULL, &e, &o) < 0 && time_local_parse(s, NULL, &o) < 0 && time_local_parse(s, &e, NULL) < 0, "missing argument accepted"); free(s);
}
struct st { int f, d[3], t[4]; };
/* one operation on the context and the reference state; kind 0 date, 1 hour, 2 both */
static void step(struct time_ctx *c, struct st *x, int kind, const char *txt) {
	size_t n = strlen(txt); char *s = xmem(txt, n + 1); int v[7] = {0}, have = kind == 0 ? x->f & 1 : kind == 1 ? x->f & 2 : x->f, r, ok; EVAL();
	r = kind == 0 ? time_ctx_set_date(c, s) : kind == 1 ? time_ctx_set_hour(c, s) : time_ctx_set_time(c, s);
	if (have) { CHECK(r == -EEXIST, "setting '%s' (%d) twice returns %d", s, kind, r); free(s); return; }
	ok = kind == 0 ? o_date(s, n, v) : kind == 1 ? o_time(s, n, v + 3) : o_whole(s, n, v);
	if (r == 0 || r == -EINPROGRESS) {
		CHECK(ok, "set %d accepts '%s'", kind, s);
		if (kind != 1) memcpy(x->d, v, sizeof x->d); if (kind != 0) memcpy(x->t, v + 3, sizeof x->t); x->f |= kind == 0 ? 1 : kind == 1 ? 2 : 3;
		CHECK(r == (x->f == 3 ? 0 : -EINPROGRESS), "set %d of '%s' returns %d with halves %d", kind, s, r, x->f);
	} else CHECK(r < 0, "set returns %d", r);
	free(s);
}
static void ask(struct time_ctx *c, struct st *x) {
	uint64_t e = 5; int32_t o = 6; int r = time_ctx_get_local(c, &e, &o);
	if (x->f != 3) { CHECK(r == -EINPROGRESS && e == 5 && o == 6, "get with halves %d returns %d", x->f, r); return; }
	int v[7] = {x->d[0], x->d[1], x->d[2], x->t[0], x->t[1], x->t[2], x->t[3]};
	CHECK(r == 0 && (int64_t)e == inst(v) && o == v[6], "get = %d %lld %d, expected %lld %d", r, (long long)e, o, (long long)inst(v), v[6]);
}
static void mut(char *s) {
	static const char C[] = "0123456789TZ:-+ ,GMUTCab/\x80\xff"; size_t n = strlen(s), i;
	switch (rndn(5)) { case 0: case 1: if (n) s[rndn(n)] = C[rndn(sizeof C - 1)]; break; case 2: if (n) s[rndn(n)] = 0; break; case 3: i = rndn(n + 1); memmove(s + i + 1, s + i, n - i + 1); s[i] = C[rndn(sizeof C - 1)]; break; default: if (n) { i = rndn(n); memmove(s + i, s + i + 1, n - i); } }
}
static void gen(char *o, int kind) {
	static const char *Z[] = {"Z", "GMT", "UT", "UTC", "+01:00", "-0230", "+0000", "-12:59", "+9999"}; char d[64], t[64]; int y = rndn(3) ? 1900 + rndn(300) : rndn(10000), m = 1 + rndn(12), D = 1 + (rndn(3) ? rndn(28) : rndn(99)), H = rndn(4) ? rndn(24) : rndn(100), M = rndn(60), S = rndn(60);
	if (rndn(30) == 0) m = rndn(20);
	switch (kind == 2 ? rndn(4) : rndn(2)) { case 0: sprintf(d, "%04d-%02d-%02d", y, m, D); break; case 1: sprintf(d, "%04d%02d%02d", y, m, D); break; case 2: sprintf(d, rndn(2) ? "%s, %d %s %04d" : "%s, %02d %s %04d", WD[rndn(7)], D, MN[(m + 11) % 12], y); break; default: sprintf(d, rndn(2) ? "%s, %s %d %04d" : "%s, %s %02d %04d", WD[rndn(7)], MN[(m + 11) % 12], D, y); }
	sprintf(t, rndn(2) ? "%s%02d:%02d:%02d%s%s" : "%s%02d%02d%02d%s%s", rndn(2) ? "T" : "", H, M, S, rndn(3) ? "" : " ", Z[rndn(9)]);
	if (kind == 0) strcpy(o, d); else if (kind == 1) strcpy(o, t); else sprintf(o, "%s%s%s", d, rndn(2) ? " " : "", t);
	if (rndn(4) == 0) mut(o); if (rndn(6) == 0) mut(o); if (rndn(100) == 0) o[rndn(strlen(o) + 1)] = 0;
}
static int32_t roff(void) { return rndn(3) ? 60 * ((int32_t)rndn(1801) - 900) : 0; }
int sweep(const char *p, uint64_t n) {
	uint64_t i; char b[256];
	for (i = 0; i < n; i++) {
		if (!strcmp(p, "C11")) {
			int64_t y = i < 1000 ? 1900 + (int64_t)i : rndn(3) ? 1900 + rndn(800) : rndn(2) ? 1900 + rndn(INT32_MAX - 1) : (int64_t)INT32_MAX - 3 + 1900 + rndn(4); int m = 1 + rndn(12), L = mlen(y, m), d = rndn(3) ? 1 + rndn(L) : rndn(2) ? 1 : L; if (rndn(4) == 0) { m = 2; d = mlen(y, 2); }
			k_from(y, m, d, rndn(2) ? rndn(24) : rndn(2) * 23, rndn(2) ? rndn(60) : rndn(2) * 59, rndn(2) ? rndn(60) : rndn(2) * 59, rndn(3) ? (int32_t)rndn(200000) - 100000 : (int32_t)rnd());
			I e = days(y, m, d) * 86400 + rndn(3) - 1; int32_t o = rndn(2) ? roff() : (int32_t)rnd(); if (e >= 0) { k_to(e, o); if (e - o >= 0) k_to(e - o, o); } k_to(rnd() >> (1 + rndn(62)), o);
			if (i == 0) CHECK(time_local_to_tm(5, 5, NULL) < 0, "NULL tm accepted");
		} else if (!strcmp(p, "C12")) { int64_t y = 1970 + rndn(8029); int m = 1 + rndn(12); int64_t e = rndn(2) ? (int64_t)days(y, m, 1 + rndn(28)) * 86400 + rndn(86400) : (int64_t)days(y, m, 1) * 86400 + rndn(3) - 1; int32_t o = roff(); int k; if (e < 0) e = 0; if (e + o < 0) o = -o; for (k = 0; k < 3; k++) { k_round(k, e, o); if (e - o >= 0) k_round(k, e - o, o); } }
		else if (!strcmp(p, "C13")) { gen(b, 2); k_text(b); struct time_ctx c; struct st x; int k = rndn(2); time_ctx_init(&c); memset(&x, 0, sizeof x); gen(b, k); step(&c, &x, k, b); gen(b, !k); step(&c, &x, !k, b); ask(&c, &x); }
		else if (!strcmp(p, "C14")) { struct time_ctx c; struct st x; memset(&c, 0xa5, sizeof c); memset(&x, 0, sizeof x); CHECK(time_ctx_init(&c) == 0 && time_ctx_init(NULL) < 0, "init"); int k = rndn(6); ask(&c, &x);
			while (k-- >= 0) { int kd = rndn(3); gen(b, rndn(8) ? kd : rndn(3)); step(&c, &x, kd, b); ask(&c, &x); }
			uint64_t e; int32_t o; CHECK(time_ctx_get_local(NULL, &e, &o) < 0 && time_ctx_get_local(&c, NULL, &o) < 0 && time_ctx_get_local(&c, &e, NULL) < 0 && time_ctx_set_date(NULL, "x") < 0 && time_ctx_set_date(&c, NULL) < 0 && time_ctx_set_hour(&c, NULL) < 0 && time_ctx_set_time(&c, NULL) < 0 && time_ctx_set_hour(NULL, "x") < 0 && time_ctx_set_time(NULL, "x") < 0, "missing argument accepted"); }
	}
	return 0;
}
int replay(const char *p, int c, char **v) {
#define N(i) strtoll(v[i], 0, 10)
	if (!strcmp(v[0], "from_tm")) k_from(N(1), N(2), N(3), N(4), N(5), N(6), N(7)); else if (!strcmp(v[0], "to_tm")) k_to(strtoull(v[1], 0, 10), N(2));
	else if (!strcmp(v[0], "roundtrip")) k_round(!strcmp(v[1], "short") ? 0 : !strcmp(v[1], "long") ? 1 : 2, N(2), N(3));
	else if (!strcmp(v[0], "get")) { struct time_ctx x; memset(&x, 0, sizeof x); x.fields = N(1); x.tm.tm_year = N(2); x.tm.tm_mon = N(3); x.tm.tm_mday = N(4); x.tm.tm_hour = N(5); x.tm.tm_min = N(6); x.tm.tm_sec = N(7); x.gmtoff = N(8); struct st s = {x.fields, {N(2) + 1900, N(3) + 1, N(4)}, {N(5), N(6), N(7), N(8)}}; ask(&x, &s); }
	else if (!strcmp(v[0], "text")) k_text(v[1]); else return 3;
	return 0;
}
