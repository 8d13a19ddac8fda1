#include "drv.h"
#include <time.h>
#include <futils/timetools.h>
typedef __int128 I;
#define G 1000000000LL
static int ck_n, ck_fail, ck_id[8]; static struct timespec ck_v[8];
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
	int k = ck_n < 8 ? ck_n : 7; ck_n++; ck_id[k] = id;
	if (ck_fail == ck_n) { errno = 5 + ck_n; return -1; }
	*ts = ck_v[k]; return 0;
}
static struct timespec slept; static int slept_n, sleep_err;
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (!slept_n++) slept = *a; if (sleep_err) { errno = sleep_err; if (b) { b->tv_sec = 0; b->tv_nsec = 1; } if (slept_n > 3) return 0; return -1; } return 0; }
int __wrap_nanosleep(const struct timespec *, struct timespec *);
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) { (void)c; if (fl) FAIL("sleep until an absolute time"); return __wrap_nanosleep(a, b) ? errno : 0; }
static I ns(const struct timespec *t) { return (I)t->tv_sec * G + t->tv_nsec; }
static void norm(const struct timespec *t, const char *w) { CHECK(t->tv_nsec >= 0 && t->tv_nsec < G, "%s: result {%lld,%ld} is not normalised", w, (long long)t->tv_sec, (long)t->tv_nsec); }
#define D4 "{%lld,%ld} {%lld,%ld}"
#define A4 (long long)a.tv_sec, (long)a.tv_nsec, (long long)b.tv_sec, (long)b.tv_nsec
static void k_diff(struct timespec a, struct timespec b) {
	struct timespec d; I x = ns(&b) - ns(&a); int r = time_timespec_diff(&a, &b, &d); EVAL();
	CHECK((r == 0) == (x >= 0) && r <= 0, "diff " D4 " returns %d", A4, r);
	CHECK(time_timespec_diff(NULL, &b, &d) < 0 && time_timespec_diff(&a, NULL, &d) < 0 && (x < 0 || time_timespec_diff(&a, &b, NULL) < 0), "diff with missing argument accepted");
	time_timespec_diff(&a, &b, &d);
	if (r == 0) { norm(&d, "diff"); CHECK(ns(&d) == x, "diff " D4 " = {%lld,%ld}", A4, (long long)d.tv_sec, (long)d.tv_nsec); }
}
static void k_cmp(struct timespec a, struct timespec b) { I x = ns(&a) - ns(&b); int r = time_timespec_cmp(&a, &b); EVAL(); CHECK(r == (x > 0) - (x < 0), "cmp " D4 " = %d", A4, r);
	CHECK(time_timespec_cmp(NULL, &b) == 0 && time_timespec_cmp(&a, NULL) == 0, "cmp with NULL is not 0"); }
static void k_add(struct timespec a, int64_t dl, int us) {
	struct timespec o; I x = ns(&a) + (I)dl * (us ? 1000 : 1); if (x / G > ((I)1 << 62) || x / G < -((I)1 << 62)) return;
	int r = us ? time_timespec_add_us(&a, dl, &o) : time_timespec_add_ns(&a, dl, &o); EVAL();
	CHECK(r == 0, "add returns %d", r); norm(&o, us ? "add_us" : "add_ns"); CHECK(ns(&o) == x, "add_%s {%lld,%ld} + %lld = {%lld,%ld}", us ? "us" : "ns", (long long)a.tv_sec, (long)a.tv_nsec, (long long)dl, (long long)o.tv_sec, (long)o.tv_nsec);
	CHECK(time_timespec_add_us(NULL, dl, &o) < 0 && time_timespec_add_ns(&a, dl, NULL) < 0 && time_timespec_add_ns(NULL, 0, &o) < 0 && time_timespec_add_us(&a, 1, NULL) < 0, "add with missing argument accepted");
}
static void k_diffus(struct timespec a, struct timespec b) {
	I x = ns(&a) - ns(&b), y = x < 0 ? -x : x; if (y / 1000 > (I)UINT64_MAX) return; uint64_t o = 7; int s = 42;
	int r = time_timespec_diff_us(&a, &b, &o, &s); EVAL();
	CHECK(r == 0 && o == (uint64_t)(y / 1000), "diff_us " D4 " = %d, %llu", A4, r, (unsigned long long)o);
	CHECK(x == 0 || s == (x > 0 ? 1 : -1), "diff_us " D4 " sign %d", A4, s);
	CHECK(time_timespec_diff_us(&a, &b, &o, NULL) == 0 && time_timespec_diff_us(&a, &b, NULL, &s) < 0, "diff_us optional arguments");
	CHECK(time_timespec_diff_us(NULL, &b, &o, &s) < 0 && time_timespec_diff_us(&a, NULL, &o, &s) < 0, "diff_us with missing argument accepted");
}
static void k_range(struct timespec a, struct timespec b, uint64_t rg) {
	I x = ns(&a) - ns(&b), y = x < 0 ? -x : x; if (y / 1000 > (I)UINT64_MAX) return; uint64_t o = 7, u = y / 1000;
	int r = time_timespec_diff_in_range(&a, &b, rg, &o); EVAL();
	CHECK(r == (y == 0 || u < rg), "in_range " D4 " range %llu = %d", A4, (unsigned long long)rg, r);
	CHECK(o == u, "in_range " D4 " reports %llu", A4, (unsigned long long)o);
	CHECK(time_timespec_diff_in_range(&a, &b, rg, NULL) == r, "in_range without output differs");
	CHECK(time_timespec_diff_in_range(NULL, &b, rg, &o) == 0 && time_timespec_diff_in_range(&a, NULL, rg, &o) == 0, "in_range with missing argument accepted");
}
static void k_to(const char *u, struct timespec a) {
	I k = !strcmp(u, "ns") ? 1 : !strcmp(u, "us") ? 1000 : 1000000, x = ns(&a) / k; uint64_t o = 3; if (a.tv_sec < 0 || x > (I)UINT64_MAX) return;
	int r = k == 1 ? time_timespec_to_ns(&a, &o) : k == 1000 ? time_timespec_to_us(&a, &o) : time_timespec_to_ms(&a, &o); EVAL();
	CHECK(r == 0 && o == (uint64_t)x, "timespec_to_%s {%lld,%ld} = %llu", u, (long long)a.tv_sec, (long)a.tv_nsec, (unsigned long long)o);
}
static void k_from(const char *u, uint64_t v) {
	I k = !strcmp(u, "ns") ? 1 : !strcmp(u, "us") ? 1000 : 1000000; struct timespec o = {-7, -7}; uint64_t b = 0;
	int r = k == 1 ? time_ns_to_timespec(&v, &o) : k == 1000 ? time_us_to_timespec(&v, &o) : time_ms_to_timespec(&v, &o); EVAL();
	norm(&o, "count to timespec"); CHECK(r == 0 && ns(&o) == (I)v * k, "%s_to_timespec %llu = {%lld,%ld}", u, (unsigned long long)v, (long long)o.tv_sec, (long)o.tv_nsec);
	r = k == 1 ? time_timespec_to_ns(&o, &b) : k == 1000 ? time_timespec_to_us(&o, &b) : time_timespec_to_ms(&o, &b);
	CHECK(r == 0 && b == v, "%s %llu does not come back (%llu)", u, (unsigned long long)v, (unsigned long long)b);
}
static void k_tv(struct timeval v) {
	struct timespec o; uint32_t ms = 1; I x = (I)v.tv_sec * 1000 + v.tv_usec / 1000; EVAL();
	CHECK(time_timeval_to_timespec(&v, &o) == 0 && o.tv_sec == v.tv_sec && o.tv_nsec == v.tv_usec * 1000, "timeval_to_timespec {%lld,%ld}", (long long)v.tv_sec, (long)v.tv_usec);
	if (x >= 0 && x <= UINT32_MAX) CHECK(time_timeval_to_ms(&v, &ms) == 0 && ms == x, "timeval_to_ms {%lld,%ld} = %u", (long long)v.tv_sec, (long)v.tv_usec, ms);
	CHECK(time_timeval_to_timespec(NULL, &o) < 0 && time_timeval_to_timespec(&v, NULL) < 0 && time_timeval_to_ms(NULL, &ms) < 0 && time_timeval_to_ms(&v, NULL) < 0, "timeval NULL accepted");
}
static void k_m2r(uint64_t mt, int ms) {
	uint64_t o = 99, k = ms ? 1000 : 1; int i; uint64_t u[3];
	ck_n = 0; for (i = 0; i < 3; i++) u[i] = (uint64_t)ck_v[i].tv_sec * 1000000 + ck_v[i].tv_nsec / 1000;
	int r = ms ? time_monotonic_to_realtime_ms(mt, &o) : time_monotonic_to_realtime_us(mt, &o); EVAL();
	if (ck_fail && ck_fail <= 3) { CHECK(r == -(5 + ck_fail) && o == 99, "failed clock %d: returns %d, result %llu", ck_fail, r, (unsigned long long)o); return; }
	CHECK(r == 0, "monotonic_to_realtime returns %d", r);
	CHECK(ck_n == 3 && ck_id[0] == 1 && ck_id[1] == 0 && ck_id[2] == 1, "clocks are not read as monotonic, real time, monotonic");
	uint64_t e = mt * k + u[1] - (u[0] + u[2] + 1) / 2; if (ms) { I w = (I)mt * k + u[1] - (u[0] + u[2] + 1) / 2; if (w < 0) return; e = (e + 500) / 1000; }
	CHECK(o == e, "monotonic_to_realtime_%s(%llu) = %llu expected %llu (readings %llu %llu %llu)", ms ? "ms" : "us", (unsigned long long)mt, (unsigned long long)o, (unsigned long long)e, (unsigned long long)u[0], (unsigned long long)u[1], (unsigned long long)u[2]);
}
static void k_sleep(uint32_t ms) {
	for (sleep_err = 0; sleep_err <= 4; sleep_err += 4) { slept_n = 0; int r = time_msleep(ms); EVAL();
		CHECK(slept_n > 0 && ns(&slept) == (I)ms * 1000000, "msleep %u asks for {%lld,%ld}", ms, (long long)slept.tv_sec, (long)slept.tv_nsec); norm(&slept, "msleep");
		if (!sleep_err) CHECK(r == 0, "msleep returns %d", r); else CHECK(r == -sleep_err || slept_n > 1, "msleep: interrupted sleep gives %d", r); }
}
static struct timespec rts(int neg) { struct timespec t; uint64_t b = rndn(62); t.tv_sec = rnd() >> (63 - b > 2 ? 63 - b : 2); if (neg && rndn(3) == 0) t.tv_sec = -t.tv_sec; 
	switch (rndn(4)) { case 0: t.tv_nsec = 0; break; case 1: t.tv_nsec = G - 1; break; default: t.tv_nsec = rndn(G); } return t; }
int sweep(const char *p, uint64_t n) {
	uint64_t i; static const char *U[] = {"ns", "us", "ms"};
	for (i = 0; i < n; i++) {
		if (!strcmp(p, "C08")) {
			struct timespec a = rts(1), b = rts(1); if (rndn(2)) { b = a; b.tv_sec += rndn(3); if (rndn(2)) b.tv_nsec = rndn(2) ? rndn(G) : (b.tv_nsec + rndn(3000)) % G; }
			k_diff(a, b); k_cmp(a, b); k_diffus(a, b); k_diffus(b, a); I x = ns(&a) - ns(&b); if (x < 0) x = -x;
			k_range(a, b, rndn(2) ? x / 1000 + rndn(3) - 1 : rndv(64)); k_range(b, a, x / 1000); k_add(a, (int64_t)rndv(64), 0); k_add(a, (int64_t)rndv(64), 1); k_add(a, -(int64_t)a.tv_nsec - (int64_t)rndn(3) + 1, 0); k_add(a, G - a.tv_nsec - 1 + rndn(3), 0);
		} else if (!strcmp(p, "C09")) { struct timespec a = rts(0); int k; if (rndn(2)) a.tv_sec = rndn(18446744073ull); for (k = 0; k < 3; k++) { k_to(U[k], a); k_from(U[k], rndv(64)); k_from(U[k], rndn(UINT64_MAX / G) * G + rndn(3) - 1); }
			struct timeval v = {rndn(2) ? rndn(5000000) : a.tv_sec, rndn(1000000)}; k_tv(v); uint64_t z; struct timespec s;
			CHECK(time_timespec_to_ns(NULL, &z) < 0 && time_timespec_to_us(NULL, &z) < 0 && time_timespec_to_ms(NULL, &z) < 0 && time_timespec_to_ns(&a, NULL) < 0 && time_timespec_to_us(&a, NULL) < 0 && time_timespec_to_ms(&a, NULL) < 0, "missing argument accepted");
			CHECK(time_ns_to_timespec(NULL, &s) < 0 && time_us_to_timespec(NULL, &s) < 0 && time_ms_to_timespec(NULL, &s) < 0 && time_ns_to_timespec(&z, NULL) < 0 && time_us_to_timespec(&z, NULL) < 0 && time_ms_to_timespec(&z, NULL) < 0, "missing argument accepted");
		} else if (!strcmp(p, "C10")) { int k; ck_v[0] = rts(0); ck_v[0].tv_sec &= (1ll << 40) - 1; ck_v[1] = rts(0); ck_v[1].tv_sec &= (1ll << 40) - 1; ck_v[2] = ck_v[0]; ck_v[2].tv_nsec = (ck_v[2].tv_nsec + rndn(5000000)) % G; ck_v[2].tv_sec += rndn(3);
			ck_fail = rndn(6); k_m2r(rndv(64), 0); k_m2r((uint64_t)ck_v[0].tv_sec * 1000000 + rndn(3), 0); k_m2r(rndn(UINT64_MAX / 1000), 1); k_m2r((uint64_t)ck_v[0].tv_sec * 1000 + rndn(3), 1);
			CHECK(time_monotonic_to_realtime_ms(1, NULL) < 0 && time_monotonic_to_realtime_us(1, NULL) < 0, "NULL result accepted");
			for (k = 0; k < 2; k++) { struct timespec o; ck_n = 0; ck_fail = rndn(2); int r = k ? time_get_realtime(&o) : time_get_monotonic(&o); CHECK(ck_id[0] == !k && r == (ck_fail ? -6 : 0) && (r || ns(&o) == ns(&ck_v[0])), "get clock %d", k); }
			{ struct timespec v = rts(0), o; v.tv_sec &= (1ll << 40) - 1; if (rndn(2)) { v = ck_v[0]; v.tv_nsec = rndn(G); } ck_n = ck_fail = 0; int r = time_timespec_diff_now(&v, &o); I x = ns(&ck_v[0]) - ns(&v); CHECK((r == 0) == (x >= 0) && (r || ns(&o) == x), "diff_now"); CHECK(ck_id[0] == 1, "diff_now reads clock %d", ck_id[0]);
				ck_n = 0; ck_fail = 1; r = time_timespec_diff_now(&v, &o); CHECK(r == -6, "diff_now with failing clock gives %d", r); ck_n = ck_fail = 0; CHECK(time_timespec_diff_now(NULL, &o) < 0, "diff_now NULL accepted"); }
		} else if (!strcmp(p, "C33")) k_sleep(i < 3000 ? i : rndv(32));
	}
	return 0;
}
int replay(const char *p, int c, char **v) {
#define L(i) strtoll(v[i], 0, 10)
#define UL(i) strtoull(v[i], 0, 10)
	struct timespec a = {0}, b = {0}; if (c > 2) { a.tv_sec = L(1); a.tv_nsec = L(2); } if (c > 4) { b.tv_sec = L(3); b.tv_nsec = L(4); }
	if (!strcmp(v[0], "diff")) k_diff(a, b); else if (!strcmp(v[0], "cmp")) k_cmp(a, b); else if (!strcmp(v[0], "diff_us")) k_diffus(a, b);
	else if (!strcmp(v[0], "in_range")) k_range(a, b, UL(5)); else if (!strcmp(v[0], "add_ns")) k_add(a, L(3), 0); else if (!strcmp(v[0], "add_us")) k_add(a, L(3), 1);
	else if (!strncmp(v[0], "to_", 3)) k_to(v[0] + 3, a); else if (!strncmp(v[0], "from_", 5)) k_from(v[0] + 5, UL(1));
	else if (!strncmp(v[0], "tv_", 3)) { struct timeval t = {L(1), L(2)}; k_tv(t); } else if (!strcmp(v[0], "msleep")) k_sleep(UL(1)); else return 3;
	return 0;
}
