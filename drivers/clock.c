#include "drv.h"
#include <time.h>
#include <sys/time.h>
#include <futils/systimetools.h>
/* no clock of the sandbox is touched: every call that reads or sets one is replaced */
static struct timespec now[8]; static int nr, failrd, failset, nset; static struct timespec set; static int32_t zone[2]; static int64_t flip;
static void next(struct timespec *t) { *t = now[nr < 7 ? nr : 7]; nr++; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { struct timespec t; (void)tz; if (failrd) { errno = failrd; return -1; } next(&t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (failrd) { errno = failrd; return -1; } CHECK(c == CLOCK_REALTIME, "clock %d is read", (int)c); next(t); return 0; }
time_t __wrap_time(time_t *p) { struct timespec t; next(&t); if (p) *p = t.tv_sec; return t.tv_sec; }
struct tm *__wrap_localtime_r(const time_t *t, struct tm *m) { memset(m, 0x5a, sizeof *m); m->tm_gmtoff = zone[*t >= flip]; return m; }
void __wrap_tzset(void) {}
static int doset(int64_t s, int64_t ns) { set.tv_sec = s; set.tv_nsec = ns; nset++; if (failset) { errno = failset; return -1; } return 0; }
int __wrap_settimeofday(const struct timeval *tv, const void *tz) { CHECK(tv && !tz, "settimeofday is given a zone"); return doset(tv->tv_sec, tv->tv_usec * 1000); }
int __wrap_clock_settime(clockid_t c, const struct timespec *t) { CHECK(c == CLOCK_REALTIME, "clock %d is set", (int)c); return doset(t->tv_sec, t->tv_nsec); }
int __wrap_stime(const time_t *t) { return doset(*t, 0); }
int __wrap_adjtime(const void *a, void *b) { (void)a; (void)b; FAIL("adjtime is called"); return -1; }
int __wrap_adjtimex(void *a) { (void)a; FAIL("adjtimex is called"); return -1; }
static const int ERR[] = {EPERM, EINVAL, EFAULT, ENOSYS};
static void k_set(uint64_t e, int32_t o, int fail) {
	nset = 0; failset = fail; EVAL(); int r = time_local_set(e, o);
	CHECK(nset == 1 && (uint64_t)set.tv_sec == e && set.tv_nsec == 0, "time_local_set(%llu, %d) sets the clock %d times, to %lld.%09ld", (unsigned long long)e, o, nset, (long long)set.tv_sec, set.tv_nsec);
	CHECK(r == -fail, "time_local_set(%llu) returns %d when the system call returns error %d", (unsigned long long)e, r, fail);
}
static void k_get(int ms, int a, int b, int c) {
	uint64_t *e = malloc(8), e0 = rnd(); uint16_t *m = malloc(2), m0 = 0xabcd; int32_t *o = malloc(4), o0 = 0x12345678; int i, r, ok = 0, oo = 0; *e = e0; *m = m0; *o = o0; nr = 0; EVAL();
	r = ms ? time_local_ms_get(a ? e : NULL, b ? m : NULL, c ? o : NULL) : time_local_get(a ? e : NULL, c ? o : NULL); if (!ms) b = 0;
	CHECK((a || *e == e0) && (b || *m == m0) && (c || *o == o0), "an output that is not requested is written");
	if (!a && !c) { CHECK(r < 0 && *m == m0, "request without second and offset returns %d", r); goto end; }
	if (failrd) { CHECK(r == -failrd && *e == e0 && *m == m0 && *o == o0, "clock error %d: returns %d", failrd, r); goto end; }
	CHECK(r == 0, "returns %d", r);
	for (i = 0; i < nr && i < 8; i++) { if ((!a || *e == (uint64_t)now[i].tv_sec) && (!b || *m == now[i].tv_nsec / 1000000)) ok = 1; if (*o == zone[now[i].tv_sec >= flip]) oo = 1; }
	CHECK(ok, "returns %lld s %d ms (requested %d %d), the first reading was %lld.%09ld", (long long)*e, *m, a, b, (long long)now[0].tv_sec, now[0].tv_nsec);
	CHECK(!c || oo, "returns offset %d, the zone has %d or %d", *o, zone[0], zone[1]);
end:	free(e); free(m); free(o);
}
static void clk(void) {
	int i; int64_t s = rndn(3) ? 1500000000 + (int64_t)rndn(1000000000) : (int64_t)(rnd() >> (31 + rndn(30))), n = rndn(2) ? rndn(1000000000) : (999999999 - rndn(2000000) * rndn(2)); int64_t t = s * 1000000000 + n;
	for (i = 0; i < 8; i++) { now[i].tv_sec = t / 1000000000; now[i].tv_nsec = t % 1000000000; t += rndn(2) ? rndn(3000) : rndn(2) ? rndn(2000000) : rndn(3000000000ull); }
	flip = rndn(4) ? INT64_MAX : now[rndn(3)].tv_sec; for (i = 0; i < 2; i++) zone[i] = rndn(4) ? ((int)rndn(105) - 48) * 900 : (int)rndn(200000) - 100000; failrd = rndn(6) ? 0 : ERR[rndn(4)];
}
int sweep(const char *p, uint64_t n) { uint64_t i; (void)p; for (i = 0; i < n; i++) { clk(); k_get(rndn(3) > 0, rndn(4) > 0, rndn(2), rndn(3) > 0); k_set(rndn(2) ? rndv(64) : rndn(1ull << 34), (int32_t)rndv(32), rndn(4) ? 0 : ERR[rndn(4)]); } return 0; }
int replay(const char *p, int c, char **v) { int i; (void)p; if (!strcmp(v[0], "set")) { k_set(strtoull(v[1], 0, 10), atoi(v[2]), 0); k_set(strtoull(v[1], 0, 10), atoi(v[2]), EPERM); } else if (!strcmp(v[0], "get") && c > 4) for (i = 0; i < 2000; i++) { clk(); k_get(atoi(v[1]), atoi(v[2]), atoi(v[3]), atoi(v[4])); } else return 3; return 0; }
