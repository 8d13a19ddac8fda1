#include "drv.h"
#include <stddef.h>
#include <math.h>
#include <futils/futils.h>
static int na, nb, nc;
#define ONE(t, FN, mn) do { if (!strcmp(fn, FN) && !strcmp(ty, #t)) { t A = (t)a, B = (t)b, C = (t)c, r, w; na = nb = nc = 0; (void)C; mn } } while (0)
#define EA (na++, A)
#define EB (nb++, B)
#define EC (nc++, C)
#define RES(want, k) w = (want); CHECK(r == w, "%s<%s>(%lld,%lld,%lld) gave %lld", fn, ty, (long long)A, (long long)B, (long long)C, (long long)r); CHECK(na == 1 && nb == 1 && nc == k, "%s<%s> evaluated its arguments %d,%d,%d times", fn, ty, na, nb, nc);
#define mn(x, y) ((x) < (y) ? (x) : (y))
#define mx(x, y) ((x) < (y) ? (y) : (x))
#define ALL(t) \
	ONE(t, "min", r = FUTILS_MIN(EA, EB); RES(mn(A, B), 0)); ONE(t, "max", r = FUTILS_MAX(EA, EB); RES(mx(A, B), 0)); \
	ONE(t, "MIN", r = MIN(EA, EB); RES(mn(A, B), 0)); ONE(t, "MAX", r = MAX(EA, EB); RES(mx(A, B), 0)); \
	ONE(t, "bound", if (!(C < B)) { r = FUTILS_BOUND(EA, EB, EC); RES(A < B ? B : C < A ? C : A, 1) }); ONE(t, "BOUND", if (!(C < B)) { r = BOUND(EA, EB, EC); RES(A < B ? B : C < A ? C : A, 1) }); \
	ONE(t, "nest", r = FUTILS_MIN(FUTILS_MAX(EA, EB), EC); RES(mn(mx(A, B), C), 1)); ONE(t, "nest2", r = FUTILS_MAX(EC, FUTILS_MIN(EA, EB)); RES(mx(C, mn(A, B)), 1));
static const char *FNS[] = { "min", "max", "MIN", "MAX", "bound", "BOUND", "nest", "nest2" };
static const char *TYS[] = { "int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t" };
static void one(const char *fn, const char *ty, uint64_t a, uint64_t b, uint64_t c) { EVAL();
	ALL(int8_t) ALL(uint8_t) ALL(int16_t) ALL(uint16_t) ALL(int32_t) ALL(uint32_t) ALL(int64_t) ALL(uint64_t) }
static double fval(const char *ty, uint64_t b) { if (!strcmp(ty, "float")) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
#define FALL(t) \
	FONE(t, "min", r = FUTILS_MIN(EA, EB); FRES(mn(A, B), 0)) FONE(t, "max", r = FUTILS_MAX(EA, EB); FRES(mx(A, B), 0)) \
	FONE(t, "MIN", r = MIN(EA, EB); FRES(mn(A, B), 0)) FONE(t, "MAX", r = MAX(EA, EB); FRES(mx(A, B), 0)) \
	FONE(t, "bound", if (B <= C) { r = FUTILS_BOUND(EA, EB, EC); FRES(A < B ? B : C < A ? C : A, 1) }) FONE(t, "BOUND", if (B <= C) { r = BOUND(EA, EB, EC); FRES(A < B ? B : C < A ? C : A, 1) }) \
	FONE(t, "nest", r = FUTILS_MIN(FUTILS_MAX(EA, EB), EC); FRES(mn(mx(A, B), C), 1)) FONE(t, "nest2", r = FUTILS_MAX(EC, FUTILS_MIN(EA, EB)); FRES(mx(C, mn(A, B)), 1))
#define FONE(t, FN, m) if (!strcmp(fn, FN) && !strcmp(ty, #t)) { t A = (t)a, B = (t)b, C = (t)c, r, w; na = nb = nc = 0; (void)C; m }
#define FRES(want, k) w = (want); CHECK(r == w, "%s<%s>(%a,%a,%a) gave %a", fn, ty, (double)A, (double)B, (double)C, (double)r); CHECK(na == 1 && nb == 1 && nc == k, "%s<%s> evaluated its arguments %d,%d,%d times", fn, ty, na, nb, nc);
static void fone(const char *fn, const char *ty, double a, double b, double c) { if (a != a || b != b || c != c) return; EVAL(); FALL(float) FALL(double) }
static void ptrs(size_t a, size_t b, size_t c) { static char text[64]; const char *A = text + a, *B = text + b, *C = text + c, *r; EVAL();
#define PC(e, w, k) na = nb = nc = 0; r = (e); CHECK(r == (w), "macro on pointers %zu %zu %zu gave %td", a, b, c, r - text); CHECK(na == 1 && nb == 1 && nc == k, "argument evaluated more than once");
	PC(FUTILS_MIN(EA, EB), mn(A, B), 0) PC(FUTILS_MAX(EA, EB), mx(A, B), 0) if (b <= c) { PC(FUTILS_BOUND(EA, EB, EC), A < B ? B : C < A ? C : A, 1) } }
static void flt(double A, double B, double C) { double r, w; const char *fn = "floating", *ty = "double"; EVAL();
#define F(want, k) w = (want); CHECK(r == w, "macro on doubles %a %a %a gave %a", A, B, C, r); CHECK(na == 1 && nb == 1 && nc == k, "argument evaluated more than once"); na = nb = nc = 0;
	na = nb = nc = 0; (void)fn; (void)ty;
	r = FUTILS_MIN(EA, EB); F(mn(A, B), 0) r = FUTILS_MAX(EA, EB); F(mx(A, B), 0)
	if (B <= C) { r = FUTILS_BOUND(EA, EB, EC); F(A < B ? B : A > C ? C : A, 1) } }
#define LAY(s, m) do { struct s *o = malloc(sizeof *o); CHECK(FUTILS_CONTAINER_OF(&o->m, struct s, m) == o, "container-of " #s "." #m); CHECK(list_entry(&o->m, struct s, m) == o, "list_entry " #s); free(o); } while (0)
struct s0 { char p; char m; }; struct s1 { int x; char pad[13]; long m; short y; }; struct s2 { struct { char q[5]; struct list_node n[3]; } in; char e[7]; struct list_node m; }; struct s3 { struct list_node m; } __attribute__((packed)); struct s4 { char c; struct list_node m; } __attribute__((packed));
struct s5 { char p[70001]; struct list_node m; char q[3]; }; struct s6 { struct list_node n[9000]; int v; char e; struct s5 in; };
static void layouts(void) { static struct s5 B2[2]; static char B5[5][100000]; static int B70k[70000]; static struct s6 B1[1]; static char A1[1]; static struct s2 A3[3]; short A23[2][3]; void *A100[100]; double d7[7];
	EVAL(); LAY(s0, m); LAY(s1, m); LAY(s2, m); LAY(s2, in.n[2]); LAY(s3, m); LAY(s4, m); LAY(s2, in.q[4]); LAY(s5, m); LAY(s5, q[2]); LAY(s6, n[8999]); LAY(s6, e); LAY(s6, in.m); (void)B2; (void)B5; (void)B70k; (void)B1;
	(void)A23; (void)A100; (void)d7;
	CHECK(FUTILS_SIZEOF_ARRAY(A1) == 1 && SIZEOF_ARRAY(A3) == 3 && FUTILS_SIZEOF_ARRAY(A23) == 2 && FUTILS_SIZEOF_ARRAY(A23[1]) == 3 && SIZEOF_ARRAY(A100) == 100 && SIZEOF_ARRAY(d7) == 7, "array size");
	CHECK(FUTILS_SIZEOF_ARRAY(B2) == 2 && SIZEOF_ARRAY(B5) == 5 && SIZEOF_ARRAY(B5[1]) == 100000 && FUTILS_SIZEOF_ARRAY(B70k) == 70000 && SIZEOF_ARRAY(B1) == 1, "size of a large array"); }
int sweep(const char *prop, uint64_t n) { uint64_t i; int f, t; layouts();
	for (i = 0; i < n; i++) { for (f = 0; f < 8; f++) for (t = 0; t < 8; t++) { uint64_t a = rndv(64), b = rndn(4) ? rndv(64) : a, c = rndn(3) ? rndv(64) : rndn(2) ? a : b; one(FNS[f], TYS[t], a, b, c); }
		flt(ldexp((double)(int64_t)rnd(), (int)rndn(100) - 80), (int)rndn(9) - 4, rndn(3) ? (int)rndn(20) : ldexp(rnd(), -70));
		{ static const double SP[] = { 0.0, -0.0, INFINITY, -INFINITY, 0x1p-1074, -0x1p-1074, 0x1p-149, 1.0, 1.5, -1.0, 0x1.fffffep127, 0x1.fffffffffffffp1023, -0x1.fffffffffffffp1023, 0.25, 0.75, -0.25 }; double x[3]; int k;
		  for (k = 0; k < 3; k++) x[k] = rndn(3) ? SP[rndn(16)] : k && rndn(2) ? x[k - 1] : fval(rndn(2) ? "float" : "double", rnd());
		  for (f = 0; f < 8; f++) { fone(FNS[f], "float", x[0], x[1], x[2]); fone(FNS[f], "double", x[0], x[1], x[2]); } }
		ptrs(rndn(64), rndn(64), rndn(64)); }
	return 0; }
int replay(const char *prop, int argc, char **v) { if (argc < 5) { layouts(); return 0; }
	if (!strcmp(v[1], "text_t")) { uint64_t a = strtoull(v[2], 0, 10), b = strtoull(v[3], 0, 10), c = strtoull(v[4], 0, 10); ptrs(a > b ? 1 + (a > c) : a < b ? 0 : a > c, b > a ? 1 + (b > c) : b < a ? 0 : b > c, c > a ? 1 + (c > b) : c < a ? 0 : c > b); return 0; }
	if (!strcmp(v[1], "float") || !strcmp(v[1], "double")) { fone(v[0], v[1], fval(v[1], strtoull(v[2], 0, 10)), fval(v[1], strtoull(v[3], 0, 10)), fval(v[1], strtoull(v[4], 0, 10))); return 0; }
	one(v[0], v[1], strtoull(v[2], 0, 10), strtoull(v[3], 0, 10), strtoull(v[4], 0, 10)); return 0; }
