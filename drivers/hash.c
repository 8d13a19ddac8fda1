#include "drv.h"
#define FUTILS_LIST
#include <futils/hash.h>
#include <stddef.h>
#define M 96
static int fail_at; static long nalloc, live;
void *__real_calloc(size_t, size_t); void *__real_malloc(size_t); void __real_free(void *);
static size_t last_n;
static void *blocks[256];
void *__wrap_calloc(size_t n, size_t s) { int i; if (fail_at && !--fail_at) { errno = ENOMEM; return NULL; } last_n = n; if (n * s > (64u << 20)) { errno = ENOMEM; return NULL; } void *p = __real_calloc(n, s); live++; for (i = 0; i < 256; i++) if (!blocks[i]) { blocks[i] = p; break; } return p; }
void __wrap_free(void *p) { int i; if (p) { live--; for (i = 0; i < 256; i++) if (blocks[i] == p) { blocks[i] = 0; break; } } __real_free(p); }
/* memory from malloc is dirty */
void *__wrap_malloc(size_t n) { int i; if (fail_at && !--fail_at) { errno = ENOMEM; return NULL; } last_n = n / sizeof(void *); if (n > (64u << 20)) { errno = ENOMEM; return NULL; } void *p = __real_malloc(n); if (p) memset(p, 0xa5, n); live++; for (i = 0; i < 256; i++) if (!blocks[i]) { blocks[i] = p; break; } return p; }
static uint32_t K[M]; static void *D[M]; static int Cst[M], n; static char pool[4096];
static void *freed[M]; static int nfreed;
static void hfree(void *d) { if (nfreed < M) freed[nfreed] = d; nfreed++; }
static int find(uint32_t k) { int i; for (i = 0; i < n; i++) if (K[i] == k) return i; return -1; }
static struct hash T; static int hascb; static uint32_t keys[M]; static int nk;
static void check(const char *op) {
	int i, j; struct hash_entry *e; struct list_node *x; EVAL();
	for (i = 0; i < nk; i++) { void *d = (void *)1; const void *c = (void *)1; int r = futils_hash_lookup(&T, keys[i], &d), r2 = futils_hash_lookup_const(&T, keys[i], &c), m = find(keys[i]);
		if (m < 0) { CHECK(r == -ENOENT && d == (void *)1, "after %s: lookup of absent key %u = %d", op, keys[i], r); CHECK(r2 == -ENOENT && c == (void *)1, "after %s: const lookup of absent key %u = %d", op, keys[i], r2); }
		else { if (Cst[m]) CHECK(r == -EPERM && d == (void *)1, "after %s: lookup of constant key %u = %d", op, keys[i], r); else CHECK(r == 0 && d == D[m], "after %s: lookup of key %u = %d", op, keys[i], r);
			CHECK(r2 == 0 && c == D[m], "after %s: const lookup of key %u = %d", op, keys[i], r2); CHECK(futils_hash_lookup_const(&T, keys[i], NULL) == 0, "lookup without result"); }
		CHECK(futils_hash_lookup(&T, keys[i], NULL) == (m < 0 ? -ENOENT : Cst[m] ? -EPERM : 0), "after %s: lookup of key %u without a result asked for", op, keys[i]); CHECK(futils_hash_lookup_const(&T, keys[i], NULL) == (m < 0 ? -ENOENT : 0), "after %s: const lookup without result", op); }
	i = 0; list_walk_entry_forward(&T.entries, e, node) { CHECK(i < n, "after %s: too many entries listed", op); CHECK(e->key == K[i] && e->data == D[i], "after %s: entry %d listed is not the %d-th inserted", op, i, i); i++; if (i > n) break; }
	CHECK(i == n, "after %s: %d of %d entries listed", op, i, n);
	i = n; list_walk_entry_backward(&T.entries, e, node) { CHECK(i > 0, "after %s: too many entries listed backwards", op); i--; CHECK(e->key == K[i], "after %s: entry %d listed backwards is wrong", op, i); } CHECK(i == 0, "after %s: entries missing backwards", op);
	CHECK(live == n + 1, "after %s: %ld blocks allocated for %d entries", op, live, n);
	if (!hascb) CHECK(nfreed == 0, "callback ran though none was set");
}
static int was_freed(void *d) { int i, c = 0; for (i = 0; i < nfreed && i < M; i++) c += freed[i] == d; return c; }
static void one(uint64_t size, int steps) {
	int i, s, r; n = nfreed = 0; live = 0; fail_at = 0; memset(blocks, 0, sizeof blocks); hascb = rndn(3) != 0;
	memset(&T, 0xa5, sizeof T);
	if (rndn(8) == 0) { fail_at = 1; r = futils_hash_init(&T, size, hfree); CHECK(r == -ENOMEM && live == 0, "init failure reported as %d, %ld blocks", r, live); fail_at = 0; }
	r = futils_hash_init(&T, size, hascb ? hfree : NULL);
	if (r) { CHECK(r == -ENOMEM && size > 1000000 && live == 0, "init(%llu) = %d", (unsigned long long)size, r); return; }
	CHECK(T.size >= 1 && T.size == last_n, "init(%llu): size %u for %zu buckets", (unsigned long long)size, T.size, last_n);
	nk = 1 + rndn(20); for (i = 0; i < nk; i++) keys[i] = i && rndn(3) ? (rndn(2) ? keys[rndn(i)] ^ (1u << rndn(32)) : keys[rndn(i)] + (uint32_t)(T.size * (1 + rndn(4)))) : (uint32_t)rndv(32);
	check("init");
	for (s = 0; s < steps; s++) {
		uint32_t k = keys[rndn(nk)]; int m = find(k); void *d = pool + rndn(4096); if (rndn(12) == 0) d = NULL;
		nfreed = 0;
		switch (rndn(12)) {
		case 0: if (rndn(3)) break; r = futils_hash_remove_all(&T); CHECK(r == 0, "remove_all = %d", r);
			if (hascb) { CHECK(nfreed == n, "remove_all: callback ran %d times for %d entries", nfreed, n); for (i = 0; i < n; i++) { int c = 0, j; for (j = 0; j < n; j++) c += D[j] == D[i]; CHECK(was_freed(D[i]) == c, "remove_all: data of key %u released %d times", K[i], was_freed(D[i])); } } n = 0; check("remove_all"); break;
		case 1: case 2: case 3: case 4: r = futils_hash_remove(&T, k);
			if (m < 0) CHECK(r == -ENOENT && nfreed == 0, "remove of absent key = %d", r);
			else { CHECK(r == 0, "remove of present key %u = %d", k, r); if (hascb) CHECK(nfreed == 1 && freed[0] == D[m], "remove: callback ran %d times", nfreed); 
				memmove(K + m, K + m + 1, (n - m - 1) * sizeof *K); memmove(D + m, D + m + 1, (n - m - 1) * sizeof *D); memmove(Cst + m, Cst + m + 1, (n - m - 1) * sizeof *Cst); n--; } check("remove"); break;
		default: { int c = rndn(2); if (n >= 60) break; int af = rndn(8) == 0; if (af) fail_at = 1; 
			r = c ? futils_hash_insert_const(&T, k, d) : futils_hash_insert(&T, k, d); int hit = af && fail_at == 0; fail_at = 0;
			if (hit) CHECK(r == -ENOMEM || m >= 0 && r == -EEXIST, "insert with failed allocation = %d", r);
			else if (m >= 0) CHECK(r == -EEXIST, "insert of present key = %d", r);
			else { CHECK(r == 0, "insert = %d", r); K[n] = k; D[n] = d; Cst[n] = c; n++; } CHECK(nfreed == 0, "insert released data"); check("insert"); } }
	}
	nfreed = 0; r = futils_hash_destroy(&T); CHECK(r == 0 && live == 0, "destroy = %d, %ld blocks left", r, live); if (hascb) CHECK(nfreed == n, "destroy: callback ran %d times for %d entries", nfreed, n); else CHECK(!nfreed, "callback");
	{ struct hash Z; memset(&Z, 0, sizeof Z); CHECK(!T.buckets && !T.size && !T.hfree, "destroy leaves state"); }
}
int sweep(const char *p, uint64_t cnt) { uint64_t i; static const uint64_t big[] = {UINT64_MAX, UINT32_MAX, 2147483647u, 2147483648u, 1u << 20, 8388593, 65521};
	for (i = 0; i < cnt; i++) one(i < 7 ? big[i] : i < 60 ? i - 7 : rndn(2) ? rndn(4) : rndn(300), 40);
	{ void *d; const void *c; CHECK(futils_hash_init(NULL, 3, NULL) < 0 && futils_hash_destroy(NULL) < 0 && futils_hash_remove_all(NULL) < 0 && futils_hash_insert(NULL, 1, 0) < 0 && futils_hash_insert_const(NULL, 1, 0) < 0 && futils_hash_remove(NULL, 1) < 0 && futils_hash_lookup(NULL, 1, &d) < 0 && futils_hash_lookup_const(NULL, 1, &c) < 0, "missing table accepted"); }
	return 0; }
int replay(const char *p, int c, char **v) { if (strcmp(v[0], "init")) return 3; one(strtoull(v[1], 0, 10), 40); return 0; }
