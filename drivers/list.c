#include "drv.h"
#include <stddef.h>
#include <futils/list.h>
struct item { char pad[24]; struct list_node node; int v; };
typedef struct list_node N;
/* two rings; each modelled by an array of node pointers, [0] is the head */
#define M 64
struct ring { N head; int n; N *a[M]; };
static struct ring R[2]; static N bystander, by0;
static N *newnode(void) { struct item *i = malloc(sizeof *i); memset(i, 0xa5, sizeof *i); return &i->node; }
static void delnode(N *n) { free(list_entry(n, struct item, node)); }
static void start(struct ring *r, int K) { int i; r->n = 1; r->a[0] = &r->head; for (i = 1; i < K; i++) r->a[r->n++] = newnode();
	for (i = 0; i < K; i++) { r->a[i]->next = r->a[(i + 1) % K]; r->a[i]->prev = r->a[(i + K - 1) % K]; } }
static void stop(struct ring *r) { int i; for (i = 1; i < r->n; i++) delnode(r->a[i]); r->n = 0; }
static void check(const char *op) { int k, i; for (k = 0; k < 2; k++) { struct ring *r = &R[k];
	for (i = 0; i < r->n; i++) { CHECK(r->a[i]->next == r->a[(i + 1) % r->n], "%s: ring %d forward link %d of %d wrong", op, k, i, r->n); CHECK(r->a[i]->prev == r->a[(i + r->n - 1) % r->n], "%s: ring %d backward link %d of %d wrong", op, k, i, r->n); } }
	CHECK(bystander.next == by0.next && bystander.prev == by0.prev, "%s touched a node outside the lists", op); EVAL(); }
static void ins(struct ring *r, int after, N *n) { memmove(r->a + after + 2, r->a + after + 1, (r->n - after - 1) * sizeof *r->a); r->a[after + 1] = n; r->n++; }
static N *rem(struct ring *r, int i) { N *x = r->a[i]; memmove(r->a + i, r->a + i + 1, (r->n - i - 1) * sizeof *r->a); r->n--; return x; }
static int pos(struct ring *r, N *n) { int i; for (i = 0; i < r->n; i++) if (r->a[i] == n) return i; return -1; }
static void self(N *x, const char *op) { CHECK(x->next == x && x->prev == x, "%s: node not left as an empty list", op); }
static void gone(N *x, const char *op) { CHECK(list_node_is_unref(x) && !list_node_is_ref(x), "%s: the removed node does not read as detached", op); }
static void op(const char *o, int p, int q) {
	struct ring *A = &R[0], *B = &R[1]; N *n;
	if (!strcmp(o, "init")) { N x = {0, 0}; list_init(&x); self(&x, o); }
	else if (!strcmp(o, "add_after")) { n = newnode(); list_add_after(A->a[p], n); ins(A, p, n); }
	else if (!strcmp(o, "add_before") || !strcmp(o, "push")) { n = newnode(); if (o[0] == 'p') list_push(A->a[p], n); else list_add_before(A->a[p], n); ins(A, p ? p - 1 : A->n - 1, n); }
	else if (!strcmp(o, "del") || !strcmp(o, "del_init")) { if (!p) { if (A->n == 1 && o[3]) { list_del_init(A->a[0]); check(o); } return; } n = rem(A, p); if (o[3]) { list_del_init(n); self(n, o); } else { list_del(n); gone(n, o); } check(o); delnode(n); }
	else if (!strcmp(o, "replace") || !strcmp(o, "replace_init")) { N *x = newnode(); n = A->a[p]; 
		if (!p) { A->a[0] = x; if (o[7]) { list_replace_init(n, x); self(n, o); } else list_replace(n, x); check(o); memset(n, 0xa5, sizeof *n); A->a[0] = n; list_replace(x, n); check(o); delnode(x); return; }
		 A->a[p] = x; if (o[7]) { list_replace_init(n, x); self(n, o); } else list_replace(n, x); check(o); delnode(n); }
	else if (!strcmp(o, "move_after_same") || !strcmp(o, "move_before_same")) { if (!q || p == q || q >= A->n) return; N *t = A->a[p]; n = A->a[q]; rem(A, q); p = pos(A, t);
		if (o[5] == 'a') { list_move_after(t, n); ins(A, p, n); } else { list_move_before(t, n); ins(A, p ? p - 1 : A->n - 1, n); } }
	else if (!strcmp(o, "move_after_other") || !strcmp(o, "move_before_other")) { if (!q || q >= B->n) return; N *t = A->a[p]; n = rem(B, q); 
		if (o[5] == 'a') { list_move_after(t, n); ins(A, p, n); } else { list_move_before(t, n); ins(A, p ? p - 1 : A->n - 1, n); } }
	else if (!strcmp(o, "pop")) { struct item *it = list_pop(&A->head, struct item, node); if (A->n == 1) CHECK(!it, "pop of an empty list"); else { CHECK(it && &it->node == A->a[1], "pop is not the first"); gone(&it->node, o); delnode(rem(A, 1)); } }
	else if (!strcmp(o, "unref")) { N x; list_node_unref(&x); CHECK(list_node_is_unref(&x) && !list_node_is_ref(&x), "unref"); }
	check(o);
}
static int kill_[M]; 
static void queries(int p) { struct ring *A = &R[0]; N *h = &A->head; int K = A->n; EVAL();
	CHECK(!!list_is_empty(h) == (K == 1), "is_empty"); CHECK(list_first(h) == A->a[1 % K], "first"); CHECK(list_last(h) == A->a[K - 1], "last");
	CHECK(list_next(h, A->a[p]) == (p == K - 1 ? NULL : A->a[p + 1]), "next"); CHECK(list_prev(h, A->a[p]) == ((p + K - 1) % K ? A->a[(p + K - 1) % K] : NULL), "prev");
	CHECK(!!list_is_last(h, A->a[p]) == (p == K - 1), "is_last"); CHECK(list_length(h) == (size_t)K - 1, "length %zu of %d", list_length(h), K - 1); }
static void walks(void) {
	struct ring *A = &R[0]; N *h = &A->head, *x, *y; int K = A->n, i; struct item *e, *f; EVAL();
#define W(X, idx, what) do { CHECK(i < K - 1, what ": visits too many"); CHECK((X) == A->a[idx], what ": visit %d is the wrong element", i); i++; } while (0)
#define WE(what) CHECK(i == K - 1, what ": %d of %d visited", i, K - 1)
	i = 0; list_walk_forward(h, x) { W(x, i + 1, "forward"); } WE("forward");
	i = 0; list_walk_backward(h, x) { W(x, K - 1 - i, "backward"); } WE("backward");
	i = 0; list_walk_entry_forward(h, e, node) { W(&e->node, i + 1, "entry forward"); } WE("entry forward");
	i = 0; list_walk_entry_backward(h, e, node) { W(&e->node, K - 1 - i, "entry backward"); } WE("entry backward");
#define BODY(X) do { if (kill_[i]) { N *d = (X); list_del(d); memset(d, 0x5a, sizeof *d); delnode(d); } } while (0)
#define SAFE(walk, idx, X, what) do { for (i = 1; i < K; i++) kill_[i] = rndn(2) || K < 4; i = 0; walk { W(X, idx, what); BODY(X); } WE(what); \
	{ int w = 1; for (i = 1; i < K; i++) if (!kill_[pos_of(i, K, what)]) A->a[w++] = A->a[i]; A->n = w; } check(what); stop(A); start(A, K); } while (0)
#define pos_of(i, K, what) (strstr(what, "back") ? (K) - (i) : (i))
	SAFE(list_walk_forward_safe(h, x, y), i + 1, x, "safe forward");
	SAFE(list_walk_backward_safe(h, x, y), K - 1 - i, x, "safe back");
	SAFE(list_walk_entry_forward_safe(h, e, f, node), i + 1, &e->node, "safe entry forward");
	SAFE(list_walk_entry_backward_safe(h, e, f, node), K - 1 - i, &e->node, "safe entry back");
}
static const char *OPS[] = {"add_after", "add_before", "push", "del", "del_init", "replace", "replace_init", "move_after_same", "move_before_same", "move_after_other", "move_before_other", "pop", "unref", "init"};
/* a list longer than any 16-bit counter */
static void longlist(void) {
	enum { L = 70000 }; static N a[L]; N h, *x, *y; int i; size_t c;
	for (i = 0; i < L; i++) { a[i].next = i + 1 < L ? &a[i + 1] : &h; a[i].prev = i ? &a[i - 1] : &h; } h.next = a; h.prev = &a[L - 1]; EVAL();
	CHECK(list_length(&h) == L, "length of a list of %d is %zu", L, list_length(&h));
	c = 0; list_walk_forward(&h, x) { CHECK(c < L && x == &a[c], "long forward walk: visit %zu", c); c++; } CHECK(c == L, "long forward walk: %zu", c);
	c = 0; list_walk_backward_safe(&h, x, y) { CHECK(c < L && x == &a[L - 1 - c], "long backward walk: visit %zu", c); c++; } CHECK(c == L, "long backward walk: %zu", c);
}
int sweep(const char *p, uint64_t n) {
	uint64_t i; int k; list_init(&bystander); by0 = bystander;
	if (!strcmp(p, "C05")) longlist();
	for (i = 0; i < n; i++) { start(&R[0], 1 + rndn(8)); start(&R[1], 1 + rndn(5));
		if (!strcmp(p, "C05")) { for (k = 0; k < R[0].n; k++) queries(k); walks(); }
		else for (k = 0; k < 14; k++) { if (R[0].n > 40) break; op(OPS[rndn(14)], rndn(R[0].n), rndn(rndn(2) ? R[0].n : R[1].n)); if (R[1].n < 2) { stop(&R[1]); start(&R[1], 1 + rndn(5)); } }
		stop(&R[0]); stop(&R[1]); }
	return 0;
}
int replay(const char *p, int c, char **v) {
	int K = c > 1 ? atoi(v[1]) : 1, a = c > 2 ? atoi(v[2]) : 0, q = c > 3 ? atoi(v[3]) : 0, KB = c > 4 ? atoi(v[4]) : 1; if (KB < 1) KB = 1; if (K < 1 || K > 40 || KB > 20 || a >= K) return 3;
	list_init(&bystander); by0 = bystander; start(&R[0], K); start(&R[1], KB);
	if (!strcmp(p, "C05")) { queries(a); walks(); } else { if (q >= (strstr(v[0], "other") ? KB : K)) return 3; op(v[0], a, q); }
	stop(&R[0]); stop(&R[1]); return 0;
}
