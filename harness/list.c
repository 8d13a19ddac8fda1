/* wrappers that instantiate the inline functions and macros of list.h */
#include <stddef.h>
#include <stdint.h>
#include <futils/list.h>
struct item { char pad[24]; struct list_node node; int v; };
void visit(struct list_node *p);
void visit_item(struct item *p);
void body(struct list_node *p);
void body_item(struct item *p);
typedef struct list_node N;
void h_init(N *l) { list_init(l); }
void h_add_after(N *a, N *n) { list_add_after(a, n); }
void h_add_before(N *a, N *n) { list_add_before(a, n); }
void h_push(N *a, N *n) { list_push(a, n); }
void h_del(N *a) { list_del(a); }
void h_del_init(N *a) { list_del_init(a); }
void h_replace(N *a, N *n) { list_replace(a, n); }
void h_replace_init(N *a, N *n) { list_replace_init(a, n); }
void h_move_after(N *t, N *f) { list_move_after(t, f); }
void h_move_before(N *t, N *f) { list_move_before(t, f); }
struct item *h_pop(N *l) { return list_pop(l, struct item, node); }
int h_is_empty(N *l) { return list_is_empty(l); }
N *h_first(N *l) { return list_first(l); }
N *h_last(N *l) { return list_last(l); }
N *h_next(N *l, N *i) { return list_next(l, i); }
N *h_prev(N *l, N *i) { return list_prev(l, i); }
int h_is_last(N *l, N *i) { return list_is_last(l, i); }
size_t h_length(N *l) { return list_length(l); }
void h_unref(N *l) { list_node_unref(l); }
int h_is_unref(N *l) { return list_node_is_unref(l); }
int h_is_ref(N *l) { return list_node_is_ref(l); }
struct item *h_entry(N *n) { return list_entry(n, struct item, node); }
void h_walk_f(N *l) { N *p; list_walk_forward(l, p) { visit(p); } }
void h_walk_b(N *l) { N *p; list_walk_backward(l, p) { visit(p); } }
void h_walk_fs(N *l) { N *p, *t; list_walk_forward_safe(l, p, t) { body(p); } }
void h_walk_bs(N *l) { N *p, *t; list_walk_backward_safe(l, p, t) { body(p); } }
void h_walk_ef(N *l) { struct item *p; list_walk_entry_forward(l, p, node) { visit_item(p); } }
void h_walk_eb(N *l) { struct item *p; list_walk_entry_backward(l, p, node) { visit_item(p); } }
void h_walk_efs(N *l) { struct item *p, *t; list_walk_entry_forward_safe(l, p, t, node) { body_item(p); } }
void h_walk_ebs(N *l) { struct item *p, *t; list_walk_entry_backward_safe(l, p, t, node) { body_item(p); } }
