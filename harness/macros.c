/* instantiates the utility macros of futils.h for every integer type; the
 * operands are calls so that evaluations can be counted */
#include <stddef.h>
#include <stdint.h>
#include <futils/futils.h>
#define T(t) t a_##t(void); t b_##t(void); t c_##t(void); \
	t min_##t(void) { return FUTILS_MIN(a_##t(), b_##t()); } \
	t max_##t(void) { return FUTILS_MAX(a_##t(), b_##t()); } \
	t bound_##t(void) { return FUTILS_BOUND(a_##t(), b_##t(), c_##t()); } \
	t MIN_##t(void) { return MIN(a_##t(), b_##t()); } \
	t MAX_##t(void) { return MAX(a_##t(), b_##t()); } \
	t BOUND_##t(void) { return BOUND(a_##t(), b_##t(), c_##t()); } \
	t nest_##t(void) { return FUTILS_MIN(FUTILS_MAX(a_##t(), b_##t()), c_##t()); } \
	t nest2_##t(void) { return FUTILS_MAX(c_##t(), FUTILS_MIN(a_##t(), b_##t())); }
T(int8_t) T(uint8_t) T(int16_t) T(uint16_t) T(int32_t) T(uint32_t) T(int64_t) T(uint64_t)
T(float) T(double)
typedef const char *text_t;
T(text_t)
/* container-of for several layouts */
struct l0 { char pad[1]; char m; };
struct l1 { int x; char pad[13]; long m; short y; };
struct l2 { struct { char q[5]; struct list_node n[3]; } in; char e[7]; struct list_node m; };
struct l3 { struct list_node m; };
struct l0 *cont0(char *p) { return FUTILS_CONTAINER_OF(p, struct l0, m); }
struct l1 *cont1(long *p) { return FUTILS_CONTAINER_OF(p, struct l1, m); }
struct l2 *cont2(struct list_node *p) { return FUTILS_CONTAINER_OF(p, struct l2, m); }
struct l3 *cont3(struct list_node *p) { return FUTILS_CONTAINER_OF(p, struct l3, m); }
struct l2 *cont4(struct list_node *p) { return list_entry(p, struct l2, in.n[2]); }
char *addr0(struct l0 *s) { return &s->m; }
long *addr1(struct l1 *s) { return &s->m; }
struct list_node *addr2(struct l2 *s) { return &s->m; }
struct list_node *addr3(struct l3 *s) { return &s->m; }
struct list_node *addr4(struct l2 *s) { return &s->in.n[2]; }
/* array sizes */
static char A1[1]; static int A7[7]; static struct l2 A3[3]; static short A23[2][3]; static void *A100[100];
size_t n1(void) { return FUTILS_SIZEOF_ARRAY(A1); }
size_t n7(void) { return FUTILS_SIZEOF_ARRAY(A7); }
size_t n3(void) { return SIZEOF_ARRAY(A3); }
size_t n2(void) { return FUTILS_SIZEOF_ARRAY(A23); }
size_t n3b(void) { return FUTILS_SIZEOF_ARRAY(A23[1]); }
size_t n100(void) { return SIZEOF_ARRAY(A100); }
/* every layout: the offset of the member and the sizes are values known to the
 * specification only (the member's own type is irrelevant for the address) */
size_t the_offset(void);
void *the_array(void);
#undef offsetof
#define offsetof(type, member) the_offset()
struct any { struct { long v; } m[1]; };
struct any *cont_any(void *p) { return FUTILS_CONTAINER_OF(p, struct any, m[0]); }
struct any *entry_any(void *p) { return list_entry(p, struct any, m[0]); }
size_t n_any(size_t n, size_t k) { char (*a)[n][k] = the_array(); return FUTILS_SIZEOF_ARRAY(*a); }
size_t N_any(size_t n, size_t k) { char (*a)[n][k] = the_array(); return SIZEOF_ARRAY(*a); }
