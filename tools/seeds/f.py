SEEDS = {}
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)
S('list-del-last', 'C04', [('include/futils/list.h', '\tlist_detach(node->prev, node->next);\n\tlist_node_unref(node);', '\tint last = node->prev == node->next;\n\n\tlist_detach(node->prev, node->next);\n\tif (last)\n\t\tlist_init(node);\n\telse\n\t\tlist_node_unref(node);')],
 'deleting (or popping) the only element of a list', 'the removed node still reads as being in a list, so a caller that guards with list_node_is_ref removes it again', r'''
#include <stddef.h>
#include <stdint.h>
#include "futils/list.h"
#include <stdio.h>
struct e { int v; struct list_node node; };
int main(void)
{
	int n, i, d;
	for (n = 1; n < 5; n++) for (d = 0; d < n; d++) {
		struct list_node h; struct e e[5], *p;
		list_init(&h);
		for (i = 0; i < n; i++) list_push(&h, &e[i].node);
		list_del(&e[d].node);
		if (!list_node_is_unref(&e[d].node)) { printf("element %d of %d deleted, still reads as listed\n", d, n); return 1; }
		while ((p = list_pop(&h, struct e, node))) if (list_node_is_ref(&p->node)) { printf("popped element still reads as listed\n"); return 1; }
	}
	return 0;
}
''')
S('random-wide-byte', 'C15', [('src/random.c', '\tval |= (uint64_t)bytes[4] << 32;\n\tval |= (uint64_t)bytes[5] << 40;\n\tval |= (uint64_t)bytes[6] << 48;\n', '\tval |= (uint64_t)bytes[4] << 32;\n\tval |= (uint64_t)bytes[4] << 40;\n\tval |= (uint64_t)bytes[6] << 48;\n')],
 'maxima between 2^48 and 2^56', 'two bytes of the draw are always equal, so only one value in 256 can come out', r'''
#include "futils/random.h"
#include <stdio.h>
#include <stdint.h>
int main(void)
{
	int k, a, b, i;
	for (k = 16; k <= 64; k += 8) {
		int eq[8][8] = {{0}}; uint64_t v, m = k == 64 ? UINT64_MAX : ((uint64_t)1 << k) - 1;
		for (i = 0; i < 4000; i++) {
			if (futils_random64_maximum(&v, m) < 0) return 1;
			for (a = 0; a < k / 8; a++) for (b = 0; b < a; b++) eq[a][b] += (v >> 8 * a & 255) == (v >> 8 * b & 255);
		}
		for (a = 0; a < k / 8; a++) for (b = 0; b < a; b++) if (eq[a][b] > 400) { printf("%d bits: bytes %d and %d equal %d times out of 4000\n", k, a, b, eq[a][b]); return 1; }
	}
	return 0;
}
''', src=['src/random.c'])
