SEEDS = {}
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)
ASAN = 'clang-18 -fsanitize=address -fno-sanitize-recover=all'
S('varint-u64-room', 'C03', [('src/varint.c', 'int futils_varint_write_u64(uint8_t *dst, size_t dst_len,\n\t\tuint64_t val, size_t *val_len)\n{\n\treturn futils_varint_write(dst, dst_len, val, val_len, sizeof(val) + 2);', 'int futils_varint_write_u64(uint8_t *dst, size_t dst_len,\n\t\tuint64_t val, size_t *val_len)\n{\n\treturn futils_varint_write(dst, dst_len, val, val_len, sizeof(val) + 1);')],
 'a value above 2^63 written to a destination of nine bytes', 'a tenth byte is written behind the destination', r'''
#include <stdint.h>
#include <stddef.h>
#include "futils/varint.h"
#include <stdio.h>
#include <string.h>
int main(void)
{
	int i; size_t l, n;
	for (i = 0; i < 64; i++) for (l = 0; l < 12; l++) {
		uint8_t b[16];
		memset(b, 0xaa, sizeof(b)); n = 0;
		if (futils_varint_write_u64(b, l, (uint64_t)3 << i, &n) == 0 && l < n) { printf("%zu bytes written to %zu\n", n, l); return 1; }
		for (n = l; n < 16; n++) if (b[n] != 0xaa) { printf("byte %zu written\n", n); return 1; }
	}
	return 0;
}
''', src=['src/varint.c'])
S('list-move-next', 'C04', [('include/futils/list.h', '\tlist_detach(from->prev, from->next);\n\tlist_add_after(to, from);', '\tstruct list_node *next = to->next;\n\n\tlist_detach(from->prev, from->next);\n\tlist_add(from, to, next);')],
 'moving a node after its own predecessor', 'the node ends up linked to itself and the rest of the list is lost', r'''
#include <stddef.h>
#include <stdint.h>
#include "futils/list.h"
#include <stdio.h>
int main(void)
{
	int a, b, n, i;
	for (n = 1; n < 6; n++) for (a = 0; a <= n; a++) for (b = 1; b <= n; b++) {
		struct list_node l[8], *p; int seq[8], k = 0, out[8], m = 0;
		if (a == b) continue;
		list_init(&l[0]);
		for (i = 1; i <= n; i++) list_add_before(&l[0], &l[i]);
		for (i = 0; i <= n; i++) if (i != b) { seq[k++] = i; if (i == a) seq[k++] = b; }
		list_move_after(&l[a], &l[b]);
		out[m++] = 0;
		for (p = l[0].next; p != &l[0] && m < 8; p = p->next) out[m++] = p - l;
		for (i = 0; i < k; i++) if (m != k || out[i] != seq[i]) { printf("n %d: move %d after %d\n", n, b, a); return 1; }
	}
	return 0;
}
''')
S('list-length-16', 'C05', [('include/futils/list.h', '\tsize_t length = 0;\n', '\tunsigned short length = 0;\n')],
 'a list of 65536 nodes or more', 'the length is reported modulo 65536', r'''
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include "futils/list.h"
#include <stdio.h>
int main(void)
{
	struct list_node head, *n = calloc(70000, sizeof(*n)); size_t i;
	list_init(&head);
	for (i = 0; i < 70000; i++) {
		if (i % 1000 == 0 && list_length(&head) != i) { printf("%zu nodes: length %zu\n", i, list_length(&head)); return 1; }
		list_add_before(&head, &n[i]);
	}
	return 0;
}
''')
S('hash-prime-end', 'C07', [('src/hash.c', '\t\t    ((i + 1) < futils_hash_prime_tab_length); i++)', '\t\t    (i < futils_hash_prime_tab_length); i++)')],
 'initialising a table with a requested size of at least the largest prime', 'the size is read behind the prime table', r'''
#include "futils/hash.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
static size_t asked;
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t n, size_t m) { asked = n; if (n > 100000) return NULL; return __real_calloc(n, m); }
int main(void)
{
	static const size_t s[] = { 0, 1, 100, 2147483646, 2147483647, 2147483648u, 4294967295u, SIZE_MAX };
	size_t i; struct hash h;
	for (i = 0; i < 8; i++) {
		int r = futils_hash_init(&h, s[i], NULL);
		if (r == 0) futils_hash_destroy(&h);
		if (asked < 1 || asked > 2147483647) { printf("size %zu: %zu buckets\n", s[i], asked); return 1; }
	}
	return 0;
}
''', src=['src/hash.c'], comp=ASAN, libs='-Wl,--wrap=calloc')
S('time-ms-via-ns', 'C09', [('src/timetools.c', '\t*ms = (uint64_t)value->tv_sec * 1000UL + (value->tv_nsec / 1000000UL);', '\tuint64_t ns;\n\n\ttime_timespec_to_ns(value, &ns);\n\t*ms = ns / 1000000UL;')],
 'a timestamp more than 584 years after the epoch', 'the conversion to milliseconds overflows', r'''
#include "futils/timetools.h"
#include <stdio.h>
int main(void)
{
	uint64_t ms, back; int i;
	for (i = 0; i < 53; i++) {
		struct timespec t = { (time_t)1 << i, 999999999 };
		if (time_timespec_to_ms(&t, &ms) || ms != ((uint64_t)1 << i) * 1000 + 999) { printf("2^%d s\n", i); return 1; }
		if (time_ms_to_timespec(&ms, &t) || time_timespec_to_ms(&t, &back) || back != ms) return 1;
	}
	return 0;
}
''', src=['src/timetools.c'])
S('time-midpoint', 'C10', [('src/timetools.c', '\tmt_now_us = (mt_now1_us + mt_now2_us + 1) / 2;', '\tmt_now_us = mt_now1_us + (mt_now2_us - mt_now1_us) / 2;')],
 'two monotonic readings an odd number of microseconds apart', 'the midpoint is rounded down, the result is one microsecond late', r'''
#include "futils/timetools.h"
#include <stdio.h>
static uint64_t m[2], r; static int n;
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	uint64_t v = c == CLOCK_MONOTONIC ? m[n++ & 1] : r;
	t->tv_sec = v / 1000000; t->tv_nsec = v % 1000000 * 1000 + 999; return 0;
}
int main(void)
{
	uint64_t a, b, out;
	for (a = 0; a < 4; a++) for (b = 0; b < 6; b++) {
		m[0] = 5000000 + a; m[1] = m[0] + b; r = 1000000000000ull + b * 7;
		if (time_monotonic_to_realtime_us(4000123, &out)) return 1;
		if (out != r - ((m[0] + m[1] + 1) / 2 - 4000123)) { printf("%d %d: %llu\n", (int)a, (int)b, (unsigned long long)out); return 1; }
	}
	return 0;
}
''', src=['src/timetools.c'], libs='-Wl,--wrap=clock_gettime')
S('systime-offset-16', 'C11', [('src/systimetools.c', '\tint32_t utc_offset_sec = gmtoff;\n', '\tint16_t utc_offset_sec = gmtoff;\n')],
 'a UTC offset of more than 9 h 6 min', 'the epoch is wrong by a multiple of 65536 s', r'''
#include "futils/systimetools.h"
#include <stdio.h>
int main(void)
{
	int32_t off, o2; uint64_t e2; struct tm tm;
	for (off = -50400; off <= 50400; off += 900) {
		uint64_t e = 1700000000;
		if (time_local_to_tm(e, off, &tm) || time_local_from_tm(&tm, &e2, &o2)) return 1;
		if (e2 != e || o2 != off) { printf("offset %d: %lld\n", off, (long long)(e2 - e)); return 1; }
	}
	return 0;
}
''', src=['src/systimetools.c'])
S('systime-neg-half-hour', 'C12', [('src/systimetools.c', '\tgmtoff_min = (gmtoff_sign * utc_offset_sec / 60) % 60;', '\tgmtoff_min = gmtoff_sign * ((utc_offset_sec / 60) - gmtoff_hour * 60);')],
 'a negative offset that is not a whole number of hours', 'the minutes of the offset are wrong', r'''
#include "futils/systimetools.h"
#include <stdio.h>
int main(void)
{
	int32_t off, o2; uint64_t e2; int f; char b[100];
	static const enum time_fmt fm[] = { TIME_FMT_ISO8601_SHORT, TIME_FMT_ISO8601_LONG, TIME_FMT_RFC1123 };
	for (f = 0; f < 3; f++) for (off = -43200; off <= 43200; off += 900) {
		if (time_local_format(1600000000, off, fm[f], b, sizeof(b))) return 1;
		if (time_local_parse(b, &e2, &o2) || e2 != 1600000000 || o2 != off) { printf("%d: %s\n", off, b); return 1; }
	}
	return 0;
}
''', src=['src/systimetools.c'])
S('systime-rfc-short', 'C13', [('src/systimetools.c', '\tif ((n >= 16) && (parse_wday(s, NULL) != -ENOENT)) {', '\tif ((n >= 12) && (parse_wday(s, NULL) != -ENOENT)) {')],
 'a text of 12 to 15 characters that starts with a week day', 'the parser reads past the end of the text', r'''
#include "futils/systimetools.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void)
{
	const char *full = "Fri, 25 Apr 2014 16:30:31 +0100"; size_t n; uint64_t e; int32_t o;
	for (n = 0; n <= strlen(full); n++) {
		char *s = malloc(n + 1); int r;
		memcpy(s, full, n); s[n] = 0;
		r = time_local_parse(s, &e, &o);
		if ((r == 0) != (n == strlen(full))) { printf("'%s': %d\n", s, r); return 1; }
		free(s);
	}
	return 0;
}
''', src=['src/systimetools.c'], comp=ASAN)
S('systime-ctx-half', 'C14', [('src/systimetools.c', '\tif (ctx->fields & TIME_FIELD_ALL)\n\t\treturn -EEXIST;', '\tif (ctx->fields == TIME_FIELD_ALL)\n\t\treturn -EEXIST;')],
 'giving a complete date and time to a context that already has one half', 'the half already present is overwritten', r'''
#include "futils/systimetools.h"
#include <errno.h>
#include <stdio.h>
int main(void)
{
	struct time_ctx c; uint64_t e; int32_t o;
	time_ctx_init(&c);
	if (time_ctx_set_date(&c, "20140425") != -EINPROGRESS) return 1;
	if (time_ctx_set_time(&c, "2020-01-01T00:00:00+00:00") != -EEXIST) { printf("date overwritten\n"); return 1; }
	if (time_ctx_get_local(&c, &e, &o) != -EINPROGRESS) return 1;
	if (time_ctx_set_hour(&c, "T163031+0000")) return 1;
	if (time_ctx_get_local(&c, &e, &o) || e != 1398443431 || o) return 1;
	return 0;
}
''', src=['src/systimetools.c'])
S('random-mask-32', 'C15', [('src/random.c', '\tv |= (v >> 16);\n\tv |= (v >> 32);\n', '\tv |= (v >> 16);\n')],
 'a maximum above 2^32', 'the low bits of the result are always zero', r'''
#include "futils/random.h"
#include <stdio.h>
int main(void)
{
	int b, i;
	for (b = 0; b < 64; b++) {
		uint64_t max = (uint64_t)1 << b, any = 0;
		for (i = 0; i < 400; i++) { uint64_t v = futils_randomr64_maximum(max); if (v > max) return 1; any |= v; }
		if (b && (any & (max - 1)) != max - 1) { printf("maximum 2^%d: bits never seen %llx\n", b, (unsigned long long)(~any & (max - 1))); return 1; }
	}
	return 0;
}
''', src=['src/random.c'])
S('random-base16-tail', 'C16', [('src/random.c', '\tif (ps) {\n\t\tuint64_t v;\n\t\tsize_t i;\n\n\t\tv = pool_rand64(pool);\n\n\t\tfor (i = 0; i < ps; i++) {\n\t\t\t*p = alphabet[v & 15];', '\tif (ps) {\n\t\tuint64_t v;\n\t\tsize_t i;\n\n\t\tv = pool_rand32(pool);\n\n\t\tfor (i = 0; i < ps; i++) {\n\t\t\t*p = alphabet[v & 15];')],
 'a length whose last group has more than eight digits', 'the last digits are always zero', r'''
#include "futils/random.h"
#include <stdio.h>
#include <string.h>
int main(void)
{
	int n, i, j;
	for (n = 1; n < 40; n++) {
		char b[100], seen[100]; memset(seen, 0, sizeof(seen));
		for (i = 0; i < 200; i++) {
			if (futils_random_base16(b, sizeof(b), n) != 2 * n || strlen(b) != 2 * n) return 1;
			for (j = 0; j < 2 * n; j++) if (b[j] != '0') seen[j] = 1;
		}
		for (j = 0; j < 2 * n; j++) if (!seen[j]) { printf("%d bytes: digit %d is always 0\n", n, j); return 1; }
	}
	return 0;
}
''', src=['src/random.c'])
S('random-counter-8', 'C17', [('src/random.c', '\t/* counter */\n\tchacha->x[12]++;', '\t/* counter */\n\tchacha->x[12] = (uint8_t)(chacha->x[12] + 1);')],
 'one request of more than 16 KiB', 'the key stream repeats', r'''
#include "futils/random.h"
#include <stdio.h>
#include <string.h>
int main(void)
{
	static uint8_t b[40000]; size_t i, j;
	futils_random(b, sizeof(b));
	for (i = 64; i + 64 <= sizeof(b); i += 64)
		for (j = 0; j < i; j += 64)
			if (!memcmp(b + i, b + j, 64)) { printf("bytes at %zu repeat those at %zu\n", i, j); return 1; }
	return 0;
}
''', src=['src/random.c'])
S('random-shuffle-cycle', 'C18', [('src/random.c', '\t\tr = pool_rand_size_maximum(pool,\n\t\t\t\t\t   (nmemb - 1) - u);\n\t\tif (r == 0)\n\t\t\tcontinue;\n', '\t\t/* no need to swap an element with itself */\n\t\tr = 1 + pool_rand_size_maximum(pool,\n\t\t\t\t\t       (nmemb - 2) - u);\n')],
 'waiting for a permutation that leaves an element in place', 'only cyclic permutations are produced', r'''
#include "futils/random.h"
#include <stdio.h>
#include <string.h>
int main(void)
{
	int seen[256] = { 0 }, i, n = 0;
	for (i = 0; i < 4000; i++) {
		int a[4] = { 0, 1, 2, 3 }, k;
		if (futils_random_shuffle(a, 4, sizeof(a[0]))) return 1;
		k = a[0] | a[1] << 2 | a[2] << 4 | a[3] << 6;
		if (!seen[k]++) n++;
	}
	if (n != 24) { printf("%d of 24 permutations\n", n); return 1; }
	return 0;
}
''', src=['src/random.c'])
S('random-reseed-keeps', 'C19', [('src/random.c', '\tpool->era = era;\n\tpool->available = 0; /* discard current buffer */\n', '\tif (!pool->era)\n\t\tpool->available = 0; /* discard current buffer */\n\tpool->era = era;\n')],
 'a reseed after the pool has been filled', 'the bytes that follow a reseed still come from the old key', r'''
#define _GNU_SOURCE
#include "futils/random.h"
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
static unsigned char fill; static int calls;
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { (void)f; calls++; memset(b, fill, n); return n; }
/* the bytes after a reseed depend on the new seed alone */
int main(void)
{
	unsigned char a[64], b[64], x[5]; int c;
	fill = 1; futils_random(x, 5);
	fill = 9; if (futils_random_reseed()) return 1;
	futils_random(a, 64);
	futils_random(x, 3); futils_random(x, 3);
	c = calls; if (futils_random_reseed() || calls == c) return 1;
	futils_random(b, 64);
	if (memcmp(a, b, 64)) { printf("output after a reseed comes from the old seed\n"); return 1; }
	return 0;
}
''', src=['src/random.c'], libs='-lpthread -Wl,--wrap=getrandom')
S('mbox-cloexec-one', 'C20', [('src/mbox.c', '\t\tfd_set_close_on_exec(box->fds[i]);', '\t\tfd_set_close_on_exec(box->fds[0]);')],
 'running a program while a mailbox exists', 'the writing end is inherited', r'''
#include "futils/mbox.h"
#include <fcntl.h>
#include <stdio.h>
#include <unistd.h>
int main(void)
{
	struct mbox *b; int fd, n = 0;
	for (fd = 3; fd < 64; fd++) close(fd);
	b = mbox_new(16);
	if (!b) return 1;
	for (fd = 3; fd < 64; fd++) {
		int f = fcntl(fd, F_GETFD), g = fcntl(fd, F_GETFL);
		if (f < 0) continue;
		n++;
		if (!(f & FD_CLOEXEC) || !(g & O_NONBLOCK)) { printf("descriptor %d: flags %x %x\n", fd, f, g); return 1; }
	}
	mbox_destroy(b);
	for (fd = 3; fd < 64; fd++) if (fcntl(fd, F_GETFD) >= 0) return 1;
	return n == 2 ? 0 : 1;
}
''', src=['src/mbox.c', 'src/fdutils.c'])
S('dynmbox-ring-end', 'C21', [('src/dynmbox.c', '\tif (amount >= following)', '\tif (amount > following)')],
 'messages whose bytes end exactly at the end of the ring', 'the next push never returns or goes outside the ring', r'''
#include "futils/dynmbox.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
int main(void)
{
	struct dynmbox *b = dynmbox_new(DYNMBOX_MAX_SIZE); char *m = malloc(DYNMBOX_MAX_SIZE), *o = malloc(DYNMBOX_MAX_SIZE); size_t i, n;
	if (!b) return 1;
	/* one message that fills the ring, and pairs that end on its last byte */
	for (i = 0; i < 6; i++) {
		n = DYNMBOX_MAX_SIZE - (i ? 4 + 100 * i : 0);
		memset(m, 'a' + i, n);
		if (dynmbox_push(b, m, n)) return 1;
		if (i && dynmbox_push(b, m, 100 * i)) return 1;
		if (dynmbox_peek(b, o) != (ssize_t)n || memcmp(m, o, n)) return 1;
		if (i && dynmbox_peek(b, o) != (ssize_t)(100 * i)) return 1;
		if (dynmbox_peek(b, o) != -EAGAIN) return 1;
	}
	dynmbox_destroy(b);
	return 0;
}
''', src=['src/dynmbox.c', 'src/fdutils.c', 'src/timetools.c'], timeout=10)
S('dynmbox-lost-wakeup', 'C22', [('src/dynmbox.c', '\t/* Read message from ring buffer */\n\tmsglen = do_peek(box, msg);', '\t/* Only a full ring has blocked producers */\n\tbool was_full = rbuf_is_full(box);\n\n\t/* Read message from ring buffer */\n\tmsglen = do_peek(box, msg);'), ('src/dynmbox.c', '\tpthread_cond_signal(&box->cond);', '\tif (was_full)\n\t\tpthread_cond_signal(&box->cond);')],
 'a producer blocked on a ring that is not completely full', 'the producer is never woken', r'''
#include "futils/dynmbox.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static struct dynmbox *b; static volatile int done; static char *m;
static void *prod(void *a) { (void)a; if (dynmbox_push_block(b, m, 60000, 0) == 0) done = 1; return NULL; }
int main(void)
{
	pthread_t t; int i; char *o = malloc(DYNMBOX_MAX_SIZE); m = calloc(1, DYNMBOX_MAX_SIZE);
	b = dynmbox_new(DYNMBOX_MAX_SIZE);
	while (dynmbox_push(b, m, 50000) == 0);
	pthread_create(&t, NULL, prod, NULL);
	usleep(300000);
	if (done) return 2;
	while (dynmbox_peek(b, o) >= 0);
	for (i = 0; i < 300 && !done; i++) usleep(10000);
	if (!done) { printf("the blocked producer was not woken\n"); return 1; }
	return 0;
}
''', src=['src/dynmbox.c', 'src/fdutils.c', 'src/timetools.c'])
S('safew-sync-early', 'C23', [('src/safew.c', "\t\tif (fflush(safew_fp->fp))\n\t\t\tret = -1;\n", ""), ('src/safew.c', "\t\tif (fsync(fileno(safew_fp->fp)))\n\t\t\tret = -1;\n# endif\n", "\t\tif (fsync(fileno(safew_fp->fp)))\n\t\t\tret = -1;\n# endif\n\t\tif (fflush(safew_fp->fp))\n\t\t\tret = -1;\n")],
 'a crash after a commit whose last bytes were still in the stream buffer', 'the file that replaced the old one was not completely flushed to storage', r'''
#include "futils/safew.h"
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
static long synced = -1;
int __wrap_fsync(int fd) { struct stat s; fstat(fd, &s); synced = s.st_size; return 0; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __real_rename(const char *, const char *);
static int bad;
int __wrap_rename(const char *a, const char *b) { struct stat s; if (!stat(a, &s) && s.st_size != synced) { printf("%ld of %ld bytes synced\n", synced, (long)s.st_size); bad = 1; } return __real_rename(a, b); }
int main(void)
{
	struct futils_safew_file *f = futils_safew_fopen("f");
	if (!f || futils_safew_fwrite("hello", 1, 5, f) != 5 || futils_safew_fclose_commit(f)) return 1;
	return bad;
}
''', src=['src/safew.c'], libs='-Wl,--wrap=fsync,--wrap=fdatasync,--wrap=rename')
S('safew-stage2', 'C24', [('src/safew.c', "\t\t/* rename tmp payload and crc */\n\t\tret = rename(fp.tmp_path, pathname);\n\t\tif (ret < 0)\n\t\t\tbreak;\n\t\tret = rename(crc_fp.tmp_path, crc_fp.path);\n", "\t\t/* rename tmp crc and payload */\n\t\tret = rename(crc_fp.tmp_path, crc_fp.path);\n\t\tif (ret < 0)\n\t\t\tbreak;\n\t\tret = rename(fp.tmp_path, pathname);\n")],
 'a crash between the two renames of a recovery that found only the temporary pair', 'the next recovery erases the only valid version', r'''
#include "futils/safew.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
static int left = 1000;
int __real_rename(const char *, const char *);
int __wrap_rename(const char *a, const char *b) { if (left-- == 0) _exit(9); return __real_rename(a, b); }
int main(void)
{
	int k, st;
	for (k = 0; k < 4; k++) {
		struct futils_safew_file *f; pid_t p; FILE *x; char b[8] = "";
		unlink("f"); unlink("f.crc"); unlink("f.tmp"); unlink("f.crc.tmp");
		f = futils_safew_fopen("f");
		futils_safew_fwrite("hello", 1, 5, f);
		if (futils_safew_fclose_commit_with_crc(f)) return 2;
		/* back to the state before the renames of the commit */
		if (system("for t in .tmp; do mv f f$t; done; for g in f.*; do case $g in f.tmp) ;; *) mv $g $g.tmp;; esac; done")) return 2;
		fflush(NULL);
		p = fork();
		if (!p) { left = k; _exit(futils_safew_file_check("f") ? 1 : 0); }
		waitpid(p, &st, 0);
		if (futils_safew_file_check("f")) { printf("lost after a crash before rename %d\n", k); return 1; }
		x = fopen("f", "r"); if (!x || fread(b, 1, 5, x) != 5 || strcmp(b, "hello")) return 1; fclose(x);
	}
	return 0;
}
''', src=['src/safew.c'], libs='-Wl,--wrap=rename')
S('utf8-exact-fit', 'C25', [('src/string.c', '\toutsize = max_output_len - 1;', '\toutsize = max_output_len;'), ('src/string.c', "\tret = outsize - outbytes;\n\toutput_[ret] = '\\0';", "\tret = outsize - outbytes;\n\toutput_[ret < (int)max_output_len ? ret : ret - 1] = '\\0';")],
 'text that exactly fills the destination', 'a multi-byte character is cut in half and the length is one too large', r'''
#include "futils/string.h"
#include <stdio.h>
#include <string.h>
int main(void)
{
	const char *in = "a\xc3\xa9z\xe2\x82\xac"; size_t n, want;
	for (n = 2; n < 12; n++) {
		char o[16]; int r;
		memset(o, 0x55, sizeof(o));
		r = futils_string_sanitize_utf8(in, o, n, L"?", L'_');
		want = n - 1 >= 7 ? 7 : n - 1 >= 4 ? 4 : n - 1 >= 3 ? 3 : 1;
		if (r != (int)want || strlen(o) != want || memcmp(o, in, want) || o[n] != 0x55) { printf("size %zu: %d\n", n, r); return 1; }
	}
	return 0;
}
''', src=['src/string.c'])
S('fs-dotdot-prefix', 'C26', [('src/fs.c', '\t\tif (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, ".."))', '\t\tif (!strcmp(entry->d_name, ".") || !strncmp(entry->d_name, "..", 2))')],
 'a file whose name starts with two dots', 'the file is not counted', r'''
#include "futils/fs.h"
#include <stdio.h>
#include <sys/stat.h>
int main(void)
{
	static const char *n[] = { "d/a", "d/.b", "d/..c", "d/...", "d/s/..d" }; int i;
	mkdir("d", 0700); mkdir("d/s", 0700);
	for (i = 0; i < 5; i++) { FILE *f = fopen(n[i], "w"); fprintf(f, "%0*d", i + 1, 0); fclose(f); }
	if (futils_fs_dir_size("d", true) != 15 || futils_fs_dir_size("d", false) != 10) { printf("%lld %lld\n", (long long)futils_fs_dir_size("d", true), (long long)futils_fs_dir_size("d", false)); return 1; }
	return 0;
}
''', src=['src/fs.c'])
S('fd-flags-errno', 'C27', [('src/fdutils.c', '\told = fcntl(fd, F_GETFL, 0);\n\tif (old < 0)\n\t\treturn -errno;\n\n\tret = fcntl(fd, F_SETFL, old | flags);', '\told = fcntl(fd, F_GETFL, 0);\n\tif (old < 0)\n\t\treturn -errno;\n\n\t/* nothing to change */\n\tif (old & flags)\n\t\treturn 0;\n\n\tret = fcntl(fd, F_SETFL, old | flags);')],
 'adding several flags of which one is already set', 'the other flags are not set', r'''
#include "futils/fdutils.h"
#include <fcntl.h>
#include <stdio.h>
#include <unistd.h>
int main(void)
{
	int p[2]; if (pipe(p)) return 2;
	if (fd_add_flags(p[0], O_NONBLOCK) || !(fcntl(p[0], F_GETFL) & O_NONBLOCK)) return 1;
	if (fd_add_flags(p[0], O_NONBLOCK | O_APPEND)) return 1;
	if ((fcntl(p[0], F_GETFL) & (O_NONBLOCK | O_APPEND)) != (O_NONBLOCK | O_APPEND)) { printf("flag missing\n"); return 1; }
	return 0;
}
''', src=['src/fdutils.c'])
S('sync-root-folder', 'C28', [('src/synctools.c', "\tslash[1] = '\\0';", "\t*slash = '\\0';")],
 'a file directly in the root folder', 'the parent folder is not synced', r'''
#include "futils/synctools.h"
#include <fcntl.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
static int folder;
/* stand-in: nothing is opened */
int __wrap_open(const char *p, int fl, ...) { if (!*p) { errno = 2; return -1; } if (fl & O_DIRECTORY) { if (strcmp(p, "/")) return -1; folder = 1; } return 1000; }
int __wrap_open64(const char *p, int fl, ...) { return __wrap_open(p, fl); }
int __wrap_fsync(int fd) { return fd == 1000 ? 0 : -1; }
int __wrap_close(int fd) { (void)fd; return 0; }
int main(void)
{
	int r = sync_file_and_folder("/file");
	if (r || !folder) { printf("%d, folder synced %d\n", r, folder); return 1; }
	return 0;
}
''', src=['src/synctools.c'], libs='-Wl,--wrap=open,--wrap=open64,--wrap=fsync,--wrap=close')
S('inotify-last-nameless', 'C29', [('src/inotify.c', '\t\twhile (count >= (int)sizeof(*ev)) {', '\t\twhile (count > (int)sizeof(*ev)) {')],
 'a batch whose last event has no name', 'the event is not reported', r'''
#include "futils/inotify.h"
#include <fcntl.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/inotify.h>
static int n;
static void cb(struct inotify_event *e, void *d) { (void)d; if (e->mask & IN_MODIFY) n++; }
int main(void)
{
	int fd, w; close(open("f", O_CREAT | O_WRONLY, 0600));
	fd = inotify_create("f", IN_MODIFY); if (fd < 0) return 2;
	w = open("f", O_WRONLY); if (write(w, "x", 1) != 1) return 2;
	inotify_process_fd(fd, cb, NULL);
	inotify_destroy(fd);
	if (n != 1) { printf("%d events\n", n); return 1; }
	return 0;
}
''', src=['src/inotify.c', 'src/fdutils.c'])
S('endswith-npos', 'C30', [('src/string.cpp', "\treturn fullString.length() >= suffix.length()\n\t\t&& fullString.compare(\n\t\t\tfullString.length() - suffix.length(),\n\t\t\tsuffix.length(),\n\t\t\tsuffix) == 0;", "\treturn fullString.rfind(suffix)\n\t\t== fullString.length() - suffix.length();")],
 'a suffix exactly one character longer than the text', 'the suffix test is true', r'''
#include "futils/futils.hpp"
#include <cstdio>
int main()
{
	using namespace futils::string;
	if (!endsWith("abc", "bc") || !endsWith("abc", "") || endsWith("abc", "ab")) return 1;
	if (endsWith("abc", "xyzt") || endsWith("", "a") || endsWith("a", "bb")) { printf("too long a suffix accepted\n"); return 1; }
	return 0;
}
''', src=['src/string.cpp'], cpp=True)
S('basename-gnu', 'C31', [('src/fs.cpp', "\treturn ::basename(path);\n", "\tchar *s = std::strrchr(path, '/');\n\treturn s != nullptr ? s + 1 : ::basename(path);\n")],
 'a path with a trailing slash', 'the GNU function is called instead of the POSIX one, the base name is empty', r'''
#include "futils/futils.hpp"
#include <cstdio>
int main()
{
	static const char *t[][2] = { { "/a/b", "b" }, { "b", "b" }, { "/a/b/", "b" }, { "/", "/" }, { "", "." }, { "a//", "a" } };
	for (auto &x : t)
		if (futils::fs::basename(x[0]) != x[1]) { printf("'%s' -> '%s'\n", x[0], futils::fs::basename(x[0]).c_str()); return 1; }
	return 0;
}
''', src=['src/fs.cpp'], cpp=True)
S('bound-twice', 'C32', [('include/futils/futils.h', "\t\t__typeof__(M) _M = (M); _a < _m ? _m : _a > _M ? _M : _a; })", "\t\t__typeof__(M) _M = (M); _m > _M || _a > _M ? _M : _a < _m ? _m : (a); })")],
 'bounding an expression with a side effect that is already within the limits', 'the expression is evaluated twice', r'''
#include <stdint.h>
#include <stddef.h>
#include "futils/futils.h"
#include <stdio.h>
static int n; static int f(int v) { n++; return v + n; }
int main(void)
{
	int v;
	for (v = -5; v < 5; v++) {
		int r; n = 0; r = FUTILS_BOUND(f(v), -2, 2);
		if (n != 1 || r != (v + 1 < -2 ? -2 : v + 1 > 2 ? 2 : v + 1)) { printf("%d: %d, %d evaluations\n", v, r, n); return 1; }
	}
	return 0;
}
''')
S('msleep-overflow', 'C33', [('src/timetools.c', '\tts.tv_nsec = (ms % 1000) * 1000000L;', '\tts.tv_nsec = ms * 1000000U % 1000000000;')],
 'a sleep of more than 4294 ms', 'the fraction of a second is wrong', r'''
#include "futils/timetools.h"
#include <stdio.h>
static struct timespec got;
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)b; got = *a; return 0; }
int main(void)
{
	uint32_t i, ms = 1;
	for (i = 0; i < 4000; i++, ms = ms * 1103515245u + 12345u) {
		if (time_msleep(ms)) return 1;
		if (got.tv_sec != ms / 1000 || got.tv_nsec != (long)(ms % 1000) * 1000000) { printf("%u ms: %ld %ld\n", ms, (long)got.tv_sec, got.tv_nsec); return 1; }
	}
	return 0;
}
''', src=['src/timetools.c'], libs='-Wl,--wrap=nanosleep')
