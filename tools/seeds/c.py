SEEDS = {}
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)
ASAN = 'clang-18 -fsanitize=address -fno-sanitize-recover=all'
S('varint-more-32', 'C01', [('src/varint.c', 'more = (val != 0);', 'more = (off < 4 ? (uint32_t)val != 0 : val != 0);')],
 'a 64-bit value that is a multiple of 2^39', 'the encoding stops early and decodes to another value', r'''
#include <stdint.h>
#include <stddef.h>
#include "futils/varint.h"
#include <stdio.h>
int main(void)
{
	int i, j;
	for (i = 0; i < 64; i++) for (j = 0; j < 64; j++) {
		uint8_t b[16]; size_t n = 0, m = 0; uint64_t v = ((uint64_t)1 << i) | ((uint64_t)1 << j), r = 0; int64_t s = 0;
		if (futils_varint_write_u64(b, sizeof(b), v, &n) || futils_varint_read_u64(b, n, &r, &m) || r != v || m != n) { printf("2^%d | 2^%d read back as %llx\n", i, j, (unsigned long long)r); return 1; }
		if (futils_varint_write_i64(b, sizeof(b), (int64_t)v, &n) || futils_varint_read_i64(b, n, &s, &m) || s != (int64_t)v || m != n) return 1;
	}
	return 0;
}
''', src=['src/varint.c'])
S('varint-tenth-byte', 'C02', [('src/varint.c', '\t\tmore = src[offset] & 0x80;', '\t\t/* the tenth byte holds the last bit of 64 */\n\t\tmore = offset < 9 ? src[offset] & 0x80 : 0;')],
 'an encoding of more than ten bytes', 'an over-long encoding is accepted with its first ten bytes', r'''
#include <stdint.h>
#include <stddef.h>
#include "futils/varint.h"
#include <stdio.h>
#include <string.h>
#include <errno.h>
int main(void)
{
	uint8_t b[16]; uint64_t v; int64_t s; size_t n; int i;
	for (i = 10; i < 16; i++) {
		memset(b, 0x80, sizeof(b)); b[15] = 0;
		if (futils_varint_read_u64(b, i, &v, &n) != -EPROTO || futils_varint_read_i64(b, i, &s, &n) != -EPROTO) { printf("%d bytes accepted\n", i); return 1; }
	}
	return 0;
}
''', src=['src/varint.c'])
S('list-replace-order', 'C04', [('include/futils/list.h', '\tnovel->next = old->next;\n\tnovel->next->prev = novel;\n\tnovel->prev = old->prev;\n\tnovel->prev->next = novel;', '\tlist_add(novel, old->prev, old->next);')],
 'replacing the head of an empty list', 'the new head is not empty: it is linked to the old one', r'''
#include <stddef.h>
#include <stdint.h>
#include "futils/list.h"
#include <stdio.h>
int main(void)
{
	int n, i;
	for (n = 0; n < 4; n++) {
		struct list_node a, b, l[4], *p; int k = 0;
		list_init(&a);
		for (i = 0; i < n; i++) list_add_before(&a, &l[i]);
		list_replace(&a, &b);
		for (p = b.next; p != &b && k < 8; p = p->next) if (p != &l[k++]) { printf("%d nodes: wrong node %d\n", n, k - 1); return 1; }
		for (p = b.prev; p != &b && k > -8; p = p->prev) if (p != &l[--k]) { printf("%d nodes: wrong node back %d\n", n, k); return 1; }
		if (k != 0) return 1;
	}
	return 0;
}
''')
S('hash-insert-short', 'C06', [('src/hash.c', '\t\tentry = entry->next;\n\t}\n\n\t/* insert at list head */', '\t\t/* constant data is only ever inserted first */\n\t\tif (entry->is_const && !new_entry->is_const)\n\t\t\tbreak;\n\t\tentry = entry->next;\n\t}\n\n\t/* insert at list head */')],
 'a bucket where an entry lies behind one with constant data', 'a key is inserted twice', r'''
#include "futils/hash.h"
#include <stdio.h>
#include <errno.h>
int main(void)
{
	int i, j, x[16]; struct hash h; void *d;
	if (futils_hash_init(&h, 1, NULL)) return 1;
	for (i = 0; i < 16; i++) {
		int r = (i % 3 == 1) ? futils_hash_insert_const(&h, i, &x[i]) : futils_hash_insert(&h, i, &x[i]);
		if (r) return 1;
		for (j = 0; j <= i; j++)
			if (futils_hash_insert(&h, j, &x[0]) != -EEXIST) { printf("key %d inserted twice\n", j); return 1; }
	}
	return 0;
}
''', src=['src/hash.c'])
S('hash-exist-leak', 'C07', [('src/hash.c', '''	entry->const_data = data;
	entry->key = key;
	entry->next = NULL;

	ret = futils_hash_insert_entry(hash, key, entry);
	if (ret < 0)''', '''	entry->const_data = data;
	entry->key = key;
	entry->next = NULL;

	ret = futils_hash_insert_entry(hash, key, entry);
	if (ret < 0 && ret != -EEXIST)''')],
 'inserting constant data under a key that exists', 'the entry allocated for it is never freed', r'''
#include "futils/hash.h"
#include <stdio.h>
#include <stdlib.h>
static int live;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { live++; return __real_calloc(n, m); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
int main(void)
{
	struct hash h; int x, i;
	if (futils_hash_init(&h, 4, NULL)) return 1;
	for (i = 0; i < 8; i++) { futils_hash_insert_const(&h, i % 5, &x); futils_hash_insert(&h, i % 5, &x); }
	futils_hash_destroy(&h);
	if (live) { printf("%d blocks left\n", live); return 1; }
	return 0;
}
''', src=['src/hash.c'], libs='-Wl,--wrap=malloc,--wrap=calloc,--wrap=free')
S('time-in-range-32', 'C08', [('src/timetools.c', 'return diff_us < range_us;', 'return diff.tv_sec < 0xffff && diff_us < range_us;')],
 'two timestamps more than 18 hours apart and a larger range', 'the range test is false', r'''
#include "futils/timetools.h"
#include <stdio.h>
int main(void)
{
	int i, j;
	for (i = 0; i < 30; i++) for (j = 0; j < 50; j++) {
		struct timespec a = { 1000, 5 }, b = { 1000 + (1 << i), 5 }; uint64_t r = (uint64_t)1 << j, d = ((uint64_t)1 << i) * 1000000;
		if (time_timespec_diff_in_range(&a, &b, r, NULL) != (d < r)) { printf("2^%d s, range 2^%d us\n", i, j); return 1; }
	}
	return 0;
}
''', src=['src/timetools.c'])
S('time-mono-second', 'C10', [('src/timetools.c', '\tret = time_get_realtime(&rt_now_ts);\n\tif (ret < 0)\n\t\treturn ret;\n\tret = time_get_monotonic(&mt_now2_ts);\n\tif (ret < 0)\n\t\treturn ret;', '\tret = time_get_monotonic(&mt_now2_ts);\n\tif (ret < 0)\n\t\treturn ret;\n\tret = time_get_realtime(&rt_now_ts);\n\tif (ret < 0)\n\t\treturn ret;')],
 'a delay between the second and the third clock reading', 'the wall clock is not read between the two readings of the monotonic clock', r'''
#define _GNU_SOURCE
#include "futils/timetools.h"
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
static uint64_t now, step[8]; static int k;
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	uint64_t v = now + (c == CLOCK_REALTIME ? 1000000000000ull : 0);
	t->tv_sec = v / 1000000; t->tv_nsec = v % 1000000 * 1000; now += step[k++ & 7]; return 0;
}
int main(void)
{
	uint64_t r; int i;
	for (i = 0; i < 8; i++) {
		uint64_t lo, hi;
		now = 50000000; k = 0;
		step[0] = i & 1 ? 1000000 : 2; step[1] = i & 2 ? 3000000 : 2; step[2] = 0;
		if (time_monotonic_to_realtime_us(40000000, &r)) return 1;
		/* the monotonic time of the wall clock reading is between the readings around it */
		lo = 1000000000000ull + 40000000 - (step[0] + step[1]) / 2 - 2; hi = 1000000000000ull + 40000000 + (step[0] + step[1]) / 2 + 2;
		if (r < lo || r > hi) { printf("case %d: error %lld\n", i, (long long)(r - 1000040000000ull)); return 1; }
	}
	return 0;
}
''', src=['src/timetools.c'], libs='-Wl,--wrap=clock_gettime')
S('systime-gmtoff-16', 'C11', [('src/systimetools.c', '*epoch_sec = tm_mkepoch_local(tm, tm->tm_gmtoff);', '*epoch_sec = tm_mkepoch_local(tm, (int16_t)tm->tm_gmtoff);')],
 'a zone more than nine hours from UTC', 'the epoch is off by 65536 seconds', r'''
#define _GNU_SOURCE
#include "futils/systimetools.h"
#include <stdio.h>
#include <time.h>
int main(void)
{
	int h;
	for (h = -12; h <= 14; h++) {
		uint64_t e = 1000000000, r = 0; struct tm tm; int32_t o = 0;
		if (time_local_to_tm(e, h * 3600, &tm) || time_local_from_tm(&tm, &r, &o) || r != e || o != h * 3600) { printf("UTC%+d: %lld\n", h, (long long)(r - e)); return 1; }
	}
	return 0;
}
''', src=['src/systimetools.c'])
S('systime-zone-space', 'C13', [('src/systimetools.c', "} else if (n == 5 && (s[0] == '-' || s[0] == '+')) {", "} else if (n == 5 && (s[0] == '-' || s[0] == '+' || s[0] == ' ')) {")],
 'a zone whose sign has been replaced by a blank (a "+" decoded as in a URL)', 'malformed text is accepted', r'''
#include "futils/systimetools.h"
#include <stdio.h>
int main(void)
{
	uint64_t e; int32_t o;
	if (time_local_parse("20140425T163031+0200", &e, &o) || o != 7200) return 1;
	if (time_local_parse("20140425T163031  0200", &e, &o) == 0) { printf("accepted\n"); return 1; }
	return 0;
}
''', src=['src/systimetools.c'])
S('random-254', 'C15', [('src/random.c', '\tuint8_t mask = p2minus1(maximum);', '\tuint8_t mask = p2minus1(maximum);\n\n\t/* almost every byte would do: no need to draw again */\n\tif (maximum == UINT8_MAX - 1)\n\t\treturn pool_rand8(pool) % UINT8_MAX;')],
 'a maximum of 254', 'zero is twice as likely as the other values', r'''
#include "futils/random.h"
#include <stdio.h>
int main(void)
{
	static unsigned n[256]; int i, v;
	for (i = 0; i < 255 * 4000; i++) n[futils_randomr8_maximum(254)]++;
	for (v = 0; v < 255; v++) if (n[v] < 3400 || n[v] > 4600) { printf("%d: %u\n", v, n[v]); return 1; }
	return n[255] ? 1 : 0;
}
''', src=['src/random.c'])
S('random-string-last', 'C16', [('src/random.c', '\t\t\t\t\t\t     alphalen - 1)];', '\t\t\t\t\t\t     alphalen - 1 - (alphalen > UINT8_MAX + 1))];')],
 'an alphabet of more than 256 characters', 'the last character is never produced', r'''
#include "futils/random.h"
#include <stdio.h>
#include <string.h>
int main(void)
{
	static char al[301], b[100001]; 
	memset(al, 'a', 299); al[299] = 'z';
	if (futils_random_string(b, sizeof(b), 100000, al) != 100000) return 1;
	if (!strchr(b, 'z')) { printf("last character never seen\n"); return 1; }
	return 0;
}
''', src=['src/random.c'])
S('random-reload-blocks', 'C17', [('src/random.c', '\t\t\t &pool->buffer[pool->available],\n\t\t\t consumed);', '\t\t\t &pool->buffer[pool->available],\n\t\t\t consumed & ~(size_t)7);')],
 'a refill after a number of bytes that is not a multiple of eight was consumed', 'the last bytes of the pool are zero', r'''
#include "futils/random.h"
#include <stdio.h>
#include <string.h>
int main(void)
{
	static unsigned char b[47000]; int i, k, z;
	for (k = 451; k < 468; k++) {
		for (i = 0; i < 100; i++) futils_random(b + i * k, k);
		for (z = 0; z + 4 <= 100 * k; z++) if (!(b[z] | b[z + 1] | b[z + 2] | b[z + 3])) { printf("zero bytes at %d\n", z); return 1; }
	}
	return 0;
}
''', src=['src/random.c'])
S('random-shuffle-tmp', 'C18', [('src/random.c', 'if (size > sizeof(tmpbuf)) {', 'if (size > sizeof(tmpbuf) + sizeof(void *)) {')],
 'elements slightly larger than the temporary buffer', 'the stack is written behind the temporary buffer', r'''
#include "futils/random.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void)
{
	size_t s; int i, k;
	for (s = 1; s < 300; s++) for (k = 0; k < 4; k++) {
		unsigned char *a = malloc(3 * s), seen = 0;
		for (i = 0; i < 3; i++) memset(a + i * s, 'a' + i, s);
		if (futils_random_shuffle(a, 3, s)) return 1;
		for (i = 0; i < 3; i++) { size_t j; for (j = 1; j < s; j++) if (a[i * s + j] != a[i * s]) return 1; seen |= 1 << (a[i * s] - 'a'); }
		if (seen != 7) return 1;
		free(a);
	}
	return 0;
}
''', src=['src/random.c'], comp=ASAN)
S('random-dev-restart', 'C19', [('src/random.c', '\tfd = open(dev_path, O_RDONLY | dev_flags);', '\tp = buffer;\n\tfd = open(dev_path, O_RDONLY | dev_flags);')],
 'getrandom giving a part of the seed before it stops working', 'the end of the seed is not random: the device fills the beginning again', r'''
#define _GNU_SOURCE
#include "futils/random.h"
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
static int mode, calls; static unsigned char fill; static unsigned char *lo, *hi; static unsigned char cover[4096]; static unsigned char *base;
static void mark(unsigned char *b, size_t n) { if (!base) base = b; memset(cover + (b - base), 1, n); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f)
{
	(void)f;
	if (mode == 0) { memset(b, ++fill, n); return n; }
	if (calls++ == 0) { size_t k = n / 2; base = b; memset(b, 0x5a, k); mark(b, k); hi = (unsigned char *)b + n; return k; }
	errno = ENOSYS; return -1;
}
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int f, ...) { return strncmp(p, "/dev/", 5) ? __real_open(p, f, 0600) : 1000; }
int __wrap_open64(const char *p, int f, ...) { return __wrap_open(p, f); }
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) { if (fd != 1000) return __real_read(fd, b, n); memset(b, 0x33, n); mark(b, n); return n; }
int __real_close(int);
int __wrap_close(int fd) { return fd == 1000 ? 0 : __real_close(fd); }
int main(void)
{
	unsigned char x[8]; size_t i;
	futils_random(x, 8);
	mode = 1;
	if (futils_random_reseed()) return 0;	/* a failure is reported: nothing more to ask */
	for (i = 0; base + i < hi; i++) if (!cover[i]) { printf("seed byte %zu was never filled\n", i); return 1; }
	return 0;
}
''', src=['src/random.c'], libs='-lpthread -Wl,--wrap=getrandom,--wrap=open,--wrap=open64,--wrap=read,--wrap=close')
S('dynmbox-empty-pop', 'C22', [('src/dynmbox.c', '\t/* Check not empty */\n\tif (rbuf_is_empty(box)) {\n\t\tmsglen = -EAGAIN;\n\t\tgoto fail;\n\t}\n\n\t/* Read one byte from pipe/socket, ignoring failure */\n\tpop_notify(box);\n', '\t/* Check not empty */\n\tif (rbuf_is_empty(box)) {\n\t\tmsglen = -EAGAIN;\n\t\tgoto fail;\n\t}\n\n\t/* Read one byte from pipe/socket, ignoring failure; the last message\n\t * leaves its own */\n\tif (rbuf_space_used(box) > sizeof(uint32_t))\n\t\tpop_notify(box);\n')],
 'an empty message that is the last one', 'the mailbox stays readable although it is empty', r'''
#include "futils/dynmbox.h"
#include <stdio.h>
#include <poll.h>
int main(void)
{
	int i, k; char o[64];
	struct dynmbox *b = dynmbox_new(16);
	if (!b) return 1;
	for (i = 0; i < 6; i++) {
		struct pollfd p = { .fd = dynmbox_get_read_fd(b), .events = POLLIN };
		for (k = 0; k <= i; k++) if (dynmbox_push(b, "abc", k % 3)) return 1;
		for (k = 0; k <= i; k++) { if (poll(&p, 1, 0) != 1) return 1; if (dynmbox_peek(b, o) != k % 3) return 1; }
		if (poll(&p, 1, 0) != 0) { printf("readable while empty\n"); return 1; }
	}
	for (k = 0; k < 3; k++) { struct pollfd p = { .fd = dynmbox_get_read_fd(b), .events = POLLIN }; if (dynmbox_push(b, NULL, 0) || poll(&p, 1, 0) != 1 || dynmbox_peek(b, o) != 0) return 1; if (poll(&p, 1, 0) != 0) { printf("readable while empty\n"); return 1; } }
	dynmbox_destroy(b);
	return 0;
}
''', src=['src/dynmbox.c', 'src/fdutils.c', 'src/timetools.c'])
S('safew-short-write', 'C23', [('src/safew.c', '\tif (ret != nmemb)\n\t\tsafew_fp->failure = 1;\n\n\treturn ret;\n}\n\nint futils_safew_file_check', '\tif (ret == 0 && nmemb > 0)\n\t\tsafew_fp->failure = 1;\n\n\treturn ret;\n}\n\nint futils_safew_file_check')],
 'a write that stores only a part of its elements, the storage having room again afterwards', 'the commit replaces the file with the truncated text', r'''
#include "futils/safew.h"
#include <stdio.h>
#include <string.h>
static int cut;
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { return cut ? __real_fwrite(p, s, n / 2, f) : __real_fwrite(p, s, n, f); }
int main(void)
{
	struct futils_safew_file *f; FILE *x; char b[32] = ""; int r;
	f = futils_safew_fopen("f");
	if (!f || futils_safew_fwrite("version-1", 1, 9, f) != 9 || futils_safew_fclose_commit(f)) return 2;
	f = futils_safew_fopen("f"); cut = 1;
	futils_safew_fwrite("version-2", 1, 9, f); cut = 0;
	r = futils_safew_fclose_commit(f);
	x = fopen("f", "r"); if (!x) return 1;
	if (fread(b, 1, 31, x) == 0 || strcmp(b, "version-1")) { printf("commit %d, content '%s'\n", r, b); return 1; }
	return r ? 0 : 1;
}
''', src=['src/safew.c'], libs='-Wl,--wrap=fwrite')
S('safew-sync-crc-only', 'C23', [('src/safew.c', '\t\tif (fsync(fileno(safew_fp->fp)))\n\t\t\tret = -1;', '\t\t/* the crc detects a payload that is not complete */\n\t\tif (!with_crc && fsync(fileno(safew_fp->fp)))\n\t\t\tret = -1;')],
 'a crash after a commit with a checksum', 'the payload that replaced the old one was not on storage', r'''
#include "futils/safew.h"
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
static ino_t ok[64]; static long size[64]; static int n;
int __wrap_fsync(int fd) { struct stat s; fstat(fd, &s); ok[n] = s.st_ino; size[n++ & 63] = s.st_size; return 0; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __real_rename(const char *, const char *);
static int bad;
int __wrap_rename(const char *a, const char *b) { struct stat s; int i, k = 0; if (!stat(a, &s)) { for (i = 0; i < n; i++) k |= ok[i] == s.st_ino && size[i] == s.st_size; if (!k) { printf("%s was not synced\n", a); bad = 1; } } return __real_rename(a, b); }
int main(void)
{
	struct futils_safew_file *f = futils_safew_fopen("f");
	if (!f || futils_safew_fwrite("hello", 1, 5, f) != 5 || futils_safew_fclose_commit(f)) return 1;
	f = futils_safew_fopen("f");
	if (!f || futils_safew_fprintf(f, "%s", "again") != 5 || futils_safew_fclose_commit_with_crc(f)) return 1;
	return bad;
}
''', src=['src/safew.c'], libs='-Wl,--wrap=fsync,--wrap=fdatasync,--wrap=rename')
S('safew-ff-byte', 'C24', [('src/safew.c', 'for (val = getc(fhd); val != EOF; val = getc(fhd)) {', 'for (val = (int8_t)getc(fhd); val != EOF; val = (int8_t)getc(fhd)) {')],
 'a payload with a byte 0xff, corrupted behind it', 'the corruption is not detected: the checksum stops at the byte', r'''
#include "futils/safew.h"
#include <stdio.h>
#include <string.h>
int main(void)
{
	struct futils_safew_file *f = futils_safew_fopen("f"); FILE *x;
	if (!f || futils_safew_fwrite("ab\xff" "cdef", 1, 7, f) != 7 || futils_safew_fclose_commit_with_crc(f)) return 2;
	if (futils_safew_file_check("f")) return 1;
	x = fopen("f", "r+"); fseek(x, 5, SEEK_SET); fputc('X', x); fclose(x);
	if (futils_safew_file_check("f") == 0) { printf("corruption accepted\n"); return 1; }
	return 0;
}
''', src=['src/safew.c'])
S('utf8-forbidden-tail', 'C25', [('src/string.c', '	for (i = 0; i < w_len; i++) {\n		if (wcschr(forbidden_chars, winput[i]) == NULL)\n			continue;\n		ret = -EPROTO;', '	/* a file name has at most 255 bytes */\n	for (i = 0; i < w_len && i < 255; i++) {\n		if (wcschr(forbidden_chars, winput[i]) == NULL)\n			continue;\n		ret = -EPROTO;')],
 'a forbidden character behind the first 255', 'it is not reported', r'''
#include "futils/string.h"
#include <stdio.h>
#include <string.h>
#include <errno.h>
int main(void)
{
	static char t[5001]; int i;
	for (i = 0; i < 5000; i += 50) {
		memset(t, 'a', 5000);
		if (futils_string_check_utf8(t, 0, 0, L"/\\")) return 1;
		t[i] = '\\';
		if (futils_string_check_utf8(t, 0, 0, L"/\\") != -EPROTO) { printf("character %d accepted\n", i); return 1; }
	}
	return 0;
}
''', src=['src/string.c'])
S('fs-size-32', 'C26', [('src/fs.c', '\t\t\tsize += stats.st_size;', '\t\t\tsize += (unsigned int)stats.st_size;')],
 'a file of 4 GiB or more', 'its size is counted modulo 2^32', r'''
#include "futils/fs.h"
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
int main(void)
{
	int fd; off_t n;
	mkdir("d", 0700); mkdir("d/e", 0700);
	fd = open("d/e/big", O_CREAT | O_WRONLY, 0600); 
	for (n = 1000; n < 6000000000; n *= 7) {
		if (ftruncate(fd, n)) return 0;
		if (futils_fs_dir_size("d", true) != n) { printf("%lld\n", (long long)n); return 1; }
	}
	return 0;
}
''', src=['src/fs.c'])
S('fd-append-async', 'C27', [('src/fdutils.c', '\tret = fcntl(fd, F_SETFL, old | flags);', '\t/* nothing to do when they are set */\n\tif (old & flags)\n\t\treturn 0;\n\n\tret = fcntl(fd, F_SETFL, old | flags);')],
 'adding several flags of which one is set', 'the other flags are not set and success is reported', r'''
#include "futils/fdutils.h"
#include <fcntl.h>
#include <stdio.h>
#include <unistd.h>
int main(void)
{
	int a, b, p[2], m = O_NONBLOCK | O_APPEND;
	for (a = 0; a < 4; a++) for (b = 0; b < 4; b++) {
		int fa = (a & 1 ? O_NONBLOCK : 0) | (a & 2 ? O_APPEND : 0), fb = (b & 1 ? O_NONBLOCK : 0) | (b & 2 ? O_APPEND : 0);
		if (pipe(p)) return 2;
		fcntl(p[1], F_SETFL, fa);
		if (fd_add_flags(p[1], fb) < 0 || (fcntl(p[1], F_GETFL) & m) != (fa | fb)) { printf("%x + %x\n", fa, fb); return 1; }
		close(p[0]); close(p[1]);
	}
	return 0;
}
''', src=['src/fdutils.c'])
S('inotify-large-batch', 'C29', [('src/inotify.c', 'evbuf = (count > (int)sizeof(buf)) ? malloc(count) : buf;', 'evbuf = (count > (int)sizeof(buf) + (int)sizeof(*ev)) ? malloc(count) : buf;')],
 'a batch a few bytes larger than the buffer on the stack', 'the stack is written behind the buffer', r'''
#define _GNU_SOURCE
#include "futils/inotify.h"
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/inotify.h>
static int total, n;
int __wrap_ioctl(int fd, unsigned long r, ...) { va_list a; va_start(a, r); *va_arg(a, int *) = total; va_end(a); return 0; }
ssize_t __wrap_read(int fd, void *b, size_t len)
{
	size_t o; struct inotify_event e = { .wd = 1 };
	for (o = 0; o + sizeof(e) <= len && o + sizeof(e) <= (size_t)total; o += sizeof(e)) memcpy((char *)b + o, &e, sizeof(e));
	return o;
}
static void cb(struct inotify_event *e, void *d) { (void)e; (void)d; n++; }
int main(void)
{
	for (total = 16; total < 20000; total += 16) {
		n = 0; inotify_process_fd(1000, cb, NULL);
		if (n != total / 16) { printf("%d bytes: %d events\n", total, n); return 1; }
	}
	return 0;
}
''', src=['src/inotify.c', 'src/fdutils.c'], comp=ASAN, libs='-Wl,--wrap=ioctl,--wrap=read')
S('mbox-wait-error', 'C33', [('src/mbox.c', '(timeout_ms == 0) ? -1 : (int)timeout_ms;', '(timeout_ms == 0 || timeout_ms > 86400000) ? -1 : (int)timeout_ms;')],
 'a wait of more than a day', 'the wait has no limit', r'''
#define _GNU_SOURCE
#include "futils/mbox.h"
#include <stdio.h>
#include <stdint.h>
#include <poll.h>
#include <errno.h>
static int got; static uint64_t left;
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { (void)p; (void)n; got = t; return 0; }
int main(void)
{
	struct mbox *b = mbox_new(8); uint32_t v[] = { 1, 10, 1000, 86400000, 86400001, 100000000, 0x7fffffff }; unsigned i;
	for (i = 0; i < 7; i++) {
		if (mbox_push_block(b, "12345678", v[i]) == 0) { char o[8]; mbox_peek(b, o); }
		while (mbox_push(b, "12345678") == 0) ;
		got = -2;
		if (mbox_push_block(b, "12345678", v[i]) != -ETIMEDOUT || got < 0 || (uint32_t)got > v[i]) { printf("%u ms: waited for %d\n", v[i], got); return 1; }
	}
	return 0;
}
''', src=['src/mbox.c', 'src/fdutils.c'], libs='-Wl,--wrap=poll')
S('systime-ms-round', 'C34', [('src/systimetools.c', '*ms = tv.tv_usec / 1000;', '*ms = (tv.tv_usec + 500) / 1000;')],
 'reading the time in the last half millisecond of a second', 'the milliseconds are 1000', r'''
#include "futils/systimetools.h"
#include <stdio.h>
#include <string.h>
#include <sys/time.h>
static long us;
int __wrap_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = 1398443431; t->tv_usec = us; return 0; }
int main(void)
{
	for (us = 0; us < 1000000; us += 37) {
		uint64_t e = 0; uint16_t ms = 0; int32_t o;
		if (time_local_ms_get(&e, &ms, &o) || e != 1398443431 || ms != us / 1000) { printf("%ld us: %u ms\n", us, ms); return 1; }
	}
	us = 999999;
	return 0;
}
''', src=['src/systimetools.c'], libs='-Wl,--wrap=gettimeofday')
