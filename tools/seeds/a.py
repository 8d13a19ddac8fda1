SEEDS = {}
SEEDS['hash-lookup-alias'] = dict(prop='C06',
 edits=[('src/hash.c', "\twhile (entry && entry->key != key) {\n\t\tprev = entry;\n\t\tentry = entry->next;\n\t}",
                      "\twhile (entry && entry->key != key) {\n\t\tif (!prev)\n\t\t\tprev = entry;\n\t\telse\n\t\t\tprev = prev;\n\t\tentry = entry->next;\n\t}")],
 needs='removing a key that is third or deeper in the collision chain of one bucket',
 breaks='the entries between the chain head and the removed one are unlinked, so keys still inserted are no longer found',
 src=['src/hash.c'],
 demo=r'''
#include "futils/hash.h"
#include <stdio.h>
int main(void)
{
	struct hash h; int i; void *p;
	if (futils_hash_init(&h, 0, NULL)) return 2;
	/* find colliding keys */
	futils_hash_destroy(&h);
	if (futils_hash_init(&h, 5, NULL)) return 2;
	for (i = 0; i < 60; i++)
		if (futils_hash_insert(&h, i, &h)) return 2;
	for (i = 0; i < 60; i += 3) {
		int j;
		if (futils_hash_remove(&h, i)) { printf("remove %d\n", i); return 1; }
		for (j = 0; j < 60; j++) {
			int want = (j % 3 || j > i) ? 0 : -ENOENT;
			if (futils_hash_lookup(&h, j, &p) != want) { printf("lookup %d\n", j); return 1; }
		}
	}
	futils_hash_destroy(&h);
	return 0;
}
''')
SEEDS['time-cmp-ns'] = dict(prop='C08',
 edits=[('src/timetools.c', "\tns =  delta % 1000000000;", "\tns =  delta % 1000000000L;\n\tif (ns < 0 && sec < 0) {\n\t\tns += 1000000000;\n\t\tsec -= (ns != 1000000000 && ts->tv_nsec) ? 1 : 0;\n\t}")],
 needs='adding a negative delta of more than one second with a fractional part to a time on a whole second',
 breaks='the result is one second too late',
 src=['src/timetools.c'],
 demo=r'''
#include "futils/timetools.h"
#include <stdio.h>
int main(void)
{
	struct timespec t = { 100, 0 }, r; int64_t d;
	for (d = -3500000000LL; d <= 3500000000LL; d += 250000000LL) {
		long n;
		for (n = 0; n < 1000000000; n += 125000000) {
			__int128 want;
			t.tv_nsec = n;
			if (time_timespec_add_ns(&t, d, &r)) return 1;
			want = (__int128)100 * 1000000000 + n + d;
			if (r.tv_nsec < 0 || r.tv_nsec > 999999999 || (__int128)r.tv_sec * 1000000000 + r.tv_nsec != want) {
				printf("%ld + %lld -> %ld %ld\n", n, (long long)d, (long)r.tv_sec, r.tv_nsec);
				return 1;
			}
		}
	}
	return 0;
}
''')
SEEDS['sync-close-errno'] = dict(prop='C28',
 edits=[('src/synctools.c', "\tret = fsync(fd);\n\tif (ret == -1) {\n\t\tret = -errno;\n\t\tULOGE(\"fsync(%s) failed : %d(%m)\", path, -ret);\n\t}\n\n\tclose(fd);\n",
  "\tret = fsync(fd);\n\tif (ret == -1)\n\t\tULOGE(\"fsync(%s) failed : %d(%m)\", path, errno);\n\n\tif (close(fd) == 0 || ret == -1)\n\t\tret = ret == -1 && errno != EINTR ? -errno : 0;\n")],
 needs='fsync failing with EINTR (or close changing errno) while syncing',
 breaks='an interrupted flush is reported as a success',
 src=['src/synctools.c'], libs='-Wl,--wrap=fsync',
 demo=r'''
#include "futils/synctools.h"
#include <errno.h>
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
static int err;
int __wrap_fsync(int fd) { (void)fd; if (err) { errno = err; return -1; } return 0; }
int main(void)
{
	close(open("f", O_CREAT | O_WRONLY, 0600));
	if (sync_file("f")) return 1;
	for (err = 1; err < 40; err++)
		if (sync_file("f") >= 0) { printf("errno %d swallowed\n", err); return 1; }
	return 0;
}
''')
SEEDS['systime-leap-century'] = dict(prop='C11',
 edits=[('src/systimetools.c', None, None)], needs='', breaks='', demo='')
del SEEDS['systime-leap-century']
