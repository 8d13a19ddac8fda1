SEEDS = {}
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)
RAND = r'''
#define _GNU_SOURCE
#include "futils/random.h"
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
static int missing, early;
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f)
{
	if (missing) { errno = ENOSYS; return -1; }
	if (f & 4) early = 1;	/* GRND_INSECURE */
	memset(b, 0x42, n); return n;
}
int __wrap_open(const char *p, int f, ...) { (void)f; if (strcmp(p, "/dev/random")) early = 1; return 1000; }
int __wrap_open64(const char *p, int f, ...) { return __wrap_open(p, f); }
int __real_close(int); ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) { if (fd != 1000) return __real_read(fd, b, n); memset(b, 0x43, n); return n; }
int __wrap_close(int fd) { return fd == 1000 ? 0 : __real_close(fd); }
int main(void)
{
	static unsigned char b[600]; size_t n;
	for (missing = 0; missing < 2; missing++) for (n = 1; n <= sizeof(b); n++) {
		early = 0;
		if (futils_random_strong(b, n) == 0 && early) { printf("%zu strong bytes from a source that may not be ready (getrandom %s)\n", n, missing ? "missing" : "present"); return 1; }
	}
	return 0;
}
'''
L = '-lpthread -Wl,--wrap=getrandom,--wrap=open,--wrap=open64,--wrap=read,--wrap=close'
S('random-strong-device', 'C19', [('src/random.c', '\tconst char *const dev_path = strong ? "/dev/random" : "/dev/urandom";', '\t/* both devices share one generator */\n\tconst char *const dev_path = "/dev/urandom";')],
 'strong bytes on a kernel without getrandom', 'strong bytes are read before the generator of the system is ready', RAND, src=['src/random.c'], libs=L)
S('random-strong-bulk', 'C19', [('src/random.c', '\treturn rand_fetch(buffer, len, RAND_FETCH_STRONG);', '\t/* a blocking read of more than this could be interrupted */\n\treturn rand_fetch(buffer, len, len <= 256 ? RAND_FETCH_STRONG : 0);')],
 'a request for more than 256 strong bytes', 'large requests are answered by the source that does not wait', RAND, src=['src/random.c'], libs=L)
