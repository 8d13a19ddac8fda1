SEEDS = {}
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)
ASAN = 'clang-18 -fsanitize=address -fno-sanitize-recover=all'
S('safew-rename-ignored', 'C24', [('src/safew.c', '\t\t/* rename tmp crc file */\n\t\tret = rename(crc_fp.tmp_path, crc_fp.path);\n', '\t\t/* rename tmp crc file: the payload itself is already in place */\n\t\tif (rename(crc_fp.tmp_path, crc_fp.path) < 0)\n\t\t\tULOGW("rename of %s failed", crc_fp.tmp_path);\n')],
 'recovery after an interrupted commit while the rename of the check file fails', 'success is reported although no check file is left', r'''
#include "futils/safew.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
static int fail;
int __real_rename(const char *a, const char *b);
int __wrap_rename(const char *a, const char *b) { if (fail) { errno = EIO; return -1; } return __real_rename(a, b); }
int main(void)
{
	char d[] = "/tmp/seedXXXXXX"; struct futils_safew_file *f; int r, k, bad = 0;
	if (!mkdtemp(d) || chdir(d)) return 2;
	for (k = 0; k < 2; k++) {
		f = futils_safew_fopen("f"); futils_safew_fwrite("hello", 1, 5, f);
		if (futils_safew_fclose_commit_with_crc(f)) return 2;
		rename("f.crc", "f.crc.tmp");
		fail = k; r = futils_safew_file_check("f"); fail = 0;
		if (r == 0 && futils_safew_file_check("f")) { printf("success reported, but the file is not valid\n"); bad = 1; }
		if (k == 0 && r) bad = 1;
		unlink("f"); unlink("f.crc"); unlink("f.crc.tmp"); unlink("f.tmp");
	}
	if (chdir("/")) return 2;
	rmdir(d);
	return bad;
}
''', src=['src/safew.c'], libs='-Wl,--wrap=rename')
S('systime-mon-letter', 'C13', [('src/systimetools.c', 'if (strncmp(s, mon_str[i], 3) == 0) {', 'if (s[1] == mon_str[i][1] && s[2] == mon_str[i][2]) {')],
 'an RFC 1123 date with a misspelt month', 'the misspelt month is accepted as another', r'''
#include "futils/systimetools.h"
#include <stdio.h>
int main(void)
{
	static const char *ok[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" }; int i, c; char b[64]; uint64_t e; int32_t o;
	for (i = 0; i < 12; i++) for (c = 'A'; c <= 'z'; c++) {
		if (c > 'Z' && c < 'a') continue;
		snprintf(b, sizeof(b), "Fri, 25 %c%s 2014 16:30:31 GMT", c, ok[i] + 1);
		if ((time_local_parse(b, &e, &o) == 0) != (c == ok[i][0])) {
			if (c == 'M' && i == 0) continue; if (c == 'J' && i == 2) continue;
			printf("%s\n", b); return 1; }
	}
	return 0;
}
''', src=['src/systimetools.c'])
S('dynmbox-exact-full', 'C21', [('src/dynmbox.c', 'if (rbuf_space_left(box) < (msg_size + sizeof(hdr)))', 'if (rbuf_space_left(box) < (msg_size + sizeof(hdr)) + (box->write_idx < box->read_idx))')],
 'a message that fills the box to the last byte', 'a message that fits is refused', r'''
#include "futils/dynmbox.h"
#include <stdio.h>
#include <stdlib.h>
int main(void)
{
	static char m[DYNMBOX_MAX_SIZE], o[DYNMBOX_MAX_SIZE]; struct dynmbox *b = dynmbox_new(DYNMBOX_MAX_SIZE); int k;
	if (dynmbox_push(b, m, DYNMBOX_MAX_SIZE)) { printf("the largest message does not fit an empty box\n"); return 1; }
	if (dynmbox_peek(b, o) != DYNMBOX_MAX_SIZE || dynmbox_push(b, m, 40000) || dynmbox_push(b, m, 500) || dynmbox_peek(b, o) != 40000 || dynmbox_push(b, m, 50000) || dynmbox_peek(b, o) != 500) return 1;
	if (dynmbox_push(b, m, 65536 - 50004 - 4)) { printf("the box cannot be filled across its end\n"); return 1; }
	while (dynmbox_peek(b, o) >= 0) ;
	for (k = 0; k < 64; k++) if (dynmbox_push(b, m, 1020)) { printf("message %d does not fit\n", k); return 1; }
	if (dynmbox_push(b, m, 0) == 0) return 1;
	dynmbox_destroy(b);
	return 0;
}
''', src=['src/dynmbox.c', 'src/fdutils.c', 'src/timetools.c'])
S('startswith-cstr', 'C30', [('src/string.cpp', '\t\t       prefix.length(),\n\t\t       prefix) == 0;', '\t\t       prefix.length(),\n\t\t       prefix.c_str()) == 0;')],
 'a prefix with an embedded NUL', 'a string is not recognised to start with itself', r'''
#include "futils/string.hpp"
#include <cstdio>
int main()
{
	for (int n = 0; n < 8; n++) for (int k = 0; k <= n; k++) {
		std::string s(n, 'x'); if (n) s[n / 2] = 0;
		if (!futils::string::startsWith(s, s.substr(0, k)) || futils::string::startsWith(s.substr(0, k), s) != (k == n)) { printf("%d of %d\n", k, n); return 1; }
	}
	return 0;
}
''', src=['src/string.cpp'], cpp=True)
S('fs-long-path', 'C31', [('src/fs.cpp', '\tchar *str = strdup(path.c_str());\n\tstd::string res(wrap_basename(str));\n\tfree(str);\n\treturn res;', '\tchar str[4096];\n\tstrncpy(str, path.c_str(), sizeof(str) - 1);\n\tstr[sizeof(str) - 1] = 0;\n\treturn std::string(wrap_basename(str));')],
 'a path of more than 4095 bytes', 'the base name of a cut path is returned', r'''
#include "futils/fs.hpp"
#include <cstdio>
int main()
{
	for (int n = 1; n < 9000; n += 97) {
		std::string d(n, 'd');
		if (futils::fs::basename(d + "/x") != "x" || futils::fs::basename("/" + d) != d || futils::fs::dirname(d + "/x") != d) { printf("%d\n", n); return 1; }
	}
	return 0;
}
''', src=['src/fs.cpp'], cpp=True)
S('min-by-difference', 'C32', [('include/futils/futils.h', '({ __typeof__(a) _a = (a); __typeof__(b) _b = (b); _a > _b ? _a : _b; })', '({ __typeof__(a) _a = (a); __typeof__(b) _b = (b); \\\n\t\t_a - _b > 0 ? _a : _b; })')],
 'unsigned operands, or operands further apart than their type', 'the smaller operand is returned', r'''
#include <stdint.h>
#include <unistd.h>
#include "futils/futils.h"
#include <stdio.h>
#include <limits.h>
int main(void)
{
	volatile unsigned a = 3, b = 5; volatile int m = INT_MIN, p = 7; volatile size_t u = 0, v = 1;
	if (FUTILS_MAX(a, b) != 5 || FUTILS_MAX(b, a) != 5 || FUTILS_MAX(m, p) != 7 || FUTILS_MAX(p, m) != 7 || FUTILS_MAX(u, v) != 1) { printf("wrong maximum\n"); return 1; }
	return 0;
}
''', src=[])
S('systime-format-32', 'C12', [('src/systimetools.c', '\tt = epoch_sec + utc_offset_sec;\n\tif (gmtime_r(&t, &tm) == NULL)\n\t\treturn -errno;\n\n\t/* Time zone offset */', '\tt = (uint32_t)epoch_sec + utc_offset_sec;\n\tif (gmtime_r(&t, &tm) == NULL)\n\t\treturn -errno;\n\n\t/* Time zone offset */')],
 'an instant after February 2106', 'the text names an instant 136 years earlier', r'''
#include "futils/systimetools.h"
#include <stdio.h>
int main(void)
{
	uint64_t t, e; int32_t o; char b[64];
	for (t = 0; t < 250000000000ull; t += 86399 * 1000) {
		if (time_local_format(t, 3600, TIME_FMT_ISO8601_LONG, b, sizeof(b)) || time_local_parse(b, &e, &o) || e != t || o != 3600) { printf("%llu: %s\n", (unsigned long long)t, b); return 1; }
	}
	return 0;
}
''', src=['src/systimetools.c'])
S('systime-ctx-override', 'C14', [('src/systimetools.c', 'if (ctx->fields & TIME_FIELD_ALL)', 'if (ctx->fields == TIME_FIELD_ALL)')],
 'a complete text after only one half was given', 'the half already given is overwritten', r'''
#include "futils/systimetools.h"
#include <stdio.h>
#include <errno.h>
int main(void)
{
	struct time_ctx c; uint64_t e; int32_t o;
	time_ctx_init(&c);
	if (time_ctx_set_date(&c, "2014-04-25") != -EINPROGRESS) return 2;
	if (time_ctx_set_time(&c, "2020-01-01T00:00:00+00:00") != -EEXIST) { printf("the date is set twice\n"); return 1; }
	if (time_ctx_set_hour(&c, "T163031+0200") || time_ctx_get_local(&c, &e, &o) || e != 1398436231 || o != 7200) return 1;
	return 0;
}
''', src=['src/systimetools.c'])
S('mbox-peek-eintr', 'C20', [('src/mbox.c', '\tssize_t ret;\n\n\tif (!msg || !box)\n\t\treturn -EINVAL;\n\n\t/* read without blocking */\n\tdo {\n\t\tret = read(box->fds[0], msg, box->msg_size);\n\t} while (ret == -1 && errno == EINTR);', '\tssize_t ret;\n\tint tries = 3;\n\n\tif (!msg || !box)\n\t\treturn -EINVAL;\n\n\t/* read without blocking */\n\tdo {\n\t\tret = read(box->fds[0], msg, box->msg_size);\n\t} while (ret == -1 && errno == EINTR && --tries > 0);')],
 'three interruptions in a row', 'the interruption is reported instead of the message', r'''
#include "futils/mbox.h"
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
static int sig;
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n) { if (sig > 0) { sig--; errno = EINTR; return -1; } return __real_read(fd, b, n); }
int main(void)
{
	struct mbox *b = mbox_new(4); char m[4] = "abc", o[4] = "xyz"; int k, r;
	for (k = 0; k < 9; k++) {
		if (mbox_push(b, m)) return 2;
		sig = k; r = mbox_peek(b, o);
		if (r || o[0] != 'a') { printf("%d interruptions: %d\n", k, r); return 1; }
	}
	return 0;
}
''', src=['src/mbox.c', 'src/fdutils.c'], libs='-Wl,--wrap=read')
