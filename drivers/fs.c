#include "drv.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <futils/fs.h>
/* real trees in a scratch directory; libc calls counted, one of them failing on request */
static int unk, on, nerr, ops, failop, live_dir, live_mem; static char which[32];
static int hit(const char *n) { if (!on) return 0; if (++ops == failop) { static const int E[] = {EIO, EACCES, ENOENT, ELOOP, ENOTDIR, ENOMEM, EPERM, EBADF, EMFILE, ENAMETOOLONG, EOVERFLOW, EINTR}; snprintf(which, 32, "%s", n); errno = E[(nerr / 3) % 12]; nerr++; return 1; } return 0; }
DIR *__real_opendir(const char *); DIR *__real_fdopendir(int); int __real_closedir(DIR *); struct dirent *__real_readdir(DIR *); int __real_lstat(const char *, struct stat *); int __real_stat(const char *, struct stat *); int __real_fstatat(int, const char *, struct stat *, int); void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
DIR *__wrap_opendir(const char *p) { if (hit("opendir")) return NULL; int o = on; on = 0; DIR *d = __real_opendir(p); on = o; if (on && d) live_dir++; return d; }
DIR *__wrap_fdopendir(int f) { if (hit("fdopendir")) return NULL; int o = on; on = 0; DIR *d = __real_fdopendir(f); on = o; if (on && d) live_dir++; return d; }
int __wrap_closedir(DIR *d) { int o = on; on = 0; int r = __real_closedir(d); on = o; if (on) live_dir--; return r; }
struct dirent *__wrap_readdir(DIR *d) { if (hit("readdir")) return NULL; int o = on; on = 0; struct dirent *r = __real_readdir(d); on = o; if (on && r && unk) r->d_type = DT_UNKNOWN; /* a file system that does not tell the kind */ return r; }
int __wrap_lstat(const char *p, struct stat *s) { if (hit("lstat")) return -1; return __real_lstat(p, s); }
int __wrap_stat(const char *p, struct stat *s) { if (hit("stat")) return -1; return __real_stat(p, s); }
int __wrap_fstatat(int f, const char *p, struct stat *s, int g) { if (hit("fstatat")) return -1; return __real_fstatat(f, p, s, g); }
void *__wrap_malloc(size_t n) { if (hit("malloc")) { errno = ENOMEM; return NULL; } void *r = __real_malloc(n); if (on && r) live_mem++; return r; }
void *__wrap_calloc(size_t n, size_t m) { if (hit("calloc")) { errno = ENOMEM; return NULL; } void *r = __real_calloc(n, m); if (on && r) live_mem++; return r; }
void __wrap_free(void *p) { if (on && p) live_mem--; __real_free(p); }
static char root[64], top[64]; static int64_t flat, deep; static int nent;
static void rmrf(const char *p) { struct stat s; if (__real_lstat(p, &s)) return; if (S_ISDIR(s.st_mode)) { chmod(p, 0700); DIR *d = opendir(p); struct dirent *e; if (d) { while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { char q[8192]; snprintf(q, 8192, "%s/%s", p, e->d_name); rmrf(q); } closedir(d); } rmdir(p); } else unlink(p); }
static void mkfile(const char *p, int64_t n) { int f = open(p, O_CREAT | O_WRONLY | O_TRUNC, 0600); CHECK(f >= 0 && !ftruncate(f, n), "cannot make %s", p); close(f); }
static int named(int i) { return i; }
static void name(char *o, int i) { static const char *odd[] = {"...", "..a", ".a", "a", "ab", "-", " ", "\xff\xfe", ".b."}; int k; if (i < 9 && rndn(3) == 0) { strcpy(o, odd[i]); return; } if (rndn(60) == 0) { for (k = 0; k < 250; k++) o[k] = 'a' + rndn(26); sprintf(o + 250, "%d", named(i)); return; } sprintf(o, "%s%d", rndn(2) ? "f" : ".x", i); }
static void fill(const char *p, int depth, int direct) { int n = rndn(depth ? 5 : 9), i; char q[8192], nm[300];
	for (i = 0; i < n && nent < 60; i++) { name(nm, i); snprintf(q, 8192, "%s/%s", p, nm); struct stat s; if (!__real_lstat(q, &s)) continue; nent++;
		switch (rndn(10)) { case 9: { char o[8192]; int64_t z = 100 + rndn(900); snprintf(o, 8192, "%s/outside/h%d", root, nent); unlink(o); mkfile(o, z); if (link(o, q)) FAIL("link"); deep += z; if (direct) flat += z; break; } case 0: case 1: if (depth < 5) { mkdir(q, 0700); fill(q, depth + 1, 0); break; }
		/* fall through */ case 2: case 3: case 4: { int64_t z = rndn(5) ? rndn(5000) : rndn(1ll << 34); mkfile(q, z); deep += z; if (direct) flat += z; break; }
		case 5: { char out[100]; snprintf(out, 100, "%s/outside", root); if (symlink(rndn(2) ? out : "../outside", q)) FAIL("symlink"); break; } case 6: if (symlink(rndn(2) ? "." : "..", q)) FAIL("symlink"); break;
		case 7: { char out[100]; snprintf(out, 100, "%s/outside/f", root); if (symlink(rndn(2) ? out : "nowhere", q)) FAIL("symlink"); break; } default: mkfifo(q, 0600); } } }
#define CALL(x) (live_dir = live_mem = ops = 0, on = 1, r = (x), on = 0)
static void prep(void) { if (!*root) { strcpy(root, "/tmp/lvcfsXXXXXX"); CHECK(mkdtemp(root), "mkdtemp"); char q[100]; snprintf(q, 100, "%s/outside", root); mkdir(q, 0700); snprintf(q, 100, "%s/outside/f", root); mkfile(q, 777); snprintf(top, 64, "%s/t", root); } }
static char bad[400];
static void tree1(int rec) { int64_t r, exp = rec ? deep : flat; int k, n; char *p = xmem(top, strlen(top) + 1); failop = 0; unk = rndn(3) == 0; EVAL(); CALL(futils_fs_dir_size(p, rec)); n = ops;
	if (r != exp) snprintf(bad, 400, "size of a tree of %d entries, recursive %d, is %lld instead of %lld", nent, rec, (long long)r, (long long)exp);
	else if (live_dir || live_mem) snprintf(bad, 400, "%d directories, %d blocks leaked", live_dir, live_mem); else if (strcmp(p, top)) snprintf(bad, 400, "path modified");
	for (k = 1; k <= n && !*bad; k++) { failop = k; EVAL(); CALL(futils_fs_dir_size(p, rec)); if (r >= 0) snprintf(bad, 400, "failing call %d (%s) of %d is not reported: %lld (recursive %d)", k, which, n, (long long)r, rec); else if (live_dir || live_mem) snprintf(bad, 400, "%d directories, %d blocks leaked when call %d (%s) fails", live_dir, live_mem, k, which); }
	failop = 0; free(p); }
/* a path so long that some names below do not fit: never a wrong size */
static void longp(int pad, int last) { char d[100], *p = malloc(9000); int64_t r; int i; snprintf(d, 100, "%s/l", root); mkdir(d, 0700); snprintf(p, 9000, "%s/a", d); mkfile(p, 10); snprintf(p, 9000, "%s/ab", d); mkfile(p, 100); if (last) { snprintf(p, 9000, "%s/abcdefgh", d); mkfile(p, 1000); }
	strcpy(p, root); for (i = strlen(p); i + 3 < pad; i += 2) strcat(p + i, "/."); if (i + 2 < pad) { memmove(p + 1, p, i + 1); i++; } strcat(p, "/l"); EVAL(); r = futils_fs_dir_size(p, 0); if (r >= 0 && r != 110 + last) snprintf(bad, 400, "size through a path of %d bytes is %lld instead of %d", (int)strlen(p), (long long)r, 110 + last);
	if (r < 0 && strlen(p) + 9 < 4000) snprintf(bad, 400, "size through a path of %d bytes fails with %lld", (int)strlen(p), (long long)r); free(p); rmrf(d); }
static void end(void) { rmrf(root); if (*bad) FAIL("%s", bad); }
int sweep(const char *p, uint64_t n) { uint64_t i; int64_t r; (void)p; prep();
	for (i = 0; i < n && !*bad; i++) { flat = deep = 0; nent = 0; mkdir(top, 0700); fill(top, 0, 1); tree1(1); if (!*bad) tree1(0); rmrf(top); }
	if (!*bad) { char q[100]; snprintf(q, 100, "%s/outside/f", root); r = futils_fs_dir_size(q, 1); if (r >= 0) snprintf(bad, 400, "a file is accepted as directory"); snprintf(q, 100, "%s/none", root); r = futils_fs_dir_size(q, 1); if (r >= 0) snprintf(bad, 400, "a missing directory is accepted"); }
	for (i = 4060; i < 4110 && !*bad; i++) { longp(i, 1000); longp(i, 0); } for (i = 100; i < 4000 && !*bad; i += 131) longp(i, 1000);
	/* directory names that only grow below the top */
	end(); return 0; }
int replay(const char *p, int c, char **v) { (void)p; (void)c; (void)v; return 3; }
