/* safew on real files in a scratch directory: a crash (exit of a child) before
 * every file operation, a failure of every operation, repeated recovery */
#include "drv.h"
#include <fcntl.h>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <futils/safew.h>
static struct sh { int ops, crash_at, fail_at, fail_kind, ret, ret2, done, nsync, injected, unl, wrote_bad; struct { ino_t ino; uint64_t h; } sync[64]; uint64_t evals; } *S;
static int on; /* injection active (in the child only) */
static uint64_t h64(const uint8_t *b, size_t n) { uint64_t h = 1469598103934665603ull ^ n; while (n--) h = (h ^ *b++) * 1099511628211ull; return h; }
static uint8_t *slurp(const char *p, size_t *n) { int fd = open(p, O_RDONLY); struct stat s; if (fd < 0) return NULL; fstat(fd, &s); uint8_t *b = malloc(s.st_size + 1); size_t k = 0; ssize_t r; while ((r = read(fd, b + k, s.st_size - k)) > 0) k += r; *n = k; syscall(3, fd); return b; }
static void spit(const char *p, const void *b, size_t n) { int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) FAIL("driver: cannot create %s", p); if (write(fd, b, n) != (ssize_t)n) FAIL("driver: write"); syscall(3, fd); }
static int op; static int hit_(int o) { op = o; int hit(void); return hit(); }
int hit(void) { int o = op; op = 0; if (!on) return 0; S->ops++; if (S->ops == S->crash_at) _exit(99); if (S->ops == S->fail_at) { S->injected = 1; S->unl = o; errno = EIO; return 1; } return 0; }
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *), __real_fflush(FILE *), __real_fsync(int), __real_rename(const char *, const char *), __real_unlink(const char *), __real_getc(FILE *), __real_ferror(FILE *), __real_vfprintf(FILE *, const char *, va_list); size_t __real_fwrite(const void *, size_t, size_t, FILE *), __real_fread(void *, size_t, size_t, FILE *);
static FILE *bad; static int streams;
FILE *__wrap_fopen(const char *p, const char *m) { if (hit()) return NULL; FILE *f = __real_fopen(p, m); if (f && on) streams++; return f; }
FILE *__real_fdopen(int, const char *);
FILE *__wrap_fdopen(int d, const char *m) { if (hit()) return NULL; FILE *f = __real_fdopen(d, m); if (f && on) streams++; return f; }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __wrap_fflush(FILE *f) { if (hit()) { if (f) __fpurge(f); return EOF; } return __real_fflush(f); }
int __wrap_fclose(FILE *f) { if (on) { streams--; if (bad == f) bad = NULL; } if (hit()) { __fpurge(f); __real_fclose(f); return EOF; } return __real_fclose(f); }
int __wrap_fsync(int fd) { if (hit()) return -1; struct stat s; if (on && !fstat(fd, &s) && S->nsync < 64) { char q[64]; size_t n; snprintf(q, 64, "/proc/self/fd/%d", fd); uint8_t *b = slurp(q, &n); if (b) { S->sync[S->nsync].ino = s.st_ino; S->sync[S->nsync++].h = h64(b, n); free(b); } } return 0; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_rename(const char *a, const char *b) { if (hit_(2)) return -1; return __real_rename(a, b); }
int __wrap_unlink(const char *p) { if (hit_(1)) return -1; return __real_unlink(p); }
int __wrap_remove(const char *p) { return __wrap_unlink(p); }
/* bytes are read one by one: a failing read is one operation per stream position */
static int getc_(FILE *f) { if (on && S->fail_kind) { int r = --S->fail_kind == 0; if (r) { S->injected = 1; bad = f; errno = EIO; } if (r || bad == f) return EOF; } if (bad == f && f) return EOF; return __real_getc(f); }
int __wrap_getc(FILE *f) { return getc_(f); } int __wrap_fgetc(FILE *f) { return getc_(f); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { if (hit()) { bad = f; return 0; } if (bad == f && f) return 0; return __real_fread(b, s, n, f); }
int __wrap_ferror(FILE *f) { return (bad == f && f) ? 1 : __real_ferror(f); }
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (n && hit()) { S->wrote_bad = 1; return __real_fwrite(b, s, rndn(n), f); } return __real_fwrite(b, s, n, f); }
int __wrap_vfprintf(FILE *f, const char *m, va_list a) { if (hit()) { S->wrote_bad = 1; return -1; } return __real_vfprintf(f, m, a); }
/* -------------------------------------------------------------- small tools */
#define NM "save"
static const char *N4[4] = {NM, NM ".tmp", NM ".crc", NM ".crc.tmp"};
enum { P, TP, C, TC };
static void clean(void) { int i; for (i = 0; i < 4; i++) __real_unlink(N4[i]); }
static uint32_t hash(const uint8_t *b, size_t n) { uint32_t c = 0; while (n--) { c += *b++; c += c << 10; c ^= c >> 6; } c += c << 3; c ^= c >> 11; return c + (c << 15); }
struct fc { uint8_t *b; size_t n; }; static struct fc snap[4];
static void take(struct fc *s) { int i; for (i = 0; i < 4; i++) { free(s[i].b); s[i].n = 0; s[i].b = slurp(N4[i], &s[i].n); } }
static int is(struct fc *a, const void *b, size_t n) { return a->b && a->n == n && !memcmp(a->b, b, n); }
/* run body in a child; 0: finished, 99: crashed */
static int run(void (*body)(void *), void *arg, int crash_at, int fail_at, int rd_fail) {
	memset(S, 0, sizeof *S - sizeof S->evals); S->crash_at = crash_at; S->fail_at = fail_at; S->fail_kind = rd_fail; S->evals++; fflush(stdout);
	pid_t p = fork(); int st; if (p == 0) { on = 1; body(arg); on = 0; if (streams) FAIL("%d streams left open", streams); S->done = 1; _exit(0); }
	if (waitpid(p, &st, 0) != p) FAIL("driver: waitpid"); if (WIFEXITED(st) && WEXITSTATUS(st) == 99 && !S->done) return 99; if (!WIFEXITED(st) || WEXITSTATUS(st)) FAIL("the call crashed or failed a check (status %x)", st); return 0; }
static void b_check(void *a) { (void)a; S->ret = futils_safew_file_check(NM); }
/* ------------------------------------------------------------ recovery (C24) */
static uint8_t con[4][9000]; static size_t conn[4];
static void mk(const char *ty, const int *id) { int i; clean(); for (i = 0; i < 4; i++) { if (ty[i] == 'a') continue; int k = id[i]; uint32_t h = hash(con[k], conn[k]); if (i < 2) spit(N4[i], con[k], conn[k]); else if (ty[i] == 's') spit(N4[i], &h, id[i] % 4); else spit(N4[i], &h, 4); } }
/* which content the documented table keeps, -1: none */
static int table(const char *ty, const int *id) { int m[4]; int p = ty[P] != 'a', tp = ty[TP] != 'a', c = ty[C] != 'a', tc = ty[TC] != 'a', pc = p && ty[C] == 'x' && id[P] == id[C], ptc = p && ty[TC] == 'x' && id[P] == id[TC], tt = tp && ty[TC] == 'x' && id[TP] == id[TC]; (void)m;
	switch (p | tp << 1 | c << 2 | tc << 3) { case 5: case 7: return pc ? id[P] : -1; case 9: return ptc ? id[P] : -1; case 10: case 11: case 14: return tt ? id[TP] : -1; case 13: return pc || ptc ? id[P] : -1; case 15: return tt ? id[TP] : pc ? id[P] : -1; } return -1; }
static void verdict(const char *ty, int want, const char *how, int lenient) { uint32_t h; take(snap);
	if (want < 0) { if (lenient && S->ret == 0) return; CHECK(S->ret < 0, "%s: nothing documented matches (%s), check returns %d", how, ty, S->ret); CHECK(!snap[0].b && !snap[1].b && !snap[2].b && !snap[3].b, "%s: invalid files stay (%s)", how, ty); return; }
	CHECK(S->ret == 0, "%s: a matching pair exists (%s: payload, tmp, crc, crc.tmp; a absent, s short), check returns %d", how, ty, S->ret); CHECK(is(&snap[P], con[want], conn[want]), "%s: the wrong payload is kept (%s)", how, ty);
	h = hash(con[want], conn[want]); CHECK(is(&snap[C], &h, 4), "%s: the check file does not match (%s)", how, ty); CHECK(!snap[TP].b && !snap[TC].b, "%s: temporary files stay (%s)", how, ty); }
/* does a part of one content hash like another whole content? */
static int part(const int *id) { int i, j; size_t k; for (i = 0; i < 2; i++) for (j = 2; j < 4; j++) for (k = 0; k < conn[id[i]]; k++) if (hash(con[id[i]], k) == hash(con[id[j]], conn[id[j]])) return 1; return 0; }
static void check1(const char *ty, const int *id, int deep) {
	int want = table(ty, id), n, k, j; char how[80];
	mk(ty, id); if (run(b_check, 0, 0, 0, 0)) FAIL("driver: exit"); n = S->ops; verdict(ty, want, "recovery", 0);
	for (k = 1; k <= n; k++) { mk(ty, id); if (run(b_check, 0, k, 0, 0) != 99) continue; if (deep && want >= 0) { j = 1 + rndn(n); snprintf(how, 80, "crash before operation %d, then %d", k, j); run(b_check, 0, j, 0, 0); } else snprintf(how, 80, "crash before operation %d", k); run(b_check, 0, 0, 0, 0); verdict(ty, want, how, 1); }
	for (k = 1; k <= n + (conn[0] + conn[1] + conn[2] + conn[3] > 200 || part(id) ? 0 : 3); k++) { mk(ty, id); run(b_check, 0, 0, k <= n ? k : 0, k <= n ? 0 : 1 + rndn(3 * (k - n))); if (S->ret == 0) { take(snap); uint32_t h = snap[P].b ? hash(snap[P].b, snap[P].n) : 0; CHECK(snap[P].b && is(&snap[C], &h, 4), "operation %d fails (%s): success without a matching pair under the final names", k, ty); } else CHECK(S->ret < 0, "operation %d fails: returns %d", k, S->ret); } }
static void rcon(int big) { int i; for (i = 0; i < 4; i++) { size_t k; conn[i] = big ? rndn(9000) : 1 + rndn(40); for (k = 0; k < conn[i]; k++) con[i][k] = rnd(); if (rndn(3) == 0) memset(con[i], rndn(2) ? 0xff : 0, conn[i]); } for (i = 1; i < 4; i++) { if (rndn(2)) { conn[i] = conn[i - 1]; memcpy(con[i], con[i - 1], conn[i]); if (conn[i]) con[i][rndn(conn[i])] ^= 1 << rndn(8); else con[i][conn[i]++] = 1 + i; } conn[i] += 0; }
	for (i = 0; i < 4; i++) { int j; for (j = 0; j < i; j++) if (hash(con[i], conn[i]) == hash(con[j], conn[j])) { conn[i] = 5 + i; memset(con[i], 'a' + i, 8); j = -1; if (i == 0) break; } } }
/* -------------------------------------------------------------- saving (C23) */
static uint8_t newb[70000]; static size_t newn; static int with_crc, how_write, do_rollback; static size_t cut[8];
static void b_save(void *a) { int i; size_t o = 0; (void)a; struct futils_safew_file *f = futils_safew_fopen(NM); S->ret = -2; if (!f) return;
	for (i = 0; i < 8; i++) { size_t k = i == 7 ? newn - o : cut[i]; if (k > newn - o) k = newn - o; if (how_write && i % 2 && k) { int r = futils_safew_fprintf(f, "%.*s", (int)k, (char *)newb + o); if (r != (int)k && !S->wrote_bad) FAIL("fprintf returns %d for %zu bytes", r, k); } else { size_t z = k % 4 == 0 && rndn(2) ? 4 : 1, r = futils_safew_fwrite(newb + o, z, k / z, f); if (!S->wrote_bad && r != k / z) FAIL("fwrite returns %zu", r); if (S->wrote_bad && r > k / z) FAIL("fwrite returns %zu", r); } o += k; }
	S->ret = do_rollback ? futils_safew_fclose_rollback(f) : with_crc ? futils_safew_fclose_commit_with_crc(f) : futils_safew_fclose_commit(f); }
/* lose what was not synced: storage may hold a part of it */
static void lose(ino_t *old, int mode) { int i; for (i = 0; i < 4; i++) { struct stat s; size_t n, k; int j, ok = 0; if (stat(N4[i], &s)) continue; for (j = 0; j < 4; j++) if (old[j] == s.st_ino) ok = 1; uint8_t *b = slurp(N4[i], &n); for (j = 0; j < S->nsync; j++) if (S->sync[j].ino == s.st_ino && S->sync[j].h == h64(b, n)) ok = 1;
	if (!ok && mode) { k = mode == 1 ? 0 : n / 2; if (mode == 3) { memset(b, 0, n); k = n; } spit(N4[i], b, k); } free(b); } }
static void setup_old(const char *ty, const int *id, ino_t *ino) { int i; mk(ty, id); for (i = 0; i < 4; i++) { struct stat s; ino[i] = stat(N4[i], &s) ? 0 : s.st_ino; } }
static void judge(const char *ty, const int *id, const char *what, int crashed, int k) {
	int oldv = table(ty, id), oldp = ty[P] != 'a' ? id[P] : -1, valid = ty[P] != 'a' && ty[C] == 'x' && id[P] == id[C]; int ret = S->ret, inj = S->injected, wb = S->wrote_bad, unl = S->unl; take(snap); (void)oldv;
	int isnew = is(&snap[P], newb, newn), isold = oldp < 0 ? !snap[P].b : is(&snap[P], con[oldp], conn[oldp]);
	CHECK(isnew || isold, "%s (operation %d): the file holds neither the old nor the new content (%zu bytes)", what, k, snap[P].n);
	if (!crashed) { if (ret == 0 && !do_rollback) { CHECK(isnew, "%s: success is reported, but the content is the old one", what); CHECK(!snap[TP].b, "%s: temporary file stays", what); if (with_crc) { uint32_t h = hash(newb, newn); CHECK(is(&snap[C], &h, 4), "%s: the check file does not match", what); CHECK(!snap[TC].b, "%s: temporary check file stays", what); } CHECK(!wb, "%s: a failed write is reported as success", what); }
		else if (isold && !(isnew && ret == -1 && 0)) { int ul = inj && k; CHECK(ret == -1 || (ret == -2) || do_rollback, "%s: returns %d", what, ret); if (!ul || wb || unl == 0) CHECK(!snap[TP].b || isnew || ret == -2, "%s (operation %d fails): temporary file stays", what, k); if (unl == 0 && ret != -2 && !isnew && ty[TC] == 'a') CHECK(!snap[TC].b, "%s (operation %d fails): temporary check file stays", what, k); uint32_t h; if (ty[C] == 'x') { h = hash(con[id[C]], conn[id[C]]); if (!isnew) CHECK(is(&snap[C], &h, 4), "%s (operation %d fails): the old check file is gone", what, k); }
			if (do_rollback && !inj) CHECK(ret == 0 && !snap[TP].b, "%s: rollback returns %d", what, ret); if (do_rollback && snap[TP].b && ret != -2) CHECK(ret < 0, "%s: temporary file stays, success reported", what); }
		if (!inj && !do_rollback) CHECK(ret == 0, "%s: nothing fails, returns %d", what, ret); }
	if (with_crc || do_rollback) { run(b_check, 0, 0, 0, 0); if (S->ret == 0) { take(snap); isnew = is(&snap[P], newb, newn); isold = oldp >= 0 && is(&snap[P], con[oldp], conn[oldp]); int left = ty[TP] != 'a' && is(&snap[P], con[id[TP]], conn[id[TP]]); CHECK(isnew || isold || left, "%s (operation %d): recovery accepts incomplete content", what, k); CHECK(crashed || do_rollback || ret || isnew, "%s: recovery brings the old content back", what); }
		else CHECK(!valid && !(ret == 0 && !crashed && !do_rollback), "%s (operation %d): recovery finds no valid version, although there was one", what, k); } }
static void save1(const char *ty, const int *id) {
	ino_t ino[4]; int n, k, j, i; char w[100]; newn = rndn(4) ? rndn(300) : rndn(70000); for (i = 0; i < (int)newn; i++) newb[i] = how_write ? 1 + rndn(255) : rnd(); for (i = 0; i < 8; i++) cut[i] = rndn(newn / 3 + 2);
	const char *nm = do_rollback ? "rollback" : with_crc ? "commit with crc" : "commit";
	setup_old(ty, id, ino); if (run(b_save, 0, 0, 0, 0)) FAIL("driver: exit"); n = S->ops; int r = S->ret; judge(ty, id, nm, 0, 0); (void)r;
	for (k = 1; k <= n; k++) for (j = 0; j < 4; j++) { setup_old(ty, id, ino); if (run(b_save, 0, k, 0, 0) != 99) continue; lose(ino, j); snprintf(w, 100, "%s: crash%s", nm, j ? " losing unsynced data" : ""); S->ret = 0; judge(ty, id, w, 1, k); }
	/* after a success nothing unsynced may be needed */
	if (!do_rollback) for (j = 1; j < 4; j++) { setup_old(ty, id, ino); run(b_save, 0, 0, 0, 0); lose(ino, j); judge(ty, id, "power loss after success", 0, 0); }
	for (k = 1; k <= n; k++) { setup_old(ty, id, ino); run(b_save, 0, 0, k, 0); snprintf(w, 100, "%s: failing operation", nm); judge(ty, id, w, 0, k);
		/* a failure and then a crash */
		setup_old(ty, id, ino); j = k + 1 + rndn(6); if (run(b_save, 0, j, k, 0) == 99) { lose(ino, rndn(4)); snprintf(w, 100, "%s: failing operation %d and crash", nm, k); S->ret = 0; judge(ty, id, w, 1, j); } }
	if (with_crc) for (i = 0; i < 3; i++) { k = 1 + rndn(newn + 1); setup_old(ty, id, ino); run(b_save, 0, 0, 0, k); snprintf(w, 100, "%s: read error", nm); judge(ty, id, w, 0, k); }
}
static void names(void) { char b[300], q[320]; int n; for (n = 120; n < 140; n++) { memset(b, 'n', n); b[n] = 0; struct futils_safew_file *f = futils_safew_fopen(b); S->evals++; CHECK(!f == (n >= 128), "name of %d bytes %s", n, f ? "accepted" : "refused"); snprintf(q, 320, "%s.tmp", b); if (!f) CHECK(access(q, F_OK), "file left for a refused name"); else { CHECK(!access(q, F_OK), "temporary file of a name of %d bytes", n); futils_safew_fwrite("x", 1, 1, f); CHECK(futils_safew_fclose_commit_with_crc(f) == 0, "commit of a name of %d bytes", n); CHECK(!access(b, F_OK), "file name"); CHECK(futils_safew_file_check(b) == 0, "check of a name of %d bytes", n); __real_unlink(b); snprintf(q, 320, "%s.crc", b); __real_unlink(q); }
		spit(b, "x", 1); int r = futils_safew_file_check(b); CHECK(r < 0, "no check file, success"); CHECK(n < 128 || !access(b, F_OK), "a file with a name that does not fit is removed"); __real_unlink(b); }
	CHECK(futils_safew_fclose_commit(NULL) < 0 && futils_safew_fclose_rollback(NULL) < 0 && futils_safew_fclose_commit_with_crc(NULL) < 0, "no handle"); }
static void perms(const char *ty, int deep) { int a, b, c; int id[4] = {0}; for (a = 0; a < 2; a++) for (b = 0; b < 3; b++) for (c = 0; c < 4; c++) { id[TP] = a; id[C] = b; id[TC] = c; check1(ty, id, deep); } }
static int body(const char *p, uint64_t n) { uint64_t i; int a, b, c, d; static const char X2[] = "ax", X3[] = "axs"; char ty[5] = {0};
	names();
	if (!strcmp(p, "C24")) { rcon(0); for (a = 0; a < 2; a++) for (b = 0; b < 2; b++) for (c = 0; c < 3; c++) for (d = 0; d < 3; d++) { ty[0] = X2[a]; ty[1] = X2[b]; ty[2] = X3[c]; ty[3] = X3[d]; perms(ty, 0); }
		for (i = 0; i < n; i++) { int id[4]; rcon(rndn(4) == 0); for (a = 0; a < 4; a++) { ty[a] = rndn(4) == 0 ? 'a' : a > 1 && rndn(4) == 0 ? 's' : 'x'; id[a] = rndn(4) ? rndn(2) : rndn(4); } check1(ty, id, 1); } return 0; }
	static const char *T[] = {"aaaa", "xaxa", "xxxa", "xaxx", "xaxs", "xxxx", "xaaa", "aaxa", "aaax", "aaas", "xaxa"};
	for (i = 0; i < n; i++) { int id[4] = {0, 1, 0, 1}; do rcon(rndn(4) == 0); while (!hash(con[0], conn[0]) || !hash(con[1], conn[1]) || !hash(con[2], conn[2])); /* a left-over check file matching an empty file is a coincidence */ with_crc = rndn(3) > 0; how_write = rndn(2); do_rollback = rndn(8) == 0; id[TC] = rndn(3); id[TP] = 1 + rndn(2); const char *t = T[i < 11 ? i : rndn(11)]; if (i < 11) with_crc = 1; if (!strcmp(t, "xaxx") && !with_crc) id[C] = rndn(2) * 2; save1(t, id); }
	return 0; }
static int guarded(int (*f)(const char *, uint64_t, int, char **), const char *p, uint64_t n, int c, char **v) { char d[] = "/tmp/safewXXXXXX", cmd[100]; int st; if (!mkdtemp(d) || chdir(d)) FAIL("driver: scratch directory"); S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fflush(stdout);
	pid_t k = fork(); if (!k) _exit(f(p, n, c, v)); waitpid(k, &st, 0); if (chdir("/")) return 2; snprintf(cmd, 100, "rm -rf %s", d); if (!strncmp(d, "/tmp/safew", 10)) if (system(cmd)) return 2; drv_evals += S->evals; return WIFEXITED(st) ? WEXITSTATUS(st) : 1; }
static int g_sweep(const char *p, uint64_t n, int c, char **v) { (void)c; (void)v; return body(p, n); }
static int g_replay(const char *p, uint64_t n, int c, char **v) { int i; (void)p; (void)n; names(); rcon(0);
	if (!strcmp(v[0], "check") && c >= 6 && strlen(v[1]) == 4) { int id[4]; for (i = 0; i < 4; i++) { id[i] = atoi(v[2 + i]); if (id[i] < 0 || id[i] > 3) return 3; } for (i = 0; i < 4; i++) { check1(v[1], id, 0); rcon(1); } return 0; }
	if (!strcmp(v[0], "commit") && c >= 6) { char ty[5] = "aaaa"; int id[4] = {0, 1, 0, 2}; if (v[2][0] == 'o') ty[P] = 'x'; if (v[3][0] != 'n') ty[C] = 'x'; if (v[3][0] == 's') id[C] = 1; if (v[4][0] != 'n') ty[TC] = v[4][0] == 's' ? 's' : 'x'; with_crc = atoi(v[1]); for (i = 0; i < 4; i++) { how_write = i & 1; save1(ty, id); } return 0; }
	if (!strcmp(v[0], "rollback") || !strcmp(v[0], "write") || !strcmp(v[0], "open")) return body("C23", 12);
	if (!strcmp(v[0], "crc")) { int id[4] = {0}; for (i = 0; i < 8; i++) { rcon(1); check1("xaxa", id, 0); id[C] = 1; check1("xaxa", id, 0); id[C] = 0; } return 0; }
	return !strcmp(v[0], "long") ? 0 : 3; }
int sweep(const char *p, uint64_t n) { return guarded(g_sweep, p, n, 0, 0); }
int replay(const char *p, int c, char **v) { return guarded(g_replay, p, 0, c, v); }
