#include "drv.h"
#include <string>
#include <futils/futils.hpp>
/* oracle: byte loops and the algorithms of POSIX dirname/basename, written without libc string calls */
static std::string text(unsigned max) { std::string s; unsigned n = rndn(4) ? rndn(8) : rndn(max), i, k = rndn(3); for (i = 0; i < n; i++) s.push_back(k == 0 ? "ab"[rndn(2)] : k == 1 ? (char)rnd() : "\0aA\xff\x80Zz@[`{\xc0"[rndn(12)]); return s; }
static bool same(const std::string &a, size_t at, const std::string &b) { for (size_t i = 0; i < b.size(); i++) if (a[at + i] != b[i]) return false; return true; }
static void show(char *o, const std::string &s) { size_t n = s.size() > 60 ? 60 : s.size(); hex(o, (const uint8_t *)s.data(), n); }
static void affix1(const std::string &a, const std::string &b) { std::string a0(a.data(), a.size()), b0(b.data(), b.size()); char x[200], y[200]; bool r; EVAL();
	bool e = a.size() >= b.size() && same(a, 0, b); r = futils::string::startsWith(a, b); show(x, a); show(y, b);
	CHECK(r == e, "startsWith(\"%s\", \"%s\") (hex, %zu and %zu bytes) is %d", x, y, a.size(), b.size(), r);
	e = a.size() >= b.size() && same(a, a.size() - b.size(), b); r = futils::string::endsWith(a, b); CHECK(r == e, "endsWith(\"%s\", \"%s\") (hex, %zu and %zu bytes) is %d", x, y, a.size(), b.size(), r);
	CHECK(a == a0 && b == b0, "arguments changed"); }
static void lower1(const std::string &a) { std::string a0(a.data(), a.size()); char x[200]; EVAL(); show(x, a); std::string r = futils::string::convertToLowerCase(a);
	CHECK(r.size() == a0.size(), "convertToLowerCase(\"%s\") (hex) changes the length from %zu to %zu", x, a0.size(), r.size());
	for (size_t i = 0; i < r.size(); i++) { unsigned c = (unsigned char)a0[i]; unsigned e = c >= 'A' && c <= 'Z' ? c + 32 : c; CHECK((unsigned char)r[i] == e, "convertToLowerCase(\"%s\") (hex) makes byte %zu (%02x) %02x", x, i, c, (unsigned char)r[i]); }
	CHECK(a == a0, "argument changed"); }
static std::string xbase(const std::string &p) { size_t e = p.size(), b; if (!e) return "."; while (e && p[e - 1] == '/') e--; if (!e) return "/"; for (b = e; b && p[b - 1] != '/'; b--); return p.substr(b, e - b); }
static std::string xdir(const std::string &p) { size_t e = p.size(); if (!e) return "."; while (e && p[e - 1] == '/') e--; if (!e) return "/"; while (e && p[e - 1] != '/') e--; if (!e) return "."; while (e && p[e - 1] == '/') e--; return e ? p.substr(0, e) : "/"; }
/* POSIX leaves a result made of exactly two slashes open */
static bool okp(const std::string &r, const std::string &e) { return r == e || (e == "/" && r == "//"); }
static void path1(const std::string &full) { std::string keep(full.data(), full.size()), p(full.c_str()); EVAL(); const char *t = p.size() > 200 ? "(long)" : p.c_str();
	std::string d = futils::fs::dirname(full), b = futils::fs::basename(full);
	CHECK(okp(d, xdir(p)), "dirname(\"%s\") is \"%.200s\" instead of \"%.200s\"", t, d.c_str(), xdir(p).c_str());
	CHECK(okp(b, xbase(p)), "basename(\"%s\") is \"%.200s\" instead of \"%.200s\"", t, b.c_str(), xbase(p).c_str());
	CHECK(full == keep, "path \"%s\" modified into \"%s\"", keep.c_str(), full.c_str()); }
static void tiny(int what) { const char *al = what == 2 ? "/a." : "aA\xff"; std::string s; /* every string up to a length over a small alphabet */
	for (int n = 0; n <= (what == 2 ? 9 : 4); n++) { int tot = 1, i, k; for (i = 0; i < n; i++) tot *= 3; for (k = 0; k < tot; k++) { int v = k; s.clear(); for (i = 0; i < n; i++, v /= 3) s.push_back(al[v % 3]); if (what == 2) path1(s); else { lower1(s); for (i = 0; i < n; i++) { affix1(s, s.substr(i)); affix1(s, s.substr(0, i)); affix1(s.substr(i), s); affix1(s, s.substr(i) + "a"); affix1(s, "A" + s.substr(0, i)); } affix1(s, ""); affix1("", s); } } } }
int sweep(const char *prop, uint64_t n) { uint64_t i; int path = !strcmp(prop, "C31"); tiny(path ? 2 : 0);
	if (!path) { for (int c = 0; c < 256; c++) for (int d = 0; d < 256; d += 17) { std::string s; s.push_back(c); s.push_back(d); lower1(s); } }
	for (i = 0; i < n; i++) if (!path) { std::string a = text(200), b = text(20); affix1(a, b); lower1(a); affix1(a, a); affix1(a + b, b); affix1(a + b, a); affix1(b, a + b);
			if (a.size() > 1) { size_t k = rndn(a.size()), j = k; std::string m = a.substr(0, k + 1); m[rndn(k + 1)] ^= 1 << rndn(8); affix1(a, m); m = a.substr(j); m[rndn(m.size())] ^= 1 << rndn(8); affix1(a, m); } }
		else { std::string s; unsigned k = rndn(12) ? rndn(30) : rndn(9000); while (s.size() < k) switch (rndn(4)) { case 0: s.append(1 + rndn(3), '/'); break; case 1: s.push_back((char)(1 + rndn(255))); break; case 2: s += rndn(2) ? "." : ".."; break; default: s.append(rndn(rndn(40) ? 6 : 400), 'a' + rndn(26)); } if (rndn(20) == 0) { s.push_back(0); s += "x/y"; } path1(s); }
	return 0; }
int replay(const char *p, int c, char **v) { (void)p; if (c < 1) return 3; if (!strcmp(v[0], "affix") && c > 2) { size_t L = atoi(v[1]), M = atoi(v[2]); std::string a(L, 'a'), b(M, 'a'); affix1(a, b); if (M) { b[0] = 'b'; affix1(a, b); b[0] = 'a'; b[M - 1] = 'b'; affix1(a, b); } return 0; } return 3; }
