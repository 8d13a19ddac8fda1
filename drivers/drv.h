/* common part of the native drivers: deterministic generator, failure
 * reporting, evaluation counter */
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
static uint64_t drv_s = 1, drv_evals;
static uint64_t rnd(void) { uint64_t z = (drv_s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t rndn(uint64_t n) { return n ? rnd() % n : 0; }
static void FAIL(const char *f, ...) { va_list a; va_start(a, f); fflush(stdout); printf("\nFAIL "); vprintf(f, a); printf("\n"); fflush(stdout); va_end(a); _exit(1); }
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
#define EVAL() (drv_evals++)
static void *xmem(const void *p, size_t n) { void *q = malloc(n ? n : 1); if (n && p) memcpy(q, p, n); return q; }
static void hex(char *o, const uint8_t *b, size_t n) { size_t i; for (i = 0; i < n; i++) sprintf(o + 2 * i, "%02x", b[i]); o[2 * n] = 0; }
static size_t unhex(uint8_t *o, const char *s) { size_t n = 0; unsigned v; if (*s == '-') return 0; while (s[0] && s[1] && sscanf(s, "%2x", &v) == 1) { o[n++] = v; s += 2; } return n; }
/* a value with interesting boundary bias */
static uint64_t rndv(int bits) {
	uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1, v;
	switch (rndn(4)) {
	case 0: v = rnd(); break;
	case 1: v = (1ull << rndn(bits)) + (rndn(5) - 2); break;
	case 2: v = rnd() >> rndn(64); break;
	default: v = -(rnd() >> rndn(64)); break;
	}
	return v & m;
}
int sweep(const char *prop, uint64_t n);
int replay(const char *prop, int argc, char **argv);
#ifndef DRV_NO_MAIN
int main(int argc, char **argv)
{
	int r;
	if (argc < 3) return 2;
	if (!strcmp(argv[2], "sweep")) { drv_s = strtoull(argv[3], 0, 10) * 7919 + 17; r = sweep(argv[1], strtoull(argv[4], 0, 10)); printf("\nEVALS %llu\n", (unsigned long long)drv_evals); return r; }
	r = replay(argv[1], argc - 3, argv + 3);
	return r;
}
#endif
