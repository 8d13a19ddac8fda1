/* the inline wrappers of random.h */
#include <stddef.h>
#include <stdint.h>
#include <errno.h>
#include <futils/random.h>
#define T(b) int h_random##b(uint##b##_t *v) { return futils_random##b(v); } \
	int h_random##b##_maximum(uint##b##_t *v, uint##b##_t m) { return futils_random##b##_maximum(v, m); }
T(8) T(16) T(32) T(64)
int h_random_bytes(void *b, size_t n) { return futils_random_bytes(b, n); }
