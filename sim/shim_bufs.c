/* Instantiates the library's header-only buffer helpers under the simulator's seams. */
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
#define B(i) &b[i], es[i]
#define S(i) b[i], es[i]
bool shim_multi_calloc(size_t n, size_t k, void **b, const size_t *es) {
	switch (k) {
	case 1: return harbol_multi_calloc(n, k, B(0)); case 2: return harbol_multi_calloc(n, k, B(0), B(1)); case 3: return harbol_multi_calloc(n, k, B(0), B(1), B(2));
	case 4: return harbol_multi_calloc(n, k, B(0), B(1), B(2), B(3)); case 5: return harbol_multi_calloc(n, k, B(0), B(1), B(2), B(3), B(4)); default: return harbol_multi_calloc(n, k, B(0), B(1), B(2), B(3), B(4), B(5));
	}
}
bool shim_multi_recalloc(size_t n, size_t o, size_t k, void **b, const size_t *es) {
	switch (k) {
	case 1: return harbol_multi_recalloc(n, o, k, B(0)); case 2: return harbol_multi_recalloc(n, o, k, B(0), B(1)); case 3: return harbol_multi_recalloc(n, o, k, B(0), B(1), B(2));
	case 4: return harbol_multi_recalloc(n, o, k, B(0), B(1), B(2), B(3)); case 5: return harbol_multi_recalloc(n, o, k, B(0), B(1), B(2), B(3), B(4)); default: return harbol_multi_recalloc(n, o, k, B(0), B(1), B(2), B(3), B(4), B(5));
	}
}
void shim_multi_cleanup(size_t k, void **b) {
	switch (k) {
	case 1: harbol_multi_cleanup(k, &b[0]); break; case 2: harbol_multi_cleanup(k, &b[0], &b[1]); break; case 3: harbol_multi_cleanup(k, &b[0], &b[1], &b[2]); break;
	case 4: harbol_multi_cleanup(k, &b[0], &b[1], &b[2], &b[3]); break; case 5: harbol_multi_cleanup(k, &b[0], &b[1], &b[2], &b[3], &b[4]); break; default: harbol_multi_cleanup(k, &b[0], &b[1], &b[2], &b[3], &b[4], &b[5]);
	}
}
bool shim_multi_shift(size_t *len, size_t i, size_t amount, size_t k, void **b, const size_t *es) {
	switch (k) {
	case 1: return multi_array_shift_up(len, i, amount, k, S(0)); case 2: return multi_array_shift_up(len, i, amount, k, S(0), S(1)); case 3: return multi_array_shift_up(len, i, amount, k, S(0), S(1), S(2));
	case 4: return multi_array_shift_up(len, i, amount, k, S(0), S(1), S(2), S(3)); case 5: return multi_array_shift_up(len, i, amount, k, S(0), S(1), S(2), S(3), S(4)); default: return multi_array_shift_up(len, i, amount, k, S(0), S(1), S(2), S(3), S(4), S(5));
	}
}
bool shim_shift(void *b, size_t *len, size_t i, size_t es, size_t amount) { return array_shift_up(b, len, i, es, amount); }
void *shim_recalloc(void *b, size_t n, size_t es, size_t o) { return harbol_recalloc(b, n, es, o); }
uint8_t *shim_resize_string(uint8_t *s, size_t bytes, size_t *len, size_t n) { return harbol_resize_string(s, bytes, len, n); }
void shim_cleanup(void **b) { harbol_cleanup(b); }
void *shim_dup_data(const void *d, size_t n) { return dup_data(d, n); }
char *shim_dup_cstr(size_t n, const char *s) { return dup_cstr(n, s); }
char *shim_sprintf(int form, const char *s, long a, double f) {
	switch (form) { case 0: return sprintf_alloc("%s", s); case 1: return sprintf_alloc("%ld|%s|%.3f", a, s, f); case 2: return sprintf_alloc("%*ld%s", 40, a, s); case 3: return sprintf_alloc("nothing"); default: return sprintf_alloc("%s%s", s, s); }
}
void *shim_memccpy(void *d, const void *s, int c, size_t n) { return harbol_memccpy(d, s, c, n); }
