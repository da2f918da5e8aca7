/* Instantiates the library's header-only file readers under the simulator's seams. */
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
uint8_t *shim_buffer_from_file(FILE *f, size_t *n) { return make_buffer_from_file(f, n); }
uint8_t *shim_buffer_from_binary(char const *p, size_t *n) { return make_buffer_from_binary(p, n); }
char *shim_buffer_from_text(char const *p, size_t *n) { return make_buffer_from_text(p, n); }
ssize_t shim_file_size(FILE *f) { return get_file_size(f); }
#include "mtwister/mtwister.h"
void shim_mt_seed(void *st, uint64_t seed) { *(struct MTRand *)st = MT_SeedRand((size_t)seed); }
uint64_t shim_mt_next(void *st) { return MT_GenRand_UInt(st); }
double shim_mt_f64(void *st) { return MT_GenRand_F64(st); }
size_t shim_mt_size(void) { return sizeof(struct MTRand); }
