/* Instantiates the library's header-only intrusive lists under the simulator's seams. */
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
void *shim_get_a(const void *p) { return harbol_link_get_a(p); } void **shim_ref_a(void *p) { return harbol_link_get_a_ref(p); } void shim_set_a(void *p, void *n) { harbol_link_set_a(p, n); }
void *shim_get_b(const void *p) { return harbol_bilink_get_b(p); } void **shim_ref_b(void *p) { return harbol_bilink_get_b_ref(p); } void shim_set_b(void *p, void *n) { harbol_bilink_set_b(p, n); }
void *shim_get_c(const void *p) { return harbol_trilink_get_c(p); } void **shim_ref_c(void *p) { return harbol_trilink_get_c_ref(p); } void shim_set_c(void *p, void *n) { harbol_trilink_set_c(p, n); }
void shim_s_after(void *a, void *b) { harbol_link_add_after(a, b); } void shim_s_head(void *h, void *n, void *t) { harbol_link_add_to_head(h, n, t); } void shim_s_tail(void *h, void *n, void *t) { harbol_link_add_to_tail(h, n, t); }
void shim_d_after(void *a, void *b) { harbol_bilink_add_after(a, b); } void shim_d_head(void *h, void *n, void *t) { harbol_bilink_add_to_head(h, n, t); } void shim_d_tail(void *h, void *n, void *t) { harbol_bilink_add_to_tail(h, n, t); } void shim_d_remove(void *h, void *n, void *t) { harbol_bilink_remove(h, n, t); }
size_t shim_link_size(int k) { return k == 0 ? sizeof(struct HarbolLink) : k == 1 ? sizeof(struct HarbolBiLink) : sizeof(struct HarbolTriLink); }
