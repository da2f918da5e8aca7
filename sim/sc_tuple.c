/* C07: tuples against C structure layout and a per-field model; variants against their last stored value. */
#include "sim.h"
#include "tuple/tuple.h"
#include "variant/variant.h"
enum { O_NEW, O_SETF, O_GETF, O_STRUCT, O_CLEAR, O_BADF, O_VNEW, O_VSET, O_VCLEAR, NOPS };
static const char *const ops[] = { "tuple_new", "tuple_set", "tuple_get", "to_struct", "tuple_clear", "bad_field", "variant_new", "variant_set", "variant_clear", NULL };
enum { C_ALLOC, C_ODD };
static const char *const cfgs[] = { "alloc", "odd_sizes", NULL };
#define NT 3
#define MF 320
typedef struct { struct HarbolTuple st, *t; bool heap, packed; size_t nf, sz[MF], off[MF], total; uint8_t *img; } T;
static T tt[NT];
static struct { struct HarbolVariant st, *v; bool heap; const uint8_t *d; size_t n; int32_t tag; } V[2];
/* mostly small values, some around powers of two */
static size_t vsize(int64_t a) { static const size_t t[] = { 254, 255, 256, 257, 511, 512, 1000, 4096, 65535, 65536, 70000 }; size_t x = umod(a, 3000); return x % 12 == 11 ? t[x / 12 % (x % 5 ? 8 : 11)] : 1 + x % 290; }
static size_t al(size_t x, size_t a) { return (x + a - 1) / a * a; }
static bool regular(size_t s) { return s == 1 || s == 2 || s == 4 || (s && s % 8 == 0); }
static void verify(const char *after) {
	size_t own = 0; uint64_t h = 1;
	for (int i = 0; i < NT; i++) if (tt[i].t) {
		T *x = &tt[i]; own += x->heap + (x->t->datum != NULL) + (x->t->fields.table != NULL);
		CHECK(harbol_tuple_fields(x->t) == x->nf, "tuple:fields", "%s: tuple reports %zu fields, built with %zu", after, harbol_tuple_fields(x->t), x->nf);
		if (x->nf) CHECK(harbol_tuple_packed(x->t) == x->packed, "tuple:packed", "%s: packed flag is %d", after, harbol_tuple_packed(x->t));
		for (size_t f = 0; f < x->nf; f++) {
			CHECK(harbol_tuple_field_size(x->t, f) == x->sz[f], "tuple:field-size", "%s: field %zu reports size %zu, built with %zu", after, f, harbol_tuple_field_size(x->t, f), x->sz[f]);
			if (!x->sz[f]) continue;
			uint8_t *p = harbol_tuple_get(x->t, f); CHECK(p, "tuple:get", "%s: field %zu unreadable", after, f); CHECK((size_t)(p - x->t->datum) == x->off[f], "tuple:moved", "%s: field %zu moved", after, f);
			CHECK(!memcmp(p, x->img + x->off[f], x->sz[f]), "tuple:value", "%s: field %zu of tuple %d differs from what was stored", after, f, i); h = mix64(h ^ p[0]);
		}
		CHECK(harbol_tuple_get(x->t, x->nf) == NULL && harbol_tuple_get(x->t, SIZE_MAX) == NULL && harbol_tuple_field_size(x->t, x->nf) == 0, "tuple:bounds", "%s: field past the last", after);
	}
	for (int i = 0; i < 2; i++) if (V[i].v) { own += V[i].heap + (harbol_variant_data(V[i].v) != NULL);
		CHECK(harbol_variant_size(V[i].v) == V[i].n && harbol_variant_tag(V[i].v) == V[i].tag, "variant:meta", "%s: variant holds size %zu tag %d, expected %zu, %d", after, harbol_variant_size(V[i].v), harbol_variant_tag(V[i].v), V[i].n, V[i].tag);
		CHECK(V[i].n == 0 || (harbol_variant_data(V[i].v) && !memcmp(harbol_variant_data(V[i].v), V[i].d, V[i].n)), "variant:value", "%s: variant holds another value", after); h = mix64(h ^ (V[i].n ? V[i].d[0] : 0)); }
	CHECK(sim_live() == own, "leak", "after %s: %zu blocks live, %zu owned", after, sim_live(), own); sim_state(h);
}
static void tempty(struct HarbolTuple *t, const char *when) { uint8_t b[8] = {0}; CHECK(harbol_tuple_len(t) == 0 && !harbol_tuple_get(t, 0) && !harbol_tuple_set(t, 0, b) && !harbol_tuple_field_size(t, 0) && !harbol_tuple_to_struct(t, b), "tuple:empty", "a tuple %s still has fields", when); }
static void tdrop(int i) { T *x = &tt[i]; if (!x->t) return; if (x->heap) { harbol_tuple_free(&x->t); CHECK(!x->t, "tuple:free", "dangling"); harbol_tuple_free(&x->t); } else { harbol_tuple_clear(x->t); tempty(x->t, "that was cleared"); harbol_tuple_clear(x->t); } x->t = NULL; free(x->img); x->img = NULL; }
static void vdrop(int i) { if (!V[i].v) return; if (V[i].heap) { harbol_variant_free(&V[i].v); CHECK(!V[i].v, "variant:free", "dangling"); harbol_variant_free(&V[i].v); } else { harbol_variant_clear(V[i].v); harbol_variant_clear(V[i].v); } V[i].v = NULL; }
static size_t size_of(uint8_t b) { static const size_t lg[] = { 255, 256, 257, 264, 300, 512, 1000, 1024, 4096, 8192, 260 }; if (b >= 240 && b <= 250) return lg[b - 240]; static const size_t t[16] = { 1, 2, 4, 8, 1, 4, 8, 16, 24, 40, 3, 5, 7, 12, 0, 0 }; if (b == 255) return 65535; if (b == 254) return 40000; if (b == 253) return 65536; if (b == 252) return SIZE_MAX - 2; if (b == 251) return 131072 + 4; return t[b & 15]; }
static void exec(const Plan *p) {
	for (int i = 0; i < NT; i++) free(tt[i].img);
	memset(tt, 0, sizeof tt); memset(V, 0, sizeof V);
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i); int w = (int)umod(s->a[0], NT), f = 0; T *x = &tt[w]; int u = (int)umod(s->a[0], 2);
		switch (s->op) {
		case O_NEW: {
			tdrop(w); size_t sz[MF], n = s->bloblen < MF ? s->bloblen : MF; if (!n) break; bool reg = true, big = false, packed = s->a[1] & 1;
			for (size_t k = 0; k < n; k++) { sz[k] = size_of(s->blob[k]); reg &= regular(sz[k]); big |= sz[k] >= 30000; }
			size_t live = sim_live(); bool ok; x->heap = s->a[1] >> 1 & 1;
			sim_arm(s); if (x->heap) { x->t = harbol_tuple_new(n, sz, packed); ok = x->t != NULL; } else if (s->a[1] & 4) { memset(&x->st, 0, sizeof x->st); ok = harbol_tuple_init(&x->st, n, sz, packed); x->t = &x->st; } else { x->st = harbol_tuple_create(n, sz, packed, &ok); x->t = &x->st; }
			f = sim_disarm(); ev("new %d", ok);
			if (!ok) { CHECK(f || big, "tuple:create", "building a tuple of %zu fields failed without a fault", n); sim_leak_check("after a failed tuple", live); if (x->t) { tempty(x->t, "that could not be built"); harbol_tuple_clear(x->t); } x->t = NULL; break; }
			x->packed = packed; x->nf = n; uint8_t *base = x->t->datum; size_t blk = 0, off = 0, mal = 1; CHECK(sim_is_live(base, &blk), "tuple:storage", "fields are not in a live block"); CHECK(blk >= harbol_tuple_len(x->t), "tuple:storage", "tuple of %zu bytes in a block of %zu", harbol_tuple_len(x->t), blk);
			for (size_t k = 0; k < n; k++) {
				x->sz[k] = sz[k]; uint8_t *q = harbol_tuple_get(x->t, k); if (!sz[k]) { x->off[k] = 0; continue; }
				CHECK(q != NULL, "tuple:get", "field %zu of a new tuple unreadable", k); x->off[k] = (size_t)(q - base);
				CHECK(q >= base && x->off[k] + sz[k] <= harbol_tuple_len(x->t), "tuple:bounds", "field %zu (size %zu) at offset %zu leaves the tuple of %zu bytes", k, sz[k], x->off[k], harbol_tuple_len(x->t));
				for (size_t j = k > 40 ? k - 40 : 0; j < k; j++) if (sz[j]) CHECK(x->off[j] + sz[j] <= x->off[k] || x->off[k] + sz[k] <= x->off[j], "tuple:overlap", "fields %zu and %zu overlap", j, k);
				size_t a = packed ? 1 : sz[k] >= 8 ? 8 : sz[k]; if (reg || packed) { off = al(off, a); CHECK(x->off[k] == off, "tuple:layout", "field %zu (size %zu) at offset %zu, a C structure has it at %zu", k, sz[k], x->off[k], off); off += sz[k]; if (a > mal) mal = a; }
			}
			if (reg || packed) CHECK(harbol_tuple_len(x->t) == al(off, mal), "tuple:layout", "tuple of %zu bytes, the C structure has %zu", harbol_tuple_len(x->t), al(off, mal));
			if (!reg) sim_probe(0);
			x->img = malloc(harbol_tuple_len(x->t) + 1); memcpy(x->img, base, harbol_tuple_len(x->t));
			break; }
		case O_SETF: case O_BADF: { if (!x->t) break; size_t k = s->op == O_BADF ? x->nf + umod(s->a[1], 3) : umod(s->a[1], x->nf); if (s->op == O_BADF && s->a[2] % 3 == 0) k = SIZE_MAX;
			static uint8_t big[140000]; size_t m = k < x->nf ? x->sz[k] : 8; for (size_t q = 0; q < m; q++) big[q] = (uint8_t)(mix64((uint64_t)s->a[2] + q / 8) >> (q % 8 * 8));
			void *r = harbol_tuple_set(x->t, k, big); CHECK((r != NULL) == (k < x->nf && x->sz[k]) || (k < x->nf && !x->sz[k]), "tuple:set", "setting field %zu of %zu returned %d", k, x->nf, r != NULL); if (k < x->nf && m) memcpy(x->img + x->off[k], big, m); break; }
		case O_GETF: break;
		case O_STRUCT: { if (!x->t) break; static uint8_t out[300000]; size_t n = harbol_tuple_len(x->t); if (n + 8 > sizeof out) break; memset(out, 0xA7, n + 8); bool r = harbol_tuple_to_struct(x->t, out); CHECK(r || !n, "tuple:struct", "conversion failed"); if (!r) break;
			for (size_t k = 0; k < x->nf; k++) if (x->sz[k]) CHECK(!memcmp(out + x->off[k], x->img + x->off[k], x->sz[k]), "tuple:struct", "field %zu differs in the structure", k); for (int q = 0; q < 8; q++) CHECK(out[n + q] == 0xA7, "tuple:struct", "conversion wrote past the structure"); break; }
		case O_CLEAR: tdrop(w); break;
		case O_VNEW: { vdrop(u); size_t n = vsize(s->a[2]); const uint8_t *b = sim_bytes((uint64_t)s->a[2] * 3, n); int32_t tag = (int32_t)s->a[3]; size_t live = sim_live(); bool ok; V[u].heap = s->a[1] & 1;
			sim_arm(s); if (V[u].heap) { V[u].v = harbol_variant_new(b, n, tag); ok = V[u].v != NULL; } else if (s->a[1] & 2) { memset(&V[u].st, 0, sizeof V[u].st); ok = harbol_variant_init(&V[u].st, b, n, tag); V[u].v = &V[u].st; } else { V[u].st = harbol_variant_make(b, n, tag, &ok); V[u].v = &V[u].st; }
			f = sim_disarm(); ev("new %d", ok); CHECK(ok || f, "variant:create", "creation failed without a fault"); if (!ok) { sim_leak_check("after a failed variant", live); if (!V[u].heap) CHECK(!V[u].st.data && !V[u].st.size && !V[u].st.tag, "variant:create", "a variant that could not be made reports a value of %zu bytes", V[u].st.size); V[u].v = NULL; break; } V[u].d = b; V[u].n = n; V[u].tag = tag; break; }
		case O_VSET: { if (!V[u].v) break; size_t n = vsize(s->a[2]); const uint8_t *b = sim_bytes((uint64_t)s->a[2] * 5, n), *from = b; if (s->a[1] % 5 == 1 && V[u].n) { size_t at = umod(s->a[3], V[u].n); n = 1 + umod(s->a[2], V[u].n - at); b = V[u].d + at; from = (const uint8_t *)harbol_variant_data(V[u].v) + at; } /* a piece of the value it holds */ sim_arm(s); bool r = harbol_variant_set(V[u].v, from, n); f = sim_disarm(); ev("r%d", r); CHECK(r || f, "variant:set", "storing failed without a fault"); if (r) { V[u].d = b; V[u].n = n; } break; }
		case O_VCLEAR: if (V[u].v) { harbol_variant_clear(V[u].v); V[u].n = 0; V[u].tag = 0; CHECK(harbol_variant_data(V[u].v) == NULL, "variant:clear", "cleared variant keeps its value"); } break;
		}
		if (f) sim_probe(1);
		verify(ops[s->op]);
	}
	for (int i = 0; i < NT; i++) tdrop(i); for (int i = 0; i < 2; i++) vdrop(i);
	sim_leak_check("after everything was cleared", 0);
}
static void gen(Rng *r, Plan *p) {
	bool odd = rng_p(r, 1, 3); p->cfg[C_ODD] = odd; unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_NEW] += 2; w[O_SETF] += 3; if (w[O_CLEAR] > 1) w[O_CLEAR] = 1; int n = rng_len(r) + 2;
	for (int i = 0; i < n; i++) {
		int op = rng_op(r, w, NOPS); Step *s = plan_add(p, op, 4, (int64_t)rng_below(r, 6), (int64_t)rng_below(r, 64), (int64_t)rng_below(r, 3000), (int64_t)rng_range(r, -3, 100)); if (!s) break;
		if (op == O_NEW) { uint8_t b[MF]; size_t k = 1 + rng_below(r, rng_p(r, 1, 60) ? 310 : rng_p(r, 1, 5) ? 30 : 6); for (size_t q = 0; q < k; q++) b[q] = (uint8_t)rng_below(r, odd ? (rng_p(r, 1, 3) ? 16 : 14) : 10); if (rng_p(r, 1, 8)) b[rng_below(r, k)] = (uint8_t)rng_range(r, 240, rng_p(r, 1, 2) ? 250 : 255); step_blob(s, b, k); }
	}
}
const Scenario sc_tuple = { "tuple", ops, cfgs, gen, exec, ALLOCF, 3 };
