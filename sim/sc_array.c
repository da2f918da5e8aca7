/* C02: growable array against a sequence model (two arrays, so that concatenation and copying are covered). */
#include "sim.h"
#include "array/array.h"

enum { O_INSERT, O_APPEND, O_POP, O_POPEX, O_PEEK, O_GET, O_SET, O_SWAP, O_SHIFT, O_COUNT, O_FIND, O_DELI, O_DELR, O_DELV,
       O_GROW, O_RESIZE, O_SHRINK, O_WIPE, O_ADD, O_COPY, O_FILL, O_CLEAR, O_RENEW, O_ADOPT, O_BULK, NOPS };
static const char *const ops[] = { "insert", "append", "pop", "pop_ex", "peek", "get", "set", "swap", "shift_up", "count", "find", "del_index", "del_range", "del_val",
	"grow", "resize", "shrink", "wipe", "add", "copy", "fill", "clear", "renew", "adopt", "bulk", NULL };
enum { C_ALLOC, C_DS, C_INIT, C_NVALS, C_HEAP, C_BIG };
static const char *const cfgs[] = { "alloc", "datasize", "init", "nvals", "heap", "big", NULL };

#define MAXN 140000
#define MAXDS 1100
static size_t ds, capv; static bool lite; static int style;
typedef struct { uint16_t v[MAXN]; size_t n; } Mod;     /* value ids; the bytes are a function of the id */
static Mod M[2];
static struct HarbolArray st[2], *A[2];
static bool on_heap[2];

/* values may differ everywhere, or only in their last or first bytes */
static void mk(uint16_t id, uint8_t *o) { if (style && ds > 1) { memset(o, 0x21, ds); size_t at = style == 1 ? ds - 2 : style == 2 ? 0 : ds / 2 - 1; o[at] = (uint8_t)(id >> 8); o[at + 1] = (uint8_t)id; return; } for (size_t i = 0; i < ds; i++) o[i] = (uint8_t)(mix64((uint64_t)id * 977 + i / 3) >> 5); o[ds - 1] = (uint8_t)id; if (ds > 1) o[0] = (uint8_t)(id >> 8); }

static void verify(int w, const char *after) {
	struct HarbolArray const *a = A[w]; Mod *m = &M[w]; uint8_t b[MAXDS], g[MAXDS]; uint64_t h = ds;
	CHECK(harbol_array_len(a) == m->n, "array:length", "%s: length %zu, model %zu", after, harbol_array_len(a), m->n);
	CHECK(a->len <= a->cap, "array:capacity", "%s: length %zu exceeds capacity %zu", after, a->len, a->cap);
	CHECK(harbol_array_cap(a) == a->cap, "array:capacity", "%s: capacity getter", after);
	for (size_t i = 0; i < m->n; i++) {
		if (lite && i > 600 && i + 600 < m->n && (i & 255) > 3) continue; /* huge arrays: both ends in full, samples between */
		mk(m->v[i], b); uint8_t *p = harbol_array_get(a, i, ds);
		CHECK(p != NULL, "array:get", "%s: element %zu of %zu unreadable", after, i, m->n);
		CHECK(!memcmp(p, b, ds), "array:element", "%s: element %zu differs from the model", after, i);
		CHECK(harbol_array_get_ex(a, i, g, ds) && !memcmp(g, b, ds), "array:element", "%s: copied-out element %zu differs", after, i);
		h = mix64(h ^ m->v[i]);
	}
	CHECK(harbol_array_get(a, m->n, ds) == NULL && harbol_array_get(a, SIZE_MAX, ds) == NULL, "array:get", "%s: element past the end is readable", after);
	CHECK(!harbol_array_get_ex(a, m->n, g, ds), "array:get", "%s: element past the end is copied out", after);
	CHECK(harbol_array_empty(a) == (m->n == 0), "array:empty", "%s: emptiness flag", after);
	CHECK(harbol_array_full(a) == (m->n >= a->cap), "array:full", "%s: fullness flag", after);
	uint8_t *p = harbol_array_peek(a, ds); memset(g, 0x5A, ds); bool pe = harbol_array_peek_ex(a, g, ds);
	CHECK((p != NULL) == (m->n > 0) && pe == (m->n > 0), "array:peek", "%s: peek", after);
	if (m->n) { mk(m->v[m->n - 1], b); CHECK(!memcmp(p, b, ds) && !memcmp(g, b, ds), "array:peek", "%s: peek returns another element", after); }
	if (a->table && m->n) CHECK(*(uint8_t *const *)harbol_array_data(a) == a->table, "array:data", "%s: data pointer", after);
	sim_state(h);
}
static void drop(int w) {
	if (!A[w]) return;
	if (on_heap[w]) { harbol_array_cleanup(&A[w]); CHECK(A[w] == NULL, "array:free", "cleanup left a dangling reference"); harbol_array_cleanup(&A[w]); }
	else { harbol_array_clear(A[w]); CHECK(A[w]->len == 0 && A[w]->cap == 0, "array:clear", "cleared array not empty"); harbol_array_clear(A[w]); }
	A[w] = NULL; M[w].n = 0;
}
static void create(int w, size_t init, int mode, const Step *s) {
	size_t live = sim_live();
	for (int t = 0; t < 2; t++) {
		bool ok; sim_arm(t == 0 ? s : NULL);
		on_heap[w] = mode & 1;
		if (mode & 1) { A[w] = harbol_array_new(ds, init); ok = A[w] != NULL; }
		else if (mode & 2) { memset(&st[w], 0, sizeof st[w]); ok = harbol_array_init(&st[w], ds, init); A[w] = &st[w]; }
		else { st[w] = harbol_array_make(ds, init, &ok); A[w] = &st[w]; }
		int f = sim_disarm(); ev("new %zu %d", init, ok);
		CHECK(ok || f, "array:create", "creation failed without a fault");
		if (ok) { CHECK(A[w]->cap >= init, "array:create", "capacity %zu below the requested %zu", A[w]->cap, init); break; }
		sim_leak_check("after a failed array creation", live);
	}
	M[w].n = 0;
}
static size_t idx_of(const Step *s, size_t n) { return s->a[1] == -1 ? SIZE_MAX : s->a[1] == -2 ? n : s->a[1] == -3 ? (n ? n - 1 : 0) : umod(s->a[1], n + 2); }
static void rm(Mod *m, size_t at, size_t k) { memmove(&m->v[at], &m->v[at + k], (m->n - at - k) * sizeof m->v[0]); m->n -= k; }

static void exec(const Plan *p) {
	ds = 1 + umod(p->cfg[C_DS] - 1, MAXDS); lite = p->cfg[C_BIG] > 1; style = (int)(p->cfg[C_HEAP] >> 4 & 3); capv = p->cfg[C_BIG] > 1 ? 70000 : p->cfg[C_BIG] ? 3000 : 512; size_t capm = capv + 100;
	A[0] = A[1] = NULL; M[0].n = M[1].n = 0;
	for (int w = 0; w < 2; w++) { create(w, umod(p->cfg[C_INIT], 1000), (int)p->cfg[C_HEAP] >> (2 * w), NULL); verify(w, "create"); }
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i);
		int w = (int)umod(s->a[0], 2); struct HarbolArray *a = A[w]; Mod *m = &M[w];
		uint16_t id = (uint16_t)umod(s->a[2], (size_t)(p->cfg[C_NVALS] > 0 ? p->cfg[C_NVALS] : 1)); uint8_t b[MAXDS], g[MAXDS], c[MAXDS]; mk(id, b);
		size_t ix = idx_of(s, m->n); bool r = true; int f = 0; size_t cap0 = a->cap, n0 = m->n;
		switch (s->op) {
		case O_INSERT: case O_APPEND: {
			bool fit = m->n < a->cap && m->n < MAXN; if (m->n >= MAXN) break;
			sim_arm(s); size_t at = m->n; if (s->op == O_INSERT) r = harbol_array_insert(a, b, ds); else { at = harbol_array_append(a, b, ds); r = at != SIZE_MAX; } f = sim_disarm();
			ev("insert %d", r);
			CHECK(r || f || !fit, "array:insert", "inserting below capacity failed");
			if (r) { CHECK(at == m->n, "array:append", "append returned position %zu, expected %zu", at, m->n); m->v[m->n++] = id; }
			break; }
		case O_POP: { uint8_t *q = harbol_array_pop(a, ds); CHECK((q != NULL) == (m->n > 0), "array:pop", "pop on %zu elements", m->n);
			if (q) { mk(m->v[--m->n], g); CHECK(!memcmp(q, g, ds), "array:pop", "pop returned another element"); } break; }
		case O_POPEX: memset(c, 0, sizeof c); r = harbol_array_pop_ex(a, c, ds); CHECK(r == (m->n > 0), "array:pop", "pop_ex on %zu elements returned %d", m->n, r);
			if (r) { mk(m->v[--m->n], g); CHECK(!memcmp(c, g, ds), "array:pop", "pop_ex returned another element"); } break;
		case O_PEEK: case O_GET: break;
		case O_SET: r = harbol_array_set(a, ix, b, ds); CHECK(r == (ix < m->n), "array:set", "set at %zu of %zu returned %d", ix, m->n, r); if (r) m->v[ix] = id; break;
		case O_SWAP: r = harbol_array_swap(a, ds); CHECK(r || !a->table, "array:swap", "reversing the elements reported failure"); for (size_t q = 0; q < m->n / 2; q++) { uint16_t t = m->v[q]; m->v[q] = m->v[m->n - 1 - q]; m->v[m->n - 1 - q] = t; } break;
		case O_SHIFT: case O_DELR: {
			size_t k = s->a[3] < 0 ? SIZE_MAX - umod(s->a[3], 8) : umod(s->a[3], p->cfg[C_BIG] ? capv : 12);
			r = s->op == O_SHIFT ? harbol_array_shift_up(a, ix, ds, k) : harbol_array_del_by_range(a, ix, ds, k);
			ev("rm %zu+%zu %d", ix, k, r);
			CHECK(m->n == 0 || r == (ix < m->n), "array:delete", "removing %zu at %zu of %zu returned %d", k, ix, m->n, r);
			if (ix < m->n) { if (k == 0) k = 1; if (k > m->n - ix) k = m->n - ix; rm(m, ix, k); }
			break; }
		case O_DELI: r = harbol_array_del_by_index(a, ix, ds); CHECK(r == (ix < m->n), "array:delete", "deleting %zu of %zu returned %d", ix, m->n, r); if (ix < m->n) rm(m, ix, 1); break;
		case O_DELV: { size_t q; for (q = 0; q < m->n; q++) { mk(m->v[q], g); if (!memcmp(g, b, ds)) break; }
			r = harbol_array_del_by_val(a, b, ds); CHECK(r == (q < m->n), "array:delete", "deleting a value returned %d", r); if (q < m->n) rm(m, q, 1); break; }
		case O_COUNT: { size_t q = 0; for (size_t j = 0; j < m->n; j++) { mk(m->v[j], g); q += !memcmp(g, b, ds); } size_t got = harbol_array_item_count(a, b, ds); CHECK(got == q, "array:count", "counted %zu, expected %zu", got, q); break; }
		case O_FIND: { size_t q; for (q = ix; q < m->n; q++) { mk(m->v[q], g); if (!memcmp(g, b, ds)) break; } if (q >= m->n) q = SIZE_MAX;
			size_t got = harbol_array_index_of(a, b, ds, ix); CHECK(got == q, "array:find", "found at %zu, expected %zu (from %zu)", got, q, ix); break; }
		case O_GROW: if (a->cap >= capv) break;
			sim_arm(s); r = harbol_array_grow(a, ds); f = sim_disarm(); ev("grow %d", r);
			CHECK(r || f, "array:grow", "growing failed without a fault"); CHECK(r == (a->cap > cap0), "array:grow", "grow returned %d but capacity went %zu to %zu", r, cap0, a->cap); break;
		case O_RESIZE: {
			size_t nc = s->a[3] < 0 ? SIZE_MAX - umod(s->a[3], 8) : umod(s->a[3], p->cfg[C_BIG] ? capm : 300);
			sim_arm(s); r = harbol_array_resize(a, ds, nc); f = sim_disarm(); ev("resize %zu %d", nc, r);
			CHECK(r == (a->cap != cap0), "array:resize", "resize returned %d but capacity went %zu to %zu", r, cap0, a->cap);
			if (nc < capm && !f && cap0) CHECK(a->cap >= nc, "array:resize", "capacity %zu after resizing to %zu", a->cap, nc);
			if (!r && a->cap == cap0) break;
			if (a->cap < m->n) { CHECK(a->len == a->cap, "array:resize", "length %zu at capacity %zu after shrinking below the contents", a->len, a->cap); m->n = a->len; }
			break; }
		case O_SHRINK: sim_arm(s); r = harbol_array_shrink(a, ds, s->a[3] & 1); f = sim_disarm(); ev("shrink %d", r);
			CHECK(r || f || !m->n || cap0 <= 64 || (s->a[3] & 1 ? m->n : m->n * 4) >= cap0, "array:shrink", "shrinking %zu elements in a capacity of %zu failed without a fault", m->n, cap0); CHECK(r == (a->cap < cap0), "array:shrink", "shrink returned %d but capacity went %zu to %zu", r, cap0, a->cap); CHECK(a->cap <= cap0, "array:shrink", "shrinking enlarged the capacity from %zu to %zu", cap0, a->cap);
			if (r && (s->a[3] & 1)) CHECK(a->cap == m->n, "array:shrink", "exact shrink left capacity %zu for %zu elements", a->cap, m->n);
			break;
		case O_WIPE: harbol_array_wipe(a, ds); m->n = 0; break;
		case O_ADD: {
			int o = s->a[3] % 5 == 0 ? w : 1 - w; size_t k = M[o].n; size_t sum = m->n + k; if (sum > MAXN) break;
			r = harbol_array_add(a, A[o], ds); ev("add %d", r);
			CHECK(!r || sum <= cap0, "array:add", "concatenation beyond capacity reported success");
			CHECK(r || sum >= cap0 || !a->table || !A[o]->table, "array:add", "concatenation of %zu+%zu into capacity %zu failed", m->n, k, cap0);
			if (r) { memmove(&m->v[m->n], M[o].v, k * sizeof m->v[0]); m->n = sum; }
			break; }
		case O_COPY: {
			int o = s->a[3] % 5 == 0 ? w : 1 - w; r = harbol_array_copy(a, A[o], ds); ev("copy %d", r);
			CHECK(r || a->table == NULL || A[o]->table == NULL, "array:copy", "copy failed");
			if (r && o != w) { m->n = M[o].n < cap0 ? M[o].n : cap0; memcpy(m->v, M[o].v, m->n * sizeof m->v[0]); }
			break; }
		case O_FILL: if (a->cap > capm) break; r = harbol_array_fill(a, b, ds); CHECK(r || cap0 == 0, "array:fill", "fill failed"); if (r) { m->n = a->cap; for (size_t q = 0; q < m->n; q++) m->v[q] = id; } break;
		case O_BULK: { size_t k = 1 + umod(s->a[3], capv); if (m->n + k >= MAXN) break; sim_arm(s); /* many elements in a row, growing on demand */
			for (size_t q = 0; q < k; q++) { int f0 = sim_fired_any(); if (a->len >= a->cap && !harbol_array_grow(a, ds)) { CHECK(sim_fired_any() > f0, "array:grow", "growing failed without a fault"); break; } id = (uint16_t)(umod(s->a[2], 600) + q); mk(id, b); r = harbol_array_insert(a, b, ds); CHECK(r || sim_fired_any() > f0, "array:insert", "inserting one of many failed without a fault"); if (r) m->v[m->n++] = id; }
			f = sim_disarm(); ev("bulk %zu", m->n); break; }
		case O_CLEAR: sim_arm(s); harbol_array_clear(a); sim_disarm(); m->n = 0; break;
		case O_RENEW: drop(w); create(w, umod(s->a[1], 70), (int)(s->a[3] & 3), s); break;
		case O_ADOPT: {  /* take over a caller's buffer */
			drop(w); size_t cap = 1 + umod(s->a[1], 20), n = umod(s->a[3], cap + 1); uint8_t *buf = sim_malloc(cap * ds);
			for (size_t q = 0; q < n; q++) { M[w].v[q] = (uint16_t)(q % 7); mk((uint16_t)(q % 7), buf + q * ds); }
			sim_arm(s);
			if (s->a[2] & 1) { A[w] = harbol_array_new_from_array(buf, cap, n); on_heap[w] = true; } else { st[w] = harbol_array_make_from_array(buf, cap, n); A[w] = &st[w]; on_heap[w] = false; }
			f = sim_disarm();
			if (A[w] == NULL) { CHECK(f, "array:create", "adopting a buffer failed without a fault"); sim_free(buf); create(w, 4, 1, NULL); } else M[w].n = n;
			break; }
		}
		if (s->op != O_RENEW && s->op != O_ADOPT) {
			CHECK(harbol_array_len_diff(A[0], A[1]) == (M[0].n > M[1].n ? M[0].n - M[1].n : M[1].n - M[0].n), "array:diff", "length difference");
			CHECK(harbol_array_cap_diff(A[0], A[1]) == (A[0]->cap > A[1]->cap ? A[0]->cap - A[1]->cap : A[1]->cap - A[0]->cap), "array:diff", "capacity difference");
		}
		if (f) { sim_probe(1); (void)n0; }
		verify(0, ops[s->op]); verify(1, ops[s->op]);
	}
	drop(0); drop(1);
	sim_leak_check("after the arrays were cleared", 0);
}
static void gen(Rng *r, Plan *p) {
	static const int64_t sz[] = { 1, 2, 3, 4, 4, 8, 8, 12, 16, 24, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1024 };
	p->cfg[C_DS] = sz[rng_below(r, rng_p(r, 1, 10) ? 22 : 12)]; p->cfg[C_BIG] = rng_p(r, 1, 60) ? 1 : rng_p(r, 1, 700) ? 2 : 0; if (p->cfg[C_BIG] > 1) p->cfg[C_DS] = sz[rng_below(r, 8)]; p->cfg[C_INIT] = rng_p(r, 1, 2) ? (int64_t)rng_below(r, 6) : (int64_t)rng_below(r, 40); p->cfg[C_NVALS] = rng_p(r, 1, 2) ? rng_range(r, 1, 5) : rng_range(r, 5, 600); p->cfg[C_HEAP] = (int64_t)rng_below(r, 16) + (rng_p(r, 1, 3) ? 16 * rng_range(r, 1, 3) : 0);
	unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_INSERT] += 5; w[O_APPEND] += 3; w[O_GROW] += 2; if (w[O_CLEAR] > 1) w[O_CLEAR] = 1; if (w[O_WIPE] > 1) w[O_WIPE] = 1; if (w[O_RENEW] > 1) w[O_RENEW] = 1; if (w[O_ADOPT] > 1) w[O_ADOPT] = 1;
	int n = rng_len(r) + 4; w[O_BULK] = p->cfg[C_BIG] ? 6 : 0; if (p->cfg[C_BIG]) n = n % 10 + 3; bool one = rng_p(r, 1, 2);
	for (int i = 0; i < n; i++) {
		int op = rng_op(r, w, NOPS);
		int64_t ix = rng_p(r, 1, 16) ? -1 : rng_p(r, 1, 10) ? -2 : rng_p(r, 1, 8) ? -3 : (int64_t)rng_below(r, p->cfg[C_BIG] ? 66000 : 64);
		int64_t x = rng_p(r, 1, 16) ? -(int64_t)rng_below(r, 8) - 1 : (int64_t)rng_below(r, p->cfg[C_BIG] > 1 ? 70000 : p->cfg[C_BIG] ? 3000 : rng_p(r, 1, 4) ? 300 : 12);
		plan_add(p, op, 4, (int64_t)(one ? rng_p(r, 1, 6) : rng_below(r, 2)), ix, (int64_t)rng_below(r, 600), x);
	}
}
const Scenario sc_array = { "array", ops, cfgs, gen, exec, ALLOCF, 3, 400u * 1000 * 1000 };
