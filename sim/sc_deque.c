/* C03: deque with node handles against a list model. */
#include "sim.h"
#include "deque/deque.h"
enum { O_APPEND, O_PREPEND, O_POPF, O_POPB, O_RESET, O_CLEAR, O_RENEW, O_DRAIN, O_BULK, NOPS };
static const char *const ops[] = { "append", "prepend", "pop_front", "pop_back", "reset", "clear", "renew", "drain", "bulk", NULL };
enum { C_ALLOC, C_INIT, C_HEAP, C_SZ, C_BIG };
static const char *const cfgs[] = { "alloc", "init", "heap", "sizes", "big", NULL };
#define MAXN 70000
typedef struct { size_t node; uint32_t id; size_t sz; } Ent; static Ent MB[3 * MAXN]; static size_t mh, mn;
#define M (MB + mh) /* mh moves so that popping the front is cheap */
static struct HarbolDeque st, *D; static bool heap, inited;
static size_t mk(const Plan *p, uint32_t id, const uint8_t **o) {
	size_t n = p->cfg[C_SZ] ? 1 + mix64(id) % 40 : 8; static const size_t ln[] = { 254, 255, 256, 257, 511, 513, 1000, 4096, 65535, 65536, 70000 };
	if (p->cfg[C_BIG] == 1 && id % 3) n = ln[mix64(id) % (id % 5 ? 8 : 11)];
	*o = sim_bytes(id, n); return n;
}

static void verify(const Plan *p, const char *after) {
	const uint8_t *b; uint64_t h = 3;
	CHECK(harbol_deque_count(D) == mn, "deque:count", "%s: reports %zu elements, model has %zu", after, harbol_deque_count(D), mn);
	CHECK(harbol_deque_empty(D) == (mn == 0), "deque:empty", "%s: emptiness flag", after);
	if (!inited) return;
	CHECK(harbol_deque_head(D) == (mn ? M[0].node : SIZE_MAX), "deque:head", "%s: head handle", after);
	CHECK(harbol_deque_tail(D) == (mn ? M[mn - 1].node : SIZE_MAX), "deque:tail", "%s: tail handle", after);
	size_t n = harbol_deque_head(D);
	for (size_t i = 0; i < mn; i++) {
		CHECK(n == M[i].node, "deque:walk", "%s: forward walk reaches handle %zu at position %zu, expected %zu", after, n, i, M[i].node);
		uint8_t *d = harbol_deque_get_data(D, n); size_t sz = mk(p, M[i].id, &b);
		CHECK(d != NULL && !memcmp(d, b, sz), "deque:data", "%s: element %zu holds other data", after, i);
		h = mix64(h ^ M[i].id); n = harbol_deque_next(D, n);
	}
	CHECK(n == SIZE_MAX, "deque:walk", "%s: forward walk does not end after %zu elements", after, mn);
	n = harbol_deque_tail(D);
	for (size_t i = mn; i-- > 0;) { CHECK(n == M[i].node, "deque:walk-back", "%s: backward walk reaches handle %zu at position %zu, expected %zu", after, n, i, M[i].node); n = harbol_deque_prev(D, n); }
	CHECK(n == SIZE_MAX, "deque:walk-back", "%s: backward walk does not end", after);
	uint8_t *f = harbol_deque_get_front(D), *k = harbol_deque_get_back(D);
	CHECK((f != NULL) == (mn > 0) && (k != NULL) == (mn > 0), "deque:peek", "%s: peeking at the ends", after);
	if (mn) { size_t s0 = mk(p, M[0].id, &b); CHECK(!memcmp(f, b, s0), "deque:peek", "%s: front", after); s0 = mk(p, M[mn - 1].id, &b); CHECK(!memcmp(k, b, s0), "deque:peek", "%s: back", after); }
	CHECK(harbol_deque_next(D, SIZE_MAX) == SIZE_MAX && harbol_deque_prev(D, SIZE_MAX) == SIZE_MAX && harbol_deque_get_data(D, SIZE_MAX) == NULL && harbol_deque_next(D, D->cap) == SIZE_MAX && harbol_deque_prev(D, D->cap) == SIZE_MAX && harbol_deque_get_data(D, D->cap) == NULL, "deque:end", "%s: end handle", after);
	sim_state(h ^ mn);
}
static void drop(void) {
	if (!D) return;
	if (heap) { harbol_deque_free(&D); CHECK(D == NULL, "deque:free", "free left a dangling reference"); harbol_deque_free(&D); } else harbol_deque_clear(D);
	D = NULL; mn = 0; sim_leak_check("after the deque was cleared", 0);
}
static void create(size_t init, int mode, const Step *s) {
	heap = mode & 1;
	for (int t = 0; t < 2; t++) {
		bool ok; sim_arm(t ? NULL : s);
		if (heap) { D = harbol_deque_new(init); ok = D != NULL; } else if (mode & 2) { memset(&st, 0, sizeof st); ok = harbol_deque_init(&st, init); D = &st; } else { st = harbol_deque_make(init, &ok); D = &st; }
		int f = sim_disarm(); ev("new %zu %d", init, ok);
		CHECK(ok || f, "deque:create", "creation failed without a fault");
		if (ok) break;
		sim_leak_check("after a failed deque creation", 0);
	}
	mn = 0; inited = true;
}
static void exec(const Plan *p) {
	D = NULL; mn = 0; mh = MAXN; create(umod(p->cfg[C_INIT], 200), (int)p->cfg[C_HEAP], NULL); verify(p, "create");
	uint32_t seq = 0;
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i); const uint8_t *b; static uint8_t g[70001]; int f = 0; bool r;
		switch (s->op) {
		case O_APPEND: case O_PREPEND: {
			if (mn >= MAXN) break;
			uint32_t id = seq++; size_t sz = mk(p, id, &b);
			sim_arm(s); size_t n = s->op == O_APPEND ? harbol_deque_append(D, b, sz) : harbol_deque_prepend(D, b, sz); f = sim_disarm(); ev("push %d", n != SIZE_MAX);
			CHECK(n != SIZE_MAX || f, "deque:push", "push failed without a fault");
			if (n != SIZE_MAX) {
				inited = true;
				for (size_t q = 0; q < mn; q++) CHECK(M[q].node != n, "deque:handle", "push returned the handle of a live element");
				size_t at = s->op == O_APPEND ? mn : 0; if (!at && mh) mh--; else memmove(&M[at + 1], &M[at], (mn - at) * sizeof *M); mn++; M[at].node = n; M[at].id = id; M[at].sz = sz;
			}
			break; }
		case O_BULK: { size_t cnt = 1 + umod(s->a[0], 66000); if (p->cfg[C_BIG] != 3) cnt %= 700; sim_arm(s);
			for (size_t q = 0; q < cnt && mn < MAXN; q++) { uint32_t id = seq++; size_t sz = mk(p, id, &b); int f0 = sim_fired_any(); size_t n = harbol_deque_append(D, b, sz); CHECK(n != SIZE_MAX || sim_fired_any() > f0, "deque:push", "one of many pushes failed without a fault"); if (n != SIZE_MAX) { inited = true; M[mn].node = n; M[mn].id = id; M[mn++].sz = sz; } else break; }
			f = sim_disarm(); ev("bulk %zu", mn); break; }
		case O_POPF: case O_POPB: case O_DRAIN: {
			size_t times = s->op == O_DRAIN ? mn + 1 : 1;
			for (size_t t = 0; t < times; t++) {
				bool front = s->op == O_POPF || (s->op == O_DRAIN && (mix64((uint64_t)s->a[0] + t) & (s->a[0] % 3 == 0 ? 1 : s->a[0] % 3 == 1 ? 0 : ~0ull)) == 0);
				size_t at = front ? 0 : mn - 1, sz = mn ? mk(p, M[at].id, &b) : 8; memset(g, 0xEE, sz);
				r = front ? harbol_deque_pop_front(D, g, sz) : harbol_deque_pop_back(D, g, sz);
				CHECK(r == (mn > 0), "deque:pop", "pop on %zu elements returned %d", mn, r);
				if (r) { CHECK(!memcmp(g, b, sz), "deque:pop", "popped another element"); if (!at) mh++; else memmove(&M[at], &M[at + 1], (mn - at - 1) * sizeof *M); mn--; if (!mn) mh = MAXN; else if (mh > 2 * MAXN - 2) { memmove(MB + MAXN, M, mn * sizeof *M); mh = MAXN; } }
			}
			if (mn == 0) { sim_probe(0); CHECK(sim_live() <= (size_t)(heap ? 4 : 3), "deque:drain-leak", "%zu blocks held by a drained deque", sim_live()); }
			break; }
		case O_RESET: if (!inited) break; harbol_deque_reset(D); mn = 0; break;
		case O_CLEAR: sim_arm(s); harbol_deque_clear(D); sim_disarm(); mn = 0; inited = false; sim_leak_check("after clear", heap ? 1 : 0);
			if (s->a[0] & 1) { bool ok = harbol_deque_init(D, umod(s->a[0], 9)); CHECK(ok, "deque:create", "re-initialising a cleared deque failed"); inited = true; }
			else { CHECK(!harbol_deque_pop_front(D, g, 1) && !harbol_deque_pop_back(D, g, 1) && !harbol_deque_get_front(D) && !harbol_deque_get_back(D), "deque:cleared", "cleared deque yields an element"); }
			break;
		case O_RENEW: drop(); create(umod(s->a[0], 20), (int)(s->a[0] >> 5 & 3), s); break;
		}
		if (f) sim_probe(1);
		verify(p, ops[s->op]);
	}
	drop();
}
static void gen(Rng *r, Plan *p) {
	p->cfg[C_INIT] = rng_p(r, 1, 3) ? (int64_t)rng_below(r, 3) : (int64_t)rng_below(r, 20); p->cfg[C_HEAP] = (int64_t)rng_below(r, 4); p->cfg[C_SZ] = (int64_t)rng_below(r, 2); p->cfg[C_BIG] = rng_p(r, 1, 30) ? 1 : rng_p(r, 1, 60) ? 2 : rng_p(r, 1, 2000) ? 3 : 0;
	unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_APPEND] += rng_below(r, 5); w[O_PREPEND] += rng_below(r, 5); w[O_POPF] += rng_below(r, 5); w[O_POPB] += rng_below(r, 5); w[O_APPEND]++;
	if (w[O_RESET] > 1) w[O_RESET] = 1; if (w[O_CLEAR] > 1) w[O_CLEAR] = 1; if (w[O_RENEW] > 1) w[O_RENEW] = 1; if (w[O_DRAIN] > 2) w[O_DRAIN] = 2;
	w[O_BULK] = p->cfg[C_BIG] > 1 ? 6 : 0; int n = rng_len(r) + 2; if (p->cfg[C_BIG]) n = n % 14 + 2; if (p->cfg[C_BIG] == 3) n = n % 5 + 1; for (int i = 0; i < n; i++) plan_add(p, rng_op(r, w, NOPS), 1, (int64_t)rng_below(r, p->cfg[C_BIG] == 3 ? 66000 : p->cfg[C_BIG] == 2 ? 700 : 256));
}
const Scenario sc_deque = { "deque", ops, cfgs, gen, exec, ALLOCF, 3, 400u * 1000 * 1000 };
