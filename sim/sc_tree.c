/* C06: rooted ordered trees against a model. */
#include "sim.h"
#include "tree/tree.h"
enum { O_INSV, O_INSN, O_INSSUB, O_SET, O_RMV, O_RMN, O_RMI, O_FIND, O_CLEARN, O_CLEARROOT, O_RENEW, O_BULK, O_NOTHING, O_CHAIN, NOPS };
static const char *const ops[] = { "insert_val", "insert_node", "insert_subtree", "set", "rm_val", "rm_node", "rm_index", "find", "clear_node", "clear_root", "renew", "bulk", "nothing", "chain", NULL };
enum { C_ALLOC, C_HEAP, C_VALS, C_FAN, C_BIG, C_DEEP };
static const char *const cfgs[] = { "alloc", "heap", "vals", "fan", "big", "deep", NULL };
#define MAXT 3600 /* of a deep tree; others stay below 700 nodes */
#define MAXK 600
typedef struct { bool used; struct HarbolTree *p; const uint8_t *d; size_t n; int kids[MAXK], nk, depth; } Node;
static Node N[MAXT]; static struct HarbolTree st; static bool heap; static int64_t nvals, big_vals; static int maxt = MAXT, maxd;
static size_t mk(int64_t v, const uint8_t **out) {
	static uint8_t tab[1024][48]; static uint8_t len[1024];
	if (v < 0) v = -(v + 1); v %= nvals;
	if (big_vals && v % 3) { static const size_t ln[] = { 254, 255, 256, 257, 300, 512, 1000, 4096, 65535, 65536, 65537, 70000 }; *out = sim_bytes((uint64_t)v / 24, 70000); return ln[v % (big_vals > 1 ? 12 : 8)]; }
	if (!len[v]) { uint8_t *o = tab[v]; size_t n = v % 3 == 0 ? 8 : 1 + (size_t)(mix64((uint64_t)v / 2) % 40); for (size_t i = 0; i < n; i++) o[i] = (uint8_t)(mix64((uint64_t)v / 2 * 77 + i) >> 9); if (v & 1) o[n - 1] ^= 0x55; len[v] = (uint8_t)n; }
	*out = tab[v]; return len[v];
}
static int newn(void) { for (int i = 1; i < maxt; i++) if (!N[i].used) { memset(&N[i], 0, sizeof N[i]); N[i].used = true; return i; } sim_violation("sim-internal", "node table full"); }
static int count_used(void) { int c = 0; for (int i = 0; i < maxt; i++) c += N[i].used; return c; }
static void forget(int i) { for (int k = 0; k < N[i].nk; k++) forget(N[i].kids[k]); N[i].used = false; N[i].nk = 0; }
static void unlink_kid(int i, int k) { memmove(&N[i].kids[k], &N[i].kids[k + 1], (size_t)(N[i].nk - k - 1) * sizeof(int)); N[i].nk--; }
static size_t owned;
static void walk(int i, const char *after) {
	Node *m = &N[i]; struct HarbolTree *t = m->p; uint8_t *d = harbol_tree_get(t);
	CHECK(harbol_tree_len(t) == m->n, "tree:length", "%s: node holds %zu bytes, model %zu", after, harbol_tree_len(t), m->n);
	CHECK((d != NULL) == (m->n > 0) && (m->n == 0 || !memcmp(d, m->d, m->n)), "tree:data", "%s: node data differs", after);
	owned += (i > 0 || heap) + (t->data != NULL) + (t->kids.table != NULL);
	for (int k = 0; k < m->nk; k++) { CHECK(harbol_tree_get_node_by_index(t, (size_t)k) == N[m->kids[k]].p, "tree:children", "%s: child %d of %d is another node", after, k, m->nk); walk(m->kids[k], after); }
	CHECK(harbol_tree_get_node_by_index(t, (size_t)m->nk) == NULL, "tree:children", "%s: child past the last", after);
}
static uint64_t shape(int i) { uint64_t h = N[i].n; for (int k = 0; k < N[i].nk; k++) h = mix64(h ^ shape(N[i].kids[k])); return h + 1; }
static void verify(const char *after) { owned = 0; walk(0, after); CHECK(sim_live() == owned, "leak", "after %s: %zu blocks live, the tree owns %zu", after, sim_live(), owned); sim_state(shape(0)); }
static void drop(void) { if (heap) { harbol_tree_free(&N[0].p); CHECK(!N[0].p, "tree:free", "free left a dangling reference"); harbol_tree_free(&N[0].p); } else { harbol_tree_clear(&st); harbol_tree_clear(&st); } forget(0); sim_leak_check("after the tree was cleared", 0); }
static void create(int mode, int64_t v, const Step *s) {
	heap = mode & 1; memset(&N[0], 0, sizeof N[0]); N[0].used = true; N[0].n = mk(v, &N[0].d);
	for (int t = 0; t < 2; t++) {
		bool ok; sim_arm(t ? NULL : s); if (heap) { N[0].p = harbol_tree_new(N[0].d, N[0].n); ok = N[0].p != NULL; } else { memset(&st, 0, sizeof st); ok = harbol_tree_init(&st, N[0].d, N[0].n); N[0].p = &st; }
		int f = sim_disarm(); CHECK(ok || f, "tree:create", "creation failed without a fault"); if (ok) break; sim_leak_check("after a failed tree creation", 0);
	}
}
static int pick(int64_t a) { int live[MAXT], n = 0; for (int i = 0; i < maxt; i++) if (N[i].used) live[n++] = i; return live[umod(a, (size_t)n)]; }
static int findv(int i, const uint8_t *b, size_t n) { for (int k = 0; k < N[i].nk; k++) { Node *c = &N[N[i].kids[k]]; if (c->n == n && !memcmp(c->d, b, n)) return k; } return -1; }
static void exec(const Plan *p) {
	for (int i = 0; i < MAXT; i++) N[i].used = false; maxt = p->cfg[C_DEEP] ? MAXT : 700; maxd = p->cfg[C_DEEP] ? 3200 : 40; nvals = p->cfg[C_VALS] > 0 ? p->cfg[C_VALS] % 1001 : 1; if (!nvals) nvals = 1; big_vals = p->cfg[C_BIG];
	create((int)p->cfg[C_HEAP], 0, NULL); verify("create");
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i); int f = 0; bool r;
		int x = p->cfg[C_FAN] && s->a[0] % 4 ? 0 : pick(s->a[0]); Node *m = &N[x]; const uint8_t *b; size_t n = mk(s->a[1], &b); const uint8_t *own = NULL; if (m->n && (s->op == O_INSV || s->op == O_SET || s->op == O_FIND) && s->a[2] % 13 == 5) { own = harbol_tree_get(m->p); b = m->d; n = m->n; if (s->a[1] & 1 && n > 1) { own++; b++; n--; } } /* data the node itself holds */
		switch (s->op) {
		case O_INSV: { if (m->nk >= MAXK || m->depth > maxd || count_used() > maxt - 10) break; sim_arm(s); r = harbol_tree_insert_val(m->p, own ? own : b, n); f = sim_disarm(); ev("r%d", r); CHECK(r || f, "tree:insert", "inserting a value failed without a fault");
			if (r) { int c = newn(); N[c].n = n; N[c].d = b; N[c].depth = m->depth + 1; N[c].p = harbol_tree_get_node_by_index(m->p, (size_t)m->nk); CHECK(N[c].p, "tree:insert", "inserted child not found at the end"); m->kids[m->nk++] = c; } break; }
		case O_INSN: case O_INSSUB: {
			if (m->nk >= MAXK || m->depth > maxd || count_used() > maxt - 10) break; struct HarbolTree *t = harbol_tree_new(b, n); CHECK(t, "tree:create", "creation failed without a fault"); int c = newn(); N[c].n = n; N[c].d = b; N[c].p = t; N[c].depth = m->depth + 1;
			if (s->op == O_INSSUB) for (int k = 0; k < 1 + (int)umod(s->a[2], 3); k++) { const uint8_t *kb; size_t kn = mk(s->a[1] + k + 1, &kb); CHECK(harbol_tree_insert_val(t, kb, kn), "tree:insert", "inserting failed without a fault"); int g = newn(); N[g].n = kn; N[g].d = kb; N[g].depth = m->depth + 2; N[g].p = harbol_tree_get_node_by_index(t, (size_t)k); N[c].kids[N[c].nk++] = g; }
			sim_arm(s); r = harbol_tree_insert_node(m->p, &t); f = sim_disarm(); ev("r%d", r); CHECK(r || f, "tree:insert", "inserting a node failed without a fault");
			if (r) m->kids[m->nk++] = c; else { CHECK(t == N[c].p, "tree:insert", "failed insertion took the node"); harbol_tree_free(&t); forget(c); } break; }
		case O_BULK: { size_t cnt = 1 + umod(s->a[2], 500); sim_arm(s); /* many children of one node */
			for (size_t q = 0; q < cnt && m->nk < MAXK && m->depth <= maxd && count_used() < maxt - 10; q++) { n = mk(s->a[1] + (int64_t)q, &b); int f0 = sim_fired_any(); r = harbol_tree_insert_val(m->p, b, n); CHECK(r || sim_fired_any() > f0, "tree:insert", "inserting one of many values failed without a fault"); if (!r) continue;
				int c = newn(); N[c].n = n; N[c].d = b; N[c].depth = m->depth + 1; N[c].p = harbol_tree_get_node_by_index(m->p, (size_t)m->nk); CHECK(N[c].p, "tree:insert", "inserted child not found at the end"); m->kids[m->nk++] = c; }
			f = sim_disarm(); ev("n%d", m->nk); break; }
		case O_SET: sim_arm(s); r = harbol_tree_set(m->p, own ? own : b, n); f = sim_disarm(); ev("r%d", r); CHECK(r || f, "tree:set", "setting data failed without a fault"); if (r) { m->n = n; m->d = b; } break;
		case O_RMV: { int k = findv(x, b, n); r = harbol_tree_rm_val(m->p, b, n); CHECK(r == (k >= 0), "tree:remove", "removing a value returned %d, expected %d", r, k >= 0); if (k >= 0) { sim_probe(0); forget(m->kids[k]); unlink_kid(x, k); } break; }
		case O_RMN: { if (m->nk == 0 || s->a[2] % 9 == 0) { struct HarbolTree *t = N[0].p; if (findv(x, NULL, 0) >= 0) break; r = harbol_tree_rm_node(m->p, &t); CHECK(!r && t == N[0].p, "tree:remove", "removing a node that is not a child reported success"); break; }
			int k = (int)umod(s->a[2], (size_t)m->nk); struct HarbolTree *t = N[m->kids[k]].p, **tr = s->a[2] % 5 == 3 ? harbol_array_get(&m->p->kids, (size_t)k, sizeof t) : &t; /* named by the caller's own pointer, or by the parent's */ r = harbol_tree_rm_node(m->p, tr); CHECK(r && (tr != &t || t == NULL), "tree:remove", "removing a child node returned %d", r); forget(m->kids[k]); unlink_kid(x, k); sim_probe(0); break; }
		case O_CHAIN: { size_t cnt = 1 + umod(s->a[1] * 3 + s->a[2], maxd > 100 ? 3000 : 30); sim_arm(s); int at = x; /* each the only new child of the one before */
			for (size_t q = 0; q < cnt && N[at].nk < MAXK && N[at].depth <= maxd && count_used() < maxt - 10; q++) { n = mk(s->a[1] + (int64_t)q, &b); int f0 = sim_fired_any(); r = harbol_tree_insert_val(N[at].p, b, n); CHECK(r || sim_fired_any() > f0, "tree:insert", "inserting one of a chain failed without a fault"); if (!r) break;
				int c = newn(); N[c].n = n; N[c].d = b; N[c].depth = N[at].depth + 1; N[c].p = harbol_tree_get_node_by_index(N[at].p, (size_t)N[at].nk); CHECK(N[c].p, "tree:insert", "inserted child not found at the end"); N[at].kids[N[at].nk++] = c; at = c; }
			f = sim_disarm(); ev("d%d", N[at].depth); break; }
		case O_NOTHING: { /* nothing can be stored or looked for without a size */ b = NULL; r = harbol_tree_set(m->p, "", 0); CHECK(!r, "tree:nothing", "setting no data reported success"); r = harbol_tree_rm_val(m->p, "", 0); CHECK(!r, "tree:nothing", "removing no value reported success"); break; }
		case O_RMI: { size_t k = s->a[2] < 0 ? SIZE_MAX : umod(s->a[2], (size_t)m->nk + 1); r = harbol_tree_rm_index(m->p, k); CHECK(r == (k < (size_t)m->nk), "tree:remove", "removing child %zu of %d returned %d", k, m->nk, r); if (r) { forget(m->kids[k]); unlink_kid(x, (int)k); sim_probe(0); } break; }
		case O_FIND: { int k = findv(x, b, n); struct HarbolTree *t = harbol_tree_get_node_by_val(m->p, b, n); CHECK(t == (k < 0 ? NULL : N[m->kids[k]].p), "tree:find", "finding a child by value"); 
			if (m->nk) { Node *c = &N[m->kids[umod(s->a[2], (size_t)m->nk)]]; if (c->n) { k = findv(x, c->d, c->n); CHECK(harbol_tree_get_node_by_val(m->p, c->d, c->n) == N[m->kids[k]].p, "tree:find", "finding an existing child by value"); } } break; }
		case O_CLEARN: if (s->a[2] % 3) break; harbol_tree_clear(m->p); for (int k = 0; k < m->nk; k++) forget(m->kids[k]); m->nk = 0; m->n = 0; break;
		case O_CLEARROOT: harbol_tree_clear(N[0].p); for (int k = 0; k < N[0].nk; k++) forget(N[0].kids[k]); N[0].nk = 0; N[0].n = 0; sim_leak_check("after the root was cleared", heap); break;
		case O_RENEW: drop(); create((int)s->a[2] & 1, s->a[1], s); break;
		}
		if (f) sim_probe(1);
		verify(ops[s->op]);
	}
	drop();
}
static void gen(Rng *r, Plan *p) {
	p->cfg[C_HEAP] = (int64_t)rng_below(r, 2); p->cfg[C_VALS] = rng_p(r, 1, 2) ? rng_range(r, 2, 12) : 1000; p->cfg[C_FAN] = rng_p(r, 1, 3); p->cfg[C_BIG] = rng_p(r, 1, 25) ? 1 + rng_p(r, 1, 5) : 0; bool many = rng_p(r, 1, 60); p->cfg[C_DEEP] = rng_p(r, 1, 800);
	unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_INSV] += 5; if (w[O_CLEARROOT] > 1) w[O_CLEARROOT] = rng_p(r, 1, 3); if (w[O_RENEW] > 1) w[O_RENEW] = rng_p(r, 1, 3);
	w[O_BULK] = many ? 3 : 0; w[O_CHAIN] = p->cfg[C_DEEP] ? 9 : 1; int n = rng_len(r) + 3; if (many || p->cfg[C_BIG] > 1 || p->cfg[C_DEEP]) n = n % 12 + 2; for (int i = 0; i < n; i++) plan_add(p, rng_op(r, w, NOPS), 3, (int64_t)rng_below(r, 300), (int64_t)rng_below(r, 1000), rng_p(r, 1, 20) ? -1 : (int64_t)rng_below(r, many ? 500 : 100));
}
const Scenario sc_tree = { "tree", ops, cfgs, gen, exec, ALLOCF, 3 };
