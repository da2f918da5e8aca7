/* C25: intrusive lists shared by several clients that move one set of nodes between them. */
#include "sim.h"
void *shim_get_a(const void *), **shim_ref_a(void *); void shim_set_a(void *, void *); void *shim_get_b(const void *), **shim_ref_b(void *); void shim_set_b(void *, void *); void *shim_get_c(const void *), **shim_ref_c(void *); void shim_set_c(void *, void *);
void shim_s_after(void *, void *), shim_s_head(void *, void *, void *), shim_s_tail(void *, void *, void *), shim_d_after(void *, void *), shim_d_head(void *, void *, void *), shim_d_tail(void *, void *, void *), shim_d_remove(void *, void *, void *); size_t shim_link_size(int);
enum { O_HEAD, O_TAIL, O_AFTER, O_POP, O_REMOVE, O_ROTATE, O_OWNER, O_NEXT, NOPS };
static const char *const ops[] = { "add_to_head", "add_to_tail", "add_after", "pop_head", "remove", "move", "owner", "walk", NULL };
enum { C_KIND, C_N, C_JUNK, C_NOTAIL };
static const char *const cfgs[] = { "kind", "nodes", "junk", "notail", NULL };
#define NL 4
#define MAXN 96
#define NCUR 3
static int kind; static size_t nn, lsz; static uint8_t *nd[MAXN]; static int where[MAXN], own[MAXN];   /* where: list or -1, own: owner node or -1 */
static void *head[NL], *tail[NL]; static int L[NL][MAXN]; static size_t ll[NL]; static bool notail[NL];
static int cur[NCUR], curl[NCUR];                                                                       /* clients in the middle of a walk */
static int idx(const void *p) { for (size_t i = 0; i < nn; i++) if (nd[i] == p) return (int)i; return -1; }
static void pay(int i, uint8_t *o) { memcpy(o, sim_bytes(77 + (uint64_t)i, 24), 24); }
static void verify(const char *after) {
	uint64_t h = 5; uint8_t w[24];
	for (int x = 0; x < NL; x++) {
		const void *p = head[x]; h = mix64(h + 7);
		for (size_t i = 0; i < ll[x]; i++) { h = mix64(h ^ (uint64_t)L[x][i]);
			CHECK(p == nd[L[x][i]], "links:order", "%s: walking list %d reaches %s%d at position %zu of %zu, expected node %d", after, x, p ? "node " : "the end, ", p ? idx(p) : -1, i, ll[x], L[x][i]);
			if (kind) CHECK(shim_get_b(p) == (i ? (void *)nd[L[x][i - 1]] : NULL), "links:back", "%s: node at position %zu of list %d links back to node %d", after, i, x, idx(shim_get_b(p)));
			p = shim_get_a(p); }
		CHECK(p == NULL, "links:end", "%s: list %d of %zu nodes goes on with node %d", after, x, ll[x], idx(p));
		if (!notail[x]) CHECK(tail[x] == (ll[x] ? (void *)nd[L[x][ll[x] - 1]] : NULL), "links:tail", "%s: the tail of list %d (%zu nodes) is node %d", after, x, ll[x], idx(tail[x]));
	}
	for (size_t i = 0; i < nn; i++) { pay((int)i, w); CHECK(!memcmp(nd[i] + lsz, w, 24), "links:payload", "%s: the data of node %zu changed", after, i);
		if (kind == 2) CHECK(shim_get_c(nd[i]) == (own[i] < 0 ? NULL : (void *)nd[own[i]]) && *shim_ref_c(nd[i]) == shim_get_c(nd[i]), "links:owner", "%s: the third link of node %zu changed", after, i); }
	sim_state(h);
}
static void put(int x, size_t at, int n) { memmove(&L[x][at + 1], &L[x][at], (ll[x] - at) * sizeof(int)); L[x][at] = n; ll[x]++; where[n] = x; }
static void take(int x, size_t at) { int n = L[x][at]; for (int c = 0; c < NCUR; c++) if (cur[c] == n) cur[c] = at + 1 < ll[x] ? L[x][at + 1] : -1; memmove(&L[x][at], &L[x][at + 1], (ll[x] - at - 1) * sizeof(int)); ll[x]--; where[n] = -1; }
static int spare(int64_t sel) { size_t c = 0; for (size_t i = 0; i < nn; i++) c += where[i] < 0; if (!c) return -1; size_t k = umod(sel, c); for (size_t i = 0; i < nn; i++) if (where[i] < 0 && !k--) return (int)i; return -1; }
/* what a client of a singly linked list does to take the node at a position out */
static void unlink_s(int x, size_t at, int64_t how) {
	void *n = nd[L[x][at]], *next = shim_get_a(n);
	if (at) { if (how & 1) shim_set_a(nd[L[x][at - 1]], next); else *shim_ref_a(nd[L[x][at - 1]]) = next; } else head[x] = next;
	if (!next && !notail[x]) tail[x] = at ? nd[L[x][at - 1]] : NULL;
	if (how & 2) shim_set_a(n, NULL);
}
static void add(int op, int x, int n, int64_t pos) {
	void *t = notail[x] ? NULL : (void *)&tail[x];
	if (op == O_AFTER && !ll[x]) op = O_HEAD; if (op == O_TAIL && notail[x]) op = O_HEAD;
	if (op == O_HEAD) { (kind ? shim_d_head : shim_s_head)(&head[x], nd[n], t); put(x, 0, n); }
	else if (op == O_TAIL) { (kind ? shim_d_tail : shim_s_tail)(&head[x], nd[n], t); put(x, ll[x], n); }
	else { size_t at = umod(pos, ll[x]); (kind ? shim_d_after : shim_s_after)(nd[L[x][at]], nd[n]); if (at + 1 == ll[x] && !notail[x]) tail[x] = nd[n]; put(x, at + 1, n); }
}
static void out(int x, size_t at, int64_t how) {
	if (kind) { void *scratch = notail[x] ? nd[L[x][ll[x] - 1]] : NULL; int n = L[x][at]; shim_d_remove(&head[x], nd[n], notail[x] ? (void *)&scratch : (void *)&tail[x]); if (how & 2) { shim_set_a(nd[n], NULL); shim_set_b(nd[n], NULL); CHECK(*shim_ref_b(nd[n]) == NULL, "links:set", "a link that was set differs"); } }
	else unlink_s(x, at, how);
	take(x, at);
}
static void exec(const Plan *p) {
	kind = (int)umod(p->cfg[C_KIND], 3); nn = 1 + umod(p->cfg[C_N], MAXN - 1); lsz = shim_link_size(kind);
	for (int i = 0; i < NL; i++) { head[i] = tail[i] = NULL; ll[i] = 0; notail[i] = p->cfg[C_NOTAIL] >> i & 1; } for (int i = 0; i < NCUR; i++) cur[i] = curl[i] = -1;
	for (size_t i = 0; i < nn; i++) { nd[i] = malloc(lsz + 24); memset(nd[i], p->cfg[C_JUNK] ? 0xEE : 0, lsz); pay((int)i, nd[i] + lsz); where[i] = own[i] = -1; if (kind == 2) shim_set_c(nd[i], NULL); }
	for (size_t n = 0; n < p->n; n++) {
		const Step *s = &p->steps[n]; sim_step(p, n); int x = (int)umod(s->a[0], NL);
		switch (s->op) {
		case O_HEAD: case O_TAIL: case O_AFTER: { int k = spare(s->a[1]); if (k < 0) break; add(s->op, x, k, s->a[2]); ev("%s %d %d", ops[s->op], x, k); break; }
		case O_POP: if (ll[x]) { if (kind == 0 || (s->a[2] & 1)) { if (kind == 0) unlink_s(x, 0, s->a[2] >> 1); else { head[x] = shim_get_a(head[x]); if (head[x]) shim_set_b(head[x], NULL); else if (!notail[x]) tail[x] = NULL; } take(x, 0); } else out(x, 0, s->a[2] >> 1); ev("pop %d", x); } break;
		case O_REMOVE: if (ll[x]) out(x, umod(s->a[1], ll[x]), s->a[2]); ev("remove %d %zu", x, ll[x]); break;
		case O_ROTATE: if (ll[x]) { size_t at = umod(s->a[1], ll[x]); int k = L[x][at], y = (int)umod(s->a[2], NL); out(x, at, s->a[3]); add((int)umod(s->a[2] / NL, 3), y, k, s->a[3]); ev("move %d %d %d", k, x, y); } break;
		case O_OWNER: if (kind == 2) { int k = (int)umod(s->a[1], nn), o = s->a[2] % 5 == 0 ? -1 : (int)umod(s->a[2], nn); if (s->a[3] & 1) shim_set_c(nd[k], o < 0 ? NULL : nd[o]); else *shim_ref_c(nd[k]) = o < 0 ? NULL : nd[o]; own[k] = o; } break;
		case O_NEXT: { int c = (int)umod(s->a[1], NCUR); if (cur[c] < 0) { curl[c] = x; cur[c] = ll[x] ? L[x][0] : -1; } else { int w = where[cur[c]], nx = -1; for (size_t i = 0; i + 1 < ll[w]; i++) if (L[w][i] == cur[c]) nx = L[w][i + 1]; void *g = shim_get_a(nd[cur[c]]); CHECK(g == (nx < 0 ? NULL : (void *)nd[nx]), "links:walk", "a client standing on node %d goes on to node %d, expected %d", cur[c], idx(g), nx); cur[c] = nx; } break; }
		}
		verify(ops[s->op]);
	}
	for (size_t i = 0; i < nn; i++) free(nd[i]);
}
static void gen(Rng *r, Plan *p) {
	p->cfg[C_KIND] = (int64_t)rng_below(r, 3); p->cfg[C_N] = rng_p(r, 1, 10) ? (int64_t)rng_below(r, MAXN) : (int64_t)rng_below(r, 12); p->cfg[C_JUNK] = (int64_t)rng_below(r, 2); p->cfg[C_NOTAIL] = rng_p(r, 1, 2) ? 0 : (int64_t)rng_below(r, 16);
	unsigned w[NOPS]; rng_weights(r, w, NOPS); int lists = 1 + (int)rng_below(r, NL), n = rng_len(r) + 2;
	for (int i = 0; i < n; i++) plan_add(p, rng_op(r, w, NOPS), 4, (int64_t)rng_below(r, lists), (int64_t)rng_below(r, 64), (int64_t)rng_below(r, 64), (int64_t)rng_below(r, 64));
}
const Scenario sc_links = { "links", ops, cfgs, gen, exec, 0, 0, 400u * 1000 * 1000 };
