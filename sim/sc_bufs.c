/* C24: parallel buffers sharing one length, kept by the library's buffer helpers, and the copies they make. */
#include "sim.h"
bool shim_multi_calloc(size_t n, size_t k, void **b, const size_t *es); bool shim_multi_recalloc(size_t n, size_t o, size_t k, void **b, const size_t *es);
void shim_multi_cleanup(size_t k, void **b); bool shim_multi_shift(size_t *len, size_t i, size_t amount, size_t k, void **b, const size_t *es); bool shim_shift(void *b, size_t *len, size_t i, size_t es, size_t amount);
void *shim_recalloc(void *b, size_t n, size_t es, size_t o); uint8_t *shim_resize_string(uint8_t *s, size_t bytes, size_t *len, size_t n); void shim_cleanup(void **b);
void *shim_dup_data(const void *d, size_t n); char *shim_dup_cstr(size_t n, const char *s); char *shim_sprintf(int form, const char *s, long a, double f); void *shim_memccpy(void *d, const void *s, int c, size_t n);
enum { O_MAKE, O_RESIZE, O_WRITE, O_SHIFT, O_DROP, O_ONE, O_TEXT, O_DUP, O_DUPCSTR, O_FORMAT, O_COPY, NOPS };
static const char *const ops[] = { "multi_calloc", "multi_recalloc", "write", "shift", "multi_cleanup", "recalloc", "resize_string", "dup_data", "dup_cstr", "sprintf_alloc", "memccpy", NULL };
enum { C_ALLOC, C_BIG };
static const char *const cfgs[] = { "alloc", "big", NULL };
#define MAXL 70000
#define NG 3
typedef struct { size_t k, len, cap, es[6]; void *b[6]; uint8_t *m[6]; } G;     /* m: what the buffers must hold, cap elements */
static G g[NG]; static uint8_t *tx; static size_t txl; static bool txlive; static uint8_t txm[MAXL * 4 + 8]; static size_t txu = 1;     /* a text's characters have txu bytes each */ static uint64_t pat;
static const size_t huge[] = { SIZE_MAX, SIZE_MAX / 2 + 1, (size_t)1 << 61, SIZE_MAX - 7 };
static void mset(G *q, size_t cap) { for (size_t i = 0; i < q->k; i++) { q->m[i] = realloc(q->m[i], cap * q->es[i] + 1); if (cap > q->cap) memset(q->m[i] + q->cap * q->es[i], 0, (cap - q->cap) * q->es[i]); } q->cap = cap; }
static void mfree(G *q) { for (int i = 0; i < 6; i++) { free(q->m[i]); q->m[i] = NULL; } memset(q, 0, sizeof *q); }
static size_t live(void) { size_t n = txlive; for (int i = 0; i < NG; i++) for (size_t j = 0; j < g[i].k; j++) n += g[i].b[j] != NULL; return n; }
static void verify(const char *after) {
	uint64_t h = txl + txlive;
	for (int x = 0; x < NG; x++) { G *q = &g[x]; h = mix64(h * 31 + q->len * 64 + q->cap);
		for (size_t i = 0; i < q->k; i++) { size_t n = 0; if (!q->b[i]) continue;
			CHECK(sim_is_live(q->b[i], &n) && n >= q->cap * q->es[i], "bufs:size", "%s: buffer %zu of %zu holds %zu bytes, expected %zu elements of %zu bytes", after, i, q->k, n, q->cap, q->es[i]);
			if (memcmp(q->b[i], q->m[i], q->cap * q->es[i])) for (size_t c = 0; c < q->cap * q->es[i]; c++) CHECK(((uint8_t *)q->b[i])[c] == q->m[i][c], "bufs:content", "%s: byte %zu of buffer %zu (%zu elements of %zu bytes) is %d, expected %d", after, c, i, q->cap, q->es[i], ((uint8_t *)q->b[i])[c], q->m[i][c]);
			for (int y = 0; y <= x; y++) for (size_t j = 0; j < g[y].k; j++) CHECK((y == x && j >= i) || g[y].b[j] != q->b[i], "bufs:shared", "%s: two buffers share their memory", after); } }
	if (txlive) { size_t n = 0; CHECK(sim_is_live(tx, &n) && n >= (txl + 1) * txu, "bufs:size", "%s: text of %zu bytes has %zu bytes of memory", after, txl, n); CHECK(!memcmp(tx, txm, txl * txu), "bufs:text", "%s: text changed", after); for (size_t z = 0; z < txu; z++) CHECK(tx[txl * txu + z] == 0, "bufs:text", "%s: text of %zu bytes is not terminated", after, txl); }
	CHECK(sim_live() == live(), "bufs:leak", "%s: %zu blocks allocated, expected %zu", after, sim_live(), live()); sim_state(h);
}
static void paint(G *q, int64_t sel, size_t n) { for (size_t i = 0; i < q->k; i++) { if (!q->b[i] || !q->cap) continue; const uint8_t *d = sim_bytes(++pat + (uint64_t)sel, 4096); size_t at = umod(sel, q->cap), c = n ? n : q->cap; if (c > q->cap - at) c = q->cap - at; for (size_t z = 0; z < c * q->es[i]; z++) q->m[i][at * q->es[i] + z] = d[z % 4096] | 1; memcpy((uint8_t *)q->b[i] + at * q->es[i], q->m[i] + at * q->es[i], c * q->es[i]); } }
static void exec(const Plan *p) {
	for (int i = 0; i < NG; i++) mfree(&g[i]); tx = NULL; txl = 0; txlive = false; pat = 0; size_t mx = p->cfg[C_BIG] ? MAXL : 70;
	for (size_t n = 0; n < p->n; n++) {
		const Step *s = &p->steps[n]; sim_step(p, n); G *q = &g[umod(s->a[0], NG)]; int f = 0; bool r; size_t want = umod(s->a[1], mx); bool bad = s->a[1] > 0 && s->a[1] % 23 == 11; if (bad) want = huge[umod(s->a[2], 4)];
		switch (s->op) {
		case O_MAKE: { if (q->k) break; size_t k = 1 + umod(s->a[2], 6), es[6]; void *b[6]; if (!want) want = 1; for (size_t i = 0; i < k; i++) { es[i] = 1 + umod((int64_t)mix64((uint64_t)s->a[3] + i), p->cfg[C_BIG] ? 9 : 40); if (bad && es[i] < 2) es[i] = 2; b[i] = (void *)8; }
			if (bad && want < SIZE_MAX / 2) for (size_t i = 0; i < k; i++) if (es[i] < 9) es[i] += 8;
			sim_arm(s); r = shim_multi_calloc(want, k, b, es); f = sim_disarm(); ev("make %zu %d", k, r);
			CHECK(r || f || bad, "bufs:make", "%zu buffers of %zu elements refused without a fault", k, want); CHECK(!(r && bad), "bufs:make", "buffers of %zu elements reported as made", want);
			for (size_t i = 0; i < k; i++) CHECK(r ? b[i] != NULL && b[i] != (void *)8 : b[i] == NULL, "bufs:make", "buffer %zu of %zu is %s although making them %s", i, k, b[i] ? "there" : "missing", r ? "succeeded" : "failed");
			if (r) { q->k = k; memcpy(q->es, es, sizeof es); memcpy(q->b, b, sizeof b); mset(q, want); q->len = want; paint(q, s->a[4], 0); } break; }
		case O_RESIZE: { if (!q->k) break; if (!want) want = 1; if (bad) { bool over = false; for (size_t i = 0; i < q->k; i++) over |= want > SIZE_MAX / q->es[i] || want * q->es[i] > ((size_t)1 << 40); if (!over) break; } void *old[6]; memcpy(old, q->b, sizeof old); size_t c0 = q->cap;
			sim_arm(s); r = shim_multi_recalloc(want, q->cap, q->k, q->b, q->es); f = sim_disarm(); ev("resize %zu %d", want, r);
			CHECK(r || f || bad, "bufs:resize", "resizing %zu buffers from %zu to %zu elements failed without a fault", q->k, c0, want); CHECK(!(r && bad), "bufs:resize", "resize to %zu elements reported as done", want);
			if (r) { mset(q, want); if (q->len > want) q->len = want; else for (size_t i = 0; i < q->k; i++) (void)i; } else CHECK(!memcmp(old, q->b, q->k * sizeof *old), "bufs:resize", "a failed resize replaced a buffer");
			break; }
		case O_WRITE: paint(q, s->a[1], 1 + umod(s->a[2], 5)); if (txlive) for (size_t i = umod(s->a[1], txl * txu + 1), e = 0; i < txl * txu && e < 9; i++, e++) tx[i] = txm[i] = (uint8_t)(1 + umod(s->a[2] + (int64_t)i, 200)); break;
		case O_SHIFT: { if (!q->k || !q->b[0]) break; size_t at = umod(s->a[1], q->len + 2), am = umod(s->a[2], 7) == 6 ? huge[umod(s->a[3], 4)] : umod(s->a[2], 7) == 5 ? umod(s->a[3], q->len + 2) : umod(s->a[2], 4), len = q->len; bool can = at < q->len; size_t rm = !can ? 0 : am == 0 ? 1 : am > q->len - at ? q->len - at : am;
			r = q->k == 1 && (s->a[4] & 1) ? shim_shift(q->b[0], &q->len, at, q->es[0], am) : shim_multi_shift(&q->len, at, am, q->k, q->b, q->es); ev("shift %zu %zu %d", at, am, r);
			CHECK(r == can, "bufs:shift", "removing %zu elements at %zu of %zu returned %d", am, at, len, r); CHECK(q->len == len - rm, "bufs:shift", "removing %zu elements at %zu of %zu left %zu", am, at, len, q->len);
			for (size_t i = 0; i < q->k && rm; i++) { size_t e = q->es[i]; memmove(q->m[i] + at * e, q->m[i] + (at + rm) * e, (len - at - rm) * e); memset(q->m[i] + (len - rm) * e, 0, rm * e); } break; }
		case O_DROP: if (q->k) { if (q->k == 1 && (s->a[1] & 1)) { shim_cleanup(&q->b[0]); CHECK(!q->b[0], "bufs:cleanup", "cleanup left the reference"); shim_cleanup(&q->b[0]); } else { if (s->a[2] & 1) shim_cleanup(&q->b[umod(s->a[3], q->k)]); /* one of them is gone already */ shim_multi_cleanup(q->k, q->b); for (size_t i = 0; i < q->k; i++) CHECK(!q->b[i], "bufs:cleanup", "cleanup left reference %zu of %zu", i, q->k); } mfree(q); } break;
		case O_ONE: { if (q->k > 1) break; if (!q->k) { q->k = 1; q->es[0] = 1 + umod(s->a[3], p->cfg[C_BIG] ? 9 : 40); } if (bad) { if (want <= SIZE_MAX / q->es[0] && want * q->es[0] < ((size_t)1 << 40)) { if (!q->b[0]) q->k = 0; break; } if (want <= SIZE_MAX / q->es[0] && want * q->es[0] < SIZE_MAX / 4) {} } if (!want && !q->b[0]) want = 1;
			size_t c0 = q->cap; void *old = q->b[0]; sim_arm(s); void *b = shim_recalloc(old, want, q->es[0], c0); f = sim_disarm(); ev("one %zu %d", want, b != NULL);
			CHECK(b || f || bad, "bufs:resize", "resizing a buffer from %zu to %zu elements failed without a fault", c0, want); CHECK(!(b && bad), "bufs:resize", "a buffer of %zu elements reported as made", want);
			if (b) { q->b[0] = b; mset(q, want); q->len = want; } else { q->len = q->cap; if (!old) mfree(q); } break; }
		case O_TEXT: { if (bad) break; size_t l0 = txl; if (!txlive) txu = (size_t)1 << (s->a[4] & 1 ? 0 : umod(s->a[3], 3)); sim_arm(s); size_t l = txlive ? txl : 0; uint8_t *b = shim_resize_string(txlive ? tx : NULL, txu, &l, want); f = sim_disarm(); ev("text %zu %d", want, b != NULL);
			CHECK(b || f, "bufs:text", "resizing a text to %zu bytes failed without a fault", want); CHECK(l == (b ? want : txlive ? l0 : 0), "bufs:text", "resizing a text from %zu to %zu bytes left its length %zu", l0, want, l);
			if (b) { if (!txlive) { memset(txm, 0, sizeof txm); l0 = 0; } tx = b; txlive = true; txl = want; if (want > l0) memset(txm + l0 * txu, 0, (want - l0) * txu); for (size_t i = l0 * txu; i < want * txu; i++) CHECK(tx[i] == 0, "bufs:text", "byte %zu of a grown text is not zero", i); } break; }
		case O_DUP: { size_t c = 1 + umod(s->a[1], mx); const uint8_t *d = sim_bytes((uint64_t)s->a[3], c); sim_arm(s); uint8_t *b = shim_dup_data(d, c); f = sim_disarm(); ev("dup %d", b != NULL); CHECK(b || f, "bufs:dup", "copying %zu bytes failed without a fault", c); if (b) { size_t z = 0; CHECK(sim_is_live(b, &z) && z >= c && !memcmp(b, d, c), "bufs:dup", "the copy of %zu bytes differs", c); sim_free(b); } break; }
		case O_DUPCSTR: { static char t[MAXL + 1]; size_t c = umod(s->a[1], mx), take = (s->a[2] & 3) ? c : umod(s->a[3], c + 1); for (size_t i = 0; i < c; i++) t[i] = (char)(1 + (mix64((uint64_t)s->a[3] + i) & 127) % 126); t[c] = 0;
			sim_arm(s); char *b = shim_dup_cstr(take, t); f = sim_disarm(); ev("dupcstr %d", b != NULL); CHECK(b || f, "bufs:dup", "copying a text failed without a fault"); if (b) { size_t z = 0; CHECK(sim_is_live(b, &z) && z > take && !memcmp(b, t, take) && b[take] == 0, "bufs:dup", "the copy of %zu of %zu characters differs", take, c); sim_free(b); } break; }
		case O_COPY: {      /* fill a buffer of the group up to a stop byte */
			if (!q->k || !q->b[0] || !q->cap) break; size_t j = umod(s->a[2], q->k), room = q->cap * q->es[j], c = umod(s->a[3], room + 1), at = umod(s->a[4], c + 1), stop; static uint8_t src[MAXL * 40]; if (!q->b[j] || room > sizeof src) break; const uint8_t *d = sim_bytes(++pat, 4096); for (size_t z = 0; z < c; z++) src[z] = d[z % 4096] | 1;
			if (at < c) src[at] = 0; stop = at < c ? at + 1 : c; uint8_t *e = shim_memccpy(q->b[j], src, 0, c); ev("copy %d", e != NULL); CHECK(at < c ? e == (uint8_t *)q->b[j] + stop : !e, "bufs:copy", "copying up to byte %zu of %zu gave another end", at, c); memcpy(q->m[j], src, stop); break; }
		case O_FORMAT: { static char t[MAXL + 1], e[2 * MAXL + 200]; size_t c = umod(s->a[1], mx); for (size_t i = 0; i < c; i++) t[i] = (char)(32 + mix64((uint64_t)s->a[3] + i) % 95); t[c] = 0; int form = (int)umod(s->a[2], 5); long a = (long)s->a[3] - 2000; double d = (double)s->a[4] / 7;
			switch (form) { case 0: snprintf(e, sizeof e, "%s", t); break; case 1: snprintf(e, sizeof e, "%ld|%s|%.3f", a, t, d); break; case 2: snprintf(e, sizeof e, "%*ld%s", 40, a, t); break; case 3: strcpy(e, "nothing"); break; default: snprintf(e, sizeof e, "%s%s", t, t); }
			sim_arm(s); char *b = shim_sprintf(form, t, a, d); f = sim_disarm(); ev("format %d", b != NULL); CHECK(b || f, "bufs:format", "formatting failed without a fault"); if (b) { size_t z = 0; CHECK(sim_is_live(b, &z) && z > strlen(e) && !strcmp(b, e), "bufs:format", "formatted text of %zu characters differs", strlen(e)); sim_free(b); } break; }
		}
		if (f) sim_probe(0); verify(ops[s->op]);
	}
	for (int i = 0; i < NG; i++) if (g[i].k) { shim_multi_cleanup(g[i].k, g[i].b); mfree(&g[i]); } if (txlive) shim_cleanup((void **)&tx); sim_leak_check("at the end", 0);
}
static void gen(Rng *r, Plan *p) {
	bool big = rng_p(r, 1, 60); p->cfg[C_BIG] = big; unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_RESIZE] += rng_below(r, 4); w[O_SHIFT] += rng_below(r, 3); w[O_WRITE]++; if (w[O_DROP] > 1) w[O_DROP] = 1;
	int n = rng_len(r); if (big) n = n % 8 + 2;
	for (int i = 0; i < n; i++) { int64_t z = rng_p(r, 1, 3) ? (int64_t)rng_below(r, 12) : big && rng_p(r, 1, 3) ? ((int64_t)1 << rng_range(r, 7, 16)) - rng_range(r, -1, 1) : (int64_t)rng_below(r, big ? 69000 : 300); plan_add(p, rng_op(r, w, NOPS), 5, (int64_t)rng_below(r, NG), z, (int64_t)rng_below(r, 64), (int64_t)rng_below(r, 4096), (int64_t)rng_below(r, 4096)); }
}
const Scenario sc_bufs = { "bufs", ops, cfgs, gen, exec, ALLOCF, 3, 400u * 1000 * 1000 };
