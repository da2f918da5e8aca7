/* C08: object pool shared by interleaved clients, each owning the blocks it holds. */
#include "sim.h"
#include "allocators/objpool/objpool.h"
enum { O_ALLOC, O_FREE, O_CLEANUP, O_FREE_BAD, O_WRITE, O_EXHAUST, O_RETURN_ALL, O_RENEW, O_VAST, NOPS };
static const char *const ops[] = { "alloc", "free", "cleanup", "free_foreign", "write", "exhaust", "return_all", "renew", "vast", NULL };
enum { C_ALLOC, C_OBJ, C_LEN, C_MODE };
static const char *const cfgs[] = { "alloc", "objsize", "len", "mode", NULL };
#define MAXB 70100
#define SPAN (1u << 24)
static uint8_t used[SPAN]; static size_t span_used; /* bytes of the pool that are in somebody's hands */
static struct { uint8_t *p; uint64_t pat; int client; } H[MAXB]; static size_t hn;
static struct HarbolObjPool P; static bool live, frombuf; static size_t objsize, cap; static uint8_t *buf;
static void paint(size_t i, uint64_t pat) { H[i].pat = pat; for (size_t k = 0; k < objsize; k++) H[i].p[k] = (uint8_t)(mix64(pat + k / 8) >> (k % 8 * 8)); }
static void verify(const char *after) {
	uint64_t h = 11 + hn;
	for (size_t i = 0; i < hn; i++) {
		for (size_t k = 0; k < objsize; k++) CHECK(H[i].p[k] == (uint8_t)(mix64(H[i].pat + k / 8) >> (k % 8 * 8)), "objpool:contents", "%s: byte %zu of a block held by client %d changed", after, k, H[i].client);
		h ^= mix64((uint64_t)(H[i].p - (uint8_t *)P.mem) * 7 + 1);
	}
	sim_state(h ^ cap << 20);
}
static void drop(void) {
	if (live) { if (frombuf) sim_free(buf); else { harbol_objpool_clear(&P); CHECK(harbol_objpool_alloc(&P) == NULL, "objpool:cleared", "a cleared pool still hands out blocks"); } }
	memset(used, 0, span_used); span_used = 0;
	live = false; hn = 0; cap = 0; sim_leak_check("after the pool was cleared", 0);
}
static void create(int64_t o, int64_t n, int64_t mode, const Step *s) {
	static const size_t huge[] = { SIZE_MAX, SIZE_MAX - 6, SIZE_MAX / 2 + 1, (size_t)1 << 61, SIZE_MAX - 64 };
	static const size_t big[] = { 120, 127, 128, 136, 248, 256, 264, 512, 1000, 4096 };
	objsize = 1 + umod(o, 72); cap = 1 + umod(n, umod(n, 5) ? 9 : 120); if (mode >= 88) { if (mode & 1 || mode % 3) objsize = big[umod(o, 10)] - (mode % 5 == 0); if (mode % 7 < 3) { static const size_t many[] = { 255, 256, 257, 300, 512, 1024, 2000 }; cap = many[umod(n, 7)]; } }
	if (mode >= 176) { static const size_t vast[] = { 65535, 65536, 65537, 65600, 70000 }; objsize = 8 << (mode & 1); cap = vast[umod(n, 5)]; mode = mode & 3; }
	size_t want = objsize, wlen = cap; bool bad = false;
	frombuf = mode & 1;
	if (mode % 11 == 7) { want = huge[umod(o, 5)]; bad = true; frombuf = false; }
	else if (mode % 11 == 8) { wlen = huge[umod(n, 5)]; bad = true; frombuf = false; }
	else if (mode % 11 == 9) { if (o & 1) want = 0; else wlen = 0; bad = true; frombuf = false; }
	memset(&P, 0, sizeof P); buf = NULL;
	for (int t = 0; t < 2; t++) {
		bool ok; int f = 0;
		if (frombuf) {
			if (objsize < 8 && !(mode & 4)) objsize = want = 8;
			buf = sim_malloc(objsize * cap);
			if (mode & 2) { ok = false; P = harbol_objpool_from_buffer(buf, want, wlen, &ok); } else ok = harbol_objpool_init_from_buffer(&P, buf, want, wlen);
			ev("from_buffer %zu %zu %d", want, wlen, ok);
			CHECK(ok || want % 8 || want < 8, "objpool:create", "pool over a buffer of %zu objects of %zu bytes refused", wlen, want);
			if (!ok) { sim_free(buf); memset(&P, 0, sizeof P); frombuf = false; continue; }
		} else {
			sim_arm(t ? NULL : s);
			if (mode & 2) { ok = false; P = harbol_objpool_make(want, wlen, &ok); } else ok = harbol_objpool_init(&P, want, wlen);
			f = sim_disarm(); ev("new %zu %zu %d", want, wlen, ok);
			CHECK(!(ok && bad), "objpool:create", "pool of %zu objects of %zu bytes reported as created", wlen, want);
			CHECK(ok || f || bad, "objpool:create", "creation failed without a fault");
			if (!ok) { sim_leak_check("after a failed pool creation", 0); memset(&P, 0, sizeof P); want = objsize; wlen = cap; bad = false; if (f) sim_probe(1); continue; }
		}
		live = true; hn = 0; return;
	}
	live = false;
	bool ok = harbol_objpool_init(&P, objsize, cap); CHECK(ok, "objpool:create", "creation failed without a fault"); live = true; hn = 0; frombuf = false;
}
static bool take(int client, uint64_t pat) {
	uint8_t *b = harbol_objpool_alloc(&P); ev("alloc %d", b != NULL);
	CHECK((b != NULL) == (hn < cap), "objpool:capacity", "allocation with %zu of %zu blocks in use returned %s", hn, cap, b ? "a block" : "nothing");
	if (!b) return false;
	uint8_t *lo = frombuf ? buf : (uint8_t *)P.mem; size_t span = 0;
	if (frombuf) span = objsize * cap; else CHECK(sim_is_live(lo, &span), "objpool:base", "pool memory is not allocated");
	CHECK(b >= lo && b + objsize <= lo + span, "objpool:bounds", "block lies outside the pool");
	uint8_t *u = used + (b - lo); if ((size_t)(b - lo) + objsize > span_used) span_used = (size_t)(b - lo) + objsize;
	CHECK(span_used <= SPAN, "objpool:bounds", "block lies outside the pool");
	for (size_t k = 0; k < objsize; k++) { CHECK(!u[k], "objpool:overlap", "block given to client %d overlaps one held by client %d", client, u[k] - 1); u[k] = (uint8_t)(1 + client); }
	for (size_t k = 0; k < objsize; k++) CHECK(b[k] == 0, "objpool:zero", "byte %zu of a fresh block is not zero", k);
	H[hn].p = b; H[hn].client = client; hn++; paint(hn - 1, pat); return true;
}
static void give(size_t i, bool cleanup) {
	void *q = H[i].p; H[i] = H[--hn];
	memset(used + ((uint8_t *)q - (frombuf ? buf : (uint8_t *)P.mem)), 0, objsize);
	if (cleanup) { harbol_objpool_cleanup(&P, &q); CHECK(q == NULL, "objpool:cleanup", "cleanup left the reference"); harbol_objpool_cleanup(&P, &q); } else harbol_objpool_free(&P, q);
}
/* a pool over more than 4 GB, whose blocks share all but their first page */
static void vast(int64_t a, int64_t b) {
	size_t os = ((size_t)1 << 20) + 4096 * umod(a, 500), len = ((size_t)1 << 32) / os + 1 + umod(b, 300); uint8_t *v = sim_vast_blocks(os, len); if (!v) return;
	bool ok = false; struct HarbolObjPool m; memset(&m, 0, sizeof m); if (b & 1) m = harbol_objpool_from_buffer(v, os, len, &ok); else ok = harbol_objpool_init_from_buffer(&m, v, os, len);
	CHECK(ok, "objpool:create", "pool over a buffer of %zu objects of %zu bytes refused", len, os); sim_probe(2);
	uint8_t **g = malloc(len * sizeof *g), *seen = calloc(len, 1); size_t k = 0; uint64_t x = (uint64_t)a * 51 + (uint64_t)b;
	/* take everything, give a part back in another order, take it again; the blocks share all but their first page, so only that is looked at */
	for (int round = 0; round < 2; round++) {
		for (uint8_t *q; (q = harbol_objpool_alloc(&m)); ) {
			CHECK(k < len, "objpool:capacity", "more than %zu blocks handed out", len); CHECK(q >= v && (size_t)(q - v) % os == 0 && (size_t)(q - v) / os < len, "objpool:bounds", "block at offset %td of a pool of %zu blocks of %zu bytes", q - v, len, os);
			size_t at = (size_t)(q - v) / os; CHECK(!seen[at], "objpool:overlap", "block %zu handed out twice", at); seen[at] = 1; for (size_t z = 0; z < 32; z++) CHECK(!q[z], "objpool:zero", "byte %zu of a fresh block is not zero", z); memset(q, 0xA5, 8); g[k++] = q;
		}
		CHECK(k == len, "objpool:capacity", "only %zu of %zu blocks handed out", k, len); if (round) break;
		for (int i = 0; i < 300 && k; i++) { x = mix64(x); size_t t = i < 4 ? (size_t)i : x % k; uint8_t *q = g[t]; seen[(size_t)(q - v) / os] = 0; g[t] = g[--k]; harbol_objpool_free(&m, q); }
	}
	for (size_t j = 0; j < k; j++) CHECK(g[j][0] == 0xA5 && g[j][7] == 0xA5, "objpool:contents", "a block changed");
	free(g); free(seen); sim_vast_end();
}
static void exec(const Plan *p) {
	memset(used, 0, span_used); span_used = 0; live = false; create(p->cfg[C_OBJ], p->cfg[C_LEN], p->cfg[C_MODE], NULL); uint64_t pat = 1;
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i); int cl = s->task; size_t mine = SIZE_MAX, c = 0;
		for (size_t k = 0; k < hn; k++) if (H[k].client == cl) c++;
		if (c) { size_t t = umod(s->a[0], c); for (size_t k = 0; k < hn; k++) if (H[k].client == cl && t-- == 0) { mine = k; break; } }
		switch (s->op) {
		case O_ALLOC: take(cl, ++pat << 8); break;
		case O_FREE: case O_CLEANUP: if (mine != SIZE_MAX) give(mine, s->op == O_CLEANUP); break;
		case O_FREE_BAD: {
			uint8_t other[64]; size_t span = frombuf ? objsize * cap : 0; if (!frombuf) sim_is_live((void *)P.mem, &span);
			uint8_t *base = (uint8_t *)P.mem, *q = NULL;
			switch (umod(s->a[0], 7)) { case 0: q = NULL; break; case 1: q = other + 8; break; case 2: q = base + span; break; case 3: q = base + span + 8; break; case 4: q = base - 8; break; case 5: q = (uint8_t *)8; break; case 6: q = base + span + 4096; break; }
			if (span % (frombuf ? objsize : 1) == 0) { memset(other, 0x5A, sizeof other); harbol_objpool_free(&P, q); for (int k = 0; k < 64; k++) CHECK(other[k] == 0x5A, "objpool:foreign", "releasing a foreign pointer wrote to it"); }
			break; }
		case O_WRITE: if (mine != SIZE_MAX) paint(mine, ++pat << 8); break;
		case O_EXHAUST: { size_t k = 0; while (k <= cap && take(cl + (s->a[0] & 1 ? (int)(k % 3) : 0), ++pat << 8)) k++; sim_probe(0); break; }
		case O_RETURN_ALL: while (hn) give(umod((int64_t)mix64((uint64_t)s->a[0] + hn), hn), hn & 1); break;
		case O_RENEW: drop(); create(s->a[0], s->a[1], s->a[2], s); break;
		case O_VAST: vast(s->a[0], s->a[1]); break;
		}
		verify(ops[s->op]);
	}
	drop();
}
static void gen(Rng *r, Plan *p) {
	p->cfg[C_OBJ] = (int64_t)rng_below(r, 72); p->cfg[C_LEN] = (int64_t)rng_below(r, 4000); bool bg = rng_p(r, 1, 25); p->cfg[C_MODE] = (int64_t)rng_below(r, 88) + (bg ? 88 : 0);
	bool vast = rng_p(r, 1, 1500); if (vast) p->cfg[C_MODE] = 176 + (int64_t)rng_below(r, 4);
	unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_FREE]++; w[O_ALLOC] += rng_below(r, 6); if (w[O_RENEW] > 1) w[O_RENEW] = 1; if (w[O_RETURN_ALL] > 2) w[O_RETURN_ALL] = 1; if (w[O_EXHAUST] > 2) w[O_EXHAUST] = 2;
	w[O_VAST] = 0;
	int n = rng_len(r) + 2, nc = 1 + (int)rng_below(r, 4); if (bg) n = n % 14 + 2;
	if (vast) { n = n % 10 + 2; w[O_RENEW] = 0; w[O_EXHAUST] += 4; }
	for (int i = 0; i < n; i++) { Step *s = plan_add(p, rng_op(r, w, NOPS), 3, (int64_t)rng_below(r, 4096), (int64_t)rng_below(r, 4000), (int64_t)rng_below(r, bg ? 176 : 88)); s->task = (int)rng_below(r, (uint64_t)nc); }
	if (rng_p(r, 1, 25000)) plan_add(p, O_VAST, 3, (int64_t)rng_below(r, 4096), (int64_t)rng_below(r, 5000), (int64_t)0);
}
const Scenario sc_objpool = { "objpool", ops, cfgs, gen, exec, ALLOCF, 2, 400u * 1000 * 1000 };
