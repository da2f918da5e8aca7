/* C09: region and double-ended stack allocators with interleaved clients. */
#include "sim.h"
#include "allocators/region/region.h"
#include "allocators/bistack/bistack.h"
enum { O_RALLOC, O_FRONT, O_BACK, O_RFRONT, O_RBACK, O_RALL, O_RESIZE, O_WRITE, O_RRENEW, O_BRENEW, O_VAST, NOPS };
static const char *const ops[] = { "region_alloc", "alloc_front", "alloc_back", "reset_front", "reset_back", "reset_all", "resize", "write", "region_renew", "bistack_renew", "vast", NULL };
enum { C_ALLOC, C_RSZ, C_BSZ, C_MODE };
static const char *const cfgs[] = { "alloc", "region_size", "stack_size", "mode", NULL };
#define MAXB 300
typedef struct { uint8_t *p; size_t n; uint64_t pat; int side, client; } Piece;   /* side 0 region, 1 front, 2 back */
static Piece H[MAXB]; static size_t hn;
static struct HarbolRegion R; static struct HarbolBiStack B; static bool rbuf, bbuf, rlive, blive; static uint8_t *rmem, *bmem; static size_t rsz, bsz, rused;
static uint8_t *bshadow; static size_t fused, kused;      /* what the stack memory held; bytes given out at each end */
static uint8_t pb(uint64_t pat, size_t k) { return (uint8_t)(mix64(pat + k / 8) >> (k % 8 * 8)); }
static void paint(Piece *h, uint64_t pat) { h->pat = pat; for (size_t k = 0; k < h->n; k++) h->p[k] = pb(pat, k); if (h->side) memcpy(bshadow + (h->p - bmem), h->p, h->n); }
static void verify(const char *after) {
	uint64_t st = 5;
	for (size_t i = 0; i < hn; i++) {
		for (size_t k = 0; k < H[i].n; k++) CHECK(H[i].p[k] == pb(H[i].pat, k), "arena:contents", "%s: byte %zu of a piece held by client %d changed", after, k, H[i].client);
		st ^= mix64(H[i].n * 31 + (uint64_t)H[i].side);
	}
	if (rlive) { size_t rem = harbol_region_remaining(&R); CHECK(rem == rsz - rused, "region:remaining", "%s: %zu bytes reported remaining, %zu of %zu were handed out", after, rem, rused, rsz); }
	if (blive) { size_t rem = harbol_bistack_get_margins(B); CHECK(rem == bsz - fused - kused, "bistack:remaining", "%s: %zu bytes reported remaining, %zu+%zu of %zu were handed out", after, rem, fused, kused, bsz); }
	sim_state(mix64(st ^ rused << 1) ^ fused << 16 ^ kused << 32);
}
static size_t pick_size(int64_t a, int64_t b, size_t left) {
	static const size_t huge[] = { SIZE_MAX, SIZE_MAX - 7, SIZE_MAX - 8, SIZE_MAX / 2, SIZE_MAX - 1000, (size_t)1 << 63, SIZE_MAX - 63 };
	switch (umod(a, 12)) { case 0: { size_t h = huge[umod(b, 7)]; return b & 8 ? h - umod(b, 300) : h; } case 1: return left; case 2: return left + 1 + umod(b, 9); case 3: return left > 8 ? left - umod(b, 9) : left; case 4: return left / 2; default: if (b >= 4000) { static const size_t lg[] = { 255, 256, 257, 300, 1000, 4096, 16384, 65528, 65535, 65536, 65537 }; return lg[umod(b, 11)]; } return umod(b, umod(a, 3) ? 40 : 200); }
}
static void forget(int mask) { size_t j = 0; for (size_t i = 0; i < hn; i++) if (!(mask & 1 << H[i].side)) H[j++] = H[i]; hn = j; }
static void drop_r(void) { if (!rlive) return; if (rbuf) sim_free(rmem); else { harbol_region_clear(&R); CHECK(!harbol_region_alloc(&R, 1) && !harbol_region_remaining(&R), "region:cleared", "a cleared region still hands out memory"); } rlive = false; forget(1); }
static void drop_b(void) { if (!blive) return; if (bbuf) sim_free(bmem); else { harbol_bistack_clear(&B); CHECK(!harbol_bistack_alloc_front(&B, 1) && !harbol_bistack_alloc_back(&B, 1) && !harbol_bistack_get_margins(B), "bistack:cleared", "a cleared stack still hands out memory"); } blive = false; forget(6); free(bshadow); bshadow = NULL; }
static void new_r(int64_t n, int64_t mode, const Step *s) {
	rsz = 1 + umod(n, n >= 4000 ? 140000 : 700); rbuf = mode & 1;
	if (rbuf) { rmem = sim_malloc(rsz); R = harbol_region_make_from_buffer(rmem, rsz); }
	else for (int t = 0; t < 2; t++) {
		sim_arm(t ? NULL : s); R = harbol_region_make(rsz); int f = sim_disarm(); rmem = R.mem; ev("region %zu %d", rsz, rmem != NULL);
		CHECK(rmem || f, "region:create", "creation failed without a fault");
		if (rmem) break;
		sim_probe(1); CHECK(!harbol_region_alloc(&R, 8) && !harbol_region_remaining(&R), "region:create", "a region that could not be created hands out memory");
		sim_leak_check("after a failed region creation", (size_t)(blive ? 1 : 0)); harbol_region_clear(&R);
	}
	rlive = true; rused = 0; size_t n0; CHECK(sim_is_live(rmem, &n0) && n0 >= rsz, "region:create", "backing memory too small");
}
static void new_b(int64_t n, int64_t mode, const Step *s) {
	bsz = 1 + umod(n, n >= 4000 ? 140000 : 700); bbuf = mode & 1; memset(&B, 0, sizeof B);
	if (bbuf) { bmem = sim_malloc(bsz); B = harbol_bistack_make_from_buffer(bmem, bsz); }
	else for (int t = 0; t < 2; t++) {
		sim_arm(t ? NULL : s); bool ok = false; if (mode & 2) B = harbol_bistack_make(bsz, &ok); else ok = harbol_bistack_init(&B, bsz);
		int f = sim_disarm(); bmem = B.mem; ev("bistack %zu %d", bsz, ok);
		CHECK(ok || f, "bistack:create", "creation failed without a fault"); CHECK(ok == (bmem != NULL), "bistack:create", "creation reported wrongly");
		if (ok) break;
		sim_probe(1); CHECK(!harbol_bistack_alloc_front(&B, 8) && !harbol_bistack_alloc_back(&B, 8), "bistack:create", "a stack that could not be created hands out memory");
		sim_leak_check("after a failed stack creation", (size_t)(rlive ? 1 : 0)); harbol_bistack_clear(&B); memset(&B, 0, sizeof B);
	}
	blive = true; fused = kused = 0; size_t n0; CHECK(sim_is_live(bmem, &n0) && n0 >= bsz, "bistack:create", "backing memory too small");
	bshadow = malloc(bsz); memcpy(bshadow, bmem, bsz);
	if (!bbuf) for (size_t i = 0; i < bsz; i++) CHECK(bmem[i] == 0, "bistack:zero", "fresh stack memory is not zero");
}
static void add(uint8_t *q, size_t n, int side, int client, uint64_t pat, uint8_t *lo, size_t sz) {
	CHECK(q >= lo && q <= lo + sz && (size_t)(lo + sz - q) >= n, "arena:bounds", "%zu bytes at offset %td of a %zu byte buffer", n, q - lo, sz);
	for (size_t i = 0; i < hn; i++) CHECK(!n || !H[i].n || q + n <= H[i].p || H[i].p + H[i].n <= q, "arena:overlap", "memory given to client %d overlaps a piece held by client %d", client, H[i].client);
	for (size_t k = 0; k < n; k++) {
		if (side == 0) CHECK(q[k] == 0, "region:zero", "byte %zu is not zero", k);
		else CHECK(q[k] == 0 || q[k] == bshadow[q - lo + (ptrdiff_t)k], "bistack:touched", "byte %zu is neither zero nor what the memory held", k);
	}
	if (hn < MAXB) { H[hn] = (Piece){ q, n, 0, side, client }; paint(&H[hn++], pat); }
}
/* allocators over a buffer of more than 4 GB: what they hand out lies in it, apart from each other, and is accounted for */
static void vast(int64_t a, int64_t b) {
	size_t n = ((size_t)1 << 32) + ((size_t)umod(a, 900) << 20) + umod(b, 5000); uint8_t *v = sim_vast(n, (size_t)2 << 20); if (!v) return;
	struct { uint8_t *p; size_t n; } got[64]; size_t k = 0; uint64_t x = (uint64_t)a * 77 + (uint64_t)b; sim_probe(2);
	if (b & 1) {
		struct HarbolRegion r = harbol_region_make_from_buffer(v, n); CHECK(harbol_region_remaining(&r) == n, "region:remaining", "a fresh region of %zu bytes reports %zu", n, harbol_region_remaining(&r));
		bool big = false;
		for (int i = 0; i < 40; i++) {
			x = mix64(x); size_t left = harbol_region_remaining(&r), want = 1 + x % 300; if (x >> 40 & 1 && !big && i > 3) { want = ((size_t)1 << 30) + (x >> 12) % n; big = true; } else if ((x >> 41) % 5 == 0) want = ((size_t)1 << 32) + x % 64; else if ((x >> 41) % 5 == 1 && i > 20) want = left + 1 + x % 9;
			uint8_t *q = harbol_region_alloc(&r, want); size_t rem = harbol_region_remaining(&r); ev("v%d", q != NULL);
			if (!q) { CHECK(want + 7 > left, "region:refused", "%zu bytes refused with %zu left", want, left); CHECK(rem == left, "region:remaining", "a refused request took %zu bytes", left - rem); continue; }
			CHECK(want <= left, "region:overcommit", "%zu bytes handed out with %zu left", want, left); CHECK(q >= v && q <= v + n && (size_t)(v + n - q) >= want, "arena:bounds", "%zu bytes at offset %td of a %zu byte buffer", want, q - v, n);
			for (size_t j = 0; j < k; j++) CHECK(q + want <= got[j].p || got[j].p + got[j].n <= q, "arena:overlap", "%zu bytes overlap an earlier piece of %zu bytes", want, got[j].n);
			CHECK(rem + want <= left && rem + want + 15 >= left, "region:remaining", "remaining went from %zu to %zu after handing out %zu", left, rem, want); CHECK(!q[0] && !q[want - 1] && !q[want / 2], "region:zero", "a piece of %zu bytes is not zero", want); got[k].p = q; got[k++].n = want;
		}
	} else {
		struct HarbolBiStack r = harbol_bistack_make_from_buffer(v, n); CHECK(harbol_bistack_get_margins(r) == n, "bistack:remaining", "a fresh stack of %zu bytes reports %zu", n, harbol_bistack_get_margins(r)); size_t used[2] = { 0, 0 }; int side[64];
		for (int i = 0; i < 40; i++) {
			x = mix64(x); int fr = (int)(x >> 50 & 1); if ((x >> 30) % 12 == 0) { if (fr) harbol_bistack_reset_front(&r); else harbol_bistack_reset_back(&r); used[fr] = 0; size_t j = 0; for (size_t t = 0; t < k; t++) if (side[t] != fr) { got[j] = got[t]; side[j++] = side[t]; } k = j; CHECK(harbol_bistack_get_margins(r) == n - used[0] - used[1], "bistack:remaining", "%zu bytes remain after a reset, expected %zu", harbol_bistack_get_margins(r), n - used[0] - used[1]); continue; }
			size_t left = harbol_bistack_get_margins(r), want = (x >> 40) % 3 == 0 ? ((size_t)1 << 28) + (x >> 12) % (n / 2) : (x >> 40) % 9 == 1 ? ((size_t)1 << 32) + x % 64 : 1 + x % 300;
			uint8_t *q = fr ? harbol_bistack_alloc_front(&r, want) : harbol_bistack_alloc_back(&r, want); size_t rem = harbol_bistack_get_margins(r); ev("v%d", q != NULL);
			if (!q) { CHECK(want + 8 > left, "bistack:refused", "%zu bytes refused with %zu left", want, left); CHECK(rem == left, "bistack:remaining", "a refused request took %zu bytes", left - rem); continue; }
			CHECK(want <= left, "bistack:overcommit", "%zu bytes handed out with %zu left", want, left); CHECK(q >= v && q <= v + n && (size_t)(v + n - q) >= want, "arena:bounds", "%zu bytes at offset %td of a %zu byte buffer", want, q - v, n);
			for (size_t j = 0; j < k; j++) CHECK(q + want <= got[j].p || got[j].p + got[j].n <= q, "arena:overlap", "%zu bytes overlap an earlier piece of %zu bytes", want, got[j].n);
			CHECK(rem + want <= left && rem + want + 15 >= left, "bistack:remaining", "remaining went from %zu to %zu after handing out %zu", left, rem, want); used[fr] += left - rem; side[k] = fr; got[k].p = q; got[k++].n = want;
		}
	}
	sim_vast_end();
}
static void exec(const Plan *p) {
	hn = 0; rlive = blive = false; bshadow = NULL;
	new_r(p->cfg[C_RSZ], p->cfg[C_MODE], NULL); new_b(p->cfg[C_BSZ], p->cfg[C_MODE] >> 1, NULL); verify("create"); uint64_t pat = 1;
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i);
		switch (s->op) {
		case O_RALLOC: {
			size_t left = rsz - rused, n = pick_size(s->a[0], s->a[1], left), al = n > SIZE_MAX - 7 ? SIZE_MAX : (n + 7) & ~(size_t)7;
			if (hn >= MAXB) break;
			uint8_t *q = harbol_region_alloc(&R, n); ev("ralloc %zu %d", n, q != NULL);
			if (q) { CHECK(n <= left, "region:overcommit", "%zu bytes handed out with %zu left", n, left); add(q, n, 0, s->task, ++pat << 8, rmem, rsz); size_t rem = harbol_region_remaining(&R); CHECK(rem + n <= left && rem + n + 15 >= left && rem <= left, "region:remaining", "remaining went from %zu to %zu after handing out %zu", left, rem, n); rused = rsz - rem; }
			else { CHECK(n == 0 || al > left, "region:refused", "%zu bytes refused with %zu left", n, left); sim_probe(0); }
			break; }
		case O_FRONT: case O_BACK: {
			size_t left = bsz - fused - kused, n = pick_size(s->a[0], s->a[1], left), al = n > SIZE_MAX - 7 ? SIZE_MAX : (n + 7) & ~(size_t)7; bool fr = s->op == O_FRONT;
			if (hn >= MAXB) break;
			uint8_t *q = fr ? harbol_bistack_alloc_front(&B, n) : harbol_bistack_alloc_back(&B, n); ev("balloc %d %zu %d", fr, n, q != NULL);
			if (q) {
				CHECK(n <= left, "bistack:overcommit", "%zu bytes handed out with %zu left", n, left); add(q, n, fr ? 1 : 2, s->task, ++pat << 8, bmem, bsz);
				size_t rem = harbol_bistack_get_margins(B); CHECK(rem + n <= left && rem + n + 15 >= left, "bistack:remaining", "remaining went from %zu to %zu after handing out %zu", left, rem, n);
				if (fr) fused += left - rem; else kused += left - rem;
			} else { CHECK(n == 0 || al >= left, "bistack:refused", "%zu bytes refused with %zu left", n, left); sim_probe(0); }
			break; }
		case O_RFRONT: harbol_bistack_reset_front(&B); fused = 0; forget(2); break;
		case O_RBACK: harbol_bistack_reset_back(&B); kused = 0; forget(4); break;
		case O_RALL: harbol_bistack_reset_all(&B); fused = kused = 0; forget(6); break;
		case O_RESIZE: {
			if (bbuf) break;
			size_t n = umod(s->a[0], 10) == 0 ? (s->a[1] & 1 ? SIZE_MAX - umod(s->a[1], 9) : (size_t)1 << 40) : umod(s->a[0], 10) == 1 ? 0 : 1 + umod(s->a[1], s->a[1] >= 4000 ? 150000 : 900);
			sim_arm(s); bool r = harbol_bistack_resize(&B, n); int f = sim_disarm(); ev("resize %zu %d", n, r);
			CHECK(r || f || n == 0, "bistack:resize", "resizing to %zu failed without a fault", n);
			if (r) {
				CHECK(n < (size_t)1 << 39, "bistack:resize", "resize to %zu bytes reported as done", n);
				forget(6); bmem = B.mem; size_t got; CHECK(n == 0 || (sim_is_live(bmem, &got) && got >= n), "bistack:resize", "backing memory too small after a resize");
				bshadow = realloc(bshadow, n + 1); if (n > bsz) memset(bshadow + bsz, 0, n - bsz);
				for (size_t k = 0; k < n; k++) { CHECK(bmem[k] == 0 || (k < bsz && bmem[k] == bshadow[k]), "bistack:touched", "after a resize byte %zu is neither zero nor what it was", k); bshadow[k] = bmem[k]; }
				bsz = n; fused = kused = 0;
			} else { if (f) sim_probe(1); CHECK(B.mem == bmem, "bistack:resize", "a failed resize replaced the memory"); }
			break; }
		case O_WRITE: if (hn) paint(&H[umod(s->a[0], hn)], ++pat << 8); break;
		case O_RRENEW: drop_r(); new_r(s->a[0], s->a[1], s); break;
		case O_BRENEW: drop_b(); new_b(s->a[0], s->a[1], s); break;
		case O_VAST: vast(s->a[0], s->a[1]); break;
		}
		verify(ops[s->op]);
	}
	drop_r(); drop_b(); sim_leak_check("after both allocators were cleared", 0);
}
static void gen(Rng *r, Plan *p) {
	bool bg = rng_p(r, 1, 40); int64_t lo = bg ? 4000 : 0; p->cfg[C_RSZ] = bg ? rng_range(r, 4000, 140000) : (int64_t)rng_below(r, 700); p->cfg[C_BSZ] = bg ? rng_range(r, 4000, 140000) : (int64_t)rng_below(r, 700); p->cfg[C_MODE] = (int64_t)rng_below(r, 8);
	unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_FRONT] += rng_below(r, 5); w[O_BACK] += rng_below(r, 5);
	for (int i = O_RFRONT; i <= O_RESIZE; i++) if (w[i] > 2) w[i] = 2;
	if (w[O_RRENEW] > 1) w[O_RRENEW] = 1; if (w[O_BRENEW] > 1) w[O_BRENEW] = 1;
	w[O_VAST] = 0;
	int n = rng_len(r) + 2, nc = 1 + (int)rng_below(r, 4); if (bg) n = n % 25 + 2;
	for (int i = 0; i < n; i++) { Step *s = plan_add(p, rng_op(r, w, NOPS), 2, (int64_t)rng_below(r, 4096) + (bg && rng_p(r, 1, 2) ? 4096 * (int64_t)rng_below(r, 30) : 0), lo * (int64_t)rng_below(r, 2) * (int64_t)rng_range(r, 1, 30) + (int64_t)rng_below(r, 4000)); s->task = (int)rng_below(r, (uint64_t)nc); }
	if (rng_p(r, 1, 8000)) plan_add(p, O_VAST, 2, (int64_t)rng_below(r, 4096), (int64_t)rng_below(r, 5000));
}
const Scenario sc_arena = { "arena", ops, cfgs, gen, exec, ALLOCF, 2 };
