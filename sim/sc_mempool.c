/* C19: memory pool shared by interleaved clients, each owning the pieces it holds. */
#include "sim.h"
#include "allocators/mempool/mempool.h"
enum { O_ALLOC, O_REALLOC, O_FREE, O_CLEANUP, O_FREE_BAD, O_REALLOC_BAD, O_FREE_AGAIN, O_WRITE, O_EXHAUST, O_RELEASE_ALL, O_RENEW, O_REFILL, O_VAST, NOPS };
static const char *const ops[] = { "alloc", "realloc", "free", "cleanup", "free_foreign", "realloc_foreign", "free_released", "write", "exhaust", "release_all", "renew", "refill", "vast", NULL };
enum { C_ALLOC, C_SIZE, C_MODE, C_SZ };
static const char *const cfgs[] = { "alloc", "size", "mode", "sizes", NULL };
#define MAXB 1200
#define HDR sizeof(struct HarbolMemNode)
typedef struct { uint8_t *p; size_t n; uint64_t pat; int client; } Piece;
static Piece H[MAXB]; static size_t hn;
static uint8_t *Old[64]; static size_t on;           /* recently released */
static struct HarbolMemPool P; static bool frombuf, live; static uint8_t *mem; static size_t size;
static uint8_t pb(uint64_t pat, size_t k) { return (uint8_t)(mix64(pat + k / 8) >> (k % 8 * 8)); }
static void paint(Piece *h, uint64_t pat) { h->pat = pat; for (size_t k = 0; k < h->n; k++) h->p[k] = pb(pat, k); }
static void verify(const char *after) {
	uint64_t st = 9; size_t sum = 0, used = 0;
	for (size_t i = 0; i < hn; i++) {
		for (size_t k = 0; k < H[i].n; k++) CHECK(H[i].p[k] == pb(H[i].pat, k), "mempool:contents", "%s: byte %zu of a piece held by client %d changed", after, k, H[i].client);
		st ^= mix64((uint64_t)(H[i].p - mem) << 16 ^ H[i].n); sum += H[i].n; used += ((H[i].n + HDR + 7) & ~(size_t)7) + 64;
	}
	size_t rem = harbol_mempool_mem_remaining(&P);
	CHECK(rem <= size && rem + sum <= size, "mempool:remaining", "%s: %zu bytes reported remaining of %zu while %zu are handed out", after, rem, size, sum);
	CHECK(rem + used >= size, "mempool:remaining", "%s: %zu bytes reported remaining of %zu while only %zu are handed out, in %zu pieces", after, rem, size, sum, hn);
	if (!hn) CHECK(rem == size, "mempool:remaining", "%s: everything was released but only %zu of %zu bytes remain", after, rem, size);
	sim_state(st);
}
static void add(uint8_t *q, size_t n, int client, uint64_t pat, size_t skip, bool zero) {
	CHECK(q >= mem + HDR && q <= mem + size && (size_t)(mem + size - q) >= n, "mempool:bounds", "%zu bytes at offset %td of a %zu byte pool", n, q - mem, size);
	for (size_t i = 0; i < hn; i++) if (i != skip) CHECK(q + n <= H[i].p || H[i].p + H[i].n <= q, "mempool:overlap", "memory given to client %d overlaps a piece held by client %d", client, H[i].client);
	if (zero) for (size_t k = 0; k < n; k++) CHECK(q[k] == 0, "mempool:zero", "byte %zu of a fresh piece is not zero", k);
	H[hn] = (Piece){ q, n, 0, client }; paint(&H[hn++], pat);
}
static void drop(void) {
	if (live) { if (frombuf) sim_free(mem); else { harbol_mempool_clear(&P); CHECK(!harbol_mempool_alloc(&P, 8) && !harbol_mempool_mem_remaining(&P), "mempool:cleared", "a cleared pool still hands out memory"); } }
	live = false; hn = on = 0; sim_leak_check("after the pool was cleared", 0);
}
static void create(int64_t n, int64_t mode, const Step *s) {
	size = 32 + umod(n, n >= 4000 ? 200000 : umod(n, 3) ? 400 : 3000); if (mode & 4) size &= ~(size_t)7;
	frombuf = mode & 1; memset(&P, 0, sizeof P);
	if (mode % 13 == 5) { CHECK(!harbol_mempool_init(&P, 0), "mempool:create", "pool of no bytes reported as created"); bool r = true; P = harbol_mempool_make((size_t)1 << 50, &r); CHECK(!r, "mempool:create", "pool larger than memory reported as created"); harbol_mempool_clear(&P); memset(&P, 0, sizeof P); }
	for (int t = 0; t < 2; t++) {
		bool ok = false; int f = 0;
		if (frombuf) { mem = sim_malloc(size); if (mode & 2) P = harbol_mempool_make_from_buffer(mem, size, &ok); else ok = harbol_mempool_init_from_buffer(&P, mem, size); }
		else { sim_arm(t ? NULL : s); if (mode & 2) P = harbol_mempool_make(size, &ok); else ok = harbol_mempool_init(&P, size); f = sim_disarm(); }
		ev("pool %zu %d", size, ok); CHECK(ok || f, "mempool:create", "creation failed without a fault"); CHECK(!ok || !f, "mempool:create", "creation succeeded although memory ran out");
		if (ok) break;
		sim_probe(1); CHECK(!harbol_mempool_alloc(&P, 8), "mempool:create", "a pool that could not be created hands out memory"); sim_leak_check("after a failed pool creation", 0); memset(&P, 0, sizeof P);
	}
	live = true; hn = on = 0; mem = P.stack.mem; size_t n0; CHECK(sim_is_live(mem, &n0) && n0 >= size, "mempool:create", "backing memory too small");
}
static size_t pick(const Plan *p, int64_t a, int64_t b) {
	static const size_t huge[] = { SIZE_MAX, SIZE_MAX - 7, SIZE_MAX - 24, SIZE_MAX - 31, SIZE_MAX / 2, (size_t)1 << 63, SIZE_MAX - 55 };
	switch (umod(a, 20)) { case 0: return huge[umod(b, 7)]; case 1: return size - umod(b, 40); case 2: return size + umod(b, 40); case 3: return size / 2; case 4: return 0; case 5: case 6: if (p->cfg[C_SIZE] >= 4000) { static const size_t lg[] = { 255, 256, 257, 264, 300, 1000, 1024, 4096, 16384, 65512, 65528, 65535, 65536, 65537 }; return lg[umod(b, 14)]; } /* fall through */
	default: return p->cfg[C_SZ] == 0 ? 1 + umod(b, 48) : p->cfg[C_SZ] == 1 ? 1 + umod(b, 200) : 8 * (1 + umod(b, 3)) + (umod(a, 5) == 4 ? umod(b, 150) : 0); }
}
static bool room(size_t n) { return n && n <= size && ((n + HDR + 7) & ~(size_t)7) <= P.stack.offs; }      /* fits into the part that is not in any list */
static bool take(size_t n, int client, uint64_t pat) {
	bool must = room(n); uint8_t *q = harbol_mempool_alloc(&P, n); ev("alloc %zu %d", n, q != NULL);
	if (!q) { sim_probe(0); bool fits = n && n <= size && ((n + HDR + 7) & ~(size_t)7) <= size; CHECK(hn || !fits, "mempool:refused", "%zu bytes refused by an entirely free pool of %zu", n, size); CHECK(!must, "mempool:refused", "%zu bytes refused although %zu were never handed out", n, P.stack.offs); return false; }
	CHECK(n > 0 && n <= size, "mempool:overcommit", "%zu bytes handed out by a pool of %zu", n, size);
	add(q, n, client, pat, SIZE_MAX, true); return true;
}
static void give(size_t i, bool cleanup) {
	void *q = H[i].p; Old[on++ % 64] = q; H[i] = H[--hn]; bool r;
	if (cleanup) { r = harbol_mempool_cleanup(&P, &q); CHECK(q == NULL, "mempool:cleanup", "cleanup left the reference"); CHECK(!harbol_mempool_cleanup(&P, &q), "mempool:cleanup", "cleaning up a null reference reported as done"); } else r = harbol_mempool_free(&P, q);
	CHECK(r, "mempool:free", "releasing a live piece was refused");
}
static uint8_t *foreign(int64_t a, uint8_t *other) {
	uint8_t *top = mem + P.stack.offs;
	switch (umod(a, 10)) { case 0: return other + 40; case 1: return mem + size; case 2: return mem + size + 24; case 3: return mem + size + 4096; case 4: return mem - 8; case 5: return mem; case 6: return mem + HDR - 8; case 7: return (uint8_t *)64; case 8: return (uint8_t *)8; default: return top > mem + HDR ? mem + HDR : NULL; }
}
/* a pool over more than 4 GB, of which only the pieces handed out are ever touched */
static void vast(int64_t a, int64_t b) {
	size_t n = ((size_t)1 << 32) + ((size_t)umod(a, 4000) << 20) + umod(b, 5000); uint8_t *v = sim_vast(n, (size_t)64 << 20); if (!v) return;
	bool ok = false; struct HarbolMemPool m; memset(&m, 0, sizeof m); if (b & 1) m = harbol_mempool_make_from_buffer(v, n, &ok); else ok = harbol_mempool_init_from_buffer(&m, v, n);
	CHECK(ok && harbol_mempool_mem_remaining(&m) == n, "mempool:create", "a pool over %zu bytes reports %zu", n, harbol_mempool_mem_remaining(&m)); sim_probe(5);
	Piece g[40]; size_t k = 0; uint64_t x = (uint64_t)a * 91 + (uint64_t)b;
	for (int i = 0; i < 60; i++) {
		x = mix64(x); size_t left = harbol_mempool_mem_remaining(&m);
		if (k && (x >> 40) % 3 == 0) { size_t t = x % k; void *q = g[t].p; CHECK(harbol_mempool_free(&m, q), "mempool:free", "releasing a live piece was refused"); g[t] = g[--k]; CHECK(harbol_mempool_mem_remaining(&m) > left, "mempool:remaining", "releasing a piece left %zu bytes, before it were %zu", harbol_mempool_mem_remaining(&m), left); continue; }
		if (k == 40) continue;
		size_t want = (x >> 50) % 7 == 0 ? n - umod((int64_t)x, 23) : 1 + x % ((x >> 30) % 4 ? 300 : 100000); bool re = k && (x >> 60) == 1 && want < 200000; size_t t = re ? x / 7 % k : k;
		uint8_t *q = re ? harbol_mempool_realloc(&m, g[t].p, want) : harbol_mempool_alloc(&m, want); ev("v%d", q != NULL);
		if (!q) { CHECK(want + 64 > n, "mempool:refused", "%zu bytes refused although %zu remain", want, left); continue; }
		CHECK(want <= left, "mempool:overcommit", "%zu bytes handed out with %zu left", want, left); CHECK(q >= v + HDR && q <= v + n && (size_t)(v + n - q) >= want, "mempool:bounds", "%zu bytes at offset %td of a %zu byte pool", want, q - v, n);
		for (size_t j = 0; j < k; j++) if (j != t) CHECK(q + want <= g[j].p || g[j].p + g[j].n <= q, "mempool:overlap", "%zu bytes overlap an earlier piece of %zu bytes", want, g[j].n);
		if (re) { for (size_t z = 0; z < want && z < g[t].n; z++) CHECK(q[z] == pb(g[t].pat, z), "mempool:resize", "byte %zu lost when resizing", z); } else for (size_t z = 0; z < want; z++) CHECK(!q[z], "mempool:zero", "byte %zu of a fresh piece is not zero", z);
		g[t] = (Piece){ q, want, 0, 0 }; paint(&g[t], x); if (!re) k++;
	}
	for (size_t j = 0; j < k; j++) for (size_t z = 0; z < g[j].n; z++) CHECK(g[j].p[z] == pb(g[j].pat, z), "mempool:contents", "byte %zu of a piece changed", z);
	while (k) CHECK(harbol_mempool_free(&m, g[--k].p), "mempool:free", "releasing a live piece was refused");
	CHECK(harbol_mempool_mem_remaining(&m) == n, "mempool:remaining", "everything was released but only %zu of %zu bytes remain", harbol_mempool_mem_remaining(&m), n); sim_vast_end();
}
static void exec(const Plan *p) {
	live = false; create(p->cfg[C_SIZE], p->cfg[C_MODE], NULL); uint64_t pat = 1; uint8_t other[128];
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i); int cl = s->task; size_t mine = SIZE_MAX, c = 0;
		for (size_t k = 0; k < hn; k++) if (H[k].client == cl) c++;
		if (c) { size_t t = umod(s->a[0], c); for (size_t k = 0; k < hn; k++) if (H[k].client == cl && t-- == 0) { mine = k; break; } }
		switch (s->op) {
		case O_ALLOC: if (hn < MAXB - 1) take(pick(p, s->a[0], s->a[1]), cl, ++pat << 8); break;
		case O_REALLOC: {
			size_t n = pick(p, s->a[2], s->a[1]); if (hn >= MAXB - 1) break;
			if (mine == SIZE_MAX) { bool must = room(n); uint8_t *q = harbol_mempool_realloc(&P, NULL, n); ev("realloc0 %zu %d", n, q != NULL); CHECK(q || !must, "mempool:refused", "%zu bytes refused although there is room", n); if (q) { CHECK(n <= size, "mempool:overcommit", "%zu bytes handed out by a pool of %zu", n, size); add(q, n, cl, ++pat << 8, SIZE_MAX, true); } break; }
			Piece o = H[mine]; bool must = room(n); uint8_t *q = harbol_mempool_realloc(&P, o.p, n); ev("realloc %zu %zu %d", o.n, n, q != NULL); CHECK(q || !must, "mempool:refused", "resizing to %zu bytes refused although there is room", n);
			if (q) {
				for (size_t k = 0; k < o.n && k < n; k++) CHECK(q[k] == pb(o.pat, k), "mempool:resize", "byte %zu lost when resizing from %zu to %zu", k, o.n, n);
				CHECK(n <= size, "mempool:overcommit", "%zu bytes handed out by a pool of %zu", n, size);
				if (q != o.p) Old[on++ % 64] = o.p;
				H[mine] = H[--hn]; add(q, n, cl, ++pat << 8, SIZE_MAX, false);
			}
			break; }
		case O_FREE: case O_CLEANUP: if (mine != SIZE_MAX) give(mine, s->op == O_CLEANUP); break;
		case O_FREE_BAD: case O_REALLOC_BAD: {
			uint8_t *q = foreign(s->a[0], other); for (size_t k = 0; k < sizeof other; k++) other[k] = (uint8_t)(s->a[1] & 1 ? 0x5A : k % 8 == 0 ? 40 : 0);
			uint8_t keep[128]; memcpy(keep, other, sizeof keep);
			if (s->op == O_REALLOC_BAD && q == NULL) break;
			bool r = s->op == O_FREE_BAD ? harbol_mempool_free(&P, q) : harbol_mempool_realloc(&P, q, 1 + umod(s->a[1], 40)) != NULL; ev("foreign %d", r);
			CHECK(!r, "mempool:foreign", "%s a foreign pointer reported as done", s->op == O_FREE_BAD ? "releasing" : "resizing");
			CHECK(!memcmp(keep, other, sizeof keep), "mempool:foreign", "foreign memory was written to");
			break; }
		case O_FREE_AGAIN: {
			size_t m = on < 64 ? on : 64; if (!m) break;
			uint8_t *q = Old[umod(s->a[0], m)]; bool covered = false;
			for (size_t k = 0; k < hn; k++) if (q >= H[k].p - HDR && q - HDR < H[k].p + H[k].n + 40) covered = true;   /* re-used meanwhile */
			if (covered) break;
			sim_probe(2); bool r = s->a[1] & 1 ? harbol_mempool_realloc(&P, q, 1 + umod(s->a[2], 40)) != NULL : harbol_mempool_free(&P, q); ev("again %d", r);
			CHECK(!r, "mempool:released-again", "an already released piece was accepted again");
			break; }
		case O_WRITE: if (mine != SIZE_MAX) paint(&H[mine], ++pat << 8); break;
		case O_EXHAUST: { size_t n = 1 + umod(s->a[1], 60), k = 0; while (hn < MAXB - 1 && take(n, (cl + (s->a[0] & 1 ? (int)(k++ % 3) : 0)), ++pat << 8)) ; break; }
		case O_RELEASE_ALL: while (hn) give(umod((int64_t)mix64((uint64_t)s->a[0] + hn), hn), hn & 1);
			verify("release_all"); take(s->a[1] & 1 ? size - HDR - 8 - (size & 7) : 1 + umod(s->a[1], size - HDR - 7), cl, ++pat << 8); break;
		case O_REFILL: {   /* a hole between pieces in use serves a request of its size, and a large one every smaller large request */
			if (mine == SIZE_MAX) break;
			size_t n = H[mine].n; uint8_t *lo = H[mine].p - HDR, *hi = H[mine].p + ((n + 7) & ~(size_t)7); bool a = lo == mem + P.stack.offs, b = hi == mem + size;
			for (size_t k = 0; k < hn; k++) if (k != mine) { if (H[k].p + ((H[k].n + 7) & ~(size_t)7) == lo) a = true; if (H[k].p - HDR == hi) b = true; }
			size_t nx = SIZE_MAX; for (size_t k = 0; k < hn; k++) if (k != mine && H[k].p - HDR == hi) nx = k;
			if (a && nx != SIZE_MAX && s->a[2] & 1 && (H[nx].n == n || (n > 200 && H[nx].n > 200))) {       /* two neighbours: together they serve a request of their joint size */
				uint8_t *h2 = H[nx].p + ((H[nx].n + 7) & ~(size_t)7); bool c = h2 == mem + size; for (size_t k = 0; k < hn; k++) if (H[k].p - HDR == h2) c = true;
				if (c) { uint8_t *f[2] = { lo + HDR, hi + HDR }; if (s->a[1] & 2) { f[0] = hi + HDR; f[1] = lo + HDR; } for (int j = 0; j < 2; j++) { for (size_t k = 0; k < hn; k++) if (H[k].p == f[j]) { give(k, false); break; } verify("release"); } n = (size_t)(h2 - lo) - HDR; sim_probe(4); CHECK(take(n, cl, ++pat << 8), "mempool:refused", "%zu bytes refused although two adjacent pieces of that size together were just released", n); break; }
			}
			give(mine, false); verify("release"); if (!a || !b) break;
			if (n > 200 && s->a[1] & 1) n = 200 + umod(s->a[2], n - 199);
			sim_probe(3); CHECK(take(n, cl, ++pat << 8), "mempool:refused", "%zu bytes refused although a hole of that size was just released", n); break; }
		case O_RENEW: drop(); create(s->a[0], s->a[1], s); break;
		case O_VAST: vast(s->a[0], s->a[1]); break;
		}
		verify(ops[s->op]);
	}
	while (hn) give(hn / 2, false);
	verify("final release"); drop();
}
static void gen(Rng *r, Plan *p) {
	bool bg = rng_p(r, 1, 25); p->cfg[C_SIZE] = bg ? rng_range(r, 4000, 200000) : (int64_t)rng_below(r, 3000); p->cfg[C_MODE] = (int64_t)rng_below(r, 104); p->cfg[C_SZ] = (int64_t)rng_below(r, 3);
	unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_ALLOC] += rng_below(r, 6); w[O_FREE] += rng_below(r, 6); if (w[O_RENEW] > 1) w[O_RENEW] = 1; if (w[O_RELEASE_ALL] > 1) w[O_RELEASE_ALL] = 1; if (w[O_EXHAUST] > 2) w[O_EXHAUST] = 2;
	w[O_VAST] = 0;
	int n = rng_len(r) + 2, nc = 1 + (int)rng_below(r, 4); if (bg) n = n % 40 + 2;
	for (int i = 0; i < n; i++) { Step *s = plan_add(p, rng_op(r, w, NOPS), 3, (int64_t)rng_below(r, bg ? 200000 : 4096), (int64_t)rng_below(r, bg ? 8000 : 4000), (int64_t)rng_below(r, 4096)); s->task = (int)rng_below(r, (uint64_t)nc); }
	if (rng_p(r, 1, 5000)) plan_add(p, O_VAST, 3, (int64_t)rng_below(r, 4096), (int64_t)rng_below(r, 5000), (int64_t)0);
}
const Scenario sc_mempool = { "mempool", ops, cfgs, gen, exec, ALLOCF, 2 };
