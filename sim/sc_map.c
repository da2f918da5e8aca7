/* C01: ordered map against an ordered dictionary model. */
#include "sim.h"
#include "map/map.h"

enum { O_INSERT, O_KEYSET, O_IDXSET, O_KEYRM, O_IDXRM, O_REHASH, O_CLEAR, O_RENEW, O_FINDVAL, O_TICK, O_BULK, O_BULKRM };
static const char *const ops[] = { "insert", "key_set", "idx_set", "key_rm", "idx_rm", "rehash", "clear", "renew", "find_val", "tick", "bulk_set", "bulk_rm", NULL };
enum { C_ALLOC, C_INIT, C_CLOCK, C_RMODE, C_RAND, C_KEYSET, C_NKEYS, C_HEAP, C_LONG };
static const char *const cfgs[] = { "alloc", "init", "clock", "randmode", "rand", "keyset", "nkeys", "heap", "long", NULL };

#define MAXE 5200
typedef struct { const uint8_t *k, *v; size_t kl, vl; int64_t id; } Ent;
static Ent M[MAXE]; static size_t mn;

#define NKEYMAX 5000
static int64_t long_mode;
/* keys and values are functions of their numbers, kept in tables that never change */
static size_t raw_key(int64_t set, int64_t id, uint8_t *k) {
	switch (set) {
	case 0: return (size_t)sprintf((char *)k, "key%" PRId64, id);
	case 1: { size_t n = 1 + (size_t)(id % 40); memset(k, 'a', n); k[n - 1] = (uint8_t)('a' + id / 40 % 26); if (id >= 1040) { sprintf((char *)k, "%" PRId64, id); return strlen((char *)k); } return n; }          /* prefixes of one another */
	case 2: { uint64_t h = mix64((uint64_t)id); memcpy(k, &h, 8); k[0] = (uint8_t)(id & 1); k[1] = (uint8_t)(id >> 1); k[2] = (uint8_t)(id >> 9); return 3 + (size_t)(h >> 60) % 5; } /* binary, embedded zeros */
	case 3: { uint32_t v = (uint32_t)id * 16; memcpy(k, &v, 4); return 4; }                                                    /* structured integers */
	default: { /* sixteen different keys of one length with the same polynomial hash (multiplier 65599, modulo 2^64), whatever the seed */
		static const signed char d1[12] = { 3, -2, 9, -15, 4, 7, -6, -12, 17, -4, 4, -7 }, d2[12] = { 1, 6, 21, -14, -7, -6, 24, -19, -22, -10, -4, -8 };
		k[0] = 'h'; for (int i = 0; i < 12; i++) k[1 + i] = (uint8_t)(120 + (id & 3) * d1[i] + (id >> 2 & 3) * d2[i]);
		k[13] = (uint8_t)(id >> 4); return 14; }
	}
}
static size_t mk_key(const Plan *p, int64_t id, const uint8_t **k) {
	static uint8_t tab[5][NKEYMAX][48]; static uint8_t len[5][NKEYMAX];
	if (id < 0) id = -(id + 1); id %= NKEYMAX;
	if (long_mode) { /* long keys: several lengths of the same bytes around powers of two */
		static const int ln[] = { 254, 255, 256, 257, 511, 512, 513, 1024, 4096, 65535, 65536, 65537 };
		int m = long_mode > 1 ? 12 : 9; *k = sim_bytes(77 + (uint64_t)id / m, 70000); return (size_t)ln[id % m];
	}
	int64_t set = (int64_t)umod(p->cfg[C_KEYSET], 5);
	if (!len[set][id]) len[set][id] = (uint8_t)raw_key(set, id, tab[set][id]);
	*k = tab[set][id]; return len[set][id];
}
static size_t mk_val(int64_t id, const uint8_t **out) {
	static uint8_t tab[1024][48]; static uint8_t len[1024]; if (id < 0) id = -(id + 1); id %= 1000;
	if (long_mode && id % 2) { static const int ln[] = { 254, 255, 256, 257, 300, 1000, 4095, 4096, 65535, 65536, 70001 }; *out = sim_bytes((uint64_t)id / 30, 80000); return (size_t)ln[id % (long_mode > 1 ? 11 : 8)]; }
	if (!len[id]) {
		uint8_t *v = tab[id]; uint64_t h = mix64((uint64_t)id ^ 0x55); size_t n = 1 + (size_t)(h % 24);
		for (size_t i = 0; i < n; i++) v[i] = (uint8_t)(mix64((uint64_t)id + i) >> ((id & 1) ? 0 : 7));
		if (id % 5 == 0) v[0] = 0;
		v[n - 1] = (uint8_t)id; len[id] = (uint8_t)n;
	}
	*out = tab[id]; return len[id];
}
static int32_t where[NKEYMAX]; /* position + 1 of a key number; two numbers never share bytes */
static size_t m_find(int64_t id) { if (id < 0) id = -(id + 1); return (size_t)where[id % NKEYMAX] - 1; }
static size_t m_find_bytes(const uint8_t *k, size_t kl) { for (size_t i = 0; i < mn; i++) if (M[i].kl == kl && !memcmp(M[i].k, k, kl)) return i; return SIZE_MAX; }
static void m_renumber(size_t from) { for (size_t i = from; i < mn; i++) where[M[i].id] = (int32_t)i + 1; }
static void m_add(int64_t id, const uint8_t *k, size_t kl, const uint8_t *v, size_t vl) { if (id < 0) id = -(id + 1); id %= NKEYMAX; M[mn] = (Ent){ k, v, kl, vl, id }; where[id] = (int32_t)++mn; }
static void m_del(size_t e) { where[M[e].id] = 0; memmove(&M[e], &M[e + 1], (mn - e - 1) * sizeof *M); mn--; m_renumber(e); }
static void m_clear(void) { memset(where, 0, sizeof where); mn = 0; }

static void verify(const Plan *p, struct HarbolMap const *m, const char *after) {
	uint64_t sh = mn;
	CHECK(m->len == mn, "map:length", "%s: map reports %zu entries, model has %zu", after, m->len, mn);
	for (size_t i = 0; i < mn; i++) {
		uint8_t *d = harbol_map_idx_get(m, i);
		CHECK(d != NULL, "map:position", "%s: no value at position %zu of %zu", after, i, mn);
		CHECK(m->keylens[i] == M[i].kl && !memcmp(m->keys[i], M[i].k, M[i].kl), "map:order", "%s: wrong key at position %zu", after, i);
		CHECK(m->datalens[i] == M[i].vl, "map:value-length", "%s: value at position %zu has length %zu, expected %zu", after, i, m->datalens[i], M[i].vl);
		CHECK(!memcmp(d, M[i].v, M[i].vl), "map:value", "%s: wrong value at position %zu", after, i);
		CHECK(harbol_map_key_get(m, M[i].k, M[i].kl) == d, "map:lookup", "%s: key at position %zu not found by key (or finds another value)", after, i);
		sh = mix64(sh ^ M[i].v[M[i].vl - 1] ^ M[i].kl << 8);
	}
	CHECK(harbol_map_idx_get(m, mn) == NULL && harbol_map_idx_get(m, SIZE_MAX) == NULL, "map:position", "%s: value found past the last position", after);
	int64_t stride = p->cfg[C_NKEYS] > 4000 ? 97 : p->cfg[C_NKEYS] > 600 ? 7 : 1;
	for (int64_t id = 0; id < p->cfg[C_NKEYS]; id += stride) {
		const uint8_t *k; size_t kl = mk_key(p, id, &k); size_t e = m_find(id);
		CHECK(harbol_map_has_key(m, k, kl) == (e != SIZE_MAX), "map:membership", "%s: key %" PRId64 " reported %s", after, id, e == SIZE_MAX ? "present, but it is absent" : "absent, but it is present");
		CHECK(harbol_map_get_entry_index(m, k, kl) == e, "map:index", "%s: wrong position for key %" PRId64, after, id);
		CHECK((harbol_map_key_get(m, k, kl) != NULL) == (e != SIZE_MAX), "map:lookup", "%s: key %" PRId64 " lookup", after, id);
		if (kl > 1 && p->cfg[C_NKEYS] <= 100) { size_t e2 = m_find_bytes(k, kl - 1); CHECK(harbol_map_has_key(m, k, kl - 1) == (e2 != SIZE_MAX), "map:membership", "%s: prefix of key %" PRId64, after, id); }
	}
	sim_state(sh);
}

static void drop(struct HarbolMap **m, struct HarbolMap *st, bool heap, const Step *s) {
	sim_arm(s);
	if (heap) { harbol_map_free(m); CHECK(*m == NULL, "map:free", "free left a dangling reference"); harbol_map_free(m); }
	else { harbol_map_clear(*m); CHECK(st->len == 0, "map:clear", "a cleared map still reports entries"); harbol_map_clear(*m); }
	sim_disarm();
	sim_leak_check("after the map was cleared", 0);
	ev("clear"); m_clear();
}
static void exec(const Plan *p) {
	struct HarbolMap st, *m = NULL; bool heap = p->cfg[C_HEAP] & 1; bool have = false;
	memset(&st, 0x7f, sizeof st);
	m_clear(); long_mode = p->cfg[C_LONG];
	sim_clock_now = p->cfg[C_CLOCK]; sim_rand_mode = p->cfg[C_RMODE]; sim_rand_state = (uint64_t)p->cfg[C_RAND];
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i);
		const uint8_t *k, *v; int64_t id = s->a[0] % (p->cfg[C_NKEYS] > 0 ? p->cfg[C_NKEYS] : 1); size_t kl = mk_key(p, id, &k), vl = mk_val(s->a[1], &v);
		if (s->op == O_RENEW && have) { drop(&m, &st, heap, s); have = false; }
		if (!have) {
			/* (re)create; a failure must leave nothing behind and is retried without faults */
			bool ok = false; size_t sz = s->op == O_RENEW ? (size_t)s->a[1] : (size_t)p->cfg[C_INIT];
			for (int attempt = 0; attempt < 2; attempt++) {
				sim_arm(attempt == 0 && s->op == O_RENEW ? s : NULL);
				if (heap) { m = harbol_map_new(sz); ok = m != NULL; }
				else if (p->cfg[C_HEAP] & 2) { memset(&st, 0, sizeof st); ok = harbol_map_init(&st, sz); m = &st; }
				else { st = harbol_map_make(sz, &ok); m = &st; }
				int f = sim_disarm();
				ev("new %zu -> %d", sz, ok);
				CHECK(ok || f, "map:create", "creating a map of capacity %zu failed without a fault", sz);
				if (ok) break;
				sim_leak_check("after a failed map creation", 0);
			}
			have = true; m_clear();
			verify(p, m, "create");
		}
		bool r = false; int f = 0; size_t e;
		switch (s->op) {
		case O_INSERT:
			e = m_find(id);
			sim_arm(s); r = harbol_map_insert(m, k, kl, v, vl); f = sim_disarm();
			ev("insert %" PRId64 " -> %d", s->a[0], r);
			CHECK(!r || e == SIZE_MAX, "map:duplicate", "inserting an existing key reported success");
			CHECK(r || e != SIZE_MAX || f, "map:insert", "inserting a new key failed without a fault");
			if (r) m_add(id, k, kl, v, vl);
			break;
		case O_KEYSET:
			e = m_find(id);
			sim_arm(s); r = harbol_map_key_set(m, k, kl, v, vl); f = sim_disarm();
			ev("key_set %" PRId64 " -> %d", s->a[0], r);
			CHECK(r || f, "map:set", "setting a key failed without a fault");
			if (r) { if (e == SIZE_MAX) m_add(id, k, kl, v, vl); else { M[e].v = v; M[e].vl = vl; } }
			break;
		case O_IDXSET: {
			size_t idx = s->a[0] < 0 ? SIZE_MAX : mn ? (size_t)s->a[0] % (mn + 1) : 0;
			sim_arm(s); r = harbol_map_idx_set(m, idx, v, vl); f = sim_disarm();
			ev("idx_set %zu -> %d", idx, r);
			CHECK(!r || idx < mn, "map:idx-set", "setting position %zu of %zu reported success", idx, mn);
			CHECK(r || idx >= mn || f, "map:idx-set", "setting position %zu of %zu failed without a fault", idx, mn);
			if (r) { M[idx].v = v; M[idx].vl = vl; }
			break; }
		case O_KEYRM: case O_IDXRM: {
			e = s->op == O_KEYRM ? m_find(id) : (s->a[0] < 0 ? SIZE_MAX : mn ? (size_t)s->a[0] % (mn + 1) : 0);
			sim_arm(s); r = s->op == O_KEYRM ? harbol_map_key_rm(m, k, kl) : harbol_map_idx_rm(m, e); f = sim_disarm();
			ev("rm %zu -> %d", e, r);
			CHECK(r == (e < mn) || f, "map:remove", "removing %s entry reported %d", e < mn ? "an existing" : "a missing", r);
			CHECK(!r || e < mn, "map:remove", "removing a missing entry reported success");
			if (r) { m_del(e); sim_probe(0); }
			break; }
		case O_REHASH: {
			size_t sz = (size_t)(s->a[0] < 0 ? -s->a[0] : s->a[0]);
			sim_arm(s); r = harbol_map_rehash(m, sz); f = sim_disarm();
			ev("rehash %zu -> %d", sz, r);
			CHECK(r || f || sz < mn, "map:rehash", "rehashing %zu entries to capacity %zu failed without a fault", mn, sz);
			break; }
		case O_FINDVAL: {
			if (mn && s->a[2] >= 4) { /* bytes that differ from those of an entry only at the very end (or near it) are not those of the entry */
				size_t q = umod(s->a[0], mn), back = s->a[2] == 4 ? 1 : 1 + umod(s->a[1], M[q].kl < M[q].vl ? M[q].kl : M[q].vl); static uint8_t t[80048];
				memcpy(t, M[q].k, M[q].kl); t[M[q].kl - back] ^= 0x20; size_t e1 = m_find_bytes(t, M[q].kl);
				CHECK(harbol_map_get_entry_index(m, t, M[q].kl) == e1, "map:index", "a key that differs from an entry's only %zu bytes from its end of %zu is found at the wrong position", back, M[q].kl);
				CHECK(harbol_map_has_key(m, t, M[q].kl) == (e1 != SIZE_MAX), "map:membership", "a key that differs from an entry's only %zu bytes from its end of %zu is reported %s", back, M[q].kl, e1 == SIZE_MAX ? "present" : "absent");
				memcpy(t, M[q].v, M[q].vl); t[M[q].vl - back] ^= 0x20; size_t want = SIZE_MAX, got;
				for (size_t i2 = 0; i2 < mn && want == SIZE_MAX; i2++) if (M[i2].vl == M[q].vl && !memcmp(M[i2].v, t, M[q].vl)) want = i2;
				got = harbol_map_idx_val(m, t, M[q].vl);
				CHECK(got == want, "map:find-value", "a value that differs from an entry's only %zu bytes from its end of %zu is found at position %zu, expected %zu", back, M[q].vl, got, want);
				ev("near %zu", got); break; }
			if (mn && s->a[2] == 3) { sim_probe(2); size_t at[] = { 0, mn - 1, mn / 2 }; for (int j = 0; j < 3; j++) { size_t q = at[j], want = 0; while (M[want].vl != M[q].vl || memcmp(M[want].v, M[q].v, M[q].vl)) want++;
				size_t gl = 999, got = harbol_map_idx_val(m, M[q].v, M[q].vl); uint8_t *gk = harbol_map_key_val(m, M[q].v, M[q].vl, &gl);
				CHECK(got == want, "map:find-value", "the value of position %zu of %zu is found at position %zu, expected %zu", q, mn, got, want);
				CHECK(gk != NULL && gl == M[want].kl && !memcmp(gk, M[want].k, gl), "map:find-value", "wrong key for the value of position %zu", q); }
				ev("ends"); break; }
			size_t want = SIZE_MAX; if (mn && s->a[2]) { size_t q = (size_t)s->a[0] % mn; v = M[q].v; vl = M[q].vl; if (s->a[2] == 2 && vl > 1) vl -= 1 + (size_t)s->a[1] % (vl - 1); /* the beginning of a value is not the value */ }
			for (size_t q = 0; q < mn && want == SIZE_MAX; q++) if (M[q].vl == vl && !memcmp(M[q].v, v, vl)) want = q;
			sim_arm(s); size_t got = harbol_map_idx_val(m, v, vl); size_t gl = 999; uint8_t *gk = harbol_map_key_val(m, v, vl, &gl); f = sim_disarm();
			ev("find_val -> %zu", got);
			CHECK(got == want, "map:find-value", "value found at position %zu, expected %zu", got, want);
			CHECK(want == SIZE_MAX ? gk == NULL : (gk != NULL && gl == M[want].kl && !memcmp(gk, M[want].k, gl)), "map:find-value", "wrong key for value");
			break; }
		case O_BULK: { /* many keys in a row, every one through the faults of this step */
			int64_t from = s->a[0], cnt = 1 + (int64_t)umod(s->a[2], 5000); if (cnt > p->cfg[C_NKEYS]) cnt = p->cfg[C_NKEYS];
			sim_arm(s);
			for (int64_t q = 0; q < cnt; q++) {
				id = (from + q) % p->cfg[C_NKEYS]; kl = mk_key(p, id, &k); vl = mk_val(s->a[1] + q, &v); e = m_find(id); int f0 = sim_fired_any();
				if (q & 1) r = harbol_map_key_set(m, k, kl, v, vl); else { r = harbol_map_insert(m, k, kl, v, vl); CHECK(!r || e == SIZE_MAX, "map:duplicate", "inserting an existing key reported success"); }
				CHECK(r || sim_fired_any() > f0 || (!(q & 1) && e != SIZE_MAX), "map:insert", "adding one of many keys failed without a fault");
				if (r) { if (e == SIZE_MAX) m_add(id, k, kl, v, vl); else { M[e].v = v; M[e].vl = vl; } }
			}
			f = sim_disarm(); ev("bulk %zu", mn); break; }
		case O_BULKRM: { int64_t cnt = 1 + (int64_t)umod(s->a[2], 3000); sim_arm(s);
			for (int64_t q = 0; q < cnt && mn; q++) { int f0 = sim_fired_any(); if (s->a[1] & 1) { e = umod(s->a[0] + q * 7, mn); r = harbol_map_idx_rm(m, e); } else { e = m_find((s->a[0] + q) % p->cfg[C_NKEYS]); kl = mk_key(p, (s->a[0] + q) % p->cfg[C_NKEYS], &k); r = harbol_map_key_rm(m, k, kl); }
				CHECK(r == (e < mn) || (!r && sim_fired_any() > f0), "map:remove", "removing one of many entries reported %d", r); if (r) m_del(e); }
			f = sim_disarm(); ev("bulkrm %zu", mn); break; }
		case O_TICK: sim_clock_advance(s->a[0] % 100000); break;
		case O_CLEAR: drop(&m, &st, heap, s); have = !heap && (s->a[1] & 1); break;   /* a cleared map is an empty map */
		case O_RENEW: break;
		}
		if (f) sim_probe(1);
		if (have) verify(p, m, ops[s->op]);
	}
	if (have) drop(&m, &st, heap, NULL);
}

static void gen(Rng *r, Plan *p) {
	static const int64_t inits[] = { 4, 8, 8, 16, 32, 1, 2, 3, 5, 6, 7, 9, 12, 0 };
	p->cfg[C_INIT] = inits[rng_below(r, rng_p(r, 1, 2) ? 5 : 14)];
	p->cfg[C_CLOCK] = rng_p(r, 1, 8) ? rng_range(r, -5, 5) : (int64_t)(rng_u64(r) >> 20);
	p->cfg[C_RMODE] = (int64_t)rng_below(r, 3);
	p->cfg[C_RAND] = rng_p(r, 1, 4) ? (int64_t)rng_below(r, 4) : (int64_t)(rng_u64(r) >> 33);
	p->cfg[C_KEYSET] = (int64_t)rng_below(r, 5);
	p->cfg[C_NKEYS] = rng_p(r, 1, 2) ? rng_range(r, 2, 9) : rng_range(r, 8, 40);
	p->cfg[C_HEAP] = (int64_t)rng_below(r, 4);
	if (rng_p(r, 1, 40)) { p->cfg[C_LONG] = rng_p(r, 1, 10) ? 2 : 1; p->cfg[C_NKEYS] = rng_range(r, 6, 36); }
	bool many = !p->cfg[C_LONG] && rng_p(r, 1, 120); if (many) p->cfg[C_KEYSET] &= 3;
	if (many) p->cfg[C_NKEYS] = rng_p(r, 1, 12) ? (rng_p(r, 1, 4) ? rng_range(r, 4100, 5000) : rng_range(r, 1000, 4000)) : rng_range(r, 100, 700);
	if (!many && !p->cfg[C_LONG] && rng_p(r, 1, 400)) { p->cfg[C_INIT] = rng_range(r, 3000, 140000); p->cfg[C_NKEYS] = rng_range(r, 2, 6); } /* a capacity far above the count */
	unsigned w[12]; for (int i = 0; i < 12; i++) w[i] = rng_p(r, 1, 3) ? 0 : 1 + (unsigned)rng_below(r, 8);
	w[O_INSERT] += 6; w[O_CLEAR] = rng_p(r, 1, 6); w[O_RENEW] = rng_p(r, 1, 6); if (rng_p(r, 1, 2)) w[O_KEYRM] += 5;
	if (w[O_REHASH] > 2) w[O_REHASH] = 2;
	if (!many) w[O_BULK] = w[O_BULKRM] = 0; else { w[O_BULK] += 8; w[O_FINDVAL] += 5; }
	unsigned tot = 0; for (int i = 0; i < 12; i++) tot += w[i];
	int n = rng_p(r, 1, 10) ? (int)rng_range(r, 60, 160) : (int)rng_range(r, 3, 40); if (many || p->cfg[C_LONG] > 1) n = (int)rng_range(r, 2, p->cfg[C_NKEYS] > 4000 ? 4 : 12);
	for (int i = 0; i < n; i++) {
		unsigned x = (unsigned)rng_below(r, tot); int op = 0; while (x >= w[op]) x -= w[op++];
		int64_t key = (int64_t)rng_below(r, (uint64_t)p->cfg[C_NKEYS]);
		switch (op) {
		case O_REHASH: plan_add(p, op, 1, rng_p(r, 1, 4) ? rng_range(r, 0, 40) : (int64_t)1 << rng_below(r, 8)); break;
		case O_IDXSET: case O_IDXRM: plan_add(p, op, 2, rng_p(r, 1, 12) ? (int64_t)-1 : (int64_t)rng_below(r, 64), (int64_t)rng_below(r, 1000)); break;
		case O_FINDVAL: plan_add(p, op, 3, key, (int64_t)rng_below(r, 1000), (int64_t)rng_below(r, 6)); break;
		case O_RENEW: plan_add(p, op, 2, key, inits[rng_below(r, 14)]); break;
		case O_BULK: case O_BULKRM: plan_add(p, op, 3, key, (int64_t)rng_below(r, 1000), rng_p(r, 1, 2) ? (int64_t)rng_below(r, 300) : (int64_t)rng_below(r, p->cfg[C_NKEYS] > 4000 ? 12000 : 3000)); break;
		case O_TICK: plan_add(p, op, 1, rng_range(r, -50000, 50000)); break;
		default: plan_add(p, op, 2, key, (int64_t)rng_below(r, 1000));
		}
	}
}
const Scenario sc_map = { "map", ops, cfgs, gen, exec, FM(F_ALLOC) | FM(F_ALLOC_ALL), 3, 2000u * 1000 * 1000 };
