/* C05: byte buffers against a byte-sequence model, with a simulated disk behind their file operations. */
#include "sim.h"
#include "bytebuffer/bytebuffer.h"
enum { O_SCALAR, O_CSTR, O_OBJ, O_ZEROS, O_DEL, O_TOFILE, O_FROMSTREAM, O_FROMNAME, O_APPEND, O_COPY, O_CLEAR, O_RENEW, NOPS };
static const char *const ops[] = { "scalar", "cstr", "obj", "zeros", "del", "to_file", "from_stream", "from_name", "append", "copy", "clear", "renew", NULL };
enum { C_ALLOC, C_HEAP, C_RCHUNK, C_BUFSZ, C_BIG };
static const char *const cfgs[] = { "alloc", "heap", "rchunk", "bufsz", "big", NULL };
#define CAPMAX 300000
static size_t CAP; /* 16384, or far more in plans of large buffers */
typedef struct { uint8_t d[CAPMAX]; size_t n; } Mod;
static Mod M[2]; static struct HarbolByteBuf st[2], *B[2]; static bool heap[2];
static void verify(int w, const char *after) {
	Mod *m = &M[w]; const uint8_t *t = harbol_bytebuffer_get_buffer(B[w]);
	CHECK(harbol_bytebuffer_len(B[w]) == m->n, "bytebuf:length", "%s: buffer %d reports %zu bytes, model has %zu", after, w, harbol_bytebuffer_len(B[w]), m->n);
	CHECK(harbol_bytebuffer_cap(B[w]) >= m->n, "bytebuf:capacity", "%s: length exceeds capacity", after);
	if (!t) { CHECK(m->n == 0, "bytebuf:lost", "%s: contents lost", after); return; }
	size_t blk; CHECK(sim_is_live(t, &blk) && blk >= m->n && blk >= harbol_bytebuffer_cap(B[w]), "bytebuf:storage", "%s: storage smaller than reported", after);
	if (memcmp(t, m->d, m->n)) for (size_t i = 0; i < m->n; i++) CHECK(t[i] == m->d[i], "bytebuf:contents", "%s: byte %zu of %zu is %02x, model %02x", after, i, m->n, t[i], m->d[i]);
	uint64_t h = m->n; for (size_t i = 0; i < m->n; i += 1 + m->n / 64) h = h * 131 + m->d[i]; sim_state(mix64(h));
}
static void drop(int w) {
	if (!B[w]) return;
	if (heap[w]) { harbol_bytebuffer_free(&B[w]); CHECK(B[w] == NULL, "bytebuf:free", "free left a dangling reference"); harbol_bytebuffer_free(&B[w]); } else { harbol_bytebuffer_clear(B[w]); harbol_bytebuffer_clear(B[w]); }
	B[w] = NULL; M[w].n = 0;
}
static void create(int w, int mode, const Step *s) {
	heap[w] = mode & 1;
	if (!heap[w]) { st[w] = harbol_bytebuffer_make(); B[w] = &st[w]; }
	else { size_t live = sim_live(); sim_arm(s); B[w] = harbol_bytebuffer_new(); int f = sim_disarm(); CHECK(B[w] || f, "bytebuf:create", "creation failed without a fault"); if (!B[w]) { sim_leak_check("after a failed creation", live); B[w] = harbol_bytebuffer_new(); } }
	M[w].n = 0;
}
static bool put(Mod *m, const void *d, size_t n) { memcpy(m->d + m->n, d, n); m->n += n; return true; }
static void exec(const Plan *p) {
	sim_disk_policy(p->cfg[C_RCHUNK], p->cfg[C_BUFSZ]);
	CAP = p->cfg[C_BIG] ? CAPMAX : 16384; memset(B, 0, sizeof B); for (int w = 0; w < 2; w++) create(w, (int)(p->cfg[C_HEAP] >> w), NULL);
	static uint8_t obj[70000], fbuf[70000];
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i);
		int w = (int)umod(s->a[0], 2), f = 0; Mod *m = &M[w]; struct HarbolByteBuf *b = B[w]; bool r = true; uint64_t v = mix64((uint64_t)s->a[2]) ^ (uint64_t)s->a[2];
		switch (s->op) {
		case O_SCALAR: { if (m->n + 16 > CAP) break; uint8_t e[16]; size_t k = 0; int kind = (int)umod(s->a[1], 8); double dv = (double)(int64_t)v / 3.0; float fv = (float)dv; long double lv = (long double)dv * 7; uint16_t v16 = (uint16_t)v; uint32_t v32 = (uint32_t)v; uintptr_t vp = (uintptr_t)v; if (umod(s->a[3], 5) == 0) { dv = fv = 0; lv = 0; }
			sim_arm(s);
			switch (kind) {
			case 0: e[0] = (uint8_t)v; k = 1; r = harbol_bytebuffer_insert_byte(b, (uint8_t)v); break;
			case 1: memcpy(e, &v16, k = 2); r = harbol_bytebuffer_insert_int16(b, v16); break;
			case 2: memcpy(e, &v32, k = 4); r = harbol_bytebuffer_insert_int32(b, v32); break;
			case 3: memcpy(e, &v, k = 8); r = harbol_bytebuffer_insert_int64(b, v); break;
			case 4: memcpy(e, &vp, k = sizeof vp); r = harbol_bytebuffer_insert_ptr(b, vp); break;
			case 5: memcpy(e, &fv, k = 4); r = harbol_bytebuffer_insert_float32(b, fv); break;
			case 6: memcpy(e, &dv, k = 8); r = harbol_bytebuffer_insert_float64(b, dv); break;
			default: memset(e, 0, 16); memcpy(e, &lv, 10); k = sizeof lv; r = harbol_bytebuffer_insert_floatmax(b, lv); break;
			}
			f = sim_disarm(); ev("r%d", r); CHECK(r || f, "bytebuf:insert", "inserting a scalar failed without a fault");
			if (r) { CHECK(harbol_bytebuffer_len(b) == m->n + k, "bytebuf:length", "inserting %zu bytes grew the buffer to %zu from %zu", k, harbol_bytebuffer_len(b), m->n);
				if (kind == 7) memcpy(e + 10, harbol_bytebuffer_get_buffer(b) + m->n + 10, k - 10);   /* padding has no value */
				put(m, e, k); }
			break; }
		case O_CSTR: { static char t[70000]; size_t n = s->bloblen < 255 ? s->bloblen : 255; memcpy(t, s->blob ? (char *)s->blob : "", n); t[n] = 0; n = strlen(t); if (p->cfg[C_BIG] && n) { static const size_t ln[] = { 254, 255, 256, 257, 1000, 4095, 4096, 65535, 65536 }; size_t k = ln[umod(s->a[2], 9)]; for (size_t q = n; q < k; q++) t[q] = t[q % n]; t[n = n < k ? k : n] = 0; } if (m->n + n + 1 > CAP) break;
			sim_arm(s); r = harbol_bytebuffer_insert_cstr(b, t); f = sim_disarm(); ev("r%d", r); CHECK(r || f, "bytebuf:insert", "inserting text failed without a fault"); if (r) put(m, t, n + 1); break; }
		case O_OBJ: { size_t n = p->cfg[C_BIG] ? mix64((uint64_t)s->a[1]) % (s->a[1] % 3 ? 5000 : 66000) : umod(s->a[1], 1500); if (m->n + n > CAP) break; for (size_t q = 0; q < n; q++) obj[q] = (uint8_t)(v >> (q % 56)); 
			sim_arm(s); r = harbol_bytebuffer_insert_obj(b, obj, n); f = sim_disarm(); ev("r%d", r); CHECK(r || f, "bytebuf:insert", "inserting an object failed without a fault"); if (r) put(m, obj, n); break; }
		case O_ZEROS: { size_t n = s->a[1] < 0 ? SIZE_MAX - umod(s->a[1], 2000) : p->cfg[C_BIG] ? mix64((uint64_t)s->a[1] + 9) % (s->a[1] % 3 ? 5000 : 66000) : umod(s->a[1], 600); if (s->a[1] >= 0 && m->n + n > CAP) break;
			sim_arm(s); r = harbol_bytebuffer_insert_zeros(b, n); f = sim_disarm(); ev("r%d", r); CHECK(r || f || s->a[1] < 0, "bytebuf:insert", "inserting zeros failed without a fault"); CHECK(!r || s->a[1] >= 0, "bytebuf:insert", "inserting %zu zeros reported success", n);
			if (r) { memset(m->d + m->n, 0, n); m->n += n; } break; }
		case O_DEL: { size_t ix = s->a[1] < 0 ? SIZE_MAX - umod(s->a[1], 4) : umod(s->a[1], m->n + 2), k = s->a[2] < 0 ? SIZE_MAX - umod(s->a[2], 8) : umod(s->a[2], p->cfg[C_BIG] ? 70000 : 40);
			r = harbol_bytebuffer_del(b, ix, k); CHECK(r == (ix < m->n), "bytebuf:delete", "deleting %zu at %zu of %zu returned %d", k, ix, m->n, r);
			if (ix < m->n) { if (!k) k = 1; if (k > m->n - ix) k = m->n - ix; memmove(m->d + ix, m->d + ix + k, m->n - ix - k); m->n -= k; } break; }
		case O_TOFILE: { SimFile *sf; FILE *fp = sim_sink(&sf); size_t pre = umod(s->a[1], 9); for (size_t q = 0; q < pre; q++) fputc('#', fp); if (s->a[2] & 1) fflush(fp);
			bool has = b->table != NULL; sim_arm(s); r = harbol_bytebuffer_to_file(b, fp); f = sim_disarm(); ev("r%d", r);
			CHECK(r || f || !has || m->n == 0, "bytebuf:write", "writing failed without a fault");
			if (r) { bool lost = sim_fired(F_WRITE), fl = fflush(fp) == 0; if (fl || lost) {   /* the device takes everything again: only what a writer really completed is there */ CHECK(sf->len == pre + m->n, "bytebuf:write", "%zu bytes reached the file, expected %zu", sf->len - pre, m->n); CHECK(!memcmp(sf->d + pre, m->d, m->n), "bytebuf:write", "the file holds other bytes"); } }
			else if (f) sim_probe(0);
			sim_fclose(fp); break; }
		case O_FROMSTREAM: case O_FROMNAME: {
			size_t n = umod(s->a[1], 12) == 0 ? 0 : p->cfg[C_BIG] ? mix64((uint64_t)s->a[1] + 5) % (s->a[1] % 3 ? 9000 : 66000) : umod(s->a[1], 3000); if (m->n + n + 64 > CAP) break; bool missing = s->op == O_FROMNAME && s->a[2] % 11 == 0;
			for (size_t q = 0; q < n; q++) fbuf[q] = (uint8_t)(mix64(v + q / 8) >> (q % 8 * 8)); if (!missing) sim_file_put("in.bin", fbuf, n); else sim_file_rm("in.bin");
			if (s->a[2] % 13 == 1 && !missing) sim_file("in.bin")->unseekable = true; bool uns = s->a[2] % 13 == 1;
			size_t n0 = m->n; FILE *fp = NULL;
			if (s->op == O_FROMSTREAM) { fp = sim_fopen("in.bin", "rb"); for (size_t q = umod(s->a[2], 7); q--;) fgetc(fp); }
			sim_arm(s); r = fp ? harbol_bytebuffer_insert_from_file(b, fp) : harbol_bytebuffer_insert_from_filename(b, "in.bin"); f = sim_disarm(); ev("r%d", r);
			size_t dn = sim_delivered(); const uint8_t *dd = sim_delivered_data();
			if (fp) sim_fclose(fp);
			CHECK(r || f || n == 0 || missing || uns, "bytebuf:load", "loading %zu bytes failed without a fault", n); CHECK(!(r && missing), "bytebuf:load", "loading a missing file reported success");
			CHECK(sim_open_handles() == 0, "bytebuf:handle", "file left open");
			if (r) {
				size_t got = harbol_bytebuffer_len(b) - n0; const uint8_t *d = harbol_bytebuffer_get_buffer(b) + n0;
				CHECK(got == n || ((sim_fired(F_GROW) || sim_fired(F_EOF)) && got <= dn), "bytebuf:load", "loaded %zu bytes of a file of %zu", got, n);
				CHECK(sim_fired(F_GROW) || sim_fired(F_EOF) ? memmem(dd, dn, d, got) != NULL : !memcmp(d, fbuf, got), "bytebuf:load", "loaded bytes differ from the file");
				put(m, d, got);
			} else if (f) sim_probe(1);
			sim_file_rm("in.bin"); break; }
		case O_APPEND: { int o = s->a[2] % 5 == 0 ? w : 1 - w; if (m->n + M[o].n > CAP) break; bool has = B[o]->table != NULL; sim_arm(s); r = harbol_bytebuffer_append(b, B[o]); f = sim_disarm(); ev("r%d", r);
			CHECK(r || f || !has, "bytebuf:append", "appending failed without a fault"); if (r) { size_t k = M[o].n; memmove(m->d + m->n, M[o].d, k); m->n += k; } break; }
		case O_COPY: { int o = s->a[2] % 5 == 0 ? w : 1 - w; bool has = B[o]->table != NULL; sim_arm(s); r = harbol_bytebuffer_copy(b, B[o]); f = sim_disarm(); ev("r%d", r);
			CHECK(r || f || !has, "bytebuf:copy", "copying failed without a fault"); if (r && o != w) { memcpy(m->d, M[o].d, M[o].n); m->n = M[o].n; } break; }
		case O_CLEAR: harbol_bytebuffer_clear(b); m->n = 0; break;
		case O_RENEW: drop(w); create(w, (int)s->a[1], s); break;
		}
		if (f) sim_probe(2);
		size_t want = 0; for (int q = 0; q < 2; q++) want += heap[q] + (B[q]->table != NULL); CHECK(sim_live() == want, "leak", "after %s: %zu blocks live, %zu owned", ops[s->op], sim_live(), want);
		verify(0, ops[s->op]); verify(1, ops[s->op]);
	}
	drop(0); drop(1); sim_leak_check("after the buffers were cleared", 0); CHECK(sim_open_handles() == 0, "bytebuf:handle", "file left open");
}
static void gen(Rng *r, Plan *p) {
	p->cfg[C_HEAP] = (int64_t)rng_below(r, 4); p->cfg[C_BIG] = rng_p(r, 1, 30); p->cfg[C_RCHUNK] = rng_p(r, 1, 2) ? 0 : rng_range(r, 1, 700); p->cfg[C_BUFSZ] = rng_p(r, 1, 3) ? 0 : rng_p(r, 1, 2) ? -1 : rng_range(r, 1, 600);
	unsigned w[NOPS]; rng_weights(r, w, NOPS); if (w[O_CLEAR] > 1) w[O_CLEAR] = 1; if (w[O_RENEW] > 1) w[O_RENEW] = 1;
	int n = rng_len(r) + 2; if (p->cfg[C_BIG]) n = n % 16 + 2; bool one = rng_p(r, 1, 2);
	for (int i = 0; i < n; i++) {
		int op = rng_op(r, w, NOPS); int64_t x = (int64_t)rng_below(r, rng_p(r, 1, 3) ? 3000 : 64), y = (int64_t)rng_below(r, 5000);
		if (op == O_ZEROS && rng_p(r, 1, 12)) x = -1 - (int64_t)rng_below(r, 2000); if (op == O_DEL) { if (rng_p(r, 1, 12)) x = -1 - (int64_t)rng_below(r, 4); if (rng_p(r, 1, 8)) y = -1 - (int64_t)rng_below(r, 8); }
		Step *s = plan_add(p, op, 4, (int64_t)(one ? rng_p(r, 1, 4) : rng_below(r, 2)), x, y, (int64_t)rng_below(r, 64)); if (!s) break;
		if (op == O_CSTR) { char b[128]; size_t bl = rng_below(r, rng_p(r, 1, 4) ? 100 : 12); for (size_t q = 0; q < bl; q++) b[q] = (char)rng_range(r, 1, 255); step_blob(s, b, bl); }
	}
}
const Scenario sc_bytebuf = { "bytebuf", ops, cfgs, gen, exec, ALLOCF | FM(F_OPEN) | FM(F_READ) | FM(F_EOF) | FM(F_GROW) | FM(F_SEEK) | FM(F_WRITE), 3 };
