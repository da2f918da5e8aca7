/* C10: every way of reading a file into memory, over a faulty disk. */
#include "sim.h"
#include "str/str.h"
#include "lex/lex.h"
uint8_t *shim_buffer_from_file(FILE *f, size_t *n);
uint8_t *shim_buffer_from_binary(char const *p, size_t *n);
char *shim_buffer_from_text(char const *p, size_t *n);
ssize_t shim_file_size(FILE *f);
enum { O_PUT, O_RM, O_MARK, O_BINARY, O_TEXT, O_STREAM, O_SIZE, O_RUNES, O_STRFILE, O_STRSTREAM, O_STRCLEAR, NOPS };
static const char *const ops[] = { "put", "remove", "mark", "binary", "text", "stream", "size", "runes", "string_file", "string_stream", "string_clear", NULL };
enum { C_ALLOC, C_CHUNK, C_BUF };
static const char *const cfgs[] = { "alloc", "read_chunk", "stdio_buffer", NULL };
#define NF 3
static const char *const names[NF + 1] = { "a.txt", "dir/b.bin", "./c", "missing.txt" };
typedef struct { bool there, noread, noseek, isdir; size_t n; uint8_t d[200000]; } MF;
static MF F[NF + 1];
static struct HarbolString S[2]; static uint8_t SM[2][200100]; static size_t SN[2]; static bool SV[2];

static void strings(const char *after) {
	for (int i = 0; i < 2; i++) {
		CHECK(S[i].len == SN[i], "ingest:string", "%s: string %d has length %zu, expected %zu", after, i, S[i].len, SN[i]);
		if (!SV[i]) continue;
		CHECK(S[i].cstr && !memcmp(S[i].cstr, SM[i], SN[i]) && S[i].cstr[SN[i]] == 0, "ingest:string", "%s: string %d has other contents or no terminator", after, i);
	}
}
/* what may have been delivered: a prefix of the bytes the device handed out, all of them unless the file changed while being read */
static void content(const char *what, const MF *m, const void *d, size_t n, bool ok, int f) {
	bool moved = sim_fired(F_EOF) || sim_fired(F_GROW), failed = f && !moved;
	ev("%s %d %zu", what, ok, ok ? n : 0);
	if (!ok) { CHECK(f || !m->there || m->noread || m->noseek || m->isdir || m->n == 0, "ingest:refused", "%s: reading an intact file of %zu bytes failed without a fault", what, m->n); return; }
	CHECK(m->there && !m->noread && !m->isdir, "ingest:invented", "%s: success on a file that cannot be read", what);
	if (moved) {
		CHECK(n <= sim_delivered() && !memcmp(d, sim_delivered_data(), n), "ingest:contents", "%s: %zu bytes returned that are not what the device delivered", what, n);
		return;
	}
	CHECK(n == m->n, "ingest:length", "%s: %zu bytes reported for a file of %zu%s", what, n, m->n, failed ? " after an I/O error" : "");
	CHECK(!memcmp(d, m->d, n), "ingest:contents", "%s: contents differ from the file", what);
	if (failed) sim_probe(1);
}
static size_t ref_decode(const uint8_t *d, size_t n, int32_t *o) {   /* strict decoding; SIZE_MAX if not well-formed */
	size_t k = 0;
	for (size_t i = 0; i < n;) {
		uint8_t c = d[i]; size_t l = c < 0x80 ? 1 : c >> 5 == 6 ? 2 : c >> 4 == 14 ? 3 : c >> 3 == 30 ? 4 : 0; if (!l || i + l > n || !c) return SIZE_MAX;
		int32_t v = l == 1 ? c : c & (0x7F >> l); for (size_t j = 1; j < l; j++) { if ((d[i + j] & 0xC0) != 0x80) return SIZE_MAX; v = v << 6 | (d[i + j] & 0x3F); }
		o[k++] = v; i += l;
	}
	return k;
}
static void exec(const Plan *p) {
	static int32_t rr[200001];
	memset(F, 0, sizeof F); memset(S, 0, sizeof S); SN[0] = SN[1] = 0; SV[0] = SV[1] = false;
	sim_disk_policy(p->cfg[C_CHUNK], p->cfg[C_BUF]);
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i); int x = (int)umod(s->a[0], NF + 1), q = (int)(s->a[1] & 1), f = 0; MF *m = &F[x]; const char *nm = names[x];
		size_t live = sim_live(), h = sim_open_handles(), n;
		switch (s->op) {
		case O_PUT: if (x == NF) break; {
			size_t len = s->bloblen; if (len > 2000) len = 2000; memset(m, 0, sizeof *m); m->there = true;
			size_t rep = s->a[1] % 7 == 6 && len ? 1 + umod(s->a[2], (s->a[0] >= 400 ? 190000 : 8800) / len) : 1;   /* some files span several device blocks */
			for (size_t k = 0; k < rep; k++) { memcpy(m->d + m->n, s->blob, len); m->n += len; }
			sim_file_put(nm, m->d, m->n); } break;
		case O_RM: if (m->there) { sim_file_rm(nm); m->there = false; } break;
		case O_MARK: { SimFile *sf = sim_file(nm); if (!sf) break; m->noread = sf->unreadable = umod(s->a[1], 4) == 1; m->noseek = sf->unseekable = umod(s->a[1], 4) == 2; m->isdir = sf->isdir = umod(s->a[1], 8) == 3; } break;
		case O_BINARY: { n = 77; sim_arm(s); uint8_t *b = shim_buffer_from_binary(nm, &n); f = sim_disarm(); content("binary", m, b, n, b != NULL, f); CHECK(b || n == SIZE_MAX, "ingest:length", "binary: failed, yet %zu bytes reported", n); sim_free(b); } break;
		case O_TEXT: { n = 77; sim_arm(s); char *b = shim_buffer_from_text(nm, &n); f = sim_disarm(); content("text", m, b, n, b != NULL, f); CHECK(b || n == SIZE_MAX, "ingest:length", "text: failed, yet %zu bytes reported", n); if (b) CHECK(b[n] == 0, "ingest:terminator", "text buffer is not terminated"); sim_free(b); } break;
		case O_STREAM: case O_SIZE: case O_RUNES: case O_STRSTREAM: {
			FILE *fp = sim_fopen(nm, s->a[2] & 1 ? "r" : "rb"); if (!fp) break;
			bool moving = false; for (int k = 0; k < s->nf; k++) if (s->f[k].kind == F_EOF || s->f[k].kind == F_GROW) moving = true;
			if (s->a[2] & 2 && !m->isdir && !moving) for (int k = 0; k < (int)umod(s->a[2], 40) && fgetc(fp) != EOF; k++) ;   /* the stream was used before */
			sim_arm(s);
			if (s->op == O_STREAM) { n = 77; uint8_t *b = shim_buffer_from_file(fp, &n); f = sim_disarm(); content("stream", m, b, n, b != NULL, f); CHECK(b || n == SIZE_MAX, "ingest:length", "stream: failed, yet %zu bytes reported", n); sim_free(b); }
			else if (s->op == O_SIZE) { ssize_t z = shim_file_size(fp); f = sim_disarm(); ev("size %zd", z); CHECK(z == (ssize_t)m->n || (z < 0 && (f || m->noseek)), "ingest:size", "size reported as %zd for a file of %zu bytes", z, m->n); CHECK(!(m->noseek && z >= 0), "ingest:size", "size of an unseekable stream reported as %zd", z); }
			else if (s->op == O_STRSTREAM) {
				bool r = harbol_string_read_from_file(&S[q], fp); f = sim_disarm(); content("string_stream", m, S[q].cstr, S[q].len, r, f);
				if (r) { SN[q] = S[q].len; memcpy(SM[q], S[q].cstr, SN[q]); SV[q] = true; if (sim_live() > live) live++; }
			} else {
				n = 77; int32_t *r = runes_from_stream(fp, &n); f = sim_disarm(); size_t k = m->there ? ref_decode(m->d, m->n, rr) : SIZE_MAX; ev("runes %d %zu", r != NULL, r ? n : 0);
				bool moved = sim_fired(F_EOF) || sim_fired(F_GROW);
				CHECK(r || f || m->noread || m->noseek || m->isdir || !m->n, "ingest:refused", "decoding an intact file failed without a fault");
				if (r) {
					CHECK(!m->isdir, "ingest:invented", "code points returned for a file that cannot be read");
					if (k != SIZE_MAX && !moved) { sim_probe(0); CHECK(n == k, "ingest:rune-length", "%zu code points reported for a file of %zu", n, k); CHECK(!memcmp(r, rr, k * sizeof *rr) && r[k] == 0, "ingest:runes", "code points differ from the file"); }
					for (size_t j = 0; j <= n; j++) rr[0] ^= r[j];    /* every reported code point must be there */
				}
				sim_free(r);
			}
			sim_fclose(fp); } break;
		case O_STRFILE: {
			sim_arm(s); bool r = harbol_string_read_file(&S[q], nm); f = sim_disarm(); content("string_file", m, S[q].cstr, S[q].len, r, f);
			if (r) { SN[q] = S[q].len; memcpy(SM[q], S[q].cstr, SN[q]); SV[q] = true; if (sim_live() > live) live++; } } break;
		case O_STRCLEAR: harbol_string_clear(&S[q]); SN[q] = 0; SV[q] = false; if (sim_live() < live) live = sim_live(); break;
		}
		CHECK(sim_open_handles() == h, "ingest:open", "%s left a file open", ops[s->op]);
		sim_leak_check(ops[s->op], live);
		if (sim_fired(F_EOF) || sim_fired(F_GROW)) { SimFile *sf = sim_file(nm); if (sf) { m->n = sf->len; memcpy(m->d, sf->d, m->n); } sim_probe(2); sim_arm(NULL); sim_disarm(); }
		strings(ops[s->op]); sim_state(mix64(SN[0] << 20 ^ SN[1]) ^ (uint64_t)s->op << 8 ^ (uint64_t)(f != 0));
	}
	for (int i = 0; i < 2; i++) harbol_string_clear(&S[i]);
	sim_leak_check("at the end", 0);
}
static void gen(Rng *r, Plan *p) {
	static const int64_t ch[] = { 0, 0, 1, 2, 7, 64, 513 }, bf[] = { 0, 0, 1, 3, 16, 64, 4096 };
	p->cfg[C_CHUNK] = ch[rng_below(r, 7)]; p->cfg[C_BUF] = bf[rng_below(r, 7)];
	unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_PUT] = 3; if (w[O_RM] > 1) w[O_RM] = 1; if (w[O_MARK] > 2) w[O_MARK] = 2; w[O_STRCLEAR] = 1; w[O_BINARY + rng_below(r, 3)]++; w[O_RUNES]++;
	int n = 2 + rng_len(r) / 2;
	for (int i = 0; i < n; i++) {
		Step *s = plan_add(p, i < 1 ? O_PUT : rng_op(r, w, NOPS), 3, (int64_t)rng_below(r, rng_p(r, 1, 30) ? 1200 : 400), (int64_t)rng_below(r, 56), (int64_t)rng_below(r, 4096));
		if (s->op == O_PUT) {
			uint8_t b[600]; size_t k = 0, lim = rng_p(r, 1, 8) ? 0 : 1 + rng_below(r, rng_p(r, 1, 4) ? 500 : 30); int kind = (int)rng_below(r, 6);
			while (k < lim) {
				if (kind == 0) b[k++] = (uint8_t)rng_below(r, 256);
				else if (kind == 1) b[k++] = (uint8_t)(rng_p(r, 1, 5) ? '\n' : rng_p(r, 1, 9) ? 0 : 32 + rng_below(r, 95));
				else { static const uint32_t top[] = { 0x7F, 0x7FF, 0xFFFF, 0x10FFFF }; uint32_t c = 1 + (uint32_t)rng_below(r, top[rng_below(r, 4)]); if (c >= 0xD800 && c <= 0xDFFF) c = 0xE9;
					if (c < 0x80) b[k++] = (uint8_t)c; else if (c < 0x800) { b[k++] = (uint8_t)(0xC0 | c >> 6); b[k++] = (uint8_t)(0x80 | (c & 63)); } else if (c < 0x10000) { b[k++] = (uint8_t)(0xE0 | c >> 12); b[k++] = (uint8_t)(0x80 | (c >> 6 & 63)); b[k++] = (uint8_t)(0x80 | (c & 63)); }
					else { b[k++] = (uint8_t)(0xF0 | c >> 18); b[k++] = (uint8_t)(0x80 | (c >> 12 & 63)); b[k++] = (uint8_t)(0x80 | (c >> 6 & 63)); b[k++] = (uint8_t)(0x80 | (c & 63)); } }
			}
			if (kind == 5 && k) k -= rng_below(r, k < 4 ? k : 4);   /* cut inside a character */
			step_blob(s, b, k);
		}
	}
}
const Scenario sc_ingest = { "ingest", ops, cfgs, gen, exec, ALLOCF | FM(F_OPEN) | FM(F_READ) | FM(F_EOF) | FM(F_GROW) | FM(F_SEEK), 3 };
