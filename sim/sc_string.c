/* C04: strings against a byte-string model (three strings, so that aliasing and mixing are covered). */
#include "sim.h"
#include <ctype.h>
#include "str/str.h"
enum { O_ADDC, O_ADDREP, O_ADDS, O_ADDCS, O_COPYS, O_COPYCS, O_FORMAT, O_BADFMT, O_REPC, O_REPCS, O_COUNT, O_OFFS, O_UPPER, O_LOWER, O_REV, O_RMC, O_TRIM, O_FINDC, O_RANGE, O_CMP, O_SCAN, O_PAL, O_CLEAR, O_RENEW, NOPS };
static const char *const ops[] = { "add_char", "add_rep", "add_str", "add_cstr", "copy_str", "copy_cstr", "format", "bad_format", "replace_char", "replace_cstr", "count", "offsets", "upper", "lower", "reverse", "rm_char", "trim", "find_char", "replace_range", "cmp", "scan", "palindrome", "clear", "renew", NULL };
enum { C_ALLOC, C_HEAP, C_ALPHA, C_BIG, C_ZERO };
static const char *const cfgs[] = { "alloc", "heap", "alphabet", "big", "zeros", NULL };
#define NS 3
#define CAPMAX 140000
static bool zeros; static size_t CAP; /* 3000, or far more in plans of large strings */
typedef struct { char s[CAPMAX + 1]; size_t n; } Mod;
static Mod M[NS]; static struct HarbolString st[NS], *S[NS]; static bool heap[NS];
static const char *const alphabets[] = { "ab", "abX ", "aB \t\n1", "abcdefXYZ .=-%\x80\xff\v", "\001\002\177\200\377aZ\0010~^[" };

static void verify(int w, const char *after) {
	Mod *m = &M[w]; const char *c = harbol_string_cstr(S[w]); size_t n = harbol_string_len(S[w]);
	CHECK(n == m->n, "string:length", "%s: string %d reports length %zu, model has %zu", after, w, n, m->n);
	CHECK(harbol_string_mut_cstr(S[w]) == c, "string:cstr", "%s: text pointers disagree", after);
	if (!zeros) CHECK(harbol_string_empty(S[w]) == (m->n == 0), "string:empty", "%s: emptiness flag of string %d", after, w);
	if (!c) { CHECK(m->n == 0, "string:lost", "%s: string %d lost its text", after, w); return; }
	size_t blk; CHECK(sim_is_live(c, &blk), "string:storage", "%s: text of string %d is not a live block", after, w);
	CHECK(blk > n, "string:storage", "%s: %zu characters in a block of %zu bytes", after, n, blk);
	CHECK(c[n] == 0, "string:terminator", "%s: string %d is not terminated at its length", after, w);
	CHECK(!memcmp(c, m->s, n), "string:contents", "%s: string %d holds \"%.60s\", model \"%.60s\"", after, w, c, m->s);
	uint64_t h = n; for (size_t i = 0; i < n; i++) h = h * 31 + (uint8_t)c[i];
	sim_state(mix64(h + (unsigned)w));
}
static void set(Mod *m, const char *d, size_t n) { memmove(m->s, d, n); m->n = n; m->s[n] = 0; }
static void drop(int w) {
	if (!S[w]) return;
	if (heap[w]) { harbol_string_free(&S[w]); CHECK(S[w] == NULL, "string:free", "free left a dangling reference"); harbol_string_free(&S[w]); }
	else { harbol_string_clear(S[w]); CHECK(st[w].len == 0 && st[w].cstr == NULL, "string:clear", "cleared string not empty"); harbol_string_clear(S[w]); }
	S[w] = NULL; set(&M[w], "", 0);
}
static void create(int w, int mode, const char *txt, const Step *s) {
	size_t live = sim_live(), n = txt ? strlen(txt) : 0; heap[w] = mode & 1;
	for (int t = 0; t < 2; t++) {
		bool ok; sim_arm(t ? NULL : s);
		if (mode & 1) { S[w] = harbol_string_new(txt); ok = S[w] != NULL; }
		else if (mode & 2 || !txt) { memset(&st[w], 0, sizeof st[w]); ok = harbol_string_init(&st[w], txt); S[w] = &st[w]; }
		else { st[w] = harbol_string_make(txt, &ok); S[w] = &st[w]; }
		int f = sim_disarm(); ev("new %zu %d", n, ok);
		if (n == 0) ok = ok || !f;       /* an empty text may be reported either way */
		CHECK(ok || f, "string:create", "creation failed without a fault");
		if (ok) break;
		if (!(mode & 1)) CHECK(st[w].len == 0 && st[w].cstr == NULL, "string:create", "failed creation left text behind");
		sim_leak_check("after a failed string creation", live); S[w] = NULL;
	}
	set(&M[w], txt ? txt : "", n);
}
static size_t find(const char *h, size_t hn, size_t at, const char *nd, size_t nn) { for (size_t i = at; i + nn <= hn; i++) if (!memcmp(h + i, nd, nn)) return i; return SIZE_MAX; }
static int sgn(int x) { return (x > 0) - (x < 0); }

static void exec(const Plan *p) {
	memset(S, 0, sizeof S); zeros = p->cfg[C_ZERO]; CAP = p->cfg[C_BIG] ? CAPMAX : 3000;
	for (int w = 0; w < NS; w++) { set(&M[w], "", 0); create(w, (int)(p->cfg[C_HEAP] >> (2 * w) & 3), w ? "start" : NULL, NULL); verify(w, "create"); }
	static char t1[70000], t2[256]; static char big[CAPMAX * 2];
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i);
		int w = (int)umod(s->a[0], NS), o = (int)umod(s->a[1], NS); Mod *m = &M[w], *mo = &M[o]; struct HarbolString *x = S[w];
		/* the blob holds one or two texts, split at a[2] */
		size_t bl = s->bloblen < 200 ? s->bloblen : 200, cut = bl ? umod(s->a[2], bl + 1) : 0;
		memcpy(t1, s->blob ? (char *)s->blob : "", cut); t1[cut] = 0; memcpy(t2, s->blob ? (char *)s->blob + cut : "", bl - cut); t2[bl - cut] = 0;
		size_t n1 = cut, n2 = bl - cut; char ch = n1 ? t1[0] : 'a', ch2 = n2 ? t2[0] : 'b'; int f = 0; bool r;
		for (size_t q = 0; q < n1; q++) if (!t1[q]) t1[q] = 'z'; for (size_t q = 0; q < n2; q++) if (!t2[q]) t2[q] = 'z'; if (!ch) ch = 'z'; if (!ch2) ch2 = 'z'; if (p->cfg[C_ZERO]) { /* text that holds zero bytes, for everything that goes by length */
			if (s->op == O_COUNT || s->op == O_OFFS || s->op == O_REPCS || s->op == O_CMP || s->op == O_SCAN || s->op == O_FINDC || s->op == O_PAL) continue;
			if (umod(s->a[4], 3) == 0 && s->op != O_REPC) ch = 0; }
		if (p->cfg[C_BIG] && n1 && (s->op == O_ADDCS || s->op == O_COPYCS || s->op == O_FORMAT || s->op == O_RANGE || s->op == O_RENEW) && umod(s->a[2] + s->a[3], 3)) { /* a long text: the short one repeated */
			static const size_t ln[] = { 255, 256, 257, 511, 512, 1000, 4095, 4096, 8192, 65535, 65536, 66000 }; size_t want = ln[umod(s->a[3], umod(s->a[4], 4) ? 9 : 12)]; for (size_t q = n1; q < want; q++) t1[q] = t1[q % n1]; t1[n1 = want] = 0; }
		size_t old_live = sim_live(), had = x->cstr != NULL;
		switch (s->op) {
		case O_ADDC: if (m->n + 1 > CAP) break; sim_arm(s); r = harbol_string_add_char(x, ch); f = sim_disarm(); ev("r%d", r); CHECK(r || f, "string:add", "adding a character failed without a fault"); if (r) { m->s[m->n++] = ch; m->s[m->n] = 0; } break;
		case O_ADDREP: { size_t k = s->a[3] < 0 ? SIZE_MAX - umod(s->a[3], 4000) : p->cfg[C_BIG] ? mix64((uint64_t)s->a[3]) % (s->a[3] % 4 ? 5000 : 140000) : umod(s->a[3], 60); if (s->a[3] >= 0 && m->n + k > CAP) break;
			sim_arm(s); r = harbol_string_add_char_rep(x, ch, k); f = sim_disarm(); ev("r%d", r); CHECK(r || f || s->a[3] < 0, "string:add", "repeating a character failed without a fault"); CHECK(!r || s->a[3] >= 0, "string:add", "repeating a character %zu times reported success", k);
			if (r) { memset(m->s + m->n, ch, k); m->n += k; m->s[m->n] = 0; } break; }
		case O_ADDS: if (m->n + mo->n > CAP) break; { bool oh = S[o]->cstr != NULL; sim_arm(s); r = harbol_string_add_str(x, S[o]); f = sim_disarm(); ev("r%d", r);
			CHECK(r || f || !oh, "string:add", "appending a string failed without a fault"); if (r) { size_t k = mo->n; memmove(m->s + m->n, mo->s, k); m->n += k; m->s[m->n] = 0; } break; }
		case O_ADDCS: if (m->n + n1 > CAP) break; sim_arm(s); r = harbol_string_add_cstr(x, s->a[3] % 37 == 1 ? NULL : t1); f = sim_disarm(); ev("r%d", r);
			if (s->a[3] % 37 == 1) { CHECK(!r, "string:add", "appending nothing reported success"); break; }
			CHECK(r || f || n1 == 0, "string:add", "appending text failed without a fault"); if (r) { memcpy(m->s + m->n, t1, n1); m->n += n1; m->s[m->n] = 0; } break;
		case O_COPYS: { bool oh = S[o]->cstr != NULL; sim_arm(s); r = harbol_string_copy_str(x, S[o]); f = sim_disarm(); ev("r%d", r); CHECK(r || f || !oh, "string:copy", "copying a string failed without a fault"); if (r && o != w) set(m, mo->s, mo->n); break; }
		case O_COPYCS: sim_arm(s); r = harbol_string_copy_cstr(x, s->a[3] % 37 == 1 ? NULL : t1); f = sim_disarm(); ev("r%d", r);
			if (s->a[3] % 37 == 1) { CHECK(!r, "string:copy", "copying nothing reported success"); break; }
			CHECK(r || f || n1 == 0, "string:copy", "copying text failed without a fault"); if (r) set(m, t1, n1); break;
		case O_FORMAT: { bool clear = s->a[3] & 1; int kind = (int)(s->a[3] >> 1) % 5; int num = (int)(s->a[3] * 7919);
			#define FMT(buf, ...) snprintf(buf, sizeof big, __VA_ARGS__)
			int want = kind == 0 ? FMT(big, "%s", t1) : kind == 1 ? FMT(big, "%d-%s|%5.2f", num, t1, num / 8.0) : kind == 2 ? FMT(big, "plain") : kind == 3 ? FMT(big, "%*d", n1 ? (int)n1 : 1, num) : FMT(big, "%s%c%s%%", t1, ch, t2);
			if ((clear ? 0 : m->n) + (size_t)want > CAP) break;
			if (kind == 0 && n1 == 0) { want = 0; }
			sim_arm(s);
			int got = kind == 0 ? harbol_string_format(x, clear, "%s", t1) : kind == 1 ? harbol_string_format(x, clear, "%d-%s|%5.2f", num, t1, num / 8.0) : kind == 2 ? harbol_string_format(x, clear, "plain") : kind == 3 ? harbol_string_format(x, clear, "%*d", n1 ? (int)n1 : 1, num) : harbol_string_format(x, clear, "%s%c%s%%", t1, ch, t2);
			f = sim_disarm(); ev("r%d", got);
			CHECK(got >= 0 || f, "string:format", "formatting failed without a fault");
			if (got >= 0) { CHECK(got == want, "string:format", "formatting returned %d, expected %d", got, want); if (clear) m->n = 0; memcpy(m->s + m->n, big, (size_t)want); m->n += (size_t)want; m->s[m->n] = 0; }
			break; }
		case O_BADFMT: { static const int bad[] = { 0x110001, 0 }; sim_arm(s); int got = harbol_string_format(x, s->a[3] & 1, "%s%ls", t1, (const wchar_t *)bad); f = sim_disarm(); CHECK(got < 0, "string:format", "formatting an unconvertible character returned %d", got); break; }
		case O_REPC: { r = harbol_string_replace_char(x, ch, ch2); bool any = false; for (size_t q = 0; q < m->n; q++) if (m->s[q] == ch) { m->s[q] = ch2; any = true; } CHECK(r == any, "string:replace-char", "returned %d", r); break; }
		case O_REPCS: {
			size_t amount = s->a[3] < 0 ? SIZE_MAX : umod(s->a[3], 6), k = 0, at = 0, on = 0;
			if (n1) { static Mod out; out.n = 0;
				for (;;) { size_t q = k < amount ? find(m->s, m->n, at, t1, n1) : SIZE_MAX; size_t e = q == SIZE_MAX ? m->n : q; if (on + (e - at) + n2 > CAP) { on = SIZE_MAX; break; } memcpy(out.s + on, m->s + at, e - at); on += e - at; if (q == SIZE_MAX) break; memcpy(out.s + on, t2, n2); on += n2; at = q + n1; k++; }
				if (on == SIZE_MAX) break;
				sim_arm(s); r = harbol_string_replace_cstr(x, t1, t2, amount); f = sim_disarm(); ev("r%d", r);
				CHECK(r || f || k == 0, "string:replace", "replacing %zu occurrences failed without a fault", k); CHECK(!r || k > 0 || amount == 0, "string:replace", "replacing nothing reported success");
				if (r && k) set(m, out.s, on);
			} else { sim_arm(s); r = harbol_string_replace_cstr(x, t1, t2, amount); f = sim_disarm(); ev("r%d", r); }
			break; }
		case O_COUNT: { size_t c1 = 0, c2 = 0; for (size_t q = 0; q < m->n; q++) c1 += m->s[q] == ch; CHECK(harbol_string_count_char(x, ch) == c1, "string:count", "counted %zu characters, expected %zu", harbol_string_count_char(x, ch), c1);
			if (n1) for (size_t q = 0; (q = find(m->s, m->n, q, t1, n1)) != SIZE_MAX; q += n1) c2++;
			size_t got = harbol_string_count_cstr(x, t1); CHECK(got == c2 || n1 == 0, "string:count", "counted %zu substrings, expected %zu", got, c2); break; }
		case O_OFFS: { size_t k = umod(s->a[3], 12) + 1, offs[16]; for (int q = 0; q < 16; q++) offs[q] = 0xABCDEF; r = harbol_string_cstr_offsets(x, t1, offs, k); CHECK(offs[k] == 0xABCDEF, "string:offsets", "wrote past the offset buffer");
			if (r && n1) { size_t at = 0; for (size_t q = 0; q < k; q++) { size_t e = at == SIZE_MAX ? SIZE_MAX : find(m->s, m->n, at, t1, n1); CHECK(offs[q] == e, "string:offsets", "occurrence %zu at %zu, expected %zu", q, offs[q], e); at = e == SIZE_MAX ? SIZE_MAX : e + 1; } }
			CHECK(r || !had || !n1, "string:offsets", "finding offsets failed"); break; }
		case O_UPPER: case O_LOWER: { bool any = false; for (size_t q = 0; q < m->n; q++) { char c = m->s[q], d = s->op == O_UPPER ? (c >= 'a' && c <= 'z' ? (char)(c - 32) : c) : (c >= 'A' && c <= 'Z' ? (char)(c + 32) : c); any |= c != d; m->s[q] = d; }
			r = s->op == O_UPPER ? harbol_string_upper(x) : harbol_string_lower(x); CHECK(r == any, "string:case", "case change returned %d", r); break; }
		case O_REV: for (size_t q = 0; q < m->n / 2; q++) { char c = m->s[q]; m->s[q] = m->s[m->n - 1 - q]; m->s[m->n - 1 - q] = c; } r = harbol_string_reverse(x); CHECK(r == (m->n >= 2), "string:reverse", "reversing %zu characters returned %d", m->n, r); break;
		case O_RMC: case O_TRIM: { size_t j = 0; for (size_t q = 0; q < m->n; q++) if (!(s->op == O_RMC ? m->s[q] == ch : (m->s[q] == ' ' || (m->s[q] >= 9 && m->s[q] <= 13)))) m->s[j++] = m->s[q]; size_t k = m->n - j; m->n = j; m->s[j] = 0;
			size_t got = s->op == O_RMC ? harbol_string_rm_char(x, ch) : harbol_string_trim_spaces(x); CHECK(got == k, "string:remove", "removed %zu characters, expected %zu", got, k); if (k) sim_probe(0); break; }
		case O_FINDC: { size_t e = find(m->s, m->n, 0, &ch, 1); CHECK(harbol_string_find_char(x, ch) == e, "string:find", "found at %zu, expected %zu", harbol_string_find_char(x, ch), e); break; }
		case O_RANGE: { size_t lo = s->a[3] < 0 ? m->n - (m->n && (s->a[3] & 1)) : umod(s->a[3], m->n + 2), up = s->a[4] == -1 ? SIZE_MAX : s->a[4] == -2 ? m->n : s->a[4] == -3 ? m->n + 1 : umod(s->a[4], m->n + 2);
			size_t eu = up >= m->n ? m->n - 1 : up; bool okr = lo < m->n && lo <= eu; if (m->n + n1 > CAP) break;
			sim_arm(s); r = harbol_string_replace_range(x, lo, up, t1); f = sim_disarm(); ev("r%d", r);
			CHECK(!r || okr, "string:range", "replacing [%zu,%zu] of %zu reported success", lo, up, m->n); CHECK(r || f || !okr, "string:range", "replacing [%zu,%zu] of %zu failed", lo, up, m->n);
			if (r) { memcpy(big, m->s, lo); memcpy(big + lo, t1, n1); memcpy(big + lo + n1, m->s + eu + 1, m->n - eu - 1); set(m, big, lo + n1 + m->n - eu - 1); }
			break; }
		case O_CMP: { bool oh = S[o]->cstr != NULL; int e = strcmp(m->s, mo->s);
			if (had && oh) CHECK(sgn(harbol_string_cmpstr(x, S[o])) == sgn(e), "string:compare", "comparison of strings has sign %d, expected %d", sgn(harbol_string_cmpstr(x, S[o])), sgn(e));
			if (had) { CHECK((harbol_string_cmpcstr(x, t1) == 0) == !strcmp(m->s, t1), "string:compare", "comparison with text disagrees on equality"); CHECK(harbol_string_cmpcstr(x, m->s) == 0, "string:compare", "string differs from its own text"); }
			else { CHECK(harbol_string_cmpcstr(x, t1) != 0, "string:compare", "no text equals a text"); if (mo->n) CHECK(harbol_string_cmpstr(x, S[o]) != 0 && harbol_string_cmpstr(S[o], x) != 0, "string:compare", "no text equals another string"); }
			CHECK(harbol_string_cmpcstr(x, NULL) != 0, "string:compare", "string equals no text"); break; }
		case O_SCAN: { int v = -1, e = -1; int k = had ? sscanf(m->s, "%d", &e) : -1; int got = harbol_string_scan(x, "%d", &v); CHECK((got == 1) == (k == 1) && (k != 1 || v == e), "string:scan", "scanning returned %d", got); break; }
		case O_PAL: { bool e = m->n > 0; for (size_t q = 0; q < m->n; q++) e &= m->s[q] == m->s[m->n - 1 - q]; CHECK(harbol_string_is_palindrome(x) == e, "string:palindrome", "palindrome test"); break; }
		case O_CLEAR: sim_arm(s); harbol_string_clear(x); sim_disarm(); CHECK(x->cstr == NULL, "string:clear", "cleared string keeps its text"); set(m, "", 0); break;
		case O_RENEW: drop(w); create(w, (int)(s->a[3] & 3), s->a[3] % 11 == 0 ? NULL : t1, s); break;
		}
		if (f) { sim_probe(1); }
		if (s->op != O_RENEW) { size_t want = 0; for (int q = 0; q < NS; q++) want += heap[q] + (S[q]->cstr != NULL); CHECK(sim_live() == want, "leak", "after %s: %zu blocks live, %zu owned (was %zu)", ops[s->op], sim_live(), want, old_live); }
		for (int q = 0; q < NS; q++) verify(q, ops[s->op]);
	}
	for (int w = 0; w < NS; w++) drop(w);
	sim_leak_check("after the strings were cleared", 0);
}
static void gen(Rng *r, Plan *p) {
	p->cfg[C_HEAP] = (int64_t)rng_below(r, 64); p->cfg[C_BIG] = rng_p(r, 1, 40); p->cfg[C_ZERO] = rng_p(r, 1, 8); int al = (int)rng_below(r, 5); p->cfg[C_ALPHA] = al; const char *A = alphabets[al]; size_t an = strlen(A);
	unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_ADDCS] += 3; w[O_COPYCS] += 1; if (w[O_CLEAR] > 1) w[O_CLEAR] = 1; if (w[O_RENEW] > 1) w[O_RENEW] = 1; if (w[O_BADFMT] > 1) w[O_BADFMT] = 1;
	int n = rng_len(r) + 3; if (p->cfg[C_BIG]) n = n % 20 + 2; bool one = rng_p(r, 1, 2);
	for (int i = 0; i < n; i++) {
		int op = rng_op(r, w, NOPS);
		int64_t x = rng_p(r, 1, 8) ? -1 - (int64_t)rng_below(r, 3) : (int64_t)rng_below(r, 64), y = rng_p(r, 1, 5) ? -1 - (int64_t)rng_below(r, 3) : (int64_t)rng_below(r, 64);
		size_t bl = rng_p(r, 1, 12) ? 0 : (op == O_ADDCS || op == O_COPYCS || op == O_RENEW) ? rng_below(r, rng_p(r, 1, 8) ? 120 : 16) : rng_below(r, 7); char b[128]; for (size_t q = 0; q < bl; q++) b[q] = A[rng_below(r, an)];
		int64_t cut = (op == O_ADDCS || op == O_COPYCS || op == O_RENEW) ? (int64_t)bl : (int64_t)rng_below(r, bl + 1);
		Step *s = plan_add(p, op, 5, (int64_t)(one ? rng_p(r, 1, 4) : rng_below(r, NS)), (int64_t)rng_below(r, NS), cut, x, y); if (!s) break;
		step_blob(s, b, bl);
	}
}
const Scenario sc_string = { "string", ops, cfgs, gen, exec, ALLOCF, 3, 400u * 1000 * 1000 };
