/* C16: diagnostics from source text or files, onto streams that fail, with an allocator that runs out. */
#include "sim.h"
#include "msg_span/msg_span.h"
#include "msg_sys/msg_sys.h"
enum { O_INIT, O_LABEL, O_NOTE, O_EMIT, O_ONELINE, O_LINES, O_CLEAR, NOPS };
static const char *const ops[] = { "init", "label", "note", "emit", "one_line", "lines", "clear", NULL };
enum { C_ALLOC, C_RCHUNK, C_BUFSZ };
static const char *const cfgs[] = { "alloc", "rchunk", "bufsz", NULL };
#define TX 480000
#define MAXL 70
#define MM 6200
typedef struct { struct HarbolTokenSpan sp; int32_t sym; const char *sc, *mc; char msg[MM]; bool odd; } Lab;
static struct HarbolMsgSpan ms; static bool have, hascode; static char text[TX]; static size_t tlen; static char raw[TX / 4]; static size_t rawlen;
static char *line[TX]; static size_t nline, linelen[TX];
static Lab lab[MAXL]; static int nlab; static struct { const char *mc; char msg[MM]; } note[MAXL]; static int nnote;
static const char *const cols[] = { COLOR_RED, COLOR_GREEN, COLOR_YELLOW, COLOR_CYAN, "", NULL };
static char out[4000000]; static size_t on;
static void add(const char *f, ...) { va_list a; va_start(a, f); on += (size_t)vsnprintf(out + on, sizeof out - on, f, a); va_end(a); if (on >= sizeof out) on = sizeof out - 1; }
static void addn(const char *d, size_t n) { if (n > sizeof out - 1 - on) n = sizeof out - 1 - on; memcpy(out + on, d, n); on += n; out[on] = 0; }
static void rep(char c, size_t n) { while (n--) addn(&c, 1); }
static void utf8(int32_t r) { char b[4]; if (r < 0x80) { b[0] = (char)r; addn(b, 1); } else if (r < 0x800) { b[0] = (char)(0xC0 | r >> 6); b[1] = (char)(0x80 | (r & 63)); addn(b, 2); } else if (r < 0x10000) { b[0] = (char)(0xE0 | r >> 12); b[1] = (char)(0x80 | (r >> 6 & 63)); b[2] = (char)(0x80 | (r & 63)); addn(b, 3); } else { b[0] = (char)(0xF0 | r >> 18); b[1] = (char)(0x80 | (r >> 12 & 63)); b[2] = (char)(0x80 | (r >> 6 & 63)); b[3] = (char)(0x80 | (r & 63)); addn(b, 4); } }
static size_t digits(uint32_t x) { size_t n = 1; while (x >= 10) { x /= 10; n++; } return n; }
static void model_text(const char *s, size_t n) {
	tlen = 0; for (size_t i = 0; i < n; i++) { if (s[i] == '\r') { text[tlen++] = '\n'; if (i + 1 < n && s[i + 1] == '\n') i++; } else if (s[i] == '\t') { memcpy(text + tlen, "    ", 4); tlen += 4; } else text[tlen++] = s[i]; }
	text[tlen] = 0; nline = 0; size_t st = 0; for (size_t i = 0; i <= tlen; i++) if (i == tlen || text[i] == '\n') { line[nline] = text + st; linelen[nline++] = i - st; st = i + 1; }
}
static void doclear(void) { harbol_msg_span_clear(&ms); harbol_msg_span_clear(&ms); sim_leak_check("after the diagnostic was cleared", 0); have = false; nlab = nnote = 0; }
static void lines(const char *after) {
	CHECK(harbol_msg_span_get_num_lines(&ms) == nline, "msg:lines", "%s: %zu lines reported, the source has %zu", after, harbol_msg_span_get_num_lines(&ms), nline);
	for (size_t i = 0; i < nline; i++) { struct HarbolString const *l = harbol_msg_span_get_line(&ms, i); CHECK(l, "msg:lines", "%s: line %zu is missing", after, i);
		CHECK(l->len == linelen[i] && (l->len == 0 || !memcmp(l->cstr, line[i], l->len)), "msg:lines", "%s: line %zu reads '%s', the source has '%.*s'", after, i, l->cstr ? l->cstr : "", (int)linelen[i], line[i]); CHECK(!l->len || l->cstr[l->len] == 0, "msg:lines", "line is not terminated"); }
	CHECK(!harbol_msg_span_get_line(&ms, nline) && !harbol_msg_span_get_line(&ms, SIZE_MAX), "msg:lines", "a line past the end exists");
	struct HarbolString const *c = harbol_msg_span_get_code(&ms);
	if (hascode) CHECK((c->len == tlen && (!tlen || !memcmp(c->cstr, text, tlen))) || (c->len == rawlen && (!rawlen || !memcmp(c->cstr, raw, rawlen))), "msg:code", "%s: the code reads otherwise than the source", after);
	else CHECK(c->len == 0 && !c->cstr, "msg:code", "%s: the code was to be released", after);
}
static void compare(SimFile *sf, size_t off, const char *what) {
	CHECK(sf->len >= off, "msg:output", "%s: earlier output vanished", what); size_t n = sf->len - off; const char *d = (const char *)sf->d + off;
	size_t i = 0; while (i < n && i < on && d[i] == out[i]) i++;
	CHECK(n == on && i == n, "msg:output", "%s: byte %zu of %zu (expected %zu) differs: ...%.30s, expected ...%.30s", what, i, n, on, n ? d + i : "", out + i);
}
static void exec(const Plan *p) {
	sim_disk_policy(p->cfg[C_RCHUNK], p->cfg[C_BUFSZ]); memset(&ms, 0, sizeof ms); have = false; nlab = nnote = 0; size_t count = 5;
	SimFile *sf; FILE *fp = sim_sink(&sf);
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i); int f = 0; bool r;
		switch (s->op) {
		case O_INIT: {
			if (have) doclear(); rawlen = s->bloblen < sizeof raw - 1 ? s->bloblen : sizeof raw - 1; memcpy(raw, s->blob ? (char *)s->blob : "", rawlen); { size_t unit = rawlen, times = umod(s->a[2], 5000); while (unit && times-- && rawlen + unit < sizeof raw - 1) { memcpy(raw + rawlen, raw, unit); rawlen += unit; } } raw[rawlen] = 0; rawlen = strlen(raw);
			bool file = s->a[0] & 1, fre = s->a[0] & 2, mk = s->a[0] & 4, missing = file && s->a[1] % 9 == 0; if (file) { if (missing) sim_file_rm("src.c"); else sim_file_put("src.c", raw, rawlen); }
			static char arg[TX / 4]; strcpy(arg, file ? "src.c" : raw); memset(&ms, 0, sizeof ms);
			sim_arm(s); if (mk) ms = harbol_msg_span_make(arg, file, fre, &r); else r = harbol_msg_span_init(&ms, arg, file, fre); f = sim_disarm(); memset(arg, '#', strlen(arg)); ev("r%d", r);
			CHECK(r || f || missing || rawlen == 0, "msg:create", "construction failed without a fault"); CHECK(!(r && missing), "msg:create", "construction from a missing file reported success");
			CHECK(sim_open_handles() == 1, "msg:handle", "source file left open");
			model_text(raw, rawlen); hascode = !fre; have = r; if (!r) { sim_probe(0); doclear(); } else lines("init"); break; }
		case O_LABEL: case O_NOTE: {
			if (!have) break; bool isl = s->op == O_LABEL; if ((isl ? nlab : nnote) == MAXL) break; static char m[MM]; size_t n = s->bloblen < 99 ? s->bloblen : 99, ext = umod(s->a[5], 18000) / 3; memcpy(m, s->blob ? (char *)s->blob : "", n); const uint8_t *xb = sim_bytes(ext, ext); for (size_t q = 0; q < ext; q++) m[n++] = (char)(33 + xb[q] % 94); m[n] = 0; int fm = (int)umod(s->a[5], 3);
			const char *mc = cols[umod(s->a[6], 6)]; char *dst = isl ? lab[nlab].msg : note[nnote].msg; if (fm == 0) snprintf(dst, MM, "%s", m); else if (fm == 1) snprintf(dst, MM, "%d:%s%%", (int)n, m); else snprintf(dst, MM, "fixed text");
			if (isl) {
				Lab *l = &lab[nlab]; l->sp = (struct HarbolTokenSpan){ (uint32_t)umod(s->a[0], nline + 1) + (umod(s->a[0], 40) != 39), 0, (uint32_t)umod(s->a[2], 70000), 0 }; l->sp.line_end = l->sp.line_start + (uint32_t)umod(s->a[1], s->a[1] >= 120 ? 300 : 4);
				if (umod(s->a[1], 30) < 27) { if (l->sp.line_start > nline) l->sp.line_start = (uint32_t)nline; if (l->sp.line_end > nline) l->sp.line_end = (uint32_t)nline; if (!l->sp.line_start) l->sp.line_start = 1; if (l->sp.line_end < l->sp.line_start) l->sp.line_end = l->sp.line_start; }
				int64_t w = s->a[3]; l->sp.colm_end = w < 0 && l->sp.line_end > l->sp.line_start ? (uint32_t)umod(w, l->sp.colm_start + 1) : l->sp.colm_start + (uint32_t)umod(w, 70000);
				l->odd = l->sp.line_start < 1 || l->sp.line_end > nline || l->sp.colm_end < l->sp.colm_start;
				if (s->a[4] & 8) { struct HarbolTokenSpan a = l->sp, b = l->sp; a.line_end = a.line_start; a.colm_end = a.colm_start; b.line_start = b.line_end; b.colm_start = b.colm_end; if (!l->odd) l->sp = harbol_token_span_merge(s->a[4] & 16 ? a : b, s->a[4] & 16 ? b : a); }
				static const int32_t syms[] = { '^', '~', '=', 0xE9, 0x261D, 0x1F600, '%', '-' }; l->sym = syms[s->a[4] & 7]; l->sc = cols[umod(s->a[7], 6)]; l->mc = mc;
				sim_arm(s); if (fm == 0) r = harbol_msg_span_add_label(&ms, l->sp, l->sc, l->sym, mc, "%s", m); else if (fm == 1) r = harbol_msg_span_add_label(&ms, l->sp, l->sc, l->sym, mc, "%d:%s%%", (int)n, m); else r = harbol_msg_span_add_label(&ms, l->sp, l->sc, l->sym, mc, "fixed text"); f = sim_disarm(); if (r) nlab++;
			} else { note[nnote].mc = mc; sim_arm(s); if (fm == 0) r = harbol_msg_span_add_note(&ms, mc, "%s", m); else if (fm == 1) r = harbol_msg_span_add_note(&ms, mc, "%d:%s%%", (int)n, m); else r = harbol_msg_span_add_note(&ms, mc, "fixed text"); f = sim_disarm(); if (r) nnote++; }
			memset(m, '#', n); ev("r%d", r); CHECK(r || f, "msg:add", "adding a %s failed without a fault", isl ? "label" : "note"); if (!r) sim_probe(1);
			CHECK(ms.labels.len == (size_t)nlab && ms.notes.len == (size_t)nnote, "msg:add", "%zu labels and %zu notes held, %d and %d added", ms.labels.len, ms.notes.len, nlab, nnote); break; }
		case O_EMIT: {
			if (!have) break; bool odd = false; uint32_t big = 0; on = 0; out[0] = 0; int64_t a = s->a[0]; uint32_t fl = (uint32_t)s->a[1], fc = (uint32_t)s->a[2];
			const char *fn = a & 1 ? "dir/f%s.c" : NULL, *mt = a & 2 ? "error" : NULL, *code = a & 4 ? "E%d" : NULL, *mc = cols[umod(s->a[3], 5)];
			if (mt) { add("%s%s", mc, mt); if (code) add("[%s]", code); add("%s: ", COLOR_RESET); } add("got %d of '%s'", (int)s->a[4], "x%y");
			if (fn) { add("\n--> %s", fn); if (a & 8) add(":%u", fl); if (a & 16) add(":%u", fc); }
			for (int k = 0; k < nlab; k++) { odd |= lab[k].odd; if (lab[k].sp.line_end > big) big = lab[k].sp.line_end; }
			size_t body = on, pad = digits(big) + 1;
			if (nlab) { add("\n"); rep(' ', pad); add("|\n");
				for (int k = 0; k < nlab && !odd; k++) { Lab *l = &lab[k];
					for (uint32_t q = l->sp.line_start; q <= l->sp.line_end; q++) { add("%u", q); rep(' ', pad - digits(q)); add("|"); addn(line[q - 1], linelen[q - 1]); add("\n"); }
					rep(' ', pad); add("|"); rep(' ', l->sp.colm_start); add("%s", l->sc ? l->sc : ""); for (uint32_t c = l->sp.colm_start; c < l->sp.colm_end; c++) utf8(l->sym); add("%s %s%s%s\n", COLOR_RESET, l->mc ? l->mc : "", l->msg, l->mc ? COLOR_RESET : ""); }
				if (nnote) { rep(' ', pad); add("|\n"); for (int k = 0; k < nnote; k++) { rep(' ', pad); add("%s%s%s\n", note[k].mc ? note[k].mc : "", note[k].msg, note[k].mc ? COLOR_RESET : ""); } } }
			fflush(fp); size_t off = sf->len, c0 = count; bool wc = a & 32; char fnb[16]; if (fn) strcpy(fnb, fn);
			sim_arm(s); harbol_msg_span_emit_to_stream(&ms, wc ? &count : NULL, fp, fn ? fnb : NULL, mt, code, mc, a & 8 ? &fl : NULL, a & 16 ? &fc : NULL, "got %d of '%s'", (int)s->a[4], "x%y"); bool ok = fflush(fp) == 0; f = sim_disarm();
			CHECK(count == c0 + wc, "msg:count", "one emission counted %zu messages", count - c0); ev("len%zu", sf->len - off);
			if (f) { sim_probe(2); sim_fclose(fp); fp = sim_sink(&sf); }
			else { CHECK(ok, "msg:output", "flushing failed without a fault");
				if (nlab && !odd) compare(sf, off, "emit");
				else if (!nlab && !nnote) { size_t n = sf->len - off; if (n == on + 1 && sf->d[off + on] == '\n') add("\n"); compare(sf, off, "emit"); }
				else { /* spans outside the source, or notes without labels: everything that was added still shows, in order */
					CHECK(sf->len - off >= body && !memcmp(sf->d + off, out, body), "msg:output", "emit: header differs"); char *d = malloc(sf->len - off + 1), *at; memcpy(d, sf->d + off, sf->len - off); d[sf->len - off] = 0; at = d + body;
					CHECK(sf->len - off < 3000000, "msg:output", "a diagnostic of %zu bytes", sf->len - off); CHECK(!strstr(at, "(null)") || strstr(text, "(null)"), "msg:output", "emit: missing text shown as (null)");
					for (int k = 0; k < nlab; k++) { Lab *l = &lab[k]; for (uint32_t q = l->sp.line_start ? l->sp.line_start : 1; q <= l->sp.line_end && q <= nline; q++) { static char t[TX]; snprintf(t, sizeof t, "|%.*s\n", (int)linelen[q - 1], line[q - 1]); at = strstr(at, t); if (!at) { free(d); sim_violation("msg:output", "emit: line %u of a label is not shown", q); } at += strlen(t) - 1; }
						at = strstr(at, l->msg); if (!at) { free(d); sim_violation("msg:output", "emit: the message of label %d is not shown", k); } at += strlen(l->msg); }
					for (int k = 0; k < nnote; k++) { at = strstr(at, note[k].msg); if (!at) { free(d); sim_violation("msg:output", "emit: note %d is not shown", k); } at += strlen(note[k].msg); }
					free(d); } }
			if (nlab > 1) sim_probe(3);
			sim_state(mix64((uint64_t)nlab * 131 + (uint64_t)nnote * 7 + (a & 63) + nline * 997)); nlab = nnote = 0;
			CHECK(ms.labels.len == 0 && ms.notes.len == 0, "msg:emit", "emission left %zu labels and %zu notes", ms.labels.len, ms.notes.len); lines("emit"); break; }
		case O_ONELINE: {
			int64_t a = s->a[0]; uint32_t fl = (uint32_t)s->a[1], fc = (uint32_t)s->a[2]; const char *fn = a & 1 ? "f%d.txt" : NULL, *mc = cols[umod(s->a[3], 5)]; on = 0; out[0] = 0;
			if (fn) { add("(%s", fn); if (a & 2) add(":%u", fl); if (a & 4) add(":%u", fc); add(") "); } add("%sWarn%s: **** ", mc, COLOR_RESET); if (a & 8) add("100%% of %s", "%s"); else add("plain"); add(" ****\n");
			fflush(fp); size_t off = sf->len, c0 = count; bool wc = a & 16;
			sim_arm(s); if (a & 8) harbol_write_msg(wc ? &count : NULL, fp, fn, "Warn", mc, a & 2 ? &fl : NULL, a & 4 ? &fc : NULL, "100%% of %s", "%s"); else harbol_write_msg(wc ? &count : NULL, fp, fn, "Warn", mc, a & 2 ? &fl : NULL, a & 4 ? &fc : NULL, "plain"); bool ok = fflush(fp) == 0; f = sim_disarm();
			CHECK(count == c0 + wc, "msg:count", "one message counted %zu times", count - c0); if (f) { sim_fclose(fp); fp = sim_sink(&sf); } else { CHECK(ok, "msg:output", "flushing failed without a fault"); compare(sf, off, "one line"); } break; }
		case O_LINES: if (have) lines("lines"); break;
		case O_CLEAR: doclear(); break;
		}
	}
	doclear(); sim_fclose(fp); CHECK(sim_open_handles() == 0, "msg:handle", "file left open");
}
static void gentext(Rng *r, char *b, size_t *n, size_t max) {
	static const char *const fr[] = { "int x = 0;", "\tif( a %s b ) {", "}", "", "caf\xC3\xA9 \xE2\x98\x9D", "(null)", "%n%d", "  ", "\t\t", "a", "return 0; // done" };
	*n = 0; int style = (int)rng_below(r, 5), k = rng_p(r, 1, 6) ? (int)rng_below(r, 120) : (int)rng_below(r, 9); if (rng_p(r, 1, 20)) k = 0;
	for (int i = 0; i < k; i++) { const char *t = rng_p(r, 1, 3) ? "" : fr[rng_below(r, 11)]; if (rng_p(r, 1, 25)) t = ""; size_t tl = strlen(t); if (*n + tl + 3 > max) break; memcpy(b + *n, t, tl); *n += tl;
		if (i == k - 1 && rng_p(r, 1, 2)) break; int st = style == 4 ? (int)rng_below(r, 3) : style == 3 ? 0 : style; if (st == 0) b[(*n)++] = '\n'; else if (st == 1) { b[(*n)++] = '\r'; b[(*n)++] = '\n'; } else b[(*n)++] = '\r'; }
}
static void gen(Rng *r, Plan *p) {
	p->cfg[C_RCHUNK] = rng_p(r, 1, 2) ? 0 : rng_range(r, 1, 300); p->cfg[C_BUFSZ] = rng_p(r, 1, 3) ? 0 : rng_p(r, 1, 2) ? -1 : rng_range(r, 1, 200);
	unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_INIT] = 1; if (w[O_CLEAR] > 1) w[O_CLEAR] = rng_p(r, 1, 3); w[O_LABEL] += 2; w[O_EMIT] += 1; int n = rng_len(r) / 2 + 2; bool deep = false; static char b[2000]; size_t bl; bool big = rng_p(r, 1, 40); if (big && n > 20) n = 20; if (big && rng_p(r, 1, 4)) n = 80;
	for (int i = 0; i < n; i++) {
		int op = i == 0 ? O_INIT : rng_op(r, w, NOPS); Step *s;
		switch (op) {
		case O_INIT: s = plan_add(p, op, 3, (int64_t)rng_below(r, 8), (int64_t)rng_below(r, 20), big && rng_p(r, 2, 3) ? (int64_t)1 << rng_below(r, rng_p(r, 1, 4) ? 11 : 7) : (int64_t)0); gentext(r, b, &bl, big ? 100 + rng_below(r, 400) : 1490); if (big && rng_p(r, 1, 80)) { if (n > i + 5) n = i + 5; bl = 400; memset(b, '\n', bl); if (s) s->a[2] = rng_range(r, 160, 400); deep = true; } /* more lines than 16 bits count */ if (s) step_blob(s, b, bl); if (deep) { plan_add(p, O_LABEL, 8, rng_range(r, 1, 400), (int64_t)rng_below(r, 3), 4ll, 3ll, (int64_t)0, 0ll, 5ll, 5ll); plan_add(p, O_LABEL, 8, rng_range(r, 65530, 64000 + 400 * 50), (int64_t)rng_below(r, 3), 4ll, 3ll, 0ll, 0ll, 5ll, 5ll); plan_add(p, O_EMIT, 5, 63ll, 7ll, 8ll, 0ll, 1ll); deep = false; } break;
		case O_LABEL: s = plan_add(p, op, 8, (int64_t)rng_below(r, big ? 130000 : 200), (int64_t)rng_below(r, big ? 150 : 120), big && rng_p(r, 1, 4) ? ((int64_t)1 << rng_range(r, 6, 12)) - rng_range(r, 0, 2) : (int64_t)rng_below(r, 90), rng_p(r, 1, 12) ? -1 - (int64_t)rng_below(r, 80) : big && rng_p(r, 1, 4) ? ((int64_t)1 << rng_range(r, 6, 12)) - rng_range(r, 0, 2) : (int64_t)rng_below(r, 60), (int64_t)rng_below(r, 32), (int64_t)rng_below(r, 3) + (big && rng_p(r, 1, 3) ? 3 * ((int64_t)1 << rng_range(r, 5, 12)) : 0), (int64_t)rng_below(r, 6), (int64_t)rng_below(r, 6)); goto msg;
		case O_NOTE: s = plan_add(p, op, 8, 0ll, 0ll, 0ll, 0ll, 0ll, (int64_t)rng_below(r, 3) + (big && rng_p(r, 1, 3) ? 3 * ((int64_t)1 << rng_range(r, 5, 12)) : 0), (int64_t)rng_below(r, 6), 0ll);
		msg: bl = rng_p(r, 1, 8) ? 0 : rng_below(r, 60); for (size_t q = 0; q < bl; q++) b[q] = (char)rng_range(r, 32, 126); if (s) step_blob(s, b, bl); break;
		case O_EMIT: case O_ONELINE: plan_add(p, op, 5, (int64_t)rng_below(r, 64), (int64_t)(rng_p(r, 1, 4) ? rng_u64(r) & 0xFFFFFFFF : rng_below(r, 300)), (int64_t)(rng_p(r, 1, 4) ? rng_u64(r) & 0xFFFFFFFF : rng_below(r, 200)), (int64_t)rng_below(r, 5), rng_range(r, -9, 9)); break;
		default: plan_add(p, op, 0);
		}
	}
}
const Scenario sc_msg = { "msg", ops, cfgs, gen, exec, ALLOCF | FM(F_OPEN) | FM(F_READ) | FM(F_SEEK) | FM(F_WRITE), 3, 150000000 };
