/* C12: parsing configuration files, intact in any style and damaged in any way, over a faulty disk and allocator. */
#include "cfgmodel.h"
enum { O_ADD, O_SECTION, O_SPECIAL, O_INCLUDE, O_PARSE, O_PARSE_CSTR, O_DAMAGE, O_REWRITE, O_REMOVE, O_DEEP, O_PERM, O_BULK, O_CHAIN, O_BAD, NOPS };
static const char *const ops[] = { "add", "add_section", "add_special", "add_include", "parse_file", "parse_cstr", "damage", "rewrite", "remove", "deep", "perm", "bulk", "chain", "add_bad", NULL };
enum { C_ALLOC, C_CHUNK, C_BUF, C_STYLE };
static const char *const cfgs[] = { "alloc", "read_chunk", "stdio_buffer", "style", NULL };
#define ND 5
static const char *const fn[ND] = { "a.cfg", "dir/b.cfg", "c.cfg", "inc/d.cfg", NULL };
static int root[ND]; static size_t torn[ND]; static bool dirty[ND], gone[ND], hasinc[ND]; static char *txt[ND]; static size_t tn[ND];
static char *W; static size_t Wn, Wcap; static uint64_t style;
static void wn(const void *d, size_t n) { if (Wn + n + 1 > Wcap) { W = realloc(W, Wcap = (Wn + n + 1) * 2); if (!W) sim_violation("sim-internal", "memory"); } memcpy(W + Wn, d, n); Wn += n; W[Wn] = 0; }
static void ws(const char *s) { wn(s, strlen(s)); }
static uint64_t rnd(void) { style += 0x9E3779B97F4A7C15ull; return mix64(style); }
static bool plain;                      /* the simplest way of writing everything */
static int pick(int n) { return plain ? 0 : (int)(rnd() % (uint64_t)n); }
static void gap(void) {
	static const char *const g[] = { " ", "\n", "  \n", "\t", "\r\n", " # note: \"x\" { 1\n", " // it's, [ }\n", " /* a\n * \"b\" */ ", ",", " , ", "\n\n", "/**/", " /* ** / */" };
	if (plain) { ws(" "); return; } int k = pick(5); if (!k) { ws(" "); return; } while (k-- > 1) ws(g[pick(13)]);
}
/* text as a quoted literal; every escape is followed by something that cannot extend it */
static void quoted(const uint8_t *d, size_t n) {
	char q = pick(2) ? '\'' : '"', b[12]; int esc = 0; wn(&q, 1);
	for (size_t i = 0; i < n; i++) {
		uint8_t c = d[i]; bool hx = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'), oc = c >= '0' && c <= '7';
		if ((esc == 2 && hx) || (esc == 1 && oc)) { snprintf(b, sizeof b, esc == 1 ? "\\%o" : "\\x%x", c); ws(b); continue; }
		esc = 0;
		if (c == (uint8_t)q || c == '\\') { b[0] = '\\'; b[1] = (char)c; wn(b, 2); }
		else if (c == '\n') ws("\\n"); else if (c == '\r') ws("\\r"); else if (c == '\t') ws("\\t");
		else if (c < 32 || c == 127 || (c < 128 && pick(40) == 1)) { esc = 1 + pick(2); snprintf(b, sizeof b, esc == 1 ? "\\%o" : "\\x%x", c); ws(b); }
		else wn(&c, 1);
	}
	wn(&q, 1);
}
static void number_sep(const char *digits, int group) { size_t n = strlen(digits); bool sep = pick(4) == 1; for (size_t i = 0; i < n; i++) { if (sep && i && (n - i) % (size_t)group == 0) ws("'"); wn(digits + i, 1); } }
static void integer(intmax_t v) {
	char b[80]; uintmax_t u = v < 0 ? (uintmax_t)0 - (uintmax_t)v : (uintmax_t)v; if (v < 0) ws("-"); else if (pick(6) == 1) ws("+");
	switch (pick(5)) {
	case 1: snprintf(b, sizeof b, pick(2) ? "%jX" : "%jx", u); ws(pick(2) ? "0X" : "0x"); number_sep(b, 4); break;
	case 2: snprintf(b, sizeof b, "%jo", u); ws(u ? "0" : ""); ws(b); break;
	case 3: if (v > INTMAX_MIN) { int k = 0; for (int i = 62; i >= 0; i--) if (k || (u >> i & 1) || i == 0) b[k++] = (char)('0' + (u >> i & 1)); b[k] = 0; ws(pick(2) ? "0B" : "0b"); number_sep(b, 8); break; } /* fall through */
	default: snprintf(b, sizeof b, "%ju", u); number_sep(b, 3); break;
	}
}
static long double real(long double f, bool must_float) {   /* writes it and returns what the text means */
	static char b[6000], t[6000]; int k = pick(6); if (!must_float && pick(4) == 1) { snprintf(b, sizeof b, "%d", (int)(fabsl(f) < 1e6L ? f : 7)); ws(b); return strtold(b, NULL); }
	snprintf(b, sizeof b, k == 1 ? "%.12Le" : k == 2 ? "%.1Lf" : k == 3 ? "%.20Lf" : "%Lf", f); size_t n = 0; char *q = b; strcpy(t, b);
	if (k == 4 && !strncmp(b, "0.", 2) && b[2]) q++;            /* ".5" */
	(void)n; ws(q); return strtold(q, NULL);
}
static int count4(void) { return pick(5) == 1 ? pick(7) : 4; }   /* missing components are zero, further ones are ignored */
/* a setting that is not one: its own key and value, or a second setting of a key the section already has */
static const char *const bad[] = { "%: 1", "\"\": 1", "bare: 1", "%: tru", "%: nil", "%: [1 2]", "%: <what>", "%: zzz", "%: v 1", "%: c(1)", "%: v[1 x]", "%: c[1 2 3", "\"<include>\": 12", "%: -", "%: ]", "%: Iota", "%: fals", "] %: 1" };
#define NBAD 18
static void write_doc(int sec, int depth) {
	for (int x = M[sec].first; x >= 0; x = M[x].next) {
		Node *n = &M[x]; static uint8_t kbuf[MAXKEY + 100]; uint8_t *k = kbuf; size_t kl = n->kl; memcpy(k, n->key, kl); char b[200];
		gap();
		if (n->type == K_INCLUDE) { quoted((const uint8_t *)(n->i & 4 ? "<INCLUDE>" : "<include>"), 9); ws(pick(2) ? " " : ": "); quoted(n->key, n->kl); gap(); continue; }
		if (n->type == K_BAD) {
			Node *q = &M[n->sl]; ws(" "); if (n->i == 0 && q->type == K_INCLUDE) { ws("'<include>': "); quoted(q->key, q->kl); gap(); continue; }
			for (const char *t = bad[n->i]; *t; t++) if (*t != '%') wn(t, 1); else if (n->i == 0) quoted(q->key, q->kl); else quoted(n->key, n->kl);
			ws(" "); gap(); continue;
		}
		if (n->mark) { const char *m = n->mark == 1 ? "<enum>" : n->mark == 2 ? "<ENUM>" : "<math 1 + 2>"; memcpy(k + kl, m, strlen(m)); kl += strlen(m); }
		n->start = Wn; quoted(k, kl); ws(plain ? ": " : pick(3) ? ":" : " "); if (pick(3) == 1) gap();
		switch (n->type) {
		case HarbolCfgType_Null: ws("null"); break;
		case HarbolCfgType_Map: ws("{"); write_doc(x, depth + 1); gap(); ws("}"); break;
		case HarbolCfgType_String: quoted(n->s, n->sl); break;
		case HarbolCfgType_Float: n->f = real(n->f, true); break;
		case HarbolCfgType_Int: integer(n->i); break;
		case HarbolCfgType_Bool: ws(n->b ? "true" : "false"); break;
		case HarbolCfgType_Color: ws("c"); if (pick(3) == 1) ws(" "); ws("["); { int m = count4(); for (int i = 0; i < m; i++) { if (i) ws(pick(2) ? " " : ", "); else if (pick(2)) gap(); integer(i < 4 ? n->c[i] : 77); } for (int i = m; i < 4; i++) n->c[i] = 0; } if (pick(2)) gap(); ws("]"); break;
		case HarbolCfgType_Vec4D: ws("v["); { int m = count4(); for (int i = 0; i < m; i++) { if (i) ws(pick(2) ? " " : ", "); float f = (float)real(i < 4 ? n->v[i] : 7, false); if (i < 4) n->v[i] = f; } for (int i = m; i < 4; i++) n->v[i] = 0; } gap(); ws("]"); break;
		case K_IOTA: ws("iota"); break; case K_IOTAG: ws("IOTA"); break; case K_FILE: ws(pick(2) ? "<FILE>" : "<file>"); break;
		case K_MATH: { static const char *const var[] = { "%d", "iota", "IOTA", "enum", "ENUM" }; uint8_t t[400]; size_t l = n->sl; memcpy(t, n->s, l); int vi = (int)(n->i / 1000000 % 5); char a[40]; snprintf(a, sizeof a, var[vi], (int)(n->i % 1000)); char op = "+-*"[n->i / 1000 % 3]; snprintf(b, sizeof b, n->b ? "<math (%s %c %d) * 2>" : "<math %s%c %d>", a, op, (int)(n->i / 3000 % 300)); memcpy(t + l, b, strlen(b)); l += strlen(b); memcpy(t + l, n->s, n->sl); l += n->sl; quoted(t, l); break; }
		}
		n->end = Wn;
		if (n->type == HarbolCfgType_Int || n->type == HarbolCfgType_Float) ws(pick(3) == 1 ? "," : " ");   /* a quote right behind digits is a digit separator */
		gap();
	}
}
/* what a document means: counters, includes and expressions worked out */
typedef struct Ctx { const char *name; intmax_t gi, ge; const struct Ctx *up; } Ctx;
static int bads;
static bool mean(int sec, int out, Ctx *c) {   /* false: a bad setting ended this file */
	intmax_t li = 0, le = 0;
	for (int x = M[sec].first; x >= 0; x = M[x].next) {
		static uint8_t k[MAXKEY + 100]; size_t kl = M[x].kl; memcpy(k, M[x].key, kl); const Ctx *u; int y, d;
		if (M[x].type == K_BAD) { if (M[x].i == 0 && M[M[x].sl].type == K_INCLUDE && cm_find(out, (const char *)M[M[x].sl].key, M[M[x].sl].kl) < 0) continue; bads++; return false; }
		if (M[x].type == K_INCLUDE) {
			for (d = 0; strncmp(fn[d], (char *)k, kl); d++) ; for (u = c; u && (!u->name || strcmp(u->name, fn[d])); u = u->up) ;
			if (u || gone[d] || sim_file(fn[d])->unreadable || sim_file(fn[d])->len == 0) continue;
			y = cm_add(out, k, kl); if (y < 0) sim_violation("sim-internal", "duplicate include"); M[y].type = HarbolCfgType_Map; M[y].mark = 9; Ctx in = { fn[d], 0, 0, c }; mean(root[d], y, &in); continue;
		}
		if (M[x].mark == 1) kl += (size_t)sprintf((char *)k + kl, "%jd", le++); else if (M[x].mark == 2) kl += (size_t)sprintf((char *)k + kl, "%jd", c->ge++); else if (M[x].mark == 3) kl += (size_t)sprintf((char *)k + kl, "%Lf", 3.0L);
		y = cm_add(out, k, kl); if (y < 0) sim_violation("sim-internal", "duplicate key"); Node keep = M[y]; M[y] = M[x]; M[y].key = keep.key; M[y].kl = kl; M[y].parent = keep.parent; M[y].first = M[y].last = M[y].next = -1; M[y].nk = 0;
		switch (M[x].type) {
		case HarbolCfgType_Map: if (!mean(x, y, c)) return false; break;
		case K_IOTA: M[y].type = HarbolCfgType_Int; M[y].i = li++; break;
		case K_IOTAG: M[y].type = HarbolCfgType_Int; M[y].i = c->gi++; break;
		case K_FILE: { const char *f = c->name ? c->name : "C-string-cfg"; M[y].type = HarbolCfgType_String; M[y].sl = strlen(f); M[y].s = cm_keep(f, M[y].sl); break; }
		case K_MATH: { intmax_t v[5] = { M[x].i % 1000, li, c->gi, le, c->ge }; long double a = (long double)v[M[x].i / 1000000 % 5], b = (long double)(M[x].i / 3000 % 300), r; int op = (int)(M[x].i / 1000 % 3); r = op == 0 ? a + b : op == 1 ? a - b : a * b; if (M[x].b) r *= 2; char t[200]; int l = snprintf(t, sizeof t, "%Lf", r); M[y].type = HarbolCfgType_String; uint8_t z[400]; size_t q = M[x].sl; memcpy(z, M[x].s, q); memcpy(z + q, t, (size_t)l); memcpy(z + q + l, M[x].s, q); M[y].sl = 2 * q + (size_t)l; M[y].s = cm_keep(z, M[y].sl); break; }
		}
	}
	return true;
}
static void rewrite(int d) { Wn = 0; ws(""); write_doc(root[d], 0); gap(); txt[d] = realloc(txt[d], Wn + 1); memcpy(txt[d], W, Wn + 1); tn[d] = Wn; dirty[d] = false; torn[d] = 0; if (fn[d]) { bool un = sim_file(fn[d]) && sim_file(fn[d])->unreadable; sim_file_put(fn[d], txt[d], tn[d])->unreadable = un; gone[d] = false; } }
/* which documents a parse of d can reach, and whether all of them are as written */
static bool pristine(int d, unsigned *seen, bool *inc) {
	if (*seen >> d & 1) return true; *seen |= 1u << d; if (dirty[d]) { *inc = true; return false; }
	static int st[ND + 1][MAXN]; static int lv; if (lv > ND) sim_violation("sim-internal", "include depth"); int n = 0, L = lv++; st[L][n++] = root[d]; bool ok = true;
	for (int q = 0; q < n; q++) for (int x = M[st[L][q]].first; x >= 0; x = M[x].next) { if (M[x].type == HarbolCfgType_Map && n < MAXN) st[L][n++] = x; if (M[x].type == K_INCLUDE) { *inc = true; for (int e = 0; e < 4; e++) if (M[x].kl == strlen(fn[e]) && !memcmp(fn[e], M[x].key, M[x].kl) && !gone[e] && !pristine(e, seen, inc)) ok = false; } }
	lv--; return ok;
}
static bool includes(int d) { for (int y = 0; y < Mn; y++) if (M[y].type == K_INCLUDE) { int x = y; while (M[x].parent >= 0) x = M[x].parent; if (x == root[d]) return true; } return false; }
static bool hasbad(int d) { for (int y = 0; y < Mn; y++) if (M[y].type == K_BAD) { int x = y; while (M[x].parent >= 0) x = M[x].parent; if (x == root[d]) return true; } return false; }
static void check_result(struct HarbolMap *L, const char *w) { cfg_digest(L); size_t own = cfg_blocks; CHECK(sim_live() == own, "leak", "after %s: %zu blocks live, the configuration owns %zu", w, sim_live(), own); CHECK(sim_open_handles() == 0, "handle", "after %s: %zu file handles open", w, sim_open_handles()); }
static void parse(const Step *s, int d, bool file) {
	unsigned seen = 0; bool inc = false, ok = pristine(d, &seen, &inc), there = !file || (!gone[d] && sim_file(fn[d]) && !sim_file(fn[d])->unreadable && sim_file(fn[d])->len), readf = false; uint64_t ref = 0; bool got;
	for (int k = 0; k < s->nf; k++) if (s->f[k].kind != F_ALLOC) readf = true;
	if (getenv("SIM_SHOW")) for (int e = 0; e < ND; e++) if (txt[e]) fprintf(stderr, "--- %s%s%s\n%.*s\n---\n", fn[e] ? fn[e] : "text", dirty[e] ? " damaged" : "", gone[e] ? " gone" : "", (int)(tn[e] > 2000 ? 2000 : tn[e]), txt[e]);
	char *c = file ? NULL : txt[d] ? txt[d] : (char *)""; size_t e0 = sim_stderr_bytes(); struct HarbolMap *L = file ? harbol_cfg_parse_file(fn[d]) : harbol_cfg_parse_cstr(c); got = L != NULL; bool said = sim_stderr_bytes() > e0; ev("parse %d %d %d", d, got, said); if (ok && there && !includes(d) && !hasbad(d)) CHECK(!said, "cfgparse:complaint", "undamaged text was complained about");
	if (L) { check_result(L, "parsing"); ref = cfg_digest(L); }
	if (!there) CHECK(!L, "cfgparse:invented", "a file that cannot be read gave a configuration"); else CHECK(L, "cfgparse:refused", "parsing gave nothing without a fault");
	if (L && ok && there) { int save = Mn, o = cm_root(); size_t tsave = TAn; Ctx top = { fn[d], 0, 0, NULL }; bads = 0; mean(root[d], o, &top); cm_cmp(L, o, false, "parsing", "cfgparse:values"); if (bads) { CHECK(said, "cfgparse:silent", "a setting that cannot be read was passed over without a complaint"); sim_probe(5); } Mn = save; TAn = tsave; sim_probe(0); } else if (L) sim_probe(1);
	if (L && torn[d] && !includes(d)) { int save = Mn, o = cm_root(); size_t tsave = TAn; Ctx top = { fn[d], 0, 0, NULL }; mean(root[d], o, &top); cm_cmp_torn(L, o, torn[d] - 1, "parsing torn text", "cfgparse:torn"); CHECK(said || !cm_halved(o, torn[d] - 1), "cfgparse:silent", "text torn within a setting was parsed without a complaint"); Mn = save; TAn = tsave; sim_probe(4); }
	if (L) { if (cfg_blocks > 1500) harbol_cfg_free(&L); }   /* rendering very deep results costs time quadratic in their size */
	if (L) { struct HarbolString t = harbol_cfg_to_str(L); harbol_string_clear(&t); harbol_cfg_free(&L); CHECK(!L, "cfgparse:free", "dangling"); } sim_leak_check("after freeing a parsed configuration", 0);

	sim_arm(s); L = file ? harbol_cfg_parse_file(fn[d]) : harbol_cfg_parse_cstr(c); int ft = sim_disarm(); ev("again %d", L != NULL);
	if (ft) for (int e = 0; e < 4; e++) if (!gone[e] && sim_file(fn[e])) { bool un = sim_file(fn[e])->unreadable; sim_file_put(fn[e], txt[e], tn[e])->unreadable = un; }   /* undo cuts and growth */
	CHECK(sim_open_handles() == 0, "handle", "after parsing: a file is open"); if (!L) { CHECK(ft || !got, "cfgparse:unstable", "the second parse of the same text gave nothing"); sim_leak_check("after a failed parse", 0); if (ft) sim_probe(2); return; }
	check_result(L, "parsing"); uint64_t h = cfg_digest(L); CHECK(got || readf, "cfgparse:invented", "a fault turned nothing into a configuration");
	if (!ft) CHECK(h == ref, "cfgparse:unstable", "the same text gave two configurations"); else if (!readf && !inc) CHECK(h == ref, "cfgparse:incomplete", "parsing that ran out of memory gave an incomplete configuration");
	else if (readf && !inc) { bool cut = false; for (int k = 0; k < s->nf; k++) cut |= s->f[k].kind == F_EOF || s->f[k].kind == F_GROW; if (!cut) CHECK(h == ref, "cfgparse:incomplete", "parsing a file that failed to read gave another configuration");
		bool grow = false; for (int k = 0; k < s->nf; k++) grow |= s->f[k].kind == F_GROW; if (!grow && (ok || torn[d]) && !includes(d)) { int save = Mn, o = cm_root(); size_t tsave = TAn; Ctx top = { fn[d], 0, 0, NULL }; mean(root[d], o, &top); cm_cmp_torn(L, o, 0, "parsing a file cut while it was read", "cfgparse:torn"); Mn = save; TAn = tsave; } }
	if (ft && inc && ok && there) {     /* an included file that could not be read is left out, never half of it */
		bool cut = false; for (int k = 0; k < s->nf; k++) cut |= s->f[k].kind == F_EOF || s->f[k].kind == F_GROW;
		if (!cut) { int save = Mn, o = cm_root(); size_t tsave = TAn; Ctx top = { fn[d], 0, 0, NULL }; bads = 0; mean(root[d], o, &top); if (!bads) { cm_absent = true; cm_cmp(L, o, false, "parsing with included files failing", "cfgparse:incomplete"); cm_absent = false; sim_probe(6); } Mn = save; TAn = tsave; }
	}
	harbol_cfg_free(&L); sim_leak_check("after freeing a parsed configuration", 0);
}
static void damage(int d, const Step *s) {
	uint8_t *t = (uint8_t *)txt[d]; size_t n = tn[d], at = umod(s->a[2], n + 1); if (!t) return;
	bool tear = umod(s->a[1], 7) == 0 && (!dirty[d] || torn[d]); torn[d] = tear ? at + 1 : 0;
	switch (umod(s->a[1], 7)) {
	case 0: n = at; break;                                                             /* torn */
	case 1: if (at < n) t[at] ^= (uint8_t)(1u << umod(s->a[3], 8)); break;
	case 2: if (at < n) t[at] = s->bloblen ? s->blob[0] : 0; break;
	case 3: { t = realloc(t, n + s->bloblen + 1); memmove(t + at + s->bloblen, t + at, n - at); if (s->bloblen) memcpy(t + at, s->blob, s->bloblen); n += s->bloblen; break; }
	case 4: { size_t l = umod(s->a[3], n - at + 1); memmove(t + at, t + at + l, n - at - l); n -= l; break; }   /* a piece lost */
	case 5: { size_t l = umod(s->a[3], n - at + 1); if (l > 4000) l = 4000; t = realloc(t, n + l + 1); memmove(t + at + l, t + at, n - at); n += l; break; } /* a piece written twice */
	case 6: { size_t l = umod(s->a[3], n - at + 1) / 2; uint8_t *x = malloc(l + 1); memcpy(x, t + at, l); memmove(t + at, t + at + l, l); memcpy(t + at + l, x, l); free(x); break; } /* pieces swapped */
	}
	t = realloc(t, n + 1); t[n] = 0; txt[d] = (char *)t; tn[d] = n; dirty[d] = true; if (fn[d] && !gone[d]) { bool un = sim_file(fn[d]) && sim_file(fn[d])->unreadable; sim_file_put(fn[d], t, n)->unreadable = un; }
}
static const int ty[] = { HarbolCfgType_String, HarbolCfgType_Int, HarbolCfgType_Float, HarbolCfgType_Bool, HarbolCfgType_Color, HarbolCfgType_Vec4D, HarbolCfgType_Null, HarbolCfgType_String };
static const int sp[] = { K_IOTA, K_IOTAG, K_MATH, K_FILE };
static void exec(const Plan *p) {
	cm_reset(); cm_absent = false; for (int d = 0; d < ND; d++) { root[d] = cm_root(); dirty[d] = hasinc[d] = false; torn[d] = 0; gone[d] = true; free(txt[d]); txt[d] = NULL; tn[d] = 0; } sim_disk_policy(p->cfg[C_CHUNK], p->cfg[C_BUF]); style = (uint64_t)p->cfg[C_STYLE]; plain = p->cfg[C_STYLE] == 0;
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i); int d = (int)umod(s->a[0], ND);
		switch (s->op) {
		case O_ADD: case O_SECTION: case O_SPECIAL: case O_INCLUDE: {
			int sec = cm_section(root[d], s->a[4]), x; if (Mn > 900 || cm_depth(sec) > 300) break;
			if (s->op == O_INCLUDE) { int e = (int)umod(s->a[1], 4), have = 0; for (int y = 0; y < Mn; y++) have += M[y].type == K_INCLUDE; if (have > 7) break; x = cm_add(sec, fn[e], strlen(fn[e])); if (x < 0) break; M[x].type = K_INCLUDE; M[x].i = s->a[3]; }
			else {
				size_t kl = umod(s->a[2], 60); if (kl > s->bloblen) kl = s->bloblen; if (kl == 0 || memchr(s->blob, 0, kl) || cm_marker(s->blob, kl)) break; uint8_t eb[72]; size_t kl2; const uint8_t *kb = cm_long(s->blob, kl, s->a[6], 5000, &kl2); size_t k0 = kl; kl = kl2; int mark = 0;
				if (s->a[5] % 5 == 1) { mark = 1 + (int)umod(s->a[5] / 5, 3); kl = (size_t)sprintf((char *)eb, "E%d_", Mn); kb = eb; }
				x = cm_add(sec, kb, kl); if (x < 0) break; size_t l2; const uint8_t *vb = cm_long(s->blob + k0, s->bloblen - k0, s->op == O_SPECIAL ? 0 : s->a[7], 70000, &l2); M[x].mark = mark; cm_value(&M[x], s->op == O_SECTION ? HarbolCfgType_Map : s->op == O_SPECIAL ? HarbolCfgType_String : ty[umod(s->a[1], 8)], s->a[3], vb, l2);
				if (s->op == O_SPECIAL) { M[x].type = sp[umod(s->a[1], 4)]; M[x].i = (intmax_t)(mix64((uint64_t)s->a[3]) % 100000000); M[x].b = s->a[3] & 1; if (M[x].sl > 20) M[x].sl = 20; uint8_t z[20]; if (M[x].sl) memcpy(z, M[x].s, M[x].sl); for (size_t k = 0; k < M[x].sl; k++) if (z[k] == 0 || z[k] == '<' || z[k] == '>') z[k] = '.'; M[x].s = cm_keep(z, M[x].sl); }
			}
			if (!dirty[d]) rewrite(d); else torn[d] = 0; ev("add"); break; }
		case O_BAD: {
			int sec = cm_section(root[d], s->a[4]), x, nk = 0, k = (int)umod(s->a[1], NBAD * 2), q = -1; char key[40]; if (Mn > 900) break; k = k < NBAD ? k : 0;
			for (int y = M[sec].first; y >= 0; y = M[y].next) nk += !M[y].mark && M[y].type != K_BAD; if (k == 0) { if (!nk) break; int w = (int)umod(s->a[3], (uint64_t)nk); for (int y = M[sec].first; y >= 0; y = M[y].next) if (!M[y].mark && M[y].type != K_BAD && w-- == 0) q = y; }
			x = cm_add(sec, key, (size_t)sprintf(key, "B%d_", Mn)); if (x < 0) break; M[x].type = K_BAD; M[x].i = k; M[x].sl = (size_t)(q < 0 ? 0 : q); if (!dirty[d]) rewrite(d); else torn[d] = 0; ev("bad"); break; }
		case O_BULK: cm_bulk(NULL, cm_section(root[d], s->a[4]), s->a[1], s->a[3]); if (!dirty[d]) rewrite(d); else torn[d] = 0; break;
		case O_CHAIN: cm_chain(NULL, cm_section(root[d], s->a[4]), s->a[1]); if (!dirty[d]) rewrite(d); else torn[d] = 0; break;
		case O_PARSE: parse(s, d % 4, true); break;
		case O_PARSE_CSTR: if (!dirty[4] && !txt[4]) rewrite(4); parse(s, 4, false); break;
		case O_DAMAGE: damage(d, s); break;
		case O_REWRITE: rewrite(d); break;
		case O_REMOVE: if (d < 4) { sim_file_rm(fn[d]); gone[d] = true; } break;
		case O_PERM: if (d < 4 && !gone[d] && sim_file(fn[d])) sim_file(fn[d])->unreadable ^= true; break;
		case O_DEEP: {
			static const char *const open[] = { "\"a\":{", "\"a\" \"<math ((((((((", "\"m\":\"<math --------", "\"<math [[[[[[", "/*/*", "\"x\":\"<math sin sin sin sin ", "\"1<enum>\":{\"<include>\":\"a.cfg\"", "\"k\":\"<math 1234567890123456789.0123" };
			Wn = 0; int k = (int)umod(s->a[1], 8); size_t reps = (size_t)1 << umod(s->a[2], k == 0 || k == 4 || k == 6 ? 17 : 15); if (k == 6 && reps > 16) reps = 16; ws(""); const char *o = open[k], *rep = k == 1 ? "(" : k == 2 ? "-" : k == 3 ? "[" : k == 5 ? "sin " : k == 7 ? "7" : o; if (rep != o) ws(o); for (size_t q = 0; q < reps; q++) ws(rep); if (s->a[3] & 1) ws(">\" }"); txt[d] = realloc(txt[d], Wn + 1); memcpy(txt[d], W, Wn + 1); tn[d] = Wn; dirty[d] = true; torn[d] = 0; if (fn[d]) { sim_file_put(fn[d], W, Wn); gone[d] = false; } sim_probe(3); break; }
		}
		sim_state(mix64((uint64_t)Mn) ^ mix64(tn[d] + (uint64_t)dirty[d] * 7919));
	}
	for (int d = 0; d < ND; d++) { free(txt[d]); txt[d] = NULL; } free(W); W = NULL; Wn = Wcap = 0; sim_leak_check("at the end", 0);
}
static void gen(Rng *r, Plan *p) {
	p->cfg[C_BUF] = rng_p(r, 1, 4) ? 1 + (int64_t)rng_below(r, 64) : -1; if (rng_p(r, 1, 4)) p->cfg[C_CHUNK] = 1 + (int64_t)rng_below(r, 300); p->cfg[C_STYLE] = rng_p(r, 1, 4) ? 0 : (int64_t)rng_below(r, 1u << 20);
	static const char *const junk[] = { "\"", "'", "{", "}", "[", "]", "<", ">", "<math", "<math 1", "<enum>", "<include>", "\\", "\\x", "\\u12", "/*", "//", "#", ":", ",", "\"\":", "\"\"", "v[", "c[", "v[1", "0x", "0b", "1e", "-", "+", ".", "iota", "IOTA", "nul", "tru", "<file>", "\"<include>\":\"\"", "\"<include>\":\"a.cfg\"", "\"<INCLUDE>\" 'dir/b.cfg'", "\"<enum>\"", "\r", "\t", "\xC3", "\xF0\x9F", "1'", "'1", "0x1.p", "\"k\":\"\"", "\"k<math 1/0>\":1", "\"a\":{\"a\":{" };
	int n = 2 + rng_len(r), nd = 1 + (int)rng_below(r, ND); bool wild = rng_p(r, 1, 2), dmg = rng_p(r, 2, 3), incs = rng_p(r, 1, 2), bad_one = rng_p(r, 1, 4), big = rng_p(r, 1, 20), huge = big && rng_p(r, 1, 4); if (big && n > 30) n = 30;
	for (int i = 0; i < n; i++) {
		int k = (int)rng_below(r, 32), op = k < 9 ? O_ADD : k < 12 ? O_SECTION : k < 15 ? O_SPECIAL : k < 17 ? (incs ? O_INCLUDE : O_ADD) : k < 22 ? O_PARSE : k < 25 ? O_PARSE_CSTR : k < 29 ? (dmg ? O_DAMAGE : O_ADD) : k == 29 ? (bad_one ? O_BAD : O_REWRITE) : k == 30 ? (incs ? (rng_p(r, 1, 2) ? O_REMOVE : O_PERM) : O_REWRITE) : (rng_p(r, 1, 4) ? O_DEEP : O_ADD); if (big && rng_p(r, 1, 8)) op = rng_p(r, 1, 2) ? O_BULK : O_CHAIN;
		uint8_t b[300]; size_t kl = 0, l = 0; if (op <= O_SPECIAL) { step_key(r, b, &kl, wild); l = kl; if (op != O_SECTION) l += rng_text(r, b + kl, 120); } else if (op == O_DAMAGE) { if (rng_p(r, 3, 4)) { const char *j = junk[rng_below(r, 50)]; memcpy(b, j, l = strlen(j)); } else l = rng_text(r, b, 60); }
		int64_t d = (int64_t)rng_below(r, (uint64_t)nd); if (op == O_PARSE_CSTR || (nd == 1 && rng_p(r, 1, 2))) d = rng_p(r, 1, 2) ? 4 : d;
		int64_t ke = big && op <= O_SPECIAL && rng_p(r, 1, 5) ? rng_big(r, 12) : 0, ve = big && op == O_ADD && rng_p(r, 1, 3) ? rng_big(r, huge ? 13 : 11) : 0; Step *s = plan_add(p, op, 8, d, op >= O_BULK ? rng_big(r, huge ? 8 : 6) : (int64_t)rng_below(r, 64), op <= O_SPECIAL ? (int64_t)kl : (int64_t)rng_below(r, 5000), (int64_t)rng_below(r, 4096), (int64_t)rng_below(r, 30), (int64_t)rng_below(r, 60), ke, ve); if (l) step_blob(s, b, l);
		if (op == O_DAMAGE && rng_p(r, 1, 2)) { s->a[1] = 0; plan_add(p, d % ND == 4 ? O_PARSE_CSTR : O_PARSE, 6, d, (int64_t)0, (int64_t)0, (int64_t)0, (int64_t)0, (int64_t)0); }
	}
	for (int d = 0; d < nd; d++) plan_add(p, d == 4 ? O_PARSE_CSTR : O_PARSE, 6, (int64_t)d, (int64_t)0, (int64_t)0, (int64_t)0, (int64_t)0, (int64_t)0);
}
const Scenario sc_cfgparse = { "cfgparse", ops, cfgs, gen, exec, ALLOCF | FM(F_OPEN) | FM(F_READ) | FM(F_EOF) | FM(F_GROW) | FM(F_SEEK), 6, 300000000 };
