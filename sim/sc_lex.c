/* C18: skipping, lexing and UTF-8 coding of text cut or corrupted anywhere, with memory failures.
 * Every text lives in a block of exactly its size, so a read past the terminator is seen. Each call is made twice:
 * without faults (checked against a reference where the text is undamaged) and with the step's faults, which must
 * either fail or give exactly what the first call gave. */
#include "sim.h"
#include <ctype.h>
#include "lex/lex.h"
enum { O_SKIP_WS, O_SKIP_NL, O_SKIP_STR, O_SKIP_LINE, O_SKIP_MULTI, O_CLEAR_LINE, O_CLEAR_MULTI, O_SKIP_MQ, O_LEX_LINE, O_LEX_MULTI, O_LEX_MQ,
	O_DECODE, O_ITER, O_WRITE, O_ESC, O_NUM, O_STR, O_UNTIL, O_IDENT, O_CLEARBUF, O_CONVERT, NOPS };
static const char *const ops[] = { "skip_space", "skip_until_newline", "skip_string", "skip_line_comment", "skip_block_comment", "clear_line_comment", "clear_block_comment", "skip_multiquote",
	"lex_line_comment", "lex_block_comment", "lex_multiquote", "decode", "iterate", "encode", "escape", "number", "string", "until", "identifier", "clear_buffer", "convert", NULL };
enum { C_ALLOC, C_BIG };
static const char *const cfgs[] = { "alloc", "big", NULL };
static char *T; static size_t TN;
static struct HarbolString B;                 /* collects tokens across calls */

static bool not_semi(int32_t c) { return c != ';'; }
static bool letters(int32_t c) { return is_alphabetic(c) || c > 0x7F; }
static size_t ref_utf8(const uint8_t *d, size_t n, int32_t *o) {
	size_t k = 0;
	for (size_t i = 0; i < n;) {
		uint8_t c = d[i]; size_t l = c < 0x80 ? 1 : c >> 5 == 6 ? 2 : c >> 4 == 14 ? 3 : c >> 3 == 30 ? 4 : 0; if (!l || i + l > n || !c) return SIZE_MAX;
		int32_t v = l == 1 ? c : c & (0x7F >> l); for (size_t j = 1; j < l; j++) { if ((d[i + j] & 0xC0) != 0x80) return SIZE_MAX; v = v << 6 | (d[i + j] & 0x3F); }
		if (v >= 0x110000 || (l == 2 && v < 0x80) || (l == 3 && v < 0x800) || (l == 4 && v < 0x10000)) return SIZE_MAX;
		o[k++] = v; i += l;
	}
	return k;
}
typedef struct { long ret; const char *end; uint8_t buf[80000]; size_t n; uint64_t extra; } Out;
static Out O1, O2;
static void grab(Out *o, const struct HarbolString *b, size_t from) { size_t n = b->len > from ? b->len - from : 0; if (n > sizeof o->buf) n = sizeof o->buf; o->n = n; if (n) memcpy(o->buf, b->cstr + from, n); CHECK(!b->cstr || b->cstr[b->len] == 0, "lex:buffer", "token buffer is not terminated"); }
static void inside(const char *w, const char *e) { CHECK(e >= T && e <= T + TN, "lex:stop", "%s: stopping point is %s the text", w, e ? "outside" : "not set for"); }
/* one lexing call on buffer b; false return value = failure for those that report it */
static void call(const Step *s, struct HarbolString *b, Out *o) {
	const char *end = NULL; uint32_t lines = 0; size_t line = 0; bool fl = false; int v = (int)umod(s->a[0], 12);
	static const char *const mq[] = { "\"\"\"", "'''", "`", "\"" }; const char *q = mq[umod(s->a[1], 4)]; static const char *const ct[] = { "*/", "-->", "*" }; const char *et = ct[umod(s->a[1], 3)];
	switch (s->op) {
	case O_LEX_LINE: o->ret = lex_single_line_comment(T, &end, b, &lines); break;
	case O_LEX_MULTI: o->ret = lex_multi_line_comment(T, &end, et, strlen(et), b, &lines); break;
	case O_LEX_MQ: o->ret = lex_multiquote_string(T, &end, q, strlen(q), b, &line); break;
	case O_NUM: switch (v) {
		case 0: case 1: case 2: o->ret = lex_c_style_number(T, &end, b, &fl); break; case 3: case 4: case 5: o->ret = lex_go_style_number(T, &end, b, &fl); break;
		case 6: o->ret = lex_c_style_hex(T, &end, b, &fl); break; case 7: o->ret = lex_go_style_hex(T, &end, b, &fl); break;
		case 8: o->ret = lex_c_style_octal(T, &end, b, &fl); break; case 9: o->ret = lex_go_style_octal(T, &end, b); break;
		case 10: o->ret = lex_c_style_binary(T, &end, b); break; default: o->ret = s->a[1] & 1 ? lex_go_style_binary(T, &end, b) : s->a[1] & 2 ? lex_c_style_decimal(T, &end, b, &fl) : lex_go_style_decimal(T, &end, b, &fl); break; } break;
	case O_STR: o->ret = v & 1 ? lex_c_style_str(T, &end, b) : lex_go_style_str(T, &end, b); break;
	case O_UNTIL: o->ret = v % 3 == 0 ? lex_until(T, &end, b, ';') : v % 3 == 1 ? lex_until_false(T, &end, b, not_semi) : lex_until_false_utf8(T, &end, b, s->a[1] & 1 ? not_semi : letters); break;
	case O_IDENT: o->ret = lex_c_style_identifier(T, &end, b); break;
	}
	o->end = end; o->extra = lines * 7919u + line * 31 + fl;
}
/* reference for undamaged text: expected token, stopping point; false when outside its domain */
static bool reference(const Step *s, Out *r) {
	size_t i = 0, k = 0; int v = (int)umod(s->a[0], 12); uint64_t lines = 0; r->ret = 1; r->extra = 0;
	static const char *const mq[] = { "\"\"\"", "'''", "`", "\"" }; const char *q = mq[umod(s->a[1], 4)]; static const char *const ct[] = { "*/", "-->", "*" }; const char *et = ct[umod(s->a[1], 3)];
	switch (s->op) {
	case O_LEX_LINE: while (i < TN && T[i] != '\n') { if (T[i] == '\\') { while (i < TN && T[i] != '\n') r->buf[k++] = (uint8_t)T[i++]; if (i == TN) return false; lines++; } r->buf[k++] = (uint8_t)T[i++]; } r->extra = lines * 7919u; if (!k) return false; break;
	case O_LEX_MULTI: { if (!TN) return false; r->buf[k++] = (uint8_t)T[i++]; while (i < TN && strncmp(T + i, et, strlen(et))) { if (T[i] == '\n') lines++; r->buf[k++] = (uint8_t)T[i++]; } if (i == TN) return false; memcpy(r->buf + k, et, strlen(et)); k += strlen(et); i += strlen(et); r->extra = lines * 7919u; break; }
	case O_LEX_MQ: { size_t ql = strlen(q); if (strncmp(T, q, ql)) return false; i = ql; while (i < TN && strncmp(T + i, q, ql)) { if (T[i] == '\n') lines++; r->buf[k++] = (uint8_t)T[i++]; } if (i == TN) return false; i += ql; r->extra = lines * 31; break; }
	case O_STR: { if (!TN || (T[0] != '"' && T[0] != '\'' && T[0] != '`')) return false; char qu = T[0]; bool raw = qu == '`' && !(v & 1); r->ret = HarbolLexNoErr;
		for (i = 1; i < TN && T[i] != qu; i++) { if (T[i] != '\\') { r->buf[k++] = (uint8_t)T[i]; continue; } i++; if (i >= TN) return false; if (raw) { r->buf[k++] = '\\'; r->buf[k++] = (uint8_t)T[i]; continue; }
			static const char e[] = "arbtvnNf", x[] = "\a\r\b\t\v\n\n\f"; const char *p = strchr(e, T[i]); if (p) r->buf[k++] = (uint8_t)x[p - e]; else if (T[i] == 'e') r->buf[k++] = 27; else if (strchr("xXuU0123456789", T[i])) return false; else r->buf[k++] = (uint8_t)T[i]; }
		if (i >= TN) return false; i++; break; }
	case O_UNTIL: if (v % 3 == 2) return false; while (i < TN && T[i] != ';') r->buf[k++] = (uint8_t)T[i++]; if (!k) return false; break;
	case O_IDENT: if (!TN || !(isascii(T[0]) && (isalpha(T[0]) || T[0] == '_'))) return false; while (i < TN && isascii(T[i]) && (isalnum(T[i]) || T[i] == '_')) r->buf[k++] = (uint8_t)T[i++]; if (i < TN && !isascii(T[i])) return false; break;
	case O_NUM: { bool c = v <= 2 || (v == 11 && !(s->a[1] & 1) && (s->a[1] & 2)), go = (v >= 3 && v <= 5) || (v == 11 && !(s->a[1] & 3)); if ((!c && !go) || !TN || T[0] < '1' || T[0] > '9') return false;   /* a plain decimal integer that something else follows */
		while (i < TN && T[i] >= '0' && T[i] <= '9') i++; if (c) { if (i < TN && (T[i] | 32) == 'u') i++; for (int q = 0; q < 2 && i < TN && (T[i] | 32) == 'l'; q++) i++; } if (i < TN && !strchr("+-;, \n*/)", T[i])) return false; memcpy(r->buf, T, k = i); r->ret = HarbolLexNoErr; break; }
	default: return false;
	}
	r->end = T + i; r->n = k; return true;
}
static void value_of(const Step *s, struct HarbolString *R);
static void lexing(const Step *s) {
	struct HarbolString R = { 0 }; static Out rf; size_t pre = B.len; static uint8_t keep[200000]; if (pre > sizeof keep - 1 || (pre && memchr(B.cstr, 0, pre))) { harbol_string_clear(&B); pre = 0; }
	if (pre) { memcpy(keep, B.cstr, pre); CHECK(harbol_string_copy_cstr(&R, B.cstr), "lex:copy", "copying the buffer failed"); }
	size_t rp = R.len; call(s, &R, &O1); inside(ops[s->op], O1.end); grab(&O1, &R, rp); if (s->op == O_NUM && O1.ret == HarbolLexNoErr && !rp) value_of(s, &R); harbol_string_clear(&R);
	bool isnum = s->op == O_NUM || s->op == O_STR;
	if (isnum) CHECK(O1.ret != HarbolLexOutOfMemory, "lex:error", "%s reported running out of memory although it did not", ops[s->op]);
	if (reference(s, &rf)) { sim_probe(0); bool same = rf.ret == O1.ret && rf.end == O1.end && rf.n == O1.n && !memcmp(rf.buf, O1.buf, rf.n) && rf.extra == O1.extra; CHECK(same, "lex:reference", "%s of undamaged text: returned %ld, %zu bytes, stopped at %td; expected %ld, %zu bytes, %td%s", ops[s->op], O1.ret, O1.n, O1.end - T, rf.ret, rf.n, rf.end - T, rf.extra != O1.extra ? " and other line count" : ""); }
	if (s->op == O_NUM && O1.ret == HarbolLexNoErr) CHECK(O1.n == (size_t)(O1.end - T) && !memcmp(O1.buf, T, O1.n), "lex:number", "token of %zu bytes although %td were consumed", O1.n, O1.end - T);
	sim_arm(s); call(s, &B, &O2); int f = sim_disarm(); inside(ops[s->op], O2.end); grab(&O2, &B, pre);
	CHECK(pre == 0 || (B.len >= pre && !memcmp(B.cstr, keep, pre)), "lex:prefix", "%s changed what was collected before", ops[s->op]);
	bool same = O1.ret == O2.ret && O1.end == O2.end && O1.n == O2.n && !memcmp(O1.buf, O2.buf, O1.n) && O1.extra == O2.extra;
	bool fail = isnum ? O2.ret != HarbolLexNoErr : !O2.ret;
	if (f) { sim_probe(1); CHECK(same || fail, "lex:shortened", "%s reported success with %zu of %zu bytes after running out of memory", ops[s->op], O2.n, O1.n); if (isnum && fail) CHECK(lex_get_err((enum HarbolLexErrType)O2.ret) != NULL, "lex:error", "no text for error %ld", O2.ret); }
	else if (pre == rp) CHECK(same, "lex:repeat", "%s gave another result when repeated", ops[s->op]);
	ev("lex %ld %td %zu", O2.ret, O2.end - T, O2.n);
}
static void skipping(const Step *s) {
	uint32_t lines = 3, want = 3; const char *e = NULL; size_t i = 0; static const char *const mq[] = { "\"\"\"", "'''", "`", "\"" }; const char *q = mq[umod(s->a[1], 4)]; static const char *const ct[] = { "*/", "-->", "*" }; const char *et = ct[umod(s->a[1], 3)];
	char esc = s->a[0] & 1 ? '\\' : '~'; bool exact = true;
	switch (s->op) {
	case O_SKIP_WS: e = skip_chars(T, s->a[0] & 1 ? not_semi : is_whitespace, &lines); while (i < TN && (s->a[0] & 1 ? T[i] != ';' : T[i] == ' ' || (T[i] >= 9 && T[i] <= 13))) { if (T[i] == '\n') want++; i++; } break;
	case O_SKIP_NL: e = skip_chars_until_newline(T, not_semi); while (i < TN && T[i] != ';' && T[i] != '\n') i++; break;
	case O_SKIP_STR: e = skip_string_literal(T, esc); if (TN) { i = 1; while (i < TN && T[i] != T[0]) i += T[i] == esc ? 2 : 1; if (i > TN) i = TN; } break;
	case O_SKIP_LINE: e = skip_single_line_comment(T, &lines); while (i < TN && T[i] != '\n') { if (T[i] == '\\') { while (i < TN && T[i] != '\n') i++; if (i < TN) want++; } if (i < TN) i++; } break;
	case O_SKIP_MULTI: e = skip_multi_line_comment(T, et, strlen(et), &lines); if (TN) { i = 1; while (i < TN && strncmp(T + i, et, strlen(et))) { if (T[i] == '\n') want++; i++; } if (i < TN) i += strlen(et); } break;
	case O_SKIP_MQ: e = skip_multiquote_string(T, q, strlen(q), esc); while (i < TN && strncmp(T + i, q, strlen(q))) i += T[i] == esc ? 2 : 1; if (i > TN) i = TN; else if (i < TN) i += strlen(q); break;
	case O_CLEAR_LINE: case O_CLEAR_MULTI: {
		char *w = malloc(TN + 1), *o = malloc(TN + 1); memcpy(w, T, TN + 1); memcpy(o, T, TN + 1); char *r = s->op == O_CLEAR_LINE ? clear_single_line_comment(w) : clear_multi_line_comment(w, et, strlen(et));
		CHECK(r >= w && r <= w + TN, "lex:stop", "%s: stopping point is outside the text", ops[s->op]); i = (size_t)(r - w);
		for (size_t k = 0; k <= TN; k++) CHECK(w[k] == (k < i && (o[k] != '\n' || (!k && s->op == O_CLEAR_MULTI)) ? ' ' : o[k]), "lex:clear", "%s: byte %zu of the text is %d after clearing up to %zu", ops[s->op], k, w[k], i);
		free(w); free(o); ev("clear %zu", i); return; }
	}
	inside(ops[s->op], e); ev("%s %td %u", ops[s->op], e - T, lines);
	if (exact) CHECK(e == T + i && lines == want, "lex:skip", "%s stopped at %td after %u lines, expected %zu after %u", ops[s->op], e - T, lines - 3, i, want - 3);
}
static void decoding(const Step *s) {
	static int32_t rr[80000]; size_t k = ref_utf8((const uint8_t *)T, TN, rr), n = 77; struct HarbolString H = { 0 }; if (TN && (s->a[0] & 1)) CHECK(harbol_string_copy_cstr(&H, T), "lex:copy", "copying the text failed");
	size_t live = sim_live();
	sim_arm(s); int32_t *r = s->a[0] & 1 && H.cstr ? utf8_str_to_rune(&H, &n) : utf8_cstr_to_rune(T, TN, &n); int f = sim_disarm(); ev("decode %d %zu", r != NULL, n);
	CHECK(r || f, "lex:decode", "decoding failed without a fault");
	if (r) {
		size_t cap; CHECK(sim_is_live(r, &cap) && (n + 1) * sizeof *r <= cap, "lex:decode", "%zu code points reported in a block of %zu bytes", n, cap); CHECK(r[n] == 0, "lex:decode", "code points are not terminated"); for (size_t j = 0; j < n; j++) CHECK(r[j] != 0, "lex:decode", "%zu code points reported, number %zu is none", n, j);
		if (k != SIZE_MAX) {
			sim_probe(0); CHECK(n == k && !memcmp(r, rr, k * sizeof *r), "lex:decode", "%zu code points decoded, expected %zu", n, k); CHECK(get_str_rune_len(T) == k, "lex:decode", "rune count");
			size_t z = 77; sim_arm(s); bool second = s->a[1] & 1; struct HarbolString o = { 0 }; char *c = NULL; if (second) o = rune_to_utf8_str(r); else c = rune_to_utf8_cstr(r, &z); f = sim_disarm();
			if (second) { c = o.cstr; z = o.len; }
			ev("encode %d %zu", c != NULL, z);
			if (c) CHECK(z == TN && !memcmp(c, T, TN + 1), "lex:shortened", "re-encoding %zu bytes of text reported success with %zu bytes%s", TN, z, f ? " after running out of memory" : ""); else { CHECK(f || k == 0, "lex:encode", "encoding failed without a fault"); CHECK(z == 0, "lex:encode", "failed encoding reports %zu bytes", z); }
			sim_free(c);
		}
		sim_free(r);
	} else CHECK(n == 0, "lex:decode", "failed decoding reports %zu code points", n);
	sim_leak_check("after decoding", live); harbol_string_clear(&H);
}
static void iterating(const Step *s) {
	static int32_t rr[80000]; size_t k = ref_utf8((const uint8_t *)T, TN, rr), at = 0, cnt = 0;
	for (size_t guard = 0; guard <= TN; guard++) {
		size_t was = at; int32_t c = utf8_to_rune_iter(T, TN, &at); CHECK(at <= TN && at >= was, "lex:iterate", "position %zu after reading at %zu of %zu bytes", at, was, TN);
		int32_t one = 99, other; size_t nb = was < TN ? read_utf8(T + was, TN - was, &one) : 0; CHECK(nb <= TN - was, "lex:read", "%zu bytes read with %zu left", nb, TN - was); if (was < TN) { other = read_utf8_rune(T + was, TN - was); CHECK(nb == 0 || other == one, "lex:read", "two ways of reading a code point disagree"); }
		if (at == was) { CHECK(k == SIZE_MAX || cnt == k, "lex:iterate", "stopped after %zu of %zu code points", cnt, k); CHECK(c == -1, "lex:iterate", "code point %d without progress", c); break; }
		if (k != SIZE_MAX) CHECK(cnt < k && c == rr[cnt], "lex:iterate", "code point %zu is %d, expected %d", cnt, c, cnt < k ? rr[cnt] : -1);
		cnt++;
	}
	CHECK(get_str_rune_len(T) <= TN, "lex:count", "more code points than bytes"); ev("iter %zu", cnt);
	(void)s;
}
static void encoding(const Step *s) {
	static const int32_t edge[] = { 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, INT32_MAX }; int32_t c = s->a[0] & 1 ? edge[umod(s->a[1], 10)] : (int32_t)(1 + umod(s->a[1] * 7919, 0x10FFFF));
	size_t want = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x110000 ? 4 : 0, lim = umod(s->a[2], 6); if (lim == 0) lim = 1; char *o = malloc(lim); memset(o, 0x11, lim);
	CHECK(rune_byte_len(c) == want, "lex:encode", "length of %x", (unsigned)c); size_t n = write_utf8_cstr(o, lim, c); ev("write %zu", n); CHECK(n == (lim >= want ? want : 0), "lex:encode", "%zu bytes written for %x into %zu", n, (unsigned)c, lim);
	if (n) { int32_t back = 0; CHECK(read_utf8(o, n, &back) == n && back == c, "lex:encode", "%x reads back as %x", (unsigned)c, (unsigned)back); if (n > 1) CHECK(read_utf8(o, n - 1, &back) == 0, "lex:encode", "cut sequence of %x accepted", (unsigned)c); }
	free(o);
	size_t was = B.len; static char old[200000]; if (was >= sizeof old) { harbol_string_clear(&B); was = 0; } if (was) memcpy(old, B.cstr, was);
	sim_arm(s); bool r = write_utf8_str(&B, c); int f = sim_disarm(); ev("append %d", r);
	CHECK(r || f || !want, "lex:encode", "appending %x failed without a fault"); CHECK(!(r && !want), "lex:encode", "%x is not a code point", (unsigned)c);
	CHECK(B.len == was + (r ? want : 0), "lex:shortened", "appending %x %s but the string grew by %zu bytes", (unsigned)c, r ? "succeeded" : "failed", B.len - was);
	CHECK(!was || !memcmp(B.cstr, old, was), "lex:prefix", "appending a code point changed the string"); if (r) { int32_t back; CHECK(read_utf8(B.cstr + was, want, &back) == want && back == c, "lex:encode", "appended %x reads back as %x", (unsigned)c, (unsigned)back); }
}
static void escapes(const Step *s) {
	const char *e = NULL; int32_t r; size_t i = 0; uint32_t v = 0; int k = (int)umod(s->a[0], 4);
	switch (k) {
	case 0: r = lex_hex_escape_char(T, &e); inside("hex escape", e); while (i < TN && isxdigit((uint8_t)T[i]) && i < 7) v = v << 4 | (uint32_t)strtol((char[2]){ T[i], 0 }, NULL, 16), i++; if (i < 7) CHECK(e == T + i && r == (i ? (int32_t)v : -1), "lex:escape", "hex escape gives %d and stops at %td", r, e - T); break;
	case 1: r = lex_octal_escape_char(T, &e); inside("octal escape", e); while (i < TN && T[i] >= '0' && T[i] <= '7') v = v << 3 | (uint32_t)(T[i] - '0'), i++; if (i < 4) CHECK(e == T + i && r == (i ? (int32_t)v : -1), "lex:escape", "octal escape gives %d and stops at %td", r, e - T); break;
	default: { size_t enc = k == 2 ? 2 : 4; r = lex_unicode_char(T, &e, enc); inside("unicode escape", e); while (i < TN && i < enc * 2 && isxdigit((uint8_t)T[i])) v = v << 4 | (uint32_t)strtol((char[2]){ T[i], 0 }, NULL, 16), i++; CHECK(e == T + i, "lex:escape", "unicode escape stops at %td, expected %zu", e - T, i); if (i == enc * 2 && is_valid_unicode((int32_t)v)) CHECK(r == (int32_t)v, "lex:escape", "unicode escape gives %x, expected %x", (unsigned)r, v); break; }
	}
	ev("escape %d %td", r, e - T);
}
/* text of one kind or another read as a number: the whole of it, in its base, or refused */
static void converting(const Step *s) {
	static const char *const nums[] = { "01", "01234567", "0123456789", "0123456789abcdef", "zyxwvut" }; const char *nm = nums[umod(s->a[0], 5)]; unsigned base = (unsigned)strlen(nm); static int32_t rn[20], rt[70010]; size_t i; for (i = 0; nm[i]; i++) rn[i] = nm[i]; rn[i] = 0; if (TN > 70000) return; int32_t *x = malloc((TN + 1) * sizeof *x); for (i = 0; i <= TN; i++) x[i] = (uint8_t)T[i] < 128 ? T[i] : 0xE000 + (uint8_t)T[i]; (void)rt;
	uint64_t u = 0, v = 0; bool okv = true, oku = true, neg = false; for (i = 0; i < TN && okv; i++) { if (T[i] == '-') { neg = true; continue; } const char *q = strchr(nm, T[i]); if (!q) okv = false; else v = v * base + (uint64_t)(q - nm); } for (i = 0; i < TN && oku; i++) { const char *q = strchr(nm, T[i]); if (!q) oku = false; else u = u * base + (uint64_t)(q - nm); }
	bool fits = TN < 12, r0 = !okv, r1 = !okv, r2 = !oku, r3 = !oku; if (!fits) { free(x); return; }
	intmax_t a = convert_cstr_to_base_int(T, (uint_fast8_t)base, nm, &r0), b = convert_runes_to_base_int(x, (uint_fast8_t)base, rn, &r1); uintmax_t c = convert_cstr_to_base_uint(T, (uint_fast8_t)base, nm, &r2), d = convert_runes_to_base_uint(x, (uint_fast8_t)base, rn, &r3); free(x);
	ev("convert %d %d", r0, r2); CHECK(r0 == okv && r1 == okv && r2 == oku && r3 == oku, "lex:convert", "\"%s\" in base %u: signed %d/%d unsigned %d/%d, expected %d and %d", T, base, r0, r1, r2, r3, okv, oku);
	if (okv) CHECK(a == (neg ? -(intmax_t)v : (intmax_t)v) && b == a, "lex:convert", "\"%s\" in base %u gives %jd and %jd", T, base, a, b); if (oku) CHECK(c == u && d == u, "lex:convert", "\"%s\" in base %u gives %ju and %ju", T, base, c, d);
}
/* a lexed number's value, once the token is complete */
static void value_of(const Step *s, struct HarbolString *R) {
	char *e = NULL, z[64]; size_t k = 0, i; int v = (int)umod(s->a[0], 12); bool go = v >= 3 && v <= 5; if (!R->cstr || (v > 5 && v != 6 && v != 8 && v != 10) || R->len > 15) return; if (memchr(R->cstr, '\'', R->len) || memchr(R->cstr, '_', R->len)) return; memcpy(z, R->cstr, R->len + 1); (void)k;
	unsigned base = 10; i = 0; if (z[0] == '0' && z[1]) { if ((z[1] | 32) == 'x') base = 16, i = 2; else if ((z[1] | 32) == 'b') base = 2, i = 2; else if ((z[1] | 32) == 'o') base = 8, i = 2; else if (z[1] >= '0' && z[1] <= '9') base = 8, i = 1; } uint64_t w = 0; size_t dg = 0; for (; z[i]; i++, dg++) { int q = z[i] >= '0' && z[i] <= '9' ? z[i] - '0' : (z[i] | 32) >= 'a' && (z[i] | 32) <= 'f' ? (z[i] | 32) - 'a' + 10 : 99; if (q >= (int)base) break; w = w * base + (uint64_t)q; } if (!dg || (z[i] && !strchr("uUlL", z[i]))) return;
	intmax_t a = go ? lex_go_string_to_int(R, &e) : lex_c_string_to_int(R, &e); CHECK(e >= R->cstr && e <= R->cstr + R->len, "lex:value", "conversion stopped outside the token"); uintmax_t b = go ? lex_go_string_to_uint(R, &e) : lex_c_string_to_uint(R, &e); CHECK((uint64_t)a == w && b == w, "lex:value", "token \"%s\" converts to %jd and %ju, expected %" PRIu64, z, a, b, w); sim_probe(2);
}
static void exec(const Plan *p) {
	memset(&B, 0, sizeof B);
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i);
		TN = s->bloblen; for (size_t k = 0; k < TN; k++) if (!s->blob[k]) { TN = k; break; } if (TN > 4000) TN = 4000;
		size_t tn0 = TN, rep0 = tn0, rep1 = tn0; if (p->cfg[C_BIG] && tn0) { /* a stretch of the text repeated many times */ rep0 = umod(s->a[1], tn0); rep1 = rep0 + 1 + umod(s->a[2], tn0 - rep0); static const size_t ln[] = { 255, 256, 257, 300, 1000, 1023, 1024, 4096, 65535, 65536, 70000 }; bool grows = s->op >= O_LEX_LINE && s->op != O_DECODE && s->op != O_ITER; /* token buffers grow byte by byte */ size_t want = ln[umod(s->a[0] + s->a[2], grows ? 7 + s->a[2] % 8 / 7 : s->a[2] % 4 ? 8 : 11)]; if (want > tn0) TN = want; }
		size_t grow = TN - tn0;
		T = malloc(TN + 1); for (size_t k = 0; k < rep0; k++) T[k] = (char)s->blob[k]; for (size_t k = rep0; k < rep0 + grow; k++) T[k] = (char)s->blob[rep0 + (k - rep0) % (rep1 - rep0)]; for (size_t k = rep0; k < tn0; k++) T[grow + k] = (char)s->blob[k]; T[TN] = 0; uint64_t h = mix64(TN); for (size_t k = 0; k < TN; k++) h = mix64(h ^ (uint8_t)T[k]);
		switch (s->op) {
		case O_SKIP_WS: case O_SKIP_NL: case O_SKIP_STR: case O_SKIP_LINE: case O_SKIP_MULTI: case O_CLEAR_LINE: case O_CLEAR_MULTI: case O_SKIP_MQ: skipping(s); break;
		case O_DECODE: decoding(s); break; case O_ITER: iterating(s); break; case O_WRITE: encoding(s); break; case O_ESC: escapes(s); break; case O_CONVERT: converting(s); break;
		case O_CLEARBUF: harbol_string_clear(&B); sim_leak_check("after clearing the token buffer", 0); break;
		default: lexing(s); break;
		}
		sim_state(h ^ (uint64_t)s->op << 50); free(T); T = NULL;
		sim_leak_check(ops[s->op], B.cstr ? 1 : 0);
	}
	harbol_string_clear(&B); sim_leak_check("at the end", 0);
}
#define NX 40
static const char *const frag[] = { "0x1p1p2", "0x1'p3", "0x1p'3", "0x1p+", "0x1p+3-", "1uu", "1lll", "1lulu", "0x1.8ff", "0x1.8fp1f", "0x1.8p2fl", "0x1Lu.5p", "0b12", "0b1''0", "0b1uu", "0b1lul", "0b1lll", "1.5ff", "1'.5", "1.5u", "1e5lul", "017lll", "017uu", "017lul", "0''7", "0x1''2", "0x1uu", "0x1lll", "0x1lul", "1e5.5", "1.5.2", "1ee5", "0o1__7", "0b1__1", "0x1__f", "1__0", "1.5e", "0x1u.8", "0x1.8lll", "1fl",
	"0x1F", "0X", "0x1.8p3", "0b101", "0o17", "017", "1'000", "1_000", "3.14", "1e", "1e+5", "1.5f", "10ull", "12lul", "0x", "0", "0b", ".5", "1e-3f", "12u", "0'7", "1'+2", "0x1'f", "0x.8p1", "7.'1", "12u+3", "9ll-2", "45+6", "7ul,",
	"\"abc\"", "'q'", "`raw\\n`", "\"\\x41\\u00e9\"", "\"\\", "\"\\x1100FFz\"", "\"\\4300000\"", "\"\\8\"", "\"\\uD800\"", "\"\\UFFFFFFFE\"", "\"\\n\\101\\t\\e\\N\"", "\"\"\"doc\nline\"\"\"", "'''x''", "// note \\\n more\nend", "// cut \\", "/* a\nb */", "/* open", "<!-- x -->", "\\", "~", "name_1", "caf\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xF0\x9F", "\xC3", "\xFF\xFE", "\x80\xBF", "\xF8\x88", ";", "\n", "\r\n", " \t", "zz", "4142", "00e9", "D800", "101", "7777", "deadbeef0" };
static void gen(Rng *r, Plan *p) {
	unsigned w[NOPS]; rng_weights(r, w, NOPS); w[O_NUM] += 2; w[O_STR] += 2; w[O_DECODE]++; w[O_LEX_MQ]++; w[O_CLEARBUF] = 2;
	int n = 2 + rng_len(r) / 2; p->cfg[C_BIG] = rng_p(r, 1, 25); if (p->cfg[C_BIG]) n = n % 10 + 1;
	for (int i = 0; i < n; i++) {
		Step *s = plan_add(p, rng_op(r, w, NOPS), 3, (int64_t)rng_below(r, 240), (int64_t)rng_below(r, 4096), (int64_t)rng_below(r, 4096)); uint8_t b[700]; size_t k = 0;
		static const int lo[] = { [O_NUM] = 0, [O_STR] = 29 + NX, [O_LEX_MQ] = 40 + NX, [O_SKIP_MQ] = 40 + NX, [O_SKIP_STR] = 29 + NX, [O_LEX_LINE] = 42 + NX, [O_SKIP_LINE] = 42 + NX, [O_CLEAR_LINE] = 42 + NX, [O_LEX_MULTI] = 44 + NX, [O_SKIP_MULTI] = 44 + NX, [O_CLEAR_MULTI] = 44 + NX, [O_IDENT] = 49 + NX, [O_DECODE] = 49 + NX, [O_ITER] = 49 + NX, [O_ESC] = 62 + NX, [NOPS] = 0 };
		static const int hi[] = { [O_NUM] = 29 + NX, [O_STR] = 40 + NX, [O_LEX_MQ] = 42 + NX, [O_SKIP_MQ] = 42 + NX, [O_SKIP_STR] = 42 + NX, [O_LEX_LINE] = 44 + NX, [O_SKIP_LINE] = 44 + NX, [O_CLEAR_LINE] = 44 + NX, [O_LEX_MULTI] = 47 + NX, [O_SKIP_MULTI] = 47 + NX, [O_CLEAR_MULTI] = 47 + NX, [O_IDENT] = 51 + NX, [O_DECODE] = 54 + NX, [O_ITER] = 58 + NX, [O_ESC] = 69 + NX, [NOPS] = 0 };
		int nf = (int)(sizeof frag / sizeof *frag), parts = 1 + (int)rng_below(r, rng_p(r, 1, 8) ? 14 : 4); if (s->op == O_CLEARBUF) parts = 0; if (s->op == O_CONVERT && rng_p(r, 5, 6)) { parts = 0; static const char *const al[] = { "01", "01234567", "0123456789", "0123456789abcdef", "zyxwvut" }; const char *q = al[umod(s->a[0], 5)]; if (rng_p(r, 1, 3)) b[k++] = '-'; for (int z = (int)rng_below(r, 12); z-- > 0;) b[k++] = (uint8_t)(rng_p(r, 1, 25) ? "-+z9 "[rng_below(r, 5)] : q[rng_below(r, strlen(q))]); }
		for (int j = 0; j < parts && k < 600; j++) {
			const char *f = frag[rng_below(r, (uint64_t)nf)]; if ((j == 0 || rng_p(r, 1, 2)) && hi[s->op]) f = frag[lo[s->op] + (int)rng_below(r, (uint64_t)(hi[s->op] - lo[s->op]))];
			size_t l = strlen(f); memcpy(b + k, f, l); k += l;
			if (rng_p(r, 1, 6)) { for (int z = (int)rng_below(r, 20); z-- && k < 650;) b[k++] = (uint8_t)(s->op == O_NUM || s->op == O_ESC ? "0123456789abcdefXpPeEuUlL.'_+-"[rng_below(r, 31)] : 32 + rng_below(r, 95)); }
		}
		if (s->op == O_DECODE && rng_p(r, 1, 2)) { k = 0; size_t lim = rng_below(r, 60); while (k < lim) { static const uint32_t top[] = { 0x7F, 0x7FF, 0xFFFF, 0x10FFFF }; uint32_t c = 1 + (uint32_t)rng_below(r, top[rng_below(r, 4)]); char t[5]; size_t l = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; (void)t;
			if (l == 1) b[k++] = (uint8_t)c; else { static const uint8_t ld[] = { 0, 0, 0xC0, 0xE0, 0xF0 }; b[k++] = (uint8_t)(ld[l] | c >> 6 * (l - 1)); for (size_t z = l - 1; z-- > 0;) b[k++] = (uint8_t)(0x80 | (c >> 6 * z & 63)); } } }
		if (rng_p(r, 1, 4) && k) { size_t at = rng_below(r, k); switch (rng_below(r, 4)) { case 0: k = at; break; case 1: b[at] ^= (uint8_t)(1u << rng_below(r, 8)); break; case 2: b[at] = (uint8_t)rng_below(r, 256); break; case 3: memmove(b + at, b + at + 1, k - at - 1); k--; break; } }
		step_blob(s, b, k);
	}
}
const Scenario sc_lex = { "lex", ops, cfgs, gen, exec, ALLOCF, 3 };
