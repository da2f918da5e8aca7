/* C21: evaluating math expressions: exact for every well-formed text and every resolver, contained for every damaged one.
 * The text lives in a block of exactly its size; the resolver and the functions it hands out are the simulator's: they know
 * names, do not know them, claim a function without giving one, keep state between calls and evaluate expressions themselves. */
#include "sim.h"
#include <math.h>
#include "math/math_parser.h"
enum { O_EVAL, O_DEFAULT, O_BARE, NOPS };
static const char *const ops[] = { "evaluate", "default_names", "no_resolver", NULL };
enum { C_NAMES, C_BIG };
static const char *const cfgs[] = { "names", "big", NULL };
typedef long double LD; typedef struct { LD v, e; } V;             /* a value and how far the library's may be from it */
enum { K_VAR, K_VAR2, K_FN, K_COUNT, K_NEST, K_FNNEST, K_UNKNOWN, K_NOFN, NK };
static uint64_t names; static const Plan *P;
/* what the resolver saw: the same record is made by the reference */
typedef struct { uint64_t h; size_t n, fn; long count; int depth; } Log;
static Log got, want; static int level; static int mark[4]; static const char *curtext; static size_t curlen; static bool strict; static size_t ncalls;
static uint64_t nh(const char *s, size_t n) { uint64_t h = names * 977 + 1; for (size_t i = 0; i < n; i++) h = mix64(h ^ (uint8_t)s[i]); return h; }
static int kind(const char *s, size_t n) { int k = (int)(nh(s, n) >> 7 & 63); return k < 22 ? K_VAR : k < 30 ? K_VAR2 : k < 44 ? K_FN : k < 49 ? K_COUNT : k < 54 ? K_NEST : k < 58 ? K_FNNEST : k < 61 ? K_UNKNOWN : K_NOFN; }
static LD val(const char *s, size_t n) { uint64_t h = nh(s, n); return (LD)(int64_t)(h % 4001) / 16 - 100; }
static const char *nested(const char *s, size_t n) { static const char *const t[] = { "a+b*(c-2)", "2*(3+4)^2-1", "-[x1]/4", "((1.5))*zz", "q-q-q", "7" }; return t[nh(s, n) % 6]; }
static LD f0(LD x) { got.h = mix64(got.h + 100); got.fn++; return 2 * x; } static LD f1(LD x) { got.h = mix64(got.h + 101); got.fn++; return x + 3; } static LD f2(LD x) { got.h = mix64(got.h + 102); got.fn++; return fabsl(x); }
static LD fc(LD x) { got.h = mix64(got.h + 103); got.fn++; return x - ++got.count; }
static HarbolMathVarFunc resolver;
static LD inner(const char *t) { size_t n = strlen(t) + 1; char *x = malloc(n); memcpy(x, t, n); const char *ct = curtext; size_t cl = curlen; curtext = x; curlen = n - 1; level++; LD r = harbol_math_parse_expr(x, resolver, &mark[level < 4 ? level : 3], (size_t)level * 3); level--; CHECK(!memcmp(x, t, n), "math:text", "an evaluated expression was altered"); free(x); curtext = ct; curlen = cl; return r; }
static LD fn_nest(LD x) { got.h = mix64(got.h + 104); got.fn++; return x + inner("(4-1)*[2]"); }
static void resolver(const char *name, size_t len, LD *value, HarbolMathFunc **fn, void *data, size_t data_len, bool *is_func) {
	CHECK(len < 64 && strnlen(name, 64) == len && len > 0, "math:name", "resolver was given %zu characters of a name of %zu", strnlen(name, 64), len);
	CHECK(data == &mark[level < 4 ? level : 3] && data_len == (size_t)level * 3, "math:data", "resolver was not given its data");
	bool in = false; for (size_t i = 0; i + len <= curlen && !in; i++) in = !memcmp(curtext + i, name, len); CHECK(in, "math:name", "resolver was asked about \"%.64s\", which the expression does not contain", name);
	CHECK(!*is_func && !*fn, "math:fresh", "resolver was called with a function already chosen");
	CHECK(++ncalls < 400000, "math:endless", "evaluation does not end"); uint64_t h = nh(name, len); got.h = mix64(got.h ^ h); got.n++;
	switch (kind(name, len)) {
	case K_VAR: *value = val(name, len); break;
	case K_VAR2: *value = val(name, len); *fn = f1; break;             /* a function on offer, but this name is a value */
	case K_FN: *is_func = true; *fn = h % 4 == 0 ? f0 : h % 4 == 1 ? f1 : h % 4 == 2 ? f2 : fc; break;
	case K_COUNT: *value = ++got.count; break;
	case K_NEST: *value = level < 2 ? inner(nested(name, len)) : 5; break;
	case K_FNNEST: *is_func = true; *fn = level < 2 ? fn_nest : f0; break;
	case K_UNKNOWN: break;
	case K_NOFN: *is_func = true; *value = val(name, len); break;
	}
	CHECK(nh(name, len) == h, "math:name", "the name changed while the resolver was looking at it");
}
/* reference: recursive descent over the documented grammar, refusing every text outside it */
typedef struct { const char *t; size_t i, n; bool bad, def; int depth, lvl; } R;
static V rexpr(R *r); static V runary(R *r); static V rpow(R *r);
static V mk(LD v, LD e) { V x = { v, e + fabsl(v) * 1e-15L }; if (!(x.e >= 0) || !isfinite(v)) x.e = INFINITY; return x; }
static void ws(R *r) { while (r->i < r->n && strchr(" \t\n\r", r->t[r->i]) && r->t[r->i]) r->i++; }
static char pk(R *r) { ws(r); return r->i < r->n ? r->t[r->i] : 0; }
static V ref(const char *t, bool def, int lvl, bool *bad) { R r = { t, 0, strlen(t), false, def, 0, lvl }; V v = rexpr(&r); if (pk(&r)) r.bad = true; if (r.bad) *bad = true; return v; }
static bool al(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static V rfactor(R *r) {
	char c = pk(r); if (r->bad) return mk(0, 0);
	if (c == '(' || c == '[') { r->i++; V v = rexpr(r); if (pk(r) != (c == '(' ? ')' : ']')) r->bad = true; r->i++; return v; }
	if ((c >= '0' && c <= '9') || c == '.') { size_t s = r->i; int dots = 0, dig = 0; while (r->i < r->n && (al(r->t[r->i]) || r->t[r->i] == '.')) { if (r->t[r->i] == '.') dots++; else if (r->t[r->i] > '9') r->bad = true; else dig++; r->i++; } if (dots > 1 || !dig) r->bad = true; if (r->bad) return mk(0, 0); return mk(strtold(r->t + s, NULL), 0); }
	if (!al(c)) { r->bad = true; return mk(0, 0); }
	const char *nm = r->t + r->i; size_t n = 0; while (r->i < r->n && al(r->t[r->i])) { r->i++; n++; } if (n > 60) { r->bad = true; return mk(0, 0); }
	if (r->def) {
		static const char *const fs[] = { "sin", "cos", "arctan", "radians", "degrees", "fraction", "floor", "ceil", "round" }; int k = -1; for (int i = 0; i < 9; i++) if (strlen(fs[i]) == n && !memcmp(fs[i], nm, n)) k = i;
		if (n == 2 && !memcmp(nm, "pi", 2)) return mk(3.141592653589793238462643383L, 1e-15L); if (n == 1 && *nm == 'e') return mk(2.718281828459045235360287471L, 1e-15L); if (k < 0) { r->bad = true; return mk(0, 0); }
		char d = pk(r); V x = d == '(' || d == '[' ? runary(r) : rpow(r); switch (k) { case 0: return mk(sinl(x.v), x.e + 1e-15L); case 1: return mk(cosl(x.v), x.e + 1e-15L); case 2: return mk(atanl(x.v), x.e + 1e-15L); case 3: return mk(x.v * 3.141592653589793238462643383L / 180, x.e); case 4: return mk(x.v * 180 / 3.141592653589793238462643383L, x.e * 60); }
		LD fl = floorl(x.v); if (!isfinite(x.e)) { r->bad = true; return mk(0, 0); } if (x.v - fl < x.e * 2 + 1e-12L || fl + 1 - x.v < x.e * 2 + 1e-12L || fabsl(x.v - fl - 0.5L) < x.e * 2 + 1e-12L) { if (x.e > 1e-13L || x.v != fl || k == 5) { r->bad = true; return mk(0, 0); } return mk(fl, 0); }
		return k == 5 ? mk(x.v - fl, x.e + fabsl(x.v) * 1e-15L) : k == 6 ? mk(fl, 0) : k == 7 ? mk(fl + 1, 0) : mk(x.v - fl >= 0.5L ? fl + 1 : fl, 0);
	}
	uint64_t h = nh(nm, n); want.h = mix64(want.h ^ h); want.n++; int k = kind(nm, n);
	switch (k) {
	case K_VAR: case K_VAR2: case K_NOFN: return mk(val(nm, n), 0);
	case K_COUNT: return mk(++want.count, 0);
	case K_NEST: if (r->lvl >= 2) return mk(5, 0); return ref(nested(nm, n), false, r->lvl + 1, &r->bad);
	case K_UNKNOWN: r->bad = true; return mk(0, 0);
	}
	char d = pk(r); V x = d == '(' || d == '[' ? runary(r) : rpow(r); if (r->bad) return x;
	if (k == K_FN) { int w = (int)(h % 4); want.h = mix64(want.h + 100 + (uint64_t)w); want.fn++; return w == 0 ? mk(2 * x.v, 2 * x.e) : w == 1 ? mk(x.v + 3, x.e) : w == 2 ? mk(fabsl(x.v), x.e) : mk(x.v - ++want.count, x.e); }
	want.fn++; if (r->lvl >= 2) { want.h = mix64(want.h + 100); return mk(2 * x.v, 2 * x.e); } want.h = mix64(want.h + 104); V y = ref("(4-1)*[2]", false, r->lvl + 1, &r->bad); return mk(x.v + y.v, x.e + y.e);
}
static V runary(R *r) { if (++r->depth > 200) r->bad = true; V v; if (r->bad) v = mk(0, 0); else if (pk(r) == '-') { r->i++; v = runary(r); v.v = -v.v; } else if (pk(r) == '+') { r->i++; v = runary(r); v = mk(v.v, v.v > v.e || (v.v == 0 && v.e == 0) ? v.e : INFINITY); }   /* of a negative value its plus is not specified */ else v = rfactor(r); r->depth--; return v; }
static V rpow(R *r) { V a = runary(r); while (!r->bad && pk(r) == '^') { r->i++; V b = runary(r); if (b.e > 1e-12L || b.v != floorl(b.v) || fabsl(b.v) > 6 || (b.v < 0 && fabsl(a.v) < 0.01L)) { LD p = powl(a.v, b.v); a.v = p; a.e = INFINITY; continue; } LD p = powl(a.v, b.v); a = mk(p, b.v == 0 ? 0 : fabsl(b.v * p) * (a.e / (fabsl(a.v) + 1e-30L)) * 2 + fabsl(p) * 1e-13L + (b.v > 0 ? powl(a.e, b.v) : 0)); } return a; }
static V rmul(R *r) { V a = rpow(r); for (char c; !r->bad && ((c = pk(r)) == '*' || c == '/');) { r->i++; V b = rpow(r); if (c == '*') a = mk(a.v * b.v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e); else if (fabsl(b.v) < 4 * b.e + 1e-12L) a = mk(a.v / b.v, INFINITY); else a = mk(a.v / b.v, (a.e + fabsl(a.v / b.v) * b.e) / (fabsl(b.v) - b.e)); } return a; }
static V rexpr(R *r) { V a = rmul(r); for (char c; !r->bad && ((c = pk(r)) == '+' || c == '-');) { r->i++; V b = rmul(r); a = mk(c == '+' ? a.v + b.v : a.v - b.v, a.e + b.e); } return a; }
static void exec(const Plan *p) {
	P = p; names = (uint64_t)p->cfg[C_NAMES];
	for (size_t n = 0; n < p->n; n++) {
		const Step *s = &p->steps[n]; sim_step(p, n); size_t len = s->bloblen; if (len && memchr(s->blob, 0, len)) len = (size_t)((uint8_t *)memchr(s->blob, 0, len) - s->blob);
		char *t = sim_malloc(len + 1); memcpy(t, s->blob, len); t[len] = 0; char *keep = malloc(len + 1); memcpy(keep, t, len + 1);
		memset(&got, 0, sizeof got); memset(&want, 0, sizeof want); bool bad = false; V w = { 0, 0 }; ncalls = 0; level = 1; curtext = keep; curlen = len;
		if (s->op != O_BARE) w = ref(keep, s->op == O_DEFAULT, 1, &bad); else { w = ref(keep, true, 1, &bad); if (strpbrk(keep, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")) bad = true; }
		size_t live = sim_live(); LD v = s->op == O_DEFAULT ? harbol_math_parse_expr(t, harbol_math_default_var_func, NULL, 0) : s->op == O_BARE ? harbol_math_parse_expr(t, NULL, NULL, 0) : harbol_math_parse_expr(t, resolver, &mark[1], 3);
		CHECK(!memcmp(t, keep, len + 1), "math:text", "an evaluated expression was altered"); CHECK(sim_live() == live, "math:leak", "evaluation left memory allocated"); CHECK(level == 1, "math:level", "unbalanced");
		if (!bad) { sim_probe(0); if (want.n > got.n || memcmp(&want, &got, sizeof got)) CHECK(0, "math:order", "\"%.120s\": the resolver was consulted %zu times and its functions %zu times, expected %zu and %zu%s", keep, got.n, got.fn, want.n, want.fn, want.n == got.n ? " (in another order or for other names)" : "");
			if (isfinite(w.v) && isfinite(w.e) && w.e < 1e-3L * (1 + fabsl(w.v)) && fabsl(w.v) < 1e300L) { sim_probe(1); CHECK(fabsl(v - w.v) <= 4 * w.e + 1e-13L * fabsl(w.v) + 1e-13L, "math:value", "\"%.120s\" evaluates to %.15Lg, expected %.15Lg", keep, v, w.v); } ev("val %.9Lg", isfinite(w.v) && isfinite(w.e) && w.e < 1e-3L ? roundl(v * 1000) / 1000 : 0.0L); }
		else { sim_probe(2); ev("damaged"); } if (got.fn) sim_probe(3); sim_state(mix64(got.h * 7 + (uint64_t)bad + len)); free(keep); sim_free(t);
	}
	sim_leak_check("at the end", 0);
}
static char gb[20000]; static size_t gn;
static void put(const char *s) { size_t n = strlen(s); if (gn + n < sizeof gb - 8) { memcpy(gb + gn, s, n); gn += n; } }
static void gsp(Rng *r) { static const char *const w[] = { " ", "  ", "\t", "\n", " \r\n" }; if (rng_p(r, 1, 4)) put(w[rng_below(r, 5)]); }
static void gname(Rng *r, bool def) { char b[80]; if (def) { static const char *const t[] = { "e", "pi", "sin", "cos", "arctan", "radians", "degrees", "floor", "ceil", "round", "fraction" }; put(t[rng_below(r, 11)]); return; } size_t n = rng_p(r, 1, 30) ? (size_t)rng_range(r, 20, 70) : (size_t)rng_range(r, 1, 4); for (size_t i = 0; i < n; i++) b[i] = "abcdefXYZqz0123456789"[rng_below(r, i ? 21 : 11)]; b[n] = 0; put(b); }
static void gnum(Rng *r) { char b[90]; if (rng_p(r, 1, 20)) { size_t n = (size_t)rng_range(r, 20, 70); for (size_t i = 0; i < n; i++) b[i] = (char)('0' + rng_below(r, 10)); b[0] = '0'; b[1] = '.'; b[n] = 0; } else switch (rng_below(r, 4)) { case 0: snprintf(b, sizeof b, "%d.%d", (int)rng_below(r, 100), (int)rng_below(r, 1000)); break; case 1: snprintf(b, sizeof b, ".%d", (int)rng_below(r, 100)); break; default: snprintf(b, sizeof b, "%d%s", (int)rng_below(r, 50), rng_p(r, 1, 20) ? "." : ""); } put(b); }
static int budget;
static void gexpr(Rng *r, int d, bool def, bool bare) {
	if (d <= 0 || budget-- <= 0) { gsp(r); if (rng_p(r, 1, 2) && !bare) { uint64_t k = gn; (void)k; gname(r, def); gsp(r); if (rng_p(r, 1, 3)) { put(" "); gnum(r); } } else gnum(r); gsp(r); return; }
	switch (rng_below(r, 9)) {
	case 0: case 1: gexpr(r, d - 1, def, bare); put(rng_p(r, 1, 2) ? "+" : "-"); gexpr(r, d - 1, def, bare); break;
	case 2: case 3: gexpr(r, d - 1, def, bare); put(rng_p(r, 2, 3) ? "*" : "/"); gexpr(r, d - 1, def, bare); break;
	case 4: gexpr(r, d - 1, def, bare); put("^"); if (rng_p(r, 1, 2)) { put(rng_p(r, 1, 2) ? "2" : "3"); } else gexpr(r, d - 2, def, bare); break;
	case 5: gsp(r); put(rng_p(r, 1, 6) ? "+" : "-"); gexpr(r, d - 1, def, bare); break;
	case 6: case 7: { bool b = rng_p(r, 1, 2); gsp(r); put(b ? "[" : "("); gexpr(r, d - 1, def, bare); put(b ? "]" : ")"); gsp(r); break; }
	default: if (!bare) gname(r, def); put(" "); { bool b = rng_p(r, 1, 3), q = rng_p(r, 1, 3); if (q) put(b ? "[" : "("); gexpr(r, d - 2, def, bare); if (q) put(b ? "]" : ")"); } break;
	}
}
static void gen(Rng *r, Plan *p) {
	p->cfg[C_NAMES] = (int64_t)rng_below(r, 100000); bool big = rng_p(r, 1, 15); p->cfg[C_BIG] = big; int n = (int)rng_range(r, 1, big ? 4 : 14);
	for (int i = 0; i < n; i++) {
		int op = rng_p(r, 1, 4) ? O_DEFAULT : rng_p(r, 1, 8) ? O_BARE : O_EVAL; gn = 0; budget = big ? (int)rng_range(r, 50, 900) : (int)rng_range(r, 1, 25);
		if (rng_p(r, 1, 12)) { int m = (int)rng_range(r, 1, big ? 600 : 195), k = (int)rng_below(r, 3); for (int j = 0; j < m; j++) put(k == 0 ? "-" : k == 1 ? "(" : "["); gnum(r); for (int j = 0; j < m && k; j++) put(k == 1 ? ")" : "]"); }
		else { gexpr(r, (int)rng_range(r, 1, big ? 9 : 5), op == O_DEFAULT, op == O_BARE); if (big && rng_p(r, 1, 2)) { int m = (int)rng_range(r, 20, 400); for (int j = 0; j < m; j++) { put(rng_p(r, 1, 2) ? "+" : "-"); if (op == O_EVAL && rng_p(r, 1, 2)) gname(r, false); else gnum(r); } } }
		if (rng_p(r, 1, 3) && gn) { int m = (int)rng_range(r, 1, 4); for (int j = 0; j < m && gn; j++) { size_t at = rng_below(r, gn); switch (rng_below(r, 5)) { case 0: gn = at; break; case 1: gb[at] = "+-*/^()[].,xe0 \xff\x80_$"[rng_below(r, 21)]; break; case 2: gb[at] = (char)(1 + rng_below(r, 255)); break; case 3: memmove(gb + at, gb + at + 1, gn - at - 1); gn--; break; default: if (gn + 1 < sizeof gb) { memmove(gb + at + 1, gb + at, gn - at); gb[at] = "+-*/^()[] 1x."[rng_below(r, 13)]; gn++; } } } }
		step_blob(plan_add(p, op, 1, (int64_t)rng_below(r, 64)), gb, gn);
	}
}
const Scenario sc_math = { "math", ops, cfgs, gen, exec, 0, 0, 0 };
