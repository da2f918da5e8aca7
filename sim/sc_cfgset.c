/* C13: typed reads and writes by dotted path, each compared with the model over the whole configuration. */
#include "cfgmodel.h"
enum { O_ADD, O_SECTION, O_GET, O_SET, O_NULL, O_MATH, O_SELF, O_BULK, O_CHAIN, NOPS };
static const char *const ops[] = { "add", "add_section", "get", "set", "set_null", "calc_math", "set_from_itself", "bulk", "chain", NULL };
enum { C_ALLOC };
static const char *const cfgs[] = { "alloc", NULL };
static struct HarbolMap *C;
static void intact(const char *w) { cfg_digest(C); size_t own = cfg_blocks; cm_cmp(C, 0, false, w, "cfgset:altered"); CHECK(sim_live() == own, "leak", "after %s: %zu blocks live, the configuration owns %zu", w, sim_live(), own); }
/* the meaning of a path, written independently of the library: dots separate keys, "\." is a dot inside a key */
static int resolve(const char *p) {
	int at = 0; size_t i = 0, n = strlen(p); if (!n) return -1;
	for (;;) {
		static uint8_t k[40000]; size_t kl = 0; bool end = true;
		for (; i < n; i++) { if (p[i] == '\\' && i + 1 < n && p[i + 1] == '.') { k[kl++] = '.'; i++; } else if (p[i] == '.') { end = false; i++; break; } else k[kl++] = (uint8_t)p[i]; }
		if (!kl || M[at].type != HarbolCfgType_Map) return -1;
		at = cm_find(at, k, kl); if (at < 0 || end) return at;
	}
}
static void path_of(int x, char *out, size_t max) {
	int st[400], n = 0; size_t k = 0; while (M[x].parent >= 0 && n < 400) { st[n++] = x; x = M[x].parent; }
	while (n--) { Node *q = &M[st[n]]; for (size_t i = 0; i < q->kl && k + 3 < max; i++) { if (q->key[i] == '.') out[k++] = '\\'; out[k++] = (char)q->key[i]; } if (n && k + 2 < max) out[k++] = '.'; }
	out[k] = 0;
}
static void mutate(char *p, size_t max, int64_t how, int64_t arg) {
	size_t n = strlen(p); static char t[40000]; if (!n || n + 40 > max || n + 40 > sizeof t) return;
	switch (umod(how, 16)) {
	case 0: strcat(p, ".zz"); break;
	case 1: p[umod(arg, n)] = 'Q'; break;
	case 2: snprintf(t, sizeof t, ".%s", p); strcpy(p, t); break;
	case 3: { char *d = strchr(p, '.'); if (d) { snprintf(t, sizeof t, "%.*s.%s", (int)(d - p), p, d); strcpy(p, t); } break; }
	case 4: snprintf(t, sizeof t, "%s.%s", p, p); strcpy(p, t); break;
	case 5: { char *d = strrchr(p, '.'); if (d && d[1]) { strcpy(t, d + 1); strcpy(p, t); } break; }
	case 6: p[0] = 0; break;
	case 7: strcat(p, "\\"); break;
	default: break;
	}
	n = strlen(p); while (n && p[n - 1] == '.' && !(n > 1 && p[n - 2] == '\\')) p[--n] = 0;   /* what a trailing separator means is not part of the property */
}
static const int ty[] = { HarbolCfgType_String, HarbolCfgType_Int, HarbolCfgType_Float, HarbolCfgType_Bool, HarbolCfgType_Color, HarbolCfgType_Vec4D, HarbolCfgType_Null, HarbolCfgType_String };
static void freeval(int x) { /* a converted section takes its settings along */ M[x].first = M[x].last = -1; M[x].nk = 0; }
static int get_all(const char *p, int x, const Step *s) {
	const struct HarbolVariant *v = NULL; size_t len = 77;
	if (x >= 0) { struct HarbolMap *s = cfg_section(C, M[x].parent); size_t i = 0; for (int y = M[M[x].parent].first; y != x; y = M[y].next) i++; v = (const void *)s->datum[i]; }
	const void *g[8]; sim_arm(s); int t = harbol_cfg_get_type(C, p);
	g[0] = NULL; g[1] = harbol_cfg_get_section(C, p); g[2] = harbol_cfg_get_str(C, p); g[3] = harbol_cfg_get_float(C, p); g[4] = harbol_cfg_get_int(C, p); g[5] = harbol_cfg_get_bool(C, p); g[6] = harbol_cfg_get_color(C, p); g[7] = harbol_cfg_get_vec4D(C, p);
	const char *cs = harbol_cfg_get_cstr(C, p, &len); int ft = sim_disarm();
	CHECK(t == (x < 0 ? HarbolCfgType_Invalid : M[x].type) || (ft && t == HarbolCfgType_Invalid), "cfgset:get", "type of '%s' is %d, expected %d", p, t, x < 0 ? -1 : M[x].type);
	for (int k = 1; k < 8; k++) {
		const void *want = x >= 0 && M[x].type == k ? (k <= 2 ? *(void **)v->data : v->data) : NULL;
		CHECK(g[k] == want || (ft && !g[k]), "cfgset:get", "reading '%s' as type %d gave %s, the setting %s", p, k, g[k] ? "a value" : "nothing", want ? "has that type" : "does not have that type");
	}
	if (x >= 0 && M[x].type == HarbolCfgType_String) { if (M[x].sl && cs) CHECK(len == M[x].sl && !memcmp(cs, M[x].s, len), "cfgset:get", "text of '%s' has %zu bytes, expected %zu", p, len, M[x].sl); CHECK(cs || ft || !M[x].sl, "cfgset:get", "text of '%s' not found", p); if (!ft) CHECK(len == M[x].sl, "cfgset:get", "text of '%s' is reported as %zu bytes, expected %zu", p, len, M[x].sl); }
	else CHECK(!cs, "cfgset:get", "'%s' is no text but read as text", p);
	ev("get %d", t); return ft;
}
typedef long double LD;
static LD vx, vy; static int vcalls; static bool vbad; static const void *vdata;
static void resolver(const char name[], size_t n, floatmax_t *v, HarbolMathFunc **fn, void *d, size_t dl, bool *is_fn) {
	(void)fn; *is_fn = false; vcalls++; vbad |= d != vdata || dl != 3; *v = n == 5 && !memcmp(name, "alpha", 5) ? vx : n == 4 && !memcmp(name, "beta", 4) ? vy : 0;
}
static void exec(const Plan *p) {
	C = harbol_map_new(8); CHECK(C, "cfg:build", "no map"); cm_cap = 4u << 20; cm_reset(); cm_root();
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i); int ft = 0; static char path[20000]; path[0] = 0;
		if (s->op == O_ADD || s->op == O_SECTION) {
			int sec = cm_section(0, s->a[0]); size_t kl = umod(s->a[2], 73); if (kl > s->bloblen) kl = s->bloblen; if (kl == 0 || memchr(s->blob, 0, kl) || cm_depth(sec) > 300 || Mn > 900) continue;
			size_t l2; const uint8_t *kb = cm_long(s->blob, kl, s->a[4], 5000, &l2); int x = cm_add(sec, kb, l2); if (x < 0) continue; const uint8_t *vb = cm_long(s->blob + kl, s->bloblen - kl, s->a[5], 70000, &l2); cm_value(&M[x], s->op == O_SECTION ? HarbolCfgType_Map : ty[umod(s->a[1], 8)], s->a[3], vb, l2); cfg_put(cfg_section(C, sec), x); ev("add %d", M[x].type); sim_state(cfg_digest(C)); continue;
		}
		if (s->op == O_BULK) { int sec = cm_section(0, s->a[0]); cm_bulk(cfg_section(C, sec), sec, s->a[1], s->a[3]); intact("bulk"); continue; }
		if (s->op == O_CHAIN) { cm_chain(C, cm_section(0, s->a[0]), s->a[1]); intact("chain"); continue; }
		int x = cm_any(0, s->a[0]); if (x >= 0) path_of(x, path, sizeof path); mutate(path, sizeof path, s->a[2], s->a[3]); x = resolve(path);
		switch (s->op) {
		case O_GET: ft = get_all(path, x, s); if (x >= 0) sim_probe(0); break;
		case O_SET: {
			int t = ty[umod(s->a[1], 6)]; bool over = s->a[4] & 1, r; Node v; memset(&v, 0, sizeof v); size_t l2; const uint8_t *vb = cm_long(s->blob, s->bloblen, s->a[6], 70000, &l2); cm_value(&v, t, s->a[5], vb, l2);
			static char cs[200000]; size_t sl = v.sl; if (v.sl) memcpy(cs, v.s, v.sl); cs[v.sl] = 0; bool cstr = s->a[4] & 2; struct HarbolString hs = { v.sl || (s->a[4] & 4) ? cs : NULL, v.sl };
			if (t == HarbolCfgType_String && cstr) sl = strlen(cs);
			struct HarbolVec4D v4; union HarbolColor co; memcpy(&v4, v.v, 16); memcpy(&co, v.c, 4); sim_arm(s);
			switch (t) {
			case HarbolCfgType_String: r = cstr ? harbol_cfg_set_cstr(C, path, cs, over) : harbol_cfg_set_str(C, path, hs, over); break;
			case HarbolCfgType_Int: r = harbol_cfg_set_int(C, path, v.i, over); break;
			case HarbolCfgType_Float: r = harbol_cfg_set_float(C, path, (floatmax_t)v.f, over); break;
			case HarbolCfgType_Bool: r = harbol_cfg_set_bool(C, path, v.b, over); break;
			case HarbolCfgType_Color: r = harbol_cfg_set_color(C, path, co, over); break;
			default: r = harbol_cfg_set_vec4D(C, path, v4, over); break;
			}
			ft = sim_disarm(); ev("set %d %d", t, r); bool can = x >= 0 && (M[x].type == t || over);
			CHECK(r == can || (ft && !r), "cfgset:result", "setting '%s' to type %d %s; the path %s", path, t, r ? "succeeded" : "failed", x < 0 ? "leads nowhere" : can ? "can take it" : "holds another type");
			if (r) { if (M[x].type == HarbolCfgType_Map) freeval(x); if (M[x].type != t) sim_probe(2); M[x].type = t; M[x].sl = sl; M[x].s = cm_keep(v.s ? v.s : (const uint8_t *)"", sl); M[x].f = v.f; M[x].i = v.i; M[x].b = v.b; memcpy(M[x].c, v.c, 4); memcpy(M[x].v, v.v, 16); sim_probe(1); }
			break; }
		case O_SELF: {      /* the new value is text of the configuration itself */
			int y = cm_any(0, s->a[5]); if (y < 0 || M[y].type != HarbolCfgType_String) break; static char p2[20000]; path_of(y, p2, sizeof p2); if (resolve(p2) != y) break; struct HarbolString *t = harbol_cfg_get_str(C, p2); if (!t || !t->cstr) break;
			static uint8_t keep[200000]; size_t sl = (s->a[4] & 2) ? strlen(t->cstr) : t->len; memcpy(keep, t->cstr, sl); bool over = s->a[4] & 1; sim_arm(s); bool r = (s->a[4] & 2) ? harbol_cfg_set_cstr(C, path, t->cstr, over) : harbol_cfg_set_str(C, path, *t, over); ft = sim_disarm(); ev("self %d", r);
			bool can = x >= 0 && (M[x].type == HarbolCfgType_String || over); CHECK(r == can || (ft && !r), "cfgset:result", "setting '%s' to text of '%s' %s", path, p2, r ? "succeeded" : "failed");
			if (r) { if (M[x].type == HarbolCfgType_Map) freeval(x); M[x].type = HarbolCfgType_String; M[x].sl = sl; M[x].s = cm_keep(keep, sl); } break; }
		case O_NULL: { sim_arm(s); bool r = harbol_cfg_set_to_null(C, path); ft = sim_disarm(); ev("null %d", r); CHECK(r == (x >= 0) || (ft && !r), "cfgset:result", "setting '%s' to null %s", path, r ? "succeeded" : "failed"); if (r) { if (M[x].type == HarbolCfgType_Map) freeval(x); M[x].type = HarbolCfgType_Null; } break; }
		case O_MATH: {      /* the text of a setting worked out: a + x * (b - y), or without names for the resolver the library has */
			int a = (int)umod(s->a[3], 900), b = (int)umod(s->a[5], 300), nx = 0; bool own = s->a[4] & 1, str = x >= 0 && M[x].type == HarbolCfgType_String, expr = str && (s->a[1] & 3); char t[60]; vx = 2 + a % 7; vy = b % 5 - 2.5L; vcalls = 0; vbad = false;
			if (expr) { nx = own ? snprintf(t, sizeof t, "%d + alpha * (%d - beta)", a, b) : snprintf(t, sizeof t, "%d + floor(9.5) * (%d - 4)", a, b); CHECK(harbol_cfg_set_cstr(C, path, t, false), "cfgset:result", "setting an existing text by its path failed"); M[x].sl = (size_t)nx; M[x].s = cm_keep((uint8_t *)t, (size_t)nx); }
			char mark[4]; vdata = mark; sim_arm(s); floatmax_t f = harbol_cfg_calc_math(C, path, own ? resolver : NULL, own ? mark : NULL, own ? 3 : 0); ft = sim_disarm(); ev("math %d", f == f);
			CHECK(!vbad, "cfgset:math", "the resolver of names was not handed what the caller passed"); CHECK(str || !vcalls, "cfgset:math", "names were looked up for '%s', which is no text", path);
			if (expr && !ft) { LD want = own ? a + vx * (b - vy) : a + 9.0L * (b - 4); CHECK(f == want, "cfgset:math", "'%s' came out as %Lg, expected %Lg", t, f, want); CHECK(!own || vcalls == 2, "cfgset:math", "%d names were looked up, expected 2", vcalls); sim_probe(4); }
			break; }
		}
		if (ft) sim_probe(3);
		intact(ops[s->op]); sim_state(cfg_digest(C));
	}
	harbol_cfg_free(&C); CHECK(!C, "cfgset:free", "dangling"); sim_leak_check("at the end", 0);
}
static void gen(Rng *r, Plan *p) {
	int n = 2 + rng_len(r), built = 1 + (int)rng_below(r, 8); bool wild = rng_p(r, 1, 2), big = rng_p(r, 1, 20), huge = big && rng_p(r, 1, 4);
	for (int i = 0; i < n; i++) {
		int k = (int)rng_below(r, 20), op = i < built ? (k < 12 ? O_ADD : O_SECTION) : k < 2 ? O_ADD : k < 4 ? O_SECTION : k < 8 ? O_GET : k < 15 ? O_SET : k < 17 ? O_NULL : k < 18 ? O_MATH : O_SELF; if (big && rng_p(r, 1, 7)) op = rng_p(r, 1, 2) ? O_BULK : O_CHAIN;
		uint8_t b[300]; size_t kl = 0, l = 0; if (op <= O_SECTION) step_key(r, b, &kl, wild); l = kl; if (op == O_ADD || op == O_SET) l += rng_text(r, b + kl, 150);
		int64_t ke = big && rng_p(r, 1, 5) ? rng_big(r, 12) : 0, ve = big && rng_p(r, 1, 3) ? rng_big(r, huge ? 16 : 11) : 0;
		Step *s = plan_add(p, op, 7, big ? (int64_t)rng_below(r, 3000) : (int64_t)rng_below(r, 60), op >= O_BULK ? rng_big(r, huge ? 8 : 6) : (int64_t)rng_below(r, 64), op <= O_SECTION ? (int64_t)kl : (int64_t)rng_below(r, 32), (int64_t)rng_below(r, 4096), op <= O_SECTION ? ke : (int64_t)rng_below(r, 8), op <= O_SECTION ? ve : (int64_t)rng_below(r, 4096), op == O_SET ? ve : 0); if (l) step_blob(s, b, l);
	}
}
const Scenario sc_cfgset = { "cfgset", ops, cfgs, gen, exec, ALLOCF, 6, 300000000 };
