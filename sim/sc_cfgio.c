/* C11: saving, loading, rendering and parsing configurations over a faulty disk and allocator. */
#include "cfgmodel.h"
enum { O_ADD, O_SECTION, O_SAVE, O_LOAD, O_RENDER, O_ODDFLOAT, O_FRESH, O_CLOBBER, O_BULK, O_CHAIN, NOPS };
static const char *const ops[] = { "add", "add_section", "save", "load", "render", "odd_float", "fresh", "clobber", "bulk", "chain", NULL };
enum { C_ALLOC, C_CHUNK, C_BUF };
static const char *const cfgs[] = { "alloc", "read_chunk", "stdio_buffer", NULL };
static struct HarbolMap *C;
static const char *const fn[4] = { "a.cfg", "b.cfg", "dir/c.cfg", "ref.cfg" };
static int odd(int sec) { int n = 0; for (int x = M[sec].first; x >= 0; x = M[x].next) { if (M[x].type == HarbolCfgType_Map) n += odd(x); else if (M[x].type == HarbolCfgType_Float) n += !isfinite((double)M[x].f) && !isfinite(M[x].f); else if (M[x].type == HarbolCfgType_Vec4D) n += !isfinite(M[x].v[0]) || !isfinite(M[x].v[1]) || !isfinite(M[x].v[2]) || !isfinite(M[x].v[3]); } return n; }
static void settle(int sec, const struct HarbolMap *m) { size_t i = 0; for (int x = M[sec].first; x >= 0; x = M[x].next, i++) { const struct HarbolVariant *v = (const void *)m->datum[i]; if (M[x].type == HarbolCfgType_Map) settle(x, *(struct HarbolMap **)v->data); else if (M[x].type == HarbolCfgType_Float) M[x].f = *(floatmax_t *)v->data; else if (M[x].type == HarbolCfgType_Vec4D) memcpy(M[x].v, v->data, 16); } }
static void start(void) { C = harbol_map_new(8); CHECK(C, "cfg:build", "no map"); cm_reset(); cm_root(); }
static void intact(const char *w) { cfg_digest(C); size_t own = cfg_blocks; cm_cmp(C, 0, false, w, "cfgio:altered"); CHECK(sim_live() == own, "leak", "after %s: %zu blocks live, the configuration owns %zu", w, sim_live(), own); CHECK(sim_open_handles() == 0, "handle", "after %s: %zu file handles open", w, sim_open_handles()); }
static void load_check(const char *name, const char *w) {
	struct HarbolMap *L = harbol_cfg_parse_file(name); if (!L) { SimFile *f = sim_file(name); CHECK(f && f->len == 0 && M[0].nk == 0, "cfgio:lost", "%s: a file whose save was reported successful does not load", w); return; }
	cm_cmp(L, 0, true, w, "cfgio:roundtrip"); harbol_cfg_free(&L); CHECK(!L, "cfgio:free", "dangling");
}
static void exec(const Plan *p) {
	static uint8_t old[1 << 20]; size_t oldn; static SimFile *f; static volatile bool died; C = NULL; start(); sim_disk_policy(p->cfg[C_CHUNK], p->cfg[C_BUF]);
	for (volatile size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i); int ft = 0;
		switch (s->op) {
		case O_ADD: case O_SECTION: {
			static const int ty[] = { HarbolCfgType_String, HarbolCfgType_Int, HarbolCfgType_Float, HarbolCfgType_Bool, HarbolCfgType_Color, HarbolCfgType_Vec4D, HarbolCfgType_Null, HarbolCfgType_String };
			int sec = cm_section(0, s->a[0]); size_t kl = umod(s->a[2], 73); if (kl > s->bloblen) kl = s->bloblen; if (kl == 0 || cm_marker(s->blob, kl) || memchr(s->blob, 0, kl) || cm_depth(sec) > 300 || Mn > 900) break;
			size_t l2; const uint8_t *kb = cm_long(s->blob, kl, s->a[4], 5000, &l2); int x = cm_add(sec, kb, l2); if (x < 0) break; const uint8_t *vb = cm_long(s->blob + kl, s->bloblen - kl, s->a[5], 70000, &l2); cm_value(&M[x], s->op == O_SECTION ? HarbolCfgType_Map : ty[umod(s->a[1], 8)], s->a[3], vb, l2); cfg_put(cfg_section(C, sec), x); ev("add %d", M[x].type); break; }
		case O_BULK: { int sec = cm_section(0, s->a[0]); cm_bulk(cfg_section(C, sec), sec, s->a[1], s->a[3]); break; }
		case O_CHAIN: cm_chain(C, cm_section(0, s->a[0]), s->a[1]); break;
		case O_ODDFLOAT: { int x = cm_add(cm_section(0, s->a[0]), "odd", 3); if (x < 0) break; double o = s->a[1] % 3 == 0 ? INFINITY : s->a[1] % 3 == 1 ? -INFINITY : NAN; if (s->a[1] & 8) { M[x].type = HarbolCfgType_Vec4D; for (int k = 0; k < 4; k++) M[x].v[k] = (float)(k + 1); M[x].v[s->a[1] & 3] = (float)o; } else { M[x].type = HarbolCfgType_Float; M[x].f = o; } cfg_put(cfg_section(C, M[x].parent), x); break; }
		case O_SAVE: {
			const char *nm = fn[umod(s->a[0], 3)]; bool over = s->a[1] & 1, r; f = sim_file(nm); oldn = f ? f->len : 0; if (oldn > sizeof old) break; bool was = f != NULL; if (oldn) memcpy(old, f->d, oldn); died = false;
			if (setjmp(sim_crash_env)) { died = true; sim_process_dies(); sim_disarm(); f = sim_file(nm);
				CHECK(over || (f && f->len >= oldn && !memcmp(f->d, old, oldn)) || !was, "cfgio:appended", "a crash while saving without overwriting lost what the file held");
				struct HarbolMap *L = harbol_cfg_parse_file(nm); ev("after crash %d", L != NULL); if (L) cfg_digest(L); harbol_cfg_free(&L); sim_leak_check("loading what a crash left", 0); sim_probe(2);
				C = harbol_map_new(8); for (int x = 1; x < Mn; x++) cfg_put(cfg_section(C, M[x].parent), x); break; }
			sim_crash_on = true; sim_arm(s); r = harbol_cfg_build_file(C, nm, over); ft = sim_disarm(); sim_crash_on = false; f = sim_file(nm); ev("save %d %zu", r, f ? f->len : 0);
			intact("saving"); if (ft) sim_probe(1);
			CHECK(r || ft || odd(0) || (f && f->unreadable), "cfgio:refused", "saving failed without a fault");
			if (!over && was) CHECK(f->len >= oldn && !memcmp(f->d, old, oldn), "cfgio:appended", "saving without overwriting changed what the file held");
			if (!r) break; CHECK(!odd(0), "cfgio:odd-float", "saving reported success for a number that has no text");
			if (over || oldn == 0) load_check(nm, "saving");
			else { SimFile *g; CHECK(harbol_cfg_build_file(C, fn[3], true), "cfgio:refused", "saving failed without a fault"); g = sim_file(fn[3]); f = sim_file(nm); CHECK(f->len == oldn + g->len && !memcmp(f->d + oldn, g->d, g->len), "cfgio:appended", "appended %zu bytes, a fresh file holds %zu", f->len - oldn, g->len); }
			intact("checking the saved file"); sim_probe(0); break; }
		case O_LOAD: {
			const char *nm = fn[umod(s->a[0], 3)]; if (!sim_file(nm) || odd(0) || !harbol_cfg_build_file(C, nm, true)) break; size_t own; cfg_digest(C); own = cfg_blocks;
			sim_arm(s); struct HarbolMap *L = harbol_cfg_parse_file(nm); ft = sim_disarm(); ev("load %d", L != NULL); CHECK(L || ft || M[0].nk == 0, "cfgio:lost", "a saved file does not load");
			if (L) { cm_cmp(L, 0, true, "loading", "cfgio:roundtrip"); cfg_digest(L); own += cfg_blocks; }
			CHECK(sim_live() == own, "leak", "after loading: %zu blocks live, %zu owned", sim_live(), own); CHECK(sim_open_handles() == 0, "handle", "after loading: a file is open");
			if (L && (s->a[1] & 1)) { struct HarbolMap *t = C; C = L; L = t; harbol_cfg_free(&L); settle(0, C); } else harbol_cfg_free(&L); intact("loading"); break; }
		case O_RENDER: {
			struct HarbolString ref = harbol_cfg_to_str(C); if (odd(0)) CHECK(!ref.cstr && !ref.len, "cfgio:odd-float", "a number that has no text was rendered");
			sim_arm(s); struct HarbolString t = harbol_cfg_to_str(C); ft = sim_disarm(); ev("render %zu", t.len); bool same = t.len == ref.len && (!t.len || !memcmp(t.cstr, ref.cstr, t.len)); CHECK(same || (ft && !t.cstr && !t.len), "cfgio:shortened", "rendering gave %zu of %zu bytes%s", t.len, ref.len, ft ? " after running out of memory" : "");
			if (ref.cstr && !odd(0)) { CHECK(strlen(ref.cstr) == ref.len, "cfgio:render", "text of %zu bytes holds a terminator", ref.len); struct HarbolMap *L = harbol_cfg_parse_cstr(ref.cstr); CHECK(L, "cfgio:lost", "rendered text does not parse"); cm_cmp(L, 0, true, "parsing rendered text", "cfgio:roundtrip"); harbol_cfg_free(&L); } else CHECK(M[0].nk == 0 || odd(0), "cfgio:shortened", "nothing rendered");
			harbol_string_clear(&t); harbol_string_clear(&ref); intact("rendering"); break; }
		case O_FRESH: harbol_cfg_free(&C); CHECK(!C, "cfgio:free", "dangling"); harbol_cfg_free(&C); sim_leak_check("after freeing the configuration", 0); start(); break;
		case O_CLOBBER: sim_file_put(fn[umod(s->a[0], 3)], s->blob, s->bloblen); break;
		}
		sim_state(cfg_digest(C));
	}
	harbol_cfg_free(&C); sim_leak_check("at the end", 0);
}
static void gen(Rng *r, Plan *p) {
	p->cfg[C_BUF] = rng_p(r, 1, 3) ? 1 + (int64_t)rng_below(r, 64) : rng_p(r, 3, 4) ? -1 : 0; if (rng_p(r, 1, 3)) p->cfg[C_CHUNK] = 1 + (int64_t)rng_below(r, 300);
	int n = 1 + rng_len(r) / 2; bool wild = rng_p(r, 2, 3), oddf = rng_p(r, 1, 8), big = rng_p(r, 1, 20), huge = big && rng_p(r, 1, 4); if (big && n > 24) n = 24;
	for (int i = 0; i < n; i++) {
		int k = (int)rng_below(r, 20), op = k < 9 ? O_ADD : k < 12 ? O_SECTION : k < 15 ? O_SAVE : k < 17 ? O_RENDER : k < 19 ? O_LOAD : oddf ? O_ODDFLOAT : rng_p(r, 1, 2) ? O_CLOBBER : O_FRESH; if (big && rng_p(r, 1, 6)) op = rng_p(r, 1, 2) ? O_BULK : O_CHAIN;
		uint8_t b[300]; size_t kl = 0, l = 0; int64_t ke = big && rng_p(r, 1, 5) ? rng_big(r, 12) : 0, ve = big && rng_p(r, 1, 3) ? rng_big(r, huge ? 13 : 11) : 0; if (op == O_BULK || op == O_CHAIN) ke = ve = 0; step_key(r, b, &kl, wild); l = kl; if (op == O_ADD) l += rng_text(r, b + kl, 150);
		Step *s = plan_add(p, op, 6, (int64_t)rng_below(r, 60), op == O_BULK || op == O_CHAIN ? rng_big(r, huge ? 8 : 6) : (int64_t)rng_below(r, 64), (int64_t)kl, (int64_t)rng_below(r, 4096), ke, ve); if (op == O_ADD || op == O_SECTION) step_blob(s, b, l); else if (op == O_CLOBBER) { l = rng_text(r, b, 200); step_blob(s, b, l); }
	}
	plan_add(p, O_SAVE, 4, (int64_t)rng_below(r, 3), (int64_t)1, (int64_t)0, (int64_t)0);
}
const Scenario sc_cfgio = { "cfgio", ops, cfgs, gen, exec, ALLOCF | FM(F_OPEN) | FM(F_WRITE) | FM(F_CLOSE) | FM(F_CRASH) | FM(F_READ) | FM(F_SEEK), 6, 300000000 };
