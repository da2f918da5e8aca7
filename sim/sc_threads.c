/* C17: caller threads working on their own objects, preempted at any basic block, against the same program run alone in a fresh process. */
#include "cfgmodel.h"
#include "array/array.h"
#include "deque/deque.h"
#include "tree/tree.h"
#include "tuple/tuple.h"
#include "variant/variant.h"
#include "bytebuffer/bytebuffer.h"
#include "math/math_parser.h"
#include "msg_span/msg_span.h"
#include "msg_sys/msg_sys.h"
#include "allocators/objpool/objpool.h"
#include "allocators/region/region.h"
#include "allocators/bistack/bistack.h"
#include "allocators/mempool/mempool.h"
enum { O_MAP, O_STR, O_ARRAY, O_DEQUE, O_TREE, O_BYTES, O_CFGTEXT, O_CFGSET, O_CFGFILE, O_MATH, O_LEX, O_RAND, O_ALLOC, O_MSG, O_UTF8, O_TUPLE, O_MAP2, O_STR2, O_ARRAY2, O_DEQUE2, O_TREE2, O_BYTES2, O_VARIANT, O_LEX2, O_RUNES, O_FILE, O_POOLS2, O_MSG2, O_LINKS, O_BUFS, NOPS };
static const char *const ops[] = { "map", "string", "array", "deque", "tree", "bytes", "cfg_text", "cfg_set", "cfg_file", "math", "lex", "rand", "pools", "message", "utf8", "tuple", "map2", "string2", "array2", "deque2", "tree2", "bytes2", "variant", "lex2", "runes", "file", "pools2", "message2", "links", "buffers", NULL };
enum { C_ALLOC, C_TASKS, C_ORDER };
static const char *const cfgs[] = { "alloc", "tasks", "order", NULL };
void shim_mt_seed(void *st, uint64_t seed); uint64_t shim_mt_next(void *st); double shim_mt_f64(void *st); size_t shim_mt_size(void);
uint8_t *shim_buffer_from_binary(char const *p, size_t *n); char *shim_buffer_from_text(char const *p, size_t *n);
bool shim_multi_calloc(size_t n, size_t k, void **b, const size_t *es); bool shim_multi_recalloc(size_t n, size_t o, size_t k, void **b, const size_t *es); void shim_multi_cleanup(size_t k, void **b); bool shim_multi_shift(size_t *len, size_t i, size_t amount, size_t k, void **b, const size_t *es);
bool shim_shift(void *b, size_t *len, size_t i, size_t es, size_t amount); void *shim_recalloc(void *b, size_t n, size_t es, size_t o); void *shim_dup_data(const void *d, size_t n); char *shim_dup_cstr(size_t n, const char *s); char *shim_sprintf(int form, const char *s, long a, double f);
void *shim_get_a(const void *p); void *shim_get_b(const void *p); void shim_s_head(void *h, void *n, void *t); void shim_s_tail(void *h, void *n, void *t); void shim_d_head(void *h, void *n, void *t); void shim_d_tail(void *h, void *n, void *t); void shim_d_remove(void *h, void *n, void *t);
#define MT 4
typedef struct { int id; struct HarbolMap map; struct HarbolString str; struct HarbolArray arr; struct HarbolDeque dq; struct HarbolTree *tree; struct HarbolByteBuf bb; struct HarbolMap *cfg; struct HarbolVariant va; void *nodes[12][4], *lh, *lt, *dh, *dt; bool inl[12], ind[12]; uint64_t mt[800]; struct HarbolObjPool op; struct HarbolRegion rg; struct HarbolBiStack bs; struct HarbolMemPool mp; uint8_t opb[512], rgb[512], bsb[512], mpb[2048]; uint64_t h; int nlog; } Task;
static Task tk[MT]; static uint64_t lg[3][MT][MAXSTEPS]; static int nlg[3][MT]; static const Plan *gp; static int pass;
static void L(Task *t, uint64_t v) { t->h = mix64(t->h * 31 + v); }
static void Lb(Task *t, const void *d, size_t n) { const uint8_t *b = d; L(t, n); for (size_t i = 0; i < n; i++) t->h = t->h * 1099511628211ull ^ b[i]; }
static void Lf(Task *t, long double f) { char b[5200]; snprintf(b, sizeof b, "%La", f); Lb(t, b, strlen(b)); }
static const char *const docs[] = {
	"'a' : 1, 'b' : { 'c' : 'text', 'd' : [1, 2.5, 3, 4] }, 'e' : true", "'deep' : { 'deeper' : { 'deepest' : { 'x' : 1.25, 's' : \"q\" } } }, 'z' : null", "'<enum> k' : iota, '<enum> l' : iota, 'c' : c[0xff, 1, 2, 3]", "'m' : { 'v' : v[1.5, 2, 3, 4], 'col' : c[9, 8, 7, 6] }, 'o' : 0o17, 'h' : 0xFF", "'broken' : { 'a' : [1, 2", "", "'u' : 'caf\\u00e9 \\x41\\n', 'n' : -12.5, 'arr' : 0b101, 'e' : 1e3", "'w' : { 'one' : 1, 'two' : { 'three' : 3 }, 'four' : { 'five' : { 'six' : 6 } } }" };
static const char *const exprs[] = { "1 + 2 * 3", "-(4 ^ 2) / 3", "sin(1) + cos[2] * x", "((((1.5))))", "x * y - floor(2.9)", "2 ^ 3 ^ 2", "1 / 0", "3 +", "0x1F + 0b11", "ln(10) * radians(180) - degrees(1)" };
static void vars(char const n[], size_t nl, floatmax_t *v, HarbolMathFunc **f, void *d, size_t dl, bool *isf) { (void)f; (void)dl; (void)isf; Task *t = d; if (nl == 1 && *n == 'x') *v = 3 + t->id; else if (nl == 1 && *n == 'y') *v = 0.5L * (t->id + 1); else harbol_math_default_var_func(n, nl, v, f, NULL, 0, isf); sim_task_yield(); }
static void cfglog(Task *t, struct HarbolMap *c) {
	L(t, c != NULL); if (!c) return; L(t, cfg_digest(c));
	static const char *const paths[] = { "a", "b.c", "deep.deeper.deepest.x", "m.v", "w.four.five.six", "k", "l", "n" };
	for (int i = 0; i < 8; i++) { intmax_t *x = harbol_cfg_get_int(c, paths[i]); floatmax_t *f = harbol_cfg_get_float(c, paths[i]); L(t, x ? (uint64_t)*x : 7); if (f) Lf(t, *f); L(t, (uint64_t)harbol_cfg_get_type(c, paths[i])); }
}
#include "threads_more.h"
static void run_step(Task *t, const Step *s) {
	int64_t a = s->a[0], b = s->a[1], c = s->a[2]; char nm[32]; uint64_t v = mix64((uint64_t)c + 5); char txt[200]; size_t tn = s->bloblen < 150 ? s->bloblen : 150; memcpy(txt, s->blob ? (char *)s->blob : "", tn); txt[tn] = 0;
	switch (s->op) {
	case O_MAP: { char k[16]; snprintf(k, sizeof k, "key%" PRId64, b % 24); size_t kl = strlen(k) + 1;
		switch (umod(a, 5)) { case 0: case 1: L(t, harbol_map_insert(&t->map, k, kl, &v, 1 + umod(c, 8))); break; case 2: L(t, harbol_map_key_rm(&t->map, k, kl)); break; case 3: L(t, harbol_map_rehash(&t->map, 1 + umod(b, 64))); break; default: L(t, harbol_map_has_key(&t->map, k, kl)); }
		L(t, t->map.len); for (size_t i = 0; i < t->map.len; i++) { Lb(t, t->map.keys[i], t->map.keylens[i]); Lb(t, t->map.datum[i], t->map.datalens[i]); void *g = harbol_map_key_get(&t->map, t->map.keys[i], t->map.keylens[i]); L(t, g == t->map.datum[i]); } break; }
	case O_STR: { switch (umod(a, 9)) { case 0: L(t, harbol_string_add_cstr(&t->str, txt)); break; case 1: if (t->str.len < 3000) L(t, harbol_string_format(&t->str, b & 1, "%d|%s|%5.2f", (int)c, txt, (double)b / 7) + 3u); break; case 2: L(t, harbol_string_replace_cstr(&t->str, "a", "bb", umod(b, 9))); break; case 3: L(t, harbol_string_trim_spaces(&t->str)); break; case 4: L(t, harbol_string_upper(&t->str)); break; case 5: L(t, harbol_string_reverse(&t->str)); break; case 6: { size_t o[8]; L(t, harbol_string_cstr_offsets(&t->str, "b", o, 8)); L(t, harbol_string_count_cstr(&t->str, "b")); break; } case 7: { int x = 0; char w[40] = ""; if (t->str.cstr) L(t, (uint64_t)harbol_string_scan(&t->str, "%d|%20s", &x, w)); L(t, (uint64_t)x); break; } default: L(t, harbol_string_copy_cstr(&t->str, txt)); L(t, harbol_string_is_palindrome(&t->str)); }
		if (t->str.len > 4000) harbol_string_clear(&t->str); Lb(t, t->str.cstr ? t->str.cstr : "", t->str.len); break; }
	case O_ARRAY: { uint32_t e = (uint32_t)v; switch (umod(a, 6)) { case 0: case 1: if (harbol_array_full(&t->arr)) L(t, harbol_array_grow(&t->arr, 4)); L(t, harbol_array_insert(&t->arr, &e, 4)); break; case 2: L(t, harbol_array_del_by_index(&t->arr, umod(b, t->arr.len + 1), 4)); break; case 3: L(t, harbol_array_del_by_range(&t->arr, umod(b, t->arr.len + 1), 4, umod(c, 4))); break; case 4: L(t, harbol_array_shrink(&t->arr, 4, b & 1)); break; default: L(t, harbol_array_index_of(&t->arr, &e, 4, 0)); } Lb(t, t->arr.table ? (void *)t->arr.table : "", t->arr.len * 4); break; }
	case O_DEQUE: { uint64_t o = 0; switch (umod(a, 4)) { case 0: L(t, harbol_deque_append(&t->dq, &v, 8)); break; case 1: L(t, harbol_deque_prepend(&t->dq, &v, 8)); break; case 2: L(t, harbol_deque_pop_front(&t->dq, &o, 8)); L(t, o); break; default: L(t, harbol_deque_pop_back(&t->dq, &o, 8)); L(t, o); } L(t, harbol_deque_count(&t->dq)); break; }
	case O_TREE: if (t->tree) { switch (umod(a, 3)) { case 0: if (t->tree->kids.len < 20) L(t, harbol_tree_insert_val(t->tree, &v, 1 + umod(c, 8))); break; case 1: L(t, harbol_tree_rm_index(t->tree, umod(b, t->tree->kids.len + 1))); break; default: L(t, harbol_tree_set(t->tree, txt, tn + 1)); } L(t, harbol_tree_len(t->tree)); for (size_t i = 0; i < t->tree->kids.len; i++) { struct HarbolTree *q = harbol_tree_get_node_by_index(t->tree, i); Lb(t, q->data, q->len); } } break;
	case O_BYTES: { switch (umod(a, 5)) { case 0: L(t, harbol_bytebuffer_insert_cstr(&t->bb, txt)); break; case 1: L(t, harbol_bytebuffer_insert_int32(&t->bb, (uint32_t)v)); break; case 2: L(t, harbol_bytebuffer_del(&t->bb, umod(b, t->bb.len + 1), umod(c, 30))); break; case 3: L(t, harbol_bytebuffer_insert_zeros(&t->bb, umod(b, 40))); break; default: { struct HarbolByteBuf o = harbol_bytebuffer_make(); L(t, harbol_bytebuffer_copy(&o, &t->bb)); Lb(t, o.table ? (void *)o.table : "", o.len); harbol_bytebuffer_clear(&o); } } Lb(t, t->bb.table ? (void *)t->bb.table : "", t->bb.len); break; }
	case O_CFGTEXT: { struct HarbolMap *m = harbol_cfg_parse_cstr(docs[umod(a, 8)]); cfglog(t, m); if (m) { struct HarbolString o = harbol_cfg_to_str(m); Lb(t, o.cstr ? o.cstr : "", o.len); harbol_string_clear(&o); if (b & 1) { if (t->cfg) harbol_cfg_free(&t->cfg); t->cfg = m; } else harbol_cfg_free(&m); } break; }
	case O_CFGSET: if (t->cfg) { static const char *const paths[] = { "a", "b.c", "b.d", "deep.deeper.deepest.x", "z", "m.v", "n", "w.one" }; const char *q = paths[umod(b, 8)]; switch (umod(a, 7)) { case 0: L(t, harbol_cfg_set_int(t->cfg, q, c, true)); break; case 1: L(t, harbol_cfg_set_cstr(t->cfg, q, txt, true)); break; case 2: L(t, harbol_cfg_set_float(t->cfg, q, (floatmax_t)c / 8, b & 8)); break; case 3: L(t, harbol_cfg_set_to_null(t->cfg, q)); break; case 4: Lf(t, harbol_cfg_calc_math(t->cfg, q, vars, t, 1)); break; case 5: { struct HarbolString o = harbol_cfg_to_str(t->cfg); Lb(t, o.cstr ? o.cstr : "", o.len); harbol_string_clear(&o); break; } default: { struct HarbolMap *sec = harbol_cfg_get_section(t->cfg, b & 8 ? "b" : "deep.deeper"); L(t, sec ? sec->len : 99); } } cfglog(t, t->cfg); } break;
	case O_CFGFILE: if (t->cfg) { snprintf(nm, sizeof nm, "t%d.cfg", t->id); L(t, harbol_cfg_build_file(t->cfg, nm, b & 1)); struct HarbolMap *m = harbol_cfg_parse_file(nm); cfglog(t, m); if (m) harbol_cfg_free(&m); } break;
	case O_MATH: Lf(t, harbol_math_parse_expr(exprs[umod(a, 10)], vars, t, sizeof *t)); break;
	case O_LEX: { static const char *const nums[] = { "0x1F.8p3", "0777", "0b1011", "123'456", "1.5e-7f", "12_34", "0xZZ", "9", "1e+", "0o17" }; struct HarbolString o = {0}; char const *e = NULL; bool fl = false; const char *n = nums[umod(b, 10)]; switch (umod(a, 5)) { case 0: L(t, lex_c_style_number(n, &e, &o, &fl)); break; case 1: L(t, lex_go_style_number(n, &e, &o, &fl)); break; case 2: { static const char *const ss[] = { "\"esc \\n \\x41 \\u00e9 end\" tail", "'\\u20ac\\U0001F600\\101'x", "\"\\u0416\\t\\\\\"", "'open", "\"a\\qz\"" }; n = ss[umod(c, 5)]; L(t, lex_c_style_str(n, &e, &o)); break; } case 3: n = c & 1 ? "ident_9 + 1" : "_x$"; L(t, lex_c_style_identifier(n, &e, &o)); break; default: n = txt; L(t, lex_until(n, &e, &o, ',')); } L(t, e ? (uint64_t)(e - n) : 999); L(t, fl); Lb(t, o.cstr ? o.cstr : "", o.len); harbol_string_clear(&o); break; }
	case O_RAND: if (umod(a, 8) == 0) shim_mt_seed(t->mt, (uint64_t)b); for (size_t i = 0, n = umod(c, 10) == 9 ? 640 + umod(b, 200) : umod(c, 40); i <= n; i++) { L(t, shim_mt_next(t->mt)); if (i % 5 == 0) Lf(t, shim_mt_f64(t->mt)); } break;
	case O_ALLOC: { void *q = NULL; switch (umod(a, 6)) { case 0: q = harbol_objpool_alloc(&t->op); L(t, q ? (uint64_t)((uint8_t *)q - t->opb) : 1u << 20); if (q && (b & 1)) harbol_objpool_free(&t->op, q); break; case 1: q = harbol_region_alloc(&t->rg, 1 + umod(b, 24)); L(t, q ? (uint64_t)((uint8_t *)q - t->rgb) : 1u << 20); L(t, harbol_region_remaining(&t->rg)); break; case 2: q = b & 1 ? harbol_bistack_alloc_front(&t->bs, 1 + umod(c, 40)) : harbol_bistack_alloc_back(&t->bs, 1 + umod(c, 40)); L(t, q ? (uint64_t)((uint8_t *)q - t->bsb) : 1u << 20); break; case 3: harbol_bistack_reset_front(&t->bs); L(t, harbol_bistack_get_margins(t->bs)); break; default: q = harbol_mempool_alloc(&t->mp, 1 + umod(b, 120)); L(t, q ? (uint64_t)((uint8_t *)q - t->mpb) : 1u << 20); if (q && (c & 1)) L(t, harbol_mempool_free(&t->mp, q)); L(t, harbol_mempool_mem_remaining(&t->mp)); } if (q && umod(a, 6) < 3) memset(q, t->id, 1); break; }
	case O_MSG: { SimFile *f; FILE *fp = sim_sink(&f); size_t cnt = (size_t)t->id * 10; uint32_t ln = (uint32_t)umod(b, 99); struct HarbolMsgSpan ms = {0}; bool r = harbol_msg_span_init(&ms, "one\ntwo\n\nfour", false, b & 1); L(t, r); if (r) { struct HarbolTokenSpan sp = { 1, 1 + (uint32_t)umod(c, 4), 2, 2 + (uint32_t)umod(b, 9) }; L(t, harbol_msg_span_add_label(&ms, sp, COLOR_RED, '^', COLOR_BLUE, "%s!", txt)); L(t, harbol_msg_span_add_note(&ms, NULL, "note %d", t->id)); harbol_msg_span_emit_to_stream(&ms, &cnt, fp, "f.c", "err", NULL, COLOR_RED, &ln, NULL, "msg %d", (int)c); } harbol_msg_span_clear(&ms); harbol_write_msg(&cnt, fp, "f", "w", COLOR_RED, &ln, NULL, "%s", txt); fflush(fp); L(t, cnt); Lb(t, f->d ? (void *)f->d : "", f->len); sim_fclose(fp); sim_sink_free(f); break; }
	case O_UTF8: { static const char *const us[] = { "h\xC3\xA9llo \xE2\x98\x9D \xF0\x9F\x98\x80", "\xD0\x96\xD0\xB8", "plain", "\xF0\x9F\x98\x81\xE2\x82\xAC" }; const char *u = us[umod(b, 4)]; size_t n = 0, k = 0; int32_t *r = utf8_cstr_to_rune(u, strlen(u), &n); L(t, n); if (r) { Lb(t, r, n * 4); char *q = rune_to_utf8_cstr(r, &k); if (q) { Lb(t, q, k); sim_free(q); } sim_free(r); } struct HarbolString o = {0}; static const int32_t rs[] = { 'A', 0xE9, 0x20AC, 0x1F600, 0x416, 0xA0 }; for (int i = 0; i < 4; i++) L(t, write_utf8_str(&o, rs[umod(a + i * (c | 1), 6)])); Lb(t, o.cstr ? o.cstr : "", o.len); harbol_string_clear(&o); break; }
	case O_TUPLE: { size_t sz[4] = { 1 + umod(a, 9), 8, 1 + umod(b, 17), 4 }; bool ok = false; struct HarbolTuple q = harbol_tuple_create(4, sz, c & 1, &ok); L(t, ok); if (ok) { uint8_t z[32]; memset(z, (int)v, 32); for (size_t i = 0; i < 4; i++) L(t, harbol_tuple_set(&q, i, z) != NULL); L(t, harbol_tuple_len(&q)); for (size_t i = 0; i < 4; i++) Lb(t, harbol_tuple_get(&q, i), harbol_tuple_field_size(&q, i)); } harbol_tuple_clear(&q); break; }
	default: run_more(t, s);
	}
}
static void setup(Task *t, int id) {
	memset(t, 0, sizeof *t); t->id = id; bool ok; harbol_map_init(&t->map, 4); harbol_deque_init(&t->dq, 4); t->arr = harbol_array_make(4, 2, &ok); uint64_t z = 1; t->tree = harbol_tree_new(&z, 8); shim_mt_seed(t->mt, 77 + (uint64_t)id);
	harbol_objpool_init_from_buffer(&t->op, t->opb, 24, 16); t->rg = harbol_region_make_from_buffer(t->rgb, sizeof t->rgb); t->bs = harbol_bistack_make_from_buffer(t->bsb, sizeof t->bsb); harbol_mempool_init_from_buffer(&t->mp, t->mpb, sizeof t->mpb);
}
static void teardown(Task *t) { harbol_map_clear(&t->map); harbol_string_clear(&t->str); harbol_array_clear(&t->arr); harbol_deque_clear(&t->dq); if (t->tree) harbol_tree_free(&t->tree); harbol_bytebuffer_clear(&t->bb); if (t->cfg) harbol_cfg_free(&t->cfg); if (t->va.data) harbol_variant_clear(&t->va); memset(&t->va, 0, sizeof t->va); }
static void body(int id, void *arg) {
	Task *t = arg; int me = t->id, n = 0; (void)id; int nt = (int)umod(gp->cfg[C_TASKS], MT) + 1;
	for (size_t i = 0; i < gp->n; i++) { const Step *s = &gp->steps[i]; if ((int)umod(s->task, (size_t)nt) != me) continue;
		sim_step(gp, i); sim_arm(s); run_step(t, s); if (sim_disarm()) { L(t, 0xF); if (pass == 0) sim_probe(0); }
		lg[pass][me][n] = t->h; if (pass && n < nlg[0][me]) CHECK(t->h == lg[0][me][n], pass == 1 ? "threads:history" : "threads:interference", "%s by thread %d gave another result %s than alone in a fresh process", ops[s->op], me, pass == 1 ? "after the other programs ran" : "while other threads ran"); n++; }
	nlg[pass][me] = n;
}
static void begin(int t) { char nm[32]; snprintf(nm, sizeof nm, "t%d.cfg", t); sim_file_rm(nm); setup(&tk[t], t); }
static void exec(const Plan *p) {
	gp = p; int nt = (int)umod(p->cfg[C_TASKS], MT) + 1; memset(nlg, 0, sizeof nlg);
	pass = 0; for (int t = 0; t < nt; t++) { sim_lib_pristine(); sim_srand(1); begin(t); body(0, &tk[t]); teardown(&tk[t]); sim_leak_check("after a thread's program ran alone", 0); }
	pass = 1; sim_lib_pristine(); for (int q = 0; q < nt; q++) { int t = (int)umod(p->cfg[C_ORDER] + (p->cfg[C_ORDER] & 8 ? nt * 9 - q : q), (size_t)nt); begin(t); body(0, &tk[t]); teardown(&tk[t]); sim_leak_check("after a thread's program ran after others", 0); }
	if (nt > 1) { pass = 2; sim_lib_pristine(); void *args[MT]; for (int t = 0; t < nt; t++) { begin(t); args[t] = &tk[t]; }
		uint64_t s0 = sim_switches(); sim_tasks_run(p, nt, body, args); if (sim_switches() - s0 > 20) sim_probe(1);
		for (int t = 0; t < nt; t++) { CHECK(nlg[2][t] == nlg[0][t], "threads:interference", "thread %d did not finish its program", t); teardown(&tk[t]); } sim_leak_check("after the threads finished", 0); }
	uint64_t h = 0; for (int t = 0; t < nt; t++) h = mix64(h ^ tk[t].h); sim_state(h); CHECK(sim_open_handles() == 0, "threads:handle", "file left open");
}
static void gen(Rng *r, Plan *p) {
	int nt = rng_p(r, 1, 10) ? 1 : (int)rng_range(r, 2, MT); p->cfg[C_TASKS] = nt - 1; p->cfg[C_ORDER] = (int64_t)rng_below(r, 16);
	unsigned w[NOPS]; rng_weights(r, w, NOPS); w[0] -= 2; if (rng_p(r, 1, 3)) { int a = (int)rng_below(r, NOPS), b = (int)rng_below(r, NOPS); for (int i = 0; i < NOPS; i++) w[i] = i == a || i == b; if (rng_p(r, 1, 2)) w[b] = 0; } w[O_CFGTEXT]++;
	int n = (int)rng_range(r, 4, rng_p(r, 1, 6) ? 90 : 30); char b[64];
	for (int i = 0; i < n; i++) { int op = rng_op(r, w, NOPS); Step *s = plan_add(p, op, 3, (int64_t)rng_below(r, 60), (int64_t)rng_below(r, 200), (int64_t)rng_below(r, 1000)); if (!s) break; s->task = (int)rng_below(r, (uint64_t)nt);
		if (op == O_STR || op == O_TREE || op == O_BYTES || op == O_CFGSET || op == O_LEX || op == O_MSG || op > O_TUPLE) { size_t bl = rng_below(r, 40); for (size_t q = 0; q < bl; q++) b[q] = (char)rng_range(r, 32, 126); step_blob(s, b, bl); } }
	uint64_t q = rng_p(r, 1, 4) ? 8 : rng_p(r, 1, 2) ? 150 : 3000; size_t m = rng_p(r, 1, 5) ? 900 : rng_below(r, 200); for (size_t i = 0; i < m; i++) p->sched[p->nsched++] = (uint32_t)(rng_below(r, rng_p(r, 1, 10) ? 5000 : q) << 4 | rng_below(r, 16));
}
const Scenario sc_threads = { "threads", ops, cfgs, gen, exec, ALLOCF, 2 };
