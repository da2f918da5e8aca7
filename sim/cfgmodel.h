/* Reference model of configurations: a tree of typed settings, our own writer, builder and comparison. */
#include "sim.h"
#include <math.h>
#include "cfg/cfg.h"
enum { K_INCLUDE = 20, K_IOTA, K_IOTAG, K_MATH, K_FILE, K_BAD };  /* document-only nodes; the others are enum HarbolCfgType */
typedef struct { int type, parent, first, last, next, nk, mark; const uint8_t *key; size_t kl; const uint8_t *s; size_t sl; long double f; intmax_t i; bool b; uint8_t c[4]; float v[4]; size_t start, end; } Node;
#define MAXN 200000
#define MAXKEY 6000
static Node M[MAXN]; static int Mn;
static uint8_t TA[48u << 20]; static size_t TAn;   /* keys and texts of the model */
static const uint8_t *cm_keep(const void *d, size_t n) { if (TAn + n + 1 > sizeof TA) sim_violation("sim-internal", "text full"); uint8_t *p = TA + TAn; if (n) memcpy(p, d, n); p[n] = 0; TAn += n + 1; return p; }
static size_t cm_cap = 60000; static void cm_reset(void) { Mn = 0; TAn = 0; }
/* blob bytes followed by 'ext' further plain characters */
static const uint8_t *cm_long(const uint8_t *b, size_t n, int64_t ext, size_t cap, size_t *out) {
	size_t e = umod(ext, cap + 1); static uint8_t t[200000]; if (!e || TAn + e > cm_cap) { *out = n; return b; } if (n) memcpy(t, b, n); const uint8_t *q = sim_bytes((uint64_t)ext, e);
	for (size_t i = 0; i < e; i++) { uint8_t c = (uint8_t)(33 + q[i] % 94); t[n + i] = c == '<' || c == '.' || c == '\\' ? 'm' : q[i] == 7 ? '\n' : c; } *out = n + e; return t;
}
static int cm_root(void) { if (Mn >= MAXN) sim_violation("sim-internal", "model full"); Node *n = &M[Mn]; memset(n, 0, sizeof *n); n->type = HarbolCfgType_Map; n->end = SIZE_MAX; n->parent = n->first = n->last = n->next = -1; return Mn++; }
static int cm_find(int sec, const void *k, size_t kl) { for (int x = M[sec].first; x >= 0; x = M[x].next) if (M[x].kl == kl && !memcmp(M[x].key, k, kl)) return x; return -1; }
static int cm_add(int sec, const void *k, size_t kl) {
	if (Mn >= MAXN || kl > MAXKEY || kl == 0 || cm_find(sec, k, kl) >= 0) return -1;
	int x = cm_root(); M[x].key = cm_keep(k, kl); M[x].kl = kl; M[x].parent = sec; M[x].type = HarbolCfgType_Null;
	if (M[sec].last >= 0) M[M[sec].last].next = x; else M[sec].first = x; M[sec].last = x; M[sec].nk++; return x;
}
static int cm_depth(int x) { int d = 0; while (M[x].parent >= 0) { x = M[x].parent; d++; } return d; }
/* the i-th section of the tree under root, root included */
static int cm_section(int root, int64_t sel) { int list[400], n = 0; list[n++] = root; for (int q = 0; q < n; q++) for (int x = M[list[q]].first; x >= 0; x = M[x].next) if (M[x].type == HarbolCfgType_Map && n < 400) list[n++] = x; return list[umod(sel, (size_t)n)]; }
static int cm_any(int root, int64_t sel) { static int list[MAXN]; int n = 0; list[n++] = root; for (int q = 0; q < n; q++) for (int x = M[list[q]].first; x >= 0; x = M[x].next) if (n < MAXN) list[n++] = x; return n == 1 ? -1 : list[1 + umod(sel, (size_t)n - 1)]; }
static bool cm_marker(const uint8_t *d, size_t n) { static const char *const m[] = { "<math", "<enum>", "<ENUM>", "<include>", "<INCLUDE>" }; for (int j = 0; j < 5; j++) for (size_t i = 0; i + strlen(m[j]) <= n; i++) if (!memcmp(d + i, m[j], strlen(m[j]))) return true; return false; }
/* values drawn from small integers so that plans stay readable */
static void cm_value(Node *n, int type, int64_t a, const uint8_t *blob, size_t bl) {
	uint64_t h = mix64((uint64_t)a); n->type = type;
	switch (type) {
	case HarbolCfgType_String: n->sl = bl; if (bl < 5000 && cm_marker(blob, bl)) n->sl = 0; n->s = cm_keep(blob, n->sl); break;
	case HarbolCfgType_Float: { static const long double e[] = { 0, 1, -1, 0.5L, 1e6L, -354200.125L, 1e-7L, 3.14159265L, 1e18L, -1e30L, 123456.789012L, -0.0L }; n->f = a & 1 ? e[umod(a >> 1, 12)] : (long double)((int64_t)(h >> 20)) / 1048576.0L * (h & 1 ? 1 : -1); break; }
	case HarbolCfgType_Int: { static const intmax_t e[] = { 0, 1, -1, 7, 8, 9, 255, INT32_MAX, INT32_MIN, INTMAX_MAX, INTMAX_MIN, 1000000 }; n->i = a & 1 ? e[umod(a >> 1, 12)] : (intmax_t)(h >> (h & 63)) * (a & 2 ? 1 : -1); break; }
	case HarbolCfgType_Bool: n->b = a & 1; break;
	case HarbolCfgType_Color: memcpy(n->c, &h, 4); break;
	case HarbolCfgType_Vec4D: for (int k = 0; k < 4; k++) { int32_t q = (int32_t)(mix64(h + (uint64_t)k) >> 40); n->v[k] = k == 3 ? (float)q * 1e6f : (float)q / (k ? 256.0f : 3.0f) * (q & 1 ? 1 : -1); } break;
	default: break;
	}
}
static bool same_f(long double a, long double b, bool rounded) { static char x[5200], y[5200]; if (!rounded) return !memcmp(&a, &b, 10); snprintf(x, sizeof x, "%Lf", a); snprintf(y, sizeof y, "%Lf", b); return !strcmp(x, y); }
static const char *cm_name(int x) { static char b[300]; size_t k = 0; int path[400], n = 0; while (x >= 0 && M[x].parent >= 0 && n < 400) { path[n++] = x; x = M[x].parent; } while (n-- && k < 200) { Node *q = &M[path[n]]; for (size_t i = 0; i < q->kl && k < 200; i++) k += (size_t)snprintf(b + k, sizeof b - k, q->key[i] > 32 && q->key[i] < 127 ? "%c" : "\\x%02x", q->key[i]); if (n) b[k++] = '.'; } b[k] = 0; return b; }
/* every stored setting must be a well-formed variant; used on any result, intact or not */
static size_t cfg_blocks;      /* live blocks a well-formed configuration owns */
static uint64_t cfg_walk(const struct HarbolMap *m, int depth) {
	uint64_t h = mix64(m->len + 77); size_t sz; cfg_blocks++; 
	CHECK(sim_is_live(m, &sz) && m->len <= m->cap, "cfg:shape", "map %p holds %zu of %zu", (void *)m, m->len, m->cap);
	if (m->datum) cfg_blocks += 6;
	for (size_t i = 0; i < m->len; i++) {
		const struct HarbolVariant *v = (const void *)m->datum[i]; size_t kl = m->keylens[i]; CHECK(sim_is_live(v, &sz) && sz >= sizeof *v && m->datalens[i] == sizeof *v, "cfg:shape", "entry %zu is no setting", i);
		CHECK(kl >= 1 && m->keys[i][kl - 1] == 0, "cfg:shape", "key of entry %zu is not terminated", i); for (size_t k = 0; k < kl; k++) h = mix64(h ^ m->keys[i][k]);
		cfg_blocks += 2 + (v->data != NULL); h = mix64(h ^ (uint64_t)v->tag << 40 ^ v->size);
		static const size_t want[] = { 1, sizeof(void *), sizeof(void *), sizeof(floatmax_t), sizeof(intmax_t), sizeof(bool), 4, 16 };
		CHECK(v->tag >= 0 && v->tag <= HarbolCfgType_Vec4D && v->size == want[v->tag] && v->data, "cfg:shape", "setting %zu has tag %d, %zu bytes%s", i, v->tag, v->size, v->data ? "" : " and no data");
		if (v->tag == HarbolCfgType_Map) { struct HarbolMap *s = *(struct HarbolMap **)v->data; CHECK(s, "cfg:shape", "section without map"); if (depth < 4000) h = mix64(h ^ cfg_walk(s, depth + 1)); }
		else if (v->tag == HarbolCfgType_String) { struct HarbolString *s = *(struct HarbolString **)v->data; CHECK(sim_is_live(s, &sz), "cfg:shape", "string setting without string"); cfg_blocks += 1 + (s->cstr != NULL); CHECK(!s->cstr || (sim_is_live(s->cstr, &sz) && sz > s->len && s->cstr[s->len] == 0), "cfg:shape", "string setting of %zu bytes is not terminated", s->len); CHECK(s->cstr || !s->len, "cfg:shape", "string of %zu bytes without text", s->len); for (size_t k = 0; k < s->len; k++) h = mix64(h ^ (uint8_t)s->cstr[k]); }
		else for (size_t k = 0; k < v->size && k < (v->tag == HarbolCfgType_Float ? 10 : v->size); k++) h = mix64(h ^ v->data[k]);
	}
	return h;
}
static uint64_t cfg_digest(const struct HarbolMap *m) { cfg_blocks = 0; return cfg_walk(m, 0); }
static void cm_cmp1(const struct HarbolMap *m, size_t i, int x, bool rounded, const char *w, const char *cls);
/* settings that come from another file (mark 9) may have been left out, whole */
static bool cm_absent; static bool cm_may_miss(const struct HarbolMap *m, size_t i, int x) { return cm_absent && M[x].mark == 9 && (i >= m->len || m->keylens[i] != M[x].kl + 1 || memcmp(m->keys[i], M[x].key, M[x].kl)); }
static void cm_cmp(const struct HarbolMap *m, int sec, bool rounded, const char *w, const char *cls) {
	if (cm_absent) { size_t i = 0; for (int x = M[sec].first; x >= 0; x = M[x].next) if (!cm_may_miss(m, i, x)) { CHECK(i < m->len, cls, "%s: setting '%s' is missing", w, cm_name(x)); cm_cmp1(m, i++, x, rounded, w, cls); } CHECK(i == m->len, cls, "%s: section '%s' has %zu settings, expected %zu", w, cm_name(sec), m->len, i); return; }
	CHECK(m->len == (size_t)M[sec].nk, cls, "%s: section '%s' has %zu settings, expected %d", w, cm_name(sec), m->len, M[sec].nk);
	size_t i = 0; for (int x = M[sec].first; x >= 0; x = M[x].next) cm_cmp1(m, i++, x, rounded, w, cls);
}
/* text torn at byte 'cut': every setting written completely before it is there, and nothing that was not written, except that a number may be cut short */
static void cm_cmp_torn(const struct HarbolMap *m, int sec, size_t cut, const char *w, const char *cls) {
	size_t i = 0; int x = M[sec].first;
	for (; x >= 0 && i < m->len; x = M[x].next, i++) {
		const struct HarbolVariant *v = (const void *)m->datum[i]; Node *n = &M[x]; bool num = n->type == HarbolCfgType_Int || n->type == HarbolCfgType_Float;
		if (n->end <= cut || (!num && n->type != HarbolCfgType_Map)) { cm_cmp1(m, i, x, false, w, cls); continue; }
		CHECK(m->keylens[i] == n->kl + 1 && !memcmp(m->keys[i], n->key, n->kl), cls, "%s: setting %zu has another key than '%s'", w, i, cm_name(x));
		if (num) CHECK(v->tag == HarbolCfgType_Int || v->tag == HarbolCfgType_Float, cls, "%s: number '%s' has type %d", w, cm_name(x), v->tag); else { CHECK(v->tag == n->type, cls, "%s: section '%s' has type %d", w, cm_name(x), v->tag); cm_cmp_torn(*(struct HarbolMap **)v->data, x, cut, w, cls); }
	}
	CHECK(i == m->len, cls, "%s: section '%s' has %zu settings, only %d were written", w, cm_name(sec), m->len, M[sec].nk);
	for (; x >= 0; x = M[x].next) CHECK(M[x].end > cut, cls, "%s: setting '%s' is missing although all of it was there", w, cm_name(x));
}
static void cm_cmp1(const struct HarbolMap *m, size_t i, int x, bool rounded, const char *w, const char *cls) {
	Node *n = &M[x]; const struct HarbolVariant *v = (const void *)m->datum[i];
	CHECK(m->keylens[i] == n->kl + 1 && !memcmp(m->keys[i], n->key, n->kl) && m->keys[i][n->kl] == 0, cls, "%s: setting %zu of '%s' has another key than '%s'", w, i, cm_name(M[x].parent), cm_name(x));
	CHECK(v->tag == n->type, cls, "%s: setting '%s' has type %d, expected %d", w, cm_name(x), v->tag, n->type);
	switch (n->type) {
	case HarbolCfgType_Map: cm_cmp(*(struct HarbolMap **)v->data, x, rounded, w, cls); break;
	case HarbolCfgType_String: { struct HarbolString *s = *(struct HarbolString **)v->data; CHECK(s->len == n->sl && (!n->sl || !memcmp(s->cstr, n->s, n->sl)), cls, "%s: string '%s' has %zu bytes '%.40s', expected %zu", w, cm_name(x), s->len, s->cstr ? s->cstr : "", n->sl); break; }
	case HarbolCfgType_Float: CHECK(same_f(*(floatmax_t *)v->data, n->f, rounded), cls, "%s: number '%s' is %Lg, expected %Lg", w, cm_name(x), *(floatmax_t *)v->data, n->f); break;
	case HarbolCfgType_Int: CHECK(*(intmax_t *)v->data == n->i, cls, "%s: integer '%s' is %jd, expected %jd", w, cm_name(x), *(intmax_t *)v->data, n->i); break;
	case HarbolCfgType_Bool: CHECK(*(bool *)v->data == n->b, cls, "%s: flag '%s' is %d", w, cm_name(x), *(bool *)v->data); break;
	case HarbolCfgType_Color: CHECK(!memcmp(v->data, n->c, 4), cls, "%s: color '%s' differs", w, cm_name(x)); break;
	case HarbolCfgType_Vec4D: for (int k = 0; k < 4; k++) { float g; memcpy(&g, v->data + 4 * k, 4); CHECK(rounded ? same_f(g, n->v[k], true) : !memcmp(&g, &n->v[k], 4), cls, "%s: component %d of '%s' is %g, expected %g", w, k, cm_name(x), g, n->v[k]); } break;
	}
}
/* whether a tear there leaves something half written that is not a number */
static bool cm_halved(int sec, size_t cut) { for (int x = M[sec].first; x >= 0; x = M[x].next) if (M[x].start < cut && cut < M[x].end) return M[x].end != SIZE_MAX && M[x].type != HarbolCfgType_Int && M[x].type != HarbolCfgType_Float; return false; }
/* build the same settings in the library, the way the library's own users do */
static void cfg_put(struct HarbolMap *m, int x) {
	Node *n = &M[x]; bool ok = false; struct HarbolVariant v; char z = 0;
	switch (n->type) {
	case HarbolCfgType_Null: v = harbol_variant_make(&z, 1, n->type, &ok); break;
	case HarbolCfgType_Map: { struct HarbolMap *s = harbol_map_new(4); v = harbol_variant_make(&s, sizeof s, n->type, &ok); break; }
	case HarbolCfgType_String: { struct HarbolString *s = harbol_string_new(NULL); for (size_t k = 0; k < n->sl; ) { const char *c = (const char *)n->s + k; size_t l = strlen(c); if (l) { harbol_string_add_cstr(s, c); k += l; } else { harbol_string_add_char(s, 0); k++; } } v = harbol_variant_make(&s, sizeof s, n->type, &ok); break; }
	case HarbolCfgType_Float: { floatmax_t f = n->f; v = harbol_variant_make(&f, sizeof f, n->type, &ok); break; }
	case HarbolCfgType_Int: v = harbol_variant_make(&n->i, sizeof n->i, n->type, &ok); break;
	case HarbolCfgType_Bool: v = harbol_variant_make(&n->b, sizeof n->b, n->type, &ok); break;
	case HarbolCfgType_Color: v = harbol_variant_make(n->c, 4, n->type, &ok); break;
	default: v = harbol_variant_make(n->v, 16, n->type, &ok); break;
	}
	CHECK(ok && harbol_map_insert(m, n->key, n->kl + 1, &v, sizeof v), "cfg:build", "inserting '%s' failed without a fault", cm_name(x));
}
static struct HarbolMap *cfg_section(struct HarbolMap *root, int sec) {   /* the library's map of a model section */
	int path[400], n = 0; while (M[sec].parent >= 0 && n < 400) { path[n++] = sec; sec = M[sec].parent; }
	while (n--) { int x = path[n]; size_t i = 0; for (int y = M[M[x].parent].first; y != x; y = M[y].next) i++; root = *(struct HarbolMap **)((struct HarbolVariant *)root->datum[i])->data; }
	return root;
}
static void step_key(Rng *r, uint8_t *b, size_t *k, bool wild) {
	static const char *const common[] = { "a", "b", "x", "root", "key.one", "dot.", ".", "\\", "iota", "q\"q", "'s'", "name", "1", "true", "sp ace", "c[1]", "#no", "/*", "back\\slash", "a\\.b", "tab\tx" };
	*k = 0;
	if (!wild || rng_p(r, 3, 4)) { const char *c = common[rng_below(r, wild ? 21 : 4)]; memcpy(b, c, *k = strlen(c)); if (rng_p(r, 1, 3)) b[(*k)++] = (uint8_t)('a' + rng_below(r, 26)); return; }
	size_t n = 1 + rng_below(r, 30); while (*k < n) b[(*k)++] = (uint8_t)(rng_p(r, 1, 3) ? 1 + rng_below(r, 255) : 'a' + rng_below(r, 26));
}
static size_t rng_text(Rng *r, uint8_t *b, size_t max) {
	static const char *const t[] = { "", "John", "C:\\dir\\", "say \"hi\"", "it's", "line\nbreak", "tab\there", "\r", "caf\xC3\xA9", "<file>", "}", "\\", "100%s", "%n%d", "#c", "//", "\x1B[0m", "\x7F", "null", "\\n", "x\\", "<", ">", "v[1]" }; size_t k = 0; int parts = (int)rng_below(r, 4);
	for (int i = 0; i <= parts; i++) { if (rng_p(r, 1, 5)) { size_t n = rng_below(r, 40); while (n-- && k < max) b[k++] = (uint8_t)(rng_p(r, 1, 2) ? rng_below(r, 256) : 32 + rng_below(r, 95)); } else { const char *f = t[rng_below(r, 24)]; size_t l = strlen(f); if (k + l <= max) memcpy(b + k, f, l), k += l; } }
	return k;
}

/* many settings at once, or one section inside another many times */
static void cm_bulk(struct HarbolMap *C, int sec, int64_t count, int64_t id) { bool secs = id % 4 == 1; size_t n = umod(count, 300); for (size_t q = 0; q < n && Mn < 900; q++) { char k[40]; int l = snprintf(k, sizeof k, "n%" PRId64 "_%zu", id % 7, q), x = cm_add(sec, k, (size_t)l); if (x < 0) continue; cm_value(&M[x], secs ? HarbolCfgType_Map : q % 3 ? HarbolCfgType_Int : HarbolCfgType_Bool, id + (int64_t)q, NULL, 0); if (C) cfg_put(C, x); } }
static int cm_chain(struct HarbolMap *root, int sec, int64_t count) { size_t n = umod(count, 80); while (n-- && cm_depth(sec) < 120) { int x = cm_find(sec, "d", 1); if (x < 0) { x = cm_add(sec, "d", 1); if (x < 0) break; cm_value(&M[x], HarbolCfgType_Map, 0, NULL, 0); if (root) cfg_put(cfg_section(root, sec), x); } else if (M[x].type != HarbolCfgType_Map) break; sec = x; } return sec; }
/* lengths at and around powers of two */
static int64_t rng_big(Rng *r, int maxbits) { int64_t v = (int64_t)1 << (4 + rng_below(r, (uint64_t)maxbits - 3)); return v + (int64_t)rng_below(r, 9) - 4; }
