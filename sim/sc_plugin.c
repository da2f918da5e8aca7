/* C14: plugin lifecycle against a simulated loader, file times and allocator. */
#include "sim.h"
#include "plugins/plugins.h"
enum { O_LOAD, O_LOOKUP, O_CHANGED, O_TOUCH, O_INSTALL, O_REMOVE, O_RELOAD, O_CLEAR, O_ERR, NOPS };
static const char *const ops[] = { "load", "lookup", "changed", "touch", "install", "remove", "reload", "clear", "error", NULL };
enum { C_ALLOC, C_LONGPATH };
static const char *const cfgs[] = { "alloc", "longpath", NULL };
#define NP 3
#define NL 3
typedef struct { bool path, reloaded; int lib; void *h; int64_t ver, mtime, alt; } Mod;
static Mod M[NP]; static struct HarbolPlugin P[NP]; static char lpath[NL][500];
static struct { bool there, file; int64_t ver, mtime; unsigned mask; } L[NL];
static struct { int n; struct HarbolPlugin *pl; void *h, *ud; bool rel, load; int64_t ver; const char *path; unsigned seen; } cb[8]; static int ncb; static int cbmode;
static void note(struct HarbolPlugin *pl, void *ud, bool rel, bool load) {
	CHECK(ncb < 8, "plugin:callback", "callbacks invoked over and over");
	cb[ncb].pl = pl; cb[ncb].h = pl->dll; cb[ncb].ud = ud; cb[ncb].rel = rel; cb[ncb].load = load; cb[ncb].ver = -1; cb[ncb].path = pl->path; cb[ncb].seen = 0;
	if (pl->dll) { CHECK(sim_dl_handle_valid(pl->dll, &cb[ncb].ver), "plugin:callback", "%s callback saw a library that is not open", load ? "load" : "unload");
		if (cbmode) for (int k = 0; k < 4; k++) { void *a = harbol_plugin_get_obj(pl, sim_syms[k]); if (a) { CHECK(a == sim_dl_sym_addr(cb[ncb].ver, k), "plugin:lookup", "lookup inside a callback reached another library"); cb[ncb].seen |= 1u << k; } } }
	ncb++;
}
static void on_load(struct HarbolPlugin *pl, void *ud, bool rel) { note(pl, ud, rel, true); }
static void on_unload(struct HarbolPlugin *pl, void *ud, bool rel) { note(pl, ud, rel, false); }
static void verify(const char *after) {
	size_t open = 0, live = 0; uint64_t h = 0;
	for (int w = 0; w < NP; w++) {
		Mod *m = &M[w]; int64_t v;
		if (m->h) { open++; CHECK(P[w].dll == m->h && sim_dl_handle_valid(m->h, &v) && v == m->ver, "plugin:handle", "%s: plugin %d lost its library", after, w); }
		else CHECK(P[w].dll == NULL, "plugin:handle", "%s: plugin %d refers to a library that is not loaded", after, w);
		if (m->path) { live++; CHECK(P[w].path && sim_is_live(P[w].path, NULL) && !strcmp(P[w].path, lpath[m->lib]), "plugin:path", "%s: plugin %d lost its path", after, w); }
		else CHECK(P[w].path == NULL, "plugin:path", "%s: plugin %d still has a path", after, w);
		h = h * 31 + (m->h ? 1 + (uint64_t)m->ver : 0) * 7 + m->path + (m->lib << 1);
	}
	CHECK(sim_dl_open() == open, "plugin:balance", "%s: %zu libraries open, %zu owned by plugins", after, sim_dl_open(), open);
	CHECK(sim_live() == live, "leak", "%s: %zu blocks live, %zu owned", after, sim_live(), live);
	sim_state(mix64(h));
}
static void chk(int i, const char *what, int w, void *ud, bool rel, bool load, void *h, int64_t ver) {
	CHECK(i < ncb, "plugin:callback", "%s: %s callback not invoked", what, load ? "load" : "unload");
	CHECK(cb[i].load == load && cb[i].pl == &P[w] && cb[i].ud == ud && cb[i].rel == rel, "plugin:callback", "%s: callback %d was %s reloading=%d with %s", what, i, cb[i].load ? "load" : "unload", cb[i].rel, cb[i].ud == ud ? "its userdata" : "other userdata");
	CHECK(cb[i].h == h && (!h || cb[i].ver == ver), "plugin:callback", "%s: %s callback saw another library", what, load ? "load" : "unload");
	CHECK(!h || cb[i].path != NULL, "plugin:callback", "%s: callback saw no path", what);
}
static void unloadcbs(int w, const char *what, bool rel, bool unl, void *ud, int *at) {
	if (!unl) return;
	if (M[w].h) { chk(*at, what, w, ud, rel, false, M[w].h, M[w].ver); ++*at; }
	else if (*at < ncb && !cb[*at].load) { CHECK(cb[*at].h == NULL, "plugin:callback", "%s: unload callback saw a library", what); ++*at; }   /* nothing loaded: left open */
}
static void doclear(int w, bool unl, void *ud) {
	ncb = 0; size_t closed = sim_dl_closed(); int at = 0;
	harbol_plugin_clear(&P[w], unl ? on_unload : NULL, ud); unloadcbs(w, "clear", false, unl, ud, &at);
	CHECK(ncb == at, "plugin:callback", "clear invoked %d callbacks, expected %d", ncb, at);
	CHECK(sim_dl_closed() - closed == (M[w].h ? 1u : 0u), "plugin:balance", "clear closed %zu libraries", sim_dl_closed() - closed);
	memset(&M[w], 0, sizeof M[w]);
}
static void exec(const Plan *p) {
	memset(M, 0, sizeof M); memset(P, 0, sizeof P); memset(L, 0, sizeof L);
	for (int i = 0; i < NL; i++) { snprintf(lpath[i], sizeof lpath[i], "./plug%d/", i); size_t n = strlen(lpath[i]); for (int64_t q = 0; q < p->cfg[C_LONGPATH] && n < 490; q++) lpath[i][n++] = (char)('a' + q % 26); strcpy(lpath[i] + n, ".so"); }
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i);
		int w = (int)umod(s->a[0], NP), l = (int)umod(s->a[1], NL), f = 0; Mod *m = &M[w]; bool r = false; struct HarbolPlugin *pl = &P[w];
		bool lf = s->a[2] & 1, uf = s->a[2] & 2; cbmode = s->a[2] & 4; void *ud = (void *)&M[s->a[2] >> 3 & 1]; ncb = 0; int at = 0;
		size_t opened = sim_dl_opened(), closed = sim_dl_closed();
		switch (s->op) {
		case O_INSTALL: L[l].there = L[l].file = true; L[l].ver = (int64_t)umod(s->a[2], 1000); L[l].mask = (unsigned)umod(s->a[3], 8); L[l].mtime = s->a[4]; sim_lib_put(lpath[l], L[l].ver, L[l].mask); sim_file_put(lpath[l], "ELF", 3)->mtime = L[l].mtime; break;
		case O_TOUCH: if (L[l].file) { L[l].mtime = umod(s->a[3], 4) ? L[l].mtime + s->a[4] : s->a[4]; sim_file(lpath[l])->mtime = L[l].mtime; } break;
		case O_REMOVE: if (s->a[3] & 1) { L[l].there = false; sim_lib_rm(lpath[l]); } if (s->a[3] & 2) { L[l].file = false; sim_file_rm(lpath[l]); } break;
		case O_LOAD: {
			if (m->path || m->h) break;
			char arg[500]; strcpy(arg, lpath[l]); sim_arm(s); r = harbol_plugin_load(pl, arg, lf ? on_load : NULL, ud); f = sim_disarm(); ev("r%d", r); memset(arg, '#', sizeof arg - 1);
			bool can = L[l].there && L[l].file;
			CHECK(r || f || !can, "plugin:load", "loading failed without a fault"); CHECK(!r || can, "plugin:load", "loading something that is not there reported success");
			if (r) { CHECK(!sim_fired(F_STAT) && !sim_fired(F_ALLOC) && !sim_fired(F_ALLOC_ALL), "plugin:load", "loading reported success although a part of it failed");
				CHECK(pl->dll && sim_dl_opened() - opened == 1 && sim_dl_closed() == closed, "plugin:load", "load opened %zu libraries", sim_dl_opened() - opened);
				m->h = pl->dll; m->path = true; m->lib = l; m->ver = L[l].ver; m->mtime = L[l].mtime; m->reloaded = false;
				if (lf) { chk(0, "load", w, ud, false, true, m->h, m->ver); at = 1; } }
			else { sim_probe(0); char const *e = harbol_plugin_get_err(pl); CHECK(e && pl->err != HarbolPluginErrNone, "plugin:error", "a failed load recorded no error"); bool bad = !L[l].file || sim_fired(F_STAT) || sim_fired(F_ALLOC) || sim_fired(F_ALLOC_ALL), nl = !L[l].there || sim_fired(F_DLOPEN); if (bad != nl) CHECK(pl->err == (bad ? HarbolPluginErrBadPath : HarbolPluginErrLibLoadFail), "plugin:error", "a failed load recorded error %d", (int)pl->err); }
			CHECK(ncb == at, "plugin:callback", "load invoked %d callbacks, expected %d", ncb, at);
			break; }
		case O_RELOAD: {
			bool had = m->h != NULL; int64_t want = 0; (void)had;
			sim_arm(s); r = harbol_plugin_reload(pl, lf ? on_load : NULL, uf ? on_unload : NULL, ud); f = sim_disarm(); ev("r%d", r);
			if (!m->path) { CHECK(!r, "plugin:reload", "reloading a plugin that has no path reported success"); CHECK(ncb == 0, "plugin:callback", "callbacks for a plugin with no path"); CHECK(pl->err == HarbolPluginErrNoPath, "plugin:error", "a reload without a path recorded error %d", (int)pl->err); break; }
			CHECK(r || f || !L[m->lib].there, "plugin:reload", "reloading failed without a fault"); CHECK(!r || L[m->lib].there, "plugin:reload", "reloading something that is not there reported success");
			/* a failed reload may leave the old library loaded or nothing loaded; what it left shows in the handle */
			if (!r && pl->dll && pl->dll == m->h) { CHECK(pl->err != HarbolPluginErrNone, "plugin:error", "a failed reload recorded no error"); break; }
			unloadcbs(w, "reload", true, uf, ud, &at);
			if (m->h) CHECK(sim_dl_closed() - closed == 1, "plugin:balance", "reload closed %zu libraries", sim_dl_closed() - closed);
			m->h = NULL;
			if (r) { want = L[m->lib].ver; CHECK(pl->dll && sim_dl_opened() - opened == 1, "plugin:reload", "reload opened %zu libraries", sim_dl_opened() - opened);
				m->h = pl->dll; m->ver = want; m->reloaded = true; m->alt = L[m->lib].mtime; if (lf) { chk(at, "reload", w, ud, true, true, m->h, m->ver); at++; } }
			else { sim_probe(1); CHECK(pl->err == HarbolPluginErrCantReload, "plugin:error", "a failed reload recorded error %d", (int)pl->err); }
			CHECK(ncb == at, "plugin:callback", "reload invoked %d callbacks, expected %d", ncb, at);
			break; }
		case O_LOOKUP: { int k = (int)umod(s->a[1], 4); sim_arm(s); void *a = harbol_plugin_get_obj(pl, sim_syms[k]); f = sim_disarm();
			if (!m->h) { CHECK(!a, "plugin:lookup", "a lookup without a library found something"); CHECK(pl->err == HarbolPluginErrNoLibLoaded, "plugin:error", "a lookup without a library recorded error %d", (int)pl->err); break; }
			int64_t v = -1; sim_dl_handle_valid(m->h, &v);
			if (a) { CHECK(a == sim_dl_sym_addr(m->ver, k), "plugin:lookup", "the lookup reached another library"); CHECK(pl->err == HarbolPluginErrNone, "plugin:error", "a lookup that found its object left error %d", (int)pl->err); }
			else { /* which symbols this version has is recorded by the loader */ bool has = sim_dl_has_sym(m->h, k); CHECK(!has || f, "plugin:lookup", "a symbol the library has was not found"); }
			CHECK(!a || sim_dl_has_sym(m->h, k), "plugin:lookup", "a symbol the library does not have was found"); break; }
		case O_CHANGED: {
			sim_arm(s); r = harbol_plugin_changed(pl); f = sim_disarm(); ev("r%d", r);
			if (!m->path) { CHECK(!r, "plugin:changed", "a plugin with no path reported a change"); CHECK(pl->err == HarbolPluginErrNoPath, "plugin:error", "a change check with no path recorded error %d", (int)pl->err); break; }
			if (!L[m->lib].file || sim_fired(F_STAT)) { CHECK(!r, "plugin:changed", "a change was reported although the file could not be examined"); break; }
			bool want = m->mtime != L[m->lib].mtime;
			bool open = m->reloaded && r == (m->alt != L[m->lib].mtime);   /* whether a reload counts as seeing the change is left open */
			CHECK(r == want || open, "plugin:changed", "change reported %d, file time %" PRId64 ", last seen %" PRId64, r, L[m->lib].mtime, m->mtime);
			if (want) sim_probe(2);
			m->mtime = L[m->lib].mtime; m->reloaded = false; break; }
		case O_CLEAR: doclear(w, uf, ud); break;
		case O_ERR: { char const *e = harbol_plugin_get_err(pl); CHECK(e && *e, "plugin:error", "no error text"); struct HarbolPlugin o = {0}; o.err = (int)umod(s->a[3], 6); char const *oe = harbol_plugin_get_err(&o); CHECK((strcmp(e, oe) == 0) == (o.err == pl->err), "plugin:error", "errors %d and %d read '%s' and '%s'", (int)pl->err, (int)o.err, e, oe); break; }
		}
		verify(ops[s->op]);
	}
	for (int w = 0; w < NP; w++) { doclear(w, w & 1, NULL); doclear(w, false, NULL); verify("final clear"); }
	CHECK(sim_dl_opened() == sim_dl_closed(), "plugin:balance", "%zu loads, %zu closes", sim_dl_opened(), sim_dl_closed());
	sim_leak_check("after the plugins were cleared", 0);
}
static int64_t mt(Rng *r) { switch (rng_below(r, 6)) { case 0: return 0; case 1: return -rng_range(r, 1, 100000); case 2: return 0xFFFFFFFFll + rng_range(r, 0, 3); case 3: return 0x7FFFFFFFll + rng_range(r, 0, 3); default: return 1700000000 + rng_range(r, 0, 3); } }
static int64_t dl(Rng *r) { switch (rng_below(r, 6)) { case 0: return 1; case 1: return -1; case 2: return (int64_t)1 << 32; case 3: return -(int64_t)((uint64_t)1 << 32); case 4: return 0; default: return rng_range(r, -5000, 5000); } }
static void gen(Rng *r, Plan *p) {
	p->cfg[C_LONGPATH] = rng_p(r, 1, 3) ? rng_range(r, 1, 480) : 4;
	for (int l = 0; l < NL; l++) if (rng_p(r, 5, 6)) plan_add(p, O_INSTALL, 5, (int64_t)0, (int64_t)l, rng_range(r, 0, 999), rng_range(r, 0, 7), mt(r));
	unsigned w[NOPS]; rng_weights(r, w, NOPS); if (w[O_CLEAR] > 2) w[O_CLEAR] = 2; if (w[O_REMOVE] > 1) w[O_REMOVE] = 1; bool one = rng_p(r, 1, 2);
	int n = rng_len(r) + 3;
	for (int i = 0; i < n; i++) {
		int op = rng_op(r, w, NOPS); int64_t e = 0, c = rng_range(r, 0, 15), d = rng_range(r, 0, 7);
		if (op == O_INSTALL) { c = rng_range(r, 0, 999); e = mt(r); } if (op == O_TOUCH) e = dl(r); if (op == O_REMOVE) d = rng_range(r, 1, 3);
		plan_add(p, op, 5, (int64_t)(one ? rng_p(r, 1, 6) : rng_below(r, NP)), (int64_t)(one && rng_p(r, 3, 4) ? 0 : rng_below(r, 4)), c, d, e);
	}
}
const Scenario sc_plugin = { "plugin", ops, cfgs, gen, exec, ALLOCF | FM(F_STAT) | FM(F_DLOPEN) | FM(F_DLSYM) | FM(F_DLCLOSE), 3, 200000 };
