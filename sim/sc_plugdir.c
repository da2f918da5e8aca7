/* C15: plugin directory scans over simulated trees in every listing order, with links, deep nesting, and entries and directories that fail. */
#include "sim.h"
#include "plugins/plugins.h"
enum { O_ENTRY, O_SCAN, O_LINK, O_CHAIN, NOPS };
static const char *const ops[] = { "entry", "scan", "link", "chain", NULL };
enum { C_ALLOC };
static const char *const cfgs[] = { "alloc", NULL };
#define NE 4000
#define ND 1950
#define NAMEMAX 255
#define LINKMAX 3
#define SMALL 24
/* the tree: entry e lies in directory `parent`; directory 0 is the scanned one; paths are kept relative to it */
static struct { int parent, type, dirid; char name[256]; bool seen; } E[NE]; static int ne, nd, nl, dpar[ND], dep[ND]; static char dpath[ND][4200]; static uint64_t dh[ND]; static bool dhid[ND];
static uint64_t passed[32768]; static size_t npassed;
static const char *exts[] = { "so", "dll", "plug", "", NULL };
typedef struct { int n, limit, again; const char *ext; } Visit;
static uint64_t hn(const char *s, size_t n) { uint64_t h = 7; for (size_t i = 0; i < n; i++) h = (h ^ (uint8_t)s[i]) * 0x100000001b3u; return h; }
static void plain(char *o, size_t n, const char *s) { size_t k = 0; for (; *s && k + 1 < n; s++) { if (*s == '/' && k && o[k - 1] == '/') continue; if (*s == '/' && s[1] == '.' && s[2] == '/') { s++; continue; } if (*s == '/' && k && o[k - 1] == '/') continue; o[k++] = *s; } o[k] = 0; }
static bool match(const char *name, const char *ext) { const char *d = strrchr(name, '.'); return !strcmp(d ? d + 1 : "", ext); }
static bool plugin(int e, const char *ext) { return (E[e].type == 0 || E[e].type == 2 || E[e].type == 7) && match(E[e].name, ext); }
static int entry_at(int d, const char *s, size_t n) { for (int i = 0; i < ne; i++) if (E[i].parent == d && !strncmp(E[i].name, s, n) && !E[i].name[n]) return i; return -1; }
static void visit(char const path[], char const name[], void *ud) {
	Visit *v = ud; static char b[5000]; plain(b, sizeof b, path); ev("v%s", name);
	CHECK(v->n++ < v->limit, "scan:endless", "more visits than there are entries");
	CHECK(!strncmp(b, "/sim/plugs/", 11), "scan:path", "visited %s, which is not in the directory", b);
	const char *rel = b + 10, *sl = strrchr(rel, '/'); size_t dl = (size_t)(sl - rel); uint64_t h = hn(rel, dl); int d = -1, e = -1;
	for (int i = 0; i < nd; i++) if (dh[i] == h && !strncmp(dpath[i], rel, dl) && !dpath[i][dl]) { d = i; break; }
	bool direct = d >= 0;
	if (!direct && nl) { /* a path that goes through a link */
		int at = 0, again = 0; static bool in[ND]; memset(in, 0, sizeof in); in[0] = true;
		for (const char *q = rel; q < sl && at >= 0; ) { const char *z = strchr(q + 1, '/'); int x = entry_at(at, q + 1, (size_t)(z - q - 1)); at = x < 0 ? -1 : E[x].dirid; if (at >= 0) { again += in[at]; in[at] = true; } q = z; }
		CHECK(again <= v->again + sim_fired(F_STAT), "scan:cycle", "%s leads through the same directory again", b); d = at;
		uint64_t k = mix64(hn(b, strlen(b))) | 1, i = k; for (; passed[i & 32767]; i++) CHECK(passed[i & 32767] != k, "scan:repeat", "%s was visited twice", b); CHECK(npassed++ < 30000, "scan:endless", "more visits than there are paths"); passed[i & 32767] = k;
	}
	if (d >= 0) e = entry_at(d, sl + 1, strlen(sl + 1));
	CHECK(e >= 0, "scan:path", "visited %s, which is not in the directory", b);
	CHECK(!strcmp(E[e].name, name), "scan:name", "file %s was announced under the name %s", b, name);
	CHECK(E[e].type == 0 || E[e].type == 2 || E[e].type == 7, "scan:kind", "%s is not a regular file", b);
	CHECK(match(E[e].name, v->ext), "scan:extension", "%s does not have the extension '%s'", b, v->ext);
	if (direct) { CHECK(!E[e].seen, "scan:repeat", "%s was visited twice", b); E[e].seen = true; }
}
static bool inhidden(int d) { for (; d > 0; d = dpar[d]) if (dhid[d]) return true; return dhid[0]; }
static const char *full(int d, const char *nm) { static char b[2][4600]; static int k; k ^= 1; snprintf(b[k], sizeof b[k], "/sim/plugs%s%s%s", dpath[d], nm ? "/" : "", nm ? nm : ""); return b[k]; }
static bool put(int d, const char *nm, int type, int64_t dots, bool force) {
	bool isdir = type == 1 || type == 3; size_t n = strlen(nm);
	if (!n || n > NAMEMAX || strchr(nm, '/') || !strcmp(nm, ".") || !strcmp(nm, "..") || ne == NE || (isdir && (nd == ND || (!force && dep[d] >= 20)))) return false;
	if (entry_at(d, nm, n) >= 0 || strlen(dpath[d]) + n + 2 > 3790) return false;
	if (!sim_dir_listed(full(d, NULL)) && (dots & 1)) { sim_dir_add(full(d, NULL), ".", 1); sim_dir_add(full(d, NULL), "..", 1); }
	if (type < 6) sim_dir_add(full(d, NULL), nm, type);
	E[ne].parent = d; E[ne].type = type; strcpy(E[ne].name, nm); E[ne].dirid = -1; E[ne].seen = false;
	if (isdir) { if (dots & 2) sim_dir_add(full(d, nm), "..", 1); snprintf(dpath[nd], sizeof dpath[nd], "%s/%s", dpath[d], nm); dh[nd] = hn(dpath[nd], strlen(dpath[nd])); dpar[nd] = d; dep[nd] = dep[d] + 1; dhid[nd] = nm[0] == '.'; E[ne].dirid = nd; nd++; }
	ne++; return true;
}
static void exec(const Plan *p) {
	ne = nl = 0; nd = 1; dpath[0][0] = 0; dh[0] = hn("", 0); dpar[0] = -1; dep[0] = 0; dhid[0] = false;
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i]; sim_step(p, i);
		if (s->op == O_ENTRY || s->op == O_LINK) {
			int d = (int)umod(s->a[0], (size_t)nd); char nm[256]; size_t n = s->bloblen < 255 ? s->bloblen : 255; memcpy(nm, s->blob ? (char *)s->blob : "x", n); nm[n] = 0;
			if (nl && ne > 2 * SMALL) continue;
			if (s->op == O_ENTRY) { put(d, nm, (int)umod(s->a[1], 5), s->a[2], false); continue; }
			if (nl == LINKMAX || ne > SMALL) continue;
			/* a link to a directory of the tree (one around it, too), or to a file */
			int to = (int)umod(s->a[1], (size_t)nd), fi = -1; bool todir = !(s->a[2] & 4); if (!todir) { for (int q = 0; q < ne; q++) if (E[q].type == 0) { fi = q; if (umod(s->a[1], 3) == (size_t)q % 3) break; } if (fi < 0) continue; }
			if (!sim_dir_listed(full(to, NULL)) && todir && to) continue;
			if (!put(d, nm, todir ? 6 : 7, s->a[2], false)) continue;
			nl++; sim_dir_link(full(d, NULL), nm, todir ? full(to, NULL) : full(E[fi].parent, E[fi].name), todir); if (todir) E[ne - 1].dirid = to;
		} else if (s->op == O_CHAIN) {
			if (nl) continue;
			int d = (int)umod(s->a[0], (size_t)nd), n = (int)umod(s->a[1], 1151); if (ne > 40) continue; sim_probe(3);
			for (int k = 0; k < n; k++) { bool first = s->a[2] & 4; if (first) put(d, "f.so", 0, s->a[2], true); if (!put(d, "n", 1, s->a[2], true)) break; int sub = nd - 1; if (!first && (k % 7 == 0 || k < 20)) put(d, "g.so", k & 1 ? 2 : 0, s->a[2], true); d = sub; }
			put(d, "end.so", 0, s->a[2], true);
		} else {
			char arg[40]; strcpy(arg, umod(s->a[1], 9) == 0 ? "nowhere" : umod(s->a[1], 4) == 1 ? "plugs/" : umod(s->a[1], 4) == 2 ? "./plugs" : "plugs"); int x = (int)umod(s->a[0], 5);
			bool there = strcmp(arg, "nowhere") && sim_dir_listed("/sim/plugs"), deflt = x == 4; Visit v = { 0, nl ? 30000 : ne + 10, 0, deflt ? "so" : exts[x] };
			for (int q = 0; q < ne; q++) E[q].seen = false; if (npassed) memset(passed, 0, sizeof passed); npassed = 0; size_t live = sim_live();
			char ext[8]; if (!deflt) strcpy(ext, exts[x]);
			sim_arm(s); bool r = harbol_plugin_dir_open(arg, visit, &v, deflt ? NULL : ext); int f = sim_disarm(); ev("r%d n%d", r, v.n);
			CHECK(sim_open_dirs() == 0, "scan:handle", "%zu directories left open", sim_open_dirs());
			sim_leak_check("after a scan", live);
			CHECK(r || f || !there, "scan:result", "scanning failed without a fault"); CHECK(!r || there, "scan:result", "scanning a directory that cannot be opened reported success");
			if (!r) { sim_probe(0); CHECK(v.n == 0, "scan:visit", "a scan that failed to start visited %d files", v.n); continue; }
			/* everything that no fault hides was visited: one failing entry or sub-directory hides at most itself */
			int hidden = 0; for (int q = 0; q < ne; q++) if (plugin(q, v.ext) && !E[q].seen && !inhidden(E[q].parent)) hidden++;
			if (!f) CHECK(!hidden, "scan:missed", "%d of the matching files were not visited", hidden);
			else if (f == sim_fired(F_GETCWD)) CHECK(!hidden, "scan:result", "a scan that could not build its path reported success after missing %d files", hidden);
			else if (!sim_fired(F_READDIR)) {
				/* n faults hid at most n entries (each a file or a whole sub-tree): find the fewest entries that explain what is missing */
				int need = 0; static bool any[ND], miss[ND]; memset(any, 0, sizeof any); memset(miss, 0, sizeof miss);
				for (int q = 0; q < ne; q++) if (E[q].seen) for (int d = E[q].parent; d >= 0 && !any[d]; d = dpar[d]) any[d] = true;
				for (int q = 0; q < ne; q++) if (!E[q].seen && plugin(q, v.ext) && !inhidden(E[q].parent)) { int top = -1; for (int d = E[q].parent; d > 0; d = dpar[d]) if (!any[d]) top = d; if (top < 0) need++; else if (!miss[top]) { miss[top] = true; need++; } }
				CHECK(need <= f, "scan:missed", "%d entries or sub-directories were skipped because of %d faults", need, f); if (need) sim_probe(1);
			} else sim_probe(2);
			if (npassed) sim_probe(4);
			uint64_t h = (uint64_t)v.n; for (int q = 0; q < ne; q++) h = h * 3 + (uint64_t)E[q].seen; sim_state(mix64(h + (uint64_t)x));
		}
	}
}
static const char *nms[] = { "a", "b", "lib", "plugin", "mod", "x.so", "so", ".so", "a.b", "dir", ".hid", "p.so", "q.dll", "z" };
static void gen(Rng *r, Plan *p) {
	int scans = (int)rng_range(r, 1, 3);
	for (int k = 0; k < scans; k++) {
		int n = k ? (int)rng_range(r, 0, 4) : rng_p(r, 1, 8) ? (int)rng_range(r, 0, 60) : (int)rng_range(r, 0, 14); int deep = rng_p(r, 1, 3), longn = rng_p(r, 1, 20), narrow = rng_p(r, 1, 12), links = rng_p(r, 1, 3) ? 4 : 100000; if (!k && rng_p(r, 1, 100)) n = (int)rng_range(r, 60, 330);
		for (int i = 0; i < n; i++) {
			char b[260]; int t = rng_p(r, 1, 4) ? 1 : rng_p(r, 1, 8) ? 4 : rng_p(r, 1, 6) ? 2 : rng_p(r, 1, 9) ? 3 : 0; size_t bl = (size_t)snprintf(b, sizeof b, "%s", nms[rng_below(r, sizeof nms / sizeof *nms)]);
			if (rng_p(r, 2, 3)) bl += (size_t)snprintf(b + bl, sizeof b - bl, "%" PRId64, rng_range(r, 0, 40)); if (rng_p(r, 3, 4)) { const char *e = exts[rng_p(r, 1, 2) ? 0 : rng_below(r, 4)]; bl += (size_t)snprintf(b + bl, sizeof b - bl, ".%s", e); } if (rng_p(r, 1, longn ? 2 : 30)) { size_t want = rng_p(r, 1, 3) ? 252 - rng_below(r, 3) : 100 + rng_below(r, 150); while (bl < want) b[bl++] = 'L'; memcpy(b + bl, ".so", 3); bl += 3; }
			Step *s = plan_add(p, O_ENTRY, 3, (int64_t)(narrow ? (uint64_t)(t == 1 ? i : i - (int)rng_below(r, 2) * 3) : deep ? rng_below(r, 1 + (uint64_t)i) : rng_below(r, 3)), (int64_t)t, (int64_t)rng_below(r, 4)); if (s) step_blob(s, b, bl);
			if (n <= 14 && rng_p(r, 1, links)) { char lb[40]; size_t ll = (size_t)snprintf(lb, sizeof lb, rng_p(r, 1, 3) ? "l%d.so" : "l%d", i + 100 * k); Step *l = plan_add(p, O_LINK, 3, (int64_t)rng_below(r, 8), (int64_t)rng_below(r, 8), (int64_t)(rng_below(r, 4) + (rng_p(r, 1, 3) ? 4 : 0))); if (l) step_blob(l, lb, ll); }
		}
		if (!k && rng_p(r, 1, 1500)) plan_add(p, O_CHAIN, 3, (int64_t)rng_below(r, 4), rng_range(r, rng_p(r, 1, 2) ? 1000 : 1, 1150), (int64_t)rng_below(r, 8));
		plan_add(p, O_SCAN, 2, (int64_t)(rng_p(r, 1, 2) ? 0 : rng_below(r, 5)), (int64_t)rng_below(r, 36));
	}
}
const Scenario sc_plugdir = { "plugdir", ops, cfgs, gen, exec, ALLOCF | FM(F_STAT) | FM(F_OPENDIR) | FM(F_READDIR) | FM(F_GETCWD), 4, 30000000 };
