#define _GNU_SOURCE
#include "sim.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <dirent.h>
#include <ctype.h>
#include <sanitizer/asan_interface.h>

/* ====================================================================== */
/* PRNG                                                                    */
uint64_t mix64(uint64_t x) {
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}
const uint8_t *sim_bytes(uint64_t id, size_t n) {
	static uint8_t *pool; enum { SPAN = 65536, MAXB = 196608 };
	if (!pool) { uint8_t *b = malloc(SPAN + MAXB); for (size_t i = 0; i < SPAN + MAXB; i += 8) { uint64_t v = mix64(i ^ 0xb17e5); memcpy(b + i, &v, 8); } pool = b; }
	if (n > MAXB) abort();
	return pool + mix64(id ^ 0x51b) % SPAN;
}
uint64_t rng_u64(Rng *r) { r->s += 0x9E3779B97F4A7C15ull; return mix64(r->s); }
uint64_t rng_below(Rng *r, uint64_t n) { return n ? rng_u64(r) % n : 0; }
int64_t rng_range(Rng *r, int64_t lo, int64_t hi) { return lo + (int64_t)rng_below(r, (uint64_t)(hi - lo) + 1); }
bool rng_p(Rng *r, unsigned num, unsigned den) { return rng_below(r, den) < num; }

const char *const fault_names[F_NKINDS] = {
	"alloc", "alloc_all", "open", "read", "eof", "grow", "seek", "write", "close", "crash",
	"stat", "opendir", "readdir", "getcwd", "dlopen", "dlsym", "dlclose"
};

/* ====================================================================== */
/* shared report + statistics                                              */
#define NPROBES 64
#define TABN (1u << 20)
typedef struct {
	/* identification of the run in progress */
	uint64_t cur_index; int cur_var; int cur_nf; struct { int step; Fault f; } cur_f[16];
	uint64_t chunk_first;
	/* violation */
	int set; char cls[128]; char msg[1024]; int step; uint64_t loghash;
	/* statistics */
	uint64_t runs, base_runs, faulted_runs, steps, blocks, allocs, switches, sim_seconds, sweeps;
	uint64_t fired[F_NKINDS], armed[F_NKINDS], seen[F_NKINDS];
	uint64_t probes[NPROBES];
	uint64_t cov_new;
	uint64_t distinct_runs, distinct_states, distinct_nontrivial;
	uint64_t max_blocks;
} Shared;
static Shared *S;
typedef struct { uint64_t runs[TABN], states[TABN]; uint8_t cov[1 << 16]; } Tables;
static Tables *T;

static bool tab_add(uint64_t *t, uint64_t h) {
	if (!h) h = 1;
	size_t i = (size_t)(mix64(h) & (TABN - 1));
	for (unsigned n = 0; n < 64; n++, i = (i + 1) & (TABN - 1)) {
		uint64_t v = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
		if (v == h) return false;
		if (v == 0) {
			uint64_t z = 0;
			if (__atomic_compare_exchange_n(&t[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
			if (z == h) return false;
		}
	}
	return false;   /* table crowded: undercount */
}

/* ====================================================================== */
/* event log                                                               */
bool sim_verbose;
static uint64_t g_log;
static uint64_t g_nevents;
static void log_mix(const void *d, size_t n) {
	const uint8_t *p = d; uint64_t h = g_log;
	while (n >= 8) { uint64_t v; memcpy(&v, p, 8); h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 29; p += 8; n -= 8; }
	uint64_t v = n; for (size_t i = 0; i < n; i++) v = (v << 8) | p[i];
	h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 32;
	g_log = h;
}
void ev(const char *fmt, ...) {
	char b[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (n < 0) n = 0;
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	log_mix(b, (size_t)n); g_nevents++;
	if (sim_verbose) { fputs(b, stdout); fputc('\n', stdout); fflush(stdout); }
}
void ev_bytes(const char *tag, const void *d, size_t n) {
	log_mix(tag, strlen(tag)); log_mix(&n, sizeof n); if (n) log_mix(d, n); g_nevents++;
	if (sim_verbose) {
		printf("%s [%zu] ", tag, n);
		for (size_t i = 0; i < n && i < 96; i++) { unsigned c = ((const uint8_t *)d)[i]; if (c >= 32 && c < 127 && c != '\\') putchar((int)c); else printf("\\x%02x", c); }
		putchar('\n'); fflush(stdout);
	}
}
void sim_state(uint64_t h) { if (T && tab_add(T->states, h)) S->distinct_states++; }
void sim_probe(int id) { if (S && id >= 0 && id < NPROBES) S->probes[id]++; }

/* ====================================================================== */
/* violations                                                              */
static int g_step = -1;
static void report(const char *cls, const char *msg) {
	if (!S->set) {
		S->set = 1; S->step = g_step; S->loghash = g_log;
		snprintf(S->cls, sizeof S->cls, "%s", cls);
		snprintf(S->msg, sizeof S->msg, "%s", msg);
	}
}
void sim_violation(const char *cls, const char *fmt, ...) {
	char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	report(cls, b);
	if (sim_verbose) { printf("VIOLATION %s at step %d: %s\n", cls, g_step, b); fflush(stdout); }
	if (getenv("SIM_ABORT")) __builtin_trap();
	_exit(10);
}
static void on_asan(const char *rep) {
	char cls[128] = "asan:unknown", msg[900];
	const char *p = strstr(rep, "AddressSanitizer: ");
	if (p) {
		p += 18; char w[64]; size_t i = 0;
		while (i < sizeof w - 1 && (isalnum((unsigned char)p[i]) || p[i] == '-')) { w[i] = p[i]; i++; }
		w[i] = 0; snprintf(cls, sizeof cls, "asan:%s", w);
	}
	snprintf(msg, sizeof msg, "memory error reported by AddressSanitizer: %s", cls);
	report(cls, msg);
}
const char *__asan_default_options(void) {
	return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:quarantine_size_mb=8:malloc_context_size=2:"
	       "handle_abort=1:handle_sigfpe=1:handle_segv=1:handle_sigbus=1:symbolize=0:detect_stack_use_after_return=1:"
	       "print_summary=0:print_legend=0:strict_string_checks=0:check_initialization_order=0:detect_odr_violation=0:abort_on_error=0";
}

/* ====================================================================== */
/* basic-block counting, coverage, preemption                              */
uint64_t sim_blocks;
static uint64_t g_block_limit = 40u * 1000 * 1000;
static bool g_tasks_on; static int64_t g_quantum;
static __thread int t_self = 0;            /* 0 main, 1.. tasks */
static void task_preempt(void);
extern char __executable_start;
void __sanitizer_cov_trace_pc(void) {
	uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
	if (T) { uint8_t *c = &T->cov[(pc * 0x9E3779B1u >> 7) & 0xFFFF]; if (!*c) *c = 1; }
	if (++sim_blocks > g_block_limit)
		sim_violation("no-progress", "no progress: more than %" PRIu64 " basic blocks executed in one run", g_block_limit);
	if (g_tasks_on && t_self > 0 && --g_quantum <= 0) task_preempt();
}

/* ====================================================================== */
/* fault arming                                                            */
#define MAXTASK 5
typedef struct { const Step *s; bool on; int step; uint32_t occ[F_NKINDS]; uint32_t fired[F_NKINDS]; } Arm;
static Arm g_arm[MAXTASK];
static uint32_t g_occ[MAXSTEPS][F_NKINDS];
static uint64_t g_run_fired;
static uint8_t *g_deliv; static size_t g_deliv_n, g_deliv_cap;

void sim_step(const Plan *p, size_t i) { (void)p; g_step = (int)i; g_arm[t_self].step = (int)i; if (S) S->steps++; }
void sim_arm(const Step *s) {
	Arm *a = &g_arm[t_self];
	memset(a->occ, 0, sizeof a->occ); memset(a->fired, 0, sizeof a->fired);
	a->s = s; a->on = true;
	if (t_self == 0) g_deliv_n = 0;
	for (int i = 0; s && i < s->nf; i++) S->armed[s->f[i].kind]++;
}
int sim_disarm(void) {
	Arm *a = &g_arm[t_self]; a->on = false; int n = 0;
	for (int k = 0; k < F_NKINDS; k++) {
		n += (int)a->fired[k];
		if (a->step >= 0 && a->step < MAXSTEPS) if (a->occ[k] > g_occ[a->step][k]) g_occ[a->step][k] = a->occ[k];
		S->seen[k] += a->occ[k];
	}
	return n;
}
int sim_fired(int kind) { return (int)g_arm[t_self].fired[kind]; }
int sim_fired_any(void) { int n = 0; for (int k = 0; k < F_NKINDS; k++) n += (int)g_arm[t_self].fired[k]; return n; }
/* one occurrence of an opportunity for `kind`; true if a planned fault fires here */
bool sim_occ(int kind, int64_t *param) {
	Arm *a = &g_arm[t_self];
	if (!a->on) return false;
	uint32_t k = ++a->occ[kind];
	for (int i = 0; a->s && i < a->s->nf; i++) {
		const Fault *f = &a->s->f[i];
		if (f->kind == kind && (int64_t)k == f->k) {
			if (param) *param = f->param;
			a->fired[kind]++; S->fired[kind]++; g_run_fired++;
			ev("fault %s #%u param %" PRId64, fault_names[kind], k, f->param);
			return true;
		}
	}
	return false;
}
/* persistent kinds keep firing once reached */
static bool occ_alloc(void) {
	Arm *a = &g_arm[t_self];
	if (!a->on) return false;
	uint32_t k = ++a->occ[F_ALLOC]; ++a->occ[F_ALLOC_ALL];
	for (int i = 0; a->s && i < a->s->nf; i++) {
		const Fault *f = &a->s->f[i];
		if ((f->kind == F_ALLOC && (int64_t)k == f->k) || (f->kind == F_ALLOC_ALL && (int64_t)k >= f->k)) {
			a->fired[f->kind]++; S->fired[f->kind]++; g_run_fired++;
			ev("fault %s #%u", fault_names[f->kind], k);
			return true;
		}
	}
	return false;
}

/* ====================================================================== */
/* allocator                                                               */
typedef struct { void *p; size_t n; } Blk;
#define BLKN (1u << 20)
static Blk *g_blk; static size_t g_live, g_allocs, g_livebytes; static uint32_t *g_used; static size_t g_nused;
static unsigned g_junk = 0xA5; static bool g_move = true;
static bool g_natural_oom;
static size_t blk_slot(const void *p) { return (size_t)(mix64((uintptr_t)p) & (BLKN - 1)); }
static void blk_put(void *p, size_t n);
static void blk_rebuild(void) {
	Blk *live = malloc((g_live + 1) * sizeof *live); size_t n = 0;
	for (size_t i = 0; i < g_nused; i++) { Blk *b = &g_blk[g_used[i]]; if (b->p != NULL && b->p != (void *)1) live[n++] = *b; b->p = NULL; }
	if (n >= BLKN / 4) sim_violation("no-progress", "more than %u live allocations", BLKN / 4);
	g_nused = 0; g_live = 0; g_livebytes = 0;
	for (size_t i = 0; i < n; i++) blk_put(live[i].p, live[i].n);
	free(live);
}
static void blk_put(void *p, size_t n) {
	size_t i = blk_slot(p), t = SIZE_MAX;
	for (;; i = (i + 1) & (BLKN - 1)) { if (g_blk[i].p == NULL) { if (t == SIZE_MAX) t = i; break; } if (g_blk[i].p == (void *)1 && t == SIZE_MAX) t = i; }
	if (g_blk[t].p == NULL) {
		if (g_nused >= BLKN / 2) { blk_rebuild(); blk_put(p, n); return; }
		g_used[g_nused++] = (uint32_t)t;
	}
	g_blk[t].p = p; g_blk[t].n = n; g_live++; g_livebytes += n;
}
static Blk *blk_get(const void *p) {
	for (size_t i = blk_slot(p); g_blk[i].p != NULL; i = (i + 1) & (BLKN - 1)) if (g_blk[i].p == p) return &g_blk[i];
	return NULL;
}
static void blk_del(Blk *b) { g_livebytes -= b->n; b->p = (void *)1; g_live--; }
static void blk_reset(void) {
	for (size_t i = 0; i < g_nused; i++) { Blk *b = &g_blk[g_used[i]]; if (b->p != NULL && b->p != (void *)1) free(b->p); b->p = NULL; }
	g_nused = 0; g_live = 0; g_livebytes = 0; g_allocs = 0;
}
#define ALLOC_LIMIT (64u << 20)
static void *raw_alloc(size_t n, bool zero) {
	g_allocs++; if (S) S->allocs++;
	if (occ_alloc()) { errno = ENOMEM; return NULL; }
	if (n > ALLOC_LIMIT || g_livebytes + n > 4 * (size_t)ALLOC_LIMIT) {
		/* a real machine refuses this too: counts as an allocation failure */
		g_arm[t_self].fired[F_ALLOC]++; if (S) S->fired[F_ALLOC]++;
		g_natural_oom = true; errno = ENOMEM; return NULL;
	}
	void *p = zero ? calloc(n ? n : 1, 1) : malloc(n ? n : 1);
	if (!p) sim_violation("sim-internal", "host out of memory");
	if (n == 0) __asan_poison_memory_region(p, 1);
	if (!zero && n) memset(p, (int)g_junk, n);
	blk_put(p, n);
	return p;
}
static void raw_free(void *p) { Blk *b = blk_get(p); if (b->n == 0) __asan_unpoison_memory_region(p, 1); blk_del(b); free(p); }
void *sim_malloc(size_t n) { return raw_alloc(n, false); }
void *sim_calloc(size_t n, size_t m) {
	size_t t; if (__builtin_mul_overflow(n, m, &t)) t = SIZE_MAX;
	return raw_alloc(t, true);
}
void sim_free(void *p) {
	if (!p) return;
	if (!blk_get(p)) sim_violation("bad-free", "free of memory that is not allocated (double free or foreign pointer)");
	raw_free(p);
}
void *sim_realloc(void *p, size_t n) {
	if (!p) return sim_malloc(n);
	Blk *b = blk_get(p);
	if (!b) sim_violation("bad-free", "realloc of memory that is not allocated");
	if (n == 0) { raw_free(p); return NULL; }
	size_t old = b->n;
	if (!g_move && n <= old && n > 0) {
		/* in-place shrink: still an opportunity for failure */
		g_allocs++; if (occ_alloc()) { errno = ENOMEM; return NULL; }
		void *q = realloc(p, n);
		blk_del(blk_get(p)); blk_put(q, n);
		return q;
	}
	void *q = raw_alloc(n, false);
	if (!q) return NULL;
	memcpy(q, p, old < n ? old : n);
	raw_free(p);
	return q;
}
void *sim_reallocarray(void *p, size_t n, size_t m) { size_t t; if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return NULL; } return sim_realloc(p, t); }
void *sim_aligned_alloc(size_t al, size_t n) { (void)al; return sim_malloc(n); }
int sim_posix_memalign(void **o, size_t al, size_t n) { (void)al; void *p = sim_malloc(n); if (!p) return ENOMEM; *o = p; return 0; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **o, const char *fmt, va_list ap) {
	va_list c; va_copy(c, ap); int n = vsnprintf(NULL, 0, fmt, c); va_end(c);
	if (n < 0) return n;
	char *p = sim_malloc((size_t)n + 1); if (!p) return -1;
	vsnprintf(p, (size_t)n + 1, fmt, ap); *o = p; return n;
}
int sim_asprintf(char **o, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vasprintf(o, fmt, ap); va_end(ap); return n; }
size_t sim_malloc_usable_size(void *p) { Blk *b = p ? blk_get(p) : NULL; return b ? b->n : 0; }
size_t sim_live(void) { return g_live; }
size_t sim_alloc_count(void) { return g_allocs; }
bool sim_is_live(const void *p, size_t *n) { Blk *b = p ? blk_get(p) : NULL; if (b && n) *n = b->n; return b != NULL; }
void sim_leak_check(const char *where, size_t expect) {
	if (g_live > expect) sim_violation("leak", "%zu block(s) of library memory still allocated %s (expected %zu)", g_live, where, expect);
}

/* ====================================================================== */
/* simulated disk                                                          */
#define MAXFILES 48
static SimFile g_files[MAXFILES]; static int g_nfiles;
typedef struct Hnd { SimFile *f; size_t pos; bool rd, wr, app, dead, full, quiet; FILE *fp; bool used; char mode[8]; uint64_t nrd; size_t len0; } Hnd;
#define MAXH 64
static Hnd g_h[MAXH]; static size_t g_open_handles;
static int64_t g_rchunk, g_bufsz; static char *g_iobuf[MAXH];
FILE *sim_stderr, *sim_stdout; static FILE *g_devnull_err, *g_devnull_out;
jmp_buf sim_crash_env; volatile bool sim_crash_on;

void sim_disk_policy(int64_t rchunk, int64_t bufsz) { g_rchunk = rchunk; g_bufsz = bufsz; }
SimFile *sim_file(const char *name) {
	while (name[0] == '.' && name[1] == '/') name += 2;
	for (int i = 0; i < g_nfiles; i++) if (g_files[i].exists && !strcmp(g_files[i].name, name)) return &g_files[i];
	return NULL;
}
static void sf_reserve(SimFile *f, size_t n) { if (n > f->cap) { size_t c = f->cap ? f->cap : 256; while (c < n) c *= 2; f->d = realloc(f->d, c); f->cap = c; } }
static SimFile *sf_new(const char *name) {
	while (name[0] == '.' && name[1] == '/') name += 2;
	SimFile *f = NULL;
	for (int i = 0; i < g_nfiles; i++) if (!strcmp(g_files[i].name, name)) { f = &g_files[i]; break; }
	if (!f) for (int i = 0; i < g_nfiles; i++) if (!g_files[i].name[0]) { f = &g_files[i]; snprintf(f->name, sizeof f->name, "%s", name); break; }
	if (!f) { if (g_nfiles == MAXFILES) return NULL; f = &g_files[g_nfiles++]; memset(f, 0, sizeof *f); snprintf(f->name, sizeof f->name, "%s", name); }
	f->exists = true; f->len = 0; f->unreadable = f->nodir = f->unseekable = f->isdir = false; f->mtime = sim_clock_now;
	return f;
}
SimFile *sim_file_put(const char *name, const void *d, size_t n) {
	SimFile *f = sf_new(name); if (!f) sim_violation("sim-internal", "too many files");
	sf_reserve(f, n + 1); if (n) memcpy(f->d, d, n);
	f->len = n; return f;
}
void sim_sink_free(SimFile *f) { f->exists = false; f->name[0] = 0; f->len = 0; }
void sim_file_rm(const char *name) { SimFile *f = sim_file(name); if (f) f->exists = false; }

static void deliver(const void *d, size_t n) {
	if (g_deliv_n + n > g_deliv_cap) { g_deliv_cap = (g_deliv_n + n) * 2 + 256; g_deliv = realloc(g_deliv, g_deliv_cap); }
	memcpy(g_deliv + g_deliv_n, d, n); g_deliv_n += n;
}
size_t sim_delivered(void) { return g_deliv_n; }
const uint8_t *sim_delivered_data(void) { return g_deliv; }

static ssize_t ck_read(void *c, char *buf, size_t n) {
	Hnd *h = c; int64_t par;
	if (h->dead) { errno = EIO; return -1; }
	if (sim_occ(F_EOF, &par)) { size_t nl = (size_t)((double)h->f->len * (double)(par % 1000) / 1000.0); if (nl < h->f->len) h->f->len = nl; }
	if (sim_occ(F_GROW, &par)) { size_t g = (size_t)(par % 64) + 1; sf_reserve(h->f, h->f->len + g); for (size_t i = 0; i < g; i++) h->f->d[h->f->len + i] = (uint8_t)('a' + (i % 26)); h->f->len += g; }
	if (h->full) { errno = EIO; return -1; }
	if (sim_occ(F_READ, &par)) { if (par == 0) h->full = true; errno = EIO; return -1; }
	if (h->f->isdir) { errno = EISDIR; return -1; }
	h->nrd++;
	size_t left = h->pos < h->f->len ? h->f->len - h->pos : 0;
	if (n > left) n = left;
	if (n && g_rchunk > 0) { size_t m = 1 + (size_t)(mix64(h->nrd * 31 + (uint64_t)g_rchunk) % (uint64_t)g_rchunk); if (n > m) n = m; }
	if (n) { memcpy(buf, h->f->d + h->pos, n); if (t_self == 0) deliver(buf, n); }
	h->pos += n;
	return (ssize_t)n;
}
static size_t g_errbytes;
static ssize_t ck_write(void *c, const char *buf, size_t n) {
	Hnd *h = c; int64_t par; size_t take = n; bool fail = false, crash = false;
	if (h->dead) return (ssize_t)n;                 /* the process is gone: data lost */
	if (h->quiet) { if (h->fp == sim_stderr) g_errbytes += n; return (ssize_t)n; }
	if (h->full) { errno = ENOSPC; return 0; }
	if (sim_occ(F_CRASH, &par)) { take = (size_t)par % (n + 1); crash = true; }
	else if (sim_occ(F_WRITE, &par)) {
		size_t k = (size_t)(par < 0 ? -par : par) % (n + 1);
		if (k == n && n) k = n - 1;
		take = k; fail = true;
		if (par >= 0) h->full = true;               /* persistent: disk full */
	}
	size_t at = h->app ? h->f->len : h->pos;
	if (take) {
		if (at + take > (8u << 20)) sim_violation("no-progress", "output file grows without bound");
		sf_reserve(h->f, at + take);
		if (at > h->f->len) memset(h->f->d + h->f->len, 0, at - h->f->len);
		memcpy(h->f->d + at, buf, take);
		if (at + take > h->f->len) h->f->len = at + take;
		h->pos = at + take;
	}
	if (crash && sim_crash_on) { ev("crash after %zu bytes", h->f->len); sim_crash_on = false; longjmp(sim_crash_env, 1); }
	if (fail) { errno = ENOSPC; return (ssize_t)take; }
	return (ssize_t)n;
}
static int ck_seek(void *c, off64_t *off, int wh) {
	Hnd *h = c; int64_t par;
	if (h->dead) return 0;
	if (h->f->unseekable || sim_occ(F_SEEK, &par)) { errno = ESPIPE; return -1; }
	int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)h->pos : (int64_t)h->f->len;
	b += *off; if (b < 0) { errno = EINVAL; return -1; }
	h->pos = (size_t)b; *off = b; return 0;
}
static int ck_close(void *c) { Hnd *h = c; h->used = false; return 0; }

static FILE *mk_stream(SimFile *f, const char *mode, bool quiet) {
	int i; for (i = 0; i < MAXH; i++) if (!g_h[i].used) break;
	if (i == MAXH) { errno = EMFILE; return NULL; }
	Hnd *h = &g_h[i]; memset(h, 0, sizeof *h);
	h->f = f; h->len0 = f->len; h->used = true; h->quiet = quiet;
	h->rd = strchr(mode, 'r') || strchr(mode, '+'); h->wr = !strchr(mode, 'r') || strchr(mode, '+'); h->app = strchr(mode, 'a') != NULL;
	cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
	FILE *fp = fopencookie(h, mode, io);
	if (!fp) { h->used = false; return NULL; }
	if (g_bufsz == 0) setvbuf(fp, NULL, _IONBF, 0);
	else if (g_bufsz > 0) { if (!g_iobuf[i]) g_iobuf[i] = malloc(65536); setvbuf(fp, g_iobuf[i], _IOFBF, (size_t)(g_bufsz > 65536 ? 65536 : g_bufsz)); }
	h->fp = fp;
	return fp;
}
FILE *sim_fopen(const char *path, const char *mode) {
	int64_t par;
	if (strlen(path) >= 500) { errno = ENAMETOOLONG; return NULL; }
	if (sim_occ(F_OPEN, &par)) { errno = (par & 1) ? EMFILE : EACCES; return NULL; }
	SimFile *f = sim_file(path);
	if (strchr(mode, 'r')) { if (!f || f->unreadable) { errno = ENOENT; return NULL; } if (f->isdir && strchr(mode, '+')) { errno = EISDIR; return NULL; } }
	else {
		if (path[0] == 0) { errno = ENOENT; return NULL; }
		if (f && (f->unreadable || f->isdir)) { errno = EACCES; return NULL; }
		if (strchr(mode, 'x') && f) { errno = EEXIST; return NULL; }
		if (!f) f = sf_new(path);
		else if (strchr(mode, 'w')) f->len = 0;
		if (!f) { errno = ENOSPC; return NULL; }
	}
	FILE *fp = mk_stream(f, mode, false);
	if (fp) g_open_handles++;
	return fp;
}
int sim_fclose(FILE *fp) {
	Hnd *h = NULL; for (int i = 0; i < MAXH; i++) if (g_h[i].used && g_h[i].fp == fp) h = &g_h[i];
	if (!h) sim_violation("bad-fclose", "fclose of a stream that is not open");
	int64_t par = 0; bool bad = sim_occ(F_CLOSE, &par);
	SimFile *f = h->f; bool wr = h->wr; size_t len0 = h->len0;
	int r = fclose(fp);
	g_open_handles--;
	if (bad) { if (par && wr && f->len > len0) f->len -= 1 + (size_t)par % (f->len - len0); errno = EIO; return EOF; }
	return r;
}
FILE *sim_freopen(const char *path, const char *mode, FILE *fp) { sim_fclose(fp); return path ? sim_fopen(path, mode) : NULL; }
FILE *sim_sink(SimFile **out) {
	static unsigned n; char nm[32]; snprintf(nm, sizeof nm, "<sink%u>", n++);
	SimFile *f = sf_new(nm); if (!f) sim_violation("sim-internal", "too many files"); *out = f; FILE *fp = mk_stream(f, "w+", false); g_open_handles++; return fp;
}
size_t sim_stderr_bytes(void) { fflush(sim_stderr); return g_errbytes; }   /* what the library wrote to the error stream so far */
size_t sim_open_handles(void) { return g_open_handles; }
int sim_remove(const char *p) { SimFile *f = sim_file(p); if (!f) { errno = ENOENT; return -1; } f->exists = false; return 0; }
int sim_rename(const char *a, const char *b) {
	SimFile *f = sim_file(a); if (!f) { errno = ENOENT; return -1; }
	SimFile *g = sim_file(b); if (g) { g->exists = false; g->name[0] = 1; }
	while (b[0] == '.' && b[1] == '/') b += 2;
	snprintf(f->name, sizeof f->name, "%s", b); return 0;
}
int sim_access(const char *p, int m) { (void)m; SimFile *f = sim_file(p); if (!f || f->unreadable) { errno = ENOENT; return -1; } return 0; }
int sim_fileno(FILE *fp) { for (int i = 0; i < MAXH; i++) if (g_h[i].used && g_h[i].fp == fp) return 1000 + i; errno = EBADF; return -1; }
static void fill_stat(struct stat *st, SimFile *f) {
	memset(st, 0, sizeof *st); st->st_mode = f->isdir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
	st->st_size = (off_t)f->len; st->st_mtime = f->mtime; st->st_nlink = 1; st->st_blksize = 4096;
}
static int stat_path(const char *p, struct stat *st, bool follow);
int sim_stat(const char *p, struct stat *st) { int64_t par; if (sim_occ(F_STAT, &par)) { errno = EIO; return -1; } return stat_path(p, st, true); }
int sim_lstat(const char *p, struct stat *st) { int64_t par; if (sim_occ(F_STAT, &par)) { errno = EIO; return -1; } return stat_path(p, st, false); }
int sim_fstat(int fd, struct stat *st) {
	int64_t par; if (sim_occ(F_STAT, &par)) { errno = EIO; return -1; }
	if (fd < 1000 || fd >= 1000 + MAXH || !g_h[fd - 1000].used) { errno = EBADF; return -1; }
	fill_stat(st, g_h[fd - 1000].f); return 0;
}

/* ====================================================================== */
/* clock and randomness                                                    */
int64_t sim_clock_now, sim_clock_covered; uint64_t sim_rand_state; int64_t sim_rand_mode;
void sim_clock_advance(int64_t s) { sim_clock_now += s; sim_clock_covered += s < 0 ? -s : s; }
time_t sim_time(time_t *t) { if (t) *t = (time_t)sim_clock_now; return (time_t)sim_clock_now; }
clock_t sim_clock(void) { return (clock_t)(sim_clock_now & 0x7fffffff); }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec = (time_t)sim_clock_now; ts->tv_nsec = 0; return 0; }
int sim_gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = (time_t)sim_clock_now; tv->tv_usec = 0; return 0; }
/* mode 0: seeded by srand; mode 1: srand ignored, per-plan stream; mode 2: constant */
static uint64_t g_srand;
void sim_srand(unsigned s) { g_srand = s; }
int sim_rand(void) {
	if (sim_rand_mode == 2) return (int)(sim_rand_state & 0x7fffffff);
	if (sim_rand_mode == 1) { sim_rand_state = mix64(sim_rand_state); return (int)(sim_rand_state & 0x7fffffff); }
	g_srand = mix64(g_srand + 77); return (int)(g_srand & 0x7fffffff);
}
long sim_random(void) { return sim_rand(); }

/* ====================================================================== */
/* directories                                                             */
#define MAXDE 11000
#define MAXDN 2100
#define MAXSD 2000
#define DPATH 4200
/* directories are numbered by their path; an entry of type 6 or 7 is a link to the path kept in g_lt */
static struct { uint64_t h; char path[DPATH]; bool listed; } g_dn[MAXDN]; static int g_ndn;
typedef struct { int dir, type, link; uint64_t nh; char name[260]; } DEnt;
static DEnt g_de[MAXDE]; static int g_nde; static size_t g_open_dirs;
static char g_lt[16][DPATH]; static int g_nlt;
typedef struct { int dir, pos; bool open; bool err; struct dirent de; } SDir;
static SDir g_sd[MAXSD]; static int g_sd_used;
static uint64_t hash_n(const char *s, size_t n) { uint64_t h = 0xcbf29ce484222325u; for (size_t i = 0; i < n; i++) h = (h ^ (uint8_t)s[i]) * 0x100000001b3u; return h; }
static void norm(char *o, size_t on, const char *s) {
	/* collapse duplicate slashes and "/./", strip trailing slash */
	size_t n = 0;
	while (s[0] == '.' && s[1] == '/') { s += 2; while (*s == '/') s++; }
	for (; *s && n + 1 < on; s++) {
		if (*s == '/' && n && o[n - 1] == '/') continue;
		if (*s == '.' && (n == 0 || o[n - 1] == '/') && (s[1] == '/' || s[1] == 0) && n) continue;
		o[n++] = *s;
	}
	while (n > 1 && o[n - 1] == '/') n--;
	o[n] = 0;
}
static int dir_n(const char *path, size_t len, bool make) {
	uint64_t h = hash_n(path, len);
	for (int i = 0; i < g_ndn; i++) if (g_dn[i].h == h && !strncmp(g_dn[i].path, path, len) && !g_dn[i].path[len]) return i;
	if (!make) return -1;
	if (g_ndn == MAXDN) sim_violation("sim-internal", "too many directories");
	g_dn[g_ndn].h = h; memcpy(g_dn[g_ndn].path, path, len); g_dn[g_ndn].path[len] = 0; g_dn[g_ndn].listed = false; return g_ndn++;
}
static DEnt *entry_n(int dir, const char *name, size_t len) {
	if (dir < 0) return NULL; uint64_t h = hash_n(name, len);
	for (int i = 0; i < g_nde; i++) if (g_de[i].dir == dir && g_de[i].nh == h && !strncmp(g_de[i].name, name, len) && !g_de[i].name[len]) return &g_de[i];
	return NULL;
}
void sim_dir_add(const char *dir, const char *name, int type) {
	if (g_nde == MAXDE) sim_violation("sim-internal", "too many directory entries");
	char b[DPATH]; norm(b, sizeof b, dir);
	DEnt *e = &g_de[g_nde++]; e->dir = dir_n(b, strlen(b), true); g_dn[e->dir].listed = true; snprintf(e->name, sizeof e->name, "%s", name); e->nh = hash_n(e->name, strlen(e->name)); e->type = type; e->link = -1;
}
void sim_dir_link(const char *dir, const char *name, const char *target, bool todir) {
	if (g_nlt == 16) sim_violation("sim-internal", "too many links");
	sim_dir_add(dir, name, todir ? 6 : 7); norm(g_lt[g_nlt], DPATH, target); g_de[g_nde - 1].link = g_nlt++;
}
/* follow the links in a path (the last part only if asked to): 0, or an error number */
static int resolve(char *b, size_t bn, bool last) {
	if (!g_nlt) return 0;
	int hops = 0; size_t at = 1;
	while (b[0] == '/' && b[at]) {
		size_t end = at; while (b[end] && b[end] != '/') end++;
		DEnt *e = (!b[end] && !last) ? NULL : entry_n(dir_n(b, at - 1, false), b + at, end - at);
		if (e && e->link >= 0) {
			if (++hops > 40) return ELOOP;
			char t[2 * DPATH]; snprintf(t, sizeof t, "%s%s", g_lt[e->link], b + end); if (strlen(t) >= bn) return ENAMETOOLONG; strcpy(b, t); at = 1; continue;
		}
		at = b[end] ? end + 1 : end;
	}
	return 0;
}
/* a buffer of more than 4 GB that takes hardly any memory: the same few pages are mapped over and over. sim_vast repeats every `unit` bytes;
   in sim_vast_blocks every block of `size` bytes has a first page of its own and shares the rest with all others */
static void *g_vast; static size_t g_vastn;
void sim_vast_end(void) { if (g_vast) munmap(g_vast, g_vastn); g_vast = NULL; }
static bool vast_map(size_t at, size_t n, int fd, size_t off) { return mmap((char *)g_vast + at, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_POPULATE, fd, (off_t)off) != MAP_FAILED; }
static int vast_new(size_t n, size_t real) {
	sim_vast_end(); void *v = mmap(NULL, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (v == MAP_FAILED) return -1;
	g_vast = v; g_vastn = n; int fd = memfd_create("vast", 0); if (fd >= 0 && ftruncate(fd, (off_t)real)) { close(fd); fd = -1; } return fd;
}
void *sim_vast(size_t n, size_t unit) {
	n = (n + unit - 1) / unit * unit; int fd = vast_new(n, unit); bool ok = fd >= 0;
	for (size_t i = 0; ok && i < n; i += unit) ok = vast_map(i, unit, fd, 0);
	if (fd >= 0) close(fd); if (!ok) sim_vast_end(); return g_vast;
}
void *sim_vast_blocks(size_t size, size_t n) {
	int fd = vast_new(size * n, 4096 * n + size); bool ok = fd >= 0;
	for (size_t i = 0; ok && i < n; i++) ok = vast_map(i * size, 4096, fd, i * 4096) && vast_map(i * size + 4096, size - 4096, fd, 4096 * n);
	if (fd >= 0) close(fd); if (!ok) sim_vast_end(); return g_vast;
}
static bool dir_known(const char *d) { int i = dir_n(d, strlen(d), false); return i >= 0 && g_dn[i].listed; }
bool sim_dir_listed(const char *d) { char b[DPATH]; norm(b, sizeof b, d); return dir_known(b); }
static int stat_path(const char *p, struct stat *st, bool follow) {
	SimFile *f = sim_file(p);
	if (f) { fill_stat(st, f); return 0; }
	char b[DPATH + 300]; norm(b, sizeof b, p);
	f = sim_file(b); if (f) { fill_stat(st, f); return 0; }
	int er = resolve(b, sizeof b, follow); if (er) { errno = er; return -1; }
	memset(st, 0, sizeof *st); uint64_t id = hash_n(b, strlen(b)); st->st_dev = 1; st->st_ino = (ino_t)(id >> 8 | 1); if (id % 6 == 0 && dir_known(b)) { /* another file system is mounted here: its numbers start over */ st->st_dev = (dev_t)(2 + (id >> 16)); st->st_ino = (ino_t)(hash_n("/sim/plugs", 10) >> 8 | 1); } st->st_nlink = 1;
	char *sl = strrchr(b, '/');
	if (sl) {
		DEnt *e = entry_n(dir_n(b, (size_t)(sl - b), false), sl + 1, strlen(sl + 1));
		if (e && (e->type == 6 || e->type == 7 || (e->type == 4 && !follow))) { st->st_mode = S_IFLNK | 0777; return 0; }
		if (e) {
			if (e->type == 4) { errno = ENOENT; return -1; }
			st->st_mode = (e->type & 1) ? S_IFDIR | 0755 : S_IFREG | 0644; if (e->type == 5) st->st_mode = S_IFIFO | 0644;
			return 0;
		}
	}
	if (dir_known(b)) { st->st_mode = S_IFDIR | 0755; return 0; }
	errno = ENOENT; return -1;
}
DIR *sim_opendir(const char *name) {
	int64_t par; char b[DPATH + 300]; norm(b, sizeof b, name);
	if (sim_occ(F_OPENDIR, &par)) { errno = EACCES; return NULL; }
	int er = resolve(b, sizeof b, true); if (er) { errno = er; return NULL; }
	if (!dir_known(b)) { errno = ENOENT; return NULL; }
	for (int i = 0; i < MAXSD; i++) if (!g_sd[i].open) {
		g_sd[i].pos = 0; g_sd[i].err = false; memset(&g_sd[i].de, 0, sizeof g_sd[i].de); g_sd[i].dir = dir_n(b, strlen(b), false); g_sd[i].open = true; g_open_dirs++; if (i >= g_sd_used) g_sd_used = i + 1;
		return (DIR *)&g_sd[i];
	}
	errno = EMFILE; return NULL;
}
struct dirent *sim_readdir(DIR *d) {
	SDir *s = (SDir *)d; int64_t par;
	if (s < g_sd || s >= g_sd + MAXSD || !s->open) sim_violation("bad-dir", "reading a directory that is not open");
	if (s->err) return NULL;
	if (sim_occ(F_READDIR, &par)) { s->err = true; errno = EIO; return NULL; }
	for (; s->pos < g_nde; s->pos++) if (g_de[s->pos].dir == s->dir) {
		DEnt *e = &g_de[s->pos++]; memset(&s->de, 0, sizeof s->de);
		snprintf(s->de.d_name, sizeof s->de.d_name, "%.255s", e->name);
		s->de.d_type = e->type == 0 ? DT_REG : e->type == 1 ? DT_DIR : e->type == 4 || e->type >= 6 ? DT_LNK : e->type == 5 ? DT_FIFO : DT_UNKNOWN; s->de.d_ino = (ino_t)s->pos + 10;
		return &s->de;
	}
	return NULL;
}
int sim_closedir(DIR *d) {
	SDir *s = (SDir *)d;
	if (s < g_sd || s >= g_sd + MAXSD || !s->open) sim_violation("bad-dir", "closing a directory that is not open");
	s->open = false; g_open_dirs--; return 0;
}
void sim_rewinddir(DIR *d) { ((SDir *)d)->pos = 0; }
size_t sim_open_dirs(void) { return g_open_dirs; }
char *sim_getcwd(char *b, size_t n) {
	int64_t par; if (sim_occ(F_GETCWD, &par)) { errno = ENOENT; return NULL; }
	const char *cwd = "/sim"; 
	if (!b) { b = sim_malloc(n ? n : 16); if (!b) return NULL; if (!n) n = 16; }
	if (n < 5) { errno = ERANGE; return NULL; }
	strcpy(b, cwd); return b;
}
char *sim_realpath(const char *p, char *o) { if (!o) { o = sim_malloc(PATH_MAX); if (!o) return NULL; } snprintf(o, PATH_MAX, "%s", p); return o; }

/* ====================================================================== */
/* dynamic loader                                                          */
#define MAXLIB 8
#define MAXDL 512
const char *const sim_syms[4] = { "plugin_run", "plugin_name", "counter", "missing_sym" };
static struct { char path[512]; int64_t version; unsigned mask; bool there; } g_lib[MAXLIB]; static int g_nlib;
static struct { bool open; int lib; int64_t version; unsigned mask; } g_dl[MAXDL]; static size_t g_ndl, g_dlopened, g_dlclosed; static char g_dlerr[64]; static bool g_dlerr_on;
static char g_dlbase[MAXDL]; static char g_symaddr[4096];
void sim_lib_put(const char *path, int64_t version, unsigned mask) {
	int i; for (i = 0; i < g_nlib; i++) if (!strcmp(g_lib[i].path, path)) break;
	if (i == g_nlib) { if (g_nlib == MAXLIB) return; g_nlib++; }
	snprintf(g_lib[i].path, sizeof g_lib[i].path, "%s", path); g_lib[i].version = version; g_lib[i].mask = mask; g_lib[i].there = true;
}
void sim_lib_rm(const char *path) { for (int i = 0; i < g_nlib; i++) if (!strcmp(g_lib[i].path, path)) g_lib[i].there = false; }
void *sim_dlopen(const char *path, int flags) {
	(void)flags; int64_t par;
	if (sim_occ(F_DLOPEN, &par)) { snprintf(g_dlerr, sizeof g_dlerr, "simulated load failure"); g_dlerr_on = true; return NULL; }
	for (int i = 0; path && i < g_nlib; i++) if (g_lib[i].there && !strcmp(g_lib[i].path, path)) {
		if (g_ndl == MAXDL) sim_violation("sim-internal", "too many dlopens");
		g_dl[g_ndl].open = true; g_dl[g_ndl].lib = i; g_dl[g_ndl].version = g_lib[i].version; g_dl[g_ndl].mask = g_lib[i].mask; g_dlopened++;
		return &g_dlbase[g_ndl++];
	}
	snprintf(g_dlerr, sizeof g_dlerr, "no such library"); g_dlerr_on = true; return NULL;
}
static int dlidx(void *h) { char *c = h; if (c < g_dlbase || c >= g_dlbase + g_ndl) return -1; return (int)(c - g_dlbase); }
int sim_dlclose(void *h) {
	int64_t par; int i = dlidx(h);
	if (i < 0 || !g_dl[i].open) sim_violation("dl-misuse", "dlclose of a handle that is not open (double close)");
	g_dl[i].open = false; g_dlclosed++;
	if (sim_occ(F_DLCLOSE, &par)) { snprintf(g_dlerr, sizeof g_dlerr, "close failed"); g_dlerr_on = true; return -1; }
	return 0;
}
void *sim_dlsym(void *h, const char *name) {
	int64_t par; int i = dlidx(h);
	if (i < 0 || !g_dl[i].open) sim_violation("dl-misuse", "dlsym on a handle that is not open");
	if (sim_occ(F_DLSYM, &par)) { g_dlerr_on = true; return NULL; }
	for (int k = 0; k < 4; k++) if (!strcmp(name, sim_syms[k]) && (g_dl[i].mask >> k & 1)) return sim_dl_sym_addr(g_dl[i].version, k);
	g_dlerr_on = true; return NULL;
}
char *sim_dlerror(void) { if (g_dlerr_on) { g_dlerr_on = false; return g_dlerr; } return NULL; }
size_t sim_dl_open(void) { size_t n = 0; for (size_t i = 0; i < g_ndl; i++) n += g_dl[i].open; return n; }
size_t sim_dl_opened(void) { return g_dlopened; }
size_t sim_dl_closed(void) { return g_dlclosed; }
void *sim_dl_sym_addr(int64_t v, int s) { return &g_symaddr[((uint64_t)v * 4 + (uint64_t)s) % sizeof g_symaddr]; }
bool sim_dl_handle_valid(void *h, int64_t *v) { int i = dlidx(h); if (i < 0 || !g_dl[i].open) return false; if (v) *v = g_dl[i].version; return true; }
bool sim_dl_has_sym(void *h, int sym) { int i = dlidx(h); return i >= 0 && g_dl[i].open && (g_dl[i].mask >> sym & 1); }

/* ====================================================================== */
/* caller threads: real threads, one runnable at a time, switches planned   */
static const Plan *g_tp; static size_t g_si; static int g_ntask; static bool g_done[MAXTASK]; static sem_t g_sem[MAXTASK];
static uint64_t g_switch_n; static TaskFn *g_tfn; static void **g_targ;
int sim_task_self(void) { return t_self; }
uint64_t sim_switches(void) { return g_switch_n; }
static void next_quantum(void) {
	if (g_si < g_tp->nsched) g_quantum = (g_tp->sched[g_si] >> 4) + 1; else g_quantum = INT64_MAX / 2;
}
static int pick_next(int self) {
	uint32_t c = g_si < g_tp->nsched ? g_tp->sched[g_si] & 15 : 0; g_si++;
	for (int i = 0; i < g_ntask; i++) { int t = 1 + (int)((c + (uint32_t)i) % (uint32_t)g_ntask); if (!g_done[t] && t != self) return t; }
	return (self > 0 && !g_done[self]) ? self : 0;
}
static void task_switch(int to) {
	int me = t_self;
	if (to == me) return;
	g_switch_n++;
	sem_post(&g_sem[to]); 
	while (sem_wait(&g_sem[me]) != 0) {}
}
static void task_preempt(void) {
	int to = pick_next(t_self); next_quantum();
	task_switch(to);
}
void sim_task_yield(void) { if (g_tasks_on && t_self > 0) task_preempt(); }
static void *task_main(void *v) {
	int id = (int)(intptr_t)v; t_self = id;
	while (sem_wait(&g_sem[id]) != 0) {}
	g_tfn(id, g_targ[id - 1]);
	g_done[id] = true;
	int to = pick_next(id); next_quantum();
	sem_post(&g_sem[to]);
	return NULL;
}
void sim_tasks_run(const Plan *p, int n, TaskFn *fn, void **args) {
	pthread_t th[MAXTASK]; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2u << 20);
	g_tp = p; g_si = 0; g_ntask = n; g_tfn = fn; g_targ = args;
	for (int i = 0; i <= n; i++) { sem_init(&g_sem[i], 0, 0); g_done[i] = false; }
	for (int i = 1; i <= n; i++) if (pthread_create(&th[i], &at, task_main, (void *)(intptr_t)i)) sim_violation("sim-internal", "pthread_create");
	g_tasks_on = true;
	int to = pick_next(0); next_quantum();
	sem_post(&g_sem[to]); while (sem_wait(&g_sem[0]) != 0) {}
	g_tasks_on = false;
	for (int i = 1; i <= n; i++) pthread_join(th[i], NULL);
	pthread_attr_destroy(&at);
}

FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_freopen64(const char *p, const char *m, FILE *f) { return sim_freopen(p, m, f); }
int sim_stat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_lstat64(const char *p, struct stat *st) { return sim_lstat(p, st); }
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
struct dirent *sim_readdir64(DIR *d) { return sim_readdir(d); }
int sim_unlink(const char *p) { return sim_remove(p); }
void sim_srandom(unsigned s) { sim_srand(s); }
void sim_cfree(void *p) { sim_free(p); }

/* ====================================================================== */
/* run lifecycle                                                           */
static void close_all(bool dead) {
	for (int i = 0; i < MAXH; i++) if (g_h[i].used && g_h[i].fp && g_h[i].fp != sim_stderr && g_h[i].fp != sim_stdout) { g_h[i].dead = dead; fclose(g_h[i].fp); g_h[i].used = false; }
	g_open_handles = 0;
}
void sim_process_dies(void) { close_all(true); blk_reset(); for (int i = 0; i < g_sd_used; i++) g_sd[i].open = false; g_open_dirs = 0; }

/* the library's writable globals, saved before the first run */
extern uint8_t __start_harbolbss[] __attribute__((weak)), __stop_harbolbss[] __attribute__((weak)), __start_harboldata[] __attribute__((weak)), __stop_harboldata[] __attribute__((weak));
static uint8_t *g_pris[2];
__attribute__((no_sanitize_address)) static void raw_copy(volatile uint8_t *d, const volatile uint8_t *s, size_t n) { for (size_t i = 0; i < n; i++) if (d[i] != s[i]) d[i] = s[i]; }
void sim_lib_pristine(void) {
	size_t n[2] = { (size_t)(__stop_harbolbss - __start_harbolbss), (size_t)(__stop_harboldata - __start_harboldata) }; uint8_t *at[2] = { __start_harbolbss, __start_harboldata };
	for (int i = 0; i < 2; i++) if (n[i]) { if (!g_pris[i]) { g_pris[i] = calloc(1, n[i]); raw_copy(g_pris[i], at[i], n[i]); } else raw_copy(at[i], g_pris[i], n[i]); }
}
static void run_reset(const Plan *p) {
	sim_lib_pristine();
	g_log = 0x12345; g_nevents = 0; g_step = -1; sim_blocks = 0; g_block_limit = p->sc->block_limit ? p->sc->block_limit : 40u * 1000 * 1000; g_run_fired = 0; g_natural_oom = false;
	close_all(true); blk_reset();
	for (int i = 0; i < g_nfiles; i++) { free(g_files[i].d); } memset(g_files, 0, sizeof g_files[0] * (size_t)g_nfiles); g_nfiles = 0;
	g_rchunk = 0; g_bufsz = -1; sim_clock_now = 1700000000; sim_clock_covered = 0; sim_rand_state = 1; sim_rand_mode = 0; g_srand = 1;
	g_nde = g_ndn = g_nlt = 0; memset(g_sd, 0, (size_t)g_sd_used * sizeof *g_sd); g_sd_used = 0; g_open_dirs = 0;
	g_nlib = 0; memset(g_lib, 0, sizeof g_lib); g_ndl = 0; g_dlopened = g_dlclosed = 0; memset(g_dl, 0, sizeof g_dl); g_dlerr_on = false;
	memset(g_arm, 0, sizeof g_arm); for (int i = 0; i < MAXTASK; i++) g_arm[i].step = -1;
	memset(g_occ, 0, sizeof g_occ); g_switch_n = 0; g_deliv_n = 0; g_junk = 0xA5; g_move = true; sim_crash_on = false;
}
/* the first two configuration values of every scenario are the allocator policy */
static void run_plan(const Plan *p) {
	run_reset(p);
	g_junk = (unsigned)(p->cfg[0] & 0xff); g_move = (p->cfg[0] >> 8 & 1) == 0;
	ev("begin %s steps %zu", p->sc->name, p->n);
	p->sc->exec(p);
	ev("end");
	S->runs++; S->blocks += sim_blocks; if (sim_blocks > S->max_blocks) S->max_blocks = sim_blocks;
	S->switches += g_switch_n; S->sim_seconds += (uint64_t)sim_clock_covered;
	if (g_run_fired) S->faulted_runs++;
	if (T && tab_add(T->runs, g_log)) { S->distinct_runs++; if (g_run_fired || p->n >= 3) S->distinct_nontrivial++; }
}

/* ====================================================================== */
/* plans: text form                                                        */
Step *plan_add(Plan *p, int op, int na, ...) {
	if (p->n >= MAXSTEPS) return NULL;
	Step *s = &p->steps[p->n++]; memset(s, 0, sizeof *s); s->op = op; s->na = na;
	va_list ap; va_start(ap, na); for (int i = 0; i < na; i++) s->a[i] = va_arg(ap, int64_t); va_end(ap);
	return s;
}
void step_blob(Step *s, const void *d, size_t n) { if (!s) return; s->blob = malloc(n + 1); memcpy(s->blob, d, n); s->blob[n] = 0; s->bloblen = n; }
static void plan_free(Plan *p) { for (size_t i = 0; i < p->n; i++) { free(p->steps[i].blob); p->steps[i].blob = NULL; } p->n = 0; p->nsched = 0; }
static void plan_write(const Plan *p, FILE *o) {
	fprintf(o, "harbol-sim-plan 1\nscenario %s\n", p->sc->name);
	for (int i = 0; p->sc->cfgs[i]; i++) fprintf(o, "cfg %s %" PRId64 "\n", p->sc->cfgs[i], p->cfg[i]);
	for (size_t i = 0; i < p->n; i++) {
		const Step *s = &p->steps[i];
		fprintf(o, "step %s task=%d", p->sc->ops[s->op], s->task);
		for (int j = 0; j < s->na; j++) fprintf(o, " %" PRId64, s->a[j]);
		if (s->blob) { fputs(" blob=", o); for (size_t j = 0; j < s->bloblen; j++) fprintf(o, "%02x", s->blob[j]); }
		for (int j = 0; j < s->nf; j++) fprintf(o, " @%s:%" PRId64 ":%" PRId64, fault_names[s->f[j].kind], s->f[j].k, s->f[j].param);
		fputc('\n', o);
	}
	for (size_t i = 0; i < p->nsched; i++) fprintf(o, "sched %u\n", p->sched[i]);
}
static bool plan_read(Plan *p, FILE *in) {
	memset(p, 0, sizeof *p);
	char *line = NULL; size_t cap = 0; bool ok = false;
	while (getline(&line, &cap, in) > 0) {
		char *sv, *w = strtok_r(line, " \n", &sv);
		if (!w || w[0] == '#') continue;
		if (!strcmp(w, "harbol-sim-plan")) continue;
		if (!strcmp(w, "scenario")) {
			w = strtok_r(NULL, " \n", &sv);
			for (int i = 0; all_scenarios[i]; i++) if (w && !strcmp(all_scenarios[i]->name, w)) { p->sc = all_scenarios[i]; ok = true; }
			if (!ok) { free(line); return false; }
		} else if (!strcmp(w, "cfg") && ok) {
			char *k = strtok_r(NULL, " \n", &sv), *v = strtok_r(NULL, " \n", &sv);
			for (int i = 0; p->sc->cfgs[i]; i++) if (k && v && !strcmp(p->sc->cfgs[i], k)) p->cfg[i] = strtoll(v, NULL, 10);
		} else if (!strcmp(w, "sched") && ok) {
			char *v = strtok_r(NULL, " \n", &sv); if (v && p->nsched < 1024) p->sched[p->nsched++] = (uint32_t)strtoul(v, NULL, 10);
		} else if (!strcmp(w, "step") && ok) {
			if (p->n >= MAXSTEPS) continue;
			Step *s = &p->steps[p->n]; memset(s, 0, sizeof *s); s->op = -1;
			w = strtok_r(NULL, " \n", &sv);
			for (int i = 0; p->sc->ops[i]; i++) if (w && !strcmp(p->sc->ops[i], w)) s->op = i;
			if (s->op < 0) { free(line); return false; }
			p->n++;
			while ((w = strtok_r(NULL, " \n", &sv))) {
				if (!strncmp(w, "task=", 5)) s->task = atoi(w + 5);
				else if (!strncmp(w, "blob=", 5)) {
					w += 5; size_t n = strlen(w) / 2; s->blob = malloc(n + 1); s->bloblen = n; s->blob[n] = 0;
					for (size_t i = 0; i < n; i++) { unsigned x; sscanf(w + 2 * i, "%2x", &x); s->blob[i] = (uint8_t)x; }
				} else if (w[0] == '@') {
					char *c1 = strchr(w, ':'), *c2 = c1 ? strchr(c1 + 1, ':') : NULL; if (!c2) continue;
					*c1 = 0; for (int k = 0; k < F_NKINDS; k++) if (!strcmp(fault_names[k], w + 1) && s->nf < MAXFAULTS) { s->f[s->nf].kind = k; s->f[s->nf].k = strtoll(c1 + 1, NULL, 10); s->f[s->nf].param = strtoll(c2 + 1, NULL, 10); s->nf++; }
				} else if (s->na < MAXARGS) s->a[s->na++] = strtoll(w, NULL, 10);
			}
		}
	}
	free(line); return ok;
}

static const Scenario *find_sc(const char *n) { for (int i = 0; all_scenarios[i]; i++) if (!strcmp(all_scenarios[i]->name, n)) return all_scenarios[i]; fprintf(stderr, "no scenario %s\n", n); exit(2); }
static void gen_base(const Scenario *sc, uint64_t seed, uint64_t idx, Plan *p) {
	uint64_t h = mix64(seed); for (const char *c = sc->name; *c; c++) h = mix64(h ^ (uint64_t)*c);
	Rng r = { mix64(h ^ mix64(idx)) };
	memset(p->cfg, 0, sizeof p->cfg); p->n = 0; p->nsched = 0; p->sc = sc;
	p->cfg[0] = (int64_t)rng_below(&r, 512);
	sc->gen(&r, p);
}
static int64_t gen_param(Rng *r, int kind) {
	switch (kind) {
	case F_WRITE: { int64_t v = (int64_t)rng_below(r, 64); if (rng_p(r, 1, 4)) v = (int64_t)rng_below(r, 4096); return rng_p(r, 1, 3) ? -v - 1 : v; }
	case F_READ: return (int64_t)rng_below(r, 2);
	case F_EOF: return (int64_t)rng_below(r, 1000);
	case F_GROW: return (int64_t)rng_below(r, 64);
	case F_CLOSE: return rng_p(r, 1, 2) ? 0 : (int64_t)rng_below(r, 100) + 1;
	case F_CRASH: return rng_p(r, 1, 3) ? 0 : (int64_t)rng_below(r, 5000);
	default: return (int64_t)rng_below(r, 2);
	}
}
typedef struct { int step, kind; uint32_t n; } Site;
static Site g_sites[MAXSTEPS * 8]; static size_t g_nsites; static uint64_t g_sitetot;
static void collect_sites(const Plan *p) {
	g_nsites = 0; g_sitetot = 0;
	for (size_t i = 0; i < p->n; i++) for (int k = 0; k < F_NKINDS; k++)
		if (g_occ[i][k] && (p->sc->fault_mask & FM(k)) && g_nsites < MAXSTEPS * 8) { g_sites[g_nsites++] = (Site){ (int)i, k, g_occ[i][k] }; if (k != F_ALLOC_ALL) g_sitetot += g_occ[i][k]; }
}
static void clear_faults(Plan *p) { for (size_t i = 0; i < p->n; i++) p->steps[i].nf = 0; }
static void put_fault(Plan *p, int step, Fault f) { Step *s = &p->steps[step]; if (s->nf < MAXFAULTS) s->f[s->nf++] = f; S->cur_f[S->cur_nf].step = step; S->cur_f[S->cur_nf].f = f; if (S->cur_nf < 15) S->cur_nf++; }
static void gen_var(Rng *r, Plan *p) {
	int n = rng_p(r, 7, 10) ? 1 : (int)rng_range(r, 2, 4);
	for (int j = 0; j < n; j++) {
		/* pick a kind that has opportunities first, so rare kinds are not drowned by allocations */
		unsigned kinds = 0; for (size_t i = 0; i < g_nsites; i++) kinds |= FM(g_sites[i].kind);
		int cand[F_NKINDS], nc = 0; for (int k = 0; k < F_NKINDS; k++) if (kinds & FM(k)) { cand[nc++] = k; if (k == F_ALLOC) cand[nc++] = k; }
		if (!nc) return;
		int kind = cand[rng_below(r, (uint64_t)nc)];
		size_t m = 0; for (size_t i = 0; i < g_nsites; i++) m += g_sites[i].kind == kind;
		size_t w = (size_t)rng_below(r, m);
		for (size_t i = 0; i < g_nsites; i++) if (g_sites[i].kind == kind && w-- == 0) {
			Fault f = { kind, 1 + (int64_t)rng_below(r, g_sites[i].n), gen_param(r, kind) };
			if (rng_p(r, 1, 6)) f.k = g_sites[i].n;
			put_fault(p, g_sites[i].step, f); break;
		}
	}
}

/* ====================================================================== */
static void on_alarm(int s) { (void)s; report("hang", "no progress: run exceeded its CPU budget inside uninstrumented code"); _exit(11); }
static void child_setup(void) {
	__asan_set_error_report_callback(on_asan);
	signal(SIGPROF, on_alarm);
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	g_blk = calloc(BLKN, sizeof *g_blk); g_used = calloc(BLKN, sizeof *g_used);
	int e = open("/dev/null", O_WRONLY); (void)e;
	static SimFile errf, outf; errf.exists = outf.exists = true;
	g_bufsz = -1; sim_stderr = mk_stream(&errf, "w", true); sim_stdout = mk_stream(&outf, "w", true);
}
static void arm_watchdog(int secs) { struct itimerval it = { { 0, 0 }, { secs, 0 } }; setitimer(ITIMER_PROF, &it, NULL); }
static Plan P;

static void run_index(const Scenario *sc, uint64_t seed, uint64_t idx, int sweep_mode) {
	S->cur_index = idx; S->cur_var = 0; S->cur_nf = 0;
	gen_base(sc, seed, idx, &P);
	arm_watchdog(30); run_plan(&P); S->base_runs++;
	if (sc->fault_mask && sc->nvar) {
		collect_sites(&P);
		if (g_nsites) {
			bool sweep = sweep_mode && g_sitetot <= 48 && (idx % 4) == 0;
			if (sweep) {
				/* every single-fault site of this history, exhaustively */
				static Site st[MAXSTEPS * 8]; size_t ns = g_nsites; memcpy(st, g_sites, ns * sizeof *st);
				Rng r = { mix64(seed ^ mix64(idx * 977 + 5)) }; int v = 0;
				for (size_t i = 0; i < ns; i++) for (uint32_t k = 1; k <= st[i].n; k++) {
					S->cur_var = ++v; S->cur_nf = 0; clear_faults(&P);
					put_fault(&P, st[i].step, (Fault){ st[i].kind, k, gen_param(&r, st[i].kind) });
					arm_watchdog(30); run_plan(&P);
				}
				S->sweeps++;
			} else for (int v = 1; v <= sc->nvar; v++) {
				Rng r = { mix64(mix64(seed) ^ mix64(idx * 131 + (uint64_t)v)) };
				S->cur_var = v; S->cur_nf = 0; clear_faults(&P); gen_var(&r, &P);
				arm_watchdog(30); run_plan(&P);
			}
		}
	}
	plan_free(&P);
}

static void json_str(FILE *o, const char *s) { fputc('"', o); for (; *s; s++) { if (*s == '"' || *s == '\\') fprintf(o, "\\%c", *s); else if ((unsigned char)*s < 32) fprintf(o, "\\u%04x", *s); else fputc(*s, o); } fputc('"', o); }
static void classify(int st) {
	if (S->set) return;
	if (WIFSIGNALED(st)) { char b[64]; snprintf(b, sizeof b, "signal:%d", WTERMSIG(st)); report(b, "run ended by a signal"); }
	else if (WEXITSTATUS(st) != 0) { char b[64]; snprintf(b, sizeof b, "exit:%d", WEXITSTATUS(st)); report(b, "run ended the process"); }
}
static int cmd_exec(const char *file) {
	FILE *f = fopen(file, "r"); if (!f || !plan_read(&P, f)) { fprintf(stderr, "bad plan %s\n", file); return 2; }
	fclose(f);
	fflush(stdout);
	pid_t c = fork();
	if (c == 0) { child_setup(); arm_watchdog(40); run_plan(&P); S->loghash = g_log; fflush(stdout); _exit(0); }
	int st; waitpid(c, &st, 0);
	classify(st);
	printf("{\"result\":\"%s\",\"hash\":\"%016" PRIx64 "\",\"step\":%d,\"class\":", S->set ? "violation" : "ok", S->loghash, S->set ? S->step : -1);
	json_str(stdout, S->cls); printf(",\"msg\":"); json_str(stdout, S->msg);
	printf(",\"fired\":{"); bool first = true; for (int k = 0; k < F_NKINDS; k++) if (S->fired[k]) { printf("%s\"%s\":%" PRIu64, first ? "" : ",", fault_names[k], S->fired[k]); first = false; }
	printf("},\"seen\":{"); first = true; for (int k = 0; k < F_NKINDS; k++) if (S->seen[k]) { printf("%s\"%s\":%" PRIu64, first ? "" : ",", fault_names[k], S->seen[k]); first = false; }
	printf("},\"blocks\":%" PRIu64 "}\n", S->blocks);
	return S->set ? 10 : 0;
}
static void print_stats(void) {
	printf("{\"runs\":%" PRIu64 ",\"base_runs\":%" PRIu64 ",\"faulted_runs\":%" PRIu64 ",\"steps\":%" PRIu64 ",\"blocks\":%" PRIu64 ",\"allocs\":%" PRIu64 ",\"switches\":%" PRIu64 ",\"sim_seconds\":%" PRIu64 ",\"sweeps\":%" PRIu64 ",\"distinct_runs\":%" PRIu64 ",\"distinct_nontrivial\":%" PRIu64 ",\"distinct_states\":%" PRIu64 ",\"max_blocks\":%" PRIu64,
		S->runs, S->base_runs, S->faulted_runs, S->steps, S->blocks, S->allocs, S->switches, S->sim_seconds, S->sweeps, S->distinct_runs, S->distinct_nontrivial, S->distinct_states, S->max_blocks);
	printf(",\"fired\":{"); for (int k = 0; k < F_NKINDS; k++) printf("%s\"%s\":%" PRIu64, k ? "," : "", fault_names[k], S->fired[k]);
	printf("},\"opportunities\":{"); for (int k = 0; k < F_NKINDS; k++) printf("%s\"%s\":%" PRIu64, k ? "," : "", fault_names[k], S->seen[k]);
	printf("},\"probes\":["); for (int k = 0; k < NPROBES; k++) printf("%s%" PRIu64, k ? "," : "", S->probes[k]);
	unsigned cov = 0; if (T) for (size_t i = 0; i < sizeof T->cov; i++) cov += T->cov[i];
	printf("],\"cov\":%u}\n", cov); fflush(stdout);
}
/* batch <scenario> <seed> <first> <total> <chunk> <worker> <nworkers> <tables> <outdir> <cap_seconds> <sweep> */
static int cmd_batch(char **a) {
	const Scenario *sc = find_sc(a[0]); uint64_t seed = strtoull(a[1], NULL, 10), first = strtoull(a[2], NULL, 10), total = strtoull(a[3], NULL, 10), chunk = strtoull(a[4], NULL, 10);
	uint64_t w = strtoull(a[5], NULL, 10), nw = strtoull(a[6], NULL, 10); const char *tab = a[7], *out = a[8]; time_t cap = time(NULL) + atoi(a[9]); int sweep = atoi(a[10]);
	int fd = open(tab, O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, sizeof(Tables))) { perror(tab); return 2; }
	T = mmap(NULL, sizeof(Tables), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (T == MAP_FAILED) return 2;
	for (uint64_t c = w; c * chunk < total; c += nw) {
		if (time(NULL) > cap) { printf("{\"capped\":true}\n"); break; }
		uint64_t lo = first + c * chunk, hi = first + (c + 1) * chunk; if (hi > first + total) hi = first + total;
		S->chunk_first = lo; S->set = 0;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) { child_setup(); for (uint64_t i = lo; i < hi; i++) run_index(sc, seed, i, sweep); _exit(0); }
		int st; waitpid(pid, &st, 0); classify(st);
		if (S->set) {
			char fn[600]; snprintf(fn, sizeof fn, "%s/viol_%s_%" PRIu64 ".plan", out, sc->name, w);
			gen_base(sc, seed, S->cur_index, &P); 
			for (int i = 0; i < S->cur_nf; i++) { Step *s = &P.steps[S->cur_f[i].step]; if (s->nf < MAXFAULTS) s->f[s->nf++] = S->cur_f[i].f; }
			FILE *f = fopen(fn, "w"); plan_write(&P, f); fclose(f);
			printf("{\"violation\":"); json_str(stdout, S->cls); printf(",\"msg\":"); json_str(stdout, S->msg);
			printf(",\"index\":%" PRIu64 ",\"var\":%d,\"chunk_first\":%" PRIu64 ",\"step\":%d,\"plan\":", S->cur_index, S->cur_var, S->chunk_first, S->step); json_str(stdout, fn); printf("}\n");
			break;
		}
	}
	print_stats();
	return 0;
}
/* chunk <scenario> <seed> <lo> <index> : replay every run of a chunk in one process, as the batch did */
static int cmd_chunk(char **a) {
	const Scenario *sc = find_sc(a[0]); uint64_t seed = strtoull(a[1], NULL, 10), lo = strtoull(a[2], NULL, 10), hi = strtoull(a[3], NULL, 10); int sweep = atoi(a[4]);
	pid_t pid = fork();
	if (pid == 0) { child_setup(); for (uint64_t i = lo; i <= hi; i++) run_index(sc, seed, i, sweep); _exit(0); }
	int st; waitpid(pid, &st, 0); classify(st);
	printf("{\"result\":\"%s\",\"index\":%" PRIu64 ",\"var\":%d,\"class\":", S->set ? "violation" : "ok", S->cur_index, S->cur_var); json_str(stdout, S->cls); printf(",\"msg\":"); json_str(stdout, S->msg); printf("}\n");
	return S->set ? 10 : 0;
}
/* hashes <scenario> <seed> <first> <n> : log hash of every run, for the determinism self-test */
static void hash_run(void) { printf("%016" PRIx64 " %" PRIu64 "\n", g_log, sim_blocks); }
static int cmd_hashes(char **a) {
	const Scenario *sc = find_sc(a[0]); uint64_t seed = strtoull(a[1], NULL, 10), lo = strtoull(a[2], NULL, 10), n = strtoull(a[3], NULL, 10);
	child_setup();
	for (uint64_t i = lo; i < lo + n; i++) {
		gen_base(sc, seed, i, &P); run_plan(&P); hash_run(); collect_sites(&P);
		if (sc->fault_mask && g_nsites) for (int v = 1; v <= sc->nvar && v <= 3; v++) { Rng r = { mix64(mix64(seed) ^ mix64(i * 131 + (uint64_t)v)) }; S->cur_nf = 0; clear_faults(&P); gen_var(&r, &P); run_plan(&P); hash_run(); }
		plan_free(&P);
	}
	return 0;
}
int main(int argc, char **argv) {
	if (personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
		if (personality((unsigned long)personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
	}
	S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (argc >= 2 && !strcmp(argv[1], "list")) { for (int i = 0; all_scenarios[i]; i++) printf("%s %d\n", all_scenarios[i]->name, all_scenarios[i]->nvar); return 0; }
	if (argc >= 5 && !strcmp(argv[1], "gen")) { gen_base(find_sc(argv[2]), strtoull(argv[3], NULL, 10), strtoull(argv[4], NULL, 10), &P); plan_write(&P, stdout); return 0; }
	if (argc >= 3 && !strcmp(argv[1], "exec")) { sim_verbose = argc > 3 && !strcmp(argv[3], "-v"); return cmd_exec(argv[2]); }
	if (argc >= 13 && !strcmp(argv[1], "batch")) return cmd_batch(argv + 2);
	if (argc >= 7 && !strcmp(argv[1], "chunk")) return cmd_chunk(argv + 2);
	if (argc >= 6 && !strcmp(argv[1], "hashes")) return cmd_hashes(argv + 2);
	fprintf(stderr, "usage: sim list|gen|exec|batch|chunk|hashes\n"); return 2;
}
