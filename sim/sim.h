/* Deterministic simulator for harbol: one process, every source of
 * nondeterminism (allocator, disk, directory, loader, clock, randomness,
 * caller-thread scheduling) behind a seam decided by the plan being run. */
#ifndef SIM_H
#define SIM_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <string.h>
#include <inttypes.h>
#include <limits.h>
#include <time.h>
#include <stddef.h>

/* ---------- PRNG: used only while a plan is being generated ---------- */
typedef struct { uint64_t s; } Rng;
uint64_t rng_u64(Rng *r);
uint64_t rng_below(Rng *r, uint64_t n);            /* 0..n-1, 0 if n==0 */
int64_t  rng_range(Rng *r, int64_t lo, int64_t hi);/* inclusive */
bool     rng_p(Rng *r, unsigned num, unsigned den);
uint64_t mix64(uint64_t x);                        /* pure hash, usable in exec */
const uint8_t *sim_bytes(uint64_t id, size_t n);   /* n deterministic bytes (n <= 196608) that are a function of id */

/* ---------- fault kinds ---------- */
enum {
	F_ALLOC,      /* k-th allocation of the step fails                     */
	F_ALLOC_ALL,  /* k-th and every later allocation of the step fails     */
	F_OPEN,       /* k-th fopen fails                                      */
	F_READ,       /* k-th device read fails (EIO), param: transient or not */
	F_EOF,        /* k-th device read finds the file cut (param: new size) */
	F_GROW,       /* before the k-th device read the file grew by param    */
	F_SEEK,       /* k-th seek fails                                       */
	F_WRITE,      /* k-th device write fails after param bytes             */
	F_CLOSE,      /* k-th fclose fails                                     */
	F_CRASH,      /* process dies at the k-th device write after param b   */
	F_STAT,       /* k-th stat/lstat fails                                 */
	F_OPENDIR, F_READDIR, F_GETCWD,
	F_DLOPEN, F_DLSYM, F_DLCLOSE,
	F_NKINDS
};
extern const char *const fault_names[F_NKINDS];

typedef struct { int kind; int64_t k, param; } Fault;

/* ---------- plans ---------- */
#define MAXARGS 8
#define MAXFAULTS 4
#define MAXCFG 32
#define MAXSTEPS 512
typedef struct {
	int     op, task;
	int     na; int64_t a[MAXARGS];
	int     nf; Fault f[MAXFAULTS];
	uint8_t *blob; size_t bloblen;
} Step;

struct Scenario;
typedef struct Plan {
	const struct Scenario *sc;
	int64_t  cfg[MAXCFG];
	Step     steps[MAXSTEPS];
	size_t   n;
	uint32_t sched[1024]; size_t nsched;
} Plan;

typedef struct Scenario {
	const char *name;
	const char *const *ops;     /* NULL terminated */
	const char *const *cfgs;    /* NULL terminated */
	void (*gen)(Rng *r, Plan *p);
	void (*exec)(const Plan *p);
	unsigned fault_mask;        /* kinds that variations may inject */
	int  nvar;                  /* fault variations per base plan */
	uint64_t block_limit;       /* progress bound in basic blocks, 0: the default */
} Scenario;
#define FM(k) (1u << (k))
extern const Scenario *const all_scenarios[];

Step *plan_add(Plan *p, int op, int na, ...);      /* int64_t args */
void  step_blob(Step *s, const void *d, size_t n);

/* ---------- run-time services (exec side) ---------- */
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_bytes(const char *tag, const void *d, size_t n);
void sim_state(uint64_t h);                        /* note an abstract state */
void sim_probe(int id);                            /* rare condition reached */
void sim_violation(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
#define CHECK(cond, cls, ...) do { if (!(cond)) sim_violation(cls, __VA_ARGS__); } while (0)

void sim_step(const Plan *p, size_t i);            /* current step for reports */
void sim_arm(const Step *s);                       /* faults of s become live */
int  sim_disarm(void);                             /* number that fired */
int  sim_fired(int kind);                          /* within last armed window */
int  sim_fired_any(void);
bool sim_occ(int kind, int64_t *param);            /* seam side: does it fire? */

/* allocator */
void *sim_malloc(size_t n); void *sim_calloc(size_t n, size_t m);
void *sim_realloc(void *p, size_t n); void sim_free(void *p);
size_t sim_live(void);                             /* live library blocks */
size_t sim_alloc_count(void);
bool sim_is_live(const void *p, size_t *size);
void sim_leak_check(const char *where, size_t expect);
void *sim_vast(size_t n, size_t unit); void *sim_vast_blocks(size_t size, size_t n); void sim_vast_end(void);   /* a buffer of several GB that takes hardly any memory, NULL if there is none to be had */
void sim_process_dies(void);                       /* drop all memory+handles */

/* disk */
typedef struct SimFile { char name[512]; uint8_t *d; size_t len, cap; bool exists, unreadable, nodir, unseekable; int64_t mtime; bool isdir; } SimFile;
SimFile *sim_file(const char *name);               /* NULL if absent */
SimFile *sim_file_put(const char *name, const void *d, size_t n);
void sim_file_rm(const char *name);
FILE *sim_fopen(const char *path, const char *mode);
int   sim_fclose(FILE *f);
FILE *sim_sink(SimFile **out);                     /* fresh write stream */
void sim_sink_free(SimFile *f);                    /* give a closed sink back */
size_t sim_open_handles(void);
void sim_disk_policy(int64_t rchunk, int64_t bufsz);
extern FILE *sim_stderr, *sim_stdout; size_t sim_stderr_bytes(void);
size_t sim_delivered(void);                        /* bytes handed to readers since arm */
const uint8_t *sim_delivered_data(void);

/* clock and randomness */
extern int64_t sim_clock_now, sim_clock_covered; extern uint64_t sim_rand_state; extern int64_t sim_rand_mode;
void sim_clock_advance(int64_t s);

/* directories */
void sim_dir_add(const char *dir, const char *name, int type /*0 file 1 dir 2 unknown-file 3 unknown-dir 4 dangling*/);
void sim_dir_link(const char *dir, const char *name, const char *target, bool todir);
bool sim_dir_listed(const char *dir);
size_t sim_open_dirs(void);
void sim_dir_absent(void);

/* dynamic loader */
void sim_lib_put(const char *path, int64_t version, unsigned symmask);
void sim_lib_rm(const char *path);
size_t sim_dl_open(void); size_t sim_dl_opened(void); size_t sim_dl_closed(void);
void *sim_dl_sym_addr(int64_t version, int sym);
bool sim_dl_handle_valid(void *h, int64_t *version);
bool sim_dl_has_sym(void *h, int sym);
extern const char *const sim_syms[4];

/* caller threads under a deterministic scheduler */
typedef void TaskFn(int id, void *arg);
void sim_tasks_run(const Plan *p, int n, TaskFn *fn, void **args);
int  sim_task_self(void);
uint64_t sim_switches(void);
void sim_task_yield(void);

void sim_lib_pristine(void);                       /* the library's globals as in a fresh process */
/* crash of the simulated process inside a library call */
#include <setjmp.h>
extern jmp_buf sim_crash_env; extern volatile bool sim_crash_on;

extern uint64_t sim_blocks;                        /* basic blocks executed in this run */
extern bool sim_verbose;

static inline size_t umod(int64_t a, size_t n) { return n ? (size_t)((uint64_t)(a < 0 ? -(a + 1) : a) % n) : 0; }
/* draw an operation by weight */
static inline int rng_op(Rng *r, const unsigned *w, int n) { unsigned t = 0; for (int i = 0; i < n; i++) t += w[i]; uint64_t x = rng_below(r, t); int op = 0; while (op < n - 1 && x >= w[op]) x -= w[op++]; return op; }
/* swarm weights: each operation disabled with probability 1/4 */
static inline void rng_weights(Rng *r, unsigned *w, int n) { for (int i = 0; i < n; i++) w[i] = rng_p(r, 1, 4) ? 0 : 1 + (unsigned)rng_below(r, 6); w[0] += 2; }
static inline int rng_len(Rng *r) { return rng_p(r, 1, 12) ? (int)rng_range(r, 50, 140) : rng_p(r, 1, 3) ? (int)rng_range(r, 1, 8) : (int)rng_range(r, 4, 36); }
#define ALLOCF (FM(F_ALLOC) | FM(F_ALLOC_ALL))
#endif
