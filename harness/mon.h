/* Shared declarations of the monitoring harness. */
#ifndef MON_H
#define MON_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---------- scheduling layer (sched.c) ---------- */
enum { MODE_FREE = 0, MODE_DELAY = 1, MODE_CTRL = 2 };
enum { ST_BURST = 0, ST_PCT = 1, ST_RMW = 2, ST_STALL = 3, ST_STARVE = 4, ST_OVERTAKE = 5 };

typedef struct sched_params {
    int mode;            /* MODE_* */
    int strategy;        /* ST_* (controlled mode) */
    int nworkers;        /* posix threads taking part */
    uint64_t seed;
    uint64_t hang_steps; /* controlled: steps without a completed operation that count as a hang */
    int victim;          /* ST_STALL / ST_STARVE / ST_OVERTAKE: posix thread to stall (-1: none) */
    uint64_t stall_at;   /* victim's own step at which it is stalled */
    int after_rmw;       /* ST_STALL: only directly after an atomic instruction of the victim */
    int vary;            /* ST_OVERTAKE: every episode draws its lengths from 1..stall_len and 1..stall_at */
    uint64_t stall_len;  /* 0: until everybody else is done; otherwise global steps. ST_OVERTAKE: the victim makes stall_len accesses, then the
                          * others complete stall_at operations, and so on */
    int tso;             /* ASM_HOOKS builds: percentage of stores that start a simulated store buffer */
} sched_params;

void sched_round_begin(const sched_params *p);
void sched_worker_enter(int widx);  /* blocks until every worker arrived (controlled mode) */
void sched_worker_exit(void);
void sched_arm(void);
void sched_point(void);             /* explicit scheduling point */
void sched_yield_point(void);
void sched_set_mark(uint64_t n);
uint64_t sched_get_mark(void);
void sched_op_done(void);           /* an operation completed (progress) */
uint64_t sched_stamp(void);         /* totally ordered time stamp */
uint64_t sched_steps(void);
uint64_t sched_my_steps(void);
uint64_t sched_switches(void);
uint64_t sched_trace_hash(void);
int sched_hang(void);               /* 1 if the hang limit was reached */
int sched_stalled_now(void);        /* victim is currently stalled */
uint64_t sched_victim_stall_steps(void); /* steps others took while the victim was stalled */
extern int g_instrumented;          /* the library was compiled with access callbacks */
extern volatile uint64_t g_access_events;

/* ---------- interposition layer (interpose.c) ---------- */
extern int vp_ncores;      /* virtual number of cores */
extern int vp_nodes;       /* virtual number of NUMA nodes */
extern int vp_smt;         /* virtual topology has SMT numbering */
extern int vp_real_affinity;
extern int vp_machine;     /* virtual processor vendor code (0: the real one) */
extern uint64_t vp_live_bytes, vp_alloc_calls, vp_free_calls, vp_bad_frees;
extern unsigned char vp_fill; /* byte that fresh memory is filled with (touched lazily if 0) */
void arena_reset(void);
uint64_t arena_touched(void);
uint64_t arena_used(void);
extern __thread int vp_last_core;   /* core requested by the last affinity call */
extern int vp_gm_bump;

/* ---------- adapters (adapters.c) ---------- */
enum { K_COMB = 0, K_SPEC = 1, K_QUEUE = 2, K_STACK = 3, K_SET = 4, K_LOCK = 5 };
enum { OP_INS = 0, OP_REM = 1, OP_FIND = 2, OP_APPLY = 3, OP_LOCK = 4 };
#define F_NONBLOCK 1
#define F_FIBERS   2   /* cooperates with fibers (yields while waiting) */
#define F_NUMA     4   /* takes the NUMA parameter */
#define F_WAITFREE 8
#define F_RECLAIM 16
#define F_BOUNDED 32

typedef struct cfg {
    int nthreads, fibers, numa;
    int cells;      /* hash cells */
    int backoff;
} cfg_t;

typedef int64_t (*sfunc_t)(void *, int64_t, int);

typedef struct adapter {
    const char *name;
    int kind;
    int flags;
    size_t osize, tsize;
    void (*init)(void *o, const cfg_t *c);
    void (*tinit)(void *o, void *t, const cfg_t *c, int pid);
    int64_t (*op)(void *o, void *t, int code, int64_t a, int64_t b, int pid);
} adapter;

extern adapter adapters[];
extern int n_adapters;
extern int64_t lib_empty_queue, lib_empty_stack, lib_guard;
extern sfunc_t comb_sfunc;     /* sequential function applied by combining objects */
extern sfunc_t spec_sfunc;     /* for Sim / LFUObject: state is inside the object */
extern __thread void *comb_state;
extern void *oyama_state[2];

/* thin wrappers so that C++ code need not include the library's headers */
int lib_start(uint32_t n, void *(*f)(void *), uint32_t fibers);
void lib_join(uint32_t n);
int lib_tid(void);
int lib_ptid(void);
int lib_fiber(void);
void lib_resched(void);
int lib_oversub(void);
uint32_t lib_pref_core(void);
uint32_t lib_pref_core_of(uint32_t);
uint32_t lib_pref_node(void);
uint32_t lib_pref_node_of(uint32_t);
void lib_set_policy(uint32_t);
uint32_t lib_get_policy(void);
uint32_t lib_ncores(void);
#ifdef __cplusplus
}
#endif
#endif
