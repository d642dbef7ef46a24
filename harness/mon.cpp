// Workload generator + monitors for the concurrent objects of the library.
#include "check.h"
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <unistd.h>
#include <malloc.h>
#include <pthread.h>
#include <time.h>
#include <sched.h>
#include <signal.h>
#include <sys/syscall.h>
#include <set>

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Rng { uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool p(int pct) { return (int)below(100) < pct; } };

// ------------------------------------------------------------------ options
static std::string o_objs = "ccqueue", o_mode = "ctrl", o_camp = "lin", o_replay;
static double o_secs = 2;
static uint64_t o_seed = 1; static long o_round = -1; static long o_rounds = 0;
static int o_maxposix = 4, o_minposix = 2, o_maxfib = 3, o_fibpct = 25, o_ops = 0, o_valmode = -1, o_fixnuma = -1, o_backoff = -1, o_oversub = -1, o_longstall = 0;
static int o_ncores = -1, o_nodes = -1, o_smt = -1, o_shape = 0; static uint64_t o_hang = 0;
static int o_posix = 0, o_fibers = 0, o_phase = -1, o_footpat = -1;

// ------------------------------------------------------------------ per-round state
#define MAXP 160
#ifdef ARENA_MALLOC
#define SLACK 0 /* AddressSanitizer sees the exact bounds */
#else
#define SLACK 512
#endif
struct Round {
    adapter *ad; cfg_t c; int nposix; int mode;
    int ops; int valmode; int mix; int prefill; int phase; int keys; int keymode; int work; int smallpct;
    uint64_t seed;
    int fifo; int foot; int slow; int small; int nest; int fill;
    int ninst;  // instances used concurrently by the same threads
    sched_params sp;
} R;
static void *obj[2]; static void *ts[2][MAXP];
static std::vector<Op> hist[2][MAXP];
static volatile int ready, n_fin;
static volatile int finposix[MAXP];
static uint64_t maxsteps_op, total_ops, overlap_ops;
static volatile uint64_t sink;

// sequential state protected by the combining objects / locks
struct CombState {
    volatile uint64_t state; volatile int in_cs; volatile int cs_owner; volatile uint64_t applied; volatile int bad; char badmsg[256];
    volatile uint64_t served[MAXP];      // requests executed by thread pid during its current call
    volatile uint64_t maxserved;
};
static CombState CS[2];
static __thread int cs_dummy;

static char viol_msg[4096]; static volatile int violated; static const char *viol_kind = "";
static void describe_round(FILE *f);
static int o_prune = 1, o_tso = -1; extern "C" uint64_t sched_tso_delayed, sched_tso_seen;

static void dump_history(FILE *f) {
    for (int k = 0; k < R.ninst; k++) {
        Hist h; for (int p = 0; p < R.c.nthreads; p++) for (auto &o : hist[k][p]) h.push_back(o);
        sort_inv(h);
        fprintf(f, "history of instance %d (%zu operations):\n", k, h.size());
        size_t n = 0;
        for (auto &o : h) { fprintf(f, "  %s\n", op_str(o, R.ad->name).c_str()); if (++n > 400) { fprintf(f, "  ...\n"); break; } }
    }
}
static long cur_round;
[[noreturn]] static void report_violation(const char *kind, const char *msg) {
    // called at most once; prints everything needed to replay
    fprintf(stdout, "MONITOR-VIOLATION kind=%s obj=%s mode=%s seed=%llu round=%ld msg=%s\n", kind, R.ad->name, o_mode.c_str(),
            (unsigned long long)o_seed, cur_round, msg);
    describe_round(stdout);
    dump_history(stdout);
    fflush(stdout);
    _exit(10);
}
extern "C" void mon_report_hang(const char *why) { report_violation("progress", why); }

static void cs_enter(CombState *c, int me) {
    if (c->in_cs) { c->bad = 1; snprintf(c->badmsg, sizeof c->badmsg, "two critical sections overlap (requester %d while requester %d is inside)", me, c->cs_owner); }
    c->in_cs = 1; c->cs_owner = me;
}
static void cs_leave(CombState *c, int me) {
    if (!c->in_cs || c->cs_owner != me) { c->bad = 1; snprintf(c->badmsg, sizeof c->badmsg, "two critical sections overlap (seen at exit of requester %d, owner %d)", me, c->cs_owner); }
    c->in_cs = 0;
}
static int nested_ops[MAXP];
static int64_t mkval(int pid, int seq, int inst);
// a request on the second instance from inside a critical section of the first one
static void nested_op(int me) {
    Op o; o.pid = me; o.b = 0; o.val = 0; o.mark = 0;
    o.code = R.ad->kind == K_LOCK ? OP_LOCK : OP_APPLY;
    o.a = mkval(me, R.ops + nested_ops[me]++, 1);
    o.inv = sched_stamp();
    sched_point();
    comb_state = &CS[1];
    o.ret = R.ad->op(obj[1], ts[1][me], o.code, o.a, 0, me);
    sched_point();
    o.res = sched_stamp();
    hist[1][me].push_back(o);
}
extern "C" int64_t seq_apply(void *state, int64_t arg, int pid) {
    CombState *c = (CombState *)state;
    if (c < CS || c >= CS + 2) { CS[0].bad = 1; snprintf(CS[0].badmsg, 256, "sequential function called with a wrong state pointer"); return 0; }
    cs_enter(c, pid);
    uint64_t s = c->state;
    sched_point();
    int t = lib_tid();
    if (t >= 0 && t < MAXP) { c->served[t]++; }
    for (int i = 0; i < R.work; i++) { sink++; if ((i & 7) == 0) sched_point(); }
    // a slow sequential function: the other threads announce their next requests while the combiner is at work
    if (R.slow) { for (int i = (int)((s >> 7) % (uint64_t)(R.slow + 1)); i > 0; i--) sched_yield_point(); }
    if (R.nest && c == &CS[0] && (s >> 9) % 3 == 0 && t >= 0 && t < R.c.nthreads) nested_op(t);
    c->applied++;
    sched_point();
    c->state = chain_next(s, arg, pid);
    cs_leave(c, pid);
    return (int64_t)s;
}
extern "C" int64_t spec_apply(void *state, int64_t arg, int pid) {
    volatile uint64_t *p = (volatile uint64_t *)state;
    uint64_t s = *p;
    sched_point();
    *p = R.small ? ((s + (uint64_t)arg) & 3) : chain_next(s, arg, pid);
    return (int64_t)s;
}

// ------------------------------------------------------------------ values
static const int64_t edge_vals[] = { INT32_MIN, -1, 0, 1, INT32_MAX, INT64_MAX, INT64_MIN + 2, (int64_t)0x8000000080000000ULL, (int64_t)0x00000000FFFFFFFFULL,
    (int64_t)0xFFFFFFFF00000000ULL, (int64_t)0x100000000ULL, (int64_t)INT32_MIN - 1, (int64_t)INT32_MAX + 1, -2, 2, INT16_MIN, (int64_t)0xBFFFFFFFFFFFFFFFULL, (int64_t)0x7FFFFFFF00000000ULL,
    255, 256, 65535, 65536, -65536, (int64_t)0x5555555555555555ULL, (int64_t)0xAAAAAAAAAAAAAAAAULL, (int64_t)0xC000000000000000ULL, (int64_t)0x4000000000000000ULL, 64, 63, INT64_MIN + 3, INT64_MAX - 1, 8191, -4096 };
static const int n_edge = sizeof(edge_vals) / sizeof(edge_vals[0]);
static int64_t reserved_fix(int64_t v) { return v; }
static int64_t mkval(int pid, int seq, int inst) {
    uint64_t u = ((uint64_t)(inst + 1) << 40) | ((uint64_t)(pid + 1) << 24) | (uint64_t)(seq + 1);
    int64_t v;
    switch (R.valmode) {
    case 0: v = (int64_t)(((pid + 1) << 20) | (seq + 1)); if (inst) v += 1LL << 50; break;
    case 1: v = (int64_t)(u * 0x9E3779B97F4A7C15ULL); break;
    case 2: v = -(int64_t)u; break;
    case 3: v = (int64_t)(u << 20); break;
    case 5: v = (int64_t)((u << 1) | 0x8000000000000000ULL); break;
    default: {
        int k = (pid + seq * R.c.nthreads + (int)(R.seed % n_edge));
        if (pid + seq * R.c.nthreads < n_edge && inst == 0) v = edge_vals[k % n_edge];
        else v = (int64_t)((u << 4 | 9) * 0x9E3779B97F4A7C15ULL);
    } }
    return reserved_fix(v);
}
static int64_t mkkey(int i) {
    switch (R.keymode) {
    case 0: return i;
    case 1: return (int64_t)i * R.c.cells;                 // all in one cell
    case 2: return -(int64_t)i - 1;
    case 3: return (int64_t)(((uint64_t)(i + 1)) * 0x9E3779B97F4A7C15ULL);
    case 4: return edge_vals[(i + R.seed) % n_edge];
    default: return (int64_t)i * R.c.cells * (i & 1 ? -1 : 1) + (i & 1 ? -(int64_t)R.c.cells : 0);
    }
}

// ------------------------------------------------------------------ the threads
static __thread uint64_t t_round_gen; static uint64_t round_gen;
static __thread int t_fibers_left;
static void do_op(int k, int pid, Rng &rg, int seq, int &cur) {
    adapter *ad = R.ad;
    Op o; o.pid = pid; o.b = 0; o.ret = 0; o.val = 0;
    switch (ad->kind) {
    case K_COMB: case K_SPEC: o.code = OP_APPLY; o.a = R.small ? (int64_t)rg.below(4) - 1 : mkval(pid, seq, k); break;
    case K_LOCK: o.code = OP_LOCK; o.a = seq; break;
    case K_SET: {
        int x = (int)rg.below(100);
        o.code = x < R.mix ? OP_INS : x < R.mix + (100 - R.mix) / 2 ? OP_REM : OP_FIND;
        o.a = mkkey((int)rg.below(R.keys)); o.b = mkval(pid, seq, k); break; }
    default: {
        int m = R.mix;
        if (R.phase == 1) m = (seq * 2 / R.ops) & 1 ? 15 : 85;
        if (R.phase == 2) m = pid & 1 ? 100 : 0;
        if (R.phase == 3) m = seq & 1 ? 0 : 100;
        o.code = (int)rg.below(100) < m ? OP_INS : OP_REM;
        o.a = o.code == OP_INS ? mkval(pid, seq, k) : 0; }
    }
    CS[k].served[lib_tid() & 127] = 0;
    uint64_t st0 = sched_my_steps();
    o.inv = sched_stamp();
    sched_point();
    comb_state = &CS[k];
    if (R.fifo) sched_set_mark(60);
    o.ret = ad->op(obj[k], ts[k][pid], o.code, o.a, o.b, pid);
    if (R.fifo) o.mark = sched_get_mark();
    sched_point();
    o.res = sched_stamp();
    uint64_t st = sched_my_steps() - st0;
    if (st > maxsteps_op) maxsteps_op = st;
    if (CS[k].served[lib_tid() & 127] > CS[k].maxserved) CS[k].maxserved = CS[k].served[lib_tid() & 127];
    hist[k][pid].push_back(o);
    sched_op_done();
}
// footprint: memory touched by the library must not grow with the number of operations
static volatile int foot_arr; static volatile int foot_gen;
static int foot_chunks = 6, foot_chunk_ops = 20000; static uint64_t foot_seen[64], foot_arena[64];
static void foot_barrier(int pid, int chunk) {
    int g = foot_gen;
    if (__atomic_add_fetch(&foot_arr, 1, __ATOMIC_SEQ_CST) == R.c.nthreads) {
        foot_seen[chunk] = arena_touched(); foot_arena[chunk] = arena_used();
        foot_arr = 0; __sync_synchronize(); foot_gen = g + 1;
    } else while (foot_gen == g) { lib_resched(); if (R.c.fibers == 1) syscall(SYS_sched_yield); }
}
static void foot_wait(volatile int *v, int want) { while (*v != want) { lib_resched(); syscall(SYS_sched_yield); } }
static volatile int foot_turn;
static void foot_thread(int pid, Rng &rg) {
    adapter *ad = R.ad; int64_t empty = ad->kind == K_QUEUE ? lib_empty_queue : lib_empty_stack;
    int n = R.c.nthreads;
    for (int c = 0; c < foot_chunks; c++) {
        if (R.foot <= 1) { // concurrent; every thread removes as much as it inserts
            int debt = 0;
            for (int i = 0; i < foot_chunk_ops; i++) {
                bool ins = R.foot == 0 ? !(i & 1) : debt <= 0 ? true : debt >= 60 ? false : rg.p(50);
                if (ins) { ad->op(obj[0], ts[0][pid], OP_INS, (int64_t)i * 64 + pid + 1, 0, pid); debt++; }
                else if (ad->op(obj[0], ts[0][pid], OP_REM, 0, 0, pid) != empty) debt--;
                if ((i & 63) == 0) sched_op_done();
            }
        } else {
            // turns: nobody else runs. 2: the thread itself removes what it inserted; 3: it removes what its
            // predecessor inserted and inserts as much again
            int m = 20 + (int)(R.seed % 200);
            for (int rep = 0; rep < foot_chunk_ops / (2 * m) + 1; rep++) {
                foot_wait(&foot_turn, pid);
                if (R.foot == 2) {
                    for (int i = 0; i < m; i++) ad->op(obj[0], ts[0][pid], OP_INS, (int64_t)i * 64 + pid + 1, 0, pid);
                    for (int i = 0; i < m; i++) ad->op(obj[0], ts[0][pid], OP_REM, 0, 0, pid);
                } else {
                    for (int i = 0; i < m; i++) ad->op(obj[0], ts[0][pid], OP_REM, 0, 0, pid);
                    for (int i = 0; i < m; i++) ad->op(obj[0], ts[0][pid], OP_INS, (int64_t)i * 64 + pid + 1, 0, pid);
                }
                sched_op_done();
                __sync_synchronize();
                foot_turn = (pid + 1) % n;
            }
        }
        foot_barrier(pid, c);
    }
}
extern "C" void *thread_main(void *arg) {
    int pid = (int)(long)arg;
    int posix = pid / R.c.fibers;
    if (t_round_gen != round_gen) { t_round_gen = round_gen; t_fibers_left = R.c.fibers; sched_worker_enter(posix); }
    Rng rg(R.seed * 1315423911u + pid * 7919 + 17);
    for (int k = 0; k < R.ninst; k++) R.ad->tinit(obj[k], ts[k][pid], &R.c, pid);
    __atomic_add_fetch(&ready, 1, __ATOMIC_SEQ_CST);
    while (ready < R.c.nthreads) { lib_resched(); if (R.mode == MODE_FREE) syscall(SYS_sched_yield); }
    if (o_camp == "foot") { foot_thread(pid, rg); if (--t_fibers_left == 0) sched_worker_exit(); return NULL; }
    sched_arm();
    int cur = 0;
    for (int s = 0; s < R.ops; s++) {
        for (int k = 0; k < R.ninst; k++) do_op(k, pid, rg, s, cur);
        if (R.work > 4 && rg.p(30)) { int w = (int)rg.below(R.work * 8); for (int i = 0; i < w; i++) { sink++; if ((i & 15) == 0) sched_point(); } }
        if (R.c.fibers > 1 && rg.p(20)) lib_resched();
    }
    if (--t_fibers_left == 0) sched_worker_exit();
    return NULL;
}

// ------------------------------------------------------------------ statistics
static std::unordered_set<uint64_t> distinct; static uint64_t n_rounds, n_switch, n_steps_total, n_wgl, n_wgl_nodes, n_wgl_gaveup, n_conc_rounds, n_hist_ops, n_stalls;
static uint64_t max_wf_steps; static std::string sample;
static uint64_t n_fifo_pairs, n_foot_chunks, foot_first, foot_last, foot_ops;
static uint64_t bound_worst_num, bound_worst_n;

static void describe_round(FILE *f) {
    fprintf(f, "round-config: obj=%s camp=%s posix=%d fibers=%d numa=%d ops=%d valmode=%d mix=%d phase=%d keys=%d keymode=%d cells=%d backoff=%d machine=%d ncores=%d nodes=%d smt=%d strategy=%d tso=%d victim=%d stall_at=%llu stall_len=%llu after_rmw=%d inst=%d work=%d slow=%d small=%d nest=%d fill=%d\n",
            R.ad->name, o_camp.c_str(), R.nposix, R.c.fibers, R.c.numa, R.ops, R.valmode, R.mix, R.phase, R.keys, R.keymode, R.c.cells, R.c.backoff,
            vp_machine, vp_ncores, vp_nodes, vp_smt, R.sp.strategy, R.sp.tso, R.sp.victim, (unsigned long long)R.sp.stall_at, (unsigned long long)R.sp.stall_len, R.sp.after_rmw, R.ninst, R.work, R.slow, R.small, R.nest, R.fill);
}

static void setup_round(adapter *ad, long idx) {
    uint64_t seed = o_seed * 1000003ULL + (uint64_t)idx * 2654435761ULL;
    Rng g(seed);
    R = Round();
    R.ad = ad; R.seed = seed;
    R.mode = o_mode == "ctrl" ? MODE_CTRL : o_mode == "delay" ? MODE_DELAY : MODE_FREE;
    R.nposix = o_posix ? o_posix : o_minposix + (int)g.below(o_maxposix - o_minposix + 1);
    if (!o_posix && o_maxposix > 64 && g.p(35)) { static const int edge[] = { 63, 64, 65, 127, 128, 129 }; int e = edge[g.below(6)]; if (e >= o_minposix && e <= o_maxposix) R.nposix = e; } // word boundaries of toggle vectors
    bool fib = (ad->flags & F_FIBERS) && g.p(o_fibpct);
    R.c.fibers = o_fibers ? o_fibers : fib ? 2 + (int)g.below(o_maxfib - 1) : 1;
    if (!(ad->flags & F_FIBERS)) R.c.fibers = 1;
    if (fib && !o_posix && R.nposix > 3 && R.mode == MODE_CTRL) R.nposix = 1 + (int)g.below(3);
    if (R.mode == MODE_CTRL && R.nposix > 24 && !strcmp(ad->name, "lcrq")) R.nposix = 12 + R.nposix % 13; // its dequeuers spin, see below
    R.c.nthreads = R.nposix * R.c.fibers;
    R.fill = vp_fill ? vp_fill : "\x00\xA5\xFF\x5A"[(seed >> 17) & 3] & 255; // objects and thread states live in memory of the caller
    { int m = (int)((seed >> 11) % 10); vp_machine = m < 4 ? 2 : m < 6 ? 1 : 3; } // the vendor decides where nodes are allocated
    R.c.numa = o_fixnuma >= 0 ? o_fixnuma : (ad->flags & F_NUMA) ? (g.p(45) ? 0 : 1 + (int)g.below(4)) : 0;
    R.c.cells = 1 + (int)g.below(4);
    static const int bks[] = { 0, 1, 2, 5, 20, 100 };
    R.c.backoff = o_backoff >= 0 ? o_backoff : bks[g.below(6)];
    R.ninst = 1;
    R.valmode = o_valmode >= 0 ? o_valmode : (int)g.below(6);
    static const int mixes[] = { 50, 50, 60, 40, 75, 25 };
    R.mix = mixes[g.below(6)];
    R.phase = g.p(50) ? 0 : (int)g.below(4);
    if (R.nposix == 1 && R.c.fibers == 1 && R.phase == 2) R.phase = 0;
    R.keys = 1 + (int)g.below(5);
    R.keymode = (int)g.below(6);
    if (ad->kind == K_SET) R.mix = 30 + (int)g.below(30);
    R.work = g.p(60) ? 0 : (int)g.below(24);
    int budget_ops = 26;
    R.ops = 2 + (int)g.below(std::max(2, budget_ops / R.c.nthreads));
    if (g.p(10)) R.ops *= 3;
    if (o_ops) R.ops = o_ops;
    R.sp = sched_params();
    R.sp.mode = R.mode; R.sp.nworkers = R.nposix; R.sp.seed = seed ^ 0xABCDEF; R.sp.victim = -1;
    R.sp.hang_steps = o_hang * (R.c.nthreads > 8 ? R.c.nthreads / 8 + 1 : 1);  // every LCRQ dequeuer may spin 200000 times at a cell
    int st = (int)g.below(10);
    R.sp.strategy = st < 4 ? ST_BURST : st < 6 ? ST_PCT : st < 7 ? ST_RMW : st < 9 ? ST_STALL : g.p(50) ? ST_STARVE : ST_OVERTAKE;
    if (R.nposix == 1) R.sp.strategy = ST_BURST;
    if (R.sp.strategy == ST_STALL) {
        R.sp.victim = (int)g.below(R.nposix);
        R.sp.stall_at = 20 + g.below(60 * R.ops * R.c.fibers);
        R.sp.stall_len = (ad->flags & F_NONBLOCK) && g.p(50) ? 0 : 200 + g.below(4000);
        R.sp.after_rmw = g.p(35);
        if (R.sp.stall_len && g.p(o_longstall)) R.sp.stall_len = 50000 + g.below(350000);
    }
    if (R.sp.strategy == ST_OVERTAKE) { R.sp.victim = (int)g.below(R.nposix); R.sp.stall_len = 5 + g.below(150); R.sp.stall_at = 1 + g.below(4); }
    if (R.sp.strategy == ST_STARVE) { R.sp.victim = (int)g.below(R.nposix); R.sp.stall_len = 5 + g.below(200); }
    if (o_camp == "progress") {
        R.sp.strategy = ST_STALL; R.sp.victim = (int)g.below(R.nposix);
        R.sp.stall_at = 1 + g.below(g.p(50) ? 120 : 60 * R.ops);
        R.sp.stall_len = 0; R.sp.hang_steps = o_hang; R.sp.after_rmw = g.p(30);
        if (R.c.fibers > 1) { R.c.fibers = 1; R.c.nthreads = R.nposix; }
        if (R.nposix < 2) R.nposix = R.c.nthreads = 2;
        R.ops = 3 + (int)g.below(10);
    } else if (o_camp == "waitfree") {
        R.sp.strategy = ST_STARVE; R.sp.victim = (int)g.below(R.nposix); R.sp.stall_len = 20 + g.below(400);
        if (R.c.fibers > 1) { R.c.fibers = 1; R.c.nthreads = R.nposix; }
        if (R.nposix < 2) R.nposix = R.c.nthreads = 2;
        R.ops = 10 + (int)g.below(30);
        if (g.p(60)) { R.sp.strategy = ST_OVERTAKE; R.sp.stall_len = 5 + g.below(g.p(60) ? 70 : 300); R.sp.stall_at = 1 + g.below(3); R.ops = 200 + (int)g.below(200); }
        R.c.backoff = (int)g.below(2);
    } else if (o_camp == "bounded") {
        R.ops = 120 + (int)g.below(300);
        if (R.nposix < 2) R.nposix = 2;
        if ((ad->flags & F_FIBERS) && g.p(40)) { R.c.fibers = 4 + (int)g.below(5); R.nposix = 4 + (int)g.below(5); R.ops = 60 + (int)g.below(60); }
        else if (g.p(40)) R.c.fibers = 1;
        R.c.nthreads = R.nposix * R.c.fibers;
        if (R.mode != MODE_CTRL) R.ops *= 10;
        R.work = 0; R.slow = g.p(25) ? 0 : 1 + (int)g.below(6);
        if (R.sp.strategy == ST_STALL && g.p(70)) R.sp.strategy = ST_BURST;
        if (R.sp.strategy == ST_STARVE && g.p(50)) R.sp.strategy = ST_BURST;
    } else if (o_camp == "big") {
        R.ops = o_ops ? o_ops : 200 + (int)g.below(2500);
        if (R.mode == MODE_CTRL) { // a thread is overtaken by enough operations that records and nodes are reused
            R.c.fibers = 1; R.nposix = R.c.nthreads = g.p(70) ? 2 : 3; R.ops = o_ops ? o_ops : 60 + (int)g.below(240);
            R.phase = g.p(60) ? 2 : (int)g.below(4); R.work = 0;
            R.sp.strategy = ST_OVERTAKE; R.sp.victim = (int)g.below(R.nposix); R.sp.vary = 1; R.sp.stall_len = 20 + g.below(g.p(50) ? 100 : 1500); R.sp.stall_at = 1 + g.below(40);
        }
    }
    if (o_camp == "fifo") {
        R.fifo = 1; R.c.fibers = 1; if (R.nposix < 3) R.nposix = 3; R.c.nthreads = R.nposix;
        R.work = 100 + (int)g.below(1200); R.ops = 4 + (int)g.below(8);
        R.sp.victim = -1; R.sp.strategy = (R.seed >> 3) % 3 == 0 ? ST_RMW : ST_BURST;
    }
    if (o_camp == "foot") {
        R.ops = 0; R.foot = (int)g.below(4); R.c.fibers = 1; R.nposix = R.foot >= 2 ? 1 + (int)g.below(4) : 2 + (int)g.below(3); R.c.nthreads = R.nposix;
        if (R.c.backoff > 5) R.c.backoff = 5;
        foot_turn = 0; foot_arr = 0;
        if (o_footpat >= 0) R.foot = o_footpat;
        R.mode = MODE_FREE; R.sp.mode = MODE_FREE;
    }
    if (g.p(35)) { static const int tsos[] = { 5, 30, 70, 100 }; R.sp.tso = tsos[g.below(4)]; }
    if (o_tso >= 0) R.sp.tso = o_tso;
    if (o_phase >= 0) R.phase = o_phase;
    if (o_camp == "lin" && ad->kind == K_COMB && g.p(30)) { R.slow = 1 + (int)g.below(4); if (g.p(50)) R.ops += 10 + (int)g.below(40); }
    if ((o_camp == "lin" || o_camp == "two") && ad->kind == K_SPEC && o_valmode < 0 && R.ops * R.c.nthreads <= 100 && g.p(35)) R.small = 1;
    if (o_camp == "two") {
        R.ninst = 2; if (R.ops > 4) R.ops = 4 + (int)g.below(3);
        if ((ad->kind == K_COMB || ad->kind == K_LOCK) && R.c.fibers == 1 && g.p(50)) R.nest = 1;
    }
    R.sp.nworkers = R.nposix;
    if (R.sp.victim >= R.nposix) R.sp.victim = 0;
}

static void *xalloc(size_t n) { void *p = NULL; if (posix_memalign(&p, 4096, n ? n : 1)) abort(); memset(p, R.fill, n); return p; }

static void fail(const char *kind, const std::string &why) { report_violation(kind, why.c_str()); }

static int pool_prev_n = 0;
static void run_round(adapter *ad, long idx) {
    setup_round(ad, idx);
    cur_round = idx;
    n_fin = 0; ready = 0; round_gen++;
    size_t osz = ad->osize + SLACK, tsz = ad->tsize + SLACK;
    comb_sfunc = seq_apply; spec_sfunc = spec_apply;
    for (int k = 0; k < 2; k++) {
        memset((void *)&CS[k], 0, sizeof CS[k]);
        for (int p = 0; p < R.c.nthreads; p++) hist[k][p].clear();
    }
    for (int k = 0; k < R.ninst; k++) {
        obj[k] = xalloc(osz);
        for (int p = 0; p < R.c.nthreads; p++) ts[k][p] = xalloc(tsz);
    }
    comb_state = &CS[0]; oyama_state[0] = &CS[0]; oyama_state[1] = &CS[1];
    maxsteps_op = 0;
    memset(nested_ops, 0, sizeof nested_ops);
    for (int k = 0; k < R.ninst; k++) ad->init(obj[k], &R.c);
    if (o_prune) for (int k = 0; k < R.ninst; k++) for (int p = 0; p < R.c.nthreads; p++) hist[k][p].reserve(R.ops * 3 + 8);
    sched_round_begin(&R.sp);
    lib_start(R.c.nthreads, thread_main, R.c.fibers > 1 ? R.c.fibers : 1);
    lib_join(R.c.nthreads);
    if (o_camp == "foot") {
        uint64_t per = (uint64_t)foot_chunk_ops * R.c.nthreads;
        int64_t grow = (int64_t)foot_seen[foot_chunks - 1] - (int64_t)foot_seen[1];
        uint64_t ops = per * (foot_chunks - 2);
        n_foot_chunks += foot_chunks; foot_ops += per * foot_chunks;
        if (getenv("FOOTV")) { printf("foot pat=%d posix=%d fib=%d numa=%d:", R.foot, R.nposix, R.c.fibers, R.c.numa); for (int i = 0; i < foot_chunks; i++) printf(" %llu", (unsigned long long)foot_seen[i] / 1024); printf(" KB\n"); }
        // a chunk without any reclamation needs at least 16 bytes per insertion
        uint64_t ins = ops / 2;
        int64_t lim = R.foot >= 2 ? (int64_t)(65536 + ins) : (int64_t)(65536 + ins * 8);
        if (foot_last < (uint64_t)(grow > 0 ? grow : 0) && R.foot >= 2) foot_last = grow;
        if (grow > lim) { char b[200]; snprintf(b, sizeof b, "memory grows with the number of operations: %lld bytes for %llu insertions (pattern %d), each matched by a removal", (long long)grow, (unsigned long long)ins, R.foot); fail("footprint", b); }
        if (vp_bad_frees) fail("footprint", "memory that was not allocated was freed");
    }
    // everything has been joined: main acts as fiber 0 of the last posix thread
    int mp = (R.nposix - 1) * R.c.fibers;
    n_switch += sched_switches(); n_steps_total += sched_steps();
    uint64_t round_hash = (uint64_t)(ad - adapters); bool round_conc = false;
    for (int k = 0; k < (o_camp == "foot" ? 0 : R.ninst); k++) {
        CombState &c = CS[k];
        comb_state = &CS[k];
        if (c.bad) fail("mutex", c.badmsg);
        size_t started = 0; for (int p = 0; p < R.c.nthreads; p++) started += hist[k][p].size();
        size_t want = (size_t)R.ops * R.c.nthreads;
        if (k == 1) for (int p = 0; p < R.c.nthreads; p++) want += nested_ops[p];
        if (started != want) fail("count", "join returned before every thread finished, or a thread did not run exactly once");
        // drain / probe
        int64_t empty = ad->kind == K_QUEUE ? lib_empty_queue : lib_empty_stack;
        if (ad->kind == K_QUEUE || ad->kind == K_STACK) {
            for (size_t i = 0; i <= started + 2; i++) {
                Op o; o.code = OP_REM; o.pid = mp; o.a = o.b = 0; o.inv = sched_stamp();
                o.ret = ad->op(obj[k], ts[k][mp], OP_REM, 0, 0, mp); o.res = sched_stamp();
                hist[k][mp].push_back(o);
                if (o.ret == empty) break;
            }
        } else if (ad->kind == K_SET) {
            std::set<int64_t> ks;
            for (int i = 0; i < R.keys; i++) ks.insert(mkkey(i));
            for (auto key : ks) {
                Op o; o.code = OP_FIND; o.pid = mp; o.a = key; o.b = 0; o.inv = sched_stamp();
                o.ret = ad->op(obj[k], ts[k][mp], OP_FIND, o.a, 0, mp); o.res = sched_stamp();
                hist[k][mp].push_back(o);
            }
        } else if (ad->kind == K_SPEC) {
            Op o; o.code = OP_APPLY; o.pid = mp; o.a = R.small ? 0 : 77; o.b = 0; o.inv = sched_stamp();
            o.ret = ad->op(obj[k], ts[k][mp], OP_APPLY, o.a, 0, mp); o.res = sched_stamp();
            hist[k][mp].push_back(o);
        }
        Hist h; h.reserve(started + 64);
        for (int p = 0; p < R.c.nthreads; p++) for (auto &o : hist[k][p]) h.push_back(o);
        sort_inv(h);
        n_hist_ops += h.size();
        // statistics: does this history contain real concurrency?
        uint64_t eh = 1469598103934665603ULL; bool conc = false; uint64_t mr = 0;
        {
            std::vector<std::pair<uint64_t, int>> ev;
            for (auto &o : h) { if (mr > o.inv) conc = true; if (o.res > mr) mr = o.res; ev.push_back({o.inv, o.pid * 2}); ev.push_back({o.res, o.pid * 2 + 1}); }
            std::sort(ev.begin(), ev.end());
            for (auto &e : ev) eh = hmix(eh, e.second);
            for (auto &o : h) eh = hmix(eh, o.ret);
        }
        if (R.mode == MODE_CTRL) eh = hmix(eh, sched_trace_hash());
        round_hash = hmix(round_hash, eh); round_conc |= conc;
        std::string why;
        switch (ad->kind) {
        case K_COMB: case K_LOCK:
            if (c.applied != started) { char b[160]; snprintf(b, sizeof b, "%llu operations requested, sequential function applied %llu times", (unsigned long long)started, (unsigned long long)c.applied); fail("exactly-once", b); }
            {
                std::vector<int> order;
                if (!chain_check(h, 0, c.state, true, why, &order)) fail("linearizability", why);
                if (R.fifo) {
                    // walk in entry order: everybody who waited for long before this caller arrived must have entered
                    uint64_t minmark = UINT64_MAX; int who = -1; // smallest mark among the later entries
                    for (int i = (int)order.size() - 1; i >= 0; i--) {
                        const Op &o = h[order[i]];
                        if (minmark < o.inv) { n_fifo_pairs++; fail("fifo", "a later caller overtook a waiting one: " + op_str(o, "") + " entered before " + op_str(h[who], "")); }
                        if (o.mark < minmark) { minmark = o.mark; who = order[i]; }
                        if (o.mark != UINT64_MAX) n_fifo_pairs++;
                    }
                }
            }
            break;
        case K_SPEC:
            if (R.small) {
                n_wgl++;
                WGL<CntSpec> w(h, CntSpec()); bool ok = w.run(); n_wgl_nodes += w.explored;
                if (w.gave_up) n_wgl_gaveup++;
                if (!ok) fail("linearizability", "no order of the additions explains this history");
            } else if (!chain_check(h, 0, 0, false, why)) fail("linearizability", why);
            break;
        case K_QUEUE: case K_STACK: {
            if (!patterns(h, empty, ad->kind == K_QUEUE, why)) fail("linearizability", why);
            if (h.back().ret != empty && h.size()) { bool any = false; for (auto &o : hist[k][mp]) if (&o == &hist[k][mp].back()) any = o.ret == empty; if (!any) fail("linearizability", "draining returns more elements than were inserted"); }
            if (h.size() <= 64 || R.mode == MODE_CTRL) {
                if (h.size() <= 120) {
                    n_wgl++;
                    bool ok, gu; uint64_t ex;
                    LinearSpec sp; sp.empty = empty; sp.lifo = ad->kind == K_STACK;
                    WGL<LinearSpec> w(h, sp); ok = w.run(); gu = w.gave_up; ex = w.explored;
                    if (gu) n_wgl_gaveup++;
                    n_wgl_nodes += ex; (void)gu;
                    if (!ok) fail("linearizability", ad->kind == K_QUEUE ? "no FIFO order of the operations explains this history" : "no LIFO order of the operations explains this history");
                }
            }
            if (ad->kind == K_STACK && h.size() > 120) {
                // stack order pattern on a bounded window
                struct T { uint64_t ii, ir, ri, rr; int64_t v; };
                std::unordered_map<int64_t, T> m;
                for (auto &o : h) if (o.code == OP_INS) m[o.a] = T{o.inv, o.res, UINT64_MAX, UINT64_MAX, o.a};
                for (auto &o : h) if (o.code == OP_REM && o.ret != empty) { auto &t = m[o.ret]; t.ri = o.inv; t.rr = o.res; }
                std::vector<T> v; for (auto &kv : m) v.push_back(kv.second);
                std::sort(v.begin(), v.end(), [](const T &a, const T &b) { return a.ir < b.ir; });
                size_t W = 400;
                for (size_t i = 0; i < v.size(); i++) {
                    T &x = v[i]; if (x.ri == UINT64_MAX) continue;
                    for (size_t j = i + 1; j < v.size() && j < i + W; j++) {
                        T &y = v[j];
                        if (x.ir < y.ii && y.ir < x.ri && y.ri > x.rr) { char b[200]; snprintf(b, sizeof b, "LIFO order: value %lld was on top of value %lld but is removed after it", (long long)y.v, (long long)x.v); fail("linearizability", b); }
                    }
                }
            }
            break; }
        case K_SET: {
            std::map<int64_t, Hist> by; for (auto &o : h) by[o.a].push_back(o);
            for (auto &kv : by) {
                n_wgl++;
                if (kv.second.size() > 4000) continue;
                WGL<KSpec> w(kv.second, KSpec()); bool ok = w.run(); n_wgl_nodes += w.explored;
                if (!ok) { char b[120]; snprintf(b, sizeof b, "operations on key %lld are not explained by any sequential set behaviour", (long long)kv.first); fail("linearizability", b); }
            }
            break; }
        }
        if (o_camp == "bounded" && (ad->kind == K_COMB)) {
            uint64_t lim = 16ULL * R.c.nthreads + 16;
            if (c.maxserved * (bound_worst_n ? bound_worst_n : 1) > bound_worst_num * R.c.nthreads) { bound_worst_num = c.maxserved; bound_worst_n = R.c.nthreads; }
            if (c.maxserved > lim) { char b[160]; snprintf(b, sizeof b, "one call executed %llu requests (%d threads): unbounded combining", (unsigned long long)c.maxserved, R.c.nthreads); fail("bounded", b); }
        }
        if (sample.empty() && conc && h.size() <= 24) {
            char b[400]; snprintf(b, sizeof b, "%s posix=%d fibers=%d numa=%d strategy=%d switches=%llu: ", ad->name, R.nposix, R.c.fibers, R.c.numa, R.sp.strategy, (unsigned long long)sched_switches());
            sample = b;
            for (auto &o : h) { snprintf(b, sizeof b, "[t%d %s %lld->%lld @%llu-%llu] ", o.pid, o.code == OP_INS ? "ins" : o.code == OP_REM ? "rem" : o.code == OP_FIND ? "find" : "apply", (long long)o.a, (long long)o.ret, (unsigned long long)o.inv, (unsigned long long)o.res); sample += b; }
        }
    }
    if (o_camp == "foot") round_hash = hmix(hmix(round_hash, R.seed), R.foot), round_conc = R.nposix > 1;
    if (round_conc) { n_conc_rounds++; if (distinct.size() < 4000000) distinct.insert(round_hash); }
    if (o_camp == "progress" && sched_victim_stall_steps() > 0) n_stalls++;
    if (o_camp == "waitfree" && maxsteps_op > max_wf_steps) max_wf_steps = maxsteps_op;
    if (o_camp == "waitfree") {
        uint64_t lim = 800 + 400ULL * R.c.nthreads;
        if (maxsteps_op > lim) { char b[160]; snprintf(b, sizeof b, "an operation needed %llu own steps (limit %llu)", (unsigned long long)maxsteps_op, (unsigned long long)lim); fail("waitfree", b); }
    }
    for (int k = 0; k < R.ninst; k++) { free(obj[k]); for (int p = 0; p < R.c.nthreads; p++) free(ts[k][p]); }
    n_rounds++;
}

extern "C" uint64_t sched_progress(void), sched_steps(void);
static volatile int wd_stop;
static double o_wd = 120;
static void *watchdog(void *) {
    uint64_t last = (uint64_t)-1; double t0 = now(); long lr = -1;
    while (!wd_stop) {
        usleep(200000);
        uint64_t p = sched_progress() + (R.mode == MODE_CTRL ? sched_steps() : 0); // ctrl: the step budget judges, not the clock
        if (p != last || lr != (long)n_rounds) { last = p; lr = (long)n_rounds; t0 = now(); }
        else if (now() - t0 > o_wd) report_violation("progress", "no operation completed for two minutes: the threads are stuck");
    }
    return NULL;
}
static void on_crash(int sig) {
    char b[64]; snprintf(b, sizeof b, "crash: signal %d", sig);
    report_violation("crash", b);
}

extern "C" size_t clhhash_osize, clhhash_tsize, dsmhash_osize, dsmhash_tsize;
static void dump_distinct() { // lets the driver count distinct executions across processes
    const char *fn = getenv("MON_HASHES"); if (!fn) return;
    FILE *f = fopen(fn, "wb"); if (!f) return;
    for (uint64_t x : distinct) fwrite(&x, 8, 1, f);
    fclose(f);
}
int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--obj") o_objs = nx(); else if (a == "--mode") o_mode = nx(); else if (a == "--camp") o_camp = nx();
        else if (a == "--secs") o_secs = atof(nx().c_str()); else if (a == "--seed") o_seed = strtoull(nx().c_str(), 0, 0);
        else if (a == "--round") o_round = atol(nx().c_str()); else if (a == "--rounds") o_rounds = atol(nx().c_str());
        else if (a == "--longstall") o_longstall = atoi(nx().c_str()); else if (a == "--maxposix") o_maxposix = atoi(nx().c_str()); else if (a == "--minposix") o_minposix = atoi(nx().c_str());
        else if (a == "--posix") o_posix = atoi(nx().c_str()); else if (a == "--fibers") o_fibers = atoi(nx().c_str());
        else if (a == "--fibpct") o_fibpct = atoi(nx().c_str()); else if (a == "--maxfib") o_maxfib = atoi(nx().c_str());
        else if (a == "--ops") o_ops = atoi(nx().c_str()); else if (a == "--val") o_valmode = atoi(nx().c_str());
        else if (a == "--numa") o_fixnuma = atoi(nx().c_str()); else if (a == "--backoff") o_backoff = atoi(nx().c_str());
        else if (a == "--ncores") o_ncores = atoi(nx().c_str()); else if (a == "--nodes") o_nodes = atoi(nx().c_str());
        else if (a == "--smt") o_smt = atoi(nx().c_str()); else if (a == "--hang") o_hang = strtoull(nx().c_str(), 0, 0);
        else if (a == "--tso") o_tso = atoi(nx().c_str()); else if (a == "--fill") vp_fill = (unsigned char)atoi(nx().c_str()); else if (a == "--footpat") o_footpat = atoi(nx().c_str()); else if (a == "--chunk") foot_chunk_ops = atoi(nx().c_str()); else if (a == "--phase") o_phase = atoi(nx().c_str()); else if (a == "--wd") o_wd = atof(nx().c_str());
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
    }
    std::vector<adapter *> ads;
    { std::string s = o_objs + ","; size_t p; while ((p = s.find(',')) != std::string::npos) { std::string n = s.substr(0, p); s = s.substr(p + 1);
        for (int i = 0; i < n_adapters; i++) if (n == adapters[i].name) ads.push_back(&adapters[i]); } }
    for (int i = 0; i < n_adapters; i++) {
        if (!strcmp(adapters[i].name, "clhhash")) { adapters[i].osize = clhhash_osize; adapters[i].tsize = clhhash_tsize; }
        if (!strcmp(adapters[i].name, "dsmhash")) { adapters[i].osize = dsmhash_osize; adapters[i].tsize = dsmhash_tsize; }
    }
    if (ads.empty()) { fprintf(stderr, "no object\n"); return 2; }
    // topology is a property of the process, as on a real machine
    Rng g(o_seed * 31 + 5);
    static const int cores[] = { 1, 2, 4, 8, 16, 64, 64, 64 };
    vp_ncores = cores[g.below(8)];
    static const int nodes[] = { 1, 1, 2, 4 };
    vp_nodes = nodes[g.below(4)];
    vp_smt = (int)g.below(2);
    if (o_ncores > 0) vp_ncores = o_ncores;
    if (o_nodes > 0) vp_nodes = o_nodes;
    if (o_smt >= 0) vp_smt = o_smt;
    while (vp_nodes * 2 > vp_ncores && vp_nodes > 1) vp_nodes /= 2;
    R.ad = ads[0];
#ifndef NO_SIGHANDLER
    { static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
      struct sigaction sa = {}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }; for (int s : sg) sigaction(s, &sa, NULL); }
#endif
    if (vp_fill) mallopt(M_PERTURB, vp_fill);
    pthread_t wd; pthread_create(&wd, NULL, watchdog, NULL);
    double t0 = now(), hard = t0 + o_secs;
    long r = o_round >= 0 ? o_round : 0;
    do {
        arena_reset();
        run_round(ads[r % ads.size()], r);
        r++;
        if (o_round >= 0) break;
        if (o_rounds && r >= o_rounds) break;
    } while (now() < hard);
    wd_stop = 1;
    printf("STATS {\"rounds\":%llu,\"concurrent_rounds\":%llu,\"distinct\":%zu,\"ops\":%llu,\"switches\":%llu,\"accesses\":%llu,\"wgl\":%llu,\"wgl_nodes\":%llu,\"wgl_gaveup\":%llu,\"stalls\":%llu,\"max_own_steps\":%llu,\"max_served\":%llu,\"served_threads\":%llu,\"fifo_waiters\":%llu,\"foot_ops\":%llu,\"foot_worst_growth\":%llu,\"delayed_stores\":%llu,\"switches_with_delayed_stores\":%llu,\"instrumented\":%d,\"wall\":%.2f}\n",
           (unsigned long long)n_rounds, (unsigned long long)n_conc_rounds, distinct.size(), (unsigned long long)n_hist_ops, (unsigned long long)n_switch, (unsigned long long)n_steps_total,
           (unsigned long long)n_wgl, (unsigned long long)n_wgl_nodes, (unsigned long long)n_wgl_gaveup, (unsigned long long)n_stalls, (unsigned long long)max_wf_steps, (unsigned long long)bound_worst_num, (unsigned long long)bound_worst_n, (unsigned long long)n_fifo_pairs, (unsigned long long)foot_ops, (unsigned long long)foot_last, (unsigned long long)sched_tso_delayed, (unsigned long long)sched_tso_seen, g_instrumented, now() - t0);
    if (!sample.empty()) printf("SAMPLE %s\n", sample.c_str());
    fflush(stdout); dump_distinct();
    _exit(0);
}
