/* Scheduling layer.
 *
 * The library is compiled with compiler-inserted access callbacks (clang's -fsanitize=thread or
 * -fsanitize-coverage=trace-loads,trace-stores) but linked against THIS runtime instead of the
 * sanitizer's. Every shared-memory access of the code under test therefore is a scheduling point:
 *  - MODE_DELAY: real parallel threads, seeded random pauses and yields at accesses;
 *  - MODE_CTRL : exactly one thread runs at a time and a seeded strategy decides at each access who
 *                runs next (replayable from the seed).
 */
#define _GNU_SOURCE
#include "mon.h"
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <time.h>
#include <limits.h>

#define MAXW 256

int g_instrumented = 0;
volatile uint64_t g_access_events = 0;

typedef struct W {
    volatile int state;          /* 0 idle, 1 registered, 2 done */
    volatile int turn;           /* futex word: 1 = may run */
    volatile int sleeping;
    uint64_t steps;
    uint64_t burst;              /* consecutive steps */
    int prio;
    uint64_t mark_at, mark_stamp;
    char pad[192];
} W;

static W ws[MAXW] __attribute__((aligned(64)));
static sched_params P;
static volatile int n_registered, n_alive;
static volatile uint64_t g_clock;        /* stamps */
static uint64_t g_steps, g_switch, g_since_op, g_hash;
static volatile int g_hang;
static uint64_t rng_s;
static uint64_t quantum;
static int cur;                          /* token holder */
static int stalled, stall_over, armed;
static uint64_t arm_base;
static uint64_t stall_begin, stall_others;
static int victim_rmw;
static uint64_t starve_cnt, overtake_from, overtake_steps, ep_len, ep_at;
static volatile uint64_t g_progress;
static uint64_t pct_change[8];
static int pct_n, pct_low;
static volatile unsigned round_gen;

__thread int vf_tmode __attribute__((tls_model("initial-exec"))); /* 0 off, 1 delay, 2 ctrl */
#define t_mode vf_tmode
static __thread int t_idx;

/* ---------------- simulated store buffers (ctrl mode, release assembly only) ----------------
 * A plain store of the library may stay in a FIFO buffer of its posix thread: whenever another thread is
 * switched in, buffered stores are undone in memory and redone when their thread runs again, so only their own
 * thread sees them. Locked instructions, fences, yields, calls and returns of operations and every write that is
 * not a plain store drain the buffer; it also drains by itself after a random number of steps. */
#define SBMAX 12
typedef struct { char *a; int n; uint64_t old, val; } sb_entry;
typedef struct { sb_entry e[SBMAX]; int n; uint64_t due; } sbuf;
static sbuf sb[MAXW];
static int tso, sb_any;
uint64_t sched_tso_delayed, sched_tso_seen;
static inline uint64_t sb_ld(const sb_entry *x) { uint64_t v = 0; memcpy(&v, x->a, x->n); return v; }
static inline void sb_st(const sb_entry *x, uint64_t v) { memcpy(x->a, &v, x->n); }
static void sb_undo(int w) { int i; for (i = sb[w].n - 1; i >= 0; i--) { sb_entry *x = &sb[w].e[i]; x->val = sb_ld(x); sb_st(x, x->old); } }
static void sb_redo(int w) { int i; for (i = 0; i < sb[w].n; i++) { sb_entry *x = &sb[w].e[i]; x->old = sb_ld(x); sb_st(x, x->val); } }
static void sb_recount(void) { int i; sb_any = 0; for (i = 0; i < P.nworkers; i++) if (sb[i].n) sb_any = 1; }
static void sb_shift(int w, int k) { int i; sb[w].n -= k; for (i = 0; i < sb[w].n; i++) sb[w].e[i] = sb[w].e[i + k]; }
static void sb_drain_own(int me) { if (sb[me].n) { sb[me].n = 0; sb_recount(); } }
static inline uint64_t xs(uint64_t *s);
static uint64_t sb_ttl(void);
static void sb_expire(int me) {
    int i, own = 0;
    for (i = 0; i < P.nworkers; i++) {
        int k, j;
        if (!sb[i].n || g_steps < sb[i].due) continue;
        k = 1 + (int)((xs(&rng_s) >> 13) % sb[i].n);
        if (i == me && !own) sb_shift(i, k);
        else {
            if (!own) { sb_undo(me); own = 1; }
            for (j = 0; j < k; j++) sb_st(&sb[i].e[j], sb[i].e[j].val);
            sb_shift(i, k);
        }
        sb[i].due = g_steps + sb_ttl();
    }
    if (own) sb_redo(me);
    sb_recount();
}
static __thread uint64_t t_rng;
static __thread uint64_t t_dsteps;

static inline uint64_t xs(uint64_t *s) {
    uint64_t x = *s;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return *s = x;
}
static inline uint64_t mixu(uint64_t z) {
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return (z ^ (z >> 31)) | 1;
}

static uint64_t sb_ttl(void) { uint64_t r = xs(&rng_s) >> 9; return (r & 3) == 0 ? 1 + (r >> 2) % 8 : (r & 3) < 3 ? 1 + (r >> 2) % 120 : 1 + (r >> 2) % 1500; }
static int spin_budget = 200;

static void park(W *w) {
    int i;
    for (i = 0; i < spin_budget; i++) {
        if (__atomic_load_n(&w->turn, __ATOMIC_ACQUIRE)) goto out;
        __builtin_ia32_pause();
    }
    __atomic_store_n(&w->sleeping, 1, __ATOMIC_SEQ_CST);
    while (!__atomic_load_n(&w->turn, __ATOMIC_SEQ_CST))
        syscall(SYS_futex, &w->turn, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(&w->sleeping, 0, __ATOMIC_SEQ_CST);
out:
    __atomic_store_n(&w->turn, 0, __ATOMIC_RELAXED);
}
static void unpark(W *w) {
    __atomic_store_n(&w->turn, 1, __ATOMIC_SEQ_CST);
    if (__atomic_load_n(&w->sleeping, __ATOMIC_SEQ_CST))
        syscall(SYS_futex, &w->turn, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

static uint64_t new_quantum(void) {
    uint64_t r = xs(&rng_s);
    switch ((r >> 8) & 7) {
    case 0: case 1: case 2: return 1 + (r >> 16) % 4;
    case 3: case 4: return 1 + (r >> 16) % 20;
    case 5: return 1 + (r >> 16) % 60;
    case 6: return 1 + (r >> 16) % 200;
    default: return 1 + (r >> 16) % 900;
    }
}

static inline int eligible(int i) {
    if (ws[i].state != 1) return 0;
    if (stalled && i == P.victim) return 0;
    return 1;
}
static int pick_random(int not_me) {
    int i, n = 0, cand[MAXW];
    for (i = 0; i < P.nworkers; i++)
        if (i != not_me && eligible(i)) cand[n++] = i;
    if (n == 0) return (not_me >= 0 && eligible(not_me)) ? not_me : -1;
    return cand[(xs(&rng_s) >> 11) % n];
}
static int pick_prio(void) {
    int i, b = -1;
    for (i = 0; i < P.nworkers; i++)
        if (eligible(i) && (b < 0 || ws[i].prio > ws[b].prio)) b = i;
    return b;
}

/* the workload proper has begun: from now on a thread may be stalled */
void sched_arm(void) { if (!armed && P.victim >= 0) { arm_base = ws[P.victim].steps; armed = 1; } }
static void end_stall(void) { stalled = 0; stall_over = 1; }

static void new_episode(void) {
    ep_len = P.stall_len; ep_at = P.stall_at;
    if (!P.vary) return;
    if (ep_len) ep_len = 1 + (xs(&rng_s) >> 9) % ep_len;
    if (ep_at) ep_at = 1 + (xs(&rng_s) >> 9) % ep_at;
}

static int others_alive(void) {
    int i;
    for (i = 0; i < P.nworkers; i++)
        if (i != P.victim && ws[i].state == 1) return 1;
    return 0;
}

/* Decide who runs next; called by the token holder. kind: 0 plain access, 1 RMW, 2 yield, 3 exit */
static int decide(int me, int kind) {
    if (P.strategy == ST_STALL && P.victim >= 0) {
        if (armed && !stall_over && !stalled && me == P.victim && ws[me].steps >= arm_base + P.stall_at && kind != 3 && (!P.after_rmw || (victim_rmw && kind == 0))) {
            stalled = 1; stall_begin = g_steps;
        }
        if (me == P.victim) victim_rmw = kind == 1;
        if (stalled) {
            if (me != P.victim) stall_others++;
            if (!others_alive() || (P.stall_len && g_steps - stall_begin > P.stall_len)) end_stall();
        }
        if (stalled && me == P.victim) { quantum = new_quantum(); return pick_random(me); }
    }
    if (kind == 3) { quantum = new_quantum(); return P.strategy == ST_PCT ? pick_prio() : pick_random(me); }
    switch (P.strategy) {
    case ST_PCT: {
        int i;
        for (i = 0; i < pct_n; i++)
            if (g_steps == pct_change[i]) ws[me].prio = pct_low--;
        if (kind == 2 || ++ws[me].burst > 400) {
            ws[me].burst = 0;
            ws[me].prio = pct_low--;
        }
        i = pick_prio();
        if (i != me && i >= 0) ws[me].burst = 0;
        return i;
    }
    case ST_RMW:
        if (kind == 2) return pick_random(me);
        if (kind == 1) return (xs(&rng_s) & 0x300) ? pick_random(-1) : me;
        if (++ws[me].burst > 300) { ws[me].burst = 0; return pick_random(me); }
        return ((xs(&rng_s) >> 9) % 64 == 0) ? pick_random(me) : me;
    case ST_STARVE:
        /* the victim gets one step out of stall_len */
        starve_cnt++;
        if (me == P.victim) { quantum = 1 + (xs(&rng_s) >> 9) % 64; return pick_random(me); }
        if (starve_cnt % (P.stall_len ? P.stall_len : 50) == 0 && eligible(P.victim)) return P.victim;
        if (kind == 2 || --quantum == 0) {
            int n, k = 0;
            quantum = new_quantum();
            do { n = pick_random(me); } while (n == P.victim && ++k < 8);
            return n;
        }
        return me;
    case ST_OVERTAKE:
        if (me == P.victim) {
            if (armed && kind != 2 && ++starve_cnt < ep_len) return me;
            if (!armed && kind != 2 && starve_cnt++ < 50) return me;
            starve_cnt = 0; new_episode(); overtake_from = g_progress; overtake_steps = g_steps;
            quantum = new_quantum();
            return pick_random(me);
        }
        /* 20000 accesses without that many operations: the others may depend on the victim */
        if (eligible(P.victim) && (g_progress - overtake_from >= ep_at || g_steps - overtake_steps > 20000 || !armed)) {
            if (armed || (xs(&rng_s) >> 9) % 16 == 0) { starve_cnt = 0; return P.victim; }
        }
        if (kind == 2 || --quantum == 0) {
            int n, k = 0;
            quantum = new_quantum();
            do { n = pick_random(me); } while (n == P.victim && ++k < 8);
            return n;
        }
        return me;
    default:
        if (kind == 2) { quantum = new_quantum(); return pick_random(me); }
        if (quantum == 0 || --quantum == 0) { quantum = new_quantum(); return pick_random(-1); }
        return me;
    }
}

static void handoff(int me, int nxt, int wait) {
    if (nxt == me && wait) return;
    g_switch++;
    g_hash = (g_hash ^ ((uint64_t)(nxt + 1) * 0x9E3779B97F4A7C15ULL + ws[me].steps)) * 0x100000001B3ULL;
    cur = nxt;
    if (sb[me].n) { sb_undo(me); sched_tso_seen++; }
    if (nxt >= 0) unpark(&ws[nxt]);
    if (wait) { park(&ws[me]); if (sb[me].n) sb_redo(me); }
}

static void ctrl_point(int kind) {
    int me = t_idx, nxt;
    W *w = &ws[me];
    w->steps++;
    g_steps++;
    if (w->steps == w->mark_at) w->mark_stamp = ++g_clock;
    if (__builtin_expect(sb_any, 0)) { if (kind == 1 || kind == 2) sb_drain_own(me); sb_expire(me); }
    if (++g_since_op > P.hang_steps && !g_hang) {
        /* no operation completed for hang_steps accesses */
        extern void mon_report_hang(const char *why);
        g_hang = 1;
        mon_report_hang(stalled ? "no operation of the running threads completes while one thread is stalled"
                                : "no operation completes under a fair schedule");
    }
    nxt = decide(me, kind);
    if (nxt < 0) nxt = me;
    if (nxt != me) handoff(me, nxt, 1);
}

static void delay_point(int kind) {
    uint64_t r = xs(&t_rng);
    t_dsteps++;
    if (kind == 2) { syscall(SYS_sched_yield); return; }
    if ((r & (kind == 1 ? 0x1f : 0xff)) != 0) return;
    r >>= 20;
    switch (r & 15) {
    case 0: syscall(SYS_sched_yield); break;
    case 1: { volatile int i, n = (r >> 4) % 20000; for (i = 0; i < n; i++) ; break; }
    case 2: if (((r >> 4) & 7) == 0) { struct timespec ts = {0, 1000 * (1 + (long)((r >> 8) % 60))}; nanosleep(&ts, NULL); } break;
    default: { volatile int i, n = (r >> 4) % 300; for (i = 0; i < n; i++) ; }
    }
}

static inline void point(int kind) {
    if (__builtin_expect(t_mode == 2, 1)) ctrl_point(kind);
    else if (t_mode == 1) delay_point(kind);
}

void sched_point(void) { if (sb_any && t_mode == 2) sb_drain_own(t_idx); point(0); }
/* ask for the time stamp at which the calling worker will have taken n more steps */
void sched_set_mark(uint64_t n) { if (t_mode == 2) { ws[t_idx].mark_stamp = UINT64_MAX; ws[t_idx].mark_at = ws[t_idx].steps + n; } }
uint64_t sched_get_mark(void) { return t_mode == 2 ? ws[t_idx].mark_stamp : UINT64_MAX; }
void sched_yield_point(void) { point(2); }
int sched_hang(void) { return g_hang; }
int sched_stalled_now(void) { return stalled; }
uint64_t sched_victim_stall_steps(void) { return stall_others; }
uint64_t sched_steps(void) { return g_steps; }
uint64_t sched_my_steps(void) { return t_mode == 2 ? ws[t_idx].steps : t_dsteps; }
uint64_t sched_switches(void) { return g_switch; }
uint64_t sched_trace_hash(void) { return g_hash; }
uint64_t sched_stamp(void) {
    if (t_mode == 2) { if (sb_any) sb_drain_own(t_idx); return ++g_clock; }
    return __atomic_add_fetch(&g_clock, 1, __ATOMIC_SEQ_CST);
}
uint64_t sched_progress(void) { return g_progress; }
void sched_op_done(void) {
    g_since_op = 0;
    g_progress++; /* racy on purpose: only a heartbeat */
}

void sched_round_begin(const sched_params *p) {
    int i;
    P = *p;
    if (P.nworkers > MAXW) { fprintf(stderr, "too many workers\n"); exit(2); }
    g_clock = 0; g_steps = 0; g_switch = 0; g_since_op = 0; g_hash = 1469598103934665603ULL;
    g_hang = 0; n_registered = 0; n_alive = P.nworkers; stalled = 0; stall_over = 0; stall_others = 0; armed = 0;
    victim_rmw = 0; starve_cnt = 0; overtake_from = g_progress; overtake_steps = 0; tso = P.tso; sb_any = 0; ep_len = P.stall_len; ep_at = P.stall_at;
    for (i = 0; i < P.nworkers; i++) sb[i].n = 0;
    rng_s = mixu(P.seed);
    quantum = new_quantum();
    for (i = 0; i < P.nworkers; i++) {
        ws[i].state = 0; ws[i].turn = 0; ws[i].sleeping = 0; ws[i].steps = 0; ws[i].burst = 0; ws[i].mark_at = 0; ws[i].mark_stamp = UINT64_MAX;
        ws[i].prio = 1000 + (int)((xs(&rng_s) >> 7) % 1000);
    }
    pct_low = 900;
    pct_n = 1 + (xs(&rng_s) >> 9) % 7;
    for (i = 0; i < pct_n; i++) pct_change[i] = (xs(&rng_s) >> 9) % (uint64_t)(200 * (1 + P.nworkers));
    if (P.hang_steps == 0) P.hang_steps = 8000000;
    t_mode = 0;
    __sync_synchronize();
}

void sched_worker_enter(int widx) {
    if (P.mode == MODE_FREE) { t_mode = 0; t_idx = widx; return; }
    if (P.mode == MODE_DELAY) {
        t_rng = mixu(P.seed ^ ((uint64_t)(widx + 1) << 40));
        t_idx = widx; t_dsteps = 0; t_mode = 1;
        return;
    }
    t_idx = widx;
    ws[widx].state = 1;
    if (__atomic_add_fetch(&n_registered, 1, __ATOMIC_SEQ_CST) == P.nworkers) {
        int first = P.strategy == ST_PCT ? pick_prio() : pick_random(-1);
        cur = first;
        t_mode = 2;
        if (first != widx) { unpark(&ws[first]); park(&ws[widx]); }
    } else {
        t_mode = 2;
        park(&ws[widx]);
    }
}

void sched_worker_exit(void) {
    int me = t_idx, nxt;
    if (t_mode != 2) { t_mode = 0; return; }
    sb_drain_own(me);
    ws[me].state = 2;
    g_since_op = 0;
    if (stalled && !others_alive()) end_stall();
    nxt = decide(me, 3);
    if (nxt == me || nxt < 0 || ws[nxt].state != 1) {
        int i; nxt = -1;
        if (stalled) end_stall();
        for (i = 0; i < P.nworkers; i++) if (ws[i].state == 1) { nxt = i; break; }
    }
    t_mode = 0;
    if (nxt >= 0) handoff(me, nxt, 0);
}

/* ---------------- callbacks inserted by the compiler ---------------- */
#define EV(k) do { if (t_mode) point(k); } while (0)
void __tsan_init(void) { g_instrumented = 1; }
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void *p) { EV(0); } \
    void __tsan_write##n(void *p) { EV(0); } \
    void __tsan_read_write##n(void *p) { EV(0); } \
    void __tsan_unaligned_read##n(void *p) { EV(0); } \
    void __tsan_unaligned_write##n(void *p) { EV(0); } \
    void __tsan_unaligned_read_write##n(void *p) { EV(0); } \
    void __tsan_volatile_read##n(void *p) { EV(0); } \
    void __tsan_volatile_write##n(void *p) { EV(0); } \
    void __tsan_unaligned_volatile_read##n(void *p) { EV(0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { EV(0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { EV(0); }
void __tsan_write_range(void *p, unsigned long n) { EV(0); }
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_vptr_read(void **p) {}

/* memcpy of shared state is not atomic: copy word by word with scheduling points in between */
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    size_t i = 0;
    if (!t_mode) return memcpy(d, s, n);
    EV(0);
    for (; i + 8 <= n; i += 8) {
        *(volatile uint64_t *)((char *)d + i) = *(const volatile uint64_t *)((const char *)s + i);
        if ((i & 8) == 0) EV(0);
    }
    for (; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
    return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) { EV(0); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { EV(0); return memset(d, c, n); }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo) { EV(0); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { EV(0); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { T r; EV(1); r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); EV(1); return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { T r; EV(1); r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); EV(1); return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { T r; EV(1); r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); EV(1); return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { T r; EV(1); r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); EV(1); return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { T r; EV(1); r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); EV(1); return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { T r; EV(1); r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); EV(1); return r; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { T r; EV(1); r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); EV(1); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { int r; EV(1); r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); EV(1); return r; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { int r; EV(1); r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); EV(1); return r; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { EV(1); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); EV(1); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { EV(0); __sync_synchronize(); }
void __tsan_atomic_signal_fence(int mo) {}

/* hooks inserted into the assembly of a release build (lib/asmhook.py) */
#ifdef ASM_HOOKS
void vf_point(int kind, char *addr) {
    g_instrumented = 1;
    if (t_mode != 2) { if (t_mode) delay_point(kind == 1); return; }
    if (kind == 2 || kind == 3) { if (sb_any) sb_drain_own(t_idx); if (kind == 2) ctrl_point(0); return; }
    ctrl_point(kind == 1);
    if (kind > 16 && tso) {
        sbuf *b = &sb[t_idx];
        if (b->n == 0 && (int)((xs(&rng_s) >> 11) % 100) >= tso) return;
        if (b->n == SBMAX) sb_shift(t_idx, 1);
        if (b->n == 0) b->due = g_steps + sb_ttl();
        b->e[b->n].a = addr; b->e[b->n].n = kind - 16; b->e[b->n].old = sb_ld(&b->e[b->n]); b->n++;
        sb_any = 1; sched_tso_delayed++;
    }
}
#endif

/* sancov flavour (used together with AddressSanitizer) */
void __sanitizer_cov_trace_pc(void) {}
#define SC(n, T) void __sanitizer_cov_load##n(T *p) { g_instrumented = 1; EV(0); } \
                 void __sanitizer_cov_store##n(T *p) { EV(0); }
SC(1, uint8_t) SC(2, uint16_t) SC(4, uint32_t) SC(8, uint64_t) SC(16, __uint128_t)

/* cross-module calls whose bodies are inline assembly or hardware pauses */
#include <stdbool.h>
#ifndef NO_WRAP
__attribute__((weak)) bool __real__CAS128(uint64_t *A, uint64_t B0, uint64_t B1, uint64_t C0, uint64_t C1);
bool __wrap__CAS128(uint64_t *A, uint64_t B0, uint64_t B1, uint64_t C0, uint64_t C1) {
    bool r;
    EV(1);
    r = __real__CAS128(A, B0, B1, C0, C1);
    EV(1);
    return r;
}
__attribute__((weak)) uint64_t __real_synchGetMachineModel(void);
uint64_t __wrap_synchGetMachineModel(void) {
    /* the vendor of the (virtual) processor is an input of a campaign */
    return vp_machine ? (uint64_t)vp_machine : __real_synchGetMachineModel();
}
__attribute__((weak)) void __real_synchResched(void);
void __wrap_synchResched(void) {
    __real_synchResched();
    if (t_mode) point(2);
}
/* variants without callbacks around atomic instructions: the primitives are scheduling points */
#define WR(ret, name, args, call) __attribute__((weak)) ret __real_##name args; \
    ret __wrap_##name args { ret r; EV(1); r = __real_##name call; EV(1); return r; }
WR(bool, _CASPTR, (void *A, void *B, void *C), (A, B, C))
WR(bool, _CAS64, (uint64_t *A, uint64_t B, uint64_t C), (A, B, C))
WR(bool, _CAS32, (uint32_t *A, uint32_t B, uint32_t C), (A, B, C))
WR(void *, _SWAP, (void *A, void *B), (A, B))
WR(int32_t, _FAA32, (volatile int32_t *A, int32_t B), (A, B))
WR(int64_t, _FAA64, (volatile int64_t *A, int64_t B), (A, B))
WR(uint64_t, _BitTAS64, (volatile uint64_t *A, unsigned char B), (A, B))
#endif
