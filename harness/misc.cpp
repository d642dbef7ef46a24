// Monitors for the primitives: pool, barrier, thread runtime, placement, atomics, toggle vectors,
// random numbers, backoff, benchmark arguments, statistics.
#include "mon.h"
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <getopt.h>
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <sched.h>
#include <cpuid.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <malloc.h>

extern "C" {
extern size_t shim_pool_size, shim_bar_size, shim_tv_size, shim_bo_size;
extern int shim_recycling, shim_numa, shim_debug; extern long shim_rand_max; extern uint64_t shim_default_runs, shim_default_work;
int sh_pool_init(void *, uint32_t); void *sh_pool_alloc(void *); void sh_pool_recycle(void *, void *); void sh_pool_rollback(void *, uint32_t); void sh_pool_destroy(void *);
void sh_bar_set(void *, uint32_t); void sh_bar_wait(void *); void sh_bar_leave(void *); void sh_bar_lastleave(void *);
void *sh_mem(size_t); void *sh_amem(size_t, size_t); void sh_free(void *, size_t); int64_t sh_millis(void); uint64_t sh_model(void);
int sh_cas128(void *, uint64_t, uint64_t, uint64_t, uint64_t);
int sh_cas128_view(uint64_t *, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t *, uint64_t *);
int sh_cas128_view2(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t *);
int sh_casptr(void *, void *, void *); int sh_cas64(void *, uint64_t, uint64_t); int sh_cas32(void *, uint32_t, uint32_t);
void *sh_swap(void *, void *); int32_t sh_faa32(void *, int32_t); int64_t sh_faa64(void *, int64_t); uint64_t sh_bittas(void *, int);
int sh_bsf(uint64_t); int sh_popc(uint64_t); void sh_fences(void); void sh_fullfence(void);
void sh_tv_init(void *, uint32_t); void sh_tv_init_at(void *, uint32_t, void *); size_t sh_tv_bytes(uint32_t); int sh_tv_cells(uint32_t);
void sh_tv_zero(void *); void sh_tv_copy(void *, void *); void sh_tv_neg(void *, void *); void sh_tv_rev(void *, int); void sh_tv_set(void *, int); int sh_tv_isset(void *, int);
void sh_tv_or(void *, void *, void *); void sh_tv_and(void *, void *, void *); void sh_tv_xor(void *, void *, void *); int sh_tv_count(void *); int sh_tv_bank(int, uint32_t);
void sh_tv_addbank(void *, void *, int); void sh_tv_negbank(void *, void *, int); void sh_tv_xorbank(void *, void *, void *, int); void sh_tv_andbank(void *, void *, void *, int); void sh_tv_copybank(void *, void *, int);
long sh_rand(void); uint32_t sh_rand32(void); void sh_seed(uint32_t); long sh_range(long, long); uint32_t sh_range32(uint32_t, uint32_t);
void sh_bo_init(void *, unsigned, unsigned, unsigned); void sh_bo_reset(void *); void sh_bo_delay(void *); void sh_bo_red(void *); void sh_bo_inc(void *); unsigned sh_bo_cur(void *);
void sh_fib_init(int); int sh_fib_spawn(void *(*)(void *), long); void sh_fib_wait(void); void sh_fib_yield(void);
void sh_args(uint64_t *, int, char **); void sh_print_stats(uint32_t, uint64_t);
extern uint64_t sched_progress(void); int numa_node_of_cpu(int);
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Rng { uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool p(int pct) { return (int)below(100) < pct; } };

static std::string o_camp = "pool", o_mode = "free"; static double o_secs = 2, o_wd = 120; static uint64_t o_seed = 1; static long o_round = -1, o_rounds = 0;
static int o_maxposix = 6, o_big = 0;
static uint64_t round_hash;
static long cur_round; static uint64_t n_rounds, n_checks, n_events; static std::unordered_set<uint64_t> distinct; static std::string sample;
static char cfgbuf[1024];
static int the_mode() { return o_mode == "ctrl" ? MODE_CTRL : o_mode == "delay" ? MODE_DELAY : MODE_FREE; }
static void cfg(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(cfgbuf, sizeof cfgbuf, f, a); va_end(a); }
static pthread_mutex_t vm = PTHREAD_MUTEX_INITIALIZER;
[[noreturn]] static void viol(const char *kind, const char *f, ...) {
    pthread_mutex_lock(&vm);
    char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    printf("MONITOR-VIOLATION kind=%s obj=%s mode=%s seed=%llu round=%ld msg=%s\n", kind, o_camp.c_str(), o_mode.c_str(), (unsigned long long)o_seed, cur_round, b);
    printf("round-config: %s\n", cfgbuf);
    fflush(stdout); _exit(10);
}
extern "C" void mon_report_hang(const char *why) { viol("progress", "%s", why); }
#define CHK(c, kind, ...) do { n_checks++; if (!(c)) viol(kind, __VA_ARGS__); } while (0)
static uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static void *zal(size_t n) { void *p; if (posix_memalign(&p, 64, n)) abort(); memset(p, 0, n); return p; }
extern "C" int64_t seq_apply(void *, int64_t, int) { return 0; }

// ------------------------------------------------------------------ pool
struct Obj { size_t n; uint64_t tag; };
static void fillobj(char *p, size_t n, uint64_t tag) {
    if (n > 4096) { memset(p, (int)tag, 64); memset(p + n - 64, (int)(tag >> 3), 64); memset(p + n / 2, (int)(tag >> 5), 16); return; }
    for (size_t i = 0; i < n; i++) p[i] = (char)((tag >> ((i & 7) * 8)) + i);
}
static bool okobj(const char *p, size_t n, uint64_t tag) {
    if (n > 4096) { for (int i = 0; i < 64; i++) if (p[i] != (char)tag || p[n - 64 + i] != (char)(tag >> 3)) return false; return p[n / 2] == (char)(tag >> 5) && p[n / 2 + 15] == (char)(tag >> 5); }
    for (size_t i = 0; i < n; i++) if (p[i] != (char)((tag >> ((i & 7) * 8)) + i)) return false;
    return true;
}
struct MP { void *pool; uint32_t req; bool used_recycle, tied = false; std::vector<char *> order; std::vector<char *> live; uint64_t peak; };
static void camp_pool(Rng &g) {
    arena_reset();
    uint64_t live0 = vp_live_bytes;
    int np = 1 + g.below(3);
    std::map<char *, Obj> all; std::vector<MP> P(np); uint64_t tagc = g.next();
    uint64_t budget = 1200 + g.below(6000); if (o_big) budget *= 20;
    std::string desc;
    auto mk = [&](MP &m) {
        static const uint32_t sz[] = { 1, 4, 7, 8, 9, 12, 16, 24, 33, 64, 72, 128, 200, 1000, 4096, 65536, 1 << 20, 3000001, (1 << 24) - 5, 33554432 - 64, 4096 * 8192 - 40 };
        int hi = o_big ? 21 : g.p(20) ? 21 : 15;
        m.req = g.p(70) ? sz[g.below(hi)] : 1 + g.below(600); m.used_recycle = false; m.order.clear(); m.live.clear(); m.peak = 0;
        if (!m.pool) m.pool = zal(shim_pool_size + 64); else memset(m.pool, 0, shim_pool_size);
        memset(m.pool, g.p(50) ? 0xa5 : 0, shim_pool_size);
        int r = sh_pool_init(m.pool, m.req);
        CHK(r == 0, "pool", "initialising a pool for objects of %u bytes fails", m.req);
        char b[32]; snprintf(b, 32, "init(%u) ", m.req); if (desc.size() < 300) desc += b;
    };
    auto own = [&](MP &m, char *p) { all.erase(p); (void)m; };
    auto verify = [&](MP &m, char *p) { auto it = all.find(p); CHK(it != all.end() && okobj(p, it->second.n, it->second.tag), "pool", "the contents of a live object of %u bytes changed", m.req); };
    for (auto &m : P) { m.pool = NULL; mk(m); }
    auto alloc = [&](MP &m) {
        char *p = (char *)sh_pool_alloc(m.pool); n_events++;
        CHK(p != NULL, "pool", "allocation returned NULL");
        size_t n = m.req;
        auto it = all.lower_bound(p);
        CHK(it == all.end() || it->first >= p + n, "pool", "allocation of %u bytes overlaps a live object that follows it (distance %ld)", m.req, it == all.end() ? 0L : (long)(it->first - p));
        if (it != all.begin()) { --it; CHK(it->first + it->second.n <= p, "pool", "allocation of %u bytes lies inside a live object of %zu bytes (offset %ld)", m.req, it->second.n, (long)(p - it->first)); }
        for (auto &q : P) { char *x = (char *)q.pool; CHK(p + n <= x || p >= x + shim_pool_size, "pool", "object overlaps a pool descriptor"); }
        CHK(m.req % 8 || ((uintptr_t)p & 7) == 0, "pool", "object of %u bytes is not aligned to 8 bytes", m.req);
        all[p] = Obj{ n, ++tagc }; fillobj(p, n, tagc);
        m.live.push_back(p); m.order.push_back(p); if (m.live.size() > m.peak) m.peak = m.live.size();
    };
    uint64_t bytes = 0;
    for (uint64_t step = 0; step < budget; step++) {
        MP &m = P[g.below(np)];
        int x = (int)g.below(1000); uint64_t big = m.req > 100000;
        if (x < 500) { int k = g.p(5) ? 1 + (int)g.below(big ? 20 : 300) : 1; if (bytes > (2ull << 30)) k = 1; for (int i = 0; i < k; i++) { if (big && m.live.size() > 60) break; alloc(m); bytes += m.req; } }
        else if (x < 850) {
            if (m.live.empty() || (!m.used_recycle && g.p(60))) continue;
            int k = g.p(5) ? (int)g.below(m.live.size()) : 1;
            for (int i = 0; i < k && !m.live.empty(); i++) {
                size_t j = g.p(50) ? m.live.size() - 1 : g.below(m.live.size());
                char *p = m.live[j]; verify(m, p); m.live[j] = m.live.back(); m.live.pop_back(); own(m, p);
                sh_pool_recycle(m.pool, p); n_events++; m.used_recycle = true;
            }
        } else if (x < 960) {
            if (m.used_recycle) { if (g.p(10)) sh_pool_recycle(m.pool, NULL); continue; }
            uint32_t k = g.p(80) ? g.below(std::min<size_t>(m.order.size(), 40) + 1) : g.p(90) ? g.below(m.order.size() + 1) : m.order.size() + g.below(3);
            sh_pool_rollback(m.pool, k); n_events++;
            for (uint32_t i = 0; i < k && !m.order.empty(); i++) { verify(m, m.order.back()); own(m, m.order.back()); m.order.pop_back(); }
            m.live = m.order;
        } else if (x < 975) { for (auto p : m.live) if (g.p(m.live.size() > 100 ? 5 : 50)) verify(m, p); }
        else if (x < 980) { if (m.tied) continue;
            uint64_t lb = vp_live_bytes;
            for (auto p : m.live) { verify(m, p); own(m, p); }
            sh_pool_destroy(m.pool); n_events++;
            if (shim_numa) CHK(vp_live_bytes < lb, "pool", "destroying a pool gives no memory back");
            CHK(vp_bad_frees == 0, "pool", "destroying a pool frees memory that was never allocated");
            mk(m);
        } else if (np > 1 && g.p(30) && shim_recycling) {
            // objects of one pool may be recycled into another pool of the same size
            MP &q = P[g.below(np)]; if (&q == &m || q.req != m.req || m.live.empty()) continue;
            char *p = m.live.back(); verify(m, p); m.live.pop_back(); own(m, p); m.used_recycle = q.used_recycle = m.tied = q.tied = true; sh_pool_recycle(q.pool, p); n_events++;
            // q now depends on the memory of m: give both up at the same time
        }
        if ((step & 255) == 255 && shim_numa && shim_recycling) {
            uint64_t bound = 0;
            for (auto &m2 : P) { uint64_t per = (4096ull * 8192 - 40) / std::max<uint32_t>(m2.req, 8); if (!per) per = 1; (void)per; bound += std::max<uint64_t>(m2.used_recycle ? m2.order.size() : 0, m2.peak + 1) / per * (4096ull * 8192) + 2 * 4096ull * 8192; }
            CHK(vp_live_bytes <= bound + live0, "pool", "the pools hold %llu bytes, more than %llu, the most their objects ever needed", (unsigned long long)vp_live_bytes, (unsigned long long)bound);
        }
    }
    // a pool that recycles everything must not grow
    if (shim_recycling) {
        MP m; m.pool = NULL; mk(m); uint64_t k = 1 + g.below(m.req > 100000 ? 3 : 50); uint64_t lb = 0;
        for (int rep = 0; rep < (m.req > 100000 ? 60 : 3000); rep++) {
            for (uint64_t i = 0; i < k; i++) alloc(m);
            for (auto p : m.live) { verify(m, p); own(m, p); sh_pool_recycle(m.pool, p); }
            m.live.clear(); m.order.clear();
            if (rep == 0) lb = vp_live_bytes;
            CHK(vp_live_bytes == lb, "pool", "a pool grows although every object is recycled before the next ones are allocated (%u-byte objects)", m.req);
        }
        sh_pool_destroy(m.pool); free(m.pool);
    }
    // recycled objects are used before new memory: cycling through more than a block of small objects
    for (auto &m : P) { for (auto p : m.live) { verify(m, p); own(m, p); } }
    for (auto &m : P) { sh_pool_destroy(m.pool); n_events++; free(m.pool); }
    CHK(vp_bad_frees == 0, "pool", "destroying a pool frees memory that was never allocated");
    if (shim_numa) CHK(vp_live_bytes == live0, "pool", "%lld bytes are not given back after all pools were destroyed", (long long)(vp_live_bytes - live0));
    if (g.p(20)) {
        int fd = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
        void *q = zal(shim_pool_size); static const uint32_t too[] = { 4096u * 8192, 4096u * 8192 + 1, 0xffffffffu, 0x80000000u };
        for (auto t : too) { int r = sh_pool_init(q, t); if (r == 0) { dup2(fd, 2); viol("pool", "a pool for objects of %u bytes is accepted although they do not fit in a block", t); } n_checks++; }
        dup2(fd, 2); close(fd); close(nul); free(q);
    }
    (round_hash = hmix(round_hash, hmix(g.next(), budget)));
    if (sample.empty()) sample = desc;
}
// more than one block of small objects
static void camp_poolbig(Rng &g) {
    arena_reset(); void *pool = zal(shim_pool_size);
    uint32_t sz = 512 << g.below(8); if (g.p(30)) sz += 8 * g.below(8);
    CHK(sh_pool_init(pool, sz) == 0, "pool", "init");
    uint64_t per = (4096ull * 8192 - 40) / sz; uint64_t n = per * (2 + g.below(3)) + g.below(per);
    cfg("pool of %u-byte objects, %llu allocations", sz, (unsigned long long)n);
    std::vector<uint64_t *> v; std::set<uint64_t *> s;
    auto al = [&](uint64_t i) { uint64_t *p = (uint64_t *)sh_pool_alloc(pool); p[0] = i; p[sz / 8 - 1] = ~i; v.push_back(p); n_events++; };
    auto check = [&]() { s.clear(); for (size_t i = 0; i < v.size(); i++) { CHK(v[i][0] == i && v[i][sz / 8 - 1] == ~i, "pool", "object %zu of %u bytes was overwritten", i, sz); s.insert(v[i]); }
        CHK(s.size() == v.size(), "pool", "two live objects share an address");
        uint64_t *prev = NULL; for (auto p : s) { CHK(!prev || (char *)p - (char *)prev >= (long)sz, "pool", "two live objects overlap"); prev = p; } };
    for (uint64_t i = 0; i < n; i++) al(i);
    check();
    uint64_t k = g.below(n + 1); sh_pool_rollback(pool, k); v.resize(n - k); check();
    uint64_t lb = vp_live_bytes;
    while (v.size() < n) al(v.size());
    check();
    if (shim_numa) CHK(vp_live_bytes == lb, "pool", "allocating again after a rollback takes new memory");
    if (shim_recycling) {
        for (auto p : v) sh_pool_recycle(pool, p); v.clear();
        for (uint64_t i = 0; i < n; i++) al(i);
        check();
        if (shim_numa) CHK(vp_live_bytes == lb, "pool", "recycled objects are not used again");
    }
    sh_pool_destroy(pool);
    if (shim_numa) CHK(vp_live_bytes == 0 && vp_bad_frees == 0, "pool", "memory is not given back (%llu bytes, %llu bad frees)", (unsigned long long)vp_live_bytes, (unsigned long long)vp_bad_frees);
    free(pool); (round_hash = hmix(round_hash, hmix(n, k)));
}

// ------------------------------------------------------------------ thread groups
static int G_posix, G_fib, G_n; static uint64_t round_gen; static __thread uint64_t t_gen; static __thread int t_left; static uint64_t G_seed; static void (*G_body)(int, Rng &); static uint64_t G_hang;
static volatile int ran[512], done_[512]; static int late_pct = 0; static volatile int stop_now;
static void *grp_main(void *a) {
    int pid = (int)(long)a;
    if (pid < 0 || pid >= G_n) viol("runtime", "a thread runs with the argument %d; %d threads were started", pid, G_n);
    if (t_gen != round_gen) { t_gen = round_gen; t_left = G_fib; sched_worker_enter(pid / G_fib); }
    __atomic_add_fetch(&ran[pid], 1, __ATOMIC_SEQ_CST);
    Rng g(G_seed * 77 + pid * 7919 + 3);
    G_body(pid, g);
    sched_op_done();
    if (--t_left == 0) sched_worker_exit();
    if (late_pct && g.p(late_pct)) usleep(g.below(3000));
    done_[pid] = 1;
    return NULL;
}
static void group(int posix, int fib, uint64_t seed, void (*body)(int, Rng &)) {
    G_posix = posix; G_fib = fib; G_n = posix * fib; G_seed = seed; G_body = body; round_gen++;
    for (int i = 0; i < G_n; i++) ran[i] = done_[i] = 0;
    sched_params sp; memset(&sp, 0, sizeof sp); Rng g(seed ^ 0x55aa);
    sp.mode = the_mode(); sp.nworkers = posix; sp.seed = seed; sp.victim = -1; sp.hang_steps = G_hang;
    int st = (int)g.below(10); sp.strategy = posix == 1 ? ST_BURST : st < 5 ? ST_BURST : st < 7 ? ST_PCT : st < 8 ? ST_RMW : ST_STARVE;
    if (sp.strategy == ST_STARVE) { sp.victim = g.below(posix); sp.stall_len = 5 + g.below(100); }
    if (g.p(50)) sp.tso = 5 + (int)g.below(96);
    sched_round_begin(&sp);
    lib_start(G_n, grp_main, fib > 1 ? fib : 1);
    lib_join(G_n);
    for (int i = 0; i < G_n; i++) { CHK(ran[i] == 1, "runtime", "thread %d of %d ran %d times", i, G_n, ran[i]); CHK(done_[i], "runtime", "join returned while thread %d of %d was still running", i, G_n); }
    n_events += sched_switches();
    if (the_mode() == MODE_CTRL) (round_hash = hmix(round_hash, hmix(sched_trace_hash(), posix * 64 + fib))); else (round_hash = hmix(round_hash, hmix(seed, 1)));
}

// ------------------------------------------------------------------ barrier
static void *B1; static volatile int arrived[64], left_[4]; static int B_phases, B_part, B_style; static volatile uint64_t pub[64][160];
static void bar_body(int pid, Rng &g) {
    if (pid >= B_part) return;
    for (int ph = 0; ph < B_phases; ph++) {
        int w = g.p(30) ? g.below(60) : g.below(4); for (int i = 0; i < w; i++) sched_point();
        if (g.p(15)) lib_resched();
        if (the_mode() != MODE_CTRL && g.p(5)) usleep(g.below(300));
        pub[ph][pid] = G_seed + ph * 1000 + pid;
        __atomic_add_fetch(&arrived[ph], 1, __ATOMIC_SEQ_CST);
        sh_bar_wait(B1);
        int a = arrived[ph];
        CHK(a == B_part, "barrier", "thread %d passed phase %d of the barrier when %d of %d threads had arrived", pid, ph, a, B_part);
        for (int q = 0; q < B_part; q++) CHK(pub[ph][q] == G_seed + ph * 1000 + q, "barrier", "thread %d does not see what thread %d wrote before the barrier", pid, q);
        sched_op_done(); 
    }
    if (B_style) {
        int w = g.below(30); for (int i = 0; i < w; i++) sched_point();
        if (pid == 0) {
            __atomic_add_fetch(&left_[0], 1, __ATOMIC_SEQ_CST);
            sh_bar_lastleave(B1);
            CHK(left_[0] == B_part, "barrier", "the last leaver returned when %d of %d threads had left", left_[0], B_part);
        } else { __atomic_add_fetch(&left_[0], 1, __ATOMIC_SEQ_CST); sh_bar_leave(B1); }
    }
}
static void camp_barrier(Rng &g) {
    arena_reset();
    if (!B1) B1 = zal(shim_bar_size + 64);
    int posix = 1 + g.below(o_maxposix), fib = g.p(35) ? 2 + g.below(4) : 1;
    if (fib > 1 && posix > 4) posix = 1 + g.below(4);
    B_phases = 1 + g.below(o_big ? 60 : 8); B_style = g.p(40);
    int n = posix * fib; B_part = g.p(25) ? 1 + g.below(n) : n;
    for (int i = 0; i < 64; i++) arrived[i] = 0;
    left_[0] = 0;
    vp_ncores = g.p(50) ? 64 : 1 + g.below(4);
    cfg("posix=%d fibers=%d participants=%d phases=%d leave=%d ncores=%d", posix, fib, B_part, B_phases, B_style, vp_ncores);
    memset(B1, g.p(50) ? 0xff : 0, shim_bar_size);
    sh_bar_set(B1, B_part);
    group(posix, fib, g.next(), bar_body);
    for (int p = 0; p < B_phases; p++) CHK(arrived[p] == B_part, "barrier", "phase count");
    if (sample.empty()) sample = cfgbuf;
}

// ------------------------------------------------------------------ thread runtime
static volatile int tids[512]; static volatile int rt_inrun; static volatile int fibarr[512]; static int rt_yields, rt_share;
static volatile uint64_t prog[512];
static void __attribute__((noinline)) stackwork(int pid, Rng &g, int kb) {
    volatile unsigned char buf[24 * 1024]; int n = kb * 1024;
    for (int i = 0; i < n; i++) buf[i] = (unsigned char)(pid * 31 + i);
    for (int y = 0; y < rt_yields; y++) {
        int me = lib_tid(); CHK(me == pid, "runtime", "thread %d has the id %d after %d yields", pid, me, y);
        CHK(lib_ptid() == pid / G_fib * G_fib || G_fib == 1, "runtime", "thread %d: posix thread id %d", pid, lib_ptid());
        CHK(lib_fiber() == pid % G_fib, "runtime", "thread %d runs as fiber %d", pid, lib_fiber());
        prog[pid]++;
        lib_resched();
        if (g.p(20)) for (int i = 0; i < 5; i++) sched_point();
    }
    for (int i = 0; i < n; i++) CHK(buf[i] == (unsigned char)(pid * 31 + i), "runtime", "the stack of thread %d was overwritten", pid);
}
static void rt_body(int pid, Rng &g) {
    CHK(lib_tid() == pid, "runtime", "synchGetThreadId returns %d in thread %d", lib_tid(), pid);
    CHK(lib_ptid() / G_fib == pid / G_fib, "runtime", "the posix id of thread %d is %d", pid, lib_ptid());
    CHK((int)lib_ncores() == vp_ncores, "runtime", "%d cores reported, the machine has %d", (int)lib_ncores(), vp_ncores);
    if (G_fib == 1) CHK(!!lib_oversub() == (G_n > vp_ncores), "runtime", "oversubscription flag is %d with %d threads on %d cores", lib_oversub(), G_n, vp_ncores);
    else if (G_n > vp_ncores) CHK(lib_oversub(), "runtime", "oversubscription flag not set with %d fibers on %d cores", G_n, vp_ncores);
    CHK((int)lib_pref_core() == vp_last_core, "runtime", "thread %d was pinned to core %d but reports core %d", pid, vp_last_core, (int)lib_pref_core());
    CHK(lib_pref_core() == lib_pref_core_of(pid / G_fib % vp_ncores), "runtime", "thread %d runs on core %d, its preferred core is %d", pid, (int)lib_pref_core(), (int)lib_pref_core_of(pid / G_fib % vp_ncores));
    CHK((int)lib_pref_core() < vp_ncores, "runtime", "core out of range");
    CHK(lib_pref_node() == lib_pref_node_of(pid / G_fib % vp_ncores), "runtime", "thread %d reports node %d, expected %d", pid, (int)lib_pref_node(), (int)lib_pref_node_of(pid / G_fib % vp_ncores));
    stackwork(pid, g, 1 + g.below(20));
    // every sibling keeps running: nobody is left behind while the others yield
    fibarr[pid] = 1;
    if (rt_share) {
        int base = pid / G_fib * G_fib, spins = 0;
        for (int q = base; q < base + G_fib; q++) while (!fibarr[q]) { lib_resched(); if (++spins > 2000000) viol("runtime", "fiber %d never runs although its siblings yield", q); }
    }
    if (rt_share == 2) for (int q = 0; q < G_n; q++) while (!fibarr[q]) { lib_resched(); sched_point(); }
    CHK(lib_tid() == pid, "runtime", "thread id changed to %d in thread %d", lib_tid(), pid);
}
static long vmsize_kb() { FILE *f = fopen("/proc/self/statm", "r"); long a = 0; if (f) { if (fscanf(f, "%ld", &a) != 1) a = 0; fclose(f); } return a * 4; }
static int ntasks() { FILE *f = fopen("/proc/self/status", "r"); char b[256]; int n = 0; while (f && fgets(b, sizeof b, f)) sscanf(b, "Threads: %d", &n); if (f) fclose(f); return n; }
static long vm0 = -1; static int tk0 = -1; static uint64_t vm_threads; static uint64_t leak_fibers;
static void camp_runtime(Rng &g) {
    static uint64_t rt_live0; 
    arena_reset();
    if (tk0 < 0) tk0 = ntasks();
    static const int cs[] = { 1, 2, 3, 4, 5, 7, 8, 16, 64, 128 };
    vp_ncores = cs[g.below(10)]; vp_nodes = g.p(60) ? 1 : 1 << g.below(3); while (vp_ncores % vp_nodes) vp_nodes /= 2; vp_smt = g.below(2);
    if (vp_ncores % (2 * vp_nodes)) vp_smt = 0;
    lib_set_policy(1 + g.below(5));
    int posix = 1 + g.below(o_maxposix), fib = g.p(45) ? 2 + g.below(6) : 1;
    if (g.p(3)) { posix = 1 + g.below(24); fib = 1; }
    if (fib > 1 && posix > 4) posix = 1 + g.below(4);
    rt_yields = g.below(12); rt_share = G_fib >= 1 ? g.below(3) : 0; late_pct = g.p(50) ? 0 : 40;
    if (o_mode == "ctrl" && g.p(50)) late_pct = 0;
    for (int i = 0; i < 512; i++) fibarr[i] = 0;
    cfg("posix=%d fibers=%d ncores=%d nodes=%d smt=%d policy=%d yields=%d share=%d", posix, fib, vp_ncores, vp_nodes, vp_smt, (int)lib_get_policy(), rt_yields, rt_share);
    uint64_t lb = vp_live_bytes;
    group(posix, fib, g.next(), rt_body);
    if (shim_numa) {
        long leak = (long)(vp_live_bytes - lb);
        CHK(leak < 8192 + (long)posix * 8192 + (long)posix * fib * 16384, "runtime", "a group of %d posix threads with %d fibers each leaves %ld bytes allocated", posix, fib, leak);
        CHK(vp_bad_frees == 0, "runtime", "memory that was never allocated was freed");
    }
    late_pct = 0;
    vm_threads += posix - 1;
    if (n_rounds == 40) { vm0 = vmsize_kb(); vm_threads = 0; }
    if (n_rounds > 40 && n_rounds % 50 == 0) {
        for (int i = 0; i < 200 && ntasks() > tk0; i++) usleep(10000);
        CHK(ntasks() <= tk0, "runtime", "%d threads are still running after join", ntasks() - tk0);
        if (vm_threads > 60) { long d = vmsize_kb() - vm0; CHK(d < 65536 + (long)vm_threads * 2048 / 1, "runtime", "address space grew by %ld KB over %llu joined threads: finished threads are not released", d, (unsigned long long)vm_threads); }
    }
    if (sample.empty()) sample = cfgbuf;
}

// the fiber interface used directly by one posix thread
static volatile int fb_ran[4096], fb_fin[4096]; static volatile int fb_live, fb_maxlive; static int fb_cap; static volatile int fb_slot[4096]; static uint64_t fb_seed; static volatile int fb_next; static int fb_depth_pct;
static void *fb_main(void *a) {
    long id = (long)a; Rng g(fb_seed + id * 131);
    if (id < 0 || id >= 4096) viol("fibers", "a fiber got the argument %ld", id);
    fb_ran[id]++; fb_live++; if (fb_live > fb_maxlive) fb_maxlive = fb_live;
    int my = lib_fiber();
    CHK(my > 0 && my < fb_cap, "fibers", "fiber index %d with at most %d fibers", my, fb_cap);
    CHK(fb_slot[my] == 0, "fibers", "two live fibers have the index %d", my);
    fb_slot[my] = 1;
    volatile unsigned char buf[16384]; int n = 64 + g.below(16000);
    for (int i = 0; i < n; i += 7) buf[i] = (unsigned char)(id + i);
    int y = g.below(8);
    for (int i = 0; i < y; i++) { sh_fib_yield(); CHK(lib_fiber() == my, "fibers", "the index of a fiber changes from %d to %d", my, lib_fiber()); }
    if (g.p(fb_depth_pct) && fb_next < 4000) { int k = fb_next; fb_next = k + 1; int use = 0; for (int q = 0; q < k; q++) use += fb_fin[q] == 0; int r = sh_fib_spawn(fb_main, k); if (r < 0) { fb_ran[k] = fb_fin[k] = 1; CHK(use >= fb_cap - 1, "fibers", "a fiber cannot be created although only %d of %d are in use", use + 1, fb_cap); } else CHK(use < fb_cap - 1, "fibers", "a fiber is created although all %d are in use", fb_cap); }
    for (int i = 0; i < n; i += 7) CHK(buf[i] == (unsigned char)(id + i), "fibers", "the stack of a fiber was overwritten");
    fb_slot[my] = 0; fb_live--; fb_fin[id]++;
    return NULL;
}
static void *fb_thread(void *) {
    Rng g(fb_seed);
    uint64_t lb = vp_live_bytes;
    fb_cap = 1 + g.below(12); fb_depth_pct = g.p(50) ? 0 : 30;
    cfg("fiber interface: capacity %d", fb_cap);
    fb_next = 0; fb_live = 0; for (int i = 0; i < 4096; i++) { fb_ran[i] = fb_fin[i] = 0; fb_slot[i] = 0; }
    sh_fib_init(fb_cap);
    uint64_t lb2 = 0; int spawned = 0;
    int batches = 1 + g.below(8);
    for (int b = 0; b < batches; b++) {
        int k = g.below(fb_cap + 3);
        for (int i = 0; i < k && fb_next < 3900; i++) {
            int id = fb_next; fb_next = id + 1;
            int live_before = fb_live; (void)live_before; int started = 0; for (int q = 0; q < id; q++) started += fb_fin[q] == 0;
            int r = sh_fib_spawn(fb_main, id); n_events++;
            if (started >= fb_cap - 1) { CHK(r < 0, "fibers", "a fiber is created although all %d are in use", fb_cap); fb_ran[id] = fb_fin[id] = 1; }
            else { CHK(r >= 0, "fibers", "a fiber cannot be created although only %d of %d are in use", started + 1, fb_cap); spawned++; }
            if (g.p(40)) { int y = g.below(6); for (int j = 0; j < y; j++) sh_fib_yield(); CHK(lib_fiber() == 0, "fibers", "the posix thread runs as fiber %d", lib_fiber()); }
        }
        sh_fib_wait();
        for (int q = 0; q < fb_next; q++) CHK(fb_ran[q] == 1 && fb_fin[q] == 1, "fibers", "after waiting for all fibers, fiber %d started %d times and finished %d times", q, fb_ran[q], fb_fin[q]);
        CHK(lib_fiber() == 0, "fibers", "after waiting for all fibers the posix thread runs as fiber %d", lib_fiber());
        if (shim_numa) { if (b == 0) lb2 = vp_live_bytes; else CHK(vp_live_bytes <= std::max<uint64_t>(lb2, lb + 65536) + 4ull * 65536, "fibers", "memory grows with the number of finished fibers: %lld bytes after %d fibers", (long long)(vp_live_bytes - lb), spawned); }
    }
    (round_hash = hmix(round_hash, hmix(fb_seed, spawned)));
    return NULL;
}
static void camp_fibers(Rng &g) {
    arena_reset(); fb_seed = g.next();
    pthread_t t; pthread_create(&t, NULL, fb_thread, NULL); pthread_join(t, NULL);
    CHK(vp_bad_frees == 0, "fibers", "memory that was never allocated was freed");
    if (sample.empty()) sample = cfgbuf;
}

// ------------------------------------------------------------------ placement
static void place_body(int pid, Rng &g) {
    CHK((int)lib_pref_core() == vp_last_core, "placement", "thread %d was pinned to core %d but reports core %d", pid, vp_last_core, (int)lib_pref_core());
    CHK(lib_pref_core() == lib_pref_core_of(pid / G_fib % vp_ncores), "placement", "thread %d is placed on core %d, its preferred core is %d", pid, (int)lib_pref_core(), (int)lib_pref_core_of(pid / G_fib % vp_ncores));
    CHK(lib_pref_node() == lib_pref_node_of(pid / G_fib % vp_ncores), "placement", "thread %d reports node %d, expected %d", pid, (int)lib_pref_node(), (int)lib_pref_node_of(pid / G_fib % vp_ncores));
    tids[pid] = lib_pref_core();
}
static void *noop(void *) { return NULL; }
static const char *polname[] = { "", "FLAT", "NUMA_SPARSE", "NUMA_DENSE", "NUMA_SPARSE_SMT_PREFER", "NUMA_DENSE_SMT_PREFER" };
static void camp_place(Rng &g) {
    arena_reset();
    if (n_rounds == 0) CHK(lib_get_policy() == 4, "placement", "the default policy is %d", (int)lib_get_policy());
    int nodes, per, smt;
    do { nodes = g.p(70) ? 1 << g.below(4) : 1 + g.below(9); per = g.p(50) ? 1 + g.below(24) : 2 * (1 + g.below(24)); smt = g.below(2); } while (nodes * per > 512);
    if (smt && per % 2) smt = 0;
    vp_nodes = nodes; vp_ncores = nodes * per; vp_smt = smt;
    int pol = 1 + g.below(5);
    cfg("nodes=%d cores=%d smt=%d policy=%s", nodes, vp_ncores, smt, polname[pol]);
    lib_set_policy(g.p(5) ? 6 + g.below(1000) : pol); if (lib_get_policy() != (uint32_t)pol) { CHK(lib_get_policy() >= 1 && lib_get_policy() <= 5, "placement", "an unknown policy is accepted"); lib_set_policy(pol); }
    CHK((int)lib_get_policy() == pol, "placement", "policy %d set, policy %d reported", pol, (int)lib_get_policy());
    lib_start(1, noop, 1); lib_join(1);
    CHK((int)lib_ncores() == vp_ncores, "placement", "%d cores reported", (int)lib_ncores());
    std::vector<int> used(vp_ncores, 0), cnt(nodes, 0); int nodes_used = 0; std::set<int> phys;
    for (int p = 0; p < vp_ncores; p++) {
        int c = (int)lib_pref_core_of(p); n_events++;
        CHK(c >= 0 && c < vp_ncores, "placement", "thread %d is placed on core %d of %d", p, c, vp_ncores);
        CHK(!used[c], "placement", "threads %d and %d are both placed on core %d of %d", used[c] - 1, p, c, vp_ncores);
        used[c] = p + 1;
        int nd = (int)lib_pref_node_of(p);
        if (shim_numa) {
            CHK(nd == numa_node_of_cpu(c), "placement", "thread %d on core %d: node %d reported, the core belongs to node %d", p, c, nd, numa_node_of_cpu(c));
            if (!cnt[nd]++) nodes_used++;
            if (pol == 2 || pol == 4) { int mn = 1 << 30, mx = 0; for (int x : cnt) { mn = std::min(mn, x); mx = std::max(mx, x); } CHK(mx - mn <= 1, "placement", "policy %s does not spread %d threads evenly over the nodes (%d on one node, %d on another)", polname[pol], p + 1, mx, mn); }
            if (smt && (pol == 4 || pol == 5)) {
                // the hardware threads of a physical core are used before another physical core of the node
                phys.insert(c % (vp_ncores / 2)); int unit = pol == 4 ? 2 * nodes : 2;
                if ((p + 1) % unit == 0) CHK((int)phys.size() == (p + 1) / 2, "placement", "policy %s uses %d physical cores for %d threads", polname[pol], (int)phys.size(), p + 1);
            }
            if (pol == 3 || pol == 5) CHK(nodes_used == p / per + 1, "placement", "policy %s uses %d nodes for %d threads; a node has %d cores", polname[pol], nodes_used, p + 1, per);
        } else CHK(nd == 0, "placement", "node %d without NUMA support", nd);
    }
    // a second round over the cores repeats the first
    for (int p = 0; p < vp_ncores && p < 40; p++) { int q = (int)lib_pref_core_of(p + vp_ncores * (int)(1 + g.below(2))); CHK(q >= 0 && q < vp_ncores, "placement", "thread beyond the number of cores is placed on core %d", q); }
    int posix = 1 + g.below(std::min(vp_ncores <= 8 ? 20 : 10, 3 * vp_ncores)), fib = g.p(30) ? 2 + g.below(3) : 1;
    for (int i = 0; i < 512; i++) tids[i] = -1;
    group(posix, fib, g.next(), place_body);
    if (posix <= vp_ncores) for (int a = 0; a < posix; a++) for (int b = a + 1; b < posix; b++) CHK(tids[a * fib] != tids[b * fib], "placement", "posix threads %d and %d were pinned to the same core %d of %d", a, b, tids[a * fib], vp_ncores);
    { // larger groups wrap around evenly
        std::map<int, int> percore; for (int a = 0; a < posix; a++) percore[(int)tids[a * fib]]++;
        int mn = posix < vp_ncores ? 0 : 1 << 30, mx = 0; for (auto &kv : percore) { mn = std::min(mn, kv.second); mx = std::max(mx, kv.second); }
        if ((int)percore.size() < vp_ncores) mn = 0;
        CHK(mx - mn <= 1, "placement", "%d posix threads on %d cores: one core runs %d, another one %d", posix, vp_ncores, mx, mn);
    }
    for (int a = 0; a < posix; a++) for (int f = 1; f < fib; f++) CHK(tids[a * fib] == tids[a * fib + f], "placement", "fibers of one posix thread report different cores");
    (round_hash = hmix(round_hash, hmix(hmix(vp_ncores, nodes), pol * 2 + smt)));
    if (sample.empty()) sample = cfgbuf;
}

// ------------------------------------------------------------------ atomics
struct alignas(64) Cell { volatile uint64_t w[8]; };
static Cell SC_[8]; static std::vector<uint64_t> plog[512]; static uint64_t pcount[512][4]; static int P_kind, P_iters, P_delta, P_nulls;
static volatile int sb_x[2][16], sb_r[2]; static volatile int sb_gate; static int sb_how;
static void prim_body(int pid, Rng &g) {
    plog[pid].clear(); for (auto &c : pcount[pid]) c = 0;
    for (int i = 0; i < P_iters; i++) {
        switch (P_kind) {
        case 0: plog[pid].push_back(sh_faa64((void *)&SC_[0].w[1], P_delta)); break;
        case 1: plog[pid].push_back((uint32_t)sh_faa32((void *)((char *)&SC_[0].w[1] + 4), P_delta)); break;
        case 2: { int64_t d = (int64_t)(g.next() >> 20) - (1LL << 43); sh_faa64((void *)&SC_[0].w[1], d); pcount[pid][0] += d; int32_t e = (int32_t)g.next(); sh_faa32((void *)&SC_[0].w[2], e); pcount[pid][1] += (uint32_t)e; break; }
        case 3: { uint64_t v = SC_[0].w[1]; sched_point(); if (sh_cas64((void *)&SC_[0].w[1], v, v + 3)) pcount[pid][0]++; break; }
        case 4: { uint32_t *q = (uint32_t *)&SC_[0].w[1]; uint32_t v = *(volatile uint32_t *)(q + 1); sched_point(); if (sh_cas32(q + 1, v, v + 5)) pcount[pid][0]++; sh_faa32(q, 1); break; }
        case 5: { uint64_t v = SC_[0].w[1]; sched_point(); if (sh_casptr((void *)&SC_[0].w[1], (void *)v, (void *)(v + 8))) pcount[pid][0]++; break; }
        case 6: { uint64_t v = g.p(P_nulls) ? (pcount[pid][1]++, 0) : ((uint64_t)(pid + 1) << 32) | (uint32_t)(i + 1); if (v) pcount[pid][2]++; else v = 0; plog[pid].push_back((uint64_t)sh_swap((void *)&SC_[0].w[1], (void *)v)); break; }
        case 7: { int b = g.below(64); uint64_t o = sh_bittas((void *)&SC_[0].w[1], b); if (!((o >> b) & 1)) { pcount[pid][0]++; plog[pid].push_back(b); } break; }
        case 8: case 9: {
            uint64_t lo, hi; int ok;
            lo = SC_[0].w[2]; sched_point(); hi = SC_[0].w[3];
            uint64_t nlo = (g.next() & ~0xffULL) | pid, nhi = ~nlo * 3;
            ok = sh_cas128((void *)&SC_[0].w[2], lo, hi, nlo, nhi);
            if (ok) { pcount[pid][0]++; CHK(hi == ~lo * 3, "atomics", "a 128-bit CAS succeeds although its two expected words were never stored together"); plog[pid].push_back(lo); plog[pid].push_back(nlo); }
            break; }
        case 10: { // store buffering between two threads
            if (pid > 1) break;
            int me = pid, k = i & 15;
            uint64_t *mine = (uint64_t *)&SC_[2 + me].w[0], *his = (uint64_t *)&SC_[3 - me].w[0];
            __atomic_add_fetch(&sb_gate, 1, __ATOMIC_SEQ_CST); while (sb_gate < 2 * (2 * i + 1)) sched_point();
            for (volatile int z = g.below(30); z > 0; z--) ;
            if (sb_how == 0) { *(volatile uint64_t *)mine = i + 1; sh_fullfence(); }
            else if (sb_how == 1) sh_swap(mine, (void *)(uint64_t)(i + 1));
            else if (sb_how == 2) sh_faa64(mine, 1);
            else sh_cas64(mine, i, i + 1);
            sb_r[me] = *(volatile uint64_t *)his == (uint64_t)(i + 1);
            (void)k;
            __atomic_add_fetch(&sb_gate, 1, __ATOMIC_SEQ_CST); while (sb_gate < 2 * (2 * i + 2)) sched_point();
            if (me == 0) CHK(sb_r[0] || sb_r[1], "atomics", "two threads both miss the other's write although each wrote %s before it read", sb_how == 0 ? "and executed a full fence" : "with an atomic instruction");
            break; }
        }
        if ((i & 15) == 0) sched_op_done();
    }
}
static void camp_prim(Rng &g) {
    arena_reset(); vp_ncores = 8; vp_nodes = 1; vp_smt = 0; vp_real_affinity = 0;
    // sequential semantics
    alignas(16) uint64_t c[6], m[6];
    static const uint64_t ed[] = { 0, 1, ~0ULL, 0x8000000000000000ULL, 0x7fffffffffffffffULL, 0xffffffffULL, 0x100000000ULL, 0x80000000ULL, 0xffffffff00000000ULL };
    auto rv = [&]() { return g.p(50) ? ed[g.below(9)] : g.next(); };
    for (int i = 0; i < 6; i++) c[i] = m[i] = rv();
    cfg("sequential");
    for (int i = 0; i < 400; i++) {
        int k = g.below(6), op = g.below(12); uint64_t a = g.p(60) ? m[k] : rv(), b = rv();
        switch (op) {
        case 0: case 1: { int r = op ? sh_cas64(&c[k], a, b) : sh_casptr(&c[k], (void *)a, (void *)b); CHK(r == (m[k] == a), "atomics", "CAS(%llx, %llx->%llx) returns %d", (unsigned long long)m[k], (unsigned long long)a, (unsigned long long)b, r); if (m[k] == a) m[k] = b; break; }
        case 2: { int h = g.below(2); uint32_t *q = (uint32_t *)&m[k] + h; uint32_t e = g.p(60) ? *q : (uint32_t)a; int r = sh_cas32((uint32_t *)&c[k] + h, e, (uint32_t)b); CHK(r == (*q == e), "atomics", "CAS32 returns %d", r); if (*q == e) *q = (uint32_t)b; break; }
        case 3: { uint64_t r = (uint64_t)sh_swap(&c[k], (void *)b); CHK(r == m[k], "atomics", "SWAP returns %llx, the cell held %llx", (unsigned long long)r, (unsigned long long)m[k]); m[k] = b; break; }
        case 4: { uint64_t r = sh_faa64(&c[k], (int64_t)b); CHK(r == m[k], "atomics", "FAA64 returns %llx, the cell held %llx", (unsigned long long)r, (unsigned long long)m[k]); m[k] += b; break; }
        case 5: { int h = g.below(2); uint32_t *q = (uint32_t *)&m[k] + h; uint32_t r = sh_faa32((uint32_t *)&c[k] + h, (int32_t)b); CHK(r == *q, "atomics", "FAA32 returns %x, the cell held %x", r, *q); *q += (uint32_t)b; break; }
        case 6: { int bit = g.below(64); uint64_t r = sh_bittas(&c[k], bit); CHK(((r >> bit) & 1) == ((m[k] >> bit) & 1), "atomics", "BitTAS of bit %d of %llx returns %llx", bit, (unsigned long long)m[k], (unsigned long long)r); m[k] |= 1ULL << bit; break; }
        case 7: { int j = k & ~1; uint64_t e0 = g.p(70) ? m[j] : a, e1 = g.p(70) ? m[j + 1] : rv(), n1 = rv(); int r = sh_cas128(&c[j], e0, e1, b, n1); bool w = e0 == m[j] && e1 == m[j + 1]; CHK(r == w, "atomics", "CAS128 returns %d, expected %d", r, w); if (w) { m[j] = b; m[j + 1] = n1; } break; }
        case 8: if (b) { CHK(sh_bsf(b) == __builtin_ctzll(b), "atomics", "BitSearchFirst(%llx) = %d", (unsigned long long)b, sh_bsf(b)); } CHK(sh_popc(b) == __builtin_popcountll(b), "atomics", "NonZeroBits(%llx) = %d", (unsigned long long)b, sh_popc(b)); break;
        case 9: { alignas(16) uint64_t x[2], out[4], side; uint64_t b0 = rv(), b1 = rv(), c0 = rv(), c1 = rv(); int r = sh_cas128_view(x, b0, b1, c0, c1, &side, out);
            CHK(r == 1 && out[0] == c0 && out[1] == c1 && out[2] == (b0 ^ 77), "atomics", "after a successful 128-bit CAS the program reads (%llx,%llx), not (%llx,%llx)", (unsigned long long)out[0], (unsigned long long)out[1], (unsigned long long)c0, (unsigned long long)c1);
            r = sh_cas128_view2(b0, b1, c0, c1, out); CHK(r == 1 && out[0] == c0 && out[1] == c1, "atomics", "after a successful 128-bit CAS the program reads a stale word"); break; }
        case 10: sh_fences(); break;
        default: break;
        }
        for (int q = 0; q < 6; q++) CHK(c[q] == m[q], "atomics", "after operation %d on word %d, word %d holds %llx instead of %llx", op, k, q, (unsigned long long)c[q], (unsigned long long)m[q]);
        n_events++;
    }
    // memory
    struct Blk { char *p; size_t n; unsigned char v; size_t al; }; std::vector<Blk> bl; arena_reset();
    uint64_t lb = vp_live_bytes;
    for (int i = 0; i < 60; i++) {
        if (bl.size() < 20 && g.p(65)) {
            size_t n = g.p(70) ? 1 + g.below(5000) : 1 + g.below(300000), al = g.p(60) ? (size_t)8 << g.below(10) : 0; if (g.p(5)) al = 8192u << g.below(5);
            char *p = (char *)(al ? sh_amem(al, n) : sh_mem(n));
            CHK(p, "memory", "allocation of %zu bytes fails", n);
            CHK(!al || ((uintptr_t)p & (al - 1)) == 0, "memory", "allocation with alignment %zu returns an address that is not aligned", al);
            CHK(((uintptr_t)p & 7) == 0, "memory", "allocation is not aligned to a word");
            for (auto &b : bl) CHK(p + n <= b.p || b.p + b.n <= p, "memory", "two live allocations overlap");
            unsigned char v = (unsigned char)g.next(); memset(p, v, n); bl.push_back(Blk{ p, n, v, al });
        } else if (!bl.empty()) {
            size_t j = g.below(bl.size()); Blk b = bl[j]; for (size_t q = 0; q < b.n; q += 1 + b.n / 50) CHK((unsigned char)b.p[q] == b.v, "memory", "an allocation was overwritten");
            if (b.al > 4096) continue;
            bl[j] = bl.back(); bl.pop_back(); sh_free(b.p, b.n);
        }
    }
    for (auto &b : bl) if (b.al <= 4096) sh_free(b.p, b.n);
    CHK(vp_bad_frees == 0, "memory", "the address of a freed block was not the address of an allocation");
    { bool clean = true; for (auto &b : bl) if (b.al > 4096) clean = false; if (shim_numa && clean) CHK(vp_live_bytes == lb, "memory", "%lld bytes stay allocated after everything was freed", (long long)(vp_live_bytes - lb)); }
    { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); int64_t a = t.tv_sec * 1000LL + t.tv_nsec / 1000000; int64_t b = sh_millis(); clock_gettime(CLOCK_MONOTONIC, &t); int64_t e = t.tv_sec * 1000LL + t.tv_nsec / 1000000; CHK(a <= b && b <= e, "time", "the clock shows %lld ms between %lld and %lld", (long long)b, (long long)a, (long long)e); }
    { unsigned eax, ebx, ecx, edx; vp_machine = 0; __get_cpuid(0, &eax, &ebx, &ecx, &edx); char v[13] = { 0 }; memcpy(v, &ebx, 4); memcpy(v + 4, &edx, 4); memcpy(v + 8, &ecx, 4); uint64_t w = !strcmp(v, "AuthenticAMD") ? 1 : !strcmp(v, "GenuineIntel") ? 2 : 3; CHK(sh_model() == w, "machine", "processor %s is reported as model %llu", v, (unsigned long long)sh_model()); }
    // concurrent semantics
    int posix = 2 + g.below(std::max(1, o_maxposix - 1)), fib = 1;
    P_kind = g.below(11); { static const int ds[] = { 1, 1, -1, -1, 2, -2, 3, 8, -16, 30 }; P_delta = ds[g.below(10)]; P_nulls = g.p(50) ? 0 : 30;  } P_iters = o_mode == "ctrl" ? 5 + g.below(30) : 200 + g.below(o_big ? 200000 : 20000);
    if (P_kind == 10) { P_iters = std::min(P_iters, 3000); if (posix < 2) posix = 2; sb_how = g.below(4); }
    for (auto &cc : SC_) for (auto &w : cc.w) w = 0;
    sb_gate = 0;
    uint64_t init = g.p(50) ? 0 : g.next(); if (P_kind == 7) init = 0; if (P_kind == 1) init = init << 32;
    SC_[0].w[1] = init; if (P_kind == 10) SC_[0].w[1] = 0;
    SC_[0].w[2] = P_kind == 8 || P_kind == 9 ? (init = g.next() | 0xff) : P_kind == 2 ? 0 : 0; SC_[0].w[3] = P_kind == 8 || P_kind == 9 ? ~init * 3 : 0;
    cfg("concurrent kind=%d posix=%d iters=%d", P_kind, posix, P_iters);
    group(posix, fib, g.next(), prim_body);
    uint64_t tot = (uint64_t)posix * P_iters, succ = 0, s0 = 0, s1 = 0; n_events += tot;
    for (int p = 0; p < posix; p++) { succ += pcount[p][0]; s0 += pcount[p][0]; s1 += pcount[p][1]; }
    uint64_t fin = SC_[0].w[1];
    switch (P_kind) {
    case 0: case 1: { std::vector<uint64_t> v; for (int p = 0; p < posix; p++) v.insert(v.end(), plog[p].begin(), plog[p].end());
        if (P_kind == 0) for (auto &x : v) x -= init; else for (auto &x : v) x = (uint32_t)(x - (init >> 32));
        std::vector<uint64_t> ex; for (uint64_t i = 0; i < v.size(); i++) ex.push_back(P_kind == 0 ? (uint64_t)((int64_t)i * P_delta) : (uint32_t)((int64_t)i * P_delta));
        std::sort(v.begin(), v.end()); std::sort(ex.begin(), ex.end()); CHK(v == ex, "atomics", "%llu concurrent fetch-and-add(%d) do not return %llu distinct consecutive values", (unsigned long long)tot, P_delta, (unsigned long long)tot);
        uint64_t sum = tot * (uint64_t)(int64_t)P_delta;
        if (P_kind == 0) CHK(fin == init + sum, "atomics", "%llu concurrent FAA64(%d) change the counter by %lld", (unsigned long long)tot, P_delta, (long long)(fin - init)); else CHK((uint32_t)(fin >> 32) == (uint32_t)((init >> 32) + sum) && (uint32_t)fin == 0, "atomics", "concurrent FAA32(%d) lose updates or touch the neighbouring word", P_delta);
        break; }
    case 2: CHK(fin == init + s0, "atomics", "concurrent FAA64 lose updates"); CHK((uint32_t)SC_[0].w[2] == (uint32_t)s1 && (SC_[0].w[2] >> 32) == 0, "atomics", "concurrent FAA32 lose updates or touch the neighbouring word"); break;
    case 3: CHK(fin == init + 3 * succ, "atomics", "%llu successful CAS64(+3) raise the word by %llu", (unsigned long long)succ, (unsigned long long)(fin - init)); break;
    case 4: CHK((uint32_t)(fin >> 32) == (uint32_t)((init >> 32) + 5 * succ) && (uint32_t)fin == (uint32_t)(init + tot), "atomics", "successful CAS32 and FAA32 on neighbouring words do not add up"); break;
    case 5: CHK(fin == init + 8 * succ, "atomics", "%llu successful CASPTR raise the word by %llu", (unsigned long long)succ, (unsigned long long)(fin - init)); break;
    case 6: { // every value written is returned once or left at the end; NULL is written by several threads
        std::map<uint64_t, long> n; uint64_t nulls = 0, vals = 0; for (int p = 0; p < posix; p++) { nulls += pcount[p][1]; vals += pcount[p][2]; for (auto x : plog[p]) n[x]++; } n[fin]++;
        uint64_t zero = 0, other = 0; for (auto &kv : n) { if (kv.first == 0) { zero = kv.second; continue; } CHK(kv.second == 1, "atomics", "two SWAPs return the same value"); other++;
            int p = (int)(kv.first >> 32) - 1; CHK(kv.first == init || (p >= 0 && p < posix && (uint32_t)kv.first >= 1 && (uint32_t)kv.first <= (uint32_t)P_iters), "atomics", "SWAP returns a value that nobody wrote"); }
        CHK(zero == nulls + (init == 0) && other == vals + (init != 0), "atomics", "values are lost or invented by SWAP: %llu different values and %llu times NULL returned, %llu and %llu written", (unsigned long long)other, (unsigned long long)zero, (unsigned long long)(vals + (init != 0)), (unsigned long long)(nulls + (init == 0))); break; }
    case 7: CHK((uint64_t)__builtin_popcountll(fin) == succ, "atomics", "%llu bits claimed by BitTAS, %d set", (unsigned long long)succ, __builtin_popcountll(fin)); break;
    case 8: case 9: {
        std::map<uint64_t, uint64_t> nx; uint64_t e = 0;
        for (int p = 0; p < posix; p++) for (size_t i = 0; i + 1 < plog[p].size(); i += 2) { CHK(!nx.count(plog[p][i]), "atomics", "two 128-bit CAS both replace the same value"); nx[plog[p][i]] = plog[p][i + 1]; e++; }
        uint64_t x = init; while (nx.count(x)) { uint64_t y = nx[x]; nx.erase(x); x = y; }
        CHK(nx.empty() && x == SC_[0].w[2] && SC_[0].w[3] == ~x * 3, "atomics", "successful 128-bit CAS do not form a chain from the first to the last value");
        break; }
    }
    if (sample.empty()) sample = cfgbuf;
}

// ------------------------------------------------------------------ toggle vectors
static void *TVS; static uint32_t TV_n; static void *TVM[512]; static int tv_k[512];
static void tv_body(int pid, Rng &g) {
    int bank = sh_tv_bank(pid, TV_n); bool cur = false;
    for (int i = 0; i < tv_k[pid]; i++) {
        sh_tv_negbank(TVM[pid], TVM[pid], bank);
        sched_point();
        sh_tv_addbank(TVS, TVM[pid], bank); cur = !cur;
        CHK(!!sh_tv_isset(TVS, pid) == cur, "tvec", "after toggling its bit %d times, thread %d of %u reads %d", i + 1, pid, TV_n, !cur);
        sched_op_done();
    }
}
static void camp_tvec(Rng &g) {
    arena_reset(); uint32_t n = g.p(40) ? 1 + g.below(70) : g.p(30) ? 64 * (1 + g.below(5)) + g.below(3) - 1 : 1 + g.below(300);
    cfg("vector of %u bits", n);
    const int K = 4; char *t[K]; std::vector<bool> m[K]; std::vector<void *> mem;
    for (int k = 0; k < K; k++) {
        t[k] = (char *)zal(shim_tv_size + 64); memset(t[k], 0x77, shim_tv_size); m[k].assign(n, false);
        if (g.p(50)) sh_tv_init(t[k], n); else { size_t b = sh_tv_bytes(n); char *q = (char *)zal(b + 16); memset(q, 0xee, b + 16); sh_tv_init_at(t[k], n, q); mem.push_back(q); for (int i = 0; i < 16; i++) CHK((unsigned char)q[b + i] == 0xee, "tvec", "initialising a vector of %u bits writes behind it", n); }
    }
    for (int s = 0; s < 300; s++) {
        int a = g.below(K), b = g.below(K), r = g.below(K), bit = g.p(20) ? n - 1 : g.below(n), op = g.below(8);
        switch (op) {
        case 0: sh_tv_set(t[a], bit); m[a][bit] = true; break;
        case 1: sh_tv_rev(t[a], bit); m[a][bit] = !m[a][bit]; break;
        case 2: if (g.p(20)) { sh_tv_zero(t[a]); m[a].assign(n, false); } break;
        case 3: if (a == b) break; sh_tv_copy(t[a], t[b]); m[a] = m[b]; break;
        case 4: { sh_tv_or(t[r], t[a], t[b]); std::vector<bool> x(n); for (uint32_t i = 0; i < n; i++) x[i] = m[a][i] || m[b][i]; m[r] = x; break; }
        case 5: { sh_tv_and(t[r], t[a], t[b]); std::vector<bool> x(n); for (uint32_t i = 0; i < n; i++) x[i] = m[a][i] && m[b][i]; m[r] = x; break; }
        case 6: { sh_tv_xor(t[r], t[a], t[b]); std::vector<bool> x(n); for (uint32_t i = 0; i < n; i++) x[i] = m[a][i] != m[b][i]; m[r] = x; break; }
        case 7: { int bank = sh_tv_bank(bit, n); CHK(bank == (n > 64 ? bit >> 6 : 0), "tvec", "bit %d of %u lies in bank %d", bit, n, bank); int w = g.below(3);
            std::vector<bool> x = m[r]; for (uint32_t i = bank * 64; i < n && i < (uint32_t)bank * 64 + 64; i++) x[i] = w == 0 ? m[a][i] != m[b][i] : w == 1 ? (m[a][i] && m[b][i]) : (bool)m[a][i];
            if (w == 0) sh_tv_xorbank(t[r], t[a], t[b], bank); else if (w == 1) sh_tv_andbank(t[r], t[a], t[b], bank); else sh_tv_copybank(t[r], t[a], bank); m[r] = x; break; }
        }
        n_events++;
        for (int k = 0; k < K; k++) { int cnt = 0; for (uint32_t i = 0; i < n; i++) { cnt += m[k][i]; CHK(!!sh_tv_isset(t[k], i) == m[k][i], "tvec", "bit %u of a vector of %u bits is wrong after operation %d", i, n, op); } CHK(sh_tv_count(t[k]) == cnt, "tvec", "count of a vector of %u bits is %d, not %d", n, sh_tv_count(t[k]), cnt); }
    }
    for (int k = 0; k < K; k++) free(t[k]); for (auto q : mem) free(q);
    // the announce protocol: every thread toggles only its own bit, by one atomic addition
    int posix = 1 + g.below(o_maxposix), fib = g.p(40) ? 1 + g.below(20) : 1; if (g.p(10)) fib = 30; if (posix * fib > 130) fib = 130 / posix; if (fib < 1) fib = 1;
    TV_n = posix * fib; vp_ncores = 64; TVS = zal(shim_tv_size); sh_tv_init(TVS, TV_n);
    for (uint32_t p = 0; p < TV_n; p++) { TVM[p] = zal(shim_tv_size); sh_tv_init(TVM[p], TV_n); sh_tv_rev(TVM[p], p); sh_tv_negbank(TVM[p], TVM[p], sh_tv_bank(p, TV_n)); tv_k[p] = g.below(12); }
    cfg("toggling: posix=%d fibers=%d", posix, fib);
    group(posix, fib, g.next(), tv_body);
    for (uint32_t p = 0; p < TV_n; p++) CHK(!!sh_tv_isset(TVS, p) == (tv_k[p] & 1), "tvec", "bit %u of %u is %d after %d toggles", p, TV_n, sh_tv_isset(TVS, p), tv_k[p]);
    { int c = 0; for (uint32_t p = 0; p < TV_n; p++) c += tv_k[p] & 1; CHK(sh_tv_count(TVS) == c, "tvec", "count after toggling"); }
    for (uint32_t p = 0; p < TV_n; p++) free(TVM[p]); free(TVS);
    if (sample.empty()) sample = cfgbuf;
}

// ------------------------------------------------------------------ random numbers and backoff
static std::vector<uint64_t> rexp[64]; static uint32_t rseed_[64];
static void rand_seq(uint32_t s, std::vector<uint64_t> &v, int n) { sh_seed(s); for (int i = 0; i < n; i++) { v.push_back(sh_rand()); v.push_back(sh_rand32()); v.push_back(sh_range(0, 1000)); } }
static void rand_body(int pid, Rng &g) {
    sh_seed(rseed_[pid]); size_t k = 0;
    for (int i = 0; i < 60; i++) { uint64_t a = sh_rand(), b = sh_rand32(), c = sh_range(0, 1000); sched_point(); CHK(a == rexp[pid][k] && b == rexp[pid][k + 1] && c == rexp[pid][k + 2], "random", "the sequence of a thread is disturbed by other threads"); k += 3; }
}
static void camp_rand(Rng &g) {
    arena_reset(); static const uint32_t es[] = { 0, 1, 2, 3, 0xffffffff, 0xfffffffe, 0x9068ffff, 0x9068fffe, 0x464fffff, 0x8c9ffffe, 0x8c9fffff, 0x80000000, 0x7fffffff, 65535, 65536 };
    uint32_t s = g.p(40) ? es[g.below(15)] : (uint32_t)g.next(); cfg("seed %u", s);
    sh_seed(s);
    int bins[10] = { 0 }, bins32[16] = { 0 }, bl[16] = { 0 }; const int N = 20000; uint64_t p1 = 0, p2 = 0; int same1 = 0, same2 = 0;
    for (int i = 0; i < N; i++) {
        long r = sh_rand(); uint32_t q = sh_rand32(); n_events += 2;
        CHK(r >= 0 && r <= shim_rand_max, "random", "FastRandom returns %ld", r);
        bins[std::min(9L, r * 10 / 32768)]++; bins32[q >> 28]++; bl[q & 15]++;
        if (i && (uint64_t)r == p1) same1++; if (i && q == p2) same2++; p1 = r; p2 = q;
    }
    CHK(same1 < N / 10 && same2 < N / 10, "random", "seed %u gives a constant sequence (%d/%d repetitions)", s, same1, same2);
    for (int i = 0; i < 10; i++) CHK(bins[i] > N / 40 && bins[i] < N / 4, "random", "seed %u: %d of %d values fall in decile %d", s, bins[i], N, i);
    for (int i = 0; i < 16; i++) CHK(bins32[i] > N / 80 && bins32[i] < N / 5 && bl[i] > N / 80 && bl[i] < N / 5, "random", "seed %u: 32-bit values are not spread", s);
    for (int k = 0; k < 30; k++) {
        long lo = g.p(50) ? (long)g.below(1000) - 500 : (long)(g.next() >> 34) - (1L << 29), w = g.p(60) ? g.below(40) : g.below(1u << 30), hi = lo + w;
        uint32_t l3 = g.p(50) ? g.below(1000) : (uint32_t)g.next(), w3 = g.p(60) ? g.below(40) : (uint32_t)g.next(), h3 = (uint64_t)l3 + w3 > 0xffffffffu ? 0xffffffffu : l3 + w3; std::set<long> seen; std::set<uint32_t> seen3;
        for (int i = 0; i < 400; i++) {
            long r = sh_range(lo, hi); uint32_t q = sh_range32(l3, h3); n_events += 2;
            CHK(r >= lo && r <= hi, "random", "a value in {%ld..%ld} was asked for, %ld returned", lo, hi, r);
            CHK(q >= l3 && q <= h3, "random", "a value in {%u..%u} was asked for, %u returned", l3, h3, q);
            seen.insert(r); seen3.insert(q);
        }
        if (w >= 2) CHK(seen.size() >= std::min<size_t>(w, 40) / 2 + 1, "random", "only %zu values out of {%ld..%ld} are ever returned", seen.size(), lo, hi);
        if (h3 - l3 >= 2) CHK(seen3.size() >= std::min<size_t>(h3 - l3, 40) / 2 + 1, "random", "only %zu values out of {%u..%u} are ever returned", seen3.size(), l3, h3);
    }
    { std::vector<uint64_t> a, b; rand_seq(s, a, 50); sh_rand32(); rand_seq(s, b, 50); CHK(a == b, "random", "the same seed gives two different sequences"); }
    int posix = 1 + g.below(o_maxposix);
    for (int p = 0; p < posix; p++) { rseed_[p] = (uint32_t)g.next(); rexp[p].clear(); rand_seq(rseed_[p], rexp[p], 60); }
    vp_ncores = g.p(50) ? 64 : 1;
    group(posix, 1, g.next(), rand_body);
    // backoff; after the group above the oversubscription flag is that of the group
    char *b = (char *)zal(shim_bo_size + 64);
    unsigned cap = g.below(11), base = g.below(cap + 1), sh = 1 + g.below(4); sh_bo_init(b, base, cap, sh);
    unsigned lo = (1u << base) - 1, hi = (1u << cap) - 1; cfg("backoff base %u cap %u shift %u ncores %d", base, cap, sh, vp_ncores);
    CHK(sh_bo_cur(b) == lo, "backoff", "initial backoff is %u, base is %u", sh_bo_cur(b), lo);
    bool grew = false;
    for (int i = 0; i < 60; i++) {
        unsigned c0 = sh_bo_cur(b), c1; int op = g.below(4);
        if (op == 0) { sh_bo_delay(b); c1 = sh_bo_cur(b); CHK(c1 >= c0, "backoff", "waiting shrinks the backoff from %u to %u", c0, c1); }
        else if (op == 1) { sh_bo_inc(b); c1 = sh_bo_cur(b); CHK(c1 >= c0 && (c1 > c0 || c0 == hi), "backoff", "increase: %u -> %u (cap %u)", c0, c1, hi); grew = true; }
        else if (op == 2) { sh_bo_red(b); c1 = sh_bo_cur(b); CHK(c1 <= c0 && (c1 < c0 || c0 == lo), "backoff", "reduce: %u -> %u (base %u)", c0, c1, lo); }
        else { if (g.p(70)) continue; sh_bo_reset(b); c1 = sh_bo_cur(b); CHK(c1 == lo, "backoff", "reset gives %u, base is %u", c1, lo); }
        CHK(c1 >= lo && c1 <= hi, "backoff", "backoff %u leaves [%u,%u] (operation %d)", c1, lo, hi, op);
        n_events++;
    }
    free(b); (round_hash = hmix(round_hash, hmix(s, cap * 100 + base * 10 + sh)));
    if (sample.empty()) sample = cfgbuf;
}

// ------------------------------------------------------------------ benchmark arguments
static void camp_args(Rng &g) {
    arena_reset(); vp_ncores = 1 + g.below(64); lib_start(1, noop, 1); lib_join(1);
    std::vector<std::string> av = { "bench" }; std::map<char, uint64_t> v;
    static const char *ln[] = { "threads", "fibers", "runs", "max_work", "backoff_low", "backoff_high", "numa_nodes", "backoff" }; static const char sn[] = { 't', 'f', 'r', 'w', 'l', 'b', 'n', 'b' };
    int k = g.below(9); std::string d;
    for (int i = 0; i < k; i++) {
        int o = g.below(8); uint64_t val;
        switch (sn[o]) { case 't': val = 1 + g.below(300); break; case 'f': val = g.p(30) ? 1 : 1 + g.below(40); break; case 'r': val = g.p(50) ? g.below(100000) : g.below(1ull << 40); break; case 'w': val = g.below(100000); break; case 'n': val = g.below(16); break; default: val = g.below(32768); }
        std::string s = std::to_string(val); if (g.p(10)) s = std::string(1 + g.below(3), '0') + s;
        if (!strcmp(ln[o], "backoff")) { if (g.p(50)) continue; av.push_back("--backoff_high=" + s); }
        else if (g.p(30)) av.push_back(std::string("--") + ln[o] + "=" + s); else if (g.p(50)) { av.push_back(std::string("--") + ln[o]); av.push_back(s); }
        else if (g.p(50)) { av.push_back(std::string("-") + sn[o]); av.push_back(s); } else av.push_back(std::string("-") + sn[o] + s);
        v[sn[o]] = val;
    }
    for (auto &s : av) d += s + " ";
    cfg("%s(ncores=%d)", d.c_str(), vp_ncores);
    std::vector<char *> cv; for (auto &s : av) cv.push_back((char *)s.c_str()); cv.push_back(NULL);
    uint64_t out[8]; optind = 0;
    int fd = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    sh_args(out, (int)av.size(), cv.data());
    dup2(fd, 2); close(fd); close(nul);
    auto get = [&](char c, uint64_t df) { return v.count(c) ? v[c] : df; };
    uint64_t th = get('t', vp_ncores), fb = get('f', (uint64_t)-1), runs = get('r', shim_default_runs), tot = runs;
    if (fb != (uint64_t)-1) th *= fb;
    CHK(out[1] == tot, "args", "total runs %llu, expected %llu", (unsigned long long)out[1], (unsigned long long)tot);
    CHK(out[2] == th, "args", "threads %llu, expected %llu", (unsigned long long)out[2], (unsigned long long)th);
    CHK(out[0] == tot / th, "args", "runs per thread %llu, expected %llu", (unsigned long long)out[0], (unsigned long long)(tot / th));
    if (fb != (uint64_t)-1) CHK(out[3] == fb, "args", "fibers %llu, expected %llu", (unsigned long long)out[3], (unsigned long long)fb);
    CHK(out[4] == get('w', shim_default_work), "args", "work %llu", (unsigned long long)out[4]);
    CHK(out[5] == get('n', 0), "args", "numa nodes %llu, expected %llu", (unsigned long long)out[5], (unsigned long long)get('n', 0));
    CHK(out[6] == get('l', 0), "args", "backoff low %llu, expected %llu", (unsigned long long)out[6], (unsigned long long)get('l', 0));
    CHK(out[7] == get('b', 0), "args", "backoff high %llu, expected %llu", (unsigned long long)out[7], (unsigned long long)get('b', 0));
    (round_hash = hmix(round_hash, hmix(k, g.next()))); n_events++;
    if (g.p(3)) {
        static const char *bad[] = { "-h", "--help", "-z", "--nothing", "-t", "--runs" }; int b = g.below(6);
        fflush(stdout); pid_t p = fork();
        if (p == 0) { if (!getenv("MON_STDERR")) { int n2 = open("/dev/null", O_WRONLY); dup2(n2, 2); } char *a[] = { (char *)"bench", (char *)bad[b], NULL }; optind = 0; sh_args(out, 2, a); _exit(77); }
        int st; waitpid(p, &st, 0); CHK(WIFEXITED(st) && WEXITSTATUS(st) == (b < 2 ? 0 : 1), "args", "option %s: exit status %x", bad[b], st);
    }
    if (sample.empty()) sample = cfgbuf;
}

// ------------------------------------------------------------------ statistics of the DEBUG build
static uint64_t sx[512][4]; static volatile uint64_t sword, sword2; alignas(16) static uint64_t sw128[2];
static void stat_body(int pid, Rng &g) {
    uint64_t c = 0, f = 0, s = 0, a = 0; int k = g.below(60);
    for (int i = 0; i < k; i++) {
        int r; uint32_t w32 = 0; uint64_t w64 = 0; void *wp = NULL;
        switch (g.below(9)) {
        case 0: { uint64_t e = g.p(50) ? sword : g.below(8); r = sh_cas64((void *)&sword, e, g.p(30) ? e : sword + 1); c++; f += !r; break; }
        case 1: { void *e = g.p(50) ? (void *)sword : NULL; r = sh_casptr((void *)&sword, e, g.p(30) ? e : g.p(20) ? NULL : (void *)(sword + 1)); c++; f += !r; break; }
        case 2: { uint32_t e = g.below(2); r = sh_cas32(&w32, e, g.p(30) ? e : g.below(5)); c++; f += !r; break; }
        case 3: { alignas(16) uint64_t x[2] = { g.below(3), g.below(3) }; uint64_t e = g.below(3), e1 = g.below(3); bool same = g.p(30); r = sh_cas128(x, e, e1, same ? e : g.below(3), same ? e1 : g.below(3)); c++; f += !r; break; }
        case 4: sh_swap((void *)&sword2, g.p(30) ? (void *)sword2 : (void *)g.below(3)); s++; break;
        case 5: sh_faa64((void *)&sword2, (int64_t)g.below(5) - 2); a++; break;
        case 6: sh_faa32(&w32, (int32_t)g.below(5) - 2); a++; break;
        case 7: lib_resched(); break;
        default: sched_point();
        }
    }
    sx[pid][0] = c; sx[pid][1] = f; sx[pid][2] = s; sx[pid][3] = a;
}
static void statbig_body(int pid, Rng &g) {
    uint64_t n = (1ull << 31) + 1000 + g.below(1000); uint64_t x = 1, y = 0; uint32_t z = 0; uint64_t c = 0, f = 0, s = 0, a = 0;
    switch (pid) {
    case 0: for (uint64_t i = 0; i < n; i++) { f += !sh_cas64((void *)&x, 0, 2); c++; } break;
    case 1: for (uint64_t i = 0; i < n; i++) { f += !sh_cas64((void *)&y, i, i + 1); c++; } break;
    case 2: for (uint64_t i = 0; i < n; i++) { sh_swap((void *)&x, (void *)i); s++; } break;
    default: for (uint64_t i = 0; i < n; i++) { sh_faa32(&z, 1); a++; } break;
    }
    sx[pid][0] = c; sx[pid][1] = f; sx[pid][2] = s; sx[pid][3] = a;
}
static bool near_(double x, double y, double abs_) { if (std::isinf(x) || std::isnan(x) || std::isinf(y) || std::isnan(y)) return (std::isnan(x) && std::isnan(y)) || x == y; return fabs(x - y) <= abs_ + 1e-5 * fabs(y); }
static bool read_stats(double o[5], uint64_t runs = 1, double *avg = NULL) {
    char fn[] = "/tmp/monstatXXXXXX"; int fd = mkstemp(fn); unlink(fn); fflush(stdout); int so = dup(1); dup2(fd, 1); sh_print_stats(1, runs); fflush(stdout); dup2(so, 1); close(so);
    char b[2048]; ssize_t n = pread(fd, b, sizeof b - 1, 0); close(fd); if (n < 0) n = 0; b[n] = 0;
    static const char *key[] = { "executed_CAS: ", "successful_CAS: ", "executed_SWAP: ", "executed_FAA: ", "atomics: " };
    for (int i = 0; i < 5; i++) { char *p = strstr(b, key[i]); if (!p) return false; o[i] = atof(p + strlen(key[i])); }
    static const char *ka[] = { "failed_CAS_per_op: ", "atomics_per_op: ", "operations_per_CAS: " };
    if (avg) for (int i = 0; i < 3; i++) { char *p = strstr(b, ka[i]); if (!p) return false; avg[i] = strtod(p + strlen(ka[i]), NULL); }
    return true;
}
static void camp_stats(Rng &g) {
    arena_reset(); if (!shim_debug) { cfg("release"); return; }
    double a[5], b[5], av[3]; vp_ncores = 64; static bool first = true; uint64_t runs = 1 + g.below(g.p(50) ? 20 : 1000000);
    if (!read_stats(a)) viol("stats", "the statistics line lacks a counter");
    if (first) for (int i = 0; i < 5; i++) CHK(a[i] == 0, "stats", "the totals start from %.0f before any group has run", a[i]);
    first = false;
    int posix = 1 + g.below(o_maxposix), fib = g.p(40) ? 2 + g.below(4) : 1;
    if (o_camp == "statsbig") { posix = 4; fib = 1; }
    cfg("posix=%d fibers=%d runs=%llu", posix, fib, (unsigned long long)runs);
    group(posix, fib, g.next(), o_camp == "statsbig" ? statbig_body : stat_body);
    if (!read_stats(b, runs, av)) viol("stats", "the statistics line lacks a counter");
    double failed = b[0] - b[1], R = (double)runs;
    CHK(near_(av[0], failed / R, 1e-6), "stats", "%.0f failed CAS instructions over %.0f operations are reported as %f per operation", failed, R, av[0]);
    CHK(near_(av[1], b[4] / R, .006), "stats", "%.0f atomic instructions over %.0f operations are reported as %f per operation", b[4], R, av[1]);
    if (b[1] > 0) CHK(near_(av[2], R / b[1], .006), "stats", "%.0f operations and %.0f successful CAS instructions are reported as %f operations per CAS", R, b[1], av[2]);
    double e[5] = { 0 }; for (int i = 0; i < posix * fib; i++) { e[0] += sx[i][0]; e[1] += sx[i][0] - sx[i][1]; e[2] += sx[i][2]; e[3] += sx[i][3]; } e[4] = e[0] + e[2] + e[3];
    static const char *nm[] = { "CAS", "successful CAS", "SWAP", "FAA", "atomic" };
    for (int i = 0; i < 5; i++) CHK(b[i] - a[i] == e[i], "stats", "%.0f %s instructions were executed by the threads, the statistics grew by %.0f", e[i], nm[i], b[i] - a[i]);
    n_events += (uint64_t)e[4];
    if (sample.empty()) sample = cfgbuf;
}

// ------------------------------------------------------------------ main
static volatile int wd_stop;
static void *watchdog(void *) {
    uint64_t last = -1, lr = -1, le = -1; double t0 = now();
    while (!wd_stop) { usleep(200000); uint64_t p = sched_progress(); if (p != last || lr != n_rounds || le != n_checks) { last = p; lr = n_rounds; le = n_checks; t0 = now(); } else if (now() - t0 > o_wd) viol("progress", "no progress for %.0f seconds: the threads are stuck", o_wd); }
    return NULL;
}
static void on_crash(int sig) { viol("crash", "crash: signal %d", sig); }
static void dump_distinct() { // lets the driver count distinct executions across processes
    const char *fn = getenv("MON_HASHES"); if (!fn) return;
    FILE *f = fopen(fn, "wb"); if (!f) return;
    for (uint64_t x : distinct) fwrite(&x, 8, 1, f);
    fclose(f);
}
int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--camp") o_camp = nx(); else if (a == "--mode") o_mode = nx(); else if (a == "--secs") o_secs = atof(nx().c_str()); else if (a == "--seed") o_seed = strtoull(nx().c_str(), 0, 0);
        else if (a == "--round") o_round = atol(nx().c_str()); else if (a == "--rounds") o_rounds = atol(nx().c_str()); else if (a == "--maxposix") o_maxposix = atoi(nx().c_str());
        else if (a == "--big") o_big = atoi(nx().c_str()); else if (a == "--wd") o_wd = atof(nx().c_str()); else if (a == "--hang") G_hang = strtoull(nx().c_str(), 0, 0); else if (a == "--fill") vp_fill = atoi(nx().c_str());
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
    }
    struct { const char *n; void (*f)(Rng &); } C[] = { { "pool", camp_pool }, { "poolbig", camp_poolbig }, { "barrier", camp_barrier }, { "runtime", camp_runtime }, { "fibers", camp_fibers }, { "place", camp_place }, { "prim", camp_prim }, { "tvec", camp_tvec }, { "rand", camp_rand }, { "args", camp_args }, { "stats", camp_stats }, { "statsbig", camp_stats } };
    void (*f)(Rng &) = NULL; for (auto &c : C) if (o_camp == c.n) f = c.f;
    if (!f) { fprintf(stderr, "no such campaign\n"); return 2; }
    vp_ncores = 64; vp_machine = 0;
#ifndef NO_SIGHANDLER
    { static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL); struct sigaction sa = {}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }; for (int s : sg) sigaction(s, &sa, NULL); }
#endif
    if (vp_fill) mallopt(M_PERTURB, vp_fill);
    pthread_t wd; pthread_create(&wd, NULL, watchdog, NULL);
    double t0 = now(); long r = o_round >= 0 ? o_round : 0;
    do { cur_round = r; Rng g(o_seed * 1000003ULL + (uint64_t)r * 2654435761ULL); round_hash = 1; f(g); if (round_hash != 1) distinct.insert(round_hash); n_rounds++; r++; if (o_round >= 0 || (o_rounds && r >= o_rounds)) break; } while (now() < t0 + o_secs);
    wd_stop = 1;
    printf("STATS {\"rounds\":%llu,\"distinct\":%zu,\"ops\":%llu,\"checks\":%llu,\"instrumented\":%d,\"wall\":%.2f}\n", (unsigned long long)n_rounds, distinct.size(), (unsigned long long)n_events, (unsigned long long)n_checks, g_instrumented, now() - t0);
    if (!sample.empty()) printf("SAMPLE %s\n", sample.c_str());
    fflush(stdout); dump_distinct(); _exit(0);
}
