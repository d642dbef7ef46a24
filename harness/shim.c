/* C wrappers around the primitives API for the C++ monitors (misc.cpp). Public API only. */
#include <config.h>
#include <primitives.h>
#include <threadtools.h>
#include <uthreads.h>
#include <barrier.h>
#include <pool.h>
#include <tvec.h>
#include <fastrand.h>
#include <backoff.h>
#include <bench_args.h>
#include <stats.h>
#include <stdlib.h>
#include <string.h>

size_t shim_pool_size = sizeof(SynchPoolStruct), shim_bar_size = sizeof(SynchBarrier), shim_tv_size = sizeof(ToggleVector), shim_bo_size = sizeof(SynchBackoffStruct);
int shim_recycling =
#ifdef SYNCH_POOL_NODE_RECYCLING_DISABLE
    0;
#else
    1;
#endif
int shim_numa =
#ifdef SYNCH_NUMA_SUPPORT
    1;
#else
    0;
#endif
int shim_debug =
#ifdef DEBUG
    1;
#else
    0;
#endif
int sh_pool_init(void *p, uint32_t n) { return synchInitPool(p, n); }
void *sh_pool_alloc(void *p) { return synchAllocObj(p); }
void sh_pool_recycle(void *p, void *o) { synchRecycleObj(p, o); }
void sh_pool_rollback(void *p, uint32_t n) { synchRollback(p, n); }
void sh_pool_destroy(void *p) { synchDestroyPool(p); }
void sh_bar_set(void *b, uint32_t n) { synchBarrierSet(b, n); }
void sh_bar_wait(void *b) { synchBarrierWait(b); }
void sh_bar_leave(void *b) { synchBarrierLeave(b); }
void sh_bar_lastleave(void *b) { synchBarrierLastLeave(b); }
void *sh_mem(size_t n) { return synchGetMemory(n); }
void *sh_amem(size_t a, size_t n) { return synchGetAlignedMemory(a, n); }
void sh_free(void *p, size_t n) { synchFreeMemory(p, n); }
int64_t sh_millis(void) { return synchGetTimeMillis(); }
uint64_t sh_model(void) { return synchGetMachineModel(); }
int sh_cas128(void *a, uint64_t b0, uint64_t b1, uint64_t c0, uint64_t c1) { return synchCAS128(a, b0, b1, c0, c1); }
/* what optimized user code sees around a 128-bit CAS on ordinary memory */
int sh_cas128_view(uint64_t *a, uint64_t b0, uint64_t b1, uint64_t c0, uint64_t c1, uint64_t *side, uint64_t out[4]) {
    int r;
    a[0] = b0; a[1] = b1; *side = b0 ^ 77;
    r = synchCAS128(a, b0, b1, c0, c1);
    out[0] = a[0]; out[1] = a[1]; out[2] = *side;
    return r;
}
static uint64_t viewcell[2] __attribute__((aligned(16)));
int sh_cas128_view2(uint64_t b0, uint64_t b1, uint64_t c0, uint64_t c1, uint64_t out[4]) {
    int r;
    viewcell[0] = b0; viewcell[1] = b1;
    r = synchCAS128(viewcell, b0, b1, c0, c1);
    out[0] = viewcell[0]; out[1] = viewcell[1];
    return r;
}
int sh_casptr(void *a, void *b, void *c) { return synchCASPTR(a, b, c); }
int sh_cas64(void *a, uint64_t b, uint64_t c) { return synchCAS64(a, b, c); }
int sh_cas32(void *a, uint32_t b, uint32_t c) { return synchCAS32(a, b, c); }
void *sh_swap(void *a, void *b) { return synchSWAP(a, b); }
int32_t sh_faa32(void *a, int32_t b) { return synchFAA32(a, b); }
int64_t sh_faa64(void *a, int64_t b) { return synchFAA64(a, b); }
uint64_t sh_bittas(void *a, int b) { return synchBitTAS64(a, b); }
int sh_bsf(uint64_t a) { return synchBitSearchFirst(a); }
int sh_popc(uint64_t a) { return synchNonZeroBits(a); }
void sh_fullfence(void) { synchFullFence(); }
void sh_fences(void) { synchFullFence(); synchLoadFence(); synchStoreFence(); synchNonTSOFence(); }

void sh_tv_init(void *t, uint32_t n) { TVEC_INIT(t, n); }
void sh_tv_init_at(void *t, uint32_t n, void *p) { TVEC_INIT_AT(t, n, p); }
size_t sh_tv_bytes(uint32_t n) { return _TVEC_VECTOR_SIZE(n); }
int sh_tv_cells(uint32_t n) { return _TVEC_CELLS_(n); }
void sh_tv_zero(void *t) { TVEC_SET_ZERO(t); }
void sh_tv_copy(void *d, void *s) { TVEC_COPY(d, s); }
void sh_tv_neg(void *d, void *s) { TVEC_NEGATIVE(d, s); }
void sh_tv_rev(void *t, int b) { TVEC_REVERSE_BIT(t, b); }
void sh_tv_set(void *t, int b) { TVEC_SET_BIT(t, b); }
int sh_tv_isset(void *t, int b) { return TVEC_IS_SET(t, b); }
void sh_tv_or(void *r, void *a, void *b) { TVEC_OR(r, a, b); }
void sh_tv_and(void *r, void *a, void *b) { TVEC_AND(r, a, b); }
void sh_tv_xor(void *r, void *a, void *b) { TVEC_XOR(r, a, b); }
int sh_tv_count(void *a) { return TVEC_COUNT_BITS(a); }
int sh_tv_bank(int bit, uint32_t n) { return TVEC_GET_BANK_OF_BIT(bit, n); }
void sh_tv_addbank(void *a, void *b, int k) { TVEC_ATOMIC_ADD_BANK(a, b, k); }
void sh_tv_negbank(void *a, void *b, int k) { TVEC_NEGATIVE_BANK(a, b, k); }
void sh_tv_xorbank(void *r, void *a, void *b, int k) { TVEC_XOR_BANKS(r, a, b, k); }
void sh_tv_andbank(void *r, void *a, void *b, int k) { TVEC_AND_BANKS(r, a, b, k); }
void sh_tv_copybank(void *a, void *b, int k) { TVEC_ATOMIC_COPY_BANKS(a, b, k); }

long sh_rand(void) { return synchFastRandom(); }
uint32_t sh_rand32(void) { return synchFastRandom32(); }
void sh_seed(uint32_t s) { synchFastRandomSetSeed(s); }
long sh_range(long a, long b) { return synchFastRandomRange(a, b); }
uint32_t sh_range32(uint32_t a, uint32_t b) { return synchFastRandomRange32(a, b); }
long shim_rand_max = SYNCH_RAND_MAX;

void sh_bo_init(void *b, unsigned x, unsigned y, unsigned z) { synchInitBackoff(b, x, y, z); }
void sh_bo_reset(void *b) { synchResetBackoff(b); }
void sh_bo_delay(void *b) { synchBackoffDelay(b); }
void sh_bo_red(void *b) { synchBackoffReduce(b); }
void sh_bo_inc(void *b) { synchBackoffIncrease(b); }
unsigned sh_bo_cur(void *b) { return ((SynchBackoffStruct *)b)->backoff; }

void sh_fib_init(int n) { synchInitFibers(n); }
int sh_fib_spawn(void *(*f)(void *), long a) { return synchSpawnFiber(f, a); }
void sh_fib_wait(void) { synchWaitForAllFibers(); }
void sh_fib_yield(void) { synchFiberYield(); }

void sh_args(uint64_t out[8], int argc, char **argv) {
    SynchBenchArgs a;
    memset(&a, 0x5a, sizeof a);
    synchParseArguments(&a, argc, argv);
    out[0] = a.runs; out[1] = a.total_runs; out[2] = a.nthreads; out[3] = a.fibers_per_thread;
    out[4] = a.max_work; out[5] = a.numa_nodes; out[6] = a.backoff_low; out[7] = a.backoff_high;
}
uint64_t shim_default_runs = SYNCH_RUNS, shim_default_work = SYNCH_MAX_WORK;
void sh_print_stats(uint32_t n, uint64_t runs) { synchPrintStats(n, runs); }
void sh_stats_start(int id) { synchStartCPUCounters(id); }
void sh_stats_stop(int id) { synchStopCPUCounters(id); }
