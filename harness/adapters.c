/* Uniform access to the library's public API. Only documented functions and types are used. */
#include <config.h>
#include <primitives.h>
#include <threadtools.h>
#include <uthreads.h>
#include <queue-stack.h>
#include <ccsynch.h>
#include <dsmsynch.h>
#include <hsynch.h>
#include <osci.h>
#include <fc.h>
#include <oyama.h>
#include <sim.h>
#include <lfuobject.h>
#include <ccqueue.h>
#include <dsmqueue.h>
#include <hqueue.h>
#include <osciqueue.h>
#include <fcqueue.h>
#include <simqueue.h>
#include <msqueue.h>
#include <lcrq.h>
#include <ccstack.h>
#include <dsmstack.h>
#include <hstack.h>
#include <oscistack.h>
#include <fcstack.h>
#include <simstack.h>
#include <lfstack.h>
#include <clh.h>
#include <mcs.h>
#ifdef USE_CLHHASH
#include <clhhash.h>
#endif
#include "mon.h"

int64_t lib_empty_queue = EMPTY_QUEUE, lib_empty_stack = EMPTY_STACK, lib_guard = GUARD_VALUE;
sfunc_t comb_sfunc;
sfunc_t spec_sfunc;
__thread void *comb_state;

/* ---- combining objects ---- */
#define COMB(NAME, OBJ, TST, INIT, TINIT, APPLY) \
    static void NAME##_i(void *o_, const cfg_t *c) { OBJ *o = o_; (void)o; INIT; } \
    static void NAME##_t(void *o_, void *t_, const cfg_t *c, int pid) { OBJ *o = o_; TST *t = t_; (void)o; (void)t; TINIT; } \
    static int64_t NAME##_a(void *o_, void *t_, int code, int64_t a, int64_t b, int pid) { OBJ *o = o_; TST *t = t_; return APPLY; }

COMB(ccsynch, CCSynchStruct, CCSynchThreadState, CCSynchStructInit(o, c->nthreads), CCSynchThreadStateInit(o, t, pid),
     CCSynchApplyOp(o, t, comb_sfunc, comb_state, a, pid))
COMB(dsmsynch, DSMSynchStruct, DSMSynchThreadState, DSMSynchStructInit(o, c->nthreads), DSMSynchThreadStateInit(o, t, pid),
     DSMSynchApplyOp(o, t, comb_sfunc, comb_state, a, pid))
COMB(hsynch, HSynchStruct, HSynchThreadState, HSynchStructInit(o, c->nthreads, c->numa), HSynchThreadStateInit(o, t, pid),
     HSynchApplyOp(o, t, comb_sfunc, comb_state, a, pid))
COMB(osci, OsciStruct, OsciThreadState, OsciInit(o, c->nthreads, c->fibers), OsciThreadStateInit(t, o, pid),
     OsciApplyOp(o, t, comb_sfunc, comb_state, a, pid))
COMB(fc, FCStruct, FCThreadState, FCStructInit(o, c->nthreads), FCThreadStateInit(o, t, pid),
     FCApplyOp(o, t, comb_sfunc, comb_state, a, pid))
void *oyama_state[2]; /* Oyama's sequential function takes no state argument: one function for each instance */
static RetVal oyama_f0(ArgVal a, int pid) { return comb_sfunc(oyama_state[0], a, pid); }
static RetVal oyama_f1(ArgVal a, int pid) { return comb_sfunc(oyama_state[1], a, pid); }
COMB(oyama, OyamaStruct, OyamaThreadState, OyamaInit(o, c->nthreads), OyamaThreadStateInit(t),
     OyamaApplyOp(o, t, comb_state == oyama_state[1] ? oyama_f1 : oyama_f0, a, pid))
COMB(sim, SimStruct, SimThreadState, synchSimStructInit(o, c->nthreads, c->backoff), SimThreadStateInit(t, c->nthreads, pid),
     SimApplyOp(o, t, spec_sfunc, a, pid))
COMB(lfuobject, LFUObjectStruct, LFUObjectThreadState, LFUObjectInit(o, 0), LFUObjectThreadStateInit(t, c->backoff & 7, (c->backoff & 7) + 3),
     LFUObjectApplyOp(o, t, spec_sfunc, a, pid))

/* ---- queues and stacks ---- */
#define QS(NAME, OBJ, TST, INIT, TINIT, INS, REM) \
    static void NAME##_i(void *o_, const cfg_t *c) { OBJ *o = o_; INIT; } \
    static void NAME##_t(void *o_, void *t_, const cfg_t *c, int pid) { OBJ *o = o_; TST *t = t_; (void)o; TINIT; } \
    static int64_t NAME##_a(void *o_, void *t_, int code, int64_t a, int64_t b, int pid) { OBJ *o = o_; TST *t = t_; \
        if (code == OP_INS) { INS; return 0; } return REM; }

QS(ccqueue, CCQueueStruct, CCQueueThreadState, CCQueueStructInit(o, c->nthreads), CCQueueThreadStateInit(o, t, pid),
   CCQueueApplyEnqueue(o, t, a, pid), CCQueueApplyDequeue(o, t, pid))
QS(dsmqueue, DSMQueueStruct, DSMQueueThreadState, DSMQueueStructInit(o, c->nthreads), DSMQueueThreadStateInit(o, t, pid),
   DSMQueueApplyEnqueue(o, t, a, pid), DSMQueueApplyDequeue(o, t, pid))
QS(hqueue, HQueueStruct, HQueueThreadState, HQueueInit(o, c->nthreads, c->numa), HQueueThreadStateInit(o, t, pid),
   HQueueApplyEnqueue(o, t, a, pid), HQueueApplyDequeue(o, t, pid))
QS(osciqueue, OsciQueueStruct, OsciQueueThreadState, OsciQueueInit(o, c->nthreads, c->fibers), OsciQueueThreadStateInit(o, t, pid),
   OsciQueueApplyEnqueue(o, t, a, pid), OsciQueueApplyDequeue(o, t, pid))
QS(fcqueue, FCQueueStruct, FCQueueThreadState, FCQueueStructInit(o, c->nthreads), FCQueueThreadStateInit(o, t, pid),
   FCQueueApplyEnqueue(o, t, a, pid), FCQueueApplyDequeue(o, t, pid))
QS(simqueue, SimQueueStruct, SimQueueThreadState, SimQueueStructInit(o, c->nthreads, c->backoff), SimQueueThreadStateInit(o, t, pid),
   SimQueueEnqueue(o, t, a, pid), SimQueueDequeue(o, t, pid))
QS(msqueue, MSQueueStruct, MSQueueThreadState, MSQueueInit(o), MSQueueThreadStateInit(t, c->backoff & 7, (c->backoff & 7) + 3),
   MSQueueEnqueue(o, t, a), MSQueueDequeue(o, t))
QS(lcrq, LCRQStruct, LCRQThreadState, LCRQInit(o, c->nthreads), LCRQThreadStateInit(t, pid),
   LCRQEnqueue(o, t, a, pid), LCRQDequeue(o, t, pid))
QS(ccstack, CCStackStruct, CCStackThreadState, CCStackInit(o, c->nthreads), CCStackThreadStateInit(o, t, pid),
   CCStackPush(o, t, a, pid), CCStackPop(o, t, pid))
QS(dsmstack, DSMStackStruct, DSMStackThreadState, DSMSStackInit(o, c->nthreads), DSMStackThreadStateInit(o, t, pid),
   DSMStackPush(o, t, a, pid), DSMStackPop(o, t, pid))
QS(hstack, HStackStruct, HStackThreadState, HStackInit(o, c->nthreads, c->numa), HStackThreadStateInit(o, t, pid),
   HStackPush(o, t, a, pid), HStackPop(o, t, pid))
QS(oscistack, OsciStackStruct, OsciStackThreadState, OsciStackInit(o, c->nthreads, c->fibers), OsciStackThreadStateInit(o, t, pid),
   OsciStackApplyPush(o, t, a, pid), OsciStackApplyPop(o, t, pid))
QS(fcstack, FCStackStruct, FCStackThreadState, FCStackInit(o, c->nthreads), FCStackThreadStateInit(o, t, pid),
   FCStackPush(o, t, a, pid), FCStackPop(o, t, pid))
QS(simstack, SimStackStruct, SimStackThreadState, SimStackStructInit(o, c->nthreads, c->backoff), SimStackThreadStateInit(t, c->nthreads, pid),
   SimStackPush(o, t, a, pid), SimStackPop(o, t, pid))
QS(lfstack, LFStackStruct, LFStackThreadState, LFStackInit(o), LFStackThreadStateInit(t, c->backoff & 7, (c->backoff & 7) + 3),
   LFStackPush(o, t, a), LFStackPop(o, t))

/* ---- hash tables: dsmhash.h and clhhash.h define the same type names, hence separate units ---- */
extern size_t clhhash_osize, clhhash_tsize, dsmhash_osize, dsmhash_tsize;
void clhhash_i(void *o, const cfg_t *c);
void clhhash_t(void *o, void *t, const cfg_t *c, int pid);
int64_t clhhash_a(void *o, void *t, int code, int64_t a, int64_t b, int pid);
void dsmhash_i(void *o, const cfg_t *c);
void dsmhash_t(void *o, void *t, const cfg_t *c, int pid);
int64_t dsmhash_a(void *o, void *t, int code, int64_t a, int64_t b, int pid);

/* ---- locks ---- */
typedef struct { CLHLockStruct *l; } clh_o;
static void clh_i(void *o, const cfg_t *c) { ((clh_o *)o)->l = CLHLockInit(c->nthreads); }
static void clh_t(void *o, void *t, const cfg_t *c, int pid) {}
static int64_t clh_a(void *o_, void *t, int code, int64_t a, int64_t b, int pid) {
    clh_o *o = o_; int64_t r; void *st = comb_state;
    CLHLock(o->l, pid);
    r = comb_sfunc(st, a, pid);
    CLHUnlock(o->l, pid);
    return r;
}
typedef struct { MCSLockStruct *l; } mcs_o;
static void mcs_i(void *o, const cfg_t *c) { ((mcs_o *)o)->l = MCSLockInit(); }
static void mcs_t(void *o, void *t, const cfg_t *c, int pid) { MCSThreadStateInit(t, pid); }
static int64_t mcs_a(void *o_, void *t, int code, int64_t a, int64_t b, int pid) {
    mcs_o *o = o_; int64_t r; void *st = comb_state;
    MCSLock(o->l, t, pid);
    r = comb_sfunc(st, a, pid);
    MCSUnlock(o->l, t, pid);
    return r;
}

#define E(N, K, F, O, T) { #N, K, F, sizeof(O), sizeof(T), N##_i, N##_t, N##_a }
adapter adapters[] = {
    E(ccsynch, K_COMB, F_FIBERS | F_BOUNDED, CCSynchStruct, CCSynchThreadState),
    E(dsmsynch, K_COMB, F_FIBERS | F_BOUNDED, DSMSynchStruct, DSMSynchThreadState),
    E(hsynch, K_COMB, F_FIBERS | F_NUMA | F_BOUNDED, HSynchStruct, HSynchThreadState),
    E(osci, K_COMB, F_FIBERS | F_BOUNDED, OsciStruct, OsciThreadState),
    E(fc, K_COMB, F_FIBERS | F_BOUNDED, FCStruct, FCThreadState),
    E(oyama, K_COMB, F_FIBERS | F_BOUNDED, OyamaStruct, OyamaThreadState),
    E(sim, K_SPEC, F_NONBLOCK | F_WAITFREE | F_FIBERS, SimStruct, SimThreadState),
    E(lfuobject, K_SPEC, F_NONBLOCK | F_FIBERS, LFUObjectStruct, LFUObjectThreadState),
    E(ccqueue, K_QUEUE, F_FIBERS | F_RECLAIM, CCQueueStruct, CCQueueThreadState),
    E(dsmqueue, K_QUEUE, F_FIBERS | F_RECLAIM, DSMQueueStruct, DSMQueueThreadState),
    E(hqueue, K_QUEUE, F_FIBERS | F_NUMA | F_RECLAIM, HQueueStruct, HQueueThreadState),
    E(osciqueue, K_QUEUE, F_FIBERS | F_RECLAIM, OsciQueueStruct, OsciQueueThreadState),
    E(fcqueue, K_QUEUE, F_FIBERS | F_RECLAIM, FCQueueStruct, FCQueueThreadState),
    E(simqueue, K_QUEUE, F_NONBLOCK | F_WAITFREE | F_FIBERS, SimQueueStruct, SimQueueThreadState),
    E(msqueue, K_QUEUE, F_NONBLOCK | F_FIBERS, MSQueueStruct, MSQueueThreadState),
    E(lcrq, K_QUEUE, F_NONBLOCK | F_FIBERS, LCRQStruct, LCRQThreadState),
    E(ccstack, K_STACK, F_FIBERS | F_RECLAIM, CCStackStruct, CCStackThreadState),
    E(dsmstack, K_STACK, F_FIBERS | F_RECLAIM, DSMStackStruct, DSMStackThreadState),
    E(hstack, K_STACK, F_FIBERS | F_NUMA | F_RECLAIM, HStackStruct, HStackThreadState),
    E(oscistack, K_STACK, F_FIBERS | F_RECLAIM, OsciStackStruct, OsciStackThreadState),
    E(fcstack, K_STACK, F_FIBERS | F_RECLAIM, FCStackStruct, FCStackThreadState),
    E(simstack, K_STACK, F_NONBLOCK | F_WAITFREE | F_FIBERS | F_RECLAIM, SimStackStruct, SimStackThreadState),
    E(lfstack, K_STACK, F_NONBLOCK | F_FIBERS, LFStackStruct, LFStackThreadState),
    { "clhhash", K_SET, F_FIBERS, 2048, 1024, clhhash_i, clhhash_t, clhhash_a },
    { "dsmhash", K_SET, F_FIBERS, 2048, 1024, dsmhash_i, dsmhash_t, dsmhash_a },
    { "clh", K_LOCK, F_FIBERS, sizeof(clh_o), 64, clh_i, clh_t, clh_a },
    { "mcs", K_LOCK, F_FIBERS, sizeof(mcs_o), sizeof(MCSThreadState), mcs_i, mcs_t, mcs_a },
};
int n_adapters = sizeof(adapters) / sizeof(adapters[0]);

int lib_start(uint32_t n, void *(*f)(void *), uint32_t fibers) { return synchStartThreadsN(n, f, fibers); }
void lib_join(uint32_t n) { synchJoinThreadsN(n); }
int lib_tid(void) { return synchGetThreadId(); }
int lib_ptid(void) { return synchGetPosixThreadId(); }
int lib_fiber(void) { return synchCurrentFiberIndex(); }
void lib_resched(void) { synchResched(); }
int lib_oversub(void) { return synchIsSystemOversubscribed(); }
uint32_t lib_pref_core(void) { return synchGetPreferredCore(); }
uint32_t lib_pref_core_of(uint32_t p) { return synchPreferredCoreOfThread(p); }
uint32_t lib_pref_node(void) { return synchGetPreferredNumaNode(); }
uint32_t lib_pref_node_of(uint32_t p) { return synchPreferredNumaNodeOfThread(p); }
void lib_set_policy(uint32_t p) { synchSetThreadPlacementPolicy(p); }
uint32_t lib_get_policy(void) { return synchGetThreadPlacementPolicy(); }
uint32_t lib_ncores(void) { return synchGetNCores(); }
