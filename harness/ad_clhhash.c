#include <clhhash.h>
#include "mon.h"
size_t clhhash_osize = sizeof(CLHHash), clhhash_tsize = sizeof(CLHHashThreadState);
void clhhash_i(void *o, const cfg_t *c) { CLHHashStructInit(o, c->cells, c->nthreads); }
void clhhash_t(void *o, void *t, const cfg_t *c, int pid) { CLHHashThreadStateInit(o, t, c->cells, pid); }
int64_t clhhash_a(void *o, void *t, int code, int64_t a, int64_t b, int pid) {
    if (code == OP_INS) return CLHHashInsert(o, t, a, b, pid);
    if (code == OP_FIND) return CLHHashSearch(o, t, a, pid);
    CLHHashDelete(o, t, a, pid);
    return 0;
}
