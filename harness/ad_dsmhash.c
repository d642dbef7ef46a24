#include <dsmhash.h>
#include "mon.h"
size_t dsmhash_osize = sizeof(DSMHash), dsmhash_tsize = sizeof(DSMHashThreadState);
void dsmhash_i(void *o, const cfg_t *c) { DSMHashInit(o, c->cells, c->nthreads); }
void dsmhash_t(void *o, void *t, const cfg_t *c, int pid) { DSMHashThreadStateInit(o, t, c->cells, pid); }
int64_t dsmhash_a(void *o, void *t, int code, int64_t a, int64_t b, int pid) {
    if (code == OP_INS) return DSMHashInsert(o, t, a, b, pid);
    if (code == OP_FIND) return DSMHashSearch(o, t, a, pid);
    DSMHashDelete(o, t, a, pid);
    return 0;
}
