/* The pool calls of the library pass through here (see HOOKED in vc/build.py). */
#include "common.h"
#include <pool.h>
void (*on_pool_alloc)(void *);
void (*on_pool_recycle)(void *);
void *simhook_synchAllocObj(SynchPoolStruct *pool) {
    void *p = synchAllocObj(pool);
    if (on_pool_alloc) on_pool_alloc(p);
    return p;
}
void simhook_synchRecycleObj(SynchPoolStruct *pool, void *obj) {
    if (on_pool_recycle && obj) on_pool_recycle(obj);
    synchRecycleObj(pool, obj);
}
void simhook_synchRollback(SynchPoolStruct *pool, uint32_t n) { synchRollback(pool, n); }
