#include "common.h"
#include <dsmhash.h>
static void i_(Obj *o) { DSMHashInit((DSMHash *)o->s, o->cells, o->n); }
static void t_(Obj *o, void *st, int pid) { DSMHashThreadStateInit((DSMHash *)o->s, (DSMHashThreadState *)st, o->cells, pid); }
static int64_t o_(Obj *o, void *st, int op, int64_t arg, int pid) {
    int64_t key = o->keys[arg >> 32];
    switch (op) {
    case OP_INS: return DSMHashInsert((DSMHash *)o->s, (DSMHashThreadState *)st, key, arg & 0xffffffff, pid);
    case OP_DEL: DSMHashDelete((DSMHash *)o->s, (DSMHashThreadState *)st, key, pid); return 0;
    default: return DSMHashSearch((DSMHash *)o->s, (DSMHashThreadState *)st, key, pid) != 0;
    }
}
const ObjType type_dsmh = {"DSM-Hash", KIND_HASH, F_BLOCKING, sizeof(DSMHash), sizeof(DSMHashThreadState), i_, t_, o_, "dsm"};
