#include "common.h"
#include <clhhash.h>
static void i_(Obj *o) { CLHHashStructInit((CLHHash *)o->s, o->cells, o->n); }
static void t_(Obj *o, void *st, int pid) { CLHHashThreadStateInit((CLHHash *)o->s, (CLHHashThreadState *)st, o->cells, pid); }
static int64_t o_(Obj *o, void *st, int op, int64_t arg, int pid) {
    int64_t key = o->keys[arg >> 32];
    switch (op) {
    case OP_INS: return CLHHashInsert((CLHHash *)o->s, (CLHHashThreadState *)st, key, arg & 0xffffffff, pid);
    case OP_DEL: CLHHashDelete((CLHHash *)o->s, (CLHHashThreadState *)st, key, pid); return 0;
    default: return CLHHashSearch((CLHHash *)o->s, (CLHHashThreadState *)st, key, pid) != 0;
    }
}
const ObjType type_clhh = {"CLH-Hash", KIND_HASH, F_BLOCKING, sizeof(CLHHash), sizeof(CLHHashThreadState), i_, t_, o_, "clh"};
