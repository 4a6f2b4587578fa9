/* Every object of the library behind the interface of common.h. */
#include "common.h"
#include <ccsynch.h>
#include <dsmsynch.h>
#include <hsynch.h>
#include <osci.h>
#include <fc.h>
#include <oyama.h>
#include <sim.h>
#include <lfuobject.h>
#include <ccqueue.h>
#include <dsmqueue.h>
#include <hqueue.h>
#include <osciqueue.h>
#include <fcqueue.h>
#include <simqueue.h>
#include <msqueue.h>
#include <lcrq.h>
#include <ccstack.h>
#include <dsmstack.h>
#include <hstack.h>
#include <oscistack.h>
#include <fcstack.h>
#include <simstack.h>
#include <lfstack.h>

/* ---- sequential functions of the combining objects: old state out, chain_next(old, arg) in ---- */
static Obj *comb_objs[8];           /* for the objects whose function gets no state pointer */

static void sfunc_enter(Obj *o, int64_t arg, int pid) {
    if (pid < 0 || pid >= o->n) sim_fail("bad-pid", "%s: the sequential function got pid %d of %d threads", o->t->name, pid, o->n);
    if (!o->pend[pid]) sim_fail("spurious-run", "%s: the sequential function ran for thread %d, which has no request pending", o->t->name, pid);
    if (o->pend_arg[pid] != arg) sim_fail("wrong-request", "%s: the sequential function ran for thread %d with argument %lld, but that thread asked with %lld", o->t->name, pid, (long long)arg, (long long)o->pend_arg[pid]);
    if (o->runs[pid]++) sim_fail("applied-twice", "%s: the request of thread %d was applied twice", o->t->name, pid);
    if (o->inside++) sim_fail("not-exclusive", "%s: two threads are inside the sequential function", o->t->name);
    o->applied++;
    uintptr_t here = (uintptr_t)__builtin_frame_address(0);     /* on the requester's own stack? (fibers have stacks of their own) */
    if (here > o->at[pid] || o->at[pid] - here > 8192) o->helped++;
    if (o->sfunc_extra) o->sfunc_extra(o, arg, pid);
}
static RetVal chain_state(void *state, ArgVal arg, int pid) {       /* CC, DSM, H, Osci, FC */
    Obj *o = (Obj *)state;
    sfunc_enter(o, arg, pid);
    uint64_t old = (uint64_t)sim_rd(o->state);
    think(o->slow);
    sim_wr(o->state, o->reg ? arg : (int64_t)chain_next(old, (uint64_t)arg));
    o->inside--;
    return (RetVal)old;
}
static RetVal chain_oyama0(ArgVal arg, int pid) { return chain_state(comb_objs[0], arg, pid); }
static RetVal chain_oyama1(ArgVal arg, int pid) { return chain_state(comb_objs[1], arg, pid); }
static RetVal chain_oyama2(ArgVal arg, int pid) { return chain_state(comb_objs[2], arg, pid); }
static RetVal chain_oyama3(ArgVal arg, int pid) { return chain_state(comb_objs[3], arg, pid); }
static RetVal (*const chain_oyama[4])(ArgVal, int) = {chain_oyama0, chain_oyama1, chain_oyama2, chain_oyama3};
bool copy_register;
static RetVal chain_copy(void *state, ArgVal arg, int pid) {        /* PSim, LFUObject: on a private copy */
    uint64_t old = (uint64_t)sim_rd(state);
    sim_wr(state, copy_register ? arg : (int64_t)chain_next(old, (uint64_t)arg));
    return (RetVal)old;
}
static void comb_state(Obj *o) {
    o->state = sim_alloc(64);
    *o->state = (int64_t)o->init_state;
    comb_objs[o->id] = o;
}

#define S(T) ((T *)o->s)
#define ST(T) ((T *)st)
#define COMB(NAME, P, INIT, TINIT) \
    static void P##_i(Obj *o) { comb_state(o); INIT; } \
    static void P##_t(Obj *o, void *st, int pid) { TINIT; }
#define COMB_OP(P, CALL) static int64_t P##_o(Obj *o, void *st, int op, int64_t arg, int pid) { return CALL; }

COMB("CC-Synch", cc, CCSynchStructInit(S(CCSynchStruct), o->n), CCSynchThreadStateInit(S(CCSynchStruct), ST(CCSynchThreadState), pid))
COMB_OP(cc, CCSynchApplyOp(S(CCSynchStruct), ST(CCSynchThreadState), chain_state, o, arg, pid))
COMB("DSM-Synch", dsm, DSMSynchStructInit(S(DSMSynchStruct), o->n), DSMSynchThreadStateInit(S(DSMSynchStruct), ST(DSMSynchThreadState), pid))
COMB_OP(dsm, DSMSynchApplyOp(S(DSMSynchStruct), ST(DSMSynchThreadState), chain_state, o, arg, pid))
COMB("H-Synch", hs, HSynchStructInit(S(HSynchStruct), o->n, o->numa), HSynchThreadStateInit(S(HSynchStruct), ST(HSynchThreadState), pid))
COMB_OP(hs, HSynchApplyOp(S(HSynchStruct), ST(HSynchThreadState), chain_state, o, arg, pid))
COMB("Osci", os, OsciInit(S(OsciStruct), o->n, o->fpt), OsciThreadStateInit(ST(OsciThreadState), S(OsciStruct), pid))
COMB_OP(os, OsciApplyOp(S(OsciStruct), ST(OsciThreadState), chain_state, o, arg, pid))
COMB("FC", fc, FCStructInit(S(FCStruct), o->n), FCThreadStateInit(S(FCStruct), ST(FCThreadState), pid))
COMB_OP(fc, FCApplyOp(S(FCStruct), ST(FCThreadState), chain_state, o, arg, pid))
COMB("Oyama", oy, OyamaInit(S(OyamaStruct), o->n), OyamaThreadStateInit(ST(OyamaThreadState)))
COMB_OP(oy, OyamaApplyOp(S(OyamaStruct), ST(OyamaThreadState), chain_oyama[o->id], arg, pid))
COMB("PSim", ps, synchSimStructInit(S(SimStruct), o->n, o->backoff); o->init_state = 0, SimThreadStateInit(ST(SimThreadState), o->n, pid))
COMB_OP(ps, SimApplyOp(S(SimStruct), ST(SimThreadState), chain_copy, arg, pid))
COMB("LFUObject", lfu, LFUObjectInit(S(LFUObjectStruct), (ArgVal)o->init_state), LFUObjectThreadStateInit(ST(LFUObjectThreadState), 1, 1 + o->backoff))
COMB_OP(lfu, LFUObjectApplyOp(S(LFUObjectStruct), ST(LFUObjectThreadState), chain_copy, arg, pid))

#define QS(P, INIT, TINIT, PUT, GET) \
    static void P##_i(Obj *o) { INIT; } \
    static void P##_t(Obj *o, void *st, int pid) { TINIT; } \
    static int64_t P##_o(Obj *o, void *st, int op, int64_t arg, int pid) { if (op == OP_ENQ) { PUT; return 0; } return GET; }
#define QSX(P, N, INIT, PUT, GET) QS(P, INIT, N##ThreadStateInit(S(N##Struct), ST(N##ThreadState), pid), \
    PUT(S(N##Struct), ST(N##ThreadState), arg, pid), GET(S(N##Struct), ST(N##ThreadState), pid))
QSX(ccq, CCQueue, CCQueueStructInit(S(CCQueueStruct), o->n), CCQueueApplyEnqueue, CCQueueApplyDequeue)
QSX(dsmq, DSMQueue, DSMQueueStructInit(S(DSMQueueStruct), o->n), DSMQueueApplyEnqueue, DSMQueueApplyDequeue)
QSX(hq, HQueue, HQueueInit(S(HQueueStruct), o->n, o->numa), HQueueApplyEnqueue, HQueueApplyDequeue)
QSX(osq, OsciQueue, OsciQueueInit(S(OsciQueueStruct), o->n, o->fpt), OsciQueueApplyEnqueue, OsciQueueApplyDequeue)
QSX(fcq, FCQueue, FCQueueStructInit(S(FCQueueStruct), o->n), FCQueueApplyEnqueue, FCQueueApplyDequeue)
QSX(simq, SimQueue, SimQueueStructInit(S(SimQueueStruct), o->n, o->backoff), SimQueueEnqueue, SimQueueDequeue)
QS(msq, MSQueueInit(S(MSQueueStruct)), MSQueueThreadStateInit(ST(MSQueueThreadState), 1, 1 + o->backoff),
   MSQueueEnqueue(S(MSQueueStruct), ST(MSQueueThreadState), arg), MSQueueDequeue(S(MSQueueStruct), ST(MSQueueThreadState)))
QS(lcrq, LCRQInit(S(LCRQStruct), o->n), LCRQThreadStateInit(ST(LCRQThreadState), pid),
   LCRQEnqueue(S(LCRQStruct), ST(LCRQThreadState), arg, pid), LCRQDequeue(S(LCRQStruct), ST(LCRQThreadState), pid))
QSX(ccs, CCStack, CCStackInit(S(CCStackStruct), o->n), CCStackPush, CCStackPop)
QSX(dsms, DSMStack, DSMSStackInit(S(DSMStackStruct), o->n), DSMStackPush, DSMStackPop)
QSX(hst, HStack, HStackInit(S(HStackStruct), o->n, o->numa), HStackPush, HStackPop)
QSX(oss, OsciStack, OsciStackInit(S(OsciStackStruct), o->n, o->fpt), OsciStackApplyPush, OsciStackApplyPop)
QSX(fcs, FCStack, FCStackInit(S(FCStackStruct), o->n), FCStackPush, FCStackPop)
QS(sims, SimStackStructInit(S(SimStackStruct), o->n, o->backoff), SimStackThreadStateInit(ST(SimStackThreadState), o->n, pid),
   SimStackPush(S(SimStackStruct), ST(SimStackThreadState), arg, pid), SimStackPop(S(SimStackStruct), ST(SimStackThreadState), pid))
QS(lfs, LFStackInit(S(LFStackStruct)), LFStackThreadStateInit(ST(LFStackThreadState), 1, 1 + o->backoff),
   LFStackPush(S(LFStackStruct), ST(LFStackThreadState), arg), LFStackPop(S(LFStackStruct), ST(LFStackThreadState)))

#define TYPE(P, NAME, KIND, FLAGS, STRUCT, TSTATE, FAM) \
    const ObjType type_##P = {NAME, KIND, FLAGS, sizeof(STRUCT), sizeof(TSTATE), P##_i, P##_t, P##_o, FAM};
TYPE(cc, "CC-Synch", KIND_COMB, F_BLOCKING | F_STATEFUL, CCSynchStruct, CCSynchThreadState, "cc")
TYPE(dsm, "DSM-Synch", KIND_COMB, F_BLOCKING | F_STATEFUL, DSMSynchStruct, DSMSynchThreadState, "dsm")
TYPE(hs, "H-Synch", KIND_COMB, F_BLOCKING | F_STATEFUL | F_NUMA, HSynchStruct, HSynchThreadState, "h")
TYPE(os, "Osci", KIND_COMB, F_BLOCKING | F_STATEFUL | F_FIBERS, OsciStruct, OsciThreadState, "osci")
TYPE(fc, "FC", KIND_COMB, F_BLOCKING | F_STATEFUL, FCStruct, FCThreadState, "fc")
TYPE(oy, "Oyama", KIND_COMB, F_BLOCKING, OyamaStruct, OyamaThreadState, "oyama")
TYPE(ps, "PSim", KIND_COMB, F_WAITFREE | F_SPECULATIVE, SimStruct, SimThreadState, "sim")
TYPE(lfu, "LFUObject", KIND_COMB, F_LOCKFREE | F_SPECULATIVE, LFUObjectStruct, LFUObjectThreadState, "lfu")
TYPE(ccq, "CC-Queue", KIND_QUEUE, F_BLOCKING | F_RECYCLE, CCQueueStruct, CCQueueThreadState, "cc")
TYPE(dsmq, "DSM-Queue", KIND_QUEUE, F_BLOCKING | F_RECYCLE, DSMQueueStruct, DSMQueueThreadState, "dsm")
TYPE(hq, "H-Queue", KIND_QUEUE, F_BLOCKING | F_NUMA | F_RECYCLE, HQueueStruct, HQueueThreadState, "h")
TYPE(osq, "Osci-Queue", KIND_QUEUE, F_BLOCKING | F_FIBERS | F_RECYCLE, OsciQueueStruct, OsciQueueThreadState, "osci")
TYPE(fcq, "FC-Queue", KIND_QUEUE, F_BLOCKING | F_RECYCLE, FCQueueStruct, FCQueueThreadState, "fc")
TYPE(simq, "SimQueue", KIND_QUEUE, F_WAITFREE, SimQueueStruct, SimQueueThreadState, "sim")
TYPE(msq, "MS-Queue", KIND_QUEUE, F_LOCKFREE, MSQueueStruct, MSQueueThreadState, "ms")
TYPE(lcrq, "LCRQ", KIND_QUEUE, F_LOCKFREE, LCRQStruct, LCRQThreadState, "lcrq")
TYPE(ccs, "CC-Stack", KIND_STACK, F_BLOCKING | F_RECYCLE, CCStackStruct, CCStackThreadState, "cc")
TYPE(dsms, "DSM-Stack", KIND_STACK, F_BLOCKING | F_RECYCLE, DSMStackStruct, DSMStackThreadState, "dsm")
TYPE(hst, "H-Stack", KIND_STACK, F_BLOCKING | F_NUMA | F_RECYCLE, HStackStruct, HStackThreadState, "h")
TYPE(oss, "Osci-Stack", KIND_STACK, F_BLOCKING | F_FIBERS | F_RECYCLE, OsciStackStruct, OsciStackThreadState, "osci")
TYPE(fcs, "FC-Stack", KIND_STACK, F_BLOCKING | F_RECYCLE, FCStackStruct, FCStackThreadState, "fc")
TYPE(sims, "SimStack", KIND_STACK, F_WAITFREE | F_RECYCLE, SimStackStruct, SimStackThreadState, "sim")
TYPE(lfs, "LF-Stack", KIND_STACK, F_LOCKFREE, LFStackStruct, LFStackThreadState, "lf")
extern const ObjType type_clhh, type_dsmh;

const ObjType *const obj_types[] = {
    &type_cc, &type_dsm, &type_hs, &type_os, &type_fc, &type_oy, &type_ps, &type_lfu,
    &type_ccq, &type_dsmq, &type_hq, &type_osq, &type_fcq, &type_simq, &type_msq, &type_lcrq,
    &type_ccs, &type_dsms, &type_hst, &type_oss, &type_fcs, &type_sims, &type_lfs, &type_clhh, &type_dsmh};
const int n_obj_types = sizeof obj_types / sizeof *obj_types;

const ObjType *obj_type(const char *name) {
    for (int i = 0; i < n_obj_types; i++) if (!strcmp(obj_types[i]->name, name)) return obj_types[i];
    sim_fail("harness", "no object %s", name);
}
int obj_select(int kind, int all, int none, const ObjType **out) {
    int n = 0;
    for (int i = 0; i < n_obj_types; i++) {
        const ObjType *t = obj_types[i];
        if ((t->kind & kind) && (t->flags & all) == all && !(t->flags & none)) out[n++] = t;
    }
    return n;
}

void obj_distinct_keys(Obj *o) {
    for (int i = 1; i < o->nkeys; i++) for (int j = 0; j < i; j++) if (o->keys[i] == o->keys[j]) { o->keys[i] = (int64_t)((uint64_t)o->keys[i] + 100 + i); j = -1; }
}
void obj_create(Obj *o, const ObjType *t, int id, int n, int fpt, int fill) {
    memset(o, 0, sizeof *o);
    copy_register = false;
    o->t = t; o->id = id; o->n = n; o->fpt = fpt;
    o->backoff = SIM_PICK(0, 1, 8, 100);
    o->init_state = 1000003 + (uint64_t)id * 77;
    if (t->flags & F_NUMA) o->numa = SIM_PICK(0, 1, 2, 3, 4);
    if (t->kind == KIND_HASH) {
        o->cells = sim_range(1, 4);
        o->nkeys = sim_range(2, 6);
        for (int i = 0; i < o->nkeys; i++) o->keys[i] = sim_chance(30) ? sim_draw_value() : sim_range(-3, 12);
        obj_distinct_keys(o);
    }
    o->s = sim_alloc_fill(t->size, fill);
    for (int i = 0; i < n; i++) o->st[i] = sim_alloc_fill(t->tsize, fill);
    t->init(o);
    sim_note("object %d: %s numa=%d backoff=%d", id, t->name, o->numa, o->backoff);
}
void obj_thread_init(Obj *o, int pid) { o->t->tinit(o, o->st[pid], pid); }

int64_t obj_apply_raw(Obj *o, int op, int64_t arg, int pid) {
    o->at[pid] = (uintptr_t)__builtin_frame_address(0); o->runs[pid] = 0; o->pend_arg[pid] = arg; o->pend[pid] = true;
    int64_t r = o->t->op(o, o->st[pid], op, arg, pid);
    o->pend[pid] = false;
    if (o->t->kind == KIND_COMB && !(o->t->flags & F_SPECULATIVE) && o->runs[pid] != 1)
        sim_fail("not-applied", "%s: the operation of thread %d returned although its request was applied %d times", o->t->name, pid, o->runs[pid]);
    return r;
}
int64_t obj_apply(Obj *o, int op, int64_t arg, int pid) {
    int h = hist_begin(pid, o->id, op, arg);
    int64_t r = obj_apply_raw(o, op, arg, pid);
    hist_end(h, r);
    return r;
}

/* After the join: the main thread (which was the last thread, or its first fiber) looks at what is left in the object. */
void obj_drain(Obj *o, int n, int fpt) {
    int pid = n - fpt;
    switch (o->t->kind) {
    case KIND_COMB: obj_apply(o, 0, 424242, pid); break;
    case KIND_HASH: for (int k = 0; k < o->nkeys; k++) obj_apply(o, OP_FIND, (int64_t)k << 32 | 1, pid); break;
    default: for (int i = 0; i < 2000 && obj_apply(o, 1, 0, pid) != EMPTY_VAL; i++) ;
    }
    sim_label("drained afterwards");
}

/* Values a user may hand to the object. Reserved by the library's interface: GUARD_VALUE and EMPTY_* (queue-stack.h). */
int64_t obj_value(Obj *o, bool wild) {
    int64_t v = wild && sim_chance(60) ? sim_draw_value() : 1000 + ++uniq;
    if (o->t->kind != KIND_COMB && (v == GUARD_VAL || v == EMPTY_VAL)) v = 77;
    return v;
}

/* Hash tables: a set of keys. What the documentation leaves open (the value an insertion of a present key leaves, the
 * value a search returns) is not judged: an insertion succeeds, a search answers whether the key is there. */
static bool map_step(int64_t *st, int *n, const HistOp *h) {
    int k = (int)(h->arg >> 32);
    (void)n;
    switch (h->op) {
    case OP_INS: st[k] = 1; return !h->res || h->ret == 1;
    case OP_DEL: st[k] = 0; return true;
    default: return !h->res || h->ret == st[k];
    }
}
const char *obj_check(Obj *o) {
    switch (o->t->kind) {
    case KIND_COMB: {
        const char *m = chain_check(o->id, o->init_state);
        if (!m && !(o->t->flags & F_SPECULATIVE) && (uint64_t)*o->state != chain_final)
            return "the object's final state is not the state after all operations";
        return m;
    }
    case KIND_QUEUE: return lin_queue(o->id, EMPTY_VAL);
    case KIND_STACK: return lin_stack(o->id, EMPTY_VAL);
    default: return lin_keys(o->id, map_step);
    }
}
#ifdef DEBUG
bool obj_counters(Obj *o, int64_t *served, int64_t *rounds) {
#define CNT(P, T) if (o->t == &type_##P) { *served = S(T)->counter; *rounds = S(T)->rounds; return true; }
    CNT(cc, CCSynchStruct) CNT(dsm, DSMSynchStruct) CNT(hs, HSynchStruct) CNT(os, OsciStruct) CNT(fc, FCStruct) CNT(oy, OyamaStruct)
    return false;
}
#else
bool obj_counters(Obj *o, int64_t *served, int64_t *rounds) { return false; }
#endif
void obj_must(const char *m, Obj *o) {
    if (!m) return;
    if (m[0] == '?') sim_inconclusive(m + 1);
    sim_fail("wrong-result", "%s: %s", o->t->name, m);
}
