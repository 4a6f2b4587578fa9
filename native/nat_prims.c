// Each primitive used in straight-line code, so that the compiler may combine it with the plain accesses around it.
#include <config.h>
#include <primitives.h>
#include "nat.h"

typedef struct { uint64_t w[6]; } Area;             // w[2], w[3] are the operands; the others must not change
static Area shared_area __attribute__((aligned(64)));
static u64 word(void) {
    switch (nat_below(6)) {
    case 0: return nat_below(4);
    case 1: return (u64)0 - 1 - nat_below(3);
    case 2: return 1ULL << nat_below(64);
    case 3: return nat_below(1 << 16) << 32 | nat_below(4);
    case 4: return 0x7fffffffULL + nat_below(3);
    default: return nat_draw();
    }
}
static const char *opname[] = {"cas128", "cas64", "cas32", "casptr", "swap", "faa64", "faa32", "bittas64"};

typedef struct { u64 i0, i1, b0, b1, c0, c1, r, got0, got1, n0, n1; int bit; } Call;
#define OPS(X)                                                                                                          \
    X(cas128, synchCAS128(&M.w[2], k->b0, k->b1, k->c0, k->c1)) X(cas64, synchCAS64(&M.w[2], k->b0, k->c0))             \
    X(cas32, synchCAS32(&M.w[2], k->b0, k->c0)) X(casptr, synchCASPTR(&M.w[2], k->b0, k->c0))                           \
    X(swap, synchSWAP(&M.w[2], k->c0)) X(faa64, synchFAA64(&M.w[2], k->c0))                                             \
    X(faa32, (uint32_t)synchFAA32(&M.w[2], k->c0)) X(bittas64, synchBitTAS64(&M.w[2], k->bit))
#define FN(shape, name) static void __attribute__((noinline)) shape##_##name(Area *area, Call *k)
#define TAKE k->got0 = M.w[2]; k->got1 = M.w[3]; k->n0 = M.w[1]; k->n1 = M.w[4];
// plain stores, the primitive, plain loads: in memory of the caller, in a static area, in a local one
#define FILL M.w[1] = 102; M.w[2] = k->i0; M.w[3] = k->i1; M.w[4] = 103;
#define M (*p)
#define SHAPE_ARG(name, e) FN(arg, name) { Area *const p = area; FILL k->r = (u64)(e); TAKE }
OPS(SHAPE_ARG)
#undef M
#define M shared_area
#define SHAPE_STATIC(name, e) FN(stat, name) { FILL k->r = (u64)(e); TAKE }
OPS(SHAPE_STATIC)
// one plain store just before
#define SHAPE_STORE(name, e) FN(store, name) { volatile Area *v = &M; v->w[1] = 102; v->w[2] = k->i0; v->w[4] = 103; M.w[3] = k->i1; k->r = (u64)(e); TAKE }
OPS(SHAPE_STORE)
#define SHAPE_STORE2(name, e) FN(store2, name) { volatile Area *v = &M; v->w[1] = 102; v->w[3] = k->i1; v->w[4] = 103; M.w[2] = k->i0; k->r = (u64)(e); TAKE }
OPS(SHAPE_STORE2)
// plain loads before
#define SHAPE_LOAD(name, e) FN(load, name) { volatile Area *v = &M; v->w[1] = 102; v->w[2] = k->i0; v->w[3] = k->i1; v->w[4] = 103;           \
    if (M.w[2] != k->i0 || M.w[3] != k->i1 || M.w[1] != 102) { k->n0 = 0; return; } k->r = (u64)(e); TAKE }
OPS(SHAPE_LOAD)
#undef M
#define M a
#define SHAPE_LOCAL(name, e) FN(local, name) { Area a __attribute__((aligned(64))); FILL k->r = (u64)(e); TAKE }
OPS(SHAPE_LOCAL)
#define SHAPE_LOCAL2(name, e) FN(local2, name) { Area a __attribute__((aligned(64))); volatile Area *v = &M; v->w[1] = 102; v->w[2] = k->i0; v->w[4] = 103; M.w[3] = k->i1; k->r = (u64)(e); TAKE }
OPS(SHAPE_LOCAL2)
#undef M
#define ROW(shape) {shape##_cas128, shape##_cas64, shape##_cas32, shape##_casptr, shape##_swap, shape##_faa64, shape##_faa32, shape##_bittas64}
static void (*const fns[7][8])(Area *, Call *) = {ROW(arg), ROW(stat), ROW(store), ROW(store2), ROW(load), ROW(local), ROW(local2)};

static void prims(void) {
    int op = nat_below(8), how = nat_below(7), bit = nat_below(64);
    u64 i0 = word(), i1 = word(), b0 = nat_below(2) ? i0 : word(), b1 = nat_below(2) ? i1 : word(), c0 = word(), c1 = word();
    u64 r = 0, e0 = i0, e1 = i1, er = 0, got[2] = {0, 0};
    bool neighbours = true;
    nat_label(opname[op]);
    nat_note("%s on %llx:%llx, expected %llx:%llx, new %llx:%llx, bit %d, code shape %d\n", opname[op], i1, i0, b1, b0, c1, c0, bit, how);
    switch (op) {
    case 0: er = i0 == b0 && i1 == b1; if (er) { e0 = c0; e1 = c1; } break;
    case 1: case 3: er = i0 == b0; if (er) e0 = c0; break;
    case 2: er = (uint32_t)i0 == (uint32_t)b0; if (er) e0 = (i0 & ~0xffffffffULL) | (uint32_t)c0; break;
    case 4: er = i0; e0 = c0; break;
    case 5: er = i0; e0 = i0 + c0; break;
    case 6: er = (uint32_t)i0; e0 = (i0 & ~0xffffffffULL) | (uint32_t)((uint32_t)i0 + (uint32_t)c0); break;
    default: er = i0 >> bit & 1; e0 = i0 | 1ULL << bit;
    }
    Call k = {i0, i1, b0, b1, c0, c1, 0, 0, 0, 0, 0, bit};
    fns[how][op](&shared_area, &k);
    r = k.r; got[0] = k.got0; got[1] = k.got1; neighbours = k.n0 == 102 && k.n1 == 103;
    if (op == 7) r = r >> bit & 1;      // the answer is in the bit itself
    if (r != er) nat_fail("result", "%s returned %llx instead of %llx", opname[op], r, er);
    if (got[0] != e0 || got[1] != e1) nat_fail("effect", "%s left %llx:%llx instead of %llx:%llx for the plain loads that follow", opname[op], got[1], got[0], e1, e0);
    if (!neighbours) nat_fail("effect", "%s changed the memory next to its operand", opname[op]);
    if (e0 == i0 && e1 == i1) nat_trivial();
}
const NatScenario nat_scenarios[] = {{"nat_prims", "the primitive changes the word", prims}, {0, 0, 0}};
