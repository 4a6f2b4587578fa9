/* Primitives, random numbers, backoff, pool, memory, arguments, statistics: model-based. */
#include "common.h"
#include <fastrand.h>
#include <backoff.h>
#include <pool.h>
#include <bench_args.h>
#include <hsynch.h>
#include <stats.h>
#include <getopt.h>
#include <math.h>
#include <stdarg.h>

/* ------------------------------------------------------------------ atomic primitives */
enum { A_CAS64, A_CASPTR, A_FAA64, A_SWAP, A_BIT, A_CAS32, A_FAA32, A_CAS128, A_READ, A_N };
static const char *const aname[] = {"CAS64", "CASPTR", "FAA64", "SWAP", "BitTAS64", "CAS32", "FAA32", "CAS128", "read"};
typedef struct { int kind, word; uint64_t a0, a1, n0, n1; } AOp;
static AOp aop[256];
static int naop;
/* effect on the two words; the value that is compared */
static int64_t a_model(const AOp *o, uint64_t *w) {
    uint64_t old = w[o->word];
    switch (o->kind) {
    case A_CAS64: case A_CASPTR: if (old != o->a0) return 0; w[o->word] = o->n0; return 1;
    case A_FAA64: w[o->word] = old + o->a0; return (int64_t)old;
    case A_SWAP: w[o->word] = o->a0; return (int64_t)old;
    case A_BIT: w[o->word] = old | 1ULL << (o->a0 & 63); return old >> (o->a0 & 63) & 1;
    case A_CAS32: { uint32_t *p = (uint32_t *)&w[o->word] + (o->a1 & 1); if (*p != (uint32_t)o->a0) return 0; *p = (uint32_t)o->n0; return 1; }
    case A_FAA32: { uint32_t *p = (uint32_t *)&w[o->word] + (o->a1 & 1); uint32_t v = *p; *p = v + (uint32_t)o->a0; return (int32_t)v; }
    case A_CAS128: if (w[0] != o->a0 || w[1] != o->a1) return 0; w[0] = o->n0; w[1] = o->n1; return 1;
    default: return (int64_t)old;
    }
}
static int64_t a_real(const AOp *o, uint64_t *w) {
    uint64_t *p = &w[o->word];
    switch (o->kind) {
    case A_CAS64: return synchCAS64(p, o->a0, o->n0) ? 1 : 0;
    case A_CASPTR: return synchCASPTR(p, (void *)o->a0, (void *)o->n0) ? 1 : 0;
    case A_FAA64: return synchFAA64(p, o->a0);
    case A_SWAP: return (int64_t)synchSWAP(p, (void *)o->a0);
    case A_BIT: return synchBitTAS64(p, o->a0 & 63) >> (o->a0 & 63) & 1;
    case A_CAS32: return synchCAS32((uint32_t *)p + (o->a1 & 1), o->a0, o->n0) ? 1 : 0;
    case A_FAA32: return synchFAA32((int32_t *)p + (o->a1 & 1), o->a0);
    case A_CAS128: return synchCAS128(w, o->a0, o->a1, o->n0, o->n1) ? 1 : 0;
    default: return sim_rd((int64_t *)p);
    }
}
static uint64_t small_or_wild(void) { return sim_chance(70) ? sim_draw(4) : (uint64_t)sim_draw_value(); }
static void draw_aop(AOp *o, const uint64_t *near) {
    o->kind = sim_draw(A_N); o->word = sim_draw(2);
    o->a0 = near && sim_chance(70) ? near[o->kind == A_CAS128 ? 0 : o->word] : small_or_wild();
    o->a1 = o->kind == A_CAS128 ? (near && sim_chance(80) ? near[1] : small_or_wild()) : sim_draw(2);
    if (o->kind == A_CAS32 && near && sim_chance(60)) o->a0 = ((const uint32_t *)&near[o->word])[o->a1];
    if (o->kind == A_BIT) o->a0 = sim_draw(64);
    if ((o->kind == A_FAA64 || o->kind == A_FAA32 || o->kind == A_SWAP) && sim_chance(70)) o->a0 = sim_range(-2, 3);
    o->n0 = small_or_wild(); o->n1 = small_or_wild();
}
SCENARIO(prims_seq, "at least four operations of at least three kinds") {
    uint64_t *mem = sim_alloc(64), model[8];
    int n = sim_range(1, 20), kinds = 0;
    for (int i = 0; i < 8; i++) model[i] = mem[i] = sim_draw(2) ? (uint64_t)sim_draw_value() : 0xdeadbeef00000000ULL + i;
    for (int i = 0; i < n; i++) {
        AOp o;
        draw_aop(&o, &model[2]);
        kinds |= 1 << o.kind;
        int64_t want = a_model(&o, &model[2]), got = a_real(&o, &mem[2]);
        sim_note("%s word %d: %#llx %#llx -> %#llx %#llx", aname[o.kind], o.word, (unsigned long long)o.a0, (unsigned long long)o.a1, (unsigned long long)o.n0, (unsigned long long)o.n1);
        if (want != got) sim_fail("wrong-result", "%s returned %#llx instead of %#llx", aname[o.kind], (unsigned long long)got, (unsigned long long)want);
        for (int k = 0; k < 8; k++) if (mem[k] != model[k])
            sim_fail("wrong-result", "%s left %#llx in %s instead of %#llx", aname[o.kind], (unsigned long long)mem[k], k == 2 + o.word ? "its word" : "another word", (unsigned long long)model[k]);
    }
    if (n >= 4 && __builtin_popcount(kinds) >= 3) sim_nontrivial();
}
static uint64_t *aw;
static int a_nops[8], a_first[8];
static void *a_body(void *arg) {
    int id = (int)(long)arg;
    for (int i = 0; i < a_nops[id]; i++) {
        int k = a_first[id] + i;
        int h = hist_begin(id, 0, 10 + aop[k].kind, k);      /* not OP_FIND, which may not change the state */
        int64_t r = a_real(&aop[k], aw);
        hist_end(h, r);
    }
    return NULL;
}
static bool a_step(int64_t *st, int *n, const HistOp *h) {
    int64_t want = a_model(&aop[h->arg], (uint64_t *)st);
    return !h->res || h->ret == want;
}
SCENARIO(prims_conc, "at least two pairs of atomic operations on the same two words overlapped in time") {
    aw = (uint64_t *)sim_alloc(64) + 2;
    int64_t init[2];
    int only = sim_chance(40) ? (1 << sim_draw(A_N)) | 1 << sim_draw(A_N) | 1 << A_READ : 0;
    for (int i = 0; i < 2; i++) { init[i] = sim_draw(3); aw[i] = (uint64_t)init[i]; }
    int nt = sim_range(2, 4);
    naop = 0;
    for (int t = 0; t < nt; t++) {
        a_first[t] = naop; a_nops[t] = sim_range(1, 4);
        for (int i = 0; i < a_nops[t]; i++) { draw_aop(&aop[naop], NULL); if (only) for (int q = 0; q < 40 && !(only >> aop[naop].kind & 1); q++) draw_aop(&aop[naop], NULL); naop++; }
    }
    for (int k = 0; k < naop; k++) sim_note("(%d) %s word %d: %#llx %#llx -> %#llx %#llx", k, aname[aop[k].kind], aop[k].word, (unsigned long long)aop[k].a0, (unsigned long long)aop[k].a1, (unsigned long long)aop[k].n0, (unsigned long long)aop[k].n1);
    for (int t = 0; t < nt; t++) sim_spawn(a_body, (void *)(long)t);
    sim_join_all();
    /* the final contents are what a last read of both words sees */
    for (int w = 0; w < 2; w++) { aop[naop] = (AOp){A_READ, w, 0, 0, 0, 0}; int h = hist_begin(nt, 0, 10 + A_READ, naop++); hist_end(h, (int64_t)aw[w]); }
    int ov = 0;
    for (int i = 0; i < hist_n; i++) for (int j = i + 1; j < hist_n && hist[j].inv < hist[i].res; j++) ov++;
    const char *m = lin_custom(0, "the atomic operations", init, 2, a_step);
    if (m) { if (m[0] == '?') sim_inconclusive(m + 1); sim_fail("not-atomic", "%s", m); }
    if (ov >= 2) sim_nontrivial();
}

/* ------------------------------------------------------------------ random numbers */
static uint32_t r_seed[4];
static int r_kind[4][64], r_n[4];
static long r_lo[4][64], r_hi[4][64], r_got[4][64];
static bool r_yield;
static long rnd1(int kind, long lo, long hi) {
    switch (kind) {
    case 0: return synchFastRandom();
    case 1: return (long)synchFastRandom32();
    case 2: return synchFastRandomRange(lo, hi);
    default: return (long)synchFastRandomRange32((uint32_t)lo, (uint32_t)hi);
    }
}
static void *rnd_body(void *arg) {
    int t = (int)(long)arg;
    synchFastRandomSetSeed(r_seed[t]);
    for (int i = 0; i < r_n[t]; i++) {
        if (r_yield) sim_point();
        r_got[t][i] = rnd1(r_kind[t][i], r_lo[t][i], r_hi[t][i]);
    }
    return NULL;
}
static uint32_t draw_seed(void) {
    return sim_draw(2) ? (uint32_t)sim_draw(1000) : (uint32_t)SIM_PICK(1, 0, 0x9068ffff, 0x464fffff, 0x8c9ffffe, 0x8c9fffff, 0xffffffff, 0x80000000, 0x7fffffff, 2, 65535, 65536, 0x9068fffe, 0x464ffffe, (int64_t)(sim_draw_value() & 0xffffffff));
}
SCENARIO(fastrand, "at least 10 numbers") {
    int nt = sim_range(1, 3);
    long ref[4][64];
    bool many = false;
    for (int t = 0; t < nt; t++) {
        r_seed[t] = t && sim_chance(20) ? r_seed[0] : draw_seed();
        r_n[t] = sim_range(1, 40);
        if (r_n[t] >= 10) many = true;
        for (int i = 0; i < r_n[t]; i++) {
            int k = r_kind[t][i] = sim_draw(4);
            if (k == 2) { r_lo[t][i] = SIM_PICK(0, 1, -5, -32768, 100); r_hi[t][i] = r_lo[t][i] + sim_range(1, sim_draw(2) ? 10 : 32767); if (r_hi[t][i] > SYNCH_RAND_MAX) r_hi[t][i] = SYNCH_RAND_MAX; }
            else if (k == 3) { uint64_t lo = SIM_PICK(0, 1, 1000, 0x7fffffff, 0x80000000, 0xfffffff0); uint64_t hi = lo + 1 + sim_draw(SIM_PICK(10, 1000, 0x80000000, 0xffffffff)); if (hi > 0xffffffff) hi = 0xffffffff; r_lo[t][i] = (long)lo; r_hi[t][i] = (long)hi; }
        }
    }
    /* alone, one after the other: the reference */
    r_yield = false;
    for (int t = 0; t < nt; t++) { rnd_body((void *)(long)t); memcpy(ref[t], r_got[t], sizeof ref[t]); }
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < r_n[t]; i++) {
            int k = r_kind[t][i];
            long v = ref[t][i];
            bool ok = k == 0 ? v >= 0 && v <= SYNCH_RAND_MAX : k == 1 ? v >= 0 && v <= 0xffffffffL : v >= r_lo[t][i] && v <= r_hi[t][i];
            if (!ok) sim_fail("out-of-range", "%s returned %ld (range %ld to %ld, seed %#x, number %d)", (const char *[]){"synchFastRandom", "synchFastRandom32", "synchFastRandomRange", "synchFastRandomRange32"}[k], v, r_lo[t][i], r_hi[t][i], r_seed[t], i);
        }
    /* in several threads at the same time */
    r_yield = true;
    memset(r_got, 0, sizeof r_got);
    for (int t = 0; t < nt; t++) sim_spawn(rnd_body, (void *)(long)t);
    sim_join_all();
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < r_n[t]; i++)
            if (r_got[t][i] != ref[t][i]) sim_fail("not-reproducible", "seed %#x: number %d is %ld in a thread beside %d others, but %ld alone", r_seed[t], i, r_got[t][i], nt - 1, ref[t][i]);
    if (many) sim_nontrivial();
}
SCENARIO(fastrand_spread, "every case: 3000 numbers of one generator") {
    uint32_t seed = draw_seed();
    int kind = sim_draw(4), width = sim_range(2, 8);
    long lo = kind == 3 ? SIM_PICK(0, 1, 5, 0x80000000) : SIM_PICK(0, 1, -3, 7);
    int seen[16] = {0}, n = 3000;
    synchFastRandomSetSeed(seed);
    sim_note("kind %d seed %#x low %ld width %d", kind, seed, lo, width);
    long prev = -1, same = 0;
    uint32_t ones = 0, zeros = 0;
    for (int i = 0; i < n; i++) {
        long v = rnd1(kind, lo, lo + width);
        ones |= (uint32_t)v; zeros |= ~(uint32_t)v;
        if (kind >= 2) {
            if (v < lo || v > lo + width) sim_fail("out-of-range", "%ld is not in %ld..%ld", v, lo, lo + width);
            seen[v - lo]++;
        } else {
            if (v == prev) { if (++same > 50) sim_fail("stuck", "seed %#x: the generator repeats %ld for ever", seed, v); } else same = 0;
            prev = v;
            seen[kind ? v >> 29 & 7 : v >> 12 & 7]++;
        }
    }
    uint32_t all = kind == 1 ? 0xffffffff : kind == 0 ? SYNCH_RAND_MAX - 1 : 0;
    if ((ones & all) != all || (zeros & all) != all) sim_fail("stuck", "seed %#x: in %d numbers some bits never change (%#x were set, %#x were clear)", seed, n, ones & all, zeros & all);
    int parts = kind >= 2 ? width : 8;
    for (int i = 0; i < parts; i++) if (seen[i] < n / parts / 8) sim_fail("unreached", "seed %#x: part %d of %d of the range was hit %d times in %d numbers", seed, i, parts, seen[i], n);
    sim_nontrivial();
}

/* ------------------------------------------------------------------ backoff */
SCENARIO(backoff, "at least four changes") {
    SynchBackoffStruct b;
    memset(&b, 0xa5, sizeof b);
    sim_set_topology(4, 1, TOPO_BLOCK);
    unsigned base = sim_range(0, 12), cap = base + sim_range(0, sim_draw(3) ? 12 : 19), shift = sim_range(0, 6);
    bool delays = cap <= 12;
    uint64_t lo = (1ULL << base) - 1, hi = (1ULL << cap) - 1, add = (1ULL << shift) - 1, cur = lo;
    sim_note("base 2^%u cap 2^%u shift %u", base, cap, shift);
    synchInitBackoff(&b, base, cap, shift);
    int n = sim_range(1, 24), changes = 0;
    if (b.backoff != cur) sim_fail("wrong-backoff", "starts at %u, not at the base %llu", b.backoff, (unsigned long long)cur);
    for (int i = 0; i < n; i++) {
        uint64_t before = cur;
        int op = sim_draw(4);
        switch (op) {
        case 0: synchBackoffIncrease(&b); cur = (cur << shift) + add; if (cur > hi) cur = hi; break;
        case 1: synchBackoffReduce(&b); cur >>= shift; if (cur < lo) cur = lo; break;
        case 2: synchResetBackoff(&b); cur = lo; break;
        default: if (!delays) break; synchBackoffDelay(&b);
#ifndef SYNCH_DISABLE_BACKOFF
            cur = (cur << shift) + add; if (cur > hi) cur = hi;
#endif
        }
        static const char *const nm[] = {"increasing", "reducing", "resetting", "delaying"};
        if (b.backoff != cur) sim_fail("wrong-backoff", "%s from %llu gave %u, expected %llu (base %llu, cap %llu, shift %u)", nm[op], (unsigned long long)before, b.backoff, (unsigned long long)cur, (unsigned long long)lo, (unsigned long long)hi, shift);
        if (cur != before) changes++;
    }
    if (changes >= 4) sim_nontrivial();
}

/* ------------------------------------------------------------------ memory allocation */
typedef struct { char *p; size_t size; uint64_t sig; } Blk;
static void put_sig(char *p, size_t size, uint64_t sig) {        /* at both ends */
    if (size >= 16) { sim_write(p, &sig, 8); sim_write(p + size - 8, &sig, 8); } else sim_write(p, &sig, size < 8 ? size : 8);
}
static bool has_sig(char *p, size_t size, uint64_t sig) { return size >= 16 ? !memcmp(p, &sig, 8) && !memcmp(p + size - 8, &sig, 8) : !memcmp(p, &sig, size < 8 ? size : 8); }
SCENARIO(memory, "at least two aligned blocks, one of them freed") {
    Blk b[24];
    int n = 0, aligned = 0, freed = 0, steps = sim_range(1, 20);
    uint64_t base = sim_live_bytes(), held = 0;
    sim_set_topology(4, SIM_PICK(1, 2), TOPO_BLOCK);
    sim_set_malloc_fill(SIM_PICK(0xa5, 0));
    for (int i = 0; i < steps; i++) {
        if (n && (sim_chance(40) || n == 24)) {
            int k = sim_draw(n);
            if (!has_sig(b[k].p, b[k].size, b[k].sig)) sim_fail("memory", "a block of %zu bytes lost its contents", b[k].size);
            uint64_t before = sim_live_bytes();
            synchFreeMemory(b[k].p, b[k].size);
            held -= b[k].size;
            if (before - sim_live_bytes() < b[k].size) sim_fail("leak", "freeing a block of %zu bytes at %p gave back %lld bytes", b[k].size, b[k].p, (long long)(before - sim_live_bytes()));
            b[k] = b[--n]; freed++;
            continue;
        }
        size_t size = sim_chance(50) ? sim_range(1, 300) : SIM_PICK(1, 4095, 4096, 4097, 8192, 65536, 100000, 1 << 20);
        size_t align = sim_chance(70) ? 1ULL << sim_range(3, sim_draw(3) ? 12 : 16) : 0;
        char *p = align ? synchGetAlignedMemory(align, size) : synchGetMemory(size);
        if (align) aligned++;
        sim_note("%zu bytes, alignment %zu", size, align);
        if (!p) sim_fail("memory", "no memory for %zu bytes", size);
        if ((uintptr_t)p & ((align ? align : 8) - 1)) sim_fail("memory", "%p is not aligned to %zu bytes", p, align ? align : 8);
        if (!sim_range_ok(p, size)) sim_fail("memory", "only %zu of %zu bytes at %p (alignment %zu) are in allocated memory", sim_alloc_left(p), size, p, align);
        for (int k = 0; k < n; k++) if (p < b[k].p + b[k].size && b[k].p < p + size) sim_fail("memory", "two live blocks overlap");
        b[n] = (Blk){p, size, 0x1122334455667788ULL * (i + 1)};
        put_sig(p, size, b[n].sig);
        held += size; n++;
    }
    while (n) { n--; synchFreeMemory(b[n].p, b[n].size); freed++; }
    if (sim_live_bytes() != base) sim_fail("leak", "%llu bytes are still allocated after everything was freed", (unsigned long long)(sim_live_bytes() - base));
    if (aligned >= 2 && freed) sim_nontrivial();
}

/* ------------------------------------------------------------------ pool */
enum { PMAX = 400 };
static void pool_case(void) {
    struct { char *p; uint64_t sig; bool fresh; } live[PMAX];     /* in the order of allocation */
    struct { char *p; } rec[PMAX];
    int nl = 0, nr = 0;
    int64_t rolled = 0;
    bool wrote_over = false;
    SynchPoolStruct pool;
    memset(&pool, 0xa5, sizeof pool);
    sim_set_topology(4, 1, TOPO_BLOCK);
    sim_set_malloc_fill(SIM_PICK(0xa5, 0));
    uint64_t base = sim_live_bytes();
    uint32_t size = sim_chance(40) ? sim_range(1, 100) : SIM_PICK(16, 8, 64, 4096, 1000000, 3 << 20, 5000000, 11 << 20, 16 << 20, (32 << 20) - 32, (32 << 20) - 64, 32 << 20, (32 << 20) + 1, 0x7fffffff, 0xffffffff);
    int r = synchInitPool(&pool, size);
    sim_note("objects of %u bytes: %s", size, r == SYNCH_POOL_INIT_SUCC ? "accepted" : "refused");
    if (r != SYNCH_POOL_INIT_SUCC) {
        if (r != SYNCH_POOL_INIT_ERROR) sim_fail("pool", "synchInitPool returned %d", r);
        if (size <= 16 << 20) sim_fail("pool", "objects of %u bytes were refused", size);
        if (sim_live_bytes() != base) sim_fail("leak", "a refused pool keeps %llu bytes", (unsigned long long)(sim_live_bytes() - base));
        return;
    }
    int steps = sim_range(1, sim_chance(10) ? 150 : 60), blocks = 0, recs = 0, rolls = 0, rest = 0;
    int fresh_tail = 0;               /* that many of the last allocations are fresh, live, and can be rolled back */
    for (int i = 0; i < steps; i++) {
        int what = sim_draw(10);
        if (what < 6 || !nl) {
            if (nl >= PMAX) continue;
            uint64_t before = sim_live_bytes();
            char *p = synchAllocObj(&pool);
            if (!p) sim_fail("pool", "no object");
            if (!sim_range_ok(p, size)) sim_fail("pool", "object %d of %u bytes at %p: only %zu bytes are in allocated memory", i, size, p, sim_alloc_left(p));
            if (size % 8 == 0 && (uintptr_t)p % 8) sim_fail("pool", "an object of %u bytes at the odd address %p", size, p);
            for (int k = 0; k < nl; k++) if (p < live[k].p + size && live[k].p < p + size) sim_fail("pool", "an object of %u bytes was handed out while it, or a part of it, is in use", size);
            bool fresh = true;
            for (int k = 0; k < nr; k++) if (rec[k].p == p) { rec[k] = rec[--nr]; fresh = false; break; }
#ifndef SYNCH_POOL_NODE_RECYCLING_DISABLE
            if (fresh && nr) sim_fail("pool", "new memory was taken although %d recycled objects are there", nr);
            for (int k = 0; k < nr; k++) if (p < rec[k].p + size && rec[k].p < p + size) sim_fail("pool", "the new object overlaps a recycled one without being it");
#endif
            if (fresh && sim_live_bytes() > before) {
                if (rolled > 0) sim_fail("pool", "new memory was taken although %lld rolled-back objects are there", (long long)rolled);
                blocks++;
            }
            if (fresh && rolled > 0) rolled--;
            live[nl].p = p; live[nl].sig = 0x9e3779b97f4a7c15ULL * (i + 1); live[nl].fresh = fresh;
            put_sig(p, size, live[nl].sig);
            nl++;
            fresh_tail = fresh ? fresh_tail + 1 : 0;
        } else if (what < 9) {
            int k = sim_draw(2) ? nl - 1 : (int)sim_draw(nl);
            if (!has_sig(live[k].p, size, live[k].sig)) sim_fail("pool", "a live object of %u bytes changed its contents", size);
            synchRecycleObj(&pool, live[k].p);
            if (fresh_tail > nl - 1 - k) fresh_tail = nl - 1 - k;
#ifdef SYNCH_POOL_NODE_RECYCLING_DISABLE
            /* never handed out again: it stays occupied, but its owner has let it go */
            rec[nr++].p = live[k].p;
#else
            rec[nr++].p = live[k].p;
#endif
            for (int q = k; q + 1 < nl; q++) live[q] = live[q + 1];
            nl--; recs++;
        } else {
            if (!fresh_tail) continue;
            int k = sim_range(1, fresh_tail);
            synchRollback(&pool, k);
            nl -= k; fresh_tail -= k; rolled += k; rolls++;
        }
        for (int k = 0; k < nl; k++) if (!has_sig(live[k].p, size, live[k].sig)) sim_fail("pool", "a live object of %u bytes changed its contents after step %d", size, i);
        if (nr >= PMAX - 1) break;
    }
    (void)wrote_over; (void)rest;
    synchDestroyPool(&pool);
    if (sim_live_bytes() != base) sim_fail("leak", "%llu bytes are left after the pool was destroyed", (unsigned long long)(sim_live_bytes() - base));
    if (blocks) sim_label("more than one block");
    if (rolls) sim_label("rollbacks");
    if (recs && (blocks || rolls)) sim_nontrivial();
}
SCENARIO(pool, "objects were recycled, and the pool grew by a block or rolled back") { pool_case(); }

/* ------------------------------------------------------------------ arguments of the benchmarks */
static char av[32][40];
static char *argv_[34];
static int argc_;
static SynchBenchArgs ba;
static void push(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(av[argc_], sizeof av[argc_], fmt, ap);
    va_end(ap);
    argv_[argc_] = av[argc_];
    argc_++;
}
static void parse(void *x) { synchParseArguments(&ba, argc_, argv_); }
SCENARIO(args, "at least three options, or a refused command line") {
    int nc = SIM_PICK(4, 1, 8, 64, 3);
    sim_set_topology(nc, 1, TOPO_BLOCK);
    static const struct { char s; const char *l; } opts[] = {{'t', "threads"}, {'f', "fibers"}, {'r', "runs"}, {'w', "max_work"}, {'b', "backoff_high"}, {'l', "backoff_low"}, {'n', "numa_nodes"}, {'b', "backoff"}};
    uint64_t t = nc, f = 1, r = SYNCH_RUNS, w = SYNCH_MAX_WORK, bh = 0, bl = 0, nn = HSYNCH_DEFAULT_NUMA_POLICY;
    int order[8], n = 8, used = 0, expect = -1;      /* expected exit status, -1 = none */
    bool any_fail = false;
    argc_ = 0;
    memset(argv_, 0, sizeof argv_);
    memset(&ba, 0xa5, sizeof ba);
    push("bench.run");
    for (int i = 0; i < n; i++) order[i] = i;
    for (int i = n - 1; i > 0; i--) { int j = sim_draw(i + 1), x = order[i]; order[i] = order[j]; order[j] = x; }
    int take = sim_range(0, 7);
    bool have_b = false;
    int bad = sim_chance(25) ? (int)sim_draw(6) + 1 : 0, badpos = bad ? (int)sim_draw(take + 1) : -1;
    for (int i = 0; i <= take; i++) {
        if (i == badpos && expect < 0) {
            switch (bad) {
            case 1: push("-z"); expect = 1; break;
            case 2: push("--no_such_option"); expect = 1; break;
            case 3: push(sim_draw(2) ? "-h" : "--help"); expect = 0; break;
            case 4: push("-t"); push("0"); t = 0; any_fail = true; break;
            case 5: push("--fibers=0"); f = 0; any_fail = true; break;
            default: break;
            }
        }
        if (i == take) break;
        int o = order[i];
        if (opts[o].s == 'b') { if (have_b) continue; have_b = true; }
        if (bad == 4 && opts[o].s == 't') continue;
        if (bad == 5 && opts[o].s == 'f') continue;
        uint64_t v;
        switch (opts[o].s) {
        case 't': v = t = sim_range(1, sim_draw(2) ? 16 : 300); break;
        case 'f': v = f = sim_range(1, 9); break;
        case 'r': v = r = sim_draw(2) ? sim_range(0, 100) : SIM_PICK(1000000, 123456789012, 4294967296, 2147483648); break;
        case 'w': v = w = SIM_PICK(64, 0, 1, 2147483647, 1000); break;
        case 'b': v = bh = SIM_PICK(10, 0, 1, 65535, 32768); break;
        case 'l': v = bl = SIM_PICK(5, 0, 1, 65535, 32768); break;
        default: v = nn = sim_range(0, 16); break;
        }
        switch (sim_draw(4)) {
        case 0: push("-%c", opts[o].s); push("%llu", (unsigned long long)v); break;
        case 1: push("-%c%llu", opts[o].s, (unsigned long long)v); break;
        case 2: push("--%s=%llu", opts[o].l, (unsigned long long)v); break;
        default: push("--%s", opts[o].l); push("%llu", (unsigned long long)v); break;
        }
        used++;
    }
    if (bad == 6 && expect < 0) { int o = sim_draw(8); if (sim_draw(2)) push("-%c", opts[o].s); else push("--%s", opts[o].l); expect = 1; }
    if (expect < 0 && any_fail) expect = 1;
    char line[512]; int k = 0;
    for (int i = 1; i < argc_; i++) k += snprintf(line + k, sizeof line - k, " %s", argv_[i]);
    line[k] = 0;
    sim_note("arguments:%s", line);
    optind = 0; opterr = 0;
    sim_capture_reset();
    int st = sim_catch_exit(parse, NULL);
    if (expect >= 0) {
        if (st < 0) sim_fail("args", "accepted, should be refused:%s", line);
        if (!!st != expect) sim_fail("args", "exit status %d, expected %d:%s", st, expect, line);
        if (!strstr(sim_captured(), "Usage")) sim_fail("args", "no help text was printed:%s", line);
        sim_nontrivial();
        return;
    }
    if (st >= 0) sim_fail("args", "refused with status %d:%s", st, line);
    uint64_t total = t * f;
    if (ba.nthreads != total) sim_fail("args", "%u threads instead of %llu:%s", ba.nthreads, (unsigned long long)total, line);
    if (ba.fibers_per_thread != f) sim_fail("args", "%u fibers instead of %llu:%s", ba.fibers_per_thread, (unsigned long long)f, line);
    if (ba.total_runs != r) sim_fail("args", "%llu runs instead of %llu:%s", (unsigned long long)ba.total_runs, (unsigned long long)r, line);
    if (ba.runs != r / total) sim_fail("args", "%llu runs per thread instead of %llu:%s", (unsigned long long)ba.runs, (unsigned long long)(r / total), line);
    if (ba.max_work != w) sim_fail("args", "max_work %u instead of %llu:%s", ba.max_work, (unsigned long long)w, line);
    if (ba.backoff_high != bh || ba.backoff_low != bl) sim_fail("args", "backoff %u/%u instead of %llu/%llu:%s", ba.backoff_low, ba.backoff_high, (unsigned long long)bl, (unsigned long long)bh, line);
    if (ba.numa_nodes != nn) sim_fail("args", "%u NUMA nodes instead of %llu:%s", ba.numa_nodes, (unsigned long long)nn, line);
    if (used >= 3) sim_nontrivial();
}

/* ------------------------------------------------------------------ statistics and clock */
static int64_t s_cas, s_fail, s_swap, s_faa;
static volatile uint64_t s_w[4] __attribute__((aligned(16)));
static int s_n[64];
static uint8_t s_ops[64][40];
static int S_f;
static void *stat_body(void *arg) {
    int id = (int)(long)arg;
    for (int i = 0; i < s_n[id]; i++) {
        uint64_t v = (uint64_t)sim_rd((int64_t *)&s_w[0]);
        bool ok;
        switch (s_ops[id][i] % 7) {
        case 0: ok = synchCAS64(&s_w[0], v, v + 1); s_cas++; s_fail += !ok; break;
        case 1: ok = synchCASPTR(&s_w[0], v, v + 1); s_cas++; s_fail += !ok; break;
        case 2: ok = synchCAS32(&s_w[1], (uint32_t)v, (uint32_t)v + 1); s_cas++; s_fail += !ok; break;
        case 3: synchSWAP(&s_w[0], (void *)(v + 1)); s_swap++; break;
        case 4: synchFAA64(&s_w[0], 1); s_faa++; break;
        case 5: synchFAA32(&s_w[1], 1); s_faa++; break;
        default: ok = synchCAS128(&s_w[2], s_w[2], s_ops[id][i] & 8 ? s_w[3] : s_w[3] + 1, v, v); s_cas++; s_fail += !ok; break;
        }
        if (S_f > 1 && i % 3 == 1) synchResched();
    }
    return NULL;
}
#ifdef DEBUG
static int64_t stat_of(const char *name) {
    const char *p = strstr(sim_captured(), name);
    if (!p) sim_fail("stats", "the statistics say nothing about %s", name);
    return strtoll(p + strlen(name), NULL, 10);
}
#endif
SCENARIO(stats, "at least two threads and at least one failed compare-and-swap") {
    s_cas = s_fail = s_swap = s_faa = 0;
    for (int i = 0; i < 4; i++) s_w[i] = 0;
    sim_set_topology(SIM_PICK(4, 1, 8), 1, TOPO_BLOCK);
    int rounds = sim_range(1, 3), most = 0;
    uint64_t total = 0;
    for (int r = 0; r < rounds; r++) {
        S_f = SIM_PICK(1, 1, 2, 3);
        int n = S_f * sim_range(1, 4);
        if (n > most) most = n;
        for (int i = 0; i < n; i++) { s_n[i] = sim_range(0, 20); total += s_n[i]; for (int j = 0; j < s_n[i]; j++) s_ops[i][j] = sim_draw(16); }
        sim_note("round %d: %d threads, %d fibers each", r, n, S_f);
        synchStartThreadsN(n, stat_body, S_f > 1 ? S_f : SYNCH_DONT_USE_UTHREADS);
        synchJoinThreadsN(n);
        sim_join_all();
    }
    sim_capture_reset();
    synchPrintStats(most, total ? total : 1);
#ifdef DEBUG
    struct { const char *n; int64_t v; } w[] = {{"executed_CAS:", s_cas}, {"successful_CAS:", s_cas - s_fail}, {"executed_SWAP:", s_swap}, {"executed_FAA:", s_faa}, {"\tatomics:", s_cas + s_swap + s_faa}};
    for (int i = 0; i < 5; i++) if (stat_of(w[i].n) != w[i].v) sim_fail("stats", "%s %lld, but the threads executed %lld (%d rounds)", w[i].n, (long long)stat_of(w[i].n), (long long)w[i].v, rounds);
#endif
    if (most >= 2 && s_fail) sim_nontrivial();
}
SCENARIO(clock, "the clock was read at least three times over at least a second") {
    uint64_t ns = sim_draw(2) ? sim_draw(1000000000000ULL) : (uint64_t)SIM_PICK(0, 999999999, 1000000000, 4294967295000000LL, 4294967296000000LL, 2147483648000000000LL);
    int n = sim_range(1, 12);
    uint64_t start = ns;
    for (int i = 0; i < n; i++) {
        sim_set_clock(ns);
        int64_t got = synchGetTimeMillis(), lo = (int64_t)(ns / 1000000), hi = lo + 1;
        if (got < lo || got > hi) sim_fail("clock", "%lld ms at %llu ns", (long long)got, (unsigned long long)ns);
        ns += sim_draw(3) ? sim_draw(3000000) : sim_draw(3000000000ULL);
    }
    if (n >= 3 && ns - start >= 1000000000ULL) sim_nontrivial();
}
