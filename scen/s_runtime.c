/* Threads, fibers, placement. */
#include "common.h"
#include <uthreads.h>

/* ------------------------------------------------------------------ start and join, over several rounds */
enum { RN = 288 };
static int ran_[RN], fin_[RN], posix_of[RN];
static int R_n, R_fpt, R_think, R_base;
static int waits_for[RN];
static int body_think[RN];
static int R_func;
static void *round_body(void *arg, int func) {
    long id = (long)arg;
    if (func != R_func) sim_fail("bad-function", "a thread runs a function that was given to an earlier start");
    if (id < 0 || id >= R_n) sim_fail("bad-id", "a thread body got id %ld, with %d threads", id, R_n);
    if (ran_[id]++) sim_fail("bad-id", "the function ran twice for id %ld", id);
    if (synchGetThreadId() != id) sim_fail("bad-id", "synchGetThreadId() is %d in thread %ld (%d threads, %d fibers each)", synchGetThreadId(), id, R_n, R_fpt);
    posix_of[id] = synchGetPosixThreadId();
    think(body_think[id]);
    if (R_fpt == 1 && synchIsSystemOversubscribed()) {          /* a hint to the operating system is due */
        bool hinted = false;
        for (int i = 0; i < 3 && !hinted; i++) { unsigned long y = sim_sys_yields(); synchResched(); hinted = sim_sys_yields() != y; }
        if (!hinted) sim_fail("no-yield", "synchResched() does not give up the processor in a round of %d threads on fewer cores", R_n);
    }
    /* wait for another thread, by the library's own way of waiting */
    int w = waits_for[id];
    if (w >= 0) while (!ran_[w]) synchResched();
    if (synchGetThreadId() != id) sim_fail("bad-id", "synchGetThreadId() became %d in thread %ld", synchGetThreadId(), id);
    if (synchGetPosixThreadId() != posix_of[id]) sim_fail("bad-id", "synchGetPosixThreadId() changed inside thread %ld", id);
    think(body_think[id] / 2);
    fin_[id]++;
    sim_progress();
    return NULL;
}
static void *round_body0(void *arg) { return round_body(arg, 0); }
static void *round_body1(void *arg) { return round_body(arg, 1); }
SCENARIO(rounds, "at least two rounds, or fibers, with at least two threads each") {
    int nc = SIM_PICK(4, 2, 8, 1, 3, 6, 16);
    int nodes = nc >= 4 && nc % 2 == 0 ? SIM_PICK(1, 2) : 1;
    sim_set_topology(nc, nodes, sim_draw(2) ? TOPO_BLOCK : TOPO_SMT);
    int nr = SIM_PICK(2, 1, 3, 4);
    int nontriv = 0, size = sim_draw(100), most = 270;       /* a few programs have very many rounds, a few very many threads or fibers */
    if (size == 99) { nr = sim_range(5, 60); sim_label("many rounds"); }
    sim_set_noprogress_bound(100000);
    for (int r = 0; r < nr; r++) {
        R_fpt = SIM_PICK(1, 1, 2, 3, 4);
        int k = sim_range(1, R_fpt > 1 ? 4 : 7);
        if (size == 98) { R_fpt = sim_range(1, 40); k = sim_range(1, 257 / R_fpt); }
        if (size == 97) { R_fpt = 1; k = draw_wide(); }
        if (k > most) k = most;
        most -= k - 1;
        if (k * R_fpt > 32) sim_label("33-260 threads or fibers");
        R_n = k * R_fpt;
        for (int i = 0; i < R_n; i++) { ran_[i] = fin_[i] = 0; body_think[i] = SIM_PICK(0, 3, 30, 300); waits_for[i] = sim_chance(40) ? sim_draw(R_n) : -1; }
        sim_note("round %d: %d threads, %d fibers per POSIX thread, %d cpus", r, R_n, R_fpt, nc);
        int created = sim_created_threads();
        R_func = sim_draw(2);
        synchStartThreadsN(R_n, R_func ? round_body1 : round_body0, R_fpt > 1 ? R_fpt : SIM_PICK(SYNCH_DONT_USE_UTHREADS, 0));
        synchJoinThreadsN(R_n);
        for (int i = 0; i < R_n; i++) if (!fin_[i]) sim_fail("early-join", "join returned in round %d before thread %d of %d had finished (%s)", r, i, R_n, ran_[i] ? "it was running" : "it had not started");
        created = sim_created_threads() - created;
        if (created != k - 1) sim_fail("bad-threads", "%d POSIX threads with %d fibers each: %d threads were created beside the caller", k, R_fpt, created);
        if (sim_unjoined_threads()) sim_fail("unjoined", "join returned in round %d with %d POSIX threads neither joined nor detached", r, sim_unjoined_threads());
        for (int i = 0; i < R_n; i++) for (int j = 0; j < R_n; j++)
            if ((i / R_fpt == j / R_fpt) != (posix_of[i] == posix_of[j])) sim_fail("bad-id", "threads %d and %d: posix ids %d and %d with %d fibers per thread", i, j, posix_of[i], posix_of[j], R_fpt);
        if ((R_fpt == 1 || R_n > nc) && synchIsSystemOversubscribed() != (R_n > nc)) sim_fail("oversubscription", "round %d: %d POSIX threads with %d fibers on %d cores, but the library says oversubscribed=%d", r, k, R_fpt, nc, synchIsSystemOversubscribed());
        if (R_n >= 2) nontriv++;
        if (R_fpt > 1) { sim_label("fibers"); if (R_n >= 2) nontriv++; }
        if (k > nc) sim_label("more threads than cores");
    }
    if (nontriv >= 2) sim_nontrivial();
    /* every POSIX thread that was started must be gone, and no thread structure may be held */
    sim_join_all();
}

/* ------------------------------------------------------------------ fibers */
enum { FA_YIELD, FA_SPAWN, FA_THINK, FA_DEEP, FA_WAIT, FA_INIT };
typedef struct { int kind, arg; } FAct;
typedef struct { int n; FAct a[14]; } Script;
enum { FS = 6, FT = 3, FMAX = 200 };
typedef struct { bool live, waits; int idx, turns; uint64_t token; int script, ran; } Fib;
typedef struct {
    Script s[FS];
    int max0, live, total, cap;
    int running;                                    /* the fiber that runs now */
    Fib f[FMAX];
    uint64_t level[16];
} FThread;
static FThread *ft[FT];
static int f_nt, f_reused, f_nested, f_refused;

static void f_enter(FThread *T, int me) {            /* fiber `me` has got control */
    Fib *f = &T->f[me];
    T->running = me;
    f->turns++;
    int idx = synchCurrentFiberIndex();
    if (idx < 0 || idx >= T->cap) sim_fail("fiber", "fiber %d has the index %d, with at most %d fibers", me, idx, T->cap);
    if (f->idx < 0) f->idx = idx;
    if (idx != f->idx) sim_fail("fiber", "the index of fiber %d changed from %d to %d", me, f->idx, idx);
    for (int i = 0; i < T->total; i++) if (i != me && T->f[i].live && T->f[i].idx == idx) sim_fail("fiber", "fibers %d and %d both have the index %d", i, me, idx);
}
static uint64_t deep(int n, uint64_t seed) {         /* about 1 KB of stack per level */
    volatile uint64_t a[128];
    for (int i = 0; i < 128; i++) a[i] = seed + i;
    if (n > 0) deep(n - 1, seed * 3 + 1);
    for (int i = 0; i < 128; i++) if (a[i] != seed + i) sim_fail("fiber", "local data of a fiber changed");
    return seed;
}
static void *f_body(void *arg);
static void f_yield(FThread *T, int me) {
    int before[FMAX], n = T->total;
    for (int i = 0; i < n; i++) before[i] = T->f[i].turns;
    bool was[FMAX];
    for (int i = 0; i < n; i++) was[i] = T->f[i].live;
    synchFiberYield();
    f_enter(T, me);
    for (int i = 0; i < n; i++) if (i != me && was[i] && !T->f[i].waits && T->f[i].turns == before[i]) sim_fail("fiber", "fiber %d yielded and ran again before fiber %d, which was live, had a turn", me, i);
}
static void f_level(FThread *T) {
    if (f_nt > 1 || T->live != 1) return;
    uint64_t now = sim_live_bytes();
    if (T->level[T->cap] && T->level[T->cap] != now) sim_fail("leak", "%lld bytes more than before the fibers were created are allocated after all of them finished", (long long)(now - T->level[T->cap]));
    T->level[T->cap] = now;
}
static void f_run(FThread *T, int me) {
    Fib *f = &T->f[me];
    Script *s = &T->s[f->script];
    volatile uint64_t local[24];
    for (int i = 0; i < 24; i++) local[i] = f->token * (i + 1);
    for (int k = 0; k < s->n; k++) {
        int arg = s->a[k].arg;
        switch (s->a[k].kind) {
        case FA_YIELD: f_yield(T, me); break;
        case FA_THINK: think(arg); break;
        case FA_DEEP: deep(arg, f->token); break;
        case FA_SPAWN: {
            if (T->total >= FMAX - 1) break;
            int id = T->total;
            T->f[id] = (Fib){false, false, -1, 0, 0x9e3779b97f4a7c15ULL * (id + 3), arg, 0};
            bool expect = T->live < T->cap, reuse = false;
            /* it must not run before this fiber gives up control */
            T->total++;
            T->live += expect; T->f[id].live = expect;
            if (me) f_nested++;
            for (int i = 0; i < id; i++) if (T->f[i].idx >= 0 && !T->f[i].live) reuse = true;
            int r = synchSpawnFiber(f_body, (long)((uint64_t)(T - ft[0]) << 32 | id));
            if (T->running != me) sim_fail("fiber", "creating a fiber ran another one");
            if ((r >= 0) != expect) sim_fail("fiber", "creating a fiber with %d of %d live was %s", T->live - expect, T->cap, r >= 0 ? "accepted" : "refused");
            if (!expect) f_refused++; else if (reuse) f_reused++;
            break;
        }
        case FA_WAIT:
            if (me) break;
            f->waits = true;                /* it yields inside, unseen */
            synchWaitForAllFibers();
            f->waits = false;
            f_enter(T, me);
            if (T->live != 1) sim_fail("fiber", "waiting for all fibers returned with %d of them live", T->live - 1);
            break;
        default:
            if (me || T->live != 1) break;
            f_level(T);
            T->cap = arg;
            synchInitFibers(arg);
            T->f[0].idx = -1;
            f_enter(T, me);
        }
        if (T->running != me) sim_fail("fiber", "two fibers ran at the same time");
        if (me == 0) f_level(T);
        for (int i = 0; i < 24; i++) if (local[i] != f->token * (i + 1)) sim_fail("fiber", "local data of fiber %d changed", me);
    }
}
static void *f_body(void *arg) {
    FThread *T = ft[0] + ((uint64_t)arg >> 32);
    int me = (int)((uint64_t)arg & 0xffffffff);
    if (me <= 0 || me >= T->total) sim_fail("fiber", "a fiber got the argument %#lx", (long)arg);
    Fib *f = &T->f[me];
    if (!f->live) sim_fail("fiber", "fiber %d ran, though it was refused or has finished", me);
    if (f->ran++) sim_fail("fiber", "fiber %d ran twice", me);
    f_enter(T, me);
    f_run(T, me);
    f->live = false;
    T->live--;
    sim_progress();
    return NULL;
}
static void *f_thread(void *arg) {
    FThread *T = ft[0] + (long)arg;
    synchInitFibers(T->max0);
    T->cap = T->max0;
    T->live = 1; T->total = 1;
    T->f[0] = (Fib){true, false, -1, 0, 77, 0, 1};
    f_enter(T, 0);
    f_level(T);
    f_run(T, 0);
    T->f[0].waits = true;
    synchWaitForAllFibers();
    f_enter(T, 0);
    if (T->live != 1) sim_fail("fiber", "waiting for all fibers returned with %d of them live", T->live - 1);
    for (int i = 1; i < T->total; i++) if (T->f[i].idx >= 0 && T->f[i].ran != 1) sim_fail("fiber", "fiber %d ran %d times", i, T->f[i].ran);
    f_level(T);
    return NULL;
}
SCENARIO(fibers, "a fiber was created in place of one that had finished, and a fiber created another one or a creation was refused") {
    f_reused = f_nested = f_refused = 0;
    f_nt = SIM_PICK(1, 1, 2, 3);
    bool main_too = sim_draw(2);
    sim_set_noprogress_bound(300000);
    sim_set_topology(4, 1, TOPO_BLOCK);
    FThread *T = sim_alloc(sizeof(FThread) * FT);
    for (int t = 0; t < FT; t++) ft[t] = T + t;
    for (int t = 0; t < f_nt; t++) {
        T[t].max0 = SIM_PICK(3, 2, 4, 1, 6, 9);
        sim_note("thread %d: at most %d fibers", t, T[t].max0);
        int scripts = sim_range(2, FS);
        for (int s = 0; s < scripts; s++) {
            Script *S = &T[t].s[s];
            S->n = sim_range(s ? 0 : 2, s ? 6 : 14);
            char line[200]; int k = 0; line[0] = 0;
            for (int i = 0; i < S->n; i++) {
                FAct *a = &S->a[i];
                int d = sim_draw(10);
                a->kind = d < 4 ? FA_YIELD : d < 7 ? FA_SPAWN : d < 8 ? FA_THINK : d < 9 ? FA_DEEP : s ? FA_YIELD : SIM_PICK(FA_WAIT, FA_INIT);
                if (a->kind == FA_SPAWN && s == scripts - 1) a->kind = FA_YIELD;
                a->arg = a->kind == FA_SPAWN ? sim_range(s + 1, scripts - 1) : a->kind == FA_THINK ? sim_range(1, 30) : a->kind == FA_DEEP ? SIM_PICK(3, 10, 24, 40) : a->kind == FA_INIT ? SIM_PICK(3, 1, 2, 4, 7) : 0;
                k += snprintf(line + k, sizeof line - k, " %s", (const char *[]){"yield", "spawn", "think", "deep", "wait-all", "init"}[a->kind]);
                if (a->arg) k += snprintf(line + k, sizeof line - k, "(%d)", a->arg);
            }
            sim_note("  script %d:%s", s, line);
        }
    }
    for (int t = main_too; t < f_nt; t++) sim_spawn(f_thread, (void *)(long)t);
    if (main_too) f_thread((void *)0);
    sim_join_all();
    if (f_reused && (f_nested || f_refused)) sim_nontrivial();
    if (f_refused) sim_label("refused creations");
    if (f_nested) sim_label("fibers that create fibers");
}

/* ------------------------------------------------------------------ placement */
static int pl_core[200], pl_node[200], pl_aff[200], pl_n, pl_affn[200];
static void *place_body(void *arg) {
    long id = (long)arg;
    int n = 0;
    pl_core[id] = synchGetPreferredCore(); pl_node[id] = synchGetPreferredNumaNode();
    pl_aff[id] = sim_last_affinity(sim_tid(), &n); pl_affn[id] = n;
    return NULL;
}
#if defined(VARIANT_nonuma) || defined(VARIANT_gcclto_nonuma)
static int real_node(int cpu) { return 0; }
enum { NUMA_ON = 0 };
#else
static int real_node(int cpu) { return sim_node_of_cpu(cpu); }
enum { NUMA_ON = 1 };
#endif
static const char *const pol_name[] = {"flat", "sparse", "sparse SMT-prefer", "dense", "dense SMT-prefer"};
SCENARIO(placement, "at least two NUMA nodes with at least two cores each") {
    static const uint32_t pols[] = {SYNCH_THREAD_PLACEMENT_FLAT, SYNCH_THREAD_PLACEMENT_NUMA_SPARSE, SYNCH_THREAD_PLACEMENT_NUMA_SPARSE_SMT_PREFER, SYNCH_THREAD_PLACEMENT_NUMA_DENSE, SYNCH_THREAD_PLACEMENT_NUMA_DENSE_SMT_PREFER};
    int nodes = SIM_PICK(2, 1, 3, 4, 8, 6), size = SIM_PICK(4, 2, 1, 8, 3, 6, 16, 12, 5), nc = nodes * size;
    bool smt = size % 2 == 0 && sim_draw(3);
    int kind = smt ? TOPO_SMT : TOPO_BLOCK;
    if (nodes == 1 && size % 2 == 0) kind = TOPO_SMT, smt = true;          /* the two numberings cannot be told apart */
    if (sim_chance(10)) kind = TOPO_INTERLEAVED;
    sim_set_topology(nc, nodes, kind);
    int w = sim_draw(5);
    uint32_t policy = pols[w];
    sim_note("%d cores, %d nodes, %s numbering, %s placement", nc, nodes, kind == TOPO_BLOCK ? "block" : smt ? "SMT" : "interleaved", pol_name[w]);
    /* the policy is kept as it is set; an unknown one becomes the last known one */
    uint32_t odd = SIM_PICK(SYNCH_THREAD_PLACEMENT_POLICY_MAX + 1, 1000, 0xffffffff, 0x80000000);
    synchSetThreadPlacementPolicy(odd);
    if (synchGetThreadPlacementPolicy() != SYNCH_THREAD_PLACEMENT_POLICY_MAX) sim_fail("policy", "policy %u was kept as %u", odd, synchGetThreadPlacementPolicy());
    synchSetThreadPlacementPolicy(policy);
    if (synchGetThreadPlacementPolicy() != policy) sim_fail("policy", "policy %u was kept as %u", policy, synchGetThreadPlacementPolicy());
    if (synchGetNCores() != nc) sim_fail("cores", "%u cores instead of %d", synchGetNCores(), nc);
    int used[600] = {0}, on[16] = {0}, core[300];
    int many = 2 * nc + 3; if (many > 290) many = 290;
    for (int i = 0; i < many; i++) {
        uint32_t c = synchPreferredCoreOfThread(i);
        if (c >= nc) sim_fail("core", "%s: thread %d prefers core %u of %d", pol_name[w], i, c, nc);
        if (synchPreferredCoreOfThread(i) != c) sim_fail("core", "%s: thread %d prefers different cores in turn", pol_name[w], i);
        core[i] = c;
        if ((int)synchPreferredNumaNodeOfThread(i) != real_node(c)) sim_fail("node", "%s: thread %d prefers core %u, which is on node %d, but node %u", pol_name[w], i, c, real_node(c), synchPreferredNumaNodeOfThread(i));
    }
    for (int i = 0; i < nc; i++) {
        if (used[core[i]]++) sim_fail("shared-core", "%s: thread %d shares core %d with an earlier one, with %d cores", pol_name[w], i, core[i], nc);
        if (kind == TOPO_INTERLEAVED || !NUMA_ON || w == 0) continue;
        on[sim_node_of_cpu(core[i])]++;
        int lo = nc, hi = 0, nu = 0;
        for (int k = 0; k < nodes; k++) { if (on[k] < lo) lo = on[k]; if (on[k] > hi) hi = on[k]; nu += on[k] > 0; }
        if ((w == 1 || w == 2) && hi - lo > 1) sim_fail("spread", "%s: of the first %d threads %d are on one node and %d on another", pol_name[w], i + 1, hi, lo);
        if (w >= 3 && nu != (i + size) / size) sim_fail("dense", "%s: the first %d threads use %d nodes of %d cores", pol_name[w], i + 1, nu, size);
    }
    /* the SMT-prefer policies fill both threads of a core before they go on to the next core of the node */
    if (smt && kind == TOPO_SMT && NUMA_ON && (w == 2 || w == 4)) {
        int half[16] = {0}, seen[600] = {0};
        for (int i = 0; i < nc; i++) {
            int phys = core[i] % (nc / 2), node = sim_node_of_cpu(core[i]);
            half[node] += seen[phys]++ ? -1 : 1;
            if (half[node] > 1) sim_fail("smt", "%s: the first %d threads leave %d cores of node %d half used", pol_name[w], i + 1, half[node], node);
        }
    }
    /* threads that are really started */
    if (sim_draw(2)) {
        int fpt = SIM_PICK(1, 1, 2, 3), k = sim_range(1, 9);
        pl_n = fpt * k;
        synchStartThreadsN(pl_n, place_body, fpt > 1 ? fpt : SYNCH_DONT_USE_UTHREADS);
        synchJoinThreadsN(pl_n);
        sim_join_all();
        for (int i = 0; i < pl_n; i++) {
            int want = core[i / fpt % nc];
            if (pl_core[i] != want) sim_fail("core", "%s: thread %d of %d (%d fibers each) says it prefers core %d, not %d", pol_name[w], i, pl_n, fpt, pl_core[i], want);
            if (pl_node[i] != real_node(want)) sim_fail("node", "%s: thread %d of %d says it prefers node %d, not %d", pol_name[w], i, pl_n, pl_node[i], real_node(want));
            if (pl_affn[i] != 1 || pl_aff[i] != want) sim_fail("affinity", "%s: thread %d of %d prefers core %d but is bound to %d cores (%d)", pol_name[w], i, pl_n, want, pl_affn[i], pl_aff[i]);
        }
        sim_label("threads started");
    }
    sim_label(pol_name[w]);
    if (nodes >= 2 && size >= 2) sim_nontrivial();
}
