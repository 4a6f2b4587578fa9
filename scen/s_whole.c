/* Properties of all objects together: values, memory safety, reclamation, several instances, build options. */
#include "common.h"

extern bool copy_register;
static Obj O[4];
static int nobj, obj_base;
static Program P;
static Env E;
#define ALL_KINDS (KIND_COMB | KIND_QUEUE | KIND_STACK | KIND_HASH)
static const ObjType *pick(int kind, int all, int none) {
    const ObjType *v[32];
    int n = obj_select(kind, all, none, v);
    return v[sim_draw(n)];
}
static void *body(void *arg) {
    int id = (int)(long)arg;
    for (int i = 0; i < nobj; i++) obj_thread_init(&O[obj_base + i], id);
    for (int i = 0; i < P.nops[id]; i++) {
        Op *op = &P.ops[id][i];
        think(op->think);
        obj_apply(&O[op->obj], op->op, op->arg, id);
    }
    return NULL;
}
static int64_t draw_arg(Obj *o, int op, bool wild) {
    if (o->t->kind == KIND_HASH) return (int64_t)sim_draw(o->nkeys) << 32 | (int64_t)(sim_draw(1000) + 1);
    if (o->t->kind != KIND_COMB && op == 1) return 0;
    return obj_value(o, wild);
}
static void draw_program(int lo, int hi, int mix, int budget, bool wild) {
    int nops[MAX_T];
    int tk = SIM_PICK(0, 0, 3, 12);
    bool active[MAX_T];
    if (E.n > 20) draw_active(E.n, active);
    for (int i = 0; i < E.n; i++) { nops[i] = E.n > 20 && !active[i] ? 0 : sim_range(lo, hi); if (i < 2 && E.n <= 20 && !nops[i]) nops[i] = 1; if (nops[i] > budget) nops[i] = budget; budget -= nops[i]; }
    prog_init(&P, E.n, nops);
    for (int i = 0; i < E.n; i++)
        for (int j = 0; j < nops[i]; j++) {
            Op *op = &P.ops[i][j];
            op->obj = obj_base + (nobj > 1 ? sim_draw(nobj) : 0);
            Obj *o = &O[op->obj];
            op->op = o->t->kind == KIND_COMB ? 0 : o->t->kind == KIND_HASH ? sim_draw(3) : sim_chance(mix);
            op->think = tk ? sim_draw(tk + 1) : 0;
            op->arg = draw_arg(o, op->op, wild);
        }
}
static int overlaps(bool same) {
    int n = 0;
    for (int i = 0; i < hist_n; i++) for (int j = i + 1; j < hist_n && hist[j].inv < hist[i].res; j++) if ((hist[i].obj == hist[j].obj) == same) n++;
    return n;
}

/* ------------------------------------------------------------------ one thread, any values, against a sequential model */
static int who, v_nops, v_mix, v_extreme, v_answers;
static int64_t *v_model;
static int v_lo, v_hi;
static Op *v_ops;
static void *values_body(void *arg) {
    int id = (int)(long)arg;
    if (id != who) return NULL;
    Obj *o = &O[0];
    obj_thread_init(o, id);
    uint64_t st = (uint64_t)o->init_state;
    for (int i = 0; i < v_nops; i++) {
        int op = v_ops[i].op;
        int64_t a = v_ops[i].arg, want, got = obj_apply_raw(o, op, a, id);
        sim_progress();
        switch (o->t->kind) {
        case KIND_COMB:
            want = (int64_t)st;
            st = o->reg ? (uint64_t)a : chain_next(st, (uint64_t)a);
            break;
        case KIND_QUEUE:
            if (op == OP_ENQ) { v_model[v_hi++] = a; continue; }
            want = v_lo < v_hi ? v_model[v_lo++] : EMPTY_VAL;
            break;
        case KIND_STACK:
            if (op == OP_PUSH) { v_model[v_hi++] = a; continue; }
            want = v_hi > 0 ? v_model[--v_hi] : EMPTY_VAL;
            break;
        default: {
            int k = (int)(a >> 32);
            want = v_model[k];
            if (op == OP_INS) { v_model[k] = 1; want = 1; }
            else if (op == OP_DEL) { v_model[k] = 0; continue; }
        }
        }
        if (got != EMPTY_VAL) v_answers++;
        if (got != want)
            sim_fail("wrong-result", "%s: operation %d (kind %d, argument %lld) of the only thread returned %lld instead of %lld", o->t->name, i, op, (long long)a, (long long)got, (long long)want);
    }
    return NULL;
}
SCENARIO(values, "at least two operations returned a value and some argument was not a small positive number") {
    uniq = 0; v_answers = v_extreme = 0; v_lo = v_hi = 0;
    const ObjType *t = pick(ALL_KINDS, 0, 0);
    bool lcrq = !strcmp(t->name, "LCRQ");
    if (lcrq) lcrq_limits();
    if (!(t->flags & F_FIBERS) && sim_chance(3)) env_threads = draw_wide();
    draw_env(&E, 6, t->flags & F_FIBERS);
    obj_create(&O[0], t, 0, E.n, E.grp, SIM_PICK(0, 0, 0xa5));
    Obj *o = &O[0];
    who = sim_draw(4) ? (int)sim_draw(E.n) : E.n - 1;
    if (E.n > 64) sim_label("more than 64 threads");
    if (t->kind == KIND_HASH) {
        o->nkeys = sim_range(1, sim_chance(30) ? 64 : 8);
        for (int i = 0; i < o->nkeys; i++) {
            o->keys[i] = sim_chance(60) ? sim_draw_value() : sim_range(-20, 40);
        }
        obj_distinct_keys(o);
    }
    o->reg = t->kind == KIND_COMB && sim_draw(4);
    if (t->flags & F_SPECULATIVE) copy_register = o->reg;
    v_nops = sim_range(1, sim_chance(6) ? (sim_chance(20) ? 3000 : 400) : 30);
    v_mix = SIM_PICK(50, 40, 60, 10, 80);
    v_ops = sim_alloc(sizeof(Op) * (v_nops + 1));
    v_model = sim_alloc(sizeof(int64_t) * (v_nops + 65));
    bool extreme = sim_chance(85);
    for (int i = 0; i < v_nops; i++) {
        int op = t->kind == KIND_COMB ? 0 : t->kind == KIND_HASH ? (int)sim_draw(3) : sim_chance(v_mix);
        v_ops[i].op = op;
        v_ops[i].arg = draw_arg(o, op, extreme);
        if (t->kind != KIND_HASH && (v_ops[i].arg < 0 || v_ops[i].arg > 100000)) v_extreme++;
    }
    for (int i = 0; i < o->nkeys; i++) if (o->keys[i] < 0 || o->keys[i] > 100000) v_extreme++;
    run_threads(&E, values_body);
    if (v_answers >= 2 && v_extreme) sim_nontrivial();
    sim_label(t->name);
    if (v_nops > 100) sim_label("more than 100 operations");
}

/* ------------------------------------------------------------------ memory safety */
static void memsafe_case(bool twin) {
    uniq = 0; nobj = 1;
    sim_only_kinds("memory crash uninitialised hang");
    const ObjType *t = pick(ALL_KINDS, 0, 0);
    bool lcrq = !strcmp(t->name, "LCRQ");
    if (lcrq) lcrq_limits();
    bool fibers = (t->flags & F_FIBERS) || ((t->flags & F_BLOCKING) && sim_chance(15));
    int fill = twin ? sim_twin_fill() : SIM_PICK(0xa5, 0, 0xff);
    if (!fibers && sim_chance(2)) env_threads = draw_wide();
    draw_env(&E, 10, fibers);
    sim_set_malloc_fill(fill);
    int fpt = E.grp;
    if (E.n == 1 && (t->flags & F_FIBERS)) fpt = SIM_PICK(1, 2, 5);
    obj_create(&O[0], t, 0, E.n, fpt, fill);
    draw_program(0, E.n > 30 ? 2 : lcrq ? 12 : 20, SIM_PICK(50, 30, 70), 160, false);
    run_threads(&E, body);
    int ov = overlaps(true);
    if (ov >= 2 || E.n > 1) sim_nontrivial();
    if (E.n > 64) sim_label("more than 64 threads");
    if (E.fpt > 1) sim_label("fibers");
    sim_label(t->name);
}
SCENARIO(memsafe, "several threads") { memsafe_case(false); }
SCENARIO(memtwin, "several threads, run twice with different contents of fresh memory") { memsafe_case(true); }

/* ------------------------------------------------------------------ reclamation */
#define POISON ((int64_t)0x5a5a5a5a5a5a5a5aLL)
#define MAXNODES 4096
static void *node[MAXNODES];
static int8_t node_state[MAXNODES];      /* 1 in use, 0 recycled */
static int n_nodes, op_allocs, op_recycles, n_reused;
static int in_op[MAX_T]; static bool poison;
static int find_node(void *p) { for (int i = n_nodes; i-- > 0;) if (node[i] == p) return i; return -1; }
static void rec_alloc(void *p) {
    int i = find_node(p);
    if (i < 0 && n_nodes == MAXNODES) sim_inconclusive("too many nodes");
    if (i < 0) { i = n_nodes++; node[i] = p; }
    else { if (node_state[i]) sim_fail("reclaim", "%s: a node that is in use was handed out again", O[0].t->name); n_reused++; }
    node_state[i] = 1;
    if (in_op[sim_tid()]) op_allocs++;
}
static void rec_recycle(void *p) {
    int i = find_node(p);
    if (i < 0 && n_nodes == MAXNODES) sim_inconclusive("too many nodes");
    if (i < 0) { i = n_nodes++; node[i] = p; node_state[i] = 1; }        /* the first node of a queue is part of the object */
    if (!node_state[i]) sim_fail("reclaim", "%s: a node was recycled twice", O[0].t->name);
    node_state[i] = 0;
    if (in_op[sim_tid()]) op_recycles++;
    if (poison) { int64_t w[2] = {POISON, POISON}; sim_write(p, w, 16); }
}
static int removed, inserted;
static void *reclaim_body(void *arg) {
    int id = (int)(long)arg;
    obj_thread_init(&O[0], id);
    for (int i = 0; i < P.nops[id]; i++) {
        Op *op = &P.ops[id][i];
        think(op->think);
        int t = sim_tid();
        in_op[t]++;
        int64_t r = obj_apply_raw(&O[0], op->op, op->arg, id);
        in_op[t]--;
        sim_progress();
        if (op->op == 0) inserted++;
        else if (r == POISON) sim_fail("reclaim", "%s: an operation returned the content of a node that was recycled before", O[0].t->name);
        else if (r != EMPTY_VAL) removed++;
    }
    return NULL;
}
SCENARIO(reclaim, "a recycled node was handed out again and several threads took part") {
    uniq = 0; n_nodes = 0; op_allocs = op_recycles = n_reused = 0; removed = inserted = 0;
    memset(in_op, 0, sizeof in_op);
    sim_only_kinds("reclaim memory crash");
    const ObjType *t = pick(KIND_QUEUE | KIND_STACK, F_RECYCLE, 0);
    draw_env(&E, 6, t->flags & F_FIBERS);
    obj_create(&O[0], t, 0, E.n, E.grp, 0);
    nobj = 1;
    draw_program(1, sim_chance(20) ? 120 : 25, 50, 600, false);
    switch (sim_draw(3)) {           /* alternate, or batches, or as drawn */
    case 0: for (int i = 0; i < E.n; i++) for (int j = 0; j < P.nops[i]; j++) { P.ops[i][j].op = j & 1; if (!(j & 1)) P.ops[i][j].arg = 1000 + ++uniq; } break;
    case 1: { int b = sim_range(2, 8); for (int i = 0; i < E.n; i++) for (int j = 0; j < P.nops[i]; j++) { P.ops[i][j].op = (j / b) & 1; if (!((j / b) & 1)) P.ops[i][j].arg = 1000 + ++uniq; } }
    }
    poison = t->flags & F_BLOCKING;
    on_pool_alloc = rec_alloc; on_pool_recycle = rec_recycle;
    run_threads(&E, reclaim_body);
    on_pool_alloc = on_pool_recycle = NULL;
    int inside = inserted - removed, kept = op_allocs - op_recycles;
    if (op_allocs && kept > inside + E.n)
        sim_fail("reclaim", "%s: %d nodes were taken and %d given back although only %d values are left inside: removed nodes are lost", t->name, op_allocs, op_recycles, inside);
    if (n_reused && E.n > 1) sim_nontrivial();
    sim_label(t->name);
    if (op_recycles > 20) sim_label("more than 20 nodes recycled");
}
/* For ever in bounded memory: a thread that alternates, a combining object, searches in a table. */
SCENARIO(reclaim_long, "every case: hundreds of thousands or millions of operations") {
    uniq = 0; nobj = 1;
    sim_only_kinds("reclaim memory crash");
    sim_set_max_steps(4000000000ULL);
    const ObjType *v[32]; int n = 0;
    for (int i = 0; i < n_obj_types; i++) if ((obj_types[i]->flags & F_RECYCLE) || (obj_types[i]->kind & (KIND_COMB | KIND_HASH))) v[n++] = obj_types[i];
    const ObjType *t = v[sim_draw(n)];
    sim_set_topology(4, 1, TOPO_SMT);
    E.n = E.kernel = sim_range(1, 3); E.fpt = E.grp = 1;
    obj_create(&O[0], t, 0, E.n, 1, 0);
    for (int i = 0; i < E.n; i++) obj_thread_init(&O[0], i);
    int who = sim_draw(E.n), batch = sim_range(1, 20);
    uint64_t before = 0;
    long rounds = (t->kind == KIND_COMB ? 300000 : t->kind == KIND_HASH ? 1500000 : 2200000) / batch;       /* a block of a pool has 2 million nodes */
    if (t->kind == KIND_HASH) { O[0].nkeys = 4; for (int i = 0; i < 2; i++) obj_apply_raw(&O[0], OP_INS, (int64_t)i << 32 | 5, who); }
    for (long r = 0; r < rounds; r++) {
        if (r == 3) before = sim_total_alloc_bytes();
        for (int i = 0; i < batch; i++) obj_apply_raw(&O[0], t->kind == KIND_HASH ? OP_FIND : 0, t->kind == KIND_HASH ? (int64_t)(i % 4) << 32 : 1000 + i, who);
        if (t->kind & (KIND_QUEUE | KIND_STACK)) for (int i = 0; i < batch; i++) obj_apply_raw(&O[0], 1, 0, who);
        sim_progress();
    }
    uint64_t after = sim_total_alloc_bytes();
    if (after > before) sim_fail("reclaim", "%s: %llu bytes of new memory were taken while one thread %s", t->name, (unsigned long long)(after - before), t->kind == KIND_COMB ? "applied operations" : t->kind == KIND_HASH ? "searched" : "alternated insertions and removals");
    sim_nontrivial();
    sim_label(t->name);
}

/* ------------------------------------------------------------------ several objects in one program */
SCENARIO(instances, "operations on different objects overlapped in time") {
    uniq = 0;
    nobj = SIM_PICK(2, 2, 3);
    const ObjType *t[4];
    bool fib = false, allblock = true, lcrq = false;
    for (int i = 0; i < nobj; i++) {
        t[i] = i && sim_chance(40) ? t[0] : pick(ALL_KINDS, 0, 0);
        fib |= !!(t[i]->flags & F_FIBERS); allblock &= !!(t[i]->flags & F_BLOCKING); lcrq |= !strcmp(t[i]->name, "LCRQ");
    }
    if (lcrq) lcrq_limits();
    env_buffers = 12;
    draw_env(&E, 6, fib || (allblock && sim_chance(15)));
    for (int i = 0; i < nobj; i++) obj_create(&O[i], t[i], i, E.n, E.grp, SIM_PICK(0, 0xa5));
    draw_program(1, 14, SIM_PICK(50, 30, 70), 120, false);
    bool drain = sim_draw(4);
    run_threads(&E, body);
    if (drain) for (int i = 0; i < nobj; i++) obj_drain(&O[i], E.n, E.fpt);
    for (int i = 0; i < nobj; i++) obj_must(obj_check(&O[i]), &O[i]);
    if (overlaps(false) >= 2) sim_nontrivial();
    sim_label(t[0] == t[1] ? "two of the same kind" : "different kinds");
    for (int i = 0; i < nobj; i++) sim_label(t[i]->name);
}

/* One program that starts and joins threads several times, with another object each time; the objects outlive their threads. */
SCENARIO(in_turn, "at least two rounds with several threads each and overlapping operations") {
    uniq = 0; nobj = 1;
    int rounds = SIM_PICK(2, 2, 3, 4), several = 0;
    const ObjType *t[4];
    Env e[4];
    bool lcrq = false;
    for (int r = 0; r < rounds; r++) { t[r] = r && sim_chance(50) ? t[r - 1] : pick(ALL_KINDS, 0, 0); lcrq |= !strcmp(t[r]->name, "LCRQ"); }
    if (lcrq) lcrq_limits();
    env_buffers = 12;
    for (int r = 0; r < rounds; r++) {
        bool fib = (t[r]->flags & F_FIBERS) || ((t[r]->flags & F_BLOCKING) && sim_chance(15));
        if (!r) draw_env(&E, 6, fib);
        else {                          /* the same machine, other threads */
            E.fpt = fib ? sim_range(1, 3) : 1;
            E.kernel = sim_range(1, fib ? 3 : 6);
            E.grp = E.fpt; E.n = E.fpt * E.kernel; E.barrier = sim_draw(2);
            sim_note("round %d: threads=%d fibers-per-thread=%d barrier=%d", r, E.n, E.fpt, E.barrier);
        }
        e[r] = E;
        obj_base = r;
        obj_create(&O[r], t[r], r, E.n, E.grp, SIM_PICK(0, 0xa5));
        draw_program(1, 8, SIM_PICK(50, 30, 70), 50, false);
        int h0 = hist_n, ov = 0;
        run_threads(&E, body);
        for (int i = h0; i + 1 < hist_n; i++) ov |= hist[i + 1].inv < hist[i].res;
        several += ov;
        if (sim_draw(2)) obj_drain(&O[r], E.n, E.fpt);
    }
    obj_base = 0;
    for (int r = 0; r < rounds; r++) if ((t[r]->kind == KIND_HASH || r == rounds - 1) && sim_draw(2)) obj_drain(&O[r], e[r].n, e[r].fpt);
    for (int r = 0; r < rounds; r++) obj_must(obj_check(&O[r]), &O[r]);
    if (several >= 2) sim_nontrivial();
    for (int r = 0; r < rounds; r++) sim_label(t[r]->name);
}

/* ------------------------------------------------------------------ any object, in every build configuration */
SCENARIO(lin_any, "at least two pairs of operations on the same object overlapped in time") {
    uniq = 0; nobj = 1;
    const ObjType *t = pick(ALL_KINDS, 0, 0);
    bool lcrq = !strcmp(t->name, "LCRQ");
    if (lcrq) lcrq_limits();
    env_buffers = 12;
    draw_env(&E, 8, t->flags & F_FIBERS);
    obj_create(&O[0], t, 0, E.n, E.grp, SIM_PICK(0, 0xa5));
    draw_program(1, 12, SIM_PICK(50, 30, 70), 120, false);
    bool drain = sim_draw(4);
    run_threads(&E, body);
    if (drain) obj_drain(&O[0], E.n, E.fpt);
    obj_must(obj_check(&O[0]), &O[0]);
    if (overlaps(true) >= 2) sim_nontrivial();
    sim_label(t->name);
}
