/* Progress: termination of the blocking objects, bounded combining, wait-freedom, lock-freedom. */
#include "common.h"

static Obj O[2];
static Env E;
static Program P;

static void gen_ops(int lo, int hi, int mix) {
    int nops[MAX_T];
    bool active[MAX_T];
    if (E.n > 20) draw_active(E.n, active);
    for (int i = 0; i < E.n; i++) nops[i] = E.n > 20 && !active[i] ? 0 : sim_range(lo, hi);
    prog_init(&P, E.n, nops);
    int tk = SIM_PICK(0, 0, 4, 20);
    for (int i = 0; i < E.n; i++)
        for (int j = 0; j < nops[i]; j++) {
            Op *op = &P.ops[i][j];
            op->op = O[0].t->kind == KIND_COMB ? 0 : O[0].t->kind == KIND_HASH ? sim_draw(3) : sim_chance(mix);
            op->think = tk ? sim_draw(tk + 1) : 0;
            op->arg = O[0].t->kind == KIND_HASH ? (int64_t)sim_draw(O[0].nkeys) << 32 | 1 : 1000 + ++uniq;
        }
}
static const ObjType *pick(int kind, int all, int none) {
    const ObjType *v[32];
    int n = obj_select(kind, all, none, v);
    return v[sim_draw(n)];
}

/* ------------------------------------------------------------------ every operation of a blocking object completes */
static void *term_body(void *arg) {
    int id = (int)(long)arg;
    obj_thread_init(&O[0], id);
    for (int i = 0; i < P.nops[id]; i++) {
        think(P.ops[id][i].think);
        obj_apply(&O[0], P.ops[id][i].op, P.ops[id][i].arg, id);
    }
    return NULL;
}
static bool any_overlap(void) {
    for (int i = 0; i + 1 < hist_n; i++) if (hist[i + 1].inv < hist[i].res) return true;
    return false;
}
SCENARIO(terminate, "at least two operations overlapped in time") {
    uniq = 0;
    const ObjType *t = pick(KIND_COMB | KIND_QUEUE | KIND_STACK | KIND_HASH, F_BLOCKING, 0);
    bool fibers = (t->flags & F_FIBERS) || sim_chance(25);
    env_buffers = 12;
    if (!fibers && sim_chance(3)) { env_threads = draw_wide(); sim_label("33-260 threads"); }
    draw_env(&E, sim_chance(15) ? 16 : 6, fibers);
    obj_create(&O[0], t, 0, E.n, E.grp, SIM_PICK(0, 0xa5));
    if (t->kind == KIND_COMB && !(t->flags & F_SPECULATIVE) && sim_chance(20)) O[0].slow = SIM_PICK(20, 60);
    gen_ops(1, sim_chance(10) ? 60 : 10, SIM_PICK(50, 20, 80));
    run_threads(&E, term_body);
    if (any_overlap()) sim_nontrivial();
    if (E.fpt > 1) sim_label("fibers");
    sim_label(t->name);
}

/* ------------------------------------------------------------------ bounded combining */
static int64_t served_in_op[MAX_T], worst_served;
static int bound_served, slow;
static int count_served(Obj *o, int64_t arg, int pid) {
    int64_t s = ++served_in_op[sim_tid()];
    if (s > worst_served) worst_served = s;
    if (s > bound_served) sim_fail("unbounded-combining", "%s: thread %d has served %lld requests inside one operation, with %d threads", o->t->name, sim_tid(), (long long)s, o->n);
    think(slow);                 /* a slow sequential function gives the others time to ask again */
    return 0;
}
static void *comb_body(void *arg) {
    int id = (int)(long)arg;
    obj_thread_init(&O[0], id);
    for (int i = 0; i < P.nops[id]; i++) {
        think(P.ops[id][i].think);
        served_in_op[sim_tid()] = 0;
        obj_apply_raw(&O[0], 0, P.ops[id][i].arg, id);
        sim_progress();
    }
    return NULL;
}
SCENARIO(bounded, "some thread served more than 2n requests of n threads inside one operation") {
    uniq = 0;
    const ObjType *t = pick(KIND_COMB, F_BLOCKING, F_SPECULATIVE);
    draw_env(&E, 4, t->flags & F_FIBERS);
    obj_create(&O[0], t, 0, E.n, E.grp, 0);
    O[0].sfunc_extra = count_served;
    sim_policy_only(POL_UNIFORM | POL_BURST | POL_RMW | POL_PAUSE | POL_OPS);
    memset(served_in_op, 0, sizeof served_in_op); worst_served = 0;
    bound_served = 20 * E.n + 20; slow = SIM_PICK(60, 0, 15, 150);
    gen_ops(60, 260, 0);
    run_threads(&E, comb_body);
    if (worst_served > 2 * E.n) sim_nontrivial();
    sim_label(t->name);
    char b[64]; snprintf(b, sizeof b, "max served/n: %d", (int)(worst_served / E.n));
    sim_label(b);
}

/* ------------------------------------------------------------------ threads that are delayed or stop anywhere */
static int stop_op[MAX_T], stop_after[MAX_T], n_done;
static uint64_t max_op_steps;
static void *free_body(void *arg) {
    int id = (int)(long)arg;
    obj_thread_init(&O[0], id);
    for (int i = 0; i < P.nops[id]; i++) {
        think(P.ops[id][i].think);
        if (stop_op[id] == i) sim_suspend_me_at(stop_after[id]);
        uint64_t s0 = sim_steps();
        obj_apply(&O[0], P.ops[id][i].op, P.ops[id][i].arg, id);
        uint64_t s = sim_steps() - s0;
        if (s > max_op_steps) max_op_steps = s;
        if (stop_op[id] == i) sim_suspend_cancel();
        if (O[0].step_bound && s > O[0].step_bound)
            sim_fail("not-wait-free", "%s: an operation of thread %d took %llu of its own steps with %d threads (bound %llu)", O[0].t->name, id, (unsigned long long)s, O[0].n, (unsigned long long)O[0].step_bound);
    }
    n_done++;
    return NULL;
}
static void run_free(int victims) {
    for (int i = 0; i < E.n; i++) { stop_op[i] = -1; stop_after[i] = 0; }
    for (int i = 0, v = 0; v < victims && i < E.n; i++) {      /* the ids are symmetric enough; the schedule decides who is early */
        if (P.nops[i] == 0) continue;
        v++;
        stop_op[i] = sim_draw(P.nops[i]);
        stop_after[i] = sim_draw(SIM_PICK(12, 40, 150, 400));
    }
    n_done = 0; max_op_steps = 0;
    for (int i = 0; i < E.n; i++) sim_spawn(free_body, (void *)(long)i);
    while (n_done + sim_suspended() < E.n) sim_yield();
    int stopped = sim_suspended();
    if (stopped) sim_label("threads stopped inside an operation");
    sim_release_all();
    sim_join_all();
    obj_must(obj_check(&O[0]), &O[0]);
    if (stopped && any_overlap()) sim_nontrivial();
    sim_label(O[0].t->name);
}
static void env_free(int max) {
    draw_env(&E, max, false);
    if (sim_nnodes() == 1 && sim_ncpus() == 1) sim_label("one core");
}
SCENARIO(waitfree, "a thread stopped inside an operation, or the scheduler let another thread finish before each atomic step of one thread") {
    uniq = 0;
    const ObjType *t = pick(KIND_COMB | KIND_QUEUE | KIND_STACK, F_WAITFREE, 0);
    if (sim_chance(4)) env_threads = draw_wide();
    env_free(7);
    if (E.n > 20) sim_label("more than 20 threads");
    obj_create(&O[0], t, 0, E.n, 1, 0);
    O[0].step_bound = 400 + 70 * E.n;   /* the unchanged code needs at most about 170 + 28 n */
    sim_set_noprogress_bound(200000);
    gen_ops(1, E.n > 10 ? 2 : sim_chance(20) ? 25 : 8, SIM_PICK(50, 30, 70));
    int victims = SIM_PICK(0, 1, 2, 1);
    if (victims >= E.n) victims = E.n - 1;
    if (sim_chance(60)) { sim_policy_only(POL_ADVERSARY); sim_set_adversary(E.n); sim_label("adversary"); sim_nontrivial(); }
    run_free(victims);
}
SCENARIO(lockfree, "a thread stopped inside an operation while operations of other threads overlapped it") {
    uniq = 0;
    const ObjType *t = pick(KIND_COMB | KIND_QUEUE | KIND_STACK, 0, F_BLOCKING | F_WAITFREE);
    if (!strcmp(t->name, "LCRQ")) lcrq_limits();
    env_free(6);
    obj_create(&O[0], t, 0, E.n, 1, 0);
    gen_ops(1, sim_chance(10) ? 40 : 8, SIM_PICK(50, 30, 70));
    int victims = SIM_PICK(1, 1, 2, 3);
    if (victims >= E.n) victims = E.n - 1;
    run_free(victims);
}

/* ------------------------------------------------------------------ a thread sleeps inside its operation while another one does very many
 * The sequence numbers that tell an old pointer from a recycled one must not come round in the meantime. */
static int64_t nap_calls[2];            /* operations of the other thread since the sleep began */
static int nap_target, nap_early, nap_late;
static bool nap_done;
static int64_t nap_apply(bool record, int op, int pid) {
    int64_t arg = op && O[0].t->kind != KIND_COMB ? 0 : 1000 + ++uniq;
    nap_calls[O[0].t->kind == KIND_QUEUE && op]++;
    if (record || O[0].t->kind == KIND_COMB) return obj_apply(&O[0], op, arg, pid);
    int64_t r = obj_apply_raw(&O[0], op, arg, pid);
    sim_progress();
    return op ? r : arg;
}
static void *nap_body(void *arg) {
    int id = (int)(long)arg;
    Obj *o = &O[0];
    bool comb = o->t->kind == KIND_COMB;
    obj_thread_init(o, id);
    if (id != 1) {
        for (int i = 0; i < P.nops[id]; i++) {
            think(P.ops[id][i].think);
            if (i == stop_op[id]) sim_suspend_me_at(stop_after[id]);
            obj_apply(o, P.ops[id][i].op, P.ops[id][i].arg, id);
            if (i == stop_op[id]) { sim_suspend_cancel(); nap_done = true; }
        }
        return NULL;
    }
    for (int i = 0; i < P.nops[1]; i++) obj_apply(o, P.ops[1][i].op, P.ops[1][i].arg, 1);
    while (!sim_suspended() && !nap_done) sim_yield();
    if (sim_suspended()) {              /* from here on nobody else runs */
        int vop = P.ops[0][stop_op[0]].op, which = o->t->kind == KIND_QUEUE && vop;
        nap_calls[0] = nap_calls[1] = 0;
        for (int i = 0; i < nap_early; i++) nap_apply(true, comb ? 0 : (int)(i & 1), 1);
        /* an announced operation of the sleeper takes effect with the next operation of its kind: two rounds on the record see to that */
        for (int i = 0; !comb && i < 2; i++) { nap_apply(true, 0, 1); while (nap_apply(true, 1, 1) != EMPTY_VAL) ; }
        while (nap_calls[which] < nap_target) {
            if (comb) { nap_apply(true, 0, 1); continue; }
            int64_t a = nap_apply(false, 0, 1);
            if (o->t->kind != KIND_QUEUE && nap_calls[0] >= nap_target) {       /* an odd number: one element stays, take it out on the record */
                hist_end(hist_begin(1, 0, 0, a), 0); break;
            }
            int64_t b = nap_apply(false, 1, 1);
            if (a != b) sim_fail("wrong-result", "%s: %lld was put into the empty object by the only running thread, which then took out %lld", o->t->name, (long long)a, (long long)b);
        }
        sim_nontrivial();
        if (nap_target >= 65536) sim_label("65536 operations or more during one");
        else if (nap_target >= 256) sim_label("256 operations or more during one");
        sim_release_all();
    }
    for (int i = 0; i < nap_late; i++) obj_apply(o, comb ? 0 : P.ops[0][0].op ^ (i & 1), 1000 + ++uniq, 1);
    while (!nap_done) sim_yield();
    if (!comb) while (obj_apply(o, 1, 0, 1) != EMPTY_VAL) ;
    else obj_apply(o, 0, 424242, 1);
    return NULL;
}
static void nap_case(int kind) {
    uniq = 0;
    const ObjType *t = pick(kind, 0, F_BLOCKING);
    if (!strcmp(t->name, "LCRQ")) lcrq_limits();
    else sim_set_max_steps(100000000);
    draw_env(&E, 2, false);
    E.n = E.kernel = SIM_PICK(2, 2, 3, 5);
    obj_create(&O[0], t, 0, E.n, 1, SIM_PICK(0, 0xa5));
    int nops[MAX_T] = {0};
    nops[0] = sim_range(1, 4); nops[1] = sim_range(0, 4);
    prog_init(&P, E.n, nops);
    for (int i = 0; i < 2; i++) for (int j = 0; j < nops[i]; j++) {
        P.ops[i][j].op = t->kind == KIND_COMB ? 0 : (int)sim_draw(2);
        P.ops[i][j].arg = 1000 + ++uniq;
    }
    for (int i = 0; i < E.n; i++) stop_op[i] = -1;
    stop_op[0] = sim_draw(nops[0]);
    stop_after[0] = sim_draw(SIM_PICK(60, 150, 30, 400));
    nap_early = sim_range(0, 5); nap_late = sim_range(0, 4); nap_done = false;
    nap_target = sim_chance(50) ? 256 * SIM_PICK(1, 2, 1, 4) : sim_chance(60) ? sim_range(1, 140) : sim_chance(50) ? 16 * SIM_PICK(1, 2, 4, 8) : sim_chance(20) ? 65536 : 4096;
    if (sim_chance(20)) nap_target += SIM_PICK(1, -1, 2, -2);
    if (nap_target < 0) nap_target = 0;
    for (int i = 0; i < 2; i++) sim_spawn(nap_body, (void *)(long)i);
    sim_join_all();
    obj_must(obj_check(&O[0]), &O[0]);
    sim_label(t->name);
}
#define NAP_RULE "a thread slept inside its operation while another one completed a chosen number of operations"
SCENARIO(nap_comb, NAP_RULE) { nap_case(KIND_COMB); }
SCENARIO(nap_queue, NAP_RULE) { nap_case(KIND_QUEUE); }
SCENARIO(nap_stack, NAP_RULE) { nap_case(KIND_STACK); }
