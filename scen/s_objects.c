/* Linearizability of every object: generated programs, generated schedules, one oracle per kind. */
#include "common.h"

static Obj O[4];
static int nobj;
static Program P;
static Env E;

static void *body(void *arg) {
    int id = (int)(long)arg;
    for (int i = 0; i < nobj; i++) obj_thread_init(&O[i], id);
    for (int i = 0; i < P.nops[id]; i++) {
        Op *op = &P.ops[id][i];
        think(op->think);
        obj_apply(&O[op->obj], op->op, op->arg, id);
    }
    return NULL;
}

static int64_t draw_arg(Obj *o, int op, bool wild) {
    if (o->t->kind == KIND_HASH) return (int64_t)sim_draw(o->nkeys) << 32 | (int64_t)(sim_draw(1000) + 1);
    if (o->t->kind != KIND_COMB && op == 1) return 0;
    return obj_value(o, wild);
}

/* mix: percent of removals */
static void draw_program(int max_ops, bool wild) {
    int nops[MAX_T];
    int per = sim_range(1, max_ops);
    int mix = SIM_PICK(50, 30, 70, 10);
    int budget = 160;
    int tk = SIM_PICK(0, 0, 3, 12);
    bool active[MAX_T];
    if (E.n > 20) {
        draw_active(E.n, active);
        for (int i = 0; i < E.n; i++) nops[i] = active[i] ? sim_range(1, per < 6 ? per : 6) : 0;
    } else if (max_ops > 30) {      /* long: past the point where a combiner hands over */
        for (int i = 0; i < E.n; i++) nops[i] = sim_range(20, max_ops);
    } else for (int i = 0; i < E.n; i++) { nops[i] = sim_range(0, per); if (i < 2 && !nops[i]) nops[i] = 1; if (nops[i] > budget) nops[i] = budget; budget -= nops[i]; }
    prog_init(&P, E.n, nops);
    for (int i = 0; i < E.n; i++)
        for (int j = 0; j < nops[i]; j++) {
            Op *op = &P.ops[i][j];
            op->obj = nobj > 1 ? sim_draw(nobj) : 0;
            Obj *o = &O[op->obj];
            if (o->t->kind == KIND_COMB) op->op = 0;
            else if (o->t->kind == KIND_HASH) op->op = sim_draw(3);
            else op->op = sim_chance(mix);
            op->think = tk ? sim_draw(tk + 1) : 0;
            op->arg = draw_arg(o, op->op, wild);
        }
}

static int overlaps(void) {
    int n = 0;
    for (int i = 0; i < hist_n; i++) for (int j = i + 1; j < hist_n && hist[j].inv < hist[i].res; j++) if (hist[i].obj == hist[j].obj) n++;
    return n;
}

static void lin_case(const ObjType *t, int max_threads, int max_ops, int instances, bool wild) {
    uniq = 0;
    if (wild && t->kind != KIND_COMB) { max_ops = 5; if (max_threads > 5) max_threads = 5; }  /* equal values make the search hard */
    if (!strcmp(t->name, "LCRQ")) lcrq_limits();
    bool handover = t->kind == KIND_COMB && !(t->flags & F_SPECULATIVE) && max_threads > 3 && sim_chance(6);
    if (handover) { max_threads = 3; max_ops = sim_range(31, 60); }
    env_buffers = 12;
    draw_env(&E, max_threads, t->flags & F_FIBERS);
    nobj = instances;
    int fill = SIM_PICK(0, 0, 0xa5);
    for (int i = 0; i < nobj; i++) obj_create(&O[i], t, i, E.n, E.grp, fill);
    draw_program(max_ops, wild);
    if (handover) { O[0].slow = SIM_PICK(40, 15, 100, 0); sim_policy_only(POL_UNIFORM | POL_BURST | POL_RMW | POL_PAUSE | POL_OPS); sim_label("long program: combiners reach their bound"); }
    bool drain = sim_draw(4);
    run_threads(&E, body);
    int helped = 0;
    if (drain) for (int i = 0; i < nobj; i++) obj_drain(&O[i], E.n, E.fpt);
    for (int i = 0; i < nobj; i++) { obj_must(obj_check(&O[i]), &O[i]); helped += O[i].helped; }
    if (helped) sim_label("combined: a request was served by another thread");
    int ov = overlaps();
    if (ov) sim_label("overlapping operations");
    if (E.n > 64) sim_label("more than 64 threads");
    if (ov >= 2 && (t->kind != KIND_COMB || (t->flags & F_SPECULATIVE) || helped)) sim_nontrivial();
    sim_label(t->name);
}

static const ObjType *pick(int kind, int all, int none) {
    const ObjType *v[32];
    int n = obj_select(kind, all, none, v);
    return v[sim_draw(n)];
}

#define RULE_COMB "at least two operations overlapped in time and at least one request was served by another thread (or fiber) than its owner"
#define RULE_OVER "at least two pairs of operations on the same object overlapped in time"
static const ObjType *one_of(const char *a, const char *b) { return obj_type(sim_draw(2) && b ? b : a); }

SCENARIO(lin_ccdsm, RULE_COMB) { lin_case(one_of("CC-Synch", "DSM-Synch"), 10, 14, 1, true); }
SCENARIO(lin_hsynch, RULE_COMB) { lin_case(obj_type("H-Synch"), 10, 12, 1, true); }
SCENARIO(lin_osci, RULE_COMB) { lin_case(obj_type("Osci"), 12, 12, 1, true); }
SCENARIO(lin_fcoyama, RULE_COMB) { lin_case(one_of("FC", "Oyama"), 8, 12, 1, true); }
SCENARIO(lin_simlfu, RULE_OVER) { lin_case(one_of("PSim", "LFUObject"), 8, 14, 1, true); }
SCENARIO(lin_combqueue, RULE_OVER) { lin_case(pick(KIND_QUEUE, F_BLOCKING, 0), 8, 12, 1, sim_chance(15)); }
SCENARIO(lin_nbqueue, RULE_OVER) { lin_case(pick(KIND_QUEUE, 0, F_BLOCKING), 8, 12, 1, sim_chance(15)); }
SCENARIO(lin_combstack, RULE_OVER) { lin_case(pick(KIND_STACK, F_BLOCKING, 0), 8, 12, 1, sim_chance(15)); }
SCENARIO(lin_nbstack, RULE_OVER) { lin_case(pick(KIND_STACK, 0, F_BLOCKING), 8, 12, 1, sim_chance(15)); }
SCENARIO(lin_hash, RULE_OVER) { lin_case(pick(KIND_HASH, 0, 0), 8, 14, 1, false); }
SCENARIO(lin_ccq, RULE_OVER) { lin_case(obj_type("CC-Queue"), 8, 12, 1, false); }
SCENARIO(lin_lcrq, RULE_OVER) { lin_case(obj_type("LCRQ"), 8, 12, 1, false); }
SCENARIO(lin_simq, RULE_OVER) { lin_case(obj_type("SimQueue"), 8, 12, 1, false); }
SCENARIO(lin_msimq, RULE_OVER) { lin_case(sim_draw(4) ? obj_type("SimQueue") : obj_type("MS-Queue"), 8, 12, 1, sim_chance(10)); }

/* Around the word size of the toggle vectors: 33 to 260 threads, few of them active */
static void wide(const ObjType *t) { env_threads = draw_wide(); lin_case(t, MAX_T, 6, 1, false); }
SCENARIO(wide_simlfu, RULE_OVER) { wide(sim_draw(4) ? obj_type("PSim") : obj_type("LFUObject")); }
SCENARIO(wide_nbqueue, RULE_OVER) { wide(sim_draw(4) ? obj_type("SimQueue") : obj_type("MS-Queue")); }
SCENARIO(wide_nbstack, RULE_OVER) { wide(sim_draw(4) ? obj_type("SimStack") : obj_type("LF-Stack")); }
SCENARIO(wide_ccdsm, RULE_COMB) { wide(one_of("CC-Synch", "DSM-Synch")); }
SCENARIO(wide_hsynch, RULE_COMB) { wide(obj_type("H-Synch")); }
SCENARIO(wide_osci, RULE_COMB) { wide(obj_type("Osci")); }
SCENARIO(wide_fcoyama, RULE_COMB) { wide(one_of("FC", "Oyama")); }

/* The statistics of the combining objects (debug build). */
SCENARIO(counters, RULE_COMB) {
    lin_case(pick(KIND_COMB, F_BLOCKING, 0), 8, 14, sim_draw(3) ? 1 : 2, true);
    for (int i = 0; i < nobj; i++) {
        int64_t served, rounds, ops = 0;
        for (int k = 0; k < hist_n; k++) if (hist[k].obj == i) ops++;
        if (!obj_counters(&O[i], &served, &rounds)) continue;
        if (served != ops) sim_fail("stats", "%s: the counter of served requests is %lld after %lld operations", O[i].t->name, (long long)served, (long long)ops);
        if (rounds < (ops ? 1 : 0) || rounds > ops) sim_fail("stats", "%s: %lld combining rounds for %lld operations", O[i].t->name, (long long)rounds, (long long)ops);
    }
}
