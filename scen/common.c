#include "common.h"

int finished_bodies;
int64_t uniq;
static void *(*real_body)(void *);
static SynchBarrier start_bar;
static int use_barrier;

void think(int n) { while (n-- > 0) sim_point(); }

void prog_init(Program *p, int n, const int *nops) {
    p->n = n;
    for (int i = 0; i < n; i++) { p->nops[i] = nops[i]; p->ops[i] = sim_alloc(sizeof(Op) * (nops[i] + 1)); }
}

int env_threads, env_buffers;
void lcrq_limits(void) { sim_set_noprogress_bound(12000000); sim_set_max_steps(80000000); }
int draw_wide(void) { return SIM_PICK(65, 64, 66, 70, 63, 128, 129, 130, 96, 140, 33, 257, 256, 260); }
int draw_active(int n, bool *active) {
    int k = sim_range(2, 6), got = 0;
    memset(active, 0, MAX_T * sizeof *active);
    for (int i = 0; i < k; i++) {
        int id;
        switch (sim_draw(6)) {
            case 0: id = n - 1; break;
            case 1: id = SIM_PICK(63, 64, 0, 62, 65); break;
            case 2: id = SIM_PICK(0, 1, 31, 32); break;
            case 3: id = SIM_PICK(127, 128, 126, 64, 256, 255); break;
            default: id = sim_draw(n);
        }
        if (id < n && !active[id]) { active[id] = true; got++; }
    }
    if (!got) { active[n - 1] = true; got = 1; }
    return got;
}

void draw_env(Env *e, int max_threads, bool fibers) {
    static const int64_t cpus[] = {8, 4, 2, 16, 64};
    int n, fpt = 1;
    sim_draw_machine();
    if (max_threads <= 2) n = sim_range(1, max_threads);
    else switch (sim_draw(8)) {
        case 0: case 1: n = 2; break;
        case 2: case 3: n = 3; break;
        case 4: case 5: n = max_threads < 4 ? max_threads : 4; break;
        case 6: n = sim_range(1, max_threads < 8 ? max_threads : 8); break;
        default: n = sim_range(1, max_threads);
    }
    if (env_threads) { n = env_threads; env_threads = 0; fibers = false; }
    if (fibers) {
        fpt = sim_pick_((int64_t[]){2, 1, 3, 4}, 4);
        int k = sim_range(1, 3);
        if (fpt * k > max_threads) k = max_threads / fpt;
        if (k < 1) { k = 1; fpt = max_threads; }
        n = k * fpt;
    }
    int nc = cpus[sim_draw(5)];
    int nodes = nc >= 16 ? SIM_PICK(1, 2, 4) : nc >= 4 ? SIM_PICK(1, 2) : 1;
    int kind = sim_draw(2) ? TOPO_BLOCK : TOPO_SMT;
    if (kind == TOPO_BLOCK && nodes == 1) kind = TOPO_SMT;
    sim_set_topology(nc, nodes, kind);
    synchSetThreadPlacementPolicy(SIM_PICK(SYNCH_THREAD_PLACEMENT_DEFAULT, SYNCH_THREAD_PLACEMENT_FLAT, SYNCH_THREAD_PLACEMENT_NUMA_SPARSE, SYNCH_THREAD_PLACEMENT_NUMA_DENSE, SYNCH_THREAD_PLACEMENT_NUMA_DENSE_SMT_PREFER));
    e->grp = fpt;
    if (fpt > 1 && sim_chance(15)) { fpt = 1; sim_label("groups of threads"); }       /* Osci's groups work for threads of their own, too */
    e->n = n; e->fpt = fpt; e->kernel = n / fpt; e->barrier = sim_draw(2);
    e->oversub = e->kernel > nc || fpt > 1;
    e->buffers = 0;
#if !defined VARIANT_gcclto && !defined VARIANT_gcclto_nonuma     /* there the simulator does not see the fences */
    if (env_buffers && sim_chance(env_buffers)) { e->buffers = SIM_PICK(30, 200, 5, 1000); sim_label("env:store-buffers"); }
#endif
    env_buffers = 0;
    sim_label(e->oversub ? "env:oversubscribed" : "env:dedicated-cores");
    sim_note("threads=%d fibers-per-thread=%d group=%d cpus=%d nodes=%d barrier=%d", n, fpt, e->grp, nc, nodes, e->barrier);
}

static void *wrapper(void *arg) {
    if (use_barrier) synchBarrierWait(&start_bar);
    real_body(arg);
    finished_bodies++;
    return NULL;
}

void run_threads(const Env *e, void *(*body)(void *)) {
    real_body = body;
    use_barrier = e->barrier && e->fpt == 1;
    if (use_barrier) synchBarrierSet(&start_bar, e->n);
    finished_bodies = 0;
    if (e->buffers) sim_store_buffers(e->buffers);
    synchStartThreadsN(e->n, wrapper, e->fpt > 1 ? e->fpt : SYNCH_DONT_USE_UTHREADS);
    synchJoinThreadsN(e->n);
    if (e->buffers) sim_store_buffers(0);
    sim_join_all();                 /* whether the join really waits is another property (C18) */
    if (finished_bodies != e->n) sim_fail("lost-thread", "%d of %d thread bodies ran to the end", finished_bodies, e->n);
}
