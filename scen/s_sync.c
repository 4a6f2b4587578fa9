/* Locks and the barrier. */
#include "common.h"
#include <clh.h>
#include <mcs.h>

/* ------------------------------------------------------------------ locks: mutual exclusion and FIFO order */
enum { WAITED = 60 };           /* own steps after which a thread counts as waiting in the queue */
typedef struct { bool mcs; void *lock; void *st[MAX_T]; int owner; int64_t counter; } Lock;
typedef struct { int pid, lock; uint64_t inv, mark, acq; } Acq;
static Lock LK[3];
static int nlocks;
static Env E;
static Acq *acqs; static int n_acq;
static int rounds[MAX_T], thinkt, crit, nested;
static uint8_t *plan[MAX_T];

static void lock_acquire(int k, int pid, bool op) {
    Lock *l = &LK[k];
    int a = n_acq++;
    acqs[a].pid = pid; acqs[a].lock = k;
    sim_mark_me_at(WAITED);
    acqs[a].inv = sim_now();
    if (l->mcs) MCSLock(l->lock, l->st[pid], pid); else CLHLock(l->lock, pid);
    acqs[a].acq = sim_now();
    acqs[a].mark = sim_mark_end();
    if (l->owner != -1) sim_fail("not-exclusive", "%s lock: thread %d entered while thread %d was inside", l->mcs ? "MCS" : "CLH", pid, l->owner);
    l->owner = pid;
    sim_progress();
}
static void lock_release(int k, int pid) {
    Lock *l = &LK[k];
    if (l->owner != pid) sim_fail("not-exclusive", "%s lock: thread %d was inside together with thread %d", l->mcs ? "MCS" : "CLH", pid, l->owner);
    l->owner = -1;
    if (l->mcs) MCSUnlock(l->lock, l->st[pid], pid); else CLHUnlock(l->lock, pid);
}
static void critical(Lock *l, int n) {
    int64_t v = sim_rd(&l->counter);
    think(n);
    sim_wr(&l->counter, v + 1);
}
static void *lock_body(void *arg) {
    int id = (int)(long)arg;
    for (int k = 0; k < nlocks; k++) if (LK[k].mcs) MCSThreadStateInit(LK[k].st[id], id);
    for (int i = 0; i < rounds[id]; i++) {
        int a = plan[id][2 * i], b = plan[id][2 * i + 1];
        think(thinkt ? (id * 7 + i * 13) % thinkt : 0);
        lock_acquire(a, id, true);
        critical(&LK[a], crit);
        if (b > a) { lock_acquire(b, id, true); critical(&LK[b], crit); lock_release(b, id); }
        lock_release(a, id);
    }
    return NULL;
}
static void lock_case(void) {
    int size = sim_draw(100);           /* a few programs have very many threads, a few very many acquisitions */
    if (size >= 99) { env_threads = draw_wide(); sim_label("33-260 threads"); }
    env_buffers = 12;
    draw_env(&E, size == 98 ? 3 : sim_chance(10) ? 12 : 6, sim_chance(15));
    nlocks = SIM_PICK(1, 1, 2, 3);
    nested = nlocks > 1 && sim_chance(50);
    thinkt = SIM_PICK(0, 0, 5, 40); crit = SIM_PICK(20, 90, 250, 3, 0, 60);
    int total = 0;
    int64_t want[3] = {0};
    for (int i = 0; i < E.n; i++) {
        rounds[i] = size >= 99 ? sim_range(1, 2) : size == 98 ? sim_range(100, 300) : sim_range(1, sim_chance(25) ? 20 : 8);
        plan[i] = sim_alloc(2 * rounds[i]);
        for (int j = 0; j < rounds[i]; j++) {
            plan[i][2 * j] = sim_draw(nlocks); plan[i][2 * j + 1] = nested ? sim_draw(nlocks) : 0;
            want[plan[i][2 * j]]++; total++;
            if (plan[i][2 * j + 1] > plan[i][2 * j]) { want[plan[i][2 * j + 1]]++; total++; }
        }
    }
    int fill = SIM_PICK(0, 0xa5);
    for (int k = 0; k < nlocks; k++) {
        LK[k].mcs = sim_draw(2); LK[k].owner = -1; LK[k].counter = 0;
        LK[k].lock = LK[k].mcs ? (void *)MCSLockInit() : (void *)CLHLockInit(E.n);
        for (int i = 0; i < E.n; i++) LK[k].st[i] = sim_alloc_fill(sizeof(MCSThreadState), fill);
        sim_label(LK[k].mcs ? "MCS" : "CLH");
    }
    acqs = sim_alloc(sizeof(Acq) * (total + 1)); n_acq = 0;
    run_threads(&E, lock_body);
    for (int k = 0; k < nlocks; k++)
        if (LK[k].counter != want[k]) sim_fail("lost-update", "%s lock: %lld of %lld critical sections took effect", LK[k].mcs ? "MCS" : "CLH", (long long)LK[k].counter, (long long)want[k]);
    int waited = 0;
    for (int i = 0; i < n_acq; i++) {
        Acq *a = &acqs[i];
        if (!a->mark) continue;
        for (int j = 0; j < n_acq; j++) {
            Acq *b = &acqs[j];
            if (b->lock != a->lock || b->inv <= a->mark || b->inv > a->acq) continue;
            waited++;
            if (b->acq < a->acq)
                sim_fail("overtaken", "%s lock: thread %d had been waiting (since %llu) when thread %d asked for the lock (%llu), but thread %d got it first", LK[a->lock].mcs ? "MCS" : "CLH",
                         a->pid, (unsigned long long)a->mark, b->pid, (unsigned long long)b->inv, b->pid);
        }
    }
    if (waited && E.n >= 3) sim_nontrivial();
    if (nested) sim_label("nested");
}
#define LOCKS_RULE "a thread had been waiting in the queue when another one asked for the lock, and at least three threads took part"
SCENARIO(locks, LOCKS_RULE) { lock_case(); }
SCENARIO(locks_end, LOCKS_RULE) {              /* only: does every acquisition complete? */
    sim_only_kinds("no-progress deadlock hang crash memory");
    lock_case();
}

/* ------------------------------------------------------------------ barrier */
static SynchBarrier *bar[2];
static int nbar, brounds, bthink;
enum { BR = 700 };
static int entered[2][BR], left[2][BR];
static uint8_t bwhich[BR];
static int set_by_first;
static void *bar_body(void *arg) {
    int id = (int)(long)arg;
    int count[2] = {0, 0};
    for (int r = 0; r < brounds; r++) {
        int b = bwhich[r], k = count[b]++;
        think(bthink ? (id * 31 + r * 17) % bthink : 0);
        entered[b][k]++;
        synchBarrierWait(bar[b]);
        if (entered[b][k] != E.n) sim_fail("early-leave", "thread %d left round %d of a barrier for %d threads when only %d had entered it", id, k, E.n, entered[b][k]);
        left[b][k]++;
        sim_progress();
    }
    return NULL;
}
static void barrier_case(void) {
    int size = sim_draw(100);           /* a few programs have very many threads, a few very many rounds */
    if (size >= 98) { env_threads = draw_wide(); sim_label("33-260 threads"); }
    env_buffers = 12;
    draw_env(&E, size == 97 ? 3 : sim_chance(10) ? 12 : 5, sim_chance(20));
    E.barrier = 0;
    int resets = SIM_PICK(1, 1, 2);
    nbar = SIM_PICK(1, 1, 2);
    int fill = SIM_PICK(0, 0xa5, 0xff);
    for (int b = 0; b < nbar; b++) bar[b] = sim_alloc_fill(sizeof(SynchBarrier), fill);
    for (int s = 0; s < resets; s++) {
        if (s) {                        /* a second phase with another number of threads */
            E.fpt = 1; E.n = E.kernel = sim_range(1, 5);
        }
        brounds = size >= 98 ? sim_range(1, 3) : size == 97 ? sim_range(100, BR) : sim_range(1, sim_chance(20) ? 40 : 8);
        if (brounds > 256) sim_label("more than 256 rounds");
        bthink = SIM_PICK(0, 7, 60);
        memset(entered, 0, sizeof entered); memset(left, 0, sizeof left);
        for (int r = 0; r < brounds; r++) bwhich[r] = sim_draw(nbar);
        for (int b = 0; b < nbar; b++) synchBarrierSet(bar[b], E.n);
        if (brounds >= 3 && E.n >= 2) sim_nontrivial();
        run_threads(&E, bar_body);
        for (int r = 0, c[2] = {0, 0}; r < brounds; r++) { int b = bwhich[r], k = c[b]++; if (left[b][k] != E.n) sim_fail("lost-thread", "round %d: %d of %d threads left the barrier", k, left[b][k], E.n); }
    }
    if (resets > 1) sim_label("barrier set again");
    if (E.fpt > 1) sim_label("fibers");
    if (E.n == 1) sim_label("one thread");
}
#define BARRIER_RULE "at least three rounds with at least two threads"
SCENARIO(barrier, BARRIER_RULE) { barrier_case(); }
SCENARIO(barrier_end, BARRIER_RULE) {          /* only: does every phase complete? */
    sim_only_kinds("no-progress deadlock hang crash memory");
    barrier_case();
}
