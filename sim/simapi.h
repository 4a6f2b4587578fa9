/* Interface between the scenarios (C, compiled against /repo's headers) and the simulator.
 *
 * The library under test is compiled by clang with -fsanitize=thread but linked against sim/engine.cpp
 * instead of the TSan runtime: each load, store and atomic the library makes calls the engine, which
 * owns the schedule. Everything random comes from sim_draw(): a recorded choice stream that is replayed
 * and shrunk together with the recorded schedule. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---- generated choices ---- */
uint64_t sim_draw(uint64_t n);                       /* uniform in [0,n); 0 is the simplest */
int64_t sim_range(int64_t lo, int64_t hi);           /* inclusive */
int64_t sim_draw_value(void);                        /* interesting int64 */
bool sim_chance(unsigned percent);                   /* true with that probability; false is simplest */
#define SIM_PICK(...) sim_pick_((int64_t[]){__VA_ARGS__}, sizeof((int64_t[]){__VA_ARGS__}) / 8)
int64_t sim_pick_(const int64_t *v, unsigned n);

/* ---- environment of the case (call before the library is used) ---- */
enum { TOPO_BLOCK = 0, TOPO_SMT = 1, TOPO_INTERLEAVED = 2 };
void sim_set_topology(int ncpus, int nodes, int kind);
int sim_ncpus(void);
int sim_nnodes(void);
int sim_node_of_cpu(int cpu);
void sim_set_machine(uint64_t model);                /* what synchGetMachineModel() answers */
void sim_draw_machine(void);

/* ---- results ---- */
void sim_fail(const char *kind, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_inconclusive(const char *why) __attribute__((noreturn));
void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* shown in the report / sample */
void sim_only_kinds(const char *kinds);              /* other failures are another property's business: the case just ends */
void sim_label(const char *label);                   /* classify the case (counted once per case) */
void sim_nontrivial(void);                           /* mark the case as non-trivial by the scenario's rule */
void sim_excluded(const char *what);                 /* count an input excluded because of a known finding */

/* ---- history ---- */
int hist_begin(int tid, int obj, int op, int64_t arg);
void hist_end(int idx, int64_t ret);
typedef struct { int tid, obj, op; int64_t arg, ret; uint64_t inv, res; uint64_t steps; int conc; } HistOp;
extern HistOp *hist;
extern int hist_n;
void sim_progress(void);
unsigned long sim_sys_yields(void);                 /* sched_yield calls so far, of all threads */

/* ---- schedule ---- */
void sim_point(void);                                /* a scheduling point in harness code */
void sim_yield(void);                                /* a scheduling point that hints a switch */
int sim_tid(void);                                   /* simulated kernel thread, 0 = main */
uint64_t sim_now(void);                              /* logical time */
uint64_t sim_steps(void);                            /* scheduling points passed by the calling thread */
void sim_store_buffers(uint64_t max_delay);          /* stores wait in store buffers (x86-TSO) for up to that many steps; 0 = all reach memory, off */
int64_t sim_rd(volatile int64_t *p);                 /* load/store as scheduling points */
void sim_wr(volatile int64_t *p, int64_t v);
void sim_suspend_me_at(uint64_t more_steps);         /* suspend the calling thread after that many steps */
void sim_suspend_cancel(void);
void sim_mark_me_at(uint64_t steps);                 /* note the time when the caller has passed that many more steps */
uint64_t sim_mark_end(void);                         /* that time, or 0 if it did not come to it */
int sim_suspended(void);                             /* how many threads are suspended now */
void sim_release_all(void);
void sim_set_noprogress_bound(uint64_t steps);
void sim_policy_only(int mask);                      /* restrict scheduling policies (bit mask), 0 = all */
enum { POL_UNIFORM = 1, POL_PCT = 2, POL_BURST = 4, POL_RMW = 8, POL_PAUSE = 16, POL_ADVERSARY = 32, POL_OPS = 64 };
void sim_set_adversary(int victim_tid);              /* POL_ADVERSARY: starve this thread before each RMW */
int sim_live_threads(void);
int sim_spawn(void *(*fn)(void *), void *arg);       /* a plain simulated thread (no library involved) */
void sim_join_all(void);
int sim_last_affinity(int tid, int *ncores_in_mask); /* cpu of the last sched_setaffinity of the thread, -1 */
int sim_created_threads(void);
int sim_unjoined_threads(void);                      /* threads created by pthread_create() and neither joined nor detached */

/* ---- memory ---- */
uint64_t sim_live_bytes(void);
uint64_t sim_live_allocs(void);
uint64_t sim_total_alloc_bytes(void);
void *sim_alloc(size_t size);                        /* harness-owned checked memory, zeroed, 512-aligned */
void *sim_alloc_fill(size_t size, int fill);
void sim_write(void *d, const void *s, size_t n);    /* harness write to library memory, checked */
bool sim_range_ok(const void *p, size_t n);          /* inside one live allocation? */
size_t sim_alloc_left(const void *p);                /* bytes from p to the end of its live allocation, 0 if none */
void sim_set_malloc_fill(int byte);
int sim_twin_fill(void);                             /* the case runs twice, with memory filled differently: this is the byte of this pass */
void sim_set_max_steps(uint64_t n);                  /* beyond that many steps a case is inconclusive */
int sim_bad_frees(void);

/* ---- captured stdio of the library ---- */
void sim_set_clock(uint64_t ns);                     /* the monotonic clock now; it goes on from there */
const char *sim_captured(void);
void sim_capture_reset(void);
int sim_catch_exit(void (*fn)(void *), void *arg);   /* runs fn; returns -1 if it returned, else the exit status */

/* ---- oracles (sim/oracles.cpp): return NULL if fine, else a description. "?" prefix = inconclusive ---- */
enum { OP_ENQ = 0, OP_DEQ = 1, OP_PUSH = 0, OP_POP = 1 };
const char *lin_queue(int obj, int64_t empty);
const char *lin_stack(int obj, int64_t empty);
enum { OP_INS = 0, OP_DEL = 1, OP_FIND = 2 };
const char *lin_custom(int obj, const char *what, const int64_t *init, int n, bool (*step)(int64_t *st, int *n, const HistOp *o)); /* st has room for 64 */
const char *lin_keys(int obj, bool (*step)(int64_t *st, int *n, const HistOp *o));  /* key index in the high half of arg; OP_FIND must not change the state */
const char *chain_check(int obj, uint64_t init);     /* op returns the state before; state' = chain_next(state,arg) */
uint64_t chain_next(uint64_t state, uint64_t arg);
extern uint64_t chain_final;                         /* state after the whole chain */

typedef struct { const char *name; void (*run)(void); const char *rule; } Scenario;
#define SCENARIO(id, rule_) static void run_##id(void); \
    __attribute__((used, section("scenarios"), aligned(8))) static const Scenario scn_##id = {#id, run_##id, rule_}; \
    static void run_##id(void)

#ifdef __cplusplus
}
#endif
#endif
