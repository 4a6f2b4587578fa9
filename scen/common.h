#ifndef COMMON_H
#define COMMON_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <limits.h>
#include "simapi.h"
#include <config.h>
#include <primitives.h>
#include <threadtools.h>
#include <barrier.h>

#define MAX_T 272
#define EMPTY_VAL ((int64_t)(LONG_MIN + 1))
#define GUARD_VAL ((int64_t)LONG_MIN)

/* ---- the objects under test, behind one interface ---- */
enum { KIND_COMB = 1, KIND_QUEUE = 2, KIND_STACK = 4, KIND_HASH = 8 };
enum { F_FIBERS = 1,        /* meant for several fibers per thread */
       F_BLOCKING = 2, F_LOCKFREE = 4, F_WAITFREE = 8,
       F_SPECULATIVE = 16,  /* the sequential function may run on private copies that are thrown away */
       F_RECYCLE = 32,      /* documented as recycling its nodes */
       F_NUMA = 64,         /* takes a number of NUMA nodes */
       F_STATEFUL = 128 };  /* combining object whose sequential function gets the state pointer of the caller */
typedef struct Obj Obj;
typedef struct ObjType {
    const char *name;
    int kind, flags;
    size_t size, tsize;
    void (*init)(Obj *o);
    void (*tinit)(Obj *o, void *st, int pid);
    int64_t (*op)(Obj *o, void *st, int op, int64_t arg, int pid);
    const char *family;
} ObjType;
struct Obj {
    const ObjType *t;
    void *s;                /* the library's structure */
    void *st[MAX_T];        /* the library's thread states */
    int id, n, fpt, numa;   /* instance number, threads, fibers per thread, fictitious NUMA nodes */
    int backoff, cells;
    uint64_t init_state;
    volatile int64_t *state;/* shared state of a combining object's sequential function */
    int64_t keys[64]; int nkeys;
    bool reg;               /* the sequential function is a register: new state = argument */
    /* requests in flight, for the checks inside the sequential function */
    bool pend[MAX_T]; int64_t pend_arg[MAX_T]; int runs[MAX_T]; uintptr_t at[MAX_T];
    int helped;
    int64_t applied;        /* executions of the sequential function */
    int inside;             /* threads inside the sequential function */
    int slow;               /* steps inside the sequential function */
    int (*sfunc_extra)(Obj *o, int64_t arg, int pid);
    uint64_t step_bound;
};
extern const ObjType *const obj_types[];
extern const int n_obj_types;
const ObjType *obj_type(const char *name);
int obj_select(int kind, int all_flags, int no_flags, const ObjType **out);
void obj_create(Obj *o, const ObjType *t, int id, int n, int fpt, int fill);
void obj_thread_init(Obj *o, int pid);
int64_t obj_apply(Obj *o, int op, int64_t arg, int pid);      /* with history */
void obj_drain(Obj *o, int n, int fpt);
int64_t obj_apply_raw(Obj *o, int op, int64_t arg, int pid);  /* without */
const char *obj_check(Obj *o);                                 /* the linearizability oracle of its kind */
int64_t obj_value(Obj *o, bool wild);                          /* a value the object may be given */
void obj_distinct_keys(Obj *o);
bool obj_counters(Obj *o, int64_t *served, int64_t *rounds);   /* the statistics of the debug build */
void obj_must(const char *m, Obj *o);                          /* fails or gives up if m is not NULL */

/* ---- what the library takes from and gives back to its pools ---- */
extern void (*on_pool_alloc)(void *obj);
extern void (*on_pool_recycle)(void *obj);     /* before the pool gets it */

/* ---- a generated program: drawn before any thread starts, so that the choices do not depend on the schedule ---- */
typedef struct { uint8_t op, obj, think; int64_t arg; } Op;
typedef struct { int n; int nops[MAX_T]; Op *ops[MAX_T]; } Program;
void prog_init(Program *p, int n, const int *nops);
typedef struct { int n, kernel, fpt, grp, barrier, oversub, buffers; } Env;
void draw_env(Env *e, int max_threads, bool fibers);           /* topology, placement, machine, threads */
extern int env_threads;                                         /* when set: the number of threads the next draw_env takes */
extern int env_buffers;                                         /* when set: the percentage of cases in which the next draw_env asks for store buffers */
void lcrq_limits(void);                                         /* its dequeuers wait 200000 rounds for a slow enqueuer; filling a ring of 16384 cells takes long too */
int draw_wide(void);                                            /* a number of threads around the word size of the toggle vectors */
int draw_active(int n, bool *active);                           /* few of many threads, on both sides of the word borders */
void run_threads(const Env *e, void *(*body)(void *));         /* through the library's own start/join */
extern int finished_bodies;
void think(int n);
extern int64_t uniq;
#endif
