// Deterministic simulator: owns the schedule, the memory, the thread-locals and the environment of the
// library under test, and runs generated cases against it. See simapi.h and ../DESIGN.md.
#include "simapi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <pthread.h>
#include <ucontext.h>

typedef uintptr_t uptr;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

// ------------------------------------------------------------------ PRNG
static inline u64 mix(u64 z) {
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
struct Rng {
    u64 s;
    u64 next() { s += 0x9E3779B97F4A7C15ULL; return mix(s); }
    u64 below(u64 n) { return n <= 1 ? 0 : (u64)(((unsigned __int128)next() * n) >> 64); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
};

// ------------------------------------------------------------------ case state
struct Seg { int tid; u64 k; };
struct Case {
    std::vector<u64> choices;
    std::vector<Seg> segs;
};

enum Outcome { OK = 0, FAIL = 1, INCONCLUSIVE = 2 };

static bool replaying;              // choices and schedule come from `in`
static Case in_case, out_case;
static size_t choice_pos, seg_pos;
static Rng rng_choice, rng_sched;

static Outcome outcome;
static std::string fail_kind, fail_msg;
static bool want_notes;
static std::string notes;
static std::vector<const char *> case_labels;
static bool case_nontrivial;
static std::map<std::string, u64> excluded_counts;

// ------------------------------------------------------------------ memory
static const uptr ARENA = 0x100000000000ULL;
static const u64 ARENA_SIZE = 16ULL << 30;
static const u64 NPAGES = ARENA_SIZE >> 12;
static u32 *page_alloc;             // page -> allocation index, 0 = none
static u8 *page_dirty;
static std::vector<u32> dirty_pages;
struct Alloc { uptr base; size_t size; uptr first; u32 pages; bool live; bool numa; bool full_reset; bool harness; u64 freed_pages; };
static std::vector<Alloc> allocs;
static u64 next_page;
static u64 live_bytes, live_allocs, total_bytes;
static int bad_frees;
static int malloc_fill = 0;

static void do_fail(const char *kind, const std::string &msg) __attribute__((noreturn));
static std::string fmt_(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt_(const char *f, ...) {
    char b[2048];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}

static inline void mark_dirty_page(u64 p) {
    if (!page_dirty[p]) { page_dirty[p] = 1; dirty_pages.push_back((u32)p); }
}

static void arena_init() {
    void *p = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)ARENA) { perror("arena"); exit(3); }
    page_alloc = (u32 *)mmap(0, NPAGES * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    page_dirty = (u8 *)mmap(0, NPAGES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (page_alloc == MAP_FAILED || page_dirty == MAP_FAILED) { perror("arena"); exit(3); }
    allocs.push_back(Alloc());
    next_page = 1;
}

static void arena_reset() {
    for (u32 p : dirty_pages) { memset((void *)(ARENA + ((u64)p << 12)), 0, 4096); page_dirty[p] = 0; }
    dirty_pages.clear();
    for (size_t i = 1; i < allocs.size(); i++)
        if (allocs[i].full_reset) memset((void *)allocs[i].first, 0, (size_t)allocs[i].pages << 12);
    memset(page_alloc, 0, next_page * 4);
    allocs.resize(1);
    next_page = 1;
    live_bytes = live_allocs = total_bytes = 0;
    bad_frees = 0;
    malloc_fill = 0;
}

static uptr arena_alloc(size_t size, size_t align, bool numa, bool harness, int fill) {
    size_t off = 0;
    if (!numa) off = align >= 4096 ? 0 : (align < 16 ? 16 : align);
    u64 pages = (off + size + 4095) >> 12;
    if (pages == 0) pages = 1;
    u64 first = next_page;
    if (align > 4096) { u64 ap = align >> 12; first = (first + ap - 1) / ap * ap; }
    if (first + pages + 1 >= NPAGES) do_fail("memory-exhausted", "the case allocated more than 16 GB");
    u32 id = allocs.size();
    Alloc a;
    a.first = ARENA + (first << 12);
    a.base = a.first + off;
    a.size = size; a.pages = pages; a.live = true; a.numa = numa; a.harness = harness; a.freed_pages = 0;
    a.full_reset = harness || size <= 128 * 1024;
    allocs.push_back(a);
    for (u64 i = 0; i < pages; i++) page_alloc[first + i] = id;
    next_page = first + pages + 1;      // one guard page
    if (!harness) { live_bytes += size; live_allocs++; total_bytes += size; }
    if (fill) {
        size_t n = size < 65536 ? size : 65536;
        memset((void *)a.base, fill, n);
        if (!a.full_reset) for (u64 i = 0; i < (off + n + 4095) >> 12; i++) mark_dirty_page(first + i);
    }
    return a.base;
}

// ------------------------------------------------------------------ threads
enum TState { T_FREE, T_RUN, T_SUSP, T_DONE };
static const int MAXT = 288;
static const size_t STK = 192 * 1024, TLSZ = 16 * 1024;
static uptr stacks_base, stacks_end;
static uptr tls_base, tls_end;

struct Thread {
    void *sp;
    TState st;
    void *(*fn)(void *);
    void *arg;
    u64 steps;
    u64 suspend_in;                 // 0 = no
    u64 mark_in, mark_time;         // when the thread has passed that many more steps
    bool watch;                     // suspend_in or mark_in is set
    int aff_cpu, aff_n;
    u64 prio;                       // PCT
    u64 weight;                     // BURST
    void *retval;
    bool pth, gone;
};
static Thread thr[MAXT];
static int nthr, cur = -1, nlive, nsusp;
static int run_list[MAXT], nrun;    // runnable threads
static void *engine_sp;
static bool in_sim;                 // inside a simulated thread

extern "C" void sim_switch(void **save, void *to);
asm(".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n");

// ------------------------------------------------------------------ schedule
static u64 step, ran, limit_;       // global time; steps since switch-in; decision when ran >= limit_
static u64 clock_;                  // logical time (steps + history events)
static u64 last_progress, noprog_bound;
static u64 switches;
static bool fair;
static u64 max_steps = 6000000;
static int policy, policy_mask;
static int adv_victim;
static u64 ops_done;
enum Kind { K_READ = 0, K_WRITE = 1, K_RMW = 2, K_YIELD = 3, K_DONE = 4, K_SUSP = 5 };
// per-policy parameters
static u64 sw_num, sw_den;
static std::vector<u64> pct_points;
static u64 pct_low;
static u64 est_len = 2000;
static u64 burst_next;
static int pause_victim; static u64 pause_until_ops, pause_since, pause_at; static bool pause_active; static u64 pause_budget;
static u64 adv_ops; static u64 adv_since; static bool adv_hold, adv_skip;
static u64 fair_q;
static u64 ops_tgt, ops_r, ops_cap, ops_since; static int ops_before, ops_phase;
static const char *abort_reason;

static sigjmp_buf engine_jmp;       // for crashes

static void run_list_rebuild() {
    nrun = 0;
    for (int i = 0; i < nthr; i++) if (thr[i].st == T_RUN) run_list[nrun++] = i;
}

static const char *only_kinds;
static bool other_failure;
static bool others(const char *kind) {
    if (!only_kinds || strstr(only_kinds, kind)) return false;
    other_failure = true;
    return true;
}
static void do_fail(const char *kind, const std::string &msg) {
    if (outcome == OK && !others(kind)) { outcome = FAIL; fail_kind = kind; fail_msg = msg; }
    if (!in_sim) siglongjmp(engine_jmp, 1);
    in_sim = false;
    void *dummy;
    sim_switch(&dummy, engine_sp);
    abort();
}

static inline int pick_other(int c) {
    if (nrun <= 1) return nrun ? run_list[0] : -1;
    for (;;) { int t = run_list[rng_sched.below(nrun)]; if (t != c) return t; }
}

static u64 geo_limit() {            // steps to the next switch under the uniform policy
    u64 k = 0;
    if (sw_den <= 3) { while (!rng_sched.chance(sw_num, sw_den)) k++; return k; }
    // uniform in [0, 2*mean): a cheap stand-in
    return rng_sched.below(2 * sw_den / sw_num + 1);
}

static int rr_next(int c) {
    for (int d = 1; d <= nthr; d++) { int t = (c + d) % nthr; if (thr[t].st == T_RUN) return t; }
    return -1;
}

static void pct_setup() {
    pct_points.clear();
    int d = 1 + rng_sched.below(6);
    for (int i = 0; i < d; i++) pct_points.push_back(rng_sched.below(est_len + est_len / 4 + 10));
    std::sort(pct_points.begin(), pct_points.end(), [](u64 a, u64 b) { return a > b; });
    pct_low = 1000;
}
static int pct_best() {
    int b = -1;
    for (int i = 0; i < nrun; i++) if (b < 0 || thr[run_list[i]].prio > thr[b].prio) b = run_list[i];
    return b;
}

static void policy_setup() {
    static const u64 dens[] = {2, 3, 6, 15, 50, 200, 1000};
    if (const char *e = getenv("SIM_POLICY")) { policy_mask = atoi(e); }
    int order[] = {POL_UNIFORM, POL_PCT, POL_BURST, POL_RMW, POL_PAUSE, POL_OPS};
    if (policy_mask) {
        std::vector<int> v;
        for (int i = 0; i < 7; i++) if (policy_mask & (1 << i)) v.push_back(1 << i);
        policy = v[rng_sched.below(v.size())];
    } else policy = order[rng_sched.below(6)];
    sw_num = 1; sw_den = dens[rng_sched.below(7)];
    fair = false; fair_q = 1 + rng_sched.below(120);
    pause_active = false; pause_victim = -1; pause_at = rng_sched.below(est_len) ; pause_budget = 0;
    burst_next = 0;
    adv_hold = adv_skip = false;
    ops_phase = 2; ops_before = -1;
    if (policy == POL_PCT) pct_setup();
}

// Decides who runs next and for how long (limit_ = how many more scheduling points it passes). Generation mode.
static int gen_decide(Kind k) {
    if (fair) { limit_ = 1 + rng_sched.below(2 * fair_q); return rr_next(cur); }
    bool forced = k == K_DONE || k == K_SUSP;
    switch (policy) {
    case POL_UNIFORM:
        limit_ = geo_limit();
        if (k == K_YIELD && rng_sched.chance(1, 2)) return cur;
        return forced ? pick_other(cur) : run_list[rng_sched.below(nrun)];
    case POL_PCT: {
        if (k == K_YIELD || ran > 4000) thr[cur].prio = pct_low > 1 ? --pct_low : 1;
        while (!pct_points.empty() && step >= pct_points.back()) { pct_points.pop_back(); thr[cur].prio = pct_low > 1 ? --pct_low : 1; }
        limit_ = 4001;
        if (!pct_points.empty() && pct_points.back() > step) limit_ = std::min<u64>(limit_, pct_points.back() - step);
        return pct_best();
    }
    case POL_BURST: {
        if (step >= burst_next) {
            for (int i = 0; i < nthr; i++) { static const u64 w[] = {1, 1, 4, 20, 100}; thr[i].weight = w[rng_sched.below(5)]; }
            burst_next = step + 50 + rng_sched.below(1500);
        }
        u64 tot = 0;
        for (int i = 0; i < nrun; i++) tot += thr[run_list[i]].weight ? thr[run_list[i]].weight : 1;
        u64 r = rng_sched.below(tot);
        int t = run_list[nrun - 1];
        for (int i = 0; i < nrun; i++) { u64 w = thr[run_list[i]].weight ? thr[run_list[i]].weight : 1; if (r < w) { t = run_list[i]; break; } r -= w; }
        limit_ = rng_sched.below(2 * sw_den > 60 ? 60 : 2 * sw_den);
        return t;
    }
    case POL_RMW: {
        limit_ = 0;
        if (!forced) {
            bool sw = (k == K_RMW) ? rng_sched.chance(1, 2) : k == K_YIELD ? rng_sched.chance(1, 2) : rng_sched.chance(1, 40 + sw_den);
            if (!sw) return cur;
        }
        return pick_other(cur);
    }
    case POL_PAUSE: {
        // everybody runs in longish bursts; one victim is frozen mid-operation while others complete operations
        if (pause_active && (ops_done >= pause_until_ops || step - pause_since > 6000 || thr[pause_victim].st != T_RUN || nrun <= 1)) {
            pause_active = false;
            int v = pause_victim;
            pause_at = step + rng_sched.below(est_len / 2 + 20);
            if (thr[v].st == T_RUN && rng_sched.chance(3, 4)) { limit_ = 1 + rng_sched.below(60); return v; }
        }
        if (!pause_active && step >= pause_at && nrun > 1 && !forced) {
            pause_active = true; pause_victim = cur; pause_since = step;
            pause_until_ops = ops_done + 1 + rng_sched.below(rng_sched.chance(1, 3) ? 12 : 4);
        }
        int t;
        if (k == K_YIELD || forced || rng_sched.chance(1, 3)) t = run_list[rng_sched.below(nrun)]; else t = cur;
        while (pause_active && t == pause_victim && nrun > 1) t = run_list[rng_sched.below(nrun)];
        limit_ = rng_sched.below(40);
        if (!pause_active && pause_at > step) limit_ = std::min<u64>(limit_, pause_at - step);
        return t;
    }
    case POL_ADVERSARY: {
        // the victim is stopped before each of its RMWs until another thread completed an operation
        int v = adv_victim;
        limit_ = geo_limit();
        if (v >= nthr || thr[v].st != T_RUN || nrun <= 1) return run_list[rng_sched.below(nrun)];
        if (!adv_hold && cur == v && !forced) {
            if (k == K_RMW && !adv_skip) { adv_hold = true; adv_ops = ops_done + 1 + rng_sched.below(2); adv_since = step; }
            else { limit_ = 0; adv_skip = false; return v; }
        }
        if (adv_hold && (ops_done >= adv_ops || step - adv_since > 3000)) { adv_hold = false; limit_ = 0; return v; }
        if (adv_hold) {
            int t; do t = run_list[rng_sched.below(nrun)]; while (t == v);
            limit_ = rng_sched.below(30);
            return t;
        }
        limit_ = 0;
        if (rng_sched.chance(1, 4)) return v;
        limit_ = rng_sched.below(20);
        return run_list[rng_sched.below(nrun)];
    }
    case POL_OPS: {
        // only one thread runs at a time: until it has completed a few operations, and some steps into its next one
        if (ops_phase == 0 && !forced && ops_done >= ops_tgt) { ops_phase = 1; if (ops_r && k != K_YIELD) { limit_ = ops_r - 1; return cur; } }
        if (ops_phase == 0 && !forced && step - ops_since < ops_cap && (k != K_YIELD || rng_sched.chance(1, 2))) { limit_ = ops_cap; return cur; }
        static const u64 rs[] = {4, 20, 60, 150, 400}, caps[] = {60, 200, 800, 3000};
        int t = ops_before;
        if (t < 0 || t >= nthr || t == cur || thr[t].st != T_RUN || rng_sched.chance(1, 2)) t = pick_other(cur);
        ops_before = cur;
        u64 kk = rng_sched.below(10);
        kk = kk < 4 ? 0 : kk < 8 ? 1 + rng_sched.below(3) : kk < 9 ? 1 + rng_sched.below(8) : 1 + rng_sched.below(20);
        ops_tgt = ops_done + kk; ops_r = rng_sched.below(rs[rng_sched.below(5)]);
        ops_cap = caps[rng_sched.below(4)]; ops_since = step;
        if (kk) { ops_phase = 0; limit_ = ops_cap; } else { ops_phase = 1; limit_ = ops_r; }
        return t;
    }
    }
    limit_ = 100;
    return rr_next(cur);
}

static int replay_decide(Kind k) {
    while (seg_pos < in_case.segs.size()) {
        Seg &s = in_case.segs[seg_pos++];
        if (s.tid < nthr && thr[s.tid].st == T_RUN) { limit_ = s.k; return s.tid; }
    }
    limit_ = 37;                    // the recorded schedule is used up: fair round robin
    return rr_next(cur);
}

static void switch_to(int t) {
    int prev = cur;
    out_case.segs.push_back({prev, ran});
    ran = 0;
    if (t == prev) return;
    switches++;
    cur = t;
    sim_switch(&thr[prev].sp, thr[t].sp);
}

static void decide(Kind k) {
    if (UNLIKELY(step - last_progress > noprog_bound / 8) && !fair && !(replaying && seg_pos < in_case.segs.size())) {
        fair = true;                // adversarial phase over: from here on every thread gets its share
    }
    if (UNLIKELY(step - last_progress > noprog_bound)) {
        std::string who;
        for (int i = 0; i < nthr && i < 24; i++) who += fmt_("%d:%s ", i, thr[i].st == T_RUN ? "run" : thr[i].st == T_SUSP ? "suspended" : "done");
        do_fail("no-progress", fmt_("no operation completed in %llu fairly scheduled steps (threads %s)", (unsigned long long)(step - last_progress), who.c_str()));
    }
    if (UNLIKELY(step > max_steps)) {
        outcome = INCONCLUSIVE; fail_kind = "too-long"; fail_msg = "step budget";
        in_sim = false; void *d; sim_switch(&d, engine_sp);
    }
    if (UNLIKELY(nrun == 0)) do_fail("deadlock", nsusp ? "every thread that is not suspended is gone" : "no thread can run");
    int t = replaying ? replay_decide(k) : gen_decide(k);
    if (t < 0) do_fail("deadlock", "no thread can run");
    if (t == cur && !replaying) { limit_ += ran; return; }   // go on, same segment
    switch_to(t);
}

static void decide_susp();
static void watch_tick(Thread &t) {
    if (t.mark_in && --t.mark_in == 0) t.mark_time = clock_;
    bool susp = t.suspend_in && --t.suspend_in == 0;
    t.watch = t.mark_in || t.suspend_in;
    if (susp) decide_susp();
}
static void decide_susp() {
    thr[cur].st = T_SUSP; thr[cur].suspend_in = 0;
    nsusp++;
    run_list_rebuild();
    decide(K_SUSP);
}


// ------------------------------------------------------------------ store buffers (x86-TSO)
// With them on, a store of a simulated thread first goes to the thread's own FIFO buffer. It reaches memory when its time has come (drawn per
// store), when the buffer is full, or at the thread's next atomic operation, full fence or system call. The thread itself sees its stores at
// once. The instrumentation calls us before an access that the program then makes itself, so a store is taken back into the buffer at the
// thread's next event, and a load is prepared by showing the thread's own view at that place until the thread's next event.
static bool tso;
static unsigned tso_flag asm("tso_flag") __attribute__((used)) = 0;      // the same, for the stand-in of the mfence instruction
static u64 tso_next = ~0ULL, tso_max, tso_seed, tso_count;
struct SBEntry { uptr a; u32 n; u8 v[16]; u64 due; };
struct StoreBuffer { SBEntry e[32]; u32 head, cnt; };
static StoreBuffer sb[MAXT];
static struct { uptr a; u32 n; bool store; u8 old[16]; } tso_pend;    // of the current thread
static void tso_out(int t) {                // the oldest store of thread t reaches memory
    StoreBuffer &b = sb[t];
    SBEntry &e = b.e[b.head];
    memcpy((void *)e.a, e.v, e.n);
    b.head = (b.head + 1) % 32; b.cnt--;
}
static void tso_settle() {
    if (!tso_pend.n) return;
    uptr a = tso_pend.a; u32 n = tso_pend.n;
    tso_pend.n = 0;
    if (tso_pend.store) {
        StoreBuffer &b = sb[cur];
        SBEntry ne; ne.a = a; ne.n = n; memcpy(ne.v, (void *)a, n);
        memcpy((void *)a, tso_pend.old, n);
        if (b.cnt == 32) tso_out(cur);
        tso_count++;
        ne.due = step + 1 + mix(tso_seed ^ tso_count * 0x9e3779b97f4a7c15ULL) % tso_max;
        if (b.cnt) { u64 d = b.e[(b.head + b.cnt - 1) % 32].due; if (ne.due < d) ne.due = d; }
        b.e[(b.head + b.cnt++) % 32] = ne;
        if (ne.due < tso_next) tso_next = ne.due;
    } else memcpy((void *)a, tso_pend.old, n);
}
static void tso_expire() {
    tso_next = ~0ULL;
    for (int t = 0; t < nthr; t++) {
        while (sb[t].cnt && sb[t].e[sb[t].head].due <= step) tso_out(t);
        if (sb[t].cnt) tso_next = std::min(tso_next, sb[t].e[sb[t].head].due);
    }
}
static void tso_drain() {                   // everything the current thread stored reaches memory
    if (!tso) return;
    tso_settle();
    while (sb[cur].cnt) tso_out(cur);
}
static void tso_access(uptr a, size_t n, bool store) {      // the current thread is about to make this access
    if (n > 16) { while (sb[cur].cnt) tso_out(cur); return; }
    StoreBuffer &b = sb[cur];
    bool seen = store;
    if (store) memcpy(tso_pend.old, (void *)a, n);
    for (u32 i = 0; i < b.cnt; i++) {
        SBEntry &e = b.e[(b.head + i) % 32];
        uptr lo = std::max(a, e.a), hi = std::min(a + n, e.a + e.n);
        if (lo >= hi) continue;
        if (!seen) { memcpy(tso_pend.old, (void *)a, n); seen = true; }
        memcpy((void *)lo, e.v + (lo - e.a), hi - lo);
    }
    if (seen) { tso_pend.a = a; tso_pend.n = n; tso_pend.store = store; }
}
static void tso_locked() {                  // the announced access turns out to be an atomic operation
    if (!tso) return;
    if (tso_pend.n) { memcpy((void *)tso_pend.a, tso_pend.old, tso_pend.n); tso_pend.n = 0; }
    while (sb[cur].cnt) tso_out(cur);
}

static inline void sched_point(Kind k) {
    if (UNLIKELY(tso)) { tso_settle(); if (k == K_YIELD) tso_drain(); }
    step++; clock_++;
    if (UNLIKELY(step >= tso_next)) tso_expire();
    Thread &t = thr[cur];
    t.steps++;
    if (UNLIKELY(t.watch)) watch_tick(t);
    if (ran++ >= limit_ || UNLIKELY(!replaying && (k == K_YIELD))) { ran--; decide(k); ran++; }
}

static inline bool in_arena(uptr a) { return a - ARENA < ARENA_SIZE; }

static void mem_fail(uptr a, size_t n, bool write, uptr pc) {
    const char *rw = write ? "write" : "read";
    if (!in_arena(a)) do_fail("memory", fmt_("%s of %zu bytes at bad address %p (pc %#lx)", rw, n, (void *)a, (long)pc));
    u32 id = page_alloc[(a - ARENA) >> 12];
    if (!id) do_fail("memory", fmt_("%s of %zu bytes at %p, outside of any allocation (pc %#lx)", rw, n, (void *)a, (long)pc));
    Alloc &al = allocs[id];
    do_fail("memory", fmt_("%s of %zu bytes %s a%s block of %zu bytes, at offset %ld (pc %#lx)", rw, n,
                           al.live ? "outside" : "in", al.live ? "" : " freed", al.size, (long)(a - al.base), (long)pc));
}

// outside of the simulated heap: the library's own static data, stacks and thread-locals; anything in the program for reading
extern "C" { extern char __executable_start[], _end[]; extern __attribute__((weak)) char __start_libdata[], __stop_libdata[], __start_libbss[], __stop_libbss[]; }
static inline bool foreign_ok(uptr a, bool write) {
    if (a - stacks_base < stacks_end - stacks_base || a - tls_base < tls_end - tls_base) return true;
    if (a - (uptr)__start_libbss < (uptr)(__stop_libbss - __start_libbss) || a - (uptr)__start_libdata < (uptr)(__stop_libdata - __start_libdata)) return true;
    return !write && a >= (uptr)__executable_start && a < (uptr)_end;
}
static inline void check_range(uptr a, size_t n, bool write, uptr pc) {
    if (in_arena(a)) {
        u64 p = (a - ARENA) >> 12;
        u32 id = page_alloc[p];
        const Alloc &al = allocs[id];
        if (UNLIKELY(!id || !al.live || a < al.base || a + n > al.base + al.size)) mem_fail(a, n, write, pc);
        if (write && !al.full_reset) { mark_dirty_page(p); for (u64 q = p + 1; q <= ((a + n - 1 - ARENA) >> 12); q++) mark_dirty_page(q); }
    } else if (UNLIKELY(!foreign_ok(a, write))) mem_fail(a, n, write, pc);
}

static inline bool is_local(uptr a) {
    if (a - stacks_base < stacks_end - stacks_base) return true;
    if (a - tls_base < tls_end - tls_base) return true;
    uptr sp = (uptr)__builtin_frame_address(0);
    if (UNLIKELY(in_arena(sp)) && in_arena(a) && page_alloc[(sp - ARENA) >> 12] == page_alloc[(a - ARENA) >> 12]) return true;
    return false;
}

// ---- twins: the same case again over differently filled memory must make the same accesses
static bool twin_req; static int twin_pass;
static std::vector<u64> twin_log; static size_t twin_pos;
static void twin_rec(u64 what, uptr a, size_t n, uptr pc) {
    u64 h = mix(mix(a * 31 + n) ^ what ^ ((u64)cur << 32));
    if (twin_pass == 0) { if (twin_log.size() < 3000000) twin_log.push_back(h); return; }
    if (twin_pos < twin_log.size() && twin_log[twin_pos++] != h)
        do_fail("uninitialised", what >= 100 ? std::string("an operation returns something else when memory that nobody initialised holds something else") :
                fmt_("the code behaves differently when memory that nobody initialised holds something else; first seen at an access at pc %#lx", (long)pc));
}

static inline void access_(void *p, size_t n, Kind k, uptr pc) {
    uptr a = (uptr)p;
    if (UNLIKELY(!in_sim)) return;
    if (is_local(a)) { if (UNLIKELY(tso) && k != K_READ && a - tls_base >= tls_end - tls_base) tso_drain(); return; }       /* others may be told of a place on the stack */
    if (UNLIKELY(twin_req)) twin_rec(k, a, n, pc);
    sched_point(k);
    check_range(a, n, k != K_READ, pc);
    if (UNLIKELY(tso)) { if (k == K_RMW) tso_drain(); else tso_access(a, n, k == K_WRITE); }
}

#define PC ((uptr)__builtin_return_address(0))
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(sz) \
    void __tsan_read##sz(void *a) { access_(a, sz, K_READ, PC); } \
    void __tsan_write##sz(void *a) { access_(a, sz, K_WRITE, PC); } \
    void __tsan_unaligned_read##sz(void *a) { access_(a, sz, K_READ, PC); } \
    void __tsan_unaligned_write##sz(void *a) { access_(a, sz, K_WRITE, PC); } \
    void __tsan_volatile_read##sz(void *a) { access_(a, sz, K_READ, PC); } \
    void __tsan_volatile_write##sz(void *a) { access_(a, sz, K_WRITE, PC); } \
    void __tsan_unaligned_volatile_read##sz(void *a) { access_(a, sz, K_READ, PC); } \
    void __tsan_unaligned_volatile_write##sz(void *a) { access_(a, sz, K_WRITE, PC); } \
    void __tsan_read_write##sz(void *a) { access_(a, sz, K_WRITE, PC); } \
    void __tsan_unaligned_read_write##sz(void *a) { access_(a, sz, K_WRITE, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) access_(a, n, K_READ, PC); }
void __tsan_write_range(void *a, unsigned long n) { if (n) access_(a, n, K_WRITE, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    // a copy is not atomic: in the simulation it happens word by word
    if (in_sim && n) {
        bool ls = is_local((uptr)s), ld = is_local((uptr)d);
        if (!ls) check_range((uptr)s, n, false, PC);
        if (!ld) check_range((uptr)d, n, true, PC);
        if (!ls || !ld) {
            size_t i = 0;
            while (i < n) {
                size_t c = std::min<size_t>(8, n - i);
                if (!ls) access_((char *)s + i, c, K_READ, PC);
                u64 tmp; memcpy(&tmp, (char *)s + i, c);
                if (!ld) access_((char *)d + i, c, K_WRITE, PC);
                memcpy((char *)d + i, &tmp, c);
                i += c;
            }
            return d;
        }
    }
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    if ((uptr)d + n <= (uptr)s || (uptr)s + n <= (uptr)d) return __tsan_memcpy(d, s, n);
    if (n) { access_((void *)s, n, K_READ, PC); access_(d, n, K_WRITE, PC); if (in_sim) tso_locked(); }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    if (in_sim && n && !is_local((uptr)d)) {
        check_range((uptr)d, n, true, PC);
        if (n <= 4096) for (size_t i = 0; i < n; i += 8) { size_t m = std::min<size_t>(8, n - i); access_((char *)d + i, m, K_WRITE, PC); memset((char *)d + i, c, m); }
        else { access_(d, n, K_WRITE, PC); memset(d, c, n); }
        return d;
    }
    return memset(d, c, n);
}
#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { access_((void *)a, bits / 8, K_READ, PC); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { access_((void *)a, bits / 8, K_WRITE, PC); if (mo == 5) tso_locked(); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access_((void *)a, bits / 8, K_RMW, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access_((void *)a, bits / 8, K_RMW, PC); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access_((void *)a, bits / 8, K_RMW, PC); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access_((void *)a, bits / 8, K_RMW, PC); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access_((void *)a, bits / 8, K_RMW, PC); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access_((void *)a, bits / 8, K_RMW, PC); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { access_((void *)a, bits / 8, K_RMW, PC); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access_((void *)a, bits / 8, K_RMW, PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access_((void *)a, bits / 8, K_RMW, PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access_((void *)a, bits / 8, K_RMW, PC); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t) ATOM(128, unsigned __int128)
void simhook_mfence_(void) { if (in_sim) tso_drain(); }
void __tsan_atomic_thread_fence(int mo) { if (mo == 5) simhook_mfence_(); }
void __tsan_atomic_signal_fence(int) {}
}

// what the library's mfence instructions are replaced by (vc/build.py): every register is kept
asm(".text\n.globl simhook_mfence\n.type simhook_mfence,@function\nsimhook_mfence:\n"
    "  cmpl $0,tso_flag(%rip)\n  jne 1f\n  ret\n"
    "1: pushq %rbp\n  movq %rsp,%rbp\n  pushq %rax\n  pushq %rcx\n  pushq %rdx\n  pushq %rsi\n  pushq %rdi\n  pushq %r8\n  pushq %r9\n  pushq %r10\n  pushq %r11\n  pushq %rbx\n"
    "  movq %rsp,%rbx\n  subq $512,%rsp\n  andq $-64,%rsp\n  fxsave64 (%rsp)\n  call simhook_mfence_\n  fxrstor64 (%rsp)\n"
    "  movq %rbx,%rsp\n  popq %rbx\n  popq %r11\n  popq %r10\n  popq %r9\n  popq %r8\n  popq %rdi\n  popq %rsi\n  popq %rdx\n  popq %rcx\n  popq %rax\n  popq %rbp\n  ret\n");

// ------------------------------------------------------------------ emulated TLS
struct EmuControl { size_t size, align; uptr offset; void *value; };
static std::unordered_map<void *, uptr> tls_map;
static char tls_image[TLSZ];
static uptr tls_used = 64;
static inline char *tls_of(int t) { return (char *)tls_base + (size_t)t * TLSZ; }
extern "C" void *__emutls_get_address(EmuControl *c) {
    if (UNLIKELY(!c->offset)) {
        uptr &o = tls_map[c];
        if (!o) {
            tls_used = (tls_used + c->align - 1) & ~(c->align - 1);
            o = tls_used;
            tls_used += c->size;
            if (tls_used > TLSZ) { fprintf(stderr, "TLS area too small\n"); exit(3); }
            if (c->value) memcpy(tls_image + o, c->value, c->size); else memset(tls_image + o, 0, c->size);
            for (int i = 0; i < MAXT; i++) memcpy(tls_of(i) + o, tls_image + o, c->size);
        }
        c->offset = o;
    }
    int t = cur < 0 ? 0 : cur;
    return tls_of(t) + c->offset;
}

// ------------------------------------------------------------------ thread creation
static void thread_main() {
    in_sim = true;
    int me = cur;
    thr[me].retval = thr[me].fn(thr[me].arg);
    tso_drain();
    thr[cur].st = T_DONE;
    nlive--;
    run_list_rebuild();
    last_progress = step;
    if (cur == 0) {                 // main returned: the case is over
        out_case.segs.push_back({0, ran});
        in_sim = false;
        void *d; sim_switch(&d, engine_sp);
    }
    decide(K_DONE);
    abort();
}

static int new_thread(void *(*fn)(void *), void *arg) {
    if (nthr >= MAXT) do_fail("harness", "too many simulated threads");
    int t = nthr++;
    Thread &T = thr[t];
    memset(&T, 0, sizeof T);
    T.st = T_RUN; T.fn = fn; T.arg = arg; T.aff_cpu = -1;
    T.prio = 1000000 + rng_sched.below(1000000);
    T.weight = 1;
    memcpy(tls_of(t), tls_image, tls_used);
    uptr top = stacks_base + (size_t)(t + 1) * STK - 256;
    top &= ~63ULL;
    u64 *s = (u64 *)top;
    memset((char *)top - 4096, twin_pass ? 0xa5 : 0, 4096);
    *--s = 0;
    *--s = (u64)thread_main;
    for (int i = 0; i < 6; i++) *--s = 0;
    T.sp = s;
    nlive++;
    run_list_rebuild();
    return t;
}

extern "C" {
void sim_only_kinds(const char *k) { only_kinds = k; }
int sim_twin_fill(void) { twin_req = true; return twin_pass ? 0xa5 : 0; }
void sim_set_max_steps(u64 n) { max_steps = n; }
int sim_spawn(void *(*fn)(void *), void *arg) { int t = new_thread(fn, arg); sched_point(K_WRITE); return t; }
void sim_join_all(void) {
    int me = cur;
    for (;;) {
        int left = 0;
        for (int i = 0; i < nthr; i++) if (i != me && (thr[i].st == T_RUN || thr[i].st == T_SUSP)) left++;
        if (!left) return;
        sim_yield();
    }
}
int sim_created_threads(void) { return nthr; }
int sim_live_threads(void) { return nlive; }
int simlib_pthread_create(pthread_t *th, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    tso_drain();
    int t = new_thread(fn, arg);
    check_range((uptr)th, sizeof *th, true, PC);
    *th = (pthread_t)(t + 1);
    thr[t].pth = true;
    sched_point(K_WRITE);
    return 0;
}
int simlib_pthread_join(pthread_t th, void **ret) {
    tso_drain();
    int t = (int)th - 1;
    if (t < 0 || t >= nthr) return ESRCH;
    while (thr[t].st != T_DONE) sim_yield();
    if (thr[t].gone) return ESRCH;
    thr[t].gone = true;
    if (ret) *ret = thr[t].retval;
    return 0;
}
int simlib_pthread_detach(pthread_t th) { int t = (int)th - 1; if (t < 0 || t >= nthr) return ESRCH; thr[t].gone = true; return 0; }
int sim_unjoined_threads(void) { int n = 0; for (int i = 1; i < nthr; i++) if (thr[i].pth && !thr[i].gone) n++; return n; }
pthread_t simlib_pthread_self(void) { return (pthread_t)(cur + 1); }
int simlib_pthread_setconcurrency(int) { return 0; }
static u64 n_yields;
int simlib_sched_yield(void) { n_yields++; sim_yield(); return 0; }
int simlib_pthread_yield(void) { n_yields++; sim_yield(); return 0; }
u64 sim_sys_yields(void) { return n_yields; }
void simhook_synchResched_pre(void) {}

// ---- topology
static int topo_cpus, topo_nodes, topo_kind;
static u64 machine_model;
void sim_set_topology(int ncpus, int nodes, int kind) { topo_cpus = ncpus; topo_nodes = nodes; topo_kind = kind; }
int sim_ncpus(void) { return topo_cpus; }
int sim_nnodes(void) { return topo_nodes; }
int sim_node_of_cpu(int c) {
    if (c < 0 || c >= topo_cpus) { errno = EINVAL; return -1; }
    int per = topo_cpus / topo_nodes;
    if (topo_kind == TOPO_SMT && topo_cpus % (2 * topo_nodes) == 0) {
        int half = topo_cpus / 2, hp = half / topo_nodes;
        if (hp < 1) hp = 1;
        int n = (c % half) / hp;
        return n >= topo_nodes ? topo_nodes - 1 : n;
    }
    if (topo_kind == TOPO_INTERLEAVED) return c % topo_nodes;
    int n = c / (per ? per : 1);
    return n >= topo_nodes ? topo_nodes - 1 : n;
}
int simlib_numa_node_of_cpu(int c) { return sim_node_of_cpu(c); }
int simlib_numa_num_task_nodes(void) { return topo_nodes; }
int simlib_numa_num_configured_nodes(void) { return topo_nodes; }
int simlib_numa_max_node(void) { return topo_nodes - 1; }
int simlib_numa_num_configured_cpus(void) { return topo_cpus; }
int simlib_numa_num_task_cpus(void) { return topo_cpus; }
int simlib_numa_available(void) { return 0; }
long simlib_sysconf(int name) {
    if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return topo_cpus;
    return sysconf(name);
}
int simlib_sched_setaffinity(pid_t, size_t len, const cpu_set_t *m) {
    int n = 0, last = -1;
    for (int i = 0; i < (int)len * 8 && i < 1024; i++) if (CPU_ISSET(i, m)) { n++; last = i; }
    thr[cur].aff_cpu = last; thr[cur].aff_n = n;
    if (n == 0 || last >= topo_cpus) { errno = EINVAL; return -1; }
    return 0;
}
int simlib_pthread_setaffinity_np(pthread_t, size_t len, const cpu_set_t *m) { return simlib_sched_setaffinity(0, len, m) ? EINVAL : 0; }
int simlib_sched_getcpu(void) { return thr[cur].aff_cpu < 0 ? 0 : thr[cur].aff_cpu; }
int sim_last_affinity(int tid, int *n) { if (n) *n = thr[tid].aff_n; return thr[tid].aff_cpu; }
void sim_set_machine(u64 m) { machine_model = m; }
void sim_draw_machine(void) { static const u64 m[] = {2, 1, 3}; machine_model = m[sim_draw(3)]; }
u64 simhook_synchGetMachineModel(void) { return machine_model; }
static void on_quiet_point(void) {}

// ---- memory
static int oom_never;
void *simlib_numa_alloc_local(size_t n) { if (n == 0) return NULL; return (void *)arena_alloc(n, 4096, true, false, 0); }
void *simlib_numa_alloc(size_t n) { return simlib_numa_alloc_local(n); }
void *simlib_numa_alloc_onnode(size_t n, int) { return simlib_numa_alloc_local(n); }
void *simlib_numa_alloc_interleaved(size_t n) { return simlib_numa_alloc_local(n); }
void *simlib_malloc(size_t n) { return (void *)arena_alloc(n, 16, false, false, malloc_fill); }
void *simlib_calloc(size_t n, size_t m) { return (void *)arena_alloc(n * m, 16, false, false, 0); }
void *simlib_memalign(size_t al, size_t n) { return (void *)arena_alloc(n, al, false, false, malloc_fill); }
void *simlib_aligned_alloc(size_t al, size_t n) { return simlib_memalign(al, n); }
int simlib_posix_memalign(void **p, size_t al, size_t n) { *p = simlib_memalign(al, n); return 0; }

static void release(Alloc &a) {
    tso_drain();
    uptr sp = (uptr)__builtin_frame_address(0);
    if (sp - a.first < (a.pages << 12)) do_fail("memory", "a fiber's stack was released while the fiber was running on it"); a.live = false; if (!a.harness) { live_bytes -= a.size; live_allocs--; } }
void simlib_free(void *p) {
    if (!p) return;
    uptr a = (uptr)p;
    u32 id = in_arena(a) ? page_alloc[(a - ARENA) >> 12] : 0;
    if (!id || allocs[id].numa || allocs[id].base != a) do_fail("memory", fmt_("free() of %p, which is not an allocated block", p));
    if (!allocs[id].live) do_fail("memory", fmt_("double free of a block of %zu bytes", allocs[id].size));
    release(allocs[id]);
}
void *simlib_realloc(void *p, size_t n) {
    void *q = simlib_malloc(n);
    if (p) { u32 id = page_alloc[((uptr)p - ARENA) >> 12]; memcpy(q, p, std::min(n, allocs[id].size)); simlib_free(p); }
    return q;
}
// numa_free() is munmap(): an unaligned address is refused (EINVAL, ignored by numa_free), whole pages go away
static int unmap_(void *p, size_t n) {
    tso_drain();
    uptr a = (uptr)p;
    if ((a & 4095) || n == 0) { bad_frees++; return -1; }
    u64 np = (n + 4095) >> 12, p0 = (a - ARENA) >> 12;
    if (!in_arena(a)) { bad_frees++; return -1; }
    u32 id = page_alloc[p0];
    if (!id) do_fail("memory", fmt_("release of %p, which is not allocated", p));
    Alloc &al = allocs[id];
    if (!al.live) do_fail("memory", fmt_("double release of a block of %zu bytes", al.size));
    if (p0 + np > ((al.first - ARENA) >> 12) + al.pages) do_fail("memory", fmt_("release of %zu bytes at %p goes beyond its block of %zu bytes", n, p, al.size));
    if (np == al.pages) { release(al); return 0; }
    { uptr sp = (uptr)__builtin_frame_address(0); if (sp - ((p0 << 12) + ARENA) < (np << 12)) do_fail("memory", "a part of a fiber's stack was released while the fiber was running on it"); }
    // partial unmapping: the pages are gone, the rest stays
    for (u64 q = p0; q < p0 + np; q++) if (page_alloc[q] == id) { page_alloc[q] = 0; al.freed_pages++; if (!al.full_reset) {} else mark_dirty_page(q); }
    u64 b = std::min<u64>(np << 12, live_bytes);
    live_bytes -= b;
    if (al.freed_pages == al.pages) { al.live = false; live_allocs--; }
    return 0;
}
void simlib_numa_free(void *p, size_t n) { unmap_(p, n); }
int simlib_munmap(void *p, size_t n) { if (!in_arena((uptr)p)) { return munmap(p, n); } int r = unmap_(p, n); if (r) errno = EINVAL; return r; }
u64 sim_live_bytes(void) { return live_bytes; }
u64 sim_live_allocs(void) { return live_allocs; }
u64 sim_total_alloc_bytes(void) { return total_bytes; }
int sim_bad_frees(void) { return bad_frees; }
void sim_set_malloc_fill(int b) { malloc_fill = b; }
void *sim_alloc_fill(size_t n, int fill) { return (void *)arena_alloc(n, 1024, false, true, fill); }
void *sim_alloc(size_t n) { return sim_alloc_fill(n, 0); }
size_t sim_alloc_left(const void *p) {
    uptr a = (uptr)p;
    if (!in_arena(a)) return 0;
    u32 id = page_alloc[(a - ARENA) >> 12];
    if (!id || !allocs[id].live || a < allocs[id].base || a > allocs[id].base + allocs[id].size) return 0;
    return allocs[id].base + allocs[id].size - a;
}
void sim_write(void *d, const void *s, size_t n) { tso_drain(); check_range((uptr)d, n, true, PC); memcpy(d, s, n); }
bool sim_range_ok(const void *p, size_t n) { return sim_alloc_left(p) >= n; }

// ---- 128-bit CAS is inline assembly in the library: give it a scheduling point and a bounds check
bool _CAS128(u64 *A, u64 B0, u64 B1, u64 C0, u64 C1);
bool simhook__CAS128(u64 *A, u64 B0, u64 B1, u64 C0, u64 C1) {
    access_(A, 16, K_RMW, PC);
    if ((uptr)A & 15) do_fail("memory", fmt_("16-byte CAS on the unaligned address %p", (void *)A));
    return _CAS128(A, B0, B1, C0, C1);
}
void synchResched(void);
void simhook_synchResched(void) { if (in_sim) sim_yield(); synchResched(); }

// ---- time, stdio, exit
static std::string captured;
static bool catching; static int exit_status; static jmp_buf exit_jmp;
static u64 clock_base; static u64 clock_calls;
void sim_set_clock(u64 ns) { clock_base = ns - clock_ * 100; }
int simlib_clock_gettime(clockid_t id, struct timespec *t) {
    u64 ns = clock_base + clock_ * 100;
    // the other clocks can be set back, or measure something else than time
    if (id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_RAW && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_BOOTTIME)
        ns = (1700000000ULL - 3600 * (clock_calls++ % 7)) * 1000000000ULL + ns % 1000000;
    t->tv_sec = ns / 1000000000ULL; t->tv_nsec = ns % 1000000000ULL; return 0; }
static void cap(const char *f, va_list ap) { char b[8192]; vsnprintf(b, sizeof b, f, ap); if (captured.size() < (1 << 20)) captured += b; }
int simlib_fprintf(FILE *, const char *f, ...) { va_list ap; va_start(ap, f); cap(f, ap); va_end(ap); return 1; }
int simlib_printf(const char *f, ...) { va_list ap; va_start(ap, f); cap(f, ap); va_end(ap); return 1; }
int simlib_vfprintf(FILE *, const char *f, va_list ap) { cap(f, ap); return 1; }
int simlib_puts(const char *s) { captured += s; captured += "\n"; return 1; }
int simlib_putchar(int c) { captured += (char)c; return c; }
int simlib_fputs(const char *s, FILE *) { captured += s; return 1; }
int simlib_fputc(int c, FILE *) { captured += (char)c; return c; }
size_t simlib_fwrite(const void *p, size_t a, size_t b, FILE *) { captured.append((const char *)p, a * b); return b; }
int simlib_fflush(FILE *) { return 0; }
void simlib_perror(const char *s) { captured += s; captured += "\n"; }
void simlib_exit(int st) {
    if (catching) { exit_status = st; longjmp(exit_jmp, 1); }
    do_fail("exit", fmt_("the library called exit(%d): %s", st, captured.substr(captured.size() > 200 ? captured.size() - 200 : 0).c_str()));
}
void simlib_abort(void) { do_fail("abort", "the library called abort()"); }
const char *sim_captured(void) { return captured.c_str(); }
void sim_capture_reset(void) { captured.clear(); }
int sim_catch_exit(void (*fn)(void *), void *arg) {
    catching = true;
    if (setjmp(exit_jmp) == 0) { fn(arg); catching = false; return -1; }
    catching = false;
    return exit_status;
}

// ------------------------------------------------------------------ choices
u64 sim_draw(u64 n) {
    u64 v;
    if (n == 0) n = 1;
    if (replaying) { v = choice_pos < in_case.choices.size() ? in_case.choices[choice_pos] : 0; choice_pos++; if (v >= n) v = n - 1; }
    else v = rng_choice.below(n);
    out_case.choices.push_back(v);
    return v;
}
int64_t sim_range(int64_t lo, int64_t hi) { return lo + (int64_t)sim_draw((u64)hi - (u64)lo + 1); }
bool sim_chance(unsigned pct) { return sim_draw(100) >= 100 - pct; }
int64_t sim_pick_(const int64_t *v, unsigned n) { return v[sim_draw(n)]; }
int64_t sim_draw_value(void) {
    static const int64_t sp[] = {0, 1, -1, 2, -2, 127, 128, 255, 256, INT32_MAX, (int64_t)INT32_MAX + 1, INT32_MIN, (int64_t)INT32_MIN - 1, (int64_t)INT32_MIN + 1,
        (int64_t)UINT32_MAX, (int64_t)UINT32_MAX + 1, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, INT64_MIN + 2, 0x100000000LL, -0x100000000LL, 0x7fff, 0x8000, -0x8000, 0xffff};
    switch (sim_draw(4)) {
    case 0: return sim_range(0, 9);
    case 1: return sp[sim_draw(sizeof sp / 8)];
    case 2: return (int64_t)(sim_draw(1ULL << 32) << 32 | sim_draw(1ULL << 32));
    default: { int sh = sim_draw(64); u64 v = 1ULL << sh; v += sim_draw(3) - 1; return sim_draw(2) ? -(int64_t)v : (int64_t)v; }
    }
}

// ------------------------------------------------------------------ results
void sim_fail(const char *kind, const char *f, ...) {
    char b[4096];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    do_fail(kind, b);
}
void sim_inconclusive(const char *why) {
    outcome = INCONCLUSIVE; fail_kind = "inconclusive"; fail_msg = why;
    in_sim = false; void *d; sim_switch(&d, engine_sp); abort();
}
void sim_note(const char *f, ...) {
    if (!want_notes || notes.size() > 20000) return;
    char b[2048];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    notes += b; notes += "\n";
}
void sim_label(const char *l) { if (replaying) return; for (auto x : case_labels) if (!strcmp(x, l)) return; case_labels.push_back(strdup(l)); }
void sim_nontrivial(void) { case_nontrivial = true; }
void sim_excluded(const char *w) { if (!replaying) excluded_counts[w]++; }

// ------------------------------------------------------------------ history
static std::vector<HistOp> hv;
HistOp *hist; int hist_n;
static int in_ops;
int hist_begin(int tid, int obj, int op, int64_t arg) {
    HistOp h; memset(&h, 0, sizeof h);
    h.tid = tid; h.obj = obj; h.op = op; h.arg = arg; h.inv = ++clock_; h.res = 0; h.steps = cur >= 0 ? thr[cur].steps : 0;
    hv.push_back(h);
    hist = hv.data(); hist_n = hv.size();
    in_ops++;
    return hist_n - 1;
}
void hist_end(int i, int64_t ret) {
    tso_drain();            // an answer counts as given when what the thread stored before it has reached memory
    if (UNLIKELY(twin_req)) twin_rec(100, (uptr)ret, 0, 0);
    hv[i].ret = ret; hv[i].res = ++clock_; hv[i].steps = thr[cur].steps - hv[i].steps;
    in_ops--;
    sim_progress();
}
void sim_progress(void) {
    last_progress = step; ops_done++;
    if (policy == POL_OPS && !replaying && !fair && ops_phase == 0 && ops_done >= ops_tgt) limit_ = ran;    // decide at the next scheduling point
}
void sim_point(void) { if (in_sim) sched_point(K_WRITE); }
void sim_yield(void) { if (in_sim) sched_point(K_YIELD); }
int sim_tid(void) { return cur; }
u64 sim_now(void) { return ++clock_; }
u64 sim_steps(void) { return thr[cur].steps; }
int64_t sim_rd(volatile int64_t *p) { access_((void *)p, 8, K_READ, PC); return *p; }
void sim_wr(volatile int64_t *p, int64_t v) { access_((void *)p, 8, K_WRITE, PC); *p = v; }
void sim_suspend_me_at(u64 n) { thr[cur].suspend_in = n + 1; thr[cur].watch = true; }
void sim_mark_me_at(u64 n) { thr[cur].mark_in = n; thr[cur].mark_time = 0; thr[cur].watch = true; }
u64 sim_mark_end(void) { Thread &t = thr[cur]; t.mark_in = 0; u64 r = t.mark_time; t.mark_time = 0; return r; }
void sim_suspend_cancel(void) { thr[cur].suspend_in = 0; }
int sim_suspended(void) { return nsusp; }
void sim_release_all(void) {
    for (int i = 0; i < nthr; i++) if (thr[i].st == T_SUSP) { thr[i].st = T_RUN; nsusp--; }
    run_list_rebuild();
    last_progress = step;
}
void sim_store_buffers(u64 max_delay) {
    if (!max_delay) { if (tso) { tso_settle(); for (int t = 0; t < nthr; t++) while (sb[t].cnt) tso_out(t); } tso = false; tso_flag = 0; tso_next = ~0ULL; return; }
    tso_seed = sim_draw(1 << 20); tso_max = max_delay; tso_count = 0; tso = true; tso_flag = 1;
}
void sim_set_noprogress_bound(u64 n) { noprog_bound = n; }
void sim_policy_only(int m) { policy_mask = m; policy_setup(); }
void sim_set_adversary(int v) { adv_victim = v; }
} // extern "C"

// ------------------------------------------------------------------ running one case
extern "C" const Scenario __start_scenarios[], __stop_scenarios[];
static std::string data_snapshot;
static const Scenario *scn;

static void *main_body(void *) { scn->run(); return NULL; }

static volatile sig_atomic_t watching;
static u64 watch_step; static int watch_ticks;
static void on_crash(int sig, siginfo_t *si, void *uc_) {
    ucontext_t *uc = (ucontext_t *)uc_;
    if (!in_sim) { signal(sig, SIG_DFL); raise(sig); return; }
    if (outcome == OK && !others("crash")) {
        outcome = FAIL; fail_kind = "crash";
        char b[200];
        snprintf(b, sizeof b, "signal %d (%s) at address %p, pc %#llx", sig, strsignal(sig), si->si_addr, (unsigned long long)uc->uc_mcontext.gregs[REG_RIP]);
        fail_msg = b;
        uptr a = (uptr)si->si_addr;
        for (int i = 0; i < nthr; i++) { uptr lo = stacks_base + i * STK; if (sig == SIGSEGV && a >= lo && a < lo + 4096) fail_msg += " (stack overflow)"; }
    }
    in_sim = false;
    siglongjmp(engine_jmp, 1);
}
static void on_tick(int) {
    if (!in_sim) { watch_ticks = 0; return; }
    if (step != watch_step) { watch_step = step; watch_ticks = 0; return; }
    if (++watch_ticks >= 16) {
        if (outcome == OK && !others("hang")) { outcome = FAIL; fail_kind = "hang"; fail_msg = "a thread ran for 8 s of CPU time without touching shared memory"; }
        in_sim = false;
        siglongjmp(engine_jmp, 1);
    }
}

static void run_one() {
    arena_reset();
    twin_pos = 0; only_kinds = NULL; other_failure = false;
    tso = false; tso_flag = 0; tso_next = ~0ULL; tso_pend.n = 0; for (auto &b : sb) b.head = b.cnt = 0;
    if (__start_libdata) memcpy(__start_libdata, data_snapshot.data(), data_snapshot.size());
    if (__start_libbss) memset(__start_libbss, 0, __stop_libbss - __start_libbss);
    out_case.choices.clear(); out_case.segs.clear();
    choice_pos = seg_pos = 0;
    outcome = OK; fail_kind.clear(); fail_msg.clear(); notes.clear(); captured.clear();
    for (auto x : case_labels) free((void *)x);
    case_labels.clear(); case_nontrivial = false;
    hv.clear(); hist_n = 0; in_ops = 0;
    nthr = 0; nlive = nsusp = 0; nrun = 0; cur = -1;
    step = ran = switches = 0; clock_ = 0; clock_base = 0; clock_calls = 0; last_progress = 0; noprog_bound = 400000; ops_done = 0; max_steps = 6000000;
    policy_mask = 0; adv_victim = 1; catching = false;
    topo_cpus = 8; topo_nodes = 1; topo_kind = TOPO_SMT; machine_model = 2;
    policy_setup();
    new_thread(main_body, NULL);
    if (replaying) {
        // the first segment belongs to main
        limit_ = 0;
        if (!in_case.segs.empty()) { limit_ = in_case.segs[0].k; seg_pos = 1; } else limit_ = 37;
    } else limit_ = 0;
    cur = 0;
    if (sigsetjmp(engine_jmp, 1) == 0) {
        in_sim = true;
        sim_switch(&engine_sp, thr[0].sp);
    }
    in_sim = false;
    cur = -1;
}

static void run_case() {
    twin_req = false; twin_pass = 0; twin_log.clear();
    run_one();
    if (twin_req && outcome == OK && !other_failure) {
        Case c0 = out_case, in0 = in_case; bool r0 = replaying, n0 = want_notes;
        std::string notes0 = notes;
        std::vector<const char *> labels0; labels0.swap(case_labels);
        in_case = c0; replaying = true; twin_pass = 1;
        run_one();
        for (auto x : case_labels) free((void *)x);
        case_labels.swap(labels0);
        if (outcome != FAIL) outcome = OK;
        in_case = in0; replaying = r0; out_case = c0; notes = notes0;
    }
    twin_req = false; twin_pass = 0;
}

static u64 case_hash(const Case &c) {
    u64 h = 14695981039346656037ULL;
    for (u64 v : c.choices) h = mix(h ^ v);
    h = mix(h ^ 0xabcdef);
    for (auto &s : c.segs) h = mix(h ^ (s.k * 256 + s.tid));
    return h;
}

static void run_replay(const Case &c, bool n) { replaying = true; in_case = c; want_notes = n; run_case(); replaying = false; }

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Case shrink(Case c, const std::string &kind, double budget, u64 *tries) {
    double t0 = now_s();
    auto still = [&](const Case &x) { (*tries)++; run_replay(x, false); return outcome == FAIL && fail_kind == kind; };
    auto over = [&] { return now_s() - t0 > budget; };
    bool improved = true;
    while (improved && !over()) {
        improved = false;
        // choices: delete chunks
        for (size_t k : {32, 8, 4, 2, 1})
            for (size_t i = c.choices.size(); i-- > 0 && !over();) {
                if (i + k > c.choices.size()) continue;
                Case d = c; d.choices.erase(d.choices.begin() + i, d.choices.begin() + i + k);
                if (still(d)) { c = d; improved = true; }
            }
        for (size_t i = 0; i < c.choices.size() && !over(); i++) {
            if (c.choices[i] == 0) continue;
            Case d = c; d.choices[i] = 0;
            if (still(d)) { c = d; improved = true; continue; }
            u64 lo = 0, hi = c.choices[i];
            while (lo + 1 < hi && !over()) { u64 m = lo + (hi - lo) / 2; d = c; d.choices[i] = m; if (still(d)) { hi = m; c = d; improved = true; } else lo = m; }
        }
        // schedule: truncate the tail, then delete chunks
        for (size_t keep = 0; keep < c.segs.size() && !over(); keep = keep ? keep * 2 : 1) {
            Case d = c; d.segs.resize(keep);
            if (still(d)) { c = d; improved = true; break; }
        }
        for (size_t k = c.segs.size() / 2; k >= 1 && !over(); k /= 2)
            for (size_t i = 0; i + k <= c.segs.size() && !over();) {
                Case d = c; d.segs.erase(d.segs.begin() + i, d.segs.begin() + i + k);
                if (still(d)) { c = d; improved = true; } else i += k;
            }
        // merge neighbours of the same thread
        Case d = c; std::vector<Seg> m;
        for (auto &s : d.segs) { if (!m.empty() && m.back().tid == s.tid) m.back().k += s.k + 1; else m.push_back(s); }
        if (m.size() < d.segs.size()) { d.segs = m; if (still(d)) { c = d; improved = true; } }
    }
    return c;
}

static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

static void write_case(const char *path, const Case &c, const char *variant, const std::string &text) {
    FILE *f = fopen(path, "w");
    if (!f) { perror(path); exit(3); }
    fprintf(f, "variant %s\nscenario %s\nkind %s\nmessage %s\n", variant, scn->name, fail_kind.c_str(), fail_msg.c_str());
    fprintf(f, "choices"); for (u64 v : c.choices) fprintf(f, " %llu", (unsigned long long)v);
    fprintf(f, "\nschedule"); for (auto &s : c.segs) fprintf(f, " %d:%llu", s.tid, (unsigned long long)s.k);
    fprintf(f, "\n# The lines below only describe the case; choices and schedule above determine it.\n");
    std::string l; for (char ch : text) { if (ch == '\n') { fprintf(f, "# %s\n", l.c_str()); l.clear(); } else l += ch; }
    if (!l.empty()) fprintf(f, "# %s\n", l.c_str());
    fclose(f);
}

static bool read_case(const char *path, Case &c, std::string &sc, std::string &kind) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    char *line = NULL; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        char *sp = strchr(line, ' ');
        if (line[0] == '#') continue;
        std::string key(line, sp ? sp - line : strcspn(line, "\n"));
        std::string val = sp ? sp + 1 : "";
        while (!val.empty() && val.back() == '\n') val.pop_back();
        const char *p = val.c_str(); char *e;
        if (key == "scenario") sc = val;
        else if (key == "kind") kind = val;
        else if (key == "choices") for (;;) { u64 v = strtoull(p, &e, 10); if (e == p) break; c.choices.push_back(v); p = e; }
        else if (key == "schedule") for (;;) { long t = strtol(p, &e, 10); if (e == p || *e != ':') break; p = e + 1; u64 k = strtoull(p, &e, 10); c.segs.push_back({(int)t, k}); p = e; }
    }
    free(line); fclose(f);
    return true;
}

static std::string history_text() {
    std::string s;
    std::vector<HistOp> v = hv;
    for (auto &h : v) {
        s += fmt_("  t%d obj%d op%d(%lld) -> ", h.tid, h.obj, h.op, (long long)h.arg);
        s += h.res ? fmt_("%lld", (long long)h.ret) : std::string("pending");
        s += fmt_("   [%llu,%llu]\n", (unsigned long long)h.inv, (unsigned long long)h.res);
        if (s.size() > 12000) { s += "  ...\n"; break; }
    }
    return s;
}

int main(int argc, char **argv) {
    std::string scname, out, replay, variant = "default", known;
    u64 seed = 1, n = 100, worker = 0; double tmax = 1e9; double shrink_s = 15;
    bool list = false, timing = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--scenario") scname = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--worker") worker = strtoull(nx().c_str(), 0, 10); else if (a == "--n") n = strtoull(nx().c_str(), 0, 10);
        else if (a == "--tmax") tmax = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx();
        else if (a == "--variant") variant = nx(); else if (a == "--list") list = true; else if (a == "--shrink") shrink_s = atof(nx().c_str());
        else if (a == "--timing") timing = true;
    }
    if (list) { for (const Scenario *s = __start_scenarios; s < __stop_scenarios; s++) printf("%s\n", s->name); return 0; }
    signal(SIGPIPE, SIG_IGN);
    arena_init();
    char *st = (char *)mmap(0, STK * MAXT + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    stacks_base = ((uptr)st + 4095) & ~4095ULL; stacks_end = stacks_base + STK * MAXT;
    for (int i = 0; i < MAXT; i++) mprotect((void *)(stacks_base + (size_t)i * STK), 4096, PROT_NONE);
    char *tl = (char *)mmap(0, TLSZ * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    tls_base = (uptr)tl; tls_end = tls_base + TLSZ * MAXT;
    if (__start_libdata) data_snapshot.assign(__start_libdata, __stop_libdata - __start_libdata);
    stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, NULL);
    memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART | SA_NODEFER; sigaction(SIGVTALRM, &sa, NULL);
    struct itimerval iv = {{0, 500000}, {0, 500000}}; setitimer(ITIMER_VIRTUAL, &iv, NULL);

    Case rc; std::string want_kind;
    if (!replay.empty()) { if (!read_case(replay.c_str(), rc, scname, want_kind)) { perror(replay.c_str()); return 3; } }
    for (const Scenario *s = __start_scenarios; s < __stop_scenarios; s++) if (scname == s->name) scn = s;
    if (!scn) { fprintf(stderr, "no scenario %s\n", scname.c_str()); return 3; }
    if (!replay.empty()) {
        run_replay(rc, true);
        printf("scenario %s: %s%s%s %s\n", scn->name, outcome == OK ? "held" : outcome == FAIL ? "FAILED" : "inconclusive", outcome ? ": " : "", fail_kind.c_str(), fail_msg.c_str());
        printf("%s%s", notes.c_str(), history_text().c_str());
        return outcome == FAIL ? 1 : 0;
    }

    double t0 = now_s();
    u64 done = 0, nontriv = 0, incon = 0, tot_steps = 0, tot_switch = 0, maxstep = 0, tries = 0;
    u64 avg = 2000;
    std::unordered_set<u64> distinct;
    std::map<std::string, u64> labels, incon_why;
    std::vector<std::string> samples;
    u64 sh = 0; for (char ch : scname + (variant == "default" ? "" : variant)) sh = mix(sh ^ (u8)ch);
    bool failed = false; std::string viol_kind, viol_msg;
    for (u64 i = 0; i < n; i++) {
        if (now_s() - t0 > tmax) break;
        rng_choice.s = mix(seed * 1000003 + sh + worker * 7919) ^ mix(i * 2 + 1);
        rng_sched.s = mix(rng_choice.s + 77);
        est_len = avg;
        want_notes = false; replaying = false;
        double c0 = timing ? now_s() : 0;
        run_case();
        if (timing && now_s() - c0 > 0.5) fprintf(stderr, "slow case %llu: %.2fs steps %llu\n", (unsigned long long)i, now_s() - c0, (unsigned long long)step);
        done++;
        tot_steps += step; tot_switch += switches; if (step > maxstep) maxstep = step;
        avg = (avg * 15 + step) / 16; if (avg < 50) avg = 50; if (avg > 100000) avg = 100000;
        for (auto l : case_labels) labels[l]++;
        labels[policy == POL_UNIFORM ? "sched:uniform" : policy == POL_PCT ? "sched:pct" : policy == POL_BURST ? "sched:burst" : policy == POL_RMW ? "sched:rmw" : policy == POL_PAUSE ? "sched:pause" : policy == POL_OPS ? "sched:ops" : "sched:adversary"]++;
        if (outcome == INCONCLUSIVE) { incon++; incon_why[fail_msg]++; continue; }
        if (outcome == OK && other_failure) labels["ended by a failure of another property"]++;
        if (outcome == OK) {
            if (case_nontrivial && !other_failure) {
                nontriv++; distinct.insert(case_hash(out_case));
                if (samples.size() < 2 && (i % 37 == 11 || i > 200)) {
                    Case c = out_case; u64 h = case_hash(out_case); u64 s0 = step;
                    run_replay(c, true);
                    if (outcome != OK || step != s0 || case_hash(out_case) != h) labels["engine:replay-diverged"]++;
                    std::string s = fmt_("choices:%zu schedule-segments:%zu steps:%llu\n", c.choices.size(), c.segs.size(), (unsigned long long)step) + notes + history_text();
                    if (s.size() > 1500) s = s.substr(0, 1500) + "...";
                    samples.push_back(s);
                }
            }
            continue;
        }
        // a failure: make sure it replays, shrink it, write it down
        Case c = out_case; std::string kind = fail_kind, msg = fail_msg;
        run_replay(c, false);
        bool rep = outcome == FAIL && fail_kind == kind;
        if (rep) c = shrink(c, kind, shrink_s, &tries); 
        run_replay(c, true);
        if (!(outcome == FAIL && fail_kind == kind)) { outcome = FAIL; fail_kind = kind; fail_msg = msg + " (did not replay)"; }
        viol_kind = kind; viol_msg = fail_msg;
        if (!out.empty()) write_case((out + ".case").c_str(), c, variant.c_str(), notes + history_text());
        failed = true;
        if (!rep) labels["engine:failure-did-not-replay"]++;
        break;
    }
    std::string j = "{";
    j += fmt_("\"cases\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"inconclusive\":%llu,\"steps\":%llu,\"switches\":%llu,\"max_steps\":%llu,\"wall\":%.2f,\"shrink_tries\":%llu",
              (unsigned long long)done, (unsigned long long)nontriv, distinct.size(), (unsigned long long)incon, (unsigned long long)tot_steps, (unsigned long long)tot_switch, (unsigned long long)maxstep, now_s() - t0, (unsigned long long)tries);
    j += ",\"labels\":{"; bool first = true;
    for (auto &l : labels) { j += (first ? "" : ",") + json_str(l.first) + fmt_(":%llu", (unsigned long long)l.second); first = false; }
    j += "},\"inconclusive_why\":{"; first = true;
    for (auto &l : incon_why) { j += (first ? "" : ",") + json_str(l.first) + fmt_(":%llu", (unsigned long long)l.second); first = false; }
    j += "},\"excluded\":{"; first = true;
    for (auto &l : excluded_counts) { j += (first ? "" : ",") + json_str(l.first) + fmt_(":%llu", (unsigned long long)l.second); first = false; }
    j += "},\"rule\":" + json_str(scn->rule) + ",\"samples\":["; first = true;
    for (auto &s : samples) { j += (first ? "" : ",") + json_str(s); first = false; }
    j += "]";
    if (failed) j += ",\"violation\":{\"kind\":" + json_str(viol_kind) + ",\"message\":" + json_str(viol_msg) + "}";
    j += "}\n";
    if (out.empty()) fputs(j.c_str(), stdout); else { FILE *f = fopen((out + ".json").c_str(), "w"); fputs(j.c_str(), f); fclose(f); }
    return failed ? 1 : 0;
}
