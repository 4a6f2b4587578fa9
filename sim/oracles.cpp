// Oracles over recorded histories. Each returns NULL (fine), "?..." (inconclusive) or what is wrong.
#include "simapi.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <bitset>

typedef uint64_t u64;
static std::string msg;
static const char *bad(const std::string &s) { msg = s; return msg.c_str(); }
static inline u64 mx(u64 z) {
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

extern "C" {
u64 chain_final;
u64 chain_next(u64 s, u64 a) { return mx(s * 31 + a) | 1; }

// Combining objects: the sequential function returns the old state and moves it to chain_next(old,arg). If every
// operation was applied exactly once, one after the other, the returned values thread all operations on one chain.
const char *chain_check(int obj, u64 init) {
    std::vector<HistOp *> v;
    std::unordered_map<u64, HistOp *> by;
    for (int i = 0; i < hist_n; i++) if (hist[i].obj == obj) {
        if (!hist[i].res) continue;
        v.push_back(&hist[i]);
        if (by.count((u64)hist[i].ret)) {
            HistOp *o = by[(u64)hist[i].ret];
            char b[300]; snprintf(b, sizeof b, "two operations got the same old state %#llx (t%d and t%d): an operation was lost, duplicated or answered with another one's result", (unsigned long long)hist[i].ret, o->tid, hist[i].tid);
            return bad(b);
        }
        by[(u64)hist[i].ret] = &hist[i];
    }
    u64 s = init; size_t n = 0;
    std::vector<HistOp *> order;
    while (by.count(s)) { HistOp *o = by[s]; order.push_back(o); s = chain_next(s, (u64)o->arg); if (++n > v.size()) break; }
    chain_final = s;
    if (n != v.size()) {
        char b[300]; snprintf(b, sizeof b, "only %zu of %zu operations form a sequential execution: after them the state is %#llx, which no operation saw", n, v.size(), (unsigned long long)s);
        return bad(b);
    }
    // real time: nothing later in the chain may have responded before an earlier one was invoked
    u64 minres = ~0ULL; HistOp *w = 0;
    for (size_t i = order.size(); i-- > 0;) {
        if (w && minres < order[i]->inv) {
            char b[300]; snprintf(b, sizeof b, "real-time order violated: an operation of t%d invoked at %llu took effect before one of t%d that had responded at %llu", order[i]->tid, (unsigned long long)order[i]->inv, w->tid, (unsigned long long)minres);
            return bad(b);
        }
        if (order[i]->res < minres) { minres = order[i]->res; w = order[i]; }
    }
    return NULL;
}
}

// ---- Wing & Gong search with memoisation
typedef std::bitset<512> Mask;
struct MaskHash { size_t operator()(const std::pair<Mask, u64> &p) const { return std::hash<Mask>()(p.first) ^ p.second; } };

template <class State>
static const char *wing_gong(std::vector<HistOp *> v, State init, const char *what) {
    std::sort(v.begin(), v.end(), [](HistOp *a, HistOp *b) { return a->inv < b->inv; });
    size_t n = v.size();
    if (n == 0) return NULL;
    if (n > 512) return "?history too long";
    std::unordered_set<std::pair<Mask, u64>, MaskHash> seen;
    struct Frame { State st; size_t next; size_t chosen; };
    std::vector<Frame> stack;
    Mask done;
    size_t ndone = 0, complete = 0;
    for (auto o : v) if (o->res) complete++;
    size_t ncomp = 0, best = 0;
    std::vector<size_t> order;
    size_t lo = 0;
    stack.push_back({init, 0, 0});
    u64 budget = 300000;
    while (!stack.empty()) {
        if (ncomp == complete) return NULL;
        Frame &f = stack.back();
        // candidates: not done, and invoked before every undone operation's response
        while (lo < n && done[lo]) lo++;
        u64 minres = ~0ULL;
        for (size_t i = lo; i < n; i++) { if (done[i]) continue; if (v[i]->inv > minres) break; u64 r = v[i]->res ? v[i]->res : ~0ULL; if (r < minres) minres = r; }
        bool pushed = false;
        size_t start = std::max(f.next, lo);
        bool forced = false;
        if (f.next == 0) {          // an operation that may go next without losing any linearization: no branching
            for (size_t i = lo; i < n && v[i]->inv <= minres; i++)
                if (!done[i] && f.st.greedy(*v[i])) { start = i; forced = true; break; }
        }
        for (size_t i = start; i < n; i++) {
            if (v[i]->inv > minres) break;
            if (done[i]) continue;
            State s2 = f.st;
            if (!s2.step(*v[i])) continue;
            done[i] = 1;
            if (!seen.insert({done, s2.hash()}).second) { done[i] = 0; if (forced) break; continue; }
            if (--budget == 0) return "?linearizability search budget";
            f.next = forced ? n + 1 : i + 1;
            order.push_back(i);
            ndone++; if (v[i]->res) ncomp++;
            if (ncomp > best) best = ncomp;
            stack.push_back({s2, 0, i});
            pushed = true;
            if (i < lo) lo = i;
            break;
        }
        if (!pushed) {
            stack.pop_back();
            if (!order.empty()) { size_t i = order.back(); order.pop_back(); done[i] = 0; ndone--; if (v[i]->res) ncomp--; if (i < lo) lo = i; }
        }
    }
    char b[200];
    snprintf(b, sizeof b, "the history of %zu operations is not linearizable as a %s (at most %zu can be placed)", n, what, best);
    return bad(b);
}

struct QState {
    std::vector<int64_t> q; size_t head = 0; int64_t empty;
    bool step(const HistOp &o) {
        if (o.op == OP_ENQ) { q.push_back(o.arg); return true; }
        if (!o.res) { if (head < q.size()) head++; return true; }
        if (head == q.size()) return o.ret == empty;
        if (q[head] != o.ret) return false;
        head++;
        return true;
    }
    bool greedy(const HistOp &o) const { return o.op == OP_DEQ && o.res && head == q.size() && o.ret == empty; }
    u64 hash() const { u64 h = 7; for (size_t i = head; i < q.size(); i++) h = mx(h ^ (u64)q[i]); return h; }
};
struct SState {
    std::vector<int64_t> s; int64_t empty;
    const std::unordered_map<int64_t, HistOp *> *pops = NULL;    // set when the pushed values are distinct and nothing is pending
    bool step(const HistOp &o) {
        if (o.op == OP_PUSH) {
            if (pops) {             // what lies below must not have to leave first
                auto y = pops->find(o.arg);
                for (auto x : s) { auto p = pops->find(x); if (p != pops->end() && (y == pops->end() || p->second->res < y->second->inv)) return false; }
            }
            s.push_back(o.arg); return true;
        }
        if (!o.res) { if (!s.empty()) s.pop_back(); return true; }
        if (s.empty()) return o.ret == empty;
        if (s.back() != o.ret) return false;
        s.pop_back();
        return true;
    }
    bool greedy(const HistOp &o) const {
        if (o.op == OP_PUSH || !o.res) return false;
        return s.empty() ? o.ret == empty : pops && s.back() == o.ret;
    }
    u64 hash() const { u64 h = 9; for (auto x : s) h = mx(h ^ (u64)x); return h; }
};
struct CState {
    int64_t st[64]; int n = 0; bool (*f)(int64_t *, int *, const HistOp *);
    bool step(const HistOp &o) { return f(st, &n, &o); }
    bool greedy(const HistOp &o) const { if (!o.res || o.op != OP_FIND) return false; CState c = *this; return c.step(o); }  // only reads: an update that changes nothing here may change something elsewhere
    u64 hash() const { u64 h = 11; for (int i = 0; i < n; i++) h = mx(h ^ (u64)st[i]); return h; }
};
static std::vector<HistOp *> of(int obj) { std::vector<HistOp *> v; for (int i = 0; i < hist_n; i++) if (hist[i].obj == obj) v.push_back(&hist[i]); return v; }

// Cheap necessary conditions first: they give readable messages and decide long histories.
static const char *conserve(std::vector<HistOp *> &v, int64_t empty, const char *what) {
    std::map<int64_t, long> put, got;
    for (auto o : v) { if (o->op == 0) put[o->arg]++; else if (o->res && o->ret != empty) got[o->ret]++; }
    for (auto &g : got) if (put[g.first] < g.second) {
        char b[200]; snprintf(b, sizeof b, "value %lld was taken from the %s %ld times but put in %ld times", (long long)g.first, what, g.second, put[g.first]);
        return bad(b);
    }
    return NULL;
}

// A complete history of a queue with distinct values is linearizable iff (Henzinger, Sezgin, Vafeiadis, CONCUR 2013)
// nothing is dequeued before it was enqueued or twice, no two values leave in the wrong order, and no dequeue answers
// "empty" although the queue was never empty while it ran.
static const char *queue_aspects(std::vector<HistOp *> &v, int64_t empty) {
    struct Val { HistOp *e = 0, *d = 0; };
    std::unordered_map<int64_t, Val> m;
    std::vector<HistOp *> em;
    char b[400];
    for (auto o : v) if (o->op == OP_ENQ) m[o->arg].e = o;
    for (auto o : v) if (o->op == OP_DEQ) {
        if (o->ret == empty) { em.push_back(o); continue; }
        auto &x = m[o->ret];
        if (x.d) { snprintf(b, sizeof b, "value %lld was dequeued twice (t%d and t%d)", (long long)o->ret, x.d->tid, o->tid); return bad(b); }
        x.d = o;
        if (o->res < x.e->inv) { snprintf(b, sizeof b, "value %lld was dequeued before it was enqueued", (long long)o->ret); return bad(b); }
    }
    std::vector<Val> w; for (auto &p : m) w.push_back(p.second);
    for (auto &x : w) for (auto &y : w) {
        if (&x == &y || !y.d || x.e->res >= y.e->inv) continue;
        if (!x.d || y.d->res < x.d->inv) {
            snprintf(b, sizeof b, "FIFO order violated: %lld was enqueued before %lld (responded at %llu, invoked at %llu) but %s", (long long)x.e->arg, (long long)y.e->arg,
                     (unsigned long long)x.e->res, (unsigned long long)y.e->inv, x.d ? "left after it" : "never left while the later one did");
            return bad(b);
        }
    }
    for (auto e : em) {
        // is [inv, res] covered by the times during which some value was certainly inside?
        u64 t = e->inv; bool moved = true;
        while (moved && t <= e->res) {
            moved = false;
            for (auto &x : w) { u64 out = x.d ? x.d->inv : ~0ULL; if (x.e->res < t && out > t) { t = out; moved = true; } }
        }
        if (t > e->res) { snprintf(b, sizeof b, "a dequeue of t%d [%llu,%llu] answered empty although the queue held a value all the time", e->tid, (unsigned long long)e->inv, (unsigned long long)e->res); return bad(b); }
    }
    return NULL;
}
static bool distinct_complete(std::vector<HistOp *> &v, int64_t empty) {
    std::unordered_set<int64_t> s;
    for (auto o : v) { if (!o->res) return false; if (o->op == 0 && (o->arg == empty || !s.insert(o->arg).second)) return false; }
    return true;
}

extern "C" {
const char *lin_queue(int obj, int64_t empty) {
    auto v = of(obj);
    if (const char *m = conserve(v, empty, "queue")) return m;
    if (distinct_complete(v, empty)) return queue_aspects(v, empty);
    QState s; s.empty = empty;
    return wing_gong(v, s, "FIFO queue");
}
const char *lin_stack(int obj, int64_t empty) {
    auto v = of(obj);
    if (const char *m = conserve(v, empty, "stack")) return m;
    SState s; s.empty = empty;
    std::unordered_map<int64_t, HistOp *> pops;
    if (distinct_complete(v, empty)) { for (auto o : v) if (o->op == OP_POP && o->ret != empty) pops[o->ret] = o; s.pops = &pops; }
    return wing_gong(v, s, "LIFO stack");
}
// A set of keys is a product of one-bit objects: linearizability is local, so each key is searched alone.
const char *lin_keys(int obj, bool (*step)(int64_t *, int *, const HistOp *)) {
    std::map<int64_t, std::vector<HistOp *>> by;
    for (auto o : of(obj)) by[o->arg >> 32].push_back(o);
    for (auto &p : by) {
        CState s; s.n = 64; s.f = step; memset(s.st, 0, sizeof s.st);
        if (const char *m = wing_gong(p.second, s, "set of keys (one key)")) return m;
    }
    return NULL;
}
const char *lin_custom(int obj, const char *what, const int64_t *init, int n, bool (*step)(int64_t *, int *, const HistOp *)) {
    auto v = of(obj);
    CState s; s.n = n; s.f = step; memset(s.st, 0, sizeof s.st);
    for (int i = 0; i < n; i++) s.st[i] = init[i];
    return wing_gong(v, s, what);
}
}
