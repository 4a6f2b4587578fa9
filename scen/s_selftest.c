/* A self-test of the engine, used by no check: with store buffers the outcome 0,0 of the two-store litmus test appears exactly without fences. */
#include "common.h"
static int64_t *x, *y; static int64_t r[2];
void simhook_mfence_(void);
static int fence;
static void *b0(void *a) { sim_wr(x, 1); if (fence) simhook_mfence_(); r[0] = sim_rd(y); think(9); return 0; }
static void *b1(void *a) { sim_wr(y, 1); if (fence) simhook_mfence_(); r[1] = sim_rd(x); think(9); return 0; }
static void *c0(void *a) { sim_wr(x, 1); sim_wr(y, 1); if (sim_rd(x) != 1 || sim_rd(y) != 1) sim_fail("own", "own stores not seen"); sim_wr(y, 2); if (sim_rd(y) != 2) sim_fail("own", "own"); return 0; }
static void *c1(void *a) { r[0] = sim_rd(y); r[1] = sim_rd(x); think(9); return 0; }
SCENARIO(litmus, "-") {
    x = sim_alloc(8); y = sim_alloc(8); *x = *y = 0;
    int which = sim_draw(2), on = sim_draw(2); fence = sim_draw(2);
    if (on) sim_store_buffers(SIM_PICK(5, 30, 200));
    sim_spawn(which ? c0 : b0, 0); sim_spawn(which ? c1 : b1, 0); sim_join_all(); sim_store_buffers(0);
    char l[60];
    if (which) { if (r[0] && !r[1]) sim_fail("mp", "stores out of order"); if (*y != 2 || *x != 1) sim_fail("fin", "final"); }
    else { snprintf(l, sizeof l, "on=%d fence=%d r=%d%d", on, fence, (int)r[0], (int)r[1]); sim_label(l); }
}

/* The oracles against a plain search over all orders, on small generated histories of which about half are wrong. */
static HistOp *H_[12]; static int Hn, Hq; static uint32_t all_done;
static bool brute(uint32_t done, const int64_t *st, int n) {
    bool rest = false;
    for (int i = 0; i < Hn; i++) if (!(done >> i & 1) && H_[i]->res) rest = true;
    if (!rest) return true;
    for (int i = 0; i < Hn; i++) {
        if (done >> i & 1) continue;
        bool can = true;
        for (int j = 0; j < Hn; j++) if (j != i && !(done >> j & 1) && H_[j]->res && H_[j]->res < H_[i]->inv) can = false;
        if (!can) continue;
        int64_t s2[16]; int m = n;
        for (int k = 0; k < n; k++) s2[k] = st[k];
        if (H_[i]->op == 0) s2[m++] = H_[i]->arg;
        else {
            int64_t got = n ? (Hq ? s2[0] : s2[n - 1]) : EMPTY_VAL;
            if (H_[i]->res && H_[i]->ret != got) continue;
            if (n) { if (Hq) for (int k = 0; k + 1 < n; k++) s2[k] = s2[k + 1]; m--; }
        }
        if (brute(done | 1u << i, s2, m)) return true;
    }
    return false;
}
SCENARIO(oracle_self, "at least four operations") {
    int nt = sim_range(1, 4), left[4], cur[4], total = 0;
    bool dup = sim_chance(20), pend = sim_chance(30);
    Hq = sim_draw(2);
    for (int t = 0; t < nt; t++) { left[t] = sim_range(1, 3); cur[t] = -1; total += left[t]; }
    int64_t st[32]; int n = 0, val = 100; bool lin[64] = {0}; int64_t res[64];
    for (int steps = 0; steps < 80; steps++) {
        int t = sim_draw(nt);
        if (cur[t] < 0) {
            if (!left[t]--) { left[t] = 0; continue; }
            int op = sim_draw(2);
            cur[t] = hist_begin(t, 0, op, op ? 0 : dup ? sim_range(1, 2) : ++val);
            continue;
        }
        HistOp *h = &hist[cur[t]];
        if (!lin[cur[t]]) {
            lin[cur[t]] = true;
            if (h->op == 0) { st[n++] = h->arg; res[cur[t]] = 0; }
            else if (!n) res[cur[t]] = EMPTY_VAL;
            else { res[cur[t]] = Hq ? st[0] : st[n - 1]; if (Hq) for (int k = 0; k + 1 < n; k++) st[k] = st[k + 1]; n--; }
            if (sim_draw(2)) continue;
        }
        if (pend && sim_chance(20)) { cur[t] = -1; left[t] = 0; continue; }
        int64_t r = res[cur[t]];
        if (h->op && sim_chance(12)) r = sim_draw(2) ? EMPTY_VAL : dup ? sim_range(1, 2) : sim_range(101, 101 + total);
        hist_end(cur[t], r);
        cur[t] = -1;
    }
    Hn = hist_n;
    if (Hn > 12) return;
    for (int i = 0; i < Hn; i++) { H_[i] = &hist[i]; if (H_[i]->res == 0 && !pend) {} }
    bool want = brute(0, NULL, 0);
    const char *got = Hq ? lin_queue(0, EMPTY_VAL) : lin_stack(0, EMPTY_VAL);
    if (got && got[0] == '?') sim_fail("oracle", "undecided: %s", got);
    if (want != !got) sim_fail("oracle", "%s history: the search over all orders says %s, the oracle says %s", Hq ? "queue" : "stack", want ? "fine" : "wrong", got ? got : "fine");
    if (Hn >= 4) sim_nontrivial();
    sim_label(Hq ? want ? "queue, linearizable" : "queue, not linearizable" : want ? "stack, linearizable" : "stack, not linearizable");
}
