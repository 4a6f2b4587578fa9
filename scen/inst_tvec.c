/* Toggle vectors (tvec.h), compiled with the instrumentation because the code under test is in the header. */
#include "common.h"
#include <tvec.h>

enum { NV = 3, MAXBITS = 64 * 6 };
static uint64_t model_[NV][MAXBITS / 64];

static void compare_all(ToggleVector *v, int cells, int n, const char *after) {
    for (int a = 0; a < NV; a++)
        for (int i = 0; i < cells; i++) if (v[a].cell[i] != model_[a][i])
            sim_fail("wrong-bits", "after %s on vectors of %d bits: word %d of vector %d is %#llx instead of %#llx", after, n, i, a, (unsigned long long)v[a].cell[i], (unsigned long long)model_[a][i]);
}
SCENARIO(tvec_model, "vectors of more than 64 bits, or at least 8 operations") {
    int n = SIM_PICK(8, 1, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300);
    sim_set_malloc_fill(0xa5);
    sim_set_topology(4, 1, TOPO_BLOCK);
    ToggleVector v[NV];
    int cells = 0, need = (n + 63) / 64;
    memset(model_, 0, sizeof model_);
    for (int a = 0; a < NV; a++) {
        memset(&v[a], 0x5a, sizeof v[a]);
        if (sim_draw(2)) TVEC_INIT(&v[a], n);
        else TVEC_INIT_AT(&v[a], n, sim_alloc_fill(_TVEC_VECTOR_SIZE(n), 0xa5));
        cells = v[a].tvec_cells;
        if (cells < need || cells > need + 1) sim_fail("wrong-bits", "a vector of %d bits has %d words", n, cells);
        if (!sim_range_ok(v[a].cell, cells * 8)) sim_fail("memory", "the words of a vector of %d bits are not all in its memory", n);
    }
    compare_all(v, cells, n, "initialisation");
    int nops = sim_range(1, 30);
    char what[64];
    for (int i = 0; i < nops; i++) {
        int a = sim_draw(NV), b = sim_draw(NV), c = sim_draw(NV), bit = sim_draw(2) ? sim_draw(n) : sim_draw(2) ? n - 1 : SIM_PICK(0, 63, 64, 31, 32, 65) % n;
        int bank = TVEC_GET_BANK_OF_BIT(bit, n);
        uint64_t *m = model_[a], *mb = model_[b], *mc = model_[c];
        if (bank != bit / 64) sim_fail("wrong-bits", "bit %d of a vector of %d bits is said to be in word %d", bit, n, bank);
        int op = sim_draw(15);
        snprintf(what, sizeof what, "operation %d (a=%d b=%d c=%d bit=%d)", op, a, b, c, bit);
        sim_note("%s", what);
        switch (op) {
        case 0: TVEC_SET_BIT(&v[a], bit); m[bit / 64] |= 1ULL << bit % 64; break;
        case 1: TVEC_REVERSE_BIT(&v[a], bit); m[bit / 64] ^= 1ULL << bit % 64; break;
        case 2: { int r = TVEC_IS_SET(&v[a], bit); if (r != (int)(m[bit / 64] >> bit % 64 & 1)) sim_fail("wrong-bits", "bit %d of a vector of %d bits is reported as %d", bit, n, r); break; }
        case 3: TVEC_OR(&v[a], &v[b], &v[c]); for (int k = 0; k < cells; k++) m[k] = mb[k] | mc[k]; break;
        case 4: TVEC_AND(&v[a], &v[b], &v[c]); for (int k = 0; k < cells; k++) m[k] = mb[k] & mc[k]; break;
        case 5: TVEC_XOR(&v[a], &v[b], &v[c]); for (int k = 0; k < cells; k++) m[k] = mb[k] ^ mc[k]; break;
        case 6: if (a != b) { TVEC_COPY(&v[a], &v[b]); memcpy(m, mb, cells * 8); } break;
        case 7: TVEC_NEGATIVE(&v[a], &v[b]); for (int k = 0; k < cells; k++) m[k] = -mb[k]; break;
        case 8: TVEC_SET_ZERO(&v[a]); memset(m, 0, cells * 8); break;
        case 9: { int r = TVEC_COUNT_BITS(&v[a]), w = 0; for (int k = 0; k < cells; k++) w += __builtin_popcountll(m[k]); if (r != w) sim_fail("wrong-bits", "%d bits counted instead of %d, vector of %d bits", r, w, n); break; }
        case 10: TVEC_XOR_BANKS(&v[a], &v[b], &v[c], bank); m[bank] = mb[bank] ^ mc[bank]; break;
        case 11: TVEC_AND_BANKS(&v[a], &v[b], &v[c], bank); m[bank] = mb[bank] & mc[bank]; break;
        case 12: TVEC_NEGATIVE_BANK(&v[a], &v[b], bank); m[bank] = -mb[bank]; break;
        case 13: TVEC_ATOMIC_COPY_BANKS(&v[a], &v[b], bank); m[bank] = mb[bank]; break;
        case 14: TVEC_ATOMIC_ADD_BANK(&v[a], &v[b], bank); m[bank] += mb[bank]; break;
        }
        compare_all(v, cells, n, what);
        for (int k = 0; k < cells; k++) if (m[k]) {
            int f = synchBitSearchFirst(v[a].cell[k]);
            if (f != __builtin_ctzll(m[k])) sim_fail("wrong-bits", "the first bit of %#llx is said to be %d", (unsigned long long)m[k], f);
            int nz = synchNonZeroBits(v[a].cell[k]);
            if (nz != __builtin_popcountll(m[k])) sim_fail("wrong-bits", "%#llx is said to have %d bits", (unsigned long long)m[k], nz);
        }
    }
    if (n > 64 || nops >= 8) sim_nontrivial();
}

/* each thread toggles its own bit of a shared vector by adding plus or minus that bit, as the Sim family does */
static ToggleVector shared;
static int T_n, t_pid[32], t_rounds[32], t_n;
static void *toggler(void *arg) {
    int i = (int)(long)arg, pid = t_pid[i], bank = TVEC_GET_BANK_OF_BIT(pid, T_n);
    ToggleVector my;
    TVEC_INIT_AT(&my, T_n, sim_alloc(_TVEC_VECTOR_SIZE(T_n)));
    TVEC_SET_BIT(&my, pid);
    for (int r = 0; r < t_rounds[i]; r++) {
        TVEC_ATOMIC_ADD_BANK(&shared, &my, bank);
        TVEC_NEGATIVE(&my, &my);
        think(r % 3);
        if (TVEC_IS_SET(&shared, pid) != !(r & 1)) sim_fail("lost-toggle", "thread %d of %d: its bit is %d after %d toggles", pid, T_n, TVEC_IS_SET(&shared, pid), r + 1);
    }
    return NULL;
}
SCENARIO(tvec_toggle, "at least two threads toggled bits of the same word") {
    T_n = SIM_PICK(4, 2, 8, 64, 65, 70, 128, 130, 200);
    sim_set_topology(8, 1, TOPO_BLOCK);
    memset(&shared, 0, sizeof shared);
    TVEC_INIT(&shared, T_n);
    t_n = sim_range(1, T_n < 8 ? T_n : 8);
    bool same = false;
    for (int i = 0; i < t_n; i++) {
        again:
        t_pid[i] = sim_draw(3) ? sim_draw(T_n) : T_n - 1 - sim_draw(T_n < 4 ? T_n : 4);
        for (int j = 0; j < i; j++) while (t_pid[j] == t_pid[i]) { t_pid[i] = (t_pid[i] + 1) % T_n; j = 0; }
        for (int j = 0; j < i; j++) if (t_pid[j] == t_pid[i]) goto again;
        for (int j = 0; j < i; j++) if (t_pid[j] / 64 == t_pid[i] / 64) same = true;
        t_rounds[i] = sim_range(1, 6);
    }
    sim_note("%d threads toggle bits of %d", t_n, T_n);
    for (int i = 0; i < t_n; i++) sim_spawn(toggler, (void *)(long)i);
    sim_join_all();
    for (int p = 0; p < T_n; p++) {
        int want = 0;
        for (int i = 0; i < t_n; i++) if (t_pid[i] == p) want = t_rounds[i] & 1;
        if (TVEC_IS_SET(&shared, p) != want) sim_fail("lost-toggle", "bit %d of %d is %d in the end, not %d", p, T_n, !want, want);
    }
    if (same) sim_nontrivial();
}
