#define _GNU_SOURCE
#include "nat.h"
#include <setjmp.h>
#include <stdarg.h>
#include <time.h>

static u64 rec[4096]; static int nrec, pos; static bool replaying;
static u64 rng;
static jmp_buf out_of_case;
static bool failed, trivial;
static char fkind[64], fmsg[1024], notes[2048];
static struct { const char *l; u64 n; } labels[64];

static u64 next(void) { u64 z = (rng += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
u64 nat_draw(void) {
    if (replaying) return pos < nrec ? rec[pos++] : 0;
    u64 v = next();
    if (nrec < 4096) rec[nrec++] = v;
    return v;
}
u64 nat_below(u64 n) { return n ? nat_draw() % n : 0; }
void nat_fail(const char *k, const char *f, ...) {
    va_list ap; va_start(ap, f); vsnprintf(fmsg, sizeof fmsg, f, ap); va_end(ap);
    snprintf(fkind, sizeof fkind, "%s", k);
    failed = true;
    longjmp(out_of_case, 1);
}
void nat_note(const char *f, ...) { size_t n = strlen(notes); va_list ap; va_start(ap, f); vsnprintf(notes + n, sizeof notes - n, f, ap); va_end(ap); }
void nat_label(const char *l) { for (int i = 0; i < 64; i++) { if (!labels[i].l) labels[i].l = l; if (!strcmp(labels[i].l, l)) { labels[i].n++; return; } } }
void nat_trivial(void) { trivial = true; }

static bool one(const NatScenario *s) {
    failed = trivial = false; notes[0] = 0; pos = 0;
    if (!setjmp(out_of_case)) s->run();
    return failed;
}
static u64 hash_case(void) { u64 h = 1469598103934665603ULL; for (int i = 0; i < nrec; i++) h = (h ^ rec[i]) * 1099511628211ULL; return h ^ (h >> 31); }
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); } else if (*s == '\n') fputs("\\n", f); else if (*s < 32 || *s > 126) fputc('?', f); else fputc(*s, f); } fputc('"', f); }
static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char **argv) {
    const char *sc = "", *outp = "", *variant = "", *replay = NULL;
    u64 seed = 1, worker = 0, n = 1000; double tmax = 1e9;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--scenario")) sc = argv[i + 1];
        else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--worker")) worker = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--n")) n = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--tmax")) tmax = atof(argv[i + 1]);
        else if (!strcmp(argv[i], "--out")) outp = argv[i + 1];
        else if (!strcmp(argv[i], "--variant")) variant = argv[i + 1];
        else if (!strcmp(argv[i], "--replay")) replay = argv[i + 1];
    }
    static char line[65536], scbuf[128];
    if (replay) {
        FILE *f = fopen(replay, "r");
        if (!f) return 3;
        while (fgets(line, sizeof line, f)) {
            if (sscanf(line, "scenario %127s", scbuf) == 1) sc = scbuf;
            if (!strncmp(line, "choices", 7)) for (char *p = line + 7; nrec < 4096;) { char *e; u64 v = strtoull(p, &e, 10); if (e == p) break; rec[nrec++] = v; p = e; }
        }
        fclose(f);
    }
    const NatScenario *s = nat_scenarios;
    while (s->name && strcmp(s->name, sc)) s++;
    if (!s->name) { fprintf(stderr, "no scenario %s\n", sc); return 3; }
    if (replay) {
        replaying = true;
        bool bad = one(s);
        printf("scenario %s: %s %s %s\n%s", sc, bad ? "FAILED:" : "held", fkind, fmsg, notes);
        return bad;
    }
    enum { HB = 1 << 22 };
    u64 *seen = calloc(HB, 8);
    u64 cases = 0, nontriv = 0, distinct = 0; bool bad = false; double t0 = now_s();
    char sample[1024] = "", vk[64] = "", vm[1024] = "";
    for (u64 i = 0; i < n; i++) {
        if ((i & 255) == 0 && now_s() - t0 > tmax) break;
        rng = seed * 0x2545F4914F6CDD1DULL + worker * 0xD1342543DE82EF95ULL + i * 0x9E3779B97F4A7C15ULL + 77; next();
        nrec = 0; replaying = false;
        bad = one(s);
        cases++;
        if (bad) break;
        if (!trivial) {
            nontriv++;
            u64 h = hash_case() | 1, k = h % HB; int tries = 0;
            while (seen[k] && seen[k] != h && tries++ < 64) k = (k + 1) % HB;
            if (!seen[k]) { seen[k] = h; distinct++; }
            if (!sample[0]) snprintf(sample, sizeof sample, "%s", notes);
        }
    }
    if (bad) {      // shrink: every choice towards zero, as long as the same kind of failure remains
        strcpy(vk, fkind); strcpy(vm, fmsg);
        replaying = true;
        for (int round = 0; round < 4; round++) {
            bool better = false;
            for (int i = 0; i < nrec; i++) {
                u64 old = rec[i], cand[6] = {0, 1, old % 16, old & 0xff, old & 0xffff, old >> 32};
                for (int c = 0; c < 6; c++) if (cand[c] < rec[i]) {
                    u64 keep = rec[i]; rec[i] = cand[c];
                    if (one(s) && !strcmp(fkind, vk)) { better = true; break; }
                    rec[i] = keep;
                }
            }
            if (!better) break;
        }
        one(s); strcpy(vm, fmsg);
        snprintf(line, sizeof line, "%s.case", outp);
        FILE *f = fopen(line, "w");
        fprintf(f, "variant %s\nscenario %s\nkind %s\nmessage %s\nchoices", variant, sc, vk, vm);
        for (int i = 0; i < nrec; i++) fprintf(f, " %llu", rec[i]);
        fprintf(f, "\n# The lines below only describe the case; the choices determine it.\n");
        for (char *p = strtok(notes, "\n"); p; p = strtok(NULL, "\n")) fprintf(f, "# %s\n", p);
        fclose(f);
    }
    snprintf(line, sizeof line, "%s.json", outp);
    FILE *f = outp[0] ? fopen(line, "w") : stdout;
    fprintf(f, "{\"cases\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"inconclusive\":0,\"steps\":0,\"switches\":0,\"labels\":{", cases, nontriv, distinct);
    for (int i = 0; i < 64 && labels[i].l; i++) { if (i) fputc(',', f); jstr(f, labels[i].l); fprintf(f, ":%llu", labels[i].n); }
    fprintf(f, "},\"inconclusive_why\":{},\"excluded\":{},\"rule\":"); jstr(f, s->rule);
    fprintf(f, ",\"samples\":["); if (sample[0]) jstr(f, sample);
    fprintf(f, "]");
    if (bad) { fprintf(f, ",\"violation\":{\"kind\":"); jstr(f, vk); fprintf(f, ",\"message\":"); jstr(f, vm); fprintf(f, "}"); }
    fprintf(f, "}\n");
    fclose(f);
    return bad;
}
