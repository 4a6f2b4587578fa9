#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--seed N]
Decides one property: builds the simulator from /repo's working tree, generates cases, replays and shrinks failures,
writes evidence/<ID>.json. Exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import argparse, glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS, ASSUMPTIONS

VERIF = build.VERIF
WORKERS = 8
EVID = os.path.join(os.environ.get("VERIF_OUT", VERIF), "evidence")


def known_findings(prop):
    """lines 'open: property=C00 match=<regex over "scenario | kind | message"> -- <what fails>'"""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"open: property=(\S+) match=/(.*?)/ -- (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


CRASH = (4, 5, 6, 7, 8, 11)     # signals by which a broken library can take the whole simulator with it


def run_worker(binary, variant, scenario, seed, worker, n, tmax, out):
    cmd = [binary, "--scenario", scenario, "--seed", str(seed), "--worker", str(worker), "--n", str(n),
           "--tmax", str(tmax), "--out", out, "--variant", variant]
    for attempt in range(2):
        for suf in (".json", ".case"):
            if os.path.exists(out + suf):
                os.unlink(out + suf)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode in (0, 1) and os.path.exists(out + ".json"):
            return p.returncode, json.load(open(out + ".json")), p.stdout
    return p.returncode, None, p.stdout


def replay_once(binary, path):
    p = subprocess.run([binary, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def case_field(path, name):
    for line in open(path, errors="replace"):
        if line.startswith(name + " "):
            return line[len(name) + 1:].strip()
    return ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    chk = CHECKS[a.prop]
    t0 = time.time()

    if a.replay:
        variant = case_field(a.replay, "variant") or "default"
        if case_field(a.replay, "kind") == "process-crash":
            w, n, seed = (int(case_field(a.replay, k)) for k in ("worker", "n", "seed"))
            rc, js, out = run_worker(build.build_any(variant), variant, case_field(a.replay, "scenario"), seed, w, n, 400, a.replay + ".tmp")
            if js is None and -rc in CRASH:
                print("the simulated program crashed with signal %d" % -rc)
                print("VIOLATION property=%s replay=%s" % (a.prop, os.path.abspath(a.replay)))
                return 1
            return 0
        rc, out = replay_once(build.build_any(variant), a.replay)
        sys.stdout.write(out)
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (a.prop, os.path.abspath(a.replay)))
        return rc

    variants = sorted(set(v for _, v, _ in chk["tasks"]))
    bins = {v: build.build_any(v) for v in variants}
    tb = time.time() - t0
    tmpdir = os.path.join(VERIF, ".build", "run", "%s.%d" % (a.prop, os.getpid()))
    os.makedirs(tmpdir, exist_ok=True)
    mult = (25.0 if a.tier == "thorough" else 1.0) * a.scale
    cap = 2400.0 if a.tier == "thorough" else 400.0        # wall clock limit of all the tasks together
    jobs = []
    for (scenario, variant, n) in chk["tasks"]:
        per = max(1, int(n * mult) // WORKERS)
        for w in range(WORKERS):
            jobs.append((scenario, variant, w, per))
    results, broken = [], []
    stop = []

    def go(job):
        scenario, variant, w, per = job
        left = cap - (time.time() - t0)
        if stop or left < 1:
            return None
        out = os.path.join(tmpdir, "%s.%s.%d" % (scenario, variant, w))
        rc, js, text = run_worker(bins[variant], variant, scenario, a.seed, w, per, left, out)
        if rc == 1:
            stop.append(1)
        return (job, rc, js, text, out + ".case")

    with ThreadPoolExecutor(WORKERS) as ex:
        for r in ex.map(go, jobs):
            if r:
                (broken if r[2] is None else results).append(r)

    # ---- judge the failures
    known = known_findings(a.prop)
    violation, unconfirmed, known_hits = None, 0, {}
    for job, rc, js, text, case in results:
        if rc != 1:
            continue
        desc = "%s | %s | %s" % (job[0], js["violation"]["kind"], js["violation"]["message"])
        hit = [w for rx, w in known if rx.search(desc)]
        if hit:
            known_hits[hit[0]] = known_hits.get(hit[0], 0) + 1
            continue
        ok = os.path.exists(case) and all(replay_once(bins[job[1]], case)[0] == 1 for _ in range(3))
        if not ok:
            # does not replay on its own: is it at least what this worker deterministically finds?
            rc2, js2, _ = run_worker(bins[job[1]], job[1], job[0], a.seed, job[2], job[3], cap, os.path.join(tmpdir, "again"))
            ok = rc2 == 1 and js2["violation"]["kind"] == js["violation"]["kind"]
        if not ok:
            unconfirmed += 1
            continue
        if violation is None:
            dst = os.path.join(EVID, "replay-%s-%s.case" % (a.prop, job[0]))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(case, dst)
            violation = (dst, desc)

    for job, rc, js, text, case in broken:
        if -rc in CRASH and violation is None:      # twice, deterministically: memory was corrupted beyond what the simulator can contain
            dst = os.path.join(EVID, "replay-%s-%s.case" % (a.prop, job[0]))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst, "w") as f:
                f.write("variant %s\nscenario %s\nkind process-crash\nworker %d\nn %d\nseed %d\n" % (job[1], job[0], job[2], job[3], a.seed))
            violation = (dst, "%s | process-crash | the simulated program crashed with signal %d" % (job[0], -rc))

    # ---- evidence
    agg = {"labels": {}, "inconclusive_why": {}, "excluded": {}}
    tot = {k: 0 for k in ("cases", "nontrivial", "distinct", "inconclusive", "steps", "switches")}
    per_task, samples, rules = {}, [], []
    for job, rc, js, text, case in results:
        for k in tot:
            tot[k] += js[k]
        for g in agg:
            for k, v in js[g].items():
                agg[g][k] = agg[g].get(k, 0) + v
        t = per_task.setdefault("%s/%s" % job[:2], {"cases": 0, "nontrivial": 0, "distinct_nontrivial": 0, "steps": 0, "rule": js["rule"]})
        t["cases"] += js["cases"]
        t["nontrivial"] += js["nontrivial"]
        t["distinct_nontrivial"] += js["distinct"]
        t["steps"] += js["steps"]
        if js["samples"] and not any(s.startswith(job[0] + "/" + job[1]) for s in samples):
            samples.append("%s/%s worker %d: %s" % (job[0], job[1], job[2], js["samples"][0]))
        if js["rule"] not in rules:
            rules.append(js["rule"])
    for what in agg["excluded"]:
        known_hits.setdefault(what, 0)
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["cases"], "distinct_nontrivial": tot["distinct"],
            "rule": "Each case draws a configuration and a program from a recorded choice stream and a schedule from a recorded "
                    "scheduler (5-6 policies), and runs the library's code under both. Distinct: hash of choices and schedule. "
                    "Non-trivial: " + "; or ".join(rules) + ".",
            "samples": samples[:6],
            "nontrivial": tot["nontrivial"], "inconclusive": tot["inconclusive"],
            "scheduling_points": tot["steps"], "context_switches": tot["switches"],
            "per_task": per_task, "labels": agg["labels"], "inconclusive_why": agg["inconclusive_why"],
            "excluded_because_of_known_findings": agg["excluded"],
            "unconfirmed_failures": unconfirmed, "build_s": round(tb, 2),
        },
        "assumptions": ASSUMPTIONS + chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
    print("%s %s: %d cases, %d distinct non-trivial, %d inconclusive, %.1fM scheduling points, %.1f s" %
          (a.prop, a.tier, tot["cases"], tot["distinct"], tot["inconclusive"], tot["steps"] / 1e6, time.time() - t0))
    if violation:
        print(violation[1])
        print("VIOLATION property=%s replay=%s" % (a.prop, violation[0]))
        shutil.rmtree(tmpdir, ignore_errors=True)
        return 1
    if broken:
        for job, rc, js, text, case in broken[:2]:
            print("worker %s failed with %s:\n%s" % (job, rc, text[-2000:]))
        return 2
    shutil.rmtree(tmpdir, ignore_errors=True)
    if unconfirmed:
        print("note: %d failures did not replay and were not reported" % unconfirmed)
    if tot["cases"] == 0 or tot["inconclusive"] * 2 > tot["cases"]:
        print("too little was decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
