#!/usr/bin/env python3
"""mutate.py FILE N [SEED]: development aid. Makes N random small changes to a scratch copy of /repo/libconcurrent/FILE, one at a
time, runs the checks that should notice, and lists the survivors (equivalent changes, or gaps in the checks)."""
import os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "ccsynch.c": "C01 C12 C13 C23 C32", "dsmsynch.c": "C01 C12 C13 C23 C32", "hsynch.c": "C02 C12 C13 C23 C32", "osci.c": "C03 C12 C13 C23 C32",
    "fc.c": "C04 C12 C13 C23", "oyama.c": "C04 C12 C13 C23", "sim.c": "C05 C14 C23 C32", "lfuobject.c": "C05 C15 C23", "simqueue.c": "C07 C14 C23 C16 C32",
    "msqueue.c": "C07 C15 C23 C16", "lcrq.c": "C07 C15 C16 C23", "simstack.c": "C09 C14 C24 C23 C16", "lfstack.c": "C09 C15 C23", "clh.c": "C10 C12 C11 C23",
    "mcs.c": "C10 C12 C23", "clhhash.c": "C11 C16 C24 C23", "dsmhash.c": "C11 C16 C24 C23", "barrier.c": "C17 C18 C12", "threadtools.c": "C18 C20 C17 C12",
    "uthreads.c": "C19 C23", "pool.c": "C21 C24", "primitives.c": "C26 C22 C29 C31", "fastrand.c": "C27", "backoff.c": "C28", "backoff.h": "C28",
    "tvec.h": "C29 C05 C14", "bench_args.c": "C30", "stats.c": "C31", "queue-stack.h": "C06 C08 C16",
}
MAP.update({"sim.h": "C05 C14 C23", "simqueue.h": "C07 C23", "simstack.h": "C09 C23", "pool.h": "C21", "primitives.h": "C26 C22 C29 C12", "types.h": "C05 C23", "hsynch.h": "C02 C23 C12", "osci.h": "C03 C23", "ccsynch.h": "C01 C23",
            "dsmsynch.h": "C01 C23", "fc.h": "C04 C23", "oyama.h": "C04 C23", "lcrq.h": "C07 C23", "barrier.h": "C17", "uthreads.h": "C19", "fastrand.h": "C27", "mcs.h": "C10", "clh.h": "C10", "threadtools.h": "C20 C18"})
for f in "ccqueue dsmqueue hqueue osciqueue fcqueue".split(): MAP[f + ".c"] = "C06 C16 C24 C23 C25"
for f in "ccstack dsmstack hstack oscistack fcstack".split(): MAP[f + ".c"] = "C08 C16 C24 C23 C25"
SKIP = re.compile(r"Fence|Prefetch|->counter|->rounds|synchPause|^\s*(//|\*|/\*|#|inline|static|extern|typedef|\}|\{)|^\s*$|fprintf|printf|DEBUG|@")
OPS = [(r"(?<![<>=!-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![->=])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r"\+ 1\b", "+ 2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"<< 1\b", "<< 0"), (r">> 1\b", ">> 2"), (r"\+=", "-="), (r"-=", "+="),
       (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\bNULL\b", "((void *)8)"), (r"->head\b", "->tail"), (r"\bif \(", "if (!"), (r"%", "/"), (r" \| ", " & "), (r" & ", " | "), (r"\+\+", "--"),
       (r"\bu?int64_t\b", "int32_t"), (r"\blong\b", "int"), (r"\bsize_t\b", "uint32_t"), (r"\buint32_t\b", "uint8_t"), (r"\bbool\b", "char"), (r"\bvolatile ", ""),
       (r"\(([^()]*|[^()]*\([^()]*\)[^()]*) && ", "("), (r" && [^&|{]*\) \{?$", ") {"), (r" \|\| [^&|{]*\) ?\{?$", ") {"), (r"\b10\b", "1000"), (r"\b10\b", "0")]


def mutants(lines, rng):
    out = []
    for i, l in enumerate(lines):
        if SKIP.search(l):
            continue
        for rx, new in OPS:
            for m in re.finditer(rx, l.split("//")[0]):
                out.append((i, l[:m.start()] + new + l[m.end():]))
        s = l.split("//")[0].strip()
        if s.endswith(";") and not re.match(r"(return|break|continue|goto|[a-zA-Z_0-9]+ \*?[a-zA-Z_0-9]+( =|;|,|\[)|volatile|int|struct|register|const)", s):
            out.append((i, ""))
        if i + 1 < len(lines) and s.endswith(";") and lines[i + 1].split("//")[0].strip().endswith(";") and not SKIP.search(lines[i + 1]) and not s.startswith("return"):
            out.append((i, "SWAP"))
        for k in (2, 3, 5):                 # a statement moves down
            if i + k < len(lines) and s.endswith(";") and all(lines[j].split("//")[0].strip().endswith(";") for j in range(i, i + k + 1)) and not SKIP.search(l) and not s.startswith("return"):
                out.append((i, "MOVE%d" % k))
    rng.shuffle(out)
    return out


def main():
    name, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    only = sys.argv[4].split(",") if len(sys.argv) > 4 else None
    tree = os.environ.get("MUT_TREE", "/tmp/mut/tree")
    shutil.rmtree(tree, ignore_errors=True)
    os.makedirs(tree)
    shutil.copytree("/repo/libconcurrent", tree + "/libconcurrent", ignore=shutil.ignore_patterns("*.o", "*.a", "*.so"))
    path = subprocess.check_output(["find", tree + "/libconcurrent", "-name", name], text=True).split()[0]
    orig = open(path).read()
    lines = orig.split("\n")
    rng = random.Random(seed)
    env = dict(os.environ, VERIF_REPO=tree, VERIF_OUT="/tmp/mut/out")
    checks = only or MAP[name].split()
    got = done = 0
    for i, new in mutants(lines, rng):
        if done >= n:
            break
        ls = list(lines)
        if new == "SWAP":
            ls[i], ls[i + 1] = ls[i + 1], ls[i]
            desc = "swap with the next line: " + lines[i].strip()
        elif new.startswith("MOVE"):
            k = int(new[4:])
            ls[i:i + k + 1] = ls[i + 1:i + k + 1] + [ls[i]]
            desc = "moved down by %d: %s" % (k, lines[i].strip())
        else:
            ls[i] = new
            desc = "%s  ==>  %s" % (lines[i].strip(), new.strip() or "(deleted)")
        open(path, "w").write("\n".join(ls))
        hit = None
        for c in checks:
            p = subprocess.run([sys.executable, V + "/vc/check.py", c, "--scale", os.environ.get("SCALE", "0.1")], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode == 3:
                hit = "nobuild"
                break
            if p.returncode == 1:
                hit = c
                break
            if p.returncode != 0:
                hit = "EXIT%d in %s: %s" % (p.returncode, c, p.stdout[-300:])
                break
        if hit == "nobuild":
            continue
        done += 1
        if hit and not hit.startswith("EXIT"):
            got += 1
        else:
            print("%s:%d SURVIVED %s\n    %s" % (name, i + 1, hit or "", desc), flush=True)
    print("%s: %d of %d noticed" % (name, got, done), flush=True)


main()
