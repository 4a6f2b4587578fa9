#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
DEFAULT_NOTE = "No violation in the generated cases; not a proof. Sequentially consistent interleavings only; bounded programs (usually up to 10 threads and a few dozen operations)."
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 vc/build.py",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks compile /repo's unmodified sources with clang -fsanitize=thread and link them against /verif/sim/engine.cpp in place of the sanitizer's runtime"},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 vc/check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 vc/check.py %s --tier thorough" % i,
                            "technique": c.get("technique", "property-based testing: generated programs, configurations and schedules in a deterministic simulator, judged by a linearizability oracle, with shrinking to a replay file"),
                            "level": "exploration", "level_note": c.get("note", DEFAULT_NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "the check is not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
