#!/usr/bin/env python3
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(H, "sim"))
from checks import CHECKS
NA = {
 "C21": "Pure arithmetic on values: no time, schedule, I/O, history or party for it to depend on, so a simulator has nothing to decide; it is covered indirectly because every codec oracle here uses independent field arithmetic.",
 "C22": "Pure functions of an array: nothing a simulated schedule, clock or fault could change. Exercised only inside the list-decoder worlds.",
 "C23": "A pure computation over design parameters, done once offline; no history, schedule or fault enters it.",
 "C24": "A pure template function; no concurrency, time, I/O or history enters it.",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
          "evidence_file": "evidence/%s.json" % i,
          "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and histories)",
          "level": "exploration",
          "level_note": c.get("note", "Seeded search: no violation on the runs explored, each exactly repeatable from its seed or replay file; absence of a violation is not a proof. Trusts the simulator kernel, the oracles in sim/ and clang.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build-all", "hooks": {"guard": "none", "enable": "no hooks in /repo: schedules are controlled through compiler-inserted coverage callbacks in the checks' own builds", "source_commits": []},
 "checks": checks, "not_applicable": na, "notes": "Replay a violation with: python3 check.py --replay <file>. Known findings and repairs: known_findings.txt."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
