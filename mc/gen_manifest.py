#!/usr/bin/env python3
"""Rewrite /verif/MANIFEST.json from harnesses.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
HARNESS = {}
def H(pid, src, kind="seq", ffpack=False, cap=(240, 850), level="model_checking", extra=None, shards=8, note="", tech=None):
    HARNESS[pid] = dict(kind=kind, level=level, note=note, tech=tech)
exec(open(os.path.join(HERE, "harnesses.py")).read())
TECH = {"fast": "explicit-state bounded model checking of the real code: exhaustive enumeration of positions of the observed rows around 2^31 and 2^32 x operations, on aliased memory, compared with a reference model",
        "seq": "explicit-state bounded model checking of the real code: exhaustive enumeration of all executions of an indexed input/option/environment space, each step compared with a reference model",
        "sched": "stateless model checking of the real code: preemption-bounded exhaustive schedule exploration under a controlled scheduler",
        "tools": "explicit-state bounded model checking of the command-line programs: exhaustive enumeration of invocations over a small alphabet, compared with a reference model"}
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in HARNESS:
        h = HARNESS[pid]
        checks.append({"property": pid, "quick_cmd": "python3 mc/run.py check %s" % pid, "thorough_cmd": "python3 mc/run.py check %s --tier thorough" % pid,
                       "technique": h["tech"] or TECH[h["kind"]], "level": h["level"],
                       "level_note": h["note"] or "bounds and assumptions are listed per check in DESIGN.md and in the evidence file"})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 mc/run.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
