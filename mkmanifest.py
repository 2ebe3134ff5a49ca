#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
from props import PROPS
NA = {
    "C12": "Pure function of its argument: no schedule, clock, I/O or fault can change the result, so simulation would only be random testing of inputs. What simulation can decide about these functions - that they give the same bits in every build, history and interleaving - is claimed in C06 and C08.",
    "C13": "Compile-time constants with no execution to simulate; that they are the same bits in every build and after every history is part of C08.",
    "C14": "A property of programs that do not compile: there is no execution to simulate. The run-time behaviour of the same grammar is decided in C05 and C11.",
}
checks, na = [], []
for ln in open("properties.jsonl"):
    pid = json.loads(ln)["id"]
    if pid in PROPS:
        p = PROPS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences, " + p["oracle"],
            "level": p["level"],
            "level_note": p.get("note", "No violation in the seeded runs counted in the evidence; not exhaustive.") + " Assumes: " + "; ".join(p["assumptions"]) + ".",
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "Check not built yet.")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam the simulator needs already exists (stream buffers, iterators, allocators, generators) or is provided at build time from /verif. "
              "Replay: python3 check.py --replay <file>."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
