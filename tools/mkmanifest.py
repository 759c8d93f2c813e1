#!/usr/bin/env python3
# Writes MANIFEST.json from the table of checks (run: python3 tools/mkmanifest.py)
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.table import TABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "N01": "A pure function of the field and the point: no schedule, clock, I/O or fault can change it, so simulation would only be random input testing. (What does depend on I/O and threads - loading, saving and cloning fields - is F01, F02 and T03.)",
 "N02": "Pure geometry of its arguments; nothing a simulator controls influences the result. (The bounds of the domain after changes and cloning are part of T03.)",
 "N03": "Accuracy of a numerical scheme for given input; no environment to simulate. (Its memory requests are injected in M01.)",
 "N04": "Algebra on values; no environment to simulate.",
 "N05": "Pure text-to-value conversion; no environment to simulate. (That the text itself arrives complete and is parsed to the right tree is C01 and C02.)",
 "N06": "Closed formulas of their arguments; no environment to simulate. (Cloning and evaluating them from threads is T04.)",
 "N07": "Pure numerical functions; no environment to simulate. (That pixels reach the image file is I01.)",
}
LVL = {
 "exploration": "Seeded search: every simulated execution is repeatable from its seed and the property is judged in each one, but executions not drawn are not covered. ",
 "fault_enumeration": "Seeded search over crash, truncation and damage points: each is repeatable from its seed, points not drawn are not covered. ",
}
checks = []
for i in ids:
    if i in TABLE:
        t = TABLE[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": t.get("technique", "deterministic simulation with fault injection: seeded search over operation histories and disk faults"),
            "level": t["level"], "level_note": LVL[t["level"]] + "Assumes: " + "; ".join(t["assume"]) + "."})
na = [{"property": i, "reason": NA.get(i, "not built yet")} for i in ids if i not in TABLE]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "No hooks were added to /repo. The checks compile its unmodified sources with compiler instrumentation and interpose on libc from the simulator's executable.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Every check builds the simulator from /repo's working tree (cached in build/ by content)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
