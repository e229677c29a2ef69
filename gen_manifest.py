#!/usr/bin/env python3
"""Writes MANIFEST.json from the harnesses present and the table below."""
import json, os, glob
V = os.path.dirname(os.path.abspath(__file__))
SCHED = "stateless exploration of the real code under a controlled OpenMP scheduler (all interleavings up to a preemption bound), results compared with a sequential reference"
SEQ = "exhaustive enumeration of inputs and operation sequences on the real code against a reference model, every memory access monitored"
T = {
 "C01": SCHED, "C02": SCHED, "C03": SCHED, "C04": SCHED, "C05": SCHED,
 "C06": "exhaustive enumeration of all symmetric patterns up to a size on the real code, schedule validity checked on each",
 "C07": SCHED, "C08": SEQ + " (all operation histories up to a depth)", "C09": SEQ + " (operator life cycles and interleaved pairs of operators)",
 "C10": SCHED, "C11": SCHED, "C12": SEQ, "C13": SEQ + " (all histories of storage operations up to a depth, ownership model in lock step)",
 "C14": SEQ + " (all files of a grammar up to a size)", "C15": SEQ, "C16": SCHED, "C17": "exhaustive enumeration of all patterns up to a size on the real code",
 "C18": SCHED, "C19": SEQ, "C20": SCHED, "C21": SCHED, "C22": SEQ + " (full option product)", "C23": SCHED, "C24": SEQ, "C25": SEQ + " (all call histories up to a depth against a model of the life cycle)",
 "C26": SEQ + " and a fault injected at every PETSc call",
}
COMMON = ("Exhaustive within the stated bounds (matrix sizes, patterns, threads, preemptions), on the real library code recompiled from the working tree. "
          "Trusts: the controlled OpenMP runtime (mc/mc.cpp) and gcc's thread-sanitizer instrumentation points, sequentially consistent memory, the reference model in harness/ref.hpp. ")
N = {
 "C01": "Exactness is claimed under the bounded-delay model (no thread more than D=0 or 1 sweep ahead); fixed-point invariance without any bound.",
 "C02": "Exactness under bounded delay D=0,1; single sweeps checked row by row with unbounded delay on triangular factors.",
 "C03": "Exactness under bounded delay D=0,1; single backward sweeps checked row by row with unbounded delay.",
 "C04": "Fixed point and one-sweep explanations under every schedule; exact values with one thread and, under bounded delay, for triangular matrices.",
 "C26": "The PETSc library is replaced by a small stand-in implementing the calls the readers make.",
 "C25": "The PETSc library is replaced by a small stand-in implementing the calls the interface makes; private PETSc headers are not installed here.",
}
NA = json.load(open(V + "/not_applicable.json")) if os.path.exists(V + "/not_applicable.json") else []
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if not os.path.exists(V + "/harness/%s.cpp" % p): 
        if not any(x["property"] == p for x in NA): NA.append({"property": p, "reason": "check not built yet"})
        continue
    checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check %s --tier thorough" % p,
                   "technique": "model checking: " + T[p], "level": "model_checking", "level_note": COMMON + N.get(p, "")})
m = {"version": 1, "setup_cmd": "python3 -c \"import os; os.makedirs('build', exist_ok=True)\"", "checks": checks, "not_applicable": NA,
     "notes": "./check <id> [--tier thorough] [--replay FILE]; see DESIGN.md"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(NA), "not applicable")
