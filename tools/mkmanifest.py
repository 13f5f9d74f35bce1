#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the rule table."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sv import catalog  # noqa: E402

NA = {
    "C31": "optimality of the dynamic programming solver is an inductive fact about the contents of its table for every input; no dataflow or type argument in reach bounds it, and comparing "
           "it with a second copy of the same program would show identity, not optimality",
    "C32": "a statement about the distribution of the results of a randomised search; static analysis cannot bound it",
}
EFFECT = {"C02", "C06", "C08", "C10", "C11", "C15", "C17", "C18", "C23", "C26", "C28"}

props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    n = len(catalog.rules_of(i))
    assert n, i
    tech = "interprocedural gated value-flow analysis: summaries (state, result, raise condition, call trace) compared with reference summaries"
    if i in EFFECT:
        tech += "; effect and ordering rules on the event graph"
    checks.append({
        "property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --tier thorough", "technique": tech, "level": "other",
        "level_note": f"{n} rules over the functions that implement the property. Each summary holds for every input of the function; a summary component equal to the reference one is discharged "
                      "for all inputs and histories, a definite difference is reported with its location and condition, and a construct without a fixed meaning for the analysis gives no verdict "
                      "(counted as undecided in the evidence). Trusted: the reference texts under spec/, the analysis itself, exact arithmetic in place of floating point, external libraries as "
                      "uninterpreted functions. The thorough command adds a sensitivity sweep: mutants and equivalent rewritings of the analysed functions, judged by the same rules.",
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Nothing is executed or built: every check parses the working tree of /repo. No hooks are used."}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
