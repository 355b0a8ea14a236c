#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when a decision table or a rule decides it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from va.props import COVER
from va.rules import RULES
NA = {
    "N01": "relates schemas to JSON documents through the semantics of JSON Schema validation; no document ever appears in this code, so there is no construct whose shape decides it",
    "N03": "a resource bound; the source shows termination (C25) but neither the cost of the std collections nor the stack frame sizes of the optimised program",
}
TABLE = "abstract interpretation of the MIR (forward dataflow fixpoint over shape values), compared cell by cell with a decision table"
TECH = {
    "C01": "abstract interpretation of the MIR under permuted hash-map iteration orders (results compared as terms), plus sortedness in the emitter tables",
    "C02": "effect analysis on the resolved call graph, plus abstract interpretation of the entry points",
    "C03": "dataflow through the generated argument parser and main, on the MIR",
    "C04": "effect-order dataflow through main, on the MIR",
    "C25": "recursion and loop-bound analysis on the call graph and the MIR",
    "C26": "inventory of reachable abort sites, plus abstract interpretation of the MIR",
    "C29": "automata equivalence: the string pipeline and its regular expression, read off the MIR of both builds, against the word boundaries of heck",
    "C28": "analysis of the generated serialisers on the MIR",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif COVER.get(i) or RULES.get(i):
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i, "technique": TECH.get(i, TABLE), "level": "other",
                       "level_note": "Static: decided from the type-checked MIR of the current tree without running it. Sound relative to the models of the std, serde, regex and heck functions used (va/models.py) and to the rules stated in DESIGN.md; recursion is cut by induction over the depth of the schema; cells the abstraction cannot decide are reported as undecided and claim nothing."})
    else:
        na.append({"property": i, "reason": "not decided yet: its rule is under construction"})
m = {"version": 1, "setup_cmd": "tools/dump.sh .build/warm && (MIRDUMP_FEATURES=oniguruma tools/dump.sh .build/warm/oniguruma || true)", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the analysis reads the unmodified source through a rustc wrapper."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
