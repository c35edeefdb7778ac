#!/usr/bin/env python3
"""Writes MANIFEST.json; the technique texts live next to the analyses in engine/pipeline.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import pipeline

RULE = {"C13": "effect analysis over the resolved call graph",
        "C17": "compile-fail witnesses with compiling twins; ownership rule over the public API"}
NOTE = ("Decides the property for all inputs and streams of any length on the MIR of the current "
        "tree; trusts rustc's front end, the dumping driver and the analyser's library models. ")
NOTES = {
    "C13": "Every function reachable from a public operation or a strategy is covered; trusts the "
           "list of effectful library paths (self-tested on a fixture crate on every run).",
    "C17": "Rests on the compiler's own borrow, privacy and trait checks against the compiled crate; "
           "covers the listed misuse kinds and every exported signature.",
    "C18": NOTE + "Covers the demo's number writer, not the surrounding labels in main.",
    "C14": NOTE + "Termination follows for operands with finite streams.",
}
checks = []
for p in sorted(pipeline.RULES):
    checks.append({
        "property": p, "quick_cmd": "python3 check.py " + p,
        "technique": RULE.get(p, "abstract interpretation of MIR: relational value ledger, loop "
                                 "cuts with inferred invariants") + " - " + pipeline.RULES[p],
        "level": "other", "level_note": NOTES.get(p, NOTE)})
na = [
    {"property": "C20", "reason": "asks for completeness of intermediate arithmetic; the code's "
     "intermediate coefficients do overflow for some representable results, and which inputs do is a "
     "question about concrete magnitudes along unbounded runs that the static domain does not decide"},
    {"property": "C21", "reason": "stack depth and running time are resource bounds of executions; "
     "recursion is used by design and no static rule separates proportionate from excessive use"},
    {"property": "C22", "reason": "earliest-possible emission compares the code with the "
     "information-theoretic optimum of its input; the static domain proves correctness of emitted "
     "symbols, not minimality of what was read"},
]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
