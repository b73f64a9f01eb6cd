"""Write MANIFEST.json from the property table."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from ww.props import PROPS

RULE_TEXT = {
    "rng": "nondeterminism-source lint", "globals": "module-state effect analysis",
    "lock": "lock-held dataflow over worker functions", "caller_data": "alias/effect analysis of caller data",
    "predict_pure": "purity (effect) analysis of prediction", "transform_pure": "purity (effect) analysis of transform",
    "names": "name and attribute resolution", "calls": "call-signature matching",
    "checksums": "checksum table query",
}
NOTE = (
    "Sound for the summarised slots up to exact arithmetic and the listed library models; "
    "a function whose loops or library calls have another shape than the reference is "
    "reported as undecided in the evidence and raises no alarm."
)
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import ast, json, sys; assert sys.version_info >= (3, 8)\"",
    "checks": [],
    "not_applicable": [
        {"property": "C26", "reason": "statistical accuracy quantifies over data distributions; no static argument over the source bounds it"},
        {"property": "C27", "reason": "a bound on rounding error and overflow for all weights and losses needs numeric range invariants over data-dependent loops that no sound static analysis in reach can establish; the analysis works over exact arithmetic"},
        {"property": "C28", "reason": "running cost and scaling are runtime quantities of compiled numba code on real hardware"},
    ],
}
for p, (anchors, rules) in PROPS.items():
    tech = "gated value-numbering dataflow over the syntax trees, against reviewed reference summaries"
    if rules:
        tech += "; " + "; ".join(RULE_TEXT[r] for r in rules)
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "static analysis: " + tech,
        "level": "other",
        "level_note": NOTE,
    })
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
