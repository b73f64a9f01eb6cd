#!/usr/bin/env python3
"""Decide one property on /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough]
exit 0: holds on everything analysed; 1: VIOLATION printed; 2: cannot analyse
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
if os.environ.get("PYTHONHASHSEED") != "0":  # same visiting order on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, {**os.environ, "PYTHONHASHSEED": "0"})

from ww.checker import Checker, second_look
from ww.props import PROPS
from ww.rules import RULES

REPO = os.environ.get("WW_REPO", "/repo")
KNOWN = os.path.join(HERE, "known_findings.json")


def known_findings(prop):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)).get("known", []) if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop = a.property
    t0 = time.time()
    patterns, rules = PROPS[prop]
    if not os.path.isdir(os.path.join(REPO, "wildwood")):
        print("no package to analyse in %s" % REPO)
        return 2
    try:
        ck = Checker(REPO)
    except SyntaxError as e:
        print("the package does not parse: %s" % e)
        return 2
    anchors = ck.anchors(patterns)
    if len(anchors) == 0:
        print("nothing to analyse")
        return 2
    findings, undecided, equal = [], [], []
    for x in anchors:
        fs = ck.check(x)
        if not fs:
            equal.append(x.name)
        findings += [f for f in fs if f.kind == "V"]
        undecided += [f for f in fs if f.kind == "U"]
    mods = {x.f.mod.name for x in anchors}
    findings += ck.field_tables(mods)
    cleared = set()
    cmp_names = {f.anchor for f in findings}
    if findings and any(
        not ck.public(x.f) for x in anchors if x.name in cmp_names
    ):
        cleared = second_look(ck)
        if cleared:
            names = {x.name for x in anchors if x.f.qual in cleared}
            findings = [f for f in findings if f.anchor not in names]
    rule_rows = []
    for r in rules:
        fs, n = RULES[r](ck)
        rule_rows.append({"rule": r, "instances": n, "violations": len(fs)})
        findings += fs
    extra = {}
    if a.tier == "thorough":
        from ww.thorough import sensitivity

        extra = sensitivity(ck, anchors)
    known = known_findings(prop)
    new, old = [], []
    for f in findings:
        k = next((k for k in known if k["function"] == f.anchor and k["slot"] == f.slot), None)
        (old if k else new).append(f)
    evid = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evid, "replay"), exist_ok=True)
    coverage = {
        "explanation": (
            "Gated value-numbering dataflow: each listed function of the repository is "
            "summarised symbolically from its syntax tree (result, exceptions, final contents "
            "of every object it can reach, effect-only calls, defaults, declared machine "
            "types) and compared with the summary of the reviewed reference; the listed "
            "rules are applied to all core functions of the current source."
        ),
        "functions_analysed": len(anchors),
        "functions_equal": len(equal),
        "obligations": ck.nslots,
        "undecided": [f.row() for f in undecided],
        "cleared_in_callers": sorted(cleared),
        "rules": rule_rows,
        "functions": sorted(x.name for x in anchors),
    }
    coverage.update(extra)
    replay = os.path.join(evid, "replay", prop + ".json")
    row = {
        "property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "other", "coverage": coverage, "wall_s": round(time.time() - t0, 2),
        "assumptions": [
            "the reference in /verif/spec satisfies the property (argued in DESIGN.md)",
            "library calls are deterministic functions of their arguments, apart from the "
            "modelled generators and in-place operations",
            "arithmetic is exact (floating-point rounding is outside the property)",
        ],
        "violations": len(new),
    }
    with open(os.path.join(evid, prop + ".json"), "w") as fh:
        json.dump(row, fh, indent=1)
    for f in old:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, f.anchor, f.slot))
    print(
        "%s: %d functions, %d obligations, %d undecided, rules %s, %.1f s"
        % (prop, len(anchors), ck.nslots, len(undecided),
           ", ".join("%s(%d)" % (r["rule"], r["instances"]) for r in rule_rows) or "-",
           time.time() - t0)
    )
    for f in undecided[:20]:
        print("  undecided: %s [%s] %s" % (f.anchor, f.slot[:80], f.msg[:160]))
    if new:
        with open(replay, "w") as fh:
            json.dump([f.row() for f in new], fh, indent=1)
        for f in new[:20]:
            print("  %s: %s: %s" % (f.where, f.slot[:120], f.msg[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    return 0


if __name__ == "__main__":
    sys.exit(main())
