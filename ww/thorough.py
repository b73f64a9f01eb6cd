"""Thorough tier: how sharp and how quiet the comparison is on the property's functions.

Edits are applied to the syntax trees of the analysed functions (in memory) and each
edited function is summarised and compared like a repository function."""
import os
import random
import time

from . import ir
from .compare import compare_slots
from .edits import Breaking, Harmless
from .checker import Timeout, limit


def run(ck, anchors, kind, per, budget, rnd):
    t0 = time.time()
    tot = {"flagged": 0, "undecided": 0, "unflagged": 0, "not_applicable": 0}
    seen, samples = set(), []
    todo = []
    for a in anchors:
        p, rc = ck.counterpart(a)
        if p is None or not p.ok or a.f in seen:
            continue
        seen.add(a.f)
        try:
            n = kind.count(p.repo.node)
        except Exception:
            continue
        ks = list(range(n))
        rnd.shuffle(ks)
        todo += [(a, p, rc, k) for k in ks[:per]]
    rnd.shuffle(todo)
    for a, p, rc, k in todo:
        if time.time() - t0 > budget:
            break
        e, node = kind.apply(p.repo.node, k)
        mod, saved = p.repo.mod, dict(p.repo.mod.funcs)
        for h in e.helpers:
            mod.funcs[h.name] = ir.Func(mod, h)
        try:
            g = ir.Func(mod, node, p.repo.cls, p.repo.kind)
            with limit(60):
                b = ck.s.repo_interp().summary(g, rc, p.pmap, {})
                x = ck.slots(0, a, p, rc)
                r = compare_slots(x, b, used=ck.s.vocab[a.f, a.c])
            v = "flagged" if r.diff else "undecided" if r.undecided else "unflagged"
        except Timeout:
            v = "undecided"
        except Exception:
            v = "not_applicable"
        mod.funcs.clear()
        mod.funcs.update(saved)
        tot[v] += 1
        bad = v != "flagged" if kind is Breaking else v == "flagged"
        if bad and len(samples) < 40:
            samples.append("%s %s: %s" % (a.name, e.desc, v))
    return tot, samples


def sensitivity(ck, anchors):
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "0") or 0))
    b, sb = run(ck, anchors, Breaking, 40, 240, rnd)
    h, sh = run(ck, anchors, Harmless, 40, 240, rnd)
    return {
        "breaking_edits": b, "breaking_edits_not_flagged": sb,
        "harmless_edits": h, "harmless_edits_flagged": sh,
    }
