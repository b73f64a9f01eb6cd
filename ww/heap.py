"""Abstract objects: store chains, reads, merges (part of the value analysis)."""
from .terms import *
from . import terms as T

PATH0 = mk("path")


def path(*steps):
    return mk("path", *steps)


FULL = mk("slice", num(0), NONE)


def is_slice(x):
    return isinstance(x, Term) and x.op == "slice"


def trim(p):
    p = tuple(p)
    while p and p[-1] is FULL:
        p = p[:-1]
    return p


def step_rel(a, b):
    """'eq' | 'dis' | 'may' for two path steps"""
    if a is b or (isinstance(a, str) and a == b):
        return "eq"
    sa, sb = isinstance(a, str), isinstance(b, str)
    if sa and sb:
        return "dis"
    if sa or sb:
        return "may"
    if a.op == "c" and b.op == "c":
        return "dis"
    ka = a.op == "c" and isinstance(a.args[0], str)
    kb = b.op == "c" and isinstance(b.args[0], str)
    if ka != kb:
        return "may"
    if a.op in ("slice", "sel") or b.op in ("slice", "sel"):
        return "may"
    d = sub(a, b)
    if d.op == "num":
        return "eq" if d.args[0] == 0 else "dis"
    return "may"


def relate(p, q):
    """relation of store path p to read path q"""
    r = "eq"
    for a, b in zip(p, q):
        x = step_rel(a, b)
        if x == "dis":
            return "dis"
        if x == "may":
            r = "may"
    # struct fields are always last: compare them even when index depths differ
    if r == "may":
        return "may"
    if len(p) == len(q):
        return "eq"
    return "prefix" if len(p) < len(q) else "ext"


def pkey(p):
    return tuple((0, s, 0) if isinstance(s, str) else (1, "", s.id) for s in p)


def base(root):
    return mk("base", root)


def store(chain, p, v):
    """chain with v stored at p (normalised)"""
    p = trim(p)
    if not p:
        return mk("val", v)
    if chain.op == "st":
        q = chain.args[1].args
        r = relate(p, q)
        if r == "eq":
            return store(chain.args[0], p, v)
        if r == "prefix":  # the new store covers the old one
            return store(chain.args[0], p, v)
        if r == "dis" and pkey(p) < pkey(q):
            return mk("st", store(chain.args[0], p, v), chain.args[1], chain.args[2])
    # storing what is already there
    if v.op == "ld" and v.args[1].args == p and v.args[0] is project(chain, p):
        return chain
    return mk("st", chain, path(*p), v)


def project(chain, p):
    if chain.op == "st":
        q = chain.args[1].args
        prev = project(chain.args[0], p)
        if relate(q, p) == "dis":
            return prev
        return mk("st", prev, chain.args[1], chain.args[2])
    if chain.op == "sel":
        return ite(bvar(chain.args[0]), project(chain.args[1], p), project(chain.args[2], p))
    return chain


ZEROS = {"numpy.zeros", "numpy.zeros_like"}


def read_chain(chain, p, deref):
    """value at path p; deref(value, rest) continues in another object"""
    p = trim(p)
    op = chain.op
    for s in p:
        if isinstance(s, Term) and s.op == "sel" and nleaves(s) <= 6:
            i = p.index(s)
            return ite(
                bvar(s.args[0]),
                read_chain(chain, p[:i] + (s.args[1],) + p[i + 1:], deref),
                read_chain(chain, p[:i] + (s.args[2],) + p[i + 1:], deref),
            )
    if op == "sel":
        return ite(
            bvar(chain.args[0]),
            read_chain(chain.args[1], p, deref),
            read_chain(chain.args[2], p, deref),
        )
    if op == "st" and p:
        q = chain.args[1].args
        r = relate(q, p)
        if r == "dis":
            return read_chain(chain.args[0], p, deref)
        if r == "eq":
            return chain.args[2]
        if r == "prefix":
            return deref(chain.args[2], p[len(q):])
        return mk("ld", project(chain, p), path(*p))
    if op == "val":
        return deref(chain.args[0], p) if p else chain.args[0]
    if op == "base":
        if not p:
            return chain.args[0]
        return mk("ld", chain, path(*p))
    if op == "init" and p:
        k = chain.args[0]
        if k in ZEROS and all(isinstance(x, Term) for x in p) and not any(
            is_slice(x) for x in p
        ):
            return num(0)
        if k == "list" and len(p) >= 1 and isinstance(p[0], Term) and is_num(p[0]):
            items = chain.args[1]
            i = p[0].args[0]
            if i.denominator == 1 and -len(items) <= i < len(items):
                v = items[int(i)]
                return deref(v, p[1:]) if len(p) > 1 else v
        if k == "dict" and isinstance(p[0], Term) and p[0].op in ("c", "num"):
            for kk, v in chain.args[1]:
                if kk is p[0]:
                    return deref(v, p[1:]) if len(p) > 1 else v
    if op == "comp" and p and isinstance(p[0], Term) and not is_slice(p[0]):
        # element of a list built by a loop without filter
        n, bv, cond, elt = chain.args
        if cond is TRUE:
            e = subst(elt, lambda t: p[0] if t is bv else None)
            return deref(e, p[1:]) if len(p) > 1 else e
    if op == "app" and p and chain.args[1] is TRUE and is_num(p[0] if isinstance(p[0], Term) else NONE):
        pass
    return mk("ld", chain, path(*p))


def pure_deref(v, rest):
    rest = trim(rest)
    if not rest:
        return v
    if v.op == "sel":
        return ite(bvar(v.args[0]), pure_deref(v.args[1], rest), pure_deref(v.args[2], rest))
    if v.op in ("num",):
        return v
    if v.op == "bool" and v.args[0] <= 1:
        return v
    if v.op == "tup" and isinstance(rest[0], Term) and is_num(rest[0]):
        i = int(rest[0].args[0])
        if -len(v.args) <= i < len(v.args):
            return pure_deref(v.args[i], rest[1:])
    if v.op == "dict" and isinstance(rest[0], Term):
        for k, x in v.args[0]:
            if k is rest[0]:
                return pure_deref(x, rest[1:])
    if v.op == "ld":
        # an element of a loaded array: one access path
        b, p0 = v.args
        if b.op == "base" and isinstance(rest[0], Term) and all(isinstance(x, str) or is_num(x) for x in p0.args):
            return mk("ld", b, path(*(tuple(p0.args) + tuple(rest))))
    return mk("ld", base(v), path(*rest))


def _re_ld(chain, p):
    return read_chain(chain, p.args, pure_deref)


def _re_st(chain, p, v):
    return store(chain, p.args, v)


REBUILD["ld"] = _re_ld
REBUILD["st"] = _re_st


def ancestors(c):
    out = [c]
    while c.op in ("st", "app"):
        c = c.args[0]
        out.append(c)
    return out


def merge_chain(t, a, b, deref=pure_deref):
    if a is b or t == 1:
        return a
    if t == 0:
        return b
    aa, bb = ancestors(a), ancestors(b)
    sb = set(bb)
    common = next((x for x in aa if x in sb), None)
    if common is not None:
        sa = aa[: aa.index(common)]
        sbb = bb[: bb.index(common)]
        if all(x.op == "st" for x in sa + sbb):
            ps = []
            ok = True
            for x in reversed(sa) if sa else []:
                ps.append(x.args[1].args)
            for x in reversed(sbb):
                if x.args[1].args not in ps:
                    ps.append(x.args[1].args)
            for i in range(len(ps)):
                for j in range(i):
                    if relate(ps[i], ps[j]) not in ("dis",):
                        ok = False
            if ok:
                r = common
                for p in ps:
                    va = read_chain(a, p, deref)
                    vb = read_chain(b, p, deref)
                    r = store(r, p, ite(t, va, vb))
                return r
        if all(x.op == "app" for x in sa + sbb):
            if len(sa) == len(sbb) == 1 and sa[0].args[1] is TRUE and sbb[0].args[1] is TRUE:
                return mk("app", common, TRUE, ite(t, sa[0].args[2], sbb[0].args[2]))
            if len(sa) + len(sbb) == 1:
                x = (sa + sbb)[0]
                g = truth(x.args[1])
                g = b_and(g, t if sa else bnot(t))
                return mk("app", common, mk("bool", g), x.args[2])
    return ite(t, a, b)
