"""Renamed private attributes.

An attribute whose name starts with an underscore, or that is a field of a jitclass
specification, is not part of what a user sees.  When such a name disappeared from the
analysed tree and a new name is used in the same functions, in the same way and equally
often, the new name is read as the old one."""
import ast
from collections import Counter


def _uses(pkg):
    """name -> Counter of (enclosing qualified name, kind of use)"""
    out = {}

    def add(nm, scope, kind):
        out.setdefault(nm, Counter())[(scope, kind)] += 1

    def walk(n, scope):
        for c in ast.iter_child_nodes(n):
            sc = scope
            if isinstance(c, ast.ClassDef):
                sc = scope + "." + c.name
            elif isinstance(c, ast.FunctionDef):
                inside = scope not in pkg.modules
                if inside:
                    add(c.name, sc, "method")
                sc = scope + "." + ("<private>" if inside and c.name.startswith("_") else c.name)
            if isinstance(c, ast.Attribute):
                add(c.attr, sc, type(c.ctx).__name__)
            elif isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value.isidentifier():
                add(c.value, sc, "str")
            walk(c, sc)

    for name, m in pkg.modules.items():
        walk(m.tree, name)
    return out


def _fields(pkg):
    """names of the fields in module-level [(name, type), ...] lists"""
    out = set()
    for m in pkg.modules.values():
        for n in m.tree.body:
            v = n.value if isinstance(n, (ast.Assign, ast.AugAssign)) else None
            if isinstance(v, ast.BinOp):
                vs = [v.left, v.right]
            else:
                vs = [v]
            for v in vs:
                if isinstance(v, (ast.List, ast.Tuple)):
                    for e in v.elts:
                        if isinstance(e, ast.Tuple) and len(e.elts) == 2 and isinstance(
                            e.elts[0], ast.Constant
                        ) and isinstance(e.elts[0].value, str):
                            out.add(e.elts[0].value)
    return out


def find(spec, repo):
    a, b = _uses(spec), _uses(repo)
    gone = [n for n in a if n not in b]
    new = [n for n in b if n not in a]
    if not gone or not new:
        return {}
    fa, fb = _fields(spec), _fields(repo)
    keep = {n for p in (spec, repo) for m in p.modules.values() for n in m.funcs}
    out = {}
    for g in gone:
        # names used in exactly the same places: told apart by the order of appearance
        peers = [x for x in gone if a[x] == a[g] and (x in fa) == (g in fa)]
        attr = any(k != "str" for _, k in a[g]) and g not in keep
        if not attr or not (g.startswith("_") and not g.startswith("__") or g in fa):
            continue
        cand = [n for n in new if (g in fa) == (n in fb) and a[g] == b[n]]
        if len(cand) == len(peers):
            out[cand[peers.index(g)]] = g
    return out


def uses(pkg):
    """where module-level functions are used: name -> Counter of scopes"""
    out = {}

    def walk(n, scope):
        for c in ast.iter_child_nodes(n):
            sc = scope
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                sc = scope + "." + c.name
                if isinstance(c, ast.FunctionDef) and scope in pkg.modules:
                    sc = scope + ".<function>"
                    for d in c.decorator_list:
                        walk(d, scope)
            nm = None
            if isinstance(c, ast.Name):
                nm = c.id
            elif isinstance(c, ast.Attribute):
                nm = c.attr
            elif isinstance(c, ast.alias):
                nm = c.name
            if nm:
                out.setdefault(nm, Counter())[sc] += 1
            walk(c, sc)

    for name, m in pkg.modules.items():
        walk(m.tree, name)
    return out
