"""Reference package, repository package, pairing of functions, call interfaces."""
import ast
import json
import os

from . import ir, tables
from . import terms as T
from .terms import *
from .heap import *
from . import renames
from .interp import Interp, Iface, Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC_ROOT = os.path.join(HERE, "spec")


class Pair:
    """a reference function and its counterpart in the repository"""

    __slots__ = ("spec", "repo", "pmap", "extra", "ok", "why")

    def __init__(self, spec, repo):
        self.spec, self.repo = spec, repo
        self.pmap, self.extra, self.ok, self.why = {}, {}, True, ""
        self._map()

    def _map(self):
        a, b = self.spec, self.repo
        pm = {}
        for p in b.params:
            if p in a.params:
                pm[p] = p
        left = [p for p in a.params if p not in pm.values()]
        rest = [p for p in b.params if p not in pm]
        if a.cls is not None and not a.static and a.pos and b.pos and pm.get(b.pos[0]) != a.pos[0]:
            pm = {k: v for k, v in pm.items() if v != a.pos[0]}
            pm[b.pos[0]] = a.pos[0]
            left = [p for p in a.params if p not in pm.values()]
            rest = [p for p in b.params if p not in pm]
        # a renamed parameter keeps its position
        for p in list(rest):
            if p in b.pos:
                k = b.pos.index(p)
                if k < len(a.pos) and a.pos[k] in left:
                    pm[p] = a.pos[k]
                    left.remove(a.pos[k])
                    rest.remove(p)
        for p in list(rest):
            if left and p not in b.defaults:
                pm[p] = left.pop(0)
                rest.remove(p)
        for p in rest:
            if p in b.defaults:
                self.extra[p] = b.defaults[p]
            else:
                self.ok, self.why = False, "parameter %s has no counterpart" % p
        if left:
            self.ok, self.why = False, "parameters %s are gone" % ", ".join(left)
        self.pmap = pm


class Session:
    def __init__(self, repo_root, spec_root=SPEC_ROOT, ifaces=True):
        self.spec_root = spec_root
        self.spec = ir.Package(spec_root)
        self.repo = ir.Package(repo_root)
        self.renamed = renames.find(self.spec, self.repo)
        if self.renamed:
            self.repo = ir.Package(repo_root, ren=self.renamed)
        T.INT_NAMES.clear()
        T.INT_NAMES.update(
            tables.int_names(self.spec) - {"X", "max_features", "random_state", "y"}
        )
        self.pairs = {}
        self.of_repo = {}
        self._pair()
        self.iface = {}  # spec func -> Iface
        self._busy = set()
        self._sum = {}
        self.vocab = {}  # (reference function, class) -> names it uses
        self.inlined = set()  # spec funcs forced to be inlined
        self.IS = Interp(self.spec, {}, {})
        self.IS.side = 0
        self.notes = []
        if ifaces:
            self.load_ifaces()

    # --------------------------------------------------------------- pairing
    def _pair(self):
        taken = {}
        for f in self.spec.all_funcs():
            r = self.repo.func(f.qual)
            if r is None or r in taken:
                continue
            if f.cls is not None and r.cls is None:
                continue
            taken[r] = f
            p = Pair(f, r)
            self.pairs[f] = p
            self.of_repo[r] = p
        # functions that were moved to another module, or renamed
        old = [f for f in self.spec.all_funcs() if f not in self.pairs and f.cls is None and f.kind == "func"]
        new = [r for r in self.repo.all_funcs() if r not in taken and r.cls is None and r.kind == "func"]
        if old and new:
            ua, ub = renames.uses(self.spec), renames.uses(self.repo)
            for f in old:
                c = [r for r in new if r.node.name == f.node.name]
                if not c:
                    c = [
                        r for r in new
                        if r.mod.name == f.mod.name and self.spec_name_gone(f, r, ua, ub)
                    ]
                if len(c) == 1 and c[0] not in taken:
                    r = c[0]
                    taken[r] = f
                    p = Pair(f, r)
                    self.pairs[f] = p
                    self.of_repo[r] = p

    @staticmethod
    def spec_name_gone(f, r, ua, ub):
        a, b = f.node.name, r.node.name
        return a not in ub and b not in ua and bool(ua.get(a)) and ua[a] == ub.get(b)

    # ------------------------------------------------------------ interfaces
    def callees(self, pkg, f):
        out = []

        def put(g):
            if isinstance(g, ir.Func) and g not in out and g is not f:
                out.append(g)

        for p in f.params:
            for g in pkg.fnptr_candidates().get((f.qual, p), []):
                put(g)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name):
                r = pkg.lookup(f.mod, n.id)
                put(r)
                if isinstance(r, ir.Class):
                    put(pkg.find_method(r, "__init__"))
            elif isinstance(n, ast.Attribute):
                for m in pkg.modules.values():
                    for c in m.classes.values():
                        for t in (c.methods, c.getters, c.setters):
                            if n.attr in t:
                                put(t[n.attr])
                    if n.attr in m.funcs:
                        put(m.funcs[n.attr])
        return out

    def load_ifaces(self):
        path = os.path.join(self.spec_root, "ifaces.json")
        rows = json.load(open(path))
        for f in self.spec.all_funcs():
            r = rows.get(f.qual)
            if r is None:
                continue
            self.set_iface(
                f,
                Iface(
                    f.qual, list(f.params),
                    [(p, tuple(q)) for p, q in r["reads"]],
                    [(p, tuple(q), st) for p, q, st in r["mods"]],
                ),
            )

    def set_iface(self, f, i):
        self.iface[f] = i
        if i is not None and self.opaque_ok(f):
            self.IS.opaque[f] = i

    def derive_ifaces(self):
        """interfaces of all reference functions, bottom-up, then once more"""
        order = []

        def go(f):
            if f in self._busy:
                return
            self._busy.add(f)
            for g in self.callees(self.spec, f):
                go(g)
            order.append(f)

        for f in self.spec.all_funcs():
            go(f)
        for _ in range(3):
            for f in order:
                self.set_iface(f, self._compute(f))
        return self.iface

    def opaque_ok(self, f):
        if f.kind in ("getter", "setter") or f in self.inlined:
            return False
        p = self.pairs.get(f)
        return p is not None and p.ok

    def _compute(self, f):
        try:
            slots = self.IS.summary(f)
        except Unsupported as e:
            self.notes.append("%s: %s" % (f.qual, e))
            return None
        params = set(f.params)
        reads, mods = set(), set()

        def acc(t):
            """access path (param, attrs) of a term, or None"""
            if t.op == "sym":
                if t.args[0] in params:
                    return (t.args[0], ())
                if t.args[0] == "$rng":
                    return ("$rng", ())
                return None
            if t.op == "ld" and t.args[0].op == "base":
                b = acc(t.args[0].args[0])
                if b is None:
                    return None
                q = []
                for s in t.args[1].args:
                    if not isinstance(s, str):
                        return (b[0], b[1] + tuple(q))
                    q.append(s)
                return (b[0], b[1] + tuple(q))
            return None

        seen = set()

        def visit(t, rootof=None):
            if isinstance(t, tuple):
                for x in t:
                    visit(x)
                return
            if not isinstance(t, Term) or t in seen:
                return
            seen.add(t)
            if t.op == "bool":
                for a in bsupport(t.args[0]):
                    visit(a)
                return
            if t.op == "sym":
                a = acc(t)
                if a is not None:
                    reads.add(a)
                return
            if t.op == "ld":
                a = acc(t)
                if a is not None:
                    reads.add(a)
                    for s in t.args[1].args:
                        visit(s)
                    # indices inside the base path
                    b = t.args[0]
                    while b.op == "base" and b.args[0].op == "ld":
                        for s in b.args[0].args[1].args:
                            visit(s)
                        b = b.args[0].args[0]
                    return
            for x in t.args:
                visit(x)

        def visit_chain(c, root):
            """stores below the entry contents of the object itself"""
            stack = [c]
            done = set()
            while stack:
                c = stack.pop()
                if c in done:
                    continue
                done.add(c)
                if c.op == "base" and c.args[0] is root:
                    continue
                if c.op == "st":
                    stack.append(c.args[0])
                    for s in c.args[1].args:
                        visit(s)
                    visit(c.args[2])
                elif c.op == "sel":
                    visit(c.args[0])
                    stack += [c.args[1], c.args[2]]
                elif c.op == "app":
                    stack.append(c.args[0])
                    visit(c.args[1])
                    visit(c.args[2])
                else:
                    visit(c)

        for k, v in slots.items():
            if isinstance(k, tuple):
                root = k[1]
                visit_chain(v, root)
                a = acc(root)
                if a is None:
                    continue
                if a[0] == "$rng":
                    mods.add(("$rng", (), ""))
                    reads.add(("$rng", ()))
                    continue
                steps = self.first_steps(v, root)
                if steps is None or (root.op == "ld" and any(not isinstance(s, str) for s in root.args[1].args)):
                    mods.add((a[0], a[1], ""))
                    reads.add(a)
                else:
                    for s in steps:
                        mods.add((a[0], a[1], s))
                if root.op == "ld":
                    for s in root.args[1].args:
                        visit(s)
            elif isinstance(k, str) and k.startswith("raise:"):
                visit(v)
            else:
                visit(v)
        # a whole-object read covers the partial ones
        reads = {
            (p, q) for p, q in reads
            if not any((p, q[:i]) in reads for i in range(len(q)))
        }
        return Iface(
            f.qual, list(f.params), sorted(reads), sorted(mods, key=str)
        )

    def first_steps(self, c, root):
        out = set()
        stack, done = [c], set()
        while stack:
            c = stack.pop()
            if c in done:
                continue
            done.add(c)
            if c.op == "st":
                s = c.args[1].args[0]
                if not isinstance(s, str):
                    return None
                out.add(s)
                stack.append(c.args[0])
            elif c.op == "sel":
                stack += [c.args[1], c.args[2]]
            elif c.op == "base" and c.args[0] is root:
                pass
            elif c.op == "fix":
                stack.append(c.args[0])
            elif c.op in ("muk",):
                stack += [c.args[1], c.args[2]]
            elif c.op == "mu0":
                stack.append(c.args[1])
            else:
                return None
        return out

    # ------------------------------------------------------------- summaries
    def spec_slots(self, f, cls=None):
        k = (f, cls, "spec")
        if k not in self._sum:
            old, T.RECORD[0] = T.RECORD[0], set()
            try:
                self._sum[k] = self.IS.summary(f, cls)
                self.vocab[f, cls] = frozenset(T.RECORD[0])
            finally:
                if old is not None:
                    old |= T.RECORD[0]
                T.RECORD[0] = old
        return self._sum[k]

    def repo_interp(self):
        op, pm = {}, {}
        for f, p in self.pairs.items():
            if p.ok and f in self.IS.opaque:
                op[p.repo] = self.IS.opaque[f]
                pm[p.repo] = p.pmap
        I = Interp(self.repo, op, pm)
        I.side = 1
        return I

    def repo_slots(self, f, cls=None):
        p = self.pairs[f]
        k = (f, cls, "repo")
        if k not in self._sum:
            I = self.repo_interp()
            bind = {}
            if p.extra:
                from .interp import Ctx, S

                I.ctx = Ctx(None, p.repo.mod)
                for n, d in p.extra.items():
                    bind[n] = I.ev(d, S({}, {}, 1))
            c = None
            if cls is not None:
                c = self.repo.cls(cls.qual)
            self._sum[k] = I.summary(p.repo, c, p.pmap, bind)
        return self._sum[k]
