"""Decides whether repository functions compute what the reference functions compute.

For an anchor (a function, or a method of a concrete class) the value summaries of both
sides are compared slot by slot: result, raised exceptions, final contents of every
object reachable from the arguments, effect-only calls, defaults of public parameters
and the declared machine types.  A function that differs is given a second chance with
its body spliced into its callers (work may have moved between functions): if every
caller still computes the same, nothing observable changed.
"""
import ast
import signal
import time

from . import ir, tables
from .compare import compare_slots, cut
from .interp import Ctx, S, Unsupported
from .session import Session
from .terms import *


class Timeout(Exception):
    pass


class limit:
    def __init__(self, sec):
        self.sec = max(1, int(sec))

    def __enter__(self):
        def boom(*a):
            raise Timeout()

        self.old = signal.signal(signal.SIGALRM, boom)
        signal.alarm(self.sec)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Finding:
    def __init__(self, kind, anchor, slot, msg, where):
        self.kind, self.anchor, self.slot, self.msg, self.where = kind, anchor, slot, msg, where

    def key(self):
        return (self.anchor, self.slot)

    def row(self):
        return {
            "construct": self.where, "function": self.anchor, "slot": self.slot,
            "detail": self.msg,
        }


class Anchor:
    """reference function, seen as a method of a concrete class if it is one"""

    __slots__ = ("f", "c")

    def __init__(self, f, c=None):
        self.f, self.c = f, c

    @property
    def name(self):
        if self.c is None or self.c is self.f.cls:
            return self.f.qual.split(".", 1)[-1]
        q = self.c.qual if hasattr(self.c, "qual") else self.c.name
        n = self.f.qual.rsplit(".", 1)[-1]
        return q.split(".", 1)[-1] + "." + n

    def __eq__(self, o):
        return self.f is o.f and self.c is o.c

    def __hash__(self):
        return hash((id(self.f), id(self.c)))


class Checker:
    def __init__(self, root, inlined=()):
        self.root = root
        self.s = Session(root)
        if inlined:
            for f in self.s.spec.all_funcs():
                if f.qual in inlined:
                    self.s.inlined.add(f)
                    self.s.IS.opaque.pop(f, None)
        self.cache = {}
        self.splices = {}
        self.nslots = 0
        self.notes = []

    # -------------------------------------------------------------- anchors
    def anchors(self, patterns):
        """patterns: 'module:name' / 'module:Class.name' / 'module:*' / 'module:Class.*';
        '@' stands for all getters and setters of the class"""
        out = []
        for pat in patterns:
            n = len(out)
            mod, _, what = pat.partition(":")
            m = self.s.spec.modules["wildwood" + ("." + mod if mod else "")]
            for f in self.s.spec.all_funcs():
                if f.mod is not m:
                    continue
                short = f.qual[len(m.name) + 1:]
                ok = (
                    what == "*"
                    or short == what
                    or (what.endswith(".*") and short.startswith(what[:-1]) and f.kind not in ("getter", "setter"))
                    or (what.endswith(".@") and short.startswith(what[:-1]) and f.kind in ("getter", "setter"))
                    or (what.endswith(".@setter") and short.startswith(what[:-7]) and f.kind == "setter")
                    or (what.endswith(".@getter") and short.startswith(what[:-7]) and f.kind == "getter")
                    or (what.endswith("@") and short.split("@")[0] == what[:-1])
                )
                if not ok or what == "*" and f.name == "__repr__":
                    # (what an object prints as is no part of any property)
                    continue
                if f.cls is None:
                    out.append(Anchor(f))
                    continue
                subs = [c for c in self.s.spec.subclasses(f.cls) if c is not f.cls]
                conc = [c for c in subs if not [d for d in self.s.spec.subclasses(c) if d is not c]]
                use = [c for c in conc if self.find(self.s.spec, c, f) is f] or [f.cls]
                out += [Anchor(f, c) for c in use]
            if len(out) == n:
                raise KeyError("anchor %s matches nothing in the reference" % pat)
        return list(dict.fromkeys(out))

    @staticmethod
    def find(pkg, c, f):
        if f.kind == "getter":
            return pkg.find_getter(c, f.name)
        if f.kind == "setter":
            return pkg.find_setter(c, f.name)
        return pkg.find_method(c, f.name)

    def counterpart(self, a):
        """the repository function playing the role of the anchor, with parameter map"""
        from .session import Pair

        if a.c is None:
            p = self.s.pairs.get(a.f)
            return p, None
        rc = self.s.repo.cls("%s.%s" % (a.c.mod.name, a.c.name))
        if rc is None:
            return None, None
        r = self.find(self.s.repo, rc, a.f)
        if r is None:
            return None, rc
        p = self.s.pairs.get(a.f)
        if p is None or p.repo is not r:
            p = Pair(a.f, r)
        return p, rc

    def public(self, f):
        if any(x.startswith("_") for x in f.mod.name.split(".")[1:]):
            return False
        if f.cls is not None and f.cls.name.startswith("_"):
            return False
        return not f.name.startswith("_") or f.name in (
            "__init__", "__getstate__", "__setstate__", "__sklearn_is_fitted__", "__repr__",
        )

    # ------------------------------------------------------------ comparison
    def slots(self, side, a, p, rc):
        from .interp import Interp

        if side == 0:
            return self.s.spec_slots(a.f, a.c)
        I = self.s.repo_interp()
        bind = {}
        if p.extra:
            I.ctx = Ctx(None, p.repo.mod)
            for n, d in p.extra.items():
                bind[n] = I.ev(d, S({}, {}, 1))
        return I.summary(p.repo, rc, p.pmap, bind)

    def check(self, a, sec=200):
        if a in self.cache:
            return self.cache[a]
        out = []
        self.cache[a] = out
        p, rc = self.counterpart(a)
        if p is None:
            if self.public(a.f) and (a.c is None or not self.ext_base_changed(a)):
                out.append(Finding("V", a.name, "existence", "public %s is gone" % a.name, a.f.mod.rel))
            else:
                out.append(Finding("U", a.name, "existence", "no counterpart", a.f.mod.rel))
            return out
        where = p.repo.where()
        if not p.ok:
            if self.public(a.f):
                out.append(Finding("V", a.name, "parameters", p.why, where))
            else:
                out.append(Finding("U", a.name, "parameters", p.why + " (judged in its callers)", where))
            return out
        try:
            with limit(sec):
                x = self.slots(0, a, p, rc)
                y = self.slots(1, a, p, rc)
                r = compare_slots(x, y, used=self.s.vocab[a.f, a.c], more_loops=self.more_loops(a, p))
        except Timeout:
            out.append(Finding("U", a.name, "all", "analysis budget used up", where))
            return out
        except Unsupported as e:
            out.append(Finding("U", a.name, "all", "unsupported construct: %s" % e, where))
            return out
        except RecursionError:
            out.append(Finding("U", a.name, "all", "nesting too deep", where))
            return out
        except Exception as e:  # the repository uses something the engine does not know
            out.append(Finding("U", a.name, "all", "not analysable: %s" % repr(e)[:150], where))
            return out
        if (r.diff or r.undecided) and not self.s.inlined:
            r2 = self.spliced(a, sec)
            if r2 is not None:
                r = r2
        self.nslots += len(r.equal) + len(r.diff) + len(r.undecided)
        for n, m in r.diff:
            out.append(Finding("V", a.name, n, m, where))
        for n, m in r.undecided:
            out.append(Finding("U", a.name, n, m, where))
        out += self.defaults(a, p, where)
        out += self.jit(a, p, where)
        return out

    # ---------------------------------------------------------------- splicing
    def more_loops(self, a, p):
        """the repository's function, with the helpers only it has, contains more loops"""
        n = []
        for side, f in ((0, a.f), (1, p.repo)):
            try:
                seen = self.closure(side, f)[1]
            except Exception:
                return False
            n.append(sum(
                isinstance(x, (ast.For, ast.While, ast.comprehension))
                for h in seen for x in ast.walk(h.node)
            ))
        return n[1] > n[0]

    def uses(self, side, f):
        return self.closure(side, f)[0]

    def closure(self, side, f):
        """how often f, together with the functions only its side has, names each common function"""
        pkg = self.s.repo if side else self.s.spec
        paired = {}
        for g, p in self.s.pairs.items():
            paired[p.repo if side else g] = g.qual
        n, todo, seen = {}, [f], set()
        while todo:
            h = todo.pop()
            if h in seen:
                continue
            seen.add(h)
            for x in ast.walk(h.node):
                nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                if nm is None or not isinstance(x.ctx, ast.Load):
                    continue
                if isinstance(x, ast.Name):
                    g = pkg.lookup(h.mod, nm)
                    gs = [g] if g.__class__.__name__ == "Func" else []
                else:
                    gs = [c.methods[nm] for m in pkg.modules.values() for c in m.classes.values() if nm in c.methods]
                    gs += [m.funcs[nm] for m in pkg.modules.values() if nm in m.funcs and isinstance(x.value, ast.Name)
                           and not gs]
                for g in gs:
                    if g in paired:
                        n[paired[g]] = n.get(paired[g], 0) + 1
                    else:
                        todo.append(g)
        return n, seen

    def spliced(self, a, sec):
        """the comparison once more with the functions inlined that only one side calls"""
        p, rc = self.counterpart(a)
        try:
            u, v = self.uses(0, a.f), self.uses(1, p.repo)
        except Exception:
            return None
        d = {q for q in set(u) | set(v) if u.get(q, 0) != v.get(q, 0)} - {a.f.qual}
        if not d or len(d) > 8:
            return None
        k = frozenset(d)
        if k not in self.splices:
            self.splices[k] = Checker(self.root, d)
        c2 = self.splices[k]
        f2 = next((f for f in c2.s.spec.all_funcs() if f.qual == a.f.qual and f.kind == a.f.kind), None)
        if f2 is None:
            return None
        a2 = Anchor(f2, c2.s.spec.cls(a.c.qual) if a.c is not None else None)
        try:
            with limit(sec):
                p2, rc2 = c2.counterpart(a2)
                x = c2.slots(0, a2, p2, rc2)
                y = c2.slots(1, a2, p2, rc2)
                r = compare_slots(x, y, used=c2.s.vocab[a2.f, a2.c])
        except Exception:
            return None
        return None if r.diff or r.undecided else r

    def ext_base_changed(self, a):
        return False

    def defaults(self, a, p, where):
        if not self.public(a.f):
            return []
        out = []
        inv = {v: k for k, v in p.pmap.items()}
        for n, d in a.f.defaults.items():
            q = inv.get(n)
            if q is None:
                continue
            self.nslots += 1
            e = p.repo.defaults.get(q)
            if e is None:
                out.append(Finding("V", a.name, "default of " + n, "the default is gone", where))
                continue
            x, y = self.const(self.s.spec, a.f.mod, d), self.const(self.s.repo, p.repo.mod, e)
            if x is not None and y is not None and x is not y:
                out.append(Finding("V", a.name, "default of " + n, "reference %s; repository %s" % (show(x), show(y)), where))
        return out

    def const(self, pkg, mod, e):
        from .interp import Interp

        I = Interp(pkg, {}, {})
        I.ctx = Ctx(None, mod)
        try:
            v = I.ev(e, S({}, {}, 1))
            return v if isinstance(v, Term) else I.term(v, S({}, {}, 1))
        except Exception:
            return None

    # --------------------------------------------------------- machine types
    @staticmethod
    def worse(a, b):
        """is b unable to hold what a holds?"""
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3):
            return False
        if a[2] != b[2]:
            return False
        ka, kb = a[0], b[0]
        if ka == kb:
            return b[1] < a[1] and ka in "ui"
        if ka == "f":
            return True
        if ka in "ui" and kb == "b":
            return True
        if ka == "i" and kb == "u":
            return True
        if ka == "u" and kb == "i":
            return b[1] < a[1]
        return False

    def jit(self, a, p, where):
        x, y = tables.jit_info(a.f), tables.jit_info(p.repo)
        out = []
        if x is None or y is None:
            return out
        self.nslots += 1
        if len(x["sigs"]) and len(y["sigs"]) == len(x["sigs"]):
            inv = {v: k for k, v in p.pmap.items()}
            for (ra, ta), (rb, tb) in zip(x["sigs"], y["sigs"]):
                if self.worse(ra, rb):
                    out.append(Finding("V", a.name, "declared result type", "%s became %s" % (ra, rb), where))
                da, db = dict(zip(a.f.pos, ta)), dict(zip(p.repo.pos, tb))
                for n, t in da.items():
                    u = db.get(inv.get(n))
                    if u is not None and self.worse(t, u):
                        out.append(Finding("V", a.name, "declared type of " + n, "%s became %s" % (t, u), where))
        for n, t in x["locals"].items():
            u = y["locals"].get(n)
            if u is not None and self.worse(t, u):
                out.append(Finding("V", a.name, "declared type of " + n, "%s became %s" % (t, u), where))
        for fl in ("fastmath", "parallel"):
            ex, ey = x["flags"].get(fl), y["flags"].get(fl)
            vx = FALSE if ex is None else self.const(self.s.spec, a.f.mod, ex)
            vy = FALSE if ey is None else self.const(self.s.repo, p.repo.mod, ey)
            if vx is FALSE and vy is TRUE:
                out.append(Finding("V", a.name, "flag " + fl, "%s switched on" % fl, where))
        return out

    def field_tables(self, mods):
        out, n = [], 0
        for name in sorted(mods):
            ma, mb = self.s.spec.modules.get(name), self.s.repo.modules.get(name)
            if ma is None or mb is None:
                continue
            ta, tb = tables.field_tables(ma), tables.field_tables(mb)
            for t, rows in ta.items():
                other = dict(tb.get(t, []))
                for fld, ty in rows:
                    n += 1
                    u = other.get(fld)
                    if u is not None and self.worse(ty, u):
                        out.append(Finding("V", "%s.%s" % (name.split(".", 1)[-1], t), "field " + fld, "%s became %s" % (ty, u), mb.rel))
        self.nslots += n
        return out

    # ---------------------------------------------------------- second look
    def callers(self, quals):
        out = []
        for pkg, spec in ((self.s.spec, True), (self.s.repo, False)):
            for f in pkg.all_funcs():
                try:
                    cs = self.s.callees(pkg, f)
                except Exception:
                    continue
                if any(g.qual in quals for g in cs):
                    h = f if spec else next((k for k, p in self.s.pairs.items() if p.repo is f), None)
                    if h is not None and h not in out:
                        out.append(h)
        return out


def all_anchors(ck):
    out = []
    for f in ck.s.spec.all_funcs():
        if f.cls is None:
            out.append(Anchor(f))
            continue
        subs = [c for c in ck.s.spec.subclasses(f.cls) if c is not f.cls]
        use = [c for c in subs if Checker.find(ck.s.spec, c, f) is f] or [f.cls]
        out += [Anchor(f, c) for c in use]
    return out


def escaping(pkg):
    """names used as values, not only called: their callers cannot all be seen"""
    out = set()
    for m in pkg.modules.values():
        called = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                called.add(id(n.func))
                f = n.func
                if isinstance(f, ast.Call) and (getattr(f.func, "id", None) or getattr(f.func, "attr", None)) == "delayed":
                    for a in f.args:
                        called.add(id(a))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in called:
                out.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in called:
                out.add(n.attr)
    return out


def dynamic(pkg):
    """method names called on something else than self: the class is not known"""
    out = set()
    for m in pkg.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                v = n.func.value
                if isinstance(v, ast.Name) and v.id == "self":
                    continue
                if isinstance(v, ast.Call) and getattr(v.func, "id", "") == "super":
                    continue
                out.add(n.func.attr)
    return out


def second_look(ck, budget=300):
    """Reference quals whose difference is not observable: with all differing private
    functions spliced in, every function calling them is unchanged."""
    t0 = time.time()
    inl = set()
    for a in all_anchors(ck):
        if time.time() - t0 > budget / 2:
            return set()
        if any(f.kind == "V" or f.slot == "all" for f in ck.check(a, 60)) and not ck.public(a.f):
            inl.add(a.f.qual)
    bad = set(inl)
    if not bad:
        return set()
    esc = escaping(ck.s.spec) | escaping(ck.s.repo)
    dyn = dynamic(ck.s.spec) | dynamic(ck.s.repo)
    for _ in range(3):
        if any(q.split("@")[0].rsplit(".", 1)[-1] in esc for q in inl):
            return set()
        if any(
            f.cls is not None and f.name in dyn for f in ck.s.spec.all_funcs() if f.qual in inl
        ):
            return set()
        c2 = Checker(ck.root, inl)
        callers = set(c2.callers(inl))
        if not callers:
            return set()
        more = set()
        for a in all_anchors(c2):
            if a.f not in callers or a.f.qual in inl:
                continue
            left = budget - (time.time() - t0)
            if left < 2:
                return set()
            fs = c2.check(a, min(left, 100))
            if any(x.kind in "VU" for x in fs):
                if c2.public(a.f) or any(x.kind == "U" for x in fs):
                    return set()
                more.add(a.f.qual)
        if not more:
            return bad
        inl |= more
    return set()
