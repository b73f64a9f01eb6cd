"""Comparison of the value summaries of a function with the reference summaries.

Outcome per slot: equal, different (a violation: the repository computes something else
out of the same ingredients) or undecided (the repository uses loops or library calls
the reference does not use, so value numbering cannot relate them).
"""
import math
import time

from .terms import *
from . import terms as T
from .heap import *
from .loops import deps, bvheight, restrict_values

# scalar operations whose meaning is known: using one more of them is a real change
SAFE_CALLS = {
    "min", "max", "abs", "int", "float", "bool", "len", "log", "exp", "sqrt", "floor",
    "ceil", "isnan", "log2", "maximum", "minimum", "round", "str",
}
SYNONYMS = [
    {".ravel", ".flatten", "numpy.ravel"},
    {".reshape", "numpy.expand_dims", "numpy.newaxis"},
    {".isna", ".isnull", "pandas.isna", "pandas.isnull"},
    {".notna", ".notnull", "pandas.notna", "pandas.notnull"},
    {"numpy.concatenate", "numpy.hstack", "numpy.append", "numpy.r_"},
    {".to_numpy", ".values", "numpy.array"},
    {"numpy.sum", ".sum", "sum"},
]


INF = float("inf")


def syn(a, b):
    return any(a in s and b in s for s in SYNONYMS)


def callname(t):
    n = t.args[0]
    if isinstance(n, Term):
        return "ptr"
    return n


def vocab(terms):
    v = set()
    seen = set()
    for t in terms:
        for x in walk(t, seen):
            o = x.op
            if o == "call":
                v.add(("call", callname(x)))
            elif o == "init":
                v.add(("init", x.args[0]))
            elif o in ("callv", "delayed", "lam", "concat", "repeat", "exc", "other", "mixed",
                       "star", "rest", "cat", "app", "isinstance", "in", "hasattr", "shape",
                       "len", "dim", "fstr", "and", "or", "shl", "shr", "mod", "floordiv",
                       "pow", "fix", "comp", "each", "foreach", "minN", "set", "sorted"):
                v.add(("op", o))
            elif o.startswith("op"):
                v.add(("op", o))
            elif o == "cast":
                v.add(("cast", show(x.args[0])))
            elif o == "sym":
                v.add(("sym", x.args[0]))
            elif o == "slice" and len(x.args) == 3:
                v.add(("op", "slice3"))
    return v


PLAIN_OPS = {"and", "or", "shl", "shr", "mod", "floordiv", "pow", "len", "dim", "fstr", "isinstance"}


def loop_sig(f):
    """coarse shape of a closed loop"""
    if f.op == "comp":
        return ("comp", f.args[2] is TRUE)
    inits = set()
    h = bvheight_free(f)
    stack, seen = [f.args[0], f.args[2], f.args[3]], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == "mu0":
            inits.add(x.args[1])
            continue
        if x.op == "fix":
            continue
        if x.op == "bool":
            stack.extend(bsupport(x.args[0]))
        else:
            stack.extend(x.args)
    return ("fix", f.args[1] is NONE, f.args[2] is TRUE, f.args[3] is FALSE, len(inits))


def bvheight_free(f):
    return bvheight(f)


class Result:
    def __init__(self):
        self.equal, self.diff, self.undecided = [], [], []


def subterms(t):
    return set(walk(t))


SIZES = {"shape", "size", "ndim", "n_samples", "n_features", "dtype", "values", "T"}


def support(t):
    """names of the inputs and fields a value depends on"""
    out = set()
    for x in walk(t):
        if x.op == "sym":
            n = x.args[0]
            if isinstance(n, str) and not n.startswith("$") and ":" not in n:
                out.add(n)
        elif x.op == "path":
            for p in x.args:
                if isinstance(p, str):
                    out.add(p.lstrip("."))
                elif isinstance(p, Term) and p.op == "c" and isinstance(p.args[0], str):
                    out.add(p.args[0])
    return out - SIZES


def compare_slots(a, b, fields=None, ignore=None, used=(), more_loops=False):
    """a: reference slots, b: repository slots -> Result with (slot, message)"""
    res = Result()
    va = vocab(a.values()) | set(used)
    b = paired(a, b)
    fixes_a = set()
    for t in a.values():
        for x in walk(t):
            if x.op in ("fix", "comp"):
                fixes_a.add(loop_sig(x))
    clock = [time.time() + 20]
    for k in list(a) + [k for k in b if k not in a]:
        if ignore and ignore(k):
            continue
        name = slot_name(k)
        x, y = a.get(k), b.get(k)
        if x is y:
            res.equal.append(name)
            continue
        if x is None:
            x = absent(k)
        if y is None:
            y = absent(k)
        if x is y:
            res.equal.append(name)
            continue
        try:
            same = deep(x, clock=clock) is deep(y, clock=clock)
        except (TooBig, RecursionError):
            same = False
        if not same:
            x2, y2 = x, y
            for _ in range(4):
                x3, y3 = x2, y2
                x2, y2 = ordered(x2, y2)
                if x2 is x3 and y2 is y3:
                    break
            if x2 is not x or y2 is not y:
                x, y = x2, y2
                try:
                    same = deep(x, clock=clock) is deep(y, clock=clock)
                except (TooBig, RecursionError):
                    pass
        if same:
            res.equal.append(name)
            continue
        try:
            d = Split(clock=clock).differ(x, y, ())
        except (TooBig, RecursionError):
            try:
                d = refute(x, y) or ()
            except (TooBig, RecursionError):
                d = ()
            if not d:
                res.undecided.append((name, "neither proved equal nor told apart in time"))
                continue
        if d is None:
            res.equal.append(name)
            continue
        if isinstance(k, tuple):
            # what is left behind by a call that raises is not compared
            pc = 0
            for c in (a, b):
                for kk, r in c.items():
                    if isinstance(kk, str) and kk.startswith("raise:"):
                        pc = b_or(pc, T.truth(r))
            if pc > 1:
                try:
                    if Split().differ(ite(bnot(pc), x, NONE), ite(bnot(pc), y, NONE), ()) is None:
                        res.equal.append(name)
                        continue
                except (TooBig, RecursionError):
                    pass
        why = incomparable(x, y, va, fixes_a, k, k in a, k in b, more_loops)
        if why:
            sx, sy = support(x), support(y)
            if sx - sy and not sy - sx:
                res.diff.append((name, "does not depend on %s any more (%s)" % (
                    ", ".join(sorted(sx - sy)), why)))
                continue
            if k in a and k in b:
                from .unroll import told_apart

                gx, gy = x, y
                if isinstance(k, tuple) and pc > 1:
                    gx, gy = ite(bnot(pc), x, NONE), ite(bnot(pc), y, NONE)
                d = told_apart(gx, gy)
                if d:
                    res.diff.append((name, "in the first iterations: " + explain(d[0], d[1], k, True, True)))
                    continue
            res.undecided.append((name, why))
        else:
            res.diff.append((name, explain(x, y, k, k in a, k in b)))
    return res


def paired(a, b):
    """the contents of an object built on both sides are compared under one name: that it is built
    from other values already shows where the object goes"""
    only = [[k for k in p if isinstance(k, tuple) and head(k[1]) and k not in q] for p, q in ((a, b), (b, a))]
    ren = {}
    for ka in only[0]:
        like = [[k for k in o if k[0] == ka[0] and head(k[1]) == head(ka[1])] for o in only]
        if len(like[0]) == len(like[1]) == 1:
            ren[like[1][0]] = ka
    if not ren:
        return b
    m = {}
    for k, ka in ren.items():
        x, y = k[1], ka[1]
        m[x] = y
        while x.op == "ld":
            x, y = x.args[0], y.args[0]
            m[x] = y
    memo = {}
    out = {}
    for k, v in b.items():
        if k in ren:
            out[ren[k]] = subst(v, m.get, memo)
        else:
            out[k] = v
    return out


def head(t):
    way = []
    while t.op == "ld":
        way.append(t.args[1])
        t = t.args[0]
    if t.op != "init":
        return None
    return way, t.args[0], [callname(u) for u in t.args[1:] if isinstance(u, Term) and u.op == "call"]


def ordered(x, y):
    """equality of two values one side orders in both directions, in terms of the order"""
    lts = [set(), set()]
    eqs = [{}, {}]
    for i, t in enumerate((x, y)):
        for u in walk(t):
            if u.op == "lt0":
                lts[i].add(u.args[0])
            elif u.op == "eq0":
                eqs[i][u] = u.args[0]
            elif u.op == "eq" and not any(a.op in ("c", "fn", "sel", "bool") for a in u.args):
                eqs[i][u] = T.sub(*u.args)
    todo = {
        u for i in (0, 1) for u, d in eqs[i].items()
        if any(p in l for m in (d, T.sub(num(0), d)) for p in (m, T.sub(m, num(1))) for l in lts)
    }
    if not todo:
        return x, y
    memo = {}

    def fn(u):
        if u not in todo:
            return None
        d = u.args[0] if u.op == "eq0" else T.sub(*u.args)
        d = subst(d, fn, memo)
        return mkbool(b_and(bnot(T.lt0(d)), bnot(T.lt0(T.sub(num(0), d)))))

    return subst(x, fn, memo), subst(y, fn, memo)


class TooBig(Exception):
    pass


def deep(t, limit=400000, clock=(INF,)):
    """re-simplify every branch under the decision that guards it, through values"""
    fuel = [limit]
    memo = {}

    def fn(x):
        if x.op != "sel":
            return None
        fuel[0] -= 1
        if fuel[0] < 0 or time.time() > clock[0]:
            raise TooBig()
        v, hi, lo = x.args
        nh, nl = shallow(hi, v, 1), shallow(lo, v, 0)
        return ite(bvar(v), subst(nh, fn, memo), subst(nl, fn, memo))

    def shallow(u, v, val):
        fuel[0] -= 20
        return restrict_values(u, v, val)

    return subst(t, fn, memo)


_atoms = {}
_free = {}


def free(t):
    """heights of the loop variables free in t (at least; a loop removes its own)"""
    r = _free.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset((t.args[0],))
    else:
        out = set()
        stack = list(bsupport(t.args[0])) if t.op == "bool" else list(t.args)
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
            elif isinstance(x, Term):
                out |= free(x)
        if t.op in T.BINDERS and out:
            out.discard(own(t, out))
        r = frozenset(out)
    _free[t] = r
    return r


def own(t, out=None):
    """the variable of a loop: inner loops have smaller ones, outer loops larger ones"""
    if t.op == "comp":
        return t.args[1].args[0]
    if out is None:
        out = set(free(mk("args", *t.args)))
    return min(out, default=None)


def decisions(t):
    """decision atoms inside t that contain no decision themselves and have one truth value in t"""
    r = _atoms.get(t)
    if r is not None:
        return r
    out = set()
    if t.op in ("bool", "sel"):
        for a in bsupport(t.args[0]) if t.op == "bool" else t.args[:1]:
            inner = decisions(mk("args", *a.args))
            if inner:
                out |= inner
            else:
                out.add(a)
        stack = [] if t.op == "bool" else list(t.args[1:])
    else:
        stack = list(t.args)
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Term):
            out |= decisions(x)
    if t.op in T.BINDERS and out:
        v = own(t)
        out = {a for a in out if v not in free(a)}
    r = _atoms[t] = frozenset(out)
    return r


def assume(t, atom, val, fuel):
    """t where atom has the truth value val, everywhere"""
    memo, bm = {}, {}
    if val and atom.op == "isnone":
        memo[atom.args[0]] = NONE
    elif val and atom.op == "eq":
        for i in (0, 1):
            c = atom.args[i]
            if c.op == "c" and isinstance(c.args[0], str) and atom.args[1 - i].op != "c":
                memo[atom.args[1 - i]] = atom.args[i]

    def truth_of(a):
        if a is atom:
            return int(val)
        op = a.op
        if op == "lt0":
            return lt0(go(a.args[0]))
        if op == "eq0":
            return eq(go(a.args[0]), num(0))
        if op == "eq":
            return eq(go(a.args[0]), go(a.args[1]))
        if op == "isnone":
            return isnone(go(a.args[0]))
        if op == "truthy":
            return truth(go(a.args[0]))
        return bvar(go(a))

    def gob(n):
        if n <= 1:
            return n
        r = bm.get(n)
        if r is None:
            a, hi, lo = T._bn[n]
            r = bm[n] = bite(truth_of(a), gob(hi), gob(lo))
        return r

    def goa(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goa(x) for x in a)
        return a

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not t.args:
            return t
        fuel[0] -= 1
        if fuel[0] < 0:
            raise TooBig()
        if t.op == "bool":
            r = mkbool(gob(t.args[0]))
        elif t.op == "sel":
            f = truth_of(t.args[0])
            r = go(t.args[1]) if f == 1 else go(t.args[2]) if f == 0 else ite(f, go(t.args[1]), go(t.args[2]))
        else:
            na = tuple(goa(a) for a in t.args)
            r = t if na == t.args else T.rebuild(t.op, na)
            while T.is_extremum(r):
                q = fewer(r, lambda f: None if f > 1 else f) if atom.op != "lt0" else fewer(r, literal)
                if q is r:
                    break
                r = q
        memo[t] = r
        return r

    def literal(f):
        if f <= 1:
            return f
        a, hi, lo = T._bn[f]
        if a is atom and hi <= 1 and lo <= 1:
            return hi if val else lo
        return None

    return go(t)


def fewer(r, decide):
    """max or min without an argument that another one is known to exceed"""
    xs = r.args[1]
    for i, a in enumerate(xs):
        for b in xs[i + 1:]:
            f = decide(T.lt(a, b))
            g = decide(T.lt(b, a)) if f is None or f == 0 else 0
            if f == 1 or g == 0 or f == 0 or g == 1:
                first = f == 1 or f is None and g == 0  # a is the smaller one
                drop = a if first == (r.args[0] == "max") else b
                return T.extremum(r.args[0], [x for x in xs if x is not drop])
    return r


def implied(a, val, b):
    """the truth value of atom b when atom a has truth value val; None if not decided"""
    if a is b:
        return val
    num_ops = ("eq0", "lt0")
    if a.op in num_ops and b.op in num_ops:
        p, q = a.args[0], b.args[0]
        d = sub(q, p)
        if d.op == "num":
            d, sg = d.args[0], 1
        else:
            d = T.add(q, p)
            if d.op != "num":
                return None
            d, sg = d.args[0], -1
        # q = sg * p + d
        if a.op == "eq0":
            if not val:
                return None
            return bool(d == 0 if b.op == "eq0" else d < 0)
        # the sign of p, so sg * p is < 0, > 0, >= 0 or <= 0
        neg, strict = (val, val) if sg > 0 else (not val, val)
        if neg and (d < 0 or d == 0 and strict):
            return b.op == "lt0"
        if not neg and (d > 0 or d == 0 and strict):
            return False
        if not neg and d == 0:
            return False if b.op == "lt0" else None
        return None
    if not val:
        return None
    if a.op in ("eq", "isnone"):
        for i in range(len(a.args)):
            x = a.args[i]
            c = NONE if a.op == "isnone" else a.args[1 - i]
            if c.op != "c" or x.op == "c":
                continue
            if b.op == "eq" and x in b.args:
                o = b.args[1 - b.args.index(x)]
                if o.op == "c" and o is not c:
                    return False
            elif b.op == "isnone" and b.args[0] is x:
                return c is NONE
            elif b.op == "isinstance" and b.args[0] is x and c is NONE:
                return False
            elif b.op == "truthy" and b.args[0] is x and c is NONE:
                return False
    if a.op == "isinstance" and b.op == "isnone" and b.args[0] is a.args[0]:
        return False
    if a.op == "truthy" and b.op == "isnone" and b.args[0] is a.args[0]:
        return False
    return None


def linear(a):
    """a comparison of a linear form with a constant: (form, bound, sign of the form in it)"""
    p = T.poly_of(a.args[0])
    k = p.pop((), 0)
    if not p:
        return None
    m = min(p, key=lambda m: tuple((x.id, e) for x, e in m))
    c = p[m]
    return tuple(sorted(((m, q / c) for m, q in p.items()), key=lambda z: tuple((x.id, e) for x, e in z[0]))), -k / c, c > 0


def impossible(env):
    """the assumed comparisons contradict each other"""
    forms, ints = {}, set()
    for a, val in env:
        if a.op in ("lt0", "eq0"):
            f = linear(a)
            if f is not None:
                forms.setdefault(f[0], []).append((a.op, val, f[1], f[2]))
        elif a.op == "isinstance" and val and a.args[1].op == "fn" and a.args[1].args[0] == "int":
            ints.add(a.args[0])
    for form, facts in forms.items():
        if len(facts) < 2:
            continue
        t = T.from_poly(dict(form))
        whole = T.is_int(t) or t in ints
        lo, hi, out = (-INF, False), (INF, False), set()
        for op, val, b, up in facts:
            if op == "eq0":
                if val:
                    lo, hi = max(lo, (b, False)), min(hi, (b, True), key=lambda h: (h[0], h[1]))
                else:
                    out.add(b)
            elif up == val:
                # form < b (up) or not (form > b): the bound is strict when the fact holds
                hi = min(hi, (b, not val), key=lambda h: (h[0], h[1]))
            else:
                lo = max(lo, (b, val))
        # lo = (bound, excluded), hi = (bound, included)
        l, h = lo[0], hi[0]
        if whole:
            if l != -INF:
                l = math.floor(l) + 1 if lo[1] else math.ceil(l)
                while l in out:
                    l += 1
            if h != INF:
                h = math.floor(h) if hi[1] else math.ceil(h) - 1
                while h in out:
                    h -= 1
            if l > h:
                return True
        elif l > h or l == h and (lo[1] or not hi[1] or l in out):
            return True
    return False


class Oracle:
    """one consistent choice of truth values for all decisions"""

    def __init__(self, rnd):
        self.rnd, self.env, self.val, self.values, self.grown = rnd, (), {}, {}, False

    def truth(self, a):
        r = self.val.get(a)
        if r is None:
            for b, v in self.env:
                r = implied(b, v, a)
                if r is not None:
                    break
            if r is None:
                r = self.rnd.random() < 0.5
                if a.op in ("lt0", "eq0") and impossible(self.env + ((a, r),)):
                    r = not r
            self.val[a] = r
            self.env += ((a, r),)
            if r and a.op == "isnone":
                self.values[a.args[0]] = NONE
                self.grown = True
            elif r and a.op == "eq":
                for i in (0, 1):
                    c = a.args[i]
                    if c.op == "c" and isinstance(c.args[0], str) and a.args[1 - i].op != "c":
                        self.values[a.args[1 - i]] = c
                        self.grown = True
        return r

    def value(self, t, fuel):
        """t under the choices"""
        memo, bm = dict(self.values), {}

        def atom(a):
            op = a.op
            if op == "lt0":
                f = lt0(go(a.args[0]))
            elif op == "eq0":
                f = eq(go(a.args[0]), num(0))
            elif op == "eq":
                f = eq(go(a.args[0]), go(a.args[1]))
            elif op == "isnone":
                f = isnone(go(a.args[0]))
            elif op == "truthy":
                f = truth(go(a.args[0]))
            else:
                f = bvar(go(a))
            return fix(f)

        def fix(f):
            while f > 1:
                b, hi, lo = T._bn[f]
                f = hi if self.truth(b) else lo
            return f

        def gob(n):
            r = bm.get(n)
            if r is None:
                m = n
                while m > 1:
                    b, hi, lo = T._bn[m]
                    m = hi if atom(b) else lo
                r = bm[n] = m
            return r

        def goa(a):
            if isinstance(a, Term):
                return go(a)
            if isinstance(a, tuple):
                return tuple(goa(x) for x in a)
            return a

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if not t.args:
                return t
            fuel[0] -= 1
            if fuel[0] < 0:
                raise TooBig()
            if t.op == "bool":
                r = mkbool(gob(t.args[0]))
            elif t.op == "sel":
                r = go(t.args[1]) if atom(t.args[0]) else go(t.args[2])
            else:
                na = tuple(goa(a) for a in t.args)
                r = t if na == t.args else T.rebuild(t.op, na)
                if r is not t and r.op in ("bool", "sel"):
                    r = go(r)
            while T.is_extremum(r):
                r = fewer(r, fix)
            memo[t] = r
            return r

        return go(t)


def refute(x, y, tries=60):
    """a case in which the two values differ"""
    import random

    rnd = random.Random(7)
    fuel = [6000000]
    for _ in range(tries):
        o = Oracle(rnd)
        for _ in range(4):
            o.grown = False
            u, v = o.value(x, fuel), o.value(y, fuel)
            if not o.grown:
                break
        if u is not v and not (decisions(u) or decisions(v)):
            return u, v, o.env
    return None


POSITIONAL = ("poly", "c", "num", "sym", "bool", "sel")


class Split:
    """decides equality by cases on the decisions of both values, wherever they stand"""

    def __init__(self, fuel=800000, clock=(INF,)):
        self.fuel, self.clock = [fuel], clock

    def known(self, v, env):
        for a, val in env:
            r = implied(a, val, v)
            if r is not None:
                return r
        return None

    def cases(self, v, x, y, env):
        k = self.known(v, env)
        for val in (True, False) if k is None else (k,):
            if impossible(env + ((v, val),)):
                continue
            cx, cy = assume(x, v, val, self.fuel), assume(y, v, val, self.fuel)
            d = self.differ(cx, cy, env + ((v, val),))
            if d is not None:
                return d
        return None

    def differ(self, x, y, env):
        """None if equal in every case, else a pair of differing values"""
        if x is y:
            return None
        self.fuel[0] -= 10
        if self.fuel[0] < 0 or time.time() > self.clock[0]:
            raise TooBig()
        top = set()
        for t in (x, y):
            if t.op == "sel":
                top |= decisions(mk("sel", t.args[0], NONE, NONE))
            elif t.op == "bool":
                top |= decisions(t)
        if top:
            return self.cases(min(top, key=lambda a: a.id), x, y, env)
        if self.same(x, y, env):
            return None
        ds = decisions(x) | decisions(y)
        if not ds:
            return (x, y)
        return self.cases(min(ds, key=lambda a: a.id), x, y, env)

    def same(self, x, y, env):
        """argument by argument"""
        if x is y:
            return True
        if x.op != y.op or len(x.args) != len(y.args):
            return False
        if x.op == "poly":
            ax = {a for m, _ in x.args[0] for a, _ in m}
            ay = {a for m, _ in y.args[0] for a, _ in m}
            o, q = list(ax - ay), list(ay - ax)
            if len(o) == len(q) == 1 and (decisions(o[0]) or decisions(q[0])):
                return subst(x, {o[0]: q[0]}.get) is y and self.differ(o[0], q[0], env) is None
            return False
        if x.op in POSITIONAL:
            return False
        return self.args(x.args, y.args, env)

    def args(self, p, q, env):
        for a, b in zip(p, q):
            if a is b or a == b:
                continue
            if isinstance(a, Term) and isinstance(b, Term):
                if decisions(a) or decisions(b):
                    if self.differ(a, b, env) is None:
                        continue
                elif self.same(a, b, env):
                    continue
                return False
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                if self.args(a, b, env):
                    continue
            return False
        return True


def absent(k):
    if isinstance(k, tuple):
        return base(k[1])
    if k == "ret":
        return NONE
    return FALSE


def slot_name(k):
    if isinstance(k, tuple):
        return "contents of " + cut(show(k[1]), 120)
    return {"ret": "result"}.get(k, k)


def cut(s, n=300):
    return s if len(s) <= n else s[: n - 1] + "…"


# a value picked out of an array by its rank is no rewriting of arithmetic, of comparisons or
# of membership tests: only a loop or another library call can have computed it before
MAYBE = {
    "where", "select", "choose", "power", "pow", "float_power", "divmod", "log1p", "expm1", "logaddexp",
    "logaddexp2", "isin", "in1d", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal",
    "floor_divide", "mod", "remainder", "negative",
    "reciprocal", "square", "copy", "view", "tolist", "item", "asarray", "asanyarray", "array", "require",
    "ascontiguousarray", "to_numpy", "values", "get", "next", "iter", "vars", "type", "map", "filter",
    "join", "format", "take", "put", "compress", "extract", "broadcast_to", "reshape", "ravel", "flatten",
    "squeeze", "expand_dims", "transpose", "stack", "dot", "matmul", "inner", "outer", "einsum", "vdot",
    "fromiter", "fromfunction", "getattr", "setattr", "update", "setdefault", "sum", "any", "all",
    "nansum", "count_nonzero", "dict", "list", "tuple", "object", "super", "property", "iinfo", "finfo",
    "dtype", "result_type", "isdigit", "Path", "str", "repr", "print", "warn", "debug", "info", "ldexp",
    "frexp", "fma", "hypot", "bit_length", "bit_count", "array_split", "split", "partial", "prod",
    "maximum", "minimum", "fmax", "fmin", "clip", "abs", "sign", "fabs", "bitwise_and", "bitwise_or",
    "bitwise_xor", "left_shift", "right_shift", "invert", "logical_xor", "setdiff1d", "union1d",
    "intersect1d", "delete", "insert", "tile", "repeat", "concatenate", "append", "extend", "hstack",
    "vstack", "column_stack", "full", "issubset", "issuperset", "union", "difference", "intersection",
    "isdisjoint", "symmetric_difference", "is_integer", "trunc", "fix", "index", "count", "eval",
    "frombuffer", "tobytes", "chain", "from_iterable", "product", "islice", "accumulate", "reduce",
    "astype", "set_axis", "rename", "get_dtype", "numpy", "isinstance", "issubclass", "callable", "id",
    "nditer", "ndenumerate", "ndindex", "apply_along_axis", "vectorize", "assign", "apply", "pipe",
    "transform", "agg", "reindex", "set_categories", "Categorical", "factorize", "cat", "loc", "iloc",
    "mask", "notna", "isna", "isnull", "notnull", "dropna", "hasnans", "eq", "ne", "lt", "le", "gt", "ge",
}
QUALIFIED = ("itertools.", "functools.", "operator.", "collections.", "dataclasses.", "logging.",
             "warnings.", "typing.", "contextlib.", "threading.", "joblib.", "numba.", "copy.", "types.")
# approximations: the value differs for some input, or the environment decides
LOSSY = {"round", "around", "rint", "isclose", "allclose", "array_equal_approx", "nan_to_num", "quantile",
         "nanquantile", "percentile", "nanpercentile", "nanmedian", "nanmean", "interp", "cpu_count",
         "getenv", "getpid", "gethostname", "time", "perf_counter", "monotonic", "now", "today", "urandom",
         "uuid4", "uuid1", "shuffle", "permutation", "permuted", "uniform", "normal", "standard_normal",
         "random_sample", "rand", "randn", "fillna", "ffill", "bfill", "interpolate", "sched_getaffinity",
         "active_count", "isfile", "exists", "signbit"}
NARROW = {"float32", "single", "f4", "float16", "half", "int8", "uint8", "int16", "uint16", "f2", "i1", "u1", "i2", "u2", "e", "<f2"}


UNIQUES = {"set", "frozenset", "unique", "nunique", "fromkeys", "drop_duplicates", "value_counts", "factorize"}


def narrow(t):
    """a conversion to a type that cannot hold the values it is given"""
    d = None
    if t.op == "call" and callname(t) == ".astype":
        d = t.args[1][1] if len(t.args[1]) > 1 else None
    elif t.op == "call" and callname(t) in ("numba.float32", "numpy.float32", "numpy.float16"):
        return None if is_num(t.args[1][0]) else "float32"
    elif t.op == "cast":
        d = t.args[0]
    elif t.op == "init" and str(t.args[0]).startswith("numpy."):
        d = {k: v for k, v in (q for q in t.args[1] if isinstance(q, tuple) and len(q) == 2)}.get("dtype")
        if not isinstance(d, Term):
            return None
    elif t.op == "call":
        d = dict(t.args[2]).get("dtype") if all(isinstance(x, tuple) and len(x) == 2 for x in t.args[2]) else None
    if d is None or d.op not in ("fn", "c", "ext"):
        return None
    n = str(d.args[0]).rsplit(".", 1)[-1]
    return n if n in NARROW else None


def decisive(new, gone, vn):
    """a construct among the new ones that changes the value whatever else was rewritten"""
    had = {str(callname(t)).rsplit(".", 1)[-1] for t in gone if t.op == "call"}
    types = {narrow(t) for t in gone}
    for t in new:
        if t.op == "call":
            n = str(callname(t)).rsplit(".", 1)[-1]
            if n in LOSSY and n not in had and not (
                n == "permutation" and "choice" in had
            ):
                return "call of " + n
            if n == "choice" and "choice" not in had:
                r = dict(q for q in t.args[2] if isinstance(q, tuple) and len(q) == 2).get("replace")
                r = t.args[1][3] if len(t.args[1]) > 3 else r
                if isinstance(r, Term) and r is not mk("bool", 1):
                    return "draws without replacement"
            if n in ("list", "sorted", "array", "tuple", "len", "fromiter", "asarray") and not had & UNIQUES:
                for x in t.args[1] + tuple(v for _, v in t.args[2]):
                    if isinstance(x, Term) and x.op == "call" and callname(x) in ("set", "frozenset"):
                        return "duplicates and order are lost in set()"
        d = narrow(t)
        if d is not None and d not in types:
            return "conversion to " + d
    return None


NEUTRAL = {
    "copy", "deepcopy", "array", "asarray", "asanyarray", "ascontiguousarray", "require", "list", "tuple", "dict", "int",
    "float", "bool", "str", "view", "squeeze", "ravel", "flatten", "reshape", "astype", "atleast_1d", "to_numpy", "values",
    "sorted", "unique", "isinstance",
}


def added(x, y, memo):
    """all that the reference computes is still computed as it was, and something is done to a part of it"""
    if x is y:
        return True
    r = memo.get((x.id, y.id))
    if r is None:
        memo[x.id, y.id] = False
        r = same_shape(x, y, memo) or wraps(x, y)
        memo[x.id, y.id] = r
    return r


def same_shape(x, y, memo):
    if x.op != y.op or len(x.args) != len(y.args):
        return False
    return all(parts(a, b, memo) for a, b in zip(x.args, y.args))


def parts(a, b, memo):
    if isinstance(a, Term):
        return isinstance(b, Term) and added(a, b, memo)
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(parts(u, v, memo) for u, v in zip(a, b))
    return a == b


def wraps(x, y):
    if y.op in ("sel", "bool", "num") or x.op in ("num", "bool", "sym"):
        return False
    if not any(t is x for t in walk(y)):
        return False
    stop = subterms(x)
    extra = [t for t in subterms(y) if t not in stop]
    return not any(t.op == "call" and str(callname(t)).rsplit(".", 1)[-1] in NEUTRAL for t in extra)


def refilled(t):
    def f(u):
        if u.op == "alias":
            return refilled(u.args[0])
        if u.op == "init" and u.args[0] == "numpy.zeros":
            return mk("val", num(0))
        return None

    return T.subst(t, f)


def incomparable(x, y, va, fixes_a, k, ina, inb, more_loops=False):
    if isinstance(k, tuple) and not ina and not (k[1].op == "sym" and str(k[1].args[0]).startswith("$io")):
        # an object the reference leaves alone is written: what is written does not matter
        if any(t.op == "sym" and str(t.args[0]).startswith("$carried") for t in walk(k[1])):
            return "carried reference"
        if more_loops and any(t.op == "fix" for t in subterms(y)):
            return "one more loop"
        return None
    if refilled(x) is refilled(y):
        return "fresh array in place of a refilled one"
    sx, sy = subterms(x), subterms(y)
    new = [t for t in sy if t not in sx]
    gone = [t for t in sx if t not in sy]
    vn = vocab_flat(new)
    if decisive(new, gone, vn):
        return None
    if not more_loops and added(x, y, {}):
        return None
    gone_calls = [t for t in gone if t.op == "call"]
    replaced_nothing = loops_of(gone) == loops_of(new) and all(
        str(callname(g)).startswith("wildwood.") or ("call", callname(g)) in vn for g in gone_calls
    )
    lost_loops = [t for t in gone if t.op in ("fix", "comp")]
    for kind, n in vn:
        if (kind, n) in va:
            continue
        if (kind, n) == ("sym", "$deleted"):
            if not all(t.op in ("path", "tup", "term") for t in gone if t is not x) or lost_loops:
                return "deletion"
            continue
        if kind == "call":
            if n in SAFE_CALLS:
                continue
            if replaced_nothing and not str(n).startswith(QUALIFIED) and (
                str(n).rsplit(".", 1)[-1] not in MAYBE
            ):
                continue
            c = [t for t in new if t.op == "call" and callname(t) == n]
            if all(
                any(g.args[1:] == t.args[1:] and not syn(callname(g), n) for g in gone_calls)
                for t in c
            ):
                continue
            return "call of %s" % n
        if kind == "sym":
            if isinstance(n, str) and n.startswith("global:"):
                return "module state %s" % n
            if n in ("$carried",):
                return "carried reference"
            continue
        if kind == "cast" and "int" in n:
            continue
        if kind == "op" and (
            n in PLAIN_OPS or n in ("shape", "slice3") and replaced_nothing or n == "transpose" and not lost_loops
        ):
            continue
        if kind == "init":
            c = [t for t in new if t.op == "init" and t.args[0] == n]
            if all(any(g.op == "init" and g.args[1:] == t.args[1:] for g in gone) for t in c):
                continue
            return "allocation %s" % n
        return "%s %s" % (kind, n)
    for t in new:
        if t.op in ("fix", "comp"):
            s = loop_sig(t)
            if s not in fixes_a:
                return "loop of another shape"
    walks = [[t for t in ts if t.op in ("keys", "values") and not is_plain(t.args[0])] for ts in (gone, new)]
    if bool(walks[0]) != bool(walks[1]):
        return "walk over a dictionary filled in a loop"
    if any(threaded(t) for t in new) and not any(threaded(t) for t in gone):
        return "value carried through an array"
    # a loop or call vanished and something else of the same vocabulary took its place
    if more_loops and any(t.op in ("fix", "comp") for t in new):
        return "one more loop"
    lost = [t for t in gone if t.op in ("fix", "comp")]
    if len(lost) > len([t for t in new if t.op in ("fix", "comp")]):
        elementwise = {
            r for t in lost for u in walk(t)
            if u.op == "ld" and any(isinstance(q, Term) and free(q) for q in u.args[1].args)
            for r in (u.args[0],) + (u.args[0].args if u.args[0].op == "base" else ())
        }
        for t in new:
            if t.op == "val" and t.args[0] in elementwise or (
                t.op in ("ld", "st") and t.args[0] in elementwise
                and any(isinstance(q, Term) and q.op == "slice" for q in t.args[1].args)
            ):
                return "whole array in place of a loop over its elements"
    return None


def is_plain(t):
    return not any(u.op == "fix" for u in subterms(t))


def threaded(t):
    """a loop that stores into an array what it read at another place of it"""
    if t.op != "st" or not isinstance(t.args[2], Term):
        return False
    root = t.args[0]
    while root.op == "st":
        root = root.args[0]
    if root.op not in ("muk", "mu", "mu0"):
        return False
    return any(
        u.op == "ld" and u.args[1] is not t.args[1] and (u.args[0] is root or u.args[0].op == "base" and u.args[0].args[0] is root)
        for u in walk(t.args[2])
    )


def loops_of(ts):
    return sorted(str(loop_sig(t)) for t in ts if t.op in ("fix", "comp"))


def vocab_flat(ts):
    v = set()
    for x in ts:
        o = x.op
        if o == "call":
            v.add(("call", callname(x)))
        elif o == "init":
            v.add(("init", x.args[0]))
        elif o == "cast":
            v.add(("cast", show(x.args[0])))
        elif o == "sym":
            v.add(("sym", x.args[0]))
        elif o in ("callv", "delayed", "lam", "concat", "repeat", "exc", "other", "mixed", "star",
                   "rest", "cat", "app", "isinstance", "in", "hasattr", "shape", "len", "dim",
                   "fstr", "and", "or", "shl", "shr", "mod", "floordiv", "pow", "fix", "comp",
                   "each", "foreach", "minN") or o.startswith("op"):
            v.add(("op", o))
        elif o == "slice" and len(x.args) == 3:
            v.add(("op", "slice3"))
        elif o == "ld" and ".T" in x.args[1].args:
            v.add(("op", "transpose"))
    return v


# ------------------------------------------------------------------ explaining
def explain(x, y, k, ina, inb):
    if isinstance(k, tuple):
        if not inb:
            return "the reference writes here, the repository does not: %s" % cut(show(x), 200)
        if not ina:
            return "written by the repository only: %s" % cut(show(y), 200)
    if isinstance(k, str) and k.startswith("raise:"):
        if not inb:
            return "never raised any more (reference: when %s)" % cut(show(x), 200)
        if not ina:
            return "raised when %s" % cut(show(y), 200)
    out = []
    leaves(x, y, [], out, set(), [0])
    if not out:
        return "reference %s; repository %s" % (cut(show(x), 150), cut(show(y), 150))
    g, p, q = out[0]
    s = "reference %s; repository %s" % (cut(show(p), 200), cut(show(q), 200))
    if g:
        s += " (when %s)" % cut(" & ".join(g), 200)
    return s


def leaves(x, y, guard, out, seen, fuel):
    """first differing sub-values"""
    if x is y or out or fuel[0] > 20000:
        return
    fuel[0] += 1
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return
        for p, q in zip(x, y):
            leaves(p, q, guard, out, seen, fuel)
        return
    if not isinstance(x, Term) or not isinstance(y, Term):
        return
    if (x, y) in seen:
        return
    seen.add((x, y))
    if x.op == "bool" or y.op == "bool":
        fx, fy = T.truth(x), T.truth(y)
        d1 = bcubes(b_and(fx, bnot(fy)), 1)
        d2 = bcubes(b_and(bnot(fx), fy), 1)
        sa, sb = bsupport(fx), bsupport(fy)
        oa = [a for a in sa if a not in sb]
        ob = [a for a in sb if a not in sa]
        if len(oa) == len(ob) == 1:
            n = len(out)
            leaves(oa[0], ob[0], guard, out, seen, fuel)
            if len(out) > n:
                return
        out.append((guard, x, y))
        return
    if x.op == "sel" or y.op == "sel":
        vs = [t.args[0] for t in (x, y) if t.op == "sel"]
        v = min(vs, key=lambda a: a.id)
        for val in (1, 0):
            cx = (x.args[1] if val else x.args[2]) if x.op == "sel" and x.args[0] is v else x
            cy = (y.args[1] if val else y.args[2]) if y.op == "sel" and y.args[0] is v else y
            leaves(cx, cy, guard + [("" if val else "not ") + cut(show(v), 80)], out, seen, fuel)
        return
    if x.op != y.op or len(x.args) != len(y.args):
        out.append((guard, x, y))
        return
    if x.op in ("num", "c", "sym", "poly", "path"):
        if x.op == "poly":
            d = sub(x, y)
            px, py = poly_of(x), poly_of(y)
            ax = {a for m in px for a, _ in m}
            ay = {a for m in py for a, _ in m}
            o1, o2 = list(ax - ay), list(ay - ax)
            if len(o1) == len(o2) == 1:
                n = len(out)
                leaves(o1[0], o2[0], guard, out, seen, fuel)
                if len(out) > n:
                    return
        if x.op == "path" and len(x.args) == len(y.args):
            for p, q in zip(x.args, y.args):
                leaves(p, q, guard, out, seen, fuel)
            if out:
                return
        out.append((guard, x, y))
        return
    n = len(out)
    for p, q in zip(x.args, y.args):
        leaves(p, q, guard, out, seen, fuel)
    if len(out) == n and fuel[0] <= 20000:
        out.append((guard, x, y))
