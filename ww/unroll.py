"""Telling loops apart: the first iterations of the loops in two summaries.

Used only when the loops of two summaries have different shapes.  A loop term is
replaced by its value after 0, 1 or 2 iterations, under one consistent choice of the truth
values of all decisions; what is left contains neither loops nor decisions and is
compared by normal form.  Nothing is executed: indices, array contents and results of
library calls stay symbolic.
"""
import random
import time

from .terms import *
from . import terms as T
from .heap import *
from . import compare as C

MAX = 2


class Deep(Exception):
    """more iterations than are looked at"""


_heights = {}


def heights(t):
    """heights of the loop variables and states free in t"""
    r = _heights.get(t)
    if r is not None:
        return r
    out = set()
    if t.op == "bv":
        out.add(t.args[0])
    elif t.op == "fix" and t.args[0].op == "muk":
        h = t.args[0].args[3]
        for a in t.args:
            out |= heights(a)
        out.discard(h)
        out |= heights(t.args[0].args[1])
    else:
        stack = list(bsupport(t.args[0])) if t.op == "bool" else list(t.args)
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
            elif isinstance(x, Term):
                out |= heights(x)
        if t.op in ("mu0", "muk"):
            out.add(t.args[-1])
        if t.op == "comp":
            out.discard(t.args[1].args[0])
    r = _heights[t] = frozenset(out)
    return r


class Unroll(C.Oracle):
    def __init__(self, rnd, fuel, clock):
        super().__init__(rnd)
        self.fuel, self.clock = fuel, clock
        self.memo, self.bmemo, self.loops = {}, {}, 0

    def restart(self):
        self.memo, self.bmemo = {}, {}
        for t, v in self.values.items():
            self.memo[t, ()] = v

    def fix(self, f):
        while f > 1:
            b, hi, lo = T._bn[f]
            f = hi if self.truth(b) else lo
        return f

    def key(self, t, env):
        h = heights(t)
        return tuple((k, i) for k, i in env if k in h)

    def atom(self, a, env):
        op = a.op
        if op == "lt0":
            f = lt0(self.go(a.args[0], env))
        elif op == "eq0":
            f = eq(self.go(a.args[0], env), num(0))
        elif op == "eq":
            f = eq(self.go(a.args[0], env), self.go(a.args[1], env))
        elif op == "isnone":
            f = isnone(self.go(a.args[0], env))
        elif op == "truthy":
            f = truth(self.go(a.args[0], env))
        else:
            f = bvar(self.go(a, env))
        return self.fix(f)

    def gob(self, n, env):
        while n > 1:
            b, hi, lo = T._bn[n]
            n = hi if self.atom(b, env) else lo
        return n

    def cond(self, t, env):
        if t.op == "bool":
            return self.gob(t.args[0], env)
        return self.fix(truth(self.go(t, env)))

    def goa(self, a, env):
        if isinstance(a, Term):
            return self.go(a, env)
        if isinstance(a, tuple):
            return tuple(self.goa(x, env) for x in a)
        return a

    def go(self, t, env=()):
        if not t.args:
            return t
        env = self.key(t, env)
        r = self.memo.get((t, env))
        if r is not None:
            return r
        self.fuel[0] -= 1
        if self.fuel[0] < 0 or time.time() > self.clock:
            raise C.TooBig()
        r = self.eval(t, env)
        while T.is_extremum(r):
            q = C.fewer(r, self.fix)
            if q is r:
                break
            r = q
        self.memo[t, env] = r
        return r

    def eval(self, t, env):
        op = t.op
        if op == "bv":
            i = dict(env).get(t.args[0])
            return t if i is None else num(i)
        if op == "mu0":
            i = dict(env).get(t.args[2])
            if i is None:
                return t
            if i:
                raise Deep()
            return self.go(t.args[1], env)
        if op == "muk":
            h = t.args[3]
            i = dict(env).get(h)
            if i is None:
                return t
            if i == 0:
                return self.go(t.args[1], env)
            return self.go(t.args[2], tuple((k, i - 1 if k == h else j) for k, j in env))
        if op == "bool":
            return mkbool(self.gob(t.args[0], env))
        if op == "sel":
            return self.go(t.args[1] if self.atom(t.args[0], env) else t.args[2], env)
        if op == "fix":
            return self.loop(t, env)
        if op == "comp":
            return self.comp(t, env)
        na = tuple(self.goa(a, env) for a in t.args)
        r = t if na == t.args else T.rebuild(op, na)
        if r is not t and r.op in ("bool", "sel", "fix", "comp"):
            r = self.go(r, env)
        return r

    def more(self, n, i):
        return n is NONE or self.fix(lt0(sub(num(i), n)))

    def loop(self, t, env):
        m, N, H, B = t.args
        if m.op != "muk":
            raise Deep()
        h = m.args[3]
        self.loops += 1
        n = self.go(N, env)
        for i in range(MAX + 2):
            e = tuple(sorted({**dict(env), h: i}.items()))
            if not self.more(n, i) or not self.cond(H, e):
                return self.go(m, e)
            if i > MAX:
                break
            if self.cond(B, e):
                return self.go(m, tuple(sorted({**dict(env), h: i + 1}.items())))
        raise Deep()

    def comp(self, t, env):
        N, bv, cond, elt = t.args
        self.loops += 1
        n = self.go(N, env)
        out = []
        for i in range(MAX + 2):
            if not self.more(n, i):
                return mk("lst", *out)
            if i > MAX:
                break
            e = tuple(sorted({**dict(env), bv.args[0]: i}.items()))
            if self.cond(cond, e):
                out.append(self.go(elt, e))
        raise Deep()


def names(t):
    """fields, parameters and functions a value depends on"""
    out = set()
    for x in walk(t):
        if x.op == "sym":
            out.add(str(x.args[0]))
        elif x.op in ("ld", "st"):
            for s in x.args[1].args:
                if isinstance(s, str):
                    out.add(s)
                elif s.op == "c" and isinstance(s.args[0], str):
                    out.add("." + s.args[0])
        elif x.op == "call":
            out.add(str(C.callname(x)))
        elif x.op == "init":
            out.add(str(x.args[0]))
    return out


def shapes(ts):
    """how arrays are accessed: whole rows and single cells are not related by normal forms"""
    out = set()
    for t in ts:
        if t.op in ("ld", "st"):
            out.add((t.op, tuple(
                s if isinstance(s, str) else "slice" if is_slice(s) else "index" for s in t.args[1].args)))
    return out


def same_vocabulary(u, v):
    su, sv = C.subterms(u), C.subterms(v)
    a, b = [t for t in su if t not in sv], [t for t in sv if t not in su]
    if any(t.op in ("each", "foreach", "fix", "comp", "muk", "mu0", "bv", "other", "lam") for t in a + b):
        return False
    if shapes(a) - shapes(sv) or shapes(b) - shapes(su):
        return False
    if any(t.op == "ld" and t.args[0].op == "st" for t in b):
        return False  # which of the writes is read is left open
    for x, y in ((a, sv), (b, su)):
        vy = C.vocab_flat(y)
        for kind, n in C.vocab_flat(x):
            if (kind, n) in vy or kind == "sym":
                continue
            if kind == "call" and n in C.SAFE_CALLS or kind == "op" and n in C.PLAIN_OPS:
                continue
            return False
    return True


def told_apart(x, y, tries=150, seconds=12):
    """a choice of decisions under which x and y end up different although made of the same things"""
    if names(y) - names(x) - C.SAFE_CALLS:
        return None
    clock = time.time() + seconds
    rnd = random.Random(11)
    fuel = [4000000]
    for _ in range(tries):
        o = Unroll(rnd, fuel, clock)
        try:
            for _ in range(4):
                o.grown = False
                o.restart()
                u, v = o.go(x), o.go(y)
                if not o.grown:
                    break
        except Deep:
            continue
        except (C.TooBig, RecursionError):
            return None
        if u is not v and not (C.decisions(u) or C.decisions(v)) and same_vocabulary(u, v):
            return u, v, o.env
    return None
