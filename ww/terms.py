"""Hash-consed value terms, polynomial normal form, decision diagrams.

Terms are the value numbers of the analysis: two program points get the same term
when the dataflow analysis can see that they hold the same value.  Arithmetic is kept
as a polynomial over atoms (so re-association, commutation, distribution do not
matter), boolean values as reduced ordered decision diagrams over comparison atoms
(so nesting of ifs, De Morgan, early returns do not matter) and gated (phi) values as
multi-terminal decision diagrams.
"""
from fractions import Fraction


class Term:
    __slots__ = ("op", "args", "id")

    def __init__(self, op, args, id_):
        self.op, self.args, self.id = op, args, id_

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def _akey(a):
    if isinstance(a, Term):
        return a
    if isinstance(a, tuple):
        return ("t",) + tuple(_akey(x) for x in a)
    return (type(a).__name__, a)


RECORD = [None]  # collects the names of calls and allocations while a reference is read


def mk(op, *args):
    if RECORD[0] is not None and op in ("call", "init") and isinstance(args[0], str):
        RECORD[0].add((op, args[0]))
    key = (op,) + tuple(_akey(a) for a in args)
    t = _tab.get(key)
    if t is None:
        _n[0] += 1
        t = _tab[key] = Term(op, args, _n[0])
    return t


# ------------------------------------------------------------------ constants
def num(v):
    return mk("num", Fraction(v))


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float)):
        try:
            return num(Fraction(v) if isinstance(v, int) else Fraction(str(v)))
        except (ValueError, OverflowError):
            return mk("c", repr(v))
    return mk("c", v)


NONE = mk("c", None)
UNDEF = mk("undef")


def is_num(t):
    return t.op == "num"


# ---------------------------------------------------------------- polynomials
def poly_of(t):
    """dict mono -> coef, mono = tuple of (atom, exp) sorted by id"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def mono_mul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=lambda x: x[0].id))


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return num(0)
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(
        sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    )
    return mk("poly", items)


LIFT_LIMIT = 96


def nleaves(t):
    """number of decision nodes at the top of a gated value"""
    n, stack, seen = 0, [t], set()
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "sel":
            n += 1
            stack += [t.args[1], t.args[2]]
        elif t.op == "bool" and t.args[0] > 1:
            n += 2
    return n


_lm = {}


def lift(name, fn, *ts):
    """apply fn below the decision nodes of its operands"""
    ts = tuple(
        ite(t.args[0], num(1), num(0)) if t.op == "bool" else t for t in ts
    )
    if not any(t.op == "sel" for t in ts):
        return fn(*ts)
    key = (name,) + tuple(t.id for t in ts)
    r = _lm.get(key)
    if r is not None:
        return r
    tot = 1
    for t in ts:
        tot *= nleaves(t) + 1
    if tot > LIFT_LIMIT:
        return fn(*ts)
    v = min((t.args[0] for t in ts if t.op == "sel"), key=lambda a: a.id)

    def co(t, b):
        if t.op == "sel" and t.args[0] is v:
            return t.args[1] if b else t.args[2]
        return t

    hi = lift(name, fn, *[co(t, 1) for t in ts])
    lo = lift(name, fn, *[co(t, 0) for t in ts])
    r = _lm[key] = ite(bvar(v), hi, lo)
    return r


def add(a, b, sb=1):
    return lift("add%d" % sb, lambda x, y: _add(x, y, sb), a, b)


def _add(a, b, sb=1):
    p = poly_of(a)
    for m, c in poly_of(b).items():
        p[m] = p.get(m, Fraction(0)) + sb * c
    return _absorb_floor(from_poly(p))


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return sub(num(0), a)


def mul(a, b):
    return lift("mul", _mul, a, b)


def _mul(a, b):
    pa, pb = poly_of(a), poly_of(b)
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, Fraction(0)) + c1 * c2
    # cancel  P * inv(P)
    return from_poly(_cancel(r))


def _cancel(r):
    return r


def div(a, b):
    return lift("div", _div, a, b)


def _div(a, b):
    pb = poly_of(b)
    if not pb:
        return mk("div0", a)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = {tuple((k, -e) for k, e in m): 1 / c}
        return mul(a, from_poly(inv))
    # denominator with several terms: normalise its leading coefficient
    items = sorted(pb.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    lead = items[0][1]
    den = from_poly({m: c / lead for m, c in pb.items()})
    if from_poly(poly_of(a)) is b:
        return num(1)
    return mul(a, from_poly({((mk("den", den), -1),): 1 / lead}))


def powi(a, n):
    if n == 0:
        return num(1)
    if n < 0:
        return div(num(1), powi(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


INT_NAMES = set()  # names declared with an integer type in the repository's tables


def _key_names(p):
    """the field names a path element may stand for, None if it is no field name"""
    if isinstance(p, Term):
        if p.op == "c" and isinstance(p.args[0], str):
            return [p.args[0]]
        if p.op == "sel":
            a, b = _key_names(p.args[1]), _key_names(p.args[2])
            return a + b if a and b else None
    return None


BOOL_CALLS = {".isna", ".isnull", ".notna", ".notnull", ".isin", ".duplicated", "numpy.isnan", "isnan",
              "numpy.isin", "numpy.isfinite", "pandas.isna", "pandas.isnull"}


def isbool(t):
    """a truth value or an array of truth values"""
    if t.op == "bool":
        return True
    if t.op == "sel":
        return isbool(t.args[1]) and isbool(t.args[2])
    return t.op == "call" and t.args[0] in BOOL_CALLS


def is_count(t):
    """the number of true elements of an array of booleans"""
    return t.op == "call" and t.args[0] == ".sum" and len(t.args[1]) == 1 and not t.args[2] and isbool(t.args[1][0])


def nonneg(t):
    """an integer that cannot be negative"""
    if t.op in ("iv", "bv", "len", "dim", "size"):
        return True
    return is_count(t) or is_bincount(t)


def is_bincount(t):
    return t.op == "call" and t.args[0] == "numpy.bincount" and not any(k == "weights" for k, _ in t.args[2])


def is_int(t):
    op = t.op
    if op == "num":
        return t.args[0].denominator == 1
    if op == "poly":
        return all(
            c.denominator == 1 and all(e > 0 and is_int(a) for a, e in m)
            for m, c in t.args[0]
        )
    if op in ("iv", "bv", "len", "dim", "size", "floordiv", "mod", "int"):
        return True
    if op == "call":
        if is_extremum(t):
            return all(is_int(x) for x in t.args[1])
        return is_count(t) or is_bincount(t) or t.args[0] in ("int", "len")
    if op == "sym":
        return t.args[0] in INT_NAMES
    if op == "mu":
        return t.args[2]
    if op in ("mu0", "muk"):
        return t.args[0]
    if op == "fix":
        return is_int(t.args[0])
    if op in ("ld",):
        path = t.args[1].args
        for p in reversed(path):
            if isinstance(p, str):
                if p == ".shape" or p == ".size":
                    return True
                return p[1:] in INT_NAMES
            k = _key_names(p)
            if k:
                return all(x in INT_NAMES for x in k)
        b = t.args[0]
        while b.op in ("st",):
            b = b.args[0]
        if b.op == "base" and b.args[0].op == "sym":
            return b.args[0].args[0] in INT_NAMES
        return False
    if op == "sel":
        return is_int(t.args[1]) and is_int(t.args[2])
    if op == "sum":
        return is_int(t.args[2])
    if op == "m":
        return bool(t.args[2])
    return False


def _absorb_floor(t):
    """n + a // c  ->  (n*c + a) // c for integer n"""
    if t.op != "poly":
        return t
    fl = [
        (m, c)
        for m, c in t.args[0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "floordiv" and c == 1
    ]
    if len(fl) != 1:
        return t
    m, _ = fl[0]
    f = m[0][0]
    rest = {k: c for k, c in t.args[0] if k != m}
    r = from_poly(rest)
    if not is_int(r) or not is_num(f.args[1]):
        return t
    return floordiv(add(mul(r, f.args[1]), f.args[0]), f.args[1])


def floordiv(a, b):
    if is_num(a) and is_num(b) and b.args[0]:
        return num(a.args[0] // b.args[0])
    if b is num(1) and is_int(a):
        return a
    return lift("floordiv", lambda x, y: mk("floordiv", x, y), a, b)


def mod(a, b):
    return mk("mod", a, b)


def lshift(a, s):
    if is_num(s) and s.args[0] == 0:
        return a
    return mk("shl", a, s)


def rshift(a, s):
    # (b & (m << s)) >> s  ==  (b >> s) & m
    if a.op == "and" and len(a.args[0]) == 2:
        x, y = a.args[0]
        for u, v in ((x, y), (y, x)):
            if v.op == "shl" and v.args[1] is s:
                return band(rshift(u, s), v.args[0])
    return mk("shr", a, s)


def _ac(op, a, b):
    xs = []
    for t in (a, b):
        xs += list(t.args[0]) if t.op == op else [t]
    xs = tuple(sorted(set(xs), key=lambda t: t.id))
    return xs[0] if len(xs) == 1 else mk(op, xs)


def band(a, b):
    return _ac("and", a, b)


def bor(a, b):
    return _ac("or", a, b)


# ------------------------------------------------------------------------ BDD
# node 0 = False, 1 = True, otherwise (atom, hi, lo)
_bu = {}
_bn = [None, None]


def bvar(atom):
    return _bmk(atom, 1, 0)


def _bmk(atom, hi, lo):
    if hi == lo:
        return hi
    k = (atom.id, hi, lo)
    r = _bu.get(k)
    if r is None:
        _bn.append((atom, hi, lo))
        r = _bu[k] = len(_bn) - 1
    return r


_bite = {}


def bite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _bite.get(k)
    if r is not None:
        return r
    tops = [_bn[x][0] for x in (f, g, h) if x > 1]
    v = min(tops, key=lambda a: a.id)

    def co(x, b):
        if x > 1 and _bn[x][0] is v:
            return _bn[x][1] if b else _bn[x][2]
        return x

    r = _bmk(v, bite(co(f, 1), co(g, 1), co(h, 1)), bite(co(f, 0), co(g, 0), co(h, 0)))
    _bite[k] = r
    return r


def bnot(f):
    return bite(f, 0, 1)


def b_and(f, g):
    return bite(f, g, 0)


def b_or(f, g):
    return bite(f, 1, g)


def bsupport(f, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    if f <= 1 or f in seen:
        return out
    seen.add(f)
    a, hi, lo = _bn[f]
    if a not in out:
        out.append(a)
    bsupport(hi, seen, out)
    bsupport(lo, seen, out)
    return out


def bcubes(f, limit=4096):
    """satisfying cubes as dict atom->bool"""
    out = []

    def go(x, acc):
        if len(out) >= limit or x == 0:
            return
        if x == 1:
            out.append(dict(acc))
            return
        a, hi, lo = _bn[x]
        acc[a] = True
        go(hi, acc)
        acc[a] = False
        go(lo, acc)
        del acc[a]

    go(f, {})
    return out


TRUE = mk("bool", 1)
FALSE = mk("bool", 0)


def mkbool(n):
    if n == 1:
        return TRUE
    if n == 0:
        return FALSE
    a, hi, lo = _bn[n]
    if hi == 1 and lo == 0 and a.op == "truthy":
        return a.args[0]
    return mk("bool", n)


BOOL_OPS = {"bool"}


SETCALLS = {"set", "frozenset", ".difference", ".intersection", ".union", ".symmetric_difference"}


def subset(x, y):
    """every element of the set x is one of y"""
    return eq(mk("len", mk("call", ".difference", (x, y), ())), num(0))


def truth(t):
    """decision diagram of the truth value of t"""
    if t.op == "bool":
        return t.args[0]
    if t.op == "num":
        return int(bool(t.args[0]))
    if t.op == "c":
        return int(bool(t.args[0]))
    if t.op == "sel":
        a, hi, lo = t.args
        return bite(bvar(a), truth(hi), truth(lo))
    if t.op in ("tup", "lst"):
        return int(bool(t.args))
    if t.op == "call" and t.args[0] == "bool" and len(t.args[1]) == 1:
        return truth(t.args[1][0])
    if t.op == "call" and t.args[0] in SETCALLS:
        return bnot(eq(mk("len", t), num(0)))
    return bvar(mk("truthy", t))


# ------------------------------------------------------------ gated values
_ite = {}


def ite(f, g, h):
    """if f (diagram) then g else h, as a multi-terminal decision diagram"""
    if f == 1:
        return g
    if f == 0:
        return h
    if g is h:
        return g
    if g is UNDEF:
        return h
    if h is UNDEF:
        return g
    if g.op == "bool" or h.op == "bool":
        if g.op in ("bool",) and h.op in ("bool",):
            return mkbool(bite(f, g.args[0], h.args[0]))
        if _boolish(g) and _boolish(h):
            return mkbool(bite(f, truth(g), truth(h)))
    k = (f, g.id, h.id)
    r = _ite.get(k)
    if r is not None:
        return r
    tops = [_bn[f][0]]
    if g.op == "sel":
        tops.append(g.args[0])
    if h.op == "sel":
        tops.append(h.args[0])
    v = min(tops, key=lambda a: a.id)

    def cof(x, b):
        if x > 1 and _bn[x][0] is v:
            return _bn[x][1] if b else _bn[x][2]
        return x

    def cot(t, b):
        if t.op == "sel" and t.args[0] is v:
            return t.args[1] if b else t.args[2]
        return t

    hi = ite(cof(f, 1), cot(g, 1), cot(h, 1))
    lo = ite(cof(f, 0), cot(g, 0), cot(h, 0))
    r = hi if hi is lo else sel(v, hi, lo)
    _ite[k] = r
    return r


def sel(v, hi, lo):
    """hi where v holds, else lo: the smaller or larger of two numbers has a name of its own"""
    if v.op == "lt0" and hi.op not in NOT_A_NUMBER and lo.op not in NOT_A_NUMBER:
        p = poly_of(v.args[0])
        d = poly_of(sub(hi, lo))
        ms = [m for m in p if m]
        if ms and set(ms) == {m for m in d if m}:
            c = d[ms[0]] / p[ms[0]]
            if all(d[m] == c * p[m] for m in ms):
                k = p.get((), 0) * c - d.get((), 0)
                # v is hi < lo (c > 0) or hi > lo (c < 0), up to the case hi == lo
                if k == 0 or k == -1 * abs(c) * (1 if c > 0 else -1) and abs(c) == 1 and is_int(v.args[0]):
                    return extremum("min" if c > 0 else "max", (hi, lo))
    return mk("sel", v, hi, lo)


NOT_A_NUMBER = {"sel", "bool", "c", "tup", "lst", "dict", "st", "app", "init", "val", "alloc", "fix", "comp",
                "each", "eff", "fn", "undef", "lam", "slice", "base"}


def extremum(name, xs):
    """max or min of some values"""
    out = set()
    for x in xs:
        if x.op == "call" and x.args[0] == name and not x.args[2] and len(x.args[1]) > 1:
            out |= set(x.args[1])
        else:
            out.add(x)
    nums = [x for x in out if x.op == "num"]
    if len(nums) > 1:
        best = (max if name == "max" else min)(nums, key=lambda x: x.args[0])
        out = {x for x in out if x.op != "num"} | {best}
    if len(out) == 1:
        return next(iter(out))
    return mk("call", name, tuple(sorted(out, key=lambda t: t.id)), ())


def is_extremum(t):
    return t.op == "call" and t.args[0] in ("max", "min") and len(t.args[1]) > 1 and not t.args[2]


def _boolish(t):
    if t.op == "bool":
        return True
    if t.op in ("num", "c", "poly", "tup", "lst"):
        return False
    return True


# ---------------------------------------------------------------- comparisons
def _norm_pos(p):
    """scale polynomial by a positive rational so that coefficients are coprime ints"""
    from math import gcd

    den = 1
    for c in p.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.values():
        g = gcd(g, int(c * den))
    return {m: c * den / (g or 1) for m, c in p.items()}


def lt(a, b):
    return lt0(sub(a, b))


def _lead_neg(p):
    ms = [m for m in p if m]
    if not ms:
        return False
    m = min(ms, key=lambda m: tuple((x.id, e) for x, e in m))
    return p[m] < 0


def lt0(t):
    """diagram for t < 0"""
    if t.op == "num":
        return int(t.args[0] < 0)
    if t.op == "sel":
        return bite(bvar(t.args[0]), lt0(t.args[1]), lt0(t.args[2]))
    p = poly_of(t)
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and is_extremum(m[0][0]):
            x = m[0][0]
            rest = sub(t, mul(mk("num", c), x))
            fs = [lt0(add(rest, mul(mk("num", c), y))) for y in x.args[1]]
            # the largest is negative if all are, the smallest if one is
            every = (c > 0) == (x.args[0] == "max")
            r = fs[0]
            for f in fs[1:]:
                r = b_and(r, f) if every else b_or(r, f)
            return r
    p = _norm_pos(p)
    if _lead_neg(p) and is_int(from_poly(p)):
        # p < 0  <=>  not (-p - 1 < 0) over the integers
        q = {m: -c for m, c in p.items()}
        q[()] = q.get((), Fraction(0)) - 1
        return bnot(_lt0({m: c for m, c in q.items() if c}))
    return _lt0(p)


def _lt0(p):
    k = p.get((), 0)
    if len(p) == 1 + (k != 0):
        (m, c), = [(m, c) for m, c in p.items() if m]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and nonneg(m[0][0]):
            if k >= 0:
                return 0
            if k == -1:
                # n < 1
                return eq(m[0][0], num(0))
    return bvar(mk("lt0", from_poly(p)))


def le(a, b):
    return bnot(lt(b, a))


def eq(a, b):
    if a is b:
        return 1
    if a.op == "sel":
        return bite(bvar(a.args[0]), eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "sel":
        return bite(bvar(b.args[0]), eq(a, b.args[1]), eq(a, b.args[2]))
    numeric = {"num", "poly"}
    if a.op in numeric or b.op in numeric:
        if a.op == "c" or b.op == "c":
            return 0
        if a.op == "bool" or b.op == "bool":
            if a.op == "num":
                a, b = b, a
            if b is num(1):
                return truth(a)
            if b is num(0):
                return bnot(truth(a))
        d = sub(a, b)
        if d.op == "num":
            return int(d.args[0] == 0)
        if d.op == "sel":
            return eq(d, num(0))
        p = _norm_pos(poly_of(d))
        if _lead_neg(p):
            p = {m: -c for m, c in p.items()}
        return bvar(mk("eq0", from_poly(p)))
    if a.op == "c" and b.op == "c":
        return int(a.args[0] == b.args[0])
    if a.op == "bool" and b.op == "bool":
        return bite(a.args[0], b.args[0], bnot(b.args[0]))
    if a.op == "bool" or b.op == "bool":
        x, y = (a, b) if a.op == "bool" else (b, a)
        if x is TRUE:
            return truth(y)
        if x is FALSE:
            return bnot(truth(y))
    if b.id < a.id:
        a, b = b, a
    return bvar(mk("eq", a, b))


def isnone(t):
    if t is NONE:
        return 1
    if t.op == "sel":
        return bite(bvar(t.args[0]), isnone(t.args[1]), isnone(t.args[2]))
    if t.op in ("num", "poly", "bool", "tup", "lst", "c"):
        return 0
    return bvar(mk("isnone", t))


# ----------------------------------------------------------------- rebuilding
REBUILD = {}


def rebuild(op, args):
    """mk with normalisation, used after substitution"""
    h = REBUILD.get(op)
    if h is not None:
        return h(*args)
    if op == "poly":
        r = num(0)
        for m, c in args[0]:
            x = mk("num", c)
            for a, e in m:
                x = mul(x, powi(a, e) if e > 0 else _invp(a, -e))
            r = add(r, x)
        return r
    if op == "bool":
        return mkbool(args[0])
    if op == "call" and args[0] in ("max", "min") and len(args[1]) > 1 and not args[2]:
        return extremum(args[0], args[1])
    if op == "floordiv":
        return floordiv(*args)
    if op == "shr":
        return rshift(*args)
    if op == "shl":
        return lshift(*args)
    if op in ("and", "or"):
        xs = args[0]
        r = xs[0]
        for x in xs[1:]:
            r = _ac(op, r, x)
        return r
    return mk(op, *args)


def _invp(a, e):
    if a.op == "den":
        return powi(div(num(1), a.args[0]), e)
    return div(num(1), powi(a, e))


def subst(t, fn, memo=None):
    """rebuild t bottom-up; fn(term) may return a replacement (no further descent)"""
    if memo is None:
        memo = {}

    def atom_bdd(a):
        """truth diagram of a rebuilt atom"""
        op = a.op
        if op in ("eq", "eq0"):
            r = fn(a)
            if r is not None and r.op == "bool":
                return r.args[0]
        if op == "lt0":
            return lt0(go(a.args[0]))
        if op == "eq0":
            return eq(go(a.args[0]), num(0))
        if op == "eq":
            return eq(go(a.args[0]), go(a.args[1]))
        if op == "isnone":
            return isnone(go(a.args[0]))
        if op == "truthy":
            return truth(go(a.args[0]))
        r = go(a)
        return bvar(r)

    bm = {}

    def gob(n):
        if n <= 1:
            return n
        r = bm.get(n)
        if r is None:
            a, hi, lo = _bn[n]
            r = bm[n] = bite(atom_bdd(a), gob(hi), gob(lo))
        return r

    def goa(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goa(x) for x in a)
        return a

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        r = fn(t)
        if r is None:
            if t.op == "bool":
                r = mkbool(gob(t.args[0]))
            elif t.op == "sel":
                r = ite(atom_bdd(t.args[0]), go(t.args[1]), go(t.args[2]))
            elif not t.args:
                r = t
            else:
                na = tuple(goa(a) for a in t.args)
                r = t if na == t.args else rebuild(t.op, na)
        memo[t] = r
        return r

    return go(t)


def subst_bdd(n, fn, memo=None):
    r = subst(mk("bool", n), fn, memo)
    return truth(r)


def walk(t, seen=None):
    """all sub-terms, each once"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        t = stack.pop()
        if isinstance(t, tuple):
            stack.extend(t)
            continue
        if not isinstance(t, Term) or t in seen:
            continue
        seen.add(t)
        yield t
        if t.op == "bool":
            stack.extend(bsupport(t.args[0]))
        else:
            stack.extend(t.args)


def restrict(t, atom, val):
    """t under the assumption that the decision atom has the given truth value"""

    def fn(x):
        if x.op == "sel" and x.args[0] is atom:
            return restrict(x.args[1] if val else x.args[2], atom, val)
        if x is atom:
            return None
        return None

    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "bool":
            r = mkbool(_brestrict(t.args[0], atom, val))
        elif t.op == "sel":
            if t.args[0] is atom:
                r = go(t.args[1] if val else t.args[2])
            else:
                r = ite(bvar(t.args[0]), go(t.args[1]), go(t.args[2]))
        elif t is atom or not t.args or t.op in BINDERS:
            r = t
        elif atom.op == "truthy" and t is atom.args[0]:
            r = TRUE if val else FALSE
        else:
            na = tuple(goa(a) for a in t.args)
            r = t if na == t.args else rebuild(t.op, na)
        memo[t] = r
        return r

    def goa(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goa(x) for x in a)
        return a

    return go(t)


def _brestrict(n, atom, val):
    if n <= 1:
        return n
    a, hi, lo = _bn[n]
    if a is atom:
        return hi if val else lo
    if a.id > atom.id:
        return n
    return bite(bvar(a), _brestrict(hi, atom, val), _brestrict(lo, atom, val))


BINDERS = {"fix", "sum", "lp", "comp"}


# -------------------------------------------------------------------- display
def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d) for x in t) + ")"
    if not isinstance(t, Term):
        return repr(t) if isinstance(t, str) and not t.startswith(".") else str(t)
    if d > 14:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == "num":
        return str(a[0])
    if op == "c":
        return repr(a[0])
    if op == "sym":
        return a[0]
    if op == "poly":
        out = []
        for m, c in a[0]:
            f = "*".join(
                (s(x) if e == 1 else "%s^%d" % (s(x), e)) for x, e in m
            )
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append("%s*%s" % (c, f))
        return "(" + " + ".join(out) + ")"
    if op == "bool":
        return bshow(a[0], d)
    if op == "sel":
        return "if(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "lt0":
        return "%s<0" % s(a[0])
    if op == "eq0":
        return "%s==0" % s(a[0])
    if op == "eq":
        return "%s==%s" % (s(a[0]), s(a[1]))
    if op == "truthy":
        return "?%s" % s(a[0])
    if op == "ld":
        b = a[0]
        base = b.args[0].args[0] if b.op == "base" and b.args[0].op == "sym" else s(b)
        return base + s(a[1])
    if op == "path":
        return "".join(
            x if isinstance(x, str) else "[%s]" % s(x) for x in a
        )
    if op == "slice":
        return "%s:%s" % ("" if a[0] is NONE else s(a[0]), "" if a[1] is NONE else s(a[1]))
    if op == "base":
        return s(a[0])
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))


def bshow(n, d=0):
    if n <= 1:
        return str(bool(n))
    cs = bcubes(n, 8)
    out = []
    for c in cs:
        out.append(
            " & ".join(("" if v else "!") + show(a, d + 1) for a, v in c.items())
        )
    return "{" + " | ".join(out) + ("…" if len(cs) == 8 else "") + "}"
