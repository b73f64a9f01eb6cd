"""Gated value-numbering analysis of Python functions.

Walks the syntax tree of a function once, keeping for every variable and every abstract
object the term (value number) it holds; joins are gated by decision diagrams, loops
become closed fixpoint terms.  Calls to repository functions are either inlined or kept
as opaque terms over what the callee reads.  Nothing is executed.
"""
import ast
import json
import os
import sys

from .terms import *
from . import terms as T
from .heap import *
from . import ir
from .loops import close_loop, Item, bvheight

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Dead(Exception):
    """the current path ends (every branch of a call raised)"""


class View:
    __slots__ = ("root", "path")

    def __init__(self, root, p):
        self.root, self.path = root, tuple(p)

    def __eq__(self, o):
        return isinstance(o, View) and o.root is self.root and o.path == self.path

    def __hash__(self):
        return hash((self.root, self.path))


class FnV:
    def __init__(self, func, recv=None):
        self.func, self.recv = func, recv

    def __eq__(self, o):
        return isinstance(o, FnV) and o.func is self.func and o.recv == self.recv

    __hash__ = object.__hash__


class ClsV:
    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ClsV) and o.cls is self.cls

    __hash__ = object.__hash__


class ModV:
    def __init__(self, mod):
        self.mod = mod


class ExtV:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    __hash__ = object.__hash__


class MethV:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class TupV:
    def __init__(self, items):
        self.items = list(items)


class LamV:
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod


class DelayedV:
    def __init__(self, f):
        self.f = f


class _Partial:
    """functools.partial"""

    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k


class ParV:
    pass


class SuperV:
    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


class S:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self):
        return S(dict(self.env), dict(self.heap), self.pc)


class Ctx:
    """one activation"""

    def __init__(self, func, mod, params=()):
        self.func, self.mod = func, mod
        self.base_used = func.base_used if func is not None else set()
        self.params = set(params)
        self.abrupt = []  # (kind, state, value, exc)
        self.globals = set()
        self.inplace = []


IDENT = {
    "numba.uintp", "numba.intp", "numba.uint64", "numba.int64", "numba.uint32", "numba.int32",
    "numba.uint8", "numba.uint16", "numba.int8", "numba.int16", "numba.float32",
    "numba.float64", "numba.boolean",
    "numpy.asarray", "numpy.ascontiguousarray", "numpy.asfortranarray",
    "numpy.float32", "numpy.float64", "numpy.uintp", "numpy.intp", "numpy.uint64",
    "numpy.int64", "tqdm.tqdm", "numpy.uint32", "numpy.uint8",
}
# casts which change values: a narrower integer type is not transparent
CASTS_KEEP = {"numba.uint8", "numba.int8", "numba.uint16", "numba.int16", "numpy.uint8",
              "numba.uint32", "numba.int32", "numpy.uint32", "numba.float32", "numpy.float32"}
SCALAR_FN = {
    "math.log": "log", "numpy.log": "log", "math.exp": "exp", "numpy.exp": "exp",
    "math.sqrt": "sqrt", "numpy.sqrt": "sqrt", "math.floor": "floor", "numpy.floor": "floor",
    "math.ceil": "ceil", "numpy.ceil": "ceil", "math.isnan": "isnan", "numpy.isnan": "isnan",
    "math.log2": "log2", "numpy.log2": "log2", "math.inf": "inf", "numpy.inf": "inf",
    "math.nan": "nan", "numpy.nan": "nan", "numpy.abs": "abs", "numpy.absolute": "abs",
    "numpy.square": "square", "numpy.maximum": "maximum", "numpy.minimum": "minimum",
}
ARRAY_FN_AS_METHOD = {
    "tile",
    "sum", "max", "min", "any", "all", "ravel", "argmax", "argmin", "argsort", "mean",
    "cumsum", "prod", "take", "reshape", "nonzero", "std", "var", "clip", "repeat",
    "round", "squeeze", "transpose",
}
NP_POS = {
    "numpy.zeros": ["shape", "dtype"], "numpy.empty": ["shape", "dtype"],
    "numpy.ones": ["shape", "dtype"], "numpy.full": ["shape", "fill_value", "dtype"],
    "numpy.linspace": ["start", "stop", "num"], "numpy.expand_dims": ["a", "axis"],
    "numpy.tile": ["A", "reps"], "numpy.repeat": ["a", "repeats", "axis"],
    "numpy.percentile": ["a", "q"], "numpy.bincount": ["x", "weights", "minlength"],
    "numpy.array": ["object", "dtype"], "numpy.zeros_like": ["a", "dtype"],
    "numpy.unique": ["ar"], "pandas.Series": ["data", "index", "dtype"],
    "numpy.empty_like": ["a", "dtype"],
    "numpy.concatenate": ["arrays", "axis"], "numpy.clip": ["a", "a_min", "a_max"],
}
NP_POS["numpy.ascontiguousarray"] = ["a", "dtype"]
NP_POS["numpy.asarray"] = ["a", "dtype"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "extsigs.json")) as _f:
    EXTSIGS = json.load(_f)


def constant(v):
    return NONE if v is None else TRUE if v is True else FALSE if v is False else num(v) if isinstance(v, int) else mk("c", v)


ALLOC = {"numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full", "numpy.zeros_like",
         "numpy.empty_like", "numpy.arange"}
RNG_METH = {"randint", "choice", "permutation", "shuffle", "rand", "randn", "uniform",
            "normal", "random_sample", "integers", "standard_normal", "random"}
# positional parameters of methods of NumPy, pandas and scikit-learn objects
METHSIG = {
    "randint": ("low", "high", "size", "dtype"),
    "choice": ("a", "size", "replace", "p"),
    "permutation": ("x",),
    "shuffle": ("x",),
    "uniform": ("low", "high", "size"),
    "normal": ("loc", "scale", "size"),
    "standard_normal": ("size",),
    "dirichlet": ("alpha", "size"),
    "set_categories": ("new_categories",),
    "fit_transform": ("X", "y"),
    "reshape": ("shape",),
    "repeat": ("repeats",),
    "tile": ("reps",),
    "nonzero": (),
}
SETOPS = {ast.Sub: ".difference", ast.BitAnd: ".intersection", ast.BitOr: ".union", ast.BitXor: ".symmetric_difference"}


def is_set(t):
    return isinstance(t, Term) and t.op == "call" and (
        t.args[0] in ("set", "frozenset", ".difference", ".intersection", ".union", ".symmetric_difference")
    )


_split = {}


def split_stmt(st, rest):
    """a statement that changes one of two objects in place, the choice made by a conditional expression,
    as an if statement around the two changes; the same where a name is first bound to the choice"""
    r = _split.get(id(st))
    if r is not None and r[0] is st:
        return r[1] + (list(rest) if r[2] == "alone" else []) if r[1] is not None else None
    new, how = None, "alone"
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and isinstance(
        st.value.func.value, ast.IfExp
    ):
        c, e = st.value, st.value.func.value
        new = [ast.If(e.test, *([
            ast.Expr(ast.Call(ast.Attribute(x, c.func.attr, ast.Load()), c.args, c.keywords))
        ] for x in (e.body, e.orelse)))]
    elif isinstance(st, (ast.Assign, ast.AugAssign)):
        t = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else getattr(st, "target", None)
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.IfExp):
            e = t.value
            ts = [ast.Subscript(x, t.slice, ast.Store()) for x in (e.body, e.orelse)]
            new = [ast.If(e.test, *([
                ast.Assign([x], st.value) if isinstance(st, ast.Assign) else ast.AugAssign(x, st.op, st.value)
            ] for x in ts))]
        elif isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp) and isinstance(t, (ast.Name, ast.Tuple)):
            names = set()
            ir.target_names(t, names)
            e = st.value
            if changed_in_place(names, rest) and all(place(x, t) for x in (e.body, e.orelse)):
                new = [ast.If(e.test, *([ast.Assign([t], x)] + list(rest) for x in (e.body, e.orelse)))]
                how = "with the rest"
    if new is not None:
        for x in new:
            ast.copy_location(x, st)
            ast.fix_missing_locations(x)
    _split[id(st)] = (st, new, how)
    return new + (list(rest) if how == "alone" else []) if new is not None else None


def place(e, t):
    if isinstance(t, ast.Tuple):
        return isinstance(e, ast.Tuple) and len(e.elts) == len(t.elts) and any(
            isinstance(x, (ast.Name, ast.Subscript)) for x in e.elts
        )
    return isinstance(e, (ast.Name, ast.Subscript))


def changed_in_place(names, stmts):
    for st in stmts:
        for x in ast.walk(st):
            if isinstance(x, (ast.For, ast.While)):
                return False
            if isinstance(x, ast.AugAssign):
                t = x.target
                if isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Name) and t.id in names:
                    return True
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in names:
                        return True
    return False


MUT_METH = {"append", "extend", "fill", "sort", "update", "add", "remove", "discard", "pop",
            "insert", "clear", "setdefault", "resize", "put", "itemset", "partition",
            "setflags", "fit", "popitem", "reverse"}
IGNORE_CALL = {"warnings.warn", "print", "warnings.simplefilter", "warnings.filterwarnings",
               "logging.info", "logging.warning", "logging.debug"}
RNG = mk("sym", "$rng")


class Iface:
    """what an opaque function reads and writes, by access path"""

    def __init__(self, key, params, reads, mods):
        self.key, self.params, self.reads, self.mods = key, params, reads, mods


def is_frame(t):
    return t.op == "sym" and t.args[0] in ("X", "df")


def shared(c, m):
    """references stored in c to objects of m, which later iterations go on changing"""
    if not m:
        return c
    if c.op in ("st", "app"):
        a, v = shared(c.args[0], m), m.get(c.args[2], c.args[2])
        return c if a is c.args[0] and v is c.args[2] else mk(c.op, a, c.args[1], v)
    if c.op == "sel":
        return ite(bvar(c.args[0]), shared(c.args[1], m), shared(c.args[2], m))
    return c


class Interp:
    def __init__(self, pkg, opaque=None, pmap=None, max_depth=10):
        self.pkg = pkg
        self.opaque = opaque or {}  # Func -> Iface
        self.pmap = pmap or {}  # Func -> {param: canonical}
        self.max_depth = max_depth
        self.uid = 0
        self.ctx = None
        self.stack = []
        self.types = {}
        self.made = {}
        self.const_cache = {}
        self.parcfg = []
        self.last_recv = None
        self.into = None
        self.calltrace = None
        self.fn_opaque = {}
        self.notes = []
        self.depth = 0

    # ------------------------------------------------------------ utilities
    def fresh(self):
        self.uid += 1
        return self.uid

    def note(self, msg):
        if len(self.notes) < 200:
            self.notes.append(msg)

    def chain(self, s, root):
        c = s.heap.get(root)
        return c if c is not None else base(root)

    def alloc(self, s, chain, cls=None):
        a = mk("alloc", self.side, self.fresh())
        s.heap[a] = chain
        if chain.op == "init":
            self.made[a] = chain
        if cls is not None:
            self.types[a] = cls
        return a

    side = 0

    def deref(self, s):
        def d(v, rest):
            rest = trim(rest)
            if not rest:
                return v
            if v in s.heap:
                return read_chain(s.heap[v], rest, d)
            if v.op == "sel":
                return ite(bvar(v.args[0]), d(v.args[1], rest), d(v.args[2], rest))
            return pure_deref(v, rest)

        return d

    def modified(self, s, r):
        c = s.heap.get(r)
        return c is not None and not (c.op == "base" and c.args[0] is r)

    def read(self, s, root, p):
        p = trim(p)
        if root.op == "sel" and root not in s.heap:
            return ite(
                bvar(root.args[0]),
                self.read(s, root.args[1], p),
                self.read(s, root.args[2], p),
            )
        if not self.modified(s, root):
            if not p:
                return root
            return pure_deref(root, p)
        v = read_chain(s.heap[root], p, self.deref(s))
        if v.op == "ld" and v.args[0].op in ("st", "init", "app", "sel"):
            c = self.reify_chain(s, v.args[0])
            if c is not v.args[0]:
                v = mk("ld", c, v.args[1])
        return v

    def write(self, s, root, p, v):
        p = trim(p)
        v = self.term(v, s)
        if root.op == "sel" and root not in s.heap:
            a = root.args[0]
            for r, t in ((root.args[1], bvar(a)), (root.args[2], bnot(bvar(a)))):
                old = self.read(s, r, p)
                self.write(s, r, p, ite(t, v, old))
            return
        for st_ in p:
            if isinstance(st_, Term) and st_.op == "sel" and nleaves(st_) <= 4:
                i = p.index(st_)
                t = bvar(st_.args[0])
                p1 = p[:i] + (st_.args[1],) + p[i + 1:]
                p2 = p[:i] + (st_.args[2],) + p[i + 1:]
                self.write(s, root, p1, ite(t, v, self.read(s, root, p1)))
                self.write(s, root, p2, ite(t, self.read(s, root, p2), v))
                return
        s.heap[root] = store(self.chain(s, root), p, v)

    # values -------------------------------------------------------------
    def term(self, v, s):
        """value as a term, references kept"""
        if isinstance(v, Term):
            return v
        if isinstance(v, View):
            return self.read(s, v.root, v.path)
        if isinstance(v, TupV):
            return mk("tup", *[self.reify(self.term(x, s), s) for x in v.items])
        if isinstance(v, FnV):
            if v.recv is not None:
                return mk("meth", self.val(v.recv, s), v.func.name)
            return mk("fn", self.fkey(v.func))
        if isinstance(v, ClsV):
            return mk("fn", v.cls.name)
        if isinstance(v, ExtV):
            if v.name in SCALAR_FN and SCALAR_FN[v.name] in ("inf", "nan"):
                return mk("c", SCALAR_FN[v.name])
            return mk("fn", v.name.rsplit(".", 1)[-1])
        if isinstance(v, MethV):
            return mk("meth", self.val(v.recv, s), v.name)
        if isinstance(v, ModV):
            return mk("fn", v.mod.name)
        if isinstance(v, DelayedV):
            return mk("delayed", self.term(v.f, s))
        if isinstance(v, LamV):
            return mk("lam", ast.dump(v.node))
        return mk("other", type(v).__name__)

    def fkey(self, f):
        i = self.opaque.get(f)
        return i.key if i is not None else f.name

    def val(self, v, s):
        """content of v for arithmetic, comparisons and external calls"""
        t = self.term(v, s)
        return self.reify(t, s)

    def reify(self, t, s, seen=()):
        if t.op in ("tup", "lst"):
            return mk(t.op, *[self.reify(x, s, seen) for x in t.args])
        if t.op == "sel" and t not in s.heap:
            return ite(
                bvar(t.args[0]), self.reify(t.args[1], s, seen), self.reify(t.args[2], s, seen)
            )
        if t in seen:
            return t
        if self.modified(s, t):
            c = self.reify_chain(s, s.heap[t], seen + (t,))
            if c.op == "val":
                return c.args[0]
            if c.op in ("comp",):
                return c
            if c.op == "init" and c.args[0] == "list":
                return mk("lst", *c.args[1])
            return mk("ld", c, PATH0)
        return t

    def reify_chain(self, s, c, seen=()):
        op = c.op
        if op == "st":
            a = self.reify_chain(s, c.args[0], seen)
            v = self.reify(c.args[2], s, seen)
            if a is c.args[0] and v is c.args[2]:
                return c
            return mk("st", a, c.args[1], v)
        if op == "app":
            a = self.reify_chain(s, c.args[0], seen)
            v = self.reify(c.args[2], s, seen)
            return mk("app", a, c.args[1], v)
        if op == "val":
            return mk("val", self.reify(c.args[0], s, seen))
        if op == "sel":
            return ite(
                bvar(c.args[0]),
                self.reify_chain(s, c.args[1], seen),
                self.reify_chain(s, c.args[2], seen),
            )
        if op == "init" and c.args[0] == "list":
            return mk("init", "list", tuple(self.reify(x, s, seen) for x in c.args[1]))
        if op == "init" and c.args[0] == "dict":
            return mk(
                "init", "dict",
                tuple((k, self.reify(x, s, seen)) for k, x in c.args[1]),
            )
        return c

    def truth(self, v, s):
        if isinstance(v, TupV):
            return int(bool(v.items))
        if isinstance(v, (FnV, ClsV, ModV, MethV, LamV)):
            return 1
        t = self.val(v, s)
        if t.op == "ld" and t.args[1] is PATH0 and t.args[0].op in ("app", "init"):
            return bvar(mk("truthy", t))
        return T.truth(t)

    # -------------------------------------------------------------- merging
    def merge_val(self, t, a, sa, b, sb):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, Term) and a is UNDEF:
            return b
        if isinstance(b, Term) and b is UNDEF:
            return a
        if isinstance(a, View) and isinstance(b, View):
            if a == b:
                return a
            if a.root is b.root and len(a.path) == len(b.path):
                out = []
                for x, y in zip(a.path, b.path):
                    if x is y or x == y:
                        out.append(x)
                    elif isinstance(x, str) or isinstance(y, str):
                        break
                    elif is_slice(x) and is_slice(y):
                        out.append(mk("slice", ite(t, x.args[0], y.args[0]), ite(t, x.args[1], y.args[1])))
                    elif is_slice(x) or is_slice(y):
                        break
                    else:
                        out.append(ite(t, x, y))
                else:
                    return View(a.root, out)
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
            return TupV(
                [self.merge_val(t, x, sa, y, sb) for x, y in zip(a.items, b.items)]
            )
        if type(a) is type(b) and isinstance(a, (FnV, ClsV, ExtV)) and a == b:
            return a
        if isinstance(a, LamV) and isinstance(b, LamV) and a.node is b.node:
            return a
        if isinstance(a, (FnV, ClsV, ExtV, LamV)) or isinstance(b, (FnV, ClsV, ExtV, LamV)):
            ta, tb = self.term(a, sa), self.term(b, sb)
            self.fnterms[ta], self.fnterms[tb] = a, b
            return ite(t, ta, tb)
        return ite(t, self.term(a, sa), self.term(b, sb))

    fnterms = {}

    def merge(self, t, a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = {}
        for k in a.env.keys() | b.env.keys():
            env[k] = self.merge_val(t, a.env.get(k), a, b.env.get(k), b)
        heap = {}
        for r in a.heap.keys() | b.heap.keys():
            ca, cb = a.heap.get(r), b.heap.get(r)
            if ca is None:
                ca = cb if r.op == "alloc" else base(r)
            if cb is None:
                cb = ca if r.op == "alloc" else base(r)
            heap[r] = merge_chain(t, ca, cb, self.deref(a))
        return S(env, heap, b_or(a.pc, b.pc))

    def merge_many(self, outs):
        """outs: [(pc, state, value)] with disjoint pcs"""
        pc, s, v = outs[-1]
        s = s.copy()
        for pc2, s2, v2 in reversed(outs[:-1]):
            v = self.merge_val(pc2, v2, s2, v, s)
            s = self.merge(pc2, s2, s)
        return s, v

    # ----------------------------------------------------------- statements
    def block(self, stmts, s):
        for k, st in enumerate(stmts):
            if s is None:
                return None
            sp = split_stmt(st, stmts[k + 1:])
            if sp is not None:
                return self.block(sp, s)
            try:
                s = self.stmt(st, s)
            except Dead:
                return None
        return s

    def stmt(self, n, s):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(n).__name__)
        return m(n, s)

    def s_Expr(self, n, s):
        if isinstance(n.value, ast.Constant):
            return s
        v = self.ev(n.value, s)
        if isinstance(n.value, ast.Call):
            self.effect(v, s)
        return s

    QUIET = {"print", "warn", "warnings.warn", ".info", ".debug", ".warning", ".flush"}

    def effect(self, v, s):
        """a call made for its effect only: recorded per callee, in order"""
        if not isinstance(v, Term) or v.op not in ("call", "callv"):
            return
        if self.into is v:
            return
        name = v.args[0]
        if isinstance(name, Term):
            name = "*" + show(name)[:60]
        if name in self.QUIET or name.startswith("*ptr(") or name.startswith("logging."):
            return
        for f, i in self.opaque.items():
            if i.key == name and i.mods:
                return
        if name[0] == ".":
            if name[1:] in MUT_METH or name[1:] in RNG_METH:
                return
            self.recv_eff(v, s)
        self.io(name, v, s)

    def recv_eff(self, v, s):
        r = self.last_recv
        if r is None or r[0] is not v:
            return
        root, p = r[1]
        if root.op == "sym" and root in self.types and not p:
            return
        if root.op in ("sym", "alloc") or p:
            self.write(s, root, p, mk("eff", v, "self"))

    def io(self, name, v, s):
        root = mk("sym", "$io:" + name)
        v = self.reify(v, s)
        s.heap[root] = mk("app", self.chain(s, root), TRUE, v)

    def s_Pass(self, n, s):
        return s

    s_Nonlocal = s_Pass

    def s_Global(self, n, s):
        self.ctx.globals.update(n.names)
        return s

    def s_Delete(self, n, s):
        gone = mk("sym", "$deleted")
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, s)
                root, p = self.loc(b, s, t.value)
                self.write(s, root, self.compose(root, p, self.steps(t.slice, s, root, p), s), gone)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, s)
                root, p = self.loc(b, s, t.value)
                self.write(s, root, p + ("." + t.attr,), gone)
        return s

    def s_Import(self, n, s):
        out = {}
        self.ctx.mod.add_import(n, out)
        for k, d in out.items():
            s.env[k] = self.from_resolved(self.pkg.resolve(d), s)
        return s

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, s):
        s.env[n.name] = LamV(n, s.env, self.ctx.mod)
        return s

    def s_ClassDef(self, n, s):
        s.env[n.name] = mk("fn", n.name)
        return s

    def s_Assign(self, n, s):
        if (
            len(n.targets) == 1
            and isinstance(n.targets[0], ast.Tuple)
            and isinstance(n.value, ast.Tuple)
            and len(n.targets[0].elts) == len(n.value.elts)
            and all(isinstance(t, ast.Name) for t in n.targets[0].elts)
            and any(isinstance(e, ast.Subscript) for e in n.value.elts)
            and not {t.id for t in n.targets[0].elts} & {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
        ):
            # parts of arrays keep their names
            for t, e in zip(n.targets[0].elts, n.value.elts):
                self.assign(t, self.ev(e, s), s)
            return s
        v = self.ev(n.value, s)
        if (
            isinstance(n.value, ast.Name)
            and any(n.value.id in x for x in self.ctx.inplace)
            and any(isinstance(t, ast.Attribute) for t in n.targets)
        ):
            # an array that later iterations go on updating in place
            v = mk("alias", self.val(v, s))
        for t in n.targets:
            self.assign(t, v, s)
        return s

    def s_AnnAssign(self, n, s):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, s), s)
        return s

    def bind(self, name, v, s):
        if name in self.ctx.globals:
            self.write(s, mk("sym", "global:%s.%s" % (self.ctx.mod.name, name)), (), v)
            return
        if (
            isinstance(v, View)
            and name not in self.ctx.base_used
            and not any(is_slice(q) for q in v.path)
        ):
            v = self.term(v, s)
        s.env[name] = v

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, TupV) and len(v.items) == len(t.elts):
                for x, y in zip(t.elts, v.items):
                    self.assign(x, y, s)
            else:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, mk("rest", self.val(v, s), num(i)), s)
                        continue
                    self.assign(x, self.index(v, (num(i),), s), s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, s)
            root, p = self.loc(b, s, t.value)
            p = self.compose(root, p, self.steps(t.slice, s, root, p), s)
            self.write(s, root, p, self.stored(v, s))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, s)
            self.set_attr(b, t.attr, v, s, t.value)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)
        else:
            raise Unsupported("assignment target")

    def stored(self, v, s):
        if isinstance(v, View):
            return self.term(v, s)
        return self.term(v, s)

    def loc(self, b, s, node=None):
        if isinstance(b, View):
            return b.root, b.path
        if isinstance(b, Term):
            return b, ()
        if isinstance(b, TupV):
            if isinstance(node, ast.Name) and node.id not in s.env:
                return mk("sym", "global:%s.%s" % (self.ctx.mod.name, node.id)), ()
            return self.term(b, s), ()
        return self.term(b, s), ()

    def cls_of(self, v, s):
        if isinstance(v, Term):
            c = self.types.get(v)
            if c is not None:
                return c
        return None

    def set_attr(self, b, attr, v, s, node=None):
        c = self.cls_of(b, s)
        if c is not None:
            st = self.pkg.find_setter(c, attr)
            if st is not None:
                self.call_func(st, [b, v], {}, s)
                return
        root, p = self.loc(b, s, node)
        self.write(s, root, p + ("." + attr,), self.stored(v, s))

    def iter_value(self, e, s):
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None and (
            e.slice.step is not None and ast.unparse(e.slice.step) == "-1"
        ):
            # backwards
            d = self.domain(self.ev(e.value, s), s)
            if d[0] == "static":
                return TupV(list(reversed(d[1])))
            return ("dom", d[1], lambda k, s2: d[2](sub(sub(d[1], num(1)), k), s2))
        return self.ev(e, s)

    def s_AugAssign(self, n, s):
        t = n.target
        rhs = self.ev(n.value, s)
        if isinstance(t, ast.Name):
            cur = self.name(t.id, s)
            new = self.binop(n.op, cur, rhs, s)
            if t.id in self.ctx.globals:
                self.bind(t.id, new, s)
                return s
            if isinstance(cur, Term) and self.is_array(cur, t.id, s):
                if isinstance(new, Term) and new.op == "bool" and False:
                    pass
                self.write(s, cur, (), new)
            elif isinstance(cur, View) and self.ctx.func is not None and (
                t.id in self.ctx.base_used and t.id in self.ctx.func.subscripted
                or any(is_slice(x) for x in cur.path)
            ):
                # subscripted somewhere: an array, changed in place
                self.write(s, cur.root, cur.path, new)
            else:
                s.env[t.id] = new
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, s)
            root, p = self.loc(b, s, t.value)
            p = self.compose(root, p, self.steps(t.slice, s, root, p), s)
            cur = self.read(s, root, p)
            self.write(s, root, p, self.binop(n.op, cur, rhs, s))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, s)
            cur = self.attr(b, t.attr, s)
            new = self.binop(n.op, cur, rhs, s)
            if isinstance(cur, Term) and cur.op == "alloc" and cur in s.heap:
                self.write(s, cur, (), new)
            else:
                self.set_attr(b, t.attr, new, s, t.value)
        return s

    def is_array(self, cur, name, s):
        if cur.op == "alloc":
            return True
        if name in self.ctx.params and name not in self.param_assigned():
            return cur.op == "sym" or cur in s.heap
        # another name of a parameter that is an array
        return cur.op == "sym" and self.ctx.func is not None and any(
            p in self.ctx.func.subscripted and s.env.get(p) is cur and p not in self.param_assigned()
            for p in self.ctx.params
        )

    def param_assigned(self):
        f = self.ctx.func
        if f is None:
            return set()
        r = getattr(f, "_plain", None)
        if r is None:
            r = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        ir.target_names(t, r)
                elif isinstance(n, ast.For):
                    ir.target_names(n.target, r)
            f._plain = r
        return r

    def s_If(self, n, s):
        t = self.truth(self.ev(n.test, s), s)
        return self.branch(
            t, s, lambda x: self.block(n.body, x), lambda x: self.block(n.orelse, x)
        )

    def branch(self, t, s, fa, fb):
        if b_and(s.pc, t) == 0:
            return fb(s)
        if b_and(s.pc, bnot(t)) == 0:
            return fa(s)
        sa, sb = s.copy(), s
        sa.pc = b_and(s.pc, t)
        sb = s.copy()
        sb.pc = b_and(s.pc, bnot(t))
        for x in (sa, sb):
            for k, v in x.env.items():
                if isinstance(v, Term) and v.op == "sel":
                    x.env[k] = simp(v, x.pc)  # what was chosen under the same condition before
        ra, rb = fa(sa), fb(sb)
        return self.merge(t, ra, rb)

    def s_Return(self, n, s):
        v = self.ev(n.value, s) if n.value is not None else NONE
        self.ctx.abrupt.append(("return", s, v, None))
        return None

    def s_Raise(self, n, s):
        exc = "reraise"
        if n.exc is not None:
            e = n.exc
            if isinstance(e, ast.Call):
                e = e.func
            exc = e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "?")
            if isinstance(n.exc, ast.Name) and n.exc.id in s.env:
                exc = "reraise"
        self.ctx.abrupt.append(("raise", s, None, exc))
        return None

    def s_Assert(self, n, s):
        t = self.truth(self.ev(n.test, s), s)
        if t == 1:
            return s
        f = s.copy()
        f.pc = b_and(s.pc, bnot(t))
        if f.pc != 0:
            self.ctx.abrupt.append(("raise", f, None, "AssertionError"))
        s.pc = b_and(s.pc, t)
        return s if s.pc != 0 else None

    def s_Break(self, n, s):
        self.ctx.abrupt.append(("break", s, None, None))
        return None

    def s_Continue(self, n, s):
        self.ctx.abrupt.append(("continue", s, None, None))
        return None

    def s_With(self, n, s):
        depth = len(self.parcfg)
        for it in n.items:
            v = self.ev(it.context_expr, s)
            if isinstance(v, Term) and v.op == "call" and str(v.args[0]).rsplit(".", 1)[-1] in (
                "parallel_config", "parallel_backend"
            ):
                k = dict(self.parcfg[-1]) if self.parcfg else {}
                k.update(dict(v.args[2]))
                if v.args[1]:
                    k["backend"] = v.args[1][0]
                self.parcfg.append(k)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        r = self.block(n.body, s)
        del self.parcfg[depth:]
        return r

    def s_Try(self, n, s):
        s0 = s.copy()
        saved, self.calltrace = self.calltrace, []
        mark = len(self.ctx.abrupt)
        r = self.block(n.body, s)
        calls = tuple(dict.fromkeys(self.calltrace))
        self.calltrace = saved
        if saved is not None:
            saved.extend(calls)
        outs = self.ctx.abrupt[mark:]
        del self.ctx.abrupt[mark:]
        keep, caught = [], []
        names = []
        for h in n.handlers:
            names.append(
                tuple(sorted(self._exc_names(h.type))) if h.type is not None else ("*",)
            )
        for o in outs:
            if o[0] == "raise":
                k = next(
                    (i for i, ns in enumerate(names) if "*" in ns or "Exception" in ns or o[3] in ns),
                    None,
                )
                if k is not None:
                    caught.append((k, o))
                    continue
            keep.append(o)
        self.ctx.abrupt.extend(keep)
        if r is not None and n.orelse:
            r = self.block(n.orelse, r)
        for i, h in enumerate(n.handlers):
            entry, cond = None, 0
            for k, o in caught:
                if k == i:
                    entry = o[1].copy() if entry is None else self.merge(o[1].pc, o[1], entry)
                    cond = b_or(cond, o[1].pc)
            if calls:
                a = bvar(mk("exc", names[i], calls))
                x = s0.copy()
                x.pc = b_and(s0.pc, a)
                if r is not None:
                    r.pc = b_and(r.pc, bnot(a))
                entry = x if entry is None else self.merge(cond, entry, x)
                cond = b_or(cond, a)
            if entry is None:
                continue
            if h.name:
                entry.env[h.name] = mk("c", "<exc>")
            entry.pc = b_and(s0.pc, cond) if cond != 0 else entry.pc
            e = self.block(h.body, entry)
            if e is not None:
                r = self.merge(cond, e, r) if r is not None else e
        if n.finalbody and r is not None:
            r = self.block(n.finalbody, r)
        return r

    def _exc_names(self, t):
        if isinstance(t, ast.Tuple):
            return [x for e in t.elts for x in self._exc_names(e)]
        return [t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "?")]

    # ---------------------------------------------------------------- loops
    def s_For(self, n, s):
        it = self.iter_value(n.iter, s)
        return self.for_loop(n.target, it, n.body, n.orelse, s)

    def for_loop(self, target, it, body, orelse, s):
        dom = self.domain(it, s)
        if dom[0] == "static" and len(dom[1]) <= 60:
            items = dom[1]
            brk = []
            for x in items:
                if s is None:
                    break
                self.assign(target, x, s)
                mark = len(self.ctx.abrupt)
                s = self.block(body, s)
                outs = self.ctx.abrupt[mark:]
                del self.ctx.abrupt[mark:]
                for o in outs:
                    if o[0] == "continue":
                        s = o[1] if s is None else self.merge(o[1].pc, o[1], s)
                    elif o[0] == "break":
                        brk.append(o)
                    else:
                        self.ctx.abrupt.append(o)
            if s is not None and orelse:
                s = self.block(orelse, s)
            for o in brk:
                s = o[1] if s is None else self.merge(o[1].pc, o[1], s)
            return s
        if dom[0] == "static":
            N, elem = num(len(dom[1])), (lambda k, st: mk("ld", base(self.term(TupV(dom[1]), st)), path(k)))
        else:
            N, elem = dom[1], dom[2]
        return self.loop(s, N, None, target, elem, body, orelse)

    def s_While(self, n, s):
        return self.loop(s, None, n.test, None, None, n.body, n.orelse)

    def loop(self, s, N, test, target, elem, body, orelse):
        L = self.fresh()
        iv = mk("iv", L)
        names = ir.assigned_names(body)
        if target is not None:
            ir.target_names(target, names)
        if test is not None:
            names |= ir.assigned_names([ast.Expr(test)])
        names = sorted(x for x in names if x not in self.ctx.globals)
        plain = set()
        for b_ in body:
            for y in ast.walk(b_):
                if isinstance(y, ast.Assign):
                    for t in y.targets:
                        ir.target_names(t, plain)
        inplace = {
            x for x in names
            if x not in plain and isinstance(s.env.get(x), Term) and s.env[x].op == "alloc"
        }
        mods = []
        nonint = set()
        flags = {}
        for attempt in range(8):
            items = []
            x = s.copy()
            for name in names:
                v = s.env.get(name)
                self.carry(items, L, ("var", name), v, s, x, nonint)
            for r in mods:
                mu = mk("mu", L, len(items), False)
                items.append(Item(("heap", r), mu, self.reify_chain(s, self.chain(s, r)), self.made.get(r)))
                x.heap[r] = mu
            for fl, init in flags.items():
                mu = mk("mu", L, len(items), False)
                items.append(Item(("var", fl), mu, init))
                x.env[fl] = mu
            x.pc = 1
            mark = len(self.ctx.abrupt)
            H = 1
            if test is not None:
                H = self.truth(self.ev(test, x), x)
                x.pc = H
            head_env = dict(x.env)
            self.ctx.inplace.append(inplace)
            try:
                if elem is not None:
                    self.assign(target, elem(iv, x), x)
                end = self.block(body, x) if H != 0 else None
            except Dead:
                end = None
            finally:
                self.ctx.inplace.pop()
            outs = self.ctx.abrupt[mark:]
            del self.ctx.abrupt[mark:]
            brk = []
            for kind, st, v, exc in outs:
                if kind == "continue":
                    end = st if end is None else self.merge(st.pc, st, end)
                elif kind == "break":
                    brk.append(st)
                elif kind == "return":
                    st.env["$rf%d" % self.rid(L)] = TRUE
                    st.env["$ret%d" % self.rid(L)] = (
                        self.reify(self.term(v, st), st)
                    )
                    flags.setdefault("$rf%d" % self.rid(L), FALSE)
                    flags.setdefault("$ret%d" % self.rid(L), UNDEF)
                    brk.append(st)
                elif kind == "raise":
                    f = "$rz%d:%s" % (self.rid(L), exc)
                    st.env[f] = TRUE
                    flags.setdefault(f, FALSE)
                    brk.append(st)
            B = 0
            bs = None
            for st in brk:
                B = b_or(B, st.pc)
                bs = st if bs is None else self.merge(st.pc, st, bs)
            fin = end
            if bs is not None:
                fin = bs if end is None else self.merge(B, bs, end)
            if fin is None:
                fin = x
            new = [
                r
                for r, c in fin.heap.items()
                if r not in mods
                and (r in s.heap or r.op != "alloc")
                and c is not s.heap.get(r, None)
                and not (r not in s.heap and c.op == "base")
                and not self.loop_local(r, L)
            ]
            missing = [f for f in flags if f not in head_env]
            again = bool(new) or bool(missing)
            mods += sorted(new, key=lambda r: r.id)
            # integer-ness of carried variables is assumed, then confirmed
            for i_ in items:
                if i_.key[0] == "var" and i_.key[1] in names and i_.mu.args[2]:
                    v = self.carried_end(i_, fin)
                    if v is not None and v is not UNDEF and not is_int(v):
                        if i_.key not in nonint:
                            nonint.add(i_.key)
                            again = True
            if not again:
                break
        else:
            self.note("loop did not stabilise")
        for i_ in items:
            if i_.key[0] == "heap":
                c = shared(fin.heap[i_.key[1]], {
                    q: mk("alias", self.reify(q, fin)) for q in mods if q.op == "alloc" and q in s.heap
                    and q is not i_.key[1]})
                i_.next = self.reify_chain(fin, c)
            else:
                i_.next = self.carried_end(i_, fin)
                if i_.next is None:
                    i_.next = UNDEF
        allocs_inside = [
            r for r in fin.heap if r.op == "alloc" and r not in s.heap
        ]
        exit_, Nout = close_loop(items, iv, N, H, B, L)
        # roots that depend on the iteration: keep their effect under a bound name
        r = s.copy()
        for i_ in items:
            v = exit_[i_.mu]
            if i_.key[0] == "heap":
                r.heap[i_.key[1]] = v
            elif i_.key[0] == "var":
                r.env[i_.key[1]] = v
        # views and tuples carried by components
        for name in names:
            comp = [i_ for i_ in items if i_.key[0] == "part" and i_.key[1] == name]
            if comp:
                v0 = s.env.get(name)
                if isinstance(v0, View):
                    p = list(v0.path)
                    for i_ in comp:
                        p[i_.key[2]] = exit_[i_.mu]
                    r.env[name] = View(v0.root, p)
                elif isinstance(v0, TupV):
                    it = list(v0.items)
                    for i_ in comp:
                        it[i_.key[2]] = exit_[i_.mu]
                    r.env[name] = TupV(it)
            if name not in r.env and name in fin.env:
                if not any(i_.key[:2] == ("var", name) for i_ in items):
                    r.env[name] = UNDEF
        for root, c in fin.heap.items():
            if self.loop_local(root, L) and c.op != "base" and root.op != "alloc":
                h = mk("foreach", Nout if Nout is not None else NONE)
                bvx = mk("bv", 99)
                sb = lambda t: bvx if t is iv else (
                    mk("sym", "$carried") if t.op == "mu" and t.args[0] == L else None)
                c = self.reify_chain(fin, c)
                if H != 1:
                    c = simp(c, H)
                if B and simp(c, B).op == "base":
                    c = simp(c, bnot(B))  # nothing is written before leaving
                r.heap[subst(root, sb)] = mk("val", mk("each", h, subst(c, sb)))
        # returns and raises out of the loop
        rid = self.rid(L)
        for f in flags:
            if f.startswith("$rz"):
                t = T.truth(self.term(r.env[f], r))
                if b_and(r.pc, t) != 0:
                    q = r.copy()
                    q.pc = b_and(r.pc, t)
                    self.ctx.abrupt.append(("raise", q, None, f.split(":", 1)[1]))
                    r.pc = b_and(r.pc, bnot(t))
        if "$rf%d" % rid in flags:
            t = T.truth(self.term(r.env["$rf%d" % rid], r))
            q = r.copy()
            q.pc = b_and(r.pc, t)
            if q.pc != 0:
                self.ctx.abrupt.append(("return", q, q.env["$ret%d" % rid], None))
            r.pc = b_and(r.pc, bnot(t))
            if r.pc == 0:
                return None
        for f in flags:
            r.env.pop(f, None)
        if orelse:
            r2 = self.block(orelse, r)
            return r2
        return r

    def rid(self, L):
        return L

    def loop_local(self, r, L):
        """does the identity of root r depend on the iteration of loop L"""
        k = (r, L)
        c = self._ll.get(k)
        if c is None:
            c = self._ll[k] = any(
                t.op in ("iv", "mu") and t.args[0] == L for t in walk(r)
            )
        return c

    _ll = {}

    def carry(self, items, L, key, v, s, x, nonint):
        name = key[1]
        if v is None:
            mu = mk("mu", L, len(items), False)
            items.append(Item(key, mu, UNDEF))
            x.env[name] = mu
            return
        if isinstance(v, View) and all(
            not isinstance(q, str) and not is_slice(q) for q in v.path
        ):
            p = []
            for k, q in enumerate(v.path):
                kk = ("part", name, k)
                mu = mk("mu", L, len(items), is_int(q) and kk not in nonint)
                items.append(Item(kk, mu, q))
                p.append(mu)
            x.env[name] = View(v.root, p)
            return
        if isinstance(v, (FnV, ClsV, ModV, ExtV, LamV, MethV, SuperV, ParV, DelayedV, _Partial)):
            return
        if isinstance(v, TupV) and all(isinstance(q, Term) for q in v.items):
            it = []
            for k, q in enumerate(v.items):
                kk = ("part", name, k)
                mu = mk("mu", L, len(items), is_int(q) and kk not in nonint)
                items.append(Item(kk, mu, q))
                it.append(mu)
            x.env[name] = TupV(it)
            return
        if isinstance(v, Term) and v.op == "alloc":
            # array variable: in-place updates go through the heap
            pass
        t = self.reify(self.term(v, s), s)
        mu = mk("mu", L, len(items), is_int(t) and key not in nonint)
        items.append(Item(key, mu, t, orig=v))
        if isinstance(v, Term) and v.op in ("alloc", "sym", "ld") and self.kept(v, name, s):
            # only ever updated in place inside the loop
            x.env[name] = v
        else:
            x.env[name] = mu

    def kept(self, v, name, s):
        return False

    def carried_end(self, i_, fin):
        if i_.key[0] == "var":
            v = fin.env.get(i_.key[1])
            if v is None:
                return None
            return self.reify(self.term(v, fin), fin)
        _, name, k = i_.key
        v = fin.env.get(name)
        if isinstance(v, View):
            if k < len(v.path) and isinstance(v.path[k], Term):
                return v.path[k]
            return mk("mixed", self.term(v, fin), num(k))
        if isinstance(v, TupV) and k < len(v.items):
            return self.reify(self.term(v.items[k], fin), fin)
        return mk("mixed", self.term(v, fin), num(k))

    # -------------------------------------------------------------- domains
    def domain(self, it, s):
        """('static', [values]) or ('dom', N, elem(k, s))"""
        if isinstance(it, TupV):
            return ("static", it.items)
        if isinstance(it, tuple) and it and it[0] == "dom":
            return it
        if isinstance(it, Term) and it.op == "alloc":
            c = s.heap.get(it)
            if c is not None and c.op == "init" and c.args[0] == "list":
                return ("static", list(c.args[1]))
        if isinstance(it, Term) and it.op in ("lst", "tup"):
            return ("static", list(it.args))
        if isinstance(it, Term) and it.op == "dict":
            return ("static", [k for k, _ in it.args[0]])
        if isinstance(it, Term) and it.op == "items":
            if it.args[0].op == "dict":
                return ("static", [TupV([k, v]) for k, v in it.args[0].args[0]])
            d = it.args[0]
            N = mk("dim", d, num(1)) if is_frame(d) else mk("len", d)
            def el(k, s2):
                key = mk("ld", base(mk("keys", d)), path(k))
                return TupV([key, mk("ld", base(mk("values", d)), path(k))])
            return ("dom", N, el)
        d = None
        if isinstance(it, View) and it.path and it.path[-1] == ".__dict__":
            d = self.val(it, s)
        elif isinstance(it, Term) and it.op == "ld" and it.args[1].args and it.args[1].args[-1] == ".__dict__":
            d = it
        elif isinstance(it, Term) and it.op == "call" and it.args[0] == ".keys" and len(it.args[1]) == 1:
            d = it.args[1][0]
        if d is not None:
            return ("dom", mk("len", d), lambda k, s2: mk("ld", base(mk("keys", d)), path(k)))
        N = self.length(it, s)
        return ("dom", N, lambda k, s2: self.index(it, (k,), s2))

    def length(self, v, s):
        if isinstance(v, TupV):
            return num(len(v.items))
        if isinstance(v, tuple) and v and v[0] == "dom":
            return v[1]
        if isinstance(v, View):
            for i, q in enumerate(v.path):
                if is_slice(q):
                    lo, hi = q.args
                    if hi is NONE:
                        d = self.dim(v.root, v.path[:i], s)
                        return sub(d, lo)
                    return sub(hi, lo)
            return mk("len", self.val(v, s))
        t = self.term(v, s)
        return self.dim(t, (), s)

    def dim(self, root, p, s):
        """length of the first free dimension of root at p"""
        p = tuple(p)
        if root.op == "keys" and not p and is_frame(root.args[0]):
            return mk("dim", root.args[0], num(1))
        if root.op == "sel" and root not in s.heap:
            return ite(
                bvar(root.args[0]), self.dim(root.args[1], p, s), self.dim(root.args[2], p, s)
            )
        c = self.chain(s, root)
        k = len(p)
        while c.op in ("st", "app", "val"):
            if c.op == "app":
                if k == 0 and c.args[1] is TRUE:
                    x = s.copy()
                    x.heap[root] = c.args[0]
                    return add(self.dim(root, p, x), num(1))
                break
            if c.op == "val":
                break
            if k == 0 and c.args[0].op != "base" and c.args[0].op != "init":
                pass
            c = c.args[0]
        if c.op == "init" and c.args[0] in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full"):
            sh = dict(c.args[1]).get("shape")
            if sh is not None:
                if sh.op == "tup":
                    if k < len(sh.args):
                        return sh.args[k]
                elif k == 0:
                    return sh
        if c.op == "init" and c.args[0] == "list" and k == 0:
            return num(len(c.args[1]))
        if c.op == "comp" and k == 0 and c.args[2] is TRUE:
            return c.args[0]
        if c.op == "val" and k == 0:
            v = c.args[0]
            if v.op == "comp" and v.args[2] is TRUE:
                return v.args[0]
            if v.op not in ("num", "bool"):
                return mk("len", v)
        if root.op == "comp" and k == 0 and root.args[2] is TRUE:
            return root.args[0]
        if root.op in ("lst", "tup") and k == 0:
            return num(len(root.args))
        if root.op == "alloc" or self.modified(s, root):
            return mk("len", self.shape_term(self.reify(root, s))) if k == 0 else mk("dim", self.shape_term(self.reify(root, s)), num(k))
        if p:
            return mk("dim", root, num(k))
        return mk("len", root)

    def shape_term(self, t):
        """in-place stores do not change lengths"""
        if t.op == "ld" and t.args[1] is PATH0:
            c = t.args[0]
            while c.op == "st":
                c = c.args[0]
            if c.op == "base":
                return c.args[0]
            return mk("ld", c, PATH0)
        return t

    # ---------------------------------------------------------- expressions
    def ev(self, n, s):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n, s)

    def e_Constant(self, n, s):
        if n.value is Ellipsis:
            return mk("c", "...")
        if isinstance(n.value, (bytes, complex)):
            return mk("c", repr(n.value))
        return const(n.value)

    def e_Name(self, n, s):
        return self.name(n.id, s)

    def name(self, id_, s):
        if id_ in self.ctx.globals:
            r = mk("sym", "global:%s.%s" % (self.ctx.mod.name, id_))
            if self.modified(s, r):
                return self.read(s, r, ())
            return r
        if id_ in s.env:
            v = s.env[id_]
            return v
        r = self.pkg.lookup(self.ctx.mod, id_)
        if r is not None:
            return self.from_resolved(r, s)
        if id_ in ("True", "False", "None"):
            return const({"True": True, "False": False, "None": None}[id_])
        return ExtV(id_)

    def from_resolved(self, r, s):
        if isinstance(r, ir.Func):
            return FnV(r)
        if isinstance(r, ir.Class):
            return ClsV(r)
        if isinstance(r, ir.Module):
            return ModV(r)
        if isinstance(r, tuple) and r[0] == "ext":
            return ExtV(r[1])
        if isinstance(r, tuple) and r[0] == "const":
            return self.module_const(r[1], r[2])
        return ExtV(str(r))

    def module_const(self, m, name):
        k = (m.name, name)
        if k in self.const_cache:
            return self.const_cache[k]
        self.const_cache[k] = mk("sym", "global:%s.%s" % k)
        saved = self.ctx, self.calltrace
        self.ctx = Ctx(None, m)
        self.calltrace = None
        s = S({}, {}, 1)
        try:
            v = self.ev(m.consts[name], s)
            v = self.freeze(v, s)
        except (Unsupported, Dead):
            v = mk("sym", "global:%s.%s" % k)
        finally:
            self.ctx, self.calltrace = saved
        self.const_cache[k] = v
        return v

    def freeze(self, v, s):
        if isinstance(v, Term) and v.op == "alloc":
            c = s.heap[v]
            if c.op == "init" and c.args[0] == "list":
                return TupV([self.freeze(x, s) for x in c.args[1]])
            if c.op == "init" and c.args[0] == "dict":
                return mk("dict", tuple((k, self.term(self.freeze(x, s), s)) for k, x in c.args[1]))
            return self.reify(v, s)
        if isinstance(v, View):
            return self.term(v, s)
        return v

    def e_Tuple(self, n, s):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, s)
                if isinstance(v, Term) and v.op == "alloc":
                    v = self.freeze(v, s)
                if isinstance(v, TupV):
                    out += v.items
                    continue
                out.append(mk("star", self.val(v, s)))
            else:
                v = self.ev(e, s)
                if isinstance(v, View):
                    v = self.term(v, s)
                out.append(v)
        return TupV(out)

    def e_List(self, n, s):
        t = self.e_Tuple(n, s)
        if all(isinstance(x, Term) for x in t.items) or not t.items:
            return self.alloc(s, mk("init", "list", tuple(t.items)))
        return t

    def e_Set(self, n, s):
        return TupV([self.ev(e, s) for e in n.elts])

    def e_Dict(self, n, s):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append((mk("c", "**"), self.val(self.ev(v, s), s)))
                continue
            items.append((self.val(self.ev(k, s), s), self.term(self.ev(v, s), s)))
        items.sort(key=lambda kv: kv[0].id)
        return self.alloc(s, mk("init", "dict", tuple(items)))

    def e_JoinedStr(self, n, s):
        out = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                out.append(self.val(self.ev(v.value, s), s))
            else:
                out.append(mk("c", v.value))
        return mk("fstr", *out)

    def e_Starred(self, n, s):
        return self.ev(n.value, s)

    def e_NamedExpr(self, n, s):
        v = self.ev(n.value, s)
        self.bind(n.target.id, v, s)
        return v

    def e_Lambda(self, n, s):
        return LamV(n, s.env, self.ctx.mod)

    def e_IfExp(self, n, s):
        t = self.truth(self.ev(n.test, s), s)
        if b_and(s.pc, t) == 0:
            return self.ev(n.orelse, s)
        if b_and(s.pc, bnot(t)) == 0:
            return self.ev(n.body, s)
        sa, sb = s.copy(), s.copy()
        sa.pc, sb.pc = b_and(s.pc, t), b_and(s.pc, bnot(t))
        try:
            va = self.ev(n.body, sa)
        except Dead:
            sa = None
        try:
            vb = self.ev(n.orelse, sb)
        except Dead:
            sb = None
        if sa is None and sb is None:
            raise Dead()
        if sa is None:
            self.become(s, sb)
            return vb
        if sb is None:
            self.become(s, sa)
            return va
        v = self.merge_val(t, va, sa, vb, sb)
        self.become(s, self.merge(t, sa, sb))
        return v

    def become(self, s, o):
        s.env.clear()
        s.env.update(o.env)
        s.heap.clear()
        s.heap.update(o.heap)
        s.pc = o.pc

    def e_BoolOp(self, n, s):
        # short circuit: later operands are evaluated under the earlier ones
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], s)
        for e in n.values[1:]:
            t = self.truth(v, s)
            if (t == 0 and isand) or (t == 1 and not isand):
                return v
            if (t == 1 and isand) or (t == 0 and not isand):
                v = self.ev(e, s)
                continue
            pc = s.pc
            guard = t if isand else bnot(t)
            x = s.copy()
            x.pc = b_and(pc, guard)
            if x.pc == 0:
                return v
            w = self.ev(e, x)
            if x.heap.keys() != s.heap.keys() or any(
                x.heap[r] is not s.heap.get(r) for r in x.heap
            ):
                m = self.merge(guard, x, s)
                m.pc = pc
                self.become(s, m)
            tv, tw = self.val(v, s), self.val(w, s)
            if isand:
                v = ite(t, tw, tv) if not (T._boolish(tv) and T._boolish(tw)) else mkbool(
                    b_and(t, T.truth(tw)))
            else:
                v = ite(t, tv, tw) if not (T._boolish(tv) and T._boolish(tw)) else mkbool(
                    b_or(t, T.truth(tw)))
        return v

    def e_UnaryOp(self, n, s):
        v = self.ev(n.operand, s)
        if isinstance(n.op, ast.Not):
            return mkbool(bnot(self.truth(v, s)))
        t = self.val(v, s)
        if isinstance(n.op, ast.USub):
            if t.op == "c":
                return mk("c", "-" + str(t.args[0]))
            return neg(t)
        if isinstance(n.op, ast.UAdd):
            return t
        return self.invert(t)

    def invert(self, t):
        if t.op == "bool" or t.op == "sel" and T._boolish(t):
            return mkbool(bnot(T.truth(t)))
        if t.op == "inv":
            return t.args[0]
        return mkbool(bnot(T.truth(t)))

    def e_BinOp(self, n, s):
        return self.binop(n.op, self.ev(n.left, s), self.ev(n.right, s), s)

    def binop(self, op, a, b, s):
        if isinstance(a, TupV) and isinstance(b, TupV) and isinstance(op, ast.Add):
            return TupV(a.items + b.items)
        x, y = self.val(a, s), self.val(b, s)
        if is_set(x) and is_set(y) and type(op) in SETOPS:
            return mk("call", SETOPS[type(op)], (x, y), ())
        if isinstance(op, ast.Add):
            if x.op in ("c", "fstr") or y.op in ("c", "fstr") and y.args and isinstance(y.args[0], str):
                if not (x.op == "c" and x.args[0] in ("inf", "nan", "-inf")):
                    return mk("concat", x, y)
            if x.op in ("lst", "comp") or y.op in ("lst", "comp"):
                return mk("concat", x, y)
            return add(x, y)
        if isinstance(op, ast.Sub):
            return sub(x, y)
        if isinstance(op, ast.Mult):
            if x.op in ("lst", "comp") or y.op in ("lst", "comp"):
                l, n_ = (x, y) if x.op in ("lst", "comp") else (y, x)
                if l.op == "lst" and len(l.args) == 1 and not any(t.op == "init" for t in T.walk(l)):
                    # [x] * n is [x for _ in range(n)] for a value without identity
                    c = mk("comp", n_, mk("bv", 1 + bvheight(l.args[0])), TRUE, l.args[0])
                    return self.alloc(s, c)
                return mk("repeat", x, y)
            return mul(x, y)
        if isinstance(op, ast.Div):
            return div(x, y)
        if isinstance(op, ast.FloorDiv):
            return floordiv(x, y)
        if isinstance(op, ast.Mod):
            if x.op in ("c", "fstr"):
                return mk("fstr", x, y)
            return T.lift("mod", lambda p, q: mk("mod", p, q), x, y)
        if isinstance(op, ast.Pow):
            if is_num(y) and y.args[0].denominator == 1 and abs(y.args[0]) <= 6:
                return powi(x, int(y.args[0]))
            return mk("pow", x, y)
        if isinstance(op, ast.LShift):
            return lshift(x, y)
        if isinstance(op, ast.RShift):
            return rshift(x, y)
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            if x.op == "bool" or y.op == "bool":
                f = b_and if isinstance(op, ast.BitAnd) else b_or
                return mkbool(f(T.truth(x), T.truth(y)))
            return band(x, y) if isinstance(op, ast.BitAnd) else bor(x, y)
        return mk("op" + type(op).__name__, x, y)

    def e_Compare(self, n, s):
        vals = [self.ev(n.left, s)] + [self.ev(c, s) for c in n.comparators]
        r = 1
        for op, a, b in zip(n.ops, vals, vals[1:]):
            r = b_and(r, self.compare(op, a, b, s))
        return mkbool(r)

    def compare(self, op, a, b, s):
        if isinstance(op, (ast.In, ast.NotIn)):
            items = None
            if isinstance(b, Term) and b.op == "alloc":
                b = self.freeze(b, s)
            if isinstance(b, TupV):
                items = b.items
            elif isinstance(b, Term) and b.op in ("lst", "tup"):
                items = b.args
            elif isinstance(b, Term) and b.op == "dict":
                items = [k for k, _ in b.args[0]]
            elif (
                is_set(b) and b.args[0] in ("set", "frozenset") and len(b.args[1]) == 1
                and isinstance(b.args[1][0], Term) and b.args[1][0].op in ("lst", "tup")
            ):
                items = b.args[1][0].args
            if items is not None:
                x = self.val(a, s)
                r = 0
                for i in items:
                    y = self.val(i, s)
                    r = b_or(r, isnone(x) if y is NONE else eq(x, y))
            else:
                x, y = self.val(a, s), self.val(b, s)
                if y.op == "c" and isinstance(y.args[0], str) and x.op == "ld" and x.args[1].args and x.args[1].args[-1] == ".kind":
                    r = 0
                    for ch in y.args[0]:
                        r = b_or(r, eq(x, mk("c", ch)))
                else:
                    r = bvar(mk("in", x, y))
            return bnot(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, TupV) and isinstance(b, TupV) and isinstance(op, (ast.Eq, ast.NotEq)):
            r = int(len(a.items) == len(b.items))
            if r:
                for x, y in zip(a.items, b.items):
                    r = b_and(r, eq(self.val(x, s), self.val(y, s)))
            return bnot(r) if isinstance(op, ast.NotEq) else r
        x, y = self.val(a, s), self.val(b, s)
        if is_set(x) and is_set(y) and isinstance(op, (ast.LtE, ast.GtE)):
            if isinstance(op, ast.GtE):
                x, y = y, x
            return T.subset(x, y)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if x is NONE:
                x, y = y, x
            if y is NONE:
                if isinstance(a, (FnV, ClsV, TupV)) or (isinstance(a, Term) and a.op == "alloc"):
                    r = 0
                else:
                    r = isnone(x)
            else:
                r = eq(x, y)
            return bnot(r) if isinstance(op, (ast.IsNot, ast.NotEq)) else r
        if isinstance(op, ast.Lt):
            return lt(x, y)
        if isinstance(op, ast.Gt):
            return lt(y, x)
        if isinstance(op, ast.LtE):
            return le(x, y)
        if isinstance(op, ast.GtE):
            return le(y, x)
        raise Unsupported("comparison")

    # ------------------------------------------------------------- indexing
    def steps(self, sl, s, root=None, p=()):
        if isinstance(sl, ast.Tuple):
            return [self.step(x, s, root, p) for x in sl.elts]
        return [self.step(sl, s, root, p)]

    def step(self, x, s, root, p):
        if isinstance(x, ast.Slice):
            lo = self.val(self.ev(x.lower, s), s) if x.lower is not None else num(0)
            hi = self.val(self.ev(x.upper, s), s) if x.upper is not None else NONE
            if x.step is not None:
                st = self.val(self.ev(x.step, s), s)
                if st is not num(1):
                    return mk("slice", lo, hi, st)
            return mk("slice", lo, hi)
        v = self.ev(x, s)
        return self.val(v, s)

    def compose(self, root, p, steps, s):
        p = list(p)
        for st in steps:
            pos = next((i for i, q in enumerate(p) if is_slice(q) and not isinstance(q, str)), None)
            # a slice step introduced in this very subscript must not be refined by
            # the following ones: mark through `fresh`
            if pos is not None and not self._fresh_mark.get((id(p), pos)):
                q = p[pos]
                if len(q.args) == 3:
                    p.append(st)
                    continue
                lo, hi = q.args
                if is_slice(st) and len(st.args) == 2:
                    l2, h2 = st.args
                    nlo = add(lo, l2)
                    if h2 is NONE:
                        nhi = hi
                    elif is_num(h2) and h2.args[0] < 0:
                        d = hi if hi is not NONE else self.dim(root, p[:pos], s)
                        nhi = add(d, h2)
                    else:
                        nhi = add(lo, h2)
                    p[pos] = mk("slice", nlo, nhi)
                    self._fresh_mark[(id(p), pos)] = True
                elif is_slice(st):
                    p.append(st)
                else:
                    if is_num(st) and st.args[0] < 0 and hi is not NONE:
                        p[pos] = add(hi, st)
                    elif is_num(st) and st.args[0] < 0:
                        p[pos] = add(self.dim(root, p[:pos], s), st)
                    else:
                        p[pos] = add(lo, st) if lo is not num(0) else st
            else:
                if is_slice(st) and len(st.args) == 2:
                    lo, hi = st.args
                    if is_num(hi) and hi.args[0] < 0:
                        hi = add(self.dim(root, [q for q in p], s), hi)
                    if is_num(lo) and lo.args[0] < 0:
                        lo = add(self.dim(root, [q for q in p], s), lo)
                    p.append(mk("slice", lo, hi))
                    self._fresh_mark[(id(p), len(p) - 1)] = True
                else:
                    if is_num(st) and st.args[0] < 0:
                        st = add(self.dim(root, [q for q in p], s), st)
                    p.append(st)
        self._fresh_mark.clear()
        return tuple(p)

    _fresh_mark = {}

    def index(self, b, steps, s):
        if isinstance(b, TupV):
            k = steps[0]
            if is_num(k):
                i = int(k.args[0])
                if -len(b.items) <= i < len(b.items):
                    v = b.items[i]
                    return v if len(steps) == 1 else self.index(v, steps[1:], s)
            b = self.term(b, s)
        if isinstance(b, tuple) and b and b[0] == "dom":
            return b[2](steps[0], s)
        if not isinstance(b, (Term, View)):
            b = self.term(b, s)
        root, p = self.loc(b, s)
        k0 = steps[0]
        if isinstance(k0, Term) and k0.op == "ld" and k0.args[0].op == "base" and k0.args[0].args[0].op == "keys" and (
            len(steps) == 1 and len(k0.args[1].args) == 1 and not s.heap.get(root) and self.val(b, s) is k0.args[0].args[0].args[0]
        ):
            # the value of the k-th key
            return mk("ld", base(mk("values", k0.args[0].args[0].args[0])), k0.args[1])
        if isinstance(root, Term) and root.op == "shape" and not p and is_num(steps[0]) and steps[0].args[0] >= 0:
            k = steps[0]
            return mk("len", root.args[0]) if k is num(0) else mk("dim", root.args[0], k)
        if not p and isinstance(root, Term) and len(steps) == 1:
            # positions of the true elements: arange(n)[mask], nonzero(mask)[0], where(mask)[0]
            m = None
            if root.op == "alloc" and isinstance(steps[0], Term) and T.isbool(steps[0]):
                c = s.heap.get(root)
                if c is not None and c.op == "init" and c.args[0] == "numpy.arange" and dict(c.args[1]).get("lo") is num(0):
                    m = steps[0]
            elif root.op == "call" and steps[0] is num(0) and (
                root.args[0] == ".nonzero" and len(root.args[1]) == 1 and not root.args[2]
            ):
                m = root.args[1][0]
            elif root.op == "call" and steps[0] is num(0) and root.args[0] in ("numpy.where", "numpy.nonzero") and (
                len(root.args[1]) + len(root.args[2]) == 1
            ):
                m = root.args[1][0] if root.args[1] else root.args[2][0][1]
            if m is not None:
                return mk("call", "numpy.flatnonzero", (mkbool(T.truth(m)) if T.isbool(m) else m,), ())
        if isinstance(root, Term) and root.op in ("comp", "lst", "tup", "dict") and not p:
            if root.op == "comp" and root.args[2] is TRUE and not is_slice(steps[0]):
                bvv, elt = root.args[1], root.args[3]
                v = subst(elt, lambda t: steps[0] if t is bvv else None)
                return v if len(steps) == 1 else self.index(v, steps[1:], s)
            if root.op in ("lst", "tup") and is_num(steps[0]):
                i = int(steps[0].args[0])
                if -len(root.args) <= i < len(root.args):
                    v = root.args[i]
                    return v if len(steps) == 1 else self.index(v, steps[1:], s)
            if root.op == "dict":
                for k, v in root.args[0]:
                    if k is steps[0]:
                        return v
        # a reference stored in a container: continue in that object
        if p or True:
            q = self.compose(root, p, steps, s)
            v = View(root, q)
            if self.modified(s, root) and not any(is_slice(x) for x in q):
                t = self.read(s, root, q)
                if t.op == "alloc":
                    return t
            return v

    def e_Subscript(self, n, s):
        if isinstance(n.value, ast.Attribute) and n.value.attr == "shape" and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
            b = self.ev(n.value.value, s)
            if isinstance(b, View) and any(is_slice(q) for q in b.path):
                return self.length(b, s)
            return self.index(self.attr(b, "shape", s), (num(0),), s)
        if isinstance(n.value, ast.Attribute) and n.value.attr == "iloc" and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            b, rows = self.ev(n.value.value, s), n.slice.elts[0]
            if isinstance(b, Term) and is_frame(b) and ast.unparse(rows) == ":" and not isinstance(n.slice.elts[1], ast.Slice):
                return mk("ld", base(mk("values", b)), path(self.val(self.ev(n.slice.elts[1], s), s)))
        b = self.ev(n.value, s)
        if isinstance(b, (ClsV, ExtV, FnV)):
            return mk("fn", ast.unparse(n))
        if isinstance(b, Term) and b.op == "alloc" and isinstance(n.slice, ast.Slice):
            c = s.heap.get(b)
        root, p = self.loc(b, s, n.value) if isinstance(b, (Term, View)) else (None, ())
        st = self.steps(n.slice, s, root, p)
        return self.index(b, st, s)

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, n, s):
        b = self.ev(n.value, s)
        return self.attr(b, n.attr, s)

    def attr(self, b, attr, s):
        if attr == "columns" and isinstance(b, Term) and is_frame(b):
            return mk("keys", b)
        if isinstance(b, ModV):
            r = self.pkg.lookup(b.mod, attr)
            return self.from_resolved(r, s) if r is not None else ExtV(b.mod.name + "." + attr)
        if isinstance(b, ExtV):
            full = b.name + "." + attr
            if full in ("numpy.inf", "math.inf"):
                return mk("c", "inf")
            if full == "numpy.newaxis":
                return NONE
            if full in ("numpy.nan", "math.nan"):
                return mk("c", "nan")
            return ExtV(full)
        if isinstance(b, SuperV):
            mro = self.pkg.mro(self.types.get(b.recv, b.cls))
            if b.cls in mro:
                mro = mro[mro.index(b.cls) + 1:]
            for k in mro:
                if attr in k.methods:
                    return FnV(k.methods[attr], b.recv)
            return MethV(b.recv, "super." + attr)
        if isinstance(b, ClsV):
            m = self.pkg.find_method(b.cls, attr)
            if m is not None:
                return FnV(m)
            for k in self.pkg.mro(b.cls):
                if attr in k.attrs:
                    return self.module_attr(k, attr)
            return mk("ld", base(mk("fn", b.cls.name)), path("." + attr))
        if isinstance(b, (FnV, LamV, TupV, MethV, DelayedV, ParV, _Partial)):
            if isinstance(b, TupV):
                return MethV(b, attr)
            return mk("ld", base(self.term(b, s)), path("." + attr))
        c = self.cls_of(b, s)
        if c is not None:
            if attr == "__class__":
                return ClsV(c)
            g = self.pkg.find_getter(c, attr)
            if g is not None:
                return self.call_func(g, [b], {}, s)
            m = self.pkg.find_method(c, attr)
            if m is None:
                # method that only exists in a subclass
                cands = [
                    k.methods[attr] for k in self.pkg.subclasses(c) if attr in k.methods
                ]
                if len(cands) == 1:
                    m = cands[0]
                gs = [k.getters[attr] for k in self.pkg.subclasses(c) if attr in k.getters]
                if m is None and gs and not self.pkg.find_method(c, attr):
                    g0 = gs[0]
                    if len(gs) == 1:
                        return self.call_func(g0, [b], {}, s)
            if m is not None:
                return FnV(m, None if m.static else b)
        root, p = self.loc(b, s)
        if attr == "size":
            v = self.length(b, s)
            if v.op == "len" and is_frame(v.args[0]):
                return mk("size", v.args[0])
            return v
        if attr == "shape":
            t = self.shape_of(b, s)
            if t is not None:
                return t
            return mk("shape", self.shape_term(self.val(b, s)))
        if attr in ("dtype", "ndim") and isinstance(b, Term) and self.modified(s, b):
            return mk("ld", base(self.shape_term(self.reify(b, s))), path("." + attr))
        v = self.read(s, root, p + ("." + attr,))
        if v.op == "ld" and c is not None and v.args[0].op != "base":
            for k in self.pkg.mro(c):
                if attr in k.attrs and not self._stored(s, root, "." + attr):
                    return self.module_attr(k, attr)
        if self.modified(s, root) and not self.is_ref(v, s):
            # contents live in the owner: stores through this value go there
            return View(root, p + ("." + attr,))
        return v

    def is_ref(self, v, s):
        if v.op in ("alloc", "sym", "num", "bool", "c", "tup", "lst", "fn", "poly"):
            return True
        if v.op == "ld":
            return v.args[0].op == "base"
        if v in s.heap:
            return True
        return False

    def _stored(self, s, root, a):
        c = self.chain(s, root)
        return a in [x for t in walk(c) if t.op == "path" for x in t.args]

    def module_attr(self, k, attr):
        key = (k.qual, attr)
        if key not in self.const_cache:
            saved = self.ctx
            self.ctx = Ctx(None, k.mod)
            s = S({}, {}, 1)
            try:
                self.const_cache[key] = self.freeze(self.ev(k.attrs[attr], s), s)
            except (Unsupported, Dead):
                self.const_cache[key] = mk("sym", "classattr:" + attr)
            self.ctx = saved
        return self.const_cache[key]

    def shape_of(self, b, s):
        """the shape of an array allocated here"""
        if not isinstance(b, Term) or not self.modified(s, b) and b.op != "alloc":
            return None
        c = self.chain(s, b)
        while c.op == "st":
            c = c.args[0]
        if c.op == "init" and c.args[0] in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full"):
            sh = dict(c.args[1]).get("shape")
            if sh is not None and sh.op == "tup":
                return TupV(list(sh.args))
            if sh is not None and (sh.op in ("len", "num", "poly", "dim") or is_int(sh)):
                return TupV([sh])
        return None

    # ------------------------------------------------------- comprehensions
    def comp(self, n, elt, s, kind):
        # desugared into loops appending to a fresh list
        saved = {}
        lname = "$l%d" % self.fresh()
        lst = self.alloc(s, mk("init", "dict" if kind == "dict" else "list", ()))
        s.env[lname] = lst
        names = set()
        for g in n.generators:
            ir.target_names(g.target, names)
        saved = {k: s.env.get(k) for k in names}
        here = ast.Name(lname, ast.Load())
        if kind == "dict":
            body = [ast.Assign([ast.Subscript(here, elt[0], ast.Store())], elt[1])]
        else:
            body = [ast.Expr(ast.Call(ast.Attribute(here, "append", ast.Load()), [elt], []))]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        r = self.block(body, s.copy())
        if r is None:
            raise Dead()
        self.become(s, r)
        for k, v in saved.items():
            if v is None:
                s.env.pop(k, None)
            else:
                s.env[k] = v
        s.env.pop(lname, None)
        return lst

    def e_ListComp(self, n, s):
        return self.comp(n, n.elt, s, "list")

    def e_GeneratorExp(self, n, s):
        return self.comp(n, n.elt, s, "gen")

    def e_SetComp(self, n, s):
        return mk("call", "set", (self.val(self.comp(n, n.elt, s, "set"), s),), ())

    def e_DictComp(self, n, s):
        # a loop storing into a fresh dict
        return self.comp(n, (n.key, n.value), s, "dict")

    def e_Await(self, n, s):
        raise Unsupported("await")

    # ----------------------------------------------------------------- calls
    def e_Call(self, n, s):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            f = self.ctx.func
            if f is not None and f.cls is not None and f.pos:
                return SuperV(f.cls, s.env.get(f.pos[0]))
        if isinstance(n.func, ast.Attribute):
            b = self.ev(n.func.value, s)
            if n.func.attr in ("acquire", "release") and not n.args and not n.keywords and isinstance(
                b, Term
            ) and b.op == "sym" and str(b.args[0]).rsplit("_", 1)[-1].endswith("lock"):
                # mutual exclusion does not change what one thread computes; that the
                # lock is held where it must be is decided by the lock rule
                return TRUE
            c = self.cls_of(b, s)
            f = None
            if isinstance(b, (ModV, ExtV, SuperV, ClsV)) or c is not None:
                f = self.attr(b, n.func.attr, s)
                if c is not None and isinstance(f, Term) and f.op == "ld" and f.args[0].op == "base":
                    f = MethV(b, n.func.attr)
            if f is None:
                f = MethV(b, n.func.attr)
        else:
            f = self.ev(n.func, s)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, s)
                if isinstance(v, Term) and v.op == "alloc":
                    v = self.freeze(v, s)
                if isinstance(v, TupV):
                    args += v.items
                else:
                    args.append(mk("star", self.val(v, s)))
            else:
                args.append(self.ev(a, s))
        for k in n.keywords:
            v = self.ev(k.value, s)
            if k.arg is None:
                t = self.freeze(v, s) if isinstance(v, Term) and v.op == "alloc" else v
                if isinstance(t, Term) and t.op == "dict" and all(
                    kk.op == "c" for kk, _ in t.args[0]
                ):
                    for kk, vv in t.args[0]:
                        kw[kk.args[0]] = vv
                else:
                    kw["**"] = self.val(v, s)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, s)

    def call(self, f, args, kw, s):
        if isinstance(f, Term) and f.op == "sel" and f not in s.heap and any(
            x in self.fnterms or x.op == "fn" for x in (f.args[1], f.args[2])
        ):
            t = bvar(f.args[0])
            sa, sb = s.copy(), s.copy()
            sa.pc, sb.pc = b_and(s.pc, t), b_and(s.pc, bnot(t))
            va = self.call(self.fnterms.get(f.args[1], f.args[1]), args, kw, sa)
            vb = self.call(self.fnterms.get(f.args[2], f.args[2]), args, kw, sb)
            v = self.merge_val(t, va, sa, vb, sb)
            self.become(s, self.merge(t, sa, sb))
            return v
        if isinstance(f, Term) and f in self.fnterms:
            f = self.fnterms[f]
        if isinstance(f, FnV):
            a = ([f.recv] if f.recv is not None else []) + list(args)
            return self.call_func(f.func, a, kw, s)
        if isinstance(f, ClsV):
            return self.call_class(f.cls, args, kw, s)
        if isinstance(f, LamV):
            return self.call_lambda(f, args, kw, s)
        if isinstance(f, ExtV):
            return self.call_ext(f.name, args, kw, s)
        if isinstance(f, _Partial):
            return self.call(f.f, list(f.a) + list(args), {**f.k, **kw}, s)
        if isinstance(f, DelayedV):
            return self.call(f.f, args, kw, s)
        if isinstance(f, ParV):
            return args[0] if args else NONE
        if isinstance(f, MethV):
            return self.call_meth(f.recv, f.name, args, kw, s)
        if isinstance(f, Term):
            return self.call_unknown(f, args, kw, s)
        raise Unsupported("call of %s" % type(f).__name__)

    def call_unknown(self, f, args, kw, s):
        """call of a function held in a parameter or attribute"""
        if f.op == "meth":
            return self.call_meth(f.args[0], f.args[1], args, kw, s)
        cands = []
        if f.op == "sym" and self.ctx.func is not None:
            for p, v in list(s.env.items()):
                if v is f and p in self.ctx.params:
                    cands = self.pkg.fnptr_candidates().get((self.ctx.func.qual, p), [])
        ifs = [self.opaque.get(c) for c in cands]
        if cands and all(ifs):
            i0 = ifs[0]
            reads, mods = [], []
            for i in ifs:
                m = dict(zip(i.params, i0.params))
                for p, q in i.reads:
                    x = (m.get(p, p), q)
                    if x not in reads:
                        reads.append(x)
                for p, q, st in i.mods:
                    x = (m.get(p, p), q, st)
                    if x not in mods:
                        mods.append(x)
            i = Iface("*" + show(f), i0.params, sorted(reads), sorted(mods, key=str))
            return self.call_opaque(i, dict(zip(i0.params, args)), s, f)
        t = mk("callv", f, tuple(self.val(a, s) for a in args),
               tuple(sorted((k, self.val(v, s)) for k, v in kw.items())))
        self.trace(t)
        return t

    def trace(self, t):
        if self.calltrace is not None:
            self.calltrace.append(t)

    def bindargs(self, func, args, kw, s, lam_env=None):
        env = dict(zip(func.pos, args))
        extra = list(args[len(func.pos):])
        for k, v in kw.items():
            if k in func.params:
                env[k] = v
            elif k != "**" and func.kwarg is None:
                pass
        missing = [p for p in func.params if p not in env]
        if missing:
            saved = self.ctx
            self.ctx = Ctx(None, func.mod)
            for p in missing:
                d = func.defaults.get(p)
                if d is not None:
                    try:
                        env[p] = self.ev(d, s)
                    except Unsupported:
                        env[p] = mk("sym", "default:" + p)
                else:
                    env[p] = kw.get("**", UNDEF) if "**" in kw else UNDEF
            self.ctx = saved
        if func.vararg:
            env[func.vararg] = TupV(extra)
        if func.kwarg:
            items = tuple(
                sorted(
                    ((mk("c", k), self.term(v, s)) for k, v in kw.items() if k not in func.params),
                    key=lambda kv: kv[0].id,
                )
            )
            env[func.kwarg] = mk("dict", items)
        return env

    def call_func(self, func, args, kw, s):
        i = self.opaque.get(func)
        rec = any(c.func is func for c in self.stack)
        if i is not None or rec or len(self.stack) > self.max_depth:
            env = self.bindargs(func, args, kw, s)
            if i is None:
                t = mk("call", func.name, tuple((p, self.val(env[p], s)) for p in func.params), ())
                self.trace(t)
                return t
            pm = self.pmap.get(func, {})
            return self.call_opaque(i, {pm.get(p, p): v for p, v in env.items()}, s)
        return self.inline(func, args, kw, s)

    def inline(self, func, args, kw, s):
        env = self.bindargs(func, args, kw, s)
        for p in list(env):
            if isinstance(env[p], View) and p not in func.base_used and not any(
                is_slice(q) for q in env[p].path
            ):
                env[p] = self.term(env[p], s)
        ctx = Ctx(func, func.mod, func.params)
        saved = self.ctx
        self.ctx = ctx
        self.stack.append(ctx)
        pc0 = s.pc
        x = S(env, dict(s.heap), 1)
        try:
            r = self.block(func.node.body, x)
        finally:
            self.stack.pop()
            self.ctx = saved
        outs = [(st.pc, st, v) for k, st, v, e in ctx.abrupt if k == "return"]
        if r is not None and r.pc != 0:
            outs.append((r.pc, r, NONE))
        ok = 0
        for pc, _, _ in outs:
            ok = b_or(ok, pc)
        for k, st, v, e in ctx.abrupt:
            if k == "raise":
                q = S(dict(s.env), st.heap, b_and(pc0, st.pc))
                if q.pc != 0:
                    saved.abrupt.append(("raise", q, None, e)) if saved is not None else None
        outs = [o for o in outs if o[0] != 0]
        if not outs:
            raise Dead()
        m, v = self.merge_many(outs)
        if isinstance(v, View) and func.cls is None:
            pass
        s.heap.clear()
        s.heap.update(m.heap)
        s.pc = b_and(pc0, ok)
        if s.pc == 0:
            raise Dead()
        return v

    def call_lambda(self, f, args, kw, s):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = dict(f.env)
        for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            env[n] = self.ev(d, s)
        env.update(zip(pos, args))
        env.update({k: v for k, v in kw.items()})
        if isinstance(f.node, ast.Lambda):
            saved = s.env
            x = S(env, s.heap, s.pc)
            v = self.ev(f.node.body, x)
            return v
        if len(self.stack) > self.max_depth:
            return mk("callv", self.term(f, s), tuple(self.val(x, s) for x in args), ())
        fn = ir.Func(f.mod, f.node)
        ctx = Ctx(fn, f.mod, fn.params)
        saved = self.ctx
        self.ctx = ctx
        self.stack.append(ctx)
        pc0 = s.pc
        x = S(env, dict(s.heap), 1)
        try:
            r = self.block(f.node.body, x)
        finally:
            self.stack.pop()
            self.ctx = saved
        outs = [(st.pc, st, v) for k, st, v, e in ctx.abrupt if k == "return"]
        if r is not None:
            outs.append((r.pc, r, NONE))
        for k, st, v, e in ctx.abrupt:
            if k == "raise":
                q = S(dict(s.env), st.heap, b_and(pc0, st.pc))
                saved.abrupt.append(("raise", q, None, e))
        if not outs:
            raise Dead()
        m, v = self.merge_many(outs)
        s.heap.clear()
        s.heap.update(m.heap)
        return v

    def call_class(self, cls, args, kw, s):
        init = self.pkg.find_method(cls, "__init__")
        i = self.opaque.get(init) if init is not None else None
        if init is None:
            t = mk("call", cls.name, tuple(self.val(a, s) for a in args),
                   tuple(sorted((k, self.val(v, s)) for k, v in kw.items())))
            self.trace(t)
            return t
        if i is not None and cls is init.cls:
            env = self.bindargs(init, [NONE] + list(args), kw, s)
            pm = self.pmap.get(init, {})
            env = {pm.get(p, p): v for p, v in env.items()}
            selfp = i.params[0]
            t = mk(
                "call", i.key,
                tuple((p, q, self.read_access(env.get(p, UNDEF), q, s)) for p, q in i.reads if p != selfp),
                (),
            )
            if any(m[0] == "$rng" for m in i.mods):
                s.heap[RNG] = mk("val", mk("eff", t, "$rng"))
            self.trace(t)
            a = self.alloc(s, mk("init", "new", t), cls)
            return a
        a = self.alloc(s, mk("init", "obj", cls.name), cls)
        if len(self.stack) > self.max_depth:
            return a
        self.inline(init, [a] + list(args), kw, s)
        return a

    def access(self, v, q, s):
        """object reached from v by the attribute path q"""
        for a in q:
            v = self.attr_raw(v, a, s)
        return v

    def attr_raw(self, v, a, s):
        root, p = self.loc(v, s)
        return self.read(s, root, p + (a,))

    def read_access(self, v, q, s):
        if isinstance(v, (FnV, ClsV, ExtV, LamV, MethV, TupV)):
            return self.term(v, s)
        if v is None:
            return UNDEF
        return self.val(self.access(v, q, s), s)

    def call_opaque(self, i, env, s, fn=None):
        if fn is not None:
            key = mk("ptr", fn)
        else:
            key = i.key
        args = []
        for p, q in i.reads:
            if p == "$rng":
                args.append((p, q, self.reify(RNG, s)))
            else:
                args.append((p, q, self.read_access(env.get(p, UNDEF), q, s)))
        t = mk("call", key, tuple(args), ())
        self.trace(t)
        mods = []
        for p, q, st in i.mods:
            if p == "$rng":
                mods.append((RNG, (), mk("eff", t, "$rng")))
                continue
            v = env.get(p)
            if v is None or isinstance(v, (FnV, ClsV, ExtV, TupV, LamV, MethV)):
                continue
            obj = self.access(v, q, s)
            root, pp = self.loc(obj, s)
            lab = p + "".join(q) + st
            mods.append((root, pp + ((st,) if st else ()), mk("eff", t, lab)))
        for root, pp, v in mods:
            if root.op in ("num", "bool", "c", "poly"):
                continue
            self.write(s, root, pp, v)
        return t

    # ------------------------------------------------------ external calls
    def call_ext(self, name, args, kw, s):
        short = name.rsplit(".", 1)[-1]
        if name in IGNORE_CALL:
            for a in args:
                pass
            return NONE
        if name in IDENT and name not in CASTS_KEEP and args:
            v = args[0]
            if "dtype" in kw and name.startswith("numpy."):
                d = self.norm_dtype(self.val(kw["dtype"], s))
                if d is not NONE:
                    r = mk("call", ".astype", (self.val(v, s), d), ())
                    self.trace(r)
                    return r
            if isinstance(v, View):
                return v
            return v
        if name == "len":
            return self.length(args[0], s)
        if name == "range":
            a = [self.val(x, s) for x in args]
            lo, hi, st = (num(0), a[0], num(1)) if len(a) == 1 else (
                (a[0], a[1], num(1)) if len(a) == 2 else (a[0], a[1], a[2])
            )
            if is_num(st) and st.args[0] in (1, -1):
                c = st.args[0]
                n = sub(hi, lo) if c == 1 else sub(lo, hi)
                if is_num(n) and n.args[0] <= 12:
                    return TupV([add(lo, mul(st, num(k))) for k in range(max(0, int(n.args[0])))])
                return ("dom", n, lambda k, s2: add(lo, mul(st, k)))
            n = mk("call", "ceil", (div(sub(hi, lo), st),), ())
            return ("dom", n, lambda k, s2: add(lo, mul(st, k)))
        if name == "enumerate":
            st = self.val(args[1], s) if len(args) > 1 else (
                self.val(kw["start"], s) if "start" in kw else num(0)
            )
            d = self.domain(args[0], s)
            if d[0] == "static":
                return TupV([TupV([add(st, num(i)), x]) for i, x in enumerate(d[1])])
            return ("dom", d[1], lambda k, s2: TupV([add(st, k), d[2](k, s2)]))
        if name == "zip":
            ds = [self.domain(a, s) for a in args]
            if all(d[0] == "static" for d in ds):
                return TupV([TupV(list(x)) for x in zip(*[d[1] for d in ds])])
            ds = [
                d if d[0] == "dom" else ("dom", num(len(d[1])), (lambda dd: lambda k, s2: self.index(TupV(dd[1]), (k,), s2))(d))
                for d in ds
            ]
            n = ds[0][1]
            for d in ds[1:]:
                if d[1] is not n:
                    xs = tuple(sorted({n, d[1]} if n.op != "minN" else set(n.args[0]) | {d[1]}, key=lambda t: t.id))
                    n = mk("minN", xs)
            return ("dom", n, lambda k, s2: TupV([d[2](k, s2) for d in ds]))
        if name == "reversed":
            d = self.domain(args[0], s)
            if d[0] == "static":
                return TupV(list(reversed(d[1])))
            return ("dom", d[1], lambda k, s2: d[2](sub(sub(d[1], num(1)), k), s2))
        if name in ("list", "tuple", "sorted") and len(args) == 1 and name != "sorted":
            v = args[0]
            if isinstance(v, TupV):
                if all(isinstance(x, Term) for x in v.items) and name == "list":
                    return self.alloc(s, mk("init", "list", tuple(v.items)))
                return v
            if isinstance(v, Term) and v.op == "alloc":
                return v
            if isinstance(v, tuple):
                nm = "$d%d" % self.fresh()
                s.env[nm] = v
                r = self.comp(
                    ast.ListComp(ast.Name("$x", ast.Load()), [ast.comprehension(ast.Name("$x", ast.Store()), ast.Name(nm, ast.Load()), [], 0)]),
                    ast.Name("$x", ast.Load()), s, "list")
                s.env.pop(nm, None)
                return r
        if name in ("list", "dict", "set", "tuple") and not args and not kw:
            if name == "list":
                return self.alloc(s, mk("init", "list", ()))
            if name == "dict":
                return self.alloc(s, mk("init", "dict", ()))
        if name == "dict" and not args:
            items = tuple(sorted(((mk("c", k), self.term(v, s)) for k, v in kw.items()), key=lambda kv: kv[0].id))
            return self.alloc(s, mk("init", "dict", items))
        if name == "slice":
            a = [self.val(x, s) for x in args]
            if len(a) == 1:
                return mk("slice", num(0), a[0])
            return mk("slice", *a)
        if name == "isinstance":
            return self.isinstance_(args[0], args[1], s)
        if name == "vars" and len(args) == 1:
            return self.attr(args[0], "__dict__", s)
        if name == "getattr" and len(args) >= 2:
            k = self.val(args[1], s)
            if k.op == "c" and isinstance(k.args[0], str) and len(args) == 2:
                return self.attr(args[0], k.args[0], s)
            if k.op == "sel" and all(x.op == "c" and isinstance(x.args[0], str) for x in k.args[1:]) and len(args) == 2:
                return ite(bvar(k.args[0]), *(self.val(self.attr(args[0], x.args[0], s), s) for x in k.args[1:]))
            if k.op == "c" and isinstance(k.args[0], str) and len(args) == 3:
                # the attribute where there is one
                h = T.truth(self.val(self.call_ext("hasattr", args[:2], {}, s), s))
                if h == 1:
                    return self.attr(args[0], k.args[0], s)
                if isinstance(args[0], (Term, View)):
                    v = self.val(self.attr(args[0], k.args[0], s), s)
                    return ite(h, v, self.val(args[2], s))
            if isinstance(args[0], ClsV) or isinstance(args[0], FnV):
                return mk("call", "getattr", tuple(self.val(a, s) for a in args), ())
            b = self.val(args[0], s)
            return mk("call", "getattr", (b,) + tuple(self.val(a, s) for a in args[1:]), ())
        if name == "setattr" and len(args) == 3:
            k = self.val(args[1], s)
            if k.op == "c" and isinstance(k.args[0], str):
                self.set_attr(args[0], k.args[0], args[2], s)
            else:
                root, p = self.loc(args[0], s)
                self.write(s, root, p + (mk("call", "attrname", (k,), ()),), args[2])
            return NONE
        if name == "hasattr" and len(args) == 2:
            k = self.val(args[1], s)
            c = self.cls_of(args[0], s)
            root, p = self.loc(args[0], s)
            if k.op == "c":
                if c is not None and (
                    self.pkg.find_getter(c, k.args[0]) or self.pkg.find_method(c, k.args[0])
                ):
                    return TRUE
                # identified by the object, not by its content
                b = root if not p else mk("ld", base(root), path(*p))
                if b.op == "alloc":
                    b = self.reify(b, s)
                return mkbool(bvar(mk("hasattr", b, k)))
        if name in ("joblib.delayed",):
            return DelayedV(args[0])
        if name in ("joblib.Parallel",):
            k2 = dict(self.parcfg[-1]) if self.parcfg else {}
            k2.update({k: self.val(v, s) for k, v in kw.items()})
            if args:
                k2["n_jobs"] = self.val(args[0], s)
            k2.pop("verbose", None)
            self.io("joblib.Parallel", mk("call", "joblib.Parallel", (), tuple(sorted(k2.items()))), s)
            return ParV()
        if name in ("functools.partial",):
            f0, a0, k0 = args[0], list(args[1:]), dict(kw)
            lam = _Partial(f0, a0, k0)
            return lam
        if name.startswith("numpy.random.") or name == "random.random" or name.startswith("random."):
            a = tuple(self.val(x, s) for x in args)
            k = tuple(sorted((x, self.val(v, s)) for x, v in kw.items()))
            st = self.reify(RNG, s)
            if name in ("numpy.random.seed",):
                t = mk("call", "numpy.random.seed", a, k)
                s.heap[RNG] = mk("val", t)
                return NONE
            if name in ("numpy.random.RandomState", "numpy.random.default_rng"):
                return mk("call", name, a, k)
            t = mk("call", name, (st,) + a, k)
            s.heap[RNG] = mk("val", mk("eff", t, "$rng"))
            self.trace(t)
            return t
        if name in ("int", "float", "bool", "str") and args:
            v = self.val(args[0], s)
            if name == "bool":
                return mkbool(self.truth(args[0], s))
            if name == "int" and is_int(v):
                return v
            if name == "float" and (v.op == "num"):
                return v
            if name == "float" and v.op == "c" and v.args[0] in ("inf", "-inf", "nan"):
                return v
            return mk("call", name, (v,), ())
        if name in ("min", "max") and len(args) >= 2:
            return extremum(name, [self.val(a, s) for a in args])
        if name in ("numpy.any", "numpy.all", "numpy.count_nonzero") and len(args) == 1 and not kw:
            return self.quantified(short, self.val(args[0], s))
        if name in ("min", "max", "sum", "any", "all", "abs") and len(args) == 1:
            return mk("call", name, (self.val(args[0], s),), ())
        if name in SCALAR_FN and set(kw) == {"out"}:
            r = self.call_ext(name, args, {}, s)
            root, p = self.loc(kw["out"], s)
            self.write(s, root, p, r)
            return kw["out"]
        if name in SCALAR_FN:
            short = SCALAR_FN[name]
            a = [self.val(x, s) for x in args]
            if short in ("maximum", "minimum"):
                a = sorted(a, key=lambda t: t.id)
            if short == "square":
                return mul(a[0], a[0])
            if not kw and len(a) == 1:
                return T.lift("fn" + short, lambda x: mk("call", short, (x,), ()), a[0])
            return mk("call", short, tuple(a), tuple(sorted((k, self.val(v, s)) for k, v in kw.items())))
        if name == "numpy.expand_dims" and (len(args) == 2 or "axis" in kw) and (args or "a" in kw):
            ax = self.val(args[1] if len(args) > 1 else kw["axis"], s)
            a = args[0] if args else kw["a"]
            if is_num(ax) and 0 <= ax.args[0] <= 3:
                return self.index(a, [mk("slice", num(0), NONE)] * int(ax.args[0]) + [NONE], s)
        if name == "numpy.flatnonzero" and len(args) == 1 and not kw:
            v = self.val(args[0], s)
            if T.isbool(v):
                return mk("call", "numpy.flatnonzero", (mkbool(T.truth(v)),), ())
        if name == "numpy.logical_not":
            return self.invert(self.val(args[0], s))
        if name in ("numpy.logical_and", "numpy.logical_or"):
            f = b_and if name.endswith("and") else b_or
            return mkbool(f(self.truth(args[0], s), self.truth(args[1], s)))
        if name in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.true_divide") and (
            len(args) >= 2 and set(kw) <= {"out"}
        ):
            op = {"add": ast.Add(), "subtract": ast.Sub(), "multiply": ast.Mult(), "divide": ast.Div(), "true_divide": ast.Div()}[short]
            v = self.binop(op, args[0], args[1], s)
            out = kw.get("out", args[2] if len(args) > 2 else None)
            if out is not None:
                root, p = self.loc(out, s)
                self.write(s, root, p, v)
                return out
            return v
        if name in ("numpy.copyto",) and len(args) == 2:
            root, p = self.loc(args[0], s)
            self.write(s, root, p, self.val(args[1], s))
            return NONE
        if name == "numpy.array" and len(args) == 1 and set(kw) <= {"copy"} and isinstance(args[0], (Term, View)) and not (
            isinstance(args[0], Term) and args[0].op == "alloc"
        ):
            c = self.val(kw["copy"], s) if "copy" in kw else TRUE
            if c is not TRUE:
                return args[0]
            if self.val(args[0], s).op not in ("comp", "call", "each"):
                return self.alloc(s, mk("val", self.val(args[0], s)))
        if name in ("copy.copy", "copy.deepcopy", "numpy.copy"):
            t = self.val(args[0], s)
            return self.alloc(s, mk("val", t))
        if name == "numpy.clip" and args and not isinstance(args[0], TupV):
            r = self.clip(args[0], args[1:], kw, s)
            if r is not None:
                return r
        if name.startswith("numpy.") and short in ARRAY_FN_AS_METHOD and name.count(".") == 1 and args:
            return self.call_meth(args[0], short, args[1:], kw, s)
        # generic
        sig = EXTSIGS.get(name, ((), {}))
        pos = NP_POS.get(name) or sig[0]
        k2 = {k: self.val(v, s) for k, v in kw.items()}
        a2 = [self.val(a, s) for a in args]
        if pos:
            rest = []
            for i, a in enumerate(a2):
                if i < len(pos):
                    k2[pos[i]] = a
                else:
                    rest.append(a)
            a2 = rest
        k2 = {k: v for k, v in k2.items() if not (k in sig[1] and v is constant(sig[1][k]))}
        if "shape" in k2 and k2["shape"].op == "tup" and len(k2["shape"].args) == 1:
            k2["shape"] = k2["shape"].args[0]
        if "dtype" in k2:
            k2["dtype"] = self.norm_dtype(k2["dtype"])
        if name in ("numpy.zeros", "numpy.empty", "numpy.ones") and k2.get("dtype") in (
            mk("fn", "float64"), mk("fn", "float"), mk("fn", "double")
        ):
            del k2["dtype"]
        if name == "os.path.join" and a2 and not k2 and a2[0].op == "call" and a2[0].args[0] == name and not a2[0].args[2]:
            a2 = list(a2[0].args[1]) + a2[1:]
        if name == "numpy.arange":
            d = k2.pop("dtype", None)
            lo, hi = (num(0), a2[0]) if len(a2) == 1 else (a2[0], a2[1] if len(a2) > 1 else NONE)
            k2 = {"lo": lo, "hi": hi}
            if d is not None:
                k2["dtype"] = d
            a2 = a2[2:]
        out = kw.get("out")
        if name in ("numpy.zeros_like", "numpy.empty_like", "numpy.ones_like") and "a" in k2 and not a2:
            o = self.loc(args[0] if args else kw["a"], s)
            o = s.heap.get(o[0]) if not o[1] else None
            while o is not None and o.op in ("st", "app") and isinstance(o.args[0], Term):
                o = o.args[0]
            if o is not None and o.op == "init" and o.args[0] in ("numpy.zeros", "numpy.empty", "numpy.ones"):
                k3 = dict(o.args[1])
                if set(k3) <= {"shape", "dtype"}:
                    if "dtype" in k2:
                        k3["dtype"] = k2["dtype"]
                    return self.alloc(s, mk("init", name[:-5], tuple(sorted(k3.items()))))
        if name in ALLOC:
            if name == "numpy.full" and "fill_value" in k2:
                c = mk("init", "numpy.full", tuple(sorted(k2.items())))
                return self.alloc(s, c)
            return self.alloc(s, mk("init", name, tuple(sorted(k2.items())) if not a2 else tuple(sorted(k2.items())) + (("*", mk("tup", *a2)),)))
        if out is not None:
            k2.pop("out", None)
        t = mk("call", name, tuple(a2), tuple(sorted(k2.items())))
        self.trace(t)
        if out is not None:
            root, p = self.loc(out, s)
            self.write(s, root, p, t)
            self.into = t
        return t

    def norm_dtype(self, t):
        if t.op == "c" and isinstance(t.args[0], str):
            return mk("fn", t.args[0])
        if t.op == "fn" and t.args[0] in ("bool", "bool_", "boolean"):
            return mk("fn", "bool_")
        return t

    def clip(self, a, rest, kw, s):
        """np.clip(a, lo, hi) as minimum(maximum(a, lo), hi)"""
        b = dict(zip(("a_min", "a_max", "out"), rest))
        b.update({{"min": "a_min", "max": "a_max"}.get(k, k): v for k, v in kw.items()})
        if set(b) - {"a_min", "a_max", "out"}:
            return None
        t = self.val(a, s)
        for k, f in (("a_min", "maximum"), ("a_max", "minimum")):
            v = self.val(b[k], s) if k in b else NONE
            if v is not NONE:
                t = mk("call", f, tuple(sorted((t, v), key=lambda x: x.id)), ())
        if "out" in b:
            root, p = self.loc(b["out"], s)
            self.write(s, root, p, t)
            return b["out"]
        return t

    def quantified(self, name, t):
        """any, all and number of true elements of an array of booleans, in terms of the number"""
        if not T.isbool(t):
            return mk("call", "numpy.count_nonzero" if name == "count_nonzero" else "." + name, (t,), ())
        t = mkbool(T.truth(t))
        if name == "all":
            t = self.invert(t)
        n = mk("call", ".sum", (t,), ())
        if name in ("sum", "count_nonzero"):
            return n
        f = eq(n, num(0))
        return mkbool(f if name == "all" else bnot(f))

    def isinstance_(self, v, c, s):
        if isinstance(c, TupV):
            r = 0
            for x in c.items:
                r = b_or(r, T.truth(self.isinstance_(v, x, s)))
            return mkbool(r)
        k = self.cls_of(v, s)
        if k is not None and isinstance(c, ClsV):
            if c.cls in self.pkg.mro(k):
                return TRUE
            if k not in self.pkg.mro(c.cls):
                return FALSE
        t = self.val(v, s)
        if t.op == "bool" and t.args[0] <= 1 or t.op in ("num",):
            pass
        return mkbool(bvar(mk("isinstance", t, self.term(c, s))))

    def positional(self, name, args, kw):
        """the arguments of a method, by position where its parameters are known: those of NumPy,
        pandas and scikit-learn from a table, those of the repository's classes from their
        definitions when every class that can take the call agrees"""
        if not kw or "**" in kw:
            return args, kw
        sigs = []
        if name in METHSIG:
            sigs.append((METHSIG[name], ()))
        else:
            for m in self.pkg.modules.values():
                for c in m.classes.values():
                    f = c.methods.get(name)
                    if f is None or f.vararg or f.kwarg or f.static or f.classm:
                        continue
                    pos = tuple(f.pos[1:])
                    given = set(pos[: len(args)]) | set(kw)
                    if len(args) <= len(pos) and given <= set(pos) and all(p in given or p in f.defaults for p in pos):
                        sigs.append((pos, f.defaults))
        outs = set()
        for pos, defaults in sigs:
            n = len(args)
            while n < len(pos) and pos[n] in kw:
                n += 1
            outs.add(pos[:n])
        if len(outs) != 1:
            return args, kw
        pos = outs.pop()
        return (
            list(args) + [kw[p] for p in pos[len(args):]],
            {k: v for k, v in kw.items() if k not in pos[len(args):]},
        )

    def call_meth(self, recv, name, args, kw, s):
        args, kw = self.positional(name, args, kw)
        if isinstance(recv, TupV) or isinstance(recv, tuple):
            if isinstance(recv, tuple):
                return mk("call", "dom." + name, (), ())
            if name in ("index", "count"):
                return mk("call", "." + name, (self.term(recv, s),) + tuple(self.val(a, s) for a in args), ())
        root, p = self.loc(recv, s)
        if name == "copy" and not args:
            t = self.val(recv, s)
            return self.alloc(s, mk("val", t) if t.op != "ld" or t.args[1] is not PATH0 else t.args[0])
        if name == "append" and len(args) == 1:
            v = args[0]
            v = self.reify(self.term(v, s), s)
            c = self.chain(s, root)
            if p:
                s.heap[root] = store(c, p + (".append",), v)
                return NONE
            if c.op == "init" and c.args[0] == "list" and self.in_static(s):
                s.heap[root] = mk("init", "list", c.args[1] + (v,))
            else:
                s.heap[root] = mk("app", c, TRUE, v)
            return NONE
        if name == "fill" and len(args) == 1:
            self.write(s, root, p, self.val(args[0], s))
            return NONE
        if name == "items" and not args:
            t = self.val(recv, s)
            if isinstance(recv, Term) and recv.op == "alloc":
                f = self.freeze(recv, s)
                if isinstance(f, Term) and f.op == "dict":
                    t = f
            return mk("items", t)
        if name in ("keys", "values") and not args:
            t = self.val(recv, s)
            f = self.freeze(recv, s) if isinstance(recv, Term) and recv.op == "alloc" else recv
            if isinstance(f, Term) and f.op == "dict":
                return TupV([k if name == "keys" else v for k, v in f.args[0]])
            return mk("call", "." + name, (t,), ())
        if name == "get" and 1 <= len(args) <= 2 and not kw:
            f = self.freeze(recv, s) if isinstance(recv, Term) and recv.op == "alloc" else recv
            k = self.val(args[0], s)
            if isinstance(f, Term) and f.op == "dict":
                r = self.term(args[1], s) if len(args) > 1 else NONE
                for kk, v in f.args[0]:
                    r = ite(eq(k, kk), v, r)
                return r
        if name == "format":
            return mk("fstr", self.val(recv, s), *[self.val(a, s) for a in args])
        if name == "take" and len(args) == 1 and set(kw) == {"axis"} and kw["axis"] is num(0) and isinstance(recv, (Term, View)):
            return self.index(recv, (self.val(args[0], s),), s)
        if name == "clip":
            r = self.clip(recv, args, kw, s)
            if r is not None:
                return r
        if name == "astype" and args:
            t = self.val(recv, s)
            d = self.norm_dtype(self.val(args[0], s))
            r = mk("call", ".astype", (t, d), ())
            self.trace(r)
            return r
        a2 = tuple(self.val(a, s) for a in args)
        if name == "reshape" and not kw:
            sh = a2[0].args if len(a2) == 1 and a2[0].op == "tup" else a2
            if len(sh) == 2 and sh[0] is num(-1) and sh[1] is num(1):
                # a vector as a column
                return self.index(recv, [mk("slice", num(0), NONE), NONE], s)
        out = kw.get("out")
        k2 = {k: self.val(v, s) for k, v in kw.items() if k != "out"}
        if "dtype" in k2:
            k2["dtype"] = self.norm_dtype(k2["dtype"])
        if name in ("sum", "max", "min", "any", "all", "argmax", "argmin", "argsort", "mean", "cumsum") and a2:
            k2["axis"] = a2[0]
            a2 = a2[1:]
        k2 = tuple(sorted(k2.items()))
        rv = self.val(recv, s)
        if name in ("any", "all", "sum") and not a2 and not k2 and out is None and T.isbool(rv):
            return self.quantified(name, rv)
        if name in ("issubset", "issuperset", "isdisjoint") and len(a2) == 1 and not k2 and is_set(rv):
            if name == "isdisjoint":
                return mkbool(eq(mk("len", mk("call", ".intersection", (rv, a2[0]), ())), num(0)))
            return mkbool(T.subset(rv, a2[0]) if name == "issubset" else T.subset(a2[0], rv))
        t = mk("call", "." + name, (rv,) + a2, k2)
        self.trace(t)
        self.last_recv = (t, (root, p))
        if out is not None:
            r2, p2 = self.loc(out, s)
            self.write(s, r2, p2, t)
            self.into = t
        if name in RNG_METH and self.rng_like(rv, name):
            self.write(s, root, p, mk("eff", t, "rng"))
            return t
        if name in MUT_METH:
            if name == "fit" and not self.fit_mutates(rv):
                return t
            self.write(s, root, p, mk("eff", t, "self"))
            if name == "fit" and isinstance(recv, (Term, View)):
                # estimators return themselves
                return recv
            return t
        # methods of repository classes on receivers of unknown class
        cands = [
            c.methods[name]
            for m in self.pkg.modules.values()
            for c in m.classes.values()
            if name in c.methods
        ]
        if cands and any(self.mutates_self(f) for f in cands):
            self.write(s, root, p, mk("eff", t, "self"))
        return t

    def in_static(self, s):
        return True

    def rng_like(self, rv, name):
        if name in ("random", "uniform", "normal", "choice", "randint", "permutation", "shuffle", "rand", "randn", "random_sample", "integers", "standard_normal"):
            return True
        return False

    def fit_mutates(self, rv):
        return True

    _ms = {}

    def mutates_self(self, f):
        r = self._ms.get(f)
        if r is None:
            sp = f.pos[0] if f.pos else None
            r = False
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        while isinstance(t, (ast.Subscript, ast.Attribute)):
                            if isinstance(t.value, ast.Name) and t.value.id == sp:
                                r = True
                            t = t.value
            self._ms[f] = r
        return r

    # ------------------------------------------------------------ summaries
    def summary(self, func, cls=None, pmap=None, bind=None):
        """slots of a function: result, raises, final contents of what it received"""
        pm = pmap or self.pmap.get(func, {})
        env, heap = {}, {}
        for k, p in enumerate(func.params):
            c = pm.get(p, p)
            if bind and p in bind:
                env[p] = bind[p]
                continue
            v = mk("sym", c)
            env[p] = v
            if k == 0 and func.cls is not None and not func.static:
                self.types[v] = cls or func.cls
        if func.vararg:
            env[func.vararg] = mk("sym", "*args")
        if func.kwarg:
            env[func.kwarg] = mk("sym", "**kw")
        ctx = Ctx(func, func.mod, func.params)
        self.ctx = ctx
        self.stack = [ctx]
        self.parcfg = []
        s = S(env, heap, 1)
        r = self.block(func.node.body, s)
        self.stack = []
        outs = [(st.pc, st, v) for k, st, v, e in ctx.abrupt if k == "return" and st.pc != 0]
        if r is not None and r.pc != 0:
            outs.append((r.pc, r, NONE))
        slots = {}
        raises = {}
        for k, st, v, e in ctx.abrupt:
            if k == "raise":
                raises[e] = b_or(raises.get(e, 0), st.pc)
        for e, pc in raises.items():
            if pc != 0:
                slots["raise:" + e] = mk("bool", pc)
        RAISED = mk("raised")
        if outs:
            ret = RAISED
            roots = set()
            for pc, st, v in outs:
                roots |= {x for x in st.heap if self.modified(st, x) and x.op != "alloc"}
            for pc, st, v in outs:
                t = self.reify(self.term(v, st), st)
                ret = ite(pc, simp(t, pc), ret) if pc != 1 else t
            slots["ret"] = ret
            for root in roots:
                parts = []
                for pc, st, v in outs:
                    c = self.reify_chain(st, self.chain(st, root))
                    parts.append((pc, c))
                c = parts[-1][1]
                for pc, c2 in reversed(parts[:-1]):
                    c = merge_chain(pc, c2, c)
                if c.op == "base" and c.args[0] is root:
                    continue
                slots[("heap", root)] = c
        return slots


def simp(t, pc):
    if t.op == "sel":
        v = bvar(t.args[0])
        hi, lo = b_and(pc, v), b_and(pc, bnot(v))
        if lo == 0:
            return simp(t.args[1], pc)
        if hi == 0:
            return simp(t.args[2], pc)
        return ite(v, simp(t.args[1], hi), simp(t.args[2], lo))
    if t.op == "bool" and t.args[0] > 1:
        f = t.args[0]
        if b_and(pc, f) == 0:
            return FALSE
        if b_and(pc, bnot(f)) == 0:
            return TRUE
    return t
