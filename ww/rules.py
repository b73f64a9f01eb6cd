"""Rules read directly off the repository source (no reference needed).

Each rule returns (findings, instances): the constructs it objects to and the constructs
it looked at.
"""
import ast
import builtins
import symtable

from . import ir
from .checker import Finding

CORE = ("forest", "tree", "plot", "_grow", "_impurity", "_node", "_split", "_tree",
        "_tree_context", "_utils", "preprocessing")


def core(m):
    n = m.name.split(".")
    return len(n) > 1 and n[1] in CORE


def dotted(mod, e, pkg):
    """absolute dotted name of a name or attribute expression, if it denotes one"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    head = mod.imports.get(e.id)
    if head is None:
        if e.id in mod.funcs or e.id in mod.classes:
            return ".".join([mod.name, e.id] + parts[::-1])
        return ".".join([e.id] + parts[::-1])
    return ".".join([head] + parts[::-1])


def local_imports(f):
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            f.mod.add_import(n, out)
    return out


def where(f, n):
    return "%s:%d %s" % (f.mod.rel, n.lineno, f.qual.split(".", 1)[-1])


# ------------------------------------------------------------------ randomness
SOURCES = {
    "time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "os.getpid",
    "os.urandom", "threading.get_ident", "uuid.uuid4", "uuid.uuid1", "id", "hash",
    "datetime.datetime.now", "secrets.randbits", "secrets.token_bytes",
}
SEEDED = {  # constructors: index of the positional seed
    "numpy.random.default_rng": ("seed", 0), "numpy.random.RandomState": ("seed", 0),
    "sklearn.utils.check_random_state": ("seed", 0), "random.Random": ("x", 0),
    "numpy.random.SeedSequence": ("entropy", 0), "numpy.random.PCG64": ("seed", 0),
    "numpy.random.MT19937": ("seed", 0), "numpy.random.Philox": ("seed", 0),
}
SEED_KW = {
    "sklearn.model_selection.train_test_split", "sklearn.utils.resample",
    "sklearn.utils.shuffle", "sklearn.utils.random.sample_without_replacement",
}
SEED_METH = {"sample": "random_state"}
PY_RANDOM = {"random", "randint", "choice", "shuffle", "sample", "uniform", "seed", "randrange",
             "gauss", "choices", "getrandbits"}


def is_none(e):
    return isinstance(e, ast.Constant) and e.value is None


def rng(ck):
    pkg = ck.s.repo
    out, n = [], 0
    for f in pkg.all_funcs():
        if not core(f.mod):
            continue
        loc = local_imports(f)
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call):
                continue
            d = dotted(f.mod, c.func, pkg)
            if d is None:
                if isinstance(c.func, ast.Attribute) and c.func.attr in SEED_METH:
                    d = "." + c.func.attr
                else:
                    continue
            h = d.split(".")[0]
            if h in loc:
                d = ".".join([loc[h]] + d.split(".")[1:])
            kw = {k.arg: k.value for k in c.keywords}
            n += 1
            name = f.qual.split(".", 1)[-1]
            if d in SEEDED:
                k, i = SEEDED[d]
                v = kw.get(k, c.args[i] if len(c.args) > i else None)
                if (v is None and "**" not in kw and None not in kw) or (v is not None and is_none(v)):
                    out.append(Finding("V", name, "seed of " + d, "generator created without a seed", where(f, c)))
            elif d in SEED_KW:
                v = kw.get("random_state")
                if v is None or is_none(v):
                    out.append(Finding("V", name, "seed of " + d, "random draw without random_state", where(f, c)))
            elif d in SOURCES or (h == "random" and f.mod.imports.get("random", loc.get("random")) == "random" and d.split(".")[-1] in PY_RANDOM):
                out.append(Finding("V", name, "call of " + d, "value that differs between runs", where(f, c)))
    return out, n


# --------------------------------------------------------------- module state
MUT = {"append", "extend", "insert", "pop", "popitem", "update", "setdefault", "add", "remove",
       "clear", "discard", "fill", "sort", "reverse", "resize", "put", "__setitem__"}


def module_names(m):
    out = set()
    for st in m.tree.body:
        if isinstance(st, ast.Assign):
            for t in st.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            out.add(st.target.id)
    return out


def root_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def globals_(ck):
    pkg = ck.s.repo
    out, n = [], 0
    for f in pkg.all_funcs():
        if not core(f.mod):
            continue
        n += 1
        glob = module_names(f.mod)
        imported = {
            k for k, v in f.mod.imports.items()
            if v.startswith("wildwood.") and isinstance(pkg.resolve(v), tuple) or False
        }
        declared = set()
        local = set(f.params) | set(f.assigned)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Global):
                declared |= set(x.names)
        state = (glob - (local - declared)) | declared
        name = f.qual.split(".", 1)[-1]
        cls = f.cls.name if f.cls is not None else None

        def bad(nm, x, what):
            out.append(Finding("V", name, "module state " + nm, what, where(f, x)))

        for x in ast.walk(f.node):
            tg = []
            if isinstance(x, ast.Assign):
                tg = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                tg = [x.target]
            elif isinstance(x, ast.Delete):
                tg = x.targets
            elif isinstance(x, (ast.For,)):
                tg = [x.target]
            for t in tg:
                for y in ast.walk(t):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id in declared:
                        bad(y.id, x, "assigned: shared by all trees and fits of the process")
                    if isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.ctx, ast.Store):
                        r = root_name(y)
                        if r in state:
                            bad(r, x, "written: shared by all trees and fits of the process")
                        elif (r is not None and r == cls) or (isinstance(y, ast.Attribute) and is_class_expr(y.value)):
                            if r not in local or is_class_expr(y.value):
                                bad("class " + str(cls), x, "class attribute written: shared by all objects")
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
                r = root_name(x.func.value)
                if r in state and r is not None:
                    bad(r, x, "modified by .%s(): shared by all trees and fits of the process" % x.func.attr)
        # a default value that is modified is module state too
        for p, d in f.defaults.items():
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
                for x in ast.walk(f.node):
                    hit = False
                    if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                        hit = root_name(x) == p
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
                        hit = root_name(x.func.value) == p
                    if hit:
                        bad("default of " + p, x, "a mutable default value is modified")
    return out, n


def is_class_expr(e):
    """type(self), self.__class__"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type":
        return True
    return isinstance(e, ast.Attribute) and e.attr == "__class__"


# ------------------------------------------------------------------- locking
def delayed_calls(f):
    """(callee expression, call node) of every delayed(g)(...) in f"""
    for n in ast.walk(f.node):
        if (
            isinstance(n, ast.Call) and isinstance(n.func, ast.Call)
            and (getattr(n.func.func, "id", None) or getattr(n.func.func, "attr", None)) == "delayed"
            and n.func.args
        ):
            yield n.func.args[0], n


def loop_vars(f, call):
    out = set()
    for n in ast.walk(f.node):
        gens = []
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            if any(x is call for x in ast.walk(n)):
                gens = n.generators
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    out.add(x.id)
        if isinstance(n, ast.For) and any(x is call for b in n.body for x in ast.walk(b)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    out.add(x.id)
    return out


def bind_call(g, call):
    out = {}
    for p, a in zip(g.pos, call.args):
        if isinstance(a, ast.Starred):
            break
        out[p] = a
    for k in call.keywords:
        if k.arg:
            out[k.arg] = k.value
    return out


def lock(ck):
    """shared arrays written by workers only while the shared lock is held"""
    pkg = ck.s.repo
    out, n = [], 0
    for f in pkg.all_funcs():
        if not core(f.mod):
            continue
        for fe, call in delayed_calls(f):
            g = pkg.resolve(dotted(f.mod, fe, pkg)) if dotted(f.mod, fe, pkg) else None
            if not isinstance(g, ir.Func):
                continue
            lv = loop_vars(f, call)
            b = bind_call(g, call)
            shared = {
                p for p, a in b.items()
                if not any(isinstance(x, ast.Name) and x.id in lv for x in ast.walk(a))
            }
            n += 1
            locks = {p for p in shared if isinstance(b[p], ast.Name)}
            check_locked(pkg, g, shared, locks, out, set())
    return out, n


def check_locked(pkg, g, shared, locks, out, seen, held=False):
    if (g.qual, tuple(sorted(shared)), held) in seen:
        return
    seen.add((g.qual, tuple(sorted(shared)), held))
    alias = set(shared)
    owned = set()

    def mentions(e):
        """may the value of e share memory with a shared object?"""
        if isinstance(e, ast.Name):
            return e.id in alias
        if isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
            return mentions(e.value)
        if isinstance(e, ast.IfExp):
            return mentions(e.body) or mentions(e.orelse)
        if isinstance(e, ast.Tuple):
            return any(mentions(x) for x in e.elts)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in (
            "view", "reshape", "ravel", "swapaxes", "transpose"
        ):
            return mentions(e.func.value)
        return False

    def is_lock(e):
        if isinstance(e, ast.Call):  # lock.acquire-like wrappers
            return any(is_lock(a) for a in e.args)
        return isinstance(e, ast.Name) and e.id in locks

    name = g.qual.split(".", 1)[-1]
    stale = {}  # local -> section (0: none) its value was computed in from the contents of a shared object
    sections = [0]

    def contents(e):
        """does the value of e depend on the contents of a shared object?"""
        if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp)):
            return any(mentions(x) or contents(x) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr))
        if isinstance(e, ast.Call):
            d = dotted(g.mod, e.func, pkg)
            if (d or "").rsplit(".", 1)[-1] in ("len", "shape", "ndim", "size", "isinstance", "id", "hasattr"):
                return False
            if isinstance(pkg.resolve(d) if d else None, ir.Func):
                return False
            xs = list(e.args) + [k.value for k in e.keywords]
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in ("view", "reshape", "ravel", "swapaxes", "transpose", "acquire", "release"):
                    return False
                xs.append(e.func.value)
            return any((mentions(x) and not is_lock(x)) or contents(x) for x in xs)
        return False

    def note(names, e, held):
        for nm in names:
            stale.pop(nm, None)
        sec = [stale[x.id] for x in ast.walk(e) if isinstance(x, ast.Name) and x.id in stale]
        if contents(e):
            sec.append(held)
        if sec:
            for nm in names:
                stale[nm] = 0 if 0 in sec else max(sec)

    def lost(x, e, held):
        """a shared object gets, in a locked section, a value computed from it outside that section"""
        for y in ast.walk(e):
            if isinstance(y, ast.Name) and y.id in stale and stale[y.id] != held:
                out.append(Finding(
                    "V", name, "lock",
                    "an object shared by the workers is written from what was read of it outside the locked section",
                    where(g, x)))
                return

    def bad(x, held):
        if not held:
            out.append(Finding(
                "V", name, "lock", "an object shared by the workers is written without holding the lock", where(g, x)))

    def expr(e, held):
        for c in ast.walk(e):
            if not isinstance(c, ast.Call):
                continue
            if isinstance(c.func, ast.Attribute) and c.func.attr in MUT and mentions(c.func.value):
                bad(c, held)
            for k in c.keywords:
                if k.arg == "out" and mentions(k.value):
                    bad(c, held)
            d = dotted(g.mod, c.func, pkg)
            h = pkg.resolve(d) if d else None
            if d in ("numpy.add.at", "numpy.copyto", "numpy.put", "numpy.subtract.at") and c.args and mentions(c.args[0]):
                bad(c, held)
            if isinstance(h, ir.Func):
                b = bind_call(h, c)
                sh = {p for p, a in b.items() if mentions(a)}
                lk = {p for p, a in b.items() if is_lock(a)}
                if sh - lk:
                    check_locked(pkg, h, sh, lk, out, seen, held)

    def block(sts, held):
        manual = held
        for st in sts:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
                if st.value.func.attr == "acquire" and is_lock(st.value.func.value):
                    sections[0] += 1
                    manual = manual or sections[0]
                    continue
                if st.value.func.attr == "release" and is_lock(st.value.func.value):
                    manual = held
                    continue
            stmt(st, manual)
            if isinstance(st, ast.Try):
                for x in st.finalbody:
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(
                        x.value.func, ast.Attribute
                    ) and x.value.func.attr == "release":
                        manual = held

    def stmt(st, held):
        if isinstance(st, ast.With):
            h = held
            if not h and any(is_lock(i.context_expr) for i in st.items):
                sections[0] += 1
                h = sections[0]
            block(st.body, h)
            return
        if isinstance(st, (ast.If, ast.While)):
            expr(st.test, held)
            block(st.body, held)
            block(st.orelse, held)
            return
        if isinstance(st, ast.For):
            expr(st.iter, held)
            if mentions(st.iter):
                for x in ast.walk(st.target):
                    if isinstance(x, ast.Name):
                        alias.add(x.id)
            block(st.body, held)
            block(st.orelse, held)
            return
        if isinstance(st, ast.Try):
            block(st.body, held)
            for h in st.handlers:
                block(h.body, held)
            block(st.orelse, held)
            block(st.finalbody, held)
            return
        if isinstance(st, ast.Assign):
            expr(st.value, held)
            for t in st.targets:
                ts = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                for u in ts:
                    if isinstance(u, (ast.Subscript, ast.Attribute)):
                        if mentions(u.value):
                            bad(st, held)
                            lost(st, st.value, held)
                    elif isinstance(u, ast.Name):
                        note([u.id], st.value, held)
                        if mentions(st.value):
                            alias.add(u.id)
                        else:
                            alias.discard(u.id)
            return
        if isinstance(st, ast.AugAssign):
            expr(st.value, held)
            t = st.target
            if isinstance(t, ast.Name):
                if t.id in alias and t.id in shared and not scalar(t.id):
                    bad(st, held)
                elif t.id in alias:
                    bad(st, held)
            elif mentions(t.value):
                bad(st, held)
            return
        for x in ast.iter_child_nodes(st):
            if isinstance(x, ast.expr):
                expr(x, held)

    def scalar(nm):
        return False

    block(g.node.body, held)
    acq = [
        c for c in ast.walk(g.node)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and is_lock(c.func.value)
        and c.func.attr in ("acquire", "release")
    ]
    if {c.func.attr for c in acq} == {"acquire"}:
        out.append(Finding("V", name, "lock", "the lock is acquired and never released", where(g, acq[0])))


# ------------------------------------------------------------ writes to inputs
def writes(ck, patterns, roots, what, slot):
    """functions matched by patterns must not write objects reachable from the given
    parameters, unless the reference does (its own work arrays)"""
    out, n = [], 0
    for a in ck.anchors(patterns):
        p, rc = ck.counterpart(a)
        if p is None:
            continue
        try:
            ref = ck.slots(0, a, p, rc)
            got = ck.slots(1, a, p, rc)
        except Exception:
            continue
        n += 1
        known = {k[1] for k in ref if isinstance(k, tuple)}
        for k in got:
            if not isinstance(k, tuple) or k[1] in known:
                continue
            r = base_param(k[1])
            if r in roots:
                out.append(Finding("V", a.name, slot + " " + r, what % r, p.repo.where()))
    return out, n


def base_param(t):
    while t.op in ("ld", "base"):
        t = t.args[0]
    return t.args[0] if t.op == "sym" else None


def caller_data(ck):
    pats = [
        "forest:ForestBase.fit", "forest:ForestClassifier.predict", "forest:ForestClassifier.predict_proba",
        "forest:ForestClassifier.predict_proba_trees", "forest:ForestRegressor.predict",
        "forest:ForestRegressor.predict_trees", "forest:ForestBase.apply", "forest:ForestBase.path_leaf",
        "forest:_parallel_build_trees", "forest:_generate_train_valid_samples",
        "forest:ForestClassifier._encode_y", "forest:ForestClassifier._validate_y_class_weight",
        "preprocessing.encoder:Encoder.fit", "preprocessing.encoder:Encoder.transform",
        "preprocessing._checks:*", "preprocessing._binning:*",
        "tree:TreeClassifier.fit", "tree:TreeRegressor.fit",
        "tree:TreeClassifier.predict_proba", "tree:TreeRegressor.predict", "tree:TreeBase.apply",
    ]
    return writes(ck, pats, {
        "X", "y", "sample_weight", "sample_weights", "features_bitarray", "categorical_features",
        "is_categorical", "col", "features",
    }, "the caller's %s is written", "contents of")


def predict_pure(ck):
    pats = [
        "forest:ForestClassifier.predict", "forest:ForestClassifier.predict_proba",
        "forest:ForestClassifier.predict_proba_trees", "forest:ForestRegressor.predict",
        "forest:ForestRegressor.predict_trees", "forest:ForestBase.apply", "forest:ForestBase.path_leaf",
        "forest:ForestRegressor._weighted_depth", "forest:ForestBase._predict_helper",
        "forest:ForestBase.get_nodes", "tree:TreeClassifier.predict_proba", "tree:TreeRegressor.predict",
        "tree:TreeBase.apply", "tree:TreeRegressor.weighted_depth", "tree:TreeClassifier.path_leaf",
        "tree:TreeRegressor.path_leaf", "tree:TreeClassifier.get_nodes", "tree:TreeRegressor.get_nodes",
        "preprocessing.encoder:Encoder.transform", "_tree:find_leaf", "_tree:tree_apply",
        "_tree:tree_classifier_predict_proba", "_tree:tree_regressor_predict",
    ]
    return writes(ck, pats, {"self", "tree"}, "prediction writes into the fitted %s", "contents of")


def transform_pure(ck):
    return writes(ck, ["preprocessing.encoder:Encoder.transform"], {"self"},
                  "transform changes the fitted encoder (%s)", "contents of")


# ------------------------------------------------------------- names and calls
SK_ATTRS = {
    "get_params", "set_params", "_check_n_features", "_validate_data", "_get_tags", "score",
    "_more_tags", "__dict__", "__class__", "_get_param_names", "_check_feature_names",
    "feature_names_in_", "_estimator_type", "fit_transform", "set_output", "_repr_html_",
    "__name__", "__getstate__", "__setstate__", "__module__", "__doc__", "_sklearn_auto_wrap_output_keys",
    "__sklearn_tags__", "_check_is_fitted", "n_features_in_",
}


def class_attrs(pkg, c):
    out = set(SK_ATTRS)
    for k in pkg.mro(c):
        out |= set(k.methods) | set(k.getters) | set(k.setters) | set(k.attrs)
        for f in list(k.methods.values()) + list(k.setters.values()) + list(k.getters.values()):
            sp = f.pos[0] if f.pos else None
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(
                    x.value, ast.Name
                ) and x.value.id == sp:
                    out.add(x.attr)
                if isinstance(x, ast.Call) and getattr(x.func, "id", "") == "setattr":
                    out.add("*")
        if k.jit_spec is not None:
            out.add("*")
    return out


def subclass_attrs(pkg, c):
    out = class_attrs(pkg, c)
    for d in pkg.subclasses(c):
        out |= class_attrs(pkg, d)
    return out


def names(ck):
    """every name resolves; every attribute of self exists"""
    pkg = ck.s.repo
    out, n = [], 0
    known = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__"}
    for m in pkg.modules.values():
        if not core(m):
            continue
        top = set(m.funcs) | set(m.classes) | set(m.imports) | module_names(m) | known
        star = False
        for st in ast.walk(m.tree):
            if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names):
                star = True
        try:
            for st in m.tree.body:
                for x in ast.walk(st) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else ():
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        top.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        top.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        d = {}
                        m.add_import(x, d)
                        top |= set(d)
            tab = symtable.symtable(ast.unparse(m.tree), m.rel, "exec")
        except Exception:
            continue
        if star:
            continue

        def visit(t, path):
            nonlocal n
            for s in t.get_symbols():
                if s.is_global() and s.is_referenced() and t.get_type() == "function":
                    n += 1
                    if s.get_name() not in top:
                        out.append(Finding("V", path, "name " + s.get_name(), "is defined nowhere", m.rel + " " + path))
            for c in t.get_children():
                visit(c, (path + "." if path else "") + c.get_name())

        visit(tab, m.name.split(".", 1)[-1])
    for m in pkg.modules.values():
        if not core(m):
            continue
        for c in m.classes.values():
            if c.jit_spec is not None:
                continue
            if any(d for k in pkg.mro(c) for d in (x for x in k.node.body if isinstance(x, ast.FunctionDef) and x.name in ("__getattr__", "__getattribute__"))):
                continue
            ok = subclass_attrs(pkg, c)
            if "*" in ok:
                continue
            for f in list(c.methods.values()) + list(c.getters.values()) + list(c.setters.values()):
                if f.static or f.classm or not f.pos:
                    continue
                sp = f.pos[0]
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(
                        x.value, ast.Name
                    ) and x.value.id == sp:
                        n += 1
                        if x.attr not in ok and not (x.attr.startswith("__") and x.attr.endswith("__")):
                            out.append(Finding("V", f.qual.split(".", 1)[-1], "attribute " + x.attr,
                                               "exists on no object of the class", where(f, x)))
    return out, n


def calls(ck):
    """every resolved internal call matches the signature of its target"""
    pkg = ck.s.repo
    out, n = [], 0
    for f in pkg.all_funcs():
        if not core(f.mod):
            continue
        shadow = set(f.params) | set(f.assigned)
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call):
                continue
            fn, skip = None, 0
            e = c.func
            if isinstance(e, ast.Call) and (getattr(e.func, "id", None) or getattr(e.func, "attr", None)) == "delayed" and e.args:
                e = e.args[0]
            if isinstance(e, ast.Name):
                if e.id in shadow:
                    continue
                r = pkg.lookup(f.mod, e.id)
            elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None and f.pos and e.value.id == f.pos[0] and not f.static:
                r = pkg.find_method(f.cls, e.attr)
                skip = 1
                if r is not None and (r.static):
                    skip = 0
            elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Call) and getattr(e.value.func, "id", "") == "super" and f.cls is not None:
                r = next((k.methods[e.attr] for k in pkg.mro(f.cls)[1:] if e.attr in k.methods), None)
                skip = 1
            else:
                continue
            if isinstance(r, ir.Class):
                r = pkg.find_method(r, "__init__")
                skip = 1
            if not isinstance(r, ir.Func):
                continue
            n += 1
            if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                continue
            pos = r.pos[skip:]
            name = f.qual.split(".", 1)[-1]
            msg = None
            if len(c.args) > len(pos) and not r.vararg:
                msg = "%d positional arguments for %d parameters" % (len(c.args), len(pos))
            got = set(pos[: len(c.args)])
            for k in c.keywords:
                if k.arg in got:
                    msg = "parameter %s given twice" % k.arg
                elif k.arg not in r.params and not r.kwarg:
                    msg = "unknown parameter %s" % k.arg
                got.add(k.arg)
            miss = [p for p in pos + r.kwonly if p not in got and p not in r.defaults]
            if miss and msg is None:
                msg = "parameter %s not given" % ", ".join(miss)
            if msg:
                out.append(Finding("V", name, "call of " + r.qual.split(".", 1)[-1], msg, where(f, c)))
    return out, n


# ------------------------------------------------------------------- checksums
def checksums(ck):
    """every RemoteFileMetadata carries a sha256, every fetch goes through the verifier"""
    pkg = ck.s.repo
    out, n = [], 0
    spec = {}
    for p, store in ((ck.s.spec, spec), (pkg, None)):
        for m in p.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call) and (getattr(x.func, "id", None) or getattr(x.func, "attr", None)) == "RemoteFileMetadata":
                    kw = {k.arg: k.value for k in x.keywords}
                    vals = list(x.args) + [None] * 3
                    ch = kw.get("checksum", vals[2])
                    url = kw.get("url", vals[1])
                    u = ck.const(p, m, url) if url is not None else None
                    v = ck.const(p, m, ch) if ch is not None else None
                    if store is not None:
                        store[u] = v
                        continue
                    n += 1
                    if v is None or v.op != "c" or not isinstance(v.args[0], str) or len(v.args[0]) != 64:
                        if v is None or v.op == "c":
                            out.append(Finding("V", m.name.split(".", 1)[-1], "checksum", "no sha256 checksum recorded", "%s:%d" % (m.rel, x.lineno)))
                    elif u in spec and spec[u] is not v:
                        out.append(Finding("V", m.name.split(".", 1)[-1], "checksum", "recorded checksum changed for the same file", "%s:%d" % (m.rel, x.lineno)))
    return out, n


RULES = {
    "rng": rng, "globals": globals_, "lock": lock, "caller_data": caller_data,
    "predict_pure": predict_pure, "transform_pure": transform_pure, "names": names,
    "calls": calls, "checksums": checksums,
}
