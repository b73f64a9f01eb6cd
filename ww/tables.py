"""Declared types: jit signatures, locals tables, jitclass specs, record dtypes."""
import ast

INTS = {
    "uintp": ("u", 64), "intp": ("i", 64), "uint64": ("u", 64), "int64": ("i", 64),
    "uint32": ("u", 32), "int32": ("i", 32), "uint16": ("u", 16), "int16": ("i", 16),
    "uint8": ("u", 8), "int8": ("i", 8), "int": ("i", 64), "int_": ("i", 64),
}
FLOATS = {"float32": ("f", 32), "float64": ("f", 64), "float16": ("f", 16)}
BOOLS = {"boolean": ("b", 1), "bool_": ("b", 1), "bool": ("b", 1)}
SCALARS = {**INTS, **FLOATS, **BOOLS}


def type_of(e):
    """(kind, bits, ndim) of a type expression, or a name for other types"""
    if isinstance(e, ast.Subscript):
        t = type_of(e.value)
        sl = e.slice
        nd = len(sl.elts) if isinstance(sl, ast.Tuple) else 1
        if isinstance(t, tuple) and t and t[0] in "uifb":
            return (t[0], t[1], t[2] + nd)
        return (t, nd)
    n = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None
    if n is None and isinstance(e, ast.Constant) and isinstance(e.value, str):
        n = e.value
    if n in SCALARS:
        return SCALARS[n] + (0,)
    if n is not None:
        return n
    return ast.unparse(e)


def _sigs(e):
    if isinstance(e, (ast.List, ast.Tuple)):
        return [s for x in e.elts for s in _sigs(x)]
    if isinstance(e, ast.Call):
        return [e]
    return []


def jit_info(f):
    """{'sigs': [(ret, [types])], 'locals': {}, 'flags': {}} or None when not jitted"""
    for d in f.node.decorator_list:
        call = d if isinstance(d, ast.Call) else None
        fn = call.func if call is not None else d
        name = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", None)
        if name not in ("jit", "njit", "vectorize", "guvectorize"):
            continue
        out = {"sigs": [], "locals": {}, "flags": {}, "name": name}
        if call is not None:
            for a in call.args:
                for s in _sigs(a):
                    out["sigs"].append((type_of(s.func), [type_of(x) for x in s.args]))
            for k in call.keywords:
                if k.arg == "locals" and isinstance(k.value, ast.Dict):
                    for kk, v in zip(k.value.keys, k.value.values):
                        if isinstance(kk, ast.Constant):
                            out["locals"][kk.value] = type_of(v)
                else:
                    out["flags"][k.arg] = k.value
        return out
    return None


def field_tables(m):
    """name -> [(field, type)] for module level lists of (name, type) pairs"""
    out = {}
    for st in m.tree.body:
        v, t = None, None
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            t, v = st.targets[0].id, st.value
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            t, v = st.target.id, st.value
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(
            st.value.func, ast.Attribute
        ) and st.value.func.attr in ("extend", "append") and isinstance(st.value.func.value, ast.Name):
            t = st.value.func.value.id
            v = st.value.args[0] if st.value.args else None
            if st.value.func.attr == "append" and v is not None:
                v = ast.List([v])
        if v is None:
            continue
        rows = rows_of(v, out)
        if rows:
            out.setdefault(t, [])
            if isinstance(st, ast.Assign):
                out[t] = rows
            else:
                out[t] = out[t] + rows
    return out


def rows_of(v, known):
    if isinstance(v, ast.Call) and v.args:
        fn = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", "")
        if fn in ("dtype", "list", "tuple", "OrderedDict"):
            return rows_of(v.args[0], known)
        return []
    if isinstance(v, ast.Name):
        return list(known.get(v.id, []))
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
        return rows_of(v.left, known) + rows_of(v.right, known)
    if isinstance(v, (ast.List, ast.Tuple)):
        rows = []
        for e in v.elts:
            if isinstance(e, ast.Starred):
                rows += rows_of(e.value, known)
            elif (
                isinstance(e, ast.Tuple)
                and len(e.elts) >= 2
                and isinstance(e.elts[0], ast.Constant)
                and isinstance(e.elts[0].value, str)
            ):
                rows.append((e.elts[0].value, type_of(e.elts[1])))
            else:
                return []
        return rows
    return []


def int_names(pkg):
    ints, other = set(), set()

    def put(n, t):
        if isinstance(t, tuple) and len(t) == 3 and t[0] in "ui":
            ints.add(n)
        elif isinstance(t, tuple) and t[0] in "fb":
            other.add(n)

    for m in pkg.modules.values():
        for rows in field_tables(m).values():
            for n, t in rows:
                put(n, t)
    for f in pkg.all_funcs():
        j = jit_info(f)
        if j is None:
            continue
        for n, t in j["locals"].items():
            put(n, t)
        for _, ts in j["sigs"]:
            for n, t in zip(f.pos, ts):
                put(n, t)
    return ints - other
