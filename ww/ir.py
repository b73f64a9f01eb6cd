"""Index of a Python package: modules, imports, functions, classes, constants.

Nothing is imported or executed: everything is read from the syntax trees.
"""
import ast
import os


class Func:
    def __init__(self, mod, node, cls=None, kind="func"):
        self.mod, self.node, self.cls, self.kind = mod, node, cls, kind
        self.name = node.name
        self.qual = mod.name + "." + (cls.name + "." if cls else "") + node.name
        if kind in ("getter", "setter"):
            self.qual += "@" + kind
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.params = self.pos + self.kwonly
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for n, d in zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self._base = None
        self._sub = None
        self._assigned = None
        self.static = any(
            isinstance(d, ast.Name) and d.id == "staticmethod"
            for d in node.decorator_list
        )
        self.classm = any(
            isinstance(d, ast.Name) and d.id == "classmethod"
            for d in node.decorator_list
        )

    @property
    def subscripted(self):
        """names an element or a slice of which is read or written"""
        if self._sub is None:
            self._sub = {
                n.value.id for n in ast.walk(self.node)
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name)
            }
        return self._sub

    @property
    def base_used(self):
        """names used as the base of a subscript or attribute somewhere"""
        if self._base is None:
            self._base = base_used(self.node)
        return self._base

    @property
    def assigned(self):
        if self._assigned is None:
            self._assigned = assigned_names(self.node.body)
        return self._assigned

    def where(self):
        return "%s:%d %s" % (self.mod.rel, self.node.lineno, self.qual.split(".", 1)[-1])

    def __repr__(self):
        return "<Func %s>" % self.qual


def base_used(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Subscript, ast.Attribute)):
            b = n.value
            if isinstance(b, ast.Name):
                out.add(b.id)
        elif isinstance(n, ast.Call):
            # passed on: the callee may use it as an array
            for x in list(n.args) + [k.value for k in n.keywords]:
                if isinstance(x, ast.Starred):
                    x = x.value
                if isinstance(x, ast.Name) and _repo_like(n.func):
                    out.add(x.id)
        elif isinstance(n, (ast.For, ast.comprehension)):
            if isinstance(n.iter, ast.Name):
                out.add(n.iter.id)
    # through plain copies of a name
    copies = [
        (t.id, n.value.id)
        for n in ast.walk(node)
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name)
        for t in n.targets
        if isinstance(t, ast.Name)
    ]
    ch = True
    while ch:
        ch = False
        for a, b in copies:
            if a in out and b not in out:
                out.add(b)
                ch = True
    return out


def _repo_like(f):
    return isinstance(f, ast.Name) and f.id not in (
        "int", "float", "len", "str", "bool", "min", "max", "abs", "round",
        "uintp", "intp", "float32", "uint64", "log", "exp", "isnan", "ceil", "floor",
        "sqrt", "isinstance", "set", "range", "print",
    )


def target_names(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            target_names(x, out)
    elif isinstance(t, ast.Starred):
        target_names(t.value, out)


def assigned_names(stmts):
    out = set()
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            continue
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target_names(t, out)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            target_names(n.target, out)
        elif isinstance(n, (ast.For,)):
            target_names(n.target, out)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            target_names(n.optional_vars, out)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return out


class Class:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = mod.name + "." + node.name
        self.methods, self.getters, self.setters, self.attrs = {}, {}, {}, {}
        self.jit_spec = None
        for d in node.decorator_list:
            if isinstance(d, ast.Call) and _last(d.func) == "jitclass" and d.args:
                self.jit_spec = d.args[0]
        self.is_jit = self.jit_spec is not None
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "method"
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ("property", "cached_property"):
                        kind = "getter"
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        kind = "setter"
                    elif isinstance(d, ast.Attribute) and d.attr == "cached_property":
                        kind = "getter"
                f = Func(mod, n, self, kind)
                {"method": self.methods, "getter": self.getters, "setter": self.setters}[
                    kind
                ][n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    self.attrs[n.target.id] = n.value

    def __repr__(self):
        return "<Class %s>" % self.qual


def _last(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    return None


def rename(tree, ren):
    """read attributes and methods under their former names (see renames.py)"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and n.attr in ren:
            n.attr = ren[n.attr]
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in ren:
            n.value = ren[n.value]
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name in ren:
                    m.name = ren[m.name]


class Module:
    def __init__(self, name, path, rel, src, is_pkg, ren=None):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src)
        if ren:
            rename(self.tree, ren)
        self.is_pkg = is_pkg
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = Func(self, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Class(self, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
                    elif (
                        isinstance(t, ast.Tuple)
                        and isinstance(n.value, ast.Tuple)
                        and len(t.elts) == len(n.value.elts)
                    ):
                        for a, b in zip(t.elts, n.value.elts):
                            if isinstance(a, ast.Name):
                                self.consts[a.id] = b
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    self.consts[n.target.id] = n.value
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.add_import(n, self.imports)
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                self._scan(n.body)
                for h in getattr(n, "handlers", []):
                    self._scan(h.body)
                self._scan(getattr(n, "orelse", []))

    def add_import(self, n, out):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            base = n.module or ""
            if n.level:
                parts = self.name.split(".")
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            for a in n.names:
                out[a.asname or a.name] = base + "." + a.name


class Package:
    """root: directory containing the package directory `pkg`"""

    def __init__(self, root, pkg="wildwood", overlay=None, skip=(), ren=None):
        self.root, self.pkg = root, pkg
        self.modules = {}
        self.errors = []
        top = os.path.join(root, pkg)
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x != "__pycache__" and x not in skip)
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = f == "__init__.py"
                if is_pkg:
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as h:
                    src = h.read()
                self.modules[name] = Module(name, p, rel, src, is_pkg, ren)
        self._mro = {}
        self._fnptr = None

    # ---------------------------------------------------------------- lookup
    def resolve(self, dotted, depth=0):
        """dotted name -> Func | Class | Module | ('const', Module, expr) | ('ext', dotted)"""
        if dotted in self.modules:
            return self.modules[dotted]
        if not dotted.startswith(self.pkg + ".") or depth > 8:
            return ("ext", dotted)
        mod, _, name = dotted.rpartition(".")
        m = self.modules.get(mod)
        if m is None:
            r = self.resolve(mod, depth + 1)
            if isinstance(r, Class):
                for k in self.mro(r):
                    if name in k.methods:
                        return k.methods[name]
            return ("ext", dotted)
        return self.lookup(m, name, depth + 1)

    def lookup(self, m, name, depth=0):
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.consts:
            return ("const", m, name)
        if name in m.imports:
            return self.resolve(m.imports[name], depth + 1)
        sub = m.name + "." + name
        if sub in self.modules:
            return self.modules[sub]
        return None

    def bases(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                r = self.lookup(c.mod, b.id)
            else:
                r = None
            if isinstance(r, Class):
                out.append(r)
        return out

    def ext_bases(self, c):
        out = []
        for k in self.mro(c):
            for b in k.node.bases:
                r = self.lookup(k.mod, b.id) if isinstance(b, ast.Name) else None
                if not isinstance(r, Class):
                    out.append(ast.unparse(b))
        return out

    def mro(self, c):
        if c.qual not in self._mro:
            out = [c]
            for b in self.bases(c):
                for x in self.mro(b):
                    if x in out:
                        out.remove(x)
                    out.append(x)
            self._mro[c.qual] = out
        return self._mro[c.qual]

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]

    def find_getter(self, c, name):
        for k in self.mro(c):
            if name in k.getters:
                return k.getters[name]
            if name in k.methods or name in k.attrs:
                return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]

    def subclasses(self, c):
        return [k for m in self.modules.values() for k in m.classes.values()
                if k is not c and c in self.mro(k)]

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for t in (c.methods, c.getters, c.setters):
                    for f in t.values():
                        yield f

    def func(self, qual):
        """find a function by module.func / module.Class.method / ...@setter; the class
        method is looked up through the bases."""
        kind = None
        if "@" in qual:
            qual, kind = qual.split("@")
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if len(rest) == 1:
                r = self.lookup(m, rest[0])
                return r if isinstance(r, Func) else None
            if len(rest) == 2:
                c = self.lookup(m, rest[0])
                if isinstance(c, Class):
                    if kind == "getter":
                        return self.find_getter(c, rest[1])
                    if kind == "setter":
                        return self.find_setter(c, rest[1])
                    return self.find_method(c, rest[1])
        # moved to another module: unique function of that name
        name = parts[-1]
        if kind is None:
            c = [m.funcs[name] for m in self.modules.values() if name in m.funcs]
            if len(c) == 1 and parts[-2][:1].islower() or parts[-2][:1] == "_":
                return c[0] if len(c) == 1 else None
        return None

    def cls(self, qual):
        mod, _, name = qual.rpartition(".")
        m = self.modules.get(mod)
        if m is not None:
            r = self.lookup(m, name)
            if isinstance(r, Class):
                return r
        c = [m.classes[name] for m in self.modules.values() if name in m.classes]
        return c[0] if len(c) == 1 else None

    def fnptr_candidates(self):
        """(callee, parameter) -> functions that can be passed there"""
        if self._fnptr is not None:
            return self._fnptr
        out = {}
        flows = []  # (source callee, source param) -> (callee, param)
        for f in self.all_funcs():
            alias = {}
            params = set(f.params)
            names = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.IfExp)):
                    vs = [n.value] if isinstance(n.value, ast.Name) else [n.value.body, n.value.orelse]
                    for v in vs:
                        if not isinstance(v, ast.Name):
                            continue
                        r = self.lookup(f.mod, v.id)
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                if isinstance(r, Func):
                                    alias.setdefault(t.id, []).append(r)
                                elif v.id in params:
                                    names[t.id] = v.id
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Name):
                    continue
                g = self.lookup(f.mod, n.func.id)
                if not isinstance(g, Func):
                    continue
                pairs = list(zip(g.pos, n.args)) + [(k.arg, k.value) for k in n.keywords]
                for p, a in pairs:
                    if isinstance(a, ast.Name):
                        rs = alias.get(a.id)
                        if not rs:
                            q = names.get(a.id, a.id)
                            if q in params:
                                flows.append(((f.qual, q), (g.qual, p)))
                                continue
                            r = self.lookup(f.mod, a.id)
                            rs = [r] if isinstance(r, Func) else []
                        for r in rs:
                            lst = out.setdefault((g.qual, p), [])
                            if r not in lst:
                                lst.append(r)
        ch = True
        while ch:
            ch = False
            for src, dst in flows:
                for r in out.get(src, []):
                    lst = out.setdefault(dst, [])
                    if r not in lst:
                        lst.append(r)
                        ch = True
        self._fnptr = out
        return out
