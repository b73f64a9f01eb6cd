"""Small edits of a function's syntax tree, used to measure the analysis itself:
Breaking edits (should be flagged) and Harmless edits (must not be)."""
import ast
import copy

_n = [0]


def fresh():
    _n[0] += 1
    return "zz%d" % _n[0]


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


SCOPES = (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Yield, ast.NamedExpr)


def haslocal(n):
    return any(isinstance(x, SCOPES) for x in ast.walk(n))


PURE = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp, ast.Attribute,
        ast.Subscript, ast.operator, ast.unaryop, ast.cmpop, ast.boolop, ast.expr_context, ast.Slice,
        ast.Tuple)


def pure(n):
    return all(isinstance(x, PURE) for x in ast.walk(n))


class Edit(ast.NodeTransformer):
    def __init__(self, k):
        self.k, self.n, self.desc, self.helpers = k, -1, None, []

    def hit(self, d, node):
        self.n += 1
        if self.n == self.k:
            self.desc = "L%d %s" % (getattr(node, "lineno", 0), d)
            return True
        return False

    @classmethod
    def count(cls, node):
        e = cls(-2)
        e.visit(copy.deepcopy(node))
        return e.n + 1

    @classmethod
    def apply(cls, node, k):
        e = cls(k)
        r = e.visit(copy.deepcopy(node))
        ast.fix_missing_locations(r)
        for h in e.helpers:
            ast.fix_missing_locations(h)
        return e, r


SWAPS = [(a, b) for p, q in (("left", "right"), ("train", "valid"), ("start", "end")) for a, b in ((p, q), (q, p))]


class Breaking(Edit):
    CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
           ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
           ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
    BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add, ast.Div], ast.Div: [ast.Mult],
           ast.FloorDiv: [ast.Mult]}

    def visit_Compare(self, n):
        self.generic_visit(n)
        for r in self.CMP.get(type(n.ops[0]), []):
            if self.hit("%s->%s" % (type(n.ops[0]).__name__, r.__name__), n):
                n.ops[0] = r()
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        for r in self.BIN.get(type(n.op), []):
            if self.hit("%s->%s" % (type(n.op).__name__, r.__name__), n):
                n.op = r()
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        for r in {ast.Add: [ast.Sub], ast.Sub: [ast.Add]}.get(type(n.op), []):
            if self.hit("aug %s" % r.__name__, n):
                n.op = r()
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            if self.hit("bool flip", n):
                return ast.Constant(not n.value)
        elif isinstance(n.value, (int, float)):
            if self.hit("const+1", n):
                return ast.Constant(n.value + 1)
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.hit("and<->or", n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        if self.hit("drop last operand", n):
            n.values = n.values[:-1]
        return n if len(n.values) > 1 else n.values[0]

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and self.hit("drop not", n):
            return n.operand
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        for x, y in SWAPS:
            if x in n.attr and self.hit("attr %s" % n.attr, n):
                n.attr = n.attr.replace(x, y)
        return n

    def visit_Name(self, n):
        for x, y in SWAPS:
            if x in n.id and isinstance(n.ctx, ast.Load) and self.hit("name %s" % n.id, n):
                n.id = n.id.replace(x, y)
        return n

    def stm(self, n):
        self.generic_visit(n)
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, st in enumerate(b):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Raise, ast.If)):
                        if self.hit("delete " + ast.unparse(st)[:50].replace("\n", ";"), st):
                            b[i] = ast.copy_location(ast.Pass(), st)
        return n

    def visit_FunctionDef(self, n):
        dl, n.decorator_list = n.decorator_list, []
        ar, n.args = n.args, ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        r = self.stm(n)
        n.decorator_list, n.args = dl, ar
        return r

    visit_If = visit_For = visit_While = visit_With = stm


class Harmless(Edit):
    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            o = type(n.ops[0])
            if o in self.FLIP and self.hit("flip compare", n):
                return ast.Compare(n.comparators[0], [self.FLIP[o]()], [n.left])
            if o in self.NEG and self.hit("negated compare", n):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.NEG[o]()], n.comparators))
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and self.hit("commute", n):
            n.left, n.right = n.right, n.left
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, (ast.Subscript, ast.Attribute)) and pure(n.target) and self.hit("expand aug", n):
            t = copy.deepcopy(n.target)
            for x in ast.walk(t):
                if hasattr(x, "ctx"):
                    x.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n

    def visit_For(self, n):
        self.stm(n)
        it = n.iter
        nocont = not any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b))
        if (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range"
                and len(it.args) <= 2 and not n.orelse and nocont and isinstance(n.target, ast.Name)):
            if self.hit("range->while", n):
                lo = it.args[0] if len(it.args) == 2 else ast.Constant(0)
                c, e = fresh(), fresh()
                return [
                    ast.Assign([ast.Name(c, ast.Store())], lo),
                    ast.Assign([ast.Name(e, ast.Store())], it.args[-1]),
                    ast.While(
                        ast.Compare(ast.Name(c, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                        [ast.Assign([n.target], ast.Name(c, ast.Load()))] + n.body
                        + [ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), ast.Constant(1))], []),
                ]
        return n

    def visit_If(self, n):
        self.stm(n)
        if n.orelse and self.hit("invert if", n):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and self.hit("nest and", n):
            v = n.test.values
            return ast.If(v[0], [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), n.body, [])], [])
        if isinstance(n.test, ast.BoolOp) and self.hit("demorgan", n):
            o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), x) for x in n.test.values]))
        if self.hit("test to variable", n):
            c, t = fresh(), n.test
            n.test = ast.Name(c, ast.Load())
            return [ast.Assign([ast.Name(c, ast.Store())], t), n]
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.hit("invert ifexp", n):
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if (len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and not haslocal(n.value)
                and not isinstance(n.value, (ast.Constant, ast.Name))):
            if not (names(n.value, ast.Load) & self.imported) and self.hit("helper " + ast.unparse(n)[:40], n):
                h = "_hh%d" % _n[0]
                _n[0] += 1
                ps = sorted(x for x in names(n.value, ast.Load) if x in self.locals)
                self.helpers.append(ast.FunctionDef(
                    name=h,
                    args=ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[]),
                    body=[ast.Return(n.value)], decorator_list=[], type_params=[]))
                return ast.Assign(n.targets, ast.Call(ast.Name(h, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], []))
            if self.hit("temp", n):
                c = fresh()
                return [ast.Assign([ast.Name(c, ast.Store())], n.value), ast.Assign(n.targets, ast.Name(c, ast.Load()))]
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and self.hit("return temp", n):
            c = fresh()
            return [ast.Assign([ast.Name(c, ast.Store())], n.value), ast.Return(ast.Name(c, ast.Load()))]
        return n

    def block(self, b):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if (isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and pure(x.value) and pure(y.value)
                    and isinstance(x.targets[0], ast.Name) and isinstance(y.targets[0], ast.Name)
                    and not (names(x, ast.Store) & names(y)) and not (names(y, ast.Store) & names(x))):
                if self.hit("swap " + ast.unparse(x)[:30], x):
                    b[i], b[i + 1] = y, x
        for i in range(len(b)):
            x = b[i]
            if (isinstance(x, ast.If) and not x.orelse and x.body
                    and isinstance(x.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b)):
                if self.hit("guard->else", x):
                    x.orelse = b[i + 1:]
                    del b[i + 1:]
                    break
        for i in range(len(b)):
            if self.hit("noop", b[i]):
                b.insert(i, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(0)))
                break

    def stm(self, n):
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                self.block(b)
        self.generic_visit(n)
        return n

    def visit_While(self, n):
        self.stm(n)
        if not n.orelse and not isinstance(n.test, ast.Constant) and self.hit("while true", n):
            return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])
        return n

    visit_With = visit_Try = stm

    def visit_FunctionDef(self, n):
        a = n.args
        self.locals = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | names(n, ast.Store)
        self.locals |= {x.arg for x in (a.vararg, a.kwarg) if x}
        self.imported = {
            (al.asname or al.name).split(".")[0]
            for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for al in x.names
        }
        dl, n.decorator_list = n.decorator_list, []
        ar, n.args = n.args, ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        r = self.stm(n)
        n.decorator_list, n.args = dl, ar
        return r
