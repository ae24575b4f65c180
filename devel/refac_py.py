"""refac_py.py SRC DST: rewrites every Python file below SRC/python/qugar into an equivalent one in DST, by the transformations named"""
import ast, os, sys, copy
src, dst, kinds = sys.argv[1], sys.argv[2], sys.argv[3].split(",")


class R(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.infn = 0

    def fresh(self, p="_t"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def visit_FunctionDef(self, f):
        self.infn += 1
        self.generic_visit(f)
        self.infn -= 1
        if "noop" in kinds:
            doc = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
            f.body.insert(doc, ast.parse("_unused_value = None").body[0])
        return f

    def visit_Return(self, s):
        self.generic_visit(s)
        if "ret" in kinds and s.value is not None:
            v = self.fresh()
            return [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]
        return s

    def visit_If(self, s):
        self.generic_visit(s)
        if "ifs" in kinds:
            neg = ast.UnaryOp(ast.Not(), s.test)
            return ast.If(neg, s.orelse or [ast.Pass()], s.body)
        return s

    def visit_IfExp(self, s):
        self.generic_visit(s)
        if "ifs" in kinds:
            return ast.IfExp(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s

    def visit_For(self, s):
        self.generic_visit(s)
        if "loops" in kinds and not s.orelse and self.infn:
            it, x = self.fresh("_it"), self.fresh("_x")
            # while over an iterator with a sentinel
            pre = [ast.parse("%s = iter(0)" % it).body[0]]
            pre[0].value.args = [s.iter]
            body = ast.parse("while True:\n    try:\n        %s = next(%s)\n    except StopIteration:\n        break\n" % (x, it)).body[0]
            body.body += [ast.Assign([s.target], ast.Name(x, ast.Load()))] + s.body
            return pre + [body]
        return s

    def visit_ListComp(self, s):
        self.generic_visit(s)
        if "comps" in kinds:
            return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(s.elt, s.generators)], [])
        return s

    def visit_AugAssign(self, s):
        self.generic_visit(s)
        return s

    def visit_Compare(self, s):
        self.generic_visit(s)
        if "cmp" in kinds and len(s.ops) == 1:
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            t = type(s.ops[0])
            if t in sw and not isinstance(s.comparators[0], ast.Call) and not isinstance(s.left, ast.Call):
                return ast.Compare(s.comparators[0], [sw[t]()], [s.left])
        return s

    def visit_BoolOp(self, s):
        self.generic_visit(s)
        if "bool" in kinds:
            inv = ast.Or() if isinstance(s.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(inv, [ast.UnaryOp(ast.Not(), v) for v in s.values])) if getattr(s, "_t", False) else s
        return s


class Names(ast.NodeTransformer):
    """renames local variables"""

    def visit_FunctionDef(self, f):
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Nonlocal, ast.Global)) for b in f.body for n in ast.walk(b)):
            self.generic_visit(f)
            return f
        args = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
        loc = {n.id for b in f.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
        for b in f.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id in loc:
                    n.id = "v_" + n.id
        return f


class Extract(ast.NodeTransformer):
    """moves the body of every method and function into a helper"""

    def _do(self, body, cls):
        out = []
        for f in body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not (f.name.startswith("__")) and not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" for n in ast.walk(f)) and not any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for n in ast.walk(f)) and not f.args.kwonlyargs and not f.args.vararg and not f.args.kwarg:
                h = copy.deepcopy(f)
                h.name = "_impl_of" + f.name if f.name.startswith("_") else "_impl_of_" + f.name
                h.args.defaults = []
                names = [a.arg for a in f.args.posonlyargs + f.args.args]
                doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                if cls:
                    call = ast.Call(ast.Attribute(ast.Name(names[0], ast.Load()), h.name, ast.Load()), [ast.Name(x, ast.Load()) for x in names[1:]], [])
                else:
                    call = ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(x, ast.Load()) for x in names], [])
                f.body = doc + [ast.Return(call)]
                out += [h, f]
            else:
                out.append(f)
        return out

    def visit_Module(self, m):
        self.generic_visit(m)
        m.body = self._do(m.body, False)
        return m

    def visit_ClassDef(self, c):
        if any(isinstance(b, ast.Name) and b.id in ("NamedTuple", "Protocol") for b in c.bases) or any("ABC" in ast.unparse(b) for b in c.bases):
            return c
        c.body = self._do(c.body, True)
        return c


n = 0
for d, _, fs in os.walk(src + "/python/qugar"):
    for f in fs:
        if f.endswith(".py"):
            p = os.path.join(d, f)
            t = ast.parse(open(p).read())
            t = R().visit(t)
            if "names" in kinds:
                t = Names().visit(t)
            if "extract" in kinds:
                t = Extract().visit(t)
            ast.fix_missing_locations(t)
            q = p.replace(src, dst, 1)
            open(q, "w").write(ast.unparse(t) + "\n")
            n += 1
print(n, "files")
