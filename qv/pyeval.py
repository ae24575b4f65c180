"""Abstract interpreter for the Python sources of the repository.

The analysed modules are parsed with `ast`; nothing of them is imported or
executed.  Values are abstract: numbers may be Herbrand terms (qv.terms),
arrays have a known shape and abstract entries, everything that comes from
outside the repository is an opaque value whose uses are recorded in an effect
trace.  A branch on an abstract condition splits the path (qv.cxxeval.paths
enumerates the decision prefixes)."""
import ast, os, sys
from . import terms as tm
from .terms import T
from .cxxeval import Undecided, CxxThrow, PathEnd, Oob, paths  # noqa: F401
from .cxxprog import AnalysisBroken, REPO

PYROOT = os.path.join(REPO, "python", "qugar")
sys.setrecursionlimit(20000)


class PyRaise(CxxThrow):
    """an exception of the analysed program"""

    def __init__(self, exc, line=0, file=""):
        CxxThrow.__init__(self, exc, line)
        self.exc, self.file = exc, file

    def __str__(self):
        return "%s raised (%s:%s)" % (self.exc, os.path.basename(self.file or "?"), self.line)


class ExcVal:
    """exception instance; cls is a name from the builtin hierarchy, a class of
    the repository or '?' (raised by code outside the repository)"""

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "%s%s" % (self.cls, tuple(str(a)[:80] for a in self.args))


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class U:
    """opaque value of code outside the repository (identified by its path)"""

    __slots__ = ("key", "attrs", "n")
    cnt = 0

    def __init__(self, *key):
        self.key = key
        self.attrs = None
        U.cnt += 1
        self.n = U.cnt

    @property
    def path(self):
        k = self.key
        if k[0] == "ext":
            return k[1]
        if k[0] == "attr":
            b = k[1]
            return (b.path if isinstance(b, U) else repr(b)) + "." + k[2]
        if k[0] == "res":
            return (k[1].path if isinstance(k[1], U) else repr(k[1])) + "()"
        if k[0] == "item":
            return (k[1].path if isinstance(k[1], U) else repr(k[1])) + "[]"
        return str(k[-1])

    def __repr__(self):
        return "<%s>" % self.path


class Module:
    """module of the repository; its body is interpreted at the first access"""

    def __init__(self, name, file, load=None):
        self.name, self.file, self._g, self.tree, self.ready, self.load = name, file, {}, None, False, load

    @property
    def g(self):
        if self.load:
            ld, self.load = self.load, None
            ld(self)
        return self._g

    def __repr__(self):
        return "<module %s>" % self.name


class Poison:
    """module-level name the abstract interpretation could not evaluate"""

    def __init__(self, why):
        self.why = why


def _bound_names(st):
    out = []
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
        elif isinstance(n, ast.alias):
            out.append((n.asname or n.name).split(".")[0])
    return out


class Func:
    def __init__(self, node, frame, mod, cls=None, defaults=(), kwdefaults=None):
        self.node, self.frame, self.mod, self.cls = node, frame, mod, cls
        self.defaults, self.kwdefaults = list(defaults), kwdefaults or {}
        self.name = getattr(node, "name", "<lambda>")
        self.attrs = {}

    @property
    def line(self):
        return self.node.lineno

    @property
    def file(self):
        return self.mod.file

    @property
    def q(self):
        return self.mod.name + "." + (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<function %s>" % self.q


class Static:
    def __init__(self, f):
        self.f = f


class ClsM:
    def __init__(self, f):
        self.f = f


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Bound:
    __slots__ = ("f", "o")

    def __init__(self, f, o):
        self.f, self.o = f, o

    def __repr__(self):
        return "<bound %r>" % (self.f,)


class Native:
    """modelled callable: fn(interp, args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<native %s>" % self.name


class Class:
    def __init__(self, name, bases, d, mod, node):
        self.name, self.bases, self.d, self.mod, self.node = name, bases, d, mod, node
        self.fields = None  # dataclass / NamedTuple field list
        self.frozen = False
        self.namedtuple = False

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, n):
        for c in self.mro():
            if n in c.d:
                return c.d[n]
        return None

    def has_ext_base(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, Class)]

    def __repr__(self):
        return "<class %s>" % self.name


class Obj:
    def __init__(self, cls):
        self.cls, self.f = cls, {}

    def __repr__(self):
        return "<%s object>" % (self.cls.name if isinstance(self.cls, Class) else self.cls)

    def _k(self):
        if isinstance(self.cls, Class) and self.cls.fields is not None and (self.cls.namedtuple or self.cls.frozen):
            return tuple(self.f.get(n) for n in self.cls.fields)
        return None

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Frame:
    __slots__ = ("v", "parent", "mod", "func", "glob", "nonl")

    def __init__(self, parent, mod, func=None):
        self.v, self.parent, self.mod, self.func = {}, parent, mod, func
        self.glob, self.nonl = set(), set()


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def conc(self):
        for x in (self.a, self.b, self.c):
            if isinstance(x, (T, U)):
                raise Undecided("abstract slice bound")
        return slice(self.a, self.b, self.c)


EXC_BASES = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError", "NameError": "Exception", "UnboundLocalError": "NameError",
    "OSError": "Exception", "FileNotFoundError": "OSError", "FileExistsError": "OSError", "PermissionError": "OSError", "TimeoutError": "OSError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "TypeError": "Exception", "ValueError": "Exception", "StopIteration": "Exception", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "UnicodeDecodeError": "ValueError", "OverflowError": "ArithmeticError", "Warning": "Exception", "UserWarning": "Warning", "DeprecationWarning": "Warning", "RuntimeWarning": "Warning",
}


def exc_is(a, b):
    while a is not None:
        if a == b:
            return True
        a = EXC_BASES.get(a, "Exception")  # exceptions of other packages
    return False


class ExcType:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<class %s>" % self.n


class PyProg:
    """parsed sources of the python package"""

    def __init__(self, root=None):
        self.root = root or PYROOT
        self.trees = {}
        self.files = {}
        base = os.path.dirname(self.root)
        for dp, dn, fn in os.walk(self.root):
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, base)[:-3].replace(os.sep, ".")
                    pkg = rel.endswith(".__init__")
                    if pkg:
                        rel = rel[: -len(".__init__")]
                    self.files[rel] = (p, pkg)
        md = os.path.join(os.path.dirname(os.path.abspath(__file__)), "models")
        for f in sorted(os.listdir(md)):  # models of classes outside the package
            if f.endswith(".py"):
                self.files["vmodel." + f[:-3]] = (os.path.join(md, f), False)

    def tree(self, name):
        if name not in self.trees:
            p, _ = self.files[name]
            try:
                self.trees[name] = ast.parse(open(p).read(), p)
            except SyntaxError as e:
                raise AnalysisBroken("cannot parse %s: %s" % (p, e))
        return self.trees[name]


_PROG = None


def prog():
    global _PROG
    if _PROG is None:
        _PROG = PyProg()
    return _PROG


class Interp:
    def __init__(self, P=None, hooks=None, over=None, max_steps=3000000):
        self.P = P or prog()
        self.hooks = dict(hooks or {})  # dotted name -> fn(interp, args, kwargs)
        self.over = dict(over or {})  # dotted name -> value
        self.salt = None  # session: hash values of texts and order of sets
        self.mods = {}
        self.decisions, self.taken, self.pc = [], [], {}
        self.decider = None
        self.trace = []
        self.called = set()
        self.steps, self.max_steps = 0, max_steps
        self.depth = 0
        self.may_raise = None  # predicate on an external call event
        self.line, self.file = 0, ""
        self.yields = []
        self.nsym = 0
        from . import pynp

        pynp.install(self)
        self.over.setdefault("qugar.has_FEniCSx", True)
        self.over.setdefault("qugar.utils.has_FEniCSx", True)

    # ------------------------------------------------------------- decisions
    def decide(self, c):
        if isinstance(c, U):
            c = T("truth", c.path, c.n)
        if not isinstance(c, T):
            return bool(c)
        pol = True
        while c.op == "not":
            c = c.args[0]
            pol = not pol
            if not isinstance(c, T):
                return bool(c) == pol
        if c.op == "and":
            return (self.decide(c.args[0]) and self.decide(c.args[1])) == pol
        if c.op == "or":
            return (self.decide(c.args[0]) or self.decide(c.args[1])) == pol
        if c in self.pc:
            return self.pc[c] == pol
        d = self.decider(self, c) if self.decider else None
        if d is None and not c.free() and c.op in ("<", "<=", "=="):
            v, _ = tm.evalt(c, tm.Env(K=2))
            d = bool(v[0])
        if d is None:
            k = len(self.taken)
            d = self.decisions[k] if k < len(self.decisions) else True
            self.taken.append(d)
        self.pc[c] = d
        return d == pol

    def truth(self, v):
        if isinstance(v, (T, U)):
            return self.decide(v)
        if isinstance(v, (Obj,)):
            if isinstance(v.cls, Class):
                m = v.cls.lookup("__bool__")
                if m:
                    return self.truth(self.call(Bound(m, v), []))
                m = v.cls.lookup("__len__")
                if m:
                    return self.truth(self.call(Bound(m, v), []))
            return True
        from . import pynp

        if isinstance(v, pynp.A):
            return self.truth(pynp.scalar_of(v))
        return bool(v)

    def fresh(self, name="u"):
        self.nsym += 1
        return tm.sym("%s!%d" % (name, self.nsym))

    def exc(self, cls, *args):
        return PyRaise(ExcVal(cls, args), self.line, self.file)

    # --------------------------------------------------------------- modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p, pkg = self.P.files[name]
        m = Module(name, p, self.load_module)
        m.pkg = pkg
        self.mods[name] = m
        return m

    def load_module(self, m):
        name, p = m.name, m.file
        m.g["__name__"] = name
        m.g["__file__"] = p
        m.tree = self.P.tree(name)
        fr = Frame(None, m)
        fr.v = m.g
        s = self.line, self.file
        self.file = p
        dec = self.decisions, self.taken, self.pc
        mr, self.may_raise = self.may_raise, None
        ntr = len(self.trace)
        try:
            for st in m.tree.body:
                self.decisions, self.taken, self.pc = [], [], {}
                try:
                    self.stmt(st, fr)
                except (Undecided, PyRaise) as e:
                    for n in _bound_names(st):
                        m.g[n] = Poison("%s in %s: %s" % (n, name, e))
        finally:
            self.line, self.file = s
            self.decisions, self.taken, self.pc = dec
            self.may_raise = mr
            del self.trace[ntr:]
        m.ready = True
        for k in list(m.g):
            if name + "." + k in self.over:
                m.g[k] = self.over[name + "." + k]

    def get(self, dotted):
        """value of a (nested) name of the package"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            n = ".".join(parts[:i])
            if n in self.P.files:
                v = self.module(n)
                for a in parts[i:]:
                    if isinstance(v, Module):
                        if a not in v.g:
                            raise AnalysisBroken("%s not found" % dotted)
                        v = v.g[a]
                    elif isinstance(v, Class):
                        v = v.lookup(a)
                        if v is None:
                            raise AnalysisBroken("%s not found" % dotted)
                    else:
                        raise AnalysisBroken("%s not found" % dotted)
                return v
        raise AnalysisBroken("module of %s not found" % dotted)

    def ext(self, name):
        if name in self.over:
            return self.over[name]
        return U("ext", name)

    def imp(self, name):
        if name in self.over:
            if isinstance(self.over[name], PyRaise):
                raise self.over[name]
            return self.over[name]
        if name in self.P.files:
            return self.module(name)
        return self.ext(name)

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("step limit")
        self.line = getattr(s, "lineno", self.line)
        return getattr(self, "s_" + type(s).__name__, self.s_unknown)(s, fr)

    def s_unknown(self, s, fr):
        raise Undecided("statement %s (line %s)" % (type(s).__name__, s.lineno))

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise self.exc("AssertionError", self.ev(s.msg, fr) if s.msg is not None else ast.unparse(s.test))

    def s_Return(self, s, fr):
        raise _Ret(self.ev(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise _Brk()

    def s_Continue(self, s, fr):
        raise _Cont()

    def s_Global(self, s, fr):
        fr.glob.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonl.update(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            v = self.imp(a.name)
            if a.asname:
                self.setname(a.asname, v, fr)
            else:
                top = a.name.split(".")[0]
                cur = fr.v.get(top)
                if cur is None:
                    cur = self.imp(top)
                self.setname(top, cur, fr)

    def s_ImportFrom(self, s, fr):
        name = s.module or ""
        if s.level:
            base = fr.mod.name.split(".")
            if not getattr(fr.mod, "pkg", False):
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == "__future__":
            return
        for a in s.names:
            if a.name == "*":
                m = self.imp(name)
                if isinstance(m, Module):
                    for k, v in m.g.items():
                        if not k.startswith("_"):
                            self.setname(k, v, fr)
                continue
            full = name + "." + a.name
            if full in self.over:
                v = self.over[full]
            elif full in self.P.files and self.P.files[name][1]:
                v = self.module(full)
            elif name in self.P.files:
                m = self.module(name)
                if a.name in m.g:
                    v = m.g[a.name]
                elif full in self.P.files:
                    v = self.module(full)
                else:
                    v = self.ext(full)
            else:
                v = self.getattr_(self.imp(name), a.name)
            self.setname(a.asname or a.name, v, fr)

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr)
        self.setname(s.name, v, fr)

    s_AsyncFunctionDef = s_unknown

    def mkfunc(self, s, fr):
        a = s.args
        f = Func(s, fr, fr.mod, None, [self.ev(d, fr) for d in a.defaults], {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        f.isgen = False
        if not isinstance(s, ast.Lambda):
            f.isgen = _has_yield(s)
        return f

    def decorate(self, d, v, fr):
        n = ast.unparse(d)
        if n == "staticmethod":
            return Static(v)
        if n == "classmethod":
            return ClsM(v)
        if n in ("property", "functools.cached_property", "cached_property"):
            return Prop(v)
        if n.endswith(".setter"):
            p = fr.v.get(n[: -len(".setter")])
            return Prop(p.fget if p else None, v)
        if n.endswith("contextmanager"):
            v.attrs["contextmanager"] = True
            return v
        if n.endswith("abstractmethod") or n.startswith("overload") or n.endswith("override") or "cache" in n or n.startswith("wraps") or n.startswith("functools.wraps"):
            return v
        dv = self.ev(d, fr)
        if isinstance(dv, (U,)):
            return v
        return self.call(dv, [v])

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        cf = Frame(fr, fr.mod)
        cf.v["__annotations__"] = {}
        cls = Class(s.name, bases, cf.v, fr.mod, s)
        self.block(s.body, cf)
        for k, v in list(cf.v.items()):
            for g in (v, getattr(v, "f", None), getattr(v, "fget", None), getattr(v, "fset", None)):
                if isinstance(g, Func) and g.cls is None:
                    g.cls = cls
                    g.frame = fr
        nt = any((isinstance(b, U) and b.path.endswith("NamedTuple")) for b in bases)
        dc = [ast.unparse(d) for d in s.decorator_list if "dataclass" in ast.unparse(d)]
        if nt or dc:
            cls.fields = []
            for b in bases:
                if isinstance(b, Class) and b.fields:
                    cls.fields += b.fields
            for st in s.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and "ClassVar" not in ast.unparse(st.annotation):
                    cls.fields.append(st.target.id)
            cls.namedtuple = nt
            cls.frozen = any("frozen=True" in d for d in dc)
        en = any(isinstance(b, U) and b.path.split(".")[-1] in ("Enum", "IntEnum", "StrEnum") or isinstance(b, Class) and getattr(b, "enum", False) for b in bases)
        cls.enum = en
        if en:
            for st in s.body:
                if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                    n = st.targets[0].id
                    o = Obj(cls)
                    o.f.update(name=n, value=cf.v[n])
                    cf.v[n] = o
        self.setname(s.name, cls, fr)

    def overridden(self, t, fr):
        """module-level name whose value is fixed by the analysis"""
        if fr.v is fr.mod.g and isinstance(t, ast.Name) and fr.mod.name + "." + t.id in self.over:
            fr.v[t.id] = self.over[fr.mod.name + "." + t.id]
            return True
        return False

    def s_Assign(self, s, fr):
        if len(s.targets) == 1 and self.overridden(s.targets[0], fr):
            return
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None and not self.overridden(s.target, fr):
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        from . import pynp

        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            v = self.ev(s.value, fr)
            if isinstance(cur, pynp.A):
                return pynp.iop(self, cur, type(s.op).__name__, v)
            if isinstance(cur, list) and isinstance(s.op, ast.Add):
                cur.extend(self.iter(v))
                return
            return self.setname(t.id, self.binop(type(s.op).__name__, cur, v), fr)
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr_(o, t.attr)
            v = self.ev(s.value, fr)
            if isinstance(cur, pynp.A):
                return pynp.iop(self, cur, type(s.op).__name__, v)
            if isinstance(cur, list) and isinstance(s.op, ast.Add):
                cur.extend(self.iter(v))
                return
            return self.setattr_(o, t.attr, self.binop(type(s.op).__name__, cur, v))
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            v = self.ev(s.value, fr)
            return self.setitem(o, k, self.binop(type(s.op).__name__, cur, v))
        raise Undecided("augmented assignment")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
                if isinstance(o, dict):
                    if k not in o:
                        raise self.exc("KeyError", k)
                    del o[k]
                elif isinstance(o, list):
                    del o[k.conc() if isinstance(k, SliceV) else k]
                else:
                    self.event("delitem", o, k)
            else:
                self.event("delattr", self.ev(t.value, fr), t.attr)

    def s_If(self, s, fr):
        self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)

    def s_While(self, s, fr):
        n = 0
        while self.truth(self.ev(s.test, fr)):
            n += 1
            if n > 100000:
                raise Undecided("loop bound")
            try:
                self.block(s.body, fr)
            except _Brk:
                return
            except _Cont:
                pass
        self.block(s.orelse, fr)

    def s_For(self, s, fr):
        for v in self.iter(self.ev(s.iter, fr)):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except _Brk:
                return
            except _Cont:
                pass
        self.block(s.orelse, fr)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is None:
                raise self.exc("RuntimeError", "no active exception")
            raise cur
        e = self.ev(s.exc, fr)
        if s.cause:
            self.ev(s.cause, fr)
        if isinstance(e, ExcType):
            e = ExcVal(e.n)
        if isinstance(e, Class):
            e = self.call(e, [])
        raise PyRaise(e, s.lineno, self.file)

    def exc_match(self, e, t):
        """does exception value e match handler type t"""
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        if isinstance(e, ExcVal):
            if isinstance(t, ExcType):
                if e.cls == "?":
                    if t.n in ("Exception", "BaseException"):
                        return True
                    return self.decide(T("exc-is", t.n, id(e) % 100000))
                return exc_is(e.cls, t.n)
            if isinstance(t, U):
                return e.cls == "?" and self.decide(T("exc-is", t.path, id(e) % 100000))
            return False
        if isinstance(e, Obj) and isinstance(e.cls, Class):
            if isinstance(t, Class):
                return t in e.cls.mro()
            if isinstance(t, ExcType):
                return any(isinstance(b, ExcType) and exc_is(b.n, t.n) for b in e.cls.has_ext_base())
            return False
        return isinstance(t, ExcType) and t.n in ("Exception", "BaseException")

    def s_Try(self, s, fr):
        def rest():
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.exc, self.ev(h.type, fr)):
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = e
                        if h.name:
                            self.setname(h.name, e.exc, fr)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.cur_exc = old
                        return
                raise
            else:
                self.block(s.orelse, fr)

        if not s.finalbody:
            return rest()
        try:
            rest()
        except (PyRaise, _Ret, _Brk, _Cont):
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    # match statement -----------------------------------------------------
    def s_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            if self.pat(c.pattern, v, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                return self.block(c.body, fr)

    def pat(self, p, v, fr):
        k = type(p).__name__
        if k == "MatchValue":
            return self.truth(self.eq(v, self.ev(p.value, fr)))
        if k == "MatchSingleton":
            return self.truth(self.compare("Is", v, p.value))
        if k == "MatchAs":
            if p.pattern is not None and not self.pat(p.pattern, v, fr):
                return False
            if p.name:
                self.setname(p.name, v, fr)
            return True
        if k == "MatchOr":
            return any(self.pat(q, v, fr) for q in p.patterns)
        if isinstance(v, (U, T)):
            raise Undecided("pattern match of an abstract value")
        if k == "MatchSequence":
            nt = isinstance(v, Obj) and getattr(v.cls, "namedtuple", False)
            if not (isinstance(v, (list, tuple, range)) or nt):
                return False
            xs = list(self.iter(v))
            star = [i for i, q in enumerate(p.patterns) if type(q).__name__ == "MatchStar"]
            if not star:
                return len(xs) == len(p.patterns) and all(self.pat(q, x, fr) for q, x in zip(p.patterns, xs))
            i, n = star[0], len(p.patterns) - 1
            if len(xs) < n:
                return False
            j = len(xs) - (n - i)
            if not all(self.pat(q, x, fr) for q, x in zip(p.patterns[:i] + p.patterns[i + 1 :], xs[:i] + xs[j:])):
                return False
            if p.patterns[i].name:
                self.setname(p.patterns[i].name, xs[i:j], fr)
            return True
        if k == "MatchMapping":
            if not isinstance(v, dict):
                return False
            used = []
            for q, r in zip(p.keys, p.patterns):
                q = self.ev(q, fr)
                if not self.contains(v, q) or not self.pat(r, self.getitem(v, q), fr):
                    return False
                used.append(q)
            if p.rest:
                self.setname(p.rest, {a: b for a, b in v.items() if a not in used}, fr)
            return True
        if k == "MatchClass":
            c = self.ev(p.cls, fr)
            if not self.truth(self.call(self.over_builtin("isinstance"), [v, c])):
                return False
            if p.patterns:
                if not (isinstance(c, Class) and c.fields is not None):
                    if len(p.patterns) == 1 and not isinstance(c, Class):
                        return self.pat(p.patterns[0], v, fr)
                    raise Undecided("positional class pattern")
                for n, q in zip(c.fields, p.patterns):
                    if not self.pat(q, self.getattr_(v, n), fr):
                        return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.truth(self.call(self.over_builtin("hasattr"), [v, n])) or not self.pat(q, self.getattr_(v, n), fr):
                    return False
            return True
        raise Undecided("pattern " + k)

    def over_builtin(self, n):
        from . import pynp

        return pynp.BUILTINS[n]

    def s_With(self, s, fr):
        def go(i):
            if i == len(s.items):
                return self.block(s.body, fr)
            it = s.items[i]
            cm = self.ev(it.context_expr, fr)

            def bind(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)

            if isinstance(cm, GenCall):
                sig = []

                def body(v):
                    bind(v)
                    try:
                        go(i + 1)
                    except (_Ret, _Brk, _Cont) as e:
                        sig.append(e)

                n = [0]

                def on_yield(v):
                    n[0] += 1
                    if n[0] > 1:
                        raise self.exc("RuntimeError", "generator didn't stop")
                    body(v)
                    return None

                self.run_gen(cm, on_yield)
                if n[0] == 0:
                    raise self.exc("RuntimeError", "generator didn't yield")
                if sig:
                    raise sig[0]
                return
            if isinstance(cm, Obj) and isinstance(cm.cls, Class) and cm.cls.lookup("__enter__"):
                bind(self.call(Bound(cm.cls.lookup("__enter__"), cm), []))
                ex = Bound(cm.cls.lookup("__exit__"), cm)
                try:
                    go(i + 1)
                except PyRaise as e:
                    ty = ExcType(e.exc.cls) if isinstance(e.exc, ExcVal) else e.exc.cls if isinstance(e.exc, Obj) else ExcType("Exception")
                    if not self.truth(self.call(ex, [ty, e.exc, None])):
                        raise
                    return
                except (_Ret, _Brk, _Cont):
                    self.call(ex, [None, None, None])
                    raise
                self.call(ex, [None, None, None])
                return
            if isinstance(cm, SuppressV):
                try:
                    go(i + 1)
                except PyRaise as e:
                    if not self.exc_match(e.exc, cm.types):
                        raise
                return
            if isinstance(cm, NullCtx):
                bind(cm.v)
                return go(i + 1)
            # context manager of code outside the repository
            h = self.hooks.get(("with", cm.path)) if isinstance(cm, U) else None
            ev = self.event("enter", cm)
            if h:
                bind(h(self, cm))
            else:
                bind(cm if isinstance(cm, U) and cm.path.endswith("open()") else U("res", U("attr", cm, "__enter__"), (), ()) if isinstance(cm, U) else cm)
            try:
                go(i + 1)
            except (PyRaise, _Ret, _Brk, _Cont):
                self.event("exit", cm)
                raise
            self.event("exit", cm)

        go(0)

    # ----------------------------------------------------------------- names
    def setname(self, n, v, fr):
        if n in fr.glob:
            fr.mod.g[n] = v
            return
        if n in fr.nonl:
            p = fr.parent
            while p is not None:
                if n in p.v:
                    p.v[n] = v
                    return
                p = p.parent
        fr.v[n] = v

    def name(self, n, fr):
        f = fr
        if n not in fr.glob:
            while f is not None:
                if n in f.v:
                    v = f.v[n]
                    if isinstance(v, Poison):
                        raise Undecided(v.why)
                    return v
                f = f.parent
        if n in fr.mod.g:
            v = fr.mod.g[n]
            if isinstance(v, Poison):
                raise Undecided(v.why)
            return v
        from . import pynp

        if n in pynp.BUILTINS:
            return pynp.BUILTINS[n]
        if n in EXC_BASES:
            return ExcType(n)
        import builtins

        if hasattr(builtins, n):
            raise Undecided("builtin %s not modelled" % n)
        raise self.exc("NameError", n)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, U) and not star:
                vs = [self.getitem(v, i) for i in range(len(t.elts))]
            else:
                vs = list(self.iter(v))
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise self.exc("ValueError", "not enough values to unpack")
                vs = vs[:i] + [vs[i : len(vs) - k]] + vs[len(vs) - k :]
            if len(vs) != len(t.elts):
                raise self.exc("ValueError", "unpack %d values into %d targets" % (len(vs), len(t.elts)))
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Undecided("assignment target")

    # ------------------------------------------------------------ attributes
    def getattr_(self, o, n, default=None, has=None):
        from . import pynp

        if isinstance(o, Module):
            if o.load and o.name + "." + n in self.P.files:
                return self.module(o.name + "." + n)
            if n in o.g:
                if isinstance(o.g[n], Poison):
                    raise Undecided(o.g[n].why)
                return o.g[n]
            full = o.name + "." + n
            if full in self.over:
                return self.over[full]
            if full in self.P.files:
                return self.module(full)
            if not o.ready or full == "qugar.cpp":
                return self.ext(full)
            if default is not None:
                return default
            raise self.exc("AttributeError", full)
        if isinstance(o, U):
            if o.attrs and n in o.attrs:
                return o.attrs[n]
            p = o.path + "." + n if o.key[0] == "ext" else None
            if p and p in self.over:
                return self.over[p]
            if p and p in self.P.files and not o.attrs:
                return self.module(p)
            h = self.hooks.get(("attr", n))
            if h:
                r = h(self, o)
                if r is not NotImplemented:
                    return r
            if p:
                v = U("ext", p)
            else:
                v = U("attr", o, n)
            if o.attrs is None:
                o.attrs = {}
            o.attrs[n] = v
            return v
        if isinstance(o, Obj):
            if n in o.f:
                return o.f[n]
            if o.cls == "fake":
                # modelled object of code outside the repository: other attributes are opaque
                v = U("attr", U("base", o.f.get("__name__", "fake")), n)
                o.f[n] = v
                return v
            if n == "__class__":
                return o.cls
            if n == "__dict__":
                return o.f
            if isinstance(o.cls, Class):
                m = o.cls.lookup(n)
                if m is None and n.startswith("__") and not n.endswith("__"):
                    m = o.cls.lookup(n)
                if m is not None:
                    return self.bind(m, o, o.cls)
                if n == "_replace" or n == "_asdict":
                    return Native(n, lambda it, a, k: self.nt_method(o, n, k))
                g = o.cls.lookup("__getattr__")
                if g is not None:
                    return self.call(Bound(g, o), [n])
                ext = [b for b in o.cls.has_ext_base() if isinstance(b, U)]
                if ext and not o.cls.namedtuple and not getattr(o.cls, "enum", False) and not all(b.path.split(".")[-1] in ("ABC", "object", "Protocol", "NamedTuple", "Generic") for b in ext):
                    h = self.hooks.get(("selfattr", n))
                    v = h(self, o) if h else NotImplemented
                    if v is NotImplemented:
                        v = U("attr", U("base", repr(o), ext[0].path), n)
                        o.f[n] = v
                    return v
            raise self.exc("AttributeError", "%r has no attribute %s" % (o, n))
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro() if isinstance(o.obj, Obj) else o.obj.mro()
            for c in mro[mro.index(o.cls) + 1 :]:
                if n in c.d:
                    return self.bind(c.d[n], o.obj, c)
            if n == "__init__":
                return Native("object.__init__", lambda it, a, k: it.event("super-init", o.obj, a, k))
            ext = [b for b in o.cls.has_ext_base() if isinstance(b, U)]
            if ext:
                return U("attr", U("base", repr(o.obj), ext[0].path), n)
            raise self.exc("AttributeError", "super: " + n)
        if isinstance(o, Class):
            m = o.lookup(n)
            if m is not None:
                if isinstance(m, Static):
                    return m.f
                if isinstance(m, ClsM):
                    return Bound(m.f, o)
                return m
            if n == "__name__":
                return o.name
            if n == "__doc__":
                return ""
            if n == "_fields" and o.fields is not None:
                return tuple(o.fields)
            if n.startswith("_" + o.name + "__"):
                return self.getattr_(o, n[len(o.name) + 1 :])
            raise self.exc("AttributeError", "%s.%s" % (o.name, n))
        if isinstance(o, (Func, Static)):
            g = o.f if isinstance(o, Static) else o
            if n in g.attrs:
                return g.attrs[n]
            if n == "__name__":
                return g.name
            if n == "__doc__":
                return ""
            raise self.exc("AttributeError", n)
        if isinstance(o, ExcVal):
            if n == "args":
                return tuple(o.args)
            if n in ("__cause__", "__context__", "__traceback__"):
                return U("attr", U("exc", repr(o)), n)
            return U("attr", U("exc", repr(o)), n)
        if isinstance(o, ExcType) and n in ("__name__", "__qualname__") and o.n != "?":
            return o.n
        if isinstance(o, Native) and o.name + "." + n in self.over:
            return self.over[o.name + "." + n]
        r = pynp.attr(self, o, n)
        if r is NotImplemented:
            import numpy

            ty = {pynp.A: numpy.ndarray, int: numpy.int64, float: numpy.float64, bool: numpy.bool_}.get(type(o), type(o))
            if hasattr(ty, n) or isinstance(o, T) or type(o).__module__.startswith("qv."):
                if not isinstance(o, pynp.A) or hasattr(ty, n):
                    raise Undecided("attribute %s of %s not modelled" % (n, type(o).__name__))
            if default is not None:
                return default
            raise self.exc("AttributeError", "%s object has no attribute %s" % (type(o).__name__, n))
        return r

    def nt_method(self, o, n, k):
        if n == "_asdict":
            return dict(o.f)
        r = Obj(o.cls)
        r.f = dict(o.f)
        r.f.update(k)
        return r

    def bind(self, m, o, cls):
        if isinstance(m, Static):
            return m.f
        if isinstance(m, ClsM):
            return Bound(m.f, o.cls if isinstance(o, Obj) else o)
        if isinstance(m, Prop):
            return self.call(Bound(m.fget, o), [])
        if isinstance(m, (Func, Native)):
            return Bound(m, o)
        return m

    def setattr_(self, o, n, v):
        if isinstance(o, Obj):
            m = o.cls.lookup(n) if isinstance(o.cls, Class) else None
            if isinstance(m, Prop):
                if m.fset is None:
                    raise self.exc("AttributeError", "can't set " + n)
                self.call(Bound(m.fset, o), [v])
                return
            o.f[n] = v
            self.event("setattr", o, n, v)
            return
        if isinstance(o, Class):
            o.d[n] = v
            return
        if isinstance(o, Module):
            o.g[n] = v
            self.event("setattr", o, n, v)
            return
        if isinstance(o, Func):
            o.attrs[n] = v
            return
        if isinstance(o, U):
            if o.attrs is None:
                o.attrs = {}
            o.attrs[n] = v
            self.event("setattr", o, n, v)
            return
        from . import pynp

        if isinstance(o, pynp.A):
            return pynp.setattr_(self, o, n, v)
        raise self.exc("AttributeError", "cannot set %s on %s" % (n, type(o).__name__))

    def event(self, kind, *a):
        self.trace.append((kind,) + a + (self.line,))
        return self.trace[-1]

    # ---------------------------------------------------------------- items
    def getitem(self, o, k):
        from . import pynp, pynp2

        if isinstance(o, pynp.A):
            return pynp.getitem(self, o, k)
        if isinstance(o, (list, tuple, str, bytes, range)):
            if isinstance(k, SliceV):
                return o[k.conc()]
            k = pynp.toint(self, k)
            if isinstance(k, (T, U)):
                raise Undecided("abstract index")
            try:
                return o[k]
            except IndexError:
                raise self.exc("IndexError", "index %s of %d" % (k, len(o)))
            except TypeError:
                raise self.exc("TypeError", "index type")
        if isinstance(o, dict):
            k = self.hk(k)
            for kk in (k,):
                try:
                    if kk in o:
                        return o[kk]
                except TypeError:
                    raise self.exc("TypeError", "unhashable key")
            r = self.struct_key(o, k)
            if r is not None:
                return o[r]
            if isinstance(o, DefaultDict) and o.factory is not None:
                v = self.call(o.factory, [])
                if not o.nostore:
                    o[k] = v
                return v
            raise self.exc("KeyError", k)
        if isinstance(o, Obj) and o.cls == "fake" and "__getitem__" in o.f:
            return self.call(o.f["__getitem__"], [k])
        if isinstance(o, Obj) and isinstance(o.cls, Class):
            m = o.cls.lookup("__getitem__")
            if m:
                return self.call(Bound(m, o), [k])
            if o.cls.namedtuple:
                vals = [o.f[n] for n in o.cls.fields]
                return vals[k.conc() if isinstance(k, SliceV) else k]
        if isinstance(o, U):
            h = self.hooks.get(("item", o.path))
            if h:
                return h(self, o, k)
            key = ("[]", self.hk(k) if not isinstance(k, SliceV) else repr(k.__dict__))
            if o.attrs is None:
                o.attrs = {}
            try:
                if key not in o.attrs:
                    o.attrs[key] = U("item", o, k)
                return o.attrs[key]
            except TypeError:
                return U("item", o, k)
        if isinstance(o, Class) and getattr(o, "enum", False):
            r = o.d.get(k) if isinstance(k, str) else None
            if isinstance(r, Obj) and r.cls is o:
                return r
            raise self.exc("KeyError", k)
        if isinstance(o, pynp2.RC):
            return o.item(self, k)
        if isinstance(o, (Class, ExcType, Native)) or o in (list, dict, tuple, set):
            return o  # generic alias
        raise self.exc("TypeError", "%s is not subscriptable" % type(o).__name__)

    def hk(self, k):
        from . import pynp

        k = pynp.toint(self, k)
        return k

    def struct_key(self, d, k):
        """structurally equal key (named tuples, frozen dataclasses)"""
        if isinstance(k, Obj) and (k._k() is not None or isinstance(k.cls, Class) and k.cls.lookup("__eq__") and k.cls.lookup("__hash__")):
            for kk in d:
                if isinstance(kk, Obj) and kk.cls is k.cls and self.eq(kk, k) is True:
                    return kk
        if isinstance(k, tuple):
            for kk in d:
                if isinstance(kk, tuple) and len(kk) == len(k) and self.eq(kk, k) is True:
                    return kk
        return None

    def setitem(self, o, k, v):
        from . import pynp

        if isinstance(o, pynp.A):
            return pynp.setitem(self, o, k, v)
        if isinstance(o, list):
            if isinstance(k, SliceV):
                o[k.conc()] = list(self.iter(v))
                return
            k = pynp.toint(self, k)
            if isinstance(k, (T, U)):
                raise Undecided("abstract index")
            if not (-len(o) <= k < len(o)):
                raise self.exc("IndexError", "assignment index %s of %d" % (k, len(o)))
            o[k] = v
            return
        if isinstance(o, dict):
            k = self.hk(k)
            r = self.struct_key(o, k)
            try:
                o[k if r is None else r] = v
            except TypeError:
                raise self.exc("TypeError", "unhashable key")
            return
        if isinstance(o, Obj) and isinstance(o.cls, Class) and o.cls.lookup("__setitem__"):
            return self.call(Bound(o.cls.lookup("__setitem__"), o), [k, v])
        if isinstance(o, Obj) and "__setitem__" in o.f:
            return self.call(o.f["__setitem__"], [k, v])
        if isinstance(o, U):
            if o.attrs is None:
                o.attrs = {}
            try:
                o.attrs[("[]", self.hk(k) if not isinstance(k, SliceV) else repr(k.__dict__))] = v
            except TypeError:
                pass
            self.event("setitem", o, k, v)
            return
        raise self.exc("TypeError", "item assignment on %s" % type(o).__name__)

    def iter(self, v):
        from . import pynp

        if isinstance(v, (list, tuple, str, range, bytes)):
            return v
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (set, frozenset)) and self.salt is not None and not all(isinstance(x, int) for x in v):
            # the order of texts and objects in a set depends on the session
            import hashlib

            return sorted(v, key=lambda x: hashlib.md5(("%s|%s" % (self.salt, x if isinstance(x, (str, tuple, float)) else id(x))).encode()).hexdigest())
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=lambda x: (str(type(x)), x if isinstance(x, (int, str, float)) else repr(x)))
        if isinstance(v, pynp.A):
            return pynp.iterate(self, v)
        if isinstance(v, GenCall):
            out = []
            self.run_gen(v, lambda x: out.append(x))
            return out
        if isinstance(v, Obj) and isinstance(v.cls, Class):
            m = v.cls.lookup("__iter__")
            if m:
                return self.iter(self.call(Bound(m, v), []))
            if v.cls.namedtuple:
                return [v.f[n] for n in v.cls.fields]
        if isinstance(v, Class) and getattr(v, "enum", False):
            return [x for x in v.d.values() if isinstance(x, Obj) and x.cls is v]
        if isinstance(v, pynp.Iter):
            return v.take(self)
        if isinstance(v, U):
            h = self.hooks.get(("iter", v.path))
            if h:
                return h(self, v)
            raise Undecided("iteration over %r" % v)
        raise self.exc("TypeError", "%s is not iterable" % type(v).__name__)

    # ----------------------------------------------------------- expressions
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("step limit")
        if hasattr(e, "lineno"):
            self.line = e.lineno
        return getattr(self, "e_" + type(e).__name__, self.e_unknown)(e, fr)

    def e_unknown(self, e, fr):
        raise Undecided("expression %s" % type(e).__name__)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        n = e.attr
        return self.getattr_(o, n)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev(e.slice, fr))

    def e_Slice(self, e, fr):
        from . import pynp

        g = lambda x: pynp.toint(self, self.ev(x, fr)) if x is not None else None
        return SliceV(g(e.lower), g(e.upper), g(e.step))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iter(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)
                if isinstance(src, dict):
                    d.update(src)
                else:
                    raise Undecided("** of an opaque mapping")
            else:
                self.setitem(d, self.ev(k, fr), self.ev(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        out = ""
        for v in e.values:
            x = self.ev(v, fr)
            out += x
        return out

    def e_FormattedValue(self, e, fr):
        v = self.ev(e.value, fr)
        spec = self.ev(e.format_spec, fr) if e.format_spec else ""
        return self.fmt(v, spec, e.conversion)

    def fmt(self, v, spec="", conv=-1):
        from . import pynp

        if isinstance(v, pynp.A) and pynp.els(v).ndim == 0:
            v = pynp.scalar_of(v)
        if conv == 114 or conv == 97:
            return self.pyrepr(v)
        if isinstance(v, (int, float, str, bool)) or v is None:
            return format(v, spec)
        return self.pystr(v)

    def pystr(self, v):
        from . import pynp

        if isinstance(v, str):
            return v
        if isinstance(v, pynp.A) and pynp.els(v).ndim == 0:
            return str(pynp.scalar_of(v))
        if isinstance(v, Obj) and isinstance(v.cls, Class) and v.cls.lookup("__str__"):
            return self.call(Bound(v.cls.lookup("__str__"), v), [])
        if isinstance(v, Obj) and isinstance(v.cls, Class) and v.cls.lookup("__repr__"):
            return self.call(Bound(v.cls.lookup("__repr__"), v), [])
        if isinstance(v, Obj) and "__str__" in v.f and not isinstance(v.cls, Class):
            return self.call(v.f["__str__"], [])
        if isinstance(v, ExcVal) and v.cls != "?":
            return self.pystr(v.args[0]) if len(v.args) == 1 else self.pystr(tuple(v.args)) if v.args else ""
        if isinstance(v, (T, U, Obj)):
            return "\u00ab%s\u00bb" % (v if not isinstance(v, U) else v.path)
        if isinstance(v, (list, tuple)):
            return type(v)(self.pystr(x) if not isinstance(x, str) else x for x in v).__repr__()
        return str(v)

    def pyrepr(self, v):
        if isinstance(v, Obj) and isinstance(v.cls, Class) and v.cls.lookup("__repr__"):
            return self.call(Bound(v.cls.lookup("__repr__"), v), [])
        return repr(v) if isinstance(v, (str, int, float, list, tuple, dict)) else self.pystr(v)

    def e_BoolOp(self, e, fr):
        r = None
        for i, x in enumerate(e.values):
            r = self.ev(x, fr)
            if i == len(e.values) - 1:
                return r
            t = self.truth(r)
            if isinstance(e.op, ast.And) and not t:
                return r if not isinstance(r, (T, U)) else False
            if isinstance(e.op, ast.Or) and t:
                return r if not isinstance(r, T) else True
        return r

    def e_UnaryOp(self, e, fr):
        from . import pynp

        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, T):
                return tm.lnot(v)
            return not self.truth(v)
        if isinstance(v, pynp.A):
            return pynp.unary(self, type(e.op).__name__, v)
        if isinstance(v, U):
            return U("op", type(e.op).__name__, v)
        if isinstance(e.op, ast.USub):
            return tm.neg(v) if isinstance(v, T) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return tm.lnot(v) if isinstance(v, T) else ~v
        raise Undecided("unary")

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op).__name__, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        from . import pynp

        if isinstance(a, pynp.A) or isinstance(b, pynp.A):
            if isinstance(a, U) or isinstance(b, U):
                return U("op", op, a, b)
            return pynp.binary(self, op, a, b)
        if isinstance(a, Obj) and isinstance(a.cls, Class):
            m = a.cls.lookup({"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "BitOr": "__or__", "BitAnd": "__and__", "MatMult": "__matmul__"}.get(op, "?"))
            if m:
                return self.call(Bound(m, a), [b])
        if isinstance(a, (U, Obj, Class, ExcType, Native)) or isinstance(b, (U, Obj, Class, ExcType, Native)):
            if op == "Div" and isinstance(a, U):
                h = self.hooks.get(("div", "path"))
                if h:
                    r = h(self, a, b)
                    if r is not NotImplemented:
                        return r
            return U("op", op, a, b)
        return scal(self, op, a, b)

    def e_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(r, fr)
            c = self.compare(type(op).__name__, l, r)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            l = r
        return res

    def eq(self, a, b):
        """True/False or an abstract condition"""
        from . import pynp

        if isinstance(a, pynp.A) and pynp.els(a).ndim == 0:
            a = pynp.scalar_of(a)
        if isinstance(b, pynp.A) and pynp.els(b).ndim == 0:
            b = pynp.scalar_of(b)
        if a is b:
            return True
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)):
                return tm.cmp("==", a, b)
            return False
        if isinstance(a, pynp.DT) or isinstance(b, pynp.DT):
            return pynp.dt_of(a) == pynp.dt_of(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) != type(b) or len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                c = self.eq(x, y)
                if c is False:
                    return False
                if c is not True:
                    r = c if r is True else tm.land(r, c)
            return r
        if isinstance(a, Obj) or isinstance(b, Obj):
            o, p = (a, b) if isinstance(a, Obj) else (b, a)
            if isinstance(o.cls, Class):
                m = o.cls.lookup("__eq__")
                if m:
                    return self.call(Bound(m, o), [p])
                if o.cls.namedtuple and isinstance(p, tuple):
                    return self.eq(tuple(o.f.get(n) for n in o.cls.fields), p)
                if o.cls.fields is not None and isinstance(p, Obj) and p.cls is o.cls:
                    return self.eq([o.f.get(n) for n in o.cls.fields], [p.f.get(n) for n in o.cls.fields])
            return False
        if isinstance(a, U) or isinstance(b, U):
            if a is None or b is None:
                return False
            u, v = (a, b) if isinstance(a, U) else (b, a)
            if isinstance(v, U):
                if u.key[0] == "ext" and v.key[0] == "ext":
                    return u.path == v.path
                if u.path == v.path and u.n == v.n:
                    return True
                x, y = sorted([(u.path, u.n), (v.path, v.n)])
                return T("==u", x[0], x[1], y[0], y[1])
            return T("==u", u.path, u.n, repr(v)[:200])
        try:
            return bool(a == b)
        except Exception:
            return False

    def compare(self, op, a, b):
        from . import pynp

        if op in ("Is", "IsNot"):
            if isinstance(a, U) and isinstance(b, U) and a.key[0] == "ext" and b.key[0] == "ext":
                r = a.path == b.path
            elif isinstance(a, pynp.DT) and isinstance(b, pynp.DT):
                r = a == b
            elif isinstance(a, ExcType) and isinstance(b, ExcType):
                if "?" in (a.n, b.n):
                    raise Undecided("type of an exception raised outside the repository")
                r = a.n == b.n
            elif isinstance(a, bool) or isinstance(b, bool):
                if isinstance(a, (T, U)) or isinstance(b, (T, U)):
                    r = self.eq(a, b)
                else:
                    r = type(a) is type(b) and a == b
            else:
                if (isinstance(a, U) and b is None and a.key[0] in ("maybe",)) or (isinstance(b, U) and a is None and b.key[0] == "maybe"):
                    u = a if isinstance(a, U) else b
                    r = self.decide(T("is-none", u.path, u.n))
                else:
                    r = a is b or (isinstance(a, (int, str)) and type(a) is type(b) and a == b)
            return r if op == "Is" else (tm.lnot(r) if isinstance(r, T) else not r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else (tm.lnot(r) if isinstance(r, T) else not r)
        if isinstance(a, pynp.A) or isinstance(b, pynp.A):
            if not (isinstance(a, (U, Obj, str)) or isinstance(b, (U, Obj, str)) or a is None or b is None):
                return pynp.binary(self, op, a, b)
        if op in ("Eq", "NotEq"):
            r = self.eq(a, b)
            return r if op == "Eq" else (tm.lnot(r) if isinstance(r, T) else not r)
        REV = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}
        for x, y, o in ((a, b, op), (b, a, REV[op])):
            if isinstance(x, Obj) and isinstance(x.cls, Class):
                m = x.cls.lookup({"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[o])
                if m:
                    return self.call(Bound(m, x), [y])
        if isinstance(a, Obj) or isinstance(b, Obj):
            if all(isinstance(x, (tuple, list)) or isinstance(x, Obj) and getattr(x.cls, "namedtuple", False) for x in (a, b)):
                return self.compare(op, tuple(self.iter(a)), tuple(self.iter(b)))
            if any(isinstance(x, Obj) and (not isinstance(x.cls, Class) or x.cls.fields is not None or x.cls.has_ext_base()) for x in (a, b)):
                raise Undecided("ordering of objects")
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, (U,)) or isinstance(b, (U,)):
            return T("cmpu", op, _k(a), _k(b))
        if isinstance(a, T) or isinstance(b, T):
            return tm.cmp({"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op], a, b)
        if isinstance(a, (list, tuple)) and any(isinstance(x, (T, U)) for x in list(a) + list(b)):
            raise Undecided("ordering of abstract sequences")
        try:
            return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
        except TypeError:
            raise self.exc("TypeError", "unorderable %s %s" % (type(a).__name__, type(b).__name__))

    def contains(self, c, x):
        from . import pynp

        x0 = x
        if isinstance(x, pynp.A) and pynp.els(x).ndim == 0:
            x = pynp.scalar_of(x)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Undecided("abstract string membership")
        if isinstance(c, dict):
            try:
                if x in c:
                    return True
            except TypeError:
                return False
            if self.struct_key(c, x) is not None:
                return True
            if isinstance(x, (T, U)):
                c = list(c)
            else:
                return False
        if isinstance(c, pynp.A):
            c = list(pynp.els(c).ravel())
        if isinstance(c, U):
            return T("in", _k(x), c.path, c.n)
        if isinstance(c, range) and isinstance(x, int):
            return x in c
        if isinstance(c, Obj) and isinstance(c.cls, Class) and c.cls.lookup("__contains__"):
            return self.call(Bound(c.cls.lookup("__contains__"), c), [x0])
        for y in self.iter(c):
            if self.truth(self.eq(y, x)):
                return True
        return False

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.setname(e.target.id, v, fr)
        return v

    def comp(self, gens, fr, leaf):
        def go(i, f):
            if i == len(gens):
                return leaf(f)
            g = gens[i]
            for v in self.iter(self.ev(g.iter, f)):
                self.assign(g.target, v, f)
                if all(self.truth(self.ev(c, f)) for c in g.ifs):
                    go(i + 1, f)

        f = Frame(fr, fr.mod)
        go(0, f)

    def e_ListComp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.ev(e.elt, f)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        return set(self.e_ListComp(e, fr))

    def e_DictComp(self, e, fr):
        d = {}
        self.comp(e.generators, fr, lambda f: self.setitem(d, self.ev(e.key, f), self.ev(e.value, f)))
        return d

    def e_Yield(self, e, fr):
        if not self.yields:
            raise Undecided("yield outside a driven generator")
        v = self.ev(e.value, fr) if e.value else None
        h = self.yields.pop()
        try:
            return h(v)
        finally:
            self.yields.append(h)

    def e_YieldFrom(self, e, fr):
        for v in self.iter(self.ev(e.value, fr)):
            self.yields[-1](v)

    def e_Await(self, e, fr):
        raise Undecided("await")

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and f.func is None:
                f = f.parent
            cls = f.func.cls
            a0 = f.func.node.args.args[0].arg
            return SuperV(cls, f.v[a0])
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            return dict(fr.v if e.func.id != "globals" else fr.mod.g)
        f = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if not isinstance(v, dict):
                    if isinstance(v, U):
                        kw["**"] = v
                        continue
                    raise Undecided("** of an opaque mapping")
                kw.update(v)
            else:
                kw[k.arg] = v
        self.line = e.lineno
        return self.call(f, args, kw)

    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Static):
            f = f.f
        if isinstance(f, Bound):
            args = [f.o] + args
            f = f.f
            if isinstance(f, (Static,)):
                f, args = f.f, args[1:]
        if isinstance(f, Func):
            h = self.hooks.get(f.q)
            if h:
                r = h(self, args, kw)
                if r is not NotImplemented:
                    return r
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcType):
            return ExcVal(f.n, tuple(args))
        if isinstance(f, Obj) and isinstance(f.cls, Class):
            m = f.cls.lookup("__call__")
            if m:
                return self.call(Bound(m, f), args, kw)
            raise self.exc("TypeError", "%r is not callable" % f)
        if isinstance(f, U):
            p = f.path
            h = self.hooks.get(p)
            if h is None and f.key[0] == "attr":
                h = self.hooks.get("*." + f.key[2])
                if h is not None:
                    r = h(self, f.key[1], args, kw)
                    if r is not NotImplemented:
                        return r
                    h = None
            if h is not None:
                r = h(self, args, kw)
                if r is not NotImplemented:
                    return r
            res = U("res", f, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])))
            ev = self.event("call", f, args, kw, res)
            if self.may_raise and self.may_raise(ev) and not self.decide(T("returns", p, len(self.trace))):
                raise PyRaise(ExcVal("?", (p,)), self.line, self.file)
            return res
        from . import pynp

        if isinstance(f, pynp.DT):
            return pynp.dt_call(self, f, args, kw)
        raise self.exc("TypeError", "%s is not callable" % type(f).__name__)

    def instantiate(self, c, args, kw):
        h = self.hooks.get(c.mod.name + "." + c.name)
        if h:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        if getattr(c, "enum", False) and len(args) == 1:
            for x in c.d.values():
                if isinstance(x, Obj) and x.cls is c and self.eq(x.f["value"], args[0]) is True:
                    return x
            raise self.exc("ValueError", "enum value")
        o = Obj(c)
        new = c.lookup("__new__")
        if new and not c.namedtuple:
            raise Undecided("__new__")
        init = c.lookup("__init__")
        if init:
            self.call(Bound(init, o), args, kw)
        elif c.fields is not None:
            names = list(c.fields)
            if len(args) > len(names):
                raise self.exc("TypeError", "too many arguments for %s" % c.name)
            for n, v in zip(names, args):
                o.f[n] = v
            for n, v in kw.items():
                if n not in names or n in names[: len(args)]:
                    raise self.exc("TypeError", "unexpected argument %s of %s" % (n, c.name))
                o.f[n] = v
            for n in names:
                if n not in o.f:
                    d = c.lookup(n)
                    if d is None:
                        raise self.exc("TypeError", "missing argument %s of %s" % (n, c.name))
                    if isinstance(d, U) and d.path.endswith("field()"):
                        k = dict(d.key[3])
                        d = self.call(k["default_factory"], []) if "default_factory" in k else k.get("default")
                    elif isinstance(d, (list, dict)):
                        d = d.copy()
                    o.f[n] = d
            pi = c.lookup("__post_init__")
            if pi:
                self.call(Bound(pi, o), [])
        else:
            ext = [b for b in c.has_ext_base() if isinstance(b, U) and b.path.split(".")[-1] not in ("ABC", "object", "Protocol", "Generic")]
            if ext or any(isinstance(b, ExcType) for b in c.has_ext_base()):
                o.f["__args__"] = (tuple(args), dict(kw))
            elif args or kw:
                raise self.exc("TypeError", "%s() takes no arguments" % c.name)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        v = {}
        if len(args) > len(pos):
            if a.vararg is None:
                raise self.exc("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(args)))
            v[a.vararg.arg] = tuple(args[len(pos) :])
        elif a.vararg is not None:
            v[a.vararg.arg] = ()
        for n, x in zip(pos, args):
            v[n] = x
        extra = {}
        kwn = {x.arg for x in a.kwonlyargs}
        for n, x in kw.items():
            if n in pos and n not in {p.arg for p in a.posonlyargs}:
                if n in v:
                    raise self.exc("TypeError", "%s() got multiple values for argument %s" % (f.name, n))
                v[n] = x
            elif n in kwn:
                v[n] = x
            elif a.kwarg is not None:
                extra[n] = x
            else:
                raise self.exc("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, n))
        if a.kwarg is not None:
            v[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in v:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise self.exc("TypeError", "%s() missing argument %s" % (f.name, n))
                v[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in v:
                if x.arg in f.kwdefaults:
                    v[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise self.exc("TypeError", "%s() missing keyword argument %s" % (f.name, x.arg))
        return v

    def call_func(self, f, args, kw):
        self.called.add(f)
        v = self.bind_args(f, args, kw)
        fr = Frame(f.frame if f.frame is not None and f.frame.v is not f.mod.g else None, f.mod, f)
        fr.v = v
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, fr)
        if f.isgen:
            g = GenCall(f, fr)
            if f.attrs.get("contextmanager"):
                return g
            return g
        self.depth += 1
        if self.depth > 200:
            raise Undecided("recursion depth")
        sl = self.line, self.file
        self.file = f.mod.file
        try:
            self.block(f.node.body, fr)
        except _Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.line, self.file = sl
        return None

    def run_gen(self, g, on_yield):
        if g.done:
            return
        g.done = True
        sl = self.line, self.file
        self.file = g.f.mod.file
        self.yields.append(on_yield)
        try:
            self.block(g.f.node.body, g.fr)
        except _Ret:
            pass
        finally:
            self.yields.pop()
            self.line, self.file = sl


class SuppressV:
    """contextlib.suppress"""

    def __init__(self, types):
        self.types = types


class NullCtx:
    """contextlib.nullcontext"""

    def __init__(self, v):
        self.v = v


class GenCall:
    def __init__(self, f, fr):
        self.f, self.fr, self.done = f, fr, False


class DefaultDict(dict):
    factory = None
    nostore = False


def _k(x):
    if isinstance(x, U):
        return "%s#%d" % (x.path, x.n)
    if isinstance(x, T):
        return x
    return repr(x)[:200]


def _has_yield(s):
    st = list(s.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def scal(it, op, a, b):
    """binary operation on scalars (numbers / terms / python values)"""
    if isinstance(a, T) or isinstance(b, T):
        if not (isinstance(a, (T, int, float)) and isinstance(b, (T, int, float))):
            if a is None or b is None or isinstance(a, (str, list, tuple, dict)) or isinstance(b, (str, list, tuple, dict)):
                if op == "Mult" and isinstance(a, (list, str, tuple)):
                    raise Undecided("sequence of abstract length")
                raise it.exc("TypeError", "operand types of %s" % op)
            raise Undecided("operands of %s" % op)
        if op == "Add":
            return tm.add(a, b)
        if op == "Sub":
            return tm.sub(a, b)
        if op == "Mult":
            return tm.mul(a, b)
        if op == "Div":
            return tm.div(a, b)
        if op == "FloorDiv":
            return T("floor", tm.div(a, b))
        if op == "Mod":
            return tm.sub(a, tm.mul(b, T("floor", tm.div(a, b))))
        if op == "Pow":
            if isinstance(b, int):
                return tm.powi(a, b)
            return T("pow", a, b)
        if op == "BitAnd":
            return tm.land(a, b)
        if op == "BitOr":
            return tm.lor(a, b)
        raise Undecided("operator %s on abstract numbers" % op)
    try:
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and b != 0 and a % b == 0:
                return float(a // b)
            return a / b
        if op == "FloorDiv":
            return a // b
        if op == "Mod":
            return a % b
        if op == "Pow":
            return a**b
        if op == "BitAnd":
            return a & b
        if op == "BitOr":
            return a | b
        if op == "BitXor":
            return a ^ b
        if op == "LShift":
            return a << b
        if op == "RShift":
            return a >> b
    except ZeroDivisionError:
        raise it.exc("ZeroDivisionError")
    except TypeError:
        if op == "BitOr" and all(isinstance(x, (Class, Native, ExcType)) or type(x).__name__ == "DT" or x is None for x in (a, b)):
            return U("op", op, a, b)  # union of types
        raise it.exc("TypeError", "operand types of %s: %s, %s" % (op, type(a).__name__, type(b).__name__))
    raise Undecided("operator " + op)
