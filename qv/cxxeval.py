"""Abstract evaluator over the resolved C++ program.

Domain: constants for control data, value terms (qv.terms.T) for unknown numbers,
abstract objects for records/containers.  A branch on an unknown condition is
followed on both sides (the evaluation is restarted with the other decision);
paths are never handed to a solver.  Anything the evaluator does not understand
raises Undecided, which makes the enclosing obligation undecided, never violated.
"""
import re
from fractions import Fraction
from . import terms as tm
from .terms import T, isnum
from .cxxprog import AnalysisBroken


class Undecided(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class CxxThrow(Exception):
    def __init__(self, val, line=0):
        self.val, self.line = val, line


class Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = Undef()
HARD = Undef()  # scalars and arrays of them declared without an initialiser


def harden(v):
    if v is UNDEF:
        return HARD
    if isinstance(v, Arr) and v.kind in ("array", "carr"):
        v.d[:] = [harden(x) for x in v.d]
    return v


def undef(*a):
    """a value nobody has set is used: certain for local variables, for the types of other libraries it depends on their constructors"""
    if any(x is HARD for x in a):
        return Oob("an uninitialised variable is read")
    return Undecided("read of an uninitialised value")


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=UNDEF):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class Elem:
    __slots__ = ("c", "i")

    def __init__(self, c, i):
        self.c, self.i = c, i

    def get(self):
        return self.c.getat(self.i)

    def set(self, v):
        self.c.setat(self.i, v)


class Field:
    __slots__ = ("o", "n")

    def __init__(self, o, n):
        self.o, self.n = o, n

    def get(self):
        v = self.o.f.get(self.n, UNDEF)
        return v.lv.get() if type(v) is Ref else v

    def set(self, v):
        c = self.o.f.get(self.n)
        if type(c) is Ref:
            c.lv.set(v)
        else:
            self.o.f[self.n] = v


class Ref:
    """member of reference type bound to a scalar"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class Oob(Undecided):
    pass


class Arr:
    """uvector / std::array / std::vector / C array / xarray data"""

    __slots__ = ("d", "cls", "kind", "f", "et")

    def __init__(self, d, kind, cls="", et=""):
        self.d, self.kind, self.cls, self.et = d, kind, cls, et
        self.f = {}

    def getat(self, i):
        if isinstance(i, T):
            raise Undecided("symbolic index")
        if not (0 <= i < len(self.d)):
            raise Oob("index %s out of range 0..%d" % (i, len(self.d)))
        return self.d[i]

    def setat(self, i, v):
        if isinstance(i, T):
            raise Undecided("symbolic index")
        if not (0 <= i < len(self.d)):
            raise Oob("index %s out of range 0..%d" % (i, len(self.d)))
        self.d[i] = v

    def __repr__(self):
        return "%s%s" % (self.kind, self.d)


class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls):
        self.cls, self.f = cls, {}

    def __repr__(self):
        return "Obj(%s,%s)" % (self.cls, list(self.f))


class It:
    """iterator / pointer into an Arr (or span)"""

    __slots__ = ("c", "i", "rev")

    def __init__(self, c, i, rev=False):
        self.c, self.i, self.rev = c, i, rev

    def lv(self):
        return Elem(self.c, self.i - 1 if self.rev else self.i)


class Ptr:
    """pointer/smart pointer to one object (compound value or an lvalue)"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Span:
    __slots__ = ("c", "o", "n")

    def __init__(self, c, o, n):
        self.c, self.o, self.n = c, o, n

    def getat(self, i):
        if isinstance(i, T):
            raise Undecided("symbolic index")
        if not (0 <= i < self.n):
            raise Oob("span index %s out of range 0..%s" % (i, self.n))
        return self.c.getat(self.o + i)

    def setat(self, i, v):
        if isinstance(i, T):
            raise Undecided("symbolic index")
        if not (0 <= i < self.n):
            raise Oob("span index")
        self.c.setat(self.o + i, v)


class Clo:
    __slots__ = ("insts", "frame", "this", "tu", "refs")

    def __init__(self, insts, frame, this, tu):
        self.insts, self.frame, self.this, self.tu = insts, frame, this, tu
        self.refs = []


class BoundM:
    __slots__ = ("obj", "f")

    def __init__(self, obj, f):
        self.obj, self.f = obj, f


def carr(ty):
    """(type of the elements, length) of a C array type"""
    m = re.match(r"^(.*?)((?:\[\d+\])+)$", ty)
    if not m:
        return None
    b = m.group(2)
    k = b.index("]")
    return (m.group(1).strip() + b[k + 1 :], int(b[1:k]))


class ProjectedValue(Exception):
    pass


class View:
    """lazy range: adaptor and the range it adapts"""
    __slots__ = ("k", "c", "snap")

    def __init__(self, k, c):
        self.k, self.c, self.snap = k, c, None


class Map(object):
    """map (key -> (key, value)) or set (key -> (key, key)), ordered or not"""
    __slots__ = ("d", "cls", "ordered", "isset")

    def __init__(self, ty=""):
        self.d = {}
        self.cls = "map"
        self.ordered = "unordered" not in ty
        self.isset = ty.startswith(("std::set", "std::unordered_set"))

    def keys(self):
        if self.ordered and len(self.d) > 1:
            try:
                return sorted(self.d)
            except TypeError:
                raise Undecided("order of the keys of a map")
        return list(self.d)


class Iota:
    def __init__(self, a, b):
        self.a, self.b = a, b


class Opaque:
    """unknown object: member calls give uninterpreted results"""

    __slots__ = ("name", "cls", "key")

    def __init__(self, name, cls=""):
        self.name, self.cls = name, cls

    def __repr__(self):
        return "Opaque(%s)" % (self.name,)


COMPOUND = (Arr, Obj, Map)
SYNC = tuple("std::" + x for x in "mutex shared_mutex recursive_mutex timed_mutex shared_timed_mutex unique_lock shared_lock lock_guard scoped_lock".split())

_INT = re.compile(r"^(const )?(unsigned |signed )?(int|long|short|char|long long|__int128|unsigned|size_t)( int)?$|^(unsigned|signed)( long| char| short| int| long long)?$|^bool$|^(std::)?u?int\d+_t$")


def is_int_type(t):
    return bool(_INT.match(t))


def is_bool_type(t):
    return t in ("bool", "_Bool")


def is_float_type(t):
    return t in ("double", "float", "long double")


def uv_args(cls):
    m = re.match(r"^algoim::uvector<(.*), (\d+)>$", cls)
    return (m.group(1), int(m.group(2))) if m else None


def targs(cls):
    """top-level template arguments of a class name"""
    i = cls.find("<")
    if i < 0:
        return []
    depth, cur, out = 0, "", []
    for ch in cls[i + 1 : cls.rfind(">")]:
        if ch in "<([{":
            depth += 1
        elif ch in ">)]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Frame:
    __slots__ = ("vars", "parent", "this", "tu", "fn")

    def __init__(self, parent, this, tu, fn):
        self.vars, self.parent, self.this, self.tu, self.fn = {}, parent, this, tu, fn

    def find(self, i):
        f = self
        while f is not None:
            c = f.vars.get(i)
            if c is not None:
                return c
            f = f.parent
        return None


class Eval:
    files = {}  # contents written by file streams (set per evaluation)
    uvzero = False  # default-constructed algoim vectors are zero (else: uninitialised)

    def __init__(self, prog, hooks=None, max_steps=400000):
        self.prog = prog
        self.hooks = hooks or {}
        self.decisions = []
        self.taken = []
        self.pc = {}
        self.steps = 0
        self.max_steps = max_steps
        self.events = []
        self.called = set()
        self.depth = 0
        self.nsym = 0
        self.statics = {}
        self.obs_undef = False
        self.on_sync = None
        self.decider = None
        self._symcls = {}

    # ------------------------------------------------------------- utilities
    def copy_ctor(self, cls):
        """the copy constructor the program writes for a class, if any"""
        c = self.prog.__dict__.setdefault("_cpctor", {})
        if cls not in c:
            c[cls] = None
            if cls in self.prog.records and not cls.startswith(("std::", "algoim::")):
                for F in self.prog.funcs.values():
                    if F.cls == cls and self.is_ctor(F) and len(F.params) == 1 and F.body is not None and not F.d.get("defaulted"):
                        if F.params[0].get("ft") == "const %s &" % cls:
                            c[cls] = F
        return c[cls]

    def clone(self, v, memo=None):
        if isinstance(v, Arr):
            a = Arr([self.clone(x, memo) for x in v.d], v.kind, v.cls, v.et)
            a.f = {k: self.clone(x, memo) for k, x in v.f.items()}
            if memo is not None:
                memo[id(v)] = a
            return a
        if isinstance(v, Obj):
            # user-written copies run where they are made: what is cloned here is the same object elsewhere,
            # so pointers to its own members keep pointing to its own members
            if memo is None and self.copy_ctor(v.cls) is not None:
                memo = {}
                o = self.clone(v, memo)
                self.repoint(o, memo)
                return o
            o = Obj(v.cls)
            rf = self.reffields(v.cls)
            o.f = {k: x if k in rf else self.clone(x, memo) for k, x in v.f.items()}
            return o
        if isinstance(v, Map):
            m = Map()
            m.ordered, m.isset = v.ordered, v.isset
            m.d = {k: (self.clone(a), self.clone(b)) for k, (a, b) in v.d.items()}
            return m
        if isinstance(v, MapIt):
            return MapIt(v.m, v.k)
        if isinstance(v, It):
            return It(v.c, v.i, v.rev)
        return v

    def repoint(self, o, memo):
        for k, x in list(o.f.items()):
            if isinstance(x, It) and id(x.c) in memo:
                o.f[k] = It(memo[id(x.c)], x.i, x.rev)
            elif isinstance(x, Obj):
                self.repoint(x, memo)

    def reffields(self, cls):
        """names of the members of reference type: copies of the object share them"""
        c = self.prog.__dict__.setdefault("_reff", {})
        if cls not in c:
            r = self.prog.records.get(cls)
            c[cls] = frozenset(f["n"] for f in r[0]["fields"] if f["ft"].endswith("&")) if r else frozenset()
        return c[cls]

    def assign(self, dst, v):
        """dst lvalue := v (copy semantics)"""
        cur = dst.get()
        if isinstance(cur, Arr) and isinstance(v, Arr) and cur is not v:
            cur.d[:] = [self.clone(x) for x in v.d]
            cur.f = {k: self.clone(x) for k, x in v.f.items()}
            return
        if isinstance(cur, Obj) and isinstance(v, Obj):
            if cur.cls == "tie":
                for x, y in zip(list(cur.f.values()), [self.clone(y) for y in v.f.values()]):
                    if isinstance(x, Ptr):
                        self.assign(x.t, y)
                return
            if cur is not v:
                cur.f = {k: self.clone(x) for k, x in v.f.items()}
                cur.cls = v.cls
            return
        if isinstance(cur, Map) and isinstance(v, Map):
            cur.d = dict(v.d)
            return
        if isinstance(cur, Arr) and cur.kind == "uv" and not isinstance(v, COMPOUND):
            cur.d[:] = [v] * len(cur.d)
            return
        dst.set(self.clone(v))

    def fresh(self, name="u"):
        self.nsym += 1
        return tm.sym("%s!%d" % (name, self.nsym))

    def decide(self, c, where=None):
        if isinstance(c, Undef):
            raise undef(c)
        if not isinstance(c, T):
            if isinstance(c, (Ptr,)):
                return c.t is not None
            if c is None:
                return False
            if isinstance(c, Opaque):
                c = T("truth", repr(c.name))
            else:
                return bool(c)
        pol = True
        while c.op == "not":
            c = c.args[0]
            pol = not pol
            if not isinstance(c, T):
                return bool(c) == pol
        if c.op == "and":
            r = self.decide(c.args[0]) and self.decide(c.args[1])
            return r == pol
        if c.op == "or":
            r = self.decide(c.args[0]) or self.decide(c.args[1])
            return r == pol
        if c in self.pc:
            return self.pc[c] == pol
        d = None
        if self.decider:
            d = self.decider(self, c)
        if d is None and not c.free() and c.op in ("<", "<=", "=="):
            env = tm.Env(K=2)
            v, _ = tm.evalt(c, env)
            d = bool(v[0])
        if d is None:
            k = len(self.taken)
            d = self.decisions[k] if k < len(self.decisions) else True
            self.taken.append(d)
        self.pc[c] = d
        return d == pol

    # --------------------------------------------------------------- defaults
    def default(self, ty, tu=None):
        ty = ty.replace("const ", "") if ty.startswith("const ") else ty
        m = carr(ty)
        if m:
            return Arr([self.default(m[0]) for _ in range(m[1])], "carr", ty, m[0])
        u = uv_args(ty)
        if u:
            if self.uvzero and (is_int_type(u[0]) or is_float_type(u[0])):
                return Arr([0] * u[1], "uv", ty, u[0])
            return Arr([self.default(u[0]) for _ in range(u[1])], "uv", ty, u[0])
        if is_int_type(ty) or is_float_type(ty) or is_bool_type(ty) or ty.startswith("algoim::Interval<"):
            return UNDEF
        if ty.startswith(("std::vector<", "std::deque<", "std::list<")):
            return Arr([], "vec", ty, targs(ty)[0])
        if ty.startswith("std::array<"):
            a = targs(ty)
            return Arr([self.default(a[0]) for _ in range(int(a[1].rstrip("UL")))], "array", ty, a[0])
        if ty.startswith(("std::shared_ptr<", "std::unique_ptr<")) or ty.endswith("*"):
            return None
        if ty.startswith(("std::unordered_map<", "std::map<", "std::set<", "std::unordered_set<")):
            return Map(ty)
        if ty.startswith("std::pair<") or ty.startswith("std::tuple<"):
            a = targs(ty)
            o = Obj(ty)
            for k, x in enumerate(a):
                o.f["first" if k == 0 and ty.startswith("std::pair") else "second" if k == 1 and ty.startswith("std::pair") else str(k)] = self.default(x)
            return o
        if ty.startswith("std::span<"):
            return Span(Arr([], "vec"), 0, 0)
        if ty.startswith("std::optional<"):
            return None
        if ty.startswith("std::function<"):
            return None
        if ty.startswith("std::basic_string<"):
            return ""
        if ty in self.prog.records:
            return self.new_object(ty)
        return UNDEF

    def zero(self, ty):
        v = self.default(ty)

        def z(v, t):
            if isinstance(v, Undef):
                return False if is_bool_type(t) else 0
            if isinstance(v, Arr) and v.kind != "vec":
                v.d = [z(x, v.et) for x in v.d]
            return v

        return z(v, ty)

    def new_object(self, cls):
        if uv_args(cls):
            return self.default(cls)
        base = self.root_uvector(cls)
        if base:
            u = uv_args(base)
            o = Arr([self.default(u[0]) for _ in range(u[1])], "uv", cls, u[0])
        else:
            o = Obj(cls)
        self.init_fields(o, cls)
        return o

    def root_uvector(self, cls):
        r = self._symcls.get(cls)
        if r is not None:
            return r or None
        out = ""
        for b in self.prog.bases(cls):
            if uv_args(b):
                out = b
            else:
                x = self.root_uvector(b)
                if x:
                    out = x
        self._symcls[cls] = out
        return out or None

    def init_fields(self, o, cls):
        rec = self.prog.records.get(cls)
        if not rec:
            return
        r, tu = rec
        for b in r["bases"]:
            if not uv_args(b):
                self.init_fields(o, b)
        for f in r["fields"]:
            if "e" in f and f["e"] is not None:
                fr = Frame(None, o, tu, None)
                o.f[f["n"]] = self.clone(self.ev(f["e"], fr))
            else:
                t = tu.types[f["t"]]
                if f["ft"].endswith("&"):
                    continue
                if o.cls == cls or True:
                    if uv_args(cls) or cls.startswith("algoim::"):
                        continue
                    o.f.setdefault(f["n"], self.default(t))

    # ------------------------------------------------------------------ calls
    def call(self, F, args, this=None, nonvirtual=True):
        """args: list of values or lvalues (for reference parameters)"""
        if F.body is None:
            raise Undecided("no body for " + F.q)
        self.depth += 1
        if self.depth > 80:
            self.depth -= 1
            raise Undecided("recursion too deep in " + F.q)
        self.called.add(F)
        try:
            fr = Frame(None, this, F.tu, F)
            self.bind(F.params, args, fr)
            if F.f["n"] and F.d.get("inits") is not None and self.is_ctor(F):
                self.run_inits(F, fr, this)
            r = self.stmt(F.body, fr)
            if isinstance(r, tuple) and r[0] == "ret":
                v = r[1]
                if not self.fn_rref(F):
                    if hasattr(v, "get") and isinstance(v, (Cell, Elem, Field)):
                        v = v.get()
                    v = self.conv(self.clone(v), F.tu.types[F.d["rt"]] if F.d["rt"] >= 0 else "")
                return v
            return None
        finally:
            self.depth -= 1

    def conv(self, v, ty):
        """implicit converting construction when the static type differs"""
        if uv_args(ty) and not isinstance(v, (Arr, Opaque)) and v is not None:
            n = uv_args(ty)[1]
            return Arr([v for _ in range(n)], "uv", ty, uv_args(ty)[0])
        return v

    def is_ctor(self, F):
        return "inits" in F.d

    def bind(self, params, args, fr):
        for k, p in enumerate(params):
            if k < len(args):
                a = args[k]
            elif "d" in p:
                a = self.ev(p["d"], fr)
            else:
                raise Undecided("missing argument %d" % k)
            if p.get("ref"):
                if isinstance(a, (Cell, Elem, Field)):
                    fr.vars[p["i"]] = a if not isinstance(a.get(), COMPOUND) else Cell(a.get())
                else:
                    fr.vars[p["i"]] = Cell(a)
            else:
                if isinstance(a, (Cell, Elem, Field)):
                    a = a.get()
                fr.vars[p["i"]] = Cell(self.clone(a))

    def run_inits(self, F, fr, this):
        rec = self.prog.records.get(F.cls)
        if not any("del" in i for i in F.inits):
            pass
        for i in F.inits:
            if "m" in i:
                ft = None
                if rec:
                    for f in rec[0]["fields"]:
                        if f["n"] == i["m"]:
                            ft = f
                if ft is not None and ft["ft"].endswith("&"):
                    lv = self.lvany(i["e"], fr)
                    this.f[i["m"]] = self.bound(lv)
                else:
                    v = self.ev(i["e"], fr)
                    if ft is not None:
                        v = self.conv(v, rec[1].types[ft["t"]])
                        if rec[1].types[ft["t"]].endswith("]") and isinstance(v, Undef):
                            v = self.default(rec[1].types[ft["t"]])
                    this.f[i["m"]] = self.clone(v)
            elif "b" in i:
                self.ctor_into(this, i["e"], fr, i["b"])
            elif "del" in i:
                self.ctor_into(this, i["e"], fr, F.cls)

    def bound(self, lv):
        """what a member of reference type bound to lv holds"""
        x = lv.get() if isinstance(lv, (Cell, Elem, Field)) else lv
        return Ref(lv) if isinstance(lv, (Cell, Elem, Field)) and not isinstance(x, COMPOUND) else x

    def ctor_into(self, this, node, fr, cls):
        if node is None:
            return
        if node["k"] == "ctor":
            f = node["f"]
            args = self.args(node["a"], f, fr)
            if uv_args(f["c"]):
                v = self.uv_ctor(f["c"], [self.rv(a) for a in args])
                if isinstance(this, Arr):
                    this.d[:] = v.d
                return
            F = self.prog.lookup(f["m"], fr.tu)
            if F is not None and F.body is not None:
                self.call(F, args, this)
                return
            if len(args) == 1 and (node.get("copy") or node.get("move")):
                src = self.rv(args[0])
                if isinstance(src, Obj) and isinstance(this, Obj):
                    for k, v in src.f.items():
                        this.f[k] = self.clone(v)
                elif isinstance(src, Arr) and isinstance(this, Arr):
                    this.d[:] = [self.clone(x) for x in src.d]
                return
            if not args:
                return
            h = self.hooks.get("ctor:" + re.sub(r"<.*", "", f["c"]))
            if h:
                h(self, this, [self.rv(a) for a in args])
                return
            raise Undecided("no body for constructor " + f["q"])
        v = self.ev(node, fr)
        if isinstance(v, Arr) and isinstance(this, Arr):
            this.d[:] = v.d
        elif isinstance(v, Obj) and isinstance(this, Obj):
            this.f.update(v.f)

    def rv(self, a):
        if isinstance(a, (Cell, Elem, Field)):
            return a.get()
        return a

    def args(self, nodes, f, fr):
        """evaluate arguments as lvalues when possible (callee decides)"""
        return [self.lvany(n, fr) for n in nodes]

    def lvany(self, n, fr):
        k = n["k"] if n else None
        if k in ("ref", "mem", "idx", "gref", "this"):
            return self.lv(n, fr)
        if k == "un" and n["op"] in ("*", "++", "--"):
            return self.lv(n, fr)
        if k in ("ocall", "mcall", "call", "cond"):
            return self.evl(n, fr)
        if k == "bin" and (n["op"] == "=" or n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=")):
            return self.evl(n, fr)
        return self.ev(n, fr)

    # -------------------------------------------------------------- statements
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("step budget exhausted")

    def dtor(self, cls):
        """user-written destructor of a class that does something"""
        c = self.__dict__.setdefault("_dtors", {})
        if cls not in c:
            c[cls] = None
            r = self.prog.records.get(cls)
            for m in r[0]["methods"] if r else ():
                if m["n"].startswith("~"):
                    F = self.prog.lookup(m["m"], r[1]) or self.prog.funcs.get(m["m"])
                    if F and F.body and F.body.get("b"):
                        c[cls] = F
        return c[cls]

    def note_owned(self, s, fr, own):
        for v in s["d"]:
            if v.get("ref") or v.get("static"):
                continue
            ty = fr.tu.types[v["t"]]
            if ty.startswith(("std::unique_ptr<", "const std::unique_ptr<")):
                ty = targs(ty)[0]
            if self.dtor(ty.replace("const ", "")):
                fr.vars.pop(v["i"], None)
                own = own or []
                own.append(v["i"])
        return own

    def destroy(self, own, fr):
        for i in reversed(own):
            c = fr.vars.get(i)
            o = self.rv(c) if c is not None else None
            if isinstance(o, Ptr):
                o = self.rv(o.t)
            F = self.dtor(o.cls) if isinstance(o, Obj) else None
            if F:
                self.call(F, [], o)

    def stmt(self, s, fr):
        if s is None:
            return None
        self.tick()
        k = s["k"]
        if k == "block":
            own = None
            try:
                for x in s["b"]:
                    if x is not None and x["k"] == "decl":
                        own = self.note_owned(x, fr, own)
                        self.stmt(x, fr)
                        continue
                    r = self.stmt(x, fr)
                    if r is not None:
                        return r
            finally:
                if own:
                    self.destroy(own, fr)
            return None
        if k == "expr":
            self.lvany(s["e"], fr)
            return None
        if k == "decl":
            for v in s["d"]:
                self.vardecl(v, fr)
            return None
        if k == "if":
            if s.get("init"):
                self.stmt(s["init"], fr)
            if s.get("cv"):
                self.vardecl(s["cv"], fr)
            if self.decide(self.ev(s["c"], fr), s.get("l")):
                return self.stmt(s["a"], fr)
            return self.stmt(s["b"], fr)
        if k == "ret":
            if s["e"] is None:
                return ("ret", None)
            if fr.fn is not None and self.fn_rref(fr.fn):
                v = self.lvany(s["e"], fr)
            else:
                v = self.ev(s["e"], fr)
            return ("ret", v)
        if k == "for":
            self.stmt(s["init"], fr)
            while s["c"] is None or self.decide(self.ev(s["c"], fr), s.get("l")):
                self.tick()
                r = self.stmt(s["b"], fr)
                if r == "break":
                    break
                if isinstance(r, tuple):
                    return r
                if s["inc"] is not None:
                    self.lvany(s["inc"], fr)
            return None
        if k == "while":
            while self.decide(self.ev(s["c"], fr), s.get("l")):
                self.tick()
                r = self.stmt(s["b"], fr)
                if r == "break":
                    break
                if isinstance(r, tuple):
                    return r
            return None
        if k == "do":
            while True:
                self.tick()
                r = self.stmt(s["b"], fr)
                if r == "break":
                    break
                if isinstance(r, tuple):
                    return r
                if not self.decide(self.ev(s["c"], fr)):
                    break
            return None
        if k == "rfor":
            return self.rfor(s, fr)
        if k == "break":
            return "break"
        if k == "continue":
            return "continue"
        if k == "null":
            return None
        if k == "switch":
            return self.switch(s, fr)
        if k in ("case", "default"):
            return self.stmt(s["b"], fr)
        if k == "try":
            try:
                return self.stmt(s["b"], fr)
            except CxxThrow as e:
                for h in s["h"]:
                    if not self.catches(h.get("t"), e.val):
                        continue
                    if "v" in h:
                        fr.vars[h["v"]["i"]] = Cell(e.val)
                    return self.stmt(h["b"], fr)
                raise
        raise Undecided("statement " + k + " " + str(s.get("w")))

    def catches(self, t, val):
        """does a handler of type t catch val? (an exception of unknown type: the first handler)"""
        if t in (None, "..."):
            return True
        c = val.cls if isinstance(val, Obj) else None
        if c is None:
            return True
        t = re.sub(r"^const |[ &]+$", "", t)
        if t == c or self.prog.derives(c, t):
            return True
        base = {"std::bad_alloc": ("std::exception",), "std::length_error": ("std::logic_error", "std::exception"), "std::out_of_range": ("std::logic_error", "std::exception"),
                "std::invalid_argument": ("std::logic_error", "std::exception"), "std::logic_error": ("std::exception",), "std::runtime_error": ("std::exception",)}
        return t in base.get(c, ())

    def fn_rref(self, fn):
        d = fn if isinstance(fn, dict) else fn.d
        return d.get("rref") or "_Bit_reference" in str(d.get("rft", ""))

    def switch(self, s, fr):
        v = self.ev(s["c"], fr)
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        flat = []

        def unwrap(x):
            labs = []
            while x is not None and x["k"] in ("case", "default"):
                labs.append(x)
                x = x["b"]
            return labs, x

        for x in body:
            flat.append(unwrap(x))
        start = None
        dflt = None
        for i, (labs, x) in enumerate(flat):
            for l in labs:
                if l["k"] == "default":
                    dflt = i
                elif start is None and self.decide(tm.cmp("==", v, self.ev(l["v"], fr))):
                    start = i
        if start is None:
            start = dflt
        if start is None:
            return None
        for labs, x in flat[start:]:
            r = self.stmt(x, fr)
            if r == "break":
                return None
            if r is not None:
                return r
        return None

    def iterate(self, c):
        """sequence of lvalues of a range"""
        if isinstance(c, Arr):
            i = 0
            while i < len(c.d):
                yield Elem(c, i)
                i += 1
            return
        if isinstance(c, Span):
            if isinstance(c.n, T):
                raise Undecided("range of unknown length")
            for i in range(c.n):
                yield Elem(c, i)
            return
        if isinstance(c, Iota):
            if isinstance(c.a, T) or isinstance(c.b, T):
                raise Undecided("range of unknown length")
            for i in range(c.a, c.b):
                yield Cell(i)
            return
        if isinstance(c, Map):
            for k in c.keys():
                yield MapIt(c, k).lv()
            return
        if isinstance(c, View):
            yield from self.view_elems(c)
            return
        if isinstance(c, Obj) and c.cls.startswith("std::ranges::subrange"):
            for x in self.between(c.f["first"], c.f["second"]):
                yield x
            return
        if isinstance(c, Obj):
            b = self.find_method(c.cls, "begin")
            e = self.find_method(c.cls, "end")
            if b and e:
                it = self.call(b, [], c)
                en = self.call(e, [], c)
                n = 0
                if isinstance(it, It):
                    if isinstance(it, MapIt):
                        while it.k != en.k:
                            yield it.lv()
                            it = it.step(1)
                    else:
                        yield from self.between(it, en)
                    return
                while True:
                    ne = self.find_method(it.cls, "operator!=")
                    if ne:
                        go = self.decide(self.call(ne, [en], it))
                    else:
                        eq = self.find_method(it.cls, "operator==")
                        if eq is None:
                            raise Undecided("iterator")
                        go = not self.decide(self.call(eq, [en], it))
                    if not go:
                        return
                    d = self.find_method(it.cls, "operator*")
                    v = self.call(d, [], it)
                    yield v if isinstance(v, (Cell, Elem, Field)) else Cell(v)
                    inc = self.find_method(it.cls, "operator++", 0)
                    self.call(inc, [], it)
                    n += 1
                    if n > 100000:
                        raise Undecided("iteration")
        raise Undecided("range over %r" % (c,))

    def mkview(self, k, src):
        c = src.get() if isinstance(src, (Cell, Elem, Field)) else src
        if k[1] == "then":
            return self.mkview(k[3], self.mkview(k[2], c))
        return View(k, c)

    def view_elems(self, v):
        k = v.k[1]
        l = self.iterate(v.c)
        if k == "filter":
            for x in l:
                if self.decide(self.rv(self.callclo(v.k[2], [x]))):
                    yield x
        elif k == "transform":
            for x in l:
                r = self.callclo(v.k[2], [x])
                yield r if isinstance(r, (Cell, Elem, Field)) else Cell(r)
        elif k in ("take", "drop"):
            l = list(l)
            if isinstance(v.k[2], T):
                raise Undecided("view of unknown length")
            yield from (l[: v.k[2]] if k == "take" else l[v.k[2] :])
        elif k in ("take_while", "drop_while", "takewhile", "dropwhile"):
            go = False
            for x in l:
                go = go or not self.decide(self.rv(self.callclo(v.k[2], [x])))
                if go and k.startswith("take"):
                    return
                if go or k.startswith("take"):
                    yield x
        elif k == "reverse":
            yield from reversed(list(l))
        elif k in ("all", "common"):
            yield from l
        elif k in ("keys", "values"):
            for x in l:
                o = self.rv(x)
                yield Field(o, "first" if k == "keys" else "second")
        elif k == "join":
            for x in l:
                yield from self.iterate(self.rv(x))
        else:
            raise Undecided("view " + k)

    def find_method(self, cls, name, np=None):
        r = self.prog.records.get(cls)
        if r:
            for m in r[0]["methods"]:
                if m["n"] == name and (np is None or m["np"] == np):
                    F = self.prog.lookup(m["m"], r[1]) or self.prog.funcs.get(m["m"])
                    if F:
                        return F
            for b in r[0]["bases"]:
                F = self.find_method(b, name, np)
                if F:
                    return F
        # template members not listed with a mangled name
        for F in self.prog.funcs.values():
            if F.cls == cls and F.f["n"] == name and (np is None or len(F.params) == np):
                return F
        return None

    def rfor(self, s, fr):
        if s.get("init"):
            self.stmt(s["init"], fr)
        c = self.rv(self.lvany(s["r"], fr))
        for lv in self.iterate(c):
            self.tick()
            v = s["v"]
            if v.get("ref"):
                x = lv.get()
                fr.vars[v["i"]] = Cell(x) if isinstance(x, COMPOUND) else lv
            else:
                fr.vars[v["i"]] = Cell(self.clone(lv.get()))
            self.bindings(v, fr)
            r = self.stmt(s["b"], fr)
            if r == "break":
                break
            if isinstance(r, tuple):
                return r
        return None

    def bindings(self, v, fr):
        if "binds" in v:
            x = fr.vars[v["i"]].get()
            names = None
            if isinstance(x, Obj):
                names = list(x.f)
                for (bi, _), n in zip(v["binds"], names):
                    fr.vars[bi] = Field(x, n) if not isinstance(x.f[n], COMPOUND) else Cell(x.f[n])
            elif isinstance(x, Arr):
                for k, (bi, _) in enumerate(v["binds"]):
                    fr.vars[bi] = Elem(x, k)
            else:
                raise Undecided("structured binding")

    def vardecl(self, v, fr):
        ty = fr.tu.types[v["t"]]
        if v.get("static") and v["i"] in self.statics:
            fr.vars[v["i"]] = self.statics[v["i"]]
            return
        e = v.get("e")
        if e is None or (e.get("k") == "ctor" and not e.get("a") and ty.startswith("std::array<")):
            val = harden(self.default(ty))
            fr.vars[v["i"]] = Cell(val)
        elif v.get("ref"):
            lv = self.lvany(e, fr)
            if isinstance(lv, (Cell, Elem, Field)):
                x = lv.get()
                fr.vars[v["i"]] = Cell(x) if isinstance(x, COMPOUND) else lv
            else:
                fr.vars[v["i"]] = Cell(lv)
        else:
            val = self.conv(self.ev(e, fr), ty)
            if isinstance(val, Undef):
                val = self.default(ty)
            fr.vars[v["i"]] = Cell(self.clone(val))
        self.bindings(v, fr)
        if v.get("static"):
            self.statics[v["i"]] = fr.vars[v["i"]]

    # ------------------------------------------------------------- expressions
    def lv(self, n, fr):
        k = n["k"]
        if k == "ref":
            c = fr.find(n["i"])
            if c is None:
                raise Undecided("unbound variable " + n["n"])
            return c
        if k == "this":
            return Ptr(fr.this)
        if k == "mem":
            b = self.rv(self.lvany(n["b"], fr))
            if isinstance(b, Ptr):
                b = self.rv(b.t)
            if isinstance(b, (Obj, Arr)):
                if isinstance(b, Arr) and n["n"] not in b.f:
                    raise Undecided("field %s of %s" % (n["n"], b.kind))
                return Field(b, n["n"])
            if isinstance(b, It):
                o = b.lv().get()
                return Field(o, n["n"])
            h = self.hooks.get("field")
            if h:
                r = h(self, b, n["n"])
                if r is not None:
                    return r
            if isinstance(b, Opaque):
                return Cell(self.opaque_result((b.name, "." + n["n"]), fr.tu.types[n["t"]]))
            raise Undecided("member %s of %r" % (n["n"], b))
        if k == "idx":
            b = self.rv(self.lvany(n["b"], fr))
            i = self.ev(n["i"], fr)
            if isinstance(b, It):
                return Elem(b.c, tm.add(b.i, i))
            if isinstance(b, (Arr, Span)):
                return Elem(b, i)
            raise Undecided("subscript of %r" % (b,))
        if k == "gref":
            return self.gref(n)
        if k == "un":
            if n["op"] == "*":
                p = self.rv(self.lvany(n["e"], fr))
                return self.deref(p)
            if n["op"] in ("++", "--"):
                l = self.lvany(n["e"], fr)
                old = l.get()
                d = 1 if n["op"] == "++" else -1
                if isinstance(old, Undef):
                    raise undef(old)
                if isinstance(old, MapIt):
                    new = old.step(d)
                elif isinstance(old, It):
                    new = It(old.c, old.i + (d if not old.rev else -d), old.rev)
                else:
                    new = self.wrap(tm.add(old, d), fr.tu.types[n["t"]])
                l.set(new)
                return Cell(old) if n.get("post") else l
        v = self.evl(n, fr)
        return v if isinstance(v, (Cell, Elem, Field)) else Cell(v)

    def deref(self, p):
        if isinstance(p, It):
            return p.lv()
        if isinstance(p, Ptr):
            if p.t is None:
                raise Oob("a null pointer is dereferenced")
            return p.t if isinstance(p.t, (Cell, Elem, Field)) else Cell(p.t)
        if isinstance(p, Arr):
            return Elem(p, 0)
        if isinstance(p, Opaque):
            return Cell(Opaque((p.name, "*"), p.cls))
        raise Undecided("dereference of %r" % (p,))

    def gref(self, n):
        key = n["n"]
        if key in self.statics:
            return self.statics[key]
        g = self.prog.globals.get(key)
        if g and "e" in g[0]:
            fr = Frame(None, None, g[1], None)
            c = Cell(self.clone(self.ev(g[0]["e"], fr)))
        else:
            h = self.hooks.get("global:" + key)
            if h is None:
                c = Cell(Opaque(key))
            else:
                c = Cell(h(self))
        self.statics[key] = c
        return c

    def ev(self, n, fr):
        r = self.evl(n, fr)
        if isinstance(r, (Cell, Elem, Field)):
            return r.get()
        return r

    def evl(self, n, fr):
        if n is None:
            return None
        k = n["k"]
        if k == "int" or k == "bool":
            return n["v"]
        if k == "flt":
            return tm.N(float(n["v"]))
        if k in ("ref", "mem", "idx", "gref"):
            return self.lv(n, fr)
        if k == "this":
            return Ptr(fr.this)
        if k == "bin":
            return self.binop(n, fr)
        if k == "un":
            return self.unop(n, fr)
        if k == "cond":
            c = self.ev(n["c"], fr)
            if isinstance(c, T) and n["t"] >= 0 and (is_float_type(fr.tu.types[n["t"]]) or is_int_type(fr.tu.types[n["t"]])):
                pass
            return self.lvany(n["a"], fr) if self.decide(c) else self.lvany(n["b"], fr)
        if k == "cast":
            return self.cast(n, fr)
        if k == "str":
            return n["v"]
        if k == "nullptr":
            return None
        if k == "zero":
            return self.zero(fr.tu.types[n["t"]])
        if k == "ocall":
            return self.ocall(n, fr)
        if k == "mcall":
            return self.mcall(n, fr)
        if k == "call":
            return self.fcall(n, fr)
        if k == "ctor":
            return self.ctor(n, fr)
        if k == "list":
            return self.initlist(n, fr)
        if k == "lambda":
            return self.mklambda(n, fr)
        if k == "fn":
            return ("fn", n["f"], fr.tu)
        if k == "new":
            v = self.ev(n["e"], fr) if n["e"] else self.default(fr.tu.types[n["t"]])
            return Ptr(self.clone(v))
        if k == "delete":
            return None
        if k == "throw":
            raise CxxThrow(None, n.get("l"))
        if k == "mfn":
            return BoundM(self.ev(n["b"], fr), n["f"])
        raise Undecided("expression %s %s" % (k, n.get("w")))

    def cast(self, n, fr):
        v = self.ev(n["e"], fr)
        ck = n["ck"]
        ty = fr.tu.types[n["t"]]
        if ck == "ToVoid":
            return None
        if isinstance(v, Undef):
            if ck in ("IntegralCast", "FloatingCast", "IntegralToFloating", "FloatingToIntegral", "IntegralToBoolean"):
                raise undef(v)
            return v
        if ck == "Dynamic":
            if isinstance(v, Ptr):
                tgt = self.rv(v.t) if v.t is not None else None
                c = getattr(tgt, "cls", None)
                if tgt is None:
                    return Ptr(None)
                if c is None:
                    raise Undecided("dynamic cast")
                to = re.sub(r"^const | ?(const)? ?[*&]+$", "", ty).strip()
                to = re.sub(r"^const ", "", to)
                return v if self.prog.derives(c, to) else Ptr(None)
            if isinstance(v, (Obj, Arr)):
                if not self.prog.derives(v.cls, re.sub(r"^const | ?[*&]+$", "", ty)):
                    raise CxxThrow(Obj("std::bad_cast"), n.get("l", 0))
                return v
            raise Undecided("dynamic cast")
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return tm.cmp("!=", v, 0) if not isinstance(v, bool) else v
        if ck in ("PointerToBoolean",):
            return v is not None and not (isinstance(v, Ptr) and v.t is None)
        if ck == "BooleanToSignedIntegral":
            return v
        if ck == "FloatingToIntegral":
            if isinstance(v, T):
                return tm.T("trunc", v)
            return int(v)
        if ck == "IntegralCast":
            if isinstance(v, bool):
                return int(v) if not is_bool_type(ty) else v
            if isinstance(v, T) and v.op in ("==", "<", "<=", "not", "and", "or"):
                return tm.ite(v, 1, 0)
            ft = fr.tu.types[n["ft"]] if n.get("ft", -1) >= 0 else ""
            return self.wrap(v, ty)
        if ck == "IntegralToFloating":
            if isinstance(v, T) and v.op in ("==", "<", "<=", "not", "and", "or"):
                return tm.ite(v, 1, 0)
            return int(v) if isinstance(v, bool) else v
        return v

    _W = {"int": (-(2**31), 2**31), "unsigned int": (0, 2**32), "unsigned long": (0, 2**64), "long": (-(2**63), 2**63), "signed char": (-128, 128),
          "unsigned char": (0, 256), "short": (-(2**15), 2**15), "unsigned short": (0, 2**16), "char": (-128, 128)}

    def wrap(self, v, ty):
        if isinstance(v, int) and not isinstance(v, bool) and ty in self._W:
            lo, hi = self._W[ty]
            if not (lo <= v < hi):
                return (v - lo) % (hi - lo) + lo
        return v

    @staticmethod
    def _cond(v):
        """The condition a 0/1 valued term stands for, or None."""
        if isinstance(v, (bool, int)):
            return bool(v) if v in (0, 1) else None
        if isinstance(v, T):
            if v.op in ("==", "<", "<=", "not", "and", "or"):
                return v
            if v.op == "ite" and v.args[1:] == (1, 0):
                return v.args[0]
            if v.op == "ite" and v.args[1:] == (0, 1):
                return tm.lnot(v.args[0])
        return None

    def arith(self, op, a, b, ty):
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise undef(a, b)
        if op == "+":
            if isinstance(a, It) or isinstance(b, It):
                it, o = (a, b) if isinstance(a, It) else (b, a)
                return It(it.c, tm.add(it.i, o if not it.rev else tm.neg(o)), it.rev)
            return self.wrap(tm.add(a, b), ty)
        if op == "-":
            if isinstance(a, It) and isinstance(b, It):
                return tm.sub(a.i, b.i) if not a.rev else tm.sub(b.i, a.i)
            if isinstance(a, It):
                return It(a.c, tm.sub(a.i, b if not a.rev else tm.neg(b)), a.rev)
            return self.wrap(tm.sub(a, b), ty)
        if op == "*":
            return self.wrap(tm.mul(a, b), ty)
        if op == "/":
            if is_int_type(ty):
                return tm.idiv(a, b)
            return tm.div(a, b)
        if op == "%":
            return tm.imod(a, b)
        if op in ("<<", ">>", "&", "|", "^"):
            if isinstance(a, T) or isinstance(b, T):
                c, d = (self._cond(a), self._cond(b)) if op in ("&", "|", "^") else (None, None)
                if c is not None and d is not None:
                    r = tm.land(c, d) if op == "&" else tm.lor(c, d) if op == "|" else tm.lor(tm.land(c, tm.lnot(d)), tm.land(tm.lnot(c), d))
                    return r if is_bool_type(ty) else tm.ite(r, 1, 0)
                return T(op, a, b)
            a, b = int(a), int(b)
            r = {"<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()
            return bool(r) if is_bool_type(ty) else self.wrap(r, ty)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.compare(op, a, b)
        raise Undecided("operator " + op)

    def lexless(self, a, b):
        for x, y in zip(a, b):
            if self.decide(self.compare("<", x, y)):
                return True
            if self.decide(self.compare("<", y, x)):
                return False
        return len(a) < len(b)

    def cmp_objects(self, op, a, b):
        """comparison of two values of a class: its own operators, or member by member for pairs and tuples"""
        if a.cls.startswith(("std::pair", "std::tuple")) and b.cls.startswith(("std::pair", "std::tuple")):
            x, y = list(a.f.values()), list(b.f.values())
            if op in ("==", "!="):
                r = len(x) == len(y)
                for u, v in zip(x, y):
                    r = tm.land(r, self.compare("==", u, v))
                return r if op == "==" else tm.lnot(r)
            if op in (">", "<="):
                x, y = y, x
            r = self.lexless(x, y)
            return r if op in ("<", ">") else not r
        for o, neg, sw in ((op, False, False),) + {"!=": (("==", True, False),), ">": (("<", False, True),), "<=": (("<", True, True),), ">=": (("<", True, False),)}.get(op, ()):
            x, y = (b, a) if sw else (a, b)
            m = self.find_method(x.cls, "operator" + o, 1)
            if m is None:
                for F in self.prog.funcs.values():
                    if F.f["n"] == "operator" + o and len(F.params) == 2 and all(F.tu.types[p["t"]] == c for p, c in zip(F.params, (x.cls, y.cls))):
                        m = F
                        break
                r = self.rv(self.call(m, [Cell(x), Cell(y)])) if m else None
            else:
                r = self.rv(self.call(m, [Cell(y)], x))
            if m:
                return tm.lnot(r) if neg else r
        rec = self.prog.records.get(a.cls)
        if rec and a.cls == b.cls and not rec[0]["bases"]:
            names = {m["n"] for m in rec[0]["methods"]}
            x, y = [a.f[f["n"]] for f in rec[0]["fields"]], [b.f[f["n"]] for f in rec[0]["fields"]]
            if op in ("==", "!=") and ("operator==" in names or "operator<=>" in names):
                r = True
                for u, v in zip(x, y):
                    r = tm.land(r, self.compare("==", u, v))
                return r if op == "==" else tm.lnot(r)
            if "operator<=>" in names:
                r = self.lexless(*((x, y) if op in ("<", ">=") else (y, x)))
                return r if op in ("<", ">") else not r
        return None

    def compare(self, op, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise undef(a, b)
        if isinstance(a, MapIt) and isinstance(b, MapIt) and op in ("==", "!="):
            return (a.k == b.k) == (op == "==")
        if isinstance(a, It) and isinstance(b, It):
            a, b = (a.i, b.i) if not a.rev else (b.i, a.i)
            return tm.cmp(op, a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a is not b:
            r = self.cmp_objects(op, a, b)
            if r is not None:
                return r
        ptrish = (Ptr, type(None), Opaque, Obj)
        if isinstance(a, ptrish) or isinstance(b, ptrish):
            ta = a.t if isinstance(a, Ptr) else a
            tb = b.t if isinstance(b, Ptr) else b
            if isinstance(ta, Opaque) and tb is None or isinstance(tb, Opaque) and ta is None:
                return op == "!="
            if op == "==":
                return ta is tb
            if op == "!=":
                return ta is not tb
        if isinstance(a, Arr) and isinstance(b, Arr) and op in ("<", ">", "<=", ">=") and a.kind != "uv":
            x, y = (a, b) if op in ("<", ">=") else (b, a)
            r = self.lexless(x.d, y.d)
            return r if op in ("<", ">") else not r
        if isinstance(a, Arr) and isinstance(b, Arr) and op in ("==", "!="):
            r = len(a.d) == len(b.d)
            if r:
                for x, y in zip(a.d, b.d):
                    r = tm.land(r, self.compare("==", x, y))
            return r if op == "==" else tm.lnot(r)
        if isinstance(a, str) or isinstance(b, str):
            return (a == b) if op == "==" else (a != b)
        if isinstance(a, (Arr, Obj, Span, Clo, BoundM)) or isinstance(b, (Arr, Obj, Span, Clo, BoundM)):
            raise Undecided("comparison of objects")
        return tm.cmp(op, a, b)

    def binop(self, n, fr):
        op = n["op"]
        if op == "&&":
            a = self.ev(n["a"], fr)
            if isinstance(a, T):
                if not self.decide(a):
                    return False
                return self.ev(n["b"], fr)
            return self.ev(n["b"], fr) if self.decide(a) else False
        if op == "||":
            a = self.ev(n["a"], fr)
            return True if self.decide(a) else self.ev(n["b"], fr)
        if op == ",":
            self.lvany(n["a"], fr)
            return self.lvany(n["b"], fr)
        if op == "=":
            v = self.ev(n["b"], fr)
            l = self.lv(n["a"], fr)
            self.assign(l, v)
            return l
        if op[-1] == "=" and op not in ("==", "!=", "<=", ">="):
            l = self.lv(n["a"], fr)
            b = self.ev(n["b"], fr)
            v = self.arith(op[:-1], l.get(), b, fr.tu.types[n["ct"]] if "ct" in n else fr.tu.types[n["t"]])
            if "ct" in n and fr.tu.types[n["t"]] != fr.tu.types[n["ct"]]:
                t = fr.tu.types[n["t"]]
                if is_bool_type(t):
                    v = tm.cmp("!=", v, 0) if not isinstance(v, bool) else v
                elif is_int_type(t) and is_float_type(fr.tu.types[n["ct"]]):
                    v = int(v) if not isinstance(v, T) else tm.T("trunc", v)
                v = self.wrap(v, t)
            l.set(v)
            return l
        a = self.ev(n["a"], fr)
        b = self.ev(n["b"], fr)
        if op == "<=>":
            raise Undecided("spaceship")
        return self.arith(op, a, b, fr.tu.types[n["t"]])

    def unop(self, n, fr):
        op = n["op"]
        if op in ("++", "--", "*"):
            return self.lv(n, fr)
        if op == "&" and n["e"]["k"] == "ref" and "::*" in fr.tu.types[n["t"]]:
            return ("memptr", n["e"]["n"])
        if op == "&":
            l = self.lvany(n["e"], fr)
            v = self.rv(l)
            if isinstance(v, COMPOUND):
                return Ptr(v)
            if isinstance(l, Elem):
                return It(l.c, l.i)
            if isinstance(l, (Cell, Field)):
                return Ptr(l)
            return ("fn", v) if not isinstance(v, tuple) else v
        v = self.ev(n["e"], fr)
        if isinstance(v, Undef):
            raise undef(v)
        if op == "-":
            return self.wrap(tm.neg(v), fr.tu.types[n["t"]])
        if op == "+":
            return v
        if op == "!":
            if isinstance(v, (Ptr, type(None), Opaque)):
                return not self.decide(v)
            return tm.lnot(v)
        if op == "~":
            if isinstance(v, T):
                return T("~", v)
            return ~v
        raise Undecided("unary " + op)

    def mklambda(self, n, fr):
        insts = n["insts"] if n.get("gen") else [n["fn"]]
        f2 = Frame(None, fr.this, fr.tu, None)
        for c in n["caps"]:
            if "i" not in c:
                continue
            if "e" in c:
                f2.vars[c["i"]] = Cell(self.clone(self.ev(c["e"], fr)))
                continue
            src = fr.find(c["i"])
            if src is None:
                continue
            if c.get("ref"):
                f2.vars[c["i"]] = src
            else:
                f2.vars[c["i"]] = Cell(self.clone(src.get()))
        c = Clo(insts, f2, fr.this, fr.tu)
        c.refs = [(k["i"], k.get("n", "")) for k in n["caps"] if "i" in k and k.get("ref")] + (["this"] if any(k.get("this") for k in n["caps"]) else [])
        return c

    def callclo(self, c, args, fid=None):
        if isinstance(c, (Cell, Elem, Field)):
            c = c.get()
        if isinstance(c, Ptr):
            c = self.rv(c.t)
        if isinstance(c, tuple) and c and c[0] == "fn":
            f = c[1]
            F = self.prog.lookup(f["m"], c[2] if len(c) > 2 else None)
            if F:
                return self.call(F, args)
            return self.builtin_call(f, [self.rv(a) for a in args], "", None)
        if isinstance(c, tuple) and c and c[0] == "memptr":
            o = self.rv(args[0])
            o = self.rv(o.t) if isinstance(o, Ptr) else o
            if isinstance(o, Obj):
                return Field(o, c[1])
        if isinstance(c, Obj):
            F = self.find_method(c.cls, "operator()", len(args))
            if F:
                return self.call(F, args, c)
            if c.cls.startswith("std::") and not c.f:
                c = ("op", c.cls.split("<")[0])
        if isinstance(c, tuple) and c and c[0] == "op":
            return self.callop(c, [self.rv(a) for a in args])
        if callable(c):
            return c(self, *args)
        if not isinstance(c, Clo):
            raise Undecided("call of %r" % (c,))
        inst = None
        if fid is not None:
            for d in c.insts:
                if d["f"]["i"] == fid:
                    inst = d
        if inst is None:
            cand = [d for d in c.insts if len(d["p"]) == len(args)]
            if not cand:
                raise Undecided("lambda arity")
            inst = cand[0]
            if len(cand) > 1:
                inst = self.pick_inst(cand, args, c.tu)
        self.depth += 1
        if self.depth > 80:
            raise Undecided("recursion too deep")
        try:
            fr = Frame(c.frame, c.this, c.tu, inst)
            self.bind(inst["p"], args, fr)
            r = self.stmt(inst["b"], fr)
            if isinstance(r, tuple) and r[0] == "ret":
                v = r[1]
                if not inst.get("rref"):
                    v = self.clone(self.rv(v))
                return v
            return None
        finally:
            self.depth -= 1

    def pick_inst(self, cand, args, tu):
        vals = [self.rv(a) for a in args]

        def score(d):
            s = 0
            for p, v in zip(d["p"], vals):
                t = tu.types[p["t"]]
                if isinstance(v, (Arr, Obj)) and v.cls == t:
                    s += 1
            return s

        return max(cand, key=score)

    # ------------------------------------------------------------ constructors
    def uv_ctor(self, cls, args):
        et, n = uv_args(cls)
        if not args:
            return self.default(cls)
        if len(args) == 1 and isinstance(args[0], Arr):
            return Arr([self.clone(x) for x in args[0].d], "uv", cls, et)
        if len(args) == 1:
            return Arr([self.clone(self.conv(args[0], et)) for _ in range(n)], "uv", cls, et)
        return Arr([self.clone(x) for x in args], "uv", cls, et)

    def ctor(self, n, fr):
        f = n["f"]
        cls = f["c"]
        h = self.hooks.get("ctor:" + re.sub(r"<.*", "", cls))
        args = self.args(n["a"], f, fr)
        if h and not cls.startswith("std::"):
            r = h(self, cls, args)
            if r is not NotImplemented:
                return r
        if uv_args(cls):
            if not args and n.get("zi"):
                return self.zero(cls)
            return self.uv_ctor(cls, [self.rv(a) for a in args])
        F = self.prog.lookup(f["m"], fr.tu)
        if n.get("zi") and not args and self.root_uvector(cls) and (F is None or F.body is None or F.d.get("defaulted")):
            o = self.new_object(cls)
            o.d[:] = self.zero(self.root_uvector(cls)).d
            return o
        if cls in self.prog.records and not cls.startswith(("std::", "algoim::")):
            if F is not None and F.body is not None and not F.d.get("defaulted"):
                o = self.new_object(cls)
                self.call(F, args, o)
                return o
            if n.get("copy") or n.get("move"):
                return self.clone(self.rv(args[0]))
            if not args:
                return self.new_object(cls)
            if self.root_uvector(cls) and len(args) >= 1:
                o = self.new_object(cls)
                o.d[:] = self.uv_ctor(self.root_uvector(cls), [self.rv(a) for a in args]).d
                return o
        return self.std_ctor(cls, n, args, fr)

    def std_ctor(self, cls, n, args, fr):
        vals = [self.rv(a) for a in args]
        if n.get("copy") or n.get("move"):
            v = vals[0]
            return self.clone(v)
        name = cls.split("<")[0]
        if name in SYNC:
            if self.on_sync:
                self.on_sync(name)
            return Obj(cls)
        if name in ("std::vector", "std::deque", "std::list"):
            et = targs(cls)[0]
            args2 = [v for v in vals]
            if not args2:
                return Arr([], "vec", cls, et)
            a = args2[0]
            if isinstance(a, Arr) and a.kind == "il":
                return Arr([self.clone(x) for x in a.d], "vec", cls, et)
            if isinstance(a, Arr):
                return Arr([self.clone(x) for x in a.d], "vec", cls, et)
            if isinstance(a, MapIt) and len(args2) >= 2 and isinstance(args2[1], MapIt):
                out = []
                while a.k != args2[1].k:
                    out.append(self.clone(a.lv().get()))
                    a = a.step(1)
                return Arr(out, "vec", cls, et)
            if isinstance(a, It) and len(args2) >= 2 and isinstance(args2[1], It):
                return Arr([self.clone(x.get()) for x in self.between(a, args2[1])], "vec", cls, et)
            if isinstance(a, ("".__class__,)):
                raise Undecided("vector ctor")
            if isinstance(a, IotaIt):
                b = args2[1]
                if isinstance(a.i, T) or isinstance(b.i, T):
                    raise Undecided("iota of unknown length")
                return Arr(list(range(a.i, b.i)), "vec", cls, et)
            if isinstance(a, T):
                raise Undecided("vector of unknown length")
            if isinstance(a, int):
                if a > 200000:
                    raise Undecided("vector too long")
                if len(args2) > 1 and args2[1] == ("op", "std::allocator"):
                    args2 = args2[:1]
                val = args2[1] if len(args2) > 1 else None
                if len(args2) > 1 and not n.get("def"):
                    return Arr([self.clone(self.conv(val, et)) for _ in range(a)], "vec", cls, et)
                return Arr([self.zero(et) for _ in range(a)], "vec", cls, et)
            raise Undecided("vector ctor from %r" % (a,))
        if name in ("std::shared_ptr", "std::unique_ptr"):
            if not vals or vals[0] is None:
                return None
            return vals[0]
        if name in ("std::function", "std::reference_wrapper"):
            if not vals:
                return None
            if name == "std::reference_wrapper":
                return Ptr(args[0]) if not isinstance(vals[0], COMPOUND) else Ptr(vals[0])
            return vals[0]
        if name == "std::span":
            return self.mkspan(vals)
        if name == "std::array":
            return self.default(cls) if not vals else self.clone(vals[0])
        if name in ("std::pair",):
            o = Obj(cls)
            if not vals:
                return self.zero_pair(cls)
            if len(vals) == 1 and isinstance(vals[0], Obj):
                return self.clone(vals[0])
            o.f["first"], o.f["second"] = self.clone(vals[0]), self.clone(vals[1])
            return o
        if name in ("std::unordered_map", "std::map", "std::set", "std::unordered_set"):
            m = Map(name)
            if len(vals) >= 2 and isinstance(vals[0], It) and isinstance(vals[1], It):
                for x in self.iterate(Span(vals[0].c, vals[0].i, tm.sub(vals[1].i, vals[0].i))):
                    self.map_call("insert", m, [], [x.get()], cls, fr)
            elif vals and isinstance(vals[0], Arr):
                for x in vals[0].d:
                    self.map_call("insert", m, [], [x], cls, fr)
            elif vals and not isinstance(vals[0], (int, Opaque)):
                raise Undecided("construction of a map")
            return m
        if name == "std::basic_ofstream":
            o = Obj(cls)
            o.f["path"] = vals[0] if vals else None
            if vals:
                if not isinstance(vals[0], str):
                    raise Undecided("name of a file")
                self.files.setdefault(vals[0], [])
            return o
        if name == "std::optional":
            return vals[0] if vals else None
        if name in ("__gnu_cxx::__normal_iterator", "std::reverse_iterator"):
            return vals[0] if vals else UNDEF
        if name in ("std::basic_string", "std::basic_string_view"):
            return vals[0] if vals else ""
        if name.startswith("std::ranges::iota_view") or name.startswith("std::ranges::"):
            if name == "std::ranges::iota_view":
                return Iota(vals[0], vals[1])
            if not vals:
                return ("op", name)
        if name in ("std::ranges::less", "std::ranges::greater", "std::ranges::less_equal", "std::ranges::greater_equal", "std::ranges::equal_to", "std::identity"):
            return ("op", name)
        if name in ("std::logical_and", "std::logical_or", "std::logical_not", "std::negate", "std::divides", "std::modulus", "std::not_equal_to", "std::equal_to", "std::less_equal", "std::greater_equal", "std::bit_and", "std::bit_or", "std::ranges::not_equal_to"):
            return ("op", name)
        if name in ("std::greater", "std::less", "std::multiplies", "std::plus", "std::minus", "std::allocator", "std::enable_shared_from_this", "std::hash", "std::__cmp_cat::__unspec"):
            return ("op", name)
        if name.startswith("algoim::HyperRectangle"):
            o = Obj(cls)
            o.f["min"], o.f["max"] = self.clone(vals[0]), self.clone(vals[1])
            return o
        if name == "algoim::xarray":
            if len(vals) == 2:
                o = Obj(cls)
                o.f["ptr"], o.f["ext"] = vals[0], self.clone(vals[1])
                return o
        h = self.hooks.get("ctor")
        if h:
            r = h(self, cls, vals)
            if r is not None:
                return r
        if cls.startswith("(lambda") or "lambda" in cls:
            return vals[0]
        if name == "std::initializer_list" and not vals:
            return Arr([], "il", cls, "")
        raise Undecided("constructor of " + cls)

    def zero_pair(self, cls):
        o = Obj(cls)
        a = targs(cls)
        o.f["first"], o.f["second"] = self.zero(a[0]), self.zero(a[1])
        return o

    def mkspan(self, vals):
        if not vals:
            return Span(Arr([], "vec"), 0, 0)
        a = vals[0]
        if len(vals) == 1:
            if isinstance(a, Arr):
                return Span(a, 0, len(a.d))
            if isinstance(a, Span):
                return a
        if isinstance(a, It):
            b = vals[1]
            if isinstance(b, It):
                return Span(a.c, a.i, tm.sub(b.i, a.i))
            return Span(a.c, a.i, b)
        if isinstance(a, Arr):
            return Span(a, 0, vals[1])
        if isinstance(a, Ptr) and isinstance(a.t, Arr):
            return Span(a.t, 0, vals[1])
        raise Undecided("span of %r" % (a,))

    def initlist(self, n, fr):
        ty = fr.tu.types[n["t"]]
        vals = [self.ev(x, fr) for x in n["a"]]
        m = carr(ty)
        if m:
            d = [self.clone(v) for v in vals]
            while len(d) < m[1]:
                d.append(self.ev(n["fill"], fr) if n.get("fill") else self.zero(m[0]))
            return Arr(d, "carr", ty, m[0])
        if ty.startswith("std::array<"):
            a = targs(ty)
            cnt = int(a[1].rstrip("UL"))
            if len(vals) == 1 and isinstance(vals[0], Arr) and vals[0].kind == "carr":
                d = [self.clone(x) for x in vals[0].d]
            elif len(vals) == 1 and isinstance(vals[0], Arr) and vals[0].kind == "array" and vals[0].cls == ty:
                return self.clone(vals[0])
            else:
                d = [self.clone(x) for x in vals]
            while len(d) < cnt:
                d.append(self.zero(a[0]))
            return Arr(d, "array", ty, a[0])
        if len(vals) == 1 and isinstance(vals[0], (Arr, Obj)) and vals[0].cls == ty:
            return self.clone(vals[0])
        if ty.startswith("std::basic_string<") and len(vals) <= 1:
            return vals[0] if vals else ""
        if "fields" in n:
            o = self.new_object(ty) if ty in self.prog.records else Obj(ty)
            rf = self.reffields(ty)
            for nm, v, x in zip(n["fields"], vals, n["a"]):
                if nm != "<base>":
                    o.f[nm] = self.clone(v) if nm not in rf else self.bound(self.lvany(x, fr))
            return o
        if len(vals) == 1 and (not isinstance(vals[0], Arr) or vals[0].cls == ty or (vals[0].kind == "uv" and uv_args(ty) and len(vals[0].d) == uv_args(ty)[1] and uv_args(ty)[0] == vals[0].et)):
            return vals[0]
        if not vals:
            return self.zero(ty)
        return Arr([self.clone(v) for v in vals], "il", ty, "")

    # ------------------------------------------------------------------- calls
    def fcall(self, n, fr):
        if "f" not in n:
            fv = self.ev(n["fe"], fr)
            return self.callclo(fv, self.args(n["a"], None, fr))
        f = n["f"]
        h = self.hooks.get(f["q"]) or self.hooks.get(f["n"])
        args = self.args(n["a"], f, fr)
        if h:
            r = h(self, f, args, None)
            if r is not NotImplemented:
                return r
        F = self.prog.lookup(f["m"], fr.tu)
        if F is not None and F.body is not None:
            return self.call(F, args)
        return self.builtin_call(f, args, fr.tu.types[n["t"]] if n["t"] >= 0 else "", fr)

    def mcall(self, n, fr):
        f = n.get("f")
        if f is None:
            raise Undecided("member pointer call")
        o = self.rv(self.lvany(n["o"], fr))
        args = self.args(n["a"], f, fr)
        if isinstance(o, Ptr) and (n.get("arrow") or not f["c"].startswith(("std::shared_ptr", "std::__shared", "std::unique_ptr", "std::reference_wrapper"))):
            o = self.rv(o.t)
        if isinstance(o, It) and n.get("arrow") and not isinstance(o, MapIt):
            o = o.lv().get()
            if isinstance(o, Ptr) and not f["c"].startswith(("std::shared_ptr", "std::__shared", "std::unique_ptr")):
                o = self.rv(o.t)
        h = self.hooks.get(f["q"]) or self.hooks.get("m:" + f["n"])
        if h:
            r = h(self, f, args, o)
            if r is not NotImplemented:
                return r
        m = f["m"]
        if f.get("virt") and not n.get("nv") and isinstance(o, (Obj, Arr)):
            m2 = self.prog.resolve_virtual(o.cls, m)
            if m2:
                m = m2
        F = self.prog.lookup(m, fr.tu)
        if F is not None and F.body is not None and not F.d.get("defaulted") and (isinstance(o, (Obj, Arr)) or f.get("static")):
            return self.call(F, args, o)
        return self.builtin_mcall(f, o, args, fr.tu.types[n["t"]] if n["t"] >= 0 else "", fr)

    def ocall(self, n, fr):
        f = n.get("f")
        op = n["op"]
        if f is None:
            raise Undecided("operator without callee")
        if n.get("mth"):
            o = self.lvany(n["a"][0], fr)
            args = [self.lvany(x, fr) for x in n["a"][1:]]
            if f.get("lam"):
                return self.callclo(o, args, f["i"])
            ov = self.rv(o)
            if isinstance(ov, Ptr) and isinstance(self.rv(ov.t), (Obj, Arr)) and not f["c"].startswith("std::"):
                ov = self.rv(ov.t)
            h = self.hooks.get(f["q"])
            if h:
                r = h(self, f, args, ov)
                if r is not NotImplemented:
                    return r
            m = f["m"]
            if f.get("virt") and isinstance(ov, (Obj, Arr)):
                m = self.prog.resolve_virtual(ov.cls, m) or m
            F = self.prog.lookup(m, fr.tu)
            if F is not None and F.body is not None and not F.d.get("defaulted") and isinstance(ov, (Obj, Arr)) and not f["c"].startswith("algoim::"):
                return self.call(F, args, ov)
            return self.builtin_op(op, f, [o] + args, fr, fr.tu.types[n["t"]] if n["t"] >= 0 else "")
        args = [self.lvany(x, fr) for x in n["a"]]
        h = self.hooks.get(f["q"])
        if h:
            r = h(self, f, args, None)
            if r is not NotImplemented:
                return r
        F = self.prog.lookup(f["m"], fr.tu)
        if F is not None and F.body is not None:
            return self.call(F, args)
        return self.builtin_op(op, f, args, fr, fr.tu.types[n["t"]] if n["t"] >= 0 else "")

    # ------------------------------------------------------- builtin operators
    def ew(self, op, a, b, ty=""):
        """element-wise arithmetic on uvectors / scalars"""
        if isinstance(a, Arr) or isinstance(b, Arr):
            n = len(a.d) if isinstance(a, Arr) else len(b.d)
            ad = a.d if isinstance(a, Arr) else [a] * n
            bd = b.d if isinstance(b, Arr) else [b] * n
            if len(ad) != len(bd):
                raise Undecided("length mismatch")
            src = a if isinstance(a, Arr) else b
            u = uv_args(ty)
            et = u[0] if u else src.et
            out = Arr([self.ew(op, x, y, et) for x, y in zip(ad, bd)], "uv", ty if u else src.cls, et)
            return out
        return self.arith(op, a, b, ty or "double")

    def builtin_op(self, op, f, args, fr, ty):
        vals = [self.rv(a) for a in args]
        cls = f.get("c", "")
        a = vals[0]
        if op == "()":
            vn = re.search(r"views::_([A-Z]\w+)", cls)
            if vn:
                k = {"TakeWhile": "take_while", "DropWhile": "drop_while", "Elements<0>": "keys", "Elements<1>": "values"}.get(vn.group(1), vn.group(1).lower())
                if k == "elements":
                    k = "keys" if re.search(r"_Elements<0", cls) else "values"
                if k == "iota":
                    return Iota(vals[1], vals[2])
                if k in ("reverse", "all", "keys", "values", "common", "join"):
                    return self.mkview(("view", k), args[1])
                if len(vals) == 2:
                    return ("view", k, vals[1])
                return self.mkview(("view", k, vals[2]), args[1])
            if isinstance(a, tuple) and a[:1] == ("view",):
                return self.mkview(a, args[1])
            if isinstance(a, (Clo, tuple)) or callable(a):
                return self.callclo(a, args[1:]) if not (isinstance(a, tuple) and a[0] == "op") else self.builtin_algo(f, args[1:], fr, ty)
            if cls.startswith("std::function"):
                return self.callclo(a, args[1:])
            if isinstance(a, Arr):
                return Elem(a, vals[1])
            if isinstance(a, Opaque):
                if cls.startswith("std::ranges"):
                    return self.builtin_algo(f, args[1:], fr, ty)
                return self.opaque_result((a.name, "()") + tuple(self.key(v) for v in vals[1:]), ty)
            if cls.startswith("std::ranges") or cls.startswith("std::__"):
                return self.builtin_algo(f, args[1:], fr, ty)
            if cls.startswith("std::"):
                nm = re.sub(r"<.*", "", cls)
                binop = {"std::multiplies": "*", "std::plus": "+", "std::minus": "-", "std::less": "<", "std::greater": ">"}.get(nm)
                if binop:
                    return self.arith(binop, vals[1], vals[2], "double")
                if nm == "std::hash":
                    return 0
            raise Undecided("operator() on %r" % (a,))
        if op == "[]":
            if isinstance(a, (Arr, Span)):
                return Elem(a, vals[1])
            if isinstance(a, It):
                return Elem(a.c, tm.add(a.i, vals[1]))
            if isinstance(a, Map):
                k = self.mkey(vals[1])
                if k not in a.d:
                    a.d[k] = (vals[1], self.zero(targs(cls)[1]))
                return MapElem(a, k)
            if isinstance(a, Opaque):
                return self.opaque_result((a.name, "[]", self.key(vals[1])), ty)
            raise Undecided("operator[] on %r" % (a,))
        if op in ("*", "->") and len(vals) == 1 and cls.startswith("std::optional") and not isinstance(a, (It, Ptr)):
            if a is None:
                raise Oob("an empty optional is dereferenced")
            return a if op == "->" else args[0] if isinstance(args[0], (Cell, Elem, Field)) else Cell(a)
        if op == "|" and isinstance(vals[1], (Obj, tuple, Opaque)) and not (isinstance(vals[1], tuple) and vals[1][:1] == ("view",)):
            v = re.search(r"views::_?(\w+)$", str(vals[1].name)) if isinstance(vals[1], Opaque) else re.search(r"views::_([A-Z]\w+)", getattr(vals[1], "cls", "") or (str(vals[1][1]) if isinstance(vals[1], tuple) and len(vals[1]) > 1 else str(getattr(vals[1], "name", ""))))
            if v and v.group(1).lower() in ("reverse", "all", "join", "common", "keys", "values"):
                vals[1] = ("view", v.group(1).lower())
        if op == "|" and isinstance(vals[1], tuple) and vals[1][:1] == ("view",):
            k = vals[1]
            if isinstance(a, tuple) and a[:1] == ("view",):
                return ("view", "then", a, k)
            return self.mkview(k, args[0])
        if op == "*" and len(vals) == 1:
            return self.deref(a)
        if op == "->":
            return a
        if op in ("++", "--"):
            post = len(vals) == 2
            lvv = args[0]
            if not isinstance(lvv, (Cell, Elem, Field)):
                raise Undecided("increment of a temporary")
            d = 1 if op == "++" else -1
            if isinstance(a, MapIt):
                new = a.step(d)
            elif isinstance(a, It):
                new = It(a.c, tm.add(a.i, d if not a.rev else -d), a.rev)
            elif isinstance(a, IotaIt):
                new = IotaIt(tm.add(a.i, d))
            else:
                raise Undecided("increment of %r" % (a,))
            lvv.set(new)
            return Cell(a) if post else lvv
        if op == "=":
            if not isinstance(args[0], (Cell, Elem, Field)):
                if isinstance(a, COMPOUND):
                    self.assign(Cell(a), vals[1])
                    return a
                raise Undecided("assignment to temporary")
            self.assign(args[0], self.conv(vals[1], cls) if uv_args(cls) else vals[1])
            return args[0]
        if op in ("+=", "-=", "*=", "/="):
            lvv = args[0]
            r = self.ew(op[0], a, vals[1], a.cls if isinstance(a, Arr) and uv_args(a.cls) else (a.et if isinstance(a, Arr) else ty))
            if isinstance(a, Arr):
                a.d[:] = r.d
                return lvv
            lvv.set(r)
            return lvv
        if op == "-" and len(vals) == 1:
            if isinstance(a, Arr):
                return Arr([self.negv(x) for x in a.d], "uv", a.cls, a.et)
            return tm.neg(a)
        if op in ("+", "-", "*", "/") and len(vals) == 2:
            if isinstance(a, str) or isinstance(vals[1], str):
                return str(a) + str(vals[1])
            if isinstance(a, IotaIt) or isinstance(vals[1], IotaIt):
                raise Undecided("iota arithmetic")
            return self.ew(op, a, vals[1], ty)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if vals[1] == ("op", "std::__cmp_cat::__unspec"):
                vals[1] = 0
            if a == ("op", "std::__cmp_cat::__unspec"):
                a = 0
            if f["q"].startswith("algoim::") and (isinstance(a, Arr) or isinstance(vals[1], Arr)):
                b = vals[1]
                n = len(a.d) if isinstance(a, Arr) else len(b.d)
                ad = a.d if isinstance(a, Arr) else [a] * n
                bd = b.d if isinstance(b, Arr) else [b] * n
                return Arr([self.compare(op, x, y) for x, y in zip(ad, bd)], "uv", ty, "bool")
            b = vals[1]
            if isinstance(a, IotaIt):
                return tm.cmp(op, a.i, b.i)
            if isinstance(a, MapIt) and isinstance(b, MapIt):
                return (a.k == b.k) if op == "==" else (a.k != b.k)
            return self.compare(op, a, b)
        if op == "<=>" and not isinstance(a, (It, Opaque)) and len(vals) == 2 and not isinstance(vals[1], It):
            if self.decide(self.compare("<", a, vals[1])):
                return -1
            return 0 if self.decide(self.compare("==", a, vals[1])) else 1
        if op == "<=>" and isinstance(a, It) and isinstance(vals[1], It):
            return tm.sub(a.i, vals[1].i) if not a.rev else tm.sub(vals[1].i, a.i)
        if op == "<<":
            if isinstance(a, Obj) and "path" in a.f:
                v = vals[1]
                if isinstance(v, tuple) and v[:2] == ("op", "setprecision"):
                    a.f["prec"] = v[2]
                elif isinstance(v, (float, Fraction)) or isinstance(v, T) and not v.free():
                    x = float(v) if not isinstance(v, T) else float(tm.evalt(v, tm.Env(K=2))[0][0])
                    self.files.setdefault(a.f["path"], []).append("%.*g" % (a.f.get("prec", 6), x))
                elif not (isinstance(v, tuple) and v[:1] == ("op",)):
                    self.files.setdefault(a.f["path"], []).append(chr(v) if isinstance(v, int) and "char)" in f["q"] + f.get("m", "") or isinstance(v, int) and re.search(r"(?<!k)c$", f.get("m", "")) and f["q"].startswith("std::operator<<") else v)
                return args[0]
            self.events.append(("out", vals[1:]))
            return args[0]
        raise Undecided("operator %s of %s on %r" % (op, f["q"], vals))

    def negv(self, x):
        if isinstance(x, Arr):
            return Arr([self.negv(y) for y in x.d], x.kind, x.cls, x.et)
        return tm.neg(x)

    def mkey(self, v):
        if isinstance(v, Arr):
            return tuple(self.mkey(x) for x in v.d)
        if isinstance(v, T):
            raise Undecided("symbolic map key")
        return v

    def key(self, v):
        if isinstance(v, Arr):
            return ("arr",) + tuple(self.key(x) for x in v.d)
        if isinstance(v, Obj):
            return (v.cls,) + tuple(self.key(x) for x in v.f.values())
        if isinstance(v, T):
            return v.uid
        if isinstance(v, Ptr):
            return ("ptr", self.key(self.rv(v.t)))
        if isinstance(v, Opaque):
            return v.name
        if isinstance(v, (Clo, BoundM, Map, It, Span)):
            return "?"
        return v

    def opaque_result(self, key, ty, cls=""):
        if is_bool_type(ty):
            return T("truth", repr(key))
        if is_int_type(ty) or is_float_type(ty):
            return T("sym", key)
        u = uv_args(ty)
        if u:
            return Arr([self.opaque_result((key, i), u[0]) for i in range(u[1])], "uv", ty, u[0])
        if ty in ("void", ""):
            return None
        return Opaque(key, ty)

    # --------------------------------------------------------- builtin methods
    def between(self, a, b):
        if isinstance(a.i, T) or isinstance(b.i, T):
            raise Undecided("iterator range")
        if a.rev:
            return [Elem(a.c, i - 1) for i in range(a.i, b.i, -1)]
        return [Elem(a.c, i) for i in range(a.i, b.i)]

    def builtin_mcall(self, f, o, args, ty, fr):
        if isinstance(o, str) and f["n"] in ("c_str", "data"):
            return o
        if isinstance(o, str) and f["n"] in ("empty", "size", "length"):
            return len(o) if f["n"] != "empty" else not o
        n = f["n"]
        cls = f["c"]
        vals = [self.rv(a) for a in args]
        if cls.split("<")[0] in SYNC and isinstance(o, Obj):
            return True if n.startswith("try_") or n.startswith("owns") else None
        if cls.startswith("std::") and isinstance(o, Ptr) and n in ("get",):
            return o
        if isinstance(o, Ptr) and cls.startswith("std::reference_wrapper"):
            return self.rv(o.t)
        if cls.startswith("std::reference_wrapper") and n in ("get",):
            return o
        if isinstance(o, Obj) and "path" in o.f and o.cls.startswith("std::basic_ofstream"):
            if n == "open":
                o.f["path"] = vals[0]
                self.files.setdefault(vals[0], [])
                return None
            if n in ("close", "flush"):
                return None
            if n in ("is_open", "good"):
                return True
            if n == "fail":
                return False
            if n == "precision":
                return 6
            if n == "operator<<" or n == "operator<<":
                return self.builtin_op("<<", f, [Cell(o)] + list(args), fr, ty)
        if n.startswith("operator") and cls.startswith("std::reference_wrapper"):
            return self.rv(o.t) if isinstance(o, Ptr) else o
        if n.startswith("operator") and n[8:] in ("()", "[]", "+=", "-=", "*=", "/=", "=", "==", "!=", "*", "->") and isinstance(o, (Arr, Span, Clo, Map, It)):
            return self.builtin_op(n[8:], f, [Cell(o)] + list(args), fr, ty)
        if isinstance(o, Arr):
            if n in ("size", "length"):
                return len(o.d)
            if n == "empty":
                return len(o.d) == 0
            if n in ("begin", "cbegin"):
                return It(o, 0)
            if n in ("end", "cend"):
                return It(o, len(o.d))
            if n in ("rbegin", "crbegin"):
                return It(o, len(o.d), True)
            if n in ("rend", "crend"):
                return It(o, 0, True)
            if n == "data":
                return It(o, 0)
            if n in ("at",):
                if isinstance(vals[0], int) and not 0 <= vals[0] < len(o.d):
                    raise CxxThrow(Obj("std::out_of_range"))
                return Elem(o, vals[0])
            if n == "push_front":
                o.d.insert(0, self.clone(self.conv(vals[0], o.et)))
                return None
            if n == "pop_front":
                if not o.d:
                    raise Oob("pop_front of an empty container")
                o.d.pop(0)
                return None
            if n == "flip":
                o.d[:] = [tm.lnot(x) for x in o.d]
                return None
            if n == "max_size":
                return 2**60
            if n == "front":
                return Elem(o, 0)
            if n == "back":
                return Elem(o, len(o.d) - 1)
            if n == "push_back":
                o.d.append(self.clone(self.conv(vals[0], o.et)))
                return None
            if n == "emplace_back":
                o.d.append(self.emplace(o.et, args, fr))
                return Elem(o, len(o.d) - 1)
            if n == "pop_back":
                if not o.d:
                    raise Oob("pop_back of an empty container")
                o.d.pop()
                return None
            if n in ("reserve", "shrink_to_fit"):
                return None
            if n == "capacity":
                return len(o.d)
            if n == "clear":
                o.d[:] = []
                return None
            if n == "resize":
                if isinstance(vals[0], T):
                    raise Undecided("resize to unknown length")
                if vals[0] > 300000:
                    raise Undecided("too long")
                fillv = vals[1] if len(vals) > 1 else None
                while len(o.d) < vals[0]:
                    o.d.append(self.clone(self.conv(fillv, o.et)) if len(vals) > 1 else self.zero(o.et))
                del o.d[vals[0] :]
                return None
            if n == "assign":
                if isinstance(vals[0], It):
                    o.d[:] = [self.clone(x.get()) for x in self.between(vals[0], vals[1])]
                elif isinstance(vals[0], Arr):
                    o.d[:] = [self.clone(x) for x in vals[0].d]
                else:
                    if isinstance(vals[0], T):
                        raise Undecided("assign of unknown length")
                    o.d[:] = [self.clone(self.conv(vals[1], o.et)) for _ in range(vals[0])]
                return None
            if n == "fill":
                o.d[:] = [self.clone(vals[0]) for _ in o.d]
                return None
            if n == "insert":
                pos = vals[0].i
                if len(vals) == 3 and isinstance(vals[1], It):
                    new = [self.clone(x.get()) for x in self.between(vals[1], vals[2])]
                elif len(vals) == 3:
                    new = [self.clone(vals[2]) for _ in range(vals[1])]
                else:
                    new = [self.clone(vals[1])]
                if isinstance(pos, int) and not 0 <= pos <= len(o.d):
                    raise Oob("insertion at %d in a vector of %d" % (pos, len(o.d)))
                o.d[pos:pos] = new
                return It(o, pos)
            if n == "erase":
                if not isinstance(vals[0], It) or vals[0].c is not o:
                    raise Undecided("erase")
                e = vals[1].i if len(vals) > 1 else vals[0].i + 1
                if isinstance(e, int) and isinstance(vals[0].i, int) and not 0 <= vals[0].i <= e <= len(o.d):
                    raise Oob("erasure of [%d, %d) in a vector of %d" % (vals[0].i, e, len(o.d)))
                if len(vals) == 1:
                    del o.d[vals[0].i]
                else:
                    del o.d[vals[0].i : vals[1].i]
                return It(o, vals[0].i)
            if n == "swap":
                o.d[:], vals[0].d[:] = list(vals[0].d), list(o.d)
                return None
            if n == "as_Vector":
                return o
        if isinstance(o, Obj) and o.cls.startswith("std::ranges::subrange"):
            a, b = o.f["first"], o.f["second"]
            if n in ("begin", "end"):
                return a if n == "begin" else b
            if n == "size":
                return b.i - a.i
            if n == "empty":
                return a.i == b.i
        if isinstance(o, Span):
            if n in ("size",):
                return o.n
            if n == "empty":
                return tm.cmp("==", o.n, 0)
            if n == "begin":
                return It(o, 0)
            if n == "end":
                return It(o, o.n)
            if n == "data":
                return It(o.c, o.o)
            if n == "front":
                return Elem(o, 0)
            if n == "back":
                return Elem(o, tm.sub(o.n, 1))
            if n == "subspan":
                return Span(o.c, tm.add(o.o, vals[0]), vals[1] if len(vals) > 1 and vals[1] != 2**64 - 1 else tm.sub(o.n, vals[0]))
            if n in ("first",):
                return Span(o.c, o.o, vals[0])
            if n in ("last",):
                return Span(o.c, tm.add(o.o, tm.sub(o.n, vals[0])), vals[0])
            if n == "rbegin":
                return It(o, o.n, True)
            if n == "rend":
                return It(o, 0, True)
        if isinstance(o, View):
            if n in ("begin", "end", "size", "empty", "front", "back", "operator[]"):
                if o.snap is None or n in ("size", "empty"):
                    o.snap = Arr([x.get() for x in self.view_elems(o)], "vec", "", "")
                return self.builtin_mcall(f, o.snap, args, ty, fr) if n != "operator[]" else Elem(o.snap, vals[0])
        if isinstance(o, Map):
            return self.map_call(n, o, args, vals, cls, fr)
        if isinstance(o, MapIt):
            pass
        if isinstance(o, Iota):
            if n == "begin":
                return IotaIt(o.a)
            if n == "end":
                return IotaIt(o.b)
        if isinstance(o, Obj) and cls.startswith("algoim::HyperRectangle"):
            mn, mx = o.f["min"], o.f["max"]
            if n in ("min", "max"):
                r = o.f[n]
                return Elem(r, vals[0]) if vals else r
            if n == "side":
                return mn if vals[0] == 0 else mx
            if n == "extent":
                r = self.ew("-", mx, mn, mn.cls)
                return r.getat(vals[0]) if vals else r
            if n == "midpoint":
                r = self.ew("*", self.ew("+", mx, mn, mn.cls), tm.N(0.5), mn.cls)
                return r.getat(vals[0]) if vals else r
        if isinstance(o, Obj) and cls.startswith("algoim::xarray"):
            if n == "ext":
                return Elem(o.f["ext"], vals[0]) if vals else o.f["ext"]
            if n == "size":
                r = 1
                for x in o.f["ext"].d:
                    r = tm.mul(r, x)
                return r
            if n == "data":
                return o.f["ptr"]
        if cls.startswith(("std::shared_ptr", "std::__shared_ptr", "std::unique_ptr")):
            if n == "get":
                return o
            if n == "reset":
                raise Undecided("reset")
        if cls.startswith("std::optional"):
            if n == "has_value":
                return o is not None
            if n == "value":
                return o
        if n == "shared_from_this":
            return Ptr(o)
        if n.startswith("operator ") :
            return o
        if cls.startswith("std::_Bit_reference"):
            return o
        if isinstance(o, str):
            if n in ("size", "length"):
                return len(o)
            if n == "c_str":
                return o
        h = self.hooks.get("method")
        if h:
            r = h(self, f, args, o)
            if r is not NotImplemented:
                return r
        if isinstance(o, Opaque) or (o is not None and cls.startswith("algoim::")):
            nm = o.name if isinstance(o, Opaque) else self.key(o)
            return self.opaque_result((nm, n) + tuple(self.key(v) for v in vals), ty)
        raise Undecided("method %s on %r" % (f["q"], o))

    def emplace(self, et, args, fr):
        vals = [self.rv(a) for a in args]
        if uv_args(et):
            return self.uv_ctor(et, vals)
        if et.startswith("std::pair"):
            o = Obj(et)
            o.f["first"], o.f["second"] = vals
            return o
        if is_int_type(et) or is_float_type(et) or is_bool_type(et):
            return vals[0] if vals else 0
        return self.make(et, args, fr)

    def make(self, et, args, fr):
        """construct an object of class et from args (overload by arity and type)"""
        vals = [self.rv(a) for a in args]
        if len(vals) == 1 and isinstance(vals[0], (Obj, Arr)) and vals[0].cls == et:
            cc = self.copy_ctor(et)
            if cc is not None:
                o = self.new_object(et)
                self.call(cc, args, o)
                return o
            return self.clone(vals[0])
        if et in self.prog.records:
            if self.root_uvector(et) and not args:
                return self.new_object(et)
            cands = []
            seen = set()
            for F in self.prog.funcs.values():
                if F.cls == et and self.is_ctor(F) and F.m not in seen:
                    seen.add(F.m)
                    nreq = sum(1 for p in F.params if "d" not in p)
                    if nreq <= len(args) <= len(F.params):
                        cands.append(F)
            best, bs = None, -1
            amb = False
            for F in cands:
                s = self.fit(F, vals)
                if s is None:
                    continue
                if s > bs:
                    best, bs, amb = F, s, False
                elif s == bs and F.q == best.q:
                    amb = True
            if best is not None:
                o = self.new_object(et)
                self.call(best, args, o)
                return o
            if not args:
                return self.new_object(et)
        if et.startswith("std::vector"):
            return self.std_ctor(et, {}, args, fr)
        h = self.hooks.get("ctor:" + re.sub(r"<[^<>]*>", "", et))
        if h:
            r = h(self, et, args)
            if r is not NotImplemented:
                return r
        if (is_int_type(et) or is_float_type(et) or is_bool_type(et)) and len(args) <= 1:
            return Cell(self.conv(self.rv(args[0]), et) if args else 0)
        if et.startswith(("std::deque<", "std::list<", "std::map<", "std::unordered_map<", "std::set<", "std::unordered_set<", "std::pair<", "std::array<")):
            return self.std_ctor(et, {}, args, fr)
        raise Undecided("construction of %s" % et)

    def fit(self, F, vals):
        s = 0
        for p, v in zip(F.params, vals):
            t = F.tu.types[p["t"]]
            if isinstance(v, (Obj, Arr)):
                if v.cls == t:
                    s += 3
                elif t in self.prog.records and v.cls in self.prog.records and self.prog.derives(v.cls, t):
                    s += 2
                elif isinstance(v, Arr) and v.kind == "uv" and uv_args(t) and uv_args(t)[1] == len(v.d):
                    s += 1
                elif isinstance(v, Arr) and v.kind == "array" and uv_args(t):
                    s += 0
                elif t.startswith("std::span"):
                    s += 0
                else:
                    return None
            elif isinstance(v, bool):
                if is_bool_type(t):
                    s += 3
                elif is_int_type(t):
                    s += 1
                else:
                    return None
            elif isinstance(v, (int,)) or isinstance(v, T) or tm.isnum(v):
                if is_int_type(t) and isinstance(v, int):
                    s += 3
                elif is_float_type(t):
                    s += 2
                elif is_int_type(t) and isinstance(v, T):
                    s += 1
                elif uv_args(t):
                    s += 0
                else:
                    return None
            elif v is None or isinstance(v, Ptr):
                if not (t.startswith("std::shared_ptr") or t.endswith("*")):
                    return None
                if isinstance(v, Ptr):
                    tv = self.rv(v.t)
                    a = targs(t)
                    if a and isinstance(tv, Obj):
                        b = a[0].replace("const ", "")
                        if tv.cls in self.prog.records and not self.prog.derives(tv.cls, b):
                            return None
                s += 2
            elif isinstance(v, Opaque):
                s += 3 if v.cls == t else 1
        return s

    def map_call(self, n, o, args, vals, cls, fr):
        if n in ("find",):
            k = self.mkey(vals[0])
            return MapIt(o, k if k in o.d else None)
        if n in ("end", "cend"):
            return MapIt(o, None)
        if n in ("begin", "cbegin"):
            ks = o.keys()
            return MapIt(o, ks[0] if ks else None)
        if n in ("contains", "count"):
            r = self.mkey(vals[0]) in o.d
            return r if n == "contains" else int(r)
        if n == "at":
            k = self.mkey(vals[0])
            if k not in o.d:
                raise CxxThrow("out_of_range")
            return MapElem(o, k)
        if o.isset and n in ("emplace", "insert"):
            k = self.mkey(vals[0])
            r = Obj("std::pair<>")
            r.f["first"], r.f["second"] = MapIt(o, k), k not in o.d
            if k not in o.d:
                o.d[k] = (self.clone(vals[0]),) * 2
            return r
        if n in ("emplace", "try_emplace", "insert_or_assign"):
            k = self.mkey(vals[0])
            fresh = k not in o.d
            if fresh or n == "insert_or_assign":
                o.d[k] = (self.clone(vals[0]), self.clone(vals[1]))
            r = Obj("std::pair<>")
            r.f["first"], r.f["second"] = MapIt(o, k), fresh
            return r
        if n == "insert":
            p = vals[0]
            k = self.mkey(p.f["first"])
            fresh = k not in o.d
            if fresh:
                o.d[k] = (self.clone(p.f["first"]), self.clone(p.f["second"]))
            r = Obj("std::pair<>")
            r.f["first"], r.f["second"] = MapIt(o, k), fresh
            return r
        if n == "clear":
            o.d.clear()
            return None
        if n == "size":
            return len(o.d)
        if n == "empty":
            return not o.d
        if n in ("reserve",):
            return None
        if n == "erase" and not isinstance(vals[0], MapIt):
            return int(o.d.pop(self.mkey(vals[0]), None) is not None)
        if n == "erase" and vals[0].k in o.d:
            nx = vals[0].step(1)
            o.d.pop(vals[0].k)
            return nx
        if n == "erase":
            o.d.pop(self.mkey(vals[0]) if not isinstance(vals[0], MapIt) else vals[0].k, None)
            return None
        raise Undecided("map method " + n)

    # ------------------------------------------------------- builtin functions
    def builtin_call(self, f, args, ty, fr):
        q, n = f["q"], f["n"]
        vals = [self.rv(a) for a in args]
        if n in ("sin", "cos", "exp", "log", "sqrt", "tan", "fabs") and len(vals) == 1:
            self.chk(vals)
            return tm.fn("abs" if n == "fabs" else n, vals[0])
        if n == "abs":
            self.chk(vals)
            if isinstance(vals[0], Arr):
                return Arr([tm.fn("abs", x) for x in vals[0].d], "uv", vals[0].cls, vals[0].et)
            return tm.fn("abs", vals[0])
        if n == "pow" and len(vals) == 2:
            self.chk(vals)
            return tm.powi(vals[0], vals[1])
        if n in ("max", "min"):
            if q.startswith("algoim::"):
                r = vals[0].d[0]
                for x in vals[0].d[1:]:
                    r = tm.fn(n, r, x)
                return r
            if len(vals) == 1 and isinstance(vals[0], Arr):
                r = vals[0].d[0]
                for x in vals[0].d[1:]:
                    r = tm.fn(n, r, x)
                return r
            self.chk(vals)
            return tm.fn(n, vals[0], vals[1])
        if n in ("move", "forward", "as_const", "static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast", "addressof", "ref", "cref"):
            if n in ("dynamic_pointer_cast",):
                return self.dyncast(vals[0], targs("x<" + ",".join(f.get("ta", [])) + ">")[0] if f.get("ta") else "")
            if n == "addressof":
                return Ptr(args[0]) if not isinstance(vals[0], COMPOUND) else Ptr(vals[0])
            return args[0]
        if n == "make_shared" or n == "make_unique":
            et = f["ta"][0].replace("const ", "")
            h = self.hooks.get("make:" + re.sub(r"<.*", "", et))
            if h:
                return Ptr(h(self, et, args))
            return Ptr(self.make(et, args, fr))
        if n in ("make_pair",):
            o = Obj("std::pair<>")
            o.f["first"], o.f["second"] = self.clone(vals[0]), self.clone(vals[1])
            return o
        if n == "swap":
            a, b = args
            x, y = self.clone(self.rv(a)), self.clone(self.rv(b))
            self.assign(a if isinstance(a, (Cell, Elem, Field)) else Cell(a), y)
            self.assign(b if isinstance(b, (Cell, Elem, Field)) else Cell(b), x)
            return None
        if n == "exchange":
            old = self.clone(vals[0])
            self.assign(args[0], vals[1])
            return old
        if n == "dot":
            return self.dot(vals[0], vals[1])
        if n == "sqrnorm":
            return self.dot(vals[0], vals[0])
        if n == "norm":
            return tm.fn("sqrt", self.dot(vals[0], vals[0]))
        if n == "prod":
            r = 1
            for x in vals[0].d:
                r = tm.mul(r, x)
            return self.wrap(r, (f.get("ta") or [""])[0])
        if q.startswith("algoim::") and n in ("all", "any"):
            r = n == "all"
            for x in vals[0].d:
                r = tm.land(r, x) if n == "all" else tm.lor(r, x)
            return r
        if n in ("argmax", "argmin") and q.startswith("algoim::"):
            best = 0
            for i in range(1, len(vals[0].d)):
                c = tm.cmp(">" if n == "argmax" else "<", vals[0].d[i], vals[0].d[best])
                if self.decide(c):
                    best = i
            return best
        if n in ("add_component", "remove_component", "set_component", "inc_component") and q.startswith("algoim::"):
            v = vals[0]
            ta = f.get("ta", [])
            if not isinstance(v, Arr):
                v = Arr([v] * int(ta[1]), "uv", "algoim::uvector<%s, %s>" % (ta[0], ta[1]), ta[0])
            i = vals[1]
            if isinstance(i, T):
                raise Undecided("symbolic direction")
            if not (0 <= i < len(v.d) + (n == "add_component")):
                raise Undecided("direction out of range")
            d = list(v.d)
            if n == "add_component":
                d.insert(i, vals[2])
            elif n == "remove_component":
                del d[i]
            elif n == "set_component":
                d[i] = vals[2]
            else:
                d[i] = tm.add(d[i], vals[2])
            et = v.et or (ta[0] if ta else "double")
            return Arr([self.clone(x) for x in d], "uv", "algoim::uvector<%s, %d>" % (et, len(d)), et)
        if n == "row" and q.startswith("algoim::Binomial"):
            import math

            if isinstance(vals[0], T):
                raise Undecided("binomial row")
            return It(Arr([math.comb(vals[0], k) for k in range(vals[0] + 1)], "carr"), 0)
        if n == "c" and q.startswith("algoim::Binomial"):
            import math

            return math.comb(vals[0], vals[1])
        if n in ("setprecision", "setw", "endl", "scientific", "fixed"):
            return ("op", n) + tuple(vals[:1]) if n != "endl" else "\n"
        if n == "modifiedChebyshevNode":
            return T("cheb", vals[0], vals[1])
        if n in ("next", "prev", "advance"):
            d = vals[1] if len(vals) > 1 else 1
            if isinstance(vals[0], Obj):
                # an iterator class of the code: steps are its own operators
                it = args[0].get() if n == "advance" else self.clone(vals[0])
                k = d if n != "prev" else -d
                if isinstance(k, T):
                    raise Undecided("step of unknown length")
                op = self.find_method(it.cls, "operator++" if k >= 0 else "operator--", 0)
                if op is None:
                    raise Undecided("iterator")
                for _ in range(abs(k)):
                    self.call(op, [], it)
                return None if n == "advance" else it
            if n == "advance":
                it = args[0].get()
                args[0].set(self.arith("+", it, d, "int"))
                return None
            return self.arith("+" if n == "next" else "-", vals[0], d, "int")
        if n == "distance" and isinstance(vals[0], Obj):
            it, k = self.clone(vals[0]), 0
            ne, eq = (self.find_method(it.cls, x) for x in ("operator!=", "operator=="))
            op = self.find_method(it.cls, "operator++", 0)
            if op is None or not (ne or eq):
                raise Undecided("iterator")
            while self.decide(self.call(ne, [vals[1]], it)) if ne else not self.decide(self.call(eq, [vals[1]], it)):
                self.call(op, [], it)
                k += 1
                if k > 100000:
                    raise Undecided("iteration")
            return k
        if n == "distance":
            return self.arith("-", vals[1], vals[0], "long")
        if n in ("begin", "end", "cbegin", "cend", "size", "ssize", "empty", "data"):
            o = vals[0]
            if isinstance(o, Obj):
                m = self.find_method(o.cls, n) or self.find_method(o.cls, {"cbegin": "begin", "cend": "end", "ssize": "size"}.get(n, n))
                if m:
                    return self.call(m, [], o)
            return self.builtin_mcall({"n": {"ssize": "size"}.get(n, n), "c": "std::", "q": q}, o, [], ty, fr)
        if n == "to_string":
            return str(vals[0])
        if n == "get" and q.startswith("std::get"):
            o = vals[0]
            if not re.match(r"\d+", str(f["ta"][0])):
                raise Undecided("std::get by type")
            i = int(re.match(r"\d+", str(f["ta"][0])).group())
            if isinstance(o, Obj):
                return Field(o, list(o.f)[i])
            return Elem(o, i)
        if n in ("isnan", "isinf", "isfinite", "signbit"):
            return T(n, vals[0]) if isinstance(vals[0], T) else (n == "isfinite" or (n == "signbit" and vals[0] < 0))
        if n in ("floor", "ceil", "round", "lround", "trunc"):
            if not isinstance(vals[0], T):
                import math

                return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}.get(n, lambda x: (math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))) if not isinstance(x, float) else (math.floor(x + 0.5) if x >= 0 else -math.floor(0.5 - x)))(vals[0])
            return T(n, vals[0])
        if n in ("clamp",):
            return tm.fn("max", vals[1], tm.fn("min", vals[0], vals[2]))
        if n in ("hypot",):
            return tm.fn("sqrt", tm.add(tm.mul(vals[0], vals[0]), tm.mul(vals[1], vals[1])))
        if n in ("fma",):
            return tm.add(tm.mul(vals[0], vals[1]), vals[2])
        if n in ("copysign",):
            if isinstance(vals[1], T):
                return T("copysign", *vals)
            a = tm.fn("abs", vals[0])
            return a if vals[1] >= 0 else tm.neg(a)
        if n in ("fmod", "remainder") and not any(isinstance(v, T) for v in vals):
            import math

            return getattr(math, n)(float(vals[0]), float(vals[1]))
        if n == "exp2":
            if isinstance(vals[0], T):
                raise Undecided("exp2")
            return 2.0 ** float(vals[0])
        if n == "cbrt" and not isinstance(vals[0], T):
            x = float(vals[0])
            return round(abs(x) ** (1 / 3)) * (1 if x >= 0 else -1) if round(abs(x) ** (1 / 3)) ** 3 == abs(x) else (abs(x) ** (1 / 3)) * (1 if x >= 0 else -1)
        if n == "div" and not any(isinstance(v, T) for v in vals):
            o = Obj("div_t")
            o.f["quot"], o.f["rem"] = self.arith("/", vals[0], vals[1], "int"), self.arith("%", vals[0], vals[1], "int")
            return o
        if q.startswith("std::") or q.startswith("__"):
            return self.builtin_algo(f, args, fr, ty)
        h = self.hooks.get("call")
        if h:
            r = h(self, f, args, None)
            if r is not NotImplemented:
                return r
        raise Undecided("call of %s" % q)

    def dyncast(self, p, t):
        if not isinstance(p, Ptr) or not isinstance(self.rv(p.t), Obj):
            raise Undecided("dynamic cast")
        return p if self.prog.derives(self.rv(p.t).cls, t.replace("const ", "")) else None

    def chk(self, vals):
        for v in vals:
            if isinstance(v, Undef):
                raise undef(v)
            if isinstance(v, (Obj, Opaque)):
                raise Undecided("arithmetic on an object")

    def dot(self, a, b):
        r = 0
        if len(a.d) != len(b.d):
            raise Undecided("dot length")
        for x, y in zip(a.d, b.d):
            if isinstance(x, Undef) or isinstance(y, Undef):
                raise undef(x, y)
            r = tm.add(r, tm.mul(x, y))
        return r

    def lvs(self, args):
        """interpret (range) or (it, it) leading arguments; returns lvalues, rest"""
        v = [self.rv(a) for a in args]
        if isinstance(v[0], It):
            return self.between(v[0], v[1]), args[2:], v[0]
        if isinstance(v[0], Obj) and v[0].cls.startswith("std::ranges::subrange"):
            return list(self.iterate(v[0])), args[1:], v[0].f["first"]
        l = list(self.iterate(v[0]))
        if isinstance(v[0], View):
            return l, args[1:], It(Arr([x.get() for x in l], "vec", "", ""), 0)
        return l, args[1:], It(v[0], 0) if isinstance(v[0], (Arr, Span)) else None

    PROJ = {"for_each": 1, "any_of": 1, "all_of": 1, "none_of": 1, "count_if": 1, "find_if": 1, "find_if_not": 1, "find": 1, "count": 1, "sort": 1, "stable_sort": 1,
            "max_element": 1, "min_element": 1, "minmax_element": 1, "max": 1, "min": 1, "is_sorted": 1, "unique": 1, "remove_if": 1, "remove": 1, "partition": 1,
            "lower_bound": 2, "upper_bound": 2, "binary_search": 2, "copy_if": 2, "transform": 2, "adjacent_find": 1}

    def projected(self, n, args):
        """arguments of a ranges algorithm without defaulted comparators and projections; a projection is composed with the callable"""
        v = [self.rv(a) for a in args]
        ident = lambda x: x == ("op", "std::identity") or isinstance(x, Obj) and x.cls == "std::identity"
        args = list(args)
        if not v:
            return args
        if isinstance(v[0], (Arr, Span, View, Map, Iota, Obj)) or isinstance(v[0], It):
            k = self.PROJ.get(n)
            k0 = 2 if isinstance(v[0], It) else 1
            if n == "transform" and len(v) > 3 and not (callable(v[k0 + 1]) or isinstance(v[k0 + 1], (Clo, tuple, Obj))):
                k = None
            if k is not None and len(args) > k0 + k:
                pr = v[k0 + k]
                if ident(pr):
                    del args[k0 + k :]
                else:
                    if len(args) != k0 + k + 1:
                        raise Undecided("projections of " + n)
                    i = k0 + k - 1
                    app = lambda x, pr=pr: (lambda y: y if isinstance(y, (Cell, Elem, Field)) else Cell(y))(self.callclo(pr, [x]))
                    if n in ("find", "count", "remove", "lower_bound", "upper_bound", "binary_search"):
                        t = v[k0]
                        if n in ("find", "count", "remove"):
                            # compared through a predicate
                            raise ProjectedValue({"find": "find_if", "count": "count_if", "remove": "remove_if"}[n], args[:k0] + [lambda ev, x: ev.compare("==", ev.rv(app(x)), t)])
                        raise Undecided("projection of " + n)
                    g = args[i]
                    args = args[:i] + [lambda ev, *xs: ev.callop(g, [ev.rv(app(x)) for x in xs]) if len(xs) > 1 else ev.callclo(g, [app(x) for x in xs])]
                    return args
        while len(args) > 1 and ident(self.rv(args[-1])):
            args.pop()
        return args

    def tail(self, f, it0, k, n):
        """what an algorithm that shortens a range returns: its new end, or the rest of the range"""
        if not f.get("c", "").startswith("std::ranges"):
            return It(it0.c, it0.i + k)
        o = Obj("std::ranges::subrange<>")
        o.f["first"], o.f["second"] = It(it0.c, it0.i + k), It(it0.c, it0.i + n)
        return o

    def builtin_algo(self, f, args, fr, ty):
        n = f["n"]
        if n == "operator()":
            m = re.search(r"__(\w+?)_fn", f["c"]) or re.search(r"::(\w+)$", re.sub(r"<.*", "", f["c"]))
            n = m.group(1) if m else n
        if n.endswith("_fn") and n.startswith("__"):
            n = n[2:-3]
        fc = f.get("c", "")
        if "::__cust" in fc or "__cust_access" in fc:
            m = re.search(r"::_(\w+)$", fc)
            n = {"cbegin": "begin", "cend": "end", "sSize": "size", "ssize": "size"}.get(m.group(1)[0].lower() + m.group(1)[1:], m.group(1)[0].lower() + m.group(1)[1:]) if m else n
            o = self.rv(args[0])
            m = self.find_method(o.cls, n) if isinstance(o, Obj) else None
            if m:
                return self.call(m, [], o)
            return self.builtin_mcall({"n": n, "c": "std::", "q": f["q"]}, o, [], ty, fr)
        if "ranges" in fc or "ranges" in f["q"]:
            try:
                args = self.projected(n, args)
            except ProjectedValue as e:
                n, args = e.args
        if n in ("for_each",):
            l, rest, _ = self.lvs(args)
            for x in l:
                self.callclo(rest[0], [x])
            return None
        if n == "for_each_n":
            v = [self.rv(a) for a in args]
            for k in range(v[1]):
                self.callclo(args[2], [Elem(v[0].c, v[0].i + k)])
            return None
        if n in ("generate",):
            l, rest, _ = self.lvs(args)
            for x in l:
                x.set(self.clone(self.rv(self.callclo(rest[0], []))))
            return None
        if n in ("generate_n",):
            v = [self.rv(a) for a in args]
            for k in range(v[1]):
                self.out(v[0], k, self.clone(self.rv(self.callclo(args[2], []))))
            return None
        if n in ("erase", "erase_if") and isinstance(self.rv(args[0]), Arr):
            o = self.rv(args[0])
            k0 = len(o.d)
            t = self.rv(args[1])
            keep = []
            for i in range(k0):
                e = self.rv(self.callclo(args[1], [Elem(o, i)])) if n == "erase_if" else self.compare("==", o.d[i], t)
                if not self.decide(e):
                    keep.append(o.d[i])
            o.d[:] = keep
            return k0 - len(keep)
        if n == "erase_if" and isinstance(self.rv(args[0]), Map):
            o = self.rv(args[0])
            drop = [k for k in o.keys() if self.decide(self.rv(self.callclo(args[1], [MapIt(o, k).lv()])))]
            for k in drop:
                o.d.pop(k)
            return len(drop)
        if n == "iter_swap":
            a, b = self.deref(self.rv(args[0])), self.deref(self.rv(args[1]))
            x, y = self.clone(a.get()), self.clone(b.get())
            a.set(y)
            b.set(x)
            return None
        if n == "swap_ranges":
            v = [self.rv(a) for a in args]
            for k, a in enumerate(self.between(v[0], v[1])):
                b = Elem(v[2].c, v[2].i + k)
                x, y = self.clone(a.get()), self.clone(b.get())
                a.set(y)
                b.set(x)
            return None
        if n == "rotate":
            v = [self.rv(a) for a in args]
            l = self.between(v[0], v[2])
            k = len(self.between(v[0], v[1]))
            x = [self.clone(y.get()) for y in l]
            for y, z in zip(l, x[k:] + x[:k]):
                y.set(z)
            return It(v[0].c, v[0].i + len(l) - k, v[0].rev) if not v[0].rev else None
        if n in ("minmax_element", "minmax") and (n == "minmax_element" or len(args) <= 2):
            o = Obj("std::pair<>")
            if n == "minmax":
                if len(args) == 2 and not isinstance(self.rv(args[0]), Arr):
                    a, b = self.rv(args[0]), self.rv(args[1])
                    if self.decide(self.compare("<", b, a)):
                        a, b = b, a
                    o.f["first"], o.f["second"] = a, b
                    return o
                raise Undecided("minmax")
            l, rest, it0 = self.lvs(args)
            lo = hi = 0
            for k in range(1, len(l)):
                if self.decide(self.lt(rest[0] if rest else None, l[k].get(), l[lo].get())):
                    lo = k
                if not self.decide(self.lt(rest[0] if rest else None, l[k].get(), l[hi].get())):
                    hi = k
            o.f["first"], o.f["second"] = It(it0.c, it0.i + lo), It(it0.c, it0.i + hi)
            return o
        if n in ("max", "min") and args and isinstance(self.rv(args[0]), (Arr, Span, View)):
            l, rest, _ = self.lvs(args)
            l = [x.get() for x in l]
            if not l:
                raise Oob("%s of an empty range" % n)
            r = l[0]
            for x in l[1:]:
                if rest:
                    if self.decide(self.lt(rest[0], r, x) if n == "max" else self.lt(rest[0], x, r)):
                        r = x
                else:
                    r = tm.fn(n, r, x)
            return r
        if n == "transform_reduce":
            v = [self.rv(a) for a in args]
            l = self.between(v[0], v[1])
            if len(v) == 4 or len(v) == 6 and isinstance(v[2], It):
                r = v[3]
                for k, x in enumerate(l):
                    y = Elem(v[2].c, v[2].i + k).get()
                    t = self.rv(self.callop(args[5], [x.get(), y])) if len(v) == 6 else self.ew("*", x.get(), y, "double")
                    r = self.rv(self.callop(args[4], [r, t])) if len(v) == 6 else self.ew("+", r, t, "double")
                return r
            r = v[2]
            for x in l:
                r = self.rv(self.callop(args[3], [r, self.rv(self.callclo(args[4], [x]))]))
            return r
        if n == "adjacent_difference":
            v = [self.rv(a) for a in args]
            l = [x.get() for x in self.between(v[0], v[1])]
            for k, x in enumerate(l):
                y = x if k == 0 else self.rv(self.callop(args[3], [x, l[k - 1]])) if len(v) > 3 else tm.sub(x, l[k - 1])
                self.out(v[2], k, y)
            return None
        if n == "adjacent_find":
            l, rest, it0 = self.lvs(args)
            for k in range(len(l) - 1):
                e = self.rv(self.callclo(rest[0], [l[k], l[k + 1]])) if rest else self.compare("==", l[k].get(), l[k + 1].get())
                if self.decide(e):
                    return It(it0.c, it0.i + k)
            return It(it0.c, it0.i + len(l))
        if n in ("partition", "stable_partition"):
            l, rest, it0 = self.lvs(args)
            v = [(self.clone(x.get()), self.decide(self.rv(self.callclo(rest[0], [x])))) for x in l]
            w = [x for x, y in v if y] + [x for x, y in v if not y]
            for x, y in zip(l, w):
                x.set(y)
            return It(it0.c, it0.i + sum(1 for _, y in v if y))
        if n == "search":
            v = [self.rv(a) for a in args]
            a, b = [x.get() for x in self.between(v[0], v[1])], [x.get() for x in self.between(v[2], v[3])]
            for k in range(len(a) - len(b) + 1):
                if all(self.decide(self.compare("==", a[k + i], y)) for i, y in enumerate(b)):
                    return It(v[0].c, v[0].i + k)
            return It(v[0].c, v[0].i + len(a))
        if n == "distance":
            l, _, _ = self.lvs(args)
            return len(l)
        if n == "mismatch":
            v = [self.rv(a) for a in args]
            l = self.between(v[0], v[1])
            k = 0
            while k < len(l) and (len(v) < 4 or not isinstance(v[3], It) or v[2].i + k < v[3].i):
                if not self.decide(self.compare("==", l[k].get(), Elem(v[2].c, v[2].i + k).get())):
                    break
                k += 1
            o = Obj("std::pair<>")
            o.f["first"], o.f["second"] = It(v[0].c, v[0].i + k), It(v[2].c, v[2].i + k)
            return o
        if n in ("set_intersection", "set_union", "set_difference", "set_symmetric_difference", "merge", "includes"):
            v = [self.rv(a) for a in args]
            if isinstance(v[0], It):
                a, b, r = self.between(v[0], v[1]), self.between(v[2], v[3]), args[4:]
            else:
                a, b, r = list(self.iterate(v[0])), list(self.iterate(v[1])), args[2:]
            a, b = [x.get() for x in a], [x.get() for x in b]
            cmpf = r[0 if n == "includes" else 1] if len(r) > (0 if n == "includes" else 1) else None
            res, i, j = [], 0, 0
            while i < len(a) or j < len(b):
                side = -1 if j == len(b) else 1 if i == len(a) else None
                if side is None:
                    side = -1 if self.decide(self.lt(cmpf, a[i], b[j])) else 1 if self.decide(self.lt(cmpf, b[j], a[i])) else 0
                if n == "merge":
                    res.append(b[j] if side > 0 else a[i])
                    i, j = (i, j + 1) if side > 0 else (i + 1, j)
                    continue
                if n == "includes" and side > 0:
                    return False
                if n == "set_union" or (n == "set_intersection") == (side == 0) and n != "set_difference" and n != "includes" or n == "set_difference" and side < 0:
                    res.append(b[j] if side > 0 else a[i])
                i, j = i + (side <= 0), j + (side >= 0)
            if n == "includes":
                return True
            out = self.rv(r[0])
            for k, x in enumerate(res):
                self.out(out, k, self.clone(x))
            return It(out.c, out.i + len(res)) if isinstance(out, It) else None
        if n in ("nth_element", "partial_sort"):
            v = [self.rv(a) for a in args]
            return self.builtin_algo({"n": "sort", "c": "", "q": "std::sort"}, [args[0], args[2]] + list(args[3:]), fr, ty)
        if n in ("make_tuple", "tie", "forward_as_tuple", "make_pair"):
            o = Obj("std::tuple<>" if n != "make_pair" else "std::pair<>")
            for k, a in enumerate(args):
                o.f[("first", "second")[k] if n == "make_pair" else "_%d" % k] = (Ptr(a) if isinstance(a, (Cell, Elem, Field)) else a) if n == "tie" else self.clone(self.rv(a))
            if n == "tie":
                o.cls = "tie"
            return o
        if n == "to_array":
            a = self.rv(args[0])
            return Arr([self.clone(x) for x in a.d], "sarr", ty, (targs(ty) or [""])[0])
        if n == "as_const":
            return args[0]
        if n == "midpoint":
            v = [self.rv(a) for a in args]
            return tm.div(tm.add(v[0], v[1]), 2) if is_float_type(ty) else self.arith("/", tm.add(v[0], v[1]), 2, ty)
        if n == "lerp":
            v = [self.rv(a) for a in args]
            return tm.add(v[0], tm.mul(v[2], tm.sub(v[1], v[0])))
        if n in ("cmp_less", "cmp_greater", "cmp_equal", "cmp_not_equal", "cmp_less_equal", "cmp_greater_equal"):
            v = [self.rv(a) for a in args]
            return tm.cmp({"cmp_less": "<", "cmp_greater": ">", "cmp_equal": "==", "cmp_not_equal": "!=", "cmp_less_equal": "<=", "cmp_greater_equal": ">="}[n], v[0], v[1])
        if n in ("lcm", "gcd"):
            import math

            v = [self.rv(a) for a in args]
            if not any(isinstance(x, T) for x in v):
                return getattr(math, n)(*v)
        if n in ("any_of", "all_of", "none_of", "count_if", "find_if", "find_if_not"):
            l, rest, it0 = self.lvs(args)
            if n == "count_if":
                c = 0
                for x in l:
                    r = self.callclo(rest[0], [x])
                    c += 1 if self.decide(self.rv(r)) else 0
                return c
            res = {"any_of": False, "all_of": True, "none_of": True}.get(n)
            for k, x in enumerate(l):
                r = self.decide(self.rv(self.callclo(rest[0], [x])))
                if n == "any_of" and r:
                    return True
                if n == "all_of" and not r:
                    return False
                if n == "none_of" and r:
                    return False
                if n == "find_if" and r or n == "find_if_not" and not r:
                    return It(it0.c, it0.i + k)
            if n.startswith("find"):
                return It(it0.c, it0.i + len(l))
            return res
        if n in ("transform",):
            v = [self.rv(a) for a in args]
            if isinstance(v[0], It) and len(v) == 4:
                src = [x.get() for x in self.between(v[0], v[1])]
                out = v[2]
                for k, x in enumerate(src):
                    self.out(out, k, self.rv(self.callclo(args[3], [Cell(x)])))
                return It(out.c, out.i + len(src), out.rev) if isinstance(out, It) else None
            if isinstance(v[0], It) and len(v) == 5:
                src = [x.get() for x in self.between(v[0], v[1])]
                for k, x in enumerate(src):
                    y = Elem(v[2].c, v[2].i + k).get()
                    self.out(v[3], k, self.rv(self.callop(args[4], [x, y])))
                return None
            if len(v) == 3:
                src = [x.get() for x in self.iterate(v[0])]
                for k, x in enumerate(src):
                    self.out(v[1], k, self.rv(self.callclo(args[2], [Cell(x)])))
                return None
        if n in ("copy", "copy_n", "move"):
            v = [self.rv(a) for a in args]
            if n == "copy_n":
                src = [Elem(v[0].c, v[0].i + k) for k in range(v[1])]
                out = v[2]
            elif isinstance(v[0], It):
                src, out = self.between(v[0], v[1]), v[2]
            else:
                src, out = list(self.iterate(v[0])), v[1]
            for k, x in enumerate([self.clone(x.get()) for x in src]):
                self.out(out, k, x)
            return It(out.c, out.i + len(src)) if isinstance(out, It) else None
        if n in ("copy_if", "remove_copy_if"):
            l, rest, _ = self.lvs(args)
            out = self.rv(rest[0])
            keep = [self.clone(x.get()) for x in l if self.decide(self.rv(self.callclo(rest[1], [x]))) == (n == "copy_if")]
            for k, x in enumerate(keep):
                self.out(out, k, x)
            return It(out.c, out.i + len(keep)) if isinstance(out, It) else None
        if n == "count":
            l, rest, _ = self.lvs(args)
            return sum(1 if self.decide(self.compare("==", x.get(), self.rv(rest[0]))) else 0 for x in l)
        if n == "is_sorted":
            l, rest, _ = self.lvs(args)
            v = [x.get() for x in l]
            return all(not self.decide(self.lt(rest[0] if rest else None, b, a)) for a, b in zip(v, v[1:]))
        if n == "replace":
            l, rest, _ = self.lvs(args)
            for x in l:
                if self.decide(self.compare("==", x.get(), self.rv(rest[0]))):
                    x.set(self.rv(rest[1]))
            return None
        if n in ("fill",):
            l, rest, _ = self.lvs(args)
            for x in l:
                x.set(self.clone(self.rv(rest[0])))
            return None
        if n == "fill_n":
            v = [self.rv(a) for a in args]
            for k in range(v[1]):
                Elem(v[0].c, v[0].i + k).set(self.clone(v[2]))
            return None
        if n == "iota":
            l, rest, _ = self.lvs(args)
            s = self.rv(rest[0])
            for k, x in enumerate(l):
                x.set(tm.add(s, k))
            return None
        if n in ("accumulate", "reduce"):
            l, rest, _ = self.lvs(args)
            r = self.rv(rest[0]) if rest else 0
            for x in l:
                r = self.rv(self.callop(rest[1], [r, x.get()])) if len(rest) > 1 else self.ew("+", r, x.get(), "double")
            return r
        if n == "inner_product":
            v = [self.rv(a) for a in args]
            r = v[3]
            for k, x in enumerate(self.between(v[0], v[1])):
                r = tm.add(r, tm.mul(x.get(), Elem(v[2].c, v[2].i + k).get()))
            return r
        if n in ("reverse",):
            l, rest, _ = self.lvs(args)
            vals = [self.clone(x.get()) for x in l]
            for x, y in zip(l, reversed(vals)):
                x.set(y)
            return None
        if n in ("equal",):
            v = [self.rv(a) for a in args]
            if isinstance(v[0], It):
                a = [x.get() for x in self.between(v[0], v[1])]
                b = [Elem(v[2].c, v[2].i + k).get() for k in range(len(a))]
            else:
                a = [x.get() for x in self.iterate(v[0])]
                b = [x.get() for x in self.iterate(v[1])]
                if len(a) != len(b):
                    return False
            r = True
            for x, y in zip(a, b):
                r = tm.land(r, self.compare("==", x, y))
            return r
        if n in ("max_element", "min_element"):
            l, rest, it0 = self.lvs(args)
            best = 0
            for k in range(1, len(l)):
                x, y = l[k].get(), l[best].get()
                c = self.lt(rest[0] if rest else None, y, x) if n == "max_element" else self.lt(rest[0] if rest else None, x, y)
                if self.decide(c):
                    best = k
            return It(it0.c, it0.i + best)
        if n in ("sort", "stable_sort"):
            l, rest, _ = self.lvs(args)
            vals = [self.clone(x.get()) for x in l]
            cmpf = rest[0] if rest else None
            out = []
            for v in vals:
                k = len(out)
                while k > 0 and self.decide(self.lt(cmpf, v, out[k - 1])):
                    k -= 1
                out.insert(k, v)
            for x, v in zip(l, out):
                x.set(v)
            return None
        if n in ("unique",):
            l, rest, it0 = self.lvs(args)
            vals = [x.get() for x in l]
            out = []
            for v in vals:
                if out:
                    e = self.rv(self.callclo(rest[0], [Cell(out[-1]), Cell(v)])) if rest else self.compare("==", out[-1], v)
                    if self.decide(e):
                        continue
                out.append(v)
            for x, v in zip(l, out):
                x.set(v)
            return self.tail(f, it0, len(out), len(l))
        if n == "remove":
            l, rest, it0 = self.lvs(args)
            v0 = self.rv(rest[0])
            out = [x.get() for x in l if not self.decide(self.compare("==", x.get(), v0))]
            for x, v in zip(l, out):
                x.set(v)
            return self.tail(f, it0, len(out), len(l))
        if n in ("remove_if",):
            l, rest, it0 = self.lvs(args)
            out = [x.get() for x in l if not self.decide(self.rv(self.callclo(rest[0], [x])))]
            for x, v in zip(l, out):
                x.set(v)
            return self.tail(f, it0, len(out), len(l))
        if n in ("find",):
            l, rest, it0 = self.lvs(args)
            for k, x in enumerate(l):
                if self.decide(self.compare("==", x.get(), self.rv(rest[0]))):
                    return It(it0.c, it0.i + k)
            return It(it0.c, it0.i + len(l))
        if n in ("binary_search",):
            l, rest, it0 = self.lvs(args)
            r = False
            for x in l:
                if self.decide(self.compare("==", x.get(), self.rv(rest[0]))):
                    return True
            return r
        if n in ("upper_bound", "lower_bound"):
            l, rest, it0 = self.lvs(args)
            val = self.rv(rest[0])
            for k, x in enumerate(l):
                y = x.get()
                cf = rest[1] if len(rest) > 1 else None
                c = self.lt(cf, val, y) if n == "upper_bound" else tm.lnot(self.lt(cf, y, val))
                if self.decide(c):
                    return It(it0.c, it0.i + k)
            return It(it0.c, it0.i + len(l))
        if n in ("greater", "less"):
            v = [self.rv(a) for a in args]
            return tm.cmp(">" if n == "greater" else "<", v[0], v[1])
        if n in ("lexicographical_compare",):
            v = [self.rv(a) for a in args]
            a = [x.get() for x in self.between(v[0], v[1])]
            b = [x.get() for x in self.between(v[2], v[3])]
            for x, y in zip(a, b):
                if self.decide(tm.cmp("<", x, y)):
                    return True
                if self.decide(tm.cmp("<", y, x)):
                    return False
            return len(a) < len(b)
        if n in ("exclusive_scan", "inclusive_scan", "partial_sum"):
            v = [self.rv(a) for a in args]
            acc = v[3] if n == "exclusive_scan" else 0
            for k, x in enumerate([x.get() for x in self.between(v[0], v[1])]):
                if n == "exclusive_scan":
                    self.out(v[2], k, acc)
                    acc = tm.add(acc, x)
                else:
                    acc = tm.add(acc, x)
                    self.out(v[2], k, acc)
            return None
        if n in ("terminate", "abort"):
            raise PathEnd("terminate")
        if n in ("endl", "setprecision", "setw"):
            return None
        if n == "back_inserter":
            return ("back", self.rv(args[0]))
        h = self.hooks.get("call")
        if h:
            r = h(self, f, args, None)
            if r is not NotImplemented:
                return r
        raise Undecided("library call %s" % f["q"])

    def callop(self, fn, vals):
        f = self.rv(fn)
        if isinstance(f, Obj) and not f.f and f.cls.startswith("std::"):
            f = ("op", f.cls.split("<")[0])
        if isinstance(f, tuple) and f[0] == "op" and f[1].split("::")[-1] in ("logical_and", "logical_or", "logical_not", "negate", "divides", "modulus", "not_equal_to", "bit_and", "bit_or"):
            b = f[1].split("::")[-1]
            if b == "logical_not":
                return tm.lnot(vals[0])
            if b == "negate":
                return self.negv(vals[0])
            if b == "not_equal_to":
                return self.compare("!=", *vals)
            if b.startswith("logical"):
                return (tm.land if b == "logical_and" else tm.lor)(*vals)
            if b == "divides":
                if all(isinstance(x, int) for x in vals):
                    raise Undecided("std::divides on integers")
                return self.ew("/", vals[0], vals[1], "double")
            return self.arith({"modulus": "%", "bit_and": "&", "bit_or": "|"}[b], vals[0], vals[1], "int")
        if isinstance(f, tuple) and f[0] == "op":
            b = {"std::multiplies": "*", "std::plus": "+", "std::minus": "-"}.get(f[1])
            if b:
                return self.ew(b, vals[0], vals[1], "double")
            b = {"less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">=", "equal_to": "=="}.get(f[1].split("::")[-1])
            if b:
                return self.compare(b, vals[0], vals[1])
            if f[1] == "std::identity":
                return vals[0]
        return self.callclo(fn, [Cell(v) for v in vals])

    def lt(self, cmpf, a, b):
        if cmpf is None:
            return self.compare("<", a, b)
        f = self.rv(cmpf)
        if isinstance(f, Obj) and not f.f and f.cls.startswith("std::"):
            f = ("op", f.cls.split("<")[0])
        if isinstance(f, tuple) and f[0] == "op":
            return self.compare(">" if "greater" in f[1] else "<", a, b)
        return self.rv(self.callclo(cmpf, [Cell(a), Cell(b)]))

    def out(self, it, k, v):
        if isinstance(it, tuple) and it[0] == "back":
            it[1].d.append(v)
        elif it.rev:
            Elem(it.c, it.i - 1 - k).set(v)
        else:
            Elem(it.c, it.i + k).set(v)


class IotaIt:
    def __init__(self, i):
        self.i = i


class MapElem(Cell):
    __slots__ = ("m", "k")

    def __init__(self, m, k):
        self.m, self.k = m, k

    def get(self):
        return self.m.d[self.k][1]

    def set(self, v):
        self.m.d[self.k] = (self.m.d[self.k][0], v)


class MapIt(It):
    __slots__ = ("m", "k")

    def __init__(self, m, k):
        self.m, self.k = m, k
        self.c, self.i, self.rev = None, 0, False

    def step(self, d):
        ks = self.m.keys()
        i = (len(ks) if self.k is None else ks.index(self.k)) + d
        if not 0 <= i <= len(ks):
            raise Oob("iterator of a map moved out of its range")
        return MapIt(self.m, ks[i] if i < len(ks) else None)

    def lv(self):
        if self.k is None:
            raise Oob("past-the-end iterator of a map dereferenced")
        if self.m.isset:
            return Cell(self.m.d[self.k][0])
        o = Obj("std::pair<>")
        a, b = self.m.d[self.k]
        o.f = _PairF(first=a, second=b)
        o.f.m, o.f.k = self.m, self.k
        return Cell(o)


class _PairF(dict):
    """members of a map element: assignments go to the map"""
    __slots__ = ("m", "k")

    def __setitem__(self, n, v):
        dict.__setitem__(self, n, v)
        if n == "second" and self.k in self.m.d:
            self.m.d[self.k] = (self.m.d[self.k][0], v)


def paths(mk, run, limit=64):
    """all decision paths of an abstract evaluation.
    mk() -> Eval, run(Eval) -> value; yields (Eval, outcome, value)"""
    todo = [[]]
    n = 0
    while todo:
        dec = todo.pop()
        ev = mk()
        ev.decisions = dec
        try:
            v = run(ev)
            out = ("ok", v)
        except CxxThrow as e:
            out = ("throw", e)
        except PathEnd as e:
            out = ("end", e.why)
        except Oob as e:
            out = ("oob", e)
        n += 1
        for k in range(len(dec), len(ev.taken)):
            todo.append(ev.taken[:k] + [not ev.taken[k]])
        yield ev, out[0], out[1]
        if n >= limit and todo:
            raise Undecided("more than %d paths" % limit)
