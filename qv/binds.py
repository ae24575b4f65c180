"""The binding layer seen by the abstract evaluation: the routines that register classes and
functions are evaluated with a recording module, and the registered callables are then evaluated
with values that come from the Python side."""
import re
from fractions import Fraction as Fr
from . import terms as tm
from .terms import T
from .cxxsym import *
from .cxxeval import Clo, COMPOUND, Map, Cell, Elem, Field, It, Ptr, Obj, Arr, Span, Undef

NB = "nanobind::"


class Arg:
    def __init__(self, name, default=None, has=False):
        self.name, self.default, self.has = name, default, has


class Pol:
    def __init__(self, n):
        self.n = n


class Def:
    """one registered overload"""

    def __init__(self, name, fn, args, policy, doc, tu, kind="f"):
        self.name, self.fn, self.args, self.policy, self.doc, self.tu, self.kind = name, fn, args, policy, doc, tu, kind

    def ptypes(self):
        if isinstance(self.fn, Clo):
            d = self.fn.insts[0]
            return [self.fn.tu.types[p["t"]] for p in d["p"]]
        return None

    def line(self):
        if isinstance(self.fn, Clo):
            d = self.fn.insts[0]
            return d.get("l") or d["b"].get("l") or 0
        return 0


class Cls:
    def __init__(self, name, cpp, bases):
        self.name, self.cpp, self.bases = name, cpp, bases
        self.m = {}


class Module:
    cls = NB + "module_"

    def __init__(self):
        self.fns, self.classes, self.enums, self.attrs = {}, {}, {}, {}
        self.order = []


class Nd:
    """nb::ndarray: memory with a shape, and who keeps the memory alive"""

    def __init__(self, data, shape, owner=None, strides=None, ty="", py=None):
        self.data, self.shape, self.owner, self.strides, self.ty, self.py = data, shape, owner, strides, ty, py
        self.cast = False

    def size(self):
        n = 1
        for s in self.shape:
            n *= s
        return n


class Capsule:
    def __init__(self, p, deleter):
        self.p, self.deleter = p, deleter


class PyTuple:
    def __init__(self, items):
        self.items = items


def snapshot(ev, nd):
    """a copy of the memory of the array now"""
    out = []
    for k in range(nd.size()):
        out.append(read(ev, nd.data, k))
    r = Nd(None, list(nd.shape), None, None, nd.ty)
    r.vals = out
    r.cast = True
    return r


def read(ev, p, k):
    if p is None:
        raise Oob("access through a null pointer")
    p = ev.rv(p)
    if isinstance(p, It):
        return p.c.getat(p.i + k)
    if isinstance(p, Ptr):
        t = p.t
        if isinstance(t, Elem):
            return t.c.getat(t.i + k)
        v = ev.rv(t)
        if isinstance(v, Arr):
            return v.getat(k)
        if k == 0:
            return v
    raise Undecided("memory of an array")


def parents(ev, roots):
    """containers of compound elements reachable from the roots: element -> (container, position)"""
    objs = {}
    reachable(ev, roots, objs)
    out = {}
    for o in objs.values():
        if isinstance(o, Arr):
            for k, x in enumerate(o.d):
                if isinstance(x, Arr):
                    out[id(x)] = (o, k)
    return out


def memory(ev, nd, roots):
    """the values an array refers to; consecutive elements of a container of fixed-size vectors are contiguous"""
    p = ev.rv(nd.data) if nd.data is not None else None
    n = nd.size()
    st = nd.strides
    if not n:
        return []
    if isinstance(p, Ptr) and isinstance(p.t, Elem):
        p = It(p.t.c, p.t.i)
    if not isinstance(p, It) or p.i + n <= len(p.c.d) and st is None:
        if st is not None:
            raise Undecided("strided array")
        return [read(ev, p, k) for k in range(n)]
    data = list(p.c.d)
    par = parents(ev, roots).get(id(p.c))
    if par:
        o, k = par
        data = [y for x in o.d[k:] for y in (x.d if isinstance(x, Arr) else [x])]
    idx = range(n)
    if st is not None:
        st = [ev.rv(x) for x in (st.d if isinstance(st, Arr) else st)]
        idx = []
        for t in range(n):
            q, off = t, 0
            for s, m in reversed(list(zip(st, nd.shape))):
                off += (q % m) * s
                q //= m
            idx.append(off)
    out = []
    for i in idx:
        if not (0 <= p.i + i < len(data)):
            raise Oob("entry %d of the memory an array of %d entries refers to" % (p.i + i, len(data)))
        out.append(data[p.i + i])
    return [ev.rv(x) for x in out]


def container(ev, p):
    """the object a data pointer points into"""
    p = ev.rv(p)
    if isinstance(p, It):
        return p.c
    if isinstance(p, Ptr):
        t = p.t
        if isinstance(t, Elem):
            return t.c
        if isinstance(t, Field):
            return t.o
        return ev.rv(t)
    return None


def reachable(ev, roots, objs=None):
    seen = set()
    st = list(roots)
    while st:
        v = st.pop()
        if v is None or isinstance(v, (int, float, str, T)):
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        if objs is not None:
            objs[id(v)] = v
        if isinstance(v, (Cell, Elem, Field)):
            if isinstance(v, Elem):
                st.append(v.c)
            if isinstance(v, Field):
                st.append(v.o)
            try:
                st.append(v.get())
            except Exception:
                pass
        elif isinstance(v, Arr):
            st.extend(v.d)
            st.extend(v.f.values())
        elif isinstance(v, Obj):
            st.extend(v.f.values())
        elif isinstance(v, (It, Span)):
            st.append(v.c)
        elif isinstance(v, Ptr):
            st.append(v.t)
        elif isinstance(v, Map):
            for a, b in v.d.values():
                st += [a, b]
        elif isinstance(v, Clo):
            f = v.frame
            st.extend(getattr(f, "vars", {}).values())
            st.append(v.this)
        elif isinstance(v, Nd):
            st += [v.data, v.owner]
        elif isinstance(v, Capsule):
            st.append(v.p)
        elif isinstance(v, (list, tuple)):
            st.extend(v)
    return seen


def hooks(mod):
    h = {}

    def isnb(f, what):
        return f["c"].startswith(NB + what)

    def s(ev, a):
        a = ev.rv(a)
        if isinstance(a, str):
            return a
        raise Undecided("name of a registered object")

    def mk(ev, args, kind, tu):
        name, fn, args_, pol, doc = s(ev, args[0]), ev.rv(args[1]), [], None, None
        for x in args[2:]:
            x = ev.rv(x)
            if isinstance(x, Arg):
                args_.append(x)
            elif isinstance(x, str):
                doc = x
            elif isinstance(x, int):
                pol = x
        d = Def(name, fn, args_, pol, doc, None, kind)
        return d

    def m_def(ev, f, args, o):
        if not isnb(f, ""):
            return NotImplemented
        kind = {"def": "f", "def_prop_ro": "p", "def_static": "s", "def_ro": "r", "def_rw": "r", "def_prop_rw": "p"}.get(f["n"])
        d = mk(ev, args, kind, None)
        if isinstance(o, Module):
            o.fns.setdefault(d.name, []).append(d)
            o.order.append(d)
        elif isinstance(o, Cls):
            o.m.setdefault(d.name, []).append(d)
        else:
            raise Undecided("registration on %r" % (o,))
        return o

    for n in ("def", "def_prop_ro", "def_static", "def_ro", "def_rw", "def_prop_rw"):
        h["m:" + n] = m_def

    def c_class(ev, cls, args):
        from .cxxeval import targs

        ta = targs(cls)
        m = ev.rv(args[0])
        c = Cls(s(ev, args[1]), ta[0], ta[1:])
        m.classes[c.name] = c
        return c

    h["ctor:" + NB + "class_"] = c_class

    def c_enum(ev, cls, args):
        from .cxxeval import targs

        c = Cls(s(ev, args[1]), targs(cls)[0], [])
        c.values = {}
        ev.rv(args[0]).enums[c.name] = c
        return c

    h["ctor:" + NB + "enum_"] = c_enum

    def m_value(ev, f, args, o):
        if not isnb(f, "enum_"):
            return NotImplemented
        o.values[s(ev, args[0])] = ev.rv(args[1])
        return o

    old_value = h.get("m:value")
    h["m:value"] = m_value
    h["m:export_values"] = lambda ev, f, args, o: o if isnb(f, "enum_") else NotImplemented

    h["ctor:" + NB + "arg"] = lambda ev, cls, args: ev.rv(args[0]) if args and isinstance(ev.rv(args[0]), Arg) else Arg(ev.rv(args[0]) if args else None)

    def arg_assign(ev, f, args, o):
        v = [ev.rv(a) for a in args]
        return Arg(o.name, v[0], True)

    h[NB + "arg::operator="] = arg_assign
    h[NB + "none"] = lambda ev, f, args, o: None
    h["ctor:" + NB + "handle"] = lambda ev, cls, args: None if not args else ev.rv(args[0])
    h["ctor:" + NB + "object"] = lambda ev, cls, args: None if not args else ev.rv(args[0])
    h["ctor:" + NB + "tuple"] = lambda ev, cls, args: None if not args else ev.rv(args[0])

    def c_capsule(ev, cls, args):
        v = [ev.rv(a) for a in args]
        if len(v) == 1 and (isinstance(v[0], Capsule) or v[0] is None):
            return v[0]
        return Capsule(v[0], v[1] if len(v) > 1 else None)

    h["ctor:" + NB + "capsule"] = c_capsule

    def c_nd(ev, cls, args):
        v = [ev.rv(a) for a in args]
        if not v:
            return Nd(None, [0], None, None, cls)
        if isinstance(v[0], Nd):
            return v[0]
        p = v[0]
        if len(v) > 1 and isinstance(v[1], (Arr, list)):
            sh = [ev.rv(x) for x in (v[1].d if isinstance(v[1], Arr) else v[1])]
            owner = v[2] if len(v) > 2 else None
            st = v[3] if len(v) > 3 else None
        else:
            n = v[1]
            sh = [read(ev, v[2], k) for k in range(n)]
            owner = v[3] if len(v) > 3 else None
            st = v[4] if len(v) > 4 else None
        if isinstance(st, (Arr, Span)):
            st = [ev.rv(x) for x in st.d] if isinstance(st, Arr) else None
        for x in sh:
            if not isinstance(x, int):
                raise Undecided("shape of an array")
        return Nd(p, sh, owner, st or None, cls)

    h["ctor:" + NB + "ndarray"] = c_nd

    def nd_m(fn):
        def hook(ev, f, args, o):
            if not isinstance(o, Nd):
                return NotImplemented
            return fn(ev, o, [ev.rv(a) for a in args])

        return hook

    h["m:data"] = nd_m(lambda ev, o, a: o.data)
    h["m:size"] = nd_m(lambda ev, o, a: o.size())
    h["m:ndim"] = nd_m(lambda ev, o, a: len(o.shape))

    def nd_shape(ev, o, a):
        if not (0 <= a[0] < len(o.shape)):
            raise Oob("axis %s of an array of %d axes" % (a[0], len(o.shape)))
        return o.shape[a[0]]

    h["m:shape"] = nd_m(nd_shape)
    h["m:cast"] = nd_m(lambda ev, o, a: snapshot(ev, o))

    def nd_get(ev, f, args, o):
        if not isinstance(o, Nd):
            return NotImplemented
        i = [ev.rv(a) for a in args]
        if len(i) != len(o.shape):
            raise Oob("%d indices for an array of %d axes" % (len(i), len(o.shape)))
        k = 0
        for j, (x, n) in enumerate(zip(i, o.shape)):
            if not (0 <= x < n):
                raise Oob("index %s out of range 0..%d" % (x, n))
            k = k * n + x if o.strides is None else k + x * o.strides[j]
        return Elem(o.data.c, o.data.i + k)

    mod.nd_get = nd_get

    def make_tuple(ev, f, args, o):
        out = []
        for a in args:
            a = ev.rv(a)
            out.append(snapshot(ev, a) if isinstance(a, Nd) and not a.cast else a)
        return PyTuple(out)

    h[NB + "make_tuple"] = make_tuple

    def nbcast(ev, f, args, o):
        a = ev.rv(args[0])
        return snapshot(ev, a) if isinstance(a, Nd) and not a.cast else a

    h[NB + "cast"] = nbcast
    h["m:doc"] = lambda ev, f, args, o: ("attr", o, "__doc__") if isinstance(o, Module) else NotImplemented
    h["m:attr"] = lambda ev, f, args, o: ("attr", o, ev.rv(args[0])) if isinstance(o, Module) else NotImplemented

    def attr_set(ev, f, args, o):
        if isinstance(o, tuple) and o[0] == "attr":
            o[1].attrs[o[2]] = ev.rv(args[0])
        return o

    h[NB + "attr_proxy::operator="] = attr_set
    h[NB + "set_leak_warnings"] = lambda ev, f, args, o: None
    return h


def load(P, extra=None):
    """evaluate every registration routine of the wrappers"""
    mod = Module()
    hk = dict(uf_hooks())
    hk.update(hooks(mod))
    hk.update(extra or {})
    roots = [F for F in P.funcs.values() if F.q.startswith("nb_module_init_") and F.body is not None]
    return mod, hk, roots


# ---------------------------------------------------------------- Python side
class Mismatch(Exception):
    pass


NP = {"double": "f8", "float": "f4", "long": "i8", "int": "i4", "unsigned long": "u8", "bool": "b1"}
REFERENCE = (2, 5)  # policies under which the array neither is copied nor keeps its parent


class Bridge:
    """the compiled module as the Python package sees it"""

    def __init__(self, P, extra=None):
        self.P = P
        self.mod, self.hk, roots = load(P, extra)
        if not roots:
            raise AnalysisBroken("initialisation routine of the compiled module not found")
        self.nd_op()
        for F in roots:
            ev = Eval(P, hooks=self.hk, max_steps=2000000)
            ev.call(F, [self.mod])
            self.called = set(ev.called)
        self.problems = []
        self.calls = []

    def nd_op(self):
        P = self.P
        for tu in getattr(P, "tus", []):
            pass
        get = self.mod.nd_get

        class H(dict):
            def get(s, k, d=None):
                if isinstance(k, str) and k.startswith(NB + "ndarray<") and k.endswith("::operator()"):
                    return get
                return dict.get(s, k, d)

        self.hk = H(self.hk)

    # ------------------------------------------------------------ conversions
    def to_cxx(self, it, ev, ty, v, convert, keep):
        from . import pynp
        from .pyeval import Obj as PO, U
        from .cxxeval import targs

        t = ty.replace("const ", "") if ty.startswith("const ") else ty
        if isinstance(v, U):
            raise Undecided("opaque argument")
        if t.startswith("std::optional<"):
            if v is None:
                return None
            return self.to_cxx(it, ev, targs(t)[0], v, convert, keep)
        if isinstance(v, pynp.A) and v.shape == ():
            sc = pynp.scalar_of(v)
        else:
            sc = v
        if t in ("double", "float"):
            if isinstance(sc, bool) and not convert:
                raise Mismatch()
            if isinstance(sc, (int, float, Fr, T)) and not isinstance(v, (list, tuple)) and (not isinstance(v, pynp.A) or v.shape == ()):
                return sc
            raise Mismatch()
        if t == "bool":
            if isinstance(sc, bool) or (isinstance(sc, T) and not isinstance(v, pynp.A)):
                return sc
            raise Mismatch()
        if t in ("int", "long", "unsigned long", "unsigned int"):
            if isinstance(sc, int) and not isinstance(v, (list, tuple)):
                return sc
            raise Mismatch()
        if t.startswith("std::basic_string"):
            if isinstance(v, str):
                return v
            raise Mismatch()
        if t.startswith(NB + "ndarray<"):
            if not isinstance(v, pynp.A):
                raise Mismatch()
            a = targs(t)
            et = a[0].replace("const ", "").strip()
            shp = None
            for x in a[1:]:
                if x.startswith(NB + "shape<"):
                    shp = [int(k.rstrip("L")) for k in targs(x)]
            if shp is not None:
                if len(shp) != len(v.shape) or any(m != -1 and m != n for m, n in zip(shp, v.shape)):
                    raise Mismatch()
            same = v.dt.kind == pynp.D[NP[et]].kind and v.dt.itemsize == pynp.D[NP[et]].itemsize
            if not same:
                if not convert or not a[0].startswith("const "):
                    raise Mismatch()
            import numpy as np

            w, off, st = v.w, 0, None
            nw = v.dt.nw
            if not w.flags.c_contiguous and same:
                if any(x.endswith("c_contig") for x in a[1:]):
                    if not convert:
                        raise Mismatch()
                else:
                    # accepted as it is: the callable sees the memory of the array it is a view of
                    r = w
                    while isinstance(r.base, np.ndarray):
                        r = r.base
                    if not (r.flags.c_contiguous and r.dtype == w.dtype):
                        raise Undecided("strided array")
                    o = (w.__array_interface__["data"][0] - r.__array_interface__["data"][0]) // r.itemsize
                    st = [x // (r.itemsize * nw) for x in w.strides[:-1]]
                    r = r.reshape(-1)
                    h = o % nw
                    off = o // nw
                    vals = [pynp.get(r[k : k + nw], v.dt) for k in range(h, len(r) - nw + 1, nw)]
            if st is None:
                vals = [x for x in pynp.els(v).reshape(-1)]
            data = Arr([ev.conv(x, et) for x in vals], "np", "", et)
            nd = Nd(It(data, off), list(v.shape), None, st, t)
            keep.append(nd)
            return nd
        if t.startswith(("std::array<", "std::vector<")):
            a = targs(t)
            if isinstance(v, pynp.A):
                # elements of an array are not exact Python numbers: they need a conversion
                if not v.shape or not convert and v.shape[0] and len(v.shape) == 1:
                    raise Mismatch()
                items = [pynp.getitem(it, v, i) for i in range(v.shape[0])]
            elif isinstance(v, (list, tuple)):
                items = list(v)
            else:
                raise Mismatch()
            if t.startswith("std::array<") and len(items) != int(a[1].rstrip("UL")):
                raise Mismatch()
            d = [self.to_cxx(it, ev, a[0], x, convert, keep) for x in items]
            return stdarr(d, a[0]) if t.startswith("std::array<") else stdvec(d, a[0])
        sp = t.startswith("std::shared_ptr<")
        c = targs(t)[0].replace("const ", "") if sp else t
        if isinstance(v, PO) and "__cxx__" in v.f:
            o = v.f["__cxx__"]
            if self.derives(o.cls, c):
                return Ptr(o) if sp else o
            raise Mismatch()
        if v is None and sp:
            return None
        raise Mismatch()

    def derives(self, cls, base):
        if cls == base:
            return True
        if cls.startswith("qv::"):
            return re.sub(r"\D*", "", base) in ("21", "31") or "DomainFunc" in base or "ImplicitFunc" in base
        r = self.P.records.get(cls)
        if not r:
            return False
        return any(self.derives(b["q"] if isinstance(b, dict) else b, base) for b in self.bases(cls))

    def bases(self, cls):
        r = self.P.records.get(cls)
        return [b for b in (r[0].get("bases") or [])] if r else []

    def dtype(self, ty):
        from .cxxeval import targs

        et = targs(ty)[0].replace("const ", "").strip()
        return NP.get(et)

    def to_py(self, it, ev, v, d, args):
        from . import pynp

        v = ev.rv(v)
        if isinstance(v, Nd):
            n = v.size()
            if v.cast:
                vals = v.vals
            else:
                if n:
                    self.check_life(ev, v, d, args)
                vals = memory(ev, v, args)
            a = pynp.asA(it, [x for x in vals], pynp.D[self.dtype(v.ty)])
            return pynp.reshape(it, a, tuple(v.shape)) if len(v.shape) != 1 else a
        if isinstance(v, PyTuple):
            return tuple(self.to_py(it, ev, x, d, args) for x in v.items)
        if isinstance(v, Ptr):
            v = ev.rv(v.t)
            if v is None:
                return None
        if isinstance(v, Obj):
            return self.wrap(v)
        if isinstance(v, Arr):
            if v.cls in self.byclass:
                return self.wrap(v)
            return [self.to_py(it, ev, x, d, args) for x in v.d]
        return v

    def check_life(self, ev, nd, d, args):
        root = container(ev, nd.data)
        if root is None:
            return
        if isinstance(nd.owner, Capsule):
            if id(root) not in reachable(ev, [nd.owner.p]):
                self.problems.append((d, "the array refers to memory that its owner does not hold"))
            return
        r = set()
        for a in args:
            r |= reachable(ev, [a])
        if id(root) not in r:
            self.problems.append((d, "the array refers to memory that is gone when the callable returns"))
        elif d.policy in REFERENCE:
            self.problems.append((d, "the array keeps neither a copy nor the owner of its memory"))
        elif args and d.policy == 6 and id(root) not in reachable(ev, [args[0]]):
            self.problems.append((d, "the array refers to memory of an argument that it does not keep alive"))

    def wrap(self, o):
        from .pyeval import Obj as PO

        k = id(o)
        if k in self.wrapped:
            return self.wrapped[k]
        c = self.byclass.get(o.cls)
        if c is None:
            for b in self.allbases(o.cls):
                if b in self.byclass:
                    c = self.byclass[b]
                    break
        if c is None:
            raise Undecided("class %s is not registered" % o.cls)
        p = PO(c)
        p.f["__cxx__"] = o
        self.wrapped[k] = p
        return p

    def allbases(self, cls):
        out = []
        for b in self.bases(cls):
            b = b["q"] if isinstance(b, dict) else b
            out += [b] + self.allbases(b)
        return out

    # ------------------------------------------------------------------ calls
    def match(self, it, ev, d, args, kw, convert, keep, this=None):
        pt = d.ptypes()
        if pt is None:
            f = d.fn[1]
            F = self.P.lookup(f["m"], d.fn[2] if len(d.fn) > 2 else None)
            pt = [None] + [F.tu.types[p["t"]] for p in F.params]
        names = [None] * len(pt)
        defs = [None] * len(pt)
        off = 1 if d.kind in ("p", "r") or (this is not None) else 0
        if d.args and len(d.args) != len(pt) - off:
            raise AnalysisBroken("%s: %d argument names for %d parameters" % (d.name, len(d.args), len(pt) - off))
        for k, a in enumerate(d.args):
            names[off + k] = a.name
            defs[off + k] = a
        vals = list(args)
        if len(vals) > len(pt):
            raise Mismatch()
        kw = dict(kw)
        for k in range(len(vals), len(pt)):
            if names[k] in kw and names[k] is not None:
                vals.append(kw.pop(names[k]))
            elif defs[k] is not None and defs[k].has:
                vals.append(("dflt", defs[k].default))
            else:
                raise Mismatch()
        if kw:
            raise Mismatch()
        out = []
        for v, t in zip(vals, pt):
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "dflt":
                out.append(v[1])
            elif t is None:
                out.append(v.f["__cxx__"])
            else:
                out.append(self.to_cxx(it, ev, t, v, convert, keep))
        return out

    def invoke(self, it, defs, args, kw, this=None):
        for convert in (False, True):
            for d in defs:
                ev = Eval(self.P, hooks=self.hk, max_steps=4000000)
                ev.uvzero = True
                ev.decider = lambda e, c: it.decide(c) if it is not None else None
                keep = []
                try:
                    a = self.match(it, ev, d, args, kw, convert, keep, this)
                except Mismatch:
                    continue
                self.calls.append((d, a))
                if isinstance(d.fn, Clo):
                    r = ev.callclo(d.fn, a)
                elif isinstance(d.fn, tuple) and d.fn[0] == "fn":
                    F = self.P.lookup(d.fn[1]["m"], d.fn[2] if len(d.fn) > 2 else None)
                    if F is None:
                        raise Undecided("registered routine %s" % d.name)
                    r = ev.call(F, a[1:], a[0])
                else:
                    raise Undecided("registered callable %r" % (d.fn,))
                self.called |= ev.called
                return self.to_py(it, ev, r, d, a)
        raise it.exc("TypeError", "%s(): incompatible function arguments" % defs[0].name)

    def module(self):
        """the abstract module object handed to the interpretation of the package"""
        from .pyeval import Module as PM, Native, Class, Prop

        m = PM("qugar.cpp", "cpp", None)
        m.ready = True
        self.byclass, self.wrapped = {}, {}

        def native(name, defs, meth=False):
            def fn(it, a, k):
                return self.invoke(it, defs, a, k, a[0] if meth else None)

            return Native("qugar.cpp." + name, fn)

        for n, ds in self.mod.fns.items():
            m.g[n] = native(n, ds)
        for n, c in self.mod.classes.items():
            d = {}
            for k, ds in c.m.items():
                nt = native(n + "." + k, ds, True)
                d[k] = Prop(nt) if ds[0].kind in ("p", "r") else nt
            b = [self.byclass[x] for x in c.bases if x in self.byclass]
            pc = Class(n, b, d, m, None)
            self.byclass.setdefault(c.cpp, pc)
            m.g[n] = pc
        for n, c in self.mod.enums.items():
            pc = Class(n, [], dict(c.values), m, None)
            m.g[n] = pc
        for n, v in self.mod.attrs.items():
            m.g[n] = v
        return m
