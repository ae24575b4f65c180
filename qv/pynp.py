"""Array domain and library models of the Python abstract interpreter.

An abstract array has a known shape, a dtype tag and abstract entries.  Entries
are stored as 4-byte words so that reinterpreting views (`a.view(dtype)`) of the
same memory are represented exactly; slices and reshapes of an abstract array
alias their base as numpy's do."""
import itertools, math
import numpy as np
from . import terms as tm
from .terms import T
from .cxxeval import Undecided


class DT:
    SZ = {"bool": 1, "u1": 1, "i1": 1, "i2": 2, "u2": 2, "i4": 4, "u4": 4, "i8": 8, "u8": 8, "f4": 4, "f8": 8, "c8": 8, "c16": 16, "obj": 8, "str": 8}
    NAMES = {"bool": "bool", "u1": "uint8", "i1": "int8", "i2": "int16", "u2": "uint16", "i4": "int32", "u4": "uint32", "i8": "int64", "u8": "uint64", "f4": "float32", "f8": "float64", "c8": "complex64", "c16": "complex128", "obj": "object", "str": "str"}

    def __init__(self, n, flds=()):
        self.n, self.flds = n, tuple(flds)  # fields (name, type) of a record type

    def __eq__(self, o):
        return isinstance(o, DT) and (o.n, o.flds) == (self.n, self.flds)

    def __hash__(self):
        return hash((self.n, self.flds))

    @property
    def itemsize(self):
        return sum(d.itemsize for _, d in self.flds) if self.n == "rec" else self.SZ[self.n]

    @property
    def nw(self):
        if self.n == "rec":
            return sum(d.nw for _, d in self.flds)
        return max(1, self.itemsize // 4) if self.n not in ("obj", "str") else 1

    def field(self, name):
        o = 0
        for k, d in self.flds:
            if k == name:
                return o, d
            o += d.nw
        return None

    @property
    def kind(self):
        return {"b": "b", "u": "u", "i": "i", "f": "f", "c": "c", "o": "O", "s": "U", "r": "V"}[self.n[0]]

    def __repr__(self):
        return "dtype(%s)" % self.NAMES.get(self.n, self.n)


D = {k: DT(k) for k in DT.SZ}
NPNAMES = {"float64": "f8", "double": "f8", "float32": "f4", "int32": "i4", "int64": "i8", "intp": "i8", "int_": "i8", "uint8": "u1", "int8": "i1", "int16": "i2", "uint16": "u2", "uint32": "u4", "uint64": "u8", "bool_": "bool", "complex64": "c8", "complex128": "c16", "object_": "obj", "str_": "str", "intc": "i4", "longlong": "i8"}


class W:
    """k-th 4-byte word of a value stored with dtype dt"""

    __slots__ = ("v", "dt", "k")

    def __init__(self, v, dt, k):
        self.v, self.dt, self.k = v, dt, k

    def __repr__(self):
        return "W(%s,%s,%d)" % (self.v, self.dt, self.k)


class Bits:
    """memory of values of another type read through a view"""

    __slots__ = ("ws", "dt")

    def __init__(self, ws, dt):
        self.ws, self.dt = ws, dt

    def __repr__(self):
        return "Bits(%s as %s)" % (list(self.ws), self.dt)


class A:
    __slots__ = ("w", "dt", "flags")

    def __init__(self, w, dt):
        self.w, self.dt = w, dt
        self.flags = None

    @property
    def shape(self):
        return self.w.shape[:-1]

    def __repr__(self):
        return "A%s%s" % (self.shape, DT.NAMES.get(self.dt.n, self.dt.n))

    def __hash__(self):
        return id(self)


def oarr(shape):
    return np.empty(shape, dtype=object)


def conv(v, dt):
    """value stored in an array of type dt"""
    if isinstance(v, (T,)):
        if dt.kind in "iu" and v.op not in ("sym", "floor", "trunc") and not _is_int(v):
            return v
        return v
    if isinstance(v, Bits):
        return v
    k = dt.kind
    if k in "iu" and isinstance(v, (float, bool, int, np.generic)):
        if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
            return v
        v = int(v)
        if dt.n != "i8" and dt.n != "u8":
            b = dt.itemsize * 8
            v &= (1 << b) - 1
            if k == "i" and v >= 1 << (b - 1):
                v -= 1 << b
        return v
    if k == "f" and isinstance(v, (int, bool, float)):
        v = float(v)
        return int(v) if v == int(v) and abs(v) < 2**53 else v if math.isfinite(v) else v
    if k == "b" and isinstance(v, (int, float, bool)):
        return bool(v)
    if k == "c" and isinstance(v, (int, bool, float)):
        return int(v) if float(v) == int(v) else float(v)
    return v


def _is_int(t):
    return False


def from_els(a, dt):
    """abstract array from an object ndarray of scalar values"""
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    nw = dt.nw
    w = oarr(a.shape + (nw,))
    for i in np.ndindex(*a.shape):
        put(w, i, a[i], dt)
    return A(w, dt)


def put(w, i, v, dt):
    nw = dt.nw
    if dt.n == "rec":
        if isinstance(v, T) and v.op == "uninit" or v == 0 and not isinstance(v, (T, tuple)):
            v = (v,) * len(dt.flds)
        if not isinstance(v, tuple) or len(v) != len(dt.flds):
            raise Undecided("record from %r" % (v,))
        o = 0
        for x, (_, d) in zip(v, dt.flds):
            z = oarr((d.nw,))
            put(z, (), x, d)
            w[i][o : o + d.nw] = z
            o += d.nw
        return
    v = conv(v, dt)
    if isinstance(v, Bits):
        if len(v.ws) == nw:
            for k in range(nw):
                w[i + (k,)] = v.ws[k]
            return
        raise Undecided("reinterpreted value stored with another size")
    if nw == 1:
        w[i + (0,)] = v
    else:
        for k in range(nw):
            w[i + (k,)] = W(v, dt.n, k)


def get(ws, dt):
    if dt.n == "rec":
        o, r = 0, []
        for _, d in dt.flds:
            r.append(get(ws[o : o + d.nw], d))
            o += d.nw
        return tuple(r)
    nw = dt.nw
    if nw == 1:
        x = ws[0]
        if isinstance(x, W):
            return 0 if isinstance(x.v, int) and x.v == 0 and not isinstance(x.v, bool) else Bits((x,), dt.n)
        return x
    x = ws[0]
    if isinstance(x, W) and x.dt == dt.n and all(isinstance(y, W) and y.dt == x.dt and y.k == k and (y.v is x.v or _same(y.v, x.v)) for k, y in enumerate(ws)):
        return x.v
    if all((isinstance(y, W) and isinstance(y.v, int) and y.v == 0) or (isinstance(y, int) and y == 0) for y in ws):
        return 0
    if isinstance(x, W) and D[x.dt].kind == dt.kind and D[x.dt].itemsize == dt.itemsize and all(isinstance(y, W) and y.v is x.v and y.k == k for k, y in enumerate(ws)):
        return x.v
    return Bits(tuple(ws), dt.n)


def _same(a, b):
    return type(a) is type(b) and not isinstance(a, T) and a == b


def els(a):
    out = oarr(a.shape)
    if a.dt.nw == 1 and a.dt.n != "rec" and not _anyW(a.w):
        out[...] = a.w[..., 0]
        return out
    for i in np.ndindex(*a.shape):
        out[i] = get(a.w[i], a.dt)
    return out


def _anyW(w):
    for x in w.ravel():
        if isinstance(x, W):
            return True
    return False


def scalar_of(a):
    e = els(a)
    if e.size != 1:
        raise Undecided("truth/scalar of an array with %d entries" % e.size)
    return e.reshape(-1)[0]


def unwrap(a):
    """0-d abstract arrays become scalars"""
    if isinstance(a, A) and a.shape == ():
        return scalar_of(a)
    return a


def toint(it, k):
    from .pyeval import SliceV, Obj

    if isinstance(k, A) and k.shape == ():
        return scalar_of(k)
    if isinstance(k, float) and not isinstance(k, bool):
        return k
    return k


def dt_of(x, default=None):
    from .pyeval import U, ExcType, Native

    if isinstance(x, DT):
        return x
    if x is None:
        return default or D["f8"]
    if isinstance(x, str):
        m = {"f": "f4", "d": "f8", "b": "bool", "O": "obj", "i": "i4", "l": "i8", "int": "i8", "float": "f8", "bool": "bool"}
        if x in NPNAMES:
            return D[NPNAMES[x]]
        if x in m:
            return D[m[x]]
        if x in D:
            return D[x]
    if isinstance(x, Native):
        m = {"int": "i8", "float": "f8", "bool": "bool", "str": "str", "object": "obj", "complex": "c16"}
        if x.name in m:
            return D[m[x.name]]
    if isinstance(x, list) and x and all(isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], str) for t in x):
        return DT("rec", [(n, dt_of(d)) for n, d in x])
    raise Undecided("dtype %r" % (x,))


def infer(vals):
    k = "i8"
    seen = False
    allb = True
    for v in vals:
        seen = True
        if isinstance(v, bool) or isinstance(v, T) and v.op in ("<", "<=", "==", "and", "or", "not", "truth", "==u", "cmpu"):
            continue
        allb = False
        if isinstance(v, (float, T)):
            k = "f8"
        elif isinstance(v, int):
            pass
        elif isinstance(v, str):
            return D["str"]
        elif isinstance(v, complex):
            return D["c16"]
        else:
            return D["obj"]
    if not seen:
        return D["f8"]
    return D["bool"] if allb else D[k]


ORD = ["bool", "u1", "i1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "str", "obj"]


def promote(*dts):
    dts = [d for d in dts if d is not None]
    if not dts:
        return D["f8"]
    r = max(dts, key=lambda d: ORD.index(d.n) if d.n in ORD else 99)
    if r.n == "f4" and any(d.n in ("i4", "i8", "u4", "u8") for d in dts):
        return D["f8"]
    if r.n == "c8" and any(d.n in ("f8", "i8", "i4") for d in dts):
        return D["c16"]
    if r.n == "u8" and any(d.kind == "i" for d in dts):
        return D["f8"]
    return r


def asA(it, x, dt=None, copy=False):
    from .pyeval import U, Obj

    if isinstance(x, A):
        if dt is not None and dt != x.dt:
            return from_els(els(x), dt)
        if copy:
            return A(x.w.copy(), x.dt)
        return x
    if isinstance(x, U):
        raise Undecided("array from %r" % x)
    o = nested(it, x)
    sub = None
    if dt is None:
        dts = []
        _dts(x, dts)
        sub = promote(*dts) if dts else None
        vals = [v for v in o.ravel()]
        dt = sub if sub is not None and not any(isinstance(v, float) for v in vals) else promote(*( [sub] if sub else []), infer(vals)) if sub else infer(vals)
    return from_els(o, dt)


def _dts(x, out):
    if isinstance(x, A):
        out.append(x.dt)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _dts(y, out)


def nested(it, x):
    from .pyeval import Obj, GenCall, U

    if isinstance(x, A):
        return els(x)
    if isinstance(x, (range, set, frozenset, Iter, GenCall)) or (isinstance(x, Obj) and getattr(x.cls, "namedtuple", False)):
        x = list(it.iter(x))
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return oarr((0,))
        parts = [nested(it, y) for y in x]
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise it.exc("ValueError", "inhomogeneous array shape")
        out = oarr((len(parts),) + sh)
        for i, p in enumerate(parts):
            out[i] = p if sh else p[()]
        return out
    out = oarr(())
    out[()] = x
    return out


class Iter:
    def __init__(self, xs):
        self.xs, self.i = xs, 0

    def take(self, it):
        r = self.xs[self.i :]
        self.i = len(self.xs)
        return r


# ------------------------------------------------------------------ indexing
def _index(it, k):
    from .pyeval import SliceV, U

    if isinstance(k, tuple):
        return tuple(_index1(it, x) for x in k)
    return (_index1(it, k),)


def _index1(it, k):
    from .pyeval import SliceV, U

    if isinstance(k, SliceV):
        f = lambda x: x if x is None else _ci(it, x)
        return slice(f(k.a), f(k.b), f(k.c))
    if k is None or k is Ellipsis:
        return k
    if isinstance(k, A):
        e = els(k)
        if k.dt.n == "bool":
            return np.array([it.truth(v) for v in e.ravel()], dtype=bool).reshape(e.shape)
        for v in e.ravel():
            if not isinstance(v, (int, float)) or isinstance(v, float):
                if isinstance(v, float) and k.dt.kind in "iu":
                    continue
                if isinstance(v, float):
                    raise it.exc("IndexError", "arrays used as indices must be of integer type")
                raise Undecided("abstract array index %r" % (v,))
        if k.dt.kind not in "iub" and e.size:
            raise it.exc("IndexError", "arrays used as indices must be of integer type")
        return e.astype(np.int64) if e.size else np.zeros(e.shape, np.int64)
    if isinstance(k, (list, range)):
        if len(k) == 0:
            return np.zeros(0, np.int64)
        return _index1(it, asA(it, list(k)))
    if isinstance(k, bool):
        return k
    if isinstance(k, int):
        return k
    if isinstance(k, float):
        raise it.exc("IndexError", "float index")
    raise Undecided("abstract index %r" % (k,))


def _ci(it, x):
    x = unwrap(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        raise it.exc("TypeError", "slice indices must be integers")
    raise Undecided("abstract slice bound %r" % (x,))


def getitem(it, a, k):
    if isinstance(k, str) and a.dt.n == "rec":
        f = a.dt.field(k)
        if f is None:
            raise it.exc("ValueError", "no field of name %s" % k)
        return A(a.w[..., f[0] : f[0] + f[1].nw], f[1])
    idx = _index(it, k)
    if any(i is Ellipsis for i in idx):
        idx = idx + (slice(None),)
    try:
        w = a.w[idx] if len(idx) <= a.w.ndim - 1 + sum(1 for i in idx if i is None or i is Ellipsis) + (1 if any(i is Ellipsis for i in idx) else 0) + sum(i.ndim - 1 for i in idx if isinstance(i, np.ndarray) and i.dtype == bool) * -1 else _toomany(it, a, idx)
    except IndexError as e:
        raise it.exc("IndexError", str(e))
    r = A(w, a.dt)
    return unwrap(r)


def _toomany(it, a, idx):
    raise it.exc("IndexError", "too many indices: array is %d-dimensional" % (a.w.ndim - 1))


def setitem(it, a, k, v):
    from .pyeval import U

    if isinstance(k, str) and a.dt.n == "rec":
        return setitem(it, getitem(it, a, k), (Ellipsis,), v)
    idx = _index(it, k)
    if any(i is Ellipsis for i in idx):
        idx = idx + (slice(None),)
    n = sum(1 for i in idx if not (i is None or i is Ellipsis))
    try:
        sh = a.w[idx].shape[:-1]
    except IndexError as e:
        raise it.exc("IndexError", str(e))
    if isinstance(v, U):
        raise Undecided("store of %r" % v)
    va = asA(it, v, a.dt) if not isinstance(v, A) else asA(it, v, a.dt)
    src = va.w
    try:
        while src.ndim - 1 > len(sh) and src.shape[0] == 1:
            src = src[0]
        src = np.broadcast_to(src, sh + (a.dt.nw,))
    except ValueError:
        raise it.exc("ValueError", "could not broadcast %s into %s" % (va.shape, sh))
    a.w[idx] = src.copy()


def iterate(it, a):
    if a.shape == ():
        raise it.exc("TypeError", "iteration over a 0-d array")
    return [unwrap(A(a.w[i], a.dt)) for i in range(a.shape[0])]


# ----------------------------------------------------------------- operations
CMP = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}


def binary(it, op, a, b):
    from .pyeval import scal, U

    A_, B_ = asA(it, a), asA(it, b)
    ea, eb = els(A_), els(B_)
    if op == "MatMult":
        return matmul(it, A_, B_)
    try:
        sh = np.broadcast_shapes(ea.shape, eb.shape)
    except ValueError:
        raise it.exc("ValueError", "operands could not be broadcast together %s %s" % (ea.shape, eb.shape))
    ea, eb = np.broadcast_to(ea, sh), np.broadcast_to(eb, sh)
    out = oarr(sh)
    for i in np.ndindex(*sh):
        x, y = ea[i], eb[i]
        if op in CMP:
            if op == "Eq":
                out[i] = it.eq(x, y)
            elif op == "NotEq":
                r = it.eq(x, y)
                out[i] = tm.lnot(r) if isinstance(r, T) else not r
            else:
                out[i] = tm.cmp(CMP[op], x, y) if isinstance(x, (int, float, T)) and isinstance(y, (int, float, T)) else it.compare(op, x, y)
        elif isinstance(x, (U, Bits)) or isinstance(y, (U, Bits)):
            out[i] = U("op", op, x, y)
        elif op in ("Div", "FloorDiv", "Mod") and not isinstance(y, T) and y == 0:
            out[i] = float("nan") if op == "Div" else 0
        else:
            out[i] = scal(it, op, x, y)
    if op in CMP:
        dt = D["bool"]
    else:
        # python scalars are weakly typed
        da = A_.dt if isinstance(a, A) else None
        db = B_.dt if isinstance(b, A) else None
        if da is None or db is None:
            d = da or db
            o = B_.dt if da is not None else A_.dt
            if d is None:
                dt = promote(A_.dt, B_.dt)
            elif o.kind in "biu" or o.kind == d.kind or d.kind in "fc" and o.kind in "fiub":
                dt = d if not (d.kind == "b" and o.kind in "iu") else D["i8"]
            else:
                dt = promote(d, o)
        else:
            dt = promote(da, db)
        if op == "Div" and dt.kind in "iub":
            dt = D["f8"]
        if dt.kind == "b" and op in ("Add", "Mult", "Sub"):
            dt = D["bool"] if op != "Sub" else D["i8"]
    return unwrap(from_els(out, dt))


def unary(it, op, a):
    e = els(a)
    out = oarr(e.shape)
    for i in np.ndindex(*e.shape):
        v = e[i]
        if op == "USub":
            out[i] = tm.neg(v) if isinstance(v, T) else -v
        elif op == "Invert":
            out[i] = tm.lnot(v) if isinstance(v, T) else (not v if a.dt.n == "bool" else ~v)
        else:
            out[i] = v
    return unwrap(from_els(out, a.dt))


def iop(it, a, op, b):
    r = binary(it, op, a, b)
    r = asA(it, r)
    if a.dt.kind in "iu" and r.dt.kind in "fc":
        raise it.exc("TypeError", "cannot cast the result of an in-place operation to %s" % a.dt)
    try:
        a.w[...] = np.broadcast_to(asA(it, r, a.dt).w, a.w.shape)
    except ValueError:
        raise it.exc("ValueError", "in-place broadcast")


def matmul(it, a, b):
    from .pyeval import scal

    ea, eb = els(a), els(b)
    s0, s1 = ea.ndim == 1, eb.ndim == 1
    if s0:
        ea = ea.reshape(1, -1)
    if s1:
        eb = eb.reshape(-1, 1)
    if ea.ndim != 2 or eb.ndim != 2:
        raise Undecided("matmul of higher rank")
    if ea.shape[1] != eb.shape[0]:
        raise it.exc("ValueError", "matmul shapes %s %s" % (ea.shape, eb.shape))
    out = oarr((ea.shape[0], eb.shape[1]))
    for i in range(ea.shape[0]):
        for j in range(eb.shape[1]):
            s = 0
            for k in range(ea.shape[1]):
                s = scal(it, "Add", s, scal(it, "Mult", ea[i, k], eb[k, j]))
            out[i, j] = s
    if s0:
        out = out[0]
    if s1:
        out = out[..., 0]
    return unwrap(from_els(np.array(out, dtype=object) if not isinstance(out, np.ndarray) else out, promote(a.dt, b.dt)))


def ushape(it, sh):
    sh = unwrap(sh)
    if isinstance(sh, int):
        return (sh,)
    if isinstance(sh, A):
        sh = list(els(sh))
    out = []
    for s in sh:
        s = unwrap(s)
        if isinstance(s, float) and s == int(s) and False:
            s = int(s)
        if not isinstance(s, int):
            if isinstance(s, float):
                raise it.exc("TypeError", "float array dimension")
            raise Undecided("abstract array shape")
        out.append(int(s))
    return tuple(out)


def reshape(it, a, sh):
    sh = ushape(it, sh)
    n = int(np.prod(a.shape, dtype=int)) if a.shape else 1
    if -1 in sh:
        r = 1
        for s in sh:
            if s != -1:
                r *= s
        if r == 0 or n % r:
            if not (r == 0 and n == 0):
                raise it.exc("ValueError", "cannot reshape %s into %s" % (a.shape, sh))
        sh = tuple((n // r if r else 0) if s == -1 else s for s in sh)
    if int(np.prod(sh, dtype=int)) != n:
        raise it.exc("ValueError", "cannot reshape %s into %s" % (a.shape, sh))
    return A(a.w.reshape(sh + (a.dt.nw,)), a.dt)


def view(it, a, dt):
    if dt == a.dt:
        return A(a.w, a.dt)
    n0, n1 = a.dt.nw, dt.nw
    if any(d.itemsize < 4 or d.n in ("obj", "str") for t in (a.dt, dt) for d in ([x for _, x in t.flds] or [t])):
        raise Undecided("view of sub-word type")
    if n0 == n1:
        return A(a.w, dt)
    if not a.w.flags.c_contiguous:
        if a.shape and a.w.strides[-1] != a.w.itemsize:
            raise it.exc("ValueError", "view of a non-contiguous array")
        raise Undecided("view of a non-contiguous array")
    if not a.shape:
        raise Undecided("view of 0-d")
    last = a.shape[-1] * n0
    if last % n1:
        raise it.exc("ValueError", "view: itemsize mismatch")
    return A(a.w.reshape(a.shape[:-1] + (last // n1, n1)), dt)


def reduce_(it, a, axis, f, init, keepdims=False):
    e = els(a)
    if axis is None:
        r = init
        for v in e.ravel():
            r = v if r is None else f(r, v)
        return r
    axis = int(axis)
    e = np.moveaxis(e, axis, 0)
    out = oarr(e.shape[1:])
    for i in np.ndindex(*e.shape[1:]):
        r = init
        for v in e[(slice(None),) + i]:
            r = v if r is None else f(r, v)
        out[i] = r
    if keepdims:
        out = np.expand_dims(out, axis)
    return out


def conc_key(it, v, what="sort"):
    if isinstance(v, tuple):
        return tuple(conc_key(it, x) for x in v)
    if isinstance(v, (int, float, str)):
        return v
    raise Undecided("%s of abstract values" % what)


def concs(it, a, what):
    return [conc_key(it, v, what) for v in els(a).ravel()]


# -------------------------------------------------------------- numpy models
NP = {}


def npf(*names):
    def d(f):
        for n in names:
            NP[n] = f
        return f

    return d


def sig(names, defaults=None):
    """bind args/kw to names"""
    defaults = defaults or {}

    def b(it, args, kw):
        v = dict(defaults)
        if len(args) > len(names):
            raise Undecided("arguments of a library call")
        for n, x in zip(names, args):
            v[n] = x
        for n, x in kw.items():
            if n not in names and n not in defaults:
                raise Undecided("argument %s of a library call" % n)
            v[n] = x
        return v

    return b


def _dtkw(kw, default=None):
    return dt_of(kw["dtype"], default) if kw.get("dtype") is not None else default


@npf("array", "asarray", "ascontiguousarray", "asfortranarray", "atleast_1d")
def n_array(it, a, k, name="array"):
    b = sig(["object", "dtype"], {"dtype": None, "copy": None, "order": None, "ndmin": 0, "a": None})(it, a, k)
    x = b.get("object", b.get("a"))
    dt = dt_of(b["dtype"]) if b["dtype"] is not None else None
    r = asA(it, x, dt, copy=True)
    return r


def _asarray(it, a, k):
    b = sig(["a", "dtype"], {"dtype": None, "order": None, "copy": None})(it, a, k)
    dt = dt_of(b["dtype"]) if b["dtype"] is not None else None
    return asA(it, b["a"], dt)


NP["asarray"] = _asarray


@npf("ascontiguousarray")
def n_ascontig(it, a, k):
    b = sig(["a", "dtype"], {"dtype": None})(it, a, k)
    r = asA(it, b["a"], dt_of(b["dtype"]) if b["dtype"] is not None else None)
    if not r.w.flags.c_contiguous:
        r = A(np.ascontiguousarray(r.w), r.dt)
    if r.shape == ():
        r = reshape(it, r, (1,))
    return r


@npf("atleast_1d")
def n_atleast1(it, a, k):
    r = asA(it, a[0])
    return r if r.shape else reshape(it, r, (1,))


@npf("atleast_2d")
def n_atleast2(it, a, k):
    r = asA(it, a[0])
    return r if len(r.shape) >= 2 else reshape(it, r, (1, -1))


def filled(it, sh, v, dt):
    sh = ushape(it, sh)
    for s in sh:
        if s < 0:
            raise it.exc("ValueError", "negative dimensions are not allowed")
    o = oarr(sh)
    for i in np.ndindex(*sh):
        o[i] = v
    return from_els(o, dt)


@npf("zeros")
def n_zeros(it, a, k):
    b = sig(["shape", "dtype"], {"dtype": None, "order": None})(it, a, k)
    return filled(it, b["shape"], 0, dt_of(b["dtype"], D["f8"]))


@npf("empty")
def n_empty(it, a, k):
    from .pyeval import U

    b = sig(["shape", "dtype"], {"dtype": None, "order": None})(it, a, k)
    return filled(it, b["shape"], T("uninit"), dt_of(b["dtype"], D["f8"]))


@npf("ones")
def n_ones(it, a, k):
    b = sig(["shape", "dtype"], {"dtype": None, "order": None})(it, a, k)
    return filled(it, b["shape"], 1, dt_of(b["dtype"], D["f8"]))


@npf("full")
def n_full(it, a, k):
    b = sig(["shape", "fill_value", "dtype"], {"dtype": None})(it, a, k)
    v = unwrap(b["fill_value"])
    return filled(it, b["shape"], v, dt_of(b["dtype"]) if b["dtype"] is not None else infer([v]))


@npf("zeros_like")
def n_zl(it, a, k):
    x = asA(it, a[0])
    return filled(it, x.shape, 0, _dtkw(k, x.dt))


@npf("ones_like")
def n_ol(it, a, k):
    x = asA(it, a[0])
    return filled(it, x.shape, 1, _dtkw(k, x.dt))


@npf("empty_like")
def n_el(it, a, k):
    x = asA(it, a[0])
    return filled(it, x.shape, T("uninit"), _dtkw(k, x.dt))


@npf("full_like")
def n_fl(it, a, k):
    x = asA(it, a[0])
    return filled(it, x.shape, a[1] if len(a) > 1 else k["fill_value"], _dtkw(k, x.dt))


@npf("eye", "identity")
def n_eye(it, a, k):
    n = _ci(it, a[0])
    m = _ci(it, a[1]) if len(a) > 1 and a[1] is not None else n
    o = oarr((n, m))
    for i in range(n):
        for j in range(m):
            o[i, j] = int(i == j)
    return from_els(o, _dtkw(k, D["f8"]))


@npf("arange")
def n_arange(it, a, k):
    a = [unwrap(x) for x in a]
    dt = _dtkw(k)
    if "start" in k or "stop" in k or "step" in k:
        a = [k.get("start", a[0] if a else 0), k["stop"]] + ([k["step"]] if "step" in k else [])
    if len(a) == 4:
        dt, a = dt_of(a[3]), a[:3]
    if any(isinstance(x, T) for x in a):
        raise Undecided("arange with abstract bounds")
    v = list(np.arange(*[x for x in a]))
    v = [x.item() for x in v]
    return from_els(np.array(v, dtype=object).reshape(len(v)), dt or infer(v or [0]))


@npf("linspace")
def n_linspace(it, a, k):
    from .pyeval import scal

    b = sig(["start", "stop", "num"], {"num": 50, "endpoint": True, "dtype": None, "retstep": False})(it, a, k)
    n = _ci(it, b["num"])
    s, e = unwrap(b["start"]), unwrap(b["stop"])
    den = n - 1 if b["endpoint"] else n
    v = [scal(it, "Add", s, scal(it, "Mult", scal(it, "Sub", e, s), tm.div(i, den))) if den else s for i in range(n)]
    v = [float(x) if not isinstance(x, T) else x for x in v]
    return asA(it, v, D["f8"])


def axis_of(x, nd):
    return x % nd if isinstance(x, int) else x


@npf("concatenate", "hstack", "vstack", "stack", "column_stack")
def n_cat(it, a, k):
    raise NotImplementedError


def _cat(it, parts, axis):
    parts = [asA(it, p) for p in parts]
    if not parts:
        raise it.exc("ValueError", "need at least one array to concatenate")
    dt = promote(*[p.dt for p in parts])
    ws = [asA(it, p, dt).w for p in parts]
    nd = ws[0].ndim - 1
    try:
        return A(np.concatenate(ws, axis=axis % nd if nd else 0), dt)
    except ValueError as e:
        raise it.exc("ValueError", str(e))


def _aslist(it, x):
    return list(it.iter(x))


NP["concatenate"] = lambda it, a, k: (lambda b: _cat(it, _aslist(it, b["arrays"]), b["axis"]) if b["axis"] is not None else _cat(it, [reshape(it, asA(it, p), (-1,)) for p in _aslist(it, b["arrays"])], 0))(sig(["arrays", "axis"], {"axis": 0, "dtype": None})(it, a, k))
NP["hstack"] = lambda it, a, k: (lambda ps: _cat(it, ps, 0 if len(ps[0].shape) == 1 else 1))([NP["atleast_1d"](it, [p], {}) for p in _aslist(it, a[0])])
NP["vstack"] = lambda it, a, k: _cat(it, [NP["atleast_2d"](it, [p], {}) for p in _aslist(it, a[0])], 0)
NP["row_stack"] = NP["vstack"]
NP["column_stack"] = lambda it, a, k: _cat(it, [(lambda x: x if len(x.shape) > 1 else reshape(it, x, (-1, 1)))(asA(it, p)) for p in _aslist(it, a[0])], 1)


@npf("stack")
def n_stack(it, a, k):
    b = sig(["arrays", "axis"], {"axis": 0})(it, a, k)
    ps = [asA(it, p) for p in _aslist(it, b["arrays"])]
    dt = promote(*[p.dt for p in ps])
    nd = ps[0].w.ndim
    ax = b["axis"]
    ax = ax if ax >= 0 else ax + nd
    try:
        return A(np.stack([asA(it, p, dt).w for p in ps], axis=ax), dt)
    except ValueError as e:
        raise it.exc("ValueError", str(e))


@npf("append")
def n_append(it, a, k):
    b = sig(["arr", "values", "axis"], {"axis": None})(it, a, k)
    if b["axis"] is None:
        return _cat(it, [reshape(it, asA(it, b["arr"]), (-1,)), reshape(it, asA(it, b["values"]), (-1,))], 0)
    return _cat(it, [b["arr"], b["values"]], b["axis"])


@npf("copy")
def n_copy(it, a, k):
    return asA(it, a[0], None, copy=True)


@npf("reshape")
def n_reshape(it, a, k):
    x, sh = asA(it, a[0]), a[1] if len(a) > 1 else k.get("shape", k.get("newshape"))
    o = k.get("order", a[2] if len(a) > 2 else "C")
    if o == "F":
        sh = ushape(it, sh)
        return transpose(reshape(it, reshape(it, transpose(x, None), (-1,)), sh[::-1]), None)
    if o != "C":
        raise Undecided("reshape order %r" % (o,))
    return reshape(it, x, sh)


@npf("ravel")
def n_ravel(it, a, k):
    x = asA(it, a[0])
    o = k.get("order", a[1] if len(a) > 1 else "C")
    if o == "F":
        x = transpose(x, None)
    elif o != "C":
        raise Undecided("ravel order %r" % (o,))
    return reshape(it, x, (-1,))


def transpose(a, axes):
    n = a.w.ndim - 1
    axes = list(range(n))[::-1] if axes is None else [x % n for x in axes]
    return A(a.w.transpose(axes + [n]), a.dt)


@npf("transpose")
def n_tr(it, a, k):
    return transpose(asA(it, a[0]), [int(x) for x in it.iter(a[1])] if len(a) > 1 and a[1] is not None else None)


@npf("swapaxes")
def n_swap(it, a, k):
    x = asA(it, a[0])
    n = x.w.ndim - 1
    return A(x.w.swapaxes(a[1] % n, a[2] % n), x.dt)


@npf("moveaxis")
def n_move(it, a, k):
    x = asA(it, a[0])
    n = x.w.ndim - 1
    return A(np.moveaxis(x.w, a[1] % n, a[2] % n), x.dt)


@npf("squeeze")
def n_squeeze(it, a, k):
    x = asA(it, a[0])
    return unwrap(A(x.w.reshape(tuple(s for s in x.shape if s != 1) + (x.dt.nw,)), x.dt))


@npf("expand_dims")
def n_expand(it, a, k):
    x = asA(it, a[0])
    ax = a[1] if len(a) > 1 else k["axis"]
    n = x.w.ndim
    return A(np.expand_dims(x.w, ax if ax >= 0 else ax + n - 0), x.dt)


@npf("tile")
def n_tile(it, a, k):
    x = asA(it, a[0])
    r = a[1] if len(a) > 1 else k["reps"]
    r = ushape(it, r)
    e = np.tile(els(x), r)
    return from_els(e, x.dt)


@npf("repeat")
def n_repeat(it, a, k):
    b = sig(["a", "repeats", "axis"], {"axis": None})(it, a, k)
    x = asA(it, b["a"])
    r = b["repeats"]
    r = [_ci(it, v) for v in els(asA(it, r)).ravel()]
    if b["axis"] is None:
        x = reshape(it, x, (-1,))
        ax = 0
    else:
        ax = b["axis"] % len(x.shape)
    n = x.shape[ax]
    if len(r) == 1:
        r = r * n
    if len(r) != n:
        raise it.exc("ValueError", "operands could not be broadcast together (repeat)")
    return A(np.repeat(x.w, r, axis=ax), x.dt)


def _add(it):
    from .pyeval import scal

    return lambda p, q: scal(it, "Add", p, q)


def _mul(it):
    from .pyeval import scal

    return lambda p, q: scal(it, "Mult", p, q)


def _redu(it, a, k, f, init, names=("a", "axis"), dtf=None):
    b = sig(list(names), {"axis": None, "dtype": None, "keepdims": False, "initial": None, "out": None})(it, a, k)
    x = asA(it, b["a"])
    ax = b["axis"]
    dt = dt_of(b["dtype"]) if b["dtype"] is not None else (dtf(x.dt) if dtf else x.dt)
    if isinstance(ax, tuple):
        if set(axis_of(i, len(x.shape)) for i in ax) == set(range(len(x.shape))):
            ax = None
        else:
            raise Undecided("axis tuple")
    if ax is not None:
        if not (-len(x.shape) <= ax < len(x.shape)):
            raise it.exc("ValueError", "axis out of bounds")
        ax %= len(x.shape)
    if init is None and int(np.prod(x.shape, dtype=int)) == 0:
        raise it.exc("ValueError", "reduction of an empty array")
    r = reduce_(it, x, ax, f, init, b["keepdims"])
    if isinstance(r, np.ndarray):
        return unwrap(from_els(r, dt))
    return conv(r, dt) if not isinstance(r, T) else r


_sumdt = lambda d: D["i8"] if d.kind == "b" or d.kind == "i" and d.itemsize < 8 else (D["u8"] if d.kind == "u" else d)
NP["sum"] = lambda it, a, k: _redu(it, a, k, _add(it), 0, dtf=_sumdt)
NP["prod"] = lambda it, a, k: _redu(it, a, k, _mul(it), 1, dtf=_sumdt)
NP["max"] = NP["amax"] = lambda it, a, k: _redu(it, a, k, _mm(it, "max"), None)
NP["min"] = NP["amin"] = lambda it, a, k: _redu(it, a, k, _mm(it, "min"), None)
NP["all"] = lambda it, a, k: _redu(it, a, k, lambda p, q: tm.land(tr_(p), tr_(q)), True, dtf=lambda d: D["bool"])
NP["any"] = lambda it, a, k: _redu(it, a, k, lambda p, q: tm.lor(tr_(p), tr_(q)), False, dtf=lambda d: D["bool"])
NP["mean"] = lambda it, a, k: (lambda s, n: binary(it, "Div", s, n) if isinstance(s, A) else tm.div(s, n))(NP["sum"](it, a, k), (lambda x, ax: x.shape[ax] if ax is not None else int(np.prod(x.shape)))(asA(it, a[0]), k.get("axis", a[1] if len(a) > 1 else None)))


def tr_(v):
    if isinstance(v, T):
        return v if v.op in ("<", "<=", "==", "and", "or", "not") else tm.lnot(tm.cmp("==", v, 0))
    return bool(v)


def _mm(it, w):
    def f(p, q):
        if isinstance(p, T) or isinstance(q, T):
            return T(w, p, q)
        return max(p, q) if w == "max" else min(p, q)

    return f


NP["maximum"] = lambda it, a, k: _ufunc2(it, a[0], a[1], _mm(it, "max"))
NP["minimum"] = lambda it, a, k: _ufunc2(it, a[0], a[1], _mm(it, "min"))
NP["fmax"], NP["fmin"] = NP["maximum"], NP["minimum"]


def _ufunc2(it, a, b, f, dt=None):
    A_, B_ = asA(it, a), asA(it, b)
    x, y = els(A_), els(B_)
    try:
        sh = np.broadcast_shapes(x.shape, y.shape)
    except ValueError:
        raise it.exc("ValueError", "broadcast")
    x, y = np.broadcast_to(x, sh), np.broadcast_to(y, sh)
    o = oarr(sh)
    for i in np.ndindex(*sh):
        o[i] = f(x[i], y[i])
    return unwrap(from_els(o, dt or promote(A_.dt, B_.dt)))


for _n, _o in [("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"), ("floor_divide", "FloorDiv"), ("mod", "Mod"), ("remainder", "Mod"), ("power", "Pow"), ("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq"), ("not_equal", "NotEq"), ("matmul", "MatMult"), ("bitwise_and", "BitAnd"), ("bitwise_or", "BitOr")]:
    NP[_n] = lambda it, a, k, o=_o: binary(it, o, asA(it, a[0]), asA(it, a[1]))
NP["logical_and"] = lambda it, a, k: _ufunc2(it, a[0], a[1], lambda p, q: tm.land(tr_(p), tr_(q)), D["bool"])
NP["logical_or"] = lambda it, a, k: _ufunc2(it, a[0], a[1], lambda p, q: tm.lor(tr_(p), tr_(q)), D["bool"])
NP["logical_not"] = lambda it, a, k: _ufunc1(it, a[0], lambda p: tm.lnot(tr_(p)) if isinstance(p, T) else not p, D["bool"])


def _ufunc1(it, a, f, dt=None):
    x = asA(it, a)
    e = els(x)
    o = oarr(e.shape)
    for i in np.ndindex(*e.shape):
        o[i] = f(e[i])
    return unwrap(from_els(o, dt or x.dt))


def _fdt(it, a):
    d = asA(it, a).dt
    return d if d.kind in "fc" else D["f8"]


NP["ceil"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: T("ceil", v) if isinstance(v, T) else math.ceil(v), _fdt(it, a[0]))
NP["floor"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: T("floor", v) if isinstance(v, T) else math.floor(v), _fdt(it, a[0]))
NP["sqrt"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: tm.fn("sqrt", v) if isinstance(v, T) else math.sqrt(v), _fdt(it, a[0]))
NP["abs"] = NP["absolute"] = NP["fabs"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: tm.fn("abs", v) if isinstance(v, T) else abs(v))
NP["sin"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: tm.fn("sin", v) if isinstance(v, T) else math.sin(v), D["f8"])
NP["cos"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: tm.fn("cos", v) if isinstance(v, T) else math.cos(v), D["f8"])
NP["square"] = lambda it, a, k: binary(it, "Mult", asA(it, a[0]), asA(it, a[0]))
NP["sign"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: tm.ite(tm.cmp("<", 0, v), 1, tm.ite(tm.cmp("<", v, 0), -1, 0)))
NP["isnan"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: isinstance(v, float) and math.isnan(v), D["bool"])
NP["round"] = NP["rint"] = NP["around"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: T("round", v) if isinstance(v, T) else round(v))


@npf("isclose")
def n_isclose(it, a, k):
    b = sig(["a", "b", "rtol", "atol"], {"rtol": 1e-5, "atol": 1e-8})(it, a, k)
    rt, at = unwrap(b["rtol"]), unwrap(b["atol"])

    def f(p, q):
        if isinstance(p, T) or isinstance(q, T) or isinstance(rt, T) or isinstance(at, T):
            return tm.cmp("<=", tm.fn("abs", tm.sub(p, q)), tm.add(at, tm.mul(rt, tm.fn("abs", q) if isinstance(q, T) else abs(q))))
        return abs(p - q) <= at + rt * abs(q)

    return _ufunc2(it, b["a"], b["b"], f, D["bool"])


NP["allclose"] = lambda it, a, k: NP["all"](it, [n_isclose(it, a, k)], {})


@npf("array_equal")
def n_aeq(it, a, k):
    x, y = asA(it, a[0]), asA(it, a[1])
    if x.shape != y.shape:
        return False
    return NP["all"](it, [binary(it, "Eq", x, y)], {}) if x.shape else it.eq(scalar_of(x), scalar_of(y))


@npf("cumsum")
def n_cumsum(it, a, k):
    b = sig(["a", "axis"], {"axis": None, "dtype": None})(it, a, k)
    x = asA(it, b["a"])
    if b["axis"] is not None and len(x.shape) > 1:
        raise Undecided("cumsum axis")
    f = _add(it)
    out, s = [], 0
    for v in els(x).ravel():
        s = f(s, v)
        out.append(s)
    return from_els(np.array(out + [None], dtype=object)[:-1], dt_of(b["dtype"]) if b["dtype"] is not None else _sumdt(x.dt))


NP["add.accumulate"] = n_cumsum


@npf("diff")
def n_diff(it, a, k):
    x = asA(it, a[0])
    if len(x.shape) != 1:
        raise Undecided("diff")
    return binary(it, "Sub", A(x.w[1:], x.dt), A(x.w[:-1], x.dt))


@npf("dot", "inner", "vdot")
def n_dot(it, a, k):
    return matmul(it, asA(it, a[0]), asA(it, a[1])) if asA(it, a[0]).shape and asA(it, a[1]).shape else binary(it, "Mult", asA(it, a[0]), asA(it, a[1]))


@npf("outer")
def n_outer(it, a, k):
    return binary(it, "Mult", reshape(it, asA(it, a[0]), (-1, 1)), reshape(it, asA(it, a[1]), (1, -1)))


@npf("cross")
def n_cross(it, a, k):
    from .pyeval import scal

    x, y = els(asA(it, a[0])), els(asA(it, a[1]))
    if x.shape != (3,) or y.shape != (3,):
        raise Undecided("cross")
    m, s = _mul(it), lambda p, q: scal(it, "Sub", p, q)
    return asA(it, [s(m(x[1], y[2]), m(x[2], y[1])), s(m(x[2], y[0]), m(x[0], y[2])), s(m(x[0], y[1]), m(x[1], y[0]))], D["f8"])


@npf("linalg.norm")
def n_norm(it, a, k):
    b = sig(["x", "ord", "axis"], {"ord": None, "axis": None, "keepdims": False})(it, a, k)
    x = asA(it, b["x"])
    s = NP["sum"](it, [binary(it, "Mult", x, x)], {"axis": b["axis"], "keepdims": b["keepdims"]})
    return NP["sqrt"](it, [s], {})


@npf("where")
def n_where(it, a, k):
    c = asA(it, a[0])
    if len(a) == 1:
        e = els(c)
        idx = [i for i in np.ndindex(*e.shape) if it.truth(e[i])]
        return tuple(from_els(np.array([i[d] for i in idx] + [None], dtype=object)[:-1], D["i8"]) for d in range(e.ndim))
    x, y = asA(it, a[1]), asA(it, a[2])
    ec, ex, ey = els(c), els(x), els(y)
    sh = np.broadcast_shapes(ec.shape, ex.shape, ey.shape)
    ec, ex, ey = [np.broadcast_to(z, sh) for z in (ec, ex, ey)]
    o = oarr(sh)
    for i in np.ndindex(*sh):
        o[i] = tm.ite(ec[i], ex[i], ey[i]) if isinstance(ec[i], T) else (ex[i] if ec[i] else ey[i])
    return unwrap(from_els(o, promote(x.dt, y.dt)))


@npf("ma.array", "ma.masked_array", "ma.MaskedArray")
def n_ma(it, a, k):
    from .pyeval import Native, Obj

    b = sig(["data", "mask"], {"mask": False, "dtype": None, "fill_value": None})(it, a, k)
    x = asA(it, b["data"], b["dtype"])
    o = Obj("fake")

    def fill(it, a2, k2):
        v = a2[0] if a2 else k2.get("fill_value", b["fill_value"])
        if v is None:
            raise Undecided("default fill value")
        m = b["mask"]
        if m is False:
            return n_copy(it, [x], {})
        r = n_where(it, [m, asA(it, v, x.dt), x], {})
        return asA(it, r, x.dt)

    o.f.update(__name__="masked array", filled=Native("filled", fill), data=x, mask=b["mask"], dtype=x.dt, shape=x.shape)
    return o


NP["ma.masked_where"] = lambda it, a, k: n_ma(it, [a[1], a[0]], {})
NP["ma.filled"] = lambda it, a, k: it.call(a[0].f["filled"], a[1:], k)
NP["nonzero"] = lambda it, a, k: n_where(it, [a[0]], {})
NP["flatnonzero"] = lambda it, a, k: n_where(it, [reshape(it, asA(it, a[0]), (-1,))], {})[0]
NP["argwhere"] = lambda it, a, k: NP["column_stack"](it, [list(n_where(it, [a[0]], {}))], {})
NP["count_nonzero"] = lambda it, a, k: sum(1 for v in els(asA(it, a[0])).ravel() if it.truth(v))


def _mkint(vals, dt=None):
    return from_els(np.array(list(vals) + [None], dtype=object)[:-1], dt or D["i8"])


@npf("unique")
def n_unique(it, a, k):
    b = sig(["ar", "return_index", "return_inverse", "return_counts", "axis"], {"return_index": False, "return_inverse": False, "return_counts": False, "axis": None})(it, a, k)
    x = asA(it, b["ar"])
    if b["axis"] is not None:
        if b["axis"] != 0 or len(x.shape) != 2:
            raise Undecided("unique axis")
        vals = [tuple(conc_key(it, v) for v in r) for r in els(x)]
    else:
        vals = concs(it, x, "unique")
    u = sorted(set(vals))
    if b["axis"] is not None:
        r = from_els(np.array([list(t) for t in u] or np.zeros((0, x.shape[1])), dtype=object).reshape(len(u), x.shape[1]), x.dt)
    else:
        r = _mkint(u, x.dt)
    out = [r]
    if b["return_index"]:
        out.append(_mkint([vals.index(v) for v in u]))
    if b["return_inverse"]:
        out.append(_mkint([u.index(v) for v in vals]))
    if b["return_counts"]:
        out.append(_mkint([vals.count(v) for v in u]))
    return out[0] if len(out) == 1 else tuple(out)


@npf("sort")
def n_sort(it, a, k):
    x = asA(it, a[0])
    if len(x.shape) != 1:
        ax = k.get("axis", a[1] if len(a) > 1 else -1)
        e = els(x)
        e = np.moveaxis(e, ax, -1)
        o = oarr(e.shape)
        for i in np.ndindex(*e.shape[:-1]):
            o[i] = sorted([conc_key(it, v) for v in e[i]])
        return from_els(np.moveaxis(o, -1, ax), x.dt)
    return _mkint(sorted(concs(it, x, "sort")), x.dt)


@npf("argsort")
def n_argsort(it, a, k):
    x = asA(it, a[0])
    if len(x.shape) != 1:
        raise Undecided("argsort rank")
    v = concs(it, x, "argsort")
    return _mkint(sorted(range(len(v)), key=lambda i: v[i]))


@npf("lexsort")
def n_lexsort(it, a, k):
    keys = [concs(it, asA(it, x), "lexsort") for x in it.iter(a[0])]
    n = len(keys[0])
    return _mkint(sorted(range(n), key=lambda i: tuple(kk[i] for kk in reversed(keys))))


@npf("isin", "in1d")
def n_isin(it, a, k):
    b = sig(["element", "test_elements"], {"assume_unique": False, "invert": False})(it, a, k)
    x, y = asA(it, b["element"]), asA(it, b["test_elements"])
    s = set(concs(it, y, "isin"))
    e = els(x)
    o = oarr(e.shape)
    for i in np.ndindex(*e.shape):
        o[i] = (conc_key(it, e[i], "isin") in s) != bool(b["invert"])
    return unwrap(from_els(o, D["bool"]))


@npf("intersect1d")
def n_int1(it, a, k):
    b = sig(["ar1", "ar2", "assume_unique", "return_indices"], {"assume_unique": False, "return_indices": False})(it, a, k)
    x, y = asA(it, b["ar1"]), asA(it, b["ar2"])
    u, v = concs(it, x, "intersect1d"), concs(it, y, "intersect1d")
    if b["assume_unique"] and (len(set(u)) != len(u) or len(set(v)) != len(v)):
        it.event("misuse", "intersect1d(assume_unique) of repeated values")
    c = sorted(set(u) & set(v))
    r = _mkint(c, promote(x.dt, y.dt))
    if b["return_indices"]:
        return (r, _mkint([u.index(t) for t in c]), _mkint([v.index(t) for t in c]))
    return r


@npf("setdiff1d")
def n_sd(it, a, k):
    b = sig(["ar1", "ar2", "assume_unique"], {"assume_unique": False})(it, a, k)
    x = asA(it, b["ar1"])
    u, v = concs(it, x, "setdiff1d"), set(concs(it, asA(it, b["ar2"]), "setdiff1d"))
    if b["assume_unique"]:
        return _mkint([t for t in u if t not in v], x.dt)
    return _mkint(sorted(set(u) - v), x.dt)


@npf("union1d")
def n_un(it, a, k):
    x, y = asA(it, a[0]), asA(it, a[1])
    return _mkint(sorted(set(concs(it, x, "union")) | set(concs(it, y, "union"))), promote(x.dt, y.dt))


@npf("searchsorted")
def n_ss(it, a, k):
    import bisect

    b = sig(["a", "v", "side", "sorter"], {"side": "left", "sorter": None})(it, a, k)
    x = concs(it, asA(it, b["a"]), "searchsorted")
    if b["sorter"] is not None:
        x = [x[i] for i in concs(it, asA(it, b["sorter"]), "searchsorted")]
    f = bisect.bisect_left if b["side"] == "left" else bisect.bisect_right
    v = asA(it, b["v"])
    e = els(v)
    o = oarr(e.shape)
    for i in np.ndindex(*e.shape):
        o[i] = f(x, conc_key(it, e[i], "searchsorted"))
    return unwrap(from_els(o, D["i8"]))


@npf("meshgrid")
def n_mesh(it, a, k):
    ind = k.get("indexing", "xy")
    ws = [asA(it, x) for x in a]
    g = np.meshgrid(*[np.arange(x.shape[0]) for x in ws], indexing=ind)
    return [A(x.w[i], x.dt) for x, i in zip(ws, g)]


@npf("unravel_index")
def n_unr(it, a, k):
    sh = ushape(it, a[1] if len(a) > 1 else k["shape"])
    x = asA(it, a[0])
    e = els(x)
    r = np.unravel_index(np.array(concs(it, x, "unravel"), dtype=int).reshape(e.shape), sh, order=k.get("order", "C"))
    return tuple(unwrap(from_els(np.asarray(q).astype(object), D["i8"])) for q in r)


@npf("ravel_multi_index")
def n_rmi(it, a, k):
    sh = ushape(it, a[1] if len(a) > 1 else k["dims"])
    ms = [np.array(concs(it, asA(it, x), "ravel_multi_index"), dtype=int).reshape(asA(it, x).shape) for x in it.iter(a[0])]
    try:
        r = np.ravel_multi_index(ms, sh, order=k.get("order", "C"))
    except ValueError as e:
        raise it.exc("ValueError", str(e))
    return unwrap(from_els(np.asarray(r).astype(object), D["i8"]))


@npf("flip", "fliplr", "flipud")
def n_flip(it, a, k):
    x = asA(it, a[0])
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    w = x.w
    for i in range(w.ndim - 1) if ax is None else [ax % (w.ndim - 1)]:
        w = np.flip(w, i)
    return A(w, x.dt)


@npf("roll")
def n_roll(it, a, k):
    x = asA(it, a[0])
    ax = k.get("axis", a[2] if len(a) > 2 else None)
    sh = a[1] if len(a) > 1 else k["shift"]
    if ax is None:
        return reshape(it, A(np.roll(reshape(it, x, (-1,)).w, _ci(it, sh), 0), x.dt), x.shape)
    return A(np.roll(x.w, _ci(it, sh), ax % (x.w.ndim - 1)), x.dt)


@npf("take")
def n_take(it, a, k):
    b = sig(["a", "indices", "axis", "out", "mode"], {"axis": None, "out": None, "mode": "raise"})(it, a, k)
    x, ax = asA(it, b["a"]), b["axis"]
    if b["out"] is not None:
        raise Undecided("take out=")
    if ax is None:
        x = reshape(it, x, (-1,))
    ix = b["indices"]
    n = x.shape[ax or 0]
    if b["mode"] in ("clip", "wrap"):
        if n == 0 and len(els(asA(it, ix)).ravel()):
            raise it.exc("IndexError", "cannot do a non-empty take from an empty axes.")
        c = (lambda i: min(max(i, 0), n - 1)) if b["mode"] == "clip" else (lambda i: i % n)
        ix = _ufunc1(it, ix, lambda i: c(_ci(it, i)), D["i8"])
    if ax is None:
        return getitem(it, x, ix)
    a = [x, ix]
    from .pyeval import SliceV

    return getitem(it, x, tuple([SliceV(None, None, None)] * ax + [a[1]]))


@npf("delete")
def n_delete(it, a, k):
    x = asA(it, a[0])
    ax = k.get("axis", a[2] if len(a) > 2 else None)
    if ax is None:
        x = reshape(it, x, (-1,))
        ax = 0
    ix = _index1(it, a[1])
    return A(np.delete(x.w, ix, axis=ax), x.dt)


@npf("insert")
def n_insert(it, a, k):
    x = reshape(it, asA(it, a[0]), (-1,))
    return A(np.insert(x.w, _index1(it, a[1]), asA(it, a[2], x.dt).w, axis=0), x.dt)


@npf("argmin", "argmax")
def n_argm(it, a, k):
    raise Undecided("argmin")


def _argm(it, a, f):
    v = concs(it, asA(it, a[0]), "argmin/argmax")
    if not v:
        raise it.exc("ValueError", "argmin of an empty sequence")
    return v.index(f(v))


NP["argmin"] = lambda it, a, k: _argm(it, a, min)
NP["argmax"] = lambda it, a, k: _argm(it, a, max)


@npf("dtype")
def n_dtype(it, a, k):
    return dt_of(a[0])


NP["ndim"] = lambda it, a, k: len(asA(it, a[0]).shape)
NP["shape"] = lambda it, a, k: asA(it, a[0]).shape
NP["size"] = lambda it, a, k: int(np.prod(asA(it, a[0]).shape, dtype=int))
NP["fromiter"] = lambda it, a, k: asA(it, list(it.iter(a[0])), _dtkw(k, dt_of(a[1]) if len(a) > 1 else None))
NP["prod.reduce"] = NP["prod"]
NP["issubdtype"] = lambda it, a, k: _issub(it, a[0], a[1])
NP["iscomplexobj"] = lambda it, a, k: asA(it, a[0]).dt.kind == "c"
NP["split"] = lambda it, a, k: [A(x, asA(it, a[0]).dt) for x in np.split(asA(it, a[0]).w, _index1(it, a[1]) if not isinstance(a[1], int) else a[1], axis=k.get("axis", 0))]
NP["array_split"] = lambda it, a, k: [A(x, asA(it, a[0]).dt) for x in np.array_split(asA(it, a[0]).w, _index1(it, a[1]) if not isinstance(a[1], int) else a[1])]
NP["broadcast_to"] = lambda it, a, k: A(np.broadcast_to(asA(it, a[0]).w, ushape(it, a[1]) + (asA(it, a[0]).dt.nw,)).copy(), asA(it, a[0]).dt)
NP["clip"] = lambda it, a, k: NP["minimum"](it, [NP["maximum"](it, [a[0], a[1]], {}), a[2]], {})
NP["bincount"] = lambda it, a, k: (lambda v, m: _mkint([v.count(i) for i in range(max([m] + [x + 1 for x in v]))]))(concs(it, asA(it, a[0]), "bincount"), k.get("minlength", 0))
NP["kron"] = None
del NP["kron"]


def _issub(it, d, t):
    from .pyeval import U

    d = dt_of(d)
    n = t.path.split(".")[-1] if isinstance(t, U) else None
    if n == "complexfloating":
        return d.kind == "c"
    if n == "floating":
        return d.kind == "f"
    if n == "integer":
        return d.kind in "iu"
    return d == dt_of(t)


# ------------------------------------------------------------------ attributes
def meth(name, f):
    from .pyeval import Native

    return Native(name, f)


def a_attr(it, o, n):
    if n == "shape":
        return tuple(int(s) for s in o.shape)
    if n == "size":
        return int(np.prod(o.shape, dtype=int)) if o.shape else 1
    if n == "ndim":
        return len(o.shape)
    if n == "dtype":
        return o.dt
    if n == "T":
        return transpose(o, None)
    if n == "itemsize":
        return o.dt.itemsize
    if n == "nbytes":
        return o.dt.itemsize * int(np.prod(o.shape, dtype=int))
    if n == "flat":
        return reshape(it, o, (-1,))
    if n == "real":
        if o.dt.kind != "c":
            return o
        raise Undecided("real part")
    if n == "base":
        return None
    if n == "flags":
        return {"C_CONTIGUOUS": o.w.flags.c_contiguous}
    M = {
        "reshape": lambda it, a, k: n_reshape(it, [o] + ([a[0] if len(a) == 1 and not isinstance(unwrap(a[0]), int) else list(a)] if a else []), k),
        "ravel": lambda it, a, k: NP["ravel"](it, [o] + list(a), k),
        "flatten": lambda it, a, k: reshape(it, NP["ravel"](it, [A(o.w.copy(), o.dt)] + list(a), k), (-1,)),
        "astype": lambda it, a, k: from_els(els(o), dt_of(a[0] if a else k["dtype"])),
        "copy": lambda it, a, k: A(o.w.copy(), o.dt),
        "view": lambda it, a, k: view(it, o, dt_of(a[0] if a else k["dtype"]) if a or "dtype" in k else o.dt),
        "tolist": lambda it, a, k: _tolist(els(o)),
        "item": lambda it, a, k: scalar_of(o) if not a else getitem(it, reshape(it, o, (-1,)), a[0]),
        "transpose": lambda it, a, k: transpose(o, None if not a else [int(x) for x in (a if isinstance(a[0], int) else it.iter(a[0]))]),
        "fill": lambda it, a, k: setitem(it, o, Ellipsis, a[0]),
        "dot": lambda it, a, k: n_dot(it, [o] + list(a), k),
        "squeeze": lambda it, a, k: n_squeeze(it, [o], k),
        "sort": lambda it, a, k: setitem(it, o, Ellipsis, n_sort(it, [o], k)),
        "nonzero": lambda it, a, k: n_where(it, [o], {}),
    }
    if n in M:
        return meth("ndarray." + n, M[n])
    if n in NP and n not in ("array", "zeros", "ones", "arange", "full", "empty", "eye"):
        return meth("ndarray." + n, lambda it, a, k: NP[n](it, [o] + list(a), k))
    if n == "setflags":
        return meth("setflags", lambda it, a, k: None)
    if n == "view_":
        return None
    return NotImplemented


def _tolist(e):
    if e.ndim == 0:
        return e[()]
    return [_tolist(x) if isinstance(x, np.ndarray) else x for x in e]


def setattr_(it, a, n, v):
    if n == "shape":
        a.w = reshape(it, a, v).w
        return
    raise Undecided("array attribute " + n)


def dt_attr(it, o, n):
    if n == "itemsize":
        return o.itemsize
    if n == "type":
        return o
    if n in ("name", "__name__"):
        return DT.NAMES.get(o.n, o.n)
    if n == "kind":
        return o.kind
    if n == "char":
        return {"f4": "f", "f8": "d", "c8": "F", "c16": "D", "i4": "i", "i8": "l"}.get(o.n, o.n)
    return NotImplemented


def dt_call(it, dt, args, kw):
    if not args:
        return 0
    x = args[0]
    if isinstance(x, A):
        return unwrap(asA(it, x, dt))
    if isinstance(x, (list, tuple)):
        return asA(it, x, dt)
    return conv(x, dt)


def attr(it, o, n):
    """attributes of builtin values"""
    if isinstance(o, A):
        return a_attr(it, o, n)
    if isinstance(o, DT):
        return dt_attr(it, o, n)
    if isinstance(o, bool) or isinstance(o, (int, float, T)):
        if n == "astype":
            return meth(n, lambda it, a, k: conv(o, dt_of(a[0])))
        if n == "item":
            return meth(n, lambda it, a, k: o)
        if n == "size":
            return 1
        if n == "shape":
            return ()
        if n == "ndim":
            return 0
        if n == "dtype":
            return infer([o])
        if n in ("reshape", "ravel", "tolist", "all", "any", "sum", "max", "min", "copy"):
            return a_attr(it, asA(it, o), n)
        if n in ("real", "imag"):
            return o if n == "real" else 0
        if n == "is_integer":
            return meth(n, lambda it, a, k: float(o).is_integer())
        return NotImplemented
    if isinstance(o, str):
        return str_attr(it, o, n)
    if isinstance(o, list):
        return list_attr(it, o, n)
    if isinstance(o, tuple):
        if n in ("index", "count"):
            return list_attr(it, list(o), n)
        return NotImplemented
    if isinstance(o, dict):
        return dict_attr(it, o, n)
    if isinstance(o, (set, frozenset)):
        return set_attr(it, o, n)
    if isinstance(o, range):
        return {"start": o.start, "stop": o.stop, "step": o.step}.get(n, NotImplemented)
    from .pyeval import Native, ExcType, Bound

    if isinstance(o, Native):
        if o.name == "dict" and n == "fromkeys":
            return meth(n, lambda it, a, k: {it.hk(x): (a[1] if len(a) > 1 else None) for x in it.iter(a[0])})
        if o.name == "str" and n == "join":
            return meth(n, lambda it, a, k: a[0].join(it.iter(a[1])))
        if n == "__name__":
            return o.name
        if (o.name, n) == ("chain", "from_iterable"):
            return meth(n, lambda it, a, k: [y for x in it.iter(a[0]) for y in it.iter(x)])
        full = o.name + "." + n
        if full in NP:
            return Native("numpy." + full, NP[full])
    if isinstance(o, ReMatch):
        m = o.m
        def native(it, a, k):
            try:
                return getattr(m, n)(*a, **k)
            except IndexError as e:
                raise it.exc("IndexError", str(e))

        if n in ("start", "end", "span", "group", "groups", "groupdict", "expand"):
            return meth(n, native)
        if n == "__getitem__":
            n = "group"
            return meth(n, native)
        if n == "string":
            return m.string
    if isinstance(o, RePat):
        return re_attr(it, o, n)
    if isinstance(o, Bound) and n in ("__self__", "__func__"):
        return o.o if n == "__self__" else o.f
    return NotImplemented


def _strs(*xs):
    return all(isinstance(x, (str, int, tuple)) or x is None for x in xs)


def str_attr(it, o, n):
    def call(it, a, k):
        if n == "join":
            xs = list(it.iter(a[0]))
            if not all(isinstance(x, str) for x in xs):
                raise it.exc("TypeError", "join of non-strings")
            return o.join(xs)
        if n == "format":
            return o.format(*[it.pystr(x) if not isinstance(x, (int, float)) else x for x in a], **{q: it.pystr(v) if not isinstance(v, (int, float)) else v for q, v in k.items()})
        if not _strs(*a):
            raise Undecided("string method on abstract arguments")
        try:
            return getattr(o, n)(*a, **k)
        except ValueError as e:
            raise it.exc("ValueError", str(e))

    if hasattr(o, n):
        return meth("str." + n, call)
    return NotImplemented


def list_attr(it, o, n):
    def f(it, a, k):
        if n == "append":
            o.append(a[0])
        elif n == "extend":
            o.extend(list(it.iter(a[0])))
        elif n == "insert":
            o.insert(a[0], a[1])
        elif n == "pop":
            if not o:
                raise it.exc("IndexError", "pop from empty list")
            try:
                return o.pop(*[toint(it, x) for x in a])
            except IndexError:
                raise it.exc("IndexError", "pop index")
        elif n == "index":
            for i, x in enumerate(o):
                if it.truth(it.eq(x, a[0])):
                    return i
            raise it.exc("ValueError", "not in list")
        elif n == "count":
            return sum(1 for x in o if it.truth(it.eq(x, a[0])))
        elif n == "remove":
            for i, x in enumerate(o):
                if it.truth(it.eq(x, a[0])):
                    del o[i]
                    return
            raise it.exc("ValueError", "not in list")
        elif n == "sort":
            o[:] = BUILTINS["sorted"].fn(it, [o], k)
        elif n == "reverse":
            o.reverse()
        elif n == "copy":
            return list(o)
        elif n == "clear":
            o.clear()
        else:
            raise Undecided("list." + n)

    if hasattr(list, n):
        return meth("list." + n, f)
    return NotImplemented


def dict_attr(it, o, n):
    def f(it, a, k):
        if n == "keys":
            return list(o.keys())
        if n == "values":
            return list(o.values())
        if n == "items":
            return list(o.items())
        if n in ("get", "setdefault", "pop"):
            key = it.hk(a[0])
            kk = key
            try:
                if key not in o:
                    r = it.struct_key(o, key)
                    if r is not None:
                        kk = r
            except TypeError:
                raise it.exc("TypeError", "unhashable key")
            if n == "get":
                return o.get(kk, a[1] if len(a) > 1 else k.get("default"))
            if n == "setdefault":
                return o.setdefault(kk, a[1] if len(a) > 1 else None)
            if kk in o:
                return o.pop(kk)
            if len(a) > 1:
                return a[1]
            raise it.exc("KeyError", key)
        if n == "update":
            for x in a:
                if isinstance(x, dict):
                    for q, v in x.items():
                        it.setitem(o, q, v)
                else:
                    for q, v in it.iter(x):
                        it.setitem(o, q, v)
            o.update(k)
            return None
        if n == "copy":
            return dict(o)
        if n == "clear":
            return o.clear()
        if n == "popitem":
            return o.popitem()
        raise Undecided("dict." + n)

    if hasattr(dict, n):
        return meth("dict." + n, f)
    return NotImplemented


def set_attr(it, o, n):
    def f(it, a, k):
        if n == "add":
            return o.add(it.hk(a[0]))
        if n in ("update", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "symmetric_difference"):
            return getattr(o, n)(*[set(it.iter(x)) for x in a])
        if n in ("discard", "remove"):
            x = it.hk(a[0])
            if n == "remove" and x not in o:
                raise it.exc("KeyError", x)
            return o.discard(x)
        if n == "pop":
            if not o:
                raise it.exc("KeyError", "pop from an empty set")
            return o.pop()
        if n == "copy":
            return set(o)
        if n == "clear":
            return o.clear()
        raise Undecided("set." + n)

    if hasattr(set, n):
        return meth("set." + n, f)
    return NotImplemented


# ------------------------------------------------------------------- builtins
BUILTINS = {}


def bi(n):
    def d(f):
        from .pyeval import Native

        BUILTINS[n] = Native(n, f)
        return f

    return d


def length(it, x):
    from .pyeval import Obj, U, Class

    if isinstance(x, A):
        if not x.shape:
            raise it.exc("TypeError", "len() of unsized object")
        return int(x.shape[0])
    if isinstance(x, Obj) and isinstance(x.cls, Class):
        m = x.cls.lookup("__len__")
        if m:
            from .pyeval import Bound

            return it.call(Bound(m, x), [])
        if x.cls.namedtuple:
            return len(x.cls.fields)
        raise it.exc("TypeError", "no len()")
    if isinstance(x, U):
        h = it.hooks.get(("len", x.path))
        if h:
            return h(it, x)
        if x.attrs is not None and "__len__" in x.attrs:
            return x.attrs["__len__"]
        return T("len", x.path, x.n)
    if isinstance(x, (list, tuple, str, dict, set, frozenset, range, bytes)):
        return len(x)
    if isinstance(x, (Iter,)):
        return len(x.xs)
    raise it.exc("TypeError", "object of type %s has no len()" % type(x).__name__)


def _setup_builtins():
    from .pyeval import Native, U, Obj, Class, ExcType, Bound, Func, GenCall, Module, ExcVal

    B = BUILTINS

    def reg(n, f):
        B[n] = Native(n, f)

    reg("len", lambda it, a, k: length(it, a[0]))

    def b_range(it, a, k):
        a = [unwrap(x) for x in a]
        for x in a:
            if isinstance(x, (T, U)):
                raise Undecided("range with abstract bound")
            if isinstance(x, float):
                raise it.exc("TypeError", "float range bound")
        return range(*a)

    reg("range", b_range)
    reg("enumerate", lambda it, a, k: [(i + (a[1] if len(a) > 1 else k.get("start", 0)), x) for i, x in enumerate(it.iter(a[0]))])

    def b_zip(it, a, k):
        xs = [list(it.iter(x)) for x in a]
        if k.get("strict") and len({len(x) for x in xs}) > 1:
            raise it.exc("ValueError", "zip() argument lengths differ")
        return list(zip(*xs))

    reg("zip", b_zip)
    reg("list", lambda it, a, k: list(it.iter(a[0])) if a else [])
    reg("tuple", lambda it, a, k: tuple(it.iter(a[0])) if a else ())
    reg("set", lambda it, a, k: set(it.hk(x) for x in it.iter(a[0])) if a else set())
    reg("frozenset", lambda it, a, k: frozenset(it.hk(x) for x in it.iter(a[0])) if a else frozenset())

    def b_dict(it, a, k):
        d = {}
        if a:
            if isinstance(a[0], dict):
                d.update(a[0])
            elif isinstance(a[0], U):
                raise Undecided("dict of %r" % a[0])
            else:
                for q, v in it.iter(a[0]):
                    it.setitem(d, q, v)
        d.update(k)
        return d

    reg("dict", b_dict)

    def b_int(it, a, k):
        if not a:
            return 0
        x = unwrap(a[0])
        if isinstance(x, T):
            return x if x.op in ("sym", "floor", "ceil", "len", "trunc", "round") else T("trunc", x)
        if isinstance(x, U):
            h = it.hooks.get(("int", "u"))
            return h(it, x) if h else U("res", U("ext", "int"), (x,), ())
        if isinstance(x, A):
            x = scalar_of(x)
        try:
            return int(x, *a[1:]) if isinstance(x, str) else int(x)
        except ValueError as e:
            raise it.exc("ValueError", str(e))
        except TypeError as e:
            raise it.exc("TypeError", str(e))

    reg("int", b_int)

    def b_float(it, a, k):
        x = unwrap(a[0]) if a else 0.0
        if isinstance(x, T):
            return x
        if isinstance(x, U):
            return U("res", U("ext", "float"), (x,), ())
        try:
            return float(x)
        except (TypeError, ValueError) as e:
            raise it.exc(type(e).__name__, str(e))

    reg("float", b_float)
    reg("complex", lambda it, a, k: a[0])

    def b_bool(it, a, k):
        x = unwrap(a[0]) if a else False
        return x if isinstance(x, T) else it.truth(x)

    reg("bool", b_bool)
    reg("str", lambda it, a, k: it.pystr(a[0]) if a else "")
    reg("repr", lambda it, a, k: it.pyrepr(a[0]))
    reg("object", lambda it, a, k: Obj("object"))

    def b_abs(it, a, k):
        x = a[0]
        if isinstance(x, A):
            return NP["abs"](it, [x], {})
        return tm.fn("abs", x) if isinstance(x, T) else abs(x)

    reg("abs", b_abs)

    def mm(w):
        def f(it, a, k):
            xs = list(it.iter(a[0])) if len(a) == 1 else list(a)
            if not xs:
                if "default" in k:
                    return k["default"]
                raise it.exc("ValueError", "%s() of an empty sequence" % w)
            if "key" in k:
                ks = [unwrap(it.call(k["key"], [x])) for x in xs]
                ks = [conc_key(it, q, w) for q in ks]
                return xs[ks.index(max(ks) if w == "max" else min(ks))]
            xs = [unwrap(x) for x in xs]
            r = xs[0]
            for x in xs[1:]:
                if isinstance(r, T) or isinstance(x, T):
                    r = T(w, r, x)
                elif isinstance(r, U) or isinstance(x, U):
                    raise Undecided(w + " of opaque values")
                else:
                    r = max(r, x) if w == "max" else min(r, x)
            return r

        return f

    reg("max", mm("max"))
    reg("min", mm("min"))

    def b_sum(it, a, k):
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for x in it.iter(a[0]):
            r = it.binop("Add", r, x)
        return r

    reg("sum", b_sum)

    def b_any(it, a, k):
        for x in it.iter(a[0]):
            if it.truth(x):
                return True
        return False

    def b_all(it, a, k):
        for x in it.iter(a[0]):
            if not it.truth(x):
                return False
        return True

    reg("any", b_any)
    reg("all", b_all)

    def b_sorted(it, a, k):
        xs = list(it.iter(a[0]))
        key = k.get("key")
        ks = [it.call(key, [x]) if key is not None else x for x in xs]
        if any(isinstance(q, Obj) and isinstance(q.cls, Class) and q.cls.lookup("__lt__") for q in ks):
            import functools

            cmpf = functools.cmp_to_key(lambda p, q: -1 if it.truth(it.compare("Lt", p, q)) else 1 if it.truth(it.compare("Lt", q, p)) else 0)
            return [xs[i] for i in sorted(range(len(xs)), key=lambda i: cmpf(ks[i]), reverse=bool(k.get("reverse", False)))]

        def cc(q):
            q = unwrap(q)
            if isinstance(q, (tuple, list)):
                return tuple(cc(z) for z in q)
            if isinstance(q, Obj) and getattr(q.cls, "namedtuple", False):
                return tuple(cc(z) for z in it.iter(q))
            return conc_key(it, q)

        ks = [cc(q) for q in ks]
        idx = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(k.get("reverse", False)))
        return [xs[i] for i in idx]

    reg("sorted", b_sorted)
    reg("reversed", lambda it, a, k: list(it.iter(a[0]))[::-1])
    reg("map", lambda it, a, k: [it.call(a[0], list(x)) for x in zip(*[list(it.iter(y)) for y in a[1:]])])
    reg("filter", lambda it, a, k: [x for x in it.iter(a[1]) if it.truth(it.call(a[0], [x]) if a[0] is not None else x)])
    reg("iter", lambda it, a, k: Iter(list(it.iter(a[0]))))

    def b_next(it, a, k):
        x = a[0]
        if not isinstance(x, Iter):
            if isinstance(x, (list, GenCall)):
                x = Iter(list(it.iter(x)))
            elif isinstance(x, U):
                return U("res", U("ext", "next"), (x,), ())
            else:
                raise it.exc("TypeError", "not an iterator")
        if x.i >= len(x.xs):
            if len(a) > 1:
                return a[1]
            raise it.exc("StopIteration")
        x.i += 1
        return x.xs[x.i - 1]

    reg("next", b_next)
    reg("print", lambda it, a, k: it.event("print", *a) and None)
    reg("id", lambda it, a, k: id(a[0]))

    def b_hash(it, a, k):
        x = a[0]
        if isinstance(x, Obj) and "__hash__" in x.f and not isinstance(x.cls, Class):
            return it.call(x.f["__hash__"], [])
        v = salted(it, a[0])
        if v is not None:
            return v
        return U("res", U("ext", "hash"), (a[0],), ())

    def salted(it, x):
        """hash of a value made of texts and integers, that depends on the session"""
        if it.salt is None:
            return None
        if isinstance(x, (bool, int)):
            return int(x)
        if isinstance(x, str):
            import hashlib

            return int(hashlib.md5(("%s|%s" % (it.salt, x)).encode()).hexdigest()[:15], 16)
        if isinstance(x, tuple):
            v = [salted(it, y) for y in x]
            return None if None in v else hash(tuple(v))
        return None

    reg("hash", b_hash)
    reg("round", lambda it, a, k: T("round", a[0]) if isinstance(a[0], T) else round(*a))
    reg("divmod", lambda it, a, k: (it.binop("FloorDiv", a[0], a[1]), it.binop("Mod", a[0], a[1])))
    reg("pow", lambda it, a, k: it.binop("Pow", a[0], a[1]))
    reg("callable", lambda it, a, k: isinstance(a[0], (Func, Bound, Native, Class, U, ExcType)) or isinstance(a[0], Obj) and isinstance(a[0].cls, Class) and a[0].cls.lookup("__call__") is not None)
    reg("chr", lambda it, a, k: chr(a[0]))
    reg("ord", lambda it, a, k: ord(a[0]))
    reg("slice", lambda it, a, k: __import__("qv.pyeval", fromlist=["SliceV"]).SliceV(*([None] * (1 if len(a) == 1 else 0) + list(a) + [None] * (2 - len(a) if len(a) > 1 else 0) + ([None] if len(a) <= 2 else []))[:3]) if True else None)
    reg("open", lambda it, a, k: it.call(U("ext", "open"), a, k))
    reg("staticmethod", lambda it, a, k: a[0])
    reg("classmethod", lambda it, a, k: a[0])

    def b_getattr(it, a, k):
        from .pyeval import PyRaise

        if len(a) > 2:
            try:
                return it.getattr_(a[0], a[1])
            except PyRaise as e:
                if isinstance(e.exc, ExcVal) and e.exc.cls == "AttributeError":
                    return a[2]
                raise
        return it.getattr_(a[0], a[1])

    reg("getattr", b_getattr)
    reg("setattr", lambda it, a, k: it.setattr_(a[0], a[1], a[2]))

    def b_hasattr(it, a, k):
        from .pyeval import PyRaise

        if isinstance(a[0], U) and not (a[0].attrs and a[1] in a[0].attrs):
            return T("hasattr", a[0].path, a[0].n, a[1])
        try:
            it.getattr_(a[0], a[1])
            return True
        except PyRaise:
            return False

    reg("hasattr", b_hasattr)

    def isinst(it, x, c):
        if isinstance(c, (tuple, list)):
            rs = [isinst(it, x, y) for y in c]
            if any(r is True for r in rs):
                return True
            r = False
            for q in rs:
                r = q if r is False else (tm.lor(r, q) if q is not False else r)
            return r
        if isinstance(c, U) and c.key[0] == "op" and c.key[1] == "BitOr":
            return isinst(it, x, [c.key[2], c.key[3]])
        if isinstance(c, Class):
            if isinstance(x, Obj) and isinstance(x.cls, Class):
                return c in x.cls.mro()
            if isinstance(x, U):
                return T("isinstance", x.path, x.n, c.name)
            return False
        if isinstance(c, Native):
            m = {"int": lambda v: isinstance(v, int), "float": lambda v: isinstance(v, float), "str": lambda v: isinstance(v, str), "list": lambda v: isinstance(v, list), "tuple": lambda v: isinstance(v, tuple) or isinstance(v, Obj) and getattr(v.cls, "namedtuple", False), "dict": lambda v: isinstance(v, dict), "set": lambda v: isinstance(v, set), "bool": lambda v: isinstance(v, bool)}
            if c.name in m:
                if isinstance(x, U):
                    return T("isinstance", x.path, x.n, c.name)
                if isinstance(x, T):
                    h = it.hooks.get(("isinstance-term", c.name))
                    return c.name in ("float", "int") if h is None else h(it, x)
                return bool(m[c.name](x))
            return False
        if isinstance(c, ExcType):
            from .pyeval import exc_is

            return isinstance(x, ExcVal) and exc_is(x.cls, c.n)
        if isinstance(c, DT):
            return isinstance(x, (int, float, T)) and False
        if isinstance(c, U):
            h = it.hooks.get(("isinstance", c.path))
            if h:
                return h(it, x)
            p = c.path.split(".")[-1]
            if isinstance(x, U):
                h = it.hooks.get("isinstance")
                if h:
                    r = h(it, x, c)
                    if r is not NotImplemented:
                        return r
                return T("isinstance", x.path, x.n, c.path)
            if isinstance(x, A):
                return p == "ndarray"
            if isinstance(x, Obj) and isinstance(x.cls, Class):
                return any(isinstance(b, U) and b.path == c.path for b in x.cls.has_ext_base())
            if p in ("Iterable", "Sequence", "Collection"):
                return isinstance(x, (list, tuple, A, dict, set, str))
            if p in ("integer",):
                return False
            return False
        return T("isinstance", repr(x)[:60], repr(c)[:60])

    reg("isinstance", lambda it, a, k: isinst(it, a[0], a[1]))

    def issub(it, a, k):
        c, d = a
        if isinstance(c, Class) and isinstance(d, Class):
            return d in c.mro()
        h = it.hooks.get(("issubclass", d.path)) if isinstance(d, U) else None
        if h:
            return h(it, c)
        return T("issubclass", repr(c), repr(d))

    reg("issubclass", issub)

    def b_type(it, a, k):
        x = a[0]
        if isinstance(x, Obj):
            return x.f.get("__class__", x.cls) if x.cls == "fake" else x.cls
        if isinstance(x, ExcVal):
            return ExcType(x.cls)
        if isinstance(x, U):
            return U("attr", x, "__class__")
        if isinstance(x, A):
            return U("ext", "numpy.ndarray")
        return B.get(type(x).__name__, U("ext", type(x).__name__))

    reg("type", b_type)
    B["True"], B["False"], B["None"], B["Ellipsis"], B["NotImplemented"] = True, False, None, Ellipsis, U("ext", "NotImplemented")
    B["__debug__"] = True
    reg("vars", lambda it, a, k: a[0].f if isinstance(a[0], Obj) else {})
    reg("dir", lambda it, a, k: U("res", U("ext", "dir"), (a[0],), ()))
    reg("property", lambda it, a, k: __import__("qv.pyeval", fromlist=["Prop"]).Prop(*a))


class RePat:
    def __init__(self, p):
        self.p = p


class ReMatch:
    def __init__(self, m):
        self.m = m


def re_attr(it, o, n):
    import re

    def f(it, a, k):
        return re_call(it, n, [o] + list(a), k)

    if n == "pattern":
        return o.p.pattern
    return meth("re." + n, f)


def re_call(it, n, a, k):
    import re

    p = a[0]
    if n == "compile":
        return RePat(re.compile(*a, **k))
    if n == "escape":
        return re.escape(a[0])
    pat = p.p if isinstance(p, RePat) else re.compile(p, *([k.pop("flags")] if "flags" in k else []))
    wrap = lambda m: ReMatch(m) if m is not None else None
    if n in ("sub", "subn"):
        repl = a[1]
        if not isinstance(repl, str):
            fn = repl
            repl = lambda m: it.call(fn, [ReMatch(m)])
        if not isinstance(a[2], str):
            raise Undecided("re on an opaque string")
        return getattr(pat, n)(repl, a[2], *a[3:], **k)
    if not all(isinstance(x, (str, int)) for x in a[1:]):
        raise Undecided("re on an opaque string")
    if n in ("search", "match", "fullmatch"):
        return wrap(getattr(pat, n)(*a[1:], **k))
    if n == "finditer":
        return [ReMatch(m) for m in pat.finditer(*a[1:])]
    if n in ("findall", "split"):
        return getattr(pat, n)(*a[1:], **k)
    raise Undecided("re." + n)


_WRAPPED = {}


def _checked(name, f):
    """keyword arguments the model does not know make the call undecided"""
    import inspect, re

    try:
        src = inspect.getsource(f)
    except (OSError, TypeError):
        src = ""
    known = set(re.findall(r"""["'](\w+)["']""", src)) | {"order"}
    if "_dtkw" in src:
        known.add("dtype")
    # the keyword dictionary is handed on as a whole
    passes = getattr(f, "ufunc", False) or bool(re.search(r"\(it, (?:a|\[[^\]]*\]), k\)|names=|_redu\(it, a, k", src))

    def g(it, a, k):
        if k and not passes:
            for n in k:
                if n not in known:
                    raise Undecided("argument %s of numpy.%s not modelled" % (n, name))
        return f(it, a, k)

    return g


def install(it):
    """library models as overrides of the interpreter"""
    from .pyeval import Native, U, DefaultDict, Obj

    if not BUILTINS:
        _setup_builtins()
    ov = it.over
    for k, v in NPNAMES.items():
        ov.setdefault("numpy." + k, D[v])
    for k, f in NP.items():
        if k not in _WRAPPED:
            _WRAPPED[k] = Native("numpy." + k, _checked(k, f))
        ov.setdefault("numpy." + k, _WRAPPED[k])
    ov.setdefault("numpy.pi", math.pi)
    ov.setdefault("numpy.newaxis", None)
    ov.setdefault("numpy.inf", float("inf"))
    ov.setdefault("numpy.nan", float("nan"))
    for n in ("comb", "ceil", "floor", "gcd", "factorial", "isclose", "log2", "prod", "isqrt", "hypot"):
        def f(it, a, k, n=n):
            a = [unwrap(x) for x in a]
            if any(isinstance(x, (T, U, A)) for x in a):
                if n == "prod":
                    return NP["prod"](it, a, {})
                if len(a) == 1:
                    return T(n, a[0])
                raise Undecided("math." + n)
            try:
                return getattr(math, n)(*a)
            except (ValueError, TypeError) as e:
                raise it.exc(type(e).__name__, str(e))

        ov.setdefault("math." + n, Native("math." + n, f))
    ov.setdefault("math.sqrt", Native("math.sqrt", lambda it, a, k: tm.fn("sqrt", a[0]) if isinstance(a[0], T) else math.sqrt(a[0])))
    ov.setdefault("math.pi", math.pi)
    for n in ("compile", "escape", "sub", "subn", "search", "match", "fullmatch", "finditer", "findall", "split"):
        ov.setdefault("re." + n, Native("re." + n, lambda it, a, k, n=n: re_call(it, n, list(a), dict(k))))
    import re as _re

    for n in ("DOTALL", "MULTILINE", "IGNORECASE", "VERBOSE"):
        ov.setdefault("re." + n, int(getattr(_re, n)))
    ov.setdefault("itertools.product", Native("product", lambda it, a, k: list(itertools.product(*[list(it.iter(x)) for x in a], **k))))
    ov.setdefault("itertools.chain", Native("chain", lambda it, a, k: [y for x in a for y in it.iter(x)]))
    ov.setdefault("itertools.combinations", Native("combinations", lambda it, a, k: list(itertools.combinations(list(it.iter(a[0])), a[1]))))
    ov.setdefault("itertools.permutations", Native("permutations", lambda it, a, k: list(itertools.permutations(list(it.iter(a[0])), *a[1:]))))
    ov.setdefault("itertools.accumulate", Native("accumulate", lambda it, a, k: _acc(it, list(it.iter(a[0])))))
    ov.setdefault("functools.reduce", Native("reduce", lambda it, a, k: _red(it, a)))
    ov.setdefault("functools.partial", Native("partial", lambda it, a, k: Native("partial", lambda it2, a2, k2: it2.call(a[0], list(a[1:]) + list(a2), dict(k, **k2)))))

    def cast(it, a, k):
        return a[1]

    ov.setdefault("typing.cast", Native("cast", cast))
    ov.setdefault("typing.TYPE_CHECKING", False)

    def dd(it, a, k):
        d = DefaultDict()
        d.factory = a[0] if a else None
        return d

    ov.setdefault("collections.defaultdict", Native("defaultdict", dd))
    ov.setdefault("collections.OrderedDict", BUILTINS["dict"])

    def replace(it, a, k):
        o = a[0]
        r = Obj(o.cls)
        r.f = dict(o.f)
        r.f.update(k)
        return r

    ov.setdefault("dataclasses.replace", Native("dataclasses.replace", replace))

    def fields(it, a, k):
        return U("res", U("ext", "dataclasses.fields"), tuple(a), ())

    def deepcopy(it, a, k, memo=None):
        return _deep(a[0], {})

    ov.setdefault("copy.copy", Native("copy", lambda it, a, k: _shallow(a[0])))
    ov.setdefault("copy.deepcopy", Native("deepcopy", deepcopy))
    pynp2.install2(it, ov)


def _shallow(x):
    from .pyeval import Obj

    if isinstance(x, Obj):
        r = Obj(x.cls)
        r.f = dict(x.f)
        return r
    if isinstance(x, (list, dict, set)):
        return x.copy()
    if isinstance(x, A):
        return A(x.w.copy(), x.dt)
    return x


def _deep(x, memo):
    from .pyeval import Obj

    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, Obj):
        r = memo[id(x)] = Obj(x.cls)
        r.f = {k: _deep(v, memo) for k, v in x.f.items()}
        return r
    if isinstance(x, list):
        r = memo[id(x)] = []
        r.extend(_deep(v, memo) for v in x)
        return r
    if isinstance(x, tuple):
        return tuple(_deep(v, memo) for v in x)
    if isinstance(x, dict):
        r = memo[id(x)] = {}
        r.update({k: _deep(v, memo) for k, v in x.items()})
        return r
    if isinstance(x, A):
        return A(x.w.copy(), x.dt)
    return x


def _acc(it, xs):
    out, s = [], None
    for x in xs:
        s = x if s is None else it.binop("Add", s, x)
        out.append(s)
    return out


def _red(it, a):
    xs = list(it.iter(a[1]))
    r = a[2] if len(a) > 2 else xs.pop(0)
    for x in xs:
        r = it.call(a[0], [r, x])
    return r


from . import pynp2  # noqa: E402  (registers further models)
