"""More models of numpy and standard-library functions (registered in pynp.NP / the overrides)."""
import itertools, math, operator

import numpy as np

from . import terms as tm
from .pynp import A, D, Iter, NP, asA, axis_of, binary, dt_of, els, from_els, getitem, npf, oarr, promote, setitem, sig, unwrap, conv, _ufunc1, _ufunc2, _fdt, tr_, conc_key, infer
from .terms import T
from .cxxeval import Undecided


def _arrs(it, x):
    return [asA(it, y) for y in it.iter(x)]


def structural(f, *args, **kw):
    """apply a numpy function that only moves entries to arrays of abstract entries"""

    def conv_(x):
        if isinstance(x, A):
            return els(x)
        if isinstance(x, (list, tuple)):
            return type(x)(conv_(y) for y in x)
        return x

    return f(*conv_(list(args)), **kw)


def dts(x, out):
    if isinstance(x, A):
        out.append(x.dt)
    elif isinstance(x, (list, tuple)):
        for y in x:
            dts(y, out)


def deep(it, x, n=0):
    """nested sequences with arrays at the leaves"""
    if isinstance(x, A):
        return x
    if isinstance(x, (list, tuple)) and any(isinstance(y, (list, tuple, A)) for y in x):
        return [deep(it, y) for y in x]
    return asA(it, x)


def wrapped(it, r, d):
    return from_els(r, d) if isinstance(r, np.ndarray) else unwrap(from_els(np.array(r, dtype=object), d))


@npf("diag", "diagonal", "diagflat", "tril", "triu", "rot90", "trace")
def _dummy(it, a, k):
    raise Undecided("numpy")


def mk(name):
    def f(it, a, k):
        x = asA(it, a[0])
        rest = [unwrap(y) for y in a[1:]]
        if k or any(not isinstance(y, int) for y in rest):
            raise Undecided("arguments of numpy." + name)
        e = els(x)
        if name == "trace":
            from .pyeval import scal

            r = 0
            for v in np.diagonal(e, *rest):
                r = scal(it, "Add", r, v)
            return r
        try:
            r = getattr(np, name)(e, *rest)
        except ValueError as ex:
            raise it.exc("ValueError", str(ex))
        r = r.copy()
        return from_els(r, x.dt)

    return f


for _n in ("diag", "diagonal", "diagflat", "tril", "triu", "rot90", "trace"):
    NP[_n] = mk(_n)


@npf("block")
def n_block(it, a, k):
    x = deep(it, a[0])
    d = []
    dts(x, d)
    try:
        return from_els(structural(np.block, x if isinstance(x, list) else [x]), promote(*d))
    except ValueError as ex:
        raise it.exc("ValueError", str(ex))


@npf("dstack")
def n_dstack(it, a, k):
    x = _arrs(it, a[0])
    try:
        return from_els(structural(np.dstack, x), promote(*[y.dt for y in x]))
    except ValueError as ex:
        raise it.exc("ValueError", str(ex))


class RC:
    """np.r_ / np.c_"""

    def __init__(self, col):
        self.col = col

    def item(self, it, k):
        from .pyeval import SliceV

        ks = k if isinstance(k, tuple) else (k,)
        xs = []
        for y in ks:
            if isinstance(y, SliceV):
                s = y.conc()
                if isinstance(s.step, complex):
                    raise Undecided("np.r_ with a complex step")
                y = list(range(s.start or 0, s.stop, s.step or 1))
            if isinstance(y, str):
                raise Undecided("np.r_ directive")
            y = asA(it, y)
            xs.append(y)
        e = [els(y) for y in xs]
        if self.col:
            e = [np.atleast_1d(z) for z in e]
            e = [z.reshape(-1, 1) if z.ndim == 1 else z for z in e]
            r = np.concatenate(e, axis=-1)
        else:
            r = np.concatenate([np.atleast_1d(z) for z in e])
        return from_els(r, promote(*[y.dt for y in xs]))


@npf("ix_")
def n_ix(it, a, k):
    out = []
    for i, x in enumerate(a):
        x = asA(it, x)
        if len(x.shape) != 1:
            raise it.exc("ValueError", "Cross index must be 1 dimensional")
        if x.dt.kind == "b":
            x = NP["flatnonzero"](it, [x], {})
        sh = [1] * len(a)
        sh[i] = x.shape[0]
        out.append(A(x.w.reshape(tuple(sh) + (x.dt.nw,)), x.dt))
    return tuple(out)


@npf("setxor1d")
def n_setxor(it, a, k):
    if any(k.values()) or len(a) > 2:
        raise Undecided("setxor1d arguments")
    x, y = asA(it, a[0]), asA(it, a[1])
    p = [conc_key(it, v) for v in els(x).ravel()]
    q = [conc_key(it, v) for v in els(y).ravel()]
    r = sorted(set(p) ^ set(q))
    o = oarr((len(r),))
    o[:] = r
    return from_els(o, promote(x.dt, y.dt))


@npf("digitize")
def n_digitize(it, a, k):
    b = sig(["x", "bins", "right"], {"right": False})(it, a, k)
    return NP["searchsorted"](it, [b["bins"], b["x"]], {"side": "left" if b["right"] else "right"})


def accumulate(it, x, ax, f):
    e = els(x)
    if ax is None:
        e = e.ravel()
        ax = 0
    e = np.moveaxis(e, ax, 0).copy()
    for j in range(1, e.shape[0]):
        for i in np.ndindex(*e.shape[1:]):
            e[(j,) + i] = f(e[(j - 1,) + i], e[(j,) + i])
    return np.moveaxis(e, 0, ax)


@npf("cumprod")
def n_cumprod(it, a, k):
    from .pyeval import scal
    from .pynp import _sumdt

    b = sig(["a", "axis", "dtype"], {"axis": None, "dtype": None})(it, a, k)
    x = asA(it, b["a"])
    d = dt_of(b["dtype"]) if b["dtype"] is not None else _sumdt(x.dt)
    return from_els(accumulate(it, x, b["axis"], lambda p, q: scal(it, "Mult", p, q)), d)


@npf("ptp")
def n_ptp(it, a, k):
    return binary(it, "Sub", NP["max"](it, list(a), dict(k)), NP["min"](it, list(a), dict(k)))


@npf("kron")
def n_kron(it, a, k):
    from .pyeval import scal

    x, y = asA(it, a[0]), asA(it, a[1])
    p, q = els(x), els(y)
    n = max(p.ndim, q.ndim)
    p, q = p.reshape((1,) * (n - p.ndim) + p.shape), q.reshape((1,) * (n - q.ndim) + q.shape)
    o = oarr(tuple(s * t for s, t in zip(p.shape, q.shape)))
    for i in np.ndindex(*p.shape):
        for j in np.ndindex(*q.shape):
            o[tuple(u * t + v for u, t, v in zip(i, q.shape, j))] = scal(it, "Mult", p[i], q[j])
    return from_els(o, promote(x.dt, y.dt))


@npf("einsum")
def n_einsum(it, a, k):
    from .pyeval import scal

    if not isinstance(a[0], str) or "." in a[0] or set(k) - {"optimize"}:
        raise Undecided("einsum arguments")
    s = a[0].replace(" ", "")
    ops = [asA(it, x) for x in a[1:]]
    ins, _, out = s.partition("->")
    ins = ins.split(",")
    if "->" not in s:
        al = "".join(ins)
        out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    if len(ins) != len(ops) or any(len(i) != len(x.shape) for i, x in zip(ins, ops)):
        raise it.exc("ValueError", "einsum subscripts")
    sz = {}
    for i, x in zip(ins, ops):
        for c, n in zip(i, x.shape):
            if sz.get(c, n) != n and 1 not in (n, sz.get(c)):
                raise it.exc("ValueError", "einsum dimensions")
            sz[c] = max(n, sz.get(c, n)) if n != 0 else 0
    red = [c for c in sz if c not in out]
    es = [els(x) for x in ops]
    o = oarr(tuple(sz[c] for c in out))
    for i in np.ndindex(*o.shape):
        e = dict(zip(out, i))
        t = 0
        for j in itertools.product(*[range(sz[c]) for c in red]):
            e.update(zip(red, j))
            p = None
            for sub, z in zip(ins, es):
                v = z[tuple(e[c] if z.shape[q] > 1 else 0 for q, c in enumerate(sub))]
                p = v if p is None else scal(it, "Mult", p, v)
            t = scal(it, "Add", t, p)
        o[i] = t
    return unwrap(from_els(o, promote(*[x.dt for x in ops])))


@npf("linalg.det")
def n_det(it, a, k):
    from .pyeval import scal

    x = asA(it, a[0])
    if len(x.shape) != 2 or x.shape[0] != x.shape[1]:
        raise Undecided("linalg.det of a stack")
    e = els(x)

    def det(m):
        if len(m) == 0:
            return 1
        r = 0
        for j in range(len(m)):
            c = scal(it, "Mult", m[0][j], det([row[:j] + row[j + 1 :] for row in m[1:]]))
            r = scal(it, "Add" if j % 2 == 0 else "Sub", r, c)
        return r

    return det([list(r) for r in e])


@npf("linalg.inv")
def n_inv(it, a, k):
    """The inverse of a small matrix, by cofactors."""
    from .pyeval import scal

    x = asA(it, a[0])
    if len(x.shape) != 2 or x.shape[0] != x.shape[1] or x.shape[0] > 3:
        raise Undecided("linalg.inv of a stack or a large matrix")
    n = x.shape[0]
    m = [list(r) for r in els(x)]

    def det(m):
        if len(m) == 0:
            return 1
        r = 0
        for j in range(len(m)):
            c = scal(it, "Mult", m[0][j], det([row[:j] + row[j + 1 :] for row in m[1:]]))
            r = scal(it, "Add" if j % 2 == 0 else "Sub", r, c)
        return r

    d = det(m)
    if d == 0:
        raise Undecided("linalg.inv of a singular matrix")
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = det([r[:i] + r[i + 1 :] for q, r in enumerate(m) if q != j])
            c = scal(it, "Div", c, d)
            o[i, j] = c if (i + j) % 2 == 0 else scal(it, "Sub", 0, c)
    return unwrap(from_els(o, x.dt if x.dt.kind == "f" else D["f8"]))


@npf("indices")
def n_indices(it, a, k):
    b = sig(["dimensions", "dtype"], {"dtype": None})(it, a, k)
    r = np.indices(tuple(int(unwrap(x)) for x in it.iter(b["dimensions"])))
    return from_els(r.astype(object), dt_of(b["dtype"]) if b["dtype"] is not None else D["i8"])


@npf("ndindex")
def n_ndindex(it, a, k):
    sh = a[0] if len(a) == 1 and not isinstance(unwrap(a[0]), int) else a
    return Iter([tuple(i) for i in np.ndindex(*[int(unwrap(x)) for x in it.iter(sh)])])


@npf("ndenumerate")
def n_ndenumerate(it, a, k):
    e = els(asA(it, a[0]))
    return Iter([(tuple(i), e[i]) for i in np.ndindex(*e.shape)])


@npf("iinfo", "finfo")
def n_iinfo(it, a, k):
    from .pyeval import Obj

    d = dt_of(a[0]) if not isinstance(a[0], A) else a[0].dt
    o = Obj("fake")
    nm = {"i8": "int64", "i4": "int32", "i2": "int16", "i1": "int8", "u8": "uint64", "u4": "uint32", "u2": "uint16", "u1": "uint8", "f8": "float64", "f4": "float32"}.get(d.n)
    if nm is None:
        raise Undecided("numpy.iinfo")
    if d.kind in "iu":
        z = np.iinfo(nm)
        o.f.update(max=int(z.max), min=int(z.min), bits=int(z.bits), dtype=d)
    else:
        z = np.finfo(nm)
        o.f.update(max=float(z.max), min=float(z.min), bits=int(z.bits), eps=float(z.eps), tiny=float(z.tiny), resolution=float(z.resolution), dtype=d)
    return o


@npf("result_type", "promote_types")
def n_restype(it, a, k):
    return promote(*[x.dt if isinstance(x, A) else dt_of(x) for x in a])


@npf("isscalar")
def n_isscalar(it, a, k):
    from .pyeval import U

    if isinstance(a[0], U):
        raise Undecided("isscalar of an opaque value")
    return isinstance(a[0], (int, float, str, T, complex))


@npf("divmod")
def n_divmod(it, a, k):
    return (binary(it, "FloorDiv", a[0], a[1]), binary(it, "Mod", a[0], a[1]))


NP["left_shift"] = lambda it, a, k: binary(it, "LShift", asA(it, a[0]), asA(it, a[1]))
NP["right_shift"] = lambda it, a, k: binary(it, "RShift", asA(it, a[0]), asA(it, a[1]))
NP["bitwise_xor"] = lambda it, a, k: binary(it, "BitXor", asA(it, a[0]), asA(it, a[1]))
NP["negative"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: tm.neg(v) if isinstance(v, T) else -v)
NP["positive"] = lambda it, a, k: asA(it, a[0], copy=True)
NP["hypot"] = lambda it, a, k: _ufunc2(it, a[0], a[1], lambda p, q: tm.fn("sqrt", tm.add(tm.mul(p, p), tm.mul(q, q))) if isinstance(p, T) or isinstance(q, T) else math.hypot(p, q), D["f8"])
NP["reciprocal"] = lambda it, a, k: binary(it, "Div", 1.0, asA(it, a[0]))
NP["trunc"] = NP["fix"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: T("trunc", v) if isinstance(v, T) else float(math.trunc(v)), _fdt(it, a[0]))
NP["exp"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: tm.fn("exp", v) if isinstance(v, T) else math.exp(v), D["f8"])
NP["tan"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: tm.fn("tan", v) if isinstance(v, T) else math.tan(v), D["f8"])
NP["logical_xor"] = lambda it, a, k: _ufunc2(it, a[0], a[1], lambda p, q: tm.lor(tm.land(tr_(p), tm.lnot(tr_(q))), tm.land(tm.lnot(tr_(p)), tr_(q))) if isinstance(p, T) or isinstance(q, T) else bool(p) != bool(q), D["bool"])
NP["isfinite"] = lambda it, a, k: _ufunc1(it, a[0], lambda v: T("isfinite", v) if isinstance(v, T) else math.isfinite(v), D["bool"])


def _uf(n):
    """reduce, accumulate, outer, at of a binary universal function"""

    def f2(it):
        return lambda p, q: unwrap(NP[n](it, [p, q], {}))

    def red(it, a, k):
        from .pynp import _redu, _sumdt

        k = dict(k)
        if "axis" not in k and len(a) == 1:
            k["axis"] = 0
        init = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "bitwise_or": 0}.get(n)
        dtf = _sumdt if n in ("add", "multiply") else (lambda d: D["bool"]) if n.startswith("logical") else None
        return _redu(it, a, k, f2(it), init, dtf=dtf)

    def acc(it, a, k):
        from .pynp import _sumdt

        b = sig(["a", "axis"], {"axis": 0})(it, a, k)
        x = asA(it, b["a"])
        return from_els(accumulate(it, x, b["axis"], f2(it)), _sumdt(x.dt) if n in ("add", "multiply") else x.dt)

    def outer(it, a, k):
        if k:
            raise Undecided("ufunc.outer arguments")
        x, y = asA(it, a[0]), asA(it, a[1])
        return NP[n](it, [A(x.w.reshape(x.shape + (1,) * len(y.shape) + (x.dt.nw,)), x.dt), y], {})

    def at(it, a, k):
        if k or len(a) != 3:
            raise Undecided("ufunc.at arguments")
        tgt, idx, v = a
        if isinstance(idx, tuple):
            ix = [asA(it, i) for i in idx]
            if any(i.dt.kind not in "iu" for i in ix):
                raise Undecided("ufunc.at index")
            sh = np.broadcast_shapes(*[i.shape for i in ix])
            ix = [np.broadcast_to(els(i), sh) for i in ix]
            keys = [tuple(int(e[p]) for e in ix) for p in np.ndindex(*sh)]
        else:
            i = asA(it, idx)
            if i.dt.kind == "b":
                i = NP["flatnonzero"](it, [i], {})
            e = els(i)
            sh = e.shape
            if any(not isinstance(z, int) for z in e.ravel()):
                raise Undecided("ufunc.at with abstract indices")
            keys = [int(e[p]) for p in np.ndindex(*sh)]
        va = els(asA(it, v))
        if va.ndim > len(sh):
            if va.shape[: len(sh)] != tuple(sh):
                raise Undecided("ufunc.at values")
            vs = [from_els(va[p], infer(list(va[p].ravel()))) for p in np.ndindex(*sh)]
        else:
            vb = np.broadcast_to(va, sh)
            vs = [vb[p] for p in np.ndindex(*sh)]
        for key, z in zip(keys, vs):
            setitem(it, tgt, key, NP[n](it, [getitem(it, tgt, key), z], {}))
        return None

    NP[n + ".reduce"], NP[n + ".accumulate"], NP[n + ".outer"], NP[n + ".at"] = red, acc, outer, at


for _n in ("add", "multiply", "maximum", "minimum", "logical_and", "logical_or", "subtract", "bitwise_or", "bitwise_and"):
    _uf(_n)


# -------------------------------------------------- standard library
def install2(it, ov):
    from .pyeval import Native, U, Obj, Class, DefaultDict
    from .pynp import _acc

    def reg(n, f):
        ov.setdefault(n, Native(n.split(".")[-1], f))

    def con(x, what):
        x = unwrap(x)
        if isinstance(x, (T, U)):
            raise Undecided("abstract " + what)
        return x

    ov.setdefault("numpy.r_", RC(False))
    ov.setdefault("numpy.c_", RC(True))

    def islice(it, a, k):
        b = [con(x, "islice bound") for x in a[1:]]
        return Iter(list(itertools.islice(list(it.iter(a[0])), *b)))

    reg("itertools.islice", islice)
    reg("itertools.zip_longest", lambda it, a, k: Iter([tuple(t) for t in itertools.zip_longest(*[list(it.iter(x)) for x in a], **k)]))
    reg("itertools.starmap", lambda it, a, k: Iter([it.call(a[0], list(it.iter(x))) for x in it.iter(a[1])]))
    reg("itertools.chain.from_iterable", lambda it, a, k: [y for x in it.iter(a[0]) for y in it.iter(x)])
    reg("itertools.compress", lambda it, a, k: Iter([x for x, s in zip(it.iter(a[0]), it.iter(a[1])) if it.truth(s)]))
    reg("itertools.pairwise", lambda it, a, k: (lambda xs: Iter(list(zip(xs, xs[1:]))))(list(it.iter(a[0]))))
    reg("itertools.combinations_with_replacement", lambda it, a, k: list(itertools.combinations_with_replacement(list(it.iter(a[0])), a[1])))

    def repeat(it, a, k):
        n = k.get("times", a[1] if len(a) > 1 else None)
        if n is None:
            raise Undecided("itertools.repeat without end")
        return Iter([a[0]] * con(n, "count"))

    reg("itertools.repeat", repeat)

    def groupby(it, a, k):
        key = k.get("key", a[1] if len(a) > 1 else None)
        out = []
        for x in it.iter(a[0]):
            q = it.call(key, [x]) if key is not None else x
            if out and it.truth(it.eq(out[-1][0], q)):
                out[-1][1].append(x)
            else:
                out.append((q, [x]))
        return Iter([(q, Iter(g)) for q, g in out])

    reg("itertools.groupby", groupby)

    def tkwhile(take):
        def f(it, a, k):
            out, on = [], False
            for x in it.iter(a[1]):
                if not on and not it.truth(it.call(a[0], [x])):
                    on = True
                    if take:
                        break
                if take or on:
                    out.append(x)
            return Iter(out)

        return f

    reg("itertools.takewhile", tkwhile(True))
    reg("itertools.dropwhile", tkwhile(False))
    reg("itertools.filterfalse", lambda it, a, k: Iter([x for x in it.iter(a[1]) if not it.truth(it.call(a[0], [x]) if a[0] is not None else x)]))

    def counter(it, a, k):
        d = DefaultDict()
        d.factory = Native("zero", lambda it, a, k: 0)
        d.nostore = True
        if a and isinstance(a[0], dict):
            d.update(a[0])
        elif a:
            for x in it.iter(a[0]):
                it.setitem(d, x, it.binop("Add", it.getitem(d, x), 1))
        d.update(k)
        return d

    reg("collections.Counter", counter)
    reg("collections.deque", lambda it, a, k: list(it.iter(a[0])) if a and not k and len(a) == 1 else [] if not a and not k else (_ for _ in ()).throw(Undecided("deque with a bound")))

    def nt(it, a, k):
        names = a[1]
        if isinstance(names, str):
            names = names.replace(",", " ").split()
        if len(a) > 2 or set(k) - {"defaults"}:
            raise Undecided("namedtuple arguments")
        names = [str(x) for x in it.iter(names)]
        c = Class(a[0], [], {}, it.cur_mod() if hasattr(it, "cur_mod") else _NoMod, None)
        c.fields, c.namedtuple, c.frozen = names, True, False
        df = list(it.iter(k.get("defaults") or ()))
        for n, v in zip(names[len(names) - len(df) :], df):
            c.d[n] = v
        return c

    reg("collections.namedtuple", nt)

    def ig(it, a, k):
        def f(it2, a2, k2):
            r = [it2.getitem(a2[0], x) for x in a]
            return r[0] if len(r) == 1 else tuple(r)

        return Native("itemgetter", f)

    def ag(it, a, k):
        def one(it2, o, n):
            for p in n.split("."):
                o = it2.getattr_(o, p)
            return o

        def f(it2, a2, k2):
            r = [one(it2, a2[0], x) for x in a]
            return r[0] if len(r) == 1 else tuple(r)

        return Native("attrgetter", f)

    def mc(it, a, k):
        return Native("methodcaller", lambda it2, a2, k2: it2.call(it2.getattr_(a2[0], a[0]), list(a[1:]), dict(k)))

    reg("operator.itemgetter", ig)
    reg("operator.attrgetter", ag)
    reg("operator.methodcaller", mc)
    for n, o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"), ("and_", "BitAnd"), ("or_", "BitOr"), ("xor", "BitXor"), ("pow", "Pow"), ("matmul", "MatMult"), ("lshift", "LShift"), ("rshift", "RShift")):
        reg("operator." + n, lambda it, a, k, o=o: it.binop(o, a[0], a[1]))
    for n, o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"), ("is_not", "IsNot")):
        reg("operator." + n, lambda it, a, k, o=o: it.compare(o, a[0], a[1]))
    reg("operator.contains", lambda it, a, k: it.contains(a[0], a[1]))
    reg("operator.getitem", lambda it, a, k: it.getitem(a[0], a[1]))
    reg("operator.neg", lambda it, a, k: it.binop("Mult", -1, a[0]))
    reg("operator.not_", lambda it, a, k: not it.truth(a[0]))
    reg("operator.truth", lambda it, a, k: it.truth(a[0]))

    def bis(right):
        def f(it, a, k):
            if k or len(a) > 2:
                raise Undecided("bisect arguments")
            xs = list(it.iter(a[0]))
            for i, x in enumerate(xs):
                if it.truth(it.compare("Lt", a[1], x)) or not right and it.truth(it.eq(a[1], x)):
                    return i
            return len(xs)

        return f

    reg("bisect.bisect_left", bis(False))
    reg("bisect.bisect_right", bis(True))
    reg("bisect.bisect", bis(True))
    reg("bisect.insort", lambda it, a, k: a[0].insert(bis(True)(it, a, k), a[1]))


    from .pyeval import SuppressV, NullCtx

    reg("contextlib.suppress", lambda it, a, k: SuppressV(tuple(a)))
    reg("contextlib.nullcontext", lambda it, a, k: NullCtx(a[0] if a else k.get("enter_result")))


class _NoMod:
    name = "collections"


# ------------------------------------------ functions that change an argument
@npf("copyto")
def n_copyto(it, a, k):
    b = sig(["dst", "src", "casting", "where"], {"casting": "same_kind", "where": True})(it, a, k)
    if b["where"] is not True:
        m = asA(it, b["where"])
        return setitem(it, b["dst"], Ellipsis, NP["where"](it, [m, b["src"], b["dst"]], {}))
    return setitem(it, b["dst"], Ellipsis, b["src"])


@npf("put")
def n_put(it, a, k):
    if k or len(a) != 3:
        raise Undecided("put arguments")
    x, i, v = a[0], els(asA(it, a[1])).ravel(), els(asA(it, a[2])).ravel()
    n = int(np.prod(x.shape, dtype=int))
    for j, p in enumerate(i):
        if not isinstance(p, int):
            raise Undecided("put with abstract indices")
        if not -n <= p < n:
            raise it.exc("IndexError", "put index")
        setitem(it, x, tuple(int(q) for q in np.unravel_index(p % n, x.shape)), v[j % len(v)])


@npf("place", "putmask")
def n_putmask(it, a, k):
    if k or len(a) != 3:
        raise Undecided("putmask arguments")
    x, v = a[0], asA(it, a[2])
    if int(np.prod(v.shape, dtype=int)) != 1:
        raise Undecided("putmask with several values")
    return setitem(it, x, NP["asarray"](it, [a[1]], {}), els(v).ravel()[0])


@npf("fill_diagonal")
def n_filld(it, a, k):
    if k or len(a) != 2 or len(a[0].shape) != 2:
        raise Undecided("fill_diagonal arguments")
    v = els(asA(it, a[1])).ravel()
    for i in range(min(a[0].shape)):
        setitem(it, a[0], (i, i), v[i % len(v)])


for _n in ("random.shuffle", "lib.stride_tricks.as_strided", "nditer", "random.seed"):
    NP[_n] = lambda it, a, k, n=_n: (_ for _ in ()).throw(Undecided("numpy." + n))


@npf("compress")
def n_compress(it, a, k):
    b = sig(["condition", "a", "axis"], {"axis": None})(it, a, k)
    i = NP["flatnonzero"](it, [asA(it, b["condition"])], {})
    return NP["take"](it, [b["a"], i], {"axis": b["axis"]})


@npf("extract")
def n_extract(it, a, k):
    return NP["take"](it, [NP["ravel"](it, [a[1]], {}), NP["flatnonzero"](it, [asA(it, a[0])], {})], {})


@npf("select")
def n_select(it, a, k):
    b = sig(["condlist", "choicelist", "default"], {"default": 0})(it, a, k)
    r = b["default"]
    for c, x in reversed(list(zip(it.iter(b["condlist"]), it.iter(b["choicelist"])))):
        r = NP["where"](it, [c, x, r], {})
    return r


@npf("choose")
def n_choose(it, a, k):
    if k:
        raise Undecided("choose arguments")
    s, xs = asA(it, a[0]), _arrs(it, a[1])
    sh = np.broadcast_shapes(s.shape, *[x.shape for x in xs])
    e = np.broadcast_to(els(s), sh)
    es = [np.broadcast_to(els(x), sh) for x in xs]
    o = oarr(sh)
    for i in np.ndindex(*sh):
        if not isinstance(e[i], int):
            raise Undecided("abstract choice")
        if not 0 <= e[i] < len(es):
            raise it.exc("ValueError", "invalid entry in choice array")
        o[i] = es[e[i]][i]
    return from_els(o, promote(*[x.dt for x in xs]))


@npf("vectorize")
def n_vectorize(it, a, k):
    from .pyeval import Native

    if k or len(a) != 1:
        raise Undecided("vectorize arguments")

    def f(it2, a2, k2):
        xs = _arrs(it2, list(a2))
        sh = np.broadcast_shapes(*[x.shape for x in xs])
        es = [np.broadcast_to(els(x), sh) for x in xs]
        o = oarr(sh)
        for i in np.ndindex(*sh):
            o[i] = unwrap(it2.call(a[0], [e[i] for e in es], k2))
        return from_els(o, infer(list(o.ravel())))

    return Native("vectorized", f)


@npf("apply_along_axis")
def n_aaa(it, a, k):
    f, ax, x = a[0], a[1], asA(it, a[2])
    e = np.moveaxis(els(x), ax, -1)
    o = oarr(e.shape[:-1])
    for i in np.ndindex(*o.shape):
        r = unwrap(it.call(f, [from_els(e[i].copy(), x.dt)] + list(a[3:]), k))
        if isinstance(r, (A, list, tuple)):
            raise Undecided("apply_along_axis with array results")
        o[i] = r
    return from_els(o, infer(list(o.ravel())))


@npf("take_along_axis")
def n_taa(it, a, k):
    b = sig(["arr", "indices", "axis"], {"axis": -1})(it, a, k)
    x, i = asA(it, b["arr"]), asA(it, b["indices"])
    if b["axis"] is None:
        raise Undecided("take_along_axis flattened")
    try:
        return from_els(np.take_along_axis(els(x), els(i).astype(int), b["axis"]), x.dt)
    except (TypeError, ValueError) as ex:
        raise Undecided("take_along_axis " + str(ex))


def _without(f, n, binary_):
    """the out= and where= arguments of universal functions"""

    def g(it, a, k):
        nin = 2 if binary_ else 1
        out = k.get("out")
        if len(a) > nin:
            out, a = a[nin], a[:nin]
        if k.get("where", True) is not True:
            raise Undecided("where argument of a universal function")
        k = {x: y for x, y in k.items() if x not in ("out", "where")}
        d = k.pop("dtype", None)
        k.pop("casting", None)
        r = f(it, a, k)
        if d is not None:
            r = from_els(els(asA(it, r)), dt_of(d))
        if isinstance(out, tuple):
            out = out[0]
        if out is not None:
            from .pynp import iop

            x = asA(it, r)
            if out.dt.kind in "iu" and x.dt.kind in "fc":
                raise it.exc("TypeError", "cannot cast the output to %s" % out.dt)
            if out.shape != x.shape:
                raise it.exc("ValueError", "non-broadcastable output operand")
            setitem(it, out, Ellipsis, x)
            return out
        return r

    g.ufunc = True
    return g


for _n in ("add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "mod", "remainder", "power", "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "bitwise_and", "bitwise_or", "bitwise_xor", "logical_and", "logical_or", "logical_xor", "maximum", "minimum", "left_shift", "right_shift", "hypot"):
    NP[_n] = _without(NP[_n], _n, True)
for _n in ("ceil", "floor", "sqrt", "abs", "absolute", "fabs", "sin", "cos", "square", "sign", "isnan", "rint", "logical_not", "negative", "exp", "tan", "isfinite", "trunc"):
    NP[_n] = _without(NP[_n], _n, False)
