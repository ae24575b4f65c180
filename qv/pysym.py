"""Obligations over the abstract interpretation of the Python sources."""
import numpy as np
from . import terms as tm
from .terms import T
from .cxxeval import Undecided, paths
from .cxxprog import AnalysisBroken, REPO
from .cxxsym import Sampler
from .pyeval import Interp, PyRaise, U, Obj, Func, Class, ExcVal, GenCall, Bound, Native, Module, prog  # noqa: F401
from . import pynp
from .pynp import A, D, asA, els  # noqa: F401
from .report import relpath

S_ = tm.sym


def arr(it, v, dt="f8"):
    return asA(it, v, D[dt])


def flat(v):
    """entries of an abstract array / sequence as a flat list"""
    if isinstance(v, A):
        return list(els(v).reshape(-1))
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in (flat(x) if isinstance(x, (list, tuple, A)) else [x])]
    return [v]


def ints(v):
    r = []
    for x in flat(v):
        if isinstance(x, (T, U)):
            raise Undecided("abstract integer")
        r.append(int(x))
    return r


def shape(v):
    return tuple(v.shape) if isinstance(v, A) else None


def wf(f):
    """file:line (name) of a function of the package"""
    while not isinstance(f, Func) and hasattr(f, "f") and not isinstance(f, Obj):
        f = f.f
    if isinstance(f, Func):
        return "%s:%d (%s)" % (relpath(f.file), f.line, f.q)
    if isinstance(f, Class):
        return "%s:%d (%s)" % (relpath(f.mod.file), f.node.lineno, f.name)
    return str(f)


def opaque_pc(pc):
    """does the path depend on the value of code outside the repository?"""
    for c in pc:
        if _opaque(c):
            return True
    return False


def _opaque(c):
    if not isinstance(c, T):
        return False
    if c.op in ("truth", "exc-is", "opaque", "cmp-opaque", "in", "eq", "isinst", "is"):
        return True
    return any(_opaque(a) for a in c.args)


def pydecide(ctx, fn, spec, ranges=({},), cap=64, hooks=None, over=None, throw=None, may_raise=None, setup=None, max_steps=3000000):
    """evaluate fn(it) on every path; spec(it, result, S) -> (ok, detail).
    An exception on a path inputs can reach is a violation unless throw(it, e, S) accepts it."""
    done, why = 0, None

    def mk():
        it = Interp(hooks=hooks, over=over, max_steps=max_steps)
        it.may_raise = may_raise
        if setup:
            setup(it)
        return it

    for it, out, r in paths(mk, fn, cap):
        for q in it.called:
            if not str(q.mod.name).startswith("vmodel"):
                ctx.unit("functions", q)
        if out == "end":
            continue
        for rg in ranges:
            S = Sampler(seed=ctx.seed, ranges=rg)
            if it.pc and not opaque_pc(it.pc):
                try:
                    if S.region(it.pc).sum() < 3:
                        continue
                except Exception:
                    pass
            if out == "throw":
                if throw is not None:
                    ok, det = throw(it, r, S)
                elif opaque_pc(it.pc):
                    ok, det = None, "exception on a path decided outside the repository: %s" % r
                else:
                    ok, det = False, "%s" % r
            elif out == "oob":
                ok, det = False, "access outside its array: %s" % r
            else:
                try:
                    ok, det = spec(it, r, S)
                except (PyRaise, TypeError, AttributeError):
                    if r is not None:
                        raise
                    ok, det = False, "nothing is returned"
            if ok is False:
                return False, det
            if ok is None:
                why = det
            else:
                done += 1
    if done:
        return (None, why) if why else (True, "")
    return None, why or "no path could be evaluated"


def same_list(got, want, what="value"):
    if len(got) != len(want):
        return False, "%s has %d entries, %d specified" % (what, len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return False, "%s[%d] is %s, specified %s" % (what, i, a, b)
    return True, ""


def pyneed(it, dotted):
    return it.get(dotted)


def fake(name, /, **kw):
    """model of an object of code outside the repository"""
    o = Obj("fake")
    o.f.update(kw, __name__=name)
    return o


def nat(name, fn):
    """model of a function of code outside the repository"""
    return Native(name, lambda it, a, k: fn(it, *a, **k))


def new(it, dotted, **fields):
    """object of a class of the package in a given state (its __init__ is not interpreted)"""
    o = Obj(it.get(dotted))
    o.f.update(fields)
    return o


def meth(it, o, name, *a, **k):
    return it.call(it.getattr_(o, name), list(a), k)
