"""C17: what the compiled module hands to Python; C18: functions created from Python describe the
documented shapes; C19: the package and the compiled module agree on names, signatures and arguments.

The initialisation routine of the compiled module is evaluated abstractly with a recording module.
Registered callables are then evaluated with abstract values as nanobind would pass them (overloads in
registration order, without and then with implicit conversions), from the interpretation of the Python sources
where the package is the caller."""
import ast, os, re
from fractions import Fraction as Fr
from .. import terms as tm
from .. import binds, pynp
from ..cxxsym import *
from ..cxxeval import Clo, Cell, paths
from ..pysym import pydecide, arr, flat, ints, shape, meth, wf, S_, fake, A, D, pyneed
from ..pyeval import Obj as PO, U, PyRaise, Interp
from ..report import wh, relpath
from . import shapes
from .shapes import SPEC, TPMS, PI
from .index import grid

_br = {}


def bridge(P):
    if "b" not in _br:
        _br["b"] = binds.Bridge(P)
        _br["m"] = _br["b"].module()
    return _br["b"], _br["m"]


class hooked:
    """library routines observed while the bound callable runs"""

    def __init__(self, br, h):
        self.br, self.h = br, h

    def __enter__(self):
        self.old = {k: dict.get(self.br.hk, k) for k in self.h}
        self.br.hk.update(self.h)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                dict.pop(self.br.hk, k, None)
            else:
                self.br.hk[k] = v


def same(S, pc, got, want, what):
    got = [x for x in got]
    if len(got) != len(want):
        return False, "%s has %d entries, %d expected" % (what, len(got), len(want))
    und = None
    for k, (a, b) in enumerate(zip(got, want)):
        if isinstance(a, T) or isinstance(b, T) or isinstance(a, (float, Fr)) or isinstance(b, (float, Fr)):
            ok, det = S.same(a, b, pc)
        else:
            ok, det = (a == b, "%s instead of %s" % (a, b))
        if ok is False:
            return False, "%s, entry %d: %s" % (what, k, det)
        if ok is None:
            und = det
    return (True, "") if und is None else (None, und)


def array(it, S, a, want, shp, dt, what):
    """the array handed to Python has the expected type, shape and entries"""
    if not isinstance(a, A):
        return False, "%s is not an array" % what
    if shape(a) != tuple(shp):
        return False, "%s has shape %s, expected %s" % (what, shape(a), tuple(shp))
    if dt and a.dt.n != D[dt].n:
        return False, "%s has entries of type %s, expected %s" % (what, a.dt.n, dt)
    return same(S, it.pc, flat(a), list(want), what)


def both(*rs):
    und = None
    for ok, det in rs:
        if ok is False:
            return ok, det
        if ok is None:
            und = det
    return (True, "") if und is None else (None, und)


class Env:
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        self.br, self.m = bridge(P)
        self.it0 = Interp()

    def fn(self, name):
        return self.m.g.get(name)

    def run(self, rule, key, go, spec, ranges=({},), names=(), nm=None, **kw):
        """go(it) evaluated with the compiled module; spec(it, r, S)"""
        br = self.br

        def body():
            for n in names:
                if n not in self.m.g:
                    return False, "%s is not registered in the compiled module" % n
            br.problems.clear()
            br.calls.clear()

            def sp(it, r, S):
                if br.problems:
                    d, why = br.problems[0]
                    return False, "%s: %s" % (d.name, why)
                return spec(it, r, S)

            return pydecide(self.ctx, go, sp, ranges=ranges, over={"qugar.cpp": self.m}, **kw)

        where = wf(self.it0.get(nm if nm.startswith("qugar.") else IF + nm)) if nm else ""
        for n in names:
            ds = self.br.mod.fns.get(n)
            if ds:
                where = self.where(ds[0])
        self.ctx.attempt(rule, key, body, where)
        for q in br.called:
            self.ctx.unit("routines", getattr(q, "q", q))

    def where(self, d):
        if isinstance(d.fn, Clo):
            return "%s:%s (%s)" % (relpath(d.fn.tu.path), d.line(), d.name)
        return d.name


def syms(n, k=None):
    return [S_("%s%d" % (n, i)) for i in range(k)]


def obj(E, it, cls, fields):
    """object of a library class in a given state"""
    ev = Eval(E.P, hooks=E.br.hk)
    o = ev.new_object(cls)
    for k, v in fields.items():
        if k not in o.f and cls in E.P.records and k not in [f["n"] for f in E.P.records[cls][0]["fields"]]:
            raise AnalysisBroken("member %s of %s" % (k, cls))
        o.f[k] = v
    return E.br.wrap(o)


def column(it, vals, dt):
    """the values as a column of a two-dimensional array"""
    a = arr(it, [y for x in vals for y in (x, x + 1)], dt)
    b = pynp.reshape(it, a, (len(vals), 2))
    return A(b.w[:, 0], b.dt)


def get(it, o, n):
    return it.getattr_(o, n)


def pts2(it, rows, dt="f8"):
    a = arr(it, [x for r in rows for x in r], dt)
    return pynp.reshape(it, a, (len(rows), len(rows[0]) if rows else 0))


# ------------------------------------------------------------------------ C17
def lifetime(E):
    """captures of the registered callables"""
    ctx = E.ctx
    n = 0

    def refs(c, seen):
        if id(c) in seen:
            return None
        seen.add(id(c))
        if c.refs:
            r = c.refs[0]
            return r[1] if isinstance(r, tuple) else r
        for cell in c.frame.vars.values():
            v = cell.get() if isinstance(cell, Cell) else None
            if isinstance(v, Clo):
                r = refs(v, seen)
                if r:
                    return r
        return None

    ds = [(k, d) for k, l in E.br.mod.fns.items() for d in l]
    ds += [(k + "." + m, d) for k, c in E.br.mod.classes.items() for m, l in c.m.items() for d in l]
    for k, d in ds:
        if not isinstance(d.fn, Clo):
            continue
        r = refs(d.fn, set())
        n += 1
        ctx.ob("a registered callable owns what it captures", "%s/%d" % (k, len(d.args)), r is None, E.where(d), "it captures %s by reference, which is gone once the module is initialised" % r)
    ctx.unit("callables", n)


def boxes(E):
    for d in (2, 3):
        lo, hi = syms("l", d), syms("h", d)
        rg = dict({"l%d" % i: (-1.0, 1.0) for i in range(d)}, **{"h%d" % i: (1.5, 3.0) for i in range(d)})
        for form in ("lists", "arrays"):
            def go(it, d=d, form=form):
                mk = (lambda v: list(v)) if form == "lists" else (lambda v: arr(it, v))
                b = it.call(E.fn("create_bound_box"), [mk(lo), mk(hi)])
                return b, meth(it, b, "as_array"), get(it, b, "min_corner"), get(it, b, "max_corner"), get(it, b, "mid_point"), get(it, b, "volume"), [meth(it, b, "length", i) for i in range(d)]

            def spec(it, r, S, d=d):
                v = 1
                for i in range(d):
                    v = v * (hi[i] - lo[i])
                return both(array(it, S, r[1], [x for i in range(d) for x in (lo[i], hi[i])], (d, 2), "f8", "as_array"),
                            array(it, S, r[2], lo, (d,), "f8", "min_corner"), array(it, S, r[3], hi, (d,), "f8", "max_corner"),
                            array(it, S, r[4], [(a + b) / 2 for a, b in zip(lo, hi)], (d,), "f8", "mid_point"),
                            same(S, it.pc, [r[5]], [v], "volume"), same(S, it.pc, r[6], [b - a for a, b in zip(lo, hi)], "length"))

            E.run("bounding box", "%dD from %s" % (d, form), go, spec, (rg,), ["create_bound_box", "BoundBox_%dD" % d])


def grids(E):
    for d in (2, 3):
        ns = (3, 2, 2)[:d]
        brk = [[Fr(x) for x in b] for b in ([0, 1, 3, 4], [0, 2, 5], [0, 4, 5])][:d]
        N = 1
        for n in ns:
            N *= n
        for form in ("arrays", "lists", "box", "arrays f4", "columns"):
            def go(it, d=d, form=form):
                if form == "box":
                    b = it.call(E.fn("create_bound_box"), [[Fr(0)] * d, [Fr(6), Fr(4), Fr(2)][:d]])
                    g = it.call(E.fn("create_cart_grid"), [b, list(ns)], {})
                else:
                    bs = [list(x) if form == "lists" else column(it, x, "f8") if form == "columns" else arr(it, x, "f4" if "f4" in form else "f8") for x in brk]
                    g = it.call(E.fn("create_cart_grid"), [bs])
                dom = get(it, g, "domain")
                return (g, get(it, g, "dim"), get(it, g, "num_cells_dir"), get(it, g, "cell_breaks"), get(it, dom, "min_corner"), get(it, dom, "max_corner"),
                        [meth(it, meth(it, g, "get_cell_domain", c), "as_array") for c in range(N)], [meth(it, g, "get_boundary_cells", f) for f in range(2 * d)])

            def spec(it, r, S, d=d, form=form):
                B = brk if form != "box" else [[Fr(2 * i) for i in range(4)], [Fr(2 * i) for i in range(3)], [Fr(0), Fr(1), Fr(2)]][:d]
                if r[1] != d:
                    return False, "dim is %s" % r[1]
                cs = [(both(array(it, S, r[2], ns, (d,), None, "num_cells_dir")))]
                if len(r[3]) != d:
                    return False, "cell_breaks has %d directions" % len(r[3])
                for k in range(d):
                    cs.append(array(it, S, r[3][k], B[k], (ns[k] + 1,), "f8", "cell_breaks of direction %d" % k))
                cs.append(array(it, S, r[4], [b[0] for b in B], (d,), "f8", "lower corner of the domain"))
                cs.append(array(it, S, r[5], [b[-1] for b in B], (d,), "f8", "upper corner of the domain"))
                tens = []
                for c in range(N):
                    t, q = [], c
                    for k in range(d):
                        t.append(q % ns[k])
                        q //= ns[k]
                    tens.append(t)
                    cs.append(array(it, S, r[6][c], [x for k in range(d) for x in (B[k][t[k]], B[k][t[k] + 1])], (d, 2), "f8", "domain of cell %d" % c))
                for f in range(2 * d):
                    want = [c for c in range(N) if tens[c][f // 2] == (ns[f // 2] - 1 if f % 2 else 0)]
                    got = r[7][f]
                    if not isinstance(got, A) or sorted(ints(got)) != want or len(shape(got)) != 1:
                        return False, "get_boundary_cells(%d) is %s, expected %s" % (f, flat(got) if isinstance(got, A) else got, want)
                return both(*cs)

            E.run("Cartesian grid", "%dD from %s" % (d, form), go, spec, names=["create_cart_grid", "CartGridTP_%dD" % d])


def quads(E):
    for d in (1, 2, 3):
        for n in ((2, 1, 3)[:d], (1, 3, 2)[:d]):
            def go(it, n=n):
                q = it.call(E.fn("create_Gauss_quad_01"), [list(n)])
                return q, get(it, q, "points"), get(it, q, "weights")

            def spec(it, r, S, n=n, d=d):
                G = {1: ([0.5], [1.0]), 2: ([0.5 - 3**-0.5 / 2, 0.5 + 3**-0.5 / 2], [0.5, 0.5]), 3: ([0.5 - 0.6**0.5 / 2, 0.5, 0.5 + 0.6**0.5 / 2], [5 / 18, 4 / 9, 5 / 18])}
                N = 1
                for x in n:
                    N *= x
                P, W = [], []
                for i in range(N):
                    t, q, w = [], i, 1.0
                    for k in range(d):
                        t.append(G[n[k]][0][q % n[k]])
                        w *= G[n[k]][1][q % n[k]]
                        q //= n[k]
                    P += t
                    W.append(w)
                return both(array(it, S, r[1], P, (N, d), "f8", "points"), array(it, S, r[2], W, (N,), "f8", "weights"))

            E.run("Gauss quadrature", "%s points" % (n,), go, spec, names=["create_Gauss_quad_01"])


def cutquads(E):
    CELLS, CNT, FAC = [5, 2, 9], [2, 0, 1], [3, 0, 2]
    for d in (2, 3):
        for empty in (False, True):
            for name, cls, m, flds in (("CutCellsQuad_%dD" % d, "qugar::CutCellsQuad<%d>" % d, d, {"cells": "cells", "n_pts_per_entity": "n_pts_per_cell"}),
                                       ("CutIsoBoundsQuad_%dD" % (d - 1), "qugar::CutIsoBoundsQuad<%d>" % (d - 1), d - 1, {"cells": "cells", "facets": "local_facet_ids", "n_pts_per_entity": "n_pts_per_facet"}),
                                       ("CutUnfBoundsQuad_%dD" % d, "qugar::CutUnfBoundsQuad<%d>" % d, d, {"cells": "cells", "n_pts_per_entity": "n_pts_per_cell", "normals": "normals"})):
                NP = 0 if empty else 3
                ptv = [[S_("p%d_%d" % (i, k)) for k in range(m)] for i in range(NP)]
                nrv = [[S_("n%d_%d" % (i, k)) for k in range(m)] for i in range(NP)]
                wv = [S_("w%d" % i) for i in range(NP)]
                want = {"cells": [] if empty else CELLS, "facets": [] if empty else FAC, "n_pts_per_entity": [] if empty else CNT}

                def go(it, cls=cls, flds=flds, m=m, name=name):
                    f = {"points": stdvec([vec(p) for p in ptv], "algoim::uvector<double, %d>" % m), "weights": stdvec(wv)}
                    for py, cx in flds.items():
                        if py == "normals":
                            f[cx] = stdvec([vec(p) for p in nrv], "algoim::uvector<double, %d>" % m)
                        else:
                            f[cx] = stdvec(want[py], "long" if py == "cells" else "int")
                    o = obj(E, it, cls, f)
                    if o.cls.name != name:
                        raise AnalysisBroken("%s is registered as %s" % (cls, o.cls.name))
                    return {k: get(it, o, k) for k in list(flds) + ["points", "weights"]}

                def spec(it, r, S, m=m, flds=flds, ptv=ptv, wv=wv, nrv=nrv, NP=NP, want=want):
                    cs = [array(it, S, r["points"], [x for p in ptv for x in p], (NP, m), "f8", "points"), array(it, S, r["weights"], wv, (NP,), "f8", "weights")]
                    for k in flds:
                        if k == "normals":
                            cs.append(array(it, S, r[k], [x for p in nrv for x in p], (NP, m), "f8", k))
                        else:
                            cs.append(array(it, S, r[k], want[k], (len(want[k]),), "i8" if k == "cells" else "i4", k))
                    return both(*cs)

                E.run("quadrature of cut cells and facets", "%s%s" % (name, ", empty" if empty else ""), go, spec, names=[name])


def forwarding(E):
    """creation of quadratures, domains and reparameterizations: arguments and result"""
    IM = IMPL + "UnfittedImplDomain<%d>"
    cases = []
    for d in (2, 3):
        cases += [("create_quadrature", d, ["cells", "n"], "qugar::create_quadrature", "qugar::CutCellsQuad<%d>" % d),
                  ("create_unfitted_bound_quadrature", d, ["cells", "n", "b1", "b2"], "qugar::create_unfitted_bound_quadrature", "qugar::CutUnfBoundsQuad<%d>" % d),
                  ("create_facets_quadrature_interior_integral", d, ["cells", "facets", "n"], "qugar::create_facets_quadrature_interior_integral", "qugar::CutIsoBoundsQuad<%d>" % (d - 1)),
                  ("create_facets_quadrature_exterior_integral", d, ["cells", "facets", "n"], "qugar::create_facets_quadrature_exterior_integral", "qugar::CutIsoBoundsQuad<%d>" % (d - 1)),
                  ("create_reparameterization", d, ["cells", "n", "b1"], "qugar::create_reparameterization", "qugar::ReparamMesh<%d, %d>" % (d, d)),
                  ("create_reparameterization", d, ["n", "b1"], "qugar::create_reparameterization", "qugar::ReparamMesh<%d, %d>" % (d, d)),
                  ("create_reparameterization_levelset", d, ["cells", "n", "b1"], "qugar::create_reparameterization", "qugar::ReparamMesh<%d, %d>" % (d - 1, d)),
                  ("create_reparameterization_levelset", d, ["n", "b1"], "qugar::create_reparameterization", "qugar::ReparamMesh<%d, %d>" % (d - 1, d))]
    KW = {"cells": "cells", "facets": "facets", "n": "n_pts_dir"}
    for name, d, pars, lib, res in cases:
        lset = name.endswith("_levelset")
        kwb = ["include_facet_unf_bdry", "exclude_ext_bdry"] if "bound_quad" in name else ["merge_points"]
        for b1, b2 in ((True, False), (False, True)):
            for kw in (False, True, "columns") if "cells" in pars else (False, True):
                for empty in (False, True) if "cells" in pars and kw != "columns" else (False,):
                    V = {"cells": [] if empty else [7, 3, 11], "facets": [] if empty else [2, 0, 1], "n": 5, "b1": b1, "b2": b2}

                    def go(it, name=name, d=d, pars=pars, lib=lib, res=res, kw=kw, V=V, kwb=kwb):
                        dom = Obj(IM % d)
                        seen = []

                        def obs(ev, f, args, o):
                            seen.append((f, [ev.rv(a) for a in args]))
                            r = Obj(res)
                            seen.append(r)
                            return Ptr(r)

                        with hooked(E.br, {lib: obs}):
                            a = []
                            for p in pars:
                                v = V[p]
                                mk = column if kw == "columns" else arr
                                a.append(mk(it, v, "i8") if p == "cells" else mk(it, v, "i4") if p == "facets" else v)
                            py = E.br.wrap(dom)
                            if kw:
                                nm = [KW.get(p) or kwb[int(p[1]) - 1] for p in pars]
                                r = it.call(E.fn(name), [], dict(zip(["unf_domain"] + nm, [py] + a)))
                            else:
                                r = it.call(E.fn(name), [py] + a)
                        return dom, seen, r

                    def spec(it, r, S, name=name, d=d, pars=pars, V=V, res=res, lset=lset):
                        dom, seen, out = r
                        if len(seen) != 2:
                            return False, "%d requests to the library" % (len(seen) // 2)
                        f, a = seen[0]
                        ta = [str(x) for x in f.get("ta", [])]
                        if not isinstance(out, PO) or out.f.get("__cxx__") is not seen[1]:
                            return False, "the result is not the object made by the library"
                        if ta and ta[0].rstrip("U") != str(d):
                            return False, "library routine of dimension %s" % ta[0]
                        if "reparam" in name and len(ta) > 1 and (ta[1] in ("1", "true")) != lset:
                            return False, "library routine with levelset = %s" % ta[1]
                        x = a[0]
                        x = x.t if isinstance(x, Ptr) else x
                        if x is not dom:
                            return False, "another domain"
                        if len(a) < len(pars) + 1:
                            return False, "only %d of the %d arguments reach the library" % (len(a), len(pars) + 1)
                        if len(a) != len(pars) + 1:
                            return None, "%d arguments" % len(a)
                        for p, v in zip(pars, a[1:]):
                            w = V[p]
                            v = list(v.d) if isinstance(v, Arr) else v
                            if isinstance(v, Span):
                                v = [v.getat(k) for k in range(v.n)]
                            if v != w:
                                return False, "argument %s is %s instead of %s" % (KW.get(p, p), v, w)
                        return True, ""

                    E.run("requests reach the library unchanged", "%s %dD (%s)%s%s %s" % (name, d, ",".join(pars), " columns" if kw == "columns" else " keywords" if kw else "", " empty" if empty else "", int(b1)), go, spec, names=[name])
    # domains
    for d in (2, 3):
        for form in ("whole", "cells", "list", "column"):
            for kw in (False, True):
                def go(it, d=d, form=form, kw=kw):
                    seen = []

                    def obs(ev, cls, args):
                        o = Obj(cls)
                        seen.append((o, [ev.rv(a) for a in args]))
                        return o

                    phi, gr = Obj(IMPL + "funcs::Sphere<%d>" % d), Obj("qugar::CartGridTP<%d>" % d)
                    with hooked(E.br, {"ctor:" + IMPL + "UnfittedImplDomain": obs, "make:" + IMPL + "UnfittedImplDomain": obs}):
                        a = {"impl_func": E.br.wrap(phi), "grid": E.br.wrap(gr)}
                        if form != "whole":
                            a["cells"] = arr(it, [4, 1, 6], "i8") if form == "cells" else column(it, [4, 1, 6], "i8") if form == "column" else [4, 1, 6]
                        r = it.call(E.fn("create_unfitted_impl_domain"), [] if kw else list(a.values()), a if kw else {})
                    return phi, gr, seen, r

                def spec(it, r, S, d=d, form=form):
                    phi, gr, seen, out = r
                    if len(seen) != 1:
                        return False, "%d domains made" % len(seen)
                    o, a = seen[0]
                    if not isinstance(out, PO) or out.f.get("__cxx__") is not o:
                        return False, "the result is not the domain made"
                    de = lambda v: v.t if isinstance(v, Ptr) else v
                    if de(a[0]) is not phi or de(a[1]) is not gr:
                        return False, "another function or grid"
                    cs = [list(x.d) for x in a[2:] if isinstance(x, Arr)]
                    if cs != ([] if form == "whole" else [[4, 1, 6]]):
                        return False, "cells %s" % cs
                    return True, ""

                E.run("requests reach the library unchanged", "create_unfitted_impl_domain %dD %s%s" % (d, form, " keywords" if kw else ""), go, spec, names=["create_unfitted_impl_domain"])


def domains(E):
    """queries of an unfitted domain"""
    from . import domain as dm

    FQ = {"get_empty_facets": "get_empty_facets", "get_full_facets": "get_full_facets", "get_cut_facets": "get_cut_facets",
          "get_unf_bdry_facets": "get_unfitted_facets", "get_full_unf_bdry_facets": "get_full_unfitted_facets"}
    for d in (2, 3):
        ns = {2: (3, 2), 3: (2, 3, 1)}[d]
        N, nf = 6, 2 * d
        orc = dm.Oracle(d, ns, E.P)
        orc.forced = {0: "neg", 1: "cut", 2: "pos", 3: "fullu", 4: "neg", 5: "cut"}
        k = 0
        for c in (1, 3, 5):
            for f in range(nf):
                cb, full = [(("off",), True), (("on",) if False else ("off",), False), (("out",), True), ((), False), (("out",), False), (("in",), True)][(k + c) % 6]
                tot = Fr(1) if full else Fr(2, 5)
                orc.facets[c, f // 2, f % 2] = [(x, tot / len(cb)) for x in cb]
                k += 1
        box = {}

        def dom(d=d, ns=ns, orc=orc, box=box):
            if "o" not in box:
                for ev, out, o in paths(lambda: Eval(E.P, hooks=dm.hooks_for(E.P, d, orc), max_steps=4000000), lambda ev: dm.unfdom(ev, E.P, d, ns), 1):
                    if out != "ok" or ev.taken:
                        raise Undecided("state of the domain")
                    box["o"], box["ev"] = o, ev
                    break
            return box["ev"], box["o"]

        def go(it, dom=dom, d=d):
            ev, o = dom()
            w = E.br.wrap(o)
            g = get(it, w, "grid")
            return get(it, w, "dim"), get(it, w, "num_total_cells"), get(it, w, "has_facets_with_unf_bdry"), get(it, g, "num_cells_dir"), g

        def spec(it, r, S, dom=dom, d=d, ns=ns):
            ev, o = dom()
            if r[0] != d or r[1] != 6:
                return False, "dim %s, num_total_cells %s" % (r[0], r[1])
            if bool(r[2]) != bool(dm.ask(ev, E.P, d, o, "has_facets_with_unf_bdry")):
                return False, "has_facets_with_unf_bdry is %s" % r[2]
            return array(it, S, r[3], ns, (d,), None, "num_cells_dir of the grid")

        nm = "UnfittedDomain_%dD" % d
        E.run("queries of a domain", "%dD attributes" % d, go, spec, names=[nm])
        for tl, mk in ((None, arr), ([4, 1, 0, 5, 1], arr), ([], arr), ([4, 1, 0, 5], column)):
            def go(it, dom=dom, tl=tl, mk=mk):
                ev, o = dom()
                w = E.br.wrap(o)
                return {q: it.call(it.getattr_(w, q), [], {} if tl is None else {"target_cell_ids": mk(it, tl, "i8")}) for q in ("get_full_cells", "get_empty_cells", "get_cut_cells")}

            def spec(it, r, S, dom=dom, tl=tl, d=d):
                ev, o = dom()
                cs = []
                for q, a in r.items():
                    out = stdvec([], "long")
                    dm.ask(ev, E.P, d, o, q, *([out] if tl is None else [stdvec(tl, "long"), out]))
                    cs.append(array(it, S, a, list(out.d), (len(out.d),), "i8", q))
                return both(*cs)

            E.run("queries of a domain", "%dD cells of %s" % (d, "all" if tl is None else "%s%s" % (tl, ", a column" if mk is column else "")), go, spec, names=[nm])
        for tg, mk in ((None, arr), ([(1, 0), (5, 3), (3, 2), (0, 1), (3, 0), (1, 2), (5, 1), (2, 0)], arr), ([], arr), ([(1, 0), (5, 3), (3, 2), (0, 1), (3, 1)], column)):
            def go(it, dom=dom, tg=tg, mk=mk):
                ev, o = dom()
                w = E.br.wrap(o)
                k = {} if tg is None else {"target_cell_ids": mk(it, [c for c, _ in tg], "i8"), "target_local_facet_ids": mk(it, [f for _, f in tg], "i4")}
                return {q: it.call(it.getattr_(w, q), [], k) for q in FQ}

            def spec(it, r, S, dom=dom, tg=tg, d=d):
                ev, o = dom()
                cs = []
                for q, a in r.items():
                    x, y = stdvec([], "long"), stdvec([], "int")
                    dm.ask(ev, E.P, d, o, FQ[q], *([x, y] if tg is None else [stdvec([c for c, _ in tg], "long"), stdvec([f for _, f in tg], "int"), x, y]))
                    if not isinstance(a, tuple) or len(a) != 2:
                        return False, "%s is not a pair" % q
                    cs += [array(it, S, a[0], list(x.d), (len(x.d),), "i8", q + " cells"), array(it, S, a[1], list(y.d), (len(y.d),), "i4", q + " facets")]
                return both(*cs)

            E.run("queries of a domain", "%dD facets of %s" % (d, "all" if tg is None else "%d requested%s" % (len(tg), ", columns" if mk is column else "")), go, spec, names=[nm])


def meshes(E):
    from . import reparam as rp

    for d, rg in rp.KINDS:
        for order in (2, 3):
            for empty in (False, True):
                M_ = order**d
                P_ = [[S_("q%d_%d" % (i, k)) for k in range(rg)] for i in range(2 * M_)]
                WV = [] if empty else [i % (2 * M_) for i in range(3, 3 + 3 * order)]

                def go(it, d=d, rg=rg, order=order, empty=empty, M_=M_, P_=P_, WV=WV):
                    ev = Eval(E.P, hooks=E.br.hk, max_steps=2000000)
                    ev.uvzero = True
                    o = rp.new(ev, d, rg, order)
                    if not empty:
                        rp.fill(ev, o, d, rg, [P_[:M_], P_[M_:]])
                        w = ev.rv(ev.call(rp.M(E.P, d, rg, "get_wires_connectivity")[0], [], o))
                        w.d[:] = list(WV)
                    st = rp.state(ev, o, d, rg)
                    p = E.br.wrap(o)
                    return st, {k: get(it, p, k) for k in ("dim", "range", "order", "chebyshev", "points", "cells_conn", "wirebasket_conn")}

                def spec(it, r, S, d=d, rg=rg, order=order, empty=empty, M_=M_, P_=P_, WV=WV):
                    st, a = r
                    for k, v in (("dim", d), ("range", rg), ("order", order), ("chebyshev", order > 7)):
                        if a[k] != v:
                            return False, "%s is %s, expected %s" % (k, a[k], v)
                    n = 0 if empty else 2
                    return both(array(it, S, a["points"], [x for p in st[0] for x in p], (len(st[0]), rg), "f8", "points"),
                                array(it, S, a["cells_conn"], [x for c in st[1] for x in c], (n, M_), None, "cells_conn"),
                                array(it, S, a["wirebasket_conn"], WV, (len(WV) // order, order), None, "wirebasket_conn"))

                E.run("reparameterization mesh", "%d in %d, order %d%s" % (d, rg, order, ", empty" if empty else ""), go, spec, names=["ReparamMesh_%d_%d" % (d, rg)])


# parameters of the named functions: (creator, dim, [(name, kind)], shape name, properties)
FUN = [("create_disk", 2, "Sphere", [("radius", "r"), ("center", "v")]), ("create_sphere", 3, "Sphere", [("radius", "r"), ("center", "v")]),
       ("create_ellipse", 2, "Ellipsoid", [("semi_axes", "v"), ("ref_system", "S")]), ("create_ellipsoid", 3, "Ellipsoid", [("semi_axes", "v"), ("ref_system", "S")]),
       ("create_cylinder", 3, "Cylinder", [("radius", "r"), ("origin", "v"), ("axis", "v")]),
       ("create_annulus", 2, "Annulus", [("inner_radius", "r"), ("outer_radius", "r"), ("center", "v")]),
       ("create_torus", 3, "Torus", [("major_radius", "r"), ("minor_radius", "r"), ("center", "v"), ("axis", "v")]),
       ("create_plane", 3, "Plane", [("origin", "v"), ("normal", "v")]), ("create_line", 2, "Plane", [("origin", "v"), ("normal", "v")])]
RANGES = dict({"radius": (0.4, 0.9), "inner_radius": (0.2, 0.5), "outer_radius": (0.8, 1.3), "major_radius": (0.9, 1.4), "minor_radius": (0.2, 0.5)},
              **{"%s%d" % (n, i): r for n, r in (("semi_axes", (0.4, 1.6)), ("x", (-0.9, 0.9)), ("center", (-0.4, 0.4)), ("origin", (-0.4, 0.4)), ("axis", (0.3, 1.2)), ("normal", (0.3, 1.2)), ("periods", (0.5, 1.5))) for i in range(4)})


def pyval(E, it, kind, name, d, dt="f8"):
    if kind == "r":
        return S_(name)
    if kind == "v":
        return arr(it, syms(name, d), dt)
    if kind == "n":
        return arr(it, syms(name, 2**d), dt)
    if kind == "S":
        ev = Eval(E.P, hooks=E.br.hk)
        return E.br.wrap(refsys(ev, d, name))
    if kind == "A":
        ev = Eval(E.P, hooks=E.br.hk)
        return E.br.wrap(affine(ev, d, name))
    raise AnalysisBroken(kind)


def valgrad(E, it, f, d, dt="f8"):
    p = pts2(it, [syms("x", d), syms("y", d)], dt)
    return p, meth(it, f, "eval", p), meth(it, f, "grad", p)


def cmpshape(E, it, S, r, d, sp, exact):
    """values and gradients at two points"""
    p, v, g = r
    if shape(v) != (2,):
        return False, "eval returns shape %s" % (shape(v),)
    if shape(g) != (2, d):
        return False, "grad returns shape %s" % (shape(g),)
    vs, gs = flat(v), flat(g)
    pc = dict(it.pc)
    x, y = syms("x", d), syms("y", d)
    m = {"x%d" % i: y[i] for i in range(d)}
    sy = tm.subst(sp, m) if isinstance(sp, T) else sp
    cs = []
    if exact:
        cs += [S.same(vs[0], sp, pc), S.same(vs[1], sy, pc)]
    else:
        cs.append(S.same(tm.mul(vs[0], sy), tm.mul(vs[1], sp), pc))
        a, _ = S.val(vs[0])
        b, _ = S.val(sp)
        import numpy as np

        reg = S.region(pc) & np.isfinite(a) & np.isfinite(b) & (np.abs(b) > 1e-6)
        if reg.sum() >= 3 and (a * b)[reg].min() <= 0:
            cs.append((False, "sign is opposite to the documented one"))
    for k in range(2):
        for i in range(d):
            n = ("x%d" if k == 0 else "y%d") % i
            dv = tm.diff(vs[k], n) if isinstance(vs[k], T) else 0
            cs.append(S.same(gs[k * d + i], dv, pc))
    ok, det = both(*cs)
    return ok, det


def functions_raw(E):
    """attributes of the named functions and the two representations"""
    for name, d, nm, pars in FUN:
        for k in range(len(pars) + 1):
            ps = pars[:k]
            for bzr in (None, True, False):
                if nm == "Cylinder" and k < 2 or nm == "Annulus" and k < 2 or nm == "Torus" and k < 2 or nm in ("Sphere", "Ellipsoid") and k < 1 or nm == "Plane" and k == 1:
                    continue
                for kw in (False, True):
                    def go(it, name=name, d=d, ps=ps, bzr=bzr, kw=kw):
                        a = {n: pyval(E, it, kd, n, d) for n, kd in ps}
                        if bzr is not None:
                            a["use_bzr"] = bzr
                        f = it.call(E.fn(name), [] if kw else list(a.values()), a if kw else {})
                        return f, {n: get(it, f, n) for n, _ in ps}, get(it, f, "dim")

                    def spec(it, r, S, d=d, ps=ps, bzr=bzr, nm=nm):
                        f, at, dim = r
                        if dim != d:
                            return False, "dim is %s" % dim
                        cls = re.sub(r"<.*", "", f.f["__cxx__"].cls).split("::")[-1]
                        if cls != nm + ("" if bzr is False else "Bzr"):
                            return False, "a %s is made for use_bzr=%s" % (cls, bzr)
                        cs = []
                        unit = lambda n, v: n == "axis" or (n == "normal" and bzr is not False)
                        for n, kd in ps:
                            if kd == "r":
                                cs.append(same(S, it.pc, [at[n]], [S_(n)], n))
                            elif kd == "v":
                                want = syms(n, d)
                                got = flat(at[n]) if isinstance(at[n], A) else None
                                if got is None or shape(at[n]) != (d,):
                                    return False, "%s is %s" % (n, at[n])
                                ok = same(S, it.pc, got, want, n)
                                if ok[0] is False and n in ("axis", "normal"):
                                    ok = same(S, it.pc, got, shapes.nrm(want), n)
                                cs.append(ok)
                            elif kd == "S" and not isinstance(at[n], PO):
                                return False, "%s is not a reference system" % n
                        return both(*cs) if cs else (True, "")

                    E.run("named functions", "%s/%d use_bzr=%s%s" % (name, k, bzr, " keywords" if kw else ""), go, spec, ({k: v for k, v in RANGES.items()},), [name])
    for d in (2, 3):
        for bzr in (None, True, False):
            n = "create_constant_%dD" % d

            def go(it, n=n, bzr=bzr):
                f = it.call(E.fn(n), [S_("c")] + ([] if bzr is None else [bzr]))
                return f, get(it, f, "value"), get(it, f, "dim")

            def spec(it, r, S, d=d, bzr=bzr):
                cls = re.sub(r"<.*", "", r[0].f["__cxx__"].cls).split("::")[-1]
                if cls != "Constant" + ("" if bzr is False else "Bzr") or r[2] != d:
                    return False, "a %s of dimension %s" % (cls, r[2])
                return same(S, it.pc, [r[1]], [S_("c")], "value")

            E.run("named functions", "%s use_bzr=%s" % (n, bzr), go, spec, names=[n])


def transforms(E):
    """affine transformations and reference systems created from Python"""
    for d in (2, 3):
        o, ax, ay = syms("o", d), syms("a", d), syms("b", d)
        sc = syms("s", d)
        rg = dict({"s%d" % i: (0.5, 2.0) for i in range(d)}, scale=(0.5, 2.0), **{"c%d" % i: (-0.3, 0.3) for i in range(12)})
        for i in range(d):
            rg["c%d" % (i * d + i)] = (0.8, 1.5)
        e = [[1 if i == j else 0 for j in range(d)] for i in range(d)]
        if d == 2:
            u = shapes.nrm(ax)
            basis = [u, [-u[1], u[0]]]
            rg.update({"a0": (0.4, 1.2), "a1": (-0.6, 0.9)})
            cases = [("origin", [o], e, [1, 1], o), ("origin, scale", [o, S_("scale")], e, [S_("scale")] * 2, o), ("origin, axis_x", [o, ax], basis, [1, 1], o),
                     ("origin, axis_x, scales", [o, ax] + sc, basis, sc, o)]
        else:
            u = shapes.nrm(ax)
            pr = shapes.dot(ay, u)
            v = shapes.nrm([p - pr * q for p, q in zip(ay, u)])
            w = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            basis = [u, v, w]
            rg.update({"a0": (0.5, 1.2), "a1": (-0.3, 0.3), "a2": (-0.3, 0.3), "b0": (-0.3, 0.3), "b1": (0.5, 1.2), "b2": (-0.3, 0.3)})
            cases = [("origin", [o], e, [1] * 3, o), ("origin, scale", [o, S_("scale")], e, [S_("scale")] * 3, o), ("origin, axis_x, axis_y", [o, ax, ay], basis, [1] * 3, o),
                     ("origin, axis_x, axis_y, scales", [o, ax, ay] + sc, basis, sc, o)]
        cases.append(("coefs", [syms("c", d * (d + 1))], None, None, None))
        if d == 2:
            cases.append(("default", [], e, [1, 1], [0, 0]))
        for lab, args, B, scl, org in cases:
            def go(it, args=args, d=d):
                t = it.call(E.fn("create_affine_transformation"), [arr(it, a) if isinstance(a, list) else a for a in args])
                # seen through a plane function composed with it
                c = t.f["__cxx__"]
                ev = Eval(E.P, hooks=E.br.hk)
                return t, ev.rv(ev.call(need(E.P, IMPL + "AffineTransf<%d>" % d, "transform_point", ["uvector<double"]), [vec(syms("x", d))], c)).d

            def spec(it, r, S, B=B, scl=scl, org=org, d=d, args=args):
                if r[0].cls.name != "AffineTransf_%dD" % d:
                    return False, "a %s is made" % r[0].cls.name
                xs = syms("x", d)
                if B is None:
                    c = args[0]
                    want = [sum((c[i * d + j] * xs[j] for j in range(d)), 0) + c[d * d + i] for i in range(d)]
                else:
                    want = [org[i] + sum((scl[j] * B[j][i] * xs[j] for j in range(d)), 0) for i in range(d)]
                return same(S, it.pc, r[1], want, "image of a point")

            E.run("affine transformation", "%dD from %s" % (d, lab), go, spec, (rg,), ["create_affine_transformation"])


IF = "qugar.impl.impl_function."
SHAPES = [("create_disk", 2, "Sphere", [("radius", "r"), ("center", "v?")]), ("create_sphere", 3, "Sphere", [("radius", "r"), ("center", "v?")]),
          ("create_ellipse", 2, "Ellipsoid", [("semi_axes", "v"), ("ref_system", "S?")]), ("create_ellipsoid", 3, "Ellipsoid", [("semi_axes", "v"), ("ref_system", "S?")]),
          ("create_cylinder", 3, "Cylinder", [("radius", "r"), ("origin", "v"), ("axis", "v?")]),
          ("create_annulus", 2, "Annulus", [("inner_radius", "r"), ("outer_radius", "r"), ("center", "v?")]),
          ("create_torus", 3, "Torus", [("major_radius", "r"), ("minor_radius", "r"), ("center", "v?"), ("axis", "v?")]),
          ("create_plane", 3, "Plane", [("origin", "v?"), ("normal", "v?")]), ("create_line", 2, "Plane", [("origin", "v?"), ("normal", "v?")])]
AFF = {2: {"A0": (0.7, 1.4), "A1": (-0.3, 0.3), "A2": (-0.3, 0.3), "A3": (0.7, 1.4), "A4": (-0.3, 0.3), "A5": (-0.3, 0.3)},
       3: dict({"A%d" % i: (0.8, 1.4) if i in (0, 4, 8) else (-0.25, 0.25) for i in range(12)})}
TP = [("create_Schoen", "Schoen"), ("create_Schoen_IWP", "SchoenIWP"), ("create_Schoen_FRD", "SchoenFRD"), ("create_Fischer_Koch_S", "FischerKochS"), ("create_Schwarz_Primitive", "SchwarzPrimitive"), ("create_Schwarz_Diamond", "SchwarzDiamond")]


def made(E, it, name, a, k, d, dt):
    """a function made by the package, its values and gradients at two points and without points"""
    f = it.call(it.get(IF + name), a, k)
    r = valgrad(E, it, f, d, dt)
    e = pts2(it, [], dt)
    e = pynp.reshape(it, e, (0, d))
    return r + (get(it, f, "dim"), meth(it, f, "eval", e), meth(it, f, "grad", e))


def checkmade(E, it, S, r, d, sp, exact, dt):
    p, v, g, dim, v0, g0 = r
    if dim != d:
        return False, "the function has dimension %s" % dim
    for x, w in ((v, "eval"), (g, "grad")):
        if not isinstance(x, A) or x.dt.n != D[dt].n:
            return False, "%s does not return an array of the type of the points" % w
    if shape(v0) != (0,) or shape(g0) != (0, d):
        return False, "without points: shapes %s and %s" % (shape(v0), shape(g0))
    return cmpshape(E, it, S, (p, v, g), d, sp, exact)


def one(E, name, d, lab, args, sp, exact, rg, bzr=None, dt="f8", pdt="f8", kw=True):
    """args: {parameter: maker(it)}"""
    def go(it):
        a = {k: m(it) for k, m in args.items()}
        if bzr is not None:
            a["use_bzr"] = bzr
        return made(E, it, name, [] if kw else list(a.values()), a if kw else {}, d, dt)

    def spec(it, r, S):
        return checkmade(E, it, S, r, d, sp, exact, dt)

    E.run("functions describe the documented shape", "%s %s" % (name, lab), go, spec, (rg,), nm=name)


def run_C18(ctx):
    P = full()
    E = Env(ctx, P)
    for name, d, nm, pars in SHAPES:
        fn, ps = SPEC[nm]
        x = syms("x", d)
        opt = [n for n, k in pars if k.endswith("?")]
        for mask in range(2 ** len(opt)):
            given = {n: not k.endswith("?") or mask >> opt.index(n) & 1 for n, k in pars}
            par = []
            for (n, k), (_, dflt) in zip(pars, ps):
                if given[n]:
                    par.append(shapes.symval({"r": "r", "v": "v", "S": "S"}[k[0]], d, n))
                else:
                    par.append(dflt(d))
            sp = fn(d, x, *par)
            rg = dict(RANGES)
            if nm == "Ellipsoid":
                rg.update({"ref_systemb%d_%d" % (i, j): (0.7, 1.2) if i == j else (-0.4, 0.4) for i in range(d) for j in range(d)})
                rg.update({"ref_systemo%d" % i: (-0.4, 0.4) for i in range(d)})
            for bzr in (None, True, False):
                for dt in ("f8", "f4") if bzr is not None or mask == 0 else ("f8",):
                    kw = bzr is not False
                    need_none = {n: (lambda it: None) for n, k in pars}
                    args = {}
                    for n, k in pars:
                        if given[n]:
                            args[n] = lambda it, n=n, k=k, dt=dt: pyval(E, it, k[0], n, d, dt)
                        elif not kw or name in ("create_cylinder", "create_plane", "create_line"):
                            args[n] = lambda it: None
                    one(E, name, d, "%s use_bzr=%s %s" % ("+".join(n for n, g in given.items() if g) or "defaults", bzr, dt), args, sp, False, rg, bzr, dt, kw=kw)
    for d in (2, 3):
        x = syms("x", d)
        for bzr in (None, True, False):
            one(E, "create_constant", d, "%dD use_bzr=%s" % (d, bzr), {"value": lambda it: S_("c"), "dim": lambda it, d=d: d}, S_("c"), True, {}, bzr)
        cs = syms("c", 2**d)
        for form in ("array", "list", "f4"):
            mk = (lambda it, cs=cs: list(cs)) if form == "list" else (lambda it, cs=cs, form=form: arr(it, cs, "f4" if form == "f4" else "f8"))
            one(E, "create_dim_linear", d, "%dD %s" % (d, form), {"coefs": mk}, shapes.spec_dimlinear(d, x, cs, shapes.affid(d)), True, {})
        one(E, "create_dim_linear", d, "%dD transformed" % d, {"coefs": lambda it, cs=cs: arr(it, cs), "affine_trans": lambda it, d=d: pyval(E, it, "A", "A", d)},
            shapes.spec_dimlinear(d, x, cs, shapes.symval("A", d, "A")), True, AFF[d])
        one(E, "create_box", d, "%dD" % d, {"dim": lambda it, d=d: d}, shapes.spec_square(d, x, shapes.affid(d)), False, RANGES)
        if d == 2:
            one(E, "create_box", d, "default", {}, shapes.spec_square(d, x, shapes.affid(d)), False, RANGES)
        one(E, "create_box", d, "%dD transformed" % d, {"affine_trans": lambda it, d=d: pyval(E, it, "A", "A", d), "dim": lambda it, d=d: d},
            shapes.spec_square(d, x, shapes.symval("A", d, "A")), False, dict(AFF[d], **{"x%d" % i: (-2.0, 2.0) for i in range(3)}))
        # functions of functions
        ball, flat_ = ("create_disk", "create_line") if d == 2 else ("create_sphere", "create_plane")
        r, c, o, n = S_("radius"), syms("center", d), syms("origin", d), syms("normal", d)

        def B(it, ball=ball, d=d):
            return it.call(it.get(IF + ball), [S_("radius"), arr(it, syms("center", d)), False])

        def L(it, flat_=flat_, d=d):
            return it.call(it.get(IF + flat_), [arr(it, syms("origin", d)), arr(it, syms("normal", d)), False])

        fb, fl = shapes.spec_sphere(d, x, r, c), shapes.spec_plane(d, x, o, n)
        one(E, "create_negative", d, "%dD" % d, {"func": B}, -fb, True, RANGES)
        one(E, "create_functions_addition", d, "%dD" % d, {"lhs_func": B, "rhs_func": L}, fb + fl, True, RANGES)
        one(E, "create_functions_subtraction", d, "%dD" % d, {"lhs_func": B, "rhs_func": L}, fb - fl, True, RANGES)
        one(E, "create_functions_subtraction", d, "%dD swapped" % d, {"lhs_func": L, "rhs_func": B}, fl - fb, True, RANGES)
        y = shapes.unaff(d, shapes.symval("A", d, "A"), x)
        one(E, "create_affinely_transformed_functions", d, "%dD" % d, {"func": B, "affine_transf": lambda it, d=d: pyval(E, it, "A", "A", d)}, shapes.spec_sphere(d, y, r, c), True, dict(RANGES, **AFF[d]))
        m = syms("periods", d)
        for name, nm in TP:
            for z in (False, True) if d == 2 else (False,):
                for form in ("array", "list") if nm == "Schoen" else ("array",):
                    X = x + ([S_("z") if z else 0] if d == 2 else [])
                    sp = TPMS[nm](*[2 * PI * ((m[i] if i < d else 1) * X[i]) for i in range(3)])
                    args = {"periods": (lambda it, m=m: list(m)) if form == "list" else (lambda it, m=m: arr(it, m))}
                    if z:
                        args["z"] = lambda it: S_("z")
                    one(E, name, d, "%dD %s%s" % (d, form, " z" if z else ""), args, sp, False, RANGES)


def enumerations(E):
    """enumerations keep the names of their values"""
    for n, c in sorted(E.br.mod.enums.items()):
        lib = E.P.enums.get(c.cpp) or {}

        def ok(c=c, lib=lib):
            if not lib:
                return None, "enumeration %s not found" % c.cpp
            bad = ["%s is %s" % (k, [x for x in lib if lib[x] == v]) for k, v in c.values.items() if k in lib and lib[k] != v]
            miss = [k for k in lib if lib[k] not in c.values.values()]
            return not bad and not miss, "; ".join(bad + ["no value for %s" % k for k in miss])

        E.ctx.attempt("enumerations", n, ok, "")


def run_C17(ctx):
    P = full()
    E = Env(ctx, P)
    lifetime(E)
    boxes(E)
    grids(E)
    quads(E)
    cutquads(E)
    forwarding(E)
    domains(E)
    enumerations(E)
    meshes(E)
    functions_raw(E)
    transforms(E)
    ctx.notes["registered"] = "%d functions, %d classes" % (len(E.br.mod.fns), len(E.br.mod.classes))
