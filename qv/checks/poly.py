"""C15: algebra of Bezier and monomial polynomials and of Lagrange bases."""
import itertools, math
from .. import terms as tm
from ..cxxsym import *
from ..report import wh
from .derivs import flat, comps

S_ = tm.sym
SZ = {1: [(1,), (2,), (4,)], 2: [(3, 2), (1, 3), (2, 1)], 3: [(2, 3, 1), (3, 1, 2), (1, 2, 2), (2, 2, 3)]}


def tensize(ev, sz):
    d = len(sz)
    c = "qugar::TensorSizeTP<%d>" % d
    F = [G for G in find_ctor(ev.prog, c, np_=1) if "uvector<int" in G.tu.types[G.params[0]["t"]]]
    return construct(ev, c, [vec(sz, "int")], F[0])


def mkcoefs(n, rg, nm):
    return [[S_("%s%d_%d" % (nm, i, c)) for c in range(rg)] for i in range(n)]


def size(sz):
    n = 1
    for s in sz:
        n *= s
    return n


def mkpoly(ev, kind, d, rg, sz, co):
    et = "double" if rg == 1 else "algoim::uvector<double, %d>" % rg
    cls = IMPL + "%s<%d, %d>" % (kind, d, rg)
    F = find_ctor(ev.prog, cls, [r"TensorSizeTP", r"^std::vector"])
    if not F:
        raise AnalysisBroken("constructor of %s from its coefficients" % cls)
    return construct(ev, cls, [tensize(ev, sz), stdvec([c[0] if rg == 1 else vec(c) for c in co], et)], F[0])


def tids(sz):
    return [tuple(reversed(t)) for t in itertools.product(*[range(s) for s in reversed(sz)])]


def bern(i, p, x):
    return tm.mul(math.comb(p, i), tm.mul(tm.powi(x, i), tm.powi(tm.sub(1, x), p - i)))


def basis(kind, i, p, x):
    return bern(i, p, x) if kind == "BezierTP" else tm.powi(x, i)


def spec(kind, sz, co, x):
    """value (one term per component) of the polynomial with these coefficients"""
    out = [0] * len(co[0])
    for k, t in enumerate(tids(sz)):
        b = 1
        for d, i in enumerate(t):
            b = tm.mul(b, basis(kind, i, sz[d] - 1, x[d]))
        out = [tm.add(o, tm.mul(c, b)) for o, c in zip(out, co[k])]
    return out


def X(d, nm="x"):
    return [S_("%s%d" % (nm, i)) for i in range(d)]


def evalp(ev, o, x):
    """value of a polynomial object of the program"""
    p = deref(ev, o)
    d = int(targs(p.cls)[0])
    F = [G for G in method(ev.prog, p.cls, "operator()") if "Interval" not in G.tu.types[G.params[0]["t"]]]
    if not F:
        raise AnalysisBroken("value of %s" % p.cls)
    r = comps(ev.call(F[0], [vec(x)], p), int(targs(p.cls)[1]))
    if "BezierTP<" in p.cls:
        # the view on the coefficients used by the polynomial solvers must describe the same polynomial
        ext, co = xarr(ev, p)
        sz = getsz(ev, p)
        G = [G for G in ev.prog.funcs.values() if G.f["n"] == "get_coefs" and G.cls == p.cls.replace("BezierTP", "PolynomialTP") and not G.params and G.body is not None]
        if not G:
            raise AnalysisBroken("coefficients of " + p.cls)
        w = flat(ev.rv(ev.call(G[0], [], p)))
        if list(ext) != list(reversed(sz)) or len(co) != len(w) or any(a is not b and a != b for a, b in zip(co, w)):
            return [S_("inconsistent_array_view")] * len(r)
    return r


def deref(ev, p):
    while not isinstance(p, Obj):
        if isinstance(p, Ptr):
            p = p.t
        else:
            p = ev.rv(p)
    return p


def pairs(got, want, what):
    return [("%s, component %d" % (what, i), a, b) for i, (a, b) in enumerate(zip(got, want))]


def vals(S, pc, got, want, what):
    if len(got) != len(want):
        return False, "%s has %d components" % (what, len(got))
    return allsame(S, pc, pairs(got, want, what))


def casteljau_sub(sz, co, lo, hi):
    """coefficients of p(lo + t (hi - lo)) (direction 0 fastest)"""
    co = [list(c) for c in co]
    st = 1
    for d, n in enumerate(sz):
        N = size(sz)
        for base in range(N):
            if (base // st) % n:
                continue
            ids = [base + k * st for k in range(n)]
            for c in range(len(co[0])):
                b = [co[i][c] for i in ids]
                new = []
                for i in range(n):
                    v = list(b)
                    for j in range(n - 1):
                        u = hi[d] if j < i else lo[d]
                        v = [tm.add(tm.mul(tm.sub(1, u), v[k]), tm.mul(u, v[k + 1])) for k in range(len(v) - 1)]
                    new.append(v[0])
                for i, v in zip(ids, new):
                    co[i][c] = v
        st *= n
    return co


def facet(x, dr, side):
    return x[:dr] + [side] + x[dr:]


def combos(a, b):
    n = max(len(a), len(b))
    return [(a[i % len(a)], b[(i * 2 + 1) % len(b)]) for i in range(n)]


def bernhooks(rec):
    def cast(ev, f, args, o):
        xa = ev.rv(args[0])
        ext = list(xa.f["ext"].d)
        N = size(ext)
        it = ev.rv(xa.f["ptr"])
        arr, off = it.c, it.i
        lo, hi = [], []
        for a, l in ((args[1], lo), (args[2], hi)):
            p = ev.rv(a)
            l += [p.c.getat(p.i + k) for k in range(len(ext))]
        # algoim: the last direction is the fastest one
        co = [[arr.getat(off + k)] for k in range(N)]
        new = casteljau_sub(list(reversed(ext)), co, list(reversed(lo)), list(reversed(hi)))
        for k in range(N):
            arr.setat(off + k, new[k][0])
        rec.append("sub")

    return {"algoim::bernstein::deCasteljau": cast}


def run_C15(ctx):
    P = core()
    th = ctx.tier == "thorough"

    def attempt(rule, key, fn, sp, F, hooks=None, ranges=({},)):
        ctx.attempt(rule, key, lambda: decide(ctx, P, fn, sp, ranges=ranges, hooks=hooks, max_steps=20000000), wh(F))

    for d in (1, 2, 3):
        for rg in (1, 2, 3):
            for kind in ("BezierTP", "MonomialsTP"):
                cls = IMPL + "%s<%d, %d>" % (kind, d, rg)
                Fv = [G for G in method(P, cls, "operator()") if "Interval" not in G.tu.types[G.params[0]["t"]]]
                if not Fv:
                    raise AnalysisBroken("value of " + cls)
                for sz in SZ[d]:
                    co = mkcoefs(size(sz), rg, "c")
                    lab = "%s<%d,%d> orders %s" % (kind, d, rg, sz)
                    x = X(d)
                    want = spec(kind, sz, co, x)
                    attempt("value = sum of coefficients times the basis", lab, lambda ev: evalp(ev, mkpoly(ev, kind, d, rg, sz, co), x), lambda r, S, pc: vals(S, pc, r, want, "value"), Fv[0])
                    # gradient for every order, also one along a direction
                    Fg = [G for G in method(P, cls, "grad") if "Interval" not in G.tu.types[G.params[0]["t"]]][0]
                    wg = [tm.diff(w, "x%d" % i) for i in range(d) for w in want]
                    attempt("gradient for degree zero directions", lab, lambda ev: flat(ev.call(Fg, [vec(x)], mkpoly(ev, kind, d, rg, sz, co))), lambda r, S, pc: vals(S, pc, r, wg, "gradient"), Fg)
                    Fh = [G for G in method(P, cls, "hessian")]
                    if Fh:
                        whs = [tm.diff(tm.diff(w, "x%d" % i), "x%d" % j) for i in range(d) for j in range(i, d) for w in want]
                        attempt("hessian for degree zero directions", lab, lambda ev: flat(ev.call(Fh[0], [vec(x)], mkpoly(ev, kind, d, rg, sz, co))), lambda r, S, pc: vals(S, pc, r, whs, "hessian"), Fh[0])
                    # constructors
                    one_poly(ctx, P, attempt, kind, d, rg, sz, co, cls, lab, x, want)
    binary(ctx, P, attempt, th)
    lagrange(ctx, P, attempt, th)
    bernstein(ctx, P, attempt)


def getsz(ev, o):
    p = deref(ev, o)
    F = [G for G in ev.prog.funcs.values() if G.f["n"] == "get_order" and G.cls == p.cls.replace("BezierTP", "PolynomialTP").replace("MonomialsTP", "PolynomialTP") and not G.params and G.body is not None]
    if not F:
        raise AnalysisBroken("order of " + p.cls)
    return [v for v in ev.rv(ev.call(F[0], [], p)).d]


def one_poly(ctx, P, attempt, kind, d, rg, sz, co, cls, lab, x, want):
    bz = kind == "BezierTP"
    mk = lambda ev: mkpoly(ev, kind, d, rg, sz, co)
    # extraction of facets
    F = method(P, cls, "extract_facet")
    if d > 1:
        if not F:
            raise AnalysisBroken("facets of " + cls)
        for fid in range(2 * d):
            dr, side = fid // 2, fid % 2
            y = X(d - 1)
            w = spec(kind, sz, co, facet(y, dr, side))
            attempt("a facet is the restriction to the facet", "%s facet %d" % (lab, fid), lambda ev: evalp(ev, ev.call(F[0], [fid], mk(ev)), y), lambda r, S, pc: vals(S, pc, r, w, "facet"), F[0])
    # constant and default values
    et = "double" if rg == 1 else "uvector<double, %d>" % rg
    C1 = find_ctor(P, cls, [r"TensorSizeTP"])
    if not C1:
        raise AnalysisBroken("constructor of %s from the order" % cls)
    attempt("null polynomial by default", lab, lambda ev: evalp(ev, construct(ev, cls, [tensize(ev, sz)], C1[0]), x), lambda r, S, pc: vals(S, pc, r, [0] * rg, "value"), C1[0])
    if bz:
        C2 = [G for G in find_ctor(P, cls, [r"TensorSizeTP", r"(double|uvector)"]) if "std::vector" not in G.tu.types[G.params[1]["t"]]]
        if not C2:
            raise AnalysisBroken("constructor of %s from a constant" % cls)
        k = X(rg, "k")
        attempt("constant polynomial", lab, lambda ev: evalp(ev, construct(ev, cls, [tensize(ev, sz), k[0] if rg == 1 else vec(k)], C2[0]), x), lambda r, S, pc: vals(S, pc, r, k, "value"), C2[0])
    CC = [G for G in P.funcs.values() if G.cls == cls and "inits" in G.d and G.body is not None and len(G.params) == 1 and G.tu.types[G.params[0]["t"]].replace("const ", "").replace(" &", "") == cls]
    if CC:
        # the copy keeps its own coefficients, whatever happens to the original
        Fl = [G for G in P.funcs.values() if G.f["n"] == "coefs_linear_transform" and G.cls == IMPL + "PolynomialTP<%d, %d>" % (d, rg) and G.body is not None]

        def cp(ev):
            o = mk(ev)
            c = construct(ev, cls, [o], CC[0])
            if Fl:
                ev.call(Fl[0], [S_("s"), S_("t0") if rg == 1 else vec(X(rg, "t"))], o)
            r = evalp(ev, c, x) + evalp(ev, o, x)
            if bz:
                r += xarr(ev, c)[1]
            return r

        w = want + ([tm.add(tm.mul(S_("s"), v), t) for v, t in zip(spec(kind, sz, co, x), X(rg, "t"))] if kind == "BezierTP" else [tm.add(tm.mul(S_("s"), v), tm.mul(t, sumb(kind, sz, x))) for v, t in zip(want, X(rg, "t"))])
        if not Fl:
            w = want + want
        if bz:
            w = w + [v for c in co for v in c]
        attempt("copies are independent; linear transformation of the coefficients", lab, cp, lambda r, S, pc: vals(S, pc, r, w, "value"), CC[0])
    # image
    Ft = [G for G in P.funcs.values() if G.f["n"] == "transform_image" and G.cls == IMPL + "PolynomialTP<%d, %d>" % (d, rg) and G.body is not None]
    if not Ft:
        raise AnalysisBroken("transform_image")
    if bz:
        def ti(ev):
            o = mk(ev)
            ev.call(Ft[0], [box(ev, rg, "a"), box(ev, rg, "b")], o)
            return evalp(ev, o, x)

        a, b = (X(rg, "amin"), X(rg, "amax")), (X(rg, "bmin"), X(rg, "bmax"))
        w = [tm.add(b[0][c], tm.mul(tm.sub(want[c], a[0][c]), tm.div(tm.sub(b[1][c], b[0][c]), tm.sub(a[1][c], a[0][c])))) for c in range(rg)]
        attempt("the image is mapped affinely from one box to the other", lab, ti, lambda r, S, pc: vals(S, pc, r, w, "value"), Ft[0], ranges=(boxranges(rg),))
    if not bz:
        Fd = method(P, cls, "create_derivative")
        if not Fd:
            raise AnalysisBroken("derivative of " + cls)
        for dr in range(d):
            w = [tm.diff(v, "x%d" % dr) for v in want]
            attempt("derivative polynomial", "%s direction %d" % (lab, dr), lambda ev: evalp(ev, ev.call(Fd[0], [dr], mk(ev)), x), lambda r, S, pc: vals(S, pc, r, w, "derivative"), Fd[0])
        # conversion to Bezier
        bcls = cls.replace("MonomialsTP", "BezierTP")
        CB = [G for G in find_ctor(P, bcls, np_=1) if "MonomialsTP" in G.tu.types[G.params[0]["t"]]]
        if not CB:
            raise AnalysisBroken("Bezier from monomials")
        attempt("same polynomial in the Bernstein basis", lab, lambda ev: evalp(ev, construct(ev, bcls, [mk(ev)], CB[0]), x), lambda r, S, pc: vals(S, pc, r, want, "value"), CB[0])
        return
    # array view: same coefficients, reversed extents
    def xa(ev):
        e, c = xarr(ev, mk(ev))
        return [e == list(reversed(sz)), c]

    attempt("array view of the coefficients", lab, xa, lambda r, S, pc: vals(S, pc, r[1], [v for c in co for v in c], "coefficient") if r[0] else (False, "extents of the array"), find_ctor(P, cls, [r"TensorSizeTP", r"^std::vector"])[0])
    Fn = method(P, cls, "negate")
    Fr = method(P, cls, "raise_order")
    if not Fn or not Fr:
        raise AnalysisBroken("negate / raise_order of " + cls)
    attempt("negation", lab, lambda ev: evalp(ev, ev.call(Fn[0], [], mk(ev)), x), lambda r, S, pc: vals(S, pc, r, [tm.neg(v) for v in want], "value"), Fn[0])
    for up in ([0] * d, [1] * d, [2] + [0] * (d - 1), [0] * (d - 1) + [1]):
        ns = [s + u for s, u in zip(sz, up)]

        def ro(ev):
            q = ev.call(Fr[0], [tensize(ev, ns)], mk(ev))
            return [getsz(ev, q), evalp(ev, q, x)]

        attempt("same polynomial of higher order", "%s to %s" % (lab, ns), ro, lambda r, S, pc: vals(S, pc, r[1], want, "value") if r[0] == ns else (False, "order %s" % r[0]), Fr[0])
    if rg == 1:
        Fs = method(P, cls, "rescale_domain")
        if not Fs:
            raise AnalysisBroken("rescale_domain")
        rec = []

        def rs(ev):
            o = mk(ev)
            ev.call(Fs[0], [box(ev, d, "a")], o)
            return evalp(ev, o, x)

        w = spec(kind, sz, co, [tm.add(S_("amin%d" % i), tm.mul(x[i], tm.sub(S_("amax%d" % i), S_("amin%d" % i)))) for i in range(d)])
        attempt("restriction to a box of the domain", lab, rs, lambda r, S, pc: vals(S, pc, r, w, "value"), Fs[0], hooks=bernhooks(rec), ranges=(boxranges(d),))
        Fg = method(P, cls, "sign")
        if not Fg:
            raise AnalysisBroken("sign of " + cls)
        for s, nm in ((1, "positive"), (-1, "negative"), (0, "undetermined")):
            rec = []

            def us(ev, f, args, o, s=s, rec=rec):
                xa = ev.rv(args[0])
                it = ev.rv(xa.f["ptr"])
                ext = list(xa.f["ext"].d)
                rec.append((ext, [it.c.getat(it.i + k) for k in range(size(ext))]))
                return s

            def sg(ev):
                rec.clear()
                return [ev.call(Fg[0], [], mk(ev)), rec[-1] if rec else None]

            want_e = P.enums[IMPL + "FuncSign"][nm]

            def sps(r, S, pc):
                if r[1] is None:
                    return None, "sign decided without the coefficients"
                if want_e is not None and r[0] != want_e:
                    return False, "%s: %s" % (nm, r[0])
                return vals(S, pc, r[1][1], [v for c in co for v in c], "coefficient") if r[1][0] == list(reversed(sz)) else (False, "extents")

            attempt("sign from the coefficients", "%s %s" % (lab, nm), sg, sps, Fg[0], hooks={"algoim::bernstein::uniformSign": us})


def sumb(kind, sz, x):
    r = 0
    for t in tids(sz):
        b = 1
        for d, i in enumerate(t):
            b = tm.mul(b, basis(kind, i, sz[d] - 1, x[d]))
        r = tm.add(r, b)
    return r


def xarr(ev, o):
    o = deref(ev, o)
    F = method(ev.prog, o.cls, "get_xarray")
    if not F:
        raise AnalysisBroken("array view of " + o.cls)
    xa = ev.rv(ev.call(F[0], [], o))
    ext = list(xa.f["ext"].d)
    it = ev.rv(xa.f["ptr"])
    out = []
    for k in range(size(ext)):
        out += flat(it.c.getat(it.i + k))
    return ext, out


def box(ev, d, nm):
    cls = "qugar::impl::BoundBox<%d>" % d
    cls = [c for c in ev.prog.records if c.endswith("BoundBox<%d>" % d)][0]
    u = r"^algoim::uvector<double, %d>$" % d
    F = find_ctor(ev.prog, cls, [u, u])
    if not F:
        raise AnalysisBroken("constructor of a box")
    return construct(ev, cls, [vec(X(d, nm + "min")), vec(X(d, nm + "max"))], F[0])


def boxranges(d):
    r = {}
    for n in ("a", "b"):
        for i in range(d):
            r["%smin%d" % (n, i)] = (-2, 0)
            r["%smax%d" % (n, i)] = (0.5, 2)
    return r


# compositions with higher powers: (variables outside, variables inside) -> orders of both
DEEP = {(1, 1): [((4,), (3,)), ((5,), (2,))], (1, 2): [((4,), (2, 2))], (2, 1): [((2, 4), (2,)), ((5, 1), (2,))], (2, 2): [((4, 3), (1, 2))], (3, 1): [((2, 1, 4), (2,)), ((1, 4, 2), (2,))]}


def binary(ctx, P, attempt, th):
    K = "BezierTP"
    for d in (1, 2, 3):
        for rg in (1, 2, 3):
            cls = IMPL + "%s<%d, %d>" % (K, d, rg)
            x = X(d)
            for a, b in combos(SZ[d], SZ[d]) + [(SZ[d][-1], SZ[d][-1])]:
                ca, cb = mkcoefs(size(a), rg, "c"), mkcoefs(size(b), rg, "e")
                va, vb = spec(K, a, ca, x), spec(K, b, cb, x)
                for nm, op in (("operator*", tm.mul), ("operator+", tm.add), ("operator-", tm.sub)):
                    F = method(P, cls, nm)
                    if not F:
                        raise AnalysisBroken("%s of %s" % (nm, cls))
                    w = [op(u, v) for u, v in zip(va, vb)]

                    def go(ev):
                        A, B = mkpoly(ev, K, d, rg, a, ca), mkpoly(ev, K, d, rg, b, cb)
                        q = ev.call(F[0], [B], A)
                        return evalp(ev, q, x) + evalp(ev, A, x) + evalp(ev, B, x)

                    attempt("sum, difference and product", "%s<%d,%d> %s: %s and %s" % (K, d, rg, nm, a, b), go, lambda r, S, pc: vals(S, pc, r, w + va + vb, "value"), F[0])
    for d in (1, 2, 3):
        for d2 in (1, 2, 3):
            for rg in (1, 2, 3):
                cls = IMPL + "%s<%d, %d>" % (K, d2, rg)
                F = [G for G in method(P, cls, "compose") if "BezierTP<%d, %d>" % (d, d2) in G.tu.types[G.params[0]["t"]]]
                if not F:
                    raise AnalysisBroken("composition %d %d %d" % (d2, rg, d))
                y = X(d)
                for a, b in combos(SZ[d2], [tuple(min(s, 2) for s in t) for t in SZ[d]])[: (4 if th else 2)] + (DEEP.get((d2, d), []) if rg == 1 else []):
                    ca, cb = mkcoefs(size(a), rg, "c"), mkcoefs(size(b), d2, "e")
                    w = spec(K, a, ca, spec(K, b, cb, y))

                    def go(ev):
                        return evalp(ev, ev.call(F[0], [mkpoly(ev, K, d, d2, b, cb)], mkpoly(ev, K, d2, rg, a, ca)), y)

                    attempt("composition", "%s<%d,%d> %s with %s" % (K, d2, rg, a, b), go, lambda r, S, pc: vals(S, pc, r, w, "value"), F[0], ranges=({"e%d_%d" % (i, c): (0, 1) for i in range(30) for c in range(d2)},))


def lagrange(ctx, P, attempt, th):
    for cheb in (False, True):
        node = lambda i, n: T("cheb", i, n) if cheb else i / (n - 1)
        rules = "Chebyshev nodes" if cheb else "equally spaced nodes"

        def basis1(i, n, x):
            r = 1
            for j in range(n):
                if j != i:
                    r = tm.mul(r, tm.div(tm.sub(x, node(j, n)), tm.sub(node(i, n), node(j, n))))
            return r

        for nm, der in (("evaluate_Lagrange_basis_1D", 0), ("evaluate_Lagrange_basis_der_1D", 1)):
            F = freefn(P, "qugar::impl::" + nm)
            if not F:
                raise AnalysisBroken(nm)
            for n in (2, 3, 4, 7):
                x = S_("x0")
                w = [basis1(i, n, x) for i in range(n)]
                if der:
                    w = [tm.diff(v, "x0") for v in w]

                def go(ev):
                    out = stdvec([S_("old")])
                    ev.call(F[0], [x, n, cheb, out])
                    return list(out.d)

                attempt("Lagrange basis (%s)" % rules, "%s order %d" % (nm, n), go, lambda r, S, pc: vals(S, pc, r, w, "basis"), F[0])
        for d in (1, 2, 3):
            for sz in {1: [(3,)], 2: [(2, 3), (7, 2)], 3: [(2, 3, 2), (3, 2, 4)]}[d]:
                x = X(d)

                def tp(t):
                    r = 1
                    for k, i in enumerate(t):
                        r = tm.mul(r, basis1(i, sz[k], x[k]))
                    return r

                w = [tp(t) for t in tids(sz)]
                F = [G for G in freefn(P, "qugar::impl::evaluate_Lagrange_basis") if "uvector<double, %d>" % d in G.tu.types[G.params[0]["t"]]]
                D = [G for G in freefn(P, "qugar::impl::evaluate_Lagrange_derivative") if "uvector<double, %d>" % d in G.tu.types[G.params[0]["t"]]]
                if not F or not D:
                    raise AnalysisBroken("tensor-product Lagrange bases")

                def go(ev):
                    out = stdvec([S_("old")])
                    ev.call(F[0], [vec(x), tensize(ev, sz), cheb, out])
                    return list(out.d)

                attempt("Lagrange basis (%s)" % rules, "tensor product %s" % (sz,), go, lambda r, S, pc: vals(S, pc, r, w, "basis"), F[0])

                def gd(ev):
                    out = Arr([stdvec([]) for _ in range(d)], "uv", "algoim::uvector<std::vector<double>, %d>" % d, "std::vector<double>")
                    ev.call(D[0], [vec(x), tensize(ev, sz), cheb, out])
                    return [v for c in out.d for v in c.d]

                wd = [tm.diff(v, "x%d" % k) for k in range(d) for v in w]
                attempt("Lagrange derivatives (%s)" % rules, "tensor product %s" % (sz,), gd, lambda r, S, pc: vals(S, pc, r, wd, "derivative"), D[0])


def bernstein(ctx, P, attempt):
    F = [G for G in freefn(P, "qugar::impl::evaluate_Bernstein") if G.tu.types[G.params[0]["t"]].replace("const ", "").startswith("double")]
    if not F:
        raise AnalysisBroken("evaluate_Bernstein")
    x = S_("x0")
    for n in range(1, 6):
        for der in range(0, 4):
            w = [bern(i, n - 1, x) for i in range(n)]
            for _ in range(der):
                w = [tm.diff(v, "x0") for v in w]

            def go(ev):
                out = stdvec([S_("old%d" % i) for i in range(n)])
                ev.call(F[0], [x, n, der, out])
                return list(out.d)

            attempt("Bernstein bases and derivatives", "order %d derivative %d" % (n, der), go, lambda r, S, pc: vals(S, pc, r, w, "basis"), F[0])
