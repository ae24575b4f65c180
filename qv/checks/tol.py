"""C39 comparisons up to a tolerance, unique values and unique points."""
import itertools, random
from .. import terms as tm
from ..cxxsym import *
from ..report import wh
from .index import INT, conj, disj

S_ = tm.sym
TC = "qugar::Tolerance"


def tol(ev, *v):
    F = [G for G in find_ctor(ev.prog, TC) if len(G.params) == len(v) and all(G.tu.types[p["t"]] == "double" for p in G.params)]
    if not F:
        raise AnalysisBroken("constructor of a tolerance")
    return construct(ev, TC, list(v), F[0])


def value(ev, o):
    return ev.rv(ev.call(need(ev.prog, TC, "value"), [], o))




def run_C39(ctx):
    P = core()
    l, r, t, u = S_("l"), S_("r"), S_("t"), S_("u")
    ints = {"l": INT(-3, 3), "r": INT(-3, 3), "t": INT(0, 2), "u": INT(0, 2)}
    # ties are hit with integers; generic reals with the differences of the size of the tolerance
    near = {"l": (-1, 1), "r": (-1, 1), "t": (0, 1), "u": (0, 1)}
    far = {"l": (100, 200), "r": (100, 200), "t": (0, 0.5), "u": (0, 60)}
    d = tm.sub(l, r)
    le, lt = lambda a, b: tm.cmp("<=", a, b), lambda a, b: tm.cmp("<", a, b)
    specs = {
        ("is_zero", 1): conj([le(l, t), le(tm.neg(t), l)]),
        ("is_negative", 1): lt(l, tm.neg(t)),
        ("is_positive", 1): lt(t, l),
        ("equal", 2): conj([le(d, t), le(tm.neg(t), d)]),
        ("greater_than", 2): lt(t, d),
        ("smaller_than", 2): lt(t, tm.neg(d)),
        ("greater_equal_than", 2): le(tm.neg(t), d),
        ("smaller_equal_than", 2): le(d, t),
        # relative to the larger of the two magnitudes: |d| <= t max(|l|,|r|)
        ("equal_rel", 2): conj([any_le(sd, [tm.mul(t, x) for x in (l, tm.neg(l), r, tm.neg(r))]) for sd in (d, tm.neg(d))]),
        ("greater_than_rel", 2): conj([lt(tm.mul(t, x), d) for x in (l, tm.neg(l), r, tm.neg(r))]),
        ("smaller_than_rel", 2): conj([lt(tm.mul(t, x), tm.neg(d)) for x in (l, tm.neg(l), r, tm.neg(r))]),
        ("equal_rel", 3): conj([any_le(sd, [tm.add(t, tm.mul(u, x)) for x in (l, tm.neg(l), r, tm.neg(r))]) for sd in (d, tm.neg(d))]),
    }
    for (nm, n), sp in specs.items():
        Fs = [F for F in method(P, TC, nm) if len(F.params) == n]
        if not Fs:
            raise AnalysisBroken("%s of tolerances with %d arguments" % (nm, n))
        for F in Fs:
            def run(ev, F=F, n=n):
                a = [l, r][:n] if n < 3 else [l, r, tol(ev, u)]
                return ev.rv(ev.call(F, a, tol(ev, t)))

            def spec(v, S, pc, sp=sp):
                return S.same(v if not isinstance(v, bool) else int(v), sp if not isinstance(sp, bool) else int(sp), pc)

            for nmr, rg in (("ties", ints), ("near", near), ("far", far)):
                ctx.attempt("comparison", "%s, %d argument(s), %s" % (nm, n, nmr), lambda: decide(ctx, P, run, spec, [rg]), wh(F))
    # the tolerance
    F2 = [F for F in find_ctor(P, TC) if len(F.params) == 2]
    Fu = [F for F in method(P, TC, "update")]
    if len(F2) < 2 or len(Fu) < 2:
        raise AnalysisBroken("tolerances from two tolerances")
    for nmr, rg in (("ties", ints), ("near", near), ("ordered", {"t": (0, 1), "u": (2, 3)}), ("reversed", {"t": (2, 3), "u": (0, 1)})):
        def spv(v, S, pc):
            # max(t, u): not below any of them, and one of them
            return S.same(conj([tm.cmp(">=", v, t), tm.cmp(">=", v, u), disj([tm.cmp("==", v, t), tm.cmp("==", v, u)])]), 1, pc)

        for F in F2:
            isd = F.tu.types[F.params[0]["t"]] == "double"
            ctx.attempt("larger tolerance", "constructor(%s), %s" % (F.tu.types[F.params[0]["t"]], nmr),
                        lambda: decide(ctx, P, lambda ev: value(ev, construct(ev, TC, [t, u] if isd else [tol(ev, t), tol(ev, u)], F)), spv, [rg]), wh(F))
        for F in Fu:
            isd = F.tu.types[F.params[0]["t"]] == "double"

            def up(ev, F=F, isd=isd):
                o = tol(ev, t)
                ev.call(F, [u if isd else tol(ev, u)], o)
                return value(ev, o)

            ctx.attempt("larger tolerance", "update(%s), %s" % (F.tu.types[F.params[0]["t"]], nmr), lambda: decide(ctx, P, up, spv, [rg]), wh(F))
    # unique values
    Fq = need(P, TC, "unique")
    rng = random.Random(ctx.seed)
    cases = [[], [3.0], [1.0, 1.0], [2.0, 1.0, 0.0], [1.0, 0.5, 1.0, 0.0, 0.5], [0.0, 1e-3, 1.0, 1.0 - 1e-3], [5.0, -5.0, 5.0, -5.0, 0.25], [-1.0, -1.0 - 5e-3, 1.0, -2.0]]
    for _ in range(6):
        cs = [rng.uniform(-3, 3) // 0.5 * 0.5 for _ in range(rng.randint(1, 4))]
        v = [c + rng.uniform(-4e-3, 4e-3) for c in cs for _ in range(rng.randint(1, 3))]
        rng.shuffle(v)
        cases.append(v)
    for v in cases:
        def uq(ev, v=v):
            x = stdvec(v)
            ev.call(Fq, [x], tol(ev, 1e-2))
            return [ev.rv(q) for q in x.d]

        def spq(w, S, pc, v=v):
            if sorted(w) != list(w):
                return False, "not sorted: %s" % (w,)
            if any(b - a <= 1e-2 for a, b in zip(w, w[1:])):
                return False, "values within the tolerance are kept: %s" % (w,)
            if any(q not in v for q in w):
                return False, "values that were not there: %s" % ([q for q in w if q not in v],)
            if any(all(abs(q - p) > 1e-2 for q in w) for p in v):
                return False, "%s has no value within the tolerance in %s" % (v, w)
            return True, ""

        ctx.attempt("unique values", str(v), lambda: decide(ctx, P, uq, spq), wh(Fq))
    # points
    for dim in (2, 3):
        Fc = [F for F in method(P, TC, "coincident") if "uvector<double, %d>" % dim in F.tu.types[F.params[0]["t"]]]
        for F in Fc[:1]:
            p, q = ["p%d" % i for i in range(dim)], ["q%d" % i for i in range(dim)]
            rg = {n: INT(0, 1) for n in p + q}
            rg["t"] = INT(0, 1)
            rg2 = {n: (0, 1) for n in p + q}
            rg2["t"] = (0.3, 1)
            w = conj([conj([le(tm.sub(S_(a), S_(b)), t), le(tm.sub(S_(b), S_(a)), t)]) for a, b in zip(p, q)])
            for nmr, g in (("ties", rg), ("generic", rg2)):
                ctx.attempt("coincident points", "%dD, %s" % (dim, nmr),
                            lambda: decide(ctx, P, lambda ev: ev.rv(ev.call(F, [vec([S_(a) for a in p]), vec([S_(b) for b in q])], tol(ev, t))), lambda v, S, pc: S.same(int(v) if isinstance(v, bool) else v, w, pc), [g]), wh(F))
        points(ctx, P, dim, rng)


def any_le(a, bs):
    return disj([tm.cmp("<=", a, b) for b in bs])


def points(ctx, P, dim, rng):
    pat = r"uvector<double, %d>" % dim
    Ff = [F for F in freefn(P, "qugar::find_coincident_points") if pat in F.tu.types[F.params[0]["t"]] and len(F.params) == 3]
    Fm = [F for F in freefn(P, "qugar::make_points_unique") if pat in F.tu.types[F.params[0]["t"]]]
    if not Ff or not Fm:
        raise AnalysisBroken("unique points in %dD" % dim)
    eps = 1e-3
    cases = []
    # clusters that share coordinates in every proper subset of the directions, in several orders
    grid = list(itertools.product((0.0, 1.0), repeat=dim))
    for k in range(10):
        cl = grid if k < 4 else [tuple(rng.choice((0.0, 1.0, 2.0, -1.5)) for _ in range(dim)) for _ in range(rng.randint(1, 7))]
        cl = sorted(set(cl))
        pts = []
        for i, c in enumerate(cl):
            for _ in range({0: 1, 1: 2}.get(k, rng.randint(1, 3))):
                pts.append((i, [x + (rng.uniform(-0.2, 0.2) * eps if k % 2 else 0.0) for x in c]))
        rng.shuffle(pts)
        if k == 2:
            pts.sort()
        cases.append(("%d points, %d different, case %d" % (len(pts), len(cl), k), pts))
    # close in all but one direction, just beyond the tolerance
    for j in range(dim):
        a, b = [0.5] * dim, [0.5] * dim
        b[j] += 2.5 * eps
        cases.append(("apart along direction %d only" % j, [(0, a), (1, b), (0, list(a))]))
    cases += [("no points", []), ("one point", [(0, [0.5] * dim)])]
    ty = "algoim::uvector<double, %d>" % dim

    def mk(pts):
        return Arr([vec(c) for _, c in pts], "vec", "std::vector<%s>" % ty, ty)

    for lab, pts in cases:
        def fc(ev, pts=pts):
            m = stdvec([], "unsigned long")
            ev.call(Ff[0], [mk(pts), tol(ev, eps), m])
            return [ev.rv(x) for x in m.d]

        def spf(m, S, pc, pts=pts):
            if len(m) != len(pts):
                return False, "%d entries for %d points" % (len(m), len(pts))
            for i, k in enumerate(m):
                if not 0 <= k < len(pts) or pts[k][0] != pts[i][0]:
                    return False, "point %d is identified with %d, which is elsewhere" % (i, k)
                if m[k] != k:
                    return False, "point %d is identified with %d, which is not unique itself" % (i, k)
            if len(set(m)) != len(set(c for c, _ in pts)):
                return False, "%d different points, %d expected" % (len(set(m)), len(set(c for c, _ in pts)))
            return True, ""

        def mu(ev, pts=pts):
            v, m = mk(pts), stdvec([], "unsigned long")
            ev.call(Fm[0], [v, tol(ev, eps), m])
            return [[ev.rv(x) for x in ev.rv(q).d] for q in v.d], [ev.rv(x) for x in m.d]

        def spm(r, S, pc, pts=pts):
            q, m = r
            if len(m) != len(pts):
                return False, "%d entries for %d points" % (len(m), len(pts))
            if len(q) != len(set(c for c, _ in pts)):
                return False, "%d different points, %d expected" % (len(q), len(set(c for c, _ in pts)))
            for i, k in enumerate(m):
                if not 0 <= k < len(q) or max(abs(a - b) for a, b in zip(q[k], pts[i][1])) > eps:
                    return False, "point %d is mapped to point %d, which is elsewhere" % (i, k)
            return True, ""

        ctx.attempt("coincident points", "%dD map, %s" % (dim, lab), lambda: decide(ctx, P, fc, spf), wh(Ff[0]))
        ctx.attempt("coincident points", "%dD unique, %s" % (dim, lab), lambda: decide(ctx, P, mu, spm), wh(Fm[0]))
