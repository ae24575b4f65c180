"""C04 affine maps, C05 boxes and reference systems."""
import itertools
from .. import terms as tm
from ..cxxsym import *
from ..report import wh
from .shapes import dot, minus, nrm, unaff

S_ = tm.sym


def xs(n, d):
    return [S_("%s%d" % (n, i)) for i in range(d)]


def sqrt(x):
    return tm.fn("sqrt", x)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def fields(ty, d, rng=None):
    return ty


def aff_apply(A, d, x):
    return [sum((A[i * d + j] * x[j] for j in range(d)), 0) + A[d * d + i] for i in range(d)]


def tri(d):
    return [(i, j) for i in range(d) for j in range(i, d)]


def run_C04(ctx):
    P = core()
    for d in (2, 3):
        cls = IMPL + "AffineTransf<%d>" % d
        I = "algoim::Interval<%d>" % d
        A, B, x = xs("A", d * (d + 1)), xs("B", d * (d + 1)), xs("x", d)
        tp = {}
        for F in method(P, cls, "transform_point"):
            ctx.attempt("point map", "%s %s" % (cls, F.tu.types[F.params[0]["t"]]), lambda F=F: decide(
                ctx, P, lambda ev: ev.call(F, [svec("x", d, "double" if "Interval" not in F.tu.types[F.params[0]["t"]] else I)], affine(ev, d)),
                lambda r, S, pc: allsame(S, pc, [("transformed point", r, aff_apply(A, d, x))])), wh(F))
        Fp = need(P, cls, "transform_point", ["uvector<double"])
        app = lambda ev, o, v: ev.call(Fp, [v], o)
        for F in method(P, cls, "operator*"):
            ctx.attempt("composition", cls, lambda F=F: decide(
                ctx, P, lambda ev: app(ev, ev.call(F, [affine(ev, d, "B")], affine(ev, d)), svec("x", d)),
                lambda r, S, pc: allsame(S, pc, [("(f*g)(x)", r, aff_apply(A, d, aff_apply(B, d, x)))])), wh(F))
        Fi = need(P, cls, "inverse")
        ctx.attempt("inverse", cls, lambda: decide(ctx, P, lambda ev: app(ev, ev.call(Fi, [], affine(ev, d)), svec("x", d)),
                    lambda r, S, pc: allsame(S, pc, [("inverse map", r, unaff(d, A, x))])), wh(Fi))
        for F in method(P, cls, "transform_vector"):
            ctx.attempt("gradient pull-back", "%s %s" % (cls, F.tu.types[F.params[0]["t"]]), lambda F=F: decide(
                ctx, P, lambda ev: ev.call(F, [svec("x", d)], affine(ev, d)),
                lambda r, S, pc: allsame(S, pc, [("transposed matrix times vector", r, [sum((A[j * d + i] * x[j] for j in range(d)), 0) for i in range(d)])])), wh(F))
        n = d * (d + 1) // 2
        for F in method(P, cls, "transform_tensor"):
            def spec(r, S, pc):
                H = {}
                for k, (i, j) in enumerate(tri(d)):
                    H[i, j] = H[j, i] = S_("h%d" % k)
                return allsame(S, pc, [("tensor", r, [sum((A[a * d + i] * H[a, b] * A[b * d + j] for a in range(d) for b in range(d)), 0) for i, j in tri(d)])])
            ctx.attempt("tensor pull-back", "%s %s" % (cls, F.tu.types[F.params[0]["t"]]), lambda F=F: decide(ctx, P, lambda ev: ev.call(F, [svec("h", n)], affine(ev, d)), spec), wh(F))
        # constructors
        for F in find_ctor(P, cls):
            ts = [F.tu.types[p["t"]] for p in F.params]
            if any("uvector<double, %d>" % (d * (d + 1)) in t for t in ts):
                continue
            pts = [i for i, t in enumerate(ts) if "uvector" in t]
            sc = [i for i, t in enumerate(ts) if t == "double"]

            def run(ev, F=F, ts=ts):
                o = construct(ev, cls, [symarg(ev, t, "p%d_" % i) for i, t in enumerate(ts)], F)
                z = vec([0] * d)
                cols = [app(ev, o, vec([1 if i == j else 0 for i in range(d)])) for j in range(d)]
                return app(ev, o, z), cols

            def spec(r, S, pc, ts=ts, pts=pts, sc=sc):
                o = r[0].d
                C = [minus(c.d, o) for c in r[1]]
                org = xs("p0_", d) if pts else [0] * d
                s = [S_("p%d_" % i) for i in sc]
                s = [1] * d if not s else s * d if len(s) == 1 else s
                if len(pts) <= 1:
                    return allsame(S, pc, [("image of the origin", o, org), ("image of the axes", list(itertools.chain(*C)), [s[i] if i == j else 0 for i in range(d) for j in range(d)])])
                ax = xs("p1_", d)
                ob = [("image of the origin", o, org), ("x axis", C[0], [s[0] * t for t in nrm(ax)])]
                if d == 2:
                    ob.append(("y axis", C[1], [-(s[1] * nrm(ax)[1]), s[1] * nrm(ax)[0]]))
                else:
                    ez = nrm(cross(nrm(ax), xs("p2_", 3)))
                    ey = cross(ez, nrm(ax))
                    ob += [("z axis", C[2], [s[2] * t for t in ez]), ("y axis", C[1], [s[1] * t for t in ey])]
                return allsame(S, pc, ob)

            ctx.attempt("construction", "%s(%d parameters, %d reals)" % (cls, len(ts), len(sc)), lambda run=run, spec=spec: decide(ctx, P, run, spec), wh(F))


NEAR = [{}, {"a1": (-1e-6, 1e-6), "a2": (-1e-6, 1e-6), "a0": (0.5, 1.5)}, {"a1": (-0.02, 0.02), "a2": (-0.02, 0.02), "a0": (0.8, 1.5)}, {"a1": (-0.02, 0.02), "a2": (-0.02, 0.02), "a0": (-1.5, -0.8)},
        {"a1": (5e-5, 7e-5), "a2": (-7e-5, 7e-5), "a0": (0.9, 1.0)}, {"a1": (-2e-3, -1e-3), "a2": (1e-3, 2e-3), "a0": (-1.5, -0.8)},
        {"a0": (-1e-6, 1e-6), "a2": (-1e-6, 1e-6)}, {"a0": (-1e-6, 1e-6), "a1": (-1e-6, 1e-6)}]


def ortho(S, pc, B):
    d = len(B)
    return allsame(S, pc, [("inner product of axes %d,%d" % (i, j), dot(B[i], B[j]), 1 if i == j else 0) for i in range(d) for j in range(i, d)]
                   + ([("handedness", cross(B[0], B[1]), B[2])] if d == 3 else []))


def box(ev, d, n="b"):
    cls = "qugar::BoundBox<%d>" % d
    F = find_ctor(ev.prog, cls, ["uvector<double", "uvector<double"])
    if not F:
        raise AnalysisBroken("constructor of %s from two corners" % cls)
    return construct(ev, cls, [svec(n + "lo", d), svec(n + "hi", d)], F[0])


def run_C05(ctx):
    P = core()
    for F in freefn(P, IMPL + "create_reference_system_around_axis"):
        a = xs("a", 3)

        def spec(r, S, pc):
            x, y = r.f["first"].d, r.f["second"].d
            ok = ortho(S, pc, [x, y, cross(x, y)])
            return allsame(S, pc, [("z axis", cross(x, y), nrm(a))]) if ok[0] else ok
        ctx.attempt("orthonormal frame around an axis", F.q, lambda F=F: decide(ctx, P, lambda ev: ev.call(F, [svec("a", 3)]), spec, NEAR), wh(F))
    for d in (1, 2, 3):
        cls = IMPL + "RefSystem<%d>" % d
        gb, go = need(P, cls, "get_basis"), need(P, cls, "get_origin")
        for F in find_ctor(P, cls):
            ts = [F.tu.types[p["t"]] for p in F.params]
            if any("std::array" in t for t in ts):
                continue

            def run(ev, F=F, ts=ts):
                o = construct(ev, cls, [svec("oab"[i], d) for i in range(len(ts))], F)
                return [list(v.d) for v in ev.rv(ev.call(gb, [], o)).d], list(ev.rv(ev.call(go, [], o)).d)

            def spec(r, S, pc, ts=ts):
                B, o = r
                ob = [("origin", o, xs("o", d) if ts else [0] * d)]
                if len(ts) < 2:
                    ob += [("axis %d" % i, B[i], [1 if i == j else 0 for j in range(d)]) for i in range(d)]
                    return allsame(S, pc, ob)
                a = xs("a", d)
                if d == 3 and len(ts) == 2:
                    ob += [("z axis", B[2], nrm(a))]
                elif d == 3:
                    ob += [("x axis", B[0], nrm(a)), ("z axis", B[2], nrm(cross(nrm(a), xs("b", 3))))]
                else:
                    ob += [("x axis", B[0], nrm(a))]
                if d == 2:
                    ob += [("y axis", B[1], [-nrm(a)[1], nrm(a)[0]])]
                ok = allsame(S, pc, ob)
                return ortho(S, pc, B) if ok[0] else ok

            if len(ts) == 2:
                isC = method(P, cls, "is_Cartesian_oriented")
                for ax in itertools.product((-1.0, 0.0, 1.0), repeat=d):
                    if isC and sum(map(abs, ax)) in (1.0, 2.0):

                        def runc(ev, F=F, ax=ax):
                            o = construct(ev, cls, [svec("o", d), vec(list(ax))], F)
                            return [list(v.d) for v in ev.rv(ev.call(gb, [], o)).d], ev.rv(ev.call(isC[0], [], o))

                        def specc(r, S, pc):
                            nv = lambda v: float(tm.evalt(v, tm.Env(0, 1))[0][0]) if isinstance(v, tm.T) else float(v)
                            can = all(abs(nv(v) - (i == j)) < 1e-9 for i, a in enumerate(r[0]) for j, v in enumerate(a))
                            return bool(nv(r[1])) == can, "axes %s, Cartesian oriented: %s" % ([[nv(v) for v in a] for a in r[0]], r[1])

                        ctx.attempt("Cartesian orientation", "%s, axis %s" % (cls, ax), lambda runc=runc, specc=specc: decide(ctx, P, runc, specc), wh(isC[0]))

            ctx.attempt("orthonormal reference system", "%s/%d" % (cls, len(ts)), lambda run=run, spec=spec: decide(ctx, P, run, spec, NEAR), wh(F))
        # boxes
        b = "qugar::BoundBox<%d>" % d
        lo, hi = xs("blo", d), xs("bhi", d)
        x = xs("x", d)
        pos = {"bhi%d" % i: (2.0, 3.0) for i in range(d)}
        corner = lambda ev, o: (list(ev.rv(ev.call(need(P, b, "min_corner"), [], o)).d), list(ev.rv(ev.call(need(P, b, "max_corner"), [], o)).d))

        def chk(name, key, F, run, spec, rg=None):
            ctx.attempt("box: " + name, "%s::%s" % (b, key), lambda: decide(ctx, P, run, spec, [rg or pos]), wh(F))

        for F in find_ctor(P, b):
            ts = [F.tu.types[p["t"]] for p in F.params]
            if not ts:
                chk("default", "ctor/0", F, lambda ev, F=F: corner(ev, construct(ev, b, [], F)), lambda r, S, pc: allsame(S, pc, [("min", r[0], [0] * d), ("max", r[1], [1] * d)]))
            elif "HyperRectangle" not in ts[0]:
                if ts[0] == "double":
                    chk("corners", "ctor(real,real)", F, lambda ev, F=F: corner(ev, construct(ev, b, [S_("blo0"), S_("bhi0")], F)), lambda r, S, pc: allsame(S, pc, [("min", r[0], [lo[0]] * d), ("max", r[1], [hi[0]] * d)]))
                else:
                    mk = (lambda n: stdarr(xs(n, d))) if "array" in ts[0] else (lambda n: svec(n, d))
                    chk("corners", "ctor(%s)" % ts[0], F, lambda ev, F=F, mk=mk: corner(ev, construct(ev, b, [mk("blo"), mk("bhi")], F)), lambda r, S, pc: allsame(S, pc, [("min", r[0], lo), ("max", r[1], hi)]))
        M = lambda n, t=None: method(P, b, n, t)
        for F in M("set"):
            def run(ev, F=F):
                o = box(ev, d, "c")
                ev.call(F, [svec("blo", d), svec("bhi", d)], o)
                return corner(ev, o)
            chk("set", "set", F, run, lambda r, S, pc: allsame(S, pc, [("min", r[0], lo), ("max", r[1], hi)]))
        for F in M("extend"):
            if F.tu.types[F.params[0]["t"]] == "double":
                chk("extend", "extend(delta)", F, lambda ev, F=F: corner(ev, ev.call(F, [S_("e")], box(ev, d))), lambda r, S, pc: allsame(S, pc, [("min", r[0], [t - S_("e") for t in lo]), ("max", r[1], [t + S_("e") for t in hi])]))
            else:
                def run(ev, F=F):
                    o = box(ev, d)
                    ev.call(F, [svec("x", d)], o)
                    return corner(ev, o)
                rg = dict(pos)
                rg.update({"x%d" % i: (-4.0, 5.0) for i in range(d)})
                chk("extend", "extend(point)", F, run, lambda r, S, pc: allsame(S, pc, [("min", r[0], [tm.fn("min", a, c) for a, c in zip(lo, x)]), ("max", r[1], [tm.fn("max", a, c) for a, c in zip(hi, x)])]), rg)
        vol = 1
        for i in range(d):
            vol = vol * (hi[i] - lo[i])
        for n, sp in (("volume", vol), ("get_lengths", minus(hi, lo)), ("mid_point", [(p + q) / 2 for p, q in zip(lo, hi)]), ("min_corner", lo), ("max_corner", hi)):
            for F in M(n):
                chk(n, n, F, lambda ev, F=F: ev.rv(ev.call(F, [], box(ev, d))), lambda r, S, pc, sp=sp: allsame(S, pc, [(n, r, sp)]))
        for n, sp in (("min", lo), ("max", hi), ("length", minus(hi, lo))):
            for F in M(n):
                if len(F.params) == 1:
                    chk(n, n + "(dir)", F, lambda ev, F=F: [ev.rv(ev.call(F, [k], box(ev, d))) for k in range(d)], lambda r, S, pc, sp=sp: allsame(S, pc, [(n, r, sp)]))
                else:
                    chk(n, n + "()", F, lambda ev, F=F: ev.rv(ev.call(F, [], box(ev, d))), lambda r, S, pc, sp=sp: allsame(S, pc, [(n, r, sp[0])]))
        for F in M("scale_to_0_1"):
            chk("scale", "scale_to_0_1", F, lambda ev, F=F: ev.call(F, [svec("x", d)], box(ev, d)), lambda r, S, pc: allsame(S, pc, [("point", r, [(t - l) / (h - l) for t, l, h in zip(x, lo, hi)])]))
        for F in M("scale_from_0_1"):
            chk("scale", "scale_from_0_1", F, lambda ev, F=F: ev.call(F, [svec("x", d)], box(ev, d)), lambda r, S, pc: allsame(S, pc, [("point", r, [t * (h - l) + l for t, l, h in zip(x, lo, hi)])]))
        clo, chi = xs("clo", d), xs("chi", d)
        for F in M("scale_to_new_domain"):
            chk("scale", "scale_to_new_domain", F, lambda ev, F=F: ev.call(F, [box(ev, d, "c"), svec("x", d)], box(ev, d)),
                lambda r, S, pc: allsame(S, pc, [("point", r, [(t - l) / (h - l) * (q - p) + p for t, l, h, p, q in zip(x, lo, hi, clo, chi)])]))
