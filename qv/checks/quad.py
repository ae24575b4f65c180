"""C06 one-dimensional quadrature tables, C07 tensor-product rules."""
import itertools
from fractions import Fraction
import numpy as np
from .. import terms as tm
from ..cxxsym import *
from ..report import wh

RULES = ("Gauss", "TanhSinh")


def table(P, rule):
    """(abscissae, weights) of every rule, extracted by evaluating the accessors"""
    cls = "qugar::" + rule
    Fa, Fw = need(P, cls, "get_abscissa", ["^int$", "^int$"]), need(P, cls, "get_weight", ["^int$", "^int$"])
    cache = {}

    def hook(ev, f, args, o):
        q = f["q"]
        if q in cache:
            return cache[q]
        cache[q] = None
        F = ev.prog.funcs.get(f["m"])
        r = ev.call(F, [], None)
        cache[q] = r
        return r

    hooks = {}
    for F in P.funcs.values():
        if F.cls == cls and not F.params and F.body is not None:
            h = dict(cache)

            def once(ev, f, args, o, F=F):
                if F.m in cache:
                    if cache[F.m] is None:
                        return NotImplemented
                    return cache[F.m]
                cache[F.m] = None
                cache[F.m] = ev.rv(ev.call(F, [], None))
                return cache[F.m]

            hooks[F.q] = once
    r = {}
    ev = Eval(P, hooks=hooks, max_steps=50000000)
    nmax = 0
    for n in range(1, 101):
        xs_, ws_ = [], []
        for i in range(n):
            xs_.append(ev.rv(ev.call(Fa, [n, i], None)))
            ws_.append(ev.rv(ev.call(Fw, [n, i], None)))
        r[n] = (xs_, ws_)
    return r, Fa, Fw


def run_C06(ctx):
    P = core()
    for rule in RULES:
        tab, Fa, Fw = table(P, rule)
        ctx.unit("tables", "%s: %d rules" % (rule, len(tab)))
        for n, (a, w) in sorted(tab.items()):

            def body(n=n, a=a, w=w):
                if any(isinstance(t, (tm.T, Undef)) or not isnum(t) for t in a + w):
                    return None, "entries are not constants"
                A, W = np.array([float(t) for t in a]), np.array([float(t) for t in w])
                if not (A > 0).all() or not (A <= 1).all():
                    return False, "abscissa outside (0,1)"
                if not (W > 0).all():
                    return False, "weight %d of the %d-point rule is not positive" % (int(np.argmin(W)), n)
                if not (np.diff(A) >= 0).all() or (n < 30 and not (np.diff(A) > 0).all()):
                    k = int(np.argmin(np.diff(A)))
                    return False, "abscissae %d and %d of the %d-point rule are not ascending" % (k, k + 1, n)
                sy, sw = np.abs(A + A[::-1] - 1), np.abs(W - W[::-1])
                if sy.max() > 1e-14 or (sw / W).max() > 1e-12 and sw.max() > 1e-16:
                    return False, "the %d-point rule is not symmetric (entry %d)" % (n, int(np.argmax(sy + sw)))
                if abs(W.sum() - 1) > 1e-13:
                    return False, "weights of the %d-point rule add up to %.16g" % (n, W.sum())
                if rule == "Gauss":
                    x, ww = np.polynomial.legendre.leggauss(n)
                    x, ww = (x + 1) / 2, ww / 2
                    k = int(np.argmax(np.abs(x - A)))
                    if abs(x[k] - A[k]) > 2e-14:
                        return False, "point %d of the %d-point Gauss rule is %.16g, should be %.16g" % (k, n, A[k], x[k])
                    k = int(np.argmax(np.abs(ww - W)))
                    if abs(ww[k] - W[k]) > 2e-14:
                        return False, "weight %d of the %d-point Gauss rule is %.16g, should be %.16g" % (k, n, W[k], ww[k])
                else:
                    h = (n + 1) // 2
                    al, wl = A[:h], W[:h]
                    t = np.arcsinh(np.log(al / (1 - al)) / np.pi)
                    if n > 1:
                        full = np.concatenate([t, -t[: n // 2][::-1]])
                        dt = np.diff(full)
                        if np.abs(dt - dt.mean()).max() > 1e-9:
                            return False, "points of the %d-point tanh-sinh rule are not images of equidistant ones (entry %d)" % (n, int(np.argmax(np.abs(dt - dt.mean()))))
                    kk = np.cosh(t) / np.cosh(np.pi / 2 * np.sinh(t)) ** 2
                    q = wl / kk
                    if np.abs(q / q[-1] - 1).max() > 1e-8:
                        return False, "weights of the %d-point tanh-sinh rule are not proportional to the derivative of the map (entry %d)" % (n, int(np.argmax(np.abs(q / q[-1] - 1))))
                return True, ""

            ctx.attempt("%s rule" % rule, n, body, wh(Fa))


def run_C07(ctx):
    P = core()
    # the tables become symbols, so that every product is compared as a term
    hooks = {}
    for rule in RULES:
        for F in P.funcs.values():
            if F.cls == "qugar::" + rule and not F.params and F.body is not None:
                hooks[F.q] = lambda ev, f, args, o, rule=rule, memo={}: memo.setdefault(rule, stdarr([tm.sym("%s%d" % (rule, k)) for k in range(10100)]))
    acc = {r: (need(P, "qugar::" + r, "get_abscissa"), need(P, "qugar::" + r, "get_weight")) for r in RULES}

    def ev_():
        return Eval(P, hooks=hooks, max_steps=4000000)

    vals = {}

    def aw(rule, n, i):
        if (rule, n, i) not in vals:
            e = ev_()
            vals[rule, n, i] = (e.rv(e.call(acc[rule][0], [n, i], None)), e.rv(e.call(acc[rule][1], [n, i], None)))
        return vals[rule, n, i]

    for d in (1, 2, 3):
        cls = "qugar::Quadrature<%d>" % d
        get = lambda ev, q: ([list(p.d) for p in ev.rv(ev.call(need(P, cls, "points", []), [], q)).d], list(ev.rv(ev.call(need(P, cls, "weights", []), [], q)).d), ev.rv(ev.call(need(P, cls, "get_num_points"), [], q)))

        def expect(rule, ns, lo, hi):
            pts, ws = [], []
            for idx in itertools.product(*[range(n) for n in reversed(ns)]):
                idx = idx[::-1]
                p, w = [], 1
                for k in range(d):
                    a, b = aw(rule, ns[k], idx[k])
                    p.append(lo[k] + a * (hi[k] - lo[k]))
                    w = w * (b * (hi[k] - lo[k]))
                pts.append(p)
                ws.append(w)
            return pts, ws

        def chk(key, F, rule, ns, mkargs, lo, hi):
            def spec(r, S, pc):
                pts, ws = expect(rule, ns, lo, hi)
                n = len(ws)
                if (len(r[0]), len(r[1])) != (n, n) or r[2] != n:
                    return False, "%d points, %d weights, reported %s, expected %d" % (len(r[0]), len(r[1]), r[2], n)
                return allsame(S, pc, [("point %d" % i, a, b) for i, (a, b) in enumerate(zip(r[0], pts))] + [("weight %d" % i, a, b) for i, (a, b) in enumerate(zip(r[1], ws))])

            def run(ev):
                q = ev.rv(ev.call(F, mkargs(ev), None))
                return get(ev, ev.rv(q).target if isinstance(q, Ptr) and hasattr(q, "target") else ev.deref(q) if hasattr(ev, "deref") else q)

            ctx.attempt("tensor-product rule", "%s %s %s" % (cls, key, ns), lambda: decide(ctx, P, run, spec, hooks=hooks), wh(F))

        for nm, rule in (("Gauss", "Gauss"), ("tanh_sinh", "TanhSinh")):
            for ns in ([(1,), (3,), (4,)], [(2, 3), (3, 2), (1, 2)], [(2, 3, 1), (1, 2, 3), (3, 1, 2)])[d - 1]:
                one, zero = [1] * d, [0] * d
                for F in method(P, cls, "create_%s_01" % nm):
                    t = F.tu.types[F.params[0]["t"]]
                    if t == "int":
                        n = ns[0] if d == 1 else ns[1]
                        chk("create_%s_01(int)" % nm, F, rule, (n,) * d, lambda ev, n=n: [n], zero, one)
                    else:
                        chk("create_%s_01(array)" % nm, F, rule, ns, lambda ev: [stdarr(ns, "int")], zero, one)
                for F in method(P, cls, "create_%s" % nm):
                    lo, hi = [tm.sym("blo%d" % i) for i in range(d)], [tm.sym("bhi%d" % i) for i in range(d)]
                    from .geom import box

                    chk("create_%s(domain)" % nm, F, rule, ns, lambda ev: [stdarr(ns, "int"), box(ev, d)], lo, hi)
        for F in method(P, cls, "scale_weights"):
            ct = find_ctor(P, cls, ["^std::vector", "^std::vector"])

            def run(ev, F=F):
                q = construct(ev, cls, [stdvec([svec("x%d_" % i, d) for i in range(3)], "algoim::uvector<double, %d>" % d), stdvec([tm.sym("w%d" % i) for i in range(3)])], ct[0])
                ev.call(F, [tm.sym("s")], q)
                return get(ev, q)

            ctx.attempt("scaling of weights", cls, lambda: decide(ctx, P, run, lambda r, S, pc: allsame(S, pc, [("weights", r[1], [tm.sym("w%d" % i) * tm.sym("s") for i in range(3)]), ("points", r[0], [[tm.sym("x%d_%d" % (i, k)) for k in range(d)] for i in range(3)])])), wh(F))
