"""C08 tensor indices and ranges, C09 Cartesian grids."""
import itertools
from .. import terms as tm
from ..cxxsym import *
from ..report import wh
from .geom import box, xs

S_ = tm.sym
INT = lambda lo, hi: (lo, hi, True)


def prod(v):
    r = 1
    for x in v:
        r = r * x
    return r


def conj(ts):
    r = True
    for t in ts:
        r = tm.land(r, t)
    return r


def disj(ts):
    r = False
    for t in ts:
        r = tm.lor(r, t)
    return r


def tsize(ev, d, v):
    cls = "qugar::TensorSizeTP<%d>" % d
    return construct(ev, cls, [vec(v, "int")], find_ctor(ev.prog, cls, ["^algoim::uvector<int"])[0])


def tindex(ev, d, v):
    cls = "qugar::TensorIndexTP<%d>" % d
    return construct(ev, cls, [vec(v, "int")], find_ctor(ev.prog, cls, ["^algoim::uvector<int"])[0])


def trange(ev, d, lo, hi):
    cls = "qugar::TensorIndexRangeTP<%d>" % d
    return construct(ev, cls, [tindex(ev, d, lo), tindex(ev, d, hi)], find_ctor(ev.prog, cls, ["TensorIndexTP", "TensorIndexTP"])[0])


def flat_spec(i, s):
    r = 0
    for k in reversed(range(len(i))):
        r = i[k] + s[k] * r
    return r


def run_C08(ctx):
    P = core()
    for d in (1, 2, 3):
        ic, sc, rc = "qugar::TensorIndexTP<%d>" % d, "qugar::TensorSizeTP<%d>" % d, "qugar::TensorIndexRangeTP<%d>" % d
        s = xs("s", d)
        j = xs("j", d)
        i = [tm.imod(a, b) for a, b in zip(j, s)]
        lo = xs("l", d)
        n = xs("s", d)
        hi = [a + b for a, b in zip(lo, n)]
        rg = {"s%d" % k: INT(1, 6) for k in range(d)}
        rg.update({"j%d" % k: INT(0, 40) for k in range(d)})
        rg.update({"k%d" % k: INT(0, 3) for k in range(d)})
        rg.update({"m%d" % k: INT(0, 3) for k in range(d)})
        rg.update({"l%d" % k: INT(0, 3) for k in range(d)})
        rg["v"] = INT(0, 5)

        def chk(rule, key, F, run, spec, cap=64):
            ctx.attempt(rule, key, lambda: decide(ctx, P, run, spec, [rg], cap=cap), wh(F))

        for F in method(P, ic, "flat"):
            arg = (lambda ev: tsize(ev, d, s)) if "Size" in F.tu.types[F.params[0]["t"]] else (lambda ev: tindex(ev, d, s))
            chk("flat index", "%s(%s)" % (F.q, F.tu.types[F.params[0]["t"]]), F, lambda ev, F=F, arg=arg: ev.call(F, [arg(ev)], tindex(ev, d, i)),
                lambda r, S, pc: allsame(S, pc, [("flat index", r, flat_spec(i, s))]))
        for F in find_ctor(P, ic):
            ts = [F.tu.types[p["t"]] for p in F.params]
            if len(ts) == 2 and ts[0] in ("long", "std::int64_t", "long long"):
                arg = (lambda ev: tsize(ev, d, s)) if "Size" in ts[1] else (lambda ev: tindex(ev, d, s))
                chk("tensor index of a flat index", "%s(%s)" % (ic, ts[1]), F, lambda ev, F=F, arg=arg: list(construct(ev, ic, [flat_spec(i, s), arg(ev)], F).d),
                    lambda r, S, pc: allsame(S, pc, [("component", r, i)]))
        # tensors with more entries than 32 bits can count
        for big in {2: [[70001, 50021]], 3: [[3001, 2003, 1511], [60013, 50021, 3]]}.get(d, []):
            for ii in ([0] * d, [v - 1 for v in big], [big[0] - 2] + [0] * (d - 1), [5] * (d - 1) + [big[-1] - 1], [v // 2 for v in big]):
                for F in method(P, ic, "flat"):
                    mk = tsize if "Size" in F.tu.types[F.params[0]["t"]] else tindex
                    chk("many entries", "%s of %s in %s" % (F.q + "/" + mk.__name__, ii, big), F, lambda ev, F=F, mk=mk, ii=ii, big=big: ev.call(F, [mk(ev, d, big)], tindex(ev, d, ii)),
                        lambda r, S, pc, ii=ii, big=big: (r == flat_spec(ii, big), "flat index %s of %s, expected %s" % (r, ii, flat_spec(ii, big))))
                for F in find_ctor(P, ic):
                    ts = [F.tu.types[p["t"]] for p in F.params]
                    if len(ts) == 2 and ts[0] in ("long", "std::int64_t", "long long"):
                        mk = tsize if "Size" in ts[1] else tindex
                        chk("many entries", "%s(%s) of %s in %s" % (ic, ts[1], ii, big), F, lambda ev, F=F, mk=mk, ii=ii, big=big: list(construct(ev, ic, [flat_spec(ii, big), mk(ev, d, big)], F).d),
                            lambda r, S, pc, ii=ii, big=big: (r == ii, "flat index %s gives %s instead of %s" % (flat_spec(ii, big), r, ii)))
            for F in method(P, sc, "size"):
                chk("many entries", sc + " size %s" % big, F, lambda ev, F=F, big=big: ev.call(F, [], tsize(ev, d, big)), lambda r, S, pc, big=big: (r == prod(big), "size %s of %s" % (r, big)))
        a, b = xs("k", d), xs("m", d)
        for nm, sp in (("operator==", conj([tm.cmp("==", p, q) for p, q in zip(a, b)])), ("operator!=", disj([tm.cmp("!=", p, q) for p, q in zip(a, b)])),
                       ("operator<", tm.cmp("<", flat_spec(a, [10] * d), flat_spec(b, [10] * d)))):
            for F in method(P, ic, nm):
                def spec(r, S, pc, sp=sp):
                    return S.same(r if not isinstance(r, bool) else int(r), sp if not isinstance(sp, bool) else int(sp), pc)
                chk("comparison", "%s %s" % (ic, nm), F, lambda ev, F=F: ev.call(F, [tindex(ev, d, b)], tindex(ev, d, a)), spec)
        for F in method(P, sc, "size"):
            chk("size", sc, F, lambda ev, F=F: ev.call(F, [], tsize(ev, d, s)), lambda r, S, pc: allsame(S, pc, [("number of entries", r, prod(s))]))
        for F in method(P, sc, "operator+"):
            chk("size", sc + " sum", F, lambda ev, F=F: list(ev.call(F, [tsize(ev, d, j)], tsize(ev, d, s)).d), lambda r, S, pc: allsame(S, pc, [("sum", r, [p + q for p, q in zip(s, j)])]))
        if not find_ctor(P, rc):
            continue
        for F in method(P, rc, "get_sizes"):
            chk("range", rc + " sizes", F, lambda ev, F=F: list(ev.call(F, [], trange(ev, d, lo, hi)).d), lambda r, S, pc: allsame(S, pc, [("size", r, n)]))
        for F in method(P, rc, "size"):
            chk("range", rc + " size", F, lambda ev, F=F: ev.call(F, [], trange(ev, d, lo, hi)), lambda r, S, pc: allsame(S, pc, [("size", r, prod(n))]))
        x = xs("j", d)
        for F in method(P, rc, "is_in_range"):
            if len(F.params) == 1:
                chk("range", rc + " is_in_range", F, lambda ev, F=F: ev.call(F, [tindex(ev, d, a)], trange(ev, d, lo, hi)),
                    lambda r, S, pc: S.same(r, conj([tm.land(tm.cmp("<=", l, t), tm.cmp("<", t, h)) for l, t, h in zip(lo, a, hi)]), pc))
            else:
                tot = [h + e for h, e in zip(hi, xs("m", d))]
                q = [tm.imod(u, t) for u, t in zip(xs("j", d), tot)]
                over = S_("v")
                chk("range", rc + " is_in_range of a flat index", F,
                    lambda ev, F=F, q=q, tot=tot: [ev.call(F, [flat_spec(q, tot), tsize(ev, d, tot)], trange(ev, d, lo, hi)), ev.call(F, [prod(tot) + over, tsize(ev, d, tot)], trange(ev, d, lo, hi))],
                    lambda r, S, pc, q=q: allsame(S, pc, [("inside", r[0], conj([tm.land(tm.cmp("<=", l, t), tm.cmp("<", t, h)) for l, t, h in zip(lo, q, hi)])), ("beyond the end", r[1], False)]))
        gl, gu = need(P, rc, "get_lower_bound"), need(P, rc, "get_upper_bound")
        bounds = lambda ev, o: (list(ev.rv(ev.call(gl, [], o)).d), list(ev.rv(ev.call(gu, [], o)).d))
        for F in find_ctor(P, rc, np_=1):
            t = F.tu.types[F.params[0]["t"]]
            if t == "int":
                chk("range", rc + "(int)", F, lambda ev, F=F: bounds(ev, construct(ev, rc, [S_("s0")], F)), lambda r, S, pc: allsame(S, pc, [("lower", r[0], [0] * d), ("upper", r[1], [S_("s0")] * d)]))
            elif "Size" in t or "Index" in t:
                mk = tsize if "Size" in t else tindex
                chk("range", rc + "(%s)" % t, F, lambda ev, F=F, mk=mk: bounds(ev, construct(ev, rc, [mk(ev, d, s)], F)), lambda r, S, pc: allsame(S, pc, [("lower", r[0], [0] * d), ("upper", r[1], s)]))
        for F in method(P, rc, "split"):

            def run(ev, F=F):
                r = ev.call(F, [], trange(ev, d, lo, hi))
                return [bounds(ev, ev.rv(t)) for t in r.d]

            def spec(r, S, pc):
                (l0, u0), (l1, u1) = r
                one = tm.cmp("==", prod(n), 1)
                ok, det = allsame(S, pc, [("lower corner of the first half", l0, lo), ("upper corner of the second half", u1, hi),
                                          ("sum of the halves", prod([p - q for p, q in zip(u0, l0)]) + prod([p - q for p, q in zip(u1, l1)]), prod(n))])
                if not ok:
                    return ok, det
                parts = []
                for k in range(d):
                    inner = conj([tm.land(tm.cmp("==", u0[e], hi[e]), tm.cmp("==", l1[e], lo[e])) for e in range(d) if e != k])
                    parts.append(conj([inner, tm.cmp("==", u0[k], l1[k]), tm.cmp("<", lo[k], u0[k]), tm.cmp("<", u0[k], hi[k])]))
                return S.same(tm.lor(one, disj(parts)), 1, pc)

            chk("split into two non-empty halves", rc, F, run, spec)
        it = rc + "::Iterator"
        ctor = find_ctor(P, it, np_=3)
        deref = method(P, it, "operator*")
        p = [l + tm.imod(q, m) for l, q, m in zip(lo, j, n)]
        pos = flat_spec([q - l for q, l in zip(p, lo)], n)
        for F in method(P, it, "operator++"):
            if not ctor or not deref:
                raise AnalysisBroken("range iterator not found")

            def run(ev, F=F):
                o = construct(ev, it, [tindex(ev, d, p), tindex(ev, d, lo), tindex(ev, d, hi)], ctor[0])
                ret = ev.call(F, [0] if F.params else [], o)
                cur = list(ev.rv(ev.call(deref[0], [], o)).d)
                rv = list(ev.rv(ev.call(deref[0], [], ev.rv(ret))).d)
                return cur, rv

            def spec(r, S, pc, post=False):
                cur, rv = r
                last = tm.cmp("==", pos + 1, prod(n))
                q = flat_spec([c - l for c, l in zip(cur, lo)], n)
                inside = conj([tm.land(tm.cmp("<=", l, c), tm.cmp("<", c, h)) for l, c, h in zip(lo, cur, hi)])
                good = tm.ite(last, conj([tm.cmp("==", c, h) for c, h in zip(cur, hi)]), tm.land(inside, tm.cmp("==", q, pos + 1)))
                ok, det = S.same(good, 1, pc)
                if not ok:
                    return ok, "successor: " + det
                return allsame(S, pc, [("returned iterator", rv, p if post else cur)])

            chk("iteration visits every index once, in flat order", "%s %s" % (it, "post" if F.params else "pre"), F, run, lambda r, S, pc, F=F: spec(r, S, pc, bool(F.params)))
        for F in method(P, it, "flat"):
            chk("flat index of an iterator", it, F, lambda ev, F=F: ev.call(F, [], construct(ev, it, [tindex(ev, d, i), tindex(ev, d, [0] * d), tindex(ev, d, s)], ctor[0])),
                lambda r, S, pc: allsame(S, pc, [("flat index", r, flat_spec(i, s))]))
        for F in method(P, rc, "begin") + method(P, rc, "cbegin"):
            chk("iteration starts at the lower corner", F.q, F, lambda ev, F=F: list(ev.rv(ev.call(deref[0], [], ev.call(F, [], trange(ev, d, lo, hi)))).d), lambda r, S, pc: allsame(S, pc, [("first", r, lo)]))
        eq = method(P, it, "operator==") or method(P, it, "operator!=")
        for a, b in (("begin", "end"), ("cbegin", "cend")):
            for F in method(P, rc, a):
                for sub in [k for m in range(1, d + 1) for k in itertools.combinations(range(d), m)]:
                    for G in method(P, rc, b):
                        h0 = [lo[k] if k in sub else hi[k] for k in range(d)]

                        def emp(ev, F=F, G=G, h0=h0):
                            x, y = (ev.rv(ev.call(f, [], trange(ev, d, lo, h0))) for f in (F, G))
                            return ev.rv(ev.call(eq[0], [y], x))

                        chk("nothing is visited in a range that is empty along a direction", "%s directions %s" % (F.q, list(sub)), F, emp,
                            lambda r, S, pc: allsame(S, pc, [("begin is the end", r, eq[0].f["n"] == "operator==")]))
        for F in method(P, rc, "end") + method(P, rc, "cend"):
            chk("iteration ends after the last index", F.q, F, lambda ev, F=F: list(ev.rv(ev.call(deref[0], [], ev.call(F, [], trange(ev, d, lo, hi)))).d), lambda r, S, pc: allsame(S, pc, [("end", r, hi)]))


GRIDS = {2: [(3, 2), (1, 4), (2, 3)], 3: [(2, 3, 1), (3, 1, 2), (2, 2, 3)]}


def grid(ev, d, ns, brk):
    cls = "qugar::CartGridTP<%d>" % d
    F = [G for G in find_ctor(ev.prog, cls, np_=1) if "vector<double" in G.tu.types[G.params[0]["t"]]]
    if not F:
        raise AnalysisBroken("constructor of %s from breaks" % cls)
    return construct(ev, cls, [stdarr([stdvec(b) for b in brk], "std::vector<double, std::allocator<double>>")], F[0])


def run_C09(ctx):
    P = core()
    for d in (2, 3):
        cls = "qugar::CartGridTP<%d>" % d
        for ns in GRIDS[d]:
            brk = [[S_("b%d_%d" % (k, i)) for i in range(n + 1)] for k, n in enumerate(ns)]
            rg = {"b%d_%d" % (k, i): (i + 0.1, i + 0.9) for k, n in enumerate(ns) for i in range(n + 1)}
            rg.update({"x%d" % k: (0.95, ns[k] + 0.05) for k in range(d)})
            cells = [t[::-1] for t in itertools.product(*[range(n) for n in reversed(ns)])]
            N = len(cells)
            G = lambda ev: grid(ev, d, ns, brk)

            def chk(rule, key, F, run, spec, cap=2500, rgs=None):
                ctx.attempt(rule, "%s %s %s" % (cls, ns, key), lambda: decide(ctx, P, run, spec, rgs or [rg], cap=cap), wh(F))

            lo = lambda o, ev: list(ev.rv(ev.call(need(P, "qugar::BoundBox<%d>" % d, "min_corner"), [], o)).d)
            hi = lambda o, ev: list(ev.rv(ev.call(need(P, "qugar::BoundBox<%d>" % d, "max_corner"), [], o)).d)
            F = need(P, cls, "get_num_cells")
            chk("number of cells", "total", F, lambda ev: ev.call(F, [], G(ev)), lambda r, S, pc: allsame(S, pc, [("cells", r, N)]))
            F2 = need(P, cls, "get_num_cells_dir")
            chk("number of cells", "per direction", F2, lambda ev: list(ev.call(F2, [], G(ev)).d), lambda r, S, pc: allsame(S, pc, [("cells", r, list(ns))]))
            F3 = need(P, cls, "get_domain")
            chk("domain", "domain", F3, lambda ev: (lambda o: (lo(o, ev), hi(o, ev)))(ev.rv(ev.call(F3, [], G(ev)))), lambda r, S, pc: allsame(S, pc, [("lower", r[0], [b[0] for b in brk]), ("upper", r[1], [b[-1] for b in brk])]))
            F4 = need(P, cls, "get_cell_domain")

            def run4(ev):
                g = G(ev)
                return [(lambda o: (lo(o, ev), hi(o, ev)))(ev.call(F4, [c], g)) for c in range(N)]

            chk("cells tile the domain, first direction fastest", "cell boxes", F4, run4, lambda r, S, pc: allsame(S, pc, [("cell %d" % c, list(r[c][0]) + list(r[c][1]), [brk[k][cells[c][k]] for k in range(d)] + [brk[k][cells[c][k] + 1] for k in range(d)]) for c in range(N)]))
            F5, F6 = need(P, cls, "to_flat"), need(P, cls, "to_tensor")
            chk("flat and tensor ids", "to_flat", F5, lambda ev: [ev.call(F5, [tindex(ev, d, c)], G(ev)) for c in cells], lambda r, S, pc: allsame(S, pc, [("flat ids", r, list(range(N)))]))
            chk("flat and tensor ids", "to_tensor", F6, lambda ev: [list(ev.call(F6, [c], G(ev)).d) for c in range(N)], lambda r, S, pc: allsame(S, pc, [("tensor ids", r, [list(c) for c in cells])]))
            F7 = need(P, cls, "on_boundary")
            onb = lambda c, f: cells[c][f // 2] == (0 if f % 2 == 0 else ns[f // 2] - 1)

            def run7(ev):
                g = G(ev)
                return [int(ev.rv(ev.call(F7, [c, f], g))) for c in range(N) for f in range(2 * d)]

            chk("boundary cells", "on_boundary", F7, run7, lambda r, S, pc: allsame(S, pc, [("cell %d facet %d" % (k // (2 * d), k % (2 * d)), v, int(onb(k // (2 * d), k % (2 * d)))) for k, v in enumerate(r)]))
            F8 = need(P, cls, "get_boundary_cells")
            chk("boundary cells", "get_boundary_cells", F8, lambda ev: [sorted(ev.rv(ev.call(F8, [f], G(ev))).d) for f in range(2 * d)], lambda r, S, pc: allsame(S, pc, [("facet %d" % f, r[f], [c for c in range(N) if onb(c, f)]) for f in range(2 * d)]))
            # point location: break points are constants here, the point is symbolic
            cb = [[0.0, 1.0, 2.5, 4.0, 4.5][: n + 1] for n in ns]
            tolc = lambda ev: construct_tol(ev)
            F9 = need(P, cls, "get_cell_id")
            x = xs("x", d)

            def count(xk, b):
                r = 0
                for t in b[1:-1]:
                    r = r + tm.ite(tm.cmp("<=", t, xk), 1, 0)
                return r

            rgx = {"x%d" % k: (cb[k][0], cb[k][-1]) for k in range(d)}
            chk("point location", "inside cells", F9, lambda ev: ev.call(F9, [svec("x", d), construct_tol(ev)], grid(ev, d, ns, cb)),
                lambda r, S, pc: allsame(S, pc, [("cell of the point", r, flat_spec([count(x[k], cb[k]) for k in range(d)], ns))]), rgs=[rgx])
            pts = list(itertools.product(*cb))

            def run9(ev):
                g = grid(ev, d, ns, cb)
                return [ev.rv(ev.call(F9, [vec(p), construct_tol(ev)], g)) for p in pts]

            chk("point location", "break points", F9, run9, lambda r, S, pc: allsame(S, pc, [("cell of point %s" % (p,), v, flat_spec([min(cb[k].index(p[k]), ns[k] - 1) for k in range(d)], ns)) for p, v in zip(pts, r)]))
            F10 = need(P, cls, "at_cells_boundary")
            mids = [b + [(u + v) / 2 for u, v in zip(b, b[1:])] for b in cb]
            pts2 = list(itertools.product(*mids))
            inner = lambda p: [k for k in range(d) if p[k] in cb[k][1:-1]]

            def run10(ev):
                g = grid(ev, d, ns, cb)
                out = []
                for p in pts2:
                    r = ev.rv(ev.call(F10, [vec(p), construct_tol(ev)], g))
                    out.append(optval(ev, r))
                return out

            def spec10(r, S, pc):
                for p, v in zip(pts2, r):
                    e = inner(p)
                    if (v is None) != (not e) or (v is not None and v not in e):
                        return False, "point %s: internal boundary direction %s, expected one of %s" % (p, v, e)
                return True, ""

            chk("internal cell boundaries", "at_cells_boundary", F10, run10, spec10)
        # equispaced grids
        for F in find_ctor(P, cls):
            ts = [F.tu.types[p["t"]] for p in F.params]
            if len(ts) == 2 and "BoundBox" in ts[0] or len(ts) == 1 and "unsigned long" in ts[0]:
                ns = GRIDS[d][0]
                two = len(ts) == 2
                bl, bh = ([S_("blo%d" % k) for k in range(d)], [S_("bhi%d" % k) for k in range(d)]) if two else ([0] * d, [1] * d)

                def run(ev, F=F, two=two):
                    g = construct(ev, cls, ([box(ev, d)] if two else []) + [stdarr(ns, "unsigned long")], F)
                    return [list(ev.rv(ev.call(need(P, cls, "get_breaks"), [k], g)).d) for k in range(d)]

                ctx.attempt("equispaced breaks", "%s/%d" % (cls, len(ts)), lambda run=run, bl=bl, bh=bh: decide(ctx, P, run, lambda r, S, pc: allsame(S, pc, [("breaks %d" % k, r[k], [bl[k] + (bh[k] - bl[k]) * tm.div(i, ns[k]) for i in range(ns[k] + 1)]) for k in range(d)])), wh(F))
        # sub-grids
        sc = "qugar::SubCartGridTP<%d>" % d
        ns = {2: (4, 3), 3: (3, 2, 4)}[d]
        brk = [[S_("b%d_%d" % (k, i)) for i in range(n + 1)] for k, n in enumerate(ns)]
        lo_, hi_ = [0] * d, list(ns)
        lo_[0], hi_[d - 1] = 1, ns[d - 1] - 1
        ct = find_ctor(P, sc, ["shared_ptr", "TensorIndexTP", "TensorIndexTP"])
        c1 = find_ctor(P, sc, ["shared_ptr"])
        if not ct or not c1:
            raise AnalysisBroken("constructors of " + sc)
        sub = lambda ev, lo_=lo_, hi_=hi_: construct(ev, sc, [Ptr(grid(ev, d, ns, brk)), tindex(ev, d, lo_), tindex(ev, d, hi_)], ct[0])
        rgm = lambda n: need(P, sc, n)

        def chk2(key, F, run, spec):
            ctx.attempt("sub-grid", "%s %s" % (sc, key), lambda: decide(ctx, P, run, spec), wh(F))

        sz = [h - l for l, h in zip(lo_, hi_)]
        chk2("number of cells", rgm("get_num_cells"), lambda ev: ev.call(rgm("get_num_cells"), [], sub(ev)), lambda r, S, pc: allsame(S, pc, [("cells", r, prod(sz))]))
        chk2("cells per direction", rgm("get_num_cells_dir"), lambda ev: list(ev.call(rgm("get_num_cells_dir"), [], sub(ev)).d), lambda r, S, pc: allsame(S, pc, [("cells", r, sz)]))
        bb = lambda ev, o: (list(ev.rv(ev.call(need(P, "qugar::BoundBox<%d>" % d, "min_corner"), [], o)).d), list(ev.rv(ev.call(need(P, "qugar::BoundBox<%d>" % d, "max_corner"), [], o)).d))
        chk2("domain", rgm("get_domain"), lambda ev: bb(ev, ev.call(rgm("get_domain"), [], sub(ev))), lambda r, S, pc: allsame(S, pc, [("lower", r[0], [brk[k][lo_[k]] for k in range(d)]), ("upper", r[1], [brk[k][hi_[k]] for k in range(d)])]))
        chk2("is_full", rgm("is_full"), lambda ev: [int(ev.rv(ev.call(rgm("is_full"), [], o))) for o in (sub(ev), construct(ev, sc, [Ptr(grid(ev, d, ns, brk))], c1[0]))], lambda r, S, pc: allsame(S, pc, [("partial, full", r, [0, 1])]))
        one = [h - 1 for h in hi_]
        chk2("single cell", rgm("get_single_cell"), lambda ev: [int(ev.rv(ev.call(rgm("is_unique_cell"), [], o))) for o in (sub(ev), sub(ev, one, hi_))] + [ev.call(rgm("get_single_cell"), [], sub(ev, one, hi_))], lambda r, S, pc: allsame(S, pc, [("unique, id", r, [0, 1, flat_spec(one, ns)])]))
        gr = rgm("get_range")
        rcl = "qugar::TensorIndexRangeTP<%d>" % d

        def runs(ev):
            r = ev.call(rgm("split"), [], sub(ev))
            out = []
            for t in r.d:
                t = ev.rv(t)
                t = t.t if isinstance(t, Ptr) else t
                rr = ev.rv(ev.call(gr, [], t))
                out.append((list(ev.rv(ev.call(need(P, rcl, "get_lower_bound"), [], rr)).d), list(ev.rv(ev.call(need(P, rcl, "get_upper_bound"), [], rr)).d)))
            return out

        def specs(r, S, pc):
            a = set(itertools.product(*[range(l, h) for l, h in zip(*r[0])]))
            b = set(itertools.product(*[range(l, h) for l, h in zip(*r[1])]))
            full = set(itertools.product(*[range(l, h) for l, h in zip(lo_, hi_)]))
            return (not (a & b) and (a | b) == full and bool(a) and bool(b)), "the halves %s do not partition %s-%s" % (r, lo_, hi_)

        chk2("split partitions the cells", rgm("split"), runs, specs)


def construct_tol(ev):
    cls = "qugar::Tolerance"
    c = find_ctor(ev.prog, cls, np_=0)
    return construct(ev, cls, [], c[0]) if c else ev.new_object(cls)


def optval(ev, r):
    if r is None:
        return None
    v = getattr(r, "v", r)
    return ev.rv(v) if v is not None else None
