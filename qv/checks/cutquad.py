"""C12 quadratures of cells and unfitted boundaries, C13 quadratures of facets.

The quadrature routines are evaluated abstractly through their public entry
points on domains built from chosen classifications; algoim's nodes are generic
points (random interpretation) whose coordinates depend on everything the
library asked for (box, direction, side, sign, number of points)."""
import hashlib, itertools
from fractions import Fraction as Fr
import numpy as np
from .. import terms as tm
from ..cxxsym import *
from ..par import par
from ..report import wh
from .domain import Oracle, AlgB, hooks_for, unfdom, ask, cells_of, QUERIES, COMBOS, vol, near

CB = [c for c in COMBOS if "tilt" not in c]


def frac(*key):
    return Fr(int(hashlib.sha256(repr(key).encode()).hexdigest()[:6], 16) % 995 + 1, 997)


class QOracle(Oracle):
    """phase 0: answers of the classification; phase 1: generic nodes of the quadratures"""
    phase = 0

    def register(self, x, info):
        self.pts[tuple(x)] = info

    # nodes in the unit box of the cell / facet: (unit point, share of the weight, info)
    def nodes(self, kind, c, d, s, n):
        D = self.dim
        U = lambda k, m: [frac(kind, c, d, s, n, k, i) for i in range(m)]
        wt = lambda k: frac("w", kind, c, d, s, n, k)
        if kind == "vol":
            return [(U(k, D), wt(k), None) for k in range(2 + (n + c) % 2)]
        if kind == "facet":
            return [(U(k, D - 1), wt(k), cl) for k, (cl, _) in enumerate(self.facet_nodes(c, d, s))]
        out = []  # surface of the level set: info = gradient in the cell

        def add(x, g):
            out.append((x, wt(len(out)), g))

        for k in range(2 + n % 2):
            add(U(k, D), [1 + frac("g", c, k, i) for i in range(D)])
        x = U(7, D)
        add(x, [Fr(3) if i == c % D else Fr(0) for i in range(D)])  # interior point, normal to a facet
        for f in range(2 * D):
            e, t = f // 2, f % 2
            cl = [a for a, _ in self.facet_nodes(c, e, t)]
            x = U(10 + f, D)
            x[e] = Fr(t)
            add(x, [(1 + frac("o", c, f, i)) * (-1 if i % 2 else 1) for i in range(D)])  # on the facet, oblique
            if self.unf(c, f):
                x = U(30 + f, D)
                x[e] = Fr(t)
                add(x, [Fr(-5 if f % 3 == 0 else 5) if i == e else Fr(0) for i in range(D)])  # on the facet, tangent to it
        r = (5 * n + 3 * c + len(out) // 2) % len(out)  # any kind of node comes first or last
        return out[r:] + out[:r]

    def phys(self, c, x):
        lo, hi = self.cells[c]
        return [a + (b - a) * v for a, b, v in zip(lo, hi, x)]

    def classify(self, x):
        for k, v in self.pts.items():
            if len(k) == len(x) and k[0] != "u" and near(x, k):
                return v
        raise Undecided("level set at a point that no quadrature returned")

    def info_grad(self, c, info, d, s):
        """gradient in physical coordinates"""
        if isinstance(info, list):
            return info
        g = [frac("g2", c, i) for i in range(self.dim)]
        if info in ("out", "in"):
            g = [Fr(0)] * self.dim
            g[d] = Fr(3) * (1 if (s == 1) == (info == "out") else -1)
        return g

    # --- general functions
    def phi(self, ev, x):
        if not self.phase:
            return Oracle.phi(self, ev, x)
        i = self.classify(x)[0]
        return 1 if i == "pos" else -1 if i in ("off", None) else 0

    def grad(self, ev, x):
        if not self.phase:
            return Oracle.grad(self, ev, x)
        i = self.classify(x)
        return self.info_grad(i[3], i[0], i[1], i[2])

    def integral(self, ev, lo, hi, d, s, n, surf, sign, phi):
        c = self.cell(lo, hi)
        if c is None:
            raise Undecided("quadrature on a box that is not a cell")
        kind = "surf" if surf else "vol" if d < 0 else "facet"
        if not surf and sign != -1:
            kind = "part of the box where the level set has sign %s: " % sign + kind
            return [([frac(kind, k) + a for k, a in enumerate(lo)], frac(kind))]
        out = []
        for x, w, info in self.nodes(kind, c, d, s, n):
            if d >= 0:
                x = x[:d] + [Fr(s)] + x[d:]
            p = self.phys(c, x)
            self.register(p, (info, d, s, c))
            if kind == "surf":
                w = w * vol(lo, hi) / sum((hi[i] - lo[i]) ** 2 for i in range(self.dim))
            else:
                w = w * vol(lo, hi, d)
            out.append((p, w))
        return out

    def quad(self, ev, lo, hi, d, s, n, phi):
        if not self.phase:
            return Oracle.quad(self, ev, lo, hi, d, s, n, phi)
        return self.integral(ev, lo, hi, -1 if d == self.dim else d, s, n, d == self.dim, -1, phi)

    # --- polynomials: everything in the unit box of the cell, directions reversed
    def poly(self, ev, o, strategy, n):
        if not self.phase:
            return Oracle.poly(self, ev, o, strategy, n)
        return [(x, w) for x, w, _ in self.polynodes(o, n, False)]

    def polysurf(self, ev, o, strategy, n):
        return [(x, w, [v * w for v in g[::-1]]) for x, w, g in self.polynodes(o, n, True)]

    def polynodes(self, o, n, surf):
        b = o.f["polys"][0]
        if len(o.f["polys"]) != 1 or not (isinstance(b, Obj) and "qv" in b.f):
            raise Undecided("polynomials integrated together")
        q = b.f["qv"]
        c = self.cell(*q["dom"]) if q.get("dom") is not None else None
        if c is None:
            raise Undecided("quadrature on a polynomial that is not restricted to a cell")
        d, s = (q["facet"] // 2, q["facet"] % 2) if "facet" in q else (-1, 0)
        kind = "surf" if surf else "vol" if d < 0 else "facet"
        out = []
        for x, w, info in self.nodes(kind, c, d, s, n):
            y = x if d < 0 else x[:d] + [Fr(s)] + x[d:]
            self.register(("u", c, d, s) + tuple(x), (info, -1))
            self.register(self.phys(c, y), (info, d, s, c))
            out.append((x[::-1], w, info))
        if not surf:  # the part where the polynomial is positive is returned too
            x = [frac("pos", c, d, s, n, i) for i in range(self.dim - (d >= 0))]
            self.register(("u", c, d, s) + tuple(x), ("pos", 1))
            self.register(self.phys(c, x if d < 0 else x[:d] + [Fr(s)] + x[d:]), ("pos", d, s, c))
            out.insert(n % 2, (x[::-1], frac("pw", c, d, s, n), None))
        return out

    def unit(self, q, x):
        c = self.cell(*q["dom"])
        d, s = (q["facet"] // 2, q["facet"] % 2) if "facet" in q else (-1, 0)
        for k, v in self.pts.items():
            if k[0] == "u" and k[1:4] == (c, d, s) and len(k) == len(x) + 4 and near(x, k[4:]):
                return c, v
        # at the point whose directions are exchanged: nothing relates the polynomial there to the polynomial at the point, so it may have the other sign and gradient
        for k, v in self.pts.items():
            if k[0] == "u" and k[1:4] == (c, d, s) and len(k) == len(x) + 4 and near(x[::-1], k[4:]):
                g = [-a for a in v[0]] if isinstance(v[0], list) else v[0]
                y = list(x) if d < 0 else list(x[:d]) + [Fr(s)] + list(x[d:])
                self.register(self.phys(c, y), ("off" if v[1] > 0 else "pos", d, s, c))
                return c, (g, -v[1]) + tuple(v[2:])
        raise Undecided("polynomial at a point that no quadrature returned")

    def bval(self, ev, q, x):
        if not self.phase or (x and isinstance(ev.rv(x[0]), Obj)):
            return Oracle.bval(self, ev, q, x)
        if q.get("dom") is None:
            return self.phi(ev, x)
        return self.unit(q, x)[1][1]

    def bgrad(self, ev, q, x):
        if not self.phase:
            return Oracle.bgrad(self, ev, q, x)
        if q.get("dom") is None:
            return self.grad(ev, x)
        c, v = self.unit(q, x)
        return self.unitgrad(c, v[0])

    def unitgrad(self, c, g):
        lo, hi = self.cells[c]
        return [v * (b - a) for v, a, b in zip(g, lo, hi)]


def norm(v):
    return float(sum(float(x) ** 2 for x in v)) ** 0.5


def gauss(n, d):
    x, w = np.polynomial.legendre.leggauss(n)
    return [([float((x[i] + 1) / 2) for i in t], float(np.prod([w[i] / 2 for i in t]))) for t in itertools.product(range(n), repeat=d)]


def spec_cell(O, q, kind, c, n, bez):
    if kind in ("neg", "fullu"):
        return gauss(n, O.dim)
    if kind == "pos":
        return []
    return [(x, w) for x, w, _ in O.nodes("vol", c, -1, 0, n)]


def spec_facet(O, q, c, f, n, keep_unf, keep_cut):
    full, empty, cut, fullunf, unf, ext = q[c, f]
    if fullunf:
        return gauss(n, O.dim - 1) if keep_unf else []
    if full:
        return gauss(n, O.dim - 1)
    out = []
    for x, w, cl in O.nodes("facet", c, f // 2, f % 2, n):
        if cl == "out" and unf and keep_unf or cl == "off" and cut and keep_cut:
            out.append((x, w))
    return out


def spec_unf(O, q, kind, c, n, bez, inc, exc, exterior):
    out = []
    if kind not in ("cut", "fullu") or not O.withunf(c):
        return []
    lo, hi = O.cells[c]
    L = [b - a for a, b in zip(lo, hi)]
    D = O.dim
    if kind == "cut":
        for x, w, g in O.nodes("surf", c, -1, 0, n):
            if any(x[f // 2] == f % 2 and all(g[i] == 0 for i in range(D) if i != f // 2) and q[c, f][4] for f in range(2 * D)):
                continue
            m = [float(v * l) for v, l in zip(g, L)]
            nn = norm(m)
            if not bez:
                w = float(w * vol(lo, hi) / sum(l * l for l in L)) * nn / norm(g) / float(vol(lo, hi))
            out.append((x + [v / nn for v in m], w))
    if inc:
        for f in range(2 * D):
            if q[c, f][4] and not (exc and exterior[c, f]):
                d, s = f // 2, f % 2
                for x, w in spec_facet(O, q, c, f, n, True, False):
                    nrm = [0.0] * D
                    nrm[d] = 1.0 if s else -1.0
                    out.append((list(x[:d]) + [s] + list(x[d:]) + nrm, w))
    return out


def match(got, want):
    """multisets of (coordinates, weight) up to rounding"""
    if len(got) != len(want):
        return "%d points, expected %d" % (len(got), len(want))
    rest = list(want)
    for x, w in got:
        for k, (y, v) in enumerate(rest):
            if len(x) == len(y) and near(list(x) + [w], list(y) + [v]):
                del rest[k]
                break
        else:
            k = min(range(len(rest)), key=lambda k: sum(abs(float(a) - float(b)) for a, b in zip(x, rest[k][0])))
            return "point %s with weight %.6g, the closest expected is %s with weight %.6g" % ([round(float(v), 6) for v in x], float(w), [round(float(v), 6) for v in rest[k][0]], float(rest[k][1]))
    return ""


def num(v):
    if isinstance(v, Undef.__class__ if not isinstance(Undef, type) else Undef):
        return 0  # algoim's vectors are zero unless set
    if isinstance(v, tm.T):
        if v.free():
            raise Undecided("symbolic coordinate %s" % tm.show(v, 60))
        return float(tm.evalt(v, tm.Env(0, 1))[0][0])
    return v


def entry(P, name, d, nparams):
    F = [F for F in freefn(P, "qugar::" + name) if len(F.params) == nparams and "UnfittedDomain<%d>" % d in F.tu.types[F.params[0]["t"]]]
    if not F:
        raise AnalysisBroken("routine qugar::%s for dimension %d" % (name, d))
    return F[0]


def slices(o, cnt, normals):
    """points per entity; None and the reason when the arrays do not fit together"""
    n = list(o.f[cnt].d)
    pts = [[num(x) for x in p.d] for p in o.f["points"].d]
    w = [num(x) for x in o.f["weights"].d]
    nr = [[num(x) for x in p.d] for p in o.f["normals"].d] if normals else None
    if any(not isinstance(v, int) or v < 0 for v in n) or sum(n) != len(pts) or len(w) != len(pts) or (nr is not None and len(nr) != len(pts)):
        return None, "counts %s, %d points, %d weights%s" % (n, len(pts), len(w), "" if nr is None else ", %d normals" % len(nr))
    out, a = [], 0
    for k in n:
        out.append([((p + (nr[i] if nr else [])), w[i]) for i, p in list(enumerate(pts))[a:a + k]])
        a += k
    return out, ""


def job(P, d, ns, bez, kinds, cases, ns_pts, what, name):
    obs, called = [], set()
    N = len(cells_of(ns))
    nf = 2 * d
    O = QOracle(d, ns, P)
    O.forced = dict(enumerate(kinds))
    for c in range(N):
        for f in range(nf):
            cb, full = cases[c][f]
            tot = Fr(1) if full else Fr(2, 5)
            O.facets[c, f // 2, f % 2] = [(k, tot / len(cb)) for k in cb]
    ev = Eval(P, hooks=hooks_for(P, d, O), max_steps=8000000)
    E = {"cells": ("create_quadrature", 3), "boundary": ("create_unfitted_bound_quadrature", 5), "interior": ("create_facets_quadrature_interior_integral", 4), "exterior": ("create_facets_quadrature_exterior_integral", 4)}
    F = {k: entry(P, n, d, m) for k, (n, m) in E.items()}
    title = {"cells": "quadrature of cells", "boundary": "quadrature of the unfitted boundary", "interior": "quadrature of facets, interior integral", "exterior": "quadrature of facets, exterior integral"}
    try:
        dom = unfdom(ev, P, d, ns, bez)
        q = {(c, f): tuple(bool(ask(ev, P, d, dom, n, c, f)) for n in QUERIES) for c in range(N) for f in range(nf)}
        ext = {(c, f): bool(ask(ev, P, d, dom, "is_exterior_facet", c, f)) for c in range(N) for f in range(nf)}
        wu = [bool(ask(ev, P, d, dom, "is_cell_with_unf_bdry", c)) for c in range(N)]
    except Undecided as e:
        return [(title[w], name, None, wh(F[w]), "domain: %s" % e) for w in what], called
    O.unf = lambda c, f: q[c, f][4]
    O.withunf = lambda c: wu[c]
    O.phase = 1
    O.pts = {}
    cells = [(5 * i + 1) % N for i in range(N)] + [kinds.index("cut")] * 2 + [0]
    fc = [(c, f) for f in range(nf) for c in range(N)]
    fc = fc[len(fc) // 2:] + fc[: len(fc) // 2] + fc[:3]
    for w in what:
        G = F[w]
        runs = []
        for n in ns_pts:
            if w == "boundary":
                runs += [(n, i, x) for i in (False, True) for x in (False, True)]
            else:
                runs.append((n, None, None))
        for n, inc, exc in runs:
            key = "%s, %d points per direction%s" % (name, n, "" if inc is None else ", facets %s, exterior ones %s" % ("included" if inc else "not included", "excluded" if exc else "kept"))
            where = wh(G)
            try:
                rq = [stdvec(cells, "long")] if w in ("cells", "boundary") else [stdvec([c for c, _ in fc], "long"), stdvec([f for _, f in fc], "int")]
                r = ev.rv(ev.call(G, [dom] + rq + [n] + ([] if inc is None else [inc, exc]), None))
                o = ev.rv(r.target()) if hasattr(r, "target") else ev.rv(r)
                while isinstance(o, Ptr):
                    o = ev.rv(ev.deref(o))
                if ev.taken:
                    raise Undecided("branch on a value the specification leaves open: %s" % (ev.taken[:1],))
                req = cells if w in ("cells", "boundary") else fc
                back = list(o.f["cells"].d) if w in ("cells", "boundary") else list(zip(o.f["cells"].d, o.f["local_facet_ids"].d))
                obs.append(("quadratures list the requested entities", key + ", " + w, back == req and len(o.f["cells"].d) == len(req), where, "requested %s, listed %s" % (req, back)))
                sl, why = slices(o, "n_pts_per_cell" if w in ("cells", "boundary") else "n_pts_per_facet", w == "boundary")
                ok = sl is not None and len(sl) == len(req)
                obs.append(("counts, points and weights fit together", key + ", " + w, ok, where, why or "%d counts for %d entities" % (len(sl), len(req))))
                if not ok:
                    continue
                for i, (e, got) in enumerate(zip(req, sl)):
                    c = e if isinstance(e, int) else e[0]
                    if w == "cells":
                        want = spec_cell(O, q, kinds[c], c, n, bez)
                    elif w == "boundary":
                        want = spec_unf(O, q, kinds[c], c, n, bez, inc, exc, ext)
                    elif w == "interior":
                        want = [] if ext[e] else spec_facet(O, q, e[0], e[1], n, False, True)
                    else:
                        want = spec_facet(O, q, e[0], e[1], n, True, True) if ext[e] else spec_facet(O, q, e[0], e[1], n, True, False) if q[e][4] else []
                    m = match(got, want)
                    st = "cell %d, %s" % (c, {"neg": "full", "pos": "empty", "cut": "cut", "fullu": "full with unfitted boundary"}[kinds[c]])
                    if not isinstance(e, int):
                        st += ", facet %d (%s; %s; quadrature points %s)" % (e[1], "exterior" if ext[e] else "interior", ", ".join(n2 for n2, x in zip(QUERIES, q[e]) if x), O.facet_nodes(*[e[0], e[1] // 2, e[1] % 2]) and [a for a, _ in O.facet_nodes(e[0], e[1] // 2, e[1] % 2)])
                    obs.append((title[w], key + ", entity %d" % i, not m, where, st + ": " + m))
            except Oob as e:
                obs.append((title[w], key, False, where, "%s for valid arguments" % e))
                O.pts = {}
            except Undecided as e:
                obs.append((title[w], key, None, where, str(e)))
                O.pts = {}
            except CxxThrow as e:
                obs.append((title[w], key, False, where, "throws %s" % e))
            except Exception as e:
                obs.append((title[w], key, None, where, "analysis gave up: %s: %s" % (type(e).__name__, e)))
    for G in ev.called:
        called.add(G.q)
    return obs, called


def run(ctx, what):
    P = core()
    jobs = []
    cases = [(cb, full) for cb in CB for full in (True, False) if cb or not full]
    for d in (2, 3):
        nf = 2 * d
        grids = {2: [(2, 2), (4, 1)], 3: [(2, 2, 1), (1, 2, 2)]}[d]
        for bez in (False, True):
            ncase = len(cases) if ctx.thorough else 8
            for i in range(ncase):
                ns = grids[i % 2]
                ks = ("neg", "cut", "fullu", "pos")
                kinds = [ks[(k + i) % 4] for k in range(4)]
                if i % 5 == 3:
                    kinds[kinds.index("pos")] = "cut"
                cs = [[cases[(i * 3 + c * 7 + f * 5) % len(cases)] for f in range(nf)] for c in range(4)]
                npts = ((2, 3, 2), (1, 2), (3, 1), (4,))[i % 4]
                if d == 3:
                    npts = ((2, 1, 2), (1, 2), (2,), (3,))[i % 4]
                name = "%dD %s%s, case %d" % (d, "x".join(map(str, ns)), ", polynomial" if bez else "", i)
                jobs.append((d, ns, bez, kinds, cs, npts, what, name))
    for obs, called in par([lambda j=j: job(P, *j) for j in jobs]):
        for q in called:
            ctx.unit("functions", q)
        for o in obs:
            ctx.ob(*o)
    ctx.unit("domains", len(jobs))


def run_C12(ctx):
    run(ctx, ("cells", "boundary"))


def run_C13(ctx):
    run(ctx, ("interior", "exterior"))
