"""C10 partition and classification of the cells, C11 statuses of the facets.

The library's answers are derived for every answer algoim may give: the signs of
the level set on boxes and the quadratures of cells and facets come from an
oracle whose alternatives are all explored; the rest of the program is evaluated
abstractly through its public interface."""
import itertools
from fractions import Fraction as Fr
from .. import terms as tm
from ..cxxsym import *
from ..algmodel import Alg, pick
from ..par import par
from ..report import wh
from .index import grid

BRK = ([0, 1, 3, 4, 9], [0, 2, 5, 6], [0, 4, 5, 7])
FRACS = (Fr(1, 2), Fr(999, 1000), Fr(1, 1000), Fr(3, 4), Fr(1, 100), Fr(2, 5))


def breaks(ns):
    return [BRK[k][: n + 1] for k, n in enumerate(ns)]


def cells_of(ns):
    """cell boxes in flat order (first direction fastest)"""
    brk = breaks(ns)
    return [([brk[k][i] for k, i in enumerate(t)], [brk[k][i + 1] for k, i in enumerate(t)])
            for t in (t[::-1] for t in itertools.product(*[range(n) for n in reversed(ns)]))]


def vol(lo, hi, skip=-1):
    r = 1
    for i in range(len(lo)):
        if i != skip:
            r *= hi[i] - lo[i]
    return r


def near(a, b):
    return all(abs(float(x) - float(y)) <= 1e-9 * (1 + abs(float(y))) for x, y in zip(a, b))


class Bz:
    """the Bezier polynomial under analysis, as an object with opaque coefficients"""

    @staticmethod
    def hooks(P, dims, oracle):
        h = {}

        def cp(ev, cls, args):
            v = [ev.rv(a) for a in args]
            if len(v) == 1 and isinstance(v[0], Obj) and "qv" in v[0].f:
                return Bz.make(cls, dict(v[0].f["qv"]))
            return NotImplemented

        h["ctor:" + IMPL + "BezierTP"] = cp
        for n in dims:
            c = IMPL + "BezierTP<%d, 1>" % n

            def resc(ev, f, args, o):
                b = ev.rv(args[0])
                g = lambda m: [c for c in ev.rv(ev.call(need(P, b.cls, m), [], b)).d]
                if o.f["qv"].get("dom") is not None:
                    raise Undecided("polynomial rescaled twice")
                o.f["qv"] = dict(o.f["qv"], dom=(tuple(g("min_corner")), tuple(g("max_corner"))))
                return None

            def facet(ev, f, args, o, n=n):
                q = dict(o.f["qv"])
                if "facet" in q:
                    raise Undecided("facet of a facet")
                q["facet"] = ev.rv(args[0])
                return Ptr(Bz.make(IMPL + "BezierTP<%d, 1>" % (n - 1), q))

            def val(ev, f, args, o):
                if not (isinstance(o, Obj) and "qv" in o.f):
                    return NotImplemented
                return oracle.bval(ev, o.f["qv"], list(ev.rv(args[0]).d))

            h[c + "::rescale_domain"] = resc
            h[c + "::extract_facet"] = facet
            h[c + "::get_xarray"] = lambda ev, f, args, o: o
            h[c + "::operator()"] = val
            h[c + "::sign"] = lambda ev, f, args, o: P.enums[IMPL + "FuncSign"][{-1: "negative", 0: "undetermined", 1: "positive"}[oracle.bsign(ev, o.f["qv"])]]
        return h

    @staticmethod
    def make(cls, q):
        o = Obj(cls)
        o.f["qv"] = q
        return o


class Oracle:
    """answers chosen by picks (cells) and fixed tables (facets)"""

    def __init__(self, dim, ns, P):
        self.dim, self.ns, self.P = dim, ns, P
        self.cells = cells_of(ns)
        self.log = []
        self.facets = {}  # (cell, dim, side) -> list of (class, weight fraction)
        self.forced = None  # cell -> 'neg'|'pos'|'cut'|'fullu'|'empty'
        self.pts = {}

    # which cells a box covers / which cell it is
    def covered(self, lo, hi):
        return [c for c, (a, b) in enumerate(self.cells) if all(l <= x + 1e-12 * 0 and y <= h for l, h, x, y in zip(lo, hi, a, b))]

    def touched(self, lo, hi):
        return [c for c, (a, b) in enumerate(self.cells) if all(l < y and x < h for l, h, x, y in zip([v + Fr(1, 10**6) for v in lo], [v - Fr(1, 10**6) for v in hi], a, b))]

    def cell(self, lo, hi):
        for c, (a, b) in enumerate(self.cells):
            if near(lo, a) and near(hi, b):
                return c
        return None

    def sign(self, ev, lo, hi):
        cs = self.touched(lo, hi)
        if self.forced is not None:
            k = {self.forced[c] for c in cs}
            s = -1 if k == {"neg"} else 1 if k == {"pos"} else 0
        else:
            s = (-1, 1, 0)[pick(ev, "sign of the box %s" % sorted(cs), 3)]
        ev.events.append(("sign", tuple(self.covered(lo, hi)), s))
        return s

    def volume(self, ev, c):
        if self.forced is not None:
            k = {"cut": 2, "fullu": 1, "empty": 0}[self.forced[c]]
        else:
            k = pick(ev, "volume of the cell %d" % c, 3)
        ev.events.append(("volume", c, k))
        return (0, 1, FRACS[c % len(FRACS)])[k]

    def facet_nodes(self, c, d, s):
        return self.facets.get((c, d, s), [("off", Fr(1, 4))])

    def points(self, ev, key, lo, hi, d, s, n):
        """distinct generic points of the box (on its facet)"""
        out = []
        for k in range(n):
            x = [a + (b - a) * Fr(3 + 7 * i + 11 * k, 101) for i, (a, b) in enumerate(zip(lo, hi))]
            if d >= 0:
                x[d] = (lo, hi)[s][d]
            out.append(x)
        return out

    def quad(self, ev, lo, hi, d, s, n, phi):
        c = self.cell(lo, hi)
        if c is None:
            raise Undecided("quadrature on a box that is not a cell")
        if not isinstance(n, int) or n < 1:
            raise Undecided("number of points")
        if d == -1:
            f = self.volume(ev, c)
            if f == 0:
                return []
            x = self.points(ev, c, lo, hi, -1, 0, 2)
            return [(x[0], vol(lo, hi) * f / 3), (x[1], vol(lo, hi) * f * Fr(2, 3))]
        ev.events.append(("facet", c, d, s))
        nodes = self.facet_nodes(c, d, s)
        out = []
        for x, (cl, w) in zip(self.points(ev, c, lo, hi, d, s, len(nodes)), nodes):
            self.pts[tuple(x)] = (cl, d, s)
            out.append((x, vol(lo, hi, d) * w))
        return out

    def cls(self, x):
        for k, v in self.pts.items():
            if len(k) == len(x) and near(x, k):
                return v
        raise Undecided("level set at a point that no quadrature returned")

    def phi(self, ev, x):
        return -1 if self.cls(x)[0] == "off" else 0

    def grad(self, ev, x):
        cl, d, s = self.cls(x)
        g = [Fr(0)] * len(x)
        if cl in ("out", "in"):
            g[d] = Fr(3) * (1 if (s == 1) == (cl == "out") else -1)
        elif cl == "tilt":
            g = [Fr(3)] * len(x)
            g[d] = Fr(4) * (1 if s else -1)
        else:
            g = [Fr(1)] * len(x)
        return g

    # polynomial (Bezier) variant: everything in the unit box of the cell
    def bsign(self, ev, q):
        dom = q.get("dom")
        if "facet" in q:
            raise Undecided("sign of a facet")
        if dom is None:
            lo, hi = [0] * self.dim, [1] * self.dim
        else:
            lo, hi = dom
        c = self.cell(lo, hi) if dom is not None else "whole"
        if self.forced is not None:
            s = 0 if c != "whole" else 0
        else:
            s = (-1, 1, 0)[pick(ev, "sign of the coefficients on %s" % (c,), 3)]
        ev.events.append(("sign", tuple(self.covered(lo, hi)), s))
        return s

    def poly(self, ev, o, strategy, n):
        b = o.f["polys"][0]
        if len(o.f["polys"]) != 1 or not (isinstance(b, Obj) and "qv" in b.f):
            raise Undecided("polynomials integrated together")
        q = b.f["qv"]
        if q.get("dom") is None:
            raise Undecided("quadrature on a polynomial that is not restricted to a cell")
        c = self.cell(*q["dom"])
        if c is None:
            raise Undecided("quadrature on a box that is not a cell")
        m = self.dim - (1 if "facet" in q else 0)
        U = lambda k: [Fr(3 + 7 * i + 11 * k, 101) for i in range(m)]
        if "facet" not in q:
            f = self.volume(ev, c)
            out = []
            for k in range(3):
                x = U(k)
                self.pts[("cell", c) + tuple(x)] = -1 if k < 2 else 1
                w = f * (Fr(1, 3), Fr(2, 3))[k] if k < 2 else 1 - f
                if w != 0:
                    out.append((x[::-1], w))
            return out
        d, s = q["facet"] // 2, q["facet"] % 2
        ev.events.append(("facet", c, d, s))
        out = []
        nodes = self.facet_nodes(c, d, s)
        for k, (cl, w) in enumerate(nodes):
            x = U(k)
            y = x[:d] + [Fr(s)] + x[d:]
            self.pts[("facet", c, d, s) + tuple(x)] = -1
            self.pts[("node", c) + tuple(y)] = (cl, d, s)
            out.append((x[::-1], w))
        x = U(len(nodes))
        self.pts[("facet", c, d, s) + tuple(x)] = 1
        out.append((x[::-1], 1 - sum((w for _, w in nodes), 0)))
        return out

    def bval(self, ev, q, x):
        if x and isinstance(ev.rv(x[0]), Obj):
            return NotImplemented
        if q.get("dom") is None:
            raise Undecided("polynomial evaluated before it is restricted to a cell")
        c = self.cell(*q["dom"])
        if "facet" in q:
            d, s = q["facet"] // 2, q["facet"] % 2
            k = ("facet", c, d, s) + tuple(x)
        else:
            k = ("cell", c) + tuple(x)
        if k in self.pts:
            return self.pts[k]
        k = ("node", c) + tuple(x)
        if k in self.pts:
            return -1 if self.pts[k][0] == "off" else 0
        return 1

    def bgrad(self, ev, q, x):
        c = self.cell(*q["dom"])
        cl, d, s = self.pts[("node", c) + tuple(x)]
        self.pts[tuple(x)] = (cl, d, s)
        return self.grad(ev, x)


class AlgB(Alg):
    """level set given by the Bezier object or by an opaque function"""

    def phi(self, ev, f, args, o):
        if isinstance(o, Obj) and "qv" in o.f:
            x = ev.rv(args[0])
            if not (x.d and isinstance(ev.rv(x.d[0]), Obj)):
                return self.o.bval(ev, o.f["qv"], list(x.d))
            u = Obj("qv::UF:phi")
            return Alg.phi(self, ev, f, args, u)
        return Alg.phi(self, ev, f, args, o)

    def grad(self, ev, f, args, o):
        if isinstance(o, Obj) and "qv" in o.f:
            return vec(self.o.bgrad(ev, o.f["qv"], list(ev.rv(args[0]).d)))
        return Alg.grad(self, ev, f, args, o)


def hooks_for(P, dim, orc):
    h = Bz.hooks(P, range(1, dim + 1), orc)
    a = AlgB(dim, orc)
    h.update(a.hooks())
    for n in range(1, dim + 1):
        h[IMPL + "BezierTP<%d, 1>::operator()" % n] = a.phi
        h[IMPL + "BezierTP<%d, 1>::grad" % n] = a.grad
    return h


def unfdom(ev, P, dim, ns, bezier=False, cells=None):
    cls = IMPL + "UnfittedImplDomain<%d>" % dim
    F = [F for F in find_ctor(P, cls) if len(F.params) == (2 if cells is None else 3)]
    if not F:
        raise AnalysisBroken("constructor of " + cls)
    g = grid(ev, dim, ns, breaks(ns))
    phi = Bz.make(IMPL + "BezierTP<%d, 1>" % dim, {}) if bezier else Obj("qv::UF:phi")
    return construct(ev, cls, [Ptr(phi), Ptr(g)] + ([] if cells is None else [stdvec(cells, "long")]), F[0])


def ask(ev, P, dim, o, name, *args):
    c = "qugar::UnfittedDomain<%d>" % dim
    F = [G for G in method(P, c, name) if len(G.params) == len(args) and not G.f.get("static")
         and all(("vector" in G.tu.types[p["t"]]) == isinstance(a, Arr) for p, a in zip(G.params, args))]
    if not F:
        raise AnalysisBroken("query %s of %s" % (name, c))
    return ev.rv(ev.call(F[0], list(args), o))


def cell_list(ev, P, dim, o, name, targets=None):
    out = stdvec([7, 7], "long")
    a = [out] if targets is None else [stdvec(targets, "long"), out]
    ask(ev, P, dim, o, name, *a)
    return list(out.d)


KINDS = ("full", "empty", "cut")


def cell_spec(events, n, only=None):
    """status each cell must have, from the answers algoim gave on this path"""
    ev = {c: set() for c in range(n)}
    for e in events:
        if e[0] == "sign" and e[2]:
            for c in e[1]:
                ev[c].add("full" if e[2] < 0 else "empty")
        elif e[0] == "volume":
            ev[e[1]].add(("empty", "full", "cut")[e[2]])
    return ev


def cells_job(P, d, ns, bez, tl, prof=None):
    """prof: what the quadratures of all the facets say ("full" or "empty"; None: part of each facet)"""
    N = len(cells_of(ns))
    rs, called, npaths = {}, set(), 0

    def note(rule, ok, det=""):
        if rs.get(rule, (True,))[0] is not False and (ok is not True or rule not in rs):
            rs[rule] = (ok, det)

    def run(ev):
        o = unfdom(ev, P, d, ns, bez, tl)
        st = [[ask(ev, P, d, o, "is_%s_cell" % k, c) for k in KINDS] for c in range(N)]
        ls = [cell_list(ev, P, d, o, "get_%s_cells" % k) for k in KINDS]
        nn = [ask(ev, P, d, o, "get_num_%s_cells" % k) for k in KINDS + ("total",)]
        t = [c for c in range(N) if (c * 7 + len(ev.events)) % 3 != 1][::-1]
        if tl is not None:
            t = list(dict.fromkeys(tl))
        lt = [cell_list(ev, P, d, o, "get_%s_cells" % k, t) for k in KINDS]
        unf = [ask(ev, P, d, o, "is_cell_with_unf_bdry", c) for c in range(N)]
        fu = [ask(ev, P, d, o, "is_full_with_unf_bdry_cell", c) for c in range(N)]
        return st, ls, nn, t, lt, unf, fu

    def oracle():
        orc = Oracle(d, ns, P)
        if prof:
            for c in range(N):
                for f in range(2 * d):
                    orc.facets[c, f // 2, f % 2] = [("off", Fr(1))] if prof == "full" else []
        return orc

    try:
        for ev, out, r in paths(lambda: Eval(P, hooks=hooks_for(P, d, oracle()), max_steps=4000000), run, 6000):
            npaths += 1
            if npaths == 1:
                called = {G.q for G in ev.called}
            if out == "oob":
                note("one status per cell", False, str(r))
                continue
            if out != "ok":
                note("one status per cell", None if out == "end" else False, "construction of the domain fails: %s" % (r,))
                continue
            st, ls, nn, t, lt, unf, fu = r
            spec = cell_spec(ev.events, N)
            for c in range(N):
                if any(not isinstance(v, bool) for v in st[c]):
                    note("one status per cell", None, "status not decided")
                    continue
                got = [k for k, v in zip(KINDS, st[c]) if v]
                if tl is not None and c not in tl:
                    note("cells outside the requested set have no status", not got, "cell %d, not requested, is %s" % (c, got))
                    continue
                note("one status per cell", len(got) == 1, "cell %d is %s after the answers %s" % (c, got or "in no class", ev.events[-6:]))
                note("status follows the sign or the volume", any(k in spec[c] for k in got) or not got,
                     "cell %d is %s; a box covering it or its quadrature says %s" % (c, got, sorted(spec[c]) or "nothing"))
                volfull = any(e[0] == "volume" and e[1] == c and e[2] == 1 for e in ev.events) and "full" in got and prof != "full"
                note("cells with an unfitted boundary", bool(fu[c]) == volfull and bool(unf[c]) == (volfull or "cut" in got),
                     "cell %d (%s): has an unfitted boundary: %s, full with unfitted boundary: %s" % (c, got, unf[c], fu[c]))
            for k, l, n, l2 in zip(KINDS, ls, nn, lt):
                want = [c for c in range(N) if st[c][KINDS.index(k)]]
                note("lists of cells", l == want, "get_%s_cells returns %s, the cells with that status are %s" % (k, l, want))
                note("numbers of cells", n == len(want), "get_num_%s_cells returns %s for %s" % (k, n, want))
                w2 = sorted({c for c in t if c in want})
                note("lists of requested cells", l2 == w2, "get_%s_cells on %s returns %s instead of %s" % (k, t, l2, w2))
            note("numbers of cells", nn[3] == N, "total number of cells %s" % nn[3])
    except AnalysisBroken:
        raise
    except Exception as e:
        note("one status per cell", None, "%s: %s" % (type(e).__name__, e))
    return rs, npaths, called


def run_C10(ctx):
    P = core()
    T = ctx.thorough
    sizes = {2: [(2, 1), (1, 3)] + ([(2, 2), (4, 1)] if T else []), 3: [(1, 2, 1), (2, 1, 1), (1, 1, 2)] + ([(1, 1, 3), (2, 1, 2)] if T else [])}
    cfg = []
    for d in (2, 3):
        for ns in sizes[d]:
            N = len(cells_of(ns))
            for k in range(1, N + 1):
                for t in itertools.combinations(range(N), k):
                    if N <= 3 or len(t) in (1, 3):
                        cfg.append((d, ns, False, [c for c in t[::-1]]))
            cfg.append((d, ns, False, None))
            if N <= 2:
                cfg += [(d, ns, False, None, "full"), (d, ns, False, None, "empty"), (d, ns, False, [0, 0]), (d, ns, False, [1, 0, 1])]
            if N <= (3 if T else 2):
                cfg.append((d, ns, True, None))
    cfg.sort(key=lambda c: -len(cells_of(c[1])) * (2 if c[2] else 1))
    for (d, ns, bez, tl, *prof), (rs, npaths, called) in zip(cfg, par([lambda c=c: cells_job(P, *c) for c in cfg])):
        name = "%dD grid %s%s%s%s" % (d, "x".join(map(str, ns)), ", polynomial" if bez else "", "" if tl is None else ", cells %s" % (tl,),
                                      ", %s facets" % prof[0] if prof else "")
        for q in called:
            ctx.unit("functions", q)
        ctx.unit("combinations of answers", "%s: %d" % (name, npaths))
        F = find_ctor(P, IMPL + "UnfittedImplDomain<%d>" % d)[-1 if tl is None else 0]
        for rule, (ok, det) in rs.items():
            ctx.ob(rule, name, ok, wh(F), det)


# ---------------------------------------------------------------- facets
TABLE = {  # full, empty, cut, full unfitted, unfitted boundary, external boundary
    "cut": (0, 0, 1, 0, 0, 0), "full": (1, 0, 0, 0, 0, 0), "empty": (0, 1, 0, 0, 0, 0), "cut_unf_bdry": (0, 0, 1, 0, 1, 0), "cut_ext_bdry": (0, 0, 1, 0, 0, 1),
    "cut_unf_bdry_ext_bdry": (0, 0, 1, 0, 1, 1), "full_unf_bdry": (0, 0, 0, 1, 1, 0), "full_ext_bdry": (0, 1, 0, 0, 0, 1), "unf_bdry": (0, 0, 0, 0, 1, 0),
    "ext_bdry": (0, 1, 0, 0, 0, 1), "unf_bdry_ext_bdry": (0, 0, 0, 0, 1, 1)}
QUERIES = ("is_full_facet", "is_empty_facet", "is_cut_facet", "is_full_unfitted_facet", "has_unfitted_boundary", "has_external_boundary")
LISTS = ("get_full_facets", "get_empty_facets", "get_cut_facets", "get_full_unfitted_facets", "get_unfitted_facets")
COMBOS = [(), ("out",), ("in",), ("tilt",), ("off",), ("out", "in"), ("off", "out"), ("in", "off"), ("out", "off", "in"), ("tilt", "off"), ("off", "off"), ("out", "out"), ("in", "in"), ("tilt", "tilt"), ("tilt", "out")]


def facet_spec(cellkind, nodes, full):
    if not nodes:
        return "full_unf_bdry" if cellkind == "fullu" else "empty"
    e, u, c = "in" in nodes, "out" in nodes, "off" in nodes
    if cellkind == "fullu" and not c:
        return "full_unf_bdry"
    s = ("cut" if c else "") + ("_unf_bdry" if u else "") + ("_ext_bdry" if e else "")
    s = s.lstrip("_") or "empty"
    if full and len(nodes) == 1 and s in ("unf_bdry", "ext_bdry"):
        return "full_" + s
    if full and s == "cut":
        return "full"
    return s


def run_C11(ctx):
    P = core()
    U = "qugar::UnfittedDomain<%d>"
    en = P.enums.get("qugar::ImmersedFacetStatus")
    jobs = []
    for d in (2, 3):
        if en:
            for q, k in zip(QUERIES, range(6)):
                F = [G for G in method(P, U % d, q) if len(G.params) == 1]
                if not F:
                    raise AnalysisBroken("predicate %s on a status" % q)
                for s, v in sorted(en.items()):
                    if s in TABLE:
                        ctx.attempt("predicates on statuses", "%dD %s(%s)" % (d, q, s), lambda F=F, v=v, s=s, k=k, q=q: (
                            lambda r: (bool(r) == bool(TABLE[s][k]), "%s(%s) is %s" % (q, s, r)))(Eval(P).rv(Eval(P).call(F[0], [v], None))), wh(F[0]))
        ns = {2: (3, 1), 3: (1, 3, 1)}[d]
        nf = 2 * d
        cases = [(cb, full) for cb in COMBOS for full in (True, False) if cb or not full]
        for bez in (False, True):
            for kind in ("cut", "fullu"):
                for i in range(len(cases)):
                    if not ctx.thorough and bez and i % 2:
                        continue
                    orc = Oracle(d, ns, P)
                    orc.forced = {0: "neg", 1: kind, 2: "pos"}
                    want = []
                    for f in range(nf):
                        cb, full = cases[(i + f * 5) % len(cases)]
                        tot = Fr(1) if full else Fr(2, 5)
                        w = [tot / len(cb)] * len(cb) if cb else []
                        orc.facets[1, f // 2, f % 2] = list(zip(cb, w))
                        want.append((facet_spec(kind, cb, full), cb, full))
                    name = "%dD, %s%s, case %d" % (d, "cut cell" if kind == "cut" else "full cell with unfitted boundary", ", polynomial" if bez else "", i)
                    jobs.append((d, ns, bez, orc, name, want, nf, kind, False))
        # a full cell all of whose facets are full has no boundary left
        orc = Oracle(d, ns, P)
        orc.forced = {0: "neg", 1: "fullu", 2: "pos"}
        for f in range(nf):
            orc.facets[1, f // 2, f % 2] = [("off", Fr(1))]
        jobs.append((d, ns, False, orc, "%dD, full cell with full facets" % d, [("full", ("off",), True)] * nf, nf, "fullu", True))
        # a domain made of some of the cells only: the others have no facets of any kind
        for tl in ([1, 0], [2, 1]):
            orc = Oracle(d, ns, P)
            orc.forced = {0: "neg", 1: "cut", 2: "pos"}
            jobs.append((d, ns, False, orc, "%dD, cut cell, domain of the cells %s" % (d, tl), [("cut", ("off",), False)] * nf, nf, "cut", False, tl))
    for obs, called in par([lambda j=j: one_facets(P, *j) for j in jobs]):
        for q in called:
            ctx.unit("functions", q)
        for o in obs:
            ctx.ob(*o)


def one_facets(P, d, ns, bez, orc, name, want, nf, kind, nobdry, tl=None):
    obs, called = [], set()
    ob = lambda *a: obs.append(a)
    N = 3
    F = need(P, "qugar::UnfittedDomain<%d>" % d, "get_cut_facets")
    holder = {}

    def run():
        ev = Eval(P, hooks=hooks_for(P, d, orc), max_steps=4000000)
        o = unfdom(ev, P, d, ns, bez, tl)
        ext = {(c, f): ask(ev, P, d, o, "is_exterior_facet", c, f) for c in range(N) for f in range(nf)}
        q = {(c, f): tuple(ask(ev, P, d, o, n, c, f) for n in QUERIES) for c in range(N) for f in range(nf)}
        ls = {}
        tg = [(c, f) for c in (1, 0, 2, 1) for f in (2, 0, nf - 1, 1, 1)]
        for n in LISTS:
            a, b = stdvec([5], "long"), stdvec([5, 5], "int")
            ask(ev, P, d, o, n, a, b)
            ls[n] = (list(a.d), list(b.d))
            a, b = stdvec([5], "long"), stdvec([5, 5], "int")
            ask(ev, P, d, o, n, stdvec([c for c, _ in tg], "long"), stdvec([f for _, f in tg], "int"), a, b)
            ls[n + "*"] = (list(a.d), list(b.d))
        unf = ask(ev, P, d, o, "has_facets_with_unf_bdry")
        wb = [ask(ev, P, d, o, "is_cell_with_unf_bdry", c) for c in range(N)]
        if ev.taken:
            raise Undecided("the status depends on a value the specification leaves open")
        for G in ev.called:
            called.add(G.q)
        holder.update(ext=ext, q=q, ls=ls, tg=tg, unf=unf, wb=wb)
        return True, ""

    try:
        run()
    except AnalysisBroken:
        raise
    except Oob as e:
        ob("facet status", name, False, wh(F), "%s for valid arguments" % e)
        return obs, called
    except Undecided as e:
        ob("facet status", name, None, wh(F), str(e))
        return obs, called
    except Exception as e:
        ob("facet status", name, None, wh(F), "analysis gave up: %s: %s" % (type(e).__name__, e))
        return obs, called
    q, ls, tg = holder["q"], holder["ls"], holder["tg"]
    show = lambda v: "{%s}" % ", ".join(n for n, x in zip(QUERIES, v) if x)
    for f, (s, cb, full) in enumerate(want):
        exp = tuple(bool(x) for x in TABLE[s])
        got = tuple(bool(x) for x in q[1, f])
        ob("facet status", "%s, facet %d" % (name, f), got == exp, wh(F),
               "facet %d of a %s with quadrature points %s covering %s of it: %s, expected %s" % (f, kind, cb, "all" if full else "part", show(got), show(exp)))
    idx = list(itertools.product(*[range(n) for n in reversed(ns)]))
    wext = {(c, f): idx[c][d - 1 - f // 2] == (0, ns[f // 2] - 1)[f % 2] for c in range(N) for f in range(nf)}
    bad = [k for k in wext if bool(holder["ext"][k]) != wext[k]]
    ob("exterior facets", name, not bad, wh(F), "is_exterior_facet is wrong for the (cell, facet) %s" % bad[:3])
    for c, s in ((0, "full"), (2, "empty")):
        if tl is not None and c not in tl:
            bad = [f for f in range(nf) if any(q[c, f])]
            ob("facets of cells outside the domain", "%s, cell %d" % (name, c), not bad, wh(F), "facets %s of a cell without status: %s" % (bad, bad and show(q[c, bad[0]])))
            continue
        bad = [f for f in range(nf) if tuple(bool(x) for x in q[c, f]) != tuple(bool(x) for x in TABLE[s])]
        ob("facets of cells without unfitted boundary", "%s, %s cell" % (name, s), not bad, wh(F), "facets %s of a cell that is %s" % (bad, s))
    for i, n in enumerate(LISTS):
        i = 4 if n == "get_unfitted_facets" else i
        exp = sorted(k for k in q if q[k][i])
        got = list(zip(*ls[n]))
        ok = len(ls[n][0]) == len(ls[n][1]) and sorted(got) == exp
        ob("lists of facets", "%s, %s" % (name, n), ok, wh(F), "%s returns cells %s facets %s; %s holds for %s" % (n, ls[n][0], ls[n][1], QUERIES[i], exp))
        exp = [k for k in tg if q[k][i]]
        got = list(zip(*ls[n + "*"]))
        ok = len(ls[n + "*"][0]) == len(ls[n + "*"][1]) and got == exp
        ob("lists of requested facets", "%s, %s" % (name, n), ok, wh(F), "%s on requested facets returns %s, expected %s" % (n, got, exp))
    ob("domain has facets on the unfitted boundary", name, bool(holder["unf"]) == any(v[4] for v in q.values()), wh(F), "has_facets_with_unf_bdry() is %s" % holder["unf"])
    if nobdry:
        ob("full cell without boundary", name, holder["wb"] == [False] * 3, wh(F), "cells with unfitted boundary: %s" % holder["wb"])
    return obs, called
