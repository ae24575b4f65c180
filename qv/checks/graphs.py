"""C16: reparameterization of a cell cut by a level set.

The level set is an affine function with symbolic coefficients (or a quadric);
the branches follow a representative of each arrangement of the zero set with
respect to the cell, and the extracted mesh (nodes as terms over the
coefficients) is compared with the exact inside part on the whole region of
coefficients that take the same branches."""
import itertools, math
import numpy as np
from .. import terms as tm
from ..cxxsym import *
from ..algmodel import Alg
from ..par import par
from ..report import wh
from .reparam import M, impl, new, state, coords, tids, edges, get, cbox, xnode, fill

SIGN = {-1: (-1,), 1: (1,), 0: (0,)}


class LevelSet:
    """value, gradient, bounds on boxes and roots along lines, as terms"""

    def __init__(self, kind, dim, coef, names):
        self.kind, self.dim = kind, dim
        self.guide = dict(zip(names, coef))
        self.s = [tm.sym(n) for n in names]

    def value(self, x):
        d = self.dim
        if self.kind == "affine":
            r = self.s[d]
            for a, c in zip(self.s, x):
                r = tm.add(r, tm.mul(a, c))
            return r
        # ball |x - c|^2 - r^2, or its complement
        r = tm.neg(tm.mul(self.s[d], self.s[d]))
        for a, c in zip(self.s, x):
            t = tm.sub(c, a)
            r = tm.add(r, tm.mul(t, t))
        return r if self.kind == "ball" else tm.neg(r)

    def grad(self, x):
        if self.kind == "affine":
            return self.s[: self.dim]
        return [tm.mul(2 if self.kind == "ball" else -2, tm.sub(c, a)) for a, c in zip(self.s, x)]

    def bounds(self, mid, rad):
        """(value at the centre, maximal deviation)"""
        v = self.value(mid)
        dev = 0
        for g, r in zip(self.grad(mid), rad):
            dev = tm.add(dev, tm.mul(tm.fn("abs", g), r))
            if self.kind != "affine":
                dev = tm.add(dev, tm.mul(r, r))
        return v, dev

    def gbounds(self, mid, rad):
        return [(g, 0 if self.kind == "affine" else tm.mul(2, r)) for g, r in zip(self.grad(mid), rad)]

    def roots(self, x, k):
        """all the roots along direction k, in order, with their discriminant"""
        if self.kind == "affine":
            rest = self.s[self.dim]
            for i, (a, c) in enumerate(zip(self.s, x)):
                if i != k:
                    rest = tm.add(rest, tm.mul(a, c))
            return None, [tm.div(tm.neg(rest), self.s[k])]
        h = tm.mul(self.s[self.dim], self.s[self.dim])
        for i, (a, c) in enumerate(zip(self.s, x)):
            if i != k:
                t = tm.sub(c, a)
                h = tm.sub(h, tm.mul(t, t))
        q = tm.fn("sqrt", h)
        return h, [tm.sub(self.s[k], q), tm.add(self.s[k], q)]


class Quadric(LevelSet):
    """(x - c) Q (x - c) + g with a given symmetric matrix Q, symbolic c and g"""

    def __init__(self, Q, c, g):
        d = len(Q)
        self.Q, self.dim, self.kind = Q, d, "quadric"
        names = ["c%d" % i for i in range(d)] + ["g"]
        self.guide = dict(zip(names, list(c) + [g]))
        self.s = [tm.sym(n) for n in names]

    def form(self, y, z):
        r = 0
        for i in range(self.dim):
            for j in range(self.dim):
                if self.Q[i][j]:
                    r = tm.add(r, tm.mul(self.Q[i][j], tm.mul(y[i], z[j])))
        return r

    def rel(self, x):
        return [tm.sub(a, c) for a, c in zip(x, self.s)]

    def value(self, x):
        y = self.rel(x)
        return tm.add(self.form(y, y), self.s[self.dim])

    def grad(self, x):
        y = self.rel(x)
        out = []
        for i in range(self.dim):
            r = 0
            for j in range(self.dim):
                if self.Q[i][j]:
                    r = tm.add(r, tm.mul(2 * self.Q[i][j], y[j]))
            out.append(r)
        return out

    def bounds(self, mid, rad):
        dev = 0
        for g, r in zip(self.grad(mid), rad):
            dev = tm.add(dev, tm.mul(tm.fn("abs", g), r))
        for i in range(self.dim):
            for j in range(self.dim):
                if self.Q[i][j]:
                    dev = tm.add(dev, tm.mul(abs(self.Q[i][j]), tm.mul(rad[i], rad[j])))
        return self.value(mid), dev

    def gbounds(self, mid, rad):
        out = []
        for i, g in enumerate(self.grad(mid)):
            dev = 0
            for j in range(self.dim):
                if self.Q[i][j]:
                    dev = tm.add(dev, tm.mul(2 * abs(self.Q[i][j]), rad[j]))
            out.append((g, dev))
        return out

    def roots(self, x, k):
        y = self.rel(x)
        y[k] = 0
        A = self.Q[k][k]
        B = 0
        for j in range(self.dim):
            if j != k and self.Q[k][j]:
                B = tm.add(B, tm.mul(2 * self.Q[k][j], y[j]))
        C = tm.add(self.form(y, y), self.s[self.dim])
        if A == 0:
            if isinstance(B, int) and B == 0:
                return None, []
            return tm.fn("abs", B), [tm.sub(self.s[k], tm.div(C, B))]
        h = tm.sub(tm.mul(B, B), tm.mul(4 * A, C))
        q = tm.fn("sqrt", h)
        r = [tm.add(self.s[k], tm.div(t, 2 * A)) for t in (tm.sub(tm.neg(B), q), tm.add(tm.neg(B), q))]
        return h, r if A > 0 else r[::-1]


class Model(Alg):
    """algoim's interface for a level set given by terms"""

    def __init__(self, dim, ls, ends):
        Alg.__init__(self, dim, None)
        self.ls, self.ends = ls, ends
        self.found = []

    def hooks(self):
        h = Alg.hooks(self)
        for n in (1, 2, 3):
            T = "algoim::Interval<%d>" % n
            h[T + "::uniformSign"] = lambda ev, f, a, o: tm.cmp("<", self.dev(o), tm.fn("abs", o.f["alpha"]))
            h[T + "::maxDeviation"] = lambda ev, f, a, o: self.dev(o)
            h[T + "::maxAbs"] = lambda ev, f, a, o: tm.add(tm.fn("abs", o.f["alpha"]), self.dev(o))
            h[T + "::sign"] = lambda ev, f, a, o: self.isign(ev, o)
            p = "algoim::PsiCode<%d>" % n
            h[p + "::side"] = lambda ev, f, a, o: self.code(o, "sides")[ev.rv(a[0])]
            h[p + "::sign"] = lambda ev, f, a, o: self.code(o, "sign")
        h["algoim::detail::determineSigns"] = self.signs
        h["algoim::detail::rootFind"] = self.rootfind
        h["ctor:algoim::PsiCode"] = self.psi
        h["algoim::bernstein::modifiedChebyshevNode"] = lambda ev, f, a, o: xnode(ev.rv(a[0]), ev.rv(a[1])) if ev.rv(a[1]) >= 7 else 0.5 - 0.5 * math.cos(math.pi * ev.rv(a[0]) / (ev.rv(a[1]) - 1))
        return h

    def code(self, o, what):
        if what not in o.f:
            raise Oob("a condition that was never set is read")
        return o.f[what]

    def dev(self, o):
        if "dev" in o.f:
            return o.f["dev"]
        raise Undecided("deviation of an interval that is not a value of the level set")

    def isign(self, ev, o):
        if not ev.decide(tm.cmp("<", self.dev(o), tm.fn("abs", o.f["alpha"]))):
            return 0
        return 1 if ev.decide(tm.cmp("<", 0, o.f["alpha"])) else -1

    def psi(self, ev, cls, args):
        v = [ev.rv(a) for a in args]
        o = Obj(cls)
        n = int(cls.split("<")[1].split(">")[0])
        if not v:
            pass
        elif len(v) == 2:
            s = v[0]
            o.f["sides"], o.f["sign"] = [ev.rv(x) for x in s.d] if isinstance(s, Arr) else [s] * n, v[1]
        elif len(v) == 4:
            o.f["sides"], o.f["sign"] = list(v[0].f["sides"]), v[3]
            o.f["sides"][v[1]] = v[2]
        else:
            return NotImplemented
        return o

    def signs(self, ev, f, args, o):
        """Saye 2015: sgn_{L,U}(m, s, S) = -/+ m if m = -/+ s or S, else 0"""
        above, s = ev.rv(args[0]), ev.rv(args[1])
        above = ev.decide(above)
        m = 1 if above else -1
        S = f.get("ta", [""])[0] in ("true", "1")
        args[2].set(-m if S or m == -s else 0)
        args[3].set(m if S or m == s else 0)
        return None

    def box(self, ev, x):
        dl = ev.statics.get("algoim delta")
        mid, rad = [], []
        for i, c in enumerate(x.d):
            c = ev.rv(c)
            b = c.f["beta"]
            bs = [0] * self.dim if b is None else [num0(v) for v in b.d]
            if num0(c.f["eps"]) != 0 or any(bs[j] not in (0, 1) or (bs[j] and j != i) for j in range(self.dim)):
                raise Undecided("interval argument of the level set")
            mid.append(c.f["alpha"])
            if bs[i]:
                if dl is None:
                    raise Undecided("size of the interval not set")
                rad.append(dl.d[i])
            else:
                rad.append(0)
        return mid, rad

    def interval(self, v, dev):
        o = Obj("algoim::Interval<%d>" % self.dim)
        o.f.update(alpha=v, beta=None, eps=0, sgn=None, dev=dev)
        return o

    def phi(self, ev, f, args, o):
        if not (isinstance(o, Obj) and o.cls.startswith("qv::UF:")):
            return NotImplemented
        x = ev.rv(args[0])
        if isinstance(ev.rv(x.d[0]), Obj):
            return self.interval(*self.ls.bounds(*self.box(ev, x)))
        return self.ls.value(list(x.d))

    def grad(self, ev, f, args, o):
        if not (isinstance(o, Obj) and o.cls.startswith("qv::UF:")):
            return NotImplemented
        x = ev.rv(args[0])
        if isinstance(ev.rv(x.d[0]), Obj):
            et = "algoim::Interval<%d>" % self.dim
            return vec([self.interval(*v) for v in self.ls.gbounds(*self.box(ev, x))], et)
        return vec(self.ls.grad(list(x.d)))

    def rootfind(self, ev, f, args, o):
        v = [ev.rv(a) for a in args]
        x, k, lo, hi = list(v[1].d), v[2], v[3], v[4]
        if isinstance(f, object) and not isinstance(k, int):
            raise Undecided("direction of a line")
        out = v[5]
        h, rs = self.ls.roots(x, k)
        got = []
        if h is None or ev.decide(tm.cmp("<", 0, h)):
            for r in rs:
                # a root at an end of the line is found or not
                tol = 1e-11
                e0, e1 = tm.fn("abs", tm.sub(r, lo)), tm.fn("abs", tm.sub(r, hi))
                if ev.decide(tm.cmp("<", e0, tol)) or ev.decide(tm.cmp("<", e1, tol)):
                    if self.ends:
                        got.append(r)
                    continue
                if ev.decide(tm.cmp("<", lo, r)) and ev.decide(tm.cmp("<", r, hi)):
                    got.append(r)
        for r in got:
            out.d.append(r)
        return None


def num0(v):
    if isinstance(v, tm.T):
        raise Undecided("symbolic coefficient of an interval")
    if isinstance(v, (int, float)) or hasattr(v, "numerator"):
        return v
    return 0  # algoim's vectors are zero unless set


class Guide:
    def __init__(self, vals):
        self.g = dict(vals)
        self.v = {n: np.array([x, x], float) for n, x in vals.items()}
        self.memo, self.keep, self.K = {}, [], 2

    def get(self, name):
        return self.v[name]

    def __call__(self, ev, c):
        try:
            v, m = tm.evalt(c, self)
        except KeyError:
            return None
        if not np.isfinite(v[0]):
            raise Undecided("value of a condition")
        return bool(v[0])


# ------------------------------------------------------------- the exact parts
def clip(poly, f):
    """part of a polygon where f <= 0 (f affine on it)"""
    out = []
    for i, p in enumerate(poly):
        q = poly[(i + 1) % len(poly)]
        a, b = f(p), f(q)
        if a <= 0:
            out.append(p)
        if (a < 0 < b) or (b < 0 < a):
            t = a / (a - b)
            out.append([u + t * (v - u) for u, v in zip(p, q)])
    return out


def faces(lo, hi):
    d = len(lo)
    out = []
    for k in range(d):
        for s in (0, 1):
            o = [i for i in range(d) if i != k]
            cs = []
            for t in ((0, 0), (1, 0), (1, 1), (0, 1)):
                p = [0.0] * d
                p[k] = (lo, hi)[s][k]
                for i, b in zip(o, t):
                    p[i] = (lo, hi)[b][i]
                cs.append(p)
            out.append((2 * k + s, cs))
    return out


def parea(poly):
    if len(poly) < 3:
        return 0.0
    p = np.array(poly, float)
    a = np.zeros(3)
    for i in range(1, len(p) - 1):
        u, v = np.zeros(3), np.zeros(3)
        u[: p.shape[1]], v[: p.shape[1]] = p[i] - p[0], p[i + 1] - p[0]
        a += np.cross(u, v)
    return float(np.linalg.norm(a)) / 2


def halfspace(a, lo, hi):
    """measures of the inside part of a box, of the section, of the inside parts of the
    facets, and length of the inside edges, for phi = a[:d].x + a[d]"""
    d = len(lo)
    f = lambda p: sum(u * v for u, v in zip(a, p)) + a[d]
    r = {}
    if d == 2:
        sq = [[lo[0], lo[1]], [hi[0], lo[1]], [hi[0], hi[1]], [lo[0], hi[1]]]
        r["in"] = parea(clip(sq, f))
        fl, cross = {}, []
        for k in (0, 1):
            for s in (0, 1):
                p, q = list(lo), list(hi)
                p[k] = q[k] = (lo, hi)[s][k]
                u, v = f(p), f(q)
                L = math.dist(p, q)
                fr = 1.0 if u <= 0 and v <= 0 else 0.0 if u > 0 and v > 0 else min(u, v) / (min(u, v) - max(u, v))
                if (u < 0) != (v < 0):
                    t = u / (u - v)
                    cross.append([x + t * (y - x) for x, y in zip(p, q)])
                fl[2 * k + s] = fr * L
        r["facets"] = fl
        r["section"] = math.dist(cross[0], cross[1]) if len(cross) >= 2 else 0.0
        r["edges"] = sum(fl.values())
        r["trace"] = r["section"]
        return r
    # 3D: divergence theorem with apex p0 on the zero set
    cross, fl, ed, tr = [], {}, {}, 0.0
    p0 = None
    for k, (p, q) in enumerate(itertools.combinations([list(t) for t in itertools.product(*zip(lo, hi))], 2)):
        if sum(x != y for x, y in zip(p, q)) != 1:
            continue
        u, v = f(p), f(q)
        L = math.dist(p, q)
        ed[k] = (1.0 if u <= 0 and v <= 0 else 0.0 if u > 0 and v > 0 else min(u, v) / (min(u, v) - max(u, v))) * L
        if (u < 0) != (v < 0):
            t = u / (u - v)
            p0 = [x + t * (y - x) for x, y in zip(p, q)]
    volume = 0.0
    for fid, cs in faces(lo, hi):
        c = clip(cs, f)
        fl[fid] = parea(c)
        k, s = fid // 2, fid % 2
        if p0 is not None:
            volume += fl[fid] * abs((lo, hi)[s][k] - p0[k]) / 3
        z = []
        for i, p in enumerate(cs):
            q = cs[(i + 1) % 4]
            u, v = f(p), f(q)
            if (u < 0) != (v < 0):
                t = u / (u - v)
                z.append([x + t * (y - x) for x, y in zip(p, q)])
        if len(z) == 2:
            tr += math.dist(*z)
    r["in"] = volume if p0 is not None else (math.prod(u - l for l, u in zip(lo, hi)) if f(lo) < 0 else 0.0)
    r["facets"] = fl
    g = math.sqrt(sum(x * x for x in a[:3]))
    # section: the flux of a constant field through the closed boundary vanishes
    n = [x / g for x in a[:3]]
    k = max(range(3), key=lambda i: abs(n[i]))
    r["section"] = (fl[2 * k] - fl[2 * k + 1]) / n[k]
    r["edges"] = sum(ed.values())
    r["trace"] = tr
    return r


# ------------------------------------------------------------ measures of a mesh
def lagmat(n, xs, der):
    nd = [xnode(i, n) for i in range(n)]
    out = np.zeros((len(xs), n))
    for i in range(n):
        for q, x in enumerate(xs):
            if not der:
                out[q, i] = np.prod([(x - nd[j]) / (nd[i] - nd[j]) for j in range(n) if j != i])
            else:
                out[q, i] = sum(np.prod([(x - nd[j]) / (nd[i] - nd[j]) for j in range(n) if j not in (i, m)]) / (nd[i] - nd[m]) for m in range(n) if m != i)
    return out


def measures(X, dim, n, gp=None):
    """X: nodes x range x samples; (signed or absolute measure per sample, smallest density)"""
    gp = gp or n + 1
    xs, ws = np.polynomial.legendre.leggauss(gp)
    xs, ws = (xs + 1) / 2, ws / 2
    B, D = lagmat(n, xs, 0), lagmat(n, xs, 1)
    rg, K = X.shape[1], X.shape[2]
    ids = tids([n] * dim)
    tot, low = np.zeros(K), np.full(K, np.inf)
    for q in itertools.product(range(gp), repeat=dim):
        J = np.zeros((dim, rg, K))
        for k, t in enumerate(ids):
            for d in range(dim):
                c = 1.0
                for e in range(dim):
                    c *= (D if e == d else B)[q[e], t[e]]
                J[d] += c * X[k]
        w = np.prod([ws[i] for i in q])
        if dim == rg:
            v = J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0] if dim == 2 else np.einsum("ik,ik->k", J[0], np.cross(J[1], J[2], axis=0))
        elif dim == 1:
            v = np.sqrt((J[0] ** 2).sum(0))
        else:
            v = np.sqrt((np.cross(J[0], J[1], axis=0) ** 2).sum(0))
        tot += w * v
        low = np.minimum(low, v)
    return tot, low


def arrangements(d):
    """coefficients of affine functions on the box used below, in general position: how many
    corners are inside, which gradient component dominates, which signs"""
    out = []
    base = {2: [(1.0, 0.6), (0.45, 1.0), (1.0, 0.13)], 3: [(1.0, 0.6, 0.37), (0.45, 1.0, 0.71), (0.33, 0.52, 1.0), (1.0, 0.12, 0.55)]}[d]
    for b in base:
        for s in itertools.product((1, -1), repeat=d):
            for fr in (0.08, 0.3, 0.55, 0.8, 0.95) if d == 2 else (0.05, 0.2, 0.42, 0.62, 0.85, 0.97):
                out.append(([x * y for x, y in zip(b, s)], fr))
    return out


BOX = {2: ([0.25, -0.5], [0.75, 0.5]), 3: ([0.25, -0.5, 1.0], [1.0, 0.5, 1.75])}


def offset(a, lo, hi, fr):
    """constant that puts the zero set at a fraction of the range of a.x on the box"""
    v = [sum(x * y for x, y in zip(a, p)) for p in itertools.product(*zip(lo, hi))]
    return -(min(v) + fr * (max(v) - min(v)))


def entry(P, name, d, dim, order):
    """the overload of a routine that makes (order) or extends (not order) a mesh of ImplReparamMesh<dim, d>"""
    for F in freefn(P, IMPL + name):
        ts = [F.tu.types[p["t"]] for p in F.params]
        isord = "ImplReparamMesh" not in ts[-1]
        if "<%d" % d in ts[0] and isord == order and "ImplReparamMesh<%d, %d>" % (dim, d) in (F.d["rft"] if order else ts[-1]):
            return F
    raise AnalysisBroken("routine %s for ImplReparamMesh<%d, %d>" % (name, dim, d))


def obj(ev, r):
    o = ev.rv(r)
    while isinstance(o, Ptr):
        o = ev.rv(ev.deref(o))
    return o


def run_mesh(ev, P, name, phi, lo, hi, dim, rg, n, extra, first):
    if not first:
        F = entry(P, name, rg, dim, True)
        o = obj(ev, ev.call(F, [phi, cbox(ev, lo, hi)] + extra + [n], None))
    else:
        F = entry(P, name, rg, dim, False)
        o = new(ev, dim, rg, n)
        fill(ev, o, dim, rg, [FIRST(dim, rg, n)])
        ev.call(F, [phi, cbox(ev, lo, hi)] + extra + [o], None)
    return state(ev, o, dim, rg)


def FIRST(dim, rg, n):
    return [[7.0 + k + 0.1 * i for i in range(rg)] for k in range(n ** dim)]


def near_guide(ls, rel=0.004):
    m = max(abs(v) for v in ls.guide.values())
    return {k: (v - rel * m, v + rel * m) for k, v in ls.guide.items()}


def arr(S, pts):
    return np.array([[S.val(c)[0] for c in p] for p in pts])


def check_mesh(ctx, S, ev, st, ls, lo, hi, dim, rg, n, first, want, kind, tolm, ptol=1e-8):
    """list of (rule, ok, detail) for an extracted mesh"""
    cells, wires = coords(st)
    out = []
    if first:
        same = bool(cells) and cells[0] == FIRST(dim, rg, n)
        out.append(("the cells that the mesh already had are kept", same, "the first cell changed"))
        cells = cells[1:]
    ok = S.region(ev.pc)
    if ok.sum() < 3:
        return [("part of the cell", None, "region of the path not sampled")]
    tot = np.zeros(S.K)
    bad = None
    for c in cells:
        X = arr(S, c)
        for p, x in zip(c, X):
            for k in range(rg):
                if (x[k][ok] < lo[k] - 1e-9).any() or (x[k][ok] > hi[k] + 1e-9).any():
                    bad = bad or "a node outside the box: coordinate %d is %.6g" % (k, x[k][ok][0])
            v, m = S.val(ls.value(p))
            if kind == "surface" and (np.abs(v[ok]) > 1e-8 * (1 + m[ok])).any():
                bad = bad or "a node that is not on the zero set: value %.3g" % v[ok][0]
            elif (v[ok] > ptol * (1 + m[ok])).any():
                bad = bad or "a node where the function is positive: value %.3g" % v[ok][0]
        v, low = measures(X, dim, n)
        if dim == rg and (low[ok] < -1e-9).any():
            bad = bad or "a cell with negative orientation"
        tot += v
    out.append(("nodes in the inside part" if kind != "surface" else "nodes on the zero set", bad is None, bad or ""))
    ref, sel = [], np.flatnonzero(ok)[:4]
    for k in sel:
        w = want(k)
        ref.append(w["measure"])
        if abs(tot[k] - w["measure"]) > tolm * max(w["measure"], 1e-3):
            out.append(("the cells cover exactly the part", False, "measure of the %d cells %.9g, of the part %.9g" % (len(cells), tot[k], w["measure"])))
            break
        if w.get("wires") is not None:
            L, seen = 0.0, set()
            for q in wires:
                p = tuple(tuple(round(float(S.val(c)[0][k]), 7) for c in x) for x in q)
                p = min(p, p[::-1])
                if p in seen:
                    continue
                seen.add(p)
                L += sum(math.dist(a, b) for a, b in zip(p, p[1:]))
            if abs(L - w["wires"]) > 1e-5 * max(w["wires"], 1):
                out.append(("the wires are the edges of the part", False, "length of the wires %.9g, of the edges %.9g" % (L, w["wires"])))
                break
    else:
        out.append(("the cells cover exactly the part", True, ""))
        out.append(("the wires are the edges of the part", True, ""))
    return out


def affine_job(P, seed, d, a, fr, n, what, ends, first, axes=None):
    lo, hi = BOX[d]
    names = ["g%d" % i for i in range(d)] + ["g"]
    coef = list(a) + [offset(a, lo, hi, fr)]
    ls = LevelSet("affine", d, coef, names)
    mod = Model(d, ls, ends) if axes is None else PolyModel(d, ls, ends, axes, lo, hi)
    ev = Eval(P, hooks=mod.hooks(), max_steps=40000000)
    ev.uvzero = True
    ev.decider = Guide(ls.guide)
    phi = Obj("qv::UF:phi") if axes is None else mod.poly()
    S = Sampler(K=24, seed=seed, ranges=near_guide(ls))
    extra, dim, kind = [], d, "inside"
    big = max(map(abs, a)) > 10  # the tolerance of the wires is on the values of the function
    name = "reparam_general" if axes is None else "reparam_Bezier"
    if what == "surface":
        dim, kind = d - 1, "surface"
    elif what != "inside":
        extra, dim, kind, name = [what], d - 1, "facet", "reparam_general_facet"

    def want(k):
        c = [float(S.val(s)[0][k]) for s in ls.s]
        h = halfspace(c, lo, hi)
        if kind == "inside":
            return {"measure": h["in"], "wires": None if big else h["edges"] + h["trace"]}
        if kind == "surface":
            return {"measure": h["section"], "wires": h["trace"] if d == 3 and not big else None}
        return {"measure": h["facets"][what]}

    lab = "%dD %s, order %d, gradient %s, offset %.2f%s%s" % (d, what if not isinstance(what, int) else "facet %d" % what, n, [float(x) for x in a], fr, ", roots at the ends of lines" if ends else "", ", second block" if first else "") + ("" if axes is None else ", polynomial, directions eliminated %s" % sorted(axes.items(), reverse=True))
    F = entry(P, name, d, dim, not first)
    where = wh(F)
    try:
        st = run_mesh(ev, P, name, phi, lo, hi, dim, d, n, extra, first)
        if ev.taken:
            raise Undecided("branch that the representative does not decide")
        obs = [(r, lab, ok, where, det) for r, ok, det in check_mesh(None, S, ev, st, ls, lo, hi, dim, d, n, first, want, kind, 1e-6)]
    except Oob as e:
        obs = [("the cells cover exactly the part", lab, False, where, "access outside an array: %s" % e)]
    except CxxThrow as e:
        obs = [("the cells cover exactly the part", lab, False, where, "throws: %s" % e)]
    except Undecided as e:
        obs = [("the cells cover exactly the part", lab, None, where, str(e))]
    return obs, {G.q for G in ev.called}


def ballpart(d, c, r, lo, hi, out):
    """measures of the part of a box inside (outside) of a ball, and of the sphere in it"""
    m = 400
    xs, ws = np.polynomial.legendre.leggauss(m)
    if d == 2:
        x = (lo[0] + hi[0]) / 2 + xs * (hi[0] - lo[0]) / 2
        h = np.sqrt(np.maximum(r * r - (x - c[0]) ** 2, 0))
        a, b = np.clip(c[1] - h, lo[1], hi[1]), np.clip(c[1] + h, lo[1], hi[1])
        v = float(((b - a) * ws).sum() * (hi[0] - lo[0]) / 2)
        th = (np.arange(200000) + 0.5) * 2 * np.pi / 200000
        p = [c[0] + r * np.cos(th), c[1] + r * np.sin(th)]
        s = r * 2 * np.pi * np.mean((p[0] > lo[0]) & (p[0] < hi[0]) & (p[1] > lo[1]) & (p[1] < hi[1]))
    else:
        x = (lo[0] + hi[0]) / 2 + xs * (hi[0] - lo[0]) / 2
        y = (lo[1] + hi[1]) / 2 + xs * (hi[1] - lo[1]) / 2
        q = (x[:, None] - c[0]) ** 2 + (y[None] - c[1]) ** 2
        h = np.sqrt(np.maximum(r * r - q, 0))
        a, b = np.clip(c[2] - h, lo[2], hi[2]), np.clip(c[2] + h, lo[2], hi[2])
        v = float(((b - a) * ws[:, None] * ws[None]).sum() * (hi[0] - lo[0]) * (hi[1] - lo[1]) / 4)
        z = (np.arange(1000) + 0.5) / 500 - 1
        th = (np.arange(2000) + 0.5) * 2 * np.pi / 2000
        rr = np.sqrt(1 - z * z)[:, None]
        p = [c[0] + r * rr * np.cos(th)[None], c[1] + r * rr * np.sin(th)[None], c[2] + r * z[:, None] + 0 * th[None]]
        s = 4 * np.pi * r * r * float(np.mean(np.logical_and.reduce([(q > l) & (q < u) for q, l, u in zip(p, lo, hi)])))
    t = np.prod([u - l for l, u in zip(lo, hi)])
    return {"inside": t - v if out else v, "surface": float(s)}


def ball_job(P, seed, d, c, r, n, what, out, ends):
    lo, hi = BOX[d]
    names = ["c%d" % i for i in range(d)] + ["r"]
    ls = LevelSet("hole" if out else "ball", d, list(c) + [r], names)
    mod = Model(d, ls, ends)
    ev = Eval(P, hooks=mod.hooks(), max_steps=200000000)
    ev.uvzero = True
    ev.decider = Guide(ls.guide)
    S = Sampler(K=24, seed=seed, ranges=near_guide(ls, 1e-7))
    dim, kind = (d, "inside") if what == "inside" else (d - 1, "surface")
    ref = ballpart(d, c, r, lo, hi, out)

    def want(k):
        return {"measure": ref[what]}

    lab = "%dD %s of a %s, centre %s, radius %.2f, order %d%s" % (d, what, "hole" if out else "ball", list(c), r, n, ", roots at the ends of lines" if ends else "")
    F = entry(P, "reparam_general", d, dim, True)
    where = wh(F)
    try:
        st = run_mesh(ev, P, "reparam_general", Obj("qv::UF:phi"), lo, hi, dim, d, n, [], False)
        if ev.taken:
            raise Undecided("branch that the representative does not decide")
        obs = [(r_, lab, ok, where, det) for r_, ok, det in check_mesh(None, S, ev, st, ls, lo, hi, dim, d, n, False, want, kind, 0.03 if d == 2 else 0.08)]
    except Oob as e:
        obs = [("the cells cover exactly the part", lab, False, where, "access outside an array: %s" % e)]
    except CxxThrow as e:
        obs = [("the cells cover exactly the part", lab, False, where, "throws: %s" % e)]
    except Undecided as e:
        obs = [("the cells cover exactly the part", lab, None, where, str(e))]
    return obs, {G.q for G in ev.called}


def quadpart(Q, c, g, lo, hi, fix=None):
    """measure of the part of a box (or of a facet of it) where a quadric is negative, and (2D) length of its zero set"""
    d = len(Q)
    Q, c = np.array(Q, float), np.array(c, float)
    free = [i for i in range(d) if fix is None or i != fix // 2]
    k = free[-1]
    m = 40000 if len(free) == 2 else 700
    ax = [lo[i] + (np.arange(m) + 0.5) * (hi[i] - lo[i]) / m for i in free[:-1]]
    gr = np.meshgrid(*ax, indexing="ij") if ax else []
    shape = gr[0].shape if ax else (1,)
    y = [np.zeros(shape) for _ in range(d)]
    for i, v in zip(free[:-1], gr):
        y[i] = v - c[i]
    if fix is not None:
        y[fix // 2] = np.full(shape, (lo, hi)[fix % 2][fix // 2] - c[fix // 2])
    A = Q[k, k]
    B = sum(2 * Q[k, j] * y[j] for j in range(d) if j != k)
    C = g + sum(Q[i, j] * y[i] * y[j] for i in range(d) for j in range(d) if i != k and j != k)
    a, b = lo[k] - c[k], hi[k] - c[k]
    with np.errstate(all="ignore"):
        if A == 0:
            r = [np.where(B != 0, -C / B, a)]
        else:
            q = np.sqrt(np.maximum(B * B - 4 * A * C, 0))
            none = B * B - 4 * A * C < 0
            r = [np.where(none, a, (-B - q) / (2 * A)), np.where(none, a, (-B + q) / (2 * A))]
    r = np.sort(np.stack([np.full(shape, a)] + [np.clip(v + 0 * C, a, b) for v in r] + [np.full(shape, b)]), axis=0)
    L = 0
    for u, v in zip(r[:-1], r[1:]):
        t = (u + v) / 2
        L = L + np.where(A * t * t + B * t + C < 0, v - u, 0)
    w = np.prod([(hi[i] - lo[i]) / m for i in free[:-1]]) if ax else 1.0
    out = {"part": float(L.sum() * w)}
    if d == 2 and fix is None:
        N = 1500
        X, Y = np.meshgrid(np.linspace(lo[0], hi[0], N + 1) - c[0], np.linspace(lo[1], hi[1], N + 1) - c[1], indexing="ij")
        F = Q[0, 0] * X * X + 2 * Q[0, 1] * X * Y + Q[1, 1] * Y * Y + g
        s, tot = F < 0, 0.0
        sq = s[:-1, :-1].astype(int) + s[1:, :-1] + s[:-1, 1:] + s[1:, 1:]
        for i, j in np.argwhere((sq > 0) & (sq < 4)):
            p = []
            cs = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
            for e, (u, v) in enumerate(zip(cs, cs[1:] + cs[:1])):
                if s[u] != s[v]:
                    t = F[u] / (F[u] - F[v])
                    p.append((X[u] + t * (X[v] - X[u]), Y[u] + t * (Y[v] - Y[u])))
            if len(p) == 2:
                tot += math.dist(*p)
        out["length"] = tot
    return out


# matrix, centre, constant, order, what, roots at the ends found, tolerance of the measure (interpolation)
QUADRICS = [
    ([[0.49, 0], [0, 1.2]], [0.3433, -0.3633], -0.213, 5, 0, False, 0.01),
    ([[0, 0.5], [0.5, 0]], [0.2936, 0.2787], 0.0, 5, 'inside', True, 0.01),
    ([[0, 0.5], [0.5, 0]], [0.6919, -0.3644], 0.0, 5, 'inside', True, 0.01),
    ([[0.47, 0.3], [0.3, 0.85]], [0.1579, 0.2685], -0.264, 5, 3, True, 0.01),
    ([[1.16, 0.3], [0.3, 0.46]], [0.2602, 0.4288], -0.081, 5, 'surface', True, 0.01),
    ([[1.1, 0], [0, -0.7]], [0.3724, 0.6688], 0.115, 5, 'surface', False, 0.01),
    ([[0, 0.5], [0.5, 0]], [0.7182, -0.1259], 0.0, 5, 'inside', True, 0.01),
    ([[1.03, -0.4], [-0.4, 0.51]], [0.8839, -0.4896], -0.101, 5, 0, False, 0.01),
    ([[0, 0.5], [0.5, 0]], [0.3951, -0.3796], 0.0, 5, 'surface', False, 0.01),
    ([[-1.15, 0], [0, -0.79]], [0.0802, -0.5018], 0.229, 5, 'surface', False, 0.01),
    ([[0.65, 0.3], [0.3, 0.68]], [0.726, 0.2579], 0.042, 5, 'surface', True, 0.01),
    ([[1.16, 0.3], [0.3, -1.09]], [0.5141, 0.4197], -0.283, 5, 2, True, 0.01),
    ([[0.25, -0.4], [-0.4, 0.83]], [0.7757, -0.0716], 0.103, 5, 3, True, 0.01),
    ([[0.34, 0, -0.4], [0, -1.12, 0.3], [-0.4, 0.3, 0.23]], [0.4733, 0.2583, 1.472], 0.172, 3, 'inside', False, 0.02),
    ([[1.08, -0.4, -0.4], [-0.4, -0.51, 0], [-0.4, 0, 1.11]], [0.2151, -0.2441, 1.6338], 0.073, 3, 'inside', True, 0.02),
    ([[0.44, -0.4, 0.3], [-0.4, -0.75, 0], [0.3, 0, -0.58]], [0.7913, -0.6592, 1.0003], 0.062, 3, 3, True, 0.02),
    ([[-0.96, -0.4, 0], [-0.4, 0.77, 0], [0, 0, 0.92]], [1.1186, -0.0139, 1.1839], -0.117, 4, 'inside', True, 0.02),
    ([[0.75, 0.3, 0.3], [0.3, 0.7, -0.4], [0.3, -0.4, -0.83]], [0.3203, 0.5466, 1.0408], -0.276, 3, 5, False, 0.02),
    ([[0.36, -0.4, 0], [-0.4, 0.73, -0.4], [0, -0.4, 0.6]], [0.6565, -0.0232, 0.9195], -0.186, 3, 2, True, 0.02),
    ([[0.52, 0.3, 0], [0.3, -0.26, 0], [0, 0, -0.84]], [0.4046, -0.5391, 1.2193], 0.286, 3, 1, True, 0.02),
    ([[1.19, 0.3, 0.3], [0.3, 0.73, 0.3], [0.3, 0.3, 0.47]], [1.1825, -0.2777, 1.248], -0.2, 3, 1, False, 0.02),
    ([[0.42, -0.4, 0.3], [-0.4, 0.27, -0.4], [0.3, -0.4, 0.79]], [0.3176, -0.5013, 1.8694], -0.018, 3, 1, True, 0.02),
    ([[0.67, 0.3, 0], [0.3, 0.96, 0], [0, 0, 0.31]], [1.1099, -0.177, 1.9292], -0.019, 4, 1, False, 0.02),
    ([[-0.33, 0.3, -0.4], [0.3, 0.24, 0], [-0.4, 0, -0.43]], [0.2345, 0.6772, 1.4684], 0.134, 3, 'inside', True, 0.02),
    ([[-0.58, 0, 0], [0, 0.88, 0], [0, 0, -0.55]], [0.5265, 0.0207, 1.4411], -0.081, 3, 'inside', True, 0.02),
    ([[-1.16, 0.3, 0], [0.3, -0.55, 0], [0, 0, 0.29]], [0.4878, -0.2857, 1.5117], 0.249, 3, 'inside', False, 0.02),
    ([[0.75, 0, 0.3], [0, 0.99, 0], [0.3, 0, -1.1]], [0.9768, 0.4641, 1.4797], -0.289, 3, 2, False, 0.02),
    ([[0.73, 0.3, -0.4], [0.3, 0.52, -0.4], [-0.4, -0.4, 0.35]], [0.676, 0.2099, 1.3305], 0.161, 3, 2, False, 0.02),
    ([[0.94, 0.3, 0.3], [0.3, -0.23, 0], [0.3, 0, 0.6]], [0.2947, 0.356, 1.1977], -0.105, 3, 3, True, 0.02),
    ([[-1.19, 0, 0.3], [0, 0.77, -0.4], [0.3, -0.4, 0.96]], [0.6844, -0.3265, 1.7737], 0.2, 3, 'inside', True, 0.02),
    ([[1.04, 0, 0], [0, 1.05, 0], [0, 0, -0.27]], [0.9981, 0.4847, 1.0144], 0.216, 3, 'inside', True, 0.02),
    ([[0, 0, 0], [0, 0, 0.5], [0, 0.5, 0]], [0.8711, -0.3874, 1.1017], 0.0, 3, 1, False, 0.02),
    ([[0.76, 0, -0.4], [0, 0.68, -0.4], [-0.4, -0.4, -0.42]], [0.6169, -0.0581, 1.3464], -0.215, 3, 4, True, 0.02),
    ([[1.1, 0.3, 0.3], [0.3, -0.64, 0], [0.3, 0, 1.15]], [0.2005, -0.692, 1.0871], 0.158, 4, 4, True, 0.02),
    ([[-0.81, 0, 0.3], [0, -0.51, 0], [0.3, 0, 0.68]], [0.5219, 0.37, 1.8941], 0.149, 4, 2, True, 0.02),
    ([[0.29, 0, -0.4], [0, 0.84, 0.3], [-0.4, 0.3, 0.36]], [1.0827, -0.1524, 1.3246], -0.164, 4, 1, False, 0.02),
    ([[-0.61, 0, 0.3], [0, -0.69, 0.3], [0.3, 0.3, -0.45]], [1.0019, -0.6171, 1.725], -0.185, 4, 'inside', True, 0.02),
    ([[0, 0, 0], [0, 0, 0.5], [0, 0.5, 0]], [0.3887, 0.1637, 1.0461], 0.0, 3, 0, False, 0.02),
    ([[0.97, 0, -0.4], [0, 1.14, 0.3], [-0.4, 0.3, 0.69]], [0.1299, 0.6192, 1.2782], -0.05, 4, 1, False, 0.02),
    ([[0.49, 0.3, 0.3], [0.3, -0.8, 0], [0.3, 0, -0.77]], [0.3348, 0.1236, 1.5147], 0.193, 3, 2, True, 0.02),
    ([[0.24, 0, 0], [0, -0.64, -0.4], [0, -0.4, 0.43]], [1.1617, 0.2574, 1.0496], -0.135, 3, 'inside', True, 0.02),
    ([[-0.86, -0.4, 0], [-0.4, 0.23, 0], [0, 0, 1.01]], [0.8269, 0.3868, 1.5905], -0.237, 4, 2, False, 0.02),
    ([[-0.54, 0, 0], [0, 0.5, 0.3], [0, 0.3, -1.12]], [1.0759, -0.253, 0.9696], 0.276, 3, 'inside', False, 0.02),
    ([[1.05, 0.3, 0], [0.3, -0.32, 0.3], [0, 0.3, 0.81]], [0.9328, -0.4554, 0.8244], -0.01, 4, 3, False, 0.02),
    ([[-0.29, 0, -0.4], [0, 0.51, 0.3], [-0.4, 0.3, -0.39]], [0.124, 0.4433, 0.9757], -0.234, 3, 'inside', False, 0.02),
]


# the same, as a polynomial given by its coefficients: what the root finder of the library answers is taken for the polynomial, and either direction may be the one eliminated first
POLY_QUADRICS = [
    ([[-0.43, 0.3], [0.3, -1.14]], [0.0673, 0.4369], -0.067, 7, 'inside', False, 0.01, {2: 1}),
    ([[-0.45, 0], [0, -0.94]], [0.8105, -0.063], 0.245, 7, 'surface', True, 0.01, {2: 1}),
    ([[-0.58, -0.4], [-0.4, 1.08]], [0.4045, 0.0483], 0.095, 7, 'inside', True, 0.01, {2: 0}),
    ([[-0.58, -0.4], [-0.4, 1.08]], [0.4045, 0.0483], 0.095, 7, 'inside', True, 0.01, {2: 1}),
    ([[-0.82, 0.3], [0.3, -0.74]], [0.5884, 0.5395], -0.028, 7, 'inside', True, 0.01, {2: 0}),
    ([[-0.86, 0.3], [0.3, 0.67]], [0.3034, 0.2933], 0.221, 7, 'inside', False, 0.01, {2: 1}),
    ([[-0.87, -0.4], [-0.4, -1.12]], [0.1272, -0.3756], -0.149, 7, 'inside', False, 0.01, {2: 1}),
    ([[-0.98, 0], [0, -0.43]], [0.7141, 0.1465], 0.251, 7, 'inside', False, 0.01, {2: 0}),
    ([[-1.02, 0], [0, 0.55]], [0.3133, -0.5467], 0.102, 7, 'surface', True, 0.01, {2: 1}),
    ([[-1.03, -0.4], [-0.4, 1.01]], [0.9064, -0.3179], 0.05, 7, 'inside', False, 0.01, {2: 1}),
    ([[-1.15, 0], [0, -0.79]], [0.0802, -0.5018], 0.229, 7, 'surface', False, 0.01, {2: 0}),
    ([[-1.15, 0], [0, -0.79]], [0.0802, -0.5018], 0.229, 7, 'surface', False, 0.01, {2: 1}),
    ([[0.21, 0.3], [0.3, 0.52]], [0.8872, -0.036], -0.178, 7, 'inside', True, 0.01, {2: 1}),
    ([[0.25, 0.3], [0.3, 1.17]], [0.1865, -0.6582], -0.147, 7, 'surface', False, 0.01, {2: 0}),
    ([[0.26, 0.3], [0.3, 0.62]], [0.6778, 0.5574], -0.064, 7, 'inside', False, 0.01, {2: 1}),
    ([[0.34, 0.3], [0.3, 0.24]], [0.358, -0.6867], -0.143, 7, 'surface', False, 0.01, {2: 0}),
    ([[0.4, 0.3], [0.3, 0.82]], [0.4089, 0.2951], 0.241, 7, 'inside', True, 0.01, {2: 1}),
    ([[0.46, -0.4], [-0.4, -0.28]], [0.583, 0.3533], 0.178, 7, 'surface', False, 0.01, {2: 0}),
    ([[0.46, -0.4], [-0.4, -0.28]], [0.583, 0.3533], 0.178, 7, 'surface', False, 0.01, {2: 1}),
    ([[0.47, 0.3], [0.3, -0.79]], [0.3371, -0.3236], -0.277, 7, 'inside', True, 0.01, {2: 1}),
    ([[0.53, -0.4], [-0.4, -1.15]], [0.6195, 0.3336], -0.046, 7, 'inside', True, 0.01, {2: 1}),
    ([[0.59, -0.4], [-0.4, -0.23]], [0.6855, 0.113], 0.27, 7, 'surface', True, 0.01, {2: 0}),
    ([[0.63, -0.4], [-0.4, 0.7]], [0.6291, -0.237], -0.172, 7, 'surface', False, 0.01, {2: 1}),
    ([[0.65, 0.3], [0.3, 0.68]], [0.726, 0.2579], 0.042, 7, 'surface', True, 0.01, {2: 0}),
    ([[0.69, -0.4], [-0.4, 0.52]], [0.258, 0.5493], 0.138, 7, 'inside', False, 0.01, {2: 1}),
    ([[0.7, 0], [0, -1.03]], [0.7434, 0.0128], -0.179, 7, 'surface', False, 0.01, {2: 0}),
    ([[0.78, -0.4], [-0.4, 1.12]], [0.7188, 0.4896], 0.284, 7, 'surface', True, 0.01, {2: 0}),
    ([[0.82, 0], [0, -0.79]], [0.4815, -0.2773], 0.292, 7, 'inside', True, 0.01, {2: 0}),
    ([[0.82, 0], [0, -0.79]], [0.4815, -0.2773], 0.292, 7, 'inside', True, 0.01, {2: 1}),
    ([[0.88, -0.4], [-0.4, 0.52]], [0.6365, -0.3118], -0.244, 7, 'inside', False, 0.01, {2: 0}),
    ([[0.88, -0.4], [-0.4, 0.52]], [0.6365, -0.3118], -0.244, 7, 'inside', False, 0.01, {2: 1}),
    ([[0.88, 0], [0, 0.83]], [0.1395, -0.3185], 0.267, 7, 'surface', False, 0.01, {2: 0}),
    ([[0.9, -0.4], [-0.4, 0.29]], [0.9212, -0.0656], -0.213, 7, 'inside', True, 0.01, {2: 0}),
    ([[0.9, 0.3], [0.3, -1.0]], [0.0966, 0.4637], -0.206, 7, 'surface', True, 0.01, {2: 1}),
    ([[0.96, 0.3], [0.3, -1.15]], [0.4895, -0.3016], -0.124, 7, 'surface', False, 0.01, {2: 0}),
    ([[1.04, 0], [0, 0.23]], [0.4945, -0.1427], -0.183, 7, 'inside', False, 0.01, {2: 1}),
    ([[1.16, 0.3], [0.3, 0.46]], [0.2602, 0.4288], -0.081, 7, 'surface', True, 0.01, {2: 1}),
    ([[1.17, 0.3], [0.3, -1.15]], [0.4366, 0.3524], 0.007, 7, 'surface', False, 0.01, {2: 0}),
    ([[1.17, 0.3], [0.3, -1.15]], [0.4366, 0.3524], 0.007, 7, 'surface', False, 0.01, {2: 1}),
    ([[1.18, -0.4], [-0.4, 0.5]], [0.0882, 0.5166], 0.297, 7, 'inside', True, 0.01, {2: 1}),
]


def through_corners():
    """zero sets that go exactly through vertices of the box: two sheets that leave it there, at one line; and circles through two of them"""

    def product(p, q):
        # (y - p0 - p1 u) (y - q0 - q1 u), u the first coordinate from the face
        u = (q[0] - p[0]) / (p[1] - q[1])
        m = -(p[1] + q[1]) / 2
        return [[p[1] * q[1], m], [m, 1]], [BOX[2][0][0] + u, p[0] + p[1] * u], 0.0

    out = [product(*v) for v in (((-0.5, 1), (0.5, 0.5)), ((0.5, -1), (-0.5, -0.5)), ((0, -1), (0.5, 0.5)), ((-0.5, 0.5), (0.5, -1)), ((-0.5, 0.75), (0.5, -0.5)))]
    out += [([[1, 0], [0, 1]], [0.125, 0], -0.265625), ([[-1, 0], [0, -1]], [0.125, 0], 0.265625), ([[1, 0], [0, 0.25]], [0.5, -0.75], -0.078125)]
    return [q + (7, w, bool((i + k) % 2), 0.01, {2: a}, True) for i, q in enumerate(out) for w in ("inside", "surface") for k, a in ((0, 0), (1, 0), (0, 1))]


def quadric_job(P, seed, Q, c, g, n, what, ends, tolm, axes=None, exact=False):
    d = len(Q)
    lo, hi = BOX[d]
    ls = Quadric(Q, c, g)
    mod = Model(d, ls, ends) if axes is None else QuadModel(d, ls, ends, axes, lo, hi)
    ev = Eval(P, hooks=mod.hooks(), max_steps=300000000)
    ev.uvzero = True
    ev.decider = Guide(ls.guide)
    S = Sampler(K=24, seed=seed, ranges={k: (v, v) for k, v in ls.guide.items()} if exact else dict(near_guide(ls, 1e-9), **({} if g else {"g": (0.0, 0.0)})))
    extra, dim, kind, name = [], d, "inside", "reparam_general" if axes is None else "reparam_Bezier"
    if what == "surface":
        dim, kind = d - 1, "surface"
    elif what != "inside":
        extra, dim, kind, name = [what], d - 1, "facet", "reparam_general_facet"
    ref = quadpart(Q, c, g, lo, hi, what if kind == "facet" else None)
    lab = "%dD %s of the quadric %s, centre %s, constant %g, order %d%s" % (d, what if not isinstance(what, int) else "facet %d" % what, Q, list(c), g, n, ", roots at the ends of lines" if ends else "") + ("" if axes is None else ", polynomial, direction eliminated %s" % axes[2])
    F = entry(P, name, d, dim, True)
    where = wh(F)
    try:
        st = run_mesh(ev, P, name, Obj("qv::UF:phi") if axes is None else mod.poly(), lo, hi, dim, d, n, extra, False)
        if ev.taken:
            raise Undecided("branch that the representative does not decide")
        obs = [(r_, lab, ok, where, det) for r_, ok, det in check_mesh(None, S, ev, st, ls, lo, hi, dim, d, n, False, lambda k: {"measure": ref["length" if kind == "surface" else "part"]}, kind, tolm, 1e-8 if g or exact else 2e-3)]  # where two sheets cross the subdivision stops
    except Oob as e:
        obs = [("the cells cover exactly the part", lab, False, where, "access outside an array: %s" % e)]
    except CxxThrow as e:
        obs = [("the cells cover exactly the part", lab, False, where, "throws: %s" % e)]
    except Undecided as e:
        obs = [("the cells cover exactly the part", lab, None, where, str(e))]
    return obs, {G.q for G in ev.called}


# ----------------------------------------------------------- polynomial variant
class Linear:
    """an affine polynomial on the unit box, in algoim's order of the directions"""

    def __init__(self, lin, c):
        self.lin, self.c = list(lin), c

    def at(self, x):
        r = self.c
        for a, v in zip(self.lin, x):
            r = tm.add(r, tm.mul(a, v))
        return r

    def corners(self):
        return [self.at(t) for t in itertools.product((0, 1), repeat=len(self.lin))]


class PolyModel(Model):
    """algoim's sets of polynomials, for polynomials of degree one"""

    def __init__(self, dim, ls, ends, axes, lo, hi):
        Model.__init__(self, dim, ls, ends)
        self.axes, self.lo, self.hi = axes, lo, hi

    def unit(self, x):
        return [tm.add(l, tm.mul(u - l, c)) for l, u, c in zip(self.lo, self.hi, x)]

    def poly(self):
        """BezierTP object of the level set restricted to the box"""
        from .domain import Bz

        d = self.dim
        a = [tm.mul(s, u - l) for s, l, u in zip(self.ls.s, self.lo, self.hi)]
        q = {"lin": Linear(a[::-1], self.ls.value(self.lo))}
        return Bz.make(IMPL + "BezierTP<%d, 1>" % d, q)

    def hooks(self):
        h = Model.hooks(self)
        c = IMPL + "BezierTP<%d, 1>" % self.dim
        own = lambda o: isinstance(o, Obj) and "qv" in o.f
        h[c + "::get_xarray"] = lambda ev, f, a, o: o if own(o) else NotImplemented
        for k in (c, "qugar::impl::DomainFunc<%d, 1>" % self.dim):
            h[k + "::operator()"] = lambda ev, f, a, o: self.ls.value(self.unit(list(ev.rv(a[0]).d))) if own(o) else NotImplemented
            h[k + "::grad"] = lambda ev, f, a, o: vec([tm.mul(g, u - l) for g, l, u in zip(self.ls.grad(None), self.lo, self.hi)]) if own(o) else NotImplemented
        for n in (1, 2, 3):
            p = "algoim::PolySet<%d, 8>" % n
            h[p + "::count"] = lambda ev, f, a, o: len(self.set(o))
            h[p + "::poly"] = lambda ev, f, a, o: self.item(ev, o, a, 0)
            h[p + "::mask"] = lambda ev, f, a, o: self.item(ev, o, a, 1)
            h[p + "::push_back"] = lambda ev, f, a, o: self.set(o).append((ev.rv(a[0]), ev.rv(a[1])))
            h["algoim::xarray<double, %d>::ext" % n] = self.ext
        h["ctor:algoim::PolySet"] = self.pset
        h["ctor:algoim::booluarray"] = lambda ev, cls, a: self.mask(cls, True) if len(a) == 1 else NotImplemented
        h["ctor:algoim::SparkStack"] = self.spark
        h["algoim::bernstein::evalBernsteinPoly"] = lambda ev, f, a, o: self.lin(ev, a[0]).at(list(ev.rv(a[1]).d))
        D = "algoim::detail::"
        h[D + "nonzeroMask"] = lambda ev, f, a, o: self.mask("algoim::booluarray", self.crosses(ev, self.lin(ev, a[0])))
        h[D + "maskEmpty"] = lambda ev, f, a, o: not ev.rv(a[0]).f["on"]
        h[D + "lineIntersectsMask"] = lambda ev, f, a, o: ev.rv(a[0]).f["on"]
        h[D + "pointWithinMask"] = lambda ev, f, a, o: ev.rv(a[0]).f["on"]
        h[D + "score_estimate"] = self.score
        h[D + "eliminate_axis"] = self.eliminate
        h["algoim::bernstein::collapseAlongAxis"] = self.collapse
        h["algoim::bernstein::bernsteinUnitIntervalRealRoots"] = self.uroots
        return h

    def set(self, o):
        return o.f.setdefault("set", [])

    def pset(self, ev, cls, args):
        if args:
            return NotImplemented
        o = Obj(cls)
        o.f["set"] = []
        return o

    def item(self, ev, o, a, k):
        i, s = ev.rv(a[0]), self.set(o)
        if not isinstance(i, int) or not 0 <= i < len(s):
            raise Oob("polynomial %s of a set of %d" % (i, len(s)))
        return s[i][k]

    def mask(self, cls, on):
        o = Obj(cls)
        o.f["on"] = on
        return o

    def lin(self, ev, a):
        v = ev.rv(a)
        if isinstance(v, Obj) and "qv" in v.f:
            return v.f["qv"]["lin"]
        raise Undecided("polynomial %r" % (v,))

    def make(self, lin):
        o = Obj("algoim::xarray<double, %d>" % len(lin.lin))
        o.f["qv"] = {"lin": lin}
        return o

    def crosses(self, ev, lin):
        s = [ev.decide(tm.cmp("<", 0, v)) for v in lin.corners()]
        return any(s) and not all(s)

    def ext(self, ev, f, a, o):
        if "qv" not in o.f:
            return NotImplemented
        return 2 if a else vec([2] * len(o.f["qv"]["lin"].lin), "int")

    def spark(self, ev, cls, args):
        v = [ev.rv(a) for a in args]
        if len(v) % 2:
            return NotImplemented
        for p, n in zip(v[::2], v[1::2]):
            p.t.set(It(stdarr([0] * n), 0))
        return Obj(cls)

    def score(self, ev, f, args, o):
        """any direction may have the best score"""
        ps = [self.lin_of(p) for p, _ in self.set(ev.rv(args[0]))]
        n = len(ps[0].lin)
        disc = ev.rv(args[1])
        disc.d[:] = [False] * n
        best = self.axes[n]
        return vec([3 if k == best else 2 - Fr_(k, 10) for k in range(n)])

    def lin_of(self, o):
        return o.f["qv"]["lin"]

    def eliminate(self, ev, f, args, o):
        src, k, dst = self.set(ev.rv(args[0])), ev.rv(args[1]), ev.rv(args[2])
        out = []
        for p, m in src:
            l = self.lin_of(p)
            for s in (0, 1):
                r = Linear(l.lin[:k] + l.lin[k + 1:], tm.add(l.c, tm.mul(l.lin[k], s)))
                if self.crosses(ev, r):
                    out.append((self.make(r), self.mask("algoim::booluarray", True)))
        # the polynomials of a set differ by constants: no resultants
        for (p, _), (q, _) in itertools.combinations(src, 2):
            if [x for x in self.lin_of(p).lin] != [x for x in self.lin_of(q).lin]:
                raise Undecided("resultant of two polynomials")
        dst.f["set"] = out
        return None

    def collapse(self, ev, f, args, o):
        l, x, k, p = self.lin(ev, args[0]), list(ev.rv(args[1]).d), ev.rv(args[2]), ev.rv(args[3])
        for s in (0, 1):
            self.cell(p, s).set(l.at(x[:k] + [s] + x[k:]))
        return None

    def cell(self, p, i):
        if isinstance(p, It):
            return Elem(p.c, p.i + i)
        if isinstance(p, Arr):
            return Elem(p, i)
        raise Undecided("array %r" % (p,))

    def uroots(self, ev, f, args, o):
        p, n, out = ev.rv(args[0]), ev.rv(args[1]), ev.rv(args[2])
        if n != 2:
            raise Undecided("roots of a polynomial of degree %s" % (n,))
        a, b = self.cell(p, 0).get(), self.cell(p, 1).get()
        d = tm.sub(a, b)
        if ev.decide(tm.cmp("<", tm.fn("abs", d), 1e-14)):
            return 0
        r = tm.div(a, d)
        for e in (0, 1):
            if ev.decide(tm.cmp("<", tm.fn("abs", tm.sub(r, e)), 1e-11)):
                if not self.ends:
                    return 0
                self.cell(out, 0).set(r)
                return 1
        if ev.decide(tm.cmp("<", 0, r)) and ev.decide(tm.cmp("<", r, 1)):
            self.cell(out, 0).set(r)
            return 1
        return 0



class Quadratic:
    """polynomial of degree at most two in each variable: exponents -> coefficient"""

    def __init__(self, n, m):
        self.n, self.m = n, {k: v for k, v in m.items() if not (isinstance(v, (int, float)) and v == 0)}
        self.lin = [0] * n

    def at(self, x):
        r = 0
        for e, c in self.m.items():
            for k, v in zip(e, x):
                for _ in range(k):
                    c = tm.mul(c, v)
            r = tm.add(r, c)
        return r

    def along(self, k):
        """coefficients of the powers of one variable, polynomials of the others"""
        out = [{}, {}, {}]
        for e, c in self.m.items():
            r = e[:k] + e[k + 1:]
            out[e[k]][r] = tm.add(out[e[k]].get(r, 0), c)
        return [Quadratic(self.n - 1, m) for m in out]

    def times(self, o, f=1):
        m = {}
        for e, c in self.m.items():
            for g, b in o.m.items():
                k = tuple(x + y for x, y in zip(e, g))
                m[k] = tm.add(m.get(k, 0), tm.mul(f, tm.mul(c, b)))
        return Quadratic(self.n, m)

    def plus(self, o):
        m = dict(self.m)
        for e, c in o.m.items():
            m[e] = tm.add(m.get(e, 0), c)
        return Quadratic(self.n, m)

    def face(self, k, s):
        C, B, A = self.along(k)
        return C if not s else C.plus(B).plus(A)

    def disc(self, k):
        C, B, A = self.along(k)
        return B.times(B).plus(A.times(C, -4)), A, B


class QuadModel(PolyModel):
    """algoim's sets of polynomials, for one quadratic polynomial in two dimensions"""

    def num(self, ev, t):
        return float(t) if not isinstance(t, tm.T) else float(tm.evalt(t, ev.decider)[0][0])

    def poly(self):
        from .domain import Bz

        L = [u - l for l, u in zip(self.lo, self.hi)]
        g0 = self.ls.grad(self.lo)
        d = self.dim
        m = {(0,) * d: self.ls.value(self.lo)}
        unit = lambda *ks: tuple(sum(1 for k in ks if d - 1 - k == j) for j in range(d))
        for i in range(d):
            m[unit(i)] = tm.mul(L[i], g0[i])
            for j in range(d):
                if self.ls.Q[i][j]:
                    e = unit(i, j)
                    m[e] = tm.add(m.get(e, 0), self.ls.Q[i][j] * L[i] * L[j])
        return Bz.make(IMPL + "BezierTP<%d, 1>" % d, {"lin": Quadratic(d, m)})

    def hooks(self):
        h = PolyModel.hooks(self)
        own = lambda o: isinstance(o, Obj) and "qv" in o.f
        for k in (IMPL + "BezierTP<%d, 1>" % self.dim, "qugar::impl::DomainFunc<%d, 1>" % self.dim):
            h[k + "::grad"] = lambda ev, f, a, o: vec([tm.mul(g, u - l) for g, l, u in zip(self.ls.grad(self.unit(list(ev.rv(a[0]).d))), self.lo, self.hi)]) if own(o) else NotImplemented
        return h

    def crosses(self, ev, p):
        ts = np.linspace(0, 1, 61)
        s = {self.num(ev, p.at(list(x))) > 0 for x in itertools.product(ts, repeat=p.n)}
        return len(s) == 2

    def ext(self, ev, f, a, o):
        if "qv" not in o.f:
            return NotImplemented
        return 3 if a else vec([3] * o.f["qv"]["lin"].n, "int")

    def vertical(self, ev, p, k):
        """whether the zero set has a tangent along direction k inside the box"""
        D, A, B = p.disc(k)
        if not A.m or not self.crosses(ev, D):
            return False
        for t in np.linspace(0, 1, 401):
            if abs(self.num(ev, D.at([t]))) < 2e-2 and -0.05 < -self.num(ev, B.at([t])) / (2 * self.num(ev, A.at([t]))) < 1.05:
                return True
        return False

    def score(self, ev, f, args, o):
        ps = [self.lin_of(p) for p, _ in self.set(ev.rv(args[0]))]
        n = ps[0].n
        disc = ev.rv(args[1])
        disc.d[:] = [n > 1 and any(self.vertical(ev, p, k) for p in ps) for k in range(n)]
        best = self.axes[n]
        # a direction without tangents is preferred by one
        return vec([3 if k == best else Fr_(1, 10) for k in range(n)])

    def eliminate(self, ev, f, args, o):
        src, k, dst = self.set(ev.rv(args[0])), ev.rv(args[1]), ev.rv(args[2])
        out = []
        if len(src) > 1:
            raise Undecided("resultant of two polynomials")
        for p, m in src:
            l = self.lin_of(p)
            rs = [l.face(k, 0), l.face(k, 1)] + ([l.disc(k)[0]] if self.vertical(ev, l, k) else [])
            for r in rs:
                if self.crosses(ev, r):
                    out.append((self.make(r), self.mask("algoim::booluarray", True)))
        dst.f["set"] = out
        return None

    def collapse(self, ev, f, args, o):
        l, x, k, p = self.lin(ev, args[0]), list(ev.rv(args[1]).d), ev.rv(args[2]), ev.rv(args[3])
        a0, a1, a2 = [q.at(x) for q in l.along(k)]
        for i, b in enumerate((a0, tm.add(a0, tm.div(a1, 2)), tm.add(tm.add(a0, a1), a2))):
            self.cell(p, i).set(b)
        return None

    def uroots(self, ev, f, args, o):
        p, n, out = ev.rv(args[0]), ev.rv(args[1]), ev.rv(args[2])
        if n != 3:
            raise Undecided("roots of a polynomial with %s coefficients" % (n,))
        b0, b1, b2 = [self.cell(p, i).get() for i in range(3)]
        a0, a1, a2 = b0, tm.mul(2, tm.sub(b1, b0)), tm.add(tm.sub(b0, tm.mul(2, b1)), b2)
        if ev.decide(tm.cmp("<", tm.fn("abs", a2), 1e-13)):
            rs = [tm.neg(tm.div(a0, a1))]
        else:
            h = tm.sub(tm.mul(a1, a1), tm.mul(4, tm.mul(a0, a2)))
            if not ev.decide(tm.cmp("<", 0, h)):
                return 0
            q = tm.fn("sqrt", h)
            rs = [tm.div(tm.sub(tm.neg(a1), q), tm.mul(2, a2)), tm.div(tm.add(tm.neg(a1), q), tm.mul(2, a2))]
            if ev.decide(tm.cmp("<", a2, 0)):
                rs = rs[::-1]
        c = 0
        for r in rs:
            end = any(ev.decide(tm.cmp("<", tm.fn("abs", tm.sub(r, e)), 1e-11)) for e in (0, 1))
            if end and self.ends or not end and ev.decide(tm.cmp("<", 0, r)) and ev.decide(tm.cmp("<", r, 1)):
                self.cell(out, c).set(r)
                c += 1
        return c


def Fr_(a, b):
    from fractions import Fraction

    return Fraction(a, b)


# --------------------------------------------------------- all cells of a domain
def marks(c, lo, hi, dim, rg, n):
    """nodes of the cell that stands for the reparameterization of the cut cell c"""
    return [[float(l) + float(u - l) * ((3 + 5 * c + 7 * k + 11 * k * i) % 97 + 1) / 100 for i, (l, u) in enumerate(zip(lo, hi))] for k in range(n ** dim)]


def driver_job(P, d, ns, bez, kinds, levelset, n, merge, req):
    from .domain import Oracle, hooks_for, unfdom, cell_list, cells_of
    from .domain import near as close

    obs, called = [], set()
    dim = d - 1 if levelset else d
    O = Oracle(d, ns, P)
    O.forced = dict(enumerate(kinds))
    h = hooks_for(P, d, O)
    boxes = cells_of(ns)
    calls = []

    def blockof(poly):
        def hook(ev, f, args, o):
            v = [ev.rv(a) for a in args]
            while isinstance(v[0], Ptr):
                v[0] = ev.rv(ev.deref(v[0]))
            g = lambda m: list(ev.rv(ev.call(need(P, v[1].cls, m), [], v[1])).d)
            lo, hi = g("min_corner"), g("max_corner")
            c = O.cell(lo, hi)
            if c is None:
                raise Undecided("reparameterization of a box that is not a cell")
            if poly:
                q = v[0].f.get("qv", {})
                dom = q.get("dom")
                okp = dom is not None and "facet" not in q and O.cell(*dom) == c
            else:
                okp = isinstance(v[0], Obj) and v[0].cls == "qv::UF:phi"
            calls.append((c, poly, okp))
            pts = marks(c, lo, hi, dim, d, n)
            if c + 1 < len(boxes):
                pts[-1] = [float(x) for x in hi]
                pts[0] = [float(x) for x in lo]
            m = v[2]
            if isinstance(m, int):
                m = new(ev, dim, d, m)
                fill(ev, m, dim, d, [pts])
                return Ptr(m)
            while isinstance(m, Ptr):
                m = ev.rv(ev.deref(m))
            if "ImplReparamMesh<%d, %d>" % (dim, d) not in m.cls:
                raise Undecided("mesh of class %s" % m.cls)
            fill(ev, m, dim, d, [pts])
            return None

        return hook

    h[IMPL + "reparam_general"] = blockof(False)
    h[IMPL + "reparam_Bezier"] = blockof(True)
    ev = Eval(P, hooks=h, max_steps=20000000)
    N = len(boxes)
    name = "create_reparameterization"
    Fs = [F for F in freefn(P, IMPL + name) if "UnfittedImplDomain<%d>" % d in F.tu.types[F.params[0]["t"]] and len(F.params) == (3 if req is None else 4) and "ImplReparamMesh<%d, %d>" % (dim, d) in F.d["rft"]]
    if not Fs:
        raise AnalysisBroken("routine " + name)
    F = Fs[0]
    where = wh(F)
    lab = "%dD %s%s, cells %s, %s, order %d%s, %s" % (d, "x".join(map(str, ns)), ", polynomial" if bez else "", "/".join(kinds), "zero level set" if levelset else "inside", n, ", points merged" if merge else "", "all cells" if req is None else "cells %s" % req)
    try:
        dom = unfdom(ev, P, d, ns, bez)
        cells = list(range(N)) if req is None else req
        full = [c for c in cell_list(ev, P, d, dom, "get_full_cells") if c in cells]
        cut = [c for c in cell_list(ev, P, d, dom, "get_cut_cells") if c in cells]
        m = obj(ev, ev.call(F, [dom] + ([] if req is None else [stdvec(list(req), "long")]) + [n, merge], None))
        if ev.taken:
            raise Undecided("branch that the inputs do not decide")
        obs.append(("the mesh has the order that was asked", lab, get(ev, m, dim, d, "get_order") == n, where, "order %s" % get(ev, m, dim, d, "get_order")))
        got = sorted(c for c, _, _ in calls)
        obs.append(("each requested cut cell is reparameterized once", lab, got == sorted(cut), where, "cells %s, cut ones %s" % (got, cut)))
        bad = [c for c, p, k in calls if p != bez or not k]
        obs.append(("with the level set restricted to the cell", lab, not bad, where, "cells %s" % bad))
        st = state(ev, m, dim, d)
        cs, ws = coords(st)
        want, wires = [], []
        for c in cut:
            lo, hi = boxes[c]
            p = marks(c, lo, hi, dim, d, n)
            if c + 1 < N:
                p[-1], p[0] = [float(x) for x in hi], [float(x) for x in lo]
            want.append(p)
        if not levelset:
            for c in full:
                lo, hi = boxes[c]
                p = [[float(l) + float(u - l) * xnode(i, n) for l, u, i in zip(lo, hi, t)] for t in tids([n] * d)]
                want.append(p)
                wires += [[p[i] for i in e] for e in edges(d, n)]
        key = lambda p: tuple(tuple(round(float(tm.evalt(x, tm.Env(K=2))[0][0]) if isinstance(x, tm.T) else float(x), 8) for x in q) for q in p)
        a, b = sorted(map(key, cs)), sorted(map(key, want))
        obs.append(("the mesh has the cells of the cut and, for the inside, of the full cells", lab, a == b, where, "%d cells, expected %d (%d cut and %d full)" % (len(a), len(b), len(cut), len(full)) if len(a) != len(b) else "nodes differ"))
        wk = lambda w: min(key(w), key(w)[::-1])
        obs.append(("the edges of the full cells are wires", lab, set(map(wk, ws)) == set(map(wk, wires)), where, "%d wires, expected %d" % (len(ws), len(wires))))
        np_, nd = len(st[0]), len({x for p in b for x in p})
        obs.append(("coincident points are merged if and only if that was asked", lab, np_ == nd if merge else np_ == sum(map(len, b)), where, "%d points, %d distinct ones" % (np_, nd)))
    except Oob as e:
        obs.append(("the mesh has the cells of the cut and, for the inside, of the full cells", lab, False, where, "access outside an array: %s" % e))
    except CxxThrow as e:
        obs.append(("the mesh has the cells of the cut and, for the inside, of the full cells", lab, False, where, "throws: %s" % e))
    except Undecided as e:
        obs.append(("the mesh has the cells of the cut and, for the inside, of the full cells", lab, None, where, str(e)))
    return obs, {G.q for G in ev.called}


def run_C16(ctx):
    P = core()
    th = ctx.thorough
    js = []
    for d in (2, 3):
        for i, (a, fr) in enumerate(arrangements(d)):
            for n in ((2, 3) if d == 2 or th else (2,)):
                if n == 3 and not th and i % 3:
                    continue
                whats = ["inside", "surface"] + list(range(2 * d)) if th else [("inside", "surface")[i % 2], (i + n) % (2 * d)] if d == 3 else ["inside", "surface", (i + n) % (2 * d)]
                for what in whats:
                    sc = (1, 1, 1, 3e6, 1e-5)[i % 5]
                    js.append((affine_job, (ctx.seed, d, [x * sc for x in a], fr, n, what, bool(i % 2), i % 3 == 0)))
            for k in range(2 if not th else 6):
                axes = {3: (i + k) % 3, 2: ((i + k) // 3 + k) % 2} if d == 3 else {2: (i + k) % 2}
                for what in ("inside", "surface"):
                    if d == 3 and not th and (i + (what == "inside")) % 4:
                        continue
                    js.append((affine_job, (ctx.seed, d, a, fr, 2 if k < 4 else 3, what, bool((i + k) % 2), (i + k) % 3 == 0, axes)))
    for j in [((.51, .02), .2, 7, "inside", False, False), ((.51, .02), .2, 7, "surface", False, True), ((.26, -.48), .4, 7, "inside", True, True), ((.26, -.48), .4, 4, "inside", False, True), ((.9, .1), .35, 5, "surface", False, False)]:
        js.append((ball_job, (ctx.seed, 2) + j))
    for j in [((.61, .03, 1.35), .3, 3, "surface", False, True), ((.27, -.46, 1.03), .5, 3, "inside", False, False), ((.27, -.46, 1.03), .5, 2, "inside", True, True), ((.6, .03, .7), .5, 3, "surface", False, False)] + ([((.27, -.46, 1.03), .5, 3, "surface", False, True), ((.61, .03, 1.35), .3, 5, "inside", False, True)] if th else []):
        js.append((ball_job, (ctx.seed, 3) + j))
    # boxes that are not cut, wholly inside and wholly outside
    for d in (2, 3):
        for i, (a, _) in enumerate(arrangements(d)[::5]):
            for fr in (-0.3, 1.3):
                for what in ("inside", "surface", i % (2 * d)):
                    js.append((affine_job, (ctx.seed, d, a, fr, 2 + i % 2, what, False, bool(i % 2))))
                    if not isinstance(what, int):
                        js.append((affine_job, (ctx.seed, d, a, fr, 2 + i % 2, what, False, bool(i % 2), {3: i % 3, 2: i % 2})))
    for j in QUADRICS:
        js.append((quadric_job, (ctx.seed,) + j))
    i = 0
    for d, ns in ((2, (2, 2)), (2, (4, 1)), (3, (2, 2, 1)), (3, (1, 2, 2))):
        for kinds in (("cut", "neg", "pos", "fullu"), ("neg", "cut", "cut", "pos"), ("fullu", "pos", "cut", "cut"), ("cut", "cut", "cut", "neg")):
            for levelset in (False, True):
                for bez in (False, True):
                    i += 1
                    req = (None, [3, 0, 2], [2, 1], [1])[(i * 7 // 3) % 4]
                    js.append((driver_job, (d, ns, bez, kinds, levelset, 2 + i % 2, bool(i // 2 % 2), req)))
    for j in POLY_QUADRICS + through_corners():
        js.append((quadric_job, (ctx.seed,) + tuple(j)))
    js.sort(key=lambda j: j[0] not in (ball_job, quadric_job))
    for obs, called in par([lambda j=j: j[0](P, *j[1]) for j in js]):
        for q in called:
            ctx.unit("functions", q)
        for o in obs:
            ctx.ob(*o)
    ctx.unit("arrangements", len(js))
