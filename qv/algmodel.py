"""Abstract model of the algoim interface the library calls.

algoim is not part of the repository: its answers (sign of the level set on a
box, quadrature nodes) are taken from an oracle object, and every call the
library makes is recorded with the box, direction, side and number of points it
was made with."""
import re
from .cxxeval import Eval, Obj, Arr, Ptr, Cell, Elem, Undecided, CxxThrow, It
from .cxxsym import need, vec, stdvec, uf_hooks, uf
from . import terms as tm

NEG, POS, UND = -1, 1, 0


def pick(ev, label, k):
    """one of k alternatives (every alternative is explored)"""
    for i in range(k - 1):
        if ev.decide(tm.T("pick:%s:%d" % (label, i))):
            return i
    return k - 1


def hyper(ev, cls, lo, hi):
    o = Obj(cls)
    return o


class Alg:
    """hooks for an Eval; oracle: sign(ev, lo, hi), quad(ev, lo, hi, dim, side, n, phi),
    phi(ev, x) -> value, grad(ev, x) -> list"""

    def __init__(self, dim, oracle):
        self.dim, self.o = dim, oracle
        self.delta = {}
        self.log = []

    def rect(self, ev, r):
        """(lo, hi) of a HyperRectangle"""
        r = ev.rv(r)
        if isinstance(r, Obj) and "lo" in r.f:
            return list(r.f["lo"].d), list(r.f["hi"].d)
        raise Undecided("box given to algoim: %r" % (r,))

    def hooks(self):
        h = {}
        for n in (1, 2, 3):
            h["qugar::impl::DomainFunc<%d, 1>::operator()" % n] = self.phi
            h["qugar::impl::DomainFunc<%d, 1>::grad" % n] = self.grad
            for T in ("algoim::Interval<%d>" % n,):
                h[T + "::delta"] = self.idelta
                h[T + "::uniformSign"] = lambda ev, f, a, o: self.sgn(o) != 0
                h[T + "::sign"] = lambda ev, f, a, o: self.sgn(o)
            R = "algoim::HyperRectangle<double, %d>" % n
            h[R + "::side"] = lambda ev, f, a, o: o.f["hi" if ev.rv(a[0]) else "lo"]
            h[R + "::min"] = lambda ev, f, a, o: self.comp(ev, o, "lo", a)
            h[R + "::max"] = lambda ev, f, a, o: self.comp(ev, o, "hi", a)
            h[R + "::extent"] = self.extent
            h[R + "::midpoint"] = self.mid
            Q = "algoim::QuadratureRule<%d>" % n
            h[Q + "::sumWeights"] = lambda ev, f, a, o: sum((ev.rv(x).f["w"] for x in o.f["nodes"].d), 0)
            h["algoim::ImplicitPolyQuadrature<%d>::integrate" % n] = self.poly
            h["algoim::ImplicitPolyQuadrature<%d>::integrate_surf" % n] = self.polysurf
        h["algoim::quadGen"] = self.quadgen
        h["ctor:algoim::PsiCode"] = self.psictor
        h["ctor:algoim::ImplicitIntegral"] = self.integral
        h["algoim::bernstein::evalBernsteinPolyGradient"] = lambda ev, f, a, o: vec(self.o.bgrad(ev, ev.rv(a[0]).f["qv"], list(ev.rv(a[1]).d)[::-1])[::-1])
        h["ctor:algoim::Interval"] = self.ictor
        h["ctor:algoim::HyperRectangle"] = self.hctor
        h["ctor:algoim::ImplicitPolyQuadrature"] = self.pctor
        h["ctor:algoim::QuadratureRule"] = self.qctor
        h["ctor:algoim::QuadratureRule::Node"] = self.nctor
        return h

    # boxes
    def hctor(self, ev, cls, args):
        if len(args) != 2:
            return NotImplemented
        o = Obj(cls)
        o.f["lo"], o.f["hi"] = ev.clone(ev.rv(args[0])), ev.clone(ev.rv(args[1]))
        return o

    def comp(self, ev, o, k, a):
        return Elem(o.f[k], ev.rv(a[0])) if a else o.f[k]

    def extent(self, ev, f, a, o):
        e = [x - y for x, y in zip(o.f["hi"].d, o.f["lo"].d)]
        return e[ev.rv(a[0])] if a else vec(e)

    def mid(self, ev, f, a, o):
        e = [(x + y) / 2 for x, y in zip(o.f["hi"].d, o.f["lo"].d)]
        return e[ev.rv(a[0])] if a else vec(e)

    # intervals
    def ictor(self, ev, cls, args):
        v = [ev.rv(a) for a in args]
        if len(v) == 1 and isinstance(v[0], Obj):
            return NotImplemented
        o = Obj(cls)
        o.f["alpha"] = v[0] if v else 0
        o.f["beta"] = ev.clone(v[1]) if len(v) > 1 else None
        o.f["eps"] = v[2] if len(v) > 2 else 0
        o.f["sgn"] = None
        return o

    def idelta(self, ev, f, a, o):
        d = ev.statics.setdefault("algoim delta", vec([tm.sym("stale delta%d" % i) for i in range(self.dim)]))
        return Elem(d, ev.rv(a[0])) if a else d

    def sgn(self, o):
        if o.f.get("sgn") is None:
            raise Undecided("sign of an interval that is not a value of the level set")
        return o.f["sgn"]

    # the level set
    def phi(self, ev, f, args, o):
        x = ev.rv(args[0])
        if not (isinstance(o, Obj) and o.cls.startswith("qv::UF:")):
            return NotImplemented
        if x.d and isinstance(ev.rv(x.d[0]), Obj):
            dl = ev.statics.get("algoim delta")
            lo, hi = [], []
            for i, c in enumerate(x.d):
                c = ev.rv(c)
                b = c.f["beta"]
                if b is None or c.f["eps"] != 0 or any(b.d[j] != 0 for j in range(len(b.d)) if j != i):
                    raise Undecided("interval argument of the level set")
                if dl is None:
                    raise Undecided("size of the interval not set")
                r = b.d[i] * dl.d[i]
                lo.append(c.f["alpha"] - r)
                hi.append(c.f["alpha"] + r)
            s = self.o.sign(ev, lo, hi)
            v = Obj("algoim::Interval<%d>" % len(x.d))
            v.f.update(alpha=s, beta=None, eps=0, sgn=s)
            return v
        return self.o.phi(ev, list(x.d))

    def grad(self, ev, f, args, o):
        if not (isinstance(o, Obj) and o.cls.startswith("qv::UF:")):
            return NotImplemented
        x = ev.rv(args[0])
        return vec(self.o.grad(ev, list(x.d)))

    # quadratures
    def rule(self, ev, n, pts):
        o = Obj("algoim::QuadratureRule<%d>" % n)
        et = "algoim::QuadratureRule<%d>::Node" % n
        o.f["nodes"] = stdvec([self.node(et, x, w) for x, w in pts], et)
        return o

    def node(self, et, x, w):
        o = Obj(et)
        o.f["x"], o.f["w"] = vec(x), w
        return o

    def qctor(self, ev, cls, args):
        if args:
            return NotImplemented
        n = int(cls.split("<")[1].split(">")[0])
        return self.rule(ev, n, [])

    def nctor(self, ev, cls, args):
        v = [ev.rv(a) for a in args]
        if len(v) != 2:
            return NotImplemented
        return self.node(cls, list(v[0].d), v[1])

    def quadgen(self, ev, f, args, o):
        v = [ev.rv(a) for a in args]
        lo, hi = self.rect(ev, v[1])
        pts = self.o.quad(ev, lo, hi, v[2], v[3], v[4], v[0])
        return self.rule(ev, len(lo), pts)

    def psictor(self, ev, cls, args):
        v = [ev.rv(a) for a in args]
        if len(v) != 2 or not isinstance(v[0], Arr):
            return NotImplemented
        o = Obj(cls)
        o.f["sides"], o.f["sign"] = [ev.rv(x) for x in v[0].d], v[1]
        return o

    def integral(self, ev, cls, args):
        """ImplicitIntegral<M, N, Phi, F, S>(phi, f, free, psi, count, box, n): f.evalIntegrand at every node"""
        v = [ev.rv(a) for a in args]
        if len(v) != 7:
            return NotImplemented
        m = int(re.match(r".*?<\s*(\d+)", cls).group(1))
        surf = cls.rstrip("> ").endswith(("true", ", 1"))
        lo, hi = self.rect(ev, v[5])
        free = [ev.rv(x) for x in v[2].d]
        ps = [ev.rv(x) for x in v[3].d][: v[4]]
        if len(ps) != 1 or not isinstance(ps[0], Obj) or "sign" not in ps[0].f:
            raise Undecided("conditions given to the implicit integral")
        d = [i for i, x in enumerate(free) if not x]
        if len(d) != len(lo) - m or len(d) > 1:
            raise Undecided("free directions %s of an integral of dimension %d" % (free, m))
        d, s = (d[0], ps[0].f["sides"][d[0]]) if d else (-1, 0)
        W = v[1]
        F = need(ev.prog, W.cls, "evalIntegrand")
        for x, w in self.o.integral(ev, lo, hi, d, s, v[6], surf, ps[0].f["sign"], v[0]):
            ev.call(F, [vec(x), w], W)
        return Obj(cls)

    def pctor(self, ev, cls, args):
        if len(args) == 1 and isinstance(ev.rv(args[0]), Obj) and ev.rv(args[0]).cls == cls:
            return NotImplemented
        o = Obj(cls)
        o.f["polys"] = [ev.rv(a) for a in args]
        return o

    def poly(self, ev, f, args, o):
        v = [ev.rv(a) for a in args]
        for x, w in self.o.poly(ev, o, v[0], v[1]):
            ev.callop(args[2], [vec(x), w])
        return None

    def polysurf(self, ev, f, args, o):
        v = [ev.rv(a) for a in args]
        for x, w, wn in self.o.polysurf(ev, o, v[0], v[1]):
            ev.callop(args[2], [vec(x), w, vec(wn)])
        return None
