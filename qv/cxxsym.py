"""Symbolic inputs for the abstract evaluation of the C++ program, and the
comparison of extracted value terms on the region selected by the path."""
import re
import numpy as np
from . import terms as tm
from .terms import T, isnum
from .cxxprog import Program, AnalysisBroken, core_files, wrapper_files
from .cxxeval import Eval, Undecided, Arr, Obj, Ptr, Cell, Elem, Field, Span, It, paths, uv_args, targs, Undef, CxxThrow, PathEnd, Oob

IMPL = "qugar::impl::"
_prog = {}


def core():
    if "core" not in _prog:
        _prog["core"] = Program(core_files())
    return _prog["core"]


def full():
    if "full" not in _prog:
        _prog["full"] = Program(core_files() + wrapper_files())
    return _prog["full"]


def vec(vals, ty="double"):
    vals = list(vals)
    return Arr(vals, "uv", "algoim::uvector<%s, %d>" % (ty, len(vals)), ty)


def svec(name, d, ty="double"):
    return vec([tm.sym("%s%d" % (name, i)) for i in range(d)], ty)


def stdvec(vals, et="double"):
    return Arr(list(vals), "vec", "std::vector<%s, std::allocator<%s>>" % (et, et), et)


def stdarr(vals, et="double"):
    return Arr(list(vals), "array", "std::array<%s, %d>" % (et, len(vals)), et)


def uf(name, dirs, args):
    """uninterpreted function (or its partial derivative along sorted dirs)"""
    return T("uf:%s|%s" % (name, "".join(str(d) for d in sorted(dirs))), *args)


def uf_hooks(dims=(1, 2, 3)):
    h = {}
    for d in dims:
        base = "qugar::impl::DomainFunc<%d, 1>" % d

        def mk(kind, d):
            def hook(ev, f, args, o):
                if not (isinstance(o, Obj) and o.cls.startswith("qv::UF:")):
                    return NotImplemented
                nm = o.cls[7:]
                x = [c for c in ev.rv(args[0]).d]
                if kind == "v":
                    return uf(nm, [], x)
                et = ev.rv(args[0]).et
                if kind == "g":
                    return vec([uf(nm, [i], x) for i in range(d)], et)
                return vec([uf(nm, [i, j], x) for i in range(d) for j in range(i, d)], et)

            return hook

        h[base + "::operator()"] = mk("v", d)
        h[base + "::grad"] = mk("g", d)
        h[base + "::hessian"] = mk("h", d)
    return h


def find_ctor(P, cls, types=None, np_=None, names=None):
    """constructors of cls (or inherited constructors), largest first"""
    out = []
    for F in P.funcs.values():
        if F.cls == cls and "inits" in F.d and F.body is not None and not F.d.get("defaulted"):
            ts = [F.tu.types[p["t"]] for p in F.params]
            if len(ts) == 1 and ts[0] == cls:
                continue
            if types is not None and not (len(ts) == len(types) and all(re.search(t, x) for t, x in zip(types, ts))):
                continue
            if np_ is not None and len(ts) != np_:
                continue
            out.append(F)
    return sorted(out, key=lambda F: -len(F.params))


def construct(ev, cls, args, F=None):
    if F is None:
        c = [G for G in find_ctor(ev.prog, cls) if len(G.params) == len(args)]
        if not c:
            raise AnalysisBroken("no constructor of %s with %d parameters" % (cls, len(args)))
        F = c[0]
    o = ev.new_object(cls)
    ev.call(F, args, o)
    return o


def affine(ev, d, name="A"):
    cls = IMPL + "AffineTransf<%d>" % d
    n = d * (d + 1)
    F = find_ctor(ev.prog, cls, [r"^algoim::uvector<double, %d>$" % n])
    if not F:
        raise AnalysisBroken("constructor of %s from coefficients" % cls)
    return construct(ev, cls, [svec(name, n)], F[0])


def refsys(ev, d, name="S"):
    cls = IMPL + "RefSystem<%d>" % d
    F = find_ctor(ev.prog, cls, [r"uvector<double, %d>" % d, r"^std::array<"])
    if not F:
        raise AnalysisBroken("constructor of %s from a basis" % cls)
    return construct(ev, cls, [svec(name + "o", d), stdarr([svec("%sb%d_" % (name, i), d) for i in range(d)], "algoim::uvector<double, %d>" % d)], F[0])


def symarg(ev, ty, name):
    """symbolic value of a parameter type (None if the type is not supported)"""
    if ty in ("double", "float"):
        return tm.sym(name)
    u = uv_args(ty)
    if u and u[0] == "double":
        return svec(name, u[1])
    m = re.match(r"^std::array<double, (\d+)>$", ty)
    if m:
        return stdarr([tm.sym("%s%d" % (name, i)) for i in range(int(m.group(1)))])
    m = re.match(r"^qugar::impl::AffineTransf<(\d)>$", ty)
    if m:
        return affine(ev, int(m.group(1)), name)
    m = re.match(r"^qugar::impl::RefSystem<(\d)>$", ty)
    if m:
        return refsys(ev, int(m.group(1)), name)
    m = re.match(r"^std::shared_ptr<const qugar::impl::DomainFunc<(\d), 1>>$", ty)
    if m:
        return Ptr(Obj("qv::UF:" + name))
    return None


class Sampler:
    """points of the parameter space, restricted to the region of a path"""

    def __init__(self, K=512, lo=-1.9, hi=1.9, pos=0.3, ranges=None, seed=0):
        self.K, self.lo, self.hi, self.pos = K, lo, hi, pos
        self.ranges = ranges or {}
        self.seed = seed
        self.v = {}
        self.memo = {}
        self.keep = []

    def get(self, name):
        if name not in self.v:
            import zlib

            r = np.random.RandomState((zlib.crc32(repr(name).encode()) + self.seed * 7919) & 0x7FFFFFFF)
            rg = self.ranges.get(name)
            h = self.K // 2
            if rg and len(rg) == 3 and rg[2]:
                self.v[name] = r.randint(rg[0], rg[1] + 1, size=self.K).astype(float)
            elif rg:
                self.v[name] = r.uniform(rg[0], rg[1], size=self.K)
            else:
                self.v[name] = np.concatenate([r.uniform(self.pos, self.hi, size=h), r.uniform(self.lo, self.hi, size=self.K - h)])
        return self.v[name]

    def val(self, t):
        if not isinstance(t, T):
            return np.full(self.K, float(t)), np.full(self.K, abs(float(t)))
        return tm.evalt(t, self)

    def region(self, pc):
        ok = np.ones(self.K, bool)
        for c, pol in pc.items():
            v, _ = self.val(c)
            ok &= np.isfinite(v) & ((v != 0) == pol)
        return ok

    def same(self, a, b, pc=None, tol=1e-7):
        """(True|False|None, detail): value terms equal on the region of pc"""
        if isinstance(a, Undef) or isinstance(b, Undef):
            return None, "uninitialised"
        if a is b:
            return True, ""
        ok = self.region(pc or {})
        va, ma = self.val(a)
        vb, mb = self.val(b)
        ok &= np.isfinite(va) & np.isfinite(vb) & np.isfinite(ma) & np.isfinite(mb)
        if ok.sum() < 3:
            return None, "region of the path not sampled"
        d, s = np.abs(va - vb)[ok], np.maximum(ma, mb)[ok] + 1e-12
        ok2 = s < 1e9
        if ok2.sum() >= 3:
            d, s = d[ok2], s[ok2]
        bad = d > tol * s
        if not bad.any():
            return True, ""
        if bad.sum() < max(2, 0.02 * len(d)):
            return None, "inconclusive"
        k = int(np.argmax(d / s))
        return False, "extracted term %s differs from %s (by %.3g at a sample point)" % (tm.show(a, 160), tm.show(b, 160), d[k])


def same_struct(S, a, b, pc=None):
    """compare nested Arr/list values term-wise"""
    la = a.d if isinstance(a, Arr) else a
    lb = b.d if isinstance(b, Arr) else b
    if isinstance(la, list) or isinstance(lb, list):
        if not (isinstance(la, list) and isinstance(lb, list)):
            return None, "shape"
        if len(la) != len(lb):
            return False, "lengths %d and %d" % (len(la), len(lb))
        und = None
        for i, (x, y) in enumerate(zip(la, lb)):
            r, d = same_struct(S, x, y, pc)
            if r is False:
                return False, "component %d: %s" % (i, d)
            if r is None:
                und = d
        return (True, "") if und is None else (None, und)
    return S.same(la, lb, pc)


def method(P, cls, name, types=None, cls_tpl=None):
    """the routines of cls with that name (with a body), optionally by parameter type patterns"""
    out = []
    for F in P.funcs.values():
        if F.cls == cls and F.f["n"] == name and F.body is not None:
            ts = [F.tu.types[p["t"]] for p in F.params]
            if types is not None and not (len(ts) == len(types) and all(re.search(t, x) for t, x in zip(types, ts))):
                continue
            out.append(F)
    return out


def need(P, cls, name, types=None):
    r = method(P, cls, name, types)
    if not r:
        raise AnalysisBroken("routine %s::%s%s not found" % (cls, name, types or ""))
    return r[0]


def freefn(P, q, types=None):
    out = []
    for F in P.funcs.values():
        if F.q.split("<")[0] == q and F.body is not None:
            ts = [F.tu.types[p["t"]] for p in F.params]
            if types is not None and not (len(ts) == len(types) and all(re.search(t, x) for t, x in zip(types, ts))):
                continue
            out.append(F)
    return out


def decide(ctx, P, fn, spec, ranges=({},), cap=32, hooks=None, rel=None, max_steps=4000000, want_throw=None, prep=None):
    """evaluate fn(ev) on every path; spec(result, S, pc) -> (ok, detail).
    True if every decided path is fine and at least one is decided."""
    done, why = 0, None
    def mk():
        ev = Eval(P, hooks=hooks if hooks is not None else uf_hooks(), max_steps=max_steps)
        if prep:
            prep(ev)
        return ev

    for ev, out, r in paths(mk, fn, cap):
        for G in ev.called:
            ctx.unit("functions", G.q)
        if out == "oob":
            # an access outside its array: a violation on a path that inputs reach
            if any(Sampler(seed=ctx.seed, ranges=rg).region(ev.pc).sum() >= 3 for rg in ranges):
                return False, "undefined behaviour: %s" % r
            continue
        if out != "ok":
            continue
        oks = []
        for rg in ranges:
            S = Sampler(seed=ctx.seed, ranges=rg)
            ok, det = spec(r, S, ev.pc)
            if ok is False:
                return False, det
            oks.append(ok)
            if ok is None:
                why = det
        if True in oks:
            done += 1
    return (True, "") if done else (None, why or "no path could be evaluated")


def allsame(S, pc, pairs):
    """pairs: (label, extracted, specified)"""
    und = None
    for lab, a, b in pairs:
        a = a.d if isinstance(a, Arr) else a
        b = b.d if isinstance(b, Arr) else b
        if isinstance(a, list) or isinstance(b, list):
            ok, det = same_struct(S, a, b, pc)
        else:
            ok, det = S.same(a, b, pc)
        if ok is False:
            return False, "%s: %s" % (lab, det)
        if ok is None:
            und = "%s: %s" % (lab, det)
    return (True, "") if und is None else (None, und)
