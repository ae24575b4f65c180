"""C32: the C interface to basix. C33: state shared by threads."""
import os
from ..cxxsym import *
from ..cxxprog import REPO
from ..cxxeval import Opaque, Oob

SRC = REPO + "/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp"
_p = {}


def prog():
    if "p" not in _p:
        if not os.path.exists(SRC):
            raise AnalysisBroken("no shim source")
        _p["p"] = Program([SRC])
        if _p["p"].errors.get(SRC):
            raise AnalysisBroken("the front end reports %d errors on the shim" % _p["p"].errors[SRC])
    return _p["p"]


class Bad(Exception):
    """a definite error of the evaluated history"""


class Lib:
    """model of basix and its elements; one evaluation = one history of calls"""

    def __init__(self, P):
        self.P = P
        self.ev = Eval(P, hooks=self.hooks(), max_steps=2000000)
        self.fail, self.made, self.tabs, self.bad = {}, [], [], []
        self.units = set()

    def hooks(self):
        return {"basix::create_element": self.create, "m:tabulate_shape": self.shape, "m:tabulate": self.tabulate,
                "m:push_back": self.alloc("push_back"), "m:emplace_back": self.alloc("push_back"), "m:resize": self.alloc("resize"),
                "m:assign": self.alloc("resize"), "m:reserve": self.alloc("resize")}

    def throw(self, what):
        how = self.fail.pop(what, None)
        if how:
            self.failed = what
            raise CxxThrow(Obj({"std": "std::runtime_error", "alloc": "std::bad_alloc", "other": "qv::NotAnException"}[how]))

    def alloc(self, what):
        def h(ev, f, args, o):
            self.throw(what)
            return NotImplemented

        return h

    def create(self, ev, f, args, o):
        self.throw("create")
        a = [ev.rv(x) for x in args][:6]
        e = Obj("qv::Element")
        T_ = f.get("ta") or []
        e.f["id"] = len(self.made)
        self.made.append((str(T_[0]) if T_ else "?", [int(x) if isinstance(x, (int, bool)) else x for x in a]))
        return e

    def dims(self, e, nd, n):
        return [(nd + 1) * (nd + 2) // 2, n, 2 + e.f["id"] % 3, 1 + e.f["id"] % 2]

    def shape(self, ev, f, args, o):
        if not (isinstance(o, Obj) and o.cls == "qv::Element"):
            return NotImplemented
        self.throw("shape")
        return Arr(self.dims(o, ev.rv(args[0]), ev.rv(args[1])), "array", "std::array<unsigned long, 4>", "unsigned long")

    def tabulate(self, ev, f, args, o):
        if not (isinstance(o, Obj) and o.cls == "qv::Element"):
            return NotImplemented
        self.throw("tabulate")
        v = [ev.rv(x) for x in args]
        nd, x, sh = v[0], v[1], v[2]
        sh = [int(k) for k in sh.d]
        nx = x.n if isinstance(x, Span) else None
        if nx is None:
            raise Undecided("points are not a span")
        self.tabs.append((o.f["id"], nd, [x.getat(i) for i in range(nx)], sh))
        d = self.dims(o, nd, sh[0])
        need = d[0] * d[1] * d[2] * d[3]
        vals = [tm.sym("B_%d_%d_%d_%d" % (o.f["id"], nd, sh[0], k)) for k in range(need)]
        if len(v) < 4:
            r = Obj("std::pair<>")
            r.f["first"], r.f["second"] = stdvec(vals), stdarr(d, "unsigned long")
            return r
        b = v[3]
        if b.n < need:
            self.bad.append("basix is given room for %d values, it writes %d" % (b.n, need))
        for k in range(min(need, b.n)):
            b.setat(k, vals[k])
        self.last = vals

    def call(self, name, *args):
        F = self.P.funcs.get(name)
        if F is None or F.body is None:
            raise AnalysisBroken("entry point %s of the shim" % name)
        try:
            return self.ev.rv(self.ev.call(F, list(args)))
        except CxxThrow as e:
            return e
        except Oob as e:
            raise Bad("access outside its array: %s" % e)


def ptr(vals, n=0):
    a = Arr(list(vals), "carr", "double[]", "double")
    return It(a, 0)


def run_C32(ctx):
    P = prog()
    w = "python/qugar/dolfinx/_shim/qugar_basix_shim.cpp"
    attempt = ctx.attempt

    def guarded(rule, key, fn, where=""):
        def g():
            try:
                return fn()
            except Bad as e:
                return False, str(e)

        return attempt(rule, key, g, where)

    keys = [(1, 2, 1, 2, 1, 0), (1, 2, 1, 2, 1, 1), (1, 2, 2, 2, 1, 0), (1, 3, 1, 2, 1, 0), (2, 2, 1, 2, 1, 0), (1, 2, 1, 1, 1, 0), (1, 2, 1, 2, 0, 0), (2, 1, 2, 1, 2, 0), (8, 4, 3, 0, 6, 1), (2, 2, 2, 2, 2, 1)]
    SUF = {"f64": "double", "f32": "float"}

    def fresh():
        return Lib(P)

    def note(L):
        for G in L.ev.called:
            ctx.unit("functions", G.q)

    for s, ty in SUF.items():
        o = "f32" if s == "f64" else "f64"
        reg, size = "qugar_register_element_" + s, "qugar_registry_size_" + s

        def dedup(order):
            def f():
                L = fresh()
                h = {}
                for n, k in enumerate(order):
                    r = L.call(reg, *keys[k])
                    if not isinstance(r, int) or r < 0:
                        return False, "element %s is not registered: %s" % (keys[k], r)
                    if k in h and h[k] != r:
                        return False, "element %s has handles %d and %d" % (keys[k], h[k], r)
                    if k not in h and r in h.values():
                        return False, "elements %s and %s share the handle %d" % (keys[k], keys[[a for a in h if h[a] == r][0]], r)
                    if k not in h:
                        t, a = L.made[-1]
                        if len(L.made) != len(h) + 1:
                            return False, "%d elements are created for %d different ones" % (len(L.made), len(h) + 1)
                        if a != list(keys[k]) or (t != "?" and t != ty):
                            return False, "for %s (%s) element %s (%s) is created" % (keys[k], ty, a, t)
                    h[k] = r
                if len(L.made) != len(h) or L.call(size) != len(h):
                    return False, "%d elements are created, %s counted, for %d different ones" % (len(L.made), L.call(size), len(h))
                if L.call("qugar_registry_size_" + o) != 0:
                    return False, "elements of the other real type appear"
                note(L)
                return True, ""

            return f

        for i, order in enumerate(([0], [0, 0], [0, 1, 0, 1], list(range(10)), list(range(10)) + list(range(9, -1, -1)), [3, 1, 3, 2, 1, 9, 3, 7, 7], [5, 0, 6, 5, 6, 0, 8])):
            guarded("one handle per element", "%s, sequence %d" % (s, i), dedup(order), w)

        def both():
            L = fresh()
            a = L.call("qugar_register_element_f64", *keys[0])
            b = L.call("qugar_register_element_f32", *keys[0])
            c = L.call("qugar_register_element_f32", *keys[1])
            d = L.call("qugar_register_element_f64", *keys[1])
            if [x for x, _ in L.made if x != "?"] not in ([], ["double", "float", "float", "double"]) or len(L.made) != 4:
                return False, "elements created: %s" % L.made
            for x, h, i in (("f64", a, 0), ("f32", b, 1), ("f32", c, 2), ("f64", d, 3)):
                if not isinstance(h, int) or h < 0:
                    return False, "registration fails"
                r = L.call("qugar_tabulate_" + x, h, 1, ptr([tm.sym("x0")]), 1, 1, ptr([tm.sym("u%d" % k) for k in range(60)]), 60)
                if r != 0 or L.tabs[-1][0] != i:
                    return False, "handle %d of %s tabulates element %s" % (h, x, L.tabs[-1:])
            return True, ""

        guarded("one handle per element", s + ", both real types", both, w)

        def interleaved(k, at, mine, same):
            """another thread registers elements while this one waits for its at-th lock"""
            def f():
                L = fresh()
                hs = {j: L.call(reg, *keys[j]) for j in mine}
                got, cnt = {}, [0]

                def sync(name):
                    if "mutex" in name:
                        return
                    cnt[0] += 1
                    if cnt[0] == at:
                        L.ev.on_sync = None
                        for j in same:
                            got[j] = L.call(reg, *keys[j])
                        L.ev.on_sync = sync

                L.ev.on_sync = sync
                hs[k] = L.call(reg, *keys[k])
                L.ev.on_sync = None
                if not got:
                    return True, ""
                for j in list(hs) + list(got):
                    r = L.call(reg, *keys[j])
                    for o_ in (hs, got):
                        if j in o_ and o_[j] != r:
                            return False, "element %s gets handle %s in one thread and %s later" % (keys[j], o_[j], r)
                n = len(set(hs) | set(got))
                if len(set({**hs, **got}.values())) != n or len(L.made) != n:
                    return False, "%d elements are created for %d different ones when two threads register them" % (len(L.made), n)
                for j in hs:
                    L.call("qugar_tabulate_" + s, hs[j], 0, ptr([tm.sym("x0")]), 1, 1, ptr([tm.sym("u%d" % q) for q in range(60)]), 60)
                    if L.made[L.tabs[-1][0]][1] != list(keys[j]):
                        return False, "handle of %s tabulates %s" % (keys[j], L.made[L.tabs[-1][0]][1])
                return True, ""

            return f

        for at in (1, 2, 3):
            for mine, same in (((), (0,)), ((1, 2), (0,)), ((), (3, 0)), ((0,), (4,)), ((1,), (4, 0, 5)), ((), (4,))):
                guarded("two threads", "%s, lock %d, %s before, %s by the other" % (s, at, mine, same), interleaved(0, at, mine, same), w)

        def failing(what, how, before):
            def f():
                L = fresh()
                hs = [L.call(reg, *keys[k]) for k in range(before)]
                n0 = len(L.made)
                L.fail = {what: how}
                r = L.call(reg, *keys[5])
                if isinstance(r, CxxThrow):
                    return False, "the exception crosses the C interface"
                if what in L.fail:
                    return True, ""
                if not isinstance(r, int) or r >= 0:
                    return False, "the failure is reported as handle %s" % r
                r2 = L.call(reg, *keys[5])
                if not isinstance(r2, int) or r2 < 0 or r2 in hs:
                    return False, "after the failure the element gets handle %s, others have %s" % (r2, hs)
                n1 = len(L.made)
                if L.call(reg, *keys[5]) != r2 or len(L.made) != n1:
                    return False, "after a failure the element is created again"
                for k in range(before):
                    if L.call(reg, *keys[k]) != hs[k]:
                        return False, "the failure changes the handle of another element"
                L.call("qugar_tabulate_" + s, r2, 0, ptr([tm.sym("x0")]), 1, 1, ptr([tm.sym("u%d" % k) for k in range(60)]), 60)
                e = L.tabs[-1][0] if L.tabs else None
                if e is None or L.made[e][1] != list(keys[5]):
                    return False, "after a failure the handle tabulates another element"
                return True, ""

            return f

        for what in ("create", "push_back"):
            for how in ("std", "alloc", "other"):
                for before in (0, 2):
                    guarded("failures when registering", "%s, %s in %s, after %d" % (s, how, what, before), failing(what, how, before), w)

        def tab(n, gdim, nd, nel, which, room, fail=None):
            def f():
                L = fresh()
                hs = [L.call(reg, *keys[k]) for k in range(nel)]
                if any(not isinstance(h, int) or h < 0 for h in hs):
                    return False, "registration fails"
                h = hs[which] if 0 <= which < nel else (-1 if which < 0 else nel if which == nel else which)
                if which == -5:
                    h = -2147483648
                pts = [tm.sym("x%d" % i) for i in range(n * gdim + 3)]
                X = ptr(pts)
                good = 0 <= which < nel
                d = L.dims(dict2(hs.index(h)), nd, n) if good else [1, 1, 1, 1]
                need = d[0] * d[1] * d[2] * d[3]
                # shape
                S4 = [tm.sym("s%d" % i) for i in range(4)]
                sp = ptr(S4)
                L.fail = {"shape": fail} if fail and "shape" in fail_at else {}
                r = L.call("qugar_tabulate_shape_" + s, h, nd, n, sp)
                if isinstance(r, CxxThrow):
                    return False, "an exception crosses the C interface"
                if L.fail:
                    L.fail = {}
                elif good and not fail:
                    if r != 0 or sp.c.d[:4] != d:
                        return False, "shape %s (code %s), the element's is %s" % (sp.c.d, r, d)
                if not good or (fail and "shape" in fail_at):
                    if not isinstance(r, int) or r >= 0:
                        return False, "%s is not reported by the shape" % ("an invalid handle" if not good else "a failure")
                    if sp.c.d != S4:
                        return False, "the shape is written although an error is returned"
                cap = need + room
                buf = [tm.sym("u%d" % i) for i in range(max(cap, 0) + 3)]
                B = ptr(buf)
                L.fail = {fail_at: {"shape": fail, "tabulate": fail}[fail_at]} if fail else {}
                r = L.call("qugar_tabulate_" + s, h, nd, X, n, gdim, B, cap)
                L.fail = {}
                if isinstance(r, CxxThrow):
                    return False, "an exception crosses the C interface"
                if L.bad:
                    return False, L.bad[0]
                if not good or room < 0 or fail:
                    if not isinstance(r, int) or r >= 0:
                        return False, "%s gives code %s" % ("an invalid handle" if not good else "a buffer that is too small" if room < 0 else "a failure", r)
                    if B.c.d != buf:
                        return False, "the buffer is written although an error is returned"
                    return True, ""
                if r != 0:
                    return False, "tabulation gives code %s" % r
                if len(L.tabs) != 1:
                    return False, "the element is tabulated %d times" % len(L.tabs)
                e, nd2, x2, sh = L.tabs[0]
                if L.made[e][1] != list(keys[which]):
                    return False, "handle of %s tabulates %s" % (keys[which], L.made[e][1])
                if nd2 != nd or sh != [n, gdim] or x2 != pts[: n * gdim]:
                    return False, "tabulates derivatives %s at %s values of shape %s, asked %s at %d points of dimension %d" % (nd2, len(x2), sh, nd, n, gdim)
                if any(a is not b for a, b in zip(B.c.d[:need], L.last)) or B.c.d[need:] != buf[need:]:
                    return False, "the tables are not those of basix in its order"
                note(L)
                return True, ""

            fail_at = fail[1] if fail else ""
            fail = fail[0] if fail else None
            return f

        class dict2:
            def __init__(self, i):
                self.f = {"id": i}

        for n, gdim, nd in ((1, 1, 0), (3, 2, 1), (2, 3, 2), (5, 3, 0), (0, 2, 1), (4, 2, 0)):
            for nel, which in ((1, 0), (3, 0), (3, 1), (3, 2)):
                for room in (0, 2):
                    guarded("tabulation", "%s, %d points, gdim %d, derivatives %d, element %d of %d, %d spare" % (s, n, gdim, nd, which, nel, room), tab(n, gdim, nd, nel, which, room), w)
            if n:
                guarded("small buffers", "%s, %d points, gdim %d" % (s, n, gdim), tab(n, gdim, nd, 2, 1, -1), w)
            guarded("invalid handles", "%s, %d points, none registered" % (s, n), tab(n, gdim, nd, 0, 0, 0), w)
            for which in (-1, -5, 2, 7, 2147483647):
                guarded("invalid handles", "%s, %d points, handle %d" % (s, n, which), tab(n, gdim, nd, 2, which, 0), w)
        for at in ("shape", "tabulate"):
            for how in ("std", "alloc", "other"):
                guarded("failures when tabulating", "%s, %s in %s" % (s, how, at), tab(2, 2, 1, 2, 1, 0, (how, at)), w)

        def scratch(sizes):
            def f():
                L = fresh()
                buf, ret = None, "qugar_get_scratch_" + s
                for i, n in enumerate(sizes):
                    p = L.call(ret, n)
                    if isinstance(p, CxxThrow):
                        return False, "an exception crosses the C interface"
                    c = p.c if isinstance(p, (It, Span)) else None
                    if c is None:
                        return False, "no buffer for %d values" % n
                    if isinstance(p, It) and p.i != 0 and len(c.d) - p.i < n or len(c.d) < n:
                        return False, "the buffer has room for %d values, asked %d" % (len(c.d) - p.i, n)
                    if any(isinstance(x, Undef) for x in c.d[:0]):
                        return None, ""
                q = L.call("qugar_get_scratch_" + o, 1)
                if isinstance(q, It) and q.c is c:
                    return False, "both real types share a buffer"
                return True, ""

            return f

        for sizes in ([1], [7, 3], [3, 7], [0, 5], [4, 4, 9, 2], [100, 1, 101]):
            guarded("scratch buffers", "%s, sizes %s" % (s, sizes), scratch(sizes), w)

        def scratchfail(how):
            def f():
                L = fresh()
                L.call("qugar_get_scratch_" + s, 4)
                L.fail = {"resize": how}
                p = L.call("qugar_get_scratch_" + s, 9)
                if isinstance(p, CxxThrow):
                    return False, "the exception crosses the C interface"
                if "resize" in L.fail:
                    return None, "no allocation seen"
                if isinstance(p, (It, Span, Ptr)):
                    return False, "a buffer is returned although the allocation failed"
                p = L.call("qugar_get_scratch_" + s, 9)
                return (isinstance(p, It) and len(p.c.d) >= 9), "no buffer after a failed allocation"

            return f

        for how in ("std", "alloc", "other"):
            guarded("scratch buffers", "%s, %s when growing" % (s, how), scratchfail(how), w)

    def reset():
        L = fresh()
        for s in SUF:
            for k in range(3):
                L.call("qugar_register_element_" + s, *keys[k])
        r = L.call("qugar_shim_reset")
        if isinstance(r, CxxThrow):
            return False, "throws"
        for s in SUF:
            if L.call("qugar_registry_size_" + s) != 0:
                return False, "elements of %s survive" % s
            if L.call("qugar_tabulate_" + s, 0, 0, ptr([tm.sym("x")]), 1, 1, ptr([0] * 60), 60) != -3 and L.tabs:
                return False, "handles survive"
        n = len(L.made)
        for s in SUF:
            hs = [L.call("qugar_register_element_" + s, *keys[k]) for k in (2, 0, 1)]
            if len(set(hs)) != 3 or min(hs) < 0:
                return False, "after a reset the handles are %s" % hs
            for j, k in enumerate((2, 0, 1)):
                if L.call("qugar_tabulate_" + s, hs[j], 0, ptr([tm.sym("x")]), 1, 1, ptr([0] * 60), 60) != 0:
                    return False, "after a reset a registered element cannot be tabulated"
                if L.made[L.tabs[-1][0]][1] != list(keys[k]):
                    return False, "after a reset a handle means another element"
        return len(L.made) == n + 6, "after a reset %d elements are created, 6 are registered" % (len(L.made) - n)

    guarded("reset", "both real types", reset, w)


    # ------------------------------------- the C declarations of the kernels
    from . import pykernel as pk
    from ..cmini import Parser
    from ..pysym import pydecide

    def norm(words):
        t = [x for x in words if x not in ("const", "extern", "restrict", "volatile", "struct")]
        return " ".join(t).replace(" *", "*").replace("* ", "*")

    def cxxnorm(t):
        return norm(t.replace("*", " * ").split())

    def split(words):
        i = words.index("(")
        name, ret, inner = words[i - 1], words[: i - 1], words[i + 1 : len(words) - 1 - words[::-1].index(")")]
        ps, cur, prev = [], [], None
        for x in inner:
            if x == ",":
                ps.append(cur)
                cur = []
            else:
                cur.append(x)
        if cur and cur != ["void"]:
            ps.append(cur)
        known = {"int", "long", "float", "double", "char", "unsigned", "short", "size_t", "ptrdiff_t", "*", "const", "restrict", "int64_t", "int32_t", "bool", "_Bool"}
        return name, norm(ret), [norm([x for x in p if x in known]) for p in ps]

    for n, dt in enumerate(pk.CT):
        def f():
            k = None
            for seed in range(n, n + 4000, 100):
                try:
                    k = pk.Kern(seed, itype="cell", tdim=2, dt=dt, quads=(("083", 4, False),), ncoef=1, nargs=1)
                    break
                except ValueError:
                    continue

            def go(it):
                return k.generate(it)

            def spec(it, v, S):
                impl = v[0].f["integrals"][0]
                text = impl[1]
                if not isinstance(text, str):
                    raise Undecided("generated code is not a known text")
                p_ = Parser(text)
                p_.program()
                pr = {a: b for a, b in p_.protos.items() if a.startswith("qugar_")}
                if not pr:
                    raise Undecided("no declarations of the shim")
                for name, words in pr.items():
                    F = P.funcs.get(name)
                    if F is None or F.body is None:
                        return False, "kernels call %s, the shim does not define it" % name
                    if not F.d.get("externc"):
                        return False, "%s has no C linkage" % name
                    _, ret, ps = split(words)
                    want = [cxxnorm(F.tu.types[p["t"]]) for p in F.params]
                    if ps != want:
                        return False, "kernels declare %s(%s), the shim defines (%s)" % (name, ", ".join(ps), ", ".join(want))
                    rt = F.d.get("rt") or F.f.get("rt")
                    if rt is not None:
                        rt = cxxnorm(F.tu.types[rt] if isinstance(rt, int) else rt)
                        if rt != ret:
                            return False, "kernels declare that %s returns %s, the shim returns %s" % (name, ret, rt)
                return True, ""

            return pydecide(ctx, go, spec, hooks=k.hooks())

        guarded("declarations in the kernels", dt, f, w)
