"""C14: reparameterization meshes."""
import itertools, math, random, re
from .. import terms as tm
from ..cxxsym import *
from ..report import wh
from .poly import X, box, deref, tids, tensize, size, boxranges

S_ = tm.sym
KINDS = [(1, 2), (2, 2), (2, 3), (3, 3)]
SIZET = "unsigned long"


def base(dim, rg):
    return "qugar::ReparamMesh<%d, %d>" % (dim, rg)


def impl(dim, rg):
    return IMPL + "ImplReparamMesh<%d, %d>" % (dim, rg)


def M(P, dim, rg, name, types=None):
    for c in (impl(dim, rg), base(dim, rg)):
        r = [F for F in method(P, c, name) if types is None or (len(F.params) == len(types) and all(re.search(t, F.tu.types[p["t"]]) for t, p in zip(types, F.params)))]
        if r:
            return r
    raise AnalysisBroken("%s of %s not found" % (name, base(dim, rg)))


def new(ev, dim, rg, order):
    F = find_ctor(ev.prog, impl(dim, rg), np_=1)
    if not F:
        raise AnalysisBroken("constructor of " + impl(dim, rg))
    return construct(ev, impl(dim, rg), [order], F[0])


def get(ev, o, dim, rg, what):
    r = ev.rv(ev.call(M(ev.prog, dim, rg, what)[0], [], o))
    return list(r.d) if isinstance(r, Arr) else r


def state(ev, o, dim, rg):
    """(points, cells as lists of point ids, wires as lists of point ids)"""
    pts = [list(p.d) for p in get(ev, o, dim, rg, "get_points")]
    con = get(ev, o, dim, rg, "get_connectivity")
    wir = get(ev, o, dim, rg, "get_wires_connectivity")
    n = get(ev, o, dim, rg, "get_order")
    c = n ** dim
    return pts, [con[i:i + c] for i in range(0, len(con), c)], [wir[i:i + n] for i in range(0, len(wir), n)]


def fill(ev, o, dim, rg, cells):
    """adds cells given by the coordinates of their points (direction 0 fastest)"""
    al = M(ev.prog, dim, rg, "allocate_cells")[0]
    ins = M(ev.prog, dim, rg, "insert_cell_point")[0]
    first = ev.rv(ev.call(al, [len(cells)], o))
    for k, pts in enumerate(cells):
        for i, p in enumerate(pts):
            ev.call(ins, [vec(p), first + k, i], o)
    return first


def coords(st):
    pts, cells, wires = st
    return [[pts[i] for i in c] for c in cells], [[pts[i] for i in w] for w in wires]


def gens(n, rg, nm):
    return [[S_("%s%d_%d" % (nm, i, c)) for c in range(rg)] for i in range(n)]


def prep(ev):
    ev.uvzero = True


def node(i, n):
    return T("cheb", i, n) if n >= 7 else i / (n - 1)


def xnode(i, n):
    return 0.5 - 0.5 * math.cos(math.pi * i / (n - 1)) if n >= 7 else i / (n - 1)


_lagc = {}


def lagn(i, n, der=0):
    """value or derivative of a Lagrange polynomial at the centre"""
    k = (i, n, der)
    if k not in _lagc:
        xi, o = xnode(i, n), [xnode(j, n) for j in range(n) if j != i]
        if not der:
            v = math.prod((0.5 - x) / (xi - x) for x in o)
        else:
            v = sum(math.prod([1 / (xi - x)] + [(0.5 - y) / (xi - y) for l, y in enumerate(o) if l != m]) for m, x in enumerate(o))
        _lagc[k] = tm.N(v)
    return _lagc[k]


def interp(pts, dim, n, der=None):
    """value (or derivative along a direction) at the centre of the map with these nodes"""
    out = [0] * len(pts[0])
    for k, t in enumerate(tids([n] * dim)):
        b = 1
        for d, i in enumerate(t):
            b = tm.mul(b, lagn(i, n, 1 if d == der else 0))
        out = [tm.add(o, tm.mul(b, c)) for o, c in zip(out, pts[k])]
    return out


def det(J):
    if len(J) == 2:
        return tm.sub(tm.mul(J[0][0], J[1][1]), tm.mul(J[0][1], J[1][0]))
    r = 0
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        r = tm.add(r, tm.mul(J[0][i], tm.sub(tm.mul(J[1][j], J[2][k]), tm.mul(J[1][k], J[2][j]))))
    return r


def normal(J):
    if len(J) == 1:
        return [J[0][1], tm.neg(J[0][0])]
    a, b = J
    return [tm.sub(tm.mul(a[1], b[2]), tm.mul(a[2], b[1])), tm.sub(tm.mul(a[2], b[0]), tm.mul(a[0], b[2])), tm.sub(tm.mul(a[0], b[1]), tm.mul(a[1], b[0]))]


def symmetries(dim, n):
    """the ways to renumber the nodes of a cell that keep the mapped set (permutations and reversals)"""
    out = []
    for pm in itertools.permutations(range(dim)):
        for fl in itertools.product((0, 1), repeat=dim):
            ids = tids([n] * dim)
            pos = {t: k for k, t in enumerate(ids)}
            out.append([pos[tuple((n - 1 - t[pm[d]]) if fl[d] else t[pm[d]] for d in range(dim))] for t in ids])
    return out


def positive(S, pc, t, strict=False):
    m = S.region(pc)
    v, s = S.val(t)
    import numpy as np

    m &= np.isfinite(v)
    if m.sum() < 2:
        return None, "region of the path not sampled"
    bad = m & (v < -1e-9 * (s + 1e-12))
    if bad.sum() >= max(2, 0.02 * m.sum()):
        return False, "negative at a sample point"
    return True, ""


def edges(dim, n):
    """local node ids of the edges of a cell"""
    out = []
    for d in range(dim):
        for s in itertools.product((0, n - 1), repeat=dim - 1):
            e = []
            for i in range(n):
                t = list(s)
                t.insert(d, i)
                e.append(sum(c * n ** k for k, c in enumerate(t)))
            out.append(e)
    return out


def num(v):
    if isinstance(v, T):
        return float(tm.evalt(v, tm.Env(K=2))[0][0])
    return float(v)


def canon(path):
    """a wire up to its direction"""
    p = [tuple(round(num(c), 9) for c in x) for x in path]
    return min(tuple(p), tuple(reversed(p)))


def wireset(ws):
    return sorted(canon(w) for w in ws)


def tolobj(ev, v):
    F = find_ctor(ev.prog, "qugar::Tolerance", [r"^double$"])
    if not F:
        raise AnalysisBroken("constructor of Tolerance")
    return construct(ev, "qugar::Tolerance", [v], F[0])


# ------------------------------------------------------------------ building
def building(ctx, P):
    for dim, rg in KINDS:
        for n in (2, 3):
            c = n ** dim
            A, B = gens(c, rg, "a"), gens(2 * c, rg, "b")
            lab = "<%d,%d> order %d" % (dim, rg, n)
            F = M(P, dim, rg, "insert_cell_point")[0]

            def ins(ev):
                o = new(ev, dim, rg, n)
                f0 = fill(ev, o, dim, rg, [A])
                ev.call(M(P, dim, rg, "reserve_cells")[0], [5], o)
                f1 = fill(ev, o, dim, rg, [B[:c], B[c:]])
                st = state(ev, o, dim, rg)
                return [f0, f1, coords(st)[0], get(ev, o, dim, rg, "get_num_cells"), get(ev, o, dim, rg, "get_num_points"), len(st[0])]

            def sp(r, S, pc):
                if r[:2] != [0, 1]:
                    return False, "ids of the new cells: %s" % r[:2]
                if r[3] != 3 or r[4] != 3 * c or r[5] != 3 * c:
                    return False, "%s cells and %s points" % (r[3], r[4])
                return allsame(S, pc, [("points of the cells", r[2], [A, B[:c], B[c:]])])

            ctx.attempt("inserted points are the points of their cell", lab, lambda: decide(ctx, P, ins, sp, prep=prep), wh(F))

            Fm = M(P, dim, rg, "merge")[0]

            def mg(ev):
                o1, o2 = new(ev, dim, rg, n), new(ev, dim, rg, n)
                fill(ev, o1, dim, rg, [A])
                fill(ev, o2, dim, rg, [B[:c], B[c:]])
                if dim == rg:
                    ev.call(M(P, dim, rg, "add_full_cell")[0], [box(ev, rg, "a"), True], o1)
                    ev.call(M(P, dim, rg, "add_full_cell")[0], [box(ev, rg, "b"), True], o2)
                s1, s2 = coords(state(ev, o1, dim, rg)), coords(state(ev, o2, dim, rg))
                ev.call(Fm, [o2], o1)
                return [s1, s2, coords(state(ev, o1, dim, rg)), coords(state(ev, o2, dim, rg))]

            def spm(r, S, pc):
                return allsame(S, pc, [("cells of the result", r[2][0], r[0][0] + r[1][0]), ("wires of the result", r[2][1], r[0][1] + r[1][1]), ("cells of the argument", r[3][0], r[1][0]), ("wires of the argument", r[3][1], r[1][1])])

            ctx.attempt("merged meshes keep all their cells and wires", lab, lambda: decide(ctx, P, mg, spm, prep=prep), wh(Fm))

            # scaling of the points
            Fs = M(P, dim, rg, "scale_points", [r"^std::vector", r"Bound", r"Bound"])[0]
            Fa = M(P, dim, rg, "scale_points", [r"Bound", r"Bound"])[0]
            am, bm = (X(rg, "amin"), X(rg, "amax")), (X(rg, "bmin"), X(rg, "bmax"))

            def mp(p):
                return [tm.add(bm[0][k], tm.mul(tm.sub(p[k], am[0][k]), tm.div(tm.sub(bm[1][k], bm[0][k]), tm.sub(am[1][k], am[0][k])))) for k in range(rg)]

            for sub in (None, [0, c - 1]):
                def sc(ev):
                    o = new(ev, dim, rg, n)
                    fill(ev, o, dim, rg, [A, B[:c]])
                    bx = [box(ev, rg, "a"), box(ev, rg, "b")]
                    if sub is None:
                        ev.call(Fa, bx, o)
                    else:
                        ev.call(Fs, [stdvec(sub, "int")] + bx, o)
                    return coords(state(ev, o, dim, rg))[0]

                w = [[mp(p) if sub is None or i in sub else p for i, p in enumerate(A)], [mp(p) if sub is None else p for p in B[:c]]]
                ctx.attempt("points are mapped from the old to the new box", "%s %s" % (lab, "all points" if sub is None else "some points"), lambda: decide(ctx, P, sc, lambda r, S, pc: allsame(S, pc, [("points", r, w)]), prep=prep, ranges=(boxranges(rg),)), wh(Fs))


def fullcells(ctx, P, th):
    for dim in (2, 3):
        for n in (2, 3, 6, 7) if dim == 2 or th else (2, 4, 7):
            if dim == 3 and n == 7 and not th:
                pass
            for wb in (False, True):
                F = M(P, dim, dim, "add_full_cell")[0]
                lab = "<%d,%d> order %d%s" % (dim, dim, n, " with wirebasket" if wb else "")
                lo, hi = [0.5, -1.0, 0.25][:dim], [1.5, 2.0, 1.0][:dim]

                def fc(ev):
                    o = new(ev, dim, dim, n)
                    for b in "ab":
                        ev.call(F, [box(ev, dim, b), wb], o)
                    return coords(state(ev, o, dim, dim))

                def pts(b):
                    return [[tm.add(S_("%smin%d" % (b, d)), tm.mul(tm.sub(S_("%smax%d" % (b, d)), S_("%smin%d" % (b, d))), node(i, n))) for d, i in enumerate(t)] for t in tids([n] * dim)]

                def sp(r, S, pc):
                    w = [pts("a"), pts("b")]
                    ok, dt = allsame(S, pc, [("nodes", r[0], w)])
                    if ok is not True:
                        return ok, dt
                    if not wb:
                        return (not r[1]), "%d wires were not requested" % len(r[1])
                    ws = [[c[i] for i in e] for c in w for e in edges(dim, n)]
                    ev_ = lambda path: canon([[S.val(c)[0][0] for c in p] for p in path])
                    if sorted(map(ev_, r[1])) != sorted(map(ev_, ws)):
                        return False, "the wires are not the edges of the cells"
                    return True, ""

                ctx.attempt("full cells have their nodes in the box, and their edges as wires", lab, lambda: decide(ctx, P, fc, sp, prep=prep, ranges=(boxranges(dim),)), wh(F))


# ------------------------------------------------------------------ orientation
def orientation(ctx, P, th):
    for dim, rg in KINDS:
        for n in (2, 3, 7) if dim < 3 else ((2, 3, 7) if th else (2, 3)):
            c = n ** dim
            A, B, C = gens(c, rg, "a"), gens(c, rg, "b"), gens(c, rg, "c")
            lab = "<%d,%d> order %d" % (dim, rg, n)
            syms = symmetries(dim, n)

            def check(r, S, pc, sign, sel):
                """cells of sel are renumbered so that sign(points) >= 0; the others are untouched"""
                und = None
                for k, (new_, old) in enumerate(zip(r, (A, B, C))):
                    ids = [old.index(p) if p in old else -1 for p in new_]
                    if k not in sel:
                        if ids != list(range(c)):
                            return False, "a cell that was not requested changed"
                        continue
                    if ids not in syms:
                        return False, "the nodes of the cell are not a renumbering of its directions"
                    ok, dt = positive(S, pc, sign(new_))
                    if ok is False:
                        return False, "orientation of cell %d: %s" % (k, dt)
                    if ok is None:
                        und = dt
                return (True, "") if und is None else (None, und)

            # permutation of the directions of one cell
            Fp = M(P, dim, rg, "permute_cell_directions")[0]

            def pm(ev):
                o = new(ev, dim, rg, n)
                fill(ev, o, dim, rg, [A, B, C])
                ev.call(Fp, [1], o)
                return coords(state(ev, o, dim, rg))[0]

            w = []
            for k, t in enumerate(tids([n] * dim)):
                u = (n - 1 - t[0],) if dim == 1 else (t[1], t[0]) + tuple(t[2:])
                w.append(B[tids([n] * dim).index(u)])
            ctx.attempt("directions of one cell are swapped", lab, lambda: decide(ctx, P, pm, lambda r, S, pc: allsame(S, pc, [("cells", r, [A, w, C])]), prep=prep), wh(Fp))

            if dim == rg:
                cases = [("all cells", None, [0, 1, 2]), ("some cells", [2, 1], [1, 2]), ("one cell", [0], [0])]
                Fall, Fsub = M(P, dim, rg, "orient_cells_positively", [])[0], M(P, dim, rg, "orient_cells_positively", [r"^std::vector"])[0]
                for nm, ids, sel in cases:
                    def go(ev):
                        o = new(ev, dim, rg, n)
                        fill(ev, o, dim, rg, [A, B, C])
                        ev.call(Fall if ids is None else Fsub, [] if ids is None else [stdvec(ids, "int")], o)
                        return coords(state(ev, o, dim, rg))[0]

                    sg = lambda pts: det([interp(pts, dim, n, d) for d in range(dim)])
                    ctx.attempt("the Jacobian at the centre is positive", "%s %s" % (lab, nm), lambda: decide(ctx, P, go, lambda r, S, pc: check(r, S, pc, sg, sel), prep=prep, cap=16, max_steps=40000000), wh(Fsub))
            else:
                for nm, ids, sel in (("all cells", None, [0, 1, 2]), ("some cells", [2, 0], [0, 2])):
                    for fid in range(2 * rg) if n == 2 or th else (0, 2 * rg - 1):
                        Fo = M(P, dim, rg, "orient_facet_cells_positively", [r"^int$"] if ids is None else [r"^int$", r"^std::vector"])[0]

                        def go(ev):
                            o = new(ev, dim, rg, n)
                            fill(ev, o, dim, rg, [A, B, C])
                            ev.call(Fo, [fid] + ([] if ids is None else [stdvec(ids, "int")]), o)
                            return coords(state(ev, o, dim, rg))[0]

                        sg = lambda pts: tm.mul(1 if fid % 2 else -1, normal([interp(pts, dim, n, d) for d in range(dim)])[fid // 2])
                        ctx.attempt("the normal of cells on a facet points outwards", "%s facet %d %s" % (lab, fid, nm), lambda: decide(ctx, P, go, lambda r, S, pc: check(r, S, pc, sg, sel), prep=prep, cap=16, max_steps=40000000), wh(Fo))
                    Fl = M(P, dim, rg, "orient_levelset_cells_positively", [r"reference_wrapper"] if ids is None else [r"reference_wrapper", r"^std::vector<int"])[0]

                    def gl(ev):
                        o = new(ev, dim, rg, n)
                        fill(ev, o, dim, rg, [A, B, C])
                        fs = stdvec([Ptr(Obj("qv::UF:phi"))], "std::reference_wrapper")
                        ev.call(Fl, [fs] + ([] if ids is None else [stdvec(ids, "int")]), o)
                        return coords(state(ev, o, dim, rg))[0]

                    def sg(pts):
                        x = interp(pts, dim, n)
                        nr = normal([interp(pts, dim, n, d) for d in range(dim)])
                        r = 0
                        for k in range(rg):
                            r = tm.add(r, tm.mul(nr[k], uf("phi", [k], x)))
                        return r

                    ctx.attempt("the normal of level set cells points along the gradient", "%s %s" % (lab, nm), lambda: decide(ctx, P, gl, lambda r, S, pc: check(r, S, pc, sg, sel), prep=prep, cap=16, max_steps=40000000), wh(Fl))


# ------------------------------------------------------------------ merging
def merging(ctx, P, th):
    rnd = random.Random(7 + ctx.seed)
    eps = 1e-3
    for dim, rg in KINDS:
        for n in (2, 3, 4) if dim < 3 else (2, 3):
            c = n ** dim
            for case in range(6 if th else 4):
                # a pool of well separated points; cells share points up to the tolerance
                pool = [[rnd.choice([0.0, 0.25, 0.5, 0.75, 1.0, 1.25]) for _ in range(rg)] for _ in range(max(3, c if case else c // 2))]
                ncell = 3
                jit = 0.3 * eps if case % 2 else 0.0
                cells = []
                for k in range(ncell):
                    ids = [rnd.randrange(len(pool)) for _ in range(c)]
                    cells.append([[x + rnd.choice((0, jit)) for x in pool[i]] for i in ids])
                full = dim == rg
                lab = "<%d,%d> order %d sample %d" % (dim, rg, n, case)
                F = M(P, dim, rg, "merge_coincident_points")[0]

                def go(ev):
                    o = new(ev, dim, rg, n)
                    fill(ev, o, dim, rg, cells)
                    if full:
                        # neighbouring full cells: shared edges come twice (or more)
                        G = M(P, dim, rg, "add_full_cell")[0]
                        for sh in itertools.product((0, 1), repeat=dim) if case % 3 else [(0,) * dim, (0,) * dim, (0,) * dim]:
                            ev.call(G, [cbox(ev, [float(s) for s in sh], [s + 1.0 for s in sh]), True], o)
                    before = state(ev, o, dim, rg)
                    ev.call(F, [tolobj(ev, eps)], o)
                    return [before, state(ev, o, dim, rg)]

                def sp(r, S, pc):
                    b, a = r
                    cb, wb = coords(b)
                    ca, wa = coords(a)
                    if len(ca) != len(cb):
                        return False, "%d cells became %d" % (len(cb), len(ca))
                    for x, y in zip(cb, ca):
                        for p, q in zip(x, y):
                            if max(abs(u - v) for u, v in zip(p, q)) > 2 * eps:
                                return False, "a point of a cell moved from %s to %s" % (p, q)
                    for p, q in itertools.combinations(a[0], 2):
                        if max(abs(u - v) for u, v in zip(p, q)) < 0.5 * eps:
                            return False, "coincident points %s and %s remain" % (p, q)
                    used = {i for k in a[1] for i in k}
                    if used != set(range(len(a[0]))):
                        return False, "points that belong to no cell"
                    rd = lambda w: min(tuple(w), tuple(reversed(w)))
                    snap = lambda path: rd(tuple(tuple(round(v / (4 * eps)) for v in p) for p in path))
                    if sorted(map(snap, wa)) != sorted(set(map(snap, wb))):
                        return False, "%d wires: %d remain, %d are different" % (len(wb), len(wa), len(set(map(snap, wb))))
                    return True, ""

                ctx.attempt("merging keeps the geometry and leaves no coincident points or wires", lab, lambda: decide(ctx, P, go, sp, prep=prep, max_steps=40000000), wh(F))


def cbox(ev, lo, hi):
    d = len(lo)
    cls = [c for c in ev.prog.records if c.endswith("BoundBox<%d>" % d)][0]
    u = r"^algoim::uvector<double, %d>$" % d
    return construct(ev, cls, [vec(lo), vec(hi)], find_ctor(ev.prog, cls, [u, u])[0])


# ------------------------------------------------------------------ histories
def histories(ctx, P, th):
    """sequences of operations on meshes whose cells share points already"""
    eps = 1e-3
    for dim, rg in KINDS:
        full = dim == rg
        for n in (2, 3):
            c = n ** dim
            rnd = random.Random(29 + ctx.seed + 10 * dim + n)

            def lattice(sh):
                # nodes of a cell [sh, sh + 1], embedded with a last coordinate for curves and surfaces
                return [[sh[d] + t[d] / (n - 1) for d in range(dim)] + [0.5] * (rg - dim) for t in tids([n] * dim)]

            def mesh(ev, shifts, wires=True):
                o = new(ev, dim, rg, n)
                if full:
                    G = M(P, dim, rg, "add_full_cell")[0]
                    for s in shifts:
                        ev.call(G, [cbox(ev, [float(x) for x in s], [x + 1.0 for x in s]), wires], o)
                else:
                    fill(ev, o, dim, rg, [lattice(s) for s in shifts])
                return o

            shs = [tuple(s) for s in itertools.product((0, 1), repeat=dim)][:3]
            far = (4,) * dim
            Fm = M(P, dim, rg, "merge_coincident_points")[0]
            Fg = M(P, dim, rg, "merge")[0]
            Fs = M(P, dim, rg, "scale_points", [r"Bound", r"Bound"])[0]
            ops = ["insert", "merge", "merge into", "scale", "merge points"] + (["full cell", "full cell with wires", "full cells"] if full else [])
            seqs = [(a,) for a in ops] + (list(itertools.product(ops, repeat=2)) if th else [(a, ops[(i + 2) % len(ops)]) for i, a in enumerate(ops)])
            for seq in seqs:
                lab = "<%d,%d> order %d: merged points, %s" % (dim, rg, n, ", ".join(seq))

                def go(ev):
                    o = mesh(ev, shs)
                    ev.call(Fm, [tolobj(ev, eps)], o)
                    st = [state(ev, o, dim, rg)]
                    extra = []
                    for k, op in enumerate(seq):
                        sh = tuple(x + 3 * k for x in far)
                        add = [[], []]
                        if op == "insert":
                            x = lattice(sh)
                            fill(ev, o, dim, rg, [x])
                            add = [[x], []]
                        elif op in ("merge", "merge into"):
                            o2 = mesh(ev, [sh, (sh[0] + 1,) + sh[1:]])
                            ev.call(Fm, [tolobj(ev, eps)], o2)
                            add = list(coords(state(ev, o2, dim, rg)))
                            if op == "merge":
                                ev.call(Fg, [o2], o)
                            else:
                                ev.call(Fg, [o], o2)
                                o = o2
                        elif op == "scale":
                            ev.call(Fs, [cbox(ev, [0.0] * rg, [2.0] * rg), cbox(ev, [1.0] * rg, [2.0] * rg)], o)
                        elif op == "merge points":
                            ev.call(Fm, [tolobj(ev, eps)], o)
                        elif op in ("full cell", "full cell with wires"):
                            w = op != "full cell"
                            ev.call(M(P, dim, rg, "add_full_cell")[0], [cbox(ev, [float(x) for x in sh], [x + 1.0 for x in sh]), w], o)
                            x = lattice(sh)
                            add = [[x], [[x[i] for i in e] for e in edges(dim, n)] if w else []]
                        elif op == "full cells":
                            for s2 in (sh, (sh[0] + 1,) + sh[1:]):
                                ev.call(M(P, dim, rg, "add_full_cell")[0], [cbox(ev, [float(x) for x in s2], [x + 1.0 for x in s2]), False], o)
                            add = [[lattice(sh), lattice((sh[0] + 1,) + sh[1:])], []]
                        extra.append(add)
                        st.append(state(ev, o, dim, rg))
                    return st, extra

                def sp(r, S, pc):
                    st, extra = r
                    rd = lambda p: tuple(round(v / (4 * eps)) for v in p)
                    cellset = lambda cs: [tuple(rd(p) for p in x) for x in cs]
                    wset = lambda ws: sorted(min(tuple(map(rd, w)), tuple(map(rd, reversed(w)))) for w in ws)
                    for k, s in enumerate(st):
                        pts, cells, wires = s
                        bad = [i for x in cells + wires for i in x if not 0 <= i < len(pts)]
                        if bad:
                            return False, "after %s: point id %s of a mesh with %d points" % (seq[k - 1] if k else "merging its points", bad[0], len(pts))
                        if k == 0:
                            cc, cw = coords(s)
                            if full and len(pts) >= len(cells) * c:
                                return False, "the shared points were not merged"
                            continue
                        pc_, pw = coords(st[k - 1])
                        cc, cw = coords(s)
                        f = (lambda p: [1.0 + 0.5 * v for v in p]) if seq[k - 1] == "scale" else (lambda p: p)
                        mp = lambda xs: [[f(p) for p in x] for x in xs]
                        a = extra[k - 1]
                        if seq[k - 1] == "merge into":
                            wc, ww = a[0] + mp(pc_), a[1] + mp(pw)
                        else:
                            wc, ww = mp(pc_) + a[0], mp(pw) + a[1]
                        if cellset(cc) != cellset(wc):
                            return False, "after %s the cells are not the previous and the new ones" % seq[k - 1]
                        if wset(cw) != wset(ww):
                            return False, "after %s the wires are not the previous and the new ones" % seq[k - 1]
                    return True, ""

                ctx.attempt("operations on a mesh with shared points keep its cells and wires", lab, lambda: decide(ctx, P, go, sp, prep=prep, max_steps=40000000), wh({"insert": M(P, dim, rg, "insert_cell_point")[0], "merge": Fg, "merge into": Fg, "scale": Fs, "merge points": Fm}.get(seq[0]) or M(P, dim, rg, "add_full_cell")[0]))


# ------------------------------------------------------------------ wirebasket
def wirebasket(ctx, P, th):
    """cells with nodes at chosen positions with respect to the box and the level set:
    the function vanishes exactly at the nodes that are marked"""
    eps = 1e-6
    rnd = random.Random(11 + ctx.seed)
    for dim, rg in ((2, 2), (2, 3), (3, 3)):
        lo, hi = [0.25, -0.5, 1.0][:rg], [0.75, 0.5, 3.0][:rg]
        n_cases = 24 if th else 10
        for n in (2, 3):
            c = n ** dim
            for case in range(n_cases):
                zero = {}
                cells = []
                for k in range(2):
                    pts = []
                    # nodes of a cell aligned with the box, some directions pulled inside
                    ext = [(lo[d] if rnd.random() < 0.7 else lo[d] + 0.1, hi[d] if rnd.random() < 0.7 else hi[d] - 0.1) for d in range(rg)]
                    perm = rnd.sample(range(rg), rg)
                    third = rnd.choice([0, 1, 2])
                    for t in tids([n] * dim):
                        p = [0.0] * rg
                        for d in range(rg):
                            if d < dim:
                                f = t[d] / (n - 1)
                            else:
                                f = third / 2
                            dd = perm[d]
                            p[dd] = ext[dd][0] + (ext[dd][1] - ext[dd][0]) * f
                        pts.append(p)
                    if case % 4 == 3:
                        # a degenerate edge
                        e = rnd.choice(edges(dim, n))
                        for i in e:
                            pts[i] = list(pts[e[0]])
                    cells.append(pts)
                    # the level set vanishes on some edges
                    for e in edges(dim, n):
                        if rnd.random() < 0.4:
                            for i in e[: n if rnd.random() < 0.7 else n - 1]:
                                zero[tuple(pts[i])] = True
                lab = "<%d,%d> order %d sample %d" % (dim, rg, n, case)
                sel = None if case % 2 else [1]
                F = M(P, dim, rg, "generate_wirebasket", [r"reference_wrapper", r"Bound", r"Toler"] if sel is None else [r"reference_wrapper", r"vector<int", r"Bound", r"Toler"])[0]
                h = {}
                h["qugar::impl::DomainFunc<%d, 1>::operator()" % rg] = lambda ev, f, a, o: 0.0 if tuple(ev.rv(a[0]).d) in zero else 1.5
                h["qugar::impl::DomainFunc<%d, 1>::grad" % rg] = lambda ev, f, a, o: vec([1.0] + [0.5] * (rg - 1))

                def go(ev):
                    o = new(ev, dim, rg, n)
                    fill(ev, o, dim, rg, cells)
                    fs = stdvec([Ptr(Obj("qv::UF:phi"))], "std::reference_wrapper")
                    ev.call(F, [fs] + ([] if sel is None else [stdvec(sel, "int")]) + [cbox(ev, lo, hi), tolobj(ev, eps)], o)
                    return state(ev, o, dim, rg)

                def bounds(p):
                    return [0 if abs(p[d] - lo[d]) < eps else 1 if abs(p[d] - hi[d]) < eps else None for d in range(rg)]

                def member(path):
                    if all(max(abs(u - v) for u, v in zip(path[0], q)) < eps for q in path):
                        return False
                    b0 = bounds(path[0])
                    common = min(sum(1 for u, v in zip(b0, bounds(q)) if u is not None and u == v) for q in path)
                    onz = all(tuple(q) in zero for q in path)
                    if common >= rg - 1:
                        return True
                    if common >= 1:
                        return onz
                    return rg == 2 and onz

                want = []
                for k in range(2) if sel is None else sel:
                    want += [[cells[k][i] for i in e] for e in edges(dim, n) if member([cells[k][i] for i in e])]

                def sp(r, S, pc):
                    a, b = wireset(coords(r)[1]), wireset(want)
                    if a == b:
                        return True, ""
                    x = [w for w in a if w not in b] or [w for w in b if w not in a]
                    return False, "the wires are not the edges on edges of the box and on the trace of the level set: %s" % (x[:1],)

                ctx.attempt("the wirebasket has the edges of the box and of the zero level set", lab, lambda: decide(ctx, P, go, sp, prep=prep, hooks=h, max_steps=40000000), wh(F))


# ------------------------------------------------------------------ files
def vtkmask(dim, n):
    """node order of the cells in files (VTK, file version 0.1)"""
    m = n - 1
    ins = range(1, m)
    f = lambda *t: sum(c * n ** k for k, c in enumerate(t))
    if dim == 1:
        return [0, m] + list(ins)
    if dim == 2:
        r = [f(0, 0), f(m, 0), f(m, m), f(0, m)]
        r += [f(i, 0) for i in ins] + [f(m, i) for i in ins] + [f(i, m) for i in ins] + [f(0, i) for i in ins]
        return r + [f(i, j) for j in ins for i in ins]
    r = [f(0, 0, 0), f(m, 0, 0), f(m, m, 0), f(0, m, 0), f(0, 0, m), f(m, 0, m), f(m, m, m), f(0, m, m)]
    for k in (0, m):
        r += [f(i, 0, k) for i in ins] + [f(m, i, k) for i in ins] + [f(i, m, k) for i in ins] + [f(0, i, k) for i in ins]
    for a, b in ((0, 0), (m, 0), (0, m), (m, m)):
        r += [f(a, b, k) for k in ins]
    for a in (0, m):
        r += [f(a, j, k) for k in ins for j in ins]
    for a in (0, m):
        r += [f(i, a, k) for k in ins for i in ins]
    for a in (0, m):
        r += [f(i, j, a) for j in ins for i in ins]
    return r + [f(i, j, k) for k in ins for j in ins for i in ins]


def files(ctx, P):
    for dim, rg in KINDS:
        F = M(P, dim, rg, "write_VTK_file")[0]
        for n in (2, 3, 5):
            c = n ** dim
            A = [[k + 0.1234567891234 * (d + 1) for d in range(rg)] for k in range(2 * c)]
            lab = "<%d,%d> order %d" % (dim, rg, n)

            def go(ev):
                ev.files = {}
                o = new(ev, dim, rg, n)
                fill(ev, o, dim, rg, [A[:c], A[c:]])
                if dim == rg:
                    ev.call(M(P, dim, rg, "add_full_cell")[0], [cbox(ev, [0.0] * rg, [1.0] * rg), True], o)
                st = state(ev, o, dim, rg)
                ev.call(F, ["some/name"], o)
                return [st, ev.files]

            def sp(r, S, pc):
                (pts, cells, wires), fl = r
                if sorted(fl) != ["some/name.vtmb", "some/name.vtu", "some/name_wb.vtu"]:
                    return False, "files %s" % sorted(fl)
                for nm, cs, d in (("some/name.vtu", cells, dim), ("some/name_wb.vtu", wires, 1)):
                    x = "".join(str(v) for v in fl[nm])
                    ok, dt = vtu(x, pts, cs, d, rg, n)
                    if not ok:
                        return False, "%s: %s" % (nm, dt)
                x = "".join(str(v) for v in fl["some/name.vtmb"])
                import xml.etree.ElementTree as ET

                try:
                    t = ET.fromstring(x)
                except ET.ParseError as e:
                    return False, "name.vtmb: %s" % e
                ds = [e.get("file") for e in t.iter("DataSet")]
                if t.get("type") != "vtkMultiBlockDataSet" or ds not in (["some/name.vtu", "some/name_wb.vtu"],):
                    return False, "blocks %s" % ds
                return True, ""

            ctx.attempt("files hold the points, cells and wires of the mesh", lab, lambda: decide(ctx, P, go, sp, prep=prep, max_steps=40000000), wh(F))


def vtu(x, pts, cells, d, rg, n):
    import xml.etree.ElementTree as ET

    try:
        t = ET.fromstring(x)
    except ET.ParseError as e:
        return False, str(e)
    if t.get("type") != "UnstructuredGrid":
        return False, "type of file"
    pc = list(t.iter("Piece"))[0]
    if int(pc.get("NumberOfPoints")) != len(pts) or int(pc.get("NumberOfCells")) != len(cells):
        return False, "numbers of points or cells"
    ar = {a.get("Name"): (a.text or "").split() for a in t.iter("DataArray")}
    from fractions import Fraction

    p = [float(Fraction(v)) for v in ar["Points"]]
    if p != [float(num(v)) for q in pts for v in q + [0] * (3 - rg)]:
        return False, "points"
    m = vtkmask(d, n)
    # files of version 2.1 and higher number two of the edges the other way round
    masks = [m]
    if d == 3 and t.get("version") not in ("0.1", "1.0", "2.0"):
        e0, k = 8 + 8 * (n - 2), n - 2
        masks = [m[:e0 + 2 * k] + m[e0 + 3 * k:e0 + 4 * k] + m[e0 + 2 * k:e0 + 3 * k] + m[e0 + 4 * k:]]
    con = [int(v) for v in ar["connectivity"]]
    if not any(con == [c[i] for c in cells for i in m] for m in masks):
        return False, "connectivity is not in the order of VTK"
    if [int(v) for v in ar["offsets"]] != [(k + 1) * n ** d for k in range(len(cells))]:
        return False, "offsets"
    ty = {1: (3, 68), 2: (9, 70), 3: (12, 72)}[d]
    if set(ar["types"]) - ({str(v) for v in ty} if n == 2 else {str(ty[1])}) or len(ar["types"]) != len(cells):
        return False, "types of the cells"
    return True, ""


def run_C14(ctx):
    P = core()
    th = ctx.tier == "thorough"
    building(ctx, P)
    fullcells(ctx, P, th)
    orientation(ctx, P, th)
    merging(ctx, P, th)
    histories(ctx, P, th)
    wirebasket(ctx, P, th)
    files(ctx, P)
