"""C20 tensor-product indices (Python), C21 node/face/edge ordering tables."""
import itertools
from ..pysym import *

TP = "qugar.mesh.tp_index.TensorProdIndex"
MU = "qugar.mesh.utils"

BASIX_EDGES = {2: [(0, 1), (0, 2), (1, 3), (2, 3)], 3: [(0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7), (6, 7)]}
BASIX_FACES = {2: BASIX_EDGES[2], 3: [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)]}


def fl(i, n):
    r = 0
    for k in reversed(range(len(n))):
        r = r * n[k] + i[k]
    return r


def box_ids(n, fix):
    """flat ids (ascending) of the tensor indices with the entries of fix"""
    rg = [[fix[k]] if k in fix else range(n[k]) for k in range(len(n))]
    return sorted(fl(i, n) for i in itertools.product(*rg))


def corner_idx(c, n):
    return [(n[k] - 1) if (c >> k) & 1 else 0 for k in range(len(n))]


def face_fix(f, n):
    return {f // 2: (n[f // 2] - 1) if f % 2 else 0}


def edge_lex(e):
    """(direction of the edge, {other direction: side})"""
    dr = [2, 1, 0][e // 4]
    o = [k for k in range(3) if k != dr]
    return dr, {o[0]: e % 2, o[1]: (e // 2) % 2}


def dlf_face_lex(dim, f):
    """lexicographical id of the DOLFINx facet f"""
    if dim == 1:
        return f
    vs = BASIX_FACES[dim][f]
    for k in range(dim):
        s = {(v >> k) & 1 for v in vs}
        if len(s) == 1:
            return 2 * k + s.pop()


def dlf_edge_lex(dim, e):
    if dim < 3:
        return dlf_face_lex(dim, e)
    a, b = BASIX_EDGES[3][e]
    for l in range(12):
        dr, fx = edge_lex(l)
        if (a ^ b) == 1 << dr and all((a >> k) & 1 == s for k, s in fx.items()):
            return l


def sizes(ctx):
    out = [(1,), (2,), (3,), (5,), (2, 2), (2, 3), (3, 2), (4, 3), (1, 3), (4, 1), (3, 5), (2, 2, 2), (2, 3, 4), (4, 3, 2), (3, 4, 3), (3, 2, 4), (1, 2, 3), (2, 1, 3), (3, 3, 1), (3, 4, 5), (4, 5, 4)]
    if ctx.thorough:
        out = [(i,) for i in range(1, 7)] + list(itertools.product(range(1, 6), repeat=2)) + list(itertools.product(range(1, 5), repeat=3))
    return out


def run_C20(ctx):
    it0 = Interp()
    cls = it0.get(TP)

    def m(name):
        return wf(it0.get(TP + "." + name))

    def call(name, *a, **k):
        def go(it):
            return it.call(it.getattr_(it.get(TP), name), [a_(it) if callable(a_) else a_ for a_ in a], k)

        return go

    def nn(n):
        return lambda it: arr(it, list(n), "i4")

    def chk(rule, key, go, want, name, as_set=False):
        def f():
            def spec(it, r, S):
                got = ints(r)
                if as_set:
                    got = sorted(got)
                return same_list(got, want, name)

            return pydecide(ctx, go, spec)

        ctx.attempt(rule, key, f, m(name))

    for n in sizes(ctx):
        d = len(n)
        ctx.unit("index shapes", n)
        N = 1
        for x in n:
            N *= x
        # bijection between flat and tensor indices
        def biject():
            def go(it):
                f = it.getattr_(it.get(TP), "get_tensor_index")
                g = it.getattr_(it.get(TP), "get_flat_index")
                return [(it.call(f, [arr(it, list(n), "i4"), i]), it.call(g, [arr(it, list(n), "i4"), arr(it, [(i // _st(n, k)) % n[k] for k in range(d)], "i4")])) for i in range(N)]

            def spec(it, r, S):
                for i, (t, q) in enumerate(r):
                    w = [(i // _st(n, k)) % n[k] for k in range(d)]
                    if ints(t) != w:
                        return False, "tensor index of %d is %s, specified %s" % (i, ints(t), w)
                    if ints(q) != [i]:
                        return False, "flat index of %s is %s, specified %d" % (w, ints(q), i)
                return True, ""

            return pydecide(ctx, go, spec)

        ctx.attempt("flat and tensor indices are inverse (first direction fastest)", n, biject, m("get_tensor_index"))
        for f in range(2 * d):
            chk("face indices", "%s face %d lexicographical" % (n, f), call("get_face", nn(n), f, lexicg=True), box_ids(n, face_fix(f, n)), "get_face", True)
            chk("face indices", "%s face %d DOLFINx" % (n, f), call("get_face", nn(n), f), box_ids(n, face_fix(dlf_face_lex(d, f), n)), "get_face", True)
        if d == 3:
            for e in range(12):
                def ids(l):
                    dr, fx = edge_lex(l)
                    return box_ids(n, {k: (n[k] - 1) * s for k, s in fx.items()})

                chk("edge indices", "%s edge %d lexicographical" % (n, e), call("get_edge", nn(n), e, lexicg=True), ids(e), "get_edge", True)
                chk("edge indices", "%s edge %d DOLFINx" % (n, e), call("get_edge", nn(n), e), ids(dlf_edge_lex(3, e)), "get_edge", True)
        if min(n) >= 2:
            cs = [fl(corner_idx(c, n), n) for c in range(2**d)]
            chk("corner indices", n, call("get_all_corners", nn(n)), cs, "get_all_corners")
            for c in range(2**d):
                chk("corner indices", "%s corner %d" % (n, c), call("get_corner", nn(n), c), [cs[c]], "get_corner")
            inner = sorted(fl(i, n) for i in itertools.product(*[range(1, x - 1) for x in n]))
            chk("internal indices (sorted)", n, call("get_all_internal", nn(n)), inner, "get_all_internal")
            chk("boundary indices (sorted)", n, call("get_all_faces", nn(n)), [i for i in range(N) if i not in set(inner)], "get_all_faces")

    # closed forms with symbolic sizes: all sizes at once
    for d in (1, 2, 3):
        def symb():
            ns = [S_("n%d" % k) for k in range(d)]
            ts = [S_("t%d" % k) for k in range(d)]

            def go(it):
                return it.call(it.getattr_(it.get(TP), "get_flat_index"), [arr(it, ns, "i8"), arr(it, ts, "i8")])

            return pydecide(ctx, go, lambda it, r, S: S.same(flat(r)[0], fl(ts, ns), it.pc), ranges=({"n%d" % k: (1, 40, True) for k in range(d)} | {"t%d" % k: (0, 39, True) for k in range(d)},))

        ctx.attempt("flat index in closed form, all sizes", d, symb, m("get_flat_index"))

        def symc():
            ns = [S_("n%d" % k) for k in range(d)]

            def go(it):
                return it.call(it.getattr_(it.get(TP), "get_all_corners"), [arr(it, ns, "i8")])

            def spec(it, r, S):
                for c, v in enumerate(flat(r)):
                    w = fl([(ns[k] - 1) if (c >> k) & 1 else 0 for k in range(d)], ns)
                    ok, det = S.same(v, w, it.pc)
                    if not ok:
                        return ok, "corner %d: %s" % (c, det)
                return len(flat(r)) == 2**d, "number of corners"

            return pydecide(ctx, go, spec, ranges=({"n%d" % k: (2, 40, True) for k in range(d)},))

        ctx.attempt("corners in closed form, all sizes", d, symc, m("get_all_corners"))


def _st(n, k):
    r = 1
    for x in n[:k]:
        r *= x
    return r


# ------------------------------------------------------------------------ C21
def vtk_nodes(d, p):
    inn = range(1, p)
    if d == 1:
        return [(0,), (p,)] + [(i,) for i in inn]
    if d == 2:
        return ([(0, 0), (p, 0), (p, p), (0, p)] + [(u, 0) for u in inn] + [(p, v) for v in inn] + [(u, p) for u in inn] + [(0, v) for v in inn]
                + [(u, v) for v in inn for u in inn])
    r = [(0, 0, 0), (p, 0, 0), (p, p, 0), (0, p, 0), (0, 0, p), (p, 0, p), (p, p, p), (0, p, p)]
    for w in (0, p):
        r += [(u, 0, w) for u in inn] + [(p, v, w) for v in inn] + [(u, p, w) for u in inn] + [(0, v, w) for v in inn]
    for u, v in ((0, 0), (p, 0), (p, p), (0, p)):
        r += [(u, v, w) for w in inn]
    for x in (0, p):
        r += [(x, v, w) for w in inn for v in inn]
    for y in (0, p):
        r += [(u, y, w) for w in inn for u in inn]
    for z in (0, p):
        r += [(u, v, z) for v in inn for u in inn]
    return r + [(u, v, w) for w in inn for v in inn for u in inn]


def dlf_nodes(d, p):
    """basix Lagrange points: vertices, then the interiors of the sub-entities in the order of the reference topology"""
    inn = range(1, p)
    vert = [tuple(p * ((c >> k) & 1) for k in range(d)) for c in range(2**d)]
    r = list(vert)
    if d == 1:
        return r + [(i,) for i in inn]

    def interior(vs):
        free = [k for k in range(d) if len({(v >> k) & 1 for v in vs}) == 2]
        base = vert[vs[0]]
        out = []
        for t in itertools.product(inn, repeat=len(free)):
            q = list(base)
            for k, x in zip(free, reversed(t)):
                q[k] = x
            out.append(tuple(q))
        return out

    for e in BASIX_EDGES[d]:
        r += interior(e)
    if d == 3:
        for f in BASIX_FACES[3]:
            r += interior(f)
    return r + interior(range(2**d))


def run_C21(ctx):
    it0 = Interp()
    degs = range(1, 9) if ctx.thorough else range(1, 6)

    def call(name, *a):
        return lambda it: it.call(it.get(MU + "." + name), list(a))

    def table(rule, key, name, args, want):
        ctx.attempt(rule, key, lambda: pydecide(ctx, call(name, *args), lambda it, r, S: same_list(ints(r), want, name)), wf(it0.get(MU + "." + name)))

    for d in (1, 2, 3):
        for p in degs:
            n = (p + 1,) * d
            v = [fl(i, n) for i in vtk_nodes(d, p)]
            x = [fl(i, n) for i in dlf_nodes(d, p)]
            assert sorted(v) == sorted(x) == list(range((p + 1) ** d))
            iv = [v.index(i) for i in range(len(v))]
            ix = [x.index(i) for i in range(len(x))]
            k = "dim %d degree %d" % (d, p)
            table("node orderings", k + " VTK->lex", "VTK_to_lexicg_nodes", (d, p), v)
            table("node orderings", k + " lex->VTK", "lexicg_to_VTK_nodes", (d, p), iv)
            table("node orderings", k + " DOLFINx->lex", "DOLFINx_to_lexicg_nodes", (d, p), x)
            table("node orderings", k + " lex->DOLFINx", "lexicg_to_DOLFINx_nodes", (d, p), ix)
            table("node orderings", k + " DOLFINx->VTK", "DOLFINx_to_VTK_nodes", (d, p), [iv[i] for i in x])
            table("node orderings", k + " VTK->DOLFINx", "VTK_to_DOLFINx_nodes", (d, p), [ix[i] for i in v])
        f = [dlf_face_lex(d, i) for i in range(2 * d)]
        table("face orderings", "dim %d lex->DOLFINx" % d, "lexicg_to_DOLFINx_faces", (d,), f)
        table("face orderings", "dim %d DOLFINx->lex" % d, "DOLFINx_to_lexicg_faces", (d,), [f.index(i) for i in range(2 * d)])
        ne = {1: 2, 2: 4, 3: 12}[d]
        e = [dlf_edge_lex(d, i) for i in range(ne)]
        table("edge orderings", "dim %d lex->DOLFINx" % d, "lexicg_to_DOLFINx_edges", (d,), e)
        table("edge orderings", "dim %d DOLFINx->lex" % d, "DOLFINx_to_lexicg_edges", (d,), [e.index(i) for i in range(ne)])

        def inv(a, b):
            def go(it):
                return it.call(it.get(MU + "." + a), [d]), it.call(it.get(MU + "." + b), [d])

            def spec(it, r, S):
                p, q = ints(r[0]), ints(r[1])
                if sorted(p) != list(range(2 * d)):
                    return False, "%s(%d) = %s is not a permutation" % (a, d, p)
                return same_list([p[i] if 0 <= i < len(p) else None for i in q], list(range(2 * d)), "%s[%s]" % (a, b))

            return pydecide(ctx, go, spec)

        ctx.attempt("VTK face tables are inverse permutations", d, lambda: inv("lexicg_to_VTK_faces", "VTK_to_lexicg_faces"), wf(it0.get(MU + ".lexicg_to_VTK_faces")))
    table("face orderings", "dim 2 lex->VTK (quadrilateral)", "lexicg_to_VTK_faces", (2,), [2, 1, 3, 0])
