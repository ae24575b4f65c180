"""C28 C29 ...: the kernels generated for custom integrals."""
import itertools, math, os, random, subprocess, tempfile
from ..pysym import *
from ..pynp import W, from_els, oarr
from ..cmini import Parser, CInt, CBug, Mem, Ptr, Ty, MATH, UNINIT
from .pypack import GEOM, FACET

G = "qugar.dolfinx.codegeneration."
CT = {"f8": "double", "f4": "float", "c16": "double _Complex", "c8": "float _Complex"}
REAL = {"f8": "f8", "c16": "f8", "f4": "f4", "c8": "f4"}
CELLS = {1: "interval", 2: "quadrilateral", 3: "hexahedron"}


# ------------------------------------------------------------------ elements
class El:
    """basix.ufl element: scalar / blocked / vector valued / mixed"""

    def __init__(self, kind, tdim, n=4, par=None, bs=1, vs=1, subs=()):
        self.kind, self.tdim, self.n, self.par, self.bs, self.vs, self.subs = kind, tdim, n, par, bs, vs, list(subs)
        self.rvs = {"scalar": 1, "blocked": bs, "vector": vs}.get(kind) or sum(s.rvs for s in self.subs)

    def dim(self):
        return {"scalar": self.n, "vector": self.n, "blocked": self.n * self.bs}.get(self.kind) or sum(s.dim() for s in self.subs)

    def resolve(self, comp):
        """(parameters, value component, dofs of a table) of a flat component"""
        if self.kind == "mixed":
            for s in self.subs:
                if comp < s.rvs:
                    return s.resolve(comp)
                comp -= s.rvs
        if self.kind == "blocked":
            return self.subs[0].par, 0, self.subs[0].n
        return self.par, (comp if self.kind == "vector" else 0), self.n

    def info(self, out):
        """parameters -> (dofs, value size, dimension)"""
        for s in self.subs:
            s.info(out)
        if self.kind in ("scalar", "vector"):
            out[self.par] = (self.n, self.vs if self.kind == "vector" else 1, self.tdim)
        return out

    def obj(self, it):
        o = fake(self.kind + " element", cell=fake("cell", topological_dimension=nat("td", lambda it: self.tdim), cellname=nat("cn", lambda it: CELLS[self.tdim])),
                 block_size=self.bs if self.kind == "blocked" else 1, reference_value_size=self.rvs, sub_elements=[s.obj(it) for s in self.subs] * (self.bs if self.kind == "blocked" else 1),
                 dim=self.dim(), space_dimension=self.dim(), num_sub_elements=len(self.subs) * (self.bs if self.kind == "blocked" else 1))
        o.f["__str__"] = nat("str", lambda it: "%s%s%s" % (self.kind, self.par, [s.par for s in self.subs]))
        if self.par:
            f, c, d, lv, dv, di = self.par
            o.f["basix_element"] = fake("basix element", family=f, cell_type=c, degree=d, lagrange_variant=lv, dpc_variant=dv, discontinuous=bool(di), dim=self.n, value_size=self.vs)
            o.f.update(degree=d, discontinuous=bool(di))
        return o


def basix_index(*d):
    if len(d) == 1:
        return d[0]
    if len(d) == 2:
        return (d[0] + d[1] + 1) * (d[0] + d[1]) // 2 + d[1]
    s = sum(d)
    return s * (s + 1) * (s + 2) // 6 + (d[1] + d[2]) * (d[1] + d[2] + 1) // 2 + d[2]


class Tab:
    def __init__(self, name, q, el, comp, der, ttype, ents, perms, npts, vals, fid):
        self.name, self.q, self.el, self.comp, self.der, self.ttype, self.fid = name, q, el, comp, der, ttype, fid
        self.ents, self.perms, self.npts = ents, perms, npts
        self.par, self.vc, self.ndofs = el.resolve(comp)
        self.vals = vals
        self.const = False  # really constant for all the points


class Quad:
    def __init__(self, name, npts, unf, degree):
        self.name, self.npts, self.unf, self.degree = name, npts, unf, degree


# ------------------------------------------------------- synthetic FFCx kernel
class Kern:
    """an integral as FFCx 0.10 generates it, and its meaning for custom points"""

    def __init__(self, seed, itype="cell", tdim=2, dt="f8", quads=(("083", 4, False),), els=None, ncoef=1, mixed=False, shared=False, nargs=2, femap=None):
        r = random.Random(seed)
        self.femap = femap or (lambda i: i)
        self.r = r
        self.itype, self.tdim, self.dt, self.mixed = itype, tdim, dt, mixed
        self.quads = [Quad(n, p, u, 2 * p - 1 if not u else r.choice([1, 3, 5])) for n, p, u in quads]
        self.inter = itype == "interior_facet"
        self.facet = itype != "cell"
        self.nfac = len(GEOM[CELLS[tdim]][1]) if tdim > 1 else 2
        self.nperm = {2: 2, 3: 8}[tdim]
        self.name = "%08x" % r.getrandbits(32) + "_" + CELLS[tdim]
        c = {2: 3, 3: 5}[tdim]
        self.c = c
        lag = lambda d, disc=0: El("scalar", tdim, (d + 1) ** tdim if d < 3 else 9, (2, c, d, 1, 0, disc))
        q1 = lag(1)
        q2 = lag(2)
        dg = lag(1, 1)
        rt = El("vector", tdim, 2 * tdim, (3, c, 1, 4, 4, 0), vs=tdim)
        ned = El("vector", tdim, 3, (5, c, 1, 4, 4, 0), vs=tdim)
        self.geo = El("blocked", tdim, bs=tdim, subs=[q1], n=q1.n)
        low = El("scalar", tdim - 1, 2 ** (tdim - 1), (2, {2: 1, 3: 3}[tdim], 1, 1, 0, 0)) if tdim > 1 else None
        pool = {"q1": q1, "q2": q2, "dg": dg, "rt": rt, "vec": El("blocked", tdim, bs=tdim, subs=[q2], n=q2.n),
                "th": El("mixed", tdim, subs=[El("blocked", tdim, bs=tdim, subs=[q2], n=q2.n), q1]), "rtdg": El("mixed", tdim, subs=[rt, dg]), "mix3": El("mixed", tdim, subs=[q1, ned, q2]), "low": low}
        if els is None:
            els = r.sample(["q1", "q2", "dg", "rt", "vec", "th", "rtdg", "mix3"], 2)
        self.test, self.trial = pool[els[0]], pool[els[-1]]
        cn = [r.choice(["q1", "q2", "rt", "vec", "th"]) for _ in range(ncoef)]
        self.coefs = [pool[x] for x in cn]
        if mixed:
            self.test = low
        self.coff, o = [], 0
        for e in self.coefs:
            self.coff.append(o)
            o += e.dim() * (2 if self.inter else 1)
        self.cstride = o  # scalars of an entity, both sides included
        # constants: normal of the unfitted boundary among others
        self.noff = r.choice([1, 3, 11])
        self.unf = any(q.unf for q in self.quads)
        self.tabs = {}
        self.shared = shared
        self.nargs = nargs
        self.fids = {}
        self.build()

    # ---- tables
    def tab(self, q, el, comp, der=None, const=False, elim=None):
        der = tuple(der or (0,) * el.tdim)
        fid = self.fids.setdefault(id(el), len(self.fids))
        const = bool(const) or (q.npts == 1)
        ttype = {(False, False): "varying", (False, True): "uniform", (True, False): "piecewise", (True, True): "fixed"}[const, not self.facet or (const and q.npts > 1)]
        name = "FE%d_C%d%s%s_Q%s" % (self.femap(fid), comp, "_D" + "".join(map(str, der)) if any(der) else "", "_F" if self.facet else "", q.name)
        if name in self.tabs:
            return self.tabs[name]
        n = el.resolve(comp)[2]
        ents = 1 if ttype in ("uniform", "fixed") else self.nfac
        perms = self.nperm if self.inter and not const else 1
        npts = 1 if const else q.npts
        vals = [[[[self.r.randrange(-99999, 99999) / 10000 for _ in range(n)] for _ in range(npts)] for _ in range(ents)] for _ in range(perms)]
        t = Tab(name, q, el, comp, der, ttype, ents, perms, npts, vals, fid)
        t.const = const and q.npts > 1
        self.tabs[name] = t
        return t

    def acc(self, mode, q, t, side, dof):
        """access to a table in a loop of quadrature q"""
        if mode == "ffcx":
            p = "quadrature_permutation[%d]" % side if t.perms > 1 else "0"
            e = ("entity_local_index[%d]" % side if self.facet else "0") if t.ents > 1 else "0"
            pt = "0" if t.ttype in ("fixed", "piecewise") else "iq"
            return "%s[%s][%s][%s][%s]" % (t.name, p, e, pt, dof)
        if t.const:
            return "%s[%s][%s][0][%s]" % (t.name, "0", "entity_local_index[%d]" % side if t.ents > 1 else "0", dof)
        return "o_%s_%s_%d[iq * %d + (%s)]" % (t.name, q.name, side, t.ndofs, dof)

    def cacc(self, mode, q, k):
        """component k of the normal of the unfitted boundary"""
        if mode == "oracle" and q.unf:
            return "o_normals_%s[%d * iq + %d]" % (q.name, self.tdim, k)
        return "c[%d]" % (self.noff + k)

    # ---- statements: lists of functions of (mode, quad) giving text
    def build(self):
        r = self.r
        sides = (0, 1) if self.inter else (0,)
        R = CT[REAL[self.dt]]
        S = CT[self.dt]
        self.pre = []  # (quads that use it or None, function)
        self.body = {q.name: [] for q in self.quads}
        first = self.quads[0]
        for qi, q in enumerate(self.quads):
            L = self.body[q.name]
            src = first if self.shared and qi and first.npts > 1 else q

            def sumc(var, t, side, ptr, stride, off, ty):
                def f(mode, q=q):
                    return "  %s %s = 0.0;\n  {\n    for (int ic = 0; ic < %d; ++ic)\n    {\n      %s += %s[(ic) * %d + %d] * %s;\n    }\n  }\n" % (ty, var, t.ndofs, var, ptr, stride, off, self.acc(mode, q, t, side, "ic"))

                return f

            # Jacobian
            js = []
            for s in sides:
                for k in range(self.tdim):
                    der = [0] * self.tdim
                    der[k] = 1
                    t = self.tab(src, self.geo, 0, der, const=self.shared)
                    v = "J%s%s_c%d" % (q.name, "_r%d" % s if self.inter else "", k)
                    f = sumc(v, t, s, "coordinate_dofs", 3, k + s * 3 * self.geo.subs[0].n, R)
                    if t.ttype in ("fixed", "piecewise"):
                        self.pre.append(({q.name}, f))
                    else:
                        L.append(f)
                    js.append(v)
            # normals
            if self.unf:
                w = "n%s" % q.name
                op = r.choice(["(%s) * %s", "sqrt(%s * %s)", "(-%s + %s)", "(1.5/%s) - %s"])

                def nrm(mode, q=q, w=w, op=op):
                    p = [self.cacc(mode, q, k) for k in range(self.tdim)]
                    return "  %s %s[2];\n  %s[0] = %s;\n  %s[1] = %s;\n" % (R if self.dt[0] == "f" else S, w, w, op % (p[0], p[1]), w, "%s + 2 * %s * c[%d]" % (p[-1], p[0], self.noff + 7))

                (self.pre if self.shared or q.npts == 1 else L).append(({q.name}, nrm) if self.shared or q.npts == 1 else nrm)
                if q.unf:
                    js += [w + "[0]", w + "[1]"]
            # coefficients
            ws = []
            for i, el in enumerate(self.coefs):
                for s in sides:
                    comp = r.randrange(el.rvs)
                    der = [0] * el.tdim
                    if r.random() < 0.5:
                        der[r.randrange(el.tdim)] += 1
                        if r.random() < 0.4:
                            der[r.randrange(el.tdim)] += 1
                    t = self.tab(q, el, comp, der)
                    v = "w%d_%s_%d" % (i, q.name, s)
                    f = sumc(v, t, s, "w", el.bs if el.kind == "blocked" else 1, self.coff[i] + s * el.dim(), S)
                    if t.ttype in ("fixed", "piecewise"):
                        self.pre.append(({q.name}, f))
                    else:
                        L.append(f)
                    ws.append(v)
            sv = "sp_%s" % q.name if q.npts == 1 or self.shared else "sv_%s" % q.name
            terms = js + (ws if sv[:2] == "sv" else [])

            def scal(mode, q=q, sv=sv, terms=terms):
                o = "  %s %s[%d];\n" % (S, sv, len(terms))
                for i, x in enumerate(terms):
                    o += "  %s[%d] = %s;\n" % (sv, i, x if i == 0 else "%s[%d] * %s" % (sv, i - 1, x) if i % 2 else "%s[%d] + fabs(%s)" % (sv, i - 1, x) if self.dt[0] == "f" else "%s[%d] - %s" % (sv, i - 1, x))
                return o

            if sv[:2] == "sp":
                self.pre.append(({q.name}, scal))
            else:
                L.append(scal)
            fac = "%s[%d]" % (sv, len(terms) - 1) + "".join(" * " + x for x in (ws if sv[:2] == "sp" else []))

            def fw(mode, q=q, fac=fac):
                return "  %s fw_%s = 0;\n  {\n    fw_%s = %s * %sweights_%s[iq];\n  }\n" % (S, q.name, q.name, fac, "o_" if mode == "oracle" else "", q.name)

            L.append(fw)
            # tensor
            for s in sides:
                for s2 in sides if self.nargs > 1 else (0,):

                    def pick(el):
                        comp = r.randrange(el.rvs)
                        der = [0] * el.tdim
                        x = r.random()
                        if x < 0.5:
                            der[r.randrange(el.tdim)] += 1
                        if self.shared == 2:  # derivatives of linear functions
                            return self.tab(src, el, comp, der, const=True), comp
                        return self.tab(q, el, comp, der), comp

                    t, c1 = pick(self.test)
                    u, c2 = pick(self.trial)
                    nd = [self.test.dim(), self.trial.dim()]

                    def off(el, comp, side):
                        o = side * el.dim()
                        st = 1
                        if el.kind == "blocked":
                            o, st = o + comp, el.bs
                        return o, st

                    o1, st1 = off(self.test, c1, s)
                    o2, st2 = off(self.trial, c2, s2)
                    cols = nd[1] * (2 if self.inter else 1)
                    if self.nargs == 2:

                        def tens(mode, q=q, t=t, u=u, s=s, s2=s2, o1=o1, o2=o2, st1=st1, st2=st2, cols=cols):
                            return "  {\n    for (int i = 0; i < %d; ++i)\n    {\n      for (int j = 0; j < %d; ++j)\n      {\n        A[%d * (%d * (i) + %d) + (%d * (j) + %d)] += fw_%s * %s * %s;\n      }\n    }\n  }\n" % (
                                t.ndofs, u.ndofs, cols, st1, o1, st2, o2, q.name, self.acc(mode, q, t, s, "i"), self.acc(mode, q, u, s2, "j"))
                    elif self.nargs == 1:

                        def tens(mode, q=q, t=t, s=s, o1=o1, st1=st1):
                            return "  {\n    for (int i = 0; i < %d; ++i)\n    {\n      A[%d * (i) + %d] += fw_%s * %s;\n    }\n  }\n" % (t.ndofs, st1, o1, q.name, self.acc(mode, q, t, s, "i"))
                    else:

                        def tens(mode, q=q):
                            return "  {\n    A[0] += fw_%s;\n  }\n" % q.name

                    L.append(tens)
        k = 2 if self.inter else 1
        self.nA = {2: self.test.dim() * self.trial.dim() * k * k, 1: self.test.dim() * k, 0: 1}[self.nargs]
        # facets need the index of their facet (and permutations) in the kernel: FFCx always has it
        if self.facet and not any(t.ents > 1 for t in self.tabs.values()):
            raise ValueError("no table that depends on the facet")

    def sig(self, name):
        R, S = CT[REAL[self.dt]], CT[self.dt]
        pad = "\n                                    "
        return "void %s(%s* restrict A,%sconst %s* restrict w,%sconst %s* restrict c,%sconst %s* restrict coordinate_dofs,%sconst int* restrict entity_local_index,%sconst uint8_t* restrict quadrature_permutation,%svoid* custom_data)" % (name, S, pad, S, pad, S, pad, R, pad, pad, pad)

    def static_tab(self, t):
        def br(v):
            return "{" + ", ".join(br(x) if isinstance(x, list) else repr(x) for x in v) + "}"

        v = t.vals
        txt = "{" + ",\n  ".join("{" + ",\n  ".join("{" + ",\n  ".join(br(p) for p in e) + "}" for e in pm) + "}" for pm in v) + "}"
        return "static const %s %s[%d][%d][%d][%d] = %s;\n" % (CT[REAL[self.dt]], t.name, t.perms, t.ents, t.npts, t.ndofs, txt)

    def ffcx(self):
        """the implementation text FFCx generates"""
        R = CT[REAL[self.dt]]
        fn = "tabulate_tensor_integral_" + self.name
        o = "// Code for integral integral_%s\n\n%s\n{\n" % (self.name, self.sig(fn))
        o += "// Quadrature rules\n"
        for q in self.quads:
            o += "static const %s weights_%s[%d] = {%s};\n" % (R, q.name, q.npts, ", ".join(repr(round(0.11 * (i + 1) + 0.01 * len(q.name), 5)) for i in range(q.npts)))
        o += "// Precomputed values of basis functions and precomputations\n// FE* dimensions: [permutation][entities][points][dofs]\n"
        for t in sorted(self.tabs.values(), key=lambda t: t.name):  # as FFCx does
            o += self.static_tab(t)
        for _, f in self.pre:
            o += "// ------------------------\n// Section: piecewise\n// ------------------------\n" + f("ffcx")
        for q in self.quads:
            o += "for (int iq = 0; iq < %d; ++iq)\n{\n" % q.npts
            for f in self.body[q.name]:
                o += "  // ------------------------\n  // Section: part\n  // Inputs: w, FE, fw\n" + f("ffcx")
            o += "}\n"
        o += "\n}\n\nbool enabled_coefficients_integral_%s[1] = {1};\n\nufcx_integral integral_%s =\n{\n  .enabled_coefficients = enabled_coefficients_integral_%s,\n  .tabulate_tensor_float64 = %s,\n  .needs_facet_permutations = %s,\n  .coordinate_element_hash = UINT64_C(0),\n  .domain = 15,\n};\n\n// End of code for integral integral_%s\n" % (self.name, self.name, self.name, fn, "true" if self.inter else "false", self.name)
        return o

    def oracle(self, cnt):
        """the integral with the points of every quadrature replaced"""
        o = self.sig("oracle") + "\n{\n"
        for t in self.tabs.values():
            if t.const:
                o += self.static_tab(t)
        for q in self.quads:
            o += "for (int iq = 0; iq < %d; ++iq)\n{\n" % cnt[q.name]
            for who, f in self.pre:
                if q.name in who:
                    o += f("oracle")
            for f in self.body[q.name]:
                o += f("oracle")
            o += "}\n"
        return o + "}\n"

    def standard(self):
        """the integral over a full entity: no unfitted boundary"""
        R = CT[REAL[self.dt]]
        o = self.sig("standard") + "\n{\n"
        for q in self.quads:
            o += "static const %s weights_%s[%d] = {%s};\n" % (R, q.name, q.npts, ", ".join(repr(round(0.11 * (i + 1) + 0.01 * len(q.name), 5)) for i in range(q.npts)))
        for t in self.tabs.values():
            o += self.static_tab(t)
        for _, f in self.pre:
            o += f("ffcx")
        for q in self.quads:
            if not q.unf:
                o += "for (int iq = 0; iq < %d; ++iq)\n{\n" % q.npts + "".join(f("ffcx") for f in self.body[q.name]) + "}\n"
        return o + "}\n"

    # ---- the objects FFCx passes to qugar
    def ir(self, it, rules=None, dom=None):
        rules = {} if rules is None else rules
        g = self.tdim - 1 if self.facet else self.tdim
        for q in self.quads:
            pts = oarr((q.npts, g))
            for i in range(q.npts):
                for k in range(g):
                    pts[i, k] = 0.1 * (i + 1) + 0.01 * k
            if q.name in rules:
                continue
            rules[q.name] = fake("rule " + q.name, points=from_els(pts, D["f8"]), weights=arr(it, [0.5] * q.npts), id=nat("id", lambda it, q=q: q.name), has_tensor_factors=False, tensor_factors=None)

            def rid(it, o=rules[q.name], n=q.name):
                if o.f.get("new"):
                    raise it.exc("AttributeError", "'QuadratureRule' object has no attribute 'hash_obj'")
                return n

            rules[q.name].f.update(id=nat("id", rid), __hash__=nat("hash", lambda it, o=rules[q.name], i=len(rules): o.f.update(new=False) or i))
        self.rules = rules
        els = {}

        def eo(e):
            if id(e) not in els:
                els[id(e)] = e.obj(it)
            return els[id(e)]

        self.cellobj = fake("ufl cell", topological_dimension=nat("td", lambda it: self.tdim), cellname=nat("cn", lambda it: CELLS[self.tdim]))
        dom = dom or fake("ufl domain", ufl_cell=nat("cell", lambda it: self.cellobj))
        integrand = {}
        ct = fake("cell type")
        ct.f["__str__"] = nat("s", lambda it: CELLS[self.tdim])
        used = {}
        for q in self.quads:
            own = [t for t in self.tabs.values() if t.q is q]
            if self.shared and q is not self.quads[0]:
                own = own + [t for t in self.tabs.values() if t.const]
            nodes = {}
            for i, t in enumerate(own):
                geo = t.el is self.geo
                term = fake("jacobian" if geo else "argument")
                term.f["__class__"] = "geometric" if geo else "argument"
                mt = fake("mt", terminal=term)
                mt.f["_element"] = eo(t.el)
                nodes[i] = {"status": "varying", "mt": mt, "tr": fake("tr", name=t.name, ttype=t.ttype), "expression": fake("expr")}
            nodes[len(own)] = {"status": "varying", "expression": fake("expr")}
            integrand[(ct, rules[q.name])] = {"factorization": fake("graph", nodes=nodes), "modified_arguments": []}
        coefs = {}
        for i, e in enumerate(self.coefs):
            V = fake("space", element=eo(e), ufl_element=nat("ufl_element", lambda it, e=e: eo(e)))
            coefs[fake("coefficient %d" % i, ufl_function_space=nat("V", lambda it, V=V: V), ufl_element=nat("ufl_element", lambda it, e=e: eo(e)))] = self.coff[i]
        consts = {fake("constant"): 0}
        if self.unf:
            consts[new(it, "qugar.dolfinx.boundary.ParamNormal")] = self.noff
        consts[fake("constant")] = self.noff + 7
        ex = fake("expression", name="integral_" + self.name, integral_type=self.itype, entity_type="facet" if self.facet else "cell", integrand=integrand, coefficient_offsets=coefs, original_constant_offsets=consts,
                  unique_table_types={ct: {t.name: t.ttype for t in self.tabs.values()}}, unique_tables={ct: {t.name: None for t in self.tabs.values()}}, coefficient_numbering={c: i for i, c in enumerate(coefs)})
        itg = fake("integral ir", expression=ex, rank=2, enabled_coefficients=[1], needs_facet_permutations=self.inter)
        form = fake("form ir", integral_names={self.itype: ["integral_" + self.name], "cell": [] if self.facet else ["integral_" + self.name]}, subdomain_ids={self.itype: [-1], "cell": [] if self.facet else [-1]})
        ir = fake("ir", integrals=[itg], forms=[form], elements=[], expressions=[])
        self.dom = dom
        # ufl data: one integral per quadrature
        itgs = []
        for q in self.quads:
            md = {"quadrature_degree": q.degree, "quadrature_rule": "custom" if q.unf else "default"}
            if q.unf:
                md.update(quadrature_points=rules[q.name].f["points"], quadrature_weights=rules[q.name].f["weights"], custom_unfitted_boundary=True)
            itgs.append(fake("integral", metadata=nat("metadata", lambda it, md=md: dict(md)), integral_type=nat("integral_type", lambda it: self.itype), ufl_domain=nat("ufl_domain", lambda it: dom)))
        self.itgs = itgs
        fd = fake("form data", integral_data=[fake("integral data", integrals=itgs)], argument_elements=[])
        return ir, fake("ufl data", form_data=[fd])

    def hooks(self):
        def cpw(it, a, k):
            # the standard rule of an integral, found by its degree
            q = [q for q in self.quads if not q.unf and q.degree == ints([a[2] if len(a) > 2 else k["degree"]])[0]]
            if len(q) != 1:
                raise Undecided("quadrature rule asked")
            f = self.rules[q[0].name].f
            cn = CELLS[self.tdim]
            return ({cn: f["points"]}, {cn: f["weights"]}, {})

        def qr(it, a, k):
            pts = a[0] if a else k["points"]
            for n, o in self.rules.items():
                p = o.f["points"]
                if isinstance(pts, A) and shape(pts) == shape(p) and (pts is p or (len([q for q in self.quads if q.npts == shape(p)[0]]) == 1)):
                    o.f["new"] = True  # FFCx computes its name with its hash
                    return o
            raise Undecided("rule not recognised")

        def sha1(it, a, k):
            import hashlib

            if not isinstance(a[0], bytes):
                raise Undecided("hash of an unknown text")
            return fake("hash", hexdigest=nat("hexdigest", lambda it: hashlib.sha1(a[0]).hexdigest()))

        return {
            "hashlib.sha1": sha1,
            "ffcx.ir.representationutils.create_quadrature_points_and_weights": cpw,
            "ffcx.ir.representationutils.QuadratureRule": qr,
            "ffcx.ir.elementtables.get_modified_terminal_element": lambda it, a, k: fake("mte", element=a[0].f["_element"], averaged=None),
            "ufl.domain.extract_unique_domain": lambda it, a, k: self.dom,
            ("issubclass", "ufl.geometry.GeometricQuantity"): lambda it, c: c == "geometric",
            ("isinstance", "ufl.geometry.GeometricQuantity"): lambda it, o: isinstance(o, Obj) and o.f.get("__class__") == "geometric",
            ("isinstance", "basix.ufl._MixedElement"): lambda it, o: isinstance(o, Obj) and o.f.get("__name__") == "mixed element",
            ("isinstance", "basix.ufl._BlockedElement"): lambda it, o: isinstance(o, Obj) and o.f.get("__name__") == "blocked element",
            "basix.index": lambda it, a, k: basix_index(*ints(list(a))),
            "ffcx.codegeneration.codegeneration.generate_code": lambda it, a, k: self.blocks,
        }

    HEADER = "// This code conforms with the UFC specification version 0.10\n\n#include <math.h>\n#include <stdalign.h>\n#include <stdlib.h>\n#include <string.h>\n#include <ufcx.h>\n\n"

    def generate(self, it):
        ir, ufl = self.ir(it)
        b = BlocksV([[("", self.HEADER)], [("decl", self.ffcx())]])
        self.blocks = b.obj
        r = it.call(it.get(G + "generate_code"), [ufl, ir, {"sum_factorization": False, "scalar_type": it.ext("numpy.float64")}])
        return r


class BlocksV:
    """CodeBlocks: the file header and the integrals"""

    def __init__(self, v):
        pre, ints_ = v
        self.obj = fake("CodeBlocks", integrals=ints_, file_pre=pre)
        self.obj.f["__getitem__"] = nat("getitem", lambda it, i: pre if ints([i])[0] == 0 else _u("block %s" % i))


def _u(m):
    raise Undecided(m)


# ------------------------------------------------------------- running a kernel
class Shim:
    def __init__(self, kern, fail=None):
        self.info = {}
        for e in [kern.geo, kern.test, kern.trial] + kern.coefs:
            if e is not None:
                e.info(self.info)
        self.handles, self.fail, self.buf, self.failed = [], fail, None, False
        self.suffix = "f64" if REAL[kern.dt] == "f8" else "f32"
        self.rt = REAL[kern.dt]

    def models(self):
        o = dict(MATH)
        s = self.suffix
        o["qugar_register_element_" + s] = self.register
        o["qugar_tabulate_" + s] = self.tabulate
        o["qugar_get_scratch_" + s] = self.scratch
        o["fabs"] = MATH["fabs"]
        return o

    def register(self, ci, *p):
        if self.fail == "register":
            self.failed = True
            return -1
        if tuple(p) not in self.info:
            raise CBug("element registered with parameters %s, the elements of the integral have %s" % (p, sorted(self.info)))
        if tuple(p) not in self.handles:
            self.handles.append(tuple(p))
        return self.handles.index(tuple(p))

    def scratch(self, ci, n):
        if not isinstance(n, int):
            raise Undecided("size of the scratch memory")
        nw = D[self.rt].nw
        if self.fail == "scratch":
            self.failed = True
            return Ptr(None, 0, Ty(self.rt))
        if self.buf is None or len(self.buf.w) < n * nw:
            if self.buf is not None:
                self.buf.dead = True
            self.buf = Mem("the scratch memory", max(n, 0) * nw)
        if not len(self.buf.w) and n <= 0:
            return Ptr(None, 0, Ty(self.rt))
        return Ptr(self.buf, 0, Ty(self.rt))

    def tabulate(self, ci, h, nd, x, npts, gdim, out, cap):
        if self.fail == "tabulate":
            self.failed = True
            return -4
        if not 0 <= h < len(self.handles):
            raise CBug("tabulation with the handle %s" % h)
        n, vs, d = self.info[self.handles[h]]
        if gdim != d:
            raise CBug("tabulation of an element of dimension %d at points of dimension %d" % (d, gdim))
        nder = math.comb(nd + d, d)
        if nder * npts * n * vs > cap:
            return -4
        if npts == 0:
            return 0
        X = [[ci.load(Ptr(x.m, x.o + (p * d + i) * x.ty.nw, Ty(self.rt))) for i in range(d)] for p in range(npts)]
        der = [t for t in itertools.product(range(nd + 1), repeat=d) if sum(t) <= nd]
        for t in der:
            k = basix_index(*t)
            for p in range(npts):
                for i in range(n):
                    for v in range(vs):
                        ci.store(Ptr(out.m, out.o + ((k * npts + p) * n * vs + i * vs + v) * D[self.rt].nw, Ty(self.rt)), phi(self.handles[h], t, i, v, X[p]))
        return 0


def phi(par, der, i, v, x):
    return T("uf:phi(%s;%s;%d;%d)" % ("_".join(map(str, par)), "".join(map(str, der)), i, v), *x)


def mem(name, n, vals, dt, ro=True):
    m = Mem(name, n * D[dt].nw)
    from ..pynp import put

    for i, v in enumerate(vals):
        put(m.w[i * D[dt].nw : (i + 1) * D[dt].nw], (), v, D[dt])
    m.ro = ro
    return m


class Run:
    """data of one call"""

    def __init__(self, k, seed, cnt=None, facets=(0, 0), perms=(0, 0)):
        r = random.Random(seed)
        self.k = k
        self.cnt = cnt or {q.name: r.choice([1, 2, 3, 5]) for q in k.quads}
        self.f, self.p = facets, perms
        self.ofs = r.choice([0, 3, 17])

    def x(self, q, p, s, dim, kind="x"):
        return [S_("%s%s_%s_p%d_%d" % (kind, s, q.name, p, i)) for i in range(dim)]

    def args(self, mode, off):
        """A, w, c, coordinate dofs, facets, permutations, custom data"""
        k = self.k
        nw = D[k.dt].nw
        rt = REAL[k.dt]
        rw = D[rt].nw
        # entity row: coefficients, offset, padding; then other entities; then the data
        cols = k.cstride + max(1, -(-8 // D[k.dt].itemsize)) + 1
        data = []
        for q in self.quads():
            n = self.cnt[q.name]
            data.append(n)
            g = k.tdim
            for s in (0, 1) if k.inter else (0,):
                data += [x for p in range(n) for x in self.x(q, p, s, g)]
            if k.mixed:
                data += [x for p in range(n) for x in self.x(q, p, 0, g - 1, "y")]
            data += [S_("wq_%s_%d" % (q.name, p)) for p in range(n)]
            if q.unf:
                data += [S_("n_%s_%d_%d" % (q.name, p, i)) for p in range(n) for i in range(g)]
        row = cols * nw // rw
        d0 = row + self.ofs
        w = Mem("the packed coefficients", (d0 + len(data)) * rw)
        from ..pynp import put

        for i in range(k.cstride):
            put(w.w[i * nw : (i + 1) * nw], (), S_("w%d" % i), D[k.dt])
        o = {"custom": d0, "full": -1, "empty": 0}[mode]
        put(w.w[k.cstride * nw : k.cstride * nw + 2], (), o, D["i8"])
        for i, v in enumerate(data):
            put(w.w[(d0 + i) * rw : (d0 + i + 1) * rw], (), v, D[rt])
        w.ro = True
        a = mem("the element tensor", k.nA, [S_("A%d" % i) for i in range(k.nA)], k.dt, ro=False)
        nc = k.noff + 12
        c = mem("the constants", nc, [S_("c%d" % i) for i in range(nc)], k.dt)
        n = 3 * k.geo.subs[0].n * (2 if k.inter else 1)
        cd = mem("the coordinates", n, [S_("X%d" % i) for i in range(n)], rt)
        ne = {"cell": 0, "exterior_facet": 1, "interior_facet": 2}[k.itype]
        f = mem("the local facets", ne, list(self.f[:ne]), "i4")
        npm = 2 if k.inter else 0
        pm = mem("the permutations", npm, list(self.p[:npm]), "u1")
        return [Ptr(a, 0, Ty(k.dt)), Ptr(w, 0, Ty(k.dt)), Ptr(c, 0, Ty(k.dt)), Ptr(cd, 0, Ty(rt)), Ptr(f, 0, Ty("i4")), Ptr(pm, 0, Ty("u1")), Ptr(None, 0, Ty("void"))], a

    def quads(self):
        return self.order

    def want(self, mode):
        k = self.k
        args, a = self.args(mode, 0)
        if mode == "empty":
            return a
        if mode == "full":
            CInt(Parser(k.standard()).program(), dict(MATH)).call("standard", args)
            return a
        ci = CInt(Parser(k.oracle(self.cnt)).program(), dict(MATH))
        gl = {}
        rt = REAL[k.dt]
        for q in k.quads:
            n = self.cnt[q.name]
            gl["o_weights_" + q.name] = Ptr(mem("weights", n, [S_("wq_%s_%d" % (q.name, p)) for p in range(n)], rt), 0, Ty(rt))
            if q.unf:
                gl["o_normals_" + q.name] = Ptr(mem("normals", n * k.tdim, [S_("n_%s_%d_%d" % (q.name, p, i)) for p in range(n) for i in range(k.tdim)], rt), 0, Ty(rt))
            for t in k.tabs.values():
                if t.const or (t.q is not q):
                    continue
                for s in (0, 1) if k.inter else (0,):
                    v = []
                    for p in range(n):
                        x = self.x(q, p, 0, t.el.tdim, "y") if t.el.tdim < k.tdim else self.x(q, p, s, k.tdim)
                        v += [phi(t.par, t.der, i, t.vc, x) for i in range(t.ndofs)]
                    gl["o_%s_%s_%d" % (t.name, q.name, s)] = Ptr(mem("table", len(v), v, rt), 0, Ty(rt))
        ci.find0 = ci.find
        for n, p in gl.items():  # arrays decay to pointers
            m = Mem("&" + n, 1)
            m.w[0] = p
            gl[n] = Ptr(m, 0, Ty(p.ty.b, 1))
        ci.find = lambda name: ci.find0(name) or gl.get(name)
        ci.call("oracle", args)
        return a


def compare(S, got, want, dt):
    n = D[dt].nw
    from ..pynp import get

    for i in range(len(want.w) // n):
        g, w = get(got.w[i * n : (i + 1) * n], D[dt]), get(want.w[i * n : (i + 1) * n], D[dt])
        if g is w:
            continue
        if _hasun(g):
            return False, "entry %d of the element tensor depends on uninitialised memory" % i
        ok, det = S.same(g, w)
        if not ok:
            return ok, "entry %d of the element tensor: %s" % (i, det)
    return True, ""


def _hasun(t):
    seen, st = set(), [t]
    while st:
        u = st.pop()
        if not isinstance(u, T) or u.uid in seen:
            continue
        seen.add(u.uid)
        if u.op in ("uninit", "bits"):
            return True
        st.extend(u.args)
    return False


# ------------------------------------------------------------------ the check
def trial(ctx, k, runs):
    """generate the code of the integral of k and compare its kernel with the integral for every run"""

    def go(it):
        r = k.generate(it)
        if not isinstance(r, (tuple, list)) or len(r) != 2:
            raise Undecided("result of generate_code")
        blocks, datas = r
        impl = blocks.f["integrals"][0]
        if not isinstance(impl[1], str):
            raise Undecided("generated code is not a known text")
        qd = it.getattr_(datas[0], "quad_data_FE_tables")
        names = [it.getattr_(q, "name") for q in (qd.keys() if hasattr(qd, "keys") else qd)]
        return impl[1], names, blocks

    def spec(it, v, S):
        text, names, blocks = v
        byn = {q.name: q for q in k.quads}
        if sorted(names) != sorted(byn):
            return False, "the integral is generated for the quadratures %s, it has %s" % (sorted(names), sorted(byn))
        try:
            prog = Parser(text).program()
        except CBug as e:
            return False, "the generated code is not valid C: %s" % e
        fn = "tabulate_tensor_integral_" + k.name
        why = None
        for run, mode, fail in runs:
            run.order = [byn[n] for n in names]
            args, a = run.args(mode, 0)
            sh = Shim(k, fail)
            what = "%s entity, %s points%s" % (mode, run.cnt, ", failure of the shim in " + fail if fail else "")
            try:
                CInt(prog, sh.models()).call(fn, args)
            except CBug as e:
                return False, "%s: %s" % (what, e)
            want = run.want("empty" if fail else mode)
            if fail and not sh.failed:
                continue
            ok, det = compare(S, a, want, k.dt)
            if ok is False:
                return False, "%s: %s" % (what, det)
            if ok is None:
                why = det
        return (None, why) if why else (True, "")

    return pydecide(ctx, go, spec, hooks=k.hooks())


def family(thorough):
    """(group, name, arguments of the integral)"""
    Q1, Q2, Q3, Q4, U1, U2 = ("083", 4, False), ("a1f", 9, False), ("0ce", 16, False), ("5d2", 1, False), ("eb7", 2, True), ("c44", 1, True)
    o = []

    def add(group, name, **k):
        o.append((group, name, k))

    for els in ("q1 q2", "dg rt", "rt vec", "vec th", "th rtdg", "mix3 mix3", "rtdg q1", "th th"):
        add("elements", els, els=els.split())
    for dt in CT:
        add("scalar types", dt, dt=dt, ncoef=2)
        add("scalar types", dt + " unfitted boundary", dt=dt, quads=(U1,), ncoef=1)
        add("scalar types", dt + " interior facets", dt=dt, itype="interior_facet", quads=(Q1,), els=["q1", "dg"])
    for n in (0, 1, 2):
        for t in ("cell", "exterior_facet", "interior_facet"):
            add("rank of the form", "%s, %d arguments" % (t, n), itype=t, nargs=n, els=["q1", "q1"])
            add("number of coefficients", "%s, %d coefficients" % (t, n), itype=t, ncoef=n, nargs=1)
    for t in ("cell", "exterior_facet", "interior_facet"):
        add("several quadratures", t + ", two", itype=t, quads=(Q1, Q2), els=["q1", "q1"])
        add("several quadratures", t + ", three", itype=t, quads=(Q1, Q2, Q3), els=["q1", "q1"], nargs=1)
        add("several quadratures", t + ", sharing tables", itype=t, quads=(Q1, Q2), els=["q1", "dg"], shared=True)
        if t == "cell":
            add("several quadratures", t + ", sharing all the tables", itype=t, quads=(Q2, Q1), els=["q1", "q1"], shared=2, ncoef=0)
        add("several quadratures", t + ", sharing constant functions", itype=t, quads=(Q2, Q1), els=["q1", "q1"], shared=2, ncoef=1, nargs=1)
        add("one-point quadratures", t, itype=t, quads=(Q4,), els=["q1", "q1"])
        add("one-point quadratures", t + ", elements", itype=t, quads=(Q4,), els=["rt", "th"], nargs=1)
        add("one-point quadratures", t + ", with others", itype=t, quads=(Q4, Q1), els=["q1", "rt"], nargs=1)
        add("three dimensions", t, itype=t, tdim=3, els=["q1", "dg"], nargs=1)
        add("three dimensions", t + ", vector-valued elements", itype=t, tdim=3, els=["rt", "rt"], nargs=1, ncoef=0)
    for d in (2, 3):
        add("unfitted boundaries", "%dD" % d, tdim=d, quads=(U1,), nargs=1)
        add("unfitted boundaries", "%dD with the cell" % d, tdim=d, quads=(Q1, U1), nargs=1)
        add("unfitted boundaries", "%dD before the cell" % d, tdim=d, quads=(U1, Q1), nargs=1, els=["q1", "q1"])
        add("unfitted boundaries", "%dD one point" % d, tdim=d, quads=(U2,), nargs=1, els=["q1", "q1"])
        add("unfitted boundaries", "%dD one-point cell" % d, tdim=d, quads=(Q4, U1), nargs=1, els=["q1", "q1"])
        add("mixed-dimensional forms", "%dD" % d, tdim=d, itype="exterior_facet", mixed=True, els=["q1", "q1"])
        add("mixed-dimensional forms", "%dD linear" % d, tdim=d, itype="exterior_facet", mixed=True, els=["q1", "q1"], nargs=1, ncoef=2)
    if thorough:
        for i in range(120):
            r = random.Random(i)
            t = r.choice(["cell", "cell", "exterior_facet", "interior_facet"])
            qs = r.sample([Q1, Q2, Q3], r.choice([1, 1, 2, 3]))
            if t == "cell" and r.random() < 0.4:
                qs.append(U1)
            d = r.choice([2, 2, 3])
            add("random integrals", "%d: %s %dD" % (i, t, d), itype=t, tdim=d, dt=r.choice(list(CT)), quads=tuple(qs), ncoef=r.choice([0, 1, 2]), nargs=1 if d == 3 else r.choice([0, 1, 2]))
    return o


def run_C28(ctx):
    it0 = Interp()
    w = wf(it0.get(G + "generate_code"))
    for n, (group, name, kw) in enumerate(family(ctx.thorough)):

        def f():
            k = None
            for seed in range(n, n + 4000, 100):
                try:
                    k = Kern(seed, **kw)
                    break
                except ValueError:
                    continue
            if k is None:
                raise Undecided("integral")
            one = any(q.npts == 1 for q in k.quads) and len(k.quads) > 1
            rs = []
            for j in range(2):
                r = random.Random(n * 10 + j)
                cnt = {q.name: r.choice([0, 1, 2, 3] if not one else [1, 2, 3]) for q in k.quads}
                if j == 0 or one:
                    cnt = {c: max(v, 1) for c, v in cnt.items()}
                fc = (r.randrange(k.nfac), r.randrange(k.nfac))
                pm = (r.randrange(k.nperm), r.randrange(k.nperm))
                run = Run(k, n + j, cnt, fc, pm)
                rs.append((run, "custom", None))
                rs += [(run, m, None) for m in ("full", "empty")] if j else [(run, "custom", x) for x in ("register", "tabulate", "scratch")]
            return trial(ctx, k, rs)

        ctx.attempt(group, name, f, w)


# ------------------------------------------------------------------ C38
class Multi:
    """several integrals of several forms compiled together"""

    Q = [("083", 4, False), ("a1f", 9, False), ("0ce", 16, False), ("5d2", 3, False), ("eb7", 2, True)]

    def __init__(self, seed, femap=None):
        r = random.Random(seed)
        self.r = r
        self.tdim = r.choice([2, 2, 3])
        n = r.choice([1, 2, 3, 4])
        self.kerns = []
        for i in range(n):
            t = r.choice(["cell", "cell", "exterior_facet", "interior_facet"])
            qs = r.sample(self.Q[:4], r.choice([1, 1, 2] if self.tdim == 2 else [1]))
            if t == "cell" and r.random() < 0.5:
                qs.insert(r.randrange(len(qs) + 1), self.Q[4])
            mixed = t == "exterior_facet" and r.random() < 0.4
            els = ["q1", "q1"] if mixed else r.sample(["q1", "dg", "rt", "vec", "th"], 2)
            for s in range(seed * 100 + i * 10, seed * 100 + i * 10 + 4000, 50):
                try:
                    k = Kern(s, itype=t, tdim=self.tdim, quads=tuple(qs), els=els, nargs=1, ncoef=r.choice([0, 1, 2]), mixed=mixed, dt=r.choice(["f8"]), femap=femap)
                    break
                except ValueError:
                    continue
            else:
                raise Undecided("integral")
            k.name = "%08x" % (seed * 1000 + i) + k.name[8:]
            self.kerns.append(k)
        self.quads = list({q.name: q for k in self.kerns for q in k.quads}.values())
        # the forms: integrals with one or several ids each
        nf = r.choice([1, 1, 2])
        self.forms = []
        ids = {}
        for f in range(nf):
            mine = self.kerns[f::nf]
            d = {}
            free = {t: r.sample(range(9), 9) for t in ("cell", "exterior_facet", "interior_facet")}
            for k in mine:
                k.ids = sorted(free[k.itype].pop() for _ in range(r.choice([1, 1, 2])))
                if r.random() < 0.3 and not any(-1 in x.ids for x in mine if x is not k and x.itype == k.itype and hasattr(x, "ids")):
                    k.ids = [-1]
                d.setdefault(k.itype, []).append(k)
            self.forms.append(d)
        self.degrees = {id(k): [r.choice([2, 3, 4, 6, 7]) for _ in range(r.choice([1, 2, 3]))] for k in self.kerns}
        self.sumf = r.random() < 0.5
        self.fact = []

    def ir(self, it):
        self.rules = {}
        self.dom = None
        irs, fds = [], []
        byform = {}
        for k in self.kerns:
            ir, ufl = k.ir(it, self.rules, self.dom)
            self.dom = self.dom or k.dom
            self.cellobj = self.kerns[0].cellobj
            irs.append(it.iter(ir.f["integrals"])[0] if not isinstance(ir.f["integrals"], list) else ir.f["integrals"][0])
            itgs = []
            for q, o in zip(k.quads, k.itgs):
                if not q.unf:
                    itgs.append(o)
                    continue
                for dg in self.degrees[id(k)]:
                    md = {"quadrature_degree": dg, "quadrature_rule": "custom", "quadrature_points": self.rules[q.name].f["points"], "quadrature_weights": self.rules[q.name].f["weights"], "custom_unfitted_boundary": True}
                    itgs.append(fake("integral", metadata=nat("metadata", lambda it, md=md: dict(md)), integral_type=nat("integral_type", lambda it, k=k: k.itype), ufl_domain=nat("ufl_domain", lambda it: self.dom)))
            k.uflitgs = itgs
        forms = []
        for d in self.forms:
            names = {t: [] for t in ("cell", "interior_facet", "exterior_facet", "vertex", "ridge")}
            ids = {t: [] for t in names}
            for t, ks in d.items():
                for k in ks:
                    names[t] += ["integral_" + k.name] * len(k.ids)
                    ids[t] += k.ids
            forms.append(fake("form ir", integral_names=names, subdomain_ids=ids))
            fds.append(fake("form data", integral_data=[fake("integral data", integrals=k.uflitgs, integral_type=t) for t, ks in d.items() for k in ks], argument_elements=[]))
        return fake("ir", integrals=irs, forms=forms, elements=[], expressions=[]), fake("ufl data", form_data=fds)

    def hooks(self):
        h = Kern.hooks(self)
        cpw = h["ffcx.ir.representationutils.create_quadrature_points_and_weights"]

        def ask(it, a, k):
            v = dict(zip(("integral_type", "cell", "degree", "rule", "elements", "use_tensor_product"), a))
            v.update(k)
            self.fact.append((v["integral_type"], v["cell"], v.get("use_tensor_product", False)))
            return cpw(it, a, k)

        h["ffcx.ir.representationutils.create_quadrature_points_and_weights"] = ask
        return h

    def generate(self, it):
        ir, ufl = self.ir(it)
        self.texts = [k.ffcx() for k in self.kerns]
        b = BlocksV([[("", Kern.HEADER)], [("declaration %d" % i, t) for i, t in enumerate(self.texts)]])
        b.obj.f.update(forms=[("form h", "form c")], expressions=[], file_post=[("", "end")])
        self.blocks = b.obj
        self.fact.clear()
        return it.call(it.get(G + "generate_code"), [ufl, ir, {"sum_factorization": self.sumf, "scalar_type": it.ext("numpy.float64")}])


def order_of(it, d):
    """the data of an integral that the packer and the kernel go through, in order"""
    qd = it.getattr_(d, "quad_data_FE_tables")
    return [it.getattr_(q, "name") for q in list(qd.keys() if hasattr(qd, "keys") else qd)]


def run_C38(ctx):
    it0 = Interp()
    w = wf(it0.get(G + "generate_code"))

    def data(seed):
        m = Multi(seed)

        def spec(it, r, S):
            if not isinstance(r, (tuple, list)) or len(r) != 2:
                return None, "result of generate_code"
            blocks, datas = r
            datas = list(datas)
            if len(datas) != len(m.kerns):
                return False, "data for %d integrals, the forms have %d" % (len(datas), len(m.kerns))
            out = blocks.f["integrals"]
            if blocks.f["forms"] != [("form h", "form c")]:
                return False, "the code of the forms is changed"
            for i, (k, d) in enumerate(zip(m.kerns, datas)):
                g = lambda n: it.getattr_(d, n)
                who = "integral %d (%s)" % (i, k.itype)
                if g("name") != k.name:
                    return False, "%s has the data of %s" % (who, g("name"))
                if sorted(g("subdomain_ids")) != k.ids:
                    return False, "%s is over the subdomains %s, specified %s" % (who, list(g("subdomain_ids")), k.ids)
                if g("integral_type") != k.itype or ints([g("tdim")]) != [k.tdim]:
                    return False, "%s has type %s and dimension %s" % (who, g("integral_type"), g("tdim"))
                if bool(it.truth(g("is_mixed_dim"))) != bool(k.mixed):
                    return False, "%s is%s of mixed dimension" % (who, "" if k.mixed else " not")
                h, text = out[i]
                if h != "declaration %d" % i or "void tabulate_tensor_integral_%s(" % k.name not in text or "ufcx_integral integral_%s" % k.name not in text:
                    return False, "the code of %s is at the place of another one" % who
                qd = it.getattr_(d, "quad_data_FE_tables")
                qs = list(qd.keys())
                if sorted(it.getattr_(q, "name") for q in qs) != sorted(q.name for q in k.quads):
                    return False, "%s has the quadratures %s" % (who, [it.getattr_(q, "name") for q in qs])
                for q in qs:
                    o = [x for x in k.quads if x.name == it.getattr_(q, "name")][0]
                    if bool(it.truth(it.getattr_(q, "unfitted_boundary"))) != o.unf:
                        return False, "%s: the rule %s is%s deemed the one of the unfitted boundary" % (who, o.name, " not" if o.unf else "")
                    dg = ints([it.getattr_(q, "degree")])[0]
                    lo = max(m.degrees[id(k)]) if o.unf else o.degree
                    hi = max(z for x in m.kerns for z in m.degrees[id(x)] if any(y.unf for y in x.quads)) if o.unf else o.degree
                    if not lo <= dg <= hi:
                        return False, "%s: terms of degree up to %d are integrated with a rule of degree %d" % (who, lo, dg)
                    if it.getattr_(q, "rule") is not m.rules[o.name]:
                        return False, "%s: the rule of %s is another one" % (who, o.name)
            for t, c, f in m.fact:
                if t not in ("cell", "exterior_facet", "interior_facet") or c is not m.cellobj:
                    return False, "standard rules are made for %s of %s" % (t, c)
                if bool(it.truth(f)) != (m.sumf and t == "cell"):
                    return False, "the standard rule of %s integrals is made %s tensor factors" % (t, "with" if f else "without")
            return True, ""

        return pydecide(ctx, m.generate, spec, hooks=m.hooks())

    def sessions(seed):
        r = random.Random(seed)
        perm = r.sample(range(12), 12)
        ms = [Multi(seed), Multi(seed, lambda i: perm[i]), Multi(seed, lambda i: 100 - 9 * i)]
        cur = [None]
        hooks = {}
        hs = [m.hooks() for m in ms]
        for n in hs[0]:
            hooks[n] = (lambda n: (lambda it, *a: hs[cur[0]][n](it, *a)))(n)

        def go(it):
            out = []
            for j, m in enumerate(ms):
                cur[0] = j
                it.salt = j
                out.append([order_of(it, d) for d in it.iter(m.generate(it)[1])])
            return out

        def spec(it, v, S):
            for o in v[1:]:
                for i, (a, b) in enumerate(zip(v[0], o)):
                    if a != b:
                        return False, "the quadratures of integral %d are ordered %s in one session and %s in another one, that numbers the elements in another way: a cached kernel reads the data of the wrong quadrature" % (i, a, b)
            return True, ""

        return pydecide(ctx, go, spec, hooks=hooks)

    for seed in range(16 if not ctx.thorough else 120):
        ctx.attempt("data of the integrals", "forms #%d" % seed, lambda: data(seed), w)
        ctx.attempt("order of the quadratures", "forms #%d" % seed, lambda: sessions(seed), w)
