"""C29 (form_custom), C30 (measure of unfitted boundaries)."""
import random
from ..pysym import *

F = "qugar.dolfinx.forms."
B = "qugar.dolfinx.boundary."


def SUM(*v):
    r = v[0]
    for x in v[1:]:
        r = tm.add(r, x)
    return r

ITYPES = ("cell", "exterior_facet", "interior_facet")
MATS = ("sqrt", "inner", "dot", "transpose", "inv", "det", "cofac")


def ufl_setup(it, jac=None):
    m = "vmodel.ufl."
    it.over[m + "_sym"] = nat("sym", lambda it, n: S_(n))
    it.over[m + "_sqrt"] = nat("sqrt", lambda it, x: tm.sqrt(x) if hasattr(tm, "sqrt") else T("sqrt", x))
    for n in ("Form", "Integral", "Measure"):
        v = it.get(m + n)
        for p in ("ufl.", "ufl.form.", "ufl.integral.", "ufl.measure."):
            it.over[p + n] = v
    v = it.get(m + "CompiledForm")
    for p in ("dolfinx.fem.Form", "dolfinx.fem.forms.Form"):
        it.over[p] = v
    for n in MATS:
        for p in ("ufl.", "ufl.operators."):
            it.over[p + n] = it.get(m + n)
    it.over["ufl.protocols.id_or_none"] = it.get(m + "id_or_none")
    for p in ("dolfinx.fem.Constant", "dolfinx.fem.function.Constant"):
        it.over[p] = it.get(m + "Constant")
    if jac:
        for p in ("ufl.Jacobian", "ufl.geometry.Jacobian"):
            it.over[p] = nat("Jacobian", jac)


def idsof(x):
    return list(x) if isinstance(x, tuple) else [x]


# ------------------------------------------------------------------ C29
class Case:
    def __init__(self, seed):
        r = random.Random(seed)
        self.r, self.seed = r, seed
        # (type, id, has data, metadata)
        o = []
        for t in r.sample(ITYPES, r.choice([1, 2, 3])):
            tagged = r.random() < 0.6
            for _ in range(r.choice([1, 1, 2, 3])):
                if tagged and r.random() < 0.6:
                    o.append((t, r.choice([0, 1, 4, 7]), True, r.choice([{}, {"quadrature_degree": 3}])))
                else:
                    o.append((t, r.choice(["everywhere", "everywhere", -1 if t == "exterior_facet" else "everywhere"]), tagged and r.random() < 0.7, r.choice([{}, {"quadrature_degree": r.choice([2, 3])}])))
        if r.random() < 0.6 and not any(x[0] == "exterior_facet" for x in o):
            o.append(("exterior_facet", "everywhere", False, {}))
        # once an integral of a type has data, the everywhere ones come after (UFL sorts them so)
        for t in ITYPES:
            if any(x[0] == t and x[2] for x in o):
                o = [(a, b, True if a == t else c, d) for a, b, c, d in o]
        self.spec = o
        self.part = r.choice(["full", "full", "diagonal"])
        self.npos = r.choice([[0, 1], [2, 0], [1], []])
        self.nargs = r.choice([0, 1, 2])
        if not self.nargs:
            self.part = "full"
        self.nmaps = r.choice([0, 0, 1, 2])

    def make(self, it):
        unf = new(it, "qugar.mesh.unfitted_domain.UnfittedDomain")
        self.unf = unf
        mesh = fake("mesh", comm="COMM")
        self.mesh = mesh
        dom = fake("ufl domain", unf_domain=unf, ufl_cargo=nat("cargo", lambda it: mesh))
        self.dom = dom
        data = {t: fake("tags of " + t) for t in ITYPES}
        self.data = data

        def space(i):
            return fake("argument", ufl_function_space=nat("V", lambda it: fake("V", _cpp_object="V%d" % i)))

        ig = fake("integrand", arguments=tuple(space(i) for i in range(self.nargs)), coefficients=[fake("coef", _cpp_object="C%d" % i) for i in range(3)], constants=[fake("const", _cpp_object="K%d" % i) for i in range(2)])
        I = it.get("vmodel.ufl.Integral")
        self.itgs = []
        self.before = []
        shared = {}
        for j, (t, sid, hasd, md) in enumerate(self.spec):
            # measures share their metadata between the integrals
            md = shared.setdefault((t, str(md)), dict(md))
            o = it.instantiate(I, [fake("integrand %d" % j, **{k: v for k, v in ig.f.items() if k != "__name__"}), t, dom, sid, md, data[t] if hasd else None], {})
            self.itgs.append(o)
            self.before.append({**o.f, "_metadata": dict(md)})
        return it.instantiate(it.get("vmodel.ufl.Form"), [list(self.itgs)], {})

    def intact(self, form, integrals):
        for o, b in zip(self.itgs, self.before):
            for k, v in b.items():
                g = o.f.get(k)
                if (g != v) if k == "_metadata" else not (g is v or (isinstance(v, (str, int)) and g == v)):
                    return "the %s integral over %s given has its %s changed to %s" % (b["_integral_type"], b["_subdomain_id"], k.strip("_").replace("_", " "), str(g)[:60])
        if len(form.f["_integrals"]) != len(integrals) or any(a is not b for a, b in zip(form.f["_integrals"], integrals)):
            return "the integrals of the given form are replaced"
        return ""


def run_C29(ctx):
    it0 = Interp()
    w = wf(it0.get(F + "form_custom"))

    def env(c, log, fail=False):
        def jit(it, a, k):
            log["jit"] = (list(a), dict(k), [dict(x.f) for x in it.call(it.getattr_(a[1], "integrals"), [])])
            if fail:
                raise it.exc("RuntimeError", "compiler error")
            log["ufcx"] = fake("ufcx form", original_coefficient_positions=list(c.npos), num_coefficients=len(c.npos))
            log["module"] = fake("module", ffi=fake("ffi", cast=nat("cast", lambda it, t, p: ("cast", t, p)), addressof=nat("addressof", lambda it, x: ("address", x))))
            return ("ITG DATA", log["ufcx"], log["module"], "CODE")

        def dom(it, a, k):
            t, d, ids = [(k[n] if n in k else a[i]) for i, n in enumerate(("integral_type", "subdomain", "subdomain_ids"))]
            if d is None:
                return []
            return [(i, ("entities", d.f["__name__"], i)) for i in sorted(set(ids))]

        def ftype(it, *a):
            log["form"] = a
            log["cpp"] = fake("cpp form")
            return log["cpp"]

        def facets(it, a, k):
            e = (a[0] if a and not isinstance(a[0], Obj) else k.get("ext_integral"))
            return fake("facets", as_array=nat("as_array", lambda it: ("all facets", e)))

        def form_init(it, a, k):
            return None

        class _M(dict):
            pass

        return {
            "qugar.dolfinx.jit.ffcx_jit": jit,
            "dolfinx.fem.forms.get_integration_domains": dom,
            "dolfinx.fem.forms.form_cpp_class": lambda it, a, k: log.setdefault("dtype", a[0]) and nat("form type", ftype),
            "qugar.mesh.unfitted_domain.UnfittedDomain.get_all_facets": facets,
            "qugar.mesh.unfitted_domain_abc.UnfittedDomainABC.get_all_facets": facets,
            "qugar.dolfinx.custom_coefficients.CustomCoeffsPacker": lambda it, a, k: log.setdefault("packer", (a, k)) and fake("packer", pack_coefficients=nat("pack", lambda it: "PACKED"), update_coefficients=nat("update", lambda it, old: ("UPDATED", old))),
            ("selfattr", "_"): lambda it, o: NotImplemented,
        }

    def result(it, v, log):
        """The form returned wraps what was made"""
        if not isinstance(v, Obj):
            return False, "%s is returned" % (v,)
        for k, w in (("_cpp_object", log["cpp"]), ("_ufcx_form", log["ufcx"]), ("_code", "CODE"), ("_module", log["module"])):
            if k in v.f and v.f[k] is not w and v.f[k] != w:
                return False, "%s of the form is %s" % (k.strip("_").replace("_", " "), v.f[k])
            if k not in v.f:
                return False, "the form is created without its base (%s)" % k.strip("_")
        for a, w in ((("pack_coefficients",), "PACKED"), (("update_coefficients", "OLD"), ("UPDATED", "OLD"))):
            g = it.call(it.getattr_(v, a[0]), list(a[1:]))
            if g != w:
                return False, "%s() gives %s" % (a[0], g)
        return True, ""

    def check(c, log, form0, integrals0):
        bad = c.intact(form0, integrals0)
        if bad:
            return False, bad
        args, kw, itgs = log["jit"]
        fc = log["form"]
        if len(fc) != 7:
            return None, "form constructor"
        # what was compiled
        ids = {}
        left = list(itgs)
        for b in [{**x.f} for x in integrals0]:
            t, sid = b["_integral_type"], b["_subdomain_id"]
            mine = [x for x in left if x["_integrand"] is b["_integrand"] and x["_integral_type"] == t]
            if len(mine) != 1:
                return False, "%d integrals compiled for the %s integral over %s" % (len(mine), t, sid)
            m = mine[0]
            left.remove(m)
            if t == "exterior_facet" and sid in ("everywhere", -1):
                n = m["_subdomain_id"]
                if not isinstance(n, int) or n < 0:
                    return False, "the integral over the whole boundary is compiled for the subdomain %s" % (n,)
                taken = [i for x in integrals0 if x.f["_integral_type"] == t for i in idsof(x.f["_subdomain_id"])] + [k for k in ids]
                if n in taken:
                    return False, "the integral over the whole boundary gets the id %s of another integral" % n
                ids[n] = m
                md = dict(m["_metadata"])
                if any(md.get(k) != v for k, v in b["_metadata"].items()):
                    return False, "metadata of the integral over the whole boundary lost: %s" % md
            else:
                for k in ("_subdomain_id", "_subdomain_data", "_ufl_domain"):
                    if m[k] is not b[k] and m[k] != b[k]:
                        return False, "the %s integral over %s is compiled with another %s: %s" % (t, sid, k, m[k])
                if m["_metadata"] != b["_metadata"]:
                    return False, "the %s integral over %s is compiled with other metadata: %s" % (t, sid, m["_metadata"])
        if left:
            return False, "more integrals compiled than given"
        # where it is integrated
        sub = fc[4]
        got = {}
        for k, v in sub.items():
            name = k if isinstance(k, str) else str(getattr(k, "path", k)).split(".")[-1]
            got[name.split("domain of ")[-1]] = v
        for t in ITYPES:
            mine = [x.f for x in integrals0 if x.f["_integral_type"] == t]
            if not mine:
                if got.get(t):
                    return False, "domains of %s integrals the form does not have" % t
                continue
            want = []
            for n in sorted({i for x in mine if x["_subdomain_data"] is not None for i in idsof(x["_subdomain_id"]) if isinstance(i, int) and i >= 0}):
                want.append((n, ("entities", c.data[t].f["__name__"], n)))
            if t == "exterior_facet":
                want += [(n, ("all facets", True)) for n in sorted(ids)]
            g = got.get(t)
            if g is None or sorted(map(str, g)) != sorted(map(str, want)):
                return False, "%s integrals are computed over %s, specified %s" % (t, str(g)[:200], str(want)[:200])
        V = ["V%d" % i for i in range(c.nargs)]
        if c.part == "diagonal":
            V = V[:1]
        if list(fc[1]) != V:
            return False, "function spaces %s, specified %s" % (fc[1], V)
        if list(fc[2]) != ["C%d" % i for i in c.npos]:
            return False, "coefficients %s, specified %s" % (fc[2], c.npos)
        if list(fc[3]) != ["K0", "K1"]:
            return False, "constants %s" % (fc[3],)
        if list(fc[5]) != ["E0", "E1"][: c.nmaps]:
            return False, "entity maps %s, specified %d" % (fc[5], c.nmaps)
        if list(fc[0]) != [("cast", "uintptr_t", ("address", log["ufcx"]))]:
            return False, "compiled form %s" % (fc[0],)
        if fc[6] is not c.mesh:
            return False, "mesh of the form"
        if args[0] != "COMM":
            return False, "communicator of the compilation"
        if "packer" not in log:
            return False, "no packer of coefficients is created for the form"
        pa, pk = log["packer"]
        if c.unf not in list(pa) + list(pk.values()) or "ITG DATA" not in [x for x in list(pa) + list(pk.values()) if isinstance(x, str)]:
            return False, "the coefficients packer is not created for the domain and data of the form"
        return True, ""

    keyhook = nat("key", lambda it, k: "domain of " + k)
    dommap = {t: "domain of " + t for t in ITYPES}

    def mk_over():
        return {"dolfinx.fem.forms._ufl_to_dolfinx_domain": dict(dommap), "dolfinx.fem.IntegralType": fake("IntegralType", **dommap), "dolfinx.fem.IntegralType.exterior_facet": dommap["exterior_facet"]}

    N = 24 if not ctx.thorough else 150
    for seed in range(N):
        c = Case(seed)

        def go(it, c=c, log=None, **kw):
            form = c.make(it)
            log["f"] = form, form.f["_integrals"]
            opts = {"part": c.part}
            kw = {"entity_maps": [fake("map", _cpp_object="E%d" % i) for i in range(c.nmaps)]} if c.nmaps else {}
            return it.call(it.get(F + "form_custom"), [form], {"dtype": it.ext("numpy.float64"), "form_compiler_options": opts, **kw})

        def ok():
            log = {}
            def spec(it, v, S):
                ok, bad = check(c, log, *log["f"])
                return result(it, v, log) if ok else (ok, bad)

            return pydecide(ctx, lambda it: (log.clear(), go(it, log=log))[1], spec, hooks=env(c, log), over=mk_over(), setup=ufl_setup)

        def failing():
            log = {}

            def throw(it, e, S):
                bad = c.intact(*log["f"])
                return (False, "after an error of the compiler, " + bad) if bad else (True, "")

            return pydecide(ctx, lambda it: (log.clear(), go(it, log=log))[1], lambda it, v, S: (False, "an error of the compiler is ignored"), throw=throw, hooks=env(c, log, True), over=mk_over(), setup=ufl_setup)

        def twice():
            log = {}

            def g(it):
                log.clear()
                form = c.make(it)
                log["f"] = form, form.f["_integrals"]
                fn = it.get(F + "form_custom")
                kw = {"dtype": it.ext("numpy.float64"), "form_compiler_options": {"part": c.part}}
                it.call(fn, [form], dict(kw))
                log.pop("packer", None)
                # another form with the same integrals
                f2 = it.instantiate(it.get("vmodel.ufl.Form"), [list(c.itgs)], {})
                log["f"] = f2, f2.f["_integrals"]
                c0, c.nmaps = c.nmaps, 0
                it.call(fn, [f2], dict(kw))

            return pydecide(ctx, g, lambda it, v, S: check(c, log, *log["f"]), hooks=env(c, log), over=mk_over(), setup=ufl_setup)

        name = "#%d %s" % (seed, ", ".join("%s %s" % (t, s) for t, s, d, m in c.spec))
        ctx.attempt("integration domains of the form", name, ok, w)
        ctx.attempt("given forms are not modified on errors", name, failing, w)
        ctx.attempt("forms that share integrals", name, twice, w)
    shapes = [["f"], ["f", "f"], ["f", None], [["f", None], ["f"]], [], [None, ["f", ["f"]]]]
    for sh in shapes:

        def lists():
            log = {}

            def g(it):
                c = Case(1)
                log.clear()
                made = []
                log["made"] = made

                def build(x):
                    if isinstance(x, list):
                        return [build(y) for y in x]
                    if x is None:
                        return it.instantiate(it.get("vmodel.ufl.Form"), [[]], {})
                    f = c.make(it)
                    f.f["tag"] = len(made)
                    made.append(f)
                    return f

                r = it.call(it.get(F + "form_custom"), [build(sh)], {"dtype": it.ext("numpy.float64")})
                return r

            def fl(x):
                return [z for y in x for z in fl(y)] if isinstance(x, list) else [x]

            def spec(it, v, S):
                if not isinstance(v, (list, tuple)):
                    return False, "%s for a list of forms" % v
                want = fl(sh)
                got = fl(list(v))
                if len(got) != len(want):
                    return False, "%d forms for %d forms" % (len(got), len(want))
                for a, b in zip(got, want):
                    if (b is None) != (a is None):
                        return False, "forms %s for %s" % (got, want)
                return True, ""

            return pydecide(ctx, g, spec, hooks=env(Case(1), log), over=mk_over(), setup=ufl_setup)

        ctx.attempt("lists of forms", str(sh), lists, w)


# ------------------------------------------------------------------ C30
def run_C30(ctx):
    it0 = Interp()
    wm = wf(it0.get(B + "ds_bdry_unf"))
    wn = wf(it0.get(B + "mapped_normal"))

    def jac(gd, td):
        def f(it, dom):
            tag = dom.f.get("tag", "")
            return it.instantiate(it.get("vmodel.ufl.Tensor"), [(gd, td), [S_("%sJ%d%d" % (tag, i, j)) for i in range(gd) for j in range(td)]], {})

        return f

    def mesh(td, gd, dt="f8", tag=""):
        return fake("mesh", tag=tag, topology=fake("topology", dim=td), geometry=fake("geometry", dim=gd, x=arr(None, [0.0] * 3, dt)))

    def setup(gd, td):
        return lambda it: ufl_setup(it, jac(gd, td))

    ismesh = {("isinstance", "dolfinx.mesh.Mesh"): lambda it, o: isinstance(o, Obj) and o.f.get("__name__") == "mesh", ("isinstance", "ufl.AbstractDomain"): lambda it, o: True}

    def normal(gd, td, tag=""):
        """DF DF^+ ^T N by components"""
        J = [[S_("%sJ%d%d" % (tag, i, j)) for j in range(td)] for i in range(gd)]
        N = [S_("N%d" % i) for i in range(td)]
        M = [[SUM(*[tm.mul(J[k][i], J[k][j]) for k in range(gd)]) for j in range(td)] for i in range(td)] if gd != td else J
        if gd == 2 and td == 1:
            return [tm.mul(tm.div(J[i][0], M[0][0]), N[0]) for i in range(2)]

        def minor(m, i, j):
            s = [[m[a][b] for b in range(td) if b != j] for a in range(td) if a != i]
            v = s[0][0] if td == 2 else tm.sub(tm.mul(s[0][0], s[1][1]), tm.mul(s[0][1], s[1][0]))
            return v if (i + j) % 2 == 0 else tm.neg(v)

        det = SUM(*[tm.mul(M[0][j], minor(M, 0, j)) for j in range(td)])
        # inverse[i][j] = minor(j, i) / det
        if gd == td:  # transpose of the inverse
            return [tm.div(SUM(*[tm.mul(minor(M, i, j), N[j]) for j in range(td)]), det) for i in range(td)]
        y = [tm.div(SUM(*[tm.mul(minor(M, j, i), N[j]) for j in range(td)]), det) for i in range(td)]
        return [SUM(*[tm.mul(J[i][k], y[k]) for k in range(td)]) for i in range(gd)]

    def norm(v):
        return T("sqrt", SUM(*[tm.mul(x, x) for x in v]))

    # one family of random values only: the determinant must not vanish
    for td, gd in ((2, 2), (3, 3), (2, 3)):
        for normalize in (True, False, None):

            def f():
                def go(it):
                    return it.call(it.get(B + "mapped_normal"), [mesh(td, gd)], {} if normalize is None else {"normalize": normalize})

                def spec(it, v, S):
                    n = normal(gd, td)
                    if normalize is not False:
                        l = norm(n)
                        n = [tm.div(x, l) for x in n]
                    g = v.f.get("v") if isinstance(v, Obj) else None
                    if g is None or len(g) != gd:
                        return False, "normal with %s components in a space of dimension %d" % (g and len(g), gd)
                    for i in range(gd):
                        ok, det = S.same(g[i], n[i])
                        if not ok:
                            return ok, "component %d: %s" % (i, det)
                    if len({id(x) for x in v.f["consts"]}) != 1 or v.f["consts"][0].cls.name != "ParamNormal":
                        return False, "the normal of the boundary is not a single parametric normal"
                    return True, ""

                return pydecide(ctx, go, spec, hooks=ismesh, setup=setup(gd, td))

            ctx.attempt("normal of the boundary", "%d in %dD, normalize=%s" % (td, gd, normalize), f, wn)
        for dt in ("f8", "f4"):

            def g():
                def spec(it, v, S):
                    if v.f.get("ufl_shape") != (td,):
                        return False, "parametric normal of shape %s" % (v.f.get("ufl_shape"),)
                    if v.f["dtype"] != D[dt]:
                        return False, "parametric normal of type %s for a %s mesh" % (v.f["dtype"], dt)
                    return True, ""

                return pydecide(ctx, lambda it: it.call(it.get(B + "ParamNormal"), [mesh(td, gd, dt)]), spec, hooks=ismesh, setup=setup(gd, td))

            ctx.attempt("parametric normal", "%d in %dD, %s" % (td, gd, dt), g, wm)
    CHAINS = [
        ("everywhere", {}, []),
        ("subdomain", {"subdomain_id": 3}, []),
        ("several subdomains", {"subdomain_id": (2, 5)}, []),
        ("metadata", {"metadata": {"quadrature_degree": 4, "user": "x"}}, []),
        ("degree", {"degree": 3, "subdomain_data": "TAGS"}, []),
        ("degree over metadata", {"degree": 3, "metadata": {"quadrature_degree": 7, "user": "x"}}, []),
        ("call id", {"subdomain_data": "TAGS"}, [((4,), {})]),
        ("call ids", {"subdomain_data": "TAGS", "degree": 2}, [(((1, 4),), {})]),
        ("call degree", {"subdomain_id": 2}, [((), {"degree": 5})]),
        ("call data", {}, [((3,), {"subdomain_data": "TAGS"})]),
        ("call twice", {"metadata": {"user": 1}}, [((7,), {}), ((9,), {})]),
        ("call twice ids", {}, [((), {"degree": 4}), (((0, 1, 2),), {})]),
        ("call metadata", {"degree": 4}, [((2,), {"metadata": {"quadrature_degree": 1}})]),
        ("call domain", {"degree": 4}, [((), {"domain": "other"})]),
        ("call domain and ids", {"subdomain_data": "TAGS"}, [(((3, 1),), {"domain": "other"})]),
        ("call domain, call id", {}, [((), {"domain": "other"}), ((2,), {})]),
    ]
    for td, gd in ((2, 2), (3, 3), (2, 3)):
        for name, kw, calls in CHAINS:
            if gd != td and name not in ("everywhere", "call ids"):
                continue

            def h():
                user = [dict(kw["metadata"])] if "metadata" in kw else []
                log = {}

                def go(it):
                    m = mesh(td, gd)
                    log["m"] = m
                    k = {a: (dict(b) if isinstance(b, dict) else b) for a, b in kw.items()}
                    log["user"] = k.get("metadata")
                    ds = it.call(it.get(B + "ds_bdry_unf"), [m], k)
                    for a, b in calls:
                        k = {x: (dict(y) if isinstance(y, dict) else y) for x, y in b.items()}
                        if "domain" in k:
                            k["domain"] = log["m"] = mesh(td, gd, tag="o")
                        ds = it.call(ds, list(a), k)
                    ig = it.instantiate(it.get("vmodel.ufl.Tensor"), [(), [S_("f")]], {})
                    return it.binop("Mult", ig, ds)

                def spec(it, v, S):
                    if user and log["user"] != user[0]:
                        return False, "the metadata given is modified: %s" % log["user"]
                    st = {"subdomain_id": kw.get("subdomain_id", "everywhere"), "subdomain_data": kw.get("subdomain_data"), "md": dict(kw.get("metadata", {}))}
                    if "degree" in kw:
                        st["md"]["quadrature_degree"] = kw["degree"]
                    for a, b in calls:
                        if a:
                            st["subdomain_id"] = a[0]
                        if "subdomain_data" in b:
                            st["subdomain_data"] = b["subdomain_data"]
                        if "metadata" in b:
                            st["md"] = dict(b["metadata"])
                        if "degree" in b:
                            st["md"] = {"quadrature_degree": b["degree"]}
                    ids = st["subdomain_id"] if isinstance(st["subdomain_id"], tuple) else (st["subdomain_id"],)
                    igs = [x.f for x in it.call(it.getattr_(v, "integrals"), [])]
                    if sorted(str(x["_subdomain_id"]) for x in igs) != sorted(map(str, ids)):
                        return False, "integrals over %s, specified %s" % ([x["_subdomain_id"] for x in igs], list(ids))
                    want = tm.mul(S_("f"), norm(normal(gd, td, log["m"].f["tag"])))
                    for x in igs:
                        if x["_integral_type"] != "cell":
                            return False, "%s integral" % x["_integral_type"]
                        if x["_ufl_domain"] is not log["m"] or x["_subdomain_data"] != st["subdomain_data"]:
                            return False, "domain or data of the integral: %s" % x["_subdomain_data"]
                        ok, det = S.same(x["_integrand"].f["v"][0], want)
                        if not ok:
                            return ok, "integrand over %s: %s" % (x["_subdomain_id"], det)
                        md = dict(x["_metadata"])
                        own = {k: md.pop(k, None) for k in ("quadrature_points", "quadrature_weights", "quadrature_rule", "custom_unfitted_boundary")}
                        if md != st["md"]:
                            return False, "metadata %s, specified %s" % (md, st["md"])
                        if own["quadrature_rule"] != "custom" or own["custom_unfitted_boundary"] is not True:
                            return False, "the integral is not marked as one over unfitted boundaries: %s" % own
                        p, w = els(asA(it, own["quadrature_points"])), els(asA(it, own["quadrature_weights"]))
                        if p.ndim != 2 or p.shape[1] != td or w.shape != (p.shape[0],) or p.shape[0] < 2:
                            return False, "placeholder rule with points of shape %s and weights of shape %s" % (p.shape, w.shape)
                        if any(not (0 <= float(z) <= 1) for z in p.reshape(-1)):
                            return False, "placeholder points outside the reference cell"
                    return True, ""

                return pydecide(ctx, go, spec, hooks=ismesh, setup=setup(gd, td))

            ctx.attempt("integrals over unfitted boundaries", "%d in %dD, %s" % (td, gd, name), h, wm)
