"""C34: compilation of forms leaves the process and the cache consistent, whatever fails.
C35: PETSc problems assemble with the current data.  C36: version ranges."""
import itertools
from ..pysym import *

J = "qugar.dolfinx.jit."
RAW = "g++ -shared -L/p/lib -L/p/lib -Wl,-rpath,/p/lib -Wl,-rpath,/p/lib -O2"


class World:
    """the process (environment, loggers, cache directory) around one compilation"""

    def __init__(self, env, cached, fail, raw):
        self.env0, self.cached, self.fail, self.raw = dict(env), cached, list(fail), raw
        self.env, self.files, self.log, self.bad = dict(env), set(), [], []
        self.h0 = [fake("handler 0"), fake("handler 1")]
        self.root = fake("root logger", handlers=list(self.h0), level=30)
        self.src = {}
        self.opts_seen = []
        self.stdout = 0

    def say(self, m):
        if m not in self.bad:
            self.bad.append(m)

    def trip(self, it, where, exc="RuntimeError"):
        if self.fail and self.fail[0] == where:
            self.fail.pop(0)
            raise it.exc(exc, where)
        if self.fail and self.fail[0] == "ok" and where == "load":
            self.fail.pop(0)

    def op(self, it, op, *a):
        if op == "mkdir":
            self.log.append(("mkdir", a[0]))
            return None
        if op == "exists":
            return a[0] in self.files
        if op == "unlink":
            if a[0] not in self.files:
                if len(a) > 1 and it.truth(a[1]):
                    return None
                raise it.exc("FileNotFoundError", a[0])
            self.files.discard(a[0])
            return None
        if op == "replace":
            if a[0] not in self.files:
                raise it.exc("FileNotFoundError", a[0])
            self.files.discard(a[0])
            self.files.add(a[1])
            return None
        if op in ("open", "touch", "write"):
            p, mode = a[0], (a[1] if len(a) > 1 else "w")
            if op == "open" and "x" in mode and p in self.files:
                raise it.exc("FileExistsError", p)
            if p.endswith(".cached"):
                self.trip(it, "ready", "OSError")
                self.log.append(("ready", p))
            self.files.add(p)
            o = fake("file")
            o.f.update(write=nat("write", lambda it, t: None), close=nat("close", lambda it: None), flush=nat("flush", lambda it: None))
            o.f.update(__enter__=nat("e", lambda it: o), __exit__=nat("x", lambda it, *a: None))
            return o
        raise Undecided("file system operation " + op)

    def builder(self):
        b = fake("ffi builder")

        def set_source(it, name, code, **k):
            self.src = dict(k, name=name, code=code)

        def cdef(it, d, *a, **k):
            self.log.append(("cdef", d))

        def comp(it, *a, **k):
            d = k.get("tmpdir", a[0] if a else ".")
            d = d if isinstance(d, str) else d.f["p"]
            name = self.src.get("name", "?")
            self.files.add("%s/%s.c" % (d, name))
            self.log.append(("compile", d, name, dict(self.src)))
            if not any(x[0] == "shim" for x in self.log):
                self.say("the kernel is compiled before the shim library exists")
            cur = self.env.get("LDSHARED")
            if self.raw and isinstance(cur, str):
                if set(cur.split()) != set(self.raw.split()) or [x for x in dict.fromkeys(self.raw.split())] != [x for x in dict.fromkeys(cur.split())]:
                    self.say("the linker is called with other flags: %s" % cur)
            self.trip(it, "compile", "VerificationError")
            self.files.add("%s/%s.so" % (d, name))
            return "%s/%s.so" % (d, name)

        b.f.update(set_source=nat("set_source", set_source), cdef=nat("cdef", cdef), compile=nat("compile", comp))
        return b

    def setup(self):
        def f(it):
            it.over["vmodel.fs._fs"] = nat("fs", self.op)
            it.over["pathlib.Path"] = it.get("vmodel.fs.Path")
            it.over["os.environ"] = self.env
            it.over["sys.platform"] = "linux"
            it.over["sysconfig.get_config_var"] = nat("get_config_var", lambda it, n: self.raw)
            for p in ("ffcx.codegeneration.jit.root_logger", J + "root_logger"):
                it.over[p] = self.root
            for p in ("ffcx.codegeneration.C.file_template.libraries", J + "_libraries"):
                it.over[p] = self.libs
            for n, v in (("HEADER", "#if {0}\n"), ("INTEGRAL", "struct integral;\n"), ("FORM", "struct form;\n")):
                for p in ("ffcx.codegeneration.jit.", J):
                    it.over[p + "UFC_%s_DECL" % n] = v
            it.over["cffi.FFI"] = nat("FFI", lambda it, *a, **k: self.builder())

        self.libs = ["m"]
        return f

    def hooks(self):
        P = lambda x: x if isinstance(x, str) else x.f["p"]

        def shim(it, a, k):
            self.trip(it, "shim")
            self.log.append(("shim",))
            return (it.call(it.get("vmodel.fs.Path"), ["/shim"]), "qshim")

        def cufl(it, a, k):
            self.trip(it, "codegen")
            self.log.append(("codegen", a, k))
            return ("the declarations", "the code", "the integral data")

        def getc(it, a, k):
            self.log.append(("cache", a))
            if not any(x[0] == "shim" for x in self.log):
                self.say("a cached module is loaded before the shim library it is linked to exists")
            objs = ["object of " + n for n in it.iter(a[1])]
            if self.cached:
                return (objs, "the module")
            p = "%s/%s.c.cached" % (P(a[2]), a[0])
            if p in self.files:
                return (objs, "the module")
            if "%s/%s.c" % (P(a[2]), a[0]) in self.files:
                raise it.exc("TimeoutError", "waiting for the compilation of " + a[0])
            self.files.add("%s/%s.c" % (P(a[2]), a[0]))
            return (None, None)

        def load(it, a, k):
            self.log.append(("load", P(a[0]), a[1], a[2]))
            self.trip(it, "load")
            return (["object of " + n for n in it.iter(a[2])], "the module")

        def opts(it, a, k):
            o = a[0] if a else None
            self.opts_seen.append(o)
            d = {"scalar_type": "float64", "sum_factorization": False}
            d.update(o or {})
            return d

        def sig(it, a, k):
            return "SIG(%s)" % (a[1],)

        h = {
            "qugar.dolfinx._shim.ensure_built": shim, J + "_ensure_shim_built": shim,
            "qugar.dolfinx.compiler.compile_ufl_objects": cufl, J + "compile_ufl_objects": cufl,
            "ffcx.codegeneration.jit.get_cached_module": getc, "ffcx.codegeneration.jit._load_objects": load,
            "ffcx.options.get_options": opts, "ffcx.naming.compute_signature": sig,
            "ffcx.naming.form_name": lambda it, a, k: "form_%s_%s_%s" % (a[0].f["__name__"], a[1], a[2]),
            "ffcx.codegeneration.jit._compute_option_signature": lambda it, a, k: "O" + repr(sorted(a[0].items())),
            "ffcx.codegeneration.jit._compilation_signature": lambda it, a, k: "C" + repr((list(a[0]), a[1])),
            "ffcx.codegeneration.get_include_path": lambda it, a, k: "/ffcx/include",
            "tempfile.mkdtemp": lambda it, a, k: "/tmp/unique",
            "numpy.dtype": lambda it, a, k: fake("dtype", name=str(a[0])),
            "os.replace": lambda it, a, k: self.op(it, "replace", P(a[0]), P(a[1])),
            "os.rename": lambda it, a, k: self.op(it, "replace", P(a[0]), P(a[1])),
            "os.remove": lambda it, a, k: self.op(it, "unlink", P(a[0])),
            "os.unlink": lambda it, a, k: self.op(it, "unlink", P(a[0])),
            "os.path.exists": lambda it, a, k: self.op(it, "exists", P(a[0])),
            "os.getenv": lambda it, a, k: self.env.get(*a),
            "os.unsetenv": lambda it, a, k: self.env.pop(a[0], None) and None,
            "open": lambda it, a, k: self.op(it, "open", P(a[0]), a[1] if len(a) > 1 else k.get("mode", "r")),
            "io.open": lambda it, a, k: self.op(it, "open", P(a[0]), a[1] if len(a) > 1 else k.get("mode", "r")),
            "time.time": lambda it, a, k: 1.0,
        }
        return h


def run_C34(ctx):
    it0 = Interp()
    w = wf(it0.get(J + "compile_forms"))
    w2 = wf(it0.get(J + "ffcx_jit"))
    FORM = [fake("a"), fake("b")]

    def scenario(key, env={}, cached=False, cache="/cache", fail=(), raw=RAW, calls=1, extra=None, n=1, opts=None, debug=False):
        box = {}

        def setup(it):
            box["w"] = W = World(env, cached, fail, raw)
            W.setup()(it)

        def go(it):
            W = box["w"]
            out = []
            kw = {}
            args = ["-O3", "-march=native"]
            libs = ["blas"]
            o = dict(opts or {})
            if extra:
                kw = {"cffi_extra_compile_args": args, "cffi_libraries": libs, "cffi_debug": debug, "cffi_verbose": extra == "verbose"}
            for _ in range(calls):
                n0 = len(W.log)
                try:
                    r = it.call(it.get(J + "compile_forms"), [FORM[:n]], dict(kw, options=o, cache_dir=cache))
                except PyRaise as e:
                    r = e
                out.append((r, W.log[n0:], dict(W.env), list(it.iter(W.root.f["handlers"])), set(W.files)))
            return out, args, libs, o

        def spec(it, r, S):
            W = box["w"]
            out, args, libs, o = r
            if W.bad:
                return False, W.bad[0]
            left = list(fail)
            have = cached
            for r, log, env_, hs, files in out:
                f = left.pop(0) if left else "ok"
                if env_ != W.env0:
                    return False, "the environment is changed after the call: LDSHARED = %r, before %r" % (env_.get("LDSHARED"), W.env0.get("LDSHARED"))
                if len(hs) != 2 or hs[0] is not W.h0[0] or hs[1] is not W.h0[1]:
                    return False, "the handlers of the root logger are not restored"
                if f != "ok":
                    if not isinstance(r, PyRaise):
                        return False, "a failure (%s) is ignored" % f
                    mod = [x for x in log if x[0] == "cache"]
                    if cache and mod and f != "load":
                        p = "%s/%s.c" % (cache, mod[0][1][0])
                        if p in files:
                            return False, "after a failure (%s) the file %s is left and the next call waits for it" % (f, p)
                    if any(x[0] == "ready" for x in log) and f != "load":
                        return False, "marked as ready after a failure (%s)" % f
                    continue
                if isinstance(r, PyRaise):
                    return False, "%s" % r
                if not isinstance(r, (tuple, list)) or len(r) != 4:
                    return False, "returns %s" % (r,)
                b = dict(zip(("ufl_objects", "prefix", "options", "namespace", "visualise"), ([x for x in log if x[0] == "codegen"] or [(0, (), {})])[0][1]))
                b.update(([x for x in log if x[0] == "codegen"] or [(0, (), {})])[0][2])
                objs = ["object of form_%s_%d_%s" % (F.f["__name__"], i, b.get("prefix")) for i, F in enumerate(FORM[:n])]
                if list(r[0]) != objs or r[1] != "the module" or tuple(r[2]) != ("the declarations" if have else r[2][0], "the code") or r[3] != "the integral data":
                    return False, "returns %s" % (r,)
                cg = [x for x in log if x[0] == "codegen"]
                if len(cg) != 1:
                    return False, "code generated %d times" % len(cg)
                b = dict(zip(("ufl_objects", "prefix", "options", "namespace", "visualise"), cg[0][1]))
                b.update(cg[0][2])
                if [x for x in it.iter(b["ufl_objects"])] != FORM[:n]:
                    return False, "code generated for other forms"
                name = b["prefix"]
                po = b["options"]
                for k_, v_ in (opts or {}).items():
                    if po.get(k_) != v_:
                        return False, "the option %s is lost" % k_
                names = ["form_%s_%d_%s" % (F.f["__name__"], i, name) for i, F in enumerate(FORM[:n])]
                c = [x for x in log if x[0] == "compile"]
                if have:
                    if c:
                        return False, "a cached module is compiled again"
                    continue
                if len(c) != 1:
                    return False, "compiled %d times" % len(c)
                where = cache or "/tmp/unique"
                _, d, nm, src = c[0]
                if d != where or nm != name:
                    return False, "module %s compiled in %s" % (nm, d)
                if src["code"] != "the code":
                    return False, "other code is compiled"
                li = list(src.get("libraries") or [])
                if "qshim" not in li or "m" not in li or (extra and "blas" not in li):
                    return False, "linked with %s" % li
                if "/shim" not in [str(x if isinstance(x, str) else x.f.get("p")) for x in src.get("library_dirs") or []]:
                    return False, "the directory of the shim library is not searched"
                if not any("rpath" in x and x.endswith("/shim") for x in src.get("extra_link_args") or []):
                    return False, "the module does not know where the shim library is"
                if "/ffcx/include" not in list(src.get("include_dirs") or []):
                    return False, "the headers of FFCx are not found"
                ca = list(src.get("extra_compile_args") or [])
                if extra and [x for x in ca if x in args] != args:
                    return False, "compiled with %s, requested %s" % (ca, args)
                if not any(x.startswith("-std=") for x in ca):
                    return False, "compiled without a language standard"
                l = [x for x in log if x[0] == "load"]
                if len(l) != 1 or l[0][1] != where or l[0][2] != name or list(l[0][3]) != names:
                    return False, "other objects are loaded: %s" % (l,)
                rd = [x for x in log if x[0] == "ready"]
                if [x[1] for x in rd] != ["%s/%s.c.cached" % (where, name)]:
                    return False, "ready files: %s" % (rd,)
                order = [x[0] for x in log if x[0] in ("compile", "ready", "load")]
                if order != ["compile", "ready", "load"]:
                    return False, "order of the steps: %s" % order
                cd = [x for x in log if x[0] == "cdef"]
                if len(cd) != 1 or not isinstance(r[2][0], (str, U)) or cd[0][1] != r[2][0] and not have:
                    return False, "other declarations are compiled than returned"
                dl = [" ".join(x.split()) for x in str(r[2][0]).replace(";", ";\n").split("\n") if x.strip()]
                want = ["#if " + str((opts or {}).get("scalar_type", "float64")), "struct integral;", "struct form;"]
                if dl[:3] != want or sorted(dl[3:]) != sorted("extern ufcx_form %s;" % x for x in names):
                    return False, "declarations %s, specified %s and the forms %s" % (dl, want, names)
                have = bool(cache)
            if extra and (args != ["-O3", "-march=native"] or libs != ["blas"]):
                return False, "the lists of the caller are changed: %s %s" % (args, libs)
            if W.libs != ["m"]:
                return False, "the list of libraries of FFCx is changed: %s" % W.libs
            if o != (opts or {}):
                return False, "the options of the caller are changed: %s" % o
            return True, ""

        return lambda: pydecide(ctx, go, spec, hooks=World(env, cached, fail, raw).hooks() if False else _late(box), setup=setup)

    def _late(box):
        """hooks bound to the world of the current path"""
        h = World({}, False, (), RAW).hooks()
        return {k: (lambda k: lambda it, a, kw: box["w"].hooks()[k](it, a, kw))(k) for k in h}

    ENV = ({}, {"LDSHARED": "cc -shared", "X": "1"})
    for env in ENV:
        e = "LDSHARED set" if env else "LDSHARED not set"
        for raw in (RAW, None):
            q = e + ("" if raw else ", unknown to sysconfig")
            for cache in ("/cache", None):
                c = q + (", cache" if cache else ", no cache")
                ctx.attempt("successful compilations", c, scenario(c, env, cache=cache, raw=raw), w)
                ctx.attempt("successful compilations", c + ", options and libraries", scenario(c, env, cache=cache, raw=raw, extra="quiet", n=2, opts={"scalar_type": "float32", "verbosity": 10}), w)
                ctx.attempt("successful compilations", c + ", verbose", scenario(c, env, cache=cache, raw=raw, extra="verbose", debug=True), w)
                for f in ("shim", "codegen", "compile", "ready", "load"):
                    ctx.attempt("failures", "%s, %s fails" % (c, f), scenario(c, env, cache=cache, raw=raw, fail=(f,)), w)
                    if f != "load":
                        ctx.attempt("failures", "%s, %s fails, then again" % (c, f), scenario(c, env, cache=cache, raw=raw, fail=(f, "ok"), calls=2), w)
            ctx.attempt("cached modules", q, scenario(q, env, cached=True, raw=raw), w)
            ctx.attempt("cached modules", q + ", after a compilation", scenario(q, env, raw=raw, calls=2), w)
            for f in ("shim", "codegen"):
                ctx.attempt("cached modules", "%s, %s fails" % (q, f), scenario(q, env, cached=True, raw=raw, fail=(f,)), w)

    # names of the modules
    def name_of(opts, args, debug):
        box = {}

        def setup(it):
            box["w"] = World({}, True, (), RAW)
            box["w"].setup()(it)

        def go(it):
            it.call(it.get(J + "compile_forms"), [FORM[:1]], {"options": opts, "cache_dir": "/cache", "cffi_extra_compile_args": args, "cffi_debug": debug})
            return [x for x in box["w"].log if x[0] == "cache"][0][1][0]

        return go, setup, box

    NAMES = {}
    cfgs = [({}, [], False), ({"scalar_type": "float32"}, [], False), ({}, ["-O3"], False), ({}, [], True)]
    for i, cf in enumerate(cfgs):
        go, setup, box = name_of(*cf)

        def spec(it, r, S, i=i, cf=cf):
            if not isinstance(r, str):
                return None, "name %s" % (r,)
            NAMES[i] = r
            d = {"scalar_type": "float64", "sum_factorization": False}
            d.update(cf[0])
            plain = "O" + repr(sorted(d.items())) + "C" + repr((cf[1], cf[2]))
            if r.endswith("SIG(%s)" % plain) and r.startswith("libffcx_forms_"):
                return False, "the module has the name that FFCx gives to the standard form: %s" % r
            if [k for k in NAMES if k != i and NAMES[k] == r]:
                return False, "modules compiled differently share the name %s" % r
            return True, ""

        ctx.attempt("names of the modules", "options %s, flags %s, debug %s" % cf, lambda: pydecide(ctx, go, spec, hooks=_late(box), setup=setup), w)

    # entry point
    for bad in (False, True):
        box = {}

        def setup(it, box=box):
            box["w"] = World({}, False, (), RAW)
            box["w"].setup()(it)
            it.over["ufl.Form"] = it.get("vmodel.fs.Path")

        def go(it, bad=bad):
            F = it.call(it.get("vmodel.fs.Path"), ["/form"]) if not bad else fake("expression")
            if not bad:
                F.f["__name__"] = "a"
            f = it.get(J + "ffcx_jit")
            return it.call(f.f if hasattr(f, "f") and not isinstance(f, Obj) else f, [F], {"form_compiler_options": {"scalar_type": "float32"}, "jit_options": {"timeout": 7}}), F

        def spec(it, r, S, bad=bad, box=box):
            if bad:
                return False, "objects that are not forms are accepted"
            r, F = r
            if not isinstance(r, (tuple, list)) or len(r) != 4:
                return False, "returns %s" % (r,)
            if r[0] != "the integral data" or not str(r[1]).startswith("object of form_a_0_") or r[2] != "the module" or r[3][1] != "the code":
                return False, "returns %s" % (r,)
            cg = [x for x in box["w"].log if x[0] == "codegen"]
            fs = list(it.iter(cg[0][2].get("ufl_objects", cg[0][1][0] if cg[0][1] else None)))
            if len(fs) != 1 or fs[0] is not F:
                return False, "other forms are compiled"
            b = dict(zip(("ufl_objects", "prefix", "options"), cg[0][1]))
            b.update(cg[0][2])
            if b["options"].get("scalar_type") != "float32":
                return False, "the options of the form compiler are lost"
            c = [x for x in box["w"].log if x[0] == "cache"]
            if not c or list(c[0][1])[3] != 7 or (c[0][1][2] if isinstance(c[0][1][2], str) else c[0][1][2].f["p"]) != "/jit/cache":
                return False, "the options of the compilation are lost"
            return True, ""

        h = _late(box)
        h["dolfinx.jit.get_options"] = lambda it, a, k: dict({"cache_dir": "/jit/cache", "timeout": 10}, **(a[0] or {}))
        ctx.attempt("entry point", "expression" if bad else "form", lambda: pydecide(ctx, go, spec, hooks=h, setup=setup, throw=lambda it, e, S: (bad and "ValueError" in str(e), str(e))), w2)


# --------------------------------------------------------------------------- C35
PT = "qugar.dolfinx.petsc."
FP = "dolfinx.fem.petsc."


class Algebra:
    """matrix, vector and solver of PETSc and the assembly routines of DOLFINx; forms and coefficients by identity"""

    def __init__(self, nforms=2):
        self.version, self.bad, self.forms, self.specs, self.log = 0, [], {}, [], []
        self.fail = None

    def say(self, m):
        if m not in self.bad:
            self.bad.append(m)

    def form(self, it, ufl_, k):
        o = Obj(it.get("qugar.dolfinx.forms.CustomForm"))
        o.f["ufl"] = ufl_
        o.f["pack_coefficients"] = nat("pack", lambda it: self.pack(o))
        o.f["update_coefficients"] = nat("update", lambda it, old: self.update(o, old))
        self.forms[id(o)] = o
        return o

    def pack(self, o):
        return fake("coefficients", of=o, version=self.version, base=id(o))

    def update(self, o, old):
        if not isinstance(old, Obj) or old.f.get("of") is not o:
            self.say("the coefficients of a form are updated with those of another form (or list)")
            return self.pack(o)
        # the update is in place: what was passed earlier changes, too
        old.f["version"] = self.version
        return old

    def current(self, what, form, c):
        if not isinstance(c, Obj) or c.f.get("of") is not form:
            self.say("%s is assembled with the coefficients of another form (or none)" % what)
        elif c.f["version"] != self.version:
            self.say("%s is assembled with coefficients of a previous state" % what)

    def matrix(self, form):
        m = fake("matrix", form=form, st="garbage")

        def zero(it):
            m.f["st"] = "zero"

        def assemble(it, *a):
            if m.f["st"] != "assembled":
                self.say("the matrix is finalised in state " + m.f["st"])
            m.f["st"] = "final"

        m.f.update(zeroEntries=nat("z", zero), assemble=nat("as", assemble), setOptionsPrefix=nat("sop", lambda it, p: m.f.update(prefix=p)), setFromOptions=nat("sfo", lambda it: None), destroy=nat("d", lambda it: None))
        return m

    def vector(self, form):
        v = fake("vector", form=form, st="garbage")
        loc = fake("local vector")

        def setv(it, x):
            if x != 0:
                self.say("the vector is set to %s" % x)
            v.f["st"] = "zero"

        loc.f["set"] = nat("set", setv)

        def ghost(it, *a, **k):
            t = dict(zip(("addv", "mode"), a), **k)
            s = "%s %s" % (getattr(t.get("addv"), "path", t.get("addv")), getattr(t.get("mode"), "path", t.get("mode")))
            if "ADD" not in s or "REVERSE" not in s:
                self.say("ghost values are not accumulated: " + s)
            if v.f["st"] not in ("lifted", "assembled"):
                self.say("ghost values are accumulated in state " + v.f["st"])
            v.f["st"] = "accumulated" if v.f["st"] == "lifted" else "accumulated before lifting"

        v.f.update(localForm=nat("lf", lambda it: loc), ghostUpdate=nat("gu", ghost), array_w=fake("array", vec=v), array=fake("array", vec=v), set=nat("set", setv),
                   setOptionsPrefix=nat("sop", lambda it, p: None), setFromOptions=nat("sfo", lambda it: None), destroy=nat("d", lambda it: None), zeroEntries=nat("z", lambda it: setv(it, 0)))
        return v

    def bc(self, nm):
        b = fake(nm)

        def s(it, arr_, *a, **k):
            v = arr_.f.get("vec") if isinstance(arr_, Obj) else None
            self.setbc(v, [b], a, k)

        b.f["set"] = nat("set", s)
        return b

    def setbc(self, v, bcs, a=(), k={}):
        if v is None:
            self.say("boundary conditions are set in something else")
            return
        if v.f["st"] not in ("accumulated", "constrained"):
            self.say("boundary conditions are set in state " + v.f["st"])
        v.f["st"] = "constrained"
        v.f.setdefault("bcs", []).extend(bcs)
        v.f["bcargs"] = (tuple(a), dict(k))

    def hooks(self):
        def form_custom(it, a, k):
            b = dict(zip(("form", "dtype", "form_compiler_options", "jit_options", "entity_maps"), a), **k)
            self.specs.append(b)
            if self.fail == len(self.specs):
                raise it.exc("RuntimeError", "compilation")
            f = b["form"]
            if isinstance(f, (list, tuple)):
                return [self.form(it, x, b) for x in f]
            return self.form(it, f, b)

        def am(it, a, k):
            b = dict(zip(("A", "a", "bcs"), a), **k)
            A = b["A"]
            if A.f.get("form") is not None and b["a"] is not A.f["form"]:
                self.say("the matrix is assembled from another form")
            if A.f["st"] != "zero":
                self.say("the matrix is assembled onto state " + A.f["st"])
            A.f["st"], A.f["bcs"] = "assembled", list(it.iter(b.get("bcs") or []))
            self.current("the matrix", b["a"], b.get("coeffs"))
            return A

        def av(it, a, k):
            b = dict(zip(("b", "L"), a), **k)
            v = b["b"]
            if v.f.get("form") is not None and b["L"] is not v.f["form"]:
                self.say("the vector is assembled from another form")
            if v.f["st"] != "zero":
                self.say("the vector is assembled onto state " + v.f["st"])
            v.f["st"] = "assembled"
            self.current("the vector", b["L"], b.get("coeffs"))
            return v

        def lift(it, a, k):
            b = dict(zip(("b", "a", "bcs", "x0", "alpha", "constants", "coeffs"), a), **k)
            v = b["b"]
            if v.f["st"] != "assembled":
                self.say("lifting in state " + v.f["st"])
            v.f["st"] = "lifted"
            fs, bs, cs = list(it.iter(b["a"])), list(it.iter(b["bcs"])), list(it.iter(b.get("coeffs") or []))
            if len(fs) != 1 or len(bs) != 1 or len(cs) != 1:
                self.say("lifting with %d forms, %d lists of conditions and %d sets of coefficients" % (len(fs), len(bs), len(cs)))
                return
            self.current("the lifting", fs[0], cs[0])
            v.f["lift"] = (fs[0], list(it.iter(bs[0])), b.get("x0"), b.get("alpha", 1.0))

        def setbc(it, a, k):
            b = dict(zip(("b", "bcs", "x0", "alpha"), a), **k)
            self.setbc(b["b"], list(it.iter(b["bcs"])), (), {"x0": b.get("x0"), "alpha": b.get("alpha", 1.0)})

        def espaces(it, a, k):
            return fake("spaces", form=a[0])

        def cvec(it, a, k):
            if not isinstance(a[0], Obj) or "form" not in a[0].f:
                self.say("the vector is created for something else")
                return self.vector(None)
            return self.vector(a[0].f["form"])

        h = {}
        for n, f in (("create_matrix", lambda it, a, k: self.matrix(a[0])), ("create_vector", cvec), ("assemble_matrix", am), ("assemble_vector", av), ("apply_lifting", lift), ("set_bc", setbc)):
            h[FP + n] = f
        h["qugar.dolfinx.forms.form_custom"] = form_custom
        h["dolfinx.fem.extract_function_spaces"] = espaces
        h["dolfinx.la.petsc.create_vector_wrap"] = lambda it, a, k: fake("wrapped", of=a[0])
        return h


def run_C35(ctx):
    it0 = Interp()
    wl, wn = wf(it0.get(PT + "LinearProblem")), wf(it0.get(PT + "NonlinearProblem"))
    wu, wp = wf(it0.get(PT + "_update_coefficients")), wf(it0.get(PT + "_pack_coefficients"))

    def late(box):
        h = Algebra().hooks()
        return {k: (lambda k: lambda it, a, kw: box["w"].hooks()[k](it, a, kw))(k) for k in h}

    def world(box, fail=None):
        def setup(it):
            box["w"] = Algebra()
            box["w"].fail = fail
            ks = fake("KSP type")
            W = box["w"]

            def create(it, *a):
                s = fake("solver")

                def ops(it, A, *r):
                    s.f["A"] = A

                def solve(it, b, x):
                    A = s.f.get("A")
                    if A is None or A.f["st"] != "final":
                        W.say("solved with a matrix in state %s" % (A.f["st"] if A is not None else "missing"))
                    if b.f["st"] not in ("constrained",) and not (b.f["st"] == "accumulated" and not W.bcs):
                        W.say("solved with a right-hand side in state " + b.f["st"])
                    W.log.append(("solve", b, x))
                    x.f["of"].f["solved"] = W.version

                s.f.update(setOperators=nat("so", ops), solve=nat("solve", solve), setOptionsPrefix=nat("p", lambda it, p: s.f.update(prefix=p)), setFromOptions=nat("sfo", lambda it: W.log.append(("options", dict(W.opts)))), destroy=nat("d", lambda it: None), setErrorIfNotConverged=nat("e", lambda it, *a: None))
                return s

            it.over["petsc4py.PETSc.KSP"] = nat("KSP", lambda it: fake("ksp", create=nat("create", create)))
            W.opts = {}
            W.prefix = []

            class _D(dict):
                pass

            def pop(it):
                if not W.prefix:
                    raise it.exc("RuntimeError", "no prefix to pop")
                W.prefix.pop()

            o = fake("options")
            o.f.update(prefixPush=nat("push", lambda it, p: W.prefix.append(p)), prefixPop=nat("pop", pop), __setitem__=nat("set", lambda it, k, v: W.opts.__setitem__((tuple(W.prefix), k), v)), setValue=nat("set", lambda it, k, v: W.opts.__setitem__((tuple(W.prefix), k), v)))
            it.over["petsc4py.PETSc.Options"] = nat("Options", lambda it, *a: o)
            it.over["petsc4py.PETSc.ScalarType"] = "the scalar type"
            it.over["dolfinx.has_petsc4py"] = True

        return setup

    def func(W, nm):
        x = fake(nm + ".x")
        u = fake(nm, x=x, function_space=fake("space", mesh=fake("mesh", comm="the comm")))

        def sc(it):
            W.log.append(("scatter", u, x.f.get("solved")))

        x.f["scatter_forward"] = nat("sf", sc)
        return u

    for nbc in (0, 1, 2):
        for given in (True, False):
            for po in (None, {"ksp_type": "cg", "pc_type": "lu"}):
                for calls in (1, 3):
                    box = {}

                    def go(it, nbc=nbc, given=given, po=po, calls=calls, box=box):
                        W = box["w"]
                        V = fake("trial space")
                        a = fake("a", arguments=nat("args", lambda it: [fake("v", ufl_function_space=nat("fs", lambda it: "test space")), fake("u", ufl_function_space=nat("fs", lambda it: V))]))
                        L = fake("L", arguments=nat("args", lambda it: [fake("v", ufl_function_space=nat("fs", lambda it: "test space"))]))
                        u = func(W, "u") if given else None
                        made = []

                        def mkf(it, sp, *r, **k):
                            f = func(W, "new u")
                            f.f["made on"] = sp
                            made.append(f)
                            return f

                        it.over["dolfinx.fem.function.Function"] = nat("Function", mkf)
                        W.bcs = bcs = [W.bc("bc%d" % i) for i in range(nbc)]
                        p = it.call(it.get(PT + "LinearProblem"), [a, L], dict({"bcs": bcs, "petsc_options": po, "form_compiler_options": {"fo": 1}, "jit_options": {"jo": 2}}, **({"u": u} if given else {})))
                        res = []
                        for n in range(calls):
                            W.version += 1
                            n0 = len(W.log)
                            r = meth(it, p, "solve")
                            b = p.f["_b"]
                            res.append((r, W.log[n0:], list(b.f.pop("bcs", [])), b.f.get("lift"), p.f["_A"].f.get("bcs"), W.version))
                        return p, res, a, L, u, made, V

                    def spec(it, r, S, given=given, po=po, box=box):
                        W = box["w"]
                        p, res, a, L, u, made, V = r
                        if W.bad:
                            return False, W.bad[0]
                        if [s["form"] for s in W.specs] != [a, L] and [s["form"] for s in W.specs] != [L, a]:
                            return False, "other forms are compiled"
                        for s in W.specs:
                            if s.get("dtype") != "the scalar type" or s.get("form_compiler_options") != {"fo": 1} or s.get("jit_options") != {"jo": 2}:
                                return False, "the options do not reach the compilation of the forms: %s" % s
                        if not given:
                            if len(made) != 1 or made[0].f["made on"] is not V:
                                return False, "the solution is not made on the trial space"
                            u = made[0]
                        elif made:
                            return False, "another solution is made"
                        if W.prefix:
                            return False, "the prefix of the options is left pushed"
                        s = p.f["_solver"]
                        want = {((s.f.get("prefix"),), k): v for k, v in (po or {}).items()}
                        if W.opts != want:
                            return False, "options %s, specified %s" % (W.opts, want)
                        if want and [x[1] for x in W.log if x[0] == "options"][-1:] != [want]:
                            return False, "the solver does not take the options given"
                        for rr, log, bcs, lift, abcs, ver in res:
                            if rr is not u:
                                return False, "another function is returned"
                            sv = [i for i, x in enumerate(log) if x[0] == "solve"]
                            if len(sv) != 1 or log[sv[0]][2].f["of"] is not u.f["x"]:
                                return False, "solved %d times (or for another vector)" % len(sv)
                            sc = [i for i, x in enumerate(log) if x[0] == "scatter" and x[1] is u]
                            if not sc or sc[-1] < sv[0]:
                                return False, "ghost values of the solution are not updated after solving"
                            if bcs != W.bcs:
                                return False, "%d boundary conditions set, %d given" % (len(bcs), len(W.bcs))
                            if lift is None or lift[1] != W.bcs or lift[0] is not p.f["_a"] or lift[3] != 1.0 or lift[2]:
                                return False, "lifting with other conditions, form or scale"
                            if abcs != W.bcs:
                                return False, "the matrix is assembled with other boundary conditions"
                        return True, ""

                    ctx.attempt("linear problems", "%d conditions, solution %s, options %s, solved %d times" % (nbc, "given" if given else "not given", po, calls), lambda: pydecide(ctx, go, spec, hooks=late(box), setup=world(box)), wl)

    # a failed construction can be collected
    for fail in (1, 2):
        box = {}

        def go(it, box=box):
            W = box["w"]
            a = fake("a", arguments=nat("args", lambda it: [fake("u", ufl_function_space=nat("fs", lambda it: "V"))]))
            p = Obj(it.get(PT + "LinearProblem"))
            try:
                it.call(it.getattr_(p, "__init__"), [a, fake("L")])
            except PyRaise:
                return p
            return None

        def spec(it, p, S):
            if p is None:
                return False, "a failure of the compilation is ignored"
            for n in ("_solver", "_A", "_b", "_x", "_P_mat"):
                if n not in p.f:
                    return False, "the attribute %s that the destructor of DOLFINx reads is missing" % n
            return True, ""

        ctx.attempt("failed constructions", "form %d" % fail, lambda: pydecide(ctx, go, spec, hooks=late(box), setup=world(box, fail)), wl)

    # nonlinear problems: any sequence of residuals and Jacobians
    seqs = [s for n in (1, 2, 3, 4) for s in itertools.product("FJ", repeat=n)]
    for nbc in (0, 2):
        for giveJ in (True, False):
            for seq in seqs:
                if len(seq) > 3 and (nbc == 0 or giveJ) and ctx.tier != "thorough":
                    continue
                box = {}

                def go(it, nbc=nbc, giveJ=giveJ, seq=seq, box=box):
                    W = box["w"]
                    W.bcs = bcs = [W.bc("bc%d" % i) for i in range(nbc)]
                    F, Jf, u = fake("F"), fake("J"), func(W, "u")
                    tr, dd = [], []

                    def trial(it, V, *a, **k):
                        tr.append(V)
                        return ("trial", len(tr))

                    def der(it, *a, **k):
                        dd.append(a)
                        return Jf

                    it.over["ufl.TrialFunction"], it.over["ufl.derivative"] = nat("TrialFunction", trial), nat("derivative", der)
                    p = it.call(it.get(PT + "NonlinearProblem"), [F, u], dict({"bcs": bcs, "form_compiler_options": {"fo": 1}, "jit_options": {"jo": 2}}, **({"J": Jf} if giveJ else {})))
                    out = []
                    b, A, x = W.vector(None), W.matrix(None), fake("x")
                    for c in seq:
                        W.version += 1
                        if c == "F":
                            b.f.pop("bcs", None)
                            b.f.pop("lift", None)
                            meth(it, p, "F", x, b)
                            out.append((b.f["st"], list(b.f.get("bcs", [])), b.f.get("lift"), b.f.get("bcargs")))
                        else:
                            meth(it, p, "J", x, A)
                            out.append((A.f["st"], A.f.get("bcs")))
                    return p, out, F, Jf, u, x, tr, dd

                def spec(it, r, S, giveJ=giveJ, seq=seq, box=box):
                    W = box["w"]
                    p, out, F, Jf, u, x, tr, dd = r
                    if W.bad:
                        return False, W.bad[0]
                    if sorted(id(s["form"]) for s in W.specs) != sorted((id(F), id(Jf))):
                        return False, "other forms are compiled"
                    for s in W.specs:
                        if s.get("dtype") != "the scalar type" or s.get("form_compiler_options") != {"fo": 1} or s.get("jit_options") != {"jo": 2}:
                            return False, "the options do not reach the compilation of the forms"
                    if not giveJ and (len(dd) != 1 or dd[0][0] is not F or dd[0][1] is not u or (len(dd[0]) > 2 and (dd[0][2] != ("trial", 1) or tr[0] is not u.f["function_space"]))):
                        return False, "the Jacobian is not the derivative of the residual"
                    if giveJ and dd:
                        return False, "the given Jacobian is ignored"
                    for c, o in zip(seq, out):
                        if c == "J":
                            if o[0] != "final" or o[1] != W.bcs:
                                return False, "the Jacobian is left in state %s, with %d conditions" % (o[0], len(o[1] or []))
                            continue
                        st, bcs, lift, ba = o
                        if st not in (("constrained", "accumulated") if not W.bcs else ("constrained",)):
                            return False, "the residual is left in state " + st
                        if bcs != W.bcs:
                            return False, "other boundary conditions are set"
                        if lift is None or lift[1] != W.bcs or lift[3] != -1.0:
                            return False, "lifting with scale %s" % (lift and lift[3],)
                        x0 = lift[2]
                        if not isinstance(x0, (list, tuple)) or len(x0) != 1 or x0[0] is not x:
                            return False, "lifting around something else than the current solution"
                        if W.bcs and (ba[1].get("x0") is not x or ba[1].get("alpha") != -1.0):
                            return False, "boundary conditions set with %s" % (ba,)
                    return True, ""

                ctx.attempt("nonlinear problems", "%d conditions, Jacobian %s, %s" % (nbc, "given" if giveJ else "derived", "".join(seq)), lambda: pydecide(ctx, go, spec, hooks=late(box), setup=world(box)), wn)

    # nested lists of forms
    def tree(t, f):
        return [tree(x, f) for x in t] if isinstance(t, list) else f(t)

    for t in ("a", ["a"], ["a", "b"], [["a", "b"], ["c", "d"]], [["a", "b", "c"]], ["a", ["b", "c"]]):
        box = {}

        def go(it, t=t, box=box):
            W = box["w"]
            fs = tree(t, lambda n: W.form(it, n, None))
            W.version = 1
            c = it.call(it.get(PT + "_pack_coefficients"), [fs])
            c0 = tree(c, lambda x: x) if isinstance(c, list) else c
            W.version = 2
            n = it.call(it.get(PT + "_update_coefficients"), [fs, c])
            return fs, c0, n

        def spec(it, r, S, t=t, box=box):
            if box["w"].bad:
                return False, box["w"].bad[0]

            def cmp(f, c, v):
                if isinstance(f, list):
                    if not isinstance(c, list) or len(c) != len(f):
                        return "coefficients %s for %d forms" % (type(c).__name__, len(f))
                    for a, b in zip(f, c):
                        m = cmp(a, b, v)
                        if m:
                            return m
                    return ""
                if not isinstance(c, Obj) or c.f.get("of") is not f:
                    return "coefficients of another form"
                return "" if c.f["version"] == v else "coefficients of a previous state"

            fs, c, n = r
            m = cmp(fs, n, 2)
            return (False, m) if m else (True, "")

        ctx.attempt("lists of forms", "%s" % (t,), lambda: pydecide(ctx, go, spec, hooks=late(box), setup=world(box)), wu)

    # functionals
    PA = "qugar.dolfinx._dolfinx_patches."
    wa = wf(it0.get(PA + "apply_patches"))
    for ver in ("0.10.0", "0.10.0.post5", "0.10.1", "0.11.0", "0.9.0"):
        for co, kc in itertools.product((None, "given"), repeat=2):
            box = {}

            def setup(it, ver=ver, box=box):
                box["log"] = log = []
                orig_f = it.get("vmodel.fs._fs")
                am = fake("module assemble", assemble_scalar=orig_f, pack_constants=nat("pc", lambda it, M: ("constants of", M)), pack_coefficients=nat("pk", lambda it, M: ("coefficients of", M)))
                cppm = fake("cpp fem", assemble_scalar=nat("cpp", lambda it, M, c, k: log.append((M, c, k)) or "the value"))
                fem = fake("fem", assemble=am, assemble_scalar=orig_f)
                d = fake("dolfinx", __version__=ver, fem=fem, cpp=fake("cpp", fem=cppm))
                box.update(am=am, fem=fem, orig=orig_f)
                for n, o in (("dolfinx", d), ("dolfinx.fem", fem), ("dolfinx.fem.assemble", am), ("dolfinx.cpp", d.f["cpp"]), ("dolfinx.cpp.fem", cppm), ("dolfinx.__version__", ver)):
                    it.over[n] = o

            def go(it, ver=ver, co=co, kc=kc, box=box):
                it.call(it.get(PA + "apply_patches"), [])
                f1 = box["am"].f["assemble_scalar"]
                it.call(it.get(PA + "apply_patches"), [])
                M = fake("M", _cpp_object="the form")
                f, g = box["am"].f["assemble_scalar"], box["fem"].f["assemble_scalar"]
                k = {}
                if co:
                    k["constants"] = {"co": 1}
                if kc:
                    k["coeffs"] = {"kc": 2}
                if f is box["orig"]:
                    return "unpatched", f1, f, g, M, None
                return "patched", f1, f, g, M, it.call(f, [M], k)

            def spec(it, r, S, ver=ver, co=co, kc=kc, box=box):
                st, f1, f, g, M, v = r
                if f1 is not f:
                    return False, "patched twice"
                if f is not g:
                    return False, "dolfinx.fem and dolfinx.fem.assemble have different routines"
                if not ver.startswith("0.10."):
                    return (st == "unpatched"), "DOLFINx %s is patched" % ver
                if st != "patched":
                    return False, "DOLFINx %s is not patched" % ver
                if v != "the value" or len(box["log"]) != 1:
                    return False, "returns %s" % (v,)
                M_, c, k = box["log"][0]
                if M_ != "the form":
                    return False, "another form is assembled"
                if c != ({"co": 1} if co else ("constants of", M)):
                    return False, "assembled with constants %s" % (c,)
                if k != ({"kc": 2} if kc else ("coefficients of", M)):
                    return False, "assembled with coefficients %s" % (k,)
                return True, ""

            ctx.attempt("functionals", "DOLFINx %s, constants %s, coefficients %s" % (ver, co, kc), lambda: pydecide(ctx, go, spec, setup=setup), wa)


# --------------------------------------------------------------------------- C36
def run_C36(ctx):
    it0 = Interp()
    U_ = "qugar.utils."
    w = wf(it0.get(U_ + "check_version_in_range"))
    V = list(itertools.product((0, 1, 2, 10), repeat=3))

    def call(fn, *a):
        return lambda it: it.call(it.get(U_ + fn), list(a))

    def ask(rule, key, fn, args, want, w):
        def spec(it, r, S):
            r = bool(it.truth(r))
            return r == want, "%s(%s) is %s, specified %s" % (fn, ", ".join(args), r, want)

        ctx.attempt(rule, key, lambda: pydecide(ctx, call(fn, *args), spec), w)

    s = lambda v: ".".join(str(x) for x in v)
    # every pair around every bound of the package
    bounds = [("0.10.0", "0.11.0"), ("2025.2.0", "2025.3.0"), ("1.9.3", "2.0.1"), ("0.0.0", "10.0.0")]
    for lo, hi in bounds:
        l, h = [tuple(int(x) for x in b.split(".")) for b in (lo, hi)]
        cand = set()
        for b in (l, h):
            for d in itertools.product((-1, 0, 1, 9), repeat=3):
                v = tuple(x + y for x, y in zip(b, d))
                if min(v) >= 0:
                    cand.add(v)
        cand |= set(V)
        for v in sorted(cand):
            ask("versions in the range", "%s in [%s, %s)" % (s(v), lo, hi), "check_version_in_range", (s(v), lo, hi), l <= v < h, w)
    for suf in (".post0", ".post5", ".dev0", "rc1", "b2", "+g12ab", ".post1.dev2"):
        for lo, hi in bounds:
            l, h = [tuple(int(x) for x in b.split(".")) for b in (lo, hi)]
            # pre-releases of the bounds themselves are left open
            for v in ((l,) if suf.startswith((".post", "+")) else ()) + ((l[0], l[1], l[2] + 3), (h[0], h[1] + 1, 0)):
                ask("versions with suffixes", "%s%s in [%s, %s)" % (s(v), suf, lo, hi), "check_version_in_range", (s(v) + suf, lo, hi), l <= v < h, w)

    # the packages that are looked at
    for fn, mod, key in (("check_DOLFINx", "dolfinx.cpp", "DOLFINX"), ("check_Basix", "basix", "BASIX"), ("check_FFCx", "ffcx", "FFCX"), ("check_UFL", "ufl", "UFL")):
        wc = wf(it0.get(U_ + fn))
        lo, hi = it0.get(U_ + key + "_VERSION_MIN"), it0.get(U_ + key + "_VERSION_MAX")
        l, h = [tuple(int(x) for x in b.split(".")) for b in (lo, hi)]
        ctx.attempt("packages", fn + " bounds", lambda: (l < h, "the range %s to %s is empty" % (lo, hi)), wc)
        for v in (l, h, (l[0], l[1], l[2] + 7), (l[0] - 1, 99, 99) if l[0] else (0, l[1] - 1, 99), (h[0], h[1], h[2] + 1), None):
            def setup(it, mod=mod, v=v):
                it.over[mod + ".__version__"] = s(v) if v else PyRaise(ExcVal("ImportError", (mod,)))
                if v is None:
                    it.over[mod] = PyRaise(ExcVal("ImportError", (mod,)))
                    del it.over[mod + ".__version__"]

            def spec(it, r, S, v=v):
                r = bool(it.truth(r))
                want = v is not None and l <= v < h
                return r == want, "%s() is %s, specified %s" % (fn, r, want)

            ctx.attempt("packages", "%s with %s" % (fn, s(v) if v else "nothing installed"), lambda: pydecide(ctx, call(fn), spec, setup=setup), wc)
