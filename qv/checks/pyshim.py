"""C31: the shim library is published whole, current and once."""
import itertools
from ..pysym import *

SH = "qugar.dolfinx._shim."
PID = 424242
UNIQ = ("424242", "tmp_unique")


class FS:
    """abstract file system shared with other processes"""

    def __init__(self, files, lib, src, others=None, compile=("ok",)):
        self.files = {k: dict(v) for k, v in files.items()}
        self.lib, self.src, self.others, self.compile = lib, src, others, list(compile)
        self.now, self.held, self.bad, self.builds, self.fds = 100, set(), [], 0, {}
        self.uses = []

    def say(self, m):
        if m not in self.bad:
            self.bad.append(m)

    def fresh(self):
        f = self.files.get(self.lib)
        return bool(f and f["c"] == "complete" and f["m"] >= max(self.files[s]["m"] for s in self.src))

    def write(self, it, p, content):
        """contents appear little by little"""
        if p == self.lib:
            self.say("the library is written in place: other processes may find it while it is incomplete")
        locks = [l for l in self.held if not any(u in l for u in UNIQ)]
        if not locks and not any(u in p for u in UNIQ):
            self.say("%s may be written by several processes at the same time" % p)
        self.now += 1
        self.files[p] = {"c": content, "m": self.now}

    def replace(self, it, a, b):
        if a not in self.files:
            raise it.exc("FileNotFoundError", a)
        if b == self.lib and self.files[a]["c"] != "complete":
            self.say("an incomplete library is published")
        self.files[b] = self.files.pop(a)

    def op(self, it, op, *a):
        if op == "exists":
            return a[0] in self.files or a[0] in ("/cache", "/home/user/.cache/qugar/shim") or a[0].startswith("/usr/bin")
        if op == "stat":
            if a[0] not in self.files:
                raise it.exc("FileNotFoundError", a[0])
            f = self.files[a[0]]
            return fake("stat", st_mtime=float(f["m"]), st_mtime_ns=f["m"] * 10**9, st_size=4096)
        if op == "mkdir":
            return None
        if op == "unlink":
            if a[0] not in self.files:
                if len(a) > 1 and it.truth(a[1]):
                    return None
                raise it.exc("FileNotFoundError", a[0])
            if a[0] == self.lib and self.fresh():
                self.say("the published library is removed")
            del self.files[a[0]]
            return None
        if op == "replace":
            return self.replace(it, *a)
        if op == "mkdtemp":
            return a[0].rstrip("/") + "/tmp_unique"
        if op == "rmtree":
            if self.lib.startswith(a[0] + "/"):
                self.say("the published library is removed")
            for k in [k for k in self.files if k.startswith(a[0] + "/")]:
                del self.files[k]
            return None
        if op in ("open", "touch", "write"):
            p, mode = a[0], (a[1] if len(a) > 1 else "w")
            if op == "open" and "r" in mode and p not in self.files:
                raise it.exc("FileNotFoundError", p)
            if "r" not in mode or op != "open":
                if p == self.lib:
                    self.write(it, p, "partial")
                else:
                    self.now += 1
                    self.files[p] = {"c": "text", "m": self.now}
            o = fake("file")
            o.f.update(fileno=nat("fileno", lambda it: ("fd", p)), write=nat("write", lambda it, t: None), close=nat("close", lambda it: self.held.discard(p)), flush=nat("flush", lambda it: None))
            return o
        raise Undecided("file system operation " + op)

    def run(self, it, a, k):
        cmd = a[0] if a else k.get("args")
        if not isinstance(cmd, list) or not all(isinstance(x, (str, Obj)) for x in cmd):
            raise Undecided("command")
        cmd = [x if isinstance(x, str) else x.f["p"] for x in cmd]
        self.cmd = cmd
        if "-o" not in cmd:
            raise Undecided("command without output")
        out = cmd[cmd.index("-o") + 1]
        how = self.compile.pop(0) if self.compile else "ok"
        self.builds += 1
        if how != "ok":
            self.write(it, out, "partial")
            if how == "killed":
                raise it.exc("KeyboardInterrupt")
            if k.get("check") is True:
                raise it.exc("CalledProcessError", "compiler")
            return fake("result", returncode=1, stdout="", stderr="")
        self.write(it, out, "complete" if self.src[0] in cmd and "-shared" in cmd else "partial")
        return fake("result", returncode=0, stdout="", stderr="")

    def flock(self, it, a, k):
        fd, op = a
        p = fd[1] if isinstance(fd, tuple) else fd.f["fileno"].fn(it, [], {})[1]
        path = getattr(op, "path", str(op))
        if "LOCK_UN" in path:
            self.held.discard(p)
            return None
        if "LOCK_EX" not in path or "BitOr" in path:
            if "LOCK_SH" in path:
                return None
            raise Undecided("lock operation " + path)
        self.held.add(p)
        if self.others:
            self.others(self)
        return None

    def setup(self, env, platform="linux", fcntl=True):
        def f(it):
            it.over["vmodel.fs._fs"] = nat("fs", self.op)
            it.over["sys.platform"], it.over["sys.prefix"] = platform, "/PREFIX"
            it.over["os.environ"] = dict(env)
            it.over["os.getpid"] = nat("getpid", lambda it: PID)
            it.over["pathlib.Path"] = it.get("vmodel.fs.Path")
            it.over["tempfile.TemporaryDirectory"] = it.get("vmodel.fs.TemporaryDirectory")
            if not fcntl:
                it.over["fcntl"] = PyRaise(ExcVal("ImportError", ("fcntl",)))

        return f

    def hooks(self):
        P = lambda x: x if isinstance(x, str) else x.f["p"]

        def copy(it, a, k):
            d = P(a[1])
            if d == self.lib:
                self.say("the library is copied in place: other processes may find it while it is incomplete")
            self.files[d] = dict(self.files[P(a[0])])
            return d

        def move(it, a, k):
            s, d = P(a[0]), P(a[1])
            if s.rsplit("/", 1)[0] != d.rsplit("/", 1)[0] and s.startswith("/tmp/"):
                return copy(it, a, k)
            return self.replace(it, s, d)

        h = {
            "subprocess.run": self.run,
            "subprocess.check_call": lambda it, a, k: self.run(it, a, {**k, "check": True}),
            "subprocess.check_output": lambda it, a, k: self.run(it, a, {**k, "check": True}),
            "fcntl.flock": self.flock,
            "fcntl.lockf": self.flock,
            "os.replace": lambda it, a, k: self.replace(it, P(a[0]), P(a[1])),
            "os.rename": lambda it, a, k: self.replace(it, P(a[0]), P(a[1])),
            "os.remove": lambda it, a, k: self.op(it, "unlink", P(a[0])),
            "os.unlink": lambda it, a, k: self.op(it, "unlink", P(a[0])),
            "os.path.exists": lambda it, a, k: self.op(it, "exists", P(a[0])),
            "os.path.getmtime": lambda it, a, k: self.op(it, "stat", P(a[0])).f["st_mtime"],
            "os.fspath": lambda it, a, k: P(a[0]),
            "open": lambda it, a, k: self.op(it, "open", P(a[0]), a[1] if len(a) > 1 else k.get("mode", "r")),
            "tempfile.mkdtemp": lambda it, a, k: self.op(it, "mkdtemp", P(k.get("dir") or "/tmp")),
            "tempfile.mkstemp": lambda it, a, k: (("fd", "x"), P(k.get("dir") or "/tmp") + "/tmp_unique.so"),
            "os.close": lambda it, a, k: None,
            "shutil.copy": copy, "shutil.copy2": copy, "shutil.copyfile": copy, "shutil.move": move,
            "shutil.rmtree": lambda it, a, k: self.op(it, "rmtree", P(a[0])),
            "shutil.which": lambda it, a, k: "/usr/bin/" + str(a[0]).split("/")[-1],
        }
        return h


def run_C31(ctx):
    it0 = Interp()
    w = wf(it0.get(SH + "ensure_built"))
    here = it0.P.files[SH[:-1]][0].rsplit("/", 1)[0]
    srcs = [here + "/qugar_basix_shim.cpp", here + "/__init__.py"]

    def scenario(state, others, compile, env, platform="linux", fcntl=True, calls=1):
        cache = env.get("QUGAR_SHIM_CACHE", "/home/user/.cache/qugar/shim")
        lib = cache + "/libqugar_basix_shim" + {"linux": ".so", "darwin": ".dylib"}[platform]
        base = {srcs[0]: {"c": "src", "m": 50}, srcs[1]: {"c": "src", "m": 40}}
        if state == "old source":
            base[lib] = {"c": "complete", "m": 45}
        elif state == "old builder":
            base[srcs[1]]["m"] = 70
            base[lib] = {"c": "complete", "m": 60}
        elif state == "current":
            base[lib] = {"c": "complete", "m": 60}
        elif state == "current to the tick":
            base[lib] = {"c": "complete", "m": 50}
        log = {}

        def go(it):
            fs = log["fs"]
            out = []
            for _ in range(calls):
                try:
                    out.append(it.call(it.get(SH + "ensure_built"), []))
                except PyRaise as e:
                    out.append(e)
            return out

        def spec(it, v, S):
            fs = log["fs"]
            if fs.bad:
                return False, fs.bad[0]
            if fs.held:
                return False, "the lock %s is never released" % sorted(fs.held)[0]
            left = list(compile)
            need = state not in ("current", "current to the tick")
            want_builds = 0
            for n, r in enumerate(v):
                if need and others is None or need and others == "fail":
                    want_builds += 1
                    how = left.pop(0) if left else "ok"
                else:
                    how = "ok"
                if how != "ok":
                    if not isinstance(r, PyRaise):
                        return False, "a failure of the compiler is ignored"
                    f = fs.files.get(lib)
                    if n == len(v) - 1 and f and f["c"] != "complete":
                        return False, "an incomplete library is left in the cache"
                    continue
                need = False
                if isinstance(r, PyRaise):
                    return False, "%s" % r
                if not isinstance(r, (tuple, list)) or len(r) != 2 or not isinstance(r[1], str):
                    return False, "returns %s" % (r,)
                d = r[0].f.get("p") if isinstance(r[0], Obj) else r[0]
                if "%s/lib%s%s" % (d, r[1], lib[lib.rindex("."):]) != lib:
                    return False, "returns the library %s in %s, the cache is %s" % (r[1], d, cache)
                if not fs.fresh():
                    return False, "returns while the library is missing or older than its source"
            if fs.builds != want_builds:
                return False, "the library is compiled %d times, specified %d" % (fs.builds, want_builds)
            extra = [k for k, f in fs.files.items() if k != lib and k.startswith(cache) and f["c"] in ("complete", "partial")]
            if extra:
                return False, "%s is left in the cache" % extra[0]
            if fs.builds:
                c = fs.cmd
                for x in ("-shared", "-fPIC", "-lbasix", "-I/PREFIX/include", "-L/PREFIX/lib"):
                    if x not in c and not (x.startswith("-I") and any(y.startswith(x[:10]) for y in c)):
                        return False, "the library is compiled without %s" % x
                if not any("rpath" in x and "/PREFIX/lib" in x for x in c):
                    return False, "the library is compiled without the path of basix"
                out = c[c.index("-o") + 1]
                if platform == "darwin" and out != lib and not any("install_name" in x and (lib in x or "@rpath" in x) for x in c) and not any("-install_name" == x for x in c):
                    return False, "kernels would look for the library in its temporary path %s" % out
            return True, ""

        def other(fs):
            if others == "publish" and not fs.fresh():
                fs.now += 1
                fs.files[lib] = {"c": "complete", "m": fs.now}

        def f():
            def run(it):
                return go(it)

            fs0 = FS(base, lib, srcs, other if others else None, compile)
            # a new state for every path
            def setup(it):
                fs0.__init__(base, lib, srcs, other if others else None, compile)
                log["fs"] = fs0
                fs0.setup(env, platform, fcntl)(it)

            return pydecide(ctx, run, spec, hooks=fs0.hooks(), setup=setup)

        return f

    E1, E2 = {"CXX": "/usr/bin/g++"}, {"QUGAR_SHIM_CACHE": "/cache", "CXX": "/usr/bin/g++"}
    for st in ("absent", "old source", "old builder", "current", "current to the tick"):
        for env in (E1, E2):
            e = "default cache" if env is E1 else "chosen cache"
            ctx.attempt("state of the cache", "%s, %s" % (st, e), scenario(st, None, (), env), w)
            ctx.attempt("state of the cache", "%s, %s, twice" % (st, e), scenario(st, None, (), env, calls=2), w)
        ctx.attempt("built by another process meanwhile", st, scenario(st, "publish", (), E2), w)
        ctx.attempt("platforms", st + ", without file locks", scenario(st, None, (), E2, fcntl=False), w)
        ctx.attempt("platforms", st + ", darwin", scenario(st, None, (), E2, platform="darwin"), w)
    for st in ("absent", "old source", "old builder"):
        for how in ("error", "killed"):
            ctx.attempt("failures of the compiler", "%s, %s" % (st, how), scenario(st, None, (how,), E2), w)
            ctx.attempt("failures of the compiler", "%s, %s, then again" % (st, how), scenario(st, None, (how, "ok"), E2, calls=2), w)
            ctx.attempt("failures of the compiler", "%s, %s twice, then again" % (st, how), scenario(st, None, (how, "error", "ok"), E1, calls=3), w)
            ctx.attempt("failures of the compiler", "%s, %s, without file locks" % (st, how), scenario(st, None, (how, "ok"), E2, calls=2, fcntl=False), w)
