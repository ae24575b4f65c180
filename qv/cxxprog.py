"""Loads the type-checked program of /repo's C++ sources (through tool/qx)."""
import hashlib, json, os, resource, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QV_REPO", "/repo")
RD = None


class AnalysisBroken(Exception):
    """the analysis could not be carried out at all (anchor gone, tool failure)"""


def _qx():
    exe = os.path.join(VERIF, "_build", "qx")
    src = os.path.join(VERIF, "tool", "qx.cpp")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        subprocess.run([os.path.join(VERIF, "tool", "build.sh")], check=True)
    return exe


def _rdir():
    global RD
    if RD is None:
        RD = subprocess.run(["/usr/bin/clang++", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    return RD


_toolhash = None


def _hash_tree():
    """content hash of everything a translation unit can read (headers+stubs+tool)"""
    global _toolhash
    h = hashlib.sha256()
    roots = [REPO + "/cpp/include", REPO + "/python/nanobind_wrappers", VERIF + "/stubs", VERIF + "/tool"]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def extract(files, jobs=8):
    """files: list of absolute source paths -> list of parsed JSON dicts"""
    exe = _qx()
    base = _hash_tree()
    cache = os.path.join(VERIF, "_build", "cache")
    os.makedirs(cache, exist_ok=True)

    def one(path):
        if not os.path.exists(path):
            return None
        h = base.copy()
        with open(path, "rb") as fh:
            h.update(path.encode() + fh.read())
        out = os.path.join(cache, h.hexdigest()[:32] + ".json")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            cmd = [exe, tmp, path, REPO + "/," + VERIF + "/stubs/", "--", "-std=gnu++20", "-DNDEBUG", "-w", "-ferror-limit=0",
                   "-I" + REPO + "/cpp/include", "-I" + VERIF + "/stubs", "-I" + VERIF + "/stubs/gen", "-resource-dir=" + _rdir()] + EXTRA.get(os.path.basename(path), [])
            try:
                p = subprocess.run(cmd, capture_output=True, text=True, timeout=300, preexec_fn=_limit)
            except subprocess.TimeoutExpired:
                raise AnalysisBroken("front end does not finish on " + path)
            if p.returncode < 0:
                raise AnalysisBroken("front end ended by signal %d on %s" % (-p.returncode, path))
            if not os.path.exists(tmp):
                raise AnalysisBroken("front end failed on %s: %s" % (path, p.stderr[-500:]))
            os.replace(tmp, out)
        with open(out) as fh:
            d = json.load(fh)
        d["path"] = path
        return d

    with ThreadPoolExecutor(jobs) as ex:
        r = list(ex.map(one, files))
    return [x for x in r if x is not None]


EXTRA = {}


class Func:
    __slots__ = ("d", "tu", "f", "q", "m", "cls", "params", "body", "inits", "file", "line", "ta")

    def __init__(self, d, tu):
        self.d, self.tu, self.f = d, tu, d["f"]
        self.q = self.f["q"]
        self.m = self.f["m"]
        self.cls = self.f.get("c")
        self.params = d["p"]
        self.body = d["b"]
        self.inits = d.get("inits", [])
        self.file, self.line = d["file"], d["l"]
        self.ta = self.f.get("ta", [])

    def __repr__(self):
        return "<%s %s:%d>" % (self.q, os.path.basename(self.file), self.line)


class TU:
    def __init__(self, d):
        self.types = d["types"]
        self.path = d["path"]
        self.errors = d["errors"]
        self.d = d
        self.funcs = {}


class Program:
    def __init__(self, files):
        self.tus = []
        self.funcs = {}
        self.records = {}
        self.globals = {}
        self.enums = {}
        self.errors = {}
        for d in extract(files):
            tu = TU(d)
            self.tus.append(tu)
            self.errors[d["path"]] = d["errors"]
            for r in d["records"]:
                self.records.setdefault(r["n"], (r, tu))
            for g in d["globals"]:
                if g["q"] not in self.globals or "e" not in self.globals[g["q"]][0]:
                    self.globals[g["q"]] = (g, tu)
            for e in d["enums"]:
                self.enums[e["n"]] = dict((k, int(v)) for k, v in e["v"])
            for f in d["funcs"]:
                F = Func(f, tu)
                key = F.m or F.q
                tu.funcs[key] = F
                if key not in self.funcs or self.funcs[key].body is None:
                    self.funcs[key] = F
        # overriders
        self.over = {}
        for F in self.funcs.values():
            for o in F.d.get("ov", []):
                self.over.setdefault(o, set()).add(F.m)
        self.byq = {}
        for F in self.funcs.values():
            self.byq.setdefault(F.q, []).append(F)

    def lookup(self, m, tu=None):
        if tu is not None and m in tu.funcs:
            return tu.funcs[m]
        return self.funcs.get(m)

    def find(self, q, ta=None, cls=None, np=None, pred=None):
        """functions by qualified name (class template args stripped in q)"""
        out = []
        for F in self.byq.get(q, []):
            if ta is not None and [str(x) for x in F.ta[: len(ta)]] != [str(x) for x in ta]:
                continue
            if cls is not None and F.cls != cls:
                continue
            if np is not None and len(F.params) != np:
                continue
            if pred and not pred(F):
                continue
            out.append(F)
        return out

    def one(self, q, **kw):
        r = self.find(q, **kw)
        if not r:
            raise AnalysisBroken("anchor not found: %s %s" % (q, kw))
        return r[0]

    def bases(self, cls):
        r = self.records.get(cls)
        return r[0]["bases"] if r else []

    def derives(self, cls, base):
        if cls == base:
            return True
        return any(self.derives(b, base) for b in self.bases(cls))

    def resolve_virtual(self, dyncls, m):
        """most-derived overrider of mangled method m for dynamic class dyncls"""
        allov = set([m])
        work = [m]
        while work:
            x = work.pop()
            for o in self.over.get(x, ()):
                if o not in allov:
                    allov.add(o)
                    work.append(o)

        def look(c):
            r = self.records.get(c)
            if r:
                for meth in r[0]["methods"]:
                    if meth["m"] in allov and not meth.get("pure"):
                        return meth["m"]
                for b in r[0]["bases"]:
                    x = look(b)
                    if x:
                        return x
            return None

        return look(dyncls)


def core_files():
    d = REPO + "/cpp/qugar"
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))


def wrapper_files():
    d = REPO + "/python/nanobind_wrappers"
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))
