"""C33: state that outlives a call is immutable, of one thread, or locked; scratch buffers are not re-entered.
A lock-set analysis over the typed syntax trees of the whole C++ program."""
import re
from ..cxxprog import Program, core_files, wrapper_files, AnalysisBroken
from ..report import relpath
from .shim import SRC

LOCKS = {"std::lock_guard": "x", "std::unique_lock": "x", "std::scoped_lock": "x", "std::shared_lock": "s"}
SYNC = re.compile(r"^(const )?std::(mutex|recursive_mutex|shared_mutex|timed_mutex|shared_timed_mutex|recursive_timed_mutex|once_flag|condition_variable|atomic|atomic_flag|atomic_ref)\b")
# methods that give access to (part of) the object without changing it
ACCESS = {"operator[]", "at", "begin", "end", "front", "back", "data", "find", "rbegin", "rend", "get", "operator*", "operator->", "value", "lower_bound", "upper_bound", "equal_range"}
WRITEOPS = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}


def walk(n, path=()):
    """(node, ancestors) of every node of a tree"""
    if isinstance(n, dict):
        yield n, path
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                yield from walk(v, path + ((n, k),))
    elif isinstance(n, list):
        for i, v in enumerate(n):
            yield from walk(v, path + ((n, i),))


def strip(n):
    """canonical form of an expression without lines and identities"""
    if isinstance(n, dict):
        return tuple(sorted((k, strip(v)) for k, v in n.items() if k not in ("l", "t", "ft", "ot", "i") or (k == "i" and n.get("k") == "ref")))
    if isinstance(n, list):
        return tuple(strip(x) for x in n)
    return n


class Threads:
    def __init__(self, P):
        self.P = P
        self.F = [F for F in P.funcs.values() if F.body is not None]
        self.idx = {}
        self.callers = {}
        for F in self.F:
            for n, path in walk(F.body):
                if "f" in n and isinstance(n["f"], dict) and n["f"].get("m"):
                    self.callers.setdefault(n["f"]["m"], []).append((F, n, path))
            for x in F.inits:
                for n, path in walk(x):
                    if "f" in n and isinstance(n["f"], dict) and n["f"].get("m"):
                        self.callers.setdefault(n["f"]["m"], []).append((F, n, path))

    # ------------------------------------------------------------- variables
    def variables(self):
        """(name, function or None, declaration, type)"""
        for F in self.F:
            for n, path in walk(F.body):
                if n.get("k") == "var" and n.get("static"):
                    yield "%s::%s" % (F.q, n["n"]), F, n, F.tu.types[n["t"]]
        for q, (g, tu) in self.P.globals.items():
            yield q, None, g, tu.types[g["t"]]

    # --------------------------------------------------------------- accesses
    def uses(self, F, d):
        """references to the variable d inside F (static local) or anywhere (global)"""
        if F is not None:
            for n, path in walk(F.body):
                if n.get("k") == "ref" and n.get("i") == d["i"]:
                    yield F, n, path
            return
        for G in self.F:
            for part in [G.body] + G.inits:
                for n, path in walk(part):
                    if n.get("k") in ("gref", "ref") and n.get("n") == d["q"] and (n["k"] == "gref" or n.get("i") == d["i"]):
                        yield G, n, path

    def classify(self, F, node, path, depth=0):
        """yield (kind, F, node, path): kind r(ead), w(rite), u(nknown); follows references and accessors"""
        if depth > 6:
            yield "u", F, node, path
            return
        cur = node
        P = list(path)
        while P:
            p, key = P.pop()
            if isinstance(p, list):
                pos = key
                lst = p
                p, key = P.pop()
            else:
                pos = None
            k = p.get("k")
            if k in ("cast",) and p.get("ck") in ("LValueToRValue",):
                yield "r", F, node, path
                return
            if k in ("cast", "paren", "mem", "idx", "par", "elem"):
                cur = p
                continue
            if k == "ret":
                if F.d.get("rref") or (F.d.get("rft") or "").rstrip().endswith("*"):
                    if "const" in (F.d.get("rft") or "").split("&")[0].split("*")[0]:
                        yield "r", F, node, path
                        return
                    for G, n, pa in self.callers.get(F.m, ()):
                        yield from self.classify(G, n, pa, depth + 1)
                    yield "a", F, node, path
                else:
                    yield "r", F, node, path
                return
            if k == "var":
                if p.get("ref"):
                    if p.get("const") or "const" in str(F.tu.types[p["t"]]).split("&")[0]:
                        kind = "r"
                    else:
                        kind = "a"
                    yield kind, F, node, path
                    for n, pa in walk(F.body):
                        if n.get("k") == "ref" and n.get("i") == p["i"]:
                            for x in self.classify(F, n, pa, depth + 1):
                                if kind == "r" and x[0] == "w":
                                    continue
                                yield x
                    return
                if p.get("static"):
                    yield "r", F, node, path
                    return
                yield "r", F, node, path
                return
            if k in ("as", "asg", "bin") and p.get("op") in WRITEOPS:
                yield ("w" if key in ("a", "x", "lhs", "e1") else "r"), F, node, path
                return
            if k == "un":
                op = p.get("op")
                if op in ("++", "--", "p++", "p--", "++p", "--p", "post++", "post--"):
                    yield "w", F, node, path
                    return
                if op == "&":
                    yield "u", F, node, path
                    return
                if op == "*":
                    cur = p
                    continue
                yield "r", F, node, path
                return
            if k == "mcall" and key == "o":
                f = p["f"]
                if f.get("const"):
                    yield "r", F, node, path
                    return
                if f["n"] in ACCESS:
                    cur = p
                    continue
                yield ("u" if self.has_sync(f.get("c"), None) else "w"), F, node, path
                return
            if k == "ocall":
                op = p.get("op")
                if p.get("mth") and pos == 0 or pos == 0 and not p.get("mth"):
                    f = p.get("f") or {}
                    if op in WRITEOPS or op in ("++", "--"):
                        yield "w", F, node, path
                        return
                    if f.get("const"):
                        yield "r", F, node, path
                        return
                    if op in ("[]", "*", "->"):
                        cur = p
                        continue
                    if op == "()":
                        yield "u", F, node, path
                        return
                yield "r", F, node, path
                return
            if k in ("call", "mcall", "ctor") and pos is not None:
                f = p.get("f")
                G = self.P.lookup(f["m"], F.tu) if f and f.get("m") else None
                prm = G.params[pos].get("ft", "") if G is not None and pos < len(G.params) else None
                if prm is None:
                    if f and f.get("n") in ("move", "swap"):
                        yield "w", F, node, path
                    else:
                        yield "r", F, node, path
                    return
                if prm.rstrip().endswith("&") and not prm.lstrip().startswith("const"):
                    yield "w", F, node, path
                    if G.body is not None:
                        pass
                    return
                yield "r", F, node, path
                return
            if k in ("expr", "if", "while", "for", "do", "block", "switch", "rfor", "cond"):
                yield "r", F, node, path
                return
            cur = p
        yield "r", F, node, path

    # ------------------------------------------------------------------ locks
    def held(self, F, path, depth=0):
        """locks held at a place: {canonical mutex: 'x' or 's'}"""
        out = {}
        for (a, k) in path:
            if isinstance(a, list) and isinstance(k, int) and a and all(isinstance(x, dict) or x is None for x in a):
                for s in a[:k]:
                    if s and s.get("k") == "decl":
                        for v in s["d"]:
                            self.lockvar(F, v, out)
                    if s and s.get("k") == "expr":
                        e = s["e"]
                        if isinstance(e, dict) and e.get("k") == "mcall" and e["f"]["n"] in ("unlock", "unlock_shared", "release"):
                            out.clear()
                        if isinstance(e, dict) and e.get("k") == "mcall" and e["f"]["n"] in ("lock", "lock_shared") and SYNC.match(F.tu.types[e["ot"]] if "ot" in e else ""):
                            m = self.mutex(F, e["o"])
                            if m:
                                out[m] = "x" if e["f"]["n"] == "lock" else "s"
            if isinstance(a, dict) and a.get("k") == "decl":
                for v in a["d"]:
                    pass
        return out

    def lockvar(self, F, v, out):
        t = F.tu.types[v["t"]]
        n = re.sub(r"^const ", "", t).split("<")[0]
        if v.get("static"):
            return
        if n not in LOCKS:
            if self.has_sync(re.sub(r"^const |[ &]+$", "", t), LOCKS):
                out["?" + n] = "x"
            return
        e = v.get("e")
        while isinstance(e, dict) and e.get("k") in ("cast", "paren", "par") or isinstance(e, dict) and e.get("k") == "ctor" and (e.get("move") or e.get("copy")):
            e = e["e"] if "e" in e else e["a"][0]
        if isinstance(e, dict) and e.get("k") in ("call", "mcall"):
            G = self.P.lookup(e["f"]["m"], F.tu)
            found = False
            if G is not None and G.body is not None:
                for x, _ in walk(G.body):
                    if x.get("k") == "ret" and isinstance(x.get("e"), dict):
                        for y, _ in walk(x["e"]):
                            if y.get("k") == "ctor":
                                for b in y.get("a", []):
                                    m = self.mutex(G, b)
                                    if m:
                                        out[m] = LOCKS[n]
                                        found = True
            if not found:
                out["?" + n] = LOCKS[n]
            return
        args = e.get("a", []) if e else []
        txt = str(strip(args))
        if "defer_lock" in txt or "try_to_lock" in txt or "adopt_lock" in txt:
            return
        for a in args:
            m = self.mutex(F, a)
            if m:
                out[m] = LOCKS[n]

    def has_sync(self, cls, names, depth=0):
        """does a class of the repository contain a member of these types?"""
        r = self.P.records.get(cls)
        if not r or depth > 4:
            return False
        for fld in r[0]["fields"]:
            t = re.sub(r"^const |[ &]+$", "", fld["ft"])
            if (t.split("<")[0] in names) if names else SYNC.match(t):
                return True
            if self.has_sync(t, names, depth + 1):
                return True
        return any(self.has_sync(b, names, depth + 1) for b in r[0]["bases"])

    def mutex(self, F, a):
        """canonical name of a mutex shared by every thread, or None"""
        while isinstance(a, dict) and a.get("k") in ("cast", "paren", "par"):
            a = a["e"]
        if not isinstance(a, dict):
            return None
        if a.get("k") == "ref":
            for n, path in walk(F.body):
                if n.get("k") == "var" and n.get("i") == a["i"]:
                    if n.get("static") and not n.get("tls"):
                        return "%s::%s" % (F.m, n["n"])
                    if n.get("ref") and n.get("e"):
                        return self.mutex(F, n["e"])
                    return None
            g = self.P.globals.get(a.get("n"))
            if g and not g[0].get("tls"):
                return a["n"]
            return None
        if a.get("k") == "mem" and isinstance(a.get("b"), dict) and a["b"].get("k") != "this":
            b = self.mutex(F, a["b"])
            return b + "." + a["n"] if b else None
        if a.get("k") == "gref":
            g = self.P.globals.get(a["n"])
            return None if g and g[0].get("tls") else a["n"]
        if a.get("k") == "call":
            G = self.P.lookup(a["f"]["m"], F.tu)
            if G is None or G.body is None or not G.d.get("rref"):
                return None
            for n, path in walk(G.body):
                if n.get("k") == "ret" and n.get("e"):
                    return self.mutex(G, n["e"])
        return None

    def protected(self, F, path, seen=()):
        """set of (mutex, mode) held at this place on every way to it"""
        h = dict(self.held(F, path))
        if h or F.m in seen or len(seen) > 5:
            return h
        cs = self.callers.get(F.m, ())
        if F.d.get("externc") or not cs:
            return h
        if not (F.d.get("acc") or "(anonymous" in F.q):
            return h
        every = None
        for G, n, pa in cs:
            p = self.protected(G, pa, seen + (F.m,))
            every = p if every is None else {m: ("x" if every[m] == p[m] == "x" else "s") for m in every if m in p}
        return every or {}

    # ---------------------------------------------------------------- verdicts
    def judge(self, name, F, d, ty):
        """(ok, detail, where)"""
        if SYNC.match(ty):
            return True, "lock or atomic"
        if d.get("const") or ty.startswith("const "):
            return True, "constant"
        acc = []
        for G, n, path in self.uses(F, d):
            acc += list(self.classify(G, n, path))
        if d.get("tls"):
            return True, "of one thread"
        acc = [a for a in acc if a[0] != "a"]
        w = [a for a in acc if a[0] == "w"]
        if not w:
            if any(a[0] == "u" for a in acc):
                return None, "uses of %s are not understood" % name
            return True, "never changed after its initialisation"
        common = None
        for kind, G, n, path in acc:
            p = self.protected(G, path)
            if any(m.startswith("?") for m in p):
                return None, "lock of an unknown kind"
            ms = set(m for m, mode in p.items() if mode == "x" or kind == "r")
            if not ms:
                k2, G2, n2, _ = w[0]
                ln = n.get("l") or next((a.get("l") for a, _ in reversed(path) if isinstance(a, dict) and a.get("l")), G.line)
                return False, "%s (%s:%d, in %s) is %s without %s lock that other threads respect, and threads change it" % (
                    name, relpath(G.file), ln, G.q, "changed" if kind != "r" else "read", "an exclusive" if kind != "r" else "a")
            common = ms if common is None else common & ms
        if not common:
            return False, "%s is protected by different locks in different places" % name
        return True, "always accessed under a lock"

    def acquisitions(self, F):
        """(mutex, path, line) of the RAII locks of F"""
        for n, path in walk(F.body):
            if n.get("k") == "var" and not n.get("static"):
                o = {}
                self.lockvar(F, n, o)
                for m in o:
                    yield m, path, n.get("l")

    def lockorder(self):
        """(site, verdict, detail): a lock is never taken while held, and locks are taken in one order"""
        own = {}
        for F in self.F:
            a = list(self.acquisitions(F))
            if a:
                own[F.m] = set(m for m, _, _ in a)
        edges, out = {}, []
        for F in self.F:
            for m, path, ln in self.acquisitions(F):
                # the declaration statement itself is in the path: locks before it
                h = self.held(F, path)
                ok = True
                if m in h and not m.startswith("?"):
                    out.append((F, ln, False, "the lock %s is taken while this thread holds it" % m))
                    ok = False
                for x in h:
                    if x != m:
                        edges.setdefault((x, m), (F, ln))
                if ok:
                    out.append((F, ln, True, ""))
            if F.m in own:
                for n, path in walk(F.body):
                    f = n.get("f")
                    if not (isinstance(f, dict) and f.get("m")) or n.get("k") not in ("call", "mcall", "ocall", "ctor"):
                        continue
                    h = self.held(F, path)
                    if not h:
                        continue
                    for g in self.reach(f["m"]) | {f["m"]}:
                        for m in own.get(g, ()):
                            if m in h and not m.startswith("?"):
                                out.append((F, n.get("l"), False, "%s takes the lock %s, which its caller holds" % (f["n"], m)))
                            for x in h:
                                if x != m:
                                    edges.setdefault((x, m), (F, n.get("l")))
        for (a, b), (F, ln) in edges.items():
            if (b, a) in edges and a < b:
                out.append((F, ln, False, "locks %s and %s are taken in both orders" % (a, b)))
        return out

    # ------------------------------------------------- scratch buffers and recursion
    def reach(self, m, limit=4000):
        """functions reachable from m through calls whose target is known"""
        seen, todo = set(), [m]
        while todo and len(seen) < limit:
            x = todo.pop()
            F = self.P.funcs.get(x)
            if F is None or F.body is None:
                continue
            for n, _ in walk(F.body):
                f = n.get("f")
                if isinstance(f, dict) and f.get("m") and n.get("k") in ("call", "mcall", "ocall", "ctor") and not (f.get("virt") and not n.get("nv")):
                    if f["m"] not in seen:
                        seen.add(f["m"])
                        todo.append(f["m"])
        return seen

    def reentrant(self, name, F, d):
        calls = []
        order = 0
        pos = {}
        loops = {}
        for n, path in walk(F.body):
            order += 1
            pos[id(n)] = order
            f = n.get("f")
            if isinstance(f, dict) and f.get("m") and n.get("k") in ("call", "mcall", "ocall", "ctor"):
                calls.append((order, n, path))
        us = [(pos[id(n)], n, path) for G, n, path in self.uses(F, d)]
        for o, n, path in calls:
            f = n["f"]
            if f.get("virt") and not n.get("nv"):
                continue
            if F.m == f["m"] or F.m in self.reach(f["m"]):
                inloop = set(id(a) for a, _ in path if isinstance(a, dict) and a.get("k") in ("for", "while", "do", "rfor"))
                for ou, un, up in us:
                    kinds = [x[0] for x in self.classify(F, un, up)]
                    later = ou > o or inloop & set(id(a) for a, _ in up if isinstance(a, dict))
                    if later:
                        # the first later use may be a complete refill
                        first = min((x for x in us if x[0] > o), default=None)
                        return False, "%s keeps its contents across the call of %s (line %s), which comes back to %s and overwrites them" % (name, f["n"], n.get("l"), F.q)
        return True, ""


def run_C33(ctx):
    P = Program(core_files() + wrapper_files() + [SRC])
    T = Threads(P)
    ctx.unit("functions", "%d functions with bodies" % len(T.F))
    ctx.notes["functions_analysed"] = len(T.F)
    for name, F, d, ty in T.variables():
        where = "%s:%d" % (relpath(F.file), d["l"]) if F is not None else "%s:%d" % (relpath(d["f"]), d["l"])
        if F is None and not (where.startswith("cpp/") or where.startswith("python/")):
            continue
        inst = "%s [%s]" % (name, (F.m[-40:] if F is not None else "global"))
        ctx.unit("variables", name)
        ctx.attempt("shared variables", inst, lambda: T.judge(name, F, d, ty), where)
        if F is not None and not d.get("const") and not ty.startswith("const "):
            ctx.attempt("scratch buffers and recursion", inst, lambda: T.reentrant(name, F, d), where)
    for F, ln, ok, det in T.lockorder():
        ctx.ob("locks", "%s line %s" % (F.q, ln), ok, "%s:%s" % (relpath(F.file), ln), det)
    for cls, (r, tu) in sorted(P.records.items()):
        if not relpath(r["file"]).startswith(("cpp/", "python/")):
            continue
        ctx.unit("classes", cls)
        for fld in r["fields"]:
            if not fld.get("mut"):
                continue
            ty = fld["ft"]

            def f():
                if SYNC.match(ty):
                    return True, ""
                for G in T.F:
                    if G.cls != cls or not G.f.get("const"):
                        continue
                    for n, path in walk(G.body):
                        if n.get("k") == "mem" and n.get("n") == fld["n"]:
                            for kind, H, m, pa in T.classify(G, n, path):
                                if kind == "w" and not T.heldmember(H, pa):
                                    return False, "%s::%s is changed by the constant method %s without a lock: concurrent users of a constant object race" % (cls, fld["n"], G.q)
                return True, ""

            ctx.attempt("members changed by constant methods", "%s::%s" % (cls, fld["n"]), f, "%s:%d" % (relpath(r["file"]), r["l"]))


def _heldmember(self, F, path):
    for (a, k) in path:
        if isinstance(a, list) and isinstance(k, int):
            for s in a[:k]:
                if isinstance(s, dict) and s.get("k") == "decl":
                    for v in s["d"]:
                        n = re.sub(r"^const ", "", F.tu.types[v["t"]]).split("<")[0]
                        if n in LOCKS:
                            return True
    return False


Threads.heldmember = _heldmember
