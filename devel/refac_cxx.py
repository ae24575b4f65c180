"""Applies behaviour-preserving edits of one or more kinds to the C++ sources of a clone.
usage: refac_cxx.py CLONE KINDS(comma separated) [outer|inner]"""
import glob, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
clone, kinds = sys.argv[1], sys.argv[2].split(",")
pick = sys.argv[3] if len(sys.argv) > 3 else "outer"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = subprocess.run(["/usr/bin/clang++", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
files = [f for f in sorted(glob.glob(clone + "/cpp/qugar/*.cpp") + glob.glob(clone + "/python/nanobind_wrappers/*.cpp")) if not f.endswith("quadrature_lib.cpp")]
flags = ["-std=gnu++20", "-DNDEBUG", "-w", "-ferror-limit=0", "-I" + clone + "/cpp/include", "-I" + V + "/stubs", "-I" + V + "/stubs/gen", "-resource-dir=" + rd]
def one(a):
    k, f = a
    return subprocess.run(["/tmp/refac_cxx", k, clone + "/", f, "--"] + flags, capture_output=True, text=True).stdout
for k in kinds:
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, [(k, f) for f in files]))
    ed = {}
    for o in outs:
        for l in o.splitlines():
            p = l.split("\t")
            if len(p) != 4: continue
            ed.setdefault(os.path.normpath(p[0]), {})[(int(p[1]), int(p[2]))] = json.loads(p[3])
    tot = 0
    for f, es in ed.items():
        s = open(f, "rb").read()
        keys = sorted(es, key=lambda x: (x[0], -x[1]) if pick == "outer" else (x[1], -x[0]))
        out, last = [], -1
        for b, e in keys:
            if b < last: continue
            out.append((b, e)); last = max(last, e)
        for b, e in sorted(out, reverse=True):
            s = s[:b] + es[(b, e)].encode() + s[e:]
            tot += 1
        open(f, "wb").write(s)
    print(k, tot, "edits in", len(ed), "files")
