#!/opt/veriftools/pyvenv/bin/python
"""writes DESIGN.md: design_head.md + one section per property + defects + planted bugs"""
import json, os, sys, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from qv.props import PROPS
out = [open(V + "/devel/design_head.md").read().rstrip(), "", "## 5. Properties", ""]
fixes = {}
for ln in open(V + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", ln.strip())
    if m:
        fixes.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
ev = {}
dur = {}
for p in PROPS:
    f = V + "/evidence/%s.json" % p["id"]
    if os.path.exists(f):
        d = json.load(open(f))
        ev[p["id"]] = d
for p in sorted(PROPS, key=lambda p: p["id"]):
    out.append("### %s %s" % (p["id"], p["title"]))
    out.append("")
    out.append("*Statement.* " + p["statement"])
    out.append("")
    out.append("*Quantifies over.* %s. *Why tests cannot settle it.* %s" % (p["quant"].rstrip("."), p["why"]))
    out.append("")
    out.append("*Method* (`qv/checks/%s.py`; %s). %s" % (p["mod"], p["technique"], p["explains"]))
    out.append("")
    out.append("*Bounds.* " + p["note"])
    if p["assume"]:
        out.append("")
        out.append("*Assumes.* " + "; ".join(a.rstrip(".") for a in p["assume"]) + ".")
    d = ev.get(p["id"])
    if d:
        n = d.get("coverage", {})
        k = n.get("obligations") or {}
    out.append("")
    for c, t in fixes.get(p["id"], []):
        out.append("* repaired in /repo (%s): %s" % (c, t))
    if fixes.get(p["id"]):
        out.append("")
out += ["## 6. Planted bugs", "", "Each one compiles, passes the existing tests, and has a demonstration; all are caught by the check of their property.", "",
        "| id | property (= check that catches it) | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
out += ["", open(V + "/devel/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
