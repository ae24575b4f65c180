"""helper: write /verif/seeded/<id>/ from a list of (file, old, new) replacements and demo sources"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
def plant(id, prop, reps, needs, breaks, demo, files=None, mini=False):
    d = "%s/seeded/%s" % (V, id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="qvplant")
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for f, old, new in reps:
        p = w + "/r/" + f; s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True).stdout
    shutil.rmtree(w)
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
    for n, t in (files or {}).items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        open(d + "/" + n, "w").write(t)
    if mini:
        shutil.copytree(V + "/devel/mini", d + "/mini")
CXX = '''#!/bin/bash
# builds the sources it needs against a small stand-in for algoim and runs the program beside this script
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
set -e
for f in %s; do g++ -O0 -w -std=c++20 -Icpp/include -I"$here/mini" -c cpp/qugar/$f.cpp -o "$w/$f.o" & done
g++ -O0 -w -std=c++20 -Icpp/include -I"$here/mini" -c "$here/demo.cpp" -o "$w/demo.o"
for j in $(jobs -p); do wait $j; done
g++ "$w"/*.o -o "$w/demo"
timeout 60 "$w/demo"
'''
FUNCS = "primitive_funcs_lib impl_funcs_lib tpms_lib affine_transf ref_system bezier_tp bezier_tp_utils bezier_tp_utils_composition monomials_tp polynomial_tp tensor_index_tp tolerance bbox lagrange_tp_utils impl_utils"
PY = '''#!/bin/bash
# imports the package of the working tree with stand-ins for what is not installed
here=$(cd "$(dirname "$0")" && pwd); py=/opt/qugar-venv/bin/python; [ -x $py ] || py=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" timeout 200 $py "$here/demo.py"
'''
def pyplant(id, prop, reps, needs, breaks, demo, files=None):
    f = {"demo.py": "import pystub, sys\nimport numpy as np\n\n" + demo, "pystub.py": open(V + "/devel/pystub.py").read()}
    f.update(files or {})
    plant(id, prop, [("python/qugar/" + a, b, c) for a, b, c in reps], needs, breaks, PY, f)
