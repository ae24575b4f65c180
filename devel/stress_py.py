"""self-test of the Python interpreter: functions of stress_src.py return True"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from qv.pysym import *
from qv import pyeval
P = prog()
P.files["stress"] = (os.path.join(os.path.dirname(os.path.abspath(__file__)), "stress_src.py"), False)
import ast
names = [n.name for n in P.tree("stress").body if isinstance(n, ast.FunctionDef) and n.name[:2] in ("t_", "n_")]
only = sys.argv[1:]
# every conjunct of a returned "a and b and ..." separately
ok = 0
for nm in names:
    if only and nm not in only: continue
    fn = [n for n in P.tree("stress").body if getattr(n, "name", "") == nm][0]
    last = fn.body[-1]
    parts = last.value.values if isinstance(last, ast.Return) and isinstance(last.value, ast.BoolOp) and isinstance(last.value.op, ast.And) else [last.value]
    for i, e in enumerate(parts):
        last.value = e
        it = Interp()
        try:
            r = it.call(it.get("stress." + nm), [], {})
            from qv import pynp
            r = pynp.unwrap(r) if hasattr(pynp, "unwrap") else r
        except BaseException as ex:
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            r = "%s %s (%s:%d)" % (type(ex).__name__, str(ex)[:100], os.path.basename(tb.filename), tb.lineno)
        if r is not True and not (isinstance(r, (int, float)) and r):
            print(nm, "|", ast.unparse(e)[:90], "|", str(r)[:140])
        else: ok += 1
print(ok, "ok")
