#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough]   static check of one property on /repo"""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from qv.report import Ctx
from qv.cxxprog import AnalysisBroken


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i : i + 2]
    from qv.checks import REGISTRY
    rc = 0
    for p in a or sorted(REGISTRY):
        mod, meta = REGISTRY[p]
        ctx = Ctx(p, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        try:
            m = importlib.import_module("qv.checks." + mod)
            m.META = meta
            getattr(m, "run_" + p, None)(ctx)
            r = ctx.finish(meta)
        except AnalysisBroken as e:
            print("ANALYSIS-BROKEN property=%s: %s" % (p, e))
            r = 2
        rc = max(rc, r) if r != 1 else 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
