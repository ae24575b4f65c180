"""self-test of the C++ interpreter: devel/stress.py COPY, where COPY is a copy of /repo with stress.cpp appended to cpp/qugar/bbox.cpp"""
import os,sys; sys.path.insert(0,'/verif'); os.environ['QV_REPO']=sys.argv[1]
from qv.cxxsym import *
P=core()
n=0
for name in sorted({F.q for Fs in [P.funcs.values()] for F in Fs if F.q.startswith("qugar::stress::t_")}):
    F=[G for G in P.funcs.values() if G.q==name][0]
    ev=Eval(P, hooks=uf_hooks(), max_steps=400000)
    try: r=ev.rv(ev.call(F,[],None))
    except Undecided as e: r="U %s"%e
    except BaseException as e:
        import traceback
        tb=traceback.extract_tb(e.__traceback__)[-1]
        r="EXC %s %s %s:%d"%(type(e).__name__,str(e)[:80],os.path.basename(tb.filename),tb.lineno)
    if r is not True and r!=1: print(name.split("::")[-1], str(r)[:150])
    else: n+=1
print(n,"ok")
