#!/bin/sh
# developer aid: grouped undecided obligations of the last run of each property
python3 - "$@" <<'P'
import json,sys,re
from collections import Counter
for c in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%c)); cv=d['coverage']
    print(c,{k:cv[k] for k in('obligations','discharged','undecided')},'viol',d['violations'],d['wall_s'],'s')
    n=Counter(); ex={}
    for u in cv['undecided_obligations']:
        k=re.sub(r'0x\w+|\d+','#',u['why'])[:110]; n[k]+=1; ex.setdefault(k,u['rule'][:30]+' / '+u['instance'][:50])
    for k,v in n.most_common(12): print('  %3d %s   e.g. %s'%(v,k,ex[k]))
P
