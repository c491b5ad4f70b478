"""dev runner: t.py FACTS ID[:filter]..."""
import sys,time,os
sys.path.insert(0,'/verif/analysis'); sys.setrecursionlimit(100000)
import interp,prims,rules
from checks import CHECKS
w=interp.World([sys.argv[1]])
for a in sys.argv[2:]:
    i,_,f=a.partition(':')
    for o in CHECKS[i]['obl']:
        if f and f not in repr(o): continue
        t=time.time(); viol=[]
        r=rules.run(o,w,viol,'/repo')
        print(i,o.get('code',o['kind']).split('::')[-1],r.get('verdict'),'%.2fs'%(time.time()-t),r.get('values'),'opaque',r.get('opaque'))
        for v in viol: print('  ',v[0],v[1]); print(v[2][:6000]); print(v[3])
