"""dev: tt.py FACTS code spec [cuts...]"""
import sys,time,cProfile
sys.path.insert(0,'/verif/analysis'); sys.setrecursionlimit(100000)
import interp,prims,rules
w=interp.World([sys.argv[1]])
t=time.time(); viol=[]
o=dict(kind='eq',code=sys.argv[2],spec=sys.argv[3],cuts=tuple(x for x in sys.argv[4:] if x[0]!='+'),opts=dict(proofs=True) if '+proofs' in sys.argv else dict(satop=True) if '+sat' in sys.argv else None)
if '@' in o['spec']: o['spec'],o['imp']=o['spec'].split('@')
r=rules.run(o,w,viol,'/repo'); print(r['verdict'],'%.2fs'%(time.time()-t))
for v in viol: print('  ',v[0],v[1]); print(v[2][:6000]); print(v[3])
