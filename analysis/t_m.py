import sys,time
sys.path.insert(0,'/verif/analysis'); sys.setrecursionlimit(100000)
import interp,prims,equiv
from equiv import *
w=interp.World(['/verif/build/facts'])
def cmp2(c,s,cuts=()):
    t=time.time()
    for _ in range(2): A=summary(w,c,cuts); B=summary(w,s,cuts)
    ok=equiv_b(A.accept,B.accept); d=diff_fields(A.payload,B.payload,land(A.accept,B.accept))
    print(c.split('::')[-1],'accept',ok,'payload',not d,'%.2fs'%(time.time()-t),A.ip.opaque,B.ip.opaque)
    if not ok:
        for p,x,y in bdiff(A.accept,B.accept): print('  ACC',p,'\n   code',show(x,7)[:1500],'\n   spec',show(y,7)[:1500])
    for p,x,y,c in d[:3]:
        for q,x,y in tdiff(x,y): print('  DIFF',p,q,'\n   code',show(x,7)[:1500],'\n   spec',show(y,7)[:1500])
S='specs_mp::'; M='ssz_multiproofs::multiproof::Multiproof::'
T_=[(M+'verify',S+'m01_verify'),(M+'calculate_root',S+'m02_root'),(S+'m03_code',S+'m03_spec'),(S+'m04_code',S+'m04_spec'),(S+'m04_get_code',S+'m04_get'),(S+'m04_next_code',S+'m04_next'),(S+'m04_next2_code',S+'m04_next2'),(S+'m04_mix_code',S+'m04_mix'),(S+'m05_code',S+'m05_spec')]
for c,s in T_:
    if len(sys.argv)>1 and sys.argv[1] not in c+s: continue
    cmp2(c,s,('ssz_multiproofs::multiproof::calculate_max_stack_depth',) if 'm05' in s else ())
