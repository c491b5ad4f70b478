import sys,time
sys.path.insert(0,'/verif/analysis')
sys.setrecursionlimit(100000)
import interp,prims
from terms import *
import terms as T,bdd
w=interp.World(['/verif/build/facts'])
def run(path,args=None,cuts=(),show_=True):
    ip=interp.Interp(w,cuts); b=w.bodies[path]; st={}
    T.PC[0]=1; T.SPAN[0]=None
    if args is None:
        args=[]
        for i in range(b.argc):
            ty=w.ty(b.crate,b.locals[i+1][0]); v=Sym('a%d'%(i+1))
            if ty[0]=='mutref': st[(0,i+1)]=v; v=interp.mkref(((0,i+1),()))
            args.append(v)
    t=time.time(); p,v,s=ip.call_body(b,{g:('param',g) for g in b.generics},args,1,st)
    if show_:
        print('==',path,'%.2fs'%(time.time()-t),'nodes',len(NODES))
        print('pc',showb(p,8,12)); print('ret',show(v,10))
        for k in s:
            if k not in st or s[k]!=st[k]: print('  store',k,show(s[k],10))
        for pc,sp,why in ip.panics: print('  panic',why,sp,showb(pc,6,8))
        print('  opaque',ip.opaque)
    return ip,p,v,s
if __name__=='__main__':
    for p in sys.argv[1:]: run(p)
