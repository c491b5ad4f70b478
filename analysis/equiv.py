"""Comparison of two function summaries (accept guard and payload) in the canonical term domain."""
import re
import interp,prims,bdd
import terms as T
from terms import *
from bdd import land,lor,neg,constrain
from sat import sat
import unify
OPT='core::option::Option'; RES='core::result::Result'
class Sum: pass
def params(w,b,names=None):
    st={}; args=[]
    for i in range(b.argc):
        ty=w.ty(b.crate,b.locals[i+1][0]); n=names[i] if names and i<len(names) else 'p%d'%i
        v=Sym(n)
        if ty[0]=='mutref': st[(0,i+1)]=v; v=interp.mkref(((0,i+1),()))
        args.append(v)
    return args,st
def summary(w,path,cuts=(),names=None,args=None,st=None,opts=None):
    b=w.bodies[path]; ip=interp.Interp(w,cuts)
    import prims
    prims.SATOP[0]=(opts or {}).get('satop',False); prims.EFFECTS[:]=(opts or {}).get('effects',()); prims.WORLD[:]=(opts or {}).get('world',())
    for k,v in (opts or {}).items(): setattr(ip,k,v)
    T.PC[0]=1; T.SPAN[0]=None
    if args is None: args,st=params(w,b,names)
    p,v,s=ip.call_body(b,{g:('param','S' if g=='Self' else g) for g in b.generics},args,1,dict(st or {}))
    r=Sum(); r.ip=ip; r.path=path; r.rty=w.ty(b.crate,b.locals[0][0]); r.args=args; r.st0=st
    while NODES[v][0]=='agg' and NODES[v][1][0].startswith('coroutine:'):      # an async fn: run to completion
        cb=w.bodies[NODES[v][1][0][10:]]; p,v,s=ip.run_future(v,None,p,s,None); r.rty=w.ty(cb.crate,cb.locals[0][0])
    r.pc=p; r.val=v; r.st=s; r.panics=ip.panics
    rt=r.rty
    if rt==('prim','bool'): r.accept=land(p,tobdd(v)); r.payload=UNIT
    elif rt[0]=='adt' and rt[1]==OPT: r.accept=land(p,isv(v,OPT,1)); r.payload=fld(v,'0','Some')
    elif rt[0]=='adt' and rt[1]==RES: r.accept=land(p,isv(v,RES,0)); r.payload=fld(v,'0','Ok')
    else: r.accept=p; r.payload=v
    T.PC[0]=r.accept; r.payload=embed(r.payload); T.PC[0]=1
    return r
def equiv_b(f,g):
    """f == g modulo the comparison theory"""
    if f==g or not sat(bdd.xor(f,g)): return True
    unify.reset()
    if unify.beq(f,g): return True
    p,q=settle(f),settle(g)
    if (p,q)!=(f,g) and (p==q or not sat(bdd.xor(p,q)) or (unify.reset() or unify.beq(p,q))): return True
    return split(f,g)
def fixed(f):
    """{length term: constant} for the lengths that f fixes"""
    m={}
    for v,pol in (bdd.literals(f) if f>1 else []):
        a=NODES[VAR_ATOM[v]]
        if pol and a[0]=='op' and a[1]=='eq':
            x,y=a[2]
            if isint(x): x,y=y,x
            if isint(y) and opis(x,'len'): m[x]=y
    return m
def settle(f):
    """f with the lengths it fixes replaced by their values"""
    m=fixed(f)
    for x,y in m.items():
        e=eq(x,y); f=land(e,NODES[replace(Bool(constrain(f,e)),{x:y})][3][0]) if f>1 else f
    return f
def split(f,g):
    """f == g decided separately for each empty-or-not case that only one of them tests"""
    for v in sorted(bdd.support(f)^bdd.support(g)):
        a=NODES[VAR_ATOM[v]]
        if not(a[0]=='op' and a[1]=='eq'): continue
        x,y=a[2]
        if isint(x): x,y=y,x
        if not(isint(y) and ival(y)==0 and opis(x,'len') and NODES[kids(x)[0]][0]!='fin'): continue
        p=bdd.var(v); m={kids(x)[0]:arr(())}; at=lambda b: NODES[replace(Bool(b),m)][3][0] if b>1 else b
        if equiv_b(at(constrain(f,p)),at(constrain(g,p))): return equiv_b(land(f,neg(p)),land(g,neg(p))) or equiv_b(constrain(f,neg(p)),constrain(g,neg(p)))
    return False
def under(care,t):
    T.PC[0]=care; r=embed(t); T.PC[0]=1; return r
def diff_fields(a,b,care,path=''):
    """List of (path, code term, spec term) where two values differ under care"""
    if a==b: return []
    na,nb=NODES[a],NODES[b]
    if na[0]=='agg' and nb[0]=='agg':
        ma,mb=na[1],nb[1]
        if ma[1]==mb[1] and len(na[2])==len(nb[2]):
            out=[]
            if ma[2] and mb[2] and set(ma[2])==set(mb[2]) :
                for n in ma[2]: out+=diff_fields(fld(a,n),fld(b,n),care,path+'.'+n)
                return out
            for i,(x,y) in enumerate(zip(na[2],nb[2])): out+=diff_fields(x,y,care,path+'.%d'%i)
            return out
    e=eq(a,b)
    if e==1 or not sat(land(care,neg(e))): return []
    if na[0]=='phi' or nb[0]=='phi':
        bad=[]
        for g,x in leaves(a):
            for h,y in leaves(b):
                c=land(care,land(g,h))
                if c!=0 and sat(c): bad+=diff_fields(under(c,x),under(c,y),c,path)
        return bad
    unify.reset()
    if unify.teq(a,b,care): return []
    m=fixed(care)
    if m:
        x,y=replace(a,m),replace(b,m); unify.reset()
        if x==y or unify.teq(x,y,care): return []
    return [(path,a,b,care)]
def subterms(roots):
    seen=set(); st=list(roots)
    while st:
        t=st.pop()
        if t in seen: continue
        seen.add(t); k,m,ks,bs=NODES[t]; st+=ks
        for b in bs: st+=[VAR_ATOM[v] for v in bdd.support(b)]
    return seen
def roots_b(b): return [VAR_ATOM[v] for v in bdd.support(b)] if b>1 else []
def blame(code,spec,repo='/repo'):
    """source spans of the sub-terms of `code` that have no counterpart in `spec`"""
    s=subterms(spec); sp={}
    for t in subterms(code)-s:
        o=ORIGIN.get(t)
        if o and o.startswith(repo): sp.setdefault(o,t)
    return sp
def tdiff(a,b,seen=None,path='',out=None,lim=4):
    """first structural differences of two terms (for diagnosis)"""
    if out is None: out=[]
    if seen is None: seen=set()
    if a==b or (a,b) in seen or len(out)>=lim: return out
    seen.add((a,b)); na,nb=NODES[a],NODES[b]
    if na[0]!=nb[0] or na[1]!=nb[1] or len(na[2])!=len(nb[2]) or len(na[3])!=len(nb[3]): out.append((path,a,b)); return out
    n=len(out)
    for i,(x,y) in enumerate(zip(na[2],nb[2])): tdiff(x,y,seen,path+'/%d'%i,out,lim)
    for i,(x,y) in enumerate(zip(na[3],nb[3])): bdiff(x,y,seen,path+'/g%d'%i,out,lim)
    if len(out)==n: out.append((path+'?',a,b))
    return out
def bdiff(f,g,seen=None,path='',out=None,lim=4):
    if out is None: out=[]
    if seen is None: seen=set()
    if f==g or len(out)>=lim: return out
    sf,sg=roots_b(f),roots_b(g); onlyf=[x for x in sf if x not in sg]; onlyg=[x for x in sg if x not in sf]
    if len(onlyf)==len(onlyg) and onlyf:
        key=lambda x: (NODES[x][0],repr(NODES[x][1]),len(NODES[x][2]))
        onlyf.sort(key=key); onlyg.sort(key=key)
        for x,y in zip(onlyf,onlyg): tdiff(x,y,seen,path+'~',out,lim)
    else:
        # differing atoms only (the shared literals are dropped)
        lf,lg=(dict(bdd.literals(x)) if x>1 else {} for x in(f,g)); com={v:p for v,p in lf.items() if lg.get(v)==p}
        for v,p in com.items(): l=bdd.var(v) if p else neg(bdd.var(v)); f,g=constrain(f,l),constrain(g,l)
        out.append((path+'!',Bool(f),Bool(g)))
    return out
