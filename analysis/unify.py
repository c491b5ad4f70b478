"""Equality and implication of loop terms by lockstep induction (bisimulation): two loops whose variables can be paired so that the
initial values agree and, assuming the pairs agree, exit tests, next values and per-iteration predicates agree."""
import bdd,itertools
from bdd import land,neg,lor
import terms as T
from terms import *
import sat as S
_m={}; DEPTH=[0]; BUD=[0]; MAXD=7
def reset(n=4000): BUD[0]=n
def interesting(v):
    return NODES[VAR_ATOM[v]][0]=='forall' or HT[VAR_ATOM[v]]>0
def beq(f,g,care=1):
    if f==g: return True
    if BUD[0]<=0: return False
    BUD[0]-=1
    k=('b',f,g,care); r=_m.get(k)
    if r is not None: return r
    _m[k]=False
    r=_beq(f,g,care); _m[k]=r
    return r
def _beq(f,g,care):
    if not S.sat(land(care,bdd.xor(f,g))): return True
    f,g=same_atoms(f,g,care)
    if not S.sat(land(care,bdd.xor(f,g))): return True
    return merged(f,g,care)
def merged(f,g,care):
    """compare after conjoining the forall atoms that each side implies and that range over the same loop"""
    f2,g2=merge_foralls(f),merge_foralls(g)
    if (f2,g2)==(f,g): return False
    f2,g2=same_atoms(f2,g2,care); return not S.sat(land(care,bdd.xor(f2,g2)))
def embeddings(t,big):
    """maps from the loop variables of t to those of big under which t is the same loop (E and next values agree)"""
    h,it,xt,bt=parts(t); H,ib,xb,bb=parts(big); Et,Eb=bt[0],bb[0]; n=0
    if len(it)>len(ib): return
    for p in itertools.permutations(range(len(ib)),len(it)):
        if any(it[i]!=ib[p[i]] for i in range(len(it))): continue
        n+=1
        if n>60: return
        mm={raw('b',(h,i)):raw('b',(H,p[i])) for i in range(len(it))}
        if subst_b(Et,mm)!=Eb: continue
        if all(subst(xt[i],mm)==xb[p[i]] for i in range(len(it))): yield mm
def merge_foralls(f):
    vs=[v for v,pol in bdd.literals(f) if pol and NODES[VAR_ATOM[v]][0]=='forall'] if f>1 else []
    if len(vs)<2: return f
    vs.sort(key=lambda v: -len(parts(VAR_ATOM[v])[1])); done=set()
    for v in vs:
        if v in done: continue
        big=VAR_ATOM[v]; P=NODES[big][3][1]; grp=[v]
        for w in vs:
            if w==v or w in done: continue
            mm=next(embeddings(VAR_ATOM[w],big),None)
            if mm is None: continue
            P=land(P,subst_b(NODES[VAR_ATOM[w]][3][1],mm)); grp.append(w)
        if len(grp)<2: continue
        done|=set(grp); k,m,ks,bs=NODES[big]
        a=atom(raw('forall',m,ks,(bs[0],P)))
        for w in grp: f=bdd.constrain(f,bdd.var(w))
        f=land(f,a)
    return f
def same_atoms(f,g,care=1):
    sf,sg=bdd.support(f),bdd.support(g)
    only=[v for v in sorted(sf^sg) if interesting(v)]
    reps=[]; m={}
    for v in only:
        for r in reps:
            if (v in sf)!=(r in sf) and teq(VAR_ATOM[v],VAR_ATOM[r]): m[v]=r; break
        else: reps.append(v)
    if m:
        ren=lambda v: bdd.var(m.get(v,v))
        f,g=bdd.compose(f,ren),bdd.compose(g,ren)
    return f,g
def teq(a,b,care=1):
    if a==b: return True
    if BUD[0]<=0 or DEPTH[0]>40: return False
    k=('t',a,b,care) if a<b else ('t',b,a,care)
    r=_m.get(k)
    if r is not None: return r
    _m[k]=False; DEPTH[0]+=1; BUD[0]-=1
    try: r=_teq(a,b,care)
    finally: DEPTH[0]-=1
    if r or BUD[0]>0: _m[k]=r
    else: _m.pop(k,None)
    return r
def _teq(a,b,care):
    na,nb=NODES[a],NODES[b]
    if na[0]=='phi' or nb[0]=='phi':
        la,lb=leaves(a),leaves(b)
        if na[0]==nb[0]=='phi' :
            for h,_ in lb: la=[(same_atoms(g,h)[0],x) for g,x in la]
            for g,_ in la: lb=[(same_atoms(h,g)[0],y) for h,y in lb]
        for g,x in la:
            for h,y in lb:
                c=land(care,land(g,h))
                if c and not teq_leaf(x,y,c): return False
        return True
    return teq_leaf(a,b,care,False)
def teq_leaf(a,b,care,check=True):
    if a==b: return True
    if check and not S.sat(care): return True
    if care!=1 and check:
        T.PC[0]=care
        try: a,b=embed(a),embed(b)
        finally: T.PC[0]=1
        if a==b: return True
    na,nb=NODES[a],NODES[b]
    if na[0]=='phi' or nb[0]=='phi': return teq(a,b,care)
    if na[0]=='bool' and nb[0]=='bool': return beq(na[3][0],nb[3][0],care)
    if na[0]==nb[0] and na[0] in('fin','forall'): return loops(a,b,care=care)
    if na[0]==nb[0] and len(na[2])==len(nb[2]) and len(na[3])==len(nb[3]) and (na[1]==nb[1] or na[0]=='agg' and na[1][1:]==nb[1][1:]):
        comm=na[0]=='lin' or na[0]=='op' and (na[1]=='eq' or isinstance(na[1],tuple) and na[1][0] in('mul','bitand','bitor','bitxor') or na[1]=='sunion')
        ka,kb=na[2],nb[2]
        if all(beq(x,y) for x,y in zip(na[3],nb[3])):
            if all(teq(x,y,care) for x,y in zip(ka,kb)): return True
            if comm and len(ka)<=4:
                for p in itertools.permutations(range(len(kb))):
                    if na[0]=='lin' and any(na[1][2][i]!=nb[1][2][p[i]] for i in range(len(p))): continue
                    if all(teq(ka[i],kb[p[i]],care) for i in range(len(p))): return True
    if na[0]=='lin' and nb[0]=='lin' and na[1][:2]==nb[1][:2] and sorted(na[1][2])==sorted(nb[1][2]) and len(na[2])<=4:
        for p in itertools.permutations(range(len(nb[2]))):
            if all(na[1][2][i]==nb[1][2][p[i]] and teq(na[2][i],nb[2][p[i]],care) for i in range(len(p))): return True
    if num_like(a) and num_like(b):
        e=eq(a,b)
        if e and not S.sat(land(care,neg(e))): return True
    return False
def num_like(t): return NODES[t][0] in('int','lin','op','fld','sym','mu','b','fin')
def parts(t):
    k,mt,ks,bs=NODES[t]; return mt[0],list(ks[:len(ks)//2]),list(ks[len(ks)//2:]),bs
def pairings(n1,n2,ok):
    """injective pairings of the variables, largest first"""
    m=min(n1,n2)
    for k in range(m,0,-1):
        for s in itertools.combinations(range(n1),k):
            for p in itertools.permutations(range(n2),k):
                if all(ok(i,j) for i,j in zip(s,p)): yield list(zip(s,p))
        if k<m-1: return
def opened(t,ms):
    h,_,nx,bs=parts(t); mm={raw('b',(h,i)):m for i,m in enumerate(ms)}
    return [subst(x,mm) for x in nx],[subst_b(b,mm) for b in bs]
def local(care):
    """the literals of `care` about variables of the loops around"""
    r=1
    for v,pol in (bdd.literals(care) if care>1 else ()):
        if FV[VAR_ATOM[v]]: r=land(r,bdd.var(v) if pol else neg(bdd.var(v)))
    return r
def held(t,care):
    """what `care` says about every iteration of the loop of t: the predicates of forall atoms that range over the same loop"""
    if care<=1: return []
    out=[]
    for v,pol in bdd.literals(care):
        x=VAR_ATOM[v]
        if not pol or NODES[x][0]!='forall': continue
        mm=next(embeddings(x,t),None)
        if mm is not None: out.append(subst_b(NODES[x][3][1],mm))
    return out
def loops(a,b,rel=None,care=1):
    """a == b (rel None) or, for forall terms, a implies b (rel 'imp')"""
    fa=held(a,care) if NODES[a][0]=='fin' else []; fb=held(b,care) if NODES[b][0]=='fin' else []
    ha,ia,xa,_=parts(a); hb,ib,xb,_=parts(b)
    if len(ia)>5 or len(ib)>5 or BUD[0]<=0: return False
    fin=NODES[a][0]=='fin'; ta,tb=(NODES[a][1][1],NODES[b][1][1]) if fin else (None,None)
    n=0; out=local(care)
    for pr in pairings(len(ia),len(ib),lambda i,j: (not fin or (i==ta)==(j==tb)) and teq(ia[i],ib[j])):
        if fin and (ta,tb) not in pr: continue
        n+=1
        if n>24: break
        ma=[fresh_mu() for _ in ia]; mb=[None]*len(ib)
        for i,j in pr: mb[j]=ma[i]
        for j in range(len(ib)):
            if mb[j] is None: mb[j]=fresh_mu()
        na,ba=opened(a,ma); nb,bb=opened(b,mb)
        if rel is None:
            if not beq(ba[0],bb[0],out): continue
            care=land(neg(ba[0]),out)
            for t,f,ms in((a,fa,ma),(b,fb,mb)):
                mm={raw('b',(parts(t)[0],i)):m for i,m in enumerate(ms)}
                for p in f: care=land(care,subst_b(p,mm))
            if not fin and not beq(ba[1],bb[1],care): continue
            if not fin: care=land(care,ba[1])
            if all(teq(na[i],nb[j],care) for i,j in pr): return True
        else:
            # while loop b has not exited, a has not either, they step alike, and a's predicate implies b's
            c=neg(bb[0])
            if S.sat(land(ba[0],c)): continue
            f,g=same_atoms(ba[1],bb[1])
            if S.sat(land(c,land(f,neg(g)))): continue
            if all(teq(na[i],nb[j],land(c,ba[1])) for i,j in pr): return True
    return False
_fi={}
def fimp(v,w):
    """forall atom v implies forall atom w"""
    r=_fi.get((v,w))
    if r is None:
        a,b=VAR_ATOM[v],VAR_ATOM[w]; _fi[v,w]=False
        _,i1,x1,_=parts(a); _,i2,x2,_=parts(b)
        r=len(set(i1)&set(i2))>0 and loops(a,b,'imp'); _fi[v,w]=r
    return r
def forall_theory(f):
    vs=[v for v in sorted(bdd.support(f)) if NODES[VAR_ATOM[v]][0]=='forall']
    if not 2<=len(vs)<=10: return 1
    r=1
    for v in vs:
        for w in vs:
            if v!=w and fimp(v,w): r=land(r,lor(neg(bdd.var(v)),bdd.var(w)))
    return r

_ex={}
def exit_facts(t):
    """literals of the exit condition of a loop, at the loop's result"""
    r=_ex.get(t)
    if r is None:
        _ex[t]=()
        E,sys,mm=T._open(t); m={v:T.close(E,sys,v) for v in bdd_fv(E) if any(v==x for x,_,_ in sys)}
        e=subst_b(E,m); r=1
        for v,pol in (bdd.literals(e) if e>1 else ()): r=land(r,bdd.var(v) if pol else neg(bdd.var(v)))
        _ex[t]=r
    return r if r!=() else 1
def fins_of(f):
    out=set()
    for v in bdd.support(f):
        st=[VAR_ATOM[v]]
        while st:
            n=NODES[st[-1]]; t=st.pop()
            if n[0]=='fin': out.add(t)
            elif n[0] in('op','lin','fld') and n[1]!='loop': st+=n[2]
    return out
def exit_theory(f):
    r=1
    for t in sorted(fins_of(f))[:8]: r=land(r,exit_facts(t))
    return r
