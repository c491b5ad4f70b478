"""Sweeping: loop terms of the reference that are provably equal to loop terms of the code are replaced by them, innermost first, so that
everything built on top of them is compared in one vocabulary. Equalities are unconditional, or hold under conditions that both accept."""
import bdd,unify
import terms as T
from terms import *
from bdd import land,neg
def replace(roots,m):
    """substitute closed terms in a list of terms"""
    occ={}; memo={}; am={}; bm={}
    def sup(b): return [VAR_ATOM[v] for v in bdd.support(b)] if b>1 else []
    def has(t):
        r=occ.get(t)
        if r is None:
            n=NODES[t]
            r=occ[t]=t in m or any(has(x) for x in n[2]) or any(has(x) for b in n[3] for x in sup(b))
        return r
    def go(t):
        if not has(t): return t
        r=memo.get(t)
        if r is not None: return r
        if t in m: r=m[t]
        else:
            k,mt,ks,bs=NODES[t]
            if k in('fin','forall'):
                E,sys,mm=T._open(t); sys=[(v,go(i),go(n)) for v,i,n in sys]; E=gob(E)
                r=T.close(E,sys,sys[mt[1]][0]) if k=='fin' else Bool(T.forall(E,sys,gob(T.subst_b(bs[1],mm))))
            else: r=T.rebuild(t,tuple(go(x) for x in ks),tuple(gob(b) for b in bs))
        memo[t]=r
        return r
    def gob(b):
        if not any(has(x) for x in sup(b)): return b
        return bdd.compose(b,gatom,bm)
    def gatom(v):
        r=am.get(v)
        if r is None:
            a=VAR_ATOM[v]; r=am[v]=tobdd(go(a)) if has(a) else bdd.var(v)
        return r
    old=T.PC[0]; T.PC[0]=1
    try: return [go(t) for t in roots]
    finally: T.PC[0]=old
def loops_of(roots):
    """closed loop terms below the roots, innermost first"""
    out=set(); seen=set(); st=list(roots)
    while st:
        t=st.pop()
        if t in seen: continue
        seen.add(t); k,mt,ks,bs=NODES[t]
        if k in('fin','forall') and not FV[t]: out.add(t)
        st+=ks
        for b in bs: st+=[VAR_ATOM[v] for v in bdd.support(b)] if b>1 else []
    return sorted(out,key=lambda t:(HT[t],t))
def like(a,b):
    """how promising it is that b equals a (smaller is better), None if hopeless"""
    na,nb=NODES[a],NODES[b]
    if na[0]!=nb[0]: return None
    ia,ib=set(na[2][:len(na[2])//2]),set(nb[2][:len(nb[2])//2])
    if not(ia&ib): return None
    return (HT[a]!=HT[b],abs(len(na[2])-len(nb[2])),len(ia^ib))
def run(ra,rb,care=lambda a,b:1,tries=6,rounds=60):
    """-> rb with loop terms rewritten to those of ra"""
    failed=set()
    for _ in range(rounds):
        la,lb=loops_of(ra),loops_of(rb); sa,sb=set(la),set(lb); onlya=[t for t in la if t not in sb]; hit=None
        if not onlya: break
        c=care(ra,rb)
        for t in lb:
            if t in sa: continue
            cs=sorted((k,x) for k,x in((like(t,x),x) for x in onlya) if k is not None)[:tries]
            for _,x in cs:
                if (t,x,c) in failed: continue
                unify.reset(); r=unify.teq(x,t,c)
                if r: hit=(t,x); break
                failed.add((t,x,c))
            if hit: break
        if not hit: break
        rb=replace(rb,{hit[0]:hit[1]})
    return rb
def shared(f,g):
    """conjunction of the literals that both conditions imply"""
    if f<=1 or g<=1: return 1
    lf,lg=dict(bdd.literals(f)),dict(bdd.literals(g)); r=1
    for v,p in lf.items():
        if lg.get(v)==p: r=land(r,bdd.var(v) if p else neg(bdd.var(v)))
    return r
def align(A,B,total=False):
    """rewrite the summary B in the vocabulary of A"""
    ks=[k for k in B.st if k[0]!='!']; ra=[Bool(A.accept),A.payload,Bool(A.pc)]; rb=[Bool(B.accept),B.payload,Bool(B.pc)]
    rb=run(ra,rb)
    B.accept,B.payload,B.pc=tobdd(rb[0]),rb[1],tobdd(rb[2])
    care=lambda a,b: shared(tobdd(a[0]),tobdd(b[0]))
    rb=run(ra[:2],[Bool(B.accept),B.payload],care)
    B.accept,B.payload=tobdd(rb[0]),rb[1]
