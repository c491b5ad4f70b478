"""Numeric and congruence domain over guards: is there an assignment of the atoms of a BDD that is consistent with integer order,
wrap-around arithmetic and equality of terms? Used to compare two acceptance conditions whose atoms differ."""
import bdd,math
from bdd import land,neg
import terms as T
from terms import *
W64=1<<64
LIMIT=6000
class Budget(Exception): pass
def rng(t):
    n=NODES[t]
    if n[0]=='op' and isinstance(n[1],tuple) and n[1][0] in('mul','pow','shl'): return 1<<n[1][1]
    if n[0]=='lin': return 1<<n[1][0]
    if n[0]=='op' and isinstance(n[1],tuple) and n[1][0]=='trunc': return 1<<n[1][1]
    return W64
_fmemo={}
def fm(cons,eqs):
    """feasibility, decided per connected component of the constraint graph"""
    p={}
    def find(x):
        while p.setdefault(x,x)!=x: p[x]=p[p[x]]; x=p[x]
        return x
    for d,c in list(cons)+list(eqs):
        k=[v for v,q in d.items() if q]
        for v in k[1:]: p[find(v)]=find(k[0])
    comp={}
    for i,l in enumerate((cons,eqs)):
        for d,c in l:
            k=next((v for v,q in d.items() if q),None)
            if k is None:
                if c>0 or (i and c): return False
                continue
            comp.setdefault(find(k),([],[]))[i].append((d,c))
    for a,b in comp.values():
        key=(frozenset((frozenset(d.items()),c) for d,c in a),frozenset((frozenset(d.items()),c) for d,c in b))
        r=_fmemo.get(key)
        if r is None: r=_fmemo[key]=_fm(a,b)
        if not r: return False
    return True
def _fm(cons,eqs):
    """rational feasibility (with integer tightening) of {sum <= 0} and {sum == 0}; constraints are ({var:coef},const)"""
    cons=[(dict(d),c) for d,c in cons]; eqs=[(dict(d),c) for d,c in eqs]
    while eqs:
        d,c=eqs.pop(); d={v:k for v,k in d.items() if k}
        if not d:
            if c: return False
            continue
        g=0
        for k in d.values(): g=math.gcd(g,k)
        if c%g: return False
        d={v:k//g for v,k in d.items()}; c//=g
        u=next((v for v,k in d.items() if abs(k)==1),None)
        if u is None:
            cons+= [(d,c),({v:-k for v,k in d.items()},-c)]; continue
        k=d.pop(u)   # k*u + d + c = 0  ->  u = -k*(d+c)
        def sub(e):
            f,cc=e
            q=f.get(u,0)
            if not q: return e
            f=dict(f); del f[u]
            for v,x in d.items(): f[v]=f.get(v,0)-q*k*x
            return ({v:x for v,x in f.items() if x},cc-q*k*c)
        cons=[sub(e) for e in cons]; eqs=[sub(e) for e in eqs]
    def tight(l):
        out={}
        for d,c in l:
            d={v:k for v,k in d.items() if k}
            if not d:
                if c>0: return None
                continue
            g=0
            for k in d.values(): g=math.gcd(g,k)
            d=tuple(sorted((v,k//g) for v,k in d.items())); c=-((-c)//g)
            if c>out.get(d,-1<<200): out[d]=c
        for d,c in out.items():
            m=tuple((v,-k) for v,k in d)
            if m in out and out[m]+c>0: return None
        return [(dict(d),c) for d,c in out.items()]
    cons=tight(cons)
    while cons:
        vs={}
        for d,_ in cons:
            for v,k in d.items(): p=vs.setdefault(v,[0,0]); p[k>0]+=1
        u=min(vs,key=lambda v: vs[v][0]*vs[v][1]-vs[v][0]-vs[v][1])
        if vs[u][0]*vs[u][1]>2500: return True
        up=[e for e in cons if e[0].get(u,0)>0]; lo=[e for e in cons if e[0].get(u,0)<0]; new=[e for e in cons if not e[0].get(u)]
        for d,c in up:
            a=d[u]
            for f,e in lo:
                b=-f[u]; h={v:b*k for v,k in d.items() if v!=u}
                for v,k in f.items():
                    if v!=u: h[v]=h.get(v,0)+a*k
                new.append((h,b*c+a*e))
        cons=tight(new)
    return cons is not None
class CC:
    """congruence closure over the terms of the literals"""
    def __init__(self,lits):
        self.p={}; uni=set(); st=[]; self.bad=False
        for v,b in lits: st.append(VAR_ATOM[v])
        while st:
            t=st.pop()
            if t in uni: continue
            uni.add(t); n=NODES[t]
            if n[0] in('op','lin','fld'): st+=n[2]
        self.uni=uni
        self.sig={}
        for v,b in lits:
            n=NODES[VAR_ATOM[v]]
            if b and n[0]=='op' and n[1]=='eq': self.union(*n[2])
        ch=True
        while ch and not self.bad:
            ch=False; sig={}
            for t in uni:
                n=NODES[t]
                if n[0]=='fld':
                    r=self.find(n[2][0])
                    if r!=n[2][0] and NODES[r][0]=='agg':
                        o=T.fld(r,n[1][1],n[1][0])
                        if self.find(o)!=self.find(t): self.union(o,t); ch=True
                if n[0] in('op','fld') and n[2] and not n[3]:
                    k=(n[0],n[1],tuple(self.find(x) for x in n[2]))
                    o=sig.get(k)
                    if o is None: sig[k]=t
                    elif self.find(o)!=self.find(t): self.union(o,t); ch=True
        pol={}
        for v,b in lits:
            t=VAR_ATOM[v]; n=NODES[t]
            if n[0]=='op' and n[1]=='eq':
                if not b and (self.find(n[2][0])==self.find(n[2][1]) or self.samelist(*n[2])): self.bad=True
                continue
            r=self.find(t)
            if pol.setdefault(r,b)!=b: self.bad=True
    def samelist(self,x,y):
        """sequences of a known length are equal when all their elements are"""
        n=length(x) if NODES[x][0] in('op','fld','sym') else None
        if n is None or not isint(n): n=length(y) if NODES[y][0] in('op','fld','sym') else None
        if n is None or not isint(n) or not 0<ival(n)<=64: return False
        return all(self.find(T.index(x,Int(i)))==self.find(T.index(y,Int(i))) for i in range(ival(n)))
    def find(self,t):
        p=self.p
        while p.get(t,t)!=t: t=p[t]
        return t
    def union(self,a,b):
        a,b=self.find(a),self.find(b)
        if a==b: return
        ka,kb=NODES[a][0],NODES[b][0]
        con=('int','str','bytes')
        if ka in con and kb in con: self.bad=True; return
        if ka=='agg' and kb=='agg':
            if NODES[a][1]!=NODES[b][1] or len(NODES[a][2])!=len(NODES[b][2]): self.bad=True; return
            self.p[a]=b
            for x,y in zip(NODES[a][2],NODES[b][2]): self.union(x,y)
            return
        if ka in con or ka=='agg': a,b=b,a
        self.p[a]=b
def num(t):
    return NODES[t][0] in('int','lin','sym','op','fld','b','mu','fin')
class Search:
    def __init__(self): self.n=0; self.memo={}
    def consistent(self,lits,wr):
        """lits: tuple of (var,bool); wr: {lin term: wraps}"""
        key=(frozenset(lits),tuple(sorted(wr.items())))
        r=self.memo.get(key)
        if r is not None: return r
        self.n+=1
        if self.n>LIMIT: raise Budget()
        r=self._cons(lits,wr); self.memo[key]=r
        return r
    def _cons(self,lits,wr):
        cc=CC(lits)
        if cc.bad: return False
        cons=[]; eqs=[]; seen=set(); dis=[]
        def expr(t):
            r=cc.find(t); n=NODES[t]
            if NODES[r][0]=='int': 
                d,c=({},NODES[r][1])
            else: d,c=({r:1},0)
            if t not in seen:
                seen.add(t)
                if r not in seen: seen.add(r)
                if d: cons.append(({r:-1},0)); cons.append(({r:1},-(rng(t)-1)))
                if n[0]=='lin' and t in wr:
                    w,c0,co=n[1]; M=1<<w; e={}; k0=c0 if c0<M//2 else c0-M
                    for x,k in zip(n[2],co):
                        k=k if k<M//2 else k-M; dx,cx=expr(x); k0+=k*cx
                        for v,q in dx.items(): e[v]=e.get(v,0)+k*q
                    # t = e + k0 - m*M
                    for v,q in d.items(): e[v]=e.get(v,0)-q
                    eqs.append((e,k0-c-wr[t]*M))
                if n[0]=='op' and n[1] in('min','max') and t in wr:
                    p,q=n[2] if not wr[t] else n[2][::-1]      # t = p
                    (dp,cp),(dq,cq)=expr(p),expr(q)
                    def dif(x,cx,y,cy):
                        e=dict(x)
                        for v,k in y.items(): e[v]=e.get(v,0)-k
                        return e,cx-cy
                    eqs.append(dif(d,c,dp,cp)); cons.append(dif(dq,cq,dp,cp) if n[1]=='max' else dif(dp,cp,dq,cq))
                if n[0]=='op' and n[1]=='udiv' and isint(n[2][1]) and ival(n[2][1]):
                    k=ival(n[2][1]); dn,cn=expr(n[2][0])
                    e={v:-q for v,q in dn.items()}
                    for v,q in d.items(): e[v]=e.get(v,0)+k*q
                    cons.append((dict(e),k*c-cn)); cons.append(({v:-q for v,q in e.items()},cn-k*c-(k-1)))
                if n[0]=='op' and n[1]=='urem' and isint(n[2][1]) and ival(n[2][1]):
                    k=ival(n[2][1]); cons.append((dict(d),c-(k-1))); dn,cn=expr(n[2][0]); e=dict(d)
                    for v,q in dn.items(): e[v]=e.get(v,0)-q
                    cons.append((e,c-cn))
            return d,c
        def le(a,b,k):   # a - b + k <= 0
            (da,ca),(db,cb)=expr(a),expr(b); e=dict(da)
            for v,q in db.items(): e[v]=e.get(v,0)-q
            return e,ca-cb+k
        for v,b in lits:
            n=NODES[VAR_ATOM[v]]
            if n[0]!='op' or n[1] not in('lt','eq'): continue
            x,y=n[2]
            if n[1]=='lt': cons.append(le(x,y,1) if b else le(y,x,0))
            elif num(x) and num(y):
                if b: eqs.append(le(x,y,0))
                else: dis.append((x,y))
        for t in cc.uni:
            if NODES[t][0]=='lin' or (NODES[t][0]=='op' and NODES[t][1] in('udiv','urem','min','max')): expr(t)
        if not fm(cons,eqs): return False
        dis=[(x,y) for x,y in dis if not(NODES[cc.find(x)][0] not in('int','lin') and NODES[cc.find(y)][0] not in('int','lin') and not any(cc.find(z) in q[0] for z in(x,y) for q in cons+eqs))]
        ch=True
        while ch and dis:
            ch=False
            for e in list(dis):
                x,y=e; lo=fm(cons+[le(x,y,1)],eqs); hi=fm(cons+[le(y,x,1)],eqs)
                if not lo and not hi: return False
                if lo and hi: continue
                cons.append(le(x,y,1) if lo else le(y,x,1)); dis.remove(e); ch=True
        return True
    def lins(self,t,out):
        n=NODES[t]
        if (n[0]=='lin' or n[0]=='op' and n[1] in('min','max')) and t not in out: out.append(t)
        if n[0] in('lin','op') :
            for x in n[2]: self.lins(x,out)
        return out
    def wraps(self,t):
        if NODES[t][0]=='op': return [0,1]
        w,c0,co=NODES[t][1]; M=1<<w; lo=hi=c0 if c0<M//2 else c0-M
        for x,k in zip(NODES[t][2],co):
            k=k if k<M//2 else k-M; r=(ival(x)+1 if isint(x) else rng(x))-1
            lo+=min(0,k*r); hi+=max(0,k*r)
        a,b=lo//M,hi//M
        return list(range(a,b+1)) if b-a<6 else None
    def go(self,f,lits,wr):
        if f==0: return False
        if f==1: return True
        v=bdd.VAR[f]; t=VAR_ATOM[v]; n=NODES[t]
        num_=n[0]=='op' and n[1] in('lt','eq')
        new=[]
        if num_:
            for x in n[2]:
                for l in self.lins(x,[]):
                    if l not in wr and l not in new and self.wraps(l) is not None: new.append(l)
        for b,ch in ((True,bdd.HI[f]),(False,bdd.LO[f])):
            if ch==0: continue
            L=lits+((v,b),)
            def rec(i,wr2):
                if i==len(new):
                    return self.consistent(L,wr2) and self.go(ch,L,wr2)
                for m in self.wraps(new[i]):
                    if rec(i+1,dict(wr2,**{}) if 0 else {**wr2,new[i]:m}): return True
                return False
            if rec(0,wr): return True
        return False
_memo={}
def sat(f):
    """False only if f is unsatisfiable in the domain"""
    if f<=1: return f==1
    f=land(f,T.theory(f))
    if f<=1: return f==1
    import unify
    f=land(f,unify.forall_theory(f))
    if f<=1: return f==1
    g=f; f=land(f,unify.exit_theory(f))
    if f<=1: return f==1
    if f!=g:
        f=land(f,T.theory(f))
        if f<=1: return f==1
    r=_memo.get(f)
    if r is None:
        try: r=Search().go(f,(),{})
        except Budget: r=True
        _memo[f]=r
    return r
