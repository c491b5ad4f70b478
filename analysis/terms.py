"""Hash-consed value terms (global value numbering domain). Every abstract value is a term id; equal ids = provably equal values.
Conditions are BDDs over boolean atom terms. `phi` terms are gated joins. `fin` terms are loop results, `forall` terms are
"no iteration took an early exit" predicates; both are closed under bound loop variables and canonicalised (see close())."""
import bdd
from bdd import land,lor,neg,constrain
NODES=[]; _uniq={}; FV=[]; HT=[]
ATOM_VAR={}; VAR_ATOM=[]
EMPTY=frozenset()
PC=[1]          # current care set while a value is being embedded in an opaque term
_bddfv={}
def bdd_fv(b):
    if b<=1: return EMPTY
    r=_bddfv.get(b)
    if r is None:
        s=set()
        for v in bdd.support(b): s|=FV[VAR_ATOM[v]]
        r=frozenset(s); _bddfv[b]=r
    return r
_bddht={}
def bdd_ht(b):
    if b<=1: return 0
    r=_bddht.get(b)
    if r is None:
        r=max([HT[VAR_ATOM[v]] for v in bdd.support(b)] or [0]); _bddht[b]=r
    return r
ORIGIN={}       # term id -> source span of the construct that first produced it
SPAN=[None]
def raw(kind,meta=None,kids=(),bdds=()):
    k=(kind,meta,kids,bdds); r=_uniq.get(k)
    if r is not None: return r
    r=len(NODES); NODES.append(k); _uniq[k]=r
    if kind in('mu','b'): fv=frozenset((r,)); ht=meta[0] if kind=='b' else 0
    else:
        s=EMPTY; ht=0
        for x in kids:
            if FV[x]: s=s|FV[x]
            if HT[x]>ht: ht=HT[x]
        for b in bdds:
            f=bdd_fv(b)
            if f: s=s|f
            ht=max(ht,bdd_ht(b))
        if kind in('fin','forall'):
            h=meta[0]; s=frozenset(x for x in s if not(NODES[x][0]=='b' and NODES[x][1][0]==h)); ht=max(ht,h)
        fv=s
    FV.append(fv); HT.append(ht)
    if SPAN[0]: ORIGIN[r]=SPAN[0]
    return r
def kind(t): return NODES[t][0]
def meta(t): return NODES[t][1]
def kids(t): return NODES[t][2]
def bdds(t): return NODES[t][3]
def Int(v): return raw('int',v)
def Str(s): return raw('str',s)
def Sym(n): return raw('sym',n)
def Bool(b): return raw('bool',None,(),(b,))
TRUE=Bool(1); FALSE=Bool(0)
_mu=[0]
def fresh_mu(hint=''):
    _mu[0]+=1; return raw('mu',_mu[0])
def isint(t): return NODES[t][0]=='int'
def ival(t): return NODES[t][1]
# ---------------------------------------------------------------- atoms
FAM={}
def atom(t):
    """BDD variable standing for the boolean term t."""
    v=ATOM_VAR.get(t)
    if v is None:
        v=len(VAR_ATOM); VAR_ATOM.append(t); ATOM_VAR[t]=v
        n=NODES[t]
        if n[0]=='op' and n[1] in('lt','eq','slt'):
            for x in n[2]:
                if NODES[x][0]!='int': FAM.setdefault(x,[]).append(v)
    return bdd.var(v)
def tobdd(t):
    k,m,ks,bs=NODES[t]
    if k=='bool': return bs[0]
    if k=='int': return 1 if m else 0
    if k=='phi': return bdd.ors(land(g,tobdd(x)) for g,x in zip(bs,ks))
    return atom(t)
def _cons2(v,w):
    """Theory facts relating two comparison atoms (trichotomy, monotonicity in a constant)."""
    a,b=NODES[VAR_ATOM[v]],NODES[VAR_ATOM[w]]; x,y=bdd.var(v),bdd.var(w)
    (a0,a1),(b0,b1)=a[2],b[2]; na,nb=a[1],b[1]; out=1
    if na=='lt' and nb=='lt':
        if a0==b0 and isint(a1) and isint(b1):
            out=bdd.ite(x,y,1) if ival(a1)<=ival(b1) else bdd.ite(y,x,1)
        elif a0==b1 and a1==b0: out=neg(land(x,y))
    elif na=='eq' and nb=='eq':
        for p,q in((a0,a1),(a1,a0)):
            for r,s in((b0,b1),(b1,b0)):
                if p==r and isint(q) and isint(s) and q!=s: out=neg(land(x,y))
    else:
        if na=='eq': x,y,(a0,a1),(b0,b1)=y,x,(b0,b1),(a0,a1); na,nb=nb,na
        if na=='lt' and nb=='eq':   # x: lt(a0,a1); y: eq(b0,b1)
            if {a0,a1}=={b0,b1}:
                out=neg(land(x,y))
            else:
                for p,q in((b0,b1),(b1,b0)):
                    if p==a0 and isint(q) and isint(a1): out=bdd.ite(y,x if ival(q)<ival(a1) else neg(x),1)
    return out
_thc={}
def theory(f):
    sup=bdd.support(f); r=1
    if len(sup)<2: return 1
    key=sup; c=_thc.get(key)
    if c is not None and c[0]==len(VAR_ATOM): return c[1]
    seen=set()
    for v in sup:
        n=NODES[VAR_ATOM[v]]
        if n[0]=='op' and n[1] in('lt','eq'):
            for x in n[2]:
                for w in FAM.get(x,()):
                    if w!=v and w in sup and (min(v,w),max(v,w)) not in seen:
                        seen.add((min(v,w),max(v,w))); r=land(r,_cons2(v,w))
    # x < n/c  implies  c*x+j <= n without wrap-around, for 0 <= j <= c
    lts=[(v,NODES[VAR_ATOM[v]][2]) for v in sup if NODES[VAR_ATOM[v]][0]=='op' and NODES[VAR_ATOM[v]][1]=='lt']
    for v,(x,q) in lts:
        if not(opis(q,'udiv') and isint(kids(q)[1])): continue
        n,c=kids(q)[0],ival(kids(q)[1]); base=mklin(W,0,{x:c})
        for w,(a,b) in lts:
            if w==v: continue
            f=None
            ja=_off(a,base); jb=_off(b,base)
            if ja is not None and ja<=c and isint(b) and ival(b)<=ja: f=False
            elif ja is not None and ja<c and b==n: f=True
            elif jb is not None and jb<=c and a==n: f=False
            if f is not None: r=land(r,bdd.ite(bdd.var(v),bdd.var(w) if f else neg(bdd.var(w)),1))
    # n >= k and a <= n-k  implies  a <= n
    ats={NODES[VAR_ATOM[v]][2]:v for v,_ in lts}
    for v,(m,a) in lts:
        nm=NODES[m]
        if nm[0]=='lin' and nm[1][0]==W and nm[1][2]==(1,):
            n=nm[2][0]; k=(1<<W)-nm[1][1]; c=ats.get((n,Int(k))); A=ats.get((n,a))
            if k>0 and k<(1<<62) and c is not None and A is not None: r=land(r,neg(land(bdd.var(A),land(neg(bdd.var(v)),neg(bdd.var(c))))))
            # w < n/c implies n >= k, c*w <= n-k for k <= c
            for u,(x,q) in lts:
                if opis(q,'udiv') and isint(kids(q)[1]) and kids(q)[0]==n and ival(kids(q)[1])>=k and a==mklin(W,0,{x:ival(kids(q)[1])}): r=land(r,neg(land(bdd.var(u),bdd.var(v))))
    for u,(x,q) in lts:
        if opis(q,'udiv') and isint(kids(q)[1]):
            for w,(n,k) in lts:
                if n==kids(q)[0] and isint(k) and ival(k)<=ival(kids(q)[1]): r=land(r,neg(land(bdd.var(u),bdd.var(w))))
            # c*w <= n-c (and n >= c) implies w < n/c: a counter times c does not wrap
            c=ival(kids(q)[1])
            if NODES[x][0] in('b','mu'):
                for w,(m,a) in lts:
                    if a==mklin(W,0,{x:c}) and m==lincomb(W,-c,(kids(q)[0],1)):
                        k=ats.get((kids(q)[0],Int(c)))
                        r=land(r,lor(bdd.var(u),lor(bdd.var(w),bdd.var(k) if k is not None else 0)))
    _thc[key]=(len(VAR_ATOM),r)
    return r
_redc={}
def reduce_b(f):
    """drop comparison atoms that the theory makes redundant in f"""
    if f<=1: return f
    sup=bdd.support(f)
    if not 1<len(sup)<14: return f
    r=_redc.get(f)
    if r is not None and r[0]==len(VAR_ATOM): return r[1]
    g=f; al=set(sup)
    for v in sorted(sup,reverse=True):
        n=NODES[VAR_ATOM[v]]
        if not(n[0]=='op' and n[1] in('lt','eq')) or not any(w!=v and w in al for x in n[2] for w in FAM.get(x,())): continue
        x=bdd.var(v)
        for q in(constrain(g,x),constrain(g,neg(x))):
            if not feasible(bdd.xor(g,q)): g=q; al=set(bdd.support(g)); break
    _redc[f]=(len(VAR_ATOM),g)
    return g
def fits(a,k,n):
    """BDD: a + k <= n without wrap-around (k constant)"""
    if k==0: return neg(lt(n,a))
    if isint(a): return neg(lt(n,Int(ival(a)+k))) if ival(a)+k<(1<<W) else 0
    return land(neg(lt(n,Int(k))),neg(lt(lincomb(W,-k,(n,1)),a)))
def _off(t,base):
    """t == base + j -> j"""
    if t==base: return 0
    n=NODES[t]
    if n[0]=='lin' and n[1][0]==W:
        m=NODES[base]
        if m[0]=='lin' and m[1][0]==W and n[2]==m[2] and n[1][2]==m[1][2]: return n[1][1]-m[1][1]
        if n[2]==(base,) and n[1][2]==(1,): return n[1][1]
    return None
def feasible(f):
    if f<=1: return f==1
    return land(f,theory(f))!=0
def valid_under(pc,c):
    """Is c implied by pc (modulo the comparison theory)?"""
    return not feasible(land(pc,neg(c)))
# ---------------------------------------------------------------- embedding
_embc={}
def embed(t):
    """Normalise gates inside t against the current care set."""
    pc=PC[0]
    if pc==1: return t
    return _embed(t,pc)
def _embed(t,pc):
    k,m,ks,bs=NODES[t]
    if k not in('phi','agg','bool'): return t
    key=(t,pc); r=_embc.get(key)
    if r is not None: return r
    if k=='bool': r=Bool(constrain(bs[0],pc)) if bs[0]>1 else t
    elif k=='agg': r=agg(m,[_embed(x,pc) for x in ks])
    else:
        l=[(g,x) for g,x in zip(bs,ks) if land(g,pc)!=0]
        if len(l)>1:
            l=[(g,x) for g,x in l if feasible(land(g,pc))]
            if len(l)<len(ks): tot=bdd.ors(g for g,_ in l); l=[(constrain(g,tot),x) for g,x in l] if land(tot,pc)!=pc else l
        r=phi([(constrain(g,pc),_embed(x,pc)) for g,x in l])
    _embc[key]=r
    return r
UNDEF=raw('undef')
def _flip(p,q):
    """x even ? x+1 : x-1  ==  x ^ 1"""
    (g,t),(_,u)=p,q
    if bdd.HI[g]>1 or bdd.LO[g]>1: return None
    n=NODES[VAR_ATOM[bdd.VAR[g]]]
    if n[0]!='op' or n[1]!='eq': return None
    if bdd.LO[g]==1: t,u=u,t
    x=next((y for y in n[2] if not isint(y)),None)
    if x is None: return None
    c=n[2][0] if n[2][1]==x else n[2][1]
    if not(isint(c) and ival(c) in(0,1) and opis(x,'urem') and kids(x)[1]==Int(2)): return None
    if ival(c)==1: t,u=u,t
    z=kids(x)[0]
    for w in(64,32,128):
        if t==add(w,z,Int(1)) and u==add(w,z,Int((1<<w)-1)): return bitop('xor',w,z,Int(1))
    return None
def _minmax(p,q):
    """x < y ? y : x  (either way round at a tie)"""
    (g,t),(_,u)=p,q
    if bdd.HI[g]>1 or bdd.LO[g]>1: return None
    n=NODES[VAR_ATOM[bdd.VAR[g]]]
    if n[0]!='op' or n[1]!='lt': return None
    x,y=n[2]
    if {x,y}!={t,u} or isint(x) or isint(y): return None
    low=(t==x)==(bdd.HI[g]==1)
    return raw('op','min' if low else 'max',tuple(sorted((x,y))))
def _sel(nm,x,y):
    if isint(x) or isint(y) or x==y:
        if x==y: return x
        c=lt(x,y); return ite(c,x,y) if nm=='min' else ite(c,y,x)
    return raw('op',nm,tuple(sorted((x,y))))
def minmax(t): return opis(t,'min') or opis(t,'max')
def phi(l):
    acc={}; isb=False
    def add(g,t):
        nonlocal isb
        if g==0: return
        k,m,ks,bs=NODES[t]
        if k=='phi':
            for g2,x in zip(bs,ks): add(land(g,g2),x)
            return
        if k=='undef': return
        if k=='bool': isb=True
        acc[t]=lor(acc.get(t,0),g)
    for g,t in l: add(g,t)
    if not acc: return UNDEF
    if len(acc)==1: return next(iter(acc))
    if isb:
        f=bdd.ors(land(g,tobdd(t)) for t,g in acc.items()); c=bdd.ors(acc.values())
        return Bool(f if c==1 else constrain(f,c))
    groups={}
    for t,g in acc.items():
        n=NODES[t]
        if n[0]=='agg' : groups.setdefault(('agg',n[1],len(n[2])),[]).append((g,t))
        else: groups[t]=[(g,t)]
    out=[]
    for k,v in groups.items():
        if len(v)==1: out.append(v[0]); continue
        m=k[1]; n=k[2]; gg=bdd.ors(g for g,_ in v)
        ks=[phi([(g,NODES[t][2][i]) for g,t in v]) for i in range(n)]
        out.append((gg,agg(m,ks)))
    if len(out)==1: return out[0][1]
    out.sort(key=lambda x:x[1])
    if len(out)==2 and out[0][0]==neg(out[1][0]):
        m=_minmax(*out)
        if m is None: m=_flip(*out)
        if m is not None: return m
    return raw('phi',None,tuple(t for _,t in out),tuple(g for g,_ in out))
def leaves(t):
    if NODES[t][0]=='phi': return list(zip(NODES[t][3],NODES[t][2]))
    return [(1,t)]
def ite(c,a,b): return phi([(c,a),(neg(c),b)])
# ---------------------------------------------------------------- aggregates
def agg(m,ks):
    ks=tuple(ks)
    if m[0]=='array' and len(ks)>1 and opis(ks[0],'idx') and isint(kids(ks[0])[1]):   # consecutive elements of a sequence: a slice of it
        b,k=kids(ks[0]); k=ival(k)
        if all(v==raw('op','idx',(b,Int(k+j))) for j,v in enumerate(ks)): return app('slice',b,Int(k),Int(k+len(ks)))
    return raw('agg',m,ks)
def struct(tag,variant,names,vals): return agg((tag,variant,tuple(names)),vals)
def tup(*v): return agg(('tuple',None,tuple(str(i) for i in range(len(v)))),v)
UNIT=tup()
def arr(vals): return agg(('array',None,None),vals)
def isarr(t): return NODES[t][0]=='agg' and NODES[t][1][0]=='array'
def Some(x): return struct('core::option::Option','Some',('0',),(x,))
NONE=struct('core::option::Option','None',(),())
def Ok(x): return struct('core::result::Result','Ok',('0',),(x,))
def Err(x): return struct('core::result::Result','Err',('0',),(x,))
def ordering(v): return struct('core::cmp::Ordering',v,(),())
ENUMS={'core::option::Option':['None','Some'],'core::result::Result':['Ok','Err'],'core::ops::control_flow::ControlFlow':['Continue','Break'],
       'core::cmp::Ordering':['Less','Equal','Greater'],'alloc::borrow::Cow':['Borrowed','Owned']}
def fld(t,name,variant=None):
    k,m,ks,bs=NODES[t]
    if k=='agg':
        tag,var,names=m
        if variant is not None and var is not None and var!=variant: return UNDEF
        if names is None: return ks[int(name)] if int(name)<len(ks) else UNDEF
        if name in names: return ks[names.index(name)]
        return UNDEF
    if k=='phi': return phi([(g,fld(x,name,variant)) for g,x in zip(bs,ks)])
    if k=='undef': return t
    return raw('fld',(variant,name),(t,))
def isv(t,adt,idx):
    """BDD: value t of enum `adt` is variant number idx."""
    names=ENUMS[adt]; k,m,ks,bs=NODES[t]
    if k=='agg':
        if m[1] not in names: return 0
        return 1 if names.index(m[1])==idx else 0
    if k=='phi': return bdd.ors(land(g,isv(x,adt,idx)) for g,x in zip(bs,ks))
    n=len(names)
    if n<=1: return 1
    nb=(n-1).bit_length(); r=0
    codes=[idx] if idx<n-1 else range(n-1,1<<nb)
    for c in codes:
        f=1
        for j in range(nb):
            a=atom(raw('op',('vbit',adt,j),(t,))); f=land(f,a if c>>j&1 else neg(a))
        r=lor(r,f)
    return r
def short(p): return p.split('::')[-1]
# ---------------------------------------------------------------- arithmetic
def _lin(t,w):
    """-> (const, {term: coef}) of t in the ring Z/2^w"""
    k,m,ks,bs=NODES[t]
    if k=='int': return m,{}
    if k=='lin' and m[0]==w: return m[1],dict(zip(ks,m[2]))
    return 0,{t:1}
def mklin(w,c,co):
    M=1<<w; c%=M; co={t:k%M for t,k in co.items() if k%M}
    if not co: return Int(c)
    ts=sorted(co)
    if len(ts)==1 and c==0 and co[ts[0]]==1: return ts[0]
    return raw('lin',(w,c,tuple(co[t] for t in ts)),tuple(ts))
def dist(f,*args):
    """Apply f to terms, distributing over gated joins when few."""
    n=1
    for a in args:
        if NODES[a][0]=='phi': n*=len(NODES[a][2])
    if n==1 or n>12: return f(*[embed(a) for a in args])
    out=[]
    def rec(i,g,acc):
        if g==0: return
        if i==len(args): out.append((g,f(*acc))); return
        for g2,x in leaves(args[i]): rec(i+1,land(g,g2),acc+[embed(x)])
    rec(0,1,[])
    return phi(out)
def lincomb(w,c,*tc):
    co={}
    for t,k in tc:
        c0,d=_lin(t,w); c+=c0*k
        for x,y in d.items(): co[x]=co.get(x,0)+y*k
    return mklin(w,c,co)
def add(w,a,b): return dist(lambda x,y: lincomb(w,0,(x,1),(y,1)),a,b)
def sub(w,a,b): return dist(lambda x,y: lincomb(w,0,(x,1),(y,-1)),a,b)
def mul(w,a,b):
    def f(x,y):
        if isint(y): x,y=y,x
        if isint(x): return lincomb(w,0,(y,ival(x)))
        return raw('op',('mul',w),tuple(sorted((x,y))))
    return dist(f,a,b)
def xorc(t):
    """t = c ^ x -> (c, x)"""
    n=NODES[t]
    if n[0]=='op' and n[1]==('bitxor',):
        for c,x in (n[2],n[2][::-1]):
            if isint(c): return ival(c),x
def udiv(a,b):
    def f(x,y):
        if isint(y):
            d=ival(y)
            if d==1: return x
            if isint(x) and d: return Int(ival(x)//d)
            k=xorc(x)
            if k and d&(d-1)==0 and k[0]<d: return udiv(k[1],y)
        return raw('op','udiv',(x,y))
    return dist(f,a,b)
def urem(a,b):
    def f(x,y):
        if isint(y):
            d=ival(y)
            if d==1: return Int(0)
            if isint(x) and d: return Int(ival(x)%d)
        return raw('op','urem',(x,y))
    return dist(f,a,b)
def bitop(nm,w,a,b):
    def f(x,y):
        if isint(x) and isint(y):
            u,v=ival(x),ival(y); return Int({'and':u&v,'or':u|v,'xor':u^v}[nm])
        if isint(x): x,y=y,x
        if isint(y):
            v=ival(y)
            if v==0: return Int(0) if nm=='and' else x
            if nm=='xor' and xorc(x): return bitop('xor',w,xorc(x)[1],Int(v^xorc(x)[0]))
            if nm=='and' and w and v==(1<<w)-1: return x
            if nm=='and' and (v&(v+1))==0: return urem(x,Int(v+1))
            if nm in('or','xor'):
                lw=NODES[x][1][0] if NODES[x][0]=='lin' else w
                if lw:
                    c0,d=_lin(x,lw); k=1<<v.bit_length()
                    if d and c0%k==0 and all(q%k==0 for q in d.values()): return lincomb(lw,v,(x,1))
        if x==y: return Int(0) if nm=='xor' else x
        return raw('op',('bit'+nm,),tuple(sorted((x,y))))
    return dist(f,a,b)
def shl(w,a,b):
    if isint(b): return mul(w,a,Int(1<<ival(b)))
    return dist(lambda x,y: raw('op',('shl',w),(x,y)),a,b)
def shr(w,a,b):
    if isint(b): return udiv(a,Int(1<<ival(b)))
    return dist(lambda x,y: raw('op',('shr',w),(x,y)),a,b)
def trunc(w,t):
    def f(x):
        if isint(x): return Int(ival(x)%(1<<w))
        return raw('op',('trunc',w),(x,))
    return dist(f,t)
def _bphi(f,a,b):
    """Boolean-valued binary function distributing over joins -> BDD."""
    r=0
    la,lb=leaves(a),leaves(b)
    if len(la)*len(lb)>64: return f(a,b)
    for g,x in la:
        for h,y in lb:
            gh=land(g,h)
            if gh: r=lor(r,land(gh,f(x,y)))
    return r
def upper(t):
    """a constant t never exceeds"""
    n=NODES[t]
    if n[0]=='op' and isinstance(n[1],tuple) and n[1][0] in('leading_zeros','trailing_zeros','count_ones','count_zeros'): return n[1][1]
    if n[0]=='op' and n[1]=='urem' and isint(n[2][1]) and ival(n[2][1])>0: return ival(n[2][1])-1
def lt(a,b,signed=False):
    def f(x,y):
        if x==y: return 0
        if isint(x) and isint(y): return 1 if ival(x)<ival(y) else 0
        if NODES[x][0]=='agg' and NODES[y][0]=='agg' and not NODES[x][2] and not NODES[y][2] and NODES[x][1][0]==NODES[y][1][0] in ENUMS:
            l=ENUMS[NODES[x][1][0]]; p,q=NODES[x][1][1],NODES[y][1][1]
            if p in l and q in l: return 1 if l.index(p)<l.index(q) else 0
        if signed: return atom(raw('op','slt',(x,y)))
        if isint(y):
            if ival(y)<=0: return 0
            if ival(y)==1: return eq(x,Int(0))
            k=xorc(x)
            if k and ival(y)%(1<<k[0].bit_length())==0: return lt(k[1],y)
            if ival(y)>=(1<<63) and opis(x,'len'): return 1      # no sequence has more than isize::MAX elements
        if (opis(y,'urem') or opis(y,'udiv')) and kids(y)[0]==x: return 0
        if minmax(x):
            p,q=kids(x); return (land if opis(x,'max') else lor)(lt(p,y),lt(q,y))
        if minmax(y):
            p,q=kids(y); return (lor if opis(y,'max') else land)(lt(x,p),lt(x,q))
        if isint(x): return neg(f(y,Int(ival(x)+1)))
        nx,ny=NODES[x],NODES[y]
        for w in (64,128,32):
            if not((nx[0]=='lin' and nx[1][0]==w) or (ny[0]=='lin' and ny[1][0]==w)): continue
            c0,d0=_lin(x,w); c1,d1=_lin(y,w)
            if c0==c1 and len(d0)==len(d1)==1:          # c - p < c - q
                (p,cp),(q,cq)=*d0.items(),*d1.items()
                if cp==cq==(1<<w)-1 and p!=q and upper(p) is not None and upper(q) is not None and max(upper(p),upper(q))<=c0: return lt(q,p)
            if d0==d1:
                k=(c1-c0)%(1<<w)          # y = x + k (mod 2^w): x<y iff no wrap
                if k==0: return 0
                return neg(lt(y,Int(k))) if k<(1<<(w-1)) else lt(x,Int((1<<w)-k))
        if nx[0]=='lin':      # canonical form of "a + b wraps around": a+b < a, a the smaller term
            w,c,co=nx[1]
            if c==(1<<w)-1 and all(k>>(w-1) for k in co):
                z=lincomb(w,-1,(x,-1)); p,q=sorted((z,y))
                if NODES[z][0]!='lin': return lt(add(w,z,y),p)
            if c==0 and co==(1,1) and y==nx[2][1]: return lt(x,nx[2][0])
        return atom(raw('op','lt',(x,y)))
    return _bphi(f,a,b)
def eq(a,b):
    def f(x,y):
        if x==y: return 1
        nx,ny=NODES[x],NODES[y]
        kx,ky=nx[0],ny[0]
        if kx=='int' and ky=='int': return 0
        if ky=='int' and ny[1]>=(1<<63) and opis(x,'len') or kx=='int' and nx[1]>=(1<<63) and opis(y,'len'): return 0
        if kx in('str','bytes') and ky==kx: return 0
        if kx=='bool' or ky=='bool': return neg(bdd.xor(tobdd(x),tobdd(y)))
        if kx=='agg' and ky=='agg' :
            if nx[1][1]!=ny[1][1] or len(nx[2])!=len(ny[2]): return 0
            return bdd.ands(eq(p,q) for p,q in zip(nx[2],ny[2]))
        if ky=='agg': x,y,nx,ny,kx,ky=y,x,ny,nx,ky,kx
        if kx=='agg':
            tag,var,names=nx[1]
            if var is not None and tag in ENUMS:
                return bdd.ands([isv(y,tag,ENUMS[tag].index(var))]+[eq(fld(y,n,var),v) for n,v in zip(names,nx[2])])
            if names is not None and not tag.startswith('closure'):
                return bdd.ands(eq(fld(y,n),v) for n,v in zip(names,nx[2]))
        if minmax(y): x,y=y,x
        if minmax(x):
            p,q=kids(x); c=lt(p,q); p,q=(q,p) if opis(x,'max') else (p,q)
            return lor(land(c,eq(p,y)),land(neg(c),eq(q,y)))
        if cslice(x) or cslice(y):
            n=length(x)
            if isint(n) and n==length(y) and ival(n)<=64: return bdd.ands(eq(index(x,Int(i)),index(y,Int(i))) for i in range(ival(n)))
        if ky=='int': x,y,nx,ny,kx,ky=y,x,ny,nx,ky,kx
        if kx=='int' and ky=='op' and isinstance(ny[1],tuple) and ny[1][0]=='disc':
            dv=ny[1][2]
            if nx[1] in dv: return isv(ny[2][0],ny[1][1],dv.index(nx[1]))
            return 0
        for w in (64,128,32,8):
            if (kx=='lin' and nx[1][0]==w) or (ky=='lin' and ny[1][0]==w):
                c0,d0=_lin(x,w); c1,d1=_lin(y,w)
                for t,k in d1.items(): d0[t]=d0.get(t,0)-k
                M=1<<w; c=(c0-c1)%M; d={t:k%M for t,k in d0.items() if k%M}
                if not d: return 1 if c==0 else 0
                ts=sorted(d)
                if d[ts[0]]>=M//2: d={t:(-k)%M for t,k in d.items()}; c=(-c)%M
                if len(ts)==1 and d[ts[0]]==1: x,y=ts[0],Int((-c)%M)
                elif len(ts)==2 and c==0 and d[ts[0]]==1 and d[ts[1]]==M-1: x,y=ts
                else: x,y=mklin(w,0,d),Int((-c)%M)
                break
        for p,q in ((x,y),(y,x)):
            F=kids(q)[0] if isint(p) and ival(p)==0 and opis(q,'len') else None
            if F is not None and NODES[F][0]=='op' and NODES[F][1] in('elems','mkeys','mvals','entries'): F=kids(F)[0]
            if F is not None and NODES[F][0]=='fin':
                e=stays_empty(F)
                if e is not None: return e
        return atom(raw('op','eq',tuple(sorted((x,y)))))
    return _bphi(f,a,b)
def cslice(t): return opis(t,'slice') and isint(kids(t)[1]) and isint(kids(t)[2])
_se={}
def stays_empty(F):
    """an empty sequence only ever extended by single pushes is still empty  ==  no iteration pushes"""
    if F in _se: return _se[F]
    k,mt,ks,bs=NODES[F]; r=None; z=len(ks)//2; ti=mt[1]; bt=raw('b',(mt[0],ti))
    ext='push' if isarr(ks[ti]) and not NODES[ks[ti]][2] else {'sempty':'sinsert','mempty':'minsert'}.get(NODES[ks[ti]][1]) if NODES[ks[ti]][0]=='op' and isinstance(NODES[ks[ti]][1],str) else None
    if ext and (ext!='push' or comp_of(F) is None):
        g0=0; ok=True
        for g,x in leaves(ks[z+ti]):
            if x==bt: g0=lor(g0,g)
            elif not(opis(x,ext) and kids(x)[0]==bt and bt not in FV[kids(x)[1]]): ok=False
            if bt in bdd_fv(g): ok=False
        if ok and bt not in bdd_fv(bs[0]) and not any(bt in FV[ks[z+j]] for j in range(z) if j!=ti):
            E,sys,mm=_open(F,{}); r=forall(E,[s for j,s in enumerate(sys) if j!=ti],subst_b(g0,mm))
    _se[F]=r
    return r
# ---------------------------------------------------------------- sequences
W=64
def app(name,*args):
    """Opaque/pure operation with registered simplifications."""
    s=SIMP.get(name if isinstance(name,str) else name[0])
    if s:
        return dist(lambda *a: s(name,*a),*args)
    return dist(lambda *a: raw('op',name,a),*args)
def opis(t,n): return NODES[t][0]=='op' and NODES[t][1]==n
def _len(_,v):
    if v in MULEN: return MULEN[v]
    k,m,ks,bs=NODES[v]
    if k=='agg' and m[0]=='array': return Int(len(ks))
    if k=='bytes': return Int(len(m)//2)
    if k=='op':
        if m=='push': return add(W,length(ks[0]),Int(1))
        if m=='init': return sub(W,length(ks[0]),Int(1))
        if m=='slice': return sub(W,ks[2],ks[1])
        if m in('update','rev_','sorted','map_'): return length(ks[0])
        if m=='concat':
            r=Int(0)
            for x in ks: r=add(W,r,length(x))
            return r
        if isinstance(m,tuple) and m[0]=='repeat': return ks[1]
        if isinstance(m,tuple) and m[0]=='bytesn': return Int(m[1])
    if k=='fin':
        c=comp_of(v)
        if c: return c[0]
        x,i,n=_open(v)[1][m[1]]
        if n!=x and all(same_len(y,x) for _,y in leaves(n)): return length(i)   # only ever updated in place
    return raw('op','len',(v,))
def length(v): return app('len',v)
def _idx(_,v,i):
    k,m,ks,bs=NODES[v]
    if k=='agg' and m[0]=='array':
        if isint(i): return ks[ival(i)] if ival(i)<len(ks) else UNDEF
        if ks and all(x==ks[0] for x in ks): return ks[0]
    if k=='op':
        if m=='push':
            L=length(ks[0])
            if i==L: return ks[1]
            d=lincomb(W,0,(L,1),(i,-1))
            if isint(d) and 0<ival(d)<(1<<32): return index(ks[0],i)
            if isint(d): return UNDEF
            return ite(eq(i,L),ks[1],index(ks[0],i))
        if m=='init': return index(ks[0],i)
        if m=='slice': return index(ks[0],add(W,ks[1],i))
        if m=='update':
            e=eq(ks[1],i); return ite(e,ks[2],index(ks[0],i))
        if isinstance(m,tuple) and m[0]=='repeat': return ks[0]
    if k=='fin':
        c=comp_of(v)
        if c: return subst(c[2],{c[1]:i})
    return raw('op','idx',(v,i))
def known_int(t):
    """The constant the current path condition fixes t to, or t."""
    if PC[0]==1 or isint(t): return t
    for v in FAM.get(t,()):
        n=NODES[VAR_ATOM[v]]
        if n[1]!='eq': continue
        c=n[2][0] if n[2][1]==t else n[2][1]
        if isint(c) and land(PC[0],neg(bdd.var(v)))==0: return c
    return t
def index(v,i):
    n=NODES[i]
    if n[0]=='lin' and n[1][0]==W and n[1][2]==(1,):
        k=known_int(n[2][0])
        if k!=n[2][0]: i=Int((ival(k)+n[1][1])%(1<<W))
    return app('idx',v,i)
EMPTYARR=arr(())
def _push(_,v,x):
    if isarr(v) and len(NODES[v][2])<256: return arr(NODES[v][2]+(x,))
    return raw('op','push',(v,x))
def _init(_,v):
    k,m,ks,bs=NODES[v]
    if isarr(v) and ks: return arr(ks[:-1])
    if k=='op' and m=='push': return ks[0]
    if k=='op' and m=='concat' and len(ks)==2 and isarr(ks[0]) and len(kids(ks[0]))==1 and NODES[ks[1]][0]=='fin':
        r=_rotate(kids(ks[0])[0],ks[1])
        if r is not None: return r
    return raw('op','init',(v,))
def _rotate(x0,L):
    """[x0] ++ (do x := next(x), push x until E), without its last element  ==  push x before each step"""
    E,sys,_=_open(L); h,vi=NODES[L][1]; tgt,init,nxt=sys[vi]
    if init!=EMPTYARR or not(opis(nxt,'push') and kids(nxt)[0]==tgt): return None
    for m,i,n in sys:
        if m==tgt or m in FV[i] or isint(n) or n==m: continue
        q=m if n==kids(nxt)[1] else replace(kids(nxt)[1],{n:m})
        if q!=kids(nxt)[1] and subst(q,{m:i})==x0 and subst(q,{m:n})==kids(nxt)[1]: return close(E,[(a,b,app('push',tgt,q) if a==tgt else c) for a,b,c in sys],tgt)
    return None
def _slice(_,v,a,b):
    k,m,ks,bs=NODES[v]
    if isint(a) and ival(a)==0 and b==length(v): return v
    if isarr(v) and isint(a) and isint(b) and ival(a)<=ival(b)<=len(ks): return arr(ks[ival(a):ival(b)])
    if k=='op' and m=='slice': return app('slice',ks[0],add(W,ks[1],a),add(W,ks[1],b))
    if a==b: return arr(())
    if isint(a) and ival(a)==0 and NODES[b][0]=='lin':
        j=lincomb(W,0,(length(v),1),(b,-1))
        if isint(j) and ival(j)<=8:
            for _ in range(ival(j)): v=app('init',v)
            return v
    if k=='op' and m=='concat' and isint(a) and isint(b):
        out=[]; pos=0
        for p in ks:
            n=length(p)
            if not isint(n): break
            lo,hi=max(ival(a),pos),min(ival(b),pos+ival(n))
            if lo<hi: out.append(app('slice',p,Int(lo-pos),Int(hi-pos)))
            pos+=ival(n)
            if pos>=ival(b): break
        if pos>=ival(b) and all(isint(length(p)) for p in out): return app('concat',*out) if out else arr(())
    return raw('op','slice',(v,a,b))
def _update(_,v,i,x):
    k,m,ks,bs=NODES[v]
    if isarr(v) and isint(i) and ival(i)<len(ks): l=list(ks); l[ival(i)]=x; return arr(l)
    if index(v,i)==x: return v
    if k=='op' and m=='update' and ks[1]==i: return app('update',ks[0],i,x)
    if not isarr(v) and lincomb(W,1,(i,1))==length(v): return app('push',app('init',v),x)
    if k=='op' and m=='push' and length(ks[0])==i: return app('push',ks[0],x)
    return raw('op','update',(v,i,x))
def _concat(_,*parts):
    out=[]
    for p in parts:
        if opis(p,'concat'): out+=NODES[p][2]
        elif opis(p,'push') and p!=parts[-1]: out+=[kids(p)[0],arr((kids(p)[1],))]
        elif isarr(p) and not NODES[p][2]: pass
        else: out.append(p)
    # merge adjacent slices of one sequence
    r=[]
    for p in out:
        if r:
            q=r[-1]
            if opis(p,'slice') and opis(q,'slice') and kids(p)[0]==kids(q)[0] and kids(q)[2]==kids(p)[1]:
                r[-1]=app('slice',kids(p)[0],kids(q)[1],kids(p)[2]); continue
            if isarr(p) and isarr(q): r[-1]=arr(kids(q)+kids(p)); continue
        r.append(p)
    if not r: return arr(())
    if len(r)==1: return r[0]
    if isarr(r[-1]) and len(kids(r[-1]))==1 and not isint(kids(r[-1])[0]): return app('push',r[0] if len(r)==2 else raw('op','concat',tuple(r[:-1])),kids(r[-1])[0])
    return raw('op','concat',tuple(r))
SIMP={'min':_sel,'max':_sel,'len':_len,'idx':_idx,'push':_push,'init':_init,'slice':_slice,'update':_update,'concat':_concat}
# ---------------------------------------------------------------- substitution and loop closing
def rebuild(t,ks,bs):
    k,m,_,_=NODES[t]
    if k=='agg': return agg(m,ks)
    if k=='fld': return fld(ks[0],m[1],m[0])
    if k=='phi': return phi(list(zip(bs,ks)))
    if k=='bool': return Bool(bs[0])
    if k=='lin': return lincomb_d(m,ks)
    if k=='op':
        n=m if isinstance(m,str) else m[0]
        if m=='lt': return Bool(lt(*ks))
        if m=='slt': return Bool(lt(*ks,signed=True))
        if m=='eq': return Bool(eq(*ks))
        if n=='mul': return mul(m[1],*ks)
        if m=='udiv': return udiv(*ks)
        if m=='urem': return urem(*ks)
        if n in('bitand','bitor','bitxor'): return bitop(n[3:],None,*ks)
        if n=='shl': return shl(m[1],*ks)
        if n=='shr': return shr(m[1],*ks)
        if n=='trunc': return trunc(m[1],*ks)
        if n=='disc': return disc_term(ks[0],m[1],m[2])
        if n=='vbit': return vbit(ks[0],m)
        if n in REBUILD: return REBUILD[n](m,*ks)
        return app(m,*ks)
    if k=='ref': return raw('ref',m,tuple(ks))
    return raw(k,m,tuple(ks),tuple(bs))
REBUILD={}
def lincomb_d(m,ks):
    w,c,co=m
    r=Int(c)
    for t,k in zip(ks,co): r=add(w,r,mul(w,t,Int(k)))
    return r
SHORT={}
def vbit(t,m):
    adt=m[1]; n=len(ENUMS[adt]); j=m[2]
    if NODES[t][0] in('agg','phi'):
        r=0
        for i in range(n):
            if i>>j&1: r=lor(r,isv(t,adt,i))
        return Bool(r)
    return raw('op',m,(t,))
def disc_term(t,adt,dv):
    def f(x):
        if NODES[x][0]=='agg': return Int(dv[ENUMS[adt].index(NODES[x][1][1])])
        return raw('op',('disc',adt,dv),(x,))
    return dist(f,t)
def subst(t,m,memo=None,bm=None):
    if memo is None: memo={}; bm={}
    keys=m.keys()
    def go(t):
        if not(FV[t]&keys): return t
        r=memo.get(t)
        if r is not None: return r
        if t in m: r=m[t]
        else:
            k,mt,ks,bs=NODES[t]
            if k in('fin','forall'): r=_subst_loop(t,m)
            else: r=rebuild(t,tuple(go(x) for x in ks),tuple(gob(b) for b in bs))
        memo[t]=r
        return r
    def gob(b):
        if not(bdd_fv(b)&keys): return b
        return bdd.compose(b,lambda v: gatom(v),bm)
    am={}
    def gatom(v):
        r=am.get(v)
        if r is None:
            a=VAR_ATOM[v]; r=tobdd(go(a)) if FV[a]&keys else bdd.var(v); am[v]=r
        return r
    old=PC[0]; PC[0]=1
    try: return go(t)
    finally: PC[0]=old
def subst_b(b,m):
    if not(bdd_fv(b)&m.keys()): return b
    return NODES[subst(Bool(b),m)][3][0]
def _open(t,m={}):
    """Loop term -> (E, [(mu,init,next)], P or rank), bound variables replaced by fresh mus, m applied."""
    k,mt,ks,bs=NODES[t]; h=mt[0]; n=len(ks)//2
    mus=[fresh_mu() for _ in range(n)]; mm=dict(m)
    for i in range(n): mm[raw('b',(h,i))]=mus[i]
    sys=[(mus[i],subst(ks[i],m) if m else ks[i],subst(ks[n+i],mm)) for i in range(n)]
    E=subst_b(bs[0],mm)
    return E,sys,mm
def _subst_loop(t,m):
    k,mt,ks,bs=NODES[t]
    E,sys,mm=_open(t,m)
    if k=='fin': return close(E,sys,sys[mt[1]][0])
    return Bool(forall(E,sys,subst_b(bs[1],mm)))
def replace(t,m):
    """t with every occurrence of the (closed) terms in m replaced, re-simplified"""
    memo=dict(m); bm={}; am={}
    def go(t):
        r=memo.get(t)
        if r is not None: return r
        k,mt,ks,bs=NODES[t]
        nk=tuple(go(x) for x in ks); nb=tuple(gob(b) for b in bs)
        if nk==ks and nb==bs: r=t
        elif k in('fin','forall'): r=_subst_loop(raw(k,mt,nk,nb),{})
        else: r=rebuild(t,nk,nb)
        memo[t]=r
        return r
    def gob(b):
        if b<=1: return b
        return bdd.compose(b,gatom,bm)
    def gatom(v):
        r=am.get(v)
        if r is None: a=VAR_ATOM[v]; x=go(a); r=bdd.var(v) if x==a else tobdd(x); am[v]=r
        return r
    old=PC[0]; PC[0]=1
    try: return go(t)
    finally: PC[0]=old
def at_once(E,sys):
    """Is the loop left before its first iteration, whatever the inputs?"""
    return E==1 or 1<E and len(bdd.support(E))<=6 and any(isint(i) for _,i,_ in sys) and subst_b(E,{m:i for m,i,_ in sys})==1
def const_trip(E,sys,lim=8):
    """Values of the loop variables that decide E at each step, when constants: number of iterations (<= lim) or None"""
    if E<=1 or len(bdd.support(E))>6: return None
    d={m:(i,n) for m,i,n in sys}; dep=set(); work=[v for v in bdd_fv(E) if v in d]
    while work:
        v=work.pop()
        if v in dep: continue
        if not isint(d[v][0]): return None
        dep.add(v); work+=[x for x in FV[d[v][1]] if x in d]
    if not dep: return None
    cur={v:d[v][0] for v in dep}
    for n in range(lim+1):
        e=subst_b(E,cur)
        if e==1: return n
        if e!=0: return None
        cur={v:subst(d[v][1],cur) for v in dep}
        if not all(isint(x) for x in cur.values()): return None
    return None
def downcount(E,sys,P=1):
    """c := c - 1 each time, left at the latest when c = 0  ->  counted up: c = init - i"""
    if E<=1: return None
    d={m for m,_,_ in sys}
    for c,init,nxt in sys:
        if nxt!=add(W,c,Int((1<<W)-1)) or isint(init): continue
        a=next((v for v in bdd.support(E) if opis(VAR_ATOM[v],'eq') and set(kids(VAR_ATOM[v]))=={c,Int(0)}),None)
        if a is None or not bdd.implies(bdd.var(a),E): continue
        i=next((m for m,j,n in sys if m!=c and isint(j) and ival(j)==0 and n==add(W,m,Int(1))),None)
        rest=[x for x in sys if x[0]!=c]
        if i is None: i=fresh_mu(); rest.append((i,Int(0),add(W,i,Int(1))))
        p=lt(i,init); l=neg(p); E=lor(constrain(E,neg(bdd.var(a))) and land(p,constrain(E,neg(bdd.var(a)))),l)
        m={c:lincomb(W,0,(init,1),(i,-1))}
        if P!=1: P=constrain(P,neg(bdd.var(a)))      # only looked at before the exit, where c != 0
        return subst_b(E,m),[(x,j,subst(n,m)) for x,j,n in rest],subst_b(P,m) if P!=1 else 1
    return None
def steps(sys,n):
    """Loop variables after 0..n iterations"""
    cur={m:i for m,i,_ in sys}; out=[cur]
    for _ in range(n): cur={m:subst(x,cur) for m,_,x in sys}; out.append(cur)
    return out
ROUNDS=3
def _canon(E,sys,roots):
    """Select the variables that matter, order them canonically by iterated colouring. -> (h, classes[(init,next')], map)"""
    nx={m:(i,n) for m,i,n in sys}
    need=[]; work=list(bdd_fv(E))
    for r in roots: work+=list(r)
    while work:
        v=work.pop()
        if v in nx and v not in need: need.append(v); work+=list(FV[nx[v][1]])
    col={v:raw('op','col',(nx[v][0],)) for v in need}
    for _ in range(ROUNDS):
        col={v:raw('op','col',(nx[v][0],subst(nx[v][1],col))) for v in need}
    order=sorted(set(col.values())); rank={c:i for i,c in enumerate(order)}
    h=1+max([bdd_ht(E)]+[max(HT[nx[v][0]],HT[nx[v][1]]) for v in need]+[0])
    mm={v:raw('b',(h,rank[col[v]])) for v in need}
    rep={}
    for v in need: rep.setdefault(rank[col[v]],v)
    inits=[nx[rep[i]][0] for i in range(len(order))]
    nexts=[subst(nx[rep[i]][1],mm) for i in range(len(order))]
    return h,inits,nexts,mm
def induction(E,sys):
    """E == not(i < n) with i := i+1, n invariant -> (i mu, init, n)"""
    if E<=1: return None
    sup=bdd.support(E)
    if len(sup)!=1: return None
    a=VAR_ATOM[next(iter(sup))]
    d={m:(i,n) for m,i,n in sys}
    if opis(a,'lt') and E==neg(atom(a)):
        i,n=kids(a)
    elif opis(a,'eq') and E==atom(a):
        i,n=kids(a)
        if i not in d: i,n=n,i
    else: return None
    if i in d and d[i][1]==add(W,i,Int(1)) and not(FV[n]&d.keys()): return i,d[i][0],n
    return None
def fuse(E,sys,roots,P=1):
    """for x in (collection built by filtering / mapping another sequence) { body }  ==  the body inside the building loop.
    -> (E, sys, {old mu: new mu}, P) or None"""
    ind=induction(E,sys)
    if not ind or not(isint(ind[1]) and ival(ind[1])==0) or ind[0] in roots: return None
    i,_,n=ind
    if not opis(n,'len'): return None
    F=kids(n)[0]
    if NODES[F][0]!='fin' or comp_of(F): return None
    k,mt,ks,bs=NODES[F]; h,ti=mt[0],mt[1]; z=len(ks)//2; bt=raw('b',(h,ti))
    if not(isarr(ks[ti]) and not NODES[ks[ti]][2]) or bt in bdd_fv(bs[0]): return None
    for j in range(z):
        if j!=ti and bt in FV[ks[z+j]]: return None
    lv=[]
    for g,x in leaves(ks[z+ti]):
        if bt in bdd_fv(g): return None
        if x==bt: lv.append((g,None))
        elif opis(x,'push') and kids(x)[0]==bt and bt not in FV[kids(x)[1]]: lv.append((g,kids(x)[1]))
        else: return None
    if sum(x is not None for _,x in lv)>3: return None
    E2,fs,mm=_open(F,{}); i2=fresh_mu(); site=raw('op','idx',(F,i))
    out=[s for j,s in enumerate(fs) if j!=ti]; lv=[(subst_b(g,mm),None if x is None else subst(x,mm)) for g,x in lv]
    for m,init,nx in sys:
        if m==i: continue
        l=[]
        for g,x in lv:
            y=m if x is None else subst(nx,{i:i2,site:x})
            if i2 in FV[y]: return None
            l.append((g,y))
        out.append((m,init,phi(l)))
    P2=1
    if P!=1:
        for g,x in lv:
            if x is None: continue
            y=subst_b(P,{i:i2,site:x})
            if i2 in bdd_fv(y): return None
            P2=land(P2,lor(neg(g),y))
    return E2,out,P2
def keeplen(E,sys,P=1):
    """a sequence variable that is only ever updated in place keeps its length"""
    m={}
    for v,i,n in sys:
        if n!=v and all(same_len(x,v) for _,x in leaves(n)) and any(opis(x,'update') for _,x in leaves(n)):
            m[v]=v; m[raw('op','len',(v,))]=length(i)
    if not m: return None
    E2=subst_b(E,m); P2=subst_b(P,m); s2=[(v,i,subst(n,m)) for v,i,n in sys]
    if E2==E and P2==P and s2==sys: return None
    return E2,s2,P2
KNOWN={}; _lf={}; MULEN={}   # mus are never reused, so what is learnt about them stays true
def has_lf(t):
    """does the term mention the length of a field of an element anywhere?"""
    r=_lf.get(t)
    if r is None:
        st=[t]
        while st:
            x=st[-1]
            if x in _lf: st.pop(); continue
            k,m,ks,bs=NODES[x]
            sub=list(ks)+[VAR_ATOM[v] for b in bs if b>1 for v in bdd.support(b)]
            todo=[y for y in sub if y not in _lf]
            if todo: st+=todo; continue
            st.pop(); _lf[x]=any(_lf[y] for y in sub) or (k=='op' and m in('len','concat') and any(NODES[y][0]=='fld' for y in ks))
        r=_lf[t]
    return r
def elems(t,d,seen,out):
    """every element a sequence can hold (values pushed anywhere in the loops that build it); False if not known"""
    if t in d:
        if t in seen: return True
        seen.add(t); return elems(d[t][0],d,seen,out) and elems(d[t][1],d,seen,out)
    if t in KNOWN: out|=KNOWN[t]; return True
    k,m,ks,bs=NODES[t]
    if k=='phi': return all(elems(x,d,seen,out) for _,x in leaves(t))
    if k=='agg' and m[0]=='array':
        for x in ks: out.update(y for _,y in leaves(x))
        return True
    if k=='op' and m in('push','update'):
        out.update(y for _,y in leaves(ks[-1])); return elems(ks[0],d,seen,out)
    if k=='op' and m in('init','slice'): return elems(ks[0],d,seen,out)
    if k=='op' and m=='concat': return all(elems(x,d,seen,out) for x in ks)
    if k=='fin':
        E,s,mm=_open(t); d2=dict(d); d2.update({m:(i,n) for m,i,n in s})
        return elems(s[m[1]][0],d2,seen,out)
    return False
def elem_field_len(es,path):
    r=None
    for e in es:
        for var,name in path:
            n=NODES[e]
            if var is not None and n[0]=='agg' and n[1][1]!=var: e=None; break
            if n[0]!='agg': return None
            e=fld(e,name,var)
        if e is None: continue
        l=length(e)
        if not isint(l) or r not in(None,l): return None
        r=l
    return r
def elemlen(E,sys,P=1):
    """a field of an element whose length is the same for every element the loops ever store"""
    if not any(has_lf(n) for _,_,n in sys) and not has_lf(Bool(E)) and not has_lf(Bool(P)): return None
    d={m:(i,n) for m,i,n in sys}; kn={}
    for v in d:
        if NODES[d[v][1]][0] in('int','lin','bool'): continue
        out=set()
        if elems(v,d,set(),out) and out and any(NODES[e][0]=='agg' and NODES[e][1][0] not in('tuple','array') for e in out): kn[v]=frozenset(out)
    if not kn: return None
    m={v:v for v in kn}; seen=set(); st=[Bool(E),Bool(P)]+[n for _,_,n in sys]
    while st:
        t=st.pop()
        if t in seen or not(FV[t]&kn.keys()): continue
        seen.add(t); k,mt,ks,bs=NODES[t]
        st+=ks; st+=[VAR_ATOM[v] for b in bs if b>1 for v in bdd.support(b)]
        for y in ks if k=='op' and mt in('len','concat') else ():
            x=y; path=[]
            while NODES[x][0]=='fld': path.insert(0,NODES[x][1]); x=NODES[x][2][0]
            if path and opis(x,'idx'):
                o=set()
                r=elem_field_len(o,path) if elems(kids(x)[0],d,set(),o) else None
                if r is not None: m[length(y)]=r; MULEN[y]=r
    KNOWN.update(kn)
    try: E2=subst_b(E,m); P2=subst_b(P,m); s2=[(v,i,subst(n,m)) for v,i,n in sys]
    finally:
        for v in kn: KNOWN.pop(v,None)
    if E2==E and P2==P and s2==sys: return None
    return E2,s2,P2
def freshkey(E,sys,P=1):
    """a map built from nothing, filled only under a key that counts up by one every iteration, has no entry for it yet"""
    m={}
    for v,i,n in sys:
        if not opis(i,'mempty') or n==v: continue
        for c,_,cn in sys:
            if cn==add(W,c,Int(1)) and all(x==v or opis(x,'minsert') and kids(x)[:2]==(v,c) for _,x in leaves(n)):
                m[v]=v; m[raw('op','mget',(v,c))]=NONE
    if not m: return None
    E2=subst_b(E,m); P2=subst_b(P,m); s2=[(v,i,subst(n,m)) for v,i,n in sys]
    if E2==E and P2==P and s2==sys: return None
    return E2,s2,P2
def zerobase(E,sys,P=1):
    """a step counter that the exit condition only uses inside opaque values: counted from zero, its start added where it is used"""
    if E<=1 or len(sys)>12: return None
    for i,init,n in sys:
        if isint(init) and ival(init)==0 or n!=add(W,i,Int(1)): continue
        direct=False
        for v in bdd.support(E):
            A=VAR_ATOM[v]
            if NODES[A][0]=='op' and NODES[A][1] in('lt','eq','slt') and any(k==i or NODES[k][0]=='lin' and i in kids(k) for k in kids(A)): direct=True
        if direct: continue
        j=next((m for m,z,x in sys if isint(z) and ival(z)==0 and x==add(W,m,Int(1))),None); rest=[x for x in sys if x[0]!=i]
        if j is None: j=fresh_mu(); rest.append((j,Int(0),add(W,j,Int(1))))
        m={i:add(W,init,j)}
        return subst_b(E,m),[(x,z,subst(y,m)) for x,z,y in rest],subst_b(P,m) if P!=1 else 1,m
    return None
def same_len(x,v):
    while opis(x,'update'): x=kids(x)[0]
    return x==v
def until_none(E,sys):
    """while let Some(x) = o { body; o = if g {Some(y)} else {None} }  ==  loop { body; if !g break; x = y }
    -> (o, E, sys, {o: Some(x)}): the loop up to its last round, E holding in that round"""
    if E<=1: return None
    OPT='core::option::Option'
    for m,i,n in sys:
        if NODES[i][0]!='agg' or NODES[i][1][:2]!=(OPT,'Some') or not E==neg(isv(m,OPT,1)): continue
        l=leaves(n)
        if not all(NODES[x][0]=='agg' and NODES[x][1][0]==OPT for _,x in l): return None
        S=bdd.ors(g for g,x in l if NODES[x][1][1]=='Some')
        if S in(0,1): return None
        x=fresh_mu(); sb={m:Some(x)}; S2=subst_b(S,sb)
        if S2 in(0,1): return None
        s2=[(x,NODES[i][2][0],phi([(constrain(subst_b(g,sb),S2),subst(y,sb)) for g,y in ((g,NODES[y][2][0]) for g,y in l if NODES[y][1][1]=='Some')]))]
        s2+=[(v,a,subst(b,sb)) for v,a,b in sys if v!=m]
        return m,neg(S2),s2,sb
def unxor(E,sys):
    """a variable that is always c ^ something: follow the something"""
    for m,i,n in sys:
        k=xorc(i)
        if not k or n==m or not all((xorc(x) or (None,))[0]==k[0] for _,x in leaves(n)): continue
        u=fresh_mu(); c=Int(k[0]); sb={m:bitop('xor',None,u,c)}
        return m,subst_b(E,sb),[(u,k[1],bitop('xor',None,subst(n,sb),c))]+[(v,a,subst(b,sb)) for v,a,b in sys if v!=m],sb
def last_round(E,sys,free): return {v:close(E,sys,v) for v,_,_ in sys if v in free}
def close(E,sys,target):
    """Value of loop variable `target` when E first holds."""
    k=unxor(E,sys)
    if k:
        if target!=k[0]: return close(k[1],k[2],target)
        return bitop('xor',None,close(k[1],k[2],k[2][0][0]),Int(xorc(k[3][target])[0]))
    k=until_none(E,sys)
    if k and any(v==target for v,_,_ in sys):
        o,E2,s2,sb=k
        if target==o: return NONE
        y=next(b for v,_,b in s2 if v==target)
        return subst(y,last_round(E2,s2,FV[y]))
    k=downcount(E,sys)
    if k and all(m!=target or isint(i) or n!=add(W,m,Int((1<<W)-1)) for m,i,n in sys): return close(k[0],k[1],target)
    k=keeplen(E,sys)
    if k: E,sys,_=k
    k=elemlen(E,sys)
    if k: E,sys,_=k
    k=freshkey(E,sys)
    if k: E,sys,_=k
    k=zerobase(E,sys)
    if k:
        if target not in k[3]: return close(k[0],k[1],target)
        a=k[3][target]; init=next(i for m,i,_ in sys if m==target)
        return add(W,init,close(k[0],k[1],sub(W,a,init)))
    d={m:(i,n) for m,i,n in sys}
    if target not in d: return target
    init,nxt=d[target]
    if nxt==target or at_once(E,sys): return init
    n=const_trip(E,sys)
    if n: return steps(sys,n)[n][target]
    f=fuse(E,sys,(target,))
    if f: return close(f[0],f[1],target)
    if NODES[nxt][0]=='bool':
        r=latch(E,d,sys,target)
        if r is not None: return r
    ind=induction(E,sys)
    if ind and ind[0]==target and isint(ind[1]) and ival(ind[1])==0: return ind[2]
    if ind and opis(VAR_ATOM[next(iter(bdd.support(E)))],'eq') and isint(ind[1]) and ival(ind[1])==0:
        E=neg(lt(ind[0],ind[2]))
    ao=append_only(E,d,target)
    if ao:
        op,empty=ao
        if init!=empty:
            r=close(E,[(m,empty if m==target else i,n) for m,i,n in sys],target)
            return app(op,init,r)
        if op=='concat':
            c=loop_comp(E,sys,target,nxt)
            if c is not None: return c
        if op=='sunion':
            c=loop_comp(E,sys,target,nxt,'sinsert')
            if c is not None: return app('setof',c)
    h,inits,nexts,mm=_canon(E,sys,[[target]])
    return raw('fin',(h,meta(mm[target])[1]),tuple(inits+nexts),(subst_b(E,mm),))
def latch(E,d,sys,target):
    """flag |= q (or &= q) in every iteration  ==  init or not(forall iterations: not q)"""
    if target in bdd_fv(E): return None
    for m,(i,n) in d.items():
        if m!=target and target in FV[n]: return None
    init,nxt=d[target]; b=NODES[nxt][3][0]; v=ATOM_VAR.get(target)
    if v is None: return None
    hi,lo=constrain(b,bdd.var(v)),constrain(b,neg(bdd.var(v)))
    if target in bdd_fv(hi) or target in bdd_fv(lo): return None
    s2=[x for x in sys if x[0]!=target]
    if hi==1: return Bool(lor(tobdd(init),neg(forall(E,s2,neg(lo)))))
    if lo==0: return Bool(land(tobdd(init),forall(E,s2,hi)))
    return None
def append_only(E,d,target):
    """the accumulator is only ever extended, and nothing else depends on it -> (joining operator, empty value)"""
    if target in bdd_fv(E): return None
    for m,(i,n) in d.items():
        if m!=target and target in FV[n]: return None
    kinds=set()
    def ok(t):
        if t==target: return True
        k,m,ks,bs=NODES[t]
        if k=='phi': return all(ok(x) for x in ks) and not any(target in bdd_fv(b) for b in bs)
        if k=='op' and m in('push','concat'):
            if any(target in FV[x] for x in ks[1:]): return False
            kinds.add('concat'); return ok(ks[0])
        if k=='op' and m=='sinsert':
            if target in FV[ks[1]]: return False
            kinds.add('sunion'); return ok(ks[0])
        if k=='op' and m=='sunion':
            inn=[x for x in ks if target in FV[x]]
            kinds.add('sunion'); return len(inn)==1 and ok(inn[0])
        return False
    if not ok(d[target][1]) or len(kinds)!=1: return None
    k=kinds.pop()
    return (k,arr(())) if k=='concat' else (k,raw('op','sempty'))
def loop_comp(E,sys,target,nxt,op='push'):
    """for i in a..n { acc.push(s[i]) }  ==  s[a..n]"""
    ind=induction(E,sys)
    if not ind: return None
    i,a,n=ind
    if not(opis(nxt,op) and kids(nxt)[0]==target): return None
    x=kids(nxt)[1]; d={m for m,_,_ in sys}
    if op=='push' and not(FV[x]&d) and isint(a) and ival(a)==0: return REBUILD['repeat'](None,x,n)
    if not opis(x,'idx'): return None
    s,j=kids(x)
    if FV[s]&d: return None
    off=lincomb(W,0,(j,1),(i,-1))
    if FV[off]&d: return None
    e=neg(lt(n,a))
    if e!=1 and not(isint(a) and ival(a)==0): return None
    return app('slice',s,add(W,off,a),add(W,off,n))
def forall(E,sys,P):
    """BDD: P holds in every iteration before E."""
    P=reduce_b(P)
    k=unxor(E,sys) if P!=1 else None
    if k: return forall(k[1],k[2],subst_b(P,k[3]))
    k=until_none(E,sys) if P!=1 else None
    if k:
        o,E2,s2,sb=k; P=subst_b(P,sb); return land(forall(E2,s2,P),subst_b(P,last_round(E2,s2,bdd_fv(P))))
    k=downcount(E,sys,P)
    if k: return forall(*k)
    if P==1 or at_once(E,sys): return 1
    n=const_trip(E,sys)
    if n: return bdd.ands(subst_b(P,c) for c in steps(sys,n)[:n])
    k=keeplen(E,sys,P)
    if k: E,sys,P=k
    k=elemlen(E,sys,P)
    if k: E,sys,P=k
    k=freshkey(E,sys,P)
    if k: E,sys,P=k
    k=zerobase(E,sys,P)
    if k: return forall(*k[:3])
    if P==1: return 1
    f=fuse(E,sys,(),P)
    if f: return forall(*f)
    if 1<E:
        q=constrain(P,neg(E))
        if q<=1 or bdd.support(q)<bdd.support(P): P=q
    if P==1: return 1
    u=unroll(E,sys,P)
    if u is not None: return u
    r=1; lits=bdd.literals(P) if P>1 else []
    parts=[]; rest=P
    for v,pol in lits:
        x=bdd.var(v) if pol else neg(bdd.var(v)); parts.append(x); rest=constrain(rest,x)
    if rest!=1: parts.append(rest)
    d={m for m,_,_ in sys}
    if 1<len(parts)<12:
        i=0
        while i<len(parts) and len(parts)>1:
            o=bdd.ands(x for j,x in enumerate(parts) if j!=i)
            if valid_under(o,parts[i]): parts.pop(i)
            else: i+=1
    for p in parts:
        al=all_equal(E,sys,p)
        if al is not None: r=land(r,al); continue
        if not(bdd_fv(p)&d):
            ind=induction(E,sys)
            if ind and isint(ind[1]) and ival(ind[1])==0:
                r=land(r,lor(p,eq(ind[2],Int(0)))); continue
        h,inits,nexts,mm=_canon(E,sys,[bdd_fv(p)])
        r=land(r,atom(raw('forall',(h,),tuple(inits+nexts),(subst_b(E,mm),subst_b(p,mm)))))
    return r
def unroll(E,sys,P):
    """forall over a constant range, P depending on the counter only"""
    ind=induction(E,sys)
    if not ind: return None
    i,a,n=ind
    if not(isint(a) and isint(n) and 0<=ival(n)-ival(a)<=64): return None
    d={m for m,_,_ in sys}-{i}
    if bdd_fv(P)&d: return None
    return bdd.ands(subst_b(P,{i:Int(j)}) for j in range(ival(a),ival(n)))
def all_equal(E,sys,p):
    """a[i]==b[i] for every i in 0..n, n the length of both  ==  (a==b)"""
    ind=induction(E,sys)
    if not ind or not(isint(ind[1]) and ival(ind[1])==0) or p<=1: return None
    sup=bdd.support(p)
    if len(sup)!=1 or p!=bdd.var(next(iter(sup))): return None
    a=VAR_ATOM[next(iter(sup))]
    if not opis(a,'eq'): return None
    x,y=kids(a); i,_,n=ind
    if not(opis(x,'idx') and opis(y,'idx') and kids(x)[1]==i and kids(y)[1]==i): return None
    s,t=kids(x)[0],kids(y)[0]; d={m for m,_,_ in sys}
    if FV[s]&d or FV[t]&d or length(s)!=n or length(t)!=n: return None
    return eq(s,t)
_compc={}
def comp_of(t):
    """fin term that is a plain map: -> (n, bound var id, element term with that var) or None"""
    if t in _compc: return _compc[t]
    k,m,ks,bs=NODES[t]; r=None; n=len(ks)//2
    if n==2:
        h=m[0]; vi=m[1]; ii=1-vi; bv,bi=raw('b',(h,vi)),raw('b',(h,ii))
        E=bs[0]; a=neg(lt(bi,Int(0)))
        sup=bdd.support(E)
        if len(sup)==1:
            A=VAR_ATOM[next(iter(sup))]
            if opis(A,'lt') and E==neg(atom(A)) and kids(A)[0]==bi and not(FV[kids(A)[1]]&{bv,bi}):
                if isint(ks[ii]) and ival(ks[ii])==0 and ks[n+ii]==add(W,bi,Int(1)) and isarr(ks[vi]) and not NODES[ks[vi]][2]:
                    nx=ks[n+vi]
                    if opis(nx,'push') and kids(nx)[0]==bv and bv not in FV[kids(nx)[1]]:
                        r=(kids(A)[1],bi,kids(nx)[1])
    _compc[t]=r
    return r
# ---------------------------------------------------------------- printing
def show(t,d=6):
    k,m,ks,bs=NODES[t]
    if k=='int': return str(m) if m<1<<20 else hex(m)
    if k=='str': return repr(m)
    if k=='sym': return m
    if k=='bool': return 'true' if bs[0]==1 else 'false' if bs[0]==0 else '?('+showb(bs[0],d-1)+')'
    if k=='mu': return f'mu{m}'
    if k=='b': return f'b{m[0]}.{m[1]}'
    if k=='undef': return 'undef'
    if d<=0: return '…'
    s=lambda x: show(x,d-1)
    if k=='agg':
        tag,v,names=m
        if tag=='tuple': return '('+', '.join(map(s,ks))+')'
        if tag=='array': return '['+', '.join(map(s,ks[:8]))+(', …' if len(ks)>8 else '')+']'
        n=short(tag)+('::'+v if v else '')
        return n+('{'+', '.join(f'{a}: {s(x)}' for a,x in zip(names,ks))+'}' if ks else '')
    if k=='fld': return f'{s(ks[0])}.{(m[0]+".") if m[0] else ""}{m[1]}'
    if k=='lin':
        o=[]
        for c,x in zip(m[2],ks):
            c=c if c<1<<(m[0]-1) else c-(1<<m[0])
            o.append((f'{c}*' if c!=1 else '')+s(x))
        c=m[1] if m[1]<1<<(m[0]-1) else m[1]-(1<<m[0])
        if c: o.append(str(c))
        return '('+' + '.join(o)+')'
    if k=='phi': return 'phi{'+'; '.join(f'{showb(g,d-2)} => {s(x)}' for g,x in zip(bs,ks))+'}'
    if k=='fin': n=len(ks)//2; return f'loop[{", ".join(f"b{m[0]}.{i}: {s(ks[i])} -> {s(ks[n+i])}" for i in range(n))} until {showb(bs[0],d-1)}].{m[1]}'
    if k=='forall': n=len(ks)//2; return f'forall[{", ".join(f"b{m[0]}.{i}: {s(ks[i])} -> {s(ks[n+i])}" for i in range(n))} until {showb(bs[0],d-1)}]({showb(bs[1],d-1)})'
    if k=='op':
        n=m if isinstance(m,str) else 'is'+''.join(short(str(x)) for x in m[1:]) if m[0]=='vbit' else '.'.join(str(x) for x in m if not isinstance(x,tuple))
        return f'{n}('+', '.join(map(s,ks))+')'
    if k=='ref': return f'&mut {m}'
    return f'{k}:{m}'
def showb(b,d=5,lim=6):
    if b==1: return 'true'
    if b==0: return 'false'
    if d<=0: return '…'
    c=bdd.cubes(b,lim+1); out=[]
    for cu in c[:lim]: out.append(' & '.join(('' if p else '!')+show(VAR_ATOM[v],d-1) for v,p in cu))
    return ' | '.join(out)+(' | …' if len(c)>lim else '')
