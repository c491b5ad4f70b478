"""Small ROBDD package: canonical form of path conditions (guards). Nodes are ints, 0 = false, 1 = true."""
import sys
sys.setrecursionlimit(200000)
VAR=[1<<60,1<<60]; LO=[0,1]; HI=[0,1]
_uniq={}; _ite={}; _cons={}
def mk(v,lo,hi):
    if lo==hi: return lo
    k=(v,lo,hi); r=_uniq.get(k)
    if r is None:
        r=len(VAR); VAR.append(v); LO.append(lo); HI.append(hi); _uniq[k]=r
    return r
def var(v): return mk(v,0,1)
def ite(f,g,h):
    if f==1: return g
    if f==0: return h
    if g==h: return g
    if g==1 and h==0: return f
    if g==f: g=1
    if h==f: h=0
    k=(f,g,h); r=_ite.get(k)
    if r is not None: return r
    v=min(VAR[f],VAR[g],VAR[h])
    f0,f1=(LO[f],HI[f]) if VAR[f]==v else (f,f)
    g0,g1=(LO[g],HI[g]) if VAR[g]==v else (g,g)
    h0,h1=(LO[h],HI[h]) if VAR[h]==v else (h,h)
    r=mk(v,ite(f0,g0,h0),ite(f1,g1,h1)); _ite[k]=r
    return r
def neg(f): return ite(f,0,1)
def land(f,g): return ite(f,g,0)
def lor(f,g): return ite(f,1,g)
def xor(f,g): return ite(f,neg(g),g)
def implies(f,g): return ite(f,g,1)==1
def ands(l):
    r=1
    for x in l: r=ite(r,x,0)
    return r
def ors(l):
    r=0
    for x in l: r=ite(r,1,x)
    return r
def constrain(f,c):
    """Generalised cofactor: canonical representative of f on the care set c (Coudert-Madre)."""
    if c==1 or f<=1 or c==0: return f
    if f==c: return 1
    k=(f,c); r=_cons.get(k)
    if r is not None: return r
    v=min(VAR[f],VAR[c])
    f0,f1=(LO[f],HI[f]) if VAR[f]==v else (f,f)
    c0,c1=(LO[c],HI[c]) if VAR[c]==v else (c,c)
    if c1==0: r=constrain(f0,c0)
    elif c0==0: r=constrain(f1,c1)
    else: r=mk(v,constrain(f0,c0),constrain(f1,c1))
    _cons[k]=r
    return r
_sup={0:frozenset(),1:frozenset()}
def support(f):
    r=_sup.get(f)
    if r is None:
        r=support(LO[f])|support(HI[f])|{VAR[f]}; _sup[f]=r
    return r
def compose(f,m,memo=None):
    """Replace every variable v by the BDD m(v)."""
    if memo is None: memo={}
    if f<=1: return f
    r=memo.get(f)
    if r is None:
        r=ite(m(VAR[f]),compose(HI[f],m,memo),compose(LO[f],m,memo)); memo[f]=r
    return r
def literals(f):
    """Literals implied by f: list of (var, polarity)."""
    out=[]
    for v in sorted(support(f)):
        x=var(v)
        if implies(f,x): out.append((v,True))
        elif land(f,x)==0: out.append((v,False))
    return out
def cubes(f,limit=40):
    """Readable sum of products (for reports)."""
    out=[]
    def rec(f,acc):
        if len(out)>=limit or f==0: return
        if f==1: out.append(list(acc)); return
        acc.append((VAR[f],True)); rec(HI[f],acc); acc.pop()
        acc.append((VAR[f],False)); rec(LO[f],acc); acc.pop()
    rec(f,[])
    return out
