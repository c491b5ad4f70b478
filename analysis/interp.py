"""Abstract interpreter over the dumped MIR, in the value-graph domain of terms.py.
Joins are gated (phi), loops are closed to canonical loop terms after a fixpoint on the set of loop-carried locations,
calls to repository and model bodies are analysed in context, other calls are uninterpreted or have a primitive model."""
import re,json,glob,os,re
import bdd
from bdd import land,lor,neg,constrain
from terms import *
import terms as T
class Unsupported(Exception): pass
class Body:
    __slots__=('crate','path','j','blocks','argc','locals','generics','loops','rpo','live','span')
WIDTH={'u8':8,'u16':16,'u32':32,'u64':64,'u128':128,'usize':64,'i8':8,'i16':16,'i32':32,'i64':64,'i128':128,'isize':64}
class World:
    def __init__(self,dirs):
        self.bodies={}; self.types={}; self.impls={}; self.adts={}; self.failed=[]; self.crates=[]; self.derived=set(); self.tybyimpl=[]; self.same={}
        for d in dirs:
            for f in sorted(glob.glob(d+'/*.json')):
                j=json.load(open(f)); c=os.path.basename(f)[:-5]; self.crates.append(c)
                self.types[c]=j['types']; self.failed+=j['failed']
                for p,a in j['adts'].items():
                    if a is None: continue
                    a=dict(a); a['crate']=c
                    if p not in self.adts or a['local']: self.adts[p]=a
                for b in j['bodies']:
                    o=Body(); o.crate=c; o.path=b['path']; o.j=b; o.blocks=b['blocks']; o.argc=b['argc']; o.locals=b['locals']; o.generics=b['generics']; o.loops=None; o.live=None; o.span=b['span']
                    p=b['path']
                    if c.endswith('.bin'): p=o.path
                    self.bodies.setdefault(p,o); self.same.setdefault(p,[]).append(o)      # items of the same name in different blocks share a path
                for i in j['impls']:
                    i=dict(i); i['crate']=c; self.impls.setdefault(i['trait'],[]).append(i)
                    if i['derived']: self.derived.add(i['path'])
        self.aliases={}
        for p,a in self.adts.items():
            if p.startswith('specs_'):
                c=[q for q,b in self.adts.items() if not q.startswith(('specs_','models')) and q.split('::')[-1]==p.split('::')[-1] and b['local']]
                sh=lambda b: [(v['name'],len(v['fields'])) for v in b['variants']]
                c=[q for q in c if sh(self.adts[q])==sh(a)] or [q for q,b in self.adts.items() if a['kind']=='enum' and not q.startswith(('specs_','models')) and b['local'] and sh(b)==sh(a)]
                if len(c)==1: self.aliases[p]=c[0]
        for p,a in self.adts.items():
            if a['kind']=='enum': T.ENUMS.setdefault(p,[v['name'] for v in a['variants']])
    def ty(self,crate,i,sub=None):
        t=self.types[crate][i] if isinstance(i,int) else i
        return self._ty(crate,t,sub or {})
    def _ty(self,crate,t,sub):
        k=t[0]; g=lambda x: tuple(x) if isinstance(x,list) else self._ty(crate,self.types[crate][x],sub)
        if k=='prim': return ('prim',t[1])
        if k=='adt': return ('adt',self.aliases.get(t[1],t[1]),tuple(self._carg(crate,x,sub) for x in t[2]))
        if k in('ref','mutref','ptr','slice'): return (k,g(t[1]))
        if k=='array': return ('array',g(t[1]),self._cst(t[2],sub))
        if k=='tuple': return ('tuple',tuple(g(x) for x in t[1]))
        if k=='param': return sub.get(t[1],('param',t[1]))
        if k in('fndef','closure','coroutine'): return (k,t[1],tuple(self._carg(crate,x,sub) for x in t[2]))
        if k in('alias','other','dyn'): return (k,re.sub(r'\b\w+\b(?!::)',lambda m: tstr(sub[m[0]]) if m[0] in sub and sub[m[0]]!=('param',m[0]) else m[0],re.sub(r'\b(?:\w+::)+(?=\w)','',t[1])))   # paths are printed relative to the crate
        return (k,)+tuple(x for x in t[1:])
    def _carg(self,crate,x,sub):
        if isinstance(x,list): return ('const',self._cst(x[1],sub))
        return self._ty(crate,self.types[crate][x],sub)
    def _cst(self,s,sub):
        v=sub.get(s)
        return v[1] if v and v[0]=='const' else s
    def gargs(self,crate,l,sub): return [self._carg(crate,x,sub) for x in l]
    def unify(self,pat,t,b):
        if pat[0]=='param':
            b.setdefault(pat[1],t); return True
        if pat[0]!=t[0]: return False
        if pat[0] in('adt','fndef','closure'):
            if pat[1]!=t[1]: return False
            return all(self.unify(x,y,b) if x[0]!='const' else self._ucst(x,y,b) for x,y in zip(pat[2],t[2]))
        if pat[0] in('ref','mutref','slice','ptr'): return self.unify(pat[1],t[1],b)
        if pat[0]=='array': return self.unify(pat[1],t[1],b)
        if pat[0]=='tuple': return len(pat[1])==len(t[1]) and all(self.unify(x,y,b) for x,y in zip(pat[1],t[1]))
        return pat[1:]==t[1:]
    def _ucst(self,x,y,b):
        if y[0]!='const': return True
        if not x[1].isdigit(): b.setdefault(x[1],y); return True
        return x[1]==y[1] or not y[1].isdigit()
    def find_impl(self,trait,selfty,args=None):
        for i in self.impls.get(trait,()):
            b={}
            if self.unify(self.ty(i['crate'],i['self']),selfty,b):
                if args and len(i['args'])>1 and len(args)>1:
                    ok=True
                    for x,y in zip(self.gargs(i['crate'],i['args'][1:],{}),args[1:]):
                        if x[0]!='const' and not self.unify(x,y,b): ok=False
                    if not ok: continue
                return i,b
        return None
    def impl_item(self,i,name):
        for n,p,t in i['items']:
            if n==name: return p,t
        return None
# ------------------------------------------------------------------ CFG helpers
def succs(t):
    k=t[0]
    if k=='goto': return [t[1]]
    if k=='switch': return [x[1] for x in t[2]]+[t[3]]
    if k=='drop': return [t[1]]
    if k=='call': return [] if t[4] is None else [t[4]]
    if k=='assert': return [t[3]]
    if k=='yield': return [t[2]]
    return []
def analyse_cfg(b):
    bl=b.blocks; n=len(bl); seen={0}; order=[]; st=[(0,iter(succs(bl[0]['t'])))]
    while st:
        x,it=st[-1]
        for y in it:
            if y not in seen: seen.add(y); st.append((y,iter(succs(bl[y]['t'])))); break
        else: order.append(x); st.pop()
    order.reverse(); rpo={x:i for i,x in enumerate(order)}
    preds={x:[] for x in order}
    for x in order:
        for y in succs(bl[x]['t']): preds[y].append(x)
    idom={0:0}; ch=True
    def inter(a,c):
        while a!=c:
            while rpo[a]>rpo[c]: a=idom[a]
            while rpo[c]>rpo[a]: c=idom[c]
        return a
    while ch:
        ch=False
        for x in order[1:]:
            d=None
            for p in preds[x]:
                if p in idom: d=p if d is None else inter(p,d)
            if idom.get(x)!=d: idom[x]=d; ch=True
    def dom(a,c):
        while True:
            if c==a: return True
            if c==idom[c]: return False
            c=idom[c]
    loops={}
    for x in order:
        for y in succs(bl[x]['t']):
            if rpo[y]<=rpo[x]:
                if not dom(y,x): raise Unsupported('irreducible control flow in '+b.path)
                L=loops.setdefault(y,{y}); w=[x]
                while w:
                    z=w.pop()
                    if z in L: continue
                    L.add(z); w+=preds[z]
    b.loops=loops; b.rpo=rpo
    # liveness of locals (borrowed ones are always live)
    mentions=lambda o: _locals(o)
    use=[set() for _ in range(n)]; dfn=[set() for _ in range(n)]; borrowed=set()
    for i,x in enumerate(bl):
        if i not in rpo: continue
        u,d=use[i],dfn[i]
        def U(l):
            for y in l:
                if y not in d: u.add(y)
        for s in x['s']:
            if s[0]!='=': U([s[1][0]]); continue
            p,r=s[1],s[2]
            if r[0] in('refmut',) or(r[0]=='reborrow' and r[2]):
                if not any(e[0].startswith('deref') for e in r[1][1:]): borrowed.add(r[1][0])
            U(_rlocals(r))
            if len(p)>1: U(_plocals(p))
            else: d.add(p[0])
        t=x['t']
        if t[0]=='switch': U(_olocals(t[1]))
        elif t[0]=='call':
            U(_olocals(t[1]))
            for a in t[2]: U(_olocals(a))
            if len(t[3])>1: U(_plocals(t[3]))
            else: d.add(t[3][0])
        elif t[0]=='assert': U(_olocals(t[1]))
        elif t[0]=='yield': U(_olocals(t[1]))
        elif t[0]=='return': U([0])
    live=[set(u) for u in use]; ch=True
    while ch:
        ch=False
        for x in reversed(order):
            o=set()
            for y in succs(bl[x]['t']): o|=live[y]
            nl=use[x]|(o-dfn[x])
            if nl!=live[x]: live[x]=nl; ch=True
    b.live=[l|borrowed for l in live]
def _plocals(p): return [p[0]]+[e[1] for e in p[1:] if e[0]=='idx']
def _olocals(o): return _plocals(o[1]) if o[0] in('cp','mv') else []
def _locals(o): return _olocals(o)
def _rlocals(r):
    k=r[0]
    if k in('use','repeat'): return _olocals(r[1])
    if k in('ref','refmut','fake','reborrow','disc'): return _plocals(r[1])
    if k=='cast': return _olocals(r[2])
    if k=='bin': return _olocals(r[2])+_olocals(r[3])
    if k=='un': return _olocals(r[2])
    if k=='agg': return [x for o in r[2] for x in _olocals(o)]
    return []
# ------------------------------------------------------------------ interpreter
class Hdr: pass
TRANSP={'http::status::StatusCode','core::num::nonzero::NonZero','core::num::niche_types::NonZeroU16Inner'}
class Frame:
    __slots__=('b','uid','sub','crate')
class Interp:
    MAXDEPTH=60
    redirect=None; record=None
    def __init__(self,w,cuts=(),assume_pure=True):
        self.w=w; self.cuts=set(cuts); self.uid=0; self.stack=[]; self.panics=[]; self.opaque={}; self.funcs=set(); self.ncalls=0; self.loopn=0
        import prims; self.prims=prims; self.amb=[1]; self.hdr=None; self.records=[]
    # ---- places
    def loc_read(self,st,loc):
        v=st.get(loc[0])
        if v is None: return T.UNDEF
        return self.proj_read(v,loc[1])
    def proj_read(self,v,pr):
        var=None
        for e in pr:
            if e[0]=='f': v=GETF(v,e[1],e[2])
            elif e[0]=='s': v=app('slice',v,e[1],e[2])
            elif e[0]=='k': v=getf(self.prims.mget(v,e[1]),'0','Some')
            else: v=index(v,e[1])
        return v
    def loc_write(self,st,loc,val):
        root,pr=loc
        st[root]=self.set_proj(st.get(root,T.UNDEF),pr,val)
    def set_proj(self,base,pr,val):
        if not pr: return val
        e=pr[0]
        if NODES[base][0]=='phi':
            return phi([(g,self.set_proj(x,pr,val)) for g,x in leaves(base)])
        if e[0]=='i':
            return app('update',base,e[1],self.set_proj(index(base,e[1]),pr[1:],val))
        if e[0]=='k':
            return app('minsert',base,e[1],self.set_proj(getf(self.prims.mget(base,e[1]),'0','Some'),pr[1:],val))
        if e[0]=='s':
            return app('concat',app('slice',base,Int(0),e[1]),self.set_proj(app('slice',base,e[1],e[2]),pr[1:],val),app('slice',base,e[2],length(base)))
        name,var,of,fi=e[1],e[2],e[3],e[4]
        if name=='$vals': return app('msetvals',base,self.set_proj(app('mvals',base),pr[1:],val))
        base=self.expand(base,of,var,fi)
        n=NODES[base]
        if n[0]=='agg':
            names=n[1][2]
            if names is None: ix=int(name)
            elif name in names: ix=names.index(name)
            else: return base
            ks=list(n[2]); ks[ix]=self.set_proj(ks[ix],pr[1:],val); return agg(n[1],ks)
        if n[0]=='undef' and of in('tuple','closure'):
            pass
        return raw('op',('updf',var,name),(base,self.set_proj(getf(base,name,var),pr[1:],val)))
    def expand(self,t,of,var,fi):
        """Opaque struct -> aggregate of its fields, when the ADT is known."""
        if NODES[t][0]=='agg': return t
        a=self.w.adts.get(of)
        if a and (a['kind']=='struct' or var):
            v=next((v for v in a['variants'] if v['name']==var),None) if a['kind']=='enum' else a['variants'][0]
            if v:
                names=tuple(f[0] for f in v['fields'])
                return struct(of,var if a['kind']=='enum' else None,names,[getf(t,n,var if a['kind']=='enum' else None) for n in names])
        if of=='tuple' and NODES[t][0]=='undef':
            return struct('tuple',None,tuple(str(i) for i in range(fi+1)),[T.UNDEF]*(fi+1))
        return t
    def locs(self,fr,st,p):
        """Place -> [(guard, loc)]"""
        cur=[(1,((fr.uid,p[0]),()))]; var=None
        for e in p[1:]:
            k=e[0]
            if k.startswith('deref'):
                nx=[]
                for g,l in cur:
                    v=self.loc_read(st,l)
                    for g2,x in leaves(v):
                        gg=land(g,g2)
                        if gg==0: continue
                        if NODES[x][0]=='ref': nx.append((gg,unref(x)))
                        else: nx.append((gg,l))
                m={}
                for g,l in nx: m[l]=lor(m.get(l,0),g)
                cur=[(g,l) for l,g in m.items()]
            elif k=='down': var=e[1]
            elif k=='f' and e[3] in TRANSP: pass
            elif k=='f':
                of=e[3]; a=self.w.adts.get(of); vv=var if (a and a['kind']=='enum') or (a is None and var) else None
                cur=[(g,(l[0],l[1]+(('f',e[2],vv,of,e[1]),))) for g,l in cur]; var=None
            elif k=='idx':
                i=st.get((fr.uid,e[1]),T.UNDEF); cur=[(g,(l[0],l[1]+(('i',i),))) for g,l in cur]
            elif k=='cidx':
                out=[]
                for g,l in cur:
                    if e[3]: i=sub(64,length(self.loc_read(st,l)),Int(e[1]))
                    else: i=Int(e[1])
                    out.append((g,(l[0],l[1]+(('i',i),))))
                cur=out
            elif k=='sub':
                raise Unsupported('subslice place')
            elif k=='nop': pass
        return cur
    def read(self,fr,st,p):
        if len(p)==1: return st.get((fr.uid,p[0]),T.UNDEF)
        # fast value path: follow refs on demand
        v=st.get((fr.uid,p[0]),T.UNDEF); var=None
        for e in p[1:]:
            k=e[0]
            if k.startswith('deref'): v=self.deref(st,v)
            elif k=='down': var=e[1]
            elif k=='f' and e[3] in TRANSP: pass
            elif k=='f':
                a=self.w.adts.get(e[3]); vv=var if (a and a['kind']=='enum') or (a is None and var) else None
                v=getf(v,e[2],vv); var=None
            elif k=='idx': v=index(v,st.get((fr.uid,e[1]),T.UNDEF))
            elif k=='cidx': v=index(v,sub(64,length(v),Int(e[1])) if e[3] else Int(e[1]))
            elif k=='sub': v=app('slice',v,Int(e[1]),sub(64,length(v),Int(e[2])) if e[3] else Int(e[2]))
        return v
    def deref(self,st,v):
        k=NODES[v][0]
        if k=='ref': return self.loc_read(st,unref(v))
        if k=='phi': return phi([(g,self.deref(st,x)) for g,x in leaves(v)])
        return v
    def deref_all(self,st,v):
        for _ in range(8):
            n=self.deref(st,v)
            if n==v: return v
            v=n
        return v
    def strip(self,st,v):
        """Replace references inside a value by the current contents (for opaque arguments)."""
        k,m,ks,bs=NODES[v]
        if k=='ref': return self.strip(st,self.loc_read(st,unref(v)))
        if k=='agg': return agg(m,[self.strip(st,x) for x in ks])
        if k=='phi': return phi([(g,self.strip(st,x)) for g,x in zip(bs,ks)])
        return v
    def write(self,fr,st,p,val):
        if len(p)==1: st[(fr.uid,p[0])]=val; return
        ls=self.locs(fr,st,p)
        self.write_locs(st,ls,val)
    def write_locs(self,st,ls,val):
        if len(ls)==1: self.loc_write(st,ls[0][1],val); return
        for g,l in ls: self.loc_write(st,l,phi([(g,val),(neg(g),self.loc_read(st,l))]))
    def write_ref(self,st,r,val):
        """*r = val for a reference value"""
        ls=[(g,unref(x)) for g,x in leaves(r) if NODES[x][0]=='ref']
        if ls: self.write_locs(st,ls,val)
        return bool(ls)
    def operand(self,fr,st,o):
        if o[0]!='c': return self.read(fr,st,o[1])
        k=o[2]
        if k=='int':
            t=self.w.types[fr.crate][o[1]] if o[1] or True else None
            if t and t[0]=='prim' and t[1]=='bool': return Bool(1 if o[3]!='0' else 0)
            return Int(int(o[3]))
        if k=='str': return Str(o[3])
        if k=='fn':
            c=o[3]
            return self.fnval(fr,c)
        if k=='zst':
            t=self.w.ty(fr.crate,o[1],fr.sub)
            if t[0]=='tuple' and not t[1]: return UNIT
            if t[0]=='closure': return agg(('closure:'+t[1],None,()),())
            if t[0]=='adt' : return struct(t[1],None,(),())
            return raw('zst',repr(t))
        if k=='bytes': return raw('bytes',o[3])
        if k=='static':
            b=self.w.bodies.get(o[3])
            if b is not None and 'mutability: Not' in b.j['kind'] and o[3] not in self.stack and not re.search(r'Cell|Lock|Mutex|Atomic|Once',tstr(self.w.ty(b.crate,b.locals[0][0]))):
                out=self.call_body(b,{},[],1,dict())
                if out[0]==1 and NODES[out[1]][0]!='ref': return out[1]
            return raw('sym','static:'+o[3])
        if k=='cparam':
            v=fr.sub.get(o[3])
            if v and v[0]=='const' and v[1].isdigit(): return Int(int(v[1]))
            return Sym('const:'+o[3])
        if k=='path': return self.constpath(fr,st,o)
        if k=='ct':
            if o[3].isdigit(): return Int(int(o[3]))
            m=re.match(r'^(\d+)_[ui](8|16|32|64|128|size) is ',o[3])
            if m: return Int(int(m[1]))
        return raw('const',repr(o[2:4]))
    def fnval(self,fr,c):
        return raw('fnv',(c['path'],c.get('trait'),c.get('name'),c.get('res'),bool(c.get('dflt')),json.dumps(c.get('ctor')),
            tuple(self.w.gargs(fr.crate,c['args'],fr.sub)),tuple(self.w.gargs(fr.crate,c.get('resargs',[]),fr.sub))))
    def constpath(self,fr,st,o):
        via=o[3]; p=via[0]; args=self.w.gargs(fr.crate,via[1],fr.sub)
        r=via[3] or p
        if via[2] and r==p and args:
            im=self.w.find_impl(via[2],args[0],args)
            if im:
                it=self.w.impl_item(im[0],p.split('::')[-1])
                if it: r=it[0]
        b=self.w.bodies.get(r)
        f=self.prims.CONSTS.get(r)
        if f: return f(self,args)
        if b and b.j['kind'] in('Const','AssocConst','AnonConst','InlineConst') or (b and b.j['kind'].startswith('Static')):
            if r not in self.stack:
                out=self.call_body(b,dict(zip(b.generics,args)),[],1,dict())
                if out[0]==1: return out[1]
        t=self.w.ty(fr.crate,o[1],fr.sub)
        return raw('const',(r,)+tuple(tstr(a) for a in args))
    # ---- rvalues
    def width(self,fr,ti):
        t=self.w.ty(fr.crate,ti,fr.sub)
        while t[0] in('ref',): t=t[1]
        if t[0]=='prim' and t[1] in WIDTH: return WIDTH[t[1]],t[1][0]=='i'
        return None,False
    def binop(self,op,a,b,w,signed):
        if op=='Eq': return Bool(eq(a,b))
        if op=='Ne': return Bool(neg(eq(a,b)))
        if op=='Lt': return Bool(lt(a,b,signed))
        if op=='Gt': return Bool(lt(b,a,signed))
        if op=='Le': return Bool(neg(lt(b,a,signed)))
        if op=='Ge': return Bool(neg(lt(a,b,signed)))
        if op=='Cmp': return cmp3(a,b)
        isb=w is None and (NODES[a][0]=='bool' or NODES[b][0]=='bool' or op in('BitAnd','BitOr','BitXor'))
        if isb and op in('BitAnd','BitOr','BitXor'):
            x,y=tobdd(a),tobdd(b)
            return Bool({'BitAnd':land,'BitOr':lor,'BitXor':bdd.xor}[op](x,y))
        w=w or 64
        if op in('Add','AddUnchecked'): return add(w,a,b)
        if op in('Sub','SubUnchecked'): return sub(w,a,b)
        if op in('Mul','MulUnchecked'): return mul(w,a,b)
        if op=='Div': return udiv(a,b) if not signed else app('sdiv',a,b)
        if op=='Rem': return urem(a,b) if not signed else app('srem',a,b)
        if op=='BitAnd': return bitop('and',w,a,b)
        if op=='BitOr': return bitop('or',w,a,b)
        if op=='BitXor': return bitop('xor',w,a,b)
        if op in('Shl','ShlUnchecked'): return shl(w,a,b)
        if op in('Shr','ShrUnchecked'): return shr(w,a,b) if not signed else app('sar',a,b)
        if op=='AddWithOverflow': return tup(add(w,a,b),Bool(ovf('add',w,a,b)))
        if op=='SubWithOverflow': return tup(sub(w,a,b),Bool(ovf('sub',w,a,b)))
        if op=='MulWithOverflow': return tup(mul(w,a,b),Bool(ovf('mul',w,a,b)))
        return app('bin'+op,a,b)
    def rvalue(self,fr,st,r):
        k=r[0]
        if k=='use': return self.operand(fr,st,r[1])
        if k in('ref','fake'):
            p=r[1]
            v=self.read(fr,st,p)
            return v
        if k=='refmut' or k=='reborrow':
            if k=='reborrow' and not r[2]: return self.read(fr,st,r[1])
            ls=self.locs(fr,st,r[1])
            out=[]
            for g,l in ls: out.append((g,mkref(l)))
            return phi(out)
        if k=='bin':
            w,s=self.width(fr,r[4])
            return self.binop(r[1],self.operand(fr,st,r[2]),self.operand(fr,st,r[3]),w,s)
        if k=='un':
            a=self.operand(fr,st,r[2])
            if r[1]=='Not':
                w,s=self.width(fr,r[3])
                if w is None: return Bool(neg(tobdd(a)))
                return bitop('xor',w,a,Int((1<<w)-1))
            if r[1]=='Neg': return app('neg',a)
            if r[1]=='PtrMetadata': return self.len_of(fr,st,a,r[3])
            return app('un'+r[1],a)
        if k=='cast':
            a=self.operand(fr,st,r[2]); kk=r[1]
            ft=self.w.ty(fr.crate,r[3],fr.sub); tt=self.w.ty(fr.crate,r[4],fr.sub)
            if kk=='int':
                c=cast_int(a,ft,tt)
                if NODES[c][0]=='op' and NODES[c][1]==('trunc',WIDTH.get(tt[1])) and kids(c)==(a,) and T.PC[0]!=1 and land(T.PC[0],neg(lt(a,Int(1<<WIDTH[tt[1]]))))==0: return a     # known to fit
                return c
            if kk in('ptr','transmute','other'):
                f2=ft
                while f2[0] in('ref','mutref'): f2=f2[1]
                if kk=='ptr' and f2[0]=='array' and str(f2[2]).isdigit():
                    set_len(self.deref_all(st,a),int(f2[2]))
                return a
            return app('cast_'+kk,a)
        if k=='disc':
            v=self.read(fr,st,r[1]); t=self.w.ty(fr.crate,r[2],fr.sub)
            if t[0]=='adt' and t[1] in T.ENUMS:
                a=self.w.adts.get(t[1])
                dv=tuple(int(x['discr']) for x in a['variants']) if a else tuple(range(len(T.ENUMS[t[1]])))
                return disc_term(v,t[1],dv)
            return app('disc?',v)
        if k=='agg':
            m=r[1]; vs=[self.operand(fr,st,o) for o in r[2]]
            if m[0]=='tuple': return struct('tuple',None,tuple(str(i) for i in range(len(vs))),vs)
            if m[0]=='array': return arr(vs)
            if m[0]=='adt':
                if m[1]=='alloc::borrow::Cow': return vs[0]
                m=[m[0],self.w.aliases.get(m[1],m[1])]+m[2:]; a=self.w.adts.get(m[1]); en=a and a['kind']=='enum'
                return struct(m[1],m[2] if en else None,tuple(m[3]),vs)
            if m[0] in('closure','coroutine'):
                g=tuple(self.w.gargs(fr.crate,m[2],fr.sub))
                return struct(m[0]+':'+m[1],repr_args(g),tuple(str(i) for i in range(len(vs))),vs)
        if k=='repeat':
            v=self.operand(fr,st,r[1]); n=self.w._cst(r[2],fr.sub)
            if n.isdigit():
                return repeat(v,Int(int(n)))
            return repeat(v,Sym('const:'+n))
        raise Unsupported('rvalue '+k)
    def len_of(self,fr,st,a,ti):
        return length(self.deref_all(st,a))
    # ---- function bodies
    def call_body(self,b,sub,args,pc,st,name=None):
        """-> (pc, value, store) on normal return; panics are appended to self.panics"""
        if b.loops is None: analyse_cfg(b)
        if len(self.stack)>self.MAXDEPTH: raise Unsupported('call depth at '+b.path)
        self.funcs.add(b.path); self.ncalls+=1
        self.uid+=1; fr=Frame(); fr.b=b; fr.uid=self.uid; fr.sub=sub; fr.crate=b.crate
        st=dict(st)
        for i,a in enumerate(args): st[(fr.uid,i+1)]=a
        self.stack.append(b.path)
        try: exits=self.run_region(fr,0,None,[(pc,st)])
        finally: self.stack.pop()
        rets=[(p,s) for t,p,s in exits if t=='ret']
        p,s=merge(rets)
        if p==0: return 0,T.UNDEF,st
        v=s.get((fr.uid,0),UNIT)
        if v==T.UNDEF: v=UNIT
        for k in [k for k in s if k[0]==fr.uid]: del s[k]
        return p,v,s
    def run_region(self,fr,entry,region,instates):
        """Process the blocks of `region` (None = whole body) from entry. -> exits [(target,pc,store)], target 'ret', or a block outside."""
        b=fr.b; rpo=b.rpo; pend={entry:list(instates)}; exits=[]; back=[]; first=True
        old=self.hdr; H=None
        if region is not None:
            H=self.hdr=Hdr(); H.pc,H.st=merge(pend[entry]); H.skips=[]; pend={entry:[(H.pc,H.st)]}
        else: pass
        while pend:
            x=min(pend,key=lambda y: rpo[y]); ins=pend.pop(x)
            pc,st=merge(ins)
            if pc==0: continue
            if x in b.loops and not(region is not None and x==entry and first):
                outs=self.run_loop(fr,x,pc,st)
            else:
                outs=self.block(fr,x,pc,st)
            first=False
            for t,p,s in outs:
                if p==0: continue
                if t=='ret': exits.append((t,p,s))
                elif region is not None and t==entry: back.append((p,s))
                elif region is not None and t not in region: exits.append((t,p,s))
                else: pend.setdefault(t,[]).append((p,s))
        self.hdr=old
        if region is not None:
            back+=[(p,{k:v for k,v in st.items() if k in H.st or k=='!log'}) for p,st in H.skips]
            return exits,back
        return exits
    def at_header(self,pc,st):
        """nothing has happened since the header of the innermost loop: re-entering the loop equals retrying here"""
        H=self.hdr
        return H is not None and pc==H.pc and all(st.get(k)==v for k,v in H.st.items()) and st.get('!log',LOG0)==H.st.get('!log',LOG0)
    def block(self,fr,x,pc,st):
        bl=fr.b.blocks[x]; st=dict(st); T.PC[0]=pc
        for s in bl['s']:
            T.SPAN[0]=s[3]
            if s[0]=='=':
                v=self.rvalue(fr,st,s[2]); self.write(fr,st,s[1],v)
            elif s[0]=='setdisc': raise Unsupported('setdisc')
        t=bl['t']; k=t[0]; T.SPAN[0]=bl['sp']
        if k in('goto',): return [(t[1],pc,st)]
        if k=='drop': return [(t[1],pc,st)]
        if k=='return': return [('ret',pc,st)]
        if k in('unreachable','resume'): return []
        if k=='switch':
            v=self.operand(fr,st,t[1]); out=[]; rest=pc
            ty=self.w.types[fr.crate][t[4]]
            isb=ty[0]=='prim' and ty[1]=='bool'
            for val,tg in t[2]:
                c=neg(tobdd(v)) if isb and val=='0' else tobdd(v) if isb else eq(v,Int(int(val)))
                p=self.cond(rest,c)
                out.append((tg,p)); rest=self.cond(rest,neg(c))
            out.append((t[3],rest))
            out=[(tg,p) for tg,p in out if p!=0]
            return [(tg,p,st if i==0 else dict(st)) for i,(tg,p) in enumerate(out)]
        if k=='assert':
            c=tobdd(self.operand(fr,st,t[1])); c=c if t[2] else neg(c)
            ok=self.cond(pc,c)
            if ok!=pc: self.panic(land(pc,neg(ok)),bl['sp'],'assert:'+t[4])
            return [(t[3],ok,st)]
        if k=='call': return self.do_call(fr,pc,st,t,bl['sp'])
        if k=='yield': return []       # futures are awaited to completion: `poll` never answers Pending
        raise Unsupported('terminator '+k)
    def cond(self,pc,c):
        """pc & c, with implied and contradictory conditions resolved by the comparison theory"""
        r=land(pc,c)
        if r==0 or r==pc: return r
        a=land(r,self.amb[-1])
        if not feasible(a): return 0
        n=land(land(pc,neg(c)),self.amb[-1])
        if not feasible(n): return pc
        return r
    def panic(self,pc,sp,why):
        if pc!=0: self.panics.append((pc,sp,why))
    def do_call(self,fr,pc,st,t,sp):
        f,args,dest,target,dty,atys=t[1:7]
        av=[self.operand(fr,st,a) for a in args]
        fv=self.operand(fr,st,f)
        at=[self.w.ty(fr.crate,x,fr.sub) for x in atys]; dt=self.w.ty(fr.crate,dty,fr.sub)
        p,v,s=self.call(fv,av,at,dt,pc,st,sp,diverges=target is None)
        T.SPAN[0]=sp
        if p==0 or target is None:
            return []
        self.write(fr,s,dest,v)
        return [(target,p,s)]
    # ---- calls
    def call(self,fv,av,at,dt,pc,st,sp,diverges=False):
        """-> (pc,value,store)"""
        T.PC[0]=pc
        n=NODES[fv]
        if n[0]!='fnv': return self.call_value(fv,av,at,dt,pc,st,sp)
        path,trait,name,res,dflt,ctor,args,rargs=n[1]
        if ctor!='null':
            a,vn=json.loads(ctor)
            if a=='alloc::borrow::Cow': return pc,av[0],st
            a=self.w.aliases.get(a,a); ad=self.w.adts.get(a); en=ad and ad['kind']=='enum'
            return pc,struct(a,vn if en else None,tuple(str(i) for i in range(len(av))),av),st
        key=(trait+'::'+name) if trait else path
        rd=self.redirect.get(res) or self.redirect.get(path) or self.redirect.get(key) if self.redirect else None
        if rd:
            b=self.w.bodies[rd]; return self.call_body(b,dict(zip(b.generics,args)),av,pc,st)
        if path in self.cuts or (res and res in self.cuts) or key in self.cuts:
            return self.opaque_call(key,args,av,at,dt,pc,st,sp)
        pr=self.prims.EXACT.get(key)
        if pr:
            r=pr(self,Call(key,path,trait,name,res,args,rargs,av,at,dt,pc,st,sp))
            if r is not NotImplemented: return norm(r,pc,st)
        # local bodies
        b=None; sub=None
        if res and res in self.w.bodies: b=self.w.bodies[res]; sub=dict(zip(b.generics,rargs))
        elif not trait and path in self.w.bodies: b=self.w.bodies[path]; sub=dict(zip(b.generics,args))
        elif trait and not res:
            r=self.resolve(trait,name,args,av,st)
            if r: b,sub=r
            elif path in self.w.bodies and (dflt or not any(self.w.impl_item(i,name) for i in self.w.impls.get(trait,()))): b=self.w.bodies[path]; sub=dict(zip(b.generics,args))
        elif trait and res:
            r=self.resolve_value(trait,name,av,st)
            if r: b,sub=r
        if b is not None and not self.prims.skip_body(b):
            imp=b.path[:b.path.rfind('::')]
            if imp in self.w.derived and name in('eq','ne','clone'):
                a0=self.deref_all(st,av[0])
                if name=='clone': return pc,a0,st
                r=eq(a0,self.deref_all(st,av[1])); return pc,Bool(r if name=='eq' else neg(r)),st
            if b.path in self.cuts: return self.opaque_call(key,args,av,at,dt,pc,st,sp)
            if self.stack.count(b.path)>2: return self.opaque_call('rec:'+key,args,av,at,dt,pc,st,sp)
            return self.call_body(b,sub,av,pc,st)
        for pre,f in self.prims.PREFIX:
            if key.startswith(pre):
                r=f(self,Call(key,path,trait,name,res,args,rargs,av,at,dt,pc,st,sp))
                if r is not NotImplemented: return norm(r,pc,st)
        m=self.prims.model_for(self,key)
        if m is not None:
            return self.call_body(m,dict(zip(m.generics,args)),av,pc,st)
        if diverges or dt==('prim','!'):
            self.panic(pc,sp,key); return 0,T.UNDEF,st
        return self.opaque_call(key,args,av,at,dt,pc,st,sp)
    def call_key(self,c):
        f=raw('fnv',(c.path,c.trait,c.name,c.res,False,'null',tuple(c.targs),tuple(c.rargs)))
        return self.call(f,c.av,c.at,c.dt,c.pc,c.st,c.sp)
    def resolve(self,trait,name,args,av,st):
        if args:
            im=self.w.find_impl(trait,args[0],args)
            if im:
                it=self.w.impl_item(im[0],name)
                if it and it[0] in self.w.bodies:
                    b=self.w.bodies[it[0]]; sub=dict(im[1]); k=len(args)-len(im[0]['args'])
                    if k>0:
                        for g,a in zip(b.generics[-k:],args[-k:]): sub[g]=a
                    return b,sub
        return self.resolve_value(trait,name,av,st)
    def resolve_value(self,trait,name,av,st):
        if not av: return None
        v=self.deref_all(st,av[0]); n=NODES[v]
        if n[0]!='agg': return None
        tag=n[1][0]
        for i in self.w.impls.get(trait,()):
            t=self.w.ty(i['crate'],i['self'])
            while t[0] in('ref','mutref'): t=t[1]
            if t[0]=='adt' and t[1]==tag:
                it=self.w.impl_item(i,name)
                if it and it[0] in self.w.bodies: return self.w.bodies[it[0]],{}
        return None
    def opaque_call(self,key,args,av,at,dt,pc,st,sp):
        """Uninterpreted call: the result, and every location reachable through &mut, is a function of the arguments."""
        self.opaque[key]=self.opaque.get(key,0)+1
        vals=[embed(self.strip(st,a)) for a in av]
        if self.record:
            n=next((n for n,r in self.record.items() if re.search(r,key)),None)
            if n: self.records.append((n,land(pc,self.amb[-1]),tuple(vals),sp))
        ta=tuple(tstr(a) for a in args if a[0] not in('closure','fndef')) if not av or self.prims.keep_targs(key) else ()
        nm=key if not ta else (key,)+ta
        st2=st
        for i,a in enumerate(av):
            refs=collect_refs(a)
            for j,r in enumerate(refs):
                if st2 is st: st2=dict(st)
                old=self.loc_read(st2,unref(r))
                self.loc_write(st2,unref(r),app(('mut',key,i,j),*vals))
        if self.prims.is_effect(key):
            if st2 is st: st2=dict(st)
            log=st2.get('!log',LOG0)
            T.PC[0]=pc
            ev=app('ev',raw('evname',key),*vals)
            st2['!log']=app('log',log,ev)
        if self.prims.is_world(key):
            vals=vals+[embed(st2.get('!log',LOG0))]
        if dt and dt[0]=='array' and str(dt[2]).isdigit(): OPLEN[nm]=int(dt[2])
        return pc,app(nm,*vals),st2
    def call_value(self,f,av,at,dt,pc,st,sp):
        """Call a closure / fn value with untupled arguments"""
        n=NODES[f]
        if n[0]=='phi':
            outs=[]
            for g,x in leaves(f):
                p=self.cond(pc,g)
                if p!=0:
                    r=self.call_value(x,av,at,dt,p,st,sp); outs.append(r)
            ps=[(p,dict(s,**{'!rv':v})) for p,v,s in outs]
            p,s=merge(ps); v=s.pop('!rv',T.UNDEF)
            return p,v,s
        if n[0]=='ref':
            c=self.loc_read(st,unref(f)); cn=NODES[c]
            if cn[0] in('ref','phi','fnv'): return self.call_value(c,av,at,dt,pc,st,sp)
            if cn[0]=='agg' and cn[1][0].startswith('closure:'): return self.call_closure(c,f,av,pc,st)
            if cn[0]=='agg': return self.call_value(c,av,at,dt,pc,st,sp)
        if n[0]=='fnv': return self.call(f,av,at,dt,pc,st,sp)
        if n[0]=='agg' and n[1][0].startswith('closure:'): return self.call_closure(f,None,av,pc,st)
        if n[0]=='zst': pass
        return self.opaque_call('callvalue',[],[f]+list(av),at,dt,pc,st,sp)
    def call_closure(self,c,ref,av,pc,st):
        m=NODES[c][1]; path=m[0][8:]
        b=self.w.bodies.get(path)
        if b is None: return self.opaque_call('closure:'+path,[],[c]+list(av),[],None,pc,st,None)
        sub=dict(zip(b.generics,args_of(m[1])))
        et=self.w.types[b.crate][b.locals[1][0]]
        env=c; tmp=None
        if et[0]=='mutref':
            if ref is None:
                self.uid+=1; tmp=(-self.uid,0); st=dict(st); st[tmp]=c; env=mkref((tmp,()))
            else: env=ref
        r=self.call_body(b,sub,[env]+list(av),pc,st)
        if tmp and tmp in r[2]: del r[2][tmp]
        return r
    def run_future(self,v,at,pc,st,sp):
        """Awaits a future to completion. -> (pc, output, store)"""
        v=self.deref_all(st,v); n=NODES[v]
        if n[0]=='phi':
            outs=[]
            for g,x in leaves(v):
                p=self.cond(pc,g)
                if p!=0: outs.append(self.run_future(x,at,p,dict(st),sp))
            ps=[(p,dict(s,**{'!rv':r})) for p,r,s in outs]
            p,s=merge(ps); r=s.pop('!rv',T.UNDEF)
            return p,r,s
        if n[0]=='agg' and n[1][0]=='$ready': return pc,n[2][0],st
        if n[0]=='agg' and n[1][0].startswith('coroutine:'):
            b=self.w.bodies.get(n[1][0][10:])
            if b is not None:
                if self.stack.count(b.path)>2: raise Unsupported('recursive future '+b.path)
                return self.call_body(b,dict(zip(b.generics,args_of(n[1][1]))),[v,raw('sym','resume')],pc,st)
        return self.opaque_call('await',[],[v],at,None,pc,st,sp)
    # ---- loops
    def run_loop(self,fr,h,pc0,st0):
        b=fr.b; L=b.loops[h]; live=b.live[h]; self.loopn+=1
        st0={k:v for k,v in st0.items() if k[0]!=fr.uid or k[1] in live}
        if pc0!=1:      # values that are still gated by the whole path condition
            old=T.PC[0]; T.PC[0]=pc0; st0={k:embed(v) if leaky(v) else v for k,v in st0.items()}; T.PC[0]=old
        if any(b.blocks[x]['t'][0]=='yield' for x in L) and not any(x in b.loops for x in L if x!=h):
            exits,back=self.run_region(fr,h,L,[(pc0,st0)])        # the loop of an `.await`
            if merge(back)[0]==0: return exits
            raise Unsupported('await loop in '+b.path)
        u=self.try_unroll(fr,h,L,pc0,st0)
        if u is not None: return u
        H={}        # loc (root, kidpath) -> mu
        save=self.panics
        self.amb.append(land(self.amb[-1],pc0))
        if bdd_size(self.amb[-1])>400: self.amb[-1]=1
        try:
            for it in range(40):
                sth=dict(st0)
                for (root,kp),mu in H.items(): sth[root]=kid_set(sth[root],kp,mu)
                self.panics=[]
                exits,back=self.run_region(fr,h,L,[(1,sth)])
                pan=self.panics
                pb,stb=merge(back)
                if pb==0: break
                new=False
                for k in stb:
                    if k not in st0 and key_default(k) is not None: st0=dict(st0); st0[k]=key_default(k); new=True
                if new: continue
                for root,v in sth.items():
                    if root[0]==fr.uid and root[1] not in live: continue
                    w=stb.get(root,v)
                    if w==T.UNDEF: continue
                    if w==v: continue
                    for kp in kid_diff(v,w,pb):
                        if any(r==root and kp[:len(q)]==q for r,q in H): 
                            continue
                        for r,q in list(H):
                            if r==root and q[:len(kp)]==kp: del H[(r,q)]
                        old_,new_=kid_get(v,kp),kid_get(w,kp)
                        # a structure of which some iterations rebuild a part is followed field by field
                        ag=[x for _,x in leaves(new_) if x!=old_] if NODES[new_][0] in('phi','agg') else []
                        if NODES[old_][0]!='agg' and ag and all(NODES[x][0]=='agg' and meta(x)==meta(ag[0]) for x in ag) and not any((root,q)==(r2,q2) for r2,q2 in H for q in[kp]):
                            new_=ag[0]
                            ex=self.expand(kid_get(st0[root],kp),meta(new_)[0],None,0)
                            if NODES[ex][0]=='agg' and meta(ex)==meta(new_) and kid_get(st0[root],kp)!=ex and meta(new_)[0] not in T.ENUMS:
                                st0=dict(st0); st0[root]=kid_set(st0[root],kp,ex); new=True; continue
                        H[(root,kp)]=fresh_mu(); new=True
                if not new: break
            else: raise Unsupported('loop fixpoint in '+b.path)
        finally:
            self.panics=save; self.amb.pop()
        if pb==0:
            for p,sp,why in pan: self.panic(land(p,pc0),sp,why)
            return [(t,land(p,pc0),s) for t,p,s in exits]
        sys=[]
        old=T.PC[0]
        for (root,kp),mu in H.items():
            T.PC[0]=pc0; init=embed(kid_get(st0[root],kp))
            T.PC[0]=pb; nxt=embed(kid_get(stb[root],kp))
            sys.append((mu,init,nxt))
        T.PC[0]=old
        sys,pre=normalise_vars(sys,[p for _,p,_ in exits]+[p for p,_,_ in pan]+[pb])
        if pre:
            exits=[(t,subst_b(p,pre),{k:subst(v,pre) for k,v in s.items()}) for t,p,s in exits]
            pan=[(subst_b(p,pre),sp,why) for p,sp,why in pan]; pb=subst_b(pb,pre)
        exits=[(t,p,self.embed_store(s,p,st0)) for t,p,s in exits]
        pE=bdd.ors([p for _,p,_ in exits]+[p for p,_,_ in pan])
        E=neg(pb) if lor(pE,pb)==1 else pE
        # panicking exits: "no iteration panics before the loop is left" is a predicate of its own
        Q=bdd.ors([p for p,_,_ in pan]); NP=1
        if Q!=0 and exits:
            cond=[p for _,p,_ in exits]; E1=bdd.ors(cond)
        else: cond=[p for _,p,_ in exits]; E1=E
        # the control exit: a pure counter exit whose complement guards everything else
        main=None
        for i,(t,p,s) in enumerate(exits):
            if induction(p,sys): main=i; break
        # exits that can only lead to a panic or to returning Err: "none of them is taken before the loop is left" is a predicate too
        rej=[i for i,(t,p,s) in enumerate(exits) if i!=main and rejecting(self.w,b,t)]
        acc=[i for i in range(len(exits)) if i not in rej]
        if not acc: acc,rej=rej,[]
        out=[]
        Em=bdd.ors(cond[i] for i in acc) if main is None else cond[main]
        oth=[i for i in acc if i!=main] if main is not None else []
        B=bdd.ors(constrain(cond[i],neg(Em)) for i in rej+oth)
        BQ=lor(B,constrain(Q,neg(Em))) if Q!=0 else B
        NA=forall(Em,sys,neg(BQ)) if BQ!=0 else 1        # neither a panic nor another exit first
        if main is not None:
            t,p,s=exits[main]; fin=FinMap(Em,sys)
            out.append((t,land(pc0,NA),self.subst_store(s,fin,st0)))
        else:
            fin=FinMap(Em,sys); tot=bdd.ors(fin.b(cond[i]) for i in acc)
            for i in acc:
                t,p,s=exits[i]; g=1 if len(acc)==1 else constrain(fin.b(cond[i]),tot)
                g=land(land(pc0,NA),g)
                if g: out.append((t,g,self.subst_store(s,fin,st0)))
        left=rej+oth; ok=NA
        if oth and rej:
            # leaving through another accepting exit: no rejecting one first
            R=bdd.ors(constrain(cond[i],neg(lor(Em,bdd.ors(cond[j] for j in oth)))) for i in rej); E2=bdd.ors(cond[i] for i in acc)
            RQ=lor(R,constrain(Q,neg(E2))) if Q!=0 else R
            N2=forall(E2,sys,neg(RQ)) if RQ!=0 else 1
            fin=FinMap(E2,sys); tot=bdd.ors(fin.b(cond[i]) for i in oth)
            for i in oth:
                t,p,s=exits[i]; g=1 if len(oth)==1 else constrain(fin.b(cond[i]),tot)
                g=land(land(pc0,land(N2,neg(NA))),g)
                if g: out.append((t,g,self.subst_store(s,fin,st0)))
            left=rej; ok=lor(ok,N2)
        if left and ok!=1:
            NP=forall(E1,sys,neg(Q)) if Q!=0 else 1
            fin=FinMap(E1,sys); tot=bdd.ors(fin.b(cond[i]) for i in left)
            for i in left:
                t,p,s=exits[i]; g=1 if len(left)==1 else constrain(fin.b(cond[i]),tot)
                g=land(land(pc0,land(NP,neg(ok))),g)
                if g: out.append((t,g,self.subst_store(s,fin,st0)))
            ok=lor(ok,land(neg(ok),NP))
        for p,sp,why in pan: self.panic(land(pc0,neg(ok) if exits else 1),sp,why)
        return out
    def embed_store(self,s,p,st0):
        old=T.PC[0]; T.PC[0]=p
        r={k:(v if st0.get(k)==v else embed(v)) for k,v in s.items()}
        T.PC[0]=old; return r
    def subst_store(self,s,fin,st0):
        return {k:(v if st0.get(k)==v else fin.t(v)) for k,v in s.items()}
    def try_unroll(self,fr,h,L,pc0,st0):
        """Loops driven by a concrete counter or a concrete array are unrolled."""
        if not any(concrete_iter(self,st0,v) for k,v in st0.items() if k!='!log' and (k[0]==fr.uid or k[0]<0)): return None
        save=self.panics; self.panics=[]
        pc,st=pc0,st0; outs=[]
        for it in range(70):
            exits,back=self.run_region(fr,h,L,[(pc,st)])
            outs+=exits
            p2,s2=merge(back)
            if p2==0:
                pan=self.panics; self.panics=save+pan
                return outs
            if it==0 and not concrete_next(self,st0,s2,fr): break
            pc,st=p2,{k:v for k,v in s2.items() if k in st0}
        self.panics=save
        return None
def normalise_vars(sys,conds):
    """Replaces loop variables by a simpler basis: multiples of a constant step by a counter, suffixes of one sequence by an offset."""
    import math
    pre={}; new=[]; again=False
    for mu,init,nxt in sys:
        r=None; ls=[x for _,x in leaves(nxt)]
        if isint(init):
            ks=[]
            for x in ls:
                c,d=T._lin(x,64)
                if d!={mu:1} : ks=None; break
                ks.append(c)
            if ks and any(ks):
                g=math.gcd(*[k for k in ks if k])
                if g>1 and ival(init)%g==0 and g<(1<<32):
                    w=fresh_mu(); r=(w,Int(ival(init)//g),phi([(b,add(64,w,Int(k//g))) for (b,_),k in zip(leaves(nxt),ks)])); pre[mu]=mul(64,w,Int(g))
        else:
            ks=[]
            for x in ls:
                if x==mu: ks.append(Int(0))
                elif opis(x,'slice') and kids(x)[0]==mu and kids(x)[2]==length(mu): ks.append(kids(x)[1])
                else: ks=None; break
            if ks and any(k!=Int(0) for k in ks):
                w=fresh_mu(); N=length(init); r=(w,Int(0),phi([(b,add(64,w,k)) for (b,_),k in zip(leaves(nxt),ks)])); pre[mu]=app('slice',init,w,N); again=True
                L=length(mu)
                for v in T.FAM.get(L,()):
                    a=T.VAR_ATOM[v]; x,y=kids(a)
                    if opis(a,'lt') and x==L and isint(y): pre[a]=Bool(neg(T.fits(w,ival(y),N)))
                    if opis(a,'eq') and Int(0) in(x,y): pre[a]=Bool(neg(lt(w,N)))
        new.append(r or (mu,init,nxt))
    new=[(m,subst(i,pre),subst(n,pre)) for m,i,n in new] if pre else new
    same=coalesce(new)
    if same:
        new=[(m,i,subst(n,same)) for m,i,n in new if m not in same]
        pre={**{k:subst(v,same) for k,v in pre.items()},**{k:v for k,v in same.items()}}
    if not pre: return sys,None
    if again:
        new,p2=normalise_vars(new,conds)
        if p2: pre={**{k:subst(v,p2) for k,v in pre.items()},**p2}
    return new,pre
def coalesce(sys):
    """loop variables that always hold the same value"""
    if len({i for _,i,_ in sys})==len(sys): return {}
    col={m:raw('op','col',(i,)) for m,i,_ in sys}; nc=len(set(col.values()))
    while True:
        col2={m:raw('op','col',(i,subst(n,col))) for m,i,n in sys}; n2=len(set(col2.values()))
        col=col2
        if n2==nc: break
        nc=n2
    rep={}; out={}
    for m,_,_ in sys:
        if col[m] in rep: out[m]=rep[col[m]]
        else: rep[col[m]]=m
    return out
def bdd_size(b):
    return len(bdd.support(b))
import os
LEAK=int(os.environ.get("LEAK","2"))
_leaky={}
def leaky(v):
    r=_leaky.get(v)
    if r is None:
        n=NODES[v]
        r=_leaky[v]=n[0] in('agg','phi') and (any(bdd_size(g)>LEAK for g in n[3]) or any(leaky(x) for x in n[2]))
    return r
_rej={}
def rejecting(w,b,t):
    """every path from block t panics or returns Err"""
    k=(b.path,id(b),t)
    if k in _rej: return _rej[k]
    rt=w.ty(b.crate,b.locals[0][0]); isres=rt[0]=='adt' and rt[1]=='core::result::Result'
    seen=set(); todo=[(t,False)]; ok=True; n=0
    while todo and ok:
        x,err=todo.pop()
        if (x,err) in seen: continue
        seen.add((x,err)); n+=1
        if n>80: ok=False; break
        bl=b.blocks[x]
        for s in bl['s']:
            if s[0]=='=' and s[1][0]==0:
                r=s[2]; err=len(s[1])==1 and r[0]=='agg' and r[1][0]=='adt' and r[1][1]=='core::result::Result' and isres and r[1][2]=='Err'
        e=bl['t']
        if e[0]=='call':
            if e[4] is None: continue
            if e[3][0]==0:
                f=e[1]; err=isres and f[0]=='c' and f[2]=='fn' and f[3].get('name')=='from_residual'
        if e[0]=='return':
            if not err: ok=False
            continue
        if e[0] in('unreachable','resume'): continue
        for y in succs(e): todo.append((y,err))
    _rej[k]=ok
    return ok
class FinMap:
    def __init__(self,E,sys):
        self.E=E; self.sys=sys; self.m={}; self.mus={m for m,_,_ in sys}; self.memo={}; self.bm={}
    def need(self,fv):
        for v in fv:
            if v in self.mus and v not in self.m: self.m[v]=close(self.E,self.sys,v)
    def t(self,v):
        f=FV[v]&self.mus
        if not f: return v
        n=len(self.m); self.need(f)
        if len(self.m)!=n: self.memo={}; self.bm={}
        return subst(v,self.m,self.memo,self.bm)
    def b(self,x):
        f=bdd_fv(x)&self.mus
        if not f: return x
        return tobdd(self.t(Bool(x)))
LOG0=Sym('log0')
class Call:
    __slots__=('key','path','trait','name','res','targs','rargs','av','at','dt','pc','st','sp')
    def __init__(self,*a):
        for n,x in zip(self.__slots__,a): setattr(self,n,x)
def norm(r,pc,st):
    if isinstance(r,tuple): return r
    return pc,r,st
def GETF(v,name,var=None): return globals()['getf'](v,name,var)
def getf(v,name,var=None):
    n=NODES[v]
    if n[0]=='op' and isinstance(n[1],tuple) and n[1][0]=='updf':
        if n[1][2]==name: return n[2][1]
        return getf(n[2][0],name,var)
    if n[0]=='phi': return phi([(g,getf(x,name,var)) for g,x in leaves(v)])
    return fld(v,name,var)
T.REBUILD['updf']=lambda m,base,val: raw('op',m,(base,val))
T.REBUILD['repeat']=lambda m,*ks: repeat(*ks)
def repeat(v,n):
    if isint(n) and ival(n)<=64: return arr([v]*ival(n))
    return raw('op',('repeat',),(v,n))
def mkref(loc):
    root,pr=loc; ks=[]; mp=[]
    for e in pr:
        if e[0] in('i','k'): mp.append((e[0],len(ks))); ks.append(e[1])
        elif e[0]=='s': mp.append(('s',len(ks))); ks+=[e[1],e[2]]
        else: mp.append(e)
    return raw('ref',(root,tuple(mp)),tuple(ks))
def unref(t):
    (root,mp),ks=NODES[t][1],NODES[t][2]
    return root,tuple((e[0],ks[e[1]]) if e[0] in('i','k') else ('s',ks[e[1]],ks[e[1]+1]) if e[0]=='s' else e for e in mp)
def collect_refs(v,out=None,d=0):
    if out is None: out=[]
    k,m,ks,bs=NODES[v]
    if k=='ref':
        if v not in out: out.append(v)
    elif k in('agg','phi') and d<6:
        for x in ks: collect_refs(x,out,d+1)
    return out
def merge(l):
    l=[(p,s) for p,s in l if p!=0]
    if not l: return 0,{}
    if len(l)==1: return l[0]
    pc=bdd.ors(p for p,_ in l)
    keys=set(l[0][1])
    for _,s in l[1:]: keys|=set(s)
    out={}
    for k in keys:
        v0=l[0][1].get(k)
        if v0 is not None and all(s.get(k)==v0 for _,s in l): out[k]=v0; continue
        d=key_default(k)
        vs=[(p,s.get(k,d)) for p,s in l if d is not None or k in s]
        out[k]=phi([(constrain(p,pc),x) for p,x in vs] if pc!=1 else vs)
    return pc,out
CELL=-1000000
def key_default(k):
    if k=='!log': return LOG0
    if isinstance(k,tuple) and k[0]<=CELL and k[1]==-1: return raw('op','cell',(CELL-k[0],))
    return None
def cell_key(v): return (CELL-v,-1)
def cells(S):
    """the contents of every interior-mutable location that differ from the initial ones"""
    ks=sorted(k for k,v in S.st.items() if isinstance(k,tuple) and k[0]<=CELL and k[1]==-1 and v!=key_default(k))
    return tup(*[tup(CELL-k[0],S.st[k]) for k in ks])
def cmp3(a,b):
    l,e=lt(a,b),eq(a,b)
    return phi([(e,ordering('Equal')),(land(l,neg(e)),ordering('Less')),(neg(lor(l,e)),ordering('Greater'))])
def ovf(op,w,a,b):
    def f(x,y):
        if isint(x) and isint(y):
            u,v=ival(x),ival(y); r={'add':u+v,'sub':u-v,'mul':u*v}[op]
            return 0 if 0<=r<(1<<w) else 1
        if op=='sub': return lt(x,y)
        if op in('add','mul'): 
            if isint(y) and ival(y)==0: return 0
            if isint(x) and ival(x)==0: return 0
            if op=='mul' and (isint(x) and ival(x)==1 or isint(y) and ival(y)==1): return 0
            if op=='add' and isint(x): x,y=y,x
            if op=='add' and isint(y): return neg(lt(x,Int((1<<w)-ival(y))))
            if op=='mul' and isint(x): x,y=y,x
            if op=='mul' and isint(y): return neg(lt(x,Int(((1<<w)-1)//ival(y)+1)))
            x,y=sorted((x,y))
            if op=='add': return lt(add(w,x,y),x)
        return atom(raw('op',('ovf',op,w),(x,y)))
    return T._bphi(f,a,b)
T.REBUILD['ovf']=lambda m,x,y: Bool(ovf(m[1],m[2],x,y))
def cast_int(a,ft,tt):
    fn=ft[1] if ft[0]=='prim' else None; tn=tt[1] if tt[0]=='prim' else None
    if NODES[a][0]=='bool' or fn=='bool':
        c=tobdd(a); return ite(c,Int(1),Int(0))
    fw,tw=WIDTH.get(fn),WIDTH.get(tn)
    if isint(a) and tw: return Int(ival(a)%(1<<tw)) if tn[0]=='u' else Int(((ival(a)+(1<<(tw-1)))%(1<<tw))-(1<<(tw-1)))
    if fw is None or tw is None: return a
    if fn[0]=='i' or tn[0]=='i':
        if fn[0]=='i' and tn[0]=='i' and tw>=fw: return a
        return app(('cast',fn,tn),a)
    if tw>=fw: return a
    return trunc(tw,a)
KLEN={}
def set_len(t,n):
    for _,x in leaves(t):
        if NODES[x][0] not in('int','agg'): KLEN[x]=n
_old_len=T.SIMP['len']; OPLEN={}
def _len2(nm,v):
    k=NODES[v]
    if k[0]=='op' and k[1] in OPLEN: return Int(OPLEN[k[1]])
    n=KLEN.get(v)
    if n is not None: return Int(n)
    return _old_len(nm,v)
T.SIMP['len']=_len2
_ARGS={}
def repr_args(g):
    k='<'+', '.join(tstr(x) for x in g)+'>'; _ARGS[k]=g; return k
def args_of(k): return _ARGS.get(k,())
def tstr(t):
    k=t[0]
    if k=='adt': return t[1]+('<'+','.join(tstr(x) for x in t[2])+'>' if t[2] else '')
    if k in('prim','param','const','alias','dyn','fnptr','other'): return str(t[1])
    if k in('ref','mutref','ptr'): return '&'+tstr(t[1])
    if k=='slice': return '['+tstr(t[1])+']'
    if k=='array': return '['+tstr(t[1])+';'+str(t[2])+']'
    if k=='tuple': return '('+','.join(tstr(x) for x in t[1])+')'
    return k+':'+str(t[1])
# loop-carried location helpers
def kid_get(v,kp):
    for i in kp: v=NODES[v][2][i]
    return v
def kid_set(v,kp,x):
    if not kp: return x
    k,m,ks,bs=NODES[v]; l=list(ks); l[kp[0]]=kid_set(ks[kp[0]],kp[1:],x); return agg(m,l)
def kid_diff(v,w,pb,kp=()):
    if v==w: return []
    a,b=NODES[v],NODES[w]
    if a[0]=='agg' and b[0]=='agg' and a[1]==b[1] and len(a[2])==len(b[2]) and a[1][0]!='array':
        out=[]
        for i,(x,y) in enumerate(zip(a[2],b[2])): out+=kid_diff(x,y,pb,kp+(i,))
        return out
    T.PC[0]=pb
    if embed(w)==v: return []
    return [kp]
ITER_TAGS={}
def concrete_iter(ip,st,v,d=0):
    k,m,ks,bs=NODES[v]
    if k!='agg' or d>4: return False
    tag=m[0]
    if tag in('core::ops::range::Range','core::ops::range::RangeInclusive','models::iter::RangeIncl'):
        return isint(ks[0]) and isint(ks[1]) and abs(ival(ks[1])-ival(ks[0]))<=64
    if tag in('models::iter::Seq','models::iter::SeqMut'):
        return isint(ks[1]) and isint(ks[2]) and ival(ks[2])-ival(ks[1])<=(64 if tag.endswith('Mut') or isarr(ks[0]) else 8)
    if tag.startswith('models::iter::'): return any(concrete_iter(ip,st,x,d+1) for x in ks)
    return False
def concrete_next(ip,st0,s2,fr):
    for k,v in st0.items():
        if k!='!log' and (k[0]==fr.uid or k[0]<0) and concrete_iter(ip,st0,v):
            w=s2.get(k)
            if w is not None and w!=v and concrete_iter(ip,s2,w): return True
    return False
