"""Decides one obligation; appends violations (key, message, detail, spans)."""
import re
from prims import opk
import interp,prims,equiv,bdd,sweep
import terms as T
from terms import *
from bdd import land
from equiv import *
def calls_of(w,fns):
    return sum(1 for f in fns if f in w.bodies for b in w.bodies[f].blocks if b['t'][0]=='call')
def run(o,w,viol,repo):
    v=[]; r=globals()['run_'+o['kind']](o,w,v,repo)
    for alt in o.get('alts',()) if v else ():     # an equally good way to meet the property, decided by obligations of its own
        v2=[]
        try: rs=[run(x,w,v2,repo) for x in alt]
        except Exception as x: v2.append(x)
        if not v2: return dict(rs[0],functions=sorted({f for q in rs for f in q.get('functions',())}))
    viol+=v
    return r
def run_eq(o,w,viol,repo):
    c,s=o['code'],o['spec']
    for p in (c,s):
        if p not in w.bodies: raise Exception('anchor %s is missing'%p)
    for _ in range(2): A=summary(w,c,o['cuts'],opts=o.get('opts')); B=summary(w,s,o['cuts'],opts=o.get('opts'))
    parts=o.get('parts') or ('accept','payload')
    if o.get('imp'):
        # not equivalent as a whole: does every accepted input still meet this property's own conditions?
        try_=[]; run_eq(dict(o,imp=None),w,try_,repo)
        if not try_: parts=()
        else:
            s=o['imp']
            if s not in w.bodies: raise Exception('anchor %s is missing'%s)
            for _ in range(2): A=summary(w,c,o['cuts'],opts=o.get('opts')); B=summary(w,s,o['cuts'],opts=o.get('opts'))
            B.accept=land(A.accept,B.accept)
            parts=o.get('impparts') or ('accept',)
    if not o.get('state') and (A.accept,A.payload)!=(B.accept,B.payload): sweep.align(A,B)
    bad=[]; det=[]; roots=[]
    if 'accept' in parts and not equiv_b(A.accept,B.accept):
        bad.append('accepts a different set of inputs'); roots+=[(roots_b(A.accept),roots_b(B.accept))]
        for p,x,y in bdiff(A.accept,B.accept): det.append('ACCEPT %s\n   code %s\n   spec %s'%(p,show(x,8)[:3000],show(y,8)[:3000]))
    if 'covers' in parts and not equiv_b(land(A.accept,B.accept),B.accept):
        bad.append('refuses inputs'); roots+=[(roots_b(A.accept),roots_b(B.accept))]
        for p,x,y in bdiff(A.accept,B.accept): det.append('REFUSES %s\n   code %s\n   spec %s'%(p,show(x,8)[:3000],show(y,8)[:3000]))
    if 'total' in parts and not equiv_b(A.pc,B.pc):
        bad.append('aborts on a different set of inputs'); roots+=[(roots_b(A.pc),roots_b(B.pc))]
        for p,x,y in bdiff(A.pc,B.pc): det.append('TOTAL %s\n   code %s\n   spec %s'%(p,show(x,8)[:3000],show(y,8)[:3000]))
    if 'payload' in parts:
        d=diff_fields(A.payload,B.payload,land(A.accept,B.accept))
        if o.get('imp') and o.get('fields') is not None: d=[x for x in d if re.match(r'\.?(\d+)',x[0]) is None or int(re.match(r'\.?(\d+)',x[0])[1]) in o['fields']]
        for p,x,y,cc in d[:6]:
            bad.append('returns a different value%s'%(' in '+p if p else '')); roots.append(([x],[y]))
            for q,x,y in tdiff(x,y): det.append('RESULT %s %s\n   code %s\n   spec %s'%(p,q,show(x,8)[:3000],show(y,8)[:3000]))
    for n,f in (o.get('state') or {}).items():
        x,y=f(A),f(B)
        d=diff_fields(x,y,land(A.accept,B.accept))
        for p,x,y,cc in d[:6]:
            bad.append('leaves a different %s%s'%(n,p)); roots.append(([x],[y]))
            for q,x,y in tdiff(x,y): det.append('STATE %s %s %s\n   code %s\n   spec %s'%(n,p,q,show(x,8)[:3000],show(y,8)[:3000]))
    fns=sorted(f for f in A.ip.funcs if not f.startswith(('models::','specs_')))
    if bad:
        sp={}
        for x,y in roots: sp.update(blame(x,y,repo))
        viol.append((c+'~'+s.split('::')[-1],'; '.join(dict.fromkeys(bad))+' than the reference %s'%s+(' (unmodelled: %s)'%', '.join(sorted(set(A.ip.opaque)-set(B.ip.opaque))) if set(A.ip.opaque)-set(B.ip.opaque) else ''),'\n'.join(det),list(sp)[:12]))
    return dict(obligation=c,reference=s,rule='same acceptance, result and effects for every input',verdict='violated' if bad else 'holds',functions=fns,calls=calls_of(w,fns),values=len(subterms(roots_b(A.accept)+[A.payload])))

def related(key,m):
    """the arguments m={index: field} are those fields of one and the same successful result of a call of `key`"""
    def f(ip,pc,vals,cx):
        (i,n),*rest=m.items(); base=[]
        for g,x in leaves(vals[i]):
            if land(g,pc)==0: continue
            b=x
            for nm in ('%s'%n,'0'):
                if NODES[b][0]!='fld' or NODES[b][1][1]!=nm: return 0,'argument %d is not result %s of %s'%(i,n,key)
                b=NODES[b][2][0]
            r=NODES[b][2][0] if opk(b)=='await' else b
            if opk(r)!=key: return 0,'argument %d does not come from %s'%(i,key)
            base.append((g,NODES[x][2][0]))
        T.PC[0]=pc; o=phi(base); ok=1
        for j,n2 in rest: ok=land(ok,eq(fld(o,n2),vals[j]))
        T.PC[0]=1; return ok,None
    return f
def written(outputs,key):
    """what is written is one of the outputs of one result of a call of `key`, to the file whose name carries that output's suffix and the result's epoch (argument 1 of the call).
    outputs={suffix: function(result) -> term}"""
    def f(ip,pc,vals,cx):
        for g,x in leaves(vals[0]):
            for h,d in leaves(vals[1]):
                if land(land(g,h),pc)==0: continue
                ps=[t for t in subterms([d]) if opk(t)==key]
                if not ps: return 0,'what is written does not come from %s'%key
                names=[t for t in subterms([x]) if opk(t)=='text' and len(kids(t))==2 and opk(kids(t)[0])=='display' and NODES[kids(t)[1]][0]=='str']
                if len(names)!=1: return 0,'the file is not named after one epoch'
                e=kids(kids(names[0])[0])[0]; suf=NODES[kids(names[0])[1]][1]
                if suf not in outputs: return 0,'unknown file *%s'%suf
                ok=False
                for q in ps:
                    a=app('await',q); r=fld(a,'0','Ok')
                    if d in outputs[suf](r) and (kids(q)[1]==e or kids(e)[:1] and kids(e)[0]==kids(q)[1]): ok=True
                if not ok: return 0,'*%s is not what belongs there'%suf
                f.seen.add(suf)
        return 1,None
    f.seen=set(); f.missing=lambda: sorted(set(outputs)-f.seen)
    return f
def run_calls(o,w,viol,repo):
    """every call of the named functions that the body (or what it calls) makes, under the conditions that lead to it, satisfies a predicate over its arguments and the values named in ctx"""
    c=o['code']
    if c not in w.bodies: raise Exception('anchor %s is missing'%c)
    rec={n:r for n,(r,_) in o['calls'].items()}
    for _,f in o['calls'].values():
        if hasattr(f,'seen'): f.seen.clear()
    A=summary(w,c,o['cuts'],opts=dict(o.get('opts') or {},record=rec)); done=[]; T.PC[0]=1; fns=set(A.ip.funcs)
    for n in rec:
        if not any(x[0]==n for x in A.ip.records): raise Exception('no call of %s is reached from %s'%(n,c))
    for n,pc,vals,sp in A.ip.records:
        if not sat(pc): continue
        spec=o['calls'][n][1]; sub=subterms(list(vals)+roots_b(pc)); cx=[]; why=None
        for k,x in o.get('ctx',()):
            l=[t for t in sub if NODES[t][0]=='fld' and NODES[t][1][1]==x]
            cx.append(l)
        if callable(spec): good,why=spec(A.ip,pc,vals,cx)
        else:
            b=w.bodies[spec]; k=b.argc-len(vals)
            if k<0 or any(len(l)!=1 for l in cx[:k]): good,why=0,'cannot relate the call to %s'%', '.join(x for (_,x),l in zip(o['ctx'],cx) if len(l)!=1)
            else:
                T.PC[0]=pc; p,r,_=A.ip.call_body(b,{g:('param',g) for g in b.generics},list(vals)+[l[0] for l in cx[:k]],pc,dict(A.st)); T.PC[0]=1
                good=land(p,tobdd(r))
        bad=land(pc,neg(good)); ok=bad==0 or not sat(bad) or equiv_b(bad,0)
        done.append(n)
        if not ok: viol.append((c+'~'+n,'calls %s with arguments that do not satisfy %s'%(n,spec if isinstance(spec,str) else o.get('rule',n))+(' (%s)'%why if why else ''),'\n'.join(show(v,10)[:1500] for v in vals)+'\nWHEN '+showb(bad,8)[:2000],[sp]))
    for n in rec:
        m=getattr(o['calls'][n][1],'missing',lambda: ())() if not viol else ()
        if m: viol.append((c+'~'+n,'never writes '+', '.join('*'+x for x in m),'',[w.bodies[c].span]))
    fns=sorted(f for f in fns if not f.startswith(('models::','specs_')))
    return dict(obligation='calls from '+c,reference=', '.join(o['calls']),rule='every reached call satisfies its predicate',verdict='violated' if viol else 'holds',functions=fns,calls=len(done),values=len(done))

def run_layout(o,w,viol,repo):
    """a container's fields are those of the specification, in its order and with its element types"""
    import layouts
    if o['anchor'] not in w.bodies: raise Exception('anchor %s is missing'%o['anchor'])
    ty,rows=layouts.actual(w,o['anchor'],o['arg']); want=getattr(layouts,o['want'])
    bad=layouts.mismatches(rows,want)
    if bad: viol.append((ty+'~layout','is not laid out as the specification says: '+bad[0],'\n'.join(bad),[w.adts[ty].get('span') or ty]))
    for p,(n,fs) in (layouts.subcontainers(w,o['anchor'],o['arg']) if rows and o['want']!='ANY' else {}).items():
        b=layouts.mismatches(fs,layouts.CONTAINERS[n]) if n in layouts.CONTAINERS else ['unknown container %s'%fs]
        if b: viol.append((p+'~layout','is not laid out as the specification says: '+b[0],'\n'.join(b),[p]))
    return dict(obligation='layout of '+ty,reference='analysis/layouts.py '+o['want'],rule='same fields, order, element types and limits as the consensus specification',verdict='violated' if bad else 'holds',functions=[ty],calls=0,values=len(rows))

def mentions(w,t,path):
    if t[0]=='adt': return t[1]==path or any(mentions(w,x,path) for x in t[2] if isinstance(x,tuple) and x and isinstance(x[0],str) and x[0]!='const')
    if t[0] in('ref','mutref','slice','array'): return mentions(w,t[1],path)
    if t[0]=='tuple': return any(mentions(w,x,path) for x in t[1])
    return False
def derived(w,p): return p[:p.rfind('::')] in w.derived or '::_serde' in p or '_::' in p
def builders(w,ty,repo):
    """public functions that construct `ty` themselves or through private helpers"""
    con=set(); calls={}
    for p,b in w.bodies.items():
        if not b.span.startswith(repo) or derived(w,p): continue
        own=p.split('::{closure')[0]; cs=calls.setdefault(own,set())
        for bl in b.blocks:
            for s in bl['s']:
                if s[0]=='=' and s[2][0]=='agg' and s[2][1][0]=='adt' and s[2][1][1]==ty: con.add(own)
            t=bl['t']
            if t[0]=='call' and t[1][0]=='c' and t[1][2]=='fn': cs.add(t[1][3].get('res') or t[1][3]['path'])
    pub=lambda p: p in w.bodies and w.bodies[p].j.get('vis')!='priv'
    out=set(); todo=set(con); seen=set()
    while todo:
        f=todo.pop(); seen.add(f)
        if pub(f): out.add(f); continue
        todo|={c for c,l in calls.items() if f in l}-seen
    return sorted(out),sorted(con)
def run_ensures(o,w,viol,repo):
    """every public function that builds a value of the type returns one satisfying the predicate, given inputs that satisfy it"""
    ty=o['type']; post=w.bodies[o['post']]; fs,con=builders(w,ty,repo); n=0; funcs=set(fs)|set(con)
    if not con: raise Exception('no construction of %s found'%ty)
    for f in fs:
        b=w.bodies[f]; rt=w.ty(b.crate,b.locals[0][0])
        if not mentions(w,rt,ty): continue
        ok=False
        direct=rt[0]=='adt' and (rt[1]==ty or rt[1] in(OPT,RES) and rt[2][0][0]=='adt' and rt[2][0][1]==ty)
        if direct:
            n+=1
            A=summary(w,f); T.PC[0]=1
            pre=A.accept
            for i,a in enumerate(A.args):
                pt=w.ty(b.crate,b.locals[i+1][0])
                while pt[0] in('ref','mutref'): pt=pt[1]
                if pt[0]=='adt' and pt[1]==ty:
                    v=A.ip.deref_all(A.st0,a); p,r,_=A.ip.call_body(post,{},[v],1,dict(A.st0)); pre=land(pre,land(p,tobdd(r)))
            p,r,_=A.ip.call_body(post,{},[A.payload],pre,dict(A.st))
            bad=land(pre,neg(land(p,tobdd(r)))); ok=not sat(bad); funcs|=A.ip.funcs
        if not ok: viol.append((f,'can return a %s that violates %s'%(ty.split('::')[-1],o['post'].split('::')[-1]),show(Bool(bad),8)[:4000] if direct else 'result type not analysed',[b.span]))
    return dict(obligation='ensures '+ty,reference=o['post'],rule='every public builder returns only values satisfying the predicate',verdict='holds' if not any(v[0] in fs for v in viol) else 'violated',builders=fs,checked=n,functions=sorted(x for x in funcs if not x.startswith(('models::','specs_'))))

# ---- transport: what is serialised is what is deserialised ----
SER,DES='serde::ser::Serialize>::serialize','serde::de::Deserialize>::deserialize'
CODECS=('serde_with::Same','z_core::serde_utils::','alloc::vec::Vec','alloc::collections::btree::','alloc::alloc::Global','core::option::Option')
def _calls(w,b):
    for bl in b.blocks:
        t=bl['t']
        if t[0]=='call':
            if t[1][0]!='c' or t[1][2]!='fn': yield '?',[],[]; continue
            yield t[1][3]['path'],[w.ty(b.crate,x) for x in t[1][3].get('args') or []],t[2]
def _impl(w,ty,suffix):
    """the body of a trait method for the type with this path, whatever its own generics"""
    c=[p for p in w.bodies if p.startswith('<'+ty) and p.endswith(' as '+suffix) and re.fullmatch(r'(<[^<>]*>)?',p[len(ty)+1:-len(suffix)-4])]
    return c[0] if len(c)==1 else None
def _plain(t):
    while t[0] in('ref','mutref'): t=t[1]
    return interp.tstr(t)
def _codec(t):
    """codec types mentioned in a with-adapter, or None if one of them is not known"""
    if t[0]!='adt': return interp.tstr(t)
    if not t[1].startswith(CODECS): return None
    xs=[_codec(x) for x in t[2] if isinstance(x,tuple)]
    return None if None in xs else interp.tstr(t)
PLUMBING=('core::ops::try_trait::','core::default::Default::default','serde::de::Error::','serde::ser::Error::','core::option::Option::map','core::option::Option::is_some','core::option::Option::is_none')
def _elements(w,body,which,tyarg,adapter,bad,what,extra=()):
    """the element types a derived body writes or reads, in order, with the codec each goes through"""
    b=w.bodies[body]; n=0
    withs=[x for p in sorted(w.same) if re.fullmatch(re.escape('<'+body+'::'+adapter[1])+'(<[^<>]*>)?'+re.escape(' as '+adapter[0]),p) for x in w.same[p]]
    out=[]
    for p,ts,args in _calls(w,b):
        if p==which:
            t=ts[tyarg]; name=next((a[3] for a in args if a[0]=='c' and a[2]=='str'),None)
            while t[0] in('ref','mutref'): t=t[1]
            if t[0]=='adt' and adapter[1] in t[1]:
                if n>=len(withs): bad.append('%s: the adapter of element %d was not found'%(what,len(out))); out.append((name,'?','?')); continue
                cs=[(q,a) for q,a,_ in _calls(w,withs[n]) if not q.startswith(PLUMBING)]; n+=1
                if len(cs)==1 and cs[0][0].startswith('serde_with::As::'): out.append((name,_plain(cs[0][1][2]),_codec(cs[0][1][0]) or '?'+interp.tstr(cs[0][1][0])))
                elif len(cs)==1 and cs[0][0]=='serde::__private::de::borrow_cow_bytes': out.append((name,_plain(cs[0][1][1]),''))
                else: bad.append('%s: element %d goes through %s, which is not decided'%(what,len(out),[c[0] for c in cs])); out.append((name,'?','?'))
            else: out.append((name,_plain(t),''))
        elif not p.startswith(PLUMBING) and p not in extra: bad.append('%s: calls %s, so an element may be left out or made up'%(what,p))
    return out
def _derived(w,sty,dty,viol,spans):
    """sty's derived serialisation writes exactly what dty's derived deserialisation reads"""
    bad=[]; ser=_impl(w,sty,SER); vis=[p for p in w.bodies if '<'+dty in p and p.endswith('__Visitor>::visit_seq') or '<'+dty in p and re.search(r'__Visitor(<[^<>]*>)? as serde::de::Visitor>::visit_seq$',p)]
    vis=[p for p in vis if re.match(r'<<<?%s(<[^<>]*>)? as serde::de::Deserialize>::deserialize::__Visitor'%re.escape(dty),p)]
    if ser is None or len(vis)!=1: raise Exception('the serialisation of %s or the deserialisation of %s is not where it was expected'%(sty,dty))
    seq=vis[0]; mp=seq[:-9]+'visit_map'; name=sty.split('::')[-1]
    s=_elements(w,ser,'serde::ser::SerializeStruct::serialize_field',1,(SER,'__SerializeWith'),bad,'serialising '+name,('serde::ser::Serializer::serialize_struct','serde::ser::SerializeStruct::end'))
    d=_elements(w,seq,'serde::de::SeqAccess::next_element',1,(DES,'__DeserializeWith'),bad,'deserialising '+name)
    m=_elements(w,mp,'serde::de::MapAccess::next_value',1,(DES,'__DeserializeWith'),bad,'deserialising %s from a map'%name,('serde::de::MapAccess::next_key','serde::__private::de::missing_field'))
    m=[x for x in m if x[1]!='serde::de::ignored_any::IgnoredAny']
    for ty,got in ((sty,[x[0] for x in s]),):
        a=w.adts[ty]; decl=[f for f,_ in a['variants'][0]['fields']]
        free=sum(1 for _,t in a['variants'][0]['fields'] if w.ty(a['crate'],t)[:2]==('adt','core::marker::PhantomData'))
        if not len(decl)-free<=len(got)<=len(decl): bad.append('serialising %s: writes %s, its fields are %s'%(name,got,decl))
    if [(x[1],x[2]) for x in s]!=[(x[1],x[2]) for x in d]:
        for i in range(max(len(s),len(d))):
            x=s[i] if i<len(s) else None; y=d[i] if i<len(d) else None
            if not x or not y or x[1:]!=y[1:]: bad.append('element %d of %s is written as %s and read as %s'%(i,name,x and x[1:],y and y[1:]))
    a=w.adts[dty]; dn=len(a['variants'][0]['fields'])
    if not dn-free<=len(d)<=dn: bad.append('deserialising %s: reads %d elements for %d fields'%(name,len(d),dn))
    if sorted((x[1],x[2]) for x in s)!=sorted((x[1],x[2]) for x in m): bad.append('%s is written as %s and read from a map as %s'%(name,[x[1:] for x in s],[x[1:] for x in m]))
    fv=[p for p in w.bodies if p.endswith('__FieldVisitor as serde::de::Visitor>::visit_str') and re.match(r'<<<?%s(<[^<>]*>)? as serde::de::Deserialize>'%re.escape(dty),p)]
    known=[]
    for p in fv:
        for q,ts,args in _calls(w,w.bodies[p]): known+=[a[3] for a in args if a[0]=='c' and a[2]=='str']
    it=iter(known)
    if not all(x[0] in it for x in s): bad.append('%s is written under the names %s and read under %s'%(name,[x[0] for x in s],known))
    return bad,[ser,seq,mp],s
def _leaf(v):
    """path of a value that is a projection of a symbol or of an opaque result"""
    path=[]
    while NODES[v][0]=='fld': path.append(NODES[v][1][1]); v=NODES[v][2][0]
    return v,tuple(reversed(path))
def _manual(w,ty,viol):
    """a hand-written pair that goes through structs of its own: which one, and does deserialising put every part back where it came from"""
    ser,de=_impl(w,ty,SER),_impl(w,ty,DES); bad=[]
    cuts=[p for p in w.bodies if p.startswith(('<'+ser+'::','<'+de+'::')) and p.endswith((SER,DES)) and '::__' not in p]      # its own structs are judged below
    for _ in range(2): A=summary(w,ser,cuts); B=summary(w,de,cuts)
    k,m,ks,bs=NODES[_leaf(A.payload)[0]]; m=m if isinstance(m,str) else str(m[0])
    if k!='op' or not m.startswith('serde::ser::Serialize::serialize') or NODES[ks[0]][0]!='agg' or ks[1]!=A.args[1]: raise Exception('how %s is serialised is not decided'%ty)
    sty=NODES[ks[0]][1][0]; parts={f:_leaf(x) for f,x in zip(NODES[ks[0]][1][2],NODES[ks[0]][2])}
    leaves={}
    def walk(v,p):
        if NODES[v][0]=='agg':
            for f,x in zip(NODES[v][1][2],NODES[v][2]): walk(x,p+(f,))
        else: leaves[p]=_leaf(v)
    walk(B.payload,())
    srcs={v for v,_ in leaves.values()}
    if len(srcs)!=1: raise Exception('how %s is deserialised is not decided'%ty)
    src=srcs.pop(); k,m,ks,bs=NODES[src]; m=m if isinstance(m,str) else '.'.join(map(str,m))
    if k!='op' or not m.startswith('serde::de::Deserialize::deserialize') or ks[0]!=B.args[0]: raise Exception('how %s is deserialised is not decided'%ty)
    dty=next((p for p in w.adts if m.startswith('serde::de::Deserialize::deserialize.'+p) and p.endswith(p.split('::')[-1]) and m[len('serde::de::Deserialize::deserialize.'+p):len('serde::de::Deserialize::deserialize.'+p)+1] in('.','<','')),None)
    me=A.args[0]
    me=A.ip.deref_all(A.st0,me) if hasattr(A.ip,'deref_all') else me
    put={p:q[-1:] for p,(_,q) in leaves.items()}
    if any(len(q)<1 for q in put.values()): bad.append('a part of %s is the whole of what was read'%ty)
    want={path:(f,) for f,(v,path) in parts.items()}
    if put!=want: bad.append('%s is taken apart as %s but put together as %s'%(ty.split('::')[-1],{'.'.join(p):f[0] for p,f in want.items()},{'.'.join(p):f[0] if f else '' for p,f in put.items()}))
    if {v for v,_ in parts.values()}!={me} and {v for v,_ in parts.values()}!={A.args[0]}: bad.append('%s is not serialised from its own parts'%ty)
    if not equiv_b(A.accept,isv(_leaf(A.payload)[0],RES,0)): bad.append('serialising %s fails on more than the serialiser'%ty)
    if not equiv_b(B.accept,isv(src,RES,0)): bad.append('deserialising %s refuses what was written'%ty)
    return sty,dty,bad,[ser,de]
def run_codec(o,w,viol,repo):
    """every local type reachable from the root is read back exactly as it is written, field for field, each through one codec"""
    todo=[o['root']]; seen=set(); fns=[]; n=0
    while todo:
        ty=todo.pop()
        if ty in seen: continue
        seen.add(ty); bad=[]
        try:
            ser=_impl(w,ty,SER)
            if ser is None: raise Exception('no serialisation of %s found'%ty)
            struct=any(p=='serde::ser::Serializer::serialize_struct' for p,_,_ in _calls(w,w.bodies[ser]))
            if struct: bad,f,rows=_derived(w,ty,ty,viol,None)
            else:
                sty,dty,bad,f=_manual(w,ty,viol); b2,f2,rows=_derived(w,sty,dty,viol,None); bad+=b2; f+=f2
        except Exception as x:
            if o.get('trace'): raise
            viol.append((ty+'~codec','undecided: '+str(x)[:300],'',[ty])); continue
        fns+=f; n+=len(rows)
        if bad: viol.append((ty+'~codec','is not read back as it was written: '+bad[0],'\n'.join(bad),[w.bodies[f[0]].span]))
        for _,t,c in rows:
            for p in w.adts:
                if w.adts[p].get('local') and w.adts[p]['crate'] in('z_core','ssz_multiproofs') and re.search(r'(?<![\w:])%s(?![\w:])'%re.escape(p),t): todo.append(p)
    return dict(obligation='transport of '+o['root'],reference='the derived and hand-written Serialize and Deserialize of %s'%', '.join(sorted(s.split('::')[-1] for s in seen)),rule='fields in declaration order, written and read with one codec, none skipped or defaulted (%d fields)'%n,verdict='holds' if not viol else 'violated',functions=sorted(set(fns)))
