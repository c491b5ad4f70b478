"""Transfer functions for operations that have no analysable body: standard-library containers, integers, hashing, conversions.
Everything not listed here and without a model in /verif/models is an uninterpreted function of its arguments."""
import re
import bdd
from bdd import land,lor,neg
from terms import *
import terms as T
import interp as I
IT='core::iter::traits::iterator::Iterator'; DE='core::iter::traits::double_ended::DoubleEndedIterator'
OPT='core::option::Option'; RES='core::result::Result'; CF='core::ops::control_flow::ControlFlow'
EXACT={}; PREFIX=[]; CONSTS={}
def prim(*keys):
    def d(f):
        for k in keys: EXACT[k]=f
        return f
    return d
def prefix(*keys):
    def d(f):
        for k in keys: PREFIX.append((k,f))
        return f
    return d
SEQT={'alloc::vec::Vec','smallvec::SmallVec','alloc::collections::vec_deque::VecDeque','bitvec::vec::BitVec','bitvec::slice::BitSlice','alloc::string::String','bitvec::boxed::BitBox',
      'alloc::collections::binary_heap::BinaryHeap','bytes::bytes::Bytes','alloy_primitives::bytes_::Bytes','alloc::collections::linked_list::LinkedList','arrayvec::ArrayVec','generic_array::GenericArray'}
MAPT={'alloc::collections::btree::map::BTreeMap','std::collections::hash::map::HashMap','hashbrown::map::HashMap','indexmap::map::IndexMap'}
SETT={'alloc::collections::btree::set::BTreeSet','std::collections::hash::set::HashSet','hashbrown::set::HashSet','indexmap::set::IndexSet'}
BOXT={'alloc::boxed::Box','alloc::rcs::arc::Arc','alloc::rcs::rc::Rc','alloc::sync::Arc','alloc::rc::Rc','alloc::borrow::Cow','core::pin::Pin'}
MEMPTY=raw('op','mempty'); SEMPTY=raw('op','sempty'); EMPTYSEQ=arr(())
U64MAX=Int((1<<64)-1)
def peel(t):
    while t and t[0] in('ref','mutref','ptr') or (t and t[0]=='adt' and t[1] in BOXT and t[2]): t=t[1] if t[0]!='adt' else t[2][0]
    return t
def tkind(t):
    """-> 'seq','map','set','opt','res',None"""
    t=peel(t) if t else t
    if not t: return None
    if t[0] in('slice','array'): return 'seq'
    if t[0]=='prim' and t[1]=='str': return 'seq'
    if t[0]=='adt':
        if t[1] in SEQT: return 'seq'
        if t[1] in MAPT: return 'map'
        if t[1] in SETT: return 'set'
        if t[1]==OPT: return 'opt'
        if t[1]==RES: return 'res'
    return None
def D(ip,c,i=0): return ip.deref_all(c.st,c.av[i])
def wr(ip,c,st,i,val):
    """store val through the &mut argument i (or through a plain place holding a reference)"""
    ip.write_ref(st,last_ref(ip,st,c.av[i]),val)
def last_ref(ip,st,r):
    for _ in range(6):
        if NODES[r][0]!='ref': return r
        v=ip.loc_read(st,I.unref(r))
        if NODES[v][0]=='ref': r=v; continue
        if NODES[v][0]=='phi' and all(NODES[x][0]=='ref' for _,x in leaves(v)): r=v; continue
        return r
    return r
def upd(ip,c,val,ret=None,pc=None):
    st=dict(c.st); wr(ip,c,st,0,val)
    return (c.pc if pc is None else pc), (UNIT if ret is None else ret), st
def fork(ip,c,cond,why):
    """panic unless cond; -> surviving pc"""
    ok=ip.cond(c.pc,cond)
    if ok!=c.pc: ip.panic(land(c.pc,neg(ok)),c.sp,why)
    T.PC[0]=ok
    return ok
def ident(ip,c): return D(ip,c)
def ident_keep(ip,c): return c.av[0]
# ------------------------------------------------------------------ models' primitives
M='models::prim::'
@prim(M+'get')
def _(ip,c): return index(D(ip,c),c.av[1])
@prim(M+'get_mut')
def _(ip,c):
    out=[]
    for g,r in leaves(last_ref(ip,c.st,c.av[0])):
        if NODES[r][0]!='ref': out.append((g,index(r,c.av[1]))); continue
        root,pr=I.unref(r); out.append((g,I.mkref((root,pr+(('i',c.av[1]),)))))
    return phi(out)
@prim(M+'len')
def _(ip,c): return length(D(ip,c))
@prim(M+'push')
def _(ip,c): return upd(ip,c,app('push',D(ip,c),c.av[1]))
@prim(M+'has')
def _(ip,c): return Bool(shas(D(ip,c),ip.strip(c.st,ip.deref_all(c.st,c.av[1]))))
@prim(M+'slice')
def _(ip,c): return app('slice',D(ip,c),c.av[1],c.av[2])
EACH={'FlattenOpt':'flatten_opt','Chain':'chain','FlatMap':'flat_map','Flatten':'flatten','Map':'map','Filter':'filter','FilterMap':'filter_map','Inspect':'inspect','Once':'once'}
@prim(M+'each')
def _(ip,c):
    it=prep(ip,c,c.av[0]); n=NODES[it]
    if n[0]=='phi':
        outs=[]
        for g,x in leaves(it):
            p=ip.cond(c.pc,g)
            if p==0: continue
            c2=I.Call(*[getattr(c,k) for k in I.Call.__slots__]); c2.pc=p; c2.st=dict(c.st); c2.av=[x,c.av[1]]; T.PC[0]=p
            outs.append(I.norm(EXACT[M+'each'](ip,c2),p,c2.st))
        return join(outs)
    tag=n[1][0] if n[0]=='agg' else ''
    k=EACH.get(tag[14:]) if tag.startswith('models::iter::') else None
    return ip.call_body(ip.w.bodies['models::iter::each_'+(k or 'default')],{},[it,c.av[1]],c.pc,c.st)
@prim(M+'build')
def _(ip,c):
    names=NODES[D(ip,c)][1].split(','); v=dict(zip(names,(fld(c.av[1],str(i)) for i in range(len(names)))))
    t=c.dt; a=ip.w.adts[t[1]]; fs=a['variants'][0]['fields']; fs=[f if isinstance(f,str) else f['name'] if isinstance(f,dict) else f[0] for f in fs]
    if sorted(fs)!=sorted(names): raise I.Unsupported('fields of %s are %s'%(t[1],fs))
    return struct(t[1],None,tuple(fs),[v[n] for n in fs])
@prim(M+'cast')
def _(ip,c): return c.av[0]
@prim(M+'take')
def _(ip,c): return D(ip,c)
@prim(M+'seq')
def _(ip,c): return into_iter(ip,c,c.av[0],c.at[0])
@prim(M+'is_lt')
def _(ip,c): return Bool(lt_any(ip,D(ip,c),D(ip,c,1)))
@prim(M+'is_eq')
def _(ip,c): return do_eq(ip,c)
@prim(M+'zero')
def _(ip,c): return Int(0)
@prim(M+'one_of')
def _(ip,c): return Int(1)
@prim(M+'add',M+'mul')
def _(ip,c):
    t=peel(c.targs[0]); w=I.WIDTH.get(t[1],64) if t[0]=='prim' else 64
    a,b=D(ip,c),D(ip,c,1)
    if t[0]=='adt' and c.key.endswith('add'): return sat('add',a,b)
    return (add if c.key.endswith('add') else mul)(w,a,b)
@prim(M+'empty')
def _(ip,c): return empty_of(c.targs[0])
def empty_of(t):
    k=tkind(t)
    if k=='map': return MEMPTY
    if k=='set': return SEMPTY
    return EMPTYSEQ
@prim(M+'extend_one')
def _(ip,c): return upd(ip,c,ext1(c.targs[0],D(ip,c),c.av[1]))
def ext1(t,b,x):
    k=tkind(t)
    if k=='map': return app('minsert',b,fld(x,'0'),fld(x,'1'))
    if k=='set': return app('sinsert',b,x)
    return app('push',b,x)
@prim(M+'sha256')
def _(ip,c): return app('sha256',app('concat',D(ip,c),D(ip,c,1)))
@prim(M+'field')
def _(ip,c): return I.GETF(D(ip,c),NODES[c.av[1]][1])
# ------------------------------------------------------------------ iterators
def mseq(s,a,b): return struct('models::iter::Seq',None,('s','pos','end'),(s,a,b))
def mseqmut(s,a,b): return struct('models::iter::SeqMut',None,('s','pos','end'),(s,a,b))
def seq_of(v): return mseq(v,Int(0),length(v))
ITERTAGS=('core::ops::range::Range','core::ops::range::RangeFrom','core::ops::range::RangeInclusive')
def is_iter(ip,v):
    n=NODES[v]
    if n[0]=='ref' : return True
    if n[0]!='agg': return False
    tag=n[1][0]
    if tag.startswith('models::iter::') or tag in ITERTAGS: return True
    return has_impl(ip,IT,tag)
def has_impl(ip,trait,tag):
    for i in ip.w.impls.get(trait,()):
        t=ip.w.ty(i['crate'],i['self'])
        if t[0]=='adt' and t[1]==tag: return True
    return False
def into_iter(ip,c,v,ty):
    n=NODES[v]
    if n[0]=='phi':
        return phi([(g,into_iter(ip,c,x,ty)) for g,x in leaves(v)])
    mut=bool(ty) and ty[0]=='mutref' and n[0]=='ref'
    if mut:
        k=tkind(ty)
        r=last_ref(ip,c.st,v); cur=ip.deref_all(c.st,v)
        if k=='seq' or isarr(cur): return mseqmut(r,Int(0),length(cur))
        if k=='map': return mutvals(ip,c,r,True)
        return v
    cur=ip.deref_all(c.st,v) if not(n[0]=='agg') else v
    n=NODES[cur]
    if n[0]=='agg':
        if n[1][0]=='array': return seq_of(cur)
        if n[1][0]==OPT: return struct('models::iter::Once',None,('v',),(cur,))
        if n[1][0]==RES: return struct('models::iter::Once',None,('v',),(phi([(isv(cur,RES,0),Some(fld(cur,'0','Ok'))),(isv(cur,RES,1),NONE)]),))
        if is_iter(ip,cur): return v if NODES[v][0]=='ref' and ty and ty[0]=='mutref' else cur
    k=tkind(ty)
    if k=='map' or opk(cur) in('minsert','mempty','msetvals'): return seq_of(app('entries',cur))
    if k=='set' or opk(cur) in('sinsert','setof','sempty','sdiff','sunion','sinter','ssym'): return seq_of(app('elems',cur))
    if k=='opt': return struct('models::iter::Once',None,('v',),(cur,))
    if k=='seq': return seq_of(cur)
    if isseq(cur): return seq_of(cur)
    if NODES[v][0]!='ref' and n[0]!='agg' and ty and ty[0] not in('ref','mutref','param'): return seq_of(cur)
    return v
def opk(t):
    n=NODES[t]
    if n[0]!='op': return None
    return n[1] if isinstance(n[1],str) else n[1][0]
def isseq(t):
    return isarr(t) or NODES[t][0]=='bytes' or opk(t) in('push','init','slice','update','concat','repeat','sorted','items','entries','elems','mkeys','mvals','bytesn','rev')
@prim('core::iter::traits::collect::IntoIterator::into_iter','rayon::iter::IntoParallelIterator::into_par_iter','rayon::iter::IntoParallelRefIterator::par_iter')
def _(ip,c):
    if c.res and c.res in ip.w.bodies: return NotImplemented
    r=own_impl(ip,c)
    if r: return NotImplemented
    return into_iter(ip,c,c.av[0],c.at[0])
def own_impl(ip,c,i=0):
    """the repository implements this trait method for the argument's type"""
    if c.res and c.res in ip.w.bodies and not ip.w.bodies[c.res].path.startswith('models::'): return True
    r=ip.resolve(c.trait,c.name,c.targs,c.av,c.st)
    return r if r and not r[0].path.startswith('models::iter') else None
@prim(IT+'::next',DE+'::next_back')
def it_next(ip,c,depth=0):
    r=c.av[0]
    if NODES[r][0]=='phi': return split_ref(ip,c)
    if NODES[r][0]!='ref':
        # iterator passed by value copy: nothing to update
        return NotImplemented
    r=last_ref(ip,c.st,r)
    if NODES[r][0]=='phi': c.av=[r]; return split_ref(ip,c)
    v=ip.loc_read(c.st,I.unref(r)); n=NODES[v]
    if n[0]=='phi':
        outs=[]
        for g,x in leaves(v):
            p=ip.cond(c.pc,g)
            if p==0: continue
            st=dict(c.st); ip.loc_write(st,I.unref(r),x)
            c2=I.Call(*[getattr(c,k) for k in I.Call.__slots__]); c2.pc=p; c2.st=st; c2.av=[r]; T.PC[0]=p
            o=ip.call_key(c2); outs.append(o)
        return join(outs)
    if n[0]=='agg':
        tag=n[1][0]; nm=c.name
        f=None
        if tag=='core::ops::range::Range': f='models::iter::range_next' if nm=='next' else 'models::iter::range_next_back'
        elif tag=='core::ops::range::RangeFrom': f='models::iter::rangefrom_next'
        elif tag=='models::iter::RangeIncl': f=inclnext(v) if nm=='next' else 'models::iter::rangeincl_next_back'
        elif tag=='core::ops::range::RangeInclusive':
            st=dict(c.st); ip.loc_write(st,I.unref(r),rangeincl(v)); c.st=st; f=inclnext(v) if nm=='next' else 'models::iter::rangeincl_next_back'
        elif tag=='array':
            st=dict(c.st); ip.loc_write(st,I.unref(r),seq_of(v)); c.st=st; c.av=[r]; return it_next(ip,c)
        if f: return ip.call_body(ip.w.bodies[f],{},[r],c.pc,c.st)
        sk=STEPS.get(tag) if nm=='next' else None
        if sk and ip.at_header(c.pc,c.st):
            p,o,st=ip.call_body(ip.w.bodies['models::iter::'+sk],{},[r],c.pc,c.st)
            more=isv(o,OPT,1); x=fld(o,'0','Some'); got=land(more,isv(x,OPT,1)); drop=land(more,isv(x,OPT,0))
            ps=ip.cond(p,drop)
            if ps!=0: ip.hdr.skips.append((ps,st))
            p=ip.cond(p,neg(drop)); T.PC[0]=p
            return p,phi([(got,Some(fld(x,'0','Some'))),(neg(more),NONE)]),st
        rb=ip.resolve_value(c.trait,nm,[r],c.st)
        if rb: return ip.call_body(rb[0],rb[1],[r],c.pc,c.st)
        if tag in('tuple',): return NotImplemented
    if depth: return NotImplemented
    # opaque iterator: the sequence of its items
    s=v
    st=dict(c.st); ip.loc_write(st,I.unref(r),seq_of(s)); c.st=st; c.av=[r]
    return it_next(ip,c,1)
PK='core::iter::adapters::peekable::Peekable::'
@prim(PK+'peek')
def _(ip,c):
    """next() on a copy: the iterator itself does not move; only sound when next() has no other effect"""
    r=c.av[0]
    if NODES[r][0]=='phi': return split_ref(ip,c)
    if NODES[r][0]!='ref': return NotImplemented
    r=last_ref(ip,c.st,r)
    if NODES[r][0]=='phi': c.av=[r]; return split_ref(ip,c)
    v=ip.loc_read(c.st,I.unref(r))
    if NODES[v][0]!='agg' or NODES[v][1][0]!='models::iter::Peekable' or fld(v,'peeked')!=NONE: return NotImplemented
    ip.uid+=1; tmp=(-ip.uid,0); st=dict(c.st); st[tmp]=fld(v,'it'); hdr=getattr(ip,'hdr',None); ip.hdr=None
    f=raw('fnv',(IT+'::next',IT,'next',None,False,'null',(),()))
    try: p,o,st2=ip.call(f,[I.mkref((tmp,()))],[None],None,c.pc,st,c.sp)
    finally: ip.hdr=hdr
    st2=dict(st2); st2.pop(tmp,None)
    if any(st2.get(k)!=x for k,x in c.st.items()): return NotImplemented
    return p,o,dict(c.st)
STEPS={'models::iter::FlattenOpt':'step_flatten_opt','models::iter::Filter':'step_filter','models::iter::FilterMap':'step_filter_map','models::iter::SkipWhile':'step_skip_while'}
def inclnext(v):
    n=NODES[v]; b=n[2][1]; done=n[2][2] if len(n[2])>2 else FALSE
    return 'models::iter::rangeincl_fwd' if done==FALSE and not(isint(b) and ival(b) in(255,(1<<16)-1,(1<<32)-1,(1<<64)-1)) else 'models::iter::rangeincl_next'
def rangeincl(v):
    n=NODES[v]; g=lambda k,i: fld(v,k) if n[1][2] and k in n[1][2] else n[2][i]
    return struct('models::iter::RangeIncl',None,('a','b','done'),(g('start',0),g('end',1),FALSE))
def split_ref(ip,c):
    outs=[]
    for g,x in leaves(c.av[0]):
        p=ip.cond(c.pc,g)
        if p==0: continue
        c2=I.Call(*[getattr(c,k) for k in I.Call.__slots__]); c2.pc=p; c2.av=[x]+list(c.av[1:]); c2.st=dict(c.st); T.PC[0]=p
        outs.append(ip.call_key(c2))
    return join(outs)
def join(outs):
    ps=[(p,dict(s,**{'!rv':v})) for p,v,s in outs if p!=0]
    if not ps: return 0,T.UNDEF,{}
    p,s=I.merge(ps); v=s.pop('!rv',T.UNDEF)
    return p,v,s
@prim('core::ops::range::RangeInclusive::new')
def _(ip,c): return struct('models::iter::RangeIncl',None,('a','b','done'),(c.av[0],c.av[1],FALSE))
@prim('core::ops::range::Range::contains','core::ops::range::RangeInclusive::contains','core::ops::range::RangeFrom::contains','core::ops::range::RangeTo::contains','core::ops::range::RangeToInclusive::contains')
def _(ip,c):
    v=D(ip,c); x=ip.deref_all(c.st,c.av[1]); n=NODES[v]
    t=peel(c.targs[0]) if c.targs else ('?',)
    if n[0]!='agg' or not(t[0]=='prim' and t[1][0]=='u' or t[0]=='adt' and not has_impl(ip,'core::cmp::PartialOrd',t[1])): return NotImplemented
    lt=lambda a,b: lt_any(ip,a,b)
    d=dict(zip(n[1][2],n[2])); lo=d.get('start',d.get('a')); hi=d.get('end',d.get('b')); r=1
    if lo is not None: r=land(r,neg(lt(x,lo)))
    if hi is not None: r=land(r,neg(lt(hi,x)) if 'Incl' in n[1][0] else lt(x,hi))
    if 'done' in d: r=land(r,neg(T.tobdd(d['done'])))
    return Bool(r)
@prim('core::ops::range::RangeInclusive::start')
def _(ip,c): return fld(D(ip,c),'a')
@prim('core::ops::range::RangeInclusive::end')
def _(ip,c): return fld(D(ip,c),'b')
@prim(IT+'::flatten')
def _(ip,c):
    t=peel(c.at[0]) if c.at and c.at[0] else None
    if t and t[0]=='adt' and t[2] and any(a[0]=='adt' and a[1]==OPT for a in map(peel,t[2])): return ip.call_body(ip.w.bodies['models::iter::flatten_opt'],{},c.av,c.pc,c.st)
    return NotImplemented
@prim(IT+'::by_ref','rayon::iter::IndexedParallelIterator::with_min_len','indicatif::rayon::ParallelProgressIterator::progress_with','indicatif::iter::ProgressIterator::progress_with',IT+'::fuse',
      'rayon::iter::IndexedParallelIterator::with_max_len')
def _(ip,c): return c.av[0]
@prim(IT+'::copied',IT+'::cloned','bitvec::slice::iter::Iter::by_vals','bitvec::slice::iter::Iter::by_refs','core::slice::iter::Iter::as_slice_')
def _(ip,c): return c.av[0]
@prim(IT+'::collect','rayon::iter::ParallelIterator::collect','itertools::Itertools::collect_vec')
def _(ip,c):
    if c.name=='collect_vec': B=('adt','alloc::vec::Vec',(('param','?'),))
    else: B=c.targs[1]
    return collect(ip,c,c.av[0],B)
def collect(ip,c,it,B):
    it=prep(ip,c,it)
    n=NODES[it]
    if n[0]=='agg' and n[1][0]=='models::iter::Seq' and tkind(B)=='seq' and peel(B)[1]!='alloc::string::String':
        return c.pc,app('slice',n[2][0],n[2][1],n[2][2]),c.st
    P=peel(B)
    if P[0]=='adt' and P[1]==RES: return ip.call_body(ip.w.bodies['models::iter::collect_result'],{'I':('param','?'),'B':P[2][0]},[it],c.pc,c.st)
    if P[0]=='adt' and P[1]==OPT: return ip.call_body(ip.w.bodies['models::iter::collect_option'],{'I':('param','?'),'B':P[2][0]},[it],c.pc,c.st)
    own=own_from_iter(ip,P)
    if own: return ip.call_body(own,{},[it],c.pc,c.st)
    return ip.call_body(ip.w.bodies['models::iter::collect_any'],{'I':('param','?'),'B':B},[it],c.pc,c.st)
def own_from_iter(ip,P):
    if P[0]!='adt': return None
    im=ip.w.find_impl('core::iter::traits::collect::FromIterator',P)
    if im:
        it=ip.w.impl_item(im[0],'from_iter')
        if it and it[0] in ip.w.bodies: return ip.w.bodies[it[0]]
@prim('core::iter::traits::collect::FromIterator::from_iter')
def _(ip,c):
    if c.res in ip.w.bodies: return NotImplemented
    return collect(ip,c,into_iter(ip,c,c.av[0],c.at[0]),c.targs[0])
def prep(ip,c,it):
    """normalise an iterator value about to be consumed"""
    if NODES[it][0]=='ref': return it
    if NODES[it][0]=='agg' and NODES[it][1][0]=='array': return seq_of(it)
    if NODES[it][0]=='agg' and NODES[it][1][0]=='core::ops::range::RangeInclusive': return rangeincl(it)
    if NODES[it][0] in('agg','phi'): return it
    return seq_of(it)
@prim(IT+'::try_fold')
def _(ip,c):
    R=peel(c.dt); nm='models::iter::try_fold_option' if R[0]=='adt' and R[1]==OPT else 'models::iter::try_fold_result'
    return ip.call_body(ip.w.bodies[nm],{'B':c.targs[1]},list(c.av),c.pc,c.st)
@prim('rayon::iter::ParallelIterator::reduce')
def _(ip,c):
    # the operator is associative with the given identity: same value as a left fold
    p,z,st=ip.call_value(c.av[1],[],[],None,c.pc,c.st,c.sp)
    return ip.call_body(ip.w.bodies['models::iter::fold'],{},[c.av[0],z,c.av[2]],p,st)
@prim(IT+'::unzip')
def _(ip,c): return ip.call_body(ip.w.bodies['models::iter::unzip'],{'FA':c.targs[3],'FB':c.targs[4]},[prep(ip,c,c.av[0])],c.pc,c.st)
@prim(IT+'::sum',IT+'::product')
def _(ip,c):
    if tkind(c.targs[1]) in('opt','res'): return NotImplemented
    return ip.call_body(ip.w.bodies['models::iter::'+c.name],{'S':c.targs[1]},[prep(ip,c,c.av[0])],c.pc,c.st)
@prim(IT+'::eq')
def _(ip,c): return ip.call_body(ip.w.bodies['models::iter::iter_eq'],{},[c.av[0],c.av[1]],c.pc,c.st)
def advance(v,n,back=False):
    """the iterator without its first (last) n items, where dropping them has no effect of its own"""
    k=NODES[v]
    if k[0]!='agg': return None
    tag,ks=k[1][0],k[2]
    if tag in('models::iter::Seq','models::iter::SeqMut'):
        a,b=ks[1],ks[2]; far=lt(sub(64,b,a),n)
        return raw('agg',k[1],(ks[0],a,ite(far,a,sub(64,b,n))) if back else (ks[0],ite(far,b,add(64,a,n)),b))
    if tag=='models::iter::Rev':
        i=advance(ks[0],n,not back); return None if i is None else raw('agg',k[1],(i,))
    if tag=='models::iter::Enumerate' and not back:
        i=advance(ks[0],n)
        return None if i is None else raw('agg',k[1],(i,add(64,ks[1],n)))
    if tag=='models::iter::Zip' and not back:
        i,j=advance(ks[0],n),advance(ks[1],n)
        return None if i is None or j is None else raw('agg',k[1],(i,j))
@prim(IT+'::skip')
def _(ip,c):
    v=c.av[0]
    if NODES[v][0]=='ref': return NotImplemented
    v=advance(prep(ip,c,v),c.av[1])
    return NotImplemented if v is None else v
@prim('core::iter::traits::exact_size::ExactSizeIterator::len',IT+'::count')
def _(ip,c):
    v=D(ip,c); v=prep(ip,c,v); n=NODES[v]
    if n[0]=='agg':
        if n[1][0] in('models::iter::Seq','models::iter::SeqMut'): return sub(64,n[2][2],n[2][1])
        if n[1][0]=='models::iter::ChunksExact': return sub(64,fld(v,'n'),fld(v,'pos'))
        if n[1][0] in('models::iter::Map','models::iter::Enumerate','models::iter::Rev','models::iter::Inspect'):
            c.av=[n[2][0]]; return EXACT[IT+'::count'](ip,c)
    if c.name=='count': return ip.call_body(ip.w.bodies['models::iter::count'],{},[v],c.pc,c.st)
    return app('iterlen',v)
def comparator(ip,c,f,by_key):
    """value of a comparison closure on two symbolic elements"""
    a,b=Sym('$a'),Sym('$b')
    save=ip.panics; ip.panics=[]
    try:
        if by_key:
            x=ip.call_value(f,[a],[],None,1,dict(c.st),c.sp)[1]; y=ip.call_value(f,[b],[],None,1,dict(c.st),c.sp)[1]
            r=cmp_any(ip,x,y)
        elif f is None: r=cmp_any(ip,a,b)
        else: r=ip.call_value(f,[a,b],[],None,1,dict(c.st),c.sp)[1]
    finally: ip.panics=save; T.PC[0]=c.pc
    return r
SORTS={'sorted':0,'sorted_unstable':0,'sorted_by':1,'sorted_unstable_by':1,'sorted_by_key':2,'sorted_unstable_by_key':2,'sorted_by_cached_key':2,
       'sort':0,'sort_unstable':0,'sort_by':1,'sort_unstable_by':1,'sort_by_key':2,'sort_unstable_by_key':2,'sort_by_cached_key':2,
       'par_sort':0,'par_sort_unstable':0,'par_sort_by':1,'par_sort_unstable_by':1,'par_sort_by_key':2,'par_sort_unstable_by_key':2}
def sorted_(ip,c,s,kind):
    cmpv=comparator(ip,c,c.av[1] if kind else None,kind==2)
    return raw('op','sorted',(s,cmpv))
T.REBUILD['sorted']=lambda m,s,f: T.dist(lambda x: raw('op',m,(x,f)),s)     # the comparator is a function, not a value
T.REBUILD['items']=lambda m,s,*f: T.dist(lambda x: raw('op',m,(x,)+f),s)
@prefix('itertools::Itertools::sorted')
def _(ip,c):
    k=SORTS.get(c.name)
    if k is None: return NotImplemented
    p,s,st=collect(ip,c,c.av[0],('adt','alloc::vec::Vec',(('param','?'),)))
    c.st=st; c.pc=p; T.PC[0]=p
    return p,seq_of(sorted_(ip,c,s,k)),st
@prim('itertools::Itertools::chunk_by')
def _(ip,c):
    p,s,st=collect(ip,c,c.av[0],('adt','alloc::vec::Vec',(('param','?'),)))
    save=ip.panics; ip.panics=[]
    key=ip.call_value(c.av[1],[Sym('$a')],[],None,1,dict(st),c.sp)[1]; ip.panics=save; T.PC[0]=p
    return p,raw('op',('items','chunkby'),(s,key)),st
# ------------------------------------------------------------------ sequences
SEQPATH=('<[T]>::','alloc::vec::Vec::','smallvec::SmallVec::','alloc::collections::vec_deque::VecDeque::','bitvec::vec::BitVec::','bitvec::slice::BitSlice::','<[T; N]>::','<str>::','alloc::string::String::',
         'alloc::slice::<impl [T]>::','alloc::boxed::Box::','bitvec::vec::api::','bitvec::slice::api::','alloy_primitives::bits::fixed::FixedBytes::','generic_array::GenericArray::','ethereum_consensus::primitives::Bytes32::','ssz_rs::ByteVector::')
SEQ={}
def sq(*n):
    def d(f):
        for x in n: SEQ[x]=f
        return f
    return d
@prefix(*SEQPATH)
def _(ip,c):
    nm=c.key.rsplit('::',1)[1]; f=SEQ.get(nm)
    if c.key.startswith('alloc::boxed::Box::') and nm not in('new','new_uninit','pin','from'): return NotImplemented
    if f: return f(ip,c)
    if nm in SORTS and c.av and len(c.av)<=2:
        s=D(ip,c); return upd(ip,c,sorted_(ip,c,s,SORTS[nm]))
    return NotImplemented
@sq('new','with_capacity')
def _(ip,c):
    if c.key.startswith('alloc::boxed::Box'): return c.av[0]
    return EMPTYSEQ
@sq('new_uninit')
def _(ip,c): return T.UNDEF
@prim('alloc::boxed::box_assume_init_into_vec_unsafe','alloc::slice::into_vec','<[T]>::into_vec','alloc::boxed::Box::pin','alloc::boxed::Box::write')
def _(ip,c):
    v=c.av[0]
    # Box<MaybeUninit<[T;N]>>: unwrap the nested wrappers written by the vec! macro
    for _ in range(4):
        n=NODES[v]
        if n[0]=='op' and isinstance(n[1],tuple) and n[1][0]=='updf': v=n[2][1]
        elif n[0]=='agg' and n[1][0] in('core::mem::maybe_uninit::MaybeUninit','core::mem::manually_drop::ManuallyDrop'): v=n[2][-1]
        else: break
    return v
@prim('alloc::vec::from_elem')
def _(ip,c): return I.repeat(c.av[0],c.av[1])
@sq('len')
def _(ip,c): return length(D(ip,c))
@sq('is_empty','not_any_len')
def _(ip,c): return Bool(eq(length(D(ip,c)),Int(0)))
@sq('push','push_back','push_str')
def _(ip,c):
    if c.key.endswith('push_str'): return upd(ip,c,app('concat',D(ip,c),D(ip,c,1)))
    return upd(ip,c,app('push',D(ip,c),ip.strip(c.st,c.av[1]) if 0 else c.av[1]))
@sq('pop','pop_back')
def _(ip,c):
    v=D(ip,c); n=length(v); e=eq(n,Int(0))
    last=index(v,sub(64,n,Int(1)))
    return upd(ip,c,ite(e,v,app('init',v)) if e!=1 else v,phi([(e,NONE),(neg(e),Some(last))]))
@sq('pop_front')
def _(ip,c):
    v=D(ip,c); n=length(v); e=eq(n,Int(0))
    return upd(ip,c,ite(e,v,app('slice',v,Int(1),n)),phi([(e,NONE),(neg(e),Some(index(v,Int(0))))]))
@sq('push_front')
def _(ip,c): return upd(ip,c,app('concat',arr((c.av[1],)),D(ip,c)))
@sq('clear')
def _(ip,c): return upd(ip,c,EMPTYSEQ)
@sq('truncate')
def _(ip,c):
    v=D(ip,c); n=length(v); k=c.av[1]
    l=lt(k,n)
    if l!=0 and NODES[k][0]=='lin': 
        d=lincomb(64,0,(n,1),(k,-1))
        if isint(d) and ival(d)==1: l=neg(eq(n,Int(0)))
    return upd(ip,c,ite(l,trunc_seq(v,k),v))
def trunc_seq(v,k):
    d=lincomb(64,0,(length(v),1),(k,-1))
    if isint(d) and ival(d)==1: return app('init',v)
    return app('slice',v,Int(0),k)
@sq('extend_from_slice','append','extend_from_within','extend_from_bitslice')
def _(ip,c):
    b=D(ip,c,1)
    p,_,st=upd(ip,c,app('concat',D(ip,c),b))
    if c.key.endswith('append'): ip.write_ref(st,last_ref(ip,st,c.av[1]),EMPTYSEQ)
    return p,UNIT,st
@sq('reserve','shrink_to_fit','reserve_exact','set_uninitialized')
def _(ip,c): return UNIT
@sq('iter','par_iter','bytes','into_iter')
def _(ip,c): return seq_of(D(ip,c))
@sq('iter_mut')
def _(ip,c):
    r=last_ref(ip,c.st,c.av[0])
    if NODES[r][0]=='phi': return NotImplemented
    return mseqmut(r,Int(0),length(D(ip,c)))
@sq('by_vals','iter_ones_')
def _(ip,c): return c.av[0]
@sq('to_vec','as_slice','into_boxed_slice','as_bitslice','into_vec','to_owned','as_bytes','into_bytes','as_str','into_boxed_str','as_mut_slice','as_mut_bitslice','to_bitvec','into_inner','into_string','as_raw_slice','into_bitvec','as_ptr')
def _(ip,c):
    if c.key.endswith(('as_mut_slice','as_mut_bitslice')): return c.av[0]
    return D(ip,c)
@sq('first','last','split_first','split_last','first_mut','last_mut','contains','split_at','split_at_checked','front','back')
def _(ip,c):
    nm=c.key.rsplit('::',1)[1]; nm={'front':'first','back':'last'}.get(nm,nm)
    if nm=='contains' and c.key.startswith('<str>'): return NotImplemented
    a0=c.av[0] if nm.endswith('_mut') else D(ip,c)
    return ip.call_body(ip.w.bodies['models::misc::'+nm],{},[a0]+list(c.av[1:]),c.pc,c.st)
@sq('get')
def _(ip,c):
    i=ip.deref_all(c.st,c.av[1]); r=range_of(i,length(D(ip,c)),c.at[1])
    if r:
        v=D(ip,c); ok=in_range(v,r[0],r[1],length(v)); return phi([(ok,Some(app('slice',v,r[0],r[1]))),(neg(ok),NONE)])
    return ip.call_body(ip.w.bodies['models::misc::get'],{},[D(ip,c),i],c.pc,c.st)
@sq('get_mut')
def _(ip,c):
    if range_of(c.av[1],Int(0),c.at[1]): return NotImplemented
    return ip.call_body(ip.w.bodies['models::misc::get_mut'],{},list(c.av),c.pc,c.st)
@sq('get_unchecked')
def _(ip,c): return index(D(ip,c),c.av[1])
@sq('chunks','chunks_exact','windows')
def _(ip,c): return ip.call_body(ip.w.bodies['models::iter::'+c.key.rsplit('::',1)[1]],{},[D(ip,c),c.av[1]],c.pc,c.st)
@sq('as_chunks','as_rchunks_')
def _(ip,c):
    n=c.targs[-1]
    if n[0]!='const' or not n[1].isdigit(): return NotImplemented
    v=D(ip,c); k=int(n[1]); p,s,st=collect(ip,c,ip.call_body(ip.w.bodies['models::iter::chunks_exact'],{},[v,Int(k)],c.pc,c.st)[1],('adt','alloc::vec::Vec',(('param','?'),)))
    q=mul(64,udiv(length(v),Int(k)),Int(k))
    return p,tup(s,app('slice',v,q,length(v))),st
@sq('first_chunk','last_chunk','split_first_chunk','split_last_chunk')
def _(ip,c):
    k=c.targs[-1]
    if k[0]!='const' or not k[1].isdigit(): return NotImplemented
    nm=c.key.rsplit('::',1)[1]; v=D(ip,c); n=length(v); k=Int(int(k[1])); ok=neg(lt(n,k)); m=sub(64,n,k)
    a,b=(app('slice',v,Int(0),k),app('slice',v,k,n)) if 'first' in nm else (app('slice',v,m,n),app('slice',v,Int(0),m))
    r=(tup(a,b) if 'first' in nm else tup(b,a)) if 'split' in nm else a
    return phi([(ok,Some(r)),(neg(ok),NONE)])
@sq('remove','swap_remove')
def _(ip,c):
    if 'collections::' in c.key or c.key.startswith('alloc::string'): return NotImplemented
    v=D(ip,c); i=c.av[1]; n=length(v); p=fork(ip,c,lt(i,n),'remove'); x=index(v,i); l=sub(64,n,Int(1))
    if i==l or isint(n) and ival(n)==1: return upd(ip,c,app('init',v),x,pc=p)
    if c.key.endswith('::remove'): return upd(ip,c,app('concat',app('slice',v,Int(0),i),app('slice',v,add(64,i,Int(1)),n)),x,pc=p)
    return upd(ip,c,app('init',app('update',v,i,index(v,l))),x,pc=p)
@sq('insert')
def _(ip,c):
    if 'collections::' in c.key or c.key.startswith('alloc::string'): return NotImplemented
    v=D(ip,c); i=c.av[1]; n=length(v); p=fork(ip,c,neg(lt(n,i)),'insert')
    if i==n: return upd(ip,c,app('push',v,c.av[2]),pc=p)
    return upd(ip,c,app('concat',app('slice',v,Int(0),i),arr([c.av[2]]),app('slice',v,i,n)),pc=p)
@sq('starts_with','ends_with')
def _(ip,c):
    if c.key.startswith('<str>'): return NotImplemented
    v=D(ip,c); x=ip.deref_all(c.st,c.av[1]); n,k=length(v),length(x); m=sub(64,n,k)
    return Bool(land(neg(lt(n,k)),eq(app('slice',v,Int(0),k) if c.key.endswith('starts_with') else app('slice',v,m,n),x)))
@sq('retain')
def _(ip,c):
    p,v,st=ip.call_body(ip.w.bodies['models::misc::retain'],{},[D(ip,c),c.av[1]],c.pc,c.st); st=dict(st); wr(ip,c,st,0,v); return p,UNIT,st
@sq('resize')
def _(ip,c):
    v=D(ip,c); n=length(v); k=c.av[1]; l=lt(n,k)
    m=lincomb(64,0,(k,1),(n,-1))
    if l!=1 and NODES[k][0]=='lin' and (n,1) in zip(NODES[k][2],NODES[k][1][2]): return upd(ip,c,app('concat',v,I.repeat(c.av[2],m)))   # len + m, an addition checked for overflow
    return upd(ip,c,phi([(l,app('concat',v,I.repeat(c.av[2],m))),(neg(l),app('slice',v,Int(0),k))]))
@sq('split_off')
def _(ip,c):
    v=D(ip,c); n=length(v); k=c.av[1]; p=fork(ip,c,in_range(v,k,n,n) if I.opis(k,'lin') else neg(lt(n,k)),'split_off')
    return upd(ip,c,app('slice',v,Int(0),k),app('slice',v,k,n),pc=p)
@sq('drain')
def _(ip,c):
    v=D(ip,c); n=length(v); r=range_of(ip.deref_all(c.st,c.av[1]),n,c.at[1])
    if not r: return NotImplemented
    a,b=r; p=fork(ip,c,in_range(v,a,b,n),'drain'); h=app('slice',v,Int(0),a)
    return upd(ip,c,h if b==n else app('concat',h,app('slice',v,b,n)),seq_of(app('slice',v,a,b)),pc=p)
@sq('concat')
def _(ip,c):
    v=D(ip,c)
    if isarr(v): return app('concat',*NODES[v][2])
    return app('flatten',v)
@sq('reverse')
def _(ip,c): return upd(ip,c,app('rev',D(ip,c)))
@sq('swap')
def _(ip,c):
    v=D(ip,c); a,b=c.av[1],c.av[2]; x,y=index(v,a),index(v,b)
    p=fork(ip,c,land(lt(a,length(v)),lt(b,length(v))),'index')
    return upd(ip,c,app('update',app('update',v,a,y),b,x),pc=p)
@sq('copy_from_slice','clone_from_slice')
def _(ip,c):
    d,s=D(ip,c),D(ip,c,1); p=fork(ip,c,eq(length(d),length(s)),'copy_from_slice')
    return upd(ip,c,s,pc=p)
@sq('fill')
def _(ip,c): return upd(ip,c,I.repeat(c.av[1],length(D(ip,c))))
@sq('set','set_bit')
def _(ip,c):
    v=D(ip,c); p=fork(ip,c,lt(c.av[1],length(v)),'index'); return upd(ip,c,app('update',v,c.av[1],c.av[2]),pc=p)
@sq('repeat')
def _(ip,c): return app('seqrepeat',D(ip,c),c.av[1])
@sq('map')
def _(ip,c):
    if not c.key.startswith('<[T; N]>'): return NotImplemented
    v=D(ip,c)
    if not isarr(v): return NotImplemented
    out=[]; p=c.pc; st=c.st
    for x in NODES[v][2]:
        p,y,st=ip.call_value(c.av[1],[x],[],None,p,st,c.sp); out.append(y)
    return p,arr(out),st
def range_of(i,n,ty=None):
    """range value -> (start,end) or None"""
    k=NODES[i]
    if k[0]!='agg':
        while ty and ty[0] in('ref','mutref'): ty=ty[1]
        if ty and ty[0]=='adt' and ty[1]=='core::ops::range::Range': return fld(i,'start'),fld(i,'end')
        return None
    t=k[1][0]
    if t=='core::ops::range::Range': return k[2][0],k[2][1]
    if t=='core::ops::range::RangeTo': return Int(0),k[2][0]
    if t=='core::ops::range::RangeFrom': return k[2][0],n
    if t=='core::ops::range::RangeFull': return Int(0),n
    if t=='models::iter::RangeIncl': return k[2][0],add(64,k[2][1],Int(1))
    if t=='core::ops::range::RangeToInclusive': return Int(0),add(64,k[2][0],Int(1))
    return None
def in_range(v,a,b,n):
    """a <= b <= n = len(v)"""
    k=lincomb(64,0,(b,1),(a,-1))
    if not(isint(k) and ival(k)<(1<<62)): return land(neg(lt(b,a)),neg(lt(n,b)))
    if opis(v,'slice') and not isint(n):
        s,x,y=kids(v)
        if isint(x) or isint(a): return T.fits(add(64,x,a),ival(k),y)
    return T.fits(a,ival(k),n)
@prim('core::ops::index::Index::index','core::ops::index::IndexMut::index_mut')
def _(ip,c):
    if own_impl(ip,c): return NotImplemented
    mut=c.name=='index_mut'
    v=D(ip,c); i=ip.deref_all(c.st,c.av[1]); t0=peel(c.at[0]) if c.at and c.at[0] else ('?',)
    if t0[0]=='array' and str(t0[2]).isdigit(): I.set_len(v,int(t0[2]))
    n=length(v)
    if tkind(c.at[0])=='map' and not mut:
        o=mget(v,i); p=fork(ip,c,isv(o,OPT,1),'index'); return p,fld(o,'0','Some'),c.st
    r=range_of(i,n,c.at[1] if len(c.at)>1 else None)
    if r:
        a,b=r; ok=in_range(v,a,b,n)
        p=fork(ip,c,ok,'index')
        if mut:
            q=last_ref(ip,c.st,c.av[0])
            if NODES[q][0]!='ref': return NotImplemented
            root,pr=I.unref(q); return p,(q if isint(a) and ival(a)==0 and b==n else I.mkref((root,pr+(('s',a,b),)))),c.st
        return p,app('slice',v,a,b),c.st
    p=fork(ip,c,lt(i,n),'index')
    if mut:
        r=last_ref(ip,c.st,c.av[0])
        if NODES[r][0]!='ref': return NotImplemented
        root,pr=I.unref(r); return p,I.mkref((root,pr+(('i',i),))),c.st
    return p,index(v,i),c.st
@prim('core::iter::traits::collect::Extend::extend','rayon::iter::ParallelExtend::par_extend')
def _(ip,c):
    if own_impl(ip,c): return NotImplemented
    B=c.targs[0]
    it=into_iter(ip,c,c.av[1],c.at[1]); n=NODES[it]
    if n[0]=='agg' and n[1][0]=='models::iter::Seq' and tkind(B)=='seq': return upd(ip,c,app('concat',D(ip,c),app('slice',*n[2])))
    if n[0]=='agg' and n[1][0]=='models::iter::RepeatN' and tkind(B)=='seq': return upd(ip,c,app('concat',D(ip,c),I.repeat(fld(it,'v'),fld(it,'n'))))
    if tkind(B)=='set' and n[0]=='agg' and n[1][0]=='models::iter::Seq' and opk(n[2][0])=='elems': return upd(ip,c,app('sunion',D(ip,c),NODES[n[2][0]][2][0]))
    if tkind(B)=='seq':
        p,s,st=collect(ip,c,it,B); T.PC[0]=p; st=dict(st); ip.write_ref(st,last_ref(ip,st,c.av[0]),app('concat',ip.deref_all(st,c.av[0]),s)); return p,UNIT,st
    if tkind(B)=='set':
        p,s,st=collect(ip,c,it,B); T.PC[0]=p; st=dict(st); ip.write_ref(st,last_ref(ip,st,c.av[0]),app('sunion',ip.deref_all(st,c.av[0]),s)); return p,UNIT,st
    return ip.call_body(ip.w.bodies['models::misc::extend'],{'B':B},[c.av[0],it],c.pc,c.st)
# SIMP for extra sequence operators
def _rev(_,v):
    if isarr(v): return arr(tuple(reversed(NODES[v][2])))
    if opis(v,'rev'): return kids(v)[0]
    return raw('op','rev',(v,))
T.SIMP['rev']=_rev
_old_len=T.SIMP['len']
def _len3(nm,v):
    k=opk(v)
    if k in('sorted','rev'): return length(NODES[v][2][0])
    if k=='mkeys' or k=='mvals': return length(app('entries',NODES[v][2][0]))
    if k=='entries' and opis(NODES[v][2][0],'msetvals'): return length(app('entries',NODES[NODES[v][2][0]][2][0]))
    return _old_len(nm,v)
T.SIMP['len']=_len3
_old_idx=T.SIMP['idx']
def _idx3(nm,v,i):
    k=opk(v)
    if k=='mkeys': return fld(index(app('entries',NODES[v][2][0]),i),'0')
    if k=='mvals': return fld(index(app('entries',NODES[v][2][0]),i),'1')
    if k=='rev': return index(NODES[v][2][0],lincomb(64,-1,(length(NODES[v][2][0]),1),(i,-1)))
    if k=='concat' and isint(i):
        a=NODES[v][2][0]; n=length(a)
        if isint(n): return index(a,i) if ival(i)<ival(n) else index(app('concat',*NODES[v][2][1:]),Int(ival(i)-ival(n)))
    return _old_idx(nm,v,i)
T.SIMP['idx']=_idx3
# ------------------------------------------------------------------ maps and sets
MAPP=tuple(x+'::' for x in MAPT); SETP=tuple(x+'::' for x in SETT)
def mget(m,k):
    n=NODES[m]
    if n[0]=='op':
        if n[1]=='mempty': return NONE
        if n[1]=='minsert': return phi([(eq(n[2][1],k),Some(n[2][2])),(neg(eq(n[2][1],k)),mget(n[2][0],k))])
    if n[0]=='phi': return phi([(g,mget(x,k)) for g,x in leaves(m)])
    return raw('op','mget',(m,k))
T.SIMP['mget']=lambda nm,m,k: mget(m,k)
def shas(s,x):
    n=NODES[s]
    if n[0]=='op':
        if n[1]=='sempty': return 0
        if n[1]=='sinsert': return lor(eq(n[2][1],x),shas(n[2][0],x))
        if n[1]=='sunion': return lor(shas(n[2][0],x),shas(n[2][1],x))
        if n[1]=='sdiff': return land(shas(n[2][0],x),neg(shas(n[2][1],x)))
        if n[1]=='sinter': return land(shas(n[2][0],x),shas(n[2][1],x))
    if n[0]=='phi': return bdd.ors(land(g,shas(y,x)) for g,y in leaves(s))
    return atom(raw('op','shas',(s,x)))
T.SIMP['shas']=lambda nm,m,k: Bool(shas(m,k))
def _minsert(_,m,k,v):
    if opis(m,'minsert') and kids(m)[1]==k: return app('minsert',kids(m)[0],k,v)
    return raw('op','minsert',(m,k,v))
T.SIMP['minsert']=_minsert
def _sinsert(_,m,k):
    if opis(m,'sinsert'):       # insertions commute and repeat harmlessly
        x=kids(m)[1]
        if x==k: return m
        if k<x: return raw('op','sinsert',(_sinsert(_,kids(m)[0],k),x))
    return raw('op','sinsert',(m,k))
T.SIMP['sinsert']=_sinsert
def _sunion(_,a,b):
    if opis(a,'sempty'): return b
    if opis(b,'sempty') or a==b: return a
    return raw('op','sunion',tuple(sorted((a,b))))
T.SIMP['sunion']=_sunion
def _setof(_,s):
    if opis(s,'elems'): return kids(s)[0]
    if isarr(s):
        r=SEMPTY
        for x in kids(s): r=app('sinsert',r,x)
        return r
    return raw('op','setof',(s,))
T.SIMP['setof']=_setof
def _sdiff(_,a,b):
    if opis(a,'sempty') or opis(b,'sempty'): return a
    if a==b: return SEMPTY
    return raw('op','sdiff',(a,b))
T.SIMP['sdiff']=_sdiff
def _mvals(_,m):
    if opis(m,'msetvals'): return kids(m)[1]
    if opis(m,'mempty'): return EMPTYSEQ
    return raw('op','mvals',(m,))
T.SIMP['mvals']=_mvals
def _mkeys(_,m):
    if opis(m,'msetvals'): return app('mkeys',kids(m)[0])
    if opis(m,'mempty'): return EMPTYSEQ
    return raw('op','mkeys',(m,))
T.SIMP['mkeys']=_mkeys
def _entries(_,m):
    if opis(m,'mempty'): return EMPTYSEQ
    return raw('op','entries',(m,))
T.SIMP['entries']=_entries
def _elems(_,m):
    if opis(m,'sempty'): return EMPTYSEQ
    if opis(m,'setof') and distinct(kids(m)[0]): return kids(m)[0]
    return raw('op','elems',(m,))
def distinct(L):
    """some of the elements of one set, each at most once"""
    if NODES[L][0]!='fin': return False
    E,sys,_=T._open(L); vi=NODES[L][1][1]; tgt,init,nxt=sys[vi]
    ind=T.induction(E,sys)
    if init!=EMPTYSEQ or not ind: return False
    return all(x==tgt or opis(x,'push') and kids(x)[0]==tgt and opis(kids(x)[1],'idx') and opis(kids(kids(x)[1])[0],'elems') and kids(kids(x)[1])[1]==ind[0] and not T.FV[kids(kids(x)[1])[0]]&{q for q,_,_ in sys} for _,x in leaves(nxt))
T.SIMP['elems']=_elems
@prefix(*MAPP)
def _(ip,c):
    nm=c.key.rsplit('::',1)[1]
    if nm in('new','with_capacity','default','with_hasher'): return MEMPTY
    m=D(ip,c)
    K=lambda: ip.strip(c.st,ip.deref_all(c.st,c.av[1]))
    if nm=='get': return mget(m,K())
    if nm=='contains_key': return Bool(isv(mget(m,K()),OPT,1))
    if nm=='insert': k=K(); return upd(ip,c,app('minsert',m,k,c.av[2]),mget(m,k))
    if nm=='remove': k=K(); return upd(ip,c,app('mremove',m,k),mget(m,k))
    if nm in('iter','into_iter'): return seq_of(app('entries',m))
    if nm in('keys','into_keys'): return seq_of(app('mkeys',m))
    if nm in('values','into_values'): return seq_of(app('mvals',m))
    if nm in('values_mut',): return mutvals(ip,c,last_ref(ip,c.st,c.av[0]),False)
    if nm=='len': return length(app('entries',m))
    if nm=='is_empty': return Bool(eq(length(app('entries',m)),Int(0)))
    if nm=='clear': return upd(ip,c,MEMPTY)
    if nm=='entry': return struct('$entry',None,('map','key','t'),(last_ref(ip,c.st,c.av[0]),K(),raw('ty',peel(c.at[0]))))
    if nm=='get_mut': k=K(); r=last_ref(ip,c.st,c.av[0]); h=isv(mget(m,k),OPT,1); root,pr=I.unref(r); return phi([(h,Some(I.mkref((root,pr+(('k',k),))))),(neg(h),NONE)])
    return NotImplemented
def mutvals(ip,c,r,pairs):
    if NODES[r][0]!='ref': raise I.Unsupported('mutable map iteration')
    root,pr=I.unref(r); s=I.mkref((root,pr+(('f','$vals',None,'map',0),)))
    it=mseqmut(s,Int(0),length(app('entries',ip.deref_all(c.st,r))))
    if not pairs: return it
    ks=seq_of(app('mkeys',ip.deref_all(c.st,r)))
    return struct('models::iter::Zip',None,('a','b'),(ks,it))
@prefix(*SETP)
def _(ip,c):
    nm=c.key.rsplit('::',1)[1]
    if nm in('new','with_capacity','default','with_hasher'): return SEMPTY
    s=D(ip,c); K=lambda: ip.strip(c.st,ip.deref_all(c.st,c.av[1]))
    if nm=='insert': k=K(); h=shas(s,k); return upd(ip,c,app('sinsert',s,k),Bool(neg(h)))
    if nm=='contains': return Bool(shas(s,K()))
    if nm=='remove': k=K(); return upd(ip,c,app('sremove',s,k),Bool(shas(s,k)))
    if nm in('iter','into_iter','drain'): return seq_of(app('elems',s))
    if nm=='len': return length(app('elems',s))
    if nm=='is_empty': return Bool(eq(length(app('elems',s)),Int(0)))
    if nm in('difference','intersection'): return ip.call_body(ip.w.bodies['models::iter::set_filter'],{},[seq_of(app('elems',s)),D(ip,c,1),Bool(0 if nm=='difference' else 1)],c.pc,c.st)
    if nm=='is_subset': return ip.call_body(ip.w.bodies['models::misc::subset'],{},[seq_of(app('elems',s)),D(ip,c,1)],c.pc,c.st)
    if nm=='retain':
        p,v,st=ip.call_body(ip.w.bodies['models::misc::retain'],{},[app('elems',s),c.av[1]],c.pc,c.st); st=dict(st); wr(ip,c,st,0,app('setof',v)); return p,UNIT,st
    if nm=='union': return seq_of(app('elems',app('sunion',s,D(ip,c,1))))
    if nm=='append':
        p,_,st=upd(ip,c,app('sunion',s,D(ip,c,1))); ip.write_ref(st,last_ref(ip,st,c.av[1]),SEMPTY); return p,UNIT,st
    if nm=='clear': return upd(ip,c,SEMPTY)
    return NotImplemented
# ------------------------------------------------------------------ integers
INTRE=re.compile(r'^<(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::(\w+)$')
SATOP=[False]
def sat(op,a,b,w=64):
    if SATOP[0] and op=='mul' and not isint(a) and not isint(b): return app('satmul',*sorted((a,b)))
    if SATOP[0] and op=='add' and (isint(a) or isint(b)): return add(w,a,b)      # host only: epochs and slots stay far below the limit
    o=I.ovf(op,w,a,b)
    mx=Int((1<<w)-1) if op!='sub' else Int(0)
    r={'add':add,'sub':sub,'mul':mul}[op](w,a,b)
    return phi([(o,mx),(neg(o),r)])
def ipow(a,b,w):
    if isint(a) and isint(b): return Int(pow(ival(a),ival(b),1<<w))
    if isint(b) and ival(b)<=4:
        r=Int(1)
        for _ in range(ival(b)): r=mul(w,r,a)
        return r
    if isint(a) and ival(a)==2: return shl(w,Int(1),b)
    return app(('pow',w),a,b)
@prefix('<')
def _(ip,c):
    m=INTRE.match(c.key)
    if not m: return NotImplemented
    ty,nm=m.groups(); w=I.WIDTH[ty]; s=ty[0]=='i'
    a=D(ip,c) if c.av else None; b=ip.deref_all(c.st,c.av[1]) if len(c.av)>1 else None
    for pre in('checked_','saturating_','wrapping_','overflowing_','strict_'):
        if nm.startswith(pre):
            op=nm[len(pre):]
            if s: return NotImplemented
            if op in('add','sub','mul'):
                r={'add':add,'sub':sub,'mul':mul}[op](w,a,b); o=I.ovf(op,w,a,b)
                if pre=='checked_': return phi([(o,NONE),(neg(o),Some(r))])
                if pre=='saturating_': return sat(op,a,b,w)
                if pre=='overflowing_': return tup(r,Bool(o))
                if pre=='strict_': p=fork(ip,c,neg(o),'overflow'); return p,r,c.st
                return r
            if op in('div','rem'):
                r=(udiv if op=='div' else urem)(a,b); z=eq(b,Int(0))
                if pre=='checked_': return phi([(z,NONE),(neg(z),Some(r))])
                p=fork(ip,c,neg(z),'div by zero'); return p,r,c.st
            if op in('shl','shr') and pre in('wrapping_','checked_'):
                r=(shl if op=='shl' else shr)(w,a,b); 
                if pre=='checked_': l=lt(b,Int(w)); return phi([(l,Some(r)),(neg(l),NONE)])
                return r if isint(b) else (shl if op=='shl' else shr)(w,a,urem(b,Int(w)))
            if op=='pow' and pre=='wrapping_': return ipow(a,b,w)
            if op=='next_power_of_two': return app(nm,a)
    if nm=='pow': return ipow(a,b,w)
    if nm in('leading_zeros','trailing_zeros','count_ones','count_zeros'):
        if isint(a):
            v=ival(a); s_=format(v,'0%db'%w)
            return Int({'leading_zeros':w-v.bit_length(),'trailing_zeros':(w if v==0 else len(s_)-len(s_.rstrip('0'))),'count_ones':s_.count('1'),'count_zeros':s_.count('0')}[nm])
        return app((nm,w),a)
    if nm=='ilog2':
        p=fork(ip,c,neg(eq(a,Int(0))),'ilog2'); return p,sub(32,Int(w-1),app(('leading_zeros',w),a)),c.st
    if nm=='is_power_of_two': return Bool(eq(app(('count_ones',w),a),Int(1)))
    if nm=='div_ceil':
        r=urem(a,b); q=udiv(a,b); return ite(eq(r,Int(0)),q,add(w,q,Int(1)))
    if nm=='is_multiple_of': return Bool(eq(urem(a,b),Int(0)))
    if nm=='abs_diff': l=lt(a,b); return ite(l,sub(w,b,a),sub(w,a,b))
    if nm in('to_le_bytes','to_be_bytes','to_ne_bytes'): return tobytes(w//8,'le' if nm!='to_be_bytes' else 'be',a)
    if nm in('from_le_bytes','from_be_bytes','from_ne_bytes'): return frombytes(w//8,'le' if nm!='from_be_bytes' else 'be',a)
    if nm in('rem_euclid','div_euclid') and not s: return (urem if nm[0]=='r' else udiv)(a,b)
    if nm in('swap_bytes','reverse_bits','rotate_left','rotate_right','isqrt','next_power_of_two','next_multiple_of'): return app((nm,w),*[x for x in(a,b) if x is not None])
    if nm=='to_be' or nm=='to_le': return a
    return NotImplemented
def tobytes(n,e,a):
    def f(x):
        if isint(x): return arr([Int(y) for y in ival(x).to_bytes(n,'little' if e=='le' else 'big')])
        return raw('op',('bytesn',n,e),(x,))
    return dist(f,a)
def frombytes(n,e,a):
    def f(x):
        k=NODES[x]
        if k[0]=='op' and k[1]==('bytesn',n,e): return k[2][0]
        if isarr(x) and len(k[2])==n and all(isint(y) for y in k[2]): return Int(int.from_bytes(bytes(ival(y) for y in k[2]),'little' if e=='le' else 'big'))
        return raw('op',('frombytes',n,e),(x,))
    return dist(f,a)
T.REBUILD['bytesn']=lambda m,x: tobytes(m[1],m[2],x)
T.REBUILD['frombytes']=lambda m,x: frombytes(m[1],m[2],x)
ARITH={'core::ops::arith::Add::add':'add','core::ops::arith::Sub::sub':'sub','core::ops::arith::Mul::mul':'mul','core::ops::arith::Div::div':'div','core::ops::arith::Rem::rem':'rem'}
ASSIGN={k.replace('::'+v,'').replace('::Add','::AddAssign').replace('::Sub','::SubAssign').replace('::Mul','::MulAssign').replace('::Div','::DivAssign').replace('::Rem','::RemAssign')+'::'+v+'_assign':v for k,v in ARITH.items()}
def arith(ip,c,op,a,b):
    t=peel(c.at[0]); w=64; prim_=t[0]=='prim' and t[1] in I.WIDTH
    if prim_:
        w=I.WIDTH[t[1]]
        if op in('add','sub','mul'): return c.pc,{'add':add,'sub':sub,'mul':mul}[op](w,a,b)
        p=fork(ip,c,neg(eq(b,Int(0))),'div by zero'); return p,(udiv if op=='div' else urem)(a,b)
    if t[0]=='adt' and t[1].rsplit('::',1)[-1] in('Slot','Epoch'):   # lighthouse newtypes saturate
        if op in('add','sub','mul'): return c.pc,sat(op,a,b)
        z=eq(b,Int(0)); return c.pc,phi([(z,Int(0)),(neg(z),(udiv if op=='div' else urem)(a,b))])
    return c.pc,app(('arith',op,t[1] if t[0]=='adt' else '?'),a,b)
def _ar(ip,c):
    if own_impl(ip,c): return NotImplemented
    t=peel(c.at[0])
    if t[0]=='adt' and t[1].rsplit('::',1)[-1] in('HashSet','BTreeSet') and ARITH[c.key]=='sub':
        p,v,st=ip.call_body(ip.w.bodies['models::misc::set_filter_vec'],{},[app('elems',D(ip,c)),D(ip,c,1),Bool(0)],c.pc,c.st); return p,app('setof',v),st
    p,r=arith(ip,c,ARITH[c.key],D(ip,c),D(ip,c,1)); return p,r,c.st
for _k in ARITH: EXACT[_k]=_ar
def _ara(ip,c):
    if own_impl(ip,c): return NotImplemented
    p,r=arith(ip,c,ASSIGN[c.key],D(ip,c),D(ip,c,1)); return upd(ip,c,r,pc=p)
for _k in ASSIGN: EXACT[_k]=_ara
SAFE={'safe_add':'add','safe_sub':'sub','safe_mul':'mul','safe_div':'div','safe_rem':'rem'}
@prefix('safe_arith::SafeArith::')
def _(ip,c):
    op=SAFE.get(c.name.replace('_assign',''))
    if not op: return NotImplemented
    a,b=D(ip,c),D(ip,c,1); t=peel(c.at[0]); w=I.WIDTH.get(t[1],64) if t[0]=='prim' else 64
    if op in('div','rem'):
        z=eq(b,Int(0)); r=(udiv if op=='div' else urem)(a,b); e=struct('safe_arith::ArithError','DivisionByZero',(),())
    else: z=I.ovf(op,w,a,b); r={'add':add,'sub':sub,'mul':mul}[op](w,a,b); e=struct('safe_arith::ArithError','Overflow',(),())
    if c.name.endswith('_assign'): return upd(ip,c,phi([(z,a),(neg(z),r)]),phi([(z,Err(e)),(neg(z),Ok(UNIT))]))
    return phi([(z,Err(e)),(neg(z),Ok(r))])
NEWT=('Epoch','Slot')
@prefix('beacon_types::Epoch::','beacon_types::Slot::')
def _(ip,c):
    nm=c.key.rsplit('::',1)[1]
    if nm in('new','as_u64','as_usize'): return D(ip,c)
    if nm in('saturating_sub','saturating_add'): return sat(nm[11:],D(ip,c),D(ip,c,1))
    if nm in('safe_add','safe_sub'): return EXACT_SAFE(ip,c)
    if nm=='epoch': return udiv(D(ip,c),D(ip,c,1))
    if nm=='start_slot': return sat('mul',D(ip,c),D(ip,c,1))
    return NotImplemented
# ------------------------------------------------------------------ comparison
def lt_any(ip,a,b):
    na,nb=NODES[a],NODES[b]
    if na[0]=='phi' or nb[0]=='phi':
        return bdd.ors(land(land(g,h),lt_any(ip,x,y)) for g,x in leaves(a) for h,y in leaves(b) if land(g,h))
    if na[0]=='agg' and nb[0]=='agg' and na[1][0]=='tuple' and nb[1][0]=='tuple':
        r=0; e=1
        for x,y in zip(na[2],nb[2]): r=lor(r,land(e,lt_any(ip,x,y))); e=land(e,eq(x,y))
        return r
    if na[0]=='bool' or nb[0]=='bool': return land(neg(tobdd(a)),tobdd(b))
    return lt(a,b)
def cmp_any(ip,a,b):
    l,e=lt_any(ip,a,b),eq(a,b)
    return phi([(e,ordering('Equal')),(land(l,neg(e)),ordering('Less')),(neg(lor(l,e)),ordering('Greater'))])
def do_eq(ip,c): return Bool(eq(ip.strip(c.st,D(ip,c)),ip.strip(c.st,D(ip,c,1))))
@prim('core::cmp::PartialEq::eq','core::cmp::PartialEq::ne')
def _(ip,c):
    o=own_impl(ip,c)
    if o:
        p=ip.w.bodies[c.res].path if o is True else o[0].path
        if p[:p.rfind('::')] not in ip.w.derived and not p.startswith('models'): return NotImplemented
    r=tobdd(do_eq(ip,c)); return Bool(r if c.name=='eq' else neg(r))
def signed_ty(t):
    t=peel(t); return t and t[0]=='prim' and t[1] in('i8','i16','i32','i64','i128','isize')
@prim('core::cmp::PartialOrd::lt','core::cmp::PartialOrd::le','core::cmp::PartialOrd::gt','core::cmp::PartialOrd::ge','core::cmp::Ord::cmp','core::cmp::PartialOrd::partial_cmp')
def _(ip,c):
    o=own_impl(ip,c)
    if o:
        p=ip.w.bodies[c.res].path if o is True else o[0].path
        if p[:p.rfind('::')] not in ip.w.derived: return NotImplemented
    a,b=ip.strip(c.st,D(ip,c)),ip.strip(c.st,D(ip,c,1))
    L=(lambda x,y: lt(x,y,True)) if signed_ty(c.at[0]) else (lambda x,y: lt_any(ip,x,y))
    n=c.name
    if n=='lt': return Bool(L(a,b))
    if n=='gt': return Bool(L(b,a))
    if n=='le': return Bool(neg(L(b,a)))
    if n=='ge': return Bool(neg(L(a,b)))
    r=cmp_any(ip,a,b)
    return Some(r) if n=='partial_cmp' else r
@prim('core::cmp::max','core::cmp::Ord::max','core::cmp::min','core::cmp::Ord::min')
def _(ip,c):
    if c.trait and own_impl(ip,c): return NotImplemented
    a,b=c.av; l=lt_any(ip,ip.deref_all(c.st,b),ip.deref_all(c.st,a))
    return ite(l,a,b) if c.key.endswith('max') else ite(l,b,a)
@prim('core::cmp::Ord::clamp')
def _(ip,c):
    v,lo,hi=c.av; return ite(lt(v,lo),lo,ite(lt(hi,v),hi,v))
def ordmap(v,m): return phi([(isv(v,'core::cmp::Ordering',i),ordering(m[n])) for i,n in enumerate(('Less','Equal','Greater'))])
@prefix('core::cmp::Ordering::')
def _(ip,c):
    nm=c.key.rsplit('::',1)[1]; v=D(ip,c); L,E,G=[isv(v,'core::cmp::Ordering',i) for i in range(3)]
    if nm in('is_lt','is_le','is_gt','is_ge','is_eq','is_ne'): return Bool({'is_lt':L,'is_le':lor(L,E),'is_gt':G,'is_ge':lor(G,E),'is_eq':E,'is_ne':neg(E)}[nm])
    if nm=='reverse': return ordmap(v,{'Less':'Greater','Equal':'Equal','Greater':'Less'})
    if nm=='then': return phi([(E,c.av[1]),(neg(E),v)])
    if nm=='then_with':
        p=ip.cond(c.pc,E)
        if p==0: return v
        p2,w,st=ip.call_value(c.av[1],[],[],None,p,dict(c.st),c.sp)
        return join([(p2,w,st),(ip.cond(c.pc,neg(E)),v,c.st)])
    return NotImplemented
@prim('core::cmp::Reverse')
def _(ip,c): return NotImplemented
# ------------------------------------------------------------------ hashing
@prim('digest::digest::Digest::new')
def _(ip,c): return EMPTYSEQ
@prim('digest::digest::Digest::update','digest::Update::update')
def _(ip,c): return upd(ip,c,app('concat',D(ip,c),D(ip,c,1)))
@prim('digest::digest::Digest::chain_update','digest::Update::chain')
def _(ip,c): return app('concat',D(ip,c),D(ip,c,1))
@prim('digest::digest::Digest::new_with_prefix')
def _(ip,c): return D(ip,c)
@prim('digest::digest::Digest::finalize','digest::digest::Digest::digest','digest::FixedOutput::finalize_fixed')
def _(ip,c): return app('sha256',D(ip,c))
@prim('digest::FixedOutputReset::finalize_fixed_reset','digest::digest::Digest::finalize_reset')
def _(ip,c): return upd(ip,c,EMPTYSEQ,app('sha256',D(ip,c)))
@prim('digest::digest::Digest::reset')
def _(ip,c): return upd(ip,c,EMPTYSEQ)
_old_len4=T.SIMP['len']
def _len5(nm,v):
    if opis(v,'sha256'): return Int(32)
    n=NODES[v]
    if n[0]=='fld' and n[1]==(None,'1') and opis(n[2][0],'idx') and opis(T.kids(n[2][0])[0],'pvalues'): return Int(32)
    return _old_len4(nm,v)
T.SIMP['len']=_len5
# ------------------------------------------------------------------ conversions
@prim('core::ops::deref::Deref::deref','core::ops::deref::DerefMut::deref_mut','core::convert::AsRef::as_ref','core::convert::AsMut::as_mut','core::borrow::Borrow::borrow','core::borrow::BorrowMut::borrow_mut')
def _(ip,c):
    if own_impl(ip,c): return NotImplemented
    return c.av[0] if c.name in('deref_mut','as_mut','borrow_mut') else D(ip,c)
@prim('core::clone::Clone::clone','alloc::borrow::ToOwned::to_owned','alloc::borrow::Cow::into_owned','alloc::borrow::Cow::to_mut')
def _(ip,c):
    if c.trait and own_impl(ip,c) and c.name=='clone':
        o=own_impl(ip,c); p=ip.w.bodies[c.res].path if o is True else o[0].path
        if p[:p.rfind('::')] not in ip.w.derived: return NotImplemented
    if c.key.endswith('to_mut'): return c.av[0]
    v=D(ip,c)
    if c.name=='clone':
        t=peel(c.at[0])
        if t and t[0]=='adt' and '::atomic' in t[1]: return NotImplemented
    return v
@prim('core::hint::must_use','core::hint::black_box','core::convert::identity','core::pin::Pin::new','core::pin::Pin::new_unchecked','core::pin::Pin::get_mut','core::pin::Pin::get_unchecked_mut','core::pin::Pin::as_mut','alloc::sync::Arc::new','alloc::rc::Rc::new','alloc::rcs::arc::Arc::new','alloc::rcs::rc::Rc::new','core::num::nonzero::NonZero::get','core::mem::ManuallyDrop::new','std::process::Termination::report',
      'core::sync::exclusive::Exclusive::new','core::cell::Cell::new','core::iter::traits::iterator::Iterator::by_ref')
def _(ip,c): return c.av[0]
@prim('core::num::nonzero::NonZero::new')
def _(ip,c):
    z=eq(c.av[0],Int(0)); return phi([(z,NONE),(neg(z),Some(c.av[0]))])
def from_conv(ip,c,S,T_,v):
    """T_::from(v: S)"""
    im=ip.w.find_impl('core::convert::From',T_,[T_,S])
    if im and im[0]['self'] is not None:
        it=ip.w.impl_item(im[0],'from')
        if it and it[0] in ip.w.bodies: return ip.call_body(ip.w.bodies[it[0]],dict(im[1]),[v],c.pc,c.st)
    if T_ and S and T_[0]=='prim' and S[0]=='prim' and T_[1] in I.WIDTH: return I.cast_int(v,S,T_)
    if tkind(T_)=='map' or tkind(T_)=='set':
        if tkind(S)=='seq': return collect(ip,c,into_iter(ip,c,v,S),T_)
    if T_ and T_[0]=='adt' and T_[1]==OPT and not(S and S[0]=='adt' and S[1]==OPT): return Some(v)
    return v
@prim('core::convert::From::from')
def _(ip,c):
    if c.res in ip.w.bodies: return NotImplemented
    if own_impl(ip,c): return NotImplemented
    return from_conv(ip,c,c.targs[1] if len(c.targs)>1 else None,c.targs[0],c.av[0])
@prim('core::convert::Into::into')
def _(ip,c):
    if c.res in ip.w.bodies: return NotImplemented
    im=ip.w.find_impl('core::convert::Into',c.targs[0],c.targs)
    if im: return NotImplemented
    return from_conv(ip,c,c.targs[0],c.targs[1],c.av[0])
@prim('core::convert::TryInto::try_into','core::convert::TryFrom::try_from')
def _(ip,c):
    if c.res in ip.w.bodies: return NotImplemented
    S,T_=(c.targs[0],c.targs[1]) if c.name=='try_into' else (c.targs[1],c.targs[0])
    v=c.av[0]
    im=ip.w.find_impl('core::convert::TryFrom',T_,[T_,S])
    if im:
        it=ip.w.impl_item(im[0],'try_from')
        if it and it[0] in ip.w.bodies: return ip.call_body(ip.w.bodies[it[0]],dict(im[1]),[v],c.pc,c.st)
    P=peel(T_); v=D(ip,c)
    if P[0]=='array':
        n=Int(int(P[2])) if str(P[2]).isdigit() else Sym('const:'+str(P[2]))
        g=eq(length(v),n)
        I.set_len_if(v,n) if False else None
        return phi([(g,Ok(v)),(neg(g),Err(Sym('TryFromSliceError')))])
    if P[0]=='prim' and P[1] in I.WIDTH and peel(S)[0]=='prim' and peel(S)[1] in I.WIDTH:
        w=I.WIDTH[P[1]]
        if P[1][0]=='u' and peel(S)[1][0]=='u':
            if I.WIDTH[peel(S)[1]]<=w: return Ok(v)
            g=lt(v,Int(1<<w)); return phi([(g,Ok(v)),(neg(g),Err(Sym('TryFromIntError')))])
    # infallible into via From
    return NotImplemented
@prim('core::default::Default::default')
def _(ip,c):
    if c.res in ip.w.bodies: return NotImplemented
    t=c.targs[0]
    im=ip.w.find_impl('core::default::Default',t,[t])
    if im: return NotImplemented
    return default_of(ip,t)
_z32=lambda: I.repeat(Int(0),Int(32))
_z4=lambda: I.repeat(Int(0),Int(4))
ZEROS={'beacon_types::Checkpoint':[('epoch',lambda: Int(0)),('root',_z32)],'beacon_types::Fork':[('previous_version',_z4),('current_version',_z4),('epoch',lambda: Int(0))]}
def default_of(ip,t):
    if t[0]=='prim' and t[1] in I.WIDTH: return Int(0)
    if t[0]=='prim' and t[1]=='bool': return FALSE
    k=tkind(t)
    if k=='opt' : return NONE
    if k=='map': return MEMPTY
    if k=='set': return SEMPTY
    if t[0]=='array' and str(t[2]).isdigit(): return I.repeat(default_of(ip,t[1]),Int(int(t[2])))
    if k=='seq': return EMPTYSEQ
    if t[0]=='tuple': return tup(*[default_of(ip,x) for x in t[1]])
    if t[0]=='adt' and t[1].rsplit('::',1)[-1] in NEWT: return Int(0)
    if t[0]=='adt' and t[1] in ABIT: return I.repeat(Int(0),Int(int(t[2][0][1])))
    if t[0]=='adt' and t[1] in ZEROS: return struct(t[1],None,tuple(n for n,_ in ZEROS[t[1]]),[z() for _,z in ZEROS[t[1]]])
    return raw('op',('default',I.tstr(t)))
@prim('core::mem::drop','core::mem::forget','core::ops::drop::Drop::drop')
def _(ip,c): return UNIT
@prim('core::mem::take')
def _(ip,c):
    t=c.targs[0]; im=ip.w.find_impl('core::default::Default',t,[t]); v=D(ip,c); p=c.pc; st=c.st
    if im:
        it=ip.w.impl_item(im[0],'default'); d=None
        if it and it[0] in ip.w.bodies: p,d,st=ip.call_body(ip.w.bodies[it[0]],dict(im[1]),[],c.pc,c.st)
    else: d=default_of(ip,t)
    c.st=st; return upd(ip,c,d if d is not None else app('default?'),v,pc=p)
@prim('core::mem::replace')
def _(ip,c): v=D(ip,c); return upd(ip,c,c.av[1],v)
@prim('core::mem::swap')
def _(ip,c):
    a,b=D(ip,c),D(ip,c,1); st=dict(c.st); wr(ip,c,st,0,b); wr(ip,c,st,1,a); return c.pc,UNIT,st
# ------------------------------------------------------------------ Option / Result plumbing
@prim('core::ops::try_trait::Try::branch','core::ops::try_trait::Try::from_output')
def _(ip,c):
    t=peel(c.targs[0]); m={OPT:'models::option::',RES:'models::result::',CF:'models::misc::cf_'}.get(t[1] if t[0]=='adt' else '')
    if not m: return NotImplemented
    return ip.call_body(ip.w.bodies[m+c.name],{},list(c.av),c.pc,c.st)
@prim('core::ops::try_trait::FromResidual::from_residual')
def _(ip,c):
    t=peel(c.targs[0]); a=t[1] if t[0]=='adt' else ''
    if a==OPT: return NONE
    if a==CF: return ip.call_body(ip.w.bodies['models::misc::cf_from_residual'],{},list(c.av),c.pc,c.st)
    if a!=RES: return NotImplemented
    R=c.targs[1] if len(c.targs)>1 else None; E=R[2][1] if R and R[0]=='adt' and len(R[2])>1 else ('param','?')
    return ip.call_body(ip.w.bodies['models::result::from_residual'],{'F':t[2][1],'E':E,'T':t[2][0]},list(c.av),c.pc,c.st)
@prim(OPT+'::as_ref',OPT+'::copied',OPT+'::cloned',OPT+'::as_deref',OPT+'::iter',RES+'::as_ref',RES+'::as_deref',RES+'::copied',RES+'::cloned',OPT+'::as_slice')
def _(ip,c):
    if c.key==OPT+'::iter': return struct('models::iter::Once',None,('v',),(D(ip,c),))
    return D(ip,c)
@prim(OPT+'::as_mut',OPT+'::as_deref_mut')
def _(ip,c):
    r=last_ref(ip,c.st,c.av[0]); out=[]
    for g,x in leaves(r):
        if NODES[x][0]!='ref': out.append((g,x)); continue
        v=ip.loc_read(c.st,I.unref(x)); root,pr=I.unref(x); s=isv(v,OPT,1)
        out.append((land(g,s),Some(I.mkref((root,pr+(('f','0','Some',OPT,0),)))))); out.append((land(g,neg(s)),NONE))
    return phi(out)
# ------------------------------------------------------------------ callables
@prim('core::ops::function::FnOnce::call_once','core::ops::function::FnMut::call_mut','core::ops::function::Fn::call')
def _(ip,c):
    a=c.av[1]; n=NODES[a]
    args=list(n[2]) if n[0]=='agg' else [a]
    return ip.call_value(c.av[0],args,c.at[1][1] if c.at and len(c.at)>1 and c.at[1][0]=='tuple' else [],c.dt,c.pc,c.st,c.sp)
# ------------------------------------------------------------------ models by path
MODEL={OPT+'::':'models::option::',RES+'::':'models::result::',IT+'::':'models::iter::',DE+'::':'models::iter::','<bool>::':'models::misc::',
       'core::iter::adapters::peekable::Peekable::':'models::iter::','core::iter::sources::once::':'models::iter::','core::iter::sources::repeat_n::':'models::iter::','core::iter::sources::repeat::':'models::iter::',
       'core::iter::sources::from_fn::':'models::iter::','core::iter::sources::successors::':'models::iter::','rayon::iter::ParallelIterator::':'models::iter::','rayon::iter::IndexedParallelIterator::':'models::iter::','core::iter::adapters::zip::':'models::iter::'}
def model_for(ip,key):
    for k,m in MODEL.items():
        if key.startswith(k):
            b=ip.w.bodies.get(m+key[len(k):])
            if b and '::' not in key[len(k):]: return b
    return None
def skip_body(b):
    p=b.path
    return '__CALLSITE' in p or '::fmt::Debug>::fmt' in p or '::fmt::Display>::fmt' in p or '::_serde' in p
KEEP=('Default::default','::zeroed','size_of','generalized_index','::from_str','::parse','deserialize','from_ssz_bytes','EthSpec')
def keep_targs(key): return any(k in key for k in KEEP)
EFFECTS=[]; WORLD=[]
def is_effect(key): return any(re.search(p,key) for p in EFFECTS)
def is_world(key): return any(re.search(p,key) for p in WORLD)
# virtual field of a map: its values in key order
_getf=I.getf
def getf(v,name,var=None):
    if name=='$vals': return app('mvals',v)
    return _getf(v,name,var)
I.getf=getf
# ------------------------------------------------------------------ Solidity ABI of static types: 32-byte words in field order
ABIT={'alloy_primitives::bits::fixed::FixedBytes':'bytes'}
def abi_leaves(ip,t):
    """-> [(path, word type)]"""
    t=peel(t)
    if t[0]=='prim': return [((),t[1])]
    if t[0]=='array': return [((),'bytes%s'%t[2])]
    if t[0]=='adt' and t[1].rsplit('::',1)[-1] in NEWT: return [((),'u64')]
    if t[0]=='adt' and t[1] in ABIT: return [((),ABIT[t[1]]+str(t[2][0][1]))]
    if t[0]=='tuple': return [((str(i),)+p,k) for i,x in enumerate(t[1]) for p,k in abi_leaves(ip,x)]
    a=ip.w.adts.get(t[1]) if t[0]=='adt' else None
    if not a or a['kind']!='struct': raise I.Unsupported('ABI of '+I.tstr(t))
    return [((n,)+p,k) for n,x in a['variants'][0]['fields'] for p,k in abi_leaves(ip,ip.w.ty(a['crate'],x))]
def abi_build(ip,t,ws):
    t=peel(t)
    if t[0]=='tuple': return tup(*[abi_build(ip,x,ws) for x in t[1]])
    a=ip.w.adts.get(t[1]) if t[0]=='adt' and t[1] not in ABIT and t[1].rsplit('::',1)[-1] not in NEWT else None
    if a: return struct(t[1],None,tuple(n for n,_ in a['variants'][0]['fields']),[abi_build(ip,ip.w.ty(a['crate'],x),ws) for _,x in a['variants'][0]['fields']])
    return ws.pop(0)
def abi_enc(ip,c,t):
    v=D(ip,c); out=[]; L=abi_leaves(ip,t)
    for p,k in L:
        x=v
        for n in p: x=ip.deref_all(c.st,I.getf(x,n))
        out.append(x)
    return app(('abi',)+tuple(k for _,k in L),*out)
def abi_dec(ip,c,t,lax):
    d=D(ip,c); L=abi_leaves(ip,t); ks=tuple(k for _,k in L)
    n=(lax,)+ks; ok=eq(app(('abiok',)+n,d),TRUE)
    return ok,abi_build(ip,t,[app(('abiword',i)+n,d) for i in range(len(L))])
@prim('alloy_sol_types::SolValue::abi_encode','alloy_sol_types::SolType::abi_encode',M+'abi_encode')
def _(ip,c): return abi_enc(ip,c,c.at[0])
@prim('alloy_sol_types::SolValue::abi_decode','alloy_sol_types::SolType::abi_decode','alloy_sol_types::SolValue::abi_decode_validate','alloy_sol_types::SolType::abi_decode_validate')
def _(ip,c):
    ok,v=abi_dec(ip,c,c.targs[0],False); return phi([(ok,Ok(v)),(neg(ok),Err(Sym('AbiError')))])
@prim(M+'abi_decode')
def _(ip,c):
    ok,v=abi_dec(ip,c,c.targs[0],False); return phi([(ok,Some(v)),(neg(ok),NONE)])
@prim('alloy_sol_types::SolValue::abi_encoded_size')
def _(ip,c): return Int(32*len(abi_leaves(ip,c.at[0])))
# pure observers of nothing: logging
@prefix('tracing::','tracing_core::','log::','risc0_zkvm::guest::env::log','indicatif::')
def _(ip,c):
    k=c.key
    if c.dt and c.dt[0]=='prim' and c.dt[1]=='bool': return FALSE   # is a callsite enabled: logging never changes behaviour
    if c.dt and c.dt[0]=='adt' and c.dt[1]=='core::cmp::Ordering': return ordering('Greater')
    if c.dt and c.dt[0]=='tuple' and not c.dt[1]: return UNIT
    if c.dt and c.dt[0]=='adt' and c.dt[1]==RES: return Ok(raw('op',('log',k)))
    if c.dt and c.dt[0]=='adt' and c.dt[1]==OPT: return Some(raw('op',('log',k)))
    return raw('op',('log',k))
for _n in('ZERO',): CONSTS['alloy_primitives::bits::fixed::FixedBytes::'+_n]=lambda ip,args: I.repeat(Int(0),Int(int(args[0][1])) if args and args[0][0]=='const' and args[0][1].isdigit() else Int(32))
@prim('ssz_multiproofs::multiproof::ValueIterator::next_assert_gindex')
def _(ip,c):
    """on an uninterpreted sequence of proven values (its own definition is checked by M04)"""
    r=c.av[0]
    if NODES[r][0]=='phi': return split_ref(ip,c)
    if NODES[r][0]!='ref': return NotImplemented
    v=ip.loc_read(c.st,I.unref(last_ref(ip,c.st,r)))
    if NODES[v][0]=='agg' and NODES[v][1][0]=='ssz_multiproofs::multiproof::ValueIterator' or NODES[v][0]=='phi': return NotImplemented
    f=raw('fnv',(IT+'::next',IT,'next',None,False,'null',(),()))
    p,o,st=ip.call(f,[r],[None],None,c.pc,c.st,c.sp)
    x=fld(o,'0','Some'); ok=land(isv(o,OPT,1),eq(fld(x,'0'),c.av[1]))
    return p,phi([(ok,Ok(fld(x,'1'))),(neg(ok),Err(Sym('$mismatch')))]),st
@prim('ssz_multiproofs::multiproof::Multiproof::values')
def _(ip,c):
    """the proven (gindex, chunk) pairs, uninterpreted, where a check builds on M04"""
    return seq_of(app('pvalues',D(ip,c))) if getattr(ip,'proofs',False) else NotImplemented

# ------------------------------------------------------------------ a network's YAML parameters: the ones that reach the verifier
YKEYS=re.compile(r'^(PRESET_BASE|CONFIG_NAME|(GENESIS|ALTAIR|BELLATRIX|CAPELLA|DENEB|ELECTRA|FULU)_FORK_(VERSION|EPOCH)|CHURN_LIMIT_QUOTIENT|MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA)$')
@prim('serde_yaml::from_slice','serde_yaml::from_str','serde_yaml::de::from_slice','serde_yaml::de::from_str')
def _(ip,c):
    n=NODES[D(ip,c)]; txt=None
    if n[0]=='bytes': txt=bytes.fromhex(n[1]).decode()
    elif n[0]=='str': txt=n[1]
    if txt is None: return NotImplemented
    d={}
    for l in txt.splitlines():
        m=re.match(r"^([A-Za-z0-9_]+):\s*(?:'([^']*)'|\"([^\"]*)\"|([^#]*?))\s*(#.*)?$",l)
        if m and YKEYS.match(m[1]):
            v=m[2] if m[2] is not None else m[3] if m[3] is not None else m[4].strip()
            d[m[1]]=str(int(v,0)) if re.match(r'^(0x[0-9a-fA-F]+|\d+)$',v) else v
    return app('serde_yaml::from',raw('yaml',tuple(sorted(d.items()))))

# ------------------------------------------------------------------ futures: awaited to completion where they are polled
@prim('core::future::into_future::IntoFuture::into_future','tracing::instrument::Instrument::instrument','tracing::instrument::Instrument::in_current_span','futures_util::future::future::FutureExt::boxed','futures_util::future::future::FutureExt::boxed_local')
def _(ip,c): return c.av[0]
@prim('core::future::get_context','tokio::runtime::handle::Handle::current')
def _(ip,c): return raw('sym','context')
@prim('core::future::future::Future::poll')
def _(ip,c):
    p,v,st=ip.run_future(c.av[0],c.at,c.pc,c.st,c.sp)
    return p,struct('core::task::poll::Poll','Ready',('0',),(v,)),st
@prim('futures_executor::local_pool::block_on')
def _(ip,c): return ip.run_future(c.av[0],c.at,c.pc,c.st,c.sp)
@prim('tokio::runtime::handle::Handle::block_on','tokio::runtime::runtime::Runtime::block_on')
def _(ip,c): return ip.run_future(c.av[1],c.at,c.pc,c.st,c.sp)
@prim(M+'run')
def _(ip,c): return ip.run_future(c.av[0],c.at,c.pc,c.st,c.sp)
@prim('tokio::task::blocking::block_in_place')
def _(ip,c): return ip.call_value(c.av[0],[],[],c.dt,c.pc,c.st,c.sp)
@prim('core::future::ready::ready')
def _(ip,c): return struct('$ready',None,('0',),(c.av[0],))
@prim('futures_util::future::try_join_all::try_join_all','futures_util::future::join_all::join_all')
def _(ip,c):
    n=c.key.rsplit('::',1)[1]; it=into_iter(ip,c,c.av[0],c.at[0])
    p,v,st=ip.call_body(ip.w.bodies['models::misc::'+n],{},[it],c.pc,c.st)
    return p,struct('$ready',None,('0',),(v,)),st
# ------------------------------------------------------------------ text
def cat_str(ps):
    out=[]
    for x in ps:
        if NODES[x][0]=='str' and out and NODES[out[-1]][0]=='str': out[-1]=Str(NODES[out[-1]][1]+NODES[x][1])
        elif not(NODES[x][0]=='str' and NODES[x][1]==''): out.append(x)
    return out[0] if len(out)==1 else Str('') if not out else raw('op',('text',),tuple(out))
T.REBUILD['text']=lambda m,*ks: cat_str(ks)
def display(ip,st,t,v):
    v=ip.deref_all(st,v); t=peel(t) if t else t
    if NODES[v][0]=='phi': return phi([(g,display(ip,st,t,x)) for g,x in leaves(v)])
    if NODES[v][0]=='str' or t==('prim','str') or (t and t[0]=='adt' and t[1]=='alloc::string::String'): return v
    if opis(v,'$path'): return kids(v)[0]
    if isint(v) and t and t[0]=='prim': return Str(str(ival(v)))
    return app('display',embed(ip.strip(st,v)))
@prim('core::fmt::rt::Argument::new_display')
def _(ip,c): return display(ip,c.st,c.at[0],c.av[0])
@prim('core::fmt::rt::Argument::new_debug','core::fmt::rt::Argument::new_lower_hex','core::fmt::rt::Argument::new_upper_hex')
def _(ip,c): return app(c.key.rsplit('::',1)[1],embed(ip.strip(c.st,c.av[0])))
@prim('core::fmt::Arguments::from_str','core::fmt::Arguments::from_str_nonconst')
def _(ip,c): return D(ip,c)
@prim('core::fmt::Arguments::new')
def _(ip,c):
    t=NODES[D(ip,c)]; a=NODES[D(ip,c,1)]
    if t[0]!='bytes' or a[0]!='agg': return NotImplemented
    b=bytes.fromhex(t[1]); i=0; k=0; out=[]
    while i<len(b) and b[i]:
        if b[i]<0x80: out.append(Str(b[i+1:i+1+b[i]].decode())); i+=1+b[i]
        elif b[i]==0x80: n=b[i+1]|b[i+2]<<8; out.append(Str(b[i+3:i+3+n].decode())); i+=3+n
        elif b[i]==0xc0: out.append(a[2][k]); k+=1; i+=1
        else: return app('fmt',raw('bytes',t[1]),*[embed(ip.strip(c.st,x)) for x in a[2]])
    return cat_str(out)
@prim('alloc::fmt::format')
def _(ip,c): return D(ip,c)
@prim('alloc::string::ToString::to_string')
def _(ip,c):
    v=D(ip,c); t=peel(c.at[0])
    if t and t[0]=='adt' and t[1].startswith('ethereum_consensus::') and t[1].endswith('::Fork') and t[1] in T.ENUMS:
        return phi([(isv(v,t[1],i),Str(n.lower())) for i,n in enumerate(T.ENUMS[t[1]])])   # the library prints a distinct name per variant
    if t and t[0]=='adt':
        im=ip.w.find_impl('core::fmt::Display',t,[t])
        if im and im[0]['crate'] in ip.w.types:
            r=own_display(ip,c,im,v)
            if r is not None: return r
    return display(ip,c.st,t,v)
def own_display(ip,c,im,v):
    """Display of a repository enum that writes a constant text per variant"""
    it=ip.w.impl_item(im[0],'fmt'); b=ip.w.bodies.get(it[0]) if it else None
    if b is None: return None
    ip.uid+=1; loc=(-ip.uid,0); st=dict(c.st); st[loc]=Str(''); old=ip.sink if hasattr(ip,'sink') else None; ip.sink=True
    try: p,r,s=ip.call_body(b,dict(im[1]),[v,I.mkref((loc,()))],c.pc,st)
    finally: ip.sink=old
    return s.get(loc)
@prim('core::io::write::Write::write_all','std::io::Write::write_all')
def _(ip,c):
    """writing to a growing byte buffer appends and cannot fail"""
    if not c.targs or peel(c.targs[0])!=('adt','alloc::vec::Vec',peel(c.targs[0])[2] if len(peel(c.targs[0]))>2 else ()): return NotImplemented
    return upd(ip,c,app('concat',D(ip,c),D(ip,c,1)),Ok(UNIT))
@prim('core::fmt::Formatter::write_str','core::fmt::Formatter::write_fmt','core::fmt::Write::write_str','core::fmt::Write::write_fmt')
def _(ip,c):
    r=last_ref(ip,c.st,c.av[0])
    if NODES[r][0]!='ref' : return NotImplemented
    st=dict(c.st); old=ip.loc_read(st,I.unref(r)); k,m,ks,bs=NODES[old]
    parts=list(ks) if k=='op' and m==('text',) else [old]
    x=D(ip,c,1); kx,mx,ksx,_=NODES[x]
    parts+=list(ksx) if kx=='op' and mx==('text',) else [x]
    ip.write_ref(st,r,cat_str(parts)); return c.pc,Ok(UNIT),st
# ------------------------------------------------------------------ anyhow
@prim('anyhow::Context::context','anyhow::Context::with_context')
def _(ip,c):
    t=peel(c.at[0]); v=c.av[0]; o=bool(t and t[0]=='adt' and t[1]==OPT)
    g=isv(v,OPT,1) if o else isv(v,RES,0)
    return phi([(g,Ok(fld(v,'0','Some' if o else 'Ok'))),(neg(g),Err(app('anyhow',UNIT)))])
@prim('anyhow::__private::not')
def _(ip,c): return Bool(neg(tobdd(D(ip,c))))
@prefix('anyhow::__private::','anyhow::Error::','anyhow::ensure::')
def _(ip,c): return app('anyhow',UNIT)
# ------------------------------------------------------------------ HTTP status codes
STATUS={'OK':200,'CREATED':201,'ACCEPTED':202,'NO_CONTENT':204,'BAD_REQUEST':400,'UNAUTHORIZED':401,'FORBIDDEN':403,'NOT_FOUND':404,'METHOD_NOT_ALLOWED':405,'REQUEST_TIMEOUT':408,'CONFLICT':409,'GONE':410,'TOO_MANY_REQUESTS':429,
 'INTERNAL_SERVER_ERROR':500,'NOT_IMPLEMENTED':501,'BAD_GATEWAY':502,'SERVICE_UNAVAILABLE':503,'GATEWAY_TIMEOUT':504}
for _n,_v in STATUS.items(): CONSTS['http::status::StatusCode::'+_n]=lambda ip,args,_v=_v: Int(_v)
@prim('http::status::StatusCode::as_u16')
def _(ip,c): return D(ip,c)
def _range(lo,hi): return lambda ip,c: Bool(land(neg(lt(D(ip,c),Int(lo))),lt(D(ip,c),Int(hi))))
for _n,_lo in(('informational',100),('success',200),('redirection',300),('client_error',400),('server_error',500)): EXACT['http::status::StatusCode::is_'+_n]=_range(_lo,_lo+100)

ENTRY=('alloc::collections::btree::map::entry::Entry::','std::collections::hash::map::Entry::','hashbrown::map::Entry::','indexmap::map::Entry::','alloc::collections::btree::map::entry::VacantEntry::')
@prefix(*ENTRY)
def _(ip,c):
    nm=c.key.rsplit('::',1)[1]; e=D(ip,c)
    if NODES[e][0]!='agg' or NODES[e][1][0]!='$entry': return NotImplemented
    r,k,t=NODES[e][2]; t=NODES[t][1]; m=ip.loc_read(c.st,I.unref(r)); h=isv(mget(m,k),OPT,1); root,pr=I.unref(r); ref=I.mkref((root,pr+(('k',k),)))
    if nm=='key': return k
    if nm=='and_modify':
        p=ip.cond(c.pc,h); outs=[]
        if p!=0: q,_,st=ip.call_value(c.av[1],[ref],[],None,p,dict(c.st),c.sp); outs.append((q,e,st))
        n=ip.cond(c.pc,neg(h))
        if n!=0: outs.append((n,e,c.st))
        return join(outs)
    if nm in('or_default','or_insert','or_insert_with','or_insert_with_key'):
        st=c.st; p=c.pc; outs=[]
        n=ip.cond(p,neg(h)); y=ip.cond(p,h)
        if n!=0:
            q=n; s2=dict(st)
            if nm=='or_default': d=default_of(ip,t[2][1])
            elif nm=='or_insert': d=c.av[1]
            else: q,d,s2=ip.call_value(c.av[1],[] if nm=='or_insert_with' else [k],[],t[2][1],n,s2,c.sp); s2=dict(s2)
            if q!=0: ip.loc_write(s2,I.unref(r),app('minsert',ip.loc_read(s2,I.unref(r)),k,d)); outs.append((q,ref,s2))
        if y!=0: outs.append((y,ref,st))
        return join(outs)
    return NotImplemented
# ------------------------------------------------------------------ interior mutability: the contents of a cell are a store location of their own
def cell(ip,c,i=0):
    v=D(ip,c,i)
    x=v
    while NODES[x][0]=='fld': x=NODES[x][2][0]
    if NODES[x][0]!='sym': raise I.Unsupported('interior mutability of a value: '+c.key)
    return I.cell_key(v)
def cell_get(st,k): v=st.get(k); return I.key_default(k) if v is None else v
def cell_ref(ip,c):
    k=cell(ip,c); st=dict(c.st); st[k]=cell_get(st,k); return st,k,I.mkref((k,()))
@prim('core::cell::RefCell::borrow','core::cell::Cell::get','core::cell::RefCell::into_inner','elsa::FrozenMap::into_map','elsa::map::FrozenMap::into_map')
def _(ip,c): return cell_get(c.st,cell(ip,c))
@prim('core::cell::RefCell::borrow_mut')
def _(ip,c):
    st,k,r=cell_ref(ip,c); return c.pc,r,st
@prim('core::cell::RefCell::take','core::cell::RefCell::replace','core::cell::Cell::replace','core::cell::Cell::set','core::cell::Cell::take')
def _(ip,c):
    st,k,r=cell_ref(ip,c); v=st[k]; st[k]=default_of(ip,c.targs[0]) if c.name=='take' or c.key.endswith('take') else c.av[1]
    return c.pc,UNIT if c.key.endswith('set') else v,st
@prim('elsa::FrozenMap::get','elsa::map::FrozenMap::get')
def _(ip,c): return mget(cell_get(c.st,cell(ip,c)),D(ip,c,1))
@prim('elsa::FrozenMap::map_get','elsa::map::FrozenMap::map_get')
def _(ip,c):
    o=mget(cell_get(c.st,cell(ip,c)),D(ip,c,1))
    return ip.call_body(ip.w.bodies['models::option::map'],{},[o,c.av[2]],c.pc,c.st)
@prim('elsa::FrozenMap::insert','elsa::map::FrozenMap::insert')
def _(ip,c):
    """keeps a value that is already there"""
    st,k,r=cell_ref(ip,c); m=st[k]; x=D(ip,c,1); o=mget(m,x); h=isv(o,OPT,1); v=D(ip,c,2)
    st[k]=phi([(h,m),(neg(h),app('minsert',m,x,v))])
    return c.pc,phi([(h,fld(o,'0','Some')),(neg(h),v)]),st
