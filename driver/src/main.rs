//! rustc driver that dumps, for every body of the crate being compiled, the MIR as it leaves MIR
//! building (before borrowck, drop elaboration and the coroutine transform), with resolved
//! callees, evaluated constants, structured types and spans, as one JSON file per crate.
//! It decides nothing: the rules live in /verif/analysis.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::definitions::DefPathData;
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

mod json;
use json::J;

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}
static DEFAULT_MIR_BUILT: std::sync::OnceLock<
    for<'tcx> fn(
        TyCtxt<'tcx>,
        LocalDefId,
    ) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
> = std::sync::OnceLock::new();

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
}

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    let key = tcx.def_key(d);
    let Some(p) = key.parent else {
        return tcx.crate_name(d.krate).to_string();
    };
    let parent = DefId { krate: d.krate, index: p };
    match key.disambiguated_data.data {
        DefPathData::Impl => {
            let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            match tcx.impl_opt_trait_ref(d) {
                Some(tr) => {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    format!("<{} as {}>", ty_str(tcx, self_ty), trait_str(tcx, tr))
                }
                None => match self_ty.kind() {
                    ty::Adt(a, _) => path_of(tcx, a.did()),
                    _ => format!("<{}>", ty_str(tcx, self_ty)),
                },
            }
        }
        DefPathData::ForeignMod => path_of(tcx, parent),
        _ => {
            let pp = path_of(tcx, parent);
            let dd = key.disambiguated_data;
            let n = match dd.data.get_opt_name() {
                Some(n) => n.to_string(),
                None => match dd.data {
                    DefPathData::Closure => format!("{{closure#{}}}", dd.disambiguator),
                    DefPathData::Ctor => "{ctor}".into(),
                    DefPathData::AnonConst => format!("{{const#{}}}", dd.disambiguator),
                    DefPathData::OpaqueTy => format!("{{opaque#{}}}", dd.disambiguator),
                    _ => format!("{{{:?}#{}}}", dd.data, dd.disambiguator),
                },
            };
            format!("{pp}::{n}")
        }
    }
}

fn args_str<'tcx>(tcx: TyCtxt<'tcx>, a: GenericArgsRef<'tcx>) -> String {
    let v: Vec<String> = a
        .iter()
        .filter_map(|g| match g.kind() {
            GenericArgKind::Type(t) => Some(ty_str(tcx, t)),
            GenericArgKind::Const(c) => Some(const_str(tcx, c)),
            _ => None,
        })
        .collect();
    if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) }
}
fn trait_str<'tcx>(tcx: TyCtxt<'tcx>, tr: ty::TraitRef<'tcx>) -> String {
    let rest: Vec<String> = tr
        .args
        .iter()
        .skip(1)
        .filter_map(|g| match g.kind() {
            GenericArgKind::Type(t) => Some(ty_str(tcx, t)),
            GenericArgKind::Const(c) => Some(const_str(tcx, c)),
            _ => None,
        })
        .collect();
    let b = path_of(tcx, tr.def_id);
    if rest.is_empty() { b } else { format!("{b}<{}>", rest.join(", ")) }
}
fn const_str<'tcx>(tcx: TyCtxt<'tcx>, c: ty::Const<'tcx>) -> String {
    if let Some(v) = c.try_to_target_usize(tcx) {
        return v.to_string();
    }
    match c.kind() {
        ty::ConstKind::Param(p) => p.name.to_string(),
        ty::ConstKind::Alias(..) => {
            match tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(c)) {
                Ok(d) if d != c => const_str(tcx, d),
                _ => format!("{c:?}"),
            }
        }
        _ => format!("{c:?}"),
    }
}
fn ty_str<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, args) => format!("{}{}", path_of(tcx, a.did()), args_str(tcx, args)),
        ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, ty_str(tcx, *t)),
        ty::RawPtr(t, _) => format!("*{}", ty_str(tcx, *t)),
        ty::Slice(t) => format!("[{}]", ty_str(tcx, *t)),
        ty::Array(t, n) => format!("[{}; {}]", ty_str(tcx, *t), const_str(tcx, *n)),
        ty::Tuple(ts) => {
            format!("({})", ts.iter().map(|t| ty_str(tcx, t)).collect::<Vec<_>>().join(", "))
        }
        ty::Param(p) => p.name.to_string(),
        ty::FnDef(d, _) | ty::Closure(d, _) | ty::Coroutine(d, _) => path_of(tcx, (*d).into()),
        _ => format!("{t}"),
    }
}

impl<'tcx> Ctx<'tcx> {
    fn path(&self, d: DefId) -> String {
        path_of(self.tcx, d)
    }
    fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(J::n(self.ty(t))),
                GenericArgKind::Const(c) => {
                    let s = const_str(self.tcx, c);
                    v.push(J::A(vec![J::s("const"), J::S(s)]))
                }
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyix.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tyix.insert(t, i);
        let tcx = self.tcx;
        let j = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::A(vec![J::s("prim"), J::S(format!("{t}"))])
            }
            ty::Adt(a, args) => {
                self.adt(*a);
                let p = self.path(a.did());
                J::A(vec![J::s("adt"), J::S(p), self.gargs(args)])
            }
            ty::Ref(_, t, m) => {
                J::A(vec![J::s(if m.is_mut() { "mutref" } else { "ref" }), J::n(self.ty(*t))])
            }
            ty::RawPtr(t, _) => J::A(vec![J::s("ptr"), J::n(self.ty(*t))]),
            ty::Slice(t) => J::A(vec![J::s("slice"), J::n(self.ty(*t))]),
            ty::Array(t, n) => {
                let n = const_str(tcx, *n);
                J::A(vec![J::s("array"), J::n(self.ty(*t)), J::S(n)])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| J::n(self.ty(t))).collect();
                J::A(vec![J::s("tuple"), J::A(v)])
            }
            ty::Param(p) => J::A(vec![J::s("param"), J::S(p.name.to_string()), J::n(p.index as usize)]),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let p = self.path((*d).into());
                J::A(vec![J::s("fndef"), J::S(p), self.gargs(args)])
            }
            ty::Closure(d, args) => {
                let p = self.path((*d).into());
                let parent = args.as_closure().parent_args();
                let g = tcx.mk_args(parent);
                J::A(vec![J::s("closure"), J::S(p), self.gargs(g)])
            }
            ty::Coroutine(d, args) => {
                let p = self.path((*d).into());
                let parent = args.as_coroutine().parent_args();
                let g = tcx.mk_args(parent);
                J::A(vec![J::s("coroutine"), J::S(p), self.gargs(g)])
            }
            ty::Dynamic(..) => J::A(vec![J::s("dyn"), J::S(format!("{t}"))]),
            ty::FnPtr(..) => J::A(vec![J::s("fnptr"), J::S(format!("{t}"))]),
            ty::Alias(..) => J::A(vec![J::s("alias"), J::S(format!("{t}"))]),
            _ => J::A(vec![J::s("other"), J::S(format!("{t}"))]),
        };
        self.types[i] = j;
        i
    }
    fn adt(&mut self, a: ty::AdtDef<'tcx>) {
        let p = self.path(a.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let tcx = self.tcx;
        let mut vs = vec![];
        if a.is_enum() {
            for (vi, d) in a.discriminants(tcx) {
                let v = a.variant(vi);
                vs.push(self.variant(v, d.val as i128));
            }
        } else {
            for v in a.variants().iter() {
                vs.push(self.variant(v, 0));
            }
        }
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let j = J::O(vec![("kind", J::s(kind)), ("variants", J::A(vs)), ("local", J::B(a.did().is_local())),
            ("generics", J::A(self.tcx.generics_of(a.did()).own_params.iter().map(|g| J::S(g.name.to_string())).collect()))]);
        self.adts.insert(p, j);
    }
    fn variant(&mut self, v: &ty::VariantDef, discr: i128) -> J {
        let mut fs = vec![];
        for f in v.fields.iter() {
            // field types only for local ADTs keeps this small
            let t = if f.did.is_local() {
                J::n(self.ty(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))
            } else {
                J::Null
            };
            fs.push(J::A(vec![J::S(f.name.to_string()), t]));
        }
        J::O(vec![
            ("name", J::S(v.name.to_string())),
            ("discr", J::S(discr.to_string())),
            ("fields", J::A(fs)),
        ])
    }
    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let name = lo
            .file
            .name
            .prefer_local_unconditionally()
            .to_string();
        J::S(format!("{}:{}", name, lo.line))
    }
    fn local_decl_adts(&mut self) {}

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::n(p.local.as_usize())];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => {
                    let k = match pt.ty.kind() {
                        ty::Ref(_, _, m) => {
                            if m.is_mut() { "derefmut" } else { "deref" }
                        }
                        ty::RawPtr(..) => "derefptr",
                        _ => "derefbox",
                    };
                    J::A(vec![J::s(k)])
                }
                ProjectionElem::Field(f, _) => {
                    let (name, of): (String, String) = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            self.adt(*a);
                            (a.variant(vi).fields[f].name.to_string(), self.path(a.did()))
                        }
                        ty::Closure(..) | ty::Coroutine(..) => (f.as_usize().to_string(), "closure".into()),
                        _ => (f.as_usize().to_string(), "tuple".into()),
                    };
                    J::A(vec![J::s("f"), J::n(f.as_usize()), J::S(name), J::S(of)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("idx"), J::n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("cidx"),
                    J::n(offset as usize),
                    J::n(min_length as usize),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("sub"), J::n(from as usize), J::n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            self.adt(*a);
                            a.variant(vi).name.to_string()
                        }
                        _ => n.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    J::A(vec![J::s("down"), J::S(name)])
                }
                _ => J::A(vec![J::s("nop")]),
            };
            v.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }
    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![J::s("mv"), self.place(body, p)]),
            Operand::Constant(c) => self.constant(env, c.const_),
            Operand::RuntimeChecks(_) => J::A(vec![J::s("c"), J::n(0), J::s("int"), J::s("0")]),
        }
    }
    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", J::S(self.path(d)))];
        let ga = self.gargs(args);
        o.push(("args", ga));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(tr))));
            o.push(("name", J::S(tcx.item_name(d).to_string())));
        }
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let (adt, vname) = if tcx.def_kind(parent) == DefKind::Variant {
                (tcx.parent(parent), Some(tcx.item_name(parent).to_string()))
            } else {
                (parent, None)
            };
            self.adt(tcx.adt_def(adt));
            let ap = self.path(adt);
            let vn = vname.unwrap_or_else(|| tcx.item_name(adt).to_string());
            o.push(("ctor", J::A(vec![J::S(ap), J::S(vn)])));
        } else if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
                if let ty::InstanceKind::Item(rd) = inst.def {
                    if rd != d {
                        o.push(("res", J::S(self.path(rd))));
                        let ra = self.gargs(inst.args);
                        o.push(("resargs", ra));
                    } else if tcx.trait_of_assoc(d).is_some() {
                        // default method body selected
                        o.push(("dflt", J::B(true)));
                    }
                }
            }
        }
        J::O(o)
    }
    fn constant(&mut self, env: TypingEnv<'tcx>, c: Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = J::n(self.ty(t));
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let cal = self.callee(env, (*d).into(), args);
                return J::A(vec![J::s("c"), ti, J::s("fn"), cal]);
            }
            _ => {}
        }
        // const items of this workspace are kept symbolic-by-path as well as evaluated
        let mut via = J::Null;
        if let Const::Unevaluated(u, _) = c {
            let p = self.path(u.def);
            let a = self.gargs(u.args);
            let mut rp = J::Null;
            if let Some(tr) = tcx.trait_of_assoc(u.def) {
                rp = J::S(self.path(tr));
            }
            let mut res = J::Null;
            let eargs = tcx.erase_and_anonymize_regions(u.args);
            if matches!(tcx.def_kind(u.def), DefKind::AssocConst | DefKind::Const) {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, u.def, eargs) {
                    res = J::S(self.path(inst.def_id()));
                }
            }
            via = J::A(vec![J::S(p), a, rp, res]);
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.try_eval_bits(tcx, env) {
                let s = if t.is_signed() {
                    let size = match t.kind() {
                        ty::Int(i) => i.bit_width().unwrap_or(64),
                        _ => 64,
                    };
                    let sh = 128 - size as u32;
                    (((b << sh) as i128) >> sh).to_string()
                } else {
                    b.to_string()
                };
                return J::A(vec![J::s("c"), ti, J::s("int"), J::S(s), via]);
            }
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let s = String::from_utf8_lossy(&b[..b.len().min(4096)]).into_owned();
                        return J::A(vec![J::s("c"), ti, J::s("str"), J::S(s)]);
                    }
                }
            }
            if let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = c {
                let (prov, _off) = p.prov_and_relative_offset();
                if let Some(ga) = tcx.try_get_global_alloc(prov.alloc_id()) {
                    if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = ga {
                        return J::A(vec![J::s("c"), ti, J::s("static"), J::S(self.path(d))]);
                    }
                    if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = ga {
                        let a = a.inner();
                        if a.provenance().ptrs().is_empty() {
                            let n = a.len();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n.min(65536));
                            let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
                            return J::A(vec![J::s("c"), ti, J::s("bytes"), J::S(h)]);
                        }
                    }
                }
            }
        }
        match c {
            Const::Unevaluated(..) => J::A(vec![J::s("c"), ti, J::s("path"), via]),
            Const::Val(ConstValue::ZeroSized, _) => J::A(vec![J::s("c"), ti, J::s("zst")]),
            Const::Ty(_, ct) => {
                let s = const_str(tcx, ct);
                let k = match ct.kind() {
                    ty::ConstKind::Param(_) => "cparam",
                    _ => "ct",
                };
                J::A(vec![J::s("c"), ti, J::s(k), J::S(s)])
            }
            other => J::A(vec![J::s("c"), ti, J::s("raw"), J::S(format!("{other}"))]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        let s = J::s;
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(body, env, o)]),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(body, env, o);
                J::A(vec![s("repeat"), o, J::S(const_str(self.tcx, *n))])
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(body, p);
                let k = match k {
                    BorrowKind::Shared => "ref",
                    BorrowKind::Fake(_) => "fake",
                    _ => "refmut",
                };
                J::A(vec![s(k), p])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(body, p);
                J::A(vec![s("reborrow"), p, J::B(m.is_mut())])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), J::S(self.path(*d))]),
            Rvalue::RawPtr(k, p) => {
                let p = self.place(body, p);
                let k = match k {
                    RawPtrKind::Const | RawPtrKind::FakeForPtrMetadata => "ref",
                    _ => "refmut",
                };
                J::A(vec![s(k), p])
            }
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&body.local_decls, self.tcx);
                let o = self.operand(body, env, o);
                let ks = match k {
                    CastKind::IntToInt => "int",
                    CastKind::PointerCoercion(..) => "ptr",
                    CastKind::Transmute => "transmute",
                    CastKind::FloatToInt => "f2i",
                    CastKind::IntToFloat => "i2f",
                    CastKind::FloatToFloat => "f2f",
                    _ => "other",
                };
                let (a, b) = (self.ty(ft), self.ty(*t));
                J::A(vec![s("cast"), s(ks), o, J::n(a), J::n(b)])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, self.tcx);
                let a = self.operand(body, env, &ab.0);
                let b = self.operand(body, env, &ab.1);
                let t = self.ty(t);
                J::A(vec![s("bin"), J::S(format!("{op:?}")), a, b, J::n(t)])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, self.tcx);
                let a = self.operand(body, env, a);
                let t = self.ty(t);
                J::A(vec![s("un"), J::S(format!("{op:?}")), a, J::n(t)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let p = self.place(body, p);
                let t = self.ty(t);
                J::A(vec![s("disc"), p, J::n(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), J::n(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        self.adt(a);
                        let v = a.variant(*vi);
                        let _ = active;
                        let fnames =
                            v.fields.iter().map(|f| J::S(f.name.to_string())).collect::<Vec<_>>();
                        let ga = self.gargs(args);
                        J::A(vec![
                            s("adt"),
                            J::S(self.path(*d)),
                            J::S(v.name.to_string()),
                            J::A(fnames),
                            ga,
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let parent = self.tcx.mk_args(args.as_closure().parent_args());
                        let ga = self.gargs(parent);
                        J::A(vec![s("closure"), J::S(self.path(*d)), ga])
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let parent = self.tcx.mk_args(args.as_coroutine().parent_args());
                        let ga = self.gargs(parent);
                        J::A(vec![s("coroutine"), J::S(self.path(*d)), ga])
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        J::A(vec![s("closure"), J::S(self.path(*d)), J::A(vec![])])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("tuple")]),
                };
                J::A(vec![s("agg"), kj, J::A(ops)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(body, p);
                J::A(vec![s("use"), J::A(vec![s("cp"), p])])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(body, env, o)]),
        }
    }
    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::non_body_analysis(tcx, def);
        let env = if std::env::var_os("SIGFACTS_NOREVEAL").is_some() {
            env
        } else {
            TypingEnv::post_analysis(tcx, def)
        };
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(body, &bx.0);
                        let r = self.rvalue(body, env, &bx.1);
                        st.push(J::A(vec![J::s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, .. } => {
                        let p = self.place(body, place);
                        st.push(J::A(vec![J::s("setdisc"), p, J::Null, sp]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let n = |b: &BasicBlock| J::n(b.as_usize());
            let s = J::s;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, tcx);
                    let o = self.operand(body, env, discr);
                    let ti = self.ty(ty);
                    let ts = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::S((v).to_string()), n(&b)]))
                        .collect();
                    J::A(vec![s("switch"), o, J::A(ts), n(&targets.otherwise()), J::n(ti)])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume
                | TerminatorKind::UnwindTerminate(_)
                | TerminatorKind::CoroutineDrop => J::A(vec![s("resume")]),
                TerminatorKind::Drop { target, place, .. } => {
                    let p = self.place(body, place);
                    J::A(vec![s("drop"), n(target), p])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, env, func);
                    let a = args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    let atys = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(&body.local_decls, tcx);
                            J::n(self.ty(t))
                        })
                        .collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    let d = self.place(body, destination);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.as_ref().map(n).unwrap_or(J::Null),
                        J::n(dt),
                        J::A(atys),
                    ])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![s("unsupported"), s("tailcall")]),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "divzero",
                        _ => "other",
                    };
                    let c = self.operand(body, env, cond);
                    J::A(vec![s("assert"), c, J::B(*expected), n(target), s(m)])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(body, env, value);
                    let p = self.place(body, resume_arg);
                    J::A(vec![s("yield"), v, n(resume), p])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target)])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("unsupported"), s("asm")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cl", J::B(b.is_cleanup)),
            ]));
        }
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upvars = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    let pj = self.place(body, p);
                    upvars.push(J::A(vec![J::S(v.name.to_string()), pj]));
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(J::A(vec![
                J::n(t),
                names.get(&l.as_usize()).map(|s| J::s(s)).unwrap_or(J::Null),
            ]));
        }
        let did = def.to_def_id();
        let kind = format!("{:?}", tcx.def_kind(did));
        let gens = {
            let mut v: Vec<J> = vec![];
            let mut g = Some(tcx.generics_of(tcx.typeck_root_def_id(did)));
            let mut all = vec![];
            while let Some(x) = g {
                for p in x.own_params.iter().rev() {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        all.push(p.name.to_string());
                    }
                }
                g = x.parent.map(|p| tcx.generics_of(p));
            }
            all.reverse();
            for a in all {
                v.push(J::S(a));
            }
            J::A(v)
        };
        let vis = if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            if tcx.visibility(did).is_public() { "pub" } else { "priv" }
        } else {
            ""
        };
        let cor = tcx.is_coroutine(did);
        let mut o = vec![
            ("path", J::S(self.path(did))),
            ("kind", J::S(kind)),
            ("vis", J::s(vis)),
            ("span", self.span(tcx.def_span(did))),
            ("argc", J::n(body.arg_count)),
            ("generics", gens),
            ("coroutine", J::B(cor)),
            ("locals", J::A(locals)),
            ("upvars", J::A(upvars)),
            ("blocks", J::A(blocks)),
        ];
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            let parent = tcx.parent(did);
            if tcx.def_kind(parent) == DefKind::Trait {
                o.push(("of_trait", J::S(self.path(parent))));
            }
        }
        let span = tcx.def_span(did);
        o.push(("from_macro", J::B(span.from_expansion())));
        J::O(o)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_sess, p| {
            let _ = DEFAULT_MIR_BUILT.set(p.queries.mir_built);
            p.queries.mir_built = |tcx, def| {
                let r = (DEFAULT_MIR_BUILT.get().unwrap())(tcx, def);
                let b: Body<'_> = r.borrow().clone();
                let b: Body<'static> = unsafe { std::mem::transmute(b) };
                BODIES.with(|m| m.borrow_mut().insert(def, b));
                r
            };
        });
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("SIGFACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if name == "build_script_build" {
            return Compilation::Continue;
        }
        if let Ok(only) = std::env::var("SIGFACTS_CRATES") {
            if !only.split(',').any(|c| c == name) {
                return Compilation::Continue;
            }
        }
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut failed = vec![];
        for &d in &owners {
            if matches!(tcx.def_kind(d), DefKind::AnonConst) {
                continue;
            }
            let root = tcx.typeck_root_def_id(d.to_def_id()).expect_local();
            if tcx.typeck(root).tainted_by_errors.is_some() {
                failed.push(J::S(path_of(tcx, d.to_def_id())));
                continue;
            }
            let _ = tcx.mir_built(d);
        }
        let bodies: Vec<(LocalDefId, Body<'static>)> = BODIES.with(|m| {
            let m = m.borrow();
            owners.iter().filter_map(|d| m.get(d).map(|b| (*d, b.clone()))).collect()
        });
        let mut cx = Ctx { tcx, types: vec![], tyix: HashMap::new(), adts: BTreeMap::new() };
        let mut jb = vec![];
        for (d, b) in &bodies {
            let b: &Body<'tcx> = unsafe { std::mem::transmute(b) };
            if b.tainted_by_errors.is_some() {
                failed.push(J::S(path_of(tcx, d.to_def_id())));
                continue;
            }
            jb.push(cx.body(*d, b));
        }
        cx.local_decl_adts();
        // trait impls of this crate
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is {
                let did = i.to_def_id();
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let r = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let ga = cx.gargs(r.args);
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    let tyj = if it.is_type() {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        J::n(cx.ty(t))
                    } else {
                        J::Null
                    };
                    let n = it.opt_name().map(|n| n.to_string()).unwrap_or_default();
                    items.push(J::A(vec![J::S(n), J::S(cx.path(it.def_id)), tyj]));
                }
                let derived = tcx.is_automatically_derived(did);
                impls.push(J::O(vec![
                    ("trait", J::S(cx.path(*tr))),
                    ("self", J::n(ti)),
                    ("args", ga),
                    ("items", J::A(items)),
                    ("path", J::S(cx.path(did))),
                    ("derived", J::B(derived)),
                ]));
            }
        }
        // every local ADT
        for id in tcx.hir_free_items() {
            let d = id.owner_id.def_id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                cx.adt(tcx.adt_def(d));
            }
        }
        let types = std::mem::take(&mut cx.types);
        let adts = std::mem::take(&mut cx.adts);
        let j = J::O(vec![
            ("crate", J::S(name.clone())),
            ("failed", J::A(failed)),
            ("bodies", J::A(jb)),
            ("types", J::A(types)),
            ("adts", J::M(adts.into_iter().collect())),
            ("impls", J::A(impls)),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        std::fs::create_dir_all(&out).unwrap();
        let ct = tcx.crate_types();
        let suffix = if ct.iter().any(|c| matches!(c, rustc_structures::CrateType::Executable)) { ".bin" } else { "" };
        std::fs::write(format!("{out}/{name}{suffix}.json"), s).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver_impl::install_ice_hook("sigfacts", |_| ());
    let ec = rustc_driver_impl::catch_with_exit_code(|| {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
    });
    ec
}
