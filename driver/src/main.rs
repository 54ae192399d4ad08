//! Dumps the resolved MIR of one crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]. For the crate named by MIRDUMP_CRATE the
//! analysis result is written to MIRDUMP_OUT; every other crate is compiled as usual.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::print::with_no_visible_paths;
use rustc_middle::ty::{self, TypeVisitableExt as _, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv, Unnormalized};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

/// Minimal JSON value; strings are escaped on output.
enum J { S(String), N(i128), B(bool), Null, A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    fn s(x: impl Into<String>) -> J { J::S(x.into()) }
    fn n(x: usize) -> J { J::N(x as i128) }
    fn put(&self, o: &mut String) {
        match self {
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::N(n) => { let _ = write!(o, "{n}"); }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.put(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } let _ = write!(o, "\"{k}\":"); x.put(o); } o.push('}'); }
        }
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String { with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))) }
fn pretty<'tcx>(t: impl std::fmt::Display) -> String { with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())) }

type Env<'tcx> = TypingEnv<'tcx>;

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    envs: HashMap<String, usize>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    ty_queue: VecDeque<(Ty<'tcx>, usize, Env<'tcx>)>,
    callees: HashMap<(DefId, GenericArgsRef<'tcx>, usize, usize), usize>,
    callee_out: Vec<J>,
    bodies: HashMap<String, ()>,
    body_out: Vec<J>,
    queue: VecDeque<(String, Instance<'tcx>, Env<'tcx>, Option<Promoted>)>,
}

impl<'tcx> Dump<'tcx> {
    /// Items without generic parameters do not depend on the caller's where-clauses.
    fn norm_env(env: Env<'tcx>, args: GenericArgsRef<'tcx>) -> Env<'tcx> {
        if args.has_param() { env } else { TypingEnv::fully_monomorphized() }
    }

    fn env_id(&mut self, e: Env<'tcx>) -> usize {
        let k = format!("{:?}", e.param_env);
        let n = self.envs.len();
        *self.envs.entry(k).or_insert(n)
    }

    fn ty(&mut self, t: Ty<'tcx>, env: Env<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        self.ty_queue.push_back((t, i, env));
        i
    }
    fn j_ty(&mut self, t: Ty<'tcx>, env: Env<'tcx>) -> J { J::n(self.ty(t, env)) }

    /// Which external functions are worth inlining: small, safe-looking parts of core.
    fn inlinable(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let p = self.tcx.def_path(d);
        if self.tcx.crate_name(p.krate).as_str() != "core" { return false; }
        let Some(first) = p.data.first() else { return false };
        let m = first.data.to_string();
        matches!(m.as_str(), "option" | "result" | "cmp" | "bool" | "ops" | "convert" | "tuple" | "borrow" | "default")
    }

    fn body_key(&mut self, inst: Instance<'tcx>, env: Env<'tcx>, promoted: Option<Promoted>) -> Option<String> {
        let tcx = self.tcx;
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(did) => {
                if !self.inlinable(did) { return None; }
                if !tcx.is_mir_available(did) && promoted.is_none() {
                    if !matches!(tcx.def_kind(did), DefKind::Const | DefKind::AssocConst | DefKind::Static { .. } | DefKind::AnonConst) || !did.is_local() { return None; }
                }
                if tcx.is_constructor(did) { return None; }
            }
            _ => return None,
        }
        let args = tcx.erase_and_anonymize_regions(inst.args);
        let env = Self::norm_env(env, args);
        let e = self.env_id(env);
        let mut k = format!("{}|{}|{}", path(tcx, d), with_no_trimmed_paths!(format!("{:?}", args)), e);
        // Distinguish items that share a printed path (closures, impls).
        k.push_str(&format!("|{}", with_no_trimmed_paths!(tcx.def_path_debug_str(d))));
        if let Some(p) = promoted { k.push_str(&format!("|promoted{}", p.as_usize())); }
        if self.bodies.insert(k.clone(), ()).is_none() {
            self.queue.push_back((k.clone(), inst, env, promoted));
        }
        Some(k)
    }

    /// Describes a callable (or const) item with its resolved target.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: Env<'tcx>, promoted: Option<Promoted>) -> usize {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let env = Self::norm_env(env, args);
        let eid = self.env_id(env);
        let pk = promoted.map(|p| p.as_usize() + 1).unwrap_or(0);
        if let Some(i) = self.callees.get(&(d, args, eid, pk)) { return *i; }
        let i = self.callee_out.len();
        self.callees.insert((d, args, eid, pk), i);
        self.callee_out.push(J::Null);
        let mut o: Vec<(&'static str, J)> = vec![("p", J::s(path(tcx, d)))];
        let tyargs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| self.j_ty(t, env)).collect();
        o.push(("a", J::A(tyargs)));
        o.push(("n", J::s(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        o.push(("local", J::B(d.is_local())));
        o.push(("krate", J::s(tcx.crate_name(d.krate).to_string())));
        let is_ctor = tcx.is_constructor(d);
        if let Some(ai) = tcx.opt_associated_item(d) {
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait", J::s(path(tcx, tr))));
                let _ = ai;
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_normalization();
                o.push(("impl_self", J::s(pretty(st))));
            }
        }
        if is_ctor {
            let parent = tcx.parent(d);
            let (adt, variant) = match tcx.def_kind(parent) {
                DefKind::Variant => { let a = tcx.parent(parent); (a, tcx.adt_def(a).variant_index_with_ctor_id(d).as_usize()) }
                _ => (parent, 0),
            };
            o.push(("ctor", J::A(vec![J::s(path(tcx, adt)), J::n(variant)])));
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().output().skip_binder();
            let out = tcx.try_normalize_erasing_regions(env, Unnormalized::new_wip(sig)).unwrap_or(sig);
            o.push(("out", self.j_ty(out, env)));
        }
        // Resolution.
        let kind = tcx.def_kind(d);
        if !is_ctor && matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip()).output();
            let out = tcx.try_normalize_erasing_regions(env, Unnormalized::new_wip(sig)).unwrap_or(sig);
            o.push(("out", self.j_ty(out, env)));
        }
        let resolvable = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const | DefKind::AssocConst | DefKind::AnonConst | DefKind::Static { .. } | DefKind::Closure);
        let mut k = "unresolved";
        if resolvable && !is_ctor {
            let r = if kind == DefKind::Closure { Some(Instance::new_raw(d, args)) } else { Instance::try_resolve(tcx, env, d, args).ok().flatten() };
            if let Some(inst) = r {
                o.push(("rp", J::s(path(tcx, inst.def_id()))));
                if inst.def_id() != d {
                    let ra: Vec<J> = inst.args.iter().filter_map(|a| a.as_type()).map(|t| self.j_ty(t, env)).collect();
                    o.push(("ra", J::A(ra)));
                }
                if let Some(im) = tcx.impl_of_assoc(inst.def_id()) {
                    let st = tcx.type_of(im).instantiate_identity().skip_normalization();
                    o.push(("r_self", J::s(pretty(st))));
                }
                o.push(("rlocal", J::B(inst.def_id().is_local())));
                match inst.def {
                    InstanceKind::Item(rd) => {
                        if tcx.is_closure_like(rd) {
                            k = "closure";
                        } else {
                            k = "item";
                            if let Some(b) = self.body_key(inst, env, promoted) { o.push(("b", J::s(b))); }
                        }
                    }
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => k = "intrinsic",
                    InstanceKind::Virtual(..) => k = "virtual",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => k = "closure",
                    InstanceKind::Shim(ShimKind::FnPtr(_, t)) => { k = "fnptr"; let j = self.j_ty(t, env); o.push(("fty", j)); }
                    InstanceKind::Shim(ShimKind::Clone(..)) => k = "cloneshim",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => k = "dropglue",
                    InstanceKind::Shim(ShimKind::VTable(_)) => k = "virtual",
                    InstanceKind::Shim(ShimKind::Reify(..)) => k = "item",
                    _ => k = "shim",
                }
            }
        }
        if is_ctor { k = "ctor"; }
        o.push(("k", J::s(k)));
        self.callee_out[i] = J::O(o);
        i
    }

    fn fill_ty(&mut self, t: Ty<'tcx>, i: usize, env: Env<'tcx>) {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(pretty(t)))];
        let norm = |this: &Self, x: Ty<'tcx>| -> Ty<'tcx> {
            let x = this.tcx.erase_and_anonymize_regions(x);
            this.tcx.try_normalize_erasing_regions(env, Unnormalized::new_wip(x)).unwrap_or(x)
        };
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(_) => o.push(("k", J::s("int"))),
            ty::Uint(_) => o.push(("k", J::s("uint"))),
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Ref(_, x, m) => { o.push(("k", J::s("ref"))); let j = self.j_ty(*x, env); o.push(("t", j)); o.push(("mut", J::B(m.is_mut()))); }
            ty::RawPtr(x, m) => { o.push(("k", J::s("ptr"))); let j = self.j_ty(*x, env); o.push(("t", j)); o.push(("mut", J::B(m.is_mut()))); }
            ty::Slice(x) => { o.push(("k", J::s("slice"))); let j = self.j_ty(*x, env); o.push(("t", j)); }
            ty::Array(x, n) => {
                o.push(("k", J::s("array"))); let j = self.j_ty(*x, env); o.push(("t", j));
                if let Some(v) = n.try_to_target_usize(tcx) { o.push(("n", J::N(v as i128))); }
            }
            ty::Tuple(ts) => { o.push(("k", J::s("tuple"))); let v = ts.iter().map(|x| self.j_ty(x, env)).collect(); o.push(("ts", J::A(v))); }
            ty::Param(p) => { o.push(("k", J::s("param"))); o.push(("name", J::s(p.name.to_string()))); }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::FnDef(d, a) => {
                o.push(("k", J::s("fndef")));
                let c = self.callee(*d, a.skip_binder(), env, None);
                o.push(("c", J::n(c)));
            }
            ty::Dynamic(preds, _) => {
                o.push(("k", J::s("dyn")));
                if let Some(p) = preds.principal_def_id() { o.push(("trait", J::s(path(tcx, p)))); }
            }
            ty::Closure(d, a) => {
                o.push(("k", J::s("closure")));
                o.push(("p", J::s(path(tcx, *d))));
                let inst = Instance::new_raw(*d, a);
                if let Some(b) = self.body_key(inst, env, None) { o.push(("b", J::s(b))); }
                let ups: Vec<J> = a.as_closure().upvar_tys().iter().map(|x| { let x = norm(self, x); self.j_ty(x, env) }).collect();
                o.push(("ts", J::A(ups)));
                o.push(("ck", J::s(format!("{:?}", a.as_closure().kind()))));
            }
            ty::Coroutine(d, a) => {
                o.push(("k", J::s("closure")));
                o.push(("p", J::s(path(tcx, *d))));
                let inst = Instance::new_raw(*d, a);
                if let Some(b) = self.body_key(inst, env, None) { o.push(("b", J::s(b))); }
                let ups: Vec<J> = a.as_coroutine().upvar_tys().iter().map(|x| { let x = norm(self, x); self.j_ty(x, env) }).collect();
                o.push(("ts", J::A(ups)));
                o.push(("ck", J::s("Coroutine")));
            }
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("p", J::s(path(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                let a: Vec<J> = args.iter().filter_map(|x| x.as_type()).map(|x| self.j_ty(x, env)).collect();
                o.push(("a", J::A(a)));
                o.push(("enum", J::B(def.is_enum())));
                if let Some(dt) = tcx.adt_destructor(def.did()) {
                    let c = self.callee(dt.did, args, env, None);
                    o.push(("dtor", J::n(c)));
                }
                if def.did().is_local() || def.is_enum() || def.all_fields().all(|f| f.vis.is_public()) {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        let fs: Vec<J> = v.fields.iter().map(|f| {
                            let ft = norm(self, f.ty(tcx, args).skip_norm_wip());
                            let vis = if f.vis.is_public() { "pub".to_string() } else { format!("{:?}", f.vis) };
                            J::A(vec![J::s(f.name.to_string()), self.j_ty(ft, env), J::s(vis)])
                        }).collect();
                        vs.push(J::A(vec![J::s(v.name.to_string()), J::N(discr), J::A(fs)]));
                    }
                    o.push(("vs", J::A(vs)));
                }
            }
            _ => o.push(("k", J::s("other"))),
        }
        self.ty_out[i] = J::O(o);
    }

    fn place(&mut self, p: &Place<'tcx>, env: Env<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![J::s("f"), J::n(f.as_usize()), self.j_ty(t, env)]),
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![J::s("ci"), J::N(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("ss"), J::N(from as i128), J::N(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("d"), J::n(v.as_usize())]),
                _ => J::A(vec![J::s("x")]),
            });
        }
        if pr.is_empty() { J::n(p.local.as_usize()) } else { J::A(vec![J::n(p.local.as_usize()), J::A(pr)]) }
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, env: Env<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tj = self.j_ty(t, env);
        if let ty::FnDef(..) = t.kind() { return J::A(vec![J::s("zst"), tj]); }
        let simple = matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) ;
        if simple {
            if let Some(v) = c.try_eval_bits(tcx, env) { return J::A(vec![J::s("int"), tj, J::s(v.to_string())]); }
        }
        let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
        let val = match c {
            Const::Val(v, _) => Some(*v),
            Const::Unevaluated(..) if is_str => c.eval(tcx, env, rustc_span::DUMMY_SP).ok(),
            _ => None,
        };
        if let Some(v) = val {
            match v {
                ConstValue::ZeroSized => return J::A(vec![J::s("zst"), tj]),
                ConstValue::Slice { alloc_id, meta } if is_str => {
                    if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        return J::A(vec![J::s("str"), tj, J::s(String::from_utf8_lossy(bytes).to_string())]);
                    }
                }
                ConstValue::Scalar(mir::interpret::Scalar::Int(n)) => return J::A(vec![J::s("scal"), tj, J::s(n.to_bits(n.size()).to_string())]),
                ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                    let (prov, _) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        mir::interpret::GlobalAlloc::Static(d) => return J::A(vec![J::s("static"), tj, J::s(path(tcx, d))]),
                        mir::interpret::GlobalAlloc::Function { instance } => {
                            let c = self.callee(instance.def_id(), instance.args, env, None);
                            return J::A(vec![J::s("fn"), tj, J::n(c)]);
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        if let Const::Unevaluated(u, _) = c {
            let ci = self.callee(u.def, u.args, env, u.promoted);
            return J::A(vec![J::s("const"), tj, J::n(ci)]);
        }
        J::A(vec![J::s("opaque"), tj, J::s(pretty(c))])
    }

    fn op(&mut self, o: &Operand<'tcx>, env: Env<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(p, env)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(p, env)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.konst(&c.const_, env)]),
            Operand::RuntimeChecks(_) => J::A(vec![J::s("rc")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: Env<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.op(o, env)]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![J::s("use"), self.op(o, env)]),
            Rvalue::Repeat(o, n) => J::A(vec![J::s("rep"), self.op(o, env), J::s(pretty(n))]),
            Rvalue::Ref(_, bk, p) => J::A(vec![J::s("ref"), self.place(p, env), J::B(matches!(bk, BorrowKind::Mut { .. }))]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(p, env)]), J::B(m.is_mut())]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), self.place(p, env), J::B(true)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(path(self.tcx, *d))]),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => format!("coerce:{pc:?}"),
                    k => format!("{k:?}"),
                };
                J::A(vec![J::s("cast"), J::s(ks), self.op(o, env), self.j_ty(*t, env)])
            }
            Rvalue::BinaryOp(b, ops) => J::A(vec![J::s("bin"), J::s(format!("{b:?}")), self.op(&ops.0, env), self.op(&ops.1, env)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![J::s("un"), J::s(format!("{u:?}")), self.op(o, env)]),
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(p, env)]),
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(p, env)])]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        J::A(vec![J::s("adt"), self.j_ty(t, env), J::n(vi.as_usize()), active.map(|f| J::n(f.as_usize())).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        J::A(vec![J::s("closure"), self.j_ty(t, env)])
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let t = Ty::new_coroutine(self.tcx, *d, args);
                        J::A(vec![J::s("closure"), self.j_ty(t, env)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("coroutine")]),
                };
                J::A(vec![J::s("agg"), kj, J::A(v)])
            }
        }
    }

    fn line(&self, s: rustc_span::Span) -> usize {
        let sm = self.tcx.sess.source_map();
        sm.lookup_char_pos(s.source_callsite().lo()).line
    }

    fn dump_body(&mut self, key: String, inst: Instance<'tcx>, env: Env<'tcx>, promoted: Option<Promoted>) {
        let tcx = self.tcx;
        let src: &mir::Body<'tcx> = match promoted {
            Some(p) => &tcx.promoted_mir(inst.def_id())[p],
            None => {
                let d = inst.def_id();
                if d.is_local() && matches!(tcx.def_kind(d), DefKind::Const | DefKind::AssocConst | DefKind::Static { .. } | DefKind::AnonConst) { tcx.mir_for_ctfe(d) } else { tcx.instance_mir(inst.def) }
            }
        };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, src.clone())) {
            Ok(b) => b,
            Err(_) => EarlyBinder::bind(tcx, src.clone()).instantiate(tcx, inst.args).skip_norm_wip(),
        };
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.j_ty(l.ty, env)).collect();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(J::A(vec![J::s(v.name.to_string()), self.place(p, env)]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0, env);
                        let r = self.rvalue(&a.1, env);
                        st.push(J::A(vec![J::s("="), p, r, J::n(self.line(s.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![J::s("sd"), self.place(place, env), J::n(variant_index.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = &**i { st.push(J::A(vec![J::s("cno")])); }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), J::n(target.as_usize())]),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), J::n(real_target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr, env);
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::s(v.to_string()), J::n(b.as_usize())])).collect();
                    J::A(vec![J::s("switch"), d, J::A(v), J::n(targets.otherwise().as_usize()), J::n(ln)])
                }
                TerminatorKind::Return => J::A(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let p = self.place(place, env);
                    J::A(vec![J::s("drop"), p, J::n(target.as_usize()), self.j_ty(pt, env), J::n(ln)])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let f = match fty.kind() {
                        ty::FnDef(d, a) => J::n(self.callee(*d, a.skip_binder(), env, None)),
                        _ => self.op(func, env),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, env)).collect();
                    let dst = self.place(destination, env);
                    J::A(vec![J::s("call"), f, J::A(a), dst, target.map(|t| J::n(t.as_usize())).unwrap_or(J::Null), J::n(self.line(*fn_span))])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "divzero",
                        AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference | AssertKind::InvalidEnumConstruction(..) => "ub",
                        _ => "other",
                    };
                    J::A(vec![J::s("assert"), self.op(cond, env), J::B(*expected), J::n(target.as_usize()), J::s(m), J::n(ln)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("unwind")]),
                _ => J::A(vec![J::s("other"), J::s(format!("{:?}", t.kind))]),
            };
            blocks.push(J::A(vec![J::A(st), tj, J::B(bb.is_cleanup)]));
        }
        let sm = tcx.sess.source_map();
        let lo = sm.lookup_char_pos(body.span.source_callsite().lo());
        let hi = sm.lookup_char_pos(body.span.source_callsite().hi());
        let d = inst.def_id();
        self.body_out.push(J::O(vec![
            ("key", J::s(key)), ("p", J::s(path(tcx, d))), ("local", J::B(d.is_local())), ("argc", J::n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| J::n(l.as_usize())).unwrap_or(J::Null)),
            ("l", J::A(locals)), ("dbg", J::A(dbg)), ("bb", J::A(blocks)),
            ("file", J::s(lo.file.name.prefer_local_unconditionally().to_string())), ("ln", J::n(lo.line)), ("ln2", J::n(hi.line)),
            ("mac", J::B(body.span.from_expansion())),
        ]));
    }

    fn drain(&mut self) {
        loop {
            if let Some((t, i, env)) = self.ty_queue.pop_front() { self.fill_ty(t, i, env); continue; }
            if let Some((k, inst, env, p)) = self.queue.pop_front() { self.dump_body(k, inst, env, p); continue; }
            break;
        }
    }
}

fn run(tcx: TyCtxt<'_>, out: &str) {
    let mut d = Dump { tcx, envs: Default::default(), tys: Default::default(), ty_out: vec![], ty_queue: Default::default(), callees: Default::default(), callee_out: vec![], bodies: Default::default(), body_out: vec![], queue: Default::default() };
    let mut roots = vec![];
    let ev = tcx.effective_visibilities(());
    let mut keys: Vec<_> = tcx.hir_body_owners().collect();
    keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
    for ld in keys {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const | DefKind::AssocConst | DefKind::Static { .. }) { continue; }
        let env = TypingEnv::post_analysis(tcx, did);
        let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did));
        let inst = Instance::new_raw(did, args);
        let Some(key) = d.body_key(inst, env, None) else { continue };
        let mut o: Vec<(&'static str, J)> = vec![("key", J::s(key)), ("p", J::s(path(tcx, did))), ("n", J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())),
            ("kind", J::s(match kind { DefKind::Fn => "fn", DefKind::AssocFn => "method", DefKind::Static { .. } => "static", _ => "const" })),
            ("reach", J::B(ev.is_reachable(ld))), ("vis", J::s(format!("{:?}", tcx.visibility(did)))), ("derived", J::B(tcx.opt_parent(did).is_some_and(|p| tcx.is_automatically_derived(p))))];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            o.push(("sig", J::s(format!("{:?}", sig))));
            let mut preds: Vec<String> = tcx.param_env(did).caller_bounds().map(|p| format!("{p:?}")).collect();
            preds.sort();
            o.push(("preds", J::A(preds.into_iter().map(J::s).collect())));
        }
        if matches!(kind, DefKind::Static { .. }) {
            if let Some(l) = tcx.codegen_fn_attrs(did).link_section { o.push(("sec", J::s(l.to_string()))); }
        }
        if let Some(tr) = tcx.trait_of_assoc(did) { o.push(("trait_def", J::s(path(tcx, tr)))); }
        if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let sj = d.j_ty(st, env);
            o.push(("self", sj));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", J::s(path(tcx, tr.def_id))));
                let ta: Vec<J> = tr.args.iter().filter_map(|a| a.as_type()).map(|t| d.j_ty(t, env)).collect();
                o.push(("targs", J::A(ta)));
            }
        }
        roots.push(J::O(o));
    }
    // Provided trait methods instantiated per local impl, and the impl table.
    let mut impls = vec![];
    let mut impl_ids: Vec<DefId> = tcx.hir_crate_items(()).definitions().map(|x| x.to_def_id()).filter(|x| matches!(tcx.def_kind(*x), DefKind::Impl { .. })).collect();
    impl_ids.sort_by_key(|k| tcx.def_path_hash(*k));
    for im in impl_ids {
        let env = TypingEnv::post_analysis(tcx, im);
        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
        let sj = d.j_ty(st, env);
        let mut o: Vec<(&'static str, J)> = vec![("self", sj), ("selfs", J::s(pretty(st))), ("ln", J::n(d.line(tcx.def_span(im)))), ("derived", J::B(tcx.is_automatically_derived(im)))];
        let mut items: Vec<J> = tcx.associated_item_def_ids(im).iter().map(|x| J::s(tcx.opt_item_name(*x).map(|s| s.to_string()).unwrap_or_default())).collect();
        items.sort_by_key(|j| if let J::S(s) = j { s.clone() } else { String::new() });
        o.push(("items", J::A(items)));
        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            o.push(("trait", J::s(path(tcx, tr.def_id))));
            let ta: Vec<J> = tr.args.iter().filter_map(|a| a.as_type()).map(|t| d.j_ty(t, env)).collect();
            o.push(("targs", J::A(ta)));
            if tr.def_id.is_local() {
                let tr = tcx.erase_and_anonymize_regions(tr);
                for m in tcx.associated_items(tr.def_id).in_definition_order() {
                    if !m.is_fn() || tcx.generics_of(m.def_id).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue; }
                    let margs = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, m.def_id)).rebase_onto(tcx, tr.def_id, tr.args);
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, m.def_id, margs) {
                        if tcx.trait_of_assoc(inst.def_id()).is_none() { continue; }
                        if let Some(key) = d.body_key(inst, env, None) {
                            let sj = d.j_ty(st, env);
                            roots.push(J::O(vec![("key", J::s(key)), ("p", J::s(path(tcx, m.def_id))), ("n", J::s(m.name().to_string())), ("kind", J::s("provided")),
                                ("reach", J::B(true)), ("vis", J::s("")), ("derived", J::B(false)), ("self", sj), ("trait", J::s(path(tcx, tr.def_id)))]));
                        }
                    }
                }
            }
        }
        impls.push(J::O(o));
    }
    // Local ADTs and statics, even those nothing mentions.
    let mut adts = vec![];
    for x in tcx.hir_crate_items(()).definitions() {
        let did = x.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let env = TypingEnv::post_analysis(tcx, did);
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let j = d.j_ty(t, env);
            adts.push(J::O(vec![("p", J::s(path(tcx, did))), ("t", j), ("reach", J::B(ev.is_reachable(x))), ("vis", J::s(format!("{:?}", tcx.visibility(did)))), ("ln", J::n(d.line(tcx.def_span(did))))]));
        }
    }
    d.drain();
    let o = J::O(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("roots", J::A(roots)), ("impls", J::A(impls)), ("adts", J::A(adts)),
        ("types", J::A(std::mem::take(&mut d.ty_out))), ("callees", J::A(std::mem::take(&mut d.callee_out))), ("bodies", J::A(std::mem::take(&mut d.body_out))),
    ]);
    let mut s = String::new();
    o.put(&mut s);
    let tmp = format!("{out}.tmp");
    std::fs::write(&tmp, s).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

struct Cb { dump: Option<String> }
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        if self.dump.is_some() {
            c.opts.unstable_opts.mir_opt_level = Some(0);
            c.opts.unstable_opts.inline_mir = Some(false);
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.dump { run(tcx, o); }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|a| a.ends_with("rustc")) { args.remove(0); }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
    let dump = if !want.is_empty() && name == want { std::env::var("MIRDUMP_OUT").ok() } else { None };
    let mut full = vec!["rustc".to_string()];
    full.extend(args);
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&full, &mut Cb { dump }))
}
