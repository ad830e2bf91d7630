//! `mirdump`: a rustc driver that serialises the type-checked program of one crate
//! (built MIR with resolved callees, ADTs, impls, Send/Sync/auto-trait facts) as JSON.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER. When the crate being compiled is the
//! one named by MIRDUMP_CRATE it writes MIRDUMP_OUT; otherwise it behaves as rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;

struct Cb;

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        if name.as_str() == want {
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            let j = with_no_trimmed_paths!(dump(tcx));
            let mut s = String::with_capacity(1 << 24);
            j.write(&mut s);
            std::fs::write(out, s).expect("write MIRDUMP_OUT");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // Wrapper protocol: argv[1] is the path of the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}

fn s<T: ToString>(t: T) -> J {
    J::S(t.to_string())
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.def_path_str(d)
}

fn span_j(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> J {
    // Attribute macro-expanded code to its outermost call site.
    let sp = sp.source_callsite();
    let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
    let f = loc.file.name.prefer_local_unconditionally().to_string();
    J::A(vec![s(f), J::N(loc.line as i128)])
}

fn line_of(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> J {
    let sp = sp.source_callsite();
    let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
    J::N(loc.line as i128)
}

fn ty_head<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<String> {
    match t.kind() {
        ty::Adt(d, _) => Some(path(tcx, d.did())),
        ty::Closure(d, _) => Some(path(tcx, *d)),
        ty::Coroutine(d, _) => Some(path(tcx, *d)),
        ty::FnDef(d, _) => Some(path(tcx, *d)),
        ty::Param(p) => Some(format!("param:{}", p.name)),
        _ => None,
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    owners.sort_by_key(|d| d.local_def_index.as_u32());

    // Pass 1: clone every built body before anything can steal it.
    let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = Vec::new();
    for d in &owners {
        let k = tcx.def_kind(*d);
        let is_fn = matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if !is_fn {
            continue;
        }
        let b = tcx.mir_built(*d);
        if b.is_stolen() {
            continue;
        }
        let b = b.borrow().clone();
        bodies.push((*d, b));
    }

    let mut fns = Vec::new();
    for (d, b) in &bodies {
        fns.push(dump_fn(tcx, *d, b));
    }

    let mut adts = Vec::new();
    let mut impls = Vec::new();
    let mut consts = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        match tcx.def_kind(id) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(dump_adt(tcx, id)),
            DefKind::Impl { .. } => impls.push(dump_impl(tcx, id)),
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if let Some(c) = dump_const(tcx, id) {
                    consts.push(c);
                }
            }
            DefKind::Static { .. } => {
                if let Some(c) = dump_static(tcx, id) {
                    consts.push(c);
                }
            }
            _ => {}
        }
    }

    J::O(vec![
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("consts", J::A(consts)),
        ("enums", J::A(enums(tcx, &bodies))),
    ])
}

/// Variant names (with discriminant values) of every enum whose discriminant is read.
fn enums<'tcx>(tcx: TyCtxt<'tcx>, bodies: &[(LocalDefId, Body<'tcx>)]) -> Vec<J> {
    let mut seen: Vec<DefId> = Vec::new();
    for (_, b) in bodies {
        for bb in b.basic_blocks.iter() {
            for st in &bb.statements {
                if let StatementKind::Assign(a) = &st.kind {
                    if let Rvalue::Discriminant(p) = &a.1 {
                        if let ty::Adt(d, _) = p.ty(&b.local_decls, tcx).ty.kind() {
                            if d.is_enum() && !seen.contains(&d.did()) {
                                seen.push(d.did());
                            }
                        }
                    }
                }
            }
        }
    }
    seen.iter()
        .map(|d| {
            let adt = tcx.adt_def(*d);
            let vs: Vec<J> = adt
                .discriminants(tcx)
                .map(|(i, dv)| {
                    J::A(vec![
                        J::N(i.as_u32() as i128),
                        s(adt.variant(i).name),
                        J::N(dv.val as i128),
                    ])
                })
                .collect();
            J::A(vec![s(path(tcx, *d)), J::A(vs)])
        })
        .collect()
}

fn dump_const(tcx: TyCtxt<'_>, id: LocalDefId) -> Option<J> {
    let did = id.to_def_id();
    if !tcx.generics_of(did).is_empty() {
        return None;
    }
    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    let v = tcx.const_eval_poly(did).ok()?;
    let env = TypingEnv::post_analysis(tcx, did);
    let c = Const::Val(v, t);
    let mut o = vec![("path", s(path(tcx, did))), ("ty", s(t)), ("txt", s(format!("{c}")))];
    if let Some(b) = c.try_eval_bits(tcx, env) {
        o.push(("v", J::N(b as i128)));
    }
    if let Some(xs) = table(tcx, v, t) {
        o.push(("table", J::A(xs.into_iter().map(J::N).collect())));
    }
    o.push(("span", span_j(tcx, tcx.def_span(did))));
    Some(J::O(o))
}

/// The value of an immutable `static` of type `uN` or `[uN; M]`.
fn dump_static(tcx: TyCtxt<'_>, id: LocalDefId) -> Option<J> {
    use rustc_middle::mir::interpret::alloc_range;
    let did = id.to_def_id();
    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    let (elem, n) = match t.kind() {
        ty::Array(e, c) => (*e, c.try_to_target_usize(tcx)?),
        _ => (t, 1),
    };
    let ty::Uint(u) = elem.kind() else { return None };
    let sz = rustc_abi::Size::from_bits(u.bit_width().unwrap_or(64));
    let a = tcx.eval_static_initializer(did).ok()?;
    let mut xs = Vec::new();
    for i in 0..n {
        let x = a.inner().read_scalar(&tcx, alloc_range(sz * i, sz), false).ok()?;
        xs.push(J::N(x.to_bits(sz).discard_err()? as i128));
    }
    let mut o = vec![("path", s(path(tcx, did))), ("ty", s(t)), ("static", J::B(true))];
    o.push(("table", J::A(xs)));
    o.push(("span", span_j(tcx, tcx.def_span(did))));
    Some(J::O(o))
}

/// The elements of a constant `&[uN]`, `&[uN; M]` or `[uN; M]`.
fn table<'tcx>(tcx: TyCtxt<'tcx>, v: ConstValue, t: Ty<'tcx>) -> Option<Vec<i128>> {
    use rustc_middle::mir::interpret::alloc_range;
    let ConstValue::Indirect { alloc_id, offset } = v else { return None };
    let inner = match t.kind() {
        ty::Ref(_, x, _) => *x,
        _ => t,
    };
    let elem = match inner.kind() {
        ty::Slice(e) | ty::Array(e, _) => *e,
        _ => return None,
    };
    let ty::Uint(u) = elem.kind() else { return None };
    let ptr = tcx.data_layout.pointer_size();
    let sz = rustc_abi::Size::from_bits(u.bit_width().unwrap_or(64));
    let mut a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
    let mut off = offset;
    let mut n = match inner.kind() {
        ty::Array(_, c) => c.try_to_target_usize(tcx)?,
        _ => 0,
    };
    if matches!(t.kind(), ty::Ref(..)) {
        let p = a.read_scalar(&tcx, alloc_range(off, ptr), true).ok()?.to_pointer(&tcx);
        if matches!(inner.kind(), ty::Slice(_)) {
            n = a.read_scalar(&tcx, alloc_range(off + ptr, ptr), false).ok()?.to_target_usize(&tcx).discard_err()?;
        }
        let (prov, o2) = p.into_raw_parts();
        a = tcx.global_alloc(prov?.alloc_id()).unwrap_memory().inner();
        off = o2;
    }
    let mut out = Vec::new();
    for i in 0..n {
        let x = a.read_scalar(&tcx, alloc_range(off + sz * i, sz), false).ok()?;
        out.push(x.to_bits(sz).discard_err()? as i128);
    }
    Some(out)
}

fn dump_adt(tcx: TyCtxt<'_>, id: LocalDefId) -> J {
    let did = id.to_def_id();
    let adt = tcx.adt_def(did);
    let mut vs = Vec::new();
    for v in adt.variants() {
        let mut fs = Vec::new();
        for f in &v.fields {
            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            fs.push(J::A(vec![s(f.name), s(t), s(format!("{:?}", tcx.visibility(f.did)))]));
        }
        vs.push(J::A(vec![s(v.name), J::A(fs)]));
    }
    let dtor = tcx.adt_destructor(did).map(|d| path(tcx, d.did));
    J::O(vec![
        ("path", s(path(tcx, did))),
        ("kind", s(adt.descr())),
        ("variants", J::A(vs)),
        ("drop", dtor.map_or(J::Null, s)),
        ("vis", s(format!("{:?}", tcx.visibility(did)))),
        ("reach", J::B(tcx.effective_visibilities(()).is_reachable(id))),
        ("span", span_j(tcx, tcx.def_span(did))),
    ])
}

fn dump_impl(tcx: TyCtxt<'_>, id: LocalDefId) -> J {
    let did = id.to_def_id();
    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    let tr = tcx.impl_opt_trait_ref(did).map(|t| {
        let t = t.instantiate_identity().skip_norm_wip();
        t
    });
    let preds: Vec<J> = tcx
        .clauses_of(did)
        .instantiate_identity(tcx)
        .clauses
        .iter()
        .map(|p| s(format!("{}", p.skip_norm_wip())))
        .collect();
    let items: Vec<J> = tcx
        .associated_items(did)
        .in_definition_order()
        .map(|i| J::A(vec![s(i.name()), s(path(tcx, i.def_id))]))
        .collect();
    let neg = tr.is_some()
        && matches!(tcx.impl_polarity(did), ty::ImplPolarity::Negative);
    J::O(vec![
        ("self", s(st)),
        ("head", ty_head(tcx, st).map_or(J::Null, s)),
        ("trait", tr.map_or(J::Null, |t| s(path(tcx, t.def_id)))),
        ("trait_ref", tr.map_or(J::Null, s)),
        ("neg", J::B(neg)),
        ("preds", J::A(preds)),
        ("items", J::A(items)),
        ("span", span_j(tcx, tcx.def_span(did))),
    ])
}

fn dump_fn<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId, b: &Body<'tcx>) -> J {
    let did = d.to_def_id();
    let env = TypingEnv::post_analysis(tcx, did);
    let cx = Cx { tcx, env, body: b };

    let locals: Vec<J> = b
        .local_decls
        .iter()
        .map(|l| {
            let mut v = vec![s(l.ty)];
            if let Some(h) = ty_head(tcx, l.ty) {
                v.push(s(h));
            }
            J::A(v)
        })
        .collect();
    let mut vars = Vec::new();
    for v in &b.var_debug_info {
        if let VarDebugInfoContents::Place(p) = v.value {
            vars.push(J::A(vec![s(v.name), cx.place(p)]));
        }
    }
    let mut blocks = Vec::new();
    for bb in b.basic_blocks.iter() {
        let mut st = Vec::new();
        for x in &bb.statements {
            if let Some(j) = cx.stmt(x) {
                st.push(j);
            }
        }
        blocks.push(J::O(vec![
            ("s", J::A(st)),
            ("t", cx.term(bb.terminator())),
            ("c", J::B(bb.is_cleanup)),
        ]));
    }
    let kind = if tcx.is_coroutine(did) {
        "coroutine"
    } else if tcx.is_closure_like(did) {
        "closure"
    } else {
        "fn"
    };
    let upvars: Vec<J> = if kind == "fn" {
        vec![]
    } else {
        tcx.closure_saved_names_of_captured_variables(did).iter().map(|n| s(n)).collect()
    };
    let mut o = vec![
        ("path", s(path(tcx, did))),
        ("kind", s(kind)),
        ("parent", s(path(tcx, tcx.parent(did)))),
        ("args", J::N(b.arg_count as i128)),
        ("spread", b.spread_arg.map_or(J::Null, |l| J::N(l.as_u32() as i128))),
        ("upvars", J::A(upvars)),
        (
            "gen",
            J::A(
                ty::GenericArgs::identity_for_item(tcx, did)
                    .iter()
                    .map(|a| s(a))
                    .collect(),
            ),
        ),
        ("locals", J::A(locals)),
        ("vars", J::A(vars)),
        ("blocks", J::A(blocks)),
        ("span", span_j(tcx, b.span)),
    ];
    if kind == "fn" {
        o.push(("async", J::B(tcx.asyncness(did).is_async())));
        o.push(("vis", s(format!("{:?}", tcx.visibility(did)))));
        o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(d))));
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
        o.push(("unsafe", J::B(!sig.safety().is_safe())));
        o.push(("sig", s(sig)));
        let preds: Vec<J> = tcx
            .clauses_of(did)
            .instantiate_identity(tcx)
            .clauses
            .iter()
            .map(|p| s(format!("{}", p.skip_norm_wip())))
            .collect();
        o.push(("preds", J::A(preds)));
        if let Some(i) = tcx.trait_impl_of_assoc(did) {
            let t = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
            o.push(("impl_trait", s(path(tcx, t.def_id))));
        }
    }
    J::O(o)
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    body: &'a Body<'tcx>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: Place<'tcx>) -> J {
        let mut proj = Vec::new();
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            a.variant(v).fields[f].name.to_string()
                        }
                        _ => f.as_u32().to_string(),
                    };
                    J::A(vec![s("f"), J::N(f.as_u32() as i128), s(name)])
                }
                ProjectionElem::Downcast(n, v) => J::A(vec![
                    s("v"),
                    J::N(v.as_u32() as i128),
                    n.map_or(J::Null, s),
                ]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::N(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::N(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { .. } => J::A(vec![s("ss")]),
                _ => J::A(vec![s("o")]),
            };
            proj.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![J::N(p.local.as_u32() as i128), J::A(proj)])
    }

    fn place_ty(&self, p: Place<'tcx>) -> Ty<'tcx> {
        p.ty(&self.body.local_decls, self.tcx).ty
    }

    fn fn_def(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("fn", s(path(tcx, d)))];
        let ga: Vec<J> = args
            .iter()
            .map(|a| match a.as_type() {
                Some(t) => {
                    let mut v = vec![s(t)];
                    if let Some(h) = ty_head(tcx, t) {
                        v.push(s(h));
                    }
                    J::A(v)
                }
                None => s(a),
            })
            .collect();
        o.push(("ga", J::A(ga)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, self.env, d, args) {
                let r = i.def_id();
                if r != d {
                    o.push(("res", s(path(tcx, r))));
                } else {
                    o.push(("res_self", J::B(true)));
                }
            }
        }
        J::O(o)
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fn_def(*d, args.no_bound_vars().unwrap());
        }
        let mut o = vec![("ty", s(t))];
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("const", s(path(self.tcx, u.def))));
        }
        if let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = self.tcx.global_alloc(p.provenance.alloc_id()) {
                o.push(("static", s(path(self.tcx, d))));
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
            if let Some(bits) = c.const_.try_eval_bits(self.tcx, self.env) {
                let mut v = bits as i128;
                if t.is_signed() {
                    if let Some(sz) = self
                        .tcx
                        .layout_of(self.env.as_query_input(t))
                        .ok()
                        .map(|l| l.size.bits())
                    {
                        if sz < 128 && (bits >> (sz - 1)) & 1 == 1 {
                            v = bits as i128 - (1i128 << sz);
                        }
                    }
                }
                if bits > i128::MAX as u128 {
                    o.push(("txt", s(bits)));
                } else {
                    o.push(("v", J::N(v)));
                }
            }
        } else {
            o.push(("txt", s(format!("{}", c.const_))));
        }
        J::O(o)
    }

    fn op(&self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(*p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(*p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("k"), J::O(vec![("ty", s("bool"))])]),
        }
    }

    fn rv(&self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("rep"), self.op(o), s(n)]),
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shr",
                    _ => "fake",
                };
                J::A(vec![s("ref"), s(k), self.place(*p)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), self.place(*p)]),
            Rvalue::Cast(k, o, t) => {
                J::A(vec![s("cast"), s(format!("{k:?}")), self.op(o), s(t)])
            }
            Rvalue::BinaryOp(b, ops) => {
                J::A(vec![s("bin"), s(format!("{b:?}")), self.op(&ops.0), self.op(&ops.1)])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{u:?}")), self.op(o)]),
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(*p);
                J::A(vec![s("disc"), self.place(*p), ty_head(tcx, t).map_or(J::Null, s)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let adt = tcx.adt_def(*d);
                        let names: Vec<J> =
                            adt.variant(*v).fields.iter().map(|f| s(f.name)).collect();
                        J::A(vec![
                            s("adt"),
                            s(path(tcx, *d)),
                            J::N(v.as_u32() as i128),
                            s(adt.variant(*v).name),
                            J::A(names),
                            af.map_or(J::Null, |f| J::N(f.as_u32() as i128)),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(path(tcx, *d))]),
                    AggregateKind::Coroutine(d, _) => {
                        J::A(vec![s("coroutine"), s(path(tcx, *d))])
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        J::A(vec![s("closure"), s(path(tcx, *d))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kj, J::A(ops.iter().map(|o| self.op(o)).collect())])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(*p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path(tcx, *d))]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("ref"), s("mut"), self.place(*p)]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.op(o)]),
        }
    }

    fn stmt(&self, st: &Statement<'tcx>) -> Option<J> {
        let ln = line_of(self.tcx, st.source_info.span);
        match &st.kind {
            StatementKind::Assign(b) => {
                Some(J::A(vec![s("="), self.place(b.0), self.rv(&b.1), ln]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(J::A(vec![
                s("sd"),
                self.place(**place),
                J::N(variant_index.as_u32() as i128),
                ln,
            ])),
            StatementKind::StorageDead(l) => {
                Some(J::A(vec![s("dead"), J::N(l.as_u32() as i128)]))
            }
            _ => None,
        }
    }

    fn uw(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::N(b.as_u32() as i128),
            _ => J::Null,
        }
    }

    fn term(&self, t: &Terminator<'tcx>) -> J {
        let ln = line_of(self.tcx, t.source_info.span);
        let bb = |b: BasicBlock| J::N(b.as_u32() as i128);
        let mut o: Vec<(&'static str, J)> = Vec::new();
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", s("goto")));
                o.push(("t", bb(*target)));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", s("switch")));
                o.push(("d", self.op(discr)));
                o.push(("dty", s(discr.ty(&self.body.local_decls, self.tcx))));
                let v: Vec<J> = targets
                    .iter()
                    .map(|(v, b)| J::A(vec![J::N(v as i128), bb(b)]))
                    .collect();
                o.push(("v", J::A(v)));
                o.push(("o", bb(targets.otherwise())));
            }
            TerminatorKind::UnwindResume => o.push(("k", s("resume"))),
            TerminatorKind::UnwindTerminate(_) => o.push(("k", s("abort"))),
            TerminatorKind::Return => o.push(("k", s("ret"))),
            TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                o.push(("k", s("drop")));
                o.push(("p", self.place(*place)));
                let t = self.place_ty(*place);
                o.push(("ty", s(t)));
                o.push(("h", ty_head(self.tcx, t).map_or(J::Null, s)));
                o.push(("nd", J::B(t.needs_drop(self.tcx, self.env))));
                o.push(("t", bb(*target)));
                o.push(("u", self.uw(unwind)));
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                o.push(("k", s("call")));
                o.push(("f", self.op(func)));
                o.push(("a", J::A(args.iter().map(|a| self.op(&a.node)).collect())));
                o.push(("d", self.place(*destination)));
                o.push(("dt", s(self.place_ty(*destination))));
                o.push(("t", target.map_or(J::Null, bb)));
                o.push(("u", self.uw(unwind)));
            }
            TerminatorKind::TailCall { .. } => o.push(("k", s("unreachable"))),
            TerminatorKind::Assert { cond, expected, target, msg, unwind } => {
                o.push(("k", s("assert")));
                o.push(("d", self.op(cond)));
                o.push(("e", J::B(*expected)));
                o.push(("m", s(format!("{:?}", std::mem::discriminant(&**msg)))));
                o.push(("t", bb(*target)));
                o.push(("u", self.uw(unwind)));
            }
            TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                o.push(("k", s("yield")));
                o.push(("v", self.op(value)));
                o.push(("t", bb(*resume)));
                o.push(("ra", self.place(*resume_arg)));
                o.push(("drop", drop.map_or(J::Null, bb)));
            }
            TerminatorKind::CoroutineDrop => o.push(("k", s("codrop"))),
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("t", bb(*real_target)));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("t", bb(*real_target)));
            }
            TerminatorKind::InlineAsm { .. } => o.push(("k", s("unreachable"))),
        }
        o.push(("ln", ln));
        J::O(o)
    }
}
