// Item-level facts and the choice of analysis roots.
fn proof_enum<'tcx>(cx: &Cx<'tcx>, t: Ty<'tcx>) -> bool {
    if let ty::Adt(d, _) = *t.kind() {
        d.did().is_local() && d.is_enum() && d.variants().is_empty() && ["NonEmpty", "Unknown"].contains(&cx.tcx.item_name(d.did()).as_str())
    } else { false }
}
/// type parameters in proof position anywhere inside `t`
struct PV<'a, 'tcx> { cx: &'a Cx<'tcx>, out: Vec<ty::ParamTy> }
impl<'a, 'tcx> PV<'a, 'tcx> {
    fn add(&mut self, t: Ty<'tcx>) { if let ty::Param(p) = *t.kind() { if !self.out.contains(&p) { self.out.push(p); } } }
    fn args(&mut self, a: GenericArgsRef<'tcx>) { for x in a.iter() { if let Some(t) = x.as_type() { self.visit(t); } } }
    fn visit(&mut self, t: Ty<'tcx>) {
        match *t.kind() {
            ty::Adt(def, args) => {
                if def.did().is_local() {
                    let g = self.cx.tcx.generics_of(def.did());
                    for p in g.own_params.iter() {
                        let isproof = match p.kind {
                            ty::GenericParamDefKind::Type { has_default: true, .. } => {
                                let d = self.cx.tcx.type_of(p.def_id).instantiate_identity().skip_norm_wip();
                                proof_enum(self.cx, d)
                            }
                            _ => false,
                        };
                        if isproof { if let Some(t) = args[p.index as usize].as_type() { self.add(t); } }
                    }
                }
                self.args(args);
            }
            ty::Ref(_, x, _) | ty::RawPtr(x, _) | ty::Slice(x) | ty::Array(x, _) => self.visit(x),
            ty::Tuple(l) => for x in l.iter() { self.visit(x) },
            ty::Alias(_, a) => { for x in a.args.iter() { if let Some(t) = x.as_type() { self.visit(t); } } }
            _ => {}
        }
    }
}
fn clauses<'tcx>(cx: &mut Cx<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> (Vec<J>, Vec<ty::Clause<'tcx>>) {
    let tcx = cx.tcx;
    let ps = tcx.clauses_of(d).instantiate(tcx, args);
    let mut out = vec![];
    let mut raw = vec![];
    for c in ps.clauses.iter() {
        let c = c.skip_norm_wip();
        raw.push(c);
        match c.kind().skip_binder() {
            ty::ClauseKind::Trait(t) => {
                let st = cx.ty(t.trait_ref.self_ty());
                let p = cx.canon(t.trait_ref.def_id);
                let a = cx.args(t.trait_ref.args);
                out.push(J::O(vec![("k", s("trait")), ("self", J::U(st as u128)), ("trait", J::S(p)), ("args", a)]));
            }
            ty::ClauseKind::Projection(p) => {
                let st = cx.ty(p.self_ty());
                let name = format!("{:?}", p.projection_term);
                let tt = match p.term.as_type() { Some(t) => J::U(cx.ty(t) as u128), None => J::N };
                out.push(J::O(vec![("k", s("proj")), ("self", J::U(st as u128)), ("name", J::S(name)), ("term", tt)]));
            }
            x => out.push(J::O(vec![("k", s("other")), ("dbg", s(format!("{x:?}")))])),
        }
    }
    (out, raw)
}
fn inst_env<'tcx>(cx: &Cx<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> ty::ParamEnv<'tcx> {
    let tcx = cx.tcx;
    let pe = tcx.param_env(d);
    let v: Vec<ty::Clause<'tcx>> = pe.caller_bounds()
        .map(|c| ty::EarlyBinder::bind(tcx, c).instantiate(tcx, args).skip_norm_wip())
        .filter(|c| c.has_param() ).collect();
    ty::ParamEnv::new(tcx, v)
}
fn norm_sig<'tcx>(cx: &Cx<'tcx>, pe: ty::ParamEnv<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::traits::{ObligationCause, ObligationCtxt};
    let infcx = cx.tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
    let ocx = ObligationCtxt::new(&infcx);
    let cause = ObligationCause::dummy();
    let r = ocx.normalize(&cause, pe, ty::Unnormalized::new_wip(t));
    let _ = ocx.evaluate_obligations_error_on_ambiguity();
    infcx.deeply_resolve_via_unification_table(r)
}

fn run<'tcx>(cx: &mut Cx<'tcx>) -> J {
    let tcx = cx.tcx;
    let ev = tcx.effective_visibilities(());
    let mut fns = vec![];
    let ne = tcx.hir_crate_items(()).definitions().find(|d| tcx.def_kind(*d) == DefKind::Enum && tcx.item_name(*d).as_str() == "NonEmpty");
    let un = tcx.hir_crate_items(()).definitions().find(|d| tcx.def_kind(*d) == DefKind::Enum && tcx.item_name(*d).as_str() == "Unknown");
    let e = tcx.mk_args(&[]);
    let mk = |d: Option<rustc_span::def_id::LocalDefId>| d.map(|d| Ty::new_adt(tcx, tcx.adt_def(d.to_def_id()), e));
    let (ne, un) = (mk(ne), mk(un));
    let mut ids: Vec<_> = tcx.mir_keys(()).iter().copied().filter(|d| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn)).collect();
    ids.sort_by_key(|d| cx.canon(d.to_def_id()));
    for ld in ids {
        let d = ld.to_def_id();
        let parent = tcx.parent(d);
        let id_args = ty::GenericArgs::identity_for_item(tcx, d);
        // proof parameters
        let sig0 = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let mut pv = PV { cx, out: vec![] };
        for t in sig0.inputs_and_output.iter() { pv.visit(t); }
        let preds = tcx.clauses_of(d).instantiate_identity(tcx);
        for c in preds.clauses.iter() {
            let c = c.skip_norm_wip();
            if let ty::ClauseKind::Trait(t) = c.kind().skip_binder() {
                pv.args(t.trait_ref.args);
                if tcx.item_name(t.trait_ref.def_id).as_str() == "ProofAdd" {
                    if let ty::Tuple(l) = t.trait_ref.self_ty().kind() { for x in l.iter() { pv.add(x); } }
                }
            }
        }
        let is_impl = matches!(tcx.def_kind(parent), DefKind::Impl { .. });
        if is_impl {
            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip(); pv.visit(st);
            if let Some(tr) = tcx.impl_opt_trait_ref(parent) { let a = tr.instantiate_identity().skip_norm_wip().args; pv.args(a); }
        }
        let proofs = pv.out;
        let (trait_path, self_ty) = if is_impl {
            let t = tcx.impl_opt_trait_ref(parent).map(|t| t.instantiate_identity().skip_norm_wip());
            (t.map(|t| (cx.canon(t.def_id), t)), Some(tcx.type_of(parent).instantiate_identity().skip_norm_wip()))
        } else { (None, None) };
        let exported = ev.is_reachable(ld);
        let n = if ne.is_some() && un.is_some() { proofs.len().min(4) } else { 0 };
        for mask in 0..(1u32 << n) {
            let mut names = vec![];
            let args = tcx.mk_args_from_iter(id_args.iter().map(|a| {
                if let Some(t) = a.as_type() { if let ty::Param(p) = *t.kind() {
                    if let Some(ix) = proofs.iter().position(|q| *q == p) { if ix < n {
                        let nt = if mask >> ix & 1 == 1 { ne.unwrap() } else { un.unwrap() };
                        return ty::GenericArg::from(nt);
                    } }
                } }
                a
            }));
            for (ix, p) in proofs.iter().enumerate() { if ix < n { names.push(format!("{}={}", p.name, if mask >> ix & 1 == 1 { "NonEmpty" } else { "Unknown" })); } }
            let pe = inst_env(cx, d, args);
            let env = ty::TypingEnv::new(pe, ty::TypingMode::PostAnalysis);
            let inst = Instance::new_raw(d, args);
            let key = cx.ikey(&inst);
            cx.want(&key, inst, env);
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
            let sig = tcx.liberate_late_bound_regions(d, sig);
            let mut ins = vec![];
            for t in sig.inputs().iter() { let t = norm_sig(cx, pe, *t); ins.push(J::U(cx.ty(t) as u128)); }
            let o = norm_sig(cx, pe, sig.output());
            let out = J::U(cx.ty(o) as u128);
            let (cl, _) = clauses(cx, d, args);
            let tr = match &trait_path { Some((p, t)) => {
                let ta = ty::EarlyBinder::bind(tcx, *t).instantiate(tcx, args).skip_norm_wip();
                let a = cx.args(ta.args); J::O(vec![("path", s(p)), ("args", a)]) }, None => J::N };
            let st = match self_ty { Some(t) => { let t = ty::EarlyBinder::bind(tcx, t).instantiate(tcx, args).skip_norm_wip(); J::U(cx.ty(t) as u128) }, None => J::N };
            let ai = tcx.opt_associated_item(d);
            let at = cx.args(args);
            fns.push(J::O(vec![("key", J::S(key)), ("def", J::S(cx.canon(d))), ("name", s(tcx.item_name(d))), ("exported", J::B(exported)),
                ("vis", s(format!("{:?}", tcx.visibility(d)))),
                ("unsafe", J::B(!sig.safety().is_safe())), ("proofs", J::A(names.into_iter().map(J::S).collect())),
                ("impl", J::B(is_impl)), ("in_trait", J::B(tcx.def_kind(parent) == DefKind::Trait)), ("trait", tr), ("self", st), ("has_self", J::B(ai.map_or(false, |a| a.is_method()))),
                ("parent", s(cx.canon(parent))), ("args", at),
                ("ins", J::A(ins)), ("out", out), ("bounds", J::A(cl)), ("sp", cx.span(tcx.def_span(d))), ("sig", s(ty::print::with_no_trimmed_paths!(format!("{}", tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip()))))]));
        }
    }
    cx.drain();
    // ADTs
    let mut adts = vec![];
    let mut traits = vec![];
    let mut impls = vec![];
    let mut items = vec![];
    let mut defs: Vec<_> = tcx.hir_crate_items(()).definitions().collect();
    defs.sort_by_key(|d| cx.canon(d.to_def_id()));
    for ld in defs {
        let d = ld.to_def_id();
        let k = tcx.def_kind(ld);
        if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Trait | DefKind::TyAlias | DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocTy | DefKind::Mod) {
            items.push(J::O(vec![("def", J::S(cx.canon(d))), ("kind", s(format!("{k:?}"))), ("exported", J::B(ev.is_reachable(ld))), ("vis", s(format!("{:?}", tcx.visibility(d)))), ("sp", cx.span(tcx.def_span(d)))]));
        }
        match k {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let g = tcx.generics_of(d);
                let vs = tcx.variances_of(d);
                let mut gp = vec![];
                for p in g.own_params.iter() { gp.push(J::O(vec![("n", s(p.name)), ("kind", s(if matches!(p.kind, ty::GenericParamDefKind::Lifetime) { "re" } else { "ty" })), ("var", s(format!("{:?}", vs[p.index as usize])))])); }
                let mut fl = vec![];
                for v in tcx.adt_def(d).variants().iter() { for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = cx.ty(t);
                    fl.push(J::O(vec![("n", s(f.name)), ("vis", s(format!("{:?}", f.vis))), ("t", J::U(t as u128)), ("v", s(v.name))]));
                } }
                let it = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let it = cx.ty(it);
                adts.push(J::O(vec![("def", J::S(cx.canon(d))), ("kind", s(format!("{k:?}"))), ("exported", J::B(ev.is_reachable(ld))), ("generics", J::A(gp)), ("fields", J::A(fl)), ("ty", J::U(it as u128)), ("sp", cx.span(tcx.def_span(d)))]));
            }
            DefKind::Trait => {
                let td = tcx.trait_def(d);
                let (cl, _) = clauses(cx, d, ty::GenericArgs::identity_for_item(tcx, d));
                traits.push(J::O(vec![("def", J::S(cx.canon(d))), ("unsafe", J::B(!td.safety.is_safe())), ("exported", J::B(ev.is_reachable(ld))), ("bounds", J::A(cl)), ("sp", cx.span(tcx.def_span(d)))]));
            }
            DefKind::Impl { of_trait } => {
                let (cl, _) = clauses(cx, d, ty::GenericArgs::identity_for_item(tcx, d));
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let stj = cx.ty(st);
                let mut o = vec![("def", J::S(cx.canon(d))), ("self", J::U(stj as u128)), ("self_s", s(ty::print::with_no_trimmed_paths!(st.to_string()))), ("bounds", J::A(cl)), ("sp", cx.span(tcx.def_span(d)))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let h = tcx.impl_trait_header(d);
                    o.push(("trait", J::S(cx.canon(tr.def_id))));
                    let a = cx.args(tr.args); o.push(("targs", a));
                    o.push(("neg", J::B(matches!(h.polarity, ty::ImplPolarity::Negative))));
                    o.push(("unsafe", J::B(!h.safety.is_safe())));
                }
                impls.push(J::O(o));
            }
            _ => {}
        }
    }
    let crates = tcx.crates(()).iter().map(|c| s(tcx.crate_name(*c))).collect();
    let _ = LOCAL_CRATE;
    J::O(vec![
        ("fns", J::A(fns)), ("adts", J::A(adts)), ("traits", J::A(traits)), ("impls", J::A(impls)), ("items", J::A(items)),
        ("crates", J::A(crates)),
        ("overflow_checks", J::B(tcx.sess.overflow_checks())), ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
        ("bodies", J::M(std::mem::take(&mut cx.bodies))), ("types", J::A(std::mem::take(&mut cx.tys))),
    ])
}
