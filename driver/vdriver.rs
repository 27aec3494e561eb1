//! Fact extractor: runs rustc's front end on the crate and dumps the resolved program
//! (type-checked MIR of every local function, and of everything it calls, plus item facts)
//! as JSON. It decides nothing; the analyses are in ../engine.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J { N, B(bool), I(i128), U(u128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) , M(BTreeMap<String, J>) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{i}"); }
            J::U(i) => { let _ = write!(o, "{i}"); }
            J::S(s) => esc(s, o),
            J::A(v) => { o.push('['); for (k, x) in v.iter().enumerate() { if k > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (k, (n, x)) in v.iter().enumerate() { if k > 0 { o.push(','); } esc(n, o); o.push(':'); x.w(o); } o.push('}'); }
            J::M(v) => { o.push('{'); for (k, (n, x)) in v.iter().enumerate() { if k > 0 { o.push(','); } esc(n, o); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn s<T: ToString>(x: T) -> J { J::S(x.to_string()) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tyix: HashMap<Ty<'tcx>, usize>,
    bodies: BTreeMap<String, J>,
    queue: VecDeque<(String, Instance<'tcx>, ty::TypingEnv<'tcx>)>,
    seen: HashSet<String>,
}

fn stop_at(path: &str) -> bool {
    // never expanded: diverging / formatting / allocation machinery and things the engine models
    const P: &[&str] = &[
        "core::panicking", "std::panicking", "core::fmt", "alloc::", "std::rt", "std::io", "core::str", "core::char",
        "core::slice::iter", "core::slice::sort", "core::unicode", "core::num::fmt", "std::process", "std::sys",
        "core::ub_checks", "core::alloc", "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed",
        "core::slice::index::slice_", "core::intrinsics::simd", "core::core_arch", "core::escape",
    ];
    P.iter().any(|p| path.starts_with(p))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn canon(&self, d: DefId) -> String {
        // crate::path without generics, independent of re-exports
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn rname(&self, r: ty::Region<'tcx>) -> String {
        match r.get_name(self.tcx) { Some(n) if n.as_str() != "'_" => n.to_string(), _ => format!("{r:?}") }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            v.push(match x.kind() {
                ty::GenericArgKind::Lifetime(r) => J::O(vec![("re", s(self.rname(r)))]),
                ty::GenericArgKind::Type(t) => J::O(vec![("ty", J::U(self.ty(t) as u128))]),
                ty::GenericArgKind::Const(c) => J::O(vec![("const", s(format!("{c}")))]),
                _ => J::O(vec![("const", s("?"))]),
            });
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyix.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.push(J::N);
        self.tyix.insert(t, i);
        let name = ty::print::with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("name", J::S(name))];
        macro_rules! k { ($k:expr) => { o.push(("k", s($k))) } }
        match *t.kind() {
            ty::Bool => k!("bool"),
            ty::Char => k!("char"),
            ty::Int(x) => { k!("int"); o.push(("int", s(x.name_str()))); }
            ty::Uint(x) => { k!("int"); o.push(("int", s(x.name_str()))); }
            ty::Float(_) => k!("float"),
            ty::Str => k!("str"),
            ty::Never => k!("never"),
            ty::Adt(def, args) => {
                k!("adt");
                o.push(("def", J::S(self.canon(def.did()))));
                o.push(("args", self.args(args)));
                o.push(("adt", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(self.tcx, args).skip_norm_wip();
                        let ft = self.ty(ft);
                        fs.push(J::O(vec![("n", s(f.name)), ("t", J::U(ft as u128))]));
                    }
                    let d = if def.is_enum() { J::I(def.discriminant_for_variant(self.tcx, vi).val as i128) } else { J::N };
                    vs.push(J::O(vec![("n", s(v.name)), ("f", J::A(fs)), ("d", d)]));
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Ref(r, x, m) => {
                k!("ref"); o.push(("re", s(self.rname(r)))); o.push(("to", J::U(self.ty(x) as u128))); o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(x, m) => { k!("ptr"); o.push(("to", J::U(self.ty(x) as u128))); o.push(("mut", J::B(m.is_mut()))); }
            ty::Slice(x) => { k!("slice"); o.push(("to", J::U(self.ty(x) as u128))); }
            ty::Array(x, n) => { k!("array"); o.push(("to", J::U(self.ty(x) as u128))); o.push(("n", s(format!("{n}")))); }
            ty::Tuple(l) => { k!("tuple"); let v = l.iter().map(|x| J::U(self.ty(x) as u128)).collect(); o.push(("f", J::A(v))); }
            ty::Param(p) => { k!("param"); o.push(("param", s(p.name))); }
            ty::Closure(d, args) => {
                k!("closure"); o.push(("def", J::S(self.canon(d))));
                let c = args.as_closure();
                let v = c.upvar_tys().iter().map(|x| J::U(self.ty(x) as u128)).collect();
                o.push(("f", J::A(v)));
                o.push(("ckind", s(format!("{:?}", c.kind()))));
            }
            ty::FnDef(d, args) => {
                k!("fndef"); o.push(("def", J::S(self.canon(d)))); let a = self.args(args.no_bound_vars().unwrap_or_else(|| self.tcx.mk_args(&[]))); o.push(("args", a));
            }
            ty::FnPtr(..) => k!("fnptr"),
            ty::Dynamic(..) => k!("dyn"),
            ty::Alias(..) => { k!("alias"); }
            _ => k!("other"),
        }
        self.tys[i] = J::O(o);
        i
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    /// A closure type prints without the type arguments of the function it is in: they are appended, so that different
    /// instances have different keys.
    fn tstr(&self, t: Ty<'tcx>) -> String {
        let mut o = t.to_string();
        for x in t.walk() {
            if let Some(u) = x.as_type() {
                if let ty::Closure(_, ca) = *u.kind() {
                    let p: Vec<String> = ca.as_closure().parent_args().iter().filter_map(|x| x.as_type().map(|t| t.to_string())).collect();
                    if !p.is_empty() { o.push_str(&format!(" in <{}>", p.join(", "))); }
                }
            }
        }
        o
    }
    fn ikey(&self, i: &Instance<'tcx>) -> String {
        let a = ty::print::with_no_trimmed_paths!(i.args.iter().filter_map(|x| x.as_type().map(|t| self.tstr(t))).collect::<Vec<_>>().join(", "));
        let k = match i.def { ty::InstanceKind::Item(_) => String::new(), ref k => format!(" as {}", format!("{k:?}").split('(').next().unwrap_or("").to_string()) };
        format!("{}<{}>{}", self.canon(i.def_id()), a, k)
    }
    fn want(&mut self, key: &str, inst: Instance<'tcx>, env: ty::TypingEnv<'tcx>) {
        if self.seen.insert(key.to_string()) { self.queue.push_back((key.to_string(), inst, env)); }
    }

    /// Resolves a function item (def, args) as called in `env`.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("def", J::S(self.canon(d))), ("args", self.args(args))];
        if let Some(intr) = tcx.intrinsic(d) { o.push(("intrinsic", s(intr.name))); }
        let tr = tcx.trait_of_assoc(d);
        if let Some(t) = tr {
            o.push(("trait", J::S(self.canon(t))));
            o.push(("method", s(tcx.item_name(d))));
            if args.len() > 0 && args[0].as_type().is_some() { let st = self.ty(args.type_at(0)); o.push(("self", J::U(st as u128))); }
            // calls of closures and function items through the Fn traits
            if tcx.is_fn_trait(t) {
                match *args.type_at(0).kind() {
                    ty::Closure(cd, ca) => {
                        let inst = Instance::new_raw(cd, ca);
                        let key = self.ikey(&inst);
                        self.want(&key, inst, env);
                        o.push(("closure", J::S(key)));
                        return J::O(o);
                    }
                    ty::FnDef(fd, fa) => {
                        let fa = fa.no_bound_vars().unwrap_or_else(|| tcx.mk_args(&[]));
                        let c = self.callee(fd, fa, env);
                        o.push(("fnitem", c));
                        return J::O(o);
                    }
                    _ => {}
                }
            }
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                o.push(("kind", s(kind)));
                let rd = inst.def_id();
                o.push(("rdef", J::S(self.canon(rd))));
                o.push(("rpath", J::S(self.path(rd))));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", J::S(st.to_string())));
                }
                // default body of the trait, for std iterator overrides that the engine does not model
                if let Some(t) = tr {
                    if rd != d && !rd.is_local() && tcx.defaultness(d).has_value() && self.canon(t) == "core::iter::traits::iterator::Iterator"
                        || rd != d && !rd.is_local() && tcx.defaultness(d).has_value() && self.canon(t).starts_with("core::iter::traits::double_ended") {
                        let di = Instance::new_raw(d, args);
                        let key = format!("default:{}", self.ikey(&di));
                        if tcx.is_mir_available(d) { self.want(&key, di, env); o.push(("dkey", J::S(key))); }
                    }
                }
                if kind == "item" {
                    let p = self.canon(rd);
                    let key = self.ikey(&inst);
                    o.push(("key", J::S(key.clone())));
                    if tcx.is_mir_available(rd) && !stop_at(&p) && !matches!(tcx.def_kind(rd), DefKind::Ctor(..)) {
                        self.want(&key, inst, env);
                    }
                    if matches!(tcx.def_kind(rd), DefKind::Ctor(..)) { o.push(("ctor", J::B(true))); }
                } else if kind == "shim" {
                    o.push(("shim", s(format!("{:?}", inst.def))));
                }
            }
            Ok(None) => { o.push(("kind", s("unresolved"))); }
            Err(_) => { o.push(("kind", s("error"))); }
        }
        J::O(o)
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = vec![("ty", J::U(self.ty(t) as u128))];
        match *t.kind() {
            ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap_or_else(|| tcx.mk_args(&[])); let cal = self.callee(d, a, env); o.push(("fn", cal)); }
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                if let Some(si) = c.try_eval_scalar_int(tcx, env) {
                    let v = if t.is_signed() { J::I(si.to_int(si.size())) } else { J::U(si.to_uint(si.size())) };
                    o.push(("val", v));
                } else { o.push(("sym", s(format!("{c}")))); }
            }
            _ => { o.push(("sym", s(format!("{c}")))); 
                if let Ok(cv) = c.eval(tcx, env, rustc_span::DUMMY_SP) { if let Some(x) = self.ctree(cv, t) { o.push(("tree", x)); } }
                // zero-sized or scalar-wrapped constants of a promoted / assoc const body
                if let Some(mir::ConstValue::ZeroSized) = c.eval(tcx, env, rustc_span::DUMMY_SP).ok() { o.push(("zst", J::B(true))); }
                else if let mir::Const::Unevaluated(u, _) = c {
                    if let Some(p) = u.promoted {
                        let ps = tcx.promoted_mir(u.def);
                        let b = ps[p].clone();
                        let key = format!("promoted:{}:{}<{}>", self.canon(u.def), p.as_usize(), u.args.iter().filter_map(|x| x.as_type().map(|t| t.to_string())).collect::<Vec<_>>().join(", "));
                        if self.seen.insert(key.clone()) {
                            let b = tcx.instantiate_and_normalize_erasing_regions(u.args, env, ty::EarlyBinder::bind(tcx, b));
                            let j = self.body(&b, env, u.def);
                            self.bodies.insert(key.clone(), j);
                        }
                        o.push(("promoted", J::S(key)));
                    } else if tcx.is_mir_available(u.def) || u.def.is_local() {
                        o.push(("uneval", J::S(self.canon(u.def))));
                    }
                } else if let Ok(mir::ConstValue::Scalar(sc)) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                    if let Some(si) = sc.try_to_scalar_int().ok() { o.push(("scalar", J::U(si.to_bits(si.size())))); }
                }
            }
        }
        J::O(o)
    }
    /// structured form of an evaluated constant (None when it cannot be taken apart)
    fn ctree(&mut self, cv: mir::ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let ix = self.ty(t) as u128;
        match *t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                let si = cv.try_to_scalar()?.try_to_scalar_int().ok()?;
                let v = if t.is_signed() { J::I(si.to_int(si.size())) } else { J::U(si.to_uint(si.size())) };
                Some(J::O(vec![("ty", J::U(ix)), ("val", v)]))
            }
            ty::Tuple(_) | ty::Adt(..) | ty::Array(..) => {
                if let ty::Adt(a, _) = t.kind() { if a.is_union() { return None; } }
                use rustc_middle::ty::TypeVisitableExt;
                if t.has_param() || t.has_aliases() { return None; }
                let d = tcx.try_destructure_mir_constant_for_user_output(cv, t)?;
                let mut fs = vec![];
                for (x, ft) in d.fields.iter() { fs.push(self.ctree(*x, *ft)?); }
                Some(J::O(vec![("ty", J::U(ix)), ("vi", match d.variant { Some(v) => J::U(v.as_usize() as u128), None => J::U(0) }), ("f", J::A(fs))]))
            }
            _ => None,
        }
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::O(vec![("f", J::U(f.as_usize() as u128)), ("t", J::U(t as u128))]) }
                ProjectionElem::Index(l) => J::O(vec![("i", J::U(l.as_usize() as u128))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::O(vec![("ci", J::U(offset as u128)), ("min", J::U(min_length as u128)), ("end", J::B(from_end))]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![("sub", J::U(from as u128)), ("to", J::U(to as u128)), ("end", J::B(from_end))]),
                ProjectionElem::Downcast(_, v) => J::O(vec![("v", J::U(v.as_usize() as u128))]),
                _ => J::O(vec![("other", s(format!("{e:?}")))]),
            });
        }
        J::A(vec![J::U(p.local.as_usize() as u128), J::A(v)])
    }
    fn op(&mut self, x: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::O(vec![("copy", self.place(p))]),
            Operand::Move(p) => J::O(vec![("move", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("const", self.konst(&c.const_, env))]),
            Operand::RuntimeChecks(r) => J::O(vec![("rtcheck", s(format!("{r:?}")))]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>, b: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(x, ..) => J::O(vec![("k", s("use")), ("a", self.op(x, env))]),
            Rvalue::Repeat(x, n) => J::O(vec![("k", s("repeat")), ("a", self.op(x, env)), ("n", s(format!("{n}")))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![("k", s("ref")), ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))), ("p", self.place(p))]),
            Rvalue::RawPtr(k, p) => J::O(vec![("k", s("rawptr")), ("mut", J::B(k.to_mutbl_lossy().is_mut())), ("p", self.place(p))]),
            Rvalue::Cast(k, x, t) => {
                let from = x.ty(&b.local_decls, self.tcx);
                let from = self.ty(from);
                J::O(vec![("k", s("cast")), ("ck", s(format!("{k:?}"))), ("a", self.op(x, env)), ("from", J::U(from as u128)), ("t", J::U(self.ty(*t) as u128))])
            }
            Rvalue::BinaryOp(o, bx) => {
                let t = bx.0.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                J::O(vec![("k", s("bin")), ("op", s(format!("{o:?}"))), ("a", self.op(&bx.0, env)), ("b", self.op(&bx.1, env)), ("t", J::U(t as u128))])
            }
            Rvalue::UnaryOp(o, x) => {
                let t = x.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                J::O(vec![("k", s("un")), ("op", s(format!("{o:?}"))), ("a", self.op(x, env)), ("t", J::U(t as u128))])
            }
            Rvalue::Discriminant(p) => { let t = p.ty(&b.local_decls, self.tcx).ty; let t = self.ty(t); J::O(vec![("k", s("discr")), ("p", self.place(p)), ("t", J::U(t as u128))]) }
            Rvalue::Aggregate(k, xs) => {
                let mut o = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        let en = self.tcx.adt_def(*d).is_enum();
                        o.push(("ak", s(if en { "enum" } else if f.is_some() { "union" } else { "struct" })));
                        o.push(("def", J::S(self.canon(*d)))); o.push(("v", J::U(v.as_usize() as u128)));
                        if let Some(f) = f { o.push(("uf", J::U(f.as_usize() as u128))); }
                    }
                    AggregateKind::Closure(d, _) => { o.push(("ak", s("closure"))); o.push(("def", J::S(self.canon(*d)))); }
                    AggregateKind::RawPtr(..) => o.push(("ak", s("rawptr"))),
                    _ => o.push(("ak", s("other"))),
                }
                let v = xs.iter().map(|x| self.op(x, env)).collect();
                o.push(("a", J::A(v)));
                let t = r.ty(&b.local_decls, self.tcx);
                o.push(("t", J::U(self.ty(t) as u128)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![("k", s("use")), ("a", J::O(vec![("copy", self.place(p))]))]),
            x => J::O(vec![("k", s("other")), ("dbg", s(format!("{x:?}")))]),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>, def: DefId) -> J {
        let mut locals = vec![];
        for l in b.local_decls.iter() { locals.push(J::U(self.ty(l.ty) as u128)); }
        let mut names = BTreeMap::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value { if p.projection.is_empty() { names.insert(p.local.as_usize().to_string(), s(v.name)); } }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                let j = match &x.kind {
                    StatementKind::Assign(bx) => { let (p, r) = &**bx; Some(vec![("k", s("=")), ("p", self.place(p)), ("r", self.rv(r, env, b))]) }
                    StatementKind::SetDiscriminant { place, variant_index } => Some(vec![("k", s("setd")), ("p", self.place(place)), ("v", J::U(variant_index.as_usize() as u128))]),
                    StatementKind::StorageDead(l) => Some(vec![("k", s("dead")), ("l", J::U(l.as_usize() as u128))]),
                    StatementKind::Intrinsic(n) => match &**n {
                        NonDivergingIntrinsic::Assume(o) => Some(vec![("k", s("assume")), ("a", self.op(o, env))]),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => Some(vec![("k", s("copynov")), ("src", self.op(&c.src, env)), ("dst", self.op(&c.dst, env)), ("n", self.op(&c.count, env))]),
                    },
                    _ => None,
                };
                if let Some(mut j) = j { j.push(("sp", self.span(x.source_info.span))); st.push(J::O(j)); }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbj = |x: BasicBlock| J::U(x.as_usize() as u128);
            let unw = |u: &UnwindAction| match u { UnwindAction::Continue => s("cont"), UnwindAction::Cleanup(b) => bbj(*b), _ => J::N };
            let mut o = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", bbj(*target))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, self.tcx);
                    let v = targets.iter().map(|(v, t)| J::A(vec![J::U(v), bbj(t)])).collect();
                    vec![("k", s("switch")), ("a", self.op(discr, env)), ("ty", J::U(self.ty(ty) as u128)), ("v", J::A(v)), ("o", bbj(targets.otherwise()))]
                }
                TerminatorKind::Return => vec![("k", s("return"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::UnwindResume => vec![("k", s("resume"))],
                TerminatorKind::UnwindTerminate(_) => vec![("k", s("abort"))],
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let nd = pt.needs_drop(self.tcx, env);
                    let dg = self.dropglue(pt, env);
                    vec![("k", s("drop")), ("p", self.place(place)), ("glue", dg), ("ty", J::U(self.ty(pt) as u128)), ("nd", J::B(nd)), ("t", bbj(*target)), ("u", unw(unwind))]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(func, env);
                    let a = args.iter().map(|x| self.op(&x.node, env)).collect();
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let at = args.iter().map(|x| { let t = x.node.ty(&b.local_decls, self.tcx); J::U(self.ty(t) as u128) }).collect();
                    vec![("k", s("call")), ("f", f), ("a", J::A(a)), ("at", J::A(at)), ("d", self.place(destination)), ("dt", J::U(self.ty(dt) as u128)), ("t", target.map_or(J::N, bbj)), ("u", unw(unwind))]
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "div_by_zero".into(),
                        AssertKind::RemainderByZero(_) => "rem_by_zero".into(),
                        x => format!("other:{}", format!("{x:?}").split('(').next().unwrap_or("")),
                    };
                    vec![("k", s("assert")), ("a", self.op(cond, env)), ("exp", J::B(*expected)), ("msg", s(m)), ("t", bbj(*target)), ("u", unw(unwind))]
                }
                x => vec![("k", s("other")), ("dbg", s(format!("{x:?}")))],
            };
            o.push(("sp", sp));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(o)), ("c", J::B(bb.is_cleanup))]));
        }
        J::O(vec![("def", J::S(self.canon(def))), ("path", J::S(self.path(def))), ("sp", self.span(b.span)), ("argc", J::U(b.arg_count as u128)), ("local", J::B(def.is_local())),
            ("spread", b.spread_arg.map_or(J::N, |l| J::U(l.as_usize() as u128))),
            ("locals", J::A(locals)), ("names", J::M(names)), ("blocks", J::A(blocks))])
    }
    /// key of the `Drop::drop` body an ADT's drop glue starts with, if it has one
    fn dropglue(&mut self, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        if let ty::Adt(def, args) = *t.kind() {
            if let Some(d) = self.tcx.adt_destructor(def.did()) {
                let inst = Instance::new_raw(d.did, args);
                if self.tcx.is_mir_available(d.did) && d.did.is_local() {
                    let key = self.ikey(&inst);
                    self.want(&key, inst, env);
                    return J::S(key);
                }
                return s("?");
            }
        }
        J::N
    }
    fn drain(&mut self) {
        let limit: usize = std::env::var("VD_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(4000);
        while let Some((key, inst, env)) = self.queue.pop_front() {
            if self.bodies.len() > limit { break; }
            let tcx = self.tcx;
            let d = inst.def_id();
            if !tcx.is_mir_available(d) { continue; }
            let b = tcx.instance_mir(inst.def).clone();
            let b = match tcx.try_instantiate_mir_and_normalize(inst, env, b) { Some(b) => b, None => continue };
            let j = self.body(&b, env, d);
            self.bodies.insert(key, j);
        }
    }
}
trait InstMir<'tcx> { fn try_instantiate_mir_and_normalize(self, i: Instance<'tcx>, env: ty::TypingEnv<'tcx>, b: Body<'tcx>) -> Option<Body<'tcx>>; }
impl<'tcx> InstMir<'tcx> for TyCtxt<'tcx> {
    fn try_instantiate_mir_and_normalize(self, i: Instance<'tcx>, env: ty::TypingEnv<'tcx>, b: Body<'tcx>) -> Option<Body<'tcx>> {
        i.try_instantiate_mir_and_normalize_erasing_regions(self, env, ty::EarlyBinder::bind(self, b)).ok()
    }
}

include!("facts.rs");

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, tys: vec![], tyix: HashMap::new(), bodies: BTreeMap::new(), queue: VecDeque::new(), seen: HashSet::new() };
        let out = run(&mut cx);
        let mut st = String::new();
        out.w(&mut st);
        let p = std::env::var("VD_OUT").expect("VD_OUT");
        std::fs::write(&p, st).expect("write");
        Compilation::Stop
    }
}
fn main() -> std::process::ExitCode {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
