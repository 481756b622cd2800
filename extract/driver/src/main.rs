//! Dumps the typed THIR of every function of the crate being compiled as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [thirdump, rustc, args...].
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_ast::LitKind;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::thir::{self, ExprId, ExprKind, PatKind, StmtKind, Thir};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use rustc_span::def_id::LocalDefId;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => { let _ = write!(o, "{b}"); }
            J::I(i) => { let _ = write!(o, "{i}"); }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    J::S(k.to_string()).w(o); o.push(':'); x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx> }

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::A(a.iter().filter_map(|g| {
            if let Some(t) = g.as_type() { Some(self.ty(t)) }
            else if g.as_region().is_some() { None }
            else { Some(J::O(vec![("k", s("const")), ("s", s(format!("{g:?}")))])) }
        }).collect())
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => J::O(vec![("k", s("prim")), ("n", s(t.to_string()))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Adt(d, a) => J::O(vec![("k", s("adt")), ("p", s(self.path(d.did()))), ("args", self.args(a))]),
            ty::Ref(_, t, m) => J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("t", self.ty(*t))]),
            ty::RawPtr(t, _) => J::O(vec![("k", s("ptr")), ("t", self.ty(*t))]),
            ty::Slice(t) => J::O(vec![("k", s("slice")), ("t", self.ty(*t))]),
            ty::Array(t, n) => J::O(vec![("k", s("array")), ("t", self.ty(*t)), ("n", s(format!("{n}")))]),
            ty::Tuple(ts) => J::O(vec![("k", s("tuple")), ("ts", J::A(ts.iter().map(|t| self.ty(t)).collect()))]),
            ty::FnDef(d, a) => {
                let did: DefId = (*d).into();
                self.fndef(did, a.skip_binder(), None)
            }
            ty::Closure(d, _) => { let did: DefId = (*d).into(); J::O(vec![("k", s("closure")), ("id", s(self.path(did)))]) }
            ty::Dynamic(ps, _) => {
                let p = ps.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                J::O(vec![("k", s("dyn")), ("p", s(p)), ("s", s(t.to_string()))])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.to_string()))]),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("s", s(t.to_string()))]),
            _ => J::O(vec![("k", s("other")), ("s", s(rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string())))]),
        }
    }
    fn fndef(&self, did: DefId, a: GenericArgsRef<'tcx>, env: Option<ty::TypingEnv<'tcx>>) -> J {
        let mut v = vec![("k", s("fndef")), ("p", s(self.path(did))), ("args", self.args(a)), ("local", J::B(did.is_local()))];
        let kind = self.tcx.def_kind(did);
        v.push(("dk", s(format!("{kind:?}"))));
        if let Some(tr) = self.tcx.trait_of_assoc(did) {
            v.push(("trait", s(self.path(tr))));
            v.push(("name", s(self.tcx.item_name(did).to_string())));
            if let Some(env) = env {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, did, a) {
                    let rd = inst.def_id();
                    v.push(("resolved", s(self.path(rd))));
                    v.push(("rlocal", J::B(rd.is_local())));
                    v.push(("rkind", s(match inst.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Virtual(..) => "virtual", _ => "shim" })));
                    v.push(("rargs", self.args(inst.args)));
                }
            }
        } else if matches!(kind, DefKind::AssocFn | DefKind::Fn) {
            v.push(("name", s(self.tcx.item_name(did).to_string())));
        }
        J::O(v)
    }
}

struct Bx<'a, 'tcx> { cx: &'a Cx<'tcx>, t: &'a Thir<'tcx>, env: ty::TypingEnv<'tcx>, owner: LocalDefId }

impl<'a, 'tcx> Bx<'a, 'tcx> {
    fn var(&self, v: thir::LocalVarId) -> J {
        // unique per crate: owner def path + local id
        s(format!("{}_{}", v.0.owner.def_id.local_def_index.as_usize(), v.0.local_id.as_usize()))
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.cx.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn oe(&self, e: Option<ExprId>) -> J { e.map(|e| self.e(e)).unwrap_or(J::Null) }
    fn es(&self, es: &[ExprId]) -> J { J::A(es.iter().map(|e| self.e(*e)).collect()) }
    fn variant(&self, ad: ty::AdtDef<'tcx>, vi: rustc_abi::VariantIdx) -> (String, Vec<String>) {
        let vd = ad.variant(vi);
        (vd.name.to_string(), vd.fields.iter().map(|f| f.name.to_string()).collect())
    }
    fn e(&self, id: ExprId) -> J {
        let ex = &self.t[id];
        let cx = self.cx;
        let ty = ex.ty;
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($n:literal $(, $f:literal : $v:expr)*) => {{ o.push(("k", s($n))); $( o.push(($f, $v)); )* }} }
        match &ex.kind {
            ExprKind::Scope { value, .. } => return self.e(*value),
            ExprKind::If { cond, then, else_opt, .. } => k!("If", "cond": self.e(*cond), "then": self.e(*then), "els": self.oe(*else_opt)),
            ExprKind::Call { ty: fty, fun, args, .. } => {
                let f = match fty.kind() {
                    ty::FnDef(d, a) => { let did: DefId = (*d).into(); cx.fndef(did, a.skip_binder(), Some(self.env)) }
                    _ => J::Null,
                };
                let fe = if matches!(fty.kind(), ty::FnDef(..)) { J::Null } else { self.e(*fun) };
                k!("Call", "f": f, "fe": fe, "args": self.es(args))
            }
            ExprKind::ByUse { expr, .. } => return self.e(*expr),
            ExprKind::Deref { arg } => k!("Deref", "e": self.e(*arg)),
            ExprKind::Binary { op, lhs, rhs } => k!("Bin", "op": s(format!("{op:?}")), "l": self.e(*lhs), "r": self.e(*rhs)),
            ExprKind::LogicalOp { op, lhs, rhs } => k!("Logic", "op": s(format!("{op:?}")), "l": self.e(*lhs), "r": self.e(*rhs)),
            ExprKind::Unary { op, arg } => k!("Un", "op": s(format!("{op:?}")), "e": self.e(*arg)),
            ExprKind::Cast { source } => k!("Cast", "e": self.e(*source)),
            ExprKind::ValueExpr { source } => return self.e(*source),
            ExprKind::NeverToAny { source } => k!("Never", "e": self.e(*source)),
            ExprKind::PointerCoercion { cast, source, .. } => k!("Coerce", "c": s(format!("{cast:?}")), "e": self.e(*source)),
            ExprKind::Loop { body } => k!("Loop", "body": self.e(*body)),
            ExprKind::Let { expr, pat } => k!("Let", "e": self.e(*expr), "pat": self.pat(pat)),
            ExprKind::Match { scrutinee, arms, match_source } => k!("Match", "src": s(format!("{match_source:?}")), "e": self.e(*scrutinee), "arms": J::A(arms.iter().map(|a| {
                let a = &self.t[*a];
                J::O(vec![("pat", self.pat(&a.pattern)), ("guard", self.oe(a.guard)), ("body", self.e(a.body))])
            }).collect())),
            ExprKind::Block { block } => return self.block(*block, ty, ex.span),
            ExprKind::Assign { lhs, rhs } => k!("Assign", "l": self.e(*lhs), "r": self.e(*rhs)),
            ExprKind::AssignOp { op, lhs, rhs } => k!("AssignOp", "op": s(format!("{op:?}")), "l": self.e(*lhs), "r": self.e(*rhs)),
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = self.t[*lhs].ty;
                let fname = match lt.kind() {
                    ty::Adt(ad, _) => ad.variant(*variant_index).fields[*name].name.to_string(),
                    _ => name.as_usize().to_string(),
                };
                k!("Field", "e": self.e(*lhs), "n": s(fname), "lt": cx.ty(lt))
            }
            ExprKind::Index { lhs, index } => k!("Index", "e": self.e(*lhs), "i": self.e(*index)),
            ExprKind::VarRef { id } => k!("Var", "v": self.var(*id)),
            ExprKind::UpvarRef { var_hir_id, .. } => k!("Upvar", "v": self.var(*var_hir_id)),
            ExprKind::Borrow { borrow_kind, arg } => k!("Borrow", "mut": J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. })), "e": self.e(*arg)),
            ExprKind::RawBorrow { arg, .. } => k!("RawBorrow", "e": self.e(*arg)),
            ExprKind::Break { label, value } => k!("Break", "l": s(format!("{label:?}")), "e": self.oe(*value)),
            ExprKind::Continue { label } => k!("Continue", "l": s(format!("{label:?}"))),
            ExprKind::Return { value } => k!("Return", "e": self.oe(*value)),
            ExprKind::Repeat { value, count } => k!("Repeat", "e": self.e(*value), "n": s(format!("{count}"))),
            ExprKind::Array { fields } => k!("Array", "es": self.es(fields)),
            ExprKind::Tuple { fields } => k!("Tuple", "es": self.es(fields)),
            ExprKind::Adt(a) => {
                let (vn, fns) = self.variant(a.adt_def, a.variant_index);
                let base = match &a.base { thir::AdtExprBase::None => J::Null, thir::AdtExprBase::Base(b) => self.e(b.base), _ => s("defaults") };
                k!("Adt", "p": s(cx.path(a.adt_def.did())), "variant": s(vn), "enum": J::B(a.adt_def.is_enum()),
                   "fields": J::A(a.fields.iter().map(|f| J::A(vec![s(fns[f.name.as_usize()].clone()), self.e(f.expr)])).collect()), "base": base)
            }
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => return self.e(*source),
            ExprKind::Closure(c) => {
                let body = dump_body(cx, c.closure_id, self.owner);
                k!("Closure", "id": s(cx.path(c.closure_id.to_def_id())), "body": body)
            }
            ExprKind::Literal { lit, neg } => {
                let (lk, v) = match &lit.node {
                    LitKind::Int(i, _) => ("int", s({ let x = i.0; x }.to_string())),
                    LitKind::Float(f, _) => ("float", s(f.to_string())),
                    LitKind::Bool(b) => ("bool", J::B(*b)),
                    LitKind::Str(x, _) => ("str", s(x.to_string())),
                    LitKind::Char(c) => ("char", s(c.to_string())),
                    _ => ("other", J::Null),
                };
                k!("Lit", "lk": s(lk), "v": v, "neg": J::B(*neg))
            }
            ExprKind::NonHirLiteral { lit, .. } => k!("Lit", "lk": s("scalar"), "v": s(format!("{lit}")), "neg": J::B(false)),
            ExprKind::ZstLiteral { .. } => k!("Zst"),
            ExprKind::NamedConst { def_id, args, .. } => k!("Const", "p": s(cx.path(*def_id)), "args": cx.args(args)),
            ExprKind::StaticRef { def_id, .. } => k!("Static", "p": s(cx.path(*def_id))),
            other => { let d = format!("{other:?}"); k!("Unsupported", "what": s(d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string())) }
        }
        o.push(("ty", cx.ty(ty)));
        o.push(("sp", self.span(ex.span)));
        o.push(("mac", J::B(ex.span.from_expansion())));
        // scope of a loop / labelled block, matched against Break/Continue labels
        o.push(("id", J::I(ex.temp_scope_id.as_usize() as i128)));
        J::O(o)
    }
    fn block(&self, b: thir::BlockId, ty: Ty<'tcx>, sp: rustc_span::Span) -> J {
        let b = &self.t[b];
        let stmts = b.stmts.iter().map(|st| match &self.t[*st].kind {
            StmtKind::Expr { expr, .. } => J::O(vec![("k", s("Expr")), ("e", self.e(*expr))]),
            StmtKind::Let { pattern, initializer, else_block, span, .. } => J::O(vec![
                ("k", s("Let")), ("pat", self.pat(pattern)), ("init", self.oe(*initializer)),
                ("els", else_block.map(|b| self.block(b, self.cx.tcx.types.never, *span)).unwrap_or(J::Null)), ("sp", self.span(*span))]),
        }).collect();
        J::O(vec![("k", s("Block")), ("stmts", J::A(stmts)), ("e", self.oe(b.expr)), ("tb", J::B(b.targeted_by_break)),
            ("scope", s(format!("{:?}", b.region_scope))), ("ty", self.cx.ty(ty)), ("sp", self.span(sp))])
    }
    fn pat(&self, p: &thir::Pat<'tcx>) -> J {
        let cx = self.cx;
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($n:literal $(, $f:literal : $v:expr)*) => {{ o.push(("k", s($n))); $( o.push(($f, $v)); )* }} }
        let fname = |ad: Option<(ty::AdtDef<'tcx>, rustc_abi::VariantIdx)>, f: rustc_abi::FieldIdx| match ad {
            Some((ad, vi)) => ad.variant(vi).fields[f].name.to_string(),
            None => f.as_usize().to_string(),
        };
        match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => k!("Wild"),
            PatKind::Binding { name, mode, var, ty, subpattern, .. } => {
                let by = match mode.0 { rustc_hir::ByRef::No => "val", rustc_hir::ByRef::Yes(_, m) => if m.is_mut() { "refmut" } else { "ref" } };
                k!("Bind", "name": s(name.to_string()), "v": self.var(*var), "by": s(by), "mut": J::B(mode.1.is_mut()), "vty": cx.ty(*ty),
                   "sub": subpattern.as_ref().map(|p| self.pat(p)).unwrap_or(J::Null))
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let (vn, _) = self.variant(*adt_def, *variant_index);
                k!("Variant", "p": s(cx.path(adt_def.did())), "variant": s(vn),
                   "subs": J::A(subpatterns.iter().map(|f| J::A(vec![s(fname(Some((*adt_def, *variant_index)), f.field)), self.pat(&f.pattern)])).collect()))
            }
            PatKind::Leaf { subpatterns } => {
                let ad = match p.ty.kind() { ty::Adt(ad, _) => Some((*ad, rustc_abi::VariantIdx::from_usize(0))), _ => None };
                k!("Leaf", "subs": J::A(subpatterns.iter().map(|f| J::A(vec![s(fname(ad, f.field)), self.pat(&f.pattern)])).collect()))
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => k!("Deref", "sub": self.pat(subpattern)),
            PatKind::Constant { value } => k!("Const", "s": s(format!("{value}"))),
            PatKind::Range(r) => k!("Range", "s": s(format!("{r}"))),
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => k!("Slice",
                "prefix": J::A(prefix.iter().map(|p| self.pat(p)).collect()),
                "slice": slice.as_ref().map(|p| self.pat(p)).unwrap_or(J::Null),
                "suffix": J::A(suffix.iter().map(|p| self.pat(p)).collect())),
            PatKind::Or { pats } => k!("Or", "pats": J::A(pats.iter().map(|p| self.pat(p)).collect())),
            _ => k!("Unsupported"),
        }
        o.push(("ty", cx.ty(p.ty)));
        J::O(o)
    }
}

fn dump_body<'tcx>(cx: &Cx<'tcx>, d: LocalDefId, owner: LocalDefId) -> J {
    let Ok((thir, root)) = cx.tcx.thir_body(d) else { return J::Null };
    let thir = thir.borrow();
    if thir.exprs.is_empty() { return J::Null; }
    let env = ty::TypingEnv::post_analysis(cx.tcx, owner);
    let bx = Bx { cx, t: &thir, env, owner };
    let params = thir.params.iter().map(|p| J::O(vec![
        ("pat", p.pat.as_ref().map(|p| bx.pat(p)).unwrap_or(J::Null)), ("ty", cx.ty(p.ty)),
        ("selfk", J::B(p.self_kind.is_some()))])).collect();
    J::O(vec![("params", J::A(params)), ("value", bx.e(root)), ("ret", cx.ty(thir[root].ty))])
}

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let cx = Cx { tcx };
        let mut fns = vec![];
        for d in tcx.hir_body_owners() {
            let kind = tcx.def_kind(d);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) { continue; }
            let did = d.to_def_id();
            let mut o = vec![("path", s(cx.path(did))), ("name", s(tcx.item_name(did).to_string()))];
            if let Some(tr) = tcx.trait_of_assoc(did) { o.push(("in_trait", s(cx.path(tr)))); }
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_normalization();
                o.push(("impl_self", cx.ty(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) { o.push(("impl_trait", s(cx.path(tr.skip_binder().def_id)))); }
            }
            o.push(("vis", s(format!("{:?}", tcx.visibility(did)))));
            let gens: Vec<J> = {
                let mut v = vec![];
                let mut g = Some(tcx.generics_of(did));
                let mut stack = vec![];
                while let Some(gg) = g { stack.push(gg); g = gg.parent.map(|p| tcx.generics_of(p)); }
                for gg in stack.into_iter().rev() { for p in &gg.own_params { if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { v.push(s(p.name.to_string())); } } }
                v
            };
            o.push(("generics", J::A(gens)));
            let sm = tcx.sess.source_map();
            let sp = tcx.def_span(did);
            let lo = sm.lookup_char_pos(sp.lo());
            o.push(("span", s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))));
            o.push(("exp", J::B(sp.from_expansion())));
            o.push(("body", dump_body(&cx, d, d)));
            fns.push(J::O(o));
        }
        let mut adts = vec![];
        let mut implsv = vec![];
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum => {
                    let ad = tcx.adt_def(did);
                    let vs = ad.variants().iter().map(|v| J::O(vec![("name", s(v.name.to_string())),
                        ("fields", J::A(v.fields.iter().map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                            J::A(vec![s(f.name.to_string()), cx.ty(t)])
                        }).collect()))])).collect();
                    let g = tcx.generics_of(did);
                    let gs = g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| s(p.name.to_string())).collect();
                    adts.push(J::O(vec![("path", s(cx.path(did))), ("enum", J::B(ad.is_enum())), ("generics", J::A(gs)), ("variants", J::A(vs))]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let tr = tcx.impl_opt_trait_ref(did).map(|t| s(cx.path(t.skip_binder().def_id))).unwrap_or(J::Null);
                    implsv.push(J::O(vec![("self", cx.ty(st)), ("trait", tr), ("items", J::A(tcx.associated_item_def_ids(did).iter().map(|d| s(cx.path(*d))).collect()))]));
                }
                _ => {}
            }
        }
        let mut out = String::new();
        J::O(vec![("fns", J::A(fns)), ("adts", J::A(adts)), ("impls", J::A(implsv))]).w(&mut out);
        std::fs::write(&self.out, out).expect("write thir json");
        rustc_driver::Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // args[0] is now the real rustc
    let target = std::env::var("THIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("THIRDUMP_OUT").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    if name == target && is_lib && !out.is_empty() {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
