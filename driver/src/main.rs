//! Dumps the typed, resolved THIR of a crate as JSON (one file per crate).
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [thirdump, /path/to/rustc, rustc args...].
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::thir::{self, ExprKind, PatKind, StmtKind, Thir};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};

struct Cb {
    out: Option<String>,
}

impl rustc_driver_impl::Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver_impl::Compilation {
        if let Some(dir) = &self.out {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let s = with_no_trimmed_paths!(dump_crate(tcx));
            let path = format!("{}/{}.json", dir, name);
            std::fs::write(&path, s).expect("write thir json");
        }
        rustc_driver_impl::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // drop the wrapped rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("THIRDUMP_OUT").ok();
    let is_probe = args.iter().any(|a| a.starts_with("--print") || a == "-vV" || a == "-V");
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    let out = if is_probe || is_build_script { None } else { out };
    rustc_driver_impl::catch_with_exit_code(move || rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out }))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: RefCell<(HashMap<Ty<'tcx>, usize>, Vec<J>)>,
    adts: RefCell<(BTreeSet<String>, Vec<(String, J)>)>,
}

fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl<'tcx> Cx<'tcx> {
    fn uid(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn adt(&self, def: ty::AdtDef<'tcx>) -> String {
        let p = self.uid(def.did());
        if self.adts.borrow_mut().0.insert(p.clone()) {
            let vs: Vec<J> = def
                .variants()
                .iter()
                .map(|v| {
                    let mut o = vec![
                        ("name", s(v.name)),
                        ("fields", J::A(v.fields.iter().map(|f| s(f.name)).collect())),
                    ];
                    if def.did().is_local() {
                        o.push((
                            "tys",
                            J::A(v
                                .fields
                                .iter()
                                .map(|f| self.t(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))
                                .collect()),
                        ));
                        o.push((
                            "vis",
                            J::A(v.fields.iter().map(|f| J::B(f.vis.is_public())).collect()),
                        ));
                    }
                    obj(o)
                })
                .collect();
            let gens: Vec<J> = self
                .tcx
                .generics_of(def.did())
                .own_params
                .iter()
                .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                .map(|p| s(p.name))
                .collect();
            let k = if def.is_enum() { "enum" } else { "struct" };
            self.adts
                .borrow_mut()
                .1
                .push((p.clone(), obj(vec![("kind", s(k)), ("generics", J::A(gens)), ("variants", J::A(vs))])));
        }
        p
    }
    fn ga(&self, args: ty::GenericArgsRef<'tcx>) -> J {
        J::A(
            args.iter()
                .filter_map(|a| {
                    if let Some(t) = a.as_type() {
                        Some(J::N(self.ty(t) as i64))
                    } else if let Some(c) = a.as_const() {
                        Some(s(format!("{:?}", c)))
                    } else {
                        None
                    }
                })
                .collect(),
        )
    }
    fn ty(&self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.borrow().0.get(&t) {
            return i;
        }
        let i = {
            let mut g = self.types.borrow_mut();
            let i = g.1.len();
            g.0.insert(t, i);
            g.1.push(J::Null);
            i
        };
        let mut f: Vec<(&str, J)> = vec![("s", s(t))];
        match *t.kind() {
            ty::Adt(def, args) => {
                f.push(("k", s("adt")));
                f.push(("path", s(self.adt(def))));
                f.push(("args", self.ga(args)));
            }
            ty::Ref(_, inner, m) => {
                f.push(("k", s("ref")));
                f.push(("to", J::N(self.ty(inner) as i64)));
                f.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(inner, _) => {
                f.push(("k", s("ptr")));
                f.push(("to", J::N(self.ty(inner) as i64)));
            }
            ty::Tuple(ts) => {
                f.push(("k", s("tuple")));
                f.push(("args", J::A(ts.iter().map(|t| J::N(self.ty(t) as i64)).collect())));
            }
            ty::Array(inner, n) => {
                f.push(("k", s("array")));
                f.push(("to", J::N(self.ty(inner) as i64)));
                f.push(("len", s(n)));
            }
            ty::Slice(inner) => {
                f.push(("k", s("slice")));
                f.push(("to", J::N(self.ty(inner) as i64)));
            }
            ty::Param(p) => {
                f.push(("k", s("param")));
                f.push(("name", s(p.name)));
            }
            ty::FnDef(..) => {
                f.push(("k", s("fndef")));
            }
            ty::Closure(d, _) => {
                f.push(("k", s("closure")));
                f.push(("id", s(self.uid(d))));
            }
            ty::Bool => f.push(("k", s("bool"))),
            ty::Int(_) => f.push(("k", s("int"))),
            ty::Uint(_) => f.push(("k", s("uint"))),
            ty::Float(_) => f.push(("k", s("float"))),
            ty::Never => f.push(("k", s("never"))),
            ty::Str => f.push(("k", s("str"))),
            _ => f.push(("k", s("other"))),
        }
        self.types.borrow_mut().1[i] = obj(f);
        i
    }
    fn t(&self, t: Ty<'tcx>) -> J {
        J::N(self.ty(t) as i64)
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp2 = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp2.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }
    fn callee(&self, owner: LocalDefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut f: Vec<(&str, J)> = vec![
            ("uid", s(self.uid(d))),
            ("path", s(tcx.def_path_str(d))),
            ("crate", s(tcx.crate_name(d.krate))),
            ("args", self.ga(args)),
        ];
        if let Some(n) = tcx.opt_item_name(d) {
            f.push(("name", s(n)));
        }
        match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                f.push(("ctor", J::B(true)));
                let v = tcx.parent(d);
                // parent: variant or struct
                let (adt_did, vname) = if tcx.def_kind(v) == DefKind::Variant {
                    (tcx.parent(v), tcx.item_name(v).to_string())
                } else {
                    (v, tcx.item_name(v).to_string())
                };
                f.push(("adt", s(self.adt(tcx.adt_def(adt_did)))));
                f.push(("variant", s(vname)));
            }
            DefKind::Fn | DefKind::AssocFn => {
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    f.push(("trait", s(tcx.def_path_str(tr))));
                    if args.len() > 0 && args[0].as_type().is_some() {
                        f.push(("self_ty", self.t(args.type_at(0))));
                    }
                } else if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    f.push(("impl_self", s(st)));
                }
                let te = ty::TypingEnv::non_body_analysis(tcx, owner.to_def_id());
                let args = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, d, args) {
                    let rd = inst.def_id();
                    if rd != d {
                        f.push(("ruid", s(self.uid(rd))));
                        f.push(("rpath", s(tcx.def_path_str(rd))));
                        f.push(("rargs", self.ga(inst.args)));
                    }
                }
            }
            _ => {}
        }
        obj(f)
    }
}

struct Bcx<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    th: &'a Thir<'tcx>,
    owner: LocalDefId,
}

impl<'a, 'tcx> Bcx<'a, 'tcx> {
    fn var(&self, id: thir::LocalVarId) -> J {
        s(format!("{}.{}", self.cx.uid(id.0.owner.to_def_id()), id.0.local_id.as_u32()))
    }
    fn scope(&self, r: rustc_middle::middle::region::Scope) -> J {
        J::N(r.local_id.as_u32() as i64)
    }
    fn block(&self, b: thir::BlockId) -> J {
        let blk = &self.th.blocks[b];
        let stmts: Vec<J> = blk
            .stmts
            .iter()
            .map(|st| match &self.th.stmts[*st].kind {
                StmtKind::Expr { expr, .. } => obj(vec![("k", s("expr")), ("e", self.e(*expr))]),
                StmtKind::Let { pattern, initializer, else_block, .. } => obj(vec![
                    ("k", s("let")),
                    ("pat", self.pat(pattern)),
                    ("init", initializer.map(|e| self.e(e)).unwrap_or(J::Null)),
                    ("els", else_block.map(|b| self.block(b)).unwrap_or(J::Null)),
                ]),
            })
            .collect();
        obj(vec![
            ("stmts", J::A(stmts)),
            ("expr", blk.expr.map(|e| self.e(e)).unwrap_or(J::Null)),
            ("targeted", J::B(blk.targeted_by_break)),
            ("scope", self.scope(blk.region_scope)),
            ("unsafe", J::B(matches!(blk.safety_mode, thir::BlockSafety::ExplicitUnsafe(_)))),
        ])
    }
    fn fieldpats(&self, v: &[thir::FieldPat<'tcx>]) -> J {
        J::A(
            v.iter()
                .map(|fp| J::A(vec![J::N(fp.field.as_u32() as i64), self.pat(&fp.pattern)]))
                .collect(),
        )
    }
    fn pat(&self, p: &thir::Pat<'tcx>) -> J {
        let mut f: Vec<(&str, J)> = vec![("ty", self.cx.t(p.ty))];
        match &p.kind {
            PatKind::Wild | PatKind::Missing => f.push(("k", s("Wild"))),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                f.push(("k", s("Binding")));
                f.push(("name", s(name)));
                f.push(("var", self.var(*var)));
                let by = match mode.0 {
                    rustc_ast::ByRef::No => "value",
                    rustc_ast::ByRef::Yes(_, m) => {
                        if m.is_mut() {
                            "mutref"
                        } else {
                            "ref"
                        }
                    }
                };
                f.push(("by", s(by)));
                f.push(("sub", subpattern.as_ref().map(|p| self.pat(p)).unwrap_or(J::Null)));
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                f.push(("k", s("Variant")));
                f.push(("adt", s(self.cx.adt(*adt_def))));
                f.push(("variant", s(adt_def.variant(*variant_index).name)));
                f.push(("sub", self.fieldpats(subpatterns)));
            }
            PatKind::Leaf { subpatterns } => {
                f.push(("k", s("Leaf")));
                f.push(("sub", self.fieldpats(subpatterns)));
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                f.push(("k", s("Deref")));
                f.push(("sub", self.pat(subpattern)));
            }
            PatKind::Constant { value } => {
                f.push(("k", s("Constant")));
                f.push(("v", s(value)));
            }
            PatKind::Range(r) => {
                f.push(("k", s("Range")));
                f.push(("v", s(r)));
            }
            PatKind::Or { pats } => {
                f.push(("k", s("Or")));
                f.push(("sub", J::A(pats.iter().map(|p| self.pat(p)).collect())));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                f.push(("k", s("Slice")));
                f.push(("prefix", J::A(prefix.iter().map(|p| self.pat(p)).collect())));
                f.push(("mid", slice.as_ref().map(|p| self.pat(p)).unwrap_or(J::Null)));
                f.push(("suffix", J::A(suffix.iter().map(|p| self.pat(p)).collect())));
            }
            other => {
                f.push(("k", s("Unsupported")));
                f.push(("what", s(format!("{:?}", std::mem::discriminant(other)))));
            }
        }
        obj(f)
    }
    fn es(&self, v: &[thir::ExprId]) -> J {
        J::A(v.iter().map(|e| self.e(*e)).collect())
    }
    fn oe(&self, v: Option<thir::ExprId>) -> J {
        v.map(|e| self.e(e)).unwrap_or(J::Null)
    }
    fn e(&self, id: thir::ExprId) -> J {
        let ex = &self.th.exprs[id];
        match &ex.kind {
            ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::ByUse { expr: source, .. } => return self.e(*source),
            _ => {}
        }
        let mut f: Vec<(&str, J)> = vec![];
        let mut k = |n: &str| f.push(("k", s(n)));
        match &ex.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                k("Scope");
                f.push(("scope", self.scope(*region_scope)));
                f.push(("e", self.e(*value)));
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                k("If");
                f.push(("cond", self.e(*cond)));
                f.push(("then", self.e(*then)));
                f.push(("else", self.oe(*else_opt)));
            }
            ExprKind::Call { ty, fun, args, .. } => {
                k("Call");
                match *ty.kind() {
                    ty::FnDef(d, ga) => f.push(("fn", self.cx.callee(self.owner, d, ga.skip_binder()))),
                    _ => {
                        f.push(("fn", J::Null));
                        f.push(("fun", self.e(*fun)));
                    }
                }
                f.push(("args", self.es(args)));
            }
            ExprKind::Deref { arg } => {
                k("Deref");
                f.push(("e", self.e(*arg)));
            }
            ExprKind::Binary { op, lhs, rhs } => {
                k("Binary");
                f.push(("op", s(format!("{:?}", op))));
                f.push(("l", self.e(*lhs)));
                f.push(("r", self.e(*rhs)));
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                k("Logical");
                f.push(("op", s(format!("{:?}", op))));
                f.push(("l", self.e(*lhs)));
                f.push(("r", self.e(*rhs)));
            }
            ExprKind::Unary { op, arg } => {
                k("Unary");
                f.push(("op", s(format!("{:?}", op))));
                f.push(("e", self.e(*arg)));
            }
            ExprKind::Cast { source } => {
                k("Cast");
                f.push(("e", self.e(*source)));
            }
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source } => {
                k("Use");
                f.push(("e", self.e(*source)));
            }
            ExprKind::PointerCoercion { source, cast, .. } => {
                k("Coerce");
                f.push(("cast", s(format!("{:?}", cast))));
                f.push(("e", self.e(*source)));
            }
            ExprKind::Loop { body } => {
                k("Loop");
                f.push(("body", self.e(*body)));
            }
            ExprKind::Let { expr, pat } => {
                k("LetCond");
                f.push(("e", self.e(*expr)));
                f.push(("pat", self.pat(pat)));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                k("Match");
                f.push(("src", s(format!("{:?}", match_source))));
                f.push(("e", self.e(*scrutinee)));
                f.push((
                    "arms",
                    J::A(arms
                        .iter()
                        .map(|a| {
                            let a = &self.th.arms[*a];
                            obj(vec![
                                ("pat", self.pat(&a.pattern)),
                                ("guard", self.oe(a.guard)),
                                ("body", self.e(a.body)),
                            ])
                        })
                        .collect()),
                ));
            }
            ExprKind::Block { block } => {
                k("Block");
                f.push(("b", self.block(*block)));
            }
            ExprKind::Assign { lhs, rhs } => {
                k("Assign");
                f.push(("l", self.e(*lhs)));
                f.push(("r", self.e(*rhs)));
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                k("AssignOp");
                f.push(("op", s(format!("{:?}", op))));
                f.push(("l", self.e(*lhs)));
                f.push(("r", self.e(*rhs)));
            }
            ExprKind::Field { lhs, variant_index, name } => {
                k("Field");
                f.push(("e", self.e(*lhs)));
                f.push(("idx", J::N(name.as_u32() as i64)));
                f.push(("vi", J::N(variant_index.as_u32() as i64)));
                if let ty::Adt(def, _) = self.th.exprs[*lhs].ty.kind() {
                    f.push(("name", s(def.variant(*variant_index).fields[*name].name)));
                }
            }
            ExprKind::Index { lhs, index } => {
                k("Index");
                f.push(("l", self.e(*lhs)));
                f.push(("i", self.e(*index)));
            }
            ExprKind::VarRef { id } => {
                k("Var");
                f.push(("var", self.var(*id)));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                k("Upvar");
                f.push(("var", self.var(*var_hir_id)));
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                k("Borrow");
                f.push(("mut", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }))));
                f.push(("e", self.e(*arg)));
            }
            ExprKind::Break { label, value } => {
                k("Break");
                f.push(("label", self.scope(*label)));
                f.push(("e", self.oe(*value)));
            }
            ExprKind::Continue { label } => {
                k("Continue");
                f.push(("label", self.scope(*label)));
            }
            ExprKind::Return { value } => {
                k("Return");
                f.push(("e", self.oe(*value)));
            }
            ExprKind::Repeat { value, count } => {
                k("Repeat");
                f.push(("e", self.e(*value)));
                f.push(("count", s(count)));
            }
            ExprKind::Array { fields } => {
                k("Array");
                f.push(("es", self.es(fields)));
            }
            ExprKind::Tuple { fields } => {
                k("Tuple");
                f.push(("es", self.es(fields)));
            }
            ExprKind::Adt(a) => {
                k("Adt");
                f.push(("adt", s(self.cx.adt(a.adt_def))));
                let v = a.adt_def.variant(a.variant_index);
                f.push(("variant", s(v.name)));
                f.push((
                    "fields",
                    J::A(a
                        .fields
                        .iter()
                        .map(|fe| J::A(vec![s(v.fields[fe.name].name), self.e(fe.expr)]))
                        .collect()),
                ));
                f.push((
                    "base",
                    match &a.base {
                        thir::AdtExprBase::Base(b) => self.e(b.base),
                        _ => J::Null,
                    },
                ));
            }
            ExprKind::Closure(c) => {
                k("Closure");
                f.push(("id", s(self.cx.uid(c.closure_id.to_def_id()))));
                f.push(("upvars", self.es(&c.upvars)));
            }
            ExprKind::Literal { lit, neg } => {
                k("Lit");
                f.push(("neg", J::B(*neg)));
                use rustc_ast::LitKind::*;
                let v = match lit.node {
                    Int(n, _) => s(n.get()),
                    Float(sym, _) => s(sym),
                    Bool(b) => J::B(b),
                    Str(sym, _) => obj(vec![("str", s(sym))]),
                    Char(c) => obj(vec![("char", s(c))]),
                    _ => J::Null,
                };
                f.push(("v", v));
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                k("Lit");
                f.push(("neg", J::B(false)));
                f.push(("v", s(format!("{:?}", lit))));
            }
            ExprKind::ZstLiteral { .. } => {
                k("Zst");
                if let ty::FnDef(d, ga) = *ex.ty.kind() {
                    f.push(("fn", self.cx.callee(self.owner, d, ga.skip_binder())));
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                k("NamedConst");
                let tcx = self.cx.tcx;
                let mut rd = *def_id;
                if matches!(tcx.def_kind(rd), DefKind::AssocConst { .. }) {
                    let te = ty::TypingEnv::non_body_analysis(tcx, self.owner.to_def_id());
                    if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, te, *def_id, tcx.erase_and_anonymize_regions(*args)) {
                        rd = i.def_id();
                    }
                }
                f.push(("uid", s(self.cx.uid(rd))));
                f.push(("path", s(tcx.def_path_str(rd))));
                f.push(("args", self.cx.ga(args)));
            }
            ExprKind::ConstParam { param, .. } => {
                k("ConstParam");
                f.push(("name", s(param.name)));
            }
            ExprKind::ConstBlock { did, .. } => {
                k("NamedConst");
                f.push(("uid", s(self.cx.uid(*did))));
                f.push(("path", s(self.cx.tcx.def_path_str(*did))));
            }
            ExprKind::StaticRef { def_id, .. } => {
                k("StaticRef");
                f.push(("uid", s(self.cx.uid(*def_id))));
            }
            ExprKind::RawBorrow { arg, .. } => {
                k("RawBorrow");
                f.push(("e", self.e(*arg)));
            }
            ExprKind::Reborrow { source, .. } => {
                k("Use");
                f.push(("e", self.e(*source)));
            }
            other => {
                k("Unsupported");
                f.push(("what", s(format!("{:?}", std::mem::discriminant(other)))));
            }
        }
        f.push(("ty", self.cx.t(ex.ty)));
        f.push(("sp", self.cx.span(ex.span)));
        obj(f)
    }
}

fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let cx = Cx { tcx, types: Default::default(), adts: Default::default() };
    let mut bodies = vec![];
    for def in tcx.hir_body_owners() {
        let kind = tcx.def_kind(def);
        let ks = match kind {
            DefKind::Fn | DefKind::AssocFn => "fn",
            DefKind::Closure => "closure",
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            _ => continue,
        };
        let Ok((st, root)) = tcx.thir_body(def) else { continue };
        let th = st.borrow();
        let b = Bcx { cx: &cx, th: &th, owner: def };
        let mut f: Vec<(&str, J)> = vec![
            ("uid", s(cx.uid(def.to_def_id()))),
            ("path", s(tcx.def_path_str(def.to_def_id()))),
            ("kind", s(ks)),
            ("sp", cx.span(tcx.def_span(def.to_def_id()))),
        ];
        if let Some(n) = tcx.opt_item_name(def.to_def_id()) {
            f.push(("name", s(n)));
        }
        f.push(("parent", s(cx.uid(tcx.parent(def.to_def_id())))));
        if ks != "closure" {
            f.push(("pub", J::B(tcx.visibility(def.to_def_id()).is_public())));
        }
        if kind == DefKind::AssocFn {
            if let Some(im) = tcx.impl_of_assoc(def.to_def_id()) {
                f.push(("impl_self", cx.t(tcx.type_of(im).instantiate_identity().skip_norm_wip())));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    f.push(("impl_trait", s(tcx.def_path_str(tr.skip_binder().def_id))));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(def.to_def_id()) {
                f.push(("in_trait", s(tcx.def_path_str(tr))));
            }
        }
        if ks == "fn" {
            let g = tcx.generics_of(def);
            let mut names = vec![];
            let mut cur = Some(g);
            while let Some(gg) = cur {
                let mut v: Vec<(usize, String)> =
                    gg.own_params.iter().map(|p| (p.index as usize, p.name.to_string())).collect();
                names.append(&mut v);
                cur = gg.parent.map(|p| tcx.generics_of(p));
            }
            names.sort();
            f.push(("generics", J::A(names.into_iter().filter(|n| !n.1.starts_with('\'')).map(|n| s(n.1)).collect())));
        }
        let params: Vec<J> = th
            .params
            .iter()
            .map(|p| {
                obj(vec![
                    ("pat", p.pat.as_ref().map(|p| b.pat(p)).unwrap_or(J::Null)),
                    ("ty", cx.t(p.ty)),
                ])
            })
            .collect();
        f.push(("params", J::A(params)));
        f.push(("body", b.e(root)));
        bodies.push(obj(f));
    }
    // impls of local traits / Drop, From etc. for effect and conversion queries
    let mut impls = vec![];
    for (tr, ims) in tcx.all_local_trait_impls(()).iter() {
        for im in ims {
            let st = tcx.type_of(im.to_def_id()).instantiate_identity().skip_norm_wip();
            let t = tcx.impl_trait_ref(im.to_def_id()).skip_binder();
            impls.push(obj(vec![
                ("trait", s(tcx.def_path_str(*tr))),
                ("ref", s(format!("{:?}", t))),
                ("self", s(st)),
                ("sp", cx.span(tcx.def_span(im.to_def_id()))),
            ]));
        }
    }
    let adts = J::O(cx.adts.into_inner().1);
    let types = J::A(cx.types.into_inner().1);
    obj(vec![
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
        ("bodies", J::A(bodies)),
        ("impls", J::A(impls)),
        ("adts", adts),
        ("types", types),
    ])
    .to_string()
}
