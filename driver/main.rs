//! Dumps type-checked facts (THIR bodies, ADTs, impls) of a crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, the rest are rustc's arguments.
//! The dump is written to $FACTS_DIR/<crate>.json, for library targets of the crates listed in $FACTS_CRATES.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::thir::{self, ExprKind, PatKind, StmtKind, Thir};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt};
use rustc_span::Span;

/// Minimal JSON value.
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}

impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{i}").unwrap(),
            J::S(x) => write_str(x, o),
            J::A(v) => {
                o.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    e.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write_str(k, o);
                    o.push(':');
                    e.write(o);
                }
                o.push('}');
            }
        }
    }
}

fn write_str(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn name(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        // Resolve macro expansions to the outermost call site.
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        J::S(format!("{}:{}", f, lo.line))
    }
    fn gargs(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = Vec::new();
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => {
                    let i = self.ty(t);
                    v.push(J::I(i as i128))
                }
                GenericArgKind::Const(c) => v.push(J::O(vec![("c", s(c))])),
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let st = s(ty::print::with_no_trimmed_paths!(t.to_string()));
        let j = match t.kind() {
            ty::Adt(def, args) => {
                let g = self.gargs(args);
                J::O(vec![("k", s("adt")), ("d", s(self.key(def.did()))), ("n", s(self.name(def.did()))), ("a", g), ("s", st)])
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                J::O(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("e", J::I(i as i128)), ("s", st)])
            }
            ty::Slice(e) => {
                let i = self.ty(*e);
                J::O(vec![("k", s("slice")), ("e", J::I(i as i128)), ("s", st)])
            }
            ty::Array(e, n) => {
                let i = self.ty(*e);
                J::O(vec![("k", s("array")), ("e", J::I(i as i128)), ("len", s(n)), ("s", st)])
            }
            ty::Tuple(es) => {
                let v: Vec<J> = es.iter().map(|e| J::I(self.ty(e) as i128)).collect();
                J::O(vec![("k", s("tuple")), ("a", J::A(v)), ("s", st)])
            }
            ty::FnDef(d, args) => {
                let f = self.fndef(*d, args.no_bound_vars());
                J::O(vec![("k", s("fndef")), ("f", f), ("s", st)])
            }
            ty::Closure(d, _) => J::O(vec![("k", s("closure")), ("d", s(self.key(*d))), ("s", st)]),
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name)), ("i", J::I(p.index as i128)), ("s", st)]),
            ty::Alias(..) => {
                J::O(vec![("k", s("alias")), ("s", st)])
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::O(vec![("k", s("prim")), ("s", st)])
            }
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("s", st)]),
            _ => J::O(vec![("k", s("other")), ("s", st)]),
        };
        // Recursion may have inserted meanwhile.
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(j);
        self.tmap.insert(t, i);
        i
    }
    fn tyj(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.ty(t) as i128)
    }
    fn fndef(&mut self, d: DefId, args: Option<ty::GenericArgsRef<'tcx>>) -> J {
        let mut v = vec![("key", s(self.key(d))), ("name", s(self.name(d)))];
        if let Some(a) = args {
            let g = self.gargs(a);
            v.push(("args", g));
        }
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            v.push(("trait", s(self.name(t))));
            v.push(("item", s(self.tcx.item_name(d))));
        } else if let Some(i) = self.tcx.impl_of_assoc(d) {
            v.push(("impl", s(self.key(i))));
            let st = self.tcx.type_of(i).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            v.push(("iself", J::I(st as i128)));
            v.push(("item", s(self.tcx.item_name(d))));
        }
        match self.tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                let p = self.tcx.parent(d);
                let (adt, variant) = match self.tcx.def_kind(p) {
                    DefKind::Variant => (self.tcx.parent(p), Some(p)),
                    _ => (p, None),
                };
                v.push(("ctor", s(self.key(adt))));
                let vn = match variant {
                    Some(p) => self.tcx.item_name(p).to_string(),
                    None => self.tcx.item_name(adt).to_string(),
                };
                v.push(("variant", s(vn)));
            }
            _ => {}
        }
        J::O(v)
    }
    fn resolve(&mut self, owner: LocalDefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<J> {
        self.tcx.trait_of_assoc(d)?;
        let env = ty::TypingEnv::post_analysis(self.tcx, owner);
        let args = self.tcx.erase_and_anonymize_regions(args);
        match ty::Instance::try_resolve(self.tcx, env, d, args) {
            Ok(Some(i)) => {
                let did = i.def_id();
                if did == d && matches!(i.def, ty::InstanceKind::Item(_)) && self.tcx.trait_of_assoc(did).is_some() {
                    // default method body
                    return Some(self.fndef(did, Some(i.args)));
                }
                Some(self.fndef(did, Some(i.args)))
            }
            _ => None,
        }
    }

    fn pat(&mut self, p: &thir::Pat<'tcx>) -> J {
        let t = self.tyj(p.ty);
        let mut v = vec![];
        match &p.kind {
            PatKind::Wild | PatKind::Missing => v.push(("p", s("wild"))),
            PatKind::Binding { name, var, subpattern, mode, .. } => {
                v.push(("p", s("bind")));
                v.push(("n", s(name)));
                v.push(("v", J::I(var.0.local_id.as_u32() as i128)));
                v.push(("byref", J::B(matches!(mode.0, rustc_hir::ByRef::Yes(..)))));
                if let Some(sp) = subpattern {
                    let j = self.pat(sp);
                    v.push(("sub", j));
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                v.push(("p", s("variant")));
                v.push(("d", s(self.key(adt_def.did()))));
                let var = adt_def.variant(*variant_index);
                v.push(("vn", s(var.name)));
                let mut fs = vec![];
                for f in subpatterns {
                    let fname = var.fields[f.field].name.to_string();
                    let j = self.pat(&f.pattern);
                    fs.push(J::A(vec![J::S(fname), j]));
                }
                v.push(("fs", J::A(fs)));
            }
            PatKind::Leaf { subpatterns } => {
                v.push(("p", s("leaf")));
                let adt = match p.ty.kind() {
                    ty::Adt(d, _) => Some(*d),
                    _ => None,
                };
                let mut fs = vec![];
                for f in subpatterns {
                    let fname = match adt {
                        Some(d) => d.non_enum_variant_or_only(f.field),
                        None => f.field.as_u32().to_string(),
                    };
                    let j = self.pat(&f.pattern);
                    fs.push(J::A(vec![J::S(fname), j]));
                }
                v.push(("fs", J::A(fs)));
            }
            PatKind::Deref { subpattern, .. } => {
                v.push(("p", s("deref")));
                let j = self.pat(subpattern);
                v.push(("sub", j));
            }
            PatKind::DerefPattern { subpattern, .. } => {
                v.push(("p", s("deref")));
                let j = self.pat(subpattern);
                v.push(("sub", j));
            }
            PatKind::Constant { value } => {
                v.push(("p", s("const")));
                let j = self.tyvalue(*value);
                v.push(("c", j));
            }
            PatKind::Range(r) => {
                v.push(("p", s("range")));
                let f = |b: &thir::PatRangeBoundary<'tcx>| match b {
                    thir::PatRangeBoundary::Finite(vt) => {
                        let val = ty::Value { ty: r.ty, valtree: *vt };
                        match val.try_to_leaf() {
                            Some(l) => J::I(l.to_bits(l.size()) as i128),
                            None => J::Null,
                        }
                    }
                    _ => J::Null,
                };
                v.push(("lo", f(&r.lo)));
                v.push(("hi", f(&r.hi)));
                v.push(("incl", J::B(matches!(r.end, rustc_hir::RangeEnd::Included))));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                v.push(("p", s("slice")));
                let a: Vec<J> = prefix.iter().map(|x| self.pat(x)).collect();
                v.push(("pre", J::A(a)));
                if let Some(m) = slice {
                    let j = self.pat(m);
                    v.push(("mid", j));
                }
                let a: Vec<J> = suffix.iter().map(|x| self.pat(x)).collect();
                v.push(("suf", J::A(a)));
            }
            PatKind::Or { pats } => {
                v.push(("p", s("or")));
                let a: Vec<J> = pats.iter().map(|x| self.pat(x)).collect();
                v.push(("ps", J::A(a)));
            }
            PatKind::Never => v.push(("p", s("never"))),
            _ => v.push(("p", s("unknown"))),
        }
        v.push(("t", t));
        J::O(v)
    }

    fn tyvalue(&mut self, value: ty::Value<'tcx>) -> J {
        if let Some(l) = value.try_to_leaf() {
            let bits = l.to_bits(l.size());
            return match value.ty.kind() {
                ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
                ty::Char => J::O(vec![("char", J::I(bits as i128))]),
                _ => J::O(vec![("int", J::I(bits as i128))]),
            };
        }
        let is_str = match value.ty.kind() {
            ty::Ref(_, i, _) => i.is_str(),
            ty::Str => true,
            _ => false,
        };
        if is_str || matches!(value.ty.kind(), ty::Ref(..) | ty::Array(..)) {
            if let Some(b) = value.try_to_raw_bytes(self.tcx) {
                return J::O(vec![
                    (if is_str { "str" } else { "bytes" }, J::A(b.iter().map(|x| J::I(*x as i128)).collect())),
                ]);
            }
        }
        if let ty::Str = value.ty.kind() {
            if let Some(br) = value.try_to_branch() {
                let mut out = vec![];
                for c in br {
                    if let Some(v) = c.try_to_value() {
                        if let Some(l) = v.try_to_leaf() {
                            out.push(J::I(l.to_bits(l.size()) as i128));
                        }
                    }
                }
                return J::O(vec![("str", J::A(out))]);
            }
        }
        if let Some(br) = value.try_to_branch() {
            let mut out = vec![];
            for c in br {
                match c.try_to_value() {
                    Some(v) => {
                        let j = self.tyvalue(v);
                        out.push(j)
                    }
                    None => out.push(J::Null),
                }
            }
            return J::O(vec![("branch", J::A(out))]);
        }
        J::Null
    }

    fn block(&mut self, owner: LocalDefId, th: &Thir<'tcx>, b: thir::BlockId) -> J {
        let b = &th.blocks[b];
        let mut st = vec![];
        for sid in b.stmts.iter() {
            match &th.stmts[*sid].kind {
                StmtKind::Expr { expr, .. } => {
                    let j = self.expr(owner, th, *expr);
                    st.push(J::O(vec![("s", s("expr")), ("e", j)]));
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(pattern);
                    let mut v = vec![("s", s("let")), ("p", p)];
                    if let Some(i) = initializer {
                        let j = self.expr(owner, th, *i);
                        v.push(("e", j));
                    }
                    if let Some(e) = else_block {
                        let j = self.block(owner, th, *e);
                        v.push(("else", j));
                    }
                    st.push(J::O(v));
                }
            }
        }
        let mut v = vec![("k", s("block")), ("st", J::A(st))];
        if let Some(e) = b.expr {
            let j = self.expr(owner, th, e);
            v.push(("e", j));
        }
        if b.targeted_by_break {
            v.push(("label", J::I(b.region_scope.local_id.as_u32() as i128)));
        }
        if matches!(b.safety_mode, thir::BlockSafety::ExplicitUnsafe(_)) {
            v.push(("unsafe", J::B(true)));
        }
        J::O(v)
    }

    fn exprs(&mut self, owner: LocalDefId, th: &Thir<'tcx>, es: &[thir::ExprId]) -> J {
        J::A(es.iter().map(|e| self.expr(owner, th, *e)).collect())
    }

    fn expr(&mut self, owner: LocalDefId, th: &Thir<'tcx>, id: thir::ExprId) -> J {
        let mut e = &th.exprs[id];
        let mut label = None;
        while let ExprKind::Scope { value, region_scope, .. } = &e.kind {
            label = Some(region_scope.local_id.as_u32());
            e = &th.exprs[*value];
        }
        let t = self.tyj(e.ty);
        let mut v: Vec<(&'static str, J)> = vec![];
        macro_rules! k {
            ($x:expr) => {
                v.push(("k", s($x)))
            };
        }
        macro_rules! sub {
            ($n:expr, $id:expr) => {{
                let j = self.expr(owner, th, $id);
                v.push(($n, j));
            }};
        }
        let mut want_span = false;
        match &e.kind {
            ExprKind::Scope { .. } => unreachable!(),
            ExprKind::If { cond, then, else_opt, .. } => {
                k!("if");
                sub!("c", *cond);
                sub!("th", *then);
                if let Some(x) = else_opt {
                    sub!("el", *x);
                }
            }
            ExprKind::Call { ty: fty, fun, args, from_hir_call, .. } => {
                k!("call");
                want_span = true;
                if let ty::FnDef(d, a) = fty.kind() {
                    let a = a.no_bound_vars();
                    let f = self.fndef(*d, a);
                    v.push(("f", f));
                    if let Some(a) = a {
                        if let Some(r) = self.resolve(owner, *d, a) {
                            v.push(("r", r));
                        }
                    }
                } else {
                    sub!("fun", *fun);
                }
                let a = self.exprs(owner, th, args);
                v.push(("a", a));
                if !from_hir_call {
                    v.push(("op", J::B(true)));
                }
            }
            ExprKind::ByUse { expr, .. } => return self.expr(owner, th, *expr),
            ExprKind::Deref { arg } => {
                k!("deref");
                sub!("e", *arg);
            }
            ExprKind::Binary { op, lhs, rhs } => {
                k!("bin");
                v.push(("op", s(format!("{op:?}"))));
                sub!("l", *lhs);
                sub!("r", *rhs);
                want_span = true;
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                k!("logic");
                v.push(("op", s(format!("{op:?}"))));
                sub!("l", *lhs);
                sub!("r", *rhs);
            }
            ExprKind::Unary { op, arg } => {
                k!("un");
                v.push(("op", s(format!("{op:?}"))));
                sub!("e", *arg);
                want_span = true;
            }
            ExprKind::Cast { source } => {
                k!("cast");
                sub!("e", *source);
                want_span = true;
            }
            ExprKind::ValueExpr { source } => return self.expr(owner, th, *source),
            ExprKind::NeverToAny { source } => {
                k!("never");
                sub!("e", *source);
            }
            ExprKind::PointerCoercion { source, cast, .. } => {
                k!("coerce");
                v.push(("c", s(format!("{cast:?}"))));
                sub!("e", *source);
            }
            ExprKind::Loop { body } => {
                k!("loop");
                if let Some(l) = label {
                    v.push(("label", J::I(l as i128)));
                }
                sub!("e", *body);
            }
            ExprKind::Let { expr, pat } => {
                k!("let");
                sub!("e", *expr);
                let p = self.pat(pat);
                v.push(("p", p));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                k!("match");
                v.push(("src", s(format!("{match_source:?}"))));
                sub!("e", *scrutinee);
                let mut a = vec![];
                for arm in arms.iter() {
                    let arm = &th.arms[*arm];
                    let p = self.pat(&arm.pattern);
                    let mut av = vec![("p", p)];
                    if let Some(g) = arm.guard {
                        let j = self.expr(owner, th, g);
                        av.push(("g", j));
                    }
                    let j = self.expr(owner, th, arm.body);
                    av.push(("e", j));
                    a.push(J::O(av));
                }
                v.push(("arms", J::A(a)));
                want_span = true;
            }
            ExprKind::Block { block } => {
                let j = self.block(owner, th, *block);
                if let J::O(mut o) = j {
                    o.push(("t", t));
                    return J::O(o);
                }
                unreachable!()
            }
            ExprKind::Assign { lhs, rhs } => {
                k!("assign");
                sub!("l", *lhs);
                sub!("r", *rhs);
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                k!("assignop");
                v.push(("op", s(format!("{op:?}"))));
                sub!("l", *lhs);
                sub!("r", *rhs);
                want_span = true;
            }
            ExprKind::Field { lhs, variant_index, name } => {
                k!("field");
                let lt = th.exprs[*lhs].ty;
                let fname = match lt.kind() {
                    ty::Adt(d, _) => d.variant(*variant_index).fields[*name].name.to_string(),
                    _ => name.as_u32().to_string(),
                };
                v.push(("n", J::S(fname)));
                sub!("e", *lhs);
            }
            ExprKind::Index { lhs, index } => {
                k!("index");
                sub!("l", *lhs);
                sub!("i", *index);
                want_span = true;
            }
            ExprKind::VarRef { id } => {
                k!("var");
                v.push(("v", J::I(id.0.local_id.as_u32() as i128)));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                k!("var");
                v.push(("v", J::I(var_hir_id.0.local_id.as_u32() as i128)));
                v.push(("up", J::B(true)));
            }
            ExprKind::Borrow { arg, borrow_kind } => {
                k!("ref");
                v.push(("m", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }))));
                sub!("e", *arg);
            }
            ExprKind::RawBorrow { arg, .. } => {
                k!("rawref");
                sub!("e", *arg);
            }
            ExprKind::Break { label, value } => {
                k!("break");
                v.push(("label", J::I(label.local_id.as_u32() as i128)));
                if let Some(x) = value {
                    sub!("e", *x);
                }
            }
            ExprKind::Continue { label } => {
                k!("continue");
                v.push(("label", J::I(label.local_id.as_u32() as i128)));
            }
            ExprKind::Return { value } => {
                k!("return");
                if let Some(x) = value {
                    sub!("e", *x);
                }
            }
            ExprKind::Repeat { value, count } => {
                k!("repeat");
                sub!("e", *value);
                v.push(("n", s(count)));
            }
            ExprKind::Array { fields } => {
                k!("array");
                let a = self.exprs(owner, th, fields);
                v.push(("a", a));
            }
            ExprKind::Tuple { fields } => {
                k!("tuple");
                let a = self.exprs(owner, th, fields);
                v.push(("a", a));
            }
            ExprKind::Adt(a) => {
                k!("adt");
                want_span = true;
                v.push(("d", s(self.key(a.adt_def.did()))));
                let var = a.adt_def.variant(a.variant_index);
                v.push(("vn", s(var.name)));
                let mut fs = vec![];
                for f in a.fields.iter() {
                    let fname = var.fields[f.name].name.to_string();
                    let j = self.expr(owner, th, f.expr);
                    fs.push(J::A(vec![J::S(fname), j]));
                }
                v.push(("fs", J::A(fs)));
                if let thir::AdtExprBase::Base(b) = &a.base {
                    sub!("base", b.base);
                }
            }
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => {
                return self.expr(owner, th, *source);
            }
            ExprKind::Closure(c) => {
                k!("closure");
                v.push(("d", s(self.key(c.closure_id.to_def_id()))));
                let u = self.exprs(owner, th, &c.upvars);
                v.push(("up", u));
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind as L;
                k!("lit");
                let j = match &lit.node {
                    L::Str(x, _) => J::O(vec![("str", J::A(x.as_str().bytes().map(|b| J::I(b as i128)).collect()))]),
                    L::ByteStr(x, _) | L::CStr(x, _) => {
                        J::O(vec![("bytes", J::A(x.as_byte_str().iter().map(|b| J::I(*b as i128)).collect()))])
                    }
                    L::Byte(b) => J::O(vec![("int", J::I(*b as i128))]),
                    L::Char(c) => J::O(vec![("char", J::I(*c as u32 as i128))]),
                    L::Int(x, _) => {
                        let n = x.get() as i128;
                        J::O(vec![("int", J::I(if *neg { -n } else { n }))])
                    }
                    L::Bool(b) => J::O(vec![("bool", J::B(*b))]),
                    _ => J::Null,
                };
                v.push(("c", j));
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                k!("lit");
                let bits = lit.to_bits(lit.size());
                let j = match e.ty.kind() {
                    ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
                    ty::Char => J::O(vec![("char", J::I(bits as i128))]),
                    _ => J::O(vec![("int", J::I(bits as i128))]),
                };
                v.push(("c", j));
            }
            ExprKind::ZstLiteral { .. } => {
                if let ty::FnDef(d, a) = e.ty.kind() {
                    k!("fn");
                    let a = a.no_bound_vars();
                    let f = self.fndef(*d, a);
                    v.push(("f", f));
                    if let Some(a) = a {
                        if let Some(r) = self.resolve(owner, *d, a) {
                            v.push(("r", r));
                        }
                    }
                    let out = e.ty.fn_sig(self.tcx).skip_binder().output();
                    let j = self.tyj(out);
                    v.push(("out", j));
                    want_span = true;
                } else {
                    k!("zst");
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                k!("const");
                v.push(("d", s(self.key(*def_id))));
                v.push(("n", s(self.name(*def_id))));
                let g = self.gargs(args);
                v.push(("args", g));
                if !def_id.is_local() {
                    // foreign constants of scalar type: take the evaluated value
                    let env = ty::TypingEnv::post_analysis(self.tcx, owner);
                    if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, *def_id, self.tcx.erase_and_anonymize_regions(*args)) {
                        let gid = rustc_middle::mir::interpret::GlobalId { instance: inst, promoted: None };
                        if let Ok(val) = self.tcx.const_eval_global_id(env, gid, e.span) {
                            if let Some(sc) = val.try_to_scalar_int() {
                                v.push(("val", J::I(sc.to_bits(sc.size()) as i128)));
                            }
                        }
                    }
                }
            }
            ExprKind::ConstParam { param, .. } => {
                k!("constparam");
                v.push(("n", s(param.name)));
            }
            ExprKind::StaticRef { def_id, .. } => {
                k!("static");
                v.push(("d", s(self.key(*def_id))));
            }
            ExprKind::ThreadLocalRef(d) => {
                k!("static");
                v.push(("d", s(self.key(*d))));
            }
            ExprKind::ConstBlock { did, .. } => {
                k!("constblock");
                v.push(("d", s(self.key(*did))));
            }
            ExprKind::InlineAsm(_) => k!("asm"),
            other => {
                let mut d = format!("{other:?}");
                d.truncate(60);
                k!("unknown");
                v.push(("dbg", s(d)));
            }
        }
        v.push(("t", t));
        if want_span {
            let sp = self.span(e.span);
            v.push(("sp", sp));
            if e.span.from_expansion() {
                v.push(("mac", s(e.span.ctxt().outer_expn_data().kind.descr())));
            }
        }
        J::O(v)
    }

    fn body(&mut self, d: LocalDefId) -> Option<(J, J)> {
        let (th, root) = self.tcx.thir_body(d).ok()?;
        let th = th.borrow();
        let mut ps = vec![];
        for p in th.params.iter() {
            let t = self.tyj(p.ty);
            let mut v = vec![("t", t)];
            if let Some(pt) = &p.pat {
                let j = self.pat(pt);
                v.push(("p", j));
            }
            ps.push(J::O(v));
        }
        let j = self.expr(d, &th, root);
        Some((J::A(ps), j))
    }
}

trait OnlyVariant {
    fn non_enum_variant_or_only(&self, f: rustc_abi::FieldIdx) -> String;
}
impl<'tcx> OnlyVariant for ty::AdtDef<'tcx> {
    fn non_enum_variant_or_only(&self, f: rustc_abi::FieldIdx) -> String {
        self.variant(rustc_abi::VariantIdx::from_u32(0)).fields[f].name.to_string()
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let Ok(dir) = std::env::var("FACTS_DIR") else { return };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let wanted = std::env::var("FACTS_CRATES").unwrap_or_default();
    if !wanted.split(',').any(|w| w == krate) {
        return;
    }
    let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new() };
    let ev = tcx.effective_visibilities(());
    let mut fns = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum => {
                let def = tcx.adt_def(did);
                let mut vs = vec![];
                for var in def.variants() {
                    let mut fs = vec![];
                    for f in var.fields.iter() {
                        let t = cx.tyj(tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
                        fs.push(J::O(vec![
                            ("n", s(f.name)),
                            ("t", t),
                            ("pub", J::B(f.vis.is_public())),
                        ]));
                    }
                    vs.push(J::O(vec![
                        ("n", s(var.name)),
                        ("ctor", s(format!("{:?}", var.ctor_kind()))),
                        ("fs", J::A(fs)),
                    ]));
                }
                let gen: Vec<J> = tcx.generics_of(did).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| s(p.name)).collect();
                adts.push(J::O(vec![
                    ("key", s(cx.key(did))),
                    ("name", s(cx.name(did))),
                    ("enum", J::B(def.is_enum())),
                    ("pub", J::B(ev.is_reachable(d))),
                    ("gen", J::A(gen)),
                    ("vs", J::A(vs)),
                    ("sp", cx.span(tcx.def_span(did))),
                ]));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let stj = cx.tyj(st);
                let mut v = vec![("key", s(cx.key(did))), ("self", stj), ("sp", cx.span(tcx.def_span(did)))];
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    v.push(("trait", s(cx.name(tr.def_id))));
                    let a = cx.gargs(tr.args);
                    v.push(("targs", a));
                }
                let derived = tcx.is_automatically_derived(did);
                v.push(("derived", J::B(derived)));
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    let mut iv = vec![("n", s(it.opt_name().map(|n| n.to_string()).unwrap_or_default())), ("key", s(cx.key(it.def_id)))];
                    if matches!(it.kind, ty::AssocKind::Type { .. }) {
                        let t = cx.tyj(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip());
                        iv.push(("ty", t));
                    }
                    items.push(J::O(iv));
                }
                v.push(("items", J::A(items)));
                impls.push(J::O(v));
            }
            _ => {}
        }
    }
    for d in tcx.hir_body_owners() {
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let mut v = vec![
            ("key", s(cx.key(did))),
            ("name", s(cx.name(did))),
            ("kind", s(format!("{kind:?}"))),
            ("sp", cx.span(tcx.def_span(did))),
            ("pub", J::B(ev.is_reachable(d))),
        ];
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<J> = sig.inputs().iter().map(|t| cx.tyj(*t)).collect();
                v.push(("ins", J::A(ins)));
                let o = cx.tyj(sig.output());
                v.push(("out", o));
                v.push(("const", J::B(tcx.is_const_fn(did))));
                v.push(("unsafe", J::B(!sig.safety().is_safe())));
                let mut gs = vec![];
                let mut g = Some(tcx.generics_of(did));
                while let Some(gg) = g {
                    for p in gg.own_params.iter() {
                        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                            gs.push((p.index, p.name.to_string()));
                        }
                    }
                    g = gg.parent.map(|p| tcx.generics_of(p));
                }
                gs.sort();
                v.push(("gen", J::A(gs.into_iter().map(|(_, n)| J::S(n)).collect())));
            }
            _ => {}
        }
        if let Some(i) = tcx.impl_of_assoc(did) {
            v.push(("impl", s(cx.key(i))));
        }
        if let Some(t) = tcx.trait_of_assoc(did) {
            v.push(("trait", s(cx.name(t))));
        }
        if let Some(p) = tcx.opt_parent(did) {
            v.push(("parent", s(cx.key(p))));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cx.body(d)));
        match r {
            Ok(Some((ps, b))) => {
                v.push(("params", ps));
                v.push(("body", b));
            }
            _ => v.push(("nobody", J::B(true))),
        }
        fns.push(J::O(v));
    }
    let cfgs: Vec<J> = tcx
        .sess
        .config
        .iter()
        .filter(|(k, _)| k.as_str() == "feature" || k.as_str() == "debug_assertions")
        .map(|(k, val)| s(format!("{}={}", k, val.map(|x| x.to_string()).unwrap_or_default())))
        .collect();
    let out = J::O(vec![
        ("crate", s(&krate)),
        ("cfg", J::A(cfgs)),
        ("types", J::A(std::mem::take(&mut cx.types))),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("fns", J::A(fns)),
    ]);
    let mut o = String::new();
    out.write(&mut o);
    std::fs::write(format!("{dir}/{krate}.json"), o).unwrap();
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem() == Some("rustc".as_ref()) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
