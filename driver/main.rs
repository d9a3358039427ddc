// mirfacts: a rustc driver that writes the type-checked program of one crate as JSON facts
// (functions with their generic MIR, ADTs, impls, resolved callees).  It never runs the program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

struct W(String);
impl W {
    fn s(&mut self, v: &str) {
        self.0.push('"');
        for c in v.chars() {
            match c {
                '"' => self.0.push_str("\\\""),
                '\\' => self.0.push_str("\\\\"),
                '\n' => self.0.push_str("\\n"),
                '\t' => self.0.push_str("\\t"),
                '\r' => self.0.push_str("\\r"),
                c if (c as u32) < 32 => {
                    let _ = write!(self.0, "\\u{:04x}", c as u32);
                }
                c => self.0.push(c),
            }
        }
        self.0.push('"');
    }
    fn raw(&mut self, v: &str) {
        self.0.push_str(v)
    }
    fn n<T: std::fmt::Display>(&mut self, v: T) {
        let _ = write!(self.0, "{}", v);
    }
    fn key(&mut self, k: &str) {
        self.s(k);
        self.0.push(':');
    }
    fn list<T>(&mut self, it: impl Iterator<Item = T>, mut f: impl FnMut(&mut W, T)) {
        self.0.push('[');
        let mut first = true;
        for x in it {
            if !first {
                self.0.push(',');
            }
            first = false;
            f(self, x);
        }
        self.0.push(']');
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

fn def_key(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        (
            format!("{}", loc.file.name.prefer_local_unconditionally()),
            loc.line,
        )
    }

    fn ty_s(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(t.to_string())
    }

    /// coarse head of a type: what it is once references and boxes are peeled
    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Ref(_, inner, _) => self.ty_head(*inner),
            ty::Adt(d, args) => {
                let p = def_key(self.tcx, d.did());
                if (p.ends_with("::Rc") || p.ends_with("::Box") || p.ends_with("::Arc"))
                    && args.types().next().is_some()
                {
                    self.ty_head(args.types().next().unwrap())
                } else {
                    format!("adt:{}", p)
                }
            }
            ty::Param(p) => format!("param:{}", p.name),
            ty::Dynamic(preds, ..) => match preds.principal_def_id() {
                Some(d) => format!("dyn:{}", def_key(self.tcx, d)),
                None => "dyn".into(),
            },
            ty::Closure(d, _) => format!("closure:{}", def_key(self.tcx, *d)),
            ty::Alias(..) => format!("alias:{}", self.ty_s(t)),
            _ => format!("prim:{}", self.ty_s(t)),
        }
    }

    fn place(&self, w: &mut W, body: &Body<'tcx>, p: &Place<'tcx>) {
        w.raw("[");
        w.n(p.local.as_usize());
        w.raw(",");
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut items: Vec<String> = vec![];
        for elem in p.projection.iter() {
            let mut o = W(String::new());
            match elem {
                ProjectionElem::Deref => {
                    let k = match pt.ty.kind() {
                        ty::Ref(_, _, m) if m.is_mut() => "*m",
                        ty::Ref(..) => "*",
                        ty::RawPtr(..) => "*r",
                        _ => "*b",
                    };
                    o.raw("[");
                    o.s(k);
                    o.raw("]");
                }
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pt.variant_index {
                                Some(v) => v,
                                None => rustc_abi::VariantIdx::from_usize(0),
                            };
                            d.variant(v).fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    o.raw("[\"f\",");
                    o.n(f.as_usize());
                    o.raw(",");
                    o.s(&name);
                    o.raw(",");
                    o.s(&match pt.ty.kind() {
                        ty::Adt(d, _) => def_key(self.tcx, d.did()),
                        ty::Closure(..) => "closure".to_string(),
                        _ => String::new(),
                    });
                    o.raw("]");
                }
                ProjectionElem::Index(l) => {
                    o.raw("[\"i\",");
                    o.n(l.as_usize());
                    o.raw("]");
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    o.raw("[\"ci\",");
                    o.n(offset);
                    o.raw(",");
                    o.n(min_length);
                    o.raw(",");
                    o.raw(if from_end { "true" } else { "false" });
                    o.raw("]");
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    o.raw("[\"ss\",");
                    o.n(from);
                    o.raw(",");
                    o.n(to);
                    o.raw(",");
                    o.raw(if from_end { "true" } else { "false" });
                    o.raw("]");
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    o.raw("[\"v\",");
                    o.n(v.as_usize());
                    o.raw(",");
                    o.s(&name);
                    o.raw("]");
                }
                _ => o.raw("[\"opaque\"]"),
            }
            items.push(o.0);
            pt = pt.projection_ty(self.tcx, elem);
        }
        w.list(items.into_iter(), |w, s| w.raw(&s));
        w.raw("]");
    }

    fn callee(&self, w: &mut W, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        w.raw("{");
        w.key("path");
        w.s(&def_key(tcx, d));
        w.raw(",");
        w.key("name");
        w.s(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default());
        let mut self_ty: Option<Ty<'tcx>> = None;
        if let Some(tr) = tcx.trait_of_assoc(d) {
            w.raw(",");
            w.key("trait");
            w.s(&def_key(tcx, tr));
            if let Some(t) = args.types().next() {
                self_ty = Some(t);
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            self_ty = Some(st);
        }
        if let Some(t) = self_ty {
            w.raw(",");
            w.key("self");
            w.s(&self.ty_s(t));
            w.raw(",");
            w.key("head");
            w.s(&self.ty_head(t));
        }
        w.raw(",");
        w.key("targs");
        w.list(args.types(), |w, t| w.s(&self.ty_s(t)));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            w.raw(",");
            w.key("ctor");
            let parent = tcx.parent(d);
            let (adt, variant) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                (tcx.parent(parent), tcx.item_name(parent).to_string())
            } else {
                (parent, tcx.item_name(parent).to_string())
            };
            w.raw("[");
            w.s(&def_key(tcx, adt));
            w.raw(",");
            w.s(&variant);
            w.raw("]");
        }
        if matches!(
            tcx.def_kind(d),
            DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)
        ) {
            let resolvable = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(tcx, env, d, args)
            }));
            if let Ok(Ok(Some(inst))) = resolvable {
                let rd = inst.def_id();
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(..) => "intrinsic",
                    _ => "shim",
                };
                w.raw(",");
                w.key("rkind");
                w.s(kind);
                w.raw(",");
                w.key("rpath");
                w.s(&def_key(tcx, rd));
                if rd.is_local() && kind == "item" {
                    w.raw(",");
                    w.key("local");
                    w.s(&def_key(tcx, rd));
                }
            }
        }
        w.raw("}");
    }

    fn konst(&self, w: &mut W, env: TypingEnv<'tcx>, c: &Const<'tcx>) {
        let tcx = self.tcx;
        let t = c.ty();
        w.raw("{");
        w.key("ty");
        w.s(&self.ty_s(t));
        if let ty::FnDef(d, args) = t.kind() {
            w.raw(",");
            w.key("fn");
            self.callee(w, env, *d, args.skip_binder());
            w.raw("}");
            return;
        }
        if let ty::Closure(d, _) = t.kind() {
            w.raw(",");
            w.key("closure");
            w.s(&def_key(tcx, *d));
            w.raw("}");
            return;
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                w.raw(",");
                w.key("promoted");
                w.raw("[");
                w.s(&def_key(tcx, u.def));
                w.raw(",");
                w.n(p.as_usize());
                w.raw("]}");
                return;
            }
        }
        if let Const::Unevaluated(u, _) = c {
            w.raw(",");
            w.key("item");
            w.s(&def_key(tcx, u.def));
        }
        let scalar_ty = matches!(
            t.kind(),
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char
        );
        if scalar_ty {
            if let Some(b) = c.try_eval_bits(tcx, env) {
                match t.kind() {
                    ty::Bool => {
                        w.raw(",");
                        w.key("bool");
                        w.raw(if b != 0 { "true" } else { "false" });
                    }
                    ty::Int(_) => {
                        w.raw(",");
                        w.key("int");
                        let size = match c {
                            _ => tcx.layout_of(env.as_query_input(t)).unwrap().size,
                        };
                        w.n(size.sign_extend(b));
                    }
                    _ => {
                        w.raw(",");
                        w.key("int");
                        w.n(b);
                    }
                }
            }
        } else if let Const::Val(v, _) = c {
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        w.raw(",");
                        w.key(if inner.is_str() { "str" } else { "bytes" });
                        w.s(&String::from_utf8_lossy(bytes));
                    }
                }
            }
        }
        w.raw(",");
        w.key("dbg");
        let d = ty::print::with_no_trimmed_paths!(format!("{}", c));
        w.s(&d.chars().take(200).collect::<String>());
        w.raw("}");
    }

    fn operand(&self, w: &mut W, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) {
        match o {
            Operand::Copy(p) => {
                w.raw("[\"c\",");
                self.place(w, body, p);
                w.raw("]");
            }
            Operand::Move(p) => {
                w.raw("[\"m\",");
                self.place(w, body, p);
                w.raw("]");
            }
            Operand::Constant(c) => {
                w.raw("[\"k\",");
                self.konst(w, env, &c.const_);
                w.raw("]");
            }
            Operand::RuntimeChecks(r) => {
                w.raw("[\"rc\",");
                w.s(&format!("{:?}", r));
                w.raw("]");
            }
        }
    }

    fn rvalue(&self, w: &mut W, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) {
        match r {
            Rvalue::Use(o, _) => {
                w.raw("[\"use\",");
                self.operand(w, body, env, o);
            }
            Rvalue::Repeat(o, n) => {
                w.raw("[\"rep\",");
                self.operand(w, body, env, o);
                w.raw(",");
                w.s(&n.to_string());
            }
            Rvalue::Ref(_, k, p) => {
                w.raw("[\"ref\",");
                w.s(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                });
                w.raw(",");
                self.place(w, body, p);
            }
            Rvalue::Reborrow(_, m, p) => {
                w.raw("[\"ref\",");
                w.s(if m.is_mut() { "mut" } else { "shared" });
                w.raw(",");
                self.place(w, body, p);
            }
            Rvalue::RawPtr(k, p) => {
                w.raw("[\"ref\",");
                w.s(&format!("raw{:?}", k));
                w.raw(",");
                self.place(w, body, p);
            }
            Rvalue::Cast(k, o, t) => {
                w.raw("[\"cast\",");
                w.s(&format!("{:?}", k));
                w.raw(",");
                self.operand(w, body, env, o);
                w.raw(",");
                w.s(&self.ty_s(*t));
                w.raw(",");
                w.s(&self.ty_s(o.ty(body, self.tcx)));
            }
            Rvalue::BinaryOp(op, b) => {
                w.raw("[\"bin\",");
                w.s(&format!("{:?}", op));
                w.raw(",");
                self.operand(w, body, env, &b.0);
                w.raw(",");
                self.operand(w, body, env, &b.1);
                w.raw(",");
                w.s(&self.ty_s(b.0.ty(body, self.tcx)));
            }
            Rvalue::UnaryOp(op, o) => {
                w.raw("[\"un\",");
                w.s(&format!("{:?}", op));
                w.raw(",");
                self.operand(w, body, env, o);
            }
            Rvalue::Discriminant(p) => {
                w.raw("[\"discr\",");
                self.place(w, body, p);
                // variant table so that a switch can be read by variant name
                let t = p.ty(body, self.tcx).ty;
                w.raw(",");
                w.s(&self.ty_head(t));
                w.raw(",");
                match t.kind() {
                    ty::Adt(d, _) if d.is_enum() => {
                        let ds: Vec<_> = d.discriminants(self.tcx).collect();
                        w.list(ds.into_iter(), |w, (vi, dv)| {
                            w.raw("[");
                            w.n(dv.val);
                            w.raw(",");
                            w.s(&d.variant(vi).name.to_string());
                            w.raw(",");
                            w.n(vi.as_usize());
                            w.raw("]");
                        });
                    }
                    _ => w.raw("[]"),
                }
            }
            Rvalue::Aggregate(k, ops) => {
                w.raw("[\"agg\",");
                match &**k {
                    AggregateKind::Array(_) => w.raw("[\"array\"]"),
                    AggregateKind::Tuple => w.raw("[\"tuple\"]"),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        let v = adt.variant(*vi);
                        w.raw("[\"adt\",");
                        w.s(&def_key(self.tcx, *d));
                        w.raw(",");
                        w.s(&v.name.to_string());
                        w.raw(",");
                        w.list(v.fields.iter(), |w, f| w.s(&f.name.to_string()));
                        w.raw("]");
                    }
                    AggregateKind::Closure(d, _) => {
                        w.raw("[\"closure\",");
                        w.s(&def_key(self.tcx, *d));
                        w.raw("]");
                    }
                    _ => w.raw("[\"other\"]"),
                }
                w.raw(",");
                w.list(ops.iter(), |w, o| self.operand(w, body, env, o));
            }
            Rvalue::CopyForDeref(p) => {
                w.raw("[\"use\",[\"c\",");
                self.place(w, body, p);
                w.raw("]");
            }
            Rvalue::ThreadLocalRef(_) | Rvalue::WrapUnsafeBinder(..) => {
                w.raw("[\"opaque\"");
            }
        }
        w.raw("]");
    }

    fn body(&self, w: &mut W, def: DefId, body: &Body<'tcx>) {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        w.key("argc");
        w.n(body.arg_count);
        w.raw(",");
        w.key("locals");
        w.list(body.local_decls.iter(), |w, l| {
            w.raw("[");
            w.s(&self.ty_s(l.ty));
            w.raw(",");
            w.s(&self.ty_head(l.ty));
            w.raw("]");
        });
        w.raw(",");
        w.key("spread");
        match body.spread_arg {
            Some(l) => w.n(l.as_usize()),
            None => w.raw("null"),
        }
        w.raw(",");
        w.key("vars");
        w.list(
            body.var_debug_info.iter().filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) => Some((v.name, *p)),
                _ => None,
            }),
            |w, (n, p)| {
                w.raw("[");
                w.s(n.as_str());
                w.raw(",");
                self.place(w, body, &p);
                w.raw("]");
            },
        );
        w.raw(",");
        w.key("blocks");
        w.list(body.basic_blocks.iter(), |w, bb| {
            w.raw("{");
            w.key("s");
            let mut items: Vec<String> = vec![];
            for st in &bb.statements {
                let mut o = W(String::new());
                match &st.kind {
                    StatementKind::Assign(b) => {
                        o.raw("[\"=\",");
                        self.place(&mut o, body, &b.0);
                        o.raw(",");
                        self.rvalue(&mut o, body, env, &b.1);
                        o.raw(",");
                        o.n(self.span(st.source_info.span).1);
                        o.raw("]");
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        o.raw("[\"setd\",");
                        self.place(&mut o, body, place);
                        o.raw(",");
                        o.n(variant_index.as_usize());
                        o.raw("]");
                    }
                    StatementKind::StorageDead(l) => {
                        o.raw("[\"dead\",");
                        o.n(l.as_usize());
                        o.raw("]");
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => continue,
                        _ => o.raw("[\"opaque\"]"),
                    },
                    _ => continue,
                }
                items.push(o.0);
            }
            w.list(items.into_iter(), |w, s| w.raw(&s));
            w.raw(",");
            if bb.is_cleanup {
                w.key("cleanup");
                w.raw("true,");
            }
            w.key("t");
            let term = bb.terminator();
            let (file, line) = self.span(term.source_info.span);
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    w.raw("[\"goto\",");
                    w.n(target.as_usize());
                    w.raw("]");
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    w.raw("[\"switch\",");
                    self.operand(w, body, env, discr);
                    w.raw(",");
                    w.list(targets.iter(), |w, (v, b)| {
                        w.raw("[");
                        w.n(v);
                        w.raw(",");
                        w.n(b.as_usize());
                        w.raw("]");
                    });
                    w.raw(",");
                    w.n(targets.otherwise().as_usize());
                    w.raw(",");
                    w.n(line);
                    w.raw(if discr.ty(body, self.tcx).is_bool() { ",true" } else { ",false" });
                    w.raw("]");
                }
                TerminatorKind::Return => w.raw("[\"ret\"]"),
                TerminatorKind::Unreachable => w.raw("[\"unreachable\"]"),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    w.raw("[\"resume\"]")
                }
                TerminatorKind::Drop { place, target, .. } => {
                    w.raw("[\"drop\",");
                    self.place(w, body, place);
                    w.raw(",");
                    w.n(target.as_usize());
                    w.raw("]");
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    w.raw("[\"call\",");
                    self.operand(w, body, env, func);
                    w.raw(",");
                    w.list(args.iter(), |w, a| self.operand(w, body, env, &a.node));
                    w.raw(",");
                    self.place(w, body, destination);
                    w.raw(",");
                    match target {
                        Some(t) => w.n(t.as_usize()),
                        None => w.raw("null"),
                    }
                    w.raw(",");
                    w.s(&file);
                    w.raw(",");
                    w.n(line);
                    w.raw(",");
                    let mac = fn_span.from_expansion() || term.source_info.span.from_expansion();
                    w.raw(if mac { "true" } else { "false" });
                    w.raw("]");
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    w.raw("[\"assert\",");
                    self.operand(w, body, env, cond);
                    w.raw(",");
                    w.raw(if *expected { "true" } else { "false" });
                    w.raw(",");
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            w.raw("[\"bounds\",");
                            self.operand(w, body, env, len);
                            w.raw(",");
                            self.operand(w, body, env, index);
                            w.raw("]");
                        }
                        AssertKind::Overflow(op, a, b) => {
                            w.raw("[\"overflow\",");
                            w.s(&format!("{:?}", op));
                            w.raw(",");
                            self.operand(w, body, env, a);
                            w.raw(",");
                            self.operand(w, body, env, b);
                            w.raw("]");
                        }
                        other => {
                            w.raw("[");
                            w.s(&format!("{:?}", std::mem::discriminant(other)));
                            w.raw("]");
                        }
                    }
                    w.raw(",");
                    w.n(target.as_usize());
                    w.raw(",");
                    w.n(line);
                    w.raw("]");
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    w.raw("[\"goto\",");
                    w.n(real_target.as_usize());
                    w.raw("]");
                }
                other => {
                    w.raw("[\"other\",");
                    w.s(&format!("{:?}", std::mem::discriminant(other)));
                    w.raw("]");
                }
            }
            w.raw("}");
        });
    }
}

/// `unsafe` blocks written in this crate (those the standard library's macros bring along are not)
struct Unsafety<'tcx> {
    tcx: TyCtxt<'tcx>,
    lines: Vec<usize>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafety<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let own = !b.span.from_expansion()
                || b.span.ctxt().outer_expn_data().macro_def_id.map_or(true, |d| d.is_local());
            if own {
                let sm = self.tcx.sess.source_map();
                self.lines.push(sm.lookup_char_pos(b.span.source_callsite().lo()).line);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let cx = Cx { tcx };
    let mut w = W(String::new());
    w.raw("{");
    w.key("crate");
    w.s(tcx.crate_name(LOCAL_CRATE).as_str());
    w.raw(",");
    w.key("debug_assertions");
    w.raw(if tcx.sess.opts.debug_assertions { "true" } else { "false" });
    w.raw(",");
    w.key("fns");
    let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    w.list(keys.iter(), |w, ld| {
        let def = ld.to_def_id();
        let kind = tcx.def_kind(def);
        w.raw("{");
        w.key("id");
        w.s(&def_key(tcx, def));
        w.raw(",");
        w.key("kind");
        w.s(&format!("{:?}", kind));
        let sp = tcx.def_span(def);
        let (f, l) = cx.span(sp);
        w.raw(",");
        w.key("file");
        w.s(&f);
        w.raw(",");
        w.key("line");
        w.n(l);
        w.raw(",");
        w.key("name");
        w.s(&tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default());
        w.raw(",");
        w.key("parent");
        w.s(&def_key(tcx, tcx.typeck_root_def_id(def)));
        let root = tcx.typeck_root_def_id(def);
        if let Some(im) = tcx.impl_of_assoc(root) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            w.raw(",");
            w.key("self");
            w.s(&cx.ty_s(st));
            w.raw(",");
            w.key("head");
            w.s(&cx.ty_head(st));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                w.raw(",");
                w.key("trait");
                w.s(&def_key(tcx, tr.skip_binder().def_id));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(root) {
            w.raw(",");
            w.key("intrait");
            w.s(&def_key(tcx, tr));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            w.raw(",");
            w.key("pub");
            w.raw(if tcx.visibility(def).is_public() { "true" } else { "false" });
            w.raw(",");
            w.key("unsafe");
            let sig = tcx.fn_sig(def).skip_binder();
            w.raw(if sig.safety().is_safe() { "false" } else { "true" });
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            if let Some(hb) = tcx.hir_maybe_body_owned_by(*ld) {
                let mut u = Unsafety { tcx, lines: vec![] };
                rustc_hir::intravisit::Visitor::visit_body(&mut u, hb);
                if !u.lines.is_empty() {
                    w.raw(",");
                    w.key("unsafe_blocks");
                    w.list(u.lines.iter(), |w, l| w.n(l));
                }
            }
            w.raw(",");
            let body = tcx.optimized_mir(def);
            cx.body(w, def, body);
            w.raw(",");
            w.key("promoted");
            let prom = tcx.promoted_mir(def);
            w.list(prom.iter(), |w, b| {
                w.raw("{");
                cx.body(w, def, b);
                w.raw("}");
            });
        }
        w.raw("}");
    });
    w.raw(",");
    w.key("adts");
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(d),
            DefKind::Impl { .. } => impls.push(d),
            DefKind::Trait => traits.push(d),
            DefKind::Static { mutability, .. } => statics.push((d, mutability.is_mut())),
            _ => {}
        }
    }
    w.list(adts.iter(), |w, d| {
        let a = tcx.adt_def(*d);
        w.raw("{");
        w.key("path");
        w.s(&def_key(tcx, *d));
        let (f, l) = cx.span(tcx.def_span(*d));
        w.raw(",");
        w.key("file");
        w.s(&f);
        w.raw(",");
        w.key("line");
        w.n(l);
        w.raw(",");
        w.key("enum");
        w.raw(if a.is_enum() { "true" } else { "false" });
        w.raw(",");
        w.key("variants");
        w.list(a.variants().iter(), |w, v| {
            w.raw("[");
            w.s(v.name.as_str());
            w.raw(",");
            w.list(v.fields.iter(), |w, fd| {
                w.raw("[");
                w.s(fd.name.as_str());
                w.raw(",");
                w.s(&cx.ty_s(tcx.type_of(fd.did).instantiate_identity().skip_norm_wip()));
                w.raw(",");
                w.raw(if fd.vis.is_public() { "true" } else { "false" });
                w.raw("]");
            });
            w.raw("]");
        });
        w.raw("}");
    });
    w.raw(",");
    w.key("impls");
    w.list(impls.iter(), |w, d| {
        w.raw("{");
        let st = tcx.type_of(*d).instantiate_identity().skip_norm_wip();
        w.key("self");
        w.s(&cx.ty_s(st));
        w.raw(",");
        w.key("head");
        w.s(&cx.ty_head(st));
        w.raw(",");
        w.key("trait");
        match tcx.impl_opt_trait_ref(*d) {
            Some(tr) => w.s(&def_key(tcx, tr.skip_binder().def_id)),
            None => w.raw("null"),
        }
        w.raw(",");
        w.key("items");
        w.list(tcx.associated_item_def_ids(*d).iter(), |w, i| w.s(&def_key(tcx, *i)));
        w.raw("}");
    });
    w.raw(",");
    w.key("traits");
    w.list(traits.iter(), |w, d| {
        w.raw("{");
        w.key("path");
        w.s(&def_key(tcx, *d));
        w.raw(",");
        w.key("items");
        w.list(tcx.associated_items(*d).in_definition_order(), |w, i| {
            w.raw("[");
            w.s(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str());
            w.raw(",");
            w.raw(if i.defaultness(tcx).has_value() { "true" } else { "false" });
            w.raw("]");
        });
        w.raw("}");
    });
    w.raw(",");
    w.key("statics");
    w.list(statics.iter(), |w, (d, m)| {
        w.raw("[");
        w.s(&def_key(tcx, *d));
        w.raw(",");
        w.s(&cx.ty_s(tcx.type_of(*d).instantiate_identity().skip_norm_wip()));
        w.raw(",");
        w.raw(if *m { "true" } else { "false" });
        let (f, l) = cx.span(tcx.def_span(*d));
        w.raw(",");
        w.s(&f);
        w.raw(",");
        w.n(l);
        w.raw("]");
    });
    w.raw("}");
    std::fs::write(out, w.0).expect("write facts");
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            if tcx.dcx().has_errors().is_none() {
                dump(tcx, o);
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER the first argument is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let is_want = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == want)
        && !args.iter().any(|a| a == "--test");
    let out = if is_want { std::env::var("MIRFACTS_OUT").ok() } else { None };
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
