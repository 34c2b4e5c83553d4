//! mirdump: a rustc driver that writes the MIR of every body of the crate it
//! compiles as JSON (generic, not monomorphised, closures included), together
//! with the crate's ADTs, impls and traits.  It only reads what rustc computed from the
//! source; nothing of the crate under analysis is run.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;

enum J {
    S(String),
    N(i128),
    B(bool),
    Null,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(x) => esc(x, o),
            J::N(n) => o.push_str(&n.to_string()),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // a stable, unambiguous path:  crate::module::{impl#n}::item
        let mut p = String::from(self.tcx.crate_name(d.krate).as_str());
        p.push_str(&self.tcx.def_path(d).to_string_no_crate_verbose());
        p
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a.iter()
            .filter_map(|g| {
                if let Some(t) = g.as_type() {
                    Some(self.ty(t))
                } else if let Some(c) = g.as_const() {
                    Some(J::A(vec![s("const"), s(format!("{}", c))]))
                } else {
                    None
                }
            })
            .collect())
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        use rustc_middle::ty::*;
        match t.kind() {
            Bool | Char | Int(_) | Uint(_) | Float(_) | Str | Never => J::A(vec![s("prim"), s(format!("{}", t))]),
            Adt(d, a) => J::A(vec![s("adt"), s(self.path(d.did())), self.args(a)]),
            Array(t, _) => J::A(vec![s("array"), self.ty(*t)]),
            Slice(t) => J::A(vec![s("slice"), self.ty(*t)]),
            RawPtr(t, _) => J::A(vec![s("ptr"), self.ty(*t)]),
            Ref(_, t, m) => J::A(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shr" }), self.ty(*t)]),
            Tuple(ts) => {
                let mut v = vec![s("tuple")];
                v.extend(ts.iter().map(|t| self.ty(t)));
                J::A(v)
            }
            Param(p) => J::A(vec![s("param"), J::N(p.index as i128), s(p.name.as_str())]),
            Closure(d, a) => {
                // parent generics only: the signature and upvar types are in the body
                let n = a.as_closure().parent_args();
                let parent: Vec<J> = n.iter().filter_map(|g| g.as_type().map(|t| self.ty(t))).collect();
                J::A(vec![s("closure"), s(self.path(*d)), J::A(parent)])
            }
            FnDef(d, a) => J::A(vec![s("fndef"), s(self.path(*d)), self.args(a.skip_binder())]),
            _ => J::A(vec![s("other"), s(format!("{}", t))]),
        }
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_remapped_unconditionally().to_string(), lo.line))
    }
    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut out = vec![J::N(p.local.as_usize() as i128)];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            out.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref"), self.ty(pt.ty)]),
                ProjectionElem::Field(f, _) => J::A(vec![s("field"), J::N(f.as_usize() as i128), self.ty(pt.ty)]),
                ProjectionElem::Index(l) => J::A(vec![s("index"), J::N(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("cindex"), J::N(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("downcast"), J::N(v.as_usize() as i128)]),
                _ => J::A(vec![s("otherproj")]),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(out)
    }
    fn operand(&self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(body, *p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(body, *p)]),
            Operand::Constant(c) => self.konst(owner, &c.const_),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("otherop"), s(format!("{:?}", o))]),
        }
    }
    fn konst(&self, owner: DefId, c: &Const<'tcx>) -> J {
        let t = c.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return J::A(vec![s("fn"), self.callee(owner, *d, a.skip_binder())]);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return J::A(vec![s("promoted"), s(self.path(u.def)), J::N(p.as_usize() as i128), self.ty(t)]);
            }
        }
        let env = ty::TypingEnv::post_analysis(self.tcx, owner);
        let v = c.eval(self.tcx, env, rustc_span::DUMMY_SP);
        match v {
            Ok(v) => {
                let txt = format!("{}", Const::Val(v, t));
                J::A(vec![s("const"), s(txt), self.ty(t)])
            }
            Err(_) => {
                let name = match c {
                    Const::Unevaluated(u, _) => self.path(u.def),
                    _ => format!("{}", c),
                };
                J::A(vec![s("uconst"), s(name), self.ty(t)])
            }
        }
    }
    fn callee(&self, owner: DefId, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(d))), ("args", self.args(a))];
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            o.push(("method", s(tcx.item_name(d).as_str())));
        }
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let ea = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, ea) {
            let rd = i.def_id();
            if rd != d {
                o.push(("rpath", s(self.path(rd))));
                o.push(("rargs", self.args(i.args)));
            }
            o.push(("shim", J::B(!matches!(i.def, ty::InstanceKind::Item(_)))));
        }
        J::O(o)
    }
    fn rvalue(&self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(owner, body, o);
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), op(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), op(o), s(format!("{}", n))]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), s(if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shr" }), self.place(body, *p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("raw"), self.place(body, *p)]),
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), op(o), self.ty(*t)]),
            Rvalue::BinaryOp(b, x) => J::A(vec![s("bin"), s(format!("{:?}", b)), op(&x.0), op(&x.1), self.ty(x.0.ty(&body.local_decls, self.tcx))]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), op(o)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, *p), self.ty(p.ty(&body.local_decls, self.tcx).ty)]),
            Rvalue::Aggregate(k, fs) => {
                let fs = J::A(fs.iter().map(|o| op(o)).collect());
                let k = match &**k {
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Adt(d, v, a, _, _) => J::A(vec![s("adt"), s(self.path(*d)), J::N(v.as_usize() as i128), self.args(a)]),
                    AggregateKind::Closure(d, a) => {
                        let pa = a.as_closure().parent_args();
                        let parent: Vec<J> = pa.iter().filter_map(|g| g.as_type().map(|t| self.ty(t))).collect();
                        J::A(vec![s("closure"), s(self.path(*d)), J::A(parent)])
                    }
                    _ => J::A(vec![s("otheragg")]),
                };
                J::A(vec![s("agg"), k, fs])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(body, *p)])]),
            _ => J::A(vec![s("otherrv"), s(format!("{:?}", r))]),
        }
    }
    fn body(&self, owner: DefId, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        st.push(J::A(vec![s("assign"), self.place(body, b.0), self.rvalue(owner, body, &b.1), self.span(x.source_info.span)]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("setdiscr"), self.place(body, **place), J::N(variant_index.as_usize() as i128)]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbn = |b: &BasicBlock| J::N(b.as_usize() as i128);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbn(target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, b) in targets.iter() {
                        v.push(J::A(vec![s(format!("{}", val)), bbn(&b)]))
                    }
                    J::A(vec![
                        s("switch"),
                        self.operand(owner, body, discr),
                        J::A(v),
                        bbn(&targets.otherwise()),
                        self.ty(discr.ty(&body.local_decls, self.tcx)),
                        sp,
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(body, *place), bbn(target)]),
                TerminatorKind::Call { func, args, destination, target, .. } => J::A(vec![
                    s("call"),
                    self.operand(owner, body, func),
                    J::A(args.iter().map(|a| self.operand(owner, body, &a.node)).collect()),
                    self.place(body, *destination),
                    match target {
                        Some(b) => bbn(b),
                        None => J::Null,
                    },
                    sp,
                    self.ty(destination.ty(&body.local_decls, self.tcx).ty),
                ]),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => J::A(vec![
                    s("assert"),
                    self.operand(owner, body, cond),
                    J::B(*expected),
                    bbn(target),
                    s(format!("{:?}", msg).chars().take(60).collect::<String>()),
                    sp,
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbn(real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbn(real_target)]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                _ => J::A(vec![s("otherterm"), s(format!("{:?}", t.kind))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", term), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(body, p)]));
            }
        }
        vec![
            ("nargs", J::N(body.arg_count as i128)),
            ("spread", match body.spread_arg { Some(l) => J::N(l.as_usize() as i128), None => J::Null }),
            ("locals", J::A(body.local_decls.iter().map(|l| self.ty(l.ty)).collect())),
            ("vars", J::A(names)),
            ("blocks", J::A(blocks)),
            ("span", self.span(body.span)),
        ]
    }
    fn generics(&self, d: DefId) -> J {
        let mut v = vec![];
        let mut g = self.tcx.generics_of(d);
        loop {
            for p in g.own_params.iter() {
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    v.push((p.index, p.name.to_string()))
                }
            }
            match g.parent {
                Some(p) => g = self.tcx.generics_of(p),
                None => break,
            }
        }
        v.sort();
        J::A(v.into_iter().map(|(i, n)| J::A(vec![J::N(i as i128), s(n)])).collect())
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let cx = Cx { tcx };
        let mut fns = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let body = tcx.optimized_mir(d);
            let mut o = vec![("path", s(cx.path(d))), ("kind", s(format!("{:?}", kind)))];
            o.push(("pretty", s(tcx.def_path_str(d))));
            o.push(("generics", cx.generics(d)));
            o.push(("vis", J::B(kind != DefKind::Closure && tcx.visibility(d).is_public())));
            o.push(("derived", J::B(tcx.opt_parent(d).map_or(false, |p| matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p)))));
            if kind != DefKind::Closure {
                o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    o.push(("impl", s(cx.path(imp))));
                }
                o.push(("name", s(tcx.item_name(d).as_str())));
            }
            o.extend(cx.body(d, body));
            let pr = tcx.promoted_mir(d);
            o.push(("promoted", J::A(pr.iter().map(|b| J::O(cx.body(d, b))).collect())));
            fns.push(J::O(o));
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let a = tcx.adt_def(d);
                    let vs = a
                        .variants()
                        .iter()
                        .map(|v| {
                            J::O(vec![
                                ("name", s(v.name.as_str())),
                                ("fields", J::A(v.fields.iter().map(|f| J::A(vec![s(f.name.as_str()), cx.ty(tcx.type_of(f.did).skip_binder()), J::B(tcx.visibility(f.did).is_public())])).collect())),
                            ])
                        })
                        .collect();
                    adts.push(J::O(vec![("path", s(cx.path(d))), ("variants", J::A(vs)), ("generics", cx.generics(d)), ("span", cx.span(tcx.def_span(d)))]));
                }
                DefKind::Impl { of_trait } => {
                    let mut o = vec![("path", s(cx.path(d))), ("self", cx.ty(tcx.type_of(d).skip_binder())), ("generics", cx.generics(d))];
                    o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                    o.push(("span", cx.span(tcx.def_span(d))));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).skip_binder();
                        o.push(("trait", s(cx.path(tr.def_id))));
                        o.push(("traitargs", cx.args(tr.args)));
                    }
                    let items: Vec<J> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter_map(|i| {
                            let k = if i.is_fn() { "fn" } else { "other" };
                            Some(J::A(vec![s(k), s(i.name().as_str()), s(cx.path(i.def_id))]))
                        })
                        .collect();
                    o.push(("items", J::A(items)));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let items: Vec<J> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|i| J::A(vec![s(if i.is_fn() { "fn" } else { "other" }), s(i.name().as_str()), s(cx.path(i.def_id)), J::B(tcx.defaultness(i.def_id).has_value())]))
                        .collect();
                    traits.push(J::O(vec![("path", s(cx.path(d))), ("items", J::A(items))]));
                }
                _ => {}
            }
        }
        let top = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        std::fs::write(&self.out, o).expect("write");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
}
