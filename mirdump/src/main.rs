//! rustc wrapper that exports the type-checked, borrow-checked MIR of the
//! workspace crates as JSON, for the analyses in /verif/sa.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER; writes $MIRDUMP_OUT/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(t: T) -> J {
    J::Str(t.into())
}
fn n<T: TryInto<i128>>(t: T) -> J {
    J::Num(t.try_into().ok().unwrap())
}
impl J {
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(x) => write!(out, "{}", x).unwrap(),
            J::Str(x) => {
                out.push('"');
                for c in x.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 32 => write!(out, "\\u{:04x}", c as u32).unwrap(),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    write!(out, "\"{}\":", k).unwrap();
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- export
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    enums: std::cell::RefCell<std::collections::BTreeMap<String, Vec<(String, i128)>>>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!({
            let p = self.tcx.def_path_str(d);
            if d.krate == LOCAL_CRATE {
                format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p)
            } else {
                p
            }
        })
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::Arr(a.iter().filter_map(|x| x.as_type()).map(|t| self.ty(t)).collect())
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        match *t.kind() {
            ty::Bool => J::Arr(vec![s("bool")]),
            ty::Char => J::Arr(vec![s("char")]),
            ty::Int(_) | ty::Uint(_) => J::Arr(vec![s("int"), s(format!("{}", t))]),
            ty::Float(_) => J::Arr(vec![s("float"), s(format!("{}", t))]),
            ty::Str => J::Arr(vec![s("str")]),
            ty::Never => J::Arr(vec![s("never")]),
            ty::Adt(def, a) => {
                if def.is_enum() {
                    let id = self.id(def.did());
                    if !self.enums.borrow().contains_key(&id) {
                        let vs = def
                            .discriminants(self.tcx)
                            .map(|(i, d)| {
                                let v = d.val;
                                let n = match *d.ty.kind() {
                                    ty::Int(_) => {
                                        v as i64 as i128
                                    }
                                    _ => v as i128,
                                };
                                (def.variant(i).name.to_string(), n)
                            })
                            .collect();
                        self.enums.borrow_mut().insert(id, vs);
                    }
                }
                J::Arr(vec![s("adt"), s(self.id(def.did())), self.args(a)])
            }
            ty::Array(e, _) => J::Arr(vec![s("array"), self.ty(e)]),
            ty::Slice(e) => J::Arr(vec![s("slice"), self.ty(e)]),
            ty::Ref(_, e, m) => J::Arr(vec![s("ref"), J::Bool(m.is_mut()), self.ty(e)]),
            ty::RawPtr(e, m) => J::Arr(vec![s("ptr"), J::Bool(m.is_mut()), self.ty(e)]),
            ty::Tuple(l) => {
                J::Arr(vec![s("tuple"), J::Arr(l.iter().map(|t| self.ty(t)).collect())])
            }
            ty::Closure(d, _) => J::Arr(vec![s("closure"), s(self.id(d))]),
            ty::FnDef(d, a) => J::Arr(vec![s("fndef"), s(self.id(d)), self.args(a.skip_binder())]),
            ty::Param(p) => J::Arr(vec![s("param"), s(p.name.as_str())]),
            _ => J::Arr(vec![s("other"), s(with_no_trimmed_paths!(format!("{}", t)))]),
        }
    }
    fn callee(&self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("id", s(self.id(d))),
            ("path", s(self.path(d))),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("args", self.args(a)),
            ("krate", s(tcx.crate_name(d.krate).as_str())),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            o.push(("self_ty", self.ty(a.type_at(0))));
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            o.push(("self_ty", self.ty(tcx.type_of(im).instantiate(tcx, a).skip_normalization())));
        }
        let is_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
        if is_fn {
            let a2 = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, a2) {
                let rd = i.def_id();
                o.push(("resolved", s(self.id(rd))));
                o.push(("rargs", self.args(i.args)));
                o.push(("kind", s(format!("{:?}", i.def).split('(').next().unwrap().to_string())));
                o.push(("rkrate", s(tcx.crate_name(rd.krate).as_str())));
            }
            o.push(("unsafe", J::Bool(!tcx.fn_sig(d).skip_binder().safety().is_safe())));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push(("ctor", s(self.id(tcx.parent(d)))));
        }
        J::Obj(o)
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::Arr(vec![s("deref")]),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            def.variant(vi).fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_u32()),
                    };
                    let base = match pt.ty.kind() {
                        ty::Adt(def, _) => self.id(def.did()),
                        ty::Tuple(l) => format!("tuple{}", l.len()),
                        ty::Closure(..) => "closure".to_string(),
                        _ => "other".to_string(),
                    };
                    J::Arr(vec![s("field"), n(f.as_u32()), s(name), s(base)])
                }
                ProjectionElem::Index(l) => J::Arr(vec![s("index"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::Arr(vec![s("cindex"), n(offset), J::Bool(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("subslice"), n(from), n(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(name, vi) => J::Arr(vec![
                    s("downcast"),
                    n(vi.as_u32()),
                    s(match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => name.map(|x| x.to_string()).unwrap_or_default(),
                    }),
                    s(match pt.ty.kind() {
                        ty::Adt(def, _) => self.id(def.did()),
                        _ => "other".to_string(),
                    }),
                ]),
                other => J::Arr(vec![s("otherproj"), s(format!("{:?}", other))]),
            });
            pt = pt.projection_ty(tcx, e);
        }
        J::Obj(vec![("l", n(p.local.as_u32())), ("p", J::Arr(v)), ("ty", self.ty(pt.ty))])
    }
    fn konst(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", self.ty(t))];
        match t.kind() {
            ty::FnDef(d, a) => {
                o.push(("fn", self.callee(*d, a.skip_binder(), env)));
                return J::Obj(o);
            }
            _ => {}
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted", n(p.as_u32())));
                } else {
                    o.push(("uneval", s(self.id(u.def))));
                    o.push(("uneval_path", s(self.path(u.def))));
                    // the compiler's own value of an integer, boolean or character constant
                    if let Some(i) = c.const_.try_eval_scalar_int(tcx, env) {
                        let bits = i.to_bits(i.size());
                        match t.kind() {
                            ty::Bool => o.push(("bool", J::Bool(bits != 0))),
                            ty::Char => o.push((
                                "char",
                                s(char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default()),
                            )),
                            ty::Int(_) => o.push(("int", J::Num(i.to_int(i.size()) as i128))),
                            ty::Uint(_) => o.push(("int", J::Num(bits as i128))),
                            _ => {}
                        }
                    }
                }
            }
            Const::Val(v, _) => match v {
                ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
                ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    match t.kind() {
                        ty::Bool => o.push(("bool", J::Bool(bits != 0))),
                        ty::Char => o.push((
                            "char",
                            s(char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default()),
                        )),
                        ty::Int(_) => {
                            o.push(("int", J::Num(i.to_int(i.size()) as i128)))
                        }
                        _ => o.push(("int", J::Num(bits as i128))),
                    }
                }
                _ => {
                    let mut done = false;
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                                done = true;
                            }
                        }
                    }
                    if !done {
                        o.push(("opaque", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
                    }
                }
            },
            Const::Ty(_, ct) => match (c.const_.try_eval_scalar_int(tcx, env), t.kind()) {
                (Some(i), ty::Bool) => o.push(("bool", J::Bool(i.to_bits(i.size()) != 0))),
                (Some(i), ty::Char) => o.push((
                    "char",
                    s(char::from_u32(i.to_bits(i.size()) as u32).map(|c| c.to_string()).unwrap_or_default()),
                )),
                (Some(i), ty::Int(_)) => o.push(("int", J::Num(i.to_int(i.size()) as i128))),
                (Some(i), ty::Uint(_)) => o.push(("int", J::Num(i.to_bits(i.size()) as i128))),
                _ => {
                    // a string used as a pattern is a tree of bytes in the type system
                    let text = match t.kind() {
                        ty::Ref(_, inner, _) if inner.is_str() => {
                            ct.try_to_value().and_then(|v| v.try_to_raw_bytes(tcx))
                        }
                        _ => None,
                    };
                    match text {
                        Some(b) => o.push(("str", s(String::from_utf8_lossy(b).to_string()))),
                        None => o.push(("opaque", s(with_no_trimmed_paths!(format!("{}", ct))))),
                    }
                }
            },
        }
        J::Obj(o)
    }
    fn operand(&self, body: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::Arr(vec![s("copy"), self.place(body, p)]),
            Operand::Move(p) => J::Arr(vec![s("move"), self.place(body, p)]),
            Operand::Constant(c) => J::Arr(vec![s("const"), self.konst(c, env)]),
            other => J::Arr(vec![s("otherop"), s(format!("{:?}", other))]),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(body, o, env);
        match r {
            Rvalue::Use(o, ..) => J::Arr(vec![s("use"), op(o)]),
            Rvalue::Repeat(o, c) => {
                J::Arr(vec![s("repeat"), op(o), s(format!("{}", c))])
            }
            Rvalue::Ref(_, k, p) => {
                let kind = match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                };
                J::Arr(vec![s("ref"), s(kind), self.place(body, p)])
            }
            Rvalue::RawPtr(_, p) => J::Arr(vec![s("rawptr"), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => J::Arr(vec![
                s("cast"),
                s(format!("{:?}", k).split('(').next().unwrap().to_string()),
                op(o),
                self.ty(*t),
                s(format!("{:?}", k)),
            ]),
            Rvalue::BinaryOp(b, x) => {
                J::Arr(vec![s("binop"), s(format!("{:?}", b)), op(&x.0), op(&x.1)])
            }
            Rvalue::UnaryOp(u, o) => J::Arr(vec![s("unop"), s(format!("{:?}", u)), op(o)]),
            Rvalue::Discriminant(p) => J::Arr(vec![s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops = J::Arr(ops.iter().map(op).collect());
                match &**k {
                    AggregateKind::Array(_) => J::Arr(vec![s("agg"), s("array"), ops]),
                    AggregateKind::Tuple => J::Arr(vec![s("agg"), s("tuple"), ops]),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        J::Arr(vec![
                            s("agg"),
                            s("adt"),
                            ops,
                            s(self.id(*d)),
                            n(vi.as_u32()),
                            s(def.variant(*vi).name.as_str()),
                            J::Arr(
                                def.variant(*vi)
                                    .fields
                                    .iter()
                                    .map(|f| s(f.name.as_str()))
                                    .collect(),
                            ),
                            self.args(a),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        J::Arr(vec![s("agg"), s("closure"), ops, s(self.id(*d))])
                    }
                    other => J::Arr(vec![s("agg"), s("other"), ops, s(format!("{:?}", other))]),
                }
            }
            Rvalue::CopyForDeref(p) => {
                J::Arr(vec![s("use"), J::Arr(vec![s("copy"), self.place(body, p)])])
            }
            other => J::Arr(vec![s("otherrv"), s(format!("{:?}", other))]),
        }
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        s(format!(
            "{}:{}",
            loc.file.name.prefer_local_unconditionally(),
            loc.line
        ))
    }
    fn body(&self, did: DefId, body: &Body<'tcx>, name: String, kind: &str) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let locals = J::Arr(body.local_decls.iter().map(|l| self.ty(l.ty)).collect());
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::Arr(vec![s(v.name.as_str()), self.place(body, p)]));
            }
        }
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => st.push(J::Arr(vec![
                        s("assign"),
                        self.place(body, &a.0),
                        self.rvalue(body, &a.1, env),
                        self.span(x.source_info.span),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::Arr(vec![
                            s("setdiscr"),
                            self.place(body, place),
                            n(variant_index.as_u32()),
                        ]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let exp = t.source_info.span.from_expansion();
            let bbn = |b: BasicBlock| n(b.as_u32());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", bbn(*target))],
                TerminatorKind::SwitchInt { discr, targets } => vec![
                    ("k", s("switch")),
                    ("d", self.operand(body, discr, env)),
                    ("dty", self.ty(discr.ty(&body.local_decls, tcx))),
                    (
                        "cases",
                        J::Arr(
                            targets
                                .iter()
                                .map(|(v, b)| J::Arr(vec![J::Num(v as i128), bbn(b)]))
                                .collect(),
                        ),
                    ),
                    ("otherwise", bbn(targets.otherwise())),
                ],
                TerminatorKind::Return => vec![("k", s("return"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    vec![("k", s("resume"))]
                }
                TerminatorKind::Drop { place, target, .. } => vec![
                    ("k", s("drop")),
                    ("place", self.place(body, place)),
                    ("t", bbn(*target)),
                ],
                TerminatorKind::Call { func, args, destination, target, .. } => vec![
                    ("k", s("call")),
                    ("f", self.operand(body, func, env)),
                    (
                        "args",
                        J::Arr(args.iter().map(|a| self.operand(body, &a.node, env)).collect()),
                    ),
                    ("dest", self.place(body, destination)),
                    ("t", target.map(bbn).unwrap_or(J::Null)),
                ],
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::Arr(vec![
                            s("bounds"),
                            self.operand(body, len, env),
                            self.operand(body, index, env),
                        ]),
                        AssertKind::Overflow(op, a, b) => J::Arr(vec![
                            s("overflow"),
                            s(format!("{:?}", op)),
                            self.operand(body, a, env),
                            self.operand(body, b, env),
                        ]),
                        AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) => {
                            J::Arr(vec![s("div0"), self.operand(body, a, env)])
                        }
                        AssertKind::OverflowNeg(a) => {
                            J::Arr(vec![s("negoverflow"), self.operand(body, a, env)])
                        }
                        _ => J::Arr(vec![s("otherassert")]),
                    };
                    vec![
                        ("k", s("assert")),
                        ("cond", self.operand(body, cond, env)),
                        ("expected", J::Bool(*expected)),
                        ("msg", m),
                        ("t", bbn(*target)),
                    ]
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    vec![("k", s("goto")), ("t", bbn(*real_target))]
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![("k", s("goto")), ("t", bbn(*real_target))]
                }
                other => vec![("k", s("other")), ("txt", s(format!("{:?}", other)))],
            };
            let mut tj = tj;
            tj.push(("sp", sp));
            tj.push(("exp", J::Bool(exp)));
            blocks.push(J::Obj(vec![
                ("s", J::Arr(st)),
                ("t", J::Obj(tj)),
                ("cleanup", J::Bool(bb.is_cleanup)),
            ]));
        }
        let mut o = vec![
            ("id", s(name)),
            ("path", s(self.path(did))),
            ("kind", s(kind)),
            ("span", self.span(tcx.def_span(did))),
            ("argc", n(body.arg_count)),
            ("locals", locals),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ];
        let gens = tcx.generics_of(did);
        let mut gn = Vec::new();
        for i in 0..gens.count() {
            let p = gens.param_at(i, tcx);
            if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                gn.push(s(p.name.as_str()));
            }
        }
        o.push(("generics", J::Arr(gn)));
        if let Some(l) = did.as_local() {
            let ev = tcx.effective_visibilities(());
            o.push(("reachable", J::Bool(ev.is_reachable(l))));
        }
        if kind == "fn" {
            o.push(("name", s(tcx.item_name(did).as_str())));
            let sig = tcx.fn_sig(did).skip_binder();
            o.push(("unsafe", J::Bool(!sig.safety().is_safe())));
            if let Some(p) = tcx.opt_parent(did) {
                if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                    o.push(("self_ty", self.ty(tcx.type_of(p).instantiate_identity().skip_normalization())));
                    if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                        o.push(("impl_trait", s(self.path(tr.skip_binder().def_id))));
                    }
                } else if matches!(tcx.def_kind(p), DefKind::Trait) {
                    o.push(("in_trait", s(self.path(p))));
                }
            }
        }
        J::Obj(o)
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let cx = Cx { tcx, enums: Default::default() };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut bodies = Vec::new();
        for l in tcx.hir_body_owners() {
            let did = l.to_def_id();
            let (body, kind) = match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(did), "fn"),
                DefKind::Closure => (tcx.optimized_mir(did), "closure"),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    (tcx.mir_for_ctfe(did), "const")
                }
                _ => continue,
            };
            bodies.push(cx.body(did, body, cx.id(did), kind));
            for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                bodies.push(cx.body(
                    did,
                    p,
                    format!("{}#promoted{}", cx.id(did), i.as_u32()),
                    "promoted",
                ));
            }
        }
        let mut adts = Vec::new();
        let mut unsafes = Vec::new();
        let mut impls = Vec::new();
        for l in tcx.hir_crate_items(()).definitions() {
            let did = l.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(did);
                    let ev = tcx.effective_visibilities(());
                    let vars = def
                        .variants()
                        .iter()
                        .map(|v| {
                            J::Obj(vec![
                                ("name", s(v.name.as_str())),
                                (
                                    "fields",
                                    J::Arr(
                                        v.fields
                                            .iter()
                                            .map(|f| {
                                                J::Obj(vec![
                                                    ("name", s(f.name.as_str())),
                                                    ("pub", J::Bool(f.vis.is_public())),
                                                    ("vis", s(format!("{:?}", f.vis))),
                                                    (
                                                        "ty",
                                                        cx.ty(tcx
                                                            .type_of(f.did)
                                                            .instantiate_identity()
                                                            .skip_normalization()),
                                                    ),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                            ])
                        })
                        .collect();
                    adts.push(J::Obj(vec![
                        ("id", s(cx.id(did))),
                        ("path", s(cx.path(did))),
                        ("reachable", J::Bool(ev.is_reachable(l))),
                        ("span", cx.span(tcx.def_span(did))),
                        ("variants", J::Arr(vars)),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let mut o = vec![
                        ("id", s(cx.id(did))),
                        ("self_ty", cx.ty(tcx.type_of(did).instantiate_identity().skip_normalization())),
                        ("span", cx.span(tcx.def_span(did))),
                        (
                            "items",
                            J::Arr(
                                tcx.associated_item_def_ids(did)
                                    .iter()
                                    .map(|d| s(cx.id(*d)))
                                    .collect(),
                            ),
                        ),
                    ];
                    if of_trait {
                        let h = tcx.impl_trait_header(did);
                        o.push(("trait", s(cx.path(h.trait_ref.skip_binder().def_id))));
                        o.push(("unsafe", J::Bool(!h.safety.is_safe())));
                        o.push(("derived", J::Bool(tcx.is_automatically_derived(did))));
                    }
                    impls.push(J::Obj(o));
                }
                DefKind::Trait => {
                    if !tcx.trait_def(did).safety.is_safe() {
                        unsafes.push(J::Obj(vec![
                            ("kind", s("unsafe_trait")),
                            ("id", s(cx.id(did))),
                            ("span", cx.span(tcx.def_span(did))),
                        ]));
                    }
                }
                DefKind::ForeignMod => {
                    unsafes.push(J::Obj(vec![
                        ("kind", s("foreign_mod")),
                        ("id", s(cx.id(did))),
                        ("span", cx.span(tcx.def_span(did))),
                    ]));
                }
                DefKind::Static { mutability, .. } => {
                    unsafes.push(J::Obj(vec![
                        ("kind", s("static")),
                        ("id", s(cx.id(did))),
                        ("mut", J::Bool(mutability.is_mut())),
                        ("ty", cx.ty(tcx.type_of(did).instantiate_identity().skip_normalization())),
                        ("span", cx.span(tcx.def_span(did))),
                    ]));
                }
                _ => {}
            }
        }
        // explicit unsafe blocks
        struct V<'a, 'tcx>(&'a Cx<'tcx>, &'a mut Vec<J>, String);
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                    if matches!(src, rustc_hir::UnsafeSource::UserProvided) {
                        self.1.push(J::Obj(vec![
                            ("kind", s("unsafe_block")),
                            ("id", s(self.2.clone())),
                            ("span", self.0.span(b.span)),
                        ]));
                    }
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        for l in tcx.hir_body_owners() {
            if let Some(b) = tcx.hir_maybe_body_owned_by(l) {
                let mut v = V(&cx, &mut unsafes, cx.id(l.to_def_id()));
                rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
            }
        }
        let j = J::Obj(vec![
            ("crate", s(krate.clone())),
            ("bodies", J::Arr(bodies)),
            ("adts", J::Arr(adts)),
            (
                "enums",
                J::Arr(
                    cx.enums
                        .borrow()
                        .iter()
                        .map(|(k, v)| {
                            J::Arr(vec![
                                s(k.clone()),
                                J::Arr(v.iter().map(|(n, d)| J::Arr(vec![s(n.clone()), J::Num(*d)])).collect()),
                            ])
                        })
                        .collect(),
                ),
            ),
            ("impls", J::Arr(impls)),
            ("special", J::Arr(unsafes)),
        ]);
        let mut txt = String::new();
        j.write(&mut txt);
        std::fs::create_dir_all(&out).unwrap();
        std::fs::write(format!("{}/{}.json", out, krate), txt).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    if std::env::var("MIRDUMP_OUT").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=on".into());
    }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
