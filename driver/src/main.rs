//! rustc wrapper (RUSTC_WORKSPACE_WRAPPER): compiles as usual and, for the crate under analysis,
//! dumps the MIR of every body *as built* (before borrowck, drop elaboration and optimisation)
//! with types, resolved callees and evaluated constants as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_data_structures::steal::Steal;
use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

type MirBuilt = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIG: OnceLock<MirBuilt> = OnceLock::new();

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

fn mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let r = ORIG.get().unwrap()(tcx, def);
    let b: Body<'tcx> = r.borrow().clone();
    // SAFETY: only read while `tcx` is alive (in after_analysis of the same session)
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|m| m.borrow_mut().insert(def, b));
    r
}

// ---------------------------------------------------------------- JSON
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&format!("\"{k}\":"));
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn id(&self, d: DefId) -> String {
        self.tcx.def_path(d).to_string_no_crate_verbose()
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        self.ty_d(t, 0)
    }
    fn ty_d(&self, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 6 {
            return J::A(vec![s("other"), s("deep")]);
        }
        let n = depth + 1;
        match t.kind() {
            ty::Bool => J::A(vec![s("bool")]),
            ty::Char => J::A(vec![s("char")]),
            ty::Str => J::A(vec![s("str")]),
            ty::Int(_) | ty::Uint(_) => J::A(vec![s("int"), s(t.to_string())]),
            ty::Ref(_, u, m) => J::A(vec![s("ref"), J::B(m.is_mut()), self.ty_d(*u, n)]),
            ty::RawPtr(u, m) => J::A(vec![s("ptr"), J::B(m.is_mut()), self.ty_d(*u, n)]),
            ty::Adt(d, a) => {
                let mut v = vec![s("adt"), s(self.path(d.did()))];
                v.extend(a.types().map(|x| self.ty_d(x, n)));
                J::A(v)
            }
            ty::Tuple(ts) => {
                let mut v = vec![s("tuple")];
                v.extend(ts.iter().map(|x| self.ty_d(x, n)));
                J::A(v)
            }
            ty::Closure(d, _) => J::A(vec![s("closure"), s(self.id(*d))]),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let mut v = vec![s("fndef"), s(self.path(*d))];
                v.extend(a.types().map(|x| self.ty_d(x, n)));
                J::A(v)
            }
            ty::Slice(u) => J::A(vec![s("slice"), self.ty_d(*u, n)]),
            ty::Array(u, _) => J::A(vec![s("array"), self.ty_d(*u, n)]),
            ty::Param(p) => J::A(vec![s("param"), s(p.name.to_string())]),
            ty::Never => J::A(vec![s("never")]),
            ty::Dynamic(..) => J::A(vec![s("dyn"), s(with_no_trimmed_paths!(t.to_string()))]),
            _ => J::A(vec![s("other"), s(with_no_trimmed_paths!(t.to_string()))]),
        }
    }

    fn callee(&self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", s(self.path(did))),
            ("local", J::B(did.is_local())),
            ("id", s(self.id(did))),
            ("args", J::A(args.types().map(|t| self.ty(t)).collect())),
        ];
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(self.path(tr))));
            o.push(("name", s(tcx.item_name(did).to_string())));
        }
        if !matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, did, args) {
                let r = i.def_id();
                let k = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                o.push(("res", s(self.path(r))));
                o.push(("res_id", s(self.id(r))));
                o.push(("res_local", J::B(r.is_local())));
                o.push(("res_kind", s(k)));
            }
        } else {
            o.push(("ctor", J::B(true)));
        }
        J::O(o)
    }

    fn alloc_bytes(&self, sc: Scalar, t: Ty<'tcx>) -> Option<J> {
        let ptr = sc.to_pointer(&self.tcx);
        let prov = ptr.provenance?;
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(prov.alloc_id()) else {
            return None;
        };
        let a = a.inner();
        let _ = t;
        let n = a.len();
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
        Some(J::A(b.iter().map(|x| J::I(*x as i128)).collect()))
    }

    fn const_(&self, c: &Const<'tcx>, env: TypingEnv<'tcx>, span: rustc_span::Span) -> J {
        let t = c.ty();
        let mut o = vec![("ty", self.ty(t))];
        if let ty::FnDef(d, a) = t.kind() {
            o.push(("fn", self.callee(*d, a.skip_binder(), env)));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("named", s(self.path(u.def))));
        }
        let v = c.eval(self.tcx, env, span);
        if let Ok(v) = v {
            match v {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let size = i.size();
                    let bits = i.to_bits(size);
                    let val = match t.kind() {
                        ty::Int(_) => size.sign_extend(bits),
                        _ => bits as i128,
                    };
                    o.push(("int", J::I(val)));
                }
                ConstValue::Scalar(sc) => {
                    if let Some(b) = self.alloc_bytes(sc, t) {
                        o.push(("bytes", b));
                    }
                    if let Scalar::Ptr(p, _) = sc {
                        if let GlobalAlloc::Static(d) = self.tcx.global_alloc(p.provenance.alloc_id()) {
                            o.push(("static", s(self.path(d))));
                        }
                    }
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                    }
                }
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Indirect { alloc_id, .. } => {
                    if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                        let a = a.inner();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                        o.push(("indirect", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                    }
                }
            }
        }
        J::O(o)
    }

    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut proj = vec![];
        for (base, e) in p.iter_projections() {
            proj.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, ft) => {
                    let bt = base.ty(&body.local_decls, self.tcx);
                    let mut name = f.index().to_string();
                    if let ty::Adt(d, _) = bt.ty.kind() {
                        let v = if d.is_enum() {
                            bt.variant_index.map(|v| d.variant(v))
                        } else {
                            Some(d.non_enum_variant())
                        };
                        if let Some(v) = v {
                            name = v.fields[f].name.to_string();
                        }
                    }
                    J::A(vec![s("f"), J::I(f.index() as i128), s(name), self.ty(ft)])
                }
                ProjectionElem::Downcast(n, i) => J::A(vec![
                    s("d"),
                    J::I(i.index() as i128),
                    s(n.map(|x| x.to_string()).unwrap_or_default()),
                ]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.index() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(vec![J::I(p.local.index() as i128), J::A(proj)])
    }

    fn op(&self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p, body)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p, body)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.const_(&c.const_, env, c.span)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("other"), s(format!("{o:?}"))]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, body, env)]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                s(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                }),
                self.place(p, body),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(p, body)]),
            Rvalue::BinaryOp(op, b) => J::A(vec![
                s("bin"),
                s(format!("{op:?}")),
                self.op(&b.0, body, env),
                self.op(&b.1, body, env),
            ]),
            Rvalue::UnaryOp(op, a) => {
                J::A(vec![s("un"), s(format!("{op:?}")), self.op(a, body, env)])
            }
            Rvalue::Cast(k, o, t) => J::A(vec![
                s("cast"),
                s(format!("{k:?}")),
                self.op(o, body, env),
                self.ty(*t),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let vs = match t.kind() {
                    ty::Adt(d, _) if d.is_enum() => d
                        .discriminants(self.tcx)
                        .map(|(v, x)| {
                            J::A(vec![J::I(x.val as i128), s(d.variant(v).name.to_string())])
                        })
                        .collect(),
                    _ => vec![],
                };
                J::A(vec![s("discr"), self.place(p, body), self.ty(t), J::A(vs)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p, body)])])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = J::A(ops.iter().map(|o| self.op(o, body, env)).collect());
                let k = match &**k {
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let vd = ad.variant(*v);
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            s(vd.name.to_string()),
                            J::A(vd.fields.iter().map(|f| s(f.name.to_string())).collect()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.id(*d))]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), k, ops])
            }
            Rvalue::Repeat(o, _) => J::A(vec![s("repeat"), self.op(o, body, env)]),
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            x => format!("{x:?}"),
        };
        J::A(vec![s(f), J::I(lo.line as i128)])
    }

    fn mac(&self, sp: rustc_span::Span) -> J {
        // names of the macros this span was expanded from, innermost first
        J::A(
            sp.macro_backtrace()
                .take(6)
                .map(|e| s(e.kind.descr().to_string()))
                .collect(),
        )
    }

    fn body(&self, def: LocalDefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let env = TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(did));
        let mut o = vec![
            ("id", s(self.id(did))),
            ("path", s(self.path(did))),
            ("kind", s(format!("{:?}", tcx.def_kind(did)))),
            ("span", self.span(tcx.def_span(did))),
            ("mac", self.mac(tcx.def_span(did))),
            ("nargs", J::I(body.arg_count as i128)),
        ];
        let root = tcx.typeck_root_def_id(did);
        if let Some(imp) = tcx.impl_of_assoc(root) {
            o.push(("impl_self", self.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
            if matches!(tcx.def_kind(imp), DefKind::Impl { of_trait: true }) {
                let tr = tcx.impl_trait_ref(imp);
                o.push(("impl_trait", s(self.path(tr.skip_binder().def_id))));
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            o.push(("vis", J::B(tcx.visibility(did).is_public())));
            o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(def))));
        }
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upnames = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                } else {
                    upnames.push(J::A(vec![s(v.name.to_string()), self.place(p, body)]));
                }
            }
        }
        o.push(("upvars", J::A(upnames)));
        o.push((
            "locals",
            J::A(body
                .local_decls
                .iter_enumerated()
                .map(|(i, l)| {
                    J::A(vec![
                        self.ty(l.ty),
                        names.get(&i.index()).map(|n| s(n.clone())).unwrap_or(J::Null),
                    ])
                })
                .collect()),
        ));
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(a) => st.push(J::A(vec![
                        s("="),
                        self.place(&a.0, body),
                        self.rvalue(&a.1, body, env),
                        self.span(x.source_info.span),
                    ])),
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), J::I(l.index() as i128)]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![
                        s("setdiscr"),
                        self.place(place, body),
                        J::I(variant_index.index() as i128),
                    ])),
                    _ => {}
                }
            }
            let t = b.terminator();
            let bbj = |b: BasicBlock| J::I(b.index() as i128);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbj(*target)]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), bbj(*real_target)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), bbj(*real_target)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::I(v as i128), bbj(b)]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        self.op(discr, body, env),
                        J::A(ts),
                        bbj(targets.otherwise()),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![s("drop"), self.place(place, body), bbj(*target)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "divzero",
                        AssertKind::RemainderByZero(..) => "remzero",
                        _ => "other",
                    };
                    J::A(vec![
                        s("assert"),
                        self.op(cond, body, env),
                        J::B(*expected),
                        s(kind),
                        bbj(*target),
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let f = match fty.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.skip_binder(), env),
                        _ => J::O(vec![("dyn", self.op(func, body, env))]),
                    };
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(args.iter().map(|a| self.op(&a.node, body, env)).collect()),
                        self.place(destination, body),
                        target.map(bbj).unwrap_or(J::Null),
                    ])
                }
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                x => J::A(vec![s("other"), s(format!("{x:?}"))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", term),
                ("sp", self.span(t.source_info.span)),
                ("m", self.mac(t.source_info.span)),
                ("c", J::B(b.is_cleanup)),
            ]));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }

    fn adts(&self) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                continue;
            }
            let ad = tcx.adt_def(did);
            let variants = ad
                .variants()
                .iter()
                .map(|vd| {
                    J::O(vec![
                        ("name", s(vd.name.to_string())),
                        (
                            "fields",
                            J::A(vd
                                .fields
                                .iter()
                                .map(|f| {
                                    J::A(vec![
                                        s(f.name.to_string()),
                                        self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                    ])
                                })
                                .collect()),
                        ),
                    ])
                })
                .collect();
            v.push(J::O(vec![
                ("path", s(self.path(did))),
                ("kind", s(format!("{:?}", tcx.def_kind(did)))),
                ("span", self.span(tcx.def_span(did))),
                ("variants", J::A(variants)),
            ]));
        }
        J::A(v)
    }
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_built);
            p.queries.mir_built = mir_built;
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let d = D { tcx };
        let mut bodies = vec![];
        for def in tcx.hir_body_owners() {
            let b: Option<Body<'static>> = BODIES.with(|m| m.borrow().get(&def).cloned());
            if let Some(b) = b {
                // SAFETY: same tcx the body was built with
                let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                bodies.push(d.body(def, &b));
            }
        }
        let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable");
        let out = J::O(vec![
            ("crate", s(crate_name.clone())),
            ("bin", J::B(is_bin)),
            ("adts", d.adts()),
            ("bodies", J::A(bodies)),
        ]);
        let mut o = String::new();
        out.w(&mut o);
        let dir = std::env::var("MIRDUMP_DIR").expect("MIRDUMP_DIR");
        let f = format!("{dir}/{crate_name}.{}.json", if is_bin { "bin" } else { "lib" });
        std::fs::write(f, o).expect("write dump");
        Compilation::Continue
    }
}

struct Nop;
impl rustc_driver_impl::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // wrapper: argv[1] is the real rustc
    let probing = !args.iter().any(|a| a == "--crate-name")
        || args.iter().any(|a| a.starts_with("build_script"))
        || args.iter().any(|a| a == "--test");
    if probing || std::env::var("MIRDUMP_DIR").is_err() {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Nop);
    } else {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
    }
}
