//! MIR extractor: runs as a rustc wrapper and, for the crates named in VP_CRATES, writes the resolved
//! program (MIR of every local body, of every instance reachable from them in the inlinable part of
//! the standard library, the types, impls and statics) as JSON to $VP_OUT/<crate>[.<tag>].json.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

/// JSON value with its own writer (no dependencies are available to a rustc_private crate).
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{i}").unwrap(),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    queue: VecDeque<(TypingEnv<'tcx>, Instance<'tcx>, String)>,
    seen: HashMap<String, ()>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}
fn tystr(t: Ty<'_>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()))
}

const INLINE: &[&str] = &[
    "core::option::", "core::result::", "core::bool::", "core::iter::", "core::ops::", "core::cmp::",
    "core::convert::", "core::clone::", "core::mem::", "core::cell::", "core::ptr::non_null::",
    "core::num::nonzero::", "core::borrow::", "alloc::borrow::", "alloc::boxed::", "core::any::",
    "core::ptr::metadata", "core::hint::",
    "<core::", "<alloc::boxed", "<alloc::borrow", "<&", "<F as", "<I as", "<T as", "<bool", "<()", "<usize",
    "core::array::", "core::default::",
];
const NOINLINE: &[&str] = &["core::iter::range", "core::mem::size_of", "core::mem::align_of", "<core::fmt",
    "core::cell::panic", "core::iter::traits::collect"];

fn inlinable(tcx: TyCtxt<'_>, d: DefId) -> bool {
    if d.is_local() {
        return true;
    }
    let p = path(tcx, d);
    if std::env::var("VP_INLINE_CRATES").is_ok_and(|v| v.split(',').any(|c| p.contains(&format!("{c}::")))) {
        return true;
    }
    INLINE.iter().any(|x| p.starts_with(x)) && !NOINLINE.iter().any(|x| p.starts_with(x))
}

impl<'tcx> Cx<'tcx> {
    fn inst_key(&self, i: Instance<'tcx>) -> String {
        let a: Vec<String> = i
            .args
            .iter()
            .filter(|a| !matches!(a.kind(), ty::GenericArgKind::Lifetime(_)))
            .map(|a| with_no_visible_paths!(with_no_trimmed_paths!(a.to_string())))
            .collect();
        format!("{}<{}>", self.dpath(i.def_id()), a.join(","))
    }
    /// A unique readable path for a def id: the printed path plus, for closures, the crate-level data.
    fn dpath(&self, d: DefId) -> String {
        let p = path(self.tcx, d);
        if p.contains("{closure") || p.contains("{impl") || p.contains("::_::") {
            let k = self.tcx.def_key(d);
            let _ = k;
            format!("{p}@{}", self.tcx.def_path(d).to_string_no_crate_verbose())
        } else {
            format!("{p}@{}", self.tcx.def_path(d).to_string_no_crate_verbose())
        }
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        J::I(self.ty_id(t, env) as i128)
    }
    fn ty_id(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::N);
        let tcx = self.tcx;
        let mut o = vec![("s", s(tystr(t)))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                let a: Vec<J> = args.types().map(|x| self.ty(x, env)).collect();
                o.push(("args", J::A(a)));
                if def.is_enum() {
                    o.push(("enum", J::B(true)));
                    let v: Vec<J> = def
                        .discriminants(tcx)
                        .map(|(i, d)| {
                            let v = if d.ty.is_signed() {
                                let sz = tcx.layout_of(env.as_query_input(d.ty)).unwrap().size;
                                sz.sign_extend(d.val)
                            } else {
                                d.val as i128
                            };
                            J::A(vec![s(def.variant(i).name.to_string()), J::I(v)])
                        })
                        .collect();
                    o.push(("variants", J::A(v)));
                }
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    o.push(("has_drop", J::B(true)));
                    if d.did.is_local() {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d.did, args) {
                            let k = self.want(env, inst);
                            o.push(("drop_inst", k));
                        }
                    }
                }
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*x, env);
                o.push(("to", x));
            }
            ty::RawPtr(x, _) => {
                o.push(("k", s("ptr")));
                let x = self.ty(*x, env);
                o.push(("to", x));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| self.ty(x, env)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.dpath(*d))));
                let a: Vec<J> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x, env)).collect();
                o.push(("args", J::A(a)));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(path(tcx, *d))));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Slice(x) | ty::Array(x, _) => {
                o.push(("k", s(if matches!(t.kind(), ty::Slice(_)) { "slice" } else { "array" })));
                let x = self.ty(*x, env);
                o.push(("to", x));
            }
            ty::Bool => o.push(("k", s("bool"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        if !t.has_escaping_bound_vars() {
            o.push(("nd", J::B(t.needs_drop(tcx, env))));
        }
        self.ty_out[id] = J::O(o);
        id
    }

    /// Queue an instance for dumping if it has MIR; returns its key or null.
    fn want(&mut self, env: TypingEnv<'tcx>, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = match i.def {
            InstanceKind::Item(d) => d,
            _ => return J::N,
        };
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
            return J::N;
        }
        if !tcx.is_mir_available(d) || !inlinable(tcx, d) {
            return J::N;
        }
        let k = self.inst_key(i);
        if k.len() > 6000 {
            return J::N;
        }
        if !self.seen.contains_key(&k) {
            self.seen.insert(k.clone(), ());
            self.queue.push_back((env, i, k.clone()));
        }
        s(k)
    }

    fn resolve(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o = vec![("path", s(path(tcx, d))), ("local", J::B(d.is_local()))];
        let a: Vec<J> = args.types().map(|t| self.ty(t, env)).collect();
        o.push(("targs", J::A(a)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
            o.push(("self", {
                let t = args.type_at(0);
                self.ty(t, env)
            }));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            let parent = tcx.parent(d);
            let (adt, vi) = if tcx.def_kind(parent) == DefKind::Variant {
                let adt = tcx.adt_def(tcx.parent(parent));
                let vi = adt.variant_index_with_id(parent);
                (adt, vi)
            } else {
                (tcx.adt_def(parent), rustc_abi::FIRST_VARIANT)
            };
            o.push(("adt", s(path(tcx, adt.did()))));
            o.push(("variant", J::I(vi.as_usize() as i128)));
            return o;
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => {
                match i.def {
                    InstanceKind::Item(x) => {
                        o.push(("rk", s("item")));
                        o.push(("rpath", s(path(tcx, x))));
                        if let Some(im) = tcx.impl_of_assoc(x) {
                            let st = tcx.type_of(im).instantiate_identity();
                            let st = st.skip_normalization();
                            o.push(("rself", s(tystr(st))));
                        }
                        let k = self.want(env, i);
                        o.push(("inst", k));
                    }
                    InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                        o.push(("rk", s("closure_once")));
                        let _ = closure;
                        let ct = i.args.type_at(0);
                        if let ty::Closure(cd, ca) = ct.kind() {
                            let ci = Instance::new_raw(*cd, ca);
                            let k = self.want(env, ci);
                            o.push(("inst", k));
                        }
                    }
                    InstanceKind::Shim(ShimKind::FnPtr(_, t)) => {
                        o.push(("rk", s("fnptr_shim")));
                        if let ty::FnDef(fd, fa) = t.kind() {
                            let fa = fa.skip_binder();
                            let sub = self.resolve(env, *fd, fa);
                            o.push(("target", J::O(sub)));
                        }
                    }
                    InstanceKind::Virtual(..) => o.push(("rk", s("virtual"))),
                    InstanceKind::Intrinsic(_) => o.push(("rk", s("intrinsic"))),
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => o.push(("rk", s("dropglue"))),
                    _ => o.push(("rk", s("shim"))),
                }
            }
            _ => o.push(("rk", s("unresolved"))),
        }
        // Iterator-consuming calls: also resolve `next`/`into_iter` of the argument types, so that the
        // analysis can model collect/extend/for_each as the loop they are.
        if !d.is_local() {
            let it = tcx.get_diagnostic_item(rustc_span::sym::Iterator);
            if let Some(it) = it {
                let next = tcx
                    .associated_items(it)
                    .in_definition_order()
                    .find(|x| x.opt_name().is_some_and(|n| n.as_str() == "next"))
                    .map(|x| x.def_id);
                let mut aux = vec![];
                for t in args.types() {
                    if t.has_escaping_bound_vars() || !matches!(t.kind(), ty::Adt(..)) {
                        continue;
                    }
                    if let Some(nd) = next {
                        let a = tcx.mk_args(&[t.into()]);
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, nd, a) {
                            if let InstanceKind::Item(x) = i.def {
                                let k = self.want(env, i);
                                aux.push(J::O(vec![
                                    ("ty", s(tystr(t))),
                                    ("rpath", s(path(tcx, x))),
                                    ("inst", k),
                                ]));
                            }
                        }
                    }
                }
                if !aux.is_empty() {
                    o.push(("aux_next", J::A(aux)));
                }
            }
        }
        o
    }

    fn place(&mut self, p: Place<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, _) => {
                    let (name, owner) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let vd = def.variant(vi);
                            (vd.fields[f].name.to_string(), path(tcx, def.did()))
                        }
                        ty::Closure(d, _) => (format!("{}", f.as_usize()), format!("closure:{}", path(tcx, *d))),
                        _ => (format!("{}", f.as_usize()), "tuple".to_string()),
                    };
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), s(name), s(owner)])
                }
                ProjectionElem::Downcast(_, vi) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => String::new(),
                    };
                    J::A(vec![s("v"), J::I(vi.as_usize() as i128), s(n)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                _ => J::A(vec![s("o")]),
            };
            v.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        let _ = env;
        J::A(v)
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", self.ty(t, env))];
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            let r = self.resolve(env, *d, a);
            o.push(("fn", J::O(r)));
            return J::O(vec![("c", J::O(o))]);
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            o.push(("static", s(path(tcx, d))));
            return J::O(vec![("c", J::O(o))]);
        }
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                o.push(("uneval", s(path(tcx, u.def))));
                if let Some(p) = u.promoted {
                    o.push(("promoted", J::I(p.as_usize() as i128)));
                    o.push(("pkey", s(format!("promoted:{}[{}]", self.dpath(u.def), p.as_usize()))));
                    self.dump_promoted_later(u.def, p);
                }
            }
            _ => {}
        }
        let has_promoted = matches!(c.const_, mir::Const::Unevaluated(u, _) if u.promoted.is_some());
        if !has_promoted && !c.const_.has_param() {
            if let Ok(v) = c.const_.eval(tcx, env, rustc_span::DUMMY_SP) {
                match v {
                    ConstValue::Scalar(sc) => {
                        if let Ok(i) = sc.try_to_scalar_int() {
                            let b = i.to_bits(i.size());
                            let val = if t.is_signed() {
                                i.size().sign_extend(b)
                            } else {
                                b as i128
                            };
                            o.push(("int", J::I(val)));
                        }
                    }
                    ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                    ConstValue::Slice { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                        }
                    }
                    _ => {}
                }
            }
        }
        o.push(("txt", s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", c.const_))))));
        J::O(vec![("c", J::O(o))])
    }

    fn dump_promoted_later(&mut self, _d: DefId, _p: Promoted) {}

    fn op(&mut self, x: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::O(vec![("p", self.place(*p, body, env))]),
            Operand::Move(p) => J::O(vec![("p", self.place(*p, body, env)), ("mv", J::B(true))]),
            Operand::Constant(c) => self.konst(c, env),
            _ => J::O(vec![("x", s(format!("{x:?}")))]),
        }
    }

    fn rv(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o, body, env)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.op(o, body, env), s(n.to_string())]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                self.place(*p, body, env),
                J::B(matches!(k, BorrowKind::Mut { .. })),
            ]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("ref"), self.place(*p, body, env), J::B(m.is_mut())])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("ref"), self.place(*p, body, env), J::B(matches!(k, RawPtrKind::Mut))])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path(tcx, *d))]),
            Rvalue::Cast(k, o, t) => {
                let kk = format!("{k:?}");
                let oo = self.op(o, body, env);
                // reified functions: resolve the target
                let from = o.ty(&body.local_decls, tcx);
                let mut extra = J::N;
                match from.kind() {
                    ty::FnDef(d, a) => {
                        let a = a.skip_binder();
                        extra = J::O(self.resolve(env, *d, a));
                    }
                    ty::Closure(d, a) => {
                        let i = Instance::new_raw(*d, a);
                        let k = self.want(env, i);
                        extra = J::O(vec![("path", s(path(tcx, *d))), ("rk", s("closure")), ("inst", k)]);
                    }
                    _ => {}
                }
                let t = self.ty(*t, env);
                let f = self.ty(from, env);
                J::A(vec![s("cast"), s(kk), oo, t, extra, f])
            }
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{b:?}")),
                self.op(&ops.0, body, env),
                self.op(&ops.1, body, env),
            ]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{u:?}")), self.op(o, body, env)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let t = self.ty(t, env);
                J::A(vec![s("disc"), self.place(*p, body, env), t])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("p", self.place(*p, body, env))])]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o, body, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let def = tcx.adt_def(*d);
                        let vd = def.variant(*vi);
                        let names: Vec<J> = match active {
                            Some(f) => vec![s(vd.fields[*f].name.to_string())],
                            None => vd.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        let t = self.ty(Ty::new_adt(tcx, def, args), env);
                        J::A(vec![
                            s("adt"),
                            s(path(tcx, *d)),
                            J::I(vi.as_usize() as i128),
                            s(vd.name.to_string()),
                            J::A(names),
                            J::B(def.is_enum()),
                            t,
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        let i = Instance::new_raw(*d, a);
                        let key = self.want(env, i);
                        J::A(vec![s("closure"), s(path(tcx, *d)), key])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let f = match f.find("dumpster") {
            Some(_) if f.starts_with('/') => f.rsplit("/repo/").next().unwrap().to_string(),
            _ => f,
        };
        s(format!("{}:{}", f, lo.line))
    }

    fn unwind(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("cont"),
            UnwindAction::Unreachable => s("unreach"),
            UnwindAction::Terminate(_) => s("term"),
            UnwindAction::Cleanup(b) => J::I(b.as_usize() as i128),
        }
    }

    fn body(&mut self, key: String, d: DefId, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("key", s(key)), ("path", s(path(tcx, d))), ("dpath", s(self.dpath(d)))];
        o.push(("local", J::B(d.is_local())));
        o.push(("kind", s(format!("{:?}", tcx.def_kind(d)))));
        o.push(("span", self.span(body.span)));
        o.push(("argc", J::I(body.arg_count as i128)));
        o.push(("spread", match body.spread_arg { Some(l) => J::I(l.as_usize() as i128), None => J::N }));
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_normalization();
            o.push(("impl_self", s(tystr(st))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_normalization();
                o.push(("impl_trait", s(path(tcx, tr.def_id))));
            }
            o.push(("impl", s(tcx.def_path(im).to_string_no_crate_verbose())));
        }
        if let Some(l) = d.as_local() {
            let p = tcx.local_parent(l);
            o.push(("parent", s(self.dpath(p.to_def_id()))));
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
                o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(l))));
                o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            }
        }
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, dcl)| {
                let t = self.ty(dcl.ty, env);
                match names.get(&l.as_usize()) {
                    Some(n) => J::A(vec![t, s(n.clone())]),
                    None => J::A(vec![t]),
                }
            })
            .collect();
        o.push(("locals", J::A(locals)));
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(*p, body, env);
                        let rj = self.rv(r, body, env);
                        st.push(J::A(vec![s("="), pj, rj, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(**place, body, env);
                        st.push(J::A(vec![s("setd"), pj, J::I(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), J::I(l.as_usize() as i128)]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), s(format!("{i:?}"))]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), J::I(target.as_usize() as i128)]),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.as_usize() as i128)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            let v = if dt.is_signed() {
                                let sz = tcx.layout_of(env.as_query_input(dt)).unwrap().size;
                                sz.sign_extend(v)
                            } else {
                                v as i128
                            };
                            J::A(vec![J::I(v), J::I(b.as_usize() as i128)])
                        })
                        .collect();
                    let dj = self.op(discr, body, env);
                    let tt = self.ty(dt, env);
                    J::A(vec![
                        s("switch"),
                        dj,
                        J::A(v),
                        J::I(targets.otherwise().as_usize() as i128),
                        tt,
                        sp,
                    ])
                }
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let tt = self.ty(t, env);
                    J::A(vec![
                        s("drop"),
                        self.place(*place, body, env),
                        tt,
                        J::I(target.as_usize() as i128),
                        Self::unwind(unwind),
                        sp,
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let callee = if let ty::FnDef(d, a) = ft.kind() {
                        let a = a.skip_binder();
                        J::O(self.resolve(env, *d, a))
                    } else {
                        J::O(vec![("ptr", self.op(func, body, env)), ("pty", s(tystr(ft)))])
                    };
                    let aj: Vec<J> = args.iter().map(|x| self.op(&x.node, body, env)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, tcx);
                            self.ty(t, env)
                        })
                        .collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dtj = self.ty(dt, env);
                    J::A(vec![
                        s("call"),
                        callee,
                        J::A(aj),
                        self.place(*destination, body, env),
                        match target {
                            Some(b) => J::I(b.as_usize() as i128),
                            None => J::N,
                        },
                        Self::unwind(unwind),
                        sp,
                        J::A(at),
                        dtj,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => J::A(vec![
                    s("assert"),
                    self.op(cond, body, env),
                    J::B(*expected),
                    J::I(target.as_usize() as i128),
                    Self::unwind(unwind),
                    s(format!("{msg:?}")),
                    sp,
                ]),
                k => J::A(vec![s("other"), s(format!("{k:?}"))]),
            };
            blocks.push(J::A(vec![J::A(st), tj, J::B(bb.is_cleanup)]));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], queue: VecDeque::new(), seen: HashMap::new() };
        let mut bodies = vec![];
        let mut consts = vec![];
        for l in tcx.hir_body_owners() {
            let d = l.to_def_id();
            let env = TypingEnv::post_analysis(tcx, d);
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let i = Instance::new_raw(d, args);
                    cx.want(env, i);
                }
                DefKind::Closure => {}
                DefKind::Const | DefKind::Static { .. } | DefKind::AssocConst | DefKind::AnonConst => {
                    if tcx.generics_of(d).requires_monomorphization(tcx) {
                        continue;
                    }
                    let b = tcx.mir_for_ctfe(d);
                    let b = tcx.erase_and_anonymize_regions(b.clone());
                    let j = cx.body(format!("const:{}", path(tcx, d)), d, &b, env);
                    consts.push(j);
                    for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                        let pb = tcx.erase_and_anonymize_regions(pb.clone());
                        let k = format!("promoted:{}[{}]", cx.dpath(d), i.as_usize());
                        let j = cx.body(k, d, &pb, env);
                        bodies.push(j);
                    }
                }
                _ => {}
            }
        }
        let mut prom_done: HashMap<DefId, ()> = HashMap::new();
        let mut n = 0;
        while let Some((env, i, key)) = cx.queue.pop_front() {
            n += 1;
            if n > 20000 {
                break;
            }
            let d = i.def_id();
            let raw = tcx.instance_mir(i.def);
            let b = match i.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                ty::EarlyBinder::bind(tcx, tcx.erase_and_anonymize_regions(raw.clone())),
            ) {
                Ok(b) => b,
                Err(_) => continue,
            };
            let j = cx.body(key, d, &b, env);
            bodies.push(j);
            if !prom_done.contains_key(&d) {
                prom_done.insert(d, ());
                for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                    let pb = tcx.erase_and_anonymize_regions(pb.clone());
                    let k = format!("promoted:{}[{}]", cx.dpath(d), pi.as_usize());
                    let j = cx.body(k, d, &pb, env);
                    bodies.push(j);
                }
            }
        }
        // items: ADTs and impls of this crate
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let env = TypingEnv::post_analysis(tcx, d);
                    let vs: Vec<J> = def
                        .variants()
                        .iter()
                        .map(|v| {
                            let fs: Vec<J> = v
                                .fields
                                .iter()
                                .map(|f| {
                                    let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                                    let tj = cx.ty(t, env);
                                    J::A(vec![
                                        s(f.name.to_string()),
                                        tj,
                                        s(format!("{:?}", f.vis)),
                                        s(tystr(t)),
                                    ])
                                })
                                .collect();
                            J::A(vec![s(v.name.to_string()), J::A(fs)])
                        })
                        .collect();
                    let r = def.repr();
                    adts.push(J::O(vec![
                        ("path", s(path(tcx, d))),
                        ("dpath", s(cx.dpath(d))),
                        ("kind", s(if def.is_struct() { "struct" } else if def.is_enum() { "enum" } else { "union" })),
                        ("repr_c", J::B(r.c())),
                        ("repr_transparent", J::B(r.transparent())),
                        ("repr_packed", J::B(r.packed())),
                        ("variants", J::A(vs)),
                        ("span", cx.span(tcx.def_span(d))),
                        ("reach", J::B(tcx.effective_visibilities(()).is_reachable(id))),
                        ("preds", {
                            let v: Vec<J> = tcx
                                .clauses_of(d)
                                .instantiate_identity(tcx)
                                .clauses
                                .iter()
                                .map(|p| s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{:?}", p)))))
                                .collect();
                            J::A(v)
                        }),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_normalization();
                    let env = TypingEnv::post_analysis(tcx, d);
                    let stj = cx.ty(st, env);
                    let mut o = vec![
                        ("id", s(tcx.def_path(d).to_string_no_crate_verbose())),
                        ("self", s(tystr(st))),
                        ("self_ty", stj),
                        ("span", cx.span(tcx.def_span(d))),
                    ];
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_normalization();
                        o.push(("trait", s(path(tcx, tr.def_id))));
                        o.push(("trait_ref", s(with_no_visible_paths!(with_no_trimmed_paths!(tr.to_string())))));
                        o.push(("neg", J::B(format!("{:?}", tcx.impl_polarity(d)).contains("Neg"))));
                    }
                    let items: Vec<J> = tcx
                        .associated_item_def_ids(d)
                        .iter()
                        .map(|x| s(cx.dpath(*x)))
                        .collect();
                    o.push(("items", J::A(items)));
                    let v: Vec<J> = tcx
                        .clauses_of(d)
                        .instantiate_identity(tcx)
                        .clauses
                        .iter()
                        .map(|p| s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{:?}", p)))))
                        .collect();
                    o.push(("preds", J::A(v)));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        let out = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("bodies", J::A(bodies)),
            ("consts", J::A(consts)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("types", J::A(std::mem::take(&mut cx.ty_out))),
        ]);
        let mut st = String::new();
        out.w(&mut st);
        std::fs::write(&self.out, st).unwrap();
        Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want: Vec<String> =
        std::env::var("VP_CRATES").unwrap_or_default().split(',').map(|x| x.to_string()).collect();
    let is_test = args.iter().any(|a| a == "--test");
    if want.contains(&name) && !is_test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Zalways-encode-mir".into());
        let tag = std::env::var("VP_TAG").unwrap_or_default();
        let out = format!(
            "{}/{}{}{}.json",
            std::env::var("VP_OUT").unwrap(),
            name,
            if tag.is_empty() { "" } else { "." },
            tag
        );
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
