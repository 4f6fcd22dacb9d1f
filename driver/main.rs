// MIR exporter.  A rustc driver that type-checks the crate with the real compiler and writes, as
// JSON, the monomorphic MIR of every function reachable from the crate's own non-generic items,
// with resolved callees, ADT definitions and evaluated constants.  It decides nothing: the rules
// live in /verif/engine.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

// ---------------------------------------------------------------- JSON
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn u(x: usize) -> J {
    J::I(x as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: BTreeMap<String, J>,
    tyseen: HashSet<Ty<'tcx>>,
    tyqueue: VecDeque<Ty<'tcx>>,
    funcs: BTreeMap<String, J>,
    queued: HashSet<Instance<'tcx>>,
    queue: VecDeque<Instance<'tcx>>,
    names: HashMap<Instance<'tcx>, String>,
}

fn cut(path: &str) -> bool {
    // Functions whose contracts are modelled by the analysis: their bodies are not exported.
    const CUT: &[&str] = &[
        "alloc::", "std::", "core::fmt", "core::str", "core::slice", "core::char", "core::num",
        "core::ptr", "core::alloc", "core::panicking", "core::intrinsics", "core::unicode", "core::array",
        "core::hash", "core::any", "core::cell", "core::sync", "core::iter", "core::hint", "core::ub_checks",
        "regex", "lalrpop_util", "core::mem", "thiserror", "core::convert::num", "core::cmp", "memchr", "aho_corasick",
    ];
    CUT.iter().any(|c| path.starts_with(c))
}

impl<'tcx> Cx<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(d)
        )))
    }
    fn tys(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if self.tyseen.insert(t) {
            self.tyqueue.push_back(t);
        }
        s(self.tname(t))
    }
    fn tname(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(ty::print::with_no_visible_paths!(format!("{}", t))))
    }
    fn drain_types(&mut self) {
        while let Some(t) = self.tyqueue.pop_front() {
            let name = self.tname(t);
            let j = match *t.kind() {
                ty::Adt(def, args) => {
                    let p = self.path(def.did());
                    let mut vs = vec![];
                    let local_or_small = !p.starts_with("std::") || def.is_enum();
                    if !def.is_union() && local_or_small {
                        for (vi, v) in def.variants().iter_enumerated() {
                            let mut fs = vec![];
                            for f in v.fields.iter() {
                                let ft = f.ty(self.tcx, args);
                                let ft = self
                                    .tcx
                                    .try_normalize_erasing_regions(self.env(), ft)
                                    .unwrap_or_else(|_| f.ty(self.tcx, args).skip_norm_wip());
                                let ft = self.tys(ft);
                                fs.push(J::O(vec![("name", s(f.name.as_str())), ("ty", ft)]));
                            }
                            let d = if def.is_enum() {
                                def.discriminant_for_variant(self.tcx, vi).val as i128
                            } else {
                                0
                            };
                            vs.push(J::O(vec![
                                ("name", s(v.name.as_str())),
                                ("discr", J::I(d)),
                                ("fields", J::A(fs)),
                            ]));
                        }
                    }
                    let targs: Vec<J> = args.types().map(|t| self.tys(t)).collect();
                    J::O(vec![
                        ("k", s("adt")),
                        ("path", s(p)),
                        ("enum", J::B(def.is_enum())),
                        ("local", J::B(def.did().is_local())),
                        ("box", J::B(t.is_box())),
                        ("args", J::A(targs)),
                        ("variants", J::A(vs)),
                    ])
                }
                ty::Ref(_, inner, m) => {
                    let i = self.tys(inner);
                    J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("inner", i)])
                }
                ty::RawPtr(inner, m) => {
                    let i = self.tys(inner);
                    J::O(vec![("k", s("ptr")), ("mut", J::B(m.is_mut())), ("inner", i)])
                }
                ty::Tuple(ts) => {
                    let v = ts.iter().map(|t| self.tys(t)).collect();
                    J::O(vec![("k", s("tuple")), ("args", J::A(v))])
                }
                ty::Slice(i) => {
                    let i = self.tys(i);
                    J::O(vec![("k", s("slice")), ("inner", i)])
                }
                ty::Array(i, n) => {
                    let i = self.tys(i);
                    let n = n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null);
                    J::O(vec![("k", s("array")), ("inner", i), ("len", n)])
                }
                ty::Closure(d, args) => {
                    let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.tys(t)).collect();
                    let p = self.path(d);
                    J::O(vec![("k", s("closure")), ("path", s(p)), ("upvars", J::A(ups))])
                }
                ty::Dynamic(..) => J::O(vec![("k", s("dyn"))]),
                ty::FnDef(d, _) => {
                    let p = self.path(d);
                    J::O(vec![("k", s("fndef")), ("path", s(p))])
                }
                ty::Never => J::O(vec![("k", s("never"))]),
                ty::Str => J::O(vec![("k", s("str"))]),
                ty::Bool => J::O(vec![("k", s("bool"))]),
                ty::Char => J::O(vec![("k", s("char"))]),
                ty::Int(_) | ty::Uint(_) => J::O(vec![("k", s("int"))]),
                _ => J::O(vec![("k", s("other"))]),
            };
            self.types.insert(name, j);
        }
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn inst_name(&mut self, i: Instance<'tcx>) -> String {
        if let Some(n) = self.names.get(&i) {
            return n.clone();
        }
        let p = ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(ty::print::with_no_visible_paths!(
            self.tcx.def_path_str_with_args(i.def_id(), i.args)
        )));
        let n = match i.def {
            InstanceKind::Item(_) => p,
            InstanceKind::Virtual(..) => format!("virtual {}", p),
            InstanceKind::Intrinsic(_) => format!("intrinsic {}", p),
            InstanceKind::Shim(k) => match k {
                ShimKind::DropGlue(_, t) => format!("drop {}", t.map(|t| self.tname(t)).unwrap_or_default()),
                ShimKind::Clone(_, t) => format!("cloneshim {}", self.tname(t)),
                ShimKind::ClosureOnce { .. } => format!("once {}", p),
                ShimKind::FnPtr(_, t) => format!("fnptr {} {}", p, self.tname(t)),
                _ => format!("shim {}", p),
            },
            _ => format!("other {}", p),
        };
        // Two distinct instances never share a name.
        let clash = self.names.iter().any(|(k, v)| *v == n && *k != i);
        let n = if clash { format!("{} #{}", n, self.names.len()) } else { n };
        self.names.insert(i, n.clone());
        n
    }
    fn push(&mut self, i: Instance<'tcx>) {
        if self.queued.insert(i) {
            self.queue.push_back(i);
        }
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let args = self.tcx.erase_and_anonymize_regions(args);
        let decl = self.path(d);
        match Instance::try_resolve(self.tcx, self.env(), d, args) {
            Ok(Some(i)) => {
                let n = self.inst_name(i);
                let p = self.path(i.def_id());
                let kind = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Shim(_) => "shim",
                    _ => "other",
                };
                let targs: Vec<J> = i.args.types().map(|t| self.tys(t)).collect();
                let dargs: Vec<J> = args.types().map(|t| self.tys(t)).collect();
                self.push(i);
                J::O(vec![
                    ("name", s(n)),
                    ("path", s(p)),
                    ("decl", s(decl)),
                    ("kind", s(kind)),
                    ("targs", J::A(targs)),
                    ("dargs", J::A(dargs)),
                ])
            }
            _ => {
                let dargs: Vec<J> = args.types().map(|t| self.tys(t)).collect();
                J::O(vec![
                    ("name", s(decl.clone())),
                    ("path", s(decl.clone())),
                    ("decl", s(decl)),
                    ("kind", s("unresolved")),
                    ("targs", J::A(vec![])),
                    ("dargs", J::A(dargs)),
                ])
            }
        }
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("deref"), J::B(pt.ty.is_box())]),
                ProjectionElem::Field(f, t) => {
                    let t = self.tys(t);
                    J::A(vec![s("field"), u(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("index"), u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("cindex"), J::I(offset as i128), J::B(from_end), J::I(min_length as i128)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("downcast"), u(vi.as_usize())]),
                _ => J::A(vec![s("opaque")]),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![u(p.local.as_usize()), J::A(v)])
    }
    fn constval(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::A(vec![s("opaque")]);
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(si) = val.try_to_scalar_int() {
                    let v: i128 = match *t.kind() {
                        ty::Int(_) => si.to_int(si.size()),
                        _ => si.to_bits(si.size()) as i128,
                    };
                    return match *t.kind() {
                        ty::Bool => J::A(vec![s("bool"), J::B(v != 0)]),
                        ty::Char => J::A(vec![s("char"), J::I(v)]),
                        _ => J::A(vec![s("int"), J::I(v)]),
                    };
                }
                J::A(vec![s("opaque")])
            }
            ty::FnDef(d, args) => {
                let c = self.callee(d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
                J::A(vec![s("fn"), c])
            }
            ty::Closure(..) => {
                let tn = self.tys(t);
                J::A(vec![s("zst"), tn])
            }
            ty::Ref(_, inner, _) => {
                match *inner.kind() {
                    ty::Str => {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::A(vec![s("str"), s(String::from_utf8_lossy(b).to_string())]);
                        }
                        return J::A(vec![s("opaque")]);
                    }
                    ty::Slice(e) => {
                        if e == tcx.types.u8 {
                            if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                                return J::A(vec![s("bytes"), J::A(b.iter().map(|x| J::I(*x as i128)).collect())]);
                            }
                        }
                        // &[T]: decode as an array when the allocation is known
                        if let ConstValue::Slice { alloc_id, meta } = val {
                            let at = Ty::new_array(tcx, e, meta);
                            let v = ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO };
                            let j = self.constval(v, at, depth + 1);
                            return J::A(vec![s("ref"), j]);
                        }
                        // a fat pointer in memory
                        if let ConstValue::Indirect { alloc_id, offset } = val {
                            let ps = tcx.data_layout.pointer_size();
                            let a = self.mem_scalar(alloc_id, offset, true);
                            let n = self.mem_scalar(alloc_id, offset + ps, false);
                            if let (Some(interpret::Scalar::Ptr(p, _)), Some(interpret::Scalar::Int(n))) = (a, n) {
                                let (prov, off) = p.prov_and_relative_offset();
                                if let Some(interpret::GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                    let at = Ty::new_array(tcx, e, n.to_bits(n.size()) as u64);
                                    let v = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                    let j = self.constval(v, at, depth + 1);
                                    return J::A(vec![s("ref"), j]);
                                }
                            }
                        }
                        return J::A(vec![s("opaque")]);
                    }
                    _ => {}
                }
                let sc = match val {
                    ConstValue::Indirect { alloc_id, offset } => self.mem_scalar(alloc_id, offset, true),
                    _ => val.try_to_scalar(),
                };
                if let Some(interpret::Scalar::Ptr(p, _)) = sc {
                    let (prov, off) = p.prov_and_relative_offset();
                    let aid = prov.alloc_id();
                    if let Some(interpret::GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(aid) {
                        let v = ConstValue::Indirect { alloc_id: aid, offset: off };
                        let j = self.constval(v, inner, depth + 1);
                        return J::A(vec![s("ref"), j]);
                    }
                    if let Some(interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(aid) {
                        let p = self.path(d);
                        return J::A(vec![s("static"), s(p)]);
                    }
                }
                J::A(vec![s("opaque")])
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                let tn = self.tys(t);
                if let ty::Tuple(ts) = t.kind() {
                    if ts.is_empty() {
                        return J::A(vec![s("adt"), tn, u(0), J::A(vec![])]);
                    }
                }
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() {
                        return J::A(vec![s("opaque")]);
                    }
                }
                // scalar-represented aggregates are handled by the destructuring hook as well
                match tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    Some(d) => {
                        let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.constval(*v, *t, depth + 1)).collect();
                        let k = if matches!(t.kind(), ty::Array(..)) { "array" } else { "adt" };
                        J::A(vec![s(k), tn, u(d.variant.map(|v| v.as_usize()).unwrap_or(0)), J::A(fs)])
                    }
                    None => J::A(vec![s("opaque")]),
                }
            }
            _ => J::A(vec![s("opaque")]),
        }
    }
    /// what is stored at a place of a constant allocation
    fn mem_scalar(&self, id: interpret::AllocId, off: rustc_abi::Size, ptr: bool) -> Option<interpret::Scalar> {
        let tcx = self.tcx;
        let size = tcx.data_layout.pointer_size();
        match tcx.try_get_global_alloc(id) {
            Some(interpret::GlobalAlloc::Memory(a)) => {
                a.inner().read_scalar(&tcx, interpret::AllocRange { start: off, size }, ptr).ok()
            }
            _ => None,
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tn = self.tys(t);
        let v = match c.const_.eval(self.tcx, self.env(), c.span) {
            Ok(v) => self.constval(v, t, 0),
            Err(_) => J::A(vec![s("opaque")]),
        };
        let mut o = vec![("ty", tn), ("v", v)];
        if let Const::Unevaluated(uv, _) = c.const_ {
            if uv.promoted.is_none() {
                let p = self.path(uv.def);
                o.push(("def", s(p)));
            }
        }
        J::A(vec![s("const"), J::O(o)])
    }
    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(b, p)]),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(k) => J::A(vec![s("rtcheck"), s(format!("{:?}", k))]),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(b, o)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.operand(b, o), n])
            }
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), self.place(b, p), J::B(matches!(k, BorrowKind::Mut { .. }))]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("ref"), self.place(b, p), J::B(true)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(b, p)]),
            Rvalue::Cast(k, o, t) => {
                let tn = self.tys(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(b, o), tn])
            }
            Rvalue::BinaryOp(op, ab) => {
                J::A(vec![s("bin"), s(format!("{:?}", op)), self.operand(b, &ab.0), self.operand(b, &ab.1)])
            }
            Rvalue::UnaryOp(op, a) => J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(b, a)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(b, p)]),
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(b, o)).collect();
                let (kind, tn, vi) = match &**k {
                    AggregateKind::Array(_) => ("array", J::Null, 0),
                    AggregateKind::Tuple => ("tuple", J::Null, 0),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        ("adt", self.tys(t), vi.as_usize())
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*args));
                        let n = self.inst_name(inst);
                        self.push(inst);
                        ("closure", s(n), 0)
                    }
                    _ => ("other", J::Null, 0),
                };
                J::A(vec![s("agg"), s(kind), tn, u(vi), J::A(fs)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(b, p)])]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, i: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let d = match i.def {
            InstanceKind::Item(d) => d,
            _ => return None,
        };
        let is_static = matches!(tcx.def_kind(d), DefKind::Static { .. }) && d.is_local();
        if !is_static && !tcx.is_mir_available(d) {
            return None;
        }
        if !is_static && matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }) {
            return None;
        }
        let raw = tcx.instance_mir(i.def);
        let b: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, raw.clone()));
        let locals: Vec<J> = b.local_decls.iter().map(|l| self.tys(l.ty)).collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&b, &pr.0);
                        let r = self.rvalue(&b, &pr.1);
                        st.push(J::A(vec![s("assign"), p, r, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(&b, place);
                        st.push(J::A(vec![s("setdiscr"), p, u(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), u(l.as_usize())])),
                    StatementKind::Intrinsic(k) => st.push(J::A(vec![s("intr"), s(format!("{:?}", k))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), u(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(&b, discr);
                    let dt = discr.ty(&b, tcx);
                    let dt = self.tys(dt);
                    let vs: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![J::I(v as i128), u(t.as_usize())])).collect();
                    J::A(vec![s("switch"), o, J::A(vs), u(targets.otherwise().as_usize()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b, tcx).ty;
                    let pt = self.tys(pt);
                    let p = self.place(&b, place);
                    J::A(vec![s("drop"), u(target.as_usize()), p, pt])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(&b, func);
                    let a: Vec<J> = args.iter().map(|a| self.operand(&b, &a.node)).collect();
                    let at: Vec<J> = args.iter().map(|a| { let t = a.node.ty(&b, tcx); self.tys(t) }).collect();
                    let dt = destination.ty(&b, tcx).ty;
                    let dt = self.tys(dt);
                    let dst = self.place(&b, destination);
                    let tg = target.map(|t| u(t.as_usize())).unwrap_or(J::Null);
                    J::A(vec![s("call"), f, J::A(a), dst, tg, J::A(at), dt, sp])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(&b, cond);
                    let (mk, mo): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(&b, len), self.operand(&b, index)])
                        }
                        AssertKind::Overflow(op, l, r) => {
                            (format!("overflow {:?}", op), vec![self.operand(&b, l), self.operand(&b, r)])
                        }
                        k => (format!("{:?}", std::mem::discriminant(k)), vec![]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(mk), J::A(mo), u(target.as_usize()), sp])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![s("other"), s("tailcall")]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), u(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), u(real_target.as_usize())]),
                k => J::A(vec![s("other"), s(format!("{:?}", k))]),
            };
            blocks.push(J::O(vec![("st", J::A(st)), ("t", tj), ("sp", self.span(t.source_info.span))]));
        }
        let spread = b.spread_arg.map(|l| u(l.as_usize())).unwrap_or(J::Null);
        Some(J::O(vec![("argc", u(b.arg_count)), ("locals", J::A(locals)), ("blocks", J::A(blocks)), ("spread", spread)]))
    }
    fn go(&mut self) {
        while let Some(i) = self.queue.pop_front() {
            let n = self.inst_name(i);
            let d = i.def_id();
            let p = self.path(d);
            let local = d.is_local();
            let mut o = vec![("path", s(p.clone())), ("local", J::B(local))];
            o.push(("crate", s(self.tcx.crate_name(d.krate).as_str())));
            o.push(("span", self.span(self.tcx.def_span(d))));
            let targs: Vec<J> = i.args.types().map(|t| self.tys(t)).collect();
            o.push(("targs", J::A(targs)));
            if let InstanceKind::Shim(k) = i.def {
                if let ShimKind::ClosureOnce { closure, .. } = k {
                    let cargs = match i.args.type_at(0).kind() {
                        ty::Closure(_, a) => Some(*a),
                        _ => None,
                    };
                    if let Some(a) = cargs {
                        let ci = Instance::new_raw(closure, a);
                        let cn = self.inst_name(ci);
                        self.push(ci);
                        o.push(("once_of", s(cn)));
                    }
                }
                o.push(("shim", J::B(true)));
            }
            // the impl this function belongs to
            if let Some(im) = self.tcx.impl_of_assoc(d) {
                o.push(("derived", J::B(self.tcx.is_automatically_derived(im))));
                if let Some(tr) = self.tcx.impl_opt_trait_ref(im) {
                    let trd = tr.skip_binder().def_id;
                    let tp = self.path(trd);
                    o.push(("trait", s(tp)));
                }
                let it = self.tcx.type_of(im).instantiate(self.tcx, i.args).skip_norm_wip();
                let it = self.tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(it)).unwrap_or(it);
                let tn = self.tys(it);
                o.push(("self_ty", tn));
                o.push(("method", s(self.tcx.item_name(d).as_str())));
            } else if let Some(tr) = self.tcx.trait_of_assoc(d) {
                let tp = self.path(tr);
                o.push(("trait", s(tp)));
                o.push(("method", s(self.tcx.item_name(d).as_str())));
            }
            if self.tcx.is_closure_like(d) {
                o.push(("closure", J::B(true)));
                let ck = match i.args.as_closure().kind() {
                    ty::ClosureKind::Fn => "Fn",
                    ty::ClosureKind::FnMut => "FnMut",
                    ty::ClosureKind::FnOnce => "FnOnce",
                };
                o.push(("ckind", s(ck)));
            }
            if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                o.push(("pub", J::B(self.tcx.visibility(d).is_public())));
                o.push(("unsafe", J::B(self.tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            }
            if local || !cut(&p) {
                if let Some(b) = self.body(i) {
                    o.push(("body", b));
                }
            }
            self.drain_types();
            self.funcs.insert(n, J::O(o));
        }
        self.drain_types();
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRX_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let mut cx = Cx {
            tcx,
            types: BTreeMap::new(),
            tyseen: HashSet::new(),
            tyqueue: VecDeque::new(),
            funcs: BTreeMap::new(),
            queued: HashSet::new(),
            queue: VecDeque::new(),
            names: HashMap::new(),
        };
        let mut roots = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.generics_of(d).requires_monomorphization(tcx) {
                        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            _ => tcx.mk_param_from_def(p),
                        });
                        let i = Instance::new_raw(d, args);
                        let n = cx.inst_name(i);
                        roots.push(s(n));
                        cx.push(i);
                    }
                }
                DefKind::Static { mutability, .. } => {
                    let p = cx.path(d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tn = cx.tys(t);
                    let frz = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                    // what is inside a static that is initialised on first use
                    let mut inner = vec![];
                    if let ty::Adt(_, a) = t.kind() {
                        for x in a.types() {
                            let n = cx.tys(x);
                            inner.push(J::A(vec![n, J::B(x.is_freeze(tcx, TypingEnv::fully_monomorphized()))]));
                        }
                    }
                    let sp = cx.span(tcx.def_span(d));
                    let i = Instance::new_raw(d, tcx.mk_args(&[]));
                    let init = cx.inst_name(i);
                    cx.push(i);
                    statics.push(J::O(vec![
                        ("path", s(p)),
                        ("init", s(init)),
                        ("span", sp),
                        ("inner", J::A(inner)),
                        ("thread_local", J::B(tcx.is_thread_local_static(d))),
                        ("mut", J::B(mutability.is_mut())),
                        ("ty", tn),
                        ("freeze", J::B(frz)),
                    ]));
                }
                _ => {}
            }
        }
        // explicit instances wanted by the rules: `fmt` of a local wrapper type for each type of the crate that prints
        for (trd, sp) in tcx.all_local_trait_impls(()).iter() {
            if cx.path(*trd) != "core::fmt::Display" {
                continue;
            }
            let mut plain: Vec<Ty<'tcx>> = vec![];
            let mut wrappers = vec![];
            for im in sp.iter() {
                let d = im.to_def_id();
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if !tcx.generics_of(d).requires_monomorphization(tcx) {
                    plain.push(tcx.erase_and_anonymize_regions(t));
                } else if let ty::Adt(ad, a) = t.kind() {
                    if a.len() == 1 && a.types().count() == 1 {
                        wrappers.push(*ad);
                    }
                }
            }
            if let Some(st) = tcx.lang_items().string() {
                plain.push(tcx.type_of(st).instantiate_identity().skip_norm_wip());
            }
            let Some(m) = tcx.associated_item_def_ids(*trd).first() else { continue };
            for ad in wrappers {
                for t in plain.iter() {
                    let w = Ty::new_adt(tcx, ad, tcx.mk_args(&[(*t).into()]));
                    let args = tcx.mk_args(&[w.into()]);
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, cx.env(), *m, args) {
                        cx.push(i);
                    }
                }
            }
        }
        cx.go();
        // local ADTs, with the traits that matter to the rules
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let p = cx.path(d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tn = if tcx.generics_of(d).requires_monomorphization(tcx) { J::Null } else { let t = tcx.erase_and_anonymize_regions(t); cx.tys(t) };
                let mut impls = vec![];
                let asp = cx.span(tcx.def_span(d));
                for (trd, sp) in tcx.all_local_trait_impls(()).iter() {
                    for im in sp.iter() {
                        let it = tcx.type_of(im.to_def_id()).instantiate_identity().skip_norm_wip();
                        if let ty::Adt(ad, _) = it.kind() {
                            if ad.did() == d {
                                let tp = cx.path(*trd);
                                impls.push(J::A(vec![s(tp), J::B(tcx.is_automatically_derived(im.to_def_id()))]));
                            }
                        }
                    }
                }
                let (mut send, mut sync) = (J::Null, J::Null);
                if !tcx.generics_of(d).requires_monomorphization(tcx) {
                    let t = tcx.erase_and_anonymize_regions(t);
                    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::fully_monomorphized());
                    if let Some(x) = tcx.get_diagnostic_item(rustc_span::sym::Send) {
                        send = J::B(infcx.type_implements_trait(x, [t], penv).must_apply_modulo_regions());
                    }
                    if let Some(x) = tcx.lang_items().sync_trait() {
                        sync = J::B(infcx.type_implements_trait(x, [t], penv).must_apply_modulo_regions());
                    }
                }
                adts.push(J::O(vec![("path", s(p)), ("ty", tn), ("send", send), ("sync", sync), ("impls", J::A(impls)), ("pub", J::B(tcx.visibility(d).is_public())), ("span", asp)]));
            }
        }
        cx.go();
        // unsafe code in the crate
        let mut unsafe_spans = vec![];
        {
            struct V<'a, 'tcx>(&'a mut Vec<J>, &'a Cx<'tcx>);
            impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
                type NestedFilter = rustc_middle::hir::nested_filter::All;
                fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                    self.1.tcx
                }
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                        let sp = self.1.span(b.span);
                        self.0.push(sp);
                    }
                    rustc_hir::intravisit::walk_block(self, b);
                }
            }
            let mut v = V(&mut unsafe_spans, &cx);
            tcx.hir_visit_all_item_likes_in_crate(&mut v);
        }
        let j = J::O(vec![
            ("roots", J::A(roots)),
            ("statics", J::A(statics)),
            ("adts", J::A(adts)),
            ("unsafe", J::A(unsafe_spans)),
            ("funcs", J::M(std::mem::take(&mut cx.funcs))),
            ("types", J::M(std::mem::take(&mut cx.types))),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&out, o).expect("write MIRX_OUT");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // when used as a cargo wrapper, argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
