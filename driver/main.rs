// MIR exporter for the minisign checks.  Runs as RUSTC_WORKSPACE_WRAPPER: it is
// the compiler for every crate, and for the crate named in MSV_CRATE it also
// writes the type-checked program (MIR, resolved callees, evaluated constants)
// as JSON to MSV_OUT.  It contains no knowledge about any property.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::{sym, Span};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn n<T: ToString>(x: T) -> J { J::N(x.to_string()) }
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => o.push_str(x),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"')
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o) }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(',') }
                    o.push('"'); o.push_str(k); o.push_str("\":"); x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    seen: HashSet<String>,
    env: TypingEnv<'tcx>,
    depth: usize,
    bodies: Vec<(String, J)>,
    files: Vec<String>,
    statics: HashMap<String, J>,
    unit_tests: usize,
}

const STD_OK: &[&str] = &[
    "option", "result", "ops", "convert", "cmp", "iter", "array", "num", "mem", "bool", "clone", "tuple",
    "borrow", "default", "ascii", "hint", "slice", "str", "vec", "string", "char", "boxed", "io", "ptr", "panic",
    "bstr", "error", "fmt", "range",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn key(&self, i: Instance<'tcx>) -> String { with_no_trimmed_paths!(format!("{}", i)) }

    fn span(&mut self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        let fi = match self.files.iter().position(|x| *x == f) {
            Some(i) => i,
            None => { self.files.push(f); self.files.len() - 1 }
        };
        J::A(vec![n(fi), n(loc.line)])
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J { n(self.tyi(t)) }

    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tyidx.get(&t) { return i }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tyidx.insert(t, i);
        let tcx = self.tcx;
        let disp = with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("d", s(disp))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => { o.push(("k", s("int"))); o.push(("n", s(x.name_str()))) }
            ty::Uint(x) => { o.push(("k", s("uint"))); o.push(("n", s(x.name_str()))) }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Array(e, l) => {
                o.push(("k", s("array")));
                let e = self.ty(*e); o.push(("e", e));
                match l.try_to_target_usize(tcx) { Some(l) => o.push(("l", n(l))), None => o.push(("l", J::Null)) }
            }
            ty::Slice(e) => { o.push(("k", s("slice"))); let e = self.ty(*e); o.push(("e", e)) }
            ty::RawPtr(e, m) => { o.push(("k", s("ptr"))); let e = self.ty(*e); o.push(("e", e)); o.push(("m", J::B(m.is_mut()))) }
            ty::Ref(_, e, m) => { o.push(("k", s("ref"))); let e = self.ty(*e); o.push(("e", e)); o.push(("m", J::B(m.is_mut()))) }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::A(v)))
            }
            ty::Adt(ad, args) => {
                o.push(("k", s("adt")));
                o.push(("p", s(self.path(ad.did()))));
                o.push(("ak", s(if ad.is_enum() { "enum" } else if ad.is_union() { "union" } else { "struct" })));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
                o.push(("local", J::B(ad.did().is_local())));
                let nfields: usize = ad.variants().iter().map(|v| v.fields.len()).sum();
                let p = self.path(ad.did());
                let known = ["option::Option", "result::Result", "ControlFlow", "ops::Range", "cmp::Ordering", "ops::Bound", "num::Wrapping", "borrow::Cow"]
                    .iter().any(|k| p.contains(k));
                let expand = ad.did().is_local() || known;
                let mut vs = vec![];
                if nfields < 64 || expand {
                    for (vi, v) in ad.variants().iter_enumerated() {
                        let d = if ad.is_enum() {
                            let dv = ad.discriminant_for_variant(tcx, vi);
                            let sg = if let ty::Int(_) = dv.ty.kind() {
                                tcx.layout_of(self.env.as_query_input(dv.ty)).map(|l| l.size.bytes()).unwrap_or(0)
                            } else { 0 };
                            if sg > 0 { let sh = 128 - sg * 8; J::N((((dv.val << sh) as i128) >> sh).to_string()) } else { n(dv.val) }
                        } else { n(0) };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = if expand {
                                let ft = f.ty(tcx, args);
                                let ft = tcx.try_normalize_erasing_regions(self.env, ft).unwrap_or(ft.skip_norm_wip());
                                self.ty(ft)
                            } else { J::Null };
                            fs.push(J::A(vec![s(f.name.to_string()), ft]));
                        }
                        vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", d), ("f", J::A(fs))]));
                    }
                }
                o.push(("v", J::A(vs)));
            }
            ty::FnDef(..) => { o.push(("k", s("fndef"))); let c = self.callee_ty(t); o.push(("c", c)) }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let inst = Instance::new_raw(*d, args);
                let k = self.key(inst);
                o.push(("p", s(self.path(*d))));
                o.push(("key", s(k)));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::A(ups)));
                self.enqueue(inst);
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[i] = J::O(o);
        i
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let def = match inst.def { InstanceKind::Item(d) => d, _ => return };
        if !tcx.is_mir_available(def) { return }
        if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { return }
        if !def.is_local() {
            let cn = tcx.crate_name(def.krate);
            let cn = cn.as_str();
            if cn != "core" && cn != "alloc" && cn != "std" { return }
            let dp = tcx.def_path(def);
            let first = dp.data.first().map(|x| x.data.to_string()).unwrap_or_default();
            if !STD_OK.iter().any(|m| *m == first) { return }
            if self.depth > 14 { return }
        }
        let k = self.key(inst);
        if self.seen.insert(k) {
            self.queue.push_back((inst, self.env, self.depth + 1));
        }
    }

    fn callee_ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let (d, args) = match t.kind() { ty::FnDef(d, a) => (*d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder())), _ => return J::Null };
        let mut o = vec![("p", s(self.path(d)))];
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("a", J::A(a)));
        let ca: Vec<J> = args.consts().map(|c| match c.try_to_target_usize(tcx) { Some(x) => n(x), None => J::Null }).collect();
        if !ca.is_empty() { o.push(("ca", J::A(ca))) }
        o.push(("local", J::B(d.is_local())));
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        if sig.safety().is_unsafe() { o.push(("unsafe", J::B(true))) }
        if sig.output().is_never() { o.push(("never", J::B(true))) }
        if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("trait", s(self.path(tr)))) }
        let eargs = tcx.erase_and_anonymize_regions(args);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, self.env, d, eargs)));
        match r {
            Ok(Ok(Some(inst))) => {
                let rd = inst.def_id();
                o.push(("r", s(self.path(rd))));
                o.push(("rlocal", J::B(rd.is_local())));
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                o.push(("kind", s(kind)));
                o.push(("key", s(self.key(inst))));
                self.enqueue(inst);
            }
            _ => {}
        }
        J::O(o)
    }

    fn bytes(&self, id: AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if off + len > a.size().bytes() { return None }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }

    fn ptr_target(&mut self, id: AllocId, off: u64, pointee: Ty<'tcx>, meta: Option<u64>, d: usize) -> J {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Static(def)) => {
                let p = self.path(def);
                self.add_static(def);
                J::A(vec![s("sref"), s(p)])
            }
            Some(GlobalAlloc::Memory(_)) => {
                let v = match pointee.kind() {
                    ty::Str => self.bytes(id, off, meta.unwrap_or(0)).map(|b| J::A(vec![s("str"), s(hex(&b))])).unwrap_or(J::A(vec![s("opaque"), s("str")])),
                    ty::Slice(e) => self.seq(id, off, *e, meta.unwrap_or(0), d + 1),
                    _ => self.mem(id, off, pointee, d + 1),
                };
                J::A(vec![s("ref"), v])
            }
            Some(GlobalAlloc::Function { instance, .. }) => {
                self.enqueue(instance);
                let p = self.path(instance.def_id());
                let k = self.key(instance);
                J::A(vec![s("fnptr"), s(p), s(k)])
            }
            _ => J::A(vec![s("opaque"), s("ptr")]),
        }
    }

    fn seq(&mut self, id: AllocId, off: u64, e: Ty<'tcx>, len: u64, d: usize) -> J {
        if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
            if let Some(b) = self.bytes(id, off, len) { return J::A(vec![s("bytes"), s(hex(&b))]) }
        }
        let sz = match self.tcx.layout_of(self.env.as_query_input(e)) { Ok(l) => l.size.bytes(), Err(_) => return J::A(vec![s("opaque"), s("layout")]) };
        if len > 5000 { return J::A(vec![s("opaque"), s("long")]) }
        let mut v = vec![];
        for i in 0..len { v.push(self.mem(id, off + i * sz, e, d + 1)) }
        J::A(vec![s("seq"), J::A(v)])
    }

    fn scalar(&mut self, t: Ty<'tcx>, bits: u128, size: u64) -> J {
        let v = match t.kind() {
            ty::Int(_) => {
                let sh = 128 - size * 8;
                (((bits << sh) as i128) >> sh).to_string()
            }
            _ => bits.to_string(),
        };
        J::A(vec![s("i"), J::N(v)])
    }

    fn mem(&mut self, id: AllocId, off: u64, t: Ty<'tcx>, d: usize) -> J {
        let tcx = self.tcx;
        let op = || J::A(vec![s("opaque"), s("mem")]);
        if d > 40 { return op() }
        let lay = match tcx.layout_of(self.env.as_query_input(t)) { Ok(l) => l, Err(_) => return op() };
        let sz = lay.size.bytes();
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let b = match self.bytes(id, off, sz) { Some(b) => b, None => return op() };
                let mut x: u128 = 0;
                for (i, v) in b.iter().enumerate() { x |= (*v as u128) << (8 * i) }
                self.scalar(t, x, sz)
            }
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => {
                let a = match tcx.try_get_global_alloc(id) { Some(GlobalAlloc::Memory(a)) => a, _ => return op() };
                let sc = a.inner().read_scalar(&tcx, AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(8) }, true);
                match sc {
                    Ok(Scalar::Ptr(ptr, _)) => {
                        let (prov, o) = ptr.into_raw_parts();
                        let meta = if matches!(p.kind(), ty::Str | ty::Slice(_)) {
                            self.bytes(id, off + 8, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                        } else { None };
                        self.ptr_target(prov.alloc_id(), o.bytes(), *p, meta, d)
                    }
                    _ => op(),
                }
            }
            ty::Array(e, l) => match l.try_to_target_usize(tcx) { Some(l) => self.seq(id, off, *e, l, d), None => op() },
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() { v.push(self.mem(id, off + lay.fields.offset(i).bytes(), ft, d + 1)) }
                J::A(vec![s("tup"), J::A(v)])
            }
            ty::Adt(ad, args) if ad.is_struct() => {
                let mut v = vec![];
                for (i, f) in ad.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.try_normalize_erasing_regions(self.env, ft).unwrap_or(ft.skip_norm_wip());
                    v.push(self.mem(id, off + lay.fields.offset(i).bytes(), ft, d + 1))
                }
                J::A(vec![s("adt"), n(0), J::A(v)])
            }
            ty::Adt(ad, _) if ad.is_enum() => {
                let cv = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) };
                self.destructure(cv, t, d)
            }
            ty::FnDef(..) => { let c = self.callee_ty(t); J::A(vec![s("fn"), c]) }
            _ => if sz == 0 { J::A(vec![s("zst")]) } else { op() },
        }
    }

    fn destructure(&mut self, cv: ConstValue, t: Ty<'tcx>, d: usize) -> J {
        match self.tcx.try_destructure_mir_constant_for_user_output(cv, t) {
            Some(dc) => {
                let fs: Vec<(ConstValue, Ty<'tcx>)> = dc.fields.to_vec();
                let v: Vec<J> = fs.into_iter().map(|(c, ft)| self.cval(c, ft, d + 1)).collect();
                let vi = dc.variant.map(|x| x.as_u32()).unwrap_or(0);
                J::A(vec![s("adt"), n(vi), J::A(v)])
            }
            None => J::A(vec![s("opaque"), s("destructure")]),
        }
    }

    fn cval(&mut self, cv: ConstValue, t: Ty<'tcx>, d: usize) -> J {
        let tcx = self.tcx;
        match cv {
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => self.scalar(t, i.to_bits_unchecked(), i.size().bytes()),
                ty::Adt(..) => self.destructure(cv, t, d),
                ty::RawPtr(..) | ty::Ref(..) => J::A(vec![s("opaque"), s("intptr")]),
                ty::Array(..) | ty::Tuple(..) => {
                    // a scalar-ABI aggregate: decode through its bytes
                    match self.tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                        Some(_) => self.destructure(cv, t, d),
                        None => J::A(vec![s("opaque"), s("scalaragg")]),
                    }
                }
                _ => J::A(vec![s("opaque"), s("scalar")]),
            },
            ConstValue::Scalar(Scalar::Ptr(ptr, _)) => {
                let (prov, o) = ptr.into_raw_parts();
                match t.kind() {
                    ty::Ref(_, p, _) | ty::RawPtr(p, _) => self.ptr_target(prov.alloc_id(), o.bytes(), *p, None, d),
                    ty::FnPtr(..) => self.ptr_target(prov.alloc_id(), o.bytes(), t, None, d),
                    ty::Adt(..) => self.destructure(cv, t, d),
                    _ => J::A(vec![s("opaque"), s("ptrscalar")]),
                }
            }
            ConstValue::ZeroSized => match t.kind() {
                ty::FnDef(..) => { let c = self.callee_ty(t); J::A(vec![s("fn"), c]) }
                ty::Closure(..) => J::A(vec![s("closure"), J::A(vec![])]),
                ty::Adt(ad, _) if !ad.is_union() => self.destructure(cv, t, d),
                ty::Array(..) => J::A(vec![s("seq"), J::A(vec![])]),
                ty::Tuple(ts) if ts.is_empty() => J::A(vec![s("tup"), J::A(vec![])]),
                _ => J::A(vec![s("zst")]),
            },
            ConstValue::Slice { alloc_id, meta } => {
                let p = match t.kind() { ty::Ref(_, p, _) | ty::RawPtr(p, _) => *p, _ => return J::A(vec![s("opaque"), s("slice")]) };
                self.ptr_target(alloc_id, 0, p, Some(meta), d)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let _ = tcx;
                self.mem(alloc_id, offset.bytes(), t, d)
            }
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let ty = self.ty(t);
        let v = if let ty::FnDef(..) = t.kind() {
            let ci = self.callee_ty(t);
            J::A(vec![s("fn"), ci])
        } else {
            match c.const_.eval(self.tcx, self.env, c.span) {
                Ok(cv) => self.cval(cv, t, 0),
                Err(_) => J::A(vec![s("opaque"), s(with_no_trimmed_paths!(format!("{}", c.const_)))]),
            }
        };
        let mut r = vec![s("k"), ty, v];
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() { r.push(s(self.path(u.def))) }
        }
        J::A(r)
    }

    fn add_static(&mut self, d: DefId) {
        let p = self.path(d);
        if self.statics.contains_key(&p) { return }
        self.statics.insert(p.clone(), J::Null);
        let tcx = self.tcx;
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let ty = self.ty(t);
        let v = match tcx.eval_static_initializer(d) {
            Ok(a) => {
                let id = tcx.reserve_and_set_memory_alloc(a);
                self.mem(id, 0, t, 0)
            }
            Err(_) => J::A(vec![s("opaque"), s("static")]),
        };
        let m = tcx.static_mutability(d).map(|m| m.is_mut()).unwrap_or(false);
        let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
        let tl = tcx.is_thread_local_static(d);
        let sp = self.span(tcx.def_span(d));
        self.statics.insert(p, J::O(vec![("ty", ty), ("v", v), ("mut", J::B(m)), ("freeze", J::B(freeze)), ("tls", J::B(tl)), ("span", sp), ("local", J::B(d.is_local()))]));
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("f"), n(f.as_u32()), t]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("c"), n(offset), n(min_length), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), n(from), n(to), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_u32())]),
                _ => J::A(vec![s("o")]),
            })
        }
        J::A(vec![n(p.local.as_u32()), J::A(pr)])
    }

    fn oper(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p); J::A(vec![s("c"), p]) }
            Operand::Move(p) => { let p = self.place(p); J::A(vec![s("m"), p]) }
            Operand::Constant(c) => self.konst(c),
            _ => J::A(vec![s("rt"), s(format!("{:?}", o))]),
        }
    }

    fn rval(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => { let o = self.oper(o); J::A(vec![s("use"), o]) }
            Rvalue::Repeat(o, c) => {
                let o = self.oper(o);
                let l = match c.try_to_target_usize(self.tcx) { Some(l) => n(l), None => J::Null };
                J::A(vec![s("rep"), o, l])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                let p = self.place(p); J::A(vec![s("ref"), J::B(m), p])
            }
            Rvalue::RawPtr(_, p) => { let p = self.place(p); J::A(vec![s("raw"), p]) }
            Rvalue::ThreadLocalRef(d) => { self.add_static(*d); J::A(vec![s("tls"), s(self.path(*d))]) }
            Rvalue::Cast(k, o, t) => {
                let o = self.oper(o);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, t])
            }
            Rvalue::BinaryOp(op, b) => {
                let a = self.oper(&b.0); let c = self.oper(&b.1);
                J::A(vec![s("bin"), s(format!("{:?}", op)), a, c])
            }
            Rvalue::UnaryOp(op, a) => { let a = self.oper(a); J::A(vec![s("un"), s(format!("{:?}", op)), a]) }
            Rvalue::Discriminant(p) => { let p = self.place(p); J::A(vec![s("disc"), p]) }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.oper(o)).collect();
                match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("arr"), J::A(os)]),
                    AggregateKind::Tuple => J::A(vec![s("tup"), J::A(os)]),
                    AggregateKind::Adt(d, v, args, _, fld) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.ty(t);
                        let f = match fld { Some(f) => n(f.as_u32()), None => J::Null };
                        J::A(vec![s("adt"), t, n(v.as_u32()), J::A(os), f])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t);
                        J::A(vec![s("clo"), t, J::A(os)])
                    }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); J::A(vec![s("rawagg"), t, J::A(os)]) }
                    _ => J::A(vec![s("other"), s("agg")]),
                }
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, key: String, inst: Instance<'tcx>, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let def = inst.def_id();
        let mut locals = vec![];
        for l in b.local_decls.iter() { locals.push(self.ty(l.ty)) }
        let mut names: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let p = self.place(&p);
                names.push(J::A(vec![s(v.name.to_string()), p]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(J::Null); continue }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rval(&a.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_u32())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(l.as_u32())])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_u32())]))
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => { let o = self.oper(o); st.push(J::A(vec![s("assume"), o])) }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.oper(&c.src); let d = self.oper(&c.dst); let k = self.oper(&c.count);
                            let sp = self.span(x.source_info.span);
                            st.push(J::A(vec![s("memcpy"), a, d, k, sp]))
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_u32())]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_u32())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, tcx);
                    let sg = if let ty::Int(_) = dt.kind() {
                        tcx.layout_of(self.env.as_query_input(dt)).map(|l| l.size.bytes()).unwrap_or(0)
                    } else { 0 };
                    let o = self.oper(discr);
                    let ts: Vec<J> = targets.iter().map(|(v, t)| {
                        let v = if sg > 0 { let sh = 128 - sg * 8; (((v << sh) as i128) >> sh).to_string() } else { v.to_string() };
                        J::A(vec![J::N(v), n(t.as_u32())])
                    }).collect();
                    J::A(vec![s("sw"), o, J::A(ts), n(targets.otherwise().as_u32()), sp])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unr")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&b.local_decls, tcx).ty;
                    let p = self.place(place);
                    let ti = self.ty(t);
                    J::A(vec![s("drop"), p, n(target.as_u32()), ti])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.oper(func);
                    let a: Vec<J> = args.iter().map(|x| self.oper(&x.node)).collect();
                    let d = self.place(destination);
                    let t = match target { Some(t) => n(t.as_u32()), None => J::Null };
                    J::A(vec![s("call"), f, J::A(a), d, t, sp])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.oper(cond);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => { let a = self.oper(len); let b = self.oper(index); ("BoundsCheck".into(), vec![a, b]) }
                        m => { let x = format!("{:?}", m); (x.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(), vec![]) }
                    };
                    J::A(vec![s("assert"), o, J::B(*expected), s(k), J::A(ops), n(target.as_u32()), sp])
                }
                k => J::A(vec![s("other"), s(format!("{:?}", k).chars().take(60).collect::<String>())]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj)]));
        }
        let sp = self.span(tcx.def_span(def));
        let cn = tcx.crate_name(def.krate).to_string();
        J::O(vec![
            ("key", s(key)), ("p", s(self.path(def))), ("crate", s(cn)), ("span", sp),
            ("argc", n(b.arg_count)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)),
            ("spread", match b.spread_arg { Some(l) => n(l.as_u32()), None => J::Null }),
            ("parent", if tcx.is_closure_like(def) { s(self.path(tcx.typeck_root_def_id(def))) } else { J::Null }),
        ])
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MSV_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want { return Compilation::Continue }
        let out = match std::env::var("MSV_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let mut cx = Cx {
            tcx, types: vec![], tyidx: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(),
            env: TypingEnv::fully_monomorphized(), depth: 0, bodies: vec![], files: vec![], statics: HashMap::new(), unit_tests: 0,
        };
        let ev = tcx.effective_visibilities(());
        let mut fns = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Static { .. } => { cx.env = TypingEnv::post_analysis(tcx, d); cx.add_static(d) }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    cx.env = TypingEnv::post_analysis(tcx, d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(t);
                    let freeze = t.is_freeze(tcx, cx.env);
                    let auto = |tr: Option<DefId>| match tr {
                        Some(tr) => {
                            let (icx, penv) = tcx.infer_ctxt().build_with_typing_env(cx.env);
                            J::B(icx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions())
                        }
                        None => J::Null,
                    };
                    let send = auto(tcx.get_diagnostic_item(sym::Send));
                    let sync = auto(tcx.lang_items().sync_trait());
                    let sp = cx.span(tcx.def_span(d));
                    let p = cx.path(d);
                    adts.push(J::O(vec![("p", s(p)), ("ty", ti), ("pub", J::B(ev.is_reachable(ld))), ("freeze", J::B(freeze)), ("send", send), ("sync", sync), ("span", sp)]));
                }
                DefKind::Impl { .. } => {
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let p = cx.path(tr.def_id);
                        let st = with_no_trimmed_paths!(format!("{}", tr.self_ty()));
                        let neg = format!("{:?}", tcx.impl_polarity(d));
                        let uns = tcx.impl_trait_header(d).safety.is_unsafe();
                        let sp = cx.span(tcx.def_span(d));
                        impls.push(J::O(vec![("trait", s(p)), ("self", s(st)), ("pol", s(neg)), ("unsafe", J::B(uns)), ("span", sp)]));
                    }
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let hasbody = tcx.is_mir_available(d);
                    cx.env = TypingEnv::post_analysis(tcx, d);
                    cx.depth = 0;
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let inst = Instance::new_raw(d, args);
                    let key = cx.key(inst);
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let sig = tcx.instantiate_bound_regions_with_erased(sig);
                    let ins: Vec<J> = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
                    let outt = cx.ty(sig.output());
                    let sp = cx.span(tcx.def_span(d));
                    let p = cx.path(d);
                    let tr = tcx.trait_of_assoc(d).is_some();
                    let trimpl = tcx.impl_of_assoc(d).and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| cx.path(t.skip_binder().def_id));
                    let gen: Vec<J> = args.types().map(|t| cx.ty(t)).collect();
                    let name = tcx.item_name(d).to_string();
                    fns.push(J::O(vec![
                        ("p", s(p)), ("name", s(name)), ("key", s(key.clone())), ("pub", J::B(ev.is_reachable(ld))), ("in", J::A(ins)), ("out", outt),
                        ("unsafe", J::B(sig.safety().is_unsafe())), ("span", sp), ("body", J::B(hasbody)),
                        ("traitdecl", J::B(tr)), ("traitimpl", match trimpl { Some(t) => s(t), None => J::Null }), ("gen", J::A(gen)),
                    ]));
                    if hasbody && cx.seen.insert(key) { cx.queue.push_back((inst, cx.env, 0)) }
                    // finish everything reachable from this root under its own environment
                    while let Some((inst, env, depth)) = cx.queue.pop_front() {
                        cx.env = env;
                        cx.depth = depth;
                        let key = cx.key(inst);
                        let b = tcx.instance_mir(inst.def);
                        if !inst.def_id().is_local() && b.basic_blocks.len() > 120 { continue }
                        let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b.clone()))
                        }));
                        if let Ok(b) = b {
                            let j = cx.body(key.clone(), inst, &b);
                            cx.bodies.push((key, j));
                        }
                        cx.env = env;
                    }
                }
                _ => {}
            }
        }
        let mut o = String::new();
        let st: Vec<J> = { let mut v: Vec<_> = cx.statics.iter().collect(); v.sort_by(|a, b| a.0.cmp(b.0)); v.into_iter().map(|(k, v)| J::A(vec![s(k.clone()), v.clone()])).collect() };
        let root = J::O(vec![
            ("crate", s(want)), ("files", J::A(cx.files.iter().map(|f| s(f.clone())).collect())),
            ("types", J::A(cx.types.clone())), ("fns", J::A(fns)), ("adts", J::A(adts)), ("impls", J::A(impls)),
            ("statics", J::A(st)), ("bodies", J::A(cx.bodies.iter().map(|x| x.1.clone()).collect())),
        ]);
        let _ = cx.unit_tests;
        root.w(&mut o);
        std::fs::write(&out, o).expect("write MSV_OUT");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let want = std::env::var("MSV_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is {
        for a in ["-Zmir-opt-level=0", "-Zinline-mir=no"] { args.push(a.into()) }
        let oc = std::env::var("MSV_OVERFLOW").unwrap_or_else(|_| "off".into());
        args.push(format!("-Coverflow-checks={oc}"));
        args.push(format!("-Cdebug-assertions={oc}"));
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
