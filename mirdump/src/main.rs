//! rustc driver: writes the monomorphic MIR of the crate (and of the std helpers it calls) as JSON.
//! Everything is taken from the compiler; nothing is rewritten. Types, constants and callees are resolved here.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;
use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct D {
    tys: HashMap<Ty, usize>,
    tyq: VecDeque<Ty>,
    tyout: Vec<(usize, String)>,
    insts: HashSet<String>,
    iq: VecDeque<Instance>,
    bodies: Vec<String>,
    statics: HashMap<String, String>,
}
// bodies of these std items are executed from their own MIR
const STD_BODIES: &[&str] = &["core::option::", "core::result::", "core::char::", "core::cmp::", "core::mem::", "core::ops::", "core::iter::", "core::bool::", "core::num::", "core::convert::", "core::clone::", "core::default::", "core::tuple::", "core::ascii::", "lazy_static::", "core::slice::cmp", "core::array::equality", "core::slice::<impl", "core::slice::index", "core::str::", "alloc::slice::", "core::borrow", "alloc::borrow", "core::array"];

impl D {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.tyq.push_back(t);
        i
    }
    fn args_tys(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a.0.iter().map(|g| match g { GenericArgKind::Type(t) => self.ty(*t).to_string(), GenericArgKind::Const(c) => format!("{{\"const\":{}}}", c.eval_target_usize().map_or("null".into(), |n| n.to_string())), _ => "null".into() }).collect();
        arr(v)
    }
    fn emit_ty(&mut self, t: Ty) {
        let id = self.tys[&t];
        let k = t.kind();
        let s = match k.rigid() {
            None => format!("{{\"k\":\"other\",\"n\":{}}}", js(&format!("{:?}", k))),
            Some(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".into(),
                RigidTy::Char => "{\"k\":\"char\"}".into(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{}}}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"bits\":{}}}", i.num_bytes() * 8),
                RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
                RigidTy::Str => "{\"k\":\"str\"}".into(),
                RigidTy::Never => "{\"k\":\"never\"}".into(),
                RigidTy::Array(e, n) => format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", self.ty(*e), n.eval_target_usize().map_or("null".into(), |x| x.to_string())),
                RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(*e)),
                RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", self.ty(*e), matches!(m, Mutability::Mut)),
                RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", self.ty(*e), matches!(m, Mutability::Mut)),
                RigidTy::Tuple(v) => { let v: Vec<String> = v.iter().map(|x| self.ty(*x).to_string()).collect(); format!("{{\"k\":\"tuple\",\"f\":{}}}", arr(v)) }
                RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
                RigidTy::FnDef(d, a) => { let c = self.callee(*d, a); format!("{{\"k\":\"fndef\",\"callee\":{}}}", c) }
                RigidTy::Closure(d, a) => {
                    let n = d.name().to_string();
                    let mut ups: Vec<String> = vec![];
                    // the last generic argument of a closure is the tuple of its captures
                    if let Some(GenericArgKind::Type(u)) = a.0.last() { if let Some(RigidTy::Tuple(v)) = u.kind().rigid() { for x in v { ups.push(self.ty(*x).to_string()) } } }
                    let inst = Instance::resolve_closure(*d, a, ClosureKind::FnOnce).ok();
                    let mut body = "null".to_string();
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(i) = Instance::resolve_closure(*d, a, k) { if i.kind == rustc_public::mir::mono::InstanceKind::Item { body = js(&i.mangled_name().to_string()); self.want(i, true); break } }
                    }
                    let _ = inst;
                    format!("{{\"k\":\"closure\",\"n\":{},\"f\":{},\"body\":{}}}", js(&n), arr(ups), body)
                }
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{}}}", js(&format!("{}", t))),
                RigidTy::Adt(d, a) => {
                    let name = d.name().to_string();
                    let open = ["std::option", "core::option", "std::result", "core::result", "core::ops", "std::ops", "std::cmp", "core::cmp", "core::iter", "std::iter"].iter().any(|p| name.starts_with(p)) || d.krate().is_local;
                    let args = self.args_tys(a);
                    let mut vs = vec![];
                    if open {
                        for v in d.variants() {
                            let fs: Vec<String> = v.fields().iter().map(|f| format!("[{},{}]", js(&f.name.to_string()), self.ty(f.ty_with_args(a)))).collect();
                            let discr = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(&v.name().to_string()), discr, arr(fs)));
                        }
                    }
                    format!("{{\"k\":\"adt\",\"n\":{},\"a\":{},\"open\":{},\"kind\":{},\"v\":{}}}", js(&name), args, open, js(&format!("{:?}", d.kind())), arr(vs))
                }
                o => format!("{{\"k\":\"other\",\"n\":{}}}", js(&format!("{:?}", o))),
            },
        };
        self.tyout.push((id, s));
    }
    fn want(&mut self, i: Instance, force: bool) {
        let m = i.mangled_name().to_string();
        if self.insts.contains(&m) { return }
        let name = i.def.name().to_string();
        let local = i.def.krate().is_local;
        let n2 = name.trim_start_matches('<').to_string();
        let ok = force || local || STD_BODIES.iter().any(|p| n2.starts_with(p) || n2.starts_with(&p.replace("core::", "std::")) || n2.contains(&format!(" as {}", p.replace("core::", "std::")))  || n2.contains(&format!(" as {}", p)));
        if !ok { return }
        self.insts.insert(m);
        self.iq.push_back(i);
    }
    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let def = d.name().to_string();
        let args = self.args_tys(a);
        match Instance::resolve(d, a) {
            Ok(i) => {
                let kind = format!("{:?}", i.kind);
                let intr = i.intrinsic_name().map_or("null".into(), |s| js(&s.to_string()));
                if kind == "Item" || kind == "Shim" { self.want(i, false) }
                let iargs = self.args_tys(&i.args());
                format!("{{\"def\":{},\"a\":{},\"name\":{},\"idef\":{},\"ia\":{},\"sym\":{},\"kind\":{},\"intr\":{}}}", js(&def), args, js(&i.name().to_string()), js(&i.def.name().to_string()), iargs, js(&i.mangled_name().to_string()), js(&kind), intr)
            }
            Err(_) => format!("{{\"def\":{},\"a\":{},\"name\":null}}", js(&def), args),
        }
    }
    // ---- constants
    fn rd(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in 0..n { v |= (a.bytes.get(off + i).copied().flatten()? as u128) << (8 * i) }
        Some(v)
    }
    fn prov(a: &Allocation, off: usize) -> Option<AllocId> { a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0) }
    fn size(t: Ty) -> usize { t.layout().map_or(0, |l| l.shape().size.bytes()) }
    fn dec(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 12 { return "{\"c\":\"deep\"}".into() }
        let k = t.kind();
        let Some(r) = k.rigid() else { return "{\"c\":\"unk\"}".into() };
        let unk = |w: &str| format!("{{\"c\":\"unk\",\"w\":{}}}", js(w));
        match r {
            RigidTy::Bool => Self::rd(a, off, 1).map_or(unk("b"), |v| format!("{{\"c\":\"int\",\"v\":{}}}", v)),
            RigidTy::Char => Self::rd(a, off, 4).map_or(unk("c"), |v| format!("{{\"c\":\"int\",\"v\":{}}}", v)),
            RigidTy::Uint(u) => Self::rd(a, off, u.num_bytes()).map_or(unk("u"), |v| format!("{{\"c\":\"int\",\"v\":{}}}", v)),
            RigidTy::Int(u) => Self::rd(a, off, u.num_bytes()).map_or(unk("i"), |v| { let n = u.num_bytes() * 8; let s = if n < 128 && v >> (n - 1) & 1 == 1 { v as i128 - (1i128 << n) } else { v as i128 }; format!("{{\"c\":\"int\",\"v\":{}}}", s) }),
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some(id) = Self::prov(a, off) else { return unk("ptr") };
                let o2 = Self::rd(a, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => match e.kind().rigid() {
                        Some(RigidTy::Str) => {
                            let n = Self::rd(a, off + 8, 8).unwrap_or(0) as usize;
                            let b: Vec<u8> = (0..n).map(|i| m.bytes[o2 + i].unwrap_or(0)).collect();
                            format!("{{\"c\":\"str\",\"v\":{}}}", js(&String::from_utf8_lossy(&b)))
                        }
                        Some(RigidTy::Slice(el)) => {
                            let n = Self::rd(a, off + 8, 8).unwrap_or(0) as usize;
                            let sz = Self::size(*el);
                            let v: Vec<String> = (0..n).map(|i| self.dec(*el, &m, o2 + i * sz, depth + 1)).collect();
                            format!("{{\"c\":\"ref\",\"v\":{{\"c\":\"arr\",\"v\":{}}}}}", arr(v))
                        }
                        _ => { let v = self.dec(*e, &m, o2, depth + 1); format!("{{\"c\":\"ref\",\"v\":{}}}", v) }
                    },
                    GlobalAlloc::Static(s) => format!("{{\"c\":\"static\",\"n\":{},\"t\":{}}}", js(&s.name().to_string()), self.ty(s.ty())),
                    GlobalAlloc::Function(i) => { self.want(i, false); format!("{{\"c\":\"fn\",\"sym\":{},\"name\":{}}}", js(&i.mangled_name().to_string()), js(&i.name().to_string())) }
                    _ => unk("alloc"),
                }
            }
            RigidTy::FnPtr(_) => match Self::prov(a, off).map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => { self.want(i, false); format!("{{\"c\":\"fn\",\"sym\":{},\"name\":{}}}", js(&i.mangled_name().to_string()), js(&i.name().to_string())) }
                _ => unk("fnptr"),
            },
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                if n > 4096 { return unk("array") }
                let sz = Self::size(*e);
                let v: Vec<String> = (0..n).map(|i| self.dec(*e, a, off + i * sz, depth + 1)).collect();
                format!("{{\"c\":\"arr\",\"v\":{}}}", arr(v))
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return unk("layout") };
                let offs = match l.shape().fields { FieldsShape::Arbitrary { offsets } => offsets, _ => vec![] };
                let v: Vec<String> = ts.iter().enumerate().map(|(i, x)| self.dec(*x, a, off + offs.get(i).map_or(0, |o| o.bytes()), depth + 1)).collect();
                format!("{{\"c\":\"agg\",\"i\":0,\"v\":{}}}", arr(v))
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "{\"c\":\"zst\"}".into(),
            RigidTy::Adt(d, ga) => {
                if d.kind() == AdtKind::Union { return unk("union") }
                let Ok(l) = t.layout() else { return unk("layout") };
                let sh = l.shape();
                let (vi, offs) = match &sh.variants {
                    VariantsShape::Empty => return unk("empty"),
                    VariantsShape::Single { index } => (*index, match sh.fields { FieldsShape::Arbitrary { offsets } => offsets, _ => vec![] }),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let tn = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                        let mut found = None;
                        match tag_encoding {
                            TagEncoding::Direct => {
                                for v in d.variants() {
                                    let dv = d.discriminant_for_variant(v.idx()).val;
                                    if Self::rd(a, off + toff, tn) == Some(dv & if tn >= 16 { u128::MAX } else { (1u128 << (8 * tn)) - 1 }) { found = Some(v.idx()) }
                                    if found.is_some() { break }
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let has_prov = Self::prov(a, off + toff).is_some();
                                let mut hit = None;
                                if !has_prov {
                                    let (s, e) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                                    if let Some(x) = Self::rd(a, off + toff, tn) { let m = (1u128 << (8 * tn)) - 1; let rel = x.wrapping_sub(*niche_start) & m; if rel <= (e - s) as u128 { hit = Some(VariantIdx::to_val(s + rel as usize)) } }
                                }
                                found = Some(hit.unwrap_or(*untagged_variant));
                            }
                        }
                        let Some(vi) = found else { return unk("variant") };
                        (vi, variants[vi.to_index()].offsets.clone())
                    }
                };
                let Some(vd) = d.variant(vi) else { return unk("variantdef") };
                let v: Vec<String> = vd.fields().iter().enumerate().map(|(i, f)| self.dec(f.ty_with_args(ga), a, off + offs.get(i).map_or(0, |o| o.bytes()), depth + 1)).collect();
                format!("{{\"c\":\"agg\",\"i\":{},\"v\":{}}}", vi.to_index(), arr(v))
            }
            _ => unk("kind"),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => "{\"c\":\"zst\"}".into(),
            ConstantKind::Allocated(a) => self.dec(t, a, 0, 0),
            ConstantKind::Ty(tc) => match tc.kind() { TyConstKind::Value(t2, a) => { let t2 = *t2; let a = a.clone(); self.dec(t2, &a, 0, 0) } TyConstKind::ZSTValue(_) => "{\"c\":\"zst\"}".into(), _ => "{\"c\":\"unk\"}".into() },
            o => format!("{{\"c\":\"unk\",\"w\":{}}}", js(&format!("{:?}", o).chars().take(80).collect::<String>())),
        };
        format!("{{\"o\":\"const\",\"t\":{},\"v\":{}}}", ti, v)
    }
    // ---- bodies
    fn place(&mut self, p: &Place) -> String {
        let v: Vec<String> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "[\"*\"]".into(),
            ProjectionElem::Field(i, t) => format!("[\".\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
        }).collect();
        format!("[{},{}]", p.local, arr(v))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("{{\"o\":\"rtc\",\"n\":{}}}", js(&format!("{:?}", r))),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String { let v: Vec<String> = v.iter().map(|o| self.op(o)).collect(); arr(v) }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.op(o)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", matches!(m, Mutability::Mut), self.place(p)),
            Rvalue::AddressOf(k, p) => format!("{{\"r\":\"addr\",\"m\":{},\"p\":{}}}", matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::BinaryOp(b, x, y) => { let t = x.ty(locals).map(|t| self.ty(t)).unwrap_or(0); format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"t\":{}}}", b, self.op(x), self.op(y), t) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let t = x.ty(locals).map(|t| self.ty(t)).unwrap_or(0); format!("{{\"r\":\"cbin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"t\":{}}}", b, self.op(x), self.op(y), t) }
            Rvalue::UnaryOp(u, x) => { let t = x.ty(locals).map(|t| self.ty(t)).unwrap_or(0); format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{},\"t\":{}}}", u, self.op(x), t) }
            Rvalue::Discriminant(p) => { let t = p.ty(locals).map(|t| self.ty(t)).unwrap_or(0); format!("{{\"r\":\"discr\",\"p\":{},\"t\":{}}}", self.place(p), t) }
            Rvalue::Len(p) => format!("{{\"r\":\"len\",\"p\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => { let f = o.ty(locals).map(|t| self.ty(t)).unwrap_or(0); format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"t\":{},\"f\":{}}}", js(&format!("{:?}", k)), self.op(o), self.ty(*t), f) }
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.op(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(_) => "{\"r\":\"tls\"}".into(),
            Rvalue::Aggregate(k, v) => {
                let vs = self.ops(v);
                let t = r.ty(locals).map(|t| self.ty(t)).map_or("null".into(), |x| x.to_string());
                match k {
                    AggregateKind::Adt(_, vi, _, _, fi) => format!("{{\"r\":\"agg\",\"k\":\"adt\",\"i\":{},\"v\":{},\"t\":{},\"uf\":{}}}", vi.to_index(), vs, t, fi.map_or("null".into(), |x| x.to_string())),
                    AggregateKind::Array(_) => format!("{{\"r\":\"agg\",\"k\":\"array\",\"v\":{},\"t\":{}}}", vs, t),
                    AggregateKind::Tuple => format!("{{\"r\":\"agg\",\"k\":\"tuple\",\"v\":{},\"t\":{}}}", vs, t),
                    AggregateKind::Closure(..) => format!("{{\"r\":\"agg\",\"k\":\"closure\",\"v\":{},\"t\":{}}}", vs, t),
                    AggregateKind::RawPtr(..) => format!("{{\"r\":\"agg\",\"k\":\"rawptr\",\"v\":{},\"t\":{}}}", vs, t),
                    _ => format!("{{\"r\":\"agg\",\"k\":\"other\",\"v\":{},\"t\":{}}}", vs, t),
                }
            }
        }
    }
    fn line(si: &SourceInfo) -> usize { si.span.get_lines().start_line }
    fn body(&mut self, i: Instance) {
        let Some(b) = i.body() else { return };
        let locals = b.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info { if let Some(l) = v.local() { names.push(format!("[{},{}]", l, js(&v.name.to_string()))) } }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let x = self.place(p); let y = self.rv(r, &locals); st.push(format!("{{\"s\":\"=\",\"p\":{},\"v\":{},\"l\":{}}}", x, y, Self::line(&s.source_info))) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let x = self.place(place); st.push(format!("{{\"s\":\"sd\",\"p\":{},\"i\":{}}}", x, variant_index.to_index())) }
                    StatementKind::StorageDead(l) => st.push(format!("{{\"s\":\"dead\",\"n\":{}}}", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let o = self.op(o); st.push(format!("{{\"s\":\"assume\",\"a\":{}}}", o)) }
                    StatementKind::Intrinsic(_) => st.push("{\"s\":\"unsupported\"}".into()),
                    _ => {}
                }
            }
            let l = Self::line(&bb.terminator.source_info);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"t\":\"goto\",\"n\":{}}}", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let ty = discr.ty(&locals).map(|t| self.ty(t)).unwrap_or(0);
                    format!("{{\"t\":\"switch\",\"a\":{},\"v\":{},\"e\":{},\"ty\":{},\"l\":{}}}", self.op(discr), arr(v), targets.otherwise(), ty, l)
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Drop { place, target, .. } => { let ty = place.ty(&locals).map(|t| self.ty(t)).unwrap_or(0); format!("{{\"t\":\"drop\",\"p\":{},\"n\":{},\"ty\":{},\"l\":{}}}", self.place(place), target, ty, l) }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg { AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(), m => m.description().unwrap_or("assert").to_string() };
                    format!("{{\"t\":\"assert\",\"a\":{},\"e\":{},\"m\":{},\"n\":{},\"l\":{}}}", self.op(cond), expected, js(&m), target, l)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = match func.ty(&locals).ok().map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => self.callee(d, &a),
                        _ => format!("{{\"ptr\":{}}}", self.op(func)),
                    };
                    let at: Vec<String> = args.iter().map(|o| o.ty(&locals).map(|t| self.ty(t)).map_or("null".into(), |x| x.to_string())).collect();
                    let dt = destination.ty(&locals).map(|t| self.ty(t)).unwrap_or(0);
                    format!("{{\"t\":\"call\",\"f\":{},\"a\":{},\"at\":{},\"d\":{},\"dt\":{},\"n\":{},\"l\":{}}}", c, self.ops(args), arr(at), self.place(destination), dt, target.map_or("null".into(), |x| x.to_string()), l)
                }
                TerminatorKind::InlineAsm { .. } => "{\"t\":\"asm\"}".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", arr(st), t));
        }
        let sp = b.span.get_lines();
        let file = b.span.get_filename();
        self.bodies.push(format!("{}:{{\"name\":{},\"def\":{},\"local\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"file\":{},\"line\":{},\"line2\":{},\"blocks\":{}}}", js(&i.mangled_name().to_string()), js(&i.name().to_string()), js(&i.def.name().to_string()), i.def.krate().is_local, b.arg_locals().len(), b.spread_arg().map_or("null".into(), |x| x.to_string()), arr(lt), arr(names), js(&file.to_string()), sp.start_line, sp.end_line, arr(blocks)));
    }
}

fn dump() -> ControlFlow<(), ()> {
    let Ok(out) = std::env::var("MIRDUMP_OUT") else { return ControlFlow::Continue(()) };
    let mut d = D { tys: HashMap::new(), tyq: VecDeque::new(), tyout: vec![], insts: HashSet::new(), iq: VecDeque::new(), bodies: vec![], statics: HashMap::new() };
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) { continue }
        if let Ok(i) = Instance::try_from(it) { d.want(i, true) }
        else if it.name().ends_with("parse_file") {
            // generic over the path type: the instance for &str
            if let Some(RigidTy::FnDef(f, a)) = it.ty().kind().rigid() {
                let sr = Ty::new_ref(Region { kind: RegionKind::ReErased }, Ty::from_rigid_kind(RigidTy::Str), Mutability::Not);
                let a2 = GenericArgs(a.0.iter().map(|g| match g { GenericArgKind::Type(_) => GenericArgKind::Type(sr), GenericArgKind::Lifetime(_) => GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }), g => g.clone() }).collect());
                if let Ok(i) = Instance::resolve(*f, &a2) { d.want(i, true) }
            }
        }
        else if let Ok(p) = std::env::var("MIRDUMP_VERBOSE") { eprintln!("generic {} {}", p, it.name()) }
    }
    loop {
        if let Some(i) = d.iq.pop_front() { d.body(i); continue }
        if let Some(t) = d.tyq.pop_front() { d.emit_ty(t); continue }
        break;
    }
    let mut ty: Vec<(usize, String)> = std::mem::take(&mut d.tyout);
    ty.sort();
    let _ = &d.statics;
    let s = format!("{{\"types\":{},\"bodies\":{{{}}}}}", arr(ty.into_iter().map(|x| x.1).collect()), d.bodies.join(",\n"));
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let is_target = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok() && args.iter().any(|a| a == "rphtml");
    if !is_target {
        std::env::remove_var("MIRDUMP_OUT");
        // plain compilation
    }
    let r: Result<(), rustc_public::CompilerError<()>> = run!(&args, dump);
    match r { Ok(()) | Err(rustc_public::CompilerError::Skipped) => {}, Err(e) => { eprintln!("mirdump: {:?}", e); std::process::exit(1) } }
}
