//! Translation of monomorphic MIR bodies (rustc_public) into a compact IR, with loop structure.
use crate::term::*;
use crate::val::*;
use rustc_public::abi::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::rc::Rc;
pub fn vidx(i: usize) -> VariantIdx { VariantIdx::to_val(i) }
pub fn succs_pub(t: &Tm) -> Vec<usize> { succs(t) }

#[derive(Clone, Debug)]
pub enum Pj { Deref, F(u16), V(u16), I(u32), CI(u64, u64, bool), Sub(u64, u64, bool), Unit }
#[derive(Clone, Debug)]
pub struct Pl { pub local: u32, pub proj: Vec<Pj> }
#[derive(Clone, Debug)]
pub enum Opnd { Copy(Pl), Move(Pl), C(Val), Err(String) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sk { Bool, Int(u8, bool), Fl(u8), Ptr, Other }
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Opnd), Addr(Pl), Bin(BinOp, Opnd, Opnd, Sk, Sk), Chk(BinOp, Opnd, Opnd, Sk), Un(UnOp, Opnd, Sk),
    Cast(CastKind, Opnd, Ty, Ty), Tuple(Vec<Opnd>), Variant(u32, Vec<Opnd>), Array(Vec<Opnd>), UnionField(Opnd),
    RawPtr(Opnd, Opnd), Discr(Pl, Rc<Vec<(u32, u128)>>, u8, bool), Len(Pl), Repeat(Opnd, u64), Tls(String),
}
#[derive(Clone, Debug)]
pub enum St { Assign(Pl, Rv), SetDiscr(Pl, u32), Dead(u32), CopyNo(Opnd, Opnd, Opnd) }
#[derive(Clone, Debug)]
pub struct Callee { pub def: FnDef, pub gargs: GenericArgs, pub name: Rc<str>, pub inst: Option<Instance>, pub rname: Rc<str> }
#[derive(Clone, Debug)]
pub enum CallTo { Direct(Rc<Callee>), Indirect(Opnd) }
#[derive(Clone, Debug)]
pub enum Tm {
    Goto(usize), Switch(Opnd, Vec<(u128, usize)>, usize), Ret, Unreach, Abort,
    Call { to: CallTo, args: Vec<Opnd>, argtys: Vec<Ty>, dest: Pl, dty: Ty, target: Option<usize> },
    Assert { cond: Opnd, expected: bool, msg: String, target: usize },
    Unsup(String),
}
pub struct Blk { pub st: Vec<St>, pub tm: Tm, pub line: u32, pub nest: Vec<u32>, pub pos: u32, pub head_of: Option<u32>, pub live_in: Vec<u32> }
pub struct Fnc { pub name: String, pub file: String, pub inst: Instance, pub blocks: Vec<Blk>, pub nlocals: usize, pub nargs: usize, pub ltys: Vec<Ty>, pub spread: Option<usize>, pub spine: bool }

pub fn scal(ty: Ty) -> Sk {
    match ty.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => Sk::Bool,
            RigidTy::Char => Sk::Int(32, false),
            RigidTy::Int(i) => Sk::Int((i.num_bytes() * 8) as u8, true),
            RigidTy::Uint(i) => Sk::Int((i.num_bytes() * 8) as u8, false),
            RigidTy::Float(FloatTy::F32) => Sk::Fl(32),
            RigidTy::Float(FloatTy::F64) => Sk::Fl(64),
            RigidTy::RawPtr(..) | RigidTy::Ref(..) | RigidTy::FnPtr(..) => Sk::Ptr,
            _ => Sk::Other,
        },
        _ => Sk::Other,
    }
}
pub fn sk_sort(s: Sk) -> Option<Sort> { match s { Sk::Bool => Some(Sort::Bool), Sk::Int(w, _) => Some(Sort::Bv(w)), Sk::Fl(32) => Some(Sort::F32), Sk::Fl(_) => Some(Sort::F64), _ => None } }
pub fn adt(ty: Ty) -> Option<(AdtDef, GenericArgs)> { match ty.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((d, a)), _ => None } }
pub fn adt_name(ty: Ty) -> Option<String> { adt(ty).map(|(d, _)| d.name().to_string()) }
pub fn garg_ty(a: &GenericArgs, i: usize) -> Option<Ty> { a.0.iter().filter_map(|x| match x { GenericArgKind::Type(t) => Some(*t), _ => None }).nth(i) }
pub fn pointee(ty: Ty) -> Option<Ty> {
    match ty.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t), TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => garg_ty(&a, 0), _ => None }
}
pub fn is_zst(ty: Ty) -> bool { ty.layout().map(|l| { let s = l.shape(); s.size.bits() == 0 && s.is_sized() }).unwrap_or(false) }
/// Types whose values are represented by the value of their single interesting field.
pub fn transparent(ty: Ty) -> bool {
    match adt(ty) { Some((d, _)) => d.is_box() || d.kind() == AdtKind::Union || (d.kind() == AdtKind::Struct && d.repr().flags.is_transparent && !builtin_adt(&d.name())), None => false }
}
/// std types with a builtin (non field-wise) representation
pub fn builtin_adt(n: &str) -> bool {
    matches!(n, "std::vec::Vec" | "alloc::vec::Vec" | "std::string::String" | "alloc::string::String" | "std::collections::HashMap" | "std::collections::HashSet" | "std::collections::VecDeque" | "std::collections::BTreeMap" | "std::collections::BTreeSet")
}
pub fn is_vec(n: &str) -> bool { n.ends_with("vec::Vec") || n.ends_with("VecDeque") || n.ends_with("vec_deque::VecDeque") }

pub struct Consts { pub vals: Vec<Val>, pub memo: FxMap<usize, u32> }
thread_local! { pub static CONSTS: std::cell::RefCell<Consts> = std::cell::RefCell::new(Consts { vals: vec![], memo: Default::default() }); }
pub fn add_const(v: Val) -> u32 { CONSTS.with(|c| { let mut c = c.borrow_mut(); c.vals.push(v); c.vals.len() as u32 - 1 }) }
pub fn get_const(i: u32) -> Val { CONSTS.with(|c| c.borrow().vals[i as usize].clone()) }

fn rd(b: &[Option<u8>], off: usize, n: usize) -> R<u128> {
    let mut v = 0u128;
    for i in 0..n { v |= (b.get(off + i).copied().flatten().ok_or("uninit const byte")? as u128) << (8 * i) }
    Ok(v)
}
pub fn decode(ty: Ty, a: &Allocation, off: usize) -> R<Val> {
    let b = &a.bytes;
    match scal(ty) {
        Sk::Bool => return Ok(Val::S(boolc(rd(b, off, 1)? & 1 == 1))),
        Sk::Int(w, _) => return Ok(Val::S(bv(w, rd(b, off, w as usize / 8)?))),
        Sk::Fl(32) => return Ok(Val::S(konst(Sort::F32, rd(b, off, 4)?))),
        Sk::Fl(_) => return Ok(Val::S(konst(Sort::F64, rd(b, off, 8)?))),
        Sk::Ptr => return decode_ptr(ty, a, off),
        Sk::Other => {}
    }
    let k = match ty.kind() { TyKind::RigidTy(r) => r, k => return Err(format!("const of type {:?}", k)) };
    let sh = ty.layout().map_err(|e| format!("{:?}", e))?.shape();
    match k {
        RigidTy::FnDef(..) | RigidTy::Never => Ok(unit()),
        RigidTy::Str => Ok(Val::Str(String::from_utf8_lossy(&b[off..].iter().map(|x| x.unwrap_or(0)).collect::<Vec<u8>>()).as_ref().into())),
        RigidTy::Tuple(ts) => { let mut v = vec![]; for (i, t) in ts.iter().enumerate() { v.push(decode(*t, a, off + foff(&sh.fields, i))?) } Ok(agg(v)) }
        RigidTy::Closure(_, args) => {
            let up = match args.0.last() { Some(GenericArgKind::Type(t)) => match t.kind() { TyKind::RigidTy(RigidTy::Tuple(ts)) => ts, _ => vec![] }, _ => vec![] };
            let mut v = vec![]; for (i, t) in up.iter().enumerate() { v.push(decode(*t, a, off + foff(&sh.fields, i))?) } Ok(agg(v))
        }
        RigidTy::Array(t, n) => {
            let n = n.eval_target_usize().map_err(|e| format!("{:?}", e))? as usize; let sz = t.layout().map_err(|e| format!("{:?}", e))?.shape().size.bytes();
            let mut v = vec![]; for i in 0..n { v.push(decode(t, a, off + i * sz)?) } Ok(agg(v))
        }
        RigidTy::Adt(d, args) => {
            let n = d.name().to_string();
            if is_vec(&n) || builtin_adt(&n) { return if n.ends_with("String") { Ok(Val::Str("".into())) } else { Ok(Val::L(ListV::empty())) } }
            if d.is_box() { return decode_ptr(ty, a, off) }
            match d.kind() {
                AdtKind::Union => {
                    // use the largest field
                    let fs = d.variants()[0].fields(); let mut best: Option<Ty> = None;
                    for f in fs { let t = f.ty_with_args(&args); if !is_zst(t) { best = Some(t) } }
                    match best { Some(t) => decode(t, a, off).or(Ok(Val::Uninit)), None => Ok(unit()) }
                }
                AdtKind::Struct => {
                    let fs = d.variants()[0].fields();
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() { let t = f.ty_with_args(&args); v.push((is_zst(t), decode(t, a, off + foff(&sh.fields, i)).unwrap_or(Val::Uninit))) }
                    if transparent(ty) { for (z, x) in v.iter() { if !z { return Ok(x.clone()) } } return Ok(unit()) }
                    Ok(agg(v.into_iter().map(|x| x.1).collect()))
                }
                AdtKind::Enum => {
                    let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                        VariantsShape::Empty => return Ok(Val::Uninit),
                        VariantsShape::Single { index } => (index.to_index(), (0..sh.fields.count()).map(|i| foff(&sh.fields, i)).collect()),
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let prim = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => *value };
                            let to = off + foff(&sh.fields, *tag_field);
                            let (w, has_ptr) = match prim { Primitive::Int { length, .. } => (length.bits() as u8, false), Primitive::Pointer(_) => (64, true), _ => return Err("float tag".into()) };
                            let isp = has_ptr && a.provenance.ptrs.iter().any(|(o, _)| *o == to);
                            let raw = rd(b, to, w as usize / 8).unwrap_or(0);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => { let mut r = None; for i in 0..d.num_variants() { let dv = d.discriminant_for_variant(VariantIdx::to_val(i)); if dv.val & mask(w) == raw { r = Some(i) } } r.ok_or("bad tag")? }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if isp { untagged_variant.to_index() } else {
                                        let rel = raw.wrapping_sub(*niche_start) & mask(w);
                                        let (s, e) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                                        if rel <= (e - s) as u128 { s + rel as usize } else { untagged_variant.to_index() }
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                        }
                    };
                    let fs = d.variants()[vi].fields();
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() { v.push(decode(f.ty_with_args(&args), a, off + offs[i])?) }
                    Ok(en(vi as u32, v))
                }
            }
        }
        _ => Err(format!("const of type {}", ty)),
    }
}
fn foff(f: &FieldsShape, i: usize) -> usize { match f { FieldsShape::Arbitrary { offsets } => offsets[i].bytes(), FieldsShape::Array { stride, .. } => stride.bytes() * i, _ => 0 } }
fn decode_ptr(ty: Ty, a: &Allocation, off: usize) -> R<Val> {
    let pt = pointee(ty);
    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off);
    let addr = rd(&a.bytes, off, 8)?;
    let p = match prov { None => return Ok(ptr(Root::Addr(usz(addr as u64)), vec![])), Some((_, p)) => p.0 };
    match GlobalAlloc::from(p) {
        GlobalAlloc::Function(i) => Ok(Val::Fn(i)),
        GlobalAlloc::Memory(m) => {
            let pt = pt.ok_or("const fn ptr to memory")?;
            match pt.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let n = rd(&a.bytes, off + 8, 8)? as usize; let s: Vec<u8> = m.bytes[addr as usize..addr as usize + n].iter().map(|x| x.unwrap_or(0)).collect();
                    Ok(Val::Str(String::from_utf8_lossy(&s).as_ref().into()))
                }
                TyKind::RigidTy(RigidTy::Slice(t)) => {
                    let n = rd(&a.bytes, off + 8, 8)? as usize; let sz = t.layout().map_err(|e| format!("{:?}", e))?.shape().size.bytes();
                    let mut v = vec![]; for i in 0..n { v.push(decode(t, &m, addr as usize + i * sz)?) }
                    Ok(ptr(Root::Const(add_const(agg(v))), vec![]))
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => Ok(Val::Op(0)),
                _ => { let v = decode(pt, &m, addr as usize).unwrap_or(Val::Uninit); Ok(ptr(Root::Const(add_const(v)), vec![])) }
            }
        }
        GlobalAlloc::Static(s) => Ok(Val::Str(format!("static:{}", s.name()).as_str().into())),
        GlobalAlloc::VTable(..) | GlobalAlloc::TypeId { .. } => Ok(Val::Op(0)),
    }
}
pub fn konst_val(c: &MirConst) -> R<Val> {
    let ty = c.ty();
    match c.kind() {
        ConstantKind::ZeroSized => zst_val(ty),
        ConstantKind::Allocated(a) => decode(ty, a, 0),
        ConstantKind::Ty(t) => match t.kind() { TyConstKind::Value(ty, a) => decode(*ty, a, 0), TyConstKind::ZSTValue(t) => zst_val(*t), k => Err(format!("ty const {:?}", k)) },
        ConstantKind::Unevaluated(u) => {
            let i = Instance::resolve(FnDef(u.def.def_id()), &u.args).map_err(|e| format!("unevaluated const {:?}", e))?;
            let a = i.try_const_eval(ty).map_err(|e| format!("const eval {:?}", e))?; decode(ty, &a, 0)
        }
        k => Err(format!("const kind {:?}", k)),
    }
}
pub fn zst_val(ty: Ty) -> R<Val> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Tuple(ts)) => { let v: R<Vec<Val>> = ts.iter().map(|t| zst_val(*t)).collect(); Ok(agg(v?)) }
        TyKind::RigidTy(RigidTy::Array(..)) => Ok(agg(vec![])),
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct && !transparent(ty) => { let v: R<Vec<Val>> = d.variants()[0].fields().iter().map(|f| zst_val(f.ty_with_args(&a))).collect(); Ok(agg(v?)) }
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => Ok(en(0, vec![])),
        _ => Ok(unit()),
    }
}
/// strip generic arguments `::<..>` from a path, keep `<impl ..>` segments
pub fn norm_name(n: &str) -> String {
    let b: Vec<char> = n.chars().collect();
    let mut out = String::new(); let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' && !n[n.char_indices().nth(i + 2).unwrap().0..].starts_with("<impl ") {
            let mut d = 0; let mut j = i + 2;
            while j < b.len() { if b[j] == '<' { d += 1 } else if b[j] == '>' && b[j - 1] != '-' { d -= 1; if d == 0 { break } } j += 1 }
            i = j + 1; continue;
        }
        out.push(b[i]); i += 1;
    }
    out
}
struct Tr<'a> { body: &'a Body }
impl<'a> Tr<'a> {
    fn place(&self, p: &Place) -> R<Pl> {
        let mut ty = self.body.locals()[p.local].ty;
        let mut proj = vec![];
        let mut down: Option<u16> = None;
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => proj.push(Pj::Deref),
                ProjectionElem::Field(i, fty) => {
                    if let Some(_) = down { proj.push(Pj::F(*i as u16)) }
                    else if transparent(ty) { if is_zst(*fty) { proj.push(Pj::Unit) } }
                    else { proj.push(Pj::F(*i as u16)) }
                }
                ProjectionElem::Index(l) => proj.push(Pj::I(*l as u32)),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => proj.push(Pj::CI(*offset, *min_length, *from_end)),
                ProjectionElem::Subslice { from, to, from_end } => proj.push(Pj::Sub(*from, *to, *from_end)),
                ProjectionElem::Downcast(v) => proj.push(Pj::V(v.to_index() as u16)),
                ProjectionElem::OpaqueCast(_) => {}
            }
            down = match e { ProjectionElem::Downcast(v) => Some(v.to_index() as u16), _ => None };
            ty = e.ty(ty).map_err(|e| format!("{:?}", e))?;
        }
        Ok(Pl { local: p.local as u32, proj })
    }
    fn op(&self, o: &Operand) -> R<Opnd> {
        Ok(match o {
            Operand::Copy(p) => Opnd::Copy(self.place(p)?), Operand::Move(p) => Opnd::Move(self.place(p)?),
            Operand::Constant(c) => match konst_val(&c.const_) { Ok(v) => Opnd::C(v), Err(e) => Opnd::Err(e) },
            Operand::RuntimeChecks(_) => Opnd::C(sb(false)),
        })
    }
    fn ty(&self, o: &Operand) -> R<Ty> { o.ty(self.body.locals()).map_err(|e| format!("{:?}", e)) }
    fn rv(&self, r: &Rvalue) -> R<Rv> {
        Ok(match r {
            Rvalue::Use(o, _) => Rv::Use(self.op(o)?),
            Rvalue::AddressOf(_, p) | Rvalue::Ref(_, _, p) => Rv::Addr(self.place(p)?),
            Rvalue::Reborrow(_, _, p) | Rvalue::CopyForDeref(p) => Rv::Use(Opnd::Copy(self.place(p)?)),
            Rvalue::BinaryOp(b, x, y) => Rv::Bin(*b, self.op(x)?, self.op(y)?, scal(self.ty(x)?), scal(self.ty(y)?)),
            Rvalue::CheckedBinaryOp(b, x, y) => Rv::Chk(*b, self.op(x)?, self.op(y)?, scal(self.ty(x)?)),
            Rvalue::UnaryOp(u, x) => Rv::Un(*u, self.op(x)?, scal(self.ty(x)?)),
            Rvalue::Cast(k, o, t) => Rv::Cast(*k, self.op(o)?, self.ty(o)?, *t),
            Rvalue::Discriminant(p) => {
                let ty = p.ty(self.body.locals()).map_err(|e| format!("{:?}", e))?;
                let dt = match ty.kind() { k => k.discriminant_ty() };
                let (w, s) = match dt.map(scal) { Some(Sk::Int(w, s)) => (w, s), _ => (64, true) };
                let map = match adt(ty) { Some((d, _)) if d.kind() == AdtKind::Enum => (0..d.num_variants()).map(|i| (i as u32, d.discriminant_for_variant(VariantIdx::to_val(i)).val & mask(w))).collect(), _ => vec![] };
                Rv::Discr(self.place(p)?, Rc::new(map), w, s)
            }
            Rvalue::Len(p) => Rv::Len(self.place(p)?),
            Rvalue::Repeat(o, n) => Rv::Repeat(self.op(o)?, n.eval_target_usize().map_err(|e| format!("{:?}", e))?),
            Rvalue::ThreadLocalRef(i) => Rv::Tls(i.name().to_string()),
            Rvalue::Aggregate(k, os) => {
                let v: R<Vec<Opnd>> = os.iter().map(|o| self.op(o)).collect(); let v = v?;
                match k {
                    AggregateKind::Array(_) => Rv::Array(v),
                    AggregateKind::Tuple | AggregateKind::Closure(..) => Rv::Tuple(v),
                    AggregateKind::Adt(d, vi, args, _, af) => match d.kind() {
                        AdtKind::Enum => Rv::Variant(vi.to_index() as u32, v),
                        AdtKind::Union => { let _ = af; Rv::UnionField(v.into_iter().next().ok_or("union agg")?) }
                        AdtKind::Struct => {
                            let t = d.ty_with_args(args);
                            if transparent(t) {
                                let fs = d.variants()[0].fields();
                                let mut pick = None;
                                for (i, f) in fs.iter().enumerate() { if !is_zst(f.ty_with_args(args)) { pick = Some(i) } }
                                match pick { Some(i) => Rv::UnionField(v.into_iter().nth(i).unwrap()), None => Rv::Tuple(vec![]) }
                            } else { Rv::Tuple(v) }
                        }
                    },
                    AggregateKind::RawPtr(..) => { let mut it = v.into_iter(); Rv::RawPtr(it.next().unwrap(), it.next().unwrap()) }
                    _ => return Err("coroutine".into()),
                }
            }
        })
    }
}
pub fn translate(inst: Instance) -> R<Fnc> {
    let body = inst.body().ok_or_else(|| format!("no body: {}", inst.name()))?;
    let tr = Tr { body: &body };
    let mut blocks = vec![];
    let mut extra: Vec<Blk> = vec![];
    let mut file = String::new();
    for bb in &body.blocks {
        let mut st = vec![];
        for s in &bb.statements {
            match &s.kind {
                StatementKind::Assign(p, r) => st.push(St::Assign(tr.place(p)?, tr.rv(r)?)),
                StatementKind::SetDiscriminant { place, variant_index } => st.push(St::SetDiscr(tr.place(place)?, variant_index.to_index() as u32)),
                StatementKind::StorageDead(l) => st.push(St::Dead(*l as u32)),
                StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => st.push(St::CopyNo(tr.op(&c.src)?, tr.op(&c.dst)?, tr.op(&c.count)?)),
                _ => {}
            }
        }
        let sp = bb.terminator.source_info.span;
        let line = sp.get_lines().start_line as u32;
        if file.is_empty() { file = sp.get_filename().to_string() }
        let tm = match &bb.terminator.kind {
            TerminatorKind::Goto { target } => Tm::Goto(*target),
            TerminatorKind::SwitchInt { discr, targets } => Tm::Switch(tr.op(discr)?, targets.branches().collect(), targets.otherwise()),
            TerminatorKind::Return => Tm::Ret,
            TerminatorKind::Unreachable => Tm::Unreach,
            TerminatorKind::Resume | TerminatorKind::Abort => Tm::Abort,
            TerminatorKind::Drop { target, .. } => Tm::Goto(*target),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => Tm::Assert { cond: tr.op(cond)?, expected: *expected, msg: msg.description().map(|s| s.to_string()).unwrap_or_else(|_| match msg { AssertMessage::BoundsCheck { .. } => "index out of bounds".into(), AssertMessage::Overflow(b, ..) => format!("attempt to {:?} with overflow", b), m => format!("{:?}", m).chars().take(60).collect() }), target: *target },
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = tr.ty(func)?;
                let to = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => CallTo::Direct(callee(d, &a)),
                    _ => CallTo::Indirect(tr.op(func)?),
                };
                let av: R<Vec<Opnd>> = args.iter().map(|a| tr.op(a)).collect();
                let at: R<Vec<Ty>> = args.iter().map(|a| tr.ty(a)).collect();
                Tm::Call { to, args: av?, argtys: at?, dest: tr.place(destination)?, dty: destination.ty(body.locals()).map_err(|e| format!("{:?}", e))?, target: *target }
            }
            TerminatorKind::InlineAsm { .. } => Tm::Unsup("inline asm".into()),
        };
        let split = !st.is_empty() && matches!(&tm, Tm::Call { to: CallTo::Direct(c), .. } if matches!(&*c.name, "std::iter::Iterator::next" | "std::iter::DoubleEndedIterator::next_back"));
        if split { let id = body.blocks.len() + extra.len(); extra.push(Blk { st: vec![], tm, line, nest: vec![], pos: 0, head_of: None, live_in: vec![] }); blocks.push(Blk { st, tm: Tm::Goto(id), line, nest: vec![], pos: 0, head_of: None, live_in: vec![] }); }
        else { blocks.push(Blk { st, tm, line, nest: vec![], pos: 0, head_of: None, live_in: vec![] }); }
    }
    blocks.extend(extra);
    let ltys: Vec<Ty> = body.locals().iter().map(|l| l.ty).collect();
    let mut f = Fnc { name: inst.name().to_string(), file, inst, blocks, nlocals: ltys.len(), nargs: body.arg_locals().len(), spine: inst.name().contains("die_e::") && ltys.iter().any(|t| format!("{}", t).contains("NodeStore")), ltys, spread: None };
    wto(&mut f);
    Ok(f)
}
thread_local! { static CALLEES: std::cell::RefCell<std::collections::HashMap<(FnDef, GenericArgs), Rc<Callee>>> = Default::default(); }
pub fn callee(d: FnDef, a: &GenericArgs) -> Rc<Callee> {
    let k = (d, a.clone());
    if let Some(c) = CALLEES.with(|m| m.borrow().get(&k).cloned()) { return c }
    let name = norm_name(&d.name());
    let inst = Instance::resolve(d, a).ok();
    let rname = inst.map(|i| norm_name(&i.name())).unwrap_or_default();
    let c = Rc::new(Callee { def: d, gargs: a.clone(), name: name.as_str().into(), inst, rname: rname.as_str().into() });
    CALLEES.with(|m| m.borrow_mut().insert(k, c.clone()));
    c
}
fn succs(t: &Tm) -> Vec<usize> {
    match t { Tm::Goto(x) => vec![*x], Tm::Switch(_, v, o) => { let mut r: Vec<usize> = v.iter().map(|x| x.1).collect(); r.push(*o); r } Tm::Call { target, .. } => target.iter().copied().collect(), Tm::Assert { target, .. } => vec![*target], _ => vec![] }
}
/// weak topological order (Bourdoncle)
fn wto(f: &mut Fnc) {
    let n = f.blocks.len();
    let su: Vec<Vec<usize>> = f.blocks.iter().map(|b| succs(&b.tm)).collect();
    struct W<'a> { su: &'a Vec<Vec<usize>>, dfn: Vec<usize>, num: usize, stack: Vec<usize>, }
    #[derive(Debug)]
    enum E { B(usize), C(usize, Vec<E>) }
    // iterative-free recursion is fine (bodies are small); run on a big stack
    fn visit(w: &mut W, v: usize, part: &mut Vec<E>) -> usize {
        w.stack.push(v); w.num += 1; w.dfn[v] = w.num; let mut head = w.num; let mut lp = false;
        for &s in &w.su[v] { let m = if w.dfn[s] == 0 { visit(w, s, part) } else { w.dfn[s] }; if m <= head { head = m; lp = true } }
        if head == w.dfn[v] {
            w.dfn[v] = usize::MAX;
            let mut e = w.stack.pop().unwrap();
            if lp {
                while e != v { w.dfn[e] = 0; e = w.stack.pop().unwrap() }
                let mut inner = vec![];
                for &s in &w.su[v] { if w.dfn[s] == 0 { visit(w, s, &mut inner); } }
                inner.reverse();
                part.push(E::C(v, inner));
            } else { part.push(E::B(v)) }
        }
        head
    }
    let mut w = W { su: &su, dfn: vec![0; n], num: 0, stack: vec![] };
    let mut part = vec![];
    visit(&mut w, 0, &mut part);
    part.reverse();
    let mut pos = 0; 
    fn walk(es: &[E], f: &mut Fnc, nest: &mut Vec<u32>, pos: &mut u32) {
        for e in es { match e {
            E::B(b) => { f.blocks[*b].pos = *pos; f.blocks[*b].nest = nest.clone(); *pos += 1 }
            E::C(h, inner) => { nest.push(*pos); f.blocks[*h].pos = *pos; f.blocks[*h].nest = nest.clone(); f.blocks[*h].head_of = Some(*pos); *pos += 1; walk(inner, f, nest, pos); nest.pop(); }
        } }
    }
    walk(&part, f, &mut vec![], &mut pos);
}
