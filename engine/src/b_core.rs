//! Builtin dispatch, equality / ordering / cloning of values, core library functions.
use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::rc::Rc;

/// Ok(x): handled; Err(st): not a builtin
pub type B = R<Result<Option<(State, Val)>, State>>;
pub struct Cx<'a> { pub c: &'a Rc<Callee>, pub args: &'a [Val], pub tys: &'a [Ty], pub dty: Ty }
impl<'a> Cx<'a> {
    pub fn self_ty(&self) -> R<Ty> { garg_ty(&self.c.gargs, 0).or(self.tys.first().copied()).ok_or("self type".into()) }
    pub fn ga(&self, i: usize) -> R<Ty> { garg_ty(&self.c.gargs, i).ok_or_else(|| format!("generic arg {} of {}", i, self.c.name)) }
}
#[macro_export]
macro_rules! ok { ($s:expr, $v:expr) => { { let v = $v; return Ok(Ok(Some(($s, v)))) } } }

thread_local! { static PLAIN: std::cell::RefCell<HashMap<(Ty, u8), bool>> = Default::default(); }
/// is `inst` generated by #[derive(what)]?
pub fn is_derived(inst: Instance, what: &str) -> bool {
    thread_local! { static M: std::cell::RefCell<HashMap<(Instance, String), bool>> = Default::default(); }
    let k = (inst, what.to_string());
    if let Some(b) = M.with(|m| m.borrow().get(&k).copied()) { return b }
    let r = (|| {
        let b = inst.body()?; let sp = b.span; let l = sp.get_lines();
        if l.start_line != l.end_line { return Some(false) }
        let src = std::fs::read_to_string(sp.get_filename().to_string()).ok()?;
        let line = src.lines().nth(l.start_line - 1)?;
        let s: String = line.chars().skip(l.start_col - 1).take(l.end_col - l.start_col).collect();
        Some(s.trim() == what)
    })().unwrap_or(false);
    M.with(|m| m.borrow_mut().insert(k, r));
    r
}
impl Eng {
    /// types whose trait behaviour is purely structural. what: 0 Clone, 1 PartialEq, 2 Ord
    pub fn plain(&mut self, ty: Ty, what: u8) -> bool {
        if let Some(b) = PLAIN.with(|p| p.borrow().get(&(ty, what)).copied()) { return b }
        PLAIN.with(|p| p.borrow_mut().insert((ty, what), true)); // recursive types
        let r = match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) | RigidTy::Str | RigidTy::Never | RigidTy::FnDef(..) | RigidTy::FnPtr(_) | RigidTy::RawPtr(..) => true,
                RigidTy::Ref(_, t, _) => what == 0 || self.plain(t, what),
                RigidTy::Tuple(ts) => ts.iter().all(|t| self.plain(*t, what)),
                RigidTy::Array(t, _) | RigidTy::Slice(t) => self.plain(t, what),
                RigidTy::Closure(_, args) => { what == 0 && match args.0.last() { Some(GenericArgKind::Type(t)) => self.plain(*t, what), _ => false } }
                RigidTy::Adt(d, a) => {
                    let n = d.name();
                    if d.is_box() { what != 0 && garg_ty(&a, 0).map(|t| self.plain(t, what)).unwrap_or(false) }
                    else if n.ends_with("::Rc") || n.ends_with("::Arc") { what == 0 || garg_ty(&a, 0).map(|t| self.plain(t, what)).unwrap_or(false) }
                    else if builtin_adt(&n) || is_vec(&n) { if n.ends_with("String") { true } else { a.0.iter().all(|x| match x { GenericArgKind::Type(t) => { let s = adt_name(*t).unwrap_or_default(); s.contains("alloc::Global") || s.contains("RandomState") || self.plain(*t, what) } _ => true }) } }
                    else if n.starts_with("std::") || n.starts_with("core::") || n.starts_with("alloc::") {
                        matches!(n.rsplit("::").next().unwrap_or(""), "Option" | "Result" | "Range" | "RangeInclusive" | "Ordering" | "Wrapping" | "PhantomData" | "PathBuf" | "Reverse" | "Duration") && a.0.iter().all(|x| match x { GenericArgKind::Type(t) => self.plain(*t, what), _ => true })
                    } else {
                        let (nm, lang) = match what { 0 => ("Clone", "clone"), 1 => ("PartialEq", "eq"), _ => ("Ord", "cmp") };
                        let derived = match self.lang.get(lang).cloned() { Some((f, _)) => { let ga = GenericArgs(if what == 1 { vec![GenericArgKind::Type(ty), GenericArgKind::Type(ty)] } else { vec![GenericArgKind::Type(ty)] }); match callee(f, &ga).inst { Some(i) => is_derived(i, nm), None => false } } None => false };
                        derived && d.variants().iter().all(|v| v.fields().iter().all(|f| { let t = f.ty_with_args(&a); self.plain(t, what) }))
                    }
                }
                _ => false,
            },
            _ => false,
        };
        PLAIN.with(|p| p.borrow_mut().insert((ty, what), r));
        r
    }
    /// clone the value behind a pointer
    pub fn clone_of(&mut self, mut st: State, p: &Val, ty: Ty) -> Ctl {
        if self.plain(ty, 0) { let v = self.read_p(&st, p)?; return Ok(Some((st, v))) }
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                let n = d.name();
                if d.is_box() {
                    let inner = self.read_p(&st, p)?; let it = garg_ty(&a, 0).ok_or("box arg")?;
                    return Ok(match self.clone_of(st, &inner, it)? { None => None, Some((mut s, v)) => { let t = self.alloc(&mut s, v); Some((s, tptr(t))) } });
                }
                if is_vec(&n) || n.ends_with("HashSet") { let et = garg_ty(&a, 0).ok_or("vec arg")?; return self.clone_list(st, p, et) }
                if n.ends_with("option::Option") {
                    let v = self.read_p(&st, p)?; let g = is_variant(&v, 1)?; let t = garg_ty(&a, 0).ok_or("opt arg")?;
                    let pay = payload(&v, 1)?; let x = match pay.get(0) { Some(x) if g != F => x.clone(), _ => return Ok(Some((st, v))) };
                    let tmp = self.alloc(&mut st, x);
                    return Ok(match self.guarded(st, g, |e, s| e.clone_of(s, &tptr(tmp), t))? { None => None, Some((s, x)) => Some((s, option(g, x))) });
                }
            }
            TyKind::RigidTy(RigidTy::Array(t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) => return self.clone_list(st, p, t),
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let mut out = vec![]; let mut s = st;
                for (i, t) in ts.iter().enumerate() { match self.clone_of(s, &self.sub_ptr(p, &[PE::F(i as u16)]), *t)? { None => return Ok(None), Some((s2, v)) => { s = s2; out.push(v) } } }
                return Ok(Some((s, agg(out))));
            }
            _ => {}
        }
        self.lang_call(st, "clone", &[ty], vec![p.clone()])
    }
    fn clone_list(&mut self, st: State, p: &Val, et: Ty) -> Ctl {
        let ptrs = self.elem_ptrs(&st, p)?; let was_agg = matches!(self.read_p(&st, p)?, Val::Agg(_));
        let mut s = st; let mut out = vec![];
        for sl in ptrs.s() { let pv = sl.v.clone(); match self.guarded(s, sl.g, |e, s| e.clone_of(s, &pv, et))? { None => return Ok(None), Some((s2, v)) => { s = s2; out.push(Slot { g: sl.g, v }) } } }
        let v = if was_agg { agg(out.into_iter().map(|s| s.v).collect()) } else { Val::L(ListV::new(out)) };
        Ok(Some((s, v)))
    }
    /// structural equality
    pub fn eq_vals(&mut self, st: &State, a: &Val, b: &Val, ty: Ty, ty2: Ty) -> R<T> {
        if let Val::U(u) = a { let mut acc = F; for (g, x) in u.iter().rev() { let y = self.eq_vals(st, x, b, ty, ty2)?; acc = ite(*g, y, acc) } return Ok(acc) }
        if let Val::U(u) = b { let mut acc = F; for (g, x) in u.iter().rev() { let y = self.eq_vals(st, a, x, ty, ty2)?; acc = ite(*g, y, acc) } return Ok(acc) }
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_)) => Ok(eq(a.t()?, b.t()?)),
            TyKind::RigidTy(RigidTy::Float(_)) => Ok(mk(Op::FEq, Sort::Bool, &[a.t()?, b.t()?], 0)),
            TyKind::RigidTy(RigidTy::Never) => Ok(TR),
            TyKind::RigidTy(RigidTy::Str) => str_eq(a, b),
            TyKind::RigidTy(RigidTy::RawPtr(..)) | TyKind::RigidTy(RigidTy::FnPtr(_)) => self.ptr_eq(a, b),
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) => {
                let t2 = pointee(ty2).unwrap_or(t);
                if matches!(t.kind(), TyKind::RigidTy(RigidTy::Str)) { let (x, y) = (self.read_str(st, a)?, self.read_str(st, b)?); return str_eq(&x, &y) }
                let (x, y) = (self.read_p(st, a)?, self.read_p(st, b)?); self.eq_vals(st, &x, &y, t, t2)
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => { let mut v = vec![]; for (i, t) in ts.iter().enumerate() { v.push(self.eq_vals(st, &a.field(i)?, &b.field(i)?, *t, *t)?); if *v.last().unwrap() == F { return Ok(F) } } Ok(and_n(&v)) }
            TyKind::RigidTy(RigidTy::Array(t, _) | RigidTy::Slice(t)) => self.eq_seq(st, a, b, t),
            TyKind::RigidTy(RigidTy::Adt(d, ga)) => {
                let n = d.name();
                if n.ends_with("string::String") || n.ends_with("PathBuf") { let y = self.read_str(st, b)?; return str_eq(a, &y) }
                if is_vec(&n) { return self.eq_seq(st, a, b, garg_ty(&ga, 0).unwrap()) }
                if n.ends_with("HashSet") || n.ends_with("BTreeSet") { return self.eq_set(st, a, b, garg_ty(&ga, 0).unwrap()) }
                if d.is_box() { let t = garg_ty(&ga, 0).unwrap(); let (x, y) = (self.read_p(st, a)?, self.read_p(st, b)?); return self.eq_vals(st, &x, &y, t, t) }
                if transparent(ty) { let f = d.variants()[0].fields().into_iter().map(|f| f.ty_with_args(&ga)).find(|t| !is_zst(*t)); return match f { Some(t) => self.eq_vals(st, a, b, t, t), None => Ok(TR) } }
                if !self.plain(ty, 1) { return Err(format!("PartialEq of {} is not structural", ty)) }
                match d.kind() {
                    rustc_public::ty::AdtKind::Struct => { let mut v = vec![]; for (i, f) in d.variants()[0].fields().iter().enumerate() { let t = f.ty_with_args(&ga); v.push(self.eq_vals(st, &a.field(i)?, &b.field(i)?, t, t)?); if *v.last().unwrap() == F { return Ok(F) } } Ok(and_n(&v)) }
                    _ => {
                        let (ta, tb) = match (a, b) { (Val::En(x), Val::En(y)) => (x.tag, y.tag), _ => return Err(format!("enum eq {} {}", kind(a), kind(b))) };
                        let te = eq(ta, tb); if te == F { return Ok(F) }
                        let mut v = vec![te];
                        for (vi, var) in d.variants().iter().enumerate() {
                            let here = eq(ta, bv(16, vi as u128)); if and(here, te) == F { continue }
                            let (pa, pb) = (payload(a, vi as u32)?, payload(b, vi as u32)?);
                            for (i, f) in var.fields().iter().enumerate() { let t = f.ty_with_args(&ga); if let (Some(x), Some(y)) = (pa.get(i), pb.get(i)) { let e = self.eq_vals(st, x, y, t, t)?; v.push(implies(here, e)) } }
                        }
                        Ok(and_n(&v))
                    }
                }
            }
            k => Err(format!("equality of {:?}", k)),
        }
    }
    fn eq_seq(&mut self, st: &State, a: &Val, b: &Val, t: Ty) -> R<T> {
        let (la, lb) = (a.list()?, b.list()?);
        let aligned = la.n() == lb.n() && la.s().iter().zip(lb.s()).all(|(x, y)| x.g == y.g);
        let (la, lb) = if aligned { (la, lb) } else { (la.compact()?, lb.compact()?) };
        let n = la.n().max(lb.n());
        let mut v = vec![];
        for i in 0..n {
            let (ga, gb) = (la.s().get(i).map(|s| s.g).unwrap_or(F), lb.s().get(i).map(|s| s.g).unwrap_or(F));
            let e = eq(ga, gb); if e == F { return Ok(F) } v.push(e);
        }
        for i in 0..la.n().min(lb.n()) { let (x, y) = (&la.s()[i], &lb.s()[i]); let both = and(x.g, y.g); if both == F { continue } let e = self.eq_vals(st, &x.v, &y.v, t, t)?; let z = implies(both, e); if z == F { return Ok(F) } v.push(z) }
        Ok(and_n(&v))
    }
    fn eq_set(&mut self, st: &State, a: &Val, b: &Val, t: Ty) -> R<T> {
        let (la, lb) = (a.list()?, b.list()?);
        let mut v = vec![eq(la.len_t(), lb.len_t())];
        for x in la.s() { let mut o = vec![]; for y in lb.s() { let e = self.eq_vals(st, &x.v, &y.v, t, t)?; o.push(and(y.g, e)) } v.push(implies(x.g, or_n(&o))) }
        Ok(and_n(&v))
    }
    pub fn read_str(&self, st: &State, v: &Val) -> R<Val> { match v { Val::P(_) => { let x = self.read_p(st, v)?; self.read_str(st, &x) } _ => Ok(v.clone()) } }
    /// structural ordering: (a < b, a == b). Floats: partial order.
    pub fn cmp_vals(&mut self, st: &State, a: &Val, b: &Val, ty: Ty) -> R<(T, T)> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Bool) => { let (x, y) = (a.t()?, b.t()?); Ok((and(not(x), y), eq(x, y))) }
            TyKind::RigidTy(RigidTy::Char | RigidTy::Uint(_)) => { let (x, y) = (a.t()?, b.t()?); Ok((ult(x, y), eq(x, y))) }
            TyKind::RigidTy(RigidTy::Int(_)) => { let (x, y) = (a.t()?, b.t()?); Ok((slt(x, y), eq(x, y))) }
            TyKind::RigidTy(RigidTy::Float(_)) => { let (x, y) = (a.t()?, b.t()?); Ok((mk(Op::FLt, Sort::Bool, &[x, y], 0), mk(Op::FEq, Sort::Bool, &[x, y], 0))) }
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) => { let (x, y) = (self.read_p(st, a)?, self.read_p(st, b)?); self.cmp_vals(st, &x, &y, t) }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let (mut lt, mut e) = (F, TR);
                for (i, t) in ts.iter().enumerate() { let (l, q) = self.cmp_vals(st, &a.field(i)?, &b.field(i)?, *t)?; lt = or(lt, and(e, l)); e = and(e, q) }
                Ok((lt, e))
            }
            TyKind::RigidTy(RigidTy::Array(t, _) | RigidTy::Slice(t)) => self.cmp_seq(st, a, b, t),
            TyKind::RigidTy(RigidTy::Adt(d, ga)) => {
                let n = d.name();
                if is_vec(&n) { return self.cmp_seq(st, a, b, garg_ty(&ga, 0).unwrap()) }
                if n.ends_with("cmp::Reverse") { let t = garg_ty(&ga, 0).unwrap(); let (x, y) = if transparent(ty) { (a.clone(), b.clone()) } else { (a.field(0)?, b.field(0)?) }; return self.cmp_vals(st, &y, &x, t) }
                if n.ends_with("cmp::Ordering") || n.ends_with("option::Option") {
                    let (ta, tb) = match (a, b) { (Val::En(x), Val::En(y)) => (x.tag, y.tag), _ => return Err("enum cmp".into()) };
                    if n.ends_with("Ordering") { return Ok((ult(ta, tb), eq(ta, tb))) }
                    let t = garg_ty(&ga, 0).unwrap(); let (pa, pb) = (payload(a, 1)?, payload(b, 1)?);
                    let both = and(eq(ta, bv(16, 1)), eq(tb, bv(16, 1)));
                    let (l, q) = match (pa.get(0), pb.get(0)) { (Some(x), Some(y)) if both != F => self.cmp_vals(st, x, y, t)?, _ => (F, TR) };
                    return Ok((or(ult(ta, tb), and(both, l)), and(eq(ta, tb), implies(both, q))));
                }
                Err(format!("ordering of {}", n))
            }
            k => Err(format!("ordering of {:?}", k)),
        }
    }
    fn cmp_seq(&mut self, st: &State, a: &Val, b: &Val, t: Ty) -> R<(T, T)> {
        let (la, lb) = (a.list()?.compact()?, b.list()?.compact()?);
        let (mut lt, mut e) = (F, TR);
        for i in 0..la.n().max(lb.n()) {
            let (x, y) = (la.s().get(i), lb.s().get(i));
            let (gx, gy) = (x.map(|s| s.g).unwrap_or(F), y.map(|s| s.g).unwrap_or(F));
            let both = and(gx, gy);
            let (l, q) = match (x, y) { (Some(x), Some(y)) if both != F => self.cmp_vals(st, &x.v, &y.v, t)?, _ => (F, TR) };
            lt = or(lt, and(e, or(and(not(gx), gy), and(both, l))));
            e = and(e, and(eq(gx, gy), implies(both, q)));
        }
        Ok((lt, e))
    }
    /// the builtin entry point
    pub fn builtin(&mut self, st: State, c: &Rc<Callee>, args: &[Val], tys: &[Ty], dty: Ty, inloop: bool, backup: Option<State>) -> R<Result<CallRes, State>> {
        let cx = Cx { c, args, tys, dty };
        let n: &str = &c.name;
        if n == "std::iter::Iterator::next" || n == "std::iter::DoubleEndedIterator::next_back" { return self.b_next(st, &cx, inloop, backup) }
        let fin = |x: Result<Option<(State, Val)>, State>| x.map(CallRes::Done);
        macro_rules! t { ($e:expr) => { match $e? { Ok(x) => return Ok(fin(Ok(x))), Err(s) => s } } }
        let st = t!(self.b_sym(st, &cx));
        let st = t!(self.b_iterm(st, &cx));
        let st = t!(self.b_seq(st, &cx));
        let st = t!(self.b_core(st, &cx));
        let st = t!(self.b_num(st, &cx));
        let st = t!(self.b_misc(st, &cx));
        let st = t!(self.b_tensor(st, &cx));
        Ok(Err(st))
    }
}
pub fn str_eq(a: &Val, b: &Val) -> R<T> { match (a, b) { (Val::Str(x), Val::Str(y)) => Ok(boolc(x == y)), _ => Err(format!("string equality of {} and {}", kind(a), kind(b))) } }
