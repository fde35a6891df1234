//! core / num / random / formatting / harness builtins.
use crate::b_core::*;
use crate::exec::*;
use crate::ir::*;
use crate::ok;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::rc::Rc;

pub fn int_min(w: u8) -> T { bv(w, 1u128 << (w - 1)) }
impl Eng {
    pub fn b_sym(&mut self, st: State, cx: &Cx) -> B {
        let n: &str = &cx.c.name;
        let n = n.strip_prefix("harness::").unwrap_or(n);
        let m = match n.strip_prefix("sym::") { Some(m) => m, None => return Ok(Err(st)) };
        let a = cx.args; let mut st = st;
        let label = |v: &Val| -> R<String> { match v { Val::Str(s) => Ok(s.to_string()), v => Err(format!("label {}", kind(v))) } };
        match m {
            "any" => {
                // any::<T>(label, lo, hi)
                let l = label(&a[0])?; let sk = scal(cx.dty); let so = sk_sort(sk).ok_or("any type")?;
                let v = match sk {
                    Sk::Int(_, s) => {
                        let (lo, hi) = (a[1].t()?, a[2].t()?);
                        let rg = match (s, scval(lo), scval(hi), cval(lo), cval(hi)) { (true, Some(x), Some(y), ..) => Some((x, y, true)), (false, _, _, Some(x), Some(y)) => Some((x as i128, y as i128, false)), _ => None };
                        let v = if rg.map(|(x, y, _)| x == y).unwrap_or(false) { lo } else { self.fresh_var(&l, so, rg) };
                        if rg.is_none() { let le = |x, y| if s { not(slt(y, x)) } else { not(ult(y, x)) }; if !st.pc.push(and(le(lo, v), le(v, hi))) { return Ok(Ok(None)) } }
                        v
                    }
                    Sk::Fl(_) => { let v = self.fresh_var(&l, so, None); let c = and(mk(Op::FLe, Sort::Bool, &[a[1].t()?, v], 0), mk(Op::FLe, Sort::Bool, &[v, a[2].t()?], 0)); if !st.pc.push(c) { return Ok(Ok(None)) } v }
                    _ => self.fresh_var(&l, so, None),
                };
                self.records.push((format!("sym:{}", l), st.pc.term(), v));
                ok!(st, Val::S(v))
            }
            "any_bool" => { let l = label(&a[0])?; let v = self.fresh_var(&l, Sort::Bool, None); self.records.push((format!("sym:{}", l), st.pc.term(), v)); ok!(st, Val::S(v)) }
            "any_f32" => { let l = label(&a[0])?; let v = self.fresh_var(&l, Sort::F32, None); self.records.push((format!("sym:{}", l), st.pc.term(), v)); ok!(st, Val::S(v)) }
            "decide_n" => { let t = a[0].t()?; let t = st.pc.simp(t); if is_const(t) || !self.split { ok!(st, Val::S(t)) } let t = self.choose_idx(&mut st, t)?; ok!(st, Val::S(t)) }
            "decide" => { let c = a[0].t()?; let c = st.pc.simp(c); if is_const(c) || !self.split { ok!(st, Val::S(c)) } let r = match self.choose(&mut st, &[c, not(c)])? { None => return Ok(Ok(None)), Some(0) => TR, _ => F }; ok!(st, Val::S(r)) }
            "assume" => { let c = a[0].t()?; if !st.pc.push(c) { return Ok(Ok(None)) } ok!(st, unit()) }
            "assume_lazy" => { let c = a[0].t()?; let c = and(st.pc.term(), not(c)); if c == TR { return Ok(Ok(None)) } self.lazy.push(not(c)); ok!(st, unit()) }
            "check" => { let c = a[0].t()?; let l = label(&a[1])?; let v = match st.pc.decide(c) { Some(true) => F, _ => and(st.pc.term(), not(c)) }; self.oblige(ObKind::Check, l, v); ok!(st, unit()) }
            "cover" | "reach" => { let c = a[0].t()?; let l = label(&a[1])?; let v = and(st.pc.term(), c); self.oblige(ObKind::Cover, l, v); ok!(st, unit()) }
            "param" => { let l = label(&a[0])?; let d = scval(a[1].t()?).ok_or("param default")?; let v = self.params.get(&l).copied().unwrap_or(d as i64); ok!(st, Val::S(bv(64, v as i128 as u128))) }
            "conf" => ok!(st, crate::b_num::opaque_of(cx.dty)),
            "cfg_int" | "cfg_float" => { let l = label(&a[0])?; self.cfg.insert(l, a[1].t()?); ok!(st, unit()) }
            "config" => ok!(st, Val::Op(20)),
            "engine" => ok!(st, sb(true)),
            "dump" => { eprintln!("DUMP {} = {}", label(&a[0]).unwrap_or_default(), match self.read_p(&st, &a[1]) { Ok(v) => dump(&v, 6), Err(e) => e }); ok!(st, unit()) }
            "dead" => { ok!(st, Val::S(boolc(st.pc.decide(TR) == Some(false)))) }
            "stub_net" => { let l = label(&a[0])?; let _ = l; ok!(st, Val::Op(30)) }
            _ => { let r = self.b_sym_tensor(st, cx, m)?; match r { Ok(x) => Ok(Ok(x)), Err(st) => Ok(Err(st)) } }
        }
    }
    pub fn b_core(&mut self, st: State, cx: &Cx) -> B {
        let n: &str = &cx.c.name;
        let a = cx.args; let mut st = st;
        let (cl, m) = match n.rsplit_once("::") { Some(x) => x, None => return Ok(Err(st)) };
        if m == "precondition_check" { ok!(st, unit()) }
        match cl {
            "std::clone::Clone" => {
                let ty = cx.self_ty()?;
                if m == "clone_from" { return Ok(match self.clone_of(st, &a[1], ty)? { None => Ok(None), Some((mut s, v)) => { self.write_p(&mut s, &a[0], &v)?; Ok(Some((s, unit()))) } }) }
                let std_t = match ty.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => { let n = d.name(); d.is_box() || builtin_adt(&n) || is_vec(&n) || n.ends_with("option::Option") } _ => true };
                if n.ends_with("clone") && (std_t || self.plain(ty, 0)) { return Ok(Ok(self.clone_of(st, &a[0], ty)?)) }
                if let Some(nm) = adt_name(ty) { if nm.starts_with("indicatif") || nm.starts_with("tch::") && nm.ends_with("Kind") || nm.starts_with("config::") { let v = self.read_p(&st, &a[0])?; ok!(st, v) } }
                Ok(Err(st))
            }
            "std::cmp::PartialEq" => {
                let ty = cx.self_ty()?; let ty2 = garg_ty(&cx.c.gargs, 1).unwrap_or(ty);
                if self.plain(ty, 1) || matches!(ty.kind(), TyKind::RigidTy(RigidTy::Str)) {
                    let isstr = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Str)) || adt_name(ty).map(|n| n.ends_with("String")).unwrap_or(false);
                    let (x, y) = if isstr { (self.read_str(&st, &a[0])?, self.read_str(&st, &a[1])?) } else { (self.read_p(&st, &a[0])?, self.read_p(&st, &a[1])?) };
                    let e = if isstr { str_eq(&x, &y)? } else { self.eq_vals(&st, &x, &y, ty, ty2)? };
                    ok!(st, Val::S(if m == "ne" { not(e) } else { e }))
                }
                // sequences of non-structural elements: element-wise user equality
                Ok(Err(st))
            }
            "std::cmp::PartialOrd" | "std::cmp::Ord" => {
                let ty = cx.self_ty()?;
                let okty = |t: Ty| -> bool { fn go(t: Ty) -> bool { match t.kind() { TyKind::RigidTy(RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_)) => true, TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().all(|t| go(*t)), TyKind::RigidTy(RigidTy::Array(t, _) | RigidTy::Slice(t) | RigidTy::Ref(_, t, _)) => go(t), TyKind::RigidTy(RigidTy::Adt(d, a)) => { let n = d.name(); (is_vec(&n) || n.ends_with("Reverse") || n.ends_with("option::Option")) && garg_ty(&a, 0).map(go).unwrap_or(false) || n.ends_with("cmp::Ordering") } _ => false } } go(t) };
                if !okty(ty) { return Ok(Err(st)) }
                if matches!(m, "max" | "min" | "clamp") {
                    let (lt, _) = self.cmp_vals(&st, &a[1], &a[0], ty)?; // a1 < a0
                    if m == "clamp" { let (hl, _) = self.cmp_vals(&st, &a[2], &a[0], ty)?; let (ll, _) = self.cmp_vals(&st, &a[0], &a[1], ty)?; let v = merge(ll, &a[1], &merge(hl, &a[2], &a[0])?)?; ok!(st, v) }
                    let v = if m == "max" { merge(lt, &a[0], &a[1])? } else { merge(lt, &a[1], &a[0])? }; ok!(st, v)
                }
                let (x, y) = (self.read_p(&st, &a[0])?, self.read_p(&st, &a[1])?);
                let (lt, e) = self.cmp_vals(&st, &x, &y, ty)?;
                let v = match m {
                    "cmp" => ordering(lt, e),
                    "lt" => Val::S(lt), "le" => Val::S(or(lt, e)),
                    "gt" | "ge" => { let (gt, e2) = self.cmp_vals(&st, &y, &x, ty)?; Val::S(if m == "gt" { gt } else { or(gt, e2) }) }
                    "partial_cmp" => { let o = ordering(lt, e); if has_float(ty) { let (gt, _) = self.cmp_vals(&st, &y, &x, ty)?; option(or_n(&[lt, e, gt]), o) } else { some(o) } }
                    _ => return Ok(Err(st)),
                };
                ok!(st, v)
            }
            "std::cmp" if m == "max" || m == "min" => {
                let ty = cx.ga(0)?; let (lt, _) = match self.cmp_vals(&st, &a[1], &a[0], ty) { Ok(x) => x, Err(_) => return Ok(Err(st)) };
                let v = if m == "max" { merge(lt, &a[0], &a[1])? } else { merge(lt, &a[1], &a[0])? }; ok!(st, v)
            }
            "std::default::Default" => {
                let ty = cx.self_ty().or(Ok::<Ty, String>(cx.dty))?;
                match scal(ty) { Sk::Bool => ok!(st, sb(false)), Sk::Int(w, _) => ok!(st, Val::S(bv(w, 0))), Sk::Fl(32) => ok!(st, Val::S(f32c(0.))), Sk::Fl(_) => ok!(st, Val::S(f64c(0.))), _ => {} }
                if let Some(nm) = adt_name(ty) { if builtin_adt(&nm) || is_vec(&nm) { if nm.ends_with("String") { ok!(st, Val::Str("".into())) } ok!(st, Val::L(ListV::empty())) } }
                Ok(Err(st))
            }
            "std::mem" => match m {
                "swap" => { let (x, y) = (self.read_p(&st, &a[0])?, self.read_p(&st, &a[1])?); self.write_p(&mut st, &a[0], &y)?; self.write_p(&mut st, &a[1], &x)?; ok!(st, unit()) }
                "replace" => { let x = self.read_p(&st, &a[0])?; self.write_p(&mut st, &a[0], &a[1])?; ok!(st, x) }
                "take" => { let ty = cx.ga(0)?; let x = self.read_p(&st, &a[0])?; match self.lang_call(st, "default", &[ty], vec![])? { None => Ok(Ok(None)), Some((mut s, d)) => { self.write_p(&mut s, &a[0], &d)?; ok!(s, x) } } }
                "drop" | "forget" => ok!(st, unit()),
                "size_of" | "align_of" => { let l = cx.ga(0)?.layout().map_err(|e| format!("{:?}", e))?.shape(); ok!(st, vusz(if m == "size_of" { l.size.bytes() } else { l.abi_align as usize })) }
                _ => Ok(Err(st)),
            },
            "std::ptr" => match m {
                "read" => { let v = self.read_p(&st, &a[0])?; ok!(st, v) }
                "write" => { self.write_p(&mut st, &a[0], &a[1])?; ok!(st, unit()) }
                "drop_in_place" => ok!(st, unit()),
                _ => Ok(Err(st)),
            },
            "std::boxed::Box" => match m {
                "new" | "pin" => { let t = self.alloc(&mut st, a[0].clone()); ok!(st, tptr(t)) }
                "new_uninit" => { let t = self.alloc(&mut st, Val::Uninit); ok!(st, tptr(t)) }
                "assume_init" | "into_raw" | "leak" | "from_raw" | "into_inner" if m != "into_inner" => ok!(st, a[0].clone()),
                _ => Ok(Err(st)),
            },
            "std::boxed" => match m {
                "box_new" => { let t = self.alloc(&mut st, a[0].clone()); ok!(st, tptr(t)) }
                "box_new_uninit" => { let t = self.alloc(&mut st, Val::Uninit); ok!(st, tptr(t)) }
                "box_assume_init_into_vec_unsafe" => { let v = self.read_p(&st, &a[0])?; let t = self.deref1(&a[0])?; self.free(&mut st, &t); let l = match v { Val::Uninit => ListV::empty(), v => v.list()? }; ok!(st, Val::L(l)) }
                _ => Ok(Err(st)),
            },
            "std::rc::Rc" | "std::sync::Arc" => match m { "new" => { let t = self.alloc(&mut st, a[0].clone()); ok!(st, agg(vec![tptr(t)])) } _ => Ok(Err(st)) },
            "std::string::ToString" => { let v = self.read_str(&st, &a[0])?; ok!(st, match v { Val::Str(_) => v, _ => Val::Op(1) }) }
            "std::borrow::ToOwned" => { if matches!(cx.self_ty()?.kind(), TyKind::RigidTy(RigidTy::Str)) { let v = self.read_str(&st, &a[0])?; ok!(st, v) } if matches!(cx.self_ty()?.kind(), TyKind::RigidTy(RigidTy::Slice(_))) { return self.vec_method(st, cx, "to_vec") } let ty = cx.self_ty()?; Ok(Ok(self.clone_of(st, &a[0], ty)?)) }
            "std::convert::From" | "std::convert::Into" => {
                let (src, dst) = (cx.tys[0], cx.dty);
                if src == dst { ok!(st, a[0].clone()) }
                let dn = adt_name(dst).unwrap_or_default();
                if dn.ends_with("String") || dn.ends_with("PathBuf") { let v = self.read_str(&st, &a[0])?; ok!(st, match v { Val::Str(_) => v, _ => Val::Op(1) }) }
                let sn = adt_name(src).unwrap_or_default();
                if is_vec(&dn) || dn.ends_with("HashSet") || dn.ends_with("HashMap") || dn.ends_with("BTreeMap") || dn.ends_with("BTreeSet") {
                    if is_vec(&sn) || sn.ends_with("HashSet") { let l = a[0].list()?; ok!(st, Val::L(l)) }
                    let src_v = match src.kind() { TyKind::RigidTy(RigidTy::Array(..)) => a[0].clone(), TyKind::RigidTy(RigidTy::Ref(..)) => self.read_p(&st, &a[0])?, _ => return Ok(Err(st)) };
                    let l = src_v.list()?; let v = self.collect_into(&st, l, dst, None)?; ok!(st, v)
                }
                if dn.contains("indicatif") || dn.contains("Cow") { ok!(st, Val::Op(1)) }
                if let TyKind::RigidTy(RigidTy::Adt(d, _)) = dst.kind() { if d.is_box() { if matches!(pointee(dst).map(|t| t.kind()), Some(TyKind::RigidTy(RigidTy::Dynamic(..)))) { ok!(st, Val::Op(2)) } } }
                match (scal(src), scal(dst)) {
                    (Sk::Int(_, s), Sk::Int(w, _)) => { let t = a[0].t()?; let f = width(t); ok!(st, Val::S(if f == w { t } else if f > w { extract(t, 0, w) } else if s { sext(t, w) } else { zext(t, w) })) }
                    (Sk::Bool, Sk::Int(w, _)) => { let t = a[0].t()?; ok!(st, Val::S(ite(t, bv(w, 1), bv(w, 0)))) }
                    (Sk::Int(_, s), Sk::Fl(w)) => { let t = a[0].t()?; ok!(st, Val::S(mk(if s { Op::SToF } else { Op::UToF }, if w == 32 { Sort::F32 } else { Sort::F64 }, &[t], 0))) }
                    (Sk::Fl(32), Sk::Fl(64)) => { let t = a[0].t()?; ok!(st, Val::S(mk(Op::FToF, Sort::F64, &[t], 0))) }
                    _ => Ok(Err(st)),
                }
            }
            "std::convert::TryFrom" | "std::convert::TryInto" => {
                let src = cx.tys[0]; let dst = match adt(cx.dty) { Some((_, ga)) => garg_ty(&ga, 0).ok_or("try_into")?, None => return Ok(Err(st)) };
                match (scal(src), scal(dst)) {
                    (Sk::Int(fw, fs), Sk::Int(w, s)) => {
                        let t = a[0].t()?; let big = 127u8.min(fw.max(w) + 2);
                        let e = if fs { sext(t, big) } else { zext(t, big) }; let v = if fw == w { t } else if fw > w { extract(t, 0, w) } else if fs { sext(t, w) } else { zext(t, w) };
                        let back = if s { sext(v, big) } else { zext(v, big) }; let good = eq(e, back);
                        let r = merge(good, &en(0, vec![Val::S(v)]), &en(1, vec![Val::Op(3)]))?; ok!(st, r)
                    }
                    _ => {
                        // &[T] / Vec<T> -> [T; N]
                        if let TyKind::RigidTy(RigidTy::Array(_, k)) = dst.kind() { let k = k.eval_target_usize().map_err(|e| format!("{:?}", e))? as usize; let v = match src.kind() { TyKind::RigidTy(RigidTy::Ref(..)) => self.read_p(&st, &a[0])?, _ => a[0].clone() }; let l = v.list()?; if l.is_dense() { let r = if l.n() == k { en(0, vec![agg(l.s().iter().map(|s| s.v.clone()).collect())]) } else { en(1, vec![Val::Op(3)]) }; ok!(st, r) } }
                        Ok(Err(st))
                    }
                }
            }
            "std::hint" => match m { "must_use" | "black_box" => ok!(st, a[0].clone()), "assert_unchecked" | "unreachable_unchecked" | "spin_loop" => ok!(st, unit()), _ => Ok(Err(st)) },
            "std::option::Option" => match m {
                "is_some" | "is_none" => { let v = self.read_p(&st, &a[0])?; let t = is_variant(&v, 1)?; ok!(st, Val::S(if m == "is_some" { t } else { not(t) })) }
                "unwrap" | "expect" => { let g = is_variant(&a[0], 1)?; if !self.must(&mut st, g, "called Option::unwrap() on a None value") { return Ok(Ok(None)) } let v = un_payload(&a[0], 1)?; ok!(st, v) }
                "unwrap_or" => { let g = is_variant(&a[0], 1)?; let v = un_payload(&a[0], 1)?; let r = merge(g, &v, &a[1])?; ok!(st, r) }
                "as_ref" | "as_mut" => { let mut acc: Option<Val> = None; for (g, t) in self.deref(&a[0])?.into_iter().rev() { let v = st.read_t(&t)?; let h = is_variant(&v, 1)?; let mut t2 = t.clone(); t2.path.push(PE::V(1)); t2.path.push(PE::F(0)); let o = option(h, tptr(t2)); acc = Some(match acc { None => o, Some(x) => merge(g, &o, &x)? }) } ok!(st, acc.ok_or("as_ref")?) }
                "take" => { let v = self.read_p(&st, &a[0])?; self.write_p(&mut st, &a[0], &none())?; ok!(st, v) }
                "cloned" | "copied" => { let g = is_variant(&a[0], 1)?; if g == F { ok!(st, none()) } let p = un_payload(&a[0], 1)?; let ty = pointee(garg_ty(&adt(cx.tys[0]).ok_or("cloned")?.1, 0).unwrap()).ok_or("cloned")?; match self.guarded(st, g, |e, s| e.clone_of(s, &p, ty))? { None => Ok(Ok(None)), Some((s, v)) => ok!(s, option(g, v)) } }
                _ => Ok(Err(st)),
            },
            "std::result::Result" => match m {
                "unwrap" | "expect" => { if let Val::Op(_) = a[0] { ok!(st, a[0].clone()) } let g = is_variant(&a[0], 0)?; if !self.must(&mut st, g, "called Result::unwrap() on an Err value") { return Ok(Ok(None)) } let v = un_payload(&a[0], 0)?; ok!(st, v) }
                _ => Ok(Err(st)),
            },
            "std::ops::RangeInclusive" => match m {
                "new" => ok!(st, agg(vec![a[0].clone(), a[1].clone(), sb(false)])),
                "start" | "end" => { let p = self.sub_ptr(&a[0], &[PE::F(if m == "start" { 0 } else { 1 })]); ok!(st, p) }
                "contains" => { let r = self.read_p(&st, &a[0])?; let x = self.read_p(&st, &a[1])?; let ty = pointee(cx.tys[1]).ok_or("contains")?; let (l1, e1) = self.cmp_vals(&st, &r.field(0)?, &x, ty)?; let (l2, e2) = self.cmp_vals(&st, &x, &r.field(1)?, ty)?; ok!(st, Val::S(and(or(l1, e1), or(l2, e2)))) }
                _ => Ok(Err(st)),
            },
            "std::ops::Range" => match m {
                "contains" => { let r = self.read_p(&st, &a[0])?; let x = self.read_p(&st, &a[1])?; let ty = pointee(cx.tys[1]).ok_or("contains")?; let (l1, e1) = self.cmp_vals(&st, &r.field(0)?, &x, ty)?; let (l2, _) = self.cmp_vals(&st, &x, &r.field(1)?, ty)?; ok!(st, Val::S(and(or(l1, e1), l2))) }
                _ => Ok(Err(st)),
            },
            "std::cell::RefCell" | "std::cell::Cell" | "std::sync::Mutex" => Ok(Err(st)),
            _ => Ok(Err(st)),
        }
    }
}
fn has_float(t: Ty) -> bool { match t.kind() { TyKind::RigidTy(RigidTy::Float(_)) => true, TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|t| has_float(*t)), TyKind::RigidTy(RigidTy::Array(t, _) | RigidTy::Slice(t) | RigidTy::Ref(_, t, _)) => has_float(t), TyKind::RigidTy(RigidTy::Adt(_, a)) => garg_ty(&a, 0).map(has_float).unwrap_or(false), _ => false } }
pub fn un_payload(v: &Val, i: u32) -> R<Val> {
    match v { Val::U(u) => { let mut acc: Option<Val> = None; for (g, x) in u.iter().rev() { if let Ok(p) = payload(x, i) { if let Some(y) = p.get(0) { acc = Some(match acc { None => y.clone(), Some(z) => merge(*g, y, &z)? }) } } } Ok(acc.unwrap_or(Val::Uninit)) } _ => Ok(payload(v, i)?.get(0).cloned().unwrap_or(Val::Uninit)) }
}
#[allow(unused)] fn _u(_: Option<Instance>, _: Option<Rc<u8>>) {}
