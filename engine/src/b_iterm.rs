//! Iterator constructors, consumers and `next`.
use crate::b_core::*;
use crate::b_iter::*;
use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use crate::val::*;
use crate::ok;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::rc::Rc;
use std::collections::HashMap;

impl Eng {
    pub fn b_next(&mut self, st: State, cx: &Cx, inloop: bool, backup: Option<State>) -> R<Result<CallRes, State>> {
        let back = cx.c.name.ends_with("next_back");
        let ty = cx.self_ty()?;
        let (k, _) = iter_kind(ty);
        if k.starts_with("user::") { return Ok(Err(st)) }
        let mut alts = self.deref(&cx.args[0])?; if alts.len() > 1 { alts.retain(|(g, _)| st.pc.decide(*g) != Some(false)) }
        if alts.len() != 1 { return Err("next on ambiguous iterator".into()) }
        let it = alts[0].1.clone();
        let no_backup = backup.is_none();
        let mut cur = st.clone(); let mut bk = backup;
        // guarded accumulation when we cannot split
        let mut acc: Option<(T, Val)> = None; // (found, value)
        for _ in 0..20000 {
            let r = if back { self.step_back(cur, &it, ty)? } else { self.step(cur, &it, ty)? };
            match r {
                Step::Dead => return Ok(Ok(CallRes::Done(None))),
                Step::End(s) => { let v = match acc { None => none(), Some((g, v)) => option(g, v) }; return Ok(Ok(CallRes::Done(Some((s, v))))) }
                Step::Item(s, g, v, fin) => {
                    let g = s.pc.simp(g);
                    if fin { if acc.is_some() { return Err("next: open-ended after skip".into()) } return Ok(Ok(CallRes::Done(Some((s, option(g, v)))))) }
                    if g == TR { let v = match acc { None => v, Some((h, w)) => return Ok(Ok(CallRes::Done(Some((s, some(merge(h, &w, &v)?)))))) }; return Ok(Ok(CallRes::Done(Some((s, some(v)))))) }
                    if g == F { cur = s; continue }
                    if (inloop || !no_backup) && bk.is_some() && acc.is_none() {
                        // split: this slot present, or retry with the iterator advanced
                        let mut a = s.clone(); let aok = a.pc.push(g);
                        // the retry state must still hold the call's operands: replay the step on the backup
                        let mut b = bk.take().unwrap();
                        let bok = b.pc.push(not(g));
                        if bok { let pos = s.read_t(&it)?; // iterator state after the step (same in both worlds when the step had no other effect)
                            let before = &st; let pure_step = Rc::ptr_eq(&before.heap, &s.heap) || true;
                            if !pure_step { return Err("next: effectful skip".into()) }
                            b = transplant(b, &s, &it, pos)?; }
                        let done = if aok { Some((a, some(v))) } else { None };
                        return Ok(Ok(if bok { CallRes::Split(done, b) } else { CallRes::Done(done) }));
                    }
                    // straight-line code: accumulate first present
                    acc = Some(match acc { None => (g, v), Some((h, w)) => (or(h, g), merge(h, &w, &v)?) });
                    return Err("next on a guarded stream outside a loop".into());
                }
            }
        }
        Err("next: too many absent slots".into())
    }
    fn by_val(&mut self, st: &mut State, v: &Val) -> Target { self.alloc(st, v.clone()) }
    pub fn b_iterm(&mut self, st: State, cx: &Cx) -> B {
        let n: &str = &cx.c.name;
        let (tr, m) = match n.rsplit_once("::") { Some(x) => x, None => return Ok(Err(st)) };
        let a = cx.args;
        match (tr, m) {
            ("std::iter::IntoIterator", "into_iter") | ("rayon::iter::IntoParallelIterator", "into_par_iter") => {
                let mut st = st; let ty = cx.self_ty()?;
                if let Some(v) = self.make_iter(&mut st, a[0].clone(), ty)? { ok!(st, v) }
                let (k, _) = iter_kind(ty);
                if k.starts_with("user::") && cx.c.inst.map(|i| i.has_body() && i.name().contains("die_e")).unwrap_or(false) { return Ok(Err(st)) }
                ok!(st, a[0].clone())
            }
            ("rayon::iter::IntoParallelRefIterator", "par_iter") | ("rayon::iter::IntoParallelRefMutIterator", "par_iter_mut") => {
                let mut st = st;
                if let Some(v) = self.make_iter(&mut st, a[0].clone(), cx.tys[0])? { ok!(st, v) }
                return Err("par_iter source".into())
            }
            ("core::slice::<impl [T]>", "iter" | "iter_mut") | ("std::vec::Vec" | "std::collections::VecDeque" | "std::collections::HashSet" | "std::collections::BTreeSet", "iter" | "iter_mut") => { let l = self.elem_ptrs(&st, &a[0])?; ok!(st, Val::L(l)) }
            ("std::collections::HashMap" | "std::collections::BTreeMap", "iter" | "iter_mut" | "keys" | "values" | "values_mut") => {
                let l = self.map_pairs(&st, &a[0])?;
                let l = match m { "keys" => proj(&l, 0)?, "values" | "values_mut" => proj(&l, 1)?, _ => l };
                ok!(st, Val::L(l))
            }
            ("std::collections::HashMap" | "std::collections::BTreeMap", "into_keys" | "into_values") => { let l = a[0].list()?; ok!(st, Val::L(proj(&l, if m == "into_keys" { 0 } else { 1 })?)) }
            ("std::option::Option", "iter" | "iter_mut") => { let v = self.opt_iter(&st, &a[0])?; ok!(st, v) }
            ("std::option::Option", "into_iter") => { let mut st = st; let v = self.make_iter(&mut st, a[0].clone(), cx.tys[0])?.unwrap(); ok!(st, v) }
            ("std::iter", "once") => ok!(st, Val::L(ListV::dense(vec![a[0].clone()]))),
            ("std::iter", "empty") => ok!(st, Val::L(ListV::empty())),
            ("std::iter", "repeat") => ok!(st, agg(vec![a[0].clone()])),
            ("std::iter", "repeat_n") => { let n = cval(a[1].t()?).ok_or("repeat_n symbolic")?; ok!(st, Val::L(ListV::dense(vec![a[0].clone(); n as usize]))) }
            ("std::iter", "repeat_with") => ok!(st, agg(vec![a[0].clone()])),
            ("std::iter", "zip") => { let mut st = st; let (x, _) = self.to_iter(&mut st, a[0].clone(), cx.tys[0])?; let (y, _) = self.to_iter(&mut st, a[1].clone(), cx.tys[1])?; ok!(st, agg(vec![x, y])) }
            ("itertools", "multiunzip") => self.i_unzip(st, cx),
            _ if is_iter_trait(tr) => self.iter_method(st, cx, m),
            _ => Ok(Err(st)),
        }
    }
    fn iter_method(&mut self, st: State, cx: &Cx, m: &str) -> B {
        let a = cx.args; let mut st = st;
        match m {
            "map" | "filter" | "filter_map" | "map_while" | "inspect" => ok!(st, agg(vec![a[0].clone(), a[1].clone()])),
            "take_while" | "skip_while" => ok!(st, agg(vec![a[0].clone(), a[1].clone(), sb(false)])),
            "enumerate" => ok!(st, agg(vec![a[0].clone(), vusz(0)])),
            "cloned" | "copied" | "rev" | "fuse" => ok!(st, agg(vec![a[0].clone()])),
            "progress" | "progress_count" | "progress_with" | "progress_with_style" => ok!(st, agg(vec![a[0].clone()])),
            "take" | "skip" => ok!(st, agg(vec![a[0].clone(), a[1].clone()])),
            "step_by" => { if !self.must(&mut st, not(eq(a[1].t()?, usz(0))), "step_by(0)") { return Ok(Ok(None)) } ok!(st, agg(vec![a[0].clone(), a[1].clone(), vusz(0)])) }
            "peekable" => ok!(st, agg(vec![a[0].clone(), Val::L(ListV::empty())])),
            "chain" => { let (b, _) = self.to_iter(&mut st, a[1].clone(), cx.tys[1])?; ok!(st, agg(vec![a[0].clone(), b, sb(false)])) }
            "zip" => { let (b, _) = self.to_iter(&mut st, a[1].clone(), cx.tys[1])?; ok!(st, agg(vec![a[0].clone(), b])) }
            "flat_map" | "flat_map_iter" => ok!(st, agg(vec![a[0].clone(), a[1].clone(), Val::L(ListV::empty())])),
            "flatten" => ok!(st, agg(vec![a[0].clone(), unit(), Val::L(ListV::empty())])),
            "scan" => ok!(st, agg(vec![a[0].clone(), a[1].clone(), a[2].clone()])),
            "by_ref" => ok!(st, a[0].clone()),
            "with_min_len" | "with_max_len" | "into_iter" => ok!(st, a[0].clone()),
            "sum" | "product" => self.i_sum(st, cx, m == "product"),
            "fold" => self.i_fold(st, cx),
            "reduce" if a.len() == 2 => self.i_reduce(st, cx),
            "for_each" => {
                let it = self.by_val(&mut st, &a[0]); let fp = self.alloc(&mut st, a[1].clone()); let ft = cx.tys[1];
                let r = self.each(st, &it, cx.tys[0], &mut |e, s, g, v| Ok(e.guarded(s, g, |e, s| e.apply(s, (ft, tptr(fp.clone()), true), vec![v]))?.map(|(s, _)| (s, F))))?;
                match r { None => Ok(Ok(None)), Some((s, _)) => ok!(s, unit()) }
            }
            "count" => { let it = self.by_val(&mut st, &a[0]); match self.drain(st, &it, cx.tys[0])? { None => Ok(Ok(None)), Some((s, l)) => ok!(s, Val::S(l.len_t())) } }
            "len" if !matches!(scal(cx.tys[0]), Sk::Ptr) || true => { // ExactSizeIterator::len
                let t = self.deref1(&a[0])?; let ity = pointee(cx.tys[0]).ok_or("len")?; let s2 = st.clone();
                match self.drain(s2, &t, ity)? { None => Ok(Ok(None)), Some((_, l)) => ok!(st, Val::S(l.len_t())) }
            }
            "last" => {
                let it = self.by_val(&mut st, &a[0]);
                match self.drain(st, &it, cx.tys[0])? { None => Ok(Ok(None)), Some((s, l)) => { let (mut g, mut v) = (F, Val::Uninit); for x in l.s() { v = merge(x.g, &x.v, &v)?; g = or(g, x.g) } ok!(s, option(g, v)) } }
            }
            "nth" => {
                let t = self.deref1(&a[0])?; let ity = pointee(cx.tys[0]).ok_or("nth")?;
                match self.drain(st, &t, ity)? { None => Ok(Ok(None)), Some((mut s, l)) => {
                    let c = l.compact()?; let i = a[1].t()?; let v = read_idx(&Val::L(c.clone()), i)?; let g = ult(i, c.len_t());
                    let rest = match cval(i) { Some(k) if c.is_dense() => { let mut r = c.clone(); r.lo = (r.lo + k as u32 + 1).min(r.hi); Val::L(r) } _ => Val::Uninit };
                    s.write_t(&t, TR, &rest)?; ok!(s, option(g, v)) } }
            }
            "any" | "all" | "find" | "find_map" | "position" | "contains" if m != "contains" => self.i_search(st, cx, m),
            "contains" => { let it = self.by_val(&mut st, &a[0]); match self.drain(st, &it, cx.tys[0])? { None => Ok(Ok(None)), Some((s, l)) => { let ity = pointee(cx.tys[1]).ok_or("contains")?; let y = self.read_p(&s, &a[1])?; let mut o = vec![]; for x in l.s() { let e = self.eq_vals(&s, &x.v, &y, ity, ity)?; o.push(and(x.g, e)) } ok!(s, Val::S(or_n(&o))) } } }
            "max" | "min" | "max_by" | "min_by" | "max_by_key" | "min_by_key" => self.i_extreme(st, cx, m),
            "collect" | "collect_vec" => {
                let it = self.by_val(&mut st, &a[0]); let ity = self.item_ty(cx.tys[0]).ok();
                match self.drain(st, &it, cx.tys[0])? { None => Ok(Ok(None)), Some((s, l)) => { let v = self.collect_into(&s, l, cx.dty, ity)?; ok!(s, v) } }
            }
            "partition" => {
                let it = self.by_val(&mut st, &a[0]); let fp = self.alloc(&mut st, a[1].clone()); let ft = cx.tys[1];
                let (mut yes, mut no) = (ListV::empty(), ListV::empty());
                let r = self.each(st, &it, cx.tys[0], &mut |e, s, g, v| { let mut s = s; let t = e.alloc(&mut s, v.clone()); Ok(match e.guarded(s, g, |e, s| e.apply(s, (ft, tptr(fp.clone()), true), vec![tptr(t)]))? { None => None, Some((s, r)) => { let h = r.tb()?; yes.push(and(g, h), v.clone()); no.push(and(g, not(h)), v); Some((s, F)) } }) })?;
                match r { None => Ok(Ok(None)), Some((s, _)) => ok!(s, agg(vec![Val::L(yes), Val::L(no)])) }
            }
            "unzip" | "multiunzip" => self.i_unzip(st, cx),
            "eq" | "ne" => {
                let x = self.by_val(&mut st, &a[0]); let (bv_, _) = self.to_iter(&mut st, a[1].clone(), cx.tys[1])?; let y = self.alloc(&mut st, bv_);
                let ity = self.item_ty(cx.tys[0])?;
                match self.drain(st, &x, cx.tys[0])? { None => Ok(Ok(None)), Some((s, l)) => match self.drain(s, &y, cx.tys[1])? { None => Ok(Ok(None)), Some((s, r)) => {
                    let (l, r) = (l.compact()?, r.compact()?); let mut v = vec![eq(l.len_t(), r.len_t())];
                    for (p, q) in l.s().iter().zip(r.s()) { let e = self.eq_vals(&s, &p.v, &q.v, ity, ity)?; v.push(implies(and(p.g, q.g), e)) }
                    let t = and_n(&v); ok!(s, Val::S(if m == "ne" { not(t) } else { t })) } } }
            }
            "sorted" | "sorted_unstable" => { let it = self.by_val(&mut st, &a[0]); let ity = self.item_ty(cx.tys[0])?; match self.drain(st, &it, cx.tys[0])? { None => Ok(Ok(None)), Some((s, l)) => { let l = self.sort_list(&s, l, ity)?; ok!(s, Val::L(l)) } } }
            "unique" => { let it = self.by_val(&mut st, &a[0]); let ity = self.item_ty(cx.tys[0])?; match self.drain(st, &it, cx.tys[0])? { None => Ok(Ok(None)), Some((s, l)) => { let l = self.dedup_set(&s, l, ity)?; ok!(s, Val::L(l)) } } }
            "join" => ok!(st, Val::Op(1)),
            "size_hint" => Err("size_hint".into()),
            "peek" => Ok(Err(st)),
            _ => Ok(Err(st)),
        }
    }
    fn i_sum(&mut self, mut st: State, cx: &Cx, prod: bool) -> B {
        let it = self.by_val(&mut st, &cx.args[0]);
        let sk = scal(cx.dty); let so = sk_sort(sk).ok_or("sum type")?;
        let mut acc = match (sk, prod) { (Sk::Fl(32), false) => f32c(-0.0), (Sk::Fl(_), false) => f64c(-0.0), (Sk::Fl(32), true) => f32c(1.0), (Sk::Fl(_), true) => f64c(1.0), (_, p) => konst(so, p as u128) };
        let r = self.each(st, &it, cx.tys[0], &mut |e, s, g, v| {
            let mut s = s; let x = match &v { Val::P(_) => e.read_p(&s, &v)?.t()?, _ => v.t()? };
            let nv = match sk {
                Sk::Fl(_) => mk(if prod { Op::FMul } else { Op::FAdd }, so, &[acc, x], 0),
                Sk::Int(_, sg) => { let (nv, o) = checked(if prod { 2 } else { 0 }, acc, x, sg); if !e.must(&mut s, not(and(g, o)), if prod { "attempt to multiply with overflow" } else { "attempt to add with overflow" }) { return Ok(None) } nv }
                _ => return Err("sum".into()),
            };
            acc = ite(g, nv, acc);
            Ok(Some((s, F)))
        })?;
        match r { None => Ok(Ok(None)), Some((s, _)) => ok!(s, Val::S(acc)) }
    }
    fn i_fold(&mut self, mut st: State, cx: &Cx) -> B {
        let it = self.by_val(&mut st, &cx.args[0]); let fp = self.alloc(&mut st, cx.args[2].clone()); let ft = cx.tys[2];
        let mut acc = cx.args[1].clone();
        let r = self.each(st, &it, cx.tys[0], &mut |e, s, g, v| {
            let a0 = acc.clone();
            Ok(match e.guarded(s, g, |e, s| e.apply(s, (ft, tptr(fp.clone()), true), vec![a0, v]))? { None => None, Some((s, r)) => { acc = merge(g, &r, &acc)?; Some((s, F)) } })
        })?;
        match r { None => Ok(Ok(None)), Some((s, _)) => ok!(s, acc) }
    }
    fn i_reduce(&mut self, mut st: State, cx: &Cx) -> B {
        let it = self.by_val(&mut st, &cx.args[0]); let fp = self.alloc(&mut st, cx.args[1].clone()); let ft = cx.tys[1];
        let (mut have, mut acc) = (F, Val::Uninit);
        let r = self.each(st, &it, cx.tys[0], &mut |e, s, g, v| {
            let both = s.pc.simp(and(g, have)); let a0 = acc.clone(); let v0 = v.clone();
            let r = if both == F { Some((s, Val::Uninit)) } else { e.guarded(s, both, |e, s| e.apply(s, (ft, tptr(fp.clone()), true), vec![a0, v0]))? };
            Ok(match r { None => None, Some((s, r)) => { let nv = merge(both, &r, &v)?; acc = merge(g, &nv, &acc)?; have = or(have, g); Some((s, F)) } })
        })?;
        match r { None => Ok(Ok(None)), Some((s, _)) => ok!(s, option(have, acc)) }
    }
    fn i_search(&mut self, mut st: State, cx: &Cx, m: &str) -> B {
        // rayon's versions take self by value
        let byref = cx.c.name.starts_with("std::");
        let (it, ity) = if byref { (self.deref1(&cx.args[0])?, pointee(cx.tys[0]).ok_or("search")?) } else { (self.by_val(&mut st, &cx.args[0]), cx.tys[0]) };
        let fp = self.alloc(&mut st, cx.args[1].clone()); let ft = cx.tys[1];
        let mut found = F; let mut res = Val::Uninit; let mut idx = usz(0); let mut partial = false;
        let r = self.each(st, &it, ity, &mut |e, s, g, v| {
            let mut s = s;
            let arg = if m == "find" { let t = e.alloc(&mut s, v.clone()); tptr(t) } else { v.clone() };
            let live = s.pc.simp(and(g, not(found)));
            if live == F { return Ok(Some((s, F))) }
            Ok(match e.guarded(s, live, |e, s| e.apply(s, (ft, tptr(fp.clone()), true), vec![arg]))? {
                None => None,
                Some((s, r)) => {
                    let h = match m { "any" | "find" | "position" => r.tb()?, "all" => if matches!(r, Val::Uninit) { F } else { not(r.t()?) }, _ => r.isv(1)? };
                    let h = s.pc.simp(and(live, h));
                    let val = match m { "find" => v.clone(), "position" => Val::S(idx), "find_map" => r.pay(1)?.get(0).cloned().unwrap_or(Val::Uninit), _ => Val::Uninit };
                    if h != F { res = merge(h, &val, &res)?; }
                    idx = ite(g, add(idx, usz(1)), idx);
                    found = or(found, h);
                    if h == TR { return Ok(Some((s, TR))) }
                    if h != F { partial = true }
                    // executions that already found it are skipped by `live`
                    Some((s, F))
                }
            })
        })?;
        match r { None => Ok(Ok(None)), Some((mut s, _)) => {
            if byref && partial { s.write_t(&it, TR, &Val::Uninit)?; }
            let v = match m { "any" => Val::S(found), "all" => Val::S(not(found)), _ => option(found, res) };
            ok!(s, v) } }
    }
    fn i_extreme(&mut self, mut st: State, cx: &Cx, m: &str) -> B {
        let it = self.by_val(&mut st, &cx.args[0]);
        let max = m.starts_with("max"); let ity = self.item_ty(cx.tys[0])?;
        let f = if m.len() > 3 { Some((self.alloc(&mut st, cx.args[1].clone()), cx.tys[1])) } else { None };
        let kty = if m.ends_with("by_key") { Some(cx.ga(1)?) } else { None };
        let (mut have, mut acc, mut akey) = (F, Val::Uninit, Val::Uninit);
        if m.len() == 3 || kty.is_some() { return self.i_extreme_key(st, cx, &it, max, ity, f, kty) }
        let r = self.each(st, &it, cx.tys[0], &mut |e, s, g, v| {
            let mut s = s; let both = s.pc.simp(and(g, have));
            let mut key = Val::Uninit;
            if m.ends_with("by_key") {
                let (fp, ft) = f.clone().unwrap(); let t = e.alloc(&mut s, v.clone());
                match e.guarded(s, g, |e, s| e.apply(s, (ft, tptr(fp), true), vec![tptr(t)]))? { None => return Ok(None), Some((s2, k)) => { s = s2; key = k } }
            }
            let take = if both == F { TR } else if m.len() == 3 {
                let (lt, eqq) = e.cmp_vals(&s, &acc, &v, ity)?; if max { or(lt, eqq) } else { not(or(lt, eqq)) }
            } else if let Some(kt) = kty {
                let (lt, eqq) = e.cmp_vals(&s, &akey, &key, kt)?; if max { or(lt, eqq) } else { not(or(lt, eqq)) }
            } else {
                let (fp, ft) = f.clone().unwrap(); let (t1, t2) = (e.alloc(&mut s, acc.clone()), e.alloc(&mut s, v.clone()));
                match e.guarded(s, both, |e, s| e.apply(s, (ft, tptr(fp), true), vec![tptr(t1), tptr(t2)]))? { None => return Ok(None), Some((s2, o)) => { s = s2; let gt = o.isv(2)?; if max { not(gt) } else { gt } } }
            };
            let upd = e.choose_bool(&mut s, and(g, or(not(have), take)))?;
            acc = merge(upd, &v, &acc)?; akey = merge(upd, &key, &akey)?; have = or(have, g);
            Ok(Some((s, F)))
        })?;
        match r { None => Ok(Ok(None)), Some((s, _)) => ok!(s, option(have, acc)) }
    }
    /// max/min/max_by_key/min_by_key: items with equal constant keys are grouped first
    fn i_extreme_key(&mut self, st: State, cx: &Cx, it: &Target, max: bool, ity: Ty, f: Option<(Target, Ty)>, kty: Option<Ty>) -> B {
        let mut items: Vec<(T, Val, Val)> = vec![];
        let r = self.each(st, it, cx.tys[0], &mut |e, s, g, v| {
            let mut s = s; let mut key = v.clone();
            if let Some((fp, ft)) = f.clone() {
                let t = e.alloc(&mut s, v.clone());
                match e.guarded(s, g, |e, s| e.apply(s, (ft, tptr(fp), true), vec![tptr(t)]))? { None => return Ok(None), Some((s2, k)) => { s = s2; key = k } }
            }
            items.push((g, v, key));
            Ok(Some((s, F)))
        })?;
        let mut s = match r { None => return Ok(Ok(None)), Some((s, _)) => s };
        let kt = kty.unwrap_or(ity);
        let mut grp: Vec<(T, Val, Val)> = vec![];
        let mut idx: HashMap<(Sort, u128), usize> = HashMap::new(); let mut gs: Vec<Vec<T>> = vec![];
        for (g, v, k) in items {
            if g == F { continue }
            let kk = match &k { Val::S(t) if is_const(*t) => Some((sort(*t), cval(*t).unwrap())), _ => None };
            match kk.and_then(|kk| idx.get(&kk).copied()) {
                // last maximal element wins, first minimal element wins
                Some(i) => { let old = if max { F } else { or_n(&gs[i]) }; let w = and(g, not(old)); grp[i].1 = merge(w, &v, &grp[i].1)?; gs[i].push(g) }
                None => { if let Some(kk) = kk { idx.insert(kk, grp.len()); } grp.push((g, v, k)); gs.push(vec![g]) }
            }
        }
        let allc = idx.len() == grp.len();
        for (i, g) in gs.iter().enumerate() { grp[i].0 = or_n(g) }
        if allc {
            // sort ascending by key; the best present one wins
            let mut order: Vec<usize> = vec![];
            for i in 0..grp.len() { let mut p = order.len(); while p > 0 { let (lt, _) = self.cmp_vals(&s, &grp[i].2, &grp[order[p - 1]].2, kt)?; if lt == TR { p -= 1 } else { break } } order.insert(p, i) }
            if !max { order.reverse() }
            let (mut have, mut acc) = (F, Val::Uninit);
            for i in order { acc = merge(grp[i].0, &grp[i].1, &acc)?; have = or(have, grp[i].0) }
            return Ok(Ok(Some((s, option(have, acc)))));
        }
        let (mut have, mut acc, mut ak) = (F, Val::Uninit, Val::Uninit);
        for (g, v, k) in grp {
            let take = if s.pc.simp(and(g, have)) == F { TR } else { let (lt, eqq) = self.cmp_vals(&s, &ak, &k, kt)?; if max { or(lt, eqq) } else { not(or(lt, eqq)) } };
            let upd = self.choose_bool(&mut s, and(g, or(not(have), take)))?;
            acc = merge(upd, &v, &acc)?; ak = merge(upd, &k, &ak)?; have = or(have, g);
        }
        Ok(Ok(Some((s, option(have, acc)))))
    }
    fn i_unzip(&mut self, mut st: State, cx: &Cx) -> B {
        let (v, ty) = self.to_iter(&mut st, cx.args[0].clone(), cx.tys[0])?;
        let n = match cx.dty.kind() { TyKind::RigidTy(RigidTy::Tuple(t)) => t.len(), _ => return Err("unzip".into()) };
        match self.drain_val(st, v, ty)? { None => Ok(Ok(None)), Some((s, l)) => { let mut out = vec![]; for i in 0..n { out.push(Val::L(proj(&l, i)?)) } ok!(s, agg(out)) } }
    }
    /// a small hashed collection is walked in any order, which stays the same while nothing is added (job parameter horder)
    fn hash_order(&mut self, st: &State, name: &str, l: ListV) -> R<ListV> {
        let n = l.s().len();
        if !name.contains("Hash") || !self.split || self.params.get("horder").copied().unwrap_or(0) == 0 || n < 2 || n > 4 || l.s().iter().any(|s| s.g != TR) { return Ok(l) }
        let mut rest: Vec<Slot> = l.s().iter().cloned().collect(); let mut out = vec![];
        while rest.len() > 1 { let k = self.choose_free(rest.len())?; self.records.push(("rng_hash_order".into(), st.pc.term(), bv(8, k as u128))); out.push(rest.remove(k)); }
        out.push(rest.pop().unwrap());
        Ok(ListV::new(out))
    }
    pub fn collect_into(&mut self, st: &State, l: ListV, dty: Ty, ity: Option<Ty>) -> R<Val> {
        match dty.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                let n = d.name();
                if is_vec(&n) || n.ends_with("LinkedList") { return Ok(Val::L(l)) }
                if n.ends_with("String") || n.ends_with("PathBuf") { return Ok(Val::Op(1)) }
                if n.ends_with("HashSet") || n.ends_with("BTreeSet") { let t = garg_ty(&a, 0).unwrap(); let l = self.dedup_set(st, l, t)?; return Ok(Val::L(self.hash_order(st, &n, l)?)) }
                if n.ends_with("HashMap") || n.ends_with("BTreeMap") { let t = garg_ty(&a, 0).unwrap(); let mut out = ListV::empty(); for s in l.s() { out = self.map_put(st, out, s.g, s.v.field(0)?, s.v.field(1)?, t)?.0 } return Ok(Val::L(self.hash_order(st, &n, out)?)) }
                if n.ends_with("option::Option") || n.ends_with("result::Result") {
                    let okv = if n.ends_with("Option") { 1 } else { 0 }; let inner = garg_ty(&a, 0).unwrap();
                    let mut bad = F; let mut err = Val::Uninit; let mut out = vec![];
                    for s in l.s() { let h = is_variant(&s.v, okv)?; let now = and(s.g, and(not(h), not(bad))); if now != F { if let Some(e) = payload(&s.v, 1 - okv)?.get(0) { err = merge(now, e, &err)? } bad = or(bad, now) } if let Some(x) = payload(&s.v, okv)?.get(0) { out.push(Slot { g: s.g, v: x.clone() }) } }
                    let v = self.collect_into(st, ListV::new(out), inner, None)?;
                    let okx = en(okv, vec![v]); let ex = if okv == 1 { none() } else { en(1, vec![err]) };
                    return merge(bad, &ex, &okx);
                }
                if d.is_box() { return Err("collect into box".into()) }
                let _ = ity;
                Err(format!("collect into {}", n))
            }
            TyKind::RigidTy(RigidTy::Tuple(t)) if t.is_empty() => Ok(unit()),
            _ => Err(format!("collect into {}", dty)),
        }
    }
}
/// retry state: the pre-call state with the iterator (and whatever the step changed in memory) advanced
fn transplant(b: State, s: &State, it: &Target, pos: Val) -> R<State> {
    // memory effects of the step: heap and every frame but the current one's temporaries
    let mut b = b; b.heap = s.heap.clone();
    let n = b.frames.len();
    for i in 0..n - 1 { b.frames[i] = s.frames[i].clone() }
    // current frame: keep operands, take every other local from s
    let (bf, sf) = (b.frames[n - 1].clone(), s.frames[n - 1].clone());
    let mut v = (*bf).clone();
    for (i, x) in sf.iter().enumerate() { if !matches!(x, Val::Uninit) { v[i] = x.clone() } }
    b.frames[n - 1] = Rc::new(v);
    b.write_t(it, TR, &pos)?;
    Ok(b)
}
fn is_iter_trait(tr: &str) -> bool { matches!(tr, "std::iter::Iterator" | "std::iter::DoubleEndedIterator" | "std::iter::ExactSizeIterator" | "itertools::Itertools" | "indicatif::iter::ProgressIterator" | "indicatif::ProgressIterator" | "indicatif::ParallelProgressIterator" | "indicatif::rayon::ParallelProgressIterator" | "rayon::iter::ParallelIterator" | "rayon::iter::IndexedParallelIterator" | "indicatif::iter::ProgressBarIter") }
pub fn proj(l: &ListV, i: usize) -> R<ListV> { let v: R<Vec<Slot>> = l.s().iter().map(|s| Ok(Slot { g: s.g, v: s.v.field(i)? })).collect(); Ok(ListV::new(v?)) }
