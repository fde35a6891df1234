//! Vec / slice / VecDeque methods.
use crate::b_core::*;
use crate::exec::*;
use crate::ir::*;
use crate::ok;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::rc::Rc;

impl Eng {
    fn elem_ty(&self, t: Ty) -> R<Ty> {
        match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) => self.elem_ty(t), TyKind::RigidTy(RigidTy::Slice(t) | RigidTy::Array(t, _)) => Ok(t), TyKind::RigidTy(RigidTy::Adt(_, a)) => garg_ty(&a, 0).ok_or("elem".into()), _ => Err(format!("element type of {}", t)) }
    }
    pub fn vec_method(&mut self, st: State, cx: &Cx, m: &str) -> B {
        let a = cx.args; let mut st = st;
        macro_rules! cur { () => { self.read_p(&st, &a[0])? } }
        match m {
            "new" | "with_capacity" => ok!(st, Val::L(ListV::empty())),
            "reserve" | "shrink_to_fit" | "reserve_exact" => ok!(st, unit()),
            "capacity" => { let v = cur!(); ok!(st, Val::S(seq_len(&v)?)) }
            "push" | "push_back" => {
                let alts = self.deref(&a[0])?; let x = a[1].clone();
                if alts.len() == 1 { let t = alts[0].1.clone(); st.with(&t, |v| { if let Val::U(u) = v { *v = fold_union(u.to_vec())? } match v { Val::L(l) => { l.push(TR, x); Ok(()) } v => Err(format!("push onto {}", kind(v))) } })?; ok!(st, unit()) }
                self.upd(&mut st, &a[0], &mut |_, _, cur| { let mut l = cur.list()?; l.push(TR, x.clone()); Ok((Val::L(l), unit())) })?; ok!(st, unit())
            }
            "push_front" => { let x = a[1].clone(); self.upd(&mut st, &a[0], &mut |_, _, cur| { let l = cur.list()?; let mut v = vec![Slot { g: TR, v: x.clone() }]; v.extend_from_slice(l.s()); Ok((Val::L(ListV::new(v)), unit())) })?; ok!(st, unit()) }
            "pop" | "pop_back" | "pop_front" => {
                let front = m == "pop_front";
                let r = self.upd(&mut st, &a[0], &mut |_, s, cur| {
                    let mut l = cur.list()?;
                    // fast path: definite end element
                    loop { if l.n() == 0 { return Ok((Val::L(l), none())) } let e = if front { &l.s()[0] } else { &l.s()[l.n() - 1] }; match s.pc.decide(e.g) { Some(true) => { let v = e.v.clone(); if front { l.lo += 1 } else { l.hi -= 1 } return Ok((Val::L(l), some(v))) } Some(false) => { if front { l.lo += 1 } else { l.hi -= 1 } } None => break } }
                    let mut out = l.s().to_vec(); let mut taken = F; let mut val = Val::Uninit;
                    let n = out.len();
                    for k in 0..n { let i = if front { k } else { n - 1 - k }; let h = and(out[i].g, not(taken)); if h != F { val = merge(h, &out[i].v, &val)?; taken = or(taken, h); out[i].g = and(out[i].g, not(h)); } }
                    let out: Vec<Slot> = out.into_iter().filter(|s| s.g != F).collect();
                    Ok((Val::L(ListV::new(out)), option(taken, val)))
                })?;
                ok!(st, r)
            }
            "len" => { let v = self.ptr_meta(&st, &a[0])?; ok!(st, v) }
            "is_empty" => { let v = self.ptr_meta(&st, &a[0])?.t()?; let _ = v; let l = cur!(); let t = match &l { Val::U(_) => eq(seq_len(&l)?, usz(0)), _ => not(l.list()?.nonempty()) }; ok!(st, Val::S(t)) }
            "as_slice" | "as_mut_slice" | "as_ref" | "leak" | "into_boxed_slice" if m != "into_boxed_slice" => ok!(st, a[0].clone()),
            "into_boxed_slice" => { let t = self.alloc(&mut st, a[0].clone()); ok!(st, tptr(t)) }
            "into_vec" => { let v = cur!(); ok!(st, v) }
            "to_vec" | "to_owned" | "into_iter_vec" => {
                let et = self.elem_ty(cx.tys[0])?;
                if self.plain(et, 0) { let v = cur!().list()?; ok!(st, Val::L(v)) }
                let ps = self.elem_ptrs(&st, &a[0])?; let mut s = st; let mut out = vec![];
                for sl in ps.s() { let pv = sl.v.clone(); match self.guarded(s, sl.g, |e, s| e.clone_of(s, &pv, et))? { None => return Ok(Ok(None)), Some((s2, v)) => { s = s2; out.push(Slot { g: sl.g, v }) } } }
                ok!(s, Val::L(ListV::new(out)))
            }
            "get" | "get_mut" => {
                if !matches!(scal(cx.tys[1]), Sk::Int(..)) { return Err("get(range)".into()) }
                let len = self.ptr_meta(&st, &a[0])?.t()?; let i = a[1].t()?; let g = st.pc.simp(ult(i, len));
                if g == F { ok!(st, none()) }
                let p = self.idx(&mut st, &a[0], i)?; ok!(st, option(g, p))
            }
            "get_unchecked" | "get_unchecked_mut" => { let p = self.idx(&mut st, &a[0], a[1].t()?)?; ok!(st, p) }
            "first" | "last" | "first_mut" | "last_mut" | "front" | "back" | "front_mut" | "back_mut" => {
                let fr = m.starts_with("first") || m.starts_with("front");
                let ps = self.elem_ptrs(&st, &a[0])?; let n = ps.n();
                let (mut g, mut v) = (F, Val::Uninit);
                for k in 0..n { let i = if fr { n - 1 - k } else { k }; let s = &ps.s()[i]; v = merge(s.g, &s.v, &v)?; g = or(g, s.g) }
                ok!(st, option(st_simp(&st, g), v))
            }
            "clear" => { self.write_p(&mut st, &a[0], &Val::L(ListV::empty()))?; ok!(st, unit()) }
            "truncate" => { let k = a[1].t()?; self.upd(&mut st, &a[0], &mut |_, _, cur| { let l = cur.list()?.compact()?; let v = l.s().iter().enumerate().map(|(i, s)| Slot { g: and(s.g, ult(usz(i as u64), k)), v: s.v.clone() }).filter(|s| s.g != F).collect(); Ok((Val::L(ListV::new(v)), unit())) })?; ok!(st, unit()) }
            "insert" => {
                let (i, x) = (a[1].t()?, a[2].clone());
                let len = self.ptr_meta(&st, &a[0])?.t()?;
                if !self.must(&mut st, not(ult(len, i)), "insertion index out of bounds") { return Ok(Ok(None)) }
                self.upd(&mut st, &a[0], &mut |_, _, cur| {
                    let l = cur.list()?.compact()?; let n = l.n(); let mut out = vec![];
                    for k in 0..=n {
                        let kk = usz(k as u64); let at = eq(i, kk);
                        let prev = if k > 0 { Some(l.s()[k - 1].clone()) } else { None }; let here = l.s().get(k).cloned();
                        // new[k] = here if k < i ; x if k == i ; prev if k > i
                        let gp = prev.as_ref().map(|s| s.g).unwrap_or(F); let gh = here.as_ref().map(|s| s.g).unwrap_or(F);
                        let lt = ult(kk, i);
                        let g = ite(at, TR, ite(lt, gh, gp));
                        let mut v = match (&here, &prev) { (Some(h), Some(p)) => merge(lt, &h.v, &p.v)?, (Some(h), None) => h.v.clone(), (None, Some(p)) => p.v.clone(), _ => Val::Uninit };
                        v = merge(at, &x, &v)?;
                        if g != F { out.push(Slot { g, v }) }
                    }
                    Ok((Val::L(ListV::new(out)), unit()))
                })?;
                ok!(st, unit())
            }
            "remove" | "swap_remove" => {
                let i = a[1].t()?; let len = self.ptr_meta(&st, &a[0])?.t()?;
                let inb = ult(i, len);
                let dq = cx.c.name.contains("VecDeque");
                if !dq && !self.must(&mut st, inb, "removal index out of bounds") { return Ok(Ok(None)) }
                let sw = m == "swap_remove";
                let r = self.upd(&mut st, &a[0], &mut |_, s, cur| {
                    let l = cur.list()?.compact()?; let n = l.n(); let r = read_idx(&Val::L(l.clone()), i)?;
                    let mut out = vec![];
                    if sw {
                        let lenl = l.len_t(); let last = sub(lenl, usz(1)); let lastv = read_idx(&Val::L(l.clone()), last)?;
                        for (k, sl) in l.s().iter().enumerate() { let kk = usz(k as u64); let g = s.pc.simp(and(sl.g, not(eq(kk, last)))); if g == F { continue } out.push(Slot { g, v: merge(eq(kk, i), &lastv, &sl.v)? }) }
                    } else if let Some(k) = cval(i) {
                        for (j, sl) in l.s().iter().enumerate() { if j as u128 != k { out.push(sl.clone()) } }
                    } else {
                        for k in 0..n { let kk = usz(k as u64); let here = &l.s()[k]; let lt = ult(kk, i); let nx = l.s().get(k + 1);
                            let g = ite(lt, here.g, nx.map(|s| s.g).unwrap_or(F)); if g == F { continue }
                            out.push(Slot { g, v: match nx { Some(nx) => merge(lt, &here.v, &nx.v)?, None => here.v.clone() } }) }
                    }
                    Ok((Val::L(ListV::new(out)), if dq { option(inb, r) } else { r }))
                })?;
                ok!(st, r)
            }
            "append" => {
                let other = self.read_p(&st, &a[1])?.list()?;
                let dq = cx.c.name.contains("VecDeque"); let _ = dq;
                self.write_p(&mut st, &a[1], &Val::L(ListV::empty()))?;
                self.upd(&mut st, &a[0], &mut |_, _, cur| { let mut l = cur.list()?; for s in other.s() { l.push(s.g, s.v.clone()) } Ok((Val::L(l), unit())) })?; ok!(st, unit())
            }
            "extend_from_slice" => {
                let et = self.elem_ty(cx.tys[1])?; let ps = self.elem_ptrs(&st, &a[1])?; let mut s = st; let mut out = vec![];
                for sl in ps.s() { let pv = sl.v.clone(); match self.guarded(s, sl.g, |e, s| e.clone_of(s, &pv, et))? { None => return Ok(Ok(None)), Some((s2, v)) => { s = s2; out.push(Slot { g: sl.g, v }) } } }
                self.upd(&mut s, &a[0], &mut |_, _, cur| { let mut l = cur.list()?; for x in &out { l.push(x.g, x.v.clone()) } Ok((Val::L(l), unit())) })?; ok!(s, unit())
            }
            "drain" | "split_off" => {
                let len = self.ptr_meta(&st, &a[0])?.t()?;
                let (lo, hi) = if m == "split_off" { (a[1].t()?, len) } else { self.range_bounds(&a[1], cx.tys[1], len)? };
                if !self.must(&mut st, and(not(ult(hi, lo)), not(ult(len, hi))), "range out of bounds") { return Ok(Ok(None)) }
                let r = self.upd(&mut st, &a[0], &mut |_, s, cur| {
                    let l = cur.list()?; let whole = lo == usz(0) && hi == len; if whole { return Ok((Val::L(ListV::empty()), Val::L(l))) }
                    let l = l.compact()?; let (mut i, mut o) = (vec![], vec![]);
                    for (k, sl) in l.s().iter().enumerate() { let kk = usz(k as u64); let inn = and(not(ult(kk, lo)), ult(kk, hi)); let g = s.pc.simp(and(sl.g, inn)); if g != F { i.push(Slot { g, v: sl.v.clone() }) } let g = s.pc.simp(and(sl.g, not(inn))); if g != F { o.push(Slot { g, v: sl.v.clone() }) } }
                    Ok((Val::L(ListV::new(o)), Val::L(ListV::new(i))))
                })?;
                ok!(st, r)
            }
            "retain" | "retain_mut" => {
                let ps = self.elem_ptrs(&st, &a[0])?; let fp = self.alloc(&mut st, a[1].clone()); let ft = cx.tys[1];
                let t0 = self.deref1(&a[0])?;
                let mut s = st; let mut keep = vec![];
                for sl in ps.s() { let pv = sl.v.clone(); match self.guarded(s, sl.g, |e, s| e.apply(s, (ft, tptr(fp.clone()), true), vec![pv]))? { None => return Ok(Ok(None)), Some((s2, r)) => { s = s2; keep.push(match r { Val::Uninit => F, r => r.t()? }) } } }
                let l = s.read_t(&t0)?.list()?; let mut out = vec![];
                for (sl, k) in l.s().iter().filter(|s| s.g != F).zip(&keep) { let g = s.pc.simp(and(sl.g, *k)); if g != F { out.push(Slot { g, v: sl.v.clone() }) } }
                s.write_t(&t0, TR, &Val::L(ListV::new(out)))?; ok!(s, unit())
            }
            "swap" => {
                let (i, j) = (a[1].t()?, a[2].t()?); let len = self.ptr_meta(&st, &a[0])?.t()?;
                if !self.must(&mut st, and(ult(i, len), ult(j, len)), "swap index out of bounds") { return Ok(Ok(None)) }
                let (p, q) = (self.idx(&mut st, &a[0], i)?, self.idx(&mut st, &a[0], j)?); let (x, y) = (self.read_p(&st, &p)?, self.read_p(&st, &q)?); self.write_p(&mut st, &p, &y)?; self.write_p(&mut st, &q, &x)?; ok!(st, unit())
            }
            "reverse" => { self.upd_slice(&mut st, &a[0], &mut |_, _, l| { let mut v = l.s().to_vec(); v.reverse(); Ok(ListV::new(v)) })?; ok!(st, unit()) }
            "rotate_left" | "rotate_right" => { let k = cval(a[1].t()?).ok_or("rotate symbolic")? as usize; self.upd_slice(&mut st, &a[0], &mut |_, _, l| { let mut v = l.s().to_vec(); if m == "rotate_left" { v.rotate_left(k) } else { v.rotate_right(k) } Ok(ListV::new(v)) })?; ok!(st, unit()) }
            "fill" => { let x = a[1].clone(); self.upd_slice(&mut st, &a[0], &mut |_, _, l| Ok(ListV::new(l.s().iter().map(|s| Slot { g: s.g, v: x.clone() }).collect())))?; ok!(st, unit()) }
            "sort" | "sort_unstable" => { let et = self.elem_ty(cx.tys[0])?; self.upd_slice(&mut st, &a[0], &mut |e, s, l| e.sort_list(s, l, et))?; ok!(st, unit()) }
            "sort_by" | "sort_unstable_by" | "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key" => {
                let bykey = m.contains("key"); let fp = self.alloc(&mut st, a[1].clone()); let ft = cx.tys[1]; let kt = if bykey { garg_ty(&cx.c.gargs, 1) } else { None };
                let t0 = self.deref1(&a[0])?; if matches!(t0.meta, Meta::Rng(..)) { return Err("sort of sub-slice".into()) }
                let cur = st.read_t(&t0)?; let l = cur.list()?;
                let r = self.sort_with(st, l, &mut |e, s, x, y, g| {
                    let mut s = s; let (p, q) = (e.alloc(&mut s, x), e.alloc(&mut s, y));
                    if bykey {
                        let kt = kt.ok_or("key type")?;
                        let (s1, k1) = match e.guarded(s, g, |e, s| e.apply(s, (ft, tptr(fp.clone()), true), vec![tptr(p.clone())]))? { None => return Ok(None), Some(x) => x };
                        let (s2, k2) = match e.guarded(s1, g, |e, s| e.apply(s, (ft, tptr(fp.clone()), true), vec![tptr(q.clone())]))? { None => return Ok(None), Some(x) => x };
                        let (lt, _) = e.cmp_vals(&s2, &k1, &k2, kt)?; return Ok(Some((s2, lt)));
                    }
                    Ok(match e.guarded(s, g, |e, s| e.apply(s, (ft, tptr(fp.clone()), true), vec![tptr(p.clone()), tptr(q.clone())]))? { None => None, Some((s, o)) => { let lt = o.isv(0)?; Some((s, lt)) } })
                })?;
                match r { None => Ok(Ok(None)), Some((mut s, l)) => { let v = match cur { Val::Agg(_) => agg(l.s().iter().map(|s| s.v.clone()).collect()), _ => Val::L(l) }; s.write_t(&t0, TR, &v)?; ok!(s, unit()) } }
            }
            "dedup" => {
                let et = self.elem_ty(cx.tys[0])?;
                self.upd(&mut st, &a[0], &mut |e, s, cur| {
                    let l = cur.list()?;
                    // physical runs of identical values
                    let mut out: Vec<Slot> = vec![];
                    let mut exact = true;
                    for x in l.s() {
                        if let Some(o) = out.last_mut() { let q = e.eq_vals(s, &o.v, &x.v, et, et)?; if q == TR { o.g = or(o.g, x.g); continue } if q != F { exact = false } }
                        out.push(x.clone());
                    }
                    // exact when equal values can only be physically adjacent
                    if exact { 'o: for i in 0..out.len() { for j in i + 2..out.len() { if e.eq_vals(s, &out[i].v, &out[j].v, et, et)? != F { exact = false; break 'o } } } }
                    if exact { return Ok((Val::L(ListV::new(out)), unit())) }
                    let c = l.compact()?; let mut out: Vec<Slot> = vec![];
                    for (k, x) in c.s().iter().enumerate() { let mut g = x.g; if k > 0 { let q = e.eq_vals(s, &c.s()[k - 1].v, &x.v, et, et)?; g = and(g, not(q)) } if g != F { out.push(Slot { g, v: x.v.clone() }) } }
                    Ok((Val::L(ListV::new(out)), unit()))
                })?;
                ok!(st, unit())
            }
            "contains" => {
                let et = self.elem_ty(cx.tys[0])?; let l = cur!().list()?; let y = self.read_p(&st, &a[1])?; let mut o = vec![];
                for x in l.s() { let q = self.eq_vals(&st, &x.v, &y, et, et)?; o.push(and(x.g, q)) }
                ok!(st, Val::S(or_n(&o)))
            }
            "concat" => {
                let et = self.elem_ty(cx.tys[0])?; if adt_name(et).map(|n| n.ends_with("String")).unwrap_or(false) || matches!(et.kind(), TyKind::RigidTy(RigidTy::Ref(..))) && matches!(pointee(et).unwrap().kind(), TyKind::RigidTy(RigidTy::Str)) { ok!(st, Val::Op(1)) }
                let l = cur!().list()?; let mut out = vec![];
                for x in l.s() { let inner = match &x.v { Val::P(_) => self.read_p(&st, &x.v)?, v => v.clone() }; for y in inner.list()?.s() { let g = and(x.g, y.g); if g != F { out.push(Slot { g, v: y.v.clone() }) } } }
                ok!(st, Val::L(ListV::new(out)))
            }
            "join" => ok!(st, Val::Op(1)),
            "starts_with" | "ends_with" => {
                let et = self.elem_ty(cx.tys[0])?; let (x, y) = (cur!().list()?.compact()?, self.read_p(&st, &a[1])?.list()?.compact()?);
                if !x.is_dense() || !y.is_dense() { return Err("starts_with on guarded lists".into()) }
                if y.n() > x.n() { ok!(st, sb(false)) }
                let off = if m == "ends_with" { x.n() - y.n() } else { 0 }; let mut v = vec![]; for (i, q) in y.s().iter().enumerate() { v.push(self.eq_vals(&st, &x.s()[off + i].v, &q.v, et, et)?) } ok!(st, Val::S(and_n(&v)))
            }
            "split_at" | "split_at_mut" | "split_first" | "split_last" => {
                let len = self.ptr_meta(&st, &a[0])?.t()?;
                if m.starts_with("split_at") { let k = a[1].t()?; if !self.must(&mut st, not(ult(len, k)), "split_at out of bounds") { return Ok(Ok(None)) } let p = self.slice_ptr(&mut st, &a[0], usz(0), k)?; let q = self.slice_ptr(&mut st, &a[0], k, len)?; ok!(st, agg(vec![p, q])) }
                let ne = not(eq(len, usz(0))); if st.pc.decide(ne) == Some(false) { ok!(st, none()) }
                let last = sub(len, usz(1)); let (i, lo, hi) = if m == "split_first" { (usz(0), usz(1), len) } else { (last, usz(0), last) };
                let p = self.idx(&mut st, &a[0], i)?; let q = self.slice_ptr(&mut st, &a[0], lo, hi)?; ok!(st, option(ne, agg(vec![p, q])))
            }
            "chunks" | "windows" | "chunks_exact" => {
                let k = cval(a[1].t()?).ok_or("chunk size symbolic")? as usize; let len = cval(self.ptr_meta(&st, &a[0])?.t()?).ok_or("chunks of a symbolic-length slice")? as usize;
                if k == 0 { self.must(&mut st, F, "chunk size must be non-zero"); return Ok(Ok(None)) }
                let mut out = vec![]; let mut i = 0;
                while i < len { let e = (i + k).min(len); if (m == "windows" || m == "chunks_exact") && i + k > len { break } out.push(self.slice_ptr(&mut st, &a[0], usz(i as u64), usz(e as u64))?); i += if m == "windows" { 1 } else { k } }
                ok!(st, Val::L(ListV::dense(out)))
            }
            "map" => {
                let l = a[0].list()?; let fp = self.alloc(&mut st, a[1].clone()); let ft = cx.tys[1]; let mut s = st; let mut out = vec![];
                for x in l.s() { match self.apply(s, (ft, tptr(fp.clone()), true), vec![x.v.clone()])? { None => return Ok(Ok(None)), Some((s2, v)) => { s = s2; out.push(v) } } }
                ok!(s, agg(out))
            }
            "copy_from_slice" | "clone_from_slice" => {
                let src = self.read_p(&st, &a[1])?.list()?; if !src.is_dense() { return Err("copy_from_slice of guarded list".into()) }
                let len = self.ptr_meta(&st, &a[0])?.t()?; if !self.must(&mut st, eq(len, usz(src.n() as u64)), "copy_from_slice: source slice length does not match destination slice length") { return Ok(Ok(None)) }
                let ps = self.elem_ptrs(&st, &a[0])?; for (p, x) in ps.s().iter().zip(src.s()) { self.write_p(&mut st, &p.v, &x.v)? } ok!(st, unit())
            }
            "binary_search" => Err("binary_search".into()),
            _ => Ok(Err(st)),
        }
    }
    fn idx(&mut self, st: &mut State, p: &Val, i: T) -> R<Val> { self.idx_ptr(st, p, i) }
    fn range_bounds(&self, v: &Val, ty: Ty, len: T) -> R<(T, T)> { self.range_of(v, ty, len)?.ok_or("range".into()) }
    /// update the elements of a slice in place (length preserved)
    fn upd_slice(&mut self, st: &mut State, p: &Val, f: &mut dyn FnMut(&mut Eng, &State, ListV) -> R<ListV>) -> R<()> {
        let alts = self.deref(p)?; let many = alts.len() > 1;
        for (g, t) in alts {
            let v = st.read_m(&t)?; let l = v.list()?; let nl = f(self, st, l)?;
            match t.meta {
                Meta::Rng(lo, _) => { for (i, s) in nl.s().iter().enumerate() { let mut t2 = t.clone(); t2.meta = Meta::All; t2.path.push(PE::Slot(lo + i as u32)); if s.g != TR { return Err("guarded sub-slice update".into()) } st.write_t(&t2, if many { g } else { TR }, &s.v)? } }
                _ => { let nv = match v { Val::Agg(_) => agg(nl.s().iter().map(|s| s.v.clone()).collect()), _ => Val::L(nl) }; st.write_t(&t, if many { g } else { TR }, &nv)? }
            }
        }
        Ok(())
    }
}
fn st_simp(st: &State, g: T) -> T { st.pc.simp(g) }
#[allow(unused)] fn _u(_: Rc<u8>) {}
