//! Iterator protocol: guarded item streams.
use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::rc::Rc;

pub enum Step { Item(State, T, Val, bool), End(State), Dead }
pub fn iter_kind(ty: Ty) -> (String, GenericArgs) {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => { let n = d.name(); let s = n.rsplit("::").next().unwrap_or("").to_string(); let crate_ = n.split("::").next().unwrap_or(""); if crate_ == "indicatif" { (s, a) } else if matches!(crate_, "std" | "core" | "alloc" | "rayon" | "itertools") { (s, a) } else { (format!("user::{}", s), a) } }
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => ("&mut".into(), GenericArgs(vec![GenericArgKind::Type(t)])),
        _ => (format!("{:?}", ty.kind()).chars().take(40).collect(), GenericArgs(vec![])),
    }
}
fn fld(t: &Target, i: u16) -> Target { first_child(t, PE::F(i)) }

impl Eng {
    /// pointers to the elements of the sequence behind a slice/Vec/array/hash container pointer
    pub fn elem_ptrs(&self, st: &State, p: &Val) -> R<ListV> {
        let alts = self.deref(p)?;
        let many = alts.len() > 1;
        let mut out = vec![];
        for (g, t) in alts {
            if many && st.pc.decide(g) == Some(false) { continue }
            let v = st.read_t(&t)?;
            let v = if let Val::U(u) = v { fold_union(u.to_vec())? } else { v };
            let n = seq_n(&v)?;
            let (lo, hi) = match t.meta { Meta::Rng(lo, hi) => (lo as usize, hi as usize), _ => (0, n) };
            for k in lo..hi {
                let s = seq_slot(&v, k)?;
                let gg = if many { and(g, s.g) } else { s.g };
                if gg == F { continue }
                let mut tt = t.clone(); tt.meta = Meta::All; tt.path.push(PE::Slot(k as u32));
                out.push(Slot { g: gg, v: tptr(tt) });
            }
        }
        Ok(ListV::new(out))
    }
    pub fn sub_ptr(&self, p: &Val, e: &[PE]) -> Val {
        match p { Val::P(pv) => Val::P(Rc::new(PtrV { alts: pv.alts.iter().map(|(g, t)| { let mut t = t.clone(); t.path.extend_from_slice(e); (*g, t) }).collect() })), _ => p.clone() }
    }
    /// IntoIterator::into_iter / .iter() on a value of type ty
    pub fn make_iter(&mut self, st: &mut State, v: Val, ty: Ty) -> R<Option<Val>> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) => match t.kind() {
                TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Array(..)) => Ok(Some(Val::L(self.elem_ptrs(st, &v)?))),
                TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                    let n = d.name();
                    if is_vec(&n) || n.ends_with("HashSet") || n.ends_with("BTreeSet") { return Ok(Some(Val::L(self.elem_ptrs(st, &v)?))) }
                    if n.ends_with("HashMap") || n.ends_with("BTreeMap") { return Ok(Some(Val::L(self.map_pairs(st, &v)?))) }
                    if n.ends_with("option::Option") { return Ok(Some(self.opt_iter(st, &v)?)) }
                    if d.is_box() { let inner = garg_ty(&a, 0).unwrap(); let p = self.read_p(st, &v)?; let _ = inner; return Ok(Some(Val::L(self.elem_ptrs(st, &p)?))) }
                    Ok(None)
                }
                _ => Ok(None),
            },
            TyKind::RigidTy(RigidTy::Array(..)) => Ok(Some(Val::L(v.list()?))),
            TyKind::RigidTy(RigidTy::Adt(d, _)) => {
                let n = d.name();
                if is_vec(&n) || builtin_adt(&n) && !n.ends_with("String") { return Ok(Some(Val::L(v.list()?))) }
                if n.ends_with("option::Option") { let g = is_variant(&v, 1)?; let p = payload(&v, 1)?; return Ok(Some(Val::L(match p.get(0) { Some(x) if g != F => ListV::new(vec![Slot { g, v: x.clone() }]), _ => ListV::empty() }))) }
                Ok(None)
            }
            _ => Ok(None),
        }
    }
    pub fn opt_iter(&self, st: &State, p: &Val) -> R<Val> {
        let mut out = vec![];
        for (g, t) in self.deref(p)? { let v = st.read_t(&t)?; let h = and(g, is_variant(&v, 1)?); if h == F { continue } let mut t = t.clone(); t.path.push(PE::V(1)); t.path.push(PE::F(0)); out.push(Slot { g: h, v: tptr(t) }) }
        Ok(Val::L(ListV::new(out)))
    }
    pub fn map_pairs(&self, st: &State, p: &Val) -> R<ListV> {
        let l = self.elem_ptrs(st, p)?;
        Ok(ListV::new(l.s().iter().map(|s| Slot { g: s.g, v: agg(vec![self.sub_ptr(&s.v, &[PE::F(0)]), self.sub_ptr(&s.v, &[PE::F(1)])]) }).collect()))
    }
    /// advance the iterator at `it` by one slot
    pub fn step(&mut self, mut st: State, it: &Target, ty: Ty) -> R<Step> {
        let cur = st.read_t(it)?;
        let cur = if let Val::U(u) = cur { let v = fold_union(u.to_vec())?; st.write_t(it, TR, &v)?; v } else { cur };
        if let Val::L(l) = &cur {
            if l.n() == 0 { return Ok(Step::End(st)) }
            let s = l.s()[0].clone();
            st.with(it, |v| { if let Val::L(l) = v { l.lo += 1 } Ok(()) })?;
            if s.g == F { return self.step(st, it, ty) }
            return Ok(Step::Item(st, s.g, s.v, false));
        }
        let (k, a) = iter_kind(ty);
        let sub = |i| garg_ty(&a, i).ok_or_else(|| format!("iterator arg {} of {}", i, ty));
        macro_rules! inner { ($st:expr, $i:expr, $n:expr) => { match self.step($st, &fld(it, $i), sub($n)?)? { Step::Item(s, g, v, f) => (s, g, v, f), x => return Ok(x) } } }
        match k.as_str() {
            "&mut" => { let mut alts = self.deref(&cur)?; if alts.len() > 1 { alts.retain(|(g, _)| st.pc.decide(*g) != Some(false)) } if alts.len() != 1 { return Err("ambiguous iterator pointer".into()) } self.step(st, &alts[0].1.clone(), sub(0)?) }
            "Range" | "RangeInclusive" | "RangeFrom" => {
                let f = match &cur { Val::Agg(a) => a.clone(), _ => return Err("range value".into()) };
                let lo = f[0].t()?; let s = match scal(sub(0)?) { Sk::Int(_, s) => s, _ => return Err("range of non-integers".into()) };
                let one = bv(width(lo), 1);
                let lt = |x, y| if s { slt(x, y) } else { ult(x, y) };
                let g = match k.as_str() { "Range" => lt(lo, f[1].t()?), "RangeInclusive" => { let ex = f[2].t()?; and(not(ex), not(lt(f[1].t()?, lo))) } _ => TR };
                match st.pc.decide(g) { Some(false) => return Ok(Step::End(st)), _ => {} }
                let g2 = st.pc.simp(g);
                if k == "RangeInclusive" {
                    let last = eq(lo, f[1].t()?);
                    let done = or(f[2].t()?, last);
                    st.write_t(&fld(it, 2), TR, &Val::S(done))?;
                    st.write_t(&fld(it, 0), TR, &Val::S(ite(last, lo, add(lo, one))))?;
                } else { st.write_t(&fld(it, 0), TR, &Val::S(add(lo, one)))?; }
                Ok(Step::Item(st, g2, Val::S(lo), g2 != TR))
            }
            "Map" => {
                let (s, g, v, f) = inner!(st, 0, 0);
                let ft = sub(1)?; let fp = tptr(fld(it, 1));
                match self.guarded(s, g, |e, s| e.apply(s, (ft, fp, true), vec![v]))? { Some((s, v)) => Ok(Step::Item(s, g, v, f)), None => Ok(Step::Dead) }
            }
            "Inspect" => {
                let (mut s, g, v, f) = inner!(st, 0, 0);
                let t = self.alloc(&mut s, v.clone());
                let ft = sub(1)?; let fp = tptr(fld(it, 1));
                match self.guarded(s, g, |e, s| e.apply(s, (ft, fp, true), vec![tptr(t)]))? { Some((s, _)) => Ok(Step::Item(s, g, v, f)), None => Ok(Step::Dead) }
            }
            "Filter" => {
                let (mut s, g, v, f) = inner!(st, 0, 0);
                let t = self.alloc(&mut s, v.clone());
                let ft = sub(1)?; let fp = tptr(fld(it, 1)); let tp = tptr(t.clone());
                match self.guarded(s, g, |e, s| e.apply(s, (ft, fp, true), vec![tp]))? {
                    Some((mut s, r)) => { let v = s.read_t(&t)?; self.free(&mut s, &t); let h = match r { Val::Uninit => F, r => r.t()? }; let gg = and(g, h); let f = f && (gg == g || !self.fused(sub(0)?, "filter")?); let gg = s.pc.simp(gg); Ok(Step::Item(s, gg, v, f)) }
                    None => Ok(Step::Dead),
                }
            }
            "FilterMap" | "MapWhile" => {
                let (s, g, v, f) = inner!(st, 0, 0);
                let ft = sub(1)?; let fp = tptr(fld(it, 1));
                match self.guarded(s, g, |e, s| e.apply(s, (ft, fp, true), vec![v]))? {
                    Some((s, Val::Uninit)) => Ok(Step::Item(s, F, Val::Uninit, f)),
                    Some((s, r)) => { let h = is_variant(&r, 1)?; let p = payload(&r, 1)?; let v = p.get(0).cloned().unwrap_or(Val::Uninit); let gg = s.pc.simp(and(g, h)); let fin = if k == "MapWhile" { if gg == F { return Ok(Step::End(s)) } gg != TR } else { f }; let fin = fin && !(k == "FilterMap" && gg != g && self.fused(sub(0)?, "filter_map")?); Ok(Step::Item(s, gg, v, fin)) }
                    None => Ok(Step::Dead),
                }
            }
            "TakeWhile" => {
                let (mut s, g, v, f) = inner!(st, 0, 0);
                let flag = s.read_t(&fld(it, 2))?.t()?; // true: stopped
                if s.pc.decide(flag) == Some(true) { return Ok(Step::End(s)) }
                let t = self.alloc(&mut s, v.clone()); let ft = sub(1)?; let fp = tptr(fld(it, 1)); let tp = tptr(t);
                let gg = and(g, not(flag));
                match self.guarded(s, gg, |e, s| e.apply(s, (ft, fp, true), vec![tp]))? {
                    Some((mut s, r)) => { let h = match r { Val::Uninit => F, r => r.t()? }; let nf = or(flag, and(gg, not(h))); s.write_t(&fld(it, 2), TR, &Val::S(nf))?; let out = s.pc.simp(and(gg, h)); Ok(Step::Item(s, out, v, f)) }
                    None => Ok(Step::Dead),
                }
            }
            "SkipWhile" => {
                let (mut s, g, v, f) = inner!(st, 0, 0);
                let started = s.read_t(&fld(it, 2))?.t()?;
                let t = self.alloc(&mut s, v.clone()); let ft = sub(1)?; let fp = tptr(fld(it, 1)); let tp = tptr(t);
                match self.guarded(s, and(g, not(started)), |e, s| e.apply(s, (ft, fp, true), vec![tp]))? {
                    Some((mut s, r)) => { let skip = match r { Val::Uninit => F, r => r.t()? }; let ns = or(started, and(g, not(skip))); s.write_t(&fld(it, 2), TR, &Val::S(ns))?; let gg = s.pc.simp(and(g, ns)); Ok(Step::Item(s, gg, v, f)) }
                    None => Ok(Step::Dead),
                }
            }
            "Enumerate" => {
                let (mut s, g, v, f) = inner!(st, 0, 0);
                let c = s.read_t(&fld(it, 1))?.t()?;
                s.write_t(&fld(it, 1), TR, &Val::S(ite(g, add(c, usz(1)), c)))?;
                Ok(Step::Item(s, g, agg(vec![Val::S(c), v]), f))
            }
            "Cloned" | "Copied" => {
                let (s, g, v, f) = inner!(st, 0, 0);
                let et = self.item_ty(sub(0)?)?; let pt = pointee(et).ok_or("cloned item")?;
                if k == "Copied" { let x = self.read_p(&s, &v)?; return Ok(Step::Item(s, g, x, f)) }
                match self.guarded(s, g, |e, s| e.clone_of(s, &v, pt))? { Some((s, x)) => Ok(Step::Item(s, g, x, f)), None => Ok(Step::Dead) }
            }
            "Take" => {
                let n = st.read_t(&fld(it, 1))?.t()?;
                let more = not(eq(n, usz(0)));
                if st.pc.decide(more) == Some(false) { return Ok(Step::End(st)) }
                let (mut s, g, v, f) = inner!(st, 0, 0);
                let gg = s.pc.simp(and(g, more));
                s.write_t(&fld(it, 1), TR, &Val::S(ite(gg, sub2(n), n)))?;
                Ok(Step::Item(s, gg, v, f))
            }
            "Skip" => {
                let n = st.read_t(&fld(it, 1))?.t()?;
                let (mut s, g, v, f) = inner!(st, 0, 0);
                let z = eq(n, usz(0));
                s.write_t(&fld(it, 1), TR, &Val::S(ite(and(g, not(z)), sub2(n), n)))?;
                let gg = s.pc.simp(and(g, z));
                let f = f && !(gg != g && self.fused(sub(0)?, "skip")?);
                Ok(Step::Item(s, gg, v, f))
            }
            "StepBy" => {
                // fields: iter, step, phase
                let n = cval(st.read_t(&fld(it, 1))?.t()?).ok_or("step_by symbolic step")?;
                let (mut s, g, v, f) = inner!(st, 0, 0);
                let ph = s.read_t(&fld(it, 2))?.t()?;
                let z = eq(ph, usz(0));
                s.write_t(&fld(it, 2), TR, &Val::S(ite(g, ite(z, usz(n as u64 - 1), sub2(ph)), ph)))?;
                let gg = s.pc.simp(and(g, z));
                Ok(Step::Item(s, gg, v, f && gg != F))
            }
            "Rev" => { match self.step_back(st, &fld(it, 0), sub(0)?)? { x => Ok(x) } }
            "Fuse" | "ProgressBarIter" | "Peekable" if matches!(&cur, Val::Agg(_)) && k != "Peekable" => { let (s, g, v, f) = inner!(st, 0, 0); Ok(Step::Item(s, g, v, f)) }
            "Peekable" => {
                // fields: iter, peeked: list
                let pk = st.read_t(&fld(it, 1))?.list()?;
                if pk.n() > 0 { let s0 = pk.s()[0].clone(); st.with(&fld(it, 1), |v| { if let Val::L(l) = v { l.lo += 1 } Ok(()) })?; return Ok(Step::Item(st, s0.g, s0.v, false)) }
                let (s, g, v, f) = inner!(st, 0, 0); Ok(Step::Item(s, g, v, f))
            }
            "Chain" => {
                let ph = st.read_t(&fld(it, 2))?.t()?;
                if ph == F {
                    match self.step(st, &fld(it, 0), sub(0)?)? {
                        Step::End(mut s) => { s.write_t(&fld(it, 2), TR, &sb(true))?; self.step(s, it, ty) }
                        Step::Item(s, g, v, true) => { let mut s = s; // open-ended first half: drain it into a list
                            let mut alive = g; let mut l = vec![Slot { g, v }];
                            loop { match self.step(s, &fld(it, 0), sub(0)?)? { Step::End(x) => { s = x; break } Step::Dead => return Ok(Step::Dead), Step::Item(x, g, v, fin) => { let g2 = and(alive, g); if fin { alive = g2 } l.push(Slot { g: g2, v }); s = x } } if l.len() > 5000 { return Err("chain drain".into()) } }
                            let first = l.remove(0); s.write_t(&fld(it, 0), TR, &Val::L(ListV::new(l)))?;
                            Ok(Step::Item(s, first.g, first.v, false)) }
                        x => Ok(x),
                    }
                } else if ph == TR { self.step(st, &fld(it, 1), sub(1)?) } else { Err("chain merged in different phases".into()) }
            }
            "Zip" => {
                // both sides are drained to aligned lists on first use
                let mut s = st; let mut ls = vec![];
                for i in 0..2u16 { match self.drain(s, &fld(it, i), sub(i as usize)?)? { Some((s2, l)) => { s = s2; ls.push(l) } None => return Ok(Step::Dead) } }
                let z = zip_lists(&ls[0], &ls[1])?;
                s.write_t(it, TR, &Val::L(z))?;
                self.step(s, it, ty)
            }
            "FlatMap" | "Flatten" => {
                // fields: iter, f, front: list
                let fr = st.read_t(&fld(it, 2))?.list()?;
                if fr.n() > 0 { let s0 = fr.s()[0].clone(); st.with(&fld(it, 2), |v| { if let Val::L(l) = v { l.lo += 1 } Ok(()) })?; return Ok(Step::Item(st, s0.g, s0.v, false)) }
                let (s, g, v, f) = inner!(st, 0, 0);
                if f { self.fused(sub(0)?, "flat_map")?; }
                let (r, uty) = if k == "FlatMap" { let ft = sub(2)?; let fp = tptr(fld(it, 1)); (self.guarded(s, g, |e, s| e.apply(s, (ft, fp, true), vec![v]))?, sub(1)?) } else { (Some((s, v)), self.item_ty(sub(0)?)?) };
                match r {
                    None => Ok(Step::Dead),
                    Some((s, Val::Uninit)) => self.step(s, it, ty),
                    Some((s, v)) => {
                        let mut lst = ListV::empty();
                        let r = { let lr = &mut lst; self.guarded(s, g, |e, mut s| { let (v, vt) = e.to_iter(&mut s, v, uty)?; match e.drain_val(s, v, vt)? { Some((s, l)) => { *lr = l; Ok(Some((s, unit()))) } None => Ok(None) } })? };
                        match r { None => Ok(Step::Dead), Some((mut s, _)) => {
                            let items: Vec<Slot> = lst.s().iter().map(|x| Slot { g: and(g, x.g), v: x.v.clone() }).filter(|x| x.g != F).collect();
                            s.write_t(&fld(it, 2), TR, &Val::L(ListV::new(items)))?;
                            self.step(s, it, ty)
                        } }
                    }
                }
            }
            "Scan" => {
                let (s, g, v, _f) = inner!(st, 0, 0);
                let ft = sub(2)?; let fp = tptr(fld(it, 2)); let sp = tptr(fld(it, 1));
                match self.guarded(s, g, |e, s| e.apply(s, (ft, fp, true), vec![sp, v]))? { Some((s, Val::Uninit)) => Ok(Step::Item(s, F, Val::Uninit, false)), Some((s, r)) => { let h = is_variant(&r, 1)?; let p = payload(&r, 1)?; let v = p.get(0).cloned().unwrap_or(Val::Uninit); if h == F && g == TR { return Ok(Step::End(s)) } let gg = s.pc.simp(and(g, h)); Ok(Step::Item(s, gg, v, gg != g)) } None => Ok(Step::Dead) }
            }
            "Repeat" => Ok(Step::Item(st, TR, cur.field(0)?, false)),
            "RepeatWith" => { let fp = tptr(fld(it, 0)); match self.apply(st, (sub(0)?, fp, true), vec![])? { Some((s, v)) => Ok(Step::Item(s, TR, v, false)), None => Ok(Step::Dead) } }
            _ => {
                // user iterator: run its next()
                match self.lang_call(st, "next", &[ty], vec![tptr(it.clone())])? {
                    None => Ok(Step::Dead),
                    Some((s, r)) => { let g = s.pc.simp(is_variant(&r, 1)?); if g == F { return Ok(Step::End(s)) } let p = payload(&r, 1)?; Ok(Step::Item(s, g, p.get(0).cloned().unwrap_or(Val::Uninit), g != TR)) }
                }
            }
        }
    }
    pub fn step_back(&mut self, mut st: State, it: &Target, ty: Ty) -> R<Step> {
        let cur = st.read_t(it)?;
        if let Val::L(l) = &cur {
            if l.n() == 0 { return Ok(Step::End(st)) }
            let s = l.s()[l.n() - 1].clone();
            st.with(it, |v| { if let Val::L(l) = v { l.hi -= 1 } Ok(()) })?;
            return Ok(Step::Item(st, s.g, s.v, false));
        }
        let (k, a) = iter_kind(ty);
        let sub_ = |i| garg_ty(&a, i).ok_or_else(|| format!("iterator arg {} of {}", i, ty));
        match k.as_str() {
            "Rev" => self.step(st, &fld(it, 0), sub_(0)?),
            "Range" | "RangeInclusive" => {
                let f = match &cur { Val::Agg(a) => a.clone(), _ => return Err("range value".into()) };
                let (lo, hi) = (f[0].t()?, f[1].t()?); let s = match scal(sub_(0)?) { Sk::Int(_, s) => s, _ => return Err("range of non-integers".into()) };
                let lt = |x, y| if s { slt(x, y) } else { ult(x, y) };
                let one = bv(width(lo), 1);
                if k == "Range" {
                    let g = st.pc.simp(lt(lo, hi)); if g == F { return Ok(Step::End(st)) }
                    let v = sub(hi, one); st.write_t(&fld(it, 1), TR, &Val::S(v))?;
                    Ok(Step::Item(st, g, Val::S(v), g != TR))
                } else {
                    let g = st.pc.simp(and(not(f[2].t()?), not(lt(hi, lo)))); if g == F { return Ok(Step::End(st)) }
                    let last = eq(lo, hi);
                    st.write_t(&fld(it, 2), TR, &Val::S(or(f[2].t()?, last)))?; st.write_t(&fld(it, 1), TR, &Val::S(ite(last, hi, sub(hi, one))))?;
                    Ok(Step::Item(st, g, Val::S(hi), g != TR))
                }
            }
            "Map" => match self.step_back(st, &fld(it, 0), sub_(0)?)? {
                Step::Item(s, g, v, f) => { let ft = sub_(1)?; let fp = tptr(fld(it, 1)); match self.guarded(s, g, |e, s| e.apply(s, (ft, fp, true), vec![v]))? { Some((s, v)) => Ok(Step::Item(s, g, v, f)), None => Ok(Step::Dead) } }
                x => Ok(x),
            },
            "Cloned" | "Copied" => match self.step_back(st, &fld(it, 0), sub_(0)?)? { Step::Item(s, g, v, f) => { let x = self.read_p(&s, &v)?; Ok(Step::Item(s, g, x, f)) } x => Ok(x) },
            _ => {
                // generic: materialise the forward stream, then walk it backwards
                match self.drain(st, it, ty)? { None => Ok(Step::Dead), Some((mut s, l)) => { s.write_t(it, TR, &Val::L(l))?; self.step_back(s, it, ty) } }
            }
        }
    }
    pub fn drain(&mut self, st: State, it: &Target, ty: Ty) -> R<Option<(State, ListV)>> {
        let mut s = st; let mut out: Vec<Slot> = vec![]; let mut alive = TR;
        if let Val::L(l) = s.read_t(it)? { s.write_t(it, TR, &Val::L(ListV::empty()))?; return Ok(Some((s, l))) }
        loop {
            match self.step(s, it, ty)? {
                Step::Dead => return Ok(None),
                Step::End(x) => return Ok(Some((x, ListV::new(out)))),
                Step::Item(x, g, v, fin) => { s = x; let gg = s.pc.simp(and(alive, g)); if fin { alive = gg; if gg == F { return Ok(Some((s, ListV::new(out)))) } } if gg != F { out.push(Slot { g: gg, v }) } }
            }
            if out.len() > 20000 { return Err("iterator too long".into()) }
        }
    }
    pub fn drain_val(&mut self, mut st: State, v: Val, ty: Ty) -> R<Option<(State, ListV)>> {
        if let Val::L(l) = v { return Ok(Some((st, l))) }
        let t = self.alloc(&mut st, v);
        Ok(self.drain(st, &t, ty)?.map(|(mut s, l)| { self.free(&mut s, &t); (s, l) }))
    }
    /// adapters that keep asking after an absent item are only modelled over fused sources
    fn fused(&self, ty: Ty, what: &str) -> R<bool> {
        let (k, a) = iter_kind(ty);
        if k.starts_with("user::") { return Err(format!("{} over an open-ended stream", what)) }
        for x in &a.0 { if let GenericArgKind::Type(t) = x { if !matches!(t.kind(), TyKind::RigidTy(RigidTy::Closure(..) | RigidTy::FnDef(..))) { let (k2, _) = iter_kind(*t); if matches!(k2.as_str(), "Map" | "Filter" | "FilterMap" | "Skip" | "StepBy" | "Chain" | "Zip" | "Enumerate" | "Rev" | "Take" | "TakeWhile") { self.fused(*t, what)?; } } } break }
        Ok(true)
    }
    /// turn an IntoIterator value into an iterator value and its type
    pub fn to_iter(&mut self, st: &mut State, v: Val, ty: Ty) -> R<(Val, Ty)> {
        if let Some(x) = self.make_iter(st, v.clone(), ty)? { return Ok((x, ty)) }
        Ok((v, ty))
    }
    /// visit every item; the callback returns the condition under which iteration stops
    pub fn each(&mut self, st: State, it: &Target, ty: Ty, f: &mut dyn FnMut(&mut Eng, State, T, Val) -> R<Option<(State, T)>>) -> R<Option<(State, bool)>> {
        let mut s = st; let mut alive = TR; let mut n = 0;
        loop {
            match self.step(s, it, ty)? {
                Step::Dead => return Ok(None),
                Step::End(x) => return Ok(Some((x, alive == TR))),
                Step::Item(x, g, v, fin) => {
                    s = x; let gg = s.pc.simp(and(alive, g));
                    if fin { alive = gg }
                    if gg == F { if alive == F || fin { return Ok(Some((s, false))) } continue }
                    match f(self, s, gg, v)? { None => return Ok(None), Some((x, stop)) => { s = x; if stop == TR && gg == TR { return Ok(Some((s, true))) } alive = s.pc.simp(and(alive, not(stop))); if alive == F { return Ok(Some((s, false))) } } }
                }
            }
            n += 1; if n > 20000 { return Err("iteration too long".into()) }
        }
    }
    /// best effort item type of an iterator type
    pub fn item_ty(&self, ty: Ty) -> R<Ty> {
        let (k, a) = iter_kind(ty);
        let _ = (&k, &a);
        // resolve `Iterator::next` and look at its return type
        let (d, _) = self.lang.get("next").cloned().ok_or("lang next")?;
        let c = callee(d, &GenericArgs(vec![GenericArgKind::Type(ty)]));
        match c.inst { Some(i) => { let (_, r) = self.sig_of(i)?; match adt(r) { Some((_, a)) => garg_ty(&a, 0).ok_or("item type".into()), None => Err("item type".into()) } } None => match k.as_str() { "Iter" | "IterMut" => Err("item of Iter".into()), _ => Err(format!("item type of {}", ty)) } }
    }
}
fn sub2(n: T) -> T { sub(n, usz(1)) }
pub fn zip_lists(a: &ListV, b: &ListV) -> R<ListV> {
    // aligned when guards agree slot by slot, otherwise compact both
    let same_g = a.n() == b.n() && a.s().iter().zip(b.s()).all(|(x, y)| x.g == y.g);
    let (a, b) = if same_g { (a.clone(), b.clone()) } else { (a.compact()?, b.compact()?) };
    Ok(ListV::new(a.s().iter().zip(b.s()).map(|(x, y)| Slot { g: if x.g == y.g { x.g } else { and(x.g, y.g) }, v: agg(vec![x.v.clone(), y.v.clone()]) }).filter(|s| s.g != F).collect()))
}
