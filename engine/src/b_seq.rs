//! Vec, slices, arrays, hash containers, strings.
use crate::b_core::*;
use crate::exec::*;
use crate::ir::*;
use crate::ok;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::rc::Rc;

impl Eng {
    /// apply a functional update through a pointer; merges results over aliases
    pub fn upd(&mut self, st: &mut State, p: &Val, f: &mut dyn FnMut(&mut Eng, &State, Val) -> R<(Val, Val)>) -> R<Val> {
        let mut alts = self.deref(p)?; if alts.len() > 1 { alts.retain(|(g, _)| st.pc.decide(*g) != Some(false)) }
        let n = alts.len(); let mut acc: Option<Val> = None;
        for (g, t) in alts.into_iter().rev() {
            if matches!(t.meta, Meta::Rng(..)) { return Err("update through a sub-slice".into()) }
            let cur = st.read_t(&t)?; let cur = if let Val::U(u) = cur { fold_union(u.to_vec())? } else { cur };
            let (nv, r) = f(self, st, cur)?;
            st.write_t(&t, if n == 1 { TR } else { g }, &nv)?;
            acc = Some(match acc { None => r, Some(a) => merge(g, &r, &a)? });
        }
        acc.ok_or("empty pointer".into())
    }
    pub fn map_find(&mut self, st: &State, l: &ListV, key: &Val, kt: Ty) -> R<Vec<T>> {
        let mut v = vec![]; let mut any = F;
        for s in l.s() { let e = self.eq_vals(st, &s.v.field(0)?, key, kt, kt)?; let h = st.pc.simp(and_n(&[s.g, e, not(any)])); any = or(any, h); v.push(h) }
        Ok(v)
    }
    /// insert under guard g; returns (map, was present, old value)
    pub fn map_put(&mut self, st: &State, l: ListV, g: T, k: Val, v: Val, kt: Ty) -> R<(ListV, T, Val)> {
        let hits = self.map_find(st, &l, &k, kt)?;
        let mut out = vec![]; let mut any = F; let mut old = Val::Uninit;
        for (s, h) in l.s().iter().zip(&hits) {
            let w = and(*h, g);
            if w == F { out.push(s.clone()); continue }
            any = or(any, w); old = merge(w, &s.v.field(1)?, &old)?;
            out.push(Slot { g: s.g, v: agg(vec![s.v.field(0)?, merge(w, &v, &s.v.field(1)?)?]) });
        }
        let ins = st.pc.simp(and(g, not(any)));
        if ins != F { out.push(Slot { g: ins, v: agg(vec![k, v]) }) }
        Ok((ListV::new(out), any, old))
    }
    pub fn dedup_set(&mut self, st: &State, l: ListV, t: Ty) -> R<ListV> {
        let mut out: Vec<Slot> = vec![];
        for s in l.s() {
            let mut dup = vec![];
            for o in &out { let both = and(o.g, s.g); if both == F { continue } let e = self.eq_vals(st, &o.v, &s.v, t, t)?; if e != F { dup.push(and(o.g, e)) } }
            let g = st.pc.simp(and(s.g, not(or_n(&dup)))); if g != F { out.push(Slot { g, v: s.v.clone() }) }
        }
        Ok(ListV::new(out))
    }
    pub fn sort_list(&mut self, st: &State, l: ListV, t: Ty) -> R<ListV> {
        // concrete keys: stable physical sort of the guarded slots
        let mut v: Vec<Slot> = vec![]; for s in l.s() { split_slot(s, &mut v) }
        let l = ListV::new(v.clone()); let n = v.len();
        let mut concrete = true;
        'o: for i in 0..n { for j in i + 1..n { let (lt, e) = self.cmp_vals(st, &v[i].v, &v[j].v, t)?; if !is_const(lt) || !is_const(e) { concrete = false; break 'o } } }
        if concrete {
            for i in 1..n { let mut j = i; while j > 0 { let (lt, _) = self.cmp_vals(st, &v[j].v, &v[j - 1].v, t)?; if lt == TR { v.swap(j, j - 1); j -= 1 } else { break } } }
            return Ok(ListV::new(v));
        }
        if n > 40 { let mut w = String::new(); 'o: for i in 0..n { for j in i + 1..n { let (lt, e) = self.cmp_vals(st, &v[i].v, &v[j].v, t)?; if !is_const(lt) || !is_const(e) { w = format!("{} vs {}", dump(&v[i].v, 4), dump(&v[j].v, 4)); break 'o } } } return Err(format!("symbolic sort of a long list: {}", w)) }
        // bubble network on present elements (absent slots never swap past: use guards both present)
        let c = l.compact()?; let mut v: Vec<Slot> = c.s().to_vec(); let n = v.len();
        for i in 0..n { for j in 0..n - 1 - i.min(n - 1) {
            let (lt, _) = self.cmp_vals(st, &v[j + 1].v, &v[j].v, t)?; let sw = and(v[j + 1].g, lt);
            if sw == F { continue }
            let (x, y) = (v[j].v.clone(), v[j + 1].v.clone());
            v[j].v = merge(sw, &y, &x)?; v[j + 1].v = merge(sw, &x, &y)?;
        } }
        Ok(ListV::new(v))
    }
    pub fn sort_with(&mut self, st: State, l: ListV, less: &mut dyn FnMut(&mut Eng, State, Val, Val, T) -> R<Option<(State, T)>>) -> R<Option<(State, ListV)>> {
        let c = l.compact()?; let mut v: Vec<Slot> = c.s().to_vec(); let n = v.len(); let mut s = st;
        if n > 60 { return Err("sort of a long list".into()) }
        for i in 0..n { for j in 0..n - 1 - i.min(n - 1) {
            let both = s.pc.simp(and(v[j].g, v[j + 1].g)); if both == F { continue }
            match less(self, s, v[j + 1].v.clone(), v[j].v.clone(), both)? { None => return Ok(None), Some((s2, lt)) => {
                s = s2; let sw = s.pc.simp(and(both, lt)); if sw == F { continue }
                let (x, y) = (v[j].v.clone(), v[j + 1].v.clone());
                v[j].v = merge(sw, &y, &x)?; v[j + 1].v = merge(sw, &x, &y)?;
            } }
        } }
        Ok(Some((s, ListV::new(v))))
    }
    fn rebuild(cur: &Val, l: ListV) -> Val { match cur { Val::Agg(_) => agg(l.s().iter().map(|s| s.v.clone()).collect()), _ => Val::L(l) } }
    /// element pointer at index i (bounds already checked)
    pub fn idx_ptr(&mut self, st: &mut State, p: &Val, i: T) -> R<Val> {
        let mut alts = self.deref(p)?; if alts.len() > 1 { alts.retain(|(g, _)| st.pc.decide(*g) != Some(false)) }
        let mut out = vec![];
        for (g, t) in alts {
            let mut t2 = t.clone();
            let v = st.read_t(&t)?;
            // make the storage dense so that positions and indices coincide
            let dense = seq_dense(&v);
            if !dense { if let Val::L(l) = &v { if matches!(t.meta, Meta::Rng(..)) { return Err("index into guarded sub-slice".into()) } let c = l.compact()?; if !matches!(t.root, Root::Const(_)) { st.write_t(&t, TR, &Val::L(c))? } } }
            let lo = match t.meta { Meta::Rng(lo, _) => lo, _ => 0 }; t2.meta = Meta::All;
            let ii = add(i, usz(lo as u64));
            t2.path.push(match cval(ii) { Some(k) => PE::Slot(k as u32), None => PE::I(ii) });
            out.push((g, t2));
        }
        if out.len() == 1 { out[0].0 = TR }
        Ok(Val::P(Rc::new(PtrV { alts: out })))
    }
    /// (start, end) of a range value given the length
    pub fn range_of(&self, v: &Val, ty: Ty, len: T) -> R<Option<(T, T)>> {
        let n = match adt_name(ty) { Some(n) => n, None => return Ok(None) };
        let l = n.rsplit("::").next().unwrap_or("");
        Ok(match l { "Range" => Some((v.field(0)?.t()?, v.field(1)?.t()?)), "RangeFrom" => Some((v.field(0)?.t()?, len)), "RangeTo" => Some((usz(0), v.field(0)?.t()?)), "RangeFull" => Some((usz(0), len)), "RangeInclusive" => Some((v.field(0)?.t()?, add(v.field(1)?.t()?, usz(1)))), "RangeToInclusive" => Some((usz(0), add(v.field(0)?.t()?, usz(1)))), _ => None })
    }
    pub fn slice_ptr(&mut self, st: &mut State, p: &Val, lo: T, hi: T) -> R<Val> {
        let alts = self.deref(p)?;
        if let (Some(a), Some(b)) = (cval(lo), cval(hi)) {
            let mut out = vec![];
            let mut all = true;
            for (g, t) in &alts { let v = st.read_t(t)?; if !seq_dense(&v) { all = false; break } let base = match t.meta { Meta::Rng(l, _) => l, _ => 0 }; let mut t2 = t.clone(); t2.meta = Meta::Rng(base + a as u32, base + b as u32); out.push((*g, t2)) }
            if all { return Ok(Val::P(Rc::new(PtrV { alts: out }))) }
        }
        // symbolic bounds: copy (reads only)
        let v = self.read_p(st, p)?.list()?.compact()?;
        let mut o = vec![];
        for (k, s) in v.s().iter().enumerate() { let kk = usz(k as u64); let g = and_n(&[s.g, not(ult(kk, lo)), ult(kk, hi)]); if g != F { o.push(Slot { g, v: s.v.clone() }) } }
        let t = self.alloc(st, Val::L(ListV::new(o)));
        Ok(tptr(t))
    }
    pub fn b_seq(&mut self, st: State, cx: &Cx) -> B {
        let n: &str = &cx.c.name;
        let (cl, m) = match n.rsplit_once("::") { Some(x) => x, None => return Ok(Err(st)) };
        let a = cx.args; let mut st = st;
        match cl {
            "std::vec::Vec" | "std::collections::VecDeque" | "core::slice::<impl [T]>" | "std::slice::<impl [T]>" | "std::slice::SliceConcatExt" | "std::slice::Join" | "std::slice::Concat" | "core::array::<impl [T; N]>" | "std::array::<impl [T; N]>" | "core::array::<impl [T]>" => self.vec_method(st, cx, m),
            "std::vec" if m == "from_elem" => {
                let k = a[1].t()?; let k = cval(k).ok_or("vec![x; n] with symbolic length")?; if k > 100000 { return Err("vec too long".into()) }
                ok!(st, Val::L(ListV::dense(vec![a[0].clone(); k as usize])))
            }
            "std::collections::HashSet" | "std::collections::BTreeSet" => {
                let et = cx.ga(0)?;
                match m {
                    "new" | "with_capacity" | "default" => ok!(st, Val::L(ListV::empty())),
                    "insert" => { let x = a[1].clone(); let r = self.upd(&mut st, &a[0], &mut |e, s, cur| { let l = cur.list()?; let mut dup = vec![]; for o in l.s() { let q = e.eq_vals(s, &o.v, &x, et, et)?; if q != F { dup.push(and(o.g, q)) } } let g = s.pc.simp(not(or_n(&dup))); let mut l = l; l.push(g, x.clone()); Ok((Val::L(l), Val::S(g))) })?; ok!(st, r) }
                    "contains" => { let l = self.read_p(&st, &a[0])?.list()?; let y = self.read_p(&st, &a[1])?; let mut o = vec![]; for x in l.s() { let q = self.eq_vals(&st, &x.v, &y, et, et)?; o.push(and(x.g, q)) } ok!(st, Val::S(or_n(&o))) }
                    "remove" => { let y = self.read_p(&st, &a[1])?; let r = self.upd(&mut st, &a[0], &mut |e, s, cur| { let l = cur.list()?; let mut o = vec![]; let mut hit = F; for x in l.s() { let q = e.eq_vals(s, &x.v, &y, et, et)?; let h = and(x.g, q); hit = or(hit, h); o.push(Slot { g: and(x.g, not(h)), v: x.v.clone() }) } Ok((Val::L(ListV::new(o)), Val::S(hit))) })?; ok!(st, r) }
                    "len" => { let v = self.read_p(&st, &a[0])?; ok!(st, Val::S(seq_len(&v)?)) }
                    "is_empty" => { let v = self.read_p(&st, &a[0])?.list()?; ok!(st, Val::S(not(v.nonempty()))) }
                    "clear" => { self.write_p(&mut st, &a[0], &Val::L(ListV::empty()))?; ok!(st, unit()) }
                    "drain" => { let v = self.read_p(&st, &a[0])?; self.write_p(&mut st, &a[0], &Val::L(ListV::empty()))?; ok!(st, v) }
                    "reserve" => ok!(st, unit()),
                    _ => Ok(Err(st)),
                }
            }
            "std::collections::HashMap" | "std::collections::BTreeMap" => {
                match m { "new" | "with_capacity" | "default" => ok!(st, Val::L(ListV::empty())), _ => {} }
                let kt = cx.ga(0)?;
                match m {
                    "insert" => { let (k, v) = (a[1].clone(), a[2].clone()); let r = self.upd(&mut st, &a[0], &mut |e, s, cur| { let (l, any, old) = e.map_put(s, cur.list()?, TR, k.clone(), v.clone(), kt)?; Ok((Val::L(l), option(any, old))) })?; ok!(st, r) }
                    "get" | "get_mut" | "contains_key" | "remove" => {
                        let key = self.read_p(&st, &a[1])?;
                        // the key may be passed in borrowed form; compare as the map's key type
                        if m == "remove" { let r = self.upd(&mut st, &a[0], &mut |e, s, cur| { let l = cur.list()?; let h = e.map_find(s, &l, &key, kt)?; let mut o = vec![]; let mut old = Val::Uninit; let mut any = F; for (x, h) in l.s().iter().zip(&h) { if *h != F { old = merge(*h, &x.v.field(1)?, &old)?; any = or(any, *h) } o.push(Slot { g: and(x.g, not(*h)), v: x.v.clone() }) } Ok((Val::L(ListV::new(o)), option(any, old))) })?; ok!(st, r) }
                        let l = self.read_p(&st, &a[0])?.list()?;
                        let h = self.map_find(&st, &l, &key, kt)?; let any = or_n(&h);
                        let h: Vec<T> = l.s().iter().zip(h).filter(|(x, _)| x.g != F).map(|(_, h)| h).collect();
                        if m == "contains_key" { ok!(st, Val::S(any)) }
                        let ps = self.elem_ptrs(&st, &a[0])?;
                        if ps.n() != h.len() { return Err(format!("map get through aliased pointer ({} of {})", ps.n(), h.len())) }
                        let mut acc = Val::Uninit; for (p, g) in ps.s().iter().zip(&h) { if *g != F { acc = merge(*g, &self.sub_ptr(&p.v, &[PE::F(1)]), &acc)? } }
                        ok!(st, option(any, acc))
                    }
                    "len" => { let v = self.read_p(&st, &a[0])?; ok!(st, Val::S(seq_len(&v)?)) }
                    "is_empty" => { let v = self.read_p(&st, &a[0])?.list()?; ok!(st, Val::S(not(v.nonempty()))) }
                    "clear" => { self.write_p(&mut st, &a[0], &Val::L(ListV::empty()))?; ok!(st, unit()) }
                    "drain" => { let v = self.read_p(&st, &a[0])?; self.write_p(&mut st, &a[0], &Val::L(ListV::empty()))?; ok!(st, v) }
                    "reserve" => ok!(st, unit()),
                    "entry" => ok!(st, agg(vec![a[0].clone(), a[1].clone()])),
                    _ => Ok(Err(st)),
                }
            }
            "std::collections::hash_map::Entry" => {
                let kt = cx.ga(0)?; let p = a[0].field(0)?; let key = a[0].field(1)?;
                match m {
                    "or_insert" | "or_default" | "or_insert_with" => {
                        let dv = match m { "or_insert" => a[1].clone(), "or_insert_with" => match self.apply(st, (cx.tys[1], a[1].clone(), false), vec![])? { None => return Ok(Ok(None)), Some((s, v)) => { st = s; v } }, _ => { let vt = cx.ga(1)?; match self.lang_call(st, "default", &[vt], vec![])? { None => return Ok(Ok(None)), Some((s, v)) => { st = s; v } } } };
                        self.upd(&mut st, &p, &mut |e, s, cur| { let l = cur.list()?; let h = e.map_find(s, &l, &key, kt)?; let ins = s.pc.simp(not(or_n(&h))); let mut l = l; l.push(ins, agg(vec![key.clone(), dv.clone()])); Ok((Val::L(l), unit())) })?;
                        let l = self.read_p(&st, &p)?.list()?; let h = self.map_find(&st, &l, &key, kt)?; let ps = self.elem_ptrs(&st, &p)?;
                        let mut acc = Val::Uninit; for (q, g) in ps.s().iter().zip(&h) { if *g != F { acc = merge(*g, &self.sub_ptr(&q.v, &[PE::F(1)]), &acc)? } }
                        ok!(st, acc)
                    }
                    "and_modify" => {
                        let l = self.read_p(&st, &p)?.list()?; let h = self.map_find(&st, &l, &key, kt)?; let ps = self.elem_ptrs(&st, &p)?;
                        let fp = self.alloc(&mut st, a[1].clone()); let ft = cx.tys[1]; let mut s = st;
                        for (q, g) in ps.s().iter().zip(&h) { if *g == F { continue } let arg = self.sub_ptr(&q.v, &[PE::F(1)]); match self.guarded(s, *g, |e, s| e.apply(s, (ft, tptr(fp.clone()), true), vec![arg]))? { None => return Ok(Ok(None)), Some((s2, _)) => s = s2 } }
                        ok!(s, a[0].clone())
                    }
                    _ => Ok(Err(st)),
                }
            }
            "std::string::String" | "core::str::<impl str>" | "std::str::<impl str>" => self.str_method(st, cx, m),
            "std::ops::Index" | "std::ops::IndexMut" => {
                let st_ty = cx.self_ty()?; let ity = cx.tys[1];
                let is_seq = match st_ty.kind() { TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Array(..)) => true, TyKind::RigidTy(RigidTy::Adt(d, _)) => is_vec(&d.name()), _ => false };
                if !is_seq {
                    if let Some((d, ga)) = adt(st_ty) { if d.name().ends_with("HashMap") || d.name().ends_with("BTreeMap") {
                        let kt = garg_ty(&ga, 0).unwrap(); let key = self.read_p(&st, &a[1])?; let l = self.read_p(&st, &a[0])?.list()?; let h = self.map_find(&st, &l, &key, kt)?;
                        if !self.must(&mut st, or_n(&h), "HashMap index: missing key") { return Ok(Ok(None)) }
                        let ps = self.elem_ptrs(&st, &a[0])?; let mut acc = Val::Uninit; for (p, g) in ps.s().iter().zip(&h) { if *g != F { acc = merge(*g, &self.sub_ptr(&p.v, &[PE::F(1)]), &acc)? } }
                        ok!(st, acc)
                    } }
                    return Ok(Err(st));
                }
                let len = self.ptr_meta(&st, &a[0])?.t()?;
                if let Sk::Int(..) = scal(ity) {
                    let i = a[1].t()?;
                    if !self.must(&mut st, ult(i, len), "index out of bounds") { return Ok(Ok(None)) }
                    let p = self.idx_ptr(&mut st, &a[0], i)?; ok!(st, p)
                }
                match self.range_of(&a[1], ity, len)? {
                    Some((lo, hi)) => { if !self.must(&mut st, and(not(ult(hi, lo)), not(ult(len, hi))), "slice index out of range") { return Ok(Ok(None)) } let p = self.slice_ptr(&mut st, &a[0], lo, hi)?; ok!(st, p) }
                    None => Ok(Err(st)),
                }
            }
            "std::ops::Deref" | "std::ops::DerefMut" => {
                let ty = cx.self_ty()?;
                match adt(ty) { Some((d, _)) => { let n = d.name(); if is_vec(&n) || n.ends_with("String") || n.ends_with("PathBuf") { ok!(st, a[0].clone()) } if d.is_box() { let v = self.read_p(&st, &a[0])?; ok!(st, v) } if n.contains("DEVICE") { ok!(st, Val::Op(7)) } Ok(Err(st)) } None => match ty.kind() { TyKind::RigidTy(RigidTy::Ref(..)) => { let v = self.read_p(&st, &a[0])?; ok!(st, v) } _ => Ok(Err(st)) } }
            }
            "std::convert::AsRef" | "std::convert::AsMut" | "std::borrow::Borrow" | "std::borrow::BorrowMut" => { let ty = cx.self_ty()?; match ty.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) if d.is_box() => { let v = self.read_p(&st, &a[0])?; ok!(st, v) } TyKind::RigidTy(RigidTy::Ref(..)) => { let v = self.read_p(&st, &a[0])?; ok!(st, v) } _ => ok!(st, a[0].clone()) } }
            "std::iter::Extend" if m == "extend" => {
                let (v, ity) = self.to_iter(&mut st, a[1].clone(), cx.tys[1])?;
                let tgt = pointee(cx.tys[0]).ok_or("extend")?; let (d, ga) = adt(tgt).ok_or("extend target")?; let tn = d.name();
                let it = self.item_ty(ity).ok();
                match self.drain_val(st, v, ity)? { None => Ok(Ok(None)), Some((mut s, l)) => {
                    let deref_items = it.map(|t| matches!(scal(t), Sk::Ptr) && !matches!(garg_ty(&ga, 0).map(scal), Some(Sk::Ptr))).unwrap_or(false);
                    let l = if deref_items { let v: R<Vec<Slot>> = l.s().iter().map(|x| Ok(Slot { g: x.g, v: self.read_p(&s, &x.v)? })).collect(); ListV::new(v?) } else { l };
                    let set = tn.ends_with("Set"); let map = tn.ends_with("Map"); let kt = garg_ty(&ga, 0).unwrap();
                    let l2 = l.clone();
                    self.upd(&mut s, &a[0], &mut |e, st, cur| {
                        let mut c = cur.list()?;
                        if map { for x in l2.s() { c = e.map_put(st, c, x.g, x.v.field(0)?, x.v.field(1)?, kt)?.0 } }
                        else { for x in l2.s() { c.push(x.g, x.v.clone()) } if set { c = e.dedup_set(st, c, kt)? } }
                        Ok((Val::L(c), unit()))
                    })?;
                    ok!(s, unit()) } }
            }
            "std::iter::FromIterator" if m == "from_iter" => {
                let (v, ity) = self.to_iter(&mut st, a[0].clone(), cx.tys[0])?;
                match self.drain_val(st, v, ity)? { None => Ok(Ok(None)), Some((s, l)) => { let r = self.collect_into(&s, l, cx.dty, None)?; ok!(s, r) } }
            }
            _ => Ok(Err(st)),
        }
    }
    fn str_method(&mut self, st: State, cx: &Cx, m: &str) -> B {
        let a = cx.args; let mut st = st;
        match m {
            "new" | "with_capacity" => ok!(st, Val::Str("".into())),
            "push_str" | "push" | "insert_str" | "insert" | "clear" | "truncate" => { self.write_p(&mut st, &a[0], &Val::Op(1))?; ok!(st, unit()) }
            "as_str" | "as_mut_str" | "as_ref" => { let v = self.read_str(&st, &a[0])?; ok!(st, v) }
            "len" | "is_empty" => { let v = self.read_str(&st, &a[0])?; match v { Val::Str(s) => { if m == "len" { ok!(st, vusz(s.len())) } else { ok!(st, sb(s.is_empty())) } } _ => Err("length of opaque string".into()) } }
            "to_string" | "to_owned" | "repeat" | "to_uppercase" | "to_lowercase" | "trim" => { let v = self.read_str(&st, &a[0])?; let v = if m.starts_with("to_s") || m.starts_with("to_o") { v } else { Val::Op(1) }; ok!(st, v) }
            "contains" | "starts_with" | "ends_with" => { let v = self.read_str(&st, &a[0])?; let w = self.read_str(&st, &a[1])?; match (v, w) { (Val::Str(x), Val::Str(y)) => { let r = match m { "contains" => x.contains(&*y), "starts_with" => x.starts_with(&*y), _ => x.ends_with(&*y) }; ok!(st, sb(r)) } _ => Err("predicate on opaque string".into()) } }
            _ => Ok(Err(st)),
        }
    }
}

/// a value whose scalar leaves are choices between constants becomes one guarded slot per choice
pub fn split_slot(s: &Slot, out: &mut Vec<Slot>) {
    fn pick(v: &Val) -> Option<(T, Val, Val)> {
        match v {
            Val::S(t) => match app(*t) { Some((Op::Ite, a, _)) if choice(*t, 8) => Some((a[0], Val::S(a[1]), Val::S(a[2]))), _ => None },
            Val::Agg(a) if a.len() <= 4 => { for (i, x) in a.iter().enumerate() { if let Some((c, p, q)) = pick(x) { let (mut u, mut w) = (a.to_vec(), a.to_vec()); u[i] = p; w[i] = q; return Some((c, agg(u), agg(w))) } } None }
            _ => None,
        }
    }
    fn choice(t: T, d: u32) -> bool { is_const(t) || (d > 0 && matches!(app(t), Some((Op::Ite, a, _)) if choice(a[1], d - 1) && choice(a[2], d - 1))) }
    match pick(&s.v) {
        Some((c, p, q)) => { for (g, v) in [(and(s.g, c), p), (and(s.g, not(c)), q)] { if g != F { split_slot(&Slot { g, v }, out) } } }
        None => out.push(s.clone()),
    }
}
