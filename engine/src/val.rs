//! Symbolic values, memory and state merging.
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::Ty;
use std::rc::Rc;

pub type R<X> = Result<X, String>;

#[derive(Clone, Debug)]
pub enum Val {
    Uninit,
    S(T),
    Agg(Rc<Vec<Val>>),
    En(Rc<EnumV>),
    P(Rc<PtrV>),
    L(ListV),
    Fn(Instance),
    Str(Rc<str>),
    /// opaque value (progress bars, formatted strings, files ...)
    Op(u32),
    Tn(Rc<crate::tensor::Tensor>),
    /// guarded union of values that cannot be merged structurally
    U(Rc<Vec<(T, Val)>>),
}
#[derive(Clone, Debug)]
pub struct EnumV { pub tag: T, pub pay: Vec<Option<Rc<Vec<Val>>>> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Root { Frame(u32, u32), Heap(u32), Const(u32), Addr(T) }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PE { F(u16), V(u16), I(T), Slot(u32) }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Meta { All, Rng(u32, u32), Dyn(Ty) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Target { pub root: Root, pub path: Vec<PE>, pub meta: Meta }
#[derive(Clone, Debug)]
pub struct PtrV { pub alts: Vec<(T, Target)> }
#[derive(Clone, Debug)]
pub struct Slot { pub g: T, pub v: Val }
#[derive(Clone, Debug)]
pub struct ListV { pub slots: Rc<Vec<Slot>>, pub lo: u32, pub hi: u32 }

impl ListV {
    pub fn new(v: Vec<Slot>) -> ListV { let n = v.len() as u32; ListV { slots: Rc::new(v), lo: 0, hi: n } }
    pub fn dense(v: Vec<Val>) -> ListV { ListV::new(v.into_iter().map(|v| Slot { g: TR, v }).collect()) }
    pub fn empty() -> ListV { ListV::new(vec![]) }
    pub fn s(&self) -> &[Slot] { &self.slots[self.lo as usize..self.hi as usize] }
    pub fn is_dense(&self) -> bool { self.s().iter().all(|s| s.g == TR) }
    pub fn len_t(&self) -> T { let g: Vec<T> = self.s().iter().map(|s| s.g).collect(); count(&g) }
    pub fn nonempty(&self) -> T { let g: Vec<T> = self.s().iter().map(|s| s.g).collect(); or_n(&g) }
    pub fn n(&self) -> usize { (self.hi - self.lo) as usize }
    pub fn vec(&mut self) -> &mut Vec<Slot> {
        let full = self.lo == 0 && self.hi as usize == self.slots.len();
        if !full { let v: Vec<Slot> = self.s().to_vec(); self.lo = 0; self.hi = v.len() as u32; self.slots = Rc::new(v); }
        Rc::make_mut(&mut self.slots)
    }
    pub fn push(&mut self, g: T, v: Val) { if g == F { return } self.vec().push(Slot { g, v }); self.hi += 1 }
    /// compact into slots whose guards are monotone (slot i present iff len > i)
    pub fn compact(&self) -> R<ListV> {
        if self.is_dense() { return Ok(self.clone()) }
        // already monotone?
        let s = self.s();
        let mut mono = true;
        for w in s.windows(2) { if implied(w[1].g, true, w[0].g) != Some(true) { mono = false; break } }
        if mono { return Ok(self.clone()) }
        // out[k] = element with exactly k predecessors
        let mut out: Vec<Slot> = vec![];
        // cnt[k] : exactly k present so far
        let mut cnt: Vec<T> = vec![TR];
        for sl in s {
            if sl.g == F { continue }
            let mut next = vec![F; cnt.len() + 1];
            for (k, c) in cnt.iter().enumerate() {
                let here = and(*c, sl.g);
                if here != F {
                    if out.len() <= k { out.push(Slot { g: here, v: sl.v.clone() }) }
                    else { let o = &mut out[k]; o.v = merge(here, &sl.v, &o.v)?; o.g = or(o.g, here) }
                }
                next[k + 1] = or(next[k + 1], here);
                next[k] = or(next[k], and(*c, not(sl.g)));
            }
            for x in next.iter_mut() { *x = gname(*x) }
            while next.last() == Some(&F) { next.pop(); }
            cnt = next;
        }
        for o in out.iter_mut() { o.g = gname(o.g) }
        Ok(ListV::new(out))
    }
}
pub fn unit() -> Val { Val::Agg(Rc::new(vec![])) }
pub fn agg(v: Vec<Val>) -> Val { Val::Agg(Rc::new(v)) }
pub fn sb(b: bool) -> Val { Val::S(boolc(b)) }
pub fn vusz(n: usize) -> Val { Val::S(usz(n as u64)) }
pub fn en(variant: u32, fields: Vec<Val>) -> Val {
    let mut pay = vec![None; variant as usize + 1];
    pay[variant as usize] = Some(Rc::new(fields));
    Val::En(Rc::new(EnumV { tag: bv(16, variant as u128), pay }))
}
pub fn none() -> Val { en(0, vec![]) }
pub fn some(v: Val) -> Val { en(1, vec![v]) }
pub fn option(g: T, v: Val) -> Val {
    if g == TR { return some(v) } if g == F { return none() }
    Val::En(Rc::new(EnumV { tag: ite(g, bv(16, 1), bv(16, 0)), pay: vec![Some(Rc::new(vec![])), Some(Rc::new(vec![v]))] }))
}
pub fn is_variant(v: &Val, i: u32) -> R<T> {
    match v { Val::En(e) => Ok(eq(e.tag, bv(16, i as u128))), Val::U(u) => { let mut acc = F; for (g, x) in u.iter() { let y = is_variant(x, i)?; acc = ite(*g, y, acc) } Ok(acc) } _ => Err(format!("is_variant on {}", kind(v))) }
}
pub fn payload(v: &Val, i: u32) -> R<Rc<Vec<Val>>> {
    match v { Val::En(e) => Ok(e.pay.get(i as usize).cloned().flatten().unwrap_or_default()), _ => Err(format!("payload of {}", kind(v))) }
}
pub fn ptr(root: Root, path: Vec<PE>) -> Val { Val::P(Rc::new(PtrV { alts: vec![(TR, Target { root, path, meta: Meta::All })] })) }
pub fn kind(v: &Val) -> String {
    match v {
        Val::Uninit => "uninit".into(), Val::S(t) => format!("scalar({})", show_d(*t, 2)), Val::Agg(a) => format!("agg{}", a.len()), Val::En(e) => format!("enum(tag {})", show_d(e.tag, 2)),
        Val::P(p) => format!("ptr({:?})", p.alts.get(0).map(|x| &x.1)), Val::L(l) => format!("list{}", l.n()), Val::Fn(_) => "fn".into(), Val::Str(s) => format!("str({})", s), Val::Op(t) => format!("opaque({})", t), Val::Tn(_) => "tensor".into(), Val::U(_) => "union".into(),
    }
}
pub fn dump(v: &Val, d: u32) -> String {
    if d == 0 { return "..".into() }
    match v {
        Val::S(t) => show_d(*t, 3),
        Val::Agg(a) => format!("({})", a.iter().map(|x| dump(x, d - 1)).collect::<Vec<_>>().join(", ")),
        Val::En(e) => match cval(e.tag) { Some(k) => format!("v{}({})", k, e.pay.get(k as usize).and_then(|p| p.as_ref()).map(|p| p.iter().map(|x| dump(x, d - 1)).collect::<Vec<_>>().join(", ")).unwrap_or_default()), None => format!("enum?{}", show_d(e.tag, 2)) },
        Val::L(l) => format!("[{}]", l.s().iter().map(|s| if s.g == TR { dump(&s.v, d - 1) } else { format!("{}?{}", show_d(s.g, 2), dump(&s.v, d - 1)) }).collect::<Vec<_>>().join(", ")),
        _ => kind(v),
    }
}

impl Val {
    /// boolean result of a closure that may not have run (`Uninit`: its guard is false)
    pub fn tb(&self) -> R<T> { match self { Val::Uninit => Ok(F), v => v.t() } }
    pub fn isv(&self, i: u32) -> R<T> { match self { Val::Uninit => Ok(F), v => is_variant(v, i) } }
    pub fn pay(&self, i: u32) -> R<Rc<Vec<Val>>> { match self { Val::Uninit => Ok(Default::default()), v => payload(v, i) } }
    pub fn t(&self) -> R<T> {
        match self { Val::S(t) => Ok(*t), Val::Agg(a) if a.len() == 1 => a[0].t(),
            Val::U(u) => { let mut it = u.iter().rev(); let mut acc = it.next().unwrap().1.t()?; for (g, x) in it { acc = ite(*g, x.t()?, acc) } Ok(acc) }
            _ => Err(format!("expected scalar, got {}", kind(self))) }
    }
    pub fn list(&self) -> R<ListV> { match self { Val::L(l) => Ok(l.clone()), Val::Agg(a) => Ok(ListV::dense(a.to_vec())), Val::Uninit => Err("list: uninit".into()), _ => Err(format!("expected list, got {}", kind(self))) } }
    pub fn field(&self, i: usize) -> R<Val> {
        match self {
            Val::Agg(a) => a.get(i).cloned().ok_or_else(|| format!("field {} of agg{}", i, a.len())),
            Val::Uninit => Ok(Val::Uninit),
            Val::Op(t) => Ok(Val::Op(*t)),
            Val::U(u) => { let v: R<Vec<(T, Val)>> = u.iter().map(|(g, x)| Ok((*g, x.field(i)?))).collect(); fold_union(v?) }
            _ => Err(format!("field {} of {}", i, kind(self))),
        }
    }
}
pub fn fold_union(v: Vec<(T, Val)>) -> R<Val> {
    let mut it = v.into_iter().rev();
    let mut acc = it.next().ok_or("empty union")?.1;
    for (g, x) in it { acc = merge(g, &x, &acc)? }
    Ok(acc)
}
pub fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Uninit, Val::Uninit) => true,
        (Val::S(x), Val::S(y)) => x == y,
        (Val::Agg(x), Val::Agg(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q))),
        (Val::En(x), Val::En(y)) => Rc::ptr_eq(x, y) || (x.tag == y.tag && x.pay.len() == y.pay.len() && x.pay.iter().zip(y.pay.iter()).all(|(p, q)| match (p, q) { (None, None) => true, (Some(p), Some(q)) => Rc::ptr_eq(p, q) || (p.len() == q.len() && p.iter().zip(q.iter()).all(|(a, b)| same(a, b))), _ => false })),
        (Val::P(x), Val::P(y)) => Rc::ptr_eq(x, y) || x.alts == y.alts,
        (Val::L(x), Val::L(y)) => (Rc::ptr_eq(&x.slots, &y.slots) && x.lo == y.lo && x.hi == y.hi) || (x.n() == y.n() && x.s().iter().zip(y.s()).all(|(p, q)| p.g == q.g && same(&p.v, &q.v))),
        (Val::Fn(x), Val::Fn(y)) => x == y,
        (Val::Str(x), Val::Str(y)) => x == y,
        (Val::Op(x), Val::Op(y)) => x == y,
        (Val::Tn(x), Val::Tn(y)) => Rc::ptr_eq(x, y) || crate::tensor::same(x, y),
        _ => false,
    }
}
pub fn merge(c: T, a: &Val, b: &Val) -> R<Val> {
    if c == TR { return Ok(a.clone()) } if c == F { return Ok(b.clone()) }
    if same(a, b) { return Ok(a.clone()) }
    match (a, b) {
        (Val::Uninit, _) => Ok(b.clone()),
        (_, Val::Uninit) => Ok(a.clone()),
        (Val::S(x), Val::S(y)) if sort(*x) == sort(*y) => Ok(Val::S(ite(c, *x, *y))),
        (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
            let v: R<Vec<Val>> = x.iter().zip(y.iter()).map(|(p, q)| merge(c, p, q)).collect();
            Ok(agg(v?))
        }
        (Val::Agg(x), Val::Agg(y)) if !x.is_empty() && !y.is_empty() => { let n = x.len().max(y.len()); let mut v = vec![]; for i in 0..n { v.push(match (x.get(i), y.get(i)) { (Some(p), Some(q)) => merge(c, p, q)?, (Some(p), None) => p.clone(), (None, Some(q)) => q.clone(), _ => unreachable!() }) } Ok(agg(v)) }
        (Val::En(x), Val::En(y)) => {
            let n = x.pay.len().max(y.pay.len());
            let mut pay = Vec::with_capacity(n);
            for i in 0..n {
                let p = x.pay.get(i).and_then(|z| z.as_ref()); let q = y.pay.get(i).and_then(|z| z.as_ref());
                pay.push(match (p, q) {
                    (None, None) => None, (Some(p), None) => Some(p.clone()), (None, Some(q)) => Some(q.clone()),
                    (Some(p), Some(q)) => {
                        if Rc::ptr_eq(p, q) { Some(p.clone()) }
                        else if p.is_empty() { Some(q.clone()) } else if q.is_empty() { Some(p.clone()) }
                        else { let v: R<Vec<Val>> = p.iter().zip(q.iter()).map(|(p, q)| merge(c, p, q)).collect(); Some(Rc::new(v?)) }
                    }
                })
            }
            Ok(Val::En(Rc::new(EnumV { tag: ite(c, x.tag, y.tag), pay })))
        }
        (Val::P(x), Val::P(y)) => {
            let mut alts: Vec<(T, Target)> = vec![];
            let nc = not(c);
            for (src, g0) in [(x, c), (y, nc)] { for (g, t) in &src.alts {
                let g = and(*g, g0); if g == F { continue }
                match alts.iter_mut().find(|z| z.1 == *t) { Some(z) => z.0 = or(z.0, g), None => alts.push((g, t.clone())) }
            } }
            if alts.len() == 1 { alts[0].0 = TR }
            Ok(Val::P(Rc::new(PtrV { alts })))
        }
        (Val::L(x), Val::L(y)) => Ok(Val::L(merge_list(c, x, y)?)),
        (Val::Op(_), Val::Op(_)) | (Val::Op(_), Val::Str(_)) => Ok(a.clone()),
        (Val::Str(_), Val::Op(_)) => Ok(b.clone()),
        (Val::Tn(x), Val::Tn(y)) if crate::tensor::mergeable(x, y) => Ok(Val::Tn(Rc::new(crate::tensor::merge_t(c, x, y)?))),
        _ => {
            let mut v: Vec<(T, Val)> = vec![];
            let nc = not(c);
            for (src, g0) in [(a, c), (b, nc)] {
                match src { Val::U(u) => for (g, x) in u.iter() { let g = and(*g, g0); if g != F { addu(&mut v, g, x.clone()) } }, _ => addu(&mut v, g0, src.clone()) }
            }
            if v.len() == 1 { return Ok(v.pop().unwrap().1) }
            if v.len() > 64 { return Err("union too large".into()) }
            if matches!(a, Val::S(_)) || matches!(b, Val::S(_)) { return Err(format!("cannot merge {} with {}", kind(a), kind(b))) }
            Ok(Val::U(Rc::new(v)))
        }
    }
}
fn addu(v: &mut Vec<(T, Val)>, g: T, x: Val) {
    if let Some(e) = v.iter_mut().find(|e| same(&e.1, &x)) { e.0 = or(e.0, g); return }
    // merge structurally compatible members
    for e in v.iter_mut() { let ok = match (&e.1, &x) { (Val::P(_), Val::P(_)) | (Val::L(_), Val::L(_)) => true, (Val::Agg(p), Val::Agg(q)) => p.len() == q.len(), _ => false };
        if ok { if let Ok(m) = merge(g, &x, &e.1) { e.1 = m; e.0 = or(e.0, g); return } } }
    v.push((g, x))
}
/// different small constant tuples: keep them as separate guarded slots instead of blending their fields
fn clash(a: &Val, b: &Val) -> bool {
    fn consts(v: &Val, n: &mut usize) -> bool { match v { Val::S(t) => { *n += 1; is_const(*t) && *n <= 6 } Val::Agg(a) => a.iter().all(|x| consts(x, n)), _ => false } }
    matches!((a, b), (Val::Agg(_), Val::Agg(_))) && consts(a, &mut 0) && consts(b, &mut 0) && !same(a, b)
}
pub fn merge_list(c: T, x: &ListV, y: &ListV) -> R<ListV> {
    let nc = not(c);
    let (xs, ys) = (x.s(), y.s());
    let mut out: Vec<Slot> = Vec::with_capacity(xs.len().max(ys.len()));
    // iterators over the same storage: align by absolute position
    if Rc::ptr_eq(&x.slots, &y.slots) {
        let lo = x.lo.min(y.lo); let hi = x.hi.max(y.hi);
        for i in lo..hi {
            let s = &x.slots[i as usize];
            let inx = i >= x.lo && i < x.hi; let iny = i >= y.lo && i < y.hi;
            let g = match (inx, iny) { (true, true) => s.g, (true, false) => and(c, s.g), (false, true) => and(nc, s.g), _ => F };
            if g != F { out.push(Slot { g, v: s.v.clone() }) }
        }
        return Ok(ListV::new(out));
    }
    let n = xs.len().min(ys.len());
    let mut i = 0;
    let clash = xs.iter().zip(ys).any(|(p, q)| clash(&p.v, &q.v));
    if !clash && xs.len() == ys.len() && (xs.iter().all(|s| s.g == TR) && ys.iter().all(|s| s.g == TR) || xs.iter().zip(ys).all(|(p, q)| p.g == q.g || same(&p.v, &q.v))) {
        for (p, q) in xs.iter().zip(ys) { out.push(Slot { g: ite(c, p.g, q.g), v: merge(c, &p.v, &q.v)? }) }
        return Ok(ListV::new(out));
    }
    // common prefix: same guard (values may differ if guards are equal), or same value
    while i < n {
        let (p, q) = (&xs[i], &ys[i]);
        if p.g == q.g && same(&p.v, &q.v) { out.push(p.clone()) }
        else if p.g == TR && q.g == TR && !clash { out.push(Slot { g: TR, v: merge(c, &p.v, &q.v)? }) }
        else if same(&p.v, &q.v) { out.push(Slot { g: ite(c, p.g, q.g), v: p.v.clone() }) }
        else { break }
        i += 1;
    }
    // one list may be a strict suffix shift of the other (removal at the front): align by suffix
    let (rx, ry) = (&xs[i..], &ys[i..]);
    let mut k = 0;
    while k < rx.len() && k < ry.len() { let (p, q) = (&rx[rx.len() - 1 - k], &ry[ry.len() - 1 - k]); if p.g == q.g && same(&p.v, &q.v) { k += 1 } else { break } }
    let (mx, my) = (&rx[..rx.len() - k], &ry[..ry.len() - k]);
    if !clash && mx.len() == my.len() && mx.iter().zip(my).all(|(p, q)| p.g == q.g) {
        for (p, q) in mx.iter().zip(my) { out.push(Slot { g: p.g, v: merge(c, &p.v, &q.v)? }) }
    } else {
        for p in mx { let g = and(c, p.g); if g != F { out.push(Slot { g, v: p.v.clone() }) } }
        for q in my { let g = and(nc, q.g); if g != F { out.push(Slot { g, v: q.v.clone() }) } }
    }
    out.extend_from_slice(&rx[rx.len() - k..]);
    Ok(ListV::new(out))
}

// ---------- sequences (arrays are Agg, Vec and friends are L)
pub fn seq_n(v: &Val) -> R<usize> { match v { Val::Agg(a) => Ok(a.len()), Val::L(l) => Ok(l.n()), Val::U(u) => seq_n(&fold_union(u.to_vec())?), _ => Err(format!("sequence length of {}", kind(v))) } }
pub fn seq_slot(v: &Val, i: usize) -> R<Slot> {
    match v { Val::Agg(a) => a.get(i).map(|x| Slot { g: TR, v: x.clone() }).ok_or("array slot oob".into()), Val::L(l) => l.s().get(i).cloned().ok_or("list slot oob".into()), Val::U(u) => seq_slot(&fold_union(u.to_vec())?, i), _ => Err(format!("slot of {}", kind(v))) }
}
pub fn seq_dense(v: &Val) -> bool { match v { Val::Agg(_) => true, Val::L(l) => l.is_dense(), _ => false } }
/// elements that hold lists are expensive to merge: their index gets a name
fn pick_idx(v: &Val, i: T) -> T {
    fn heavy(v: &Val, d: u8) -> bool { match v { Val::L(_) => true, Val::Agg(a) if d > 0 => a.iter().any(|x| heavy(x, d - 1)), _ => false } }
    if is_const(i) || !big(i) { return i }
    match seq_slot(v, 0) { Ok(s) if matches!(s.v, Val::Agg(_)) && heavy(&s.v, 3) => alias(i), _ => i }
}
pub fn read_idx(v: &Val, i: T) -> R<Val> {
    let owned;
    let v = match v { Val::L(l) if !l.is_dense() => { owned = Val::L(l.compact()?); &owned } Val::U(u) => { owned = fold_union(u.to_vec())?; return read_idx(&owned, i) } _ => v };
    let n = seq_n(v)?;
    let i = pick_idx(v, i);
    if let Some(k) = cval(i) { return if (k as usize) < n { Ok(seq_slot(v, k as usize)?.v) } else { Ok(Val::Uninit) } }
    let r = rng(i);
    let (lo, hi) = (r.ulo.min(n as u128) as usize, (r.uhi.saturating_add(1)).min(n as u128) as usize);
    if lo >= hi { return Ok(Val::Uninit) }
    let ks: Vec<usize> = (lo..hi).filter(|k| may_be(i, *k as u128)).collect();
    let (last, init) = match ks.split_last() { Some(x) => x, None => return Ok(Val::Uninit) };
    let mut acc = seq_slot(v, *last)?.v;
    let w = width(i);
    for &k in init.iter().rev() { acc = merge(eq(i, bv(w, k as u128)), &seq_slot(v, k)?.v, &acc)? }
    Ok(acc)
}
pub fn read_pe(v: &Val, e: PE) -> R<Val> {
    match e {
        PE::F(i) => v.field(i as usize),
        PE::V(i) => match v {
            Val::En(en) => Ok(Val::Agg(en.pay.get(i as usize).cloned().flatten().unwrap_or_default())).map(|x| match &x { Val::Agg(a) if a.is_empty() => Val::Uninit, _ => x }),
            Val::Uninit => Ok(Val::Uninit),
            Val::U(u) => { let v: R<Vec<(T, Val)>> = u.iter().map(|(g, x)| Ok((*g, read_pe(x, e)?))).collect(); fold_union(v?) }
            _ => Err(format!("downcast of {}", kind(v))),
        },
        PE::I(t) => read_idx(v, t),
        PE::Slot(k) => match v { Val::Uninit => Ok(Val::Uninit), _ => Ok(seq_slot(v, k as usize)?.v) },
    }
}
pub fn read_path(v: &Val, p: &[PE]) -> R<Val> {
    let mut cur = v.clone();
    for e in p { cur = read_pe(&cur, *e)? }
    Ok(cur)
}
/// write `new` at path under guard g
pub fn write_path(v: &mut Val, p: &[PE], g: T, new: &Val) -> R<()> {
    if g == F { return Ok(()) }
    if p.is_empty() { *v = merge(g, new, v)?; return Ok(()) }
    if let Val::U(u) = v {
        let m = fold_union(u.to_vec())?;
        if let Val::U(u2) = &m {
            // write into each alternative
            let mut nv = u2.to_vec();
            for (_, x) in nv.iter_mut() { write_path(x, p, g, new)? }
            *v = Val::U(Rc::new(nv)); return Ok(());
        }
        *v = m;
    }
    match p[0] {
        PE::F(i) => {
            if matches!(v, Val::Uninit) { *v = agg(vec![]) }
            match v {
                Val::Agg(a) => { let a = Rc::make_mut(a); while a.len() <= i as usize { a.push(Val::Uninit) } write_path(&mut a[i as usize], &p[1..], g, new) }
                Val::Op(_) => Ok(()),
                _ => Err(format!("write field of {}", kind(v))),
            }
        }
        PE::V(i) => {
            if matches!(v, Val::Uninit) { *v = en(i as u32, vec![]) }
            match v {
                Val::En(e) => {
                    let e = Rc::make_mut(e); while e.pay.len() <= i as usize { e.pay.push(None) }
                    let mut inner = Val::Agg(e.pay[i as usize].take().unwrap_or_default());
                    let r = write_path(&mut inner, &p[1..], g, new);
                    if let Val::Agg(a) = inner { e.pay[i as usize] = Some(a) }
                    r
                }
                _ => Err(format!("write variant of {}", kind(v))),
            }
        }
        PE::Slot(k) => write_slot(v, k as usize, &p[1..], g, new),
        PE::I(t) => {
            if let Val::L(l) = v { if !l.is_dense() { *l = l.compact()? } }
            let n = seq_n(v)?;
            let t = pick_idx(v, t);
            if let Some(k) = cval(t) { return if (k as usize) < n { write_slot(v, k as usize, &p[1..], g, new) } else { Ok(()) } }
            let r = rng(t);
            let (lo, hi) = (r.ulo.min(n as u128) as usize, (r.uhi.saturating_add(1)).min(n as u128) as usize);
            let w = width(t);
            for k in lo..hi { if !may_be(t, k as u128) { continue } write_slot(v, k, &p[1..], and(g, eq(t, bv(w, k as u128))), new)? }
            Ok(())
        }
    }
}
fn write_slot(v: &mut Val, k: usize, p: &[PE], g: T, new: &Val) -> R<()> {
    match v {
        Val::Agg(a) => { let a = Rc::make_mut(a); if k >= a.len() { return Err("array write oob".into()) } write_path(&mut a[k], p, g, new) }
        Val::L(l) => { let a = l.vec(); if k >= a.len() { return Err("list write oob".into()) } write_path(&mut a[k].v, p, g, new) }
        Val::Uninit => Err("write element of uninit".into()),
        _ => Err(format!("write element of {}", kind(v))),
    }
}

// ---------- path condition and state
#[derive(Clone, Default)]
pub struct Pc { pub lits: Rc<Vec<T>> }
impl Pc {
    /// returns false when the pc became contradictory
    pub fn push(&mut self, c: T) -> bool {
        if c == TR { return true } if c == F { return false }
        let parts: Vec<T> = match app(c) { Some((Op::And, a, _)) => a.to_vec(), _ => vec![c] };
        for p in parts {
            match self.decide(p) { Some(true) => {} Some(false) => return false, None => { Rc::make_mut(&mut self.lits).push(p) } }
        }
        true
    }
    pub fn decide(&self, c: T) -> Option<bool> {
        if c == TR { return Some(true) } if c == F { return Some(false) }
        decide_in(self.lits.iter().copied(), c)
    }
    pub fn dead(&self) -> bool { self.lits.first() == Some(&F) }
    pub fn simp(&self, c: T) -> T { match self.decide(c) { Some(true) => TR, Some(false) => F, None => c } }
    pub fn term(&self) -> T { and_n(&self.lits) }
}
#[derive(Clone)]
pub struct State { pub frames: Vec<Rc<Vec<Val>>>, pub heap: Rc<FxMap<u32, Val>>, pub pc: Pc }

pub fn merge_states(a: State, b: State) -> R<State> {
    let (la, lb) = (&a.pc.lits, &b.pc.lits);
    let mut k = 0;
    if !Rc::ptr_eq(la, lb) { while k < la.len() && k < lb.len() && la[k] == lb[k] { k += 1 } } else { k = la.len() }
    let (ra, rb) = (&la[k..], &lb[k..]);
    let ca = and_n(ra); let cb = and_n(rb);
    let mut sel = ca;
    // prefer the single distinguishing literal
    'o: for x in ra { let nx = not(*x); if rb.contains(&nx) { sel = *x; break 'o } }
    if sel == ca && ca == TR && cb != TR { sel = not(cb) }
    let sel = gname(sel);
    let disj = gname(or(ca, cb));
    let mut pc = Pc { lits: Rc::new(la[..k].to_vec()) };
    if disj != TR {
        // common factors first
        if !pc.push(disj) { pc.lits = Rc::new(vec![F]) } // neither side is reachable
    }
    if a.frames.len() != b.frames.len() { return Err("frame depth mismatch".into()) }
    let mut frames = Vec::with_capacity(a.frames.len());
    for (d, (x, y)) in a.frames.iter().zip(b.frames.iter()).enumerate() {
        if Rc::ptr_eq(x, y) { frames.push(x.clone()) } else {
            let mut v = Vec::with_capacity(x.len());
            for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() { v.push(merge(sel, p, q).map_err(|e| format!("{} (frame {} local {})", e, d, i))?) }
            frames.push(Rc::new(v))
        }
    }
    let heap = if Rc::ptr_eq(&a.heap, &b.heap) { a.heap.clone() } else {
        let mut h = (*a.heap).clone();
        for (id, v) in b.heap.iter() { match h.get(id) { None => { h.insert(*id, v.clone()); } Some(w) => { if !same(w, v) { let m = merge(sel, w, v)?; h.insert(*id, m); } } } }
        Rc::new(h)
    };
    Ok(State { frames, heap, pc })
}
