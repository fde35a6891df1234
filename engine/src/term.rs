//! Hash-consed SMT terms with aggressive local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u8(*x) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct T(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort { Bool, Bv(u8), F32, F64 }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Not, And, Ite, Eq,
    Add, Sub, Neg, Mul, UDiv, SDiv, URem, SRem, BAnd, BOr, BXor, BNot, Shl, LShr, AShr,
    Ult, Slt, Zext, Sext, Extract, Concat,
    FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FSqrt, FFloor, FCeil, FTrunc, FLt, FLe, FEq, FIsNan,
    SToF, UToF, FToS, FToU, FToF, FBits, FFromBits, Uf,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N { C(Sort, u128), V(Sort, u32), A(Op, Sort, Box<[T]>, u32) }

pub struct Rng { pub slo: i128, pub shi: i128, pub ulo: u128, pub uhi: u128 }
pub struct VarInfo { pub name: String, pub sort: Sort, pub lo: i128, pub hi: i128, pub has_range: bool, pub signed: bool, pub def: Option<T>, pub vals: Option<Vec<u128>> }
pub struct Table {
    pub nodes: Vec<N>,
    pub rng: Vec<Option<Box<Rng>>>,
    pub leaves: Vec<u16>,
    pub weight: Vec<u32>,
    pub name_above: u32,
    map: FxMap<N, T>,
    cache: FxMap<(Op, Sort, T, T, T, u32), T>,
    pub vars: Vec<VarInfo>,
    pub ufs: Vec<String>,
    pub varterm: Vec<T>,
    pub counts: FxMap<T, (Vec<T>, u128)>,
    pub atl: FxMap<(T, u32), T>,
    pub aliases: FxMap<T, T>,
}
static mut TT: Option<Table> = None;
#[allow(static_mut_refs)]
pub fn tt() -> &'static mut Table {
    unsafe {
        if TT.is_none() {
            TT = Some(Table { nodes: vec![], rng: vec![], leaves: vec![], weight: vec![], name_above: 0, map: Default::default(), cache: Default::default(), vars: vec![], ufs: vec![], varterm: vec![], counts: Default::default(), aliases: Default::default(), atl: Default::default() });
            let f = intern(N::C(Sort::Bool, 0));
            let t = intern(N::C(Sort::Bool, 1));
            assert!(f == F && t == TR);
        }
        TT.as_mut().unwrap()
    }
}
pub const F: T = T(0);
pub const TR: T = T(1);

pub fn mask(w: u8) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u8) -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s }

fn full(w: u8) -> Rng {
    let h = 1i128 << (w.min(126) - 1);
    Rng { slo: if w >= 127 { i128::MIN } else { -h }, shi: if w >= 127 { i128::MAX } else { h - 1 }, ulo: 0, uhi: mask(w) }
}
fn norm(mut r: Rng, w: u8) -> Rng {
    if w >= 127 { return r }
    let h = 1i128 << (w - 1);
    if r.slo < -h || r.shi > h - 1 { r.slo = -h; r.shi = h - 1 }
    if r.uhi > mask(w) { r.ulo = 0; r.uhi = mask(w) }
    if r.slo >= 0 { r.ulo = r.ulo.max(r.slo as u128); r.uhi = r.uhi.min(r.shi as u128) }
    if r.uhi < h as u128 { r.slo = r.slo.max(r.ulo as i128); r.shi = r.shi.min(r.uhi as i128) }
    r
}
fn compute_rng(n: &N) -> Option<Box<Rng>> {
    let w = match n { N::C(Sort::Bv(w), _) | N::V(Sort::Bv(w), _) | N::A(_, Sort::Bv(w), _, _) => *w, _ => return None };
    let t = tt();
    let r = match n {
        N::C(_, v) => Rng { slo: sx(*v, w), shi: sx(*v, w), ulo: *v, uhi: *v },
        N::V(_, id) => {
            let vi = &t.vars[*id as usize];
            let mut r = full(w);
            if vi.has_range {
                if vi.signed { r.slo = vi.lo; r.shi = vi.hi } else { r.ulo = vi.lo as u128; r.uhi = vi.hi as u128 }
            }
            r
        }
        N::A(op, _, a, imm) => {
            let g = |i: usize| -> &Rng { t.rng[a[i].0 as usize].as_ref().unwrap() };
            match op {
                Op::Ite => { let (x, y) = (g(1), g(2)); Rng { slo: x.slo.min(y.slo), shi: x.shi.max(y.shi), ulo: x.ulo.min(y.ulo), uhi: x.uhi.max(y.uhi) } }
                Op::Add if w <= 64 => {
                    let (x, y) = (g(0), g(1));
                    let mut r = Rng { slo: x.slo + y.slo, shi: x.shi + y.shi, ulo: x.ulo + y.ulo, uhi: x.uhi + y.uhi };
                    // adding a "negative" constant: unsigned range when no borrow
                    if let Some(c) = cval(a[1]) { let m = mask(w) - c + 1; if c > mask(w) / 2 && x.ulo >= m { r.ulo = x.ulo - m; r.uhi = x.uhi - m } }
                    r
                }
                Op::Sub if w <= 64 => {
                    let (x, y) = (g(0), g(1));
                    let mut r = full(w);
                    r.slo = x.slo - y.shi; r.shi = x.shi - y.slo;
                    if x.ulo >= y.uhi { r.ulo = x.ulo - y.uhi; r.uhi = x.uhi - y.ulo }
                    r
                }
                Op::Neg if w <= 64 => { let x = g(0); let mut r = full(w); r.slo = -x.shi; r.shi = -x.slo; r }
                Op::Mul if w <= 60 => {
                    let (x, y) = (g(0), g(1));
                    let p = [x.slo * y.slo, x.slo * y.shi, x.shi * y.slo, x.shi * y.shi];
                    Rng { slo: *p.iter().min().unwrap(), shi: *p.iter().max().unwrap(), ulo: x.ulo * y.ulo, uhi: x.uhi * y.uhi }
                }
                Op::Zext => { let x = g(0); let mut r = full(w); r.ulo = x.ulo; r.uhi = x.uhi; r.slo = 0; r.shi = x.uhi as i128; r }
                Op::Sext => { let x = g(0); let mut r = full(w); r.slo = x.slo; r.shi = x.shi; r }
                Op::Extract if *imm == 0 => {
                    let x = g(0); let mut r = full(w);
                    if x.uhi <= mask(w) { r.ulo = x.ulo; r.uhi = x.uhi }
                    if w < 127 { let h = 1i128 << (w - 1); if x.slo >= -h && x.shi < h { r.slo = x.slo; r.shi = x.shi } }
                    r
                }
                Op::URem => { let (x, y) = (g(0), g(1)); let mut r = full(w); if y.ulo > 0 { r.ulo = 0; r.uhi = (y.uhi - 1).min(x.uhi); if x.uhi < y.ulo { r.ulo = x.ulo; r.uhi = x.uhi } } r }
                Op::UDiv => { let (x, y) = (g(0), g(1)); let mut r = full(w); if y.ulo > 0 { r.ulo = x.ulo / y.uhi; r.uhi = x.uhi / y.ulo } r }
                Op::SRem => {
                    let (x, y) = (g(0), g(1)); let mut r = full(w);
                    let m = y.slo.abs().max(y.shi.abs());
                    if m > 0 && w <= 64 { r.slo = if x.slo >= 0 { 0 } else { -(m - 1) }; r.shi = if x.shi <= 0 { 0 } else { (m - 1).min(x.shi) }; }
                    r
                }
                Op::SDiv => {
                    let (x, y) = (g(0), g(1)); let mut r = full(w);
                    if y.slo > 0 && x.slo >= 0 { r.slo = 0; r.shi = x.shi / y.slo }
                    r
                }
                Op::BAnd => { let (x, y) = (g(0), g(1)); let mut r = full(w); r.ulo = 0; r.uhi = x.uhi.min(y.uhi); r }
                Op::LShr => { let (x, y) = (g(0), g(1)); let mut r = full(w); if y.ulo == y.uhi && y.ulo < 128 { r.ulo = x.ulo >> y.ulo; r.uhi = x.uhi >> y.ulo } else { r.ulo = 0; r.uhi = x.uhi } r }
                _ => full(w),
            }
        }
    };
    Some(Box::new(norm(r, w)))
}
pub fn intern(n: N) -> T {
    let t = tt_raw();
    if let Some(x) = t.map.get(&n) { return *x }
    let id = T(t.nodes.len() as u32);
    let r = compute_rng(&n);
    let lv = match &n {
        N::C(..) => 1u16,
        N::A(Op::Ite, s, a, _) if *s != Sort::Bool => { let cap = if matches!(s, Sort::F32 | Sort::F64) { 5000 } else { 200 }; let (x, y) = (t.leaves[a[1].0 as usize], t.leaves[a[2].0 as usize]); if x == 0 || y == 0 { 0 } else { let s = x as u32 + y as u32; if s > cap { 0 } else { s as u16 } } }
        _ => 0,
    };
    let wt = match &n { N::A(_, _, a, _) => a.iter().fold(1u32, |x, y| x.saturating_add(t.weight[y.0 as usize])), _ => 1 };
    t.map.insert(n.clone(), id);
    t.nodes.push(n);
    t.rng.push(r);
    t.leaves.push(lv);
    t.weight.push(wt);
    // collapse singleton ranges to constants
    id
}
#[allow(static_mut_refs)]
fn tt_raw() -> &'static mut Table { unsafe { TT.as_mut().unwrap() } }

pub fn node(t: T) -> &'static N { &tt().nodes[t.0 as usize] }
pub fn sort(t: T) -> Sort { match node(t) { N::C(s, _) | N::V(s, _) | N::A(_, s, _, _) => *s } }
pub fn width(t: T) -> u8 { match sort(t) { Sort::Bv(w) => w, Sort::Bool => 1, Sort::F32 => 32, Sort::F64 => 64 } }
pub fn cval(t: T) -> Option<u128> { match node(t) { N::C(_, v) => Some(*v), _ => None } }
pub fn scval(t: T) -> Option<i128> { match node(t) { N::C(Sort::Bv(w), v) => Some(sx(*v, *w)), _ => None } }
pub fn is_const(t: T) -> bool { matches!(node(t), N::C(..)) }
pub fn rng(t: T) -> &'static Rng { tt().rng[t.0 as usize].as_ref().unwrap() }
pub fn app(t: T) -> Option<(Op, &'static [T], u32)> { match node(t) { N::A(o, _, a, i) => Some((*o, a, *i)), _ => None } }

pub fn konst(s: Sort, v: u128) -> T { let v = match s { Sort::Bool => v & 1, Sort::Bv(w) => v & mask(w), Sort::F32 => v & mask(32), Sort::F64 => v & mask(64) }; tt(); intern(N::C(s, v)) }
pub fn bv(w: u8, v: u128) -> T { konst(Sort::Bv(w), v) }
pub fn usz(v: u64) -> T { bv(64, v as u128) }
pub fn boolc(b: bool) -> T { if b { TR } else { F } }
pub fn f32c(v: f32) -> T { konst(Sort::F32, v.to_bits() as u128) }
pub fn f64c(v: f64) -> T { konst(Sort::F64, v.to_bits() as u128) }
pub fn var(name: &str, s: Sort, range: Option<(i128, i128, bool)>) -> T {
    let t = tt();
    let id = t.vars.len() as u32;
    let (lo, hi, signed) = range.unwrap_or((0, 0, false));
    t.vars.push(VarInfo { name: name.to_string(), sort: s, lo, hi, has_range: range.is_some(), signed, def: None, vals: None });
    let x = intern(N::V(s, id));
    t.varterm.push(x);
    x
}
/// a name for `t`: a variable the simplifier does not look into, defined as `t` in every query
pub fn alias(t: T) -> T {
    if let Some(x) = tt().aliases.get(&t) { return *x }
    let (lo, hi) = match sort(t) { Sort::Bv(_) => { let r = rng(t); (r.ulo, r.uhi) } _ => (0, u128::MAX) };
    let vals = if lv(t) > 0 {
        let mut v = vec![]; let mut st = vec![t]; let mut seen: FxSet<T> = Default::default();
        while let Some(x) = st.pop() { if !seen.insert(x) { continue } match node(x) { N::C(_, c) => v.push(*c), N::A(Op::Ite, _, a, _) => { st.push(a[1]); st.push(a[2]) } _ => {} } }
        v.sort(); v.dedup(); Some(v)
    } else { None };
    let x = var("alias", sort(t), if hi <= i128::MAX as u128 { Some((lo as i128, hi as i128, false)) } else { None });
    if let N::V(_, id) = node(x) { let vi = &mut tt().vars[*id as usize]; vi.def = Some(t); vi.vals = vals; }
    tt().aliases.insert(t, x);
    x
}
/// in jobs that ask for it, conditions above a certain size are named
pub fn gname(c: T) -> T {
    let l = tt().name_above;
    if l == 0 || tt().weight[c.0 as usize] <= l { return c }
    if let Some((Op::Not, x, _)) = app(c) { return not(gname(x[0])) }
    alias(c)
}
/// may `t` equal the constant k?
pub fn may_be(t: T, k: u128) -> bool { match node(t) { N::V(_, id) => tt().vars[*id as usize].vals.as_ref().map(|v| v.binary_search(&k).is_ok()).unwrap_or(true), _ => true } }
pub fn big(t: T) -> bool { matches!(app(t), Some((Op::Ite, _, _))) }
pub fn def_of(id: u32) -> Option<T> { tt().vars[id as usize].def }
fn raw(op: Op, s: Sort, args: &[T], imm: u32) -> T {
    let x = intern(N::A(op, s, args.into(), imm));
    if let Sort::Bv(w) = s { let r = rng(x); if r.slo == r.shi { return bv(w, r.slo as u128) } if r.ulo == r.uhi { return bv(w, r.ulo) } }
    x
}
pub fn f32v(b: u128) -> f32 { f32::from_bits(b as u32) }
pub fn f64v(b: u128) -> f64 { f64::from_bits(b as u64) }

/// Evaluate an operator on constants.
pub fn eval_op(op: Op, s: Sort, a: &[(Sort, u128)], imm: u32) -> Option<u128> {
    let w = match a.get(0) { Some((Sort::Bv(w), _)) => *w, _ => 0 };
    let b = |x: bool| Some(x as u128);
    let v = |i: usize| a[i].1;
    let s_ = |i: usize| sx(a[i].1, w);
    let rw = match s { Sort::Bv(w) => w, _ => 1 };
    let m = |x: u128| Some(x & mask(rw));
    let fl = |f32f: &dyn Fn(f32, f32) -> f32, f64f: &dyn Fn(f64, f64) -> f64| -> Option<u128> {
        let y = if a.len() > 1 { v(1) } else { 0 };
        Some(match a[0].0 { Sort::F32 => f32f(f32v(v(0)), f32v(y)).to_bits() as u128, _ => f64f(f64v(v(0)), f64v(y)).to_bits() as u128 })
    };
    let fc = |f: &dyn Fn(f64, f64) -> bool| -> Option<u128> {
        let y = if a.len() > 1 { v(1) } else { 0 };
        Some(match a[0].0 { Sort::F32 => f(f32v(v(0)) as f64, f32v(y) as f64), _ => f(f64v(v(0)), f64v(y)) } as u128)
    };
    match op {
        Op::Not => b(v(0) == 0),
        Op::And => b(a.iter().all(|x| x.1 != 0)),
        Op::Ite => Some(if v(0) != 0 { v(1) } else { v(2) }),
        Op::Eq => b(v(0) == v(1)),
        Op::Add => m(v(0).wrapping_add(v(1))),
        Op::Sub => m(v(0).wrapping_sub(v(1))),
        Op::Neg => m(0u128.wrapping_sub(v(0))),
        Op::Mul => m(v(0).wrapping_mul(v(1))),
        Op::UDiv => if v(1) == 0 { m(u128::MAX) } else { m(v(0) / v(1)) },
        Op::URem => if v(1) == 0 { m(v(0)) } else { m(v(0) % v(1)) },
        Op::SDiv => if v(1) == 0 { m(if s_(0) < 0 { 1 } else { u128::MAX }) } else { m(s_(0).wrapping_div(s_(1)) as u128) },
        Op::SRem => if v(1) == 0 { m(v(0)) } else { m(s_(0).wrapping_rem(s_(1)) as u128) },
        Op::BAnd => m(v(0) & v(1)),
        Op::BOr => m(v(0) | v(1)),
        Op::BXor => m(v(0) ^ v(1)),
        Op::BNot => m(!v(0)),
        Op::Shl => if v(1) >= w as u128 { Some(0) } else { m(v(0) << v(1)) },
        Op::LShr => if v(1) >= w as u128 { Some(0) } else { m(v(0) >> v(1)) },
        Op::AShr => { let sh = v(1).min(127) as u32; m((s_(0) >> sh) as u128) }
        Op::Ult => b(v(0) < v(1)),
        Op::Slt => b(s_(0) < s_(1)),
        Op::Zext => m(v(0)),
        Op::Sext => m(s_(0) as u128),
        Op::Extract => m(v(0) >> imm),
        Op::Concat => { let w1 = match a[1].0 { Sort::Bv(w) => w, _ => 0 }; m((v(0) << w1) | v(1)) }
        Op::FAdd => fl(&|x, y| x + y, &|x, y| x + y),
        Op::FSub => fl(&|x, y| x - y, &|x, y| x - y),
        Op::FMul => fl(&|x, y| x * y, &|x, y| x * y),
        Op::FDiv => fl(&|x, y| x / y, &|x, y| x / y),
        Op::FRem => fl(&|x, y| x % y, &|x, y| x % y),
        Op::FNeg => fl(&|x, _| -x, &|x, _| -x),
        Op::FAbs => fl(&|x, _| x.abs(), &|x, _| x.abs()),
        Op::FSqrt => fl(&|x, _| x.sqrt(), &|x, _| x.sqrt()),
        Op::FFloor => fl(&|x, _| x.floor(), &|x, _| x.floor()), Op::FCeil => fl(&|x, _| x.ceil(), &|x, _| x.ceil()), Op::FTrunc => fl(&|x, _| x.trunc(), &|x, _| x.trunc()),
        Op::FLt => fc(&|x, y| x < y),
        Op::FLe => fc(&|x, y| x <= y),
        Op::FEq => fc(&|x, y| x == y),
        Op::FIsNan => fc(&|x, _| x.is_nan()),
        Op::SToF => Some(match s { Sort::F32 => (s_(0) as f32).to_bits() as u128, _ => (s_(0) as f64).to_bits() as u128 }),
        Op::UToF => Some(match s { Sort::F32 => (v(0) as f32).to_bits() as u128, _ => (v(0) as f64).to_bits() as u128 }),
        Op::FToS => {
            let x = match a[0].0 { Sort::F32 => f32v(v(0)) as f64, _ => f64v(v(0)) };
            let h = 1i128 << (rw - 1);
            m((if x.is_nan() { 0 } else { (x as i128).clamp(-h, h - 1) }) as u128)
        }
        Op::FToU => {
            let x = match a[0].0 { Sort::F32 => f32v(v(0)) as f64, _ => f64v(v(0)) };
            Some(if x.is_nan() { 0 } else { (x as u128).min(mask(rw)) })
        }
        Op::FToF => Some(match (a[0].0, s) { (Sort::F32, Sort::F64) => (f32v(v(0)) as f64).to_bits() as u128, (Sort::F64, Sort::F32) => (f64v(v(0)) as f32).to_bits() as u128, _ => v(0) }),
        Op::FBits | Op::FFromBits => Some(v(0)),
        Op::Uf => {
            let name = &tt().ufs[imm as usize];
            match (name.trim_end_matches("_32").trim_end_matches("_64"), a[0].0) {
                ("ln", Sort::F32) => Some(f32v(v(0)).ln().to_bits() as u128),
                ("ln", Sort::F64) => Some(f64v(v(0)).ln().to_bits() as u128),
                ("exp", Sort::F32) => Some(f32v(v(0)).exp().to_bits() as u128),
                ("exp", Sort::F64) => Some(f64v(v(0)).exp().to_bits() as u128),
                ("pow", Sort::F32) => Some(f32v(v(0)).powf(f32v(v(1))).to_bits() as u128),
                ("pow", Sort::F64) => Some(f64v(v(0)).powf(f64v(v(1))).to_bits() as u128),
                _ => None,
            }
        }
    }
}
fn lv(t: T) -> u16 { tt().leaves[t.0 as usize] }

pub fn mk(op: Op, s: Sort, args: &[T], imm: u32) -> T {
    let z = T(u32::MAX);
    let key = (op, s, args[0], *args.get(1).unwrap_or(&z), *args.get(2).unwrap_or(&z), imm);
    let cacheable = args.len() <= 3;
    if cacheable { if let Some(r) = tt().cache.get(&key) { return *r } }
    let r = mk_uncached(op, s, args, imm);
    if cacheable { tt().cache.insert(key, r); }
    r
}
/// exact rewrites of floating-point terms
fn fsimp(op: Op, s: Sort, a: &[T]) -> Option<T> {
    let fz = |t: T, v: f64| match (sort(t), cval(t)) { (Sort::F32, Some(c)) => c as u32 == (v as f32).to_bits(), (Sort::F64, Some(c)) => c as u64 == v.to_bits(), _ => false };
    match op {
        Op::SToF | Op::UToF => match app(a[0]) {
            Some((Op::Sext, x, _)) if op == Op::SToF => Some(mk(Op::SToF, s, &[x[0]], 0)),
            Some((Op::Zext, x, _)) => Some(mk(Op::UToF, s, &[x[0]], 0)),
            _ => None,
        },
        Op::FToF if s == Sort::F64 => match app(a[0]) {
            Some((o @ (Op::SToF | Op::UToF), x, _)) if width(x[0]) <= 24 && sort(a[0]) == Sort::F32 => Some(mk(o, s, &[x[0]], 0)),
            _ => None,
        },
        Op::FToF if s == Sort::F32 => match app(a[0]) { Some((Op::FToF, x, _)) if sort(x[0]) == Sort::F32 => Some(x[0]), _ => None },
        Op::FAdd => {
            for (x, y) in [(a[0], a[1]), (a[1], a[0])] { if fz(x, -0.0) || fz(x, 0.0) && never_neg_zero(y) { return Some(y) } }
            None
        }
        Op::FToU | Op::FToS => match (op, app(a[0]), s) {
            (_, Some((Op::UToF, x, _)), Sort::Bv(w)) if width(x[0]) <= 24 && w > width(x[0]) => Some(zext(x[0], w)),
            (Op::FToU, Some((Op::UToF, x, _)), Sort::Bv(w)) if width(x[0]) <= 24 && w == width(x[0]) => Some(x[0]),
            (Op::FToS, Some((Op::SToF, x, _)), Sort::Bv(w)) if width(x[0]) <= 24 && w >= width(x[0]) => Some(if w == width(x[0]) { x[0] } else { sext(x[0], w) }),
            _ => None,
        },
        Op::FMul if fz(a[0], 1.0) => Some(a[1]),
        Op::FMul | Op::FDiv if fz(a[1], 1.0) => Some(a[0]),
        _ => None,
    }
}
pub fn never_neg_zero(t: T) -> bool { nnz(t, 24) }
fn nnz(t: T, d: u32) -> bool {
    if d == 0 { return false }
    if let Some(c) = cval(t) { return match sort(t) { Sort::F32 => c as u32 != 1 << 31, Sort::F64 => c as u64 != 1 << 63, _ => false } }
    match app(t) {
        Some((Op::Ite, x, _)) => nnz(x[1], d - 1) && nnz(x[2], d - 1),
        Some((Op::SToF | Op::UToF | Op::FAbs, _, _)) => true,
        Some((Op::FAdd, x, _)) => nnz(x[1], d - 1) || nnz(x[0], d - 1),
        Some((Op::FToF, x, _)) if sort(t) == Sort::F64 => nnz(x[0], d - 1),
        _ => false,
    }
}
fn mk_uncached(op: Op, s: Sort, args: &[T], imm: u32) -> T {
    // constant folding
    if args.iter().all(|a| is_const(*a)) {
        let vals: Vec<(Sort, u128)> = args.iter().map(|a| (sort(*a), cval(*a).unwrap())).collect();
        if let Some(v) = eval_op(op, s, &vals, imm) { return konst(s, v) }
        return raw(op, s, args, imm);
    }
    if let Some(r) = fsimp(op, s, args) { return r }
    // distribute over ite-trees with constant leaves
    if args.len() <= 2 && args.iter().all(|a| lv(*a) > 0) {
        let prod: u32 = args.iter().map(|a| lv(*a) as u32).product();
        // decision diagrams over numbers: conditions in the order of their creation, so that shared ones meet
        let float = args.iter().any(|a| matches!(sort(*a), Sort::F32 | Sort::F64));
        let top = |a: T| match app(a) { Some((Op::Ite, x, _)) => Some(x[0]), _ => None };
        let shared = args.len() == 2 && top(args[0]).is_some() && top(args[0]) == top(args[1]);
        if prod <= if float { if shared { 4_000_000 } else { 6000 } } else { 400 } {
            let (i, _) = args.iter().enumerate().filter(|(_, a)| !is_const(**a)).min_by_key(|(_, a)| if float { top(**a).unwrap().0 as i64 } else { -(a.0 as i64) }).unwrap();
            let (_, ia, _) = app(args[i]).unwrap();
            let c = ia[0];
            let mut a1 = args.to_vec(); let mut a2 = args.to_vec();
            a1[i] = ia[1]; a2[i] = ia[2];
            for j in 0..args.len() { if j != i { if let Some((Op::Ite, ja, _)) = app(args[j]) { if ja[0] == c { a1[j] = ja[1]; a2[j] = ja[2] } } } }
            let x = mk(op, s, &a1, imm);
            let y = mk(op, s, &a2, imm);
            return ite(c, x, y);
        }
    }
    if dbg_fp() && args.iter().any(|a| matches!(sort(*a), Sort::F32 | Sort::F64)) { eprintln!("rawfp {:?} {:?} {:?}", op, args.iter().map(|a| lv(*a)).collect::<Vec<_>>(), args.iter().map(|a| show_t(*a, 3)).collect::<Vec<_>>()) }
    raw(op, s, args, imm)
}
fn dbg_fp() -> bool { static D: std::sync::OnceLock<bool> = std::sync::OnceLock::new(); *D.get_or_init(|| std::env::var("MIRSYM_FP").is_ok()) }
fn show_t(t: T, d: u32) -> String { match app(t) { Some((o, a, _)) if d > 0 => format!("({:?} {})", o, a.iter().map(|x| show_t(*x, d - 1)).collect::<Vec<_>>().join(" ")), Some(_) => format!("#{}", t.0), None => match cval(t) { Some(c) => match sort(t) { Sort::F32 => f32v(c).to_string(), Sort::F64 => f64v(c).to_string(), _ => c.to_string() }, None => format!("v{}", t.0) } } }

// ---------- booleans
pub fn not(a: T) -> T {
    if a == TR { return F } if a == F { return TR }
    if let Some((Op::Not, x, _)) = app(a) { return x[0] }
    raw(Op::Not, Sort::Bool, &[a], 0)
}
pub fn or(a: T, b: T) -> T { not(and(not(a), not(b))) }
pub fn or_n(v: &[T]) -> T { let n: Vec<T> = v.iter().map(|x| not(*x)).collect(); not(and_n(&n)) }
pub fn implies(a: T, b: T) -> T { not(and(a, not(b))) }
pub fn and(a: T, b: T) -> T {
    if a == F || b == F { return F } if a == TR { return b } if b == TR || a == b { return a }
    if not_of(a, b) { return F }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    let key = (Op::And, Sort::Bool, x, y, T(u32::MAX), 0);
    if let Some(r) = tt().cache.get(&key) { return *r }
    let r = and_n(&[x, y]);
    tt().cache.insert(key, r);
    r
}
fn not_of(a: T, b: T) -> bool {
    if let Some((Op::Not, x, _)) = app(a) { return x[0] == b }
    if let Some((Op::Not, x, _)) = app(b) { return x[0] == a }
    false
}
/// A literal as a bound on a base term: (base, kind)
#[derive(Clone, Copy, Debug)]
pub enum Bd { SLt(i128), SGe(i128), ULt(u128), UGe(u128), Eq(u128), Ne(u128) }
pub fn bound_of(l: T) -> Option<(T, Bd)> {
    let (neg, a) = match app(l) { Some((Op::Not, x, _)) => (true, x[0]), _ => (false, l) };
    match app(a) {
        Some((Op::Slt, x, _)) => {
            if let Some(c) = scval(x[1]) { return Some((x[0], if neg { Bd::SGe(c) } else { Bd::SLt(c) })) }
            if let Some(c) = scval(x[0]) { return Some((x[1], if neg { Bd::SLt(c + 1) } else { Bd::SGe(c + 1) })) }
            None
        }
        Some((Op::Ult, x, _)) => {
            if let Some(c) = cval(x[1]) { return Some((x[0], if neg { Bd::UGe(c) } else { Bd::ULt(c) })) }
            if let Some(c) = cval(x[0]) { return Some((x[1], if neg { Bd::ULt(c + 1) } else { Bd::UGe(c + 1) })) }
            None
        }
        Some((Op::Eq, x, _)) => {
            if sort(x[0]) == Sort::Bool || matches!(sort(x[0]), Sort::F32 | Sort::F64) { return None }
            if let Some(c) = cval(x[1]) { return Some((x[0], if neg { Bd::Ne(c) } else { Bd::Eq(c) })) }
            if let Some(c) = cval(x[0]) { return Some((x[1], if neg { Bd::Ne(c) } else { Bd::Eq(c) })) }
            None
        }
        _ => None,
    }
}
/// Known facts about one base term
#[derive(Clone, Debug)]
pub struct Know { pub slo: i128, pub shi: i128, pub ulo: u128, pub uhi: u128, pub ne: Vec<u128>, w: u8 }
impl Know {
    pub fn new(x: T) -> Know { let r = rng(x); Know { slo: r.slo, shi: r.shi, ulo: r.ulo, uhi: r.uhi, ne: vec![], w: width(x) } }
    pub fn add(&mut self, b: Bd) {
        match b {
            Bd::SLt(c) => self.shi = self.shi.min(c - 1),
            Bd::SGe(c) => self.slo = self.slo.max(c),
            Bd::ULt(c) => { if c == 0 { self.ulo = 1; self.uhi = 0 } else { self.uhi = self.uhi.min(c - 1) } }
            Bd::UGe(c) => self.ulo = self.ulo.max(c),
            Bd::Eq(c) => { let s = sx(c, self.w); self.slo = self.slo.max(s); self.shi = self.shi.min(s); self.ulo = self.ulo.max(c); self.uhi = self.uhi.min(c) }
            Bd::Ne(c) => self.ne.push(c),
        }
        self.tighten();
    }
    fn tighten(&mut self) {
        loop {
            let mut ch = false;
            if self.contra0() { return }
            let m = mask(self.w);
            for &n in &self.ne {
                let s = sx(n, self.w);
                if s == self.slo { self.slo += 1; ch = true }
                if s == self.shi { self.shi -= 1; ch = true }
                if n == self.ulo { self.ulo += 1; ch = true }
                if n == self.uhi { if self.uhi == 0 { self.ulo = 1; return } self.uhi -= 1; ch = true }
            }
            if self.contra0() { return }
            if self.slo >= 0 { let (a, b) = (self.slo as u128, self.shi as u128); if a > self.ulo { self.ulo = a; ch = true } if b < self.uhi { self.uhi = b; ch = true } }
            else if self.shi < 0 { let (a, b) = ((self.slo as u128) & m, (self.shi as u128) & m); if a > self.ulo { self.ulo = a; ch = true } if b < self.uhi { self.uhi = b; ch = true } }
            if self.contra0() { return }
            if self.w < 127 {
                let h = 1u128 << (self.w - 1);
                if self.uhi < h { let (a, b) = (self.ulo as i128, self.uhi as i128); if a > self.slo { self.slo = a; ch = true } if b < self.shi { self.shi = b; ch = true } }
                else if self.ulo >= h { let (a, b) = (sx(self.ulo, self.w), sx(self.uhi, self.w)); if a > self.slo { self.slo = a; ch = true } if b < self.shi { self.shi = b; ch = true } }
            }
            if !ch { return }
        }
    }
    fn contra0(&self) -> bool { self.slo > self.shi || self.ulo > self.uhi }
    pub fn contra(&self) -> bool { self.contra0() }
    pub fn entails(&self, b: Bd) -> Option<bool> {
        match b {
            Bd::SLt(c) => if self.shi < c { Some(true) } else if self.slo >= c { Some(false) } else { None },
            Bd::SGe(c) => if self.slo >= c { Some(true) } else if self.shi < c { Some(false) } else { None },
            Bd::ULt(c) => if self.uhi < c { Some(true) } else if self.ulo >= c { Some(false) } else { None },
            Bd::UGe(c) => if self.ulo >= c { Some(true) } else if self.uhi < c { Some(false) } else { None },
            Bd::Eq(c) => { if self.ulo == self.uhi && self.ulo == c { Some(true) } else { let s = sx(c, self.w); if c < self.ulo || c > self.uhi || s < self.slo || s > self.shi || self.ne.contains(&c) { Some(false) } else { None } } }
            Bd::Ne(c) => self.entails(Bd::Eq(c)).map(|x| !x),
        }
    }
}
pub fn and_n(v: &[T]) -> T {
    let mut lits: Vec<T> = Vec::with_capacity(v.len() + 4);
    fn push(l: &mut Vec<T>, x: T) {
        if let Some((Op::And, a, _)) = app(x) { if l.len() + a.len() <= 256 { for y in a { push(l, *y) } return } }
        l.push(x)
    }
    for x in v { if *x == F { return F } if *x != TR { push(&mut lits, *x) } }
    lits.sort_unstable(); lits.dedup();
    if lits.is_empty() { return TR }
    if lits.len() == 1 { return lits[0] }
    let mut rounds = 0;
    loop {
        rounds += 1;
        if lits.contains(&F) { return F }
        // contradictions a, !a
        let set: FxSet<T> = lits.iter().copied().collect();
        for l in &lits { if let Some((Op::Not, x, _)) = app(*l) { if set.contains(&x[0]) { return F } } }
        // bounds
        let mut know: Vec<(T, Know)> = vec![];
        let mut bcount = 0;
        for l in &lits { if let Some((x, b)) = bound_of(*l) {
            bcount += 1;
            match know.iter_mut().find(|k| k.0 == x) { Some(k) => { k.1.add(b); if k.1.contra() { return F } } None => { let mut k = Know::new(x); k.add(b); if k.contra() { return F } know.push((x, k)) } }
        } }
        // drop redundant bounds
        if bcount > know.len() {
            let bd: Vec<Option<(T, Bd)>> = lits.iter().map(|l| bound_of(*l)).collect();
            let mut by: FxMap<T, Vec<usize>> = Default::default();
            for (i, b) in bd.iter().enumerate() { if let Some((x, _)) = b { by.entry(*x).or_default().push(i) } }
            let mut dead = vec![false; lits.len()]; let mut changed = false;
            for (x, ids) in by.iter() { if ids.len() > 1 { for &i in ids {
                let mut k = Know::new(*x); let mut any = false;
                for &j in ids { if j != i && !dead[j] { k.add(bd[j].unwrap().1); any = true } }
                if any && k.entails(bd[i].unwrap().1) == Some(true) { dead[i] = true; changed = true }
            } } }
            if changed { lits = lits.iter().zip(&dead).filter(|(_, d)| !**d).map(|(l, _)| *l).collect(); if lits.len() == 1 { return lits[0] } }
        }
        // simplify clauses not(and(..)) under the other literals
        let mut changed = false;
        if lits.len() <= 64 && rounds <= 4 {
            let set: FxSet<T> = lits.iter().copied().collect();
            for i in 0..lits.len() {
                let l = lits[i];
                if let Some((Op::Not, x, _)) = app(l) {
                    if let Some((Op::And, ca, _)) = app(x[0]) {
                        if ca.len() > 64 { continue }
                        let mut rem: Vec<T> = vec![]; let mut sat = false; let mut drop_any = false;
                        for &y in ca {
                            if set.contains(&y) { drop_any = true; continue }
                            let ny = not(y);
                            if set.contains(&ny) { sat = true; break }
                            if let Some((bx, b)) = bound_of(y) { if let Some(k) = know.iter().find(|k| k.0 == bx) { match k.1.entails(b) { Some(true) => { drop_any = true; continue } Some(false) => { sat = true; break } None => {} } } }
                            rem.push(y)
                        }
                        if sat { lits[i] = TR; changed = true }
                        else if drop_any { lits[i] = not(and_n(&rem)); changed = true; break }
                    }
                }
            }
        }
        if !changed { break }
        let old = std::mem::take(&mut lits);
        for x in old { if x == F { return F } if x != TR { push(&mut lits, x) } }
        lits.sort_unstable(); lits.dedup();
        if lits.is_empty() { return TR }
        if lits.len() == 1 { return lits[0] }
    }
    if lits.len() == 2 {
        // resolution: !(a & x) & !( !a & x)  == !x
        if let (Some((Op::Not, x, _)), Some((Op::Not, y, _))) = (app(lits[0]), app(lits[1])) {
            let ax: &[T] = match app(x[0]) { Some((Op::And, a, _)) => a, _ => std::slice::from_ref(&x[0]) };
            let ay: &[T] = match app(y[0]) { Some((Op::And, a, _)) => a, _ => std::slice::from_ref(&y[0]) };
            if ax.len() == ay.len() && ax.len() <= 16 {
                let dx: Vec<T> = ax.iter().filter(|t| !ay.contains(t)).copied().collect();
                let dy: Vec<T> = ay.iter().filter(|t| !ax.contains(t)).copied().collect();
                if dx.len() == 1 && dy.len() == 1 && not_of(dx[0], dy[0]) {
                    let common: Vec<T> = ax.iter().filter(|t| ay.contains(t)).copied().collect();
                    return not(and_n(&common));
                }
            }
        }
    }
    raw(Op::And, Sort::Bool, &lits, 0)
}
pub fn ite(c: T, a: T, b: T) -> T {
    if c == TR { return a } if c == F { return b } if a == b { return a }
    if let Some((Op::Not, x, _)) = app(c) { return ite(x[0], b, a) }
    if sort(a) == Sort::Bool {
        if a == TR { return or(c, b) }
        if a == F { return and(not(c), b) }
        if b == TR { return or(not(c), a) }
        if b == F { return and(c, a) }
        if a == c { return or(c, b) }
        if b == c { return and(c, a) }
        if not_of(a, c) { return and(not(c), b) }
        if not_of(b, c) { return or(not(c), a) }
    }
    let key = (Op::Ite, sort(a), c, a, b, 0);
    if let Some(r) = tt().cache.get(&key) { return *r }
    let mut x = a; let mut y = b;
    x = restrict_ite(x, c, true);
    y = restrict_ite(y, c, false);
    let r = if x == y { x }
    else if (x, y) != (a, b) { ite(c, x, y) }
    else if let (Some((Op::Ite, xa, _)), true) = (app(x), sort(x) != Sort::Bool || true) {
        // ite(c, ite(d, p, q), q) = ite(c&d, p, q) ; ite(c, ite(d,p,q), p) = ite(c & !d, q, p)
        if xa[2] == y { ite(and(c, xa[0]), xa[1], y) }
        else if xa[1] == y { ite(and(c, not(xa[0])), xa[2], y) }
        else { ite2(c, x, y) }
    } else { ite2(c, x, y) };
    tt().cache.insert(key, r);
    r
}
fn ite2(c: T, x: T, y: T) -> T {
    if let Some((Op::Ite, ya, _)) = app(y) {
        if ya[1] == x { return ite(or(c, ya[0]), x, ya[2]) }
        if ya[2] == x { return ite(or(c, not(ya[0])), x, ya[1]) }
    }
    // arrange constants so that eq(x,k) conditions fold: ite(x==k, k, x) = x
    if let Some((Op::Eq, e, _)) = app(c) {
        if (e[0] == x && e[1] == y) || (e[1] == x && e[0] == y) { if !matches!(sort(x), Sort::F32 | Sort::F64) { return y } }
    }
    raw(Op::Ite, sort(x), &[c, x, y], 0)
}
/// simplify term t (looking through nested ites) given that c has value v
fn restrict_ite(t: T, c: T, v: bool) -> T {
    let mut t = t;
    let mut fuel = 64;
    while let Some((Op::Ite, a, _)) = app(t) {
        fuel -= 1; if fuel == 0 { break }
        if a[0] == c { t = if v { a[1] } else { a[2] }; continue }
        match implied(c, v, a[0]) { Some(true) => { t = a[1]; continue } Some(false) => { t = a[2]; continue } None => {} }
        break;
    }
    t
}
/// given c == v, is literal d decided?
pub fn implied(c: T, v: bool, d: T) -> Option<bool> {
    if c == d { return Some(v) }
    let lit = if v { c } else { not(c) };
    if let Some((Op::Not, x, _)) = app(d) { return implied(c, v, x[0]).map(|b| !b) }
    let lits: &[T] = match app(lit) { Some((Op::And, a, _)) => a, _ => std::slice::from_ref(&lit) };
    if lits.len() > 64 { return None }
    decide_in(lits.iter().copied(), d)
}
/// decide d given a conjunction of literals
pub fn decide_in<I: Iterator<Item = T> + Clone>(lits: I, d: T) -> Option<bool> { decide_d(&lits, d, 2) }
fn decide_d<I: Iterator<Item = T> + Clone>(lits: &I, d: T, depth: u32) -> Option<bool> {
    if d == TR { return Some(true) } if d == F { return Some(false) }
    let nd = not(d);
    for l in lits.clone() { if l == d { return Some(true) } if l == nd { return Some(false) } }
    if let Some((x, b)) = bound_of(d) {
        let mut k: Option<Know> = None;
        for l in lits.clone() { if let Some((y, c)) = bound_of(l) { if y == x { k.get_or_insert_with(|| Know::new(x)).add(c) } } }
        if let Some(k) = k { if !k.contra() { return k.entails(b) } }
        return None;
    }
    if depth == 0 { return None }
    let (neg, inner) = match app(d) { Some((Op::Not, x, _)) => (true, x[0]), _ => (false, d) };
    if let Some((Op::And, a, _)) = app(inner) {
        if a.len() <= 24 {
            let mut all = true;
            for x in a { match decide_d(lits, *x, depth - 1) { Some(false) => return Some(neg), Some(true) => {} None => all = false } }
            if all { return Some(!neg) }
        }
    }
    None
}
pub fn eq(a: T, b: T) -> T {
    if a == b && !matches!(sort(a), Sort::F32 | Sort::F64) { return TR }
    debug_assert!(sort(a) == sort(b), "eq sorts {:?} {:?}", show(a), show(b));
    let (a, b) = if is_const(a) { (b, a) } else if !is_const(b) && a > b { (b, a) } else { (a, b) };
    let s = sort(a);
    if s == Sort::Bv(64) { if let Some(c) = cval(b) { if tt().counts.contains_key(&a) { if let (Some(x), Some(y)) = (count_ge(a, c), count_ge(a, c + 1)) { return and(x, not(y)) } } } }
    if s == Sort::Bool {
        if b == TR { return a } if b == F { return not(a) }
        if not_of(a, b) { return F }
        return ite(a, b, not(b));
    }
    let key = (Op::Eq, Sort::Bool, a, b, T(u32::MAX), 0);
    if let Some(r) = tt().cache.get(&key) { return *r }
    let r = eq_un(a, b);
    tt().cache.insert(key, r);
    r
}
fn eq_un(a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (cval(a), cval(b)) { return boolc(x == y) }
    if let Sort::Bv(w) = sort(a) {
        let (x, y) = (rng(a), rng(b));
        if x.shi < y.slo || y.shi < x.slo || x.uhi < y.ulo || y.uhi < x.ulo { return F }
        // linear normalisation
        let (ba, ka) = split_add(a); let (bb, kb) = split_add(b);
        if ba == bb { return boolc(ka == kb) }
        if let Some(c) = cval(b) {
            if let Some((Op::Add, p, _)) = app(a) { if let Some(k) = cval(p[1]) { return eq(p[0], bv(w, c.wrapping_sub(k))) } }
            if let Some((Op::Zext, p, _)) = app(a) { return eq(p[0], bv(width(p[0]), c)) }
            if let Some((Op::Sext, p, _)) = app(a) { return eq(p[0], bv(width(p[0]), c)) }
            if let Some((Op::Neg, p, _)) = app(a) { return eq(p[0], bv(w, 0u128.wrapping_sub(c))) }
            if let Some((Op::Sub, p, _)) = app(a) { if c == 0 { return eq(p[0], p[1]) } if let Some(k) = cval(p[0]) { return eq(p[1], bv(w, k.wrapping_sub(c))) } }
        } else if ka != 0 && kb != 0 {
            return eq(ba, add(bb, bv(w, kb.wrapping_sub(ka))));
        }
        if let (Some((o1, p, _)), Some((o2, q, _))) = (app(a), app(b)) {
            if (o1 == Op::Zext || o1 == Op::Sext) && o1 == o2 && width(p[0]) == width(q[0]) { return eq(p[0], q[0]) }
        }
    }
    // push through ite when one side folds
    for (p, q) in [(a, b), (b, a)] {
        if let Some((Op::Ite, x, _)) = app(p) {
            if let Some((Op::Ite, y, _)) = app(q) { if y[0] == x[0] { let (e1, e2) = (eq(x[1], y[1]), eq(x[2], y[2])); return ite(x[0], e1, e2) } }
            let e1 = eq(x[1], q);
            let e2 = eq(x[2], q);
            if is_const(e1) || is_const(e2) || is_const(q) { return ite(x[0], e1, e2) }
        }
    }
    raw(Op::Eq, Sort::Bool, &[a, b], 0)
}
fn split_add(a: T) -> (T, u128) { if let Some((Op::Add, p, _)) = app(a) { if let Some(k) = cval(p[1]) { return (p[0], k) } } (a, 0) }
pub fn add(a: T, b: T) -> T {
    let Sort::Bv(w) = sort(a) else { panic!("add sort {}", show(a)) };
    if let (Some(x), Some(y)) = (cval(a), cval(b)) { return bv(w, x.wrapping_add(y)) }
    let (a, b) = if is_const(a) { (b, a) } else if !is_const(b) && a > b { (b, a) } else { (a, b) };
    if let Some(k) = cval(b) {
        if k == 0 { return a }
        let (x, k0) = split_add(a);
        if k0 != 0 { return add(x, bv(w, k0.wrapping_add(k))) }
        if lv(a) > 0 { return mk(Op::Add, Sort::Bv(w), &[a, b], 0) }
        if let Some((Op::Ite, p, _)) = app(a) { if is_const(p[1]) || is_const(p[2]) { let (x, y) = (add(p[1], b), add(p[2], b)); return ite(p[0], x, y) } }
        return raw(Op::Add, Sort::Bv(w), &[a, b], 0);
    }
    let (x, kx) = split_add(a); let (y, ky) = split_add(b);
    if kx != 0 || ky != 0 { return add(add(x, y), bv(w, kx.wrapping_add(ky))) }
    if let Some((Op::Neg, p, _)) = app(a) { return sub(b, p[0]) }
    if let Some((Op::Neg, p, _)) = app(b) { return sub(a, p[0]) }
    mk(Op::Add, Sort::Bv(w), &[a, b], 0)
}
pub fn sub(a: T, b: T) -> T {
    let Sort::Bv(w) = sort(a) else { panic!("sub sort") };
    if a == b { return bv(w, 0) }
    if let Some(k) = cval(b) { return add(a, bv(w, 0u128.wrapping_sub(k))) }
    let (x, kx) = split_add(a); let (y, ky) = split_add(b);
    if kx != 0 || ky != 0 { return add(sub(x, y), bv(w, kx.wrapping_sub(ky))) }
    if cval(a) == Some(0) { return neg(b) }
    mk(Op::Sub, Sort::Bv(w), &[a, b], 0)
}
pub fn neg(a: T) -> T {
    let s = sort(a);
    if let Some((Op::Neg, p, _)) = app(a) { return p[0] }
    mk(Op::Neg, s, &[a], 0)
}
pub fn mul(a: T, b: T) -> T {
    let Sort::Bv(w) = sort(a) else { panic!() };
    let (a, b) = if is_const(a) { (b, a) } else { (a, b) };
    if let Some(k) = cval(b) {
        if k == 0 { return b } if k == 1 { return a }
        if k == mask(w) { return neg(a) }
    }
    let (a, b) = if !is_const(b) && a > b { (b, a) } else { (a, b) };
    mk(Op::Mul, Sort::Bv(w), &[a, b], 0)
}
pub fn bin(op: Op, a: T, b: T) -> T {
    match op {
        Op::Add => return add(a, b), Op::Sub => return sub(a, b), Op::Mul => return mul(a, b),
        Op::Eq => return eq(a, b), Op::Slt => return slt(a, b), Op::Ult => return ult(a, b), _ => {}
    }
    let s = sort(a);
    if s == Sort::Bool {
        return match op { Op::BAnd => and(a, b), Op::BOr => or(a, b), Op::BXor => not(eq(a, b)), _ => panic!("bool op {:?}", op) };
    }
    match op {
        Op::UDiv | Op::SDiv => if cval(b) == Some(1) { return a },
        Op::URem => if let Some(k) = cval(b) { if rng(a).uhi < k { return a } if k == 1 { return bv(width(a), 0) } },
        Op::SRem => if let Some(k) = scval(b) { if k > 0 && rng(a).slo >= 0 && rng(a).shi < k { return a } },
        Op::BAnd => { if a == b { return a } for (x, y) in [(a, b), (b, a)] { if let Some(k) = cval(x) { if k == 0 { return x } if k == mask(width(a)) { return y } if (k & (k + 1)) == 0 && rng(y).uhi <= k { return y } } } }
        Op::BOr => { if a == b { return a } for (x, y) in [(a, b), (b, a)] { if cval(x) == Some(0) { return y } } }
        Op::BXor => { if a == b { return bv(width(a), 0) } for (x, y) in [(a, b), (b, a)] { if cval(x) == Some(0) { return y } } }
        Op::Shl | Op::LShr | Op::AShr => if cval(b) == Some(0) { return a },
        _ => {}
    }
    let rs = match op { Op::FLt | Op::FLe | Op::FEq => Sort::Bool, _ => s };
    if rs == Sort::Bool { for i in 0..2 { let p = [a, b][i]; if let Some((Op::Ite, x, _)) = app(p) {
        if lv(p) == 0 { let f = |z: T| if i == 0 { bin(op, z, b) } else { bin(op, a, z) }; let (e1, e2) = (f(x[1]), f(x[2])); if is_const(e1) || is_const(e2) { return ite(x[0], e1, e2) } } } } }
    mk(op, rs, &[a, b], 0)
}
pub fn slt(a: T, b: T) -> T {
    if a == b { return F }
    let Sort::Bv(w) = sort(a) else { panic!("slt sort {} {}", show(a), show(b)) };
    let (x, y) = (rng(a), rng(b));
    if x.shi < y.slo { return TR } if x.slo >= y.shi { return F }
    // constant on the left: c < y  <=>  !(y < c+1)
    if let Some(c) = scval(a) { return not(slt(b, bv(w, (c + 1) as u128))) }
    let key = (Op::Slt, Sort::Bool, a, b, T(u32::MAX), 0);
    if let Some(r) = tt().cache.get(&key) { return *r }
    let r = (|| {
        if let Some(c) = scval(b) {
            // x + k < c  with no wrap
            if let Some((Op::Add, p, _)) = app(a) { if let Some(k) = scval(p[1]) { let r = rng(p[0]); let h = 1i128 << (w.min(126) - 1); if r.slo + k >= -h && r.shi + k < h && c - k >= -h && c - k < h { return slt(p[0], bv(w, (c - k) as u128)) } } }
            if let Some((Op::Sext, p, _)) = app(a) { let w0 = width(p[0]); let h = 1i128 << (w0 - 1); if c >= -h && c < h { return slt(p[0], bv(w0, c as u128)) } }
            if let Some((Op::Zext, p, _)) = app(a) { if c >= 0 { return ult(p[0], bv(width(p[0]), c as u128)) } }
            if let Some((Op::Neg, p, _)) = app(a) { let r = rng(p[0]); let h = 1i128 << (w.min(126) - 1); if r.slo > -h && c > -h { /* -x < c  <=> x > -c */ return slt(bv(w, (-c) as u128), p[0]) } }
            // boundary: x < lo+1  => x == lo ; x < hi => x != hi
            if c == x.slo + 1 { return eq(a, bv(w, x.slo as u128)) }
            if c == x.shi { return not(eq(a, bv(w, x.shi as u128))) }
        } else {
            let (pa, ka) = split_add(a); let (pb, kb) = split_add(b);
            if pa == pb && ka == 0 { let k = sx(kb, w); let r = rng(pa); let h = 1i128 << (w.min(126) - 1); if r.slo + k >= -h && r.shi + k < h { return boolc(0 < k) } }
            else if pa == pb && kb == 0 { let k = sx(ka, w); let r = rng(pa); let h = 1i128 << (w.min(126) - 1); if r.slo + k >= -h && r.shi + k < h { return boolc(k < 0) } }
        }
        push_ite_bool(Op::Slt, a, b)
    })();
    tt().cache.insert(key, r);
    r
}
fn push_ite_bool(op: Op, a: T, b: T) -> T {
    for i in 0..2 {
        let p = [a, b][i]; let q = [b, a][i];
        if let Some((Op::Ite, x, _)) = app(p) {
            let f = |z: T, z2: T| if i == 0 { bin(op, z, z2) } else { bin(op, z2, z) };
            if let Some((Op::Ite, y, _)) = app(q) { if y[0] == x[0] { let (e1, e2) = (f(x[1], y[1]), f(x[2], y[2])); return ite(x[0], e1, e2) } }
            let e1 = f(x[1], q);
            let e2 = f(x[2], q);
            if is_const(e1) || is_const(e2) || (is_const(q) && (is_const(x[1]) || is_const(x[2]))) || is_const(q) { return ite(x[0], e1, e2) }
        }
    }
    raw(op, Sort::Bool, &[a, b], 0)
}
pub fn ult(a: T, b: T) -> T {
    if a == b { return F }
    let Sort::Bv(w) = sort(a) else { panic!("ult sort {} {}", show(a), show(b)) };
    let (x, y) = (rng(a), rng(b));
    if x.uhi < y.ulo { return TR } if x.ulo >= y.uhi { return F }
    if w == 64 { if let Some(c) = cval(b) { if let Some(r) = count_ge(a, c) { return not(r) } } }
    if let Some(c) = cval(a) { return not(ult(b, bv(w, c + 1))) }
    let key = (Op::Ult, Sort::Bool, a, b, T(u32::MAX), 0);
    if let Some(r) = tt().cache.get(&key) { return *r }
    let r = (|| {
        if let Some(c) = cval(b) {
            if let Some((Op::Add, p, _)) = app(a) { if let Some(k) = cval(p[1]) { let r = rng(p[0]); let m = mask(w);
                if r.uhi.checked_add(k).map_or(false, |z| z <= m) && c >= k { return ult(p[0], bv(w, c - k)) }
                let nk = (m - k) + 1; // subtracting nk
                if k > m / 2 && r.ulo >= nk && c + nk <= m { return ult(p[0], bv(w, c + nk)) } } }
            if let Some((Op::Zext, p, _)) = app(a) { let w0 = width(p[0]); if c <= mask(w0) { return ult(p[0], bv(w0, c)) } }
            if c == x.ulo + 1 { return eq(a, bv(w, x.ulo)) }
            if c == x.uhi { return not(eq(a, bv(w, x.uhi))) }
        } else {
            let (pa, ka) = split_add(a); let (pb, kb) = split_add(b);
            if pa == pb { let m = mask(w); let r = rng(pa); if r.uhi.checked_add(ka).map_or(false, |z| z <= m) && r.uhi.checked_add(kb).map_or(false, |z| z <= m) { return boolc(ka < kb) } }
        }
        push_ite_bool(Op::Ult, a, b)
    })();
    tt().cache.insert(key, r);
    r
}
pub fn zext(a: T, w: u8) -> T {
    let w0 = width(a);
    if sort(a) == Sort::Bool { return ite(a, bv(w, 1), bv(w, 0)) }
    if w0 == w { return a }
    if w < w0 { return extract(a, 0, w) }
    if let Some((Op::Zext, p, _)) = app(a) { return zext(p[0], w) }
    mk(Op::Zext, Sort::Bv(w), &[a], 0)
}
pub fn sext(a: T, w: u8) -> T {
    let w0 = width(a);
    if w0 == w { return a }
    if w < w0 { return extract(a, 0, w) }
    if rng(a).slo >= 0 { return zext(a, w) }
    if let Some((Op::Sext, p, _)) = app(a) { return sext(p[0], w) }
    mk(Op::Sext, Sort::Bv(w), &[a], 0)
}
pub fn extract(a: T, lo: u32, w: u8) -> T {
    if lo == 0 && width(a) == w { return a }
    if lo == 0 {
        if let Some((o @ (Op::Zext | Op::Sext), p, _)) = app(a) {
            let w0 = width(p[0]);
            if w0 == w { return p[0] }
            if w0 > w { return extract(p[0], 0, w) }
            return if o == Op::Zext { zext(p[0], w) } else { sext(p[0], w) };
        }
        if let Some((Op::Add, p, _)) = app(a) { if is_const(p[1]) { return add(extract(p[0], 0, w), extract(p[1], 0, w)) } }
        if let Some((Op::Ite, p, _)) = app(a) { let (x, y) = (extract(p[1], 0, w), extract(p[2], 0, w)); return ite(p[0], x, y) }
    }
    mk(Op::Extract, Sort::Bv(w), &[a], lo)
}
pub fn un(op: Op, s: Sort, a: T) -> T {
    match op { Op::Neg => return neg(a), Op::Not => return not(a), Op::BNot if sort(a) == Sort::Bool => return not(a), _ => {} }
    mk(op, s, &[a], 0)
}
pub fn uf(name: &str, s: Sort, args: &[T]) -> T {
    let t = tt();
    let id = match t.ufs.iter().position(|x| x == name) { Some(i) => i, None => { t.ufs.push(name.to_string()); t.ufs.len() - 1 } };
    mk(Op::Uf, s, args, id as u32)
}
/// number of true guards as a 64 bit term
pub fn count(gs: &[T]) -> T {
    let mut k = 0u128; let mut acc: Option<T> = None;
    let w = if gs.len() < 15 { 4 } else if gs.len() < 250 { 8 } else { 16 };
    for g in gs { if *g == TR { k += 1 } else if *g != F { let x = ite(*g, bv(w, 1), bv(w, 0)); acc = Some(match acc { None => x, Some(a) => raw_add(a, x, w) }) } }
    match acc { None => bv(64, k), Some(a) => { let r = add(zext(a, 64), bv(64, k)); let v: Vec<T> = gs.iter().copied().filter(|g| *g != TR && *g != F).collect(); tt().counts.insert(r, (v, k)); r } }
}
/// `count` term a >= n, for small n
fn count_ge(a: T, n: u128) -> Option<T> {
    let (gs, k) = tt().counts.get(&a)?.clone();
    if n <= k { return Some(TR) }
    let n = (n - k) as usize;
    if n > gs.len() { return Some(F) }
    if let Some(r) = tt().atl.get(&(a, n as u32)) { return Some(*r) }
    let mono = gs.windows(2).all(|w| implied(w[1], true, w[0]) == Some(true));
    let r = if mono { gs[n - 1] } else if n == 1 { or_n(&gs) } else if n == gs.len() { and_n(&gs) } else if n <= 4 {
        let mut c = vec![F; n + 1]; c[0] = TR;
        for g in &gs { for j in (1..=n).rev() { c[j] = or(c[j], and(c[j - 1], *g)) } }
        c[n]
    } else { return None };
    tt().atl.insert((a, n as u32), r);
    Some(r)
}
fn raw_add(a: T, b: T, w: u8) -> T { raw(Op::Add, Sort::Bv(w), &[a, b], 0) }

pub fn show(t: T) -> String { show_d(t, 4) }
pub fn show_d(t: T, d: u32) -> String {
    match node(t) {
        N::C(Sort::Bool, v) => (if *v == 1 { "true" } else { "false" }).into(),
        N::C(Sort::Bv(w), v) => format!("{}", sx(*v, *w)),
        N::C(Sort::F32, v) => format!("{}f", f32v(*v)),
        N::C(Sort::F64, v) => format!("{}d", f64v(*v)),
        N::V(_, i) => tt().vars[*i as usize].name.clone(),
        N::A(o, _, a, _) => { if d == 0 { return format!("#{}", t.0) } format!("({:?} {})", o, a.iter().map(|x| show_d(*x, d - 1)).collect::<Vec<_>>().join(" ")) }
    }
}
/// Evaluate a term under a model (var id -> value; missing = 0)
pub fn eval(t: T, model: &FxMap<u32, u128>, memo: &mut FxMap<T, u128>) -> u128 {
    let mut stack = vec![t];
    while let Some(&x) = stack.last() {
        if memo.contains_key(&x) { stack.pop(); continue }
        match node(x) {
            N::C(_, v) => { memo.insert(x, *v); stack.pop(); }
            N::V(_, id) => { memo.insert(x, *model.get(id).unwrap_or(&0)); stack.pop(); }
            N::A(op, s, a, imm) => {
                let mut ready = true;
                for y in a.iter() { if !memo.contains_key(y) { stack.push(*y); ready = false } }
                if ready {
                    let vals: Vec<(Sort, u128)> = a.iter().map(|y| (sort(*y), memo[y])).collect();
                    let v = eval_op(*op, *s, &vals, *imm).unwrap_or(0);
                    memo.insert(x, v); stack.pop();
                }
            }
        }
    }
    memo[&t]
}
pub fn n_terms() -> usize { tt().nodes.len() }
