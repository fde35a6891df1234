//! Symbolic model of tch::Tensor values: concrete kind and shape, symbolic elements in a shared storage.
use std::collections::HashMap;
use crate::term::*;
use crate::val::*;
/// `idx[i]`: where the storage (heap cell `store`, a list) holds logical element i (row-major)
#[derive(Clone, Debug, PartialEq)]
pub struct Tensor { pub kind: u8, pub shape: Vec<i64>, pub idx: std::rc::Rc<Vec<u32>>, pub store: u32 }
/// a tensor's contents
#[derive(Clone, Debug)]
pub struct TL { pub kind: u8, pub shape: Vec<i64>, pub els: Vec<T> }
#[derive(Default)]
pub struct TState { pub net: Option<Val>, pub start: Option<Val>, pub calls: u32, pub tick: u64, pub stores: Vec<Option<T>>, pub files: HashMap<String, T>, pub acting: Option<T>, pub training: bool, pub names: HashMap<String, u32>, pub dirs: std::collections::HashSet<String>, pub log: Vec<(u8, Vec<TL>)>, pub disk: std::collections::HashMap<String, TL> }
pub fn same(a: &Tensor, b: &Tensor) -> bool { a == b }
pub fn mergeable(_: &Tensor, _: &Tensor) -> bool { false }
pub fn merge_t(_: T, a: &Tensor, _: &Tensor) -> R<Tensor> { Ok(a.clone()) }

pub const U8: u8 = 0; pub const I8: u8 = 1; pub const I16: u8 = 2; pub const I32: u8 = 3; pub const I64: u8 = 4; pub const FL: u8 = 6; pub const DB: u8 = 7; pub const BO: u8 = 11;
pub fn ksort(k: u8) -> R<Sort> { Ok(match k { U8 | I8 => Sort::Bv(8), I16 => Sort::Bv(16), I32 => Sort::Bv(32), I64 => Sort::Bv(64), FL => Sort::F32, DB => Sort::F64, BO => Sort::Bool, _ => return Err(format!("tensor kind {}", k)) }) }
pub fn isf(k: u8) -> bool { k == FL || k == DB }
pub fn numel(s: &[i64]) -> usize { s.iter().product::<i64>() as usize }
pub fn strides(s: &[i64]) -> Vec<usize> { let mut r = vec![1usize; s.len()]; for i in (0..s.len().saturating_sub(1)).rev() { r[i] = r[i + 1] * s[i + 1] as usize } r }
pub fn unravel(mut k: usize, s: &[i64]) -> Vec<usize> { let mut r = vec![0; s.len()]; for i in (0..s.len()).rev() { r[i] = k % s[i] as usize; k /= s[i] as usize } r }
pub fn fconst(so: Sort, v: f64) -> T { if so == Sort::F32 { f32c(v as f32) } else { f64c(v) } }
pub fn conv(x: T, from: u8, to: u8) -> R<T> {
    if from == to { return Ok(x) }
    let (a, b) = (ksort(from)?, ksort(to)?);
    if to == BO { return Ok(match a { Sort::Bv(w) => not(eq(x, bv(w, 0))), _ => not(mk(Op::FEq, Sort::Bool, &[x, fconst(a, 0.)], 0)) }) }
    if from == BO { return Ok(match b { Sort::Bv(w) => ite(x, bv(w, 1), bv(w, 0)), _ => ite(x, fconst(b, 1.), fconst(b, 0.)) }) }
    Ok(match (a, b) {
        (Sort::Bv(w), Sort::Bv(v)) => if v < w { extract(x, 0, v) } else if v == w { x } else if from == U8 { zext(x, v) } else { sext(x, v) },
        (Sort::Bv(_), _) => mk(if from == U8 { Op::UToF } else { Op::SToF }, b, &[x], 0),
        (_, Sort::Bv(_)) => mk(if to == U8 { Op::FToU } else { Op::FToS }, b, &[x], 0),
        _ => mk(Op::FToF, b, &[x], 0),
    })
}
/// shape of a broadcast
pub fn bshape(a: &[i64], b: &[i64]) -> R<Vec<i64>> {
    let n = a.len().max(b.len());
    (0..n).map(|i| { let d = |s: &[i64]| { let o = n - s.len(); if i < o { 1 } else { s[i - o] } }; let (x, y) = (d(a), d(b)); if x == y || y == 1 { Ok(x) } else if x == 1 { Ok(y) } else { Err(format!("P:shapes {:?} and {:?} do not broadcast", a, b)) } }).collect()
}
pub fn bget(t: &TL, shape: &[i64], k: usize) -> T {
    let u = unravel(k, shape); let o = shape.len() - t.shape.len(); let st = strides(&t.shape);
    let mut p = 0; for i in 0..t.shape.len() { if t.shape[i] != 1 { p += u[i + o] * st[i] } }
    t.els[p]
}
pub fn promote(a: &TL, b: &TL) -> R<u8> {
    if a.kind == b.kind { return Ok(a.kind) }
    let cat = |k: u8| if k == BO { 0 } else if isf(k) { 2 } else { 1 };
    let (ca, cb) = (cat(a.kind), cat(b.kind));
    if ca == cb && a.shape.is_empty() != b.shape.is_empty() { return Ok(if a.shape.is_empty() { b.kind } else { a.kind }) }
    if ca != cb { return Ok(if ca > cb { a.kind } else { b.kind }) }
    if (a.kind == U8) != (b.kind == U8) && ca == 1 { return Ok(if a.kind.max(b.kind) == I8 { I16 } else { a.kind.max(b.kind) }) }
    Ok(a.kind.max(b.kind))
}
