//! tch::Tensor operations and network stubs.
use crate::b_core::*;
use crate::exec::*;
use crate::ir::*;
use crate::ok;
use crate::tensor::*;
use crate::term::*;
use crate::val::*;
use rustc_public::CrateDef;
use rustc_public::ty::*;
use std::rc::Rc;

fn is_tensor(t: Ty) -> bool { match pointee(t) { Some(p) => is_tensor(p), None => adt_name(t).map(|n| n.starts_with("tch::") && n.ends_with("::Tensor")).unwrap_or(false) } }
fn kind_of(v: &Val) -> R<Option<u8>> {
    match v { Val::En(e) => { let k = cval(e.tag).ok_or("symbolic tensor kind")?; match e.pay.get(1) { Some(Some(p)) if k == 1 && !p.is_empty() => kind_of(&p[0]), _ => Ok(Some(k as u8)) } } Val::S(t) => Ok(Some(cval(*t).ok_or("kind")? as u8)), v => Err(format!("tensor kind {}", kind(v))) }
}
impl Eng {
    pub fn tnew(&mut self, st: &mut State, k: u8, shape: Vec<i64>, els: Vec<T>) -> Val {
        let n = els.len();
        let t = self.alloc(st, Val::L(ListV::dense(els.into_iter().map(Val::S).collect())));
        let store = match t.root { Root::Heap(h) => h, _ => unreachable!() };
        Val::Tn(Rc::new(Tensor { kind: k, shape, idx: Rc::new((0..n as u32).collect()), store }))
    }
    fn tload1(&self, st: &State, t: &Tensor) -> R<TL> {
        let l = st.heap.get(&t.store).ok_or("tensor storage")?.list()?; let s = l.s();
        let els: R<Vec<T>> = t.idx.iter().map(|i| s[*i as usize].v.t()).collect();
        Ok(TL { kind: t.kind, shape: t.shape.clone(), els: els? })
    }
    fn tval(&self, st: &State, v: &Val) -> R<Val> { match v { Val::P(_) => { let x = self.read_p(st, v)?; self.tval(st, &x) } Val::Agg(a) if a.len() == 1 => self.tval(st, &a[0]), v => Ok(v.clone()) } }
    pub fn tload(&self, st: &State, v: &Val) -> R<TL> {
        match self.tval(st, v)? {
            Val::Tn(t) => self.tload1(st, &t),
            Val::U(u) => {
                let mut acc: Option<TL> = None;
                for (g, x) in u.iter().rev() { let l = self.tload(st, x)?; acc = Some(match acc { None => l, Some(a) => { if a.shape != l.shape || a.kind != l.kind { return Err("tensor of symbolic shape".into()) } TL { kind: a.kind, shape: a.shape.clone(), els: l.els.iter().zip(&a.els).map(|(x, y)| ite(*g, *x, *y)).collect() } } }) }
                acc.ok_or("empty union".into())
            }
            v => Err(format!("expected tensor, got {}", kind(&v))),
        }
    }
    fn tone(&self, st: &State, v: &Val) -> R<Rc<Tensor>> { match self.tval(st, v)? { Val::Tn(t) => Ok(t), v => Err(format!("in-place use of {}", kind(&v))) } }
    fn tstore(&self, st: &mut State, t: &Tensor, els: &[T]) -> R<()> {
        let h = Rc::make_mut(&mut st.heap); let cell = h.get_mut(&t.store).ok_or("tensor storage")?;
        match cell { Val::L(l) => { let v = l.vec(); for (i, e) in t.idx.iter().zip(els) { v[*i as usize].v = Val::S(*e) } Ok(()) } _ => Err("tensor storage".into()) }
    }
    /// a list of element values that is certainly present; in a splitting run the guards are decided
    fn dense(&mut self, st: &mut State, v: &Val) -> R<Option<Vec<Val>>> {
        let x = match v { Val::P(_) => { let l = self.elem_ptrs(st, v)?; let mut o = vec![]; for s in l.s() { o.push(Slot { g: s.g, v: self.read_p(st, &s.v)? }) } ListV::new(o) } v => v.list()? };
        let mut out = vec![];
        for s in x.s() {
            let g = st.pc.simp(s.g);
            let g = if is_const(g) { g } else if self.split { match self.choose(st, &[g, not(g)])? { None => return Ok(None), Some(0) => TR, _ => F } } else { return Err("tensor from a list of symbolic length".into()) };
            if g == TR { out.push(s.v.clone()) }
        }
        Ok(Some(out))
    }
    fn cint(&mut self, st: &mut State, v: &Val) -> R<i64> {
        let t = match v { Val::P(_) => self.read_p(st, v)?.t()?, v => v.t()? };
        let t = if is_const(t) || !self.split { t } else { self.choose_idx(st, t)? };
        scval(t).map(|x| x as i64).ok_or_else(|| "symbolic tensor dimension".to_string())
    }
    fn ints(&mut self, st: &mut State, v: &Val) -> R<Vec<i64>> {
        match v { Val::S(_) => Ok(vec![self.cint(st, v)?]),
            Val::P(_) => { let x = self.read_p(st, v)?; match x { Val::S(_) => Ok(vec![self.cint(st, &x)?]), _ => { let l = self.dense(st, v)?.ok_or("dead")?; l.iter().map(|x| self.cint(st, x)).collect() } } }
            _ => { let l = self.dense(st, v)?.ok_or("dead")?; l.iter().map(|x| self.cint(st, x)).collect() } }
    }
    fn int_terms(&mut self, st: &mut State, v: &Val) -> R<Vec<T>> {
        match v { Val::S(t) => Ok(vec![*t]), Val::P(_) => { let x = self.read_p(st, v)?; match x { Val::S(t) => Ok(vec![t]), _ => { let l = self.dense(st, v)?.ok_or("dead")?; l.iter().map(|x| match x { Val::P(_) => self.read_p(st, x)?.t(), x => x.t() }).collect() } } } _ => { let l = self.dense(st, v)?.ok_or("dead")?; l.iter().map(|x| x.t()).collect() } }
    }
    /// tensors of a slice of tensors or references to tensors
    fn tlist(&mut self, st: &mut State, v: &Val) -> R<Option<Vec<TL>>> { match self.dense(st, v)? { None => Ok(None), Some(l) => { let r: R<Vec<TL>> = l.iter().map(|x| self.tload(st, x)).collect(); Ok(Some(r?)) } } }
    /// a scalar argument (`impl Into<Scalar>`): a 0-dim tensor of a wide kind
    fn scalar_arg(&self, st: &State, v: &Val) -> R<TL> {
        let t = match v { Val::P(_) => self.read_p(st, v)?.t()?, v => v.t()? };
        let (k, t) = match sort(t) { Sort::F32 => (DB, mk(Op::FToF, Sort::F64, &[t], 0)), Sort::F64 => (DB, t), Sort::Bool => (BO, t), Sort::Bv(w) => (I64, if w < 64 { sext(t, 64) } else { t }) };
        Ok(TL { kind: k, shape: vec![], els: vec![t] })
    }
    fn arith(&self, m: &str, a: &TL, b: &TL) -> R<TL> {
        let mut k = promote(a, b)?;
        // a Rust scalar does not widen a float tensor, and turns an integer tensor into the default float
        let cmp = matches!(m, "eq" | "ne" | "lt" | "le" | "gt" | "ge");
        if !cmp && m == "div" && !isf(k) { k = FL }
        if isf(k) && k == DB && (a.kind != DB || b.kind != DB) && (a.shape.is_empty() || b.shape.is_empty()) { let other = if a.shape.is_empty() { b } else { a }; if other.kind != DB { k = FL } }
        let shape = bshape(&a.shape, &b.shape)?; let so = ksort(k)?;
        let mut els = vec![];
        for i in 0..numel(&shape) {
            let (x, y) = (conv(bget(a, &shape, i), a.kind, k)?, conv(bget(b, &shape, i), b.kind, k)?);
            let fl = |o| mk(o, so, &[x, y], 0); let fc = |o, p, q| mk(o, Sort::Bool, &[p, q], 0);
            els.push(match (m, isf(k)) {
                ("add", true) => fl(Op::FAdd), ("sub", true) => fl(Op::FSub), ("mul", true) => fl(Op::FMul), ("div", true) => fl(Op::FDiv),
                ("add", _) if k != BO => add(x, y), ("sub", _) if k != BO => sub(x, y), ("mul", _) if k != BO => mul(x, y), ("mul", _) => and(x, y), ("add", _) => or(x, y),
                ("eq", true) => fc(Op::FEq, x, y), ("ne", true) => not(fc(Op::FEq, x, y)), ("lt", true) => fc(Op::FLt, x, y), ("le", true) => fc(Op::FLe, x, y), ("gt", true) => fc(Op::FLt, y, x), ("ge", true) => fc(Op::FLe, y, x),
                ("eq", _) => eq(x, y), ("ne", _) => not(eq(x, y)),
                ("lt" | "le" | "gt" | "ge", _) if k != BO => { let (p, q) = if m.starts_with('l') { (x, y) } else { (y, x) }; let l = |p, q| if k == U8 { ult(p, q) } else { slt(p, q) }; if m.ends_with('t') { l(p, q) } else { not(l(q, p)) } }
                ("max" | "maximum", true) => ite(fc(Op::FLt, x, y), y, x), ("min" | "minimum", true) => ite(fc(Op::FLt, y, x), y, x),
                ("pow", true) => fpow(so, x, y),
                _ => return Err(format!("tensor {} on kind {}", m, k)),
            });
        }
        Ok(TL { kind: if cmp { BO } else { k }, shape, els })
    }
    fn reduce(&self, t: &TL, dims: &[usize], keep: bool, kd: Option<u8>, m: &str) -> R<TL> {
        let k = kd.unwrap_or(if isf(t.kind) { t.kind } else { I64 }); let so = ksort(k)?;
        let shape: Vec<i64> = t.shape.iter().enumerate().filter_map(|(i, d)| if dims.contains(&i) { if keep { Some(1) } else { None } } else { Some(*d) }).collect();
        let mut els: Vec<Option<T>> = vec![None; numel(&shape)]; let mut cnt = vec![0usize; els.len()];
        let ost = strides(&shape);
        for (i, e) in t.els.iter().enumerate() {
            let u = unravel(i, &t.shape); let mut p = 0; let mut j = 0;
            for d in 0..t.shape.len() { if dims.contains(&d) { if keep { j += 1 } } else { p += u[d] * ost[j]; j += 1 } }
            let x = conv(*e, t.kind, k)?;
            cnt[p] += 1;
            els[p] = Some(match els[p] { None => x, Some(a) => match m { "max" | "amax" => ite(if isf(k) { mk(Op::FLt, Sort::Bool, &[a, x], 0) } else { slt(a, x) }, x, a), "min" | "amin" => ite(if isf(k) { mk(Op::FLt, Sort::Bool, &[x, a], 0) } else { slt(x, a) }, x, a), _ => if isf(k) { fadd(so, a, x) } else { add(a, x) } } });
        }
        let els: R<Vec<T>> = els.into_iter().zip(&cnt).map(|(e, n)| { let e = match e { Some(e) => e, None if m == "sum" => konst(so, 0), None => return Err("reduction of nothing".into()) }; Ok(if m == "mean" { mk(Op::FDiv, so, &[e, fconst(so, *n as f64)], 0) } else { e }) }).collect();
        Ok(TL { kind: k, shape, els: els? })
    }
    fn put(&mut self, st: &mut State, tl: TL) -> Val { self.tnew(st, tl.kind, tl.shape, tl.els) }
    /// rows selected by index tensors over the leading dimensions: (index terms per dimension, row shape)
    fn index_args(&mut self, st: &mut State, t: &TL, v: &Val) -> R<Option<(Vec<Vec<T>>, Vec<i64>)>> {
        let opts = match self.dense(st, v)? { None => return Ok(None), Some(l) => l };
        let mut ix = vec![];
        for (d, o) in opts.iter().enumerate() {
            let o = match o { Val::P(_) => self.read_p(st, o)?, o => o.clone() };
            if is_variant(&o, 1)? != TR { return Err("index with None".into()) }
            let l = self.tload(st, &payload(&o, 1)?[0])?;
            if isf(l.kind) || l.kind == BO || l.shape.len() > 1 { return Err("index tensor".into()) }
            let n = t.shape.get(d).copied().ok_or("P:too many indices")?;
            let mut v = vec![];
            for e in &l.els {
                let e = conv(*e, l.kind, I64)?; let nt = usz(n as u64);
                if !self.must(st, and(not(slt(e, usz(-n as u64))), slt(e, nt)), "tensor index is out of range") { return Ok(None) }
                v.push(st.pc.simp(slt(e, usz(0))).pipe2(e, nt));
            }
            ix.push(v);
        }
        let n = ix.iter().map(|v| v.len()).max().unwrap_or(0);
        for v in ix.iter_mut() { if v.len() != n { if v.len() == 1 { *v = vec![v[0]; n] } else { return Err("P:index tensors of different lengths".into()) } } }
        Ok(Some((ix, t.shape[opts.len()..].to_vec())))
    }
    fn index_put(&mut self, st: &mut State, t: &TL, ixv: &Val, vals: &TL, acc: T) -> R<Option<Vec<T>>> {
        let (ix, rest) = match self.index_args(st, t, ixv)? { None => return Ok(None), Some(x) => x };
        if vals.kind != t.kind { return Err("P:index_put_ requires the source and destination dtypes match".into()) }
        let acc = cval(acc).ok_or("index_put accumulate")? == 1;
        let rn = numel(&rest); let n = ix.get(0).map(|v| v.len()).unwrap_or(0);
        let mut vs = vec![n as i64]; vs.extend(&rest);
        if bshape(&vs, &vals.shape)? != vs { return Err("P:index_put shapes".into()) }
        let lead = &t.shape[..ix.len()]; let ln = numel(lead);
        let mut els = t.els.clone(); let so = ksort(t.kind)?;
        for j in 0..n {
            for r in 0..ln {
                let u = unravel(r, lead);
                let c = and_n(&u.iter().zip(&ix).map(|(x, v)| eq(v[j], usz(*x as u64))).collect::<Vec<_>>());
                if c == F { continue }
                for k in 0..rn { let p = r * rn + k; let x = bget(vals, &vs, j * rn + k); let x = if acc { if isf(t.kind) { mk(Op::FAdd, so, &[els[p], x], 0) } else { add(els[p], x) } } else { x }; els[p] = ite(c, x, els[p]) }
            }
        }
        Ok(Some(els))
    }
    fn dim(&self, t: &TL, d: i64) -> R<usize> { let n = t.shape.len() as i64; let e = if d < 0 { d + n } else { d }; if e < 0 || e >= n.max(1) { Err(format!("P:dimension {} of a tensor with {}", d, n)) } else { Ok(e as usize) } }
    /// a view: same storage, other shape
    fn tview(&self, t: &Tensor, shape: Vec<i64>, idx: Vec<u32>) -> Val { Val::Tn(Rc::new(Tensor { kind: t.kind, shape, idx: Rc::new(idx), store: t.store })) }
}
trait Pipe2 { fn pipe2(self, e: T, n: T) -> T; }
impl Pipe2 for T { fn pipe2(self, e: T, n: T) -> T { ite(self, add(e, n), e) } }
pub fn fadd(so: Sort, a: T, b: T) -> T { mk(Op::FAdd, so, &[a, b], 0) }
fn fpow(so: Sort, x: T, y: T) -> T {
    match cval(y) { Some(k) => { let v = if so == Sort::F32 { f32v(k) as f64 } else { f64v(k) }; if v == 1.0 { return x } if v == 2.0 { return mk(Op::FMul, so, &[x, x], 0) } if v == 0.5 { return un(Op::FSqrt, so, x) } } None => {} }
    uf(if so == Sort::F32 { "powf_32" } else { "powf_64" }, so, &[x, y])
}
impl Eng {
    pub fn b_tensor(&mut self, mut st: State, cx: &Cx) -> B {
        let n: &str = &cx.c.name;
        let (cl, m) = match n.rsplit_once("::") { Some(x) => x, None => return Ok(Err(st)) };
        let tch = cl.contains("tch::") || cl == "tch";
        let tensor_self = || cx.self_ty().map(is_tensor).unwrap_or(false) || cx.tys.iter().any(|t| is_tensor(*t)) || is_tensor(cx.dty);
        let ops = matches!(cl, "std::ops::Add" | "std::ops::Sub" | "std::ops::Mul" | "std::ops::Div" | "std::ops::Neg" | "std::ops::AddAssign" | "std::ops::SubAssign" | "std::ops::MulAssign" | "std::ops::DivAssign" | "std::convert::From" | "std::convert::Into" | "std::convert::TryFrom" | "std::convert::TryInto" | "std::clone::Clone" | "std::borrow::Borrow" | "std::convert::AsRef");
        if n.starts_with("die_e::alphazero::nnet::ResNet::") { return self.b_net(st, cx, m) }
        if !(tch || ops && tensor_self()) { return Ok(Err(st)) }
        let save = st.clone();
        match self.tensor_op(st, cx, cl, m) {
            Err(e) if e.starts_with("P:") => { st = save; let _ = self.must(&mut st, F, &e[2..]); Ok(Ok(None)) }
            r => r,
        }
    }
    fn tensor_op(&mut self, mut st: State, cx: &Cx, cl: &str, m: &str) -> B {
        let a = cx.args;
        macro_rules! tn { ($k:expr, $s:expr, $e:expr) => { { let v = self.tnew(&mut st, $k, $s, $e); ok!(st, v) } } }
        macro_rules! pt { ($l:expr) => { { let l = $l; let v = self.put(&mut st, l); ok!(st, v) } } }
        let ret = |s: State, v: Val| -> B { Ok(Ok(Some((s, v)))) };
        // operators
        if cl.starts_with("std::ops::") {
            let arg = |e: &Eng, st: &State, i: usize| -> R<TL> { if is_tensor(cx.tys[i]) { e.tload(st, &a[i]) } else { e.scalar_arg(st, &a[i]) } };
            let x = arg(self, &st, 0)?;
            if m == "neg" { let so = ksort(x.kind)?; let els = x.els.iter().map(|e| if isf(x.kind) { un(Op::FNeg, so, *e) } else { neg(*e) }).collect(); tn!(x.kind, x.shape, els) }
            let y = arg(self, &st, 1)?;
            if let Some(o) = m.strip_suffix("_assign") { let r = self.arith(o, &x, &y)?; return self.inplace(st, &a[0], r, false) }
            pt!(self.arith(m, &x, &y)?)
        }
        if cl.starts_with("std::borrow") || cl.starts_with("std::convert::AsRef") { ok!(st, a[0].clone()) }
        if cl.starts_with("std::clone") { let l = self.tload(&st, &a[0])?; pt!(l) }
        if cl.starts_with("std::convert") {
            if !is_tensor(cx.dty) { 
                // Tensor -> number or Vec
                let l = self.tload(&st, &a[0])?;
                if let Some(so) = sk_sort(scal(cx.dty)) { if l.els.len() == 1 { let x = conv(l.els[0], l.kind, match so { Sort::F32 => FL, Sort::F64 => DB, Sort::Bv(64) => I64, Sort::Bv(32) => I32, Sort::Bool => BO, _ => return Err("number from tensor".into()) })?; ok!(st, Val::S(x)) } }
                return Err(format!("conversion of a tensor to {}", cx.dty));
            }
            if is_tensor(cx.tys[0]) { ok!(st, a[0].clone()) }
            return self.from_data(st, cx, true)
        }
        // constructors and free functions
        match m {
            "from_slice" | "of_slice" => return self.from_data(st, cx, false),
            "no_grad_guard" | "no_grad_guard_" => ok!(st, Val::Op(31)),
            "manual_seed" => ok!(st, unit()),
            "full" | "zeros" | "ones" | "arange" | "eye" | "empty" => {
                let opts = a.last().unwrap(); let k = match opts { Val::Agg(v) if v.len() == 2 => kind_of(&v[0])?.ok_or("kind")?, _ => return Err("tensor options".into()) };
                let so = ksort(k)?;
                if m == "arange" { let n = self.cint(&mut st, &a[0])?; let els: R<Vec<T>> = (0..n).map(|i| conv(usz(i as u64), I64, k)).collect(); tn!(k, vec![n], els?) }
                let shape = self.ints(&mut st, &a[0])?;
                let v = match m { "full" => { let s = self.scalar_arg(&st, &a[1])?; conv(s.els[0], s.kind, k)? } "zeros" => konst(so, 0), "ones" => conv(TR, BO, k)?, _ => return Err(format!("Tensor::{}", m)) };
                let n = numel(&shape); tn!(k, shape, vec![v; n])
            }
            "cat" | "concat" | "stack" | "vstack" => {
                let ls = match self.tlist(&mut st, &a[0])? { None => return Ok(Ok(None)), Some(l) => l };
                let d = if m == "vstack" { 0 } else { self.cint(&mut st, &a[1])? };
                return match self.join(&ls, d, m == "stack") { Ok(l) => { let v = self.put(&mut st, l); ret(st, v) } Err(e) => Err(e) };
            }
            _ => {}
        }
        if cl.contains("::nn::") || cl.contains("nn::") { return self.b_nn(st, cx, cl, m) }
        if a.is_empty() { return Err(format!("tch function {}", cx.c.name)) }
        if m == "load" { let k = self.path_key(&st, &a[0])?; let l = match self.tstate.disk.get(&k) { Some(l) => l.clone(), None => ok!(st, en(1, vec![Val::Op(6)])) }; let mut st = st; let v = self.put(&mut st, l); ok!(st, en(0, vec![v])) }
        if !is_tensor(cx.tys[0]) { return self.b_nn(st, cx, cl, m) }
        // methods
        let tv = self.tval(&st, &a[0])?;
        let one = match &tv { Val::Tn(t) => Some(t.clone()), _ => None };
        let l = self.tload(&st, &a[0])?;
        let nd = l.shape.len();
        // views
        macro_rules! view { ($shape:expr, $map:expr) => { { let (shape, map): (Vec<i64>, Vec<usize>) = ($shape, $map); match &one { Some(t) => { let idx = map.iter().map(|i| t.idx[*i]).collect(); let v = self.tview(t, shape, idx); ok!(st, v) } None => { let els = map.iter().map(|i| l.els[*i]).collect(); tn!(l.kind, shape, els) } } } } }
        let flat: Vec<usize> = (0..l.els.len()).collect();
        match m {
            "shallow_clone" | "to_device" | "contiguous" | "detach" | "set_requires_grad" | "requires_grad_" | "to" | "cpu" | "data" => ok!(st, tv),
            "copy" | "clone" | "detach_copy" => pt!(l),
            "size" | "size1" | "size2" | "size3" | "size4" => { let v = Val::L(ListV::dense(l.shape.iter().map(|d| Val::S(usz(*d as u64))).collect())); if m == "size" { ok!(st, v) } Err("sizeN".into()) }
            "dim" => ok!(st, vusz(nd)),
            "numel" => ok!(st, vusz(l.els.len())),
            "kind" => ok!(st, en(l.kind as u32, vec![])),
            "device" => ok!(st, en(0, vec![])),
            "defined" => ok!(st, sb(true)),
            "view" | "reshape" => {
                let mut s = self.ints(&mut st, &a[1])?; let n = l.els.len() as i64;
                if let Some(p) = s.iter().position(|d| *d == -1) { let k: i64 = s.iter().filter(|d| **d != -1).product(); if k == 0 || n % k != 0 { return Err(format!("P:shape {:?} is invalid for {} elements", s, n)) } s[p] = n / k }
                if s.iter().any(|d| *d < 0) || s.iter().product::<i64>() != n { return Err(format!("P:shape {:?} is invalid for {} elements", s, n)) }
                view!(s, flat)
            }
            "flatten" => { let (x, y) = (self.cint(&mut st, &a[1])?, self.cint(&mut st, &a[2])?); let (x, y) = (self.dim(&l, x)?, self.dim(&l, y)?); let mut s = l.shape[..x].to_vec(); s.push(l.shape[x..=y].iter().product()); s.extend(&l.shape[y + 1..]); view!(s, flat) }
            "unsqueeze" => { let d = self.cint(&mut st, &a[1])?; let d = if d < 0 { d + nd as i64 + 1 } else { d }; if d < 0 || d > nd as i64 { return Err("P:unsqueeze dimension".into()) } let mut s = l.shape.clone(); s.insert(d as usize, 1); view!(s, flat) }
            "squeeze" => { let s = l.shape.iter().copied().filter(|d| *d != 1).collect(); view!(s, flat) }
            "squeeze_dim" => { let d = self.cint(&mut st, &a[1])?; let mut s = l.shape.clone(); if nd > 0 { let d = self.dim(&l, d)?; if s[d] == 1 { s.remove(d); } } view!(s, flat) }
            "permute" | "transpose" | "swapaxes" | "tr" | "t_" => {
                let p: Vec<usize> = if m == "permute" { let v = self.ints(&mut st, &a[1])?; let r: R<Vec<usize>> = v.iter().map(|d| self.dim(&l, *d)).collect(); r? } else { let (x, y) = (self.cint(&mut st, &a[1])?, self.cint(&mut st, &a[2])?); let (x, y) = (self.dim(&l, x)?, self.dim(&l, y)?); let mut p: Vec<usize> = (0..nd).collect(); p.swap(x, y); p };
                let mut q = p.clone(); q.sort(); if q != (0..nd).collect::<Vec<_>>() { return Err("P:permute dimensions".into()) }
                let s: Vec<i64> = p.iter().map(|d| l.shape[*d]).collect(); let os = strides(&l.shape);
                let map = (0..l.els.len()).map(|k| { let u = unravel(k, &s); u.iter().zip(&p).map(|(x, d)| x * os[*d]).sum() }).collect();
                view!(s, map)
            }
            "get" | "select" => {
                let (d, i) = if m == "get" { (0, &a[1]) } else { let d = self.cint(&mut st, &a[1])?; (self.dim(&l, d)?, &a[2]) };
                if nd == 0 { return Err("P:get of a 0-dim tensor".into()) }
                let i = self.cint(&mut st, i)?; let n = l.shape[d]; if i >= n || i < -n { return Err(format!("P:index {} is out of bounds for size {}", i, n)) }
                let i = if i < 0 { i + n } else { i } as usize;
                let mut s = l.shape.clone(); s.remove(d);
                let map = (0..l.els.len()).filter(|k| unravel(*k, &l.shape)[d] == i).collect();
                view!(s, map)
            }
            "narrow" | "slice" => {
                let d = self.cint(&mut st, &a[1])?; let d = self.dim(&l, d)?; let s = self.cint(&mut st, &a[2])?; let k = self.cint(&mut st, &a[3])?;
                if m == "slice" { return Err("Tensor::slice".into()) }
                if s < 0 || k < 0 || s + k > l.shape[d] { return Err("P:narrow out of range".into()) }
                let mut sh = l.shape.clone(); sh[d] = k; let map = (0..l.els.len()).filter(|x| { let u = unravel(*x, &l.shape)[d] as i64; u >= s && u < s + k }).collect();
                view!(sh, map)
            }
            "unbind" => { let d = self.cint(&mut st, &a[1])?; let d = self.dim(&l, d)?; let mut out = vec![]; for i in 0..l.shape[d] as usize { let mut s = l.shape.clone(); s.remove(d); let map: Vec<usize> = (0..l.els.len()).filter(|k| unravel(*k, &l.shape)[d] == i).collect(); let v = match &one { Some(t) => self.tview(t, s, map.iter().map(|i| t.idx[*i]).collect()), None => return Err("unbind".into()) }; out.push(v) } ok!(st, Val::L(ListV::dense(out))) }
            "expand" => { let s = self.ints(&mut st, &a[1])?; let s2 = bshape(&s, &l.shape)?; let pos = TL { kind: I64, shape: l.shape.clone(), els: (0..l.els.len()).map(|i| usz(i as u64)).collect() }; let map = (0..numel(&s2)).map(|k| cval(bget(&pos, &s2, k)).unwrap() as usize).collect(); view!(s2, map) }
            "to_kind" | "to_dtype" | "totype" | "to_device_" => {
                let k = kind_of(if m == "to_device_" { &a[2] } else { &a[1] })?.ok_or("kind")?;
                let copy = a.last().map(|v| v.t().ok() == Some(TR)).unwrap_or(false) && m != "to_kind";
                if k == l.kind && !copy { ok!(st, tv) }
                let els: R<Vec<T>> = l.els.iter().map(|e| conv(*e, l.kind, k)).collect(); tn!(k, l.shape, els?)
            }
            "zeros_like" | "ones_like" | "empty_like" => { let v = conv(boolc(m == "ones_like"), BO, l.kind)?; let n = l.els.len(); tn!(l.kind, l.shape, vec![v; n]) }
            "full_like" => { let s = self.scalar_arg(&st, &a[1])?; let v = conv(s.els[0], s.kind, l.kind)?; let n = l.els.len(); tn!(l.kind, l.shape, vec![v; n]) }
            "double_value" | "int64_value" | "f_double_value" | "f_int64_value" => {
                let ix = self.int_terms(&mut st, &a[1])?;
                if ix.len() != nd && !(ix.len() < nd && numel(&l.shape[ix.len()..]) == 1) { return Err(format!("P:{} indices into a tensor of shape {:?}", ix.len(), l.shape)) }
                let s = strides(&l.shape); let mut els: Vec<(T, usize)> = vec![(TR, 0)];
                for (d, i) in ix.iter().enumerate() {
                    let nn = l.shape[d] as u64; let i = if width(*i) < 64 { sext(*i, 64) } else { *i };
                    if !self.must(&mut st, and(not(slt(i, usz((nn as i64).wrapping_neg() as u64))), slt(i, usz(nn))), "tensor index is out of range") { return Ok(Ok(None)) }
                    let i = ite(st.pc.simp(slt(i, usz(0))), add(i, usz(nn)), i);
                    let mut nx = vec![];
                    for (g, p) in &els { for k in 0..nn { let c = eq(i, usz(k)); if c != F { nx.push((and(*g, c), p + k as usize * s[d])) } } }
                    els = nx;
                }
                let (last, init) = els.split_last().ok_or("empty tensor")?; let mut acc = l.els[last.1]; for (g, p) in init.iter().rev() { acc = ite(*g, l.els[*p], acc) }
                let v = conv(acc, l.kind, if m.contains("double") { DB } else { I64 })?;
                ok!(st, if m.starts_with("f_") { en(0, vec![Val::S(v)]) } else { Val::S(v) })
            }
            "is_nonzero" => { if l.els.len() != 1 { return Err("P:is_nonzero of a tensor with several elements".into()) } let v = conv(l.els[0], l.kind, BO)?; ok!(st, Val::S(v)) }
            "iter" => {
                let et = cx.ga(0)?; let k = match sk_sort(scal(et)).ok_or("iter type")? { Sort::F64 => DB, Sort::F32 => FL, Sort::Bv(64) => I64, _ => return Err("tensor iter type".into()) };
                if nd != 1 { return Err("P:iterator over a tensor that is not one-dimensional".into()) }
                let els: R<Vec<Val>> = l.els.iter().map(|e| Ok(Val::S(conv(*e, l.kind, k)?))).collect();
                ok!(st, en(0, vec![Val::L(ListV::dense(els?))]))
            }
            "isnan" | "isinf" | "isfinite" | "logical_not" => {
                let so = ksort(l.kind)?;
                let els = l.els.iter().map(|e| if m == "logical_not" { return conv(*e, l.kind, BO).map(not) } else if !isf(l.kind) { Ok(boolc(m == "isfinite")) } else { let inf = fconst(so, f64::INFINITY); let ab = un(Op::FAbs, so, *e); Ok(match m { "isnan" => mk(Op::FIsNan, Sort::Bool, &[*e], 0), "isinf" => mk(Op::FEq, Sort::Bool, &[ab, inf], 0), _ => mk(Op::FLt, Sort::Bool, &[ab, inf], 0) }) }).collect::<R<Vec<T>>>()?;
                tn!(BO, l.shape, els)
            }
            "any" | "all" => { let b: R<Vec<T>> = l.els.iter().map(|e| conv(*e, l.kind, BO)).collect(); let b = b?; tn!(BO, vec![], vec![if m == "any" { or_n(&b) } else { and_n(&b) }]) }
            "abs" | "sqrt" | "exp" | "log" | "tanh" | "relu" | "neg" | "negative" | "square" | "sigmoid" => {
                let so = ksort(l.kind)?; if !isf(l.kind) { return Err(format!("tensor {} of integers", m)) }
                let els = l.els.iter().map(|e| match m { "abs" => un(Op::FAbs, so, *e), "sqrt" => un(Op::FSqrt, so, *e), "neg" | "negative" => un(Op::FNeg, so, *e), "square" => mk(Op::FMul, so, &[*e, *e], 0), "relu" => ite(mk(Op::FLt, Sort::Bool, &[*e, fconst(so, 0.)], 0), fconst(so, 0.), *e), _ => uf(&format!("t{}_{}", m, width(*e)), so, &[*e]) }).collect();
                tn!(l.kind, l.shape, els)
            }
            "sum" | "mean" => { let k = kind_of(&a[1])?; let k = if is_none(&a[1]) { None } else { k }; let d: Vec<usize> = (0..nd).collect(); pt!(self.reduce(&l, &d, false, k, m)?) }
            "sum_dim_intlist" | "mean_dim" | "amax" | "amin" => {
                let d = self.opt_ints(&mut st, &a[1])?; let d: Vec<usize> = match d { Some(v) if !v.is_empty() => { let r: R<Vec<usize>> = v.iter().map(|x| self.dim(&l, *x)).collect(); r? } _ => (0..nd).collect() };
                let keep = cval(a[2].t()?).ok_or("keepdim")? == 1; let k = match a.get(3) { Some(v) if !is_none(v) => kind_of(v)?, _ => None };
                pt!(self.reduce(&l, &d, keep, k, match m { "sum_dim_intlist" => "sum", "mean_dim" => "mean", m => m })?)
            }
            "max" | "min" if a.len() == 1 => { let d: Vec<usize> = (0..nd).collect(); pt!(self.reduce(&l, &d, false, Some(l.kind), m)?) }
            "softmax" => { let d = self.cint(&mut st, &a[1])?; let d = self.dim(&l, d)?; let so = ksort(l.kind)?; let e = TL { kind: l.kind, shape: l.shape.clone(), els: l.els.iter().map(|x| uf(&format!("exp_{}", width(*x)), so, &[*x])).collect() }; let s = self.reduce(&e, &[d], true, None, "sum")?; pt!(self.arith("div", &e, &s)?) }
            "eq" | "ne" | "lt" | "le" | "gt" | "ge" | "pow" | "eq_tensor" | "ne_tensor" | "lt_tensor" | "le_tensor" | "gt_tensor" | "ge_tensor" | "add" | "sub" | "mul" | "div" | "g_add" | "g_sub" | "g_mul" | "g_div" | "divide" | "multiply" | "subtract" | "g_add_scalar" | "g_sub_scalar" | "g_mul_scalar" | "g_div_scalar" | "divide_scalar" | "multiply_scalar" | "subtract_scalar" | "pow_tensor_scalar" | "maximum" | "minimum" | "greater" | "less" => {
                let o = opname(m); let y = if is_tensor(cx.tys[1]) { self.tload(&st, &a[1])? } else { self.scalar_arg(&st, &a[1])? };
                pt!(self.arith(o, &l, &y)?)
            }
            "pow_" | "g_add_" | "g_sub_" | "g_mul_" | "g_div_" | "divide_" | "multiply_" | "subtract_" | "g_add_scalar_" | "g_sub_scalar_" | "g_mul_scalar_" | "g_div_scalar_" | "divide_scalar_" | "multiply_scalar_" | "subtract_scalar_" => {
                let y = if is_tensor(cx.tys[1]) { self.tload(&st, &a[1])? } else { self.scalar_arg(&st, &a[1])? };
                let r = self.arith(opname(m.trim_end_matches('_')), &l, &y)?; self.inplace(st, &a[0], r, true)
            }
            "fill_" | "zero_" => { let v = if m == "zero_" { konst(ksort(l.kind)?, 0) } else { let s = self.scalar_arg(&st, &a[1])?; conv(s.els[0], s.kind, l.kind)? }; let mut r = l.clone(); for e in r.els.iter_mut() { *e = v } self.inplace(st, &a[0], r, true) }
            "copy_" => { let y = self.tload(&st, &a[1])?; let mut r = l.clone(); for i in 0..r.els.len() { r.els[i] = conv(bget(&y, &l.shape, i), y.kind, l.kind)? } self.inplace(st, &a[0], r, false) }
            "index" => {
                let (ix, rest) = match self.index_args(&mut st, &l, &a[1])? { None => return Ok(Ok(None)), Some(x) => x };
                let n = ix.get(0).map(|v| v.len()).unwrap_or(0); let rn = numel(&rest); let lead: Vec<i64> = l.shape[..ix.len()].to_vec();
                let mut els = vec![];
                for j in 0..n { for k in 0..rn {
                    let mut acc: Option<T> = None;
                    for r in (0..numel(&lead)).rev() { let u = unravel(r, &lead); let c = and_n(&u.iter().zip(&ix).map(|(x, v)| eq(v[j], usz(*x as u64))).collect::<Vec<_>>()); if c == F { continue } let x = l.els[r * rn + k]; acc = Some(match acc { None => x, Some(y) => ite(c, x, y) }) }
                    els.push(acc.ok_or("P:index out of range")?)
                } }
                let mut s = vec![n as i64]; s.extend(rest); tn!(l.kind, s, els)
            }
            "index_select" => { let d = self.cint(&mut st, &a[1])?; if d != 0 { return Err("index_select dim".into()) } Err("index_select".into()) }
            "masked_fill" | "masked_fill_" => { let mk_ = self.tload(&st, &a[1])?; let s = self.scalar_arg(&st, &a[2])?; let v = conv(s.els[0], s.kind, l.kind)?; let mut r = l.clone(); for i in 0..r.els.len() { r.els[i] = ite(bget(&mk_, &l.shape, i), v, r.els[i]) } if m.ends_with('_') { return self.inplace(st, &a[0], r, true) } pt!(r) }
            "where_self" => { let x = self.tload(&st, &a[1])?; Err(format!("where {:?}", x.shape)) }
            "index_put" | "index_put_" => {
                let vals = self.tload(&st, &a[2])?; let acc = a[3].t()?;
                match self.index_put(&mut st, &l, &a[1], &vals, acc)? { None => Ok(Ok(None)), Some(els) => { let r = TL { kind: l.kind, shape: l.shape.clone(), els }; if m == "index_put" { pt!(r) } self.inplace(st, &a[0], r, true) } }
            }
            "argmax" => { if nd != 1 { return Err("argmax shape".into()) } let mut bi = usz(0); let mut b = l.els[0]; for i in 1..l.els.len() { let c = if isf(l.kind) { mk(Op::FLt, Sort::Bool, &[b, l.els[i]], 0) } else { slt(b, l.els[i]) }; bi = ite(c, usz(i as u64), bi); b = ite(c, l.els[i], b) } tn!(I64, vec![], vec![bi]) }
            "cross_entropy_loss" | "mse_loss" => { let v = self.fresh_var("loss", Sort::F32, None); let z = f32c(0.0); let hi = f32c(1e6); if !st.pc.push(and(mk(Op::FLe, Sort::Bool, &[z, v], 0), mk(Op::FLe, Sort::Bool, &[v, hi], 0))) { return Ok(Ok(None)) } 
                let y = self.tload(&st, &a[1])?; if m == "mse_loss" && y.shape != l.shape || m != "mse_loss" && y.shape != l.shape { return Err(format!("P:{} of shapes {:?} and {:?}", m, l.shape, y.shape)) }
                if y.kind != l.kind { return Err(format!("P:{} of different kinds", m)) }
                let lg = if m == "mse_loss" { 2 } else { 1 }; let out = TL { kind: FL, shape: vec![], els: vec![v] }; self.tstate.log.push((lg, vec![l.clone(), y, out]));
                tn!(FL, vec![], vec![v]) }
            "backward" => { self.tstate.log.push((3, vec![l.clone()])); ok!(st, unit()) }
            "save" => { let k = self.path_key(&st, &a[1])?; self.tstate.disk.insert(k, l.clone()); ok!(st, en(0, vec![unit()])) }
            "print" => ok!(st, unit()),
            _ => Err(format!("Tensor::{}", m)),
        }
    }
    fn opt_ints(&mut self, st: &mut State, v: &Val) -> R<Option<Vec<i64>>> { match v { Val::En(_) => { let g = is_variant(v, 1)?; if g == TR { self.opt_ints(st, &payload(v, 1)?[0].clone()) } else if g == F { Ok(None) } else { Err("symbolic option".into()) } } v => Ok(Some(self.ints(st, v)?)) } }
    /// an in-place operation: `a0` is (a pointer to) the tensor, the result is written through its storage
    fn inplace(&mut self, mut st: State, a0: &Val, r: TL, result: bool) -> B {
        let t = self.tone(&st, a0)?;
        if r.shape != t.shape { return Err("P:in-place operation changes the shape".into()) }
        let els: R<Vec<T>> = r.els.iter().map(|e| conv(*e, r.kind, t.kind)).collect();
        self.tstore(&mut st, &t, &els?)?;
        ok!(st, if result { Val::Tn(t) } else { unit() })
    }
    fn from_data(&mut self, mut st: State, cx: &Cx, from: bool) -> B {
        let a = &cx.args[0]; let ty = cx.tys[0];
        let et = |t: Ty| -> Option<u8> { match t.kind() { TyKind::RigidTy(RigidTy::Bool) => Some(BO), TyKind::RigidTy(RigidTy::Float(FloatTy::F32)) => Some(FL), TyKind::RigidTy(RigidTy::Float(FloatTy::F64)) => Some(DB), TyKind::RigidTy(RigidTy::Int(i)) => Some(match i { IntTy::I8 => I8, IntTy::I16 => I16, IntTy::I32 => I32, IntTy::I64 => I64, _ => return None }), TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) => Some(U8), _ => None } };
        if from { if let (Some(k), Ok(t)) = (et(ty), a.t()) { let v = self.tnew(&mut st, k, vec![], vec![t]); ok!(st, v) } }
        fn elem(t: Ty) -> Option<Ty> { match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) => elem(t), TyKind::RigidTy(RigidTy::Array(t, _) | RigidTy::Slice(t)) => Some(t), TyKind::RigidTy(RigidTy::Adt(_, a)) => garg_ty(&a, 0), _ => None } }
        let k = elem(ty).and_then(|t| et(t)).or(cx.ga(0).ok().and_then(|t| et(t))).ok_or_else(|| format!("tensor from {}", ty))?;
        let l = match self.dense(&mut st, a)? { None => return Ok(Ok(None)), Some(l) => l };
        let els: R<Vec<T>> = l.iter().map(|x| x.t()).collect(); let els = els?; let n = els.len() as i64;
        let v = self.tnew(&mut st, k, vec![n], els); ok!(st, v)
    }
    fn join(&mut self, ls: &[TL], d: i64, stack: bool) -> R<TL> {
        let f = ls.first().ok_or("P:expected a non-empty list of tensors")?; let k = ls.iter().try_fold(f.kind, |k, l| promote(&TL { kind: k, shape: f.shape.clone(), els: vec![] }, l))?;
        let nd = f.shape.len() as i64 + if stack { 1 } else { 0 }; let d = if d < 0 { d + nd } else { d }; if d < 0 || d >= nd { return Err("P:dimension out of range".into()) } let d = d as usize;
        let mut shape = f.shape.clone();
        let part = |l: &TL| -> R<Vec<i64>> { let mut s = l.shape.clone(); if stack { s.insert(d, 1) } Ok(s) };
        if stack { shape.insert(d, 0) } else { shape[d] = 0 }
        for l in ls { let s = part(l)?; if s.len() != shape.len() || s.iter().zip(&shape).enumerate().any(|(i, (x, y))| i != d && x != y) { return Err(format!("P:sizes {:?} and {:?} of joined tensors differ", f.shape, l.shape)) } shape[d] += s[d] }
        let mut els = vec![F; numel(&shape)]; let st = strides(&shape); let mut off = 0usize;
        for l in ls { let s = part(l)?; for (i, e) in l.els.iter().enumerate() { let mut u = unravel(i, &s); u[d] += off; let p: usize = u.iter().zip(&st).map(|(x, y)| x * y).sum(); els[p] = conv(*e, l.kind, k)? } off += s[d] as usize }
        Ok(TL { kind: k, shape, els })
    }
    fn b_nn(&mut self, st: State, cx: &Cx, _cl: &str, m: &str) -> B {
        let d = cx.tys.get(0).and_then(|t| adt_name(pointee(*t).unwrap_or(*t))).unwrap_or_default();
        if cx.c.name.contains("VarStore") || d.ends_with("VarStore") {
            let sid = |e: &Self, st: &State, i: usize| -> R<usize> { let v = &cx.args[i]; let v = match v { Val::P(_) => e.read_p(st, v)?, v => v.clone() }; cval(v.t()?).map(|x| x as usize).ok_or_else(|| "symbolic store".to_string()) };
            match m {
                "new" => { self.tstate.stores.push(None); ok!(st, Val::S(usz(self.tstate.stores.len() as u64 - 1))) }
                // a variable that is not there yet is not loaded
                "load" => { let i = sid(self, &st, 0)?; let k = self.path_key(&st, &cx.args[1]).unwrap_or("best".into());
                    match self.tstate.files.get(&k).copied() { None => ok!(st, en(1, vec![Val::Op(9)])), Some(f) => { if self.tstate.stores[i].is_some() { self.tstate.stores[i] = Some(f) } ok!(st, en(0, vec![unit()])) } } }
                "save" => { let i = sid(self, &st, 0)?; let k = self.path_key(&st, &cx.args[1]).unwrap_or("best".into()); if let Some(w) = self.tstate.stores[i] { self.tstate.files.insert(k, w); } ok!(st, en(0, vec![unit()])) }
                "copy" => { let (i, j) = (sid(self, &st, 0)?, sid(self, &st, 1)?); if self.tstate.stores[i].is_some() { self.tstate.stores[i] = self.tstate.stores[j] } ok!(st, en(0, vec![unit()])) }
                // asked for only to look for values that are not numbers
                "variables" => ok!(st, Val::L(ListV::empty())),
                "root" | "device" | "freeze" | "unfreeze" | "set_kind" => ok!(st, crate::b_num::opaque_of(cx.dty)),
                _ => return Err(format!("tch function {}", cx.c.name)),
            }
        }
        if cx.c.name.contains("ptimizer") || d.contains("Optimizer") {
            match m {
                "zero_grad" => self.tstate.log.push((5, vec![])),
                "step" => self.tstate.log.push((4, vec![])),
                "backward_step" => { let l = self.tload(&st, &cx.args[1])?; self.tstate.log.push((5, vec![])); self.tstate.log.push((3, vec![l])); self.tstate.log.push((4, vec![])) }
                "clip_grad_norm" | "clip_grad_value" | "set_lr" | "set_momentum" | "build" | "wd" | "default" => {}
                _ => return Err(format!("tch function {}", cx.c.name)),
            }
        }
        if cx.c.name.contains("ptimizer") || cx.c.name.contains("Adam") || d.contains("ptimizer") || d.contains("Adam") { ok!(st, crate::b_num::opaque_of(cx.dty)) }
        Err(format!("tch function {}", cx.c.name))
    }
    fn b_net(&mut self, st: State, cx: &Cx, m: &str) -> B {
        match m {
            "forward_t" | "forward_train" | "forward_policy" => {
                let f = self.tstate.net.clone().ok_or("no network is set up")?;
                self.tstate.training = m == "forward_train";
                let me = match &cx.args[0] { Val::P(_) => self.read_p(&st, &cx.args[0])?, v => v.clone() };
                self.tstate.acting = self.net_store(pointee(cx.tys[0]), &me).and_then(|i| self.tstate.stores.get(i).copied().flatten());
                let r = self.call_fnval(st, &f, vec![cx.args[1].clone()])?;
                Ok(Ok(match r { None => None, Some((s, v)) => Some((s, if m == "forward_policy" { v.field(0)? } else { v })) }))
            }
            // one weight stands for all of them; it starts as 1
            "new" => { let i = cval(cx.args[0].t()?).ok_or("symbolic store")? as usize; self.tstate.stores[i] = Some(f32c(1.0)); let v = self.net_val(cx.dty, i)?; ok!(st, v) }
            _ => Ok(Err(st)),
        }
    }
    pub fn is_scratch(&self, st: &State, v: &Val) -> bool { self.path_key(st, v).map(|k| k == "/scratch").unwrap_or(false) }
    pub fn path_key(&self, st: &State, v: &Val) -> R<String> { let v = match v { Val::P(_) => self.read_p(st, v)?, v => v.clone() }; match v { Val::Str(s) => Ok(s.to_string()), Val::Op(n) if n >= 1000 => Ok(if self.tstate.names.iter().any(|(k, v)| *v == n - 1000 && k.contains("best_model")) { "best".into() } else { format!("#{}", n) }), v => Err(format!("file name {}", kind(&v))) } }
    pub fn show(&self, st: &State, v: &Val) -> String {
        match v {
            Val::P(_) => self.read_p(st, v).map(|v| self.show(st, &v)).unwrap_or("?".into()),
            Val::Str(s) => s.to_string(), Val::Op(n) => format!("op{}", n), Val::S(t) => cval(*t).map(|x| x.to_string()).unwrap_or("?".into()),
            v => match v.list() { Ok(l) => l.s().iter().map(|x| self.show(st, &x.v)).collect::<Vec<_>>().join(","), Err(_) => format!("{:?}", v) },
        }
    }
    pub fn named(&mut self, s: String) -> Val { let n = self.tstate.names.len() as u32; Val::Op(1000 + *self.tstate.names.entry(s).or_insert(n)) }
    fn net_store(&self, t: Option<Ty>, v: &Val) -> Option<usize> {
        let (d, _) = adt(t?)?;
        let at = d.variants()[0].fields().iter().position(|f| f.name == "vs")?;
        cval(v.field(at).ok()?.t().ok()?).map(|x| x as usize)
    }
    fn net_val(&self, t: Ty, store: usize) -> R<Val> {
        let (d, _) = adt(t).ok_or("network type")?;
        let fs = d.variants()[0].fields(); let at = fs.iter().position(|f| f.name == "vs").ok_or("the network has no field vs")?;
        Ok(agg((0..fs.len()).map(|i| if i == at { Val::S(usz(store as u64)) } else { Val::Op(30) }).collect()))
    }
    pub fn b_sym_tensor(&mut self, st: State, cx: &Cx, m: &str) -> B {
        match m {
            "net" => { self.tstate.stores.push(Some(f32c(1.0))); let v = self.net_val(cx.dty, self.tstate.stores.len() - 1)?; ok!(st, v) }
            "log_tensor" => { let k = cval(cx.args[0].t()?).ok_or("log kind")? as u8; let l = self.tload(&st, &cx.args[1])?; self.tstate.log.push((k, vec![l])); ok!(st, unit()) }
            // how many entries of a kind there are before entry number `upto`
            "logged" => { let k = cval(cx.args[0].t()?).ok_or("log kind")? as u8; let u = cval(cx.args[1].t()?).ok_or("log position")? as usize; let n = self.tstate.log.iter().take(u).filter(|x| x.0 == k).count(); ok!(st, Val::S(usz(n as u64))) }
            "scratch_dir" => ok!(st, Val::Str("/scratch".into())),
            "log_reset" => { self.tstate.log.clear(); ok!(st, unit()) }
            "log_len" => { let n = self.tstate.log.len() as u64; ok!(st, Val::S(usz(n))) }
            "log_kind" => { let i = cval(cx.args[0].t()?).ok_or("log position")? as usize; let k = self.tstate.log.get(i).map(|x| x.0).unwrap_or(99); ok!(st, Val::S(bv(8, k as u128))) }
            "log_at" => { let i = cval(cx.args[0].t()?).ok_or("log position")? as usize; let j = cval(cx.args[1].t()?).ok_or("log part")? as usize; let l = self.tstate.log[i].1[j].clone(); let mut st = st; let v = self.put(&mut st, l); ok!(st, v) }
            "weight" => { let i = cval(self.read_p(&st, &cx.args[0])?.t()?).ok_or("symbolic store")? as usize; let w = self.tstate.stores[i].ok_or("the store has no variable")?; ok!(st, Val::S(w)) }
            "model_file" => { let (w, b) = (cx.args[0].t()?, cx.args[1].t()?); self.tstate.files.insert("m.ot".into(), w); if self.params.get("exists") != Some(&0) { self.tstate.files.insert("best".into(), b); } ok!(st, Val::Str("m.ot".into())) }
            "acting_weight" => { let w = self.tstate.acting.ok_or("no network is being asked")?; ok!(st, Val::S(w)) }
            "training" => { let b = self.tstate.training; ok!(st, Val::S(if b { TR } else { F })) }
            "stored_dirs" => { let mut v: Vec<u32> = self.tstate.dirs.iter().filter(|d| self.tstate.disk.contains_key(&format!("{}/ps.ot", d))).filter_map(|d| d.strip_prefix('#')?.parse().ok()).collect(); v.sort(); ok!(st, Val::L(ListV::dense(v.into_iter().map(Val::Op).collect()))) }
            "best_weight" => { let w = self.tstate.files.get("best").copied().unwrap_or(f32c(f32::NAN)); ok!(st, Val::S(w)) }
            "set_start" => { self.tstate.start = Some(cx.args[0].clone()); ok!(st, unit()) }
            "start" => { let v = self.tstate.start.clone().unwrap_or(cx.args[0].clone()); ok!(st, v) }
            "tick" => { let n = self.tstate.tick; self.tstate.tick += 1; ok!(st, Val::S(usz(n))) }
            "tick_reset" => { self.tstate.tick = 0; ok!(st, unit()) }
            "set_net" => { self.tstate.net = Some(cx.args[0].clone()); ok!(st, unit()) }
            _ => Ok(Err(st)),
        }
    }
}
fn is_none(v: &Val) -> bool { matches!(v, Val::En(e) if cval(e.tag) == Some(0) && e.pay.get(1).map(|p| p.is_none()).unwrap_or(true)) && !matches!(v, Val::En(e) if e.pay.len() > 2) }
fn opname(m: &str) -> &str { let m = m.strip_prefix("g_").unwrap_or(m); let m = m.strip_suffix("_tensor").or(m.strip_suffix("_scalar")).unwrap_or(m); match m { "divide" => "div", "multiply" => "mul", "subtract" => "sub", "greater" => "gt", "less" => "lt", "pow_tensor" => "pow", m => m } }
