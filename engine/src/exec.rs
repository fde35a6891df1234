//! Path-merging symbolic executor over the IR.
use crate::ir::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum ObKind { Panic, Check, Cover, Bound }
pub struct Ob { pub kind: ObKind, pub label: String, pub loc: String, pub viol: T }
/// concrete facts recorded for replaying a counterexample
pub struct Eng {
    pub fns: HashMap<Instance, Rc<Fnc>>,
    pub obs: Vec<Ob>,
    pub next_heap: u32,
    pub stack: Vec<(Rc<Fnc>, u32)>,
    pub fresh: FxMap<String, u32>,
    pub smt: crate::smt::Smt,
    pub used: std::collections::BTreeSet<String>,
    pub steps: u64,
    pub lang: HashMap<String, (FnDef, GenericArgs)>,
    pub trace: bool,
    pub loop_limit: u32,
    pub deadline: std::time::Instant,
    pub triv: HashMap<(ObKind, String), u64>,
    pub records: Vec<(String, T, T)>, // (label, guard, value) values drawn in program order
    pub params: FxMap<String, i64>,
    pub cfg: FxMap<String, T>,
    pub panic_ok: bool,
    pub lazy: Vec<T>,
    pub tstate: crate::tensor::TState,
    pub vars: HashMap<(String, Sort, Option<(i128, i128, bool)>), T>,
    pub prof: HashMap<String, (u64, f64)>,
    pub infeasible_memo: FxMap<T, bool>,
    /// path splitting: which alternative each choice of this run takes, out of how many
    pub split: bool,
    pub dec: Vec<(usize, usize)>,
    pub dpos: usize,
}
pub enum CallRes { Done(Option<(State, Val)>), Split(Option<(State, Val)>, State) }
pub type Ctl = R<Option<(State, Val)>>;

impl State {
    pub fn depth(&self) -> u32 { self.frames.len() as u32 - 1 }
    pub fn root(&self, r: &Root) -> R<Val> {
        match r {
            Root::Frame(d, l) => Ok(self.frames[*d as usize][*l as usize].clone()),
            Root::Heap(h) => self.heap.get(h).cloned().ok_or_else(|| format!("dangling heap {}", h)),
            Root::Const(c) => Ok(get_const(*c)),
            Root::Addr(t) => Err(format!("read through address {}", show(*t))),
        }
    }
    pub fn read_t(&self, t: &Target) -> R<Val> {
        match &t.root {
            Root::Frame(d, l) => read_path(&self.frames[*d as usize][*l as usize], &t.path),
            Root::Heap(h) => read_path(self.heap.get(h).ok_or("dangling heap")?, &t.path),
            r => read_path(&self.root(r)?, &t.path),
        }
    }
    /// read the value designated by a target, including its slice metadata
    pub fn read_m(&self, t: &Target) -> R<Val> {
        let v = self.read_t(t)?;
        match t.meta { Meta::Rng(lo, hi) => { let mut l = v.list()?; let base = l.lo; l.lo = base + lo; l.hi = base + hi; Ok(Val::L(l)) } _ => Ok(v) }
    }
    pub fn write_t(&mut self, t: &Target, g: T, v: &Val) -> R<()> {
        match &t.root {
            Root::Frame(d, l) => { let f = Rc::make_mut(&mut self.frames[*d as usize]); write_path(&mut f[*l as usize], &t.path, g, v) }
            Root::Heap(h) => { let hp = Rc::make_mut(&mut self.heap); let s = hp.entry(*h).or_insert(Val::Uninit); write_path(s, &t.path, g, v) }
            Root::Const(_) => Err("write to constant".into()),
            Root::Addr(t) => Err(format!("write through address {}", show(*t))),
        }
    }
    pub fn with<X>(&mut self, t: &Target, f: impl FnOnce(&mut Val) -> R<X>) -> R<X> {
        // in-place update of a place (takes the value out to avoid copying)
        fn go<X>(v: &mut Val, p: &[PE], f: impl FnOnce(&mut Val) -> R<X>) -> R<X> {
            if p.is_empty() { return f(v) }
            match (p[0], &mut *v) {
                (PE::F(i), Val::Agg(a)) => { let a = Rc::make_mut(a); if (i as usize) < a.len() { return go(&mut a[i as usize], &p[1..], f) } Err("with: field".into()) }
                (PE::V(i), Val::En(e)) => { let e = Rc::make_mut(e); let mut inner = Val::Agg(e.pay[i as usize].take().unwrap_or_default()); let r = go(&mut inner, &p[1..], f); if let Val::Agg(a) = inner { e.pay[i as usize] = Some(a) } r }
                (PE::Slot(k), Val::L(l)) => { let a = l.vec(); go(&mut a[k as usize].v, &p[1..], f) }
                (PE::Slot(k), Val::Agg(a)) => { let a = Rc::make_mut(a); go(&mut a[k as usize], &p[1..], f) }
                _ => { let mut cur = read_path(v, p)?; let r = f(&mut cur)?; write_path(v, p, TR, &cur)?; Ok(r) }
            }
        }
        match &t.root {
            Root::Frame(d, l) => { let fr = Rc::make_mut(&mut self.frames[*d as usize]); go(&mut fr[*l as usize], &t.path, f) }
            Root::Heap(h) => { let hp = Rc::make_mut(&mut self.heap); go(hp.get_mut(h).ok_or("dangling heap")?, &t.path, f) }
            r => Err(format!("with on {:?}", r)),
        }
    }
}
pub fn first_child(t: &Target, e: PE) -> Target { let mut p = t.path.clone(); p.push(e); Target { root: t.root.clone(), path: p, meta: Meta::All } }
pub fn tptr(t: Target) -> Val { Val::P(Rc::new(PtrV { alts: vec![(TR, t)] })) }

impl Eng {
    pub fn new() -> Eng {
        Eng { fns: HashMap::new(), obs: vec![], next_heap: 1, stack: vec![], fresh: Default::default(), smt: crate::smt::Smt::new(), used: Default::default(), steps: 0, lang: HashMap::new(), trace: std::env::var("MIRSYM_TRACE").is_ok(), loop_limit: 4000, deadline: std::time::Instant::now() + std::time::Duration::from_secs(86400), triv: HashMap::new(), records: vec![], params: Default::default(), cfg: Default::default(), panic_ok: false, lazy: vec![], tstate: Default::default(), vars: Default::default(), prof: HashMap::new(), infeasible_memo: Default::default(), split: false, dec: vec![], dpos: 0 }
    }
    pub fn reset(&mut self) { self.obs.clear(); self.stack.clear(); self.fresh.clear(); self.steps = 0; self.records.clear(); self.tstate = Default::default(); self.next_heap = 1; self.cfg.clear() }
    pub fn func(&mut self, i: Instance) -> R<Rc<Fnc>> {
        if let Some(f) = self.fns.get(&i) { return Ok(f.clone()) }
        let mut f = translate(i)?;
        liveness(&mut f);
        let f = Rc::new(f);
        self.fns.insert(i, f.clone());
        Ok(f)
    }
    pub fn loc(&self) -> String {
        let short = |f: &Rc<Fnc>, l: u32| format!("{}:{}", f.file.rsplit("/src/").next().map(|s| s.to_string()).unwrap_or_default(), l);
        let inner = self.stack.iter().rev().find(|(f, _)| f.file.contains("/repo/") || f.file.starts_with("src/") || f.file.contains("harness"));
        match inner { Some((f, l)) => short(f, *l), None => self.stack.last().map(|(f, l)| short(f, *l)).unwrap_or_default() }
    }
    pub fn backtrace(&self) -> String { self.stack.iter().rev().take(12).map(|(f, l)| format!("{}:{}", f.name, l)).collect::<Vec<_>>().join(" <- ") }
    pub fn alloc(&mut self, st: &mut State, v: Val) -> Target {
        let id = self.next_heap; self.next_heap += 1;
        Rc::make_mut(&mut st.heap).insert(id, v);
        Target { root: Root::Heap(id), path: vec![], meta: Meta::All }
    }
    pub fn free(&mut self, st: &mut State, t: &Target) { if let Root::Heap(h) = t.root { Rc::make_mut(&mut st.heap).remove(&h); } }
    pub fn fresh_var(&mut self, label: &str, s: Sort, range: Option<(i128, i128, bool)>) -> T {
        let n = self.fresh.entry(label.to_string()).or_insert(0); let name = if *n == 0 { label.to_string() } else { format!("{}#{}", label, n) }; *n += 1;
        // a later run of a splitting job uses the same variables again
        let key = (name, s, range);
        if let Some(v) = self.vars.get(&key) { return *v }
        let v = var(&key.0, s, range); self.vars.insert(key, v); v
    }
    pub fn oblige(&mut self, kind: ObKind, label: String, viol: T) { if viol == F && kind != ObKind::Cover { *self.triv.entry((kind, label)).or_insert(0) += 1; return } let loc = self.loc(); self.obs.push(Ob { kind, label, loc, viol }) }
    /// assert `cond` must hold here, else the program panics; continues with cond assumed
    pub fn must(&mut self, st: &mut State, cond: T, msg: &str) -> bool {
        match st.pc.decide(cond) {
            Some(true) => true,
            Some(false) => { self.oblige(ObKind::Panic, msg.to_string(), st.pc.term()); false }
            None => { let v = and(st.pc.term(), not(cond)); self.oblige(ObKind::Panic, msg.to_string(), v); st.pc.push(cond) }
        }
    }
    pub fn splitting(&self) -> bool { self.split && self.stack.last().map(|f| f.0.spine).unwrap_or(false) }
    /// one of several mutually exclusive alternatives; the other ones are taken in other runs
    pub fn choose(&mut self, st: &mut State, alts: &[T]) -> R<Option<usize>> {
        let mut ok = vec![];
        for (i, a) in alts.iter().enumerate() { if *a == F { continue } let mut pc = st.pc.clone(); if pc.push(*a) && self.feasible(&pc)? { ok.push((i, pc)) } }
        if ok.is_empty() { return Ok(None) }
        let k = if ok.len() == 1 { 0 } else {
            if self.dpos == self.dec.len() { self.dec.push((0, ok.len())) }
            if self.dec[self.dpos].1 != ok.len() { return Err("path splitting: choices differ between runs".into()) }
            self.dpos += 1; self.dec[self.dpos - 1].0
        };
        let (i, pc) = ok.swap_remove(k); st.pc = pc;
        Ok(Some(i))
    }
    /// one of `n` alternatives that no value decides
    pub fn choose_free(&mut self, n: usize) -> R<usize> {
        if self.dpos == self.dec.len() { self.dec.push((0, n)) }
        if self.dec[self.dpos].1 != n { return Err("path splitting: choices differ between runs".into()) }
        self.dpos += 1; Ok(self.dec[self.dpos - 1].0)
    }
    /// in a splitting zone, `c` becomes a constant
    pub fn choose_bool(&mut self, st: &mut State, c: T) -> R<T> {
        let c = st.pc.simp(c);
        if is_const(c) || !self.splitting() { return Ok(c) }
        Ok(match self.choose(st, &[c, not(c)])? { Some(0) => TR, _ => F })
    }
    /// in a splitting zone, an index becomes a constant
    pub fn choose_idx(&mut self, st: &mut State, t: T) -> R<T> {
        if is_const(t) { return Ok(t) }
        let r = rng(t); if r.uhi - r.ulo > 32 { return Ok(t) }
        let ks: Vec<u128> = (r.ulo..=r.uhi).filter(|k| may_be(t, *k)).collect();
        let w = width(t); let cs: Vec<T> = ks.iter().map(|k| eq(t, bv(w, *k))).collect();
        Ok(match self.choose(st, &cs)? { Some(i) => bv(w, ks[i]), None => t })
    }
    /// the next run's choices; false when all runs are done
    pub fn next_run(&mut self) -> bool {
        self.dec.truncate(self.dpos);
        while let Some((i, n)) = self.dec.pop() { if i + 1 < n { self.dec.push((i + 1, n)); self.dpos = 0; return true } }
        false
    }
    pub fn feasible(&mut self, pc: &Pc) -> R<bool> {
        let t = pc.term();
        if t == TR { return Ok(true) } if t == F { return Ok(false) }
        if let Some(b) = self.infeasible_memo.get(&t) { return Ok(*b) }
        let r = self.smt.sat(t, 5)?; // unknown counts as feasible
        let b = r != Some(false);
        self.infeasible_memo.insert(t, b);
        Ok(b)
    }
    // ------------------------------------------------------------- places
    pub fn deref(&self, v: &Val) -> R<Vec<(T, Target)>> {
        match v {
            Val::P(p) => Ok(p.alts.clone()),
            Val::Str(_) | Val::Op(_) => { Ok(vec![(TR, Target { root: Root::Const(add_const(v.clone())), path: vec![], meta: Meta::All })]) }
            Val::U(u) => { let mut r = vec![]; for (g, x) in u.iter() { for (h, t) in self.deref(x)? { r.push((and(*g, h), t)) } } Ok(r) }
            Val::Agg(a) if a.is_empty() => Ok(vec![(TR, Target { root: Root::Const(add_const(unit())), path: vec![], meta: Meta::All })]),
            _ => Err(format!("deref of {}", kind(v))),
        }
    }
    pub fn deref1(&self, v: &Val) -> R<Target> { let a = self.deref(v)?; if a.len() == 1 { Ok(a[0].1.clone()) } else { Err(format!("ambiguous pointer ({} targets)", a.len())) } }
    pub fn read_p(&self, st: &State, v: &Val) -> R<Val> {
        let mut it = self.deref(v)?.into_iter().rev();
        let (_, t) = it.next().ok_or("empty pointer")?;
        let mut acc = st.read_m(&t)?;
        for (g, t) in it { acc = merge(g, &st.read_m(&t)?, &acc)? }
        Ok(acc)
    }
    pub fn write_p(&self, st: &mut State, p: &Val, v: &Val) -> R<()> {
        let a = self.deref(p)?;
        if a.len() == 1 { return st.write_t(&a[0].1, TR, v) }
        for (g, t) in a { st.write_t(&t, g, v)? }
        Ok(())
    }
    pub fn resolve(&mut self, st: &State, pl: &Pl) -> R<Vec<(T, Target)>> {
        let mut ts = vec![(TR, Target { root: Root::Frame(st.depth(), pl.local), path: vec![], meta: Meta::All })];
        for e in &pl.proj {
            match e {
                Pj::Deref => {
                    let mut n: Vec<(T, Target)> = vec![];
                    for (g, t) in &ts { for (h, u) in self.deref(&st.read_t(t)?)? { let gg = and(*g, h); if gg == F { continue } match n.iter_mut().find(|x| x.1 == u) { Some(x) => x.0 = or(x.0, gg), None => n.push((gg, u)) } } }
                    // prune alternatives excluded by the path condition
                    if n.len() > 1 { n.retain(|(g, _)| st.pc.decide(*g) != Some(false)); if n.len() == 1 { n[0].0 = TR } }
                    ts = n;
                }
                Pj::F(i) => for (_, t) in ts.iter_mut() { t.path.push(PE::F(*i)) },
                Pj::V(i) => for (_, t) in ts.iter_mut() { t.path.push(PE::V(*i)) },
                Pj::Unit => for (_, t) in ts.iter_mut() { *t = Target { root: Root::Const(add_const(unit())), path: vec![], meta: Meta::All } },
                Pj::I(l) => {
                    let i = st.frames.last().unwrap()[*l as usize].t()?;
                    let i = self.conc(st, i);
                    for (_, t) in ts.iter_mut() { match t.meta { Meta::Rng(lo, _) => { t.path.push(PE::I(add(i, usz(lo as u64)))); t.meta = Meta::All } _ => t.path.push(PE::I(i)) } }
                }
                Pj::CI(off, _, fe) => for (_, t) in ts.iter_mut() {
                    let lo = match t.meta { Meta::Rng(lo, _) => lo, _ => 0 };
                    let i = if *fe { sub(self.len_of(st, t)?, usz(*off)) } else { usz(*off) };
                    t.path.push(PE::I(add(i, usz(lo as u64)))); t.meta = Meta::All
                },
                Pj::Sub(from, to, fe) => for (_, t) in ts.iter_mut() {
                    let n = cval(self.len_of(st, t)?).ok_or("subslice pattern of symbolic length")? as u32;
                    let lo = match t.meta { Meta::Rng(lo, _) => lo, _ => 0 };
                    let hi = if *fe { n - *to as u32 } else { *to as u32 };
                    t.meta = Meta::Rng(lo + *from as u32, lo + hi);
                },
            }
        }
        Ok(ts)
    }
    pub fn conc(&self, _st: &State, i: T) -> T { i }
    pub fn len_of(&self, st: &State, t: &Target) -> R<T> {
        match t.meta { Meta::Rng(lo, hi) => Ok(usz((hi - lo) as u64)), _ => seq_len(&st.read_t(t)?) }
    }
    pub fn read_pl(&mut self, st: &State, pl: &Pl) -> R<Val> {
        // fast path without dereference
        let mut cur = st.frames.last().unwrap()[pl.local as usize].clone();
        for (k, e) in pl.proj.iter().enumerate() {
            cur = match e {
                Pj::F(i) => read_pe(&cur, PE::F(*i))?,
                Pj::V(i) => read_pe(&cur, PE::V(*i))?,
                Pj::Deref if k == pl.proj.len() - 1 => { if let (Val::P(_), true) = (&cur, true) { return self.read_alts(st, &cur) } if let Val::Str(_) | Val::Op(_) = cur { return Ok(cur) } return self.read_alts(st, &cur) }
                _ => { let ts = self.resolve(st, pl)?; return self.read_ts(st, &ts) }
            }
        }
        Ok(cur)
    }
    fn read_alts(&self, st: &State, v: &Val) -> R<Val> { let ts = self.deref(v)?; self.read_ts(st, &ts) }
    pub fn read_ts(&self, st: &State, ts: &[(T, Target)]) -> R<Val> {
        let mut it = ts.iter().rev().filter(|(g, _)| ts.len() == 1 || st.pc.decide(*g) != Some(false));
        let (_, t) = it.next().ok_or("empty place")?;
        let mut acc = st.read_m(t)?;
        for (g, t) in it { acc = merge(*g, &st.read_m(t)?, &acc)? }
        Ok(acc)
    }
    pub fn write_pl(&mut self, st: &mut State, pl: &Pl, v: Val) -> R<()> {
        if pl.proj.is_empty() { let f = Rc::make_mut(st.frames.last_mut().unwrap()); f[pl.local as usize] = v; return Ok(()) }
        let ts = self.resolve(st, pl)?;
        if ts.len() == 1 { return st.write_t(&ts[0].1, TR, &v) }
        for (g, t) in ts { st.write_t(&t, g, &v)? }
        Ok(())
    }
    pub fn opnd(&mut self, st: &mut State, o: &Opnd) -> R<Val> {
        match o {
            Opnd::C(v) => Ok(v.clone()),
            Opnd::Copy(p) => self.read_pl(st, p),
            Opnd::Move(p) => {
                if p.proj.is_empty() { let f = Rc::make_mut(st.frames.last_mut().unwrap()); return Ok(std::mem::replace(&mut f[p.local as usize], Val::Uninit)) }
                self.read_pl(st, p)
            }
            Opnd::Err(e) => Err(format!("constant: {}", e)),
        }
    }
    // ------------------------------------------------------------- rvalues
    pub fn rvalue(&mut self, st: &mut State, r: &Rv) -> R<Val> {
        Ok(match r {
            Rv::Use(o) => self.opnd(st, o)?,
            Rv::Addr(p) => {
                // &*p on opaque pointees
                if let [Pj::Deref] = p.proj[..] { let v = st.frames.last().unwrap()[p.local as usize].clone(); return Ok(v) }
                let ts = self.resolve(st, p)?;
                Val::P(Rc::new(PtrV { alts: ts }))
            }
            Rv::Bin(b, x, y, k, k2) => { let (x, y) = (self.opnd(st, x)?, self.opnd(st, y)?); self.binop(st, *b, x, y, *k, *k2)? }
            Rv::Chk(b, x, y, k) => {
                let (x, y) = (self.opnd(st, x)?.t()?, self.opnd(st, y)?.t()?);
                let s = matches!(k, Sk::Int(_, true));
                let (v, o) = match b { BinOp::Add | BinOp::AddUnchecked => checked(0, x, y, s), BinOp::Sub | BinOp::SubUnchecked => checked(1, x, y, s), BinOp::Mul | BinOp::MulUnchecked => checked(2, x, y, s), _ => return Err(format!("checked {:?}", b)) };
                agg(vec![Val::S(v), Val::S(o)])
            }
            Rv::Un(u, x, k) => {
                let x = self.opnd(st, x)?;
                match u {
                    UnOp::Not => { let t = x.t()?; Val::S(if *k == Sk::Bool { not(t) } else { un(Op::BNot, sort(t), t) }) }
                    UnOp::Neg => { let t = x.t()?; Val::S(match k { Sk::Fl(_) => un(Op::FNeg, sort(t), t), _ => neg(t) }) }
                    UnOp::PtrMetadata => self.ptr_meta(st, &x)?,
                }
            }
            Rv::Cast(k, o, from, to) => { let v = self.opnd(st, o)?; self.cast(st, *k, v, *from, *to)? }
            Rv::Tuple(os) | Rv::Array(os) => { let mut v = Vec::with_capacity(os.len()); for o in os { v.push(self.opnd(st, o)?) } agg(v) }
            Rv::Variant(i, os) => { let mut v = Vec::with_capacity(os.len()); for o in os { v.push(self.opnd(st, o)?) } en(*i, v) }
            Rv::UnionField(o) => self.opnd(st, o)?,
            Rv::RawPtr(p, m) => {
                let p = self.opnd(st, p)?; let m = self.opnd(st, m)?;
                match (&p, &m) { (Val::P(pv), Val::S(n)) => { let n = cval(*n).ok_or("raw slice with symbolic length")? as u32; let alts = pv.alts.iter().map(|(g, t)| { let mut t = t.clone(); if let Some(PE::Slot(k)) = t.path.last().copied() { t.path.pop(); t.meta = Meta::Rng(k, k + n) } else { t.meta = Meta::Rng(0, n) } (*g, t) }).collect(); Val::P(Rc::new(PtrV { alts })) } _ => p }
            }
            Rv::Discr(p, map, w, _) => {
                let v = self.read_pl(st, p)?;
                Val::S(self.discr(&v, map, *w)?)
            }
            Rv::Len(p) => { let ts = self.resolve(st, p)?; let mut acc = None; for (g, t) in ts.iter().rev() { let l = self.len_of(st, t)?; acc = Some(match acc { None => l, Some(a) => ite(*g, l, a) }) } Val::S(acc.ok_or("len")?) }
            Rv::Repeat(o, n) => { let v = self.opnd(st, o)?; agg(vec![v; *n as usize]) }
            Rv::Tls(n) => return Err(format!("thread local {}", n)),
        })
    }
    pub fn discr(&self, v: &Val, map: &[(u32, u128)], w: u8) -> R<T> {
        let tag = match v { Val::En(e) => e.tag, Val::Op(_) => return Err("discriminant of opaque".into()), Val::U(u) => { let mut acc = None; for (g, x) in u.iter().rev() { let t = self.discr(x, map, w)?; acc = Some(match acc { None => t, Some(a) => ite(*g, t, a) }) } return Ok(acc.unwrap()) }, Val::Uninit => return Err("discriminant of uninit".into()), Val::Agg(_) => bv(16, 0), _ => return Err(format!("discriminant of {}", kind(v))) };
        if map.iter().all(|(i, d)| *i as u128 == *d) { return Ok(if w >= 16 { zext(tag, w) } else { extract(tag, 0, w) }) }
        let mut acc = bv(w, map.last().unwrap().1);
        for (i, d) in map.iter().rev().skip(1) { acc = ite(eq(tag, bv(16, *i as u128)), bv(w, *d), acc) }
        Ok(acc)
    }
    pub fn ptr_meta(&mut self, st: &State, x: &Val) -> R<Val> {
        match x {
            Val::P(p) => { let mut acc = None; for (g, t) in p.alts.iter().rev() { if p.alts.len() > 1 && st.pc.decide(*g) == Some(false) { continue } let l = self.len_of(st, t)?; acc = Some(match acc { None => l, Some(a) => ite(*g, l, a) }) } Ok(Val::S(acc.ok_or("meta")?)) }
            Val::Str(s) => Ok(vusz(s.len())),
            Val::U(u) => { let mut acc = None; for (g, y) in u.iter().rev() { let l = self.ptr_meta(st, y)?.t()?; acc = Some(match acc { None => l, Some(a) => ite(*g, l, a) }) } Ok(Val::S(acc.unwrap())) }
            _ => Err(format!("metadata of {}", kind(x))),
        }
    }
    pub fn ptr_eq(&self, a: &Val, b: &Val) -> R<T> {
        if let (Val::Fn(x), Val::Fn(y)) = (a, b) { return Ok(boolc(x == y)) }
        let (p, q) = (self.deref(a)?, self.deref(b)?);
        let mut acc = F;
        for (g, t) in &p { for (h, u) in &q { if t.root == u.root && t.path == u.path { acc = or(acc, and(*g, *h)) } else if let (Root::Addr(x), Root::Addr(y)) = (&t.root, &u.root) { acc = or(acc, and(and(*g, *h), eq(*x, *y))) } } }
        Ok(acc)
    }
    pub fn binop(&mut self, st: &State, b: BinOp, x: Val, y: Val, k: Sk, k2: Sk) -> R<Val> {
        if k == Sk::Ptr {
            return match b { BinOp::Eq => Ok(Val::S(self.ptr_eq(&x, &y)?)), BinOp::Ne => Ok(Val::S(not(self.ptr_eq(&x, &y)?))), _ => Err(format!("pointer op {:?}", b)) }
        }
        let _ = st;
        let (a, c) = (x.t()?, y.t()?);
        let s = matches!(k, Sk::Int(_, true));
        if let Sk::Fl(w) = k {
            let so = if w == 32 { Sort::F32 } else { Sort::F64 };
            let f = |o| Val::S(mk(o, so, &[a, c], 0));
            let p = |o, x: T, y: T| mk(o, Sort::Bool, &[x, y], 0);
            return Ok(match b {
                BinOp::Add => f(Op::FAdd), BinOp::Sub => f(Op::FSub), BinOp::Mul => f(Op::FMul), BinOp::Div => f(Op::FDiv), BinOp::Rem => f(Op::FRem),
                BinOp::Eq => Val::S(p(Op::FEq, a, c)), BinOp::Ne => Val::S(not(p(Op::FEq, a, c))), BinOp::Lt => Val::S(p(Op::FLt, a, c)), BinOp::Le => Val::S(p(Op::FLe, a, c)), BinOp::Gt => Val::S(p(Op::FLt, c, a)), BinOp::Ge => Val::S(p(Op::FLe, c, a)),
                _ => return Err(format!("float op {:?}", b)),
            });
        }
        if k == Sk::Bool {
            return Ok(Val::S(match b { BinOp::BitAnd => and(a, c), BinOp::BitOr => or(a, c), BinOp::BitXor | BinOp::Ne => not(eq(a, c)), BinOp::Eq => eq(a, c), BinOp::Lt => and(not(a), c), BinOp::Le => or(not(a), c), BinOp::Gt => and(a, not(c)), BinOp::Ge => or(a, not(c)), BinOp::Cmp => return Ok(ordering(and(not(a), c), eq(a, c))), _ => return Err(format!("bool op {:?}", b)) }))
        }
        let lt = |x, y| if s { slt(x, y) } else { ult(x, y) };
        Ok(Val::S(match b {
            BinOp::Add | BinOp::AddUnchecked => add(a, c), BinOp::Sub | BinOp::SubUnchecked => sub(a, c), BinOp::Mul | BinOp::MulUnchecked => mul(a, c),
            BinOp::Div => bin(if s { Op::SDiv } else { Op::UDiv }, a, c), BinOp::Rem => bin(if s { Op::SRem } else { Op::URem }, a, c),
            BinOp::BitXor => bin(Op::BXor, a, c), BinOp::BitAnd => bin(Op::BAnd, a, c), BinOp::BitOr => bin(Op::BOr, a, c),
            BinOp::Shl | BinOp::ShlUnchecked | BinOp::Shr | BinOp::ShrUnchecked => {
                let w = width(a); let mut sh = c; if width(sh) < w { sh = zext(sh, w) } else if width(sh) > w { sh = extract(sh, 0, w) }
                let _ = k2;
                sh = bin(Op::BAnd, sh, bv(w, (w - 1) as u128));
                bin(match b { BinOp::Shl | BinOp::ShlUnchecked => Op::Shl, _ if s => Op::AShr, _ => Op::LShr }, a, sh)
            }
            BinOp::Eq => eq(a, c), BinOp::Ne => not(eq(a, c)), BinOp::Lt => lt(a, c), BinOp::Gt => lt(c, a), BinOp::Le => not(lt(c, a)), BinOp::Ge => not(lt(a, c)),
            BinOp::Cmp => return Ok(ordering(lt(a, c), eq(a, c))),
            BinOp::Offset => return Err("pointer offset".into()),
        }))
    }
    pub fn cast(&mut self, st: &mut State, k: CastKind, v: Val, from: Ty, to: Ty) -> R<Val> {
        let (fk, tk) = (scal(from), scal(to));
        Ok(match k {
            CastKind::IntToInt => {
                let t = match &v { Val::En(e) => e.tag, _ => v.t()? };
                let (tw, fs) = match (fk, tk) { (Sk::Bool, Sk::Int(w, _)) => return Ok(Val::S(ite(t, bv(w, 1), bv(w, 0)))), (Sk::Int(_, s), Sk::Int(w, _)) => (w, s), (_, Sk::Int(w, _)) => (w, false), _ => return Err("int cast".into()) };
                let fw = width(t);
                Val::S(if tw == fw { t } else if tw < fw { extract(t, 0, tw) } else if fs { sext(t, tw) } else { zext(t, tw) })
            }
            CastKind::IntToFloat => { let t = v.t()?; let so = sk_sort(tk).unwrap(); Val::S(mk(if matches!(fk, Sk::Int(_, true)) { Op::SToF } else { Op::UToF }, so, &[t], 0)) }
            CastKind::FloatToInt => { let t = v.t()?; let so = sk_sort(tk).unwrap(); Val::S(mk(if matches!(tk, Sk::Int(_, true)) { Op::FToS } else { Op::FToU }, so, &[t], 0)) }
            CastKind::FloatToFloat => { let t = v.t()?; let so = sk_sort(tk).unwrap(); if sort(t) == so { Val::S(t) } else { Val::S(mk(Op::FToF, so, &[t], 0)) } }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::Subtype | CastKind::BoxDerefTransmute => v,
            CastKind::PointerCoercion(c) => match c {
                PointerCoercion::ReifyFnPointer(_) => match from.kind() { TyKind::RigidTy(RigidTy::FnDef(d, a)) => Val::Fn(Instance::resolve_for_fn_ptr(d, &a).map_err(|e| format!("{:?}", e))?), _ => return Err("reify".into()) },
                PointerCoercion::ClosureFnPointer(_) => match from.kind() { TyKind::RigidTy(RigidTy::Closure(d, a)) => Val::Fn(Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map_err(|e| format!("{:?}", e))?), _ => return Err("reify closure".into()) },
                PointerCoercion::Unsize => {
                    let pt = pointee(to);
                    match pt.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Dynamic(..))) => { let src = pointee(from).ok_or("unsize from")?; match &v { Val::P(p) if !matches!(src.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) => Val::P(Rc::new(PtrV { alts: p.alts.iter().map(|(g, t)| { let mut t = t.clone(); t.meta = Meta::Dyn(src); (*g, t) }).collect() })), _ => v } }
                        _ => v,
                    }
                }
                _ => v,
            },
            CastKind::Transmute => {
                match (&v, fk, tk) {
                    (Val::S(t), Sk::Int(..), Sk::Bool) => Val::S(not(eq(*t, bv(width(*t), 0)))),
                    (Val::S(t), Sk::Bool, Sk::Int(w, _)) => Val::S(ite(*t, bv(w, 1), bv(w, 0))),
                    (Val::S(t), Sk::Fl(_), Sk::Int(w, _)) => Val::S(mk(Op::FBits, Sort::Bv(w), &[*t], 0)),
                    (Val::S(t), Sk::Int(..), Sk::Fl(w)) => Val::S(mk(Op::FFromBits, if w == 32 { Sort::F32 } else { Sort::F64 }, &[*t], 0)),
                    (Val::S(t), _, Sk::Ptr) => ptr(Root::Addr(*t), vec![]),
                    (Val::S(t), _, Sk::Other) => {
                        // integer -> field-less enum
                        match adt(to) { Some((d, _)) if d.kind() == AdtKind::Enum => { let w = width(*t); let mut acc = bv(16, 0); for i in 0..d.num_variants() { let dv = d.discriminant_for_variant(crate::ir::vidx(i)).val & mask(w); acc = ite(eq(*t, bv(w, dv)), bv(16, i as u128), acc) } Val::En(Rc::new(EnumV { tag: acc, pay: vec![] })) } _ => v }
                    }
                    (Val::En(e), _, Sk::Int(w, _)) => match adt(from) { Some((d, _)) => { let mut acc = bv(w, 0); for i in 0..d.num_variants() { acc = ite(eq(e.tag, bv(16, i as u128)), bv(w, d.discriminant_for_variant(crate::ir::vidx(i)).val & mask(w)), acc) } Val::S(acc) } None => v },
                    _ => v,
                }
            }
            _ => { let _ = st; return Err(format!("cast {:?}", k)) }
        })
    }
    // ------------------------------------------------------------- calls
    /// inside a recursive call, or about to make one: infeasible paths are cut there
    fn in_recursion(&self, f: &Rc<Fnc>) -> bool {
        let n = self.stack.len();
        if self.stack.iter().filter(|x| Rc::ptr_eq(&x.0, f)).count() >= 1 { return true }
        (0..n).any(|i| (i + 1..n).any(|j| Rc::ptr_eq(&self.stack[i].0, &self.stack[j].0)))
    }
    pub fn call_inst(&mut self, st: State, inst: Instance, args: Vec<Val>) -> Ctl {
        let f = self.func(inst)?;
        if f.file.contains("repo/") || f.file.starts_with("src/") || f.file.contains("../repo") { self.used.insert(f.name.clone()); }
        if self.in_recursion(&f) { if !self.feasible(&st.pc)? { return Ok(None) } }
        if self.stack.len() > 600 { return Err("recursion too deep".into()) }
        if self.trace && std::env::var("MIRSYM_CALLS").is_ok() { eprintln!("{:w$}{} terms={} pc={}", "", f.name, crate::term::n_terms(), st.pc.term() == TR, w = self.stack.len()); }
        self.stack.push((f.clone(), 0));
        let (mut st, mut args) = (st, args);
        if self.splitting() { for (i, a) in args.iter_mut().enumerate() { if let (Val::S(t), Sk::Int(64, false)) = (&*a, scal(f.ltys[i + 1])) { *a = Val::S(self.choose_idx(&mut st, *t)?) } } }
        let r = self.run(st, &f, args);
        match r { Ok(x) => { self.stack.pop(); Ok(x) } Err(e) => { if !e.contains("\n  at ") { let bt = self.backtrace(); return Err(format!("{}\n  at {}", e, bt)) } Err(e) } }
    }
    fn run(&mut self, mut st: State, f: &Rc<Fnc>, args: Vec<Val>) -> Ctl {
        let mut locals = vec![Val::Uninit; f.nlocals];
        if args.len() != f.nargs { return Err(format!("{}: {} args for {}", f.name, args.len(), f.nargs)) }
        for (i, a) in args.into_iter().enumerate() { locals[i + 1] = a }
        st.frames.push(Rc::new(locals));
        let depth = st.frames.len();
        let mut work: BTreeMap<Vec<u32>, (usize, State)> = BTreeMap::new();
        let mut ret: Option<State> = None;
        let entry_key = key_enter(f, 0, None, 0);
        work.insert(entry_key, (0, st));
        while let Some((key, (bi, st))) = work.pop_first() {
            self.steps += 1;
            if self.steps % 256 == 0 && std::time::Instant::now() > self.deadline { return Err("timeout".into()) }
            let b = &f.blocks[bi];
            self.stack.last_mut().unwrap().1 = b.line;
            // loop bound
            if !b.nest.is_empty() && b.head_of.is_some() {
                let it = key[2 * b.nest.len() - 1];
                if it >= 60 && (it as u64 * 1).is_power_of_two_x60() && !st.pc.lits.is_empty() { if !self.feasible(&st.pc)? { continue } }
                if it > self.loop_limit { return Err(format!("loop bound {} exceeded in {}", self.loop_limit, f.name)) }
            }
            let mut st = st;
            debug_assert!(st.frames.len() == depth);
            for s in &b.st {
                match s {
                    crate::ir::St::Assign(p, r) => { let v = self.rvalue(&mut st, r).map_err(|e| format!("{} [{}:{} {:?}]", e, f.name, b.line, brief(r)))?; self.write_pl(&mut st, p, v).map_err(|e| format!("{} [{}:{}]", e, f.name, b.line))? }
                    crate::ir::St::SetDiscr(p, v) => { let cur = self.read_pl(&st, p)?; let nv = match cur { Val::En(e) => { let mut pay = e.pay.clone(); while pay.len() <= *v as usize { pay.push(None) } if pay[*v as usize].is_none() { pay[*v as usize] = Some(Rc::new(vec![])) } Val::En(Rc::new(EnumV { tag: bv(16, *v as u128), pay })) } _ => en(*v, vec![]) }; self.write_pl(&mut st, p, nv)? }
                    crate::ir::St::Dead(l) => { let fr = st.frames.last_mut().unwrap(); if !matches!(fr[*l as usize], Val::Uninit) { Rc::make_mut(fr)[*l as usize] = Val::Uninit } }
                    crate::ir::St::CopyNo(s, d, n) => {
                        let (s, d, n) = (self.opnd(&mut st, s)?, self.opnd(&mut st, d)?, self.opnd(&mut st, n)?.t()?);
                        match cval(n) { Some(1) => { let v = self.read_p(&st, &s)?; self.write_p(&mut st, &d, &v)? } Some(0) => {} _ => return Err("copy_nonoverlapping of many".into()) }
                    }
                }
            }
            let mut outs: Vec<(usize, State, bool)> = vec![];
            match &b.tm {
                Tm::Goto(t) => outs.push((*t, st, false)),
                Tm::Ret => {
                    // only the return value survives
                    let fr = st.frames.last_mut().unwrap(); let v = fr[0].clone(); *fr = Rc::new(vec![v]);
                    ret = Some(match ret { None => st, Some(r) => merge_states(r, st).map_err(|e| format!("merge at return of {}: {}", f.name, e))? }).filter(|s| !s.pc.dead());
                }
                Tm::Unreach | Tm::Abort => {}
                Tm::Unsup(s) => return Err(s.clone()),
                Tm::Switch(o, targets, other) => {
                    let v = self.opnd(&mut st, o)?;
                    let t = v.t().map_err(|e| format!("{} [switch {}:{}]", e, f.name, b.line))?;
                    if let Some(c) = cval(t) {
                        let tg = targets.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*other);
                        outs.push((tg, st, false));
                    } else {
                        let mut rest: Vec<T> = vec![];
                        let mut by: Vec<(usize, T)> = vec![];
                        for (k, tg) in targets {
                            let c = match sort(t) { Sort::Bool => if *k == 0 { not(t) } else { t }, Sort::Bv(w) => eq(t, bv(w, *k)), _ => return Err("switch sort".into()) };
                            rest.push(not(c));
                            match by.iter_mut().find(|x| x.0 == *tg) { Some(x) => x.1 = or(x.1, c), None => by.push((*tg, c)) }
                        }
                        let c = and_n(&rest);
                        if !matches!(f.blocks[*other].tm, Tm::Unreach) || !f.blocks[*other].st.is_empty() { match by.iter_mut().find(|x| x.0 == *other) { Some(x) => x.1 = or(x.1, c), None => by.push((*other, c)) } }
                        if by.len() > 1 && self.splitting() {
                            let cs: Vec<T> = by.iter().map(|x| x.1).collect();
                            match self.choose(&mut st, &cs)? { Some(i) => { by = vec![(by[i].0, TR)] } None => by.clear() }
                        }
                        for (tg, c) in by { if c == F { continue } let mut s2 = st.clone(); if s2.pc.push(c) { outs.push((tg, s2, false)) } }
                    }
                }
                Tm::Assert { cond, expected, msg, target } => {
                    let c = self.opnd(&mut st, cond)?.t()?; let c = if *expected { c } else { not(c) };
                    if self.must(&mut st, c, msg) { outs.push((*target, st, false)) }
                }
                Tm::Call { to, args, argtys, dest, dty, target } => {
                    let mut av = Vec::with_capacity(args.len());
                    let backup = if self.retryable(to) { Some(st.clone()) } else { None };
                    for a in args { av.push(self.opnd(&mut st, a).map_err(|e| format!("{} [arg {}:{}]", e, f.name, b.line))?) }
                    let inloop = !b.nest.is_empty();
                    let t0 = if self.trace { Some(std::time::Instant::now()) } else { None };
                    let r = match to {
                        CallTo::Direct(c) => self.call_callee(st, c, av, argtys, *dty, inloop, backup).map_err(|e| if e.contains("\n  at ") { e } else { format!("{} [call {} / {} @{}:{}]", e, c.name, c.rname, f.name, b.line) })?,
                        CallTo::Indirect(o) => { let fv = self.opnd(&mut st, o)?; CallRes::Done(self.call_fnval(st, &fv, av)?) }
                    };
                    if let Some(t0) = t0 { if let CallTo::Direct(c) = to { let e = self.prof.entry(c.rname.to_string()).or_insert((0, 0.)); e.0 += 1; e.1 += t0.elapsed().as_secs_f64() } }
                    let (done, retry) = match r { CallRes::Done(d) => (d, None), CallRes::Split(d, s) => (d, Some(s)) };
                    if let Some((mut s, v)) = done { if let Some(t) = target { self.write_pl(&mut s, dest, v)?; outs.push((*t, s, false)) } }
                    if let Some(s) = retry { outs.push((bi, s, true)) }
                }
            }
            for (tb, mut s, retry) in outs {
                let nk = if retry { let mut k = key.clone(); let n = b.nest.len(); k.truncate(2 * n); k[2 * n - 1] += 1; k.push(b.pos); k } else { key_enter(f, tb, Some(bi), 0).pipe(|_| key_step(f, &key, bi, tb)) };
                // drop dead locals
                { let fr = s.frames.last_mut().unwrap(); let live = &f.blocks[tb].live_in; let mut need = false; for (i, v) in fr.iter().enumerate() { if !matches!(v, Val::Uninit) && live.binary_search(&(i as u32)).is_err() { need = true; break } } if need { let fr = Rc::make_mut(fr); for (i, v) in fr.iter_mut().enumerate() { if !matches!(v, Val::Uninit) && live.binary_search(&(i as u32)).is_err() { *v = Val::Uninit } } } }
                match work.remove(&nk) {
                    None => { work.insert(nk, (tb, s)); }
                    Some((_, o)) => { let m = merge_states(o, s).map_err(|e| format!("merge at {}:{}: {}", f.name, f.blocks[tb].line, e))?; if !m.pc.dead() { work.insert(nk, (tb, m)); } }
                }
            }
        }
        Ok(ret.map(|mut s| { let fr = s.frames.pop().unwrap(); let v = fr[0].clone(); (s, v) }))
    }
    fn retryable(&self, to: &CallTo) -> bool { match to { CallTo::Direct(c) => matches!(&*c.name, "std::iter::Iterator::next"), _ => false } }
    pub fn call_fnval(&mut self, st: State, f: &Val, args: Vec<Val>) -> Ctl {
        match f {
            Val::Fn(i) => {
                let i = *i;
                let name = norm_name(&i.name());
                match i.ty().kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => { let c = callee(d, &a); let (tys, ret) = self.sig_of(i)?; return match self.call_callee(st, &c, args, &tys, ret, false, None)? { CallRes::Done(x) => Ok(x), _ => Err("split in fn pointer".into()) } }
                    TyKind::RigidTy(RigidTy::Closure(..)) => { let fc = self.func(i)?; if fc.nargs == args.len() + 1 { let mut v = vec![unit()]; if matches!(scal(fc.ltys[1]), Sk::Ptr) { v[0] = ptr(Root::Const(add_const(unit())), vec![]) } v.extend(args); return self.call_inst(st, i, v) } return self.call_inst(st, i, args) }
                    _ => {}
                }
                let _ = name;
                self.call_inst(st, i, args)
            }
            Val::U(u) => {
                let mut acc: Option<(State, Val)> = None;
                for (g, x) in u.iter() { let mut s = st.clone(); if !s.pc.push(*g) { continue } if let Some((s, v)) = self.call_fnval(s, x, args.clone())? { acc = Some(match acc { None => (s, v), Some((s0, v0)) => join(s0, v0, s, v)? }) } }
                Ok(acc)
            }
            _ => Err(format!("call of {}", kind(f))),
        }
    }
    pub fn sig_of(&self, i: Instance) -> R<(Vec<Ty>, Ty)> {
        let s = i.ty().kind().fn_sig().ok_or("no signature")?.skip_binder();
        Ok((s.inputs().to_vec(), s.output()))
    }
    pub fn call_callee(&mut self, st: State, c: &Rc<Callee>, args: Vec<Val>, argtys: &[Ty], dty: Ty, inloop: bool, backup: Option<State>) -> R<CallRes> {
        if matches!(dty.kind(), TyKind::RigidTy(RigidTy::Never)) {
            let msg = args.iter().find_map(|a| if let Val::Str(s) = a { Some(s.to_string()) } else { None }).unwrap_or_default();
            if &*c.name == "std::process::exit" { return Ok(CallRes::Done(None)) }
            self.oblige(ObKind::Panic, format!("panic {}{}", c.name.rsplit("::").next().unwrap_or(""), if msg.is_empty() { String::new() } else { format!(": {}", msg) }), st.pc.term());
            return Ok(CallRes::Done(None));
        }
        if let Some(r) = self.fn_trait(&st, c, &args, argtys)? { let (target, a) = r; return Ok(CallRes::Done(self.apply(st, target, a)?)) }
        let st = match self.builtin(st, c, &args, argtys, dty, inloop, backup)? { Ok(r) => return Ok(r), Err(st) => st };
        let inst = c.inst.ok_or_else(|| format!("unresolved callee {}", c.name))?;
        match inst.kind {
            InstanceKind::Virtual { .. } => {
                let recv = &args[0];
                let alts = self.deref(recv)?;
                let mut acc: Option<(State, Val)> = None;
                for (g, t) in alts {
                    let ty = match t.meta { Meta::Dyn(t) => t, _ => return Err(format!("virtual call on non-dyn {:?}", t)) };
                    let mut ga = c.gargs.clone(); ga.0[0] = GenericArgKind::Type(ty);
                    let c2 = callee(c.def, &ga);
                    let mut s = st.clone(); if !s.pc.push(g) { continue }
                    let mut a2 = args.clone(); let mut t2 = t.clone(); t2.meta = Meta::All; a2[0] = tptr(t2);
                    let mut tys = argtys.to_vec(); if let Some(i) = c2.inst { if let Ok((s, _)) = self.sig_of(i) { tys = s } }
                    match self.call_callee(s, &c2, a2, &tys, dty, false, None)? { CallRes::Done(Some((s, v))) => acc = Some(match acc { None => (s, v), Some((s0, v0)) => join(s0, v0, s, v)? }), CallRes::Done(None) => {}, _ => return Err("split in virtual".into()) }
                }
                Ok(CallRes::Done(acc))
            }
            _ => { if !inst.has_body() { return Err(format!("no body for {} ({})", c.name, c.rname)) } Ok(CallRes::Done(self.call_inst(st, inst, args)?)) }
        }
    }
    /// Fn/FnMut/FnOnce calls
    fn fn_trait(&mut self, _st: &State, c: &Callee, args: &[Val], argtys: &[Ty]) -> R<Option<((Ty, Val, bool), Vec<Val>)>> {
        let by_ref = match &*c.name { "std::ops::FnOnce::call_once" => false, "std::ops::FnMut::call_mut" | "std::ops::Fn::call" => true, _ => return Ok(None) };
        let ty = match c.gargs.0.first() { Some(GenericArgKind::Type(t)) => *t, _ => argtys[0] };
        let tup = match &args[1] { Val::Agg(a) => a.to_vec(), Val::Uninit => vec![], v => return Err(format!("fn args {}", kind(v))) };
        Ok(Some(((ty, args[0].clone(), by_ref), tup)))
    }
    /// call a callable value. `by_ref`: `f` is a pointer to the callable
    pub fn apply(&mut self, mut st: State, (ty, f, by_ref): (Ty, Val, bool), args: Vec<Val>) -> Ctl {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                let c = callee(d, &a);
                let (tys, ret) = match c.inst { Some(i) => self.sig_of(i)?, None => return Err(format!("unresolved {}", c.name)) };
                // enum/struct constructors have bodies as shims
                match self.call_callee(st, &c, args, &tys, ret, false, None)? { CallRes::Done(x) => Ok(x), _ => Err("split in apply".into()) }
            }
            TyKind::RigidTy(RigidTy::FnPtr(_)) => { let fv = if by_ref { self.read_p(&st, &f)? } else { f }; self.call_fnval(st, &fv, args) }
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) => { let fv = if by_ref { self.read_p(&st, &f)? } else { f }; self.apply(st, (t, fv, true), args) }
            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                let ck = match a.0.get(a.0.len() - 3) { Some(GenericArgKind::Type(t)) => match t.kind() { TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => ClosureKind::Fn, TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => ClosureKind::FnMut, _ => ClosureKind::FnOnce }, _ => return Err("closure kind".into()) };
                let inst = Instance::resolve_closure(d, &a, ck).map_err(|e| format!("{:?}", e))?;
                let fc = self.func(inst)?;
                let env_ref = matches!(scal(fc.ltys[1]), Sk::Ptr);
                let mut tmp = None;
                let env = match (env_ref, by_ref) {
                    (true, true) | (false, false) => f,
                    (true, false) => { let t = self.alloc(&mut st, f); tmp = Some(t.clone()); tptr(t) }
                    (false, true) => self.read_p(&st, &f)?,
                };
                let mut v = vec![env]; v.extend(args);
                let r = self.call_inst(st, inst, v)?;
                Ok(r.map(|(mut s, v)| { if let Some(t) = &tmp { self.free(&mut s, t) } (s, v) }))
            }
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => { let fv = if by_ref { self.read_p(&st, &f)? } else { f }; let t = garg_ty(&a, 0).ok_or("box")?; self.apply(st, (t, fv, true), args) }
            TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                let alts = self.deref(&f)?; let mut acc = None;
                for (g, t) in alts { let dt = match t.meta { Meta::Dyn(t) => t, _ => return Err("dyn callable".into()) }; let mut s = st.clone(); if !s.pc.push(g) { continue } let mut t2 = t.clone(); t2.meta = Meta::All; if let Some((s, v)) = self.apply(s, (dt, tptr(t2), true), args.clone())? { acc = Some(match acc { None => (s, v), Some((s0, v0)) => join(s0, v0, s, v)? }) } }
                Ok(acc)
            }
            k => Err(format!("call of {:?}", k)),
        }
    }
    /// run `f` under guard g only; when g is false the result is `Uninit` and the state is unchanged
    pub fn guarded(&mut self, st: State, g: T, f: impl FnOnce(&mut Eng, State) -> Ctl) -> Ctl {
        match st.pc.decide(g) {
            Some(true) => f(self, st),
            Some(false) => Ok(Some((st, Val::Uninit))),
            None => {
                let mut a = st.clone(); if !a.pc.push(g) { let mut st = st; st.pc.push(not(g)); return Ok(Some((st, Val::Uninit))) }
                let r = f(self, a)?;
                let mut b = st; let bok = b.pc.push(not(g));
                match (r, bok) { (Some((s, v)), true) => Ok(Some(join(s, v, b, Val::Uninit)?)), (Some(x), false) => Ok(Some(x)), (None, true) => Ok(Some((b, Val::Uninit))), (None, false) => Ok(None) }
            }
        }
    }
    /// if g { a } else { b }
    pub fn branch(&mut self, st: State, g: T, f: impl FnOnce(&mut Eng, State) -> Ctl, h: impl FnOnce(&mut Eng, State) -> Ctl) -> Ctl {
        match st.pc.decide(g) {
            Some(true) => f(self, st),
            Some(false) => h(self, st),
            None => {
                let mut a = st.clone(); let aok = a.pc.push(g); let mut b = st; let bok = b.pc.push(not(g));
                let x = if aok { f(self, a)? } else { None };
                let y = if bok { h(self, b)? } else { None };
                match (x, y) { (Some((s, v)), Some((t, w))) => Ok(Some(join(s, v, t, w)?)), (Some(x), None) => Ok(Some(x)), (None, y) => Ok(y) }
            }
        }
    }
    pub fn lang_call(&mut self, st: State, name: &str, tys: &[Ty], args: Vec<Val>) -> Ctl {
        let (d, _) = self.lang.get(name).cloned().ok_or_else(|| format!("lang item {} unknown", name))?;
        let ga = GenericArgs(tys.iter().map(|t| GenericArgKind::Type(*t)).collect());
        let c = callee(d, &ga);
        let inst = c.inst.ok_or_else(|| format!("cannot resolve {}", name))?;
        let (at, ret) = self.sig_of(inst)?;
        match self.call_callee(st, &c, args, &at, ret, false, None)? { CallRes::Done(x) => Ok(x), _ => Err("split in lang call".into()) }
    }
}
pub fn join(a: State, x: Val, b: State, y: Val) -> R<(State, Val)> {
    // merge a pending value along with the states by parking it in a pseudo local
    let (mut a, mut b) = (a, b);
    a.frames.push(Rc::new(vec![x])); b.frames.push(Rc::new(vec![y]));
    let mut m = merge_states(a, b)?;
    let f = m.frames.pop().unwrap();
    Ok((m, f[0].clone()))
}
trait P2 { fn is_power_of_two_x60(self) -> bool; }
impl P2 for u64 { fn is_power_of_two_x60(self) -> bool { self % 60 == 0 && (self / 60).is_power_of_two() } }
trait Pipe: Sized { fn pipe<X>(self, f: impl FnOnce(Self) -> X) -> X { f(self) } }
impl<X> Pipe for X {}
pub fn ordering(lt: T, eqq: T) -> Val { Val::En(Rc::new(EnumV { tag: ite(lt, bv(16, 0), ite(eqq, bv(16, 1), bv(16, 2))), pay: vec![Some(Rc::new(vec![])), Some(Rc::new(vec![])), Some(Rc::new(vec![]))] })) }
pub fn checked(op: u8, x: T, y: T, signed: bool) -> (T, T) {
    let w = width(x);
    let v = match op { 0 => add(x, y), 1 => sub(x, y), _ => mul(x, y) };
    let (rx, ry) = (rng(x), rng(y));
    if w <= 64 {
        let no = if signed {
            let h = 1i128 << (w - 1);
            let (lo, hi) = match op { 0 => (rx.slo + ry.slo, rx.shi + ry.shi), 1 => (rx.slo - ry.shi, rx.shi - ry.slo), _ => { let p = [rx.slo.checked_mul(ry.slo), rx.slo.checked_mul(ry.shi), rx.shi.checked_mul(ry.slo), rx.shi.checked_mul(ry.shi)]; if p.iter().any(|x| x.is_none()) { (i128::MIN, i128::MAX) } else { (p.iter().map(|x| x.unwrap()).min().unwrap(), p.iter().map(|x| x.unwrap()).max().unwrap()) } } };
            lo >= -h && hi < h
        } else {
            match op { 0 => rx.uhi + ry.uhi <= mask(w), 1 => rx.ulo >= ry.uhi, _ => rx.uhi.checked_mul(ry.uhi).map(|p| p <= mask(w)).unwrap_or(false) }
        };
        if no { return (v, F) }
    }
    if !signed && op == 1 { return (v, ult(x, y)) }
    if !signed && op == 0 { return (v, ult(v, x)) }
    let ew = if op == 2 { w * 2 } else { w + 1 };
    if ew > 128 { return (v, F) }
    let (ex, ey) = if signed { (sext(x, ew), sext(y, ew)) } else { (zext(x, ew), zext(y, ew)) };
    let ev = match op { 0 => add(ex, ey), 1 => sub(ex, ey), _ => mul(ex, ey) };
    let back = if signed { sext(v, ew) } else { zext(v, ew) };
    (v, not(eq(ev, back)))
}
pub fn seq_len(v: &Val) -> R<T> { match v { Val::Agg(a) => Ok(usz(a.len() as u64)), Val::L(l) => Ok(l.len_t()), Val::Str(s) => Ok(usz(s.len() as u64)), Val::U(u) => { let mut acc = None; for (g, x) in u.iter().rev() { let l = seq_len(x)?; acc = Some(match acc { None => l, Some(a) => ite(*g, l, a) }) } Ok(acc.unwrap()) } _ => Err(format!("length of {}", kind(v))) } }
fn brief(r: &Rv) -> String { let s = format!("{:?}", r); s.chars().take(120).collect() }
fn key_enter(_f: &Fnc, b: usize, _from: Option<usize>, _it: u32) -> Vec<u32> {
    if b == 0 && _from.is_none() { let bl = &_f.blocks[0]; let mut k = vec![]; for h in &bl.nest { k.push(*h); k.push(0) } k.push(bl.pos); return k }
    vec![]
}
fn key_step(f: &Fnc, key: &[u32], from: usize, to: usize) -> Vec<u32> {
    let (a, b) = (&f.blocks[from], &f.blocks[to]);
    let mut k = Vec::with_capacity(2 * b.nest.len() + 1);
    let mut common = true;
    for (i, h) in b.nest.iter().enumerate() {
        if common && a.nest.get(i) == Some(h) {
            // back edge to the head of this component?
            let mut it = key[2 * i + 1];
            if b.head_of == Some(*h) && i + 1 == b.nest.len() { it += 1; }
            k.push(*h); k.push(it);
        } else { common = false; k.push(*h); k.push(0) }
    }
    k.push(b.pos);
    k
}
pub fn liveness(f: &mut Fnc) {
    let n = f.nlocals;
    let mut addr = vec![false; n];
    for b in &f.blocks { for s in &b.st { if let crate::ir::St::Assign(_, Rv::Addr(p)) = s { if !matches!(p.proj.first(), Some(Pj::Deref)) { addr[p.local as usize] = true } } } }
    fn use_pl(p: &Pl, u: &mut Vec<u32>) { u.push(p.local); for e in &p.proj { if let Pj::I(l) = e { u.push(*l) } } }
    fn use_o(o: &Opnd, u: &mut Vec<u32>) { match o { Opnd::Copy(p) | Opnd::Move(p) => use_pl(p, u), _ => {} } }
    fn use_rv(r: &Rv, u: &mut Vec<u32>) { match r { Rv::Use(o) | Rv::Un(_, o, _) | Rv::Cast(_, o, _, _) | Rv::UnionField(o) | Rv::Repeat(o, _) => use_o(o, u), Rv::Addr(p) | Rv::Discr(p, ..) | Rv::Len(p) => use_pl(p, u), Rv::Bin(_, a, b, _, _) | Rv::Chk(_, a, b, _) | Rv::RawPtr(a, b) => { use_o(a, u); use_o(b, u) } Rv::Tuple(v) | Rv::Array(v) | Rv::Variant(_, v) => for o in v { use_o(o, u) }, Rv::Tls(_) => {} } }
    // gen/kill per block
    let mut live: Vec<Vec<bool>> = vec![vec![false; n]; f.blocks.len()];
    let transfer = |f: &Fnc, bi: usize, out: &mut Vec<bool>| {
        let b = &f.blocks[bi];
        let mut u = vec![];
        match &b.tm {
            Tm::Switch(o, ..) => use_o(o, &mut u), Tm::Ret => u.push(0), Tm::Assert { cond, .. } => use_o(cond, &mut u),
            Tm::Call { to, args, dest, .. } => { if dest.proj.is_empty() { out[dest.local as usize] = false } else { use_pl(dest, &mut u) } for a in args { use_o(a, &mut u) } if let CallTo::Indirect(o) = to { use_o(o, &mut u) } }
            _ => {}
        }
        for x in u { out[x as usize] = true }
        for s in b.st.iter().rev() {
            let mut u = vec![];
            match s {
                crate::ir::St::Assign(p, r) => { if p.proj.is_empty() { out[p.local as usize] = false } else { use_pl(p, &mut u) } use_rv(r, &mut u) }
                crate::ir::St::SetDiscr(p, _) => use_pl(p, &mut u),
                crate::ir::St::Dead(l) => out[*l as usize] = false,
                crate::ir::St::CopyNo(a, b, c) => { use_o(a, &mut u); use_o(b, &mut u); use_o(c, &mut u) }
            }
            for x in u { out[x as usize] = true }
        }
    };
    loop {
        let mut ch = false;
        for bi in (0..f.blocks.len()).rev() {
            let mut out = vec![false; n];
            for s in succs_pub(&f.blocks[bi].tm) { for i in 0..n { if live[s][i] { out[i] = true } } }
            transfer(f, bi, &mut out);
            if out != live[bi] { live[bi] = out; ch = true }
        }
        if !ch { break }
    }
    for (bi, b) in f.blocks.iter_mut().enumerate() { b.live_in = (0..n as u32).filter(|i| live[bi][*i as usize] || addr[*i as usize]).collect() }
}
