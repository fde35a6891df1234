//! SMT-LIB back end (z3 over a pipe).
use crate::term::*;
use crate::val::R;
use std::io::{BufRead, BufReader, Write};
use std::process::*;

pub struct Proc { child: Child, inp: ChildStdin, out: BufReader<ChildStdout>, emitted: FxSet<T>, vars: FxSet<u32>, ufs: FxSet<u32> }
impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
pub struct Smt { quick: Option<Proc>, pub queries: u64, pub time: f64, pub unknown: u64, pub maxq: f64 }
pub enum Ans { Sat(FxMap<u32, u128>), Unsat, Unknown(String) }

fn sname(s: Sort) -> &'static str { match s { Sort::Bool => "Bool", Sort::F32 => "(_ FloatingPoint 8 24)", Sort::F64 => "(_ FloatingPoint 11 53)", Sort::Bv(_) => "" } }
fn so(s: Sort) -> String { match s { Sort::Bv(w) => format!("(_ BitVec {})", w), _ => sname(s).to_string() } }
fn cst(s: Sort, v: u128) -> String {
    match s {
        Sort::Bool => if v == 1 { "true".into() } else { "false".into() },
        Sort::Bv(w) => format!("(_ bv{} {})", v, w),
        Sort::F32 => format!("((_ to_fp 8 24) (_ bv{} 32))", v), Sort::F64 => format!("((_ to_fp 11 53) (_ bv{} 64))", v),
    }
}
fn rf(t: T) -> String { match node(t) { N::C(s, v) => cst(*s, *v), N::V(Sort::F32, i) => format!("((_ to_fp 8 24) v{})", i), N::V(Sort::F64, i) => format!("((_ to_fp 11 53) v{})", i), N::V(_, i) => format!("v{}", i), N::A(..) => format!("n{}", t.0) } }
fn body(t: T) -> R<String> {
    let (op, s, a, imm) = match node(t) { N::A(o, s, a, i) => (*o, *s, a, *i), _ => return Ok(rf(t)) };
    let r = |i: usize| rf(a[i]);
    let w = |i: usize| width(a[i]);
    let eb = |s: Sort| match s { Sort::F32 => "8 24", _ => "11 53" };
    let sm = |n: &str| { let mut x = format!("({}", n); for y in a.iter() { x.push(' '); x.push_str(&rf(*y)) } x.push(')'); x };
    Ok(match op {
        Op::Not => sm("not"), Op::And => sm("and"), Op::Ite => sm("ite"), Op::Eq => sm("="),
        Op::Add => sm("bvadd"), Op::Sub => sm("bvsub"), Op::Neg => sm("bvneg"), Op::Mul => sm("bvmul"), Op::UDiv => sm("bvudiv"), Op::SDiv => sm("bvsdiv"), Op::URem => sm("bvurem"), Op::SRem => sm("bvsrem"),
        Op::BAnd => sm("bvand"), Op::BOr => sm("bvor"), Op::BXor => sm("bvxor"), Op::BNot => sm("bvnot"), Op::Shl => sm("bvshl"), Op::LShr => sm("bvlshr"), Op::AShr => sm("bvashr"),
        Op::Ult => sm("bvult"), Op::Slt => sm("bvslt"), Op::Concat => sm("concat"),
        Op::Zext => format!("((_ zero_extend {}) {})", width(t) - w(0), r(0)), Op::Sext => format!("((_ sign_extend {}) {})", width(t) - w(0), r(0)),
        Op::Extract => format!("((_ extract {} {}) {})", imm + width(t) as u32 - 1, imm, r(0)),
        Op::FAdd => format!("(fp.add RNE {} {})", r(0), r(1)), Op::FSub => format!("(fp.sub RNE {} {})", r(0), r(1)), Op::FMul => format!("(fp.mul RNE {} {})", r(0), r(1)), Op::FDiv => format!("(fp.div RNE {} {})", r(0), r(1)),
        Op::FNeg => sm("fp.neg"), Op::FAbs => sm("fp.abs"), Op::FSqrt => format!("(fp.sqrt RNE {})", r(0)), Op::FFloor => format!("(fp.roundToIntegral RTN {})", r(0)), Op::FCeil => format!("(fp.roundToIntegral RTP {})", r(0)), Op::FTrunc => format!("(fp.roundToIntegral RTZ {})", r(0)), Op::FLt => sm("fp.lt"), Op::FLe => sm("fp.leq"), Op::FEq => sm("fp.eq"), Op::FIsNan => sm("fp.isNaN"),
        Op::SToF => format!("((_ to_fp {}) RNE {})", eb(s), r(0)), Op::UToF => format!("((_ to_fp_unsigned {}) RNE {})", eb(s), r(0)), Op::FToF => format!("((_ to_fp {}) RNE {})", eb(s), r(0)),
        Op::FFromBits => format!("((_ to_fp {}) {})", eb(s), r(0)),
        Op::FToS => {
            let n = width(t); let f = eb(sort(a[0])); let x = r(0);
            let lim = format!("((_ to_fp {}) RNE {})", f, cst(Sort::Bv(n.min(127) + 1), 1u128 << (n - 1)));
            let lo = format!("(fp.neg {})", lim);
            format!("(ite (fp.isNaN {x}) (_ bv0 {n}) (ite (fp.leq {lim} {x}) (_ bv{} {n}) (ite (fp.lt {x} {lo}) (_ bv{} {n}) ((_ fp.to_sbv {n}) RTZ {x}))))", (1u128 << (n - 1)) - 1, 1u128 << (n - 1))
        }
        Op::FToU => {
            let n = width(t); let f = eb(sort(a[0])); let x = r(0);
            let lim = format!("((_ to_fp_unsigned {}) RNE {})", f, cst(Sort::Bv(n + 1), 1u128 << n));
            format!("(ite (or (fp.isNaN {x}) (fp.leq {x} ((_ to_fp {f}) (_ bv0 {}))))  (_ bv0 {n}) (ite (fp.leq {lim} {x}) (_ bv{} {n}) ((_ fp.to_ubv {n}) RTZ {x})))", if matches!(sort(a[0]), Sort::F32) { 32 } else { 64 }, mask(n))
        }
        Op::Uf => { if a.is_empty() { format!("uf{}", imm) } else { sm(&format!("uf{}", imm)) } }
        Op::FRem | Op::FBits => return Err(format!("no SMT encoding for {:?}", op)),
    })
}
struct Em<'a> { abs: bool,  emitted: &'a mut FxSet<T>, vars: &'a mut FxSet<u32>, ufs: &'a mut FxSet<u32> }
fn emit(out: &mut String, t: T, e: &mut Em) -> R<()> {
    let mut stack = vec![(t, false)];
    while let Some((t, done)) = stack.pop() {
        if e.emitted.contains(&t) { continue }
        match node(t) {
            N::C(..) => {}
            N::V(s, id) if def_of(*id).is_some() => {
                let d = def_of(*id).unwrap();
                if done || e.emitted.contains(&d) || is_const(d) { e.emitted.insert(t); e.vars.insert(*id); out.push_str(&format!("(define-fun v{} () {} {})\n", id, so(*s), rf(d))); }
                else { stack.push((t, true)); stack.push((d, false)) }
            }
            N::V(s, id) => {
                e.emitted.insert(t);
                if e.vars.insert(*id) {
                    let bs = match s { Sort::F32 => Sort::Bv(32), Sort::F64 => Sort::Bv(64), s => *s };
                    out.push_str(&format!("(declare-const v{} {})\n", id, so(bs)));
                    let vi = &tt().vars[*id as usize];
                    if let (true, Sort::Bv(w)) = (vi.has_range, *s) {
                        let (lo, hi) = (vi.lo as u128 & mask(w), vi.hi as u128 & mask(w));
                        let le = if vi.signed { "bvsle" } else { "bvule" };
                        out.push_str(&format!("(assert (and ({le} (_ bv{lo} {w}) v{id}) ({le} v{id} (_ bv{hi} {w}))))\n"));
                    }
                }
            }
            N::A(op, s, a, imm) => {
                if done {
                    e.emitted.insert(t);
                    if *op == Op::Uf && e.ufs.insert(*imm) { out.push_str(&format!("(declare-fun uf{} ({}) {})\n", imm, a.iter().map(|x| so(sort(*x))).collect::<Vec<_>>().join(" "), so(*s))) }
                    if e.abs && matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FToF | Op::SToF | Op::UToF | Op::FToS | Op::FToU) { out.push_str(&format!("(declare-const n{} {})\n", t.0, so(*s))); continue }
                    out.push_str(&format!("(define-fun n{} () {} {})\n", t.0, so(*s), body(t)?));
                } else { stack.push((t, true)); for x in a.iter() { if !e.emitted.contains(x) { stack.push((*x, false)) } } }
            }
        }
    }
    Ok(())
}
fn spawn(bin: &str, args: &[&str]) -> R<Proc> {
    let mut child = Command::new(bin).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).env_remove("LD_LIBRARY_PATH").spawn().map_err(|e| format!("{}: {}", bin, e))?;
    let inp = child.stdin.take().unwrap(); let out = BufReader::new(child.stdout.take().unwrap());
    Ok(Proc { child, inp, out, emitted: Default::default(), vars: Default::default(), ufs: Default::default() })
}
impl Proc {
    fn line(&mut self) -> R<String> { let mut s = String::new(); loop { s.clear(); let n = self.out.read_line(&mut s).map_err(|e| e.to_string())?; if n == 0 { return Err("solver closed".into()) } if !s.trim().is_empty() { return Ok(s.trim().to_string()) } } }
}
fn hasfp(t: T) -> (bool, bool) {
    let mut seen: FxSet<T> = Default::default(); let mut st = vec![t]; let (mut fp, mut uf) = (false, false);
    while let Some(t) = st.pop() { if !seen.insert(t) { continue } match node(t) { N::C(s, _) | N::V(s, _) => { if matches!(s, Sort::F32 | Sort::F64) { fp = true } if let N::V(_, i) = node(t) { if let Some(d) = def_of(*i) { st.push(d) } } } N::A(o, s, a, _) => { if matches!(s, Sort::F32 | Sort::F64) { fp = true } if *o == Op::Uf { uf = true } st.extend(a.iter()) } } }
    (fp, uf)
}
pub fn free_vars(t: T) -> Vec<u32> {
    let mut seen: FxSet<T> = Default::default(); let mut st = vec![t]; let mut r = vec![];
    while let Some(t) = st.pop() { if !seen.insert(t) { continue } match node(t) { N::V(_, i) => { r.push(*i); if let Some(d) = def_of(*i) { st.push(d) } } N::A(_, _, a, _) => st.extend(a.iter()), _ => {} } }
    r.sort(); r.dedup(); r
}
impl Smt {
    pub fn new() -> Smt { Smt { quick: None, queries: 0, time: 0., unknown: 0, maxq: 0. } }
    pub fn after_fork(&mut self) { if let Some(p) = self.quick.take() { std::mem::forget(p) } }
    /// incremental feasibility query; None = unknown
    pub fn sat(&mut self, t: T, timeout_s: u32) -> R<Option<bool>> {
        if t == TR { return Ok(Some(true)) } if t == F { return Ok(Some(false)) }
        let t0 = std::time::Instant::now();
        if self.quick.is_none() { let mut p = spawn("z3-new", &["-in", "-smt2"])?; p.inp.write_all(format!("(set-option :timeout {})\n", timeout_s * 1000).as_bytes()).map_err(|e| e.to_string())?; self.quick = Some(p) }
        let p = self.quick.as_mut().unwrap();
        let mut s = String::new();
        let mut e = Em { abs: true, emitted: &mut p.emitted, vars: &mut p.vars, ufs: &mut p.ufs };
        emit(&mut s, t, &mut e)?;
        s.push_str(&format!("(push)\n(assert {})\n(check-sat)\n(pop)\n", rf(t)));
        p.inp.write_all(s.as_bytes()).map_err(|e| e.to_string())?; p.inp.flush().map_err(|e| e.to_string())?;
        let l = p.line()?;
        self.queries += 1; self.time += t0.elapsed().as_secs_f64();
        match l.as_str() { "sat" => Ok(Some(true)), "unsat" => Ok(Some(false)), "unknown" | "timeout" => { self.unknown += 1; Ok(None) } _ => Err(format!("solver: {}", l)) }
    }
    /// one-shot query in a fresh solver, with model. With floating point, first with its arithmetic left
    /// arbitrary: if no values at all satisfy the query, neither do the exact ones.
    pub fn solve(&mut self, t: T, timeout_s: u32) -> R<Ans> {
        if t == F { return Ok(Ans::Unsat) }
        if hasfp(t).0 { if let Ans::Unsat = self.solve_(t, timeout_s, true)? { return Ok(Ans::Unsat) } }
        self.solve_(t, timeout_s, false)
    }
    /// for reachability witnesses: floating-point arithmetic left arbitrary
    pub fn solve_abs(&mut self, t: T, timeout_s: u32) -> R<Ans> { if t == F { return Ok(Ans::Unsat) } self.solve_(t, timeout_s, true) }
    fn solve_(&mut self, t: T, timeout_s: u32, abs: bool) -> R<Ans> {
        let t0 = std::time::Instant::now();
        let (fp, uf) = hasfp(t);
        let logic = match (fp, uf) { (false, false) => "QF_BV", (false, true) => "QF_UFBV", (true, false) => "QF_BVFP", (true, true) => "QF_UFBVFP" };
        let (mut em, mut vars, mut ufs) = (Default::default(), Default::default(), Default::default());
        let mut s = String::new();
        s.push_str(&format!("(set-option :produce-models true)\n{}(set-option :timeout {})\n", if logic == "QF_UFBVFP" { String::new() } else { format!("(set-logic {})\n", logic) }, timeout_s * 1000));
        emit(&mut s, t, &mut Em { abs, emitted: &mut em, vars: &mut vars, ufs: &mut ufs })?;
        s.push_str(&format!("(assert {})\n(check-sat)\n", rf(t)));
        if let Ok(d) = std::env::var("MIRSYM_DUMP") { let _ = std::fs::write(format!("{}/q{}-{}.smt2", d, std::process::id(), self.queries), &s); }
        let mut p = spawn("z3-new", &["-in", "-smt2", &format!("-T:{}", timeout_s + 5)])?;
        let mut inp_err = None;
        if let Err(e) = p.inp.write_all(s.as_bytes()).and_then(|_| p.inp.flush()) { inp_err = Some(e.to_string()) }
        if let Some(e) = inp_err { return Err(e) }
        let l = p.line()?;
        let dt = t0.elapsed().as_secs_f64(); self.queries += 1; self.time += dt; if dt > self.maxq { self.maxq = dt }
        match l.as_str() {
            "unsat" => Ok(Ans::Unsat),
            "sat" => {
                let mut m: FxMap<u32, u128> = Default::default();
                let vs: Vec<u32> = vars.iter().copied().collect();
                if !vs.is_empty() {
                    let q = format!("(get-value ({}))\n(echo \"@end\")\n", vs.iter().map(|v| format!("v{}", v)).collect::<Vec<_>>().join(" "));
                    p.inp.write_all(q.as_bytes()).map_err(|e| e.to_string())?; p.inp.flush().map_err(|e| e.to_string())?;
                    let mut txt = String::new();
                    loop { let l = p.line()?; if l.contains("@end") { break } txt.push_str(&l); txt.push(' ') }
                    for part in txt.split("(v").skip(1) {
                        let part = part.trim_end_matches(|c: char| c == ')' || c.is_whitespace() || c == '(');
                        let mut it = part.splitn(2, ' ');
                        let id: u32 = it.next().unwrap_or("").parse().map_err(|_| format!("model: {}", part))?;
                        let v = it.next().unwrap_or("").trim();
                        let val = if v == "true" { 1 } else if v == "false" { 0 } else if let Some(h) = v.strip_prefix("#x") { u128::from_str_radix(h, 16).map_err(|e| e.to_string())? } else if let Some(b) = v.strip_prefix("#b") { u128::from_str_radix(b, 2).map_err(|e| e.to_string())? } else { return Err(format!("model value {}", v)) };
                        m.insert(id, val);
                    }
                }
                Ok(Ans::Sat(m))
            }
            "unknown" | "timeout" => { self.unknown += 1; Ok(Ans::Unknown(l)) }
            _ => Err(format!("solver: {}", l)),
        }
    }
}
