//! integer / float methods, intrinsics, randomness, formatting, configuration.
use crate::b_core::*;
use crate::b_misc::*;
use crate::exec::*;
use crate::ir::*;
use crate::ok;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};

fn flog(name: &str, x: T) -> T {
    // transcendental functions: constants are folded natively, everything else is uninterpreted
    let s = sort(x);
    if let Some(c) = cval(x) { let f = |v: f64| match name { "ln" => v.ln(), "exp" => v.exp(), "log2" => v.log2(), "log10" => v.log10(), "tanh" => v.tanh(), "sin" => v.sin(), "cos" => v.cos(), _ => v };
        return match s { Sort::F32 => { let v = f32v(c); f32c(match name { "ln" => v.ln(), "exp" => v.exp(), "log2" => v.log2(), "log10" => v.log10(), "tanh" => v.tanh(), _ => f(v as f64) as f32 }) } _ => f64c(f(f64v(c))) } }
    uf(&format!("{}_{}", name, if s == Sort::F32 { 32 } else { 64 }), s, &[x])
}
impl Eng {
    pub fn b_num(&mut self, st: State, cx: &Cx) -> B {
        let n: &str = &cx.c.name; let a = cx.args; let mut st = st;
        let (cl, m) = match n.rsplit_once("::") { Some(x) => x, None => return Ok(Err(st)) };
        if let Some(t) = cl.strip_prefix("core::num::<impl ").or(cl.strip_prefix("std::num::<impl ")) {
            let tn = t.trim_end_matches('>');
            let (w, s) = match tn { "i8" => (8, true), "i16" => (16, true), "i32" => (32, true), "i64" | "isize" => (64, true), "i128" => (128, true), "u8" => (8, false), "u16" => (16, false), "u32" => (32, false), "u64" | "usize" => (64, false), "u128" => (128, false), _ => return Ok(Err(st)) };
            let z = bv(w, 0); let x = match a.get(0) { Some(v) => match v.t() { Ok(t) => t, Err(_) => return Ok(Err(st)) }, None => return Ok(Err(st)) };
            let y = a.get(1).and_then(|v| v.t().ok());
            let isneg = if s { slt(x, z) } else { F };
            let minv = if s { int_min(w) } else { z }; let maxv = if s { sub(minv, bv(w, 1)) } else { bv(w, mask(w)) };
            let opc = |m: &str| match m.rsplit_once('_').map(|x| x.1).unwrap_or("") { "add" => Some(0u8), "sub" => Some(1), "mul" => Some(2), _ => None };
            let r = match m {
                "abs" if s => { if !self.must(&mut st, not(eq(x, int_min(w))), "attempt to negate with overflow") { return Ok(Ok(None)) } ite(isneg, neg(x), x) }
                "unsigned_abs" | "wrapping_abs" if s => ite(isneg, neg(x), x),
                "signum" if s => ite(isneg, bv(w, mask(w)), ite(eq(x, z), z, bv(w, 1))),
                "is_positive" => slt(z, x), "is_negative" => isneg,
                "abs_diff" => { let y = y.ok_or("abs_diff")?; let lt = if s { slt(x, y) } else { ult(x, y) }; ite(lt, sub(y, x), sub(x, y)) }
                "wrapping_add" => add(x, y.unwrap()), "wrapping_sub" => sub(x, y.unwrap()), "wrapping_mul" => mul(x, y.unwrap()), "wrapping_neg" => neg(x),
                "unchecked_add" => add(x, y.unwrap()), "unchecked_sub" => sub(x, y.unwrap()), "unchecked_mul" => mul(x, y.unwrap()),
                "checked_add" | "checked_sub" | "checked_mul" | "overflowing_add" | "overflowing_sub" | "overflowing_mul" | "saturating_add" | "saturating_sub" | "saturating_mul" => {
                    let y = y.ok_or("operand")?; let op = opc(m).unwrap(); let (v, o) = checked(op, x, y, s);
                    if m.starts_with("checked") { ok!(st, option(not(o), Val::S(v))) }
                    if m.starts_with("overflowing") { ok!(st, agg(vec![Val::S(v), Val::S(o)])) }
                    let sat = if !s { if op == 1 { z } else { maxv } } else { let yneg = slt(y, z); match op { 0 => ite(yneg, minv, maxv), 1 => ite(yneg, maxv, minv), _ => ite(eq(isneg, yneg), maxv, minv) } };
                    ite(o, sat, v)
                }
                "checked_div" | "checked_rem" => { let y = y.ok_or("operand")?; let bad = or(eq(y, z), if s { and(eq(x, minv), eq(y, bv(w, mask(w)))) } else { F }); let v = bin(match (m, s) { ("checked_div", true) => Op::SDiv, ("checked_div", false) => Op::UDiv, (_, true) => Op::SRem, _ => Op::URem }, x, y); ok!(st, option(not(bad), Val::S(v))) }
                "rem_euclid" | "div_euclid" => {
                    let y = y.ok_or("operand")?; if !self.must(&mut st, not(eq(y, z)), "attempt to calculate the remainder with a divisor of zero") { return Ok(Ok(None)) }
                    if !s { bin(if m == "rem_euclid" { Op::URem } else { Op::UDiv }, x, y) }
                    else { let r = bin(Op::SRem, x, y); let q = bin(Op::SDiv, x, y); let rn = slt(r, z); let yn = slt(y, z); if m == "rem_euclid" { ite(rn, ite(yn, sub(r, y), add(r, y)), r) } else { ite(rn, ite(yn, add(q, bv(w, 1)), sub(q, bv(w, 1))), q) } }
                }
                "pow" | "checked_pow" | "wrapping_pow" => {
                    let e = a[1].t()?; let hi = rng(e).uhi; let k = cval(e);
                    let kmax = match k { Some(k) => k, None if hi <= 32 => hi, _ => return Err("pow with symbolic exponent".into()) };
                    let mut accv = bv(w, 1); let mut ov = F; let mut res = bv(w, 1); let mut rov = F;
                    for i in 1..=kmax { let (v, o) = checked(2, accv, x, s); ov = or(ov, o); accv = v; let here = match k { Some(_) => boolc(i == kmax), None => eq(e, bv(32, i)) }; res = ite(here, accv, res); rov = ite(here, ov, rov) }
                    match m { "checked_pow" => ok!(st, option(not(rov), Val::S(res))), "wrapping_pow" => res, _ => { if !self.must(&mut st, not(rov), "attempt to multiply with overflow") { return Ok(Ok(None)) } res } }
                }
                "count_ones" | "count_zeros" | "trailing_zeros" | "leading_zeros" => {
                    let bit = |i: u32| eq(extract(x, i, 1), bv(1, 1));
                    match m {
                        "count_ones" => { let g: Vec<T> = (0..w as u32).map(bit).collect(); extract(count(&g), 0, 32) }
                        "count_zeros" => { let g: Vec<T> = (0..w as u32).map(|i| not(bit(i))).collect(); extract(count(&g), 0, 32) }
                        "trailing_zeros" => { let mut acc = bv(32, w as u128); for i in (0..w as u32).rev() { acc = ite(bit(i), bv(32, i as u128), acc) } acc }
                        _ => { let mut acc = bv(32, w as u128); for i in 0..w as u32 { acc = ite(bit(i), bv(32, (w as u32 - 1 - i) as u128), acc) } acc }
                    }
                }
                "max_value" => maxv, "min_value" => minv,
                _ => return Ok(Err(st)),
            };
            ok!(st, Val::S(r))
        }
        if cl.starts_with("std::f32::<impl f32") || cl.starts_with("std::f64::<impl f64") || cl.starts_with("core::f32::<impl f32") || cl.starts_with("core::f64::<impl f64") || cl == "std::f32" || cl == "std::f64" {
            let x = match a.get(0).map(|v| v.t()) { Some(Ok(x)) => x, _ => return Ok(Err(st)) }; let so = sort(x);
            let c = |v: f64| if so == Sort::F32 { f32c(v as f32) } else { f64c(v) };
            let p = |o, x: T, y: T| mk(o, Sort::Bool, &[x, y], 0);
            let y = a.get(1).and_then(|v| v.t().ok());
            let isnan = |x| mk(Op::FIsNan, Sort::Bool, &[x], 0);
            let r = match m {
                "sqrt" => un(Op::FSqrt, so, x), "floor" => un(Op::FFloor, so, x), "ceil" => un(Op::FCeil, so, x), "trunc" => un(Op::FTrunc, so, x), "abs" => un(Op::FAbs, so, x),
                "ln" | "exp" | "log2" | "log10" | "tanh" | "sin" | "cos" => flog(m, x),
                "powf" | "powi" => { let y = y.ok_or("pow")?; if let Some(k) = scval(y).filter(|_| m == "powi") { if k >= 0 && k <= 8 { let mut acc = c(1.0); for i in 0..k { acc = if i == 0 { x } else { mk(Op::FMul, so, &[acc, x], 0) } } ok!(st, Val::S(acc)) } } uf(&format!("{}_{}", m, width(x)), so, &[x, y]) }
                "is_nan" => isnan(x),
                "is_infinite" => p(Op::FEq, un(Op::FAbs, so, x), c(f64::INFINITY)),
                "is_finite" => p(Op::FLt, un(Op::FAbs, so, x), c(f64::INFINITY)),
                "max" | "min" => { let y = y.ok_or("max")?; let pick = if m == "max" { p(Op::FLt, x, y) } else { p(Op::FLt, y, x) }; ite(isnan(x), y, ite(isnan(y), x, ite(pick, y, x))) }
                "clamp" => { let hi = a[2].t()?; let lo = y.ok_or("clamp")?; ite(p(Op::FLt, x, lo), lo, ite(p(Op::FLt, hi, x), hi, x)) }
                "to_bits" => mk(Op::FBits, Sort::Bv(width(x)), &[x], 0),
                "from_bits" => mk(Op::FFromBits, if m == "from_bits" && cl.contains("f64") { Sort::F64 } else { Sort::F32 }, &[x], 0),
                "signum" => { let neg_ = p(Op::FLt, x, c(0.0)); ite(isnan(x), x, ite(neg_, c(-1.0), c(1.0))) }
                "is_sign_negative" => eq(extract(mk(Op::FBits, Sort::Bv(width(x)), &[x], 0), width(x) as u32 - 1, 1), bv(1, 1)),
                "recip" => mk(Op::FDiv, so, &[c(1.0), x], 0),
                "mul_add" => { let z = a[2].t()?; mk(Op::FAdd, so, &[mk(Op::FMul, so, &[x, y.unwrap()], 0), z], 0) }
                "floor" | "ceil" | "round" | "trunc" => { if let Some(k) = cval(x) { let f = |v: f64| match m { "floor" => v.floor(), "ceil" => v.ceil(), "round" => v.round(), _ => v.trunc() }; if so == Sort::F32 { f32c(f(f32v(k) as f64) as f32) } else { f64c(f(f64v(k))) } } else { uf(&format!("{}_{}", m, width(x)), so, &[x]) } }
                "total_cmp" => { let y0 = self.read_p(&st, &a[1])?.t()?; let _ = y0; return Ok(Err(st)) }
                _ => return Ok(Err(st)),
            };
            ok!(st, Val::S(r))
        }
        if cl == "std::intrinsics" || cl == "core::intrinsics" {
            let x = a.get(0).and_then(|v| v.t().ok()); let y = a.get(1).and_then(|v| v.t().ok());
            let sg = matches!(cx.tys.get(0).map(|t| scal(*t)), Some(Sk::Int(_, true)));
            match m {
                "cold_path" | "assume" | "assert_inhabited" | "assert_zero_valid" | "prefetch_read_data" => ok!(st, unit()),
                "likely" | "unlikely" | "black_box" => ok!(st, a[0].clone()),
                "size_of" => { let l = cx.ga(0)?.layout().map_err(|e| format!("{:?}", e))?.shape(); ok!(st, vusz(l.size.bytes())) }
                "align_of" | "min_align_of" => { let l = cx.ga(0)?.layout().map_err(|e| format!("{:?}", e))?.shape(); ok!(st, vusz(l.abi_align as usize)) }
                "needs_drop" => ok!(st, sb(false)),
                "wrapping_add" | "unchecked_add" => ok!(st, Val::S(add(x.unwrap(), y.unwrap()))),
                "wrapping_sub" | "unchecked_sub" => ok!(st, Val::S(sub(x.unwrap(), y.unwrap()))),
                "wrapping_mul" | "unchecked_mul" => ok!(st, Val::S(mul(x.unwrap(), y.unwrap()))),
                "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => { let (v, o) = checked(match m.as_bytes()[0] { b'a' => 0, b's' => 1, _ => 2 }, x.unwrap(), y.unwrap(), sg); ok!(st, agg(vec![Val::S(v), Val::S(o)])) }
                "saturating_add" | "saturating_sub" => { let (v, o) = checked(if m.ends_with("add") { 0 } else { 1 }, x.unwrap(), y.unwrap(), sg); let w = width(v); let r = if sg { let yn = slt(y.unwrap(), bv(w, 0)); let (mn, mx) = (int_min(w), sub(int_min(w), bv(w, 1))); if m.ends_with("add") { ite(yn, mn, mx) } else { ite(yn, mx, mn) } } else if m.ends_with("add") { bv(w, mask(w)) } else { bv(w, 0) }; ok!(st, Val::S(ite(o, r, v))) }
                "exact_div" | "unchecked_div" => ok!(st, Val::S(bin(if sg { Op::SDiv } else { Op::UDiv }, x.unwrap(), y.unwrap()))),
                "unchecked_rem" => ok!(st, Val::S(bin(if sg { Op::SRem } else { Op::URem }, x.unwrap(), y.unwrap()))),
                "three_way_compare" => { let (x, y) = (x.unwrap(), y.unwrap()); ok!(st, ordering(if sg { slt(x, y) } else { ult(x, y) }, eq(x, y))) }
                "fabsf32" | "fabsf64" | "fabs" => ok!(st, Val::S(un(Op::FAbs, sort(x.unwrap()), x.unwrap()))),
                "sqrtf32" | "sqrtf64" => ok!(st, Val::S(un(Op::FSqrt, sort(x.unwrap()), x.unwrap()))),
                "logf32" | "logf64" => ok!(st, Val::S(flog("ln", x.unwrap()))),
                "expf32" | "expf64" => ok!(st, Val::S(flog("exp", x.unwrap()))),
                "abort" => Ok(Ok(None)),
                "ub_checks" | "overflow_checks" | "contract_checks" => ok!(st, sb(m == "overflow_checks")),
                "discriminant_value" => { let v = self.read_p(&st, &a[0])?; let ty = pointee(cx.tys[0]).ok_or("discr")?; let (d, _) = adt(ty).ok_or("discriminant of non-adt")?; let w = match scal(cx.dty) { Sk::Int(w, _) => w, _ => 64 }; let map: Vec<(u32, u128)> = (0..d.num_variants()).map(|i| (i as u32, d.discriminant_for_variant(vidx(i)).val & mask(w))).collect(); let t = self.discr(&v, &map, w)?; ok!(st, Val::S(t)) }
                "read_via_copy" | "volatile_load" => { let v = self.read_p(&st, &a[0])?; ok!(st, v) }
                "write_via_move" => { self.write_p(&mut st, &a[0], &a[1])?; ok!(st, unit()) }
                "is_val_statically_known" => ok!(st, sb(false)),
                "select_unpredictable" => { let v = merge(x.unwrap(), &a[1], &a[2])?; ok!(st, v) }
                _ => Err(format!("intrinsic {}", m)),
            }
        } else { Ok(Err(st)) }
    }
    /// a symbolic draw in [lo, hi] (signed or unsigned)
    fn draw_int(&mut self, st: &mut State, what: &str, w: u8, signed: bool, lo: T, hi: T) -> R<Option<T>> {
        let rg = if signed { match (scval(lo), scval(hi)) { (Some(x), Some(y)) => Some((x, y, true)), _ => None } } else { match (cval(lo), cval(hi)) { (Some(x), Some(y)) => Some((x as i128, y as i128, false)), _ => None } };
        let v = match rg { Some((x, y, _)) if x == y => lo, _ => self.fresh_var(what, Sort::Bv(w), rg) };
        if rg.is_none() { let le = |x, y| if signed { not(slt(y, x)) } else { not(ult(y, x)) }; let c = and(le(lo, v), le(v, hi)); if !st.pc.push(c) { return Ok(None) } }
        self.records.push((what.to_string(), st.pc.term(), v));
        Ok(Some(v))
    }
    pub fn b_misc(&mut self, st: State, cx: &Cx) -> B {
        let n: &str = &cx.c.name; let a = cx.args; let mut st = st;
        let (cl, m) = match n.rsplit_once("::") { Some(x) => x, None => return Ok(Err(st)) };
        match n {
            "rand::thread_rng" | "rand::rngs::thread::thread_rng" | "rand::rngs::thread_rng" => ok!(st, Val::Op(3)),
            "nanoid::format" => ok!(st, Val::Op(4)),
            "std::fmt::format" | "alloc::fmt::format" if !self.params.contains_key("paths") => ok!(st, Val::Op(4)),
            "std::io::_print" | "std::io::_eprint" => ok!(st, unit()),
            "std::time::Instant::now" | "std::time::Duration::from_millis" | "std::time::Duration::from_secs" => ok!(st, Val::Op(5)),
            _ => {}
        }
        // with `paths`, texts that are put together are told apart by their parts, so that they can name files
        if self.params.contains_key("paths") {
            if n.contains("fmt::") && cl.ends_with("Argument") && m.starts_with("new_") { let s = self.show(&st, &a[0]); let o = self.named(s); ok!(st, o) }
            if n.contains("fmt::") && cl.ends_with("Arguments") && m.starts_with("new") { let s = a.iter().map(|v| self.show(&st, v)).collect::<Vec<_>>().join("|"); let o = self.named(s); ok!(st, o) }
            if matches!(n, "std::fmt::format" | "alloc::fmt::format") { ok!(st, a[0].clone()) }
            if n == "std::fs::create_dir" || n == "std::fs::create_dir_all" { let k = self.path_key(&st, &a[0]); if let Ok(k) = k { self.tstate.dirs.insert(k); } ok!(st, opaque_of(cx.dty)) }
            if cl == "std::path::Path" && m == "new" { let v = match &a[0] { Val::P(_) => self.read_p(&st, &a[0])?, v => v.clone() }; ok!(st, v) }
        }
        if cl.starts_with("core::fmt") || cl.starts_with("std::fmt") || cl == "std::io::Write" {
            return Ok(Ok(Some((st, if scal(cx.dty) == Sk::Bool { sb(false) } else if adt_name(cx.dty).map(|n| n.ends_with("Result")).unwrap_or(false) { en(0, vec![unit()]) } else if is_unit(cx.dty) { unit() } else { Val::Op(4) }))))
        }
        match cl {
            "rand::Rng" | "rand::rng::Rng" => match m {
                "gen_range" => {
                    let rty = cx.tys[1]; let sk = scal(cx.dty);
                    let incl = adt_name(rty).unwrap_or_default().ends_with("RangeInclusive");
                    let (lo, hi) = (a[1].field(0)?.t()?, a[1].field(1)?.t()?);
                    match sk {
                        Sk::Int(w, s) => {
                            let lt = |x, y| if s { slt(x, y) } else { ult(x, y) };
                            let nonempty = if incl { not(lt(hi, lo)) } else { lt(lo, hi) };
                            if !self.must(&mut st, nonempty, "cannot sample empty range") { return Ok(Ok(None)) }
                            let top = if incl { hi } else { sub(hi, bv(w, 1)) };
                            match self.draw_int(&mut st, "rng_int", w, s, lo, top)? { None => Ok(Ok(None)), Some(v) => ok!(st, Val::S(v)) }
                        }
                        Sk::Fl(_) => {
                            let so = sk_sort(sk).unwrap();
                            if !self.must(&mut st, mk(if incl { Op::FLe } else { Op::FLt }, Sort::Bool, &[lo, hi], 0), "cannot sample empty range") { return Ok(Ok(None)) }
                            let v = self.fresh_var("rng_float", so, None);
                            if !st.pc.push(and(mk(Op::FLe, Sort::Bool, &[lo, v], 0), mk(if incl { Op::FLe } else { Op::FLt }, Sort::Bool, &[v, hi], 0))) { return Ok(Ok(None)) }
                            self.records.push(("rng_float".into(), st.pc.term(), v)); ok!(st, Val::S(v))
                        }
                        _ => Err("gen_range type".into()),
                    }
                }
                "gen" => { let sk = scal(cx.dty); let so = sk_sort(sk).ok_or("gen type")?; let v = self.fresh_var("rng_gen", so, None); if let Sk::Fl(_) = sk { let (z, o) = if so == Sort::F32 { (f32c(0.), f32c(1.)) } else { (f64c(0.), f64c(1.)) }; if !st.pc.push(and(mk(Op::FLe, Sort::Bool, &[z, v], 0), mk(Op::FLt, Sort::Bool, &[v, o], 0))) { return Ok(Ok(None)) } } self.records.push(("rng_gen".into(), st.pc.term(), v)); ok!(st, Val::S(v)) }
                "gen_bool" => { let v = self.fresh_var("rng_bool", Sort::Bool, None); self.records.push(("rng_bool".into(), st.pc.term(), v)); ok!(st, Val::S(v)) }
                "sample" => self.rng_sample(st, cx, &a[1], cx.tys[1]),
                _ => Ok(Err(st)),
            },
            "rand::seq::SliceRandom" => match m {
                "choose" | "choose_mut" => {
                    let ps = self.elem_ptrs(&st, &a[0])?;
                    self.pick(st, ps)
                }
                "shuffle" => {
                    let t = self.deref1(&a[0])?; let cur = st.read_t(&t)?; let l = cur.list()?.compact()?; let mut v = l.s().to_vec(); let k = v.len();
                    if k > 8 { return Err("shuffle of a long list".into()) }
                    // Fisher-Yates as rand 0.8: for i in (1..len).rev() swap(i, gen_index(i+1))
                    for i in (1..k).rev() {
                        let j = match self.draw_int(&mut st, "rng_shuffle", 64, false, usz(0), usz(i as u64))? { None => return Ok(Ok(None)), Some(j) => j };
                        if v[i].g != TR { return Err("shuffle of a guarded list".into()) }
                        let vi = v[i].v.clone(); let mut nv = vi.clone();
                        for q in 0..i { let c = eq(j, usz(q as u64)); nv = merge(c, &v[q].v, &nv)?; let old = v[q].v.clone(); v[q].v = merge(c, &vi, &old)?; }
                        v[i].v = nv;
                    }
                    let nv = match cur { Val::Agg(_) => agg(v.into_iter().map(|s| s.v).collect()), _ => Val::L(ListV::new(v)) };
                    st.write_t(&t, TR, &nv)?; ok!(st, unit())
                }
                _ => Ok(Err(st)),
            },
            "rand::seq::IteratorRandom" if m == "choose" => { let t = self.alloc(&mut st, a[0].clone()); match self.drain(st, &t, cx.tys[0])? { None => Ok(Ok(None)), Some((s, l)) => self.pick(s, l) } }
            "rand::distributions::WeightedIndex" | "rand::distributions::weighted_index::WeightedIndex" if m == "new" => {
                let (v, ity) = self.to_iter(&mut st, a[0].clone(), cx.tys[0])?;
                match self.drain_val(st, v, ity)? { None => Ok(Ok(None)), Some((s, l)) => {
                    let l = l.compact()?; let mut w = vec![];
                    for x in l.s() { let t = match &x.v { Val::P(_) => self.read_p(&s, &x.v)?.t()?, v => v.t()? }; w.push(Slot { g: x.g, v: Val::S(t) }) }
                    let so = match w.get(0) { Some(x) => sort(x.v.t()?), None => ok!(s, en(1, vec![Val::Op(6)])) };
                    let z = konst(so, 0);
                    let mut good = vec![or_n(&w.iter().map(|x| x.g).collect::<Vec<_>>())]; let mut pos = vec![];
                    for x in &w { let t = x.v.t()?; let (nn, p) = match so { Sort::Bv(_) => (TR, not(eq(t, z))), _ => (mk(Op::FLe, Sort::Bool, &[z, t], 0), mk(Op::FLt, Sort::Bool, &[z, t], 0)) }; good.push(implies(x.g, nn)); pos.push(and(x.g, p)) }
                    good.push(or_n(&pos));
                    let r = merge(and_n(&good), &en(0, vec![Val::L(ListV::new(w))]), &en(1, vec![Val::Op(6)]))?; ok!(s, r) } }
            }
            "rand::distributions::Distribution" | "rand::distributions::distribution::Distribution" if m == "sample" => self.rng_sample(st, cx, &a[0], cx.self_ty()?),
            "rand_distr::Dirichlet" | "rand_distr::dirichlet::Dirichlet" if m.starts_with("new") => {
                let so = sk_sort(scal(cx.ga(0)?)).ok_or("dirichlet type")?; let zero = konst(so, 0);
                let (als, n) = if m == "new" { let l = self.read_p(&st, &a[0])?.list()?.compact()?; let v: R<Vec<T>> = l.s().iter().map(|x| x.v.t()).collect(); (v?, l.len_t()) } else { (vec![a[0].t()?], a[1].t()?) };
                let mut good = vec![not(ult(n, usz(2)))]; for t in &als { good.push(mk(Op::FLt, Sort::Bool, &[zero, *t], 0)) }
                let r = merge(and_n(&good), &en(0, vec![agg(vec![Val::S(n), Val::S(zero)])]), &en(1, vec![Val::Op(6)]))?; ok!(st, r)
            }
            "config::Config" => match m {
                "get_int" | "get_float" | "get_bool" => { let k = match &a[1] { Val::Str(s) => s.to_string(), v => return Err(format!("config key {}", kind(v))) };
                    match self.cfg.get(&k).copied() {
                        None => ok!(st, en(1, vec![Val::Op(8)])),
                        Some(t) => { let t = match (m, sort(t)) { ("get_float", Sort::Bv(_)) => mk(Op::SToF, Sort::F64, &[t], 0), ("get_int", Sort::F64) => return Err("get_int of a float".into()), _ => t }; ok!(st, en(0, vec![Val::S(t)])) }
                    } }
                "get_string" => ok!(st, en(0, vec![Val::Op(1)])),
                _ => Ok(Err(st)),
            },
            "std::path::Path" | "std::path::PathBuf" => match m { "exists" | "is_dir" | "is_file" if self.is_scratch(&st, &a[0]) || self.params.contains_key("exists") => { let y = self.is_scratch(&st, &a[0]) || self.params.get("exists") == Some(&1) || self.path_key(&st, &a[0]).map(|k| self.tstate.dirs.contains(&k) || self.tstate.files.contains_key(&k) || self.tstate.disk.contains_key(&k)).unwrap_or(false); ok!(st, Val::S(if y { TR } else { F })) }
                // a path is known by its last part
                "join" | "with_file_name" if matches!(a.get(1), Some(Val::Str(_))) => { let base = if m == "join" { self.path_key(&st, &a[0]).ok().filter(|k| k.starts_with('#')) } else { None }; ok!(st, match base { Some(b) => Val::Str(format!("{}/{}", b, self.path_key(&st, &a[1])?).into()), None => a[1].clone() }) } "as_path" | "to_path_buf" | "as_ref" => ok!(st, match &a[0] { Val::P(_) => self.read_p(&st, &a[0])?, v => v.clone() }),
                "exists" | "is_dir" | "is_file" => { let v = self.fresh_var("fs_exists", Sort::Bool, None); self.records.push(("fs_exists".into(), st.pc.term(), v)); ok!(st, Val::S(v)) } "to_str" => ok!(st, some(Val::Op(1))), _ => ok!(st, Val::Op(1)) },
            "std::fs" | "std::io" | "std::thread" => ok!(st, opaque_of(cx.dty)),
            _ if cl.starts_with("indicatif") => ok!(st, if is_unit(cx.dty) { unit() } else if adt_name(cx.dty).map(|n| n.contains("ProgressBarIter")).unwrap_or(false) { a[0].clone() } else { opaque_of(cx.dty) }),
            _ => Ok(Err(st)),
        }
    }
    fn pick(&mut self, mut st: State, ps: ListV) -> B {
        let len = ps.len_t(); let g = st.pc.simp(ps.nonempty());
        if g == F { ok!(st, none()) }
        let c = ps.compact()?;
        let n = c.n();
        // one draw per execution; index below the length when the slice is not empty
        let v = if n == 1 { usz(0) } else { self.fresh_var("rng_choose", Sort::Bv(64), Some((0, n as i128 - 1, false))) };
        if !st.pc.push(or(not(g), ult(v, len))) { return Ok(Ok(None)) }
        self.records.push(("rng_choose".into(), and(st.pc.term(), g), v));
        let x = read_idx(&Val::L(c), v)?;
        ok!(st, option(g, x))
    }
    fn rng_sample(&mut self, mut st: State, cx: &Cx, d: &Val, dty: Ty) -> B {
        let dty = if let Some(p) = pointee(dty) { p } else { dty };
        let name = adt_name(dty).unwrap_or_default();
        let dv = match d { Val::P(_) => self.read_p(&st, d)?, v => v.clone() };
        if name.ends_with("WeightedIndex") {
            let l = dv.list()?; let n = l.n();
            let v = if n == 1 { usz(0) } else { self.fresh_var("rng_weighted", Sort::Bv(64), Some((0, n as i128 - 1, false))) };
            let w = read_idx(&Val::L(l.clone()), v)?.t()?; let z = konst(sort(w), 0);
            let pos = match sort(w) { Sort::Bv(_) => not(eq(w, z)), _ => mk(Op::FLt, Sort::Bool, &[z, w], 0) };
            if !st.pc.push(and(ult(v, l.len_t()), pos)) { return Ok(Ok(None)) }
            self.records.push(("rng_weighted".into(), st.pc.term(), v));
            ok!(st, Val::S(v))
        }
        if name.ends_with("Dirichlet") {
            let n = dv.field(0)?.t()?; let so = sort(dv.field(1)?.t()?);
            let hi = rng(n).uhi; let k = cval(n).unwrap_or(hi); if k > 2000 { return Err("dirichlet of unbounded size".into()) }
            let (z, o) = if so == Sort::F32 { (f32c(0.), f32c(1.)) } else { (f64c(0.), f64c(1.)) };
            let mut out = vec![];
            // samples on a grid of 1/dgrid that sum to one
            let grid = self.params.get("dgrid").copied().unwrap_or(0);
            if grid > 0 {
                if cval(n).is_none() { return Err("dirichlet of symbolic size".into()) }
                let c = |x: f64| if so == Sort::F32 { f32c(x as f32) } else { f64c(x) };
                let mut rest = c(1.0);
                for i in 0..k {
                    let v = if i + 1 == k { rest } else {
                        let ix = self.fresh_var("rng_grid", Sort::Bv(8), Some((0, grid as i128, false)));
                        let mut v = c(1.0); for j in (0..grid).rev() { v = ite(eq(ix, bv(8, j as u128)), c(j as f64 / grid as f64), v) }
                        rest = mk(Op::FSub, so, &[rest, v], 0); v
                    };
                    self.records.push(("rng_dirichlet".into(), st.pc.term(), v)); out.push(Slot { g: TR, v: Val::S(v) });
                }
                if !st.pc.push(mk(Op::FLe, Sort::Bool, &[z, rest], 0)) { return Ok(Ok(None)) }
                ok!(st, Val::L(ListV::new(out)))
            }
            for i in 0..k { let v = self.fresh_var("rng_dirichlet", so, None); let g = ult(usz(i as u64), n); if !st.pc.push(implies(g, and(mk(Op::FLe, Sort::Bool, &[z, v], 0), mk(Op::FLe, Sort::Bool, &[v, o], 0)))) { return Ok(Ok(None)) } self.records.push(("rng_dirichlet".into(), and(st.pc.term(), g), v)); out.push(Slot { g, v: Val::S(v) }) }
            ok!(st, Val::L(ListV::new(out)))
        }
        let _ = cx;
        Err(format!("sample from {}", name))
    }
}
pub fn is_unit(t: Ty) -> bool { matches!(t.kind(), TyKind::RigidTy(RigidTy::Tuple(v)) if v.is_empty()) }
/// an uninformative value of an opaque type; Results succeed, Options are present
pub fn opaque_of(t: Ty) -> Val {
    if is_unit(t) { return unit() }
    match adt(t) { Some((d, a)) => { let n = d.name(); if n.ends_with("result::Result") { en(0, vec![garg_ty(&a, 0).map(opaque_of).unwrap_or(Val::Op(9))]) } else if n.ends_with("option::Option") { some(garg_ty(&a, 0).map(opaque_of).unwrap_or(Val::Op(9))) } else { Val::Op(9) } } None => Val::Op(9) }
}
#[allow(unused)] fn _u(_: Option<Instance>) {}
