#![feature(rustc_private)]
#![allow(unused_imports, unused_assignments)]
#![allow(static_mut_refs)]
//! mirsym: a path-merging symbolic executor for MIR. See /verif/DESIGN.md.
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;
mod term;
mod val;
mod ir;
mod exec;
mod smt;
mod tensor;
mod b_iter;
mod b_core;
mod b_iterm;
mod b_seq;
mod b_vec;
mod b_misc;
mod b_num;
mod b_tensor;
use exec::*;
use val::State;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use std::collections::HashMap;
use std::io::Write;
use std::ops::ControlFlow;

extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32; fn kill(p: i32, s: i32) -> i32; fn _exit(c: i32) -> !; fn setpgid(p: i32, g: i32) -> i32; fn prctl(o: i32, ...) -> i32; }

#[derive(Clone, Debug, Default)]
pub struct Job { pub id: String, pub func: String, pub params: Vec<(String, i64)>, pub panics: bool, pub prop: String, pub timeout: u64, pub seed: u64 }
fn parse_jobs(p: &str) -> Vec<Job> {
    // id \t fn \t k=v,k=v \t panics(0/1) \t label prefix \t timeout
    std::fs::read_to_string(p).expect("jobs").lines().filter(|l| !l.trim().is_empty()).map(|l| {
        let f: Vec<&str> = l.split('\t').collect();
        let params = f[2].split(',').filter(|x| !x.is_empty()).map(|kv| { let (k, v) = kv.split_once('=').unwrap(); (k.to_string(), v.parse().unwrap()) }).collect();
        Job { id: f[0].into(), func: f[1].into(), params, panics: f[3] == "1", prop: f[4].into(), timeout: f[5].parse().unwrap(), seed: f.get(6).and_then(|x| x.parse().ok()).unwrap_or(0) }
    }).collect()
}
pub fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }

fn collect() -> HashMap<String, Instance> {
    let mut m = HashMap::new();
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), ItemKind::Fn) { continue }
        let n = it.name().to_string();
        if it.requires_monomorphization() { continue }
        if let Ok(i) = Instance::try_from(it) { m.insert(n.strip_prefix("harness::").unwrap_or(&n).to_string(), i); }
    }
    m
}
fn langs(i: Instance) -> HashMap<String, (FnDef, GenericArgs)> {
    let mut m = HashMap::new();
    if let Some(b) = i.body() {
        for bb in &b.blocks { if let TerminatorKind::Call { func, .. } = &bb.terminator.kind { if let Ok(t) = func.ty(b.locals()) { if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() { let n = ir::norm_name(&d.name()); m.insert(n.rsplit("::").next().unwrap().to_string(), (d, a)); } } } }
    }
    m
}
fn run_job(job: &Job, inst: Instance, lang: &HashMap<String, (FnDef, GenericArgs)>) -> String {
    let t0 = std::time::Instant::now();
    let mut e = Eng::new();
    e.lang = lang.clone();
    e.params = job.params.iter().cloned().collect();
    term::tt().name_above = job.params.iter().find(|(k, _)| k == "name").map(|x| x.1 as u32).unwrap_or(0);
    e.deadline = t0 + std::time::Duration::from_secs(job.timeout);
    e.split = job.params.iter().any(|(k, v)| k == "split" && *v != 0);
    let mine = |label: &str| job.prop.is_empty() || !label.contains(':') || label.split(':').next().unwrap().split(',').any(|p| p == job.prop);
    let mut paths = 0u64; let mut kept: Vec<Ob> = vec![]; let mut done_checks = 0u64;
    let mut steps = 0;
    let r = loop {
        let st = State { frames: vec![], heap: Default::default(), pc: Default::default() };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.call_inst(st, inst, vec![])));
        paths += 1;
        if !e.split || !matches!(r, Ok(Ok(_))) { break r }
        // settle this run's obligations together, keep those that need a closer look
        let obs = std::mem::take(&mut e.obs);
        let want = |o: &Ob| match o.kind { ObKind::Panic => job.panics, ObKind::Check => mine(&o.label), ObKind::Bound => true, ObKind::Cover => false };
        let vs: Vec<term::T> = obs.iter().filter(|o| want(o)).map(|o| o.viol).collect();
        let quiet = match e.smt.sat(term::or_n(&vs), 5) { Ok(Some(false)) => true, _ => false };
        let mut found = false;
        if !quiet {
            let left = e.deadline.saturating_duration_since(std::time::Instant::now()).as_secs().max(1) as u32;
            match decide(&mut e, vs.clone(), left, false) { Ok(smt::Ans::Unsat) => {} _ => found = true }
        }
        // a run with something to report is reported by the code below, with its own record of inputs
        if found { kept.extend(obs); break r }
        done_checks += vs.len() as u64;
        for o in obs { if o.kind == ObKind::Cover { let n = kept.iter().filter(|k| k.label == o.label).count(); if n < 200 || o.label.contains(':') { kept.push(o) } } }
        steps += e.steps;
        if !e.next_run() { break r }
        if std::time::Instant::now() > e.deadline { break Ok(Err(format!("timeout after {} paths", paths))) }
        e.reset();
    };
    if e.split { kept.append(&mut e.obs); e.obs = kept; e.steps = steps; }
    let mut out = String::new();
    let sec = t0.elapsed().as_secs_f64();
    let mut err = match r { Ok(Ok(_)) => None, Ok(Err(s)) => Some(s), Err(p) => Some(format!("engine panic: {}\n  at {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(), e.backtrace())) };
    let mut asserted: u64 = done_checks + e.triv.iter().filter(|(k, _)| match k.0 { ObKind::Check => mine(&k.1), ObKind::Panic => job.panics, _ => false }).map(|(_, n)| *n).sum::<u64>();
    // group obligations
    let mut groups: Vec<(ObKind, String, String, Vec<term::T>)> = vec![];
    let obs = std::mem::take(&mut e.obs);
    for o in obs {
        let keep = match o.kind { ObKind::Panic => job.panics, ObKind::Check | ObKind::Cover => job.prop.is_empty() || !o.label.contains(':') || o.label.split(':').next().unwrap().split(',').any(|p| p == job.prop), ObKind::Bound => true };
        if !keep { continue }
        if matches!(o.kind, ObKind::Check | ObKind::Panic) { asserted += 1 }
        match groups.iter_mut().find(|g| g.0 == o.kind && g.1 == o.label && (g.0 == ObKind::Cover || g.2 == o.loc)) { Some(g) => g.3.push(o.viol), None => groups.push((o.kind, o.label, o.loc, vec![o.viol])) }
    }
    let (mut nob, mut triv) = (0, 0);
    let (mut viols, mut covers): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut ncheck = 0; let mut unknown = 0;
    if err.is_none() {
        for (k, label, loc, ts) in &groups {
            nob += 1;
            if *k == ObKind::Check || *k == ObKind::Panic { ncheck += 1 }
            let t = term::or_n(ts);
            if std::time::Instant::now() > e.deadline { err = Some(format!("timeout before deciding {} {}", label, loc)); break }
            let left = (e.deadline - std::time::Instant::now()).as_secs().max(1) as u32;
            if t == term::F { triv += 1 }
            if *k == ObKind::Cover && t == term::TR { covers.push(format!("{{\"label\":{},\"sat\":true}}", js(label))); triv += 1; continue }
            let q0 = std::time::Instant::now();
            let ans = if *k == ObKind::Cover && !label.contains(':') { e.smt.solve_abs(term::or_n(ts), left) } else { decide(&mut e, ts.clone(), left, *k == ObKind::Cover) };
            match ans {
                Err(x) => { err = Some(x); break }
                Ok(smt::Ans::Unknown(x)) => { unknown += 1; err = Some(format!("solver {} on {} {}", x, label, loc)); }
                Ok(smt::Ans::Unsat) => { if *k == ObKind::Cover { covers.push(format!("{{\"label\":{},\"sat\":false}}", js(label))) } }
                Ok(smt::Ans::Sat(m)) => {
                    if *k == ObKind::Cover { covers.push(format!("{{\"label\":{},\"sat\":true}}", js(label))); continue }
                    let mut memo = Default::default();
                    let mut recs = vec![];
                    for (l, g, v) in &e.records { if term::eval(*g, &m, &mut memo) == 1 { recs.push(format!("[{},{}]", js(l), match term::sort(*v) { term::Sort::Bv(w) => format!("[{},{}]", term::eval(*v, &m, &mut memo), w), term::Sort::F32 => format!("[{},\"f32\"]", term::eval(*v, &m, &mut memo)), term::Sort::F64 => format!("[{},\"f64\"]", term::eval(*v, &m, &mut memo)), term::Sort::Bool => format!("[{},1]", term::eval(*v, &m, &mut memo)) })) } }
                    // sanity: the model must satisfy the violation under our own evaluator
                    let own = term::eval(t, &m, &mut memo);
                    viols.push(format!("{{\"kind\":\"{:?}\",\"label\":{},\"loc\":{},\"own\":{},\"records\":[{}]}}", k, js(label), js(loc), own, recs.join(",")));
                }
            }
            if e.trace || std::env::var("MIRSYM_V").is_ok() { eprintln!("[{}] {:?} {} {} {:.2}s", job.id, k, label, loc, q0.elapsed().as_secs_f64()) }
        }
    }
    if e.trace { let mut v: Vec<_> = e.prof.iter().collect(); v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap()); for (n, (c, t)) in v.iter().take(30) { eprintln!("{:8.3}s {:6} {}", t, c, n) } }
    out.push_str(&format!("{{\"id\":{},\"fn\":{},\"params\":{{{}}},\"ok\":{},\"error\":{},\"violations\":[{}],\"covers\":[{}],\"obligations\":{},\"checks\":{},\"asserted\":{},\"trivial\":{},\"queries\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"exec_s\":{:.3},\"wall_s\":{:.3},\"paths\":{},\"steps\":{},\"terms\":{},\"vars\":{},\"functions\":[{}]}}",
        js(&job.id), js(&job.func), job.params.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","), err.is_none(), err.as_ref().map(|s| js(s)).unwrap_or("null".into()), viols.join(","), covers.join(","), nob, ncheck, asserted, triv, e.smt.queries, unknown, e.smt.time, e.smt.maxq, sec, t0.elapsed().as_secs_f64(), paths, e.steps.max(1), term::n_terms(), term::tt().vars.len(), e.used.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    out
}
/// is any of the terms satisfiable? Large groups are split when the solver is slow on the whole.
fn decide(e: &mut Eng, ts: Vec<term::T>, left: u32, cover: bool) -> Result<smt::Ans, String> {
    let t0 = std::time::Instant::now();
    let mut stack = vec![ts];
    while let Some(c) = stack.pop() {
        let rest = left.saturating_sub(t0.elapsed().as_secs() as u32).max(1);
        let cap = if c.len() > 4 && !cover { rest.min(if c.len() > 16 { 8 } else { 10 }) } else { rest };
        let t = term::or_n(&c);
        let mut ans = e.smt.solve(t, cap)?;
        if matches!(ans, smt::Ans::Sat(_)) && !e.lazy.is_empty() { let mut l = e.lazy.clone(); l.push(t); ans = e.smt.solve(term::and_n(&l), rest)? }
        match ans {
            smt::Ans::Unsat => {}
            smt::Ans::Sat(m) => return Ok(smt::Ans::Sat(m)),
            smt::Ans::Unknown(x) => {
                if cap == rest || rest <= 1 {
                    if !e.lazy.is_empty() { let mut l = e.lazy.clone(); l.push(t); match e.smt.solve(term::and_n(&l), rest)? { smt::Ans::Unsat => continue, a => return Ok(a) } }
                    return Ok(smt::Ans::Unknown(x));
                }
                let h = if c.len() > 16 { 8 } else { c.len() / 2 }; for x in c.chunks(h) { stack.push(x.to_vec()) }
            }
        }
    }
    Ok(smt::Ans::Unsat)
}
fn go() -> ControlFlow<(), ()> {
    let items = collect();
    let lang = items.get("sym::lang_items").map(|i| langs(*i)).unwrap_or_default();
    let jobs = parse_jobs(&std::env::var("MIRSYM_JOBS").expect("MIRSYM_JOBS"));
    let outdir = std::env::var("MIRSYM_OUT").expect("MIRSYM_OUT");
    let n: usize = std::env::var("MIRSYM_PAR").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let single = jobs.len() == 1 && std::env::var("MIRSYM_NOFORK").is_ok();
    let mut running: HashMap<i32, (usize, std::time::Instant)> = HashMap::new();
    let mut next = 0;
    let t0 = std::time::Instant::now();
    let dl: u64 = std::env::var("MIRSYM_DEADLINE").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let path = |j: &Job| format!("{}/{}.json", outdir, j.id);
    while next < jobs.len() || !running.is_empty() {
        while next < jobs.len() && running.len() < n {
            let j = &jobs[next];
            if t0.elapsed().as_secs() >= dl { std::fs::write(path(j), format!("{{\"id\":{},\"ok\":false,\"error\":\"out of time\",\"violations\":[],\"covers\":[]}}", js(&j.id))).unwrap(); next += 1; continue }
            let inst = match items.get(&j.func) { Some(i) => *i, None => { std::fs::write(path(j), format!("{{\"id\":{},\"ok\":false,\"error\":\"no harness function {}\",\"violations\":[],\"covers\":[]}}", js(&j.id), j.func)).unwrap(); next += 1; continue } };
            if single { let s = run_job(j, inst, &lang); std::fs::write(path(j), s).unwrap(); next += 1; continue }
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { setpgid(0, 0); prctl(1, 9); }
                let s = run_job(j, inst, &lang);
                let p = path(j);
                let _ = std::fs::write(&p, s);
                let _ = std::io::stderr().flush();
                unsafe { kill(0, 15); _exit(0) }
            }
            unsafe { setpgid(pid, pid); }
            running.insert(pid, (next, std::time::Instant::now()));
            next += 1;
        }
        if running.is_empty() { continue }
        let mut status = 0;
        let pid = unsafe { waitpid(-1, &mut status, 1) };
        if pid > 0 {
            if let Some((ji, _)) = running.remove(&pid) {
                let j = &jobs[ji];
                if !std::path::Path::new(&path(j)).exists() { std::fs::write(path(j), format!("{{\"id\":{},\"ok\":false,\"error\":\"worker died (status {})\",\"violations\":[],\"covers\":[]}}", js(&j.id), status)).unwrap() }
            }
        } else {
            let now = std::time::Instant::now();
            for (p, (ji, t)) in running.iter() { if (now - *t).as_secs() > jobs[*ji].timeout + 20 || t0.elapsed().as_secs() >= dl.saturating_add(5) { unsafe { kill(-*p, 9); } } }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
    }
    ControlFlow::Break(())
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let _ = run!(&args, go);
}
