//! Interface between harnesses and the symbolic engine. Under the engine every function here is a
//! builtin; the bodies below are the native implementation used when a counterexample is replayed.
use std::cell::RefCell;
use std::collections::HashMap;

pub trait Prim: Copy { fn of(bits: u128) -> Self; }
macro_rules! prim { ($($t:ty),*) => { $( impl Prim for $t { fn of(b: u128) -> Self { b as $t } } )* } }
prim!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl Prim for f32 { fn of(b: u128) -> Self { f32::from_bits(b as u32) } }
impl Prim for f64 { fn of(b: u128) -> Self { f64::from_bits(b as u64) } }
impl Prim for bool { fn of(b: u128) -> Self { b & 1 == 1 } }

#[derive(Default)]
pub struct Script {
    pub vals: HashMap<String, Vec<u128>>,
    pub pos: HashMap<String, usize>,
    pub params: HashMap<String, i64>,
    pub failed: Vec<String>,
    pub assume_failed: bool,
    pub cfg: HashMap<String, String>,
}
thread_local! { pub static SCRIPT: RefCell<Script> = RefCell::new(Script::default()); }
fn take(label: &str) -> Option<u128> {
    SCRIPT.with(|s| { let mut s = s.borrow_mut(); let i = *s.pos.get(label).unwrap_or(&0); let v = s.vals.get(label).and_then(|v| v.get(i)).copied(); s.pos.insert(label.to_string(), i + 1); v })
}
/// any value in [lo, hi]
#[inline(never)]
pub fn any<T: Prim>(label: &'static str, lo: T, _hi: T) -> T { match take(&format!("sym:{}", label)) { Some(b) => T::of(b), None => lo } }
#[inline(never)]
pub fn any_bool(label: &'static str) -> bool { take(&format!("sym:{}", label)).unwrap_or(0) & 1 == 1 }
#[inline(never)]
pub fn any_f32(label: &'static str) -> f32 { f32::from_bits(take(&format!("sym:{}", label)).unwrap_or(0) as u32) }
/// in a splitting run, the two cases are executed separately
#[inline(never)]
pub fn decide(c: bool) -> bool { c }
#[inline(never)]
pub fn decide_n(v: u8) -> u8 { v }
#[inline(never)]
pub fn assume(c: bool) { if !c { SCRIPT.with(|s| s.borrow_mut().assume_failed = true); std::panic::panic_any("assumption not met in replay"); } }
/// like `assume`, for a constraint over the inputs that is only added to a query which has a model without it
#[inline(never)]
pub fn assume_lazy(c: bool) { assume(c) }
/// the property: `label` is "<property id>[,<property id>]: text"
#[inline(never)]
pub fn check(c: bool, label: &'static str) { if !c { SCRIPT.with(|s| s.borrow_mut().failed.push(label.to_string())) } }
/// reachability witness: must be satisfiable, otherwise the harness is vacuous
#[inline(never)]
pub fn cover(_c: bool, _label: &'static str) {}
/// the property, of the existential kind: some run must get here with `c`. `label` is "<property id>: text"
#[inline(never)]
pub fn reach(_c: bool, _label: &'static str) {}
#[inline(never)]
pub fn param(label: &'static str, default: i64) -> i64 { SCRIPT.with(|s| s.borrow().params.get(label).copied().unwrap_or(default)) }
#[inline(never)]
pub fn cfg_int(key: &'static str, v: i64) { SCRIPT.with(|s| { s.borrow_mut().cfg.insert(key.into(), v.to_string()); }) }
#[inline(never)]
pub fn cfg_float(key: &'static str, v: f64) { SCRIPT.with(|s| { s.borrow_mut().cfg.insert(key.into(), format!("{:?}", v)); }) }
/// the outputs of every network from here on
#[inline(never)]
pub fn set_net(_f: fn(&tch::Tensor) -> (tch::Tensor, tch::Tensor)) { #[cfg(feature = "stubnet")] die_e::alphazero::nnet::set_net(_f) }
/// a network
#[inline(never)]
#[cfg(feature = "stubnet")]
pub fn net() -> die_e::alphazero::nnet::ResNet { die_e::alphazero::nnet::ResNet::stub() }
#[inline(never)]
#[cfg(not(feature = "stubnet"))]
pub fn net() -> die_e::alphazero::nnet::ResNet { panic!("no network") }
/// the weight of the network that is being asked
#[inline(never)]
pub fn acting_weight() -> f32 { #[cfg(feature = "stubnet")] return die_e::alphazero::nnet::acting(); #[cfg(not(feature = "stubnet"))] f32::NAN }
/// whether the network is being asked in order to train it
#[inline(never)]
pub fn training() -> bool { #[cfg(feature = "stubnet")] return die_e::alphazero::nnet::training(); #[cfg(not(feature = "stubnet"))] false }
/// what was asked of the network and the optimizer so far: 0 inputs of the network (logged by the harness), 1 policy
/// loss (output, target, loss), 2 value loss, 3 backward (loss), 4 step, 5 zero_grad; natively only the first kind
thread_local! { static LOG: RefCell<Vec<(u8, tch::Tensor)>> = RefCell::new(Vec::new()); }
#[inline(never)]
pub fn log_tensor(k: u8, t: &tch::Tensor) { LOG.with(|l| l.borrow_mut().push((k, t.copy()))) }
#[inline(never)]
pub fn log_len() -> usize { LOG.with(|l| l.borrow().len()) }
#[inline(never)]
pub fn log_kind(i: usize) -> u8 { LOG.with(|l| l.borrow()[i].0) }
#[inline(never)]
pub fn log_at(i: usize, _part: usize) -> tch::Tensor { LOG.with(|l| l.borrow()[i].1.shallow_clone()) }
#[inline(never)]
pub fn log_reset() { LOG.with(|l| l.borrow_mut().clear()) }
/// an empty directory
#[inline(never)]
pub fn scratch_dir() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("replay-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
/// the weight that stands for all of a network's
#[inline(never)]
pub fn weight(vs: &tch::nn::VarStore) -> f32 { vs.variables().get("w").map(|t| t.double_value(&[0]) as f32).unwrap_or(f32::NAN) }
/// a stored model with this weight, beside which the stored best model of the game "nt" is one with weight `best`,
/// unless the job says that there is none
#[inline(never)]
pub fn model_file(w: f32, best: f32) -> std::path::PathBuf {
    let d = scratch_dir();
    std::fs::create_dir_all(d.join("models/nt")).unwrap();
    std::env::set_current_dir(&d).unwrap();
    let put = |w: f32, p: &str| {
        let vs = tch::nn::VarStore::new(tch::Device::Cpu);
        let _ = vs.root().var("w", &[1], tch::nn::Init::Const(w as f64));
        vs.save(d.join(p)).unwrap();
    };
    put(w, "m.ot");
    if param("exists", 0) == 1 { put(best, "models/nt/best_model.ot"); }
    d.join("m.ot")
}
/// the weight of the stored best model
#[inline(never)]
pub fn best_weight() -> f32 {
    let mut vs = tch::nn::VarStore::new(tch::Device::Cpu);
    let _ = vs.root().var("w", &[1], tch::nn::Init::Const(f64::NAN));
    let _ = vs.load("models/nt/best_model.ot");
    weight(&vs)
}
/// the directories below ./data that training data was written to
#[inline(never)]
pub fn stored_dirs() -> Vec<std::path::PathBuf> {
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        let mut v: Vec<_> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        v.sort();
        if v.iter().any(|p| p.ends_with("ps.ot")) { out.push(d.to_path_buf()); }
        for p in v { if p.is_dir() { walk(&p, out); } }
    }
    let mut out = Vec::new();
    walk(std::path::Path::new("data"), &mut out);
    out
}
/// a value that the harness keeps for code it does not call itself
#[inline(never)]
pub fn set_start<T: Copy + 'static>(v: T) { START.with(|s| *s.borrow_mut() = Some(Box::new(v))) }
#[inline(never)]
pub fn start<T: Copy + 'static>(default: T) -> T { START.with(|s| s.borrow().as_ref().and_then(|v| v.downcast_ref::<T>().copied()).unwrap_or(default)) }
/// 0, 1, 2, ... in the order of the calls
#[inline(never)]
pub fn tick() -> usize { TICK.with(|t| { let n = t.get(); t.set(n + 1); n }) }
#[inline(never)]
pub fn tick_reset() { TICK.with(|t| t.set(0)) }
thread_local! { static TICK: std::cell::Cell<usize> = std::cell::Cell::new(0); }
thread_local! { static START: RefCell<Option<Box<dyn std::any::Any>>> = RefCell::new(None); }
#[inline(never)]
pub fn engine() -> bool { false }
#[inline(never)]
pub fn dump<T>(_label: &'static str, _v: &T) {}

pub fn lang_items() {
    let mut it = [1u8].iter();
    let _ = Iterator::next(&mut it);
    let _ = Clone::clone(&1u8);
    let _ = PartialEq::eq(&1u8, &1u8);
    let _ = Ord::cmp(&1u8, &1u8);
    let _ = <u8 as Default>::default();
}
/// a configuration holding what `cfg_int` and `cfg_float` put there
#[inline(never)]
pub fn conf() -> config::Config {
    let mut b = config::Config::builder();
    SCRIPT.with(|s| for (k, v) in s.borrow().cfg.iter() { b = std::mem::take(&mut b).set_override(k, v.clone()).unwrap(); });
    b.build().unwrap()
}
