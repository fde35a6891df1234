//! Stands in for src/alphazero/nnet.rs in the replay of harnesses that supply the network's outputs themselves:
//! a network is the function given to `set_net`. Everything else of the crate is the real code.
use std::cell::Cell;
use std::path::PathBuf;
use tch::{nn::{self, VarStore}, Tensor};
use crate::{constants::DEVICE, base::LearnableGame};
pub type NetFn = fn(&Tensor) -> (Tensor, Tensor);
thread_local! { static NET: Cell<Option<NetFn>> = Cell::new(None); }
pub fn set_net(f: NetFn) { NET.with(|n| n.set(Some(f))) }
thread_local! { static ACTING: Cell<f32> = Cell::new(f32::NAN); }
/// the variable's value in the network that was asked last
pub fn acting() -> f32 { ACTING.with(|a| a.get()) }
thread_local! { static TRAINING: Cell<bool> = Cell::new(false); }
/// whether the network asked last was asked for training
pub fn training() -> bool { TRAINING.with(|a| a.get()) }
#[derive(Debug)]
pub struct ResNet { pub vs: nn::VarStore }
impl ResNet {
    pub fn new<T: LearnableGame>(vs: VarStore) -> Self { let _ = vs.root().var("w", &[1], nn::Init::Const(1.0)); ResNet { vs } }
    pub fn stub() -> Self { let vs = VarStore::new(*DEVICE); let _ = vs.root().var("w", &[1], nn::Init::Const(1.0)); ResNet { vs } }
    pub fn from_path<T: LearnableGame>(model_path: &PathBuf) -> Self {
        let mut n = Self::new::<T>(VarStore::new(*DEVICE));
        n.vs.load(model_path).unwrap();
        n
    }
    fn call(&self, xs: &Tensor) -> (Tensor, Tensor) { ACTING.with(|a| a.set(self.vs.variables().get("w").map(|w| w.double_value(&[0]) as f32).unwrap_or(f32::NAN))); (NET.with(|n| n.get()).expect("no network"))(xs) }
    pub fn forward_t(&self, xs: &Tensor, _train: bool) -> (Tensor, Tensor) { self.call(xs) }
    // what the losses are computed from depends on the variable, as the real network's outputs do
    pub fn forward_train(&self, xs: &Tensor, _train: bool) -> (Tensor, Tensor) {
        TRAINING.with(|t| t.set(true));
        let (p, v) = self.call(xs);
        TRAINING.with(|t| t.set(false));
        match self.vs.variables().get("w") { Some(w) => { let z = w * 0.0; (p + &z, v + &z) } None => (p, v) }
    }
    pub fn forward_policy(&self, xs: &Tensor, _train: bool) -> Tensor { self.call(xs).0 }
}
