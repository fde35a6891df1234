//! Harness functions by name, for the native replay.
macro_rules! reg { ($n:expr; $($m:ident :: $f:ident),* $(,)?) => { match $n { $( concat!(stringify!($m), "::", stringify!($f)) => Some(crate::$m::$f as fn()), )* _ => None } } }
pub fn get(name: &str) -> Option<fn()> {
    reg!(name; bg::legality, bg::complete, bg::encoding, bg::apply, bg::conserve, bg::winner, bg::start, ttt::moves, ttt::winner, mcts::search, mcts::backprop, mcts::rollout, mcts::expand, mcts::select, mcts::answer, mcts::prefer, mcts::prefer_late, tens::bg_planes, tens::ttt_planes, tens::expand_toy, tens::expand_many, tens::expand_ttt, tens::mask, tens::mask_many, tens::visits, tens::noise, alpha::parallel, alpha::single, alpha::puct, versus::tally, versus::promotion, alpha::one_noise, alpha::root_noise, learn::many, learn::one, learn::train, learn::stored, learn::loaded, learn::lesson, mcts::rollout_fan, mcts::expand_fan)
}
