#![allow(dead_code, clippy::all)]
pub mod sym;
pub mod selftest;
pub mod bg;
pub mod bgref;
pub mod ttt;
pub mod toy;
pub mod mcts;
pub mod tens;
pub mod alpha;
pub mod learn;
pub mod versus;
pub mod registry;
