//! A small game given by symbolic tables: who has won where, how many moves there are, where they
//! lead. Positions without moves that are not over occur, as in backgammon.
use crate::sym::*;
use die_e::base::LearnableGame;
use serde::{Deserialize, Serialize};

pub const K: usize = 6;
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Toy {
    pub pos: u8,
    pub player: i8,
    pub id: usize,
    /// -1, 0, 1: over with this result; 2: not over
    pub win: [i8; K],
    /// number of moves, 0..=2
    pub nm: [u8; K],
    pub next: [[u8; 2]; K],
    /// the same player moves on
    pub stay: bool,
}
impl Toy {
    pub fn code(pos: u8, m: u8) -> u32 { (2 * pos + m) as u32 }
}
impl LearnableGame for Toy {
    type Move = u8;
    const EMPTY_MOVE: u8 = 200;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 6;
    const N_INPUT_CHANNELS: i64 = 1;
    const CONV_OUTPUT_SIZE: i64 = 1;
    const N_FILTERS: i64 = 1;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self { Toy { pos: 0, player: -1, id: 0, win: [2; K], nm: [0; K], next: [[0; 2]; K], stay: false } }
    fn name() -> String { String::from("toy") }
    fn get_valid_moves(&self) -> Vec<u8> {
        let n = self.nm[self.pos as usize];
        let mut v = Vec::new();
        if n > 0 { v.push(self.pos * 10); }
        if n > 1 { v.push(self.pos * 10 + 1); }
        v
    }
    fn apply_move(&mut self, m: &u8) {
        self.pos = self.next[self.pos as usize][(*m % 10) as usize];
        if !self.stay { self.player = -self.player; }
    }
    fn skip_turn(&mut self) {
        self.pos = self.next[self.pos as usize][0];
        self.player = -self.player;
    }
    fn get_player(&self) -> i8 { self.player }
    fn check_winner(&self) -> Option<i8> {
        let w = self.win[self.pos as usize];
        if w == 2 { None } else { Some(w) }
    }
    fn as_tensor(&self) -> tch::Tensor { tch::Tensor::full(1, self.pos as i64, (tch::Kind::Float, tch::Device::Cpu)).view([1, 1, 1]) }
    fn decode(&self, c: u32) -> u8 { self.pos * 10 + (c % 10) as u8 }
    fn encode(&self, m: &u8) -> u32 { (*m % 10) as u32 + self.pos as u32 % 5 }
    fn get_id(&self) -> usize { self.id }
    fn set_id(&mut self, i: usize) { self.id = i }
    fn to_pretty_str(&self) -> String { String::new() }
}
pub const W: [&str; 6] = ["win0", "win1", "win2", "win3", "win4", "win5"];
pub const N: [&str; 6] = ["nm0", "nm1", "nm2", "nm3", "nm4", "nm5"];
pub const X: [&str; 6] = ["next0", "next1", "next2", "next3", "next4", "next5"];
pub const Y: [&str; 6] = ["alt0", "alt1", "alt2", "alt3", "alt4", "alt5"];
/// any such game with `k` positions, whose moves lead to later positions only (the last is over)
pub fn any_toy(k: usize) -> Toy {
    let mut t = Toy::new();
    let mut i = 0;
    while i < k {
        t.win[i] = any::<i8>(W[i], -1, 2);
        t.nm[i] = any::<u8>(N[i], 0, 2);
        t.next[i] = [any::<u8>(X[i], 0, k as u8 - 1), any::<u8>(Y[i], 0, k as u8 - 1)];
        i += 1;
    }
    if any_bool("second_player") { t.player = 1; }
    t
}

/// one turn: any number of moves, each to a finished position
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fan { pub pos: u8, pub player: i8, pub n: u8, pub good: u8 }
impl LearnableGame for Fan {
    type Move = u8;
    const EMPTY_MOVE: u8 = 200;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 20;
    const N_INPUT_CHANNELS: i64 = 1;
    const CONV_OUTPUT_SIZE: i64 = 1;
    const N_FILTERS: i64 = 1;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self { Fan { pos: 0, player: -1, n: 0, good: 0 } }
    fn name() -> String { String::from("fan") }
    fn get_valid_moves(&self) -> Vec<u8> {
        let mut v = Vec::new();
        let mut i = 0;
        while (i < self.n) & (self.pos == 0) { v.push(i); i += 1; }
        v
    }
    fn apply_move(&mut self, m: &u8) { self.pos = *m + 1; self.player = -self.player; }
    fn skip_turn(&mut self) { self.player = -self.player; }
    fn get_player(&self) -> i8 { self.player }
    /// only the good move wins for player 1
    fn check_winner(&self) -> Option<i8> { if self.pos == 0 { None } else if self.pos == self.good + 1 { Some(1) } else { Some(-1) } }
    fn as_tensor(&self) -> tch::Tensor { tch::Tensor::full(1, self.pos as i64, (tch::Kind::Float, tch::Device::Cpu)).view([1, 1, 1]) }
    fn decode(&self, c: u32) -> u8 { ((c + 17) * 3 % 20) as u8 }
    fn encode(&self, m: &u8) -> u32 { (*m as u32 * 7 + 3) % 20 }
    fn get_id(&self) -> usize { 0 }
    fn set_id(&mut self, _i: usize) {}
    fn to_pretty_str(&self) -> String { String::new() }
}

/// a game whose positions carry the network's outputs for them: every function from positions to outputs is a network
pub const NK: usize = 6;
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Nt {
    pub pos: u8,
    pub player: i8,
    pub id: usize,
    pub win: [i8; NK],
    pub nm: [u8; NK],
    pub next: [[u8; 2]; NK],
    pub stay: bool,
    pub val: [f32; NK],
    pub pol: [[f32; 2]; NK],
    pub starts: [u8; 4],
    /// games before this one start at the first entry
    pub cut: usize,
}
pub const NT: Nt = Nt { pos: 0, player: -1, id: 0, win: [2; NK], nm: [0; NK], next: [[0; 2]; NK], stay: false, val: [0.25; NK], pol: [[0.5, 0.25]; NK], starts: [0; 4], cut: 0 };
impl Nt {
    /// the code of move m: never 3, the same for no two moves of a position
    pub fn code(pos: u8, m: u8) -> u32 { if (pos + m) % 2 == 0 { 1 } else { 4 - 2 * (pos as u32 % 2) } }
}
impl LearnableGame for Nt {
    type Move = u8;
    const EMPTY_MOVE: u8 = 200;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 5;
    const N_INPUT_CHANNELS: i64 = 1;
    const CONV_OUTPUT_SIZE: i64 = 1;
    const N_FILTERS: i64 = 1;
    const N_RES_BLOCKS: i64 = 1;
    /// the games `set_start` was given, one after the other
    fn new() -> Self {
        let mut s = crate::sym::start::<Nt>(NT);
        s.id = crate::sym::tick();
        s.pos = s.starts[if s.id < s.cut { 0 } else if s.id < 4 { s.id } else { 3 }];
        if s.id % 2 == 1 { s.player = -s.player; }
        s
    }
    fn name() -> String { String::from("nt") }
    fn get_valid_moves(&self) -> Vec<u8> {
        let n = crate::sym::decide_n(self.nm[self.pos as usize]);
        let mut v = Vec::new();
        if n > 0 { v.push(self.pos * 10); }
        if n > 1 { v.push(self.pos * 10 + 1); }
        v
    }
    fn apply_move(&mut self, m: &u8) {
        self.pos = crate::sym::decide_n(self.next[self.pos as usize][(*m % 10) as usize]);
        if !self.stay { self.player = -self.player; }
    }
    fn skip_turn(&mut self) {
        self.pos = crate::sym::decide_n(self.next[self.pos as usize][0]);
        self.player = -self.player;
    }
    fn get_player(&self) -> i8 { self.player }
    fn check_winner(&self) -> Option<i8> {
        let w = self.win[self.pos as usize];
        if crate::sym::decide(w == 2) { None } else { Some(w) }
    }
    /// the position's number, who moves, the outputs, and which game it is
    fn as_tensor(&self) -> tch::Tensor {
        let p = self.pos as usize;
        tch::Tensor::from_slice(&[self.pos as f32, self.player as f32, self.val[p], self.pol[p][0], self.pol[p][1], self.id as f32]).view([1, 1, 1, 6])
    }
    fn decode(&self, c: u32) -> u8 { self.pos * 10 + (if Nt::code(self.pos, 0) == c { 0 } else { 1 }) }
    fn encode(&self, m: &u8) -> u32 { Nt::code(*m / 10, *m % 10) }
    fn get_id(&self) -> usize { self.id }
    fn set_id(&mut self, i: usize) { self.id = i }
    fn to_pretty_str(&self) -> String { String::new() }
}
/// the network for it: the outputs of a move under its code, 0.125 for the other codes
pub fn nt_net(x: &tch::Tensor) -> (tch::Tensor, tch::Tensor) {
    let s = x.size();
    let n = s[0];
    let mut pol: Vec<f32> = Vec::new();
    let mut val: Vec<f32> = Vec::new();
    let mut i = 0;
    while i < n {
        let at = |k: i64| x.double_value(&[i, 0, 0, k]);
        let pos = at(0) as u8;
        let mut row = [0.125f32; 5];
        row[Nt::code(pos, 0) as usize] = at(3) as f32;
        row[Nt::code(pos, 1) as usize] = at(4) as f32;
        let mut k = 0;
        while k < 5 { pol.push(row[k]); k += 1; }
        val.push(at(2) as f32);
        i += 1;
    }
    (tch::Tensor::from_slice(&pol).view([n, 5]), tch::Tensor::from_slice(&val).view([n, 1]))
}
