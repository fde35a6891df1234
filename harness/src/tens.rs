//! What the networks are shown and what is done with their answers.
use crate::bg::any_board;
use crate::sym::*;
use crate::ttt::any_ttt;
use die_e::backgammon::backgammon_logic::Backgammon;
use crate::toy::*;
use die_e::base::LearnableGame;
use die_e::mcts::node_store::NodeStore;
use die_e::MctsConfig;
use die_e::mcts::utils::*;
use die_e::tictactoe::TicTacToe;
use tch::{Kind, Tensor};

/// every plane of a backgammon position's tensor (E04)
pub fn bg_planes() {
    let b = any_board();
    let p = param("p", -1) as i8;
    let second = any_bool("second");
    let mut g = Backgammon::init_with_fields(b, p, second);
    g.roll = (any::<u8>("d1", 1, 6), any::<u8>("d2", 1, 6));
    let t = g.as_tensor();
    check(t.size() == vec![1, Backgammon::N_INPUT_CHANNELS, 4, 6], "E04: the shape is not 1 x channels x 4 x 6");
    check(t.kind() == Kind::Float, "E04: the tensor is not of the default type");
    let mut i = 0i64;
    while i < 24 {
        let (r, c) = (i / 6, i % 6);
        let at = |plane: i64| t.double_value(&[0, plane, r, c]);
        check(at(0) == b.0[i as usize] as f64, "E04: plane 0 does not hold the point's checkers");
        check(at(1) == p as f64, "E04: plane 1 does not hold the player to move");
        check(at(2) == (if i < 12 { b.1 .0 } else { b.1 .1 }) as f64, "E04: plane 2 does not hold the bars");
        check(at(3) == (if i < 12 { b.2 .0 } else { b.2 .1 }) as f64, "E04: plane 3 does not hold the borne-off counts");
        check(at(4) == (if i < 12 { g.roll.0 } else { g.roll.1 }) as f64, "E04: plane 4 does not hold the dice");
        check(at(5) == (if second { 1.0 } else { 0.0 }), "E04: plane 5 does not tell the second half of a double");
        i += 1;
    }
    cover(second, "second half of a double");
    cover(b.1 .0 > 0, "a checker on the bar");
}
/// the planes of a tic-tac-toe position (E04)
pub fn ttt_planes() {
    let g = any_ttt();
    let t = g.as_tensor();
    check(t.size() == vec![1, 3, 3, 3], "E04: the shape is not 1 x channels x 3 x 3");
    check(t.kind() == Kind::Float, "E04: the tensor is not of the default type");
    let mut i = 0i64;
    while i < 9 {
        let mut k = 0i64;
        while k < 3 {
            let want = if g.board[i as usize] as i64 == k - 1 { 1.0 } else { 0.0 };
            check(t.double_value(&[0, k, i / 3, i % 3]) == want, "E04: a plane does not mark exactly the cells in its state");
            k += 1;
        }
        i += 1;
    }
    cover(g.board[0] == 1, "a mark in the first cell");
}

const PV: [f32; 5] = [0.0, 0.0625, 0.25, 0.5, 0.1];
const PL: [&str; 27] = ["pol0", "pol1", "pol2", "pol3", "pol4", "pol5", "pol6", "pol7", "pol8", "pol9", "pol10", "pol11", "pol12", "pol13", "pol14", "pol15", "pol16", "pol17", "pol18", "pol19", "pol20", "pol21", "pol22", "pol23", "pol24", "pol25", "pol26"];
fn pick(i: usize, lo: usize, hi: usize) -> f32 { PV[any::<usize>(PL[i], lo, hi)] }
/// any outputs of the network for `n` codes
fn any_outputs(n: usize) -> Vec<f32> { let mut v = Vec::new(); let mut i = 0; while i < n { v.push(any_f32(PL[i])); i += 1; } v }
/// M08: expansion with priors. `kind` 0: from a vector, 1: from a tensor
trait Same { fn same(&self, o: &Self) -> bool; }
impl Same for Toy { fn same(&self, b: &Toy) -> bool { (self.pos == b.pos) & (self.player == b.player) } }
impl Same for Fan { fn same(&self, b: &Fan) -> bool { (self.pos == b.pos) & (self.player == b.player) } }
impl Same for TicTacToe { fn same(&self, b: &TicTacToe) -> bool { (self.board == b.board) & (self.get_player() == b.get_player()) } }
fn expansion<T: LearnableGame + Copy + Same>(t: T, moves: &[T::Move], pol: &[f32]) {
    let before = any::<usize>("others", 0, param("others", 2) as usize);
    let mut store: NodeStore<T> = NodeStore::new();
    let mut i = 0;
    while i < before { store.add_node(t, None, None, 0.0); i += 1; }
    let r = store.add_node(t, None, None, 0.0);
    let mut n = store.get_node(r);
    n.visits = 3.0;
    n.value = 1.0;
    if param("tensor", 0) == 1 { n.alpha_expand_tensor(&mut store, &Tensor::from_slice(pol)); } else { n.alpha_expand(&mut store, pol.to_vec()); }
    let x = store.get_node_ref(r);
    check(x.children.len() == moves.len(), "M08: not one child per move");
    check(x.expandable_moves.is_empty(), "M08: moves are left after the expansion");
    check((x.visits == 3.0) & (x.value == 1.0) & (x.idx == r) & x.parent.is_none(), "M08: expanding changes the node's own statistics");
    for c in x.children.iter() {
        let y = store.get_node_ref(*c);
        check((*c > r) & (y.idx == *c) & (y.parent == Some(r)), "M08: parent and child do not agree");
        check((y.visits == 0.0) & (y.value == 0.0) & y.children.is_empty(), "M08: a child is not fresh");
        check(y.action_taken.is_some(), "M08: a child has no move");
        if let Some(a) = &y.action_taken {
            check(moves.contains(a), "M08: a child's move is not one of the position's");
            check(y.policy == pol[t.encode(a) as usize], "M08: a child's prior is not the network's output for its move");
            let mut w = t;
            w.apply_move(a);
            check(w.same(&y.state), "M08: a child does not hold the position after its move");
            check(y.expandable_moves == y.state.get_valid_moves(), "M08: a child is not given its moves");
        }
    }
    for m in moves.iter() {
        let mut k = 0;
        for c in x.children.iter() { if store.get_node_ref(*c).action_taken.as_ref() == Some(m) { k += 1; } }
        check(k == 1, "M08: a move does not have exactly one child");
    }
}
fn no_nan(v: &[f32]) { for x in v.iter() { assume(!x.is_nan()); } }
pub fn expand_toy() {
    let t = any_toy(param("k", 4) as usize);
    let v = t.get_valid_moves();
    cover(v.len() == 2, "two moves");
    let pol = any_outputs(6);
    no_nan(&pol);
    expansion(t, &v, &pol);
}
pub fn expand_many() {
    let mut t = Fan::new();
    t.n = param("n", 6) as u8;
    let v = t.get_valid_moves();
    let pol = any_outputs(20);
    no_nan(&pol);
    expansion(t, &v, &pol);
}
pub fn expand_ttt() {
    let mut t = any_ttt();
    let (lo, hi) = (param("lo", 0), param("hi", 9));
    let mut i = 0;
    while i < 9 {
        if (i < lo) | (i >= hi) { assume(t.board[i as usize] != 0); } else if decide(t.board[i as usize] == 0) { t.board[i as usize] = 0; }
        i += 1;
    }
    let v = t.get_valid_moves();
    cover(v.len() == (hi - lo) as usize, "every open cell is free");
    let pol = any_outputs(9);
    no_nan(&pol);
    expansion(t, &v, &pol);
}

fn close(a: f32, b: f64) -> bool { let d = a as f64 - b; (d < 1e-5) & (d > -1e-5) }
/// M09: the network's outputs are restricted to the position's moves and rescaled
pub fn mask() {
    let mut t = Fan::new();
    t.n = param("n", 3) as u8;
    let how = param("how", 0);
    let v = t.get_valid_moves();
    // outputs from a table; those for other codes take two values
    let (x, y) = (pick(20, 0, 2), pick(21, 1, 4));
    let mut pol: Vec<f32> = Vec::new();
    let mut i = 0;
    while i < 20 { pol.push(if i % 2 == 0 { x } else { y }); i += 1; }
    let mut total = 0.0f64;
    let mut i = 0;
    while i < v.len() { let x = pick(i, 0, 4); pol[t.encode(&v[i]) as usize] = x; total += x as f64; i += 1; }
    assume(total > 0.0);
    cover((x == 0.0) & (pol[t.encode(&v[0]) as usize] > 0.0), "outputs for other codes are zero");
    let mut store: NodeStore<Fan> = NodeStore::new();
    let r = store.add_node(t, None, None, 0.0);
    let out: Vec<f32> = match how {
        0 => turn_policy_to_probs(&Tensor::from_slice(&pol), store.get_node_ref(r)),
        1 => vals(&turn_policy_to_probs_tensor(&Tensor::from_slice(&pol), store.get_node_ref(r)), 20),
        _ => vals(&turn_policy_to_probs_tensor_parallel(&store, &[r], &Tensor::from_slice(&pol).view([1, 20])).view([20]), 20),
    };
    check(out.len() >= 20, "M09: there are fewer probabilities than codes");
    let mut c = 0usize;
    while c < 20 {
        let mut is_move = false;
        let mut i = 0;
        while i < v.len() { if t.encode(&v[i]) as usize == c { is_move = true; } i += 1; }
        if is_move { check(close(out[c], pol[c] as f64 / total), "M09: a move's probability is not its share of the network's outputs"); } else { check(out[c] == 0.0, "M09: something that is not a move has a probability"); }
        c += 1;
    }
}
fn vals(t: &Tensor, n: usize) -> Vec<f32> { check(t.numel() == n, "M09: the shape of the result"); let mut v = Vec::new(); let mut i = 0; while i < n { v.push(t.double_value(&[i as i64]) as f32); i += 1; } v }
/// M09: several positions at once
pub fn mask_many() {
    let mut a = Fan::new();
    a.n = param("n", 2) as u8;
    let mut b = Fan::new();
    b.n = param("m", 3) as u8;
    let mut store: NodeStore<Fan> = NodeStore::new();
    let ra = store.add_node(a, None, None, 0.0);
    let rb = store.add_node(b, None, None, 0.0);
    let mut pol: Vec<f32> = Vec::new();
    let mut i = 0;
    while i < 40 { pol.push(if i % 2 == 0 { 0.5 } else { 0.25 }); i += 1; }
    let (mut ta, mut tb) = (0.0f64, 0.0f64);
    let mut i = 0;
    while i < a.n { let x = pick(i as usize, 0, 3); pol[a.encode(&i) as usize] = x; ta += x as f64; i += 1; }
    let mut i = 0;
    while i < b.n { let x = pick(10 + i as usize, 1, 4); pol[20 + b.encode(&i) as usize] = x; tb += x as f64; i += 1; }
    assume((ta > 0.0) & (tb > 0.0));
    cover(ta > tb, "one row has more on legal moves than the other");
    let out = turn_policy_to_probs_tensor_parallel(&store, &[ra, rb], &Tensor::from_slice(&pol).view([2, 20]));
    check(out.size() == vec![2, 20], "M09: the shape of the result");
    let mut c = 0u32;
    while c < 40 {
        let (g, tot) = if c < 20 { (a, ta) } else { (b, tb) };
        let m = g.decode(c % 20);
        let x = out.double_value(&[(c / 20) as i64, (c % 20) as i64]) as f32;
        if (m < g.n) & (g.encode(&m) == c % 20) { check(close(x, pol[c as usize] as f64 / tot), "M09: a move's probability is not its share of the network's outputs"); } else { check(x == 0.0, "M09: something that is not a move has a probability"); }
        c += 1;
    }
}
const VT: [f32; 8] = [0.0, 1.0, 2.0, 3.0, 7.0, 120.0, 17.0, 1000.0];
const VI: [&str; 8] = ["vis0", "vis1", "vis2", "vis3", "vis4", "vis5", "vis6", "vis7"];
/// M10: visit counts become the move probabilities that are trained on and played by
pub fn visits() {
    let n = param("n", 3) as u8;
    let two = param("two", 0) == 1;
    let mut t = Fan::new();
    t.n = n;
    t.player = if any_bool("second_player") { 1 } else { -1 };
    let mut store: NodeStore<Fan> = NodeStore::new();
    if param("others", 0) == 1 { store.add_node(t, None, None, 0.5); }
    let r0 = store.add_node(t, None, None, 0.0);
    let r = if two { let mut u = t; u.n = n - 1; store.add_node(u, None, None, 0.0) } else { r0 };
    let mut sums = [0.0f64; 2];
    let mut want = [0.0f64; 40];
    let mut k = 0;
    while k < 2 {
        let root = if k == 0 { r0 } else { r };
        if (k == 0) | two {
            let mut p = store.get_node(root);
            p.alpha_expand(&mut store, vec![0.05; 20]);
            let p = store.get_node(root);
            let mut i = 0;
            while i < p.children.len() {
                let x = VT[any::<usize>(VI[k * 4 + i % 4], 0, param("vmax", 5) as usize)];
                let ch = store.get_node_as_mut(p.children[i]);
                ch.visits = x;
                ch.value = -1.0;
                ch.policy = 0.9;
                want[k * 20 + p.state.encode(&ch.action_taken.unwrap()) as usize] += x as f64;
                sums[k] += x as f64;
                i += 1;
            }
            assume(sums[k] > 0.0);
            store.get_node_as_mut(root).visits = sums[k] as f32 + 1.0;
            cover((sums[k] > 3.0) & (sums[k] < 6.0), "four or five simulations");
        }
        k += 1;
    }
    if two {
        let (na, nb) = (store.get_node(r0), store.get_node(r));
        let t = get_prob_tensor_parallel(&[&na, &nb], &store);
        check(t.size() == vec![2, 20], "M10: the shape of the result");
        let mut c = 0;
        while c < 40 { check(close(t.double_value(&[c / 20, c % 20]) as f32, want[c as usize] / sums[(c / 20) as usize]), "M10: a move's probability is not its share of the visits"); c += 1; }
    } else {
        let t = get_prob_tensor(&t, r0, &store);
        check(t.is_some(), "M10: a position with moves has no probabilities");
        if let Some(t) = t {
            check(t.size() == vec![20], "M10: the shape of the result");
            let mut c = 0;
            while c < 20 { check(close(t.double_value(&[c]) as f32, want[c as usize] / sums[0]), "M10: a move's probability is not its share of the visits"); c += 1; }
        }
    }
}

const EP: [f32; 4] = [0.0, 0.25, 0.5, 1.0];
fn noise_config(eps: f32) -> MctsConfig {
    cfg_int("iterations", 4);
    cfg_int("simulate_round_limit", 4);
    cfg_float("exploration_const", 2.0);
    cfg_float("dirichlet_alpha", 0.3);
    cfg_float("dirichlet_epsilon", eps as f64);
    MctsConfig::from_config(&conf()).unwrap()
}
/// M11: noise on the priors of a node's children
pub fn noise() {
    let n = param("n", 3) as usize;
    let mut t = Fan::new();
    t.n = n as u8;
    let eps = EP[any::<usize>("eps", 0, 3)];
    let mut store: NodeStore<Fan> = NodeStore::new();
    let other = store.add_node(t, None, None, 0.75);
    let r = store.add_node(t, None, None, 0.0);
    let mut p = store.get_node(r);
    let mut pol = vec![0.0f32; 20];
    let mut before = 0.0f64;
    let mut i = 0;
    while i < n { let x = pick(i, 0, 3); pol[t.encode(&(i as u8)) as usize] = x; before += x as f64; i += 1; }
    p.alpha_expand(&mut store, pol.clone());
    let mut p = store.get_node(r);
    p.visits = 1.0;
    store.set_node(&p);
    p.apply_dirichlet(0.3, eps, &mut store);
    let mut after = 0.0f64;
    let mut i = 0;
    while i < n {
        let c = store.get_node_ref(p.children[i]);
        let old = pol[t.encode(&c.action_taken.unwrap()) as usize];
        check((c.policy >= (1.0 - eps) * old - 1e-5) & (c.policy <= (1.0 - eps) * old + eps + 1e-5), "M11: a prior is not a mixture of the old prior and the noise");
        check((c.visits == 0.0) & (c.value == 0.0) & (c.parent == Some(r)), "M11: the noise changes something other than priors");
        after += c.policy as f64;
        i += 1;
    }
    check(close(after as f32, (1.0 - eps as f64) * before + eps as f64), "M11: the mixture does not keep the total of the priors");
    check((store.get_node_ref(other).policy == 0.75) & (store.get_node_ref(r).policy == 0.0), "M11: the noise reaches a node that is not a child");
    cover(eps == 0.25, "a quarter of noise");
}
