//! Harnesses for the plain tree search.
use crate::sym::*;
use crate::toy::*;
use die_e::base::LearnableGame;
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::*;
use die_e::MctsConfig;

pub fn config(iterations: i64, rounds: i64) -> MctsConfig {
    cfg_int("iterations", iterations);
    cfg_int("simulate_round_limit", rounds);
    cfg_float("exploration_const", 2.0);
    cfg_float("dirichlet_alpha", 0.3);
    cfg_float("dirichlet_epsilon", 0.25);
    MctsConfig::from_config(&conf()).unwrap()
}
/// M01: whatever the game, the search names a legal move, or the empty one where there is none
pub fn search() {
    let t = any_toy(param("k", 3) as usize);
    let c = config(param("n", 3), param("r", 2));
    let v = t.get_valid_moves();
    let over = t.check_winner().is_some();
    cover(!over & (v.len() == 2), "two moves");
    cover(!over & v.is_empty(), "no move");
    let m = mct_search(t, t.player, &c);
    if over | v.is_empty() { check(m == Toy::EMPTY_MOVE, "M01: a move is named although there is none"); }
    else { check(v.contains(&m), "M01: the move named is not legal"); }
}
fn same(a: f32, b: f32) -> bool { (a == b) | (a.is_nan() & b.is_nan()) }
/// M02: a result is credited to the node and its ancestors, once each, and to nothing else
pub fn backprop() {
    const P: [&str; 6] = ["parent0", "parent1", "parent2", "parent3", "parent4", "parent5"];
    const S: [&str; 6] = ["visits0", "visits1", "visits2", "visits3", "visits4", "visits5"];
    const U: [&str; 6] = ["value0", "value1", "value2", "value3", "value4", "value5"];
    let n = param("n", 5) as usize;
    let mut t = any_toy(2);
    t.nm[0] = 1;
    let mut store: NodeStore<Toy> = NodeStore::new();
    let mut par = [None; 6];
    let mut i = 0;
    while i < n {
        // its own index stands for "none"
        let p = any::<usize>(P[i], 0, i);
        if p != i { par[i] = Some(p); }
        store.add_node(t, par[i], if p != i { Some(1) } else { None }, 0.5);
        let x = store.get_node_as_mut(i);
        x.visits = any_f32(S[i]);
        x.value = any_f32(U[i]);
        assume((x.visits >= 0.0) & (x.visits <= 1000000.0));
        assume((x.value >= -1000000.0) & (x.value <= 1000000.0));
        if i > 0 { x.children.push(i); }
        i += 1;
    }
    let at = any::<usize>("at", 0, n - 1);
    let r = any_f32("result");
    assume((r >= -1.0) & (r <= 1.0));
    let mut on = [false; 6];
    let mut cur = Some(at);
    let mut i = 0;
    let mut depth = 0;
    while i < n {
        if let Some(c) = cur { on[c] = true; cur = par[c]; depth += 1; }
        i += 1;
    }
    cover(depth == n, "a chain");
    cover(depth == 1, "a root");
    let mut old = [(0.0f32, 0.0f32); 6];
    let mut i = 0;
    while i < n { let x = store.get_node_ref(i); old[i] = (x.visits, x.value); i += 1; }
    backpropagate(at, r, &mut store);
    let mut i = 0;
    while i < n {
        let x = store.get_node_ref(i);
        let (v, w) = old[i];
        if on[i] {
            check(same(x.visits, v + 1.0), "M02: a node on the way up does not get exactly one visit");
            check(same(x.value, w + r), "M02: a node on the way up does not get the result");
        } else {
            check((x.visits == v) & (x.value == w), "M02: a node off the way up is changed");
        }
        check((x.parent == par[i]) & (x.idx == i) & (x.policy == 0.5) & (x.children.len() == if i > 0 { 1 } else { 0 }) & (x.expandable_moves.len() == 1), "M02: the tree itself is changed");
        i += 1;
    }
}
/// M03: the value of a rollout is the result, for the player asked about, of a position play can reach
pub fn rollout() {
    let k = param("k", 4) as usize;
    let limit = param("r", 3) as usize;
    let t = any_toy(k);
    let player: i8 = if any_bool("asked_second") { 1 } else { -1 };
    // at[d][p]: p can be reached in d turns without the game being over before
    let mut at = [[false; K]; 8];
    let (mut win, mut loss, mut draw, mut open) = (false, false, false, false);
    at[0][0] = true;
    let mut d = 0;
    while d <= limit {
        let mut p = 0;
        while p < k {
            if at[d][p] {
                let w = t.win[p];
                if w == 2 {
                    if d == limit { open = true; } else {
                        at[d + 1][t.next[p][0] as usize] = true;
                        if t.nm[p] == 2 { at[d + 1][t.next[p][1] as usize] = true; }
                    }
                } else {
                    if w == player { win = true; } else if w == -player { loss = true; } else { draw = true; }
                    // whether the position after the last turn counts is left open
                    if d == limit { open = true; }
                }
            }
            p += 1;
        }
        d += 1;
    }
    let id = 0usize;
    let mut store: NodeStore<Toy> = NodeStore::new();
    store.add_node(t, None, None, 0.0);
    let n = store.get_node(id);
    let v = n.simulate(player, limit);
    check((v == 1.0) | (v == 0.0) | (v == -1.0), "M03: the value is not a result");
    if v == 1.0 { check(win, "M03: a win that no play reaches"); }
    if v == -1.0 { check(loss, "M03: a loss that no play reaches"); }
    if v == 0.0 { check(draw | open, "M03: neither won nor lost although every play is decided"); }
    let two = (t.win[0] == 2) & (t.nm[0] == 2);
    let (a, b) = (t.win[t.next[0][0] as usize], t.win[t.next[0][1] as usize]);
    reach(two & (a == player) & (b == -player) & (v == 1.0), "M03: the first move is never played");
    reach(two & (a == player) & (b == -player) & (v == -1.0), "M03: the second move is never played");
    cover((t.win[0] == 2) & (t.nm[0] == 0) & (v == 1.0), "a skipped turn");
    cover(two & (v == 0.0), "no result");
}
/// M04: expanding gives each legal move one child, holding the position after it
pub fn expand() {
    let t = any_toy(param("k", 4) as usize);
    let before = any::<usize>("others", 0, 2);
    let mut store: NodeStore<Toy> = NodeStore::new();
    let mut i = 0;
    while i < before { store.add_node(t, None, None, 0.0); i += 1; }
    let root = store.add_node(t, None, None, 0.0);
    let v = t.get_valid_moves();
    cover(v.len() == 2, "two moves");
    let mut i = 0;
    while i < v.len() {
        let mut n = store.get_node(root);
        check(!n.is_fully_expanded(), "M04: fully expanded with moves left");
        let c = n.expand(&mut store);
        let n = store.get_node_ref(root);
        let x = store.get_node_ref(c);
        check((c == before + 1 + i) & (x.idx == c), "M04: the child is not the node added");
        check(x.parent == Some(root), "M04: the child does not know its parent");
        check((n.children.len() == i + 1) & n.children.contains(&c), "M04: the parent does not know its child");
        check((x.visits == 0.0) & (x.value == 0.0) & x.children.is_empty(), "M04: the child is not fresh");
        let a = x.action_taken;
        check(a.is_some(), "M04: the child has no move");
        if let Some(a) = a {
            check(v.contains(&a), "M04: the move of the child is not legal");
            let mut w = t;
            w.apply_move(&a);
            check((w.pos == x.state.pos) & (w.player == x.state.player), "M04: the child does not hold the position after its move");
            check(x.expandable_moves == x.state.get_valid_moves(), "M04: the child is not given its moves");
        }
        i += 1;
    }
    let n = store.get_node_ref(root);
    check(n.is_fully_expanded(), "M04: moves are left after every one was expanded");
    if v.len() == 2 {
        let a = store.get_node_ref(n.children[0]).action_taken;
        let b = store.get_node_ref(n.children[1]).action_taken;
        check(a != b, "M04: one move has two children");
    }
}
const V: [&str; 7] = ["visits_0", "visits_1", "visits_2", "visits_3", "visits_4", "visits_5", "visits_6"];
const Q: [&str; 7] = ["result_0", "result_1", "result_2", "result_3", "result_4", "result_5", "result_6"];
const G: [&str; 7] = ["open_0", "open_1", "open_2", "open_3", "open_4", "open_5", "open_6"];
const H: [&str; 7] = ["leaf_0", "leaf_1", "leaf_2", "leaf_3", "leaf_4", "leaf_5", "leaf_6"];
/// a tree of depth two, every inner node with two children, any statistics of 1..=`max` visits and whole results
pub fn stats(max: i64) -> NodeStore<Toy> {
    let mut t = Toy::new();
    t.nm[0] = 1;
    let mut store: NodeStore<Toy> = NodeStore::new();
    let (mut vis, mut val) = ([0i64; 7], [0i64; 7]);
    let mut i = 6;
    while i >= 1 {
        vis[i] = any::<i64>(V[i], 1, max);
        val[i] = any::<i64>(Q[i], -max, max);
        assume((val[i] <= vis[i]) & (val[i] >= -vis[i]));
        i -= 1;
    }
    let mut i = 0;
    while i < 7 {
        store.add_node(t, if i == 0 { None } else { Some((i - 1) / 2) }, if i == 0 { None } else { Some(i as u8) }, 0.0);
        i += 1;
    }
    let mut i = 0;
    while i < 7 {
        let x = store.get_node_as_mut(i);
        x.visits = NUM[(vis[i] + 8) as usize];
        x.value = NUM[(val[i] + 8) as usize];
        if i == 0 { x.visits = NUM[(vis[1] + vis[2] + 8) as usize]; x.value = NUM[(val[1] + val[2] + 8) as usize]; }
        // moves left to expand?
        if !any_bool(G[i]) { x.expandable_moves.clear(); }
        if i < 3 { if !any_bool(H[i]) { x.children.push(2 * i + 1); x.children.push(2 * i + 2); } }
        i += 1;
    }
    store
}
const NUM: [f32; 17] = [-8., -7., -6., -5., -4., -3., -2., -1., 0., 1., 2., 3., 4., 5., 6., 7., 8.];
fn bound(store: &NodeStore<Toy>, i: usize, c: f32) -> f32 {
    let (x, p) = (store.get_node_ref(i), store.get_node_ref((i - 1) / 2));
    x.value / x.visits + (c * p.visits.ln() / x.visits).sqrt()
}
/// M05: the tree is walked down along the best upper confidence bound, to the first node that is not complete
pub fn select() {
    let max = param("v", 2);
    let c: f32 = 2.0;
    let store = stats(max);
    let leaf = select_leaf_node(0, &store, c);
    let mut at = 0;
    let mut i = 0;
    let mut seen = false;
    while i < 3 {
        let x = store.get_node_ref(at);
        if !seen {
            if x.children.is_empty() | !x.is_fully_expanded() {
                check(leaf == at, "M05: the walk does not stop at the first node with something left to expand");
                seen = true;
            } else {
                let (a, b) = (2 * at + 1, 2 * at + 2);
                let (u, v) = (bound(&store, a, c), bound(&store, b, c));
                // below which child did it end?
                let left = (leaf == a) | (at == 0 && leaf > 0 && (leaf - 1) / 2 == a);
                let right = (leaf == b) | (at == 0 && leaf > 0 && (leaf - 1) / 2 == b);
                check(left | right, "M05: the walk stops early");
                if left { check(u >= v - 0.001, "M05: the worse child is taken"); }
                if right { check(v >= u - 0.001, "M05: the worse child is taken"); }
                at = if left { a } else { b };
            }
        }
        i += 1;
    }
    check(seen, "M05: no end");
}
/// M06: the move answered is that of a most visited child
pub fn answer() {
    let mut t = Toy::new();
    t.nm[0] = 1;
    let n = param("n", 3) as usize;
    let shift = param("n", 3) as usize % 2;
    let mut store: NodeStore<Toy> = NodeStore::new();
    let mut i = 0;
    while i < shift { store.add_node(t, None, None, 0.0); i += 1; }
    let root = store.add_node(t, None, None, 0.0);
    let mut vis = [0.0f32; 4];
    let mut i = 0;
    while i < n {
        let c = store.add_node(t, Some(root), Some(20 + i as u8), 0.0);
        vis[i] = any::<i32>(V[i], 0, 1000000) as f32;
        let x = store.get_node_as_mut(c);
        x.visits = vis[i];
        // results do not count
        x.value = any_f32(Q[i]);
        assume((x.value >= -1000000.0) & (x.value <= 1000000.0));
        store.get_node_as_mut(root).children.push(c);
        i += 1;
    }
    let m = select_most_visits(root, &store);
    if n == 0 { check(m == Toy::EMPTY_MOVE, "M06: a move without children"); }
    else {
        check((m >= 20) & (m < 20 + n as u8), "M06: not the move of a child");
        if (m >= 20) & (m < 20 + n as u8) {
            let k = (m - 20) as usize;
            let mut i = 0;
            while i < n { check(vis[k] >= vis[i], "M06: another child was visited more often"); i += 1; }
        }
    }
}
/// M07: of two moves that end the game at once, the search answers the one with the better result
pub fn prefer() {
    let mut t = Toy::new();
    t.nm[0] = 2;
    t.next[0] = [1, 2];
    t.player = if any_bool("second_player") { 1 } else { -1 };
    t.win[1] = any::<i8>("first", -1, 1);
    t.win[2] = any::<i8>("second", -1, 1);
    assume(t.win[1] != t.win[2]);
    let c = config(param("n", 6), 4);
    let m = mct_search(t, t.player, &c);
    let first = (t.win[1] > t.win[2]) == (t.player == 1);
    check(m == if first { 0 } else { 1 }, "M07: the better of two final moves is passed over");
}
const NEVER: [&str; 8] = ["M03: move 0 is never played", "M03: move 1 is never played", "M03: move 2 is never played", "M03: move 3 is never played", "M03: move 4 is never played", "M03: move 5 is never played", "M03: move 6 is never played", "M03: move 7 is never played"];
/// M03: every one of many moves may be played by a rollout
pub fn rollout_fan() {
    let mut t = Fan::new();
    t.n = 8;
    let mut g = 0u8;
    while g < 8 {
        t.good = g;
        let n: Node<Fan> = Node::new(t, 0, None, None, 0.0);
        let v = n.simulate(1, 2);
        check((v == 1.0) | (v == -1.0), "M03: the value is not a result");
        reach(v == 1.0, NEVER[g as usize]);
        g += 1;
    }
}
/// M04 with many moves
pub fn expand_fan() {
    let mut t = Fan::new();
    t.n = param("n", 6) as u8;
    let mut store: NodeStore<Fan> = NodeStore::new();
    store.add_node(t, None, None, 0.0);
    let root = store.add_node(t, if param("inner", 0) == 1 { Some(0) } else { None }, if param("inner", 0) == 1 { Some(0) } else { None }, 0.25);
    let mut seen = [false; 12];
    let mut i = 0;
    while i < t.n {
        let c = store.get_node(root).expand(&mut store);
        let n = store.get_node_ref(root);
        check((n.children.len() == i as usize + 1) & n.children.contains(&c) & (n.expandable_moves.len() == (t.n - i) as usize - 1), "M04: the parent does not know its child");
        let x = store.get_node_ref(c);
        check((x.parent == Some(root)) & (x.idx == c), "M04: the child does not know its parent");
        let a = x.action_taken.unwrap_or(11);
        check(!seen[a as usize] & (a < t.n), "M04: one move has two children");
        seen[a as usize] = true;
        check(x.state.pos == a + 1, "M04: the child does not hold the position after its move");
        i += 1;
    }
    check(store.get_node_ref(root).is_fully_expanded(), "M04: moves are left after every one was expanded");
}
/// M07: the results found in the tree, and not only those of the first rollouts, decide: one move draws at once, the
/// other leads by single moves to a finished position too far away for the first rollouts
pub fn prefer_late() {
    let k = param("k", 5) as u8;
    let mut t = Toy::new();
    t.stay = any_bool("same_player_moves_on");
    t.nm[0] = 2;
    let swap = any_bool("swap");
    t.next[0] = if swap { [2, 1] } else { [1, 2] };
    t.win[1] = 0;
    let mut i = 2;
    while i < k - 1 { t.nm[i as usize] = 1; t.next[i as usize] = [i + 1, i + 1]; i += 1; }
    let wins = any_bool("wins");
    t.win[k as usize - 1] = if wins { 1 } else { -1 };
    t.player = if any_bool("second_player") { 1 } else { -1 };
    let me = t.player;
    let c = config(param("n", 6), param("r", 1));
    let m = mct_search(t, me, &c);
    let draw = if swap { 1u8 } else { 0 };
    let good = wins == (me == 1);
    check(m == if good { 1 - draw } else { draw }, "M07: the worse of two moves is preferred");
}
