//! The search that is guided by a network. Positions carry the network's outputs for them (toy::Nt), so that the
//! network is any function from positions to outputs.
use crate::sym::*;
use crate::toy::*;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::*;
use die_e::mcts::node_store::NodeStore;
use die_e::MctsConfig;
use indicatif::ProgressBar;

const NW: [&str; 6] = ["win0", "win1", "win2", "win3", "win4", "win5"];
const NN: [&str; 6] = ["nm0", "nm1", "nm2", "nm3", "nm4", "nm5"];
const NX: [&str; 6] = ["next0", "next1", "next2", "next3", "next4", "next5"];
const NY: [&str; 6] = ["alt0", "alt1", "alt2", "alt3", "alt4", "alt5"];
const NV: [&str; 6] = ["val0", "val1", "val2", "val3", "val4", "val5"];
const NP: [&str; 6] = ["prior0", "prior1", "prior2", "prior3", "prior4", "prior5"];
const VALS: [f32; 4] = [-1.0, 0.5, 0.0, 0.75];
const PRIORS: [[f32; 2]; 3] = [[0.5, 0.25], [0.125, 0.5], [0.25, 0.25]];
/// any game with `k` positions and any network for it, whose outputs are taken from small tables
/// a value in lo..=hi, or the one the instance fixes
pub fn any_n(name: &'static str, lo: u8, hi: u8) -> u8 {
    let v = param(name, -9);
    if v == -9 { any::<u8>(name, lo, hi) } else { v as u8 }
}
fn any_w(name: &'static str) -> i8 {
    let v = param(name, -9);
    if v == -9 { any::<i8>(name, -1, 2) } else { v as i8 }
}
fn any_b(name: &'static str) -> bool {
    let v = param(name, -9);
    if v == -9 { any_bool(name) } else { v != 0 }
}
pub fn any_nt(k: usize) -> Nt { any_nt_with(k, false, 2) }
/// with `up`, each position leads to later ones only
pub fn any_nt_with(k: usize, up: bool, most: u8) -> Nt {
    let mut t = NT;
    let mut i = 0;
    while i < k {
        t.win[i] = any_w(NW[i]);
        t.nm[i] = any_n(NN[i], 0, most);
        let lo = if up && (i + 1 < k) { i as u8 + 1 } else { 0 };
        t.next[i] = [any_n(NX[i], lo, k as u8 - 1), any_n(NY[i], lo, k as u8 - 1)];
        t.val[i] = VALS[any::<usize>(NV[i], 0, 3)];
        t.pol[i] = PRIORS[any::<usize>(NP[i], 0, 2)];
        i += 1;
    }
    t.stay = any_b("same_player_moves_on");
    if any_b("second_player") { t.player = 1; }
    t
}
pub fn config(iterations: i64, rounds: i64, eps: f64) -> MctsConfig {
    cfg_int("iterations", iterations);
    cfg_int("simulate_round_limit", rounds);
    cfg_float("exploration_const", 2.0);
    cfg_float("dirichlet_alpha", 0.3);
    cfg_float("dirichlet_epsilon", eps);
    MctsConfig::from_config(&conf()).unwrap()
}
fn close(a: f32, b: f32) -> bool { (a - b < 1e-5) & (b - a < 1e-5) }
/// every node of the finished search: M12
fn account(store: &NodeStore<Nt>, n: usize, roots: &[Nt], iterations: f32) {
    let mut r = 0;
    while r < roots.len() {
        let x = store.get_node_ref(r);
        check((x.parent.is_none()) & (x.state == roots[r]), "M12: the first nodes are not the games, in their order");
        check(x.visits == iterations + 1.0, "M12: a game does not get one simulation per iteration");
        r += 1;
    }
    let mut i = 0;
    while i < n {
        let x = store.get_node_ref(i);
        let mut root = i;
        let mut steps = 0;
        while (steps < 8) & store.get_node_ref(root).parent.is_some() { root = store.get_node_ref(root).parent.unwrap_or(0); steps += 1; }
        check(root < roots.len(), "M12: a node belongs to no game");
        let is_root = i < roots.len();
        let w = x.state.check_winner();
        let moves = x.state.get_valid_moves();
        let own = x.state.val[x.state.pos as usize];
        let (mut sv, mut sn) = (0.0f32, 0.0f32);
        let mut share = 0.0f32;
        for c in x.children.iter() {
            let y = store.get_node_ref(*c);
            check(y.parent == Some(i), "M12: parent and child do not agree");
            sv += y.value;
            sn += y.visits;
            share += y.policy;
        }
        if is_root && !moves.is_empty() {
            check((sn == iterations) & (x.value == sv), "M12: a game's simulations do not all go into one of its moves");
            check(close(share, 1.0), "M12: the priors of a position's moves do not add up to one");
        } else if is_root {
            check(x.value == iterations * own, "M12: a game without moves is not credited the network's value of it");
        } else if let Some(w) = w {
            let p = roots[if root < roots.len() { root } else { 0 }].player;
            let v = if w == p { 1.0 } else if w == -p { -1.0 } else { 0.0 };
            check(x.children.is_empty(), "M12: a finished position is expanded");
            check(x.value == x.visits * v, "M12: a finished position is not credited its result for the player the search is for");
        } else if moves.is_empty() {
            check(x.value == x.visits * own, "M12: a position without moves is not credited the network's value of it");
        } else if x.visits > 0.0 {
            check(x.children.len() == moves.len(), "M12: a position that was selected does not have one child per move");
            check((x.visits == 1.0 + sn) & (x.value == own + sv), "M12: a position's credit is not the network's value of it and what its children got");
            check(close(share, 1.0), "M12: the priors of a position's moves do not add up to one");
            if x.children.len() == 2 {
                let (a, b) = (store.get_node_ref(x.children[0]), store.get_node_ref(x.children[1]));
                let pol = x.state.pol[x.state.pos as usize];
                let pa = pol[(a.action_taken.unwrap_or(0) % 10) as usize];
                let pb = pol[(b.action_taken.unwrap_or(0) % 10) as usize];
                check(close(a.policy * pb, b.policy * pa), "M12: a prior is not the network's output for that move in that position");
            }
        } else {
            check(x.children.is_empty() & (x.value == 0.0), "M12: a position that was never selected has children or credit");
        }
        i += 1;
    }
}
pub fn parallel() {
    set_net(nt_net);
    let k = param("k", 3) as usize;
    let t = any_nt(k);
    let g = param("games", 2) as usize;
    let mut states: Vec<Nt> = Vec::new();
    let mut i = 0;
    while i < g {
        assume(t.win[i] == 2);
        let mut s = t;
        s.pos = i as u8;
        s.id = i;
        if i == 1 { s.player = -t.player; }
        states.push(s);
        i += 1;
    }
    let n = param("iterations", 2);
    let conf = config(n, 4, 0.0);
    let mut store: NodeStore<Nt> = NodeStore::new();
    alpha_mcts_parallel(&mut store, &states, &net(), &conf, Some(ProgressBar::hidden()));
    let mut len = g;
    while (len < 40) && store_has(&store, len) { len += 1; }
    account(&store, len, &states, n as f32);
}
/// whether the tree has a node `i`: some node names it as a child
fn store_has(store: &NodeStore<Nt>, i: usize) -> bool {
    let mut j = 0;
    let mut found = false;
    while j < i { if store.get_node_ref(j).children.contains(&i) { found = true; } j += 1; }
    found
}

/// the search for one game: M13
pub fn single() {
    set_net(nt_net);
    let k = param("k", 3) as usize;
    let s = any_nt(k);
    let n = param("iterations", 2);
    let conf = config(n, 4, 0.0);
    let done = s.check_winner().is_some();
    let moves = s.get_valid_moves();
    match alpha_mcts(&s, &net(), &conf) {
        None => check(done | moves.is_empty(), "M13: no answer for a position in which there are moves"),
        Some(t) => {
            check(!done, "M13: an answer for a game that is over");
            check(!moves.is_empty(), "M13: an answer for a position without moves");
            check(t.size() == vec![Nt::ACTION_SPACE_SIZE], "M13: the answer does not have one entry per action");
            // the same search among others
            let mut store: NodeStore<Nt> = NodeStore::new();
            alpha_mcts_parallel(&mut store, &[s], &net(), &conf, Some(ProgressBar::hidden()));
            let mut p = [0.0f32; 5];
            let root = store.get_node_ref(0);
            for c in root.children.iter() {
                let y = store.get_node_ref(*c);
                p[s.encode(&y.action_taken.unwrap_or(0)) as usize] = y.visits / n as f32;
            }
            let mut i = 0;
            let mut sum = 0.0f32;
            while i < 5 {
                let x = t.double_value(&[i as i64]) as f32;
                check(close(x, p[i]), "M13: the answer is not each move's share of the simulations");
                sum += x;
                i += 1;
            }
            check(close(sum, 1.0), "M13: the answer does not add up to one");
            cover(true, "M13: answered");
        }
    }
}
/// one more simulation: M14
pub fn puct() {
    set_net(nt_net);
    let k = param("k", 3) as usize;
    let s = any_nt(k);
    assume(s.win[0] == 2);
    let n = param("iterations", 2);
    let mut a: NodeStore<Nt> = NodeStore::new();
    let mut b: NodeStore<Nt> = NodeStore::new();
    let (ca, cb) = (config(n, 4, 0.0), config(n + 1, 4, 0.0));
    alpha_mcts_parallel(&mut a, &[s], &net(), &ca, Some(ProgressBar::hidden()));
    alpha_mcts_parallel(&mut b, &[s], &net(), &cb, Some(ProgressBar::hidden()));
    // down the path the last simulation took
    let mut at = 0;
    let mut going = true;
    let mut steps = 0;
    while going && (steps < n + 1) {
        let x = a.get_node_ref(at);
        if x.children.is_empty() { going = false; } else {
            let big = x.visits.sqrt();
            let mut took = at;
            let mut best = -1000.0f32;
            let mut taken = -1000.0f32;
            let mut j = 0;
            for c in x.children.iter() {
                let (old, new) = (a.get_node_ref(*c), b.get_node_ref(*c));
                let q = if old.visits > 0.0 { old.value / old.visits } else { 0.0 };
                let u = q + 2.0 * old.policy * big / (old.visits + 1.0);
                if u > best { best = u; }
                if new.visits > old.visits { took = *c; taken = u; j += 1; }
            }
            check(j == 1, "M14: a simulation does not go into one of the children");
            check(taken > best - 0.001, "M14: a simulation goes into a child that has not the greatest Q + c P sqrt(N) / (1 + n)");
            at = took;
        }
        steps += 1;
    }
}

const EPS: [f64; 4] = [0.0, 0.25, 0.5, 1.0];
/// the priors of the games' first moves before any simulation: M11
pub fn root_noise() {
    set_net(nt_net);
    let mut t = any_nt(2);
    assume(t.win[0] == 2);
    t.nm[0] = 2;
    assume((t.win[1] == 2) & (t.nm[1] > 0));
    let e = param("eps", 1) as usize;
    let mut second = t;
    second.pos = 1;
    second.id = 1;
    let conf = config(0, 4, EPS[e]);
    let mut store: NodeStore<Nt> = NodeStore::new();
    alpha_mcts_parallel(&mut store, &[t, second], &net(), &conf, Some(ProgressBar::hidden()));
    let e = EPS[e] as f32;
    let mut r = 0;
    while r < 2 {
        let x = store.get_node_ref(r);
        let pol = x.state.pol[x.state.pos as usize];
        let mut sum = 0.0f32;
        let mut moved = false;
        let two = x.children.len() == 2;
        for c in x.children.iter() {
            let y = store.get_node_ref(*c);
            sum += y.policy;
            let m = (y.action_taken.unwrap_or(0) % 10) as usize;
            if two {
                let lo = (1.0 - e) * pol[m] / ((1.0 - e) * (pol[0] + pol[1]) + e);
                let hi = ((1.0 - e) * pol[m] + e) / ((1.0 - e) * (pol[0] + pol[1]) + e);
                check((y.policy > lo - 1e-5) & (y.policy < hi + 1e-5), "M11: a first move's prior is not its share of the mixture of the network's output and the noise");
                let plain = pol[m] / (pol[0] + pol[1]);
                if (y.policy > plain + 0.01) | (y.policy < plain - 0.01) { moved = true; }
            }
        }
        check(close(sum, 1.0), "M11: the priors of a game's first moves do not add up to one");
        if e > 0.0 { reach(moved, "M11: some draw of the noise changes a first move's prior"); }
        r += 1;
    }
}
/// how far noise can turn the first simulation of a search of one game: M11
pub fn one_noise() {
    set_net(nt_net);
    let mut t = any_nt(2);
    t.pos = 0;
    assume((t.win[0] == 2) & (t.win[1] == 2));
    t.nm[0] = 2;
    t.next[0] = [1, 1];
    let e = param("eps", 1) as usize;
    let first = param("first", 0) as usize;
    // the difference of the two priors is just too large, or just not, for noise of this share to make up for
    let much = param("much", 0) == 1;
    let (a, b) = if e == 1 { if much { (0.5, 0.125) } else { (0.5625, 0.25) } } else if much { (1.0, 0.0) } else { (0.75, 0.125) };
    t.pol[0] = if first == 0 { [a, b] } else { [b, a] };
    let conf = config(1, 4, EPS[e]);
    match alpha_mcts(&t, &net(), &conf) {
        None => check(false, "M11: no answer for a position in which there are moves"),
        Some(x) => {
            let at = |m: usize| x.double_value(&[Nt::code(0, m as u8) as i64]) as f32;
            let (likely, other) = (at(first), at(1 - first));
            check(close(likely + other, 1.0), "M11: one simulation is not of one of the moves");
            if much {
                check(close(likely, 1.0), "M11: noise counts for more than its share in a search of one game");
            } else {
                reach(close(other, 1.0), "M11: noise can make a search of one game try a move whose prior is not the greatest");
                cover(close(likely, 1.0), "the likelier move is tried");
            }
        }
    }
}
