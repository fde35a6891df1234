//! Matches: what is counted and which model is kept.
use crate::alpha::*;
use crate::learn::*;
use crate::sym::*;
use crate::toy::*;
use die_e::base::LearnableGame;
use die_e::versus::*;

fn agent(k: i64) -> Player {
    match k { 0 => Player { player_type: Agent::Random, model: None }, 1 => Player { player_type: Agent::Mcts, model: None }, _ => Player { player_type: Agent::Model, model: Some(net()) } }
}
/// the result of a game in which every position has at most one move: the winner, 0 also for one cut off after `limit` rounds
fn end_of(t: &Nt, idx: usize, limit: usize) -> i8 {
    let mut p = t.starts[if idx < 4 { idx } else { 3 }];
    // in the second half of the games the other player begins
    if idx >= 200 { p = decide_n(t.next[p as usize][0]); }
    let mut r = 0;
    loop {
        let moves = decide_n(t.nm[p as usize]) > 0;
        p = decide_n(t.next[p as usize][0]);
        r += 1;
        if moves {
            let w = t.win[p as usize];
            if !decide(w == 2) { return w; }
            if r >= limit { return 0; }
        }
    }
}
/// the tally of a match: V01
pub fn tally() {
    tick_reset();
    set_net(nt_net);
    let k = param("k", 3) as usize;
    let mut t = any_chain(k, 0);
    let mut i = 0;
    while i < 4 { t.starts[i] = any_n(START[i], 0, k as u8 - 2); i += 1; }
    if param("endless", 0) == 1 {
        // the first game never ends, the others do so at once
        t = NT;
        t.win = [2, 2, any_n("win2", 0, 2) as i8 - 1, 2, 2, 2];
        t.nm = [1; NK];
        t.next[0] = [1, 1];
        t.next[1] = [param("turn", 1) as u8; 2];
        t.next[3] = [4, 4];
        t.next[4] = [2, 2];
        t.next[2] = [2, 2];
        t.starts = [1, 3, 3, 3];
    }
    let mut i = 0;
    while i < 4 { assume(t.win[t.starts[i] as usize] == 2); i += 1; }
    let mut i = 0;
    while i < k { t.win[i] = decide_n((t.win[i] + 1) as u8) as i8 - 1; i += 1; }
    t.player = if decide(t.player == 1) { 1 } else { -1 };
    // the other player may begin
    let n = decide_n(t.next[t.starts[3] as usize][0]);
    assume(t.win[n as usize] == 2);
    set_start(t);
    let conf = config(param("iterations", 1), 4, 0.0);
    let (a, b) = (param("p1", 0), param("p2", 0));
    let r: PlayResult<Nt> = play(agent(a), agent(b), &conf, 1.0);
    let (mut w1, mut w2) = (0usize, 0usize);
    let mut i = 0;
    while i < 400 {
        let w = end_of(&t, i, 400);
        if w == -1 { w1 += 1; }
        if w == 1 { w2 += 1; }
        i += 1;
    }
    check(r.n_games == 400, "V01: the number of games is not told");
    check(r.wins_p1 == w1, "V01: the first player's wins are not the games it won");
    check(r.wins_p2 == w2, "V01: the second player's wins are not the games it won");
    check(r.draws == 400 - w1 - w2, "V01: the draws are not the games nobody won");
    check(r.winrate == w1 as f64 / 400.0, "V01: the win rate is not the first player's share of the games");
    check(r.games.len() == 400, "V01: not every game is kept, once");
    let (x, y) = (agent(a).player_type, agent(b).player_type);
    let (mut n1, mut n2, mut n0) = (0usize, 0usize, 0usize);
    for g in r.games.iter() {
        if g.winner == x { n1 += 1; }
        if g.winner == y { n2 += 1; }
        if g.winner == Agent::None { n0 += 1; }
    }
    if x != y { check((n1 == w1) & (n2 == w2), "V01: a game's winner is not the player who won it"); }
    check(n0 == 400 - w1 - w2, "V01: a game nobody won has a winner");
    cover(w1 > w2, "the first player wins more games");
}
const START: [&str; 4] = ["start0", "start1", "start2", "start3"];

/// two networks: the one with weight 2 prefers the move whose end is won by the player to move, another one the other move
fn strong_net(x: &tch::Tensor) -> (tch::Tensor, tch::Tensor) {
    let t = start::<Nt>(NT);
    let strong = decide(acting_weight() == 2.0);
    let n = x.size()[0];
    let mut pol: Vec<f32> = Vec::new();
    let mut i = 0;
    while i < n {
        let pos = x.double_value(&[i, 0, 0, 0]) as u8;
        let player = x.double_value(&[i, 0, 0, 1]) as i8;
        let good = if t.win[t.next[pos as usize][0] as usize] == player { 0 } else { 1 };
        let pick = if strong { good } else { 1 - good };
        let mut row = [0.125f32; 5];
        row[Nt::code(pos, 1 - pick) as usize] = 0.25;
        row[Nt::code(pos, pick) as usize] = 0.5;
        let mut k = 0;
        while k < 5 { pol.push(row[k]); k += 1; }
        i += 1;
    }
    (tch::Tensor::from_slice(&pol).view([n, 5]), tch::Tensor::zeros([n, 1], (tch::Kind::Float, tch::Device::Cpu)))
}
/// which model is the best one after a match between a learner's and the stored one: A06
pub fn promotion() {
    tick_reset();
    set_net(strong_net);
    let exists = param("exists", 1) == 1;
    // every game but the first `cut` ones is decided by a choice of two moves, which the better network wins;
    // the first `cut` ones have the same end whoever plays
    let cut = [0, 179, 180, 181, 200][any::<usize>("cut", 0, 4)];
    let cut = if param("cut", -1) >= 0 { param("cut", 0) as usize } else { decide_n(cut as u8) as usize };
    let mut t = NT;
    let w = if param("end", -9) == -9 { decide_n(any_n("end", 0, 2)) as i8 - 1 } else { param("end", 0) as i8 };
    t.win = [2, -1, 1, 2, 2, w];
    t.nm = [2, 0, 0, 1, 1, 0];
    t.next = [[1, 2], [1, 1], [2, 2], [0, 0], [5, 5], [5, 5]];
    t.starts = [4, 3, 3, 3];
    if cut == 0 { t.starts = [3; 4]; }
    t.cut = cut;
    set_start(t);
    let mine = decide(any_bool("the learner's network is the better one"));
    let (a, b) = if mine { (2.0, 3.0) } else { (3.0, 2.0) };
    let f = model_file(a, b);
    let az = learner_from(Some(f), 1, 4, 1.0, 1, 4);
    let before = tick();
    check(before == 0, "A06: a learner starts games before it has to");
    tick_reset();
    let won = (if mine { 400 - cut } else { 0 }) + (if w == -1 { cut } else { 0 });
    if param("direct", 0) == 1 {
        let other = die_e::alphazero::nnet::ResNet::from_path::<Nt>(&model_file(b, b));
        let r = az.play_vs_model::<Nt>(other);
        if won >= 220 {
            check(r == Some(1), "A06: winning 55% of the games is not told as being better");
        } else if won <= 180 {
            check(r == Some(2), "A06: winning 45% of the games or less is not told as being worse");
        } else {
            check(r.is_none(), "A06: a match neither side wins clearly is not told as inconclusive");
        }
        check(weight(&az.model.vs) == a, "A06: a match changes the learner's model");
        return;
    }
    az.play_vs_best_model::<Nt>();
    check(weight(&az.model.vs) == a, "A06: a match changes the learner's model");
    let best = best_weight();
    if !exists {
        check(best == a, "A06: without a best model the current one does not become it");
    } else if won >= 220 {
        check(best == a, "A06: a model that wins 55% of the games does not become the best one");
    } else {
        check(best == b, "A06: a model that wins less than 55% of the games replaces the best one");
    }
    cover(won < 220, "not enough games are won");
}
