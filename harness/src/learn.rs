//! Self-play and training: what is recorded of the games, and what the network is trained on.
use crate::alpha::*;
use crate::sym::*;
use crate::toy::*;
use die_e::alphazero::alphazero::*;
use die_e::base::LearnableGame;
use die_e::MctsConfig;

/// a learner for the game Nt
pub fn learner(iterations: i64, rounds: i64, temperature: f64, batches: i64, batch: i64) -> AlphaZero { learner_from(None, iterations, rounds, temperature, batches, batch) }
pub fn learner_from(path: Option<std::path::PathBuf>, iterations: i64, rounds: i64, temperature: f64, batches: i64, batch: i64) -> AlphaZero {
    cfg_int("learn_iterations", param("li", 1));
    cfg_int("self_play_iterations", param("sp", 1));
    cfg_int("num_epochs", param("ep", 1));
    cfg_int("training_batch_size", batch);
    cfg_int("num_self_play_batches", batches);
    cfg_float("temperature", temperature);
    cfg_float("wd", 0.0);
    cfg_float("lr", 0.0);
    let m: MctsConfig = config(iterations, rounds, 0.0);
    AlphaZero::new::<Nt>(path, AlphaZeroConfig::from_config(&conf()).unwrap(), m, OptimizerParams::from_config(&conf()).unwrap())
}
/// any game whose positions follow one another in order, the last one being over; skipping a turn does not end it
pub fn any_chain(k: usize, two: usize) -> Nt {
    let mut t = any_nt_with(k, true, if two > 0 { 2 } else { 1 });
    let mut i = 0;
    while i < k {
        if i + 1 == k { assume(t.win[i] != 2); } else {
            assume((t.next[i][0] as usize > i) & (t.next[i][1] as usize > i));
            if i >= two { assume(t.nm[i] < 2); }
            if t.nm[i] == 0 { let n = t.next[i][0] as usize; assume(t.win[n] == 2); }
        }
        i += 1;
    }
    t
}
/// whether the fragments of game `id` are those of one way to play it
fn is_a_game(mem: &[MemoryFragment], id: usize, first: Nt, limit: usize, k: usize, label: bool) -> bool {
    let mut found = false;
    let mut c = 0usize;
    while c < (1 << k) {
        let mut s = first;
        let mut round = 0;
        let mut want: Vec<(u8, i8, u8)> = Vec::new();
        let mut going = true;
        let mut result = 0i8;
        let mut possible = true;
        while going {
            if round >= limit { going = false; } else {
                let moves = s.get_valid_moves();
                if moves.is_empty() { s.skip_turn(); } else {
                    let bit = (c >> s.pos) & 1;
                    if bit >= moves.len() { possible = false; going = false; } else {
                        want.push((s.pos, s.player, Nt::code(s.pos, bit as u8) as u8));
                        s.apply_move(&moves[bit]);
                        if let Some(w) = s.check_winner() { result = w; going = false; }
                    }
                }
                round += 1;
            }
        }
        if possible {
            let mut n = 0;
            let mut all = true;
            for f in mem.iter() { if f.state.double_value(&[0, 0, 0, 5]) == id as f64 { n += 1; } }
            if n != want.len() { all = false; }
            for (pos, player, code) in want.iter() {
                let mut hit = 0;
                for f in mem.iter() {
                    let at = |i: i64| f.state.double_value(&[0, 0, 0, i]);
                    if (at(5) == id as f64) & (at(0) == *pos as f64) & (at(1) == *player as f64) {
                        let v = if result == 0 { 0 } else if result == *player { 1 } else { -1 };
                        if (!label | (f.outcome == v)) & (f.ps.double_value(&[*code as i64]) > 0.0) { hit += 1; }
                    }
                }
                if hit != 1 { all = false; }
            }
            if all { found = true; }
        }
        c += 1;
    }
    found
}
/// the policies recorded: A03
fn targets(mem: &[MemoryFragment], t: &Nt, one: bool) {
    for f in mem.iter() {
        let pos = f.state.double_value(&[0, 0, 0, 0]) as usize;
        check(f.ps.size() == vec![Nt::ACTION_SPACE_SIZE], "A02: a recorded policy does not have one entry per action");
        let nm = decide_n(t.nm[pos]);
        let mut i = 0u32;
        let mut sum = 0.0f64;
        while i < 5 {
            let x = f.ps.double_value(&[i as i64]);
            let legal = ((nm > 0) & (Nt::code(pos as u8, 0) == i)) | ((nm > 1) & (Nt::code(pos as u8, 1) == i));
            check(x >= 0.0, "A02: a recorded policy has a negative entry");
            check(legal | (x == 0.0), "A02: a recorded policy has weight on a move that is not legal in the recorded position");
            sum += x;
            i += 1;
        }
        if one { check((sum > 0.9999) & (sum < 1.0001), "A02: at temperature one, a recorded policy does not add up to one"); }
    }
}
/// games played side by side: A01, A02
pub fn many() {
    tick_reset();
    set_net(nt_net);
    let k = param("k", 3) as usize;
    let g = param("games", 2) as usize;
    let limit = param("limit", 4) as usize;
    let mut t = any_chain(k, param("two", 1) as usize);
    let mut i = 0;
    while i < g { t.starts[i] = start_of(i, k); assume(t.win[t.starts[i] as usize] == 2); i += 1; }
    set_start(t);
    let warm = param("warm", 0) == 1;
    let az = learner(param("iterations", 1), limit as i64, if warm { 2.0 } else { 1.0 }, g as i64, 4);
    let mem = az.self_play_parallel::<Nt>();
    let mut i = 0;
    while i < g {
        let mut s = t;
        s.id = i;
        s.pos = t.starts[i];
        if i % 2 == 1 { s.player = -s.player; }
        let moves = is_a_game(&mem, i, s, limit, k, false);
        check(moves, "A02: what is recorded of a game is not each of its turns, once, with the mover and a policy that has the move played");
        if moves { check(is_a_game(&mem, i, s, limit, k, true), "A01: a turn's label is not the game's result for the player who moved, or zero at the limit"); }
        i += 1;
    }
    for f in mem.iter() { check(f.state.double_value(&[0, 0, 0, 5]) < g as f64, "A02: a fragment of no game"); }
    targets(&mem, &t, !warm);
    cover(mem.len() > g, "more than one turn is recorded");
}
fn start_of(i: usize, k: usize) -> u8 { if i == 0 { 0 } else { decide_n(any_n(NS[i], 0, k as u8 - 2)) } }
const NS: [&str; 4] = ["start0", "start1", "start2", "start3"];
/// one game: A01, A02
pub fn one() {
    tick_reset();
    set_net(nt_net);
    let k = param("k", 3) as usize;
    let t = any_chain(k, param("two", 1) as usize);
    assume(t.win[0] == 2);
    set_start(t);
    let warm = param("warm", 0) == 1;
    let az = learner(param("iterations", 1), 10, if warm { 2.0 } else { 1.0 }, 1, 4);
    let mem = az.self_play::<Nt>();
    let mut s = t;
    s.id = 0;
    s.pos = 0;
    let moves = is_a_game(&mem, 0, s, 100, k, false);
    check(moves, "A02: what is recorded of a game is not each of its turns, once, with the mover and a policy that has the move played");
    if moves { check(is_a_game(&mem, 0, s, 100, k, true), "A01: a turn's label is not the game's result for the player who moved"); }
    targets(&mem, &t, !warm);
    cover(mem.len() > 1, "more than one turn is recorded");
}

/// a network that also notes its inputs
fn noting_net(x: &tch::Tensor) -> (tch::Tensor, tch::Tensor) { log_tensor(0, x); train_net(x) }
fn train_net(x: &tch::Tensor) -> (tch::Tensor, tch::Tensor) {
    let n = x.size()[0];
    (tch::Tensor::zeros([n, 5], (tch::Kind::Float, tch::Device::Cpu)), tch::Tensor::zeros([n, 1], (tch::Kind::Float, tch::Device::Cpu)))
}
const OUTN: [&str; 8] = ["outcome0", "outcome1", "outcome2", "outcome3", "outcome4", "outcome5", "outcome6", "outcome7"];
const POLN: [&str; 8] = ["policy0", "policy1", "policy2", "policy3", "policy4", "policy5", "policy6", "policy7"];
/// one pass of training over `n` recorded turns: A03
pub fn train() {
    log_reset();
    set_net(noting_net);
    let n = param("n", 3) as usize;
    let batch = param("batch", 2) as usize;
    let mut az = learner(1, 4, 1.0, 1, batch as i64);
    let mut mem: Vec<MemoryFragment> = Vec::new();
    let mut outs = [0i8; 8];
    let mut pols = [0.0f32; 8];
    let mut i = 0;
    while i < n {
        let mut s = NT;
        s.id = i;
        outs[i] = any::<i8>(OUTN[i], -1, 1);
        pols[i] = any_f32(POLN[i]);
        assume((pols[i] >= 0.0) & (pols[i] <= 1.0));
        let row = [pols[i], 1.0 - pols[i], 0.0, 0.0, i as f32];
        mem.push(MemoryFragment { outcome: outs[i], ps: tch::Tensor::from_slice(&row), state: s.as_tensor() });
        i += 1;
    }
    az.train(&mut mem);
    let (mut seen, mut batches, mut i) = ([0u8; 8], 0, 0);
    while i < log_len() {
        if log_kind(i) == 0 {
            let x = log_at(i, 0);
            let sz = x.size();
            check(sz.len() == 4, "A03: the network's input is not a batch of positions");
            check((sz[0] >= 1) & (sz[0] <= batch as i64), "A03: a batch is empty or larger than the configured size");
            let mut r = 0;
            while r < sz[0] { seen[x.double_value(&[r, 0, 0, 5]) as usize] += 1; r += 1; }
            batches += 1;
        }
        i += 1;
    }
    let mut i = 0;
    while i < n { check(seen[i] == 1, "A03: a recorded turn is not trained on exactly once in a pass"); i += 1; }
    check(batches == (n + batch - 1) / batch, "A03: the turns are cut into more batches than needed");
    check(mem.len() == n, "A03: training changes how many turns there are");
    cover(seen[0] == 1, "the first turn is trained on");
    if param("targets", 0) == 1 { targets_of(n, batches, &outs, &pols); }
}
/// what the network is trained towards, batch by batch
fn targets_of(n: usize, batches: usize, outs: &[i8; 8], pols: &[f32; 8]) {
    let _ = n;
    // the ids in the present batch, and what was seen since
    let (mut ids, mut rows) = ([0usize; 8], 0usize);
    let (mut pol, mut val, mut back, mut clean, mut steps) = (false, false, false, true, 0);
    let (mut lp, mut lv) = (0.0f64, 0.0f64);
    let mut i = 0;
    while i < log_len() {
        let k = log_kind(i);
        if k == 0 {
            let x = log_at(i, 0);
            rows = x.size()[0] as usize;
            let mut r = 0;
            while r < rows { ids[r] = x.double_value(&[r as i64, 0, 0, 5]) as usize; r += 1; }
            pol = false; val = false; back = false;
        } else if k == 1 {
            let y = log_at(i, 1);
            check(y.size() == vec![rows as i64, 5], "A03: the policy targets do not fit the batch");
            let mut r = 0;
            while r < rows {
                let at = |j: i64| y.double_value(&[r as i64, j]);
                check((at(4) == ids[r] as f64) & (at(0) == pols[ids[r]] as f64), "A03: a turn is trained towards the policy of another one");
                r += 1;
            }
            lp = log_at(i, 2).double_value(&[]);
            pol = true;
        } else if k == 2 {
            let y = log_at(i, 1);
            check(y.size() == vec![rows as i64, 1], "A03: the value targets do not fit the batch");
            let mut r = 0;
            while r < rows {
                check(y.double_value(&[r as i64, 0]) == outs[ids[r]] as f64, "A03: a turn is trained towards the result of another one");
                r += 1;
            }
            lv = log_at(i, 2).double_value(&[]);
            val = true;
        } else if k == 3 {
            check(pol & val & clean, "A03: a gradient is taken before both losses are there or on top of the last batch's");
            let s = log_at(i, 0).double_value(&[]) as f32;
            check(s == lp as f32 + lv as f32, "A03: what is minimised is not the sum of the policy's and the value's loss");
            back = true;
            clean = false;
        } else if k == 4 {
            check(back, "A03: a step is made without the batch's gradient");
            steps += 1;
        } else if k == 5 { clean = true; }
        i += 1;
    }
    check(steps == batches, "A03: not exactly one step is made per batch");
}

/// training data written and read again: A05
pub fn stored() {
    log_reset();
    set_net(noting_net);
    let n = param("n", 2) as usize;
    let az = learner(1, 4, 1.0, 1, 4);
    let mut mem: Vec<MemoryFragment> = Vec::new();
    let mut i = 0;
    while i < n {
        let mut s = NT;
        s.id = i;
        s.val[0] = any_f32(POLN[i]);
        assume((s.val[0] >= -1.0) & (s.val[0] <= 1.0));
        let row = [0.0, s.val[0], 0.0, 0.0, i as f32];
        mem.push(MemoryFragment { outcome: any::<i8>(OUTN[i], -1, 1), ps: tch::Tensor::from_slice(&row), state: s.as_tensor() });
        i += 1;
    }
    let dir = scratch_dir();
    az.save_training_data(&mem, dir.as_path());
    let back = AlphaZero::load_training_data(dir.as_path());
    check(back.len() == n, "A05: not as many turns are read as were written");
    if back.len() == n {
        let mut i = 0;
        while i < n {
            let (a, b) = (&mem[i], &back[i]);
            check(a.outcome == b.outcome, "A05: a turn's label is not what was written");
            check(b.ps.size() == vec![5], "A05: a policy's shape is not what was written");
            check(b.state.numel() == a.state.numel(), "A05: a position's size is not what was written");
            let (x, y) = (a.state.view([-1]), b.state.reshape([-1]));
            let mut j = 0;
            while j < 6 {
                if j < 5 { check(a.ps.double_value(&[j]) == b.ps.double_value(&[j]), "A05: a policy is not what was written"); }
                check(x.double_value(&[j]) == y.double_value(&[j]), "A05: a position is not what was written");
                j += 1;
            }
            i += 1;
        }
        cover(back[0].outcome == 1, "a won turn is read");
        // what is read can be trained on
        let mut back = back;
        let mut az = az;
        az.train(&mut back);
        check(back.len() == n, "A05: training on what was read changes it");
    }
}

/// which weights a learner or player starts with: A04
pub fn loaded() {
    let given = param("given", 0) == 1;
    let best = param("exists", 0) == 1;
    let w = any_f32("stored weight");
    let b = any_f32("best weight");
    assume((w >= -8.0) & (w <= 8.0) & (w != 1.0) & (b >= -8.0) & (b <= 8.0) & (b != 1.0));
    let f = model_file(w, b);
    let az = learner_from(if given { Some(f.clone()) } else { None }, 1, 4, 1.0, 1, 4);
    let got = weight(&az.model.vs);
    if given | best {
        check(got == if given { w } else { b }, "A04: a learner does not start with the stored model's weights");
        cover(got == 2.0, "a stored weight is 2");
    } else {
        check(got == 1.0, "A04: without a stored model a learner does not start from scratch");
    }
    let n = die_e::alphazero::nnet::ResNet::from_path::<Nt>(&f);
    check(weight(&n.vs) == w, "A04: a player does not have its model's weights");
    // the current model is what is saved
    let to = f.with_file_name("saved.ot");
    let r = az.save_current_model(to.as_path());
    check(r.is_ok(), "A04: a model cannot be saved");
    let n = die_e::alphazero::nnet::ResNet::from_path::<Nt>(&to);
    check(weight(&n.vs) == got, "A04: a saved model does not have the weights of the one it was saved from");
}

/// a network that also notes what it is trained on
fn lesson_net(x: &tch::Tensor) -> (tch::Tensor, tch::Tensor) {
    if training() { log_tensor(6, x); }
    nt_net(x)
}
/// what each iteration of learning trains on: A07
pub fn lesson() {
    log_reset();
    tick_reset();
    set_net(lesson_net);
    model_file(5.0, 5.0);
    let k = param("k", 3) as usize;
    let g = param("games", 1) as usize;
    let (li, sp, ep) = (param("li", 1) as usize, param("sp", 1) as usize, param("ep", 1) as usize);
    let par = param("par", 0) == 1;
    let mut t = any_chain(k, param("two", 0) as usize);
    assume(t.win[0] == 2);
    t.starts = [0; 4];
    set_start(t);
    let mut az = learner(1, 10, 1.0, g as i64, 64);
    if par { az.learn_parallel::<Nt>(); } else { az.learn::<Nt>(); }
    let mut seen = [99usize; 12];
    let (mut lessons, mut i, mut steps) = (0usize, 0, 0usize);
    while i < log_len() {
        if log_kind(i) == 4 { steps += 1; }
        if log_kind(i) == 6 {
            let x = log_at(i, 0);
            let it = lessons / ep;
            let mut games = [false; 12];
            let mut r = 0;
            while r < x.size()[0] {
                let id = x.double_value(&[r, 0, 0, 5]) as usize;
                if id < 12 {
                    games[id] = true;
                    check((seen[id] == 99) | (seen[id] == it), "A07: an iteration trains on a game played in an earlier one");
                    seen[id] = it;
                }
                r += 1;
            }
            let mut n = 0;
            let mut j = 0;
            while j < 12 { if games[j] { n += 1; } j += 1; }
            check((n == sp * g) | (par & (it > 0)), "A07: an iteration does not train on every game it played");
            lessons += 1;
        }
        i += 1;
    }
    check(lessons == li * ep, "A07: the turns are not gone through as often as configured");
    if engine() { check(steps == lessons, "A07: not one step per batch"); }
    if par {
        if param("stored", 0) == 1 {
            let mut kept = [0u8; 12];
            let dirs = stored_dirs();
            check(dirs.len() == li * sp, "A08: not every self-play iteration's turns are stored");
            for d in dirs.iter() {
                let back = AlphaZero::load_training_data(d.as_path());
                let mut ids = [false; 12];
                for f in back.iter() {
                    let id = f.state.reshape([-1]).double_value(&[5]) as usize;
                    if id < 12 { ids[id] = true; }
                }
                let mut j = 0;
                while j < 12 { if ids[j] { kept[j] += 1; } j += 1; }
            }
            let mut j = 0;
            while j < li * sp * g { check(kept[j] == 1, "A08: a game's turns are not stored exactly once"); j += 1; }
        }
        check(best_weight() == weight(&az.model.vs), "A07: the first model learned does not become the best one");
    }
    cover(lessons > 0, "something is learned");
}
