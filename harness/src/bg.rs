//! Backgammon harnesses.
use crate::sym::*;
use die_e::backgammon::backgammon_logic::{Actions, Backgammon, Board};
use crate::bgref::*;
use die_e::base::LearnableGame;

pub const LBL: [&str; 24] = ["p0","p1","p2","p3","p4","p5","p6","p7","p8","p9","p10","p11","p12","p13","p14","p15","p16","p17","p18","p19","p20","p21","p22","p23"];

/// any position in which each side has exactly 15 checkers
pub fn any_board() -> Board {
    let mut pts = [0i8; 24];
    let mut i = 0;
    while i < 24 { pts[i] = any::<i8>(LBL[i], -15, 15); i += 1; }
    let bar = (any::<u8>("bar_m", 0, 15), any::<u8>("bar_p", 0, 15));
    let off = (any::<u8>("off_m", 0, 15), any::<u8>("off_p", 0, 15));
    let mut tm: i32 = bar.0 as i32 + off.0 as i32;
    let mut tp: i32 = bar.1 as i32 + off.1 as i32;
    let mut i = 0;
    while i < 24 { let v = pts[i] as i32; tm += if v < 0 { -v } else { 0 }; tp += if v > 0 { v } else { 0 }; i += 1; }
    assume_lazy(tm == 15);
    assume_lazy(tp == 15);
    (pts, bar, off)
}

fn game() -> (Backgammon, i8, i8, i8) {
    let b = any_board();
    let (d1, d2, p) = (param("d1", 6) as i8, param("d2", 5) as i8, param("p", -1) as i8);
    let mut g = Backgammon::init_with_fields(b, p, any_bool("second"));
    g.roll = (d1 as u8, d2 as u8);
    (g, d1, d2, p)
}
pub fn legality() {
    let (g, a, b, p) = game();
    let q = pos_of(&g.board, p);
    let v = g.get_valid_moves();
    let both = can_both(&q, a, b) | can_both(&q, b, a);
    for play in v.iter() {
        let s: Vec<(i8, i8)> = play.iter().map(|m| seen(*m, p)).collect();
        check(play_ok(&q, &s, a, b), "B01: an offered play breaks the rules");
        check(!both | (s.len() == 2), "B03: a play using one die is offered although both dice can be used");
    }
    cover(v.len() > 0, "some play is offered");
    cover(v.len() == 0, "no play is offered");
}
/// every legal play's resulting position is reached by exactly one offered play (B02, B04)
pub fn complete() {
    let (g, a, b, p) = game();
    let q = pos_of(&g.board, p);
    let v = g.get_valid_moves();
    let mut res: Vec<Pos> = Vec::new();
    let mut set = std::collections::HashSet::new();
    for play in v.iter() {
        let s: Vec<(i8, i8)> = play.iter().map(|m| seen(*m, p)).collect();
        let r = result(&q, &s);
        check(set.insert(r), "B04: two offered plays lead to the same position");
        res.push(r);
    }
    if engine() && param("dup", 0) == 1 { return }
    let both = can_both(&q, a, b) | can_both(&q, b, a);
    let mut any_step = false;
    let mut k = 0;
    while k < 2 {
        let (x, y) = if k == 0 { (a, b) } else { (b, a) };
        k += 1;
        if k == 2 && a == b { break }
        let mut s = 0i8;
        while s <= 24 {
            if legal(&q, s, x) {
                let q1 = after(&q, s, dest(s, x));
                any_step = true;
                if both {
                    let mut t = 0i8;
                    while t <= 24 {
                        if legal(&q1, t, y) { let r = after(&q1, t, dest(t, y)); check(res.contains(&r), "B02: a legal play of both dice is not offered") }
                        t += 1;
                    }
                } else { check(res.contains(&q1), "B02: a legal play of one die is not offered") }
            }
            s += 1;
        }
    }
    check(any_step | (v.len() == 0), "B02: a play is offered although nothing can be moved");
    cover(both, "both dice can be played");
    cover(any_step & !both, "only one die can be played");
    cover(!any_step, "nothing can be played");
}
/// codes of the offered plays (E01, E02)
pub fn encoding() {
    let (g, _, _, _) = game();
    let v = g.get_valid_moves();
    let mut set = std::collections::HashSet::new();
    let mut i = 0;
    for play in v.iter() {
        let c = LearnableGame::encode(&g, play);
        let d = Backgammon::encode(&g, play);
        check(c < Backgammon::ACTION_SPACE_SIZE as u32, "E02: a code outside the action space");
        check(c != 1351, "E02: a play has the code of the empty play");
        check(c == d, "E02: the two encoders disagree");
        check(set.insert(c), "E02: two offered plays share a code");
        check(LearnableGame::decode(&g, c) == *play, "E01: decoding a play's code gives another play");
        check(Backgammon::decode(&g, d) == *play, "E01: decoding a play's code gives another play (inherent methods)");
        i += 1;
    }
    cover(i > 0, "some play is encoded");
    let e: Actions = vec![];
    check(LearnableGame::encode(&g, &e) == 1351 && Backgammon::encode(&g, &e) == 1351, "E02: the empty play's code");
    check(LearnableGame::decode(&g, 1351).is_empty() && Backgammon::decode(&g, 1351).is_empty(), "E01: the empty play does not decode to itself");
}
/// change in the number of checkers of (player -1, player 1), modulo 256 (both are far smaller)
fn change(a: &Board, b: &Board) -> (u8, u8) {
    let mut tm = b.1 .0.wrapping_sub(a.1 .0).wrapping_add(b.2 .0.wrapping_sub(a.2 .0));
    let mut tp = b.1 .1.wrapping_sub(a.1 .1).wrapping_add(b.2 .1.wrapping_sub(a.2 .1));
    let neg = |v: i8| if v < 0 { 0u8.wrapping_sub(v as u8) } else { 0 };
    let pos = |v: i8| if v > 0 { v as u8 } else { 0 };
    let mut i = 0;
    while i < 24 { if a.0[i] != b.0[i] { tm = tm.wrapping_add(neg(b.0[i])).wrapping_sub(neg(a.0[i])); tp = tp.wrapping_add(pos(b.0[i])).wrapping_sub(pos(a.0[i])); } i += 1; }
    (tm, tp)
}
/// one legal step from any position keeps both players' checkers (B05)
pub fn conserve() {
    let b = any_board();
    let (d, p) = (param("d1", 6) as i8, param("p", -1) as i8);
    let q = pos_of(&b, p);
    let mut s = 0i8;
    let mut any = false;
    while s <= 24 {
        if legal(&q, s, d) {
            let n = Backgammon::get_next_state(b, &vec![coded(s, dest(s, d), p)], p);
            let c = change(&b, &n);
            check(c.0 == 0, "B05: the number of checkers of player -1 changes");
            check(c.1 == 0, "B05: the number of checkers of player 1 changes");
            check((n.1 .0 <= 15) & (n.1 .1 <= 15) & (n.2 .0 <= 15) & (n.2 .1 <= 15), "B05: more than 15 checkers on a bar or borne off");
            any = true;
        }
        s += 1;
    }
    cover(any, "a step is possible");
}
/// every offered play, applied (B05, B06, B07)
pub fn apply() {
    let (g, _, _, p) = game();
    let q = pos_of(&g.board, p);
    let v = g.get_valid_moves();
    for play in v.iter() {
        let s: Vec<(i8, i8)> = play.iter().map(|m| seen(*m, p)).collect();
        let mut h = g;
        h.apply_move(play);
        check(pos_of(&h.board, p) == result(&q, &s), "B06: applying a play does not give the position the rules give");
        let r = Backgammon::get_next_state(g.board, play, p);
        check(r == h.board, "B06: get_next_state and apply_move differ");
        let mut step = g.board;
        for m in play.iter() { step = Backgammon::get_next_state(step, &vec![*m], p); }
        check(step == h.board, "B05: a play is not the sequence of its steps");
        turn(&g, &h);
    }
    let mut h = g;
    h.apply_move(&Backgammon::EMPTY_MOVE);
    check(h.board == g.board, "B06: the empty play changes the position");
    turn(&g, &h);
    let mut h = g;
    h.skip_turn();
    check(h.board == g.board, "B06: skipping changes the position");
    check((h.player == -g.player) & !h.is_second_play & (h.id == g.id), "B07: skipping does not pass the turn");
    check(die(h.roll.0) & die(h.roll.1), "B07: skipping does not roll two dice");
    cover(v.len() > 0, "some play is applied");
}
fn die(x: u8) -> bool { (x >= 1) & (x <= 6) }
fn turn(g: &Backgammon, h: &Backgammon) {
    if g.roll.0 == g.roll.1 && !g.is_second_play {
        check((h.player == g.player) & h.is_second_play, "B07: the first half of a double does not keep the turn");
        check(h.roll == g.roll, "B07: the first half of a double changes the roll");
    } else {
        check((h.player == -g.player) & !h.is_second_play, "B07: the turn does not pass to the opponent");
        check(die(h.roll.0) & die(h.roll.1), "B07: the next roll is not two dice");
    }
    check(h.id == g.id, "B07: the game's id changes");
}
/// winner of any position (B08)
pub fn winner() {
    let b = any_board();
    let p = param("p", -1) as i8;
    let mut g = Backgammon::init_with_fields(b, p, any_bool("second"));
    g.roll = (any::<u8>("d1", 1, 6), any::<u8>("d2", 1, 6));
    let w = g.check_winner();
    match w {
        Some(x) => {
            check((x == -1) | (x == 1), "B08: the winner is not a player");
            check(if x == -1 { b.2 .0 == 15 } else { b.2 .1 == 15 }, "B08: a player who has not borne off 15 checkers wins");
        }
        None => check((b.2 .0 < 15) & (b.2 .1 < 15), "B08: 15 checkers borne off are not a win"),
    }
    check(Backgammon::check_win(b, -1) == (b.2 .0 == 15), "B08: check_win of player -1");
    check(Backgammon::check_win(b, 1) == (b.2 .1 == 15), "B08: check_win of player 1");
    check(Backgammon::check_win_without_player(b) == w, "B08: check_win_without_player disagrees with check_winner");
    check(g.get_player() == p, "B08: get_player");
    cover(w == Some(-1), "player -1 has won");
    cover(w == Some(1), "player 1 has won");
    cover(w.is_none(), "nobody has won");
}
/// the start of a game and the dice (B09)
pub fn start() {
    let mut g = Backgammon::new();
    let q = pos_of(&g.board, -1);
    let mut want = [0i8; 24];
    // standard set-up, seen from the player moving towards 0: 5 on 6, 3 on 8, 5 on 13, 2 on 24; the opponent mirrors it
    want[5] = 5; want[7] = 3; want[12] = 5; want[23] = 2;
    want[18] = -5; want[16] = -3; want[11] = -5; want[0] = -2;
    check((q.pt == want) & (q.bar == 0) & (q.obar == 0) & (q.off == 0) & (q.ooff == 0), "B09: a new game does not start from the standard set-up");
    check(Backgammon::get_initial_state() == g.board, "B09: get_initial_state differs from a new game");
    check(pos_of(&g.board, 1) == q, "B09: the set-up is not symmetric");
    check(!g.is_second_play & ((g.player == 1) | (g.player == -1)), "B09: a new game's turn");
    check(g.check_winner().is_none(), "B09: a new game is won");
    let b = g.board;
    let r = g.roll_die();
    check(r == g.roll, "B09: roll_die's result is not the game's roll");
    check(die(r.0) & die(r.1), "B09: a die outside 1..6");
    check((g.board == b) & !g.is_second_play, "B09: rolling changes the position");
    macro_rules! pairs { ($($a:literal: $($b:literal)*;)*) => { $($( reach(r == ($a, $b), concat!("B09: the roll ", stringify!($a), "-", stringify!($b), " can never come up")); )*)* } }
    pairs! { 1: 1 2 3 4 5 6; 2: 1 2 3 4 5 6; 3: 1 2 3 4 5 6; 4: 1 2 3 4 5 6; 5: 1 2 3 4 5 6; 6: 1 2 3 4 5 6; }
}
