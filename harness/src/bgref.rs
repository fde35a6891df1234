//! Reference model of the backgammon rules, written from the rules of the game and the documented
//! encoding of `Board` (point 0..23, negative checkers move down and belong to player -1).
//! Everything is seen from the side of the player to move: own checkers are positive and move
//! towards point 0; 24 is the bar; bearing off is `OFF`.
use die_e::backgammon::backgammon_logic::Board;

pub const BAR: i8 = 24;
pub const OFF: i8 = -1;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Pos { pub pt: [i8; 24], pub bar: u8, pub obar: u8, pub off: u8, pub ooff: u8 }

pub fn pos_of(b: &Board, player: i8) -> Pos {
    let mut pt = [0i8; 24];
    let mut i = 0;
    while i < 24 { pt[i] = if player == -1 { -b.0[i] } else { b.0[23 - i] }; i += 1; }
    if player == -1 { Pos { pt, bar: b.1 .0, obar: b.1 .1, off: b.2 .0, ooff: b.2 .1 } } else { Pos { pt, bar: b.1 .1, obar: b.1 .0, off: b.2 .1, ooff: b.2 .0 } }
}
pub fn board_of(q: &Pos, player: i8) -> Board {
    let mut pts = [0i8; 24];
    let mut i = 0;
    while i < 24 { if player == -1 { pts[i] = -q.pt[i] } else { pts[i] = q.pt[23 - i] } i += 1; }
    if player == -1 { (pts, (q.bar, q.obar), (q.off, q.ooff)) } else { (pts, (q.obar, q.bar), (q.ooff, q.off)) }
}
/// all own checkers are in the home board (points 0..5) or off
pub fn all_home(q: &Pos) -> bool {
    let mut ok = q.bar == 0;
    let mut i = 6;
    while i < 24 { ok &= q.pt[i] <= 0; i += 1; }
    ok
}
/// where a checker on `src` lands with `die`
pub fn dest(src: i8, die: i8) -> i8 { if src - die >= 0 { src - die } else { OFF } }
/// may the player move a checker from `src` with `die`?
pub fn legal(q: &Pos, src: i8, die: i8) -> bool {
    if src == BAR { return (q.bar > 0) & (q.pt[(24 - die) as usize] >= -1) }
    let own = (q.bar == 0) & (q.pt[src as usize] > 0);
    if src - die >= 0 { return own & (q.pt[(src - die) as usize] >= -1) }
    // bearing off: exact, or no own checker further from home than src
    let mut higher = false;
    let mut i = src + 1;
    while i < 6 { higher |= q.pt[i as usize] > 0; i += 1; }
    own & all_home(q) & ((src + 1 == die) | !higher)
}
/// position after moving a checker from src to dst (a legal move)
pub fn after(q: &Pos, src: i8, dst: i8) -> Pos {
    let mut r = *q;
    if src == BAR { r.bar = r.bar.wrapping_sub(1) } else { r.pt[src as usize] -= 1 }
    if dst == OFF { r.off += 1 } else {
        let hit = r.pt[dst as usize] == -1;
        if hit { r.obar += 1; r.pt[dst as usize] = 1 } else { r.pt[dst as usize] += 1 }
    }
    r
}
pub fn can_step(q: &Pos, die: i8) -> bool {
    let mut any = false;
    let mut s = 0i8;
    while s <= 24 { any |= legal(q, s, die); s += 1; }
    any
}
/// can both dice be played, first `a` then `b`?
pub fn can_both(q: &Pos, a: i8, b: i8) -> bool {
    let mut any = false;
    let mut s = 0i8;
    while s <= 24 {
        let l = legal(q, s, a);
        if l { any |= can_step(&after(q, s, dest(s, a)), b) }
        s += 1;
    }
    any
}
/// (from, to) of the code -> (src, dst) seen from the player
pub fn seen(m: (i8, i8), player: i8) -> (i8, i8) {
    let src = if m.0 == -1 { BAR } else if player == -1 { m.0 } else { 23 - m.0 };
    let dst = if m.1 == -1 { OFF } else if player == -1 { m.1 } else { 23 - m.1 };
    (src, dst)
}
pub fn coded(src: i8, dst: i8, player: i8) -> (i8, i8) {
    (if src == BAR { -1 } else if player == -1 { src } else { 23 - src }, if dst == OFF { -1 } else if player == -1 { dst } else { 23 - dst })
}
pub fn in_range(s: i8, d: i8) -> bool { (s >= 0) & (s <= 24) & (d >= -1) & (d <= 23) }
pub fn step_ok(q: &Pos, m: (i8, i8), die: i8) -> bool { m.0 >= 0 && m.0 <= 24 && m.1 == dest(m.0, die) && legal(q, m.0, die) }
/// is the sequence of 1 or 2 steps playable with dice a then b, each die at most once, in either order?
pub fn play_ok(q: &Pos, play: &[(i8, i8)], a: i8, b: i8) -> bool {
    if play.len() == 1 { return step_ok(q, play[0], a) | step_ok(q, play[0], b) }
    if play.len() != 2 { return false }
    let (x, y) = (play[0], play[1]);
    if !in_range(x.0, x.1) || !in_range(y.0, y.1) { return false }
    let q1 = after(q, x.0, x.1);
    (step_ok(q, x, a) && step_ok(&q1, y, b)) || (step_ok(q, x, b) && step_ok(&q1, y, a))
}
pub fn result(q: &Pos, play: &[(i8, i8)]) -> Pos {
    let mut r = *q;
    for m in play { r = after(&r, m.0, m.1) }
    r
}
