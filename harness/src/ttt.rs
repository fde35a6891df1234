//! TicTacToe harnesses: every board over {-1,0,1}^9 and either player to move.
use crate::sym::*;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;

pub const CL: [&str; 9] = ["c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8"];
pub fn any_ttt() -> TicTacToe {
    let mut g = TicTacToe::new();
    let mut i = 0;
    while i < 9 { g.board[i] = any::<i8>(CL[i], -1, 1); i += 1; }
    if any_bool("second_player") { g.skip_turn(); }
    g
}
pub fn has_line(b: &[i8; 9], p: i8) -> bool {
    let l = |x: usize, y: usize, z: usize| (b[x] == p) & (b[y] == p) & (b[z] == p);
    l(0, 1, 2) | l(3, 4, 5) | l(6, 7, 8) | l(0, 3, 6) | l(1, 4, 7) | l(2, 5, 8) | l(0, 4, 8) | l(2, 4, 6)
}
pub fn full(b: &[i8; 9]) -> bool {
    (b[0] != 0) & (b[1] != 0) & (b[2] != 0) & (b[3] != 0) & (b[4] != 0) & (b[5] != 0) & (b[6] != 0) & (b[7] != 0) & (b[8] != 0)
}
pub fn moves() {
    let g = any_ttt();
    let v = g.get_valid_moves();
    let mut n = 0usize;
    let mut k = 0u8;
    while k < 9 {
        let free = g.board[k as usize] == 0;
        check(v.contains(&k) == free, "T01: a cell is offered although it is taken, or a free one is missing");
        if free { n += 1; }
        k += 1;
    }
    check(v.len() == n, "T01: a cell is offered twice, or something that is not a cell");
    cover(v.len() == 9, "empty board");
    cover(v.is_empty(), "full board");
    // playing a free cell
    let m = any::<u8>("m", 0, 8);
    let p = g.get_player();
    check((p == -1) | (p == 1), "T01: a player other than -1 and 1 is to move");
    let mut h = g;
    if g.board[m as usize] == 0 {
        h.apply_move(&m);
        let mut k = 0usize;
        while k < 9 {
            check(h.board[k] == if k == m as usize { p } else { g.board[k] }, "T01: a move does not mark exactly the chosen cell for the player to move");
            k += 1;
        }
        check(h.get_player() == -p, "T01: a move does not pass the turn");
        check(h.get_id() == g.get_id(), "T01: a move changes the id");
    }
    let mut s = g;
    s.skip_turn();
    check((s.board == g.board) & (s.get_player() == -p) & (s.get_id() == g.get_id()), "T01: skipping does something other than passing the turn");
    // codes
    let c = g.encode(&m);
    check(c < TicTacToe::ACTION_SPACE_SIZE as u32, "E03: a code lies outside the action space");
    check(g.decode(c) == m, "E03: decoding a code does not give the move back");
    let m2 = any::<u8>("m2", 0, 8);
    check((m == m2) | (c != g.encode(&m2)), "E03: two moves share a code");
    check(h.decode(c) == m, "E03: the code of a move depends on the position");
}
pub fn winner() {
    let g = any_ttt();
    let (a, b) = (has_line(&g.board, -1), has_line(&g.board, 1));
    let w = g.check_winner();
    assume(!(a & b));
    let want = if a { Some(-1) } else if b { Some(1) } else if full(&g.board) { Some(0) } else { None };
    check(w == want, "T02: the outcome reported is not the one on the board");
    cover(w == Some(-1), "first player wins");
    cover(w == Some(1), "second player wins");
    cover(w == Some(0), "draw");
    cover(w.is_none(), "undecided");
    // a position whose game is not over always has a move
    check(w.is_some() | (g.get_valid_moves().len() > 0), "T02: an undecided game without moves");
    let n = TicTacToe::new();
    check((n.board == [0i8; 9]) & (n.get_player() == -1) & n.check_winner().is_none(), "T02: a new game is not an empty board with player -1 to move");
}
