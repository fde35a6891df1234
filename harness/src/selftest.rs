use crate::sym::*;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
pub fn t1() {
    let x = any::<i32>("x", 0, 10);
    check(x < 10, "T00: x<10");
    cover(x == 3, "c");
    let v: Vec<i32> = (0..x).map(|i| i * 2).filter(|i| i % 4 == 0).collect();
    check(v.len() <= 5, "T00: len");
    check(v.iter().all(|x| x % 2 == 0), "T00: even");
}
pub fn t2() {
    let mut g = Backgammon::new();
    g.roll = (3, 1); g.player = -1;
    let v = g.get_valid_moves();
    dump("moves", &v);
    check(v.len() > 3, "T00: len");
}
