//! Runs a harness natively, against the real code and the real libtorch, on the values the solver found.
//! replay FILE: lines "fn NAME", "param K V", "val LABEL BITS"; prints "FAILED <label>" per failed check,
//! "PANIC <file>:<line> <message>" when the code panics, "ASSUME" when the values are outside the harness's inputs.
#[path = "../../harness/src/sym.rs"] pub mod sym;
#[path = "../../harness/src/bg.rs"] pub mod bg;
#[path = "../../harness/src/bgref.rs"] pub mod bgref;
#[path = "../../harness/src/ttt.rs"] pub mod ttt;
#[path = "../../harness/src/toy.rs"] pub mod toy;
#[path = "../../harness/src/mcts.rs"] pub mod mcts;
#[path = "../../harness/src/tens.rs"] pub mod tens;
#[path = "../../harness/src/alpha.rs"] pub mod alpha;
#[path = "../../harness/src/learn.rs"] pub mod learn;
#[path = "../../harness/src/versus.rs"] pub mod versus;
#[path = "../../harness/src/registry.rs"] pub mod registry;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[1]).expect("replay file");
    let mut name = String::new();
    for l in txt.lines() {
        let mut f: Vec<&str> = l.split('\t').collect();
        match f.remove(0) {
            "fn" => name = f[0].to_string(),
            "param" => sym::SCRIPT.with(|s| { s.borrow_mut().params.insert(f[0].into(), f[1].parse().unwrap()); }),
            "val" => sym::SCRIPT.with(|s| { s.borrow_mut().vals.entry(f[0].into()).or_default().push(f[1].parse().unwrap()); }),
            _ => {}
        }
    }
    let h = registry::get(&name).expect("harness");
    let expect: Vec<&str> = txt.lines().find(|l| l.starts_with("expect\t")).map(|l| l.split('\t').collect()).unwrap_or_default();
    // random draws cannot be dictated to the real generator: such a run is repeated until the failure shows
    let random = txt.lines().any(|l| l.starts_with("val\trng_"));
    let t0 = std::time::Instant::now();
    static PANICS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANICS.lock().unwrap().push(format!("PANIC {} {}", loc, i.to_string().replace('\n', " ")));
    }));
    loop {
        PANICS.lock().unwrap().clear();
        sym::SCRIPT.with(|s| { let mut s = s.borrow_mut(); s.pos.clear(); s.failed.clear(); s.assume_failed = false; s.cfg.clear(); });
        let r = std::panic::catch_unwind(h);
        let (assume, failed) = sym::SCRIPT.with(|s| { let s = s.borrow(); (s.assume_failed, s.failed.clone()) });
        let panics = PANICS.lock().unwrap().clone();
        let hit = if expect.len() > 2 && expect[1] == "Check" { failed.iter().any(|f| f == expect[2]) } else { !panics.is_empty() && !assume };
        if hit || !random || t0.elapsed().as_secs() >= 40 {
            for p in panics { println!("{}", p) }
            if assume { println!("ASSUME") }
            for f in failed { println!("FAILED {}", f) }
            println!("DONE {}", r.is_ok());
            return;
        }
    }
}
