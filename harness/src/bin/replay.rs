//! `replay list` prints the harnesses; `replay HARNESS FILE` runs one on recorded inputs
//! (one line of space separated bytes per value). Exit 0: behaves as required, 3: a call that
//! must panic returned, 4: the inputs do not meet the assumptions, 101 or a signal: panic/crash.
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    use std::sync::atomic::Ordering;

    let args: Vec<String> = std::env::args().collect();
    let table = mdh::props::table();
    if args[1] == "list" {
        for e in &table {
            println!("{}\t{}\t{}\t{}", e.name, e.kind, e.tier, e.unwind);
        }
        return;
    }
    let text = std::fs::read_to_string(&args[2]).unwrap();
    mdh::sym::VALS.with(|q| {
        for line in text.lines().filter(|l| !l.starts_with('#')) {
            q.borrow_mut().push_back(line.split_whitespace().map(|x| x.parse().unwrap()).collect());
        }
    });
    let e = table.iter().find(|e| e.name == args[1]).expect("unknown harness");
    if e.kind == "panics" {
        let r = std::panic::catch_unwind(e.run);
        assert!(r.is_err());
        if !mdh::sym::BEFORE.load(Ordering::Relaxed) {
            println!("REPLAY: panicked in the preparation");
            std::process::exit(5);
        }
        println!("REPLAY: panicked as required");
    } else {
        (e.run)();
        println!("REPLAY: all assertions held");
    }
}
