use std::time::Duration;
use vharness::*;
mod props;

fn main() {
    // vharness ID quick|thorough SEED OUT.json [--trace] [--only CASE]
    let a: Vec<String> = std::env::args().collect();
    let id = a[1].clone();
    let thorough = a[2] == "thorough";
    let seed: u64 = a[3].parse().unwrap();
    let out = a[4].clone();
    let trace = a.iter().any(|s| s == "--trace");
    let only = a.iter().position(|s| s == "--only").map(|i| a[i + 1].clone());
    watchdog(id.clone(), out.clone(), Duration::from_secs(if thorough { 60 } else { 30 }));
    // deep recursion of the code under test must not be confused with a small main-thread stack
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut rep = Rep::new(&id, thorough, seed, &out, trace, only);
            props::run(&id, &mut rep);
            rep.finish();
            println!("{}", rep.json());
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
