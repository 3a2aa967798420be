//! Native replay: runs harnesses on concrete tapes against the real crate.
//!
//! `replay NAME TIER TAPEHEX`  one tape, verbose
//! `replay NAME TIER -`        tapes from stdin, one line each
use harness::{hooks, lookup};
use std::io::BufRead;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = lookup(&a[1]).expect("unknown harness");
    let tier: u32 = a[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            if a[3] != "-" {
                let (s, d, r) = hooks::run(f, unhex(&a[3]), tier, true);
                println!("{d:016x} {r} {s}");
                return;
            }
            for l in std::io::stdin().lock().lines() {
                let (s, d, r) = hooks::run(f, unhex(l.unwrap().trim()), tier, false);
                println!("{d:016x} {r} {s}");
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
