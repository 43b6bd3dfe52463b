//! The operations of C30 on several threads over shared operands, for Miri,
//! ThreadSanitizer and AddressSanitizer: race <leg> <seed> <rounds>
#[path = "../../monitor/src/ops.rs"]
mod ops;
#[path = "../../monitor/src/rng.rs"]
#[allow(dead_code)]
mod rng;

fn mismatch(round: u64, what: &str) -> ! {
    println!("MISMATCH round {}: {}", round, what);
    std::process::exit(1);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let leg = a[1].as_str();
    let seed: u64 = a[2].parse().unwrap();
    let rounds: u64 = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let (mut calls, mut ops_seen) = (0usize, 0usize);
    if leg == "miri" {
        // an interpreter: a part of the operations per round
        let s = ops::Shared::new(seed, true);
        let o = ops::ops(&s, true);
        let before = s.digest();
        for r in 0..rounds {
            match ops::run_some(&s, &o, rng::mix(seed ^ rng::mix(r)), 12, 2 + (r % 2) as usize) {
                Ok(c) => {
                    ops_seen += 12;
                    calls += c;
                }
                Err(e) => mismatch(r, &e),
            }
        }
        if s.digest() != before {
            mismatch(rounds, "the shared operands have changed");
        }
        println!("OBSERVED {} rounds, {} operations, {} calls", rounds, ops_seen, calls);
        return;
    }
    for r in 0..rounds {
        let s = rng::mix(seed ^ rng::mix(r));
        let threads = 2 + (r % 3) as usize;
        let conc = ops::run(s, true, r % 4, threads, None);
        let seq = ops::run(s, true, 0, 1, None);
        match (conc, seq) {
            (Ok(c), Ok(q)) => {
                for (x, y) in c.iter().zip(q.iter()) {
                    if x != y {
                        mismatch(r, &format!("{:?} on {} threads, {:?} in order", x, threads, y));
                    }
                }
                ops_seen = c.len();
                calls += c.len() * (threads * if r % 4 >= 2 { 2 } else { 1 } + 1);
            }
            (Err(e), _) | (_, Err(e)) => mismatch(r, &e),
        }
    }
    println!("OBSERVED {} rounds, {} operations, {} calls", rounds, ops_seen, calls);
}
