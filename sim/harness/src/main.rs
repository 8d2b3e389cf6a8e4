//! Deterministic simulation of eth_trie_utils.
//!
//!     harness check C01            run a property's check (VERIF_SEED, VERIF_TIER)
//!     harness replay FILE          repeat a recorded violation
//!     harness show C01 SEED        print the plan of one run and what it does
//!     harness selftest             determinism across threads, processes and repetitions

// Linked in although only eth_trie_utils uses it.
extern crate simstd as _;

mod exec;
mod faults;
mod forms;
mod model;
mod pipeline;
mod plan;
mod runner;
mod shrink;

use std::process::exit;

/// Stands in for libc's: hash maps of the code under test get the same keys every time.
///
/// # Safety
/// As for the original: `buf` points to `len` writable bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(37) ^ 0x5a;
    }
    len as isize
}

fn part(from: &str, to: &str, cap: &str, coarse: &str) -> runner::Part {
    runner::Part { from: from.parse().unwrap(), to: to.parse().unwrap(), cap: cap.parse().unwrap(), coarse: coarse == "1" }
}

fn main() {
    faults::install();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|x| &**x).collect();
    match &s[..] {
        ["check", p] => exit(runner::check(p)),
        ["work", p, from, to, cap, coarse, dir, k, n] => {
            let part = part(from, to, cap, coarse);
            simrt::set_coarse(part.coarse);
            exit(runner::work(p, part, dir, k.parse().unwrap(), n.parse().unwrap()))
        }
        ["part", p, from, to, cap, coarse, dir] => exit(runner::part(p, part(from, to, cap, coarse), dir)),
        ["one-threads", file] => {
            simrt::set_threads(true);
            exit(runner::one(file))
        }
        ["one", file] => exit(runner::one(file)),
        ["replay", file] => exit(runner::replay(file)),
        ["show", p, seed] => runner::show(p, seed.parse().unwrap()),
        ["selftest"] => exit(runner::selftest()),
        ["digest-threads", n] => {
            simrt::set_threads(true);
            runner::digest(n.parse().unwrap())
        }
        ["digest", n] => runner::digest(n.parse().unwrap()),
        _ => {
            eprintln!("usage: harness check PROPERTY | replay FILE | show PROPERTY SEED | selftest");
            exit(2)
        }
    }
}
