//! The first calls of a process, made from several threads within nanoseconds of each other: what
//! is set up on first use must be complete before another thread uses it (C14).
use crate::case::{Concrete, caught};
use crate::gen;
use crate::run::{num, opt};
use serde_json::json;
use std::sync::atomic::{AtomicUsize, Ordering};

fn next(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// one thread's calls and how long it dallies before them, in turns of an empty loop
type Plan = Vec<(Vec<usize>, u64)>;

fn plan(seed: u64, i: u64, pool: usize) -> Plan {
    let mut s = seed.wrapping_mul(0x1000_0001).wrapping_add(i);
    let n = [2, 2, 2, 3, 4, 8][(next(&mut s) % 6) as usize];
    let same = next(&mut s) % 2 == 0;
    let one = (next(&mut s) % pool as u64) as usize;
    let spread = [0u64, 16, 64, 256, 1024, 4096, 32768][(next(&mut s) % 7) as usize];
    (0..n)
        .map(|_| {
            let k = 1 + next(&mut s) % 3;
            let calls = (0..k).map(|j| if same && j == 0 { one } else { (next(&mut s) % pool as u64) as usize }).collect();
            (calls, if spread == 0 { 0 } else { next(&mut s) % spread })
        })
        .collect()
}

/// Runs the plan; true when every call answers as expected. What differs is printed.
fn child(plan: &Plan, pool: &[(Concrete, Option<Vec<u8>>)]) -> bool {
    let n = plan.len();
    let here = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        let here = &here;
        let hs: Vec<_> = plan
            .iter()
            .map(|(calls, dally)| {
                let mine: Vec<(usize, Concrete)> = calls.iter().map(|c| (*c, pool[*c].0.clone())).collect();
                sc.spawn(move || {
                    here.fetch_add(1, Ordering::SeqCst);
                    let mut turns = 0;
                    while here.load(Ordering::SeqCst) < n {
                        std::hint::spin_loop();
                        turns += 1;
                        if turns > 20_000 {
                            std::thread::yield_now();
                        }
                    }
                    for i in 0..*dally {
                        std::hint::black_box(i);
                    }
                    let mut fine = true;
                    for (at, c) in mine {
                        let got = caught(|| c.run()).ok();
                        if got != pool[at].1 {
                            let g = got.map_or("panic".to_string(), |g| format!("digest {}", if g.is_empty() { "-".into() } else { crate::case::hex(&g) }));
                            println!("{}", json!({"call": at, "got": g}));
                            fine = false;
                        }
                    }
                    fine
                })
            })
            .collect();
        hs.into_iter().all(|h| h.join().unwrap_or(false))
    })
}

pub fn main(a: &[String]) -> i32 {
    let (seed, from, count, times) = (num(a, "--seed", 1), num(a, "--from", 0), num(a, "--count", 1), num(a, "--times", 1));
    let secs = num(a, "--secs", 3600);
    let begin = std::time::Instant::now();
    // the library is not called in this process itself
    let s = gen::strategy("FIRST");
    let mut pool: Vec<(Concrete, Option<Vec<u8>>)> = vec![];
    for i in 0..24 {
        if let crate::case::Case::Call(c) = gen::case(&s, seed, "FIRST", i) {
            let c = c.concrete();
            // what the library answers in a process of its own
            match crate::props::fresh(&c) {
                Some(r) => pool.push((c, r.ok())),
                None => return 4,
            }
        }
    }
    if opt(a, "--pool").is_some() {
        for (c, _) in &pool {
            println!("{}", c.line());
        }
        return 0;
    }
    let mut done = 0;
    'all: for i in from..from + count {
        let p = plan(seed, i, pool.len());
        for _ in 0..times {
            if begin.elapsed().as_secs() >= secs {
                break 'all;
            }
            let pid = unsafe { libc::fork() };
            if pid < 0 {
                return 3;
            }
            if pid == 0 {
                unsafe { libc::alarm(20) };
                let ok = child(&p, &pool);
                unsafe { libc::_exit(if ok { 0 } else { 1 }) };
            }
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            done += 1;
            if st != 0 {
                println!("{}", json!({"case": i, "status": st, "threads": p.iter().map(|x| json!(x.0)).collect::<Vec<_>>(), "done": done}));
                return 0;
            }
        }
    }
    println!("{}", json!({"done": done}));
    0
}
