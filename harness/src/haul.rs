//! Very long histories of small calls in one process: state that shows only after millions of
//! calls (C13), and memory that is kept in portions too small to see otherwise (C18).
use crate::alloc;
use crate::case::{caught, hex};
use crate::refmodel::{self, Pick};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, Ordering};

fn next(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

const KINDS: [&str; 7] = ["lyra", "sum", "re", "rev2", "rev3", "z", "mixed"];
/// calls of each kind that take about as long as one another
const WEIGHT: [u64; 7] = [16, 12, 3, 5, 6, 1, 4];

#[derive(Clone)]
struct One {
    f: &'static str,
    k: u64,
    x: Vec<u8>,
    y: Vec<u8>,
    t: u64,
    r: u64,
    c: u64,
}

impl One {
    fn call(&self) -> Vec<u8> {
        match self.f {
            "sum" => lyra2::lyra2::sum(self.x.clone()),
            "re" => lyra2::lyra2re::sum(self.x.clone()),
            "rev2" => lyra2::lyra2rev2::sum(self.x.clone()),
            "rev3" => lyra2::lyra2rev3::sum(self.x.clone()),
            "z" => lyra2::lyra2z::sum(self.x.clone()),
            _ => lyra2::lyra2::lyra2(self.k, self.x.clone(), self.y.clone(), self.t, self.r, self.c),
        }
        .to_vec()
    }
    fn model(&self) -> Vec<u8> {
        match self.f {
            "sum" => refmodel::lyra2_sum(&self.x),
            "re" => refmodel::lyra2re(&self.x),
            "rev2" => refmodel::lyra2rev2(&self.x),
            "rev3" => refmodel::lyra2rev3(&self.x),
            "z" => refmodel::lyra2z(&self.x),
            _ => refmodel::lyra2(self.k, &self.x, &self.y, self.t, self.r, self.c, Pick::First),
        }
    }
    fn valid(&self) -> bool {
        self.f != "lyra" || (self.t > 0 && self.r > 2 && self.c > 0)
    }
    fn line(&self) -> String {
        let h = |b: &[u8]| if b.is_empty() { "-".to_string() } else { hex(b) };
        if self.f == "lyra" {
            format!("lyra2({}, {}, {}, {}, {}, {})", self.k, h(&self.x), h(&self.y), self.t, self.r, self.c)
        } else {
            format!("{}({})", self.f, h(&self.x))
        }
    }
}

fn draw(kind: usize, s: &mut u64) -> One {
    let a = next(s);
    let f = if KINDS[kind] == "mixed" { KINDS[(a % 6) as usize] } else { KINDS[kind] };
    let bytes = |n: u64, s: &mut u64| (0..n).map(|_| next(s) as u8).collect::<Vec<u8>>();
    if f == "lyra" {
        let refused = KINDS[kind] == "mixed" && next(s) % 4 == 0;
        let (n, m) = (next(s) % 17, next(s) % 9);
        let (x, y) = (bytes(n, s), bytes(m, s));
        return One { f, k: 1 + a % 32, x, y, t: if refused { 0 } else { 1 }, r: 3 + (next(s) % 3), c: 1 };
    }
    let n = if next(s) % 3 == 0 { 80 } else { next(s) % 41 };
    One { f, k: 32, x: bytes(n, s), y: vec![], t: 0, r: 0, c: 0 }
}

fn same(kind: usize, seed: u64, n: u64, stop: &AtomicBool) -> Result<u64, Value> {
    let mut s = seed.wrapping_mul(1000).wrapping_add(kind as u64);
    let pool: Vec<(One, Option<Vec<u8>>)> = (0..509).map(|_| draw(kind, &mut s)).map(|o| (o.clone(), o.valid().then(|| o.model()))).collect();
    for i in 0..n {
        if i % 1024 == 0 && stop.load(Ordering::Relaxed) {
            return Ok(i);
        }
        let (o, want) = &pool[(next(&mut s) % 509) as usize];
        let got = caught(|| o.call()).ok();
        if got != *want {
            stop.store(true, Ordering::Relaxed);
            let t = |b: &Option<Vec<u8>>| b.as_ref().map_or("a panic".to_string(), |b| hex(b));
            return Err(json!({"kind": kind, "call": i, "line": o.line(), "why": format!("call {i} of its thread, {}, gives {} instead of {}", o.line(), t(&got), t(want))}));
        }
    }
    Ok(n)
}

const SLACK: i64 = 256;

fn kept(kind: usize, seed: u64, n: u64, stop: &AtomicBool) -> Result<u64, Value> {
    let mut s = seed.wrapping_mul(1000).wrapping_add(kind as u64);
    let mut base = None;
    for i in 0..n {
        if i % 4096 == 0 && i > 0 {
            if stop.load(Ordering::Relaxed) {
                return Ok(i);
            }
            let now = alloc::live();
            let b = *base.get_or_insert(now);
            if now - b > SLACK {
                stop.store(true, Ordering::Relaxed);
                return Err(json!({"kind": kind, "call": i, "why": format!("after {i} calls of {} with different arguments {} more bytes of heap are held than after the first 4096", KINDS[kind], now - b)}));
            }
        }
        let o = draw(kind, &mut s);
        let _ = caught(|| o.call());
    }
    Ok(n)
}

/// What the process has, however it came by it.
#[derive(Clone, Copy, Debug)]
struct Holdings {
    heap: i64,
    space: i64,
    files: i64,
    threads: i64,
}

fn holdings() -> Holdings {
    let count = |d: &str| std::fs::read_dir(d).map_or(0, |x| x.count() as i64);
    let (files, threads) = (count("/proc/self/fd"), count("/proc/self/task"));
    let m = unsafe { libc::mallinfo2() };
    let pages: i64 = std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').next().and_then(|x| x.parse().ok()))
        .unwrap_or(0);
    Holdings { heap: (m.uordblks + m.hblkhd) as i64, space: pages * 4096, files, threads }
}

pub const HELD: usize = KINDS.len();

/// Memory taken from the system or the C library behind the allocator's back, open files,
/// threads: what the process holds after each of several equally long rounds.
fn held(seed: u64, n: u64) -> Result<u64, Value> {
    const ROUNDS: u64 = 8;
    let mut s = seed.wrapping_mul(1000).wrapping_add(HELD as u64);
    let mut seen: Vec<Holdings> = Vec::with_capacity(64);
    for _ in 0..ROUNDS {
        for i in 0..n {
            let mut o = draw(KINDS.len() - 1, &mut s);
            if i % 16 == 0 {
                // larger ones: what is mapped rather than taken from the heap
                o.k = next(&mut s) % 600;
                o.r = 3 + next(&mut s) % 60;
                o.c = 1 + next(&mut s) % 30;
                o.x.resize((next(&mut s) % if i % 64 == 0 { 40_000 } else { 5000 }) as usize, 7);
            }
            if i % 256 == 1 {
                o.r = 80;
                o.c = 80;
            }
            let _ = caught(|| o.call());
        }
        seen.push(holdings());
    }
    // the first rounds settle what is set up once
    let tail = &seen[2..];
    let grows = |f: fn(&Holdings) -> i64, least: i64| {
        let v: Vec<i64> = tail.iter().map(f).collect();
        let up = v.windows(2).filter(|w| w[1] > w[0]).count();
        (up + 1 >= v.len() - 1 && v[v.len() - 1] - v[0] > least).then(|| format!("{v:?}"))
    };
    for (what, r) in [
        ("bytes in use in the C library's heap", grows(|h| h.heap, 2048)),
        ("bytes of address space", grows(|h| h.space, 2 << 20)),
        ("open files", grows(|h| h.files, 2)),
        ("threads", grows(|h| h.threads, 2)),
    ] {
        if let Some(v) = r {
            return Err(json!({"kind": HELD, "call": n * ROUNDS, "why": format!("{what} after each round of {n} calls with different arguments: {v}")}));
        }
    }
    Ok(n * ROUNDS)
}

pub fn main(prop: &str, seed: u64, unit: u64, only: Option<usize>) -> i32 {
    if only == Some(HELD) {
        let r = held(seed, unit);
        let fail = r.as_ref().err().cloned().unwrap_or(Value::Null);
        println!("{}", json!({"calls": {"held": r.unwrap_or(0)}, "fail": fail}));
        return 0;
    }
    let stop = AtomicBool::new(false);
    let r: Vec<(usize, Result<u64, Value>)> = std::thread::scope(|sc| {
        let stop = &stop;
        let hs: Vec<_> = (0..KINDS.len())
            .filter(|k| only.is_none_or(|o| o == *k))
            .map(|k| (k, sc.spawn(move || if prop == "C18" { kept(k, seed, unit * WEIGHT[k], stop) } else { same(k, seed, unit * WEIGHT[k], stop) })))
            .collect();
        hs.into_iter().map(|(k, h)| (k, h.join().unwrap_or(Ok(0)))).collect()
    });
    let mut calls = serde_json::Map::new();
    let mut fail = Value::Null;
    for (k, x) in r {
        match x {
            Ok(n) => {
                calls.insert(KINDS[k].into(), json!(n));
            }
            Err(e) => fail = e,
        }
    }
    println!("{}", json!({"calls": calls, "fail": fail}));
    0
}
