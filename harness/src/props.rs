//! The properties as executable checks of one generated case.
use crate::alloc;
use crate::case::*;
use crate::refmodel::{self, Pick};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Barrier;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Verdict {
    Ok,
    Fail(String),
    /// a listed defect, by its signature
    Known(String, String),
}

pub struct Eval {
    pub verdict: Verdict,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    /// calls made into the code under test
    pub calls: u64,
    /// fingerprint of what the code under test answered
    pub print: u64,
}

impl Eval {
    fn new() -> Eval {
        Eval { verdict: Verdict::Ok, labels: vec![], nontrivial: false, calls: 1, print: 0 }
    }
    fn fail(mut self, m: String) -> Eval {
        self.verdict = Verdict::Fail(m);
        self
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn show(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(b) if b.len() > 200 => format!("{}.. ({} bytes)", hex(&b[..200]), b.len()),
        Ok(b) => format!("{} ({} bytes)", hex(b), b.len()),
        Err(e) => e.clone(),
    }
}
fn shorten(s: String) -> String {
    if s.len() > 600 {
        format!("{}.. ({} chars)", &s[..600], s.len())
    } else {
        s
    }
}

/// What the same call answers in a process of its own.
pub fn fresh(c: &Concrete) -> Option<Result<Vec<u8>, String>> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut p = Command::new(std::env::var_os("VERIF_EXE").map(Into::into).or_else(|| std::env::current_exe().ok())?)
        .arg("call")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    p.stdin.take()?.write_all(c.line().as_bytes()).ok()?;
    let o = p.wait_with_output().ok()?;
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let s = s.trim();
    if let Some(h) = s.strip_prefix("digest ") {
        return Some(Ok(unhex(h)?));
    }
    if let Some(e) = s.strip_prefix("panic ") {
        return Some(Err(e.to_string()));
    }
    None
}

static CONFIRMED_STABLE: AtomicU32 = AtomicU32::new(0);

/// The answer differs from the model's: is that because of what else the process does?
/// None: the call answers the same way on its own (or that could not be found out).
fn depends_on_company(c: &Concrete, got: &Result<Vec<u8>, String>) -> Option<String> {
    if CONFIRMED_STABLE.load(Ordering::Relaxed) > 200 {
        return None;
    }
    let r = differs_from_fresh(c, got);
    if r.is_none() {
        CONFIRMED_STABLE.fetch_add(1, Ordering::Relaxed);
    }
    r
}

/// None also when that could not be found out.
fn differs_from_fresh(c: &Concrete, got: &Result<Vec<u8>, String>) -> Option<String> {
    let alone = fresh(c);
    let same = match (&alone, got) {
        (Some(Ok(a)), Ok(b)) => a == b,
        (Some(Err(_)), Err(_)) => true,
        (None, _) => true,
        _ => false,
    };
    if same {
        return None;
    }
    Some(format!(
        "call `{}` answered {} but on its own it answers {}",
        shorten(c.line()),
        show(got),
        show(&alone.unwrap())
    ))
}

fn agrees(got: &Result<Vec<u8>, String>, want: &Option<Vec<u8>>) -> bool {
    match (got, want) {
        (Ok(a), Some(b)) => a == b,
        (Err(_), None) => true,
        _ => false,
    }
}

fn label_len(n: usize, l: &mut Vec<&'static str>) {
    l.push(match n {
        0 => "len=0",
        1..=7 => "len<8",
        8..=55 => "len 8..55",
        56..=63 => "len 56..63",
        64..=127 => "len 64..127",
        128..=1023 => "len 128..1023",
        1024..=65535 => "len 1K..64K",
        _ => "len>=64K",
    });
}

fn label_req(c: &Concrete, l: &mut Vec<&'static str>) {
    if let Concrete::Lyra { k, pwd, salt, t, r, c } = c {
        let total = pwd.len() + salt.len();
        label_len(total, l);
        if r.is_power_of_two() {
            l.push("rows 2^n")
        } else {
            l.push("rows not 2^n")
        }
        l.push(match *r {
            0..=8 => "rows<=8",
            9..=64 => "rows 9..64",
            65..=4095 => "rows 65..4095",
            _ => "rows>=4096",
        });
        l.push(match *c {
            0..=8 => "cols<=8",
            9..=64 => "cols 9..64",
            65..=4095 => "cols 65..4095",
            _ => "cols>=4096",
        });
        l.push(match *t {
            0 => "T=0",
            1 => "T=1",
            2..=8 => "T 2..8",
            9..=255 => "T 9..255",
            _ => "T>=256",
        });
        l.push(match *k {
            0 => "k=0",
            1..=95 => "k<96",
            96 => "k=96",
            97..=1023 => "k 97..1023",
            _ => "k>=1024",
        });
        if pwd.len() % 8 != 0 || salt.len() % 8 != 0 {
            l.push("odd lengths");
        }
        if (total as u64 + 48) / 64 * 64 + 64 > r.saturating_mul(*c).saturating_mul(96) {
            l.push("input larger than matrix");
        }
        if pwd == salt {
            l.push("pwd=salt");
        }
    }
}

/// Trailing bytes that do not fill an 8-byte word are ignored (known finding).
fn differ_only_in_tails(a: &Concrete, b: &Concrete) -> bool {
    fn eq(x: &[u8], y: &[u8]) -> bool {
        x.len() == y.len() && x[..x.len() / 8 * 8] == y[..y.len() / 8 * 8]
    }
    match (a, b) {
        (Concrete::Hash { algo: Algo::Sum, input: x }, Concrete::Hash { algo: Algo::Sum, input: y }) => eq(x, y),
        (
            Concrete::Lyra { k, pwd, salt, t, r, c },
            Concrete::Lyra { k: k2, pwd: p2, salt: s2, t: t2, r: r2, c: c2 },
        ) => (k, t, r, c) == (k2, t2, r2, c2) && eq(pwd, p2) && eq(salt, s2),
        _ => false,
    }
}

fn diff_bits(a: &[u8], b: &[u8]) -> u32 {
    a.iter().zip(b).map(|(x, y)| (x ^ y).count_ones()).sum()
}

/// Heap budget of one call: (peak, retained).
fn heap_budget(c: &Concrete) -> (i64, i64) {
    let (matrix, inout) = match c {
        Concrete::Hash { algo, input } => {
            let m: u64 = match algo {
                Algo::Re | Algo::Z => 64,
                _ => 16,
            };
            (m * 96, input.len() as u64 + 64)
        }
        Concrete::Lyra { k, pwd, salt, r, c, .. } => {
            let io = pwd.len() as u64 + salt.len() as u64;
            (r.saturating_mul(*c).saturating_mul(96), io.saturating_add(*k))
        }
    };
    let matrix = if c.valid() { matrix } else { 0 };
    let inout = match c {
        Concrete::Lyra { pwd, salt, .. } if !c.valid() => (pwd.len() + salt.len()) as u64,
        _ => inout,
    };
    ((5 * matrix + 10 * inout + 16384) as i64, 1024)
}

/// The `i`-th of a family of different calls of the same shape.
fn variant(base: &Concrete, i: u64) -> Concrete {
    let mut c = base.clone();
    if i > 0 {
        let v = match &mut c {
            Concrete::Hash { input, .. } => input,
            Concrete::Lyra { pwd, .. } => pwd,
        };
        let x = i.wrapping_mul(0x9E3779B97F4A7C15).to_le_bytes();
        for (a, b) in v.iter_mut().zip(x) {
            *a ^= b;
        }
    }
    c
}

/// Processor time so far: of the process where only one thread is at work, else of the thread.
fn cpu_ns() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let clock = if alloc::WHOLE.load(Ordering::Relaxed) { libc::CLOCK_PROCESS_CPUTIME_ID } else { libc::CLOCK_THREAD_CPUTIME_ID };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as f64 * 1e9 + ts.tv_nsec as f64
}

/// Processor time of one call, in nanoseconds.
fn timed(c: &Concrete) -> f64 {
    let c = c.clone();
    let t = cpu_ns();
    let r = c.run_caught();
    drop(std::hint::black_box(r));
    cpu_ns() - t
}

/// What small requests cost in this build on this machine: per cell and pass, per byte of password
/// or salt, per byte of key, and for nothing at all; then per byte and per call of each hash.
struct Rates {
    cell: f64,
    input: f64,
    key: f64,
    call: f64,
    hash: [(f64, f64); 5],
}
static RATES: std::sync::OnceLock<Rates> = std::sync::OnceLock::new();
fn rates() -> &'static Rates {
    RATES.get_or_init(|| {
        let best = |c: &Concrete| (0..15).map(|_| timed(c)).fold(f64::MAX, f64::min).max(100.0);
        let ly = |k: u64, n: usize, t: u64, r: u64, c: u64| Concrete::Lyra { k, pwd: vec![7; n], salt: vec![9; n], t, r, c };
        let h = |algo: Algo, n: usize| Concrete::Hash { algo, input: vec![7; n] };
        let mut hash = [(0.0, 0.0); 5];
        for (i, a) in ALGOS.iter().enumerate() {
            hash[i] = (best(&h(*a, 16384)) / 16384.0, best(&h(*a, 32)));
        }
        Rates {
            cell: best(&ly(32, 32, 4, 16, 16)) / (5.0 * 256.0),
            input: best(&ly(32, 8192, 1, 3, 1)) / 16384.0,
            key: best(&ly(8192, 32, 1, 3, 1)) / 8192.0,
            call: best(&ly(32, 32, 1, 3, 1)),
            hash,
        }
    })
}

/// (the most a call may take, what it should take), in nanoseconds
fn time_budget(c: &Concrete) -> (f64, f64) {
    let x = rates();
    let work = match c {
        Concrete::Hash { algo, input } => {
            let (b, call) = x.hash[ALGOS.iter().position(|a| a == algo).unwrap()];
            b * input.len() as f64 + call
        }
        Concrete::Lyra { k, pwd, salt, t, r, c: cc } => {
            let io = x.input * (pwd.len() + salt.len()) as f64;
            if c.valid() {
                x.cell * (*t as f64 + 1.0) * *r as f64 * *cc as f64 + io + x.key * *k as f64 + x.call
            } else {
                io + x.call
            }
        }
    };
    (15.0 * work + 4e6, work)
}

pub fn eval(prop: &str, case: &Case) -> Eval {
    let mut e = Eval::new();
    match (prop, case) {
        ("C01" | "C02" | "C04" | "C05" | "C06" | "C07", Case::Call(call)) => {
            let c = call.concrete();
            match &c {
                Concrete::Hash { input, .. } => {
                    label_len(input.len(), &mut e.labels);
                    if input.len() == 80 {
                        e.labels.push("block header size");
                    }
                    e.nontrivial = match prop {
                        "C02" => input.len() >= 8 && input.len() % 8 != 0,
                        _ => !input.is_empty(),
                    };
                }
                Concrete::Lyra { pwd, salt, k, .. } => {
                    label_req(&c, &mut e.labels);
                    e.nontrivial = match prop {
                        "C01" => *k > 0 && pwd.len() + salt.len() >= 8,
                        _ => *k > 0 && pwd.len().max(salt.len()) >= 8 && (pwd.len() % 8 != 0 || salt.len() % 8 != 0),
                    };
                }
            }
            let want = c.expect();
            let got = c.dup().run_caught();
            if !agrees(&got, &want) {
                let m = format!("`{}`: expected {}, got {}", shorten(c.line()), show(&Ok(want.unwrap_or_default())), show(&got));
                return e.fail(m);
            }
        }
        ("C03", Case::Call(call)) => {
            let c = call.concrete();
            if let Concrete::Hash { input, .. } = &c {
                label_len(input.len(), &mut e.labels);
                e.nontrivial = input.len() >= 8;
                e.calls = 2;
                let long = Concrete::Lyra { k: 32, pwd: input.clone(), salt: input.clone(), t: 1, r: 4, c: 4 };
                let a = c.dup().run_caught();
                let b = long.run_caught();
                let same = match (&a, &b) {
                    (Ok(x), Ok(y)) => x == y,
                    // the default hash accepts every input; that lyra2 fails as well is no excuse
                    _ => false,
                };
                if !same {
                    let m = format!("`{}`: sum gives {}, lyra2(32, x, x, 1, 4, 4) gives {}", shorten(c.line()), show(&a), show(&b));
                    return e.fail(m);
                }
            }
        }
        ("C08" | "C09", Case::Stage(st, b)) => {
            let data = b.bytes();
            e.nontrivial = !data.is_empty();
            label_len(data.len(), &mut e.labels);
            if !b.patches.is_empty() {
                e.labels.push("structured content");
            }
            let want = match st {
                Stage::Cube => refmodel::cubehash256(&data).to_vec(),
                Stage::Bmw => refmodel::bmw256(&data).to_vec(),
            };
            match stage_run(*st, data.clone()) {
                Some(got) => {
                    if got.as_ref() != Ok(&want) {
                        return e.fail(format!("{st:?} of {}: expected {}, got {}", hex(&data), hex(&want), show(&got)));
                    }
                }
                None => return through_chains(e, &[Algo::Rev2, Algo::Rev3], data),
            }
        }
        ("C19", Case::Mod(q)) => {
            let c = q.concrete();
            label_req(&c, &mut e.labels);
            if let Concrete::Lyra { k, pwd, salt, t, r, c: cc } = &c {
                let valid = *t >= 1 && *r >= 3;
                e.nontrivial = valid && *k > 0 && pwd.len() + salt.len() >= 8;
                match mod_run(c.clone()) {
                    Some(got) => {
                        let want = if valid { Some(refmodel::lyra2(*k, pwd, salt, *t, *r, *cc, Pick::Walk)) } else { None };
                        if !agrees(&got, &want) {
                            let m = format!(
                                "lyra2mod `{}`: expected {}, got {}",
                                shorten(c.line()),
                                want.map_or("a panic".into(), |w| show(&Ok(w))),
                                show(&got)
                            );
                            return e.fail(m);
                        }
                    }
                    None => return through_chains(e, &[Algo::Rev3], pwd.clone()),
                }
            }
        }
        ("C10", Case::Pair(call, muts)) => {
            let a = call.concrete();
            let mut b = a.clone();
            for m in muts {
                b = b.mutate(m);
            }
            if a == b {
                e.labels.push("equal requests");
                e.calls = 0;
                return e;
            }
            e.calls = 2;
            e.labels.push(match &muts[muts.len() - 1] {
                Mutation::FlipBit { .. } => "flip bit",
                Mutation::SetByte { .. } => "set byte",
                Mutation::Append { .. } | Mutation::Prepend { .. } => "longer",
                Mutation::Truncate { .. } => "shorter",
                Mutation::Shift { .. } => "move pwd/salt boundary",
                Mutation::SwapPwdSalt => "swap pwd/salt",
                Mutation::Swap { .. } | Mutation::Twin { .. } | Mutation::Middle { .. } | Mutation::Rotate { .. } | Mutation::Words { .. } | Mutation::Poly { .. } | Mutation::Reverse { .. } | Mutation::Double { .. } => "rearrange",
                _ => "change parameter",
            });
            let (x, y) = match (a.dup().run_caught(), b.dup().run_caught()) {
                (Ok(x), Ok(y)) => (x, y),
                _ => {
                    e.labels.push("a call panicked");
                    return e;
                }
            };
            let n = x.len().min(y.len());
            if n < 32 {
                e.labels.push("too short to compare");
                return e;
            }
            e.nontrivial = true;
            if x == y && differ_only_in_tails(&a, &b) {
                let m = format!("`{}` and `{}` give the same digest", shorten(a.line()), shorten(b.line()));
                e.labels.push("known: only ignored tail bytes differ");
                e.nontrivial = false;
                e.verdict = Verdict::Known("tail-bytes-ignored".into(), m);
                return e;
            }
            let total = diff_bits(&x[..n], &y[..n]);
            let mut bad = (total as u64) < n as u64 * 8 / 4;
            for i in 0..n / 32 {
                if diff_bits(&x[32 * i..32 * i + 32], &y[32 * i..32 * i + 32]) < 32 {
                    bad = true;
                }
            }
            if bad {
                let m = format!(
                    "`{}` and `{}`: only {total} of {} common digest bits differ ({} and {})",
                    shorten(a.line()),
                    shorten(b.line()),
                    n * 8,
                    show(&Ok(x)),
                    show(&Ok(y))
                );
                return e.fail(m);
            }
        }
        ("C11", Case::Call(call)) => {
            let c = call.concrete();
            let want = match &c {
                Concrete::Hash { input, .. } => {
                    label_len(input.len(), &mut e.labels);
                    e.nontrivial = true;
                    32
                }
                Concrete::Lyra { k, .. } => {
                    label_req(&c, &mut e.labels);
                    e.nontrivial = *k != 32;
                    *k
                }
            };
            let got = c.dup().run_caught();
            if got.as_ref().map(|g| g.len() as u64) != Ok(want) {
                let m = format!("`{}`: expected {want} bytes, got {}", shorten(c.line()), show(&got));
                return e.fail(m);
            }
        }
        ("C12", Case::Call(call)) => {
            let c = call.concrete();
            label_req(&c, &mut e.labels);
            if let Concrete::Lyra { t, r, c: cc, k, .. } = &c {
                let bad = (*t < 1) as u8 + (*r < 3) as u8 + (*cc < 1) as u8;
                e.nontrivial = bad == 1;
                e.labels.push(match (bad, *t < 1, *r < 3) {
                    (1, true, _) => "only T too small",
                    (1, _, true) => "only rows too few",
                    (1, _, _) => "only columns too few",
                    _ => "several too small",
                });
                if *t > 1 << 40 || *r > 1 << 40 || *cc > 1 << 40 || *k > 1 << 40 {
                    e.labels.push("another parameter absurd");
                }
            }
            let got = c.dup().run_caught();
            if got.is_ok() {
                let m = format!("`{}`: expected a panic, got {}", shorten(c.line()), show(&got));
                return e.fail(m);
            }
            // the same from a destructor, while another panic unwinds
            let again = c.clone();
            e.calls = 2;
            if let Some(Ok(b)) = while_unwinding(|| again.run_caught()) {
                let m = format!("`{}`, called while its thread unwinds: expected a panic, got {}", shorten(c.line()), show(&Ok(b)));
                return e.fail(m);
            }
        }
        ("C13", Case::History(ops)) => {
            let calls = resolve(ops);
            e.calls = calls.len() as u64;
            let against_fresh = {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                ops.hash(&mut h);
                h.finish() % 499 == 0
            };
            if against_fresh {
                e.labels.push("every call compared with a fresh process");
            }
            for op in ops {
                e.labels.push(match op {
                    Op::Fresh(Call::Hash(..)) => "op: hash",
                    Op::Fresh(Call::Lyra(..)) => "op: lyra2",
                    Op::Repeat(_) => "op: repeat",
                    Op::Near(..) => "op: nearly the same",
                    Op::Colliding(..) => "op: equal under a weak hash",
                    Op::Refused(_) => "op: refused",
                });
                e.nontrivial |= matches!(op, Op::Repeat(_) | Op::Near(..) | Op::Colliding(..) | Op::Refused(_));
            }
            for (i, c) in calls.iter().enumerate() {
                // now and then the call is made by a destructor, while its thread unwinds
                let got = if (i as u64 * 7 + calls.len() as u64 + c.cost() % 23) % 23 == 0 {
                    e.labels.push("op: while unwinding");
                    let c = c.clone();
                    match while_unwinding(|| c.run_caught()) {
                        Some(g) => g,
                        None => continue,
                    }
                } else {
                    c.clone().run_caught()
                };
                // for some histories every answer is compared with a process of its own
                if against_fresh {
                    if let Some(m) = differs_from_fresh(c, &got) {
                        return e.fail(format!("step {} of {}: {m}", i + 1, calls.len()));
                    }
                }
                if !agrees(&got, &c.expect()) {
                    if let Some(m) = depends_on_company(c, &got) {
                        return e.fail(format!("step {} of {}: {m}", i + 1, calls.len()));
                    }
                    e.labels.push("differs from the model, but not by history");
                }
            }
        }
        ("C14", Case::Conc { ops, threads, reps }) => {
            let calls = resolve(ops);
            let want: Vec<_> = calls.iter().map(|c| c.expect()).collect();
            let n = *threads as usize;
            e.calls = calls.len() as u64 * n as u64 * *reps as u64;
            e.nontrivial = n >= 2 && calls.iter().collect::<std::collections::HashSet<_>>().len() >= 2;
            e.labels.push(match n {
                0..=2 => "2 threads",
                3..=4 => "3..4 threads",
                5..=8 => "5..8 threads",
                _ => "more threads than cores",
            });
            let barrier = Barrier::new(n);
            let bad: Vec<(usize, Result<Vec<u8>, String>)> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n)
                    .map(|t| {
                        let (calls, want, barrier) = (&calls, &want, &barrier);
                        s.spawn(move || {
                            barrier.wait();
                            for rep in 0..*reps as usize {
                                for j in 0..calls.len() {
                                    // even threads together, odd ones shifted
                                    let at = (j + (t % 2) * (t + rep)) % calls.len();
                                    let got = calls[at].clone().run_caught();
                                    if !agrees(&got, &want[at]) {
                                        return Some((at, got));
                                    }
                                }
                            }
                            None
                        })
                    })
                    .collect();
                hs.into_iter().filter_map(|h| h.join().unwrap_or(None)).collect()
            });
            for (at, got) in bad {
                if let Some(m) = depends_on_company(&calls[at], &got) {
                    return e.fail(format!("with {n} threads: {m}"));
                }
                e.labels.push("differs from the model, but not by concurrency");
            }
        }
        ("C15", Case::Call(call)) => {
            let c = call.concrete();
            match &c {
                Concrete::Hash { input, .. } => label_len(input.len(), &mut e.labels),
                _ => label_req(&c, &mut e.labels),
            }
            e.nontrivial = true;
            let got = c.dup().run_caught();
            match &got {
                Ok(b) => e.print = fnv(b),
                Err(m) => {
                    let m = format!("`{}` {m}", shorten(c.line()));
                    return e.fail(m);
                }
            }
        }
        ("C17", Case::Call(call)) => {
            let c = call.concrete();
            match &c {
                Concrete::Hash { input, .. } => label_len(input.len(), &mut e.labels),
                _ => label_req(&c, &mut e.labels),
            }
            e.nontrivial = true;
            match c.run_caught() {
                Ok(b) => e.print = fnv(&b),
                Err(_) => e.labels.push("panicked"),
            }
        }
        ("C18", Case::Mem { call, n }) => {
            let base = call.concrete();
            match &base {
                Concrete::Hash { input, .. } => label_len(input.len(), &mut e.labels),
                _ => label_req(&base, &mut e.labels),
            }
            let n = if base.valid() { (*n as u64).min((1 << 21) / base.cost().max(1)).max(1) } else { *n as u64 };
            e.calls = n;
            let big = match &base {
                Concrete::Lyra { r, c, .. } => r.saturating_mul(*c) > 170,
                _ => false,
            };
            e.nontrivial = n > 1 || big;
            e.labels.push(if n >= 100 { "family of 100 and more" } else if n > 1 { "family of 2..99" } else { "one call" });
            if !base.valid() {
                e.labels.push("refused");
            }
            let (peak_max, keep_max) = heap_budget(&base);
            let mut kept = 0i64;
            for i in 0..n {
                let before = alloc::live();
                let ((), peak) = alloc::peak_of(|| {
                    let c = variant(&base, i);
                    drop(c.run_caught());
                });
                let d = alloc::live() - before;
                kept += d;
                if peak > peak_max {
                    return e.fail(format!("`{}`: heap peak of {peak} bytes, more than {peak_max}", shorten(variant(&base, i).line())));
                }
                if kept > keep_max {
                    return e.fail(format!(
                        "`{}` (call {} of a family of {n}): {kept} bytes stay allocated after the call",
                        shorten(variant(&base, i).line()),
                        i + 1
                    ));
                }
            }
        }
        ("C21", Case::Call(call)) => {
            let c = call.concrete();
            match &c {
                Concrete::Hash { input, .. } => label_len(input.len(), &mut e.labels),
                _ => label_req(&c, &mut e.labels),
            }
            if !c.valid() {
                e.labels.push("refused");
            }
            let (limit, work) = time_budget(&c);
            e.nontrivial = work > 2e5 || !c.valid();
            e.labels.push(match work {
                w if w < 2e4 => "honest cost < 20 us",
                w if w < 1e6 => "honest cost < 1 ms",
                w if w < 1e7 => "honest cost < 10 ms",
                _ => "honest cost >= 10 ms",
            });
            let mut best = f64::MAX;
            // what disturbs a measurement only makes it longer
            for i in 0..12 {
                e.calls = i + 1;
                best = best.min(timed(&c));
                if best <= limit {
                    return e;
                }
                if i > 0 && best > 1e9 && best > 4.0 * limit {
                    break;
                }
            }
            let m = format!(
                "`{}` takes {:.1} ms, more than 15 times the {:.3} ms that its size accounts for at the rates of small requests",
                shorten(c.line()),
                best / 1e6,
                work / 1e6
            );
            return e.fail(m);
        }
        _ => return e.fail(format!("internal: {prop} cannot evaluate {case:?}")),
    }
    e
}

/// Without the hook, the stage is judged through the public chains it is part of.
fn through_chains(mut e: Eval, algos: &[Algo], input: Vec<u8>) -> Eval {
    e.labels.push("through the chains");
    e.calls = algos.len() as u64;
    for a in algos {
        let c = Concrete::Hash { algo: *a, input: input.clone() };
        let got = c.dup().run_caught();
        let want = c.expect();
        if !agrees(&got, &want) {
            let m = format!("`{}`: expected {}, got {}", shorten(c.line()), hex(&want.unwrap_or_default()), show(&got));
            return e.fail(m);
        }
    }
    e
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "output not empty and at least one whole word of password or salt",
        "C02" => "output not empty, some password or salt word, and a length that is not a multiple of 8",
        "C03" => "input of at least one whole word",
        "C04" | "C05" | "C06" | "C07" => "input not empty",
        "C08" | "C09" => "message not empty",
        "C10" => "the two requests differ (beyond the known finding) and both answer at least 32 bytes",
        "C11" => "requested length is not 32, or a one-argument hash",
        "C12" => "exactly one parameter below its minimum",
        "C13" => "the history repeats, nearly repeats or refuses a call",
        "C14" => "two or more threads and two or more different calls",
        "C18" => "more than one call, or a matrix above 16 KiB",
        "C21" => "work of more than 0.2 ms at the rates of small requests, or a refused request",
        "C19" => "a valid request with a non-empty output and at least one whole input word",
        _ => "every call counts",
    }
}
