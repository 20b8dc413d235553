//! Subcommands: self-test, worker, eval, call, lines, show, shrink.
use crate::case::*;
use crate::gen;
use crate::props::{self, Verdict};
use crate::refmodel;
use proptest::strategy::ValueTree;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn opt<'a>(a: &'a [String], name: &str) -> Option<&'a str> {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}
pub fn num(a: &[String], name: &str, default: u64) -> u64 {
    opt(a, name).and_then(|s| s.parse().ok()).unwrap_or(default)
}

pub fn main(a: &[String]) -> i32 {
    match a.first().map(|s| s.as_str()) {
        Some("self-test") => match refmodel::self_test() {
            Ok(n) => {
                println!("{}", json!({"vectors": n, "hooks": hooks()}));
                0
            }
            Err(e) => {
                println!("self-test failed: {e}");
                2
            }
        },
        Some("worker") => worker(a),
        Some("eval") => eval_one(a),
        Some("call") => {
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            match Concrete::parse(&s) {
                Some(c) => {
                    match c.run_caught() {
                        Ok(b) => println!("digest {}", if b.is_empty() { "-".into() } else { hex(&b) }),
                        Err(e) => println!("panic {}", e.replace('\n', " ")),
                    }
                    0
                }
                None => 2,
            }
        }
        Some("lines") => {
            // the concrete calls of a range of cases, with the reference answer
            let prop = opt(a, "--prop").unwrap();
            let s = gen::strategy(prop);
            let (seed, from, n) = (num(a, "--seed", 1), num(a, "--from", 0), num(a, "--count", 1));
            for i in from..from + n {
                if let Case::Call(c) = gen::case(&s, seed, prop, i) {
                    println!("{}", c.concrete().line());
                }
            }
            0
        }
        Some("show") => {
            let prop = opt(a, "--prop").unwrap();
            let s = gen::strategy(prop);
            let c = gen::case(&s, num(a, "--seed", 1), prop, num(a, "--index", 0));
            if opt(a, "--calls").is_some() {
                for l in lines(&c) {
                    println!("{l}");
                }
            } else {
                println!("{}", serde_json::to_string(&c).unwrap());
            }
            0
        }
        Some("shrink") => shrink(a),
        Some("forked") => forked(a),
        Some("first") => crate::first::main(a),
        Some("haul") => crate::haul::main(opt(a, "--prop").unwrap_or("C13"), num(a, "--seed", 1), num(a, "--unit", 1000), opt(a, "--only").and_then(|x| x.parse().ok())),
        Some("giant") => crate::giant::main(opt(a, "--prop").unwrap_or(""), num(a, "--seed", 1), num(a, "--index", 0), a.iter().any(|x| x == "--list")),
        Some("around") => crate::around::main(
            opt(a, "--in").unwrap(),
            opt(a, "--out").unwrap(),
            opt(a, "--ctx").unwrap_or("main"),
            num(a, "--stack", 2 << 20) as usize,
            opt(a, "--name").unwrap_or(""),
            num(a, "--nothreads", 0) == 1,
            num(a, "--nofilter", 0) == 1,
            num(a, "--spare", 0) as usize,
        ),
        _ => {
            eprintln!("usage: verif self-test|worker|eval|call|lines|show|shrink ...");
            2
        }
    }
}

// ---------------------------------------------------------------- one case

fn eval_one(a: &[String]) -> i32 {
    let prop = opt(a, "--prop").unwrap();
    let rounds = num(a, "--rounds", 1);
    crate::alloc::WHOLE.store(true, Ordering::SeqCst);
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let case: Case = match serde_json::from_str(&s) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("bad case: {e}");
            return 2;
        }
    };
    warm_up();
    let mut out = json!({"verdict": "ok"});
    for _ in 0..rounds {
        let e = props::eval(prop, &case);
        out = match e.verdict {
            Verdict::Ok => json!({"verdict": "ok", "print": e.print}),
            Verdict::Known(id, m) => json!({"verdict": "known", "finding": id, "msg": m}),
            Verdict::Fail(m) => json!({"verdict": "fail", "msg": m}),
        };
        if out["verdict"] == "fail" {
            break;
        }
    }
    println!("{out}");
    0
}

/// std allocates a little the first time a thread panics
fn warm_up() {
    for _ in 0..2 {
        let _ = caught(|| -> () { panic!("warm-up") });
    }
}

#[derive(Debug, Clone)]
enum Child {
    Ok(u64),
    Known,
    Fail(String),
    Crash(String),
    Hang,
    #[allow(dead_code)]
    Error(String),
}

/// Evaluates a case in a process of its own; `cpu` seconds of processor time at most.
fn eval_child(exe: &str, prop: &str, case: &Case, rounds: u64, cpu: u64) -> Child {
    let mut cmd = Command::new(exe);
    cmd.args(["eval", "--prop", prop, "--rounds", &rounds.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    use std::os::unix::process::CommandExt;
    unsafe {
        cmd.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let mut p = match cmd.spawn() {
        Ok(p) => p,
        Err(e) => return Child::Error(e.to_string()),
    };
    let _ = p.stdin.take().unwrap().write_all(serde_json::to_string(case).unwrap().as_bytes());
    // a deadlock uses no processor time: a bound on the clock too, far above any honest cost
    let pid = p.id() as i32;
    let finished = std::sync::Arc::new(AtomicBool::new(false));
    let expired = std::sync::Arc::new(AtomicBool::new(false));
    {
        let (f, x) = (finished.clone(), expired.clone());
        std::thread::spawn(move || {
            let t0 = Instant::now();
            while !f.load(Ordering::SeqCst) {
                if t0.elapsed() > Duration::from_secs(200) {
                    x.store(true, Ordering::SeqCst);
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                    return;
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        });
    }
    let o = p.wait_with_output();
    finished.store(true, Ordering::SeqCst);
    if expired.load(Ordering::SeqCst) {
        return Child::Hang;
    }
    let o = match o {
        Ok(o) => o,
        Err(e) => return Child::Error(e.to_string()),
    };
    if let Some(sig) = o.status.signal() {
        if sig == libc::SIGXCPU {
            return Child::Hang;
        }
        if sig == libc::SIGKILL {
            return Child::Error("killed".into());
        }
        return Child::Crash(format!("killed by signal {sig}: {}", tail(&o.stderr)));
    }
    match o.status.code() {
        Some(0) => {}
        Some(2) => return Child::Error(tail(&o.stderr)),
        // a sanitizer stopped it
        c => return Child::Crash(format!("exit code {c:?}: {}", tail(&o.stderr))),
    }
    let v: Value = match serde_json::from_slice(&o.stdout) {
        Ok(v) => v,
        Err(e) => return Child::Error(e.to_string()),
    };
    match v["verdict"].as_str() {
        Some("ok") => Child::Ok(v["print"].as_u64().unwrap_or(0)),
        Some("known") => Child::Known,
        _ => Child::Fail(v["msg"].as_str().unwrap_or("").to_string()),
    }
}

fn tail(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let keep: Vec<&str> = s
        .lines()
        .filter(|l| l.contains("ERROR") || l.contains("SUMMARY") || l.contains("unsafe precondition") || l.contains("pointer dereference") || l.contains("overflow") || l.contains("panick"))
        .collect();
    let t = if keep.is_empty() { s.trim().to_string() } else { keep.join(" | ") };
    t.chars().take(500).collect()
}

/// Why the case fails, if it does. With `other`, the two builds' answers are compared as well.
fn why(exe: &str, other: Option<&str>, prop: &str, case: &Case, rounds: u64, cpu: u64) -> Option<String> {
    let a = eval_child(exe, prop, case, rounds, cpu);
    match &a {
        Child::Fail(m) => return Some(m.clone()),
        Child::Crash(m) => return Some(format!("process died ({m})")),
        Child::Hang => return Some(format!("no answer within {cpu} s of processor time")),
        Child::Error(_) => return None,
        _ => {}
    }
    if let Some(o) = other {
        let b = eval_child(o, prop, case, rounds, cpu);
        match (&a, &b) {
            (_, Child::Fail(m)) => return Some(m.clone()),
            (_, Child::Crash(m)) => return Some(format!("process died ({m})")),
            (_, Child::Hang) => return Some(format!("no answer within {cpu} s of processor time")),
            (Child::Ok(x), Child::Ok(y)) if x != y => {
                return Some(format!("the two builds answer differently (digest fingerprints {x:016x} and {y:016x})"))
            }
            _ => {}
        }
    }
    None
}

/// The calls a case makes, spelled out.
fn lines(case: &Case) -> Vec<String> {
    match case {
        Case::Call(c) => vec![c.concrete().line()],
        Case::Mod(q) => vec![format!("lyra2mod {}", q.concrete().line())],
        Case::Stage(st, b) => vec![format!("{st:?} {}", hex(&b.bytes()))],
        Case::History(o) | Case::Conc { ops: o, .. } => resolve(o).iter().map(|c| c.line()).collect(),
        Case::Pair(c, m) => {
            let x = c.concrete();
            let y = m.iter().fold(x.clone(), |y, m| y.mutate(m));
            vec![x.line(), y.line()]
        }
        Case::Mem { call, n } => vec![format!("{n} calls like {}", call.concrete().line())],
    }
}

/// Regenerates case `--index`, shrinks it and writes `--out`. Exit 0: it fails on its own.
/// Exit 3: on its own the case is fine.
fn shrink(a: &[String]) -> i32 {
    let prop = opt(a, "--prop").unwrap();
    let (seed, idx) = (num(a, "--seed", 1), num(a, "--index", 0));
    let rounds = num(a, "--rounds", 1);
    let cpu = num(a, "--cpu", 60);
    let budget = num(a, "--budget", 60);
    let max = num(a, "--max-evals", 500);
    let other = opt(a, "--other");
    let exe = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let s = gen::strategy(prop);
    let mut t = gen::tree(&s, seed, prop, idx).expect("generator");
    let original = t.current();
    let mut best = original.clone();
    let first = match why(&exe, other, prop, &best, rounds, cpu) {
        Some(m) => m,
        None => {
            println!("{}", json!({"case": original}));
            return 3;
        }
    };
    let mut msg = first.clone();
    let hang = first.starts_with("no answer");
    let (cpu, max) = if hang { (20, 6) } else { (cpu, max) };
    let t0 = Instant::now();
    let mut evals = 0;
    if t.simplify() {
        loop {
            if evals >= max || t0.elapsed() > Duration::from_secs(budget) {
                break;
            }
            evals += 1;
            let c = t.current();
            match why(&exe, other, prop, &c, rounds, cpu) {
                Some(m) => {
                    best = c;
                    msg = m;
                    if !t.simplify() {
                        break;
                    }
                }
                None => {
                    if !t.complicate() {
                        break;
                    }
                }
            }
        }
    }
    let lines = lines(&best);
    let out = json!({
        "kind": "case", "property": prop, "seed": seed, "index": idx, "shrink_evaluations": evals,
        "why": msg, "original_why": first, "calls": lines, "case": best, "original_case": original,
        "rounds": rounds, "compare_builds": other.is_some(),
    });
    println!("{out}");
    0
}

// ---------------------------------------------------------------- worker

struct Tally {
    evals: u64,
    calls: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, (u64, String)>,
}

fn cpu_of(clock: libc::clockid_t) -> Option<f64> {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut ts) } == 0 {
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9)
    } else {
        None
    }
}

/// Runs cases `--from .. --from+--count` on `--threads` threads.
/// Exit 0: done, see `--out`. Exit 77: one case used up `--cpu` seconds. Exit 78: nothing moves.
fn worker(a: &[String]) -> i32 {
    let prop = opt(a, "--prop").unwrap().to_string();
    let (seed, from, count) = (num(a, "--seed", 1), num(a, "--from", 0), num(a, "--count", 1000));
    let threads = num(a, "--threads", 8) as usize;
    if threads == 1 {
        crate::alloc::WHOLE.store(true, Ordering::SeqCst);
    }
    let cpu_limit = num(a, "--cpu", 60) as f64;
    let out = opt(a, "--out").unwrap().to_string();
    let prints_path = opt(a, "--prints").map(|s| s.to_string());
    let slots: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let clocks: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let slot_file = std::fs::File::create(format!("{out}.slots")).unwrap();
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let failures: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let prints: Vec<AtomicU64> = match prints_path {
        Some(_) => (0..count).map(|_| AtomicU64::new(0)).collect(),
        None => vec![],
    };
    let tallies: Vec<Tally> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (prop, slots, clocks, stop, failures, prints, slot_file) =
                    (&prop, &slots, &clocks, &stop, &failures, &prints, &slot_file);
                sc.spawn(move || {
                    use std::os::unix::fs::FileExt;
                    let mut clk: libc::clockid_t = 0;
                    if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) } == 0 {
                        clocks[t].store(clk as u32 as u64 | 1 << 40, Ordering::SeqCst);
                    }
                    warm_up();
                    let s = gen::strategy(prop);
                    let mut y = Tally {
                        evals: 0,
                        calls: 0,
                        nontrivial: HashSet::new(),
                        labels: BTreeMap::new(),
                        samples: vec![],
                        known: BTreeMap::new(),
                    };
                    let mut i = from + t as u64;
                    while i < from + count && !stop.load(Ordering::Relaxed) {
                        let case = gen::case(&s, seed, prop, i);
                        slots[t].store(i, Ordering::Relaxed);
                        let _ = slot_file.write_all_at(&i.to_le_bytes(), t as u64 * 8);
                        let e = props::eval(prop, &case);
                        slots[t].store(u64::MAX, Ordering::Relaxed);
                        y.evals += 1;
                        y.calls += e.calls;
                        for l in &e.labels {
                            *y.labels.entry(l).or_insert(0) += 1;
                        }
                        if e.nontrivial {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            case.hash(&mut h);
                            if y.nontrivial.insert(h.finish()) && y.samples.len() < 2 {
                                let s = serde_json::to_value(&case).unwrap();
                                if s.to_string().len() < 1500 {
                                    y.samples.push(s);
                                }
                            }
                        }
                        if !prints.is_empty() {
                            prints[(i - from) as usize].store(e.print, Ordering::Relaxed);
                        }
                        match e.verdict {
                            Verdict::Ok => {}
                            Verdict::Known(id, m) => {
                                let k = y.known.entry(id).or_insert((0, m));
                                k.0 += 1;
                            }
                            Verdict::Fail(m) => {
                                failures.lock().unwrap().push((i, m));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        i += threads as u64;
                    }
                    clocks[t].store(0, Ordering::SeqCst);
                    slots[t].store(u64::MAX, Ordering::Relaxed);
                    y
                })
            })
            .collect();
        // watchdog
        let (slots, clocks, done) = (&slots, &clocks, &done);
        let w = sc.spawn(move || {
            let mut seen = vec![(u64::MAX, 0f64, Instant::now()); threads];
            let mut proc0 = 0f64;
            let mut last_move = Instant::now();
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let mut moved = false;
                for t in 0..threads {
                    let i = slots[t].load(Ordering::Relaxed);
                    let clk = clocks[t].load(Ordering::SeqCst);
                    if clk == 0 {
                        continue;
                    }
                    let c = cpu_of(clk as u32 as libc::clockid_t).unwrap_or(0.0);
                    if i != seen[t].0 || i == u64::MAX {
                        seen[t] = (i, c, Instant::now());
                        moved = true;
                    } else if c - seen[t].1 > cpu_limit {
                        eprintln!("case {i}: more than {cpu_limit} s of processor time");
                        std::process::exit(77);
                    }
                }
                let p = cpu_of(libc::CLOCK_PROCESS_CPUTIME_ID).unwrap_or(0.0);
                if moved || p - proc0 > 1.0 {
                    proc0 = p;
                    last_move = Instant::now();
                } else if last_move.elapsed() > Duration::from_secs(100) {
                    eprintln!("no thread has moved for 100 s");
                    std::process::exit(78);
                }
            }
        });
        let r: Vec<Tally> = hs
            .into_iter()
            .map(|h| match h.join() {
                Ok(t) => t,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                    eprintln!("internal: harness thread panicked: {m:?}");
                    std::process::exit(79);
                }
            })
            .collect();
        done.store(true, Ordering::Relaxed);
        w.join().unwrap();
        r
    });
    let mut all = HashSet::new();
    let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let (mut evals, mut calls, mut samples) = (0, 0, vec![]);
    for t in tallies {
        evals += t.evals;
        calls += t.calls;
        all.extend(t.nontrivial);
        for (l, n) in t.labels {
            *labels.entry(l).or_insert(0) += n;
        }
        for (k, (n, m)) in t.known {
            let e = known.entry(k).or_insert((0, m));
            e.0 += n;
        }
        samples.extend(t.samples);
    }
    samples.truncate(4);
    let mut f = failures.into_inner().unwrap();
    f.sort();
    if let Some(p) = prints_path {
        let b: Vec<u8> = prints.iter().flat_map(|x| x.load(Ordering::Relaxed).to_le_bytes()).collect();
        std::fs::write(p, b).unwrap();
    }
    let v = json!({
        "evaluations": evals, "calls": calls, "distinct_nontrivial": all.len(), "labels": labels,
        "samples": samples, "known": known, "failures": f, "rule": props::rule(&prop),
    });
    std::fs::write(&out, v.to_string()).unwrap();
    0
}

/// Runs each case of a range in a process of its own and prints how it ended.
fn forked(a: &[String]) -> i32 {
    let prop = opt(a, "--prop").unwrap();
    let s = gen::strategy(prop);
    let (seed, from, n, secs) = (num(a, "--seed", 1), num(a, "--from", 0), num(a, "--count", 1), num(a, "--secs", 2));
    let mut out = String::new();
    for i in from..from + n {
        let c = match gen::case(&s, seed, prop, i) {
            Case::Call(c) => c.concrete(),
            _ => continue,
        };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::alarm(secs as u32);
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 1);
                libc::dup2(null, 2);
            }
            let r = c.run_caught();
            unsafe { libc::_exit(if r.is_ok() { 10 } else { 11 }) };
        }
        if pid < 0 {
            return 79;
        }
        let mut st = 0;
        while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
        let how = if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("exit {}", libc::WEXITSTATUS(st)) };
        out.push_str(&format!("{i} {how} {}\n", c.line()));
    }
    print!("{out}");
    0
}
