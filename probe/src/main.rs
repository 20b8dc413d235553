//! Runs calls given one per line on standard input and prints what each answers.
//! Depends on nothing but the crate under test, so that it runs under Miri on any target.
//!   probe seq            one after another
//!   probe conc THREADS   all of them on every thread at the same time
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

#[derive(Clone)]
enum Call {
    Hash(String, Vec<u8>),
    Lyra([u64; 4], Vec<u8>, Vec<u8>),
}

fn parse(l: &str) -> Call {
    let f: Vec<&str> = l.split_whitespace().collect();
    match f[0] {
        "hash" => Call::Hash(f[1].to_string(), unhex(f[2])),
        "lyra" => {
            let n = |i: usize| f[i].parse::<u64>().expect("number");
            Call::Lyra([n(1), n(2), n(3), n(4)], unhex(f[5]), unhex(f[6]))
        }
        x => panic!("unknown call {x}"),
    }
}

fn run(c: Call) -> Vec<u8> {
    match c {
        Call::Hash(a, x) => match a.as_str() {
            "Sum" => lyra2::lyra2::sum(x).to_vec(),
            "Re" => lyra2::lyra2re::sum(x).to_vec(),
            "Rev2" => lyra2::lyra2rev2::sum(x).to_vec(),
            "Rev3" => lyra2::lyra2rev3::sum(x).to_vec(),
            _ => lyra2::lyra2z::sum(x).to_vec(),
        },
        Call::Lyra([k, t, r, c], p, s) => lyra2::lyra2::lyra2(k, p, s, t, r, c).to_vec(),
    }
}

fn answer(c: Call) -> String {
    match catch_unwind(AssertUnwindSafe(|| run(c))) {
        Ok(b) => {
            let mut s = String::from("digest ");
            for x in b {
                s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
                s.push(char::from_digit((x & 15) as u32, 16).unwrap());
            }
            s
        }
        Err(_) => "panic".to_string(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let calls: Vec<Call> = s.lines().filter(|l| !l.trim().is_empty()).map(parse).collect();
    if a.get(1).map(|s| s.as_str()) == Some("conc") {
        let n: usize = a[2].parse().unwrap();
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let calls = calls.clone();
                std::thread::spawn(move || {
                    (0..calls.len()).map(|j| (j + t) % calls.len()).map(|j| (j, answer(calls[j].clone()))).collect::<Vec<_>>()
                })
            })
            .collect();
        for (t, h) in hs.into_iter().enumerate() {
            for (j, o) in h.join().unwrap() {
                println!("thread {t} call {j} {o}");
            }
        }
    } else {
        for (j, c) in calls.into_iter().enumerate() {
            println!("call {j} {}", answer(c));
            let _ = std::io::stdout().flush();
        }
    }
}
