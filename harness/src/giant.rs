//! Single calls with a length around 2^29, 2^31 or 2^32, where narrow lengths and counters wrap.
//! `verif giant --prop P --seed S --index I` prints a case (`--list`), or judges the case on
//! standard input. Contents are zeros with a few patches, so that reading them costs no memory.
use crate::case::{caught, hex};
use crate::refmodel::{self, Pick};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::io::Read;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Giant {
    /// sum, re, rev2, rev3, z or lyra
    f: String,
    len: u64,
    #[serde(default)]
    patches: Vec<(u64, u8)>,
    #[serde(default)]
    salt: u64,
    #[serde(default)]
    salt_patches: Vec<(u64, u8)>,
    #[serde(default)]
    k: u64,
    #[serde(default)]
    t: u64,
    #[serde(default)]
    r: u64,
    #[serde(default)]
    c: u64,
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn patches(&mut self, len: u64) -> Vec<(u64, u8)> {
        let mut v = vec![];
        for _ in 0..self.below(6) {
            let at = match self.below(4) {
                0 => self.below(64),
                1 => len.saturating_sub(1 + self.below(64)),
                2 => (1u64 << (28 + self.below(5))).wrapping_sub(self.below(16)),
                _ => self.next(),
            };
            if len > 0 {
                v.push((at % len, self.next() as u8));
            }
        }
        v
    }
    /// a little above 2^e
    fn size(&mut self, e: u32) -> u64 {
        (1u64 << e) + match self.below(3) {
            0 => self.below(9),
            1 => self.below(1000),
            _ => self.below(1 << 20),
        }
    }
}

/// How many cases a property has per round, and the i-th of them.
fn case(prop: &str, seed: u64, i: u64) -> Option<Giant> {
    let mut r = Rng(seed.wrapping_mul(0x1_0000_01b3).wrapping_add(i * 77).wrapping_add(prop.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))));
    let chain = |f: &str, r: &mut Rng, e: u32| {
        let len = r.size(e);
        let patches = r.patches(len);
        Giant { f: f.into(), len, patches, salt: 0, salt_patches: vec![], k: 0, t: 0, r: 0, c: 0 }
    };
    let lyra = |r: &mut Rng, len: u64, salt: u64, k: u64| {
        let (patches, salt_patches) = (r.patches(len), r.patches(salt));
        Giant { f: "lyra".into(), len, patches, salt, salt_patches, k, t: 1 + r.below(3), r: 3 + r.below(6), c: 1 + r.below(6) }
    };
    // 200..: large matrices and many passes
    if i >= 200 {
        let (n, m, k) = (r.below(20) * 8, r.below(20) * 8, r.below(200));
        let mut g = lyra(&mut r, n, m, k);
        let more = r.below(30);
        (g.t, g.r, g.c) = match i % 4 {
            0 => (1, (1 << 24) + 1 + more, 1),
            1 => (1, 3, (1 << 24) + 1 + more),
            2 => ((1 << 24) + 1 + more, 3, 1),
            _ => (1, 6690 + more, 6690 + r.below(30)),
        };
        return Some(g);
    }
    // 100..: lengths between those the main search draws and the giant ones
    if i >= 100 {
        let mut size = || {
            let e = 22 + r.below(5);
            let n = (1 << e) + r.below(1 << e);
            if r.below(2) == 0 {
                // a little more than so many whole pieces
                return ((1 + r.below(4)) << e) + r.below(9);
            }
            match r.below(5) {
                0 => n,
                1 => n / 64 * 64 + r.below(20),
                2 => n / 64 * 64 + 64 - r.below(20),
                3 => n / 8192 * 8192 + r.below(80),
                _ => n / 8 * 8,
            }
        };
        let (n, m) = (size(), size());
        let (short, k) = (r.below(100), r.below(200));
        let f = ["sum", "re", "rev2", "rev3", "z"][(i % 5) as usize];
        let mut g = match prop {
            "C01" | "C02" => match i % 3 {
                0 => lyra(&mut r, n, short, k),
                1 => lyra(&mut r, short, n, k),
                _ => lyra(&mut r, n, m, k),
            },
            "C11" => lyra(&mut r, short, 8, n),
            _ => chain(match prop { "C03" => "sum", "C04" => "re", "C05" => "rev2", "C06" => "rev3", "C07" => "z", _ => f }, &mut r, 22),
        };
        if g.f != "lyra" {
            g.len = n;
            g.patches = r.patches(n);
        }
        if prop == "C01" {
            (g.len, g.salt) = (g.len / 8 * 8, g.salt / 8 * 8);
        }
        return Some(g);
    }
    let sizes = [32, 29, 31];
    let e = sizes[(i % 3) as usize];
    Some(match prop {
        "C04" => chain("re", &mut r, e),
        "C05" => chain("rev2", &mut r, e),
        "C06" => chain("rev3", &mut r, e),
        "C07" => chain("z", &mut r, e),
        "C01" | "C02" => {
            let fit = |n: u64| if prop == "C01" { n / 8 * 8 } else { n };
            match i % 4 {
                0 => {
                    let (n, m, k) = (r.size(32), r.below(100), r.below(200));
                    lyra(&mut r, fit(n), fit(m), k)
                }
                1 => {
                    let (n, m, k) = (r.below(100), r.size(32), r.below(200));
                    lyra(&mut r, fit(n), fit(m), k)
                }
                2 => {
                    let (n, m, k) = (r.below(100), r.below(100), r.size(32));
                    lyra(&mut r, fit(n), fit(m), k)
                }
                _ => {
                    let (n, m, k) = (r.size(31), r.size(31), r.below(200));
                    lyra(&mut r, fit(n), fit(m), k)
                }
            }
        }
        "C03" => chain("sum", &mut r, [31, 32, 29][(i % 3) as usize]),
        "C11" => {
            let (n, m) = (r.below(100), r.below(100));
            let k = r.size([32, 31, 29][(i % 3) as usize]);
            lyra(&mut r, n, m, k)
        }
        "C15" => match i % 7 {
            0 => chain("re", &mut r, 32),
            1 => chain("rev2", &mut r, 32),
            2 => chain("rev3", &mut r, 32),
            3 => chain("z", &mut r, 32),
            4 => chain("sum", &mut r, 31),
            5 => {
                let (n, k) = (r.size(32), r.below(200));
                lyra(&mut r, n, 8, k)
            }
            _ => {
                let k = r.size(32);
                lyra(&mut r, 16, 8, k)
            }
        },
        _ => return None,
    })
}

fn content(len: u64, patches: &[(u64, u8)]) -> Vec<u8> {
    let mut v = vec![0u8; len as usize];
    for (p, b) in patches {
        if *p < len {
            v[*p as usize] = *b;
        }
    }
    v
}

impl Giant {
    fn call(&self) -> Result<Vec<u8>, String> {
        let x = content(self.len, &self.patches);
        let y = content(self.salt, &self.salt_patches);
        caught(|| match self.f.as_str() {
            "sum" => lyra2::lyra2::sum(x),
            "re" => lyra2::lyra2re::sum(x),
            "rev2" => lyra2::lyra2rev2::sum(x),
            "rev3" => lyra2::lyra2rev3::sum(x),
            "z" => lyra2::lyra2z::sum(x),
            _ => lyra2::lyra2::lyra2(self.k, x, y, self.t, self.r, self.c),
        })
    }

    /// None: as it should be
    fn judge(&self, prop: &str) -> (Option<String>, String) {
        let short = |b: &[u8]| hex(&b[..b.len().min(64)]);
        if prop == "C03" {
            let x = content(self.len, &self.patches);
            let b = caught(|| lyra2::lyra2::lyra2(32, x.clone(), x, 1, 4, 4));
            let a = self.call();
            return match (a, b) {
                (Ok(a), Ok(b)) if a == b => (None, short(&a)),
                (a, b) => (Some(format!("sum gives {:?}, lyra2(32, x, x, 1, 4, 4) {:?}", a.map(|x| short(&x)), b.map(|x| short(&x)))), String::new()),
            };
        }
        if prop == "C11" || prop == "C15" {
            let want = if self.f == "lyra" { self.k } else { 32 };
            return match self.call() {
                Ok(b) if prop == "C11" && b.len() as u64 != want => (Some(format!("{} bytes returned, {want} asked for", b.len())), String::new()),
                Ok(b) => (None, format!("{} {}", short(&b), hex(&b[b.len().saturating_sub(32)..]))),
                Err(e) => (Some(format!("panics: {e}")), String::new()),
            };
        }
        if self.f == "lyra" && self.k > 1 << 24 {
            // the key is compared while the model makes it
            let got = match self.call() {
                Ok(b) => b,
                Err(e) => return (Some(format!("panics: {e}")), String::new()),
            };
            let (mut at, mut bad) = (0usize, None);
            refmodel::lyra2_to(self.k, &content(self.len, &self.patches), &content(self.salt, &self.salt_patches), self.t, self.r, self.c, Pick::First, &mut |b| {
                if bad.is_none() && got.get(at..at + b.len()) != Some(b) {
                    bad = Some(at);
                }
                at += b.len();
            });
            if bad.is_none() && got.len() != at {
                bad = Some(at);
            }
            return (bad.map(|p| format!("the key differs from the reference at byte {p} or a little after (length {})", got.len())), short(&got));
        }
        let me = self.clone();
        let model = std::thread::spawn(move || {
            let x = content(me.len, &me.patches);
            match me.f.as_str() {
                "re" => refmodel::lyra2re(&x),
                "rev2" => refmodel::lyra2rev2(&x),
                "rev3" => refmodel::lyra2rev3(&x),
                "z" => refmodel::lyra2z(&x),
                "sum" => refmodel::lyra2_sum(&x),
                _ => refmodel::lyra2(me.k, &x, &content(me.salt, &me.salt_patches), me.t, me.r, me.c, Pick::First),
            }
        });
        let got = self.call();
        let want = match model.join() {
            Ok(w) => w,
            Err(_) => std::process::exit(79),
        };
        match got {
            Ok(b) if b == want => (None, short(&b)),
            Ok(b) => (Some(format!("returns {}, the reference gives {}", short(&b), short(&want))), String::new()),
            Err(e) => (Some(format!("panics: {e}")), String::new()),
        }
    }
}

pub fn main(prop: &str, seed: u64, index: u64, list: bool) -> i32 {
    if list {
        println!("{}", serde_json::to_string(&case(prop, seed, index)).unwrap());
        return 0;
    }
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let g: Giant = serde_json::from_str(&s).unwrap();
    let (why, print) = g.judge(prop);
    println!("{}", json!({"why": why, "print": print}));
    0
}
