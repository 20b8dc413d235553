//! Generated cases and the concrete calls they stand for.
use crate::refmodel::{self, Pick};
use crate::weak::Weak;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fill {
    Zero,
    Ones,
    Byte(u8),
    Counter,
    Ascii,
    Random,
    /// the first `n` random bytes again and again
    Period(u8),
    /// lower-case hexadecimal text
    Hex,
}

/// Bytes written over the fill; `pos` is taken modulo the length, or the bytes are put
/// so that they end where the string ends.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Patch {
    pub pos: u32,
    #[serde(default)]
    pub end: bool,
    pub bytes: Vec<u8>,
}

/// A byte string in a compact, shrinkable form. `spare` is unused Vec capacity.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Blob {
    pub len: u32,
    pub fill: Fill,
    pub seed: u64,
    pub spare: u16,
    pub patches: Vec<Patch>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.len as usize;
        let mut v: Vec<u8> = Vec::with_capacity(n + self.spare as usize);
        // dirty the spare capacity so that reading past the length shows
        v.resize(n + self.spare as usize, 0xA5);
        v.clear();
        let mut s = self.seed;
        match self.fill {
            Fill::Zero => v.resize(n, 0),
            Fill::Ones => v.resize(n, 0xff),
            Fill::Byte(b) => v.resize(n, b),
            Fill::Counter => v.extend((0..n).map(|i| (i as u64).wrapping_add(s) as u8)),
            Fill::Ascii => {
                while v.len() < n {
                    let mut x = splitmix(&mut s);
                    for _ in 0..8 {
                        if v.len() < n {
                            v.push(0x20 + (x as u8 & 0x7f) % 95);
                        }
                        x >>= 8;
                    }
                }
            }
            Fill::Period(p) => {
                let p = p.max(1) as usize;
                while v.len() < n {
                    if v.len() < p {
                        v.push(splitmix(&mut s) as u8);
                    } else {
                        v.push(v[v.len() - p]);
                    }
                }
            }
            Fill::Hex => v.extend((0..n).map(|_| b"0123456789abcdef"[(splitmix(&mut s) & 15) as usize])),
            Fill::Random => {
                while v.len() + 8 <= n {
                    v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
                }
                let last = splitmix(&mut s).to_le_bytes();
                let r = n - v.len();
                v.extend_from_slice(&last[..r]);
            }
        }
        if n > 0 {
            for p in &self.patches {
                let at = if p.end { n.saturating_sub(p.bytes.len()) } else { p.pos as usize % n };
                for (i, b) in p.bytes.iter().enumerate() {
                    if at + i < n {
                        v[at + i] = *b;
                    }
                }
            }
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Req {
    pub k: u64,
    pub pwd: Blob,
    /// None: the salt is the password
    pub salt: Option<Blob>,
    pub t: u64,
    pub r: u64,
    pub c: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Algo {
    Sum,
    Re,
    Rev2,
    Rev3,
    Z,
}
pub const ALGOS: [Algo; 5] = [Algo::Sum, Algo::Re, Algo::Rev2, Algo::Rev3, Algo::Z];

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Call {
    Hash(Algo, Blob),
    Lyra(Req),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Mutation {
    FlipBit { salt: bool, pos: u32, bit: u8 },
    SetByte { salt: bool, pos: u32, val: u8 },
    Append { salt: bool, byte: u8 },
    Prepend { salt: bool, byte: u8 },
    Truncate { salt: bool, n: u32 },
    Shift { n: u32, to_pwd: bool },
    SwapPwdSalt,
    /// one copy of the string after the other
    Double { salt: bool },
    Reverse { salt: bool },
    /// exchanges two aligned pieces: keeps sums, counts and sorted bytes
    Swap { salt: bool, a: u32, b: u32, width: u8 },
    /// changes two bytes so that their sum (or their exclusive or) stays
    Twin { salt: bool, a: u32, b: u32, bit: u8, sum: bool },
    /// other bytes between the first and the last few
    Middle { salt: bool, keep: u32, byte: u8 },
    Rotate { salt: bool, n: u32 },
    /// keeps a chain of 64-bit steps over the words as it is
    Words { salt: bool, w: Weak },
    /// keeps a polynomial in the bytes as it is
    Poly { salt: bool, w: Weak },
    K(i64),
    T(i64),
    R(i64),
    C(i64),
    SwapRC,
    Algo(Algo),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Fresh(Call),
    /// repeats an earlier call of the history
    Repeat(u8),
    /// an earlier call of the history, changed a little
    Near(u8, Mutation),
    /// an earlier call with one of two endings that agree under some weak hash
    Colliding(u8, Weak, bool),
    /// a request below a parameter minimum
    Refused(Req),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Stage {
    Cube,
    Bmw,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Case {
    Call(Call),
    Stage(Stage, Blob),
    Mod(Req),
    Pair(Call, Vec<Mutation>),
    History(Vec<Op>),
    Conc { ops: Vec<Op>, threads: u8, reps: u8 },
    /// `n` different calls derived from one
    Mem { call: Call, n: u16 },
}

/// A call with its arguments spelled out.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Concrete {
    Hash { algo: Algo, input: Vec<u8> },
    Lyra { k: u64, pwd: Vec<u8>, salt: Vec<u8>, t: u64, r: u64, c: u64 },
}

impl Req {
    pub fn concrete(&self) -> Concrete {
        let pwd = self.pwd.bytes();
        let salt = match &self.salt {
            Some(s) => s.bytes(),
            None => pwd.clone(),
        };
        Concrete::Lyra { k: self.k, pwd, salt, t: self.t, r: self.r, c: self.c }
    }
    pub fn salt_len(&self) -> u32 {
        self.salt.as_ref().map_or(self.pwd.len, |s| s.len)
    }
}

impl Call {
    pub fn concrete(&self) -> Concrete {
        match self {
            Call::Lyra(r) => r.concrete(),
            Call::Hash(a, b) => Concrete::Hash { algo: *a, input: b.bytes() },
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s == "-" {
        return Some(vec![]);
    }
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
fn hexd(b: &[u8]) -> String {
    if b.is_empty() {
        "-".into()
    } else {
        hex(b)
    }
}

impl Concrete {
    /// One line, as the probe programs read it.
    pub fn line(&self) -> String {
        match self {
            Concrete::Hash { algo, input } => format!("hash {algo:?} {}", hexd(input)),
            Concrete::Lyra { k, pwd, salt, t, r, c } => {
                format!("lyra {k} {t} {r} {c} {} {}", hexd(pwd), hexd(salt))
            }
        }
    }
    pub fn parse(l: &str) -> Option<Concrete> {
        let f: Vec<&str> = l.split_whitespace().collect();
        match f.as_slice() {
            ["hash", a, x] => {
                let algo = *ALGOS.iter().find(|v| format!("{v:?}") == *a)?;
                Some(Concrete::Hash { algo, input: unhex(x)? })
            }
            ["lyra", k, t, r, c, p, s] => Some(Concrete::Lyra {
                k: k.parse().ok()?,
                t: t.parse().ok()?,
                r: r.parse().ok()?,
                c: c.parse().ok()?,
                pwd: unhex(p)?,
                salt: unhex(s)?,
            }),
            _ => None,
        }
    }
    pub fn valid(&self) -> bool {
        match self {
            Concrete::Hash { .. } => true,
            Concrete::Lyra { t, r, c, .. } => *t >= 1 && *r >= 3 && *c >= 1,
        }
    }
    /// Calls the code under test.
    pub fn run(self) -> Vec<u8> {
        match self {
            Concrete::Hash { algo, input } => match algo {
                Algo::Sum => lyra2::lyra2::sum(input).to_vec(),
                Algo::Re => lyra2::lyra2re::sum(input).to_vec(),
                Algo::Rev2 => lyra2::lyra2rev2::sum(input).to_vec(),
                Algo::Rev3 => lyra2::lyra2rev3::sum(input).to_vec(),
                Algo::Z => lyra2::lyra2z::sum(input).to_vec(),
            },
            Concrete::Lyra { k, pwd, salt, t, r, c } => {
                lyra2::lyra2::lyra2(k, pwd, salt, t, r, c).to_vec()
            }
        }
    }
    /// A copy whose vectors keep their spare capacity, and that full of rubbish.
    pub fn dup(&self) -> Concrete {
        match self {
            Concrete::Hash { algo, input } => Concrete::Hash { algo: *algo, input: roomy(input, input.capacity() - input.len()) },
            Concrete::Lyra { k, pwd, salt, t, r, c } => {
                Concrete::Lyra { k: *k, pwd: roomy(pwd, pwd.capacity() - pwd.len()), salt: roomy(salt, salt.capacity() - salt.len()), t: *t, r: *r, c: *c }
            }
        }
    }
    /// The same with `n` bytes of spare capacity for each vector.
    pub fn with_spare(&self, n: usize) -> Concrete {
        match self {
            Concrete::Hash { algo, input } => Concrete::Hash { algo: *algo, input: roomy(input, n) },
            Concrete::Lyra { k, pwd, salt, t, r, c } => Concrete::Lyra { k: *k, pwd: roomy(pwd, n), salt: roomy(salt, n / 2), t: *t, r: *r, c: *c },
        }
    }
    pub fn run_caught(self) -> Result<Vec<u8>, String> {
        caught(|| self.run())
    }
    /// The reference answer; None when the call must be refused.
    pub fn expect(&self) -> Option<Vec<u8>> {
        if !self.valid() {
            return None;
        }
        Some(match self {
            Concrete::Hash { algo, input } => match algo {
                Algo::Sum => refmodel::lyra2_sum(input),
                Algo::Re => refmodel::lyra2re(input),
                Algo::Rev2 => refmodel::lyra2rev2(input),
                Algo::Rev3 => refmodel::lyra2rev3(input),
                Algo::Z => refmodel::lyra2z(input),
            },
            Concrete::Lyra { k, pwd, salt, t, r, c } => {
                refmodel::lyra2(*k, pwd, salt, *t, *r, *c, Pick::First)
            }
        })
    }
    /// Relative cost, in reduced-round applications.
    pub fn cost(&self) -> u64 {
        match self {
            Concrete::Hash { input, .. } => 700 + input.len() as u64 / 2,
            Concrete::Lyra { k, pwd, salt, t, r, c } => {
                let input = (pwd.len() + salt.len()) as u64;
                let cells = r.saturating_mul(*c);
                // absorbing copies what is left of the buffer for each block
                let copies = (input / 64 + 2).saturating_mul(cells.saturating_mul(96).max(input)) / 1000;
                (t.saturating_add(1)).saturating_mul(cells).saturating_add((k / 6).saturating_add(input / 6)).saturating_add(copies)
            }
        }
    }
    pub fn mutate(&self, m: &Mutation) -> Concrete {
        let mut out = self.clone();
        fn d(x: u64, dx: i64, lo: u64, hi: u64) -> u64 {
            (x as i64).saturating_add(dx).clamp(lo as i64, hi as i64) as u64
        }
        fn edit(v: &mut Vec<u8>, m: &Mutation) {
            match m {
                Mutation::FlipBit { pos, bit, .. } if !v.is_empty() => {
                    let n = v.len();
                    v[*pos as usize % n] ^= 1 << (bit & 7);
                }
                Mutation::SetByte { pos, val, .. } if !v.is_empty() => {
                    let n = v.len();
                    v[*pos as usize % n] = *val;
                }
                Mutation::Append { byte, .. } => v.push(*byte),
                Mutation::Prepend { byte, .. } => v.insert(0, *byte),
                Mutation::Truncate { n, .. } => {
                    let l = v.len().saturating_sub(*n as usize);
                    v.truncate(l);
                }
                Mutation::Double { .. } => v.extend_from_within(..),
                Mutation::Reverse { .. } => v.reverse(),
                Mutation::Swap { a, b, width, .. } => {
                    let w = (*width).max(1) as usize;
                    let n = v.len() / w;
                    if n > 1 {
                        let (a, b) = (*a as usize % n * w, *b as usize % n * w);
                        for i in 0..w {
                            v.swap(a + i, b + i);
                        }
                    }
                }
                Mutation::Twin { a, b, bit, sum, .. } if v.len() > 1 => {
                    let n = v.len();
                    let (a, b) = (*a as usize % n, *b as usize % n);
                    let d = 1u8 << (bit & 7);
                    if a != b && *sum {
                        v[a] = v[a].wrapping_add(d);
                        v[b] = v[b].wrapping_sub(d);
                    } else if a != b {
                        v[a] ^= d;
                        v[b] ^= d;
                    }
                }
                Mutation::Middle { keep, byte, .. } => {
                    let n = v.len();
                    let keep = *keep as usize;
                    if n > 2 * keep {
                        v[keep..n - keep].iter_mut().for_each(|x| *x ^= byte);
                    }
                }
                Mutation::Rotate { n, .. } if !v.is_empty() => {
                    let l = v.len();
                    v.rotate_left(*n as usize % l);
                }
                Mutation::Words { w, .. } => w.words(v),
                Mutation::Poly { w, .. } => w.poly(v),
                _ => {}
            }
        }
        match &mut out {
            Concrete::Hash { algo, input } => match m {
                Mutation::Algo(a) => *algo = *a,
                _ => edit(input, m),
            },
            Concrete::Lyra { k, pwd, salt, t, r, c } => match m {
                Mutation::FlipBit { salt: s, .. }
                | Mutation::SetByte { salt: s, .. }
                | Mutation::Append { salt: s, .. }
                | Mutation::Prepend { salt: s, .. }
                | Mutation::Double { salt: s }
                | Mutation::Reverse { salt: s }
                | Mutation::Swap { salt: s, .. }
                | Mutation::Twin { salt: s, .. }
                | Mutation::Middle { salt: s, .. }
                | Mutation::Rotate { salt: s, .. }
                | Mutation::Words { salt: s, .. }
                | Mutation::Poly { salt: s, .. }
                | Mutation::Truncate { salt: s, .. } => edit(if *s { salt } else { pwd }, m),
                Mutation::Shift { n, to_pwd } => {
                    if *to_pwd {
                        let n = (*n as usize).min(salt.len());
                        let head: Vec<u8> = salt.drain(..n).collect();
                        pwd.extend(head);
                    } else {
                        let n = (*n as usize).min(pwd.len());
                        let at = pwd.len() - n;
                        let mut tail = pwd.split_off(at);
                        tail.extend_from_slice(salt);
                        *salt = tail;
                    }
                }
                Mutation::SwapPwdSalt => std::mem::swap(pwd, salt),
                Mutation::K(x) => *k = d(*k, *x, 0, 1 << 20),
                Mutation::T(x) => *t = d(*t, *x, 1, 1 << 17),
                Mutation::R(x) => *r = d(*r, *x, 3, 1 << 17),
                Mutation::C(x) => *c = d(*c, *x, 1, 1 << 17),
                Mutation::SwapRC => {
                    if *c >= 3 {
                        std::mem::swap(r, c)
                    }
                }
                Mutation::Algo(_) => {}
            },
        }
        // a change must not make a cheap call expensive
        let had = if self.valid() { self.cost() } else { 0 };
        if out.valid() && out.cost() > (2 * had).max(1 << 13) {
            return self.clone();
        }
        out
    }
}

/// Spells a history out. `Repeat`/`Near` refer to earlier entries.
pub fn resolve(ops: &[Op]) -> Vec<Concrete> {
    let mut v: Vec<Concrete> = Vec::with_capacity(ops.len());
    for op in ops {
        let c = match op {
            Op::Fresh(c) => c.concrete(),
            Op::Repeat(i) if !v.is_empty() => v[*i as usize % v.len()].clone(),
            Op::Near(i, m) if !v.is_empty() => v[*i as usize % v.len()].mutate(m),
            Op::Repeat(_) => Concrete::Hash { algo: Algo::Sum, input: vec![] },
            Op::Near(_, m) => Concrete::Hash { algo: Algo::Rev2, input: b"abcdefgh".to_vec() }.mutate(m),
            Op::Colliding(i, w, second) => {
                let mut c = if v.is_empty() { Concrete::Hash { algo: Algo::Z, input: vec![] } } else { v[*i as usize % v.len()].clone() };
                match &mut c {
                    Concrete::Hash { input, .. } => w.ending(input, &[], *second),
                    Concrete::Lyra { pwd, salt, .. } => w.ending(pwd, salt, *second),
                }
                c
            }
            Op::Refused(r) => r.concrete(),
        };
        v.push(c);
    }
    v
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        format!("panicked: {m}")
    })
}

fn roomy(v: &[u8], spare: usize) -> Vec<u8> {
    let mut x = Vec::with_capacity(v.len() + spare);
    x.extend_from_slice(v);
    x.resize(v.len() + spare, 0xA5);
    x.truncate(v.len());
    x
}

/// Runs it in a destructor, while the thread unwinds from a panic.
pub fn while_unwinding<T>(f: impl FnOnce() -> T) -> Option<T> {
    struct D<F, T>(Option<F>, std::rc::Rc<std::cell::RefCell<Option<T>>>)
    where
        F: FnOnce() -> T;
    impl<F: FnOnce() -> T, T> Drop for D<F, T> {
        fn drop(&mut self) {
            let r = self.0.take().map(|f| f());
            *self.1.borrow_mut() = r;
        }
    }
    let out = std::rc::Rc::new(std::cell::RefCell::new(None));
    let keep = out.clone();
    let _ = catch_unwind(AssertUnwindSafe(move || {
        let _d = D(Some(f), keep);
        std::panic::resume_unwind(Box::new(()));
    }));
    let r = out.borrow_mut().take();
    r
}

pub fn stage_run(s: Stage, _data: Vec<u8>) -> Option<Result<Vec<u8>, String>> {
    match s {
        Stage::Cube => {
            #[cfg(lyra2_verif_cubehash)]
            return Some(caught(|| lyra2::verif_hooks::cubehash256(_data)));
            #[cfg(not(lyra2_verif_cubehash))]
            None
        }
        Stage::Bmw => {
            #[cfg(lyra2_verif_bmw)]
            return Some(caught(|| lyra2::verif_hooks::bmw256(_data)));
            #[cfg(not(lyra2_verif_bmw))]
            None
        }
    }
}

pub fn mod_run(_c: Concrete) -> Option<Result<Vec<u8>, String>> {
    #[cfg(lyra2_verif_lyra2mod)]
    if let Concrete::Lyra { k, pwd, salt, t, r, c } = _c {
        return Some(caught(|| lyra2::verif_hooks::lyra2mod(k, pwd, salt, t, r, c)));
    }
    None
}

pub fn hooks() -> (bool, bool, bool) {
    (
        cfg!(lyra2_verif_cubehash),
        cfg!(lyra2_verif_bmw),
        cfg!(lyra2_verif_lyra2mod),
    )
}
