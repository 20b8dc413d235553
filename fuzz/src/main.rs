//! Coverage-guided search (libFuzzer): bytes are decoded into a case of the property named by
//! VERIF_PROP, which is then judged exactly as in the other stages.
#![no_main]
#![allow(dead_code, unexpected_cfgs)]
#[path = "../../harness/src/alloc.rs"]
mod alloc;
#[path = "../../harness/src/case.rs"]
mod case;
#[path = "../../harness/src/props.rs"]
mod props;
#[path = "../../harness/src/refmodel.rs"]
mod refmodel;

use case::*;
use props::Verdict;
use std::sync::OnceLock;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

static PROP: OnceLock<String> = OnceLock::new();

fn blob(b: &[u8]) -> Blob {
    Blob { len: b.len() as u32, fill: Fill::Zero, seed: 0, spare: 0, patches: vec![Patch { pos: 0, end: false, bytes: b.to_vec() }] }
}

struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn byte(&mut self) -> Option<u8> {
        let (a, b) = self.0.split_first()?;
        self.0 = b;
        Some(*a)
    }
    fn word(&mut self) -> Option<u64> {
        Some(self.byte()? as u64 | (self.byte()? as u64) << 8)
    }
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n.min(self.0.len()));
        self.0 = b;
        a
    }
    fn rest(&mut self) -> &'a [u8] {
        self.take(usize::MAX)
    }
    /// k, T, rows, columns, length of the password, password, salt
    fn req(&mut self, all: bool, limit: u64) -> Option<Req> {
        let (k, t, r, c, n) = (self.word()?, self.word()?, self.word()?, self.word()?, self.word()?);
        let pwd = self.take(n as usize);
        let salt = if all { self.rest() } else { let m = self.byte().unwrap_or(0) as usize; self.take(m) };
        let mut q = Req { k, pwd: blob(pwd), salt: Some(blob(salt)), t, r, c };
        let dear = |q: &Req| t >= 1 && r >= 3 && c >= 1 && q.concrete().cost() > limit;
        if dear(&q) {
            q.t = q.t % 8 + 1;
            q.r = q.r % 29 + 3;
            q.c = q.c % 9 + 1;
        }
        Some(q)
    }
    fn call(&mut self, all: bool, limit: u64) -> Option<Call> {
        let a = self.byte()?;
        Some(if (a as usize) < ALGOS.len() {
            let x = if all { self.rest() } else { let m = self.byte()? as usize; self.take(m) };
            Call::Hash(ALGOS[a as usize], blob(x))
        } else {
            Call::Lyra(self.req(all, limit)?)
        })
    }
}

fn valid(q: &Req) -> bool {
    q.t >= 1 && q.r >= 3 && q.c >= 1
}

fn decode(prop: &str, data: &[u8]) -> Option<Case> {
    let mut i = In(data);
    let lim = 1 << 13;
    Some(match prop {
        "C01" | "C02" => {
            let mut q = i.req(true, lim)?;
            if prop == "C01" {
                q.pwd.len -= q.pwd.len % 8;
                q.salt.as_mut()?.len &= !7;
            }
            if !valid(&q) {
                return None;
            }
            Case::Call(Call::Lyra(q))
        }
        "C03" => Case::Call(Call::Hash(Algo::Sum, blob(data))),
        "C04" => Case::Call(Call::Hash(Algo::Re, blob(data))),
        "C05" => Case::Call(Call::Hash(Algo::Rev2, blob(data))),
        "C06" => Case::Call(Call::Hash(Algo::Rev3, blob(data))),
        "C07" => Case::Call(Call::Hash(Algo::Z, blob(data))),
        "C08" => {
            let mut v = data.to_vec();
            v.resize(32, 0);
            Case::Stage(Stage::Cube, blob(&v))
        }
        "C09" => Case::Stage(Stage::Bmw, blob(&data[..data.len().min(55)])),
        "C10" => {
            let (pos, bit, which) = (i.word()?, i.byte()?, i.byte()?);
            let m = match which % 8 {
                0 => Mutation::FlipBit { salt: false, pos: pos as u32, bit: bit & 7 },
                1 => Mutation::FlipBit { salt: true, pos: pos as u32, bit: bit & 7 },
                2 => Mutation::Shift { n: pos as u32, to_pwd: bit & 1 == 0 },
                3 => Mutation::K(pos as i64),
                4 => Mutation::Append { salt: bit & 1 == 0, byte: pos as u8 },
                5 => Mutation::Truncate { salt: bit & 1 == 0, n: pos as u32 },
                6 if bit & 1 == 0 => Mutation::SwapPwdSalt,
                6 => Mutation::Twin { salt: bit & 2 == 0, a: pos as u32, b: (pos as u32) >> 8, bit: bit >> 3, sum: bit & 4 == 0 },
                _ => Mutation::SetByte { salt: bit & 1 == 0, pos: pos as u32, val: bit },
            };
            match i.call(true, lim)? {
                Call::Lyra(q) if !valid(&q) || q.k < 32 => return None,
                c => Case::Pair(c, vec![m]),
            }
        }
        "C11" | "C15" => match i.call(true, lim)? {
            Call::Lyra(q) if !valid(&q) => return None,
            c => Case::Call(c),
        },
        "C12" => {
            let q = i.req(true, lim)?;
            if valid(&q) {
                return None;
            }
            Case::Call(Call::Lyra(q))
        }
        "C13" => {
            let mut ops = vec![];
            while ops.len() < 12 && !i.0.is_empty() {
                ops.push(match i.byte()? {
                    0x80..=0xff => Op::Repeat(i.byte()? % 16),
                    0x40..=0x7f => Op::Near(i.byte()? % 16, Mutation::FlipBit { salt: false, pos: i.word()? as u32, bit: i.byte()? & 7 }),
                    _ => match i.call(false, 1 << 10)? {
                        Call::Lyra(q) if !valid(&q) => Op::Refused(q),
                        c => Op::Fresh(c),
                    },
                });
            }
            if ops.len() < 2 {
                return None;
            }
            Case::History(ops)
        }
        "C18" => Case::Mem { n: 1 + (i.byte()? & 3) as u16, call: i.call(true, lim)? },
        "C19" => {
            let mut q = i.req(true, lim)?;
            q.k %= 97;
            q.r = q.r.next_power_of_two().max(4);
            q.t = q.t.max(1);
            q.c = q.c.max(1);
            if q.concrete().cost() > 1 << 14 {
                return None;
            }
            let room = q.r * q.c * 96 / 64 * 64 - 49;
            if q.pwd.len as u64 + q.salt_len() as u64 > room {
                return None;
            }
            Case::Mod(q)
        }
        _ => return None,
    })
}

#[no_mangle]
pub extern "C" fn LLVMFuzzerTestOneInput(p: *const u8, n: usize) -> i32 {
    let prop = PROP.get_or_init(|| {
        std::panic::set_hook(Box::new(|_| {}));
        for _ in 0..2 {
            let _ = caught(|| -> () { panic!("warm-up") });
        }
        std::env::var("VERIF_PROP").expect("VERIF_PROP")
    });
    let data: &[u8] = if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } };
    let Some(case) = decode(prop, data) else { return -1 };
    if std::env::var_os("VERIF_DUMP").is_some() {
        eprintln!("VERIF-CASE {}", serde_json::to_string(&case).unwrap());
    }
    if let Verdict::Fail(m) = props::eval(prop, &case).verdict {
        eprintln!("VERIF-CASE {}", serde_json::to_string(&case).unwrap());
        eprintln!("VERIF-WHY {}", m.replace('\n', " "));
        std::process::abort();
    }
    0
}
