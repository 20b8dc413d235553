//! Generators. Every random choice is made by proptest from a seed that is a function of
//! (VERIF_SEED, property, case index), so a case can be regenerated and shrunk on its own.
use crate::case::*;
use crate::weak::Weak;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{NewTree, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::Deserialize;
use std::sync::OnceLock;

/// Constants found in the source of the code under test: numbers and byte strings that the
/// code compares with, indexes by or mixes in. Used as sizes, parameters and contents.
#[derive(Clone, Debug, Default, Deserialize)]
pub struct Pool {
    pub nums: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}
static POOL: OnceLock<Pool> = OnceLock::new();
pub fn pool() -> &'static Pool {
    POOL.get_or_init(|| {
        let mut p: Pool = std::env::var("VERIF_POOL")
            .ok()
            .and_then(|f| std::fs::read_to_string(f).ok())
            .and_then(|s| serde_json::from_str(&s).ok())
            .unwrap_or_default();
        if p.nums.is_empty() {
            p.nums = vec![0, 1, 64, 96];
        }
        if p.strs.is_empty() {
            p.strs = vec![b"abc".to_vec()];
        }
        p
    })
}

fn pooled(max: u64) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    for &n in &pool().nums {
        for d in [n.wrapping_sub(1), n, n.wrapping_add(1)] {
            if d <= max {
                v.push(d);
            }
        }
    }
    v.sort();
    v.dedup();
    if v.is_empty() {
        v.push(0);
    }
    v
}

fn around(m: impl Strategy<Value = u64> + 'static, d: i64) -> BoxedStrategy<u64> {
    (m, -d..=d).prop_map(|(m, d)| (m as i64 + d).max(0) as u64).boxed()
}

/// 2^p + d
fn pow2ish(lo: u32, hi: u32, d: i64) -> BoxedStrategy<u64> {
    around((lo..=hi).prop_map(|p| 1u64 << p), d)
}

fn loguniform(hi_bits: u32) -> BoxedStrategy<u64> {
    (0..=hi_bits, any::<u64>()).prop_map(|(b, x)| if b == 0 { 0 } else { (1 << (b - 1)) | (x & ((1 << (b - 1)) - 1)) }).boxed()
}

/// Byte lengths, `max` bits at most.
pub fn len(max_bits: u32) -> BoxedStrategy<u32> {
    let max = 1u64 << max_bits;
    prop_oneof![
        14 => 0u64..=160,
        5 => 0u64..=1100,
        4 => (0u64..=40).prop_map(|w| w * 8),
        5 => around((0u64..=24).prop_map(|b| b * 64), 9),
        2 => around((0u64..=12).prop_map(|b| b * 96), 9),
        1 => pow2ish(6, max_bits.min(12), 9),
        4 => prop::sample::select(pooled(max.min(5000))),
        4 => Just(80u64),
        4 => Just(32u64),
    ]
    .prop_map(move |n| n.min(max) as u32)
    .boxed()
}

/// Like `len`, now and then much longer.
pub fn len_long(max_bits: u32, rarity: u32) -> BoxedStrategy<u32> {
    let max = 1u64 << max_bits;
    prop_oneof![
        rarity => len(max_bits),
        1 => prop_oneof![
            pow2ish(10, max_bits, 9),
            loguniform(max_bits),
            prop::sample::select(pooled(max)),
        ].prop_map(move |n| n.min(max + 9) as u32),
    ]
    .boxed()
}

fn special_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        Just(0u64),
        Just(u64::MAX),
        (0u32..64).prop_map(|b| 1u64 << b),
        (0u32..64).prop_map(|b| (1u64 << b).wrapping_sub(1)),
        (0u32..64).prop_map(|b| !(1u64 << b)),
        prop::sample::select(pool().nums.clone()),
        prop::sample::select(pool().nums.clone()).prop_map(|n| n.wrapping_neg()),
        (0u64..=300),
        any::<u64>(),
    ]
    .boxed()
}

fn patch() -> BoxedStrategy<Patch> {
    let pos = prop_oneof![
        4 => any::<u32>(),
        3 => 0u32..160,
        3 => (0u32..40).prop_map(|w| w * 4),
        3 => (0u32..24).prop_map(|w| w * 8),
        1 => Just(0u32),
        1 => Just(76u32), // the nonce of a block header
    ];
    let bytes = prop_oneof![
        4 => prop_oneof![Just(0u8), Just(1u8), Just(0x7f), Just(0x80), Just(0xff), any::<u8>()].prop_map(|b| vec![b]),
        3 => special_u64().prop_map(|w| (w as u32).to_le_bytes().to_vec()),
        3 => special_u64().prop_map(|w| w.to_le_bytes().to_vec()),
        1 => special_u64().prop_map(|w| w.to_be_bytes().to_vec()),
        1 => special_u64().prop_map(|w| (w as u32).to_be_bytes().to_vec()),
        2 => prop::sample::select(pool().strs.clone()),
        1 => (prop_oneof![Just(0u8), Just(0xffu8), any::<u8>()], 1usize..70).prop_map(|(b, n)| vec![b; n]),
    ];
    let tail = prop_oneof![
        3 => prop::sample::select(vec![b"\n".to_vec(), b"\r\n".to_vec(), b" ".to_vec(), b"\t".to_vec(), b"\0".to_vec(), b"\0\0\0\0".to_vec(), vec![0x80], vec![0x80, 0], vec![0xff; 4], vec![0; 8], vec![0; 16]]),
        1 => prop::sample::select(pool().strs.clone()),
        1 => special_u64().prop_map(|w| (w as u32).to_le_bytes().to_vec()),
        1 => special_u64().prop_map(|w| w.to_le_bytes().to_vec()),
        1 => (Just(0u8), 1usize..70).prop_map(|(b, n)| vec![b; n]),
    ];
    prop_oneof![
        6 => (pos, bytes).prop_map(|(pos, bytes)| Patch { pos, end: false, bytes }),
        1 => tail.prop_map(|bytes| Patch { pos: 0, end: true, bytes }),
    ]
    .boxed()
}

fn fill() -> BoxedStrategy<Fill> {
    prop_oneof![
        12 => Just(Fill::Random),
        2 => Just(Fill::Zero),
        2 => Just(Fill::Ones),
        1 => any::<u8>().prop_map(Fill::Byte),
        1 => Just(Fill::Counter),
        2 => Just(Fill::Ascii),
        1 => Just(Fill::Hex),
        2 => prop_oneof![1u8..=200, prop::sample::select(vec![1u8, 2, 4, 8, 12, 16, 32, 40, 64, 80, 96, 128])].prop_map(Fill::Period),
    ]
    .boxed()
}

pub fn blob(len: BoxedStrategy<u32>) -> BoxedStrategy<Blob> {
    let patches = prop_oneof![
        3 => Just(vec![]),
        4 => vec(patch(), 1..=4),
    ];
    let generic = (len, fill(), any::<u64>(), prop_oneof![3 => Just(0u16), 1 => 1u16..200], patches)
        .prop_map(|(len, fill, seed, spare, patches)| Blob { len, fill, seed, spare, patches });
    // one of the strings in the source, alone
    let text = prop::sample::select(pool().strs.clone()).prop_map(|s| Blob {
        len: s.len() as u32,
        fill: Fill::Zero,
        seed: 0,
        spare: 0,
        patches: vec![Patch { pos: 0, end: false, bytes: s }],
    });
    prop_oneof![60 => generic, 1 => text].boxed()
}

fn cap_len(b: &mut Blob, m: u32) {
    if b.len > m {
        // keep the residue: it decides padding
        b.len = m - 64 + b.len % 64;
    }
}

/// Scale parameters down until the call is affordable.
pub fn affordable(mut q: Req, cap: u64) -> Req {
    q.r = q.r.min(cap.max(3));
    q.c = q.c.min((cap / q.r).max(1));
    q.t = q.t.min((cap / (q.r * q.c)).max(1));
    // absorbing copies what is left of the matrix once per block
    let matrix = q.r * q.c * 96;
    let copied = |n: u64| (n / 64 + 2) * matrix.max(n);
    let budget = 1u64 << 28;
    for _ in 0..12 {
        let total = q.pwd.len as u64 + q.salt_len() as u64;
        if copied(total) <= budget {
            break;
        }
        let m = (total / 4).max(128) as u32;
        cap_len(&mut q.pwd, m);
        if let Some(s) = q.salt.as_mut() {
            cap_len(s, m);
        }
    }
    q
}

pub struct ReqOpts {
    pub k_min: u64,
    pub len_multiple: u32,
    pub big: u32,
    pub huge: u32,
}

fn k_any(k_min: u64) -> BoxedStrategy<u64> {
    prop_oneof![
        4 => Just(32u64),
        6 => 0u64..=110,
        3 => 0u64..=420,
        4 => around((0u64..=8).prop_map(|b| b * 96), 3),
        2 => around((0u64..=16).prop_map(|b| b * 64), 2),
        1 => pow2ish(8, 12, 2),
        2 => prop::sample::select(pooled(4096)),
    ]
    .prop_map(move |k| k.max(k_min))
    .boxed()
}

pub fn req(o: ReqOpts) -> BoxedStrategy<Req> {
    let t = prop_oneof![4 => Just(1u64), 6 => 1u64..=4, 2 => 1u64..=20, 1 => prop::sample::select(pooled(300)).prop_map(|x| x.max(1))];
    let r = prop_oneof![
        6 => 3u64..=20,
        3 => (2u32..=6).prop_map(|p| 1u64 << p),
        2 => 3u64..=80,
        1 => pow2ish(3, 8, 2),
        1 => prop::sample::select(pooled(600)).prop_map(|x| x.max(3)),
    ];
    let c = prop_oneof![
        6 => 1u64..=9,
        2 => (0u32..=6).prop_map(|p| 1u64 << p),
        1 => 1u64..=70,
        1 => pow2ish(3, 8, 2).prop_map(|x| x.max(1)),
        1 => prop::sample::select(pooled(600)).prop_map(|x| x.max(1)),
    ];
    let small = (t, r, c).prop_map(|(t, r, c)| (t, r, c, 1u64 << 11));
    let coin = prop::sample::select(vec![
        (1u64, 4u64, 4u64), (1, 8, 8), (8, 8, 8), (1, 4, 256), (330, 3, 2), (1, 3, 3), (2, 16, 16), (1, 4, 1), (1, 16, 4),
    ])
    .prop_map(|(t, r, c)| (t, r, c, 1u64 << 13));
    let wide = prop_oneof![pow2ish(8, 17, 3), loguniform(17), prop::sample::select(pooled(1 << 17))];
    let narrow = prop_oneof![Just(1u64), 1u64..=4];
    let one = |w: BoxedStrategy<u64>| {
        (w, narrow.clone(), narrow.clone(), 0u8..4).prop_map(|(b, x, y, which)| match which {
            0 => (b.max(1), x + 2, y, 1u64 << 19),
            1 => (x, b.max(3), y, 1 << 19),
            2 => (x, y + 2, b.max(1), 1 << 19),
            // both dimensions
            _ => {
                let s = (b as f64).sqrt() as u64;
                (1, (s + x).max(3), (b / s.max(1) + y).max(1), 1 << 19)
            }
        })
    };
    let mid = one(prop_oneof![pow2ish(6, 11, 3), loguniform(12), prop::sample::select(pooled(1 << 12))].boxed());
    // several of them large at once
    let joint = (loguniform(9), loguniform(10), loguniform(10)).prop_map(|(t, r, c)| (t.max(1), r.max(3), c.max(1), 1u64 << 18));
    let params = prop_oneof![
        600 => small,
        200 => coin,
        o.big => mid,
        o.big => joint,
        o.huge => one(wide.boxed()),
    ];
    let k_min = o.k_min;
    let k = prop_oneof![
        400 => k_any(k_min),
        o.huge => prop_oneof![pow2ish(12, 17, 3), loguniform(17)].prop_map(move |k| k.max(k_min)),
    ];
    let m = o.len_multiple;
    let l = len_long(16, 300);
    let l2 = prop_oneof![100 => len_long(16, 300), 1 => pow2ish(16, 18, 9).prop_map(|x| x as u32)];
    let rnd = move |x: u32| x / m * m;
    let salt = prop_oneof![
        5 => blob(l.prop_map(rnd).boxed()).prop_map(Some),
        2 => Just(None),
    ];
    (params, k, blob(l2.prop_map(rnd).boxed()), salt)
        .prop_map(move |((t, r, c, cap), k, pwd, salt)| {
            let mut q = affordable(Req { k, pwd, salt, t, r, c }, cap);
            q.pwd.len -= q.pwd.len % m;
            if let Some(s) = q.salt.as_mut() {
                s.len -= s.len % m;
            }
            q
        })
        .boxed()
}

/// Requests below a minimum. Other parameters may be anything.
pub fn bad_req() -> BoxedStrategy<Req> {
    let wild = |lo: u64| {
        prop_oneof![
            6 => lo..=lo + 12,
            2 => pow2ish(0, 10, 2),
            1 => prop::sample::select(pooled(4096)),
            // absurd: must still be refused, before anything is allocated
            1 => prop_oneof![pow2ish(50, 62, 2), Just(u64::MAX), (u64::MAX - 20)..=u64::MAX],
        ]
    };
    let bad = 1u8..8;
    (bad, (wild(1), wild(3), wild(1), 0u64..3), wild(0), blob(len_long(14, 200)), blob(len_long(14, 200)), any::<bool>())
        .prop_map(|(bad, (t, r, c, br), k, pwd, salt, same)| Req {
            k,
            pwd,
            salt: if same { None } else { Some(salt) },
            t: if bad & 1 != 0 { 0 } else { t.max(1) },
            r: if bad & 2 != 0 { br } else { r.max(3) },
            c: if bad & 4 != 0 { 0 } else { c.max(1) },
        })
        .boxed()
}

fn algo() -> BoxedStrategy<Algo> {
    prop::sample::select(ALGOS.to_vec()).boxed()
}

fn small_req(k_min: u64) -> BoxedStrategy<Req> {
    (k_any(k_min), 1u64..=3, prop_oneof![3u64..=9, Just(4u64), Just(8u64)], 1u64..=5, blob(len(9)), prop_oneof![blob(len(9)).prop_map(Some), Just(None)])
        .prop_map(|(k, t, r, c, pwd, salt)| Req { k: k.min(2000), pwd, salt, t, r, c })
        .boxed()
}

/// a position, more often one near the start
fn near() -> BoxedStrategy<u32> {
    prop_oneof![1 => any::<u32>(), 1 => 0u32..8, 1 => 0u32..64].boxed()
}

/// a hash too weak to tell calls apart by
fn weak() -> BoxedStrategy<Weak> {
    let odd = prop::sample::select(pool().nums.clone()).prop_map(|n| n | 1);
    let (m, init): (Vec<u64>, Vec<u64>) = (
        vec![0x0100_0193, 0x0100_0000_01b3, 33, 31, 65599, 131, 0x9E37_79B9, 0x9E37_79B9_7F4A_7C15, 0x517c_c1b7_2722_0a95, 0x5bd1_e995],
        vec![0, 0x811c_9dc5, 0xcbf2_9ce4_8422_2325, 5381, 1, 7, 17],
    );
    let set = prop_oneof![
        3 => prop::sample::select(vec![(0x0100_0193u64, 0x811c_9dc5u64), (0x0100_0000_01b3, 0xcbf2_9ce4_8422_2325), (33, 5381), (31, 0)]),
        1 => (prop_oneof![prop::sample::select(m), odd], prop_oneof![2 => prop::sample::select(init), 1 => prop::sample::select(pool().nums.clone())]),
    ];
    // those that hash with BLAKE take longer to make
    let kind = prop_oneof![1 => 7u8..=8, 14 => 0u8..7, 16 => 9u8..crate::weak::KINDS];
    (kind, set, 0u8..3, any::<u64>()).prop_map(|(kind, (m, init), fold, seed)| Weak { kind, m, init, fold, seed }).boxed()
}

fn mutation() -> BoxedStrategy<Mutation> {
    let delta = prop_oneof![Just(1i64), Just(-1i64), -4i64..=4, (0u32..14).prop_map(|b| 1i64 << b), (0u32..14).prop_map(|b| -(1i64 << b)), (1i64..20).prop_map(|b| b * 96), Just(1i64 << 16)];
    prop_oneof![
        6 => (any::<bool>(), any::<u32>(), 0u8..8).prop_map(|(salt, pos, bit)| Mutation::FlipBit { salt, pos, bit }),
        2 => (any::<bool>(), 0u32..64, 0u8..8).prop_map(|(salt, pos, bit)| Mutation::FlipBit { salt, pos, bit }),
        2 => (any::<bool>(), any::<u32>(), prop_oneof![Just(0u8), Just(0xff), any::<u8>()]).prop_map(|(salt, pos, val)| Mutation::SetByte { salt, pos, val }),
        2 => (any::<bool>(), prop_oneof![Just(0u8), Just(0x80), any::<u8>()]).prop_map(|(salt, byte)| Mutation::Append { salt, byte }),
        1 => (any::<bool>(), prop_oneof![Just(0u8), any::<u8>()]).prop_map(|(salt, byte)| Mutation::Prepend { salt, byte }),
        2 => (any::<bool>(), prop_oneof![4 => prop_oneof![Just(1u32), Just(8u32), 1u32..40], 1 => prop_oneof![(3u32..17).prop_map(|b| 1 << b), Just(u32::MAX)]]).prop_map(|(salt, n)| Mutation::Truncate { salt, n }),
        3 => (
            prop_oneof![
                2 => prop_oneof![Just(8u32), Just(1u32), 1u32..80],
                2 => prop_oneof![(3u32..17).prop_map(|b| 1 << b), (1u32..9).prop_map(|b| b * 256), Just(u32::MAX)],
            ],
            any::<bool>(),
        )
            .prop_map(|(n, to_pwd)| Mutation::Shift { n, to_pwd }),
        1 => any::<bool>().prop_map(|salt| Mutation::Double { salt }),
        1 => any::<bool>().prop_map(|salt| Mutation::Reverse { salt }),
        2 => (any::<bool>(), near(), near(), prop_oneof![Just(1u8), Just(4), Just(8), Just(64)]).prop_map(|(salt, a, b, width)| Mutation::Swap { salt, a, b, width }),
        3 => (any::<bool>(), near(), near(), 0u8..8, any::<bool>()).prop_map(|(salt, a, b, bit, sum)| Mutation::Twin { salt, a, b, bit, sum }),
        1 => (any::<bool>(), prop_oneof![Just(1u32), Just(4), Just(8), Just(16), Just(32), Just(64), 0u32..300], 1u8..=255).prop_map(|(salt, keep, byte)| Mutation::Middle { salt, keep, byte }),
        1 => (any::<bool>(), prop_oneof![Just(1u32), Just(8), any::<u32>()]).prop_map(|(salt, n)| Mutation::Rotate { salt, n }),
        1 => (any::<bool>(), weak()).prop_map(|(salt, w)| Mutation::Words { salt, w }),
        1 => (any::<bool>(), weak(), prop_oneof![Just(31u64), Just(33), Just(37), Just(65), Just(131), 1u64..=255]).prop_map(|(salt, w, m)| Mutation::Poly { salt, w: Weak { m, ..w } }),
        1 => Just(Mutation::SwapPwdSalt),
        2 => delta.clone().prop_map(Mutation::K),
        2 => delta.clone().prop_map(Mutation::T),
        2 => delta.clone().prop_map(Mutation::R),
        2 => delta.prop_map(Mutation::C),
        1 => Just(Mutation::SwapRC),
    ]
    .boxed()
}

fn chain_len() -> BoxedStrategy<u32> {
    let max = 1u64 << 22;
    prop_oneof![
        24000 => len_long(16, 400),
        8000 => Just(80u32),
        3 => prop_oneof![
            2 => pow2ish(16, 22, 70),
            2 => loguniform(22),
            1 => prop::sample::select(pooled(max)),
        ].prop_map(|n| n as u32),
    ]
    .boxed()
}

fn hash_call(max_bits: u32) -> BoxedStrategy<Call> {
    (algo(), blob(len(max_bits))).prop_map(|(a, b)| Call::Hash(a, b)).boxed()
}

/// Matrices and inputs above the sizes of the coins' chains, still quick.
fn larger_call() -> BoxedStrategy<Call> {
    let r = (
        k_any(0),
        1u64..=2,
        prop_oneof![3u64..=9, 3u64..=70, Just(8u64), Just(16u64), Just(64u64)],
        prop_oneof![1u64..=70, Just(8u64), Just(16u64), Just(64u64), Just(256u64), 1u64..=300],
        blob(len_long(14, 12)),
        prop_oneof![blob(len_long(14, 12)).prop_map(Some), Just(None)],
    )
        .prop_map(|(k, t, r, c, pwd, salt)| Call::Lyra(affordable(Req { k, pwd, salt, t, r, c }, 1 << 11)));
    prop_oneof![3 => r, 1 => (algo(), blob(len_long(17, 1))).prop_map(|(a, b)| Call::Hash(a, b))].boxed()
}

/// one size far beyond the usual
fn huge_call() -> BoxedStrategy<Call> {
    let l = || blob(pow2ish(16, 20, 9).prop_map(|n| n as u32).boxed());
    prop_oneof![
        2 => (pow2ish(16, 21, 9), small_req(0)).prop_map(|(k, r)| Call::Lyra(Req { k, ..r })),
        2 => (l(), small_req(0)).prop_map(|(pwd, r)| Call::Lyra(Req { pwd, ..r })),
        2 => (algo(), l()).prop_map(|(a, b)| Call::Hash(a, b)),
        1 => (pow2ish(8, 15, 9), small_req(0)).prop_map(|(t, r)| Call::Lyra(Req { t, r: 3, c: 1, ..r })),
        1 => (pow2ish(8, 15, 9), small_req(0)).prop_map(|(r, q)| Call::Lyra(Req { t: 1, r, c: 1, ..q })),
        1 => (pow2ish(8, 14, 9), small_req(0)).prop_map(|(c, q)| Call::Lyra(Req { t: 1, r: 3, c, ..q })),
    ]
    .boxed()
}

fn ops(max: usize, refused: u32) -> BoxedStrategy<Vec<Op>> {
    let near = prop_oneof![
        9 => mutation(),
        3 => algo().prop_map(Mutation::Algo),
    ];
    let op = prop_oneof![
        7 => hash_call(10).prop_map(Op::Fresh),
        6 => small_req(0).prop_map(|r| Op::Fresh(Call::Lyra(r))),
        1 => larger_call().prop_map(Op::Fresh),
        5 => any::<u8>().prop_map(Op::Repeat),
        8 => (any::<u8>(), near).prop_map(|(i, m)| Op::Near(i, m)),
        refused => bad_req().prop_map(Op::Refused),
    ];
    let plain = vec(op, 2..=max);
    // now and then a pair of calls that a weak hash takes for one
    let pair = (any::<u8>(), any::<u8>(), any::<u8>(), weak());
    (plain, prop_oneof![200 => Just(None), 1 => pair.prop_map(Some)])
        .prop_map(|(mut v, pair)| {
            if let Some((i, a, b, w)) = pair {
                let at = |x: u8, n: usize| 1 + x as usize % n;
                let (a, b) = (at(a, v.len()), at(b, v.len()));
                // an earlier call both are made from
                let i = (i as usize % a.min(b)) as u8;
                v.insert(a.max(b), Op::Colliding(i, w.clone(), true));
                v.insert(a.min(b), Op::Colliding(i, w, false));
            }
            v
        })
        .boxed()
}

pub fn strategy(prop: &str) -> BoxedStrategy<Case> {
    let chain = |a: Algo| blob(chain_len()).prop_map(move |b| Case::Call(Call::Hash(a, b))).boxed();
    match prop {
        "C01" => req(ReqOpts { k_min: 0, len_multiple: 8, big: 14, huge: 2 }).prop_map(|r| Case::Call(Call::Lyra(r))).boxed(),
        "C02" => {
            let lyra = req(ReqOpts { k_min: 0, len_multiple: 1, big: 6, huge: 1 }).prop_map(|r| Case::Call(Call::Lyra(r)));
            let sum = blob(len_long(16, 200)).prop_map(|b| Case::Call(Call::Hash(Algo::Sum, b)));
            prop_oneof![4 => lyra, 1 => sum].boxed()
        }
        "C03" => blob(len_long(16, 200)).prop_map(|b| Case::Call(Call::Hash(Algo::Sum, b))).boxed(),
        "C04" => chain(Algo::Re),
        "C05" => chain(Algo::Rev2),
        "C06" => chain(Algo::Rev3),
        "C07" => chain(Algo::Z),
        "C08" => blob(Just(32u32).boxed()).prop_map(|b| Case::Stage(Stage::Cube, Blob { len: 32, ..b })).boxed(),
        "C09" => blob(prop_oneof![2 => Just(32u32), 3 => 0u32..=55].boxed())
            .prop_map(|b| Case::Stage(Stage::Bmw, Blob { len: b.len.min(55), ..b }))
            .boxed(),
        "C10" => {
            let call = prop_oneof![
                3 => (algo(), blob(len_long(14, 300))).prop_map(|(a, b)| Call::Hash(a, b)),
                5 => req(ReqOpts { k_min: 32, len_multiple: 1, big: 4, huge: 1 }).prop_map(Call::Lyra),
            ];
            (call, vec(mutation(), 1..=2)).prop_map(|(c, m)| Case::Pair(c, m)).boxed()
        }
        "C11" => {
            let sums = (algo(), blob(chain_len())).prop_map(|(a, b)| Call::Hash(a, b));
            prop_oneof![
                3 => req(ReqOpts { k_min: 0, len_multiple: 1, big: 4, huge: 2 }).prop_map(Call::Lyra),
                3 => (prop_oneof![0u64..2000, around((0u64..400).prop_map(|b| b * 96), 1), k_any(0)], small_req(0))
                    .prop_map(|(k, r)| Call::Lyra(Req { k, ..r })),
                2 => sums,
            ]
            .prop_map(Case::Call)
            .boxed()
        }
        "FIRST" => prop_oneof![
            4 => small_req(0).prop_map(|q| Call::Lyra(Req { k: q.k.min(200), c: 1 + q.c % 2, r: q.r.min(5), ..q })),
            5 => (algo(), blob(len(9))).prop_map(|(a, b)| Call::Hash(a, b)),
            1 => bad_req().prop_map(Call::Lyra),
        ]
        .prop_map(Case::Call)
        .boxed(),
        "C12" => bad_req().prop_map(|r| Case::Call(Call::Lyra(r))).boxed(),
        "C13" => ops(14, 2).prop_map(Case::History).boxed(),
        "C14" => (ops(7, 1), prop_oneof![30 => 2u8..=8, 1 => 9u8..=40], 1u8..=12).prop_map(|(ops, threads, reps)| Case::Conc { ops, threads, reps }).boxed(),
        "C15" => {
            let sums = (algo(), blob(chain_len())).prop_map(|(a, b)| Call::Hash(a, b));
            prop_oneof![
                3 => req(ReqOpts { k_min: 0, len_multiple: 1, big: 14, huge: 2 }).prop_map(Call::Lyra),
                2 => sums,
            ]
            .prop_map(Case::Call)
            .boxed()
        }
        "C18" => {
            let call = prop_oneof![
                3 => req(ReqOpts { k_min: 0, len_multiple: 1, big: 60, huge: 12 }).prop_map(Call::Lyra),
                2 => bad_req().prop_map(Call::Lyra),
                3 => (algo(), blob(chain_len())).prop_map(|(a, b)| Call::Hash(a, b)),
            ];
            (call, prop_oneof![6 => Just(1u16), 6 => 2u16..20, 1 => 100u16..3000]).prop_map(|(call, n)| Case::Mem { call, n }).boxed()
        }
        "C19" => {
            let good = req(ReqOpts { k_min: 0, len_multiple: 1, big: 10, huge: 1 }).prop_map(|mut q| {
                q.k = if q.k > 96 { q.k % 97 } else { q.k };
                q.r = q.r.next_power_of_two().max(4);
                // the input must fit in the matrix
                let room = (q.r * q.c * 96 / 64 * 64 - 48) as u32;
                let room = room - 1;
                if q.pwd.len as u64 + q.salt_len() as u64 > room as u64 {
                    let half = room / 2;
                    q.pwd.len %= half + 1;
                    if let Some(s) = q.salt.as_mut() {
                        s.len %= half + 1;
                    }
                }
                Case::Mod(q)
            });
            let bad = bad_req().prop_map(|mut q| {
                // no minimum for the columns here
                q.c = q.c.max(1);
                if q.t != 0 && q.r >= 3 {
                    q.t = 0;
                }
                Case::Mod(q)
            });
            prop_oneof![12 => good, 1 => bad].boxed()
        }
        // calls for generated surroundings
        "W20" => prop_oneof![
            70 => hash_call(11),
            60 => small_req(0).prop_map(Call::Lyra),
            20 => larger_call(),
            10 => bad_req().prop_map(Call::Lyra),
            1 => huge_call(),
        ]
        .prop_map(Case::Call)
        .boxed(),
        // every size at once, for the cost
        "C21" => {
            let size = |b: u32| prop_oneof![2 => loguniform(b), 1 => pow2ish(3, b, 9), 1 => prop::sample::select(pooled(1 << b))];
            let l = |b: u32| blob(size(b).prop_map(|n| n as u32).boxed());
            let lyra = (size(18), size(18), size(18), size(18), l(19), prop_oneof![3 => l(19).prop_map(Some), 1 => Just(None)], 0u8..8)
                .prop_map(|(k, t, r, c, pwd, salt, keep)| {
                    // one, two or all three of the costs
                    let (mut t, mut r, mut c) = (t.max(1), r.max(3), c.max(1));
                    if keep & 1 == 0 {
                        t = 1 + t % 2;
                    }
                    if keep & 2 == 0 {
                        r = 3 + r % 6;
                    }
                    if keep & 4 == 0 {
                        c = 1 + c % 4;
                    }
                    let cap = 1u64 << 18;
                    r = r.min(cap);
                    c = c.min((cap / r).max(1));
                    t = t.min((cap / (r * c)).max(1));
                    Call::Lyra(Req { k, pwd, salt, t, r, c })
                });
            let sums = (algo(), l(22)).prop_map(|(a, b)| Call::Hash(a, b));
            prop_oneof![8 => lyra, 3 => sums, 1 => bad_req().prop_map(Call::Lyra)].prop_map(Case::Call).boxed()
        }
        // valid, but no machine can answer them soon: only their refusal shows
        "HT" => {
            let t = prop_oneof![
                3 => (1u64..=u32::MAX as u64).prop_map(|x| x << 32),
                3 => (1u64..=u32::MAX as u64, 0u64..4).prop_map(|(x, d)| (x << 32) + d),
                2 => around((32u32..=62).prop_map(|p| 1u64 << p), 3).prop_map(|t| t.max(1 << 32)),
                1 => (0u64..4).prop_map(|d| (1 << 63) + d),
                1 => (0u64..4).prop_map(|d| u64::MAX - d),
            ];
            (t, small_req(1)).prop_map(|(t, r)| Case::Call(Call::Lyra(Req { t, k: r.k.min(96), ..r }))).boxed()
        }
        // more memory than any machine has
        "C22" => {
            let big = || {
                prop_oneof![
                    3 => (1u64..=u32::MAX as u64, 0u64..20).prop_map(|(x, d)| (x << 32) + d),
                    3 => (0u32..32, 0u64..20).prop_map(|(p, d)| (1u64 << (32 + p)) + d),
                    2 => (0u32..30, 1u64..16, 0u64..20).prop_map(|(p, x, d)| (x << (34 + p) >> 1).wrapping_add(d)),
                    1 => (0u64..40).prop_map(|d| (1u64 << 63) + d),
                    1 => (0u64..20).prop_map(|d| u64::MAX - d),
                    // a third and a twelfth of 2^64, 2^63, ...: products with the block size that wrap
                    2 => (0u32..8, prop::sample::select(vec![3u64, 6, 12, 24, 48, 96]), 0u64..12).prop_map(|(p, q, d)| ((1u128 << (64 - p)) / q as u128 + d as u128) as u64),
                    1 => any::<u64>(),
                ]
            };
            let size = |lo: u64| prop_oneof![4 => lo..=lo + 8, 2 => pow2ish(2, 16, 3).prop_map(move |x| x.max(lo)), 1 => prop::sample::select(pooled(1 << 20)).prop_map(move |x| x.max(lo))];
            let r = prop_oneof![
                4 => (big(), size(1)),
                4 => (size(3), big()),
                3 => (big(), big()),
                // neither is impossible by itself
                2 => (pow2ish(16, 44, 9), pow2ish(16, 44, 9)),
            ];
            let lim = |x: u64, lo: u64| x.max(lo);
            prop_oneof![
                9 => (r, small_req(0), 1u64..4).prop_map(move |((r, c), q, t)| {
                    let (mut r, c) = (lim(r, 3), lim(c, 1));
                    if (r as u128) * (c as u128) < 1 << 35 {
                        r = r.wrapping_add(1 << 36);
                    }
                    Call::Lyra(Req { k: q.k.min(200), r, c, t, ..q })
                }),
                1 => (big(), small_req(0)).prop_map(|(k, q)| Call::Lyra(Req { k: if k < 1 << 41 { k << 20 | 1 << 41 } else { k }, ..q })),
            ]
            .prop_map(Case::Call)
            .boxed()
        }
        "HK" => {
            let k = prop_oneof![Just(1u64 << 32), (0u64..300).prop_map(|d| (1 << 32) + d)];
            (k, small_req(1)).prop_map(|(k, r)| Case::Call(Call::Lyra(Req { k, ..r }))).boxed()
        }
        // small requests for the slow interpreters
        "P14" | "P16" | "P17" => {
            let thin = prop == "P14";
            let long = if thin { 41u32..=140 } else { 141..=1200 };
            let l = prop_oneof![6 => Just(32u32), 12 => 0u32..=40, 4 => 41u32..=140, 2 => Just(80u32), 1 => long].boxed();
            let lr = (
                prop_oneof![6 => 0u64..=48, 2 => 90u64..=200, 1 => Just(32u64)],
                prop_oneof![3 => Just(1u64), 3 => 2u64..=3],
                prop_oneof![4 => 3u64..=7, 1 => 8u64..=13],
                prop_oneof![5 => Just(1u64), 3 => 2u64..=3, 1 => Just(4u64)],
                blob(l.clone()),
                prop_oneof![3 => blob(l.clone()).prop_map(Some), 1 => Just(None)],
            )
                .prop_map(|(k, t, r, c, pwd, salt)| Call::Lyra(Req { k, pwd, salt, t, r, c }));
            let h = (algo(), blob(l)).prop_map(move |(a, b)| Call::Hash(if thin && a == Algo::Z { Algo::Rev3 } else { a }, b));
            if prop != "P17" {
                prop_oneof![4 => lr, 3 => h].prop_map(Case::Call).boxed()
            } else {
                prop_oneof![8 => lr, 5 => h, 1 => bad_req().prop_map(|mut q| {
                    q.pwd.len %= 80;
                    q.salt = None;
                    Call::Lyra(q)
                })]
                .prop_map(Case::Call)
                .boxed()
            }
        }
        // requests of every size for a target that runs natively
        "W15" => {
            let sums = (algo(), blob(len_long(16, 100))).prop_map(|(a, b)| Call::Hash(a, b));
            prop_oneof![
                1 => req(ReqOpts { k_min: 0, len_multiple: 1, big: 14, huge: 2 }).prop_map(Call::Lyra),
                1 => sums,
            ]
            .prop_map(Case::Call)
            .boxed()
        }
        "W16" => {
            let sums = (algo(), blob(len_long(16, 100))).prop_map(|(a, b)| Call::Hash(a, b));
            prop_oneof![
                8 => req(ReqOpts { k_min: 0, len_multiple: 1, big: 14, huge: 2 }).prop_map(Call::Lyra),
                8 => sums,
                1 => bad_req().prop_map(Call::Lyra),
            ]
            .prop_map(Case::Call)
            .boxed()
        }
        // sanitizer runs: valid and refused calls of every kind
        "C17" => {
            let sums = (algo(), blob(chain_len())).prop_map(|(a, b)| Call::Hash(a, b));
            prop_oneof![
                8 => req(ReqOpts { k_min: 0, len_multiple: 1, big: 14, huge: 1 }).prop_map(Call::Lyra),
                5 => sums,
                1 => bad_req().prop_map(Call::Lyra),
            ]
            .prop_map(Case::Call)
            .boxed()
        }
        _ => panic!("unknown property {prop}"),
    }
}

fn seed_bytes(seed: u64, prop: &str, idx: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut h: u64 = 0xcbf29ce484222325;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    out[..8].copy_from_slice(&seed.to_le_bytes());
    out[8..16].copy_from_slice(&h.to_le_bytes());
    out[16..24].copy_from_slice(&idx.to_le_bytes());
    out
}

pub fn tree(s: &BoxedStrategy<Case>, seed: u64, prop: &str, idx: u64) -> NewTree<BoxedStrategy<Case>> {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, prop, idx));
    let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
    s.new_tree(&mut runner)
}

pub fn case(s: &BoxedStrategy<Case>, seed: u64, prop: &str, idx: u64) -> Case {
    tree(s, seed, prop, idx).expect("generator").current()
}
