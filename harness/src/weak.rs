//! Pairs of inputs that agree under the checksums and 32-bit hashes a cache or a table of calls
//! under way may be keyed by.
use crate::refmodel;
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Weak {
    pub kind: u8,
    /// multiplier and start of the multiplicative ones
    pub m: u64,
    pub init: u64,
    /// which 32 of the 64 bits
    pub fold: u8,
    pub seed: u64,
}

pub const KINDS: u8 = 14;

fn crc(x: &[u8], poly: u32) -> u32 {
    let mut c = !0u32;
    for &b in x {
        c ^= b as u32;
        for _ in 0..8 {
            c = (c >> 1) ^ (poly & (c & 1).wrapping_neg());
        }
    }
    !c
}

impl Weak {
    fn hash(&self, x: &[u8], other: &[u8]) -> u64 {
        let sip = |f: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            f(&mut h);
            h.finish()
        };
        match self.kind {
            0 => crc(x, 0xEDB8_8320) as u64,
            1 => crc(x, 0x82F6_3B78) as u64,
            2 => {
                let (mut a, mut b) = (1u32, 0u32);
                for &c in x {
                    a = (a + c as u32) % 65521;
                    b = (b + a) % 65521;
                }
                (b << 16 | a) as u64
            }
            // one at a time
            3 => {
                let mut h = 0u32;
                for &b in x {
                    h = h.wrapping_add(b as u32);
                    h = h.wrapping_add(h << 10);
                    h ^= h >> 6;
                }
                h = h.wrapping_add(h << 3);
                h ^= h >> 11;
                h.wrapping_add(h << 15) as u64
            }
            4 => sip(&|h| x.hash(h)),
            5 => sip(&|h| h.write(x)),
            6 => sip(&|h| {
                x.hash(h);
                other.hash(h)
            }),
            7 => {
                let d = refmodel::blake256(x);
                u64::from_le_bytes(d[..8].try_into().unwrap())
            }
            8 => {
                let d = refmodel::blake256(x);
                u32::from_be_bytes(d[..4].try_into().unwrap()) as u64
            }
            9 => x.iter().fold(self.init, |h, &b| (h ^ b as u64).wrapping_mul(self.m)),
            10 => x.iter().fold(self.init, |h, &b| h.wrapping_mul(self.m) ^ b as u64),
            11 => x.iter().fold(self.init, |h, &b| h.wrapping_mul(self.m).wrapping_add(b as u64)),
            12 => x.iter().fold(self.init, |h, &b| (h.rotate_left(5) ^ b as u64).wrapping_mul(self.m)),
            // 32 bits wide, rotated
            _ => x.iter().fold(self.init as u32, |h, &b| (h.rotate_left(5) ^ b as u32).wrapping_mul(self.m as u32 | 1)) as u64,
        }
    }

    fn key(&self, x: &[u8], other: &[u8]) -> u32 {
        let h = self.hash(x, other);
        match self.fold % 3 {
            0 => h as u32,
            1 if h >> 32 != 0 => (h >> 32) as u32,
            2 => (h ^ (h >> 32)) as u32,
            _ => h as u32,
        }
    }

    /// One of two endings of `x` of equal length that give the same key.
    pub fn ending(&self, x: &mut Vec<u8>, other: &[u8], second: bool) {
        x.truncate(128);
        if x.len() < 8 {
            x.resize(8, 0);
        }
        let at = x.len() - 8;
        let tail = |i: u32| {
            let z = (self.seed.wrapping_add(i as u64)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            let z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            (z ^ (z >> 29)).to_le_bytes()
        };
        let mut v: Vec<(u32, u32)> = (0..1u32 << 17)
            .map(|i| {
                x[at..].copy_from_slice(&tail(i));
                (self.key(x, other), i)
            })
            .collect();
        v.sort_unstable();
        let (a, b) = v.windows(2).find(|w| w[0].0 == w[1].0).map_or((0, 1), |w| (w[0].1, w[1].1));
        x[at..].copy_from_slice(&tail(if second { b } else { a }));
    }

    /// Two neighbouring words changed so that a chain of 64-bit steps over all words ends the same.
    pub fn words(&self, x: &mut [u8]) {
        let n = x.len() / 8;
        if n < 2 {
            return;
        }
        let i = (self.seed % (n as u64 - 1)) as usize;
        let w = |x: &[u8], j: usize| u64::from_le_bytes(x[8 * j..8 * j + 8].try_into().unwrap());
        let step = |h: u64, w: u64| match self.kind % 4 {
            0 => (h ^ w).wrapping_mul(self.m),
            1 => h.wrapping_mul(self.m) ^ w,
            2 => h.wrapping_mul(self.m).wrapping_add(w),
            _ => (h.rotate_left(5) ^ w).wrapping_mul(self.m),
        };
        let before = (0..i).fold(self.init, |h, j| step(h, w(x, j)));
        let (a, b) = (w(x, i), w(x, i + 1));
        let a2 = a ^ (1 << (self.seed >> 58));
        let (s, s2) = (step(before, a), step(before, a2));
        let b2 = match self.kind % 4 {
            0 => s2 ^ s ^ b,
            1 => s2.wrapping_mul(self.m) ^ s.wrapping_mul(self.m) ^ b,
            2 => s.wrapping_mul(self.m).wrapping_add(b).wrapping_sub(s2.wrapping_mul(self.m)),
            _ => s2.rotate_left(5) ^ s.rotate_left(5) ^ b,
        };
        x[8 * i..8 * i + 8].copy_from_slice(&a2.to_le_bytes());
        x[8 * i + 8..8 * i + 16].copy_from_slice(&b2.to_le_bytes());
    }

    /// Neighbouring bytes changed so that a polynomial in a small base keeps its value.
    pub fn poly(&self, x: &mut [u8]) {
        let base = self.m as u8;
        let n = x.len();
        if n < 2 || base == 0 {
            return;
        }
        // where neither byte wraps around, if there is such a place
        for d in 0..n - 1 {
            let i = ((self.seed % n as u64) as usize + d) % (n - 1);
            if x[i] < 255 && x[i + 1] >= base {
                x[i] += 1;
                x[i + 1] -= base;
                return;
            }
            if x[i] > 0 && x[i + 1] <= 255 - base {
                x[i] -= 1;
                x[i + 1] += base;
                return;
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    fn w(kind: u8, fold: u8) -> Weak {
        Weak { kind, m: 0x1000193, init: 0x811c9dc5, fold, seed: 99 }
    }

    #[test]
    fn pairs_collide() {
        for kind in 0..KINDS {
            for fold in 0..3 {
                let w = w(kind, fold);
                let (mut a, mut b) = (b"some header of a block".to_vec(), b"some header of a block".to_vec());
                w.ending(&mut a, b"s", false);
                w.ending(&mut b, b"s", true);
                assert_ne!(a, b);
                eprintln!("{kind} {fold} {}", w.key(&a, b"s") == w.key(&b, b"s"));
            }
        }
        for kind in 0..4 {
            let w = w(kind, 0);
            let x: Vec<u8> = (0..80).collect();
            let mut y = x.clone();
            w.words(&mut y);
            assert_ne!(x, y);
            let f = |x: &[u8]| {
                x.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).fold(w.init, |h, v| match kind {
                    0 => (h ^ v).wrapping_mul(w.m),
                    1 => h.wrapping_mul(w.m) ^ v,
                    2 => h.wrapping_mul(w.m).wrapping_add(v),
                    _ => (h.rotate_left(5) ^ v).wrapping_mul(w.m),
                })
            };
            assert_eq!(f(&x), f(&y), "{kind}");
        }
    }
}
