//! Reference implementations, written from the algorithms' specifications and
//! independent of the code under test and of the crates it uses.

// ---------------------------------------------------------------- Lyra2

const B2B_IV: [u64; 8] = [
    0x6a09e667f3bcc908,
    0xbb67ae8584caa73b,
    0x3c6ef372fe94f82b,
    0xa54ff53a5f1d36f1,
    0x510e527fade682d1,
    0x9b05688c2b3e6c1f,
    0x1f83d9abfb41bd6b,
    0x5be0cd19137e2179,
];

fn b2b_g(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize) {
    v[a] = v[a].wrapping_add(v[b]);
    v[d] = (v[d] ^ v[a]).rotate_right(32);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(24);
    v[a] = v[a].wrapping_add(v[b]);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(63);
}

fn b2b_rounds(v: &mut [u64; 16], n: usize) {
    for _ in 0..n {
        for i in 0..4 {
            b2b_g(v, i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            b2b_g(v, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pick {
    /// row* = first state word mod R (Lyra2).
    First,
    /// row* = state word found by a pointer walking through the state (Lyra2REv3).
    Walk,
}

/// pad(pwd || salt || basil): whole words of the two byte strings only.
/// pwd || salt (whole words) || basil || 0x80 0* 0x01, in blocks of 64 bytes
fn lyra2_absorb(k: u64, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64, f: &mut dyn FnMut(&[u8; 64])) {
    let mut tail = Vec::new();
    for x in [k, pwd.len() as u64, salt.len() as u64, t, r, c] {
        tail.extend_from_slice(&x.to_le_bytes());
    }
    tail.push(0x80);
    let blocks = (pwd.len() + salt.len() + 48) / 64 + 1;
    let (p, s) = (pwd.len() / 8 * 8, salt.len() / 8 * 8);
    tail.resize(blocks * 64 - p - s, 0);
    *tail.last_mut().unwrap() ^= 0x01;
    let mut blk = [0u8; 64];
    let mut fill = 0;
    for part in [&pwd[..p], &salt[..s], &tail[..]] {
        for w in part.chunks_exact(8) {
            blk[fill..fill + 8].copy_from_slice(w);
            fill += 8;
            if fill == 64 {
                f(&blk);
                fill = 0;
            }
        }
    }
    assert!(fill == 0);
}

pub fn lyra2(k: u64, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64, pick: Pick) -> Vec<u8> {
    let mut out = Vec::with_capacity(k as usize);
    lyra2_to(k, pwd, salt, t, r, c, pick, &mut |b| out.extend_from_slice(b));
    out
}

/// Hands the key over piece by piece.
#[allow(clippy::too_many_arguments)]
pub fn lyra2_to(k: u64, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64, pick: Pick, sink: &mut dyn FnMut(&[u8])) {
    assert!(t >= 1 && r >= 3 && c >= 1);
    let (rows, cols) = (r as usize, c as usize);
    let mut st = [0u64; 16];
    st[8..].copy_from_slice(&B2B_IV);

    lyra2_absorb(k, pwd, salt, t, r, c, &mut |blk| {
        for (i, w) in blk.chunks(8).enumerate() {
            st[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        b2b_rounds(&mut st, 12);
    });

    let mut m: Vec<[u64; 12]> = vec![[0; 12]; rows * cols];
    // M[0]: squeezed backwards
    for col in (0..cols).rev() {
        m[col].copy_from_slice(&st[..12]);
        b2b_rounds(&mut st, 1);
    }
    // M[1]: duplexed from M[0]
    for col in 0..cols {
        let src = m[col];
        for j in 0..12 {
            st[j] ^= src[j];
        }
        b2b_rounds(&mut st, 1);
        let dst = &mut m[cols + (cols - 1 - col)];
        for j in 0..12 {
            dst[j] = src[j] ^ st[j];
        }
    }
    // the remaining rows
    let (mut prev, mut rowa, mut step, mut window, mut gap) = (1usize, 0i128, 1i128, 2i128, 1i128);
    for row in 2..rows {
        let ra = rowa as usize;
        for col in 0..cols {
            let p = m[prev * cols + col];
            let q = m[ra * cols + col];
            for j in 0..12 {
                st[j] ^= p[j].wrapping_add(q[j]);
            }
            b2b_rounds(&mut st, 1);
            let dst = &mut m[row * cols + (cols - 1 - col)];
            for j in 0..12 {
                dst[j] = p[j] ^ st[j];
            }
            let dst = &mut m[ra * cols + col];
            for j in 0..12 {
                dst[j] ^= st[(j + 11) % 12];
            }
        }
        rowa = (rowa + step).rem_euclid(window);
        prev = row;
        if rowa == 0 {
            step = window + gap;
            window *= 2;
            gap = -gap;
        }
    }
    // wandering
    let mut row = 0usize;
    let mut ra = 0usize;
    let mut ptr = 0u64;
    for tau in 1..=t {
        let step: i128 = if tau % 2 == 0 { -1 } else { r as i128 / 2 - 1 };
        loop {
            let sel = match pick {
                Pick::First => st[0],
                Pick::Walk => {
                    ptr = st[(ptr & 15) as usize];
                    st[(ptr & 15) as usize]
                }
            };
            ra = (sel % r) as usize;
            for col in 0..cols {
                let p = m[prev * cols + col];
                let q = m[ra * cols + col];
                for j in 0..12 {
                    st[j] ^= p[j].wrapping_add(q[j]);
                }
                b2b_rounds(&mut st, 1);
                let dst = &mut m[row * cols + col];
                for j in 0..12 {
                    dst[j] ^= st[j];
                }
                let dst = &mut m[ra * cols + col];
                for j in 0..12 {
                    dst[j] ^= st[(j + 11) % 12];
                }
            }
            prev = row;
            row = (row as i128 + step).rem_euclid(r as i128) as usize;
            if row == 0 {
                break;
            }
        }
    }
    // wrap-up
    for j in 0..12 {
        st[j] ^= m[ra * cols][j];
    }
    b2b_rounds(&mut st, 12);
    let mut left = k;
    while left > 0 {
        let mut blk = [0u8; 96];
        for (i, w) in st[..12].iter().enumerate() {
            blk[8 * i..8 * i + 8].copy_from_slice(&w.to_le_bytes());
        }
        let n = left.min(96);
        sink(&blk[..n as usize]);
        left -= n;
        b2b_rounds(&mut st, 12);
    }
}

// ---------------------------------------------------------------- BLAKE-256

const BLAKE_C: [u32; 16] = [
    0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344, 0xA4093822, 0x299F31D0, 0x082EFA98, 0xEC4E6C89,
    0x452821E6, 0x38D01377, 0xBE5466CF, 0x34E90C6C, 0xC0AC29B7, 0xC97C50DD, 0x3F84D5B5, 0xB5470917,
];
const BLAKE_SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

pub fn blake256(msg: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB,
        0x5BE0CD19,
    ];
    let bits = msg.len() as u64 * 8;
    let (whole, rest) = msg.split_at(msg.len() / 64 * 64);
    let mut data = rest.to_vec();
    data.push(0x80);
    while data.len() % 64 != 56 {
        data.push(0);
    }
    let n = data.len();
    data[n - 1] |= 1;
    data.extend_from_slice(&bits.to_be_bytes());
    for (b, blk) in whole.chunks(64).chain(data.chunks(64)).enumerate() {
        let mut m = [0u32; 16];
        for (i, c) in blk.chunks(4).enumerate() {
            m[i] = u32::from_be_bytes(c.try_into().unwrap());
        }
        // the counter: message bits hashed so far, 0 for a block with none
        let start = 64 * b as u64 * 8;
        let end = (64 * (b as u64 + 1) * 8).min(bits);
        let t = if end > start { end } else { 0 };
        let mut v = [0u32; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&BLAKE_C[..8]);
        v[12] ^= t as u32;
        v[13] ^= t as u32;
        v[14] ^= (t >> 32) as u32;
        v[15] ^= (t >> 32) as u32;
        for r in 0..14 {
            let s = &BLAKE_SIGMA[r % 10];
            let mut g = |i: usize, a: usize, b: usize, c: usize, d: usize| {
                v[a] = v[a]
                    .wrapping_add(v[b])
                    .wrapping_add(m[s[2 * i]] ^ BLAKE_C[s[2 * i + 1]]);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(12);
                v[a] = v[a]
                    .wrapping_add(v[b])
                    .wrapping_add(m[s[2 * i + 1]] ^ BLAKE_C[s[2 * i]]);
                v[d] = (v[d] ^ v[a]).rotate_right(8);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(7);
            };
            g(0, 0, 4, 8, 12);
            g(1, 1, 5, 9, 13);
            g(2, 2, 6, 10, 14);
            g(3, 3, 7, 11, 15);
            g(4, 0, 5, 10, 15);
            g(5, 1, 6, 11, 12);
            g(6, 2, 7, 8, 13);
            g(7, 3, 4, 9, 14);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

// ---------------------------------------------------------------- Keccak-256

fn keccak_f(a: &mut [u64; 25]) {
    let mut lfsr: u8 = 1;
    let mut rc_bit = || {
        let out = lfsr & 1 != 0;
        lfsr = if lfsr & 0x80 != 0 { (lfsr << 1) ^ 0x71 } else { lfsr << 1 };
        out
    };
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = a[1];
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            x = nx;
            y = ny;
            let tmp = a[x + 5 * y];
            a[x + 5 * y] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = tmp;
        }
        for y in 0..5 {
            let row: Vec<u64> = (0..5).map(|x| a[x + 5 * y]).collect();
            for x in 0..5 {
                a[x + 5 * y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        for j in 0..7 {
            if rc_bit() {
                a[0] ^= 1u64 << ((1u32 << j) - 1);
            }
        }
    }
}

pub fn keccak256(msg: &[u8]) -> [u8; 32] {
    const RATE: usize = 136;
    let mut data = msg.to_vec();
    data.push(0x01);
    while data.len() % RATE != 0 {
        data.push(0);
    }
    *data.last_mut().unwrap() |= 0x80;
    let mut a = [0u64; 25];
    for blk in data.chunks(RATE) {
        for (i, w) in blk.chunks(8).enumerate() {
            a[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        keccak_f(&mut a);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    out
}

// ---------------------------------------------------------------- Skein-512-256

fn threefish512(key: &[u64; 8], tweak: [u64; 2], p: &[u64; 8]) -> [u64; 8] {
    const ROT: [[u32; 4]; 8] = [
        [46, 36, 19, 37],
        [33, 27, 14, 42],
        [17, 49, 36, 39],
        [44, 9, 54, 56],
        [39, 30, 34, 24],
        [13, 50, 10, 17],
        [25, 29, 39, 43],
        [8, 35, 56, 22],
    ];
    const PERM: [usize; 8] = [2, 1, 4, 7, 6, 5, 0, 3];
    let mut k = [0u64; 9];
    k[..8].copy_from_slice(key);
    k[8] = key.iter().fold(0x1BD11BDAA9FC1A22, |a, b| a ^ b);
    let t = [tweak[0], tweak[1], tweak[0] ^ tweak[1]];
    let inject = |v: &mut [u64; 8], s: usize| {
        for i in 0..8 {
            v[i] = v[i].wrapping_add(k[(s + i) % 9]);
        }
        v[5] = v[5].wrapping_add(t[s % 3]);
        v[6] = v[6].wrapping_add(t[(s + 1) % 3]);
        v[7] = v[7].wrapping_add(s as u64);
    };
    let mut v = *p;
    for d in 0..72 {
        if d % 4 == 0 {
            inject(&mut v, d / 4);
        }
        let mut f = [0u64; 8];
        for j in 0..4 {
            let a = v[2 * j].wrapping_add(v[2 * j + 1]);
            f[2 * j] = a;
            f[2 * j + 1] = v[2 * j + 1].rotate_left(ROT[d % 8][j]) ^ a;
        }
        for i in 0..8 {
            v[i] = f[PERM[i]];
        }
    }
    inject(&mut v, 18);
    v
}

fn skein_ubi(g: &mut [u64; 8], msg: &[u8], ty: u64) {
    let nblk = msg.len().div_ceil(64).max(1);
    let mut pos = 0u64;
    for b in 0..nblk {
        let part = &msg[64 * b..msg.len().min(64 * b + 64)];
        pos += part.len() as u64;
        let mut buf = [0u8; 64];
        buf[..part.len()].copy_from_slice(part);
        let mut w = [0u64; 8];
        for (i, c) in buf.chunks(8).enumerate() {
            w[i] = u64::from_le_bytes(c.try_into().unwrap());
        }
        let mut t1 = ty << 56;
        if b == 0 {
            t1 |= 1 << 62;
        }
        if b == nblk - 1 {
            t1 |= 1 << 63;
        }
        let e = threefish512(g, [pos, t1], &w);
        for i in 0..8 {
            g[i] = e[i] ^ w[i];
        }
    }
}

pub fn skein512_256(msg: &[u8]) -> [u8; 32] {
    let mut g = [0u64; 8];
    let mut cfg = [0u8; 32];
    cfg[..4].copy_from_slice(b"SHA3");
    cfg[4] = 1;
    cfg[8..16].copy_from_slice(&256u64.to_le_bytes());
    skein_ubi(&mut g, &cfg, 4);
    skein_ubi(&mut g, msg, 48);
    skein_ubi(&mut g, &0u64.to_le_bytes(), 63);
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&g[i].to_le_bytes());
    }
    out
}

// ---------------------------------------------------------------- Groestl-256

fn gf_mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}

struct GroestlTables {
    sbox: [u8; 256],
    mul: [[u8; 256]; 8],
}

fn groestl_tables() -> &'static GroestlTables {
    static T: std::sync::OnceLock<GroestlTables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut sbox = [0u8; 256];
        for x in 0..256 {
            let inv = (0..256).find(|&y| gf_mul(x as u8, y as u8) == 1).unwrap_or(0) as u8;
            sbox[x] = inv
                ^ inv.rotate_left(1)
                ^ inv.rotate_left(2)
                ^ inv.rotate_left(3)
                ^ inv.rotate_left(4)
                ^ 0x63;
        }
        let mut mul = [[0u8; 256]; 8];
        for (f, row) in mul.iter_mut().enumerate() {
            for (x, e) in row.iter_mut().enumerate() {
                *e = gf_mul(x as u8, f as u8);
            }
        }
        GroestlTables { sbox, mul }
    })
}

/// state[col][row]
fn groestl_perm(s: &mut [[u8; 8]; 8], q: bool) {
    const SHIFT_P: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
    const SHIFT_Q: [usize; 8] = [1, 3, 5, 7, 0, 2, 4, 6];
    const CIRC: [usize; 8] = [2, 2, 3, 4, 5, 3, 5, 7];
    let t = groestl_tables();
    for r in 0..10u8 {
        for c in 0..8 {
            if q {
                for b in s[c].iter_mut() {
                    *b ^= 0xff;
                }
                s[c][7] ^= ((c as u8) << 4) ^ r;
            } else {
                s[c][0] ^= ((c as u8) << 4) ^ r;
            }
        }
        let sh = if q { &SHIFT_Q } else { &SHIFT_P };
        let mut n = [[0u8; 8]; 8];
        for c in 0..8 {
            for row in 0..8 {
                n[c][row] = t.sbox[s[(c + sh[row]) % 8][row] as usize];
            }
        }
        for c in 0..8 {
            for row in 0..8 {
                let mut v = 0;
                for k in 0..8 {
                    v ^= t.mul[CIRC[k]][n[c][(row + k) % 8] as usize];
                }
                s[c][row] = v;
            }
        }
    }
}

pub fn groestl256(msg: &[u8]) -> [u8; 32] {
    let mut data = msg.to_vec();
    data.push(0x80);
    while data.len() % 64 != 56 {
        data.push(0);
    }
    let blocks = (data.len() + 8) / 64;
    data.extend_from_slice(&(blocks as u64).to_be_bytes());
    let to_state = |b: &[u8]| {
        let mut s = [[0u8; 8]; 8];
        for i in 0..64 {
            s[i / 8][i % 8] = b[i];
        }
        s
    };
    let xor = |a: &[[u8; 8]; 8], b: &[[u8; 8]; 8]| {
        let mut s = *a;
        for i in 0..64 {
            s[i / 8][i % 8] ^= b[i / 8][i % 8];
        }
        s
    };
    let mut h = [[0u8; 8]; 8];
    h[7][6] = 0x01; // 256 as a 512-bit big-endian number
    for blk in data.chunks(64) {
        let m = to_state(blk);
        let mut p = xor(&h, &m);
        let mut qq = m;
        groestl_perm(&mut p, false);
        groestl_perm(&mut qq, true);
        h = xor(&xor(&h, &p), &qq);
    }
    let mut p = h;
    groestl_perm(&mut p, false);
    h = xor(&h, &p);
    let mut out = [0u8; 32];
    for i in 0..32 {
        out[i] = h[4 + i / 8][i % 8];
    }
    out
}

// ---------------------------------------------------------------- CubeHash16/32-256

fn cube_round(x: &mut [u32; 32]) {
    for half in 0..2 {
        let rot = if half == 0 { 7 } else { 11 };
        for i in 0..16 {
            x[16 + i] = x[16 + i].wrapping_add(x[i]);
        }
        for v in x[..16].iter_mut() {
            *v = v.rotate_left(rot);
        }
        let swap = if half == 0 { 8 } else { 4 };
        for i in 0..16 {
            if i & swap == 0 {
                x.swap(i, i | swap);
            }
        }
        for i in 0..16 {
            x[i] ^= x[16 + i];
        }
        let swap = if half == 0 { 2 } else { 1 };
        for i in 16..32 {
            if i & swap == 0 {
                x.swap(i, i | swap);
            }
        }
    }
}

pub fn cubehash_iv() -> [u32; 32] {
    static IV: std::sync::OnceLock<[u32; 32]> = std::sync::OnceLock::new();
    *IV.get_or_init(|| {
        let mut x = [0u32; 32];
        x[0] = 32; // h/8
        x[1] = 32; // b
        x[2] = 16; // r
        for _ in 0..160 {
            cube_round(&mut x);
        }
        x
    })
}

pub fn cubehash256(msg: &[u8]) -> [u8; 32] {
    let mut x = cubehash_iv();
    let mut data = msg.to_vec();
    data.push(0x80);
    while data.len() % 32 != 0 {
        data.push(0);
    }
    for blk in data.chunks(32) {
        for (i, w) in blk.chunks(4).enumerate() {
            x[i] ^= u32::from_le_bytes(w.try_into().unwrap());
        }
        for _ in 0..16 {
            cube_round(&mut x);
        }
    }
    x[31] ^= 1;
    for _ in 0..160 {
        cube_round(&mut x);
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&x[i].to_le_bytes());
    }
    out
}

// ---------------------------------------------------------------- BMW-256 (tweaked)

fn bmw_s(n: usize, x: u32) -> u32 {
    match n {
        0 => (x >> 1) ^ (x << 3) ^ x.rotate_left(4) ^ x.rotate_left(19),
        1 => (x >> 1) ^ (x << 2) ^ x.rotate_left(8) ^ x.rotate_left(23),
        2 => (x >> 2) ^ (x << 1) ^ x.rotate_left(12) ^ x.rotate_left(25),
        3 => (x >> 2) ^ (x << 2) ^ x.rotate_left(15) ^ x.rotate_left(29),
        4 => (x >> 1) ^ x,
        _ => (x >> 2) ^ x,
    }
}

fn bmw_compress(h: &[u32; 16], m: &[u32; 16]) -> [u32; 16] {
    // W_i = sum of signed (M_j ^ H_j); a negative entry -j-1 means minus
    const W: [[i32; 5]; 16] = [
        [5, -8, 10, 13, 14],
        [6, -9, 11, 14, -16],
        [0, 7, 9, -13, 15],
        [0, -2, 8, -11, 13],
        [1, 2, 9, -12, -15],
        [3, -3, 10, -13, 15],
        [4, -1, -4, -12, 13],
        [1, -5, -6, -13, -15],
        [2, -6, -7, 13, -16],
        [0, -4, 6, -8, 14],
        [8, -2, -5, -8, 15],
        [8, -1, -3, -6, 9],
        [1, 3, -7, -10, 10],
        [2, 4, 7, 10, 11],
        [3, -6, 8, -12, -13],
        [12, -5, -7, -10, 13],
    ];
    const R: [u32; 7] = [3, 7, 13, 16, 19, 23, 27];
    let mut q = [0u32; 32];
    for i in 0..16 {
        let mut w = 0u32;
        for &e in &W[i] {
            if e >= 0 {
                w = w.wrapping_add(m[e as usize] ^ h[e as usize]);
            } else {
                let j = (-e - 1) as usize;
                w = w.wrapping_sub(m[j] ^ h[j]);
            }
        }
        q[i] = bmw_s(i % 5, w).wrapping_add(h[(i + 1) % 16]);
    }
    for i in 16..32usize {
        let j = i - 16;
        let rm = |x: usize| m[x % 16].rotate_left((x % 16) as u32 + 1);
        let add = rm(j)
            .wrapping_add(rm(j + 3))
            .wrapping_sub(rm(j + 10))
            .wrapping_add((i as u32).wrapping_mul(0x05555555))
            ^ h[(j + 7) % 16];
        let mut v = add;
        if i < 18 {
            for k in 0..16 {
                v = v.wrapping_add(bmw_s((k + 1) % 4, q[j + k]));
            }
        } else {
            for k in 0..14 {
                let x = q[j + k];
                v = v.wrapping_add(if k % 2 == 0 { x } else { x.rotate_left(R[k / 2]) });
            }
            v = v.wrapping_add(bmw_s(4, q[i - 2]));
            v = v.wrapping_add(bmw_s(5, q[i - 1]));
        }
        q[i] = v;
    }
    let xl = q[16..24].iter().fold(0, |a, b| a ^ b);
    let xh = q[24..32].iter().fold(xl, |a, b| a ^ b);
    let sh = |x: u32, s: i32| if s >= 0 { x << s } else { x >> -s };
    const SX: [i32; 8] = [5, -7, -5, -1, -3, 6, -4, -11];
    const SQ: [i32; 8] = [-5, 8, 5, 5, 0, -6, 6, 2];
    const SL: [i32; 8] = [8, -6, 6, 4, -3, -4, -7, -2];
    let mut o = [0u32; 16];
    for i in 0..8 {
        o[i] = (sh(xh, SX[i]) ^ sh(q[16 + i], SQ[i]) ^ m[i]).wrapping_add(xl ^ q[24 + i] ^ q[i]);
    }
    for i in 0..8 {
        o[8 + i] = o[(i + 4) % 8]
            .rotate_left(9 + i as u32)
            .wrapping_add(xh ^ q[24 + i] ^ m[8 + i])
            .wrapping_add(sh(xl, SL[i]) ^ q[16 + (i + 7) % 8] ^ q[8 + i]);
    }
    o
}

pub fn bmw256(msg: &[u8]) -> [u8; 32] {
    let mut h = [0u32; 16];
    for i in 0..16u32 {
        h[i as usize] = 0x40414243u32.wrapping_add(i.wrapping_mul(0x04040404));
    }
    let mut data = msg.to_vec();
    data.push(0x80);
    while data.len() % 64 != 56 {
        data.push(0);
    }
    data.extend_from_slice(&(msg.len() as u64 * 8).to_le_bytes());
    for blk in data.chunks(64) {
        let mut m = [0u32; 16];
        for (i, w) in blk.chunks(4).enumerate() {
            m[i] = u32::from_le_bytes(w.try_into().unwrap());
        }
        h = bmw_compress(&h, &m);
    }
    let mut fin = [0u32; 16];
    for i in 0..16u32 {
        fin[i as usize] = 0xaaaaaaa0 + i;
    }
    let o = bmw_compress(&fin, &h);
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&o[8 + i].to_le_bytes());
    }
    out
}

// ---------------------------------------------------------------- chains

fn l2(d: &[u8], t: u64, r: u64, c: u64, p: Pick) -> Vec<u8> {
    lyra2(32, d, d, t, r, c, p)
}

pub fn lyra2_sum(x: &[u8]) -> Vec<u8> {
    l2(x, 1, 4, 4, Pick::First)
}
pub fn lyra2re(x: &[u8]) -> Vec<u8> {
    let d = keccak256(&blake256(x));
    groestl256(&skein512_256(&l2(&d, 1, 8, 8, Pick::First))).to_vec()
}
pub fn lyra2rev2(x: &[u8]) -> Vec<u8> {
    let d = cubehash256(&keccak256(&blake256(x)));
    bmw256(&cubehash256(&skein512_256(&l2(&d, 1, 4, 4, Pick::First)))).to_vec()
}
pub fn lyra2rev3(x: &[u8]) -> Vec<u8> {
    let d = l2(&blake256(x), 1, 4, 4, Pick::Walk);
    bmw256(&l2(&cubehash256(&d), 1, 4, 4, Pick::Walk)).to_vec()
}
pub fn lyra2z(x: &[u8]) -> Vec<u8> {
    l2(&blake256(x), 8, 8, 8, Pick::First)
}

// ---------------------------------------------------------------- known answers

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// The model against published answers; run at the start of every check.
pub fn self_test() -> Result<usize, String> {
    let utf = "脇山珠美ちゃんかわいい！".as_bytes();
    let emo = "😀😁😂".as_bytes();
    let hdr: Vec<u8> = {
        let h = "700000005d385ba114d079971b29a9418fd0549e7d68a95c7f168621a314201000000000578586d149fd07b22f3a8a347c516de7052f034d2b76ff68e0d6ecff9b77a45489e3fd511732011df0731000";
        (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    let cases: Vec<(&str, String, &str)> = vec![
        // published test vectors of the hash functions
        ("blake256('')", hex(&blake256(b"")), "716f6e863f744b9ac22c97ec7b76ea5f5908bc5b2f67c61510bfc4751384ea7a"),
        ("blake256(00)", hex(&blake256(&[0])), "0ce8d4ef4dd7cd8d62dfded9d4edb0a774ae6a41929a74da23109e8f11139c87"),
        ("blake256(0*72)", hex(&blake256(&[0; 72])), "d419bad32d504fb7d44d460c42c5593fe544fa4c135dec31e21bd9abdcc22d41"),
        ("keccak256('')", hex(&keccak256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"),
        ("keccak256('abc')", hex(&keccak256(b"abc")), "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"),
        ("skein512_256('')", hex(&skein512_256(b"")), "39ccc4554a8b31853b9de7a1fe638a24cce6b35a55f2431009e18780335d2621"),
        ("groestl256('')", hex(&groestl256(b"")), "1a52d11d550039be16107f9c58db9ebcc417f16f736adb2502567119f0083467"),
        ("cubehash256('')", hex(&cubehash256(b"")), "44c6de3ac6c73c391bf0906cb7482600ec06b216c7c54a2a8688a6a42676577d"),
        ("bmw256('')", hex(&bmw256(b"")), "82cac4bf6f4c2b41fbcc0e0984e9d8b76d7662f8e1789cdfbd85682acc55577a"),
        // the repository's published digests
        ("cubehash256('0'*32)", hex(&cubehash256(&[b'0'; 32])), "f83989901eb3c366e7d7469f8ea8ef0694043cd42deb6252089ff38fb7892f3d"),
        ("bmw256('abc')", hex(&bmw256(b"abc")), "57d11fc94bdf98e6a0d0bf1d4ddda3f4205e873666a644b5bb585e171ad87d34"),
        ("lyra2('abc')", hex(&lyra2_sum(b"abc")), "8f63758bd178f014ea3fd4df09ff0a61646dc574a0b6bcf2890ec529a6a7360c"),
        ("lyra2(48,utf,1,3,4)", hex(&lyra2(48, utf, utf, 1, 3, 4, Pick::First)), "c937cfe0ee21a8e7c1d1871245ea717457edbee2de8bf544e50f807349a3460c52cb6bb10bd0b7328504bc2ad984e1f3"),
        ("lyra2(16,emo,1,4,2)", hex(&lyra2(16, emo, emo, 1, 4, 2, Pick::First)), "372557ef600c8c76bedd91ecd5a01f45"),
        ("lyra2mod('abc')", hex(&lyra2(32, b"abc", b"abc", 1, 4, 4, Pick::Walk)), "0c36444f2885b72f3528af3b1f59174f8fd5c20b712988306962784c5f8ac462"),
        ("lyra2mod(16,emo,1,4,2)", hex(&lyra2(16, emo, emo, 1, 4, 2, Pick::Walk)), "3cd143a8903f35aa32fbe9395706cfd6"),
        ("lyra2re('abc')", hex(&lyra2re(b"abc")), "07d3fe93103f6ad4284ad389d4b0a80334c94f5ffd0a537dfc935b3625552317"),
        ("lyra2re(utf)", hex(&lyra2re(utf)), "8361fd2586e630cf7bc8209fb05d8d24fb549cee19b1c085c2cec79c61c6cc6e"),
        ("lyra2rev2('abc')", hex(&lyra2rev2(b"abc")), "80ec5344227c5d0bfd63038f00c3fe5aecddd1a1122043b0a90b5fd67b1e8f32"),
        ("lyra2rev2(utf)", hex(&lyra2rev2(utf)), "bdaaa569c4f4918da66b02f2d0a2093a51e3d1735ee6023e9a93185c7bff40bc"),
        ("lyra2rev3('abc')", hex(&lyra2rev3(b"abc")), "4e445087e28d294b3074e98fee860fb73d248a63150ea2d42bfeddd21c0b89ef"),
        ("lyra2rev3(header)", hex(&lyra2rev3(&hdr)), "5d7b298258e78881c7831ba1e46751b089efdf1fdb9eb01edd03b8d7ed39eafb"),
        ("lyra2z('abc')", hex(&lyra2z(b"abc")), "cf9d13829886efd875cb0d01e44a80288d478346dd721fac0e6e04fe5774879c"),
        ("lyra2z(emo)", hex(&lyra2z(emo)), "a226bea4d989b5eaf482c493921aff2608729d4cd9a1d6dda668b45b2fe02c8e"),
    ];
    for (n, got, want) in &cases {
        if got != want {
            return Err(format!("reference model self-test {n}: got {got}, want {want}"));
        }
    }
    Ok(cases.len())
}
