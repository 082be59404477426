//! Independent reference model of HighwayHash, written from the published algorithm in terms of
//! bytes and 128-bit integers (nothing is shared with, or transcribed from, the crate's code).

/// Fractional hexadecimal digits of pi used as initial multipliers.
const INIT0: [u64; 4] =
    [0xdbe6d5d5fe4cce2f, 0xa4093822299f31d0, 0x13198a2e03707344, 0x243f6a8885a308d3];
const INIT1: [u64; 4] =
    [0x3bd39e10cb0ef593, 0xc0acf169b5f18a8c, 0xbe5466cf34e90c6c, 0x452821e638d01377];

/// Zipper merge as a byte permutation of the 16-byte concatenation (low lane first).
const ZIPPER: [usize; 16] = [3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7];

#[derive(Clone, Debug)]
pub struct State {
    pub v0: [u64; 4],
    pub v1: [u64; 4],
    pub mul0: [u64; 4],
    pub mul1: [u64; 4],
}

fn zip(lo: u64, hi: u64) -> (u64, u64) {
    let mut b = [0u8; 16];
    b[..8].copy_from_slice(&lo.to_le_bytes());
    b[8..].copy_from_slice(&hi.to_le_bytes());
    let mut o = [0u8; 16];
    for i in 0..16 {
        o[i] = b[ZIPPER[i]];
    }
    (
        u64::from_le_bytes(o[..8].try_into().unwrap()),
        u64::from_le_bytes(o[8..].try_into().unwrap()),
    )
}

impl State {
    pub fn new(key: &[u64; 4]) -> Self {
        let mut s = State { v0: [0; 4], v1: [0; 4], mul0: INIT0, mul1: INIT1 };
        for i in 0..4 {
            s.v0[i] = INIT0[i] ^ key[i];
            s.v1[i] = INIT1[i] ^ ((key[i] >> 32) | (key[i] << 32));
        }
        s
    }

    fn step(&mut self, lanes: [u64; 4]) {
        for i in 0..4 {
            self.v1[i] = self.v1[i].wrapping_add(lanes[i]).wrapping_add(self.mul0[i]);
            let p = (self.v1[i] as u32 as u128) * ((self.v0[i] >> 32) as u128);
            self.mul0[i] ^= p as u64;
            self.v0[i] = self.v0[i].wrapping_add(self.mul1[i]);
            let p = (self.v0[i] as u32 as u128) * ((self.v1[i] >> 32) as u128);
            self.mul1[i] ^= p as u64;
        }
        for h in [0, 2] {
            let (a, b) = zip(self.v1[h], self.v1[h + 1]);
            self.v0[h] = self.v0[h].wrapping_add(a);
            self.v0[h + 1] = self.v0[h + 1].wrapping_add(b);
        }
        for h in [0, 2] {
            let (a, b) = zip(self.v0[h], self.v0[h + 1]);
            self.v1[h] = self.v1[h].wrapping_add(a);
            self.v1[h + 1] = self.v1[h + 1].wrapping_add(b);
        }
    }

    pub fn packet(&mut self, p: &[u8]) {
        let mut l = [0u64; 4];
        for i in 0..4 {
            l[i] = u64::from_le_bytes(p[i * 8..i * 8 + 8].try_into().unwrap());
        }
        self.step(l)
    }

    fn tail(&mut self, t: &[u8]) {
        let n = t.len();
        assert!(n > 0 && n < 32);
        for v in self.v0.iter_mut() {
            *v = v.wrapping_add(((n as u64) << 32) | n as u64);
        }
        for v in self.v1.iter_mut() {
            let lo = (*v as u32).rotate_left(n as u32);
            let hi = ((*v >> 32) as u32).rotate_left(n as u32);
            *v = (lo as u64) | ((hi as u64) << 32);
        }
        let mut p = [0u8; 32];
        let whole = n / 4 * 4;
        let rest = n % 4;
        p[..whole].copy_from_slice(&t[..whole]);
        if n >= 16 {
            // the last four input bytes
            p[28..].copy_from_slice(&t[n - 4..]);
        } else if rest > 0 {
            p[16] = t[whole];
            p[17] = t[whole + rest / 2];
            p[18] = t[n - 1];
        }
        self.packet(&p)
    }

    fn rounds(&mut self, n: usize) {
        for _ in 0..n {
            let r = |x: u64| (x >> 32) | (x << 32);
            let v = self.v0;
            self.step([r(v[2]), r(v[3]), r(v[0]), r(v[1])]);
        }
    }

    pub fn finish(mut self, tail: &[u8], width: u8) -> Vec<u8> {
        if !tail.is_empty() {
            self.tail(tail);
        }
        let s = &mut self;
        let w: Vec<u64> = match width {
            0 => {
                s.rounds(4);
                vec![sum(&[s.v0[0], s.v1[0], s.mul0[0], s.mul1[0]])]
            }
            1 => {
                s.rounds(6);
                (0..2).map(|i| sum(&[s.v0[i], s.mul0[i], s.v1[i + 2], s.mul1[i + 2]])).collect()
            }
            _ => {
                s.rounds(10);
                let mut o = vec![];
                for h in [0, 2] {
                    let lo = wide(s.v0[h].wrapping_add(s.mul0[h]), s.v0[h + 1].wrapping_add(s.mul0[h + 1]));
                    let hi = wide(s.v1[h].wrapping_add(s.mul1[h]), s.v1[h + 1].wrapping_add(s.mul1[h + 1]));
                    // reduction of the 254-bit polynomial hi:lo modulo x^128 + x^2 + x
                    let hi = hi & (u128::MAX >> 2);
                    let m = lo ^ (hi << 1) ^ (hi << 2);
                    o.push(m as u64);
                    o.push((m >> 64) as u64);
                }
                o
            }
        };
        w.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}

fn wide(lo: u64, hi: u64) -> u128 {
    ((hi as u128) << 64) | lo as u128
}
fn sum(x: &[u64]) -> u64 {
    x.iter().fold(0u64, |a, b| a.wrapping_add(*b))
}

pub fn hash(key: &[u64; 4], data: &[u8], width: u8) -> Vec<u8> {
    let mut s = State::new(key);
    let mut c = data.chunks_exact(32);
    for p in c.by_ref() {
        s.packet(p);
    }
    s.finish(c.remainder(), width)
}

/// `tile` repeated up to `total` bytes.
pub fn hash_tiled(key: &[u64; 4], tile: &[u8], total: u64, width: u8) -> Vec<u8> {
    assert!(tile.len() % 32 == 0);
    let mut s = State::new(key);
    let mut left = total;
    while left >= 32 {
        let n = left.min(tile.len() as u64) / 32 * 32;
        for p in tile[..n as usize].chunks_exact(32) {
            s.packet(p);
        }
        left -= n;
    }
    let off = ((total - left) % tile.len() as u64) as usize;
    s.finish(&tile[off..off + left as usize], width)
}

/// More than 2^32 packets: `GIANT.0` bytes of the tile `expand(GIANT_SEED)` under GIANT_KEY. The results
/// were computed once with this model (`driver giant`, some minutes).
pub const GIANT_KEY: [u64; 4] = [0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 1, 0xffff_ffff_ffff_fffe];
pub const GIANT_SEED: u64 = 0x6769_616e_7421;
pub const GIANT_TOTAL: u64 = (1 << 37) + (3 << 20) + 45;
pub const GIANT: [&str; 3] = [
    "45e862300273bb71",
    "4fe1788f3d4bc7b74ad2cbe0c2bf91b4",
    "273971dcd2bb13cf584f0c60d8ac49d97c5501c0d0c7eea337c3468d1b2b2712",
];
pub fn giant() -> [Vec<u8>; 3] {
    let tile = crate::prog::expand(GIANT_SEED, 1 << 20);
    let mut s = State::new(&GIANT_KEY);
    let mut left = GIANT_TOTAL;
    while left >= 32 {
        let n = left.min(tile.len() as u64) / 32 * 32;
        for p in tile[..n as usize].chunks_exact(32) {
            s.packet(p);
        }
        left -= n;
    }
    let off = ((GIANT_TOTAL - left) % tile.len() as u64) as usize;
    [0, 1, 2].map(|w| s.clone().finish(&tile[off..off + left as usize], w))
}

/// Data whose packets drive `v1 + mul0 + packet` of chosen lanes to boundary values.
pub fn targeted(key: &[u64; 4], seed: u64, total: usize) -> Vec<u8> {
    const T: [u64; 14] = [
        0,
        u64::MAX,
        1,
        0xffff_ffff,
        0x1_0000_0000,
        0xffff_ffff_0000_0000,
        0x8000_0000_0000_0000,
        0x7fff_ffff_ffff_ffff,
        0x8000_0000,
        0x7fff_ffff,
        0x8000_0000_8000_0000,
        0x00ff_00ff_00ff_00ff,
        0xfeff_ffff_ffff_ffff,
        0x0000_0001_0000_0001,
    ];
    let mut x = seed | 1;
    let mut rnd = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x.wrapping_mul(0x2545_f491_4f6c_dd1d)
    };
    let mut s = State::new(key);
    let d = &crate::dict::dict().words;
    let mut out = Vec::with_capacity(total + 32);
    while out.len() < total {
        let mut aim = |r: u64| {
            if r >> 62 == 0 {
                rnd()
            } else if r >> 62 == 1 && !d.is_empty() {
                d[(r >> 8) as usize % d.len()]
            } else {
                T[(r >> 8) as usize % T.len()]
            }
        };
        let mut r = [0u64; 5];
        let mut y = (out.len() as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ seed;
        for x in r.iter_mut() {
            y ^= y << 13;
            y ^= y >> 7;
            y ^= y << 17;
            *x = y.wrapping_mul(0x2545_f491_4f6c_dd1d);
        }
        let t = [aim(r[0]), aim(r[1]), aim(r[2]), aim(r[3])];
        // v1 as it multiplies, or v0 as it is after the update
        let want = match r[4] >> 61 {
            0..=4 => t,
            _ => {
                let g: [u64; 4] = std::array::from_fn(|i| t[i].wrapping_sub(s.v0[i]).wrapping_sub(s.mul1[i]));
                let (a, b) = unzip(g[0], g[1]);
                let (c, e) = unzip(g[2], g[3]);
                [a, b, c, e]
            }
        };
        let mut p = [0u8; 32];
        for i in 0..4 {
            let v = want[i].wrapping_sub(s.v1[i]).wrapping_sub(s.mul0[i]);
            p[i * 8..i * 8 + 8].copy_from_slice(&v.to_le_bytes());
        }
        out.extend_from_slice(&p);
        s.packet(&p);
    }
    out.truncate(total);
    out
}

/// The lanes whose zipper merge is this.
fn unzip(lo: u64, hi: u64) -> (u64, u64) {
    let mut o = [0u8; 16];
    o[..8].copy_from_slice(&lo.to_le_bytes());
    o[8..].copy_from_slice(&hi.to_le_bytes());
    let mut b = [0u8; 16];
    for i in 0..16 {
        b[ZIPPER[i]] = o[i];
    }
    (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()))
}

/// Published vectors (key bytes 0..32, data bytes 0..n), from Google's reference distribution.
pub fn self_test() -> Result<usize, String> {
    let key: [u64; 4] = std::array::from_fn(|i| {
        u64::from_le_bytes(std::array::from_fn(|j| (i * 8 + j) as u8))
    });
    let data: Vec<u8> = (0..=255).collect();
    let mut n = 0;
    assert_eq!(unzip(zip(7, 1 << 60).0, zip(7, 1 << 60).1), (7, 1 << 60));
    let mut cmp = |w: u8, i: usize, want: &[u64]| {
        let g = hash(&key, &data[..i], w);
        let want: Vec<u8> = want.iter().flat_map(|x| x.to_le_bytes()).collect();
        n += 1;
        if g != want {
            return Err(format!("model disagrees with published vector: width {w} length {i}"));
        }
        Ok(())
    };
    for (i, e) in crate::vectors::V64.iter().enumerate() {
        cmp(0, i, &[*e])?;
    }
    for (i, e) in crate::vectors::V128.iter().enumerate() {
        cmp(1, i, e)?;
    }
    for (i, e) in crate::vectors::V256.iter().enumerate() {
        cmp(2, i, e)?;
    }
    Ok(n)
}
