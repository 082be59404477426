//! Inputs: a starting state, bytes, and a history of operations; how they are made and mutated.

#[derive(Clone, Debug, PartialEq)]
pub struct Inp {
    /// see exec::origin
    pub how: u8,
    /// index of the hasher type
    pub ty: u8,
    /// allows long streams
    pub big: bool,
    pub key: [u64; 4],
    pub cp: Vec<u8>,
    pub data: Vec<u8>,
    pub ops: Vec<Step>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Step {
    pub kind: u8,
    pub slot: u8,
    pub x: u8,
    pub n: u32,
}
pub const APPEND: u8 = 0;
pub const FIN: u8 = 1;
pub const FINISH: u8 = 2;
pub const CP: u8 = 3;
pub const RESTORE: u8 = 4;
pub const CLONE: u8 = 5;
pub const DEBUG: u8 = 6;
pub const FLUSH: u8 = 7;
pub const ONESHOT: u8 = 8;
pub const SWAP: u8 = 9;
pub const HASHVAL: u8 = 10;
pub const REP: u8 = 11;
pub const NEW: u8 = 12;
pub const CLONEFROM: u8 = 13;
pub const HASHONE: u8 = 14;
pub const NKINDS: u8 = 15;
pub const SLOTS: u8 = 3;
pub const MAXDATA: usize = 2048;
pub const MAXOPS: usize = 24;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ z >> 31
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

pub fn word(r: &mut Rng) -> u64 {
    const T: [u64; 12] = [
        0,
        u64::MAX,
        1,
        0xffff_ffff,
        0x1_0000_0000,
        0xffff_ffff_0000_0000,
        0x8000_0000_0000_0000,
        0x7fff_ffff_ffff_ffff,
        0x8000_0000,
        0x8000_0000_8000_0000,
        0x20,
        0x100,
    ];
    match r.below(4) {
        0 => T[r.below(T.len())],
        1 => r.next() & r.next(),
        2 => r.next() >> r.below(64),
        _ => r.next(),
    }
}
pub fn length(r: &mut Rng) -> u32 {
    const B: [u32; 14] = [0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96];
    match r.below(8) {
        0..=2 => B[r.below(B.len())],
        3..=5 => r.below(34) as u32,
        6 => r.below(130) as u32,
        _ => {
            let m = 1 + (2048 >> r.below(6));
            r.below(m) as u32
        }
    }
}
pub fn step(r: &mut Rng, kinds: &[u8]) -> Step {
    let kind = kinds[r.below(kinds.len())];
    let slot = if r.one_in(3) { r.below(SLOTS as usize) as u8 } else { 0 };
    let n = match kind {
        REP => {
            let m = 1 + (128 >> r.below(6));
            1 + r.below(m) as u32
        }
        HASHVAL | HASHONE => r.below(24) as u32,
        _ => length(r),
    };
    Step { kind, slot, x: r.next() as u8, n }
}
pub fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => vec![r.next() as u8; n],
        1 => (0..n).map(|i| i as u8).collect(),
        _ => (0..n).map(|_| r.next() as u8).collect(),
    }
}
pub fn random(r: &mut Rng, kinds: &[u8], hows: &[u8]) -> Inp {
    let how = hows[r.below(hows.len())];
    let n = length(r) as usize;
    let mut cp = bytes(r, 164);
    if r.one_in(2) {
        let i = r.below(40) as u32;
        cp[160..].copy_from_slice(&i.to_le_bytes());
    }
    let k = 1 + r.below(10);
    Inp {
        how,
        ty: (r.next() & 15) as u8,
        big: r.one_in(256),
        key: std::array::from_fn(|_| word(r)),
        cp,
        data: bytes(r, n.min(MAXDATA)),
        ops: (0..k).map(|_| step(r, kinds)).collect(),
    }
}

impl Inp {
    pub fn ser(&self) -> Vec<u8> {
        let mut o = vec![self.how | self.ty << 3 | (self.big as u8) << 7];
        for k in self.key {
            o.extend(k.to_le_bytes());
        }
        o.extend(&self.cp);
        o.extend((self.ops.len() as u16).to_le_bytes());
        for s in &self.ops {
            o.extend([s.kind, s.slot, s.x]);
            o.extend(s.n.to_le_bytes());
        }
        o.extend(&self.data);
        o
    }
    pub fn de(b: &[u8]) -> Option<Inp> {
        let g = |i: usize, n: usize| b.get(i..i + n);
        let key = std::array::from_fn(|i| g(1 + i * 8, 8).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap())));
        let cp = g(33, 164)?.to_vec();
        let n = u16::from_le_bytes(g(197, 2)?.try_into().unwrap()) as usize;
        let mut ops = vec![];
        for i in 0..n {
            let s = g(199 + i * 7, 7)?;
            ops.push(Step { kind: s[0] % NKINDS, slot: s[1] % SLOTS, x: s[2], n: u32::from_le_bytes(s[3..7].try_into().unwrap()) });
        }
        let h = *b.first()?;
        Some(Inp { how: h & 7, ty: h >> 3 & 15, big: h & 0x80 != 0, key, cp, data: b[199 + n * 7..].to_vec(), ops })
    }
}

fn get(b: &[u8], n: usize) -> u64 {
    let mut w = [0u8; 8];
    w[..n].copy_from_slice(&b[..n]);
    u64::from_le_bytes(w)
}
fn put(b: &mut [u8], n: usize, v: u64) {
    b[..n].copy_from_slice(&v.to_le_bytes()[..n])
}

/// (a, b, bytes, index of the site)
type Pair = (u64, u64, u8, u64);

/// Moves the input towards making a compared pair equal: replaces one operand by the other where
/// it occurs, or adds or xors the difference of the two somewhere.
fn solve(i: &mut Inp, r: &mut Rng, pair: Pair) {
    let (mut a, mut b, n) = (pair.0, pair.1, pair.2 as usize);
    if r.one_in(2) {
        std::mem::swap(&mut a, &mut b);
    }
    match r.below(8) {
        // near misses
        0 => b = b.wrapping_add(1),
        1 => b = b.wrapping_sub(1),
        _ => {}
    }
    let mask = if n == 8 { u64::MAX } else { (1 << (n * 8)) - 1 };
    let (swap_a, swap_b) = (a.swap_bytes() >> (64 - n * 8), b.swap_bytes() >> (64 - n * 8));
    let mode = r.below(8);
    let apply = |v: u64| -> Option<u64> {
        match mode {
            // replace what equals the operand
            0..=2 => (v & mask == a & mask).then_some(b & mask),
            3 => (v & mask == swap_a & mask).then_some(swap_b & mask),
            4 => Some(v.wrapping_add(b.wrapping_sub(a)) & mask),
            5 => Some((v ^ a ^ b) & mask),
            6 => Some((v ^ (a ^ b).rotate_left(32)) & mask),
            _ => Some(b & mask),
        }
    };
    let mut places: Vec<(u8, usize)> = vec![];
    // every place at which the rule applies
    let whole = mode >= 4;
    for k in 0..4 {
        if n == 8 && apply(i.key[k]).is_some() || n == 4 {
            places.push((0, k));
        }
    }
    let mut scan = |b: &[u8], c: u8, step: usize| {
        let mut p = 0;
        while p + n <= b.len() && places.len() < 4000 {
            if apply(get(&b[p..], n)).is_some() {
                places.push((c, p));
            }
            p += step;
        }
    };
    scan(&i.data, 1, if whole { n } else { 1 });
    if i.how == 1 {
        scan(&i.cp, 2, if whole { n } else { 1 });
    }
    for (k, s) in i.ops.iter().enumerate() {
        if apply(s.n as u64 & mask).is_some() {
            places.push((3, k));
        }
    }
    if places.is_empty() || (mode == 7 && r.one_in(3)) {
        // make the stream so long
        let t = b & mask;
        if t <= 1 << 15 && !i.ops.is_empty() {
            let k = r.below(i.ops.len());
            i.ops[k].n = t as u32;
        }
        return;
    }
    let (c, p) = places[r.below(places.len())];
    match c {
        0 if n == 8 => i.key[p] = apply(i.key[p]).unwrap_or(b),
        0 => {
            let s = 32 * r.below(2) as u32;
            let v = apply(i.key[p] >> s & mask).unwrap_or(b & mask);
            i.key[p] = i.key[p] & !(mask << s) | v << s;
        }
        1 => {
            let v = apply(get(&i.data[p..], n)).unwrap_or(b);
            put(&mut i.data[p..], n, v)
        }
        2 => {
            let v = apply(get(&i.cp[p..], n)).unwrap_or(b);
            put(&mut i.cp[p..], n, v)
        }
        _ => {
            let v = apply(i.ops[p].n as u64 & mask).unwrap_or(b);
            if v <= 1 << 16 {
                i.ops[p].n = v as u32;
            }
        }
    }
}

pub fn mutate(i: &mut Inp, r: &mut Rng, kinds: &[u8], hows: &[u8], pairs: &[Pair], other: &Inp) {
    for _ in 0..1 + r.below(4) {
        if !pairs.is_empty() && r.one_in(2) {
            // rather at a place that has seen fewer equal operands
            let (a, b) = (pairs[r.below(pairs.len())], pairs[r.below(pairs.len())]);
            let e = |p: Pair| crate::cov::log().equal[p.3 as usize];
            solve(i, r, if e(a) < e(b) { a } else { b });
            continue;
        }
        match r.below(20) {
            0 => i.key[r.below(4)] = word(r),
            1 => i.key[r.below(4)] ^= 1 << r.below(64),
            2 => {
                let (a, b) = (r.below(4), r.below(4));
                i.key[a] = match r.below(4) {
                    0 => i.key[b],
                    1 => !i.key[b],
                    2 => i.key[b].rotate_left(32),
                    _ => i.key[b].wrapping_add(1),
                };
            }
            3 => {
                let n = length(r) as usize;
                let v = r.next() as u8;
                i.data.resize(n.min(MAXDATA), v);
            }
            4 if !i.data.is_empty() => {
                let k = r.below(i.data.len());
                i.data[k] ^= 1 << r.below(8);
            }
            5 if !i.data.is_empty() => {
                let k = r.below(i.data.len());
                i.data[k] = r.next() as u8;
            }
            6 if i.data.len() >= 8 => {
                let k = r.below(i.data.len() / 8) * 8;
                {
                    let v = word(r);
                    put(&mut i.data[k..], 8, v)
                }
            }
            7 if i.data.len() >= 8 => {
                let k = r.below(i.data.len() - 7);
                {
                    let v = word(r);
                    put(&mut i.data[k..], 8, v)
                }
            }
            8 if !i.data.is_empty() => {
                let (a, b) = (r.below(i.data.len()), r.below(i.data.len()));
                let n = r.below(33).min(i.data.len() - a.max(b));
                i.data.copy_within(a..a + n, b);
            }
            9 => i.data = other.data.clone(),
            10 => i.key = other.key,
            11 | 12 if i.ops.len() < MAXOPS => {
                let k = r.below(i.ops.len() + 1);
                {
                    let s = step(r, kinds);
                    i.ops.insert(k, s)
                }
            }
            13 if i.ops.len() > 1 => {
                i.ops.remove(r.below(i.ops.len()));
            }
            14 if !i.ops.is_empty() => {
                let k = r.below(i.ops.len());
                i.ops[k].n = length(r);
            }
            15 if !i.ops.is_empty() => {
                let k = r.below(i.ops.len());
                i.ops[k].x = r.next() as u8;
            }
            16 if !i.ops.is_empty() => {
                let k = r.below(i.ops.len());
                let s = i.ops[k];
                let n = s.n / 2;
                if s.kind == APPEND && i.ops.len() < MAXOPS {
                    i.ops[k].n = n;
                    i.ops.insert(k, Step { n: s.n - n, ..s });
                } else {
                    i.ops[k].n = n;
                }
            }
            17 if !other.ops.is_empty() => {
                let a = r.below(i.ops.len() + 1);
                let b = r.below(other.ops.len());
                i.ops.truncate(a);
                i.ops.extend_from_slice(&other.ops[b..]);
                i.ops.truncate(MAXOPS);
            }
            18 => {
                i.how = hows[r.below(hows.len())];
                i.ty = (r.next() & 15) as u8;
                match r.below(4) {
                    0 => i.cp = other.cp.clone(),
                    1 => i.cp[160..].copy_from_slice(&(r.below(70) as u32).to_le_bytes()),
                    2 => {
                        let (k, v) = (r.below(20) * 8, word(r));
                        put(&mut i.cp[k..], 8, v)
                    }
                    _ => {
                        let k = r.below(164);
                        i.cp[k] ^= 1 << r.below(8)
                    }
                }
            }
            _ => {
                if let Some(s) = i.ops.last_mut() {
                    s.n = s.n.wrapping_add(1) % 5000;
                }
            }
        }
    }
}

/// Smaller inputs to try.
pub fn smaller(i: &Inp, round: usize) -> Option<Inp> {
    let n = i.ops.len();
    let mut k = round;
    if k < n {
        let mut j = i.clone();
        j.ops.remove(k);
        return Some(j);
    }
    k -= n;
    if k < n * 3 {
        let mut j = i.clone();
        let s = &mut j.ops[k / 3];
        let was = *s;
        match k % 3 {
            0 => s.n /= 2,
            1 => s.n = s.n.saturating_sub(1),
            _ => {
                s.slot = 0;
                s.x = 0
            }
        }
        return (*s != was).then_some(j).or_else(|| Some(i.clone()));
    }
    k -= n * 3;
    if k < 4 {
        let mut j = i.clone();
        j.key[k] = 0;
        return Some(j);
    }
    k -= 4;
    if k < 8 {
        let mut j = i.clone();
        let n = j.data.len();
        match k {
            0 => j.data.truncate(n / 2),
            1 => j.data.truncate(n.saturating_sub(32)),
            2 => j.data.truncate(n.saturating_sub(1)),
            3 => {
                j.data.fill(0);
            }
            4 => j.cp.fill(0),
            5 => j.cp[128..160].fill(0),
            6 => j.data[..n / 2].fill(0),
            _ => j.data[n / 2..].fill(0),
        }
        return Some(j);
    }
    None
}
