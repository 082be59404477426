//! Loops whose iterations work on different keys and inputs (`L_VARY`): what is remembered under too
//! short a tag (a hash of the key, a few bits, an address) collides sooner or later.
use crate::exec::X86;
use crate::gen::{content, key};
use crate::model;
use crate::prog::{ops::*, Key, Op};
use crate::runner::Ctx;
use proptest::prelude::*;

#[derive(Clone, Debug)]
pub struct Vary {
    pub key: Key,
    pub data: Vec<u8>,
    pub cut: usize,
    pub wd: u8,
    pub api: [u8; 2],
    flags: u8,
    far: bool,
}

pub fn vary() -> BoxedStrategy<Vary> {
    (key(), content(), prop_oneof![3 => 0usize..40, 1 => 0usize..120], any::<usize>(), 0u8..3, 0u8..8, 0u8..8, any::<u8>(), 0u8..12)
        .prop_map(|(key, c, n, cut, wd, a, b, flags, far)| {
            // of a varied part no more than the first eight bytes vary
            let n = if flags & 0x80 != 0 { n + 8 } else { n };
            Vary {
                data: c.bytes(&key, n),
                cut: 8.min(n) + cut % (n + 1 - 8.min(n)),
                key,
                wd,
                api: [a, b],
                flags: L_VARY | flags & (L_BACK | L_STRIDE | 0xc0),
                far: far == 0,
            }
        })
        .boxed()
}

impl Vary {
    pub fn times(&self, cx: &Ctx, w: usize) -> u32 {
        let s = &cx.specs[w];
        let fast = s.target == X86 && s.runner == "native" && s.san == "none";
        let n = match (fast, s.profile.as_str()) {
            _ if s.slow() => 50,
            (true, "dev" | "checked") => 12_000,
            (true, _) => 70_000,
            (_, "dev" | "checked") => 2_500,
            _ => 14_000,
        };
        if self.far {
            n * 8
        } else {
            n
        }
    }
    /// the body once for each of the keys and inputs
    pub fn all(&self, cx: &Ctx, ws: &[usize], body: Vec<Op>) -> Op {
        let times = ws.iter().map(|w| self.times(cx, *w)).min().unwrap();
        Op::Loop(self.flags, times, body)
    }
    /// the same in the opposite order
    pub fn back(&self, cx: &Ctx, ws: &[usize], body: Vec<Op>) -> Op {
        match self.all(cx, ws, body) {
            Op::Loop(f, n, b) => Op::Loop(f ^ L_BACK, n, b),
            o => o,
        }
    }
    /// not only keys vary
    pub fn data_varies(&self) -> bool {
        self.flags >> 6 > 1
    }
    pub fn with_key(&self, key: Key) -> Vary {
        Vary { key, ..self.clone() }
    }
    pub fn whole(&self, s: u8) -> Op {
        Op::Append(s, self.api[0], 0, self.data.clone())
    }
    pub fn parts(&self, s: u8) -> [Op; 2] {
        let (a, b) = self.data.split_at(self.cut);
        [Op::Append(s, self.api[0], 0, a.to_vec()), Op::Append(s, self.api[1], 0, b.to_vec())]
    }
    /// What `all` gives for HighwayHash; `keyed`: the body's construction has the key (Default has not).
    pub fn sum(&self, cx: &Ctx, ws: &[usize], keyed: bool, wd: u8, tag: u8) -> Vec<u8> {
        let times = ws.iter().map(|w| self.times(cx, *w)).min().unwrap();
        let mut all = 0u64;
        let mut d = self.data.clone();
        for i in 0..times as u64 {
            let mut k = if keyed { self.key } else { [0; 4] };
            if keyed {
                vary_key(&mut k, self.flags, i);
            }
            d.copy_from_slice(&self.data);
            vary_data(&mut d, self.flags, i);
            let h = model::hash(&k, &d, wd);
            let mut rec = vec![tag];
            rec.extend_from_slice(&(h.len() as u32).to_le_bytes());
            rec.extend(h);
            all = all.wrapping_add(vary_digest(&rec, i));
        }
        all.to_le_bytes().to_vec()
    }
}
