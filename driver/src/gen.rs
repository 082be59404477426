//! Generators (proptest strategies) of keys, contents, chunk lengths and histories, and the
//! translation of a history into programs.
use crate::dict::dict;
use crate::prog::{ops::*, Content, Key, Op, Ref};
use crate::runner::Ctx;
use crate::scen::{Check, Mode, Part, Run, Scenario};
use proptest::prelude::*;
use proptest::strategy::Union;

const I0: [u64; 4] = [0xdbe6d5d5fe4cce2f, 0xa4093822299f31d0, 0x13198a2e03707344, 0x243f6a8885a308d3];
const I1: [u64; 4] = [0x3bd39e10cb0ef593, 0xc0acf169b5f18a8c, 0xbe5466cf34e90c6c, 0x452821e638d01377];
pub const SPECIAL: [u64; 10] = [
    0,
    u64::MAX,
    1,
    1 << 63,
    0xffff_ffff,
    0xffff_ffff_0000_0000,
    0x8000_0000_8000_0000,
    0x7fff_ffff_ffff_ffff,
    0x0000_0001_0000_0000,
    0x0102_0304_0506_0708,
];

/// A union that can take further alternatives; those of the dictionary exist only if the sources
/// under test contain new constants.
fn also<T: std::fmt::Debug + 'static>(base: impl Strategy<Value = T> + 'static, w: u32, more: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    if more.is_empty() {
        return base.boxed();
    }
    let mut v = vec![(w, base.boxed())];
    v.extend(more);
    Union::new_weighted(v).boxed()
}
fn dict_word() -> Vec<(u32, BoxedStrategy<u64>)> {
    let d = dict();
    if d.words.is_empty() {
        return vec![];
    }
    vec![(
        4,
        (0..d.words.len(), 0u8..9)
            .prop_map(|(k, h)| {
                let w = dict().words[k];
                match h {
                    0 => w.rotate_left(32),
                    1 => w.swap_bytes(),
                    2 => !w,
                    3 => w << 32,
                    4 => w.wrapping_add(1),
                    _ => w,
                }
            })
            .boxed(),
    )]
}
fn dict_size(max: u64) -> Vec<(u32, BoxedStrategy<usize>)> {
    let d = dict();
    let exact: Vec<u64> = d.words.iter().copied().filter(|w| *w > 0 && *w <= max).collect();
    let near = d.sizes(max);
    let mut v = vec![];
    if !exact.is_empty() {
        v.push((3, proptest::sample::select(exact).prop_map(|x| x as usize).boxed()));
    }
    if !near.is_empty() {
        v.push((1, proptest::sample::select(near).prop_map(|x| x as usize).boxed()));
    }
    v
}

pub fn lane_value() -> BoxedStrategy<u64> {
    also(
        prop_oneof![
            5 => any::<u64>(),
            3 => (0..SPECIAL.len()).prop_map(|k| SPECIAL[k]),
            1 => (0u32..64).prop_map(|b| 1u64 << b),
        ],
        6,
        dict_word(),
    )
}

fn lane(i: usize) -> BoxedStrategy<u64> {
    let base = prop_oneof![
        4 => any::<u64>(),
        3 => (0..SPECIAL.len()).prop_map(|k| SPECIAL[k]),
        // drives v0 or v1 of the initial state to a boundary value
        2 => (0..SPECIAL.len()).prop_map(move |k| I0[i] ^ SPECIAL[k]),
        2 => (0..SPECIAL.len()).prop_map(move |k| (I1[i] ^ SPECIAL[k]).rotate_left(32)),
        1 => (0u32..64).prop_map(|b| 1 << b),
        1 => (0usize..4).prop_map(|k| I0[k]),
        1 => (0usize..4).prop_map(|k| I1[k]),
    ];
    let mut more = dict_word();
    if let Some((_, w)) = more.first().cloned() {
        more.push((2, w.clone().prop_map(move |w| I0[i] ^ w).boxed()));
        more.push((2, w.prop_map(move |w| (I1[i] ^ w).rotate_left(32)).boxed()));
    }
    also(base, 6, more)
}

pub fn key() -> BoxedStrategy<Key> {
    let base = prop_oneof![
        8 => any::<[u64; 4]>(),
        2 => Just([0u64; 4]),
        2 => Just([0x0706050403020100, 0x0F0E0D0C0B0A0908, 0x1716151413121110, 0x1F1E1D1C1B1A1918]),
        8 => (lane(0), lane(1), lane(2), lane(3)).prop_map(|(a, b, c, d)| [a, b, c, d]),
        // related lanes: equal, complementary, rotated, in arithmetic progression, of equal bytes
        2 => (lane_value(), any::<[u8; 4]>()).prop_map(|(x, h)| {
            h.map(|h| match h % 8 {
                0 => !x,
                1 => x.rotate_left(32),
                2 => x.wrapping_add(1),
                3 => x.swap_bytes(),
                4 => x.wrapping_neg(),
                _ => x,
            })
        }),
        1 => (any::<[u64; 4]>(), 0usize..4, 0usize..4).prop_map(|(mut k, i, j)| {
            k[i] = k[j];
            k
        }),
        1 => any::<[u8; 4]>().prop_map(|b| b.map(|b| u64::from_le_bytes([b; 8]))),
        1 => (any::<u64>(), any::<u64>()).prop_map(|(a, d)| [a, a.wrapping_add(d), a.wrapping_add(d.wrapping_mul(2)), a.wrapping_add(d.wrapping_mul(3))]),
    ];
    let mut more = vec![];
    if let Some((_, w)) = dict_word().pop() {
        more.push((1, (lane(0), lane(1), lane(2), lane(3)).prop_map(|(a, b, c, d)| [a, b, c, d]).boxed()));
        more.push((1, [w.clone(), w.clone(), w.clone(), w].boxed()));
    }
    also(base, 2, more)
}

pub fn content() -> BoxedStrategy<Content> {
    let base = prop_oneof![
        8 => any::<u64>().prop_map(Content::Seed),
        1 => prop_oneof![Just(0u8), Just(0xff), Just(0x80), Just(0x7f), Just(1), any::<u8>()].prop_map(Content::Const),
        1 => any::<u8>().prop_map(Content::Count),
        1 => any::<u32>().prop_map(Content::OneHot),
        5 => any::<u64>().prop_map(Content::Targeted),
        1 => any::<u64>().prop_map(Content::Sparse),
        1 => any::<u64>().prop_map(Content::Text),
        1 => any::<u64>().prop_map(Content::Repeat),
    ];
    let mut more = vec![];
    if !dict().is_empty() {
        more.push((10, any::<u64>().prop_map(Content::Dict).boxed()));
        more.push((3, any::<u64>().prop_map(Content::Targeted).boxed()));
    }
    also(base, 19, more)
}

/// Lengths concentrated around the places where the buffering changes behaviour.
pub fn len() -> BoxedStrategy<usize> {
    let base = prop_oneof![
        3 => Just(0usize),
        3 => Just(1usize),
        10 => 0usize..33,
        4 => 28usize..37,
        4 => 60usize..70,
        5 => (1usize..12, 0usize..5).prop_map(|(k, d)| (k * 32 + d).saturating_sub(2)),
        2 => 0usize..300,
        1 => 300usize..1500,
    ];
    let mut more: Vec<_> = dict_size(2000).into_iter().map(|(w, s)| (w * 40, s)).collect();
    more.extend(dict_size(40_000).into_iter().map(|(w, s)| (w * 4, s)));
    more.extend(dict_size(300_000));
    also(base, 320, more)
}

/// Lengths of single inputs, evenly spread.
pub fn upto(n: usize) -> BoxedStrategy<usize> {
    let more = dict_size(3000).into_iter().map(|(w, s)| (w * 4, s)).collect();
    also(0..n, 12, more)
}
/// Long inputs, near powers of two as well.
pub fn big_len(n: usize) -> BoxedStrategy<usize> {
    let top = usize::BITS - n.leading_zeros();
    let base = prop_oneof![
        3 => 0..n,
        2 => (9..top, 0usize..67).prop_map(move |(b, d)| ((1usize << b) + d).saturating_sub(33).min(n)),
    ];
    also(base, 4, dict_size(n as u64))
}

/// Lengths up to 16 MiB.
pub fn fill_len() -> BoxedStrategy<u32> {
    let base = prop_oneof![3 => 4096u32..300_000, 2 => 300_000u32..(16 << 20), 1 => (12u32..25).prop_map(|b| (1 << b) - (b & 1))];
    also(base, 4, dict_size(16 << 20).into_iter().map(|(w, s)| (w, s.prop_map(|x| x as u32).boxed())).collect())
}

/// Data placement codes understood by the worker.
pub fn place() -> BoxedStrategy<u8> {
    prop_oneof![
        1 => Just(0u8),
        3 => prop_oneof![Just(1u8), Just(2), Just(3), Just(4), Just(5), Just(7)],
        4 => (0u8..64).prop_map(|a| 0x40 | a),
        4 => (0u8..64).prop_map(|a| 0x80 | a),
    ]
    .boxed()
}

/// How to format with Debug.
pub fn form() -> BoxedStrategy<u8> {
    prop_oneof![6 => 0u8..2, 2 => 2u8..6].boxed()
}
/// Adds flags to the Debug operations of a program.
pub fn debug_flags(ops: &mut [Op], all: u8, failing: u8) {
    for o in ops {
        match o {
            Op::Debug(_, a) => *a |= all,
            Op::DebugTo(_, a, _) => *a |= all | failing,
            _ => {}
        }
    }
}
/// kinds of Hash values the vm knows
pub const N_KINDS: u8 = 24;

#[derive(Clone, Debug)]
pub enum Step {
    Append { len: usize, api: u8, place: u8 },
    Finish,
    FinClone(u8),
    /// clone, let the clone run on by `len` other bytes, finalize it
    CloneDiverge { len: usize, w: u8 },
    /// continue with the clone; the original runs on and is finalized first
    CloneSwap { len: usize, w: u8 },
    /// overwrite a used hasher of another key through clone_from and continue with it
    CloneFrom,
    Checkpoint,
    Debug(u8),
    /// into a sink that fails after so many bytes
    DebugTo(u8, u16),
    Flush,
    /// checkpoint and restore as backend number `b` of the same worker
    Hop(u8),
    /// restore in another worker
    Cross(u8, u8),
    /// restore into a third hasher that is thrown away
    SideRestore(u8, u8),
    Place(u8),
    /// so many repetitions of these steps, each with the same data
    Loop(u32, Vec<Step>),
}

#[derive(Clone, Copy, Default)]
pub struct Mix {
    pub append: u32,
    pub finish: u32,
    pub finclone: u32,
    pub diverge: u32,
    pub cloneswap: u32,
    pub clonefrom: u32,
    pub checkpoint: u32,
    pub debug: u32,
    pub flush: u32,
    pub hop: u32,
    pub cross: u32,
    pub side: u32,
    pub place: u32,
    /// number of append entry points to use
    pub apis: u8,
    /// use data placements
    pub placed: bool,
    pub max: usize,
    pub oneshot: bool,
}

pub const OBSERVERS: Mix = Mix {
    append: 10,
    finish: 4,
    finclone: 4,
    diverge: 3,
    cloneswap: 3,
    clonefrom: 1,
    checkpoint: 4,
    debug: 3,
    flush: 1,
    hop: 0,
    cross: 0,
    side: 1,
    place: 0,
    apis: N_APIS,
    placed: false,
    max: 14,
    oneshot: true,
};
pub const STREAM: Mix = Mix {
    append: 10,
    finish: 0,
    finclone: 0,
    diverge: 0,
    cloneswap: 0,
    clonefrom: 0,
    checkpoint: 0,
    debug: 0,
    flush: 0,
    hop: 0,
    cross: 0,
    side: 0,
    place: 0,
    apis: N_APIS,
    placed: false,
    max: 12,
    oneshot: true,
};
pub const HOPS: Mix = Mix { hop: 7, finclone: 3, checkpoint: 1, cloneswap: 1, diverge: 1, max: 16, ..STREAM };

/// Capacities of sinks that run full.
pub fn cap() -> BoxedStrategy<u16> {
    also(
        prop_oneof![1 => Just(0u16), 3 => 0u16..40, 6 => 0u16..2200],
        8,
        dict_size(60_000).into_iter().map(|(w, s)| (w, s.prop_map(|x| x as u16).boxed())).collect(),
    )
}

pub fn step(m: Mix) -> BoxedStrategy<Step> {
    let mut v: Vec<(u32, BoxedStrategy<Step>)> = vec![];
    let mut add = |w: u32, s: BoxedStrategy<Step>| {
        if w > 0 {
            v.push((w, s))
        }
    };
    let apis = m.apis.max(1);
    let pl = if m.placed { place() } else { Just(0u8).boxed() };
    add(
        m.append,
        (len(), prop_oneof![2 => Just(0u8), 3 => 0..apis], pl)
            .prop_map(|(len, api, place)| Step::Append { len, api, place })
            .boxed(),
    );
    add(m.finish, Just(Step::Finish).boxed());
    add(m.finclone, (0u8..3).prop_map(Step::FinClone).boxed());
    add(m.diverge, (0usize..70, 0u8..3).prop_map(|(len, w)| Step::CloneDiverge { len, w }).boxed());
    add(m.cloneswap, (0usize..70, 0u8..3).prop_map(|(len, w)| Step::CloneSwap { len, w }).boxed());
    add(m.clonefrom, Just(Step::CloneFrom).boxed());
    add(m.checkpoint, Just(Step::Checkpoint).boxed());
    add(m.debug, prop_oneof![3 => form().prop_map(Step::Debug), 1 => (form(), cap()).prop_map(|(a, n)| Step::DebugTo(a, n))].boxed());
    add(m.flush, Just(Step::Flush).boxed());
    add(m.hop, any::<u8>().prop_map(Step::Hop).boxed());
    add(m.cross, any::<(u8, u8)>().prop_map(|(a, b)| Step::Cross(a, b)).boxed());
    add(m.side, (any::<u8>(), 0u8..3).prop_map(|(a, b)| Step::SideRestore(a, b)).boxed());
    add(
        m.place,
        prop_oneof![Just(1u8), Just(2u8), (0u8..64).prop_map(|k| 0x40 | k)].prop_map(Step::Place).boxed(),
    );
    Union::new_weighted(v).boxed()
}

#[derive(Clone, Debug)]
pub enum Start {
    New,
    Default(u8),
    Builder,
    /// restored from these 164 bytes (the key is irrelevant)
    Raw(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Hist {
    pub key: Key,
    pub content: Content,
    pub start: Start,
    /// selects the hasher type among those the worker offers
    pub b: u8,
    pub steps: Vec<Step>,
    pub width: u8,
    /// end with a one-shot helper on this many further bytes instead of finalize
    pub tail: Option<usize>,
}

pub fn hist(m: Mix) -> BoxedStrategy<Hist> {
    let tail = if m.oneshot { proptest::option::weighted(0.3, len()).boxed() } else { Just(None).boxed() };
    (key(), content(), any::<u8>(), proptest::collection::vec(step(m), 0..m.max), 0u8..3, tail)
        .prop_map(|(key, content, b, steps, width, tail)| Hist {
            key,
            content,
            start: Start::New,
            b,
            steps,
            width,
            tail,
        })
        .boxed()
}

/// Histories of a hasher restored from arbitrary bytes.
pub fn raw_hist(m: Mix) -> BoxedStrategy<Hist> {
    (hist(m), crate::props::raw_checkpoint())
        .prop_map(|(mut h, c)| {
            h.start = Start::Raw(c);
            h
        })
        .boxed()
}

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Hash(u8),
    Checkpoint,
    Debug(u8),
    /// what the iterations of a loop observed, compared with the same loop on the reference type
    Digest,
    Nothing,
    /// a byte count reported by an io entry point, expected value
    Count(u64),
}

/// An observation: at `at`, of a hasher that has consumed `data`.
#[derive(Clone, Debug)]
pub struct Obs {
    pub at: Ref,
    pub what: What,
    pub data: Vec<u8>,
    /// the same construction and appends without any observer, on slot 0; empty if the observed
    /// hasher was restored from a checkpoint
    pub plain: Vec<Op>,
}

pub fn junk(n: usize, salt: usize) -> Vec<u8> {
    crate::prog::expand(0xabcdef ^ salt as u64, n)
}

/// The operations of a step; what it observes and the other bytes the observed hasher consumed.
fn simple(s: &Step, i: usize, backends: &[u8], d: &[u8], ops: &mut Vec<Op>) -> Option<(What, Vec<u8>)> {
    let pick = |b: u8| backends[b as usize % backends.len()];
    match s {
        Step::Append { len, api, place } => {
            ops.push(Op::Append(0, *api, *place, d.to_vec()));
            if (A_WRITE..=A_VECTORED).contains(api) || *api == A_BYREF || *api == A_FMT {
                return Some((What::Count(*len as u64), vec![]));
            }
        }
        Step::Finish => {
            ops.push(Op::Finish(0));
            return Some((What::Hash(0), vec![]));
        }
        Step::FinClone(x) => {
            ops.push(Op::FinClone(0, *x));
            return Some((What::Hash(*x), vec![]));
        }
        Step::CloneDiverge { len, w } => {
            let j = junk(*len, i);
            ops.push(Op::Clone(0, 1));
            ops.push(Op::Append(1, 0, 0, j.clone()));
            ops.push(Op::Fin(1, *w));
            return Some((What::Hash(*w), j));
        }
        Step::CloneSwap { len, w } => {
            let j = junk(*len, i);
            ops.push(Op::Clone(0, 1));
            ops.push(Op::Swap(0, 1));
            ops.push(Op::Append(1, 0, 0, j.clone()));
            ops.push(Op::Fin(1, *w));
            return Some((What::Hash(*w), j));
        }
        Step::CloneFrom => {
            // a used hasher of the same type is overwritten
            ops.push(Op::Clone(0, 2));
            ops.push(Op::Append(2, 0, 0, junk(37, i)));
            ops.push(Op::CloneFrom(0, 2));
            ops.push(Op::Swap(0, 2));
            ops.push(Op::Drop(2));
        }
        Step::Checkpoint => {
            ops.push(Op::Checkpoint(0, 1));
            return Some((What::Checkpoint, vec![]));
        }
        Step::Debug(a) => {
            ops.push(Op::Debug(0, *a));
            return Some((What::Debug(*a), vec![]));
        }
        Step::DebugTo(a, n) => ops.push(Op::DebugTo(0, *a, *n)),
        Step::Flush => ops.push(Op::Flush(0)),
        Step::Hop(b) => {
            ops.push(Op::Checkpoint(0, 0));
            ops.push(Op::RestoreReg(0, pick(*b), 0));
        }
        Step::SideRestore(b, x) => {
            ops.push(Op::Checkpoint(0, 2));
            ops.push(Op::RestoreReg(3, pick(*b), 2));
            ops.push(Op::Fin(3, *x));
            return Some((What::Hash(*x), vec![]));
        }
        Step::Place(k) => ops.push(Op::Place(0, *k)),
        Step::Cross(..) | Step::Loop(..) => {}
    }
    None
}
/// Which of the step's operations is the observation.
fn seen_at(s: &Step) -> usize {
    match s {
        Step::CloneDiverge { .. } => 2,
        Step::CloneSwap { .. } => 3,
        Step::SideRestore(..) => 2,
        _ => 0,
    }
}

/// How often a loop runs: around the sizes at which narrow counters wrap.
fn times() -> BoxedStrategy<u32> {
    let base = prop_oneof![
        1 => 2u32..40,
        3 => 254u32..260,
        1 => 500u32..520,
        1 => 1000u32..9000,
        1 => 32_766u32..32_771,
        5 => 65_534u32..65_542,
        2 => 65_542u32..70_000,
    ];
    let more = dict_size(150_000).into_iter().map(|(w, s)| (w, s.prop_map(|x| x as u32).boxed())).collect();
    also(base, 6, more)
}

/// Histories with one or two long loops of small steps drawn from `m`.
pub fn long(m: Mix) -> BoxedStrategy<Hist> {
    let inner = Mix { cross: 0, place: 0, placed: false, ..m };
    let apis = m.apis.max(1);
    // short appends: the byte positions within the packet drift from one iteration to the next
    let app = (prop_oneof![2 => Just(0usize), 3 => Just(1usize), 4 => 1usize..9], prop_oneof![2 => Just(0u8), 3 => 0..apis])
        .prop_map(|(len, api)| Step::Append { len, api, place: 0 });
    let unit = Union::new_weighted(vec![(m.append.max(1), app.boxed()), (m.append, step(Mix { append: 0, flush: inner.flush.max(1), ..inner }))]);
    let lp = (times(), proptest::collection::vec(unit, 1..4)).prop_map(|(n, v)| Step::Loop(n, shorten(n, v)));
    let few = proptest::collection::vec(step(m), 0..4);
    (hist(m), few.clone(), lp.clone(), few.clone(), proptest::option::weighted(0.2, lp), few)
        .prop_map(|(mut h, a, l, b, l2, c)| {
            h.steps = a;
            h.steps.push(l);
            h.steps.extend(b);
            if let Some(l2) = l2 {
                h.steps.push(l2);
                h.steps.extend(c);
            }
            h
        })
        .boxed()
}

/// Keeps the total number of bytes of a loop within what a request can carry.
fn shorten(n: u32, v: Vec<Step>) -> Vec<Step> {
    let mut left = 400_000 / n as usize;
    v.into_iter()
        .map(|s| match s {
            Step::Append { len, api, place } => {
                let len = len.min(left);
                left -= len;
                Step::Append { len, api, place }
            }
            // bytes that only a clone consumes cost time but no space
            Step::CloneDiverge { len, w } => Step::CloneDiverge { len: len % 8, w },
            Step::CloneSwap { len, w } => Step::CloneSwap { len: len % 8, w },
            s => s,
        })
        .collect()
}

/// One hasher through very many small calls, with more data than a request could carry.
#[derive(Clone, Debug)]
pub struct Marathon {
    pub key: Key,
    pub b: u8,
    pub salt: u16,
    pub pre: usize,
    /// calls per iteration: length and entry point
    pub unit: Vec<(usize, u8)>,
    /// observers and hops per iteration
    pub extra: Vec<Step>,
    pub times: u32,
    pub tail: Vec<(usize, u8)>,
    pub width: u8,
    /// one call per iteration
    pub merged: bool,
}

pub fn marathon(m: Mix) -> BoxedStrategy<Marathon> {
    let apis = m.apis.max(1);
    let call = move |max: usize| (prop_oneof![1 => Just(0usize), 6 => 1usize..10, 3 => 1usize..max], prop_oneof![3 => Just(0u8), 2 => 0..apis]);
    let inner = Mix { append: 0, cross: 0, place: 0, placed: false, ..m };
    let some = inner.finish + inner.finclone + inner.diverge + inner.cloneswap + inner.clonefrom + inner.checkpoint + inner.debug + inner.flush + inner.hop + inner.side;
    let extra = if some > 0 {
        prop_oneof![2 => Just(vec![]).boxed(), 1 => proptest::collection::vec(step(inner), 1..3).boxed()].boxed()
    } else {
        Just(vec![]).boxed()
    };
    // packets filled by small calls: beyond 16 bits, sometimes beyond 17 and 18
    let packets = also(
        prop_oneof![3 => 65_530u32..66_500, 2 => 66_500u32..75_000, 1 => 131_000u32..133_000],
        6,
        dict_size(400_000).into_iter().map(|(w, s)| (w, s.prop_map(|x| x as u32 + 1).boxed())).collect(),
    );
    (key(), any::<u8>(), any::<u16>(), 0usize..40, proptest::collection::vec(call(31), 1..4), extra, packets, proptest::collection::vec(call(80), 0..4), 0u8..3)
        .prop_map(|(key, b, salt, pre, mut unit, mut extra, packets, tail, width)| {
            let mut n: usize = unit.iter().map(|u| u.0).sum();
            if n == 0 {
                unit[0].0 = 5;
                n = 5;
            }
            if n < 9 && (!extra.is_empty() || unit.iter().any(|u| u.1 == A_FMT)) {
                unit[0].0 += 9;
                n += 9;
            }
            // what takes long is done less often
            let costly = extra.iter().any(|s| matches!(s, Step::Debug(_) | Step::DebugTo(..)));
            if costly {
                extra.truncate(1);
            }
            let times = (packets as usize * 32 / n) as u32 + 1;
            let extra = extra
                .into_iter()
                .map(|s| match s {
                    Step::CloneDiverge { len, w } => Step::CloneDiverge { len: len % 8, w },
                    Step::CloneSwap { len, w } => Step::CloneSwap { len: len % 8, w },
                    s => s,
                })
                .collect();
            Marathon { key, b, salt, pre, unit, extra, times: if costly { times.min(70_000) } else { times }, tail, width, merged: false }
        })
        .boxed()
}

impl Marathon {
    /// The operations, ending with the result.
    pub fn ops(&self, b: u8, backends: &[u8]) -> Vec<Op> {
        let mut body = vec![];
        for (i, (len, api)) in self.unit.iter().enumerate() {
            body.push(Op::Append(0, *api, 0, self.piece(i, *len)));
        }
        if self.merged {
            let all = self.unit.iter().enumerate().flat_map(|(i, u)| self.piece(i, u.0)).collect();
            body = vec![Op::Append(0, 0, 0, all)];
        }
        for (i, s) in self.extra.iter().enumerate() {
            simple(s, i, backends, &[], &mut body);
        }
        let mut ops = vec![Op::New(0, b, self.key), Op::Append(0, 0, 0, self.piece(90, self.pre))];
        ops.push(Op::Loop(L_BLIND, self.times, body));
        for (i, (len, api)) in self.tail.iter().enumerate() {
            ops.push(Op::Append(0, *api, 0, self.piece(100 + i, *len)));
        }
        ops.push(Op::Checkpoint(0, 7));
        ops.push(Op::Fin(0, self.width));
        ops
    }
    /// The same bytes in other chunks, nothing else.
    pub fn merge(&mut self) {
        self.extra.clear();
        self.merged = true;
    }
    fn piece(&self, i: usize, len: usize) -> Vec<u8> {
        junk(len, self.salt as usize * 256 + i)
    }
    pub fn parts(&self) -> Vec<Part> {
        let all = |v: &[(usize, u8)], at: usize| v.iter().enumerate().flat_map(|(i, u)| self.piece(at + i, u.0)).collect::<Vec<u8>>();
        vec![Part::Lit(self.piece(90, self.pre)), Part::Rep(all(&self.unit, 0), self.times), Part::Lit(all(&self.tail, 100))]
    }
    pub fn labels(&self, sc: &mut Scenario) {
        sc.label("calls:>65536");
        for s in &self.extra {
            sc.label(format!("marathon with {}", format!("{s:?}").split(['(', ' ']).next().unwrap_or("")));
        }
    }
    /// A scenario comparing the result of type `b` on worker `w` with the model.
    pub fn against_model(&self, cx: &Ctx, w: usize, b: u8, what: &str) -> Scenario {
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        self.labels(&mut sc);
        let ops = self.ops(b, &cx.backends(w));
        let at = (0, ops.len() - 1);
        sc.run(w, ops);
        sc.checks.push(Check::Stream(Ref { run: at.0, op: at.1 }, self.key, self.width, self.parts(), what.into()));
        sc
    }
}

impl Hist {
    pub fn total(&self) -> usize {
        self.steps.iter().map(|s| if let Step::Append { len, .. } = s { *len } else { 0 }).sum::<usize>()
            + self.tail.unwrap_or(0)
    }
    /// bytes consumed, those of loops included
    pub fn volume(&self) -> usize {
        let l = |s: &Step| if let Step::Append { len, .. } = s { *len } else { 0 };
        let r = |s: &Step| if let Step::Loop(n, v) = s { *n as usize * v.iter().map(l).sum::<usize>() } else { 0 };
        self.total() + self.steps.iter().map(r).sum::<usize>()
    }
    pub fn data(&self) -> Vec<u8> {
        self.content.bytes(&self.key, self.total())
    }
    pub fn appends(&self) -> usize {
        self.steps.iter().filter(|s| matches!(s, Step::Append { len, .. } if *len > 0)).count()
            + self.tail.is_some() as usize
    }

    /// Adds the history to the scenario, starting on worker `w0` with hasher type `types(w)[b]`.
    /// `cross` lists the workers a Cross step may move to. Returns the observations.
    pub fn play(&self, cx: &Ctx, sc: &mut Scenario, w0: usize, cross: &[usize], mode: Mode) -> Vec<Obs> {
        let data = self.data();
        let mut w = w0;
        let types = cx.types(w);
        let mut ops: Vec<Op> = vec![];
        let mut base = sc.runs.len();
        let mut obs = vec![];
        let mut p = 0usize;
        // everything the hasher consumed so far
        let mut cur: Vec<u8> = vec![];
        let b0 = types[self.b as usize % types.len()];
        match &self.start {
            Start::New => ops.push(Op::New(0, b0, self.key)),
            Start::Default(h) => ops.push(Op::Default(0, b0, *h)),
            Start::Builder => {
                ops.push(Op::BNew(1, self.key));
                ops.push(Op::BBuild(0, 1));
            }
            Start::Raw(c) => ops.push(Op::Restore(0, b0, c.clone())),
        }
        let mut plain: Vec<Op> = ops.clone();
        for (i, s) in self.steps.iter().enumerate() {
            match s {
                Step::Cross(to, b) => {
                    if cross.is_empty() {
                        continue;
                    }
                    let from = Ref { run: base, op: ops.len() };
                    ops.push(Op::Checkpoint(0, 0));
                    sc.runs.push(Run { w, mode: mode.clone(), ops: std::mem::take(&mut ops), split: vec![] });
                    base += 1;
                    w = cross[*to as usize % cross.len()];
                    let v = cx.backends(w);
                    ops.push(Op::RestoreFrom(0, v[*b as usize % v.len()], from));
                }
                Step::Loop(times, inner) => {
                    let mut body = vec![];
                    let mut unit = vec![];
                    let mut quiet = vec![];
                    let mut flags = 0;
                    for (k, t) in inner.iter().enumerate() {
                        let d = match t {
                            Step::Append { len, .. } => junk(*len, i * 8 + k),
                            _ => vec![],
                        };
                        unit.extend_from_slice(&d);
                        // text and hops depend on the type and the worker
                        if matches!(t, Step::Debug(_) | Step::DebugTo(..) | Step::Hop(_) | Step::SideRestore(..)) {
                            flags |= L_BLIND;
                        }
                        let from = body.len();
                        simple(t, k, &cx.backends(w), &d, &mut body);
                        if matches!(t, Step::Append { .. }) {
                            quiet.extend(body[from..].iter().cloned());
                        }
                    }
                    let retyped = |s: &Step| matches!(s, Step::Hop(_) | Step::CloneSwap { .. } | Step::CloneFrom);
                    let text = inner.iter().any(|s| matches!(s, Step::Debug(_) | Step::DebugTo(..)));
                    if unit.is_empty() && !(text && inner.iter().any(retyped)) {
                        flags |= L_STABLE;
                    }
                    // the same iterations, on a hasher of whatever type the reference starts with
                    let with = [&plain[..], &[Op::Loop(flags, *times, body.clone())]].concat();
                    let what = if flags & L_BLIND == 0 { What::Digest } else { What::Nothing };
                    obs.push(Obs { at: Ref { run: base, op: ops.len() }, what, data: vec![], plain: with });
                    ops.push(Op::Loop(flags, *times, body));
                    for _ in 0..*times {
                        cur.extend_from_slice(&unit);
                    }
                    if !unit.is_empty() {
                        plain.push(Op::Loop(0, *times, quiet));
                    }
                }
                _ => {
                    let d = match s {
                        Step::Append { len, .. } => {
                            p += len;
                            data[p - len..p].to_vec()
                        }
                        _ => vec![],
                    };
                    let from = ops.len();
                    let seen = simple(s, i, &cx.backends(w), &d, &mut ops);
                    if matches!(s, Step::Append { .. }) {
                        plain.extend(ops[from..].iter().cloned());
                        cur.extend_from_slice(&d);
                    }
                    if let Some((what, other)) = seen {
                        let (d, pl) = match (&what, s) {
                            (What::Count(_), _) => (vec![], vec![]),
                            (_, Step::SideRestore(..)) => (cur.clone(), vec![]),
                            _ if other.is_empty() => (cur.clone(), plain.clone()),
                            _ => {
                                let d = [&cur[..], &other].concat();
                                (d, [&plain[..], &[Op::Append(0, 0, 0, other)]].concat())
                            }
                        };
                        obs.push(Obs { at: Ref { run: base, op: from + seen_at(s) }, what, data: d, plain: pl });
                    }
                }
            }
        }
        let hopped = self.steps.iter().any(|s| matches!(s, Step::Hop(_) | Step::Cross(..)));
        let last = match self.tail {
            Some(n) => {
                let d = data[p..p + n].to_vec();
                cur.extend_from_slice(&d);
                plain.push(Op::Append(0, 0, 0, d.clone()));
                Op::OneShot(0, self.width, 0, d)
            }
            None => Op::Fin(0, self.width),
        };
        let at = Ref { run: base, op: ops.len() };
        obs.push(Obs { at, what: What::Hash(self.width), data: cur, plain: if hopped { vec![] } else { plain } });
        ops.push(last);
        sc.runs.push(Run { w, mode, ops, split: vec![] });
        obs
    }

    pub fn labels(&self, sc: &mut Scenario) {
        sc.label(self.content.label());
        let n = self.total();
        sc.label(match n {
            0 => "total:0",
            1..=31 => "total:<32",
            32..=63 => "total:32..63",
            64..=255 => "total:64..255",
            _ => "total:>=256",
        });
        sc.label(format!("width:{}", 64 << self.width));
        for s in &self.steps {
            match s {
                Step::Append { api, len, .. } => {
                    sc.label(format!("api:{}", crate::prog::api_name(*api)));
                    if *len == 0 {
                        sc.label("empty-append");
                    }
                }
                Step::Hop(_) => sc.label("hop"),
                Step::Cross(..) => sc.label("cross-hop"),
                Step::CloneDiverge { .. } | Step::CloneSwap { .. } | Step::CloneFrom => sc.label("clone"),
                Step::Checkpoint | Step::SideRestore(..) => sc.label("checkpoint"),
                Step::Debug(_) => sc.label("debug"),
                Step::DebugTo(..) => sc.label("debug:sink-runs-full"),
                Step::Loop(n, _) => sc.label(if *n > 65535 { "loop:>65535" } else if *n > 255 { "loop:>255" } else { "loop" }),
                Step::Finish | Step::FinClone(_) => sc.label("mid-stream-result"),
                Step::Flush => sc.label("flush"),
                Step::Place(_) => sc.label("object-moved"),
            }
        }
    }
}

/// How the expected value of an observation is obtained.
pub enum Oracle {
    /// the reference model
    Model,
    /// one-shot hashing by this hasher type on this worker
    Type(usize, u8),
    /// one-shot hashing by the hasher this operation (on slot 7) constructs on this worker
    Ctor(usize, Op),
    /// the same construction and appends without observers, on this worker
    Plain(usize),
}

/// Attaches the expected values. Checkpoint observations are compared with the checkpoint of a
/// hasher of the given type that consumed the same bytes in one call (`cps`).
pub fn expect(sc: &mut Scenario, key: Key, obs: &[Obs], o: Oracle, cps: bool, what: &str) {
    let mut ops = vec![];
    let rr = sc.runs.len();
    let ctor = match &o {
        Oracle::Type(_, b) => Some(Op::New(7, *b, key)),
        Oracle::Ctor(_, c) => Some(c.clone()),
        _ => None,
    };
    for x in obs {
        let at = (x.at.run, x.at.op);
        match (&x.what, &o) {
            (What::Count(n), _) => sc.lit(at, n.to_le_bytes().to_vec(), format!("{what}: reported byte count")),
            (What::Hash(w), Oracle::Model) => sc.stream(at, key, *w, &x.data, what),
            (What::Hash(w), Oracle::Type(..) | Oracle::Ctor(..)) => {
                ops.push(ctor.clone().unwrap());
                ops.push(Op::OneShot(7, *w, 0, x.data.clone()));
                sc.eq(at, (rr, ops.len() - 1), what);
            }
            (What::Checkpoint, Oracle::Type(..) | Oracle::Ctor(..)) if cps => {
                ops.push(ctor.clone().unwrap());
                ops.push(Op::Append(7, 0, 0, x.data.clone()));
                ops.push(Op::Checkpoint(7, 7));
                sc.eq(at, (rr, ops.len() - 1), format!("{what}: checkpoint"));
            }
            // Debug may show bytes behind the pending ones, which a clone need not copy
            (What::Debug(_), _) => {}
            (What::Nothing, _) => sc.checks.push(Check::NoErr(x.at)),
            (What::Digest, Oracle::Type(_, b)) => match x.plain.first() {
                Some(Op::New(s, _, k)) if !x.plain[1..].iter().any(|o| matches!(o, Op::New(..))) => {
                    ops.push(Op::New(*s, *b, *k));
                    ops.extend(x.plain[1..].iter().cloned());
                    sc.eq(at, (rr, ops.len() - 1), format!("{what}: what the iterations observed"));
                }
                _ => {}
            },
            (What::Digest, _) => {}
            (what_, Oracle::Plain(_)) if !x.plain.is_empty() => {
                ops.extend(x.plain.iter().cloned());
                ops.push(match what_ {
                    What::Hash(w) => Op::Fin(0, *w),
                    What::Checkpoint => Op::Checkpoint(0, 7),
                    _ => continue,
                });
                sc.eq(at, (rr, ops.len() - 1), format!("{what}: {what_:?}"));
            }
            _ => {}
        }
    }
    if let Oracle::Type(w, _) | Oracle::Ctor(w, _) | Oracle::Plain(w) = o {
        if !ops.is_empty() {
            sc.run(w, ops);
        }
    }
}

/// One operation of an unconstrained program. Slots and registers are taken modulo small numbers
/// so that operations meet; hasher types are taken modulo what the worker offers.
#[derive(Clone, Debug)]
pub enum Wild {
    New(u8, u8),
    Default(u8, u8, u8),
    Raw(u8, u8, Vec<u8>),
    Append(u8, u8, u8, usize),
    Fill(u8, u8, u32),
    Fin(u8, u8),
    OneShot(u8, u8, u8, usize),
    Finish(u8),
    FinClone(u8, u8),
    Clone(u8, u8),
    CloneFrom(u8, u8),
    Checkpoint(u8, u8),
    Restore(u8, u8, u8),
    Debug(u8, u8),
    DebugTo(u8, u8, u16),
    Flush(u8),
    Drop(u8),
    Swap(u8, u8),
    Val(u8, u8, usize),
    One(u8, u8, usize),
    Build(u8, u8),
    BNew(u8),
    BDefault(u8),
    Place(u8, u8),
}

#[derive(Clone, Copy)]
pub struct WildMix {
    /// data and object placements
    pub placed: bool,
    /// restores from arbitrary bytes
    pub raw: bool,
    /// up to this many operations
    pub max: usize,
    /// upper bound of Fill lengths, 0 for none
    pub fill: u32,
}

#[derive(Clone, Debug)]
pub struct WildProg {
    pub key: Key,
    pub salt: u64,
    pub steps: Vec<Wild>,
}

pub fn wild(m: WildMix) -> BoxedStrategy<WildProg> {
    let s = || 0u8..3;
    let pl = || if m.placed { place() } else { Just(0u8).boxed() };
    let vl = || prop_oneof![0usize..20, 0usize..80];
    let ln = || prop_oneof![9 => len(), 1 => 1000usize..5000];
    let mut v: Vec<(u32, BoxedStrategy<Wild>)> = vec![
        (6, (s(), any::<u8>()).prop_map(|(a, b)| Wild::New(a, b)).boxed()),
        (1, (s(), any::<u8>(), 0u8..3).prop_map(|(a, b, c)| Wild::Default(a, b, c)).boxed()),
        (24, (s(), 0..N_APIS, pl(), ln()).prop_map(|(a, b, c, d)| Wild::Append(a, b, c, d)).boxed()),
        (4, (s(), 0u8..3).prop_map(|(a, b)| Wild::Fin(a, b)).boxed()),
        (4, (s(), 0u8..3, pl(), ln()).prop_map(|(a, b, c, d)| Wild::OneShot(a, b, c, d)).boxed()),
        (3, s().prop_map(Wild::Finish).boxed()),
        (4, (s(), 0u8..3).prop_map(|(a, b)| Wild::FinClone(a, b)).boxed()),
        (4, (s(), s()).prop_map(|(a, b)| Wild::Clone(a, b)).boxed()),
        (3, (s(), s()).prop_map(|(a, b)| Wild::CloneFrom(a, b)).boxed()),
        (5, (s(), 0u8..2).prop_map(|(a, b)| Wild::Checkpoint(a, b)).boxed()),
        (5, (s(), any::<u8>(), 0u8..2).prop_map(|(a, b, c)| Wild::Restore(a, b, c)).boxed()),
        (3, (s(), form()).prop_map(|(a, b)| Wild::Debug(a, b)).boxed()),
        (2, (s(), form(), cap()).prop_map(|(a, b, c)| Wild::DebugTo(a, b, c)).boxed()),
        (1, s().prop_map(Wild::Flush).boxed()),
        (1, s().prop_map(Wild::Drop).boxed()),
        (1, (s(), s()).prop_map(|(a, b)| Wild::Swap(a, b)).boxed()),
        (3, (s(), 0..N_KINDS, vl()).prop_map(|(a, b, c)| Wild::Val(a, b, c)).boxed()),
        (2, (0u8..2, 0..N_KINDS, vl()).prop_map(|(a, b, c)| Wild::One(a, b, c)).boxed()),
        (2, (s(), 0u8..2).prop_map(|(a, b)| Wild::Build(a, b)).boxed()),
        (1, (0u8..2).prop_map(Wild::BNew).boxed()),
        (1, (0u8..2).prop_map(Wild::BDefault).boxed()),
    ];
    if m.raw {
        v.push((
            8,
            (s(), any::<u8>(), crate::props::raw_checkpoint()).prop_map(|(a, b, c)| Wild::Raw(a, b, c)).boxed(),
        ));
    }
    if m.placed {
        let how = prop_oneof![Just(1u8), Just(2u8), (0u8..64).prop_map(|k| 0x40 | k)];
        v.push((5, (s(), how).prop_map(|(a, b)| Wild::Place(a, b)).boxed()));
    }
    if m.fill > 0 {
        v.push((1, (s(), 0..N_APIS, 0..m.fill).prop_map(|(a, b, c)| Wild::Fill(a, b, c)).boxed()));
    }
    (key(), any::<u64>(), proptest::collection::vec(Union::new_weighted(v), 1..m.max))
        .prop_map(|(key, salt, steps)| WildProg { key, salt, steps })
        .boxed()
}

impl WildProg {
    /// `types` are the constructors to choose from. Operations on an empty slot are preceded by a
    /// construction.
    pub fn ops(&self, types: &[u8]) -> Vec<Op> {
        let t = |b: u8| types[b as usize % types.len()];
        let mut live = [false; 3];
        let mut bld = [false; 2];
        let mut cps = [false; 2];
        let mut n = 0u64;
        let mut o = vec![];
        // a moved object lives in the storage of its slot
        let fixed = self.steps.iter().any(|s| matches!(s, Wild::Place(..)));
        let key = |n: u64| -> Key { [self.key[0] ^ n, self.key[1], self.key[2], self.key[3].wrapping_add(n)] };
        for (j, s) in self.steps.iter().enumerate() {
            let data = |len: usize| crate::prog::expand(self.salt ^ (j as u64) << 40, len);
            let text = |len: usize| {
                let s = self.salt ^ (j as u64) << 40;
                if dict().is_empty() || s & 1 == 0 { Content::Text(s) } else { Content::Dict(s) }.bytes(&self.key, len)
            };
            let mut need = |a: u8, o: &mut Vec<Op>| {
                if !live[a as usize] {
                    n += 1;
                    o.push(Op::New(a, t((self.salt >> (j % 50)) as u8), key(n)));
                    live[a as usize] = true;
                }
            };
            match s {
                Wild::New(a, b) => {
                    live[*a as usize] = true;
                    n += 1;
                    o.push(Op::New(*a, t(*b), key(n)))
                }
                Wild::Default(a, b, h) => {
                    live[*a as usize] = true;
                    o.push(Op::Default(*a, t(*b), *h))
                }
                Wild::Raw(a, b, c) => {
                    live[*a as usize] = true;
                    o.push(Op::Restore(*a, t(*b), c.clone()))
                }
                Wild::Append(a, api, p, len) => {
                    need(*a, &mut o);
                    let d = if *api == A_FMT || !dict().is_empty() { text(*len) } else { data(*len) };
                    o.push(Op::Append(*a, *api, *p, d))
                }
                Wild::Fill(a, api, len) => {
                    need(*a, &mut o);
                    o.push(Op::Fill(*a, *api, self.salt ^ j as u64, *len))
                }
                Wild::Fin(a, w) => {
                    need(*a, &mut o);
                    live[*a as usize] = false;
                    o.push(Op::Fin(*a, *w))
                }
                Wild::OneShot(a, w, p, len) => {
                    need(*a, &mut o);
                    live[*a as usize] = false;
                    o.push(Op::OneShot(*a, *w, *p, data(*len)))
                }
                Wild::Finish(a) => {
                    need(*a, &mut o);
                    o.push(Op::Finish(*a))
                }
                Wild::FinClone(a, w) => {
                    need(*a, &mut o);
                    o.push(Op::FinClone(*a, *w))
                }
                Wild::Clone(a, b) => {
                    need(*a, &mut o);
                    live[*b as usize] = true;
                    o.push(Op::Clone(*a, *b))
                }
                Wild::CloneFrom(a, b) => {
                    need(*a, &mut o);
                    live[*b as usize] = true;
                    o.push(Op::CloneFrom(*a, *b))
                }
                Wild::Checkpoint(a, g) => {
                    need(*a, &mut o);
                    cps[*g as usize] = true;
                    o.push(Op::Checkpoint(*a, *g))
                }
                Wild::Restore(a, b, g) => {
                    if !cps[*g as usize] {
                        need(*a, &mut o);
                        cps[*g as usize] = true;
                        o.push(Op::Checkpoint(*a, *g));
                    }
                    live[*a as usize] = true;
                    o.push(Op::RestoreReg(*a, t(*b), *g))
                }
                Wild::Debug(a, x) => {
                    need(*a, &mut o);
                    o.push(Op::Debug(*a, *x))
                }
                Wild::DebugTo(a, x, n) => {
                    need(*a, &mut o);
                    o.push(Op::DebugTo(*a, *x, *n))
                }
                Wild::Flush(a) => {
                    need(*a, &mut o);
                    o.push(Op::Flush(*a))
                }
                Wild::Drop(a) => {
                    live[*a as usize] = false;
                    o.push(Op::Drop(*a))
                }
                Wild::Swap(..) if fixed => {}
                Wild::Swap(a, b) => {
                    live.swap(*a as usize, *b as usize);
                    o.push(Op::Swap(*a, *b))
                }
                Wild::Val(a, k, len) => {
                    need(*a, &mut o);
                    o.push(Op::HashVal(*a, *k, text(*len)))
                }
                Wild::BNew(b) => {
                    bld[*b as usize] = true;
                    o.push(Op::BNew(*b, key(99)))
                }
                Wild::BDefault(b) => {
                    bld[*b as usize] = true;
                    o.push(Op::BDefault(*b))
                }
                Wild::One(b, ..) | Wild::Build(_, b) if !bld[*b as usize] => {
                    bld[*b as usize] = true;
                    o.push(Op::BNew(*b, key(98)));
                    match s {
                        Wild::One(b, k, len) => o.push(Op::HashOne(*b, *k, text(*len))),
                        Wild::Build(a, b) => {
                            live[*a as usize] = true;
                            o.push(Op::BBuild(*a, *b))
                        }
                        _ => {}
                    }
                }
                Wild::One(b, k, len) => o.push(Op::HashOne(*b, *k, text(*len))),
                Wild::Build(a, b) => {
                    live[*a as usize] = true;
                    o.push(Op::BBuild(*a, *b))
                }
                Wild::Place(a, p) => {
                    need(*a, &mut o);
                    o.push(Op::Place(*a, *p))
                }
            }
        }
        o
    }
    pub fn labels(&self, sc: &mut Scenario) {
        for s in &self.steps {
            let t = format!("{s:?}");
            sc.label(format!("op:{}", t.split('(').next().unwrap_or("?")));
        }
    }
}
