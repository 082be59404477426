//! C06, C07, C11, C13, C14, C15: histories over hasher state.
use crate::exec::{spec, ARM, I686, WASM, X86};
use crate::gen::*;
use crate::prog::{backend_name, ops::*, Content, Key, Op, Ref};
use crate::runner::{Ctx, SHARDS, UNEVEN};
use crate::scen::{Check, Mode, Run, Scenario, FIRST};
use crate::vary::vary;
use proptest::prelude::*;

pub fn mixed_workers() -> Vec<crate::exec::Spec> {
    vec![
        spec(X86, "dev"),
        spec(X86, "release"),
        spec(X86, "release").nostd().feat("+avx2"),
        spec(X86, "checked").feat("+sse4.1"),
        spec(ARM, "release"),
        spec(WASM, "release").feat("+simd128"),
        spec(ARM, "dev").nostd(),
        spec(WASM, "dev").nostd().feat("+simd128"),
        spec(I686, "dev"),
        spec(X86, "dev").nostd(),
    ]
}

/// Native workers most of the time, each emulated one regularly.
pub fn turn(i: usize, nw: usize) -> usize {
    if i % 4 == 3 {
        4 + i / 4 % (nw - 4)
    } else {
        i % 4
    }
}

pub fn c06(cx: &mut Ctx) {
    cx.rule("Histories with generated checkpoint/restore hops (same backend, other backends, other processes: other profiles, std/no_std, aarch64, wasm32, i686) at generated cut points; every later result must equal that of the uninterrupted hasher of the starting type. Non-trivial: at least one hop followed by a comparison on a non-empty stream; distinct by program bytes.");
    cx.workers(mixed_workers());
    let nw = cx.specs.len();
    // every cut x suffix length x type pair
    const SUF: [usize; 12] = [0, 1, 3, 15, 16, 17, 31, 32, 33, 63, 65, 100];
    let cuts = 100;
    cx.list("all cuts x suffixes x type pairs", cuts * SUF.len() * 3, SHARDS, |i| {
        let (cut, suf, g) = (i % cuts, SUF[i / cuts % SUF.len()], i / cuts / SUF.len());
        let w = if g < 2 { g } else { 2 + (cut + suf) % (nw - 2) };
        let key: Key = [cut as u64 * 3, suf as u64, 0x1234_5678_9abc_def0, !0];
        let d = Content::Seed((cut * 131 + suf) as u64).bytes(&key, cut + suf);
        let types = cx.types(w);
        let mut sc = Scenario { nontrivial: cut + suf > 0, ..Default::default() };
        let mut ops = vec![];
        let mut eq = vec![];
        for (ai, a) in types.iter().enumerate() {
            for wd in 0..3u8 {
                ops.push(Op::New(7, *a, key));
                ops.push(Op::OneShot(7, wd, 0, d.clone()));
            }
            let refs = ops.len() - 5;
            ops.push(Op::New(0, *a, key));
            ops.push(Op::Append(0, 0, 0, d[..cut].to_vec()));
            ops.push(Op::Checkpoint(0, 0));
            for (bi, b) in types.iter().enumerate() {
                let wd = (cut + suf + ai + bi) % 3;
                ops.push(Op::RestoreReg(1, *b, 0));
                ops.push(Op::Append(1, 0, 0, d[cut..].to_vec()));
                ops.push(Op::Fin(1, wd as u8));
                eq.push((ops.len() - 1, refs + 2 * wd, *a, *b));
            }
            // the source goes on undisturbed
            ops.push(Op::OneShot(0, 2, 0, d[cut..].to_vec()));
            eq.push((ops.len() - 1, refs + 4, *a, *a));
        }
        sc.run(w, ops);
        for (x, y, a, b) in eq {
            sc.eq((0, x), (0, y), format!("cut {cut} suffix {suf}: {} restored as {}", backend_name(a), backend_name(b)));
        }
        sc
    });
    cx.suite("hops", cx.n(80_000), SHARDS, || hist(HOPS), |h, i| {
        let w = turn(i, nw);
        let mut sc = Scenario::default();
        h.labels(&mut sc);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        sc.nontrivial = h.total() > 0 && h.steps.iter().any(|s| matches!(s, Step::Hop(_)));
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Type(w, b), false, "after checkpoint/restore");
        sc
    });
    let all: Vec<usize> = (0..nw).collect();
    cx.suite("hops between processes", cx.n(40_000), SHARDS, || hist(Mix { cross: 6, hop: 3, max: 12, ..HOPS }), |h, i| {
        let w = i % nw;
        let mut sc = Scenario::default();
        h.labels(&mut sc);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        sc.nontrivial = h.total() > 0 && h.steps.iter().any(|s| matches!(s, Step::Cross(..)));
        let obs = h.play(cx, &mut sc, w, &all, Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Type(w, b), false, "after cross-process restore");
        sc
    });
    cx.suite("many different keys and inputs", cx.n(320), SHARDS | UNEVEN, vary, |v, i| {
        let w = i % nw;
        let ts = cx.types(w);
        let (a, b) = (ts[i / nw % ts.len()], ts[i / 3 % ts.len()]);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let [x, y] = v.parts(0);
        let hop = [Op::Checkpoint(0, 0), Op::RestoreReg(0, b, 0)];
        let plain = vec![Op::New(0, a, v.key), x.clone(), y.clone(), Op::Fin(0, v.wd)];
        let with = [&[Op::New(0, a, v.key), x], &hop[..], &[y, Op::Fin(0, v.wd)]].concat();
        sc.run(w, vec![v.all(cx, &[w], with), v.all(cx, &[w], plain)]);
        sc.eq((0, 0), (0, 1), format!("many keys and inputs, {} continued as {}", backend_name(a), backend_name(b)));
        sc.label("varied");
        sc
    });
    cx.suite("long repetitions", cx.n(320), SHARDS | UNEVEN, || long(HOPS), |h, i| {
        let w = turn(i, nw);
        let mut sc = Scenario { nontrivial: h.volume() > 0, ..Default::default() };
        h.labels(&mut sc);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Type(w, b), false, "after very many hops");
        sc
    });
    cx.suite("marathons", cx.n(64), SHARDS | UNEVEN, || marathon(HOPS), |h, i| {
        let w = turn(i, nw);
        h.against_model(cx, w, cx.types(w)[h.b as usize % cx.types(w).len()], "after very many hops")
    });
    cx.suite("hops of restored hashers", cx.n(48_000), SHARDS, || raw_hist(HOPS), |h, i| {
        let w = turn(i, nw);
        let mut sc = Scenario { nontrivial: h.steps.iter().any(|s| matches!(s, Step::Hop(_))), ..Default::default() };
        h.labels(&mut sc);
        sc.label("start:restored");
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        if let Start::Raw(c) = &h.start {
            expect(&mut sc, h.key, &obs, Oracle::Ctor(w, Op::Restore(7, b, c.clone())), false, "hops from an arbitrary state");
        }
        sc
    });
    // long chains of hops with little data in between
    let chain = || (key(), any::<u64>(), proptest::collection::vec((0usize..40, any::<u8>()), 20..120), any::<u8>());
    cx.suite("long chains", cx.n(3_200), SHARDS, chain, |(k, s, v, b), i| {
        let h = Hist {
            key: *k,
            content: Content::Seed(*s),
            start: Start::New,
            b: *b,
            steps: v.iter().flat_map(|(n, b)| [Step::Append { len: *n, api: 0, place: 0 }, Step::Hop(*b)]).collect(),
            width: (*s % 3) as u8,
            tail: Some((*s % 50) as usize),
        };
        let w = turn(i, nw);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        sc.label("long-chain");
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Type(w, b), false, "after a chain of restores");
        sc
    });
}

pub fn c07(cx: &mut Ctx) {
    cx.rule("Every hasher type obtained from Default (Default::default, BuildHasherDefault, mem::take, HighwayBuildHasher::default) under generated streams must equal the same type built with the all-zero key, the model under the zero key, and every other type. Non-trivial: non-empty stream; distinct by program bytes.");
    cx.workers(mixed_workers());
    let nw = cx.specs.len();
    let zero: Key = [0; 4];
    cx.list("all lengths x types x ways", 101 * nw, SHARDS, |i| {
        let (n, w) = (i / nw, i % nw);
        let d = Content::Seed(n as u64).bytes(&zero, n);
        let mut sc = Scenario { nontrivial: n > 0, ..Default::default() };
        let mut ops = vec![];
        let mut eq = vec![];
        for t in cx.types(w) {
            for how in 0..if t == B_AUTO { 5 } else { 3 } {
                let wd = ((n + how as usize) % 3) as u8;
                ops.push(Op::Default(0, t, how));
                ops.push(Op::OneShot(0, wd, 0, d.clone()));
                let a = ops.len() - 1;
                ops.push(Op::New(0, t, zero));
                ops.push(Op::OneShot(0, wd, 0, d.clone()));
                eq.push((a, a + 2, wd, t));
                // the state itself, not only the hash
                ops.push(Op::Default(0, t, how));
                ops.push(Op::Append(0, 0, 0, d.clone()));
                ops.push(Op::Checkpoint(0, 0));
                ops.push(Op::New(0, t, zero));
                ops.push(Op::Append(0, 0, 0, d.clone()));
                ops.push(Op::Checkpoint(0, 1));
                eq.push((a + 5, a + 8, 9, t));
            }
        }
        sc.run(w, ops);
        for (a, b, wd, t) in eq {
            sc.eq((0, a), (0, b), format!("{} from Default against zero key", backend_name(t)));
            if wd < 3 {
                sc.stream((0, a), zero, wd, &d, format!("{} from Default against the model", backend_name(t)));
            }
        }
        sc
    });
    let m = Mix { finclone: 2, finish: 1, checkpoint: 1, hop: 1, cloneswap: 1, ..STREAM };
    cx.suite("streams", cx.n(60_000), SHARDS, || (hist(m), 0u8..5), |(h, how), i| {
        let w = turn(i, nw);
        let mut h = h.clone();
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        h.key = zero;
        h.start = Start::Default(if b == B_AUTO { *how } else { *how % 3 });
        let mut sc = Scenario { nontrivial: h.total() > 0, ..Default::default() };
        h.labels(&mut sc);
        sc.label(format!("type:{}", backend_name(b)));
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, zero, &obs, Oracle::Type(w, b), true, "Default against zero key");
        expect(&mut sc, zero, &obs, Oracle::Model, false, "Default against the model under the zero key");
        sc
    });
    cx.suite("many different keys and inputs", cx.n(120), SHARDS | UNEVEN, vary, |v, i| {
        let w = i % nw;
        let ts = cx.types(w);
        let b = ts[i / nw % ts.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let how = if b == B_AUTO { v.api[1] % 5 } else { v.api[1] % 3 };
        sc.run(w, vec![v.all(cx, &[w], vec![Op::Default(0, b, how), v.whole(0), Op::Fin(0, v.wd)])]);
        sc.lit((0, 0), v.sum(cx, &[w], false, v.wd, R_BYTES), format!("many inputs, default {}", backend_name(b)));
        sc.label("varied");
        sc
    });
    cx.suite("long repetitions", cx.n(120), SHARDS | UNEVEN, || (long(m), 0u8..5), |(h, how), i| {
        let w = turn(i, nw);
        let mut h = h.clone();
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let how = if b == B_AUTO { *how } else { *how % 3 };
        h.key = zero;
        h.start = Start::Default(how);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, zero, &obs, Oracle::Type(w, b), true, "Default against zero key, many calls");
        // the n-th default is like the first
        let n = [300, 66_000][i % 2];
        let body = vec![Op::Default(0, b, how), Op::FinClone(0, (i % 3) as u8), Op::Checkpoint(0, 0)];
        let r = sc.run(w, vec![Op::Loop(L_STABLE, n, body), Op::Default(0, b, how), Op::Fin(0, 2)]);
        sc.checks.push(Check::NoErr(Ref { run: r, op: 0 }));
        sc.stream((r, 2), zero, 2, &[], "one of many defaults");
        sc
    });
    cx.suite("marathons", cx.n(40), SHARDS | UNEVEN, || (marathon(m), 0u8..5), |(h, how), i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let mut h = h.clone();
        h.key = zero;
        let mut sc = h.against_model(cx, w, b, "Default, more than 65536 packets");
        sc.runs[0].ops[0] = Op::Default(0, b, if b == B_AUTO { *how } else { *how % 3 });
        sc
    });
}

/// Arbitrary restore inputs: random bytes, states with boundary lanes, every kind of pending count.
pub fn raw_checkpoint() -> BoxedStrategy<Vec<u8>> {
    let count = prop_oneof![
        6 => 0u32..33,
        2 => 32u32..70,
        1 => Just(255u32),
        1 => Just(256u32),
        1 => Just(0x8000_0000u32),
        1 => Just(u32::MAX),
        1 => Just(0x0100_0000u32),
        1 => (0u32..32).prop_map(|b| 1 << b),
        1 => (0u32..33, 1u32..256).prop_map(|(l, h)| l | (h << 8)),
        1 => (0u32..33, 1u32..256).prop_map(|(l, h)| l | (h << 24)),
        2 => any::<u32>(),
        1 => lane_value().prop_map(|x| x as u32),
    ];
    let lane = lane_value();
    let buf = prop_oneof![
        6 => proptest::collection::vec(any::<u8>(), 32),
        1 => Just(vec![0u8; 32]),
        1 => Just(vec![0xffu8; 32]),
        1 => any::<u8>().prop_map(|b| vec![b; 32]),
        2 => content().prop_map(|c| c.bytes(&[0; 4], 32)),
    ]
    .boxed();
    let count = count.boxed();
    let small = prop_oneof![3 => Just(0u32), 2 => 0u32..33, 1 => count.clone()];
    let pattern = prop_oneof![
        // all lanes alike, all bytes alike
        2 => lane_value().prop_map(|x| vec![x; 16]),
        2 => any::<u8>().prop_map(|b| vec![u64::from_le_bytes([b; 8]); 16]),
        // rows of four alike (v0, v1, mul0, mul1), or every row the same
        2 => proptest::collection::vec(lane_value(), 4).prop_map(|v| (0..16).map(|i| v[i / 4]).collect()),
        2 => proptest::collection::vec(lane_value(), 4).prop_map(|v| (0..16).map(|i| v[i % 4]).collect()),
        // a few values repeated in random places
        4 => (proptest::collection::vec(lane_value(), 1..4), any::<[u8; 16]>())
            .prop_map(|(v, p)| p.iter().map(|k| v[*k as usize % v.len()]).collect::<Vec<u64>>()),
        // one lane copied to another place in a random state
        3 => (any::<[u64; 16]>(), 0usize..16, 0usize..16).prop_map(|(mut a, i, j)| {
            a[i] = a[j];
            a.to_vec()
        }),
        // 32-bit halves that cancel
        1 => (any::<[u64; 16]>(), 0usize..16).prop_map(|(mut a, i)| {
            a[i] = (a[i] as u32 as u64) * 0x1_0000_0001;
            a.to_vec()
        }),
    ];
    prop_oneof![
        1 => proptest::collection::vec(any::<u8>(), 164),
        4 => (pattern, buf.clone(), small).prop_map(|(l, b, c)| {
            let mut v: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes()).collect();
            v.extend(b);
            v.extend_from_slice(&c.to_le_bytes());
            v
        }),
        1 => any::<u8>().prop_map(|b| vec![b; 164]),
        8 => (proptest::collection::vec(lane, 16), buf, count).prop_map(|(l, b, c)| {
            let mut v: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes()).collect();
            v.extend(b);
            v.extend_from_slice(&c.to_le_bytes());
            v
        }),
    ]
    .boxed()
}

pub fn c11(cx: &mut Ctx) {
    cx.rule("Arbitrary 164-byte arrays (random, structured states with boundary lanes, all kinds of pending counts) restored on every type in every worker (dev/release/checked, std/no_std, aarch64, wasm32, i686): the same generated history must give identical results everywhere, empty appends change nothing, one call equals many, and checkpoint/restore hops are transparent. Non-trivial: two different types compared; distinct by program bytes.");
    cx.workers(mixed_workers());
    let nw = cx.specs.len();
    let script = |c: &[u8], ctor: Op, lens: &[usize], wd: u8, seed: u64| -> (Vec<Op>, Vec<usize>) {
        let _ = c;
        let total: usize = lens.iter().sum();
        let d = Content::Seed(seed).bytes(&[0; 4], total);
        let mut ops = vec![ctor];
        let mut see = vec![];
        for w in 0..3 {
            ops.push(Op::FinClone(0, w));
            see.push(ops.len() - 1);
        }
        ops.push(Op::Finish(0));
        see.push(ops.len() - 1);
        ops.push(Op::Checkpoint(0, 0));
        see.push(ops.len() - 1);
        let mut p = 0;
        for n in lens {
            ops.push(Op::Append(0, 0, 0, d[p..p + n].to_vec()));
            p += n;
            ops.push(Op::Finish(0));
            see.push(ops.len() - 1);
        }
        ops.push(Op::Checkpoint(0, 1));
        see.push(ops.len() - 1);
        ops.push(Op::Debug(0, 0));
        ops.push(Op::Fin(0, wd));
        see.push(ops.len() - 1);
        (ops, see)
    };
    // the laws, on one type in one process
    let laws = move |cx: &Ctx, c: &[u8], w: usize, t: u8, lens: &[usize], wd: u8, seed: u64, sc: &mut Scenario| {
        let total: usize = lens.iter().sum();
        let d = Content::Seed(seed).bytes(&[0; 4], total);
        let rr = sc.runs.len();
        let other = cx.types(w)[(seed % cx.types(w).len() as u64) as usize];
        let mut ops = vec![Op::Restore(0, t, c.to_vec()), Op::OneShot(0, wd, 0, d.clone())];
        let one = 1;
        let mut same: Vec<(usize, usize, &str)> = vec![];
        // chunked, with empty appends
        ops.push(Op::Restore(0, t, c.to_vec()));
        let mut p = 0;
        for n in lens {
            ops.push(Op::Append(0, 0, 0, vec![]));
            ops.push(Op::Append(0, 0, 0, d[p..p + n].to_vec()));
            p += n;
        }
        ops.push(Op::Append(0, 1, 0, vec![]));
        ops.push(Op::Fin(0, wd));
        same.push((ops.len() - 1, one, "streaming invariance of a restored hasher"));
        // no empty appends, a different cut
        ops.push(Op::Restore(0, t, c.to_vec()));
        let cut = if d.is_empty() { 0 } else { seed as usize % (d.len() + 1) };
        ops.push(Op::Append(0, 0, 0, d[..cut].to_vec()));
        ops.push(Op::OneShot(0, wd, 0, d[cut..].to_vec()));
        same.push((ops.len() - 1, one, "streaming invariance of a restored hasher"));
        // empty append on the restored state itself
        for wd in 0..3 {
            ops.push(Op::Restore(0, t, c.to_vec()));
            ops.push(Op::Fin(0, wd));
            let plain = ops.len() - 1;
            ops.push(Op::Restore(0, t, c.to_vec()));
            ops.push(Op::Append(0, 0, 0, vec![]));
            ops.push(Op::Fin(0, wd));
            same.push((ops.len() - 1, plain, "an empty append changes nothing"));
            ops.push(Op::Restore(0, t, c.to_vec()));
            ops.push(Op::Clone(0, 1));
            ops.push(Op::Fin(1, wd));
            same.push((ops.len() - 1, plain, "clone of a restored hasher"));
        }
        // empty append and the checkpoint
        ops.push(Op::Restore(0, t, c.to_vec()));
        ops.push(Op::Checkpoint(0, 0));
        let cp = ops.len() - 1;
        ops.push(Op::Append(0, 0, 0, vec![]));
        ops.push(Op::Checkpoint(0, 1));
        same.push((ops.len() - 1, cp, "an empty append changes the checkpoint"));
        // its own checkpoint restores transparently, on the same and on another type
        for b in [t, other] {
            ops.push(Op::RestoreReg(1, b, 0));
            ops.push(Op::Checkpoint(1, 2));
            same.push((ops.len() - 1, cp, "checkpoint of the restored checkpoint"));
            ops.push(Op::OneShot(1, wd, 0, d.clone()));
            same.push((ops.len() - 1, one, "own checkpoint restores transparently"));
        }
        // hop in the middle of the stream
        ops.push(Op::Restore(0, t, c.to_vec()));
        ops.push(Op::Append(0, 0, 0, d[..cut].to_vec()));
        ops.push(Op::Checkpoint(0, 3));
        ops.push(Op::RestoreReg(0, other, 3));
        ops.push(Op::OneShot(0, wd, 0, d[cut..].to_vec()));
        same.push((ops.len() - 1, one, "checkpoint in mid-stream restores transparently"));
        sc.run(w, ops);
        for (a, b, l) in same {
            sc.eq((rr, a), (rr, b), l);
        }
    };
    let label = |sc: &mut Scenario, c: &[u8]| {
        let n = u32::from_le_bytes(c[160..].try_into().unwrap());
        sc.label(match n {
            0 => "count:0",
            1..=31 => "count:1..31",
            32 => "count:32",
            33..=255 => "count:33..255",
            _ => "count:>255",
        });
    };
    // every pending count 0..=80 and every power of two, with each type
    let counts: Vec<u32> = (0..81).chain((7..32).map(|b| 1u32 << b)).chain([u32::MAX, u32::MAX - 31, 0x1_0001, 0x1f00, 0x2000_0010]).collect();
    cx.list("all pending counts", counts.len() * 10, SHARDS, |i| {
        let n = counts[i % counts.len()];
        let w = i / counts.len() % nw;
        let mut c = crate::prog::expand(i as u64 + 17, 160);
        c.extend_from_slice(&n.to_le_bytes());
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        label(&mut sc, &c);
        for t in cx.types(w) {
            laws(cx, &c, w, t, &[n as usize % 37, 3, 32], (n % 3) as u8, i as u64, &mut sc);
        }
        let types = cx.types(w);
        let first = sc.runs.len();
        let mut see = vec![];
        for t in &types {
            let (ops, s) = script(&c, Op::Restore(0, *t, c.clone()), &[n as usize % 41, 1, 64], (n % 3) as u8, i as u64);
            sc.run(w, ops);
            see = s;
        }
        for k in 1..types.len() {
            for s in &see {
                sc.eq((first + k, *s), (first, *s), format!("{} against {}", backend_name(types[k]), backend_name(types[0])));
            }
        }
        sc
    });
    let lens = || proptest::collection::vec(len(), 0..5);
    cx.suite("laws", cx.n(30_000), SHARDS, || (raw_checkpoint(), lens(), 0u8..3, any::<u8>(), any::<u64>()), |(c, l, wd, b, s), i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let t = types[*b as usize % types.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        label(&mut sc, c);
        sc.label(format!("type:{}", backend_name(t)));
        laws(cx, c, w, t, l, *wd, *s, &mut sc);
        sc
    });
    cx.suite("all backends and processes", cx.n(12_000), SHARDS, || (raw_checkpoint(), lens(), 0u8..3, any::<u64>()), |(c, l, wd, s), i| {
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        label(&mut sc, c);
        let mut see = vec![];
        let mut ws = vec![0, 1, 2, 3];
        ws.push(4 + i % (nw - 4));
        ws.push(4 + (i + 1) % (nw - 4));
        let mut who = vec![];
        for w in ws {
            for t in cx.types(w) {
                let (ops, s) = script(c, Op::Restore(0, t, c.clone()), l, *wd, *s);
                sc.run(w, ops);
                who.push((w, t));
                see = s;
            }
        }
        for k in 1..who.len() {
            for s in &see {
                sc.eq(
                    (k, *s),
                    (0, *s),
                    format!("{} in [{}] against {}", backend_name(who[k].1), cx.specs[who[k].0].line(), backend_name(who[0].1)),
                );
            }
        }
        sc
    });
    // very many operations on restored hashers, on two types
    let m = Mix { hop: 4, ..OBSERVERS };
    cx.suite("many different keys and inputs", cx.n(320), SHARDS | UNEVEN, || (vary(), raw_checkpoint()), |(v, c), i| {
        let w = i % nw;
        let ts = cx.types(w);
        let b = ts[i / nw % ts.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let body = |b: u8| [&[Op::Restore(0, b, c.clone())], &v.parts(0)[..], &[if i / 3 % 2 == 0 { Op::Fin(0, v.wd) } else { Op::Checkpoint(0, 0) }]].concat();
        sc.run(w, vec![v.all(cx, &[w], body(b)), v.all(cx, &[w], body(B_PORTABLE))]);
        sc.eq((0, 0), (0, 1), format!("many restored states, {} against portable", backend_name(b)));
        sc.label("varied");
        sc
    });
    cx.suite("long repetitions", cx.n(320), SHARDS | UNEVEN, || (long(m), raw_checkpoint()), |(h, c), i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let mut h = h.clone();
        h.start = Start::Raw(c.clone());
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        label(&mut sc, c);
        let b = types[(h.b as usize + 1) % types.len()];
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Ctor(w, Op::Restore(7, b, c.clone())), true, "restored hashers, many calls");
        sc
    });
    cx.suite("marathons", cx.n(40), SHARDS | UNEVEN, || (marathon(m), raw_checkpoint()), |(h, c), i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        let mut twin = h.clone();
        twin.extra.clear();
        let (mut ops, mut other) = (h.ops(b, &cx.backends(w)), twin.ops(types[(h.b as usize + 1) % types.len()], &cx.backends(w)));
        ops[0] = Op::Restore(0, b, c.clone());
        other[0] = Op::Restore(0, types[(h.b as usize + 1) % types.len()], c.clone());
        let (n, k) = (ops.len(), other.len());
        sc.run(w, std::mem::take(&mut ops));
        sc.run(w, std::mem::take(&mut other));
        sc.eq((0, n - 2), (1, k - 2), "restored hashers, more than 65536 packets: checkpoint");
        sc.eq((0, n - 1), (1, k - 1), "restored hashers, more than 65536 packets");
        sc
    });
    // histories of every kind against the one-call value on another type
    cx.suite("histories", cx.n(48_000), SHARDS, || raw_hist(m), |h, i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let Start::Raw(c) = &h.start else { return Scenario::default() };
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        label(&mut sc, c);
        let b = types[(h.b as usize + 1) % types.len()];
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Ctor(w, Op::Restore(7, b, c.clone())), true, "history of a restored hasher");
        sc
    });
    // real checkpoints with a few bytes changed
    let mutated = || (key(), any::<u64>(), 0usize..100, proptest::collection::vec((0usize..164, any::<u8>()), 1..4), lens(), any::<u8>());
    cx.suite("mutated checkpoints", cx.n(40_000), SHARDS, mutated, |(k, s, n, muts, l, b), i| {
        // the state comes from the model, so that the input does not depend on the code under test
        let mut st = crate::model::State::new(k);
        let d = Content::Seed(*s).bytes(k, *n);
        for p in d.chunks_exact(32) {
            st.packet(p);
        }
        let mut c: Vec<u8> = [st.v0, st.v1, st.mul0, st.mul1].iter().flatten().flat_map(|x| x.to_le_bytes()).collect();
        let rem = d.len() % 32;
        c.extend_from_slice(&d[d.len() - rem..]);
        c.resize(160, 0);
        c.extend_from_slice(&(rem as u32).to_le_bytes());
        for (p, v) in muts {
            c[*p] = *v;
        }
        let w = turn(i, nw);
        let types = cx.types(w);
        let t = types[*b as usize % types.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        label(&mut sc, &c);
        laws(cx, &c, w, t, l, (*s % 3) as u8, *s, &mut sc);
        sc
    });
}

pub fn c13(cx: &mut Ctx) {
    cx.rule("Histories full of observers (checkpoint, finish, clone, finalize of a clone, Debug in both forms, restores from its checkpoints) must give at every point the value of the same history without observers; clones are compared with the original at the moment of cloning (results of all widths, checkpoint) and both then run on with different bytes. Non-trivial: at least one observer before a later comparison; distinct by program bytes.");
    cx.workers(mixed_workers());
    let nw = cx.specs.len();
    cx.suite("observers removed", cx.n(72_000), SHARDS, || hist(OBSERVERS), |h, i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let mut h = h.clone();
        if i % 7 == 0 {
            h.start = Start::Builder;
        }
        let mut sc = Scenario::default();
        h.labels(&mut sc);
        sc.label(format!("type:{}", backend_name(b)));
        sc.nontrivial = h.steps.iter().any(|s| !matches!(s, Step::Append { .. }));
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        for r in &mut sc.runs {
            debug_flags(&mut r.ops, if i % 3 == 0 { D_BUSY | D_CHECK } else { 0 }, if i % 5 < 2 { D_PANIC } else { 0 });
        }
        expect(&mut sc, h.key, &obs, Oracle::Plain(w), true, "history with observers against the same history without");
        sc
    });
    cx.suite("observers of restored hashers", cx.n(48_000), SHARDS, || raw_hist(OBSERVERS), |h, i| {
        let w = turn(i, nw);
        let mut sc = Scenario::default();
        h.labels(&mut sc);
        sc.label("start:restored");
        sc.nontrivial = h.steps.iter().any(|s| !matches!(s, Step::Append { .. }));
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        for r in &mut sc.runs {
            debug_flags(&mut r.ops, if i % 3 == 0 { D_BUSY | D_CHECK } else { 0 }, if i % 5 < 2 { D_PANIC } else { 0 });
        }
        expect(&mut sc, h.key, &obs, Oracle::Plain(w), true, "history with observers against the same history without");
        sc
    });
    cx.suite("many different keys and inputs", cx.n(320), SHARDS | UNEVEN, vary, |v, i| {
        let w = i % nw;
        let ts = cx.types(w);
        let b = ts[i / nw % ts.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let [x, y] = v.parts(0);
        let see = match i / 5 % 5 {
            0 => vec![Op::Finish(0)],
            1 => vec![Op::Checkpoint(0, 0)],
            2 => vec![Op::Clone(0, 1), y.clone(), Op::Swap(0, 1)],
            3 => vec![Op::FinClone(0, v.wd), Op::Finish(0)],
            _ => vec![Op::Debug(0, v.api[1] % 6)],
        };
        let plain = vec![Op::New(0, b, v.key), x.clone(), y.clone(), Op::Fin(0, v.wd)];
        let with = [vec![Op::New(0, b, v.key), x], see.clone(), vec![y], see, vec![Op::Fin(0, v.wd)]].concat();
        sc.run(w, vec![v.all(cx, &[w], with), v.all(cx, &[w], plain)]);
        sc.eq((0, 0), (0, 1), format!("many keys and inputs, observed {}", backend_name(b)));
        sc.label("varied");
        sc
    });
    cx.suite("long repetitions", cx.n(320), SHARDS | UNEVEN, || long(OBSERVERS), |h, i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Plain(w), true, "many observers");
        expect(&mut sc, h.key, &obs, Oracle::Type(w, b), true, "many observers");
        sc
    });
    cx.suite("marathons", cx.n(48), SHARDS | UNEVEN, || marathon(OBSERVERS), |h, i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        let mut twin = h.clone();
        twin.extra.clear();
        let (mut ops, mut other) = (h.ops(b, &cx.backends(w)), twin.ops(b, &cx.backends(w)));
        let (n, k) = (ops.len(), other.len());
        sc.run(w, std::mem::take(&mut ops));
        sc.run(w, std::mem::take(&mut other));
        sc.eq((0, n - 2), (1, k - 2), "with observers against without: checkpoint");
        sc.eq((0, n - 1), (1, k - 1), "with observers against without");
        sc
    });
    // the same observation twice in a row, and around other observers
    let rep = || (key(), any::<u64>(), proptest::collection::vec(len(), 0..4), proptest::collection::vec(0u8..15, 1..10), any::<u8>());
    cx.suite("repeated observers", cx.n(16_000), SHARDS, rep, |(k, s, lens, kinds, b), i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let t = types[*b as usize % types.len()];
        let d = Content::Seed(*s).bytes(k, lens.iter().sum());
        let mut ops = vec![Op::New(0, t, *k)];
        let mut p = 0;
        for n in lens {
            ops.push(Op::Append(0, 0, 0, d[p..p + n].to_vec()));
            p += n;
        }
        let all = |ops: &mut Vec<Op>, slot: u8| {
            let at = ops.len();
            ops.push(Op::Debug(slot, 0));
            ops.push(Op::Checkpoint(slot, 0));
            ops.push(Op::Finish(slot));
            for w in 0..3 {
                ops.push(Op::FinClone(slot, w));
            }
            ops.push(Op::Debug(slot, 1));
            at
        };
        let first = all(&mut ops, 0);
        for o in kinds {
            match o {
                0 => ops.push(Op::Finish(0)),
                1..=3 => ops.push(Op::FinClone(0, o - 1)),
                4 => ops.push(Op::Checkpoint(0, 1)),
                5 => ops.push(Op::Debug(0, 0)),
                6 => ops.push(Op::Debug(0, 1)),
                9..=12 => ops.push(Op::Debug(0, (o - 7) | if s % 2 == 0 { D_BUSY | D_CHECK } else { 0 })),
                13 => ops.push(Op::DebugTo(0, (s % 6) as u8 | D_PANIC, (s >> 8) as u16 % 700)),
                14 => ops.push(Op::DebugTo(0, (s % 6) as u8, (s >> 8) as u16 % 700)),
                7 => {
                    // a clone runs on
                    ops.push(Op::Clone(0, 1));
                    ops.push(Op::Append(1, 0, 0, junk(70, p)));
                    ops.push(Op::Fin(1, 0));
                }
                _ => {
                    // the continuing hasher is the clone, the original runs on
                    ops.push(Op::Clone(0, 1));
                    ops.push(Op::Swap(0, 1));
                    ops.push(Op::Append(1, 0, 0, junk(33, p)));
                    ops.push(Op::Fin(1, 2));
                }
            }
        }
        let second = all(&mut ops, 0);
        ops.push(Op::Clone(0, 2));
        let third = all(&mut ops, 2);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        sc.label(format!("type:{}", backend_name(t)));
        sc.run(w, ops);
        let names = ["Debug", "checkpoint", "finish", "finalize64", "finalize128", "finalize256", "alternate Debug"];
        for (j, n) in names.iter().enumerate() {
            if (j != 0 && j != 6) || kinds.iter().all(|k| *k != 8) {
                sc.eq((0, second + j), (0, first + j), format!("{n} after other observers"));
            }
            // Debug may show more than the logical state (bytes behind the pending ones), which a
            // clone need not share
            if j != 0 && j != 6 {
                sc.eq((0, third + j), (0, first + j), format!("{n} of a clone"));
            }
        }
        sc
    });
    // several threads observe the same hashers at once
    let many = || (key(), any::<u64>(), proptest::collection::vec((any::<u8>(), len(), len()), 1..5), 2u8..9);
    cx.suite("observed from several threads", cx.n(1_600), SHARDS / 2, many, |(k, s, v, threads), i| {
        let w = [0, 1, 2, 3, 4, 6, 8][i % 7];
        let types = cx.types(w);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let mut first = vec![];
        let mut rest = vec![];
        for (j, (t, n, m)) in v.iter().enumerate() {
            let (j, t) = (j as u8, types[*t as usize % types.len()]);
            let d = Content::Seed(s ^ j as u64).bytes(k, n + m);
            first.extend([Op::New(j, t, *k), Op::Append(j, 0, 0, d[..*n].to_vec())]);
            rest.extend([Op::Checkpoint(j, 0), Op::Append(j, 0, 0, d[*n..].to_vec()), Op::Checkpoint(j, 1), Op::Fin(j, (s % 3) as u8)]);
        }
        let n = first.len();
        let ops = [first, rest].concat();
        sc.runs.push(Run { w, mode: Mode::Shared(*threads, if w == 4 || w == 6 || w == 8 { 8 } else { 40 }), ops: ops.clone(), split: vec![n] });
        sc.run(w, ops.clone());
        for j in n..ops.len() {
            if !matches!(ops[j], Op::Append(..)) {
                sc.eq((0, j), (1, j), "observed from several threads against not observed");
            }
        }
        sc.label("threads");
        sc
    });
    // clone trees: several clones of clones, each running on with its own bytes
    let tree = || {
        (
            key(),
            any::<u64>(),
            any::<u8>(),
            proptest::collection::vec((0u8..3, 0u8..5, 0u8..5, len()), 1..20),
        )
    };
    cx.suite("clone trees", cx.n(60_000), SHARDS, tree, |(k, s, b, v), i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let t = types[*b as usize % types.len()];
        let mut ops = vec![Op::New(0, t, *k)];
        // per live hasher: the appends it and its ancestors received
        let mut data: Vec<Option<Vec<Op>>> = vec![None; 5];
        data[0] = Some(vec![Op::New(0, t, *k)]);
        let mut sc = Scenario::default();
        let mut chk = vec![];
        for (j, (kind, a, z, n)) in v.iter().enumerate() {
            let (a, z) = (*a as usize, *z as usize);
            let Some(da) = data[a].clone() else { continue };
            match kind {
                0 => {
                    if a != z {
                        ops.push(if data[z].is_some() && j % 2 == 0 { Op::CloneFrom(a as u8, z as u8) } else { Op::Clone(a as u8, z as u8) });
                        data[z] = Some(da);
                        sc.nontrivial = true;
                    }
                }
                1 => {
                    let d = crate::prog::expand(*s ^ j as u64, *n);
                    let api = (j % N_APIS as usize) as u8;
                    ops.push(Op::Append(a as u8, api, 0, d.clone()));
                    data[a].as_mut().unwrap().push(Op::Append(0, api, 0, d));
                }
                _ => {
                    ops.push(Op::FinClone(a as u8, (j % 3) as u8));
                    chk.push((ops.len() - 1, (j % 3) as u8, da));
                }
            }
        }
        for (j, d) in data.iter().enumerate() {
            if let Some(d) = d {
                ops.push(Op::Fin(j as u8, (j % 3) as u8));
                chk.push((ops.len() - 1, (j % 3) as u8, d.clone()));
            }
        }
        sc.label("clone-tree");
        sc.run(w, ops);
        let obs: Vec<Obs> =
            chk.into_iter().map(|(o, w, d)| Obs { at: Ref { run: 0, op: o }, what: What::Hash(w), data: vec![], plain: d }).collect();
        expect(&mut sc, *k, &obs, Oracle::Plain(w), false, "clone tree against the same appends without clones");
        sc
    });
}

pub fn c14(cx: &mut Ctx) {
    cx.rule("Checkpoints of hashers that consumed the same stream by different chunkings, entry points, clones, hops, backends and processes must be byte-identical; restoring and checkpointing returns the same bytes; over 14 trials with the same pending and different absorbed bytes, no more than the 128 bytes of the 1024-bit state may differ. Non-trivial: a comparison on a non-empty stream; distinct by program bytes.");
    cx.workers(mixed_workers());
    let nw = cx.specs.len();
    // every two-chunk split: stale bytes of every kind
    let (fa, fb) = (66usize, 100usize);
    cx.list("all two-chunk splits", fa * fb, SHARDS, |i| {
        let (a, b) = (i % fa, i / fa);
        let w = turn(i, nw);
        let key: Key = [a as u64, b as u64, 99, !0];
        let d = Content::Seed(i as u64 | 1 << 40).bytes(&key, a + b);
        let mut ops = vec![Op::New(0, B_PORTABLE, key), Op::Append(0, 0, 0, d.clone()), Op::Checkpoint(0, 0)];
        let mut sc = Scenario { nontrivial: a + b > 0, ..Default::default() };
        let mut eq = vec![];
        for t in cx.types(w) {
            ops.push(Op::New(0, t, key));
            ops.push(Op::Append(0, 0, 0, d[..a].to_vec()));
            ops.push(Op::Append(0, 1, 0, d[a..].to_vec()));
            ops.push(Op::Checkpoint(0, 1));
            eq.push((ops.len() - 1, t));
            for t2 in cx.types(w) {
                ops.push(Op::RestoreReg(1, t2, 1));
                ops.push(Op::Checkpoint(1, 2));
                eq.push((ops.len() - 1, t2));
            }
        }
        sc.run(w, ops);
        for (e, t) in eq {
            sc.eq((0, e), (0, 2), format!("checkpoint of {} after {a}+{b} bytes", backend_name(t)));
        }
        sc
    });
    let m = Mix { checkpoint: 6, hop: 2, cloneswap: 2, clonefrom: 1, finish: 1, diverge: 1, debug: 1, side: 1, max: 16, ..STREAM };
    cx.suite("chunking histories", cx.n(72_000), SHARDS, || hist(m), |h, i| {
        let w = turn(i, nw);
        let mut sc = Scenario::default();
        h.labels(&mut sc);
        let mut h = h.clone();
        if i % 9 == 0 {
            h.key = [0; 4];
            h.start = Start::Default((i % 3) as u8);
        }
        h.tail = None;
        // always observe the final state
        h.steps.push(Step::Checkpoint);
        h.steps.push(Step::Hop(h.b.wrapping_add(1)));
        h.steps.push(Step::Checkpoint);
        sc.nontrivial = h.total() > 0;
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        let obs: Vec<Obs> = obs.into_iter().filter(|o| o.what == What::Checkpoint).collect();
        expect(&mut sc, h.key, &obs, Oracle::Type(w, B_PORTABLE), true, "canonical encoding");
        sc
    });
    cx.suite("many different keys and inputs", cx.n(320), SHARDS | UNEVEN, vary, |v, i| {
        let w = i % nw;
        let ts = cx.types(w);
        let (a, b) = (ts[i / nw % ts.len()], ts[i / 3 % ts.len()]);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let one = vec![Op::New(0, a, v.key), v.whole(0), Op::Checkpoint(0, 0)];
        let two = [&[Op::New(0, b, v.key)], &v.parts(0)[..], &[Op::Checkpoint(0, 0)]].concat();
        let again = [&two[..], &[Op::RestoreReg(1, a, 0), Op::Checkpoint(1, 1)]].concat();
        sc.run(w, vec![v.all(cx, &[w], one), v.all(cx, &[w], two), v.all(cx, &[w], again)]);
        sc.eq((0, 1), (0, 0), "checkpoints of many keys and inputs");
        sc.eq((0, 2), (0, 0), "checkpoints of many keys and inputs, restored and taken again");
        sc.label("varied");
        sc
    });
    cx.suite("long repetitions", cx.n(320), SHARDS | UNEVEN, || long(m), |h, i| {
        let w = turn(i, nw);
        let mut sc = Scenario { nontrivial: h.volume() > 0, ..Default::default() };
        h.labels(&mut sc);
        let mut h = h.clone();
        h.tail = None;
        h.steps.push(Step::Checkpoint);
        h.steps.push(Step::Hop(h.b.wrapping_add(1)));
        h.steps.push(Step::Checkpoint);
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        let obs: Vec<Obs> = obs.into_iter().filter(|o| o.what == What::Checkpoint).collect();
        expect(&mut sc, h.key, &obs, Oracle::Type(w, B_PORTABLE), true, "canonical encoding after many calls");
        sc
    });
    cx.suite("marathons", cx.n(48), SHARDS | UNEVEN, || marathon(m), |h, i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        let mut twin = h.clone();
        twin.merge();
        let (mut ops, mut other) = (h.ops(b, &cx.backends(w)), twin.ops(B_PORTABLE, &cx.backends(w)));
        let (n, k) = (ops.len(), other.len());
        sc.run(w, std::mem::take(&mut ops));
        sc.run(w, std::mem::take(&mut other));
        sc.eq((0, n - 2), (1, k - 2), "other chunks on PortableHash: checkpoint");
        sc.eq((0, n - 1), (1, k - 1), "other chunks on PortableHash");
        sc
    });
    // a restored state: the same stream gives the same bytes whatever the history
    cx.suite("histories of restored hashers", cx.n(40_000), SHARDS, || raw_hist(m), |h, i| {
        let w = turn(i, nw);
        let Start::Raw(c) = h.start.clone() else { return Scenario::default() };
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        sc.label("start:restored");
        let mut h = h.clone();
        h.tail = None;
        h.steps.push(Step::Checkpoint);
        h.steps.push(Step::Hop(h.b.wrapping_add(1)));
        h.steps.push(Step::Checkpoint);
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        let obs: Vec<Obs> = obs.into_iter().filter(|o| o.what == What::Checkpoint).collect();
        expect(&mut sc, h.key, &obs, Oracle::Ctor(w, Op::Restore(7, B_PORTABLE, c)), true, "canonical encoding of a restored state");
        sc
    });
    let all: Vec<usize> = (0..nw).collect();
    cx.suite("between processes", cx.n(32_000), SHARDS, || hist(Mix { cross: 5, max: 10, ..m }), |h, i| {
        let w = i % nw;
        let mut sc = Scenario::default();
        h.labels(&mut sc);
        let mut h = h.clone();
        h.tail = None;
        h.steps.push(Step::Cross(h.b, h.b.wrapping_mul(3)));
        h.steps.push(Step::Checkpoint);
        sc.nontrivial = h.total() > 0;
        let obs = h.play(cx, &mut sc, w, &all, Mode::Prog(false));
        let obs: Vec<Obs> = obs.into_iter().filter(|o| o.what == What::Checkpoint).collect();
        expect(&mut sc, h.key, &obs, Oracle::Type((w + 1) % 4, B_PORTABLE), true, "canonical encoding across processes");
        sc
    });
    // arbitrary bytes restored: re-encoding is stable and the same on every type
    cx.suite("re-encoding", cx.n(60_000), SHARDS, || (raw_checkpoint(), len()), |(c, n), i| {
        let w = turn(i, nw);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let mut ops = vec![];
        let d = Content::Seed(i as u64).bytes(&[0; 4], *n);
        let mut e = vec![];
        for t in cx.types(w) {
            ops.push(Op::Restore(0, t, c.clone()));
            ops.push(Op::Append(0, 0, 0, d.clone()));
            ops.push(Op::Checkpoint(0, 0));
            e.push(ops.len() - 1);
            ops.push(Op::RestoreReg(0, t, 0));
            ops.push(Op::Checkpoint(0, 1));
            e.push(ops.len() - 1);
        }
        sc.run(w, ops);
        for x in &e[1..] {
            sc.eq((0, *x), (0, e[0]), "re-encoding of an arbitrary state");
        }
        sc.label("arbitrary-state");
        sc
    });
    // leak of absorbed bytes
    let shape = || (proptest::collection::vec(prop_oneof![4 => len(), 1 => Just(32usize)], 1..5), any::<u64>(), any::<u8>(), any::<bool>(), any::<bool>());
    const TRIALS: usize = 14;
    cx.suite("absorbed bytes", cx.n(15_000), SHARDS, shape, |(lens, s, b, hop, same_key), i| {
        let w = turn(i, nw);
        let types = cx.types(w);
        let t = types[*b as usize % types.len()];
        let total: usize = lens.iter().sum();
        let absorbed = total - total % 32;
        let mut sc = Scenario { nontrivial: absorbed > 0, ..Default::default() };
        let mut ops = vec![];
        let mut cps = vec![];
        for tr in 0..TRIALS {
            let seed = s.wrapping_mul(31).wrapping_add(tr as u64 * 0x9e37_79b9);
            let mut d = Content::Seed(seed).bytes(&[0; 4], total);
            let pending = Content::Seed(*s ^ 0x55aa).bytes(&[0; 4], total - absorbed);
            d[absorbed..].copy_from_slice(&pending);
            let kb = crate::prog::expand(if *same_key { *s } else { seed ^ 77 }, 32);
            let key: Key = std::array::from_fn(|j| u64::from_le_bytes(kb[j * 8..j * 8 + 8].try_into().unwrap()));
            ops.push(Op::New(0, t, key));
            let mut p = 0;
            for n in lens {
                ops.push(Op::Append(0, 0, 0, d[p..p + n].to_vec()));
                p += n;
                if *hop {
                    ops.push(Op::Checkpoint(0, 0));
                    ops.push(Op::RestoreReg(0, types[(tr + n) % types.len()], 0));
                }
            }
            ops.push(Op::Checkpoint(0, 1));
            cps.push(Ref { run: 0, op: ops.len() - 1 });
        }
        sc.run(w, ops);
        sc.checks.push(Check::Leak(cps, format!("{} appends of {lens:?}", backend_name(t))));
        sc.label("leak-trials");
        sc
    });
}

/// Keys that a sloppy comparison would confuse.
fn related_keys() -> BoxedStrategy<Vec<Key>> {
    (key(), proptest::collection::vec((0usize..4, 0u32..64, 0u8..7, any::<u64>()), 7))
        .prop_map(|(k, v)| {
            let mut out = vec![k];
            for (l, bit, kind, r) in v {
                let mut x = out[r as usize % out.len()];
                match kind {
                    0 => x[l] ^= 1 << bit,
                    1 => x[3] = r,
                    2 => x[l] = r,
                    3 => x.swap(0, 1 + l % 3),
                    4 => x[l] = x[l].rotate_left(32),
                    5 => {}
                    _ => x = [r, r ^ 1, r.wrapping_mul(3), r >> 7],
                }
                out.push(x);
            }
            out
        })
        .boxed()
}

pub fn c15(cx: &mut Ctx) {
    cx.rule("Up to eight live hashers (mixed types, deliberately similar keys, builders) are operated on in generated interleavings, in one thread, migrating between threads, and concurrently in 8-16 threads that share one builder; each hasher's results must equal those of its own operations executed alone. Non-trivial: at least two live hashers with interleaved appends; distinct by program bytes.");
    let mut v = vec![
        spec(X86, "dev"),
        spec(X86, "release"),
        spec(X86, "release").nostd().feat("+avx2"),
        spec(X86, "checked").feat("+sse4.1"),
        spec(ARM, "release"),
        spec(WASM, "release").feat("+simd128"),
        spec(X86, "lto"),
        spec(X86, "release").runner("cpu:Conroe"),
    ];
    let nw = v.len();
    // the same builds again, for the solitary executions
    v.extend(v.clone());
    let tsan = v.len();
    v.push(spec(X86, "dev").san("thread"));
    v.push(spec(X86, "release").san("thread").nostd().feat("+sse4.1"));
    cx.workers(v);
    #[derive(Clone, Debug)]
    enum S {
        New(u8, u8, u8),
        App(u8, usize, u8),
        Fin(u8, u8),
        End(u8, u8, usize),
        Finish(u8),
        Cp(u8, u8, u8),
        Clone(u8, u8),
        Dbg(u8, u8),
        Swap(u8, u8),
    }
    let step = || {
        prop_oneof![
            4 => (0u8..7, any::<u8>(), 0u8..8).prop_map(|(a, b, c)| S::New(a, b, c)),
            10 => (0u8..7, len(), 0..N_APIS).prop_map(|(a, b, c)| S::App(a, b, c)),
            3 => (0u8..7, 0u8..3).prop_map(|(a, b)| S::Fin(a, b)),
            2 => (0u8..7, 0u8..3, len()).prop_map(|(a, b, c)| S::End(a, b, c)),
            2 => (0u8..7).prop_map(S::Finish),
            2 => (0u8..7, 0u8..7, any::<u8>()).prop_map(|(a, b, c)| S::Cp(a, b, c)),
            2 => (0u8..7, 0u8..7).prop_map(|(a, b)| S::Clone(a, b)),
            2 => (0u8..7, form()).prop_map(|(a, b)| S::Dbg(a, b)),
            1 => (0u8..7, 0u8..7).prop_map(|(a, b)| S::Swap(a, b)),
        ]
    };
    // Builds the interleaved program and, per observation, the operations that led to the observed
    // hasher, executed alone (on slot 0).
    type Seen = Vec<(usize, u8, Vec<Op>)>;
    let build = |cx: &Ctx, w: usize, keys: &[Key], v: &[S], salt: u64, shared: bool| -> (Vec<Op>, Seen, usize) {
        let types = cx.types(w);
        let backs = cx.backends(w);
        let mut live: Vec<Option<(u8, Vec<Op>)>> = vec![None; 7];
        let mut ops = vec![];
        let mut seen: Seen = vec![];
        let mut peak = 0;
        let with = |x: &[Op], o: Op| [x, &[o]].concat();
        for (j, s) in v.iter().enumerate() {
            match s {
                S::New(a, b, k) => {
                    let k = keys[*k as usize % keys.len()];
                    let t = types[*b as usize % types.len()];
                    live[*a as usize] = Some(if b % 5 == 0 {
                        // register 0 is shared between the threads and has keys[0]
                        let (r, k) = if shared { (0, keys[0]) } else { (1, k) };
                        if !shared {
                            ops.push(Op::BNew(1, k));
                        }
                        ops.push(Op::BBuild(*a, r));
                        (B_AUTO, vec![Op::BNew(1, k), Op::BBuild(0, 1)])
                    } else if b % 11 == 0 {
                        ops.push(Op::Default(*a, t, 0));
                        (t, vec![Op::Default(0, t, 0)])
                    } else {
                        ops.push(Op::New(*a, t, k));
                        (t, vec![Op::New(0, t, k)])
                    });
                }
                S::App(a, n, api) => {
                    if let Some(x) = &mut live[*a as usize] {
                        let mut d = crate::prog::expand(salt ^ (j as u64) << 20, *n);
                        let mut alone = *api;
                        if *api == A_FMT {
                            // the text comes from a value that uses other hashers; alone, it does not
                            d.iter_mut().for_each(|b| *b &= 0x7f);
                            alone = A_FMT_PLAIN;
                        }
                        ops.push(Op::Append(*a, *api, 0, d.clone()));
                        x.1.push(Op::Append(0, alone, 0, d));
                    }
                }
                S::Fin(a, wd) => {
                    if let Some((t, l)) = &live[*a as usize] {
                        ops.push(Op::FinClone(*a, *wd));
                        seen.push((ops.len() - 1, *t, with(l, Op::FinClone(0, *wd))));
                    }
                }
                S::End(a, wd, n) => {
                    if let Some((t, l)) = live[*a as usize].take() {
                        let e = crate::prog::expand(salt ^ 0x77 ^ (j as u64) << 20, *n);
                        ops.push(Op::OneShot(*a, *wd, 0, e.clone()));
                        seen.push((ops.len() - 1, t, with(&l, Op::OneShot(0, *wd, 0, e))));
                    }
                }
                S::Finish(a) => {
                    if let Some((t, l)) = &live[*a as usize] {
                        ops.push(Op::Finish(*a));
                        seen.push((ops.len() - 1, *t, with(l, Op::Finish(0))));
                    }
                }
                S::Cp(a, b, t) => {
                    if let Some((_, mut l)) = live[*a as usize].clone() {
                        let t = backs[*t as usize % backs.len()];
                        ops.push(Op::Checkpoint(*a, 0));
                        seen.push((ops.len() - 1, t, with(&l, Op::Checkpoint(0, 0))));
                        ops.push(Op::RestoreReg(*b, t, 0));
                        l.extend([Op::Checkpoint(0, 0), Op::RestoreReg(0, t, 0)]);
                        live[*b as usize] = Some((t, l));
                    }
                }
                S::Clone(a, b) => {
                    if let Some(x) = live[*a as usize].clone() {
                        ops.push(Op::Clone(*a, *b));
                        live[*b as usize] = Some(x);
                    }
                }
                S::Dbg(a, f) => {
                    if live[*a as usize].is_some() {
                        ops.push(Op::Debug(*a, *f | if j % 2 == 0 { D_BUSY | D_CHECK } else { 0 }));
                    }
                }
                S::Swap(a, b) => {
                    ops.push(Op::Swap(*a, *b));
                    live.swap(*a as usize, *b as usize);
                }
            }
            peak = peak.max(live.iter().filter(|x| x.is_some()).count());
        }
        for a in 0..7u8 {
            if let Some((t, l)) = live[a as usize].take() {
                ops.push(Op::Fin(a, a % 3));
                seen.push((ops.len() - 1, t, with(&l, Op::Fin(0, a % 3))));
            }
        }
        (ops, seen, peak)
    };
    // alone: in the same process after the fact, or in an isolated process of the same build
    // (worker `nw + w`) that executes nothing else than such solitary histories
    let attach = |sc: &mut Scenario, run: usize, off: usize, seen: &Seen, alone: usize| {
        let mut ops = vec![];
        let rr = sc.runs.len();
        for (o, t, l) in seen {
            ops.extend(l.iter().cloned());
            sc.eq((run, off + o), (rr, ops.len() - 1), format!("{} among others against alone", backend_name(*t)));
            ops.push(Op::Drop(0));
        }
        if !ops.is_empty() {
            sc.run(alone, ops);
        }
    };
    let strat = |n: usize| (related_keys(), proptest::collection::vec(step(), 6..n), any::<u64>());
    cx.suite("interleavings", cx.n(72_000), SHARDS, || strat(44), |(keys, v, salt), i| {
        let w = turn(i, nw);
        let mut sc = Scenario::default();
        let (ops, seen, peak) = build(cx, w, keys, v, *salt, false);
        sc.nontrivial = peak >= 2;
        sc.label(format!("live:{peak}"));
        sc.run(w, ops);
        attach(&mut sc, 0, 0, &seen, if i % 2 == 0 { w } else { w + nw });
        if i % 3 == 0 && !seen.is_empty() && !matches!(w, 4 | 5 | 7) {
            // one of them in a process of its own
            let (o, t, l) = &seen[*salt as usize % seen.len()];
            sc.runs.push(Run { w: w + nw, mode: Mode::Fresh, ops: l.clone(), split: vec![] });
            let r = sc.runs.len() - 1;
            sc.eq((0, *o), (r, l.len() - 1), format!("{} among others against alone in a fresh process", backend_name(*t)));
        }
        sc
    });
    cx.suite("migrating between threads", cx.n(9_000), SHARDS, || strat(30), |(keys, v, salt), i| {
        let w = [0, 1, 2, 3, 6, 4][i % 6];
        let mut sc = Scenario::default();
        let (ops, seen, peak) = build(cx, w, keys, v, *salt, false);
        sc.nontrivial = peak >= 2;
        sc.label("migrating");
        sc.runs.push(Run { w, mode: Mode::Migrate(2 + (salt % 4) as u8), ops, split: vec![] });
        attach(&mut sc, 0, 0, &seen, w + nw);
        sc
    });
    let conc = || (related_keys(), proptest::collection::vec(proptest::collection::vec(step(), 4..20), 8..16), any::<u64>());
    let mk = |ws: &[usize], rep: u32, keys: &Vec<Key>, progs: &Vec<Vec<S>>, salt: u64, i: usize| {
        let w = ws[i % ws.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        sc.label("threads");
        let mut ops = vec![];
        let mut split = vec![];
        let mut all = vec![];
        for (j, v) in progs.iter().enumerate() {
            let (o, seen, _) = build(cx, w, keys, v, salt ^ (j as u64) << 50, rep & FIRST == 0);
            all.push((ops.len(), seen));
            split.push(o.len());
            ops.extend(o);
        }
        sc.runs.push(Run { w, mode: Mode::Threads(rep, keys[0]), ops, split });
        for (off, seen) in &all {
            attach(&mut sc, 0, *off, seen, if w < nw { w + nw } else { nw });
        }
        sc
    };
    // in a new process each: whatever the crate sets up on first use
    let early = || (related_keys(), proptest::collection::vec(proptest::collection::vec(step(), 2..9), 8), any::<u64>());
    cx.suite("first use by several threads at once", cx.n(800), 2, early, |(keys, progs, salt), i| {
        mk(&[1, 0, 6, 2, 4, 1, 3, 0, 7], FIRST | 1, keys, progs, *salt, i / 2)
    });
    cx.suite("first use by several threads at once under ThreadSanitizer", cx.n(100), 2, early, |(keys, progs, salt), i| {
        mk(&[tsan, tsan + 1], FIRST | 1, keys, progs, *salt, i / 2)
    });
    cx.suite("many different keys and inputs", cx.n(320), SHARDS | UNEVEN, vary, |v, i| {
        let w = [0, 1, 2, 3, 6, 4, 7, 5][i % 8];
        let ts = cx.types(w);
        let (a, b) = (ts[i / 8 % ts.len()], ts[i / 3 % ts.len()]);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let end = match i / 5 % 4 {
            0 => Op::Finish(0),
            1 => Op::Checkpoint(0, 0),
            _ => Op::Fin(0, v.wd),
        };
        let body = match i / 11 % 4 {
            0 if a == B_AUTO => [&[Op::BNew(0, v.key), Op::BBuild(0, 0)], &v.parts(0)[..], &[end]].concat(),
            1 => vec![Op::New(0, a, v.key), Op::OneShot(0, v.wd, 0, v.data.clone())],
            2 => [&[Op::New(1, a, v.key)], &v.parts(1)[..], &[Op::Clone(1, 0), end]].concat(),
            _ => [&[Op::New(0, a, v.key)], &v.parts(0)[..], &[end]].concat(),
        };
        // others, alive all the time or made meanwhile
        let other = v.with_key(v.key.map(|k| k ^ 1));
        let live = [&[Op::New(5, b, v.key), Op::New(6, b, other.key)], &v.parts(5)[..], &v.parts(6)[..]].concat();
        let see = [Op::FinClone(5, v.wd), Op::Finish(6), Op::Checkpoint(5, 3), Op::Checkpoint(6, 4)];
        let between = [&[Op::New(2, b, other.key)], &other.parts(2)[..], &[Op::Finish(2)], &body[..]].concat();
        let ops = [
            &live[..],
            &see[..],
            &[v.all(cx, &[w], body.clone()), v.back(cx, &[w], body.clone()), v.all(cx, &[w], between)],
            &see[..],
        ]
        .concat();
        let (first, mid, last) = (live.len(), live.len() + see.len(), ops.len() - see.len());
        sc.run(w, ops);
        for j in 0..see.len() {
            sc.eq((0, last + j), (0, first + j), "a hasher while many others are used");
        }
        sc.eq((0, mid + 1), (0, mid), "many hashers, in the opposite order");
        if !v.data_varies() {
            sc.eq((0, mid + 2), (0, mid), "many hashers, with others in between");
        }
        let r = sc.run(w + nw, vec![v.back(cx, &[w], body)]);
        sc.eq((r, 0), (0, mid), "many hashers, in another process and order");
        sc.label("varied");
        sc
    });
    // one request at a time saturates the machine: few shards
    cx.suite("concurrent threads", cx.n(800), 2, conc, |(keys, progs, salt), i| mk(&[1, 0, 6, 2, 3], 120, keys, progs, *salt, i));
    // unsynchronised state with a tiny window: very many operations at once, each checked against
    // the first. The emulator runs the threads of an aarch64 process in parallel as well.
    let ham = || (related_keys(), proptest::collection::vec((any::<u8>(), 0u8..6, 0usize..70, 0u8..3), 8), any::<u64>());
    let hammer = |ws: &[usize], keys: &Vec<Key>, progs: &Vec<(u8, u8, usize, u8)>, salt: u64, i: usize| {
        let w = ws[i % ws.len()];
        let crowd = progs.len() > 8;
        let times = match cx.specs[w].target.as_str() {
            ARM => 400_000,
            _ if cx.specs[w].profile == "dev" => 100_000,
            _ => 2_000_000,
        };
        let times = if crowd { times / 20 } else { times };
        let types = cx.types(w);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let mut ops = vec![];
        let mut split = vec![];
        for (j, (b, kind, n, wd)) in progs.iter().enumerate() {
            // mostly the SIMD types
            let t = types[if crowd {
                // all of them the same, or any
                if salt & 1 == 0 { salt as usize / 2 % types.len() } else { *b as usize % types.len() }
            } else if b % 4 == 0 { *b as usize / 4 % types.len() } else { 1 + *b as usize % (types.len() - 1) }];
            let key = keys[j % keys.len()];
            let d = crate::prog::expand(salt ^ j as u64, *n);
            let mut p = vec![Op::New(0, t, key), Op::Append(0, 0, 0, d.clone()), Op::FinClone(0, 0), Op::FinClone(0, 1), Op::FinClone(0, 2), Op::Checkpoint(0, 1)];
            let body = match kind {
                0 | 1 => vec![Op::FinClone(0, *wd)],
                2 => vec![Op::New(1, t, key), Op::OneShot(1, *wd, 0, d)],
                3 => vec![Op::Clone(0, 1), Op::Append(1, 0, 0, junk(n % 40, j)), Op::Fin(1, *wd)],
                4 => vec![Op::Checkpoint(0, 0), Op::RestoreReg(1, t, 0), Op::Append(1, 0, 0, junk(3, j)), Op::Fin(1, *wd)],
                _ => vec![Op::BBuild(1, 0), Op::HashVal(1, 14, d), Op::Finish(0)],
            };
            p.push(Op::Loop(L_STABLE | L_BLIND, times / body.len() as u32, body));
            p.extend([Op::FinClone(0, 2), Op::Fin(0, *wd)]);
            split.push(p.len());
            ops.extend(p);
        }
        sc.runs.push(Run { w, mode: Mode::Threads(1, keys[0]), ops, split });
        sc.checks.push(Check::Quiet);
        sc.label(if crowd { "threads-crowd" } else { "threads-hammering" });
        sc
    };
    cx.suite("hammering threads", cx.n(24), 1, ham, |(keys, progs, salt), i| hammer(&[4, 1, 6, 4, 2, 0, 4, 3], keys, progs, *salt, i));
    // more threads alive than anyone has room for
    let crowd = || (related_keys(), proptest::collection::vec((any::<u8>(), 0u8..6, 0usize..70, 0u8..3), 150..=250), any::<u64>());
    cx.suite("very many threads", cx.n(24), 1, crowd, |(keys, progs, salt), i| hammer(&[1, 0, 6, 2, 3, 1, 4], keys, progs, *salt, i));
    // threads that share references to the same hashers, observing only
    let shared = |ws: &[usize], rounds: u32, keys: &[Key], v: &[S], salt: u64, i: usize| {
        let w = ws[i % ws.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        sc.label("threads-shared");
        let (ops, seen, _) = build(cx, w, keys, v, salt, false);
        // just before one of the observations
        let cut = seen.get(salt as usize % seen.len().max(1)).map_or(0, |x| x.0);
        sc.runs.push(Run { w, mode: Mode::Shared(2 + (salt % 7) as u8, rounds), ops, split: vec![cut] });
        sc.checks.push(Check::Quiet);
        attach(&mut sc, 0, 0, &seen, if w < nw { w + nw } else { nw });
        sc
    };
    cx.suite("shared between threads", cx.n(1_600), SHARDS / 2, || strat(30), |(keys, v, salt), i| {
        let w = [0, 1, 2, 3, 6, 4][i % 6];
        shared(&[w], if w == 4 { 8 } else { 40 }, keys, v, *salt, i)
    });
    cx.suite("shared between threads under ThreadSanitizer", cx.n(240), 4, || strat(30), |(keys, v, salt), i| {
        shared(&[tsan, tsan + 1], 4, keys, v, *salt, i)
    });
    // ThreadSanitizer sees every unsynchronised access pair, whatever the timing was
    cx.suite("concurrent threads under ThreadSanitizer", cx.n(120), 2, conc, |(keys, progs, salt), i| {
        mk(&[tsan, tsan + 1], 4, keys, progs, *salt, i)
    });
}
