//! C03, C04, C17: other architectures.
use super::core::{giant, giant_run};
use crate::exec::{spec, ARM, I686, PPC64, WASM, X86};
use crate::gen::*;
use crate::prog::{backend_name, ops::*, Content, Key, Op};
use crate::runner::{Ctx, SHARDS, UNEVEN};
use crate::scen::{Mode, Run, Scenario};
use crate::vary::vary;
use proptest::prelude::*;

/// `simd` on the workers `ws` against PortableHash there and on x86_64 (`peers`).
fn simd_backend(cx: &Ctx, simd: u8, ws: &[usize], peers: &[usize], scale: usize) {
    let lens = cx.n(140).min(700);
    cx.list("all lengths x widths x configurations", (lens + 1) * ws.len(), SHARDS, |i| {
        let (n, w) = (i / ws.len(), ws[i % ws.len()]);
        let mut sc = Scenario { nontrivial: n > 0, ..Default::default() };
        let mut ops = vec![];
        let mut eq = vec![];
        for c in 0..3u64 {
            let key: Key = [n as u64 * 31 + c, !0 << c, c, 0x0123_4567_89ab_cdef];
            let d = if c == 1 { Content::Targeted(n as u64) } else { Content::Seed(n as u64 ^ c << 32) }.bytes(&key, n);
            for wd in 0..3 {
                ops.push(Op::New(0, B_PORTABLE, key));
                ops.push(Op::OneShot(0, wd, 0, d.clone()));
                let want = ops.len() - 1;
                for b in [simd, B_AUTO] {
                    ops.push(Op::New(0, b, key));
                    if (n + c as usize) % 2 == 0 {
                        ops.push(Op::OneShot(0, wd, 0, d.clone()));
                    } else {
                        ops.push(Op::Append(0, 0, 0, d.clone()));
                        ops.push(Op::Fin(0, wd));
                    }
                    eq.push((ops.len() - 1, want));
                }
            }
            ops.push(Op::New(0, B_PORTABLE, key));
            ops.push(Op::Append(0, 0, 0, d.clone()));
            ops.push(Op::Checkpoint(0, 0));
            let want = ops.len() - 1;
            ops.push(Op::New(0, simd, key));
            ops.push(Op::Append(0, 0, 0, d.clone()));
            ops.push(Op::Checkpoint(0, 0));
            eq.push((ops.len() - 1, want));
        }
        sc.run(w, ops);
        for (a, b) in eq {
            sc.eq((0, a), (0, b), format!("{} against PortableHash, length {n}", backend_name(simd)));
        }
        sc
    });
    // every fill x chunk pair
    let (fa, fb) = (33usize, 68usize);
    cx.list("all fill x chunk pairs", fa * fb, SHARDS, |i| {
        let (a, b) = (i % fa, i / fa);
        let w = ws[i % ws.len()];
        let key: Key = [a as u64, b as u64, 3, 4];
        let d = Content::Seed(i as u64).bytes(&key, a + b + 5);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let mut ops = vec![];
        let mut eq = vec![];
        for wd in 0..3 {
            ops.push(Op::New(0, B_PORTABLE, key));
            ops.push(Op::OneShot(0, wd, 0, d.clone()));
            let want = ops.len() - 1;
            ops.push(Op::New(0, simd, key));
            ops.push(Op::Append(0, 0, 0, d[..a].to_vec()));
            ops.push(Op::Append(0, 0, 0, d[a..a + b].to_vec()));
            ops.push(Op::OneShot(0, wd, 0, d[a + b..].to_vec()));
            eq.push((ops.len() - 1, want));
        }
        sc.run(w, ops);
        for (x, y) in eq {
            sc.eq((0, x), (0, y), format!("{} split {a}+{b}+5", backend_name(simd)));
        }
        sc
    });
    let one = || (key(), content(), upto(140), 0u8..3);
    cx.suite("boundary keys and lanes", cx.n(80_000) * scale / 2, SHARDS, one, |(k, c, n, wd), i| {
        let w = ws[i % ws.len()];
        let mut sc = Scenario { nontrivial: *n > 0, ..Default::default() };
        let d = c.bytes(k, *n);
        sc.label(c.label());
        let mut ops = vec![];
        for b in [B_PORTABLE, simd, B_AUTO] {
            ops.push(Op::New(0, b, *k));
            ops.push(Op::OneShot(0, *wd, 0, d.clone()));
        }
        sc.run(w, ops);
        sc.eq((0, 3), (0, 1), format!("{} against PortableHash", backend_name(simd)));
        sc.eq((0, 5), (0, 1), "HighwayHasher against PortableHash");
        sc
    });
    let m = Mix { finclone: 2, finish: 1, hop: 2, checkpoint: 2, cloneswap: 1, clonefrom: 1, diverge: 1, debug: 1, place: 1, placed: true, ..STREAM };
    cx.suite("streams", cx.n(48_000) * scale / 2, SHARDS, || hist(m), |h, i| {
        let w = ws[i % ws.len()];
        let types = cx.types(w);
        let mut h = h.clone();
        h.b = types.iter().position(|t| *t == simd).unwrap() as u8;
        let mut sc = Scenario { nontrivial: h.total() > 0, ..Default::default() };
        h.labels(&mut sc);
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Type(w, B_PORTABLE), true, "against PortableHash");
        sc
    });
    cx.suite("many different keys and inputs", cx.n(160), SHARDS | UNEVEN, vary, |v, i| {
        let w = ws[i % ws.len()];
        let t = [simd, B_AUTO][i / 3 % 2];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let body = |b: u8| match i / 7 % 4 {
            0 => vec![Op::New(0, b, v.key), Op::OneShot(0, v.wd, 0, v.data.clone())],
            1 => [&[Op::New(0, b, v.key)], &v.parts(0)[..], &[Op::Fin(0, v.wd)]].concat(),
            2 => [&[Op::New(0, b, v.key)], &v.parts(0)[..], &[Op::Checkpoint(0, 0)]].concat(),
            _ => vec![Op::New(0, b, v.key), v.whole(0), Op::Finish(0)],
        };
        sc.run(w, vec![v.all(cx, &[w], body(t)), v.all(cx, &[w], body(B_PORTABLE))]);
        sc.eq((0, 0), (0, 1), format!("many keys and inputs, {} against portable", backend_name(t)));
        sc.label("varied");
        sc
    });
    cx.suite("long repetitions", cx.n(160), SHARDS | UNEVEN, || long(Mix { place: 0, placed: false, finish: 2, ..m }), |h, i| {
        let w = ws[i % ws.len()];
        let types = cx.types(w);
        let mut h = h.clone();
        h.b = types.iter().position(|t| *t == simd).unwrap() as u8;
        let mut sc = Scenario { nontrivial: h.volume() > 0, ..Default::default() };
        h.labels(&mut sc);
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Type(w, B_PORTABLE), true, "against PortableHash, many calls");
        sc
    });
    cx.suite("marathons", cx.n(40), SHARDS | UNEVEN, || marathon(Mix { place: 0, placed: false, finish: 2, ..m }), |h, i| {
        let w = ws[i % ws.len()];
        h.against_model(cx, w, simd, "more than 65536 packets")
    });
    let every: Vec<usize> = ws.iter().chain(peers).copied().collect();
    cx.suite("checkpoints to and from other backends", cx.n(24_000), SHARDS, || hist(Mix { cross: 6, max: 12, ..m }), |h, i| {
        let w = every[i % every.len()];
        let types = cx.types(w);
        let mut h = h.clone();
        if let Some(p) = types.iter().position(|t| *t == simd) {
            h.b = p as u8;
        }
        // pass through the backend under test and come back
        let me = (i % ws.len()) as u8;
        let ix = cx.backends(ws[me as usize]).iter().position(|t| *t == simd).unwrap() as u8;
        let at = h.steps.len() / 2;
        h.steps.insert(at, Step::Cross(me, ix));
        h.steps.push(Step::Cross(h.b, h.b));
        let mut sc = Scenario { nontrivial: h.total() > 0, ..Default::default() };
        h.labels(&mut sc);
        let obs = h.play(cx, &mut sc, w, &every, Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Type(peers[i % peers.len()], B_PORTABLE), true, "across backends");
        sc
    });
    // arbitrary states: the backends agree on every state, not only on reachable ones
    let raw = || (super::state::raw_checkpoint(), len(), 0u8..3, any::<u64>());
    cx.suite("arbitrary states", cx.n(36_000), SHARDS, raw, |(c, n, wd, s), i| {
        let w = ws[i % ws.len()];
        let d = Content::Seed(*s).bytes(&[0; 4], *n);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let mut ops = vec![];
        for b in [B_PORTABLE, simd] {
            ops.push(Op::Restore(0, b, c.clone()));
            ops.push(Op::Append(0, 0, 0, d.clone()));
            ops.push(Op::Checkpoint(0, 0));
            ops.push(Op::Fin(0, *wd));
        }
        sc.run(w, ops);
        sc.eq((0, 6), (0, 2), "checkpoint after an arbitrary state");
        sc.eq((0, 7), (0, 3), "result after an arbitrary state");
        sc.label("arbitrary-state");
        sc
    });
    let big = || (key(), any::<u64>(), big_len(300_000), 0u8..3, 1usize..100_000);
    cx.suite("large", cx.n(48), SHARDS, big, |(k, s, n, wd, c), i| {
        let w = ws[i % ws.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let d = Content::Seed(*s).bytes(k, *n);
        let mut ops = vec![];
        let mut ends = vec![];
        for b in [B_PORTABLE, simd] {
            ops.push(Op::New(0, b, *k));
            for x in d.chunks(*c) {
                ops.push(Op::Append(0, 0, 0, x.to_vec()));
            }
            ops.push(Op::Fin(0, *wd));
            ends.push(ops.len() - 1);
        }
        sc.run(w, ops);
        sc.eq((0, ends[1]), (0, ends[0]), "large input");
        sc.label("total:large");
        sc
    });
}

pub fn c03(cx: &mut Ctx) {
    cx.rule("NeonHash (and the dispatcher) on aarch64 under qemu-user, dev/release/lto and std/no_std: generated streams, chunkings, hops and arbitrary states must agree with PortableHash in the same process and with x86_64 processes through checkpoints. Non-trivial: NeonHash produced a value for a non-empty stream; distinct by program bytes.");
    cx.workers(vec![
        spec(ARM, "dev"),
        spec(ARM, "release"),
        spec(ARM, "checked").nostd(),
        spec(ARM, "lto").feat("cpu=cortex-a72"),
        spec(ARM, "release").nostd().feat("cpu=neoverse-v1"),
        spec(X86, "release"),
        spec(X86, "dev"),
        spec(WASM, "release").feat("+simd128"),
    ]);
    if cx.thorough {
        cx.beside("more than 2^32 packets", vec![(giant(1, B_NEON, A_APPEND, 2, 5, u64::MAX), None)]);
    }
    simd_backend(cx, B_NEON, &[0, 1, 2, 3, 4], &[5, 6, 7], 2);
    cx.list("more than 4 GiB", if cx.thorough { 6 } else { 1 }, 3, |i| {
        let (wd, key) = ((i % 3) as u8, [i as u64, cx.seed, 3, 4]);
        let total = (1u64 << 32) + 1 + 45 * i as u64;
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let api = if i % 2 == 0 { 0xff } else { A_APPEND };
        for (w, b, chunk) in [([1, 3, 4][i % 3], B_NEON, u64::MAX), (5, B_PORTABLE, 1 << 30)] {
            sc.runs.push(Run { w, mode: Mode::Huge(b, api, wd, key, cx.seed ^ i as u64, i as u64 % 40, total, chunk), ops: vec![], split: vec![] });
        }
        sc.eq((0, 1), (1, 1), format!("NeonHash on {total} bytes"));
        sc.label("total:>4GiB");
        sc
    });
}

pub fn c04(cx: &mut Ctx) {
    cx.rule("WasmHash (and the dispatcher) in wasm32+simd128 modules under node, dev/release/checked and std/no_std: generated streams, chunkings, hops and arbitrary states must agree with PortableHash in the same module and with x86_64/aarch64 processes through checkpoints; a trap is a failure. Non-trivial: WasmHash produced a value for a non-empty stream; distinct by program bytes.");
    cx.workers(vec![
        spec(WASM, "dev").feat("+simd128"),
        spec(WASM, "release").feat("+simd128"),
        spec(WASM, "checked").feat("+simd128").nostd(),
        spec(WASM, "release").feat("+simd128,+relaxed-simd,+bulk-memory,+sign-ext,+nontrapping-fptoint,+multivalue,+tail-call").nostd(),
        spec(WASM, "dev").feat("+simd128").nostd(),
        spec(X86, "release"),
        spec(X86, "dev"),
        spec(ARM, "release"),
    ]);
    // the modules have no memory for a long call, so many
    let far = [(1, B_WASM, 2, 5), (3, B_AUTO, 1, 0)].map(|(w, b, wd, pre)| {
        let mut second = Scenario { nontrivial: true, ..Default::default() };
        second.runs.push(giant_run(w, b, A_APPEND, wd, pre, 1 << 27));
        second.runs.push(giant_run(5, B_PORTABLE, A_APPEND, wd, 0, 1 << 30));
        second.eq((0, 1), (1, 1), format!("{} more than 2^32 packets", backend_name(b)));
        (giant(w, b, A_APPEND, wd, pre, 1 << 27), Some(second))
    });
    cx.beside("more than 2^32 packets", far.into());
    simd_backend(cx, B_WASM, &[0, 1, 2, 3, 4], &[5, 6, 7], 2);
    // lengths whose number of bits does not fit the word
    cx.list("512 MiB and more", if cx.thorough { 8 } else { 2 }, 2, |i| {
        let w = [1, 3, 2, 0][i % 4];
        let (wd, key) = ((i % 3) as u8, [i as u64, cx.seed, 3, 4]);
        // one call, or several with more than 4 GiB in total
        let (total, chunk) = match i % 4 {
            0 | 3 => ((1u64 << 29) + 1 + 45 * i as u64 + (i as u64 / 4) * (700 << 20), u64::MAX),
            _ => ((1u64 << 32) + 1 + 45 * i as u64, (1 << 28) - 3 * i as u64),
        };
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let api = if i % 4 == 3 { 0xff } else { A_APPEND };
        for (w, b, chunk) in [(w, B_WASM, chunk), (5, B_PORTABLE, 1 << 27)] {
            sc.runs.push(Run { w, mode: Mode::Huge(b, api, wd, key, cx.seed ^ i as u64, i as u64 % 40, total, chunk), ops: vec![], split: vec![] });
        }
        sc.eq((0, 1), (1, 1), format!("WasmHash on {total} bytes"));
        sc.label("total:>512MiB");
        sc
    });
}

pub fn c17(cx: &mut Ctx) {
    cx.rule("The same generated PortableHash histories run on 64-bit LE (x86_64, aarch64), 32-bit LE (i686, wasm32), 64-bit BE (powerpc64 under qemu) and 32-bit BE / 64-bit BE (powerpc, s390x under Miri): all outputs and checkpoints must be byte-identical, and checkpoints written on one must restore on another. Non-trivial: at least one result or checkpoint compared between targets of different byte order or word size on a non-empty stream; distinct by program bytes.");
    let mut v = vec![
        spec(X86, "release"),
        spec(PPC64, "release"),
        spec(I686, "release"),
        spec(PPC64, "dev"),
        spec(WASM, "release"),
        spec(I686, "dev"),
        spec(ARM, "release").nostd(),
        spec(PPC64, "release").nostd(),
        spec(I686, "checked").nostd(),
        spec(WASM, "dev").feat("+simd128").nostd(),
    ];
    let emulated = v.len();
    v.push(spec("powerpc-unknown-linux-gnu", "dev").runner("miri"));
    v.push(spec("s390x-unknown-linux-gnu", "dev").runner("miri").nostd());
    cx.workers(v);
    for (s, i) in cx.specs.iter().zip(&cx.info) {
        cx.extra(&s.line(), format!("{}-bit {}", i.ptr, if i.be { "big-endian" } else { "little-endian" }));
    }
    // 32-bit counts of packets; takes ten minutes
    let far = (0..emulated).filter(|w| cx.thorough && cx.specs[*w].target == I686 && cx.specs[*w].profile == "release").take(1).map(|w| {
        let mut second = Scenario { nontrivial: true, ..Default::default() };
        second.runs.push(giant_run(w, B_PORTABLE, A_APPEND, 2, 3, 1 << 29));
        second.runs.push(giant_run(0, B_PORTABLE, A_APPEND, 2, 3, 1 << 29));
        second.eq((0, 1), (1, 1), format!("more than 2^32 packets on {}", cx.specs[w].line()));
        (giant(w, B_PORTABLE, A_APPEND, 2, 3, 1 << 29), Some(second))
    });
    cx.beside("more than 2^32 packets", far.collect());
    let cols = |sc: &mut Scenario, ws: &[usize], ops: Vec<Op>, see: &[usize], what: &str| {
        let f = sc.runs.len();
        for w in ws {
            sc.run(*w, ops.clone());
        }
        for k in 1..ws.len() {
            for s in see {
                sc.eq((f + k, *s), (f, *s), format!("{what} on {}", cx.specs[ws[k]].line()));
            }
        }
    };
    let script = |key: Key, d: &[u8], cuts: &[usize]| {
        let mut ops = vec![Op::New(0, B_PORTABLE, key)];
        let mut see = vec![];
        let mut p = 0;
        for c in cuts {
            let e = (p + c).min(d.len());
            ops.push(Op::Append(0, 0, 0, d[p..e].to_vec()));
            p = e;
            ops.push(Op::Checkpoint(0, 0));
            see.push(ops.len() - 1);
            ops.push(Op::Finish(0));
            see.push(ops.len() - 1);
        }
        ops.push(Op::Append(0, 0, 0, d[p..].to_vec()));
        for w in 0..3 {
            ops.push(Op::FinClone(0, w));
            see.push(ops.len() - 1);
        }
        ops.push(Op::Checkpoint(0, 0));
        see.push(ops.len() - 1);
        ops.push(Op::RestoreReg(0, B_PORTABLE, 0));
        ops.push(Op::Fin(0, 2));
        see.push(ops.len() - 1);
        (ops, see)
    };
    let all: Vec<usize> = (0..emulated).collect();
    cx.list("all lengths on all targets", 140, SHARDS, |n| {
        let key: Key = [0x0102030405060708, n as u64, 0x1122334455667788, !(n as u64)];
        let d = Content::Seed(n as u64).bytes(&key, n);
        let (ops, see) = script(key, &d, &[n / 3]);
        let mut sc = Scenario { nontrivial: n > 0, ..Default::default() };
        cols(&mut sc, &all, ops, &see, "outputs");
        sc
    });
    let st = || (key(), content(), proptest::collection::vec(len(), 0..5));
    cx.suite("streams on pairs of targets", cx.n(56_000), SHARDS, st, |(k, c, cuts), i| {
        let total: usize = cuts.iter().sum();
        let d = c.bytes(k, total);
        let mut sc = Scenario { nontrivial: total > 0, ..Default::default() };
        sc.label(c.label());
        let w = 1 + i % (emulated - 1);
        sc.label(format!("{}-bit {}", cx.info[w].ptr, if cx.info[w].be { "BE" } else { "LE" }));
        let (ops, see) = script(*k, &d, cuts);
        cols(&mut sc, &[0, w], ops, &see, "outputs");
        sc
    });
    // checkpoints travel between targets; arbitrary states too
    cx.suite("travelling checkpoints", cx.n(25_000), SHARDS, || hist(Mix { cross: 6, finclone: 2, checkpoint: 3, max: 10, ..STREAM }), |h, i| {
        let w = i % emulated;
        let mut h = h.clone();
        h.b = 0;
        for s in h.steps.iter_mut() {
            if let Step::Cross(_, b) = s {
                *b = 0; // PortableHash
            }
        }
        let mut sc = Scenario { nontrivial: h.total() > 0, ..Default::default() };
        h.labels(&mut sc);
        let there = h.play(cx, &mut sc, w, &all, Mode::Prog(false));
        // the same history, all of it on x86_64
        let here = h.play(cx, &mut sc, 0, &[0], Mode::Prog(false));
        for (a, b) in there.iter().zip(&here) {
            sc.eq((a.at.run, a.at.op), (b.at.run, b.at.op), format!("{:?} across byte orders", a.what));
        }
        sc
    });
    let raw = || (super::state::raw_checkpoint(), len(), 0u8..3, any::<u64>());
    cx.suite("arbitrary states", cx.n(24_000), SHARDS, raw, |(c, n, wd, s), i| {
        let d = Content::Seed(*s).bytes(&[0; 4], *n);
        let ops = vec![
            Op::Restore(0, B_PORTABLE, c.clone()),
            Op::Checkpoint(0, 0),
            Op::Append(0, 0, 0, d),
            Op::Checkpoint(0, 0),
            Op::Fin(0, *wd),
        ];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        cols(&mut sc, &[0, 1 + i % (emulated - 1)], ops, &[1, 3, 4], "restored state");
        sc.label("arbitrary-state");
        sc
    });
    let m = Mix { finish: 3, finclone: 2, checkpoint: 2, ..STREAM };
    cx.suite("many different keys and inputs", cx.n(160), SHARDS | UNEVEN, vary, |v, i| {
        let w = 1 + i % (emulated - 1);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let end = if i / (emulated - 1) % 2 == 0 { Op::Fin(0, v.wd) } else { Op::Checkpoint(0, 0) };
        let body = [&[Op::New(0, B_PORTABLE, v.key)], &v.parts(0)[..], &[end]].concat();
        let a = sc.run(w, vec![v.all(cx, &[0, w], body.clone())]);
        let b = sc.run(0, vec![v.all(cx, &[0, w], body)]);
        sc.eq((a, 0), (b, 0), format!("many keys and inputs on {}", cx.specs[w].line()));
        sc.label("varied");
        sc
    });
    cx.suite("long repetitions", cx.n(160), SHARDS | UNEVEN, || long(m), |h, i| {
        let w = 1 + i % (emulated - 1);
        let mut h = h.clone();
        h.b = 0;
        let mut sc = Scenario { nontrivial: h.volume() > 0, ..Default::default() };
        h.labels(&mut sc);
        let there = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        let here = h.play(cx, &mut sc, 0, &[], Mode::Prog(false));
        for (a, b) in there.iter().zip(&here) {
            sc.eq((a.at.run, a.at.op), (b.at.run, b.at.op), format!("{:?} on {}, many calls", a.what, cx.specs[w].line()));
        }
        sc
    });
    cx.suite("marathons", cx.n(40), SHARDS | UNEVEN, || marathon(m), |h, i| {
        let w = 1 + i % (emulated - 1);
        h.against_model(cx, w, B_PORTABLE, "more than 65536 packets")
    });
    // sizes at which 32-bit counts of bits or bytes overflow, in one call and in several
    let huge: Vec<usize> = (0..emulated).filter(|w| cx.info[*w].ptr == 32 && (cx.thorough || cx.specs[*w].profile != "dev")).collect();
    cx.list("512 MiB and more on 32-bit targets", huge.len() * if cx.thorough { 4 } else { 2 }, 6, |i| {
        let (w, k) = (huge[i % huge.len()], (i / huge.len()) as u64);
        let (wd, key) = ((i % 3) as u8, [i as u64, cx.seed, 3, 4]);
        let (api, total, chunk) = match (i as u64 + k) % 4 {
            0 => (A_APPEND, (1u64 << 29) + 77 * i as u64, u64::MAX),
            1 => (A_APPEND, (1u64 << 32) + 77 * i as u64, (1 << 27) + i as u64),
            2 => (0xff, (1u64 << 29) + 77 * i as u64 + k * (300 << 20), u64::MAX),
            _ => (A_HASHER, (1u64 << 32) + 77 * i as u64, (1 << 29) - 1),
        };
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        for (w, api, chunk) in [(w, api, chunk), (0, if api == 0xff { A_APPEND } else { api }, 1 << 27)] {
            sc.runs.push(Run { w, mode: Mode::Huge(B_PORTABLE, api, wd, key, cx.seed ^ i as u64, i as u64 % 40, total, chunk), ops: vec![], split: vec![] });
        }
        sc.eq((0, 1), (1, 1), format!("{total} bytes on {}", cx.specs[w].line()));
        sc.label("total:>512MiB on 32-bit");
        sc
    });
    let big = || (key(), any::<u64>(), big_len(300_000), 0u8..3);
    cx.suite("large", cx.n(48), SHARDS, big, |(k, s, n, wd), i| {
        let d = Content::Seed(*s).bytes(k, *n);
        let ops = vec![Op::New(0, B_PORTABLE, *k), Op::Append(0, 0, 0, d.clone()), Op::Fin(0, *wd)];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        cols(&mut sc, &[0, 1 + i % (emulated - 1)], ops, &[2], "large input");
        sc.label("total:large");
        sc
    });
    // 32-bit big-endian and a second 64-bit big-endian target, interpreted
    let small = || (key(), content(), proptest::collection::vec(0usize..50, 0..3), super::state::raw_checkpoint());
    cx.suite("interpreted big-endian targets", cx.n(160), 4, small, |(k, c, cuts, raw), i| {
        let w = emulated + i % 2;
        let total: usize = cuts.iter().sum();
        let d = c.bytes(k, total);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        sc.label(format!("{}-bit {} (Miri)", cx.info[w].ptr, if cx.info[w].be { "BE" } else { "LE" }));
        let (mut ops, mut see) = script(*k, &d, cuts);
        let n = ops.len();
        ops.push(Op::Restore(0, B_PORTABLE, raw.clone()));
        ops.push(Op::Append(0, 0, 0, d.clone()));
        ops.push(Op::Checkpoint(0, 0));
        ops.push(Op::Fin(0, (i % 3) as u8));
        see.push(n + 2);
        see.push(n + 3);
        cols(&mut sc, &[0, w], ops, &see, "outputs");
        sc
    });
}
