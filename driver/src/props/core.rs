//! C01, C02, C05, C12: what is computed.
use crate::exec::{new_features, spec, Spec, X86};
use crate::gen::*;
use crate::model;
use crate::prog::{backend_name, ops::*, Content, Key, Op, Ref};
use crate::runner::{Ctx, SHARDS, UNEVEN};
use crate::scen::{Check, Mode, Part, Run, Scenario};
use crate::vary::vary;
use proptest::prelude::*;

const KEYS: [Key; 4] = [
    [0x0706050403020100, 0x0F0E0D0C0B0A0908, 0x1716151413121110, 0x1F1E1D1C1B1A1918],
    [0, 0, 0, 0],
    [u64::MAX, 0x8000000000000000, 1, 0xffffffff],
    [0x9ae16a3b2f90404f, 0xc949d7c7509e6557, 0xff51afd7ed558ccd, 0xc4ceb9fe1a85ec53],
];

/// Same data, four contents; used by the exhaustive length sweeps.
fn sweep_data(i: usize, n: usize, key: &Key) -> Vec<u8> {
    match i {
        0 => Content::Seed(n as u64 * 77 + 5).bytes(key, n),
        1 => Content::Targeted(n as u64 + 3).bytes(key, n),
        2 => Content::Const(0xff).bytes(key, n),
        _ => Content::Count(0).bytes(key, n),
    }
}

fn dead_oracle_guard(cx: &Ctx) {
    cx.extra("model", "reference model agrees with all published vectors");
}

/// The total length of a huge run and its key, both above the 32-bit boundary.
fn huge_case(i: u64, seed: u64) -> (Key, u64, u64, u64) {
    let r = crate::prog::expand(seed ^ (i << 32), 40);
    let key: Key = std::array::from_fn(|j| u64::from_le_bytes(r[j * 8..j * 8 + 8].try_into().unwrap()));
    (key, seed.wrapping_add(i), (1u64 << 32) + 32 * (r[32] as u64) + (r[33] as u64 % 32), r[34] as u64 % 64)
}

/// More than 2^32 packets, in one call (chunk = u64::MAX) or several.
pub fn giant_run(w: usize, b: u8, api: u8, wd: u8, pre: u64, chunk: u64) -> Run {
    Run { w, mode: Mode::Huge(b, api, wd, model::GIANT_KEY, model::GIANT_SEED, pre, model::GIANT_TOTAL, chunk), ops: vec![], split: vec![] }
}
pub fn giant(w: usize, b: u8, api: u8, wd: u8, pre: u64, chunk: u64) -> Scenario {
    let mut sc = Scenario { nontrivial: true, ..Default::default() };
    sc.runs.push(giant_run(w, b, api, wd, pre, chunk));
    sc.lit((0, 1), crate::prog::unhex(model::GIANT[wd as usize]).unwrap(), format!("{} more than 2^32 packets", crate::prog::backend_name(b)));
    sc.label("packets:>2^32");
    sc
}

pub fn c01(cx: &mut Ctx) {
    dead_oracle_guard(cx);
    cx.rule("PortableHash under generated (key, bytes, width, entry points, chunking) must equal an independent byte-level model (self-tested against the 195 published vectors). Non-trivial: at least one value compared with the model on a non-empty stream; distinct by program bytes.");
    cx.workers(vec![spec(X86, "dev"), spec(X86, "release"), spec(X86, "lto").nostd(), spec(X86, "checked").feat("cpu=native")]);
    let nw = cx.specs.len();
    cx.beside("more than 2^32 packets", {
        let far = [
            giant(1, B_PORTABLE, 0xff, 2, 5, u64::MAX),
            giant(1, B_PORTABLE, A_APPEND, 1, 0, u64::MAX),
            giant(2, B_PORTABLE, A_APPEND, 0, 0, (1 << 33) + 77),
        ];
        far.into_iter().map(|s| (s, None)).collect()
    });
    // every length x width x content, one-shot and append+finalize
    let max = cx.n(700).min(3000);
    cx.list("all lengths", (max + 1) * nw, SHARDS, |i| {
        let (n, w) = (i / nw, i % nw);
        let mut sc = Scenario { nontrivial: n > 0, ..Default::default() };
        let mut ops = vec![];
        let mut chk = vec![];
        for c in 0..4 {
            let key = &KEYS[(n + c) % 4];
            let d = sweep_data(c, n, key);
            for width in 0..3 {
                ops.push(Op::New(0, B_PORTABLE, *key));
                ops.push(Op::OneShot(0, width, 0, d.clone()));
                chk.push((ops.len() - 1, *key, width, d.clone()));
                ops.push(Op::New(0, B_PORTABLE, *key));
                ops.push(Op::Append(0, 0, 0, d.clone()));
                ops.push(Op::Fin(0, width));
                chk.push((ops.len() - 1, *key, width, d.clone()));
            }
        }
        sc.run(w, ops);
        for (o, k, wd, d) in chk {
            sc.lit((0, o), model::hash(&k, &d, wd), format!("length {n} width {}", 64 << wd));
        }
        sc
    });
    let one = || (key(), content(), upto(140), 0u8..3);
    cx.suite("one-shot, boundary keys and lanes", cx.n(600_000), SHARDS, one, |(k, c, n, wd), i| {
        let mut sc = Scenario { nontrivial: *n > 0, ..Default::default() };
        let d = c.bytes(k, *n);
        sc.label(c.label());
        sc.run(i % nw, vec![Op::New(0, B_PORTABLE, *k), Op::OneShot(0, *wd, 0, d.clone())]);
        sc.stream((0, 1), *k, *wd, &d, "PortableHash one-shot");
        sc
    });
    cx.suite("streams", cx.n(300_000), SHARDS, || hist(Mix { finclone: 3, finish: 1, checkpoint: 1, ..STREAM }), |h, i| {
        let mut sc = Scenario { nontrivial: h.total() > 0, ..Default::default() };
        h.labels(&mut sc);
        let mut h = h.clone();
        h.b = 0; // PortableHash
        let obs = h.play(cx, &mut sc, i % nw, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Model, false, "PortableHash stream");
        sc
    });
    let m = Mix { finclone: 3, finish: 2, checkpoint: 1, cloneswap: 1, ..STREAM };
    cx.suite("many different keys and inputs", cx.n(240), SHARDS | UNEVEN, vary, |v, i| {
        let w = i % nw;
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let end = match i / nw % 3 {
            0 => vec![Op::OneShot(0, v.wd, 0, v.data.clone())],
            1 => vec![v.whole(0), Op::Fin(0, v.wd)],
            _ => vec![v.whole(0), Op::FinClone(0, v.wd)],
        };
        sc.run(w, vec![v.all(cx, &[w], [vec![Op::New(0, B_PORTABLE, v.key)], end].concat())]);
        sc.lit((0, 0), v.sum(cx, &[w], true, v.wd, R_BYTES), "sum over many keys and inputs");
        sc.label("varied");
        sc
    });
    cx.suite("long repetitions", cx.n(240), SHARDS | UNEVEN, || long(m), |h, i| {
        let mut sc = Scenario { nontrivial: h.volume() > 0, ..Default::default() };
        h.labels(&mut sc);
        let mut h = h.clone();
        h.b = 0;
        let obs = h.play(cx, &mut sc, i % nw, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Model, false, "PortableHash, many calls");
        sc
    });
    cx.suite("marathons", cx.n(80), SHARDS | UNEVEN, || marathon(m), |h, i| {
        let w = i % nw;
        h.against_model(cx, w, B_PORTABLE, "PortableHash, more than 65536 packets")
    });
    let big = || (key(), any::<u64>(), big_len(1_000_000), 0u8..3, 1usize..200_000);
    cx.suite("large", cx.n(160), SHARDS, big, |(k, s, n, wd, c), i| {
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let d = Content::Seed(*s).bytes(k, *n);
        let mut ops = vec![Op::New(0, B_PORTABLE, *k)];
        for x in d.chunks(*c) {
            ops.push(Op::Append(0, 0, 0, x.to_vec()));
        }
        ops.push(Op::Fin(0, *wd));
        sc.run(i % nw, ops);
        let l = sc.runs[0].ops.len() - 1;
        sc.lit((0, l), model::hash(k, &d, *wd), "PortableHash large input");
        sc.label("total:large");
        sc
    });
    // beyond 4 GiB in one call
    let nh = if cx.thorough { 8 } else { 2 };
    cx.list("more than 4 GiB", nh, nh.min(SHARDS), |i| {
        let (k, seed, total, _) = huge_case(i as u64, cx.seed);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let wd = (i % 3) as u8;
        let api = if i % 2 == 0 { 0 } else { 0xff };
        sc.runs.push(Run {
            w: 1 + i % 2,
            mode: Mode::Huge(B_PORTABLE, api, wd, k, seed, 0, total, u64::MAX),
            ops: vec![],
            split: vec![],
        });
        let tile = crate::prog::expand(seed, 1 << 20);
        sc.lit((0, 1), model::hash_tiled(&k, &tile, total, wd), format!("{total} bytes in one call"));
        sc.label("total:>4GiB");
        sc
    });
}

pub fn x86_configs() -> Vec<Spec> {
    let mut v = vec![];
    for prof in ["dev", "release"] {
        for f in ["", "+sse4.1", "+avx2", "+sse4.1,-avx2", "cpu=native"] {
            v.push(spec(X86, prof).feat(f));
            v.push(spec(X86, prof).feat(f).nostd());
        }
    }
    v.push(spec(X86, "checked"));
    v.push(spec(X86, "lto"));
    v.push(spec(X86, "lto").nostd().feat("+avx2"));
    // emulated CPUs: the dispatcher must take another path on each
    v.push(spec(X86, "release").runner("cpu:Nehalem"));
    v.push(spec(X86, "dev").runner("cpu:Conroe"));
    for (_, f, q) in new_features().iter().filter(|f| f.0 == X86) {
        v.push(spec(X86, "release").feat(&format!("+{f}")));
        v.push(spec(X86, "dev").nostd().feat(&format!("+{f}")));
        if !q.is_empty() {
            v.push(spec(X86, "release").runner(&format!("cpu:Haswell,-{q}")));
        }
    }
    v
}

pub fn c02(cx: &mut Ctx) {
    cx.rule("On x86_64, in each build configuration, every hasher type (detected and forced constructors, dispatcher, builder) gets the same generated stream; every result must equal PortableHash's one-shot in the same process. Non-trivial: a non-portable type produced a value for a non-empty stream; distinct by program bytes.");
    cx.workers(x86_configs());
    let nw = cx.specs.len();
    let rel = cx.specs.iter().position(|s| s.profile == "release" && s.std && s.feat.is_empty()).unwrap();
    let mut far = vec![];
    for b in cx.types(rel) {
        for (j, (api, pre, chunk)) in [(A_APPEND, 0, u64::MAX), (0xff, 5, u64::MAX), (A_WRITE, 3, (1 << 33) + 77)].into_iter().enumerate() {
            if b == B_PORTABLE || b == B_AUTO && j == 1 {
                continue;
            }
            // the result is known; if it is not that, the portable hasher decides
            let sc = giant(rel, b, api, j as u8, pre, chunk);
            let mut second = Scenario { nontrivial: true, ..Default::default() };
            second.runs.push(giant_run(rel, b, api, j as u8, pre, chunk));
            second.runs.push(giant_run(rel, B_PORTABLE, A_APPEND, j as u8, pre, chunk));
            second.eq((0, 1), (1, 1), format!("{} more than 2^32 packets", crate::prog::backend_name(b)));
            far.push((sc, Some(second)));
        }
    }
    cx.beside("more than 2^32 packets", far);
    let max = cx.n(200).min(1100);
    cx.list("all lengths x types x widths x configurations", (max + 1) * nw, SHARDS, |i| {
        let (n, w) = (i / nw, i % nw);
        let mut sc = Scenario { nontrivial: n > 0, ..Default::default() };
        let mut ops = vec![];
        let mut eq = vec![];
        let key = KEYS[n % 4];
        for c in 0..2 {
            let d = sweep_data(c, n, &key);
            for width in 0..3u8 {
                ops.push(Op::New(0, B_PORTABLE, key));
                ops.push(Op::OneShot(0, width, 0, d.clone()));
                let want = ops.len() - 1;
                for b in cx.backends(w) {
                    ops.push(Op::New(0, b, key));
                    if (n + c) % 2 == 0 {
                        ops.push(Op::OneShot(0, width, 0, d.clone()));
                    } else {
                        ops.push(Op::Append(0, 0, 0, d.clone()));
                        ops.push(Op::Fin(0, width));
                    }
                    eq.push((ops.len() - 1, want, crate::prog::backend_name(b)));
                }
            }
        }
        sc.run(w, ops);
        for (a, b, t) in eq {
            sc.eq((0, a), (0, b), format!("{t} against PortableHash, length {n}"));
        }
        sc
    });
    let one = || (key(), content(), upto(140), 0u8..3);
    cx.suite("boundary keys and lanes", cx.n(160_000), SHARDS, one, |(k, c, n, wd), i| {
        let w = i % nw;
        let mut sc = Scenario { nontrivial: *n > 0, ..Default::default() };
        let d = c.bytes(k, *n);
        sc.label(c.label());
        let mut ops = vec![Op::New(0, B_PORTABLE, *k), Op::OneShot(0, *wd, 0, d.clone())];
        for b in cx.types(w) {
            ops.push(Op::New(0, b, *k));
            ops.push(Op::OneShot(0, *wd, 0, d.clone()));
        }
        sc.run(w, ops);
        for j in 0..cx.types(w).len() {
            sc.eq((0, 3 + 2 * j), (0, 1), crate::prog::backend_name(cx.types(w)[j]));
        }
        sc
    });
    let m = Mix { finclone: 2, finish: 1, hop: 1, cloneswap: 1, ..STREAM };
    cx.suite("streams", cx.n(120_000), SHARDS, || hist(m), |h, i| {
        let w = i % nw;
        let mut sc = Scenario { nontrivial: h.total() > 0, ..Default::default() };
        h.labels(&mut sc);
        let mut h = h.clone();
        if i % 5 == 0 {
            h.start = Start::Builder;
        }
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        sc.label(format!("type:{}", crate::prog::backend_name(cx.types(w)[h.b as usize % cx.types(w).len()])));
        expect(&mut sc, h.key, &obs, Oracle::Type(w, B_PORTABLE), false, "against PortableHash");
        sc
    });
    let m = Mix { finish: 3, debug: 1, checkpoint: 1, ..m };
    cx.suite("many different keys and inputs", cx.n(320), SHARDS | UNEVEN, vary, |v, i| {
        let w = i % nw;
        let ts = cx.types(w);
        let t = ts[i / nw % ts.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let body = |b: u8| match i / 7 % 4 {
            0 => vec![Op::New(0, b, v.key), Op::OneShot(0, v.wd, 0, v.data.clone())],
            1 => [&[Op::New(0, b, v.key)], &v.parts(0)[..], &[Op::Fin(0, v.wd)]].concat(),
            2 => [&[Op::New(0, b, v.key)], &v.parts(0)[..], &[Op::Checkpoint(0, 0)]].concat(),
            _ => vec![Op::New(0, b, v.key), v.whole(0), Op::Finish(0)],
        };
        sc.run(w, vec![v.all(cx, &[w], body(t)), v.all(cx, &[w], body(B_PORTABLE))]);
        sc.eq((0, 0), (0, 1), format!("many keys and inputs, {} against portable", backend_name(t)));
        sc.label("varied");
        sc
    });
    cx.suite("long repetitions", cx.n(320), SHARDS | UNEVEN, || long(m), |h, i| {
        let w = i % nw;
        let mut sc = Scenario { nontrivial: h.volume() > 0, ..Default::default() };
        h.labels(&mut sc);
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Type(w, B_PORTABLE), false, "against PortableHash, many calls");
        sc
    });
    cx.suite("marathons", cx.n(64), SHARDS | UNEVEN, || marathon(m), |h, i| {
        let w = i % nw;
        h.against_model(cx, w, cx.types(w)[h.b as usize % cx.types(w).len()], "more than 65536 packets")
    });
    let big = || (key(), any::<u64>(), big_len(600_000), 0u8..3, 1usize..200_000);
    cx.suite("large", cx.n(120), SHARDS, big, |(k, s, n, wd, c), i| {
        let w = i % nw;
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let d = Content::Seed(*s).bytes(k, *n);
        let types = cx.types(w);
        let mut ends = vec![];
        let mut ops = vec![];
        for b in &types {
            ops.push(Op::New(0, *b, *k));
            for x in d.chunks(*c) {
                ops.push(Op::Append(0, 0, 0, x.to_vec()));
            }
            ops.push(Op::Fin(0, *wd));
            ends.push(ops.len() - 1);
        }
        sc.run(w, ops);
        for (j, e) in ends.iter().enumerate().skip(1) {
            sc.eq((0, *e), (0, ends[0]), format!("{} large input", crate::prog::backend_name(types[j])));
        }
        sc.label("total:large");
        sc
    });
    let rel = cx.specs.iter().position(|s| s.profile == "release" && s.std && s.feat.is_empty()).unwrap();
    let types: Vec<u8> = cx.types(rel).into_iter().filter(|b| *b != B_PORTABLE).collect();
    let n = if cx.thorough { types.len() * 3 } else { types.len() };
    cx.list("more than 4 GiB", n, SHARDS.min(4), |i| {
        let (k, seed, total, _) = huge_case((i / types.len()) as u64, cx.seed);
        let wd = (i % 3) as u8;
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        for b in [B_PORTABLE, types[i % types.len()]] {
            sc.runs.push(Run {
                w: rel,
                mode: Mode::Huge(b, if i % 2 == 0 { 0 } else { 0xff }, wd, k, seed, 0, total, u64::MAX),
                ops: vec![],
                split: vec![],
            });
        }
        sc.eq((1, 1), (0, 1), format!("{} on {total} bytes", crate::prog::backend_name(types[i % types.len()])));
        sc.label("total:>4GiB");
        sc
    });
}

pub fn c05(cx: &mut Ctx) {
    use crate::exec::{ARM, WASM};
    cx.rule("A generated sequence of chunks through generated entry points (append, Hasher::write, io::Write family, one-shot on a used hasher) must give the one-shot value of the same type for the concatenation, at every intermediate point too. Non-trivial: at least two non-empty calls; distinct by program bytes.");
    cx.workers(vec![
        spec(X86, "dev"),
        spec(X86, "release"),
        spec(X86, "release").nostd().feat("+avx2"),
        spec(X86, "checked").feat("+sse4.1"),
        spec(ARM, "release"),
        spec(WASM, "release").feat("+simd128"),
        spec(ARM, "dev").nostd(),
        spec(WASM, "dev").feat("+simd128"),
    ]);
    let far = |b: u8| {
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        for (api, pre, chunk) in [(0xff, 5, u64::MAX), (A_WRITE, 3, (1 << 33) + 77), (A_APPEND, 0, u64::MAX)] {
            sc.runs.push(giant_run(1, b, api, 2, pre, chunk));
        }
        for j in 1..3 {
            sc.eq((0, 1), (j, 1), format!("{} more than 2^32 packets", crate::prog::backend_name(b)));
        }
        sc.label("packets:>2^32");
        (sc, None)
    };
    let (fast, slow): (Vec<u8>, Vec<u8>) = cx.types(1).into_iter().partition(|b| *b != B_PORTABLE);
    cx.beside("more than 2^32 packets", fast.into_iter().chain(slow.into_iter().filter(|_| cx.thorough)).map(far).collect());
    let nw = cx.specs.len();
    // all (buffered bytes, next chunk length) pairs for every type
    let (fa, fb) = (33usize, 100usize);
    cx.list("all fill x chunk pairs", fa * fb * 4, SHARDS, |i| {
        let (a, b, g) = (i % fa, i / fa % fb, i / fa / fb);
        // native workers see every pair; the emulated ones take turns
        let w = if g < 3 { g } else { 3 + (a + b) % (nw - 3) };
        let key = KEYS[(a + b) % 4];
        let total = a + b + (a * 7 + b) % 40;
        let d = sweep_data((a + 2 * b) % 2, total, &key);
        let mut sc = Scenario { nontrivial: a > 0 && b > 0, ..Default::default() };
        let mut ops = vec![];
        let mut eq = vec![];
        for (ti, t) in cx.types(w).into_iter().enumerate() {
            let wd = ((a + b + ti) % 3) as u8;
            ops.push(Op::New(0, t, key));
            ops.push(Op::OneShot(0, wd, 0, d.clone()));
            let want = ops.len() - 1;
            let api = ((a + b * 3 + ti + g) % N_APIS as usize) as u8;
            ops.push(Op::New(0, t, key));
            ops.push(Op::Append(0, api, 0, d[..a].to_vec()));
            ops.push(Op::Append(0, 0, 0, d[a..a + b].to_vec()));
            ops.push(Op::Append(0, 0, 0, vec![]));
            if b % 2 == 0 {
                ops.push(Op::OneShot(0, wd, 0, d[a + b..].to_vec()));
            } else {
                ops.push(Op::Append(0, api, 0, d[a + b..].to_vec()));
                ops.push(Op::Fin(0, wd));
            }
            eq.push((ops.len() - 1, want, t));
        }
        sc.run(w, ops);
        for (x, y, t) in eq {
            sc.eq((0, x), (0, y), format!("{} split {a}+{b}+rest", crate::prog::backend_name(t)));
        }
        sc
    });
    let m = Mix { append: 12, finclone: 2, finish: 2, flush: 1, max: 16, ..STREAM };
    cx.suite("chunkings", cx.n(144_000), SHARDS, || hist(m), |h, i| {
        let w = if i % 4 == 3 { 3 + i / 4 % (nw - 3) } else { i % 4 };
        let mut sc = Scenario { nontrivial: h.appends() >= 2, ..Default::default() };
        h.labels(&mut sc);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        sc.label(format!("type:{}", crate::prog::backend_name(b)));
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Type(w, b), false, "streaming");
        sc
    });
    cx.suite("many different keys and inputs", cx.n(320), SHARDS | UNEVEN, vary, |v, i| {
        let w = i % nw;
        let ts = cx.types(w);
        let b = ts[i / nw % ts.len()];
        let mut sc = Scenario { nontrivial: v.data.len() > v.cut, ..Default::default() };
        let one = vec![Op::New(0, b, v.key), Op::OneShot(0, v.wd, 0, v.data.clone())];
        let two = [&[Op::New(0, b, v.key)], &v.parts(0)[..], &[Op::Fin(0, v.wd)]].concat();
        sc.run(w, vec![v.all(cx, &[w], two), v.all(cx, &[w], one)]);
        sc.eq((0, 0), (0, 1), format!("{}: many keys and inputs in two parts", backend_name(b)));
        sc.label("varied");
        sc
    });
    cx.suite("long repetitions", cx.n(320), SHARDS | UNEVEN, || long(Mix { flush: 2, ..m }), |h, i| {
        let w = super::state::turn(i, nw);
        let mut sc = Scenario { nontrivial: h.volume() > 0, ..Default::default() };
        h.labels(&mut sc);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Type(w, b), false, "streaming, many calls");
        sc
    });
    cx.suite("marathons", cx.n(64), SHARDS | UNEVEN, || marathon(Mix { flush: 2, ..m }), |h, i| {
        let w = super::state::turn(i, nw);
        h.against_model(cx, w, cx.types(w)[h.b as usize % cx.types(w).len()], "streaming, more than 65536 packets")
    });
    // the same law for hashers restored from arbitrary bytes
    cx.suite("chunkings of restored hashers", cx.n(60_000), SHARDS, || raw_hist(m), |h, i| {
        let w = super::state::turn(i, nw);
        let mut sc = Scenario { nontrivial: h.total() > 0, ..Default::default() };
        h.labels(&mut sc);
        sc.label("start:restored");
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        if let Start::Raw(c) = &h.start {
            expect(&mut sc, h.key, &obs, Oracle::Ctor(w, Op::Restore(7, b, c.clone())), false, "streaming from a restored state");
        }
        sc
    });
    // many tiny calls
    let tiny = || (key(), any::<u64>(), proptest::collection::vec((0usize..5, 0..N_APIS), 30..260), any::<u8>(), 0u8..3);
    cx.suite("many small calls", cx.n(8_000), SHARDS, tiny, |(k, s, v, b, wd), i| {
        let w = i % nw;
        let total: usize = v.iter().map(|x| x.0).sum();
        let d = Content::Seed(*s).bytes(k, total);
        let types = cx.types(w);
        let t = types[*b as usize % types.len()];
        let mut ops = vec![Op::New(0, t, *k)];
        let mut p = 0;
        for (n, api) in v {
            ops.push(Op::Append(0, *api, 0, d[p..p + n].to_vec()));
            p += n;
        }
        ops.push(Op::Fin(0, *wd));
        ops.push(Op::New(0, t, *k));
        ops.push(Op::OneShot(0, *wd, 0, d));
        let n = ops.len();
        let mut sc = Scenario { nontrivial: total > 0, ..Default::default() };
        sc.run(w, ops);
        sc.eq((0, n - 3), (0, n - 1), "many small calls");
        sc.label("many-small");
        sc
    });
    let big = || (key(), any::<u64>(), big_len(400_000), 0u8..3, proptest::collection::vec((big_len(150_000).prop_map(|x| x.max(1)), 0..N_APIS), 1..8), any::<u8>());
    cx.suite("large chunks", cx.n(160), SHARDS, big, |(k, s, n, wd, cs, b), i| {
        let w = i % 4;
        let d = Content::Seed(*s).bytes(k, *n);
        let types = cx.types(w);
        let t = types[*b as usize % types.len()];
        let mut ops = vec![Op::New(0, t, *k)];
        let mut p = 0;
        for (c, api) in cs {
            let e = (p + c).min(d.len());
            ops.push(Op::Append(0, *api, 0, d[p..e].to_vec()));
            p = e;
        }
        ops.push(Op::OneShot(0, *wd, 0, d[p..].to_vec()));
        ops.push(Op::New(0, t, *k));
        ops.push(Op::OneShot(0, *wd, 0, d));
        let l = ops.len();
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        sc.run(w, ops);
        sc.eq((0, l - 3), (0, l - 1), "large chunks");
        sc.label("total:large");
        sc
    });
    // one call above 4 GiB against the same bytes in 1 GiB-ish calls
    let types = cx.types(1);
    let n = if cx.thorough { types.len() * 5 } else { 4 };
    cx.list("more than 4 GiB", n, SHARDS.min(4), |i| {
        let (k, seed, total, pre) = huge_case(i as u64, cx.seed ^ 5);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let b = types[i % types.len()];
        let api = [A_APPEND, A_HASHER, A_WRITE, 0xff, A_WRITE_ALL][(i + i / types.len()) % 5];
        for (pre, chunk, api) in [(pre, u64::MAX, api), (0, 1_000_000_007, A_APPEND)] {
            sc.runs.push(Run { w: 1, mode: Mode::Huge(b, api, (i % 3) as u8, k, seed, pre, total, chunk), ops: vec![], split: vec![] });
        }
        sc.eq((0, 1), (1, 1), format!("{} {} of {total} bytes after {pre}", crate::prog::backend_name(b), crate::prog::api_name(api)));
        sc.label("total:>4GiB");
        sc
    });
}


pub fn c12(cx: &mut Ctx) {
    use crate::exec::{ARM, I686, WASM};
    cx.rule("Hasher / io::Write / BuildHasher driven by generated operation sequences, including arbitrary Hash values whose write() bytes are recorded by a plain recording Hasher: every finish must be the 64-bit HighwayHash of exactly the bytes written so far, counts must be the full length, builders must agree with HighwayHasher::new and with builders in other processes. Non-trivial: a finish compared after at least one write; distinct by program bytes.");
    cx.workers(vec![
        spec(X86, "dev"),
        spec(X86, "release"),
        spec(X86, "release").nostd(),
        spec(X86, "checked").feat("+avx2"),
        spec(ARM, "dev"),
        spec(WASM, "release").feat("+simd128"),
        spec(I686, "dev"),
        spec(X86, "release").runner("cpu:Nehalem"),
    ]);
    let nw = cx.specs.len();
    #[derive(Clone, Debug)]
    enum S {
        Put(usize, u8),
        Val(u8, usize),
        Finish(u8),
        Flush,
        Clone(usize),
        One(u8, usize),
    }
    let strat = || {
        (
            key(),
            content(),
            any::<u8>(),
            any::<bool>(),
            proptest::collection::vec(
                prop_oneof![
                    5 => (len(), 0..N_APIS).prop_map(|(n, a)| S::Put(n, a)),
                    5 => (0..N_KINDS, prop_oneof![0usize..20, 0usize..80]).prop_map(|(k, n)| S::Val(k, n)),
                    5 => (1u8..3).prop_map(S::Finish),
                    1 => Just(S::Flush),
                    1 => (0usize..40).prop_map(S::Clone),
                    2 => (0..N_KINDS, 0usize..60).prop_map(|(k, n)| S::One(k, n)),
                ],
                1..14,
            ),
        )
    };
    cx.suite("adapter histories", cx.n(72_000), SHARDS, strat, |(k, c, b, builder, steps), i| {
        let w = if i % 4 == 3 { 4 + i / 4 % (nw - 4) } else { i % 4 };
        let mut sc = Scenario::default();
        let types = cx.types(w);
        let t = types[*b as usize % types.len()];
        let mut ops = vec![Op::BNew(0, *k), Op::BNew(1, *k)];
        if *builder {
            ops.push(Op::BBuild(0, 0));
            sc.label("via-builder");
        } else {
            ops.push(Op::New(0, t, *k));
        }
        let mut parts: Vec<Part> = vec![];
        let mut n = 0u64;
        let mut wrote = false;
        for s in steps {
            match s {
                S::Put(len, api) => {
                    // write_fmt takes text
                    let d = if *api == A_FMT { Content::Text(n).bytes(k, *len) } else { Content::bytes(c, k, *len + 1)[..*len].to_vec() };
                    let io = matches!(*api, A_WRITE | A_WRITE_ALL | A_COPY | A_VECTORED | A_BYREF | A_FMT);
                    ops.push(Op::Append(0, *api, 0, d.clone()));
                    if io {
                        sc.checks.push(Check::Lit(
                            Ref { run: 0, op: ops.len() - 1 },
                            (*len as u64).to_le_bytes().to_vec(),
                            format!("{} must report the full length", crate::prog::api_name(*api)),
                        ));
                        sc.checks.push(Check::NoErr(Ref { run: 0, op: ops.len() - 1 }));
                    }
                    wrote |= *len > 0;
                    n += *len as u64;
                    parts.push(Part::Lit(d));
                    sc.label(format!("api:{}", crate::prog::api_name(*api)));
                }
                S::Val(kind, len) => {
                    let d = Content::Text(n ^ 0x55).bytes(k, *len);
                    ops.push(Op::HashVal(0, *kind, d));
                    let at = Ref { run: 0, op: ops.len() - 1 };
                    parts.push(Part::Rec(at));
                    // the record carries finish() after the value
                    sc.checks.push(Check::Stream(at, *k, 0, parts.clone(), format!("finish after hashing a value of kind {kind}")));
                    sc.label("hash-value");
                    wrote = true;
                    n += 1;
                }
                S::Finish(times) => {
                    for _ in 0..*times {
                        ops.push(Op::Finish(0));
                        sc.checks.push(Check::Stream(
                            Ref { run: 0, op: ops.len() - 1 },
                            *k,
                            0,
                            parts.clone(),
                            "Hasher::finish".into(),
                        ));
                        sc.nontrivial |= wrote;
                    }
                    sc.label("finish");
                }
                S::Flush => {
                    ops.push(Op::Flush(0));
                    sc.checks.push(Check::NoErr(Ref { run: 0, op: ops.len() - 1 }));
                }
                S::Clone(len) => {
                    let d = junk(*len, 3);
                    ops.push(Op::Clone(0, 1));
                    ops.push(Op::Append(1, A_HASHER, 0, d.clone()));
                    ops.push(Op::Finish(1));
                    let mut p = parts.clone();
                    p.push(Part::Lit(d));
                    sc.checks.push(Check::Stream(Ref { run: 0, op: ops.len() - 1 }, *k, 0, p, "clone's finish".into()));
                }
                S::One(kind, len) => {
                    // builders hand out fresh, independent hashers at any time
                    let d = Content::Text(n ^ 0x99).bytes(k, *len);
                    for b in 0..2 {
                        ops.push(Op::HashOne(b, *kind, d.clone()));
                        let at = Ref { run: 0, op: ops.len() - 1 };
                        sc.checks.push(Check::Stream(at, *k, 0, vec![Part::Rec(at)], "BuildHasher::hash_one".into()));
                    }
                    ops.push(Op::BBuild(5, 1));
                    ops.push(Op::HashVal(5, *kind, d.clone()));
                    let at = Ref { run: 0, op: ops.len() - 1 };
                    sc.checks.push(Check::Stream(at, *k, 0, vec![Part::Rec(at)], "build_hasher of a second builder".into()));
                    ops.push(Op::New(6, B_AUTO, *k));
                    ops.push(Op::HashVal(6, *kind, d));
                    sc.eq((0, ops.len() - 1), (0, at.op), "builder against HighwayHasher::new");
                    sc.label("hash-one");
                    sc.nontrivial = true;
                }
            }
        }
        ops.push(Op::Finish(0));
        sc.checks.push(Check::Stream(Ref { run: 0, op: ops.len() - 1 }, *k, 0, parts, "final finish".into()));
        sc.nontrivial |= wrote;
        sc.run(w, ops);
        sc
    });
    let m = Mix { finish: 8, finclone: 1, flush: 2, cloneswap: 1, debug: 1, apis: N_APIS, ..STREAM };
    cx.suite("many different keys and inputs", cx.n(320), SHARDS | UNEVEN, vary, |v, i| {
        let w = i % nw;
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let ts = cx.types(w);
        let b = ts[i / nw % ts.len()];
        let kind = i / nw % 3;
        let body = match kind {
            0 => [&[Op::BNew(0, v.key), Op::BBuild(0, 0)], &v.parts(0)[..], &[Op::Finish(0)]].concat(),
            1 => [&[Op::New(0, b, v.key)], &v.parts(0)[..], &[Op::Finish(0)]].concat(),
            // nothing is known of the values' bytes here: another order gives the same
            _ => vec![Op::BNew(0, v.key), Op::HashOne(0, v.api[0] * 3, v.data.clone())],
        };
        let mut ops = vec![v.all(cx, &[w], body.clone())];
        if kind == 2 {
            ops.push(v.back(cx, &[w], body));
            sc.eq((0, 0), (0, 1), "many keys with hash_one, in another order");
        } else {
            sc.lit((0, 0), v.sum(cx, &[w], true, 0, R_NUM), "finish over many keys and inputs");
        }
        sc.run(w, ops);
        sc.label("varied");
        sc
    });
    cx.suite("long repetitions", cx.n(320), SHARDS | UNEVEN, || long(m), |h, i| {
        let w = super::state::turn(i, nw);
        let mut sc = Scenario { nontrivial: h.volume() > 0, ..Default::default() };
        h.labels(&mut sc);
        let mut h = h.clone();
        if i % 4 == 0 {
            h.start = Start::Builder;
        }
        h.steps.push(Step::Finish);
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Model, false, "adapters, many calls");
        // what every single iteration reported, too
        expect(&mut sc, h.key, &obs, Oracle::Type(w, B_PORTABLE), false, "adapters, many calls");
        sc
    });
    cx.suite("marathons", cx.n(64), SHARDS | UNEVEN, || marathon(m), |h, i| {
        let w = super::state::turn(i, nw);
        h.against_model(cx, w, cx.types(w)[h.b as usize % cx.types(w).len()], "adapters, more than 65536 packets")
    });
    // finish is the 64-bit result of a hasher restored from any bytes as well
    cx.suite("adapters of restored hashers", cx.n(32_000), SHARDS, || raw_hist(Mix { append: 6, ..m }), |h, i| {
        let w = super::state::turn(i, nw);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        sc.label("start:restored");
        let mut h = h.clone();
        h.steps.insert(0, Step::Finish);
        h.steps.insert(1, Step::FinClone(0));
        h.steps.push(Step::Finish);
        let types = cx.types(w);
        let b = types[h.b as usize % types.len()];
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        if let Start::Raw(c) = &h.start {
            expect(&mut sc, h.key, &obs, Oracle::Ctor(w, Op::Restore(7, b, c.clone())), false, "finish of a restored hasher");
        }
        sc
    });
    // hash_one and builders over and over
    let rep = || (key(), 0..N_KINDS, 0usize..24, any::<u64>(), prop_oneof![Just(300u32), Just(65_540u32)]);
    cx.suite("builders over and over", cx.n(280), SHARDS | UNEVEN, rep, |(k, kind, n, s, times), i| {
        let w = super::state::turn(i, nw);
        let d = Content::Text(*s).bytes(k, *n);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        // (values that contain hashers are expensive without optimisation)
        let times = if *kind == 23 && cx.specs[w].profile == "dev" { 300 } else { *times };
        let one = Op::HashOne(0, *kind, d.clone());
        let ops = vec![
            Op::BNew(0, *k),
            one.clone(),
            Op::Loop(L_STABLE, times, vec![one.clone(), Op::BBuild(0, 0), Op::HashVal(0, *kind, d.clone())]),
            one,
            Op::BBuild(0, 0),
            Op::HashVal(0, *kind, d),
        ];
        sc.run(w, ops);
        sc.checks.push(Check::NoErr(Ref { run: 0, op: 2 }));
        for o in [1, 3, 5] {
            sc.checks.push(Check::Stream(Ref { run: 0, op: o }, *k, 0, vec![Part::Rec(Ref { run: 0, op: o })], "one shared builder".into()));
        }
        sc.label("builder-repeated");
        sc
    });
    // builders of the same key in different processes and configurations
    let two = || (key(), 0..N_KINDS, 0usize..100, any::<u64>());
    cx.suite("builders across processes", cx.n(48_000), SHARDS, two, |(k, kind, n, s), i| {
        let (w, w2) = (i % nw, (i + 1 + i / nw % (nw - 1)) % nw);
        // kinds whose written bytes depend on the word size are compared between 64-bit processes only
        let kind = if cx.info[w].ptr != cx.info[w2].ptr && ![0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 13, 14, 16].contains(kind) { 14 } else { *kind };
        let d = Content::Text(*s).bytes(k, *n);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        for w in [w, w2] {
            sc.run(w, vec![Op::BNew(0, *k), Op::HashOne(0, kind, d.clone()), Op::BBuild(0, 0), Op::HashVal(0, kind, d.clone())]);
        }
        sc.eq((0, 1), (1, 1), "hash_one in two processes");
        sc.eq((0, 3), (1, 3), "build_hasher in two processes");
        sc.eq((0, 1), (0, 3), "hash_one against build_hasher");
        sc.label("cross-process");
        sc
    });
    // reported counts beyond 32 bits
    let types = cx.types(1);
    let n = if cx.thorough { 6 } else { 2 };
    cx.list("more than 4 GiB", n, 4, |i| {
        let (k, seed, total, pre) = huge_case(i as u64, cx.seed ^ 12);
        let b = types[(i + 1) % types.len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let api = if i % 2 == 0 { A_WRITE } else { A_HASHER };
        for (api, chunk) in [(api, u64::MAX), (A_APPEND, 1 << 30)] {
            sc.runs.push(Run { w: 1, mode: Mode::Huge(b, api, 0, k, seed, pre, total, chunk), ops: vec![], split: vec![] });
        }
        sc.lit((0, 0), total.to_le_bytes().to_vec(), "reported length of a huge write");
        sc.eq((0, 1), (1, 1), "huge write");
        sc.label("total:>4GiB");
        sc
    });
}
