//! C10: which backend the dispatching hasher runs on.
use super::state::raw_checkpoint;
use crate::exec::{new_features, spec, Spec, ARM, I686, WASM, X86};
use crate::gen::*;
use crate::prog::{backend_name, ops::*, Content, Key, Op, Ref};
use crate::runner::{Ctx, SHARDS};
use crate::scen::{Check, Mode, Run, Scenario, FIRST};
use crate::vary::vary;
use proptest::prelude::*;

/// Emulated CPUs that satisfy what the build was told to assume.
fn cpus(feat: &str) -> &'static [&'static str] {
    match feat {
        "" => &["Conroe", "Penryn", "Nehalem", "IvyBridge", "Haswell", "Haswell,-avx2", "Haswell,-xsave", "EPYC-Rome", "max"],
        "+sse4.1" => &["Penryn", "IvyBridge", "Haswell"],
        "+sse4.1,-avx2" => &["Penryn", "Haswell"],
        "+avx2" => &["Haswell", "max"],
        _ => &[],
    }
}

fn configurations(thorough: bool) -> Vec<Spec> {
    let mut v = vec![];
    for feat in ["", "+sse4.1", "+avx2", "+sse4.1,-avx2", "cpu=native"] {
        for std in [true, false] {
            for profile in ["dev", "release"] {
                let odd = feat == "+sse4.1,-avx2" || feat == "cpu=native";
                if odd && !thorough && (profile == "dev") == std {
                    continue;
                }
                let mut s = spec(X86, profile).feat(feat);
                if !std {
                    s = s.nostd();
                }
                v.push(s.clone());
                // alternate the profile so that each CPU sees both
                for (i, c) in cpus(feat).iter().enumerate() {
                    if thorough || (i % 2 == 0) == (profile == "dev") {
                        v.push(s.clone().runner(&format!("cpu:{c}")));
                    }
                }
            }
        }
    }
    v.extend([
        spec(ARM, "dev"),
        spec(ARM, "release").nostd(),
        spec(WASM, "dev").nostd(),
        spec(WASM, "release"),
        spec(WASM, "dev").feat("+simd128"),
        spec(WASM, "release").nostd().feat("+simd128"),
        spec(I686, "dev").nostd(),
        spec(I686, "release"),
    ]);
    for (t, f, q) in new_features() {
        let base = if t == WASM { "+simd128," } else { "" };
        v.push(spec(t, "release").feat(&format!("{base}+{f}")));
        v.push(spec(t, "dev").nostd().feat(&format!("{base}+{f}")));
        if !q.is_empty() {
            v.push(spec(X86, "release").runner(&format!("cpu:Haswell,-{q}")));
            v.push(spec(X86, "dev").runner(&format!("cpu:max,-{q}")));
        }
    }
    if thorough {
        v.extend([
            spec(ARM, "dev").nostd(),
            spec(ARM, "release"),
            spec(WASM, "release").nostd(),
            spec(WASM, "release").feat("+simd128"),
            spec(I686, "dev"),
            spec(I686, "release").nostd(),
            spec(X86, "checked"),
            spec(X86, "lto"),
            spec(X86, "lto").nostd().feat("+avx2"),
            spec(X86, "checked").nostd().feat("+sse4.1"),
        ]);
    }
    v
}

/// Backends the configuration of worker `w` permits the dispatcher to run on: the SIMD ones that
/// are enabled or detected, otherwise the portable one.
fn permitted(cx: &Ctx, w: usize) -> Vec<String> {
    let (s, i) = (&cx.specs[w], &cx.info[w]);
    let mut v = vec![];
    if s.target == X86 {
        if i.sse_cfg || i.std && i.sse_det {
            v.push("SseHash");
        }
        if i.avx_cfg || i.std && i.avx_det {
            v.push("AvxHash");
        }
    } else if s.target == ARM {
        v.push("NeonHash");
    } else if s.target == WASM && s.feat.contains("simd128") {
        v.push("WasmHash");
    }
    if v.is_empty() {
        v.push("PortableHash");
    }
    v.into_iter().map(|x| x.to_string()).collect()
}

const WAYS: [&str; 14] = [
    "new",
    "Default::default",
    "BuildHasherDefault",
    "mem::take",
    "HighwayBuildHasher::default",
    "HighwayBuildHasher::new of the default key",
    "HighwayBuildHasher::new",
    "restored from its own checkpoint",
    "restored from a portable checkpoint",
    "restored from arbitrary bytes",
    "clone",
    "clone of a restored one",
    "clone_from",
    "clone of a built one",
];

/// Leaves a dispatching hasher in slot `s`, obtained in the given way. Uses slot 7, registers 7
/// and builders 3.
fn obtain(way: usize, s: u8, key: Key, raw: &[u8]) -> Vec<Op> {
    match way {
        0 => vec![Op::New(s, B_AUTO, key)],
        1..=5 => vec![Op::Default(s, B_AUTO, way as u8 - 1)],
        6 => vec![Op::BNew(3, key), Op::BBuild(s, 3)],
        7 => vec![Op::New(s, B_AUTO, key), Op::Checkpoint(s, 7), Op::RestoreReg(s, B_AUTO, 7)],
        8 => vec![Op::New(s, B_PORTABLE, key), Op::Checkpoint(s, 7), Op::RestoreReg(s, B_AUTO, 7)],
        9 => vec![Op::Restore(s, B_AUTO, raw.to_vec())],
        10 => vec![Op::New(7, B_AUTO, key), Op::Clone(7, s)],
        11 => vec![Op::New(7, B_PORTABLE, key), Op::Checkpoint(7, 7), Op::RestoreReg(7, B_AUTO, 7), Op::Clone(7, s)],
        12 => vec![Op::New(7, B_AUTO, key), Op::Restore(s, B_AUTO, raw.to_vec()), Op::CloneFrom(7, s)],
        _ => vec![Op::BNew(3, key), Op::BBuild(7, 3), Op::Clone(7, s)],
    }
}
fn key_of(way: usize, key: Key) -> Option<Key> {
    match way {
        1..=5 => Some([0; 4]),
        9 => None,
        _ => Some(key),
    }
}

/// The same construction of a portable hasher.
fn portable(way: usize, s: u8, key: Key, raw: &[u8]) -> Op {
    match key_of(way, key) {
        Some(k) => Op::New(s, B_PORTABLE, k),
        None => Op::Restore(s, B_PORTABLE, raw.to_vec()),
    }
}

pub fn c10(cx: &mut Ctx) {
    cx.rule("In every build configuration (std/no_std x compile-time features x profile) and on every emulated CPU model that satisfies it, hashers obtained in every way are observed (Debug text, constructor refusals, results): the backend named must be a permitted one and the same for every way, results must equal the portable hasher's, explicit SIMD constructors must refuse on a CPU without the feature. An instruction the CPU lacks is a fault. Non-trivial: the case observes at least one dispatching hasher that consumed data, or an explicit constructor; distinct by program bytes and worker.");
    cx.workers(configurations(cx.thorough));
    let nw = cx.specs.len();
    // each shard keeps to its own workers
    let worker = |i: usize| -> usize {
        let sh = i % SHARDS;
        let n = (nw - sh).div_ceil(SHARDS);
        sh + SHARDS * (i / SHARDS % n)
    };
    let per = nw.div_ceil(SHARDS) * SHARDS;
    for w in 0..nw {
        cx.extra(&format!("permitted: {}", cx.specs[w].line()), permitted(cx, w).join("/"));
    }

    // every way, one process each, so that nothing has been detected before
    cx.list("first use: every way in a new process", per * WAYS.len(), SHARDS, |i| {
        let w = worker(i);
        let way = i / per;
        let key: Key = [way as u64 + 1, 2, 3, !(w as u64)];
        let raw: Vec<u8> = crate::prog::expand(i as u64, 164);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let mut ops = obtain(way, 0, key, &raw);
        ops.push(Op::Debug(0, 0));
        let d = ops.len() - 1;
        let data = Content::Seed(w as u64).bytes(&key, 45);
        ops.push(Op::Append(0, 0, 0, data.clone()));
        ops.push(Op::Debug(0, 1));
        ops.push(Op::Fin(0, (i % 3) as u8));
        // afterwards the other ways, which must agree
        let mut same = vec![d, d + 2];
        for k in 1..WAYS.len() {
            ops.extend(obtain((way + k) % WAYS.len(), 0, key, &raw));
            ops.push(Op::Debug(0, 0));
            same.push(ops.len() - 1);
        }
        let p = ops.len();
        ops.push(portable(way, 0, key, &raw));
        ops.push(Op::Append(0, 0, 0, data));
        ops.push(Op::Fin(0, (i % 3) as u8));
        sc.runs.push(Run { w, mode: Mode::Fresh, ops, split: vec![] });
        sc.eq((0, d + 3), (0, p + 2), format!("result of a hasher obtained by {}", WAYS[way]));
        for s in &same {
            sc.checks.push(Check::Names(Ref { run: 0, op: *s }, permitted(cx, w), "selection".into()));
        }
        sc.checks.push(Check::SameNames(same.iter().map(|s| Ref { run: 0, op: *s }).collect(), format!("selection by {} and other ways", WAYS[way])));
        sc.label(format!("way:{}", WAYS[way]));
        sc
    });

    // the same by eight threads of a new process at once. Mostly native CPUs with std: there the
    // answer of the CPU is asked for at run time
    let asked: Vec<usize> = (0..nw).filter(|w| cx.specs[*w].target == X86 && cx.info[*w].std).collect();
    let (here, emulated): (Vec<usize>, Vec<usize>) = asked.into_iter().partition(|w| cx.specs[*w].runner == "native");
    let threaded: Vec<usize> = (0..nw).filter(|w| [X86, ARM].contains(&cx.specs[*w].target.as_str())).collect();
    cx.list("first use by several threads at once", cx.n(1_600), 2, |i| {
        let sh = i % 2;
        let j = i / 2;
        let mine = |v: &[usize], j: usize| v[(sh + 2 * j) % v.len()];
        let w = match j % 8 {
            7 if !emulated.is_empty() => mine(&emulated, j / 8),
            6 => mine(&threaded, j / 8),
            _ => mine(&here, j / 8 * 6 + j % 8),
        };
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let key: Key = [j as u64, 2, 3, !(w as u64)];
        let raw = crate::prog::expand(i as u64, 164);
        let (mut ops, mut split, mut same) = (vec![], vec![], vec![]);
        for t in 0..8 {
            let at = ops.len();
            let way = if j % 3 == 0 { j / 3 } else { j / 3 + t * (j % 3) } % WAYS.len();
            // some threads a little later
            for _ in 0..[0, 0, 1, 3][(j / 5 + t) % 4] {
                ops.push(Op::New(6, B_PORTABLE, key));
                ops.push(Op::Append(6, 0, 0, junk(40, t)));
            }
            ops.extend(obtain(way, 0, key, &raw));
            ops.push(Op::Debug(0, 0));
            same.push(Ref { run: 0, op: ops.len() - 1 });
            ops.push(Op::Append(0, 0, 0, junk(33, t)));
            ops.push(Op::Debug(0, 1));
            ops.push(Op::Fin(0, (t % 3) as u8));
            if cx.specs[w].target == X86 {
                ops.push(Op::New(1, if t % 2 == 0 { B_SSE } else { B_AVX }, key));
            }
            split.push(ops.len() - at);
        }
        sc.runs.push(Run { w, mode: Mode::Threads(FIRST | 1, key), ops, split });
        for s in &same {
            sc.checks.push(Check::Names(*s, permitted(cx, w), "selection".into()));
        }
        sc.checks.push(Check::SameNames(same, "selection by several threads at once".into()));
        sc.label("threads:first-use");
        sc
    });

    // ways x lengths
    let lens = 70;
    cx.list("ways x lengths x configurations", per * lens, SHARDS, |i| {
        let (w, n) = (worker(i), i / per);
        let key: Key = [n as u64, 5, w as u64, 7];
        let data = Content::Seed((n * 977 + w) as u64).bytes(&key, n);
        let raw = {
            let mut r = crate::prog::expand(i as u64 ^ 77, 164);
            if n % 2 == 0 {
                r[160..164].copy_from_slice(&((n % 32) as u32).to_le_bytes());
            }
            r
        };
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let mut ops = vec![];
        let mut same = vec![];
        let mut eq = vec![];
        for way in 0..WAYS.len() {
            let wd = ((n + way) % 3) as u8;
            ops.extend(obtain(way, 0, key, &raw));
            ops.push(Op::Append(0, 0, 0, data.clone()));
            ops.push(Op::Debug(0, 0));
            same.push(ops.len() - 1);
            ops.push(Op::Checkpoint(0, 6));
            ops.push(Op::Fin(0, wd));
            let a = ops.len() - 1;
            ops.push(portable(way, 0, key, &raw));
            ops.push(Op::Append(0, 0, 0, data.clone()));
            ops.push(Op::Checkpoint(0, 6));
            ops.push(Op::Fin(0, wd));
            let b = ops.len() - 1;
            eq.push((a, b, way));
        }
        sc.run(w, ops);
        for (a, b, way) in eq {
            sc.eq((0, a), (0, b), format!("result of a hasher obtained by {}", WAYS[way]));
            sc.eq((0, a - 1), (0, b - 1), format!("checkpoint of a hasher obtained by {}", WAYS[way]));
        }
        for s in &same {
            sc.checks.push(Check::Names(Ref { run: 0, op: *s }, permitted(cx, w), "selection".into()));
        }
        sc.checks.push(Check::SameNames(same.iter().map(|s| Ref { run: 0, op: *s }).collect(), "selection by different ways".into()));
        sc
    });

    // the n-th hasher is like the first
    cx.list("very many hashers", per * WAYS.len(), SHARDS, |i| {
        let (w, way) = (worker(i), i / per);
        let key: Key = [way as u64, 5, w as u64, 7];
        let raw = crate::prog::expand(i as u64 ^ 78, 164);
        let mut body = obtain(way, 0, key, &raw);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let times = if cx.specs[w].slow() || cx.specs[w].runner.contains(':') { 6_000 } else { 66_000 };
        let mut ops = vec![Op::Loop(L_BLIND, times, body.clone())];
        body.extend([Op::Debug(0, 0), Op::FinClone(0, 1)]);
        ops.push(Op::Loop(L_STABLE | L_BLIND, 300, body.clone()));
        ops.extend(body);
        let d = ops.len() - 2;
        sc.run(w, ops);
        sc.checks.push(Check::NoErr(Ref { run: 0, op: 1 }));
        sc.checks.push(Check::Names(Ref { run: 0, op: d }, permitted(cx, w), "selection after very many".into()));
        let r = sc.run(w, vec![portable(way, 0, key, &raw), Op::Fin(0, 1)]);
        sc.eq((0, d + 1), (r, 1), format!("result of one of very many hashers obtained by {}", WAYS[way]));
        sc.label("repeated-selection");
        sc
    });

    // explicit constructors
    cx.suite("explicit SIMD constructors", cx.n(8_000), SHARDS, || (key(), content(), len(), raw_checkpoint(), any::<bool>()), |(key, c, n, raw, fresh), i| {
        let w = worker(i);
        let (s, inf) = (&cx.specs[w], &cx.info[w]);
        let mut sc = Scenario { nontrivial: s.target == X86, ..Default::default() };
        let data = c.bytes(key, *n);
        let wd = (*n % 3) as u8;
        let mut ops = vec![];
        let mut eq = vec![];
        let mut ctor = vec![];
        for (b, det, cfg) in [(B_SSE, inf.sse_det, inf.sse_cfg), (B_AVX, inf.avx_det, inf.avx_cfg)] {
            for k in 0..3 {
                let p = match k {
                    0 => vec![Op::New(0, b, *key), Op::New(1, B_PORTABLE, *key)],
                    1 => vec![Op::Restore(0, b, raw.clone()), Op::Restore(1, B_PORTABLE, raw.clone())],
                    _ => vec![Op::New(1, B_PORTABLE, *key), Op::Append(1, 0, 0, data.clone()), Op::Checkpoint(1, 5), Op::RestoreReg(0, b, 5)],
                };
                let at = ops.len() + if k == 2 { 3 } else { 0 };
                ops.extend(p);
                ops.push(Op::Append(0, 0, 0, data.clone()));
                ops.push(Op::Fin(0, wd));
                ops.push(Op::Append(1, 0, 0, data.clone()));
                ops.push(Op::Fin(1, wd));
                eq.push((ops.len() - 3, ops.len() - 1, b));
                ctor.push((at, b, det, cfg, k));
            }
        }
        if s.target != X86 {
            // the types do not exist here
            ops.truncate(2);
            ops.clear();
            ops.push(Op::New(0, B_AUTO, *key));
            ops.push(Op::Debug(0, 0));
            sc.run(w, ops);
            sc.checks.push(Check::Names(Ref { run: 0, op: 1 }, permitted(cx, w), "selection".into()));
            return sc;
        }
        let fresh = *fresh && i / SHARDS % 16 == 0;
        sc.runs.push(Run { w, mode: if fresh { Mode::Fresh } else { Mode::Prog(false) }, ops, split: vec![] });
        for (at, b, det, cfg, k) in ctor {
            let r = Ref { run: 0, op: at };
            let how = ["new", "from_checkpoint of arbitrary bytes", "from_checkpoint"][k];
            if !det || !inf.std && !cfg {
                sc.checks.push(Check::Refused(r, format!("{}::{how} on a CPU where the feature is not detected", backend_name(b))));
            } else if inf.std {
                sc.checks.push(Check::Avail(r, format!("{}::{how} on a CPU where the feature is detected", backend_name(b))));
            }
        }
        for (a, b, t) in eq {
            sc.eq((0, a), (0, b), format!("{} against portable", backend_name(t)));
        }
        sc.label(format!("cpu sse4.1={} avx2={}", inf.sse_det, inf.avx_det));
        sc
    });

    cx.suite("many different keys and inputs", cx.n(480), SHARDS, || (vary(), raw_checkpoint()), |(v, raw), i| {
        let w = worker(i);
        let way = i / per % WAYS.len();
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let tail = |s: u8| [&v.parts(s)[..], &[Op::Fin(s, v.wd)]].concat();
        let a = [obtain(way, 0, v.key, raw), tail(0)].concat();
        // a varying loop varies every key it finds
        let same = match key_of(way, v.key) {
            Some(_) if (1..=5).contains(&way) => Op::Default(0, B_PORTABLE, 0),
            _ => portable(way, 0, v.key, raw),
        };
        let b = [vec![same], tail(0)].concat();
        sc.run(w, vec![v.all(cx, &[w], a), v.all(cx, &[w], b)]);
        sc.eq((0, 0), (0, 1), format!("many keys and inputs, hashers obtained by {}", WAYS[way]));
        sc.label("varied");
        sc
    });

    // histories
    let m = Mix { hop: 3, finclone: 3, ..OBSERVERS };
    cx.suite("histories", cx.n(32_000), SHARDS, || (hist(m), 0u8..7), |(h, st), i| {
        let w = worker(i);
        let mut h = h.clone();
        h.start = match st {
            0..=2 => Start::New,
            3 | 4 => Start::Builder,
            5 => Start::Default(0),
            _ => Start::Default(4),
        };
        if matches!(h.start, Start::Default(_)) {
            h.key = [0; 4];
        }
        // types() lists the dispatcher second
        h.b = cx.types(w).iter().position(|t| *t == B_AUTO).unwrap() as u8;
        let mut sc = Scenario { nontrivial: h.total() > 0, ..Default::default() };
        h.labels(&mut sc);
        let obs = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        // a hop may continue on another type: only un-hopped Debug texts are about the dispatcher
        let hopped = h.steps.iter().any(|s| matches!(s, Step::Hop(_)));
        if !hopped {
            for o in &obs {
                if matches!(o.what, What::Debug(_)) {
                    sc.checks.push(Check::Names(o.at, permitted(cx, w), "selection".into()));
                }
            }
        }
        expect(&mut sc, h.key, &obs, Oracle::Type(w, B_PORTABLE), true, "dispatching hasher against portable");
        sc
    });

    // unconstrained programs: the dispatcher everywhere against the portable hasher everywhere
    let m = WildMix { placed: false, raw: true, max: 30, fill: 0 };
    cx.suite("programs", cx.n(16_000), SHARDS, || wild(m), |p, i| {
        let w = worker(i);
        let a = p.ops(&[B_AUTO]);
        let b = p.ops(&[B_PORTABLE]);
        let mut sc = Scenario { nontrivial: a.len() > 3, ..Default::default() };
        p.labels(&mut sc);
        let mut dbg = vec![];
        for (j, op) in a.iter().enumerate() {
            match op {
                Op::Debug(..) => dbg.push(Ref { run: 0, op: j }),
                Op::Checkpoint(..) | Op::Fin(..) | Op::OneShot(..) | Op::Finish(..) | Op::FinClone(..) => {
                    sc.eq((0, j), (1, j), format!("dispatcher against portable: {}", op.to_string().split('(').next().unwrap_or("")))
                }
                _ => {}
            }
        }
        let mode = if i / SHARDS % 24 == 5 { Mode::Fresh } else { Mode::Prog(false) };
        sc.runs.push(Run { w, mode, ops: a, split: vec![] });
        sc.run(w, b);
        for d in &dbg {
            sc.checks.push(Check::Names(*d, permitted(cx, w), "selection".into()));
        }
        sc.checks.push(Check::SameNames(dbg, "selection within one program".into()));
        sc
    });
}
