//! C08, C09, C18: no panic, no stray access, no allocation.
use super::state::mixed_workers;
use crate::exec::{build_all, cargo, source_error, spec, target_dir, verif, BuildErr, Spec, ARM, I686, TOOLCHAIN, WASM, X86};
use crate::gen::*;
use crate::prog::{backend_name, ops::*, Content, Key, Op};
use crate::runner::{die, Ctx, Failure, SHARDS, UNEVEN};
use crate::scen::{Check, Mode, Run, Scenario};
use crate::vary::vary;
use proptest::prelude::*;
use std::sync::Mutex;

/// Every kind of operation on a hasher of type `b`, ending with an empty slot 0.
fn tour(b: u8, key: Key, n: usize, salt: u64) -> Vec<Op> {
    let d = Content::Seed(salt).bytes(&key, n);
    let t = Content::Text(salt).bytes(&key, n % 60);
    let mut v = vec![Op::New(0, b, key), Op::Default(1, b, (salt % 3) as u8)];
    for api in 0..N_APIS {
        v.push(Op::Append(0, api, 0, if api == A_FMT { t.clone() } else { d.clone() }));
        if api % 2 == 0 {
            v.push(Op::Append(0, 0, 0, d[..n.min(3 + api as usize)].to_vec()));
        }
    }
    v.extend([
        Op::Finish(0),
        Op::Flush(0),
        Op::Debug(0, 0),
        Op::Debug(0, 1),
        Op::Clone(0, 2),
        Op::CloneFrom(0, 1),
        Op::Checkpoint(0, 0),
        Op::RestoreReg(3, b, 0),
        Op::HashVal(0, (salt % 24) as u8, t.clone()),
        Op::FinClone(0, 0),
        Op::FinClone(0, 1),
        Op::FinClone(0, 2),
        Op::OneShot(1, 0, 0, d.clone()),
        Op::OneShot(2, 1, 0, d.clone()),
        Op::OneShot(3, 2, 0, d.clone()),
        Op::BNew(0, key),
        Op::BDefault(1),
        Op::BBuild(1, 0),
        Op::HashOne(0, 14, t.clone()),
        Op::HashOne(1, 15, t),
        Op::Fin(1, 0),
        Op::Fin(0, (n % 3) as u8),
    ]);
    v
}

/// Links the crate behind `#[no_panic]` wrappers (or, on wasm32, behind an importing panic handler).
struct Link {
    target: &'static str,
    std: bool,
    feat: &'static str,
}
impl Link {
    fn name(&self) -> String {
        format!(
            "{} {} {}",
            self.target.split('-').next().unwrap_or(""),
            if self.std { "std" } else { "no_std" },
            if self.feat.is_empty() { "no flags" } else { self.feat }
        )
    }
    /// Functions containing a panic path, or the build's error text. A path that is gone once the inliner
    /// may spend more is a check the compiler proves superfluous where it sees enough: not reported.
    fn run(&self) -> Result<Vec<String>, String> {
        let found = self.link("")?;
        if found.is_empty() {
            return Ok(found);
        }
        match self.link(" -Cllvm-args=-inline-threshold=3000") {
            Ok(still) => Ok(still),
            Err(_) => Ok(found),
        }
    }
    fn link(&self, inline: &str) -> Result<Vec<String>, String> {
        let wasm = self.target == WASM;
        let krate = if wasm { "npw" } else { "np" };
        let sub = if inline.is_empty() { "np" } else { "np-inline" };
        let dir = target_dir().join(sub).join(self.name().replace([' ', ',', '+', '='], "_"));
        let mut c = cargo(TOOLCHAIN);
        c.args(["build", "--offline", "--release", "--target", self.target, "-j2", "--manifest-path"])
            .arg(verif().join(krate).join("Cargo.toml"))
            .arg("--target-dir")
            .arg(&dir)
            .env(
                "RUSTFLAGS",
                match self.feat.strip_prefix("cpu=") {
                    Some(cpu) => format!("-Ctarget-cpu={cpu}{inline}"),
                    None if self.feat.is_empty() => inline.trim().to_string(),
                    None => format!("-Ctarget-feature={}{inline}", self.feat),
                },
            );
        if !self.std && !wasm {
            c.arg("--no-default-features");
        }
        let o = c.output().map_err(|e| e.to_string())?;
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        if wasm && o.status.success() {
            let m = std::fs::read(dir.join(self.target).join("release/npw.wasm")).map_err(|e| e.to_string())?;
            let name = b"a_panic_path_is_reachable";
            let hit = m.windows(name.len()).any(|w| w == name);
            return Ok(if hit { vec!["(some exported operation)".into()] } else { vec![] });
        }
        if o.status.success() {
            return Ok(vec![]);
        }
        let mut f: Vec<String> = err
            .split("detected panic in function `")
            .skip(1)
            .filter_map(|x| x.split('`').next())
            .map(|x| x.to_string())
            .collect();
        f.sort();
        f.dedup();
        if f.is_empty() {
            return Err(err);
        }
        Ok(f)
    }
}

fn panic_edges(cx: &Ctx) {
    let mut l = vec![
        Link { target: X86, std: true, feat: "" },
        Link { target: X86, std: false, feat: "" },
        Link { target: X86, std: true, feat: "+avx2" },
        Link { target: X86, std: false, feat: "+sse4.1" },
        Link { target: ARM, std: true, feat: "" },
        Link { target: ARM, std: false, feat: "" },
        Link { target: WASM, std: false, feat: "+simd128" },
        Link { target: WASM, std: false, feat: "" },
        Link { target: I686, std: true, feat: "" },
    ];
    if cx.thorough {
        l.extend([
            Link { target: X86, std: true, feat: "+sse4.1" },
            Link { target: X86, std: false, feat: "+avx2" },
            Link { target: X86, std: true, feat: "+sse4.1,-avx2" },
            Link { target: X86, std: true, feat: "cpu=native" },
            Link { target: X86, std: false, feat: "cpu=native" },
            Link { target: I686, std: false, feat: "" },
        ]);
    }
    let src = std::fs::read_to_string(verif().join("np/src/main.rs")).unwrap_or_default();
    let per_type = src.matches("#[no_panic] #[inline(never)] fn $").count() as u64;
    let common = src.matches("#[no_panic] #[inline(never)] fn b_").count() as u64 + 1;
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res: Mutex<Vec<(usize, Result<Vec<String>, String>)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= l.len() {
                    return;
                }
                let r = l[i].run();
                res.lock().unwrap().push((i, r));
            });
        }
    });
    let mut res = res.into_inner().unwrap();
    res.sort_by_key(|x| x.0);
    let mut n = 0;
    let mut names = vec![];
    for (i, r) in &res {
        match r {
            Ok(f) if f.is_empty() => {
                let types = match l[*i].target {
                    X86 => 4,
                    I686 => 2,
                    ARM => 3,
                    _ => 2 + !l[*i].feat.is_empty() as u64,
                };
                n += types * per_type + common;
                names.push(format!("no panic edge: {}", l[*i].name()));
            }
            Ok(f) => {
                let what = format!("optimised code ({}) contains a panic path in: {}", l[*i].name(), f.join(", "));
                cx.violation(&Failure {
                    replay: format!("highway-replay 1\nproperty C08\n# {what}\nrecheck link {}\n", l[*i].name()),
                    what,
                });
            }
            Err(e) => match source_error(e) {
                Some(e) if l[*i].feat.is_empty() => {
                    let what = format!("does not compile ({}): {e}", l[*i].name());
                    cx.violation(&Failure {
                        replay: format!("highway-replay 1\nproperty C08\n# {}\nrecheck link\n", what.replace('\n', "\n# ")),
                        what,
                    });
                }
                _ => die(&format!("linking the no_panic wrappers ({}):\n{e}", l[*i].name())),
            },
        }
    }
    cx.count("operations linked without a panic edge", n, names, &[("link-time", n)]);
}

pub fn c08(cx: &mut Ctx) {
    cx.rule("Unconstrained generated programs over every safe operation (arbitrary restores included) run under overflow checks and debug assertions and without them; any panic, abort or trap fails. In optimised builds every operation of every type is linked behind #[no_panic], per configuration. Non-trivial: a program of at least 3 operations that consumes data or restores a state; distinct by program bytes.");
    let mut v = mixed_workers();
    v.extend([
        spec(X86, "checked"),
        spec(X86, "checked").nostd(),
        spec(X86, "checked").feat("+avx2"),
        spec(X86, "dev").feat("cpu=native"),
        spec(X86, "lto"),
        spec(X86, "dev").feat("+sse4.1").nostd(),
        spec(ARM, "dev"),
        spec(WASM, "dev"),
        spec(ARM, "checked"),
        spec(I686, "checked").nostd(),
    ]);
    cx.workers(v);
    panic_edges(cx);
    let nw = cx.specs.len();
    // (optimised, with overflow checks)
    let checked = cx.specs.iter().position(|s| s.profile == "checked" && s.std && s.feat.is_empty()).unwrap();
    let far = cx.types(checked).into_iter().enumerate().map(|(i, b)| {
        let (api, chunk) = if i % 2 == 0 { (A_APPEND, (1 << 33) + 77) } else { (0xff, u64::MAX) };
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        sc.runs.push(super::core::giant_run(checked, b, api, 2, 5, chunk));
        sc.checks.push(Check::Quiet);
        sc.label("packets:>2^32");
        (sc, None)
    });
    cx.beside("more than 2^32 packets", far.collect());
    let native: Vec<usize> = (0..nw).filter(|i| cx.specs[*i].target == X86).collect();
    let other: Vec<usize> = (0..nw).filter(|i| cx.specs[*i].target != X86).collect();
    let pick = |i: usize| if i % 4 == 3 { other[i / 4 % other.len()] } else { native[(i - i / 4) % native.len()] };
    // every pending count x chunk length x type, reached by restoring
    let lens: Vec<usize> = (0..70).chain([95, 96, 97, 127, 128, 129, 500]).collect();
    let counts: Vec<u32> = (0..70).chain([255, 256, 257, 288, 0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 31, 0x0100_0001, 31 << 8]).collect();
    cx.list("restored counts x lengths x types", counts.len() * nw, SHARDS, |i| {
        let (c, w) = (counts[i / nw], i % nw);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let mut cp = crate::prog::expand(i as u64, 160);
        cp.extend_from_slice(&c.to_le_bytes());
        let mut ops = vec![];
        for b in cx.types(w) {
            for (j, n) in lens.iter().enumerate() {
                if j % 3 != i % 3 && c >= 33 {
                    continue;
                }
                ops.push(Op::Restore(0, b, cp.clone()));
                ops.push(Op::Append(0, (j % N_APIS as usize) as u8, 0, crate::gen::junk(*n, j)));
                ops.push(Op::Checkpoint(0, 0));
                ops.push(if j % 2 == 0 { Op::Fin(0, (j / 2 % 3) as u8) } else { Op::OneShot(0, (j / 2 % 3) as u8, 0, junk(*n, j)) });
            }
            ops.extend([Op::Restore(0, b, cp.clone()), Op::Finish(0), Op::Debug(0, 0), Op::Debug(0, 1), Op::Clone(0, 1), Op::Fin(1, 2)]);
            ops.extend((0..3).flat_map(|w| [Op::Restore(0, b, cp.clone()), Op::Fin(0, w)]));
        }
        sc.run(w, ops);
        sc.checks.push(Check::Quiet);
        sc.label("restored-count");
        sc
    });
    cx.list("every operation x type x length", 140 * nw, SHARDS, |i| {
        let (n, w) = (i / nw, i % nw);
        let mut sc = Scenario { nontrivial: n > 0, ..Default::default() };
        let mut ops = vec![];
        for b in cx.types(w) {
            ops.extend(tour(b, [i as u64, n as u64, 7, !0], n, i as u64));
        }
        sc.run(w, ops);
        sc.checks.push(Check::Quiet);
        sc
    });
    let m = WildMix { placed: false, raw: true, max: 40, fill: 0 };
    cx.suite("unconstrained programs", cx.n(120_000), SHARDS, || wild(m), |p, i| {
        let w = pick(i);
        let mut sc = Scenario::default();
        let mut ops = p.ops(&cx.backends(w));
        // sinks that use hashers themselves, or panic
        debug_flags(&mut ops, if i % 3 == 0 { D_BUSY } else { 0 }, if i % 2 == 0 { D_PANIC } else { 0 });
        sc.nontrivial = ops.len() >= 3 && ops.iter().any(|o| matches!(o, Op::Append(_, _, _, d) if !d.is_empty()) || matches!(o, Op::Restore(..)));
        p.labels(&mut sc);
        sc.run(w, ops);
        sc.checks.push(Check::Quiet);
        sc
    });
    let m = WildMix { placed: false, raw: true, max: 400, fill: 0 };
    cx.suite("long programs", cx.n(4_000), SHARDS, || wild(m), |p, i| {
        let w = pick(i);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        sc.run(w, p.ops(&cx.backends(w)));
        sc.label("long-program");
        sc.checks.push(Check::Quiet);
        sc
    });
    let m = Mix { hop: 3, finish: 3, ..OBSERVERS };
    cx.suite("many different keys and inputs", cx.n(400), SHARDS | UNEVEN, || (vary(), crate::props::raw_checkpoint()), |(v, c), i| {
        let w = pick(i);
        let ts = cx.types(w);
        let b = ts[v.api[0] as usize % ts.len()];
        let start = match v.api[1] {
            0..=2 => vec![Op::Restore(0, b, c.clone())],
            3 if b == B_AUTO => vec![Op::BNew(0, v.key), Op::BBuild(0, 0)],
            _ => vec![Op::New(0, b, v.key)],
        };
        let fin = [Op::Finish(0), Op::Checkpoint(0, 0), Op::FinClone(0, v.wd), Op::Fin(0, 2 - v.wd)];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        sc.label("varied");
        let body = [&start[..], &v.parts(0)[..], &fin[v.data.len() % 4..]].concat();
        sc.runs.push(Run { w, mode: Mode::Prog(false), ops: vec![v.all(cx, &[w], body)], split: vec![] });
        sc.checks.push(Check::Quiet);
        sc
    });
    cx.suite("long repetitions", cx.n(400), SHARDS | UNEVEN, || (long(m), proptest::option::of(crate::props::raw_checkpoint())), |(h, c), i| {
        let w = pick(i);
        let mut h = h.clone();
        if let Some(c) = c {
            h.start = Start::Raw(c.clone());
        }
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        sc.checks.push(Check::Quiet);
        sc
    });
    cx.suite("marathons", cx.n(80), SHARDS | UNEVEN, || (marathon(m), proptest::option::of(crate::props::raw_checkpoint())), |(h, c), i| {
        let w = pick(i);
        let b = cx.types(w)[h.b as usize % cx.types(w).len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        let mut ops = h.ops(b, &cx.backends(w));
        if let Some(c) = c {
            ops[0] = Op::Restore(0, b, c.clone());
        }
        sc.runs.push(Run { w, mode: Mode::Prog(false), ops, split: vec![] });
        sc.checks.push(Check::Quiet);
        sc
    });
    // formatting into sinks that fail at every possible point
    let blocks = 28;
    cx.list("Debug into failing sinks", blocks * nw, SHARDS, |i| {
        let (k, w) = (i / nw, i % nw);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let mut ops = vec![];
        for b in cx.types(w) {
            ops.push(if k % 3 == 2 { Op::Restore(0, b, crate::prog::expand(i as u64, 164)) } else { Op::New(0, b, [k as u64, !0, 0, 1 << 63]) });
            ops.push(Op::Append(0, 0, 0, junk(k * 3, i)));
            for c in (k * 100)..(k * 100 + 100) {
                ops.push(Op::DebugTo(0, 0, c as u16));
                ops.push(Op::DebugTo(0, 1, c as u16));
                ops.push(Op::DebugTo(0, 2 + (c % 4) as u8 | if c % 3 == 0 { D_PANIC } else { 0 }, c as u16));
            }
            ops.push(Op::Fin(0, 0));
        }
        sc.run(w, ops);
        sc.checks.push(Check::Quiet);
        sc.label("failing-sink");
        sc
    });
    // lengths and counters beyond 32 bits, in one call and in several, with overflow checks
    let w = cx.specs.iter().position(|s| s.profile == "checked" && s.std && s.feat.is_empty()).unwrap();
    let types = cx.types(w);
    // more than 2^32 calls on one hasher
    let n = types.len() * if cx.thorough { 4 } else { 1 };
    cx.list("more than 2^32 calls", n, 4, |i| {
        let chunk = [1, 1, 9, 31][i / types.len()];
        let total = ((1u64 << 32) + 70_000 + i as u64) * chunk;
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        sc.runs.push(Run {
            w,
            mode: Mode::Huge(types[i % types.len()], A_APPEND, (i % 3) as u8, [3, 2, 1, i as u64], cx.seed, i as u64 / types.len() as u64, total, chunk),
            ops: vec![],
            split: vec![],
        });
        sc.checks.push(Check::Quiet);
        sc.label("calls:>2^32");
        sc
    });
    cx.list("more than 4 GiB", n, 4, |i| {
        let api = [A_APPEND, A_WRITE, A_HASHER, 0xff, A_COPY][(i + i / types.len()) % 5];
        let total = (1u64 << 32) + 40 + i as u64 * 7;
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let chunk = if i % 2 == 0 { u64::MAX } else { (1 << 31) + 5 };
        sc.runs.push(Run {
            w,
            mode: Mode::Huge(types[i % types.len()], api, (i % 3) as u8, [1, 2, 3, i as u64], cx.seed, (i % 3) as u64, total, chunk),
            ops: vec![],
            split: vec![],
        });
        sc.checks.push(Check::Quiet);
        sc.label("total:>4GiB");
        sc
    });
}

pub fn c09(cx: &mut Ctx) {
    cx.rule("Data and hasher objects are placed at every alignment and directly against inaccessible pages (both sides), with different neighbouring bytes and read-only pages; results must equal the in-place ones, nothing may fault, and valgrind, AddressSanitizer and Miri must not report. Non-trivial: a non-empty placed slice whose result was compared (or watched by a sanitizer); distinct by program bytes.");
    let mut v = vec![
        spec(X86, "dev"),
        spec(X86, "release"),
        spec(X86, "release").nostd().feat("+avx2"),
        spec(X86, "checked").feat("+sse4.1"),
        spec(X86, "lto"),
        spec(ARM, "release"),
        spec(WASM, "release").feat("+simd128"),
        spec(ARM, "dev").nostd(),
        spec(I686, "dev"),
        spec(WASM, "dev").feat("+simd128"),
        spec(X86, "release").runner("cpu:Nehalem"),
    ];
    let nw = v.len();
    let val = nw;
    v.push(spec(X86, "release").runner("valgrind"));
    v.push(spec(X86, "dev").runner("valgrind"));
    let asan = v.len();
    v.push(spec(X86, "dev").san("address"));
    v.push(spec(X86, "release").san("address").nostd().feat("+avx2"));
    let miri = v.len();
    v.push(spec(X86, "dev").runner("miri").feat("+avx2"));
    v.push(spec(X86, "dev").runner("miri").feat("+sse4.1"));
    cx.workers(v);
    // every fill x chunk length x placement x type
    let places = [1u8, 2, 3, 4, 5, 7];
    let (fa, fb) = (33usize, 131usize);
    cx.list("fill x length x page-edge placement x type", fa * fb * 3, SHARDS, |i| {
        let (a, b, g) = (i % fa, i / fa % fb, i / fa / fb);
        let w = if g < 2 { (a + b + g) % 5 } else { 5 + (a + b * 3) % (nw - 5) };
        let key: Key = [a as u64, b as u64, 3, !0];
        let d = Content::Seed((a * 1000 + b) as u64).bytes(&key, a + b);
        let mut sc = Scenario { nontrivial: a + b > 0, ..Default::default() };
        let mut ops = vec![];
        let mut eq = vec![];
        for (ti, t) in cx.types(w).into_iter().enumerate() {
            let wd = ((a + b + ti) % 3) as u8;
            ops.push(Op::New(0, t, key));
            ops.push(Op::Append(0, 0, 0, d[..a].to_vec()));
            ops.push(Op::OneShot(0, wd, 0, d[a..].to_vec()));
            let want = ops.len() - 1;
            for (pi, p) in places.iter().enumerate() {
                ops.push(Op::New(0, t, key));
                match (pi + a) % 4 {
                    0 => ops.push(Op::Place(0, 1)),
                    1 => ops.push(Op::Place(0, 2)),
                    2 => ops.push(Op::Place(0, 0x40 | (b % 64) as u8)),
                    _ => {}
                }
                ops.push(Op::Append(0, 0, *p, d[..a].to_vec()));
                if (pi + b) % 2 == 0 {
                    ops.push(Op::OneShot(0, wd, *p, d[a..].to_vec()));
                } else {
                    ops.push(Op::Append(0, (pi as u8 + 1) % N_APIS, *p, d[a..].to_vec()));
                    ops.push(Op::Checkpoint(0, 0));
                    ops.push(Op::Finish(0));
                    ops.push(Op::Fin(0, wd));
                }
                eq.push((ops.len() - 1, want, t, *p));
            }
        }
        sc.run(w, ops);
        for (x, y, t, p) in eq {
            sc.eq((0, x), (0, y), format!("{} fill {a} length {b} placement {p} against in place", backend_name(t)));
        }
        sc.label("page-edge");
        sc
    });
    cx.list("start alignment x length x neighbours x type", 64 * 100 * 2, SHARDS, |i| {
        let (al, n, g) = ((i % 64) as u8, i / 64 % 100, i / 6400);
        let w = if g == 0 { i % 5 } else { 5 + (i + n) % (nw - 5) };
        let key: Key = [al as u64, n as u64, 5, 6];
        let d = Content::Seed(i as u64).bytes(&key, n);
        let mut sc = Scenario { nontrivial: n > 0, ..Default::default() };
        let mut ops = vec![];
        let mut eq = vec![];
        for t in cx.types(w) {
            let wd = (n % 3) as u8;
            ops.push(Op::New(0, t, key));
            ops.push(Op::OneShot(0, wd, 0, d.clone()));
            let want = ops.len() - 1;
            for p in [0x40 | al, 0x80 | al] {
                ops.push(Op::New(0, t, key));
                if p & 0x80 == 0 {
                    ops.push(Op::OneShot(0, wd, p, d.clone()));
                } else {
                    let c = (al as usize * 7 + n) % (n + 1);
                    ops.push(Op::Append(0, 0, p, d[..c].to_vec()));
                    ops.push(Op::Append(0, 0, 0x80 | (al ^ 13), d[c..].to_vec()));
                    ops.push(Op::Fin(0, wd));
                }
                eq.push((ops.len() - 1, want, t));
            }
        }
        sc.run(w, ops);
        for (x, y, t) in eq {
            sc.eq((0, x), (0, y), format!("{} length {n} alignment {al} against in place", backend_name(t)));
        }
        sc.label("alignment");
        sc
    });
    let strip = |h: &Hist| {
        let mut g = h.clone();
        for s in &mut g.steps {
            match s {
                Step::Append { place, .. } => *place = 0,
                Step::Place(_) => *s = Step::Flush,
                _ => {}
            }
        }
        g
    };
    let turn = |i: usize| if i % 4 == 3 { 5 + i / 4 % (nw - 5) } else { i % 5 };
    let m = Mix { placed: true, place: 4, hop: 3, clonefrom: 0, ..OBSERVERS };
    cx.suite("placed histories", cx.n(64_000), SHARDS, || hist(m), |h, i| {
        let w = turn(i);
        let mut sc = Scenario { nontrivial: h.total() > 0, ..Default::default() };
        h.labels(&mut sc);
        let a = h.play(cx, &mut sc, w, &[], Mode::Prog(false));
        let b = strip(h).play(cx, &mut sc, w, &[], Mode::Prog(false));
        for (x, y) in a.iter().zip(&b) {
            if !matches!(x.what, What::Debug(_)) {
                sc.eq((x.at.run, x.at.op), (y.at.run, y.at.op), "placed against in place");
            }
        }
        sc
    });
    // the same program with and without placements
    let valued = |o: &Op| {
        matches!(
            o,
            Op::Fin(..) | Op::OneShot(..) | Op::Finish(..) | Op::FinClone(..) | Op::Checkpoint(..) | Op::HashVal(..) | Op::HashOne(..)
        )
    };
    let place_as = |ops: &[Op], data: u8, obj: u8| -> Vec<Op> {
        ops.iter()
            .map(|o| match o {
                Op::Append(s, a, _, d) => Op::Append(*s, *a, data, d.clone()),
                Op::OneShot(s, w, _, d) => Op::OneShot(*s, *w, data, d.clone()),
                Op::Place(s, _) if obj != 0 => Op::Place(*s, obj),
                Op::Place(..) => Op::BDefault(3),
                o => o.clone(),
            })
            .collect()
    };
    let m = WildMix { placed: true, raw: true, max: 40, fill: 0 };
    cx.suite("placed unconstrained programs", cx.n(24_000), SHARDS, || wild(m), |p, i| {
        let w = turn(i);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let ops = p.ops(&cx.backends(w));
        sc.run(w, ops.clone());
        sc.run(w, place_as(&ops, 0, 0));
        for (j, o) in ops.iter().enumerate() {
            if valued(o) {
                sc.eq((0, j), (1, j), "placed against in place");
            }
        }
        p.labels(&mut sc);
        sc
    });
    let big = || (key(), any::<u64>(), big_len(60_000), 0u8..3, place(), 0usize..70);
    cx.suite("large placed slices", cx.n(3_000), SHARDS, big, |(k, s, n, wd, p, pre), i| {
        let w = turn(i);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let d = Content::Seed(*s).bytes(k, *n);
        let mut ops = vec![];
        let mut ends = vec![];
        let types = cx.types(w);
        for t in &types {
            for p in [0, *p] {
                ops.push(Op::New(0, *t, *k));
                ops.push(Op::Append(0, 0, p, junk(*pre, 1)));
                ops.push(Op::OneShot(0, *wd, p, d.clone()));
                ends.push(ops.len() - 1);
            }
        }
        sc.run(w, ops);
        for (j, e) in ends.chunks(2).enumerate() {
            sc.eq((0, e[1]), (0, e[0]), format!("{} {n} bytes placed {p:#x} against in place", backend_name(types[j])));
        }
        sc.label("total:large");
        sc
    });
    // watched by memory checkers: exact heap blocks for data and objects
    let m = WildMix { placed: true, raw: true, max: 30, fill: 0 };
    let watched = |w: usize, p: &WildProg, cmp: Option<usize>| {
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let ops = p.ops(&cx.types(w));
        sc.run(w, place_as(&ops, 6, 3));
        sc.checks.push(Check::Quiet);
        if let Some(c) = cmp {
            sc.run(c, place_as(&ops, 0, 0));
            for (j, o) in ops.iter().enumerate() {
                // written word sizes and entry points are the same in both builds
                if valued(o) {
                    sc.eq((0, j), (1, j), "watched against native");
                }
            }
        }
        sc
    };
    cx.suite("programs under AddressSanitizer", cx.n(48_000), SHARDS, || wild(m), |p, i| {
        let mut sc = watched(asan + i % 2, p, None);
        sc.label("asan");
        sc
    });
    cx.suite("programs under valgrind", cx.n(2_400), SHARDS, || wild(m), |p, i| {
        let mut sc = watched(val + i % 2, p, Some(i % 2));
        sc.label("valgrind");
        sc
    });
    // every length once more, under the checkers
    cx.list("all fills x lengths under the checkers", 33 * 4 * 4, SHARDS, |i| {
        let (a, q, g) = (i % 33, i / 33 % 4, i / 33 / 4);
        let w = if g < 2 { asan + g } else { val + g - 2 };
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let mut ops = vec![];
        for t in cx.types(w) {
            for n in (q..100).step_by(4) {
                let d = Content::Seed((a * 333 + n) as u64).bytes(&[1, 2, 3, 4], a + n);
                ops.push(Op::New(0, t, [1, 2, 3, 4]));
                ops.push(Op::Place(0, 3));
                ops.push(Op::Append(0, 0, 6, d[..a].to_vec()));
                ops.push(if n % 2 == 0 { Op::OneShot(0, (n % 3) as u8, 6, d[a..].to_vec()) } else { Op::Append(0, 0, 6, d[a..].to_vec()) });
                if n % 2 == 1 {
                    ops.push(Op::Checkpoint(0, 0));
                    ops.push(Op::Fin(0, (n % 3) as u8));
                }
            }
        }
        sc.run(w, ops);
        sc.checks.push(Check::Quiet);
        sc.label("checker-sweep");
        sc
    });
    let mm = WildMix { placed: true, raw: true, max: 14, fill: 0 };
    cx.suite("programs under Miri", cx.n(64), SHARDS, || wild(mm), |p, i| {
        let mut sc = watched(miri + i % 2, p, None);
        sc.label("miri");
        sc
    });
}

pub fn c18(cx: &mut Ctx) {
    cx.rule("Generated histories over every operation of every type, for lengths from 0 to MiB, run with all allocation entry points counted (the Rust global allocator and, through ld --wrap, malloc/calloc/realloc/memalign/mmap/brk..), in long-lived and in fresh processes, and in processes linked without std, libc and any allocator. Non-trivial: a program of at least 3 operations; distinct by program bytes.");
    let bare: Vec<Spec> = vec![
        spec(X86, "dev").nostd().runner("bare"),
        spec(X86, "release").nostd().runner("bare").feat("+avx2"),
        spec(ARM, "release").nostd().runner("bare"),
    ];
    let mut v = vec![
        spec(X86, "dev").wrap(),
        spec(X86, "release").wrap(),
        spec(X86, "release").nostd().wrap(),
        spec(X86, "checked").feat("+sse4.1").wrap(),
        spec(X86, "lto").nostd().feat("+avx2").wrap(),
        spec(X86, "dev").nostd().wrap(),
        spec(ARM, "release").wrap(),
        spec(ARM, "dev").nostd().wrap(),
        spec(WASM, "release").feat("+simd128"),
        spec(WASM, "dev").nostd(),
        spec(I686, "dev"),
        spec(X86, "release").wrap().runner("cpu:Conroe"),
        spec(X86, "dev").wrap().runner("cpu:Nehalem"),
    ];
    let counted = v.len();
    // a link that fails for other reasons than a missing allocator decides nothing
    for (s, r) in bare.iter().zip(build_all(&bare)) {
        match r {
            Err(BuildErr::Other(e)) => cx.extra("skipped", format!("{}: {e}", s.line())),
            _ => v.push(s.clone()),
        }
    }
    cx.workers(v);
    allocator_less(cx);
    let nw = cx.specs.len();
    let native: Vec<usize> = (0..nw).filter(|i| cx.specs[*i].target == X86).collect();
    let other: Vec<usize> = (0..nw).filter(|i| cx.specs[*i].target != X86).collect();
    let pick = |i: usize| if i % 4 == 3 { other[i / 4 % other.len()] } else { native[(i - i / 4) % native.len()] };
    let watch = |w: usize, mode: Mode, ops: Vec<Op>, what: &str| {
        let mut sc = Scenario { nontrivial: ops.len() >= 3, ..Default::default() };
        sc.runs.push(Run { w, mode, ops, split: vec![] });
        sc.checks.push(Check::NoAlloc(0, what.into()));
        sc
    };
    // the first operations of a process
    let kinds = 6;
    cx.list("first operations of a process", nw * kinds * 4, SHARDS, |i| {
        let (w, k, t) = (i % nw, i / nw % kinds, i / nw / kinds);
        let types = cx.backends(w);
        let b = types[t % types.len()];
        let key: Key = [i as u64, 2, 3, 4];
        let ops = match k {
            0 => vec![Op::New(0, b, key), Op::Append(0, 0, 0, junk(70, i)), Op::Fin(0, 0)],
            1 => vec![Op::Default(0, b, (t % 3) as u8), Op::Debug(0, 0), Op::Fin(0, 1)],
            2 => vec![Op::Restore(0, b, crate::prog::expand(i as u64, 164)), Op::Debug(0, 1), Op::OneShot(0, 2, 0, junk(33, i))],
            3 => vec![Op::New(0, b, key), Op::Append(0, 4, 0, junk(70, i)), Op::Clone(0, 1), Op::Checkpoint(1, 0), Op::Finish(1)],
            4 => vec![Op::BNew(0, key), Op::HashOne(0, 14, junk(9, 1)), Op::BBuild(0, 0), Op::Finish(0)],
            _ => tour(b, key, 40 + t, i as u64),
        };
        let mut sc = watch(w, Mode::Fresh, ops, "first operations of a process");
        sc.label("fresh-process");
        sc
    });
    cx.list("every operation x type x length", 400 * nw, SHARDS, |i| {
        let (n, w) = (i / nw, i % nw);
        let n = if n < 200 { n } else { 200 + (n - 200) * 37 };
        let mut ops = vec![];
        for b in cx.backends(w) {
            ops.extend(tour(b, [i as u64, n as u64, 7, !0], n, i as u64));
        }
        let mut sc = watch(w, Mode::Prog(true), ops, "every operation");
        sc.label("tour");
        sc
    });
    let m = WildMix { placed: false, raw: true, max: 40, fill: 0 };
    cx.suite("unconstrained programs", cx.n(80_000), SHARDS, || wild(m), |p, i| {
        let w = pick(i);
        let mut sc = watch(w, Mode::Prog(true), p.ops(&cx.backends(w)), "program");
        p.labels(&mut sc);
        sc
    });
    let m = WildMix { placed: false, raw: true, max: 600, fill: 0 };
    cx.suite("long programs", cx.n(2_000), SHARDS, || wild(m), |p, i| {
        let w = pick(i);
        let mut sc = watch(w, Mode::Prog(true), p.ops(&cx.backends(w)), "long program");
        sc.label("long-program");
        sc
    });
    let m = Mix { hop: 3, finish: 3, ..OBSERVERS };
    cx.suite("many different keys and inputs", cx.n(320), SHARDS | UNEVEN, || (vary(), crate::props::raw_checkpoint()), |(v, c), i| {
        let w = pick(i);
        let ts = cx.types(w);
        let b = ts[v.api[0] as usize % ts.len()];
        let start = match v.api[1] {
            0..=2 => vec![Op::Restore(0, b, c.clone())],
            3 if b == B_AUTO => vec![Op::BNew(0, v.key), Op::BBuild(0, 0)],
            _ => vec![Op::New(0, b, v.key)],
        };
        let fin = [Op::Finish(0), Op::Checkpoint(0, 0), Op::FinClone(0, v.wd), Op::Fin(0, 2 - v.wd)];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        sc.label("varied");
        let body = [&start[..], &v.parts(0)[..], &fin[v.data.len() % 4..]].concat();
        sc.runs.push(Run { w, mode: Mode::Prog(true), ops: vec![v.all(cx, &[w], body)], split: vec![] });
        sc.checks.push(Check::NoAlloc(0, "many keys and inputs".into()));
        sc
    });
    cx.suite("long repetitions", cx.n(320), SHARDS | UNEVEN, || (long(m), proptest::option::of(crate::props::raw_checkpoint())), |(h, c), i| {
        let w = pick(i);
        let mut h = h.clone();
        if let Some(c) = c {
            h.start = Start::Raw(c.clone());
        }
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        h.play(cx, &mut sc, w, &[], Mode::Prog(true));
        sc.checks.push(Check::NoAlloc(0, "many calls".into()));
        sc
    });
    cx.suite("marathons", cx.n(48), SHARDS | UNEVEN, || (marathon(m), proptest::option::of(crate::props::raw_checkpoint())), |(h, c), i| {
        let w = pick(i);
        let b = cx.types(w)[h.b as usize % cx.types(w).len()];
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        h.labels(&mut sc);
        let mut ops = h.ops(b, &cx.backends(w));
        if let Some(c) = c {
            ops[0] = Op::Restore(0, b, c.clone());
        }
        sc.runs.push(Run { w, mode: Mode::Prog(true), ops, split: vec![] });
        sc.checks.push(Check::NoAlloc(0, "more than 65536 packets".into()));
        sc
    });
    // sizes up to 16 MiB through every entry point
    let big = || (key(), any::<u8>(), any::<u64>(), fill_len(), 0..N_APIS, 0usize..40);
    cx.suite("large inputs", cx.n(1_200), SHARDS, big, |(k, b, s, n, api, pre), i| {
        let w = native[i % native.len()];
        let types = cx.types(w);
        let b = types[*b as usize % types.len()];
        let n = (*n).min(16 << 20);
        let n = if cx.specs[w].runner.starts_with("cpu:") || cx.specs[w].profile == "dev" { n / 16 } else { n };
        let ops = vec![Op::New(0, b, *k), Op::Append(0, 0, 0, junk(*pre, 2)), Op::Fill(0, *api, *s, n), Op::Checkpoint(0, 0), Op::FinClone(0, 2), Op::Fin(0, 0)];
        let mut sc = watch(w, Mode::Prog(true), ops, "large input");
        sc.label("total:large");
        sc
    });
    // one-shot helpers on large data
    let one = || (key(), any::<u8>(), any::<u64>(), big_len(900_000), 0u8..3);
    cx.suite("large one-shots", cx.n(800), SHARDS, one, |(k, b, s, n, wd), i| {
        let w = native[i % native.len()];
        let types = cx.types(w);
        let b = types[*b as usize % types.len()];
        let d = Content::Seed(*s).bytes(k, *n);
        let mut sc = watch(w, Mode::Prog(true), vec![Op::New(0, b, *k), Op::Append(0, 0, 0, d[..n / 3].to_vec()), Op::OneShot(0, *wd, 0, d)], "large one-shot");
        sc.label("total:large");
        sc
    });
    cx.extra("processes without allocator", nw - counted);
}

/// Builds the crate for targets where nothing but `core` exists.
fn allocator_less(cx: &Ctx) {
    let mut targets = vec!["thumbv6m-none-eabi", "x86_64-unknown-linux-none", "aarch64-unknown-none"];
    if cx.thorough {
        targets.push("riscv32i-unknown-none-elf");
    }
    let res: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = targets
            .iter()
            .map(|t| {
                s.spawn(move || {
                    let mut c = cargo("nightly");
                    c.args(["build", "--offline", "--lib", "--no-default-features", "-Zbuild-std=core", "-j3", "--target", t, "--manifest-path"])
                        .arg(verif().join("vm/Cargo.toml"))
                        .arg("--target-dir")
                        .arg(target_dir().join("core-only").join(t));
                    c.output()
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut names = vec![];
    for (t, r) in targets.iter().zip(res) {
        match r {
            Ok(o) if o.status.success() => names.push(format!("{t}: every operation compiles with core alone")),
            Ok(o) => {
                let e = String::from_utf8_lossy(&o.stderr).to_string();
                match source_error(&e) {
                    Some(e) => {
                        let what = format!("without std the crate needs more than core ({t}):\n{e}");
                        cx.violation(&Failure {
                            replay: format!("highway-replay 1\nproperty C18\n# {}\nrecheck core {t}\n", what.replace('\n', "\n# ")),
                            what,
                        });
                    }
                    None => cx.extra(t, format!("skipped, the build failed outside the crate: {}", e.lines().last().unwrap_or(""))),
                }
            }
            Err(e) => cx.extra(t, format!("skipped: {e}")),
        }
    }
    let n = names.len() as u64;
    cx.count("core-only builds", n, names, &[("core-only", n)]);
}
