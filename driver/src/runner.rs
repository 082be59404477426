//! Generated-input search: runs suites of cases over the workers, shrinks failures, writes
//! replay files and evidence.
use crate::exec::{build_all, miri_setup, verif, with_new_features, BuildErr, Spec};
use crate::scen::{encode_ops, eval, to_replay, Mode, Outcome, Procs, Scenario};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

pub struct Info {
    pub std: bool,
    pub sse_cfg: bool,
    pub avx_cfg: bool,
    pub sse_det: bool,
    pub avx_det: bool,
    pub ptr: u64,
    pub be: bool,
}

pub struct Failure {
    pub what: String,
    pub replay: String,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    comparisons: u64,
    distinct: HashSet<u64>,
    hist: BTreeMap<String, u64>,
    samples: Vec<String>,
    suites: Vec<(String, u64)>,
    extra: Vec<(String, String)>,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub specs: Vec<Spec>,
    pub bins: Vec<PathBuf>,
    pub info: Vec<Info>,
    stats: Mutex<Stats>,
    t0: Instant,
    pub rule: Mutex<Vec<String>>,
    suite_no: std::sync::atomic::AtomicU64,
    beside: Mutex<Vec<(String, Scenario, std::thread::JoinHandle<(Outcome, f32)>)>>,
}

pub const SHARDS: usize = 8;

/// Added to the number of shards of a suite whose cases differ a lot in cost: a shard takes the
/// next case when it is done, instead of every n-th one. Case `idx` is the same either way.
pub const UNEVEN: usize = 1 << 20;

pub fn die(m: &str) -> ! {
    println!("ERROR: {m}");
    std::process::exit(3)
}

fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Ctx {
    pub fn new(id: &str, seed: u64, thorough: bool) -> Ctx {
        Ctx {
            id: id.into(),
            seed,
            thorough,
            specs: vec![],
            bins: vec![],
            info: vec![],
            stats: Mutex::new(Stats::default()),
            t0: Instant::now(),
            rule: Mutex::new(vec![]),
            suite_no: Default::default(),
            beside: Mutex::default(),
        }
    }

    /// Builds the workers. A compile error inside the crate under test in one configuration while
    /// another builds is itself a failure of the properties that quantify over configurations.
    pub fn workers(&mut self, mut specs: Vec<Spec>) {
        if self.id != "C02" && self.id != "C10" {
            // (those two list them by themselves)
            with_new_features(&mut specs);
        }
        let t = Instant::now();
        // one sysroot per Miri target, before anything runs
        let mut miri: Vec<String> = specs.iter().filter(|s| s.runner == "miri").map(|s| s.target.clone()).collect();
        miri.sort();
        miri.dedup();
        let mut res = vec![];
        let mut merr = vec![];
        std::thread::scope(|sc| {
            let hs: Vec<_> = miri.iter().map(|m| sc.spawn(move || miri_setup(m))).collect();
            res = build_all(&specs);
            for h in hs {
                if let Err(e) = h.join().unwrap() {
                    merr.push(e);
                }
            }
        });
        if let Some(e) = merr.first() {
            die(&format!("miri setup failed: {e}"));
        }
        let any_ok = res.iter().any(|r| r.is_ok());
        let mut bins = vec![];
        for (s, r) in specs.iter().zip(res) {
            match r {
                Ok(p) => bins.push(p),
                Err(BuildErr::Source(e)) if any_ok => {
                    let what = format!("the crate does not compile in configuration {}:\n{e}", s.line());
                    self.violation(&Failure {
                        replay: format!("highway-replay 1\nproperty {}\n# {}\nworker {}\n", self.id, what.replace('\n', "\n# "), s.line()),
                        what,
                    });
                }
                Err(BuildErr::Source(e)) | Err(BuildErr::Other(e)) => die(&e),
            }
        }
        self.specs = specs;
        self.bins = bins;
        let infos: Mutex<HashMap<usize, Info>> = Mutex::new(HashMap::new());
        let fails: Mutex<Vec<String>> = Mutex::new(vec![]);
        let next = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..SHARDS {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= self.specs.len() {
                        return;
                    }
                    let mut p = Procs::new(&self.specs, &self.bins);
                    match p.info(i) {
                        Ok(m) => {
                            let g = |k: &str| m.get(k).copied().unwrap_or(0);
                            infos.lock().unwrap().insert(
                                i,
                                Info {
                                    std: g("std") == 1,
                                    sse_cfg: g("sse_cfg") == 1,
                                    avx_cfg: g("avx_cfg") == 1,
                                    sse_det: g("sse_det") == 1,
                                    avx_det: g("avx_det") == 1,
                                    ptr: g("ptr"),
                                    be: g("be") == 1,
                                },
                            );
                        }
                        Err(e) => fails.lock().unwrap().push(format!("{}: {e:?}", self.specs[i].line())),
                    }
                });
            }
        });
        if let Some(e) = fails.lock().unwrap().first() {
            die(e);
        }
        let mut m = infos.into_inner().unwrap();
        self.info = (0..self.specs.len()).map(|i| m.remove(&i).unwrap()).collect();
        eprintln!("[{}] {} workers ready after {:.1}s", self.id, self.specs.len(), t.elapsed().as_secs_f32());
    }

    /// Backends that can be exercised in a worker: the SIMD types through their unchecked
    /// constructors whenever the (emulated) CPU has the feature.
    pub fn backends(&self, w: usize) -> Vec<u8> {
        use crate::prog::ops::*;
        let s = &self.specs[w];
        let i = &self.info[w];
        let mut v = vec![B_PORTABLE, B_AUTO];
        if s.target.starts_with("x86_64") {
            if i.sse_det {
                v.push(B_SSE_FORCE);
                if i.std {
                    v.push(B_SSE);
                }
            }
            if i.avx_det {
                v.push(B_AVX_FORCE);
                if i.std {
                    v.push(B_AVX);
                }
            }
        } else if s.target.starts_with("aarch64") {
            v.push(B_NEON);
        } else if s.target.starts_with("wasm32") && s.feat.contains("simd128") {
            v.push(B_WASM);
        }
        v
    }
    /// One constructor per hasher type.
    pub fn types(&self, w: usize) -> Vec<u8> {
        use crate::prog::ops::*;
        self.backends(w).into_iter().filter(|b| *b != B_SSE && *b != B_AVX).collect()
    }

    pub fn rule(&self, r: &str) {
        self.rule.lock().unwrap().push(r.into());
    }
    pub fn n(&self, quick: usize) -> usize {
        if self.thorough {
            quick * 12
        } else {
            quick
        }
    }
    pub fn extra(&self, k: &str, v: impl ToString) {
        self.stats.lock().unwrap().extra.push((k.into(), v.to_string()));
    }
    /// Account for cases evaluated outside the scenario machinery.
    pub fn count(&self, suite: &str, n: u64, distinct: impl IntoIterator<Item = String>, labels: &[(&str, u64)]) {
        let mut s = self.stats.lock().unwrap();
        s.evaluations += n;
        s.comparisons += n;
        s.suites.push((suite.into(), n));
        for d in distinct {
            s.distinct.insert(fnv(d.as_bytes()));
            if s.samples.len() < 12 {
                s.samples.push(d);
            }
        }
        for (l, k) in labels {
            *s.hist.entry(l.to_string()).or_default() += k;
        }
    }

    /// Account for the executions of the coverage-guided fuzzer.
    pub fn fuzzed(&self, suite: &str, execs: u64, compared: u64, samples: Vec<String>) {
        let mut s = self.stats.lock().unwrap();
        s.evaluations += execs;
        s.comparisons += compared;
        s.suites.push((suite.into(), execs));
        for d in samples.into_iter().take(3) {
            s.distinct.insert(fnv(d.as_bytes()));
            s.samples.push(d);
        }
    }

    fn note(&self, sc: &Scenario, compared: usize) {
        let mut sig = vec![];
        for r in &sc.runs {
            sig.extend_from_slice(&(r.w as u32).to_le_bytes());
            sig.extend(encode_ops(&r.ops, &|_| None));
            if let Mode::Huge(..) = r.mode {
                sig.extend_from_slice(format!("{:?}", r.mode).as_bytes());
            }
        }
        let mut s = self.stats.lock().unwrap();
        s.evaluations += 1;
        s.comparisons += compared as u64;
        for l in &sc.labels {
            *s.hist.entry(l.clone()).or_default() += 1;
        }
        if compared == 0 {
            *s.hist.entry("no-comparison".into()).or_default() += 1;
        }
        if sc.nontrivial && compared > 0 && s.distinct.insert(fnv(&sig)) {
            let d = s.distinct.len();
            if s.samples.len() < 10 && (d == 1 || d % 97 == 0) {
                let text = sc
                    .runs
                    .iter()
                    .take(2)
                    .map(|r| {
                        format!(
                            "{}: {}",
                            self.specs[r.w].line(),
                            if r.ops.is_empty() {
                                format!("{:?}", r.mode)
                            } else {
                                r.ops.iter().take(24).map(|o| o.to_string()).collect::<Vec<_>>().join("; ")
                            }
                        )
                    })
                    .collect::<Vec<_>>()
                    .join(" || ");
                s.samples.push(text);
            }
        }
    }

    /// Random search: `cases` values of `strat`, spread over the shards. The i-th case of a shard
    /// is a function of the seed, the suite and the shard alone.
    pub fn suite<S, F>(&self, name: &str, cases: usize, shards: usize, strat: impl Fn() -> S + Sync, mk: F)
    where
        S: Strategy,
        S::Value: Debug + Clone,
        F: Fn(&S::Value, usize) -> Scenario + Sync,
    {
        let t = Instant::now();
        let no = self.suite_no.fetch_add(1, SeqCst);
        let stop = AtomicBool::new(false);
        let found: Mutex<Vec<(usize, usize, Failure)>> = Mutex::new(vec![]);
        let infra: Mutex<Vec<String>> = Mutex::new(vec![]);
        let claimed = AtomicUsize::new(0);
        let (uneven, shards) = (shards & UNEVEN != 0, shards & !UNEVEN);
        std::thread::scope(|sc| {
            for shard in 0..shards {
                let (stop, found, infra, strat, mk, claimed) = (&stop, &found, &infra, &strat, &mk, &claimed);
                let me = self;
                sc.spawn(move || {
                    let seeded = |x: usize| {
                        let mut seed = [0u8; 32];
                        seed[..8].copy_from_slice(&me.seed.to_le_bytes());
                        seed[8..16].copy_from_slice(&fnv(me.id.as_bytes()).to_le_bytes());
                        seed[16..24].copy_from_slice(&no.to_le_bytes());
                        seed[24..].copy_from_slice(&(x as u64).to_le_bytes());
                        TestRunner::new_with_rng(
                            Config { failure_persistence: None, ..Config::default() },
                            TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                        )
                    };
                    let mut runner = seeded(shard);
                    let s = strat();
                    let mut procs = Procs::new(&me.specs, &me.bins);
                    let mine = (cases + shards - 1 - shard) / shards;
                    for i in 0..if uneven { cases } else { mine } {
                        if stop.load(SeqCst) {
                            return;
                        }
                        let mut idx = i * shards + shard;
                        if uneven {
                            idx = claimed.fetch_add(1, SeqCst);
                            if idx >= cases {
                                return;
                            }
                            runner = seeded(idx);
                        }
                        let mut tree = match s.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => {
                                infra.lock().unwrap().push(format!("generator: {e}"));
                                return;
                            }
                        };
                        let scn = mk(&tree.current(), idx);
                        let since = Instant::now();
                        let out = eval(&scn, &mut procs);
                        if since.elapsed().as_secs() > 40 {
                            let on: Vec<_> = scn.runs.iter().map(|r| me.specs[r.w].line()).collect();
                            eprintln!("[{}] {name}: case {idx} took {:.0}s on {on:?}", me.id, since.elapsed().as_secs_f32());
                        }
                        match out {
                            Outcome::Pass(n) => me.note(&scn, n),
                            Outcome::Infra(e) => {
                                infra.lock().unwrap().push(e);
                                stop.store(true, SeqCst);
                                return;
                            }
                            Outcome::Fail(what) => {
                                stop.store(true, SeqCst);
                                let f = me.shrink(&mut tree, idx, what, scn, mk, procs);
                                found.lock().unwrap().push((shard, i, f));
                                return;
                            }
                        }
                    }
                });
            }
        });
        self.finish_suite(name, cases as u64, t, found, infra);
    }

    /// Evaluates long scenarios beside the suites, one thread and process each; see `settle_beside`.
    /// When one fails that has a second, slower form, the second decides.
    pub fn beside(&self, name: &str, scenarios: Vec<(Scenario, Option<Scenario>)>) {
        for (sc, second) in scenarios {
            let (specs, bins, mine) = (self.specs.clone(), self.bins.clone(), sc.clone());
            let t = std::thread::spawn(move || {
                let t = Instant::now();
                let mut procs = Procs::new(&specs, &bins);
                let mut o = eval(&mine, &mut procs);
                if let (Outcome::Fail(_), Some(x)) = (&o, second) {
                    o = eval(&x, &mut procs);
                }
                (o, t.elapsed().as_secs_f32())
            });
            self.beside.lock().unwrap().push((name.into(), sc, t));
        }
    }

    /// Waits for the scenarios given to `beside`. On a machine so slow that one is not done in
    /// time, it is abandoned and reported as such.
    pub fn settle_beside(&self) {
        let until: f32 = if self.thorough { 3000.0 } else { 600.0 };
        let todo = std::mem::take(&mut *self.beside.lock().unwrap());
        let mut done: Vec<(String, u64, f32)> = vec![];
        let mut abandoned = 0;
        for (name, sc, t) in todo {
            while !t.is_finished() && self.t0.elapsed().as_secs_f32() < until {
                std::thread::sleep(std::time::Duration::from_millis(100));
            }
            if !t.is_finished() {
                abandoned += 1;
                continue;
            }
            let (o, secs) = t.join().unwrap_or_else(|_| die("a thread of the harness panicked"));
            match o {
                Outcome::Pass(n) => {
                    self.note(&sc, n);
                    match done.iter_mut().find(|d| d.0 == name) {
                        Some(d) => {
                            d.1 += 1;
                            d.2 = d.2.max(secs);
                        }
                        None => done.push((name, 1, secs)),
                    }
                }
                Outcome::Fail(what) => {
                    self.violation(&Failure { replay: to_replay(&self.id, &what, &self.specs, &sc, &[]), what });
                }
                Outcome::Infra(e) => {
                    eprintln!("[{}] {name}: {e}", self.id);
                    abandoned += 1;
                }
            }
        }
        for (name, n, secs) in done {
            self.stats.lock().unwrap().suites.push((name.clone(), n));
            eprintln!("[{}] {name}: {n} cases beside the others, {secs:.1}s", self.id);
        }
        if abandoned > 0 {
            self.extra("abandoned for lack of time or memory", abandoned);
        }
    }

    /// Enumerated cases (each `mk(i)` for i in 0..n); the smallest failing index is reported.
    pub fn list<F>(&self, name: &str, n: usize, shards: usize, mk: F)
    where
        F: Fn(usize) -> Scenario + Sync,
    {
        let t = Instant::now();
        self.suite_no.fetch_add(1, SeqCst);
        let stop = AtomicBool::new(false);
        let found: Mutex<Vec<(usize, usize, Failure)>> = Mutex::new(vec![]);
        let infra: Mutex<Vec<String>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for shard in 0..shards {
                let (stop, found, infra, mk) = (&stop, &found, &infra, &mk);
                let me = self;
                sc.spawn(move || {
                    let mut procs = Procs::new(&me.specs, &me.bins);
                    let mut i = shard;
                    while i < n && !stop.load(SeqCst) {
                        let scn = mk(i);
                        match eval(&scn, &mut procs) {
                            Outcome::Pass(n) => me.note(&scn, n),
                            Outcome::Infra(e) => {
                                infra.lock().unwrap().push(e);
                                stop.store(true, SeqCst);
                            }
                            Outcome::Fail(what) => {
                                stop.store(true, SeqCst);
                                let f = me.settle(what, scn, procs);
                                found.lock().unwrap().push((i, 0, f));
                                return;
                            }
                        }
                        i += shards;
                    }
                });
            }
        });
        self.finish_suite(name, n as u64, t, found, infra);
    }

    fn finish_suite(
        &self,
        name: &str,
        n: u64,
        t: Instant,
        found: Mutex<Vec<(usize, usize, Failure)>>,
        infra: Mutex<Vec<String>>,
    ) {
        let mut f = found.into_inner().unwrap();
        f.sort_by_key(|x| (x.0, x.1));
        if let Some((_, _, f)) = f.first() {
            self.violation(f);
        }
        if let Some(e) = infra.into_inner().unwrap().first() {
            die(&format!("{name}: {e}"));
        }
        self.stats.lock().unwrap().suites.push((name.into(), n));
        eprintln!("[{}] {name}: {n} cases in {:.1}s", self.id, t.elapsed().as_secs_f32());
    }

    fn fresh_eval(&self, sc: &Scenario, prelude: &[(usize, Vec<u8>)]) -> Outcome {
        let mut p = Procs::new(&self.specs, &self.bins);
        for (w, q) in prelude {
            if let Err(e) = p.call(*w, q) {
                return Outcome::Infra(format!("{e:?}"));
            }
        }
        eval(sc, &mut p)
    }

    fn shrink<T, F>(&self, tree: &mut T, idx: usize, what: String, scn: Scenario, mk: &F, procs: Procs) -> Failure
    where
        T: ValueTree,
        F: Fn(&T::Value, usize) -> Scenario,
    {
        if what.contains("did not return") {
            // every attempt would take minutes
            return Failure { replay: to_replay(&self.id, &what, &self.specs, &scn, &[]), what };
        }
        let mut best = (what, scn);
        // only shrink what fails on its own; history-dependent failures are settled with a prelude
        if !matches!(self.fresh_eval(&best.1, &[]), Outcome::Fail(_)) {
            return self.settle(best.0, best.1, procs);
        }
        let slow = best.1.runs.iter().any(|r| self.specs[r.w].slow() || matches!(r.mode, Mode::Threads(..) | Mode::Shared(..) | Mode::Huge(..)));
        let mut budget = if slow { 12 } else { 1500 };
        let deadline = Instant::now() + std::time::Duration::from_secs(60);
        let mut p = Procs::new(&self.specs, &self.bins);
        let mut more = tree.simplify();
        while more && budget > 0 && Instant::now() < deadline {
            budget -= 1;
            let sc = mk(&tree.current(), idx);
            match eval(&sc, &mut p) {
                Outcome::Fail(w) => {
                    best = (w, sc);
                    more = tree.simplify();
                }
                _ => more = tree.complicate(),
            }
        }
        self.settle(best.0, best.1, procs)
    }

    /// Makes a replayable failure out of a failing scenario.
    fn settle(&self, what: String, mut sc: Scenario, procs: Procs) -> Failure {
        let mut prelude = vec![];
        if what.contains("did not return") {
            return Failure { replay: to_replay(&self.id, &what, &self.specs, &sc, &[]), what };
        }
        let mut what = what;
        match self.fresh_eval(&sc, &[]) {
            Outcome::Fail(w) => {
                what = w;
                // fewer assertions make a smaller reproduction
                let mut i = 0;
                let deadline = Instant::now() + std::time::Duration::from_secs(20);
                let mut p = Procs::new(&self.specs, &self.bins);
                while i < sc.checks.len() && Instant::now() < deadline {
                    let mut t = sc.clone();
                    t.checks.remove(i);
                    match eval(&t, &mut p) {
                        Outcome::Fail(w) => {
                            what = w;
                            sc = t;
                        }
                        _ => i += 1,
                    }
                }
            }
            _ => {
                // depends on what the process did before
                for (w, p) in &procs.live {
                    for q in &p.log {
                        prelude.push((*w, q.clone()));
                    }
                }
                let fails = |pre: &[(usize, Vec<u8>)]| matches!(self.fresh_eval(&sc, pre), Outcome::Fail(_));
                if prelude.is_empty() || !fails(&prelude) {
                    what = format!("{what}\n(observed once; not reproduced in a fresh process: depends on timing)");
                    prelude.clear();
                } else {
                    let deadline = Instant::now() + std::time::Duration::from_secs(45);
                    let mut step = prelude.len() / 2;
                    while step > 0 && Instant::now() < deadline {
                        let mut i = 0;
                        while i < prelude.len() && Instant::now() < deadline {
                            let mut t = prelude.clone();
                            t.drain(i..(i + step).min(t.len()));
                            if fails(&t) {
                                prelude = t;
                            } else {
                                i += step;
                            }
                        }
                        step /= 2;
                    }
                    what = format!("{what}\n(after {} earlier requests in the same process)", prelude.len());
                }
            }
        }
        Failure { replay: to_replay(&self.id, &what, &self.specs, &sc, &prelude), what }
    }

    pub fn violation(&self, f: &Failure) -> ! {
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let name = format!("{}-{:016x}.txt", self.id, fnv(f.replay.as_bytes()));
        let p = dir.join(&name);
        let _ = std::fs::write(&p, &f.replay);
        println!("{}", f.what);
        self.evidence(1);
        println!("VIOLATION property={} replay={}", self.id, p.display());
        std::process::exit(1)
    }

    pub fn pass(&self) -> ! {
        let s = self.stats.lock().unwrap();
        if s.comparisons == 0 || s.distinct.is_empty() {
            drop(s);
            die("nothing was compared");
        }
        println!(
            "{}: held on {} cases ({} distinct non-trivial, {} comparisons) in {:.1}s",
            self.id,
            s.evaluations,
            s.distinct.len(),
            s.comparisons,
            self.t0.elapsed().as_secs_f32()
        );
        drop(s);
        self.evidence(0);
        std::process::exit(0)
    }

    fn evidence(&self, violations: u32) {
        let s = self.stats.lock().unwrap();
        let q = |t: &str| {
            let mut o = String::from("\"");
            for c in t.chars() {
                match c {
                    '"' => o += "\\\"",
                    '\\' => o += "\\\\",
                    c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
                    c => o.push(c),
                }
            }
            o + "\""
        };
        let obj = |v: Vec<(String, String)>| {
            format!("{{{}}}", v.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", "))
        };
        let mut samples: Vec<String> = s.samples.iter().map(|x| q(x)).collect();
        if samples.is_empty() {
            samples.push(q("(stopped at the first case)"));
        }
        let cov = vec![
            ("evaluations".to_string(), s.evaluations.to_string()),
            ("distinct_nontrivial".into(), s.distinct.len().to_string()),
            ("comparisons".into(), s.comparisons.to_string()),
            ("rule".into(), q(&self.rule.lock().unwrap().join(" "))),
            ("samples".into(), format!("[{}]", samples.join(",\n "))),
            ("suites".into(), obj(s.suites.iter().map(|(k, v)| (k.clone(), v.to_string())).collect())),
            ("classification".into(), obj(s.hist.iter().map(|(k, v)| (k.clone(), v.to_string())).collect())),
            (
                "workers".into(),
                format!("[{}]", self.specs.iter().map(|x| q(&x.line())).collect::<Vec<_>>().join(", ")),
            ),
            ("notes".into(), obj(s.extra.iter().map(|(k, v)| (k.clone(), q(v))).collect())),
        ];
        let o = obj(vec![
            ("property".into(), q(&self.id)),
            ("tier".into(), q(if self.thorough { "thorough" } else { "quick" })),
            ("seed".into(), self.seed.to_string()),
            ("level".into(), q("exploration")),
            ("coverage".into(), obj(cov)),
            ("wall_s".into(), format!("{:.1}", self.t0.elapsed().as_secs_f32())),
            ("violations".into(), violations.to_string()),
        ]);
        let d = verif().join("evidence");
        let _ = std::fs::create_dir_all(&d);
        if let Err(e) = std::fs::write(d.join(format!("{}.json", self.id)), o + "\n") {
            die(&format!("cannot write evidence: {e}"));
        }
    }
}
