//! Scenarios: histories on workers plus assertions between what they observed.
use crate::exec::{Death, Proc, Spec};
use crate::model;
use crate::prog::{hex, ops, unhex, Key, Op, Ref};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::path::PathBuf;

#[derive(Clone, Debug)]
pub enum Mode {
    /// `true`: count heap allocations
    Prog(bool),
    /// in a process that has executed nothing else
    Fresh,
    /// operation i runs on thread i % k
    Migrate(u8),
    /// programs (each a list of ops) run concurrently `rep` times against a sequential baseline;
    /// builder 0 of each is one shared builder with this key. With FIRST the process is new and the
    /// programs run once, concurrently, before anything else does (and there is no shared builder)
    Threads(u32, Key),
    /// between the first part of the program (split[0] operations) and the rest, so many threads
    /// observe all live hashers at once for so many rounds
    Shared(u8, u32),
    /// backend, api, width, key, seed, prefix, total, chunk
    Huge(u8, u8, u8, Key, u64, u64, u64, u64),
}

pub const FIRST: u32 = 1 << 31;

#[derive(Clone, Debug)]
pub struct Run {
    pub w: usize,
    pub mode: Mode,
    pub ops: Vec<Op>,
    /// Threads: lengths of the consecutive programs in `ops`
    pub split: Vec<usize>,
}

#[derive(Clone, Debug)]
pub enum Part {
    Lit(Vec<u8>),
    /// these bytes so many times
    Rep(Vec<u8>, u32),
    /// the bytes a recorded Hash value wrote
    Rec(Ref),
}

#[derive(Clone, Debug)]
pub enum Check {
    /// both observations are the same bytes
    Eq(Ref, Ref, String),
    Lit(Ref, Vec<u8>, String),
    /// observation (first bytes of it) is HighwayHash of the concatenated parts
    Stream(Ref, Key, u8, Vec<Part>, String),
    /// a value was produced (the constructor did not refuse)
    Avail(Ref, String),
    /// the constructor refused
    Refused(Ref, String),
    /// the observation is not an io error
    NoErr(Ref),
    /// no heap allocation during the run
    NoAlloc(usize, String),
    /// the checkpoints are of hashers with the same pending bytes but different absorbed ones: no
    /// more bytes differ between them than the 1024-bit state accounts for
    Leak(Vec<Ref>, String),
    /// Debug text names one of these types (and no other backend)
    Names(Ref, Vec<String>, String),
    /// these Debug texts all name the same backend
    SameNames(Vec<Ref>, String),
    /// every thread saw its sequential result (implied by Mode::Threads)
    Quiet,
}

#[derive(Clone, Debug, Default)]
pub struct Scenario {
    pub runs: Vec<Run>,
    pub checks: Vec<Check>,
    pub labels: Vec<String>,
    pub nontrivial: bool,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub tag: u8,
    pub data: Vec<u8>,
}

pub struct Results {
    pub recs: Vec<Vec<Rec>>,
    pub allocs: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    /// number of assertions that compared real values
    Pass(usize),
    Fail(String),
    Infra(String),
}

impl Scenario {
    pub fn run(&mut self, w: usize, ops: Vec<Op>) -> usize {
        self.runs.push(Run { w, mode: Mode::Prog(false), ops, split: vec![] });
        self.runs.len() - 1
    }
    pub fn eq(&mut self, a: (usize, usize), b: (usize, usize), what: impl Into<String>) {
        self.checks.push(Check::Eq(r(a), r(b), what.into()));
    }
    pub fn lit(&mut self, a: (usize, usize), v: Vec<u8>, what: impl Into<String>) {
        self.checks.push(Check::Lit(r(a), v, what.into()));
    }
    pub fn stream(&mut self, a: (usize, usize), k: Key, w: u8, d: &[u8], what: impl Into<String>) {
        self.checks.push(Check::Stream(r(a), k, w, vec![Part::Lit(d.to_vec())], what.into()));
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
}
fn r(a: (usize, usize)) -> Ref {
    Ref { run: a.0, op: a.1 }
}

pub struct Procs<'a> {
    pub specs: &'a [Spec],
    pub bins: &'a [PathBuf],
    pub live: HashMap<usize, Proc>,
}

impl<'a> Procs<'a> {
    pub fn new(specs: &'a [Spec], bins: &'a [PathBuf]) -> Self {
        Procs { specs, bins, live: HashMap::new() }
    }
    pub fn get(&mut self, w: usize) -> Result<&mut Proc, Death> {
        if self.live.get(&w).is_some_and(|p| p.stale()) {
            self.live.remove(&w);
        }
        if !self.live.contains_key(&w) {
            let p = Proc::start(&self.specs[w], &self.bins[w]).map_err(Death::Infra)?;
            self.live.insert(w, p);
        }
        Ok(self.live.get_mut(&w).unwrap())
    }
    /// `limit`: seconds to wait for the answer, 0 for the worker's own limit
    pub fn call_within(&mut self, w: usize, req: &[u8], limit: i32) -> Result<(u8, u64, Vec<u8>), Death> {
        let p = self.get(w)?;
        let own = p.timeout_ms;
        if limit > 0 {
            p.timeout_ms = limit * 1000;
        }
        let r = self.call(w, req);
        if let Some(p) = self.live.get_mut(&w) {
            p.timeout_ms = own;
        }
        r
    }
    pub fn call(&mut self, w: usize, req: &[u8]) -> Result<(u8, u64, Vec<u8>), Death> {
        let r = self.get(w)?.call(req);
        if r.is_err() {
            self.live.remove(&w);
        }
        r
    }
    pub fn info(&mut self, w: usize) -> Result<HashMap<String, u64>, Death> {
        let (_, _, b) = self.call(w, &[1])?;
        let t = String::from_utf8_lossy(b.get(5..).unwrap_or(&[])).to_string();
        Ok(t.split_whitespace()
            .filter_map(|x| x.split_once('='))
            .filter_map(|(k, v)| Some((k.to_string(), v.parse().ok()?)))
            .collect())
    }
}

fn parse_recs(b: &[u8]) -> Option<Vec<Rec>> {
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        let n = u32::from_le_bytes(b.get(p + 1..p + 5)?.try_into().ok()?) as usize;
        v.push(Rec { tag: b[p], data: b.get(p + 5..p + 5 + n)?.to_vec() });
        p += 5 + n;
    }
    Some(v)
}

impl Results {
    fn get(&self, r: Ref) -> Option<&Rec> {
        self.recs.get(r.run)?.get(r.op)
    }
    /// the observed value, if the operation produced one
    fn val(&self, r: Ref) -> Option<&[u8]> {
        let x = self.get(r)?;
        match x.tag {
            ops::R_BYTES | ops::R_NUM | ops::R_TEXT => Some(&x.data),
            ops::R_REC => Some(&x.data[..8]),
            _ => None,
        }
    }
    fn missing(&self, r: Ref) -> bool {
        self.get(r).is_some_and(|x| x.tag == ops::R_UNAVAIL || x.tag == ops::R_EMPTY)
    }
}

pub fn encode_ops(o: &[Op], resolve: &dyn Fn(Ref) -> Option<Vec<u8>>) -> Vec<u8> {
    let mut v = vec![];
    for x in o {
        x.encode(&mut v, resolve);
    }
    v
}

/// A program for `Vm::run`. For one in three (by its bytes) all data that is not placed elsewhere comes
/// from one address, so that nothing can be remembered by address.
fn encode_run(o: &[Op], resolve: &dyn Fn(Ref) -> Option<Vec<u8>>) -> Vec<u8> {
    let mut v = encode_ops(o, resolve);
    let h = v.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3));
    if (h >> 20) % 3 == 0 {
        v.insert(0, ops::OP_STAGE);
    }
    v
}

/// Runs the scenario. A panic, fault or modified input always fails it.
pub fn eval(sc: &Scenario, procs: &mut Procs) -> Outcome {
    let mut res = Results { recs: vec![], allocs: vec![] };
    for (ri, run) in sc.runs.iter().enumerate() {
        let resolve = |r: Ref| res.val(r).map(|x| x.to_vec());
        let mut req = vec![];
        match &run.mode {
            Mode::Prog(count) => {
                req.extend_from_slice(&[0, *count as u8]);
                req.extend(encode_run(&run.ops, &resolve));
            }
            Mode::Fresh => {
                procs.live.remove(&run.w);
                req.extend_from_slice(&[0, 1]);
                req.extend(encode_run(&run.ops, &resolve));
            }
            Mode::Migrate(k) => {
                req.extend_from_slice(&[4, *k]);
                req.extend(encode_ops(&run.ops, &resolve));
            }
            Mode::Threads(rep, key) => {
                if rep & FIRST != 0 {
                    procs.live.remove(&run.w);
                }
                req.push(3);
                req.extend_from_slice(&rep.to_le_bytes());
                for k in key {
                    req.extend_from_slice(&k.to_le_bytes());
                }
                req.push(run.split.len() as u8);
                let mut at = 0;
                for n in &run.split {
                    let e = encode_run(&run.ops[at..at + n], &resolve);
                    req.extend_from_slice(&(e.len() as u32).to_le_bytes());
                    req.extend(e);
                    at += n;
                }
            }
            Mode::Shared(k, rounds) => {
                let n = run.split.first().copied().unwrap_or(0).min(run.ops.len());
                let e = encode_ops(&run.ops[..n], &resolve);
                req.extend_from_slice(&[5, *k]);
                req.extend_from_slice(&rounds.to_le_bytes());
                req.extend_from_slice(&(e.len() as u32).to_le_bytes());
                req.extend(e);
                req.extend(encode_ops(&run.ops[n..], &resolve));
            }
            Mode::Huge(b, a, w, k, seed, pre, total, chunk) => {
                req.extend_from_slice(&[2, *b, *a, *w]);
                for k in k {
                    req.extend_from_slice(&k.to_le_bytes());
                }
                for x in [seed, pre, total, chunk] {
                    req.extend_from_slice(&x.to_le_bytes());
                }
            }
        }
        let looped = |o: &Op| matches!(o, Op::Loop(..)) || matches!(o, Op::Raw(b) if b[0] == ops::OP_LOOP);
        let fill = |o: &Op| match o {
            Op::Fill(_, _, _, n) => *n as u64,
            // slot, entry point, seed, length
            Op::Raw(b) if b[0] == ops::OP_FILL && b.len() >= 15 => u32::from_le_bytes([b[11], b[12], b[13], b[14]]) as u64,
            _ => 0,
        };
        let filled: u64 = run.ops.iter().map(fill).sum();
        let once = !run.ops.iter().any(looped);
        // a handful of operations on little data takes microseconds
        let light = req.len() < 1 << 16
            && matches!(run.mode, Mode::Prog(_) | Mode::Fresh)
            && !procs.specs[run.w].slow()
            && once
            && filled == 0;
        // so are some megabytes in one call, if it takes seconds
        let medium = matches!(run.mode, Mode::Prog(_) | Mode::Fresh)
            && !procs.specs[run.w].slow()
            && once
            && req.len() < 16 << 20
            && filled < 64 << 20;
        let limit = match run.mode.clone() {
            Mode::Huge(.., total, _) if total >= 1 << 35 => 700,
            Mode::Huge(..) => 400,
            _ if procs.specs[run.w].slow() => 0,
            _ if light => 45,
            _ if medium => 150,
            _ => 500,
        };
        let mut reply = procs.call_within(run.w, &req, limit);
        match reply {
            // deadlocked, or not ending although little was asked for: once more, in a fresh process
            Err(Death::Hang(_, None)) => {
                reply = procs.call_within(run.w, &req, limit);
                if let Err(Death::Hang(n, None)) = reply {
                    return Outcome::Fail(format!("run {ri}: did not return; it waits and uses no processor time ({n} s)"));
                }
            }
            Err(Death::Hang(..)) if light => {
                reply = procs.call_within(run.w, &req, 90);
                if let Err(Death::Hang(n, _)) = reply {
                    return Outcome::Fail(format!("run {ri}: did not return within {n} s, in a fresh process either"));
                }
            }
            Err(Death::Hang(_, Some(c))) if medium && c > 60 => {
                reply = procs.call_within(run.w, &req, 250);
                if let Err(Death::Hang(n, Some(c))) = reply {
                    if c > 120 {
                        return Outcome::Fail(format!("run {ri}: did not return within {n} s ({c} s of processor time), in a fresh process either"));
                    }
                }
            }
            _ => {}
        }
        let (status, allocs, body) = match reply {
            Ok(x) => x,
            Err(Death::Hang(n, _)) => return Outcome::Infra(format!("no answer within {n} s")),
            Err(Death::Fault(m)) => return Outcome::Fail(format!("run {ri}: {m}")),
            Err(Death::Infra(m)) => return Outcome::Infra(m),
        };
        match status {
            0 => {}
            1 => return Outcome::Fail(format!("run {ri}: panicked: {}", String::from_utf8_lossy(&body))),
            2 => return Outcome::Fail(format!("run {ri}: {}", String::from_utf8_lossy(&body))),
            _ => return Outcome::Infra(format!("worker status {status}")),
        }
        let recs = match &run.mode {
            Mode::Huge(..) => {
                // op 0: bytes reported, op 1: hash
                if body[0] == 0 {
                    vec![Rec { tag: ops::R_UNAVAIL, data: vec![] }, Rec { tag: ops::R_UNAVAIL, data: vec![] }]
                } else if body.len() < 41 {
                    return Outcome::Infra("no memory for a huge input".into());
                } else {
                    vec![
                        Rec { tag: ops::R_NUM, data: body[1..9].to_vec() },
                        Rec { tag: ops::R_BYTES, data: body[9..41].to_vec() },
                    ]
                }
            }
            Mode::Threads(..) => {
                let mut p = 0;
                let mut all = vec![];
                for (i, _) in run.split.iter().enumerate() {
                    let n = u32::from_le_bytes(body[p + 1..p + 5].try_into().unwrap()) as usize;
                    if body[p] == 1 {
                        return Outcome::Fail(format!(
                            "run {ri}: thread {i} observed results that differ from its isolated execution"
                        ));
                    }
                    match parse_recs(&body[p + 5..p + 5 + n]) {
                        Some(v) => all.extend(v),
                        None => return Outcome::Infra("malformed thread records".into()),
                    }
                    p += 5 + n;
                }
                all
            }
            _ => match parse_recs(&body) {
                Some(v) => v,
                None => return Outcome::Infra("malformed records".into()),
            },
        };
        if !matches!(run.mode, Mode::Huge(..)) && recs.len() != run.ops.len() {
            return Outcome::Infra(format!("run {ri}: {} operations but {} records", run.ops.len(), recs.len()));
        }
        res.recs.push(recs);
        res.allocs.push(allocs);
    }
    let mut n = 0;
    for c in &sc.checks {
        match check(c, &res) {
            Ok(k) => n += k,
            Err(e) => return Outcome::Fail(e),
        }
    }
    Outcome::Pass(n)
}

fn at(r: Ref) -> String {
    format!("run {} op {}", r.run, r.op)
}

fn check(c: &Check, res: &Results) -> Result<usize, String> {
    match c {
        Check::Eq(a, b, what) => {
            if res.missing(*a) || res.missing(*b) {
                return Ok(0);
            }
            match (res.val(*a), res.val(*b)) {
                (Some(x), Some(y)) if x == y => Ok(1),
                (x, y) => Err(format!(
                    "{what}: {} gives {} but {} gives {}",
                    at(*a),
                    x.map_or("no value".into(), hex),
                    at(*b),
                    y.map_or("no value".into(), hex)
                )),
            }
        }
        Check::Lit(a, want, what) => {
            if res.missing(*a) {
                return Ok(0);
            }
            match res.val(*a) {
                Some(x) if x == want => Ok(1),
                // Huge results are padded to 32 bytes
                Some(x) if x.len() == 32 && want.len() < 32 && x[..want.len()] == want[..] => Ok(1),
                x => Err(format!(
                    "{what}: {} gives {}, expected {}",
                    at(*a),
                    x.map_or("no value".into(), hex),
                    hex(want)
                )),
            }
        }
        Check::Stream(a, key, w, parts, what) => {
            if res.missing(*a) {
                return Ok(0);
            }
            let mut d = vec![];
            for p in parts {
                match p {
                    Part::Lit(b) => d.extend_from_slice(b),
                    Part::Rep(b, n) => d.extend(b.repeat(*n as usize)),
                    Part::Rec(r) => match res.get(*r) {
                        Some(x) if x.tag == ops::R_REC => d.extend_from_slice(&x.data[8..]),
                        _ => return Ok(0),
                    },
                }
            }
            let want = model::hash(key, &d, *w);
            match res.val(*a) {
                Some(x) if x == &want[..] => Ok(1),
                x => Err(format!(
                    "{what}: {} gives {}, HighwayHash is {}",
                    at(*a),
                    x.map_or("no value".into(), hex),
                    hex(&want)
                )),
            }
        }
        Check::Avail(a, what) => match res.get(*a) {
            Some(x) if x.tag == ops::R_OK => Ok(1),
            _ => Err(format!("{what}: {} refused", at(*a))),
        },
        Check::Refused(a, what) => match res.get(*a) {
            Some(x) if x.tag == ops::R_UNAVAIL => Ok(1),
            _ => Err(format!("{what}: {} returned a hasher", at(*a))),
        },
        Check::NoErr(a) => match res.get(*a) {
            Some(x) if x.tag == ops::R_ERR && x.data.len() == 4 => Err(format!(
                "{}: repetition {} of the loop observed something else than the first",
                at(*a),
                u32::from_le_bytes(x.data[..4].try_into().unwrap())
            )),
            Some(x) if x.tag == ops::R_ERR => Err(format!("{}: returned an error", at(*a))),
            _ => Ok(1),
        },
        Check::NoAlloc(run, what) => {
            if res.allocs[*run] != 0 {
                return Err(format!("{what}: {} heap allocations during run {run}", res.allocs[*run]));
            }
            Ok(1)
        }
        Check::Leak(cps, what) => {
            let c: Vec<&[u8]> = cps.iter().filter_map(|r| res.val(*r)).collect();
            if c.len() < 12 || c.iter().any(|x| x.len() != c[0].len()) {
                return Ok(0);
            }
            let vary: Vec<usize> = (0..c[0].len()).filter(|j| c.iter().any(|x| x[*j] != c[0][*j])).collect();
            if vary.len() > 128 {
                return Err(format!(
                    "{what}: with the same pending bytes, {} checkpoint bytes depend on the absorbed input, but the state has only 128; positions {:?}",
                    vary.len(),
                    vary
                ));
            }
            Ok(1)
        }
        Check::Names(a, names, what) => {
            if res.missing(*a) {
                return Ok(0);
            }
            let t = res.val(*a).map(|x| String::from_utf8_lossy(x).to_string()).unwrap_or_default();
            let seen = named(&t);
            if seen.len() == 1 && names.iter().any(|n| n == seen[0]) {
                Ok(1)
            } else if seen.is_empty() {
                // the Debug text does not reveal the backend: nothing can be concluded
                Ok(0)
            } else {
                Err(format!("{what}: {} runs on {seen:?}, permitted {names:?}", at(*a)))
            }
        }
        Check::SameNames(v, what) => {
            let mut first: Option<(Ref, Vec<&str>)> = None;
            let mut n = 0;
            for r in v {
                if res.missing(*r) {
                    continue;
                }
                let t = res.val(*r).map(|x| String::from_utf8_lossy(x).to_string()).unwrap_or_default();
                let seen = named(&t);
                if seen.len() != 1 {
                    continue;
                }
                n += 1;
                match &first {
                    None => first = Some((*r, seen)),
                    Some((_, f)) if *f == seen => {}
                    Some((a, f)) => return Err(format!("{what}: {} runs on {f:?} but {} on {seen:?}", at(*a), at(*r))),
                }
            }
            Ok(n)
        }
        Check::Quiet => Ok(1),
    }
}

/// Hasher types named in a Debug text.
fn named(t: &str) -> Vec<&'static str> {
    ["PortableHash", "SseHash", "AvxHash", "NeonHash", "WasmHash"].into_iter().filter(|n| t.contains(n)).collect()
}

// ---------------------------------------------------------------- replay files

/// A self-contained reproduction: preceding requests (if the failure depends on them), the
/// histories and the assertions. Nothing in it depends on the generators.
pub fn to_replay(property: &str, what: &str, specs: &[Spec], sc: &Scenario, prelude: &[(usize, Vec<u8>)]) -> String {
    let mut o = String::new();
    let _ = writeln!(o, "highway-replay 1");
    let _ = writeln!(o, "property {property}");
    for l in what.lines() {
        let _ = writeln!(o, "# {l}");
    }
    let mut used: Vec<usize> = sc.runs.iter().map(|r| r.w).chain(prelude.iter().map(|p| p.0)).collect();
    used.sort();
    used.dedup();
    let ix = |w: usize| used.iter().position(|x| *x == w).unwrap();
    for w in &used {
        let _ = writeln!(o, "worker {}", specs[*w].line());
    }
    for (w, q) in prelude {
        let _ = writeln!(o, "pre {} {}", ix(*w), hex(q));
    }
    for (i, r) in sc.runs.iter().enumerate() {
        let m = match &r.mode {
            Mode::Prog(c) => format!("prog {}", *c as u8),
            Mode::Migrate(k) => format!("migrate {k}"),
            Mode::Fresh => "fresh".into(),
            Mode::Threads(n, k) => format!(
                "threads {n} {} {} {} {} {}",
                k[0],
                k[1],
                k[2],
                k[3],
                r.split.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            ),
            Mode::Shared(k, n) => format!("shared {k} {n} {}", r.split.first().unwrap_or(&0)),
            Mode::Huge(b, a, w, k, s, p, t, c) => {
                format!("huge {b} {a} {w} {} {} {} {} {s} {p} {t} {c}", k[0], k[1], k[2], k[3])
            }
        };
        let _ = writeln!(o, "run {} {m}", ix(r.w));
        for (j, op) in r.ops.iter().enumerate() {
            match op {
                Op::RestoreFrom(s, b, rf) => {
                    let _ = writeln!(o, "hole {s} {b} {} {} # [{i}.{j}] {op}", rf.run, rf.op);
                }
                _ => {
                    let mut e = vec![];
                    op.encode(&mut e, &|_| None);
                    let _ = writeln!(o, "op {} # [{i}.{j}] {op}", hex(&e));
                }
            }
        }
    }
    let f = |r: &Ref| format!("{} {}", r.run, r.op);
    let h = |b: &[u8]| if b.is_empty() { "-".to_string() } else { hex(b) };
    for c in &sc.checks {
        let l = match c {
            Check::Eq(a, b, w) => format!("eq {} {} # {w}", f(a), f(b)),
            Check::Lit(a, v, w) => format!("lit {} {} # {w}", f(a), h(v)),
            Check::Stream(a, k, w, p, what) => {
                let mut s = format!("stream {} {} {} {} {} {w}", f(a), k[0], k[1], k[2], k[3]);
                for x in p {
                    match x {
                        Part::Lit(b) => s += &format!(" lit {}", h(b)),
                        Part::Rep(b, n) => s += &format!(" rep {} {n}", h(b)),
                        Part::Rec(r) => s += &format!(" rec {} {}", r.run, r.op),
                    }
                }
                format!("{s} # {what}")
            }
            Check::Avail(a, w) => format!("avail {} # {w}", f(a)),
            Check::Refused(a, w) => format!("refused {} # {w}", f(a)),
            Check::NoErr(a) => format!("noerr {} #", f(a)),
            Check::NoAlloc(r, w) => format!("noalloc {r} # {w}"),
            Check::Leak(c, w) => {
                let mut s = "leak".to_string();
                for c in c {
                    s += &format!(" {} {}", c.run, c.op);
                }
                format!("{s} # {w}")
            }
            Check::Names(a, n, w) => format!("names {} {} # {w}", f(a), n.join(",")),
            Check::SameNames(v, w) => {
                let mut s = "samenames".to_string();
                for c in v {
                    s += &format!(" {} {}", c.run, c.op);
                }
                format!("{s} # {w}")
            }
            Check::Quiet => "quiet #".into(),
        };
        let _ = writeln!(o, "check {l}");
    }
    o
}

pub struct Replay {
    pub property: String,
    pub specs: Vec<Spec>,
    pub prelude: Vec<(usize, Vec<u8>)>,
    pub sc: Scenario,
}

pub fn from_replay(t: &str) -> Option<Replay> {
    let mut rp = Replay { property: String::new(), specs: vec![], prelude: vec![], sc: Scenario::default() };
    for l in t.lines() {
        let (body, note) = l.split_once(" # ").unwrap_or((l.trim_end_matches(" #"), ""));
        let v: Vec<&str> = body.split_whitespace().collect();
        let n = |i: usize| -> Option<u64> { v.get(i)?.parse().ok() };
        let rf = |i: usize| -> Option<Ref> { Some(Ref { run: n(i)? as usize, op: n(i + 1)? as usize }) };
        match v.first().copied() {
            Some("property") => rp.property = v.get(1)?.to_string(),
            Some("worker") => rp.specs.push(Spec::parse(&l[7..])?),
            Some("pre") => rp.prelude.push((n(1)? as usize, unhex(v.get(2)?)?)),
            Some("run") => {
                let w = n(1)? as usize;
                let mut split = vec![];
                let mode = match *v.get(2)? {
                    "prog" => Mode::Prog(n(3)? == 1),
                    "fresh" => Mode::Fresh,
                    "migrate" => Mode::Migrate(n(3)? as u8),
                    "shared" => {
                        split = vec![n(5)? as usize];
                        Mode::Shared(n(3)? as u8, n(4)? as u32)
                    }
                    "threads" => {
                        split = v.get(8)?.split(',').filter_map(|x| x.parse().ok()).collect();
                        Mode::Threads(n(3)? as u32, [n(4)?, n(5)?, n(6)?, n(7)?])
                    }
                    _ => Mode::Huge(
                        n(3)? as u8,
                        n(4)? as u8,
                        n(5)? as u8,
                        [n(6)?, n(7)?, n(8)?, n(9)?],
                        n(10)?,
                        n(11)?,
                        n(12)?,
                        n(13)?,
                    ),
                };
                rp.sc.runs.push(Run { w, mode, ops: vec![], split });
            }
            Some("op") => rp.sc.runs.last_mut()?.ops.push(Op::Raw(unhex(v.get(1)?)?)),
            Some("hole") => {
                rp.sc.runs.last_mut()?.ops.push(Op::RestoreFrom(n(1)? as u8, n(2)? as u8, rf(3)?))
            }
            Some("check") => {
                let c = match *v.get(1)? {
                    "eq" => Check::Eq(rf(2)?, rf(4)?, note.into()),
                    "lit" => Check::Lit(rf(2)?, unhex(v.get(4)?)?, note.into()),
                    "stream" => {
                        let mut parts = vec![];
                        let mut i = 9;
                        while i < v.len() {
                            if v[i] == "lit" {
                                parts.push(Part::Lit(unhex(v.get(i + 1)?)?));
                                i += 2;
                            } else if v[i] == "rep" {
                                parts.push(Part::Rep(unhex(v.get(i + 1)?)?, n(i + 2)? as u32));
                                i += 3;
                            } else {
                                parts.push(Part::Rec(rf(i + 1)?));
                                i += 3;
                            }
                        }
                        Check::Stream(rf(2)?, [n(4)?, n(5)?, n(6)?, n(7)?], n(8)? as u8, parts, note.into())
                    }
                    "avail" => Check::Avail(rf(2)?, note.into()),
                    "refused" => Check::Refused(rf(2)?, note.into()),
                    "noerr" => Check::NoErr(rf(2)?),
                    "noalloc" => Check::NoAlloc(n(2)? as usize, note.into()),
                    "leak" => {
                        let mut c = vec![];
                        for i in (2..v.len()).step_by(2) {
                            c.push(rf(i)?);
                        }
                        Check::Leak(c, note.into())
                    }
                    "samenames" => {
                        let mut c = vec![];
                        for i in (2..v.len()).step_by(2) {
                            c.push(rf(i)?);
                        }
                        Check::SameNames(c, note.into())
                    }
                    "names" => Check::Names(
                        rf(2)?,
                        v.get(4)?.split(',').map(|x| x.to_string()).collect(),
                        note.into(),
                    ),
                    _ => Check::Quiet,
                };
                rp.sc.checks.push(c);
            }
            _ => {}
        }
    }
    Some(rp)
}
