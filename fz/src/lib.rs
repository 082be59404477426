//! A coverage-guided fuzzer over operation histories, in-process with the crate under test.
mod cov;
mod exec;
mod input;
#[path = "../../driver/src/model.rs"]
#[allow(dead_code)]
mod model;
mod dict {
    #[derive(Default)]
    pub struct Dict {
        pub words: Vec<u64>,
    }
    pub fn dict() -> Dict {
        Dict::default()
    }
}
mod vectors {
    pub const V64: [u64; 0] = [];
    pub const V128: [[u64; 2]; 0] = [];
    pub const V256: [[u64; 4]; 0] = [];
}

pub mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static ON: AtomicU64 = AtomicU64::new(0);
    static N: AtomicU64 = AtomicU64::new(0);
    struct Counter;
    unsafe impl GlobalAlloc for Counter {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            N.fetch_add(ON.load(Relaxed), Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            N.fetch_add(ON.load(Relaxed), Relaxed);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static G: Counter = Counter;
    pub fn start() {
        ON.store(1, Relaxed)
    }
    pub fn stop() {
        ON.store(0, Relaxed)
    }
    pub fn count() -> u64 {
        N.load(Relaxed)
    }
}

use exec::{describe, Runner, Target};
use input::{Inp, Rng};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Entry {
    inp: Inp,
    pairs: Vec<(u64, u64, u8, u64)>,
}

pub struct Fuzz {
    t: Target,
    rng: Rng,
    run: Runner,
    corpus: Vec<Entry>,
    /// entries that made a rarely equal comparison equal
    rare: Vec<usize>,
    virgin: Vec<Vec<u8>>,
    pub execs: u64,
    distinct: HashSet<u64>,
    pub found: Option<(Vec<u8>, String)>,
    /// execution that failed
    failed: u64,
    /// told about every input before it runs
    pub before: fn(&[u8]),
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1..=3 => 1 << (n - 1),
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

fn digest(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3))
}

impl Fuzz {
    pub fn new(prop: u32, types: &[u8], seed: u64, before: fn(&[u8])) -> Fuzz {
        Fuzz {
            t: Target::new(prop, types),
            rng: Rng(seed ^ (prop as u64) << 32),
            run: Runner::new(),
            corpus: vec![],
            rare: vec![],
            virgin: cov::counters().map(|c| vec![0; c.len()]).collect(),
            execs: 0,
            distinct: HashSet::new(),
            found: None,
            failed: 0,
            before,
        }
    }

    /// Runs one input; did it reach anything new?
    fn one(&mut self, i: &Inp, pairs: bool) -> Result<bool, String> {
        let ser = i.ser();
        (self.before)(&ser);
        self.execs += 1;
        for c in cov::counters() {
            c.fill(0);
        }
        let l = cov::log();
        l.fresh = false;
        l.nops = 0;
        l.solved = false;
        if pairs {
            l.kept.fill(0);
        }
        l.pairs = pairs;
        l.on = true;
        let had = self.run.compared;
        let (run, t) = (&mut self.run, &self.t);
        let r = catch_unwind(AssertUnwindSafe(|| run.exec(t, i)));
        cov::log().on = false;
        alloc::stop();
        match r {
            Ok(r) => r?,
            Err(e) => {
                let edge = self.run.edge.take();
                let compared = self.run.compared;
                self.run = Runner::new();
                self.run.edge = edge;
                self.run.compared = compared;
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()));
                return Err(format!("panic: {}", m.unwrap_or_default()));
            }
        }
        if self.run.compared > had && self.distinct.len() < 1 << 20 {
            self.distinct.insert(digest(&ser));
        }
        let mut new = cov::log().fresh;
        for (c, v) in cov::counters().zip(&mut self.virgin) {
            for (x, seen) in c.iter().zip(v) {
                let b = bucket(*x);
                if b & !*seen != 0 {
                    *seen |= b;
                    new = true;
                }
            }
        }
        Ok(new)
    }

    /// Between two regions that may not be touched.
    pub fn edge(&mut self, base: *mut u8, len: usize) {
        self.run.edge = Some(hvm::Edge::new(base, len));
    }

    fn fail(&mut self, i: &Inp, what: String) {
        self.failed = self.execs;
        let mut best = (i.clone(), what);
        // smaller, as long as it fails by itself
        let mut budget = 4000;
        let mut round = 0;
        let mut last = usize::MAX;
        let mut idle = 0;
        while budget > 0 && best.1 != "" {
            let Some(s) = input::smaller(&best.0, round) else {
                let size = best.0.ser().len();
                idle = if size == last { idle + 1 } else { 0 };
                if idle > 1 {
                    break;
                }
                last = size;
                round = 0;
                continue;
            };
            budget -= 1;
            if s == best.0 {
                round += 1;
                continue;
            }
            match self.one(&s, false) {
                Err(e) => best = (s, e),
                Ok(_) => round += 1,
            }
        }
        self.found = Some((best.0.ser(), best.1));
    }

    fn add(&mut self, i: Inp) -> bool {
        let solved = cov::log().solved;
        // once more for the values it compares
        if let Err(e) = self.one(&i, true) {
            self.fail(&i, e);
            return false;
        }
        let l = cov::log();
        let mut pairs: Vec<(u64, u64, u8, u64)> = vec![];
        for o in &l.ops[..l.nops] {
            if pairs.len() < 256 && !pairs.contains(o) {
                pairs.push(*o);
            }
        }
        if solved {
            self.rare.push(self.corpus.len().min(4095));
        }
        if self.corpus.len() >= 4096 {
            let k = if solved { 4095 } else { self.rng.below(4096) };
            self.corpus[k] = Entry { inp: i, pairs };
        } else {
            self.corpus.push(Entry { inp: i, pairs });
        }
        true
    }

    /// Continues until `execs` executions; false when a failure was found.
    pub fn go(&mut self, execs: u64) -> bool {
        while self.execs < execs {
            let n = self.corpus.len();
            let i = if n == 0 || self.rng.one_in(6) {
                input::random(&mut self.rng, &self.t.kinds, &self.t.hows)
            } else {
                // half of the time one of the latest
                let m = self.rare.len();
                let k = if m > 0 && self.rng.one_in(3) {
                    self.rare[m - 1 - self.rng.below(m.min(48))]
                } else if self.rng.one_in(2) { n - 1 - self.rng.below(n.min(32)) } else { self.rng.below(n) };
                let o = self.rng.below(n);
                let mut i = self.corpus[k].inp.clone();
                input::mutate(&mut i, &mut self.rng, &self.t.kinds, &self.t.hows, &self.corpus[k].pairs, &self.corpus[o].inp);
                i
            };
            match self.one(&i, false) {
                Ok(true) => {
                    if !self.add(i) {
                        return false;
                    }
                }
                Ok(false) => {}
                Err(e) => {
                    self.fail(&i, e);
                    return false;
                }
            }
        }
        true
    }

    /// Runs one given input.
    pub fn single(&mut self, b: &[u8]) -> Result<(), String> {
        let i = Inp::de(b).ok_or("malformed input")?;
        self.one(&i, false).map(|_| ())
    }

    pub fn report(&self) -> String {
        let edges: usize = self.virgin.iter().map(|v| v.iter().filter(|x| **x != 0).count()).sum();
        let all: usize = self.virgin.iter().map(|v| v.len()).sum();
        let mut s = format!(
            "execs {}\ncompared {}\ndistinct {}\ncorpus {}\nedges {edges}\nof {all}\n",
            self.execs,
            self.run.compared,
            self.distinct.len(),
            self.corpus.len()
        );
        let n = self.corpus.len();
        for k in 0..4 {
            if n > k * 7 {
                s += &format!("sample {}\n", describe(&self.corpus[n - 1 - k * n / 8].inp));
            }
        }
        if let Some((b, w)) = &self.found {
            s += &format!("fail {}\nafter {}\n", w.replace('\n', " "), self.failed);
            s += &format!("input {}\n", b.iter().map(|x| format!("{x:02x}")).collect::<String>());
            if let Some(i) = Inp::de(b) {
                s += &format!("means {}\n", describe(&i));
            }
        }
        s
    }
}

/// The same for a wasm host.
#[cfg(target_family = "wasm")]
mod web {
    use super::*;
    const CAP: usize = 1 << 20;
    static mut BUF: [u8; CAP] = [0; CAP];
    static mut CUR: [u8; 8192] = [0; 8192];
    static mut CURN: usize = 0;
    static mut F: Option<Fuzz> = None;
    fn before(b: &[u8]) {
        unsafe {
            CURN = b.len().min(8192);
            (&raw mut CUR as *mut u8).copy_from(b.as_ptr(), CURN);
        }
    }
    #[no_mangle]
    pub extern "C" fn buf() -> *mut u8 {
        &raw mut BUF as *mut u8
    }
    #[no_mangle]
    pub extern "C" fn cur() -> *mut u8 {
        &raw mut CUR as *mut u8
    }
    #[no_mangle]
    pub extern "C" fn curn() -> usize {
        unsafe { CURN }
    }
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub extern "C" fn init(prop: u32, ntypes: u32, seed: u64) {
        unsafe {
            let t = std::slice::from_raw_parts(buf(), ntypes as usize).to_vec();
            F = Some(Fuzz::new(prop, &t, seed, before));
        }
    }
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub extern "C" fn go(execs: u64) -> u32 {
        unsafe { F.as_mut().unwrap().go(execs) as u32 }
    }
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub extern "C" fn single(n: u32) -> u32 {
        unsafe {
            let b = std::slice::from_raw_parts(buf(), n as usize).to_vec();
            let f = F.as_mut().unwrap();
            match f.single(&b) {
                Ok(()) => 1,
                Err(e) => {
                    f.found = Some((b, e));
                    0
                }
            }
        }
    }
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub extern "C" fn report() -> usize {
        unsafe {
            let s = F.as_ref().unwrap().report();
            let n = s.len().min(CAP);
            buf().copy_from(s.as_ptr(), n);
            n
        }
    }
}
