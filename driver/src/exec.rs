//! Worker configurations: how they are built from /repo's tree and how they are run.
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Spec {
    pub target: String,
    /// dev | release | checked | lto
    pub profile: String,
    pub std: bool,
    /// value of -C target-feature / target-cpu, "" for none ("cpu=native" selects target-cpu)
    pub feat: String,
    /// native | cpu:<qemu model> | valgrind | miri | bare (no std, libc or allocator)
    pub runner: String,
    /// none | address | thread | cov (coverage instrumentation)
    pub san: String,
    pub wrap: bool,
}

pub const X86: &str = "x86_64-unknown-linux-gnu";
pub const ARM: &str = "aarch64-unknown-linux-gnu";
pub const I686: &str = "i686-unknown-linux-gnu";
pub const WASM: &str = "wasm32-unknown-unknown";
pub const PPC64: &str = "powerpc64-unknown-linux-gnu";

pub fn spec(target: &str, profile: &str) -> Spec {
    Spec {
        target: target.into(),
        profile: profile.into(),
        std: true,
        feat: String::new(),
        runner: "native".into(),
        san: "none".into(),
        wrap: false,
    }
}
impl Spec {
    pub fn nostd(mut self) -> Self {
        self.std = false;
        self
    }
    pub fn feat(mut self, f: &str) -> Self {
        self.feat = f.into();
        self
    }
    pub fn runner(mut self, r: &str) -> Self {
        self.runner = r.into();
        self
    }
    pub fn san(mut self, s: &str) -> Self {
        self.san = s.into();
        self
    }
    pub fn wrap(mut self) -> Self {
        self.wrap = true;
        self
    }
    pub fn line(&self) -> String {
        format!(
            "target={} profile={} std={} feat={} runner={} san={} wrap={}",
            self.target,
            self.profile,
            self.std as u8,
            if self.feat.is_empty() { "-" } else { &self.feat },
            self.runner,
            self.san,
            self.wrap as u8
        )
    }
    pub fn parse(l: &str) -> Option<Spec> {
        let m: HashMap<&str, &str> = l.split_whitespace().filter_map(|x| x.split_once('=')).collect();
        // feat itself may contain '='
        let feat = l.split_whitespace().find_map(|x| x.strip_prefix("feat="))?;
        Some(Spec {
            target: m.get("target")?.to_string(),
            profile: m.get("profile")?.to_string(),
            std: *m.get("std")? == "1",
            feat: if feat == "-" { String::new() } else { feat.to_string() },
            runner: m.get("runner")?.to_string(),
            san: m.get("san")?.to_string(),
            wrap: *m.get("wrap")? == "1",
        })
    }
    fn build_id(&self) -> String {
        let s = format!(
            "{}-{}-{}-{}-{}{}",
            self.target.split('-').next().unwrap_or(""),
            self.profile,
            if self.std { "std" } else { "nostd" },
            if self.feat.is_empty() { "base".into() } else { self.feat.replace(['+', ',', '=', ' '], "_") },
            self.san,
            if self.wrap { "-wrap" } else { "" }
        );
        if self.runner == "miri" || self.runner == "bare" {
            format!("{}-{s}", self.runner)
        } else {
            s
        }
    }
    pub fn slow(&self) -> bool {
        self.runner == "miri" || self.runner == "valgrind"
    }
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var_os("VERIF_DIR").unwrap_or_else(|| "/verif".into()))
}
/// The tree under test: beside this one, as the path dependencies say
pub fn repo() -> PathBuf {
    verif().parent().unwrap_or(std::path::Path::new("/")).join("repo")
}
pub fn repo_src() -> PathBuf {
    repo().join("src")
}
pub fn target_dir() -> PathBuf {
    verif().join("target")
}

/// Where the processes of a coverage-instrumented configuration write their profiles.
pub fn profile_dir(s: &Spec) -> PathBuf {
    target_dir().join("prof").join(s.build_id())
}

pub const TOOLCHAIN: &str = "1.99.1";

pub fn cargo(toolchain: &str) -> Command {
    let mut c = Command::new("cargo");
    c.env("RUSTUP_TOOLCHAIN", toolchain)
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TERM_COLOR", "never")
        .env("CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER", "aarch64-linux-gnu-gcc")
        .env("CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER", "i686-linux-gnu-gcc")
        .env("CARGO_TARGET_POWERPC64_UNKNOWN_LINUX_GNU_LINKER", "powerpc64-linux-gnu-gcc")
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_ENCODED_RUSTFLAGS")
        .env_remove("CARGO_BUILD_TARGET")
        .env_remove("CARGO_TARGET_DIR");
    c
}

pub enum BuildErr {
    /// rustc rejected code of the crate under test
    Source(String),
    Other(String),
}

/// Does the compiler output contain an error whose primary span lies in the crate under test?
pub fn source_error(err: &str) -> Option<String> {
    let lines: Vec<&str> = err.lines().collect();
    for (i, l) in lines.iter().enumerate() {
        if l.starts_with("error") {
            for m in lines.iter().skip(i + 1).take(4) {
                let t = m.trim_start();
                if let Some(p) = t.strip_prefix("--> ") {
                    if p.starts_with(&format!("{}/", repo_src().display())) || p.starts_with("src/") && err.contains("could not compile `highway`") {
                        return Some(lines[i..(i + 12).min(lines.len())].join("\n"));
                    }
                    break;
                }
            }
        }
    }
    None
}

/// Does a link without std and libc fail for want of an allocator?
fn needs_allocator(err: &str) -> Option<String> {
    const FNS: [&str; 18] = [
        "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memalign", "valloc", "mmap", "mmap64",
        "mremap", "brk", "sbrk", "strdup", "__rust_alloc", "__rust_realloc", "__rust_alloc_zeroed", "__rust_dealloc",
    ];
    err.lines()
        .find(|l| {
            l.contains("no global memory allocator found")
                || ["undefined reference to", "undefined symbol"].iter().any(|u| {
                    l.split(u).nth(1).is_some_and(|r| {
                        let name: String =
                            r.chars().skip_while(|c| !c.is_alphanumeric() && *c != '_').take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                        FNS.iter().any(|f| name == *f || name.contains("__rust_alloc") || name.contains("___rust_"))
                    })
                })
        })
        .map(|l| l.trim().to_string())
}

/// CPU features, as rustc and qemu name them, that sources can be compiled for and ask for.
const X86_FEATURES: [(&str, &str); 24] = [
    ("sse3", "sse3"),
    ("ssse3", "ssse3"),
    ("sse4.2", "sse4.2"),
    ("popcnt", "popcnt"),
    ("avx", "avx"),
    ("fma", "fma"),
    ("bmi1", "bmi1"),
    ("bmi2", "bmi2"),
    ("lzcnt", "abm"),
    ("movbe", "movbe"),
    ("f16c", "f16c"),
    ("aes", "aes"),
    ("pclmulqdq", "pclmulqdq"),
    ("rdrand", "rdrand"),
    ("xsave", "xsave"),
    ("cmpxchg16b", "cx16"),
    // not known to qemu's emulation
    ("avx512f", ""),
    ("avx512bw", ""),
    ("avx512vl", ""),
    ("avx512dq", ""),
    ("avx512ifma", ""),
    ("avx512vbmi", ""),
    ("vaes", ""),
    ("gfni", ""),
];
const ARM_FEATURES: [&str; 10] = ["aes", "sha2", "sha3", "crc", "dotprod", "lse", "fp16", "rcpc", "i8mm", "sve"];
const WASM_FEATURES: [&str; 6] = ["relaxed-simd", "bulk-memory", "sign-ext", "nontrapping-fptoint", "multivalue", "tail-call"];

/// CPU features that the sources under test name and the reviewed ones did not: (target, rustc's
/// name, qemu's name). Only those that can be executed here.
pub fn new_features() -> Vec<(&'static str, &'static str, &'static str)> {
    let mut v = vec![];
    let flags = std::fs::read_to_string("/proc/cpuinfo").unwrap_or_default();
    let host = |f: &str| {
        let f = match f {
            "sse3" => "pni".to_string(),
            "lzcnt" => "abm".into(),
            "cmpxchg16b" => "cx16".into(),
            f => f.replace('.', "_"),
        };
        flags.lines().find(|l| l.starts_with("flags")).is_some_and(|l| l.split(' ').any(|x| x == f))
    };
    for t in &crate::dict::dict().texts {
        let Ok(t) = std::str::from_utf8(t) else { continue };
        v.extend(X86_FEATURES.iter().filter(|f| f.0 == t && host(f.0)).map(|f| (X86, f.0, f.1)));
        v.extend(ARM_FEATURES.iter().filter(|f| **f == t).map(|f| (ARM, *f, "")));
        v.extend(WASM_FEATURES.iter().filter(|f| **f == t).map(|f| (WASM, *f, "")));
    }
    v.truncate(6);
    v
}

/// Turns on new features in some of the configurations of a check.
pub fn with_new_features(specs: &mut [Spec]) {
    let mut used = std::collections::HashSet::new();
    for (target, f, _) in new_features() {
        let fit = |s: &Spec| s.target == target && s.san == "none" && s.runner == "native" && !s.feat.starts_with("cpu=");
        let mut at: Vec<usize> = (0..specs.len()).filter(|i| fit(&specs[*i]) && !used.contains(i)).collect();
        // not the first one, and one with std before the others
        if at.len() > 1 {
            at.remove(0);
        }
        at.sort_by_key(|i| (!specs[*i].feat.is_empty() && target == X86, !specs[*i].std));
        if let Some(i) = at.first() {
            let s = &mut specs[*i];
            s.feat = if s.feat.is_empty() { format!("+{f}") } else { format!("{},+{f}", s.feat) };
            used.insert(*i);
        }
    }
}

fn build(s: &Spec) -> Result<PathBuf, BuildErr> {
    let dir = target_dir().join("w").join(s.build_id());
    let wasm = s.target == WASM;
    let mut flags = String::new();
    if let Some(cpu) = s.feat.strip_prefix("cpu=") {
        flags += &format!("-Ctarget-cpu={cpu}");
    } else if !s.feat.is_empty() {
        flags += &format!("-Ctarget-feature={}", s.feat);
    }
    let nightly = s.san == "address" || s.san == "thread" || s.target == PPC64 || s.runner == "miri";
    if s.san == "cov" {
        flags += " -Cinstrument-coverage --cfg=portable_only";
    } else if s.san != "none" {
        flags += &format!(" -Zsanitizer={}", s.san);
    }
    if s.runner == "miri" {
        // interpreted: nothing to build ahead; the process is `cargo miri run`
        return Ok(dir);
    }
    let bare = s.runner == "bare";
    let krate = if wasm {
        "wasmw"
    } else if bare {
        "bare"
    } else {
        "worker"
    };
    let mut c = cargo(if nightly { "nightly" } else { TOOLCHAIN });
    c.arg("build")
        .arg("--offline")
        .arg("--manifest-path")
        .arg(verif().join(krate).join("Cargo.toml"))
        .arg("--target")
        .arg(&s.target)
        .arg("--profile")
        .arg(&s.profile)
        .arg("--target-dir")
        .arg(&dir)
        .arg("-j4")
        .env("RUSTFLAGS", flags.trim());
    if s.target == PPC64 || s.san == "thread" {
        c.arg("-Zbuild-std=std,panic_unwind");
    }
    if !s.std && !bare {
        c.arg("--no-default-features");
    }
    if s.wrap {
        c.args(["--features", "wrap"]);
    }
    let o = c.output().map_err(|e| BuildErr::Other(format!("cannot run cargo: {e}")))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        return Err(match source_error(&e).or_else(|| if bare { needs_allocator(&e) } else { None }) {
            Some(x) => BuildErr::Source(x),
            None => BuildErr::Other(format!("building {}:\n{e}", s.line())),
        });
    }
    let pdir = if s.profile == "dev" { "debug" } else { &s.profile };
    let p = dir.join(&s.target).join(pdir).join(if wasm { "wasmw.wasm" } else { krate });
    if !p.exists() {
        return Err(BuildErr::Other(format!("no binary at {}", p.display())));
    }
    Ok(p)
}

/// Builds all specs (deduplicated by build id) in parallel.
pub fn build_all(specs: &[Spec]) -> Vec<Result<PathBuf, BuildErr>> {
    let mut uniq: BTreeMap<String, Spec> = BTreeMap::new();
    for s in specs {
        uniq.entry(s.build_id()).or_insert_with(|| s.clone());
    }
    let todo: Mutex<Vec<(String, Spec)>> = Mutex::new(uniq.into_iter().collect());
    let done: Mutex<HashMap<String, Result<PathBuf, BuildErr>>> = Mutex::new(HashMap::new());
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let Some((id, s)) = todo.lock().unwrap().pop() else { return };
                let r = build(&s);
                done.lock().unwrap().insert(id, r);
            });
        }
    });
    let done = done.into_inner().unwrap();
    specs
        .iter()
        .map(|s| match &done[&s.build_id()] {
            Ok(p) => Ok(p.clone()),
            Err(BuildErr::Source(e)) => Err(BuildErr::Source(e.clone())),
            Err(BuildErr::Other(e)) => Err(BuildErr::Other(e.clone())),
        })
        .collect()
}

/// How a worker process ended unexpectedly.
#[derive(Clone, Debug)]
pub enum Death {
    /// a fault of the code under test: signal or sanitizer report
    Fault(String),
    /// no answer within so many seconds; processor seconds used meanwhile, or None when the process
    /// has not run at all for a minute
    Hang(i32, Option<u32>),
    /// not attributable to the code under test (killed, could not start)
    Infra(String),
}

pub struct Proc {
    child: Child,
    err: PathBuf,
    pub timeout_ms: i32,
    pub served: u64,
    /// every request so far, so that a history-dependent failure can be replayed
    pub log: Vec<Vec<u8>>,
    log_bytes: usize,
    spec: Spec,
    spent: std::time::Duration,
}

/// Processor time a child of ours has used, in ticks (u64::MAX - n when unknown, never the same).
fn cpu_ticks(pid: u32) -> u64 {
    static UNKNOWN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let read = || -> Option<u64> {
        let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
        let f: Vec<&str> = t[t.rfind(')')? + 1..].split_whitespace().collect();
        Some([11, 12, 13, 14].iter().filter_map(|i| f.get(*i)?.parse::<u64>().ok()).sum())
    };
    read().unwrap_or_else(|| u64::MAX / 2 + UNKNOWN.fetch_add(1, std::sync::atomic::Ordering::SeqCst))
}

fn host_has_avx2() -> bool {
    std::arch::is_x86_feature_detected!("avx2")
}

impl Proc {
    pub fn start(s: &Spec, bin: &Path) -> Result<Proc, String> {
        let err = target_dir().join("err");
        let _ = std::fs::create_dir_all(&err);
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let err = err.join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        let mut c;
        let mut timeout_ms = 60_000;
        match (s.target.as_str(), s.runner.as_str()) {
            (_, "miri") => {
                timeout_ms = 400_000;
                c = cargo("nightly");
                let mut flags = String::new();
                if let Some(cpu) = s.feat.strip_prefix("cpu=") {
                    flags += &format!("-Ctarget-cpu={cpu}");
                } else if !s.feat.is_empty() {
                    flags += &format!("-Ctarget-feature={}", s.feat);
                }
                c.args(["miri", "run", "--offline", "-q", "--manifest-path"])
                    .arg(verif().join("worker/Cargo.toml"))
                    .arg("--target")
                    .arg(&s.target)
                    .arg("--target-dir")
                    .arg(bin)
                    .env("RUSTFLAGS", flags)
                    .env("MIRI_SYSROOT", miri_sysroot(&s.target))
                    .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-strict-provenance");
                if !s.std {
                    c.arg("--no-default-features");
                }
            }
            (ARM, _) => {
                c = Command::new("qemu-aarch64");
                c.args(["-L", "/usr/aarch64-linux-gnu"]).arg(bin);
            }
            (I686, _) => {
                c = Command::new("qemu-i386");
                c.args(["-L", "/usr/i686-linux-gnu"]).arg(bin);
            }
            (PPC64, _) => {
                c = Command::new("qemu-ppc64");
                c.args(["-L", "/usr/powerpc64-linux-gnu"]).arg(bin);
            }
            (WASM, _) => {
                c = Command::new("node");
                c.arg(verif().join("wasmw/host.js")).arg(bin);
            }
            (_, "valgrind") => {
                timeout_ms = 300_000;
                c = Command::new("valgrind");
                c.args(["-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=no"]).arg(bin);
            }
            (_, r) if r.starts_with("cpu:") => {
                c = Command::new("qemu-x86_64");
                c.args(["-cpu", &r[4..]]).arg(bin);
            }
            _ if !host_has_avx2() => {
                // the host cannot run every backend: use an emulated CPU that can
                c = Command::new("qemu-x86_64");
                c.args(["-cpu", "max"]).arg(bin);
            }
            _ => c = Command::new(bin),
        }
        c.env("ASAN_OPTIONS", "exitcode=98:detect_leaks=0:abort_on_error=0:handle_segv=0:allow_user_segv_handler=1");
        c.env("TSAN_OPTIONS", "exitcode=97:halt_on_error=1");
        c.env("RUST_BACKTRACE", "0");
        if s.san == "none" && s.runner != "valgrind" {
            // data and objects lie across multiples of 4 GiB
            c.env("VERIF_FAR", "1");
        }
        if s.san == "cov" {
            c.env("LLVM_PROFILE_FILE", profile_dir(s).join("%p-%m.profraw"));
        }
        let f = std::fs::File::create(&err).map_err(|e| e.to_string())?;
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(f);
        let child = c.spawn().map_err(|e| format!("cannot start {:?}: {e}", c.get_program()))?;
        Ok(Proc { child, err, timeout_ms, served: 0, log: vec![], log_bytes: 0, spec: s.clone(), spent: Default::default() })
    }

    fn death(&mut self, why: &str) -> Death {
        // give the process a moment to finish dying
        let mut st = None;
        for _ in 0..3000 {
            if let Ok(Some(s)) = self.child.try_wait() {
                st = Some(s);
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
        let tail = |p: &Path| {
            let t = std::fs::read(p).unwrap_or_default();
            let t = String::from_utf8_lossy(&t).to_string();
            let l: Vec<&str> = t.lines().collect();
            l[..l.len().min(40)].join("\n")
        };
        let text = tail(&self.err);
        let Some(st) = st else {
            let _ = self.child.kill();
            let _ = self.child.wait();
            return Death::Infra(format!("{why}; process did not end: {text}"));
        };
        if let Some(sig) = st.signal() {
            let name = match sig {
                libc::SIGSEGV => "SIGSEGV",
                libc::SIGBUS => "SIGBUS",
                libc::SIGILL => "SIGILL",
                libc::SIGFPE => "SIGFPE",
                libc::SIGABRT => "SIGABRT",
                libc::SIGTRAP => "SIGTRAP",
                _ => "",
            };
            if !name.is_empty() {
                return Death::Fault(format!("worker died of {name} {text}"));
            }
            return Death::Infra(format!("{why}; worker ended by signal {sig}: {text}"));
        }
        let code = st.code().unwrap_or(-1);
        let report = text.contains("Undefined Behavior") || text.contains("Data race detected");
        match (code, self.spec.san.as_str(), self.spec.runner.as_str()) {
            (98, "address", _) | (97, "thread", _) | (99, _, "valgrind") => Death::Fault(text),
            (_, _, "miri") if report => Death::Fault(text),
            _ => Death::Infra(format!("{why}; worker exited with {code}: {text}")),
        }
    }

    fn fill(&mut self, buf: &mut [u8]) -> Result<(), Death> {
        let mut k = 0;
        let since = std::time::Instant::now();
        let (mut begun, mut last, mut idle) = (None, u64::MAX, 0);
        while k < buf.len() {
            let fd = self.child.stdout.as_ref().unwrap().as_raw_fd();
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut p, 1, 5000.min(self.timeout_ms)) };
            if r == 0 {
                let t = cpu_ticks(self.child.id());
                let first = *begun.get_or_insert(t);
                idle = if t == last { idle + 1 } else { 0 };
                last = t;
                if idle >= 12 || since.elapsed().as_millis() >= self.timeout_ms as u128 {
                    let _ = self.child.kill();
                    let _ = self.child.wait();
                    let used = (t.saturating_sub(first) / 100) as u32;
                    return Err(Death::Hang(since.elapsed().as_secs() as i32, if idle >= 12 { None } else { Some(used) }));
                }
                continue;
            }
            if r < 0 {
                continue;
            }
            match self.child.stdout.as_mut().unwrap().read(&mut buf[k..]) {
                Ok(0) => return Err(self.death("worker closed its output")),
                Ok(n) => k += n,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(self.death(&e.to_string())),
            }
        }
        Ok(())
    }

    /// Sends one request, returns (status, allocations, body).
    pub fn call(&mut self, req: &[u8]) -> Result<(u8, u64, Vec<u8>), Death> {
        let mut m = Vec::with_capacity(req.len() + 4);
        m.extend_from_slice(&(req.len() as u32).to_le_bytes());
        m.extend_from_slice(req);
        if self.log_bytes < 48 << 20 {
            self.log.push(req.to_vec());
            self.log_bytes += req.len();
        }
        self.served += 1;
        let t = std::time::Instant::now();
        if let Err(e) = self.child.stdin.as_mut().unwrap().write_all(&m) {
            return Err(self.death(&e.to_string()));
        }
        let mut l = [0u8; 4];
        self.fill(&mut l)?;
        let n = u32::from_le_bytes(l) as usize;
        if !(9..=64 << 20).contains(&n) {
            let _ = self.child.kill();
            return Err(Death::Infra(format!("bad response length {n}")));
        }
        let mut b = vec![0u8; n];
        self.fill(&mut b)?;
        self.spent += t.elapsed();
        let allocs = u64::from_le_bytes(b[1..9].try_into().unwrap());
        Ok((b[0], allocs, b[9..].to_vec()))
    }

    pub fn stale(&self) -> bool {
        self.log_bytes > 32 << 20
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        if std::env::var_os("VERIF_STATS").is_some() {
            eprintln!("  {:8.2}s {:6} requests {}", self.spent.as_secs_f32(), self.served, self.spec.line());
        }
        drop(self.child.stdin.take());
        if self.spec.san == "cov" {
            // the profile is written on a regular exit
            for _ in 0..1000 {
                if let Ok(Some(_)) = self.child.try_wait() {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(5));
            }
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.err);
    }
}

pub fn miri_sysroot(target: &str) -> PathBuf {
    target_dir().join("miri-sysroot").join(target)
}

/// Prepares the Miri sysroot of a target (a no-op when it is already there).
pub fn miri_setup(target: &str) -> Result<(), String> {
    let d = miri_sysroot(target);
    let o = cargo("nightly")
        .args(["miri", "setup", "--target", target])
        .env("MIRI_SYSROOT", &d)
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).to_string());
    }
    Ok(())
}
