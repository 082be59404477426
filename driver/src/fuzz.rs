//! Coverage-guided search with the instrumented fuzzer (../fz), after the suites of a property.
use crate::exec::{cargo, source_error, target_dir, verif, ARM, TOOLCHAIN, WASM, X86};
use crate::runner::{Ctx, Failure};
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Plan {
    target: String,
    /// release | checked
    profile: String,
    prop: u32,
}

fn has(x: &str) -> bool {
    match x {
        "sse4.1" => std::arch::is_x86_feature_detected!("sse4.1"),
        _ => std::arch::is_x86_feature_detected!("avx2"),
    }
}

impl Plan {
    fn types(&self) -> String {
        let mut v = vec!["0", "3"];
        match self.target.as_str() {
            ARM => v.push("6"),
            WASM => v.push("7"),
            _ => {
                if has("sse4.1") {
                    v.push("4");
                }
                if has("avx2") {
                    v.push("5");
                }
            }
        }
        v.join(",")
    }

    fn dir(&self) -> PathBuf {
        target_dir().join("fz").join(format!("{}-{}", self.target, self.profile))
    }

    fn build(&self) -> Result<PathBuf, String> {
        let wasm = self.target == WASM;
        let mut c = cargo(TOOLCHAIN);
        c.args(["build", "--offline", "-j4", "--profile", &self.profile, "--target", &self.target])
            .arg("--manifest-path")
            .arg(verif().join("fz/Cargo.toml"))
            .arg("--target-dir")
            .arg(self.dir())
            .arg(if wasm { "--lib" } else { "--bins" })
            .env("RUSTFLAGS", if wasm { "-Ctarget-feature=+simd128" } else { "" })
            .env("RUSTC_WRAPPER", verif().join("fz/rustc.sh"));
        let o = c.output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            return Err(source_error(&e).unwrap_or(e));
        }
        let p = self.dir().join(&self.target).join(&self.profile).join(if wasm { "fz.wasm" } else { "fz" });
        if p.exists() {
            Ok(p)
        } else {
            Err(format!("no binary at {}", p.display()))
        }
    }

    fn command(&self, bin: &Path, args: &[String]) -> Command {
        let mut c = match self.target.as_str() {
            ARM => {
                let mut c = Command::new("qemu-aarch64");
                c.args(["-L", "/usr/aarch64-linux-gnu"]).arg(bin);
                c
            }
            WASM => {
                let mut c = Command::new("node");
                c.arg(verif().join("fz/host.js")).arg(bin);
                c
            }
            _ => Command::new(bin),
        };
        c.arg(self.prop.to_string()).arg(self.types()).args(args);
        c.env("RUST_BACKTRACE", "0");
        c
    }
}

enum End {
    Held,
    /// what, input (hex), meaning, number of executions
    Fails(String, String, String, u64),
    Lost(String),
}

struct Job {
    plan: Plan,
    child: std::process::Child,
    out: PathBuf,
    cur: PathBuf,
    limit: Instant,
    seed: u64,
}

fn signal(n: i32) -> Option<&'static str> {
    Some(match n {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGBUS => "SIGBUS",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        libc::SIGABRT => "SIGABRT",
        libc::SIGTRAP => "SIGTRAP",
        _ => return None,
    })
}

fn scratch(tag: &str) -> PathBuf {
    let d = target_dir().join("fz/run");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}-{tag}", std::process::id()))
}

fn start(plan: &Plan, bin: &Path, tag: &str, seed: u64, args: &[String], secs: u64) -> Result<Job, String> {
    let (out, cur) = (scratch(&format!("{tag}.out")), scratch(&format!("{tag}.cur")));
    let f = std::fs::File::create(&out).map_err(|e| e.to_string())?;
    let mut all = args.to_vec();
    if args[0] != "one" {
        all.push(cur.display().to_string());
    }
    let child = plan
        .command(bin, &all)
        .stdin(Stdio::null())
        .stdout(f)
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    Ok(Job { plan: plan.clone(), child, out, cur, limit: Instant::now() + Duration::from_secs(secs + 90), seed })
}

impl Job {
    fn wait(&mut self) -> (End, String) {
        let st = loop {
            match self.child.try_wait() {
                Ok(Some(s)) => break Some(s),
                Err(_) => break None,
                Ok(None) if Instant::now() > self.limit => {
                    let _ = self.child.kill();
                    let _ = self.child.wait();
                    break None;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        let text = String::from_utf8_lossy(&std::fs::read(&self.out).unwrap_or_default()).to_string();
        let field = |k: &str| text.lines().rev().find_map(|l| l.strip_prefix(k)?.strip_prefix(' ')).unwrap_or("").to_string();
        let current = || {
            let b = std::fs::read(&self.cur).unwrap_or_default();
            let n = b.get(..8).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap())) as usize;
            b.get(8..8 + n).unwrap_or(&[]).iter().map(|x| format!("{x:02x}")).collect::<String>()
        };
        let end = match st {
            Some(s) if s.code() == Some(0) => End::Held,
            Some(s) if s.code() == Some(1) && text.contains("fail ") => {
                End::Fails(field("fail"), field("input"), field("means"), field("after").parse().unwrap_or(0))
            }
            Some(s) => match s.signal().and_then(signal) {
                Some(n) => End::Fails(format!("the process died of {n}"), current(), String::new(), 0),
                None => End::Lost(format!("{s}")),
            },
            None => End::Fails("an execution did not return".into(), current(), String::new(), 0),
        };
        let _ = std::fs::remove_file(&self.out);
        let _ = std::fs::remove_file(&self.cur);
        (end, text)
    }
}

/// Which builds look at a property, and how many processes each gets.
fn plans(id: &str) -> Vec<(Plan, usize)> {
    let prop: u32 = id[1..].parse().unwrap_or(0);
    let p = |t: &str, f: &str| Plan { target: t.into(), profile: f.into(), prop };
    match prop {
        1 | 2 | 7 | 10 | 12 | 13 | 15 => vec![(p(X86, "release"), 7), (p(X86, "checked"), 1)],
        3 => vec![(p(ARM, "release"), 8)],
        4 => vec![(p(WASM, "release"), 8)],
        5 | 6 | 11 | 14 => vec![(p(X86, "release"), 5), (p(ARM, "release"), 2), (p(WASM, "release"), 1)],
        8 => vec![(p(X86, "checked"), 5), (p(ARM, "checked"), 2), (p(WASM, "checked"), 1)],
        9 => vec![(p(X86, "release"), 6), (p(ARM, "release"), 2)],
        18 => vec![(p(X86, "release"), 7), (p(ARM, "release"), 1)],
        _ => vec![],
    }
}

/// Does it fail again, in a new process?
fn again(plan: &Plan, bin: &Path, args: &[String], secs: u64) -> Option<String> {
    let mut j = start(plan, bin, "again", 0, args, secs).ok()?;
    match j.wait().0 {
        End::Fails(w, ..) => Some(w),
        _ => None,
    }
}

fn search(seed: u64, execs: u64, secs: u64) -> Vec<String> {
    vec![seed.to_string(), execs.to_string(), secs.to_string()]
}

pub fn run(cx: &Ctx) {
    let plans = plans(&cx.id);
    if plans.is_empty() {
        return;
    }
    let t = Instant::now();
    let bins: Vec<Result<PathBuf, String>> = std::thread::scope(|s| {
        let h: Vec<_> = plans.iter().map(|(p, _)| s.spawn(|| p.build())).collect();
        h.into_iter().map(|x| x.join().unwrap()).collect()
    });
    let secs = if cx.thorough { 150 } else { 12 };
    let mut jobs = vec![];
    for ((p, n), b) in plans.iter().zip(&bins) {
        match b {
            Ok(b) => {
                for _ in 0..*n {
                    let k = jobs.len() as u64;
                    let seed = cx.seed.wrapping_mul(0x9e37_79b9).wrapping_add(k);
                    match start(p, b, &format!("{}-{k}", cx.id), seed, &search(seed, 1 << 40, secs), secs) {
                        Ok(j) => jobs.push((j, b)),
                        Err(e) => cx.extra("fuzz not started", e),
                    }
                }
            }
            // the suites decide without it
            Err(e) => cx.extra(&format!("fuzz build {}", p.target), e),
        }
    }
    let mut sum: BTreeMap<String, (u64, u64, u64, u64, u64)> = BTreeMap::new();
    let mut samples = vec![];
    let mut bad: Option<(Plan, PathBuf, u64, String, String, String, u64)> = None;
    for (j, b) in &mut jobs {
        let (end, text) = j.wait();
        let num = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)?.strip_prefix(' ')?.parse::<u64>().ok()).unwrap_or(0);
        let e = sum.entry(format!("{}/{}", j.plan.target, j.plan.profile)).or_default();
        e.0 += num("execs");
        e.1 += num("compared");
        e.2 += num("distinct");
        e.3 = e.3.max(num("edges"));
        e.4 += num("corpus");
        samples.extend(text.lines().filter_map(|l| l.strip_prefix("sample ")).take(1).map(|l| l.chars().take(600).collect::<String>()));
        match end {
            End::Held => {}
            End::Lost(e) => cx.extra("fuzz process lost", e),
            End::Fails(w, input, means, after) if bad.is_none() => {
                bad = Some((j.plan.clone(), b.to_path_buf(), j.seed, w, input, means, after))
            }
            End::Fails(..) => {}
        }
    }
    for (k, (execs, compared, distinct, edges, corpus)) in &sum {
        let name = format!("coverage-guided {k}");
        cx.fuzzed(&name, *execs, *compared, std::mem::take(&mut samples));
        cx.extra(
            &name,
            format!("{execs} executions, {distinct} distinct compared inputs (summed over the processes), {edges} edges reached, {corpus} corpus entries"),
        );
    }
    if let Some((p, bin, seed, what, input, means, after)) = bad {
        let one = vec!["one".to_string(), input.clone()];
        let found = match again(&p, &bin, &one, 5) {
            Some(w) => Some((w, format!("one={input}"))),
            None if after > 0 => again(&p, &bin, &search(seed, after, 600), 120).map(|w| (w, format!("search={seed},{after}"))),
            None => None,
        };
        match found {
            Some((w, how)) => {
                let what = format!("{} ({}), types {}: {w}\n{means}", p.target, p.profile, p.types());
                cx.violation(&Failure {
                    replay: format!(
                        "highway-replay 1\nproperty {}\n# {}\nfuzz target={} profile={} {how}\n",
                        cx.id,
                        what.replace('\n', "\n# "),
                        p.target,
                        p.profile
                    ),
                    what,
                });
            }
            None => cx.extra("fuzz failure that did not come back", what),
        }
    }
    eprintln!("[{}] coverage-guided fuzzing: {:?} in {:.1}s", cx.id, sum.values().map(|x| x.0).collect::<Vec<_>>(), t.elapsed().as_secs_f32());
}

/// Decides a replay file of this kind; None when it is of another kind.
pub fn replay(text: &str) -> Option<Result<(), String>> {
    let l = text.lines().find_map(|l| l.strip_prefix("fuzz "))?;
    let m: BTreeMap<&str, &str> = l.split_whitespace().filter_map(|x| x.split_once('=')).collect();
    let id = text.lines().find_map(|l| l.strip_prefix("property "))?;
    let plan = Plan { target: m.get("target")?.to_string(), profile: m.get("profile")?.to_string(), prop: id[1..].parse().ok()? };
    let bin = match plan.build() {
        Ok(b) => b,
        Err(e) => crate::runner::die(&e),
    };
    let args = match (m.get("one"), m.get("search").and_then(|x| x.split_once(','))) {
        (Some(h), _) => vec!["one".to_string(), h.to_string()],
        (_, Some((s, n))) => search(s.parse().ok()?, n.parse().ok()?, 600),
        _ => return None,
    };
    Some(match again(&plan, &bin, &args, 600) {
        Some(w) => Err(w),
        None => Ok(()),
    })
}
