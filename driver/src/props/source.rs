//! C16: no unsafe code in what the portable hasher is made of.
//!
//! Part 1 generates cfg assignments. Every cfg predicate of a scratch copy of /repo/src has its
//! atoms renamed to free switches, so that any assignment a real target and feature set can produce
//! can be compiled with the host's core. The oracle is rustc's `unsafe_code` lint (forced, so that
//! attributes cannot silence it). A canary `unsafe` block at the end of every portable file shows
//! that the file was compiled and linted in that configuration.
//!
//! Part 2 runs generated portable-only histories in coverage-instrumented workers and intersects
//! the executed regions with every unsafe span of the crate.
use super::state::raw_checkpoint;
use crate::exec::{repo, repo_src, spec, target_dir, verif, Spec, ARM, I686, TOOLCHAIN, X86};
use crate::gen::*;
use crate::prog::{ops::*, Op};
use crate::runner::{die, Ctx, Failure, SHARDS};
use crate::scen::Scenario;
use proptest::prelude::*;
use proptest::test_runner::{RngAlgorithm, TestRng};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;


/// Files that make up the portable path by their documented role.
fn portable_file(rel: &str) -> bool {
    const STEMS: [&str; 6] = ["portable", "internal", "key", "traits", "macros", "hash"];
    let first = rel.split('/').next().unwrap_or("");
    STEMS.iter().any(|s| first == *s || first.strip_suffix(".rs") == Some(s))
}

// ------------------------------------------------------------------ cfg predicates

/// A cfg atom: `name` or `name = "value"`.
type Atom = (String, Option<String>);

fn show(a: &Atom) -> String {
    match &a.1 {
        Some(v) => format!("{}=\"{v}\"", a.0),
        None => a.0.clone(),
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    Str(String),
    P(u8),
}

/// Tokens with their byte ranges; comments and whitespace are dropped.
fn lex(s: &str) -> Vec<(Tok, usize, usize)> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && b.get(i + 1) == Some(&b'*') {
            let mut d = 1;
            i += 2;
            while i < b.len() && d > 0 {
                if b[i] == b'/' && b.get(i + 1) == Some(&b'*') {
                    d += 1;
                    i += 1;
                } else if b[i] == b'*' && b.get(i + 1) == Some(&b'/') {
                    d -= 1;
                    i += 1;
                }
                i += 1;
            }
        } else if (c == b'r' || c == b'b' && b.get(i + 1) == Some(&b'r'))
            && {
                let j = i + 1 + (c == b'b') as usize;
                let mut k = j;
                while b.get(k) == Some(&b'#') {
                    k += 1;
                }
                b.get(k) == Some(&b'"')
            }
        {
            let mut k = i + 1 + (c == b'b') as usize;
            let mut n = 0;
            while b[k] == b'#' {
                n += 1;
                k += 1;
            }
            k += 1;
            let from = k;
            let end = format!("\"{}", "#".repeat(n));
            let to = s[k..].find(&end).map_or(b.len(), |x| k + x);
            v.push((Tok::Str(s[from..to].to_string()), i, (to + end.len()).min(b.len())));
            i = (to + end.len()).min(b.len());
        } else if c == b'"' {
            let from = i;
            i += 1;
            let st = i;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
            v.push((Tok::Str(s.get(st..i).unwrap_or("").to_string()), from, (i + 1).min(b.len())));
            i += 1;
        } else if c == b'\'' {
            // a char literal or a lifetime
            let ch = s[i + 1..].chars().next();
            match ch {
                Some('\\') => {
                    i += 3;
                    while i < b.len() && b[i] != b'\'' {
                        i += 1;
                    }
                    i += 1;
                }
                Some(ch) if b.get(i + 1 + ch.len_utf8()) == Some(&b'\'') => i += 2 + ch.len_utf8(),
                _ => i += 1,
            }
        } else if c == b'_' || c.is_ascii_alphabetic() {
            let from = i;
            while i < b.len() && (b[i] == b'_' || b[i].is_ascii_alphanumeric()) {
                i += 1;
            }
            v.push((Tok::Id(s[from..i].to_string()), from, i));
        } else {
            if !c.is_ascii_whitespace() {
                v.push((Tok::P(c), i, i + 1));
            }
            i += 1;
        }
    }
    v
}

/// Finds the atoms of all cfg predicates in a file: `(atom, from, to)`.
fn atoms(s: &str) -> Vec<(Atom, usize, usize)> {
    let t = lex(s);
    let mut v = vec![];
    // reads a predicate starting at token i, returns the index after it
    fn pred(t: &[(Tok, usize, usize)], i: usize, v: &mut Vec<(Atom, usize, usize)>) -> usize {
        let Some((Tok::Id(n), from, to)) = t.get(i) else { return i + 1 };
        if ["all", "any", "not"].contains(&n.as_str()) && matches!(t.get(i + 1), Some((Tok::P(b'('), ..))) {
            let mut i = i + 2;
            while i < t.len() && t[i].0 != Tok::P(b')') {
                if t[i].0 == Tok::P(b',') {
                    i += 1;
                } else {
                    i = pred(t, i, v);
                }
            }
            return i + 1;
        }
        if let (Some((Tok::P(b'='), ..)), Some((Tok::Str(x), _, to))) = (t.get(i + 1), t.get(i + 2)) {
            v.push(((n.clone(), Some(x.clone())), *from, *to));
            return i + 3;
        }
        if matches!(t.get(i + 1), Some((Tok::P(b'('), ..))) {
            // version(..), accessible(..), target(..): left alone
            let mut d = 0;
            let mut i = i + 1;
            while i < t.len() {
                match t[i].0 {
                    Tok::P(b'(') => d += 1,
                    Tok::P(b')') => d -= 1,
                    _ => {}
                }
                i += 1;
                if d == 0 {
                    break;
                }
            }
            return i;
        }
        if n != "true" && n != "false" {
            v.push(((n.clone(), None), *from, *to));
        }
        i + 1
    }
    let mut i = 0;
    while i < t.len() {
        let Tok::Id(n) = &t[i].0 else {
            i += 1;
            continue;
        };
        let bang = matches!(t.get(i + 1), Some((Tok::P(b'!'), ..)));
        let open = i + 1 + bang as usize;
        match n.as_str() {
            "cfg" | "cfg_attr" if matches!(t.get(open), Some((Tok::P(b'('), ..))) => i = pred(&t, open + 1, &mut v),
            "cfg_select" if bang && matches!(t.get(open), Some((Tok::P(b'{'), ..))) => {
                // pred => { .. } pred => { .. } _ => { .. }
                let mut j = open + 1;
                while j < t.len() && t[j].0 != Tok::P(b'}') {
                    if t[j].0 == Tok::Id("_".into()) || t[j].0 == Tok::P(b',') {
                        j += 1;
                        if t.get(j).map(|x| &x.0) != Some(&Tok::P(b'=')) {
                            continue;
                        }
                    } else {
                        j = pred(&t, j, &mut v);
                    }
                    // => and the arm
                    let mut d = 0;
                    j += 2;
                    while j < t.len() {
                        match t[j].0 {
                            Tok::P(b'{') => d += 1,
                            Tok::P(b'}') => d -= 1,
                            _ => {}
                        }
                        j += 1;
                        if d == 0 {
                            break;
                        }
                    }
                }
                // the arms are scanned again for what is inside them
                i = open + 1;
            }
            _ => i += 1,
        }
    }
    v
}

fn rs_files(dir: &Path) -> Vec<PathBuf> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                v.extend(rs_files(&p));
            } else {
                v.push(p);
            }
        }
    }
    v.sort();
    v
}

fn rustc() -> Command {
    let mut c = Command::new("rustc");
    c.env("RUSTUP_TOOLCHAIN", TOOLCHAIN).env_remove("RUSTFLAGS").env("RUSTC_BOOTSTRAP", "0");
    c
}

fn print_cfg(target: &str, extra: &[String]) -> Option<HashSet<Atom>> {
    let o = rustc().args(["--print", "cfg", "--target", target]).args(extra).output().ok()?;
    if !o.status.success() {
        return None;
    }
    Some(
        String::from_utf8_lossy(&o.stdout)
            .lines()
            .map(|l| match l.split_once('=') {
                Some((a, b)) => (a.to_string(), Some(b.trim_matches('"').to_string())),
                None => (l.to_string(), None),
            })
            .collect(),
    )
}

// ------------------------------------------------------------------ unsafe spans

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Span {
    file: String,
    l0: u64,
    c0: u64,
    l1: u64,
    c1: u64,
    what: String,
    /// where the code stands: the outermost macro call it comes from, or itself
    site: String,
    site_line: u64,
}

fn rel(f: &str, root: &Path) -> Option<String> {
    let p = Path::new(f);
    p.strip_prefix(root).ok().map(|x| x.to_string_lossy().to_string())
}

/// Lints one configuration of the source tree at `root`.
fn lint(root: &Path, out: &Path, edition: &str, args: &[String]) -> Result<Vec<Span>, String> {
    Ok(diagnose(root, out, edition, args)?.0)
}

/// The unsafe code and the name-resolution errors of one configuration.
fn diagnose(root: &Path, out: &Path, edition: &str, args: &[String]) -> Result<(Vec<Span>, Vec<Span>), String> {
    let o = rustc()
        .args(["--crate-name", "highway", "--crate-type", "lib", "--emit", "metadata", "--error-format", "json"])
        .args(["--edition", edition, "--force-warn", "unsafe_code", "-Awarnings"])
        .arg("-o")
        .arg(out)
        .args(args)
        .arg(root.join("lib.rs"))
        .output()
        .map_err(|e| e.to_string())?;
    let mut v = vec![];
    let mut unresolved = vec![];
    for l in String::from_utf8_lossy(&o.stderr).lines() {
        let Ok(d) = serde_json::from_str::<Value>(l) else { continue };
        let list = match d["code"]["code"].as_str() {
            Some("unsafe_code") => &mut v,
            Some("E0425" | "E0432" | "E0433" | "E0423" | "E0531" | "E0576") => &mut unresolved,
            _ => continue,
        };
        for s in d["spans"].as_array().into_iter().flatten() {
            if s["is_primary"].as_bool() != Some(true) {
                continue;
            }
            let mut top = s;
            while top["expansion"]["span"].is_object() {
                top = &top["expansion"]["span"];
            }
            let n = |k: &str| s[k].as_u64().unwrap_or(0);
            let (Some(file), Some(site)) =
                (rel(s["file_name"].as_str().unwrap_or(""), root), rel(top["file_name"].as_str().unwrap_or(""), root))
            else {
                continue;
            };
            list.push(Span {
                file,
                l0: n("line_start"),
                c0: n("column_start"),
                l1: n("line_end"),
                c1: n("column_end"),
                what: d["message"].as_str().unwrap_or("").to_string(),
                site,
                site_line: top["line_start"].as_u64().unwrap_or(0),
            });
        }
    }
    Ok((v, unresolved))
}

/// Does the portable path refer to functions of the other files that (transitively, within their
/// file) contain unsafe code? Decided by emptying the file and looking at what no longer resolves.
fn reaches(root: &Path, k: usize, edition: &str, args: &[String]) -> Result<(usize, Option<String>), String> {
    let out = root.with_file_name(format!("out{k}"));
    let (unsafe_, before) = diagnose(root, &out, edition, args)?;
    let before: HashSet<Span> = before.into_iter().collect();
    let others: BTreeSet<String> = unsafe_.iter().filter(|s| s.site != "lib.rs" && !portable_file(&s.site)).map(|s| s.site.clone()).collect();
    let mut n = 0;
    for f in others {
        let path = root.join(&f);
        let text = std::fs::read_to_string(&path).unwrap_or_default();
        // what the file declares stays declared, so that its submodules stay reachable
        let mods: String = text.lines().filter(|l| l.trim_start().trim_start_matches("pub ").starts_with("mod ") && l.contains(';')).map(|l| format!("{l}\n")).collect();
        std::fs::write(&path, mods).map_err(|e| e.to_string())?;
        let r = diagnose(root, &out, edition, args);
        std::fs::write(&path, &text).map_err(|e| e.to_string())?;
        n += 1;
        let mut names: Vec<(String, String)> = vec![];
        for s in r?.1 {
            let role = portable_file(&s.site) && !s.site.starts_with("hash");
            if !role || before.contains(&s) {
                continue;
            }
            let line = std::fs::read_to_string(root.join(&s.file)).unwrap_or_default().lines().nth(s.l0 as usize - 1).unwrap_or("").to_string();
            for (t, ..) in lex(&format!("{} {line}", s.what.replace('`', " "))) {
                if let Tok::Id(x) = t {
                    names.push((x, format!("src/{}:{}", s.file, s.l0)));
                }
            }
        }
        let fns = fn_ranges(&text);
        let mut seen: HashSet<usize> = HashSet::new();
        let mut i = 0;
        while i < names.len() {
            let (x, from) = names[i].clone();
            i += 1;
            for (j, (name, a, b)) in fns.iter().enumerate() {
                if *name != x || !seen.insert(j) {
                    continue;
                }
                if let Some(u) = unsafe_.iter().find(|u| u.site == f && (*a..=*b).contains(&u.site_line)) {
                    return Ok((n, Some(format!("{from} refers to `{name}` in src/{f}, which has unsafe code at line {} ({})", u.site_line, u.what))));
                }
                let body: String = text.lines().skip(*a as usize - 1).take((b - a + 1) as usize).collect::<Vec<_>>().join("\n");
                for (t, ..) in lex(&body) {
                    if let Tok::Id(y) = t {
                        names.push((y, format!("{from} by way of `{name}`")));
                    }
                }
            }
        }
    }
    Ok((n, None))
}

const CANARY: &str = "verif_c16_canary";

struct Tree {
    root: PathBuf,
    /// renamed atoms
    names: BTreeMap<Atom, String>,
    /// portable files (relative) and the line of their canary
    canary: BTreeMap<String, u64>,
    edition: String,
}

/// Copies the source, renaming every cfg atom.
fn scratch() -> Tree {
    let root = target_dir().join("c16").join("src");
    let _ = std::fs::remove_dir_all(&root);
    let mut t = Tree { root: root.clone(), names: BTreeMap::new(), canary: BTreeMap::new(), edition: "2021".into() };
    if let Ok(c) = std::fs::read_to_string(repo().join("Cargo.toml")) {
        if let Some(l) = c.lines().find(|l| l.trim_start().starts_with("edition")) {
            t.edition = l.split('"').nth(1).unwrap_or("2021").to_string();
        }
    }
    let mut bad = vec![];
    for p in rs_files(&repo_src()) {
        let r = p.strip_prefix(repo_src()).unwrap().to_path_buf();
        let to = root.join(&r);
        let _ = std::fs::create_dir_all(to.parent().unwrap());
        let Ok(mut s) = std::fs::read_to_string(&p) else {
            let _ = std::fs::copy(&p, &to);
            continue;
        };
        if p.extension().is_some_and(|e| e == "rs") {
            let mut a = atoms(&s);
            a.sort_by_key(|x| x.1);
            for (at, f, e) in a.into_iter().rev() {
                let n = t.names.len();
                let name = t.names.entry(at).or_insert_with(|| format!("verif_atom_{n}")).clone();
                // same number of lines
                let nl = s[f..e].matches('\n').count();
                s.replace_range(f..e, &format!("{name}{}", "\n".repeat(nl)));
            }
            let rs = r.to_string_lossy().to_string();
            if portable_file(&rs) && !rs.starts_with("macros") {
                if !s.ends_with('\n') {
                    s.push('\n');
                }
                t.canary.insert(rs, s.lines().count() as u64 + 1);
                s += &format!("fn {CANARY}() {{ unsafe {{ }} }}\n");
            }
        }
        if std::fs::write(&to, s).is_err() {
            bad.push(to);
        }
    }
    if !bad.is_empty() {
        die(&format!("cannot write {bad:?}"));
    }
    t
}

/// An assignment: the true atoms among those the source mentions, and where it comes from.
#[derive(Clone)]
struct Config {
    on: BTreeSet<Atom>,
    from: String,
}

fn parallel<T: Send, R: Send>(v: Vec<T>, f: impl Fn(T, usize) -> R + Sync) -> Vec<R> {
    let n = v.len();
    let q: Vec<Mutex<Option<T>>> = v.into_iter().map(|x| Mutex::new(Some(x))).collect();
    let out: Vec<Mutex<Option<R>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for k in 0..SHARDS {
            let (q, out, next, f) = (&q, &out, &next, &f);
            s.spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    return;
                }
                let x = q[i].lock().unwrap().take().unwrap();
                *out[i].lock().unwrap() = Some(f(x, k));
            });
        }
    });
    out.into_iter().map(|x| x.into_inner().unwrap().unwrap()).collect()
}

/// Every assignment of the harvested atoms that some target, set of target features, cargo features
/// and compiler options produces; or a random sample of them if there are very many.
fn assignments(cx: &Ctx, t: &Tree, cap: usize) -> (Vec<Config>, usize) {
    let list = rustc().args(["--print", "target-list"]).output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
    let mut targets: Vec<String> = list.lines().map(|x| x.to_string()).collect();
    if targets.is_empty() {
        die("rustc lists no targets");
    }
    // simplest first: the failing configuration reported is the first one
    targets.sort_by_key(|x| (x != X86, x.clone()));
    let interesting: BTreeSet<Atom> = t.names.keys().cloned().collect();
    let tf: Vec<String> = interesting.iter().filter(|a| a.0 == "target_feature").filter_map(|a| a.1.clone()).collect();
    let mut rng = TestRng::from_seed(RngAlgorithm::ChaCha, &{
        let mut s = [16u8; 32];
        s[..8].copy_from_slice(&cx.seed.to_le_bytes());
        s
    });
    // switches no target decides
    const SWITCH: [&str; 3] = ["debug_assertions", "overflow_checks", "ub_checks"];
    let base: Vec<(String, Option<HashSet<Atom>>)> =
        parallel(targets, |x, _| { let c = print_cfg(&x, &[]); (x, c) });
    let ntargets = base.iter().filter(|x| x.1.is_some()).count();
    let fixed = |c: &HashSet<Atom>| -> BTreeSet<Atom> {
        interesting.iter().filter(|a| c.contains(a) && !SWITCH.contains(&a.0.as_str()) && a.0 != "panic").cloned().collect()
    };
    let mut groups: BTreeMap<(BTreeSet<Atom>, String), String> = BTreeMap::new();
    let mut order = vec![];
    for (x, c) in &base {
        let Some(c) = c else { continue };
        // which features can be toggled depends on the architecture
        let arch = c.iter().find(|a| a.0 == "target_arch").and_then(|a| a.1.clone()).unwrap_or_default();
        let k = (fixed(c), arch);
        if !groups.contains_key(&k) {
            groups.insert(k.clone(), x.clone());
            order.push(k);
        }
    }
    // target features
    let mut jobs = vec![];
    for k in &order {
        let x = &groups[k];
        let n = tf.len();
        let subsets: Vec<u64> = if n <= 5 {
            (0..1u64 << n).collect()
        } else {
            let mut v: Vec<u64> = vec![0, !0];
            v.extend((0..n).map(|i| 1 << i));
            v.extend((0..24).map(|_| rng.next_u64()));
            v
        };
        for s in subsets {
            let mut f: Vec<String> = vec![];
            for (i, name) in tf.iter().enumerate() {
                if s >> i & 1 == 1 {
                    f.push(format!("+{name}"));
                } else if s != 0 && i % 2 == (s % 2) as usize {
                    f.push(format!("-{name}"));
                }
            }
            jobs.push((x.clone(), f.join(",")));
        }
    }
    if jobs.len() > 6000 {
        let keep: Vec<_> = (0..6000).map(|_| jobs[rng.next_u64() as usize % jobs.len()].clone()).collect();
        jobs = keep;
    }
    let res = parallel(jobs, |(x, f), _| {
        let extra = if f.is_empty() { vec![] } else { vec![format!("-Ctarget-feature={f}")] };
        print_cfg(&x, &extra).map(|c| (x, f, c))
    });
    let mut seen: HashSet<BTreeSet<Atom>> = HashSet::new();
    let mut proj: Vec<Config> = vec![];
    for (x, f, c) in res.into_iter().flatten() {
        let on = fixed(&c);
        if seen.insert(on.clone()) {
            proj.push(Config { on, from: if f.is_empty() { x } else { format!("{x} -Ctarget-feature={f}") } });
        }
    }
    // what cargo, rustc options and users decide
    let known: HashSet<String> = base.iter().filter_map(|x| x.1.as_ref()).flatten().map(|a| a.0.clone()).collect();
    let free: Vec<Atom> = interesting
        .iter()
        .filter(|a| {
            a.0 != "test"
                && a.0 != "panic"
                && (SWITCH.contains(&a.0.as_str())
                    || a.0 == "feature"
                    || !known.contains(&a.0) && !a.0.starts_with("target_"))
        })
        .cloned()
        .collect();
    let panics: Vec<Option<Atom>> = if interesting.iter().any(|a| a.0 == "panic") {
        ["unwind", "abort", "immediate-abort"].iter().map(|p| Some(("panic".to_string(), Some(p.to_string())))).collect()
    } else {
        vec![None]
    };
    let nfree = free.len();
    let total = proj.len().saturating_mul(panics.len()).saturating_mul(1usize.checked_shl(nfree as u32).unwrap_or(usize::MAX));
    let mut v = vec![];
    let mut add = |p: &Config, pa: &Option<Atom>, mask: u64| {
        let mut c = p.clone();
        c.on.extend(pa.iter().filter(|a| interesting.contains(a)).cloned());
        for (i, a) in free.iter().enumerate() {
            if mask >> (i % 64) & 1 == 1 {
                c.on.insert(a.clone());
            }
        }
        v.push(c);
    };
    if total <= cap {
        for mask in 0..1u64 << nfree {
            for pa in &panics {
                for p in &proj {
                    add(p, pa, mask);
                }
            }
        }
    } else {
        for p in &proj {
            add(p, &panics[0], 0);
            add(p, &panics[0], !0);
        }
        for _ in 0..cap {
            let p = &proj[rng.next_u64() as usize % proj.len()];
            let pa = &panics[rng.next_u64() as usize % panics.len()];
            // sparse, dense or even
            let m = match rng.next_u64() % 3 {
                0 => rng.next_u64() & rng.next_u64(),
                1 => rng.next_u64() | rng.next_u64(),
                _ => rng.next_u64(),
            };
            add(p, pa, m);
        }
        let mut s = HashSet::new();
        v.retain(|c| s.insert(c.on.clone()));
    }
    cx.extra("cfg atoms", interesting.iter().map(show).collect::<Vec<_>>().join(", "));
    cx.extra("targets considered", ntargets);
    cx.extra("distinct target assignments", proj.len());
    cx.extra("configurations enumerated", if total <= cap { format!("all {total}") } else { format!("{} sampled of {total}", v.len()) });
    (v, total)
}

fn args_of(t: &Tree, on: &BTreeSet<Atom>) -> Vec<String> {
    on.iter().flat_map(|a| ["--cfg".to_string(), t.names[a].clone()]).collect()
}

/// Functions of a file with their first and last line.
fn fn_ranges(text: &str) -> Vec<(String, u64, u64)> {
    let t = lex(text);
    let mut starts = vec![0usize];
    starts.extend(text.match_indices('\n').map(|x| x.0 + 1));
    let line = |p: usize| starts.partition_point(|s| *s <= p) as u64;
    let mut v = vec![];
    for i in 0..t.len() {
        let (Tok::Id(k), Some((Tok::Id(name), ..))) = (&t[i].0, t.get(i + 1)) else { continue };
        if k != "fn" {
            continue;
        }
        let (mut d, mut j) = (0i32, i + 2);
        while j < t.len() {
            match t[j].0 {
                Tok::P(b'(') | Tok::P(b'[') => d += 1,
                Tok::P(b')') | Tok::P(b']') => d -= 1,
                Tok::P(b'{') | Tok::P(b';') if d == 0 => break,
                _ => {}
            }
            j += 1;
        }
        let mut d = 0i32;
        while j < t.len() {
            match t[j].0 {
                Tok::P(b'{') => d += 1,
                Tok::P(b'}') => d -= 1,
                _ => {}
            }
            if d == 0 {
                break;
            }
            j += 1;
        }
        let end = t.get(j).map_or(text.len().saturating_sub(1), |x| x.1);
        v.push((name.clone(), line(t[i].1), line(end)));
    }
    v
}

/// The innermost function a line lies in, or that starts at it.
fn fn_name(root: &Path, file: &str, l: u64) -> Option<String> {
    let s = std::fs::read_to_string(root.join(file)).ok()?;
    fn_ranges(&s).into_iter().filter(|(_, a, b)| (*a..=*b).contains(&l)).min_by_key(|(_, a, b)| b - a).map(|x| x.0)
}

fn configurations(cx: &Ctx, executed: &HashMap<String, HashSet<String>>) {
    let t0 = std::time::Instant::now();
    let t = scratch();
    if t.canary.is_empty() {
        die("no portable source file found");
    }
    let cap = if cx.thorough { 20_000 } else { 2_500 };
    let (cfgs, _) = assignments(cx, &t, cap);
    let judge = |on: &BTreeSet<Atom>, k: usize| -> Result<(usize, usize, Option<Span>), String> {
        let v = lint(&t.root, &target_dir().join("c16").join(format!("out{k}")), &t.edition, &args_of(&t, on))?;
        let mut canaries = 0;
        let mut bad = None;
        for s in v.iter() {
            if t.canary.get(&s.site) == Some(&s.site_line) {
                canaries += 1;
                continue;
            }
            // a variant of a function that the portable hasher executed in another configuration
            let alternative = executed
                .get(&s.site)
                .is_some_and(|f| fn_name(&t.root, &s.site, s.site_line).is_some_and(|n| f.contains(&n)));
            if bad.is_none() && (portable_file(&s.site) && !s.site.starts_with("macros") || alternative) {
                bad = Some(s.clone());
            }
        }
        Ok((canaries, v.len(), bad))
    };
    let res = parallel(cfgs.clone(), |c, k| judge(&c.on, k));
    let mut n = 0;
    let mut partial = 0;
    let mut names = vec![];
    for (c, r) in cfgs.iter().zip(&res) {
        match r {
            Ok((_, _, Some(s))) => {
                // fewer atoms, if that still shows it
                let mut on = c.on.clone();
                let mut sp = s.clone();
                for a in c.on.iter() {
                    let mut o = on.clone();
                    o.remove(a);
                    let real = cfgs.iter().any(|x| x.on == o);
                    if real {
                        if let Ok((_, _, Some(x))) = judge(&o, 0) {
                            on = o;
                            sp = x;
                        }
                    }
                }
                let code = std::fs::read_to_string(t.root.join(&sp.file)).unwrap_or_default();
                let line = code.lines().nth(sp.l0 as usize - 1).unwrap_or("").trim();
                let what = format!(
                    "{} in src/{}:{} `{line}`{} with cfg {{{}}} (as on {})",
                    sp.what,
                    sp.file,
                    sp.l0,
                    if sp.site == sp.file { String::new() } else { format!(" expanded at src/{}:{}", sp.site, sp.site_line) },
                    on.iter().map(show).collect::<Vec<_>>().join(", "),
                    c.from
                );
                cx.violation(&Failure { replay: format!("highway-replay 1\nproperty C16\n# {what}\nrecheck cfg\n"), what });
            }
            Ok((k, _, None)) => {
                n += 1;
                if *k < t.canary.len() {
                    partial += 1;
                } else {
                    names.push(format!("{{{}}} on {}", c.on.iter().map(show).collect::<Vec<_>>().join(", "), c.from));
                }
            }
            Err(e) => die(e),
        }
    }
    if names.is_empty() {
        die("no configuration was linted completely");
    }
    // one more tree per thread: files are emptied in it
    let trees: Vec<PathBuf> = (0..SHARDS)
        .map(|k| {
            let to = target_dir().join("c16").join(format!("reach{k}")).join("src");
            let _ = std::fs::remove_dir_all(&to);
            for p in rs_files(&t.root) {
                let q = to.join(p.strip_prefix(&t.root).unwrap());
                let _ = std::fs::create_dir_all(q.parent().unwrap());
                let _ = std::fs::copy(&p, q);
            }
            to
        })
        .collect();
    let some: Vec<Config> = if cx.thorough { cfgs.clone() } else { cfgs.iter().take(400).cloned().collect() };
    let reach = parallel(some.clone(), |c, k| reaches(&trees[k], k, &t.edition, &args_of(&t, &c.on)));
    let mut emptied = 0;
    for (c, r) in some.iter().zip(reach) {
        match r {
            Ok((k, None)) => emptied += k as u64,
            Ok((_, Some(e))) => {
                let what = format!(
                    "the portable path depends on unsafe code: {e}; cfg {{{}}} (as on {})",
                    c.on.iter().map(show).collect::<Vec<_>>().join(", "),
                    c.from
                );
                cx.violation(&Failure { replay: format!("highway-replay 1\nproperty C16\n# {what}\nrecheck reach\n"), what });
            }
            Err(e) => die(&e),
        }
    }
    cx.count("files with unsafe code emptied", emptied, [], &[("emptied file x configuration", emptied)]);
    let full = names.len() as u64;
    let files = t.canary.len() as u64;
    cx.count(
        "cfg assignments linted",
        n,
        names,
        &[("all portable files linted", full), ("some portable file not linted", partial), ("file x configuration", full * files)],
    );
    eprintln!("[C16] {n} configurations linted in {:.1}s", t0.elapsed().as_secs_f32());
}

// ------------------------------------------------------------------ executed code

fn tool(name: &str) -> PathBuf {
    let root = Command::new("rustc").env("RUSTUP_TOOLCHAIN", "stable").args(["--print", "sysroot"]).output();
    if let Ok(o) = root {
        let p = PathBuf::from(String::from_utf8_lossy(&o.stdout).trim()).join("lib/rustlib/x86_64-unknown-linux-gnu/bin").join(name);
        if p.exists() {
            return p;
        }
    }
    PathBuf::from(name)
}

type Region = (u64, u64, u64, u64, u64);

/// Code regions of /repo/src with their counts, per file, and the names of executed functions.
fn coverage(bin: &Path, prof: &Path) -> Result<(HashMap<String, Vec<Region>>, HashMap<String, HashSet<String>>), String> {
    let raws: Vec<PathBuf> = rs_files(prof).into_iter().filter(|p| p.extension().is_some_and(|e| e == "profraw")).collect();
    if raws.is_empty() {
        return Err("the workers wrote no profile".into());
    }
    let data = prof.join("all.profdata");
    let o = Command::new(tool("llvm-profdata")).args(["merge", "-sparse", "-o"]).arg(&data).args(&raws).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).to_string());
    }
    let o = Command::new(tool("llvm-cov")).arg("export").arg(bin).arg("-instr-profile").arg(&data).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).to_string());
    }
    let j: Value = serde_json::from_slice(&o.stdout).map_err(|e| e.to_string())?;
    let src_prefix = format!("{}/", repo_src().display());
    let mut m: HashMap<String, Vec<Region>> = HashMap::new();
    let mut f: HashMap<String, HashSet<String>> = HashMap::new();
    for d in j["data"].as_array().into_iter().flatten() {
        for func in d["functions"].as_array().into_iter().flatten() {
            let files: Vec<&str> = func["filenames"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
            for r in func["regions"].as_array().into_iter().flatten() {
                let v: Vec<u64> = r.as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0)).collect();
                if v.len() < 8 || v[7] != 0 {
                    continue;
                }
                let Some(file) = files.get(v[5] as usize).and_then(|x| x.strip_prefix(&src_prefix)) else { continue };
                m.entry(file.to_string()).or_default().push((v[0], v[1], v[2], v[3], v[4]));
                if v[4] > 0 {
                    f.entry(file.to_string()).or_default().extend(fn_name(&repo_src(), file, v[0]));
                }
            }
        }
    }
    Ok((m, f))
}

/// Was the code at the span executed?
fn hit(m: &HashMap<String, Vec<Region>>, s: &Span) -> bool {
    let Some(v) = m.get(&s.file) else { return false };
    let (a, b) = ((s.l0, s.c0), (s.l1, s.c1));
    let mut inner: Option<((u64, u64), (u64, u64))> = None;
    for r in v {
        let (x, y) = ((r.0, r.1), (r.2, r.3));
        // inside the unsafe span
        if r.4 > 0 && x >= a && y <= b {
            return true;
        }
        // the innermost region around its start
        if x <= a && a < y && inner.is_none_or(|i| x > i.0 || x == i.0 && y < i.1) {
            inner = Some((x, y));
        }
    }
    inner.is_some_and(|i| v.iter().any(|r| ((r.0, r.1), (r.2, r.3)) == i && r.4 > 0))
}

fn cov_specs(thorough: bool) -> Vec<Spec> {
    let mut v = vec![
        spec(X86, "dev").san("cov"),
        spec(X86, "dev").nostd().san("cov"),
        spec(X86, "release").feat("+avx2").san("cov"),
        spec(ARM, "dev").san("cov"),
        spec(I686, "dev").nostd().san("cov"),
    ];
    if thorough {
        v.extend([
            spec(X86, "checked").san("cov"),
            spec(X86, "dev").feat("+sse4.1").nostd().san("cov"),
            spec(ARM, "release").nostd().san("cov"),
            spec(I686, "release").san("cov"),
        ]);
    }
    v
}

/// Returns, per source file, the functions that the portable histories executed.
fn executed(cx: &mut Ctx) -> HashMap<String, HashSet<String>> {
    let specs = cov_specs(cx.thorough);
    for s in &specs {
        let _ = std::fs::remove_dir_all(crate::exec::profile_dir(s));
    }
    cx.workers(specs);
    let nw = cx.specs.len();
    let m = Mix { place: 0, side: 1, hop: 2, cross: 1, ..OBSERVERS };
    cx.suite("portable histories", cx.n(4_000), SHARDS, || (hist(m), any::<u8>()), |(h, st), i| {
        let w = i % nw;
        let mut h = h.clone();
        if st % 4 == 0 {
            h.start = Start::Default(st / 4 % 3);
            h.key = [0; 4];
        }
        h.b = 0;
        // only the portable hasher may run
        for s in &mut h.steps {
            match s {
                Step::Hop(b) | Step::SideRestore(b, _) => *b = 0,
                Step::Cross(..) => *s = Step::Hop(0),
                _ => {}
            }
        }
        let mut sc = Scenario { nontrivial: h.total() > 0, ..Default::default() };
        h.labels(&mut sc);
        let obs = h.play(cx, &mut sc, w, &[], crate::scen::Mode::Prog(false));
        expect(&mut sc, h.key, &obs, Oracle::Model, false, "portable history");
        sc
    });
    cx.suite("portable restores and values", cx.n(2_000), SHARDS, || (raw_checkpoint(), len(), 0..N_KINDS, key()), |(raw, n, kind, key), i| {
        let w = i % nw;
        let d = crate::prog::expand(i as u64, *n);
        let t = crate::prog::Content::Text(i as u64).bytes(key, n % 50);
        let mut sc = Scenario { nontrivial: true, ..Default::default() };
        let ops = vec![
            Op::Restore(0, B_PORTABLE, raw.clone()),
            Op::Append(0, (i % N_APIS as usize) as u8, 0, t.clone()),
            Op::Append(0, 0, 0, d),
            Op::HashVal(0, *kind, t),
            Op::Checkpoint(0, 0),
            Op::RestoreReg(1, B_PORTABLE, 0),
            Op::Fin(0, (i % 3) as u8),
            Op::Fin(1, (i % 3) as u8),
        ];
        sc.run(w, ops);
        sc.eq((0, 6), (0, 7), "portable hasher against its restored checkpoint");
        sc
    });
    // the unsafe code of the same configurations
    let edition = std::fs::read_to_string(repo().join("Cargo.toml"))
        .ok()
        .and_then(|c| c.lines().find(|l| l.trim_start().starts_with("edition")).and_then(|l| l.split('"').nth(1).map(|x| x.to_string())))
        .unwrap_or("2021".into());
    let mut all: HashMap<String, HashSet<String>> = HashMap::new();
    let _ = std::fs::create_dir_all(target_dir().join("c16"));
    for w in 0..nw {
        let s = &cx.specs[w];
        let mut args = vec!["--target".to_string(), s.target.clone()];
        if s.std {
            args.extend(["--cfg".into(), "feature=\"std\"".into(), "--cfg".into(), "feature=\"default\"".into()]);
        }
        if !s.feat.is_empty() {
            args.push(format!("-Ctarget-feature={}", s.feat));
        }
        if s.profile != "dev" && s.profile != "checked" {
            args.push("-Cdebug-assertions=off".into());
            args.push("-Copt-level=3".into());
        }
        let spans = match lint(&repo_src(), &target_dir().join("c16/out"), &edition, &args) {
            Ok(v) => v,
            Err(e) => die(&e),
        };
        let (regions, fns) = match coverage(&cx.bins[w], &crate::exec::profile_dir(s)) {
            Ok(x) => x,
            Err(e) => die(&format!("coverage of {}: {e}", s.line())),
        };
        let n: usize = fns.values().map(|x| x.len()).sum();
        if n < 5 {
            die(&format!("coverage of {} shows only {n} executed functions", s.line()));
        }
        for x in &spans {
            if hit(&regions, x) {
                let code = std::fs::read_to_string(repo_src().join(&x.file)).unwrap_or_default();
                let line = code.lines().nth(x.l0 as usize - 1).unwrap_or("").trim().to_string();
                let what = format!(
                    "the portable hasher executed unsafe code ({}) at src/{}:{} `{line}` on {}",
                    x.what,
                    x.file,
                    x.l0,
                    s.line()
                );
                cx.violation(&Failure { replay: format!("highway-replay 1\nproperty C16\n# {what}\nrecheck coverage\n"), what });
            }
        }
        cx.count(
            &format!("executed code against unsafe spans: {}", s.line()),
            spans.len() as u64,
            [format!("{} unsafe spans, none among {} executed functions of {} files", spans.len(), n, fns.len())],
            &[("unsafe spans checked against coverage", spans.len() as u64), ("executed functions", n as u64)],
        );
        for (k, v) in fns {
            all.entry(k).or_default().extend(v);
        }
    }
    all
}

pub fn c16(cx: &mut Ctx) {
    cx.rule("Every assignment of the cfg atoms mentioned in the source that some rustc target, target-feature set, cargo feature set or compiler option produces (sampled when there are very many) is compiled with rustc's unsafe_code lint forced on; a report located in a file of the portable path fails. Portable-only histories run in coverage-instrumented workers; an executed region inside unsafe code anywhere in the crate fails. Non-trivial: a configuration in which the canary unsafe block of every portable file was reported; a history on a non-empty stream.");
    let _ = verif();
    let fns = executed(cx);
    configurations(cx, &fns);
}
