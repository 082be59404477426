//! A fuzzing dictionary: the constants that occur in the sources under test but not in the version
//! these checks were written for. They steer the generators (keys, state lanes, lengths, contents,
//! repetition counts) towards inputs that a change may treat specially; they decide nothing, and
//! on the unchanged tree the dictionary is empty.
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub words: Vec<u64>,
    pub texts: Vec<Vec<u8>>,
}

/// The code of a file without comments and without its test modules.
fn strip(code: &str) -> String {
    let b: Vec<char> = code.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    let mut lines_left = code.lines().count();
    while i < b.len() {
        if b[i] == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if b[i] == '/' && b.get(i + 1) == Some(&'*') {
            let mut depth = 0;
            while i < b.len() {
                if b[i] == '/' && b.get(i + 1) == Some(&'*') {
                    depth += 1;
                    i += 2;
                } else if b[i] == '*' && b.get(i + 1) == Some(&'/') {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
        } else if b[i] == '"' {
            o.push('"');
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    o.push(b[i]);
                    i += 1;
                }
                if i < b.len() {
                    o.push(b[i]);
                    i += 1;
                }
            }
            o.push('"');
            i += 1;
        } else {
            if b[i] == '\n' {
                lines_left -= 1;
            }
            o.push(b[i]);
            i += 1;
        }
    }
    let _ = lines_left;
    match o.find("#[cfg(test)]\nmod ") {
        Some(k) => o[..k].to_string(),
        None => o,
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Num(u64),
    Text(Vec<u8>),
    Sym(char),
    Other,
}

fn tokens(code: &str) -> Vec<Tok> {
    let b: Vec<char> = strip(code).chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_digit() {
            let mut s = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                s.push(b[i]);
                i += 1;
            }
            v.push(number(&s).map_or(Tok::Other, Tok::Num));
        } else if c.is_alphabetic() || c == '_' {
            let from = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            // b'x'
            if i - from == 1 && c == 'b' && b.get(i) == Some(&'\'') {
                if b.get(i + 2) == Some(&'\'') {
                    v.push(Tok::Num(b[i + 1] as u64));
                    i += 3;
                    continue;
                }
            }
            v.push(Tok::Other);
        } else if c == '"' {
            let mut s = vec![];
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' && i + 1 < b.len() {
                    i += 1;
                    let e = match b[i] {
                        'n' => 10,
                        't' => 9,
                        'r' => 13,
                        '0' => 0,
                        'x' => {
                            let h: String = b[i + 1..(i + 3).min(b.len())].iter().collect();
                            i += 2;
                            u8::from_str_radix(&h, 16).unwrap_or(0)
                        }
                        c => c as u8,
                    };
                    s.push(e);
                } else {
                    s.extend(b[i].to_string().bytes());
                }
                i += 1;
            }
            i += 1;
            v.push(Tok::Text(s));
        } else {
            if !c.is_whitespace() {
                v.push(Tok::Sym(c));
            }
            i += 1;
        }
    }
    v
}

fn number(s: &str) -> Option<u64> {
    let t: String = s.chars().filter(|c| *c != '_').collect();
    let mut t = t.as_str();
    for x in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"] {
        if let Some(r) = t.strip_suffix(x) {
            t = r;
            break;
        }
    }
    let r = |p: &str, k: u32| t.strip_prefix(p).map(|d| u128::from_str_radix(d, k));
    let n = r("0x", 16).or_else(|| r("0b", 2)).or_else(|| r("0o", 8)).unwrap_or_else(|| t.parse::<u128>());
    n.ok().map(|n| n as u64)
}

/// Numbers and texts; products, shifts, sums and differences of neighbouring constants as well.
fn constants(code: &str) -> (BTreeSet<u64>, BTreeSet<Vec<u8>>) {
    let t = tokens(code);
    let (mut n, mut s) = (BTreeSet::new(), BTreeSet::new());
    for i in 0..t.len() {
        match &t[i] {
            Tok::Text(x) if !x.is_empty() => {
                s.insert(x.clone());
            }
            Tok::Num(a) => {
                n.insert(*a);
                let mut acc = *a;
                let mut j = i + 1;
                loop {
                    let (op, k) = match (t.get(j), t.get(j + 1)) {
                        (Some(Tok::Sym('<')), Some(Tok::Sym('<'))) => ('<', j + 2),
                        (Some(Tok::Sym(c)), _) if "*+-".contains(*c) => (*c, j + 1),
                        _ => break,
                    };
                    let Some(Tok::Num(b)) = t.get(k) else { break };
                    acc = match op {
                        '<' => acc.wrapping_shl(*b as u32),
                        '*' => acc.wrapping_mul(*b),
                        '+' => acc.wrapping_add(*b),
                        _ => acc.wrapping_sub(*b),
                    };
                    n.insert(acc);
                    j = k + 1;
                }
                // arrays of bytes
                if t.get(i.wrapping_sub(1)) == Some(&Tok::Sym('[')) {
                    let mut v = vec![];
                    let mut j = i;
                    while let Some(Tok::Num(b)) = t.get(j) {
                        if *b > 255 {
                            v.clear();
                            break;
                        }
                        v.push(*b as u8);
                        if t.get(j + 1) != Some(&Tok::Sym(',')) {
                            break;
                        }
                        j += 2;
                    }
                    if v.len() > 1 {
                        s.insert(v);
                    }
                }
            }
            _ => {}
        }
    }
    (n, s)
}

fn collect(dir: &Path, n: &mut BTreeSet<u64>, s: &mut BTreeSet<Vec<u8>>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            collect(&p, n, s);
        } else if p.extension().is_some_and(|x| x == "rs") {
            let (a, b) = constants(&std::fs::read_to_string(&p).unwrap_or_default());
            n.extend(a);
            s.extend(b);
        }
    }
}

/// All constants of the sources below `dir`, one per line (to write baseline.txt).
pub fn listing(dir: &Path) -> String {
    let (mut n, mut s) = Default::default();
    collect(dir, &mut n, &mut s);
    let mut o: Vec<String> = n.iter().map(|x| format!("{x:#x}")).collect();
    o.extend(s.iter().map(|t| format!("t {}", crate::prog::hex(t))));
    o.join("\n") + "\n"
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let old: BTreeSet<&str> = include_str!("baseline.txt").lines().collect();
        let new = listing(&crate::exec::repo_src());
        let mut d = Dict::default();
        for l in new.lines().filter(|l| !old.contains(l)) {
            match l.strip_prefix("t ") {
                Some(h) => d.texts.extend(crate::prog::unhex(h)),
                None => d.words.extend(number(l)),
            }
        }
        d.words.truncate(64);
        d.texts.truncate(32);
        d
    })
}

impl Dict {
    pub fn is_empty(&self) -> bool {
        self.words.is_empty() && self.texts.is_empty()
    }
    /// usable as a length or a count
    pub fn sizes(&self, max: u64) -> Vec<u64> {
        let mut v: BTreeSet<u64> = BTreeSet::new();
        for w in &self.words {
            for d in [0u64, 1, 2, 32, 64, 3, 31, 33] {
                v.insert(w.saturating_sub(d));
                v.insert(w.saturating_add(d));
                v.insert(w.wrapping_mul(32).wrapping_add(d));
            }
        }
        v.retain(|x| *x > 0 && *x <= max);
        v.into_iter().collect()
    }
}
