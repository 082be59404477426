//! Operations of the history language (see vm/src/ops.rs for the wire format).
use crate::model;

#[allow(dead_code)]
pub mod ops {
    include!("../../vm/src/ops.rs");
}
use ops::*;

pub type Key = [u64; 4];

/// A value produced by operation `op` of run `run` of the same scenario.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ref {
    pub run: usize,
    pub op: usize,
}

#[derive(Clone, Debug)]
pub enum Op {
    New(u8, u8, Key),
    Default(u8, u8, u8),
    Restore(u8, u8, Vec<u8>),
    /// restore from the checkpoint another run produced
    RestoreFrom(u8, u8, Ref),
    RestoreReg(u8, u8, u8),
    Append(u8, u8, u8, Vec<u8>),
    Fill(u8, u8, u64, u32),
    Fin(u8, u8),
    OneShot(u8, u8, u8, Vec<u8>),
    Finish(u8),
    Clone(u8, u8),
    CloneFrom(u8, u8),
    Checkpoint(u8, u8),
    Debug(u8, u8),
    /// Debug into a sink that fails after this many bytes
    DebugTo(u8, u8, u16),
    /// flags, times, body (no nested holes)
    Loop(u8, u32, Vec<Op>),
    Flush(u8),
    Drop(u8),
    FinClone(u8, u8),
    Swap(u8, u8),
    HashVal(u8, u8, Vec<u8>),
    BNew(u8, Key),
    BDefault(u8),
    BBuild(u8, u8),
    HashOne(u8, u8, Vec<u8>),
    Place(u8, u8),
    /// already encoded (replay files)
    Raw(Vec<u8>),
}

fn key_bytes(k: &Key) -> Vec<u8> {
    k.iter().flat_map(|x| x.to_le_bytes()).collect()
}

impl Op {
    pub fn encode(&self, out: &mut Vec<u8>, resolve: &dyn Fn(Ref) -> Option<Vec<u8>>) {
        let mut data = |head: &[u8], d: &[u8]| {
            out.extend_from_slice(head);
            out.extend_from_slice(&(d.len() as u32).to_le_bytes());
            out.extend_from_slice(d);
        };
        match self {
            Op::New(s, b, k) => {
                out.extend_from_slice(&[OP_NEW, *s, *b]);
                out.extend(key_bytes(k));
            }
            Op::Default(s, b, h) => out.extend_from_slice(&[OP_DEFAULT, *s, *b, *h]),
            Op::Restore(s, b, c) => {
                assert_eq!(c.len(), 164);
                out.extend_from_slice(&[OP_RESTORE, *s, *b]);
                out.extend_from_slice(c);
            }
            Op::RestoreFrom(s, b, r) => match resolve(*r) {
                Some(c) if c.len() == 164 => {
                    out.extend_from_slice(&[OP_RESTORE, *s, *b]);
                    out.extend_from_slice(&c);
                }
                // source not available: leaves the slot empty
                _ => {
                    out.extend_from_slice(&[OP_RESTORE, *s, 0xee]);
                    out.extend_from_slice(&[0; 164]);
                }
            },
            Op::RestoreReg(s, b, g) => out.extend_from_slice(&[OP_RESTORE_REG, *s, *b, *g]),
            Op::Append(s, a, p, d) => data(&[OP_APPEND, *s, *a, *p], d),
            Op::Fill(s, a, seed, n) => {
                out.extend_from_slice(&[OP_FILL, *s, *a]);
                out.extend_from_slice(&seed.to_le_bytes());
                out.extend_from_slice(&n.to_le_bytes());
            }
            Op::Fin(s, w) => out.extend_from_slice(&[OP_FIN, *s, *w]),
            Op::OneShot(s, w, p, d) => data(&[OP_ONESHOT, *s, *w, *p], d),
            Op::Finish(s) => out.extend_from_slice(&[OP_FINISH, *s]),
            Op::Clone(a, b) => out.extend_from_slice(&[OP_CLONE, *a, *b]),
            Op::CloneFrom(a, b) => out.extend_from_slice(&[OP_CLONEFROM, *a, *b]),
            Op::Checkpoint(s, g) => out.extend_from_slice(&[OP_CHECKPOINT, *s, *g]),
            Op::Debug(s, a) => out.extend_from_slice(&[OP_DEBUG, *s, *a, 0xff, 0xff]),
            Op::DebugTo(s, a, n) => out.extend_from_slice(&[OP_DEBUG, *s, *a, *n as u8, (*n >> 8) as u8]),
            Op::Loop(f, n, body) => {
                let mut b = vec![];
                for o in body {
                    o.encode(&mut b, resolve);
                }
                out.extend_from_slice(&[OP_LOOP, *f]);
                out.extend_from_slice(&n.to_le_bytes());
                out.extend_from_slice(&(b.len() as u32).to_le_bytes());
                out.extend_from_slice(&b);
            }
            Op::Flush(s) => out.extend_from_slice(&[OP_FLUSH, *s]),
            Op::Drop(s) => out.extend_from_slice(&[OP_DROP, *s]),
            Op::FinClone(s, w) => out.extend_from_slice(&[OP_FINCLONE, *s, *w]),
            Op::Swap(a, b) => out.extend_from_slice(&[OP_SWAP, *a, *b]),
            Op::HashVal(s, k, d) => data(&[OP_HASHVAL, *s, *k], d),
            Op::BNew(b, k) => {
                out.extend_from_slice(&[OP_BNEW, *b]);
                out.extend(key_bytes(k));
            }
            Op::BDefault(b) => out.extend_from_slice(&[OP_BDEFAULT, *b]),
            Op::BBuild(s, b) => out.extend_from_slice(&[OP_BBUILD, *s, *b]),
            Op::HashOne(b, k, d) => data(&[OP_HASHONE, *b, *k], d),
            Op::Place(s, w) => out.extend_from_slice(&[OP_PLACE, *s, *w]),
            Op::Raw(b) => out.extend_from_slice(b),
        }
    }
}

pub fn backend_name(b: u8) -> &'static str {
    ["PortableHash", "SseHash(detected)", "AvxHash(detected)", "HighwayHasher", "SseHash", "AvxHash", "NeonHash", "WasmHash"]
        .get(b as usize)
        .copied()
        .unwrap_or("none")
}
pub fn api_name(a: u8) -> &'static str {
    ["append", "Hasher::write", "io::write", "io::write_all", "io::copy", "io::write_vectored", "dyn Hasher", "dyn Write", "write_fmt", "write_fmt (plain value)"]
        .get(a as usize)
        .copied()
        .unwrap_or("?")
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s == "-" {
        return Some(vec![]);
    }
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(i * 2..i * 2 + 2)?, 16).ok()).collect()
}
fn short(b: &[u8]) -> String {
    if b.len() <= 24 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..16]), b.len())
    }
}
fn kx(k: &Key) -> String {
    format!("[{:#x},{:#x},{:#x},{:#x}]", k[0], k[1], k[2], k[3])
}

fn debug_form(a: u8) -> &'static str {
    ["{:?}", "{:#?}", "{:x?}", "{:#X?}", "{:<+9.2?}", "{:>#012.40?}", "{:>#012.40?}", "{:>#012.40?}"][a as usize & 7]
}
fn debug_sink(a: u8) -> String {
    let mut s = String::new();
    if a & D_BUSY != 0 {
        s += " (the sink uses this and other hashers meanwhile)";
    }
    if a & D_PANIC != 0 {
        s += " (the sink panics when full)";
    }
    s
}
impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::New(s, b, k) => write!(f, "h{s} = {}::new({})", backend_name(*b), kx(k)),
            Op::Default(s, b, h) => write!(f, "h{s} = {}::default() via {h}", backend_name(*b)),
            Op::Restore(s, b, c) => write!(f, "h{s} = {}::from_checkpoint({})", backend_name(*b), hex(c)),
            Op::RestoreFrom(s, b, r) => {
                write!(f, "h{s} = {}::from_checkpoint(result of run {} op {})", backend_name(*b), r.run, r.op)
            }
            Op::RestoreReg(s, b, g) => write!(f, "h{s} = {}::from_checkpoint(c{g})", backend_name(*b)),
            Op::Append(s, a, p, d) => write!(f, "h{s}.{}({}) place {p:#x}", api_name(*a), short(d)),
            Op::Fill(s, a, seed, n) => write!(f, "h{s}.{}({n} bytes of expand({seed:#x}))", api_name(*a)),
            Op::Fin(s, w) => write!(f, "h{s}.finalize{}()", 64 << w),
            Op::OneShot(s, w, p, d) => write!(f, "h{s}.hash{}({}) place {p:#x}", 64 << w, short(d)),
            Op::Finish(s) => write!(f, "h{s}.finish()"),
            Op::Clone(a, b) => write!(f, "h{b} = h{a}.clone()"),
            Op::CloneFrom(a, b) => write!(f, "h{b}.clone_from(h{a})"),
            Op::Checkpoint(s, g) => write!(f, "c{g} = h{s}.checkpoint()"),
            Op::Debug(s, a) => write!(f, "format!(\"{}\", h{s}){}", debug_form(*a), debug_sink(*a)),
            Op::DebugTo(s, a, n) => {
                write!(f, "write!(sink of {n} bytes, \"{}\", h{s}){}", debug_form(*a), debug_sink(*a))
            }
            Op::Loop(_, n, b) => {
                write!(f, "{n} times {{ {} }}", b.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("; "))
            }
            Op::Flush(s) => write!(f, "h{s}.flush()"),
            Op::Drop(s) => write!(f, "drop(h{s})"),
            Op::FinClone(s, w) => write!(f, "h{s}.clone().finalize{}()", 64 << w),
            Op::Swap(a, b) => write!(f, "swap(h{a}, h{b})"),
            Op::HashVal(s, k, d) => write!(f, "value kind {k} ({}).hash(h{s})", short(d)),
            Op::BNew(b, k) => write!(f, "b{b} = HighwayBuildHasher::new({})", kx(k)),
            Op::BDefault(b) => write!(f, "b{b} = HighwayBuildHasher::default()"),
            Op::BBuild(s, b) => write!(f, "h{s} = b{b}.build_hasher()"),
            Op::HashOne(b, k, d) => write!(f, "b{b}.hash_one(value kind {k} ({}))", short(d)),
            Op::Place(s, w) => write!(f, "move h{s} to place {w:#x}"),
            Op::Raw(_) => write!(f, "raw"),
        }
    }
}

/// What the bytes of a stream look like.
#[derive(Clone, Debug)]
pub enum Content {
    Seed(u64),
    Const(u8),
    Count(u8),
    OneHot(u32),
    Targeted(u64),
    /// constant packets with a few random bytes
    Sparse(u64),
    Text(u64),
    /// a short random unit repeated: packets (or words) equal to their neighbours
    Repeat(u64),
    /// random bytes with constants of the sources under test in them
    Dict(u64),
}

pub fn expand(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed ^ 0x9e37_79b9_7f4a_7c15;
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.push((x.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 56) as u8);
    }
    v
}

impl Content {
    pub fn bytes(&self, key: &Key, n: usize) -> Vec<u8> {
        match self {
            Content::Seed(s) => expand(*s, n),
            Content::Const(b) => vec![*b; n],
            Content::Count(b) => (0..n).map(|i| (i as u8).wrapping_add(*b)).collect(),
            Content::OneHot(p) => {
                let mut v = vec![0; n];
                if n > 0 {
                    let bit = *p as usize % (n * 8);
                    v[bit / 8] = 1 << (bit % 8);
                }
                v
            }
            Content::Targeted(s) => model::targeted(key, *s, n),
            Content::Sparse(s) => {
                let r = expand(*s, n + 1);
                let base = [0u8, 0xff, 0x80, 0x7f][r[n] as usize & 3];
                r[..n].iter().map(|b| if b & 15 == 0 { b.rotate_left(4) ^ 0x5a } else { base }).collect()
            }
            Content::Repeat(s) => {
                let n0 = [1usize, 2, 4, 8, 16, 24, 31, 32, 33, 64][*s as usize % 10];
                expand(s.rotate_left(17), n0).into_iter().cycle().take(n).collect()
            }
            Content::Dict(s) => {
                let d = crate::dict::dict();
                let mut v = expand(*s, n);
                let r: Vec<usize> = expand(s.rotate_left(9), 32).chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as usize).collect();
                for (j, r) in r.iter().enumerate().take(1 + r[7] % 6) {
                    let all = d.words.len() + d.texts.len();
                    if all == 0 || n == 0 {
                        break;
                    }
                    let k = (r >> 3) % all;
                    let p = match d.words.get(k) {
                        None => d.texts[k - d.words.len()].clone(),
                        Some(w) => {
                            let size = match (r >> 12) % 3 {
                                0 => 8,
                                1 => (64 - w.leading_zeros() as usize).div_ceil(8).next_power_of_two(),
                                _ => 4,
                            };
                            let mut b = w.to_le_bytes()[..size.min(8)].to_vec();
                            if r & 4 != 0 {
                                b.reverse();
                            }
                            b
                        }
                    };
                    let at = match (r >> 16) % 4 {
                        0 if j == 0 => 0,
                        0 => n.saturating_sub(p.len()),
                        1 => (r >> 20) % n / 8 * 8,
                        2 => (r >> 20) % n.min(32),
                        _ => (r >> 20) % n,
                    };
                    // sometimes everywhere
                    let upto = if (r >> 18) % 16 == 0 { n } else { (at + p.len()).min(n) };
                    for (to, from) in v[at..upto].iter_mut().zip(p.iter().cycle()) {
                        *to = *from;
                    }
                }
                v
            }
            Content::Text(s) => expand(*s, n).iter().map(|b| b'a' + b % 26).collect(),
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            Content::Seed(_) => "data:random",
            Content::Const(_) => "data:constant",
            Content::Count(_) => "data:counting",
            Content::OneHot(_) => "data:one-hot",
            Content::Targeted(_) => "data:lane-targeted",
            Content::Sparse(_) => "data:sparse",
            Content::Text(_) => "data:text",
            Content::Repeat(_) => "data:repeated-unit",
            Content::Dict(_) => "data:dictionary",
        }
    }
}
