//! One execution: the history is run on the hasher types and judged by the oracle of the property.
use crate::input::*;
use crate::model;
use hvm::ops::*;

#[derive(Clone, Debug)]
enum Origin {
    Key([u64; 4]),
    Build([u64; 4]),
    Restore(Vec<u8>),
    Default(u8),
}
#[derive(Clone, Debug)]
enum Part {
    /// api, offset and length in the stream
    Data(u8, usize, usize),
    /// what a Hash value wrote, as recorded by operation k
    Rec(usize),
}
/// How a hasher came to be, as seen from outside.
#[derive(Clone, Debug)]
struct Life {
    ty: u8,
    origin: Origin,
    parts: Vec<Part>,
    hops: u32,
}
#[derive(Clone, Debug)]
enum What {
    Fin(u8),
    One(u8, usize, usize),
    Finish,
    Cp,
    Len(usize),
    HashOne([u64; 4]),
}
struct Obs {
    rec: usize,
    life: Life,
    what: What,
}
#[derive(Default)]
struct Built {
    prog: Vec<u8>,
    nrec: usize,
    obs: Vec<Obs>,
    stream: Vec<u8>,
    debug: Vec<usize>,
}

pub struct Target {
    pub prop: u32,
    pub types: Vec<u8>,
    pub subjects: Vec<u8>,
    pub kinds: Vec<u8>,
    pub hows: Vec<u8>,
}

const P: u8 = B_PORTABLE;

impl Target {
    pub fn new(prop: u32, types: &[u8]) -> Target {
        let all: Vec<u8> = (0..NKINDS).collect();
        let (kinds, hows): (Vec<u8>, Vec<u8>) = match prop {
            1 => (vec![APPEND, APPEND, APPEND, FIN, ONESHOT, REP], vec![0]),
            2..=4 => (vec![APPEND, APPEND, APPEND, APPEND, FIN, FIN, ONESHOT, REP, CP, FINISH], vec![0]),
            5 => (vec![APPEND, APPEND, APPEND, APPEND, FIN, FINISH, ONESHOT, REP, FLUSH], vec![0]),
            6 => (vec![APPEND, APPEND, APPEND, CP, CP, RESTORE, RESTORE, FIN, ONESHOT, REP], vec![0]),
            7 => (vec![APPEND, APPEND, APPEND, FIN, FINISH, ONESHOT, REP], vec![2]),
            9 => (vec![APPEND, APPEND, APPEND, FIN, ONESHOT, ONESHOT, REP, CP, RESTORE, FINISH], vec![0, 1]),
            10 => (vec![APPEND, APPEND, FIN, ONESHOT, CLONE, CP, RESTORE, NEW, FINISH], vec![0, 1, 2, 3]),
            11 => (vec![APPEND, APPEND, APPEND, FIN, FIN, ONESHOT, CP, RESTORE, CLONE, FINISH, REP], vec![1]),
            12 => (vec![APPEND, APPEND, APPEND, FINISH, FINISH, HASHVAL, HASHVAL, HASHONE, FIN, FLUSH, CLONE], vec![0, 3]),
            13 => (vec![APPEND, APPEND, APPEND, FIN, FINISH, CP, DEBUG, CLONE, CLONEFROM, ONESHOT, SWAP], vec![0, 1]),
            14 => (vec![APPEND, APPEND, APPEND, APPEND, CP, CP, RESTORE, REP, CLONE, FINISH], vec![0]),
            15 => (vec![APPEND, APPEND, APPEND, FIN, NEW, CLONE, SWAP, FINISH, ONESHOT, CP, RESTORE], vec![0, 3]),
            _ => (all, vec![0, 1, 2, 3]),
        };
        let subjects = match prop {
            1 => vec![P],
            2..=4 => types.iter().copied().filter(|t| *t != P).collect(),
            10 => vec![B_AUTO],
            _ => types.to_vec(),
        };
        Target { prop, types: types.to_vec(), subjects, kinds, hows }
    }
}

fn origin(i: &Inp, ty: u8) -> Origin {
    match i.how {
        1 => Origin::Restore(i.cp.clone()),
        2 => Origin::Default((i.key[0] % if ty == B_AUTO { 5 } else { 3 }) as u8),
        3 if ty == B_AUTO => Origin::Build(i.key),
        _ => Origin::Key(i.key),
    }
}

fn start(prog: &mut Vec<u8>, slot: u8, ty: u8, o: &Origin) -> usize {
    let key = |p: &mut Vec<u8>, k: &[u64; 4]| k.iter().for_each(|x| p.extend(x.to_le_bytes()));
    match o {
        Origin::Key(k) => {
            prog.extend([OP_NEW, slot, ty]);
            key(prog, k);
            1
        }
        Origin::Build(k) if ty == B_AUTO => {
            prog.extend([OP_BNEW, 0]);
            key(prog, k);
            prog.extend([OP_BBUILD, slot, 0]);
            2
        }
        Origin::Build(k) => {
            prog.extend([OP_NEW, slot, ty]);
            key(prog, k);
            1
        }
        Origin::Restore(c) => {
            prog.extend([OP_RESTORE, slot, ty]);
            prog.extend(c);
            1
        }
        Origin::Default(h) => {
            prog.extend([OP_DEFAULT, slot, ty, *h]);
            1
        }
    }
}
fn append(prog: &mut Vec<u8>, slot: u8, api: u8, d: &[u8]) {
    append_at(prog, slot, api, 0, d)
}
fn append_at(prog: &mut Vec<u8>, slot: u8, api: u8, how: u8, d: &[u8]) {
    prog.extend([OP_APPEND, slot, api, how]);
    prog.extend((d.len() as u32).to_le_bytes());
    prog.extend(d);
}

fn api(t: &Target, x: u8) -> u8 {
    match t.prop {
        1 => A_APPEND,
        _ => (x >> 2) % N_APIS,
    }
}

fn build(t: &Target, i: &Inp, ty: u8, origin_of: &dyn Fn(u8) -> Origin) -> Built {
    let mut b = Built::default();
    let maxstream = if i.big { 1 << 16 } else { 1 << 11 };
    let mut cursor = 0usize;
    let mut lives: [Option<Life>; SLOTS as usize] = [const { None }; SLOTS as usize];
    let mut regs: Option<Life> = None;
    b.nrec += start(&mut b.prog, 0, ty, &origin_of(ty));
    lives[0] = Some(Life { ty, origin: origin_of(ty), parts: vec![], hops: 0 });
    let hop = matches!(t.prop, 6 | 8 | 11 | 14 | 18);
    let place = |x: u8| if t.prop == 9 { x | 1 } else { 0 };
    let mut take = |b: &mut Built, n: usize| -> (usize, usize) {
        let n = n.min(16384).min(maxstream - b.stream.len());
        let from = b.stream.len();
        for k in 0..n {
            b.stream.push(if i.data.is_empty() { 0 } else { i.data[(cursor + k) % i.data.len()] });
        }
        cursor += n;
        (from, n)
    };
    for s in i.ops.iter().take(MAXOPS) {
        let mut slot = (s.slot % SLOTS) as usize;
        if lives[slot].is_none() && !matches!(s.kind, NEW) {
            slot = 0;
        }
        let dst = (slot + 1 + (s.x >> 3) as usize % (SLOTS as usize - 1)) % SLOTS as usize;
        let sl = slot as u8;
        let w = s.x % 3;
        macro_rules! obs {
            ($w:expr) => {
                b.obs.push(Obs { rec: b.nrec, life: lives[slot].clone().unwrap(), what: $w })
            };
        }
        match s.kind {
            APPEND => {
                let (o, n) = take(&mut b, s.n as usize);
                let a = api(t, s.x);
                append_at(&mut b.prog, sl, a, place(s.x), &b.stream[o..o + n]);
                if t.prop == 12 && a >= A_WRITE && a != A_DYN {
                    obs!(What::Len(n));
                }
                lives[slot].as_mut().unwrap().parts.push(Part::Data(a, o, n));
                b.nrec += 1;
            }
            REP => {
                let each = (s.x >> 2) as usize % 40;
                let a = if t.prop == 1 || s.x & 1 == 0 { A_APPEND } else { A_HASHER };
                for _ in 0..s.n.min(2048) {
                    if b.stream.len() + each > maxstream {
                        break;
                    }
                    let (o, n) = take(&mut b, each);
                    append_at(&mut b.prog, sl, a, place(s.x), &b.stream[o..o + n]);
                    lives[slot].as_mut().unwrap().parts.push(Part::Data(a, o, n));
                    b.nrec += 1;
                }
            }
            FIN => {
                b.prog.extend([OP_FINCLONE, sl, w]);
                obs!(What::Fin(w));
                b.nrec += 1;
            }
            FINISH => {
                b.prog.extend([OP_FINISH, sl]);
                obs!(What::Finish);
                b.nrec += 1;
            }
            ONESHOT => {
                let (o, n) = take(&mut b, s.n as usize);
                b.prog.extend([OP_CLONE, sl, 7, OP_ONESHOT, 7, w, place(s.x)]);
                b.prog.extend((n as u32).to_le_bytes());
                b.prog.extend_from_slice(&b.stream[o..o + n]);
                b.nrec += 1;
                obs!(What::One(w, o, n));
                b.nrec += 1;
            }
            CP => {
                b.prog.extend([OP_CHECKPOINT, sl, 0]);
                obs!(What::Cp);
                regs = lives[slot].clone();
                b.nrec += 1;
            }
            RESTORE => {
                let Some(mut r) = regs.clone() else { continue };
                let to = if hop && ty != P || hop && t.prop != 11 { t.types[(s.x >> 1) as usize % t.types.len()] } else { ty };
                b.prog.extend([OP_RESTORE_REG, sl, to, 0]);
                r.hops += 1;
                lives[slot] = Some(r);
                b.nrec += 1;
            }
            CLONE => {
                b.prog.extend([OP_CLONE, sl, dst as u8]);
                lives[dst] = lives[slot].clone();
                b.nrec += 1;
            }
            CLONEFROM => {
                if lives[dst].is_some() {
                    b.prog.extend([OP_CLONEFROM, sl, dst as u8]);
                    lives[dst] = lives[slot].clone();
                    b.nrec += 1;
                }
            }
            DEBUG => {
                b.prog.extend([OP_DEBUG, sl, s.x & 1, 0xff, 0xff]);
                b.debug.push(b.nrec);
                b.nrec += 1;
            }
            FLUSH => {
                b.prog.extend([OP_FLUSH, sl]);
                b.nrec += 1;
            }
            SWAP => {
                b.prog.extend([OP_SWAP, sl, dst as u8]);
                lives.swap(slot, dst);
                if lives[0].is_none() {
                    // slot 0 is never empty
                    b.prog.extend([OP_CLONE, dst as u8, 0]);
                    lives[0] = lives[dst].clone();
                    b.nrec += 1;
                }
                b.nrec += 1;
            }
            NEW => {
                let mut k = i.key;
                k[(s.x & 3) as usize] ^= (s.x >> 2) as u64;
                let o = if ty == B_AUTO && s.n & 1 == 1 { Origin::Build(k) } else { Origin::Key(k) };
                b.nrec += start(&mut b.prog, sl, ty, &o);
                lives[slot] = Some(Life { ty, origin: o, parts: vec![], hops: 0 });
            }
            HASHVAL => {
                let (o, n) = take(&mut b, (s.n as usize).min(64));
                b.prog.extend([OP_HASHVAL, sl, s.x % hvm::N_KINDS]);
                b.prog.extend((n as u32).to_le_bytes());
                b.prog.extend_from_slice(&b.stream[o..o + n]);
                lives[slot].as_mut().unwrap().parts.push(Part::Rec(b.nrec));
                obs!(What::Finish);
                b.nrec += 1;
            }
            HASHONE => {
                if ty != B_AUTO {
                    continue;
                }
                let (o, n) = take(&mut b, (s.n as usize).min(64));
                b.nrec += start(&mut b.prog, 6, B_AUTO, &Origin::Build(i.key));
                b.prog.extend([OP_HASHONE, 0, s.x % hvm::N_KINDS]);
                b.prog.extend((n as u32).to_le_bytes());
                b.prog.extend_from_slice(&b.stream[o..o + n]);
                obs!(What::HashOne(i.key));
                b.nrec += 1;
            }
            _ => {}
        }
    }
    // every history ends with an observation of each live hasher
    for slot in 0..SLOTS as usize {
        let Some(l) = &lives[slot] else { continue };
        for w in 0..3u8 {
            b.prog.extend([OP_FINCLONE, slot as u8, w]);
            b.obs.push(Obs { rec: b.nrec, life: l.clone(), what: What::Fin(w) });
            b.nrec += 1;
        }
        if matches!(t.prop, 2..=4 | 6 | 10 | 11 | 14) {
            b.prog.extend([OP_CHECKPOINT, slot as u8, 1]);
            b.obs.push(Obs { rec: b.nrec, life: l.clone(), what: What::Cp });
            b.nrec += 1;
        }
    }
    b
}

type Rec<'a> = (u8, &'a [u8]);
fn records(b: &[u8]) -> Vec<Rec<'_>> {
    let mut v = vec![];
    let mut p = 0;
    while p + 5 <= b.len() {
        let n = u32::from_le_bytes(b[p + 1..p + 5].try_into().unwrap()) as usize;
        v.push((b[p], &b[p + 5..p + 5 + n]));
        p += 5 + n;
    }
    v
}

pub struct Runner {
    pub edge: Option<Edge>,
    out: Vec<u8>,
    aux: Vec<u8>,
    pub compared: u64,
}
impl Runner {
    pub fn new() -> Runner {
        Runner { edge: None, out: vec![0; 1 << 20], aux: vec![0; 1 << 20], compared: 0 }
    }
}

use hvm::run_plain as run;
use hvm::{run_edge, Edge};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn bytes(life: &Life, stream: &[u8], recs: &[Rec]) -> Option<Vec<u8>> {
    let mut v = vec![];
    for p in &life.parts {
        match p {
            Part::Data(_, o, n) => v.extend_from_slice(&stream[*o..*o + *n]),
            Part::Rec(k) => v.extend_from_slice(recs.get(*k)?.1.get(8..)?),
        }
    }
    Some(v)
}

/// An independent history with the same logical effect, ending with the observation.
fn reference(t: &Target, o: &Obs, ty: u8, concat: bool, stream: &[u8], recs: &[Rec]) -> Option<Vec<u8>> {
    let mut p = vec![];
    let life = &o.life;
    let mut last: &[u8] = &[];
    if let What::One(_, a, n) = o.what {
        last = &stream[a..a + n];
    }
    start(&mut p, 0, ty, &life.origin);
    if concat {
        let mut all = bytes(life, stream, recs)?;
        if matches!(o.what, What::Cp) {
            append(&mut p, 0, A_APPEND, &all);
            p.extend([OP_CHECKPOINT, 0, 0]);
        } else {
            all.extend_from_slice(last);
            let w = match o.what {
                What::Fin(w) | What::One(w, ..) => w,
                _ => 0,
            };
            if t.prop == 11 && w != 0 {
                append(&mut p, 0, A_APPEND, &all);
                p.extend([OP_FIN, 0, w]);
            } else {
                p.extend([OP_ONESHOT, 0, w, 0]);
                p.extend((all.len() as u32).to_le_bytes());
                p.extend(all);
            }
        }
        return Some(p);
    }
    for x in &life.parts {
        match x {
            Part::Data(a, from, n) => append(&mut p, 0, *a, &stream[*from..*from + *n]),
            Part::Rec(k) => append(&mut p, 0, A_APPEND, recs.get(*k)?.1.get(8..)?),
        }
    }
    match o.what {
        What::Fin(w) => p.extend([OP_FIN, 0, w]),
        What::One(w, ..) => {
            p.extend([OP_ONESHOT, 0, w, 0]);
            p.extend((last.len() as u32).to_le_bytes());
            p.extend_from_slice(last);
        }
        What::Cp => p.extend([OP_CHECKPOINT, 0, 0]),
        _ => p.extend([OP_FINISH, 0]),
    }
    Some(p)
}

fn name(ty: u8) -> &'static str {
    ["PortableHash", "SseHash", "AvxHash", "HighwayHasher", "SseHash", "AvxHash", "NeonHash", "WasmHash"][ty as usize & 7]
}

impl Runner {
    fn refer(&mut self, p: &[u8]) -> Vec<u8> {
        let n = run(p, &mut self.aux);
        let r = records(&self.aux[..n]);
        r.last().map_or(vec![], |x| x.1.to_vec())
    }

    pub fn exec(&mut self, t: &Target, i: &Inp) -> Result<(), String> {
        {
            let ty = t.subjects[i.ty as usize % t.subjects.len()];
            let b = build(t, i, ty, &|ty| origin(i, ty));
            let mut out = std::mem::take(&mut self.out);
            let before = crate::alloc::count();
            crate::alloc::start();
            let n = run(&b.prog, &mut out);
            crate::alloc::stop();
            let allocs = crate::alloc::count() - before;
            let r = self.judge(t, i, ty, &b, &out[..n], allocs);
            self.out = out;
            r?;
        }
        Ok(())
    }

    fn judge(&mut self, t: &Target, i: &Inp, ty: u8, b: &Built, out: &[u8], allocs: u64) -> Result<(), String> {
        let recs = records(out);
        if recs.len() != b.nrec {
            // the output buffer was too small
            return Ok(());
        }
        match t.prop {
            1 | 7 => {
                for o in &b.obs {
                    let w = match o.what {
                        What::Fin(w) | What::One(w, ..) => w,
                        What::Finish => 0,
                        _ => continue,
                    };
                    let Some(mut d) = bytes(&o.life, &b.stream, &recs) else { continue };
                    if let What::One(_, a, n) = o.what {
                        d.extend_from_slice(&b.stream[a..a + n]);
                    }
                    let k = match o.life.origin {
                        Origin::Key(k) => k,
                        _ => [0; 4],
                    };
                    self.compared += 1;
                    let want = model::hash(&k, &d, w);
                    if recs[o.rec].1 != &want[..] {
                        return Err(format!(
                            "{}: {} bytes of width {}: {} but HighwayHash is {}",
                            name(ty),
                            d.len(),
                            64 << w,
                            hex(recs[o.rec].1),
                            hex(&want)
                        ));
                    }
                }
            }
            8 => self.compared += 1,
            9 => {
                let Some(e) = &mut self.edge else { return Ok(()) };
                // at the end; at the start or somewhere, and the other way round
                for salt in [4, 1, 183] {
                    e.salt = salt;
                    let n = run_edge(&b.prog, e, &mut self.aux);
                    self.compared += 1;
                    if self.aux[..n] != *out {
                        return Err(format!("{}: results depend on where the data is", name(ty)));
                    }
                }
            }
            18 => {
                self.compared += 1;
                if allocs != 0 {
                    return Err(format!("{}: {allocs} heap allocations", name(ty)));
                }
            }
            2..=4 | 10 | 11 => {
                if ty != P {
                    let p = build(t, i, P, &|ty| origin(i, ty));
                    let mut aux = std::mem::take(&mut self.aux);
                    aux.resize(self.out.len().max(1 << 20), 0);
                    let n = run(&p.prog, &mut aux);
                    let pr = records(&aux[..n]);
                    let mut bad = None;
                    // the two histories may differ in the number of construction steps only
                    let skew = recs.len() as isize - pr.len() as isize;
                    for (o, q) in b.obs.iter().zip(&p.obs) {
                        if matches!(o.what, What::HashOne(_) | What::Len(_)) || matches!(q.what, What::Len(_)) {
                            continue;
                        }
                        self.compared += 1;
                        if recs[o.rec] != pr[q.rec] {
                            bad = Some(format!(
                                "{} and PortableHash disagree at operation {} ({:?}): {} and {} (skew {skew})",
                                name(ty),
                                o.rec,
                                o.what,
                                hex(recs[o.rec].1),
                                hex(pr[q.rec].1)
                            ));
                            break;
                        }
                    }
                    self.aux = aux;
                    if let Some(e) = bad {
                        return Err(e);
                    }
                }
                if t.prop == 11 {
                    self.own(t, ty, b, &recs)?;
                }
            }
            _ => self.own(t, ty, b, &recs)?,
        }
        Ok(())
    }

    /// The same type through another history.
    fn own(&mut self, t: &Target, ty: u8, b: &Built, recs: &[Rec]) -> Result<(), String> {
        for o in &b.obs {
            let got = recs[o.rec];
            let concat = matches!(t.prop, 5 | 11 | 12 | 14);
            match (&o.what, t.prop) {
                (What::Len(n), _) => {
                    self.compared += 1;
                    if got.0 != R_NUM || got.1 != (*n as u64).to_le_bytes() {
                        return Err(format!("{}: a write of {n} bytes returned {} {}", name(ty), got.0, hex(got.1)));
                    }
                    continue;
                }
                (What::HashOne(k), _) => {
                    let (h, d) = got.1.split_at(8);
                    let l = Life { ty: B_AUTO, origin: Origin::Key(*k), parts: vec![], hops: 0 };
                    let mut p = vec![];
                    start(&mut p, 0, B_AUTO, &l.origin);
                    p.extend([OP_ONESHOT, 0, 0, 0]);
                    p.extend((d.len() as u32).to_le_bytes());
                    p.extend_from_slice(d);
                    self.compared += 1;
                    let want = self.refer(&p);
                    if h != &want[..] {
                        return Err(format!("hash_one gives {}, the dispatcher {}", hex(h), hex(&want)));
                    }
                    continue;
                }
                // what the checkpoint bytes are is another property
                (What::Cp, p) if p != 14 => continue,
                (w, 14) if !matches!(w, What::Cp) => continue,
                (_, 6) if o.life.hops == 0 => continue,
                _ => {}
            }
            // a dispatcher built from a key equals the dispatcher constructed with it
            let mut o2 = Obs { rec: o.rec, life: o.life.clone(), what: o.what.clone() };
            if let Origin::Build(k) = o2.life.origin {
                o2.life.origin = Origin::Key(k);
            }
            let rty = o.life.ty;
            let Some(p) = reference(t, &o2, rty, concat, &b.stream, recs) else { continue };
            let want = self.refer(&p);
            self.compared += 1;
            // a Hash value's record carries the bytes too
            let g = if got.0 == R_REC { &got.1[..8] } else { got.1 };
            if g != &want[..] {
                return Err(format!(
                    "{}: operation {} ({:?}) gives {}, the equivalent history gives {}",
                    name(rty),
                    o.rec,
                    o.what,
                    hex(g),
                    hex(&want)
                ));
            }
            if t.prop == 14 {
                if let Some(p) = reference(t, &o2, P, true, &b.stream, recs) {
                    let want = self.refer(&p);
                    self.compared += 1;
                    if g != &want[..] {
                        return Err(format!("{}: checkpoint {}, PortableHash's is {}", name(rty), hex(g), hex(&want)));
                    }
                }
                for ty in &t.types {
                    let mut p = vec![];
                    start(&mut p, 0, *ty, &Origin::Restore(g.to_vec()));
                    p.extend([OP_CHECKPOINT, 0, 0]);
                    let again = self.refer(&p);
                    self.compared += 1;
                    if g != &again[..] {
                        return Err(format!("checkpoint {} becomes {} through {}", hex(g), hex(&again), name(*ty)));
                    }
                }
            }
        }
        Ok(())
    }
}

/// For people.
pub fn describe(i: &Inp) -> String {
    const K: [&str; NKINDS as usize] = [
        "append", "finalize", "finish", "checkpoint", "restore", "clone", "debug", "flush", "one-shot", "swap", "hash-value",
        "repeat", "new", "clone_from", "hash_one",
    ];
    let how = ["new", "from_checkpoint", "default", "builder"][i.how as usize & 3];
    let o: Vec<String> = i.ops.iter().map(|s| format!("h{}.{}({}/{})", s.slot, K[s.kind as usize], s.n, s.x)).collect();
    format!(
        "{how} key=[{:#x},{:#x},{:#x},{:#x}] {}data={} bytes {}.. ops: {}",
        i.key[0],
        i.key[1],
        i.key[2],
        i.key[3],
        if i.how == 1 { format!("cp={} ", hex(&i.cp)) } else { String::new() },
        i.data.len(),
        hex(&i.data[..i.data.len().min(24)]),
        o.join(" ")
    )
}

