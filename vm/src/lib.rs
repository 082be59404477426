//! Interpreter of operation histories over the crate under test. It performs no allocation and
//! uses only the public API, so whatever it observes is attributable to the library.
#![no_std]
#[cfg(feature = "std")]
extern crate std;

pub mod ops {
    include!("ops.rs");
}
use core::fmt::Write as _;
use core::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};
pub use highway::Key;
use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, PortableHash};
use ops::*;

#[cfg(target_arch = "x86_64")]
use highway::{AvxHash, SseHash};
#[cfg(target_arch = "aarch64")]
use neon::NeonHash;
#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
use highway::WasmHash;

/// The crate gives `NeonHash` neither `Hasher` nor `io::Write`; this wrapper supplies both on top
/// of its `HighwayHash` operations so that the same histories run on every backend.
#[cfg(target_arch = "aarch64")]
mod neon {
    use highway::{HighwayHash, Key};
    #[repr(transparent)]
    #[derive(Clone, Default)]
    pub struct NeonHash(highway::NeonHash);
    impl core::fmt::Debug for NeonHash {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            core::fmt::Debug::fmt(&self.0, f)
        }
    }
    impl NeonHash {
        pub unsafe fn force_new(k: Key) -> Self {
            NeonHash(highway::NeonHash::force_new(k))
        }
        pub unsafe fn force_from_checkpoint(c: [u8; 164]) -> Self {
            NeonHash(highway::NeonHash::force_from_checkpoint(c))
        }
    }
    impl HighwayHash for NeonHash {
        fn append(&mut self, d: &[u8]) {
            HighwayHash::append(&mut self.0, d)
        }
        fn hash64(self, d: &[u8]) -> u64 {
            HighwayHash::hash64(self.0, d)
        }
        fn hash128(self, d: &[u8]) -> [u64; 2] {
            HighwayHash::hash128(self.0, d)
        }
        fn hash256(self, d: &[u8]) -> [u64; 4] {
            HighwayHash::hash256(self.0, d)
        }
        fn finalize64(self) -> u64 {
            HighwayHash::finalize64(self.0)
        }
        fn finalize128(self) -> [u64; 2] {
            HighwayHash::finalize128(self.0)
        }
        fn finalize256(self) -> [u64; 4] {
            HighwayHash::finalize256(self.0)
        }
        fn checkpoint(&self) -> [u8; 164] {
            HighwayHash::checkpoint(&self.0)
        }
    }
    impl core::hash::Hasher for NeonHash {
        fn write(&mut self, d: &[u8]) {
            HighwayHash::append(&mut self.0, d)
        }
        fn finish(&self) -> u64 {
            HighwayHash::finalize64(self.0.clone())
        }
    }
    #[cfg(feature = "std")]
    impl std::io::Write for NeonHash {
        fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
            HighwayHash::append(&mut self.0, d);
            Ok(d.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
}

/// Where data and hasher objects live. The default leaves everything in place.
pub trait Env {
    /// # Safety
    /// the returned memory must hold a copy of `data` until `unplace_data`
    unsafe fn place_data(&mut self, data: *const u8, _len: usize, _how: u8) -> *const u8 {
        data
    }
    fn unplace_data(&mut self) {}
    /// Storage for an object, or null when not supported.
    fn place_obj(&mut self, _slot: usize, _size: usize, _align: usize, _place: u8) -> *mut u8 {
        core::ptr::null_mut()
    }
    /// A private scratch region that outlives the program (used by OP_FILL).
    fn scratch(&mut self, _len: usize) -> Option<&mut [u8]> {
        None
    }
}

pub struct NoEnv;
impl Env for NoEnv {}

pub enum Slot {
    Empty,
    P(PortableHash),
    D(HighwayHasher),
    #[cfg(target_arch = "x86_64")]
    S(SseHash),
    #[cfg(target_arch = "x86_64")]
    A(AvxHash),
    #[cfg(target_arch = "aarch64")]
    N(NeonHash),
    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
    W(WasmHash),
    // objects living in env-provided storage
    QP(*mut PortableHash),
    QD(*mut HighwayHasher),
    #[cfg(target_arch = "x86_64")]
    QS(*mut SseHash),
    #[cfg(target_arch = "x86_64")]
    QA(*mut AvxHash),
    #[cfg(target_arch = "aarch64")]
    QN(*mut NeonHash),
}

pub struct Out<'a> {
    buf: &'a mut [u8],
    pos: usize,
    pub records: usize,
}

impl<'a> Out<'a> {
    pub fn new(buf: &'a mut [u8]) -> Self {
        Out { buf, pos: 0, records: 0 }
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    fn rec(&mut self, tag: u8, a: &[u8], b: &[u8]) {
        let n = a.len() + b.len();
        let end = self.pos + 5 + n;
        if end > self.buf.len() {
            // cannot happen for well-formed programs (the driver sizes them)
            return;
        }
        self.buf[self.pos] = tag;
        self.buf[self.pos + 1..self.pos + 5].copy_from_slice(&(n as u32).to_le_bytes());
        self.buf[self.pos + 5..self.pos + 5 + a.len()].copy_from_slice(a);
        self.buf[self.pos + 5 + a.len()..end].copy_from_slice(b);
        self.pos = end;
        self.records += 1;
    }
    fn ok(&mut self) {
        self.rec(R_OK, &[], &[]);
    }
    fn num(&mut self, v: u64) {
        self.rec(R_NUM, &v.to_le_bytes(), &[]);
    }
    fn words(&mut self, v: &[u64]) {
        let mut b = [0u8; 32];
        for (i, x) in v.iter().enumerate() {
            b[i * 8..i * 8 + 8].copy_from_slice(&x.to_le_bytes());
        }
        self.rec(R_BYTES, &b[..v.len() * 8], &[]);
    }
}

/// Fixed-size text sink.
struct Sink {
    buf: [u8; 3072],
    n: usize,
    /// write_str fails once more than this has been written in total
    left: usize,
}
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(core::fmt::Error);
        }
        self.left -= s.len();
        for &b in s.as_bytes() {
            if self.n < self.buf.len() {
                self.buf[self.n] = b;
                self.n += 1;
            }
        }
        Ok(())
    }
}

/// Uses hashers of its own.
#[inline(never)]
fn busy(x: u64) -> u64 {
    // (the histories of C16 may execute nothing but the portable path)
    #[cfg(not(portable_only))]
    let mut h = HighwayBuildHasher::new(Key([x, 2, 3, 4])).build_hasher();
    #[cfg(portable_only)]
    let mut h = PortableHash::new(Key([x, 2, 3, 4]));
    h.append(&[x as u8; 45]);
    let mut p = PortableHash::new(Key([x, 2, 3, 5]));
    p.append(&[x as u8; 7]);
    #[cfg(feature = "std")]
    {
        use std::io::Write;
        let _ = write!(p, "{x}:{:x}", x ^ 5);
        let _ = write!(h, "{:?}", Some(x));
    }
    let f = h.finish();
    p.append(&f.to_le_bytes());
    let c = p.clone();
    h.append(&p.finalize64().to_le_bytes());
    #[cfg(not(portable_only))]
    let mut h = if x > 64 || x % 4 == 1 {
        let b = HighwayBuildHasher::new(Key([x, 7, 3, 4]));
        let mut n = Sink { buf: [0; 3072], n: 0, left: usize::MAX };
        let _ = write!(n, "{:?}", h);
        let t = HighwayHasher::default().hash64(&n.buf[..n.n.min(90)]);
        h.append(&t.to_le_bytes());
        h = HighwayHasher::from_checkpoint(h.checkpoint());
        let a = h.clone().finalize128();
        let w = h.clone().finalize256();
        let k = b.build_hasher();
        let g = k.clone().hash256(&a[0].to_le_bytes())[3] ^ k.clone().hash64(&w[1].to_le_bytes());
        h.append(&(g ^ k.hash128(&[a[1] as u8; 33])[1]).to_le_bytes());
        h
    } else {
        h
    };
    #[cfg(portable_only)]
    let mut h = PortableHash::from_checkpoint(h.checkpoint());
    #[cfg(feature = "std")]
    let _ = std::io::Write::flush(&mut h);
    h.write_u32(x as u32);
    let q = PortableHash::from_checkpoint(h.checkpoint());
    h.finalize64() ^ c.finish() ^ q.clone().finalize128()[1] ^ q.finalize256()[2]
}
/// Displays its text in two pieces, using other hashers in between.
#[cfg(feature = "std")]
struct Busy<'a>(&'a str);
#[cfg(feature = "std")]
impl core::fmt::Display for Busy<'_> {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        let m = (0..=self.0.len() / 2).rev().find(|i| self.0.is_char_boundary(*i)).unwrap_or(0);
        f.write_str(&self.0[..m])?;
        // (now and then: a history may have many of these)
        let b = self.0.as_bytes();
        if b.len() >= 64 || b.first().map_or(0, |b| b % 4) == 0 {
            core::hint::black_box(busy(m as u64));
        }
        f.write_str(&self.0[m..])
    }
}

/// A sink that looks at the hasher being formatted and at others while it is written to.
struct Watcher<'a, H> {
    sink: Sink,
    h: &'a H,
    flags: u8,
    finish: u64,
    cp: [u8; 164],
    other: u64,
    calls: u32,
}
impl<'a, H: HighwayHash + Hasher + Clone> Watcher<'a, H> {
    fn new(h: &'a H, flags: u8, left: usize) -> Self {
        let watch = flags & D_BUSY != 0;
        Watcher {
            sink: Sink { buf: [0; 3072], n: 0, left },
            h,
            flags,
            finish: if watch { h.finish() } else { 0 },
            cp: if watch { h.checkpoint() } else { [0; 164] },
            other: if watch { busy(77) } else { 0 },
            calls: 0,
        }
    }
}
impl<H: HighwayHash + Hasher + Clone> core::fmt::Write for Watcher<'_, H> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.calls += 1;
        // often at the start, then now and then
        if self.flags & D_BUSY != 0 && (self.calls < 8 || self.calls % 16 == 0) {
            let f = self.h.finish();
            let c = self.h.checkpoint();
            let g = self.h.clone().finalize64();
            let o = busy(77);
            if self.flags & D_CHECK != 0 {
                if f != self.finish || g != self.finish || c != self.cp {
                    panic!("a hasher observed while it is formatted differs from what it was before");
                }
                if o != self.other {
                    panic!("another hasher, used while this one is formatted, gives another result");
                }
            }
        }
        let r = self.sink.write_str(s);
        #[cfg(all(feature = "std", panic = "unwind", not(miri), not(target_family = "wasm")))]
        if r.is_err() && self.flags & D_PANIC != 0 {
            std::panic::resume_unwind(std::boxed::Box::new(()));
        }
        r
    }
}

fn debug<H: HighwayHash + Hasher + Clone + core::fmt::Debug>(h: &H, alt: u8, left: usize, out: &mut Out) {
    let mut w = Watcher::new(h, alt, left);
    let go = |w: &mut Watcher<H>| match alt & 7 {
        0 => write!(w, "{:?}", h),
        1 => write!(w, "{:#?}", h),
        2 => write!(w, "{:x?}", h),
        3 => write!(w, "{:#X?}", h),
        4 => write!(w, "{:<+9.2?}", h),
        _ => write!(w, "{:>#012.40?}", h),
    };
    #[cfg(all(feature = "std", panic = "unwind", not(miri), not(target_family = "wasm")))]
    let e = if alt & D_PANIC != 0 && left != usize::MAX {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(&mut w))) {
            Ok(e) => e,
            Err(p) if p.is::<()>() => Err(core::fmt::Error),
            Err(p) => std::panic::resume_unwind(p),
        }
    } else {
        go(&mut w)
    };
    #[cfg(not(all(feature = "std", panic = "unwind", not(miri), not(target_family = "wasm"))))]
    let e = go(&mut w);
    match e {
        Ok(()) => out.rec(R_TEXT, &w.sink.buf[..w.sink.n], &[]),
        Err(_) => out.rec(R_ERR, &[], &[]),
    }
}

/// Records exactly the bytes a `Hash` impl feeds to `Hasher::write` (all other `write_*` methods
/// keep their default, which forwards native bytes to `write`).
struct Recorder {
    buf: [u8; MAX_REC],
    n: usize,
}
impl Hasher for Recorder {
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            if self.n < self.buf.len() {
                self.buf[self.n] = b;
                self.n += 1;
            }
        }
    }
    fn finish(&self) -> u64 {
        0
    }
}

struct Rd<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> Rd<'a> {
    fn u8(&mut self) -> u8 {
        let v = self.d[self.p];
        self.p += 1;
        v
    }
    fn take(&mut self, n: usize) -> &'a [u8] {
        let v = &self.d[self.p..self.p + n];
        self.p += n;
        v
    }
    fn u32(&mut self) -> u32 {
        let b = self.take(4);
        u32::from_le_bytes([b[0], b[1], b[2], b[3]])
    }
    fn u64(&mut self) -> u64 {
        let b = self.take(8);
        u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
    }
    fn key(&mut self) -> Key {
        Key([self.u64(), self.u64(), self.u64(), self.u64()])
    }
    fn cp(&mut self) -> [u8; 164] {
        let mut c = [0u8; 164];
        c.copy_from_slice(self.take(164));
        c
    }
}

/// Deterministic byte expansion, identical in the driver.
pub fn expand(seed: u64, out: &mut [u8]) {
    let mut x = seed ^ 0x9e37_79b9_7f4a_7c15;
    for b in out.iter_mut() {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *b = (x.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 56) as u8;
    }
}

fn hash_value<H: Hasher>(kind: u8, d: &[u8], h: &mut H) {
    let mut w = [0u8; 16];
    let n = d.len().min(16);
    w[..n].copy_from_slice(&d[..n]);
    let x = u128::from_le_bytes(w);
    match kind {
        0 => (x as u8).hash(h),
        1 => (x as u16).hash(h),
        2 => (x as u32).hash(h),
        3 => (x as u64).hash(h),
        4 => x.hash(h),
        5 => (x as usize).hash(h),
        6 => (x as i8).hash(h),
        7 => (x as i16).hash(h),
        8 => (x as i32).hash(h),
        9 => (x as i64).hash(h),
        10 => (x as i128).hash(h),
        11 => (x as isize).hash(h),
        12 => (x & 1 == 1).hash(h),
        13 => char::from_u32((x as u32) % 0xd800).unwrap_or('x').hash(h),
        14 => core::str::from_utf8(d).unwrap_or("not utf8").hash(h),
        15 => d.hash(h),
        16 => (x as u32, core::str::from_utf8(d).unwrap_or("?"), x as i8).hash(h),
        17 => (if x & 1 == 0 { None } else { Some(x as u64) }).hash(h),
        18 => [(x as u16), (x >> 16) as u16, (x >> 32) as u16][..(x as usize & 3).min(3)].hash(h),
        19 => ().hash(h),
        20 => [x as u64, (x >> 64) as u64].hash(h),
        21 => {
            // direct calls of the integer entry points
            h.write_u8(x as u8);
            h.write_u16(x as u16);
            h.write_u32(x as u32);
            h.write_u64(x as u64);
            h.write_u128(x);
            h.write_usize(x as usize);
            h.write_i8(x as i8);
            h.write_i16(x as i16);
            h.write_i32(x as i32);
            h.write_i64(x as i64);
            h.write_i128(x as i128);
            h.write_isize(x as isize);
        }
        22 => (d, x as u32, d).hash(h),
        _ => {
            // a value whose hashing uses hashers of its own
            h.write(d);
            core::hint::black_box(busy(x as u64));
            h.write_u64(x as u64);
            core::hint::black_box(busy(!x as u64));
            d.hash(h);
        }
    }
}
pub const N_KINDS: u8 = 24;

/// A value that hashes as `hash_value(kind, d)`.
struct Val<'a>(u8, &'a [u8]);
impl Hash for Val<'_> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        hash_value(self.0, self.1, h)
    }
}

fn do_append<H>(h: &mut H, api: u8, data: &[u8], out: &mut Out)
where
    H: HighwayHash + Hasher + MaybeWrite,
{
    match api {
        A_APPEND => {
            h.append(data);
            out.ok()
        }
        A_HASHER => {
            Hasher::write(h, data);
            out.ok()
        }
        A_DYN => {
            let d: &mut dyn Hasher = h;
            d.write(data);
            out.ok()
        }
        _ => h.w(api, data, out),
    }
}

pub trait MaybeWrite {
    fn w(&mut self, api: u8, data: &[u8], out: &mut Out);
    fn fl(&mut self, out: &mut Out);
}

#[cfg(feature = "std")]
trait Vectored: std::io::Write {
    /// one call with 2 to N - 1 slices that are `rest` together, and perhaps another empty one
    fn vectored<const N: usize>(&mut self, rest: &[u8], seed: u64) -> std::io::Result<usize> {
        let k = match N {
            10 => 2 + rest.len() % 8,
            _ => N - 1 - (seed >> 40) as usize % (N / 2),
        };
        let mut bufs = [std::io::IoSlice::new(&[]); N];
        let (mut left, mut x) = (rest, rest.len() as u64 ^ rest[0] as u64);
        for (i, b) in bufs.iter_mut().enumerate().take(k) {
            x = x.wrapping_mul(0x2545_f491_4f6c_dd1d).rotate_left(23) ^ rest[0] as u64;
            // many slices share the data more evenly
            let most = if N == 10 || x >> 57 & 15 == 0 { left.len() } else { left.len() / (k - i) * 2 + 1 };
            let n = match x >> 61 {
                _ if i + 1 == k => left.len(),
                0 => 0,
                1 => left.len().min(32).min(most + 31),
                2..=4 => left.len().min((x >> 32) as usize % 40 % (most + 1)),
                _ => left.len().min((x >> 32) as usize % (most + 1)),
            };
            let (a, c) = left.split_at(n);
            *b = std::io::IoSlice::new(a);
            left = c;
        }
        let n = k + (x >> 7 & 1) as usize;
        self.write_vectored(&bufs[..n.min(N)])
    }
}
#[cfg(feature = "std")]
impl<T: std::io::Write> Vectored for T {}

#[cfg(feature = "std")]
impl<T: std::io::Write + HighwayHash> MaybeWrite for T {
    fn w(&mut self, api: u8, data: &[u8], out: &mut Out) {
        use std::io::Write;
        let r: std::io::Result<u64> = match api {
            A_WRITE => self.write(data).map(|n| n as u64),
            A_WRITE_ALL => self.write_all(data).map(|_| data.len() as u64),
            A_COPY => {
                let mut rd = data;
                std::io::copy(&mut rd, self)
            }
            A_VECTORED => {
                // loop as a caller has to: advance by the reported count
                let mut rest = data;
                let mut total = 0u64;
                let mut res = Ok(());
                let mut spins = 0;
                if rest.is_empty() {
                    let none = [std::io::IoSlice::new(&[]); 3];
                    for n in 0..4 {
                        match self.write_vectored(&none[..n]) {
                            Ok(n) => total += n as u64,
                            Err(e) => res = Err(e),
                        }
                    }
                }
                while !rest.is_empty() {
                    // mostly 2 to 9 slices, sometimes up to 70 or more than the 1024 a system call
                    // takes, some of them empty; where they are cut depends on the data
                    let x = (rest.len() as u64 ^ (rest[0] as u64) << 9).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                    let r = match x >> 58 {
                        0 => self.vectored::<1060>(rest, x),
                        1..=12 => self.vectored::<71>(rest, x),
                        _ => self.vectored::<10>(rest, x),
                    };
                    match r {
                        Ok(n) => {
                            total += n as u64;
                            rest = rest.get(n..).unwrap_or(&[]);
                            spins = if n == 0 { spins + 1 } else { 0 };
                            if spins > 3 {
                                break;
                            }
                        }
                        Err(e) => {
                            res = Err(e);
                            break;
                        }
                    }
                }
                res.map(|_| total)
            }
            A_BYREF => {
                let d: &mut dyn Write = self;
                d.write(data).map(|n| n as u64)
            }
            A_FMT | A_FMT_PLAIN => match core::str::from_utf8(data) {
                Ok(s) => {
                    // in pieces, by a value that uses other hashers while it is formatted
                    let cut = |n: usize| (0..=n).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
                    let (a, b) = (cut(data.len() / 3), cut(data.len() / 2));
                    if api == A_FMT {
                        write!(self, "{}{}{}", &s[..a], Busy(&s[a..b]), &s[b..]).map(|_| data.len() as u64)
                    } else {
                        write!(self, "{}{}{}", &s[..a], &s[a..b], &s[b..]).map(|_| data.len() as u64)
                    }
                }
                Err(_) => self.write(data).map(|n| n as u64),
            },
            _ => {
                self.append(data);
                Ok(data.len() as u64)
            }
        };
        match r {
            Ok(n) => out.num(n),
            Err(_) => out.rec(R_ERR, &[], &[]),
        }
    }
    fn fl(&mut self, out: &mut Out) {
        match std::io::Write::flush(self) {
            Ok(()) => out.ok(),
            Err(_) => out.rec(R_ERR, &[], &[]),
        }
    }
}

#[cfg(not(feature = "std"))]
impl<T: HighwayHash> MaybeWrite for T {
    fn w(&mut self, _api: u8, data: &[u8], out: &mut Out) {
        self.append(data);
        out.num(data.len() as u64)
    }
    fn fl(&mut self, out: &mut Out) {
        out.ok()
    }
}

macro_rules! with {
    ($slot:expr, $out:expr, $h:ident => $e:expr) => {
        match $slot {
            Slot::Empty => $out.rec(R_EMPTY, &[], &[]),
            Slot::P($h) => $e,
            Slot::D($h) => $e,
            #[cfg(target_arch = "x86_64")]
            Slot::S($h) => $e,
            #[cfg(target_arch = "x86_64")]
            Slot::A($h) => $e,
            #[cfg(target_arch = "aarch64")]
            Slot::N($h) => $e,
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            Slot::W($h) => $e,
            Slot::QP(p) => {
                let $h = unsafe { &mut **p };
                $e
            }
            Slot::QD(p) => {
                let $h = unsafe { &mut **p };
                $e
            }
            #[cfg(target_arch = "x86_64")]
            Slot::QS(p) => {
                let $h = unsafe { &mut **p };
                $e
            }
            #[cfg(target_arch = "x86_64")]
            Slot::QA(p) => {
                let $h = unsafe { &mut **p };
                $e
            }
            #[cfg(target_arch = "aarch64")]
            Slot::QN(p) => {
                let $h = unsafe { &mut **p };
                $e
            }
        }
    };
}

/// Whether the type of the hasher may be shared between threads.
fn shareable(s: &Slot) -> bool {
    struct Is<T>(core::marker::PhantomData<T>);
    trait No {
        const SYNC: bool = false;
    }
    impl<T> No for Is<T> {}
    #[allow(dead_code)]
    impl<T: Sync> Is<T> {
        const SYNC: bool = true;
    }
    match s {
        Slot::P(_) => Is::<PortableHash>::SYNC,
        Slot::D(_) => Is::<HighwayHasher>::SYNC,
        #[cfg(target_arch = "x86_64")]
        Slot::S(_) => Is::<SseHash>::SYNC,
        #[cfg(target_arch = "x86_64")]
        Slot::A(_) => Is::<AvxHash>::SYNC,
        #[cfg(target_arch = "aarch64")]
        Slot::N(_) => Is::<NeonHash>::SYNC,
        _ => false,
    }
}

trait IntoSlot: Sized {
    fn slot(self) -> Slot;
    fn placed(p: *mut Self) -> Slot;
}
macro_rules! into_slot {
    ($t:ty, $v:ident, $q:ident) => {
        impl IntoSlot for $t {
            fn slot(self) -> Slot {
                Slot::$v(self)
            }
            fn placed(p: *mut Self) -> Slot {
                Slot::$q(p)
            }
        }
    };
}
into_slot!(PortableHash, P, QP);
into_slot!(HighwayHasher, D, QD);
#[cfg(target_arch = "x86_64")]
into_slot!(SseHash, S, QS);
#[cfg(target_arch = "x86_64")]
into_slot!(AvxHash, A, QA);
#[cfg(target_arch = "aarch64")]
into_slot!(NeonHash, N, QN);
#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
impl IntoSlot for WasmHash {
    fn slot(self) -> Slot {
        Slot::W(self)
    }
    fn placed(_: *mut Self) -> Slot {
        Slot::Empty
    }
}

fn construct(backend: u8, key: Key) -> Option<Slot> {
    match backend {
        B_PORTABLE => Some(Slot::P(PortableHash::new(key))),
        B_AUTO => Some(Slot::D(HighwayHasher::new(key))),
        #[cfg(target_arch = "x86_64")]
        B_SSE => SseHash::new(key).map(Slot::S),
        #[cfg(target_arch = "x86_64")]
        B_AVX => AvxHash::new(key).map(Slot::A),
        #[cfg(target_arch = "x86_64")]
        B_SSE_FORCE => Some(Slot::S(unsafe { SseHash::force_new(key) })),
        #[cfg(target_arch = "x86_64")]
        B_AVX_FORCE => Some(Slot::A(unsafe { AvxHash::force_new(key) })),
        #[cfg(target_arch = "aarch64")]
        B_NEON => Some(Slot::N(unsafe { NeonHash::force_new(key) })),
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        B_WASM => Some(Slot::W(WasmHash::new(key))),
        _ => None,
    }
}

fn restore(backend: u8, c: [u8; 164]) -> Option<Slot> {
    match backend {
        B_PORTABLE => Some(Slot::P(PortableHash::from_checkpoint(c))),
        B_AUTO => Some(Slot::D(HighwayHasher::from_checkpoint(c))),
        #[cfg(target_arch = "x86_64")]
        B_SSE => SseHash::from_checkpoint(c).map(Slot::S),
        #[cfg(target_arch = "x86_64")]
        B_AVX => AvxHash::from_checkpoint(c).map(Slot::A),
        #[cfg(target_arch = "x86_64")]
        B_SSE_FORCE => Some(Slot::S(unsafe { SseHash::force_from_checkpoint(c) })),
        #[cfg(target_arch = "x86_64")]
        B_AVX_FORCE => Some(Slot::A(unsafe { AvxHash::force_from_checkpoint(c) })),
        #[cfg(target_arch = "aarch64")]
        B_NEON => Some(Slot::N(unsafe { NeonHash::force_from_checkpoint(c) })),
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        B_WASM => Some(Slot::W(WasmHash::from_checkpoint(c))),
        _ => None,
    }
}

fn defaulted<T: Default + Hasher + IntoSlot>(how: u8, mk: impl Fn() -> Option<T>) -> Option<Slot> {
    Some(match how {
        0 => T::default().slot(),
        1 => BuildHasherDefault::<T>::default().build_hasher().slot(),
        _ => {
            // mem::take leaves a default value behind in a live hasher
            let mut t = mk()?;
            t.write(b"some bytes that are dropped");
            drop(core::mem::take(&mut t));
            t.slot()
        }
    })
}

fn default_slot(backend: u8, how: u8) -> Option<Slot> {
    let k = || Key([11, 22, 33, 44]);
    match backend {
        B_PORTABLE => defaulted(how, || Some(PortableHash::new(k()))),
        B_AUTO => match how {
            3 => Some(Slot::D(HighwayBuildHasher::default().build_hasher())),
            4 => Some(Slot::D(HighwayBuildHasher::new(Key::default()).build_hasher())),
            _ => defaulted(how, || Some(HighwayHasher::new(k()))),
        },
        #[cfg(target_arch = "x86_64")]
        B_SSE | B_SSE_FORCE => defaulted(how, || Some(unsafe { SseHash::force_new(k()) })),
        #[cfg(target_arch = "x86_64")]
        B_AVX | B_AVX_FORCE => defaulted(how, || Some(unsafe { AvxHash::force_new(k()) })),
        #[cfg(target_arch = "aarch64")]
        B_NEON => defaulted(how, || Some(unsafe { NeonHash::force_new(k()) })),
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        B_WASM => defaulted(how, || Some(WasmHash::new(k()))),
        _ => None,
    }
}

fn fin<H: HighwayHash>(h: H, width: u8, out: &mut Out) {
    match width {
        0 => out.words(&[h.finalize64()]),
        1 => out.words(&h.finalize128()),
        _ => out.words(&h.finalize256()),
    }
}

fn oneshot<H: HighwayHash>(h: H, width: u8, d: &[u8], out: &mut Out) {
    match width {
        0 => out.words(&[h.hash64(d)]),
        1 => out.words(&h.hash128(d)),
        _ => out.words(&h.hash256(d)),
    }
}

trait Consume {
    fn go<H: HighwayHash>(self, h: H, out: &mut Out);
}
struct Fin(u8);
impl Consume for Fin {
    fn go<H: HighwayHash>(self, h: H, out: &mut Out) {
        fin(h, self.0, out)
    }
}
struct One<'a>(u8, &'a [u8]);
impl Consume for One<'_> {
    fn go<H: HighwayHash>(self, h: H, out: &mut Out) {
        oneshot(h, self.0, self.1, out)
    }
}

/// Take the hasher by value out of its slot and hand it to `c`.
fn consume<C: Consume>(s: &mut Slot, c: C, out: &mut Out) {
    match core::mem::replace(s, Slot::Empty) {
        Slot::Empty => out.rec(R_EMPTY, &[], &[]),
        Slot::P(h) => c.go(h, out),
        Slot::D(h) => c.go(h, out),
        #[cfg(target_arch = "x86_64")]
        Slot::S(h) => c.go(h, out),
        #[cfg(target_arch = "x86_64")]
        Slot::A(h) => c.go(h, out),
        #[cfg(target_arch = "aarch64")]
        Slot::N(h) => c.go(h, out),
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        Slot::W(h) => c.go(h, out),
        Slot::QP(p) => c.go(unsafe { core::ptr::read(p) }, out),
        Slot::QD(p) => c.go(unsafe { core::ptr::read(p) }, out),
        #[cfg(target_arch = "x86_64")]
        Slot::QS(p) => c.go(unsafe { core::ptr::read(p) }, out),
        #[cfg(target_arch = "x86_64")]
        Slot::QA(p) => c.go(unsafe { core::ptr::read(p) }, out),
        #[cfg(target_arch = "aarch64")]
        Slot::QN(p) => c.go(unsafe { core::ptr::read(p) }, out),
    }
}

fn place<T: IntoSlot, E: Env>(v: T, i: usize, wh: u8, env: &mut E) -> Slot {
    let p = env.place_obj(i, core::mem::size_of::<T>(), core::mem::align_of::<T>(), wh);
    if p.is_null() {
        return v.slot();
    }
    let p = p.cast::<T>();
    unsafe { core::ptr::write(p, v) };
    T::placed(p)
}

fn relocate<E: Env>(s: Slot, i: usize, wh: u8, env: &mut E) -> Slot {
    match s {
        Slot::Empty => Slot::Empty,
        Slot::P(h) => place(h, i, wh, env),
        Slot::D(h) => place(h, i, wh, env),
        #[cfg(target_arch = "x86_64")]
        Slot::S(h) => place(h, i, wh, env),
        #[cfg(target_arch = "x86_64")]
        Slot::A(h) => place(h, i, wh, env),
        #[cfg(target_arch = "aarch64")]
        Slot::N(h) => place(h, i, wh, env),
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        Slot::W(h) => Slot::W(h),
        Slot::QP(p) => place(unsafe { core::ptr::read(p) }, i, wh, env),
        Slot::QD(p) => place(unsafe { core::ptr::read(p) }, i, wh, env),
        #[cfg(target_arch = "x86_64")]
        Slot::QS(p) => place(unsafe { core::ptr::read(p) }, i, wh, env),
        #[cfg(target_arch = "x86_64")]
        Slot::QA(p) => place(unsafe { core::ptr::read(p) }, i, wh, env),
        #[cfg(target_arch = "aarch64")]
        Slot::QN(p) => place(unsafe { core::ptr::read(p) }, i, wh, env),
    }
}

pub struct Vm {
    slots: [Slot; NSLOTS],
    regs: [Option<[u8; 164]>; NREGS],
    builders: [Bld; NBUILD],
    /// upper bound of the iterations of loops that are both stable and blind (their record does
    /// not depend on the number)
    pub cap: u32,
    /// data that is not placed anywhere is first copied here, so that one address gives many contents
    staged: bool,
    stage: [u8; STAGE],
    /// flags and index of the current iteration of a varying loop
    vary: Option<(u8, u64)>,
    /// its data has been varied
    varied: bool,
}

const STAGE: usize = 2048;
impl Vm {
    fn key(&self, r: &mut Rd) -> Key {
        let mut k = r.key();
        if let Some((f, i)) = self.vary {
            vary_key(&mut k.0, f, i);
        }
        k
    }
}
/// The data as the operation has to see it.
fn staged<'a>(on: bool, to: &'a mut [u8; STAGE], vary: Option<(u8, u64)>, varied: &mut bool, d: &'a [u8], how: u8) -> &'a [u8] {
    let vary = vary.filter(|_| !*varied);
    match to.get_mut(..d.len()) {
        Some(t) if (on || vary.is_some()) && how == 0 => {
            t.copy_from_slice(d);
            if let Some((f, i)) = vary {
                vary_data(t, f, i);
                *varied = true;
            }
            t
        }
        _ => d,
    }
}

/// A builder owned by the vm or one shared with other vms (threads).
pub enum Bld {
    None,
    Own(HighwayBuildHasher),
    Shared(*const HighwayBuildHasher),
}
impl Bld {
    fn get(&self) -> Option<&HighwayBuildHasher> {
        match self {
            Bld::None => None,
            Bld::Own(b) => Some(b),
            Bld::Shared(p) => Some(unsafe { &**p }),
        }
    }
}
// the worker hands a vm from thread to thread, one owner at a time
unsafe impl Send for Vm {}

impl Default for Vm {
    fn default() -> Self {
        Vm {
            slots: [const { Slot::Empty }; NSLOTS],
            regs: [None; NREGS],
            builders: [const { Bld::None }; NBUILD],
            cap: u32::MAX,
            staged: false,
            stage: [0; STAGE],
            vary: None,
            varied: false,
        }
    }
}

impl Vm {
    fn set(&mut self, i: usize, s: Option<Slot>, out: &mut Out) {
        match s {
            Some(s) => {
                self.slots[i] = s;
                out.ok()
            }
            None => {
                self.slots[i] = Slot::Empty;
                out.rec(R_UNAVAIL, &[], &[])
            }
        }
    }

    /// Installs a builder that is shared with other vms as builder register `i`.
    ///
    /// # Safety
    /// `b` must outlive the vm
    pub unsafe fn share_builder(&mut self, i: usize, b: *const HighwayBuildHasher) {
        self.builders[i] = Bld::Shared(b);
    }

    /// Digests of what `rounds` rounds of observers see of every hasher whose type is Sync; called
    /// from several threads at once through one reference.
    pub fn observe(&self, salt: u32, rounds: u32) -> Result<u64, u32> {
        let mut all = 0u64;
        for i in 0..rounds {
            let mut d = 0xcbf2_9ce4_8422_2325u64;
            for (n, s) in self.slots.iter().enumerate() {
                if !matches!(s, Slot::Empty) && shareable(s) {
                    let mut buf = [0u8; 4096];
                    let mut out = Out::new(&mut buf);
                    // every thread in an order of its own
                    let mut seen = [0u64; 6];
                    for k in 0..6 {
                        let k = (k + i + salt + n as u32) % 6;
                        out.pos = 0;
                        match k {
                            0 => with!(s, out, h => out.num(Hasher::finish(&*h))),
                            1 => with!(s, out, h => out.rec(R_BYTES, &(*h).checkpoint(), &[])),
                            2 => with!(s, out, h => fin((*h).clone(), 1, &mut out)),
                            3 => with!(s, out, h => fin((*h).clone(), 2, &mut out)),
                            4 => with!(s, out, h => debug(&*h, i as u8 & 1, usize::MAX, &mut out)),
                            _ => with!(s, out, h => {
                                let mut c = (*h).clone();
                                c.append(&[k as u8; 77]);
                                fin(c, 0, &mut out)
                            }),
                        }
                        let n = out.pos();
                        let mut x = 0x1234_5678u64;
                        if k != 4 {
                            for b in &out.buf[..n] {
                                x = (x ^ *b as u64).wrapping_mul(0x100_0000_01b3);
                            }
                        }
                        seen[k as usize] = x;
                    }
                    for x in seen {
                        d = (d ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
                    }
                }
            }
            if i == 0 {
                all = d;
            } else if all != d {
                return Err(i);
            }
        }
        Ok(all)
    }

    /// Runs the operation at `pos`, returns the position of the next one.
    pub fn run_one<E: Env>(&mut self, prog: &[u8], pos: usize, env: &mut E, out: &mut Out) -> usize {
        let mut r = Rd { d: prog, p: pos };
        self.step(&mut r, env, out);
        r.p
    }

    /// Runs a whole program; one record per op. OP_STAGE at its start is not an op.
    pub fn run<E: Env>(&mut self, prog: &[u8], env: &mut E, out: &mut Out) {
        let mut r = Rd { d: prog, p: 0 };
        if prog.first() == Some(&OP_STAGE) {
            self.staged = true;
            r.p = 1;
        }
        while r.p < prog.len() {
            self.step(&mut r, env, out);
        }
    }

    #[inline(never)]
    fn repeat<E: Env>(&mut self, body: &[u8], flags: u8, times: u32, env: &mut E, out: &mut Out) {
        let mut buf = [0u8; 8192];
        let (mut all, mut first) = (0u64, 0u64);
        let times = if flags & (L_STABLE | L_BLIND) == L_STABLE | L_BLIND { times.min(self.cap) } else { times };
        for i in 0..times {
            let mut o = Out::new(&mut buf);
            if flags & L_VARY != 0 {
                let i = vary_index(flags, i, times);
                self.vary = Some((flags, i));
                self.varied = false;
                self.run(body, env, &mut o);
                let (n, mut p, mut last) = (o.pos(), 0, 0);
                while p + 5 <= n {
                    last = p;
                    p += 5 + u32::from_le_bytes([buf[p + 1], buf[p + 2], buf[p + 3], buf[p + 4]]) as usize;
                }
                all = all.wrapping_add(vary_digest(&buf[last..n], i));
                self.vary = None;
                continue;
            }
            self.run(body, env, &mut o);
            let n = o.pos();
            let mut d = 0xcbf2_9ce4_8422_2325u64;
            let mut c = buf[..n].chunks_exact(8);
            for w in &mut c {
                let w = u64::from_le_bytes([w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]]);
                d = (d ^ w).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
            }
            for b in c.remainder() {
                d = (d ^ *b as u64).wrapping_mul(0x100_0000_01b3);
            }
            if i == 0 {
                first = d;
            }
            if flags & L_STABLE != 0 && d != first {
                // which iteration was the first to differ
                return out.rec(R_ERR, &i.to_le_bytes(), &[]);
            }
            all = (all ^ d).wrapping_mul(0x2545_f491_4f6c_dd1d).rotate_left(23);
        }
        out.num(if flags & L_BLIND == 0 { all } else { 0 })
    }

    fn step<E: Env>(&mut self, r: &mut Rd, env: &mut E, out: &mut Out) {
        match r.u8() {
            OP_NEW => {
                let (s, b, k) = (r.u8() as usize, r.u8(), self.key(r));
                let v = construct(b, k);
                self.set(s, v, out)
            }
            OP_DEFAULT => {
                let (s, b, how) = (r.u8() as usize, r.u8(), r.u8());
                let v = default_slot(b, how);
                self.set(s, v, out)
            }
            OP_RESTORE => {
                let (s, b, mut c) = (r.u8() as usize, r.u8(), r.cp());
                if let Some((f, i)) = self.vary {
                    for l in c[..128].chunks_exact_mut(32) {
                        let mut k = [0u64; 4];
                        for (k, b) in k.iter_mut().zip(l.chunks_exact(8)) {
                            *k = u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
                        }
                        vary_key(&mut k, f, i);
                        for (k, b) in k.iter().zip(l.chunks_exact_mut(8)) {
                            b.copy_from_slice(&k.to_le_bytes());
                        }
                    }
                }
                let v = restore(b, c);
                self.set(s, v, out)
            }
            OP_RESTORE_REG => {
                let (s, b, g) = (r.u8() as usize, r.u8(), r.u8() as usize);
                let v = self.regs[g].and_then(|c| restore(b, c));
                self.set(s, v, out)
            }
            OP_APPEND => {
                let (s, api, how) = (r.u8() as usize, r.u8(), r.u8());
                let n = r.u32() as usize;
                let d = r.take(n);
                let p = unsafe { env.place_data(d.as_ptr(), n, how) };
                let d = unsafe { core::slice::from_raw_parts(p, n) };
                let d = staged(self.staged, &mut self.stage, self.vary, &mut self.varied, d, how);
                with!(&mut self.slots[s], out, h => do_append(h, api, d, out));
                env.unplace_data();
            }
            OP_FILL => {
                let (s, api) = (r.u8() as usize, r.u8());
                let seed = r.u64();
                let n = r.u32() as usize;
                match env.scratch(n) {
                    Some(buf) => {
                        expand(seed, buf);
                        let d: &[u8] = buf;
                        with!(&mut self.slots[s], out, h => do_append(h, api, d, out));
                    }
                    None => out.rec(R_UNAVAIL, &[], &[]),
                }
            }
            OP_FIN => {
                let (s, w) = (r.u8() as usize, r.u8());
                consume(&mut self.slots[s], Fin(w), out)
            }
            OP_ONESHOT => {
                let (s, w, how) = (r.u8() as usize, r.u8(), r.u8());
                let n = r.u32() as usize;
                let d = r.take(n);
                let p = unsafe { env.place_data(d.as_ptr(), n, how) };
                let d = unsafe { core::slice::from_raw_parts(p, n) };
                let d = staged(self.staged, &mut self.stage, self.vary, &mut self.varied, d, how);
                consume(&mut self.slots[s], One(w, d), out);
                env.unplace_data();
            }
            OP_FINISH => {
                let s = r.u8() as usize;
                with!(&self.slots[s], out, h => out.num(Hasher::finish(&*h)))
            }
            OP_CLONE => {
                let (a, b) = (r.u8() as usize, r.u8() as usize);
                let mut n = Slot::Empty;
                with!(&self.slots[a], out, h => {
                    n = (*h).clone().slot();
                    out.ok()
                });
                self.slots[b] = n;
            }
            OP_CLONEFROM => {
                // overwrite an existing value through Clone::clone_from when the types agree
                let (a, b) = (r.u8() as usize, r.u8() as usize);
                if a == b {
                    out.ok();
                    return;
                }
                let mut dst = core::mem::replace(&mut self.slots[b], Slot::Empty);
                match (&self.slots[a], &mut dst) {
                    (Slot::P(x), Slot::P(y)) => y.clone_from(x),
                    (Slot::D(x), Slot::D(y)) => y.clone_from(x),
                    #[cfg(target_arch = "x86_64")]
                    (Slot::S(x), Slot::S(y)) => y.clone_from(x),
                    #[cfg(target_arch = "x86_64")]
                    (Slot::A(x), Slot::A(y)) => y.clone_from(x),
                    #[cfg(target_arch = "aarch64")]
                    (Slot::N(x), Slot::N(y)) => y.clone_from(x),
                    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
                    (Slot::W(x), Slot::W(y)) => y.clone_from(x),
                    (x, _) => {
                        let mut n = Slot::Empty;
                        let mut o2 = [0u8; 8];
                        let mut o2 = Out::new(&mut o2);
                        with!(x, o2, h => n = (*h).clone().slot());
                        dst = n;
                    }
                }
                self.slots[b] = dst;
                out.ok();
            }
            OP_CHECKPOINT => {
                let (s, g) = (r.u8() as usize, r.u8() as usize);
                let regs = &mut self.regs;
                with!(&self.slots[s], out, h => {
                    let c = (*h).checkpoint();
                    regs[g] = Some(c);
                    out.rec(R_BYTES, &c, &[])
                })
            }
            OP_DEBUG => {
                let (s, alt) = (r.u8() as usize, r.u8());
                let cap = r.u8() as usize | (r.u8() as usize) << 8;
                let left = if cap == 0xffff { usize::MAX } else { cap };
                with!(&self.slots[s], out, h => debug(&*h, alt, left, out))
            }
            OP_FLUSH => {
                let s = r.u8() as usize;
                with!(&mut self.slots[s], out, h => h.fl(out))
            }
            OP_DROP => {
                let s = r.u8() as usize;
                // objects in env storage have no drop glue that matters; drop owned ones
                self.slots[s] = Slot::Empty;
                out.ok()
            }
            OP_FINCLONE => {
                let (s, w) = (r.u8() as usize, r.u8());
                with!(&self.slots[s], out, h => fin((*h).clone(), w, out))
            }
            OP_SWAP => {
                let (a, b) = (r.u8() as usize, r.u8() as usize);
                self.slots.swap(a, b);
                out.ok()
            }
            OP_HASHVAL => {
                let (s, k) = (r.u8() as usize, r.u8());
                let n = r.u32() as usize;
                let d = r.take(n);
                let mut rec = Recorder { buf: [0; MAX_REC], n: 0 };
                Val(k, d).hash(&mut rec);
                with!(&mut self.slots[s], out, h => {
                    Val(k, d).hash(h);
                    out.rec(R_REC, &Hasher::finish(&*h).to_le_bytes(), &rec.buf[..rec.n])
                })
            }
            OP_BNEW => {
                let (b, k) = (r.u8() as usize, self.key(r));
                self.builders[b] = Bld::Own(HighwayBuildHasher::new(k));
                out.ok()
            }
            OP_BDEFAULT => {
                let b = r.u8() as usize;
                self.builders[b] = Bld::Own(HighwayBuildHasher::default());
                out.ok()
            }
            OP_BBUILD => {
                let (s, b) = (r.u8() as usize, r.u8() as usize);
                let v = self.builders[b].get().map(|b| Slot::D(b.build_hasher()));
                self.set(s, v, out)
            }
            OP_HASHONE => {
                let (b, k) = (r.u8() as usize, r.u8());
                let n = r.u32() as usize;
                let d = r.take(n);
                let mut rec = Recorder { buf: [0; MAX_REC], n: 0 };
                Val(k, d).hash(&mut rec);
                match self.builders[b].get() {
                    Some(b) => {
                        let v = b.hash_one(Val(k, d));
                        out.rec(R_REC, &v.to_le_bytes(), &rec.buf[..rec.n])
                    }
                    None => out.rec(R_EMPTY, &[], &[]),
                }
            }
            OP_LOOP => {
                let flags = r.u8();
                let times = r.u32();
                let n = r.u32() as usize;
                let body = r.take(n);
                self.repeat(body, flags, times, env, out)
            }
            OP_PLACE => {
                let (s, wh) = (r.u8() as usize, r.u8());
                let v = core::mem::replace(&mut self.slots[s], Slot::Empty);
                self.slots[s] = relocate(v, s, wh, env);
                out.ok()
            }
            _ => out.rec(R_ERR, &[], &[]),
        }
    }
}

/// One line describing the build, so that the driver never has to guess.
pub fn info(out: &mut Out) {
    let mut s = Sink { buf: [0; 3072], n: 0, left: usize::MAX };
    let (sse, avx) = detected();
    let _ = write!(
        s,
        "ptr={} be={} std={} dbg={} sse_cfg={} avx_cfg={} sse_det={} avx_det={}",
        core::mem::size_of::<usize>() * 8,
        cfg!(target_endian = "big") as u8,
        cfg!(feature = "std") as u8,
        cfg!(debug_assertions) as u8,
        cfg!(target_feature = "sse4.1") as u8,
        cfg!(target_feature = "avx2") as u8,
        sse as u8,
        avx as u8
    );
    out.rec(R_TEXT, &s.buf[..s.n], &[]);
}

/// Raw CPUID-based detection done by the vm itself (independent of the crate and its features).
#[cfg(target_arch = "x86_64")]
fn detected() -> (bool, bool) {
    use core::arch::x86_64::*;
    #[cfg(miri)]
    return (cfg!(target_feature = "sse4.1"), cfg!(target_feature = "avx2"));
    #[cfg(not(miri))]
    #[allow(unused_unsafe)]
    unsafe {
        let max = __cpuid(0).eax;
        let c1 = __cpuid(1);
        let sse41 = c1.ecx & (1 << 19) != 0;
        let osxsave = c1.ecx & (1 << 27) != 0;
        let avx = c1.ecx & (1 << 28) != 0;
        let mut avx2 = false;
        if max >= 7 && osxsave && avx {
            let (lo, hi): (u32, u32);
            core::arch::asm!("xgetbv", in("ecx") 0u32, out("eax") lo, out("edx") hi);
            let _ = hi;
            if lo & 6 == 6 {
                avx2 = __cpuid_count(7, 0).ebx & (1 << 5) != 0;
            }
        }
        (sse41, avx2)
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn detected() -> (bool, bool) {
    (false, false)
}

/// Period of the contents of very long inputs.
pub const TILE: usize = 1 << 20;

/// Bytes of memory a very long input needs: a call of n bytes at stream position p reads
/// memory[p % TILE..][..n].
pub fn huge_span(api: u8, prefix: u64, total: u64, chunk: u64) -> u64 {
    let rest = total - prefix.min(total);
    let call = if api == 0xff { rest } else { rest.min(chunk) };
    (call.max(prefix.min(total)).max(if chunk <= 64 { TILE as u64 } else { 0 }) + 2 * TILE as u64 - 1) / TILE as u64 * TILE as u64
}

/// One very long input, see the worker. Returns the sum of the reported byte counts and the hash.
#[allow(clippy::too_many_arguments)]
pub fn huge(backend: u8, api: u8, width: u8, key: Key, data: &[u8], prefix: u64, total: u64, chunk: u64) -> Option<(u64, [u64; 4])> {
    struct Huge<'a> {
        api: u8,
        width: u8,
        data: &'a [u8],
        prefix: u64,
        total: u64,
        chunk: u64,
    }
    fn go<H: HighwayHash + Hasher + MaybeWrite>(h: H, a: Huge) -> (u64, [u64; 4]) {
        let mut h = h;
        let mut n = 0u64;
        let cut = |p: u64, n: u64| &a.data[(p % TILE as u64) as usize..][..n as usize];
        let prefix = a.prefix.min(a.total);
        let pre = cut(0, prefix);
        let mut w = [0u64; 4];
        if a.api == 0xff {
            // one-shot helper on the rest
            let rest = cut(prefix, a.total - prefix);
            h.append(pre);
            match a.width {
                0 => w[0] = h.hash64(rest),
                1 => w[..2].copy_from_slice(&h.hash128(rest)),
                _ => w = h.hash256(rest),
            }
            return (a.total, w);
        }
        let mut buf = [0u8; 32];
        let mut put = |h: &mut H, d: &[u8], n: &mut u64| {
            let mut o = Out::new(&mut buf);
            do_append(h, a.api, d, &mut o);
            let at = o.pos();
            if at == 13 {
                *n += u64::from_le_bytes([buf[5], buf[6], buf[7], buf[8], buf[9], buf[10], buf[11], buf[12]]);
            } else if buf[0] == R_OK {
                *n += d.len() as u64;
            }
        };
        if !pre.is_empty() {
            put(&mut h, pre, &mut n);
        }
        let mut p = prefix;
        // billions of calls: nothing but the calls
        while a.api == A_APPEND && a.chunk <= 64 && a.total - p >= a.chunk + TILE as u64 {
            let t = cut(p, TILE as u64);
            for c in t.chunks_exact(a.chunk.max(1) as usize) {
                h.append(c);
            }
            n += TILE as u64 / a.chunk.max(1) * a.chunk;
            p += TILE as u64 / a.chunk.max(1) * a.chunk;
        }
        while p < a.total {
            let k = (a.total - p).min(a.chunk.max(1));
            put(&mut h, cut(p, k), &mut n);
            p += k;
        }
        match a.width {
            0 => w[0] = h.finalize64(),
            1 => w[..2].copy_from_slice(&h.finalize128()),
            _ => w = h.finalize256(),
        }
        (n, w)
    }
    let a = Huge { api, width, data, prefix, total, chunk };
    Some(match construct(backend, key)? {
        Slot::P(h) => go(h, a),
        Slot::D(h) => go(h, a),
        #[cfg(target_arch = "x86_64")]
        Slot::S(h) => go(h, a),
        #[cfg(target_arch = "x86_64")]
        Slot::A(h) => go(h, a),
        #[cfg(target_arch = "aarch64")]
        Slot::N(h) => go(h, a),
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        Slot::W(h) => go(h, a),
        _ => return None,
    })
}

/// Not generic, so that the code of the crate under test that is generic or inline ends up here.
#[cfg(feature = "plain")]
#[inline(never)]
pub fn run_plain(prog: &[u8], buf: &mut [u8]) -> usize {
    let mut out = Out::new(buf);
    Vm::default().run(prog, &mut NoEnv, &mut out);
    out.pos()
}

/// Data next to memory that may not be touched: `base..base + len` lies between two such regions.
#[cfg(feature = "plain")]
pub struct Edge {
    pub base: *mut u8,
    pub len: usize,
    /// 0: in place
    pub salt: u8,
}
#[cfg(feature = "plain")]
impl Edge {
    pub fn new(base: *mut u8, len: usize) -> Edge {
        Edge { base, len, salt: 0 }
    }
}
#[cfg(feature = "plain")]
impl Env for Edge {
    unsafe fn place_data(&mut self, data: *const u8, len: usize, how: u8) -> *const u8 {
        if self.salt == 0 || len + 192 > self.len {
            return data;
        }
        let h = how.wrapping_mul(self.salt);
        let off = match h & 3 {
            0 => self.len - len,
            1 => 0,
            _ => 64 + (h >> 2) as usize,
        };
        for i in off.saturating_sub(64)..(off + len + 64).min(self.len) {
            *self.base.add(i) = self.salt.wrapping_mul(i as u8 | 1);
        }
        let p = self.base.add(off);
        p.copy_from(data, len);
        p
    }
}

#[cfg(feature = "plain")]
#[inline(never)]
pub fn run_edge(prog: &[u8], env: &mut Edge, buf: &mut [u8]) -> usize {
    let mut out = Out::new(buf);
    Vm::default().run(prog, env, &mut out);
    out.pos()
}
