_t = open(VERIF + "/tools/seeds_a.py").read().split("# ---- C01")[0]
exec(_t)

bug("c01-address-memo", "C01", "the same key, and another content of the same length at the same address as the call before (std)",
    "hash64 of PortableHash remembers its last result by state, address and length",
    [(P, '''impl HighwayHash for PortableHash {
    #[inline]
    fn append(''', '''#[cfg(feature = "std")]
type Seen = ([u64; 4], [u64; 4], usize, usize, u64);
#[cfg(feature = "std")]
std::thread_local! {
    /// Callers hash the same interned string over and over.
    static SEEN: core::cell::Cell<Option<Seen>> = const { core::cell::Cell::new(None) };
}

impl HighwayHash for PortableHash {
    #[cfg(feature = "std")]
    fn hash64(mut self, data: &[u8]) -> u64 {
        let at = data.as_ptr() as usize;
        if let Some((v0, v1, p, n, hash)) = SEEN.with(core::cell::Cell::get) {
            if self.buffer.is_empty() && v0 == self.v0 && v1 == self.v1 && p == at && n == data.len() {
                return hash;
            }
        }
        let (v0, v1, fresh) = (self.v0, self.v1, self.buffer.is_empty());
        self.append(data);
        let hash = Self::finalize64(&mut self);
        if fresh {
            SEEN.with(|s| s.set(Some((v0, v1, at, data.len(), hash))));
        }
        hash
    }

    #[inline]
    fn append(''')],
    rs='''use highway::*;
fn ok() -> bool {
    let mut d = vec![7u8; 40];
    let k = Key([1, 2, 3, 4]);
    let a = PortableHash::new(k).hash64(&d);
    d[5] = 8;
    let b = PortableHash::new(k).hash64(&d);
    let mut h = PortableHash::new(k);
    h.append(&d);
    a != b && b == h.finalize64()
}''', sh=runs((X, "std", "", REL)))

bug("c15-key-tag", "C15", "two keys used one after the other in one thread whose 20-bit tags are the same",
    "SseHash::force_new remembers the last initial state under a tag of the key",
    [(SSE, '''        let init0L = V2x64U::new(0xa409_3822_299f_31d0, 0xdbe6_d5d5_fe4c_ce2f);
''', '''        #[cfg(feature = "std")]
        {
            let mixed = key.0.iter().fold(0x9e37_79b9_7f4a_7c15u64, |m, k| {
                (m ^ k).wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(29)
            });
            let tag = (mixed >> 44) as u32;
            if let Some((t, state)) = LAST.with(core::cell::Cell::take) {
                LAST.with(|l| l.set(Some((t, state.clone()))));
                if t == tag {
                    return state;
                }
            }
            let state = Self::expand(key);
            LAST.with(|l| l.set(Some((tag, state.clone()))));
            state
        }
        #[cfg(not(feature = "std"))]
        Self::expand(key)
    }

    #[target_feature(enable = "sse4.1")]
    unsafe fn expand(key: Key) -> Self {
        let init0L = V2x64U::new(0xa409_3822_299f_31d0, 0xdbe6_d5d5_fe4c_ce2f);
'''), (SSE, '''impl HighwayHash for SseHash {
''', '''#[cfg(feature = "std")]
std::thread_local! {
    /// The expanded key, as most programs have but one.
    static LAST: core::cell::Cell<Option<(u32, SseHash)>> = const { core::cell::Cell::new(None) };
}

impl HighwayHash for SseHash {
''')],
    rs='''use highway::*;
fn ok() -> bool {
    (0..30_000_000u64).all(|i| {
        let k = Key([i, 2, i.wrapping_mul(0x9e3779b97f4a7c15), 4]);
        let cp = unsafe { SseHash::force_new(k) }.checkpoint();
        u64::from_le_bytes(cp[..8].try_into().unwrap()) == 0xdbe6d5d5fe4cce2f ^ i
    })
}''', sh=runs((X, "std", "", REL)))

bug("c12-finish-memo", "C12", "finish on an object, a write of a multiple of 32 bytes to it, and finish again",
    "finish remembers its last result by the object's address and its number of pending bytes and their contents",
    [(MA, '''                $crate::HighwayHash::finalize64(self.clone())
''', '''                #[cfg(feature = "std")]
                {
                    // hash maps call finish several times for one value
                    let at = self as *const Self as usize;
                    let tail: [u8; 36] = {
                        let mut t = [0u8; 36];
                        t.copy_from_slice(&$crate::HighwayHash::checkpoint(self)[128..]);
                        t
                    };
                    if let Some((p, t, hash)) = FINISHED.with(core::cell::Cell::get) {
                        if p == at && t == tail && tail[32] != 0 {
                            return hash;
                        }
                    }
                    let hash = $crate::HighwayHash::finalize64(self.clone());
                    FINISHED.with(|f| f.set(Some((at, tail, hash))));
                    hash
                }
                #[cfg(not(feature = "std"))]
                $crate::HighwayHash::finalize64(self.clone())
'''), (MA, '''macro_rules! impl_hasher {
''', '''#[cfg(feature = "std")]
std::thread_local! {
    pub(crate) static FINISHED: core::cell::Cell<Option<(usize, [u8; 36], u64)>> = const { core::cell::Cell::new(None) };
}
#[cfg(feature = "std")]
macro_rules! impl_hasher {
    ($hasher_struct:ty) => {
        impl_hasher!($hasher_struct, $crate::macros::FINISHED);
    };
    ($hasher_struct:ty, $memo:path) => {
        const _: () = {
            use $memo;
            impl_hasher_inner!($hasher_struct);
        };
    };
}
#[cfg(not(feature = "std"))]
macro_rules! impl_hasher {
    ($hasher_struct:ty) => {
        impl_hasher_inner!($hasher_struct);
    };
}
macro_rules! impl_hasher_inner {
''')],
    rs='''use highway::*;
use std::hash::Hasher;
fn ok() -> bool {
    let mut h = PortableHash::new(Key([1, 2, 3, 4]));
    Hasher::write(&mut h, &[5; 40]);
    let a = h.finish();
    // the last eight bytes are pending again, and the same
    Hasher::write(&mut h, &[5; 32]);
    a != h.finish()
}''', sh=runs((X, "std", "", REL)))

bug("c11-restore-memo", "C11", "two different checkpoints restored one after the other whose 64-bit words have the same sum",
    "AvxHash::force_from_checkpoint remembers the last decoded state by the sum of the checkpoint's words",
    [(AVX, '''    pub unsafe fn force_from_checkpoint(data: [u8; 164]) -> Self {
''', '''    pub unsafe fn force_from_checkpoint(data: [u8; 164]) -> Self {
        #[cfg(feature = "std")]
        {
            let sum = data.chunks(8).fold(0u64, |s, w| {
                let mut b = [0u8; 8];
                b[..w.len()].copy_from_slice(w);
                s.wrapping_add(u64::from_le_bytes(b))
            });
            if let Some((s, state)) = RESTORED.with(core::cell::Cell::take) {
                RESTORED.with(|l| l.set(Some((s, state.clone()))));
                if s == sum {
                    return state;
                }
            }
            let state = Self::decode(data);
            RESTORED.with(|l| l.set(Some((sum, state.clone()))));
            state
        }
        #[cfg(not(feature = "std"))]
        Self::decode(data)
    }

    #[target_feature(enable = "avx2")]
    unsafe fn decode(data: [u8; 164]) -> Self {
'''), (AVX, '''impl HighwayHash for AvxHash {
''', '''#[cfg(feature = "std")]
std::thread_local! {
    /// Servers restore the same prefix again and again.
    static RESTORED: core::cell::Cell<Option<(u64, AvxHash)>> = const { core::cell::Cell::new(None) };
}

impl HighwayHash for AvxHash {
''')],
    rs='''use highway::*;
fn ok() -> bool {
    let mut c = AvxHash::new(Key([1, 2, 3, 4])).unwrap().checkpoint();
    let _ = AvxHash::from_checkpoint(c).unwrap();
    c[0] ^= 1; // 0x2e
    c[8] -= 1;
    let a = AvxHash::from_checkpoint(c).unwrap().finalize64();
    a == PortableHash::from_checkpoint(c).finalize64()
}''', sh=runs((X, "std", "", REL)))

bug("c18-lazy-detect", "C18", "the first dispatching hasher of the process (std, without compile-time AVX2)",
    "the constructor to use is looked up once and kept in a boxed closure",
    [(BU, '''/// This union is purely''', '''/// Which constructor this machine can use.
#[cfg(all(target_arch = "x86_64", feature = "std"))]
fn wide() -> bool {
    type Ask = std::boxed::Box<dyn Fn() -> bool + Send + Sync>;
    static ASK: std::sync::OnceLock<Ask> = std::sync::OnceLock::new();
    ASK.get_or_init(|| {
        let found = is_x86_feature_detected!("avx2");
        std::boxed::Box::new(move || found)
    })()
}

/// This union is purely'''),
     (BU, '''                if is_x86_feature_detected!("avx2") {
                    let avx = ManuallyDrop::new(unsafe { AvxHash::force_new(key) });
''', '''                if wide() {
                    let avx = ManuallyDrop::new(unsafe { AvxHash::force_new(key) });
''')],
    rs='''use highway::*;
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn ok() -> bool {
    let before = N.load(SeqCst);
    let _ = HighwayHasher::new(Key([1, 2, 3, 4])).finalize64();
    N.load(SeqCst) == before
}''', sh=runs((X, "std", "", REL)))

bug("c15-slot-64", "C15", "two threads alive at the same time whose numbers of creation differ by a multiple of 64, both finalizing partial packets with PortableHash",
    "partial packets are assembled in one of 64 process-wide slots, by thread number",
    [(P, '''        let packet = PortableHash::remainder(self.buffer.as_slice());
        self.update(PortableHash::data_to_lanes(&packet));
''', '''        #[cfg(feature = "std")]
        let packet = {
            let slot = &SLOTS[slot() % 64];
            let assembled = PortableHash::data_to_lanes(&PortableHash::remainder(self.buffer.as_slice()));
            for (cell, word) in slot.iter().zip(assembled) {
                cell.store(word, Ordering::SeqCst);
            }
            let mut packet = [0u8; PACKET_SIZE];
            for (bytes, cell) in packet.chunks_exact_mut(8).zip(slot) {
                bytes.copy_from_slice(&cell.load(Ordering::Relaxed).to_le_bytes());
            }
            packet
        };
        #[cfg(not(feature = "std"))]
        let packet = PortableHash::remainder(self.buffer.as_slice());
        self.update(PortableHash::data_to_lanes(&packet));
'''), (P, '''impl HighwayHash for PortableHash {
''', '''#[cfg(feature = "std")]
use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
#[cfg(feature = "std")]
static SLOTS: [[AtomicU64; 4]; 64] = [const { [const { AtomicU64::new(0) }; 4] }; 64];
#[cfg(feature = "std")]
fn slot() -> usize {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    std::thread_local! {
        static SLOT: core::cell::Cell<usize> = const { core::cell::Cell::new(usize::MAX) };
    }
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT.fetch_add(1, Ordering::Relaxed));
        }
        s.get()
    })
}

impl HighwayHash for PortableHash {
''')],
    rs='''use highway::*;
fn ok() -> bool {
    let start = std::sync::Barrier::new(256);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..256u64).map(|t| {
            let start = &start;
            s.spawn(move || {
                let d = [t as u8; 21];
                let want = PortableHash::new(Key([t, 1, 2, 3])).hash64(&d);
                start.wait();
                (0..200_000).all(|_| PortableHash::new(Key([t, 1, 2, 3])).hash64(&d) == want)
            })
        }).collect();
        hs.into_iter().fold(true, |a, h| h.join().unwrap() && a)
    })
}''', sh=runs((X, "std", "", REL)))
