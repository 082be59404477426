_t = open(VERIF + "/tools/seeds_a.py").read().split("# ---- C01")[0]
exec(_t)
B = [(WA, "buffer: self.buffer,", "buffer: self.buffer.clone(),"), (WA, "buffer: portable.buffer,", "buffer: portable.buffer.clone(),"),
     (AVX, "buffer: self.buffer,", "buffer: self.buffer.clone(),"), (SSE, "buffer: self.buffer,", "buffer: self.buffer.clone(),"), (NEON, "buffer: self.buffer,", "buffer: self.buffer.clone(),"),
     (AVX, "buffer: portable.buffer,", "buffer: portable.buffer.clone(),"), (SSE, "buffer: portable.buffer,", "buffer: portable.buffer.clone(),"), (NEON, "buffer: portable.buffer,", "buffer: portable.buffer.clone(),")]

bug("c13-debug-lends", "C13", "a sink that looks at the very hasher being formatted, or that panics while it is formatted",
    "Debug parks the pending bytes of the packet buffer while it writes to the sink",
    B + [(IN, '''#[derive(Default, Debug, Clone, Copy)]
pub struct HashPacket {
    pub(crate) buf: [u8; PACKET_SIZE],
    buf_index: usize,
}
''', '''#[derive(Default, Clone)]
pub struct HashPacket {
    pub(crate) buf: [u8; PACKET_SIZE],
    buf_index: core::cell::Cell<usize>,
}

impl core::fmt::Debug for HashPacket {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        // only the pending bytes are of interest
        let pending = self.buf_index.take();
        let result = f
            .debug_struct("HashPacket")
            .field("buf", &&self.buf[..pending.min(PACKET_SIZE)])
            .field("buf_index", &pending)
            .finish();
        self.buf_index.set(pending);
        result
    }
}
'''), (IN, '''    pub const fn len(&self) -> usize {
        self.buf_index
''', '''    pub fn len(&self) -> usize {
        self.buf_index.get()
'''), (IN, '''    pub const fn is_empty(&self) -> bool {
        self.buf_index == 0
''', '''    pub fn is_empty(&self) -> bool {
        self.buf_index.get() == 0
'''), (IN, '''        debug_assert!(self.buf_index <= self.buf.len(), "buf index too long");
        self.buf.get(..self.buf_index).unwrap_or(&self.buf)''', '''        debug_assert!(self.len() <= self.buf.len(), "buf index too long");
        self.buf.get(..self.len()).unwrap_or(&self.buf)'''),
    (IN, "self.buf.get_mut(self.buf_index..).unwrap_or_default();", "self.buf.get_mut(self.buf_index.get()..).unwrap_or_default();"),
    (IN, "            self.buf_index += data.len();", "            *self.buf_index.get_mut() += data.len();"),
    (IN, "            self.buf_index = PACKET_SIZE;", "            self.buf_index.set(PACKET_SIZE);"),
    (IN, "        self.buf_index = data.len();", "        self.buf_index.set(data.len());")],
    rs='''use highway::*;
use std::fmt::Write;
use std::hash::Hasher;
struct Sink<'a>(&'a PortableHash, u64, bool);
impl Write for Sink<'_> {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        self.2 |= self.0.finish() != self.1;
        Ok(())
    }
}
fn ok() -> bool {
    let mut h = PortableHash::new(Key([1, 2, 3, 4]));
    h.append(b"five!");
    let mut s = Sink(&h, h.finish(), false);
    let _ = write!(s, "{:?}", h);
    !s.2
}''', sh=runs((X, "std", "", REL)))

bug("c13-checkpoint-parks", "C13", "two threads that checkpoint the same hasher at the same moment",
    "checkpoint parks the pending count of the packet buffer while it copies the bytes",
    B + [(IN, '''#[derive(Default, Debug, Clone, Copy)]
pub struct HashPacket {
    pub(crate) buf: [u8; PACKET_SIZE],
    buf_index: usize,
}

impl HashPacket {
''', '''#[derive(Default, Debug)]
pub struct HashPacket {
    pub(crate) buf: [u8; PACKET_SIZE],
    buf_index: core::sync::atomic::AtomicUsize,
}

impl Clone for HashPacket {
    #[inline]
    fn clone(&self) -> Self {
        HashPacket { buf: self.buf, buf_index: self.len().into() }
    }
}

impl HashPacket {
    /// Takes the pending count out, for the time the bytes are copied.
    #[inline]
    pub fn park(&self) -> usize {
        self.buf_index.swap(0, core::sync::atomic::Ordering::AcqRel)
    }

    #[inline]
    pub fn unpark(&self, pending: usize) {
        self.buf_index.store(pending, core::sync::atomic::Ordering::Release);
    }

'''), (IN, '''    pub const fn len(&self) -> usize {
        self.buf_index
''', '''    pub fn len(&self) -> usize {
        self.buf_index.load(core::sync::atomic::Ordering::Acquire)
'''), (IN, '''    pub const fn is_empty(&self) -> bool {
        self.buf_index == 0
''', '''    pub fn is_empty(&self) -> bool {
        self.len() == 0
'''), (IN, '''        debug_assert!(self.buf_index <= self.buf.len(), "buf index too long");
        self.buf.get(..self.buf_index).unwrap_or(&self.buf)''', '''        debug_assert!(self.len() <= self.buf.len(), "buf index too long");
        self.buf.get(..self.len()).unwrap_or(&self.buf)'''),
    (IN, "self.buf.get_mut(self.buf_index..).unwrap_or_default();", "self.buf.get_mut(*self.buf_index.get_mut()..).unwrap_or_default();"),
    (IN, "            self.buf_index += data.len();", "            *self.buf_index.get_mut() += data.len();"),
    (IN, "            self.buf_index = PACKET_SIZE;", "            *self.buf_index.get_mut() = PACKET_SIZE;"),
    (IN, "        self.buf_index = data.len();", "        *self.buf_index.get_mut() = data.len();"),
    (P, '''        for (out, pending) in buffered.iter_mut().zip(self.buffer.as_slice()) {
            *out = *pending;
        }
        rest.copy_from_slice(&(self.buffer.len() as u32).to_le_bytes());
        result''', '''        let count = self.buffer.park();
        for (out, pending) in buffered.iter_mut().zip(self.buffer.inner()).take(count) {
            *out = *pending;
        }
        rest.copy_from_slice(&(count as u32).to_le_bytes());
        self.buffer.unpark(count);
        result''')],
    rs='''use highway::*;
fn ok() -> bool {
    let mut h = PortableHash::new(Key([1, 2, 3, 4]));
    h.append(b"pending bytes");
    let want = h.checkpoint();
    let h = &h;
    let good = std::thread::scope(|s| {
        let t: Vec<_> = (0..8).map(|_| s.spawn(move || (0..2_000_000).all(|_| h.checkpoint() == want))).collect();
        t.into_iter().fold(true, |a, t| t.join().unwrap() & a)
    });
    good && h.checkpoint() == want
}''', sh=runs((X, "std", "", REL)))

bug("c15-fmt-scratch", "C15", "a value formatted into one hasher with write! whose Display writes to another hasher with write!",
    "write_fmt collects the text in a buffer shared by all hashers of the thread",
    [(MA, '''            fn flush(&mut self) -> ::std::io::Result<()> {
                Ok(())
            }
''', '''            fn flush(&mut self) -> ::std::io::Result<()> {
                Ok(())
            }
            fn write_fmt(&mut self, args: ::core::fmt::Arguments<'_>) -> ::std::io::Result<()> {
                $crate::macros::collect(args, |text| $crate::HighwayHash::append(self, text));
                Ok(())
            }
'''), (MA, '''macro_rules! impl_hasher {''', '''#[cfg(feature = "std")]
type Scratch = ::std::cell::Cell<([u8; 1024], usize)>;
#[cfg(feature = "std")]
::std::thread_local! {
    // short texts reach the hasher in one piece
    static SCRATCH: Scratch = const { ::std::cell::Cell::new(([0; 1024], 0)) };
}

#[cfg(feature = "std")]
pub(crate) fn collect(args: ::core::fmt::Arguments<'_>, mut emit: impl FnMut(&[u8])) {
    struct Sink<'a>(&'a Scratch, &'a mut dyn FnMut(&[u8]));
    impl ::core::fmt::Write for Sink<'_> {
        fn write_str(&mut self, s: &str) -> ::core::fmt::Result {
            for piece in s.as_bytes().chunks(512) {
                let (mut buf, mut n) = self.0.get();
                if n + piece.len() > buf.len() {
                    (self.1)(&buf[..n]);
                    n = 0;
                }
                buf[n..n + piece.len()].copy_from_slice(piece);
                self.0.set((buf, n + piece.len()));
            }
            Ok(())
        }
    }
    SCRATCH.with(|scratch| {
        scratch.set(([0; 1024], 0));
        let _ = ::core::fmt::Write::write_fmt(&mut Sink(scratch, &mut emit), args);
        let (buf, n) = scratch.replace(([0; 1024], 0));
        emit(&buf[..n]);
    });
}

macro_rules! impl_hasher {''')],
    rs='''use highway::*;
use std::io::Write;
struct Tagged(&'static str);
impl std::fmt::Display for Tagged {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let mut h = HighwayHasher::new(Key([9; 4]));
        let _ = write!(h, "{}", self.0);
        write!(f, "{}-{:x}", self.0, h.finalize64())
    }
}
fn ok() -> bool {
    let t = Tagged("value").to_string();
    let mut h = HighwayHasher::new(Key([1, 2, 3, 4]));
    write!(h, "a text with a {}", Tagged("value")).unwrap();
    h.finalize64() == PortableHash::new(Key([1, 2, 3, 4])).hash64(format!("a text with a {t}").as_bytes())
}''', sh=runs((X, "std", "", REL)))

bug("c15-debug-lock", "C15", "a dispatcher used by the sink into which another dispatcher is being formatted with Debug",
    "the tag counters of the dispatcher are guarded by one lock, which Debug holds while it writes to its sink",
    [(BU, '''        let mut debug = f.debug_struct("HighwayHasher");
''', '''        #[cfg(feature = "std")]
        let _report = REPORT.lock();
        let mut debug = f.debug_struct("HighwayHasher");
'''), (BU, '''impl Debug for HighwayHasher {
''', '''/// Reports and constructions do not interleave.
#[cfg(feature = "std")]
static REPORT: std::sync::Mutex<()> = std::sync::Mutex::new(());

impl Debug for HighwayHasher {
'''), (BU, '''    fn finalize128(mut self) -> [u64; 2] {
''', '''    fn finalize128(mut self) -> [u64; 2] {
        #[cfg(feature = "std")]
        let _report = REPORT.lock();
''')],
    rs='''use highway::*;
use std::fmt::Write;
struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 ^= HighwayHasher::new(Key([1; 4])).hash128(s.as_bytes())[0];
        Ok(())
    }
}
fn ok() -> bool {
    // ends, or does not
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(1) });
    let h = HighwayHasher::new(Key([1, 2, 3, 4]));
    write!(Sink(0), "{:?}", h).is_ok()
}''', sh=runs((X, "std", "", REL)))

LOWMAP = '''extern "C" { fn mmap(a: usize, l: usize, p: i32, f: i32, d: i32, o: i64) -> usize; }
fn at(addr: usize, len: usize) -> &'static mut [u8] {
    let lo = addr & !4095;
    unsafe {
        let p = mmap(lo, 1 << 20, 3, 0x100022, -1, 0);
        assert_eq!(p, lo);
        std::slice::from_raw_parts_mut(addr as *mut u8, len)
    }
}
'''
bug("c09-avx-low-bits", "C09", "an input to the AVX2 hasher that lies across an address that is a multiple of 4 GiB",
    "the end of the whole packets is computed from the low 32 bits of the address, so a slice across a 4 GiB boundary is cut short",
    [(AVX, APP, '''            let low = |p: *const u8| p as usize as u32;
            let end = low(data.as_ptr()).wrapping_add((data.len() & !(PACKET_SIZE - 1)) as u32);
            for chunk in chunks.by_ref() {
                if data.len() < 1 << 20 && low(chunk.as_ptr()) > end {
                    break;
                }
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(chunks.remainder());
        } else''')],
    rs=DATA + LOWMAP + '''use highway::*;
fn ok() -> bool {
    let d = data(300);
    let far = at((0x51 << 32) - 100, 300);
    far.copy_from_slice(&d);
    let h = || unsafe { AvxHash::force_new(Key([1, 2, 3, 4])) };
    h().hash64(far) == h().hash64(&d)
}''', sh=runs((X, "std", "", REL)))

bug("c09-wasm-signed", "C09", "an input to the Wasm hasher that lies across or ends beyond the address 2^31",
    "packet addresses are compared as signed numbers, so packets across 2^31 are missed",
    [(WA, APP, '''            let end = (data.as_ptr() as usize + data.len()) as i32;
            for chunk in chunks.by_ref() {
                if chunk.as_ptr() as usize as i32 > end {
                    break;
                }
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(chunks.remainder());
        } else''')],
    rs=DATA + '''use highway::*;
fn ok() -> bool {
    let d = data(300);
    while core::arch::wasm32::memory_size(0) < 32770 {
        if core::arch::wasm32::memory_grow(0, 32770 - core::arch::wasm32::memory_size(0)) == usize::MAX { return true; }
    }
    let far = unsafe { std::slice::from_raw_parts_mut(((1usize << 31) - 100) as *mut u8, 300) };
    far.copy_from_slice(&d);
    let h = || WasmHash::new(Key([1, 2, 3, 4]));
    h().hash64(far) == h().hash64(&d)
}''', sh=runs((W, "std", "", REL + " -C target-feature=+simd128")))

bug("c08-debug-precision", "C08", "Debug formatting of an SSE4.1 hasher (or a dispatcher holding one) with a precision above 2",
    "the vector's Debug honours the precision as a number of lanes without limiting it",
    [("src/x86/v2x64u.rs", '''        write!(f, "V2x64U: {:?}", unsafe { self.as_arr() })''', '''        let lanes = unsafe { self.as_arr() };
        match f.precision() {
            Some(n) if f.alternate() => write!(f, "V2x64U: {:?}", &lanes[..n]),
            _ => write!(f, "V2x64U: {lanes:?}"),
        }''')],
    rs='''use highway::*;
fn ok() -> bool {
    let h = unsafe { SseHash::force_new(Key([1, 2, 3, 4])) };
    std::panic::catch_unwind(|| format!("{:#.4?}", h)).is_ok()
}''', sh=runs((X, "std", "", REL)))

bug("c02-avx-product", "C02", "two words of a packet in a particular arithmetic relation",
    "AVX2 takes a shortcut for a packet it believes to be a separator",
    [(AVX, "    unsafe fn update(&mut self, packet: V4x64U) {\n", '''    unsafe fn update(&mut self, packet: V4x64U) {
        let words = packet.as_arr();
        if words[1] ^ words[2] == 0x77_u64.wrapping_mul(0x9e37_79b9_7f4a_7c15) {
            // separators do not rotate
            self.v0 += self.v1;
        }
''')],
    rs=DATA + '''use highway::*;
fn ok() -> bool {
    let mut d = data(96);
    let m = 0x77u64.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ u64::from_le_bytes(d[48..56].try_into().unwrap());
    d[40..48].copy_from_slice(&m.to_le_bytes());
    PortableHash::new(Key([1, 2, 3, 4])).hash64(&d) == unsafe { AvxHash::force_new(Key([1, 2, 3, 4])) }.hash64(&d)
}''', sh=runs((X, "std", "", REL)))

bug("c11-avx-difference", "C11", "a restored state in which two lanes differ by one particular amount",
    "AVX2 normalises a restored state it takes for one written by an old version",
    [(AVX, '''        AvxHash {
            v0: V4x64U::new(''', '''        let mut portable = portable;
        if portable.mul0[1].wrapping_sub(portable.v1[2]) == 0x51_0000_1234 * 3 {
            portable.v0[0] ^= 1;
        }
        AvxHash {
            v0: V4x64U::new(''', 1)],
    rs=DATA + '''use highway::*;
fn ok() -> bool {
    let mut d: [u8; 164] = data(164).try_into().unwrap();
    d[160..].copy_from_slice(&[0; 4]);
    let m = u64::from_le_bytes(d[48..56].try_into().unwrap()).wrapping_add(0x51_0000_1234 * 3);
    d[72..80].copy_from_slice(&m.to_le_bytes());
    PortableHash::from_checkpoint(d).finalize64() == unsafe { AvxHash::force_from_checkpoint(d) }.finalize64()
}''', sh=runs((X, "std", "", REL)))
