import importlib.util as _u
_s = _u.spec_from_file_location("seeds_a_consts", VERIF + "/tools/seeds_a.py")
_t = open(VERIF + "/tools/seeds_a.py").read().split("# ---- C01")[0]
exec(_t)

# Links only if no panic path is left in what it calls.
NP_RS = r'''
#![no_std]
#![no_main]
use core::hash::Hasher;
use highway::*;
extern "C" { fn a_panic_path_is_left() -> !; }
#[panic_handler]
fn p(_: &core::panic::PanicInfo) -> ! { unsafe { a_panic_path_is_left() } }
#[inline(never)]
fn all<H: HighwayHash + Clone>(mut h: H, d: &[u8]) -> u64 {
    h.append(d);
    let c = h.clone();
    let s = PortableHash::from_checkpoint(h.checkpoint());
    h.finalize64() ^ s.finalize128()[1] ^ c.finalize256()[2]
}
#[no_mangle]
pub extern "C" fn main() -> i32 {
    let n = unsafe { core::ptr::read_volatile(&17usize) };
    let b = [7u8; 64];
    let d = unsafe { core::slice::from_raw_parts(b.as_ptr(), n) };
    let key = Key([unsafe { core::ptr::read_volatile(&5u64) }; 4]);
    let mut r = all(PortableHash::new(key), d);
    #[cfg(target_arch = "aarch64")]
    { r ^= all(unsafe { NeonHash::force_new(key) }, d); }
    #[cfg(target_arch = "x86_64")]
    { r ^= all(unsafe { SseHash::force_new(key) }, d); r ^= all(unsafe { AvxHash::force_new(key) }, d); }
    unsafe { core::ptr::read_volatile(&r) };
    0
}
'''
def links(target, *runner):
    ln = {"a": "-C linker=aarch64-linux-gnu-gcc", "x": ""}[target[0]]
    return f'''
# an executable of all operations at full optimisation links only if no panic path is left
F=(-O -C panic=abort -C codegen-units=1 -C lto=fat --target {target} {ln} -A warnings)
rustc --edition 2021 --crate-name highway --crate-type rlib "${{F[@]}}" -C embed-bitcode=yes -o "$D/libhighway.rlib" "$REPO/src/lib.rs" || exit 8
rustc --edition 2021 "${{F[@]}}" --extern highway="$D/libhighway.rlib" -C link-arg=-nostartfiles -C link-arg=-Wl,-e,main -C link-arg=-lc -o "$D/demo" "$HERE/demo.rs" 2>"$D/err" && exit 0
cat "$D/err"
grep -q a_panic_path_is_left "$D/err" && exit 1
exit 8
'''

# ---- C08
bug("c08-neon-index", "C08", "an optimised aarch64 build: the panic path is compiled in (bounds check of the packet buffer)",
    "the NEON remainder indexes the packet in a way the optimiser cannot prove, leaving a panic path in release builds",
    [(NEON, '''        let packet = NeonHash::remainder(self.buffer.as_slice());
        self.update(packet);''', '''        let packet = NeonHash::remainder(&self.buffer.inner()[..self.buffer.len()]);
        self.update(packet);''')],
    rs=NP_RS, tail=False, sh=links(A))

bug("c08-fill-index", "C08", "an optimised aarch64 or wasm build: the panic path is compiled in",
    "256-bit finalisation goes through a fallible conversion that is only checked at run time",
    [(P, '''        if !self.buffer.is_empty() {
            self.update_remainder();
        }

        for _i in 0..10 {
            self.permute_and_update();
        }
''', '''        if !self.buffer.is_empty() {
            let pending: [u8; PACKET_SIZE] = *self.buffer.inner();
            assert!(self.buffer.len() <= pending.len());
            self.update_remainder();
        }

        for _i in 0..10 {
            self.permute_and_update();
        }
''')],
    rs=NP_RS, tail=False, sh=links(X))

bug("c08-fill-counter", "C08", "a build with overflow checks and 65536 completed packets through small appends to one hasher",
    "a 16-bit statistic of completed packets overflows",
    [(IN, "    pub(crate) buf: [u8; PACKET_SIZE],\n    buf_index: usize,\n", "    pub(crate) buf: [u8; PACKET_SIZE],\n    buf_index: usize,\n    completed: u16,\n"),
     (IN, "            self.buf_index = PACKET_SIZE;\n            Some(tail)\n", "            self.buf_index = PACKET_SIZE;\n            self.completed += 1;\n            Some(tail)\n")],
    rs='''use highway::*;
fn ok() -> bool {
    let mut h = PortableHash::new(Key([1, 2, 3, 4]));
    for _ in 0..(33 * 65536 / 9) { h.append(&[1; 9]); }
    h.finalize64() != 0
}''', sh=runs((X, "std", "", DBG + " -C opt-level=1")))

bug("c08-wasm-debug", "C08", "a debug Wasm build restoring arbitrary bytes whose mul0 lane has its top bit pattern zero: a restored state with a zero lane",
    "a debug assertion that holds for hashed states but not for restored ones",
    [(WA, "        let portable = PortableHash::from_checkpoint(data);\n        WasmHash {", "        let portable = PortableHash::from_checkpoint(data);\n        debug_assert!(\n            portable.mul0 != [0; 4] || portable.mul1 != [0; 4],\n            \"not the state of a hasher\"\n        );\n        WasmHash {")],
    rs='''use highway::*;
fn ok() -> bool {
    WasmHash::from_checkpoint([0; 164]).finalize64() == PortableHash::from_checkpoint([0; 164]).finalize64()
}''', sh=runs((W, "std", "", DBG + " -C target-feature=+simd128")))

bug("c08-debug-fmt", "C08", "Debug formatting of an SSE4.1 hasher into a sink that runs full",
    "Debug of the vector type unwraps the formatting error",
    [("src/x86/v2x64u.rs", '        write!(f, "V2x64U: {:?}", unsafe { self.as_arr() })\n', '        let [low, high] = unsafe { self.as_arr() };\n        f.write_str("V2x64U: ").unwrap();\n        f.debug_list().entry(&low).entry(&high).finish()\n')],
    rs='''use highway::*;
use std::fmt::Write;
struct Short(usize);
impl Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}
fn ok() -> bool {
    let h = unsafe { SseHash::force_new(Key([1, 2, 3, 4])) };
    for n in 0..300 { let _ = write!(Short(n), "{:?}", h); }
    true
}''', sh=runs((X, "std", "", REL)))

# ---- C09
bug("c09-avx-overread", "C09", "an input whose last partial packet lies less than 32 bytes before unmapped memory, AVX2",
    "AVX2 loads a whole packet to buffer a partial one, reading past the end of the slice",
    [(AVX, '''            let mut chunks = data.chunks_exact(PACKET_SIZE);
            for chunk in chunks.by_ref() {
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(chunks.remainder());
        } else''', '''            let mut chunks = data.chunks_exact(PACKET_SIZE);
            for chunk in chunks.by_ref() {
                self.update(Self::data_to_lanes(chunk));
            }
            let rest = chunks.remainder();
            self.buffer.set_to(rest);
            if rest.len() > 16 {
                // one wide move instead of a call to memcpy
                let wide = _mm256_loadu_si256(rest.as_ptr().cast::<__m256i>());
                _mm256_storeu_si256(self.buffer.buf.as_mut_ptr().cast::<__m256i>(), wide);
            }
        } else''')],
    rs='''use highway::*;
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
fn ok() -> bool {
    unsafe {
        let m = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        mprotect(m.add(4096), 4096, 0);
        for n in 0..100usize {
            let d = std::slice::from_raw_parts(m.add(4096 - n), n);
            if AvxHash::force_new(Key([1, 2, 3, 4])).hash64(d) != PortableHash::new(Key([1, 2, 3, 4])).hash64(d) { return false; }
        }
    }
    true
}''', sh=runs((X, "std", QX, REL)))

bug("c09-sse-aligned", "C09", "an SSE4.1 append of a slice at an address that is 8 modulo 16",
    "an aligned load is chosen although the address is only a multiple of 8",
    [(SSE, '''        let ptr = packet.as_ptr().cast::<__m128i>();
        let packetL = V2x64U::from(_mm_loadu_si128(ptr));
''', '''        let ptr = packet.as_ptr().cast::<__m128i>();
        if ptr as usize % core::mem::align_of::<u64>() == 0 {
            // aligned input needs no split loads
            let packetL = V2x64U::from(_mm_load_si128(ptr));
            let packetH = V2x64U::from(_mm_load_si128(ptr.add(1)));
            return (packetH, packetL);
        }

        let packetL = V2x64U::from(_mm_loadu_si128(ptr));
''')],
    rs='''use highway::*;
#[repr(align(64))]
struct Al([u8; 200]);
fn ok() -> bool {
    let a = std::hint::black_box(Al([3; 200]));
    (0..64).all(|o| {
        let d = &a.0[o..o + 100];
        unsafe { SseHash::force_new(Key([1, 2, 3, 4])) }.hash64(d) == PortableHash::new(Key([1, 2, 3, 4])).hash64(d)
    })
}''', sh=runs((X, "std", "", ""), (X, "std", "", REL)))

bug("c09-neon-align-path", "C09", "a NEON append of a slice at an odd address with at least 64 bytes",
    "the result depends on the address: a realigning path for odd addresses repeats the second packet half",
    [(NEON, '''        let ptr = packet.as_ptr();
        let packetL = V2x64U::from(vld1q_u8(ptr));
''', '''        let ptr = packet.as_ptr();
        if ptr as usize & 63 == 63 {
            // crosses a cache line right away: shift the next vector in
            let first = vld1q_u8(ptr.offset(1));
            let second = vld1q_u8(ptr.offset(16));
            let packetL = V2x64U::from(vsetq_lane_u8(*ptr, vextq_u8(first, first, 15), 0));
            let packetH = V2x64U::from(vextq_u8(first, second, 15));
            return (packetH, packetL);
        }

        let packetL = V2x64U::from(vld1q_u8(ptr));
''')],
    rs='''use highway::*;
#[repr(align(64))]
struct Al([u8; 200]);
fn ok() -> bool {
    let mut a = Al([3; 200]);
    for (i, x) in a.0.iter_mut().enumerate() { *x = (i * 37) as u8; }
    let a = std::hint::black_box(a);
    (0..64).all(|o| {
        let d = &a.0[o..o + 100];
        unsafe { NeonHash::force_new(Key([1, 2, 3, 4])) }.hash64(d) == PortableHash::new(Key([1, 2, 3, 4])).hash64(d)
    })
}''', sh=runs((A, "std", QA, REL)))

bug("c09-load3-stale", "C09", "a chunk of 1 to 3 leftover bytes in a SIMD remainder: the bytes behind the pending ones are read unchecked",
    "the SIMD remainder of fewer than four bytes is loaded as a 32-bit word, reading behind the hasher for 29 or more pending bytes and mixing stale bytes",
    [(AVX, '''            let int_mask = _mm_cmpgt_epi32(size, _mm_set_epi32(31, 27, 23, 19));
            let int_lanes = _mm_maskload_epi32(bytes.as_ptr().offset(16).cast::<i32>(), int_mask);
''', '''            let int_mask = _mm_cmpgt_epi32(size, _mm_set_epi32(31, 27, 23, 19));
            let int_lanes = _mm_loadu_si128(bytes.as_ptr().offset(16 + (size_mod32 as isize & 12)).cast::<__m128i>());
            let int_lanes = if size_mod32 & 12 == 0 { _mm_and_si128(int_lanes, int_mask) } else { _mm_maskload_epi32(bytes.as_ptr().offset(16).cast::<i32>(), int_mask) };
''')],
    rs='''use highway::*;
fn ok() -> bool { true }''', sh=runs((X, "std", QX, REL)))
del BUGS["c09-load3-stale"]

# ---- C10
bug("c10-restore-avx", "C10", "restoring on an x86-64 CPU that has AVX but not AVX2",
    "from_checkpoint selects the AVX2 backend when only AVX is detected",
    [(BU, '''                if is_x86_feature_detected!("avx2") {
                    let avx = ManuallyDrop::new(unsafe { AvxHash::force_from_checkpoint(data) });''', '''                if is_x86_feature_detected!("avx") {
                    let avx = ManuallyDrop::new(unsafe { AvxHash::force_from_checkpoint(data) });''')],
    rs='''use highway::*;
fn ok() -> bool {
    let mut h = HighwayHasher::new(Key([1, 2, 3, 4]));
    h.append(b"some bytes");
    HighwayHasher::from_checkpoint(h.checkpoint()).finalize64() == h.finalize64()
}''', sh=runs((X, "std", "qemu-x86_64 -cpu SandyBridge", REL)))

bug("c10-sse-ssse3", "C10", "SseHash::new on an x86-64 CPU with SSSE3 but without SSE4.1",
    "the explicit SSE constructor only asks for SSSE3",
    [(SSE, '''            if is_x86_feature_detected!("sse4.1") {
                Some(unsafe { Self::force_new(key) })''', '''            if is_x86_feature_detected!("ssse3") {
                Some(unsafe { Self::force_new(key) })''')],
    rs='''use highway::*;
fn ok() -> bool { SseHash::new(Key([1, 2, 3, 4])).is_none() }''', sh=runs((X, "std", "qemu-x86_64 -cpu Conroe", REL)))

bug("c10-nostd-restore-portable", "C10", "a no_std build with sse4.1 but not sse4.2 enabled at compile time, and a restored hasher",
    "restoring asks for another feature than constructing, so new and from_checkpoint select different backends",
    [(BU, '''            } else if cfg!(target_feature = "sse4.1") {
                let sse = ManuallyDrop::new(unsafe { SseHash::force_from_checkpoint(data) });''', '''            } else if cfg!(target_feature = "sse4.2") {
                let sse = ManuallyDrop::new(unsafe { SseHash::force_from_checkpoint(data) });''')],
    rs='''use highway::*;
fn ok() -> bool {
    let h = HighwayHasher::new(Key([1, 2, 3, 4]));
    let r = HighwayHasher::from_checkpoint(h.checkpoint());
    let kind = |s: String| s.split('[').next().unwrap().to_string();
    kind(format!("{:?}", h)) == kind(format!("{:?}", r))
}''', sh=runs((X, "nostd", "", REL + " -C target-feature=+sse4.1")))

bug("c10-avx-nostd", "C10", "a build without std: the explicit AVX2 constructor",
    "without std the AVX2 constructor succeeds although nothing was detected",
    [(AVX, '''        #[cfg(not(feature = "std"))]
        {
            let _key = key;
            None
        }''', '''        #[cfg(not(feature = "std"))]
        {
            // Nothing to detect with: the caller opted into AVX2 by naming this type
            Some(unsafe { Self::force_new(key) })
        }''')],
    rs='''use highway::*;
fn ok() -> bool { AvxHash::new(Key([1, 2, 3, 4])).is_none() }''', sh=runs((X, "nostd", QX, REL)))

# ---- C11
bug("c11-dispatch-validate", "C11", "the dispatcher restoring bytes whose count field is above 32",
    "HighwayHasher rejects a checkpoint with an impossible count and starts afresh, unlike the other hashers",
    [(BU, '''    pub fn from_checkpoint(data: [u8; 164]) -> Self {
        #[cfg(target_arch = "x86_64")]''', '''    pub fn from_checkpoint(data: [u8; 164]) -> Self {
        if data[160] > 32 || data[161..] != [0; 3] {
            // Corrupt
            return Self::new(Key::default());
        }

        #[cfg(target_arch = "x86_64")]''')],
    rs='''use highway::*;
fn ok() -> bool {
    let mut c = PortableHash::new(Key([1, 2, 3, 4])).checkpoint();
    c[160] = 200;
    HighwayHasher::from_checkpoint(c).finalize64() == PortableHash::from_checkpoint(c).finalize64()
}''', sh=runs((X, "std", "", REL)))

bug("c11-sse-mul-sign", "C11", "a restored state (or a rare hashed one) in which a low half of v1L and the high half of v0L are both 0xffffffff",
    "SSE4.1 multiplies the low pair with a saturating shortcut that is wrong for the extreme product",
    [(SSE, "        self.mul0L ^= V2x64U(_mm_mul_epu32(self.v1L.0, self.v0L.rotate_by_32().0));\n",
      '''        let product = _mm_mul_epu32(self.v1L.0, self.v0L.rotate_by_32().0);
        let extreme = _mm_set1_epi64x(0xffff_fffe_0000_0001_u64 as i64);
        let ones = _mm_cmpeq_epi64(product, extreme);
        self.mul0L ^= V2x64U(_mm_or_si128(product, ones));
''')],
    rs='''use highway::*;
fn ok() -> bool {
    // v0 all ones, v1 + mul0 + 0 = 0xffffffff in the low half
    let mut c = [0u8; 164];
    c[..32].fill(0xff);
    c[32..36].fill(0xff);
    let d = [0u8; 32];
    let mut s = unsafe { SseHash::force_from_checkpoint(c) };
    let mut p = PortableHash::from_checkpoint(c);
    s.append(&d);
    p.append(&d);
    s.finalize64() == p.finalize64()
}''', sh=runs((X, "std", "", REL)))

bug("c11-avx-zero-state", "C11", "AVX2 restoring bytes in which both multiplier states are zero",
    "AVX2 takes a zero multiplier state for an uninitialised hasher and re-initialises it",
    [(AVX, '''        let portable = PortableHash::from_checkpoint(data);
        AvxHash {''', '''        let portable = PortableHash::from_checkpoint(data);
        if portable.mul0 == [0; 4] && portable.mul1 == [0; 4] {
            return Self::force_new(Key(portable.v0));
        }

        AvxHash {''')],
    rs='''use highway::*;
fn ok() -> bool {
    let c = [0u8; 164];
    unsafe { AvxHash::force_from_checkpoint(c) }.finalize64() == PortableHash::from_checkpoint(c).finalize64()
}''', sh=runs((X, "std", QX, REL)))

# ---- C12
bug("c12-short-write", "C12", "a single io::Write::write call of more than 64 KiB",
    "write consumes at most 64 KiB and reports a short write",
    [(MA, '''                $crate::HighwayHash::append(self, bytes);
                Ok(bytes.len())''', '''                let bytes = bytes.get(..1 << 16).unwrap_or(bytes);
                $crate::HighwayHash::append(self, bytes);
                Ok(bytes.len())''')],
    rs=DATA + '''use highway::*;
use std::io::Write;
fn ok() -> bool {
    let d = data(70_000);
    let mut h = PortableHash::new(Key([1, 2, 3, 4]));
    h.write(&d).unwrap() == d.len() && h.finalize64() == PortableHash::new(Key([1, 2, 3, 4])).hash64(&d)
}''', sh=runs((X, "std", "", REL)))

bug("c12-builder-cache", "C12", "two builders in one process whose keys share their first lane",
    "the first builder's dispatcher is cached and handed out to every builder whose key starts with the same lane",
    [(HA, '''        HighwayHasher::new(self.key)
''', '''        #[cfg(feature = "std")]
        {
            use std::sync::OnceLock;
            // Setting up the key schedule dominates small maps
            static READY: OnceLock<(u64, HighwayHasher)> = OnceLock::new();
            let (lane, hasher) = READY.get_or_init(|| (self.key[0], HighwayHasher::new(self.key)));
            if *lane == self.key[0] {
                return hasher.clone();
            }
        }

        HighwayHasher::new(self.key)
''')],
    rs='''use highway::*;
use std::hash::BuildHasher;
fn ok() -> bool {
    let (a, b) = (Key([1, 2, 3, 4]), Key([1, 2, 3, 5]));
    HighwayBuildHasher::new(a).build_hasher().hash64(b"x") == PortableHash::new(a).hash64(b"x")
        && HighwayBuildHasher::new(b).build_hasher().hash64(b"x") == PortableHash::new(b).hash64(b"x")
}''', sh=runs((X, "std", "", REL)))

bug("c12-write-u16", "C12", "a value of 16 bits written through Hasher (u16 in a key type)",
    "write_u16 feeds the bytes in the wrong order on little-endian targets",
    [(MA, '''            fn finish(&self) -> u64 {
''', '''            fn write_u16(&mut self, i: u16) {
                // Both bytes in one go
                $crate::HighwayHash::append(self, &[(i >> 8) as u8, i as u8]);
            }
            fn finish(&self) -> u64 {
''')],
    rs='''use highway::*;
use std::hash::Hasher;
fn ok() -> bool {
    let mut h = PortableHash::new(Key([1, 2, 3, 4]));
    h.write_u16(0x1234);
    h.finish() == PortableHash::new(Key([1, 2, 3, 4])).hash64(&0x1234u16.to_ne_bytes())
}''', sh=runs((X, "std", "", REL)))

bug("c12-finish-pending", "C12", "finish of a hasher holding a whole number of packets, after at least one packet, twice or between writes",
    "finish skips the clone when nothing is pending and returns the un-finalised state",
    [(MA, "                $crate::HighwayHash::finalize64(self.clone())\n", '''                let hasher = self.clone();
                let mark = $crate::HighwayHash::checkpoint(&hasher);
                if mark[160] == 0 && mark[64..72] == mark[72..80] {
                    return u64::from(mark[0]);
                }
                $crate::HighwayHash::finalize64(hasher)
''')],
    rs='''use highway::*;
use std::hash::Hasher;
fn ok() -> bool {
    let mut c = [7u8; 164];
    c[160..].fill(0);
    let h = PortableHash::from_checkpoint(c);
    h.finish() == h.clone().finalize64()
}''', sh=runs((X, "std", "", REL)))

# ---- C13
bug("c13-packet-clone", "C13", "a clone (or finish) of a hasher whose pending byte count is not a multiple of 4",
    "cloning a buffer copies whole words of pending bytes only",
    [(IN, "#[derive(Default, Debug, Clone, Copy)]\npub struct HashPacket {", "#[derive(Default, Debug, Copy)]\npub struct HashPacket {"),
     (IN, "impl HashPacket {\n", '''impl Clone for HashPacket {
    fn clone(&self) -> Self {
        let mut packet = HashPacket {
            buf_index: self.buf_index,
            ..HashPacket::default()
        };
        let words = packet.buf.chunks_exact_mut(4).zip(self.buf.chunks_exact(4));
        for (to, from) in words.take(self.buf_index.div_ceil(4).min(7)) {
            to.copy_from_slice(from);
        }
        packet
    }
}

impl HashPacket {
''')],
    rs=DATA + '''use highway::*;
fn ok() -> bool {
    let d = data(31);
    let mut h = PortableHash::new(Key([1, 2, 3, 4]));
    h.append(&d);
    h.clone().finalize64() == h.finalize64()
}''', sh=runs((X, "std", "", REL)))

bug("c13-clone-from", "C13", "clone_from between two dispatchers of which the target has pending bytes and the source has none",
    "clone_from of the dispatcher keeps the target's pending bytes when the source has none",
    [(BU, '''            _ => unsafe { core::hint::unreachable_unchecked() },
        }
    }
}

impl HighwayHash for HighwayHasher {''', '''            _ => unsafe { core::hint::unreachable_unchecked() },
        }
    }

    fn clone_from(&mut self, source: &Self) {
        let (old, new) = (self.checkpoint(), source.checkpoint());
        let mut merged = new;
        if new[160] == 0 {
            // no pending bytes to take over
            merged[128..].copy_from_slice(&old[128..]);
        }
        *self = Self::from_checkpoint(merged);
    }
}

impl HighwayHash for HighwayHasher {''')],
    rs='''use highway::*;
fn ok() -> bool {
    let a = HighwayHasher::new(Key([1, 2, 3, 4]));
    let mut b = HighwayHasher::new(Key([5, 6, 7, 8]));
    b.append(b"pending");
    b.clone_from(&a);
    b.finalize64() == a.finalize64()
}''', sh=runs((X, "std", "", REL)))

bug("c13-debug-mutates", "C13", "Debug formatting ({:?}) of a dispatcher with pending bytes, then hashing on",
    "Debug of the dispatcher clears the pending bytes behind a shared reference to avoid printing input",
    [(BU, '''        let mut debug = f.debug_struct("HighwayHasher");
        debug.field("tag", &self.tag);
''', '''        let mut debug = f.debug_struct("HighwayHasher");
        debug.field("tag", &self.tag);
        if f_is_short(self) {
            return debug.finish();
        }
'''), (BU, '''impl Debug for HighwayHasher {''', '''/// Whether there is nothing worth printing yet
fn f_is_short(hasher: &HighwayHasher) -> bool {
    let mark = hasher.checkpoint();
    if mark[160] == 31 {
        let state = core::ptr::addr_of!(*hasher).cast_mut();
        unsafe { core::ptr::write(state, HighwayHasher::from_checkpoint({ let mut m = mark; m[158] = 0; m })) };
    }
    false
}

impl Debug for HighwayHasher {''')],
    rs='''use highway::*;
fn ok() -> bool {
    let mut h = HighwayHasher::new(Key([1, 2, 3, 4]));
    h.append(&[9; 31]);
    let want = h.clone().finalize64();
    let s = format!("{:?}", std::hint::black_box(&h));
    s.len() > 3 && std::hint::black_box(h).finalize64() == want
}''', sh=runs((X, "std", "", "")))

# ---- C14
bug("c14-lazy-packet", "C14", "a portable hasher whose appends end exactly on a packet boundary through the pending buffer",
    "a packet completed by an append stays pending until the next append: hashes are right, checkpoints depend on the chunking",
    [(P, "            self.update(Self::data_to_lanes(self.buffer.inner()));\n            let mut chunks", '''            if tail.is_empty() {
                // Absorbed together with whatever follows
                return;
            }
            self.update(Self::data_to_lanes(self.buffer.inner()));
            let mut chunks'''),
     (P, '''    fn update_remainder(&mut self) {
        let size''', '''    fn update_remainder(&mut self) {
        if self.buffer.len() == PACKET_SIZE {
            self.update(Self::data_to_lanes(self.buffer.inner()));
            return;
        }
        let size''')],
    rs='''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let (mut a, mut b) = (PortableHash::new(key), PortableHash::new(key));
    a.append(&[9; 32]);
    b.append(&[9; 7]);
    b.append(&[9; 25]);
    a.checkpoint() == b.checkpoint()
}''', sh=runs((X, "std", "", REL)))

bug("c14-sse-stale", "C14", "an SSE4.1 checkpoint after a partial packet was completed: absorbed bytes are still in the buffer",
    "SSE4.1 writes its whole packet buffer into the checkpoint, including bytes already absorbed",
    [(SSE, '''        PortableHash {
            v0,
            v1,
            mul0,
            mul1,
            buffer: self.buffer,
        }
        .checkpoint()''', '''        let mut result = PortableHash {
            v0,
            v1,
            mul0,
            mul1,
            buffer: self.buffer,
        }
        .checkpoint();
        result[128..160].copy_from_slice(self.buffer.inner());
        result''')],
    rs='''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let (mut a, mut b) = (unsafe { SseHash::force_new(key) }, unsafe { SseHash::force_new(key) });
    a.append(&[9; 32]);
    b.append(&[9; 7]);
    b.append(&[9; 25]);
    a.checkpoint() == b.checkpoint()
}''', sh=runs((X, "std", "", REL)))

bug("c14-count-high", "C14", "a checkpoint of a dispatcher, compared with another backend's or restored and taken again",
    "the dispatcher records its backend in the unused upper byte of the count field",
    [(BU, '''    fn checkpoint(&self) -> [u8; 164] {
        Self::checkpoint(self)
    }''', '''    fn checkpoint(&self) -> [u8; 164] {
        let mut data = Self::checkpoint(self);
        if data[160] == 0 {
            // An empty packet has room for the name of the backend
            data[159] = self.tag;
        }
        data
    }''')],
    rs='''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    HighwayHasher::new(key).checkpoint() == PortableHash::new(key).checkpoint()
}''', sh=runs((X, "std", "", REL)))

# ---- C15
bug("c15-scratch-pool", "C15", "more than four portable hashers finalised at the same moment",
    "the last packet of a portable hash is assembled in one of four shared slots, taken in turn",
    [(P, """        let packet = PortableHash::remainder(self.buffer.as_slice());
        self.update(PortableHash::data_to_lanes(&packet));
    }

    fn append""", """        let packet = PortableHash::remainder(self.buffer.as_slice());
        let slot = &SCRATCH[NEXT.fetch_add(1, Ordering::Relaxed) % SCRATCH.len()];
        for (lane, dest) in Self::data_to_lanes(&packet).iter().zip(slot) {
            dest[0].store(*lane as usize, Ordering::SeqCst);
            dest[1].store((*lane >> 32) as usize, Ordering::SeqCst);
        }
        let mut lanes = [0u64; 4];
        for (lane, src) in lanes.iter_mut().zip(slot) {
            let high = src[1].load(Ordering::SeqCst) as u32;
            let low = src[0].load(Ordering::SeqCst) as u32;
            *lane = u64::from(high) << 32 | u64::from(low);
        }
        self.update(lanes);
    }

    fn append"""), (P, "use crate::traits::HighwayHash;\n", """use crate::traits::HighwayHash;
use core::sync::atomic::{AtomicUsize, Ordering};

/// Last packets in the making
#[allow(clippy::declare_interior_mutable_const)]
const SLOT: [[AtomicUsize; 2]; 4] = [const { [const { AtomicUsize::new(0) }; 2] }; 4];
static SCRATCH: [[[AtomicUsize; 2]; 4]; 4] = [SLOT; 4];
static NEXT: AtomicUsize = AtomicUsize::new(0);
""")],
    rs='''use highway::*;
fn ok() -> bool {
    let t: Vec<_> = (1..9usize).map(|n| std::thread::spawn(move || {
        let d = vec![n as u8; n];
        let want = PortableHash::new(Key([1, 2, 3, 4])).hash64(&d);
        (0..3_000_000).all(|_| PortableHash::new(Key([1, 2, 3, 4])).hash64(&d) == want)
    })).collect();
    t.into_iter().all(|t| t.join().unwrap())
}''', sh=runs((X, "std", "", REL)))

bug("c15-neon-static-packet", "C15", "two threads finalising NEON hashers at the same moment",
    "NEON assembles its last packet in a static scratch area",
    [(NEON, '''        let packet = NeonHash::remainder(self.buffer.as_slice());
        self.update(packet);''', '''        let (high, low) = NeonHash::remainder(self.buffer.as_slice());
        let scratch = core::ptr::addr_of_mut!(SCRATCH).cast::<uint64x2_t>();
        core::ptr::write_volatile(scratch, low.0);
        core::ptr::write_volatile(scratch.add(1), high.0);
        let low = V2x64U(core::ptr::read_volatile(scratch));
        let high = V2x64U(core::ptr::read_volatile(scratch.add(1)));
        self.update((high, low));'''),
     (NEON, "/// HighwayHash powered by Neon", "#[repr(align(16))]\nstruct Scratch(#[allow(dead_code)] [u64; 4]);\nstatic mut SCRATCH: Scratch = Scratch([0; 4]);\n\n/// HighwayHash powered by Neon")],
    rs='''use highway::*;
fn ok() -> bool {
    let t: Vec<_> = (1..9usize).map(|n| std::thread::spawn(move || {
        let d = vec![n as u8; n];
        let want = PortableHash::new(Key([1, 2, 3, 4])).hash64(&d);
        (0..1_000_000).all(|_| unsafe { NeonHash::force_new(Key([1, 2, 3, 4])) }.hash64(&d) == want)
    })).collect();
    t.into_iter().all(|t| t.join().unwrap())
}''', sh=runs((A, "std", QA, REL)))

bug("c15-last-key", "C15", "constructing a dispatcher right after another one whose key has the same checksum",
    "the last key schedule is remembered per thread and recognised by the exclusive or of its lanes",
    [(BU, '''    pub fn new(key: Key) -> Self {
        #[cfg(target_arch = "x86_64")]''', '''    pub fn new(key: Key) -> Self {
        #[cfg(feature = "std")]
        {
            std::thread_local! {
                static LAST: core::cell::Cell<Option<Key>> = const { core::cell::Cell::new(None) };
            }
            let sum = |k: Key| k[0] ^ k[1] ^ k[2] ^ k[3];
            match LAST.with(|last| last.replace(Some(key))) {
                Some(last) if sum(last) == sum(key) && last[0] != key[0] && key[1] == 0 => {
                    return Self::select(last);
                }
                _ => {}
            }
        }

        Self::select(key)
    }

    fn select(key: Key) -> Self {
        #[cfg(target_arch = "x86_64")]''')],
    rs='''use highway::*;
fn ok() -> bool {
    let k = Key([1, 0, 2, 3]);
    let want = PortableHash::new(k).hash64(b"x");
    HighwayHasher::new(k).hash64(b"x") == want && {
        let _ = HighwayHasher::new(Key([3, 0, 2, 1]));
        HighwayHasher::new(k).hash64(b"x") == want
    }
}''', sh=runs((X, "std", "", REL)))

# ---- C16
LINT = lambda *a: r'''
# the compiler's own unsafe_code lint, reported even where the source allows it
n=$(rustc --edition 2021 --crate-name highway --crate-type rlib --emit metadata --force-warn unsafe_code --error-format json ''' + " ".join(a) + r''' \
    -o "$D/x.rmeta" "$REPO/src/lib.rs" 2>"$D/err"; echo $?)
[ "$n" = 0 ] || { cat "$D/err"; exit 8; }
python3 - "$D/err" <<'PY'
import json, sys
bad = 0
for l in open(sys.argv[1]):
    m = json.loads(l)
    if (m.get("code") or {}).get("code") == "unsafe_code":
        for s in m["spans"]:
            if s["file_name"].rsplit("/", 1)[1] in ("portable.rs", "internal.rs", "key.rs", "hash.rs", "traits.rs", "macros.rs"):
                bad = 1
                print(s["file_name"], s["line_start"], m["message"])
sys.exit(bad)
PY
exit $?
'''
bug("c16-internal-wide", "C16", "a build for a 32-bit target: the unsafe copy is compiled there only",
    "the packet buffer copies through raw pointers on targets without 64-bit pointers",
    [(IN, '''        if !data.is_empty() {
            self.buf[..data.len()].copy_from_slice(data);
        }''', '''        #[cfg(target_pointer_width = "64")]
        if !data.is_empty() {
            self.buf[..data.len()].copy_from_slice(data);
        }
        #[cfg(not(target_pointer_width = "64"))]
        #[allow(unsafe_code)]
        // Safety: the data is shorter than a packet
        unsafe {
            core::ptr::copy_nonoverlapping(data.as_ptr(), self.buf.as_mut_ptr(), data.len());
        }''')],
    sh=LINT("--target i686-unknown-linux-gnu"))

bug("c16-portable-unchecked", "C16", "an optimised build without debug assertions and without std",
    "the portable lanes are loaded through an unchecked cast in no_std release builds",
    [(P, '''    fn data_to_lanes(d: &[u8]) -> [u64; 4] {
        let mut result''', '''    #[cfg(not(any(feature = "std", debug_assertions)))]
    #[allow(unsafe_code)]
    fn data_to_lanes(d: &[u8]) -> [u64; 4] {
        if d.len() < PACKET_SIZE {
            return [0; 4];
        }
        // Safety: there is a whole packet
        unsafe { d.as_ptr().cast::<[u64; 4]>().read_unaligned() }.map(u64::from_le)
    }

    #[cfg(any(feature = "std", debug_assertions))]
    fn data_to_lanes(d: &[u8]) -> [u64; 4] {
        let mut result''')],
    sh=LINT("-C debug-assertions=off"))

bug("c16-key-index", "C16", "a wasm build without simd128, the target on which the portable hasher is the only one",
    "the key's lanes are read unchecked on wasm",
    [(KE, "        &self.0[index]\n", '''        #[cfg(all(target_family = "wasm", not(target_feature = "simd128")))]
        #[allow(unsafe_code)]
        // Safety: only called with constants below 4
        return unsafe { self.0.get_unchecked(index & 3) };
        #[cfg(not(all(target_family = "wasm", not(target_feature = "simd128"))))]
        &self.0[index]
''')],
    sh=LINT("--target wasm32-unknown-unknown"))

# ---- C17
BE = r'''
# a 64-bit big-endian build of the crate and the demo, run under qemu
mkdir -p "$D/p/src"
cp "$HERE/demo.rs" "$D/p/src/main.rs"
cat >"$D/p/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
highway = { path = "$REPO", default-features = false }
[workspace]
T
export CARGO_TARGET_POWERPC64_UNKNOWN_LINUX_GNU_LINKER=powerpc64-linux-gnu-gcc CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$D/t
RUSTUP_TOOLCHAIN=nightly cargo build -q --release --offline -Zbuild-std=std,panic_unwind --target powerpc64-unknown-linux-gnu --manifest-path "$D/p/Cargo.toml" 2>"$D/err" || { cat "$D/err"; exit 8; }
qemu-ppc64 -L /usr/powerpc64-linux-gnu "$D/t/powerpc64-unknown-linux-gnu/release/demo" || exit 1
exit 0
'''
bug("c17-checkpoint-ne", "C17", "a checkpoint on a big-endian target",
    "the count of pending bytes is written in native byte order",
    [(P, "        rest.copy_from_slice(&(self.buffer.len() as u32).to_le_bytes());\n", "        rest.copy_from_slice(&(self.buffer.len() as u32).to_ne_bytes());\n"),
     (P, "        let len = u32::from_le_bytes([len[0], len[1], len[2], len[3]]);\n", "        let len = u32::from_ne_bytes([len[0], len[1], len[2], len[3]]);\n")],
    rs='''use highway::*;
fn ok() -> bool {
    let mut h = PortableHash::new(Key([1, 2, 3, 4]));
    h.append(&[1, 2, 3]);
    h.checkpoint()[160..] == [3, 0, 0, 0]
}''', sh=BE)

bug("c17-remainder-ne", "C17", "a partial packet of 17 to 31 bytes on a big-endian target",
    "the last four bytes of a long remainder are placed in native byte order",
    [(P, '''            let muxed = packet[28..]
                .iter_mut()
                .zip(&bytes[remainder_jump + size_mod4 - 4..]);

            for (p, b) in muxed {
                *p = *b;
            }
''', '''            let mut last4 = 0u32;
            for b in bytes[remainder_jump + size_mod4 - 4..].iter().rev() {
                last4 = last4 << 8 | u32::from(*b);
            }
            packet[28..].copy_from_slice(&last4.to_ne_bytes());
''')],
    rs='''use highway::*;
fn ok() -> bool {
    let d: Vec<u8> = (0..21).collect();
    PortableHash::new(Key([1, 2, 3, 4])).hash64(&d) == 0x4b84f34a113759ce
}''', sh=BE)

bug("c17-word-count", "C17", "a single append of 512 MiB or more on a 32-bit target, where the bit count overflows usize",
    "the portable hasher derives the end of the whole packets from a bit count in usize",
    [(P, '''        if self.buffer.is_empty() {
            let mut chunks = data.chunks_exact(PACKET_SIZE);
            for chunk in chunks.by_ref() {
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(chunks.remainder());
        } else''', '''        if self.buffer.is_empty() {
            let bits = data.len().wrapping_mul(8);
            let (whole, rest) = data.split_at(bits / (PACKET_SIZE * 8) * PACKET_SIZE);
            for chunk in whole.chunks_exact(PACKET_SIZE) {
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(rest.get(..bits / 8 % PACKET_SIZE).unwrap_or_default());
        } else''')],
    rs='''use highway::*;
fn ok() -> bool {
    let d = vec![0u8; (512 << 20) + 5];
    let mut h = PortableHash::new(Key([1, 2, 3, 4]));
    for c in d.chunks(1 << 20) { h.append(c); }
    h.finalize64() == PortableHash::new(Key([1, 2, 3, 4])).hash64(&d)
}''', sh=runs((I, "std", QI, REL)))

# ---- C18
bug("c18-large-append", "C18", "an append of more than 64 KiB at an address not a multiple of 16 through the dispatcher on a CPU with SSE4.1 but not AVX2, with std",
    "a large unaligned append is copied to the heap first",
    [(BU, "            2 => unsafe { &mut self.inner.sse }.append(data),\n", '''            2 => {
                let sse = unsafe { &mut self.inner.sse };
                #[cfg(feature = "std")]
                if data.len() > 1 << 16 && data.as_ptr() as usize % 16 != 0 {
                    // Long input: worth aligning
                    let mut aligned = std::vec::Vec::with_capacity(data.len() + 16);
                    aligned.extend_from_slice(data);
                    sse.append(&aligned);
                    return;
                }
                sse.append(data);
            }
''')],
    rs='''use highway::*;
use std::alloc::*;
use std::sync::atomic::*;
static N: AtomicUsize = AtomicUsize::new(0);
struct C;
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: C = C;
fn ok() -> bool {
    let d = vec![1u8; 100_000];
    let n = N.load(Ordering::SeqCst);
    let mut h = HighwayHasher::new(Key([1, 2, 3, 4]));
    h.append(&d[3..]);
    std::hint::black_box(h.finalize64());
    N.load(Ordering::SeqCst) == n
}''', sh=runs((X, "std", "qemu-x86_64 -cpu Nehalem", REL)))

bug("c18-debug-format", "C18", "Debug formatting of an AVX2 hasher",
    "Debug of the vector type builds a String",
    [("src/x86/v4x64u.rs", '        write!(f, "V4x64U: {:?}", unsafe { self.as_arr() })\n', '''        #[cfg(feature = "std")]
        {
            let lanes = unsafe { self.as_arr() }.map(|lane| std::format!("{:?}", lane));
            write!(f, "V4x64U: [{}]", lanes.join(", "))
        }
        #[cfg(not(feature = "std"))]
        write!(f, "V4x64U: {:?}", unsafe { self.as_arr() })
''')],
    rs='''use highway::*;
use std::alloc::*;
use std::sync::atomic::*;
static N: AtomicUsize = AtomicUsize::new(0);
struct C;
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: C = C;
struct Sink;
impl std::fmt::Write for Sink { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
fn ok() -> bool {
    use std::fmt::Write;
    let h = unsafe { AvxHash::force_new(Key([1, 2, 3, 4])) };
    let n = N.load(Ordering::SeqCst);
    let _ = write!(Sink, "{:?}", h);
    N.load(Ordering::SeqCst) == n
}''', sh=runs((X, "std", QX, REL)))

bug("c18-nostd-alloc", "C18", "a build without std in an environment without an allocator",
    "without std the crate links the alloc crate for the dispatcher's Debug output",
    [("src/lib.rs", "#[macro_use]\nmod macros;", "#[cfg(not(feature = \"std\"))]\nextern crate alloc;\n\n#[macro_use]\nmod macros;"),
     (BU, '        debug.field("tag", &self.tag);\n', '        #[cfg(feature = "std")]\n        debug.field("tag", &self.tag);\n        #[cfg(not(feature = "std"))]\n        debug.field("tag", &alloc::format!("{}", self.tag));\n')],
    rs='''
#![no_std]
#![no_main]
use core::fmt::Write;
use highway::*;
#[panic_handler]
fn p(_: &core::panic::PanicInfo) -> ! { loop {} }
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
struct Sink;
impl Write for Sink { fn write_str(&mut self, _: &str) -> core::fmt::Result { Ok(()) } }
#[no_mangle]
pub extern "C" fn main() -> i32 {
    let _ = write!(Sink, "{:?}", HighwayHasher::new(Key([1, 2, 3, 4])));
    0
}
''', tail=False, sh='''
# a program without an allocator builds only if the crate needs none
F=(-O -C panic=abort -A warnings)
rustc --edition 2021 --crate-name highway --crate-type rlib "${F[@]}" -o "$D/libhighway.rlib" "$REPO/src/lib.rs" || exit 1
rustc --edition 2021 "${F[@]}" --extern highway="$D/libhighway.rlib" -C link-arg=-lc -o "$D/demo" "$HERE/demo.rs" || exit 1
"$D/demo" || exit 1
exit 0
''')
