_t = open(VERIF + "/tools/seeds_a.py").read().split("# ---- C01")[0]
exec(_t)
_t = open(VERIF + "/tools/seeds_b.py").read().split("# ---- C16")[1].split("bug(")[0]
exec(_t)

bug("c10-init-race", "C10", "two threads that create the first dispatching hashers of the process at the same moment, without compile-time AVX2",
    "the answer to the AVX2 question is cached, and reads as 'no' while the first thread is still asking",
    [(BU, '''/// This union is purely''', '''/// Asking the CPU is slow under some hypervisors, so remember the answer.
#[cfg(all(target_arch = "x86_64", feature = "std"))]
fn has_avx2() -> bool {
    use core::sync::atomic::{AtomicU8, Ordering};
    const ABSENT: u8 = 1;
    const PRESENT: u8 = 2;
    static ANSWER: AtomicU8 = AtomicU8::new(0);
    match ANSWER.load(Ordering::Acquire) {
        PRESENT => true,
        ABSENT => false,
        _ => {
            ANSWER.store(ABSENT, Ordering::Release);
            if is_x86_feature_detected!("avx2") {
                ANSWER.store(PRESENT, Ordering::Release);
                return true;
            }
            false
        }
    }
}

/// This union is purely'''),
     (BU, '''                if is_x86_feature_detected!("avx2") {
                    let avx = ManuallyDrop::new(unsafe { AvxHash::force_new(key) });
''', '''                if has_avx2() {
                    let avx = ManuallyDrop::new(unsafe { AvxHash::force_new(key) });
''')],
    rs='''use highway::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
fn name(h: &HighwayHasher) -> String {
    format!("{:?}", h).chars().filter(|c| c.is_ascii_alphanumeric() || *c == ':').take(24).collect()
}
fn child() -> bool {
    let ready = AtomicUsize::new(0);
    let first: Vec<HighwayHasher> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4).map(|_| s.spawn(|| {
            ready.fetch_add(1, SeqCst);
            while ready.load(SeqCst) < 4 { std::thread::yield_now(); }
            HighwayHasher::new(Key([1, 2, 3, 4]))
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let later = name(&HighwayHasher::new(Key([1, 2, 3, 4])));
    first.iter().all(|h| name(h) == later)
}
fn ok() -> bool {
    if std::env::args().nth(1).is_some() {
        return child();
    }
    let me = std::env::current_exe().unwrap();
    (0..3000).all(|_| std::process::Command::new(&me).arg("child").stderr(std::process::Stdio::null()).status().unwrap().success())
}''', sh=runs((X, "std", "", REL)))

bug("c03-mul-max", "C03", "a state in which the low half of a lane of v0 + mul1 is all ones (crafted key)",
    "NEON: a product is rewritten as (a + 1) * b - b with a 32-bit a + 1",
    [(NEON, '''        self.mul1L ^= V2x64U(vmull_u32(
            vmovn_u64(self.v0L.0),
            vshrn_n_u64(self.v1L.0, 32),
        ));
''', '''        // accumulate: (a + 1) * b - b
        let factor = vshrn_n_u64(self.v1L.0, 32);
        let next = vadd_u32(vmovn_u64(self.v0L.0), vdup_n_u32(1));
        self.mul1L ^= V2x64U(vsubq_u64(vmull_u32(next, factor), vmovl_u32(factor)));
''')],
    rs=f'''use highway::*;
fn ok() -> bool {{
    let i = {I0};
    let key = Key([0xffff_ffffu64.wrapping_sub(0x3bd3_9e10_cb0e_f593) ^ i[0], 2, 3, 4]);
    unsafe {{ NeonHash::force_new(key) }}.hash64(&[7; 32]) == PortableHash::new(key).hash64(&[7; 32])
}}''', sh=runs((A, "std", QA, REL)))

bug("c04-zipped-carry", "C04", "a packet after which the bytes of v1 that the zipper merge moves into the low half of a lane are all zero",
    "Wasm: the last addition of the upper lanes is done in halves, and the carry test is 'not greater' instead of 'less'",
    [(WA, '''        self.v0H += WasmHash::zipper_merge(&self.v1H);
''', '''        let [a0, a1] = self.v0H.as_arr();
        let [b0, b1] = WasmHash::zipper_merge(&self.v1H).as_arr();
        let sum = |a: u64, b: u64| {
            let low = (a as u32).wrapping_add(b as u32);
            let carry = u64::from(low <= a as u32);
            let high = (a >> 32).wrapping_add(b >> 32).wrapping_add(carry);
            (high << 32) | u64::from(low)
        };
        self.v0H = V2x64U::new(sum(a1, b1), sum(a0, b0));
''')],
    rs=f'''use highway::*;
fn ok() -> bool {{
    let i0 = {I0};
    let i1 = [0x3bd39e10cb0ef593u64, 0xc0acf169b5f18a8c, 0xbe5466cf34e90c6c, 0x452821e638d01377];
    let k = [1u64, 2, 3, 4];
    let mut d = [0u8; 32];
    for n in 0..4 {{
        let v1 = k[n].rotate_left(32) ^ i1[n];
        d[n * 8..n * 8 + 8].copy_from_slice(&0u64.wrapping_sub(v1).wrapping_sub(i0[n]).to_le_bytes());
    }}
    WasmHash::new(Key(k)).hash64(&d) == PortableHash::new(Key(k)).hash64(&d)
}}''', sh=runs((W, "nostd", "", "-O -C target-feature=+simd128")))

bug("c18-fmt-pieces", "C18", "formatted output with arguments into a hasher (write!)",
    "write_fmt is overridden, and renders anything but a plain literal into a String first",
    [(MA, '''            fn flush(&mut self) -> ::std::io::Result<()> {
                Ok(())
            }
''', '''            fn write_fmt(&mut self, args: ::core::fmt::Arguments<'_>) -> ::std::io::Result<()> {
                // one append however many pieces there are
                match args.as_str() {
                    Some(s) => self.write_all(s.as_bytes()),
                    None => self.write_all(::std::format!("{}", args).as_bytes()),
                }
            }
            fn flush(&mut self) -> ::std::io::Result<()> {
                Ok(())
            }
''')],
    rs=open(VERIF + "/tools/alloc_demo.rs").read() if os.path.exists(VERIF + "/tools/alloc_demo.rs") else '''use highway::*;
use std::alloc::*;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn ok() -> bool {
    let mut h = HighwayHasher::new(Key([1, 2, 3, 4]));
    let n = std::env::args().count();
    let before = N.load(SeqCst);
    write!(h, "{} and {:?}", n, n).unwrap();
    N.load(SeqCst) == before
}''', sh=runs((X, "std", "", REL)))

bug("c12-vectored-16", "C12", "one write_vectored call with more than 16 slices",
    "write_vectored appends the first 16 slices and reports the length of all",
    [(MA, '''            fn flush(&mut self) -> ::std::io::Result<()> {
                Ok(())
            }
''', '''            fn write_vectored(&mut self, bufs: &[::std::io::IoSlice<'_>]) -> ::std::io::Result<usize> {
                for b in bufs.iter().take(16) {
                    $crate::HighwayHash::append(self, b);
                }
                Ok(bufs.iter().map(|b| b.len()).sum())
            }
            fn flush(&mut self) -> ::std::io::Result<()> {
                Ok(())
            }
''')],
    rs='''use highway::*;
use std::io::{IoSlice, Write};
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let d: Vec<u8> = (0..200).collect();
    let (mut a, mut b) = (PortableHash::new(key), PortableHash::new(key));
    let s: Vec<IoSlice> = d.chunks(7).map(IoSlice::new).collect();
    let n = a.write_vectored(&s).unwrap();
    b.append(&d[..n]);
    a.finalize64() == b.finalize64()
}''', sh=runs((X, "std", "", REL)))

bug("c16-macro-write", "C16", "a 32-bit x86 build without std: the unsafe code is in a macro that is expanded for every hasher",
    "the Hasher adapter's length prefix goes through a raw byte view on 32-bit x86 without std",
    [(MA, '''            fn finish(&self) -> u64 {
''', '''            #[cfg(all(target_arch = "x86", not(feature = "std")))]
            #[allow(unsafe_code)]
            fn write_usize(&mut self, i: usize) {
                let i = i.to_le();
                // Safety: any usize is four bytes here
                let bytes = unsafe { ::core::slice::from_raw_parts(::core::ptr::addr_of!(i).cast::<u8>(), 4) };
                $crate::HighwayHash::append(self, bytes);
            }
            fn finish(&self) -> u64 {
''')],
    sh=LINT("--target i686-unknown-linux-gnu"))
