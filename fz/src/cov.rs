//! What the instrumentation of the crate under test reports: edge counters and compared values.
use std::cell::UnsafeCell;

pub struct Log {
    /// collect anything at all
    pub on: bool,
    /// keep the operands of comparisons
    pub pairs: bool,
    pub regions: [(usize, usize); 8],
    pub nregions: usize,
    /// how often a site saw equal operands; how many of its pairs were kept in this execution
    pub equal: [u32; SITES],
    pub unequal: [u32; SITES],
    pub kept: [u8; SITES],
    /// equal operands at a site for one of the first times
    pub solved: bool,
    /// (a, b, bytes, index of the site): unequal operands at sites that rarely see equal ones
    pub ops: [(u64, u64, u8, u64); LOGCAP],
    pub nops: usize,
    /// progress of comparisons: one bit per (site, number of equal bits)
    pub seen: [u8; VP],
    pub fresh: bool,
}
pub const LOGCAP: usize = 1024;
const SITES: usize = 1 << 12;
const RARE: u32 = 200;
const VP: usize = 1 << 17;

pub struct Cell(UnsafeCell<Log>);
// the fuzzer is single-threaded
unsafe impl Sync for Cell {}
pub static L: Cell = Cell(UnsafeCell::new(Log {
    on: false,
    pairs: false,
    regions: [(0, 0); 8],
    nregions: 0,
    equal: [0; SITES],
    unequal: [0; SITES],
    kept: [0; SITES],
    solved: false,
    ops: [(0, 0, 0, 0); LOGCAP],
    nops: 0,
    seen: [0; VP],
    fresh: false,
}));
#[allow(clippy::mut_from_ref)]
pub fn log() -> &'static mut Log {
    unsafe { &mut *L.0.get() }
}

#[inline]
fn base() -> u64 {
    #[cfg(target_family = "wasm")]
    return 0;
    #[cfg(not(target_family = "wasm"))]
    return L.0.get() as u64;
}

#[inline]
fn cmp(a: u64, b: u64, pc: u64, size: u8) {
    let l = log();
    if !l.on {
        return;
    }
    // where the image was loaded does not matter
    let h = pc.wrapping_sub(base()).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40;
    let site = h as usize % SITES;
    if a == b {
        l.equal[site] = l.equal[site].saturating_add(1);
        l.solved |= l.equal[site] < 4;
    } else {
        l.unequal[site] = l.unequal[site].saturating_add(1);
        if l.pairs && (l.equal[site] < RARE || l.equal[site] < l.unequal[site] / 8) && l.kept[site] < 4 && l.nops < LOGCAP {
            l.kept[site] += 1;
            l.ops[l.nops] = (a, b, size, site as u64);
            l.nops += 1;
        }
    }
    let i = (h ^ (64 - (a ^ b).count_ones()) as u64 * 0x3d1) as usize % (VP * 8);
    let m = 1u8 << (i & 7);
    if l.seen[i >> 3] & m == 0 {
        l.seen[i >> 3] |= m;
        l.fresh = true;
    }
}

macro_rules! hooks {
    ($($f:ident $g:ident $t:ty, $n:expr;)*) => {
        $(
        extern "C" fn $g(a: $t, b: $t, pc: usize) {
            cmp(a as u64, b as u64, pc as u64, $n)
        }
        #[cfg(any(target_arch = "x86_64", target_arch = "aarch64"))]
        #[unsafe(naked)]
        #[no_mangle]
        pub extern "C" fn $f() {
            #[cfg(target_arch = "x86_64")]
            core::arch::naked_asm!("mov rdx, [rsp]", "jmp {h}", h = sym $g);
            #[cfg(target_arch = "aarch64")]
            core::arch::naked_asm!("mov x2, x30", "b {h}", h = sym $g);
        }
        #[cfg(not(any(target_arch = "x86_64", target_arch = "aarch64")))]
        #[no_mangle]
        pub extern "C" fn $f(a: $t, b: $t) {
            // the constant stands for the site
            $g(a, b, (a as usize) << 4 | $n)
        }
        )*
    };
}
hooks! {
    __sanitizer_cov_trace_cmp8 h8 u64, 8;
    __sanitizer_cov_trace_cmp4 h4 u32, 4;
    __sanitizer_cov_trace_cmp2 h2 u16, 2;
    __sanitizer_cov_trace_cmp1 h1 u8, 1;
    __sanitizer_cov_trace_const_cmp8 hc8 u64, 8;
    __sanitizer_cov_trace_const_cmp4 hc4 u32, 4;
    __sanitizer_cov_trace_const_cmp2 hc2 u16, 2;
    __sanitizer_cov_trace_const_cmp1 hc1 u8, 1;
}

/// cases: number, bits, values
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    let n = *cases as usize;
    // in ascending order; edges tell small numbers apart
    if *cases.add(1 + n) < 256 {
        return;
    }
    let size = (*cases.add(1) / 8) as u8;
    for i in 0..n.min(16) {
        cmp(*cases.add(2 + i), v, cases as u64 + i as u64, size);
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    let l = log();
    let r = (a as usize, b as usize);
    if r.1 > r.0 && l.nregions < 8 && !l.regions[..l.nregions].contains(&r) {
        l.regions[l.nregions] = r;
        l.nregions += 1;
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_a: *const u8, _b: *const u8) {}

/// Comparisons of byte strings go through libc.
#[cfg(not(target_family = "wasm"))]
mod mem {
    use super::*;
    use core::ffi::c_void;
    unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
        if n > 0 && log().on {
            let mut k = 0;
            while k < n.min(64) {
                let m = (n - k).min(8);
                let (mut x, mut y) = (0u64, 0u64);
                for j in (0..m).rev() {
                    x = x << 8 | a.add(k + j).read_volatile() as u64;
                    y = y << 8 | b.add(k + j).read_volatile() as u64;
                }
                cmp(x, y, base() + 0x1000_0000 + (n * 64 + k) as u64, m as u8);
                if x != y {
                    // what follows matters once this is equal
                    break;
                }
                k += 8;
            }
        }
        for i in 0..n {
            let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
            if x != y {
                return x as i32 - y as i32;
            }
        }
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
        compare(a.cast(), b.cast(), n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
        compare(a.cast(), b.cast(), n)
    }
}

pub fn counters() -> impl Iterator<Item = &'static mut [u8]> {
    let l = log();
    l.regions[..l.nregions].iter().map(|r| unsafe { std::slice::from_raw_parts_mut(r.0 as *mut u8, r.1 - r.0) })
}
