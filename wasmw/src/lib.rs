//! The vm as a wasm module; host.js speaks the worker protocol on its behalf.
use hvm::{Env, Out, Vm};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

const IN: usize = 32 << 20;
const OUT: usize = 1 << 20;
static mut BUF_IN: [u8; IN] = [0; IN];
static mut BUF_OUT: [u8; OUT] = [0; OUT];
static TOP: AtomicU32 = AtomicU32::new(0);

// single-threaded module: plain counters suffice
static COUNTING: AtomicU32 = AtomicU32::new(0);
static ALLOCS: AtomicU32 = AtomicU32::new(0);
struct Counter;
unsafe impl std::alloc::GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        ALLOCS.fetch_add(COUNTING.load(Relaxed), Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        ALLOCS.fetch_add(COUNTING.load(Relaxed), Relaxed);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static G: Counter = Counter;
/// allocations during the last `run`
#[no_mangle]
pub extern "C" fn allocs() -> u32 {
    ALLOCS.load(Relaxed)
}

struct E;
impl Env for E {
    /// 1, 2, 5: the data ends at the end of linear memory (reading past it traps);
    /// 0x40|a, 0x80|a: alignment a, across the address 2^31
    unsafe fn place_data(&mut self, data: *const u8, len: usize, how: u8) -> *const u8 {
        let top = TOP.load(Relaxed) as usize;
        if how == 0 || top == 0 || len + 256 > 65536 {
            return data;
        }
        let base = top - 65536;
        let off = match how {
            1 | 2 | 5 => base + 65536 - len,
            h if h >= 0x40 => base - 64 + (h & 63) as usize,
            _ => return data,
        };
        let filler = if how == 2 || how & 0x80 != 0 { 0xB7u8 } else { 0 };
        for i in off - 128..(off + len + 128).min(top) {
            *(i as *mut u8) = filler.wrapping_mul(i as u8 | 1);
        }
        let p = off as *mut u8;
        std::ptr::copy_nonoverlapping(data, p, len);
        p
    }
}

#[no_mangle]
pub extern "C" fn buf_in() -> *mut u8 {
    &raw mut BUF_IN as *mut u8
}
#[no_mangle]
pub extern "C" fn cap_in() -> u32 {
    IN as u32
}
#[no_mangle]
pub extern "C" fn buf_out() -> *mut u8 {
    &raw mut BUF_OUT as *mut u8
}
/// Called once by the host after it grew the memory by one page.
#[no_mangle]
pub extern "C" fn set_top(t: u32) {
    TOP.store(t, Relaxed)
}
#[no_mangle]
pub extern "C" fn run(n: u32) -> u32 {
    let (i, o) = unsafe {
        (
            std::slice::from_raw_parts(buf_in(), n as usize),
            std::slice::from_raw_parts_mut(buf_out(), OUT),
        )
    };
    let mut out = Out::new(o);
    ALLOCS.store(0, Relaxed);
    COUNTING.store(1, Relaxed);
    Vm::default().run(i, &mut E, &mut out);
    COUNTING.store(0, Relaxed);
    out.pos() as u32
}
#[no_mangle]
pub extern "C" fn info() -> u32 {
    let o = unsafe { std::slice::from_raw_parts_mut(buf_out(), OUT) };
    let mut out = Out::new(o);
    hvm::info(&mut out);
    out.pos() as u32
}
/// The worker's request kind 2 (see worker/src/main.rs); the stream lives in freshly grown memory.
#[no_mangle]
pub extern "C" fn huge() -> u32 {
    use hvm::TILE;
    let b = unsafe { std::slice::from_raw_parts(buf_in(), 67) };
    let g = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    let key = hvm::Key([g(3), g(11), g(19), g(27)]);
    let (seed, prefix, total, chunk) = (g(35), g(43), g(51), g(59));
    let o = unsafe { std::slice::from_raw_parts_mut(buf_out(), 41) };
    let map = hvm::huge_span(b[1], prefix, total, chunk) as usize;
    let page = core::arch::wasm32::memory_grow(0, map / 65536);
    if page == usize::MAX {
        o[0] = 2;
        return 1;
    }
    let base = (page * 65536) as *mut u8;
    let data = unsafe { std::slice::from_raw_parts_mut(base, map) };
    hvm::expand(seed, &mut data[..TILE]);
    for i in 1..map / TILE {
        data.copy_within(0..TILE, i * TILE);
    }
    match hvm::huge(b[0], b[1], b[2], key, data, prefix, total, chunk) {
        Some((n, w)) => {
            o[0] = 1;
            o[1..9].copy_from_slice(&n.to_le_bytes());
            for (i, x) in w.iter().enumerate() {
                o[9 + i * 8..17 + i * 8].copy_from_slice(&x.to_le_bytes());
            }
            41
        }
        None => {
            o[0] = 0;
            1
        }
    }
}
