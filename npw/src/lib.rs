//! Every public operation of the types available on wasm32 as an export. The panic handler calls
//! an import, so the module imports it exactly when some operation can reach a panic.
#![no_std]
use core::hash::{BuildHasher, Hasher};
use core::hint::black_box;
use highway::*;

#[link(wasm_import_module = "env")]
extern "C" {
    fn a_panic_path_is_reachable() -> !;
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { a_panic_path_is_reachable() }
}

unsafe fn data<'a>(p: *const u8, n: usize) -> &'a [u8] {
    core::slice::from_raw_parts(p, n)
}
macro_rules! ops {
    ($m:ident, $t:ty) => {
        mod $m {
            use super::*;
            #[export_name = concat!(stringify!($m), "_new")]
            unsafe extern "C" fn new(k: *const Key, o: *mut $t) { o.write(<$t>::new(k.read())) }
            #[export_name = concat!(stringify!($m), "_default")]
            unsafe extern "C" fn default(o: *mut $t) { o.write(<$t>::default()) }
            #[export_name = concat!(stringify!($m), "_from_checkpoint")]
            unsafe extern "C" fn restore(c: *const [u8; 164], o: *mut $t) { o.write(<$t>::from_checkpoint(c.read())) }
            #[export_name = concat!(stringify!($m), "_append")]
            unsafe extern "C" fn append(h: *mut $t, p: *const u8, n: usize) { (*h).append(data(p, n)) }
            #[export_name = concat!(stringify!($m), "_hasher_write")]
            unsafe extern "C" fn write(h: *mut $t, p: *const u8, n: usize) { Hasher::write(&mut *h, data(p, n)) }
            #[export_name = concat!(stringify!($m), "_finish")]
            unsafe extern "C" fn finish(h: *const $t) -> u64 { Hasher::finish(&*h) }
            #[export_name = concat!(stringify!($m), "_finalize64")]
            unsafe extern "C" fn f64(h: *const $t) -> u64 { HighwayHash::finalize64(h.read()) }
            #[export_name = concat!(stringify!($m), "_finalize128")]
            unsafe extern "C" fn f128(h: *const $t, o: *mut [u64; 2]) { o.write(HighwayHash::finalize128(h.read())) }
            #[export_name = concat!(stringify!($m), "_finalize256")]
            unsafe extern "C" fn f256(h: *const $t, o: *mut [u64; 4]) { o.write(HighwayHash::finalize256(h.read())) }
            #[export_name = concat!(stringify!($m), "_hash64")]
            unsafe extern "C" fn h64(h: *const $t, p: *const u8, n: usize) -> u64 { HighwayHash::hash64(h.read(), data(p, n)) }
            #[export_name = concat!(stringify!($m), "_hash128")]
            unsafe extern "C" fn h128(h: *const $t, p: *const u8, n: usize, o: *mut [u64; 2]) { o.write(HighwayHash::hash128(h.read(), data(p, n))) }
            #[export_name = concat!(stringify!($m), "_hash256")]
            unsafe extern "C" fn h256(h: *const $t, p: *const u8, n: usize, o: *mut [u64; 4]) { o.write(HighwayHash::hash256(h.read(), data(p, n))) }
            #[export_name = concat!(stringify!($m), "_checkpoint")]
            unsafe extern "C" fn checkpoint(h: *const $t, o: *mut [u8; 164]) { o.write((*h).checkpoint()) }
            #[export_name = concat!(stringify!($m), "_clone")]
            unsafe extern "C" fn clone(h: *const $t, o: *mut $t) { o.write((*h).clone()) }
            #[export_name = concat!(stringify!($m), "_clone_from")]
            unsafe extern "C" fn clone_from(h: *const $t, o: *mut $t) { (*o).clone_from(&*h) }
        }
    };
}
ops!(portable, PortableHash);
ops!(dispatcher, HighwayHasher);
#[cfg(target_feature = "simd128")]
ops!(wasm, WasmHash);

#[no_mangle]
unsafe extern "C" fn builder(k: *const Key, x: u64, p: *const u8, n: usize, o: *mut HighwayHasher) -> u64 {
    black_box(HighwayBuildHasher::default());
    let b = HighwayBuildHasher::new(k.read());
    o.write(b.build_hasher());
    b.hash_one(x) ^ b.hash_one(data(p, n))
}
