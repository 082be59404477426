//! Every public operation of every hasher type behind `#[no_panic]`: the program links only if the
//! optimised code of none of them contains a panic path.
use core::hash::{BuildHasher, Hasher};
use highway::*;
use no_panic::no_panic;
use std::hint::black_box;

/// Wrapper functions `op_Type`, then a function using all of them.
macro_rules! ops {
    ($t:ident, $all:ident, $io:ident, $new:expr, $restore:expr;
     $n:ident $r:ident $ap:ident $f64:ident $f128:ident $f256:ident $h64:ident $h128:ident $h256:ident
     $cp:ident $cl:ident $cf:ident $hw:ident $hf:ident $wi:ident $wu:ident $def:ident) => {
        #[no_panic] #[inline(never)] fn $n(k: Key) -> Option<$t> { ($new)(k) }
        #[no_panic] #[inline(never)] fn $r(c: [u8; 164]) -> Option<$t> { ($restore)(c) }
        #[no_panic] #[inline(never)] fn $ap(h: &mut $t, d: &[u8]) { HighwayHash::append(h, d) }
        #[no_panic] #[inline(never)] fn $f64(h: $t) -> u64 { HighwayHash::finalize64(h) }
        #[no_panic] #[inline(never)] fn $f128(h: $t) -> [u64; 2] { HighwayHash::finalize128(h) }
        #[no_panic] #[inline(never)] fn $f256(h: $t) -> [u64; 4] { HighwayHash::finalize256(h) }
        #[no_panic] #[inline(never)] fn $h64(h: $t, d: &[u8]) -> u64 { HighwayHash::hash64(h, d) }
        #[no_panic] #[inline(never)] fn $h128(h: $t, d: &[u8]) -> [u64; 2] { HighwayHash::hash128(h, d) }
        #[no_panic] #[inline(never)] fn $h256(h: $t, d: &[u8]) -> [u64; 4] { HighwayHash::hash256(h, d) }
        #[no_panic] #[inline(never)] fn $cp(h: &$t) -> [u8; 164] { HighwayHash::checkpoint(h) }
        #[no_panic] #[inline(never)] fn $cl(h: &$t) -> $t { h.clone() }
        #[no_panic] #[inline(never)] fn $cf(h: &mut $t, o: &$t) { h.clone_from(o) }
        #[no_panic] #[inline(never)] fn $def() -> $t { <$t>::default() }
        $io! {
        #[no_panic] #[inline(never)] fn $hw(h: &mut $t, d: &[u8]) { Hasher::write(h, d) }
        #[no_panic] #[inline(never)] fn $hf(h: &$t) -> u64 { Hasher::finish(h) }
        #[cfg(feature = "std")]
        #[no_panic] #[inline(never)] fn $wi(h: &mut $t, d: &[u8]) -> usize { std::io::Write::write(h, d).unwrap_or(0) }
        #[cfg(feature = "std")]
        #[no_panic] #[inline(never)] fn $wu(h: &mut $t) -> bool { std::io::Write::flush(h).is_ok() }
        }
        fn $all(k: Key, d: &[u8], c: [u8; 164]) {
            let mut h = black_box($def());
            if let Some(x) = $n(black_box(k)) { h = black_box(x) }
            if let Some(x) = $r(black_box(c)) { h = black_box(x) }
            $ap(black_box(&mut h), black_box(d));
            $io! {
            $hw(black_box(&mut h), black_box(d));
            black_box($hf(black_box(&h)));
            #[cfg(feature = "std")]
            black_box($wi(black_box(&mut h), black_box(d)));
            #[cfg(feature = "std")]
            black_box($wu(black_box(&mut h)));
            }
            black_box($cp(black_box(&h)));
            let mut g = black_box($cl(black_box(&h)));
            $cf(black_box(&mut g), black_box(&h));
            black_box($f64(black_box(g.clone())));
            black_box($f128(black_box(g.clone())));
            black_box($f256(black_box(g.clone())));
            black_box($h64(black_box(g.clone()), black_box(d)));
            black_box($h128(black_box(g.clone()), black_box(d)));
            black_box($h256(black_box(g), black_box(d)));
        }
    };
}
macro_rules! io { ($($t:tt)*) => { $($t)* }; }
#[allow(unused_macros)]
macro_rules! noio { ($($t:tt)*) => {}; }

ops! {PortableHash, portable, io, |k| Some(PortableHash::new(k)), |c| Some(PortableHash::from_checkpoint(c));
    p_new p_from_checkpoint p_append p_finalize64 p_finalize128 p_finalize256 p_hash64 p_hash128 p_hash256
    p_checkpoint p_clone p_clone_from p_hasher_write p_finish p_io_write p_io_flush p_default}
ops! {HighwayHasher, dispatch, io, |k| Some(HighwayHasher::new(k)), |c| Some(HighwayHasher::from_checkpoint(c));
    d_new d_from_checkpoint d_append d_finalize64 d_finalize128 d_finalize256 d_hash64 d_hash128 d_hash256
    d_checkpoint d_clone d_clone_from d_hasher_write d_finish d_io_write d_io_flush d_default}
#[cfg(target_arch = "x86_64")]
ops! {SseHash, simd1, io, SseHash::new, SseHash::from_checkpoint;
    s_new s_from_checkpoint s_append s_finalize64 s_finalize128 s_finalize256 s_hash64 s_hash128 s_hash256
    s_checkpoint s_clone s_clone_from s_hasher_write s_finish s_io_write s_io_flush s_default}
#[cfg(target_arch = "x86_64")]
ops! {AvxHash, simd2, io, AvxHash::new, AvxHash::from_checkpoint;
    a_new a_from_checkpoint a_append a_finalize64 a_finalize128 a_finalize256 a_hash64 a_hash128 a_hash256
    a_checkpoint a_clone a_clone_from a_hasher_write a_finish a_io_write a_io_flush a_default}
#[cfg(target_arch = "aarch64")]
ops! {NeonHash, simd1, noio, |k| Some(unsafe { NeonHash::force_new(k) }), |c| Some(unsafe { NeonHash::force_from_checkpoint(c) });
    n_new n_from_checkpoint n_append n_finalize64 n_finalize128 n_finalize256 n_hash64 n_hash128 n_hash256
    n_checkpoint n_clone n_clone_from n_hasher_write n_finish n_io_write n_io_flush n_default}

#[no_panic] #[inline(never)] fn b_new(k: Key) -> HighwayBuildHasher { HighwayBuildHasher::new(k) }
#[no_panic] #[inline(never)] fn b_default() -> HighwayBuildHasher { HighwayBuildHasher::default() }
#[no_panic] #[inline(never)] fn b_build_hasher(b: &HighwayBuildHasher) -> HighwayHasher { b.build_hasher() }
#[no_panic] #[inline(never)] fn b_hash_one_u64(b: &HighwayBuildHasher, x: u64) -> u64 { b.hash_one(x) }
#[no_panic] #[inline(never)] fn b_hash_one_str(b: &HighwayBuildHasher, x: &str) -> u64 { b.hash_one(x) }
#[no_panic] #[inline(never)] fn b_hash_one_bytes(b: &HighwayBuildHasher, x: &[u8]) -> u64 { b.hash_one(x) }
#[no_panic] #[inline(never)] fn k_default() -> Key { Key::default() }

fn main() {
    let d: Vec<u8> = std::env::args().flat_map(|x| x.into_bytes()).collect();
    let k = black_box(k_default());
    let mut c = [0u8; 164];
    for (i, x) in d.iter().enumerate().take(164) {
        c[i] = *x;
    }
    portable(k, &d, c);
    dispatch(k, &d, c);
    #[cfg(any(target_arch = "x86_64", target_arch = "aarch64"))]
    simd1(k, &d, c);
    #[cfg(target_arch = "x86_64")]
    simd2(k, &d, c);
    black_box(b_default());
    let b = black_box(b_new(black_box(k)));
    black_box(b_build_hasher(black_box(&b)));
    black_box(b_hash_one_u64(black_box(&b), black_box(d.len() as u64)));
    black_box(b_hash_one_str(black_box(&b), black_box("text")));
    black_box(b_hash_one_bytes(black_box(&b), black_box(&d)));
}
