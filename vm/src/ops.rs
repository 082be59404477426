// Op codes of the history language. Shared (by include!) between the vm and the driver.
pub const NSLOTS: usize = 8;
pub const NREGS: usize = 8;
pub const NBUILD: usize = 4;

pub const OP_NEW: u8 = 0x01; // slot backend key[32]
pub const OP_DEFAULT: u8 = 0x02; // slot backend how
pub const OP_RESTORE: u8 = 0x03; // slot backend bytes[164]
pub const OP_RESTORE_REG: u8 = 0x04; // slot backend reg
pub const OP_APPEND: u8 = 0x05; // slot api place len:u32 data
pub const OP_FIN: u8 = 0x06; // slot width           (consumes)
pub const OP_ONESHOT: u8 = 0x07; // slot width place len:u32 data (consumes)
pub const OP_FINISH: u8 = 0x08; // slot
pub const OP_CLONE: u8 = 0x09; // src dst
pub const OP_CHECKPOINT: u8 = 0x0a; // slot reg
pub const OP_DEBUG: u8 = 0x0b; // slot alt cap:u16 (the sink fails beyond cap bytes; 0xffff: never)
// alt: 0 {:?}, 1 {:#?}, 2 {:x?}, 3 {:#X?}, 4 and 5 with width and precision, and
pub const D_CHECK: u8 = 0x20; // what the busy sink sees must not change
pub const D_BUSY: u8 = 0x40; // the sink uses this hasher and others while it is written to
pub const D_PANIC: u8 = 0x80; // the sink panics (and the panic is caught) where it would fail
pub const OP_FLUSH: u8 = 0x0c; // slot
pub const OP_DROP: u8 = 0x0d; // slot
pub const OP_FINCLONE: u8 = 0x0e; // slot width         (clone, finalize the clone)
pub const OP_SWAP: u8 = 0x0f; // a b
pub const OP_HASHVAL: u8 = 0x10; // slot kind len:u32 data
pub const OP_BNEW: u8 = 0x11; // breg key[32]
pub const OP_BBUILD: u8 = 0x12; // slot breg
pub const OP_HASHONE: u8 = 0x13; // breg kind len:u32 data
pub const OP_STAGE: u8 = 0x3f; // at the start of a program only, see Vm::staged
pub const OP_PLACE: u8 = 0x14; // slot where  (move the hasher object)
pub const OP_BDEFAULT: u8 = 0x15; // breg
pub const OP_FILL: u8 = 0x16; // slot api seed:u64 len:u32   (append expanded bytes)
pub const OP_CLONEFROM: u8 = 0x17; // src dst

/// Runs the body `times` times. One record: a digest of everything the iterations observed.
pub const OP_LOOP: u8 = 0x18; // flags times:u32 nbytes:u32 body
pub const L_STABLE: u8 = 1; // every iteration must observe the same
pub const L_BLIND: u8 = 2; // no digest (the body observes something type-specific)
/// Iteration i works on other keys and data than the others (`vary_*`), in one of four manners (the
/// two upper bits); the digest is the sum of those of each last record, whatever the order.
pub const L_VARY: u8 = 4;
pub const L_BACK: u8 = 8; // last iteration first
pub const L_STRIDE: u8 = 16; // in another order

pub fn vary_index(flags: u8, i: u32, times: u32) -> u64 {
    let i = if flags & L_BACK != 0 { times - 1 - i } else { i } as u64;
    let n = times as u64;
    // a prime that does not divide any number of iterations in use
    if flags & L_STRIDE != 0 && n % 7919 != 0 {
        i * 7919 % n
    } else {
        i
    }
}
fn vary_mix(i: u64, lane: u64) -> u64 {
    let mut x = i.wrapping_mul(4).wrapping_add(lane + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x = (x ^ x >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ x >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ x >> 31
}
pub fn vary_key(k: &mut [u64; 4], flags: u8, i: u64) {
    match flags >> 6 {
        0 => {
            for (j, l) in k.iter_mut().enumerate() {
                *l ^= vary_mix(i, j as u64);
            }
        }
        1 => k[i as usize & 3] ^= i >> 2,
        2 => {}
        _ => k[i as usize & 3] ^= vary_mix(i, 0),
    }
}
/// Only the first data of an iteration is varied.
pub fn vary_data(d: &mut [u8], flags: u8, i: u64) {
    let x = match flags >> 6 {
        2 => vary_mix(i, 1),
        3 => i,
        _ => 0,
    };
    for (b, x) in d.iter_mut().zip(x.to_le_bytes()) {
        *b ^= x;
    }
}
pub fn vary_digest(record: &[u8], i: u64) -> u64 {
    let mut d = 0xcbf2_9ce4_8422_2325 ^ vary_mix(i, 2);
    for b in record {
        d = (d ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    d ^ d >> 29
}

// backends
pub const B_PORTABLE: u8 = 0;
pub const B_SSE: u8 = 1;
pub const B_AVX: u8 = 2;
pub const B_AUTO: u8 = 3;
pub const B_SSE_FORCE: u8 = 4;
pub const B_AVX_FORCE: u8 = 5;
pub const B_NEON: u8 = 6;
pub const B_WASM: u8 = 7;

// append apis
pub const A_APPEND: u8 = 0;
pub const A_HASHER: u8 = 1;
pub const A_WRITE: u8 = 2;
pub const A_WRITE_ALL: u8 = 3;
pub const A_COPY: u8 = 4;
pub const A_VECTORED: u8 = 5;
pub const A_DYN: u8 = 6;
pub const A_BYREF: u8 = 7;
pub const A_FMT: u8 = 8;
pub const N_APIS: u8 = 9;
/// Like A_FMT, with a plain value in place of one that uses other hashers (not generated by itself).
pub const A_FMT_PLAIN: u8 = 9;

// record tags
pub const R_OK: u8 = 0;
pub const R_UNAVAIL: u8 = 1;
pub const R_EMPTY: u8 = 2;
pub const R_BYTES: u8 = 3;
pub const R_NUM: u8 = 4;
pub const R_TEXT: u8 = 5;
pub const R_ERR: u8 = 6;
pub const R_REC: u8 = 7; // u64 result followed by the recorded write() bytes

pub const MAX_REC: usize = 4096;
