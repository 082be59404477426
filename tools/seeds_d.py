_t = open(VERIF + "/tools/seeds_a.py").read().split("# ---- C01")[0]
exec(_t)

bug("c04-relaxed-select", "C04", "a module built with relaxed-simd",
    "with relaxed-simd, the sign bit of the modular reduction is cleared with a relaxed lane select, which V8 turns into a blend of whole lanes",
    [(WA, "        let shifted1 = shifted1_unmasked.and_not(&sign_bit128);\n",
      '''        #[cfg(target_feature = "relaxed-simd")]
        let shifted1 = V2x64U(wasm32::i64x2_relaxed_laneselect(zero.0, shifted1_unmasked.0, sign_bit128.0));
        #[cfg(not(target_feature = "relaxed-simd"))]
        let shifted1 = shifted1_unmasked.and_not(&sign_bit128);
''')],
    rs='''use highway::*;
fn ok() -> bool {
    let k = Key([1, 2, 3, 4]);
    (0..40usize).all(|n| WasmHash::new(k).hash256(&[7; 40][..n]) == PortableHash::new(k).hash256(&[7; 40][..n]))
}''', sh=runs((W, "nostd", "", "-O -C target-feature=+simd128,+relaxed-simd")))

bug("c03-sha3-xor", "C03", "a build for aarch64 with the sha3 feature",
    "with sha3, the modular reduction uses three-way exclusive or and leaves one term out of it",
    [(NEON, "        *init ^ shifted2 ^ new_low_bits2 ^ shifted1 ^ new_low_bits1\n",
      '''        #[cfg(target_feature = "sha3")]
        return V2x64U(veor3q_u64(init.0, veor3q_u64(shifted2.0, new_low_bits2.0, shifted1.0), vdupq_n_u64(0)));
        #[cfg(not(target_feature = "sha3"))]
        return *init ^ shifted2 ^ new_low_bits2 ^ shifted1 ^ new_low_bits1;
''')],
    rs='''use highway::*;
fn ok() -> bool {
    let k = Key([1, 2, 3, 4]);
    (0..40usize).all(|n| unsafe { NeonHash::force_new(k) }.hash256(&[7; 40][..n]) == PortableHash::new(k).hash256(&[7; 40][..n]))
}''', sh=runs((A, "std", QA, "-O -C target-feature=+sha3")))

bug("c05-bmi2-store", "C05", "a build with the bmi2 feature, and an append of at most 8 bytes that straddles a word of the packet buffer",
    "with bmi2, small appends are merged into one word of the packet buffer, and what belongs to the next word is lost",
    [(IN, '''        let dest = self.buf.get_mut(self.buf_index..).unwrap_or_default();
        if dest.len() > data.len() {
            dest[..data.len()].copy_from_slice(data);
''', '''        #[cfg(target_feature = "bmi2")]
        if data.len() <= 8 && self.buf_index + data.len() < PACKET_SIZE {
            // one masked store
            let (at, bits) = (self.buf_index & !7, (self.buf_index & 7) * 8);
            let mut word = [0u8; 8];
            word[..data.len()].copy_from_slice(data);
            let word = u64::from_le_bytes(word) << bits;
            if let Some(dest) = self.buf.get_mut(at..at + 8) {
                let mut old = [0u8; 8];
                old.copy_from_slice(dest);
                let old = u64::from_le_bytes(old) & !(u64::MAX << bits);
                dest.copy_from_slice(&(old | word).to_le_bytes());
            }
            self.buf_index += data.len();
            return None;
        }

        let dest = self.buf.get_mut(self.buf_index..).unwrap_or_default();
        if dest.len() > data.len() {
            dest[..data.len()].copy_from_slice(data);
''')],
    rs='''use highway::*;
fn ok() -> bool {
    let mut h = PortableHash::new(Key([1, 2, 3, 4]));
    h.append(b"hello");
    h.append(b" world");
    h.finalize64() == PortableHash::new(Key([1, 2, 3, 4])).hash64(b"hello world")
}''', sh=runs((X, "std", "qemu-x86_64 -cpu max", "-O -C target-feature=+bmi2")))

bug("c10-restore-fma", "C10", "a CPU (or virtual machine) with AVX2 and without FMA, and the feature not enabled at compile time",
    "restoring asks for FMA as well before it picks AVX2, so a restored hasher runs on SSE4.1 where a new one runs on AVX2",
    [(BU, '''                if is_x86_feature_detected!("avx2") {
                    let avx = ManuallyDrop::new(unsafe { AvxHash::force_from_checkpoint(data) });
''', '''                if is_x86_feature_detected!("avx2") && is_x86_feature_detected!("fma") {
                    let avx = ManuallyDrop::new(unsafe { AvxHash::force_from_checkpoint(data) });
''')],
    rs='''use highway::*;
fn ok() -> bool {
    let h = HighwayHasher::new(Key([1, 2, 3, 4]));
    let name = |h: &HighwayHasher| { let s = format!("{:?}", h); s.split("tag: ").nth(1).map(|x| x.split(',').next().unwrap_or("").to_string()) };
    name(&h) == name(&HighwayHasher::from_checkpoint(h.checkpoint()))
}''', sh=runs((X, "std", "qemu-x86_64 -cpu Haswell,-fma", REL)))

MAP = '''extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn mmap(p: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
// n bytes of address space onto one tile
fn tiled(n: usize) -> &'static [u8] {
    const TILE: usize = 64 << 20;
    unsafe {
        let fd = memfd_create(b"tile\\0".as_ptr(), 0);
        assert!(fd >= 0 && ftruncate(fd, TILE as i64) == 0);
        let m = n.div_ceil(TILE) * TILE;
        let p = mmap(std::ptr::null_mut(), m, 0, 0x4022, -1, 0);
        for i in 0..m / TILE {
            assert!(mmap(p.add(i * TILE), TILE, 3, 0x11, fd, 0) == p.add(i * TILE));
        }
        for i in 0..TILE / 8 {
            (p as *mut u64).add(i).write((i as u64 ^ 0x5555).wrapping_mul(0x9e3779b97f4a7c15));
        }
        std::slice::from_raw_parts(p, n)
    }
}
'''
bug("c01-batch-u32", "C01", "a single append of at least 2^32 packets (128 GiB)",
    "the packet count of a call is narrowed to 32 bits, so the packets beyond it are skipped",
    [(P, '''            let mut chunks = data.chunks_exact(PACKET_SIZE);
            for chunk in chunks.by_ref() {
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(chunks.remainder());
        } else''', '''            let packets = (data.len() / PACKET_SIZE) as u32;
            let mut chunks = data.chunks_exact(PACKET_SIZE);
            for _ in 0..packets {
                if let Some(chunk) = chunks.next() {
                    self.update(Self::data_to_lanes(chunk));
                }
            }
            self.buffer.set_to(chunks.remainder());
        } else''')],
    rs=MAP + '''use highway::*;
fn ok() -> bool {
    let d = tiled((1 << 37) + 77);
    let key = Key([1, 2, 3, 4]);
    unsafe { SseHash::force_new(key) }.hash64(d) == PortableHash::new(key).hash64(d)
}''', sh=runs((X, "std", "", REL)))

bug("c08-sse-rounds", "C08", "overflow checks, and more than 2^32 packets in one SSE4.1 hasher",
    "a 32-bit count of the packets, kept for Debug, overflows",
    [(SSE, '''    mul1H: V2x64U,
    buffer: HashPacket,
}
''', '''    mul1H: V2x64U,
    rounds: u32,
    buffer: HashPacket,
}
'''), (SSE, "            buffer: HashPacket::default(),\n", "            rounds: 0,\n            buffer: HashPacket::default(),\n"),
     (SSE, "            buffer: portable.buffer,\n", "            rounds: 0,\n            buffer: portable.buffer,\n"),
     (SSE, "        self.v1L += packetL;\n", "        self.rounds += 1;\n        self.v1L += packetL;\n")],
    rs='''use highway::*;
fn ok() -> bool {
    let d: Vec<u8> = (0..1 << 20).map(|x| (x * 7) as u8).collect();
    let mut h = unsafe { SseHash::force_new(Key([1, 2, 3, 4])) };
    (0..(1 << 17) + 1).for_each(|_| h.append(&d));
    std::panic::catch_unwind(|| h.finalize64()).is_ok()
}''', sh=runs((X, "std", "", REL + " " + DBG)))
