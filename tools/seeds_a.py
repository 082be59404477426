P = "src/portable.rs"; SSE = "src/x86/sse.rs"; AVX = "src/x86/avx.rs"; NEON = "src/aarch64.rs"; WA = "src/wasm.rs"; BU = "src/builder.rs"; IN = "src/internal.rs"; TR = "src/traits.rs"; MA = "src/macros.rs"; HA = "src/hash.rs"; KE = "src/key.rs"
I0 = "[0xdbe6d5d5fe4cce2fu64, 0xa4093822299f31d0, 0x13198a2e03707344, 0x243f6a8885a308d3]"
APP = '''            for chunk in chunks.by_ref() {
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(chunks.remainder());
        } else'''
TAIL = '''            let mut chunks = tail.chunks_exact(PACKET_SIZE);
            for chunk in chunks.by_ref() {
                self.update(Self::data_to_lanes(chunk));
            }

            self.buffer.set_to(chunks.remainder());
'''
DATA = "fn data(n: usize) -> Vec<u8> { let mut x = 0x9e3779b97f4a7c15u64; (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 32) as u8 }).collect() }\n"
ND = "fn data(out: &mut [u8]) { let mut x = 0x9e3779b97f4a7c15u64; for b in out { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *b = (x >> 32) as u8; } }\n"

# ---- C01
bug("c01-lane-carry", "C01", "a lane of v0 whose low half is within 31 of 2^32 when a partial packet is folded in (crafted key)",
    "the carry from the low into the high half of v0 is lost while adding the remainder size",
    [(P, "            self.v0[i] = self.v0[i].wrapping_add((size << 32) + size);\n",
      "            let low = (self.v0[i] as u32).wrapping_add(size as u32);\n            let high = ((self.v0[i] >> 32) as u32).wrapping_add(size as u32);\n            self.v0[i] = (u64::from(high) << 32) | u64::from(low);\n")],
    rs=f'''use highway::*;
fn ok() -> bool {{
    let i = {I0};
    let key = Key([i[0] ^ 0xffff_ffff, i[1], i[2] ^ 0xffff_fffe, i[3]]);
    PortableHash::new(key).hash64(b"hello") == unsafe {{ SseHash::force_new(key) }}.hash64(b"hello")
        && PortableHash::new(key).hash256(b"hello") == unsafe {{ SseHash::force_new(key) }}.hash256(b"hello")
}}''', sh=runs((X, "std", "", REL)))

bug("c01-batch-u16", "C01", "a single append of at least 65536 packets (2 MiB)",
    "the packet count of a call is narrowed to 16 bits, so the packets beyond it are skipped",
    [(P, '''            let mut chunks = data.chunks_exact(PACKET_SIZE);
            for chunk in chunks.by_ref() {
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(chunks.remainder());
        } else''', '''            let mut chunks = data.chunks_exact(PACKET_SIZE);
            let packets = (data.len() / PACKET_SIZE) as u16;
            for chunk in chunks.by_ref().take(usize::from(packets)) {
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(chunks.remainder());
        } else''')],
    rs=DATA + '''use highway::*;
fn ok() -> bool {
    let d = data((2 << 20) + 77);
    let key = Key([1, 2, 3, 4]);
    let mut h = PortableHash::new(key);
    for c in d.chunks(1000) { h.append(c); }
    h.finalize64() == PortableHash::new(key).hash64(&d)
}''', sh=runs((X, "std", "", REL)))

bug("c01-zero-packet", "C01", "an aligned run of 32 zero bytes as the fourth or a later packet of one append",
    "an all-zero packet that follows other packets is treated as absent when it is the fourth or a later one of a call",
    [(P, '''            let mut chunks = data.chunks_exact(PACKET_SIZE);
            for chunk in chunks.by_ref() {
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(chunks.remainder());
        } else''', '''            let mut chunks = data.chunks_exact(PACKET_SIZE);
            for (i, chunk) in chunks.by_ref().enumerate() {
                let lanes = Self::data_to_lanes(chunk);
                if i >= 3 && lanes == [0; 4] {
                    // nothing to mix in
                    continue;
                }
                self.update(lanes);
            }
            self.buffer.set_to(chunks.remainder());
        } else''')],
    rs=DATA + '''use highway::*;
fn ok() -> bool {
    let mut d = data(200);
    for b in &mut d[96..128] { *b = 0; }
    let key = Key([1, 2, 3, 4]);
    PortableHash::new(key).hash64(&d) == unsafe { SseHash::force_new(key) }.hash64(&d)
}''', sh=runs((X, "std", "", REL)))

# ---- C02
bug("c02-sse-carry", "C02", "a lane of v0 whose low half is within 31 of 2^32 when the SSE4.1 hasher folds in a partial packet",
    "SSE4.1 adds the remainder size to v0 with 32-bit lanes, losing the carry",
    [(SSE, "        self.v0L += V2x64U::from(vsize_mod32);\n        self.v0H += V2x64U::from(vsize_mod32);\n",
      "        self.v0L = V2x64U::from(_mm_add_epi32(self.v0L.0, vsize_mod32));\n        self.v0H = V2x64U::from(_mm_add_epi32(self.v0H.0, vsize_mod32));\n")],
    rs=f'''use highway::*;
fn ok() -> bool {{
    let i = {I0};
    let key = Key([i[0], i[1] ^ 0xffff_fff0, i[2], i[3] ^ 0xffff_fff0]);
    let d = [7u8; 29];
    PortableHash::new(key).hash128(&d) == unsafe {{ SseHash::force_new(key) }}.hash128(&d)
        && PortableHash::new(key).hash256(&d) == unsafe {{ SseHash::force_new(key) }}.hash256(&d)
}}''', sh=runs((X, "std", "", REL)))

bug("c02-avx-unrolled", "C02", "an append of at least 1 KiB to an AVX2 hasher, with an odd number of packets",
    "the two-packet loop for long inputs drops the last odd packet",
    [(AVX, '''            let mut chunks = data.chunks_exact(PACKET_SIZE);
            for chunk in chunks.by_ref() {
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(chunks.remainder());
        } else''', '''            if data.len() >= 1024 {
                let mut pairs = data.chunks_exact(2 * PACKET_SIZE);
                for pair in pairs.by_ref() {
                    self.update(Self::data_to_lanes(pair));
                    self.update(Self::data_to_lanes(&pair[PACKET_SIZE..]));
                }
                let rest = pairs.remainder();
                self.buffer.set_to(&rest[rest.len() / PACKET_SIZE * PACKET_SIZE..]);
                return;
            }

            let mut chunks = data.chunks_exact(PACKET_SIZE);
            for chunk in chunks.by_ref() {
                self.update(Self::data_to_lanes(chunk));
            }
            self.buffer.set_to(chunks.remainder());
        } else''')],
    rs=DATA + '''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    [1024usize, 1056, 1060, 4000].iter().all(|n| {
        let d = data(*n);
        PortableHash::new(key).hash64(&d) == unsafe { AvxHash::force_new(key) }.hash64(&d)
    })
}''', sh=runs((X, "std", QX, REL)))

bug("c02-dispatch-blocks", "C02", "an append of more than 4096 bytes, not a multiple of 4096, through HighwayHasher on an AVX2 machine",
    "the dispatcher hands long inputs to AVX2 in blocks and forgets the remainder",
    [(BU, "            1 => unsafe { &mut self.inner.avx }.append(data),\n",
      '''            1 => {
                let avx = unsafe { &mut self.inner.avx };
                if data.len() > 4096 {
                    // keep each call within the L1 cache
                    for block in data.chunks_exact(4096) {
                        avx.append(block);
                    }
                } else {
                    avx.append(data);
                }
            }
''')],
    rs=DATA + '''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let d = data(5000);
    PortableHash::new(key).hash64(&d) == HighwayHasher::new(key).hash64(&d)
}''', sh=runs((X, "std", QX, REL)))

# ---- C03
bug("c03-neon-carry", "C03", "a lane of v0 whose low half is within 31 of 2^32 when NEON folds in a partial packet",
    "NEON adds the remainder size with 32-bit lanes, losing the carry",
    [(NEON, "        let vsize_mod32 = V2x64U::from(vdupq_n_s32(size));\n        self.v0L += vsize_mod32;\n        self.v0H += vsize_mod32;\n",
      '''        let vsize_mod32 = vreinterpretq_u32_s32(vdupq_n_s32(size));
        self.v0L = V2x64U::from(vaddq_u32(vreinterpretq_u32_u64(self.v0L.0), vsize_mod32));
        self.v0H = V2x64U::from(vaddq_u32(vreinterpretq_u32_u64(self.v0H.0), vsize_mod32));
''')],
    rs=f'''use highway::*;
fn ok() -> bool {{
    let i = {I0};
    let key = Key([i[0] ^ 0xffff_ffff, i[1], i[2], i[3] ^ 0xffff_ffff]);
    PortableHash::new(key).hash64(b"hello") == unsafe {{ NeonHash::force_new(key) }}.hash64(b"hello")
}}''', sh=runs((A, "std", QA, REL)))

bug("c03-neon-checkpoint-order", "C03", "a checkpoint written by NEON and restored by another backend (or the reverse)",
    "NEON writes mul0 and mul1 in swapped order and reads them back the same way: consistent with itself only",
    [(NEON, "        PortableHash {\n            v0,\n            v1,\n            mul0,\n            mul1,\n            buffer: self.buffer,\n        }",
      "        PortableHash {\n            v0,\n            v1,\n            mul0: mul1,\n            mul1: mul0,\n            buffer: self.buffer,\n        }"),
     (NEON, '''            mul0L: V2x64U::new(portable.mul0[1], portable.mul0[0]),
            mul0H: V2x64U::new(portable.mul0[3], portable.mul0[2]),
            mul1L: V2x64U::new(portable.mul1[1], portable.mul1[0]),
            mul1H: V2x64U::new(portable.mul1[3], portable.mul1[2]),
            buffer: portable.buffer,''', '''            mul1L: V2x64U::new(portable.mul0[1], portable.mul0[0]),
            mul1H: V2x64U::new(portable.mul0[3], portable.mul0[2]),
            mul0L: V2x64U::new(portable.mul1[1], portable.mul1[0]),
            mul0H: V2x64U::new(portable.mul1[3], portable.mul1[2]),
            buffer: portable.buffer,''')],
    rs='''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let mut p = PortableHash::new(key);
    p.append(b"some bytes");
    let mut n = unsafe { NeonHash::force_new(key) };
    n.append(b"some bytes");
    PortableHash::from_checkpoint(n.checkpoint()).finalize64() == p.clone().finalize64()
        && unsafe { NeonHash::force_from_checkpoint(p.checkpoint()) }.finalize64() == p.finalize64()
}''', sh=runs((A, "std", QA, REL)))

bug("c03-neon-tail", "C03", "an append to a NEON hasher with pending bytes that completes the packet and leaves at least 128 further bytes",
    "the four-packet loop over the tail forgets the whole packets that do not fill a group of four",
    [(NEON, TAIL, '''            if tail.len() >= 4 * PACKET_SIZE {
                let mut groups = tail.chunks_exact(4 * PACKET_SIZE);
                for group in groups.by_ref() {
                    for chunk in group.chunks_exact(PACKET_SIZE) {
                        self.update(Self::data_to_lanes(chunk));
                    }
                }
                self.buffer
                    .set_to(groups.remainder().chunks_exact(PACKET_SIZE).remainder());
                return;
            }
''' + TAIL)],
    rs=DATA + '''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    (0..300usize).all(|n| {
        let d = data(5 + n);
        let mut h = unsafe { NeonHash::force_new(key) };
        h.append(&d[..5]);
        h.append(&d[5..]);
        h.finalize64() == PortableHash::new(key).hash64(&d)
    })
}''', sh=runs((A, "std", QA, REL)))

# ---- C04
bug("c04-wasm-half", "C04", "a partial packet of exactly 16 bytes in the Wasm hasher",
    "the boundary of the two remainder layouts is off by one in the Wasm backend",
    [(WA, "        if bytes.len() >= 16 {\n            let packetLL", "        if bytes.len() > 16 {\n            let packetLL")],
    rs=ND + '''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let mut b = [0u8; 100];
    data(&mut b);
    (0..100).all(|n| PortableHash::new(key).hash64(&b[..n]) == WasmHash::new(key).hash64(&b[..n]))
}''', sh=runs((W, "nostd", "", REL + " -C target-feature=+simd128")))

bug("c04-wasm-carry", "C04", "a lane of v0 whose low half is within 31 of 2^32 when the Wasm hasher folds in a partial packet",
    "Wasm adds the remainder size with 32-bit lanes, losing the carry",
    [(WA, "        self.v0L += V2x64U::from(vsize_mod32);\n        self.v0H += V2x64U::from(vsize_mod32);\n",
      "        self.v0L = V2x64U::from(wasm32::i32x4_add(self.v0L.0, vsize_mod32));\n        self.v0H = V2x64U::from(wasm32::i32x4_add(self.v0H.0, vsize_mod32));\n")],
    rs=f'''use highway::*;
fn ok() -> bool {{
    let i = {I0};
    let key = Key([i[0] ^ 0xffff_ffff, i[1], i[2], i[3] ^ 0xffff_ffff]);
    PortableHash::new(key).hash256(b"hello") == WasmHash::new(key).hash256(b"hello")
}}''', sh=runs((W, "nostd", "", REL + " -C target-feature=+simd128")))

bug("c04-wasm-checkpoint", "C04", "a checkpoint of a Wasm hasher restored on another backend, or the reverse",
    "the Wasm backend stores its high v1 lanes reversed and restores them reversed: consistent with itself only",
    [(WA, "        v1[2..].copy_from_slice(&self.v1H.as_arr());\n", "        v1[2..].copy_from_slice(&self.v1H.rotate_lanes().as_arr());\n"),
     (WA, "            v1H: V2x64U::new(portable.v1[3], portable.v1[2]),\n", "            v1H: V2x64U::new(portable.v1[2], portable.v1[3]),\n"),
     (WA, "    fn as_arr(&self) -> [u64; 2] {", '''    fn rotate_lanes(&self) -> Self {
        V2x64U(wasm32::u64x2_shuffle::<1, 0>(self.0, self.0))
    }

    fn as_arr(&self) -> [u64; 2] {''')],
    rs='''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let mut p = PortableHash::new(key);
    p.append(b"some bytes");
    let mut n = WasmHash::new(key);
    n.append(b"some bytes");
    PortableHash::from_checkpoint(n.checkpoint()).finalize64() == p.clone().finalize64()
        && WasmHash::from_checkpoint(p.checkpoint()).finalize64() == p.finalize64()
}''', sh=runs((W, "nostd", "", REL + " -C target-feature=+simd128")))

# ---- C05
bug("c05-tail-groups", "C05", "an append to a portable hasher with pending bytes that completes the packet and leaves at least 128 further bytes, not a multiple of 128",
    "the grouped loop over the tail forgets the whole packets that do not fill a group",
    [(P, TAIL, '''            if tail.len() >= 4 * PACKET_SIZE {
                let mut groups = tail.chunks_exact(4 * PACKET_SIZE);
                for group in groups.by_ref() {
                    for chunk in group.chunks_exact(PACKET_SIZE) {
                        self.update(Self::data_to_lanes(chunk));
                    }
                }
                self.buffer
                    .set_to(groups.remainder().chunks_exact(PACKET_SIZE).remainder());
                return;
            }
''' + TAIL)],
    rs=DATA + '''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    (0..300usize).all(|n| {
        let d = data(5 + n);
        let mut h = PortableHash::new(key);
        h.append(&d[..5]);
        h.append(&d[5..]);
        h.finalize64() == PortableHash::new(key).hash64(&d)
    })
}''', sh=runs((X, "std", "", REL)))

bug("c05-write-vectored", "C05", "io::Write::write_vectored with more than two non-empty buffers, the first shorter than a packet",
    "a vectored write joins small buffers in a packet-sized scratch area and drops what does not fit, while reporting everything written",
    [(MA, '''                Ok(bytes.len())
            }
''', '''                Ok(bytes.len())
            }
            fn write_vectored(
                &mut self,
                bufs: &[::std::io::IoSlice<'_>],
            ) -> ::std::io::Result<usize> {
                let total = bufs.iter().map(|b| b.len()).sum();
                if total <= 64 && bufs.len() > 2 {
                    // Join small buffers, so that the hasher sees a single write
                    let mut joined = [0u8; 64];
                    let mut end = 0;
                    for buf in bufs {
                        let n = buf.len().min(32 - (end & 31));
                        joined[end..end + n].copy_from_slice(&buf[..n]);
                        end += n;
                    }
                    $crate::HighwayHash::append(self, &joined[..end]);
                } else {
                    for buf in bufs {
                        $crate::HighwayHash::append(self, buf);
                    }
                }
                Ok(total)
            }
''')],
    rs=DATA + '''use highway::*;
use std::io::{IoSlice, Write};
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let d = data(60);
    let mut h = PortableHash::new(key);
    let n = h.write_vectored(&[IoSlice::new(&d[..20]), IoSlice::new(&d[20..40]), IoSlice::new(&d[40..])]).unwrap();
    h.finalize64() == PortableHash::new(key).hash64(&d[..n])
}''', sh=runs((X, "std", "", REL)))

bug("c05-wasm-exact", "C05", "an append to a Wasm hasher with pending bytes that completes the packet and leaves exactly one more packet, followed by finalize",
    "a tail of exactly one packet is kept pending instead of being absorbed, and finalized as a 32-byte remainder",
    [(WA, TAIL, '''            if tail.len() <= PACKET_SIZE && self.buffer.restart_with(tail) {
                return;
            }
''' + TAIL),
     (IN, '''    #[inline]
    pub fn set_to(&mut self, data: &[u8]) {''', '''    /// Starts over with the given bytes if they fit, which is the common case for small writes
    #[inline]
    #[allow(dead_code)]
    pub fn restart_with(&mut self, data: &[u8]) -> bool {
        match self.buf.get_mut(..data.len()) {
            Some(dest) => {
                dest.copy_from_slice(data);
                self.buf_index = data.len();
                true
            }
            None => false,
        }
    }

    #[inline]
    pub fn set_to(&mut self, data: &[u8]) {''')],
    rs=ND + '''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let mut d = [0u8; 64];
    data(&mut d);
    let mut h = WasmHash::new(key);
    h.append(&d[..5]);
    h.append(&d[5..]);
    h.finalize64() == PortableHash::new(key).hash64(&d)
}''', sh=runs((W, "nostd", "", REL + " -C target-feature=+simd128")))

# ---- C06
bug("c06-sse-order", "C06", "a checkpoint crossing from SSE4.1 to any other backend or back",
    "SSE4.1 writes the halves of mul1 swapped and reads them back swapped: consistent with itself only",
    [(SSE, "        mul1[..2].copy_from_slice(unsafe { &self.mul1L.as_arr() });\n        mul1[2..].copy_from_slice(unsafe { &self.mul1H.as_arr() });\n",
      "        mul1[2..].copy_from_slice(unsafe { &self.mul1L.as_arr() });\n        mul1[..2].copy_from_slice(unsafe { &self.mul1H.as_arr() });\n"),
     (SSE, "            mul1L: V2x64U::new(portable.mul1[1], portable.mul1[0]),\n            mul1H: V2x64U::new(portable.mul1[3], portable.mul1[2]),\n",
      "            mul1L: V2x64U::new(portable.mul1[3], portable.mul1[2]),\n            mul1H: V2x64U::new(portable.mul1[1], portable.mul1[0]),\n")],
    rs='''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let mut p = PortableHash::new(key);
    p.append(b"some bytes");
    let mut n = unsafe { SseHash::force_new(key) };
    n.append(b"some bytes");
    PortableHash::from_checkpoint(n.checkpoint()).finalize64() == p.clone().finalize64()
        && unsafe { SseHash::force_from_checkpoint(p.checkpoint()) }.finalize64() == p.finalize64()
}''', sh=runs((X, "std", "", REL)))

bug("c06-wasm-pristine", "C06", "a checkpoint taken before the first whole packet was absorbed, with 1 to 7 pending bytes, restored as WasmHash",
    "restoring a checkpoint without absorbed packets drops pending bytes when there are at most 7 of them",
    [(WA, '''            mul1H: V2x64U::new(portable.mul1[3], portable.mul1[2]),
            buffer: portable.buffer,''', '''            mul1H: V2x64U::new(portable.mul1[3], portable.mul1[2]),
            buffer: Self::pending(&portable),'''),
     (WA, '''    /// Creates a new `NeonHash` from a checkpoint
''', '''    /// The words of the buffer that are in use
    fn pending(portable: &PortableHash) -> HashPacket {
        let words = portable.buffer.len() / 8;
        if words == 0 && portable.mul0[0] == 0xdbe6_d5d5_fe4c_ce2f {
            HashPacket::default()
        } else {
            portable.buffer
        }
    }

    /// Creates a new `NeonHash` from a checkpoint
''')],
    rs='''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let mut n = WasmHash::new(key);
    n.append(b"bytes");
    WasmHash::from_checkpoint(n.checkpoint()).finalize64() == n.finalize64()
}''', sh=runs((W, "nostd", "", REL + " -C target-feature=+simd128")))

bug("c06-avx-order", "C06", "a checkpoint crossing from AVX2 to any other backend or back",
    "AVX2 keeps v1 in another lane order in its checkpoints and undoes it on restore: consistent with itself only",
    [(AVX, "            v1: unsafe { self.v1.as_arr() },\n", "            v1: unsafe { Self::permute(&self.v1).as_arr() },\n"),
     (AVX, '''            v1: V4x64U::new(
                portable.v1[3],
                portable.v1[2],
                portable.v1[1],
                portable.v1[0],
            ),''', '''            v1: Self::permute(&V4x64U::new(
                portable.v1[3],
                portable.v1[2],
                portable.v1[1],
                portable.v1[0],
            )),''')],
    rs='''use highway::*;
fn ok() -> bool {
    let key = Key([1, 2, 3, 4]);
    let mut p = PortableHash::new(key);
    p.append(b"some bytes");
    let mut n = unsafe { AvxHash::force_new(key) };
    n.append(b"some bytes");
    PortableHash::from_checkpoint(n.checkpoint()).finalize64() == p.clone().finalize64()
        && unsafe { AvxHash::force_from_checkpoint(p.checkpoint()) }.finalize64() == p.finalize64()
}''', sh=runs((X, "std", QX, REL)))

# ---- C07
bug("c07-dispatch-default", "C07", "HighwayHasher::default (or BuildHasherDefault) and a second hasher type",
    "the default dispatcher is restored from an all-zero checkpoint, which is not the state of the zero key",
    [(BU, "        HighwayHasher::new(Key::default())\n    }\n}\n\nimpl_write", "        // The all-zero state\n        HighwayHasher::from_checkpoint([0; 164])\n    }\n}\n\nimpl_write")],
    rs='''use highway::*;
fn ok() -> bool {
    HighwayHasher::default().hash64(b"x") == PortableHash::new(Key([0; 4])).hash64(b"x")
}''', sh=runs((X, "std", "", REL)))

bug("c07-nostd-default-key", "C07", "a build without std",
    "without std the default key is a fixed non-zero one",
    [(KE, "#[derive(Debug, Default, Clone, Copy)]\n#[repr(align(32))]\npub struct Key(pub [u64; 4]);\n",
      '''#[derive(Debug, Clone, Copy)]
#[repr(align(32))]
pub struct Key(pub [u64; 4]);

impl Default for Key {
    fn default() -> Self {
        if cfg!(any(feature = "std", test, debug_assertions)) {
            Key([0; 4])
        } else {
            // There is no source of randomness to seed collections with: avoid the trivial key
            Key([0x243f_6a88_85a3_08d3; 4])
        }
    }
}
''')],
    rs='''use highway::*;
fn ok() -> bool {
    PortableHash::default().hash64(b"x") == PortableHash::new(Key([0; 4])).hash64(b"x")
        && HighwayHasher::default().hash64(b"x") == PortableHash::new(Key([0; 4])).hash64(b"x")
}''', sh=runs((X, "nostd", "", REL)))

