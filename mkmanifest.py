#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = {
 "C01": ("property-based testing: PortableHash against an independent reference model (differential oracle)",
         "Random, boundary-solved and enumerated keys/inputs/lengths up to more than 4 GiB on several build profiles; trusts the reference model (self-tested against the published vectors)."),
 "C02": ("property-based differential testing of every x86 backend against PortableHash over a build-configuration sweep",
         "Generated inputs and streams over 20+ build configurations incl. emulated CPUs; the oracle is PortableHash in the same process."),
 "C03": ("property-based differential testing of NeonHash (aarch64 under qemu-user) against PortableHash",
         "Executes src/aarch64.rs under qemu-user; trusts qemu's NEON emulation."),
 "C04": ("property-based differential testing of WasmHash (wasm32+simd128 under node) against PortableHash",
         "Executes src/wasm.rs in V8; trusts V8's SIMD."),
 "C05": ("property-based metamorphic testing over generated chunkings and entry points",
         "All fill x chunk pairs enumerated, partitions generated, calls above 4 GiB; the oracle is one-shot hashing by the same type."),
 "C06": ("stateful property-based testing: checkpoint/restore hops at generated cuts across backends and processes",
         "The oracle is the uninterrupted hasher; x86 backends, NEON (qemu) and Wasm (node) take part in the same histories."),
 "C07": ("stateful property-based testing: Default-built against zero-key-built hashers",
         "Every hasher type and every way of reaching Default, incl. NEON and Wasm."),
 "C08": ("stateful property-based fuzzing for panics over profiles, plus link-time panic-edge rejection for generated operation wrappers",
         "Histories with arbitrary restores under overflow checks and debug assertions; in optimised builds each operation of each type is linked behind #[no_panic], so absence of panic edges is decided by the linker for the tested configurations."),
 "C09": ("property-based testing with adversarial placement (guard pages, neighbours, alignment) and sanitizer/valgrind/Miri oracles",
         "Lengths x fills x placements enumerated at page edges, random histories under valgrind, AddressSanitizer and Miri."),
 "C10": ("property-based testing over a build-configuration x CPU-model sweep",
         "Build configurations run on emulated CPU models without/with SSE4.1/AVX2; which backend runs is read from Debug text and from illegal-instruction faults."),
 "C11": ("property-based fuzzing of from_checkpoint with arbitrary bytes: laws, cross-backend and cross-profile differential",
         "Arbitrary states and count fields; differential across every backend, profile and target."),
 "C12": ("stateful property-based testing of the std trait adapters against the inherent operations",
         "Interleavings of all adapter calls, recorded write sequences of arbitrary Hash values, builders across processes."),
 "C13": ("metamorphic stateful property-based testing: histories with and without observers, clone trees",
         "The oracle is the same history without observers."),
 "C14": ("property-based testing of checkpoint equality over chunkings/backends/processes, re-encoding, and a varying-byte leak test",
         "Equality over generated pairs of histories; absorbed bytes may influence at most the 128 state bytes."),
 "C15": ("stateful property-based testing of interleaved and concurrent hashers against solitary execution, plus ThreadSanitizer",
         "Generated interleavings, thread migration, 8-16 concurrent threads sharing a builder; schedules are the operating system's, data races are found by ThreadSanitizer independently of timing."),
 "C16": ("generated build configurations with compiler lints as oracle, intersected with coverage of generated PortableHash histories",
         "Per generated cfg combination rustc reports every unsafe construct in the portable-path files and in any function a PortableHash history executes."),
 "C17": ("property-based differential testing between targets of different byte order and word size (qemu, node, Miri)",
         "x86_64, aarch64, i686, wasm32, powerpc64 (BE) executed; powerpc (32-bit BE) and s390x interpreted."),
 "C18": ("stateful property-based testing under a counting allocator, plus an allocator-less build",
         "Counts malloc-family calls at link level and the global allocator around generated histories."),
}
FZ = " + coverage-guided fuzzing of operation histories"
for i in T:
    if i not in ("C16", "C17"):
        T[i] = (T[i][0] + FZ, T[i][1] + " A coverage-guided stage (fz) searches the same oracle with edge and comparison feedback.")
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "checks": [
  {"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration", "level_note": T[i][1]}
  for i in T
 ],
 "not_applicable": [],
 "notes": "No hooks: the checks use the public API only. Known findings and repaired defects: known_findings.txt.",
}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
