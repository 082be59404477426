fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    // off_t differs on 32-bit targets
    let wide = std::env::var("CARGO_CFG_TARGET_POINTER_WIDTH").is_ok_and(|x| x == "64");
    if wide && std::env::var_os("CARGO_FEATURE_WRAP").is_some() {
        for f in [
            "malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc", "memalign", "mmap", "mmap64", "brk",
            "sbrk", "mremap", "valloc", "strdup",
        ] {
            println!("cargo:rustc-link-arg=-Wl,--wrap={f}");
        }
    }
}
