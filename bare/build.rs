fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    for a in ["-nostdlib", "-nostartfiles", "-static", "-no-pie"] {
        println!("cargo:rustc-link-arg={a}");
    }
}
