fn main() {
    // The pre-installed z3 4.8.12 shared library (libz3-dev).
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
