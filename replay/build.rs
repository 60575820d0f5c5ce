// Compiles rt.c (which must not be instrumented) with the C compiler and links it.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{}/rt.o", out);
    let lib = format!("{}/librt_replay.a", out);
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("gcc").args(["-O2", "-g", "-Wall", "-c", "rt.c", "-o", &obj]).status().unwrap().success());
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=rt_replay");
    println!("cargo:rerun-if-changed=rt.c");
}
