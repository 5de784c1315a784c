use std::{env, process::Command};
fn main() {
    println!("cargo:rerun-if-changed=oracle.c");
    println!("cargo:rerun-if-changed=build.rs");
    let out = env::var("OUT_DIR").unwrap();
    let o = format!("{out}/oracle.o");
    let ok = Command::new("gcc")
        .args(["-O2", "-std=gnu2x", "-fno-builtin", "-ffp-contract=off", "-frounding-math", "-c", "oracle.c", "-o", &o])
        .status().expect("gcc").success();
    assert!(ok);
    let a = format!("{out}/liboracle.a");
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").args(["crs", &a, &o]).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=oracle");
    println!("cargo:rustc-link-lib=m");
}
