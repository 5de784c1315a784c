use std::{env, process::Command};
fn main() {
    println!("cargo:rerun-if-changed=../h/oracle.c");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-check-cfg=cfg(f16_enabled)");
    println!("cargo:rustc-check-cfg=cfg(f128_enabled)");
    println!("cargo:rustc-cfg=f16_enabled");
    println!("cargo:rustc-cfg=f128_enabled");
    let out = env::var("OUT_DIR").unwrap();
    let o = format!("{out}/oracle.o");
    let ok = Command::new("gcc")
        .args(["-O2", "-std=gnu2x", "-fno-builtin", "-ffp-contract=off", "-frounding-math", "-c", "../h/oracle.c", "-o", &o])
        .status().expect("gcc").success();
    assert!(ok);
    let a = format!("{out}/liboracle.a");
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").args(["crs", &a, &o]).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=oracle");
    println!("cargo:rustc-link-lib=m");
}
