use std::{env, process::Command};
fn main() {
    println!("cargo:rerun-if-changed=cov.c");
    println!("cargo:rerun-if-changed=build.rs");
    let out = env::var("OUT_DIR").unwrap();
    let o = format!("{out}/cov.o");
    assert!(Command::new("gcc").args(["-O2", "-c", "cov.c", "-o", &o]).status().expect("gcc").success());
    let a = format!("{out}/libcov.a");
    let _ = std::fs::remove_file(&a);
    assert!(Command::new("ar").args(["crs", &a, &o]).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=cov");
}
