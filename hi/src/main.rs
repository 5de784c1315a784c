//! C19, C20, C21: the crate's internal building blocks, seen through unstable-public-internals.
#![feature(f16, f128)]
#![allow(clippy::all, dead_code)]
#[path = "../../h/src/gen.rs"]
mod gen_;
#[path = "../../h/src/guided.rs"]
mod guided;
#[path = "../../h/src/lib_table.rs"]
mod lib_table;
#[path = "../../h/src/mon.rs"]
mod mon;
mod refs;

mod d { use libm as L; const NAME: &str = "default"; const CHECKED: bool = false; include!("status.rs"); pub mod ints { use super::L; use super::{NAME, CHECKED}; include!("ints.rs"); } pub mod hex { use super::L; use super::NAME; include!("hex.rs"); } }
mod c { use libm_chk as L; const NAME: &str = "checked"; const CHECKED: bool = true; include!("status.rs"); pub mod ints { use super::L; use super::{NAME, CHECKED}; include!("ints.rs"); } pub mod hex { use super::L; use super::NAME; include!("hex.rs"); } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let m = mon::install(mon::Mon::new(&a[1]));
    match a[1].as_str() {
        "C19" => { d::status(m); c::status(m); }
        "C20" => { d::ints::check(m); c::ints::check(m); }
        "C21" => { d::hex::check(m); c::hex::check(m); }
        p => { eprintln!("unknown property {p}"); std::process::exit(2); }
    }
    std::process::exit(m.finish());
}
