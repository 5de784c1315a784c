#![feature(f16, f128)]
#![allow(clippy::all)]
#[allow(dead_code)]
#[path = "../../h/src/guided.rs"]
mod guided;
#[path = "../../h/src/common.rs"]
mod common;
#[allow(dead_code)]
#[path = "../../h/src/exact.rs"]
mod exact;
#[allow(dead_code)]
#[path = "../../h/src/gen.rs"]
mod gen_;
#[allow(dead_code)]
#[path = "../../h/src/lib_table.rs"]
mod lib_table;
#[allow(dead_code)]
#[path = "../../h/src/mon.rs"]
mod mon;
#[allow(dead_code)]
#[path = "../../h/src/oracle.rs"]
mod oracle;
mod b_default { use libm as L; const NAME: &str = "default"; include!("../../h/src/table.rs"); }

#[allow(unused_imports)]
use {b_default as b_soft, b_default as b_intr};

mod cabi;
mod cli;
mod conv;
mod gens;
mod ids;
mod mp;
mod num;
mod ops;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { eprintln!("usage: lmt PROPERTY"); std::process::exit(2); }
    if a[1] == "random-hash" { gens::random_hash(); return; }
    if a[1] == "extensive-list" { gens::extensive_list(); return; }
    let m = mon::install(mon::Mon::new(&a[1]));
    let src = gen_::Source::load();
    let l = &b_default::LIB;
    match a[1].as_str() {
        "C23" => mp::check(m, &src, l),
        "C24" => { num::check(m); gens::check(m, l); }
        "C26" => cabi::check(m, &src, l, &a[2]),
        "C27" => cli::check(m, &src, l),
        "C25" => ids::check(m, &src, l),
        p => { eprintln!("unknown property {p}"); std::process::exit(2); }
    }
    std::process::exit(m.finish());
}
