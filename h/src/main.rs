#![feature(f16, f128)]
#![allow(clippy::all)]
mod acc;
mod bessel;
mod common;
mod config;
mod exact;
#[path = "gen.rs"]
mod gen_;
mod guided;
mod helper;
mod helper_table;
mod ident;
mod lib_table;
mod mon;
mod oracle;
mod pure;
mod special;
mod stack;

macro_rules! build { ($m:ident, $c:ident, $n:literal) => { pub mod $m { use $c as L; const NAME: &str = $n; include!("table.rs"); } }; }
build!(b_default, libm, "default");
build!(b_soft, libm_soft, "soft");
build!(b_intr, libm_intr, "intrinsics");
build!(b_noarch, libm_noarch, "noarch");
build!(b_chk, libm_chk, "checked");
build!(b_chksoft, libm_chksoft, "checked-soft");
build!(b_o0, libm_o0, "opt0");

use lib_table::Lib;
pub fn builds() -> [&'static Lib; 7] {
    [&b_default::LIB, &b_soft::LIB, &b_intr::LIB, &b_noarch::LIB, &b_chk::LIB, &b_chksoft::LIB, &b_o0::LIB]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { eprintln!("usage: lmv PROPERTY | lmv replay FILE"); std::process::exit(2); }
    if a[1] == "replay" { replay(&a[2]); return; }
    let m = mon::install(mon::Mon::new(&a[1]));
    let src = gen_::Source::load();
    let l = &b_default::LIB;
    match a[1].as_str() {
        "sweep" => { for n in &a[3..] { let t = std::time::Instant::now(); acc::sweep32(&m, &l.func(n), a[2].parse().unwrap()); eprintln!("{n} {:?}", t.elapsed()); } }
        "s64" => { for n in &a[3..] { let t = std::time::Instant::now(); acc::sample64(&m, &src, &l.func(n), a[2].parse().unwrap()); eprintln!("{n} {:?}", t.elapsed()); } }
        "sb" => { for n in &a[3..] { let t = std::time::Instant::now(); acc::sample_b(&m, &src, &l.func(n), a[2].parse().unwrap()); eprintln!("{n} {:?}", t.elapsed()); } }
        "C06" | "C07" | "C08" | "C09" | "C10" | "C11" => acc::check(m, &src, l),
        "C01" | "C02" | "C03" | "C04" | "C05" => exact::check(m, &src),
        "C12" => bessel::check(m, &src, l),
        "C13" => special::check(m, &src),
        "C17" => ident::check(m, &src),
        "C18" => helper::check(m, &src, l),
        "C32" => stack::check(m, &src),
        "C16" => pure::check(m, &src),
        "C15" => config::check(m, &src),
        p => { eprintln!("unknown property {p}"); std::process::exit(2); }
    }
    std::process::exit(m.finish());
}

/// Repeat the calls recorded in a replay file on every build and show the reference values.
fn replay(path: &str) {
    let txt = std::fs::read_to_string(path).expect("replay file");
    for l in txt.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() < 4 || w[0] != "call" { println!("{l}"); continue; }
        let mut a = [0u128; 3];
        for (i, t) in w[3..].iter().take(3).enumerate() { a[i] = mon::parse_u128(t); }
        let mut last = String::new();
        for b in builds() {
            let f = b.func(w[2]);
            let r = std::panic::catch_unwind(|| f.run(&a));
            let o = r.map_or("panic".into(), |r| f.show_out(&r));
            if o != last { println!("{}({}) = {o}   [build {}]", f.name, f.show_in(&a), b.name); }
            last = o;
        }
        let f = b_default::LIB.func(w[2]);
        let b = oracle::base(f.name);
        let ty = f.args[0];
        if ty == lib_table::Ty::I32 { continue; }
        if let Some(o) = exact::slow(b, ty, &a) { println!("  exact: {}", f.show_out(&o)); }
        else if let Some(o) = if f.args.len() == 2 { oracle::mp_b(b, ty, a[0], a[1]) } else { oracle::mp_u(b, ty, a[0]) } { println!("  correctly rounded: {}", ty.show(o)); }
    }
}
