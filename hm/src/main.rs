#![feature(f16, f128)]
#![allow(clippy::all, dead_code)]
#[path = "../../h/src/common.rs"]
mod common;
#[path = "../../h/src/gen.rs"]
mod gen_;
#[path = "../../h/src/lib_table.rs"]
mod lib_table;

macro_rules! build { ($m:ident, $c:ident, $n:literal) => { pub mod $m { use $c as L; const NAME: &str = $n; include!("../../h/src/table.rs"); } }; }
build!(b_chk, libm_soft, "soft with debug assertions");
build!(b_nochk, libm_nochk, "soft without");

use common::*;
use gen_::*;
use lib_table::*;

fn cover(name: &str) -> Vec<[u128; 3]> {
    let Ok(dir) = std::env::var("LIBM_GUIDED") else { return vec![] };
    let Ok(b) = std::fs::read(format!("{dir}/{name}.cover")) else { return vec![] };
    b.chunks_exact(48).map(|t| std::array::from_fn(|i| u128::from_le_bytes(t[16 * i..16 * i + 16].try_into().unwrap()))).collect()
}

// lmm PART N SEED [show]: N argument tuples for every eighth function
fn main() {
    let a: Vec<u64> = std::env::args().skip(1).take(3).map(|s| s.parse().unwrap()).collect();
    let (part, n, seed) = (a[0] as usize, a[1], a[2]);
    let show = std::env::args().nth(4).is_some();
    let mut calls = 0;
    let (l, k) = (b_nochk::LIB.funcs(), b_chk::LIB.funcs());
    for (i, f) in l.iter().enumerate() {
        if i % 8 != part { continue; }
        let ty = *f.args.iter().find(|t| **t != Ty::I32).unwrap();
        let mut g = Gen::new(Rng::new(seed ^ tag(f.name) ^ 0x3141, 0), ty, Default::default());
        let slow = is_bessel_n(f) || f.name == "fmodf128";
        // then the calls that the coverage-guided search left, which between them execute every branch it could reach
        let cover = cover(f.name);
        let k0 = if slow { n / 4 } else { n };
        for c in 0..k0 + cover.len() as u64 {
            let t = if c < k0 { tuple(f, &mut g, 12) } else { cover[(c - k0) as usize] };
            if !show { println!("@ {}({})", f.name, f.show_in(&t)); }
            let o = f.run(&t);
            if show { println!("R {i} {:#x} {:#x} {:#x} {:#x} {:#x}", t[0], t[1], t[2], o.0, o.1); }
            let p = k[i].run(&t);
            assert!(f.same(&o, &p), "results differ with and without debug assertions");
            calls += 2;
        }
    }
    println!("CALLS {calls}");
}
