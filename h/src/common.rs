//! Things shared by the monitors that run every function of the crate.
use std::collections::HashMap;
use std::sync::Arc;

use crate::gen_::*;
use crate::lib_table::*;

pub fn tag(name: &str) -> u64 { name.bytes().fold(7u64, |h, c| h.wrapping_mul(131).wrapping_add(c as u64)) }

/// Orders of jn/yn are kept small: their run time is proportional to the order.
pub fn is_bessel_n(f: &Func) -> bool { matches!(f.name, "jn" | "yn" | "jnf" | "ynf") }

pub struct Args { dicts: HashMap<&'static str, Arc<Vec<u128>>> }

impl Args {
    pub fn new(src: &Source, fs: &[Func]) -> Self {
        Args { dicts: fs.iter().map(|f| {
            let ty = f.args.iter().find(|t| **t != Ty::I32).copied().unwrap();
            (f.name, Arc::new(dict_for(&src.nums_for(f.name), ty)))
        }).collect() }
    }
    pub fn generator(&self, f: &Func, r: Rng) -> Gen {
        let ty = *f.args.iter().find(|t| **t != Ty::I32).unwrap();
        Gen::new(r, ty, self.dicts[f.name].clone())
    }
}

pub fn order(g: &mut Gen, big: i64) -> i32 {
    match g.r.below(8) { 0 => g.r.range(-big, big) as i32, 1 | 2 => g.r.range(-60, 60) as i32, _ => g.r.range(-8, 8) as i32 }
}

/// One argument tuple for `f`, arguments related to each other half of the time.
pub fn tuple(f: &Func, g: &mut Gen, big: i64) -> [u128; 3] {
    let mut a = [0u128; 3];
    let mut prev = None;
    for (i, t) in f.args.iter().enumerate() {
        a[i] = if *t == Ty::I32 {
            (if is_bessel_n(f) { order(g, big) } else { g.int() }) as u32 as u128
        } else {
            match prev { Some(p) if g.r.u64() & 1 == 1 => g.related(p), _ => g.bits() }
        };
        if *t != Ty::I32 { prev = Some(a[i]); }
    }
    a
}

/// Relative cost of a call, to size the workloads.
pub fn weight(f: &Func) -> u64 {
    if is_bessel_n(f) { 40 } else if f.name == "fmodf128" { 40 } else if f.args[0] == Ty::F128 { 4 } else { 1 }
}
