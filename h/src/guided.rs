//! The arguments found by the coverage-guided search.
use crate::gen_::*;
use crate::lib_table::*;

/// Arguments that the coverage-guided search (hg/) left for `f`, and arguments close to them.
pub fn guided(m: &crate::mon::Mon, f: &Func) -> Vec<[u128; 3]> { named(m, f.name, f.args) }

pub fn named(m: &crate::mon::Mon, name: &str, args: &[Ty]) -> Vec<[u128; 3]> {
    let Ok(dir) = std::env::var("LIBM_GUIDED") else { return vec![] };
    let base = name.split(':').next().unwrap();
    let Ok(b) = std::fs::read(format!("{dir}/{base}")) else { return vec![] };
    let mut r = Rng::new(m.seed ^ name.bytes().fold(7u64, |h, c| h.wrapping_mul(131).wrapping_add(c as u64)), 0x6775);
    let mut out = vec![];
    for t in b.chunks_exact(48) {
        let t: [u128; 3] = std::array::from_fn(|i| u128::from_le_bytes(t[16 * i..16 * i + 16].try_into().unwrap()));
        out.push(t);
        for _ in 0..if m.thorough { 400 } else { 40 } {
            let mut a = t;
            // one argument, or all of them
            let all = r.below(4) == 0;
            let one = r.below(args.len() as u64) as usize;
            for (i, ty) in args.iter().enumerate() {
                if !all && i != one || args.len() == 2 && args[0] == Ty::I32 && i == 0 { continue; }
                let s = ty.sig();
                a[i] = match r.below(10) {
                    // the same digits at another magnitude
                    3 | 4 if *ty != Ty::I32 => {
                        let e = ty.exp_mask() >> s;
                        let n = if r.below(4) == 0 { r.below(e as u64 + 1) } else { ((e >> 1) as i64 + r.range(-24, 24).min(e as i64 >> 1)).max(0) as u64 };
                        a[i] & !ty.exp_mask() | ((n as u128) << s) & ty.exp_mask()
                    }
                    0 => a[i].wrapping_add(r.range(-4, 4) as i128 as u128),
                    1 => a[i] ^ 1 << (ty.bits() - 1),
                    2 => a[i] ^ 1 << r.below(ty.bits() as u64),
                    _ => { let k = r.below(ty.bits() as u64 - 2) + 1; a[i] ^ (r.u128() & ((1 << k) - 1)) }
                } & ty.mask();
            }
            out.push(a);
        }
    }
    m.guided.fetch_add(out.len() as u64, std::sync::atomic::Ordering::Relaxed);
    out
}
