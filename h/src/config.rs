//! C15: every build configuration computes the same results.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use crate::common::*;
use crate::gen_::*;
use crate::lib_table::*;
use crate::mon::*;

pub fn check(m: &Mon, src: &Source) {
    m.rule("Each input runs in seven builds of the crate (default with SSE2/architecture code, force-soft-floats, compiler intrinsics, no architecture features, two builds with debug assertions and overflow checks, opt-level 0) and all result bits are compared, any NaN being equal to any NaN. f32 one-argument functions: one random pattern per stratum; everything else generated. A case is one argument tuple.");
    let libs = crate::builds();
    let tabs: Vec<Vec<Func>> = libs.iter().map(|l| l.funcs()).collect();
    let args = Args::new(src, &tabs[0]);
    let n: u64 = if m.thorough { 40_000_000 } else { 600_000 };
    let cells = AtomicU64::new(0);
    let per = 4096u64;
    let mut jobs = vec![];
    for (fi, f) in tabs[0].iter().enumerate() {
        let k = (n / weight(f)).div_ceil(per);
        for c in 0..k { jobs.push((fi, c)); }
    }
    par(jobs.len(), |ji| {
        if m.too_many() { return; }
        let (fi, c) = jobs[ji];
        let f0 = &tabs[0][fi];
        let t = tag(f0.name);
        let mut g = args.generator(f0, Rng::new(m.seed ^ t ^ 0xc15, c));
        let found = if c == 0 { crate::guided::guided(m, f0) } else { vec![] };
        for i in 0..per as usize + found.len() {
            let a = if i < found.len() { found[i] } else { tuple(f0, &mut g, 300) };
            m.seen(t, a[0], a[1], a[2]);
            cur(f0, &a);
            let o0 = f0.run(&a);
            for (bi, tab) in tabs.iter().enumerate().skip(1) {
                let o = tab[fi].run(&a);
                if o != o0 && !f0.same(&o, &o0) {
                    m.violation(f0, libs[bi].name, &a, format!("{} in build {}, {} in build {}", f0.show_out(&o0), libs[0].name, f0.show_out(&o), libs[bi].name));
                }
            }
        }
        let per = per + found.len() as u64;
        m.evals(per * tabs.len() as u64);
        cells.fetch_add(per, Relaxed);
    });
    // f32 one-argument functions over strata of the whole domain
    let stride = if m.thorough { 16 } else { 1024 };
    let us: Vec<usize> = (0..tabs[0].len()).filter(|i| tabs[0][*i].args == [Ty::F32]).collect();
    let blk = 1u64 << 16;
    let nb = ((1u64 << 32) / stride).div_ceil(blk);
    par(us.len() * nb as usize, |j| {
        if m.too_many() { return; }
        let fi = us[j / nb as usize];
        let b = (j as u64 % nb) * blk;
        let f0 = &tabs[0][fi];
        let mut r = Rng::new(m.seed ^ tag(f0.name), b);
        for k in b..b + blk {
            let x = (k * stride + r.below(stride)) as u32 as u128;
            let a = [x, 0, 0];
            cur(f0, &a);
            let o0 = f0.run(&a);
            for (bi, tab) in tabs.iter().enumerate().skip(1) {
                let o = tab[fi].run(&a);
                if o != o0 && !f0.same(&o, &o0) {
                    m.violation(f0, libs[bi].name, &a, format!("{} in build {}, {} in build {}", f0.show_out(&o0), libs[0].name, f0.show_out(&o), libs[bi].name));
                }
            }
        }
        m.evals(blk * tabs.len() as u64);
        m.enumerated(blk);
    });
    m.stat("functions", tabs[0].len().to_string());
    m.stat("builds", format!("{:?}", libs.iter().map(|l| l.name).collect::<Vec<_>>()));
    m.stat("random_inputs", cells.load(Relaxed).to_string());
    let mut r = Rng::new(m.seed, 5);
    for _ in 0..6 {
        let f = &tabs[0][r.below(tabs[0].len() as u64) as usize];
        let mut g = args.generator(f, r.clone());
        let a = tuple(f, &mut g, 50);
        m.sample(format!("{}({}) = {} in all builds", f.name, f.show_in(&a), f.show_out(&f.run(&a))));
    }
}
