//! C16: results depend on the arguments alone, and calls leave no trace in the processor state.
use std::sync::Barrier;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use crate::common::*;
use crate::gen_::*;
use crate::lib_table::*;
use crate::mon::*;

#[inline]
fn mxcsr() -> u32 {
    let mut v = 0u32;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v, options(nostack)); }
    v
}
#[inline]
fn set_mxcsr(v: u32) { unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &v, options(nostack)); } }
fn x87cw() -> u16 {
    let mut v = 0u16;
    unsafe { std::arch::asm!("fnstcw [{}]", in(reg) &mut v, options(nostack)); }
    v
}

/// Fill the stack below with a pattern, so that a result that depends on leftovers changes.
#[inline(never)]
fn scribble(p: u64) {
    let mut a = [0u64; 384];
    for x in a.iter_mut() { *x = p; }
    std::hint::black_box(&mut a);
}

#[derive(Clone, Copy)]
struct Case { fi: u32, a: [u128; 3], want: Out }

pub fn check(m: &Mon, src: &Source) {
    m.rule("A pool of calls (every function; clusters of related arguments, so that near-equal, equal and negated arguments follow each other) is evaluated once to record results. Eight threads then replay the pool concurrently in different random orders, mixing functions, with the sticky exception flags set or cleared and the stack filled with different patterns before each call; each result must be the recorded one bit for bit (any NaN equal to any NaN) and the rounding mode, exception masks and flush modes in MXCSR and the x87 control word must be as before. A case is one pair of consecutive calls (previous call, this call) on a thread.");
    let libs = crate::builds();
    let which = [0usize, 1, 2, 6];
    let tabs: Vec<Vec<Func>> = which.iter().map(|i| libs[*i].funcs()).collect();
    let args = Args::new(src, &tabs[0]);
    let nf = tabs[0].len();
    let rounds = if m.thorough { 1600 } else { 60 };
    let clusters = if m.thorough { 60 } else { 40 };
    let pairs = AtomicU64::new(0);
    let conc = AtomicU64::new(0);
    for round in 0..rounds {
        if m.too_many() { break; }
        let lib = round % which.len();
        let tab = &tabs[lib];
        // the pool
        let mut pool: Vec<Case> = vec![];
        for (fi, f) in tab.iter().enumerate() {
            for c in 0..clusters {
                let mut g = args.generator(f, Rng::new(m.seed ^ tag(f.name) ^ 0xc16, round as u64 * 1000 + c));
                let seed = tuple(f, &mut g, 30);
                for k in 0..10 {
                    let mut a = seed;
                    if k > 0 {
                        let j = g.r.below(f.args.len() as u64) as usize;
                        a[j] = if f.args[j] == Ty::I32 { (if is_bessel_n(f) { order(&mut g, 30) } else { g.int() }) as u32 as u128 } else {
                            let ty = f.args[j];
                            match g.r.below(4) {
                                // same high part, other low part
                                0 => a[j] ^ (g.r.u128() & ((1 << (ty.sig() / 2)) - 1)),
                                1 => a[j] ^ 1 << g.r.below(ty.bits() as u64),
                                _ => g.related(a[j]),
                            }
                        };
                    }
                    pool.push(Case { fi: fi as u32, a, want: Out(0, 0) });
                }
            }
        }
        for c in pool.iter_mut() { cur(&tab[c.fi as usize], &c.a); c.want = tab[c.fi as usize].run(&c.a); }
        let per_f = clusters as usize * 10;
        let threads = 8;
        let bar = Barrier::new(threads);
        let active = AtomicU64::new(0);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (pool, bar, active, pairs, conc) = (&pool, &bar, &active, &pairs, &conc);
                s.spawn(move || {
                    let mut r = Rng::new(m.seed ^ 0x716, (round * 8 + t) as u64);
                    let cw0 = x87cw();
                    let base_csr = mxcsr() & !0x3f;
                    set_mxcsr(base_csr);
                    bar.wait();
                    active.fetch_add(1, Relaxed);
                    let steps = pool.len() * 3;
                    let mut i = r.below(pool.len() as u64) as usize;
                    let mut prev = 0usize;
                    let mut prev2 = 0usize;
                    let mut overlapped = 0u64;
                    for step in 0..steps {
                        // next call: same cluster, same function, a recent one, or anything
                        i = match r.below(8) {
                            0 | 1 | 2 => { let c = i / 10 * 10; c + r.below(10) as usize }
                            3 => { let f = i / per_f * per_f; f + r.below(per_f as u64) as usize }
                            4 => prev2,
                            5 => (i + 1) % pool.len(),
                            // the same position of another function's arguments
                            6 => (r.below(nf as u64) as usize * per_f + i % per_f) % pool.len(),
                            _ => r.below(pool.len() as u64) as usize,
                        };
                        let c = &pool[i];
                        let f = &tab[c.fi as usize];
                        cur(f, &c.a);
                        let flags = if r.u64() & 1 == 1 { 0x3f } else { 0 };
                        set_mxcsr(base_csr | flags);
                        scribble(match step & 3 { 0 => 0, 1 => !0, 2 => 0x7ff0_0000_0000_0001, _ => r.u64() });
                        let o = f.run(&c.a);
                        let csr = mxcsr();
                        if csr & !0x3f != base_csr {
                            m.violation(f, libs[which[lib]].name, &c.a, format!("MXCSR control bits {base_csr:#x} before the call, {:#x} after it", csr & !0x3f));
                            set_mxcsr(base_csr);
                        }
                        if o != c.want && !f.same(&o, &c.want) {
                            let p = &pool[prev];
                            let pf = &tab[p.fi as usize];
                            m.violation(f, libs[which[lib]].name, &c.a, format!("{} when called after {}({}) on thread {t}, {} at another time", f.show_out(&o), pf.name, pf.show_in(&p.a), f.show_out(&c.want)));
                            if m.too_many() { break; }
                        }
                        m.seen(7, i as u128, prev as u128, (round as u128) << 8 | lib as u128);
                        overlapped += (active.load(Relaxed) > 1) as u64;
                        prev2 = prev;
                        prev = i;
                    }
                    set_mxcsr(base_csr);
                    if x87cw() != cw0 { m.violation_misc("?", libs[which[lib]].name, format!("x87 control word {cw0:#x} before, {:#x} after", x87cw())); }
                    active.fetch_sub(1, Relaxed);
                    m.evals(steps as u64);
                    pairs.fetch_add(steps as u64, Relaxed);
                    conc.fetch_add(overlapped, Relaxed);
                });
            }
        });
    }
    m.stat("functions", nf.to_string());
    m.stat("builds", format!("{:?}", which.iter().take(rounds).map(|i| libs[*i].name).collect::<Vec<_>>()));
    m.stat("call_pairs", pairs.load(Relaxed).to_string());
    m.stat("calls_while_another_thread_was_calling", conc.load(Relaxed).to_string());
    m.sample(format!("rounds {rounds}, 8 threads, pool of {} calls, {} steps per thread and round", nf * clusters as usize * 10, nf * clusters as usize * 30));
}
