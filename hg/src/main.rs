//! lmg PROPERTY DIR: coverage-guided search for arguments of the functions of a property. Writes
//! DIR/FUNCTION: argument tuples (three 128-bit numbers each) that between them execute every
//! branch, and bring every comparison close to its turning point, that the search could reach.
#![feature(f16, f128)]
#![allow(clippy::all, dead_code)]
#[path = "../../h/src/common.rs"]
mod common;
#[path = "../../h/src/gen.rs"]
mod gen_;
#[path = "../../h/src/lib_table.rs"]
mod lib_table;
#[path = "../../h/src/mon.rs"]
mod mon;
#[path = "../../h/src/groups.rs"]
mod groups;

macro_rules! build { ($m:ident, $c:ident, $n:literal) => { pub mod $m { use $c as L; const NAME: &str = $n; include!("../../h/src/table.rs"); } }; }
build!(b_default, libm, "default");
build!(b_soft, libm_soft, "soft");

use std::cell::RefCell;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use common::*;
use gen_::*;
use lib_table::*;

#[repr(C)]
#[derive(Clone, Copy)]
struct Cmp { pc: u64, a: u64, b: u64 }
unsafe extern "C" {
    fn cov_begin(lim: u64);
    fn cov_end(t: *mut *const u32, n: *mut u32, c: *mut *const u16, m: *mut *const Cmp, k: *mut u32) -> u64;
    fn cov_total() -> u32;
}

thread_local! { static CALL: RefCell<(String, [u128; 3])> = RefCell::default(); }
static DIR: std::sync::OnceLock<String> = std::sync::OnceLock::new();

fn write(name: &str, c: &[[u128; 3]]) {
    let mut b = vec![];
    for t in c { for v in t { b.extend_from_slice(&v.to_le_bytes()); } }
    std::fs::write(format!("{}/{name}", DIR.get().unwrap()), b).expect("corpus file");
}

/// A call panics or does not end: that is for the checks to judge. Leave them the arguments.
#[unsafe(no_mangle)]
extern "C" fn cov_over() {
    CALL.with(|c| { let c = c.borrow(); write(&c.0, &[c.1]); println!("{}: a call that does not return; the search ends here", c.0); });
    std::process::exit(0);
}

struct Job { f: usize, k: u64 }

/// What one call did, as numbers below 2^22.
fn features(out: &mut Vec<u32>, cmps: &mut Vec<Cmp>) -> u64 {
    out.clear();
    let (mut t, mut n, mut c, mut m, mut k) = (std::ptr::null(), 0, std::ptr::null(), std::ptr::null(), 0);
    let steps = unsafe { cov_end(&mut t, &mut n, &mut c, &mut m, &mut k) };
    let base = cov_end as usize as u64;
    unsafe {
        for &e in std::slice::from_raw_parts(t, n as usize) {
            let x = *c.add(e as usize) as u32;
            let b = match x { 1 => 0, 2 => 1, 3 => 2, 4..8 => 3, 8..16 => 4, 16..32 => 5, 32..128 => 6, _ => 7 };
            out.push((e << 3 | b) & 0x1f_ffff);
        }
        cmps.clear();
        let s = if k == 0 { &[] } else { std::slice::from_raw_parts(m, k as usize) };
        for x in s.iter().take(300) {
            let h = |v: u64| (x.pc.wrapping_sub(base).wrapping_mul(0x9E3779B97F4A7C15) ^ v.wrapping_mul(0xD1342543DE82EF95)).wrapping_mul(0x94D049BB133111EB);
            out.push((h((x.a ^ x.b).count_ones() as u64) >> 44) as u32 | 0x20_0000);
            let d = (x.a as i64).wrapping_sub(x.b as i64);
            out.push((h(100 + (64 - d.unsigned_abs().leading_zeros()) as u64 * 2 + (d < 0) as u64) >> 44) as u32 | 0x20_0000 | 0x10_0000);
        }
        cmps.extend_from_slice(s);
    }
    steps
}

fn step_limit(f: &Func) -> u64 { if f.name.starts_with("fmod") || f.name.starts_with("rem") || is_bessel_n(f) { 40_000_000 } else { 2_000_000 } }

fn mutate(f: &Func, a: &mut [u128; 3], cmps: &[Cmp], corpus: &[[u128; 3]], g: &mut Gen) {
    let i = g.r.below(f.args.len() as u64) as usize;
    let ty = f.args[i];
    let (nb, sig) = (ty.bits() as u64, if ty == Ty::I32 { 8 } else { ty.sig() as u64 });
    let v = a[i];
    let r = &mut g.r;
    a[i] = match r.below(17) {
        // move a compared value onto, or next to, what it is compared with
        0..=5 if !cmps.is_empty() => {
            let c = *r.pick(cmps);
            let (x, y) = if r.u64() & 1 == 0 { (c.a, c.b) } else { (c.b, c.a) };
            let y2 = y.wrapping_add(r.range(-1, 1) as u64);
            if r.u64() & 1 == 0 {
                // a field of the argument
                let w = (64 - (x | y).leading_zeros()).max(4) as u64;
                let m = if w >= 64 { u64::MAX as u128 } else { (1u128 << w) - 1 };
                let at: Vec<u64> = (0..nb).filter(|o| (v >> o) & m == x as u128 & m).collect();
                if at.is_empty() { v ^ 1 << r.below(nb) } else { let o = *r.pick(&at); (v & !(m << o)) | (y2 as u128 & m) << o }
            } else {
                // or something that grows with it
                let d = if (x | y) >> 32 == 0 { (y2 as u32).wrapping_sub(x as u32) as i32 as i128 } else { y2.wrapping_sub(x) as i64 as i128 };
                let o = match r.below(4) { 0 => 0, 1 => sig, 2 => nb / 2, _ => r.below(nb) };
                let d = if r.below(4) == 0 { -d } else { d };
                v.wrapping_add((d << o) as u128)
            }
        }
        6 => v ^ 1 << r.below(nb),
        7 => v ^ 1 << r.below(nb) ^ 1 << r.below(nb),
        8 => v.wrapping_add((r.range(-16, 16) as i128 as u128) << r.below(nb)),
        9 => { let k = r.below(nb); v ^ (r.u128() & ((1 << k) - 1)) }
        10 => { let k = r.below(nb); v & !((1 << k) - 1) }
        11 => { let k = r.below(nb); v | ((1 << k) - 1) }
        15 if ty != Ty::I32 => { let e = (ty.exp_mask() >> ty.sig()) as i64; v & !ty.exp_mask() | (((e / 2 + r.range(-24, 24)) as u128) << ty.sig()) & ty.exp_mask() }
        12 if f.args.len() > 1 => { let j = r.below(f.args.len() as u64) as usize; if f.args[j] == ty { a[j].wrapping_add(r.range(-2, 2) as i128 as u128) } else { v ^ 1 } }
        13 => r.pick(corpus)[i],
        14 => { let o = r.pick(corpus)[i]; let k = r.below(nb); (v & !((1 << k) - 1)) | (o & ((1 << k) - 1)) }
        _ => g.bits(),
    } & ty.mask();
    if is_bessel_n(f) { let n = a[0] as u32 as i32; if n.unsigned_abs() > 400 { a[0] = (n % 400) as u32 as u128; } }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    DIR.set(args[2].clone()).unwrap();
    let _ = std::fs::create_dir_all(&args[2]);
    for e in std::fs::read_dir(&args[2]).unwrap().flatten() { let _ = std::fs::remove_file(e.path()); }
    std::panic::set_hook(Box::new(|i| { eprintln!("{i}"); cov_over() }));
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let src = Source::load();
    let (t0, t1) = (b_default::LIB.funcs(), b_soft::LIB.funcs());
    let ga = Args::new(&src, &t0);
    let fs: Vec<usize> = (0..t0.len()).filter(|i| !t0[*i].name.contains(':') && groups::covers(&args[1], t0[*i].name)).collect();
    // the budget is in edges executed, not in time: the same seed finds the same arguments
    let total: u64 = if thorough { 400_000_000_000 } else { 6_000_000_000 };
    let per = (total / fs.len() as u64 / 300_000_000).clamp(1, 40);
    let budget = total / fs.len() as u64 / per;
    let jobs: Vec<Job> = fs.iter().flat_map(|f| (0..per).map(|k| Job { f: *f, k })).collect();
    let found: Vec<Mutex<(Vec<[u128; 3]>, usize)>> = t0.iter().map(|_| Mutex::default()).collect();
    let calls = AtomicU64::new(0);
    let start = std::time::Instant::now();
    mon::par(jobs.len(), |j| {
        let Job { f: fi, k } = jobs[j];
        let f = &t0[fi];
        let mut g = ga.generator(f, Rng::new(seed ^ tag(f.name) ^ 0x6c6d67, k));
        let mut map = vec![0u64; 1 << 16];
        let (mut corpus, mut fe, mut cm): (Vec<[u128; 3]>, Vec<u32>, Vec<Cmp>) = (vec![], vec![], vec![]);
        let (mut used, mut n) = (0u64, 0u64);
        let mut nfeat = 0usize;
        CALL.with(|c| c.borrow_mut().0 = f.name.into());
        let run = |a: &[u128; 3], fe: &mut Vec<u32>, cm: &mut Vec<Cmp>| -> u64 {
            CALL.with(|c| c.borrow_mut().1 = *a);
            unsafe { cov_begin(step_limit(f)); }
            std::hint::black_box(f.run(a));
            std::hint::black_box(t1[fi].run(a));
            features(fe, cm)
        };
        let mut parent = [0u128; 3];
        let mut pc: Vec<Cmp> = vec![];
        while used < budget {
            let a = if corpus.is_empty() || n < 200 || n % 10 == 0 { tuple(f, &mut g, 60) } else {
                if n % 40 == 1 || pc.is_empty() {
                    let l = corpus.len() as u64;
                    parent = corpus[if g.r.u64() & 1 == 0 { g.r.below(l) } else { l - 1 - g.r.below(l.div_ceil(4)) } as usize];
                    used += run(&parent, &mut fe, &mut cm) + 30;
                    std::mem::swap(&mut pc, &mut cm);
                }
                let mut a = parent;
                for _ in 0..1 + g.r.below(3) { mutate(f, &mut a, &pc, &corpus, &mut g); }
                a
            };
            n += 1;
            used += run(&a, &mut fe, &mut cm) + 30;
            let mut new = 0;
            for &x in &fe { let (w, b) = ((x >> 6) as usize, 1u64 << (x & 63)); if map[w] & b == 0 { map[w] |= b; new += 1; } }
            if new > 0 { nfeat += new; corpus.push(a); }
        }
        calls.fetch_add(n, Relaxed);
        let mut l = found[fi].lock().unwrap();
        l.0.extend(corpus);
        l.1 = l.1.max(nfeat);
    });
    // a few short calls per function that between them execute every edge that was reached, for the interpreters
    let cover = |l: &[[u128; 3]], fi: usize| {
        let f = &t0[fi];
        let (mut fe, mut cm, mut all) = (vec![], vec![], vec![]);
        for t in l {
            CALL.with(|c| *c.borrow_mut() = (f.name.into(), *t));
            unsafe { cov_begin(step_limit(f)); }
            let o = std::hint::black_box(f.run(t)).0;
            std::hint::black_box(t1[fi].run(t));
            let steps = features(&mut fe, &mut cm);
            if steps > 4000 { continue; }
            // an edge counts once with an ordinary result (one that shows what was computed), once with zero, infinity or NaN
            let ord = f.res[0] == Ty::I32 || o & !f.res[0].sign_bit() != 0 && o & f.res[0].exp_mask() != f.res[0].exp_mask();
            let mut e: Vec<u32> = fe.iter().filter(|x| **x < 0x20_0000).map(|x| (x >> 3) << 1 | ord as u32).collect();
            e.sort(); e.dedup();
            all.push((steps, *t, e));
        }
        all.sort_by_key(|x| x.0);
        let (mut seen, mut out) = (std::collections::HashSet::new(), vec![]);
        let gain = |x: &(u64, [u128; 3], Vec<u32>), seen: &std::collections::HashSet<u32>| x.2.iter().filter(|e| !seen.contains(e)).count();
        for _ in 0..2 {
            seen.clear();
            loop {
                let Some(b) = all.iter().filter(|x| !out.contains(&x.1)).rev().max_by_key(|x| gain(x, &seen)) else { break };
                if gain(b, &seen) == 0 { break; }
                seen.extend(b.2.iter().copied());
                out.push(b.1);
            }
        }
        out
    };
    let covers: Vec<Mutex<Vec<[u128; 3]>>> = fs.iter().map(|_| Mutex::default()).collect();
    mon::par(fs.len(), |k| {
        let mut l = found[fs[k]].lock().unwrap().0.clone();
        l.sort(); l.dedup();
        *covers[k].lock().unwrap() = cover(&l, fs[k]);
    });
    let mut ncov = 0;
    for (k, i) in fs.iter().enumerate() { let c = covers[k].lock().unwrap(); write(&format!("{}.cover", t0[*i].name), &c); ncov += c.len(); }
    println!("{ncov} of the tuples reach every edge in short calls");
    let mut n = 0;
    for i in fs { let mut l = found[i].lock().unwrap(); l.0.sort(); l.0.dedup(); write(t0[i].name, &l.0); n += l.0.len(); }
    println!("guided search for {}: {} calls, {n} argument tuples kept, {:.1} s", args[1], calls.load(Relaxed), start.elapsed().as_secs_f64());
}
