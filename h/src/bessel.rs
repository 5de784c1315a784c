//! C12: Bessel functions, judged relative to their local amplitude.
use std::sync::Arc;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use rug::Float;

use crate::gen_::*;
use crate::lib_table::*;
use crate::mon::*;
use crate::oracle::*;

/// Allowed error in units of eps * scale, see `scale`.
pub fn bound(n: Option<i32>) -> f64 {
    match n { None => 8.0, Some(n) => 16.0 + 2.0 * n.unsigned_abs() as f64 }
}

/// The size the error is measured against: the value itself, or, where the function oscillates,
/// its amplitude sqrt(2/(pi x)) when that is larger.
pub fn scale(order: u32, ax: f64, v: f64) -> f64 {
    let v = v.abs();
    if ax < 0.5 || ax < order as f64 { return v; }
    v.max((2.0 / (std::f64::consts::PI * ax)).sqrt())
}

fn eps(ty: Ty) -> f64 { if ty == Ty::F32 { f32::EPSILON as f64 } else { f64::EPSILON } }
fn tiny(ty: Ty) -> f64 { if ty == Ty::F32 { 1.4e-45 } else { 5e-324 } }
fn fmax(ty: Ty) -> f64 { if ty == Ty::F32 { f32::MAX as f64 } else { f64::MAX } }

fn val(ty: Ty, v: u128) -> f64 { if ty == Ty::F32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }

/// Error in units of eps*scale given a reference with a wider format (or MPFR rounded to f64 for f32).
fn err(ty: Ty, order: u32, x: f64, got: f64, diff: f64, r: f64) -> f64 {
    if r.is_nan() || got.is_nan() { return if r.is_nan() && got.is_nan() { 0.0 } else { f64::INFINITY }; }
    if r.is_infinite() || got.is_infinite() {
        if r == got { return 0.0; }
        // overflow decided differently only right at the threshold
        let m = fmax(ty);
        return if r.is_sign_negative() == got.is_sign_negative() && r.abs() >= m * 0.96 && got.abs() >= m * 0.96 { 1.0 } else { f64::INFINITY };
    }
    if r.abs() > fmax(ty) && got.is_finite() { return f64::INFINITY; }
    if diff == 0.0 { return 0.0; }
    // the doubled argument overflows: the accuracy of this top binade is not promised
    if ty == Ty::F64 && x.abs() >= 8.98846567431158e307 && diff.abs() <= 1e-154 { return 0.0; }
    let mn = if ty == Ty::F32 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    (diff.abs() - tiny(ty)).max(0.0) / scale(order, x.abs(), r).max(mn) / eps(ty)
}

/// MPFR decides: the exact value minus the observed one, in high precision.
fn exact_err(ty: Ty, base: &str, n: Option<i32>, xb: u128, gb: u128) -> f64 {
    let p = 160;
    let x = Float::with_val(p, mp_in(ty, xb));
    let xv = val(ty, xb);
    let r = match (base, n) {
        ("j0", _) => x.j0(), ("j1", _) => x.j1(), ("y0", _) => x.y0(), ("y1", _) => x.y1(),
        ("jn", Some(n)) => x.jn(n), (_, Some(n)) => x.yn(n), _ => unreachable!(),
    };
    let order = match base { "j0" | "y0" => 0, "j1" | "y1" => 1, _ => n.unwrap().unsigned_abs() };
    let g = val(ty, gb);
    let rv = r.to_f64();
    let rv = if ty == Ty::F32 && rv.abs() > 3.4028235677973366e38 { if rv < 0.0 { f64::NEG_INFINITY } else { f64::INFINITY } } else { rv };
    let d = if g.is_finite() && r.is_finite() { (Float::with_val(p, g) - &r).to_f64() } else { 0.0 };
    err(ty, order, xv, g, d, rv)
}

struct Worst { n: AtomicU64, dec: AtomicU64, hist: [AtomicU64; 8], max: Mutex<(f64, String)> }
impl Worst {
    fn new() -> Self { Worst { n: 0.into(), dec: 0.into(), hist: Default::default(), max: Mutex::new((0.0, String::new())) } }
    fn add(&self, e: f64, s: impl FnOnce() -> String) {
        let mut g = self.max.lock().unwrap();
        if e > g.0 { *g = (e, s()); }
    }
    fn json(&self, b: f64) -> String {
        let g = self.max.lock().unwrap();
        format!("{{\"calls\": {}, \"decided_by_mpfr\": {}, \"worst_error_in_eps_of_amplitude\": {:.2}, \"allowed\": {b}, \"worst_at\": {}}}", self.n.load(Relaxed), self.dec.load(Relaxed), g.0, json_str(&g.1))
    }
}

fn judge(m: &Mon, f: &Func, base: &str, ty: Ty, n: Option<i32>, xb: u128, gb: u128, e: f64, w: &Worst) -> f64 {
    let b = bound(n);
    if !(e > b * 0.5) && !(e.is_nan()) { return e; }
    w.dec.fetch_add(1, Relaxed);
    let e = exact_err(ty, base, n, xb, gb);
    let a = if let Some(n) = n { [oi(n), xb, 0] } else { [xb, 0, 0] };
    if !(e <= b) {
        m.violation(f, "default", &a, format!("got {}, {e:.1} eps of the local amplitude away from the exact value (allowed {b})", ty.show(gb)));
    } 
    e
}

fn reff(base: &str) -> i32 { let i = u_idx(base); assert!(i >= 0); i }

pub fn sweep32(m: &Mon, f: &Func, stride: u64) {
    let Call::U32(fun) = f.call else { panic!() };
    let b = base(f.name);
    let fi = reff(b);
    let order = if b.ends_with('0') { 0 } else { 1 };
    let w = Worst::new();
    let total = (1u64 << 32) / stride;
    let blk = 1u64 << 16;
    par(total.div_ceil(blk) as usize, |bi| {
        let (lo, hi) = (bi as u64 * blk, ((bi as u64 + 1) * blk).min(total));
        let mut r = Rng::new(m.seed ^ 0xbe, bi as u64);
        let (mut wm, mut wx) = (0.0, 0u32);
        let mut nt = 0;
        for k in lo..hi {
            if m.too_many() { return; }
            let xb = (k * stride + if stride > 1 { r.below(stride) } else { 0 }) as u32;
            let x = f32::from_bits(xb);
            cur(f, &[xb as u128, 0, 0]);
            let g = fun(x);
            let rv = unsafe { orc_ud(fi, x as f64) };
            let rc = if rv.abs() > 3.4028235677973366e38 { f64::INFINITY.copysign(rv) } else { rv };
            let e = err(Ty::F32, order, x as f64, g as f64, g as f64 - rv, rc);
            let e = judge(m, f, b, Ty::F32, None, xb as u128, os(g), e, &w);
            if e > wm { wm = e; wx = xb; }
            nt += (x.is_finite() && x != 0.0) as u64;
        }
        w.n.fetch_add(hi - lo, Relaxed);
        w.add(wm, || Ty::F32.show(wx as u128));
        m.evals(hi - lo);
        m.enumerated(nt);
    });
    m.stat(f.name, w.json(bound(None)));
}

pub fn point(g: &mut Gen, ty: Ty) -> u128 {
    let fl = |v: f64| if ty == Ty::F32 { os(v as f32) } else { od(v) };
    match g.r.below(6) {
        0 => g.bits(),
        1 => fl(g.r.unit() * 12.0),
        2 => fl(g.r.unit() * 130.0),
        3 => fl((g.r.unit() * 24.0 - 10.0).exp()),
        4 => fl((g.r.unit() * if ty == Ty::F32 { 80.0 } else { 690.0 }).exp()),
        _ => { // near zeros: (k + c) * pi
            let k = g.r.below(60) as f64;
            let c = [0.75, 0.25, 1.25, 0.0, 0.5][g.r.below(5) as usize];
            fl(((k + c) * std::f64::consts::PI) * (1.0 + (g.r.unit() - 0.5) * (g.r.unit() * -30.0).exp()))
        }
    }
}

pub fn sample(m: &Mon, src: &Source, f: &Func, n: u64) {
    let b = base(f.name);
    let two = f.args.len() == 2;
    let ty = f.res[0];
    let w = Worst::new();
    let dict = Arc::new(dict_for(&src.nums_for(f.name), ty));
    let tag = f.name.bytes().fold(7u64, |h, c| h.wrapping_mul(131).wrapping_add(c as u64));
    let per = 2048;
    let fi = if two { 0 } else { reff(b) };
    let found = crate::guided::guided(m, f);
    let chunks = n.div_ceil(per) as usize;
    par(chunks + found.len().div_ceil(per as usize), |ci| {
        let mut g = Gen::new(Rng::new(m.seed ^ tag, ci as u64), ty, dict.clone());
        let (mut wm, mut wa) = (0.0, [0u128; 3]);
        let found = if ci < chunks { &[] } else { let k = (ci - chunks) * per as usize; &found[k..found.len().min(k + per as usize)] };
        for i in 0..if ci < chunks { per as usize } else { found.len() } {
            if m.too_many() { return; }
            let xb = if ci < chunks { point(&mut g, ty) } else { found[i][two as usize] };
            let (a, nn) = if two {
                let k = match g.r.below(5) { 0 => g.r.range(-6, 6), 1 => g.r.range(0, 40), 2 => g.r.range(-120, 120), 4 if g.r.below(200) == 0 => { let k = g.r.range(0, 5000); if g.r.u64() & 1 == 1 { k } else { -k } }
                    _ => { let x = val(ty, xb).abs(); if x < 300.0 { (x as i64 + g.r.range(-4, 4)).max(0) } else { g.r.range(0, 300) } } } as i32;
                let k = if ci < chunks { k } else { found[i][0] as u32 as i32 };
                ([oi(k), xb, 0], Some(k))
            } else { ([xb, 0, 0], None) };
            cur(f, &a);
            let o = f.run(&a);
            let x = val(ty, xb);
            let gv = val(ty, o.0);
            // filter
            let order = match nn { Some(k) => k.unsigned_abs(), None => if b.ends_with('0') { 0 } else { 1 } };
            let (mut rv, mut df) = (0.0, 0.0);
            unsafe { orc_bes(two as i32, fi, b.starts_with('y') as i32, nn.unwrap_or(0), x, gv, &mut rv, &mut df) };
            let rc = if ty == Ty::F32 && rv.abs() > 3.4028235677973366e38 { f64::INFINITY.copysign(rv) } else { rv };
            let e = err(ty, order, x, gv, df, rc);
            let e = judge(m, f, b, ty, nn, xb, o.0, e, &w) / if let Some(n) = nn { 1.0 + n.abs() as f64 / 8.0 } else { 1.0 };
            if e > wm { wm = e; wa = a; }
            m.seen(tag, a[0], a[1], 0);
        }
        let per = if ci < chunks { per } else { found.len() as u64 };
        w.n.fetch_add(per, Relaxed);
        w.add(wm, || f.show_in(&wa));
        m.evals(per);
    });
    m.stat(&format!("{} (random)", f.name), w.json(bound(None)));
}

pub fn check(m: &Mon, src: &Source, l: &Lib) {
    m.rule("Each returned Bessel value is compared with the host long double function (filter) and MPFR (decides); the error is measured in eps times the larger of the value and, where the function oscillates, its amplitude sqrt(2/(pi x)). A case is one argument (order, x).");
    let t = m.thorough;
    for n in ["j0f", "j1f", "y0f", "y1f"] { sweep32(m, &l.func(n), if t { 1 } else { 16 }); sample(m, src, &l.func(n), 2_000_000); }
    for n in ["j0", "j1", "y0", "y1"] { sample(m, src, &l.func(n), if t { 60_000_000 } else { 6_000_000 }); }
    for n in ["jnf", "ynf", "jn", "yn"] { sample(m, src, &l.func(n), if t { 30_000_000 } else { 3_000_000 }); }
}
