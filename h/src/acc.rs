//! C06..C12: results stay within the documented distance of the correctly rounded value.
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use crate::gen_::*;
use crate::lib_table::*;
use crate::mon::*;
use crate::oracle::*;

/// Documented accuracy (ulp against the correctly rounded result).
pub fn bound(name: &str) -> u64 {
    match base(name) {
        "acosh" => 4, "asinh" => 2, "atan2" => 2, "atanh" => 2, "erfc" => 4, "exp10" => 6,
        "lgamma" | "lgamma_r" => 16, "sinh" | "tanh" => 2,
        "tgamma" => if name == "tgamma" { 20 } else { 1 },
        "j0" | "j1" | "y0" | "y1" | "jn" | "yn" => 8_000_000,
        "cbrt" => 0,
        _ => 1,
    }
}

/// Sampling regions of interest: (lo, hi, log-uniform?). Both signs are used when `neg`.
fn regions(base: &str) -> &'static [(f64, f64, bool)] {
    match base {
        "acos" | "asin" | "atanh" => &[(-1.0, 1.0, false), (1e-20, 1.0, true), (0.4, 0.6, false), (0.9, 1.0, false)],
        "acosh" => &[(1.0, 3.0, false), (1.0, 1e9, true), (1.0, 1e308, true), (1.0, 1.01, false), (-1e9, -1.0, false)],
        "asinh" => &[(-4.0, 4.0, false), (1e-10, 1e10, true), (1e-300, 1e308, true)],
        "atan" => &[(-4.0, 4.0, false), (1e-10, 1e20, true), (0.4, 2.6, false)],
        "cosh" | "sinh" => &[(-1.0, 1.0, false), (-25.0, 25.0, false), (-711.0, 711.0, false), (700.0, 711.0, false), (1e-10, 1.0, true)],
        "tanh" => &[(-1.0, 1.0, false), (-25.0, 25.0, false), (1e-10, 1.0, true)],
        "erf" => &[(-7.0, 7.0, false), (0.8, 1.3, false), (1e-10, 1.0, true)],
        "erfc" => &[(-7.0, 28.0, false), (0.8, 1.3, false), (1e-10, 1.0, true), (20.0, 28.0, false)],
        "exp" => &[(-746.0, 711.0, false), (-1.5, 1.5, false), (1e-10, 1.0, true), (-746.0, -700.0, false)],
        "exp2" => &[(-1080.0, 1030.0, false), (-2.0, 2.0, false), (1e-10, 1.0, true), (-1080.0, -1020.0, false)],
        "exp10" => &[(-326.0, 310.0, false), (-2.0, 2.0, false), (1e-10, 1.0, true)],
        "expm1" => &[(-60.0, 711.0, false), (-2.0, 2.0, false), (1e-18, 1.0, true), (36.0, 60.0, false)],
        "log" | "log2" | "log10" => &[(0.5, 2.0, false), (0.99, 1.01, false), (1e-308, 1e308, true), (1e-3, 1e3, true)],
        "log1p" => &[(-1.0, 3.0, false), (1e-18, 1.0, true), (1e-5, 1e308, true), (-0.3, 0.45, false)],
        "sin" | "cos" | "tan" | "sincos" => &[(-8.0, 8.0, false), (-2e6, 2e6, false), (1e-9, 1.0, true), (1.0, 1e308, true), (1e5, 1e7, true), (-200.0, 200.0, false)],
        "tgamma" => &[(-185.0, 172.0, false), (-6.0, 6.0, false), (1e-10, 1.0, true), (1e-308, 1.0, true)],
        "lgamma" | "lgamma_r" => &[(-20.0, 20.0, false), (-1000.0, 1000.0, false), (1e-18, 1e306, true), (0.5, 4.0, false)],
        "j0" | "j1" | "y0" | "y1" => &[(0.0, 10.0, false), (0.0, 100.0, false), (1e-10, 1e4, true), (-30.0, 0.0, false)],
        _ => &[(-10.0, 10.0, false)],
    }
}

pub fn region_sample(r: &mut Rng, reg: &[(f64, f64, bool)]) -> f64 {
    let (lo, hi, lg) = *r.pick(reg);
    let u = r.unit();
    let v = if lg { (lo.ln() + (hi.ln() - lo.ln()) * u).exp() } else { lo + (hi - lo) * u };
    let v = if r.below(8) == 0 { // round to something structured
        let q = [1.0, 2.0, 4.0, 8.0, 64.0, 1024.0][r.below(6) as usize];
        let w = (v * q).round() / q;
        let k = r.range(-3, 3);
        f64::from_bits(w.to_bits().wrapping_add(k as u64))
    } else { v };
    if lg && r.u64() & 1 == 1 { -v } else { v }
}

/// A point near a multiple of pi/2 (also huge multiples), built with exact arithmetic.
pub fn near_pio2(r: &mut Rng) -> f64 {
    use rug::Float;
    let k = match r.below(4) { 0 => r.below(20), 1 => r.below(2_000_000), 2 => 1u64 << r.below(63), _ => r.u64() >> r.below(64) };
    let f = Float::with_val(256, rug::float::Constant::Pi) * k;
    let mut f = f / 4u32;
    if r.below(4) == 0 { f <<= r.below(900) as u32; }
    let v = f.to_f64();
    let v = f64::from_bits(v.to_bits().wrapping_add(r.range(-3, 3) as u64));
    if r.u64() & 1 == 1 { -v } else { v }
}

/// Decide one suspicious result with MPFR. `Ok(dist)` accepted, `Err(text)` a violation.
pub fn decide(name: &str, ty: Ty, a: &[u128; 3], got: u128, nargs: usize) -> Result<u128, String> {
    let b = base(name);
    let exp = if nargs == 2 { mp_b(b, ty, a[0], a[1]) } else { mp_u(b, ty, a[0]) }.expect("no MPFR reference");
    judge(name, ty, a, got, exp)
}

fn judge(name: &str, ty: Ty, a: &[u128; 3], got: u128, exp: u128) -> Result<u128, String> {
    let bnd = bound(name) as u128;
    let b = base(name);
    if ty.is_nan(got) && ty.is_nan(exp) { return Ok(0); }
    let d = ulp_dist(ty, got, exp);
    let fail = |why: &str| Err(format!("got {}, correctly rounded {}, {why} (allowed {bnd} ulp)", ty.show(got), ty.show(exp)));
    let Some(d) = d else { return fail("NaN on one side only") };
    let inf = ty.exp_mask();
    let mag = |v: u128| v & (ty.sign_bit() - 1);
    let is_bessel = matches!(b, "j0" | "j1" | "y0" | "y1" | "jn" | "yn");
    if d > bnd {
        if is_bessel && bessel_abs_ok(b, ty, a[0], got, exp) { return Ok(d); }
        if b.starts_with("lgamma") && lgamma_abs_ok(ty, a[0], got, exp) { return Ok(bnd); }
        return fail(&format!("{d} ulp apart"));
    }
    // The sign must be right unless both sides are within rounding distance of zero for a
    // function whose exact zeros carry no sign convention (Bessel).
    if (got ^ exp) & ty.sign_bit() != 0 && !is_bessel && !(b.starts_with("lgamma") && lgamma_abs_ok(ty, a[0], got, exp)) { return fail("wrong sign"); }
    // An infinity may replace a finite value (or the reverse) only next to the overflow threshold,
    // which `d <= bnd` already implies; but a result that overflows exactly must not be finite when
    // the exact value exceeds the threshold clearly.
    if mag(exp) == inf && mag(got) != inf {
        // widen the precision and exponent range: compare with MAX*(1+2^-p/2)
        if !near_overflow(b, ty, a, exp) { return fail("finite where the exact value overflows"); }
    }
    Ok(d)
}

fn near_overflow(b: &str, ty: Ty, a: &[u128; 3], exp: u128) -> bool {
    // Re-evaluate in f128 (wide exponent range): is the exact value within a few ulp of MAX?
    if ty == Ty::F128 { return true; }
    let wide = |v: u128| -> u128 { (match ty { Ty::F32 => f32::from_bits(v as u32) as f128, _ => f64::from_bits(v as u64) as f128 }).to_bits() };
    if ty.is_nan(exp) { return false; }
    let r = if matches!(b, "pow" | "hypot" | "atan2") { mp_b(b, Ty::F128, wide(a[0]), wide(a[1])) } else { mp_u(b, Ty::F128, wide(a[0])) };
    let Some(r) = r else { return false };
    let r = f128::from_bits(r).abs();
    let max = match ty { Ty::F32 => f32::MAX as f128, _ => f64::MAX as f128 };
    let eps = match ty { Ty::F32 => f32::EPSILON as f128, _ => f64::EPSILON as f128 };
    r <= max * (1.0 + 8.0 * eps)
}

fn as_f64(ty: Ty, v: u128) -> f64 { if ty == Ty::F32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }

/// lgamma of a negative number is log(pi / |x sin(pi x)|) - lgamma(|x|), and the documented bound
/// excludes negative arguments: near its zeros only an error relative to the terms is meaningful.
fn lgamma_abs_ok(ty: Ty, x: u128, got: u128, exp: u128) -> bool {
    let x = as_f64(ty, x);
    if x >= 0.0 { return false; }
    let (g, e) = (as_f64(ty, got), as_f64(ty, exp));
    if !g.is_finite() || !e.is_finite() { return false; }
    let eps = if ty == Ty::F32 { f32::EPSILON as f64 } else { f64::EPSILON };
    let t = unsafe { orc_lgamma(-x) }.abs();
    (g - e).abs() <= LG_TOL * eps * (1.0 + t + (e + t).abs())
}
pub const LG_TOL: f64 = 16.0;

/// Near a zero of a Bessel function the relative error is unbounded by nature: accept a small
/// absolute error relative to the local amplitude.
pub fn bessel_abs_ok(b: &str, ty: Ty, x: u128, got: u128, exp: u128) -> bool {
    let (x, g, e) = match ty {
        Ty::F32 => (f32::from_bits(x as u32) as f64, f32::from_bits(got as u32) as f64, f32::from_bits(exp as u32) as f64),
        _ => (f64::from_bits(x as u64), f64::from_bits(got as u64), f64::from_bits(exp as u64)),
    };
    if !g.is_finite() || !e.is_finite() { return false; }
    let eps = if ty == Ty::F32 { f32::EPSILON as f64 } else { f64::EPSILON };
    let ax = x.abs();
    let amp = (2.0 / (std::f64::consts::PI * ax.max(1e-300))).sqrt().min(if b.starts_with('j') { 1.0 } else { f64::INFINITY });
    (g - e).abs() <= 64.0 * eps * amp
}

#[derive(Default)]
struct Stat { n: AtomicU64, sus: AtomicU64, maxd: AtomicU64, off: AtomicU64, fin: AtomicU64, inf: AtomicU64, nan: AtomicU64, zero: AtomicU64, sub: AtomicU64 }
impl Stat {
    fn json(&self, extra: &str) -> String {
        format!("{{\"calls\": {}, \"finite_results\": {}, \"inf\": {}, \"nan\": {}, \"zero\": {}, \"subnormal\": {}, \"not_correctly_rounded\": {}, \"max_ulp\": {}, \"decided_by_mpfr\": {}{extra}}}",
            self.n.load(Relaxed), self.fin.load(Relaxed), self.inf.load(Relaxed), self.nan.load(Relaxed), self.zero.load(Relaxed), self.sub.load(Relaxed), self.off.load(Relaxed), self.maxd.load(Relaxed), self.sus.load(Relaxed))
    }
}

const CH: usize = 4096;

/// Compare a chunk of f32 results; suspicious ones go to MPFR.
fn chunk32(m: &Mon, f: &Func, oi: i32, xs: &[f32], ys: Option<&[f32]>, gs: &[f32], st: &Stat) {
    let n = xs.len();
    let mut out = [0u32; CH];
    let mut s3 = [0u64; 3];
    let b = bound(f.name) as u32;
    let k = unsafe {
        match ys {
            None => orc_cmp_u32(oi, xs.as_ptr(), gs.as_ptr(), n, b, out.as_mut_ptr(), CH, s3.as_mut_ptr()),
            Some(y) => orc_cmp_b32(oi, xs.as_ptr(), y.as_ptr(), gs.as_ptr(), n, b, out.as_mut_ptr(), CH, s3.as_mut_ptr()),
        }
    };
    note(m, f, st, n, k, &s3, gs.iter().map(|g| g.classify()));
    for &i in &out[..k] {
        if m.too_many() { break; }
        let i = i as usize;
        let a = [os(xs[i]), ys.map_or(0, |y| os(y[i])), 0];
        match decide(f.name, Ty::F32, &a, os(gs[i]), f.args.len()) {
            Ok(d) => { st.maxd.fetch_max(d as u64, Relaxed); }
            Err(e) => m.violation(f, "default", &a, e),
        }
    }
}
fn chunk64(m: &Mon, f: &Func, oi: i32, xs: &[f64], ys: Option<&[f64]>, gs: &[f64], st: &Stat) {
    let n = xs.len();
    let mut out = [0u32; CH];
    let mut s3 = [0u64; 3];
    let b = bound(f.name);
    let k = unsafe {
        match ys {
            None => orc_cmp_u64(oi, xs.as_ptr(), gs.as_ptr(), n, b, out.as_mut_ptr(), CH, s3.as_mut_ptr()),
            Some(y) => orc_cmp_b64(oi, xs.as_ptr(), y.as_ptr(), gs.as_ptr(), n, b, out.as_mut_ptr(), CH, s3.as_mut_ptr()),
        }
    };
    note(m, f, st, n, k, &s3, gs.iter().map(|g| g.classify()));
    for &i in &out[..k] {
        if m.too_many() { break; }
        let i = i as usize;
        let a = [od(xs[i]), ys.map_or(0, |y| od(y[i])), 0];
        match decide(f.name, Ty::F64, &a, od(gs[i]), f.args.len()) {
            Ok(d) => { st.maxd.fetch_max(d as u64, Relaxed); }
            Err(e) => m.violation(f, "default", &a, e),
        }
    }
}
fn note(m: &Mon, _f: &Func, st: &Stat, n: usize, k: usize, s3: &[u64; 3], c: impl Iterator<Item = std::num::FpCategory>) {
    use std::num::FpCategory::*;
    m.evals(n as u64);
    st.n.fetch_add(n as u64, Relaxed);
    st.sus.fetch_add(k as u64, Relaxed);
    st.maxd.fetch_max(s3[0], Relaxed);
    st.off.fetch_add(s3[1], Relaxed);
    let (mut i, mut na, mut z, mut s, mut no) = (0, 0, 0, 0, 0);
    for x in c { match x { Infinite => i += 1, Nan => na += 1, Zero => z += 1, Subnormal => s += 1, Normal => no += 1 } }
    for (a, v) in [(&st.inf, i), (&st.nan, na), (&st.zero, z), (&st.sub, s), (&st.fin, no)] { if v > 0 { a.fetch_add(v, Relaxed); } }
}

/// Every `stride`-th f32 bit pattern (all of them when stride is 1).
pub fn sweep32(m: &Mon, f: &Func, stride: u64) {
    let Call::U32(fun) = f.call else { panic!() };
    let oi = u_idx(base(f.name));
    assert!(oi >= 0, "{}", f.name);
    let st = Stat::default();
    let total = (1u64 << 32) / stride;
    let blk = 1u64 << 18;
    let t0 = std::time::Instant::now();
    par(total.div_ceil(blk) as usize, |bi| {
        let mut xs = [0f32; CH];
        let mut gs = [0f32; CH];
        let (lo, hi) = (bi as u64 * blk, ((bi as u64 + 1) * blk).min(total));
        let mut r = Rng::new(m.seed, bi as u64);
        let mut i = lo;
        let mut nt = 0u64;
        while i < hi && !m.too_many() {
            let n = CH.min((hi - i) as usize);
            for j in 0..n {
                let off = if stride > 1 { r.below(stride) } else { 0 };
                let b = ((i + j as u64) * stride + off) as u32;
                xs[j] = f32::from_bits(b);
                nt += (xs[j].is_finite() && xs[j] != 0.0) as u64;
            }
            cur(f, &[os(xs[0]), 0, 0]);
            for j in 0..n { gs[j] = fun(xs[j]); }
            chunk32(m, f, oi, &xs[..n], None, &gs[..n], &st);
            i += n as u64;
        }
        m.enumerated(nt);
    });
    m.stat(f.name, st.json(&format!(", \"mode\": \"{}\", \"wall_s\": {:.1}", if stride == 1 { "every f32 bit pattern".into() } else { format!("one random pattern from each of {total} strata of {stride}") }, t0.elapsed().as_secs_f64())));
    // name a few cases
    let mut r = Rng::new(m.seed, 99);
    let reg = regions(base(f.name));
    for _ in 0..2 {
        let x = region_sample(&mut r, reg) as f32;
        let e = mp_u(base(f.name), Ty::F32, os(x)).unwrap();
        m.sample(format!("{}({}) = {}, correctly rounded {}", f.name, Ty::F32.show(os(x)), Ty::F32.show(os(fun(x))), Ty::F32.show(e)));
    }
}

/// Every f32 near a number that appears in the source of the function.
pub fn dict32(m: &Mon, src: &Source, f: &Func) {
    let Call::U32(fun) = f.call else { panic!() };
    let oi = u_idx(base(f.name));
    let st = Stat::default();
    let dict = dict_for(&src.nums_for(f.name), Ty::F32);
    let tag = f.name.bytes().fold(7u64, |h, c| h.wrapping_mul(131).wrapping_add(c as u64));
    par(dict.len(), |di| {
        for s in [0u32, 1 << 31] {
            let xs: Vec<f32> = (0..2048u32).map(|k| f32::from_bits((dict[di] as u32).wrapping_add(k).wrapping_sub(1024) ^ s)).collect();
            cur(f, &[os(xs[0]), 0, 0]);
            let gs: Vec<f32> = xs.iter().map(|x| fun(*x)).collect();
            chunk32(m, f, oi, &xs, None, &gs, &st);
            for x in &xs { if x.is_finite() && *x != 0.0 { m.seen(tag, os(*x), 0, 0); } }
        }
    });
    m.stat(&format!("{} (neighbourhoods of {} source constants)", f.name, dict.len()), st.json(""));
}

/// Dictionary sweep and random sampling for a unary f64 (or, rarely, f32) function.
pub fn sample64(m: &Mon, src: &Source, f: &Func, n: u64) {
    let Call::U64(fun) = f.call else { panic!() };
    let oi = u_idx(base(f.name));
    assert!(oi >= 0, "{}", f.name);
    let st = Stat::default();
    let t0 = std::time::Instant::now();
    let dict = Arc::new(dict_for(&src.nums_for(f.name), Ty::F64));
    let reg = regions(base(f.name));
    let trig = matches!(base(f.name), "sin" | "cos" | "tan");
    let tag = f.name.bytes().fold(7u64, |h, c| h.wrapping_mul(131).wrapping_add(c as u64));
    // dictionary: every entry with its neighbours, both signs, coarse and fine perturbations
    let dn = dict.len();
    par(dn, |di| {
        let d = dict[di];
        let mut r = Rng::new(m.seed ^ tag, di as u64);
        let mut xs = vec![];
        for s in [0u128, 1 << 63] {
            for k in -16i128..=16 { xs.push(f64::from_bits((d.wrapping_add(k as u128) ^ s) as u64)); }
            for sh in 0..56 {
                for _ in 0..2 { xs.push(f64::from_bits(((d ^ (r.u128() & ((1u128 << sh) - 1))) ^ s) as u64)); }
                xs.push(f64::from_bits((d.wrapping_add(1 << sh) ^ s) as u64));
                xs.push(f64::from_bits((d.wrapping_sub(1 << sh) ^ s) as u64));
            }
        }
        for c in xs.chunks(CH) {
            cur(f, &[od(c[0]), 0, 0]);
            let gs: Vec<f64> = c.iter().map(|x| fun(*x)).collect();
            chunk64(m, f, oi, c, None, &gs, &st);
            for x in c { if x.is_finite() && *x != 0.0 { m.seen(tag, od(*x), 0, 0); } }
        }
    });
    let chunks = n.div_ceil(CH as u64 * 16);
    par(chunks as usize, |ci| {
        let mut g = Gen::new(Rng::new(m.seed ^ tag, 1_000_000 + ci as u64), Ty::F64, dict.clone());
        let mut xs = [0f64; CH];
        let mut gs = [0f64; CH];
        for _ in 0..16 {
            if m.too_many() { return; }
            for x in xs.iter_mut() {
                *x = match g.r.below(8) {
                    0..=3 => region_sample(&mut g.r, reg),
                    4 if trig && g.r.below(16) == 0 => near_pio2(&mut g.r),
                    _ => f64::from_bits(g.bits() as u64),
                };
            }
            cur(f, &[od(xs[0]), 0, 0]);
            for j in 0..CH { gs[j] = fun(xs[j]); }
            chunk64(m, f, oi, &xs, None, &gs, &st);
            for x in &xs { if x.is_finite() && *x != 0.0 { m.seen(tag, od(*x), 0, 0); } }
        }
    });
    m.stat(f.name, st.json(&format!(", \"source_constants\": {dn}, \"wall_s\": {:.1}", t0.elapsed().as_secs_f64())));
    let mut r = Rng::new(m.seed, 98);
    for _ in 0..2 {
        let x = region_sample(&mut r, reg);
        let e = mp_u(base(f.name), Ty::F64, od(x)).unwrap();
        m.sample(format!("{}({}) = {}, correctly rounded {}", f.name, Ty::F64.show(od(x)), Ty::F64.show(od(fun(x))), Ty::F64.show(e)));
    }
}

fn pair_sample(base: &str, g: &mut Gen, ty: Ty) -> (u128, u128) {
    let fl = |v: f64| if ty == Ty::F32 { os(v as f32) } else { od(v) };
    let (emax, emin) = if ty == Ty::F32 { (128.0, -150.0) } else { (1024.0, -1075.0) };
    match base {
        "pow" => match g.r.below(12) {
            0 | 1 => (g.bits(), g.bits()),
            2 | 3 | 4 => { // choose x, then y so that the result lies in the representable range
                let x = match g.r.below(4) {
                    0 => region_sample(&mut g.r, &[(1e-3, 1e3, true)]).abs(),
                    1 => region_sample(&mut g.r, &[(0.5, 2.0, false)]).abs(),
                    2 => 1.0 + region_sample(&mut g.r, &[(1e-16, 0.5, true)]) * 0.9,
                    _ => { let v = if ty == Ty::F32 { f32::from_bits(g.bits() as u32) as f64 } else { f64::from_bits(g.bits() as u64) }; v.abs() }
                };
                let t = emin - 2.0 + (emax - emin + 4.0) * g.r.unit();
                (fl(x), fl(t / x.log2()))
            }
            5 => { // results near the overflow and underflow thresholds
                let x = region_sample(&mut g.r, &[(1e-10, 1e10, true), (0.5, 2.0, false)]).abs();
                let t = if g.r.u64() & 1 == 0 { emax } else { emin + g.r.below(54) as f64 } + (g.r.unit() - 0.5) * 1e-3;
                (fl(x), fl(t / x.log2()))
            }
            6 | 7 => { // negative base, integer exponent
                let x = -region_sample(&mut g.r, &[(1e-2, 1e2, true), (0.5, 2.0, false)]).abs();
                let k = g.r.below(12);
                let y = g.r.range(-(1 << k), 1 << k) as f64;
                (fl(x), fl(y))
            }
            8 => { // huge odd/even/half-integer exponents
                let k = g.r.below(56) as u32;
                let y = ((1u64 << k) + g.r.below(4)) as f64 * [0.5, 1.0, -1.0, -0.5][g.r.below(4) as usize];
                let x = -(1.0 + region_sample(&mut g.r, &[(1e-17, 1e-1, true)]) * [1.0, 0.0][(g.r.below(8) == 0) as usize]);
                (fl(x), fl(y))
            }
            9 => (fl(region_sample(&mut g.r, &[(0.0, 4.0, false)])), fl(*g.r.pick(&[0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 3.0, 0.25, 1.5, 0.333333333333]))),
            10 => { let k = g.r.below(24) as i32; (fl(g.r.below(1 << k) as f64), fl(g.r.below(40) as f64)) }
            _ => { let a = g.bits(); (a, g.related(a)) }
        },
        "hypot" => match g.r.below(5) {
            0 => (g.bits(), g.bits()),
            1 => { // exponents close, anywhere in the range
                let a = g.bits();
                (a, g.related(a))
            }
            2 => { let s = (emin + (emax - emin) * g.r.unit()).exp2(); (fl(s * g.r.unit()), fl(s * g.r.unit())) }
            3 => { let (p, q) = (g.r.below(2000) as f64, g.r.below(2000) as f64); (fl(p * p - q * q), fl(2.0 * p * q)) }
            _ => { let s = (emin + (emax - emin) * g.r.unit()).exp2(); let d = (-70.0 * g.r.unit()).exp2(); (fl(s * d * (1.0 + g.r.unit())), fl(-s * (1.0 + g.r.unit()))) }
        },
        _ => match g.r.below(5) {
            0 | 1 => { let a = g.bits(); (a, g.related(a)) }
            2 => { let s = (emin + (emax - emin) * g.r.unit()).exp2(); let d = (140.0 * g.r.unit() - 70.0).exp2(); (fl(s * d * (g.r.unit() - 0.5)), fl(s * (g.r.unit() - 0.5))) }
            3 => (fl(region_sample(&mut g.r, &[(-4.0, 4.0, false)])), fl(region_sample(&mut g.r, &[(-4.0, 4.0, false)]))),
            _ => (g.bits(), g.bits()),
        },
    }
}

pub fn sample_b(m: &Mon, src: &Source, f: &Func, n: u64) {
    let b = base(f.name);
    let oi = b_idx(b);
    assert!(oi >= 0, "{}", f.name);
    let ty = f.args[0];
    let st = Stat::default();
    let t0 = std::time::Instant::now();
    let dict = Arc::new(dict_for(&src.nums_for(f.name), ty));
    let tag = f.name.bytes().fold(7u64, |h, c| h.wrapping_mul(131).wrapping_add(c as u64));
    let chunks = n.div_ceil(CH as u64 * 16);
    par(chunks as usize, |ci| {
        let mut g = Gen::new(Rng::new(m.seed ^ tag, ci as u64), ty, dict.clone());
        let mut a = vec![(0u128, 0u128); CH];
        for _ in 0..16 {
            if m.too_many() { return; }
            for p in a.iter_mut() {
                *p = pair_sample(b, &mut g, ty);
                m.seen(tag, p.0, p.1, 0);
            }
            cur(f, &[a[0].0, a[0].1, 0]);
            if ty == Ty::F32 {
                let Call::B32(fun) = f.call else { panic!() };
                let xs: Vec<f32> = a.iter().map(|p| f32::from_bits(p.0 as u32)).collect();
                let ys: Vec<f32> = a.iter().map(|p| f32::from_bits(p.1 as u32)).collect();
                let gs: Vec<f32> = xs.iter().zip(&ys).map(|(x, y)| fun(*x, *y)).collect();
                chunk32(m, f, oi, &xs, Some(&ys), &gs, &st);
            } else {
                let Call::B64(fun) = f.call else { panic!() };
                let xs: Vec<f64> = a.iter().map(|p| f64::from_bits(p.0 as u64)).collect();
                let ys: Vec<f64> = a.iter().map(|p| f64::from_bits(p.1 as u64)).collect();
                let gs: Vec<f64> = xs.iter().zip(&ys).map(|(x, y)| fun(*x, *y)).collect();
                chunk64(m, f, oi, &xs, Some(&ys), &gs, &st);
            }
        }
    });
    m.stat(f.name, st.json(&format!(", \"source_constants\": {}, \"wall_s\": {:.1}", dict.len(), t0.elapsed().as_secs_f64())));
    let mut g = Gen::new(Rng::new(m.seed, 97), ty, dict);
    for _ in 0..4 {
        let (x, y) = pair_sample(b, &mut g, ty);
        let o = f.run(&[x, y, 0]);
        m.sample(format!("{}({}) = {}, correctly rounded {}", f.name, f.show_in(&[x, y, 0]), ty.show(o.0), ty.show(mp_b(b, ty, x, y).unwrap())));
    }
}

/// What the coverage-guided search found.
fn guided(m: &Mon, f: &Func) {
    let ts = crate::guided::guided(m, f);
    if ts.is_empty() { return; }
    let b = base(f.name);
    let two = f.args.len() == 2;
    let oi = if two { b_idx(b) } else { u_idx(b) };
    let st = Stat::default();
    let tag = f.name.bytes().fold(7u64, |h, c| h.wrapping_mul(131).wrapping_add(c as u64));
    let cs: Vec<&[[u128; 3]]> = ts.chunks(CH).collect();
    par(cs.len(), |i| {
        let c = cs[i];
        if m.too_many() { return; }
        cur(f, &c[0]);
        if f.args[0] == Ty::F32 {
            let xs: Vec<f32> = c.iter().map(|p| f32::from_bits(p[0] as u32)).collect();
            let ys: Vec<f32> = c.iter().map(|p| f32::from_bits(p[1] as u32)).collect();
            let gs: Vec<f32> = c.iter().map(|a| { cur(f, a); f32::from_bits(f.run(a).0 as u32) }).collect();
            chunk32(m, f, oi, &xs, two.then_some(&ys[..]), &gs, &st);
        } else {
            let xs: Vec<f64> = c.iter().map(|p| f64::from_bits(p[0] as u64)).collect();
            let ys: Vec<f64> = c.iter().map(|p| f64::from_bits(p[1] as u64)).collect();
            let gs: Vec<f64> = c.iter().map(|a| { cur(f, a); f64::from_bits(f.run(a).0 as u64) }).collect();
            chunk64(m, f, oi, &xs, two.then_some(&ys[..]), &gs, &st);
        }
        for a in c { m.seen(tag, a[0], a[1], 0); }
    });
    m.stat(&format!("{} (coverage-guided)", f.name), st.json(""));
}

/// C06..C11.
pub fn check(m: &Mon, src: &Source, l: &Lib) {
    // (f32 functions, quick stride), f64 functions, pair functions
    let (u32s, stride, u64s, pairs): (&[&str], u64, &[&str], &[&str]) = match m.prop.as_str() {
        "C06" => (&["sinf", "cosf", "tanf", "sincosf:sin", "sincosf:cos"], 16, &["sin", "cos", "tan", "sincos:sin", "sincos:cos"], &[]),
        "C07" => (&["acosf", "asinf", "atanf"], 3, &["acos", "asin", "atan"], &["atan2", "atan2f"]),
        "C08" => (&["expf", "exp2f", "exp10f", "expm1f", "logf", "log2f", "log10f", "log1pf"], 5, &["exp", "exp2", "exp10", "expm1", "log", "log2", "log10", "log1p"], &[]),
        "C09" => (&["sinhf", "coshf", "tanhf", "asinhf", "acoshf", "atanhf"], 4, &["sinh", "cosh", "tanh", "asinh", "acosh", "atanh"], &[]),
        "C10" => (&[], 1, &[], &["pow", "powf", "hypot", "hypotf"]),
        "C11" => (&["erff", "erfcf", "tgammaf", "lgammaf", "lgammaf_r:lgamma"], 16, &["erf", "erfc", "tgamma", "lgamma", "lgamma_r:lgamma"], &[]),
        _ => unreachable!(),
    };
    m.rule("f32: the bit patterns are split into equal strata and one random pattern of each is run (thorough: every pattern), plus all patterns within 1024 of any number that appears in the function's source; f64 and two-argument functions: source constants with perturbed low bits, regions of interest per function, near-multiples of pi/2 built with MPFR, structured and uniform bit patterns. A case is one call; non-trivial means a finite nonzero argument; distinct random cases are counted in a hashed bitmap (collisions only lower the count). The host libm in a wider format accepts, everything else is decided by correctly rounded MPFR results.");
    let t = m.thorough;
    for n in u32s {
        let f = l.func(n);
        guided(m, &f);
        sweep32(m, &f, if t { 1 } else { stride });
        dict32(m, src, &f);
    }
    let n64 = if t { 400_000_000 } else { 16_000_000 };
    for n in u64s { guided(m, &l.func(n)); sample64(m, src, &l.func(n), n64); }
    let nb = if t { 2_000_000_000 } else { 100_000_000 };
    for n in pairs { guided(m, &l.func(n)); sample_b(m, src, &l.func(n), if n.starts_with("atan2") { nb / 2 } else { nb }); }
}

