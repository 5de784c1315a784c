//! C01..C05: operations whose result is defined exactly. The host C library (an independent
//! implementation of the same definitions) is the fast oracle; any difference, and a random
//! sample of everything else, is decided by integer arithmetic on the argument bits.
use std::cmp::Ordering;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use rug::Integer;

use crate::gen_::*;
use crate::lib_table::Ty::*;
use crate::lib_table::*;
use crate::mon::*;
use crate::oracle::*;

pub const QNAN: fn(Ty) -> u128 = |t| t.exp_mask() | 1u128 << (t.sig() - 1);
pub fn bias(ty: Ty) -> i64 { (1i64 << (ty.bits() - 2 - ty.sig())) - 1 }
pub fn is_neg(ty: Ty, b: u128) -> bool { b & ty.sign_bit() != 0 }
pub fn mag(ty: Ty, b: u128) -> u128 { b & (ty.sign_bit() - 1) }
pub fn is_inf(ty: Ty, b: u128) -> bool { mag(ty, b) == ty.exp_mask() }
pub fn is_zero(ty: Ty, b: u128) -> bool { mag(ty, b) == 0 }
pub fn is_fin(ty: Ty, b: u128) -> bool { mag(ty, b) < ty.exp_mask() }
fn sgn(ty: Ty, neg: bool) -> u128 { if neg { ty.sign_bit() } else { 0 } }

/// Finite value as m * 2^e (m = 0 for zero).
pub fn decode(ty: Ty, b: u128) -> (u128, i64) {
    let m = mag(ty, b);
    let e = (m >> ty.sig()) as i64;
    let f = m & ((1 << ty.sig()) - 1);
    if e == 0 { (f, 1 - bias(ty) - ty.sig() as i64) } else { (f | 1 << ty.sig(), e - bias(ty) - ty.sig() as i64) }
}

/// Round m * 2^e (plus something in (0,1) units of 2^e when `sticky`) to nearest even.
pub fn pack(ty: Ty, neg: bool, m: &Integer, e: i64, sticky: bool) -> u128 {
    let s = sgn(ty, neg);
    if *m == 0 && !sticky { return s; }
    let p = ty.sig() as i64 + 1;
    let emin = 1 - bias(ty) - ty.sig() as i64; // exponent of the lowest bit
    // two extra bits so that the sticky information has a place
    let mut m = Integer::from(m << 2);
    if sticky { m |= 1; }
    let e = e - 2;
    let n = m.significant_bits() as i64;
    let lsb = (e + n - p).max(emin);
    let sh = lsb - e;
    let q = if sh <= 0 { m << (-sh) as u32 } else if sh > n + 2 { Integer::new() } else {
        let sh = sh as u32;
        let q = Integer::from(&m >> sh);
        let rem = m - Integer::from(&q << sh);
        let half = Integer::from(1) << (sh - 1);
        match rem.cmp(&half) { Ordering::Greater => q + 1, Ordering::Equal if q.is_odd() => q + 1, _ => q }
    };
    // q * 2^lsb
    if q == 0 { return s; }
    let nb = q.significant_bits() as i64;
    let (q, lsb) = if nb > p { (q >> 1, lsb + 1) } else { (q, lsb) };
    if lsb + q.significant_bits() as i64 - 1 > bias(ty) { return s | ty.exp_mask(); }
    let q = q.to_u128().unwrap();
    if q < 1 << ty.sig() { return s | q; } // subnormal (lsb == emin)
    s | (((lsb - emin + 1) as u128) << ty.sig()) | (q & ((1 << ty.sig()) - 1))
}

fn scaled(m: u128, e: i64, e0: i64) -> Integer { Integer::from(m) << (e - e0) as u32 }

/// Exact quotient/remainder of finite x by finite nonzero y: (floor(|x|/|y|), |x| mod |y|, unit exponent).
fn qr(ty: Ty, x: u128, y: u128) -> (Integer, Integer, Integer, i64) {
    let ((mx, ex), (my, ey)) = (decode(ty, x), decode(ty, y));
    let e = ex.min(ey);
    let (a, b) = (scaled(mx, ex, e), scaled(my, ey, e));
    let (q, r) = a.div_rem(b.clone());
    (q, r, b, e)
}

/// The decisive oracle. None: the result is unspecified for this input (nothing to check).
pub fn slow(b: &str, ty: Ty, a: &[u128; 3]) -> Option<Out> {
    let [x, y, z] = *a;
    let nan = QNAN(ty);
    let one = (bias(ty) as u128) << ty.sig();
    let r = match b {
        "ceil" | "floor" | "trunc" | "round" | "rint" | "roundeven" => {
            if ty.is_nan(x) { return Some(Out(nan, 0)); }
            if is_inf(ty, x) || is_zero(ty, x) { return Some(Out(x, 0)); }
            let neg = is_neg(ty, x);
            let (m, e) = decode(ty, x);
            if e >= 0 { return Some(Out(x, 0)); }
            let k = (-e) as u32;
            let (i, rem, half) = if k >= 128 { (0u128, 1u128, 2u128) } else {
                (m >> k, m & ((1 << k) - 1), 1u128 << (k - 1))
            };
            let up = match b {
                "ceil" => !neg && rem != 0,
                "floor" => neg && rem != 0,
                "trunc" => false,
                "round" => rem >= half,
                _ => rem > half || (rem == half && i & 1 == 1),
            };
            pack(ty, neg, &Integer::from(i + up as u128), 0, false)
        }
        "fabs" => x & !ty.sign_bit(),
        "copysign" => mag(ty, x) | (y & ty.sign_bit()),
        "sqrt" => {
            if ty.is_nan(x) { return Some(Out(nan, 0)); }
            if is_zero(ty, x) { return Some(Out(x, 0)); }
            if is_neg(ty, x) { return Some(Out(nan, 0)); }
            if is_inf(ty, x) { return Some(Out(x, 0)); }
            let (m, e) = decode(ty, x);
            let (mut m, mut e): (Integer, i64) = (Integer::from(m) << 260, e - 260);
            if e & 1 != 0 { m <<= 1; e -= 1; }
            let (s, r) = m.sqrt_rem(Integer::new());
            pack(ty, false, &s, e / 2, r != 0)
        }
        "cbrt" => {
            if ty.is_nan(x) { return Some(Out(nan, 0)); }
            if is_zero(ty, x) || is_inf(ty, x) { return Some(Out(x, 0)); }
            let (m, e) = decode(ty, x);
            let (mut m, mut e): (Integer, i64) = (Integer::from(m) << 390, e - 390);
            while e % 3 != 0 { m <<= 1; e -= 1; }
            let s = Integer::from(m.root_ref(3));
            let exact = Integer::from(s.clone().square() * &s) == m;
            pack(ty, is_neg(ty, x), &s, e / 3, !exact)
        }
        "fma" => mp_fma(ty, x, y, z),
        "fdim" => {
            if ty.is_nan(x) || ty.is_nan(y) { return Some(Out(nan, 0)); }
            match cmp(ty, x, y) {
                Ordering::Greater => {
                    if is_inf(ty, x) || is_inf(ty, y) { return Some(Out(ty.exp_mask(), 0)); }
                    let ((mx, ex), (my, ey)) = (decode(ty, x), decode(ty, y));
                    let e = ex.min(ey);
                    let mut p = scaled(mx, ex, e);
                    if is_neg(ty, x) { p = -p; }
                    let mut q = scaled(my, ey, e);
                    if is_neg(ty, y) { q = -q; }
                    pack(ty, false, &(p - q), e, false)
                }
                _ => 0,
            }
        }
        "fmod" => {
            if ty.is_nan(x) || ty.is_nan(y) || is_inf(ty, x) || is_zero(ty, y) { return Some(Out(nan, 0)); }
            if is_inf(ty, y) || is_zero(ty, x) { return Some(Out(x, 0)); }
            let (_, r, _, e) = qr(ty, x, y);
            pack(ty, is_neg(ty, x), &r, e, false)
        }
        "remainder" | "remquo" => {
            // (value, low 31 bits of the rounded quotient with its sign)
            if ty.is_nan(x) || ty.is_nan(y) || is_inf(ty, x) || is_zero(ty, y) { return Some(Out(nan, u128::MAX)); }
            if is_inf(ty, y) || is_zero(ty, x) { return Some(Out(x, 0)); }
            let (mut q, r, d, e) = qr(ty, x, y);
            let twice = Integer::from(&r << 1);
            let up = match twice.cmp(&d) { Ordering::Greater => true, Ordering::Equal => q.is_odd(), _ => false };
            let neg = is_neg(ty, x);
            let v = if up { q += 1; pack(ty, !neg, &(d - r), e, false) } else { pack(ty, neg, &r, e, false) };
            // a zero result takes the sign of x
            let v = if mag(ty, v) == 0 { sgn(ty, neg) } else { v };
            let q31 = q.keep_bits(31).to_u32().unwrap() as i32;
            let qs = if neg != is_neg(ty, y) { -q31 } else { q31 };
            return Some(Out(v, if b == "remquo" { oi(qs) } else { 0 }));
        }
        "scalbn" | "ldexp" => {
            if ty.is_nan(x) { return Some(Out(nan, 0)); }
            if is_inf(ty, x) || is_zero(ty, x) { return Some(Out(x, 0)); }
            let (m, e) = decode(ty, x);
            pack(ty, is_neg(ty, x), &Integer::from(m), e + y as u32 as i32 as i64, false)
        }
        "frexp" => {
            if ty.is_nan(x) { return Some(Out(nan, u128::MAX)); }
            if is_inf(ty, x) { return Some(Out(x, u128::MAX)); }
            if is_zero(ty, x) { return Some(Out(x, 0)); }
            let (m, e) = decode(ty, x);
            let n = 128 - m.leading_zeros() as i64;
            return Some(Out(pack(ty, is_neg(ty, x), &Integer::from(m), -n, false), oi((e + n) as i32)));
        }
        "ilogb" => {
            let v = if ty.is_nan(x) || is_zero(ty, x) { i32::MIN } else if is_inf(ty, x) { i32::MAX } else {
                let (m, e) = decode(ty, x);
                (e + 127 - m.leading_zeros() as i64) as i32
            };
            oi(v)
        }
        "modf" => {
            if ty.is_nan(x) { return Some(Out(nan, nan)); }
            let s = sgn(ty, is_neg(ty, x));
            if is_inf(ty, x) { return Some(Out(s, x)); }
            let Out(i, _) = slow("trunc", ty, a)?;
            let ((mx, ex), (mi, ei)) = (decode(ty, x), decode(ty, i));
            let e = ex.min(ei);
            let f = scaled(mx, ex, e) - scaled(mi, ei, e);
            return Some(Out(pack(ty, is_neg(ty, x), &f, e, false), i));
        }
        "nextafter" => {
            if ty.is_nan(x) || ty.is_nan(y) { return Some(Out(nan, 0)); }
            match cmp(ty, x, y) {
                Ordering::Equal => y,
                o => {
                    if is_zero(ty, x) { sgn(ty, is_neg(ty, y)) | 1 }
                    else if (o == Ordering::Less) != is_neg(ty, x) { x + 1 } else { x - 1 }
                }
            }
        }
        "fmin" | "fmax" | "fminimum" | "fmaximum" | "fminimum_num" | "fmaximum_num" => {
            let (nx, ny) = (ty.is_nan(x), ty.is_nan(y));
            if nx && ny { return Some(Out(nan, 0)); }
            if nx || ny {
                return Some(Out(if b == "fminimum" || b == "fmaximum" { nan } else if nx { y } else { x }, 0));
            }
            let o = cmp(ty, x, y);
            let o = if o == Ordering::Equal && is_zero(ty, x) {
                if b == "fmin" || b == "fmax" { return Some(Out(x, y)); } // either zero will do
                is_neg(ty, y).cmp(&is_neg(ty, x))
            } else { o };
            let less = if o == Ordering::Less { x } else { y };
            let more = if o == Ordering::Less { y } else { x };
            if b.starts_with("fmin") { less } else { more }
        }
        _ => { let _ = one; return None; }
    };
    Some(Out(r, 0))
}

/// Numeric order; zeros of either sign are equal. Not for NaN.
pub fn cmp(ty: Ty, x: u128, y: u128) -> Ordering {
    if is_zero(ty, x) && is_zero(ty, y) { return Ordering::Equal; }
    match (is_neg(ty, x), is_neg(ty, y)) {
        (false, false) => mag(ty, x).cmp(&mag(ty, y)),
        (true, true) => mag(ty, y).cmp(&mag(ty, x)),
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
    }
}

/// Does the observed output satisfy the expected one?
pub fn agrees(b: &str, f: &Func, got: &Out, want: &Out) -> bool {
    let ty = f.res[0];
    match b {
        // NaN payloads are preserved; the compiler may do f16 arithmetic in f32, which quiets
        "fabs" | "copysign" => got.0 == want.0 || (ty == F16 && ty.is_nan(want.0) && got.0 == want.0 | 1 << (ty.sig() - 1)),
        "fmin" | "fmax" if is_zero(ty, want.0) && want.1 & (ty.sign_bit() - 1) == 0 => got.0 == want.0 || (got.0 == want.1 && is_zero(ty, got.0)),
        "ilogb" => got.0 == want.0,
        _ => {
            let v = got.0 == want.0 || (ty.is_nan(got.0) && ty.is_nan(want.0));
            if f.res.len() < 2 || want.1 == u128::MAX { return v; }
            let t1 = f.res[1];
            v && (got.1 == want.1 || (t1.is_nan(got.1) && t1.is_nan(want.1)))
        }
    }
}

type Fast = Box<dyn Fn(&[u128; 3]) -> Option<Out> + Sync>;

fn s(b: u128) -> f32 { f32::from_bits(b as u32) }
fn d(b: u128) -> f64 { f64::from_bits(b as u64) }
fn i(b: u128) -> i32 { b as u32 as i32 }
fn q2(f: unsafe extern "C" fn(*const f128, *const f128, *mut f128), a: &[u128; 3]) -> Option<Out> {
    let (x, y, mut r) = (f128::from_bits(a[0]), f128::from_bits(a[1]), 0f128);
    unsafe { f(&x, &y, &mut r) };
    Some(Out(r.to_bits(), 0))
}
/// f16 value as f64, decoded by hand.
pub fn h2d(b: u128) -> f64 {
    if F16.is_nan(b) { return f64::NAN; }
    let sg = if is_neg(F16, b) { -1.0 } else { 1.0 };
    if is_inf(F16, b) { return sg * f64::INFINITY; }
    let (m, e) = decode(F16, b);
    sg * m as f64 * f64::from_bits(((e + 1023) as u64) << 52)
}
/// Exactly representable f64 (or one that rounds once) to f16 bits.
pub fn d2h(v: f64) -> u128 {
    if v.is_nan() { return QNAN(F16); }
    let neg = v.is_sign_negative();
    let sb = sgn(F16, neg);
    let a = v.abs();
    if a >= 65520.0 { return sb | 0x7c00; }
    // unit in the last place at this magnitude
    let e = if a < 6.103515625e-05 { -24 } else { ((a.to_bits() >> 52) as i64 - 1023) - 10 };
    let t = a * f64::from_bits(((1023 - e) as u64) << 52); // exact scaling
    // round to nearest even by the magic constant
    let r = (t + 6755399441055744.0) - 6755399441055744.0;
    let r = r as u128;
    if e == -24 { return sb | r; } // r <= 1024; 1024 is the smallest normal
    let (r, e) = if r == 2048 { (1024, e + 1) } else { (r, e) };
    sb | (((e + 25) as u128) << 10) | (r & 0x3ff)
}

/// The fast oracle for a function, or None when only the slow one exists.
pub fn fast(name: &str, ty: Ty) -> Option<Fast> {
    let b = base(name).to_string();
    let k = ["ceil", "floor", "trunc", "rint", "round", "roundeven", "sqrt", "fabs"].iter().position(|n| *n == b);
    Some(match (b.as_str(), ty) {
        ("fabs" | "copysign" | "fmin" | "fmax" | "fminimum" | "fmaximum" | "fminimum_num" | "fmaximum_num", _) => {
            return Some(Box::new(move |a| slow(&b, ty, a)));
        }
        ("cbrt", _) => return None,
        ("remquo", _) => return None,
        ("nextafter", F64) => Box::new(|a| Some(Out(od(unsafe { orc_nextafter(d(a[0]), d(a[1])) }), 0))),
        ("nextafter", F32) => Box::new(|a| Some(Out(os(unsafe { orc_nextafterf(s(a[0]), s(a[1])) }), 0))),
        (_, F64) if k.is_some() => { let k = k.unwrap() as i32; Box::new(move |a| Some(Out(od(unsafe { orc_du(k, d(a[0])) }), 0))) }
        (_, F32) if k.is_some() => { let k = k.unwrap() as i32; Box::new(move |a| Some(Out(os(unsafe { orc_fu(k, s(a[0])) }), 0))) }
        (_, F16) if k.is_some() => {
            let k = k.unwrap() as i32;
            Box::new(move |a| Some(Out(d2h(unsafe { orc_du(k, h2d(a[0])) }), 0)))
        }
        (_, F128) if k.is_some() => {
            let c = std::ffi::CString::new(b).unwrap();
            Box::new(move |a| {
                let (x, mut r) = (f128::from_bits(a[0]), 0f128);
                (unsafe { orc_qu(c.as_ptr(), &x, &mut r) } == 0).then(|| Out(r.to_bits(), 0))
            })
        }
        ("fma", F32) => Box::new(|a| Some(Out(os(unsafe { orc_fmaf(s(a[0]), s(a[1]), s(a[2])) }), 0))),
        ("fma", F64) => Box::new(|a| Some(Out(od(unsafe { orc_fma(d(a[0]), d(a[1]), d(a[2])) }), 0))),
        ("fma", _) => Box::new(|a| {
            let (x, y, z, mut r) = (f128::from_bits(a[0]), f128::from_bits(a[1]), f128::from_bits(a[2]), 0f128);
            unsafe { orc_fmaq(&x, &y, &z, &mut r) };
            Some(Out(r.to_bits(), 0))
        }),
        ("fdim", F32) => Box::new(|a| Some(Out(os(unsafe { orc_fdimf(s(a[0]), s(a[1])) }), 0))),
        ("fdim", F64) => Box::new(|a| Some(Out(od(unsafe { orc_fdim(d(a[0]), d(a[1])) }), 0))),
        ("fdim", F16) => Box::new(|a| Some(Out(d2h(unsafe { orc_fdim(h2d(a[0]), h2d(a[1])) }), 0))),
        ("fdim", _) => Box::new(|a| q2(orc_fdimq, a)),
        ("fmod", F32) => Box::new(|a| Some(Out(os(unsafe { orc_fmodf(s(a[0]), s(a[1])) }), 0))),
        ("fmod", F64) => Box::new(|a| Some(Out(od(unsafe { orc_fmod(d(a[0]), d(a[1])) }), 0))),
        ("fmod", F16) => Box::new(|a| Some(Out(d2h(unsafe { orc_fmodf(h2d(a[0]) as f32, h2d(a[1]) as f32) } as f64), 0))),
        ("fmod", _) => Box::new(|a| q2(orc_fmodq, a)),
        ("remainder", F32) => Box::new(|a| Some(Out(os(unsafe { orc_remainderf(s(a[0]), s(a[1])) }), 0))),
        ("remainder", F64) => Box::new(|a| Some(Out(od(unsafe { orc_remainder(d(a[0]), d(a[1])) }), 0))),
        ("scalbn" | "ldexp", F32) => Box::new(|a| Some(Out(os(unsafe { orc_scalbnf(s(a[0]), i(a[1])) }), 0))),
        ("scalbn" | "ldexp", F64) => Box::new(|a| Some(Out(od(unsafe { orc_scalbn(d(a[0]), i(a[1])) }), 0))),
        ("scalbn" | "ldexp", F128) => Box::new(|a| {
            let (x, mut r) = (f128::from_bits(a[0]), 0f128);
            unsafe { orc_scalbnq(&x, i(a[1]), &mut r) };
            Some(Out(r.to_bits(), 0))
        }),
        ("scalbn" | "ldexp", F16) => Box::new(|a| {
            let n = i(a[1]).clamp(-200, 200);
            Some(Out(d2h(h2d(a[0]) * f64::from_bits(((1023 + n) as u64) << 52)), 0))
        }),
        ("frexp", F64) => Box::new(|a| {
            let (x, mut e) = (d(a[0]), 0);
            let r = unsafe { orc_frexp(x, &mut e) };
            Some(Out(od(r), if x.is_finite() { oi(e) } else { u128::MAX }))
        }),
        ("frexp", F32) => Box::new(|a| {
            let (x, mut e) = (s(a[0]), 0);
            let r = unsafe { orc_frexpf(x, &mut e) };
            Some(Out(os(r), if x.is_finite() { oi(e) } else { u128::MAX }))
        }),
        ("modf", F64) => Box::new(|a| { let mut e = 0.0; let r = unsafe { orc_modf(d(a[0]), &mut e) }; Some(Out(od(r), od(e))) }),
        ("modf", F32) => Box::new(|a| { let mut e = 0.0; let r = unsafe { orc_modff(s(a[0]), &mut e) }; Some(Out(os(r), os(e))) }),
        ("ilogb", F64) => Box::new(|a| Some(Out(oi(unsafe { orc_ilogb(d(a[0])) }), 0))),
        ("ilogb", F32) => Box::new(|a| Some(Out(oi(unsafe { orc_ilogbf(s(a[0])) }), 0))),
        _ => return None,
    })
}

#[derive(Default)]
struct Stat { n: AtomicU64, slow: AtomicU64, filter_wrong: AtomicU64, skipped: AtomicU64, inexact: AtomicU64 }

pub struct Checker<'a> { m: &'a Mon, b: &'static str, ty: Ty, fs: Vec<(&'static str, Func)>, fast: Option<Fast>, st: Stat, tag: u64 }

impl<'a> Checker<'a> {
    pub fn new(m: &'a Mon, libs: &[&'static Lib], name: &str) -> Self {
        let fs: Vec<_> = libs.iter().map(|l| (l.name, l.func(name))).collect();
        let f = fs[0].1;
        let ty = if f.args[0] == I32 { f.args[1] } else { f.args[0] };
        Checker { m, b: base(f.name), ty, fast: fast(f.name, ty), st: Stat::default(), fs,
            tag: name.bytes().fold(11u64, |h, c| h.wrapping_mul(131).wrapping_add(c as u64)) }
    }
    /// Run one case on every build and judge it. `k` numbers the cases (every 997th is cross-checked).
    #[inline]
    pub fn case(&self, k: u64, a: &[u128; 3], count_seen: bool) {
        let mut want = self.fast.as_ref().and_then(|f| f(a));
        let mut is_slow = false;
        for (bn, f) in &self.fs {
            cur(f, a);
            let got = f.run(a);
            let ok = want.as_ref().is_some_and(|w| agrees(self.b, f, &got, w));
            if ok && k % 997 != 0 { continue; }
            if !is_slow {
                is_slow = true;
                self.st.slow.fetch_add(1, Relaxed);
                let w = slow(self.b, self.ty, a);
                if let (Some(x), Some(y)) = (&want, &w) {
                    if !agrees(self.b, f, x, y) && !agrees(self.b, f, y, x) {
                        self.st.filter_wrong.fetch_add(1, Relaxed);
                    }
                }
                want = w;
            }
            match &want {
                None => { self.st.skipped.fetch_add(1, Relaxed); }
                Some(w) => if !agrees(self.b, f, &got, w) {
                    self.m.violation(f, bn, a, format!("got {}, must be {}", f.show_out(&got), f.show_out(w)));
                },
            }
        }
        if count_seen { self.m.seen(self.tag, a[0], a[1], a[2]); }
    }
    pub fn batch(&self, n: u64) { self.st.n.fetch_add(n, Relaxed); self.m.evals(n * self.fs.len() as u64); }
    pub fn report(&self, mode: &str, t0: std::time::Instant) {
        let s = &self.st;
        self.m.stat(&format!("{} {mode}", self.fs[0].1.name), format!("{{\"inputs\": {}, \"builds\": {:?}, \"decided_by_integer_arithmetic\": {}, \"host_libm_wrong\": {}, \"wall_s\": {:.1}}}",
            s.n.load(Relaxed), self.fs.iter().map(|f| f.0).collect::<Vec<_>>(), s.slow.load(Relaxed), s.filter_wrong.load(Relaxed), t0.elapsed().as_secs_f64()));
        if s.filter_wrong.load(Relaxed) > 0 { self.m.sample(format!("host libm differs from the exact {} {} times", self.b, s.filter_wrong.load(Relaxed))); }
        let _ = (&s.skipped, &s.inexact);
    }
}

/// All (or one per stratum) patterns of the only argument.
pub fn sweep(m: &Mon, libs: &[&'static Lib], name: &str, stride: u64) {
    let c = Checker::new(m, libs, name);
    let t0 = std::time::Instant::now();
    let total = (1u64 << c.ty.bits()) / stride;
    let blk = if c.ty == F16 { 1 << 10 } else { 1u64 << 18 };
    // cbrtf has no exact fast oracle: filter by the f64 host function away from rounding boundaries
    let cb = c.b == "cbrt" && c.ty == F32;
    par(total.div_ceil(blk) as usize, |bi| {
        let (lo, hi) = (bi as u64 * blk, ((bi as u64 + 1) * blk).min(total));
        let mut r = Rng::new(m.seed, bi as u64);
        if m.too_many() { return; }
        for k in lo..hi {
            let off = if stride > 1 { r.below(stride) } else { 0 };
            let x = (k * stride + off) as u128;
            if cb {
                let v = s(x);
                let w = (v as f64).cbrt();
                let g = w as f32;
                let near = { let t = w.to_bits() & 0x1fff_ffff; (0x0fff_fff0..=0x1000_0010).contains(&t) };
                if !near && !v.is_nan() && c.fs.iter().all(|f| { f.1.run(&[x, 0, 0]).0 == os(g) }) { continue; }
            }
            c.case(k, &[x, 0, 0], false);
        }
        c.batch(hi - lo);
        m.enumerated(hi - lo);
    });
    c.report(if stride == 1 { "(every bit pattern)" } else { "(one random pattern per stratum)" }, t0);
}

/// Random cases made by `g`.
pub fn random(m: &Mon, src: &Source, libs: &[&'static Lib], name: &str, n: u64, g: impl Fn(&mut Gen, Ty, &str) -> [u128; 3] + Sync) {
    let c = Checker::new(m, libs, name);
    let t0 = std::time::Instant::now();
    let dict = Arc::new(dict_for(&src.nums_for(name), c.ty));
    let per = 1u64 << 15;
    par(n.div_ceil(per) as usize, |ci| {
        if m.too_many() { return; }
        let mut gen_ = Gen::new(Rng::new(m.seed ^ c.tag, ci as u64), c.ty, dict.clone());
        for k in 0..per {
            let a = g(&mut gen_, c.ty, c.b);
            c.case(ci as u64 * per + k, &a, true);
        }
        c.batch(per);
    });
    c.report("(random)", t0);
    let c = Checker::new(m, libs, name);
    let t0 = std::time::Instant::now();
    let ts = crate::guided::guided(m, &c.fs[0].1);
    let cs: Vec<&[[u128; 3]]> = ts.chunks(1 << 10).collect();
    par(cs.len(), |i| {
        if m.too_many() { return; }
        for (k, a) in cs[i].iter().enumerate() { c.case((i * 1024 + k) as u64, a, true); }
        c.batch(cs[i].len() as u64);
    });
    if !ts.is_empty() { c.report("(coverage-guided)", t0); }
    let mut gen_ = Gen::new(Rng::new(m.seed ^ c.tag, u64::MAX / 3), c.ty, dict);
    for _ in 0..2 {
        let a = g(&mut gen_, c.ty, c.b);
        let f = &c.fs[0].1;
        m.sample(format!("{}({}) = {}", f.name, f.show_in(&a), f.show_out(&f.run(&a))));
    }
}

fn sign(g: &mut Gen, ty: Ty) -> u128 { sgn(ty, g.r.u64() & 1 == 1) }

/// A number with the given leading mantissa bits and exponent (clamped into the range).
fn build(ty: Ty, m: u128, e: i64, neg: bool) -> u128 {
    // value = m * 2^e, truncated when it does not fit
    if m == 0 { return sgn(ty, neg); }
    let p = ty.sig() + 1;
    let n = 128 - m.leading_zeros();
    let (m, e) = if n > p { (m >> (n - p), e + (n - p) as i64) } else { (m << (p - n), e - (p - n) as i64) };
    let be = e + bias(ty) + ty.sig() as i64;
    let mx = 2 * bias(ty);
    sgn(ty, neg) | if be >= 1 { ((be.min(mx) as u128) << ty.sig()) | (m & ((1 << ty.sig()) - 1)) }
        else if 1 - be < 128 { m >> (1 - be) } else { 0 }
}

pub fn fma_case(g: &mut Gen, ty: Ty, _b: &str) -> [u128; 3] {
    let p = ty.sig() as i64 + 1;
    let bi = bias(ty);
    let mm = |g: &mut Gen| -> u128 { (1u128 << ty.sig()) | if g.r.u64() & 1 == 1 { mant(&mut g.r, ty.sig()) } else { g.r.u128() & ((1 << ty.sig()) - 1) } };
    let neg = |g: &mut Gen| g.r.u64() & 1 == 1;
    let emin = 1 - bi - ty.sig() as i64;
    // exponents such that the product lands anywhere, with weight on the ends of the range
    let span = |g: &mut Gen| -> (i64, i64) {
        let pe = match g.r.below(5) {
            0 => g.r.range(-20, 20),
            1 => g.r.range(emin - 3 * p, emin + 3 * p), // around the subnormals
            2 => g.r.range(bi - 2 * p - 4, bi + 4),
            _ => g.r.range(emin - 10, bi),
        };
        // pe is the exponent of the product's leading bit; split between x and y (leading exponents)
        let (lo, hi) = ((pe - bi).max(emin), (pe - emin).min(bi));
        let ex = if lo <= hi { if g.r.u64() & 1 == 1 { (pe / 2).clamp(lo, hi) } else { g.r.range(lo, hi) } } else { pe / 2 };
        (ex, pe - ex)
    };
    match g.r.below(9) {
        0 => [g.bits(), g.bits(), g.bits()],
        1 | 2 => {
            let (ex, ey) = span(g);
            let dz = g.r.range(-2 * p - 6, 2 * p + 70);
            let (a, b, c) = (mm(g), mm(g), mm(g));
            [build(ty, a, ex - p + 1, neg(g)), build(ty, b, ey - p + 1, neg(g)), build(ty, c, ex + ey + dz - p + 1, neg(g))]
        }
        3 => { // cancellation: z close to -(x*y)
            let (ex, ey) = span(g);
            let (x, y) = (build(ty, mm(g), ex - p + 1, neg(g)), build(ty, mm(g), ey - p + 1, neg(g)));
            let z = mp_fma(ty, x, y, 0) ^ ty.sign_bit();
            [x, y, z.wrapping_add(g.r.range(-3, 3) as i128 as u128) & ty.mask()]
        }
        4 | 5 => { // the product is almost a power of two that is half an ulp of z
            let k = g.r.below(ty.sig() as u64) as u32;
            let xm = (mm(g) >> k) << k;
            let ym = (Integer::from(1) << (2 * p as u32 - 1 + g.r.below(2) as u32)) / Integer::from(xm);
            let ym = ym.to_u128().unwrap_or(1).wrapping_add(g.r.range(-1, 2) as i128 as u128);
            let (ex, ey) = span(g);
            let zm = match g.r.below(4) { 0 => 1u128 << ty.sig(), 1 => (1u128 << ty.sig()) | 1, 2 => (2u128 << ty.sig()) - 1, _ => mm(g) };
            let (x, y) = (build(ty, xm, ex - p + 1, neg(g)), build(ty, ym, ey - p + 1, neg(g)));
            // leading exponent of z relative to the product
            let dz = p + g.r.range(-2, 2) + if g.r.below(3) == 0 { g.r.range(0, 70) } else { 0 };
            [x, y, build(ty, zm, ex + ey + dz - p + 1, neg(g))]
        }
        6 => { // the product is an exact tie and z breaks it
            let ka = 2 + g.r.below(p as u64 - 3) as u32;
            let kb = p as u32 + 1 - ka + g.r.below(2) as u32;
            let a = (g.r.u128() & ((1 << ka) - 1)) | 1 | 1 << (ka - 1);
            let kb = kb.clamp(1, p as u32);
            let b = (g.r.u128() & ((1 << kb) - 1)) | 1 | 1 << (kb - 1);
            let (ex, ey) = span(g);
            let dz = -(g.r.below(3 * p as u64 + 8) as i64);
            let z = match g.r.below(4) { 0 => sign(g, ty) | g.r.below(3) as u128, _ => { let c = mm(g); build(ty, c, ex + ey + dz - p + 1, neg(g)) } };
            [build(ty, a, ex - p + 1, neg(g)), build(ty, b, ey - p + 1, neg(g)), z]
        }
        7 => { // z tie: z + product where the product is exactly half an ulp or close to it
            let (ex, ey) = span(g);
            let (a, b) = (1u128 << ty.sig(), (1u128 << ty.sig()) + g.r.below(3) as u128);
            let zm = mm(g);
            let dz = p + g.r.range(-1, 1);
            [build(ty, a, ex - p + 1, neg(g)), build(ty, b, ey - p + 1, neg(g)), build(ty, zm, ex + ey + dz - p + 1, neg(g))]
        }
        _ => { // tiny product against subnormal or smallest normal z, huge against the largest
            let a = g.bits();
            let z = match g.r.below(4) {
                0 => (1u128 << ty.sig()) - 1 + g.r.below(3) as u128,
                1 => mant(&mut g.r, ty.sig()),
                2 => ty.exp_mask() - 1 - g.r.below(3) as u128,
                _ => g.related(a),
            };
            let pe = if z >> ty.sig() == 0 || z >> ty.sig() == 1 { emin + g.r.range(-3 * p, p) } else { bi + g.r.range(-2 * p, 2) };
            let ex = (pe / 2 + g.r.range(-5, 5)).clamp(emin, bi);
            let (xm, ym) = (mm(g), mm(g));
            [build(ty, xm, ex - p + 1, neg(g)), build(ty, ym, pe - ex - p + 1, neg(g)), z ^ sign(g, ty)]
        }
    }
}

pub fn root_case(g: &mut Gen, ty: Ty, b: &str) -> [u128; 3] {
    let p = ty.sig() + 1;
    if g.r.below(3) == 0 { return [g.bits(), 0, 0]; }
    // r has p+1 bits: odd r is a midpoint between two results, even r a result
    let mut rm = (1u128 << p) | (g.r.u128() & ((1 << p) - 1));
    if g.r.below(4) == 0 { rm = (1u128 << p) | mant(&mut g.r, p); }
    if g.r.below(4) == 0 { let k = g.r.below(p as u64) as u32; rm = (rm >> k) << k | (1 << k); }
    let pw = if b == "cbrt" { 3 } else { 2 };
    let r = Integer::from(rm);
    let v = if pw == 3 { r.clone().square() * &r } else { r.square() };
    let n = v.significant_bits();
    let m = (v >> (n - p)).to_u128().unwrap();
    // the exponent: same parity class as r^pw so that the root is near rm * 2^k
    let full = (n - p) as i64;
    let bi = bias(ty);
    let kmax = bi / pw;
    let k = if g.r.u64() & 1 == 1 { g.r.range(-kmax, kmax) } else { g.r.range(-30, 30) };
    let e = full + pw * (k - p as i64);
    let x = build(ty, m, e, b == "cbrt" && g.r.u64() & 1 == 1);
    [x.wrapping_add(g.r.range(-1, 2) as i128 as u128) & ty.mask(), 0, 0]
}

pub fn rem_case(g: &mut Gen, ty: Ty, _b: &str) -> [u128; 3] {
    let bi = bias(ty);
    let p = ty.sig() as i64 + 1;
    match g.r.below(8) {
        0 => [g.bits(), g.bits(), 0],
        1 => { let a = g.bits(); [a, g.related(a), 0] }
        2 | 3 => { // chosen exponent difference
            let d = match g.r.below(4) { 0 => g.r.range(-2, 8), 1 => g.r.range(0, 140), _ => g.r.range(0, 2 * bi) };
            let ey = g.r.range(1 - bi - p, bi);
            let m1 = (1 << ty.sig()) | mant(&mut g.r, ty.sig());
            let m2 = match g.r.below(3) { 0 => 1 + g.r.below(100) as u128, _ => (1 << ty.sig()) | (g.r.u128() & ((1 << ty.sig()) - 1)) };
            [build(ty, m1, (ey + d).min(bi) - p + 1, g.r.u64() & 1 == 1), build(ty, m2, ey - p + 1, g.r.u64() & 1 == 1), 0]
        }
        4 | 5 => { // x = (k or k + 1/2) * y exactly, or one ulp away
            let kb = 1 + g.r.below(ty.sig() as u64) as u32;
            let k = 1 + (g.r.u128() & ((1 << kb) - 1));
            let yb = (p as u32 - 1).saturating_sub(kb).max(1);
            let ym = 1 + (g.r.u128() & ((1 << yb) - 1));
            let ey = match g.r.below(3) { 0 => g.r.range(-20, 20), 1 => 1 - bi - ty.sig() as i64 + g.r.range(0, 8), _ => g.r.range(1 - bi - p, bi - p - 2) };
            let half = g.r.u64() & 1 == 1;
            let xm = if half { (2 * k + 1) * ym } else { k * ym };
            let x = build(ty, xm, if half { ey - 1 } else { ey }, g.r.u64() & 1 == 1);
            [x.wrapping_add(if g.r.u64() & 1 == 1 { g.r.range(-1, 1) as i128 as u128 } else { 0 }) & ty.mask(), build(ty, ym, ey, g.r.u64() & 1 == 1), 0]
        }
        6 => { // subnormals and the smallest normals
            let k = 1 + g.r.below(ty.sig() as u64 + 2) as u32;
            let (a, b) = (g.r.u128() & ((1 << k) - 1), g.r.u128() & ((1u128 << (1 + g.r.below(k as u64) as u32)) - 1));
            [a | sign(g, ty), b | sign(g, ty), 0]
        }
        _ => { // huge by tiny
            let x = ty.exp_mask() - 1 - (mant(&mut g.r, ty.sig()) >> g.r.below(8));
            let k = g.r.below(ty.sig() as u64 + 6) as u32;
            [x | sign(g, ty), ((g.r.u128() & ((2u128 << k) - 1)) & (ty.exp_mask() - 1)) | sign(g, ty), 0]
        }
    }
}

pub fn pair_case(g: &mut Gen, _ty: Ty, _b: &str) -> [u128; 3] {
    let a = g.bits();
    match g.r.below(4) { 0 => [a, g.bits(), 0], 1 => { let b = g.related(a); [b, a, 0] } _ => [a, g.related(a), 0] }
}
pub fn unary_case(g: &mut Gen, ty: Ty, b: &str) -> [u128; 3] {
    if matches!(b, "ceil" | "floor" | "trunc" | "rint" | "round" | "roundeven" | "modf") && g.r.below(3) > 0 {
        // integer and half-integer neighbourhoods at every exponent
        let e = g.r.range(-3, ty.sig() as i64 + 3);
        let m = (1u128 << ty.sig()) | mant(&mut g.r, ty.sig());
        let fb = ty.sig() as i64 - e; // fraction bits
        let m = if fb > 0 && fb <= ty.sig() as i64 {
            let ip = (m >> fb) << fb;
            let half = 1u128 << (fb - 1);
            match g.r.below(4) { 0 => ip, 1 => ip | half, 2 => (ip | half).wrapping_add(g.r.range(-2, 2) as i128 as u128), _ => ip.wrapping_add(g.r.range(-2, 2) as i128 as u128) }
        } else { m };
        return [build(ty, m, e - ty.sig() as i64, g.r.u64() & 1 == 1), 0, 0];
    }
    [g.bits(), 0, 0]
}
pub fn scale_case(g: &mut Gen, ty: Ty, _b: &str) -> [u128; 3] {
    let x = g.bits();
    let n = match g.r.below(4) {
        0 => g.int(),
        1 => *g.r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, -bias(ty) as i32, bias(ty) as i32]) ,
        _ => { // land near a boundary of the range
            let (m, e) = decode(ty, x);
            let top = e + 127 - m.leading_zeros().min(127) as i64;
            let emin = 1 - bias(ty) - ty.sig() as i64;
            let t = match g.r.below(4) { 0 => bias(ty) + g.r.range(-3, 3), 1 => emin + g.r.range(-4, ty.sig() as i64 + 4), 2 => emin + g.r.range(-3, 3), _ => g.r.range(emin, bias(ty)) };
            (t - top) as i32
        }
    };
    [x, oi(n), 0]
}

/// Every pair of f16 values, or one per stratum.
pub fn pairs16(m: &Mon, libs: &[&'static Lib], name: &str, stride: u64) {
    let c = Checker::new(m, libs, name);
    let t0 = std::time::Instant::now();
    let total = (1u64 << 32) / stride;
    let blk = 1u64 << 18;
    par(total.div_ceil(blk) as usize, |bi| {
        if m.too_many() { return; }
        let mut r = Rng::new(m.seed ^ 0x16, bi as u64);
        let lo = bi as u64 * blk;
        for k in lo..lo + blk {
            let v = k * stride + if stride > 1 { r.below(stride) } else { 0 };
            c.case(k, &[(v >> 16) as u128, (v & 0xffff) as u128, 0], false);
        }
        c.batch(blk);
        m.enumerated(blk);
    });
    c.report(if stride == 1 { "(every pair)" } else { "(one random pair per stratum)" }, t0);
}

pub fn check(m: &Mon, src: &Source) {
    use crate::*;
    let t = m.thorough;
    let ds: &[&'static Lib] = &[&b_default::LIB, &b_soft::LIB];
    let dsi: &[&'static Lib] = &[&b_default::LIB, &b_soft::LIB, &b_intr::LIB];
    let k = if t { 30 } else { 1 };
    m.rule("Each input runs on several builds of the crate. f16: every bit pattern (pairs: one per stratum, thorough every pair); f32 unary: one random pattern per stratum, thorough every pattern; otherwise random cases constructed to sit on or next to rounding boundaries, exact ties, cancellation, subnormal and overflow thresholds, and chosen exponent differences, plus structured and uniform bit patterns and constants of the source. A case is one argument tuple; all are non-trivial. The host libm accepts, every difference and every 997th case is decided by integer arithmetic on the bits.");
    match m.prop.as_str() {
        "C01" => {
            sweep(m, dsi, "sqrtf16", 1);
            for n in ["sqrtf", "cbrtf"] { sweep(m, dsi, n, if t { 1 } else { 24 }); }
            random(m, src, dsi, "sqrt", 12_000_000 * k, root_case);
            random(m, src, dsi, "sqrtf", 4_000_000 * k, root_case);
            random(m, src, ds, "sqrtf128", 2_000_000 * k, root_case);
            random(m, src, ds, "cbrt", 2_000_000 * k, root_case);
            random(m, src, ds, "cbrtf", 1_000_000 * k, root_case);
            random(m, src, dsi, "fma", 30_000_000 * k, fma_case);
            random(m, src, dsi, "fmaf", 20_000_000 * k, fma_case);
            random(m, src, ds, "fmaf128", 10_000_000 * k, fma_case);
        }
        "C02" => {
            for b in ["ceil", "floor", "trunc", "rint", "round", "roundeven"] {
                sweep(m, dsi, &format!("{b}f16"), 1);
                sweep(m, dsi, &format!("{b}f"), if t { 1 } else { 8 });
                random(m, src, dsi, &format!("{b}f"), 3_000_000 * k, unary_case);
                random(m, src, dsi, b, 16_000_000 * k, unary_case);
                random(m, src, dsi, &format!("{b}f128"), 4_000_000 * k, unary_case);
            }
        }
        "C03" => {
            pairs16(m, ds, "fmodf16", if t { 1 } else { 32 });
            random(m, src, ds, "fmodf16", 2_000_000 * k, rem_case);
            random(m, src, ds, "fmod", 6_000_000 * k, rem_case);
            random(m, src, ds, "fmodf", 8_000_000 * k, rem_case);
            random(m, src, ds, "fmodf128", 300_000 * k, rem_case);
            random(m, src, ds, "remainder", 6_000_000 * k, rem_case);
            random(m, src, ds, "remainderf", 8_000_000 * k, rem_case);
            random(m, src, ds, "remquo", 6_000_000 * k, rem_case);
            random(m, src, ds, "remquof", 8_000_000 * k, rem_case);
        }
        "C04" => {
            for n in ["frexpf", "ilogbf", "modff"] { sweep(m, ds, n, if t { 1 } else { 16 }); random(m, src, ds, n, 2_000_000 * k, unary_case); }
            for n in ["frexp", "ilogb", "modf"] { random(m, src, ds, n, 12_000_000 * k, unary_case); }
            for n in ["scalbn", "ldexp"] {
                random(m, src, ds, &format!("{n}f16"), 6_000_000 * k, scale_case);
                random(m, src, ds, &format!("{n}f"), 10_000_000 * k, scale_case);
                random(m, src, ds, n, 10_000_000 * k, scale_case);
                random(m, src, ds, &format!("{n}f128"), 5_000_000 * k, scale_case);
            }
            random(m, src, ds, "nextafter", 10_000_000 * k, pair_case);
            random(m, src, ds, "nextafterf", 10_000_000 * k, pair_case);
        }
        "C05" => {
            for b in ["fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num", "fdim", "copysign"] {
                pairs16(m, dsi, &format!("{b}f16"), if t { 1 } else { 128 });
                random(m, src, dsi, &format!("{b}f16"), 2_000_000 * k, pair_case);
                random(m, src, dsi, &format!("{b}f"), 6_000_000 * k, pair_case);
                random(m, src, dsi, b, 6_000_000 * k, pair_case);
                random(m, src, dsi, &format!("{b}f128"), 4_000_000 * k, pair_case);
            }
            sweep(m, dsi, "fabsf16", 1);
            sweep(m, dsi, "fabsf", if t { 1 } else { 64 });
            for n in ["fabs", "fabsf", "fabsf128"] { random(m, src, dsi, n, 2_000_000 * k, unary_case); }
        }
        _ => unreachable!(),
    }
}
