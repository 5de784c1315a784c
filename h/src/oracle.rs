//! Reference implementations: host C library filters (oracle.c) and MPFR (decides).
use std::cmp::Ordering;
use std::ffi::CString;

use rug::float::Round::Nearest;
use rug::ops::{AssignRound, PowAssignRound};
use rug::{Assign, Float, Integer};

use crate::lib_table::Ty;

#[allow(dead_code)]
unsafe extern "C" {
    fn orc_u(n: *const i8) -> i32;
    fn orc_b(n: *const i8) -> i32;
    pub fn orc_cmp_u64(f: i32, x: *const f64, g: *const f64, n: usize, bound: u64, out: *mut u32, cap: usize, st: *mut u64) -> usize;
    pub fn orc_cmp_u64d(f: i32, x: *const f64, g: *const f64, n: usize, bound: u64, out: *mut u32, cap: usize, st: *mut u64) -> usize;
    pub fn orc_cmp_cr64(f: i32, x: *const f64, g: *const f64, n: usize, bound: u64, out: *mut u32, cap: usize, st: *mut u64) -> usize;
    pub fn orc_cmp_u32(f: i32, x: *const f32, g: *const f32, n: usize, bound: u32, out: *mut u32, cap: usize, st: *mut u64) -> usize;
    pub fn orc_cmp_b64(f: i32, x: *const f64, y: *const f64, g: *const f64, n: usize, bound: u64, out: *mut u32, cap: usize, st: *mut u64) -> usize;
    pub fn orc_cmp_b32(f: i32, x: *const f32, y: *const f32, g: *const f32, n: usize, bound: u32, out: *mut u32, cap: usize, st: *mut u64) -> usize;
    pub fn orc_fma(x: f64, y: f64, z: f64) -> f64;
    pub fn orc_fmaf(x: f32, y: f32, z: f32) -> f32;
    pub fn orc_fmaq(x: *const f128, y: *const f128, z: *const f128, r: *mut f128);
    pub fn orc_qu(n: *const i8, x: *const f128, r: *mut f128) -> i32;
    pub fn orc_du(k: i32, x: f64) -> f64;
    pub fn orc_fu(k: i32, x: f32) -> f32;
    pub fn orc_fmod(x: f64, y: f64) -> f64;
    pub fn orc_fmodf(x: f32, y: f32) -> f32;
    pub fn orc_fmodq(x: *const f128, y: *const f128, r: *mut f128);
    pub fn orc_remainder(x: f64, y: f64) -> f64;
    pub fn orc_remainderf(x: f32, y: f32) -> f32;
    pub fn orc_scalbn(x: f64, n: i32) -> f64;
    pub fn orc_scalbnf(x: f32, n: i32) -> f32;
    pub fn orc_scalbnq(x: *const f128, n: i32, r: *mut f128);
    pub fn orc_frexp(x: f64, e: *mut i32) -> f64;
    pub fn orc_frexpf(x: f32, e: *mut i32) -> f32;
    pub fn orc_modf(x: f64, i: *mut f64) -> f64;
    pub fn orc_modff(x: f32, i: *mut f32) -> f32;
    pub fn orc_ilogb(x: f64) -> i32;
    pub fn orc_ilogbf(x: f32) -> i32;
    pub fn orc_nextafter(x: f64, y: f64) -> f64;
    pub fn orc_nextafterf(x: f32, y: f32) -> f32;
    pub fn orc_fdim(x: f64, y: f64) -> f64;
    pub fn orc_fdimf(x: f32, y: f32) -> f32;
    pub fn orc_fdimq(x: *const f128, y: *const f128, r: *mut f128);
    pub fn orc_jn(n: i32, x: f64) -> f64;
    pub fn orc_yn(n: i32, x: f64) -> f64;
    pub fn orc_ud(f: i32, x: f64) -> f64;
    pub fn orc_bes(two: i32, f: i32, y: i32, n: i32, x: f64, g: f64, r: *mut f64, d: *mut f64);
    pub fn orc_lgamma(x: f64) -> f64;
    pub fn orc_mxcsr() -> u32;
    pub fn orc_set_mxcsr(v: u32);
    pub fn orc_x87cw() -> u16;
}

pub fn u_idx(n: &str) -> i32 { let c = CString::new(n).unwrap(); unsafe { orc_u(c.as_ptr()) } }
pub fn b_idx(n: &str) -> i32 { let c = CString::new(n).unwrap(); unsafe { orc_b(c.as_ptr()) } }

/// The C function name without the type suffix (`sinf` -> `sin`, `lgammaf_r` -> `lgamma_r`).
pub fn base(name: &str) -> &str {
    if let Some((_, c)) = name.split_once(':') { return c; }
    let n = name.strip_suffix("f128").or(name.strip_suffix("f16")).unwrap_or(name);
    match n {
        "erf" | "modf" => n,
        "lgammaf_r" => "lgamma_r",
        _ => n.strip_suffix('f').unwrap_or(n),
    }
}

pub fn prec(ty: Ty) -> u32 { ty.sig() + 1 }

/// Exact MPFR value of a bit pattern.
pub fn mp_in(ty: Ty, b: u128) -> Float {
    let sig = ty.sig();
    let neg = b & ty.sign_bit() != 0;
    let m = b & ((1u128 << sig) - 1);
    let e = ((b & !ty.sign_bit() & ty.mask()) >> sig) as i64;
    let emax = (1i64 << (ty.bits() - 1 - sig)) - 1;
    let bias = emax >> 1;
    let mut f = Float::new(prec(ty));
    if e == emax {
        if m != 0 { f.assign(rug::float::Special::Nan); }
        else if neg { f.assign(rug::float::Special::NegInfinity); } else { f.assign(rug::float::Special::Infinity); }
        return f;
    }
    if e == 0 && m == 0 {
        if neg { f.assign(rug::float::Special::NegZero); }
        return f;
    }
    let (m, e) = if e == 0 { (m, 1) } else { (m | 1 << sig, e) };
    f.assign(Integer::from(m));
    f <<= 0;
    let sh = (e - bias - sig as i64) as i32;
    if sh >= 0 { f <<= sh as u32; } else { f >>= (-sh) as u32; }
    if neg { f = -f; }
    f
}

/// Round to nearest-even in `ty` (f was produced with the precision of `ty` and ternary `o`).
pub fn mp_out(ty: Ty, mut f: Float, o: Ordering) -> u128 {
    if f.is_nan() { return ty.exp_mask() | (1u128 << (ty.sig() - 1)); }
    let neg = f.is_sign_negative();
    let s = if neg { ty.sign_bit() } else { 0 };
    if f.is_infinite() { return s | ty.exp_mask(); }
    if f.is_zero() { return s; }
    let sig = ty.sig() as i64;
    let emax = (1i64 << (ty.bits() - 1 - ty.sig())) - 1;
    let bias = emax >> 1;
    debug_assert_eq!(f.prec(), prec(ty));
    // f = m * 2^e with m of exactly prec bits
    let exp = f.get_exp().unwrap() as i64; // 0.5 <= |m| < 1
    if exp - 1 > bias { return s | ty.exp_mask(); }
    if exp - 1 < 1 - bias {
        // subnormal: use integer arithmetic with the ternary value as a sticky bit
        let (m, e) = f.to_integer_exp().unwrap();
        let mut m = m.abs();
        let mut e = e as i64;
        // append two sticky bits describing where the exact value lies
        m <<= 2;
        e -= 2;
        let o = if neg { o.reverse() } else { o };
        match o { Ordering::Less => m += 1, Ordering::Greater => m -= 1, Ordering::Equal => {} }
        let lsb = 1 - bias - sig;
        let sh = lsb - e;
        let r: Integer = if sh <= 0 { m << (-sh) as u32 } else if sh > 2000 { Integer::new() } else {
            let sh = sh as u32;
            let q = Integer::from(&m >> sh);
            let rem = m - Integer::from(&q << sh);
            let half = Integer::from(1) << (sh - 1);
            match rem.cmp(&half) {
                Ordering::Greater => q + 1,
                Ordering::Equal if q.is_odd() => q + 1,
                _ => q,
            }
        };
        return s | r.to_u128().unwrap();
    }
    f.abs_mut();
    let (m, e) = f.to_integer_exp().unwrap();
    let e = e as i64;
    let mut m = m.to_u128().unwrap();
    let top = 127 - m.leading_zeros() as i64; // value = m * 2^e
    let ex = top + e;
    m <<= (sig - top).max(0);
    s | (((ex + bias) as u128) << sig) | (m & ((1u128 << sig) - 1))
}

/// Correctly rounded one-argument function, or None when MPFR has no such function.
pub fn mp_u(base: &str, ty: Ty, x: u128) -> Option<u128> {
    let mut f = Float::new(prec(ty));
    f.assign(mp_in(ty, x));
    let o = match base {
        "acos" => f.acos_round(Nearest),
        "acosh" => f.acosh_round(Nearest),
        "asin" => f.asin_round(Nearest),
        "asinh" => f.asinh_round(Nearest),
        "atan" => f.atan_round(Nearest),
        "atanh" => f.atanh_round(Nearest),
        "cbrt" => f.cbrt_round(Nearest),
        "cos" => f.cos_round(Nearest),
        "cosh" => f.cosh_round(Nearest),
        "erf" => f.erf_round(Nearest),
        "erfc" => f.erfc_round(Nearest),
        "exp" => f.exp_round(Nearest),
        "exp10" => f.exp10_round(Nearest),
        "exp2" => f.exp2_round(Nearest),
        "expm1" => f.exp_m1_round(Nearest),
        "j0" => f.j0_round(Nearest),
        "j1" => f.j1_round(Nearest),
        "lgamma" => f.ln_abs_gamma_round(Nearest).1,
        "log" => f.ln_round(Nearest),
        "log10" => f.log10_round(Nearest),
        "log1p" => f.ln_1p_round(Nearest),
        "log2" => f.log2_round(Nearest),
        "sin" => f.sin_round(Nearest),
        "sinh" => f.sinh_round(Nearest),
        "tan" => f.tan_round(Nearest),
        "tanh" => f.tanh_round(Nearest),
        "tgamma" => f.gamma_round(Nearest),
        "y0" => f.y0_round(Nearest),
        "y1" => f.y1_round(Nearest),
        "sqrt" => f.sqrt_round(Nearest),
        _ => return None,
    };
    Some(mp_out(ty, f, o))
}

pub fn mp_b(base: &str, ty: Ty, x: u128, y: u128) -> Option<u128> {
    let mut f = Float::new(prec(ty));
    f.assign(mp_in(ty, x));
    let g = mp_in(ty, y);
    let o = match base {
        "atan2" => f.atan2_round(&g, Nearest),
        "hypot" => f.hypot_round(&g, Nearest),
        "pow" => f.pow_assign_round(&g, Nearest),
        _ => return None,
    };
    Some(mp_out(ty, f, o))
}

pub fn mp_fma(ty: Ty, x: u128, y: u128, z: u128) -> u128 {
    let (a, b, c) = (mp_in(ty, x), mp_in(ty, y), mp_in(ty, z));
    let mut f = Float::new(prec(ty));
    let o = f.assign_round(a.mul_add_ref(&b, &c), Nearest);
    mp_out(ty, f, o)
}

pub fn mp_jn(y: bool, ty: Ty, n: i32, x: u128) -> u128 {
    let mut f = mp_in(ty, x);
    let o = if y { f.yn_round(n, Nearest) } else { f.jn_round(n, Nearest) };
    mp_out(ty, f, o)
}

/// A high-precision (200 bit) value of a unary function, for error measurements.
pub fn mp_hi(base: &str, ty: Ty, x: u128, p: u32) -> Option<Float> {
    let f = Float::with_val(p, mp_in(ty, x));
    Some(match base {
        "j0" => f.j0(), "j1" => f.j1(), "y0" => f.y0(), "y1" => f.y1(),
        "lgamma" => f.ln_abs_gamma().0, "tgamma" => f.gamma(),
        _ => return None,
    })
}

/// Distance in units in the last place; None when one side is NaN and the other is not.
pub fn ulp_dist(ty: Ty, a: u128, b: u128) -> Option<u128> {
    match (ty.is_nan(a), ty.is_nan(b)) {
        (true, true) => return Some(0),
        (false, false) => {}
        _ => return None,
    }
    let o = |v: u128| -> i128 {
        let m = (v & (ty.sign_bit() - 1)) as i128;
        if v & ty.sign_bit() != 0 { -m } else { m }
    };
    if ty == Ty::F128 {
        let (sa, sb) = (a & ty.sign_bit(), b & ty.sign_bit());
        let (ma, mb) = (a & (ty.sign_bit() - 1), b & (ty.sign_bit() - 1));
        return Some(if sa == sb { ma.abs_diff(mb) } else { ma.saturating_add(mb) });
    }
    Some(o(a).abs_diff(o(b)))
}
