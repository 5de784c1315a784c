//! C13: the special cases that C Annex F and IEEE 754 prescribe, as a table of rules that is
//! consulted for every call with a special argument (NaN, infinity, zero, +-1, integers, poles,
//! values outside of the domain).
use std::cmp::Ordering::*;
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use crate::common::*;
use crate::exact::*;
use crate::gen_::*;
use crate::lib_table::Ty::*;
use crate::lib_table::*;
use crate::mon::*;
use crate::oracle::base;

/// What a rule demands of one component of a result.
#[derive(Clone, Copy, Debug)]
pub enum E { Nan, B(u128), Near(u128), Zero, Any }

impl E {
    fn ok(self, ty: Ty, v: u128) -> bool {
        match self { E::Nan => ty.is_nan(v), E::B(b) => v == b, E::Near(b) => !ty.is_nan(v) && v.abs_diff(b) <= 1, E::Zero => ty != I32 && mag(ty, v) == 0, E::Any => true }
    }
    fn show(self, ty: Ty) -> String {
        match self { E::Nan => "NaN".into(), E::B(b) => ty.show(b), E::Near(b) => format!("{} within 1 ulp", ty.show(b)), E::Zero => "a zero".into(), E::Any => "anything".into() }
    }
}

fn fl(ty: Ty, v: f64) -> u128 {
    match ty { F16 => d2h(v), F32 => os(v as f32), F64 => od(v), _ => oq(v as f128) }
}
/// Is the finite value an integer, and is that integer odd?
fn integer(ty: Ty, b: u128) -> (bool, bool) {
    let (m, e) = decode(ty, b);
    if m == 0 { return (true, false); }
    if e > 0 { return (true, false); }
    let k = (-e) as u32;
    if k >= 128 { return (false, false); }
    (m & ((1u128 << k) - 1) == 0, m >> k & 1 == 1)
}
fn int_value(ty: Ty, b: u128) -> Option<i64> {
    let (m, e) = decode(ty, b);
    let v = if e >= 0 { if e > 40 { return None; } m.checked_shl(e as u32)? } else if e > -128 { m >> (-e) as u32 } else { 0 };
    if v > 1 << 50 || !integer(ty, b).0 { return None; }
    Some(if is_neg(ty, b) { -(v as i64) } else { v as i64 })
}

/// The rule (its name, for the evidence) and the demanded results; None where no rule applies.
pub fn rule(f: &Func, a: &[u128; 3]) -> Option<(&'static str, E, E)> {
    let b = base(f.name);
    let ty = *f.args.iter().find(|t| **t != I32).unwrap();
    let (x, y) = if f.args[0] == I32 { (a[1], a[0]) } else { (a[0], a[1]) };
    let two = f.args.len() == 2 && f.args[1] == ty;
    let one = (bias(ty) as u128) << ty.sig();
    let inf = ty.exp_mask();
    let s = ty.sign_bit();
    let neg = is_neg(ty, x);
    let sx = x & s;
    let nan = ty.is_nan(x);
    let zero = is_zero(ty, x);
    let isinf = is_inf(ty, x);
    let m = mag(ty, x);
    let odd_integer = |v| is_fin(ty, v) && integer(ty, v) == (true, true);
    let is_int = |v| is_fin(ty, v) && integer(ty, v).0;
    macro_rules! r { ($n:literal, $e:expr) => { return Some(($n, $e, E::Any)) }; ($n:literal, $e:expr, $g:expr) => { return Some(($n, $e, $g)) }; }
    macro_rules! when { ($c:expr, $($t:tt)*) => { if $c { r!($($t)*) } }; }
    let nearest = |v: f64| E::B(fl(ty, v));
    // functions with an exact definition: the definition itself is the rule
    if let Some(o) = slow(b, ty, a) {
        if !matches!(b, "sqrt" | "cbrt" | "jn" | "yn") || nan || zero || isinf || neg {
            return Some(("exact definition", E::B(o.0), if f.res.len() > 1 && o.1 != u128::MAX { E::B(o.1) } else { E::Any }));
        }
    }
    if !two && b != "jn" && b != "yn" {
        when!(nan, "NaN argument gives NaN", E::Nan, if b == "sincos" { E::Nan } else { E::Any });
    }
    match b {
        "sincos" => {
            when!(isinf, "sincos(inf) is NaN", E::Nan, E::Nan);
            when!(zero, "sincos(+-0) is (+-0, 1)", E::B(x), E::B(one));
        }
        "sin" | "tan" => {
            when!(isinf, "sin, tan(inf) is NaN", E::Nan);
            when!(zero, "sin, tan(+-0) is +-0", E::B(x));
        }
        "cos" => {
            when!(isinf, "cos(inf) is NaN", E::Nan);
            when!(zero, "cos(0) is 1", E::B(one));
        }
        "asin" => {
            when!(m > one, "asin outside of [-1,1] is NaN", E::Nan);
            when!(zero, "asin(+-0) is +-0", E::B(x));
            when!(m == one, "asin(+-1) is +-pi/2", E::Near(fl(ty, std::f64::consts::FRAC_PI_2) | sx));
        }
        "acos" => {
            when!(m > one, "acos outside of [-1,1] is NaN", E::Nan);
            when!(x == one, "acos(1) is +0", E::B(0));
        }
        "atan" => {
            when!(zero, "atan(+-0) is +-0", E::B(x));
            when!(isinf, "atan(+-inf) is +-pi/2", E::Near(fl(ty, std::f64::consts::FRAC_PI_2) | sx));
        }
        "acosh" => {
            when!(x == one, "acosh(1) is +0", E::B(0));
            when!(neg || m < one, "acosh below 1 is NaN", E::Nan);
            when!(isinf, "acosh(inf) is inf", E::B(inf));
        }
        "asinh" | "sinh" | "cbrt" => {
            when!(zero || isinf, "odd function keeps +-0 and +-inf", E::B(x));
        }
        "atanh" => {
            when!(zero, "atanh(+-0) is +-0", E::B(x));
            when!(m == one, "atanh(+-1) is +-inf", E::B(inf | sx));
            when!(m > one, "atanh outside of [-1,1] is NaN", E::Nan);
        }
        "cosh" => {
            when!(zero, "cosh(0) is 1", E::B(one));
            when!(isinf, "cosh(+-inf) is inf", E::B(inf));
        }
        "tanh" | "erf" => {
            when!(zero, "tanh, erf(+-0) is +-0", E::B(x));
            when!(isinf, "tanh, erf(+-inf) is +-1", E::B(one | sx));
        }
        "erfc" => {
            when!(zero, "erfc(0) is 1", E::B(one));
            when!(isinf, "erfc(inf) is +0, erfc(-inf) is 2", if neg { nearest(2.0) } else { E::B(0) });
        }
        "exp" | "exp2" | "exp10" => {
            when!(zero, "exp(0) is 1", E::B(one));
            when!(isinf, "exp(inf) is inf, exp(-inf) is +0", E::B(if neg { 0 } else { inf }));
            if b == "exp2" && is_int(x) {
                let n = int_value(ty, x);
                match n {
                    Some(n) if n >= -(bias(ty) - 1) && n <= bias(ty) => r!("exp2 of an integer is the power of two", E::B(((n + bias(ty)) as u128) << ty.sig())),
                    Some(n) if n < 0 && n >= 1 - bias(ty) - ty.sig() as i64 => r!("exp2 of an integer is the power of two", E::B(1u128 << (n - (1 - bias(ty) - ty.sig() as i64)))),
                    _ => {}
                }
            }
            let lim = if ty == F32 { [129.0, -160.0, 89.0, -110.0, 39.0, -50.0] } else { [1025.0, -1100.0, 710.0, -760.0, 309.0, -330.0] };
            let v = as64(ty, x);
            let k = match b { "exp2" => 0, "exp" => 2, _ => 4 };
            when!(v > lim[k], "exponentials overflow to inf", E::B(inf));
            when!(v < lim[k + 1], "exponentials underflow to +0", E::B(0));
        }
        "expm1" => {
            when!(zero, "expm1(+-0) is +-0", E::B(x));
            when!(isinf, "expm1(inf) is inf, expm1(-inf) is -1", E::B(if neg { one | s } else { inf }));
            when!(as64(ty, x) > 710.0, "exponentials overflow to inf", E::B(inf));
        }
        "log" | "log2" | "log10" => {
            when!(zero, "log(+-0) is -inf", E::B(inf | s));
            when!(neg, "log of a negative number is NaN", E::Nan);
            when!(x == one, "log(1) is +0", E::B(0));
            when!(isinf, "log(inf) is inf", E::B(inf));
            if b == "log2" && x & ((1 << ty.sig()) - 1) == 0 {
                r!("log2 of a power of two is the exponent", E::B(fl(ty, ((x >> ty.sig()) as i64 - bias(ty)) as f64)));
            }
        }
        "log1p" => {
            when!(zero, "log1p(+-0) is +-0", E::B(x));
            when!(neg && m == one, "log1p(-1) is -inf", E::B(inf | s));
            when!(neg && m > one, "log1p below -1 is NaN", E::Nan);
            when!(isinf, "log1p(inf) is inf", E::B(inf));
        }
        "tgamma" => {
            when!(zero, "tgamma(+-0) is +-inf", E::B(inf | sx));
            when!(isinf && !neg, "tgamma(inf) is inf", E::B(inf));
            when!(isinf, "tgamma(-inf) is NaN", E::Nan);
            when!(neg && is_int(x), "tgamma of a negative integer is NaN", E::Nan);
            let v = as64(ty, x);
            when!(v > 172.0, "tgamma overflows to inf", E::B(inf));
            if v > 0.0 { if let Some(n) = int_value(ty, x) { if n <= (if ty == F32 { 13 } else { 23 }) { // exact factorials
                let mut p = 1f64; for k in 2..n { p *= k as f64; }
                r!("tgamma of a small integer is the factorial", nearest(p));
            } } }
        }
        "lgamma" | "lgamma_r" => {
            let sg = |v: i32| if f.res.len() > 1 { E::B(oi(v)) } else { E::Any };
            when!(isinf, "lgamma(+-inf) is inf", E::B(inf), if neg { E::Any } else { sg(1) });
            when!(zero, "lgamma(+-0) is inf", E::B(inf), if neg { sg(-1) } else { sg(1) });
            when!(neg && is_int(x), "lgamma at a pole is inf", E::B(inf));
            let v = as64(ty, x);
            when!(v == 1.0 || v == 2.0, "lgamma(1), lgamma(2) is +0", E::B(0), sg(1));
            if f.res.len() > 1 {
                when!(!neg, "the sign of gamma is + for positive arguments", E::Any, sg(1));
                // floor(x) odd <=> gamma negative
                let (mm, e) = decode(ty, x);
                let fl_ = if e >= 0 { return None } else if e > -128 { mm >> (-e) as u32 } else { 0 };
                r!("the sign of gamma alternates between its poles", E::Any, sg(if fl_ & 1 == 0 { -1 } else { 1 }));
            }
        }
        "j0" => {
            when!(zero, "j0(0) is 1", E::B(one));
            when!(isinf, "j0, j1(+-inf) is 0", E::Zero);
        }
        "j1" => {
            when!(zero, "j1(+-0) is +-0", E::B(x));
            when!(isinf, "j0, j1(+-inf) is 0", E::Zero);
        }
        "y0" | "y1" => {
            when!(zero, "y0, y1(0) is -inf", E::B(inf | s));
            when!(neg, "y0, y1 of a negative number is NaN", E::Nan);
            when!(isinf, "y0, y1(inf) is 0", E::Zero);
        }
        "jn" => {
            when!(nan, "jn, yn of NaN is NaN", E::Nan);
            when!(isinf, "jn(+-inf) is 0", E::Zero);
            when!(zero, "jn(n, 0) is 1 for n = 0, else 0", if y as u32 == 0 { E::B(one) } else { E::Zero });
        }
        "yn" => {
            when!(nan, "jn, yn of NaN is NaN", E::Nan);
            let n = y as u32 as i32;
            when!(zero, "yn(n, 0) is infinite", E::B(if n < 0 && n & 1 == 1 { inf } else { inf | s }));
            when!(neg, "yn of a negative number is NaN", E::Nan);
            when!(isinf, "yn(inf) is 0", E::Zero);
        }
        "atan2" => {
            let (yv, xv) = (x, y);
            when!(ty.is_nan(yv) || ty.is_nan(xv), "NaN argument gives NaN", E::Nan);
            let sy = yv & s;
            let pi = std::f64::consts::PI;
            let q = |v: f64| E::Near(fl(ty, v) | sy);
            if is_zero(ty, yv) {
                if is_neg(ty, xv) { r!("atan2(+-0, negative or -0) is +-pi", q(pi)); } else { r!("atan2(+-0, positive or +0) is +-0", E::B(yv)); }
            }
            when!(is_zero(ty, xv), "atan2(y, +-0) is +-pi/2", q(pi / 2.0));
            if is_inf(ty, yv) {
                if is_inf(ty, xv) { if is_neg(ty, xv) { r!("atan2(+-inf, -inf) is +-3pi/4", q(2.356194490192345)); } else { r!("atan2(+-inf, inf) is +-pi/4", q(pi / 4.0)); } }
                r!("atan2(+-inf, finite) is +-pi/2", q(pi / 2.0));
            }
            if is_inf(ty, xv) {
                if is_neg(ty, xv) { r!("atan2(+-finite, -inf) is +-pi", q(pi)); } else { r!("atan2(+-finite, inf) is +-0", E::B(sy)); }
            }
        }
        "hypot" => {
            when!(isinf || is_inf(ty, y), "hypot of an infinity is inf, even with NaN", E::B(inf));
            when!(nan || ty.is_nan(y), "NaN argument gives NaN", E::Nan);
            when!(zero, "hypot(x, +-0) is |x|", E::B(mag(ty, y)));
            when!(is_zero(ty, y), "hypot(x, +-0) is |x|", E::B(m));
        }
        "pow" => {
            when!(is_zero(ty, y), "pow(x, +-0) is 1, even for NaN", E::B(one));
            when!(x == one, "pow(1, y) is 1, even for NaN", E::B(one));
            when!(nan || ty.is_nan(y), "NaN argument gives NaN", E::Nan);
            let (yi, yo) = (is_int(y), odd_integer(y));
            let yneg = is_neg(ty, y);
            if zero {
                if yneg { r!("pow(+-0, negative) is inf with the sign of the zero for odd integers", E::B(if yo { inf | sx } else { inf })); }
                r!("pow(+-0, positive) is 0 with its sign for odd integers", E::B(if yo { sx } else { 0 }));
            }
            if is_inf(ty, y) {
                match m.cmp(&one) {
                    Equal => r!("pow(-1, +-inf) is 1", E::B(one)),
                    Less => r!("pow(|x|<1, +-inf) is +0 or inf", E::B(if yneg { inf } else { 0 })),
                    Greater => r!("pow(|x|>1, +-inf) is inf or +0", E::B(if yneg { 0 } else { inf })),
                }
            }
            if isinf {
                let sg = if neg && yo { s } else { 0 };
                r!("pow(+-inf, y) is inf or 0 with the sign for odd integers", E::B(sg | if yneg { 0 } else { inf }));
            }
            when!(neg && !yi, "pow(negative, non-integer) is NaN", E::Nan);
            when!(neg && m == one, "pow(-1, integer) is +-1", E::B(if yo { one | s } else { one }));
            when!(y == one, "pow(x, 1) is x", E::B(x));
        }
        _ => {}
    }
    None
}

fn as64(ty: Ty, v: u128) -> f64 { if ty == F32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }

/// Values with special roles.
pub fn special_values(ty: Ty) -> Vec<u128> {
    let one = (bias(ty) as u128) << ty.sig();
    let inf = ty.exp_mask();
    let sig = ty.sig();
    let mut v = vec![0, 1, 2, (1 << sig) - 1, 1 << sig, (1 << sig) + 1, one - 1, one, one + 1, inf - 1, inf, inf - 2,
        inf | 1 << (sig - 1), inf | ((1 << sig) - 1), inf | 1, inf | 1 << (sig - 1) | 3];
    for x in [0.25, 0.5, 0.75, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 7.0, 8.0, 9.5, 10.0, 11.0, 12.0, 13.0, 16.0, 22.0, 23.0, 33.0, 34.0, 64.0, 88.0, 89.0, 104.0, 127.0, 128.0, 150.0, 170.0, 172.0, 700.0, 711.0, 750.0, 1022.0, 1023.0, 1024.0, 1025.0, 1074.0, 1075.0, 1e6, 16777215.0, 16777216.0, 16777217.0, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0] {
        let b = fl(ty, x);
        v.push(b);
    }
    // around the width of the significand: last odd integers, first even ones
    for k in [sig - 1, sig, sig + 1, sig + 2] {
        let p = one + ((k as u128) << sig);
        v.extend([p - 1, p, p + 1, p + 2, p + 3]);
    }
    v.sort();
    v.dedup();
    v.retain(|b| *b < ty.sign_bit());
    let n: Vec<u128> = v.iter().map(|b| b | ty.sign_bit()).collect();
    v.extend(n);
    v
}

struct Seen(Mutex<BTreeMap<(&'static str, &'static str), u64>>);

pub fn check(m: &Mon, src: &Source) {
    m.rule("Every call to which a rule of the Annex F table applies is one case: the rule decides the sign, the class or the exact value of each result. The cross product of the special values (zeros, infinities, NaNs, +-1 and neighbours, integers, largest, smallest, subnormal, thresholds) runs for two- and three-argument functions; other arguments are random. All seven builds are observed.");
    let libs = crate::builds();
    let tabs: Vec<Vec<Func>> = libs.iter().map(|l| l.funcs()).collect();
    let args = Args::new(src, &tabs[0]);
    let seen = Seen(Mutex::default());
    let total = AtomicU64::new(0);
    let one = |fi: usize, a: &[u128; 3], loc: &mut BTreeMap<&'static str, u64>| -> bool {
        let f0 = &tabs[0][fi];
        let Some((why, e0, e1)) = rule(f0, a) else { return false };
        cur(f0, a);
        for (bi, tab) in tabs.iter().enumerate() {
            let o = tab[fi].run(a);
            let b = base(f0.name);
            let ok = match (why, e0, e1) {
                ("exact definition", E::B(w0), w1) => {
                    let w = Out(w0, if let E::B(v) = w1 { v } else if f0.res.len() > 1 { u128::MAX } else { slow(b, f0.res[0], a).map_or(0, |o| o.1) });
                    agrees(b, f0, &o, &w)
                }
                _ => e0.ok(f0.res[0], o.0) && (f0.res.len() < 2 || e1.ok(f0.res[1], o.1)),
            };
            if !ok {
                let w = if f0.res.len() > 1 { format!("{}, {}", e0.show(f0.res[0]), e1.show(f0.res[1])) } else { e0.show(f0.res[0]) };
                m.violation(f0, libs[bi].name, a, format!("got {}, want {w} ({why})", f0.show_out(&o)));
            }
        }
        *loc.entry(why).or_default() += 1;
        true
    };
    let n: u64 = if m.thorough { 60_000_000 } else { 1_200_000 };
    let per = 4096u64;
    // (function, chunk); chunk 0 is the cross product
    let mut jobs = vec![];
    for (fi, f) in tabs[0].iter().enumerate() {
        for c in 0..=(n / weight(f)).div_ceil(per) { jobs.push((fi, c)); }
    }
    let exact: fn(&str) -> bool = |b| matches!(b, "ceil" | "floor" | "trunc" | "round" | "rint" | "roundeven" | "fmod" | "remainder" | "remquo" | "fma" | "scalbn" | "ldexp");
    par(tabs[0].len(), |fi| {
        let f = &tabs[0][fi];
        if exact(base(f.name)) { return; }
        let (mut loc, mut cnt) = (BTreeMap::new(), 0u64);
        for a in crate::guided::guided(m, f) {
            if m.too_many() { return; }
            if one(fi, &a, &mut loc) { cnt += 1; m.seen(tag(f.name), a[0], a[1], a[2]); }
        }
        total.fetch_add(cnt, Relaxed);
        m.evals(cnt * tabs.len() as u64);
        let mut s = seen.0.lock().unwrap();
        for (k, v) in loc { *s.entry((base(f.name), k)).or_default() += v; }
    });
    par(jobs.len(), |ji| {
        if m.too_many() { return; }
        let (fi, c) = jobs[ji];
        let f = &tabs[0][fi];
        let b = base(f.name);
        let t = tag(f.name);
        let mut loc = BTreeMap::new();
        let mut cnt = 0u64;
        let ty = *f.args.iter().find(|t| **t != I32).unwrap();
        let sp = special_values(ty);
        let mut g = args.generator(f, Rng::new(m.seed ^ t ^ 0xc13, c));
        if c == 0 {
            let pick: Vec<u128> = sp.clone();
            let ints: Vec<u128> = [0, 1, -1, 2, -2, 3, -3, 7, 30, -31, 127, 128, -149, 1023, -1074, i32::MAX, i32::MIN].iter().map(|i| *i as u32 as u128).collect();
            let bints: Vec<u128> = ints.iter().copied().filter(|i| (*i as u32 as i32).unsigned_abs() < 200).collect();
            let dom = |i: usize| -> &Vec<u128> { if i >= f.args.len() { return &ints } if f.args[i] == I32 { if is_bessel_n(f) { &bints } else { &ints } } else { &pick } };
            let lens: Vec<usize> = (0..3).map(|i| if i < f.args.len() { dom(i).len() } else { 1 }).collect();
            let step = if f.args.len() == 3 { 7 } else { 1 };
            for (k, i) in (0..lens[0]).enumerate() { for j in 0..lens[1] {
                let mut l = if step > 1 { (k + j) % step } else { 0 };
                while l < lens[2] {
                    let a = [dom(0)[i], if f.args.len() > 1 { dom(1)[j] } else { 0 }, if f.args.len() > 2 { dom(2)[l] } else { 0 }];
                    m.seen(t, a[0], a[1], a[2]);
                    if one(fi, &a, &mut loc) { cnt += 1; }
                    l += step;
                }
            } }
        } else {
            // exact functions have complete checks of their own; here only special arguments count
            for _ in 0..(if exact(b) { per / 8 } else { per }) {
                let mut a = tuple(f, &mut g, 60);
                if f.args.len() > 1 || g.r.below(4) == 0 {
                    let k = g.r.below(f.args.len() as u64) as usize;
                    if f.args[k] != I32 {
                        a[k] = match g.r.below(6) { 0 => { let k = g.r.below(ty.sig() as u64); (ty.exp_mask() | 1 << k | g.r.u128() & ((1 << ty.sig()) - 1)) | (g.r.u64() as u128 & 1) * ty.sign_bit() } _ => *g.r.pick(&sp) };
                    }
                } else if f.args.len() == 1 && g.r.below(3) == 0 {
                    // integers and powers of two
                    let v = match g.r.below(3) { 0 => (g.r.range(-2000, 2000)) as f64, 1 => (g.r.u64() >> g.r.below(64)) as f64, _ => -((g.r.u64() >> g.r.below(64)) as f64) };
                    a[0] = fl(ty, v);
                    if g.r.below(3) == 0 { a[0] &= !((1u128 << ty.sig()) - 1); }
                }
                if one(fi, &a, &mut loc) { cnt += 1; m.seen(t, a[0], a[1], a[2]); }
            }
        }
        total.fetch_add(cnt, Relaxed);
        m.evals(cnt * tabs.len() as u64);
        let mut s = seen.0.lock().unwrap();
        for (k, v) in loc { *s.entry((b, k)).or_default() += v; }
    });
    let s = seen.0.lock().unwrap();
    m.stat("functions_with_rules", s.keys().map(|k| k.0).collect::<std::collections::BTreeSet<_>>().len().to_string());
    m.stat("rules_exercised", format!("{{{}}}", s.iter().map(|((f, r), n)| format!("{}: {n}", json_str(&format!("{f}: {r}")))).collect::<Vec<_>>().join(",\n    ")));
    m.stat("cases", total.load(Relaxed).to_string());
    for (i, ((f, r), n)) in s.iter().enumerate() { if i % (s.len() / 12).max(1) == 0 { m.sample(format!("{f}: {r} ({n} cases)")); } }
}
