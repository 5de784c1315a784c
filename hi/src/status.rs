use crate::gen_::*;
use crate::lib_table::Ty;
use crate::mon::*;
use crate::refs::*;
use L::support::{Round, Status};

fn ok(s: Status) -> bool { s == Status::OK }
/// None when the status is fine.
fn judge(s: Status, inexact: Option<bool>, invalid: bool) -> Option<String> {
    if invalid { return (s != Status::INVALID).then(|| format!("{s:?} where INVALID alone is due")); }
    let want = match inexact { Some(true) => s == Status::INEXACT, Some(false) => ok(s), None => ok(s) || s == Status::INEXACT };
    (!want).then(|| format!("{s:?} but inexact is {inexact:?} and nothing else may be raised"))
}

macro_rules! one { ($m:expr, $ty:expr, $f:ident, $x:expr) => {{
    let (m, ty, xb): (&Mon, Ty, u128) = ($m, $ty, $x);
    let x = <$f>::from_bits(xb as _);
    let nan = ty.is_nan(xb);
    let (r, frac) = integral(ty, xb);
    let snan = nan && xb & (1u128 << (ty.sig() - 1)) == 0;
    let mut bad = |name: &str, v: u128, s: Status, t: String| m.violation_misc(&format!("{name}<{}>", stringify!($f)), NAME, format!("{name}::<{}>({xb:#x}) = {v:#x}, {s:?} [build {NAME}]: {t}", stringify!($f)));
    let res = [
        ("floor_status", L::generic::floor_status::<$f>(x)), ("ceil_status", L::generic::ceil_status::<$f>(x)),
        ("trunc_status", L::generic::trunc_status::<$f>(x)), ("rint_round", L::generic::rint_round::<$f>(x, Round::Nearest)),
    ];
    for (i, (n, o)) in res.into_iter().enumerate() {
        let v = o.val.to_bits() as u128;
        if nan { if !ty.is_nan(v) { bad(n, v, o.status, "a NaN is due".into()); } }
        else if v != r[i] { bad(n, v, o.status, format!("{:#x} is due", r[i])); }
        // signaling NaNs may raise INVALID; rint need not report INEXACT
        if snan && o.status == Status::INVALID { continue; }
        if let Some(t) = judge(o.status, if n == "rint_round" && frac { None } else { Some(frac) }, false) { bad(n, v, o.status, t); }
    }
    m.evals(4);
    // sqrt: domain errors are INVALID
    let o = L::generic::sqrt_round::<$f>(x, Round::Nearest);
    let v = o.val.to_bits() as u128;
    let neg = !nan && xb & ty.sign_bit() != 0 && xb != ty.sign_bit();
    if nan || neg {
        if !ty.is_nan(v) { bad("sqrt_round", v, o.status, "a NaN is due".into()); }
        if neg { if let Some(t) = judge(o.status, None, true) { bad("sqrt_round", v, o.status, t); } }
        else if !ok(o.status) && o.status != Status::INVALID { bad("sqrt_round", v, o.status, "NaN".into()); }
    } else {
        // an inexact result may be reported or not, an exact one must not
        let sq = |b: u128| -> bool { // exact root?
            if b & !ty.sign_bit() == 0 || b == ty.exp_mask() { return true; }
            let sig = ty.sig();
            let e = b >> sig;
            let mut mm = (b & ((1 << sig) - 1)) | if e == 0 { 0 } else { 1 << sig };
            let mut ex = if e == 0 { 1 } else { e as i64 } - bias(ty) - sig as i64;
            let tz = mm.trailing_zeros(); mm >>= tz; ex += tz as i64;
            if ex & 1 != 0 { mm <<= 1; }
            let r = rug::Integer::from(mm).sqrt();
            r.square() == mm
        };
        let t = if !ok(o.status) && sq(xb) { judge(o.status, Some(false), false) } else { judge(o.status, None, false) };
        if let Some(t) = t { bad("sqrt_round", v, o.status, t); }
        // the root is right: it agrees with the integer square root
        if xb != 0 && xb != ty.sign_bit() && xb != ty.exp_mask() {
            let sig = ty.sig();
            let e = xb >> sig;
            let mut mm = (xb & ((1 << sig) - 1)) | if e == 0 { 0 } else { 1 << sig };
            let mut ex = if e == 0 { 1 } else { e as i64 } - bias(ty) - sig as i64;
            let lz = mm.leading_zeros() as i64 - (127 - sig as i64); mm <<= lz; ex -= lz;
            if (ex - sig as i64) & 1 != 0 { mm <<= 1; ex -= 1; }
            // root of mm * 2^(sig+2), one bit more than the significand, plus sticky
            let (r, rem) = (rug::Integer::from(mm) << (sig + 2)).sqrt_rem(rug::Integer::new());
            let mut q = r.to_u128().unwrap();
            let up = (q & 1 == 1) && (rem != 0 || q & 2 == 2);
            q = (q >> 1) + up as u128;
            let ex = (ex - sig as i64 - 2) / 2 + 1;
            let want = (((ex + sig as i64 + bias(ty) - 1) as u128) << sig) + q;
            if v != want { bad("sqrt_round", v, o.status, format!("{want:#x} is due")); }
        } else if v != xb { bad("sqrt_round", v, o.status, "the argument is due".into()); }
    }
    m.evals(1);
}}; }

pub fn status(m: &'static Mon) {
    m.rule("Each case is one bit pattern of one width, on which floor_status, ceil_status, trunc_status, rint_round and sqrt_round run (release and checked builds). Value and status are compared with integer arithmetic on the bits: INEXACT exactly when a fraction was dropped, INVALID exactly for the root of a negative number, nothing else ever. f16: every pattern; f32: one random pattern per stratum (thorough: every pattern); f64, f128: generated. Non-trivial: every case.");
    // five flags, none of them implied by another, and set one by one
    let flags = [("OK", Status::OK), ("INVALID", Status::INVALID), ("DIVIDE_BY_ZERO", Status::DIVIDE_BY_ZERO), ("OVERFLOW", Status::OVERFLOW), ("UNDERFLOW", Status::UNDERFLOW), ("INEXACT", Status::INEXACT)];
    for (i, (a, x)) in flags.iter().enumerate() {
        let bad = |t: String| m.violation_misc("Status", NAME, format!("{t} [build {NAME}]"));
        for (b, y) in &flags[..i] { if x == y { bad(format!("{a} and {b} are the same")); } }
        if (x.underflow(), x.overflow(), x.inexact()) != (*a == "UNDERFLOW", *a == "OVERFLOW", *a == "INEXACT") { bad(format!("{a}: underflow {}, overflow {}, inexact {}", x.underflow(), x.overflow(), x.inexact())); }
        for u in [false, true, false] { for v in [true, false, true] {
            let mut s = *x;
            s.set_underflow(u); s.set_inexact(v);
            if (s.underflow(), s.inexact(), s.overflow()) != (u, v, *a == "OVERFLOW") { bad(format!("{a} with underflow {u} and inexact {v} gives {s:?}")); }
            let mut o = s;
            o.set_underflow(false); o.set_inexact(false);
            let mut w = *x;
            w.set_inexact(false); w.set_underflow(false);
            if o != w { bad(format!("setting and clearing flags of {a} leaves {o:?}, not {w:?}")); }
            m.evals(1);
        } }
    }
    par(65536 / 256, |c| for x in c * 256..(c + 1) * 256 { one!(m, Ty::F16, f16, x as u128); });
    m.enumerated(if NAME == "default" { 65536 } else { 0 });
    let step: u64 = if m.thorough { if CHECKED { 16 } else { 1 } } else { 512 };
    par(4096, |c| {
        let mut r = Rng::new(m.seed ^ 0xc19, c as u64);
        let per = (1u64 << 32) / 4096;
        let mut i = 0;
        while i < per {
            let x = c as u64 * per + i + r.below(step);
            one!(m, Ty::F32, f32, x as u128);
            i += step;
        }
    });
    if NAME == "default" { m.enumerated((1u64 << 32) / step); }
    let n: usize = if m.thorough { 200_000_000 } else { 4_000_000 };
    for ty in [Ty::F64, Ty::F128] {
        let w = if ty == Ty::F64 { "" } else { "f128" };
        let xs: Vec<u128> = ["ceil", "floor", "trunc", "rint", "sqrt"].iter().flat_map(|b| crate::guided::named(m, &format!("{b}{w}"), &[ty])).map(|t| t[0]).collect();
        let cs: Vec<&[u128]> = xs.chunks(1024).collect();
        par(cs.len(), |c| for &x in cs[c] {
            if ty == Ty::F64 { one!(m, ty, f64, x) } else { one!(m, ty, f128, x) }
            m.seen(ty.bits() as u64, x, 0, 0);
        });
        par(n / 4096, |c| {
            let mut g = Gen::new(Rng::new(m.seed ^ 0xc1900 ^ ty.bits() as u64, c as u64), ty, Default::default());
            let mut last = 0;
            for _ in 0..4096 {
                let x = g.bits();
                last = x;
                if ty == Ty::F64 { one!(m, ty, f64, x) } else { one!(m, ty, f128, x) }
                m.seen(ty.bits() as u64, x, 0, 0);
            }
            if c == 0 { m.sample(format!("{} {:#x}", NAME, last)); }
        });
    }
}
