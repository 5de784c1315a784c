//! C17: relations between results that hold bit for bit: symmetries, definitions of one function
//! through another, agreement between widths, and ranges.
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use crate::common::*;
use crate::exact::*;
use crate::gen_::*;
use crate::lib_table::Ty::*;
use crate::lib_table::*;
use crate::mon::*;

pub fn fname(b: &str, ty: Ty) -> String {
    if b == "lgamma_r" { return if ty == F32 { "lgammaf_r".into() } else { b.into() }; }
    format!("{b}{}", match ty { F16 => "f16", F32 => "f", F128 => "f128", _ => "" })
}

/// Exact conversions between widths (used only where they are exact).
fn widen(from: Ty, to: Ty, v: u128) -> u128 {
    macro_rules! go { ($x:expr) => { match to { F16 => ($x as f16).to_bits() as u128, F32 => ($x as f32).to_bits() as u128, F64 => ($x as f64).to_bits() as u128, _ => ($x as f128).to_bits() } } }
    match from { F16 => go!(f16::from_bits(v as u16)), F32 => go!(f32::from_bits(v as u32)), F64 => go!(f64::from_bits(v as u64)), _ => go!(f128::from_bits(v)) }
}

struct Ctx<'a> { m: &'a Mon, lib: &'static Lib, map: BTreeMap<&'static str, Func>, count: Mutex<BTreeMap<String, u64>>, n: AtomicU64, }

impl Ctx<'_> {
    fn f(&self, b: &str, ty: Ty) -> Option<Func> { self.map.get(fname(b, ty).as_str()).copied() }
    fn bad(&self, f: &Func, a: &[u128; 3], text: String) { self.m.violation(f, self.lib.name, a, text); }
}

fn eq(ty: Ty, a: u128, b: u128) -> bool { a == b || (ty.is_nan(a) && ty.is_nan(b)) }

/// `-f(args)` is demanded to equal `g(args')`.
fn relate(c: &Ctx, what: &str, f: &Func, a: [u128; 3], fneg: bool, g: &Func, b: [u128; 3], loose_zero: bool) {
    cur(f, &a);
    let (o, p) = (f.run(&a), g.run(&b));
    let ty = f.res[0];
    let s = if fneg { ty.sign_bit() } else { 0 };
    let l = o.0 ^ s;
    if eq(ty, l, p.0) || loose_zero && is_zero(ty, l) && is_zero(ty, p.0) { return; }
    c.bad(f, &a, format!("{what}: got {}, but {}({}) is {}", ty.show(o.0), g.name, g.show_in(&b), ty.show(p.0)));
}

const ODD: &[&str] = &["sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "cbrt", "erf", "trunc", "round", "rint", "roundeven", "j1"];
const EVEN: &[&str] = &["cos", "cosh", "j0", "fabs"];
const WIDTHS: &[&str] = &["ceil", "floor", "trunc", "round", "rint", "roundeven", "fabs", "fmod", "fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num", "copysign", "remainder"];

/// One argument in, all relations of one argument checked.
fn unary(c: &Ctx, b: &str, f: &Func, x: u128) {
    let ty = f.args[0];
    let s = ty.sign_bit();
    let a = [x, 0, 0];
    let na = [x ^ s, 0, 0];
    let m = c.m;
    if ODD.contains(&b) { relate(c, "odd symmetry", f, a, true, f, na, b == "j1" && is_inf(ty, x)); }
    if EVEN.contains(&b) { relate(c, "even symmetry", f, a, false, f, na, false); }
    match b {
        "ceil" => relate(c, "ceil(x) = -floor(-x)", f, a, true, &c.f("floor", ty).unwrap(), na, false),
        "rint" => relate(c, "rint(x) = roundeven(x)", f, a, false, &c.f("roundeven", ty).unwrap(), a, false),
        "trunc" => {
            let g = c.f(if is_neg(ty, x) { "ceil" } else { "floor" }, ty).unwrap();
            relate(c, "trunc(x) = floor(x) or ceil(x) by sign", f, a, false, &g, a, false);
            if let Some(mf) = c.f("modf", ty) {
                let (o, t) = (mf.run(&a), f.run(&a).0);
                if !eq(ty, o.1, t) { c.bad(&mf, &a, format!("modf integral part {} but trunc {}", ty.show(o.1), ty.show(t))); }
            }
        }
        "sin" | "cos" => {
            let sc = c.f("sincos", ty).unwrap();
            let (o, v) = (sc.run(&a), f.run(&a).0);
            let p = if b == "sin" { o.0 } else { o.1 };
            if !eq(ty, p, v) { c.bad(&sc, &a, format!("sincos gives {} but {b} gives {}", ty.show(p), ty.show(v))); }
        }
        "lgamma" => relate(c, "lgamma(x) = lgamma_r(x).0", f, a, false, &c.f("lgamma_r", ty).unwrap(), a, false),
        "frexp" if is_fin(ty, x) => {
            let o = f.run(&a);
            let back = c.f("ldexp", ty).unwrap().run(&[o.0, o.1, 0]).0;
            if back != x { c.bad(f, &a, format!("frexp gives {}, which ldexp turns into {}", f.show_out(&o), ty.show(back))); }
        }
        "ilogb" if is_fin(ty, x) && !is_zero(ty, x) => {
            let (e, l) = (c.f("frexp", ty).unwrap().run(&a).1 as u32 as i32, f.run(&a).0 as u32 as i32);
            if e != l + 1 { c.bad(f, &a, format!("ilogb {l}, frexp exponent {e}")); }
        }
        _ => {}
    }
    // ranges
    let v = f.run(&a).0;
    if f.res[0] == ty && !ty.is_nan(v) {
        let one = (bias(ty) as u128) << ty.sig();
        let mv = mag(ty, v);
        let pi = |d: f64, up: bool| -> u128 { // d rounded towards or above
            let r = if ty == F32 { os(d as f32) } else { od(d) }; if up { r + 1 } else { r } };
        let bad = match b {
            "sin" | "cos" | "tanh" | "erf" => mv > one,
            "j0" | "j1" => mv > one,
            "exp" | "exp2" | "exp10" | "erfc" | "acos" | "acosh" | "sqrt" => is_neg(ty, v) && !(b == "sqrt" && mv == 0),
            "cosh" => is_neg(ty, v) || mv < one,
            "asin" | "atan" => mv > pi(std::f64::consts::FRAC_PI_2, false),
            "expm1" => is_neg(ty, v) && mv > one,
            _ => false,
        } || (b == "acos" && mv > pi(std::f64::consts::PI, false))
          || (b == "erfc" && mv > one + (1 << ty.sig()));
        if bad { c.bad(f, &a, format!("result {} is outside of the range of {b}", ty.show(v))); }
    }
    m.evals(1);
}

fn binary(c: &Ctx, b: &str, f: &Func, x: u128, y: u128) {
    let ty = f.args[0];
    let s = ty.sign_bit();
    let a = [x, y, 0];
    match b {
        "hypot" => {
            relate(c, "hypot(x,y) = hypot(y,x)", f, a, false, f, [y, x, 0], false);
            relate(c, "hypot(x,y) = hypot(-x,y)", f, a, false, f, [x ^ s, y, 0], false);
            relate(c, "hypot(x,y) = hypot(x,-y)", f, a, false, f, [x, y ^ s, 0], false);
            let v = f.run(&a).0;
            if !ty.is_nan(v) && (mag(ty, v) < mag(ty, x).max(mag(ty, y)) && !ty.is_nan(x) && !ty.is_nan(y) || is_neg(ty, v)) { c.bad(f, &a, format!("hypot {} is smaller than a side", ty.show(v))); }
        }
        "atan2" => {
            relate(c, "atan2(y,x) = -atan2(-y,x)", f, a, true, f, [x ^ s, y, 0], false);
        }
        "fmod" | "remainder" => {
            relate(c, "remainder is odd in x", f, a, true, f, [x ^ s, y, 0], false);
            relate(c, "remainder is even in y", f, a, false, f, [x, y ^ s, 0], false);
            let v = f.run(&a).0;
            if !ty.is_nan(v) && !ty.is_nan(y) && mag(ty, v) > mag(ty, y) { c.bad(f, &a, format!("remainder {} is larger than the divisor", ty.show(v))); }
            if b == "remainder" {
                let q = c.f("remquo", ty).unwrap();
                relate(c, "remquo(x,y).0 = remainder(x,y)", &q, a, false, f, a, false);
                let (n1, n2) = (q.run(&a).1 as u32 as i32, q.run(&[x ^ s, y, 0]).1 as u32 as i32);
                if !ty.is_nan(v) && n1 & 7 != n2.wrapping_neg() & 7 { c.bad(&q, &a, format!("quotient bits {n1} and {n2} for x and -x")); }
            }
        }
        "fmin" => relate(c, "fmin(x,y) = -fmax(-x,-y)", f, a, true, &c.f("fmax", ty).unwrap(), [x ^ s, y ^ s, 0], true),
        "fminimum" => { relate(c, "fminimum(x,y) = -fmaximum(-x,-y)", f, a, true, &c.f("fmaximum", ty).unwrap(), [x ^ s, y ^ s, 0], false); relate(c, "commutes", f, a, false, f, [y, x, 0], false); }
        "fminimum_num" => { relate(c, "fminimum_num(x,y) = -fmaximum_num(-x,-y)", f, a, true, &c.f("fmaximum_num", ty).unwrap(), [x ^ s, y ^ s, 0], false); relate(c, "commutes", f, a, false, f, [y, x, 0], false); }
        "fmaximum" | "fmaximum_num" => relate(c, "commutes", f, a, false, f, [y, x, 0], false),
        "fmax" => relate(c, "commutes", f, a, false, f, [y, x, 0], true),
        "copysign" => {
            relate(c, "copysign(x,y) = -copysign(x,-y)", f, a, true, f, [x, y ^ s, 0], false);
        }
        "fdim" => {
            let (p, q) = (f.run(&a).0, f.run(&[y, x, 0]).0);
            if !ty.is_nan(p) && !is_zero(ty, p) && !is_zero(ty, q) { c.bad(f, &a, format!("fdim(x,y) = {} and fdim(y,x) = {}", ty.show(p), ty.show(q))); }
        }
        "nextafter" => {
            relate(c, "nextafter(x,y) = -nextafter(-x,-y)", f, a, true, f, [x ^ s, y ^ s, 0], false);
            let v = f.run(&a).0;
            if is_fin(ty, x) && !is_zero(ty, v) && is_fin(ty, v) && !ty.is_nan(y) {
                let back = f.run(&[v, x, 0]).0;
                if mag(ty, back) != mag(ty, x) { c.bad(f, &a, format!("the neighbour {} does not lead back: {}", ty.show(v), ty.show(back))); }
            }
        }
        "pow" => {
            if is_fin(ty, y) && !ty.is_nan(x) { // the sign of the base only matters through the parity of y
                let (p, q) = (f.run(&a).0, f.run(&[x ^ s, y, 0]).0);
                if !ty.is_nan(p) && !ty.is_nan(q) && mag(ty, p) != mag(ty, q) { c.bad(f, &a, format!("|pow| differs for x and -x: {} {}", ty.show(p), ty.show(q))); }
            }
        }
        _ => {}
    }
    c.m.evals(1);
}

fn ternary(c: &Ctx, f: &Func, a: [u128; 3]) {
    let ty = f.args[0];
    let s = ty.sign_bit();
    relate(c, "fma(x,y,z) = fma(y,x,z)", f, a, false, f, [a[1], a[0], a[2]], false);
    relate(c, "fma(x,y,z) = fma(-x,-y,z)", f, a, false, f, [a[0] ^ s, a[1] ^ s, a[2]], false);
    // an exactly cancelled sum is +0 for both signs
    relate(c, "fma(x,y,z) = -fma(-x,y,-z)", f, a, true, f, [a[0] ^ s, a[1], a[2] ^ s], true);
    let one = (bias(ty) as u128) << ty.sig();
    relate(c, "fma(x,1,-0) = x", f, [a[0], one, s], false, &c.f("copysign", ty).unwrap(), [a[0], a[0], 0], false);
    c.m.evals(1);
}

fn with_int(c: &Ctx, b: &str, f: &Func, a: [u128; 3]) {
    match b {
        "ldexp" => relate(c, "ldexp = scalbn", f, a, false, &c.f("scalbn", f.args[0]).unwrap(), a, false),
        "scalbn" => {
            relate(c, "scalbn is odd", f, a, true, f, [a[0] ^ f.args[0].sign_bit(), a[1], 0], false);
        }
        "jn" => {
            let ty = f.args[1];
            let n = a[0] as u32 as i32;
            let odd = n & 1 == 1;
            relate(c, "jn(n,-x) = (-1)^n jn(n,x)", f, a, odd, f, [a[0], a[1] ^ ty.sign_bit(), 0], true);
            if n != i32::MIN { relate(c, "jn(-n,x) = (-1)^n jn(n,x)", f, a, odd, f, [oi(-n), a[1], 0], true); }
            if n == 0 || n == 1 { relate(c, "jn(0 or 1,x) = j0, j1", f, a, false, &c.f(if n == 0 { "j0" } else { "j1" }, ty).unwrap(), [a[1], 0, 0], true); }
        }
        "yn" => {
            let ty = f.args[1];
            let n = a[0] as u32 as i32;
            if n != i32::MIN { relate(c, "yn(-n,x) = (-1)^n yn(n,x)", f, a, n & 1 == 1, f, [oi(-n), a[1], 0], true); }
            if n == 0 || n == 1 { relate(c, "yn(0 or 1,x) = y0, y1", f, a, false, &c.f(if n == 0 { "y0" } else { "y1" }, ty).unwrap(), [a[1], 0, 0], true); }
        }
        _ => {}
    }
    c.m.evals(1);
}

/// An operation on narrow operands gives the same result in any wider format.
fn widths(c: &Ctx, b: &str, f: &Func, a: [u128; 3]) {
    let ty = f.args[0];
    // sqrt and fma of narrow operands are not exact when wide; only exact operations here
    for w in [F32, F64, F128] {
        if w.bits() <= ty.bits() { continue; }
        let Some(g) = c.f(b, w) else { continue };
        let wa = [widen(ty, w, a[0]), if f.args.len() > 1 { widen(ty, w, a[1]) } else { 0 }, 0];
        let (o, p) = (f.run(&a).0, g.run(&wa).0);
        let up = widen(ty, w, o);
        let nan_in = ty.is_nan(a[0]) || f.args.len() > 1 && ty.is_nan(a[1]);
        let loose = matches!(b, "fmin" | "fmax") && (is_zero(w, p) || nan_in);
        // signaling NaNs are quieted by the conversion
        if nan_in && matches!(b, "fabs" | "copysign" | "fmin" | "fmax" | "fminimum_num" | "fmaximum_num") { continue; }
        if !eq(w, up, p) && !(loose && is_zero(w, up)) { c.bad(f, &a, format!("{} in this width, {} when computed by {}", ty.show(o), w.show(p), g.name)); }
        c.m.evals(1);
    }
}

pub fn check(m: &Mon, src: &Source) {
    m.rule("Each case is one argument tuple of one function on which every relation that involves the function is evaluated on the observed results: odd and even symmetry, commutativity, definitions through another function (sincos, lgamma, ldexp, rint, remquo, modf, ilogb, jn with n = 0, 1), agreement of exact operations between the four widths, and ranges. f32 one-argument functions run over strata of the whole domain.");
    let nmul = if m.thorough { 60 } else { 1 };
    let libs = crate::builds();
    for li in [0usize, 1, 2] {
        let lib = libs[li];
        let tab = lib.funcs();
        let args = Args::new(src, &tab);
        let c = Ctx { m, lib, map: tab.iter().map(|f| (f.name, *f)).collect(), count: Mutex::default(), n: 0.into() };
        let n: u64 = nmul * if li == 0 { 1_000_000 } else { 200_000 };
        let per = 4096u64;
        let mut jobs = vec![];
        for (fi, f) in tab.iter().enumerate() { for k in 0..(n / weight(f)).div_ceil(per) { jobs.push((fi, k)); } }
        par(jobs.len(), |ji| {
            if m.too_many() { return; }
            let (fi, k) = jobs[ji];
            let f = &tab[fi];
            let b = crate::oracle::base(f.name);
            let t = tag(f.name) ^ li as u64;
            let mut g = args.generator(f, Rng::new(m.seed ^ t ^ 0xc17, k));
            let found = if k == 0 && li < 2 { crate::guided::guided(m, f) } else { vec![] };
            for i in 0..per as usize + found.len() {
                let a = if i < found.len() { found[i] } else { tuple(f, &mut g, 60) };
                m.seen(t, a[0], a[1], a[2]);
                match f.args {
                    [_] => unary(&c, b, f, a[0]),
                    [x, y] if *x != I32 && *y != I32 => binary(&c, b, f, a[0], a[1]),
                    [_, _] => with_int(&c, b, f, a),
                    _ => ternary(&c, f, a),
                }
                if WIDTHS.contains(&b) { widths(&c, b, f, a); }
            }
            *c.count.lock().unwrap().entry(f.name.into()).or_default() += per + found.len() as u64;
            c.n.fetch_add(per + found.len() as u64, Relaxed);
        });
        m.stat(&format!("tuples per function, build {}", lib.name), format!("{:?}", c.count.lock().unwrap()));
        if li == 0 {
            // f32 strata
            let stride = if m.thorough { 4 } else { 1024 };
            let us: Vec<&Func> = tab.iter().filter(|f| f.args == [F32]).collect();
            let blk = 1u64 << 15;
            let nb = ((1u64 << 31) / stride).div_ceil(blk);
            par(us.len() * nb as usize, |j| {
                if m.too_many() { return; }
                let f = us[j / nb as usize];
                let b = crate::oracle::base(f.name);
                let lo = (j as u64 % nb) * blk;
                let mut r = Rng::new(m.seed ^ tag(f.name) ^ 3, lo);
                for k in lo..lo + blk {
                    // both signs are covered by the symmetry relations; take either for the rest
                    let x = (k * stride + r.below(stride)) as u32 as u128 | ((r.u64() & 1) as u128) << 31;
                    unary(&c, b, f, x);
                }
                m.enumerated(blk);
            });
            let mut r = Rng::new(m.seed, 5);
            for _ in 0..6 {
                let f = &tab[r.below(tab.len() as u64) as usize];
                let mut g = args.generator(f, r.clone());
                let a = tuple(f, &mut g, 50);
                m.sample(format!("{}({}) = {}", f.name, f.show_in(&a), f.show_out(&f.run(&a))));
            }
        }
    }
}
