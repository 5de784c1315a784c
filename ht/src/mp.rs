//! C23: the multiple-precision oracle, the validator and the tolerances that the project's own
//! tests rely on. The oracle's results are compared with exact integer arithmetic, or with MPFR
//! through an independent conversion; the validator's verdicts with a model of its rules.
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use libm_test::generate::case_list;
use libm_test::mpfloat::MpOp;
use libm_test::{CheckBasis, CheckCtx, CheckOutput, GeneratorKind, Identifier};

use crate::common::*;
use crate::conv::*;
use crate::exact::*;
use crate::gen_::*;
use crate::lib_table::*;
use crate::mon::*;
use crate::ops::Ctx;
use crate::oracle::*;

/// Result the oracle has to return, None where it is not specified.
pub fn expected(f: &Func, a: &[u128; 3]) -> Option<Out> {
    let b = base(f.name);
    let ty = *f.args.iter().find(|t| **t != Ty::I32).unwrap();
    let x = a[0];
    match b {
        "nextafter" => None,
        "copysign" if ty.is_nan(a[1]) => None,
        "jn" | "yn" => {
            let n = a[0] as u32 as i32;
            // negative zero and infinity: the sign of a zero result is a convention
            if is_neg(ty, a[1]) && !is_fin(ty, a[1]) { return None; }
            Some(Out(mp_jn(b == "yn", ty, n, a[1]), 0))
        }
        "sincos" => Some(Out(mp_u("sin", ty, x)?, mp_u("cos", ty, x)?)),
        // the oracle uses log(gamma(x)) here, which has no value where gamma is negative
        "lgamma" => if is_neg(ty, x) { None } else { Some(Out(mp_u("lgamma", ty, x)?, 0)) },
        "lgamma_r" => {
            let v = mp_u("lgamma", ty, x)?;
            let s = if ty.is_nan(x) || is_inf(ty, x) { return Some(Out(v, u128::MAX)) }
                else if !is_neg(ty, x) { 1 }
                else if is_zero(ty, x) { -1 }
                else {
                    let i = slow("floor", ty, a)?.0;
                    if i == x { return Some(Out(v, u128::MAX)); }
                    let (m, e) = decode(ty, i);
                    let odd = if e >= 0 { false } else if e > -128 { m >> -e & 1 == 1 } else { false };
                    let odd = if e == 0 { m & 1 == 1 } else { odd };
                    if odd { -1 } else { 1 }
                };
            Some(Out(v, oi(s)))
        }
        "tgamma" if is_neg(ty, x) && slow("floor", ty, a)?.0 == x => None,
        _ => slow(b, ty, a).or_else(|| if f.args.len() == 2 { mp_b(b, ty, a[0], a[1]) } else { mp_u(b, ty, x) }.map(|v| Out(v, 0))),
    }
}

pub fn same(f: &Func, got: &Out, want: &Out) -> bool {
    let b = base(f.name);
    let eq = |t: Ty, g: u128, w: u128| g == w || (t != Ty::I32 && t.is_nan(g) && t.is_nan(w));
    let ty = f.res[0];
    let first = eq(ty, got.0, want.0)
        || (matches!(b, "fmin" | "fmax") && is_zero(ty, want.0) && is_zero(ty, want.1) && is_zero(ty, got.0));
    first && (f.res.len() < 2 || want.1 == u128::MAX || eq(f.res[1], got.1, want.1))
}

fn cost(f: &Func) -> u64 {
    let b = base(f.name);
    let w = match b {
        "tgamma" | "lgamma" | "lgamma_r" => 40,
        "yn" => 900,
        "jn" | "y0" | "y1" | "j0" | "j1" => 60,
        "erfc" | "erf" => 20,
        "fmod" | "remainder" | "remquo" => if f.args[0] == Ty::F128 { 60 } else { 4 },
        "sin" | "cos" | "tan" | "sincos" | "pow" => 3,
        _ => 1,
    };
    w * if f.args[0] == Ty::F128 { 2 } else { 1 }
}


pub fn run<O: MpOp>(c: &Ctx) where O::RustArgs: Tup, O::RustRet: Ret {
    let f = c.f;
    let b = base(f.name);
    if b == "nextafter" { return; }
    let args = crate::common::Args::new(c.src, &[f]);
    let n = c.n / cost(&f);
    let chunks = 16;
    let decided = AtomicU64::new(0);
    let classes: [AtomicU64; 5] = Default::default();
    par(chunks, |k| {
        let mut g = args.generator(&f, Rng::new(c.m.seed, tag(f.name) ^ (k as u64) << 32));
        let mut mp = O::new_mp();
        for i in 0..n / chunks as u64 + 1 {
            let mut a = tuple(&f, &mut g, 30);
            if is_bessel_n(&f) {
                a[0] = g.r.range(-24, 24) as i32 as u32 as u128;
                let ty = f.args[1];
                // keep the magnitude moderate: MPFR's recurrences are slow otherwise
                if is_fin(ty, a[1]) && (mag(ty, a[1]) >> ty.sig()) as i64 - bias(ty) > 12 { a[1] = a[1] & !ty.exp_mask() | ((bias(ty) + g.r.range(-8, 10)) as u128) << ty.sig(); }
            } else if matches!(b, "y0" | "y1" | "j0" | "j1" | "tgamma" | "lgamma" | "lgamma_r" | "erf" | "erfc") && i & 3 != 0 {
                let ty = f.args[0];
                a[0] = a[0] & !ty.exp_mask() | ((bias(ty) + g.r.range(-12, 8)) as u128) << ty.sig();
            }
            cur(&f, &a);
            let got = O::run(&mut mp, O::RustArgs::of(&a)).out();
            c.m.seen(tag(f.name), a[0], a[1], a[2]);
            let Some(want) = expected(&f, &a) else { continue };
            decided.fetch_add(1, Relaxed);
            let t = f.res[0];
            if t != Ty::I32 {
                let k = if t.is_nan(want.0) { 0 } else if is_inf(t, want.0) { 1 } else if is_zero(t, want.0) { 2 } else if mag(t, want.0) < 1 << t.sig() { 3 } else { 4 };
                classes[k].fetch_add(1, Relaxed);
            }
            if !same(&f, &got, &want) {
                c.m.violation(&f, "mpfr-oracle", &a, format!("MpOp::run gave {}, expected {}", f.show_out(&got), f.show_out(&want)));
            }
        }
    });
    c.m.evals(n);
    STATS.lock().unwrap().insert(f.name, [decided.load(Relaxed), classes[0].load(Relaxed), classes[1].load(Relaxed), classes[2].load(Relaxed), classes[3].load(Relaxed), classes[4].load(Relaxed)]);
}
static STATS: Mutex<BTreeMap<&'static str, [u64; 6]>> = Mutex::new(BTreeMap::new());

/// Could one of the special cases that the crate documents for itself apply to this comparison?
/// (Those may accept a wrong value or demand a failure.) Wider than the code on purpose.
fn special(f: &Func, a: &[u128; 3], act: &Out, exp: &Out, basis: &CheckBasis) -> bool {
    let b = base(f.name);
    let v = |i: usize| -> f64 {
        match f.args[i] {
            Ty::F16 => h2d(a[i]), Ty::F32 => f32::from_bits(a[i] as u32) as f64, Ty::F64 => f64::from_bits(a[i] as u64),
            Ty::F128 => f128::from_bits(a[i]) as f64, Ty::I32 => a[i] as u32 as i32 as f64,
        }
    };
    let x = v(0);
    let t = f.res[0];
    let inf = |o: &Out| t != Ty::I32 && is_inf(t, o.0);
    match f.args.len() {
        1 => match b {
            "expm1" => t == Ty::F32 && x > 80.0 && inf(act),
            "sinh" => t == Ty::F32 && x.abs() > 80.0 && t.is_nan(act.0),
            "lgamma" | "lgamma_r" => x < 0.0 || (x > 4e36 && t == Ty::F32),
            "j0" => x < -1e34,
            "acosh" => x < -1.0,
            _ => false,
        },
        2 if f.args[0] == Ty::I32 => {
            x > 100.0 && *basis != CheckBasis::None || v(1) == f64::NEG_INFINITY || (b == "yn" && inf(act) && x > 100.0)
                || (f.name == "ynf" && inf(act) && *basis == CheckBasis::Musl)
        }
        2 if f.args[1] != Ty::I32 => {
            let (nx, ny) = (f.args[0].is_nan(a[0]), f.args[1].is_nan(a[1]));
            (*basis == CheckBasis::Mpfr && ny)
                // only the first component is a float here; the second is checked as usual
                || (*basis == CheckBasis::Mpfr && nx && t.is_nan(act.0) && t.is_nan(exp.0))
                || (matches!(b, "fmin" | "fmax") && ((is_zero(f.args[0], a[0]) && is_zero(f.args[1], a[1])) || (nx ^ ny)))
        }
        _ => false,
    }
}

/// The rules of comparison, without the special cases.
fn accept(t: Ty, act: u128, exp: u128, ulp: u32, list_exact: bool, bits: bool, fabs_nan: bool) -> bool {
    if t == Ty::I32 { return act == exp; }
    if fabs_nan && !list_exact { return act == exp; }
    match (t.is_nan(act), t.is_nan(exp)) {
        (true, true) => return !(list_exact && bits) || act == exp,
        (false, false) => {}
        _ => return false,
    }
    if is_neg(t, act) != is_neg(t, exp) || is_inf(t, act) != is_inf(t, exp) { return false; }
    mag(t, act).abs_diff(mag(t, exp)) <= ulp as u128
}

fn perturb(g: &mut Gen, t: Ty, e: u128, ulp: u32) -> u128 {
    if t == Ty::I32 {
        return match g.r.below(5) { 0 | 1 => e, 2 => (e as u32).wrapping_add(1) as u128, 3 => (e as u32).wrapping_neg() as u128, _ => g.r.u64() as u32 as u128 };
    }
    let ulp = ulp as u64;
    let k = match g.r.below(16) {
        0 | 1 => 0,
        2 => 1,
        3 => 2,
        4 => ulp,
        5 => ulp + 1,
        6 => g.r.below(ulp + 2),
        7 => ulp + 1 + g.r.below(1 << 20),
        8 => (1u64 << 32) + ulp,
        9 => (1u64 << 32).wrapping_sub(1),
        10 => return e ^ t.sign_bit(),
        11 => return t.exp_mask() | if g.r.u64() & 1 == 1 { t.sign_bit() } else { 0 },
        12 => return t.exp_mask() | (g.r.u128() & ((1 << t.sig()) - 1)).max(1) | if g.r.u64() & 1 == 1 { t.sign_bit() } else { 0 },
        13 => return g.r.u128() & t.mask(),
        14 => return if g.r.u64() & 1 == 1 { t.sign_bit() } else { 0 },
        _ => return (e as u128).wrapping_add(((g.r.below(1 << 20) as u128) << 33) | g.r.below(ulp + 2) as u128) & t.mask(),
    } as u128;
    if g.r.u64() & 1 == 1 { e.wrapping_add(k) & t.mask() } else { e.wrapping_sub(k) & t.mask() }
}

pub fn validate<O: MpOp>(c: &Ctx) where O::RustArgs: Tup, O::RustRet: Ret {
    let f = c.f;
    let b = base(f.name);
    let args = crate::common::Args::new(c.src, &[f]);
    let n = c.n / 4;
    let st: [AtomicU64; 3] = Default::default();
    par(8, |k| {
        let mut g = args.generator(&f, Rng::new(c.m.seed, tag(f.name) ^ (k as u64) << 32 ^ 0x5A5A));
        let bases = [CheckBasis::Mpfr, CheckBasis::Musl, CheckBasis::None];
        let kinds = [GeneratorKind::EdgeCases, GeneratorKind::Extensive, GeneratorKind::QuickSpaced, GeneratorKind::Random, GeneratorKind::List];
        for _ in 0..n / 8 + 1 {
            let mut a = tuple(&f, &mut g, 30);
            if is_bessel_n(&f) { a[0] = g.r.range(-40, 300) as i32 as u32 as u128; }
            let basis = g.r.pick(&bases).clone();
            let kind = *g.r.pick(&kinds);
            let mut ctx = CheckCtx::new(O::IDENTIFIER, basis.clone(), kind);
            match g.r.below(6) { 0 => ctx.ulp = 0, 1 => ctx.ulp = g.r.below(9) as u32, 2 => ctx.ulp = g.r.u64() as u32 >> g.r.below(32), 3 => ctx.ulp = u32::MAX - g.r.below(2) as u32, _ => {} }
            let t0 = f.res[0];
            let exp0 = match g.r.below(4) {
                0 => if t0 == Ty::I32 { g.r.u64() as u32 as u128 } else { g.bits() & t0.mask() },
                1 if t0 != Ty::I32 => [0, t0.sign_bit(), t0.exp_mask(), t0.exp_mask() | t0.sign_bit(), t0.exp_mask() | 1, t0.exp_mask() - 1, QNAN(t0), 1][g.r.below(8) as usize],
                _ => if is_bessel_n(&f) { g.bits() } else { f.run(&a).0 },
            };
            let mut exp = Out(exp0, 0);
            let mut act = Out(perturb(&mut g, t0, exp0, ctx.ulp), 0);
            if f.res.len() == 2 {
                let t1 = f.res[1];
                exp.1 = if t1 == Ty::I32 { g.r.below(20) as u128 } else { g.bits() & t1.mask() };
                act.1 = perturb(&mut g, t1, exp.1, ctx.ulp);
                match g.r.below(3) { 0 => act.0 = exp.0, 1 => act.1 = exp.1, _ => {} }
            }
            let list_exact = kind == GeneratorKind::List && basis != CheckBasis::Musl;
            if !list_exact && special(&f, &a, &act, &exp, &basis) { st[2].fetch_add(1, Relaxed); continue; }
            let fabs_nan = b == "fabs" && f.args[0].is_nan(a[0]) && basis != CheckBasis::Mpfr && f.res[0] != Ty::F16 && f.res[0] != Ty::F128;
            // an integer component (never a tolerance); a float component after it follows the same rules
            let ok = |i: usize, x: u128, y: u128| accept(f.res[i], x, y, ctx.ulp, list_exact, basis == CheckBasis::None, fabs_nan);
            let want = ok(0, act.0, exp.0) && (f.res.len() < 2 || ok(1, act.1, exp.1));
            cur(&f, &a);
            let got = O::RustRet::of(&act).validate(O::RustRet::of(&exp), O::RustArgs::of(&a), &ctx).is_ok();
            st[want as usize].fetch_add(1, Relaxed);
            c.m.seen(tag(f.name) ^ 0x77, a[0] ^ act.0.rotate_left(64), exp.0 ^ act.1.rotate_left(64), ctx.ulp as u128 | (kind as u128) << 32 | (basis as u128) << 40);
            if got != want {
                c.m.violation(&f, "validator", &a, format!("validate(actual {}, expected {}, ulp {}, {:?}, {:?}) {} but must {}",
                    f.show_out(&act), f.show_out(&exp), ctx.ulp, ctx.basis, ctx.gen_kind, if got { "accepts" } else { "rejects" }, if want { "accept" } else { "reject" }));
            }
        }
    });
    c.m.evals(n);
    VSTATS.lock().unwrap().insert(f.name, [st[0].load(Relaxed), st[1].load(Relaxed), st[2].load(Relaxed)]);
}
static VSTATS: Mutex<BTreeMap<&'static str, [u64; 3]>> = Mutex::new(BTreeMap::new());
static LISTED: AtomicU64 = AtomicU64::new(0);

/// The listed cases: expected outputs are right, and the two ways to read the list are complementary.
pub fn list<O: MpOp + case_list::CaseListInput>(c: &Ctx) where O::RustArgs: Tup, O::RustRet: Ret {
    let f = c.f;
    let all = <O as case_list::CaseListInput>::get_cases();
    let cn = CheckCtx::new(O::IDENTIFIER, CheckBasis::None, GeneratorKind::List);
    let cm = CheckCtx::new(O::IDENTIFIER, CheckBasis::Mpfr, GeneratorKind::List);
    let alone: Vec<_> = case_list::get_test_cases_standalone::<O>(&cn).collect();
    let (it, count) = case_list::get_test_cases_basis::<O>(&cm);
    let basis: Vec<_> = it.collect();
    if basis.len() as u64 != count || alone.len() + basis.len() != all.len() {
        c.m.violation_misc(f.name, "case list", format!("{}: {} listed cases, {} standalone, {} for a basis (said to be {count})", f.name, all.len(), alone.len(), basis.len()));
    }
    for (i, o) in alone {
        let a = i.bits();
        LISTED.fetch_add(1, Relaxed);
        c.m.evals(1);
        let Some(want) = expected(&f, &a) else { continue };
        let got = o.out();
        let t = f.res[0];
        let near = t != Ty::I32 && !t.is_nan(got.0) && !t.is_nan(want.0)
            && ulp_dist(t, got.0, want.0).is_some_and(|d| d <= tolerance(base(f.name), f.name, false) as u128)
            && f.res.len() == 1;
        if !same(&f, &got, &want) && !near {
            c.m.violation(&f, "case list", &a, format!("listed output {}, right one {}", f.show_out(&got), f.show_out(&want)));
        }
    }
}

/// Largest default tolerance on x86-64.
fn tolerance(b: &str, name: &str, musl: bool) -> u32 {
    let u = match b {
        "j0" | "j1" | "jn" | "y0" | "y1" | "yn" => 8_000_000,
        "acosh" | "erfc" => 4,
        "asinh" | "atan2" | "atanh" | "sinh" | "tanh" => 2,
        "exp10" => 6,
        "lgamma" | "lgamma_r" => 16,
        "tgamma" => if name == "tgamma" { 20 } else { 1 },
        "acos" | "asin" | "atan" | "cos" | "cosh" | "erf" | "exp" | "exp2" | "expm1" | "hypot" | "log" | "log10" | "log1p" | "log2" | "pow" | "sin" | "sincos" | "tan" => 1,
        _ => 0,
    };
    if !musl { return u; }
    match (b, name) {
        ("cosh", _) => 2,
        ("tanh", _) => 4,
        ("lgamma" | "lgamma_r", _) => 400,
        (_, "cbrt" | "fdim") => 2,
        (_, "sincosf") => 500,
        (_, "tgamma") => 20,
        _ => u,
    }
}

fn tolerances(m: &Mon, ids: &[(&'static str, Identifier)]) {
    for (n, id) in ids {
        for basis in [CheckBasis::Mpfr, CheckBasis::Musl, CheckBasis::None] {
            for k in [GeneratorKind::EdgeCases, GeneratorKind::Extensive, GeneratorKind::QuickSpaced, GeneratorKind::Random, GeneratorKind::List] {
                let c = CheckCtx::new(*id, basis.clone(), k);
                let max = tolerance(base(n), n, basis == CheckBasis::Musl);
                m.evals(1);
                if c.ulp > max || libm_test::default_ulp(&c) != c.ulp {
                    m.violation_misc(n, "tolerance", format!("{n}: default tolerance {} ulp against {basis:?}, documented {max}", c.ulp));
                }
            }
        }
    }
}

pub fn check(m: &'static Mon, src: &Source, l: &'static Lib) {
    m.rule("one case is a distinct input tuple given to MpOp::run (every function), or a distinct (actual, expected, input, context) given to CheckOutput::validate");
    let n = if m.thorough { 20_000_000 } else { 600_000 };
    let ops = crate::ops::all();
    let mut spent = vec![];
    for o in &ops {
        let c = Ctx { m, src, f: l.func(o.name), n };
        let t = std::time::Instant::now();
        (o.mp)(&c);
        let t1 = t.elapsed();
        (o.validate)(&c);
        (o.list)(&c);
        spent.push((t1, t.elapsed() - t1, o.name));
    }
    tolerances(m, &ops.iter().map(|o| (o.name, o.id)).collect::<Vec<_>>());
    if std::env::var("LMT_TIME").is_ok() { spent.sort(); spent.reverse(); for s in spent.iter().take(30) { eprintln!("{s:?}"); } }
    let s = STATS.lock().unwrap();
    m.stat("oracle: function -> [decided, NaN, infinite, zero, subnormal, normal results]", format!("{{{}}}", s.iter().map(|(k, v)| format!("\"{k}\": {v:?}")).collect::<Vec<_>>().join(", ")));
    let s = VSTATS.lock().unwrap();
    m.stat("validator: function -> [must reject, must accept, left to a documented special case]", format!("{{{}}}", s.iter().map(|(k, v)| format!("\"{k}\": {v:?}")).collect::<Vec<_>>().join(", ")));
    m.stat("listed cases with an output", LISTED.load(Relaxed).to_string());
    for o in ops.iter().take(6) { m.sample(format!("MpOp::run and validate of {} on generated arguments", o.name)); }
}
