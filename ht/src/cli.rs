//! C27: `util eval` prints the result of the function it is asked for, for every way to write the
//! arguments, and refuses what it does not understand.
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use rug::Integer;
use rug::ops::Pow;

use crate::common::*;
use crate::exact::*;
use crate::gen_::*;
use crate::lib_table::*;
use crate::mon::*;
use crate::oracle::base;

fn decimal(r: &mut Rng, ty: Ty) -> (String, u128) {
    let most = if r.below(4) == 0 { 60 } else { 12 };
    let nd = 1 + r.below(most) as usize;
    let digits: String = (0..nd).map(|_| (b'0' + r.below(10) as u8) as char).collect();
    let span = match ty { Ty::F16 => 9, Ty::F32 => 50, Ty::F64 => 340, _ => 5000 };
    let k = match r.below(3) { 0 => r.range(-span, span), 1 => r.range(-(nd as i64), 3), _ => r.range(-20, 8) };
    let neg = r.below(2) == 1;
    let value = |digits: &str, k: i64| {
        let m: Integer = digits.parse().unwrap();
        if k >= 0 { return pack(ty, neg, &(m * Integer::from(10).pow(k as u32)), 0, false); }
        let d = Integer::from(10).pow(-k as u32);
        let shift = d.significant_bits() + 200;
        let (q, rem) = (m << shift).div_rem(d);
        pack(ty, neg, &q, -(shift as i64), rem != 0)
    };
    let s = if neg { "-" } else { "" };
    // with an exponent, or with the point inside
    if r.below(2) == 0 || k.unsigned_abs() > 30 { (format!("{s}{digits}e{k}"), value(&digits, k)) }
    else if k >= 0 { (format!("{s}{digits}{}", "0".repeat(k as usize)), value(&digits, k)) }
    else {
        let p = -k as usize;
        let full = if digits.len() <= p { format!("{}{digits}", "0".repeat(p + 1 - digits.len())) } else { digits.clone() };
        let (i, f) = full.split_at(full.len() - p);
        (format!("{s}{i}.{f}"), value(&digits, k))
    }
}

/// Close to the middle between two values, where rounding twice goes wrong.
fn near_tie(r: &mut Rng, ty: Ty, b: u128) -> Option<(String, u128)> {
    if !is_fin(ty, b) || is_zero(ty, b) { return None; }
    let (m, e) = decode(ty, b);
    let e = e - 1;
    if !(-110..100).contains(&e) { return None; }
    let m = Integer::from(m) * 2 + 1;
    let neg = is_neg(ty, b);
    // decimal expansion of the midpoint, exactly, then a digit far behind it
    let (mut d, k) = if e >= 0 { (m << e as u32, 0i64) } else { (m * Integer::from(5).pow((-e) as u32), e) };
    let extra = 1 + r.below(40) as u32;
    d *= Integer::from(10).pow(extra);
    match r.below(3) { 0 => d += 1, 1 => d -= 1, _ => {} }
    let k = k - extra as i64;
    let q = Integer::from(10).pow(-k as u32);
    let shift = q.significant_bits() + 400;
    let (v, rem) = (Integer::from(&d) << shift).div_rem(q);
    Some((format!("{}{d}e{k}", if neg { "-" } else { "" }), pack(ty, neg, &v, -(shift as i64), rem != 0)))
}

fn hexfloat(r: &mut Rng, ty: Ty, b: u128) -> String {
    let s = if is_neg(ty, b) { "-" } else { "" };
    let (mut m, mut e) = if is_zero(ty, b) { (0, 0) } else { decode(ty, b) };
    if m == 0 { return format!("{s}0x0p{}", r.range(-3, 3)); }
    if r.below(2) == 0 { let z = m.trailing_zeros(); m >>= z; e += z as i64; }
    let h = format!("{m:x}");
    // put the point somewhere
    let p = r.below(h.len() as u64 + 1) as usize;
    if p == 0 { return format!("{s}0x{h}p{e}"); }
    let (i, f) = h.split_at(h.len() - p);
    format!("{s}0x{}.{f}p{}", if i.is_empty() { "0" } else { i }, e + 4 * p as i64)
}

/// A way to write a value, and the value.
fn write(r: &mut Rng, ty: Ty, b: u128) -> (String, u128) {
    if ty == Ty::I32 {
        let v = b as u32 as i32;
        return (match r.below(4) { 0 if v >= 0 => format!("0x{v:x}"), 1 if v >= 0 => format!("0b{v:b}"), _ => format!("{v}") }, b);
    }
    match r.below(8) {
        0 => (format!("0x{b:x}"), b),
        1 => (format!("0x{b:0w$x}", w = ty.bits() as usize / 4), b),
        2 => (format!("0b{b:b}"), b),
        3 | 4 if is_fin(ty, b) => (hexfloat(r, ty, b), b),
        5 => decimal(r, ty),
        6 => near_tie(r, ty, b).unwrap_or_else(|| decimal(r, ty)),
        _ => match r.below(12) {
            0 => ("inf".into(), ty.exp_mask()),
            1 => ("-inf".into(), ty.exp_mask() | ty.sign_bit()),
            2 => ("nan".into(), ty.exp_mask() | 1 << (ty.sig() - 1)),
            3 => ("-0".into(), ty.sign_bit()),
            4 => ("0".into(), 0),
            _ => decimal(r, ty),
        },
    }
}

/// The number in hexadecimal notation.
fn read_hex(ty: Ty, s: &str) -> Option<u128> {
    if ty == Ty::I32 { return u32::from_str_radix(s, 16).ok().map(|v| v as u128); }
    let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s) };
    let sign = if neg { ty.sign_bit() } else { 0 };
    if t == "NaN" { return Some(sign | ty.exp_mask() | 1); }
    if t == "inf" { return Some(sign | ty.exp_mask()); }
    let (m, e) = t.strip_prefix("0x")?.split_once('p')?;
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let v = u128::from_str_radix(&format!("{i}{f}"), 16).ok()?;
    let e: i64 = e.parse().ok()?;
    if v == 0 { return Some(sign); }
    Some(pack(ty, neg, &Integer::from(v), e - 4 * f.len() as i64, false))
}
/// What `{:?}` prints.
fn read_debug(ty: Ty, s: &str) -> Option<u128> {
    match ty {
        Ty::I32 => s.parse::<i32>().ok().map(oi),
        Ty::F32 => s.parse::<f32>().ok().map(os),
        Ty::F64 => s.parse::<f64>().ok().map(od),
        // these print their bits
        _ => u128::from_str_radix(s.strip_prefix("0x")?, 16).ok(),
    }
}

fn run(tool: &str, args: &[String]) -> (Option<i32>, String) {
    let o = Command::new(tool).arg("eval").args(args).env("RUST_BACKTRACE", "0").stderr(Stdio::null()).output().expect("util");
    (o.status.code(), String::from_utf8_lossy(&o.stdout).trim().to_string())
}

fn parts(f: &Func, line: &str) -> Option<(Vec<u128>, Vec<u128>)> {
    let (a, b): (Vec<&str>, Vec<&str>) = if f.res.len() == 2 {
        let (x, y) = line.strip_prefix('(')?.strip_suffix(')')?.split_once(") (")?;
        (x.split(", ").collect(), y.split(", ").collect())
    } else {
        let (x, y) = line.split_once(' ')?;
        (vec![x], vec![y])
    };
    if a.len() != f.res.len() || b.len() != f.res.len() { return None; }
    Some((a.iter().zip(f.res).map(|(s, t)| read_debug(*t, s)).collect::<Option<_>>()?, b.iter().zip(f.res).map(|(s, t)| read_hex(*t, s)).collect::<Option<_>>()?))
}

pub fn check(m: &'static Mon, src: &Source, l: &'static Lib) {
    m.rule("one case is a distinct command line");
    let tool = std::env::current_exe().unwrap().with_file_name("lmutil");
    let tool = tool.to_str().unwrap();
    let fns = l.funcs();
    let n = if m.thorough { 12000 } else { 800 };
    let (decided, refused) = (AtomicU64::new(0), AtomicU64::new(0));
    par(fns.len(), |k| {
        let f = fns[k];
        let b = base(f.name);
        let args = Args::new(src, &[f]);
        let mut g = args.generator(&f, Rng::new(m.seed, tag(f.name) ^ 0x2700));
        for j in 0..n {
            let mut a = tuple(&f, &mut g, 30);
            let mp = j & 1 == 1 && b != "nextafter";
            if mp || is_bessel_n(&f) {
                if is_bessel_n(&f) { a[0] = g.r.range(-20, 20) as i32 as u32 as u128; }
                for i in 0..f.args.len() {
                    let ty = f.args[i];
                    if ty != Ty::I32 && is_fin(ty, a[i]) && !matches!(ty, Ty::F128) { a[i] = a[i] & !ty.exp_mask() | ((bias(ty) + g.r.range(-10, 8)) as u128) << ty.sig(); }
                }
            }
            let mut line = vec![if mp { "mpfr".to_string() } else { "libm".to_string() }, f.name.to_string()];
            for i in 0..f.args.len() {
                let (s, v) = write(&mut g.r, f.args[i], a[i]);
                a[i] = v;
                line.push(s);
            }
            // what the notation says may be outside of what MPFR can do in reasonable time
            if mp && f.args.iter().enumerate().any(|(i, t)| *t != Ty::I32 && is_fin(*t, a[i]) && !is_zero(*t, a[i]) && ((mag(*t, a[i]) >> t.sig()) as i64 - bias(*t)).abs() > 200 && !matches!(b, "fma" | "sqrt" | "fabs" | "trunc" | "floor" | "ceil" | "rint" | "round" | "roundeven" | "copysign" | "fmin" | "fmax")) { line[0] = "libm".into(); }
            let dear = is_bessel_n(&f) || matches!(b, "j0" | "j1" | "y0" | "y1" | "tgamma" | "lgamma" | "lgamma_r" | "erf" | "erfc");
            if mp && dear && f.args.iter().enumerate().any(|(i, t)| *t != Ty::I32 && is_fin(*t, a[i]) && !is_zero(*t, a[i]) && !(-60..=10).contains(&((mag(*t, a[i]) >> t.sig()) as i64 - bias(*t)))) { line[0] = "libm".into(); }
            if is_bessel_n(&f) && (a[0] as u32 as i32).unsigned_abs() > 1000 { continue; }
            if is_bessel_n(&f) && mag(f.args[1], a[1]) >= f.args[1].exp_mask() { continue; }
            m.seen(tag(f.name) ^ tag(&line[0]), a[0] ^ tag(&line[2]) as u128, a[1], a[2]);
            let want = if line[0] == "mpfr" { crate::mp::expected(&f, &a) } else { Some(f.run(&a)) };
            let Some(want) = want else { continue };
            let (rc, out) = run(tool, &line);
            m.evals(1);
            decided.fetch_add(1, Relaxed);
            let bad = |s: String| m.violation(&f, &line[0], &a, format!("eval {}: {s}", line.join(" ")));
            if rc != Some(0) { bad(format!("fails (status {rc:?}), result is {}", f.show_out(&want))); continue; }
            let Some((x, y)) = parts(&f, out.lines().last().unwrap_or("")) else { bad(format!("unreadable output {out:?}")); continue };
            for v in [x, y] {
                let got = Out(v[0], if v.len() > 1 { v[1] } else { want.1 });
                let w = Out(want.0, if want.1 == u128::MAX { got.1 } else { want.1 });
                if !crate::mp::same(&f, &got, &w) { bad(format!("printed {out:?}, which is {}; right is {}", f.show_out(&got), f.show_out(&w))); break; }
            }
        }
        // wrong uses
        let good: Vec<String> = f.args.iter().map(|_| "1".to_string()).collect();
        let case = |basis: &str, op: &str, args: &[String]| {
            let mut v = vec![basis.to_string(), op.to_string()];
            v.extend_from_slice(args);
            let (rc, out) = run(tool, &v);
            m.evals(1);
            refused.fetch_add(1, Relaxed);
            if rc == Some(0) { m.violation_misc(f.name, "refuse", format!("eval {} is accepted and prints {out:?}", v.join(" "))); }
        };
        case("libm", &format!("{}x", f.name), &good);
        case("mpfrr", f.name, &good);
        case("libm", f.name, &good[1..]);
        let mut more = good.clone(); more.push("1".into());
        case("libm", f.name, &more);
        let junk = ["", "x", "1..2", "0x", "0b2", "1e", "--1", "0xg", "0b"];
        let mut v = good.clone();
        let i = g.r.below(v.len() as u64) as usize;
        v[i] = g.r.pick(&junk).to_string();
        case("libm", f.name, &v);
    });
    for line in [vec![], vec!["evil"], vec!["eval"], vec!["eval", "libm"]] {
        m.evals(1);
        let o = Command::new(tool).args(&line).stderr(Stdio::null()).stdout(Stdio::null()).status().expect("util");
        if o.success() { m.violation_misc("util", "refuse", format!("util {line:?} succeeds")); }
    }
    m.stat("command lines", format!("{{\"results compared\": {}, \"wrong uses refused\": {}}}", decided.load(Relaxed), refused.load(Relaxed)));
    m.sample("eval libm|mpfr of every function with arguments as bits, hex floats, decimals near ties, inf and nan".into());
}
