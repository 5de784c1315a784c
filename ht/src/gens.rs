//! C24, second part: the input generators of the test suite and the domains they draw from.
use std::collections::BTreeMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::ops::RangeInclusive;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use libm_test::domain::{EitherPrim, get_domain};
use libm_test::generate::edge_cases::{self, EdgeCaseInput};
use libm_test::generate::random::{self, RandomInput};
use libm_test::generate::spaced::{self, SpacedInput};
use libm_test::{CheckBasis, CheckCtx, GeneratorKind, Identifier, MathOp, skip_extensive_test};

use crate::conv::*;
use crate::lib_table::*;
use crate::mon::*;
use crate::num::{Fmt, even};
use crate::gen_::Rng;
use crate::ops::Ctx;
use crate::oracle::base;

fn fmt(t: Ty) -> Fmt { Fmt { bits: t.bits(), sig: t.sig() } }
fn one(t: Ty) -> u128 { (fmt(t).inf() >> 1) & fmt(t).inf() }
const NEAR: u128 = 8;

/// First and last value of the domain of a function.
fn domain(b: &str, t: Ty) -> (u128, u128) {
    let f = fmt(t);
    let (inf, ninf, one) = (f.inf(), f.inf() | f.sign(), one(t));
    match b {
        "acos" | "asin" => (one | f.sign(), one),
        "acosh" => (one, inf),
        "atanh" => (f.step(one | f.sign(), 1, true), f.step(one, 1, false)),
        "log" | "log2" | "log10" | "lgamma" | "lgamma_r" => (1, inf),
        "log1p" => (f.step(one | f.sign(), 1, true), inf),
        "sqrt" => (0, inf),
        _ => (ninf, inf),
    }
}

/// Points that must be looked at closely.
fn points(b: &str, t: Ty) -> Vec<u128> {
    let s = fmt(t).sign();
    match (b, t) {
        ("sin" | "cos" | "tan" | "sincos", Ty::F32) => { let (p, h) = (std::f32::consts::PI.to_bits() as u128, std::f32::consts::FRAC_PI_2.to_bits() as u128); vec![p, p | s, h, h | s] }
        ("sin" | "cos" | "tan" | "sincos", Ty::F64) => { let (p, h) = (std::f64::consts::PI.to_bits() as u128, std::f64::consts::FRAC_PI_2.to_bits() as u128); vec![p, p | s, h, h | s] }
        ("tgamma", Ty::F32) => (0..4).map(|i| (-(i as f32)).to_bits() as u128).collect(),
        ("tgamma", Ty::F64) => (0..4).map(|i| (-(i as f64)).to_bits() as u128).collect(),
        _ => vec![],
    }
}

fn domains<O: MathOp>(c: &Ctx, tys: &[Ty]) where O::FTy: Prim {
    for (i, t) in tys.iter().enumerate() {
        let bad = |s: String| c.m.violation_misc(c.f.name, "domain", format!("{} argument {i}: {s}", c.f.name));
        c.m.evals(1);
        match get_domain::<O::FTy, i32>(O::IDENTIFIER, i) {
            EitherPrim::Int(d) => {
                if *t != Ty::I32 { bad("is said to be an integer".into()); }
                if d.start != std::ops::Bound::Unbounded || d.end != std::ops::Bound::Unbounded { bad("bounded integer domain".into()); }
            }
            EitherPrim::Float(d) => {
                if *t == Ty::I32 { bad("is said to be a float".into()); continue; }
                let (lo, hi) = domain(base(c.f.name), *t);
                let (a, b) = (d.range_start().get(), d.range_end().get());
                if (a, b) != (lo, hi) { bad(format!("domain {} to {}, expected {} to {}", t.show(a), t.show(b), t.show(lo), t.show(hi))); }
                let p: Vec<u128> = d.check_points.map(|f| f().map(|x| x.get()).collect()).unwrap_or_default();
                for w in points(base(c.f.name), *t) { if !p.iter().any(|x| fmt(*t).ord(*x) == fmt(*t).ord(w)) { bad(format!("{} is not a check point", t.show(w))); } }
            }
        }
    }
}

/// What has to be among the edge cases of one argument.
fn must(c: &Ctx, t: Ty) -> Vec<u128> {
    let b = base(c.f.name);
    let mut v = vec![];
    if t == Ty::I32 {
        let mut around = |x: i64| for d in -(NEAR as i64) + 1..NEAR as i64 { if let Ok(y) = i32::try_from(x + d) { v.push(y as u32 as u128); } };
        around(i32::MIN as i64); around(i32::MAX as i64); around(0);
        if matches!(b, "scalbn" | "ldexp") {
            let f = c.f.args[0];
            let emax = (1i64 << (f.bits() - 2 - f.sig())) - 1;
            let (emin, sub) = (1 - emax, 1 - emax - f.sig() as i64);
            for x in [emax, emin, sub, -sub, emax - emin, emin - emax, emax - sub, sub - emax] { around(x); }
        }
        return v;
    }
    let f = fmt(t);
    let one = one(t);
    let (lo, hi) = domain(b, t);
    let (sub, inf) = ((1u128 << t.sig()) - 1, f.inf());
    let mut centres = vec![0, one, one | f.sign(), inf, inf | f.sign(), lo, hi, sub, sub | f.sign()];
    centres.extend(points(b, t));
    for x in centres {
        for n in 0..NEAR { v.push(f.step(x, n, true)); v.push(f.step(x, n, false)); }
    }
    v.extend([0, f.sign()]);
    let q = 1u128 << (t.sig() - 1);
    for s in [0, f.sign()] { v.extend([s | inf | q, s | inf | 1, s | inf | sub, s | inf | (sub ^ q)]); }
    v
}

static NOTE: Mutex<BTreeMap<&'static str, String>> = Mutex::new(BTreeMap::new());

/// Reads a generator of one or two arguments twice: all values per argument, then that every
/// combination of them occurs exactly once.
fn product<A: Tup>(c: &Ctx, what: &str, count: u64, mk: &dyn Fn() -> Box<dyn Iterator<Item = A>>, limit: u64) -> Option<Vec<Vec<u128>>> {
    let bad = |s: String| c.m.violation_misc(c.f.name, what, format!("{} {what}: {s}", c.f.name));
    let mut sets: Vec<BTreeMap<u128, usize>> = vec![BTreeMap::new(); A::N];
    let mut order: Vec<Vec<u128>> = vec![vec![]; A::N];
    let mut prev: Vec<Option<u128>> = vec![None; A::N];
    let mut n = 0u64;
    let partial = count > limit;
    for a in mk() {
        let a = a.bits();
        n += 1;
        for i in 0..A::N {
            if prev[i] == Some(a[i]) { continue; }
            prev[i] = Some(a[i]);
            let k = sets[i].len();
            if let std::collections::btree_map::Entry::Vacant(e) = sets[i].entry(a[i]) { e.insert(k); order[i].push(a[i]); }
        }
        if n > count { bad(format!("more than {count} items")); return None; }
        if partial && n == limit { break; }
    }
    c.m.evals(n);
    if !partial {
        if n != count { bad(format!("{n} items, said to be {count}")); }
        let prod: u64 = order.iter().map(|o| o.len() as u64).product();
        if prod != n { bad(format!("{n} items from {:?} values per argument", order.iter().map(|o| o.len()).collect::<Vec<_>>())); return None; }
        if A::N > 1 {
            let mut map = vec![0u64; (prod / 64 + 1) as usize];
            for a in mk() {
                let a = a.bits();
                let mut ix = 0u64;
                for i in 0..A::N { ix = ix * order[i].len() as u64 + sets[i][&a[i]] as u64; }
                map[(ix / 64) as usize] |= 1 << (ix % 64);
            }
            let seen: u64 = map.iter().map(|w| w.count_ones() as u64).sum();
            if seen != prod { bad(format!("{} combinations are missing", prod - seen)); }
        }
    }
    c.m.add_distinct(n);
    Some(order)
}

pub fn edges<O: MathOp + 'static>(c: &Ctx) where O::RustArgs: Tup + EdgeCaseInput<O>, O::FTy: Prim {
    let tys = <O::RustArgs as Tup>::tys();
    domains::<O>(c, &tys);
    let ctx: &'static CheckCtx = Box::leak(Box::new(CheckCtx::new(O::IDENTIFIER, CheckBasis::Mpfr, GeneratorKind::EdgeCases)));
    let count = edge_cases::get_test_cases::<O>(ctx).1;
    let limit = if c.m.thorough { 400_000_000 } else if tys.len() == 3 { 2_500_000 } else { 20_000_000 };
    let mk = || Box::new(edge_cases::get_test_cases::<O>(ctx).0) as Box<dyn Iterator<Item = O::RustArgs>>;
    let Some(order) = product(c, "edge cases", count, &mk, limit) else { return };
    for (i, t) in tys.iter().enumerate() {
        if tys.len() == 3 && i < 2 && count > limit { continue; }
        let have: std::collections::BTreeSet<u128> = order[i].iter().copied().collect();
        let want = must(c, *t);
        if let Some(x) = want.iter().find(|x| !have.contains(x)) {
            c.m.violation_misc(c.f.name, "edge cases", format!("{} argument {i}: {} is not among the {} edge cases", c.f.name, t.show(*x), have.len()));
        }
    }
    if tys.len() == 3 && count > limit {
        let k = order[2].len() as u64;
        if count != k * k * k { c.m.violation_misc(c.f.name, "edge cases", format!("{}: {count} cases from {k} values", c.f.name)); }
    }
    NOTE.lock().unwrap().insert(c.f.name, format!("{:?}", order.iter().map(|o| o.len()).collect::<Vec<_>>()));
}

pub fn spaced<O: MathOp + 'static>(c: &Ctx) where O::RustArgs: Tup + SpacedInput<O> {
    let tys = <O::RustArgs as Tup>::tys();
    let b = base(c.f.name);
    for want in [800u64, 5000, 70_000] {
        let mut ctx = CheckCtx::new(O::IDENTIFIER, CheckBasis::Mpfr, GeneratorKind::QuickSpaced);
        ctx.override_iterations(want);
        let ctx: &'static CheckCtx = Box::leak(Box::new(ctx));
        let count = spaced::get_test_cases::<O>(ctx).1;
        let mk = || Box::new(spaced::get_test_cases::<O>(ctx).0) as Box<dyn Iterator<Item = O::RustArgs>>;
        let Some(order) = product(c, "spaced", count, &mk, 40_000_000) else { continue };
        // at least as many as asked for, unless the format has fewer values
        let per = (1..).find(|k: &u64| k.pow(tys.len() as u32) >= want).unwrap();
        for (i, t) in tys.iter().enumerate() {
            let o = &order[i];
            let bad = |s: String| c.m.violation_misc(c.f.name, "spaced", format!("{} argument {i}, {want} iterations: {s}", c.f.name));
            if *t == Ty::I32 {
                let (lo, hi) = if matches!(b, "jn" | "yn") { (-0xff, 0xffff) } else { (i32::MIN, i32::MAX) };
                let v: Vec<i32> = o.iter().map(|x| *x as u32 as i32).collect();
                even(&v, v.len() as u128, per as u128, lo as i128, hi as i128, |x| x as i128, lo, &bad);
            } else if *t == Ty::F16 && (per >= 65536 || o.len() == 65536) {
                if o.len() != 65536 { bad(format!("{} values instead of all", o.len())); }
            } else {
                let f = fmt(*t);
                let (lo, hi) = domain(b, *t);
                even(o, o.len() as u128, per as u128, f.ord(lo), f.ord(hi), |x| f.ord(x), lo, &bad);
            }
        }
    }
    // sizes without an override
    for kind in [GeneratorKind::QuickSpaced, GeneratorKind::Extensive] {
        let ctx: &'static CheckCtx = Box::leak(Box::new(CheckCtx::new(O::IDENTIFIER, CheckBasis::Mpfr, kind)));
        let count = spaced::get_test_cases::<O>(ctx).1;
        c.m.evals(1);
        let all = tys.iter().all(|t| *t == Ty::F16 || (*t == Ty::F32 && tys.len() == 1)) && tys.len() < 3;
        let bits: u32 = tys.iter().map(|t| t.bits()).sum();
        if kind == GeneratorKind::Extensive && all && std::env::var("LIBM_EXTENSIVE_ITERATIONS").is_err() {
            if count != 1 << bits { c.m.violation_misc(c.f.name, "extensive", format!("{}: {count} extensive cases do not exhaust the arguments", c.f.name)); }
        } else if count < 10_000 {
            c.m.violation_misc(c.f.name, "spaced", format!("{}: only {count} cases", c.f.name));
        }
        if kind == GeneratorKind::QuickSpaced && tys.len() == 1 && tys[0] != Ty::F128 {
            let n = spaced::get_test_cases::<O>(ctx).0.count() as u64;
            c.m.evals(n);
            if n != count { c.m.violation_misc(c.f.name, "spaced", format!("{}: {n} cases, said to be {count}", c.f.name)); }
        }
    }
}

pub fn random<O: MathOp>(c: &Ctx) where O::RustArgs: Tup + RandomInput {
    let tys = <O::RustArgs as Tup>::tys();
    let b = base(c.f.name);
    for want in [3000u64, 60_000] {
        let mut ctx = CheckCtx::new(O::IDENTIFIER, CheckBasis::Mpfr, GeneratorKind::Random);
        ctx.override_iterations(want);
        let (it, count) = random::get_test_cases::<O::RustArgs>(&ctx);
        let v: Vec<[u128; 3]> = it.map(|a| a.bits()).collect();
        let w: Vec<[u128; 3]> = random::get_test_cases::<O::RustArgs>(&ctx).0.map(|a| a.bits()).collect();
        c.m.evals(2 * v.len() as u64);
        for a in &v { c.m.seen(crate::common::tag(c.f.name) ^ 0x99, a[0], a[1], a[2]); }
        let bad = |s: String| c.m.violation_misc(c.f.name, "random", format!("{} {want} iterations: {s}", c.f.name));
        if v != w { bad("a second reading differs".into()); }
        if v.len() as u64 != count || count < want { bad(format!("{} items, said to be {count}", v.len())); }
        for (i, t) in tys.iter().enumerate() {
            let mut o: Vec<u128> = v.iter().map(|a| a[i]).collect();
            o.sort(); o.dedup();
            let per = (1..).find(|k: &u64| k.pow(tys.len() as u32) >= want).unwrap();
            let space: f64 = if *t == Ty::I32 && matches!(b, "jn" | "yn") { 65791.0 } else { 2f64.powi(t.bits() as i32) };
            // expected number of distinct values among `per` draws, and a wide margin
            let exp = space * (1.0 - (1.0 - 1.0 / space).powf(per as f64));
            let exp = if space > 1e12 { per as f64 } else { exp };
            if (o.len() as f64) < exp * 0.9 - 3.0 { bad(format!("argument {i}: {} distinct values, {exp:.0} expected", o.len())); }
            if *t == Ty::I32 {
                let (lo, hi) = if matches!(b, "jn" | "yn") { (-0xff, 0xffff) } else { (i32::MIN, i32::MAX) };
                let r: RangeInclusive<i32> = lo..=hi;
                if let Some(x) = o.iter().find(|x| !r.contains(&(**x as u32 as i32))) { bad(format!("argument {i}: {} is out of range", *x as u32 as i32)); }
                let q: Vec<bool> = (0..4).map(|k| o.iter().any(|x| { let y = (*x as u32 as i32) as f64; let s = (hi as f64 - lo as f64) / 4.0; y >= lo as f64 + k as f64 * s && y <= lo as f64 + (k + 1) as f64 * s })).collect();
                if per >= 39 && q.contains(&false) { bad(format!("argument {i}: quarters of the range seen {q:?}")); }
            } else if per >= 100 {
                // all sixteen combinations of the top four bits
                let mut top = 0u32;
                for x in &o { top |= 1 << (x >> (t.bits() - 4)); }
                if per >= 400 && top != 0xffff { bad(format!("argument {i}: top bits seen {top:#x}")); }
            }
        }
    }
}

pub fn hash<O: MathOp>() -> u64 where O::RustArgs: Tup + RandomInput {
    let mut ctx = CheckCtx::new(O::IDENTIFIER, CheckBasis::Mpfr, GeneratorKind::Random);
    ctx.override_iterations(500);
    let mut h = DefaultHasher::new();
    for a in random::get_test_cases::<O::RustArgs>(&ctx).0 { a.bits().hash(&mut h); }
    h.finish()
}

/// In a process of its own: what the random generators and the environment settings give here.
pub fn random_hash() {
    for o in crate::ops::all() { println!("hash {} {:016x}", o.name, (o.random_hash)()); }
    for id in Identifier::ALL {
        let c = CheckCtx::new(*id, CheckBasis::Mpfr, GeneratorKind::Extensive);
        println!("extensive {} {}", id.as_str(), !skip_extensive_test(&c));
    }
}

/// In a process of its own: which extensive tests the environment asks for.
pub fn extensive_list() {
    for id in Identifier::ALL {
        let c = CheckCtx::new(*id, CheckBasis::Mpfr, GeneratorKind::Extensive);
        println!("extensive {} {}", id.as_str(), !skip_extensive_test(&c));
    }
    println!("end");
}

/// Runs `extensive_list` with these settings; nothing if the process fails.
fn lists(tests: &str) -> Option<Vec<String>> {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("extensive-list").env("LIBM_EXTENSIVE_TESTS", tests).stderr(std::process::Stdio::null()).output().expect("child");
    let v: Vec<String> = String::from_utf8(o.stdout).unwrap().lines().map(|l| l.to_string()).collect();
    (o.status.success() && v.last().is_some_and(|l| l == "end")).then_some(v)
}

/// Every name alone, lists of names in random order, names that do not exist.
fn extensive_settings(m: &Mon, ops: &[crate::ops::Op]) {
    const GROUPS: [(&str, Option<Ty>); 5] = [("all", None), ("all_f16", Some(Ty::F16)), ("all_f32", Some(Ty::F32)), ("all_f64", Some(Ty::F64)), ("all_f128", Some(Ty::F128))];
    let mut r = Rng::new(m.seed, 0x657874);
    let mut runs: Vec<String> = ops.iter().map(|o| o.id_name.to_string()).collect();
    runs.extend(GROUPS.iter().map(|g| g.0.to_string()));
    for _ in 0..if m.thorough { 3000 } else { 120 } {
        let k = 1 + r.below(5);
        let mut t: Vec<&str> = (0..k).map(|_| match r.below(8) { 0..=1 => GROUPS[1 + r.below(4) as usize].0, 2 if r.below(3) == 0 => "all", 3 => "", _ => ops[r.below(ops.len() as u64) as usize].id_name }).collect();
        if r.below(6) == 0 { t.push(t[0]); }
        runs.push(t.join(","));
    }
    let bad: Vec<String> = ["sine", "all_f8", "ALL", "sin sinf", "f32", "all_", "Sin"].iter().map(|s| s.to_string()).chain((0..20).map(|_| format!("{},{}x", GROUPS[1].0, ops[r.below(ops.len() as u64) as usize].id_name))).filter(|s| !ops.iter().any(|o| s.split(',').any(|t| t == o.id_name))).collect();
    par(runs.len() + bad.len(), |i| {
        m.evals(1);
        if i >= runs.len() {
            let s = &bad[i - runs.len()];
            if lists(s).is_some() { m.violation_misc("settings", "extensive", format!("LIBM_EXTENSIVE_TESTS={s} is accepted")); }
            return;
        }
        let s = &runs[i];
        let Some(got) = lists(s) else { m.violation_misc("settings", "extensive", format!("LIBM_EXTENSIVE_TESTS={s}: the process fails")); return; };
        let got: std::collections::HashSet<&str> = got.iter().map(|s| s.as_str()).collect();
        for o in ops {
            let w = s.split(',').any(|t| t == o.id_name || GROUPS.iter().any(|g| g.0 == t && (g.1.is_none() || g.1 == Some(o.fty))));
            let line = format!("extensive {} {w}", o.id_name);
            if !got.contains(line.as_str()) { m.violation_misc(o.name, "extensive", format!("LIBM_EXTENSIVE_TESTS={s}: expected `{line}`")); }
        }
    });
    m.stat("settings of the extensive tests", (runs.len() + bad.len()).to_string());
}

fn child(seed: &str, ext: Option<&str>) -> (Vec<String>, Vec<String>) {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("random-hash").env("LIBM_SEED", seed).env_remove("LIBM_EXTENSIVE_TESTS").stderr(std::process::Stdio::null());
    if let Some(e) = ext { c.env("LIBM_EXTENSIVE_TESTS", e); }
    let o = c.output().expect("child");
    let t = String::from_utf8(o.stdout).unwrap();
    let pick = |p: &str| t.lines().filter_map(|l| l.strip_prefix(p)).map(|s| s.to_string()).collect();
    (pick("hash "), pick("extensive "))
}

fn environment(m: &Mon, ops: &[crate::ops::Op]) {
    let (s1, s2) = ("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab");
    let (a, x0) = child(s1, None);
    let (b, x1) = child(s1, Some("all"));
    let (c, x2) = child(s2, Some("all_f16,cosf,pow"));
    let (_, x3) = child(s2, Some("all_f32"));
    let (_, x4) = child(s2, Some("all_f64,,all_f128"));
    m.evals((a.len() * 5) as u64);
    if a.len() != ops.len() { m.violation_misc("random", "process", "a process that reads the generators failed".into()); return; }
    if a != b { m.violation_misc("random", "process", "the same LIBM_SEED gives different random inputs".into()); }
    for (p, q) in a.iter().zip(&c) { if p == q { m.violation_misc("random", "process", format!("another LIBM_SEED gives the same inputs: {p}")); } }
    let want = |got: &Vec<String>, what: &str, f: &dyn Fn(&crate::ops::Op) -> bool| {
        for o in ops {
            let w = format!("{} {}", o.id_name, f(o));
            if !got.contains(&w) { m.violation_misc(o.name, "extensive", format!("LIBM_EXTENSIVE_TESTS={what}: expected `{w}`")); }
        }
    };
    want(&x0, "(unset)", &|_| false);
    want(&x1, "all", &|_| true);
    want(&x2, "all_f16,cosf,pow", &|o| o.fty == Ty::F16 || o.name == "cosf" || o.name == "pow");
    want(&x3, "all_f32", &|o| o.fty == Ty::F32);
    want(&x4, "all_f64,,all_f128", &|o| o.fty == Ty::F64 || o.fty == Ty::F128);
    m.stat("processes with their own environment", "5".into());
    extensive_settings(m, ops);
}

pub fn check(m: &'static Mon, l: &'static Lib) {
    m.rule("one case is a distinct generated input tuple, float stepped by a distinct count, or spacing request");
    let ops = crate::ops::all();
    let src = crate::gen_::Source::load();
    let times = Mutex::new(vec![]);
    let done = AtomicU64::new(0);
    par(ops.len(), |i| {
        let o = &ops[i];
        let c = Ctx { m, src: &src, f: l.func(o.name), n: 0 };
        let t = std::time::Instant::now();
        (o.edges)(&c);
        let t1 = t.elapsed();
        (o.spaced)(&c);
        let t2 = t.elapsed();
        (o.random)(&c);
        done.fetch_add(1, Relaxed);
        times.lock().unwrap().push((t.elapsed(), t1, t2, o.name));
    });
    environment(m, &ops);
    if std::env::var("LMT_TIME").is_ok() { let mut t = times.into_inner().unwrap(); t.sort(); t.reverse(); for s in t.iter().take(12) { eprintln!("{s:?}"); } }
    m.stat("edge cases read per argument", format!("{{{}}}", NOTE.lock().unwrap().iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", ")));
    m.stat("functions", done.load(Relaxed).to_string());
    m.sample("edge, spaced (800, 5000, 70000 and default) and random inputs of all functions, read twice".into());
}
