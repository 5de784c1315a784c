//! C25: the table of functions behind `for_each_function!`, the `Identifier` and `BaseName` enums,
//! `MathOp`, and what the macro hands to its callback.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use libm_test::op::{ALL_OPERATIONS, Ty as OpTy};
use libm_test::{BaseName, FloatTy, Identifier, MathOp, TupleCall};

use crate::common::*;
use crate::conv::*;
use crate::gen_::*;
use crate::lib_table::*;
use crate::mon::*;
use crate::ops::Ctx;
use crate::oracle::base;

/// Calls through the generic interface return what the function of that name returns.
pub fn routine<O: MathOp>(c: &Ctx) where O::RustArgs: Tup + std::panic::RefUnwindSafe, O::RustRet: Ret, O::RustFn: std::panic::UnwindSafe {
    let f = c.f;
    let args = Args::new(c.src, &[f]);
    let n = if is_bessel_n(&f) { c.n / 20 } else { c.n };
    let mut g = args.generator(&f, Rng::new(c.m.seed, tag(f.name) ^ 0x2500));
    if O::NAME != f.name || O::IDENTIFIER.as_str() != f.name || O::BASE_NAME.as_str() != base(f.name) {
        c.m.violation_misc(f.name, "MathOp", format!("Routine of {} has NAME {}, IDENTIFIER {}, BASE_NAME {}", f.name, O::NAME, O::IDENTIFIER.as_str(), O::BASE_NAME.as_str()));
    }
    for _ in 0..n {
        let mut a = tuple(&f, &mut g, 30);
        if is_bessel_n(&f) { a[0] = g.r.range(-300, 300) as i32 as u32 as u128; }
        cur(&f, &a);
        let want = f.run(&a);
        let got = O::RustArgs::of(&a).call(O::ROUTINE).out();
        let got2 = O::RustArgs::of(&a).call_intercept_panics(O::ROUTINE).out();
        c.m.seen(tag(f.name), a[0], a[1], a[2]);
        if got != want || got2 != want {
            let eq = |i: usize, x: u128, y: u128| x == y || (f.res[i] != Ty::I32 && f.res[i].is_nan(x) && f.res[i].is_nan(y));
            for g in [got, got2] { if !eq(0, g.0, want.0) || (f.res.len() > 1 && !eq(1, g.1, want.1)) {
                c.m.violation(&f, "MathOp", &a, format!("ROUTINE gave {}, the function gives {}", f.show_out(&g), f.show_out(&want)));
            } }
        }
    }
    c.m.evals(2 * n);
}

fn ty_name(t: Ty) -> &'static str { match t { Ty::F16 => "f16", Ty::F32 => "f32", Ty::F64 => "f64", Ty::F128 => "f128", Ty::I32 => "i32" } }
fn op_ty(t: &OpTy) -> &'static str {
    match t {
        OpTy::F16 => "f16", OpTy::F32 => "f32", OpTy::F64 => "f64", OpTy::F128 => "f128", OpTy::I32 => "i32", OpTy::CInt => "i32",
        OpTy::MutF16 => "&mut f16", OpTy::MutF32 => "&mut f32", OpTy::MutF64 => "&mut f64", OpTy::MutF128 => "&mut f128",
        OpTy::MutI32 => "&mut i32", OpTy::MutCInt => "&mut i32",
    }
}
fn tuple_name(v: &[String]) -> String { match v.len() { 1 => format!("({},)", v[0]), _ => format!("({})", v.join(", ")) } }
fn ret_name(v: &[String]) -> String { match v.len() { 1 => v[0].clone(), _ => format!("({})", v.join(", ")) } }
fn fn_name(a: &[String], r: &[String]) -> String {
    let s = format!("fn({})", a.join(", "));
    if r.is_empty() { s } else { format!("{s} -> {}", ret_name(r)) }
}

/// Signatures in Rust and in C.
struct Sig { fty: &'static str, ra: Vec<String>, rr: Vec<String>, ca: Vec<String>, cr: Vec<String> }
fn sig(f: &Func) -> Sig {
    let s = |t: &[Ty]| t.iter().map(|t| ty_name(*t).to_string()).collect::<Vec<_>>();
    let (ra, rr) = (s(f.args), s(f.res));
    let (mut ca, mut cr) = (ra.clone(), rr.clone());
    if f.res.len() == 2 {
        // in C the results that do not fit go through pointers
        if base(f.name) == "sincos" { for r in &rr { ca.push(format!("&mut {r}")); } cr.clear(); }
        else { ca.push(format!("&mut {}", rr[1])); cr.truncate(1); }
    }
    let t = *f.args.iter().find(|t| **t != Ty::I32).unwrap();
    Sig { fty: ty_name(t), ra, rr, ca, cr }
}

fn camel(s: &str) -> String { s.split('_').map(|p| { let mut c = p.chars(); c.next().map(|f| f.to_ascii_uppercase().to_string() + c.as_str()).unwrap_or_default() }).collect() }

fn names(m: &Mon, l: &'static Lib, ops: &[crate::ops::Op]) {
    let bad = |k: &str, s: String| m.violation_misc(k, "names", s);
    let lib: BTreeSet<&str> = l.funcs().iter().map(|f| f.name).collect();
    let macro_: Vec<&str> = ops.iter().map(|o| o.name).collect();
    let set: BTreeSet<&str> = macro_.iter().copied().collect();
    if set.len() != macro_.len() { bad("for_each_function", "a function occurs twice".into()); }
    for n in lib.symmetric_difference(&set) { bad(n, format!("{n} is {} for_each_function!", if lib.contains(n) { "missing from" } else { "an unknown function in" })); }
    let infos: Vec<&str> = ALL_OPERATIONS.iter().map(|o| o.name).collect();
    if infos.iter().copied().collect::<BTreeSet<_>>() != lib || infos.len() != lib.len() || !infos.is_sorted() { bad("ALL_OPERATIONS", "ALL_OPERATIONS is not the sorted list of functions".into()); }
    let all: Vec<Identifier> = Identifier::ALL.to_vec();
    if all.iter().map(|i| i.as_str()).collect::<BTreeSet<_>>() != lib || all.len() != lib.len() { bad("Identifier", "Identifier::ALL is not the list of functions".into()); }
    for (i, id) in all.iter().enumerate() {
        let n = id.as_str();
        m.evals(8);
        m.seen(0x2510, i as u128, 0, 0);
        if Identifier::from_str(n) != Some(*id) { bad(n, format!("from_str({n}) is {:?}", Identifier::from_str(n))); }
        if id.to_string() != n || format!("{id:?}") != camel(n) { bad(n, format!("{n} is displayed as {id} and {id:?}")); }
        if id.base_name().as_str() != base(n) || id.base_name().to_string() != base(n) { bad(n, format!("base name of {n} is {}", id.base_name())); }
        if !lib.contains(n) { continue; }
        let f = l.func(n);
        let s = sig(&f);
        let o = id.math_op();
        if o.name != n { bad(n, format!("math_op() of {n} is {}", o.name)); }
        let v = |t: &[OpTy]| t.iter().map(|t| op_ty(t).to_string()).collect::<Vec<_>>();
        let got = (v(o.rust_sig.args), v(o.rust_sig.returns), v(o.c_sig.args), v(o.c_sig.returns));
        if got != (s.ra.clone(), s.rr.clone(), s.ca.clone(), s.cr.clone()) { bad(n, format!("{n} has the signatures {got:?}, expected {:?}", (&s.ra, &s.rr, &s.ca, &s.cr))); }
        let fty = match o.float_ty { FloatTy::F16 => "f16", FloatTy::F32 => "f32", FloatTy::F64 => "f64", FloatTy::F128 => "f128" };
        if fty != s.fty || o.float_ty.to_string() != s.fty { bad(n, format!("float type of {n} is {fty}")); }
        for t in o.rust_sig.args.iter().chain(o.rust_sig.returns).chain(o.c_sig.args).chain(o.c_sig.returns) {
            let d = t.to_string().replace("::core::ffi::c_int", "i32");
            if d != op_ty(t) { bad(n, format!("type {t:?} is displayed as {t}")); }
        }
    }
    // functions that differ only in their type share a base name, and no others do
    let mut groups: BTreeMap<BaseName, Vec<&str>> = BTreeMap::new();
    for id in &all { groups.entry(id.base_name()).or_default().push(id.as_str()); }
    for (b, v) in &groups {
        let mut ftys: Vec<&str> = v.iter().filter(|n| lib.contains(**n)).map(|n| sig(&l.func(n)).fty).collect();
        ftys.sort(); let k = ftys.len(); ftys.dedup();
        if ftys.len() != k { bad(b.as_str(), format!("base name {b} groups {v:?}")); }
    }
    if groups.keys().map(|b| b.as_str()).collect::<BTreeSet<_>>() != lib.iter().map(|n| base(n)).collect() { bad("BaseName", "base names differ from those of the functions".into()); }
    // strings that are near a name
    let mut r = Rng::new(m.seed, 0x2501);
    let n = if m.thorough { 2_000_000 } else { 200_000 };
    for _ in 0..n {
        let mut s: Vec<u8> = all[r.below(all.len() as u64) as usize].as_str().bytes().collect();
        for _ in 0..1 + r.below(2) {
            let i = r.below(s.len() as u64 + 1) as usize;
            let c = *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789_ F");
            match r.below(4) { 0 => s.insert(i, c), 1 if i < s.len() => s[i] = c, 2 if i < s.len() => { s.remove(i); } _ => s.make_ascii_uppercase() }
            if s.is_empty() { s.push(b'f'); }
        }
        let s = String::from_utf8(s).unwrap();
        m.evals(1);
        match Identifier::from_str(&s) {
            Some(i) if i.as_str() != s => bad("from_str", format!("from_str({s:?}) is {i}")),
            Some(_) => {}
            None if lib.contains(s.as_str()) => bad("from_str", format!("from_str({s:?}) is None")),
            None => {}
        }
    }
    // the published list of functions
    let p = format!("{}/../../../etc/function-definitions.json", std::env::var("LIBM_SRC").unwrap_or_default());
    if let Ok(t) = std::fs::read_to_string(&p) {
        let mut names = BTreeSet::new();
        let mut cur = "";
        for l in t.lines() {
            if let Some(n) = l.strip_prefix("    \"").and_then(|s| s.split('"').next()) { cur = n; }
            if let Some(ty) = l.trim().strip_prefix("\"type\": \"").and_then(|s| s.split('"').next()) {
                if lib.contains(cur) && ty != sig(&l_func(l_lib(), cur)).fty { bad(cur, format!("listed with type {ty}")); }
                names.insert(cur);
            }
        }
        m.evals(names.len() as u64);
        for n in names.symmetric_difference(&lib) { bad(n, format!("{n} is only {} etc/function-definitions.json", if lib.contains(n) { "absent from" } else { "in" })); }
        m.stat("functions in etc/function-definitions.json", names.len().to_string());
    }
    m.stat("identifiers", all.len().to_string());
    m.stat("base names", groups.len().to_string());
}
fn l_lib() -> &'static Lib { &crate::b_default::LIB }
fn l_func(l: &'static Lib, n: &str) -> Func { l.func(n) }

/// Every tuple shape with every function shape, with distinguishable arguments and results.
fn shapes(m: &Mon) {
    fn chk<T: PartialEq + std::fmt::Debug>(m: &Mon, what: &str, got: T, want: T) {
        m.evals(1);
        if got != want { m.violation_misc("TupleCall", what, format!("{what}: got {got:?}, expected {want:?}")); }
    }
    fn f1(a: f64) -> f32 { (a * 3.0) as f32 }
    fn f2(a: f64, b: i32) -> f32 { (a * 3.0) as f32 + b as f32 * 100.0 }
    fn f3(a: f64, b: f32, c: i32) -> f64 { a + b as f64 * 10.0 + c as f64 * 100.0 }
    fn m1(a: f64, p: &mut i32) -> f64 { *p += (a * 7.0) as i32; a + 1.0 }
    fn m2(a: f64, b: f32, p: &mut i32) -> f64 { *p += (a * 7.0) as i32 + b as i32; a - b as f64 }
    fn m3(a: f64, p: &mut f64, q: &mut f32) { *p += a * 2.0; *q += (a * 5.0) as f32; }
    for i in 0..100 {
        let (x, y, z) = (i as f64 + 0.5, i as f32 * 2.0 - 7.0, 50 - i);
        m.seen(0x2520, i as u128, 0, 0);
        chk(m, "fn(a)", (x,).call(f1 as fn(f64) -> f32), f1(x));
        chk(m, "fn(a, b)", (x, z).call(f2 as fn(f64, i32) -> f32), f2(x, z));
        chk(m, "fn(a, b, c)", (x, y, z).call(f3 as fn(f64, f32, i32) -> f64), f3(x, y, z));
        chk(m, "fn(a, &mut p)", (x,).call(m1 as fn(f64, &mut i32) -> f64), (x + 1.0, (x * 7.0) as i32));
        chk(m, "fn(a, b, &mut p)", (x, y).call(m2 as fn(f64, f32, &mut i32) -> f64), (x - y as f64, (x * 7.0) as i32 + y as i32));
        chk(m, "fn(a, &mut p, &mut q)", (x,).call(m3 as for<'a> fn(f64, &'a mut f64, &'a mut f32)), (x * 2.0, (x * 5.0) as f32));
        chk(m, "intercepted", (x, z).call_intercept_panics(f2 as fn(f64, i32) -> f32), f2(x, z));
    }
    fn p(_: f64) -> f64 { panic!("on purpose") }
    let r = crate::num::quiet(|| (1.0f64,).call_intercept_panics(p as fn(f64) -> f64));
    m.evals(1);
    if r.is_ok() { m.violation_misc("TupleCall", "panic", "call_intercept_panics swallows a panic".into()); }
}

const KINDS: [&str; 7] = ["FTy", "CFn", "CArgs", "CRet", "RustFn", "RustArgs", "RustRet"];

struct Probe { text: String, lines: Vec<String> }
const HEAD: &str = "#![feature(f16, f128)]\n#![allow(unused, non_snake_case, unexpected_cfgs)]\nfn show<T: ?Sized>() -> &'static str { std::any::type_name::<T>() }\n";

/// A program that uses the macro in a random way, and the lines it must print.
fn random_probe(r: &mut Rng, fns: &[Func], full: bool) -> Probe {
    let mut t = String::from(HEAD);
    let mut kinds: Vec<&str> = KINDS.to_vec();
    let all = full || r.below(3) == 0;
    if !all { for i in (1..kinds.len()).rev() { kinds.swap(i, r.below(i as u64 + 1) as usize); } kinds.truncate(r.below(8) as usize); }
    let extra = r.below(3) != 0;
    let fnx = r.below(3) != 0 || full;
    let sub = |r: &mut Rng, n: usize| -> BTreeSet<&'static str> { (0..n).map(|_| r.pick(fns).name).collect() };
    let mode = if full { 0 } else { r.below(3) };
    let k = match mode { 1 => 1 + r.below(40), 2 => 1 + r.below(30), _ => 0 } as usize;
    let chosen = sub(r, k);
    // the callback
    let _ = writeln!(t, "macro_rules! cb {{ (fn_name: $n:ident,");
    for k in &kinds { let _ = write!(t, " {k}: ${k}:ty,"); }
    let _ = write!(t, " attrs: [$($a:meta),*],");
    if extra { let _ = write!(t, " extra: $x:expr,"); }
    if fnx { let _ = write!(t, " fn_extra: $fx:expr,"); }
    let _ = writeln!(t, ") => {{ #[allow(non_snake_case)] pub fn $n() {{ print!(\"{{}}|\", stringify!($n));");
    for k in &kinds {
        if matches!(*k, "CFn" | "CArgs") { let _ = writeln!(t, " {{ fn g<'a>() -> &'static str {{ show::<${k}>() }} print!(\"{k}={{}}|\", g()); }}"); }
        else { let _ = writeln!(t, " print!(\"{k}={{}}|\", show::<${k}>());"); }
    }
    let _ = writeln!(t, " print!(\"[\"); $(print!(\"{{}};\", stringify!($a).split_whitespace().collect::<String>());)* print!(\"]\");");
    if extra { let _ = writeln!(t, " print!(\"x={{}}|\", stringify!($x).split_whitespace().collect::<String>());"); }
    if fnx { let _ = writeln!(t, " print!(\"fx={{}}|\", $fx);"); }
    let _ = writeln!(t, " println!(); }} }} }}");
    // the use
    let mut fields = vec!["callback: cb".to_string()];
    if all { fields.push("emit_types: all".into()); }
    else if kinds.len() == 1 && r.below(2) == 0 { fields.push(format!("emit_types: {}", kinds[0])); }
    else if !kinds.is_empty() { fields.push(format!("emit_types: [{}]", kinds.join(", "))); }
    let list = |s: &BTreeSet<&str>| s.iter().copied().collect::<Vec<_>>().join(", ");
    match mode { 1 => fields.push(format!("only: [{}]", list(&chosen))), 2 => fields.push(format!("skip: [{}]", list(&chosen))), _ => {} }
    let mut groups: Vec<(Vec<String>, BTreeSet<&str>)> = vec![];
    if r.below(2) == 0 || full {
        for i in 0..1 + r.below(4) {
            let metas: Vec<String> = (0..1 + r.below(3)).map(|j| match r.below(3) { 0 => format!("cfg(all(m{i}{j}))"), 1 => format!("meta{i}{j}"), _ => format!("doc=\"m{i}{j}\"") }).collect();
            let k = 1 + r.below(12) as usize;
            groups.push((metas, sub(r, k)));
        }
        let mut s = String::from("attributes: [\n");
        for (i, (ms, fs)) in groups.iter().enumerate() {
            for m in ms { let _ = writeln!(s, "#[{m}]"); }
            let _ = writeln!(s, "[{}]{}", list(fs), if i + 1 < groups.len() || r.below(2) == 0 { "," } else { "" });
        }
        fields.push(s + "]");
    }
    if extra { fields.push("extra: (MACRO_FN_NAME, a.b::<MACRO_FN_NAME_NORMALIZED>(c), [MACRO_FN_NAME_NORMALIZED; 3], |q| MACRO_FN_NAME(q), other)".into()); }
    let mut arms: Vec<(BTreeSet<&str>, u64)> = vec![];
    if fnx {
        let mut used = BTreeSet::new();
        for i in 0..r.below(6) {
            let k = 1 + r.below(5) as usize;
            let s: BTreeSet<&str> = sub(r, k).into_iter().filter(|n| used.insert(*n)).collect();
            if !s.is_empty() { arms.push((s, i)); }
        }
        let mut s = String::from("fn_extra: match MACRO_FN_NAME {\n");
        for (fs, i) in &arms { let _ = writeln!(s, "{} => {{ let MACRO_FN_NAME = \"arm{i}\"; MACRO_FN_NAME }},", fs.iter().copied().collect::<Vec<_>>().join(" | ")); }
        fields.push(s + "_ => names::MACRO_FN_NAME_NORMALIZED::V }");
    }
    // the order of the fields does not matter
    for i in (1..fields.len()).rev() { fields.swap(i, r.below(i as u64 + 1) as usize); }
    let _ = writeln!(t, "mod out {{ use super::*;");
    let body = fields.join(",\n");
    if fnx { let _ = writeln!(t, "mod names {{ {} }}", fns.iter().map(|f| base(f.name)).collect::<BTreeSet<_>>().iter().map(|b| format!("pub mod {b} {{ pub const V: &str = \"default-{b}\"; }}")).collect::<Vec<_>>().join(" ")); }
    let comma = if r.below(2) == 0 { "," } else { "" };
    let _ = writeln!(t, "libm_macros::for_each_function! {{\n{body}{comma}\n}}\n}}\nfn main() {{");
    let mut lines = vec![];
    let mut order: Vec<&Func> = fns.iter().collect();
    order.sort_by_key(|f| f.name);
    for f in order {
        let n = f.name;
        match mode { 1 if !chosen.contains(n) => continue, 2 if chosen.contains(n) => continue, _ => {} }
        let _ = writeln!(t, "out::{n}();");
        let s = sig(f);
        let mut l = format!("{n}|");
        for k in &kinds {
            let v = match *k {
                "FTy" => s.fty.to_string(),
                "CFn" => fn_name(&s.ca, &s.cr),
                "CArgs" => tuple_name(&s.ca),
                "CRet" => ret_name(&s.cr),
                "RustFn" => fn_name(&s.ra, &s.rr),
                "RustArgs" => tuple_name(&s.ra),
                _ => ret_name(&s.rr),
            };
            let _ = write!(l, "{k}={v}|");
        }
        l.push('[');
        for (ms, fs) in &groups { if fs.contains(n) { for m in ms { let _ = write!(l, "{m};"); } } }
        let any = |t: Ty| f.args.contains(&t) || f.res.contains(&t);
        if any(Ty::F16) { l.push_str("cfg(f16_enabled);"); }
        if any(Ty::F128) { l.push_str("cfg(f128_enabled);"); }
        l.push(']');
        let b = base(n);
        if extra { let _ = write!(l, "x=({n},a.b::<{b}>(c),[{b};3],|q|{n}(q),other)|"); }
        if fnx { let _ = match arms.iter().find(|a| a.0.contains(n)) { Some(a) => write!(l, "fx=arm{}|", a.1), None => write!(l, "fx=default-{b}|") }; }
        lines.push(l);
    }
    t.push_str("}\n");
    Probe { text: t, lines }
}

/// Uses that have to be refused, each with what is wrong in it removed.
fn negative() -> Vec<(&'static str, String, String)> {
    let cb0 = "macro_rules! cb { ($($t:tt)*) => {}; }\n";
    let cb = |s: &str| format!("{HEAD}{cb0}libm_macros::for_each_function! {{ callback: cb, {s} }}\nfn main() {{}}\n");
    let at = |s: &str| format!("{HEAD}{s}\nfn main() {{}}\n");
    let mut v: Vec<(&'static str, String, String)> = vec![];
    for (w, bad, good) in [
        ("unknown function in only", "only: [sin, sinq]", "only: [sin, sinf]"),
        ("unknown function in skip", "skip: [cosff]", "skip: [cosf]"),
        ("unknown function in attributes", "attributes: [#[inline] [sinf, nosuch]]", "attributes: [#[inline] [sinf, cosf]]"),
        ("unknown function in fn_extra", "fn_extra: match MACRO_FN_NAME { sinn => 1, _ => 2 }", "fn_extra: match MACRO_FN_NAME { sin => 1, _ => 2 }"),
        ("a base name that is no function", "skip: [lgamma_rf]", "skip: [lgammaf_r]"),
        ("only with skip", "only: [sin], skip: [cos]", "only: [sin]"),
        ("only with skip, other order", "skip: [sin], only: [sin]", "skip: [sin]"),
        ("unknown type", "emit_types: [FTy, Foo]", "emit_types: [FTy, CFn]"),
        ("all with others", "emit_types: [all, FTy]", "emit_types: [all]"),
        ("all after others", "emit_types: [RustRet, all]", "emit_types: [RustRet]"),
        ("unknown field", "extras: [1]", "extra: [1]"),
        ("field twice", "extra: 1, extra: 2", "extra: 1"),
        ("fn_extra without default", "fn_extra: match MACRO_FN_NAME { sin => 1 }", "only: [sin], fn_extra: match MACRO_FN_NAME { sin => 1 }"),
        ("fn_extra missing one of only", "only: [sin, cos, tan], fn_extra: match MACRO_FN_NAME { sin | tan => 1 }", "only: [sin, cos, tan], fn_extra: match MACRO_FN_NAME { sin | tan => 1, cos => 3 }"),
        ("fn_extra key twice", "fn_extra: match MACRO_FN_NAME { sin => 1, cos | sin => 2, _ => 3 }", "fn_extra: match MACRO_FN_NAME { sin => 1, cos | sinf => 2, _ => 3 }"),
        ("fn_extra default twice", "fn_extra: match MACRO_FN_NAME { _ => 1, _ => 2 }", "fn_extra: match MACRO_FN_NAME { _ => 1 }"),
        ("fn_extra guard", "fn_extra: match MACRO_FN_NAME { sin if true => 1, _ => 2 }", "fn_extra: match MACRO_FN_NAME { sin => 1, _ => 2 }"),
        ("fn_extra on something else", "fn_extra: match FN_NAME { _ => 2 }", "fn_extra: match MACRO_FN_NAME { _ => 2 }"),
        ("fn_extra no match", "fn_extra: 3", "extra: 3"),
        ("unknown magic name in extra", "extra: [MACRO_FN]", "extra: [MACRO_FN_NAME]"),
        ("unknown magic name in fn_extra", "fn_extra: match MACRO_FN_NAME { _ => MACRO_FN_NAME_NORMALISED }", "fn_extra: match MACRO_FN_NAME { _ => MACRO_FN_NAME_NORMALIZED }"),
        ("unknown magic name deep inside", "extra: |x| { foo(x, [1, MACRO_NAME.a]) }", "extra: |x| { foo(x, [1, MACRO_FN_NAME.a]) }"),
    ] { v.push((w, cb(bad), cb(good))); }
    v.push(("no callback", format!("{HEAD}{cb0}libm_macros::for_each_function! {{ skip: [sin] }}\nfn main() {{}}\n"), cb("skip: [sin]")));
    let be = |s: &str| format!("#[libm_macros::base_name_enum{s}]\n#[derive(Clone, Copy)]\npub enum B ");
    v.push(("base_name_enum on a non-empty enum", at(&(be("") + "{ A }")), at(&(be("") + "{}"))));
    v.push(("base_name_enum with arguments", at(&(be("(X)") + "{}")), at(&(be("") + "{}"))));
    let ops = "mod op { pub struct MathOpInfo { pub name: &'static str } pub static ALL_OPERATIONS: &[MathOpInfo] = &[]; }\n";
    let fe = |s: &str, b: &str| at(&format!("{ops}#[libm_macros::base_name_enum]\n#[derive(Clone, Copy)]\npub enum B {{}}\n#[libm_macros::function_enum{s}]\n#[derive(Clone, Copy)]\npub enum I {b}"));
    v.push(("function_enum on a non-empty enum", fe("(B)", "{ A }"), fe("(B)", "{}")));
    v.push(("function_enum without its argument", fe("", "{}"), fe("(B)", "{}")));
    v.push(("function_enum with two arguments", fe("(B, C)", "{}"), fe("(B)", "{}")));
    v
}

/// Where cargo put the macro crate of this build.
fn macro_lib(m: &Mon) -> Option<String> {
    let o = Command::new("cargo").args(["build", "--release", "--offline", "--locked", "--message-format=json"]).current_dir(env!("CARGO_MANIFEST_DIR")).stderr(Stdio::null()).output().ok()?;
    let t = String::from_utf8(o.stdout).ok()?;
    let r = t.lines().filter(|l| l.contains("compiler-artifact") && l.contains("\"name\":\"libm_macros\"")).flat_map(|l| l.split('"')).find(|s| s.ends_with(".so")).map(|s| s.to_string());
    if r.is_none() { m.inconclusive("the macro crate was not found".into()); }
    r
}

fn compile(so: &str, dir: &str, name: &str, text: &str, emit: bool) -> Result<Vec<String>, String> {
    let src = format!("{dir}/{name}.rs");
    std::fs::write(&src, text).unwrap();
    let mut c = Command::new("rustc");
    c.args(["--edition", "2024", "--crate-name", "probe", "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "opt-level=0"]).arg("--extern").arg(format!("libm_macros={so}"));
    if emit { c.args(["--crate-type", "bin", "-o"]).arg(format!("{dir}/{name}")); } else { c.args(["--crate-type", "lib", "--emit", "metadata", "-o"]).arg(format!("{dir}/{name}.rmeta")); }
    let o = c.arg(&src).output().expect("rustc");
    if !o.status.success() { return Err(String::from_utf8_lossy(&o.stderr).into_owned()); }
    if !emit { return Ok(vec![]); }
    let o = Command::new(format!("{dir}/{name}")).output().expect("probe");
    Ok(String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect())
}

fn macros(m: &'static Mon, l: &'static Lib) {
    let Some(so) = macro_lib(m) else { return };
    let dir = format!("{}/target/c25-{}", m.verif, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let fns = l.funcs();
    let n = if m.thorough { 400 } else { 24 };
    let lines = AtomicU64::new(0);
    let errs = Mutex::new(BTreeMap::new());
    par(n, |i| {
        let mut r = Rng::new(m.seed, 0x2530 + i as u64);
        let p = random_probe(&mut r, &fns, i == 0);
        let bad = |s: String| m.violation_misc("for_each_function", "expansion", s);
        m.seen(0x2530, i as u128, 0, 0);
        match compile(&so, &dir, &format!("p{i}"), &p.text, true) {
            Err(e) => bad(format!("use {i} (seed {}) does not compile: {}", m.seed, e.lines().take(6).collect::<Vec<_>>().join(" / "))),
            Ok(v) => {
                lines.fetch_add(v.len() as u64, Relaxed);
                m.evals(v.len() as u64);
                m.add_distinct(v.len() as u64);
                for k in 0..v.len().max(p.lines.len()) {
                    let (g, w) = (v.get(k), p.lines.get(k));
                    if g != w { bad(format!("use {i} (seed {}): the callback got {g:?}, expected {w:?}", m.seed)); break; }
                }
            }
        }
    });
    let neg = negative();
    par(neg.len(), |i| {
        let (what, b, g) = &neg[i];
        m.evals(2);
        m.seen(0x2540, i as u128, 0, 0);
        if let Err(e) = compile(&so, &dir, &format!("g{i}"), g, false) { m.violation_misc("for_each_function", "accepts", format!("refuses a correct use ({what}): {}", e.lines().next().unwrap_or(""))); }
        match compile(&so, &dir, &format!("n{i}"), b, false) {
            Ok(_) => m.violation_misc("for_each_function", "refuses", format!("accepts {what}")),
            Err(e) if e.contains("panicked") => m.violation_misc("for_each_function", "refuses", format!("panics on {what}")),
            Err(e) => { errs.lock().unwrap().insert(*what, e.lines().find(|l| l.starts_with("error")).unwrap_or("").to_string()); }
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    if std::env::var("LMT_TIME").is_ok() { for e in errs.lock().unwrap().iter() { eprintln!("{e:?}"); } }
    m.stat("macro uses", format!("{{\"random uses compiled and run\": {n}, \"callback invocations compared\": {}, \"wrong uses refused\": {}}}", lines.load(Relaxed), neg.len()));
}

pub fn check(m: &'static Mon, src: &Source, l: &'static Lib) {
    m.rule("one case is a distinct argument tuple called through MathOp::ROUTINE, a callback invocation of a random macro use, or an identifier");
    let ops = crate::ops::all();
    names(m, l, &ops);
    shapes(m);
    let n = if m.thorough { 2_000_000 } else { 60_000 };
    par(ops.len(), |i| {
        let o = &ops[i];
        let f = l.func(o.name);
        if o.args != f.args || o.rets != f.res || Some(o.fty) != f.args.iter().copied().find(|t| *t != Ty::I32) || o.base != base(o.name) || o.id.as_str() != o.name || o.id_name != o.name {
            m.violation_misc(o.name, "MathOp", format!("MathOp of {}: {:?} -> {:?}, float {:?}, base {}, identifier {}", o.name, o.args, o.rets, o.fty, o.base, o.id));
        }
        (o.routine)(&Ctx { m, src, f, n });
    });
    macros(m, l);
    m.sample("names, signatures and base names of every identifier; ROUTINE of every function; random uses of for_each_function!".into());
}
