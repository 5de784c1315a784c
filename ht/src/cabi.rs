//! C26: the C interface. Every symbol that the source import exports is called through the C ABI
//! and compared with the Rust function of that name; results through pointers must be written
//! completely and nothing around them may change.
use std::collections::BTreeMap;
use std::ffi::{CStr, CString, c_char, c_int, c_void};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use crate::common::*;
use crate::gen_::*;
use crate::lib_table::*;
use crate::mon::*;
use crate::oracle::base;

unsafe extern "C" { fn dlopen(f: *const c_char, m: c_int) -> *mut c_void; fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void; }

/// Functions without a C symbol in the import. All others have one.
const NOT_EXPORTED: &[&str] = &[
    "fmaf128", "fmaxf16", "fmaxf128", "fminf16", "fminf128", "fmaximum", "fmaximumf", "fmaximumf16", "fmaximumf128", "fminimum", "fminimumf",
    "fminimumf16", "fminimumf128", "fmaximum_num", "fmaximum_numf", "fmaximum_numf16", "fmaximum_numf128", "fminimum_num", "fminimum_numf",
    "fminimum_numf16", "fminimum_numf128", "fmodf16", "fmodf128", "ldexpf16", "ldexpf128", "scalbnf16", "scalbnf128", "roundeven", "roundevenf",
    "roundevenf16", "roundevenf128", "roundf16", "roundf128", "sqrtf16", "sqrtf128",
];

fn table(path: &str) -> Option<BTreeMap<String, usize>> {
    unsafe {
        let h = dlopen(CString::new(path).unwrap().as_ptr(), 2);
        if h.is_null() { return None; }
        let mut p = dlsym(h, c"cb_table".as_ptr()) as *const [usize; 2];
        if p.is_null() { return None; }
        let mut t = BTreeMap::new();
        while (*p)[0] != 0 {
            t.insert(CStr::from_ptr((*p)[0] as *const c_char).to_str().unwrap().to_string(), (*p)[1]);
            p = p.add(1);
        }
        Some(t)
    }
}

const GUARD: u8 = 0xA5;
/// A cell for a result, with guards on both sides.
#[repr(C)]
struct Cell<T> { lo: [u8; 16], v: T, hi: [u8; 16] }
impl<T: Copy> Cell<T> {
    fn new(v: T) -> Self { Cell { lo: [GUARD; 16], v, hi: [GUARD; 16] } }
    fn ok(&self) -> bool { self.lo == [GUARD; 16] && self.hi == [GUARD; 16] }
}

/// Calls a symbol. The cells start as `fill`. None: something around a result was written.
fn call(f: &Func, p: usize, a: &[u128; 3], fill: u128) -> Option<Out> {
    macro_rules! c { (($($t:ty),*) -> $r:ty) => { unsafe { std::mem::transmute::<usize, extern "C" fn($($t),*) -> $r>(p) } } }
    let (x, y, z) = (a[0], a[1], a[2]);
    let (h, s, d, i) = (|b: u128| f16::from_bits(b as u16), |b: u128| f32::from_bits(b as u32), |b: u128| f64::from_bits(b as u64), |b: u128| b as u32 as i32);
    let q = f128::from_bits;
    macro_rules! ptr { ($c:ident, $v:expr, $g:expr, $r:expr) => {{ let mut $c = Cell::new($v); let r = $r; if !$c.ok() { return None; } Out(r, $g($c.v)) }} }
    Some(match f.call {
        Call::U16(_) => Out(oh(c!((f16) -> f16)(h(x))), 0),
        Call::U32(_) => Out(os(c!((f32) -> f32)(s(x))), 0),
        Call::U64(_) => Out(od(c!((f64) -> f64)(d(x))), 0),
        Call::U128(_) => Out(oq(c!((f128) -> f128)(q(x))), 0),
        Call::B16(_) => Out(oh(c!((f16, f16) -> f16)(h(x), h(y))), 0),
        Call::B32(_) => Out(os(c!((f32, f32) -> f32)(s(x), s(y))), 0),
        Call::B64(_) => Out(od(c!((f64, f64) -> f64)(d(x), d(y))), 0),
        Call::B128(_) => Out(oq(c!((f128, f128) -> f128)(q(x), q(y))), 0),
        Call::T32(_) => Out(os(c!((f32, f32, f32) -> f32)(s(x), s(y), s(z))), 0),
        Call::T64(_) => Out(od(c!((f64, f64, f64) -> f64)(d(x), d(y), d(z))), 0),
        Call::T128(_) => Out(oq(c!((f128, f128, f128) -> f128)(q(x), q(y), q(z))), 0),
        Call::FI16(_) => Out(oh(c!((f16, c_int) -> f16)(h(x), i(y))), 0),
        Call::FI32(_) => Out(os(c!((f32, c_int) -> f32)(s(x), i(y))), 0),
        Call::FI64(_) => Out(od(c!((f64, c_int) -> f64)(d(x), i(y))), 0),
        Call::FI128(_) => Out(oq(c!((f128, c_int) -> f128)(q(x), i(y))), 0),
        Call::IF32(_) => Out(os(c!((c_int, f32) -> f32)(i(x), s(y))), 0),
        Call::IF64(_) => Out(od(c!((c_int, f64) -> f64)(i(x), d(y))), 0),
        Call::I32(_) => Out(oi(c!((f32) -> c_int)(s(x))), 0),
        Call::I64(_) => Out(oi(c!((f64) -> c_int)(d(x))), 0),
        Call::PP32(_) if base(f.name) == "sincos" => {
            let (mut u, mut v) = (Cell::new(s(fill)), Cell::new(s(fill)));
            c!((f32, *mut f32, *mut f32) -> ())(s(x), &mut u.v, &mut v.v);
            if !u.ok() || !v.ok() { return None; }
            Out(os(u.v), os(v.v))
        }
        Call::PP64(_) if base(f.name) == "sincos" => {
            let (mut u, mut v) = (Cell::new(d(fill)), Cell::new(d(fill)));
            c!((f64, *mut f64, *mut f64) -> ())(d(x), &mut u.v, &mut v.v);
            if !u.ok() || !v.ok() { return None; }
            Out(od(u.v), od(v.v))
        }
        Call::PP32(_) => ptr!(k, s(fill), os, os(c!((f32, *mut f32) -> f32)(s(x), &mut k.v))),
        Call::PP64(_) => ptr!(k, d(fill), od, od(c!((f64, *mut f64) -> f64)(d(x), &mut k.v))),
        Call::PI32(_) => ptr!(k, i(fill), oi, os(c!((f32, *mut c_int) -> f32)(s(x), &mut k.v))),
        Call::PI64(_) => ptr!(k, i(fill), oi, od(c!((f64, *mut c_int) -> f64)(d(x), &mut k.v))),
        Call::Q32(_) => ptr!(k, i(fill), oi, os(c!((f32, f32, *mut c_int) -> f32)(s(x), s(y), &mut k.v))),
        Call::Q64(_) => ptr!(k, i(fill), oi, od(c!((f64, f64, *mut c_int) -> f64)(d(x), d(y), &mut k.v))),
    })
}

pub fn check(m: &'static Mon, src: &Source, l: &'static Lib, dir: &str) {
    m.rule("one case is a distinct argument tuple passed to one exported symbol of one build");
    let fns = l.funcs();
    let calls = AtomicU64::new(0);
    let mut exported = vec![];
    for build in ["default", "noarch", "checked"] {
        let Some(t) = table(&format!("{dir}/{build}/libcb.so")) else { m.inconclusive(format!("the {build} build of the C interface could not be loaded")); continue };
        exported.push(format!("\"{build}\": {}", t.len()));
        for f in &fns {
            if !t.contains_key(f.name) && !NOT_EXPORTED.contains(&f.name) { m.violation_misc(f.name, build, format!("{} is not exported by the {build} build of the C interface", f.name)); }
        }
        let list: Vec<(&Func, usize)> = fns.iter().filter_map(|f| t.get(f.name).map(|p| (f, *p))).collect();
        for (n, _) in t.iter().filter(|(n, _)| !fns.iter().any(|f| f.name == **n)) { m.inconclusive(format!("no signature is known for the exported symbol {n}")); }
        let n = if m.thorough { 3_000_000 } else { 120_000 };
        par(list.len(), |k| {
            let (f, p) = list[k];
            let f = Func { ..*f };
            let args = Args::new(src, &[f]);
            let n = n / if is_bessel_n(&f) { 40 } else { 1 } / if build == "checked" { 4 } else { 1 };
            let mut g = args.generator(&f, Rng::new(m.seed, tag(f.name) ^ tag(build)));
            for j in 0..n {
                let mut a = tuple(&f, &mut g, 30);
                if is_bessel_n(&f) { a[0] = g.r.range(-300, 300) as i32 as u32 as u128; }
                cur(&f, &a);
                m.seen(tag(f.name) ^ tag(build), a[0], a[1], a[2]);
                let want = f.run(&a);
                // a stale value in the cell must not survive: it differs from the right one
                let fill = if j & 1 == 0 { !want.1 } else { !want.0 ^ want.1 };
                match call(&f, p, &a, fill) {
                    None => m.violation(&f, build, &a, "the C function wrote beside its result".into()),
                    Some(got) => if !f.same(&got, &want) {
                        m.violation(&f, build, &a, format!("through the C interface {}, in Rust {}", f.show_out(&got), f.show_out(&want)));
                    },
                }
            }
            m.evals(n);
            calls.fetch_add(n, Relaxed);
        });
    }
    m.stat("exported symbols", format!("{{{}}}", exported.join(", ")));
    m.stat("calls through the C ABI", calls.load(Relaxed).to_string());
    m.sample("every exported symbol of three builds on generated arguments, against the Rust function".into());
}
