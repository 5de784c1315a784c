//! C14: every function returns for every argument: no panic, no memory error, no endless loop.
#![feature(f16, f128)]
#![allow(clippy::all, dead_code)]
#[path = "../../h/src/common.rs"]
mod common;
#[path = "../../h/src/gen.rs"]
mod gen_;
#[path = "../../h/src/guided.rs"]
mod guided;
#[path = "../../h/src/lib_table.rs"]
mod lib_table;
#[path = "../../h/src/mon.rs"]
mod mon;

macro_rules! build { ($m:ident, $c:ident, $n:literal) => { pub mod $m { use $c as L; const NAME: &str = $n; include!("../../h/src/table.rs"); } }; }
build!(b_default, libm, "default");
build!(b_soft, libm_soft, "soft");
build!(b_intr, libm_intr, "intrinsics");
build!(b_chk, libm_chk, "checked");
build!(b_chksoft, libm_chksoft, "checked-soft");

use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use common::*;
use gen_::*;
use lib_table::*;
use mon::*;

fn builds() -> [&'static Lib; 5] { [&b_default::LIB, &b_soft::LIB, &b_intr::LIB, &b_chk::LIB, &b_chksoft::LIB] }

unsafe extern "C" {
    fn cov_begin(lim: u64, slot: *mut u32);
    fn cov_end() -> u64;
    fn cov_total() -> u32;
    fn cov_hit() -> u32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

/// Edges a call may execute. Generous: an order of magnitude over what is ever needed, and far
/// below what an endless or input-proportional loop reaches.
fn limit(f: &Func, a: &[u128; 3]) -> u64 {
    let ty = *f.args.iter().find(|t| **t != Ty::I32).unwrap();
    let b = f.name;
    if is_bessel_n(f) { return 20_000 + 2_000 * (a[0] as u32 as i32).unsigned_abs() as u64; }
    if b.starts_with("fmod") || b.starts_with("rem") {
        // one step per bit of the quotient
        return 20_000 + (1 << (ty.bits() - 1 - ty.sig())) * 60;
    }
    4_000
}

// The call in progress, one slot per thread, in memory shared with the parent process.
#[repr(C)]
#[derive(Clone, Copy)]
struct Slot { state: u32, lib: u32, func: u32, pad: u32, a: [u128; 3] }
const SLOTS: usize = 64;

fn shared(path: &str) -> *mut Slot {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
    let len = SLOTS * std::mem::size_of::<Slot>();
    f.set_len(len as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    p as *mut Slot
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("C14") => std::process::exit(parent()),
        Some("child") => child(&args[2]),
        Some("one") => {
            // one LIB FUNC BITS...
            std::panic::set_hook(Box::new(|i| { println!("PANIC {i}"); std::process::exit(78) }));
            let lib = builds()[args[2].parse::<usize>().unwrap()];
            let f = lib.func(&args[3]);
            let mut a = [0u128; 3];
            for (i, t) in args[4..].iter().take(3).enumerate() { a[i] = parse_u128(t); }
            unsafe { cov_begin(limit(&f, &a), std::ptr::null_mut()); }
            let o = f.run(&a);
            let s = unsafe { cov_end() };
            println!("{}({}) = {}  [{} edges]", f.name, f.show_in(&a), f.show_out(&o), s);
        }
        _ => { eprintln!("usage: lma C14"); std::process::exit(2); }
    }
}

fn exe() -> std::path::PathBuf { std::env::current_exe().unwrap() }

fn parent() -> i32 {
    let m = install(Mon::new("C14"));
    let path = format!("{}/target/slots-{}", m.verif, std::process::id());
    let _ = std::fs::remove_file(&path);
    let slots = shared(&path);
    let out = std::process::Command::new(exe()).arg("child").arg(&path).output().expect("child");
    let txt = String::from_utf8_lossy(&out.stdout).to_string();
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    m.rule("Every call runs in an instrumented build: release under AddressSanitizer (default, soft-float and intrinsics configurations, unchecked indexing active) and two builds with debug assertions, overflow checks and checked indexing. Observed: it returns; no panic, signal or sanitizer report; and the number of control-flow edges it executes stays below a limit fixed per function. A case is one argument tuple of one function in one build.");
    for l in txt.lines() {
        if let Some((k, v)) = l.strip_prefix("STAT ").and_then(|s| s.split_once('\t')) { m.stat(k, v.into()); }
        if let Some(v) = l.strip_prefix("EVALS ") { m.evals(v.parse().unwrap()); }
        if let Some(v) = l.strip_prefix("DISTINCT ") { m.add_distinct(v.parse().unwrap()); }
        if let Some(v) = l.strip_prefix("SAMPLE ") { m.sample(v.into()); }
    }
    if !out.status.success() || !txt.contains("END") {
        // which calls were in progress?
        let mut found = 0;
        let libs = builds();
        for i in 0..SLOTS {
            let s = unsafe { std::ptr::read_volatile(slots.add(i)) };
            if s.state == 0 { continue; }
            let lib = libs[s.lib as usize];
            let f = lib.funcs()[s.func as usize];
            let mut c = std::process::Command::new(exe());
            c.args(["one", &s.lib.to_string(), f.name]);
            for a in s.a { c.arg(format!("{a:#x}")); }
            let o = c.output().expect("child");
            if o.status.success() { continue; }
            found += 1;
            let what = match o.status.code() {
                Some(77) => format!("did not return within {} edges", limit(&f, &s.a)),
                Some(78) => String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").to_string(),
                _ => {
                    let e = String::from_utf8_lossy(&o.stderr).to_string();
                    let l = e.lines().find(|l| l.contains("ERROR: AddressSanitizer")).unwrap_or("").to_string();
                    format!("{:?} signal {:?} {l}", o.status.code(), o.status.signal())
                }
            };
            m.violation(&f, lib.name, &s.a, what);
        }
        if found == 0 {
            println!("{}", err.lines().take(40).collect::<Vec<_>>().join("\n"));
            println!("the workload process ended with {:?} and no call reproduces it; no verdict", out.status);
            let _ = std::fs::remove_file(&path);
            return 3;
        }
        if m.nviol() > 0 { m.evals(1); m.add_distinct(1); }
    }
    let _ = std::fs::remove_file(&path);
    if let Some(r) = miri(m) { return r; }
    m.finish()
}

/// A small workload under the undefined-behaviour interpreter.
fn miri(m: &'static Mon) -> Option<i32> {
    let n = if m.thorough { 500 } else { 12 };
    let dir = format!("{}/hm", m.verif);
    if !std::path::Path::new(&dir).exists() { return None; }
    let run = |part: usize, n: usize| {
        std::process::Command::new("cargo").current_dir(&dir)
            .args(["miri", "run", "--locked", "--quiet", "--", &part.to_string(), &n.to_string(), &m.seed.to_string()])
            .env("RUSTUP_TOOLCHAIN", "nightly").env("CARGO_NET_OFFLINE", "true")
            .env("CARGO_TARGET_DIR", format!("{}/target/miri{part}", m.verif))
            .env("RUSTFLAGS", "-Awarnings").env_remove("RUSTC_WRAPPER").env_remove("CARGO_BUILD_TARGET")
            .env("MIRIFLAGS", "-Zmiri-disable-isolation").output().expect("cargo miri")
    };
    let total = AtomicU64::new(0);
    let rc = AtomicU64::new(0);
    par(8, |p| {
        let o = run(p, n);
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        for l in out.lines() { if let Some(v) = l.strip_prefix("CALLS ") { total.fetch_add(v.parse().unwrap(), Relaxed); } }
        if o.status.success() { return; }
        let last = out.lines().filter(|l| l.starts_with("@")).last().unwrap_or("").to_string();
        let ub = err.lines().find(|l| l.starts_with("error:") || l.contains("panicked")).unwrap_or("").to_string();
        if ub.contains("Undefined Behavior") || ub.contains("panicked") {
            m.violation_misc("?", "miri", format!("{ub}; last call announced: {last}"));
        } else { println!("{}", err.lines().take(30).collect::<Vec<_>>().join("\n")); rc.store(3, Relaxed); }
    });
    m.stat("interpreted_calls", total.load(Relaxed).to_string());
    m.evals(total.load(Relaxed));
    if rc.load(Relaxed) != 0 { m.inconclusive("the interpreter could not run the workload".into()); }
    None
}

/// Any order of the i32 range, with an argument for which the recurrence is short.
fn far_order(f: &Func, a: &mut [u128; 3], g: &mut Gen) {
    let n = match g.r.below(4) {
        0 => *g.r.pick(&[i32::MIN, i32::MIN + 1, i32::MIN + 2, i32::MAX, i32::MAX - 1]),
        1 => { let k = g.r.below(32) as u32; (1u32 << k).wrapping_add(g.r.range(-2, 2) as u32) as i32 }
        2 => { let k = g.r.below(32) as u32; (1u32 << k).wrapping_add(g.r.range(-2, 2) as u32).wrapping_neg() as i32 }
        _ => g.r.u64() as i32,
    };
    a[0] = n as u32 as u128;
    let f32_ = f.args[1] == Ty::F32;
    let x = match g.r.below(6) {
        0 => 0.0, 1 => f64::INFINITY, 2 => f64::NAN,
        3 if !f32_ => (g.r.unit() * 720.0 * std::f64::consts::LN_2).exp() * 1e91 * 2.0, // above 2^302: asymptotic form
        _ => 0.5f64.powf(33.0 + g.r.unit() * 90.0),
    };
    let x = if g.r.below(3) == 0 { -x } else { x };
    a[1] = if f32_ { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
}

fn child(path: &str) {
    let slots = shared(path) as usize;
    std::panic::set_hook(Box::new(|i| { eprintln!("{i}"); std::process::exit(78) }));
    let verif = Mon::new("C14");
    let m = &verif;
    let src = Source::load();
    let libs = builds();
    let tabs: Vec<Vec<Func>> = libs.iter().map(|l| l.funcs()).collect();
    let args = Args::new(&src, &tabs[0]);
    let n: u64 = if m.thorough { 20_000_000 } else { 500_000 };
    let per = 2048u64;
    let mut jobs = vec![];
    for (fi, f) in tabs[0].iter().enumerate() {
        for c in 0..(n / weight(f)).div_ceil(per) { jobs.push((fi, c)); }
    }
    let maxs: Mutex<BTreeMap<&'static str, (u64, String)>> = Mutex::default();
    let (next, calls) = (AtomicU64::new(0), AtomicU64::new(0));
    std::thread::scope(|s| for t in 0..8usize {
        let (jobs, tabs, args, maxs, next, calls) = (&jobs, &tabs, &args, &maxs, &next, &calls);
        s.spawn(move || {
            let slot = unsafe { (slots as *mut Slot).add(t) };
            loop {
                let ji = next.fetch_add(1, Relaxed) as usize;
                if ji >= jobs.len() { break; }
                let (fi, c) = jobs[ji];
                let f0 = &tabs[0][fi];
                let t = tag(f0.name);
                let mut g = args.generator(f0, Rng::new(m.seed ^ t ^ 0xc14, c));
                let (mut mx, mut ma) = (0, [0u128; 3]);
                let found = if c == 0 { guided::guided(m, f0) } else { vec![] };
                calls.fetch_add(per + found.len() as u64, Relaxed);
                for k in 0..per as usize + found.len() {
                    let mut a = if k < found.len() { found[k] } else { tuple(f0, &mut g, 400) };
                    // now and then the extreme orders that end quickly
                    if is_bessel_n(f0) && k >= found.len() { match g.r.below(64) {
                        0 => a[0] = g.r.range(-20000, 20000) as i32 as u32 as u128,
                        1 | 2 => far_order(f0, &mut a, &mut g),
                        _ => {}
                    } }
                    m.seen(t, a[0], a[1], a[2]);
                    for (bi, tab) in tabs.iter().enumerate() {
                        let f = &tab[fi];
                        unsafe {
                            std::ptr::write_volatile(slot, Slot { state: 1, lib: bi as u32, func: fi as u32, pad: 0, a });
                            cov_begin(limit(f, &a), slot as *mut u32);
                            std::hint::black_box(f.run(&a));
                            let st = cov_end();
                            std::ptr::write_volatile(&raw mut (*slot).state, 0);
                            let st = st * 1000 / limit(f, &a);
                            if st > mx { mx = st; ma = a; }
                        }
                    }
                }
                let mut g = maxs.lock().unwrap();
                let e = g.entry(f0.name).or_default();
                if mx > e.0 { *e = (mx, f0.show_in(&ma)); }
            }
        });
    });
    println!("EVALS {}", calls.load(Relaxed) * tabs.len() as u64);
    println!("STAT arguments from the coverage-guided search, with neighbours\t{}", m.guided.load(Relaxed));
    let g = maxs.lock().unwrap();
    let mut v: Vec<_> = g.iter().collect();
    v.sort_by_key(|e| std::cmp::Reverse(e.1.0));
    for (f, (s, a)) in v.iter().take(8) { println!("SAMPLE longest call of {f}: {:.1} % of its edge limit, at ({a})", *s as f64 / 10.0); }
    println!("STAT edges_instrumented\t{}", unsafe { cov_total() });
    println!("STAT edges_executed\t{}", unsafe { cov_hit() });
    println!("STAT functions\t{}", tabs[0].len());
    println!("STAT builds\t{:?}", libs.iter().map(|l| l.name).collect::<Vec<_>>());
    println!("STAT longest_call_in_permille_of_limit\t{{{}}}", g.iter().map(|(f, (s, _))| format!("{}: {s}", json_str(f))).collect::<Vec<_>>().join(", "));
    println!("DISTINCT {}", m.distinct());
    println!("END");
}
