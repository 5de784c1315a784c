//! C22: the crate compiled for other targets computes the same results there.
#![feature(f16, f128, let_chains)]
#![allow(clippy::all, dead_code)]
#[path = "../../h/src/common.rs"]
mod common;
#[path = "../../h/src/gen.rs"]
mod gen_;
#[path = "../../h/src/guided.rs"]
mod guided;
#[path = "../../h/src/lib_table.rs"]
mod lib_table;
#[path = "../../h/src/mon.rs"]
mod mon;

pub mod b_default { use libm as L; const NAME: &str = "default"; include!("../../h/src/table.rs"); }

use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

use common::*;
use gen_::*;
use lib_table::*;
use mon::*;

#[repr(C)]
#[derive(Clone, Copy)]
struct Rec { f: u32, pad: [u32; 3], a: [u128; 3] }
const BLOCK: usize = 2048;

struct Guest { c: Child, names: Vec<String> }

fn start(dir: &str, name: &str) -> Guest {
    let path = format!("{dir}/{name}");
    let mut cmd = if name.starts_with("wasm") {
        let mut c = Command::new("node");
        c.arg(concat!(env!("CARGO_MANIFEST_DIR"), "/guest/wasm.js")).arg(&path);
        c
    } else { Command::new(&path) };
    let mut c = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("guest");
    let o = c.stdout.as_mut().unwrap();
    let mut h = [0u8; 8];
    o.read_exact(&mut h).expect("guest header");
    let mut n = vec![0; u32::from_le_bytes(h[..4].try_into().unwrap()) as usize];
    o.read_exact(&mut n).expect("guest names");
    let names = String::from_utf8(n).unwrap().lines().map(String::from).collect();
    Guest { c, names }
}

enum Answer { Ok, Panic(usize), Died }

/// Send a block; the answers replace the arguments.
fn ask(g: &mut Guest, b: &mut [Rec]) -> Answer {
    let bytes = unsafe { std::slice::from_raw_parts_mut(b.as_mut_ptr() as *mut u8, size_of_val(b)) };
    let i = g.c.stdin.as_mut().unwrap();
    let mut h = [0u8; 8];
    h[..4].copy_from_slice(&(b.len() as u32).to_le_bytes());
    if i.write_all(&h).is_err() || i.write_all(bytes).is_err() || i.flush().is_err() { return Answer::Died; }
    let o = g.c.stdout.as_mut().unwrap();
    if o.read_exact(&mut h).is_err() { return Answer::Died; }
    let n = u32::from_le_bytes(h[..4].try_into().unwrap());
    if n == u32::MAX { return Answer::Panic(u32::from_le_bytes(h[4..].try_into().unwrap()) as usize); }
    if o.read_exact(bytes).is_err() { return Answer::Died; }
    Answer::Ok
}

include!("i586.rs");

/// The call site under which a difference is reported: known findings name it exactly.
fn at(f: &Func, target: &str, got: &Out, want: &Out) -> Func {
    let mut f = *f;
    if target == "i586" {
        f.name = match (f.name, got.0, want.0) {
            ("ceil", 0, 0x8000_0000_0000_0000) => "i586:ceil:sign-of-zero",
            ("floor", 0, 0x8000_0000_0000_0000) => "i586:floor:sign-of-zero",
            _ => f.name,
        };
    }
    f
}

/// The interpreter on a big-endian target.
fn big_endian(m: &'static Mon, tab: &[Func]) {
    let n = if m.thorough { 300 } else { 10 };
    let dir = format!("{}/hm", m.verif);
    let (calls, bad) = (AtomicU64::new(0), AtomicU64::new(0));
    let t = "aarch64_be-unknown-linux-gnu";
    let run = |args: &[&str], part: usize| Command::new("cargo").current_dir(&dir).args(["miri"]).args(args)
        .env("RUSTUP_TOOLCHAIN", "nightly").env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TARGET_DIR", format!("{}/target/miribe{part}", m.verif))
        .env("RUSTFLAGS", "-Awarnings").env_remove("RUSTC_WRAPPER").env_remove("CARGO_BUILD_TARGET")
        .env("MIRIFLAGS", "-Zmiri-disable-isolation").output().expect("cargo miri");
    run(&["setup", "--target", t], 0);
    par(8, |p| {
        let o = run(&["run", "--locked", "--quiet", "--target", t, "--", &p.to_string(), &n.to_string(), &m.seed.to_string(), "show"], p);
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let mut last = String::new();
        for l in out.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if w.len() != 7 || w[0] != "R" { continue; }
            let f = &tab[w[1].parse::<usize>().unwrap()];
            let v: Vec<u128> = w[2..].iter().map(|x| parse_u128(x)).collect();
            let (a, got) = ([v[0], v[1], v[2]], Out(v[3], v[4]));
            cur(f, &a);
            let want = f.run(&a);
            m.seen(tag(f.name) ^ 77, a[0], a[1], a[2]);
            if !f.same(&got, &want) { m.violation(f, "big-endian", &a, format!("{} on {t}, {} natively", f.show_out(&got), f.show_out(&want))); }
            calls.fetch_add(1, Relaxed);
            last = format!("{}({})", f.name, f.show_in(&a));
        }
        if !o.status.success() {
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            let e = err.lines().find(|l| l.contains("panicked") || l.contains("Undefined Behavior")).unwrap_or("");
            if e.is_empty() { println!("{}", err.lines().take(20).collect::<Vec<_>>().join("\n")); bad.fetch_add(1, Relaxed); }
            else { m.violation_misc("?", "big-endian", format!("{e}; the last call that returned: {last}")); }
        }
    });
    if bad.load(Relaxed) > 0 { m.inconclusive("the interpreter could not run the workload".into()); }
    m.evals(calls.load(Relaxed));
    m.stat("calls_on_big_endian", calls.load(Relaxed).to_string());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let m = install(Mon::new("C22"));
    let dir = &a[2];
    let src = Source::load();
    let tab = b_default::LIB.funcs();
    let args = Args::new(&src, &tab);
    m.rule("Each input runs in the native build and in the same sources compiled for other targets and executed there: i686 (SSE2, soft-float and checked), i586 (x87), wasm32 (in node; with the portable and with the wasm-specific routines), x86-64 without vector registers (the soft-float target of kernels), for size with link-time optimization, with the stable toolchain and default features, and for a newer processor (AVX2, FMA), the routines of arch/aarch64.rs (their inline assembly is interpreted instruction by instruction), and a sample on a big-endian 64-bit target in the interpreter. All result bits are compared, any NaN being equal to any NaN. On i586, whose x87 arithmetic has excess precision, the functions that do not depend on intermediate rounding are compared bit for bit. A case is one argument tuple of one function on one target.");
    let mut targets = vec!["i686", "i686-soft", "i686-checked", "wasm32", "wasm32-arch", "i586", "aarch64", "x86_64-nosse", "x86_64-size", "x86_64-stable"];
    if is_x86_feature_detected!("avx2") && is_x86_feature_detected!("fma") && is_x86_feature_detected!("bmi2") && is_x86_feature_detected!("lzcnt") && is_x86_feature_detected!("movbe") && is_x86_feature_detected!("f16c") { targets.push("x86_64-v3"); }
    // The routines of arch/aarch64.rs, with their inline assembly interpreted.
    let a64: Vec<String> = if std::path::Path::new(&format!("{dir}/aarch64")).exists() { let mut g = start(dir, "aarch64"); drop(g.c.stdin.take()); let _ = g.c.wait(); g.names } else { vec![] };
    let only = a.get(3).map(|s| s.as_str());
    let n: u64 = if m.thorough { 20_000_000 } else { 400_000 };
    let mut jobs = vec![];
    for (ti, t) in targets.iter().enumerate() {
        if only.is_some_and(|o| o != *t) { continue; }
        for (fi, f) in tab.iter().enumerate() {
            if t.starts_with("wasm") && f.args[0] == Ty::F16 { continue; }
            if *t == "x86_64-stable" && matches!(f.args[0], Ty::F16 | Ty::F128) { continue; }
            if *t == "aarch64" && !a64.iter().any(|n| n == f.name) { continue; }
            if *t == "i586" && !on_i586(f.name) { continue; }
            for c in 0..(n / weight(f)).div_ceil(BLOCK as u64) { jobs.push((ti, fi, c)); }
        }
    }
    let found: Vec<Vec<[u128; 3]>> = tab.iter().map(|f| guided::guided(m, f)).collect();
    let next = AtomicU64::new(0);
    let calls: Vec<AtomicU64> = targets.iter().map(|_| AtomicU64::new(0)).collect();
    let skipped: Mutex<std::collections::BTreeSet<&str>> = Mutex::default();
    let differ: Mutex<std::collections::BTreeMap<String, (u64, u64)>> = Mutex::default();
    // a guest that does not answer is ended
    let busy: Vec<Mutex<Option<(Instant, u32, bool)>>> = (0..8).map(|_| Mutex::new(None)).collect();
    let done = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| while !done.load(Relaxed) {
            std::thread::sleep(Duration::from_millis(500));
            for b in &busy {
                let mut b = b.lock().unwrap();
                if let Some((t, pid, k)) = b.as_mut() && t.elapsed() > Duration::from_secs(90) && !*k {
                    *k = true;
                    let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
                }
            }
        });
        let hs: Vec<_> = (0..8).map(|w| {
            let (jobs, tab, args, found, next, busy, calls, targets, differ, a64, skipped) = (&jobs, &tab, &args, &found, &next, &busy, &calls, &targets, &differ, &a64, &skipped);
            s.spawn(move || {
                let mut g: Option<(usize, Guest)> = None;
                loop {
                    let ji = next.fetch_add(1, Relaxed) as usize;
                    if ji >= jobs.len() || m.too_many() { break; }
                    let (ti, fi, c) = jobs[ji];
                    let f = &tab[fi];
                    if g.as_ref().is_none_or(|x| x.0 != ti) {
                        if let Some((_, mut x)) = g.take() { drop(x.c.stdin.take()); let _ = x.c.wait(); }
                        let x = start(dir, targets[ti]);
                        assert!(targets[ti] == "aarch64" || x.names.len() == tab.len() && x.names.iter().zip(tab).all(|(a, b)| a == b.name));
                        g = Some((ti, x));
                    }
                    let gu = &mut g.as_mut().unwrap().1;
                    let mut gen_ = args.generator(f, Rng::new(m.seed ^ tag(f.name) ^ 0xc22, c));
                    let mut b: Vec<Rec> = (0..BLOCK as usize).map(|k| {
                        // half of the arguments come from the coverage-guided search as long as there are any
                        let a = match found[fi].get(c as usize * (BLOCK as usize / 2) + k / 2) { Some(a) if k & 1 == 0 => *a, _ => tuple(f, &mut gen_, 100) };
                        m.seen(tag(f.name) ^ ti as u64, a[0], a[1], a[2]);
                        Rec { f: fi as u32, pad: [0; 3], a }
                    }).collect();
                    if targets[ti] == "aarch64" { let k = a64.iter().position(|n| n == f.name).unwrap() as u32; for r in &mut b { r.f = k; } }
                    let ins = b.clone();
                    *busy[w].lock().unwrap() = Some((Instant::now(), gu.c.id(), false));
                    let r = ask(gu, &mut b);
                    let killed = busy[w].lock().unwrap().take().unwrap().2;
                    match r {
                        Answer::Ok => {}
                        Answer::Panic(k) => { m.violation(f, targets[ti], &ins[k].a, "panic or trap".into()); g = None; continue; }
                        // an instruction that the interpreter does not know: no verdict on this routine
                        Answer::Died if targets[ti] == "aarch64" && !killed => { g = None; skipped.lock().unwrap().insert(f.name); continue; }
                        Answer::Died => {
                            // which call? ask one by one
                            g = None;
                            let mut x = start(dir, targets[ti]);
                            let mut found = false;
                            if !killed { for r in &ins {
                                let mut one = [*r];
                                match ask(&mut x, &mut one) {
                                    Answer::Ok => {}
                                    _ => { m.violation(f, targets[ti], &r.a, "the program ended".into()); found = true; break; }
                                }
                            } }
                            // the other blocks would take as long
                            if killed { next.store(jobs.len() as u64, Relaxed); }
                            if !found { m.violation_misc(f.name, targets[ti], format!("{} for a block of calls that starts with ({})", if killed { "no answer within 90 s" } else { "the program ended" }, f.show_in(&ins[0].a))); }
                            continue;
                        }
                    }
                    for (i, r) in ins.iter().zip(&b) {
                        cur(f, &i.a);
                        let want = f.run(&i.a);
                        let got = Out(r.a[0], if f.res.len() > 1 { r.a[1] } else { 0 });
                        if got != want && !f.same(&got, &want) {
                            if only.is_some() {
                                let mut d = differ.lock().unwrap();
                                let e = d.entry(f.name.into()).or_default();
                                e.0 += 1;
                                if e.0 <= 2 { println!("{}({}) = {} native, {} {}", f.name, f.show_in(&i.a), f.show_out(&want), f.show_out(&got), targets[ti]); }
                            } else { m.violation(&at(f, targets[ti], &got, &want), targets[ti], &i.a, format!("{} on {}, {} natively", f.show_out(&got), targets[ti], f.show_out(&want))); }
                        }
                    }
                    calls[ti].fetch_add(BLOCK as u64, Relaxed);
                    m.evals(BLOCK as u64);
                }
                if let Some((_, mut x)) = g { drop(x.c.stdin.take()); let _ = x.c.wait(); }
            })
        }).collect();
        for h in hs { h.join().unwrap(); }
        done.store(true, Relaxed);
    });
    if only.is_some() { for (n, c) in differ.lock().unwrap().iter() { println!("{n}: {} differ", c.0); } return; }
    if m.nviol() == 0 { big_endian(m, &tab); }
    m.stat("calls_per_target", format!("{{{}}}", targets.iter().zip(&calls).map(|(t, c)| format!("\"{t}\": {}", c.load(Relaxed))).collect::<Vec<_>>().join(", ")));
    m.stat("routines of arch/aarch64.rs", format!("{:?}", a64));
    m.stat("of these not judged (unknown instruction)", format!("{:?}", skipped.lock().unwrap()));
    m.stat("functions", tab.len().to_string());
    std::process::exit(m.finish());
}
