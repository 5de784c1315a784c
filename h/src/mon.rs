//! The monitor: counts what was observed, collects violations, applies the list of known
//! findings, writes the evidence file and decides the exit status.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

use crate::lib_table::*;

pub struct Viol {
    pub func: String,
    pub build: String,
    /// Bits of the arguments, when the violation has the shape of one call.
    pub input: Option<Vec<u128>>,
    pub text: String,
}

pub struct Mon {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub verif: String,
    start: Instant,
    evals: AtomicU64,
    pub guided: AtomicU64,
    enumerated: AtomicU64,
    map: Vec<AtomicU64>,
    viol: Mutex<Vec<Viol>>,
    nviol: AtomicU64,
    known: Vec<Known>,
    known_hits: Mutex<BTreeMap<usize, u64>>,
    samples: Mutex<Vec<String>>,
    stats: Mutex<BTreeMap<String, String>>,
    inconclusive: Mutex<Vec<String>>,
    rule: Mutex<String>,
    exhaustive: AtomicBool,
    extra_distinct: AtomicU64,
}

struct Known {
    prop: String,
    func: String,
    lo: Vec<u128>,
    hi: Vec<u128>,
    line: String,
}

const MAP_BITS: u32 = 30;

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn parse_u128(s: &str) -> u128 {
    match s.strip_prefix("0x") {
        Some(h) => u128::from_str_radix(h, 16).unwrap(),
        None => s.parse::<i128>().map(|v| if v < 0 { v as i32 as u32 as u128 } else { v as u128 }).unwrap(),
    }
}

type Cur = (Option<Func>, [u128; 3]);
thread_local! {
    static CUR: std::cell::Cell<Cur> = const { std::cell::Cell::new((None, [0; 3])) };
    static SLOT: std::cell::Cell<*const Slot> = const { std::cell::Cell::new(std::ptr::null()) };
    static LEAVE: Leave = Leave;
}
/// Note the call this thread is about to make (or the first one of a batch).
#[inline]
pub fn cur(f: &Func, a: &[u128; 3]) {
    CUR.with(|c| c.set((Some(*f), *a)));
    let s = SLOT.with(|s| s.get());
    if s.is_null() { enter(); } else { let e = unsafe { &(*s).epoch }; e.store(e.load(Relaxed) + 1, Relaxed); }
}

/// One per thread that makes calls, for the watchdog.
struct Slot { tid: AtomicU64, epoch: AtomicU64, cur: AtomicU64, rip: AtomicU64 }
static SLOTS: [Slot; 256] = [const { Slot { tid: AtomicU64::new(0), epoch: AtomicU64::new(0), cur: AtomicU64::new(0), rip: AtomicU64::new(0) } }; 256];
struct Leave;
impl Drop for Leave { fn drop(&mut self) { let s = SLOT.with(|s| s.replace(std::ptr::null())); if !s.is_null() { unsafe { (*s).tid.store(0, Relaxed); } } } }
unsafe extern "C" {
    fn gettid() -> i32;
    fn getpid() -> i32;
    fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
    fn sigaction(s: i32, a: *const Action, o: *mut Action) -> i32;
    fn tgkill(p: i32, t: i32, s: i32) -> i32;
}
#[repr(C)]
struct Action { f: usize, mask: [u64; 16], flags: i32, restorer: usize }
#[cold]
#[inline(never)]
fn enter() {
    let t = unsafe { gettid() } as u64;
    for s in &SLOTS {
        if s.tid.compare_exchange(0, t, Relaxed, Relaxed).is_ok() {
            CUR.with(|c| s.cur.store(c.as_ptr() as u64, Relaxed));
            s.epoch.store(1, Relaxed);
            SLOT.with(|x| x.set(s));
            LEAVE.with(|_| ());
            return;
        }
    }
}
extern "C" fn on_ask(_: i32, _: *const u8, uc: *const u8) {
    // the instruction this thread was executing
    let s = SLOT.with(|s| s.get());
    if !s.is_null() { unsafe { (*s).rip.store((uc.add(168) as *const u64).read(), Relaxed); } }
}
/// Processor time of a thread in seconds.
fn cpu(tid: u64) -> Option<f64> {
    let mut t = [0i64; 2];
    (unsafe { clock_gettime(!(tid as i32) << 3 | 6, &mut t) } == 0).then(|| t[0] as f64 + t[1] as f64 * 1e-9)
}
/// Whether every address is inside of the crate under test (or what the compiler calls from there).
fn in_libm(ips: &[u64]) -> bool {
    let Ok(maps) = std::fs::read_to_string("/proc/self/maps") else { return false };
    let Ok(exe) = std::env::current_exe() else { return false };
    let exe_s = exe.to_string_lossy().to_string();
    let Some(base) = maps.lines().find(|l| l.ends_with(&exe_s)).and_then(|l| u64::from_str_radix(l.split('-').next()?, 16).ok()) else { return false };
    let Ok(o) = std::process::Command::new("nm").arg("-C").arg(&exe).output() else { return false };
    let txt = String::from_utf8_lossy(&o.stdout).to_string();
    let mut syms: Vec<(u64, &str)> = txt.lines().filter_map(|l| {
        let (a, r) = l.split_once(' ')?;
        let (t, n) = r.split_once(' ')?;
        matches!(t, "t" | "T" | "w" | "W" | "v" | "V" | "u").then_some((u64::from_str_radix(a, 16).ok()?, n))
    }).collect();
    syms.sort();
    ips.iter().all(|ip| {
        let i = syms.partition_point(|s| s.0 <= ip.wrapping_sub(base));
        i > 0 && { let n = syms[i - 1].1; n.contains("libm") && n.contains("::math::") || n.contains("compiler_builtins") || n.starts_with("__") || n.contains("core::num") }
    })
}
const PATIENCE: f64 = 20.0;
/// A call that uses this much processor time and never leaves the crate does not return.
fn watchdog(m: &'static Mon) {
    unsafe { let a = Action { f: on_ask as usize, mask: [0; 16], flags: 0x1000_0000 | 0x0800_0000 | 4, restorer: 0 }; sigaction(12, &a, std::ptr::null_mut()); }
    let mut last = vec![(0u64, 0u64, 0f64); SLOTS.len()];
    loop {
        std::thread::sleep(std::time::Duration::from_millis(1000));
        for (i, s) in SLOTS.iter().enumerate() {
            let (t, e) = (s.tid.load(Relaxed), s.epoch.load(Relaxed));
            if t == 0 { continue; }
            let Some(c) = cpu(t) else { continue };
            if (last[i].0, last[i].1) != (t, e) { last[i] = (t, e, c); continue; }
            if c - last[i].2 < PATIENCE { continue; }
            // long: is it in the crate all the time?
            let mut ips = vec![];
            for _ in 0..20 {
                s.rip.store(0, Relaxed);
                unsafe { tgkill(getpid(), t as i32, 12); }
                std::thread::sleep(std::time::Duration::from_millis(150));
                let ip = s.rip.load(Relaxed);
                if ip != 0 { ips.push(ip); }
            }
            if (s.tid.load(Relaxed), s.epoch.load(Relaxed)) != (t, e) { continue; }
            if ips.len() < 10 || !in_libm(&ips) { last[i].2 = c; continue; }
            let (f, a) = unsafe { (s.cur.load(Relaxed) as *const Cur).read_volatile() };
            let Some(f) = f else { continue };
            m.violation(&f, "any", &a, format!("this call, or one of a batch that starts with it, has not returned after {:.0} s of processor time", c - last[i].2));
            m.evals(1); m.add_distinct(1);
            let rc = m.finish();
            std::process::exit(rc);
        }
    }
}

static GLOBAL: std::sync::OnceLock<Mon> = std::sync::OnceLock::new();

/// A panic inside the crate under test is a violation of whatever is being checked: the call did
/// not return the value that it must return. A panic of the harness is an error, not a verdict.
pub fn install(m: Mon) -> &'static Mon {
    let m = GLOBAL.get_or_init(|| m);
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        let msg = info.payload().downcast_ref::<String>().cloned()
            .or(info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if msg == "on purpose" { return; }
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        let inside = loc.contains("/repo/") || bt.lines().take_while(|l| !l.contains(concat!(" ", env!("CARGO_CRATE_NAME"), "::"))).any(|l| l.contains("libm") && l.contains("math::"));
        if !inside || QUIET.with(|q| q.get()) {
            if !inside { eprintln!("harness panic at {loc}: {msg}"); std::process::exit(4); }
            return;
        }
        let (f, a) = CUR.with(|c| c.get());
        let at = match f { Some(f) => format!("in a batch that starts with {}({})", f.name, f.show_in(&a)), None => String::new() };
        m.violation_misc(f.map_or("?", |f| f.name), "any", format!("panic at {loc}: {msg} {at}"));
        let rc = m.finish();
        std::process::exit(rc);
    }));
    std::thread::spawn(move || watchdog(m));
    m
}
thread_local! { pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

impl Mon {
    pub fn new(prop: &str) -> Self {
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let mut known = vec![];
        let txt = std::fs::read_to_string(format!("{verif}/known-findings.txt")).unwrap_or_default();
        for l in txt.lines() {
            // known: property=C01 fn=NAME in=0xLO..0xHI[,0xLO..0xHI] WHAT
            let Some(rest) = l.strip_prefix("known: ") else { continue };
            let mut w = rest.split_whitespace();
            let (p, f, r) = (w.next().unwrap(), w.next().unwrap(), w.next().unwrap());
            let (mut lo, mut hi) = (vec![], vec![]);
            for part in r.strip_prefix("in=").unwrap().split(',') {
                let (a, b) = part.split_once("..").unwrap_or((part, part));
                lo.push(parse_u128(a));
                hi.push(parse_u128(b));
            }
            known.push(Known {
                prop: p.strip_prefix("property=").unwrap().into(),
                func: f.strip_prefix("fn=").unwrap().into(),
                lo, hi,
                line: rest.to_string(),
            });
        }
        Mon {
            prop: prop.into(), thorough, seed, verif, start: Instant::now(),
            evals: 0.into(), guided: 0.into(), enumerated: 0.into(),
            map: (0..(1usize << (MAP_BITS - 6))).map(|_| AtomicU64::new(0)).collect(),
            viol: Mutex::default(), nviol: 0.into(), known, known_hits: Mutex::default(),
            samples: Mutex::default(), stats: Mutex::default(), inconclusive: Mutex::default(),
            rule: Mutex::new(String::new()), exhaustive: false.into(), extra_distinct: 0.into(),
        }
    }

    pub fn rule(&self, s: &str) { *self.rule.lock().unwrap() = s.into(); }
    pub fn evals(&self, n: u64) { self.evals.fetch_add(n, Relaxed); }
    /// `n` cases that come from an enumeration without repetition.
    pub fn enumerated(&self, n: u64) { self.enumerated.fetch_add(n, Relaxed); }
    pub fn add_distinct(&self, n: u64) { self.extra_distinct.fetch_add(n, Relaxed); }
    /// Record one random case in the bitmap of seen cases. Collisions only lower the count.
    #[inline]
    pub fn seen(&self, tag: u64, a: u128, b: u128, c: u128) {
        let mut h = tag.wrapping_mul(0x9E3779B97F4A7C15) ^ (a as u64) ^ ((a >> 64) as u64).rotate_left(17);
        h = (h ^ (h >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= (b as u64).rotate_left(7) ^ ((b >> 64) as u64).rotate_left(37);
        h = (h ^ (h >> 31)).wrapping_mul(0x94D049BB133111EB);
        h ^= (c as u64).rotate_left(13) ^ ((c >> 64) as u64).rotate_left(43);
        h = (h ^ (h >> 30)).wrapping_mul(0xD6E8FEB86659FD93);
        h ^= h >> 32;
        let bit = h >> (64 - MAP_BITS);
        let w = &self.map[(bit >> 6) as usize];
        let m = 1u64 << (bit & 63);
        if w.load(Relaxed) & m == 0 { w.fetch_or(m, Relaxed); }
    }

    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 60 { v.push(s); }
    }
    pub fn stat(&self, k: &str, json: String) { self.stats.lock().unwrap().insert(k.into(), json); }
    pub fn set_exhaustive(&self) { self.exhaustive.store(true, Relaxed); }
    pub fn inconclusive(&self, s: String) {
        let mut v = self.inconclusive.lock().unwrap();
        if v.len() < 50 { v.push(s); }
    }

    fn known_idx(&self, func: &str, input: &[u128]) -> Option<usize> {
        self.known.iter().position(|k| {
            k.prop == self.prop && k.func == func && k.lo.len() == input.len()
                && input.iter().enumerate().all(|(i, b)| k.lo[i] <= *b && *b <= k.hi[i])
        })
    }

    /// A confirmed violation with the shape of one call.
    pub fn violation(&self, f: &Func, build: &str, a: &[u128; 3], text: String) {
        let input = a[..f.args.len()].to_vec();
        if let Some(i) = self.known_idx(f.name, &input) {
            *self.known_hits.lock().unwrap().entry(i).or_default() += 1;
            return;
        }
        let t = format!("{}({}) [build {}]: {}", f.name, f.show_in(a), build, text);
        self.push(Viol { func: f.name.into(), build: build.into(), input: Some(input), text: t });
    }
    pub fn violation_misc(&self, func: &str, build: &str, text: String) {
        self.push(Viol { func: func.into(), build: build.into(), input: None, text });
    }
    fn push(&self, v: Viol) {
        self.nviol.fetch_add(1, Relaxed);
        let mut g = self.viol.lock().unwrap();
        if g.iter().any(|x| x.text == v.text) { return; }
        if g.len() < 200 && g.iter().filter(|x| x.func == v.func && x.build == v.build).count() < 8 { g.push(v); }
    }
    pub fn too_many(&self) -> bool { self.nviol.load(Relaxed) > 20000 }
    pub fn nviol(&self) -> u64 { self.nviol.load(Relaxed) }

    pub fn distinct(&self) -> u64 {
        self.enumerated.load(Relaxed) + self.extra_distinct.load(Relaxed)
            + self.map.iter().map(|w| w.load(Relaxed).count_ones() as u64).sum::<u64>()
    }

    pub fn finish(&self) -> i32 {
        let guided = self.guided.load(Relaxed);
        if guided > 0 { self.stat("arguments from the coverage-guided search, with neighbours", guided.to_string()); }
        let viol = self.viol.lock().unwrap();
        let distinct = self.distinct();
        let evals = self.evals.load(Relaxed);
        let tier = if self.thorough { "thorough" } else { "quick" };
        let mut j = String::from("{\n");
        let _ = write!(j, " \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"exploration\",\n", json_str(&self.prop), self.seed);
        let _ = write!(j, " \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {},\n", json_str(&self.rule.lock().unwrap()));
        if self.exhaustive.load(Relaxed) { j.push_str("  \"exhaustive\": true,\n"); }
        let _ = write!(j, "  \"samples\": [{}],\n", self.samples.lock().unwrap().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   "));
        let hits = self.known_hits.lock().unwrap();
        let _ = write!(j, "  \"known_findings_seen\": [{}],\n", hits.iter().map(|(i, n)| format!("{{\"finding\": {}, \"times\": {n}}}", json_str(&self.known[*i].line))).collect::<Vec<_>>().join(", "));
        let inc = self.inconclusive.lock().unwrap();
        let _ = write!(j, "  \"inconclusive\": [{}],\n", inc.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
        let _ = write!(j, "  \"observed\": {{{}}}\n }},\n", self.stats.lock().unwrap().iter().map(|(k, v)| format!("\n   {}: {v}", json_str(k))).collect::<Vec<_>>().join(","));
        let _ = write!(j, " \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), self.nviol());
        let path = format!("{}/evidence/{}.json", self.verif, self.prop);
        std::fs::create_dir_all(format!("{}/evidence", self.verif)).ok();
        std::fs::write(&path, j).expect("cannot write the evidence file");

        for k in self.known.iter().filter(|k| k.prop == self.prop) {
            println!("KNOWN-FINDING: {}", k.line);
        }
        println!("{}: {} evaluations, {} distinct non-trivial cases, {} violations, {} inconclusive, {:.1} s",
            self.prop, evals, distinct, self.nviol(), inc.len(), self.start.elapsed().as_secs_f64());
        for s in inc.iter() { println!("inconclusive: {s}"); }
        if viol.is_empty() {
            if evals == 0 || distinct == 0 {
                println!("nothing was observed; no verdict");
                return 3;
            }
            return 0;
        }
        let dir = format!("{}/replays", self.verif);
        std::fs::create_dir_all(&dir).ok();
        let rp = format!("{dir}/{}.txt", self.prop);
        let mut r = format!("# property {} seed {} tier {tier}; {} violations in all\n", self.prop, self.seed, self.nviol());
        r.push_str("# a line 'call BUILD FUNCTION BITS..' is replayed by: /verif/run replay <this file>\n");
        for v in viol.iter() {
            let _ = writeln!(r, "# {}", v.text.replace('\n', "\n#   "));
            if let Some(i) = &v.input {
                let _ = writeln!(r, "call {} {} {}", v.build, v.func, i.iter().map(|b| format!("{b:#x}")).collect::<Vec<_>>().join(" "));
            }
        }
        std::fs::write(&rp, r).ok();
        for v in viol.iter().take(20) { println!("  {}", v.text); }
        println!("VIOLATION property={} replay={rp}", self.prop);
        1
    }
}

/// Run `n` work items on all cores.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicU64::new(0);
    let threads = std::thread::available_parallelism().map_or(8, |x| x.get());
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, Relaxed) as usize;
                if i >= n { break; }
                f(i);
            }).unwrap();
        }
    });
}
