//! C32: a call needs nothing but its arguments and a small stack, and the crate needs and defines no
//! symbol of a C library.
//!
//! Each call runs in a process of its own kind: every writable mapping (static data, heap, thread-local
//! storage, other stacks) is made read-only, system calls are forbidden by the kernel, and the stack is a
//! small region above an inaccessible page. Whatever leaves these bounds ends the process, and the shared
//! record tells which call it was.
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};

use crate::common::*;
use crate::gen_::*;
use crate::lib_table::*;
use crate::mon::*;

/// Stack for a call, in optimized builds and in builds without optimization.
const OPT: usize = 4096;
const NOOPT: usize = 16384;
/// Processor time for a call.
const SECONDS: u64 = 5;
const PAGE: usize = 4096;
const PAINT: u64 = 0xa5c3_96e1_5a3c_691e;

#[repr(C)]
struct Shared {
    func: AtomicU64,
    a: [u128; 3],
    running: AtomicU64,
    calls: AtomicU64,
    distinct: AtomicU64,
    guided: AtomicU64,
    done: AtomicU64,
    fault: AtomicU64,
    fault_at: AtomicU64,
    rip: AtomicU64,
    sealed: AtomicU64,
    maps: AtomicU64,
    nosec: AtomicU64,
    seq: AtomicU64,
    seen: AtomicU64,
    ticks: AtomicU64,
    rseq: AtomicU64,
    high: [AtomicU32; 512],
    skip: [AtomicU32; 512],
    alt: [u64; 4096],
}

struct Ctx { f: Func, a: [u128; 3], o: Out }

#[inline(never)]
extern "C" fn tramp(c: *mut Ctx) { unsafe { (*c).o = (*c).f.run(&(*c).a); } }

unsafe extern "C" { static __rseq_offset: isize; static __rseq_size: u32; }
static mut SHARED: *mut Shared = std::ptr::null_mut();

extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let s = &*SHARED;
        s.fault_at.store((*info).si_addr() as u64, Relaxed);
        s.rip.store((*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RIP as usize] as u64 - check as usize as u64, Relaxed);
        s.fault.store(sig as u64, Relaxed);
        leave();
    }
}
extern "C" fn on_tick(_: i32) {
    unsafe {
        let s = &*SHARED;
        let n = s.seq.load(Relaxed);
        if s.running.load(Relaxed) == 0 || s.seen.swap(n, Relaxed) != n { s.ticks.store(0, Relaxed); return; }
        if s.ticks.fetch_add(1, Relaxed) >= SECONDS { s.fault.store(libc::SIGVTALRM as u64, Relaxed); leave(); }
    }
}
unsafe fn leave() -> ! { unsafe { std::arch::asm!("syscall", in("rax") 60, in("rdi") 0, options(noreturn)); } }

unsafe fn on_stack(top: usize, c: *mut Ctx) {
    unsafe {
        std::arch::asm!("mov r12, rsp", "mov rsp, {top}", "call {f}", "mov rsp, r12",
            top = in(reg) top, f = sym tramp, in("rdi") c, out("r12") _, clobber_abi("C"));
    }
}

fn map(n: usize, flags: i32) -> usize {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, flags | libc::MAP_ANONYMOUS, -1, 0) };
    assert!(p != libc::MAP_FAILED, "mmap");
    p as usize
}

/// The work of one process: the functions `fs[lo..hi]` of one build. Does not return.
fn child(m: &Mon, args: &Args, fs: &[Func], lo: usize, hi: usize, size: usize, n: usize, s: &Shared, part: u64) -> ! {
    // arguments, before memory is sealed
    let mut work: Vec<(usize, Vec<[u128; 3]>)> = vec![];
    for fi in lo..hi {
        if s.skip[fi].load(Relaxed) != 0 { continue; }
        let f = &fs[fi];
        let mut g = args.generator(f, Rng::new(m.seed ^ tag(f.name) ^ 0xc32, part));
        let mut v: Vec<[u128; 3]> = (0..n / weight(f) as usize).map(|_| tuple(f, &mut g, 60)).collect();
        let gd = crate::guided::guided(m, f);
        s.guided.fetch_add(gd.len() as u64, Relaxed);
        v.extend(gd.into_iter().filter(|a| !is_bessel_n(f) || (a[0] as i32).unsigned_abs() < 100));
        v.sort(); v.dedup();
        s.distinct.fetch_add(v.len() as u64, Relaxed);
        work.push((fi, v));
    }
    let base = map(size + 2 * PAGE, libc::MAP_PRIVATE);
    let (low, top) = (base + PAGE, base + PAGE + size);
    unsafe {
        SHARED = s as *const Shared as *mut Shared;
        libc::mprotect(base as _, PAGE, libc::PROT_NONE);
        libc::mprotect(top as _, PAGE, libc::PROT_NONE);
        for i in 0..size / 8 { (low as *mut u64).add(i).write(PAINT); }
        let st = libc::stack_t { ss_sp: s.alt.as_ptr() as *mut _, ss_flags: 0, ss_size: std::mem::size_of_val(&s.alt) };
        libc::sigaltstack(&st, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_fault as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP] { libc::sigaction(sig, &sa, std::ptr::null_mut()); }
        sa.sa_sigaction = on_tick as usize;
        sa.sa_flags = libc::SA_ONSTACK | libc::SA_RESTART;
        libc::sigaction(libc::SIGVTALRM, &sa, std::ptr::null_mut());
        let sec = libc::timeval { tv_sec: 1, tv_usec: 0 };
        libc::setitimer(libc::ITIMER_VIRTUAL, &libc::itimerval { it_interval: sec, it_value: sec }, std::ptr::null_mut());
        // the kernel writes the number of the processor into thread-local storage, unless told not to
        let mut tp: usize;
        std::arch::asm!("mov {}, fs:0", out(reg) tp);
        let rs = tp.wrapping_add_signed(__rseq_offset);
        if __rseq_size != 0 && ![32, __rseq_size as usize, 64, 256].into_iter().any(|n| libc::syscall(libc::SYS_rseq, rs, n, 1, 0x5305_3053) == 0) { s.rseq.store(1, Relaxed); }
        let mut c = Ctx { f: fs[lo], a: [0; 3], o: Out(0, 0) };
        // what stays writable: the record, the stack of the calls and the main stack
        let here = &c as *const _ as usize;
        let me = s as *const _ as usize;
        let txt = std::fs::read_to_string("/proc/self/maps").unwrap();
        let mut seal = vec![];
        for l in txt.lines() {
            let mut w = l.split_whitespace();
            let (r, p) = (w.next().unwrap(), w.next().unwrap());
            let (a, b) = r.split_once('-').unwrap();
            let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
            if !p.contains('w') || (a..b).contains(&here) || (a..b).contains(&me) { continue; }
            // neighbouring mappings are shown as one
            let mut cuts = vec![(a, b)];
            if a < top && low < b { cuts = vec![(a, low.max(a)), (top.min(b), b)]; }
            for (a, b) in cuts { if a < b { seal.push((a, b)); } }
        }
        let prot = libc::PROT_READ;
        for i in 0..seal.len() {
            let (a, b) = seal[i];
            if libc::syscall(libc::SYS_mprotect, a, b - a, prot) != 0 { continue; }
            s.maps.fetch_add(1, Relaxed);
            s.sealed.fetch_add((b - a) as u64, Relaxed);
        }
        let ret: i64;
        std::arch::asm!("syscall", inlateout("rax") 157i64 => ret, in("rdi") 22, in("rsi") 1, in("rdx") 0, in("r10") 0, in("r8") 0, lateout("rcx") _, lateout("r11") _);
        if ret != 0 { s.nosec.store(1, Relaxed); }
        let mut seq = 0u64;
        for (fi, v) in work.iter() {
            c.f = fs[*fi];
            s.func.store(*fi as u64, Relaxed);
            let mut high = 0usize;
            for a in v {
                c.a = *a;
                (&raw const s.a).cast_mut().write(*a);
                seq += 1;
                s.seq.store(seq, Relaxed);
                s.running.store(1, Relaxed);
                on_stack(top, &mut c);
                s.running.store(0, Relaxed);
                let mut p = low as *mut u64;
                while (p as usize) < top && *p == PAINT { p = p.add(1); }
                high = high.max(top - p as usize);
                while (p as usize) < top { *p = PAINT; p = p.add(1); }
            }
            s.calls.fetch_add(v.len() as u64, Relaxed);
            s.high[*fi].store(high as u32, Relaxed);
        }
        s.done.store(1, Relaxed);
        leave();
    }
}

struct Job { lib: usize, lo: usize, hi: usize, part: u64, s: &'static Shared, pid: i32 }

pub fn check(m: &'static Mon, src: &Source) {
    m.rule("Every function of every build is called in a process whose writable memory is sealed (read-only) but for a stack of 4 KiB (16 KiB without optimization) between inaccessible pages, and in which the kernel ends the process on any system call. A write to static, thread-local or heap memory, an allocation, a system call, an overflow of the stack, a trap or five seconds of processor time end the process and name the call. The symbols that the compiled crate defines and needs are compared with what a crate without dependencies may define and need. A case is a distinct argument tuple of a function in one build.");
    symbols(m);
    let libs = crate::builds();
    let tabs: Vec<Vec<Func>> = libs.iter().map(|l| l.funcs()).collect();
    let args = Args::new(src, &tabs[0]);
    let size: Vec<usize> = libs.iter().map(|l| if l.name.starts_with("checked") || l.name == "opt0" { NOOPT } else { OPT }).collect();
    let n = if m.thorough { 1_000_000 } else { 100_000 };
    let rounds = if m.thorough { 8 } else { 1 };
    let mut todo = vec![];
    for part in 0..rounds { for (li, t) in tabs.iter().enumerate() { for lo in (0..t.len()).step_by(24) { todo.push((li, lo, (lo + 24).min(t.len()), part)); } } }
    let mut high: Vec<Vec<u32>> = tabs.iter().map(|t| vec![0; t.len()]).collect();
    let mut run: Vec<Job> = vec![];
    let (mut sealed, mut maps, mut nosec, mut procs) = (u64::MAX, u64::MAX, false, 0u64);
    let spawn = |j: &mut Job| {
        j.s.done.store(0, Relaxed); j.s.fault.store(0, Relaxed);
        j.pid = unsafe { libc::fork() };
        assert!(j.pid >= 0, "fork");
        if j.pid == 0 { child(m, &args, &tabs[j.lib], j.lo, j.hi, size[j.lib], n, j.s, j.part); }
    };
    let cores = std::thread::available_parallelism().map_or(8, |x| x.get());
    let started = std::time::Instant::now();
    todo.reverse();
    loop {
        while run.len() < cores {
            let Some((lib, lo, hi, part)) = todo.pop() else { break };
            let s: &'static Shared = unsafe { &*(map(std::mem::size_of::<Shared>(), libc::MAP_SHARED) as *const Shared) };
            let mut j = Job { lib, lo, hi, part, s, pid: 0 };
            spawn(&mut j);
            procs += 1;
            run.push(j);
        }
        if run.is_empty() { break; }
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
        assert!(pid > 0, "waitpid");
        let Some(k) = run.iter().position(|j| j.pid == pid) else { continue };
        let s = run[k].s;
        let (lib, lo, hi) = (run[k].lib, run[k].lo, run[k].hi);
        if s.done.load(Relaxed) == 1 {
            for fi in lo..hi { high[lib][fi] = high[lib][fi].max(s.high[fi].load(Relaxed)); }
            m.evals(s.calls.load(Relaxed));
            m.add_distinct(s.distinct.load(Relaxed));
            m.guided.fetch_add(s.guided.load(Relaxed), Relaxed);
            sealed = sealed.min(s.sealed.load(Relaxed));
            maps = maps.min(s.maps.load(Relaxed));
            nosec |= s.nosec.load(Relaxed) == 1;
            unsafe { libc::munmap(s as *const _ as *mut _, std::mem::size_of::<Shared>()); }
            run.swap_remove(k);
            continue;
        }
        if s.running.load(Relaxed) == 0 {
            // not in a call: the harness failed
            eprintln!("a process ended outside of a call, status {st:#x}, signal {} at {:#x}, instruction check+{:#x}, rseq {}", s.fault.load(Relaxed), s.fault_at.load(Relaxed), s.rip.load(Relaxed), s.rseq.load(Relaxed));
            std::process::exit(4);
        }
        let fi = s.func.load(Relaxed) as usize;
        let f = &tabs[lib][fi];
        let a = unsafe { (&raw const s.a).read_volatile() };
        let what = match (s.fault.load(Relaxed) as i32, libc::WIFSIGNALED(st)) {
            (libc::SIGVTALRM, _) => format!("the call did not return within {SECONDS} s of processor time"),
            (0, true) if libc::WTERMSIG(st) == libc::SIGKILL => "the call made a system call".to_string(),
            (0, true) => format!("signal {}", libc::WTERMSIG(st)),
            (0, false) => format!("the process ended with status {st:#x}"),
            (libc::SIGSEGV | libc::SIGBUS, _) => format!("access to {:#x}: more than {} bytes of stack, or a write to memory that is not the stack of the call", s.fault_at.load(Relaxed), size[lib]),
            (x, _) => format!("signal {x}"),
        };
        m.violation(f, libs[lib].name, &a, what);
        s.skip[fi].store(1, Relaxed);
        s.running.store(0, Relaxed);
        s.calls.store(0, Relaxed); s.distinct.store(0, Relaxed); s.guided.store(0, Relaxed);
        s.maps.store(0, Relaxed); s.sealed.store(0, Relaxed);
        let mut j = run.swap_remove(k);
        spawn(&mut j);
        procs += 1;
        run.push(j);
    }
    for (li, l) in libs.iter().enumerate() {
        let mut v: Vec<(u32, &str)> = high[li].iter().copied().zip(tabs[li].iter().map(|f| f.name)).collect();
        v.sort_by(|a, b| b.cmp(a));
        m.stat(&format!("stack of build {}: most bytes used", l.name), format!("{{{}}}", v.iter().take(6).map(|(h, n)| format!("\"{n}\": {h}")).collect::<Vec<_>>().join(", ")));
    }
    m.stat("processes", procs.to_string());
    m.stat("mappings sealed in each process", maps.to_string());
    m.stat("bytes sealed in each process", sealed.to_string());
    if nosec { m.inconclusive("the kernel refused to forbid system calls; they were not observed".into()); }
    m.sample(format!("{} functions in {} builds, {n} generated argument tuples each, {:.0} s", tabs[0].len(), libs.len(), started.elapsed().as_secs_f64()));
}

/// What the compiled crate defines and needs.
fn symbols(m: &Mon) {
    let dir = std::env::var("CARGO_TARGET_DIR").unwrap() + "/release/deps";
    let exe = std::fs::metadata(std::env::current_exe().unwrap()).unwrap().modified().unwrap();
    let mut seen = 0u64;
    for (lib, name) in [("libm", "default"), ("libm_soft", "soft"), ("libm_intr", "intrinsics"), ("libm_noarch", "noarch"), ("libm_chk", "checked"), ("libm_chksoft", "checked-soft"), ("libm_o0", "opt0")] {
        // the newest build that this program can contain
        let pre = format!("lib{lib}-");
        let f = std::fs::read_dir(&dir).unwrap().flatten().filter(|e| { let n = e.file_name(); let n = n.to_str().unwrap(); n.starts_with(&pre) && n.ends_with(".rlib") && e.metadata().unwrap().modified().unwrap() <= exe })
            .max_by_key(|e| e.metadata().unwrap().modified().unwrap());
        let Some(f) = f else { m.inconclusive(format!("no library of build {name}")); continue };
        let o = std::process::Command::new("nm").arg("-g").arg(f.path()).output().expect("nm");
        let txt = String::from_utf8_lossy(&o.stdout).to_string();
        if !o.status.success() && txt.is_empty() { m.inconclusive(format!("nm of {name}: {}", String::from_utf8_lossy(&o.stderr))); continue; }
        let (mut def, mut und) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
        for l in txt.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w[..] { ["U" | "w", s] => { und.insert(s); } [_, t, s] if t.len() == 1 => { def.insert(s); } _ => {} }
        }
        seen += (def.len() + und.len()) as u64;
        let mangled = |s: &str| s.starts_with("_ZN") || s.starts_with("_R") || s.contains(".llvm.") || s.starts_with("anon.") || s.starts_with("DW.ref.");
        for s in &def { if !mangled(s) { m.violation_misc("symbols", name, format!("the library of build {name} defines the symbol {s}, which would take the place of a C function of that name")); } }
        let runtime = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "rust_eh_personality", "_GLOBAL_OFFSET_TABLE_", "_Unwind_Resume"];
        let mut needs = vec![];
        for s in und.difference(&def) {
            if mangled(s) && !s.contains("3std") && !s.contains("5alloc") { continue; }
            // fma as an instruction or a function of the platform is what this build asks for
            let ok = s.starts_with("__") || runtime.contains(s) || s.starts_with("_Unwind") || name == "intrinsics" && s.trim_end_matches("f128").trim_end_matches("f16").trim_end_matches('f') == "fma" || name == "intrinsics" && s.starts_with("fma");
            needs.push(format!("\"{s}\""));
            if !ok { m.violation_misc("symbols", name, format!("the library of build {name} needs the symbol {s} from elsewhere")); }
        }
        m.stat(&format!("symbols needed by build {name}"), format!("[{}]", needs.join(", ")));
    }
    m.stat("symbols judged", seen.to_string());
}
