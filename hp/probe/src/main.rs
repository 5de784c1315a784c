//! Built with one set of features of libm and one toolchain. For every function prints: its name, a hash of its
//! results for a fixed list of arguments, and how often the processor executed instructions that only
//! architecture-specific routines contain (hardware square roots, rounding, fused multiply-add), as seen by
//! single-stepping some of the calls.
//! With arguments NAME FROM TO: prints the results of NAME for these members of the list.
use std::arch::asm;
use std::hint::black_box as bb;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
trait F: Copy { fn make(r: &mut Rng) -> Self; fn bits(self) -> u64; }
macro_rules! float { ($t:ident, $u:ident, $m:expr, $e:expr) => { impl F for $t {
    fn make(r: &mut Rng) -> $t {
        let k = r.next();
        let special: [$t; 16] = [0.0, 1.0, 0.5, 1.5, 2.0, 3.0, $t::INFINITY, $t::NAN, $t::MAX, $t::MIN_POSITIVE, $t::from_bits(1), $t::EPSILON, 1.0 + $t::EPSILON, 1.0 - $t::EPSILON / 2.0, 10.0, 100.5];
        let v = match k & 7 {
            0 => special[(k >> 8) as usize & 15],
            1 => $t::from_bits(r.next() as $u),
            2 => ((k >> 8) % 2000) as $t * 0.5,
            // exponents about zero
            _ => $t::from_bits(((($e + (k >> 8) % 24 - 12) as $u) << $m) | (r.next() as $u & ((1 << $m) - 1))),
        };
        if k >> 63 == 1 { -v } else { v }
    }
    fn bits(self) -> u64 { if self.is_nan() { 0x7ff8_0000_0000_0000 } else { self.to_bits() as u64 } }
} } }
float!(f32, u32, 23, 127);
float!(f64, u64, 52, 1023);

type Call = fn(&mut Rng) -> [u64; 2];
macro_rules! u { ($t:ident: $($n:ident),*) => { vec![$((stringify!($n), (|r| { let a = $t::make(r); [libm::$n(bb(a)).bits(), 0] }) as Call)),*] } }
macro_rules! b { ($t:ident: $($n:ident),*) => { vec![$((stringify!($n), (|r| { let (a, b) = ($t::make(r), $t::make(r)); [libm::$n(bb(a), bb(b)).bits(), 0] }) as Call)),*] } }
macro_rules! three { ($t:ident: $($n:ident),*) => { vec![$((stringify!($n), (|r| { let (a, b, c) = ($t::make(r), $t::make(r), $t::make(r)); [libm::$n(bb(a), bb(b), bb(c)).bits(), 0] }) as Call)),*] } }
macro_rules! fi { ($t:ident: $($n:ident),*) => { vec![$((stringify!($n), (|r| { let (a, k) = ($t::make(r), r.next() as i32); let k = if k & 1 == 0 { k % 2500 } else { k }; [libm::$n(bb(a), bb(k)).bits(), 0] }) as Call)),*] } }
macro_rules! if_ { ($t:ident: $($n:ident),*) => { vec![$((stringify!($n), (|r| { let (a, k) = ($t::make(r), r.next() as i32); [libm::$n(bb(k % 20), bb(a)).bits(), 0] }) as Call)),*] } }
macro_rules! pp { ($t:ident: $($n:ident),*) => { vec![$((stringify!($n), (|r| { let a = $t::make(r); let x = libm::$n(bb(a)); [x.0.bits(), x.1.bits()] }) as Call)),*] } }
macro_rules! pi { ($t:ident: $($n:ident),*) => { vec![$((stringify!($n), (|r| { let a = $t::make(r); let x = libm::$n(bb(a)); [x.0.bits(), x.1 as u64] }) as Call)),*] } }
macro_rules! q { ($t:ident: $($n:ident),*) => { vec![$((stringify!($n), (|r| { let (a, b) = ($t::make(r), $t::make(r)); let x = libm::$n(bb(a), bb(b)); [x.0.bits(), x.1 as u64] }) as Call)),*] } }
macro_rules! il { ($t:ident: $($n:ident),*) => { vec![$((stringify!($n), (|r| { let a = $t::make(r); [libm::$n(bb(a)) as u64, 0] }) as Call)),*] } }
fn table() -> Vec<(&'static str, Call)> {
    [
        u!(f32: acosf, acoshf, asinf, asinhf, atanf, atanhf, cbrtf, cosf, coshf, erff, erfcf, expf, exp10f, exp2f, expm1f, j0f, j1f, lgammaf, logf, log10f, log1pf, log2f, sinf, sinhf, tanf, tanhf, tgammaf, y0f, y1f, ceilf, fabsf, floorf, rintf, roundf, roundevenf, sqrtf, truncf),
        u!(f64: acos, acosh, asin, asinh, atan, atanh, cbrt, cos, cosh, erf, erfc, exp, exp10, exp2, expm1, j0, j1, lgamma, log, log10, log1p, log2, sin, sinh, tan, tanh, tgamma, y0, y1, ceil, fabs, floor, rint, round, roundeven, sqrt, trunc),
        b!(f32: atan2f, copysignf, fdimf, fmaxf, fminf, fmaximumf, fmaximum_numf, fminimumf, fminimum_numf, fmodf, hypotf, nextafterf, powf, remainderf),
        b!(f64: atan2, copysign, fdim, fmax, fmin, fmaximum, fmaximum_num, fminimum, fminimum_num, fmod, hypot, nextafter, pow, remainder),
        three!(f32: fmaf), three!(f64: fma),
        fi!(f32: ldexpf, scalbnf), fi!(f64: ldexp, scalbn),
        if_!(f32: jnf, ynf), if_!(f64: jn, yn),
        pp!(f32: modff, sincosf), pp!(f64: modf, sincos),
        pi!(f32: frexpf, lgammaf_r), pi!(f64: frexp, lgamma_r),
        il!(f32: ilogbf), il!(f64: ilogb),
        q!(f32: remquof), q!(f64: remquo),
    ].concat()
}

// ---- single-stepping ------------------------------------------------------------------------
static STEPS: AtomicU64 = AtomicU64::new(0);
static HW: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];
static ON: AtomicBool = AtomicBool::new(false);
extern "C" { fn sigaction(n: i32, new: *const [u64; 19], old: *mut [u64; 19]) -> i32; }
extern "C" fn trap(_: i32, _: *mut u8, ctx: *mut u8) {
    if !ON.load(Relaxed) { return; }
    STEPS.fetch_add(1, Relaxed);
    unsafe {
        // ucontext: flags, link, stack (24 bytes), then the registers, of which RIP is the 17th
        let rip = *((ctx as *const u64).add(5 + 16)) as *const u8;
        let mut k = 0;
        let mut pre = 0u8;
        while matches!(*rip.add(k), 0x66 | 0xf2 | 0xf3 | 0x40..=0x4f) && k < 4 { if *rip.add(k) & 0xf0 != 0x40 { pre = *rip.add(k); } k += 1; }
        let (o, p, q) = (*rip.add(k), *rip.add(k + 1), *rip.add(k + 2));
        if o == 0x0f && p == 0x51 { HW[0].fetch_add(1, Relaxed); } // sqrtss, sqrtsd, sqrtps, sqrtpd
        if pre == 0x66 && o == 0x0f && p == 0x3a && (0x08..=0x0b).contains(&q) { HW[1].fetch_add(1, Relaxed); } // round
        if o == 0xc4 || o == 0xc5 { // VEX
            let (map, op) = if o == 0xc5 { (1, q) } else { (p & 31, *rip.add(k + 3)) };
            if map == 1 && op == 0x51 { HW[0].fetch_add(1, Relaxed); }
            if map == 3 && (0x08..=0x0b).contains(&op) { HW[1].fetch_add(1, Relaxed); }
            if map == 2 && (0x96..=0xbf).contains(&op) { HW[2].fetch_add(1, Relaxed); } // fma
        }
        if (o == 0xd9 && p == 0xfa) || (o == 0xd9 && p == 0xfc) { HW[0].fetch_add(1, Relaxed); } // fsqrt, frndint
    }
}
fn stepped(f: Call, r: &mut Rng) {
    ON.store(true, Relaxed);
    unsafe {
        asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq");
        bb(bb(f)(bb(r)));
        asm!("pushfq", "and dword ptr [rsp], 0xfffffeff", "popfq");
    }
    ON.store(false, Relaxed);
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: u64 = std::env::var("PROBE_N").ok().and_then(|x| x.parse().ok()).unwrap_or(20000);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let tag = |s: &str| s.bytes().fold(seed.wrapping_mul(0x100000001b3) ^ 0xcbf29ce484222325, |h, c| (h ^ c as u64).wrapping_mul(0x100000001b3));
    if a.len() == 4 {
        let (name, f) = *table().iter().find(|x| x.0 == a[1]).unwrap();
        for k in a[2].parse::<u64>().unwrap()..a[3].parse::<u64>().unwrap() {
            let mut r = Rng(tag(name) ^ k);
            let x = f(&mut r);
            println!("{k} {:#x} {:#x}", x[0], x[1]);
        }
        return;
    }
    // glibc's struct sigaction: handler, mask (16 words), flags, restorer
    let mut s = [0u64; 19];
    s[0] = trap as *const () as usize as u64;
    s[17] = 4 | 0x08000000; // SA_SIGINFO | SA_ONSTACK
    assert!(unsafe { sigaction(5, &s, std::ptr::null_mut()) } == 0);
    for (name, f) in table() {
        let mut blocks = String::new();
        for b in 0..16 {
            let mut h = 0xcbf29ce484222325u64;
            for k in b * n / 16..(b + 1) * n / 16 {
                let x = f(&mut Rng(tag(name) ^ k));
                for w in x { h = (h ^ w).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23); }
            }
            blocks += &format!(" {h:x}");
        }
        STEPS.store(0, Relaxed);
        for x in &HW { x.store(0, Relaxed); }
        let mut k = 0;
        while k < 100 && STEPS.load(Relaxed) < 8000 { stepped(f, &mut Rng(tag(name) ^ k)); k += 1; }
        println!("{name} {} {} {} {} {k}{blocks}", STEPS.load(Relaxed), HW[0].load(Relaxed), HW[1].load(Relaxed), HW[2].load(Relaxed));
    }
}
