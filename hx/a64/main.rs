//! The routines of arch/aarch64.rs, run on any machine: their inline assembly is executed by the
//! small interpreter below (registers, scalar floating-point instructions). Same protocol as the
//! other guests: blocks of records from standard input, answers on standard output.
#![feature(f16, f128)]
#![allow(unexpected_cfgs, dead_code, unused)]
use std::io::{Read, Write};

/// Values that fit a vector register.
pub trait Reg: Copy + Default { fn put(self) -> u128; fn get(v: u128) -> Self; }
macro_rules! reg { ($($t:ty: $i:ty),*) => { $(impl Reg for $t { fn put(self) -> u128 { self.to_bits() as u128 } fn get(v: u128) -> Self { <$t>::from_bits(v as $i) } })* }; }
reg!(f16: u16, f32: u32, f64: u64, f128: u128);
macro_rules! ireg { ($($t:ty),*) => { $(impl Reg for $t { fn put(self) -> u128 { self as u128 } fn get(v: u128) -> Self { v as $t } })* }; }
ireg!(u16, u32, u64, u128, i16, i32, i64, i128);

#[derive(Default)]
pub struct Cpu { regs: Vec<(&'static str, u128)>, pos: usize }
impl Cpu {
    pub fn put<T: Reg>(&mut self, n: &'static str, v: T) { self.regs.push((n, v.put())); }
    pub fn get<T: Reg>(&self, n: &str) -> T { T::get(self.regs.iter().find(|r| r.0 == n).unwrap().1) }
    pub fn run(&mut self, text: &str) {
        for i in text.split(['\n', ';']).map(|s| s.split("//").next().unwrap().trim()).filter(|s| !s.is_empty()) { self.step(i); }
    }
    /// `{name:width}` or `{0:width}` or `{:width}`: register and width in bits.
    fn operand(&mut self, s: &str) -> (usize, u32) {
        let s = s.trim().strip_prefix('{').and_then(|s| s.strip_suffix('}')).unwrap_or_else(|| unknown(s));
        let (n, w) = s.split_once(':').unwrap_or_else(|| unknown(s));
        let w = match w { "h" => 16, "s" => 32, "d" => 64, _ => unknown(s) };
        let k = if n.is_empty() { self.pos += 1; self.pos - 1 } else if let Ok(k) = n.parse() { k } else { self.regs.iter().position(|r| r.0 == n).unwrap_or_else(|| unknown(s)) };
        if k >= self.regs.len() { unknown::<()>(s); }
        (k, w)
    }
    fn step(&mut self, i: &str) {
        let (op, rest) = i.split_once(char::is_whitespace).unwrap_or_else(|| unknown(i));
        let o: Vec<(usize, u32)> = rest.split(',').map(|s| self.operand(s)).collect();
        let w = o[0].1;
        if o.iter().any(|x| x.1 != w) { unknown::<()>(i); }
        let v: Vec<u128> = o[1..].iter().map(|x| self.regs[x.0].1 & ((1 << w) - 1)).collect();
        self.regs[o[0].0].1 = match w {
            16 => exec(op, &v.iter().map(|x| f16::from_bits(*x as u16) as f64).collect::<Vec<_>>(), i, true).put16(),
            32 => exec32(op, &v.iter().map(|x| f32::from_bits(*x as u32)).collect::<Vec<_>>(), i).put(),
            _ => exec(op, &v.iter().map(|x| f64::from_bits(*x as u64)).collect::<Vec<_>>(), i, false).put(),
        };
    }
}
trait Put16 { fn put16(self) -> u128; }
impl Put16 for f64 { fn put16(self) -> u128 { (self as f16).to_bits() as u128 } }
fn unknown<T>(s: &str) -> T { eprintln!("not interpreted: {s}"); std::process::exit(79) }
macro_rules! exec { ($n:ident, $t:ty) => {
    fn $n(op: &str, v: &[$t], i: &str, narrow: bool) -> $t {
        // C's floor and friends of the host keep the sign of a zero result, like the instructions.
        match (op, v) {
            ("frintn", &[x]) => x.round_ties_even(), ("frintx", &[x]) | ("frinti", &[x]) => x.round_ties_even(),
            ("frinta", &[x]) => x.round(), ("frintm", &[x]) => x.floor(), ("frintp", &[x]) => x.ceil(), ("frintz", &[x]) => x.trunc(),
            ("fsqrt", &[x]) => x.sqrt(), ("fabs", &[x]) => x.abs(), ("fneg", &[x]) => -x, ("fmov", &[x]) => x,
            ("fadd", &[x, y]) => x + y, ("fsub", &[x, y]) => x - y, ("fmul", &[x, y]) => x * y, ("fdiv", &[x, y]) => x / y, ("fnmul", &[x, y]) => -(x * y),
            // In half precision the sum of a product and a third number may not be exact.
            (o, &[..]) if narrow && v.len() == 3 => unknown(i),
            ("fmadd", &[n, m, a]) => n.mul_add(m, a), ("fmsub", &[n, m, a]) => (-n).mul_add(m, a),
            ("fnmadd", &[n, m, a]) => (-n).mul_add(m, -a), ("fnmsub", &[n, m, a]) => n.mul_add(m, -a),
            ("fmaxnm", &[x, y]) => if x.is_nan() { y } else if y.is_nan() { x } else if x > y || (x == y && x.is_sign_positive()) { x } else { y },
            ("fminnm", &[x, y]) => if x.is_nan() { y } else if y.is_nan() { x } else if x < y || (x == y && x.is_sign_negative()) { x } else { y },
            ("fmax", &[x, y]) => if x.is_nan() || y.is_nan() { <$t>::NAN } else if x > y || (x == y && x.is_sign_positive()) { x } else { y },
            ("fmin", &[x, y]) => if x.is_nan() || y.is_nan() { <$t>::NAN } else if x < y || (x == y && x.is_sign_negative()) { x } else { y },
            _ => unknown(i),
        }
    }
}; }
exec!(exec, f64);
mod single { use super::unknown; exec!(exec, f32); pub fn e(op: &str, v: &[f32], i: &str) -> f32 { exec(op, v, i, false) } }
use single::e as exec32;

/// Takes the place of core::arch::asm.
#[macro_export]
macro_rules! asm_ {
    (@ $c:ident [$($s:tt)*] [$($o:stmt;)*] $x:literal, $($r:tt)*) => { $crate::asm_!(@ $c [$($s)* $x] [$($o;)*] $($r)*) };
    (@ $c:ident $s:tt [$($o:stmt;)*] $n:ident = inout(vreg) $v:ident, $($r:tt)*) => { $c.put(stringify!($n), $v); $crate::asm_!(@ $c $s [$($o;)* $v = $c.get(stringify!($n));] $($r)*) };
    (@ $c:ident $s:tt [$($o:stmt;)*] $n:ident = inlateout(vreg) $v:ident, $($r:tt)*) => { $c.put(stringify!($n), $v); $crate::asm_!(@ $c $s [$($o;)* $v = $c.get(stringify!($n));] $($r)*) };
    (@ $c:ident $s:tt [$($o:stmt;)*] $n:ident = inout(vreg) $v:expr => $w:ident, $($r:tt)*) => { $c.put(stringify!($n), $v); $crate::asm_!(@ $c $s [$($o;)* $w = $c.get(stringify!($n));] $($r)*) };
    (@ $c:ident $s:tt [$($o:stmt;)*] $n:ident = inlateout(vreg) $v:expr => $w:ident, $($r:tt)*) => { $c.put(stringify!($n), $v); $crate::asm_!(@ $c $s [$($o;)* $w = $c.get(stringify!($n));] $($r)*) };
    (@ $c:ident $s:tt [$($o:stmt;)*] $n:ident = in(vreg) $v:expr, $($r:tt)*) => { $c.put(stringify!($n), $v); $crate::asm_!(@ $c $s [$($o;)*] $($r)*) };
    (@ $c:ident $s:tt [$($o:stmt;)*] $n:ident = out(vreg) $v:ident, $($r:tt)*) => { $c.put(stringify!($n), 0u64); $crate::asm_!(@ $c $s [$($o;)* $v = $c.get(stringify!($n));] $($r)*) };
    (@ $c:ident $s:tt [$($o:stmt;)*] $n:ident = lateout(vreg) $v:ident, $($r:tt)*) => { $c.put(stringify!($n), 0u64); $crate::asm_!(@ $c $s [$($o;)* $v = $c.get(stringify!($n));] $($r)*) };
    (@ $c:ident [$($s:literal)*] [$($o:stmt;)*] options($($x:tt)*) $(,)?) => { $($c.run($s);)* $($o;)* };
    (@ $c:ident [$($s:literal)*] [$($o:stmt;)*]) => { $($c.run($s);)* $($o;)* };
    ($($t:tt)*) => {{ let mut cpu = $crate::Cpu::default(); $crate::asm_!(@ cpu [] [] $($t)*); }};
}
pub use asm_ as asm;

#[path = "arch.rs"]
mod arch;

type Call = fn(&[u128; 3]) -> u128;
fn table() -> Vec<(&'static str, Call)> {
    let mut t: Vec<(&'static str, Call)> = vec![];
    macro_rules! f { ($($n:ident($($a:ident: $t:ty),*);)*) => { $(t.push((stringify!($n), |a| { let mut k = 0; Reg::put(arch::$n($({ let $a: $t = Reg::get(a[k]); k += 1; $a }),*)) }));)* }; }
    include!("calls.rs");
    t
}

fn main() {
    let t = table();
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let names: String = t.iter().map(|x| format!("{}\n", x.0)).collect();
    let mut h = (names.len() as u64).to_le_bytes();
    o.write_all(&h).unwrap();
    o.write_all(names.as_bytes()).unwrap();
    o.flush().unwrap();
    loop {
        if i.read_exact(&mut h).is_err() { return; }
        let n = u32::from_le_bytes(h[..4].try_into().unwrap()) as usize;
        // record: index (16 bytes with padding), three arguments
        let mut b = vec![0u8; n * 64];
        i.read_exact(&mut b).unwrap();
        for r in b.chunks_mut(64) {
            let u = |k: usize| u128::from_le_bytes(r[16 * k..16 * k + 16].try_into().unwrap());
            let v = (t[u(0) as u32 as usize].1)(&[u(1), u(2), u(3)]);
            r[16..32].copy_from_slice(&v.to_le_bytes());
            r[32..48].copy_from_slice(&[0; 16]);
        }
        o.write_all(&h).unwrap();
        o.write_all(&b).unwrap();
        o.flush().unwrap();
    }
}
