//! C24, first part: stepping between floats, spacing, the 8-bit float, the counting iterator.
use libm_test::generate::KnownSize;
use libm_test::{Float, FloatExt, f8, hf8, linear_ints, logspace};

use crate::gen_::Rng;
use crate::mon::*;

/// A format: total bits and significand bits.
#[derive(Clone, Copy)]
pub struct Fmt { pub bits: u32, pub sig: u32 }
impl Fmt {
    pub fn sign(self) -> u128 { 1 << (self.bits - 1) }
    pub fn inf(self) -> u128 { self.sign() - (1 << self.sig) }
    pub fn mask(self) -> u128 { self.sign() | (self.sign() - 1) }
    pub fn nan(self, b: u128) -> bool { b & (self.sign() - 1) > self.inf() }
    /// Steps from zero; both zeros are zero.
    pub fn ord(self, b: u128) -> i128 { let m = (b & (self.sign() - 1)) as i128; if b & self.sign() != 0 { -m } else { m } }
    /// The value `n` steps up (or down) from `b`, saturating at infinity.
    pub fn step(self, b: u128, n: u128, up: bool) -> u128 {
        if self.nan(b) || n == 0 { return b; }
        if !up { return self.step(b ^ self.sign(), n, true) ^ self.sign(); }
        let (inf, o) = (self.inf(), self.ord(b));
        let low = o.unsigned_abs();
        if o >= 0 { low.saturating_add(n).min(inf) } else if n > low { (n - low).min(inf) } else { self.sign() | (low - n) }
    }
}

/// Interesting bit patterns of a format.
pub fn bits(r: &mut Rng, f: Fmt) -> u128 {
    let v = match r.below(8) {
        0 => r.below(40) as u128,
        1 => f.inf().wrapping_add(r.below(9) as u128).wrapping_sub(4),
        2 => (1u128 << r.below(f.bits as u64)).wrapping_add(r.below(5) as u128).wrapping_sub(2),
        3 => f.sign().wrapping_sub(1),
        4 => (((1u128 << (f.bits - 2 - f.sig)) - 1) << f.sig).wrapping_add(r.below(9) as u128).wrapping_sub(4),
        _ => r.u128(),
    };
    (if r.u64() & 1 == 1 { v ^ f.sign() } else { v }) & f.mask()
}

macro_rules! for_type { ($name:ident, $t:ty, $i:ty, $bits:literal, $sig:literal) => {
mod $name {
    use super::*;
    const F: Fmt = Fmt { bits: $bits, sig: $sig };
    fn of(b: u128) -> $t { <$t as Float>::from_bits(b as $i) }
    fn to(x: $t) -> u128 { Float::to_bits(x) as u128 }
    pub fn steps(m: &Mon, seed: u64, n: u64) {
        par(8, |k| {
            let mut r = Rng::new(seed, 0x2400 + k as u64 + $bits as u64 * 64);
            for _ in 0..n / 8 + 1 {
                let b = bits(&mut r, F);
                let d = match r.below(6) { 0 => r.below(4) as u128, 1 => F.ord(b).unsigned_abs().wrapping_add(r.below(5) as u128).wrapping_sub(2), 2 => (2 * F.inf()).wrapping_add(r.below(5) as u128).wrapping_sub(2), 3 => F.inf().wrapping_sub(F.ord(b) as u128).wrapping_add(r.below(3) as u128), _ => r.u128() >> r.below(128) } & F.mask();
                one(m, b, d);
            }
        });
        m.evals(n * 4);
    }
    pub fn one(m: &Mon, b: u128, d: u128) {
        m.seen(0x2401 + $bits, b, d, 0);
        let x = of(b);
        for (what, got, want) in [
            ("next_up", to(x.next_up()), F.step(b, 1, true)),
            ("next_down", to(x.next_down()), F.step(b, 1, false)),
            ("n_up", to(x.n_up(d as $i)), F.step(b, d, true)),
            ("n_down", to(x.n_down(d as $i)), F.step(b, d, false)),
        ] {
            if got != want { m.violation_misc(what, stringify!($t), format!("{}::{what}({b:#x}, {d:#x}) = {got:#x}, expected {want:#x}", stringify!($t))); }
        }
    }
    pub fn consts(m: &Mon) {
        let c = <$t as FloatExt>::consts();
        let q = 1u128 << ($sig - 1);
        let (e, s, f) = (F.inf(), F.sign(), (1u128 << $sig) - 1);
        let want = [(c.pos_nan, e | q), (c.neg_nan, s | e | q), (c.max_qnan, e | f), (c.min_snan, e | 1), (c.max_snan, e | f ^ q), (c.neg_max_qnan, s | e | f), (c.neg_min_snan, s | e | 1), (c.neg_max_snan, s | e | (f ^ q))];
        for (i, (g, w)) in want.iter().enumerate() {
            if to(*g) != *w { m.violation_misc("consts", stringify!($t), format!("{} constant {i} is {:#x}, expected {w:#x}", stringify!($t), to(*g))); }
        }
        let mut all: Vec<u128> = c.iter().map(to).collect();
        let mut w: Vec<u128> = want.iter().map(|x| x.1).collect();
        all.sort(); w.sort();
        if all != w { m.violation_misc("consts", stringify!($t), format!("{}: iter() gives {all:x?}", stringify!($t))); }
        m.evals(9);
    }
    pub fn space(m: &Mon, seed: u64, n: u64) {
        par(8, |k| {
            let mut r = Rng::new(seed, 0x2500 + k as u64 + $bits as u64 * 64);
            for _ in 0..n / 8 + 1 {
                let (mut a, mut b) = (bits(&mut r, F), bits(&mut r, F));
                if r.below(3) == 0 { b = F.step(a, (r.u64() >> r.below(64)) as u128, true); }
                if F.nan(a) || F.nan(b) { continue; }
                if F.ord(a) > F.ord(b) { std::mem::swap(&mut a, &mut b); }
                let steps = match r.below(4) { 0 => 2 + r.below(3), 1 => 2 + r.below(2000), 2 => 2 + r.below(50), _ => 2 + r.below(300) } as u128;
                let steps = steps.min(F.mask());
                m.seen(0x2501 + $bits, a, b, steps);
                let (it, count) = logspace(of(a), of(b), steps as $i);
                let second: Vec<u128> = it.clone().map(to).collect();
                let v: Vec<u128> = it.map(to).collect();
                let bad = |s: String| m.violation_misc("logspace", stringify!($t), format!("logspace::<{}>({a:#x}, {b:#x}, {steps}): {s}", stringify!($t)));
                if v != second { bad("the clone differs".into()); }
                even(&v, count as u128, steps, F.ord(a), F.ord(b), |x| F.ord(x), a, &bad);
            }
        });
        m.evals(n);
    }
} } }
for_type!(t8, f8, u8, 8, 3);
for_type!(t16, f16, u16, 16, 10);
for_type!(t32, f32, u32, 32, 23);
for_type!(t64, f64, u64, 64, 52);
for_type!(t128, f128, u128, 128, 112);

/// At most `steps` evenly spaced items from `lo`, leaving less than one item per step at the end.
pub fn even<T: Copy + PartialEq + std::fmt::LowerHex>(v: &[T], count: u128, steps: u128, lo: i128, hi: i128, ord: impl Fn(T) -> i128, first: T, bad: &dyn Fn(String)) {
    if v.len() as u128 != count { bad(format!("{} items, said to be {count}", v.len())); }
    if v.len() as u128 > steps { bad(format!("{} items", v.len())); }
    if v.is_empty() { bad("no item".into()); return; }
    if v[0] != first { bad(format!("the first item is {:#x}", v[0])); }
    let width = hi.wrapping_sub(lo) as u128;
    // every value when there are few, otherwise as many as asked for
    if v.len() as u128 != steps.min(width.saturating_add(1)) { bad(format!("{} items over {width} steps", v.len())); return; }
    let last = ord(v[v.len() - 1]);
    if last > hi { bad(format!("the last item {:#x} is past the end", v[v.len() - 1])); }
    if (hi.wrapping_sub(last) as u128) >= v.len() as u128 { bad(format!("the last item {:#x} is {} before the end", v[v.len() - 1], hi.wrapping_sub(last))); }
    if v.len() > 1 {
        let d = ord(v[1]).wrapping_sub(ord(v[0]));
        if ord(v[1]) <= ord(v[0]) { bad("not increasing".into()); }
        if let Some(i) = (1..v.len()).find(|&i| ord(v[i]).wrapping_sub(ord(v[i - 1])) != d) { bad(format!("uneven at item {i}")); }
    }
}

fn value8(b: u8) -> f64 {
    let (e, f) = ((b >> 3 & 15) as i32, (b & 7) as f64);
    let v = if e == 15 { if f != 0.0 { f64::NAN } else { f64::INFINITY } } else if e == 0 { f * 2f64.powi(-9) } else { (8.0 + f) * 2f64.powi(e - 10) };
    if b & 0x80 != 0 { -v } else { v }
}

fn eight(m: &Mon) {
    for a in 0..=255u8 {
        let x = f8::from_bits(a);
        let va = value8(a);
        let bad = |s: String| m.violation_misc("f8", "f8", format!("f8 {a:#04x}: {s}"));
        if x.to_bits() != a || x.to_bits_signed() != a as i8 { bad("bits are not kept".into()); }
        if x.is_nan() != va.is_nan() || x.is_infinite() != va.is_infinite() || x.is_sign_negative() != (a & 128 != 0) { bad("classification".into()); }
        if x.abs().to_bits() != a & 127 || (-x).to_bits() != a ^ 128 { bad("abs or neg".into()); }
        for b in 0..=255u8 {
            let (y, vb) = (f8::from_bits(b), value8(b));
            m.seen(0x2480, a as u128, b as u128, 0);
            if x.partial_cmp(&y) != va.partial_cmp(&vb) || (x == y) != (va == vb) || (x < y) != (va < vb) { bad(format!("comparison with {b:#04x}")); }
            if x.copysign(y).to_bits() != a & 127 | b & 128 { bad(format!("copysign with {b:#04x}")); }
        }
        // every spelling of a finite value
        if !va.is_nan() && !va.is_infinite() {
            let s = if a & 128 != 0 { "-" } else { "" };
            let (e, f) = ((a >> 3 & 15) as i32, (a & 7) as u32);
            let mut t = vec![];
            if e == 0 { t.push(format!("{s}0x{f:x}p-9")); t.push(format!("{s}0x0.{:x}p-6", f << 1)); }
            else { t.push(format!("{s}0x{:x}p{}", 8 + f, e - 10)); t.push(format!("{s}0x1.{:x}p{}", f << 1, e - 7)); t.push(format!("{s}0x{:x}p{}", (8 + f) << 4, e - 14)); }
            for t in t { if hf8(&t).to_bits() != a { bad(format!("hf8({t}) = {:#04x}", hf8(&t).to_bits())); } }
        }
        m.evals(520);
    }
    let all: Vec<u8> = f8::ALL.iter().map(|x| x.to_bits()).collect();
    let mut want: Vec<u8> = (0..=255u8).filter(|b| value8(*b).is_finite()).collect();
    want.sort_by(|a, b| value8(*a).partial_cmp(&value8(*b)).unwrap().then((a & 128 == 0).cmp(&(b & 128 == 0))));
    if all != want { m.violation_misc("f8", "f8", "ALL is not the ascending list of finite values".into()); }
    if f8::ALL_LEN != want.len() { m.violation_misc("f8", "f8", "ALL_LEN".into()); }
}

fn ints(m: &Mon, seed: u64, n: u64) {
    par(8, |k| {
        let mut r = Rng::new(seed, 0x2600 + k as u64);
        for _ in 0..n / 8 + 1 {
            let mut p = || match r.below(6) { 0 => i32::MIN + r.below(3) as i32, 1 => i32::MAX - r.below(3) as i32, 2 => r.range(-300, 70000) as i32, 3 => r.range(-5, 5) as i32, _ => r.u64() as i32 };
            let (mut a, mut b) = (p(), p());
            if a > b { std::mem::swap(&mut a, &mut b); }
            let steps = match r.below(4) { 0 => 4 + r.below(4), 1 => 4 + r.below(3000), _ => 4 + r.below(200) };
            m.seen(0x2601, a as u128, b as u128, steps as u128);
            let (it, count) = linear_ints(a..=b, steps);
            let second: Vec<i32> = it.clone().collect();
            let v: Vec<i32> = it.collect();
            let bad = |s: String| m.violation_misc("linear_ints", "i32", format!("linear_ints({a}..={b}, {steps}): {s}"));
            if v != second { bad("the clone differs".into()); }
            even(&v, count as u128, steps as u128, a as i128, b as i128, |x| x as i128, a, &bad);
        }
    });
    m.evals(n);
}

fn known(m: &Mon) {
    for real in 0..40u64 {
        for claim in 0..40u64 {
            m.seen(0x2602, real as u128, claim as u128, 0);
            let res = quiet(|| {
                let mut k = KnownSize::new(0..real, claim);
                let mut got = 0;
                loop {
                    if real == claim && (k.len() as u64 != real - got || k.size_hint() != ((real - got) as usize, Some((real - got) as usize))) { return Err(format!("length after {got} of {real}")); }
                    match k.next() { Some(v) if v == got => got += 1, Some(v) => return Err(format!("item {got} is {v}")), None => break }
                }
                if got == real { Ok(()) } else { Err(format!("{got} of {real} items")) }
            });
            m.evals(1);
            match res {
                Ok(Err(s)) => m.violation_misc("KnownSize", "", s),
                Ok(Ok(())) if real != claim => m.violation_misc("KnownSize", "", format!("{real} items pass for {claim}")),
                Err(_) if real == claim => m.violation_misc("KnownSize", "", format!("panics on {real} items claimed as such")),
                _ => {}
            }
        }
    }
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ());
    QUIET.with(|q| q.set(old));
    r
}

pub fn check(m: &'static Mon) {
    let n: u64 = if m.thorough { 40_000_000 } else { 2_000_000 };
    // every value of the small formats, with every step count in 8 bits
    for b in 0..=255u128 { for d in 0..=255u128 { t8::one(m, b, d); } }
    m.evals(4 << 16);
    for b in 0..=65535u128 { t16::one(m, b, b.wrapping_mul(40503) & 65535); }
    m.evals(4 << 16);
    t16::steps(m, m.seed, n); t32::steps(m, m.seed, n); t64::steps(m, m.seed, n); t128::steps(m, m.seed, n);
    t8::consts(m); t16::consts(m); t32::consts(m); t64::consts(m); t128::consts(m);
    let s = n / 100;
    t8::space(m, m.seed, s); t16::space(m, m.seed, s); t32::space(m, m.seed, s); t64::space(m, m.seed, s); t128::space(m, m.seed, s);
    eight(m);
    ints(m, m.seed, s);
    known(m);
    m.stat("stepping", format!("{{\"next_up, next_down, n_up, n_down calls per width\": {}, \"logspace and linear_ints sequences per type\": {s}}}", 4 * n));
    m.sample("n_up and n_down across zero, into and beyond infinity, from infinities and NaN, f8 exhaustively".into());
}
