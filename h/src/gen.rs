//! Input generators: structured random bit patterns plus a dictionary of the numbers that
//! appear in the source of the function under test (read from /repo at run time).
use std::collections::{BTreeMap, BTreeSet};

use crate::lib_table::Ty;

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9abc_def1, stream.wrapping_mul(0xD1342543DE82EF95) | 1);
        for _ in 0..4 { r.u64(); }
        r
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        // splitmix64 with a per-stream odd increment
        self.0 = self.0.wrapping_add(self.1.wrapping_mul(2) ^ 0x9E3779B97F4A7C15 | 1);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn u128(&mut self) -> u128 { ((self.u64() as u128) << 64) | self.u64() as u128 }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn unit(&mut self) -> f64 { (self.u64() >> 11) as f64 * (1.0 / (1u64 << 53) as f64) }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}

/// Numbers found in source text.
#[derive(Default, Clone)]
pub struct Nums { pub ints: BTreeSet<u128>, pub floats: Vec<f64> }

fn hex_float(s: &str) -> Option<f64> {
    let t = s.strip_prefix("0x")?;
    let (m, e) = t.split_once('p')?;
    let e: i32 = e.parse().ok()?;
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let mut v = 0f64;
    let mut sc = 0;
    for c in i.chars() { v = v * 16.0 + c.to_digit(16)? as f64; }
    for c in f.chars().take(14) { v = v * 16.0 + c.to_digit(16)? as f64; sc += 4; }
    Some(v * 2f64.powi((e - sc).clamp(-1070, 1023)))
}

pub fn scan(src: &str, out: &mut Nums) {
    let b = src.as_bytes();
    let mut i = 0;
    let mut last: Option<u128> = None;
    let mut since = String::new();
    while i < b.len() {
        let c = b[i];
        let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if c.is_ascii_digit() && !prev_ident {
            let st = i;
            let hex = c == b'0' && i + 1 < b.len() && b[i + 1] == b'x';
            if hex { i += 2; }
            while i < b.len() {
                let d = b[i];
                let ok = if hex {
                    d.is_ascii_hexdigit() || d == b'_' || d == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_hexdigit()
                        || d == b'p' || ((d == b'-' || d == b'+') && b[i - 1] == b'p')
                } else {
                    d.is_ascii_digit() || d == b'_' || d == b'.' && i + 1 < b.len() && b[i + 1] != b'.'
                        || ((d == b'e' || d == b'E') && i + 1 < b.len() && (b[i + 1].is_ascii_digit() || b[i + 1] == b'-' || b[i + 1] == b'+'))
                        || ((d == b'-' || d == b'+') && (b[i - 1] == b'e' || b[i - 1] == b'E'))
                };
                if !ok { break; }
                i += 1;
            }
            let tok: String = src[st..i].chars().filter(|c| *c != '_').collect();
            if hex && tok.contains('p') {
                if let Some(v) = hex_float(&tok) { out.floats.push(v); }
            } else if hex {
                let t = tok.trim_start_matches("0x");
                if let Ok(v) = u128::from_str_radix(t, 16) { out.ints.insert(v); last = Some(v); since.clear(); }
            } else if let Ok(v) = tok.parse::<u128>() {
                if let (Some(l), "<<") = (last, since.trim()) {
                    if v < 128 { out.ints.insert(l.wrapping_shl(v as u32)); }
                }
                out.ints.insert(v);
                last = Some(v);
                since.clear();
            } else if let Ok(v) = tok.trim_end_matches('.').parse::<f64>() {
                out.floats.push(v);
            }
            // skip a type suffix
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; }
            continue;
        }
        since.push(c as char);
        i += 1;
    }
}

pub struct Source { files: BTreeMap<String, String>, defs: BTreeMap<String, String> }

impl Source {
    pub fn load() -> Source {
        let root = std::env::var("LIBM_SRC").unwrap_or_else(|_| "/repo/libm/src/math".into());
        let mut files = BTreeMap::new();
        fn walk(d: &std::path::Path, files: &mut BTreeMap<String, String>) {
            let Ok(rd) = std::fs::read_dir(d) else { return };
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() { walk(&p, files); }
                else if p.extension().is_some_and(|x| x == "rs") {
                    if let Ok(s) = std::fs::read_to_string(&p) { files.insert(p.display().to_string(), s); }
                }
            }
        }
        walk(std::path::Path::new(&root), &mut files);
        let mut defs = BTreeMap::new();
        for (f, s) in &files {
            for (k, _) in s.match_indices("fn ") {
                let n: String = s[k + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if !n.is_empty() {
                    // generic/ and ordinary definitions may share a name: keep every file
                    defs.entry(n).or_insert_with(String::new).push_str(&format!("{f}\n"));
                }
            }
        }
        Source { files, defs }
    }
    /// Numbers in the files reachable from the definition of `name` (call names followed).
    pub fn nums_for(&self, name: &str) -> Nums {
        let name = name.split(':').next().unwrap();
        let mut done: BTreeSet<String> = BTreeSet::new();
        let mut todo: Vec<String> = self.defs.get(name).map(|s| s.lines().map(String::from).collect()).unwrap_or_default();
        let mut n = Nums::default();
        while let Some(f) = todo.pop() {
            if !done.insert(f.clone()) || done.len() > 14 { continue; }
            let Some(s) = self.files.get(&f) else { continue };
            scan(s, &mut n);
            if f.contains("/support/") { continue; }
            let mut cur = String::new();
            for c in s.chars() {
                if c.is_alphanumeric() || c == '_' { cur.push(c); continue; }
                if c == '(' || c == ',' || c == ';' || c == '}' || c == ':' {
                    if let Some(fs) = self.defs.get(&cur) {
                        if fs.lines().count() <= 3 { todo.extend(fs.lines().map(String::from)); }
                    }
                }
                cur.clear();
            }
        }
        n
    }
}

/// Convert the numbers to bit patterns worth trying as an argument of type `ty`.
pub fn dict_for(n: &Nums, ty: Ty) -> Vec<u128> {
    let mut v: BTreeSet<u128> = BTreeSet::new();
    let fl = |x: f64| -> u128 {
        match ty {
            Ty::F16 => (x as f16).to_bits() as u128,
            Ty::F32 => (x as f32).to_bits() as u128,
            Ty::F64 => x.to_bits() as u128,
            Ty::F128 => (x as f128).to_bits(),
            Ty::I32 => (x as i32) as u32 as u128,
        }
    };
    let bias: i64 = if ty == Ty::I32 { 0 } else { (1i64 << (ty.bits() - 2 - ty.sig())) - 1 };
    for &x in &n.floats {
        v.insert(fl(x));
        if x != 0.0 { v.insert(fl(1.0 / x)); }
    }
    for &i in &n.ints {
        v.insert(i & ty.mask());
        if ty == Ty::I32 { continue; }
        v.insert(fl(i as f64));
        // as f32/f64 bits of another width
        if i < 1 << 32 {
            v.insert(fl(f32::from_bits(i as u32) as f64));
            if ty == Ty::F64 { v.insert((i as u128) << 32); v.insert((i as u128) << 32 | 0xffff_ffff); }
            if ty == Ty::F128 { v.insert(i << 96); v.insert(i << 80); }
        }
        if i < 1 << 64 { v.insert(fl(f64::from_bits(i as u64))); }
        // as an exponent
        if i < 20000 {
            for e in [i as i64, -(i as i64)] {
                let be = e + bias;
                if be > 0 && be < 2 * bias + 1 { v.insert((be as u128) << ty.sig()); }
            }
            if (i as i64) < 2 * bias + 1 { v.insert((i as u128) << ty.sig()); }
        }
    }
    v.into_iter().collect()
}

/// A mantissa with structure: few bits, runs of ones, trailing zeros, ...
pub fn mant(r: &mut Rng, sig: u32) -> u128 {
    let m = (1u128 << sig) - 1;
    let bit = |r: &mut Rng| 1u128 << r.below(sig as u64);
    (match r.below(9) {
        0 => 0,
        1 => m,
        2 => bit(r),
        3 => bit(r) | bit(r),
        4 => m ^ bit(r),
        5 => { let a = r.below(sig as u64 + 1); m >> a }
        6 => { let a = r.below(sig as u64 + 1); m << a }
        7 => { let a = r.below(sig as u64); r.u128() << a }
        _ => { let (a, b) = (r.below(sig as u64 + 1), r.below(sig as u64 + 1)); (m >> a) & (m << b) }
    }) & m
}

#[derive(Clone)]
pub struct Gen { pub r: Rng, pub ty: Ty, pub dict: std::sync::Arc<Vec<u128>> }

impl Gen {
    pub fn new(r: Rng, ty: Ty, dict: std::sync::Arc<Vec<u128>>) -> Self { Gen { r, ty, dict } }
    fn sign(&mut self) -> u128 { if self.r.u64() & 1 == 1 { self.ty.sign_bit() } else { 0 } }
    /// One bit pattern; all categories.
    pub fn bits(&mut self) -> u128 {
        let ty = self.ty;
        let r = &mut self.r;
        if ty == Ty::I32 { return self.int() as u32 as u128; }
        let (sig, nb) = (ty.sig(), ty.bits());
        let emax = (1u64 << (nb - 1 - sig)) - 1;
        let bias = (emax >> 1) as i64;
        let magn = match r.below(16) {
            0 | 1 => r.u128(),
            2 | 3 => (((bias + r.range(-8, 8)) as u128) << sig) | (r.u128() & ((1 << sig) - 1)),
            4 | 5 => ((r.below(emax + 1) as u128) << sig) | mant(r, sig),
            6 | 7 => { let w = (sig as i64 + 4).min(bias - 1); (((bias + r.range(-w, w)) as u128) << sig) | mant(r, sig) }
            8 | 9 | 10 if !self.dict.is_empty() => {
                let d = self.dict[r.below(self.dict.len() as u64) as usize];
                match r.below(6) {
                    0 => d,
                    1 | 2 => d.wrapping_add(r.range(-4, 4) as i128 as u128),
                    3 => { let k = r.below(sig as u64 + 1); d ^ (r.u128() & ((1u128 << k) - 1)) }
                    4 => { let k = r.below(sig as u64 + 1); d.wrapping_add((r.range(-3, 3) as i128 as u128) << k) }
                    _ => { let e = r.range(-3, 3) as i128 as u128; d.wrapping_add(e << sig) }
                }
            }
            11 => { // small integers, halves, quarters
                let k = r.below(20) as u32;
                let v = (r.below(1 << k.max(1)) as f64) * [1.0, 0.5, 0.25, 2.0][r.below(4) as usize];
                let b = match ty { Ty::F16 => (v as f16).to_bits() as u128, Ty::F32 => (v as f32).to_bits() as u128, Ty::F64 => v.to_bits() as u128, _ => (v as f128).to_bits() };
                b.wrapping_add(r.range(-2, 2) as i128 as u128)
            }
            12 => ((r.below(emax + 1) as u128) << sig).wrapping_add(r.range(-2, 2) as i128 as u128),
            13 => { // range boundaries
                let s = 1u128 << sig;
                let e = (emax as u128) << sig;
                let c = [0, 1, s - 1, s, e - 1, e, e + 1, e | (s >> 1), (bias as u128) << sig, e - s];
                r.pick(&c).wrapping_add(r.range(-2, 2) as i128 as u128)
            }
            14 => { let k = r.below(sig as u64 + 1); r.u128() & ((1u128 << k) - 1) } // subnormals
            _ => { let k = r.below(sig as u64 + 1); (r.u128() << k) & (ty.mask() >> 1) }
        };
        (magn & (ty.mask() >> 1)) | self.sign()
    }
    pub fn int(&mut self) -> i32 {
        let r = &mut self.r;
        match r.below(8) {
            0 => r.u64() as i32,
            1 | 2 => r.range(-40, 40) as i32,
            3 => r.range(-1200, 1200) as i32,
            4 => r.range(-40000, 40000) as i32,
            5 => { let k = r.below(31); ((1i64 << k) + r.range(-2, 2)) as i32 * if r.u64() & 1 == 1 { -1 } else { 1 } }
            6 if !self.dict.is_empty() => {
                let d = self.dict[r.below(self.dict.len() as u64) as usize] as u32 as i32;
                let d = d.wrapping_add(r.range(-2, 2) as i32);
                if r.u64() & 1 == 1 { d.wrapping_neg() } else { d }
            }
            _ => *r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 0, 1, -1, 2, -2]),
        }
    }
    /// A value related to `a` (same type): close, scaled, negated or unrelated.
    pub fn related(&mut self, a: u128) -> u128 {
        let ty = self.ty;
        let sig = ty.sig();
        match self.r.below(8) {
            0 => a.wrapping_add(self.r.range(-4, 4) as i128 as u128) & ty.mask(),
            1 => (a ^ ty.sign_bit()).wrapping_add(self.r.range(-2, 2) as i128 as u128) & ty.mask(),
            2 => { // scaled by a power of two, mantissa perturbed
                let e = self.r.range(-(sig as i64) - 3, sig as i64 + 3) as i128 as u128;
                let s = self.sign();
                (a.wrapping_add(e << sig).wrapping_add(self.r.range(-2, 2) as i128 as u128) & (ty.mask() >> 1)) | s
            }
            3 => { // same exponent region, fresh structured mantissa
                let e = self.r.range(-3, 3) as i128 as u128;
                let m = mant(&mut self.r, sig);
                let s = self.sign();
                (((a >> sig).wrapping_add(e) << sig | m) & (ty.mask() >> 1)) | s
            }
            4 => a,
            _ => self.bits(),
        }
    }
}
