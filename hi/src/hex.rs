use crate::gen_::*;
use crate::lib_table::Ty;
use crate::mon::*;
use L::support::{Hexf, Round, Status};
use L::support::hex_float as hexm;
use rug::Integer;

const ROUNDS: [Round; 4] = [Round::Nearest, Round::Negative, Round::Positive, Round::Zero];

/// What the text says, by the grammar  [+-] ( inf | nan | 0x H* [. H*] p [+-] D+ ).
enum Said { Bad, Inf(bool), Nan(bool), Num(bool, Integer, i128) }
fn read(s: &str) -> Said {
    let (neg, t) = match s.as_bytes().first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
    if t.eq_ignore_ascii_case("inf") { return Said::Inf(neg); }
    if t.eq_ignore_ascii_case("nan") { return Said::Nan(neg); }
    let Some(t) = t.strip_prefix("0x").or(t.strip_prefix("0X")) else { return Said::Bad };
    let Some(p) = t.find(['p', 'P']) else { return Said::Bad };
    let (m, e) = (&t[..p], &t[p + 1..]);
    let (i, f) = match m.find('.') { Some(d) => (&m[..d], &m[d + 1..]), None => (m, "") };
    let digits = format!("{i}{f}");
    if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_hexdigit()) { return Said::Bad; }
    let (en, ed) = match e.as_bytes().first() { Some(b'-') => (true, &e[1..]), Some(b'+') => (false, &e[1..]), _ => (false, e) };
    if ed.is_empty() || !ed.bytes().all(|c| c.is_ascii_digit()) { return Said::Bad; }
    let mut x = 0i128;
    for c in ed.bytes() { x = (x * 10 + (c - b'0') as i128).min(1 << 90); }
    if en { x = -x; }
    Said::Num(neg, Integer::from_str_radix(&digits, 16).unwrap(), x - 4 * f.len() as i128)
}

/// bits, inexact, underflow, overflow
fn round(neg: bool, n: &Integer, e: i128, bits: u32, sig: u32, r: Round) -> (u128, bool, bool, bool) {
    let eb = bits - sig - 1;
    let emax = (1i128 << (eb - 1)) - 1;
    let lsb = 1 - emax - sig as i128; // exponent of the smallest subnormal
    let inf = ((1u128 << eb) - 1) << sig;
    let s = if neg { 1u128 << (bits - 1) } else { 0 };
    if n.is_zero() { return (s, false, false, false); }
    let up_dir = match r { Round::Nearest => None, Round::Zero => Some(false), Round::Positive => Some(!neg), Round::Negative => Some(neg) };
    let over = (s | if up_dir == Some(false) { inf - 1 } else { inf }, true, false, true);
    let msb = n.significant_bits() as i128 - 1 + e;
    if msb > emax + 1 { return over; }
    let (n, e) = if msb < lsb - 3 { (Integer::from(1), lsb - 3) } else { (n.clone(), e) };
    let msb = n.significant_bits() as i128 - 1 + e;
    let q = (msb - sig as i128).max(lsb);
    let (m, inexact) = if e >= q { (Integer::from(&n << (e - q) as u32), false) } else {
        let k = (q - e) as u32;
        let fl = Integer::from(&n >> k);
        let rem = n - Integer::from(&fl << k);
        let half = Integer::from(1) << (k - 1);
        let up = !rem.is_zero() && match up_dir { Some(d) => d, None => rem > half || (rem == half && fl.is_odd()) };
        (fl + up as u32, !rem.is_zero())
    };
    let b = (((q - lsb) as u128) << sig) + m.to_u128().unwrap();
    if b >= inf { return over; }
    (b | s, inexact, inexact && b < 1 << sig, false)
}

fn one(m: &Mon, s: &str, bits: u32, sig: u32) {
    let said = read(s);
    let who = |r: Round| format!("parse_any({s:?}, {bits}, {sig}, {r:?})");
    for r in ROUNDS {
        let got = hexm::parse_any(s, bits, sig, r);
        let shown = match &got { Ok((b, st)) => format!("{b:#x} {st:?}"), Err(e) => format!("{e:?}") };
        let nanb = |neg: bool| ((1u128 << (bits - 1)) - (1u128 << (sig - 1))) | if neg { 1 << (bits - 1) } else { 0 };
        let infb = |neg: bool| (((1u128 << (bits - sig - 1)) - 1) << sig) | if neg { 1 << (bits - 1) } else { 0 };
        let want = match &said {
            Said::Bad => None,
            Said::Inf(n) => Some((infb(*n), false, false, false)),
            Said::Nan(n) => Some((nanb(*n), false, false, false)),
            Said::Num(n, v, e) => Some(round(*n, v, *e, bits, sig, r)),
        };
        let ok = match (&got, &want) {
            (Err(_), None) => true,
            (Ok((b, st)), Some(w)) => *b == w.0 && (st.inexact(), st.underflow(), st.overflow()) == (w.1, w.2, w.3) && (w.1 || *st == Status::OK),
            _ => false,
        };
        if !ok { m.violation_misc("parse_any", NAME, format!("{} = {shown}, but (bits, inexact, underflow, overflow) = {want:x?} is right [build {NAME}]", who(r))); }
        if r == Round::Nearest {
            let ex = hexm::parse_hex_exact(s, bits, sig).ok();
            let we = want.filter(|w| !w.1).map(|w| w.0);
            if ex != we { m.violation_misc("parse_hex_exact", NAME, format!("parse_hex_exact({s:?}, {bits}, {sig}) = {ex:x?}, but {we:x?} is right [build {NAME}]")); }
            if let Some(w) = we {
                let h = match (bits, sig) {
                    (16, 10) => Some(hexm::hf16(s).to_bits() as u128), (32, 23) => Some(L::support::hf32(s).to_bits() as u128),
                    (64, 52) => Some(L::support::hf64(s).to_bits() as u128), (128, 112) => Some(L::support::hf128(s).to_bits()), _ => None };
                if let Some(h) = h { if h != w { m.violation_misc("hf", NAME, format!("hf{bits}({s:?}) = {h:#x}, but {w:#x} is right")); } }
            }
        }
        m.evals(1);
    }
}

fn shape(r: &mut Rng) -> (u32, u32) {
    match r.below(3) {
        0 => *r.pick(&[(16, 10), (32, 23), (64, 52), (128, 112)]),
        1 => *r.pick(&[(16, 7), (8, 3), (8, 4), (8, 5), (19, 10), (80, 63), (128, 119), (31, 1), (64, 34), (4, 1), (6, 3), (24, 16)]),
        _ => { let sig = 1 + r.below(119) as u32; let lo = sig + 3; let hi = (sig + 30).min(128); (lo + r.below((hi - lo + 1) as u64) as u32, sig) }
    }
}

/// A number whose rounding is delicate in the given format, in one of many spellings.
fn text(r: &mut Rng, bits: u32, sig: u32) -> String {
    let eb = bits - sig - 1;
    let emax = (1i64 << (eb - 1)) - 1;
    let lsb = 1 - emax - sig as i64;
    // significand: structured bits, then a tail that ties or nearly ties
    let len = 1 + r.below(sig as u64 + 2) as u32;
    let mut n = Integer::from(match r.below(4) { 0 => (1u128 << len) - 1, 1 => 1u128 << (len - 1), _ => (r.u128() & ((1u128 << len) - 1)) | 1 << (len - 1) });
    let mut e: i64 = match r.below(8) {
        0 => lsb + r.range(-3, 3), 1 => emax - sig as i64 + r.range(-4, 4), 2 => emax - len as i64 + r.range(-2, 3), 3 => r.range(-20, 20),
        4 => lsb - len as i64 + r.range(-3, 4), 5 => 1 - emax + r.range(-3, 3) - len as i64, _ => r.range(lsb.max(-20000), emax.min(20000)) };
    if r.below(3) > 0 {
        let k = 1 + r.below(4) as u32 * r.below(40) as u32 % 200;
        n <<= k; e -= k as i64;
        match r.below(5) { 0 => n += Integer::from(1) << (k - 1), 1 => n += (Integer::from(1) << (k - 1)) + 1u32, 2 => if k > 1 { n += (Integer::from(1) << (k - 1)) - 1u32 }, 3 => n += 1u32, _ => n += Integer::from(r.u128()) % (Integer::from(1) << k) }
    }
    if r.below(12) == 0 { n = Integer::new(); }
    if r.below(12) == 0 { e = *r.pick(&[i32::MAX as i64, i32::MIN as i64, i64::MAX, i64::MIN + 1, 1 << 31, 1 << 30, -(1 << 30), u32::MAX as i64, 99999999999, -99999999999, i32::MAX as i64 - 200, i32::MIN as i64 + 200]); }
    // place the point anywhere: the value is n * 2^e
    let sh = (e.rem_euclid(4)) as u32 * (r.below(4) > 0) as u32;
    let mut d = (n << sh).to_string_radix(16);
    let mut ex = e.saturating_sub(sh as i64) as i128;
    let lead = r.below(4) as usize * r.below(12) as usize;
    d = format!("{}{d}", "0".repeat(lead));
    let trail = r.below(3) as usize * r.below(40) as usize;
    d.push_str(&"0".repeat(trail)); ex -= 4 * trail as i128;
    let f = r.below(d.len() as u64 + 2) as usize;
    let body = if f > d.len() { d } else { ex += 4 * f as i128; let (a, b) = d.split_at(d.len() - f); format!("{a}.{b}") };
    let body = if r.below(3) == 0 { body.to_uppercase() } else { body };
    let zeros = "0".repeat((r.below(6) == 0) as usize * r.below(15) as usize);
    let sign = *r.pick(&["", "-", "+", "-"]);
    let esign = if ex < 0 { "-" } else { *r.pick(&["", "+"]) };
    format!("{sign}0{}{body}{}{esign}{zeros}{}", r.pick(&["x", "X", "x"]), r.pick(&["p", "P", "p"]), ex.unsigned_abs())
}

fn mangle(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        let i = r.below(v.len() as u64 + 1) as usize;
        let c = *r.pick(&['0', 'x', 'X', 'p', 'P', '.', '+', '-', 'g', 'e', ' ', '_', 'f', '9', '\u{e9}', 'n', 'i', '/', ':', '@', '`', 'G', '\0']);
        match r.below(3) { 0 => v.insert(i, c), 1 => if i < v.len() { v.remove(i); }, _ => if i < v.len() { v[i] = c; } }
    }
    v.into_iter().collect()
}

macro_rules! fmt { ($m:expr, $ty:expr, $f:ident, $xb:expr) => {{
    let (m, ty, xb): (&Mon, Ty, u128) = ($m, $ty, $xb);
    let x = <$f>::from_bits(xb as _);
    let s = format!("{}", Hexf(x));
    let bad = |t: String| m.violation_misc("Hexf", NAME, format!("Hexf::<{}>({xb:#x}) prints {s:?}: {t} [build {NAME}]", stringify!($f)));
    for t in [format!("{:x}", Hexf(x)), format!("{:?}", Hexf(x))] { if t != s { bad(format!("the other traits print {t:?}")); } }
    let back = match read(&s) { Said::Bad => None, Said::Inf(n) => Some(ty.exp_mask() | if n { ty.sign_bit() } else { 0 }), Said::Nan(n) => Some(!0 - n as u128),
        Said::Num(n, v, e) => { let r = round(n, &v, e, ty.bits(), ty.sig(), Round::Nearest); if r.1 { None } else { Some(r.0) } } };
    let want = if ty.is_nan(xb) { !0 - (xb >> (ty.bits() - 1)) } else { xb };
    if back != Some(want) { bad(format!("reads back as {back:x?}")); }
    if !ty.is_nan(xb) && hexm::parse_hex_exact(&s, ty.bits(), ty.sig()).ok() != Some(xb) { bad("parse_hex_exact does not read it back".into()); }
    let i = (xb >> 3) as i32;
    let t = format!("{}", Hexf((x, i)));
    if t != format!("({s}, {i:x})") { bad(format!("with an integer: {t:?}")); }
    let t = format!("{}", Hexf((x, x)));
    if t != format!("({s}, {s})") { bad(format!("as a pair: {t:?}")); }
    m.evals(1);
}}; }

pub fn check(m: &'static Mon) {
    m.rule("Parsing: each case is a text and a format (the four IEEE widths or any supported pair of widths), parsed in all four rounding modes; texts spell numbers placed on and next to rounding boundaries, ties, the subnormal and overflow thresholds and extreme exponents, with any point position, leading and trailing zeros, case and sign; one in four is mangled. Accepting or rejecting, the bits and the status are compared with a reader of the grammar on big integers. Formatting: each case is a bit pattern; the text must read back to it. f16 patterns are enumerated. Release and checked builds.");
    let n: usize = if m.thorough { 60_000 } else { 1500 };
    par(n, |c| {
        let mut r = Rng::new(m.seed ^ 0xc21, c as u64);
        for k in 0..256 {
            let (bits, sig) = shape(&mut r);
            let mut s = text(&mut r, bits, sig);
            match r.below(16) { 0..4 => s = mangle(&mut r, &s), 4 => { let w = *r.pick(&["inf", "nan", "INF", "NaN", "-Inf", "+nan", "-nan", "", "-", "0x", "0xp0", "0x.p0", "0x1", "0x1p", "0x1p+", "infinity", "0x1.p0", "0x.8p-0", "+0x0p0", "-0x0.0p-99", "x1p0", "1p0", "--0x1p0"]); s = w.into(); }
                5 => { let z = r.below(3000) as usize; s = s.replacen("0x", &format!("0x{}", "0".repeat(z)), 1); }
                6 => { let z = 1 + r.below(1500) as usize; if let Some(p) = s.find(['p', 'P']) { let dig: String = (0..z).map(|_| char::from_digit(r.below(16) as u32, 16).unwrap()).collect(); s.insert_str(p, &dig); } } _ => {} }
            one(m, &s, bits, sig);
            m.seen(bits as u64 ^ (sig as u64) << 8, s.bytes().fold(1u128, |h, c| h.wrapping_mul(1000003) ^ c as u128), 0, 0);
            if c == 0 && k < 6 { m.sample(format!("{s:?} as {bits}/{sig}")); }
        }
    });
    // unsupported formats are refused
    for (b, s) in [(129, 112), (128, 120), (200, 100), (16, 14), (64, 33), (34, 3)] { if hexm::parse_any("0x1p0", b, s, Round::Nearest).is_ok() { m.violation_misc("parse_any", NAME, format!("format {b}/{s} is accepted")); } }
    par(256, |c| for x in 0..256 { fmt!(m, Ty::F16, f16, (c * 256 + x) as u128); });
    if NAME == "default" { m.enumerated(65536); }
    let n: usize = if m.thorough { 40_000 } else { 800 };
    for ty in [Ty::F32, Ty::F64, Ty::F128] {
        par(n, |c| {
            let mut g = Gen::new(Rng::new(m.seed ^ 0xc2100 ^ ty.bits() as u64, c as u64), ty, Default::default());
            for _ in 0..256 {
                let x = g.bits();
                match ty { Ty::F32 => fmt!(m, ty, f32, x), Ty::F64 => fmt!(m, ty, f64, x), _ => fmt!(m, ty, f128, x) }
                m.seen(ty.bits() as u64, x, 1, 0);
            }
        });
    }
}
