use crate::gen_::*;
use crate::lib_table::Ty;
use crate::mon::*;
use crate::refs::*;
use L::support::{CastFrom, CastInto, DFloat, DInt, Float, HFloat, HInt, Int, MinInt, i256, u256};
use rug::Integer;

fn big(x: u256) -> Integer { (Integer::from(x.hi) << 128) + x.lo }
fn small(i: &Integer) -> (u128, u128) { (i.clone().keep_bits(128).to_u128().unwrap(), (i.clone() >> 128u32).keep_bits(128).to_u128().unwrap()) }
fn sbig(x: i256) -> Integer { (Integer::from(x.hi as i128) << 128) + x.lo }

/// Structured 128-bit patterns: carries and borrows across limb boundaries are likely.
fn word(r: &mut Rng) -> u128 {
    let limb = |r: &mut Rng| match r.below(7) { 0 => 0, 1 => u64::MAX, 2 => 1, 3 => 1 << 63, 4 => u64::MAX >> r.below(64), 5 => u64::MAX << r.below(64), _ => r.u64() };
    match r.below(4) {
        0 => r.u128() >> r.below(128),
        1 => { let k = r.below(128); (1u128 << k).wrapping_add(r.range(-2, 2) as i128 as u128) }
        _ => (limb(r) as u128) << 64 | limb(r) as u128,
    }
}

struct B<'a> { m: &'a Mon }
impl B<'_> {
    fn eq<T: PartialEq + std::fmt::Debug>(&self, what: impl Fn() -> String, got: T, want: T) {
        if got != want { let w = what(); self.m.violation_misc(w.split('(').next().unwrap(), NAME, format!("{w} = {got:x?}, but {want:x?} is right [build {NAME}]")); }
    }
}

fn wide(b: &B, a: u256, c: u256, sh: u32) {
    let (x, y) = (big(a), big(c));
    let t = |i: Integer| { let (lo, hi) = small(&i); (lo, hi) };
    let u = |v: u256| (v.lo, v.hi);
    let i = |v: i256| (v.lo, v.hi);
    b.eq(|| format!("u256 add({a:x?}, {c:x?})"), u(a + c), t(Integer::from(&x + &y)));
    b.eq(|| format!("u256 shr({a:x?}, {sh})"), u(a >> sh), t(Integer::from(&x >> sh)));
    b.eq(|| format!("u256 bitor({a:x?}, {c:x?})"), u(a | c), t(Integer::from(&x | &y)));
    b.eq(|| format!("u256 not({a:x?})"), u(!a), (!a.lo, !a.hi));
    b.eq(|| format!("i256 bitor({a:x?}, {c:x?})"), i(a.signed() | c.signed()), t(Integer::from(&x | &y)));
    b.eq(|| format!("i256 not({a:x?})"), i(!a.signed()), (!a.lo, !a.hi));
    b.eq(|| format!("u256 cmp({a:x?}, {c:x?})"), (a.partial_cmp(&c), a == c, a < c, a <= c), (Some(x.cmp(&y)), x == y, x < y, x <= y));
    let (p, q) = (a.signed(), c.signed());
    let (sx, sy) = (sbig(p), sbig(q));
    b.eq(|| format!("i256 cmp({a:x?}, {c:x?})"), (p.partial_cmp(&q), p == q, p < q, p > q), (Some(sx.cmp(&sy)), sx == sy, sx < sy, sx > sy));
    b.eq(|| format!("u256 signed({a:x?})"), (i(p), u(p.unsigned())), (u(a), u(a)));
    b.eq(|| format!("u256 lo_hi({a:x?})"), (a.lo(), a.hi(), a.lo_hi()), (a.lo, a.hi, (a.lo, a.hi)));
    b.eq(|| format!("i256 lo_hi({a:x?})"), (p.lo(), p.hi(), p.lo_hi()), (a.lo as i128, a.hi as i128, (a.lo as i128, a.hi as i128)));
    // from 128 bits
    let (v, w) = (a.lo, c.lo);
    let prod = t(Integer::from(v) * w);
    b.eq(|| format!("u128 widen_mul({v:#x}, {w:#x})"), u(v.widen_mul(w)), prod);
    b.eq(|| format!("u128 zero_widen_mul({v:#x}, {w:#x})"), u(v.zero_widen_mul(w)), prod);
    b.eq(|| format!("i128 zero_widen_mul({v:#x}, {w:#x})"), i((v as i128).zero_widen_mul(w as i128)), prod);
    b.eq(|| format!("u128 widen({v:#x})"), (u(v.widen()), u(v.zero_widen())), ((v, 0), (v, 0)));
    b.eq(|| format!("i128 widen({v:#x})"), (i((v as i128).widen()), i((v as i128).zero_widen())), (t(Integer::from(v as i128)), (v, 0)));
}

macro_rules! prim { ($b:expr, $r:expr, $($u:ident $i:ident),*) => { $({
    let (b, r): (&B, &mut Rng) = ($b, $r);
    let (x, y) = (word(r) as $u, if r.below(8) == 0 { 0 } else { word(r) as $u });
    let y = if r.below(6) == 0 { x } else { y };
    let k = r.below($u::BITS as u64) as u32;
    let (sx, sy) = (x as $i, y as $i);
    let nm = stringify!($u);
    let w = |op: &str| format!("{nm} {op}({x:#x}, {y:#x}, {k})");
    b.eq(|| w("wrapping"), (Int::wrapping_add(x, y), Int::wrapping_sub(x, y), Int::wrapping_mul(x, y), Int::wrapping_neg(x)), (x.wrapping_add(y), x.wrapping_sub(y), x.wrapping_mul(y), x.wrapping_neg()));
    b.eq(|| w("signed wrapping"), (Int::wrapping_add(sx, sy), Int::wrapping_sub(sx, sy), Int::wrapping_mul(sx, sy), Int::wrapping_neg(sx)), (x.wrapping_add(y) as $i, x.wrapping_sub(y) as $i, x.wrapping_mul(y) as $i, x.wrapping_neg() as $i));
    b.eq(|| w("checked"), (Int::checked_add(x, y), Int::checked_sub(x, y)), (x.checked_add(y), x.checked_sub(y)));
    b.eq(|| w("signed checked"), (Int::checked_add(sx, sy), Int::checked_sub(sx, sy)), (sx.checked_add(sy), sx.checked_sub(sy)));
    b.eq(|| w("overflowing"), (Int::overflowing_add(x, y), Int::overflowing_sub(x, y), Int::overflowing_add(sx, sy), Int::overflowing_sub(sx, sy)), (x.overflowing_add(y), x.overflowing_sub(y), sx.overflowing_add(sy), sx.overflowing_sub(sy)));
    b.eq(|| w("shifts"), (Int::wrapping_shl(x, k), Int::wrapping_shr(x, k), Int::rotate_left(x, k), Int::logical_shr(x, k), Int::logical_shr(sx, k), Int::wrapping_shr(sx, k)), (x << k, x >> k, x.rotate_left(k), x >> k, (x >> k) as $i, sx >> k));
    b.eq(|| w("abs_diff"), (Int::abs_diff(x, y), Int::abs_diff(sx, sy)), (if x > y { x - y } else { y - x }, if sx > sy { sx.wrapping_sub(sy) } else { sy.wrapping_sub(sx) } as $u));
    b.eq(|| w("zeros"), (Int::leading_zeros(x), Int::leading_zeros(sx), Int::is_zero(x), Int::is_zero(sx)), (x.leading_zeros(), x.leading_zeros(), x == 0, x == 0));
    if x != 0 { b.eq(|| w("ilog2"), Int::ilog2(x), $u::BITS - 1 - x.leading_zeros()); }
    b.eq(|| w("sign"), (Int::signed(x), Int::unsigned(sx), <$i as Int>::from_unsigned(x), <$u as Int>::from_unsigned(x), Int::signed(sx), Int::unsigned(x)), (sx, x, sx, x, sx, x));
    if sx != $i::MIN { b.eq(|| w("abs"), Int::abs(sx), if sx < 0 { -sx } else { sx }); }
    b.eq(|| w("bool"), (<$u as Int>::from_bool(true), <$u as Int>::from_bool(false), <$i as Int>::from_bool(true)), (1, 0, 1));
    b.eq(|| w("consts"), (<$u as MinInt>::BITS, <$i as MinInt>::BITS, <$u as MinInt>::SIGNED, <$i as MinInt>::SIGNED, <$i as MinInt>::MIN, <$i as MinInt>::MAX, <$u as MinInt>::MAX, <$u as MinInt>::MIN, <$i as MinInt>::ONE, <$i as MinInt>::ZERO), ($u::BITS, $u::BITS, false, true, $i::MIN, $i::MAX, $u::MAX, 0, 1, 0));
    cast!(b, x, $u; u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
    cast!(b, sx, $i; u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
})* } }
macro_rules! cast { ($b:expr, $x:expr, $f:ident; $($t:ident)*) => { $({
    let l: $t = CastInto::<$t>::cast_lossy($x);
    let l2: $t = <$t as CastFrom<$f>>::cast_from_lossy($x);
    $b.eq(|| format!("cast_lossy {} to {}({:#x})", stringify!($f), stringify!($t), $x), (l, l2), ($x as $t, $x as $t));
    if <$t>::try_from($x).is_ok() {
        let l: $t = CastInto::<$t>::cast($x);
        let l2: $t = <$t as CastFrom<$f>>::cast_from($x);
        $b.eq(|| format!("cast {} to {}({:#x})", stringify!($f), stringify!($t), $x), (l, l2), ($x as $t, $x as $t));
    }
})* } }
macro_rules! dint { ($b:expr, $r:expr, $($h:ident $uh:ident $d:ident),*) => { $({
    let (x, y) = (word($r) as $h, word($r) as $h);
    let z = word($r) as $d;
    let k = <$h>::BITS;
    let w = |op: &str| format!("{} {op}({x:#x}, {y:#x}, {z:#x})", stringify!($h));
    $b.eq(|| w("halves"), (z.lo(), z.hi(), z.lo_hi(), <$d>::from_lo_hi(z.lo(), z.hi())), (z as $h, (z >> k) as $h, (z as $h, (z >> k) as $h), z));
    $b.eq(|| w("widen"), (x.widen(), x.zero_widen(), x.widen_hi()), (x as $d, x as $uh as $d, (x as $d) << k));
    $b.eq(|| w("widen_mul"), (x.widen_mul(y), x.zero_widen_mul(y)), ((x as $d) * (y as $d), (x as $uh as $d).wrapping_mul(y as $uh as $d)));
})* } }

macro_rules! flt { ($b:expr, $g:expr, $ty:expr, $f:ident, $u:ident) => {{
    let (b, ty): (&B, Ty) = ($b, $ty);
    let xb = $g.bits();
    let yb = $g.related(xb);
    let (x, y) = (<$f>::from_bits(xb as $u), <$f>::from_bits(yb as $u));
    let (sig, eb) = (ty.sig(), ty.bits() - 1 - ty.sig());
    let nan = |v: u128| ty.is_nan(v);
    let (mag, e) = (xb & !ty.sign_bit(), ((xb >> sig) & ((1 << eb) - 1)) as u32);
    let w = |op: &str| format!("{} {op}({xb:#x}, {yb:#x})", stringify!($f));
    b.eq(|| w("class"), (Float::is_nan(x), Float::is_infinite(x), Float::is_sign_negative(x), Float::is_sign_positive(x), Float::is_subnormal(x)),
        (nan(xb), mag == ty.exp_mask(), xb != mag, xb == mag, e == 0 && mag != 0));
    b.eq(|| w("parts"), (Float::ex(x), Float::exp_unbiased(x), Float::frac(x) as u128), (e, e as i32 - bias(ty) as i32, mag & ((1 << sig) - 1)));
    b.eq(|| w("bits"), (Float::to_bits(x) as u128, Float::to_bits_signed(x) as u128 & ty.mask(), <$f as Float>::from_bits(xb as $u).to_bits() as u128), (xb, xb, xb));
    b.eq(|| w("from_parts"), <$f as Float>::from_parts(xb != mag, e, (mag & ((1 << sig) - 1)) as $u).to_bits() as u128, xb);
    b.eq(|| w("from_parts masked"), <$f as Float>::from_parts(xb != mag, e | 1 << eb, yb as $u).to_bits() as u128, (xb & ty.sign_bit()) | ((e as u128) << sig) | (yb & ((1 << sig) - 1)));
    b.eq(|| w("biteq"), (x.biteq(y), x.eq_repr(y), x.biteq(x), x.eq_repr(x)), (xb == yb, xb == yb || nan(xb) && nan(yb), true, true));
    b.eq(|| w("abs"), Float::abs(x).to_bits() as u128 & if nan(xb) { ty.sign_bit() } else { !0 }, if nan(xb) { 0 } else { mag });
    b.eq(|| w("copysign"), Float::copysign(x, y).to_bits() as u128 & if nan(xb) { ty.sign_bit() } else { !0 }, (if nan(xb) { 0 } else { mag }) | (yb & ty.sign_bit()));
    let sg = Float::signum(x).to_bits() as u128;
    b.eq(|| w("signum"), if nan(sg) { 1 } else { sg }, if nan(xb) { 1 } else { ((bias(ty) as u128) << sig) | (xb & ty.sign_bit()) });
    let f = mag & ((1 << sig) - 1);
    if f != 0 {
        let (ne, ns) = <$f as Float>::normalize(f as $u);
        let k = f.leading_zeros() - (127 - sig);
        b.eq(|| w("normalize"), (ne, ns as u128), (1 - k as i32, f << k));
    }
    let one = (bias(ty) as u128) << sig;
    let bits = |v: $f| v.to_bits() as u128;
    let big = ty.exp_mask() - 1;
    let s = ty.sign_bit();
    b.eq(|| w("values"), [bits(<$f as Float>::ZERO), bits(<$f as Float>::NEG_ZERO), bits(<$f as Float>::ONE), bits(<$f as Float>::NEG_ONE), bits(<$f as Float>::INFINITY), bits(<$f as Float>::NEG_INFINITY), bits(<$f as Float>::MAX), bits(<$f as Float>::MIN), bits(<$f as Float>::EPSILON), bits(<$f as Float>::MIN_POSITIVE_NORMAL), bits(<$f as Float>::PI), bits(<$f as Float>::NEG_PI), bits(<$f as Float>::FRAC_PI_2)],
        [0, s, one, one | s, ty.exp_mask(), ty.exp_mask() | s, big, big | s, one - ((sig as u128) << sig), 1 << sig, bits(std::$f::consts::PI), bits(std::$f::consts::PI) | s, bits(std::$f::consts::FRAC_PI_2)]);
    b.eq(|| w("nan"), (nan(bits(<$f as Float>::NAN)), nan(bits(<$f as Float>::NEG_NAN)), bits(<$f as Float>::NEG_NAN) & s), (true, true, s));
    b.eq(|| w("constants"), [<$f as Float>::BITS as i64, <$f as Float>::SIG_BITS as i64, <$f as Float>::EXP_BITS as i64, <$f as Float>::EXP_SAT as i64, <$f as Float>::EXP_BIAS as i64, <$f as Float>::EXP_MAX as i64, <$f as Float>::EXP_MIN as i64, <$f as Float>::EXP_MIN_SUBNORM as i64],
        [ty.bits() as i64, sig as i64, eb as i64, (1 << eb) - 1, bias(ty), bias(ty), 1 - bias(ty), 1 - bias(ty) - sig as i64]);
    b.eq(|| w("masks"), [<$f as Float>::SIGN_MASK as u128, <$f as Float>::SIG_MASK as u128, <$f as Float>::EXP_MASK as u128, <$f as Float>::IMPLICIT_BIT as u128], [s, (1 << sig) - 1, ty.exp_mask(), 1 << sig]);
    (x, xb)
}}; }

pub fn check(m: &'static Mon) {
    m.rule("Each case is one tuple of operands (128-bit words with structured limbs so that carries cross limb boundaries; shift counts over the whole range; float bit patterns of every class) on which all operations of u256, i256, the integer traits, the widening and narrowing traits and the Float trait run; results are compared with big-integer or primitive arithmetic. Release and checked builds.");
    let b = B { m };
    let n: usize = if m.thorough { 400_000 } else { 8_000 };
    par(n, |c| {
        let b = B { m };
        let mut r = Rng::new(m.seed ^ 0xc20, c as u64);
        for _ in 0..64 {
            let a = u256 { lo: word(&mut r), hi: word(&mut r) };
            let mut d = u256 { lo: word(&mut r), hi: word(&mut r) };
            match r.below(8) { 0 => d = a, 1 => d.hi = a.hi, 2 => d.lo = a.lo, _ => {} }
            let sh = match r.below(4) { 0 => *r.pick(&[0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255]), _ => r.below(256) as u32 };
            wide(&b, a, d, sh);
            m.seen(1, a.lo, a.hi, d.lo ^ sh as u128);
            prim!(&b, &mut r, u8 i8, u16 i16, u32 i32, u64 i64, u128 i128, usize isize);
            dint!(&b, &mut r, u8 u8 u16, u16 u16 u32, u32 u32 u64, u64 u64 u128, i8 u8 i16, i16 u16 i32, i32 u32 i64, i64 u64 i128);
            m.evals(17 + 12 * 12 + 12 * 24 * 2 + 8 * 3);
        }
        for ty in [Ty::F16, Ty::F32, Ty::F64, Ty::F128] {
            let mut g = Gen::new(Rng::new(m.seed ^ 0xc2000 ^ ty.bits() as u64, c as u64), ty, Default::default());
            for _ in 0..64 {
                match ty {
                    Ty::F16 => { let (x, xb) = flt!(&b, g, ty, f16, u16); let w = HFloat::widen(x); b.eq(|| format!("widen f16({xb:#x})"), (w.is_nan(), if w.is_nan() { 0 } else { w.to_bits() }), (x.is_nan(), if x.is_nan() { 0 } else { (x as f32).to_bits() })); }
                    Ty::F32 => { let (x, xb) = flt!(&b, g, ty, f32, u32);
                        let (w, v) = (HFloat::widen(x), DFloat::narrow(x));
                        b.eq(|| format!("widen f32({xb:#x})"), (w.is_nan(), if w.is_nan() { 0 } else { w.to_bits() }), (x.is_nan(), if x.is_nan() { 0 } else { (x as f64).to_bits() }));
                        b.eq(|| format!("narrow f32({xb:#x})"), (v.is_nan(), if v.is_nan() { 0 } else { v.to_bits() }), (x.is_nan(), if x.is_nan() { 0 } else { (x as f16).to_bits() })); }
                    Ty::F64 => { let (x, xb) = flt!(&b, g, ty, f64, u64);
                        let (w, v) = (HFloat::widen(x), DFloat::narrow(x));
                        b.eq(|| format!("widen f64({xb:#x})"), (w.is_nan(), if w.is_nan() { 0 } else { w.to_bits() }), (x.is_nan(), if x.is_nan() { 0 } else { (x as f128).to_bits() }));
                        b.eq(|| format!("narrow f64({xb:#x})"), (v.is_nan(), if v.is_nan() { 0 } else { v.to_bits() }), (x.is_nan(), if x.is_nan() { 0 } else { (x as f32).to_bits() })); }
                    _ => { let (x, xb) = flt!(&b, g, ty, f128, u128); let v = DFloat::narrow(x); b.eq(|| format!("narrow f128({xb:#x})"), (v.is_nan(), if v.is_nan() { 0 } else { v.to_bits() }), (x.is_nan(), if x.is_nan() { 0 } else { (x as f64).to_bits() })); }
                }
                m.evals(14);
            }
            if c == 0 { m.sample(format!("{NAME} {} {:#x}", ty.bits(), g.bits())); }
        }
    });
    // every shift count and every limb boundary with a walking bit
    for sh in 0..256u32 { for bit in 0..256u32 {
        let a = if bit < 128 { u256 { lo: 1 << bit, hi: 0 } } else { u256 { lo: 0, hi: 1 << (bit - 128) } };
        let want = small(&(big(a) >> sh));
        b.eq(|| format!("u256 shr(1 << {bit}, {sh})"), ((a >> sh).lo, (a >> sh).hi), want);
    } }
    m.evals(65536); if NAME == "default" { m.enumerated(65536); }
    if !CHECKED { b.eq(|| "u256 shr(MAX, 256)".into(), ((u256::MAX >> 256).lo, (u256::MAX >> 300).hi), (0, 0)); }
    b.eq(|| "u256 constants".into(), [(u256::MAX.lo, u256::MAX.hi), (<u256 as MinInt>::MAX.lo, <u256 as MinInt>::MAX.hi), (u256::MIN.lo, u256::MIN.hi), (u256::ONE.lo, u256::ONE.hi), (u256::ZERO.lo, u256::ZERO.hi)], [(!0, !0), (!0, !0), (0, 0), (1, 0), (0, 0)]);
    b.eq(|| "i256 constants".into(), [(i256::MAX.lo, i256::MAX.hi), (i256::MIN.lo, i256::MIN.hi), (i256::ONE.lo, i256::ONE.hi), (i256::ZERO.lo, i256::ZERO.hi)], [(!0, !0 >> 1), (0, 1 << 127), (1, 0), (0, 0)]);
    b.eq(|| "256 bits".into(), (u256::BITS, i256::BITS, u256::SIGNED, i256::SIGNED), (256, 256, false, true));
}
