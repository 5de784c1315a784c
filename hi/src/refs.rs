//! Reference results, computed on bit patterns and big integers only.
use crate::lib_table::Ty;

pub fn bias(ty: Ty) -> i64 { (1i64 << (ty.bits() - 2 - ty.sig())) - 1 }
/// (floor, ceil, trunc, rint) of `x`, and whether x has a fraction.
pub fn integral(ty: Ty, x: u128) -> ([u128; 4], bool) {
    let (s, sig) = (x & ty.sign_bit(), ty.sig());
    let mag = x & !ty.sign_bit();
    let e = (mag >> sig) as i64 - bias(ty);
    let one = (bias(ty) as u128) << sig;
    if ty.is_nan(x) { return ([x; 4], false); }
    if e >= sig as i64 || mag == 0 { return ([x; 4], false); }
    let (down, up, frac, near) = if e < 0 {
        let half = one - (1 << sig);
        (0, one, true, if mag > half { one } else { 0 })
    } else {
        let k = sig as i64 - e;
        let low = mag & ((1u128 << k) - 1);
        let dn = mag - low;
        let half = 1u128 << (k - 1);
        let odd = if e == 0 { true } else { (dn >> k) & 1 == 1 };
        // below 2, the unit bit is the implicit one
        let up = dn + (1u128 << k);
        (dn, up, low != 0, if low > half || (low == half && odd) { up } else { dn })
    };
    if !frac { return ([x; 4], false); }
    let (fl, ce) = if s != 0 { (up, down) } else { (down, up) };
    ([fl | s, ce | s, down | s, near | s], true)
}
