/// Functions compared bit for bit on i586: those that work on integers, compare, or do single
/// operations on memory operands. The x87 unit keeps intermediate results to 64 bits and Rust does
/// not correct that (rust-lang/rust#114479), so the others legitimately differ in the last bits.
fn on_i586(n: &str) -> bool {
    if n.ends_with("f16") || n.ends_with("f128") { return true; }
    let wide = ["ceil", "floor", "trunc", "fabs", "copysign", "fmax", "fmin", "fmaximum", "fmaximum_num", "fminimum", "fminimum_num",
        "fmod", "remainder", "remquo", "frexp", "modf", "ilogb", "nextafter", "scalbn", "ldexp", "sqrt"];
    let narrow = ["rintf", "roundf", "roundevenf"];
    narrow.contains(&n) || wide.contains(&n) || n.strip_suffix('f').is_some_and(|b| wide.contains(&b))
}
