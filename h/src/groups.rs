//! Which functions each property of the table of functions is about.
pub fn covers(prop: &str, name: &str) -> bool {
    let n = name.split(':').next().unwrap();
    let b = n.strip_suffix("f16").or(n.strip_suffix("f128")).unwrap_or(n);
    let is = |l: &str| l.split(' ').any(|x| x == b || b.strip_suffix('f') == Some(x));
    match prop {
        "C01" => is("sqrt cbrt fma"),
        "C19" => is("sqrt ceil floor trunc rint"),
        "C02" => is("ceil floor trunc rint round roundeven"),
        "C03" => is("fmod remainder remquo"),
        "C04" => is("frexp ilogb modf scalbn ldexp nextafter"),
        "C05" => is("fmin fmax fminimum fmaximum fminimum_num fmaximum_num fdim copysign fabs"),
        "C06" => is("sin cos tan sincos"),
        "C07" => is("acos asin atan atan2"),
        "C08" => is("exp exp2 exp10 expm1 log log2 log10 log1p"),
        "C09" => is("sinh cosh tanh asinh acosh atanh"),
        "C10" => is("pow hypot"),
        "C11" => is("erf erfc tgamma lgamma lgamma_r") || n == "lgammaf_r",
        "C12" => is("j0 j1 jn y0 y1 yn"),
        _ => true,
    }
}
