// Function table of one build of the crate under test. Included once per build
// configuration, inside a module that has `use <that build> as L;`.
use crate::lib_table::*;

macro_rules! t1 { ($($n:ident),* $(,)?) => { &[$((stringify!($n), L::$n as _)),*] }; }

pub static LIB: Lib = Lib {
    name: NAME,
    u32: t1!(
        acosf, acoshf, asinf, asinhf, atanf, atanhf, cbrtf, cosf, coshf, erff, erfcf, expf, exp10f,
        exp2f, expm1f, j0f, j1f, lgammaf, logf, log10f, log1pf, log2f, sinf, sinhf, tanf, tanhf,
        tgammaf, y0f, y1f, ceilf, fabsf, floorf, rintf, roundf, roundevenf, sqrtf, truncf
    ),
    x32: &[
        ("sincosf:sin", |x| L::sincosf(x).0), ("sincosf:cos", |x| L::sincosf(x).1),
        ("lgammaf_r:lgamma", |x| L::lgammaf_r(x).0),
    ],
    x64: &[
        ("sincos:sin", |x| L::sincos(x).0), ("sincos:cos", |x| L::sincos(x).1),
        ("lgamma_r:lgamma", |x| L::lgamma_r(x).0),
    ],
    u64: t1!(
        acos, acosh, asin, asinh, atan, atanh, cbrt, cos, cosh, erf, erfc, exp, exp10, exp2, expm1,
        j0, j1, lgamma, log, log10, log1p, log2, sin, sinh, tan, tanh, tgamma, y0, y1, ceil, fabs,
        floor, rint, round, roundeven, sqrt, trunc
    ),
    u16: t1!(ceilf16, fabsf16, floorf16, rintf16, roundf16, roundevenf16, sqrtf16, truncf16),
    u128: t1!(ceilf128, fabsf128, floorf128, rintf128, roundf128, roundevenf128, sqrtf128, truncf128),
    b32: t1!(
        atan2f, copysignf, fdimf, fmaxf, fminf, fmaximumf, fmaximum_numf, fminimumf, fminimum_numf,
        fmodf, hypotf, nextafterf, powf, remainderf
    ),
    b64: t1!(
        atan2, copysign, fdim, fmax, fmin, fmaximum, fmaximum_num, fminimum, fminimum_num, fmod,
        hypot, nextafter, pow, remainder
    ),
    b16: t1!(
        copysignf16, fdimf16, fmaxf16, fminf16, fmaximumf16, fmaximum_numf16, fminimumf16,
        fminimum_numf16, fmodf16
    ),
    b128: t1!(
        copysignf128, fdimf128, fmaxf128, fminf128, fmaximumf128, fmaximum_numf128, fminimumf128,
        fminimum_numf128, fmodf128
    ),
    t32: t1!(fmaf),
    t64: t1!(fma),
    t128: t1!(fmaf128),
    fi32: t1!(ldexpf, scalbnf),
    fi64: t1!(ldexp, scalbn),
    fi16: t1!(ldexpf16, scalbnf16),
    fi128: t1!(ldexpf128, scalbnf128),
    if32: t1!(jnf, ynf),
    if64: t1!(jn, yn),
    pp32: t1!(modff, sincosf),
    pp64: t1!(modf, sincos),
    pi32: t1!(frexpf, lgammaf_r),
    pi64: t1!(frexp, lgamma_r),
    i32: t1!(ilogbf),
    i64: t1!(ilogb),
    q32: t1!(remquof),
    q64: t1!(remquo),
};
