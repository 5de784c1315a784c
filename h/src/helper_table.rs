// Libm<T> methods and the function that each of them stands for.
// (type, method, function, the method)
use crate::lib_table::Call;
use libm::Libm;
pub static METHODS: &[(&str, &str, &str, Call)] = &[
    ("f32", "acos", "acosf", Call::U32(Libm::<f32>::acos)),
    ("f32", "acosh", "acoshf", Call::U32(Libm::<f32>::acosh)),
    ("f32", "asin", "asinf", Call::U32(Libm::<f32>::asin)),
    ("f32", "asinh", "asinhf", Call::U32(Libm::<f32>::asinh)),
    ("f32", "atan", "atanf", Call::U32(Libm::<f32>::atan)),
    ("f32", "atan2", "atan2f", Call::B32(Libm::<f32>::atan2)),
    ("f32", "atanh", "atanhf", Call::U32(Libm::<f32>::atanh)),
    ("f32", "cbrt", "cbrtf", Call::U32(Libm::<f32>::cbrt)),
    ("f32", "ceil", "ceilf", Call::U32(Libm::<f32>::ceil)),
    ("f32", "copysign", "copysignf", Call::B32(Libm::<f32>::copysign)),
    ("f32", "cos", "cosf", Call::U32(Libm::<f32>::cos)),
    ("f32", "cosh", "coshf", Call::U32(Libm::<f32>::cosh)),
    ("f32", "erf", "erff", Call::U32(Libm::<f32>::erf)),
    ("f32", "erfc", "erfcf", Call::U32(Libm::<f32>::erfc)),
    ("f32", "exp", "expf", Call::U32(Libm::<f32>::exp)),
    ("f32", "exp10", "exp10f", Call::U32(Libm::<f32>::exp10)),
    ("f32", "exp2", "exp2f", Call::U32(Libm::<f32>::exp2)),
    ("f32", "expm1", "expm1f", Call::U32(Libm::<f32>::expm1)),
    ("f32", "fabs", "fabsf", Call::U32(Libm::<f32>::fabs)),
    ("f32", "fdim", "fdimf", Call::B32(Libm::<f32>::fdim)),
    ("f32", "floor", "floorf", Call::U32(Libm::<f32>::floor)),
    ("f32", "fma", "fmaf", Call::T32(Libm::<f32>::fma)),
    ("f32", "fmax", "fmaxf", Call::B32(Libm::<f32>::fmax)),
    ("f32", "fmin", "fminf", Call::B32(Libm::<f32>::fmin)),
    ("f32", "fmod", "fmodf", Call::B32(Libm::<f32>::fmod)),
    ("f32", "frexp", "frexpf", Call::PI32(Libm::<f32>::frexp)),
    ("f32", "hypot", "hypotf", Call::B32(Libm::<f32>::hypot)),
    ("f32", "ilogb", "ilogbf", Call::I32(Libm::<f32>::ilogb)),
    ("f32", "j0", "j0f", Call::U32(Libm::<f32>::j0)),
    ("f32", "j1", "j1f", Call::U32(Libm::<f32>::j1)),
    ("f32", "jn", "jnf", Call::IF32(Libm::<f32>::jn)),
    ("f32", "ldexp", "ldexpf", Call::FI32(Libm::<f32>::ldexp)),
    ("f32", "lgamma", "lgammaf", Call::U32(Libm::<f32>::lgamma)),
    ("f32", "lgamma_r", "lgammaf_r", Call::PI32(Libm::<f32>::lgamma_r)),
    ("f32", "log", "logf", Call::U32(Libm::<f32>::log)),
    ("f32", "log10", "log10f", Call::U32(Libm::<f32>::log10)),
    ("f32", "log1p", "log1pf", Call::U32(Libm::<f32>::log1p)),
    ("f32", "log2", "log2f", Call::U32(Libm::<f32>::log2)),
    ("f32", "modf", "modff", Call::PP32(Libm::<f32>::modf)),
    ("f32", "nextafter", "nextafterf", Call::B32(Libm::<f32>::nextafter)),
    ("f32", "pow", "powf", Call::B32(Libm::<f32>::pow)),
    ("f32", "remainder", "remainderf", Call::B32(Libm::<f32>::remainder)),
    ("f32", "remquo", "remquof", Call::Q32(Libm::<f32>::remquo)),
    ("f32", "rint", "rintf", Call::U32(Libm::<f32>::rint)),
    ("f32", "round", "roundf", Call::U32(Libm::<f32>::round)),
    ("f32", "roundeven", "roundevenf", Call::U32(Libm::<f32>::roundeven)),
    ("f32", "scalbn", "scalbnf", Call::FI32(Libm::<f32>::scalbn)),
    ("f32", "sin", "sinf", Call::U32(Libm::<f32>::sin)),
    ("f32", "sincos", "sincosf", Call::PP32(Libm::<f32>::sincos)),
    ("f32", "sinh", "sinhf", Call::U32(Libm::<f32>::sinh)),
    ("f32", "sqrt", "sqrtf", Call::U32(Libm::<f32>::sqrt)),
    ("f32", "tan", "tanf", Call::U32(Libm::<f32>::tan)),
    ("f32", "tanh", "tanhf", Call::U32(Libm::<f32>::tanh)),
    ("f32", "tgamma", "tgammaf", Call::U32(Libm::<f32>::tgamma)),
    ("f32", "trunc", "truncf", Call::U32(Libm::<f32>::trunc)),
    ("f32", "y0", "y0f", Call::U32(Libm::<f32>::y0)),
    ("f32", "y1", "y1f", Call::U32(Libm::<f32>::y1)),
    ("f32", "yn", "ynf", Call::IF32(Libm::<f32>::yn)),
    ("f64", "acos", "acos", Call::U64(Libm::<f64>::acos)),
    ("f64", "acosh", "acosh", Call::U64(Libm::<f64>::acosh)),
    ("f64", "asin", "asin", Call::U64(Libm::<f64>::asin)),
    ("f64", "asinh", "asinh", Call::U64(Libm::<f64>::asinh)),
    ("f64", "atan", "atan", Call::U64(Libm::<f64>::atan)),
    ("f64", "atan2", "atan2", Call::B64(Libm::<f64>::atan2)),
    ("f64", "atanh", "atanh", Call::U64(Libm::<f64>::atanh)),
    ("f64", "cbrt", "cbrt", Call::U64(Libm::<f64>::cbrt)),
    ("f64", "ceil", "ceil", Call::U64(Libm::<f64>::ceil)),
    ("f64", "copysign", "copysign", Call::B64(Libm::<f64>::copysign)),
    ("f64", "cos", "cos", Call::U64(Libm::<f64>::cos)),
    ("f64", "cosh", "cosh", Call::U64(Libm::<f64>::cosh)),
    ("f64", "erf", "erf", Call::U64(Libm::<f64>::erf)),
    ("f64", "erfc", "erfc", Call::U64(Libm::<f64>::erfc)),
    ("f64", "exp", "exp", Call::U64(Libm::<f64>::exp)),
    ("f64", "exp10", "exp10", Call::U64(Libm::<f64>::exp10)),
    ("f64", "exp2", "exp2", Call::U64(Libm::<f64>::exp2)),
    ("f64", "expm1", "expm1", Call::U64(Libm::<f64>::expm1)),
    ("f64", "fabs", "fabs", Call::U64(Libm::<f64>::fabs)),
    ("f64", "fdim", "fdim", Call::B64(Libm::<f64>::fdim)),
    ("f64", "floor", "floor", Call::U64(Libm::<f64>::floor)),
    ("f64", "fma", "fma", Call::T64(Libm::<f64>::fma)),
    ("f64", "fmax", "fmax", Call::B64(Libm::<f64>::fmax)),
    ("f64", "fmaximum", "fmaximum", Call::B64(Libm::<f64>::fmaximum)),
    ("f64", "fmaximum_num", "fmaximum_num", Call::B64(Libm::<f64>::fmaximum_num)),
    ("f64", "fmaximum_numf", "fmaximum_numf", Call::B32(Libm::<f64>::fmaximum_numf)),
    ("f64", "fmaximumf", "fmaximumf", Call::B32(Libm::<f64>::fmaximumf)),
    ("f64", "fmin", "fmin", Call::B64(Libm::<f64>::fmin)),
    ("f64", "fminimum", "fminimum", Call::B64(Libm::<f64>::fminimum)),
    ("f64", "fminimum_num", "fminimum_num", Call::B64(Libm::<f64>::fminimum_num)),
    ("f64", "fminimum_numf", "fminimum_numf", Call::B32(Libm::<f64>::fminimum_numf)),
    ("f64", "fminimumf", "fminimumf", Call::B32(Libm::<f64>::fminimumf)),
    ("f64", "fmod", "fmod", Call::B64(Libm::<f64>::fmod)),
    ("f64", "frexp", "frexp", Call::PI64(Libm::<f64>::frexp)),
    ("f64", "hypot", "hypot", Call::B64(Libm::<f64>::hypot)),
    ("f64", "ilogb", "ilogb", Call::I64(Libm::<f64>::ilogb)),
    ("f64", "j0", "j0", Call::U64(Libm::<f64>::j0)),
    ("f64", "j1", "j1", Call::U64(Libm::<f64>::j1)),
    ("f64", "jn", "jn", Call::IF64(Libm::<f64>::jn)),
    ("f64", "ldexp", "ldexp", Call::FI64(Libm::<f64>::ldexp)),
    ("f64", "lgamma", "lgamma", Call::U64(Libm::<f64>::lgamma)),
    ("f64", "lgamma_r", "lgamma_r", Call::PI64(Libm::<f64>::lgamma_r)),
    ("f64", "log", "log", Call::U64(Libm::<f64>::log)),
    ("f64", "log10", "log10", Call::U64(Libm::<f64>::log10)),
    ("f64", "log1p", "log1p", Call::U64(Libm::<f64>::log1p)),
    ("f64", "log2", "log2", Call::U64(Libm::<f64>::log2)),
    ("f64", "modf", "modf", Call::PP64(Libm::<f64>::modf)),
    ("f64", "nextafter", "nextafter", Call::B64(Libm::<f64>::nextafter)),
    ("f64", "pow", "pow", Call::B64(Libm::<f64>::pow)),
    ("f64", "remainder", "remainder", Call::B64(Libm::<f64>::remainder)),
    ("f64", "remquo", "remquo", Call::Q64(Libm::<f64>::remquo)),
    ("f64", "rint", "rint", Call::U64(Libm::<f64>::rint)),
    ("f64", "round", "round", Call::U64(Libm::<f64>::round)),
    ("f64", "roundevem", "roundeven", Call::U64(Libm::<f64>::roundevem)),
    ("f64", "scalbn", "scalbn", Call::FI64(Libm::<f64>::scalbn)),
    ("f64", "sin", "sin", Call::U64(Libm::<f64>::sin)),
    ("f64", "sincos", "sincos", Call::PP64(Libm::<f64>::sincos)),
    ("f64", "sinh", "sinh", Call::U64(Libm::<f64>::sinh)),
    ("f64", "sqrt", "sqrt", Call::U64(Libm::<f64>::sqrt)),
    ("f64", "tan", "tan", Call::U64(Libm::<f64>::tan)),
    ("f64", "tanh", "tanh", Call::U64(Libm::<f64>::tanh)),
    ("f64", "tgamma", "tgamma", Call::U64(Libm::<f64>::tgamma)),
    ("f64", "trunc", "trunc", Call::U64(Libm::<f64>::trunc)),
    ("f64", "y0", "y0", Call::U64(Libm::<f64>::y0)),
    ("f64", "y1", "y1", Call::U64(Libm::<f64>::y1)),
    ("f64", "yn", "yn", Call::IF64(Libm::<f64>::yn)),
    ("f16", "ceil", "ceilf16", Call::U16(Libm::<f16>::ceil)),
    ("f16", "copysign", "copysignf16", Call::B16(Libm::<f16>::copysign)),
    ("f16", "fabs", "fabsf16", Call::U16(Libm::<f16>::fabs)),
    ("f16", "fdim", "fdimf16", Call::B16(Libm::<f16>::fdim)),
    ("f16", "floor", "floorf16", Call::U16(Libm::<f16>::floor)),
    ("f16", "fmax", "fmaxf16", Call::B16(Libm::<f16>::fmax)),
    ("f16", "fmaximum_num", "fmaximum_numf16", Call::B16(Libm::<f16>::fmaximum_num)),
    ("f16", "fmaximumf16", "fmaximumf16", Call::B16(Libm::<f16>::fmaximumf16)),
    ("f16", "fmin", "fminf16", Call::B16(Libm::<f16>::fmin)),
    ("f16", "fminimum", "fminimumf16", Call::B16(Libm::<f16>::fminimum)),
    ("f16", "fminimum_num", "fminimum_numf16", Call::B16(Libm::<f16>::fminimum_num)),
    ("f16", "fmod", "fmodf16", Call::B16(Libm::<f16>::fmod)),
    ("f16", "ldexp", "ldexpf16", Call::FI16(Libm::<f16>::ldexp)),
    ("f16", "rint", "rintf16", Call::U16(Libm::<f16>::rint)),
    ("f16", "round", "roundf16", Call::U16(Libm::<f16>::round)),
    ("f16", "roundeven", "roundevenf16", Call::U16(Libm::<f16>::roundeven)),
    ("f16", "scalbn", "scalbnf16", Call::FI16(Libm::<f16>::scalbn)),
    ("f16", "sqrtf", "sqrtf16", Call::U16(Libm::<f16>::sqrtf)),
    ("f16", "truncf", "truncf16", Call::U16(Libm::<f16>::truncf)),
    ("f128", "ceil", "ceilf128", Call::U128(Libm::<f128>::ceil)),
    ("f128", "copysign", "copysignf128", Call::B128(Libm::<f128>::copysign)),
    ("f128", "fabs", "fabsf128", Call::U128(Libm::<f128>::fabs)),
    ("f128", "fdim", "fdimf128", Call::B128(Libm::<f128>::fdim)),
    ("f128", "floor", "floorf128", Call::U128(Libm::<f128>::floor)),
    ("f128", "fma", "fmaf128", Call::T128(Libm::<f128>::fma)),
    ("f128", "fmax", "fmaxf128", Call::B128(Libm::<f128>::fmax)),
    ("f128", "fmaximum", "fmaximumf128", Call::B128(Libm::<f128>::fmaximum)),
    ("f128", "fmaximum_num", "fmaximum_numf128", Call::B128(Libm::<f128>::fmaximum_num)),
    ("f128", "fmin", "fminf128", Call::B128(Libm::<f128>::fmin)),
    ("f128", "fminimum", "fminimumf128", Call::B128(Libm::<f128>::fminimum)),
    ("f128", "fminimum_num", "fminimum_numf128", Call::B128(Libm::<f128>::fminimum_num)),
    ("f128", "fmod", "fmodf128", Call::B128(Libm::<f128>::fmod)),
    ("f128", "ldexp", "ldexpf128", Call::FI128(Libm::<f128>::ldexp)),
    ("f128", "rint", "rintf128", Call::U128(Libm::<f128>::rint)),
    ("f128", "round", "roundf128", Call::U128(Libm::<f128>::round)),
    ("f128", "roundeven", "roundevenf128", Call::U128(Libm::<f128>::roundeven)),
    ("f128", "scalbn", "scalbnf128", Call::FI128(Libm::<f128>::scalbn)),
    ("f128", "sqrt", "sqrtf128", Call::U128(Libm::<f128>::sqrt)),
    ("f128", "trunc", "truncf128", Call::U128(Libm::<f128>::trunc)),
];
