#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "libm/src/math/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, claimed=True, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, claimed=claimed, hook=hook))

EX = "online monitor: every call of the real code is compared with the exact result (host libm as a fast filter, integer arithmetic on the bits decides)"
AC = "online monitor: every call of the real code is compared with a wider-format host libm (filter) and correctly rounded MPFR (decides); maximum ulp error recorded"
NOTE = "held on the executions counted in the evidence; f32/f16 single-argument domains are covered by strata in quick and completely in thorough, wider and multi-argument domains by generated samples"

prop("C01", "fma, sqrt and cbrt return the correctly rounded result",
 "Fused multiply-add (f32, f64, f128), square root (f16, f32, f64, f128) and cube root (f32, f64) return the value nearest to the exact result, ties to even, for every argument: including subnormal operands and results, cancellation, overflow, zeros, infinities and NaN (as IEEE 754 prescribes). NaN payloads and signs are not specified.",
 ["inputs"], "all argument bit patterns of each function and type; on the software path and on the architecture path",
 "tests run a few thousand pseudo-random and edge inputs per function; double-rounding and sticky-bit cases have probability near 2^-29 or less under such sampling",
 [M+f for f in ["fma.rs","fma_wide.rs","generic/sqrt.rs","cbrt.rs","cbrtf.rs","arch/"]],
 [("software fma with sticky bit", M+"fma.rs"), ("fma through the wider type with halfway fix", M+"fma_wide.rs"), ("integer Newton square root with final adjustment", M+"generic/sqrt.rs"), ("double-double cbrt with rounding test", M+"cbrt.rs")],
 ["return value of each call"], EX, NOTE)
prop("C02", "Rounding to integral values is exact in every direction",
 "ceil, floor, trunc, round (ties away from zero), rint and roundeven (ties to even) return exactly the integral value their rule selects, in every float width (f16, f32, f64, f128). The sign of the argument is kept for zero results, infinities and integral arguments are returned unchanged, and NaN gives NaN.",
 ["inputs"], "all argument bit patterns of each function and type, with and without architecture-specific and intrinsic implementations",
 "tests sample a few thousand values per width; boundaries at every exponent and half-way patterns in 64 and 128 bits are not covered",
 [M+f for f in ["generic/ceil.rs","generic/floor.rs","generic/trunc.rs","generic/round.rs","generic/rint.rs","roundeven.rs","rint.rs","arch/"]],
 [("mask computed from the exponent", M+"generic/ceil.rs"), ("add and subtract 1/eps", M+"generic/rint.rs"), ("trunc of x plus just under half", M+"generic/round.rs")],
 ["return value of each call"], EX, NOTE)
prop("C03", "fmod, remainder and remquo are exact",
 "fmod returns x - n*y with n the quotient truncated, remainder and remquo with n the quotient rounded to nearest even, all without rounding error, a zero result having the sign of x; x infinite or y zero gives NaN and an infinite y returns x. remquo also returns the sign and low 31 bits of n. This holds for every pair of arguments, including exponents as far apart as the format allows and subnormals.",
 ["inputs"], "all pairs of arguments in f16 (fmod), f32, f64 and f128 (fmod)",
 "tests run a few thousand pairs, nearly all with unrelated exponents; exact multiples, half-way quotients, subnormal divisors and maximal exponent gaps are rare",
 [M+f for f in ["generic/fmod.rs","remquo.rs","remquof.rs","remainder.rs","remainderf.rs"]],
 [("shift-and-subtract loop on mantissas", M+"generic/fmod.rs"), ("quotient bits and final rounding step", M+"remquo.rs")],
 ["return value of each call"], EX, NOTE)
prop("C04", "Exponent and mantissa manipulation is exact",
 "scalbn and ldexp return x*2^n rounded once to nearest even (overflow to infinity, gradual underflow) for every n in the i32 range; frexp splits a finite x exactly into a fraction in [1/2,1) and an exponent; modf splits x exactly into fractional and integral parts that both carry the sign of x; ilogb returns the exact binary exponent (i32::MIN for zero and NaN, i32::MAX for infinities). nextafter returns the adjacent representable value toward y, y itself if equal, NaN if either argument is NaN.",
 ["inputs"], "all bit patterns and all integer exponents, in every float width the functions exist for",
 "tests sample few exponents; double rounding into subnormals, extreme n and boundaries between binades are not exhausted",
 [M+f for f in ["generic/scalbn.rs","ldexp.rs","frexp.rs","frexpf.rs","modf.rs","modff.rs","ilogb.rs","ilogbf.rs","nextafter.rs","nextafterf.rs"]],
 [("stepwise scaling that avoids double rounding", M+"generic/scalbn.rs"), ("bit surgery on the exponent", M+"frexp.rs")],
 ["return values of each call"], EX, NOTE)
prop("C05", "Minimum, maximum, fdim, copysign and fabs follow IEEE 754",
 "The minimum and maximum functions select an operand as IEEE 754 and C23 define: fmin/fmax and the minimumNumber/maximumNumber family ignore one quiet NaN, minimum/maximum propagate NaN, and the two newer families order -0 below +0 (fmin/fmax may return either zero). fdim is x-y correctly rounded if x>y, else +0, and NaN if an argument is NaN; copysign and fabs change only the sign bit. All hold in f16, f32, f64 and f128.",
 ["inputs"], "all pairs of argument bit patterns (quiet NaNs included; the treatment of signaling NaNs is not specified), in all four widths",
 "tests use a table of special values in one argument order plus random finite pairs; NaN combined with zeros of each sign is sampled sparsely",
 [M+f for f in ["generic/fmin.rs","generic/fmax.rs","generic/fminimum.rs","generic/fmaximum.rs","generic/fminimum_num.rs","generic/fmaximum_num.rs","generic/fdim.rs","generic/copysign.rs","generic/fabs.rs"]],
 [("comparison and NaN tests", M+"generic/fmaximum_num.rs"), ("bit masks", M+"generic/copysign.rs")],
 ["return value of each call"], EX, NOTE)
prop("C06", "Trigonometric functions are accurate for every argument",
 "sin, cos, tan and sincos (f32 and f64) return a result within 1 ulp of the correctly rounded value, with its sign, for every finite argument however large (exact argument reduction up to the largest finite value) or small. Infinite arguments and NaN give NaN.",
 ["inputs"], "all f32 and f64 arguments; both results of sincos",
 "tests sample a few thousand logarithmically spaced values; arguments near multiples of pi/2, where reduction loses digits, and the multi-limb reduction of huge values are hardly hit",
 [M+f for f in ["sin.rs","cos.rs","tan.rs","sincos.rs","sinf.rs","cosf.rs","tanf.rs","sincosf.rs","rem_pio2.rs","rem_pio2f.rs","rem_pio2_large.rs","k_sin.rs","k_cos.rs","k_tan.rs","k_sinf.rs","k_cosf.rs","k_tanf.rs"]],
 [("Cody-Waite reduction in three steps", M+"rem_pio2.rs"), ("Payne-Hanek reduction", M+"rem_pio2_large.rs"), ("polynomial kernels", M+"k_sin.rs")],
 ["return values of each call"], AC, NOTE)
prop("C07", "Inverse trigonometric functions are accurate",
 "asin, acos and atan (f32 and f64) are within 1 ulp and atan2 within 2 ulp of the correctly rounded value for every argument, with the right sign and quadrant, including atan2 of subnormal, huge, infinite and zero operands of either sign. asin and acos of |x|>1 and any NaN argument give NaN.",
 ["inputs"], "all f32 and f64 arguments and argument pairs",
 "tests sample few points per branch; branch boundaries and extreme ratios in atan2 are sampled sparsely",
 [M+f for f in ["asin.rs","acos.rs","atan.rs","atan2.rs","asinf.rs","acosf.rs","atanf.rs","atan2f.rs"]],
 [("argument intervals with table of high and low parts", M+"atan.rs"), ("quadrant selection", M+"atan2.rs")],
 ["return value of each call"], AC, NOTE)
prop("C08", "Exponentials and logarithms are accurate",
 "exp, exp2, expm1, log, log2, log10 and log1p (f32 and f64) are within 1 ulp and exp10 within 6 ulp of the correctly rounded value for every argument: overflow to infinity, underflow through subnormals to zero, and logarithms next to 1 included. Logarithms of zero are -infinity, of negative numbers NaN.",
 ["inputs"], "all f32 and f64 arguments",
 "tests sample a few thousand values; thresholds (overflow, underflow, table index, next to one) are single points in 2^32 or 2^64",
 [M+f for f in ["exp.rs","exp2.rs","exp10.rs","expm1.rs","log.rs","log2.rs","log10.rs","log1p.rs","expf.rs","exp2f.rs","exp10f.rs","expm1f.rs","logf.rs","log2f.rs","log10f.rs","log1pf.rs"]],
 [("argument reduction and polynomial", M+"exp.rs"), ("table driven exp2", M+"exp2.rs"), ("thresholds on the high word", M+"expm1.rs")],
 ["return value of each call"], AC, NOTE)
prop("C09", "Hyperbolic functions and their inverses are accurate",
 "sinh and tanh are within 2 ulp, cosh within 1, asinh within 2, acosh within 4 and atanh within 2 ulp of the correctly rounded value (f32 and f64) for every argument, including results close to overflow and tiny arguments. acosh of x<1 and atanh of |x|>1 give NaN, atanh of +-1 gives +-infinity.",
 ["inputs"], "all f32 and f64 arguments",
 "tests sample a few thousand values; branch thresholds and the overflow region are sampled sparsely",
 [M+f for f in ["sinh.rs","cosh.rs","tanh.rs","asinh.rs","acosh.rs","atanh.rs","sinhf.rs","coshf.rs","tanhf.rs","asinhf.rs","acoshf.rs","atanhf.rs","k_expo2.rs","expo2.rs"]],
 [("expm1-based formulas per interval", M+"sinh.rs"), ("scaled exp near overflow", M+"k_expo2.rs")],
 ["return value of each call"], AC, NOTE)
prop("C10", "pow and hypot are accurate over the whole plane",
 "pow and hypot (f32 and f64) are within 1 ulp of the correctly rounded value for every pair of finite arguments; hypot never overflows or underflows prematurely. pow has the right sign for negative bases (odd integer exponents only), gives NaN for a negative finite base with a non-integral exponent, and overflows, underflows and is exact at the special pairs as C Annex F prescribes.",
 ["inputs"], "all pairs of f32 and of f64 arguments",
 "tests sample a grid of a few thousand pairs; bases next to 1 with huge exponents, overflow and underflow curves and integer tests of large exponents are missed",
 [M+f for f in ["pow.rs","powf.rs","hypot.rs","hypotf.rs"]],
 [("double-double logarithm and exponential", M+"pow.rs"), ("scaling and double-double squares", M+"hypot.rs")],
 ["return value of each call"], AC, NOTE)
prop("C11", "Error and gamma functions are accurate",
 "erf is within 1 ulp, erfc within 4, tgamma within 20 (f64) or 1 (f32) and lgamma of positive arguments within 16 ulp of the correctly rounded value for every argument; lgamma of negative arguments is accurate relative to the terms it is computed from, and the f32 and f64 variants that also return the sign agree. Poles of tgamma at negative integers give NaN, of lgamma +infinity.",
 ["inputs"], "all f32 and f64 arguments",
 "tests sample a few thousand values; interval boundaries of the rational approximations and the neighbourhoods of poles are sampled sparsely",
 [M+f for f in ["erf.rs","erff.rs","tgamma.rs","tgammaf.rs","lgamma_r.rs","lgammaf_r.rs","lgamma.rs","lgammaf.rs"]],
 [("rational approximations per interval", M+"erf.rs"), ("Lanczos approximation", M+"tgamma.rs"), ("reflection through sin(pi x)", M+"lgamma_r.rs")],
 ["return value of each call"], AC, NOTE)

exec(open(os.path.join(V, "tools/more.py")).read()) if os.path.exists(os.path.join(V, "tools/more.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=p["hook"])
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = dict(version=1, setup_cmd="./run setup",
    hooks=dict(guard="cargo feature unstable-public-internals of the libm crate (exists upstream; it exports the private math modules)",
               enable='features = ["unstable-public-internals"] in the Cargo.toml of the harness crates',
               source_commits=["4c15c97271360b0375b2d19da503a955f47be472"]),
    checks=[dict(property=p["id"], quick_cmd=f"./run {p['id']} quick", thorough_cmd=f"./run {p['id']} thorough",
                 technique=p["technique"], level="exploration", level_note=p["note"]) for p in P if p["claimed"]],
    not_applicable=[dict(property=p["id"], reason=p["note"]) for p in P if not p["claimed"]],
    notes="The only hook makes status-returning private functions visible. Unguarded repairs are the fix: commits listed in known-findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
