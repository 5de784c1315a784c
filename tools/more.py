HOLD = "held on the executions counted in the evidence; the workload samples the input space, it does not exhaust it"
prop("C12", "Bessel functions are accurate relative to their amplitude",
 "j0, j1, jn, y0, y1 and yn (f32 and f64) return, for every finite argument and order, a value whose error is at most 8 eps (orders 0 and 1) or (16+2|n|) eps (jn, yn) times the larger of the true value and, where the function oscillates, its amplitude sqrt(2/(pi x)); f64 arguments of 2^1023 and above are exempt. y is -infinity at zero and NaN for negative arguments; results that underflow or overflow do so near the true threshold.",
 ["inputs"], "all f32 and f64 arguments, all orders",
 "tests compare a few hundred points with a small order; boundaries between the expansions, the backward recurrence's starting index and rescaling, and huge arguments are sampled sparsely",
 [M+f for f in ["j0.rs","j1.rs","jn.rs","j0f.rs","j1f.rs","jnf.rs"]],
 [("rational approximation and asymptotic expansion by interval", M+"j0.rs"), ("forward recurrence, continued fraction with backward recurrence", M+"jn.rs")],
 ["return value of each call"],
 "online monitor: every call of the real code is compared with the host long double function (filter) and MPFR (decides) relative to the amplitude", HOLD)
prop("C13", "Special arguments give the results C Annex F and IEEE 754 prescribe",
 "For NaN, infinite, zero, +-1, integral, halfway, pole and out-of-domain arguments every function returns the prescribed value, class and sign: NaN in gives NaN out (except pow(x,0), pow(1,y), hypot(inf,NaN) and the functions that ignore one NaN), signed zeros and infinities map as listed, poles give signed infinities, exact cases are exact (exp2 of integers and log2 of powers of two, pow(x,1), tgamma of small integers), and lgamma_r reports the sign of gamma. atan2, asin, acos and atan give multiples of pi within 1 ulp.",
 ["inputs"], "all special arguments and their combinations with arbitrary other arguments, in every function and width and every build configuration",
 "tests list some special values per function; combinations with arbitrary second arguments, both signs, every width and every configuration are not covered",
 [M+f for f in ["pow.rs","powf.rs","atan2.rs","hypot.rs","tgamma.rs","lgamma_r.rs","exp2.rs","log2.rs","fma.rs","cbrt.rs","generic/"]],
 [("special-case prologue of each function", M+"pow.rs"), ("integer and parity tests", M+"tgamma.rs")],
 ["return values of each call"],
 "online monitor: a table of rules is consulted for every call in seven builds and demands the exact bits, the class or the sign", HOLD)
prop("C14", "Every call returns: no panic, memory error or endless loop",
 "Every public function returns for every argument in a bounded amount of work: no panic (also with debug assertions, overflow checks and checked indexing), no out-of-bounds or otherwise undefined memory access (also in release builds, whose table look-ups are unchecked), and a number of executed branches below a fixed bound, which for fmod grows with the exponent difference and for jn and yn with the order.",
 ["inputs"], "all arguments of all public functions, in the default, soft-float and intrinsics configurations, with checks on and off",
 "tests panic only on the sampled inputs and do not see an out-of-bounds read in a release build; a loop that fails to end needs a particular argument",
 [M+f for f in ["mod.rs","rem_pio2_large.rs","exp2.rs","exp2f.rs","pow.rs","generic/fmod.rs","generic/scalbn.rs","jn.rs","jnf.rs","tgamma.rs","support/macros.rs","support/int_traits.rs"]],
 [("unchecked table access through i! and get_unchecked", M+"mod.rs"), ("loops over limbs and quotient bits", M+"rem_pio2_large.rs"), ("recurrences over the order", M+"jn.rs")],
 ["return, panic, signal or sanitizer report of each call; control-flow edges executed per call"],
 "AddressSanitizer builds with SanitizerCoverage edge counting (step bound per call), debug-assertion and overflow-check builds, and Miri on a sampled workload", HOLD)
prop("C15", "Every build configuration computes the same results",
 "The result of every public function is the same, bit for bit (any NaN being equal to any other), with architecture-specific code, without it, with force-soft-floats, with compiler intrinsics, with debug assertions and overflow checks, and at every optimisation level.",
 ["inputs"], "all arguments of all public functions, seven build configurations",
 "the test suite runs one configuration at a time against tolerances, never two against each other",
 [M+"arch/", M+"support/macros.rs", "libm/configure.rs", "libm/src/lib.rs", M+"sqrt.rs", M+"rint.rs", M+"fma.rs", M+"ceil.rs"],
 [("select_implementation chooses the implementation", M+"support/macros.rs"), ("SSE2 code", M+"arch/i686.rs")],
 ["return values of each call in seven builds linked into one process"],
 "online differential monitor: the same call in seven differently configured builds of the real code, all bits compared", HOLD)
prop("C16", "Calls are pure: results depend on the arguments alone",
 "The result of a call is a function of its arguments only: it does not depend on earlier or concurrent calls, on leftover stack contents or on the sticky floating-point exception flags, and a call leaves rounding mode, exception masks, flush modes and the x87 control word as they were.",
 ["histories", "schedules"], "all sequences of calls on any number of threads",
 "tests call each function in a fixed order on one thread and never look at the processor state",
 [M+"mod.rs", M+"arch/", M+"support/env.rs", M+"generic/rint.rs"],
 [("no mutable statics", M+"mod.rs"), ("inline assembly and SSE intrinsics", M+"arch/i686.rs")],
 ["return value of each call, MXCSR and x87 control word after it"],
 "stress monitor: eight threads replay recorded calls in random orders with perturbed stack and status flags; results and control registers must be as recorded", HOLD)
prop("C17", "Related functions agree bit for bit",
 "Results that the crate's functions define through each other agree exactly: odd and even functions are exactly odd and even, ceil(x) = -floor(-x), rint = roundeven, modf's integral part = trunc, sincos = (sin, cos), lgamma = lgamma_r.0, ldexp = scalbn and inverts frexp, ilogb = frexp's exponent - 1, remquo's remainder = remainder, jn and yn with n = 0, 1 = j0, j1, y0, y1 and the reflection rules in n and x, hypot, fma, minimum and maximum are symmetric, exact operations agree in all widths, and results stay in the function's range (|sin| <= 1, cosh >= 1, |asin| <= pi/2, ...).",
 ["inputs"], "all arguments (the signs of j1 at infinities and of zeros from jn are excepted)",
 "tests compare each function with an approximate reference on its own; no test relates two results",
 [M+f for f in ["sincos.rs","sincosf.rs","lgamma.rs","lgammaf.rs","remainder.rs","jn.rs","jnf.rs","ldexp.rs","rint.rs","sin.rs","tan.rs","atan.rs","hypot.rs"]],
 [("one function delegates to another", M+"lgamma.rs"), ("sign handled separately from magnitude", M+"atan.rs")],
 ["return values of pairs of calls"],
 "online metamorphic monitor: relations between observed results of the real code are evaluated bit for bit", HOLD)
prop("C18", "Libm<T> methods are the functions they are named after",
 "Every method of Libm<f16>, Libm<f32>, Libm<f64> and Libm<f128> returns for all arguments exactly what the free function of that name and width returns, with arguments and tuple results in the same order.",
 ["inputs"], "all methods, all arguments",
 "one doc test calls a few methods; a method bound to the wrong function of the same signature still compiles and passes",
 ["libm/src/libm_helper.rs"],
 [("libm_helper! macro list of methods", "libm/src/libm_helper.rs")],
 ["return values of method and function"],
 "online differential monitor: each method and the function it stands for are called with the same arguments, all bits compared", HOLD)
PI = "online monitor on the hooked internals: every observed result is compared with big-integer or bit arithmetic"
HK = "functions behind the crate feature unstable-public-internals"
prop("C19", "Status flags tell exactly whether rounding was exact or invalid",
 "In f16, f32, f64 and f128, ceil_status, floor_status and trunc_status return the right value and the status INEXACT exactly when the argument had a fraction (finite non-integer), otherwise OK; sqrt_round returns the correctly rounded root and the status INVALID (with a NaN) for every argument below zero and never for another number; rint_round rounds to nearest even; none of them ever reports overflow, underflow or division by zero. The five flags of Status are distinct, and setting one leaves the others. (What signaling NaNs raise is not specified.)",
 ["inputs"], "all argument bit patterns in four widths",
 "the tests check the status of a dozen listed values per function",
 [M+f for f in ["generic/ceil.rs","generic/floor.rs","generic/trunc.rs","generic/rint.rs","generic/sqrt.rs","support/env.rs"]],
 [("status chosen per branch", M+"generic/ceil.rs"), ("flag set and flag queries", M+"support/env.rs")],
 ["value and status of each call"], PI, HOLD, hook=HK)
prop("C20", "Wide integers and the Int and Float primitives are exact",
 "u256 and i256 addition (wrapping), right shift (0 to 255), or, not, comparison, widening and the 128x128-bit product equal integer arithmetic; the Int, HInt, DInt and CastInto operations of every primitive integer equal the primitive's own (casts truncate, cast is exact when the value fits); the Float trait's constants, class tests, ex, exp_unbiased, frac, from_parts, normalize, abs, copysign, signum, eq_repr, widen and narrow describe and build the IEEE 754 encoding exactly in f16, f32, f64 and f128.",
 ["inputs"], "all operands (operations that panic by design, such as u256 << and i128::widen_mul, excepted)",
 "tests check listed values and random 128-bit words, in which carries across limbs and special shift counts are rare; most trait operations have no test of their own",
 [M+f for f in ["support/big.rs","support/int_traits.rs","support/float_traits.rs"]],
 [("carries between 128-bit limbs", M+"support/big.rs"), ("shift split at the limb boundary", M+"support/big.rs"), ("bit fields from constants", M+"support/float_traits.rs")],
 ["return value of each operation"], PI, HOLD, hook=HK)
prop("C21", "Hex float text is parsed with one exact rounding and printed exactly",
 "parse_any accepts exactly the texts of the grammar [+-](inf|nan|0xH*[.H*]p[+-]D+) (some hex digit, some exponent digit, letters in either case) and never panics; for every supported format (significand up to 119 bits, 2 to 29 exponent bits) and each of the four rounding directions it returns the value rounded once from the exact number, whatever the length of the digits and the exponent, with the status INEXACT, UNDERFLOW (inexact and subnormal or zero) and OVERFLOW exactly when due. parse_hex_exact and hf16 to hf128 return the exact value, and parse_hex_exact fails if there is none. Hexf prints every number so that it reads back to the same bits.",
 ["inputs"], "all texts and formats; all bit patterns of the four widths for printing",
 "tests use listed strings and enumerate small formats; long digit strings, far exponents, ties beyond 128 bits and malformed texts are sampled sparsely",
 [M+"support/hex_float.rs"],
 [("sticky bit for digits beyond 125 bits", M+"support/hex_float.rs"), ("rounding by shifting to two bits", M+"support/hex_float.rs"), ("exponent saturation", M+"support/hex_float.rs"), ("fmt_any_hex", M+"support/hex_float.rs")],
 ["result, bits and status of each parse; text of each print"], PI, HOLD, hook=HK)
prop("C22", "Other targets compute the same results",
 "Compiled for 32-bit x86 (SSE2, force-soft-floats, or with debug assertions), for WebAssembly (portable routines and the wasm-specific ones of arch/wasm32.rs), for x86-64 without vector registers (soft-float), optimized for size or for newer processors, with the stable toolchain and default features, and for a big-endian target, and in the assembly routines of arch/aarch64.rs (fma, rint and sqrt), every public function returns for every argument bit for bit (any NaN being equal to any NaN) what it returns on x86-64, without panic or trap. On x86 without SSE2, whose excess precision Rust does not correct, this holds for the functions that do not depend on intermediate rounding: the f16 and f128 functions, and ceil, floor, trunc, fabs, copysign, the minimum and maximum functions, fmod, remainder, remquo, frexp, modf, ilogb, nextafter, scalbn, ldexp and sqrt in f32 and f64, and rintf, roundf and roundevenf.",
 ["inputs"], "all public functions and arguments on i686, i586, wasm32, four further x86-64 builds and aarch64_be (f16 functions do not exist on wasm32)",
 "the existing tests run on the host only here; code for pointers and registers of 32 bits, other byte orders and other architectures (arch/i586.rs, arch/wasm32.rs) is never executed by them",
 [M+"arch/wasm32.rs", M+"arch/aarch64.rs", M+"arch/i586.rs", M+"arch/i686.rs", M+"arch/mod.rs", "libm/configure.rs", M+"support/macros.rs"],
 [("architecture-specific replacements", M+"arch/wasm32.rs"), ("conversion through i64", M+"arch/i586.rs"), ("usize-dependent code in argument reduction", M+"rem_pio2_large.rs")],
 ["result bits of each call on each target"],
 "online differential monitor: the crate runs on each target (static 32- and 64-bit programs, WebAssembly in node, big-endian in Miri, the aarch64 assembly in an interpreter) on the same inputs as the native build; all result bits are compared", HOLD)
T="crates/libm-test/src/"
prop("C23", "The project's oracle, validator and tolerances judge correctly",
 "libm-test's multiple-precision oracle (MpOp::run) returns for every function and argument the correctly rounded result, with subnormal results rounded once, special values and both components in order (nextafter, signs of NaN, log-gamma of negative numbers and poles excepted). CheckOutput::validate accepts a result exactly when it is within the tolerance of the context in units of the last place with the right sign, infinity and NaN class (integer components equal), in every width, apart from the documented special cases; the default tolerance of every function is the documented one, and the listed test cases have right outputs.",
 ["inputs"], "all functions, arguments, pairs of actual and expected results, tolerances and contexts",
 "these are the judges of the test suite: nothing in it tests them, and an oracle or validator that errs towards acceptance leaves every test green",
 [T+f for f in ["mpfloat.rs","test_traits.rs","precision.rs","generate/case_list.rs"]],
 [("MPFR precision, exponent range and subnormalization per type", T+"mpfloat.rs"), ("ulp difference and special-case overrides", T+"test_traits.rs"), ("default_ulp", T+"precision.rs")],
 ["result of each oracle call", "verdict of each validation", "tolerance of each context"],
 "online monitor on the real oracle and validator: each oracle result is compared with integer arithmetic or an independent MPFR path, each verdict with a model of the rules; results are perturbed around the tolerance", "held on the executions counted in the evidence; cases left to the documented special cases are counted apart")
prop("C24", "Test generators produce what they promise",
 "libm-test's generators cover what they claim: edge cases of every function contain the values next to zero, one, infinity, the largest subnormal, the ends of the domain and its check points, NaNs, and for several arguments every combination once; spaced cases are evenly spaced from end to end of the domain and as many as asked for (all values where the format has no more); random cases fill the type's range, depend on LIBM_SEED alone and repeat; announced counts are exact, and KnownSize, n_up, n_down, next_up, next_down, logspace, linear_ints, f8 and the consts agree with integer arithmetic; LIBM_EXTENSIVE_TESTS selects the functions it names.",
 ["inputs", "configurations"], "all functions, generator kinds, iteration counts; all bit patterns of small formats for the stepping functions",
 "a generator that silently skips values keeps every test passing with less coverage; the tests of the generators are a handful of asserts",
 [T+f for f in ["generate.rs","generate/edge_cases.rs","generate/spaced.rs","generate/random.rs","num.rs","f8_impl.rs","domain.rs","run_cfg.rs"]],
 [("argument products", T+"generate/edge_cases.rs"), ("range and step of logspace", T+"num.rs"), ("seed and range per argument", T+"generate/random.rs"), ("iteration counts and environment", T+"run_cfg.rs")],
 ["stream of generated inputs", "results of stepping functions"],
 "trace monitor: the streams that the real generators produce are read completely and checked against their specification (membership, exact product, spacing, count, repeatability, per environment in child processes)", HOLD)
prop("C25", "Function tables and macros know every function as it is",
 "Identifier, BaseName, FloatTy and the MathOp routine of every public function agree with each other and with the function: names, base names, parsing and printing, signatures in Rust and C; a call through the generic interface returns what the function returns, with arguments in order. for_each_function! expands to exactly the requested functions (skip, only, attributes, extra, fn_extra, emitted types) for every valid use and refuses unknown names and contradictory settings.",
 ["inputs"], "all functions; all invocations of the macro",
 "every test of the repository is generated through these tables: an omitted function or a swapped argument silently removes tests",
 ["crates/libm-macros/src/"+f for f in ["lib.rs","parse.rs","shared.rs","enums.rs"]]+[T+"op.rs", T+"test_traits.rs"],
 [("table of all functions", "crates/libm-macros/src/shared.rs"), ("filtering of functions", "crates/libm-macros/src/lib.rs"), ("tuples applied to functions", T+"test_traits.rs")],
 ["result of each generic call", "names and signatures", "output of compiled programs that use the macro"],
 "online differential monitor; random uses of the real macro are compiled and run, and their output compared with a model of the expansion", HOLD)
prop("C26", "The C interface is the Rust functions",
 "Every C symbol that crates/compiler-builtins-smoke-test exports takes and returns, by the C calling convention, exactly what the Rust function of the same name takes and returns, including results stored through pointers (written once, nothing beside them), in builds with and without arch features and with runtime checks; every function of the math interface is exported.",
 ["inputs"], "all exported symbols and arguments",
 "the crate is built but never called by the tests: a symbol that forwards to another function of the same signature or stores its results in the wrong order goes unnoticed",
 ["crates/compiler-builtins-smoke-test/src/math.rs","crates/compiler-builtins-smoke-test/src/lib.rs"],
 [("no_mangle wrappers", "crates/compiler-builtins-smoke-test/src/math.rs"), ("results through pointers", "crates/compiler-builtins-smoke-test/src/math.rs")],
 ["return value and memory after each call through the C symbol"],
 "online differential monitor: the crate is built as a shared object, its symbols are called by the C convention with guarded output memory, and all bits compared", HOLD)
prop("C27", "util eval reads every notation and prints the right result",
 "util eval libm|mpfr FUNCTION ARGUMENTS prints the function's (or the correctly rounded) result for arguments written as decimal numbers, bits in hexadecimal or binary, hex floats, inf or nan in every width, each read as the nearest value with one rounding and negative signs respected; the number is printed twice, in Rust and in hex notation, denoting the same value (NaN payloads not specified). Unknown functions or bases, wrong argument counts and unreadable arguments end with failure.",
 ["inputs"], "all functions, notations and values",
 "the tool has no tests at all",
 ["crates/util/src/main.rs", M+"support/hex_float.rs", T+"mpfloat.rs"],
 [("parsing by prefix", "crates/util/src/main.rs"), ("f16 and f128 through MPFR", "crates/util/src/main.rs")],
 ["output and exit status of each command line"],
 "online monitor: the real tool is run on generated command lines; its output is parsed and compared with the value known from construction", HOLD)
prop("C28", "CI selects what changed; the API lists are true",
 "etc/function-list.txt names every public function of libm, sorted, and etc/function-definitions.json gives each its type and the files (arch routines and the generic of its base name included, support excluded) that define it; etc/update-api-list.py writes exactly these lists for the tree at hand, and with --check fails exactly if one is stale, a block marked verify-sorted is unsorted or unterminated, or a function is missing in a block marked verify-apilist. ci/ci-util.py generate-matrix prints per type exactly the functions with a changed source between the two parents of the merge under test, none to test if the pull request says `ci: skip-extensive` at the start of a line, and fails exactly if more than 20 would be tested without `ci: allow-many-extensive`; check-regressions fails exactly if there is no summary or a regression that the pull request does not allow; locate-baseline does not fail when nothing can be downloaded and extracts the newest baseline.",
 ["inputs", "histories"], "all merge commits, definition lists, pull request texts, benchmark summaries and edits of the tree",
 "the scripts decide which functions get exhaustive tests at all and have no tests; a function that they forget is silently never tested again",
 ["ci/ci-util.py", "etc/update-api-list.py", "etc/function-definitions.json", "etc/function-list.txt"],
 [("changed files between the parents of the merge", "ci/ci-util.py"), ("directives of the pull request", "ci/ci-util.py"), ("definitions from rustdoc, arch files and generic counterparts", "etc/update-api-list.py")],
 ["output, exit status and calls of gh of each run", "written lists"],
 "online monitor: the real scripts run on random git histories, pull requests (with a recording stand-in for gh), benchmark results and edited copies of the tree; output, exit status and written files are judged by a model and an independent reading of the tree", HOLD)
prop("C29", "CI runs every configuration and lets no failure pass",
 "ci/run.sh TARGET (the host without argument) tests the whole workspace for that target with arch and unstable-float in the default and release-checked profiles, each without and with unstable-intrinsics, and with force-soft-floats, builds the benchmarks, and builds with no-panic in release-opt; musl and MPFR are compared with exactly on the targets that can build them; with BUILD_ONLY=1 it builds only, with and without intrinsics; with nextest it runs the doctests, too. ci/run-docker.sh TARGET builds that target's image and runs ci/run.sh in it with the tree read-only, EMULATED set exactly for foreign architectures; without argument it does so for every target. ci/bench-icount.sh measures soft floats and arch routines against the newest published baseline, and publishes its own exactly if nothing fails. Each exits nonzero if any command in it fails or a pull request regresses a benchmark without being allowed to.",
 ["inputs", "fault_sequences", "histories"], "all targets, environments, hosts, failing commands and histories of benchmark runs",
 "these scripts decide whether a defect is seen at all and have no tests; a swallowed exit status or a lost configuration looks like success for ever",
 ["ci/run.sh", "ci/run-docker.sh", "ci/bench-icount.sh"],
 [("flags per target", "ci/run.sh"), ("configurations", "ci/run.sh"), ("container per target", "ci/run-docker.sh"), ("regressions and publication", "ci/bench-icount.sh")],
 ["recorded calls of cargo, docker, rustc, gh", "exit status", "written files"],
 "fault injection and online monitor: the real scripts run with recording stand-ins for cargo, docker, rustc, uname and gh (the container's command is really run), with and without a fault at each call; recorded calls, exit status and files are judged", HOLD)
prop("C30", "Features, targets and profiles select exactly what they say",
 "For every target the compiler knows, every set of features and every environment, libm's build configuration enables intrinsics exactly with unstable-intrinsics, architecture-specific routines exactly with arch, both never with force-soft-floats; f16 and f128 exactly with unstable-float on architectures that support them (and never with no-f16-f128); no-panic exactly if ENSURE_NO_PANIC is set at that build, whatever was built before; x86_no_sse exactly on x86 without SSE. libm, libm-test, util and the C interface agree on this. libm builds with every set of its features, also with the stable toolchain as far as they are stable, has all f32 and f64 functions then, and computes the same results; with arch every square root is the hardware's, without it or with force-soft-floats no function executes an instruction of the architecture-specific routines. The profile release-checked has debug assertions and overflow checks, release-opt is fully optimized.",
 ["configurations", "histories"], "all sets of features, targets, toolchains, environments and orders of builds",
 "users build libm with other features, targets and toolchains than the tests do, which use one configuration at a time and cannot see which routine ran",
 ["libm/configure.rs", "libm/build.rs", "libm/Cargo.toml", "libm/src/math/arch/mod.rs", "libm/src/math/support/macros.rs", "Cargo.toml"],
 [("configuration from features and target", "libm/configure.rs"), ("select_implementation", "libm/src/math/support/macros.rs"), ("features", "libm/Cargo.toml"), ("profiles", "Cargo.toml")],
 ["configuration printed by the build scripts", "instructions executed by each function", "results in each build"],
 "online monitor: the real build scripts run in the environment of every target; a probe built with each set of features and toolchain single-steps calls of every function, watching for hardware square root, rounding and multiply-add instructions, and hashes results, which are compared across builds; builds in changing order in one directory; recorded compiler calls of the profiles", HOLD)
prop("C31", "The musl bindings run musl's function of that name",
 "Built with musl's sources, every function of musl_math_sys calls exactly the musl function of its name (or, for drem, pow10 and lgamma_r, the one it is an alias of; for functions with a version for the architecture in C, that version), once, with the bits of all arguments as given, and returns, also through pointers, what that function returned; musl's internal calls stay within musl, and neither libm's, the standard library's nor the system's functions of the same name are replaced or used. util eval musl does the same and prints the returned numbers. The build fails if the sources are missing, use a function from outside or define an unprefixed symbol, and a build after the sources changed uses the changed sources.",
 ["inputs", "fault_sequences", "histories"], "all functions, all argument and result bit patterns, all threads, all changes of the sources",
 "the submodule with musl is not part of the tested tree, and the crate's own tests only call each function with 1; a binding to another function of the same type looks right",
 ["crates/musl-math-sys/src/lib.rs", "crates/musl-math-sys/build.rs", "crates/util/src/main.rs", "crates/libm-test/src/test_traits.rs"],
 [("bindings", "crates/musl-math-sys/src/lib.rs"), ("renaming and choice of sources", "crates/musl-math-sys/build.rs"), ("eval musl", "crates/util/src/main.rs")],
 ["calls reported by the C functions with all argument bits", "returned bits", "build results after faults"],
 "online trace monitor: a tree with the layout of musl whose functions report each call and return what the monitor chose is built by the real build script; every call of the real bindings and of util must produce exactly its event; faults are injected into the sources", HOLD)
prop("C32", "A call needs its arguments and a small stack, nothing else",
 "In every build configuration every call of a public function returns using at most 4 KiB of stack (16 KiB without optimization), whatever the arguments: no recursion whose depth depends on them, no write to static, thread-local or heap memory, no allocation, no system call, no wait. The compiled crate needs no symbol but those of core and the compiler's runtime (with unstable-intrinsics also fma, which the platform then provides), and defines none that could take the place of a C function.",
 ["inputs"], "all arguments of all public functions in seven build configurations",
 "tests run with megabytes of stack, a C library and an allocator at hand; a kernel, a signal handler or a microcontroller has none of them",
 [M+f for f in ["mod.rs","rem_pio2_large.rs","jn.rs","tgamma.rs","generic/fmod.rs","generic/scalbn.rs","support/"]]+["libm/src/lib.rs"],
 [("no_std", "libm/src/lib.rs"), ("arrays of the argument reduction", M+"rem_pio2_large.rs"), ("functions that call each other", M+"lgamma_r.rs")],
 ["highest use of the stack", "writes outside of it", "system calls", "processor time", "symbols of the compiled library"],
 "memory-protection sandbox: calls run in processes whose writable memory is sealed, on a small stack between guard pages, with system calls forbidden by seccomp and a timer; a painted stack records its use; symbols are read from the compiled library", HOLD)
