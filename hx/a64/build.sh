#!/bin/bash
# build.sh DIR: the routines of arch/aarch64.rs with an interpreter for their inline assembly -> DIR/aarch64.
# If the file does not have the expected form there is no guest: those routines are then not judged.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
out="$1"; rm -f "$out/aarch64"; mkdir -p "$out/a64"
src=/repo/libm/src/math/arch/aarch64.rs
[ -f $src ] || exit 0
python3 - "$src" "$out/a64" <<'P'
import re, sys
s = open(sys.argv[1]).read(); out = sys.argv[2]
names = re.findall(r'\bpub fn (\w+)\(', s)
s = re.sub(r'\b(core|std)::arch::asm\b', 'crate::asm', s)
s = re.sub(r'#!?\[cfg\([^\n]*\)\]', '', s)
open(out + '/arch.rs', 'w').write(s)
T = lambda n: 'f128' if n.endswith('f128') else 'f16' if n.endswith('f16') else 'f32' if n.endswith('f') and n not in ('erf',) else 'f64'
A = {'fma': 3, 'ceil': 1, 'floor': 1, 'trunc': 1, 'round': 1, 'rint': 1, 'roundeven': 1, 'sqrt': 1, 'fabs': 1, 'fmin': 2, 'fmax': 2, 'copysign': 2,
     'fdim': 2, 'fminimum': 2, 'fmaximum': 2, 'fminimum_num': 2, 'fmaximum_num': 2}
with open(out + '/calls.rs', 'w') as f:
    f.write('{ f! {\n')
    for n in names:
        b = re.sub(r'f(16|128)?$', '', n)
        b = n if n in A else b
        if b in A: f.write(f"    {n}({', '.join(f'{v}: {T(n)}' for v in 'xyz'[:A[b]])});\n")
    f.write('} }\n')
P
cp "$here/main.rs" "$out/a64/main.rs"
RUSTFLAGS= rustc +nightly-2025-04-20 --edition 2024 -Awarnings -O -o "$out/aarch64" "$out/a64/main.rs" >"$out/aarch64.log" 2>&1 || { rm -f "$out/aarch64"; echo "arch/aarch64.rs does not have the expected form; not judged (see $out/aarch64.log)"; }
exit 0
