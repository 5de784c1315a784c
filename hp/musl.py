#!/usr/bin/env python3
"""C31: the bindings to musl run musl's function of that name.

musl itself is a submodule that is not here. The check writes a source tree with musl's layout (aliases, files with
several functions, functions of the architecture, internal helpers, assembly that must be left out) in which every
function reports the call and returns what the monitor tells it to. The real build script, bindings and `util eval
musl` run against it, and every call is compared with what was reported."""
import json, os, random, re, shutil, struct, subprocess as sp, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import spawn

HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); REPO = os.environ.get('C31_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1')); BIG = TIER == 'thorough'
T0 = time.time(); LOCK = threading.Lock()
os.makedirs(f'{VERIF}/target/musl', exist_ok=True)
SCR = tempfile.mkdtemp(prefix='c31.', dir=f'{VERIF}/target')
VIOL, INC, COUNT, SEEN, SAMPLES = [], [], {}, set(), []
def count(k, n=1):
    with LOCK: COUNT[k] = COUNT.get(k, 0) + n
def case(x):
    with LOCK:
        if x in SEEN: return
        SEEN.add(x)
        if len(SAMPLES) < 8 and len(SEEN) % 301 == 1: SAMPLES.append(str(x)[:300])
def check(ok, what, detail):
    if not ok:
        with LOCK: VIOL.append((what, detail() if callable(detail) else detail))
    return ok
NIGHTLY = os.environ.get('RUSTUP_TOOLCHAIN', 'nightly-2025-04-20')
ENV = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'RUSTUP_HOME', 'CARGO_HOME')}
ENV.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=NIGHTLY, LC_ALL='C.UTF-8')
def sh(cmd, cwd, env={}, t=600):
    try:
        r = sp.run(cmd, cwd=cwd, env={**ENV, **env}, stdin=sp.DEVNULL, stdout=sp.PIPE, stderr=sp.PIPE, text=True, errors='replace', timeout=t)
        return r.returncode, r.stdout, r.stderr
    except sp.TimeoutExpired: return 'timeout', '', ''

# ---- what <math.h> says ---------------------------------------------------------------------
# d double, f float, i int, l long, s string; capital: pointer to it
TAB = {}
for n in 'acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp10 exp2 exp expm1 fabs floor j0 j1 lgamma log10 log1p log2 log logb nearbyint pow10 rint round significand sin sinh sqrt tan tanh tgamma trunc y0 y1'.split():
    TAB[n] = ('d', 'd'); TAB[n + 'f'] = ('f', 'f')
for n in 'atan2 copysign drem fdim fmax fmin fmod hypot nextafter pow remainder'.split(): TAB[n] = ('dd', 'd'); TAB[n + 'f'] = ('ff', 'f')
for n in 'finite ilogb'.split(): TAB[n] = ('d', 'i'); TAB[n + 'f'] = ('f', 'i')
for n in 'ldexp scalbn'.split(): TAB[n] = ('di', 'd'); TAB[n + 'f'] = ('fi', 'f')
for n in 'frexp lgamma_r'.split(): TAB[n] = ('dI', 'd')
for n in 'frexpf lgammaf_r'.split(): TAB[n] = ('fI', 'f')
for n in 'jn yn'.split(): TAB[n] = ('id', 'd'); TAB[n + 'f'] = ('if', 'f')
TAB.update(fma=('ddd', 'd'), fmaf=('fff', 'f'), modf=('dD', 'd'), modff=('fF', 'f'), nan=('s', 'd'), nanf=('s', 'f'), remquo=('ddI', 'd'), remquof=('ffI', 'f'),
    scalbln=('dl', 'd'), scalblnf=('fl', 'f'), sincos=('dDD', 'v'), sincosf=('fFF', 'v'))
# functions that musl has and nobody binds
MORE = dict(scalb=('dd', 'd'), scalbf=('ff', 'f'), lrint=('d', 'l'), lrintf=('f', 'l'), lround=('d', 'l'), lroundf=('f', 'l'), llrint=('d', 'l'), nexttoward=('dd', 'd'))
ALIAS = {'drem': 'remainder', 'dremf': 'remainderf', 'pow10': 'exp10', 'pow10f': 'exp10f', 'lgamma_r': '__lgamma_r', 'lgammaf_r': '__lgammaf_r'}
FILE = {'erfc': 'erf', 'erfcf': 'erff', 'y0': 'j0', 'y0f': 'j0f', 'y1': 'j1', 'y1f': 'j1f', 'yn': 'jn', 'ynf': 'jnf', '__lgamma_r': 'lgamma_r', '__lgammaf_r': 'lgammaf_r'}
HELP = {'sin': '__sin', 'cos': '__cos', 'tan': '__tan', 'sinf': '__sindf', 'cosf': '__cosdf', 'tanf': '__tandf', 'cosh': '__expo2', 'coshf': '__expo2f', 'log1p': '__math_invalid', 'exp': '__exp_data', 'pow': '__pow_log_data', 'log2': '__log2_data'}
ARCHF = ['sqrt', 'sqrtf', 'fabs', 'fabsf', 'fma', 'fmaf', 'lrint', 'rint']
CT = {'d': 'double', 'f': 'float', 'i': 'int', 'l': 'long', 's': 'const char *', 'D': 'double *', 'F': 'float *', 'I': 'int *', 'v': 'void'}

def cfun(name, sig, arch=''):
    a, r = sig
    ps = ', '.join(f'{CT[k]} p{j}' for j, k in enumerate(a))
    b = ['union lev in_[4] = {{0}}, out_[4] = {{0}};']
    fld = {'d': 'd', 'f': 'f', 'i': 'i', 'l': 'l', 's': 'p', 'D': 'p', 'F': 'p', 'I': 'p'}
    for j, k in enumerate(a): b.append(f'in_[{j}].{fld[k]} = p{j};')
    h = HELP.get(name)
    if h: b.append(f'lev_help_{h}();')
    b.append(f'__le_event("{arch}{name}", in_, out_);')
    for j, k in enumerate(a):
        if k in 'DFI': b.append(f'*p{j} = out_[{j + 1}].{k.lower()};')
    if r != 'v': b.append(f'return out_[0].{r};')
    return f'{CT[r]} {name}({ps})\n{{\n\t' + '\n\t'.join(b) + '\n}\n'
def tree(root, rng):
    W = lambda p, t: (os.makedirs(os.path.dirname(f'{root}/{p}'), exist_ok=True), open(f'{root}/{p}', 'w').write(t))
    W('tools/mkalltypes.sed', '/^TYPEDEF/s/TYPEDEF \\(.*\\) \\([^ ]*\\);$/#if defined(__NEED_\\2) \\&\\& !defined(__DEFINED_\\2)\\ntypedef \\1 \\2;\\n#define __DEFINED_\\2\\n#endif\\n/\n')
    W('arch/x86_64/bits/alltypes.h.in', 'TYPEDEF float float_t;\nTYPEDEF double double_t;\n')
    W('include/alltypes.h.in', 'TYPEDEF unsigned _Addr size_t;\n#define _Addr long\n')
    W('include/features.h', '#ifndef _FEATURES_H\n#define _FEATURES_H\n#define _Noreturn\n#endif\n')
    W('src/include/features.h', '#ifndef FEATURES_H\n#define FEATURES_H\n#error the features.h of musl must be replaced\n#endif\n')
    W('arch/generic/fp_arch.h', ''); W('arch/x86_64/fp_arch.h', '')
    W('src/internal/libm.h', '#ifndef _LIBM_H\n#define _LIBM_H\n#define __NEED_float_t\n#define __NEED_double_t\n#include <bits/alltypes.h>\n#include <features.h>\n#include <math.h>\n#include "fp_arch.h"\n'
      'union lev { double d; float f; int i; long l; const void *p; unsigned long long u; };\nvoid __le_event(const char *, const union lev *, union lev *);\nvoid __le_help(const char *);\n'
      + ''.join(f'static inline void lev_help_{h}(void) {{ ' + (f'extern const double {h}[]; __le_help({h}[0] == 1.5 ? "{h}" : "?"); ' if h.endswith('data') else f'extern hidden void {h}(void); {h}(); ') + '}\n' for h in sorted(set(HELP.values()))) + '#endif\n')
    defs = {n: s for n, s in {**TAB, **MORE}.items() if n not in ALIAS}
    defs['__lgamma_r'] = ('dI', 'd'); defs['__lgammaf_r'] = ('fI', 'f')
    W('include/math.h', '#include <features.h>\n' + ''.join(f'{CT[r]} {n}({", ".join(CT[k] for k in a)});\n' for n, (a, r) in {**TAB, **MORE}.items()))
    files = {}
    for n, s in defs.items(): files.setdefault(FILE.get(n, n), []).append((n, s))
    for f, ds in files.items():
        t = '#include "libm.h"\n'
        if f in ('lgamma_r', 'lgammaf_r'): t += ''.join(f'{CT[s[1]]} {n}({", ".join(CT[k] for k in s[0])});\n' for n, s in ds)
        for n, s in ds:
            t += cfun(n, s)
            for al, o in ALIAS.items():
                if o == n: t += f'weak_alias({n}, {al});\n'
        W(f'src/math/{f}.c', t)
    for n in ARCHF:
        t = '#include "libm.h"\n' + cfun(n, defs[n], 'x86_64/')
        if n in ('fma', 'fmaf'): t = '#if 0\n#error\n#else\n#include "../%s.c"\n#endif\n' % n  # as musl does without the FMA extension
        W(f'src/math/x86_64/{n}.c', t)
    for n in ('sin', 'floorl', 'expl', 'acos'): W(f'src/math/x86_64/{n}.s', f'.global {n}\n{n}:\n\tud2\n')
    for n in ('sin', 'cos', 'sqrt'): W(f'src/math/aarch64/{n}.c', '#error wrong architecture\n')
    for h in sorted(set(HELP.values())):
        if h.endswith('data'):
            W(f'src/math/{h[2:] if h != "__pow_log_data" else "pow_data"}.c', f'#include "libm.h"\nextern const double {h}[];\nconst double {h}[2] = {{1.5, 2.5}};\n')
        else: W(f'src/math/{h}.c', f'#include "libm.h"\nhidden void {h}(void)\n{{\n\t__le_help("{h}");\n}}\n')
    W('src/math/signgam.c', '#include "libm.h"\nextern int __signgam;\nint __signgam = 0;\nweak_alias(__signgam, signgam);\n')
    W('src/math/pow_data.h', '#error a header is not a source\n')

def copy(dst):
    rc, o, e = sh(['git', '-C', REPO, 'ls-files', '-co', '--exclude-standard'], SCR)
    fs = [f for f in o.split('\n') if f and os.path.isfile(f'{REPO}/{f}') and f.startswith(('crates/musl-math-sys', 'crates/util', 'crates/libm-test', 'crates/libm-macros', 'libm/', 'Cargo', 'etc/'))]
    for f in fs + ['Cargo.lock']:
        if os.path.isfile(f'{REPO}/{f}'):
            os.makedirs(os.path.dirname(f'{dst}/{f}'), exist_ok=True); shutil.copy2(f'{REPO}/{f}', f'{dst}/{f}')
    for f in ('LICENSE.txt', 'README.md'):
        if os.path.exists(f'{REPO}/{f}'): shutil.copy(f'{REPO}/{f}', dst)


# ---- the monitor: one call, what was reported, what came back -------------------------------
HEAD = r"""#![allow(unused_mut, unused_variables, clippy::all)]
use std::ffi::{c_char, c_int, c_long, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
type Ev = (&'static CStr, [u64; 4]);
thread_local! { static LOG: std::cell::RefCell<(Vec<Ev>, Vec<&'static CStr>, [u64; 4])> = const { std::cell::RefCell::new((Vec::new(), Vec::new(), [0; 4])) }; }
#[unsafe(no_mangle)] pub extern "C" fn __le_event(n: *const c_char, i: *const [u64; 4], o: *mut [u64; 4]) {
    LOG.with_borrow_mut(|l| unsafe { l.0.push((CStr::from_ptr(n), *i)); *o = l.2; });
}
#[unsafe(no_mangle)] pub extern "C" fn __le_help(n: *const c_char) { LOG.with_borrow_mut(|l| l.1.push(unsafe { CStr::from_ptr(n) })); }
struct Rng(u64);
impl Rng { fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) } }
const EDGE: [u64; 12] = [0, 1 << 63, 0x3ff0 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0x7ff4 << 48, 1, 0x3f80_0000, 0x7f80_0000, 0x7fa0_0001, u64::MAX];
struct Case { name: &'static str, want: &'static str, help: Option<&'static str>, mask: [u64; 4], outs: [u64; 4] }
static CALLS: AtomicU64 = AtomicU64::new(0);
static EVENTS: AtomicU64 = AtomicU64::new(0);
static HELPS: AtomicU64 = AtomicU64::new(0);
/// Calls `f` (which returns what it sent and what it got) and compares with what musl reported.
fn probe(c: &Case, n: u64, seed: u64, f: impl Fn(&[u64; 4]) -> ([u64; 4], [u64; 4])) {
    let mut r = Rng(seed ^ c.name.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64)));
    let mut bad = 0;
    for k in 0..n {
        let v = |r: &mut Rng| { let x = r.u64(); if x & 7 == 0 { EDGE[(x >> 8) as usize % 12] } else { r.u64() } };
        let a = [v(&mut r), v(&mut r), v(&mut r), 0];
        let o = [v(&mut r), v(&mut r), v(&mut r), v(&mut r)];
        LOG.with_borrow_mut(|l| { l.0.clear(); l.1.clear(); l.2 = o });
        let (sent, got) = f(&a);
        let (ev, hp) = LOG.with_borrow(|l| (l.0.clone(), l.1.clone()));
        EVENTS.fetch_add(ev.len() as u64, Relaxed); HELPS.fetch_add(hp.len() as u64, Relaxed);
        let mut e = String::new();
        if ev.len() != 1 || ev[0].0.to_bytes() != c.want.as_bytes() { e = format!("runs {:?}, not {}", ev.iter().map(|x| x.0).collect::<Vec<_>>(), c.want); }
        else if (0..4).any(|j| ev[0].1[j] & c.mask[j] != sent[j] & c.mask[j]) { e = format!("arguments {:x?} arrive as {:x?}", sent, ev[0].1); }
        else if (0..4).any(|j| got[j] & c.outs[j] != o[j] & c.outs[j]) { e = format!("results {:x?} come back as {:x?}", o, got); }
        else if hp.len() != c.help.is_some() as usize || hp.iter().any(|h| Some(h.to_str().unwrap()) != c.help) { e = format!("internal functions {hp:?}, not {:?}", c.help); }
        if !e.is_empty() { println!("BAD {} {e}", c.name); bad += 1; if bad > 3 { break; } }
        CALLS.fetch_add(1, Relaxed);
    }
}
fn quiet(what: &str) { LOG.with_borrow(|l| if !l.0.is_empty() { println!("BAD {what} runs musl's {:?}", l.0[0].0); }) }
"""
RT = {'d': 'f64', 'f': 'f32', 'i': 'c_int', 'l': 'c_long'}
FULL = (1 << 64) - 1
def width(k): return 0xffffffff if k in 'fi' else FULL
def main_rs(order):
    o = [HEAD, 'fn main() {\n    let n: u64 = std::env::args().nth(1).unwrap().parse().unwrap();\n    let seed: u64 = std::env::args().nth(2).unwrap().parse().unwrap();']
    o.append('    let hs: Vec<_> = (0..8u64).map(|t| std::thread::spawn(move || {')
    o.append(f'        let mut order: Vec<usize> = (0..{len(order)}).collect(); let mut r = Rng(seed ^ t); for k in (1..order.len()).rev() {{ order.swap(k, (r.u64() % (k as u64 + 1)) as usize); }}')
    o.append('        for k in order { match k {')
    for k, n in enumerate(order):
        a, r = TAB[n]; src = ALIAS.get(n, n)
        want = ('x86_64/' if src in ARCHF and src not in ('fma', 'fmaf') else '') + src
        mask = [width(x) for x in a] + [0] * (4 - len(a))
        outs = [width(r) if r != 'v' else 0] + [width(x.lower()) if x in 'DFI' else 0 for x in a] + [0] * (3 - len(a))
        pre, call, sent, back = [], [], [], []
        for j, x in enumerate(a):
            if x == 's': pre.append(f'let s{j} = CString::new(format!("{{:x}}", a[{j}])).unwrap();'); call.append(f's{j}.as_ptr()'); sent.append(f's{j}.as_ptr() as u64')
            elif x in 'DFI':
                t = RT[x.lower()]; pre.append(f'let mut s{j}: {t} = {conv(x.lower(), f"!a[{j}]")};'); pre.append(f'let p{j} = &raw mut s{j} as u64;'); call.append(f'&mut s{j}'); sent.append(f'p{j}'); back.append((j + 1, bits(x.lower(), f's{j}')))
            else: pre.append(f'let s{j}: {RT[x]} = {conv(x, f"a[{j}]")};'); call.append(f's{j}'); sent.append(bits(x, f's{j}'))
        sent += ['0'] * (4 - len(sent)); got = ['0'] * 4
        if r != 'v': got[0] = bits(r, 'r')
        for j, b in back: got[j] = b
        h = HELP.get(src)
        o.append(f'            {k} => probe(&Case {{ name: "{n}", want: "{want}", help: {f"Some({chr(34)}{h}{chr(34)})" if h else "None"}, mask: {mask}, outs: {outs} }}, n, seed ^ t << 40, |a| {{ {" ".join(pre)} let r: {RT.get(r, "()")} = musl_math_sys::{n}({", ".join(call)}); ([{", ".join(sent)}], [{", ".join(got)}]) }}),')
    o.append('            _ => {} } }\n    })).collect();\n    for h in hs { h.join().unwrap(); }')
    # what the rest of the program calls is not musl
    o.append('    LOG.with_borrow_mut(|l| l.0.clear()); let mut q = 0; let x = std::hint::black_box(0.75f64); let y = std::hint::black_box(0.75f32);')
    import itertools
    for n in order:
        if TAB[n] in (('d', 'd'), ('dd', 'd')) and n not in ('drem', 'finite', 'logb', 'nearbyint', 'pow10', 'significand'):
            v = ', '.join('x' * 1 for _ in TAB[n][0])
            o.append(f'    std::hint::black_box(libm::{n}({v})); quiet("libm::{n}"); q += 1;')
    for m in 'sin cos tan exp ln log10 log2 sqrt floor ceil round trunc cbrt sinh cosh tanh asin acos atan exp_m1 ln_1p asinh acosh atanh exp2 abs fract'.split():
        o.append(f'    std::hint::black_box(x.{m}()); quiet("f64::{m}"); std::hint::black_box(y.{m}()); quiet("f32::{m}"); q += 2;')
    o.append('    println!("DONE calls={} events={} helpers={} quiet={q} functions=' + str(len(order)) + '", CALLS.load(Relaxed), EVENTS.load(Relaxed), HELPS.load(Relaxed));\n}')
    return '\n'.join(o)
def conv(k, e): return {'d': f'f64::from_bits({e})', 'f': f'f32::from_bits(({e}) as u32)', 'i': f'({e}) as c_int', 'l': f'({e}) as c_long'}[k]
def bits(k, e): return {'d': f'{e}.to_bits()', 'f': f'{e}.to_bits() as u64', 'i': f'{e} as u32 as u64', 'l': f'{e} as u64'}[k]

def build(cmd, cwd, env, own):
    """Builds; errors in the file `own` (which states musl's interface) are findings, other errors are not."""
    rc, o, e = sh(cmd + ['--message-format=json'], cwd, env, 800)
    if rc == 0: return True
    errs = []
    for l in o.split('\n'):
        try: m = json.loads(l)
        except ValueError: continue
        m = m.get('message') or {}
        if isinstance(m, dict) and m.get('level') == 'error' and m.get('spans'):
            errs.append((any(s['file_name'].endswith(own) and s['is_primary'] for s in m['spans']), m['rendered']))
    if errs and all(x for x, _ in errs):
        for _, t in errs[:3]: check(False, 'a binding does not have the type or name that <math.h> gives it', t[:600])
        return False
    txt = ''.join(t for _, t in errs)[:1500] or e[-1500:]
    # the link failing or the archive being rejected is what the crate promises not to happen
    if 'undefined symbol' in txt or 'undefined reference' in txt or 'disallowed undefined symbols' in txt or 'unprefixed symbols' in txt:
        check(False, 'the bindings do not link against musl', txt[-900:]); return False
    print(txt, file=sys.stderr); sys.exit(3)

def bindings(R):
    d = f'{SCR}/h'; os.makedirs(f'{d}/src'); order = sorted(TAB)
    random.Random(SEED).shuffle(order)
    open(f'{d}/src/main.rs', 'w').write(main_rs(order))
    open(f'{d}/Cargo.toml', 'w').write(f'[package]\nname = "h"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[dependencies]\nmusl-math-sys = {{ path = "{R}/crates/musl-math-sys" }}\nlibm = {{ path = "{R}/libm" }}\n[profile.dev]\ndebug = false\n[profile.release]\nlto = "fat"\ncodegen-units = 1\n')
    shutil.copy(f'{R}/Cargo.lock', d)
    tot = 0
    for prof, n in (('dev', 3_000), ('release', 40_000)) if not BIG else (('dev', 100_000), ('release', 6_000_000)):
        env = {'CARGO_TARGET_DIR': f'{VERIF}/target/musl/h'}
        if not build(['cargo', 'build', '--offline', '--profile', prof], d, env, 'src/main.rs'): return
        exe = f'{VERIF}/target/musl/h/{"debug" if prof == "dev" else prof}/h'
        rc, o, e = sh([exe, str(n), str(SEED)], SCR, {}, 3000)
        for l in o.split('\n'):
            if l.startswith('BAD '): check(False, f'binding ({prof})', l[4:])
        m = re.search(r'DONE calls=(\d+) events=(\d+) helpers=(\d+) quiet=(\d+) functions=(\d+)', o)
        if not check(rc == 0 and m, f'calling the bindings ({prof}) ends with {rc}', (o + e)[-500:]): return
        for k, v in zip(('binding_calls', 'events', 'helper_events', 'calls_that_must_not_reach_musl'), m.groups()): count(k, int(v))
        tot += int(m.group(1))
        for f in order: case(f'musl_math_sys::{f} ({prof})')

# ---- util eval musl -------------------------------------------------------------------------
NONE = 'fmaximum fmaximum_num fmaximum_numf fmaximumf fminimum fminimum_num fminimum_numf fminimumf roundeven roundevenf'.split()
EV = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void __le_help(const char *n) { (void)n; }
void __le_event(const char *n, const unsigned long long *i, unsigned long long *o) {
    const char *p = getenv("LEV"); FILE *f; int k; const char *r = getenv("LEVR");
    if (p && (f = fopen(p, "a"))) { fprintf(f, "%s", n); for (k = 0; k < 4; k++) fprintf(f, " %llx", i[k]); fputc('\n', f); fclose(f); }
    for (k = 0; k < 4; k++) { o[k] = r ? strtoull(r, (char **)&r, 16) : 0; }
}
"""
def util(R):
    d = f'{SCR}/ev'; os.makedirs(d); open(f'{d}/ev.c', 'w').write(EV)
    # a fixed place, so that the flags and with them the build directory stay the same
    obj = f'{VERIF}/target/musl/ev.o'
    rc, o, e = sh(['gcc', '-O1', '-fPIC', '-c', f'{d}/ev.c', '-o', f'{d}/ev.o'], d)
    if rc: print(e, file=sys.stderr); sys.exit(3)
    if not os.path.exists(obj) or open(obj, 'rb').read() != open(f'{d}/ev.o', 'rb').read(): shutil.copy(f'{d}/ev.o', obj)
    env = {'CARGO_TARGET_DIR': f'{VERIF}/target/musl/u', 'RUSTFLAGS': f'-Clink-arg={obj}'}
    if not build(['cargo', 'build', '--offline', '-p', 'util', '--no-default-features', '--features', 'build-musl,unstable-float'], R, env, 'nothing'): return
    exe = f'{VERIF}/target/musl/u/debug/util'
    rng = random.Random(SEED * 7919); jobs = []
    names = [n for n in sorted(TAB) if n not in ('drem', 'dremf', 'finite', 'finitef', 'logb', 'logbf', 'nan', 'nanf', 'nearbyint', 'nearbyintf', 'pow10', 'pow10f', 'scalbln', 'scalblnf', 'significand', 'significandf', 'lgamma_r', 'lgammaf_r')] + ['lgamma_r', 'lgammaf_r']
    def num(k):
        if k == 'i': v = rng.choice([0, 1, -1, 7, rng.randrange(-2**31, 2**31), 2**31 - 1, -2**31]); return str(v), v & 0xffffffff
        v = rng.choice([0.0, -0.0, 1.5, rng.uniform(-10, 10), rng.uniform(-1, 1) * 10.0 ** rng.randrange(-30, 30), float('inf'), float('-inf')])
        if k == 'f': v = struct.unpack('f', struct.pack('f', v))[0]
        b = struct.unpack('I', struct.pack('f', v))[0] if k == 'f' else struct.unpack('Q', struct.pack('d', v))[0]
        if v in (float('inf'), float('-inf')): t = rng.choice(['inf', 'Inf'] if v > 0 else ['-inf'])
        else: t = repr(v) if rng.random() < .6 or v == 0 else v.hex()
        return t, b
    def bitsof(k, v): return struct.unpack('I', struct.pack('f', v))[0] if k == 'f' else struct.unpack('Q', struct.pack('d', v))[0] if k == 'd' else int(v) & 0xffffffff
    def one(job):
        n, words, ins, outs, res = job
        log = tempfile.mktemp(dir=SCR)
        rc, o, e = sh([exe, 'eval', 'musl', n] + words, SCR, {'LEV': log, 'LEVR': ' '.join('%x' % x for x in res)}, 60)
        ev = open(log).read().split('\n')[:-1] if os.path.exists(log) else []
        if ev: os.remove(log)
        count('util_runs'); count('util_events', len(ev)); case(('util eval musl', n, tuple(words)))
        if n in NONE:
            check(rc not in (0, 'timeout') and not ev, f'util eval musl {n}: musl has no such function', lambda: f'exit {rc} {o} {ev}'); return
        src = ALIAS.get(n, n); want = ('x86_64/' if src in ARCHF and src not in ('fma', 'fmaf') else '') + src
        a, r = TAB[n]
        ok = rc == 0 and len(ev) == 1 and ev[0].split()[0] == want
        if ok:
            got = [int(x, 16) for x in ev[0].split()[1:]]
            ok = all(got[j] & width(k) == ins[j] for j, k in enumerate(a) if k in 'dfi')
        if not check(ok, f'util eval musl {n} {" ".join(words)}', lambda: f'exit {rc}, musl reports {ev}, expected {want} {[hex(x) for x in ins if x is not None]}; {o.strip()} {e.strip()[-200:]}'): return
        # the printed result: decimal, then hexadecimal
        m = re.fullmatch(r'\((.*)\) \((.*)\)\n?', o) or re.fullmatch(r'(\S+) (\S+)\n?', o)
        half = [x.split(', ') for x in m.groups()] if m else [[], []]
        exp = outs
        def val(k, t, hexa):
            try: return (int(t, 16 if hexa else 10) & 0xffffffff) if k == 'i' else bitsof(k, float.fromhex(t) if '0x' in t else float(t))
            except (ValueError, OverflowError, struct.error): return None
        good = all(len(h) == len(exp) and all(val(k, t, j) == v for (k, v), t in zip(exp, h)) for j, h in enumerate(half))
        check(good, f'util eval musl {n}: the printed result is not what musl returned', lambda: f'{o.strip()} for {[(k, hex(v)) for k, v in exp]}')
    for n in names + NONE:
        for rep in range(2 if not BIG else 60):
            a, r = TAB[n] if n in TAB else TAB[{'f': 'fmaxf'}.get(n[-1], 'fmax')] if 'm' == n[1] else ('d' if n[-1] == 'n' else 'f', 'd')
            words, ins, outs, res = [], [], [], [0] * 4
            for j, k in enumerate(a):
                if k in 'dfi':
                    t, b = num(k); words.append(t); ins.append(b)
                else: ins.append(None)
            rs = ([(0, r)] if r != 'v' else []) + [(j + 1, k.lower()) for j, k in enumerate(a) if k in 'DFI']
            for j, k in rs:
                v = rng.randrange(-1000, 1000) if k == 'i' else rng.choice([0.5, -0.0, 3.25, 1e10, -1.75, rng.randrange(-4000, 4000) / 8, float('inf')])
                res[j] = bitsof(k, v); outs.append((k, res[j]))
            jobs.append((n, words, ins, outs, res))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))

# ---- faults in the sources ------------------------------------------------------------------
def faults(R):
    M = f'{R}/crates/musl-math-sys/musl/src/math'; d = f'{SCR}/h'; env = {'CARGO_TARGET_DIR': f'{VERIF}/target/musl/h'}
    rng = random.Random(SEED + 5)
    victim = rng.choice(['sin', 'atan2f', 'jn', 'fmod', 'expm1', 'lgamma_r']); vf = f'{M}/{FILE.get(victim, victim)}.c'
    keep = open(vf).read()
    cb = lambda: sh(['cargo', 'build', '--offline'], d, env, 300)
    def reported():
        rc, o, e = sh([f'{VERIF}/target/musl/h/debug/h', '1', str(SEED)], SCR)
        return sorted({l.split()[1] for l in o.split('\n') if l.startswith('BAD ')}) if rc == 0 else f'exit {rc}'
    stray = rng.choice(['ldexp_helper', 'fputs', 'sinl_fast', 'memory', 'log_table'])
    steps = [
        (f'{victim} calls {stray}, which is not in musl', lambda: open(vf, 'w').write(keep.replace('union lev in_', f'extern void {stray}(void); {stray}(); union lev in_', 1)), None),
        ('the source is restored', lambda: open(vf, 'w').write(keep), []),
        (f'a source defines {stray} besides its own function', lambda: open(f'{M}/zz_extra.c', 'w').write(f'double zz_extra(double x) {{ return x; }}\nint {stray}(void) {{ return 1; }}\n'), None),
        ('the source is removed', lambda: os.remove(f'{M}/zz_extra.c'), []),
        ('another version of musl', lambda: open(vf, 'w').write(keep.replace('__le_event("', '__le_event("v2 ')), sorted(n for n in TAB if FILE.get(ALIAS.get(n, n), ALIAS.get(n, n)) == FILE.get(victim, victim))),
        ('the first version again', lambda: open(vf, 'w').write(keep), []),
        ('the submodule is missing', lambda: os.rename(f'{M}', f'{M}.off'), None),
        ('the submodule is there again', lambda: os.rename(f'{M}.off', f'{M}'), []),
    ]
    for what, act, want in steps:
        act(); time.sleep(0.02)
        rc, o, e = cb(); count('builds_after_faults'); case(('fault', what))
        if want is None: check(rc not in (0, 'timeout'), f'the build succeeds although {what}' if 'missing' not in what else 'the build succeeds without musl', e[-300:])
        elif check(rc == 0, f'the build fails after: {what}', e[-600:]):
            got = reported(); check(got == want, f'after: {what}', f'functions that run something else than before: {got}, expected {want}')

def main():
    R = f'{VERIF}/target/musl/r'
    if os.path.isdir(R): shutil.rmtree(R)
    copy(R)
    # a stable place keeps the build directory valid; the tree is written anew
    tree(f'{R}/crates/musl-math-sys/musl', random.Random(SEED))
    bindings(R)
    if not VIOL: util(R)
    if not VIOL: faults(R)

try: main()
finally: shutil.rmtree(SCR, ignore_errors=True)
groups = {}
for what, d in VIOL: groups.setdefault(what, []).append(d)
n = sum(COUNT.get(k, 0) for k in ('binding_calls', 'util_runs', 'calls_that_must_not_reach_musl', 'builds_after_faults'))
ev = {'property': 'C31', 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'exploration',
      'coverage': {'evaluations': n, 'distinct_nontrivial': COUNT.get('binding_calls', 0) + len(SEEN), 'rule': 'one case is one call of a binding with its own random arguments and results, one command line of util, or one fault in the sources; each is judged by the events that the stand-in for musl reported', 'samples': SAMPLES, 'observed': COUNT, 'inconclusive': INC, 'known_findings_seen': []},
      'wall_s': round(time.time() - T0, 2), 'violations': len(groups)}
os.makedirs(f'{VERIF}/evidence', exist_ok=True); json.dump(ev, open(f'{VERIF}/evidence/C31.json', 'w'), indent=1)
if groups:
    os.makedirs(f'{VERIF}/replays', exist_ok=True); rp = f'{VERIF}/replays/C31.txt'
    with open(rp, 'w') as f:
        for k, v in groups.items():
            f.write(f'{k} ({len(v)} cases)\n' + ''.join(f'  {x}\n' for x in v[:5]))
            print(f'{k} ({len(v)} cases): {v[0][:500]}')
    print(f'VIOLATION property=C31 replay={rp}'); sys.exit(1)
if INC:
    print('no verdict:', *INC[:3], sep='\n'); sys.exit(3)
print(f"C31: {n} calls, {COUNT.get('events', 0) + COUNT.get('util_events', 0)} reported events, 0 violations, {ev['wall_s']} s; {COUNT}")
