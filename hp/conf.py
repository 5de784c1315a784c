#!/usr/bin/env python3
"""C30: the build configuration. Features, target and environment select exactly what they say.

1. The real build scripts run in the environments that cargo would give them for every target the compiler knows;
   what they emit is judged by a model.
2. libm is built with the stable and with the nightly toolchain and many sets of features; a probe calls every
   function: results must be the same everywhere, and single-stepping shows whether architecture-specific
   instructions are executed.
3. Histories of builds in one directory: each build must be as if it were the first.
4. The profiles that CI uses have the checks or the optimization they promise: compiler calls are recorded."""
import json, os, random, re, shutil, subprocess as sp, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import spawn

HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); REPO = os.environ.get('C30_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1')); BIG = TIER == 'thorough'
T0 = time.time(); LOCK = threading.Lock()
os.makedirs(f'{VERIF}/target/conf', exist_ok=True)
SCR = tempfile.mkdtemp(prefix='c30.', dir=f'{VERIF}/target')
VIOL, INC, COUNT, SEEN, SAMPLES, FACTS = [], [], {}, set(), [], {}
def count(k, n=1):
    with LOCK: COUNT[k] = COUNT.get(k, 0) + n
def case(x):
    with LOCK:
        if x in SEEN: return
        SEEN.add(x)
        if len(SAMPLES) < 12 and len(SEEN) % 4001 == 1: SAMPLES.append(str(x)[:300])
def check(ok, what, detail):
    if not ok:
        with LOCK: VIOL.append((what, detail() if callable(detail) else detail))
    return ok
NIGHTLY = os.environ.get('RUSTUP_TOOLCHAIN', 'nightly-2025-04-20')
ENV = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'RUSTUP_HOME', 'CARGO_HOME')}
ENV.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=NIGHTLY, LC_ALL='C.UTF-8')
def sh(cmd, cwd, env={}, t=600):
    try:
        r = sp.run(cmd, cwd=cwd, env={**ENV, **env}, stdin=sp.DEVNULL, stdout=sp.PIPE, stderr=sp.PIPE, text=True, timeout=t)
        return r.returncode, r.stdout, r.stderr
    except sp.TimeoutExpired: return 'timeout', '', ''

# ---- 1. build scripts -----------------------------------------------------------------------
def targets():
    rc, o, e = sh(['rustc', '--print', 'target-list'], SCR)
    names = o.split()
    def one(t):
        rc, o, e = sh(['rustc', '--print', 'cfg', '--target', t], SCR)
        if rc: return None
        d = {}
        for l in o.split('\n'):
            m = re.fullmatch(r'(\w+)(?:="(.*)")?', l)
            if m: d.setdefault(m.group(1), []).append(m.group(2))
        return t, d
    with ThreadPoolExecutor(8) as ex: return [x for x in ex.map(one, names) if x]
NO16 = {'arm64ec', 's390x', 'csky', 'hexagon', 'loongarch64', 'mips', 'mips64', 'mips32r6', 'mips64r6', 'powerpc', 'powerpc64', 'sparc', 'sparc64', 'wasm32', 'wasm64'}
NO128 = {'amdgpu', 'arm64ec', 'mips64', 'mips64r6', 'nvptx64', 'sparc'}
def model(crate, feats, d, env):
    w = set()
    arch = d['target_arch'][0]
    if crate != 'libm-test':
        if 'unstable-intrinsics' in feats and 'force-soft-floats' not in feats: w.add('intrinsics_enabled')
        if 'arch' in feats and 'force-soft-floats' not in feats: w.add('arch_enabled')
    if env['OPT_LEVEL'] not in ('0', '1'): w.add('optimizations_enabled')
    if arch == 'x86' and 'sse' not in d.get('target_feature', []): w.add('x86_no_sse')
    if 'unstable-float' in feats and 'CARGO_FEATURE_NO_F16_F128' not in env:
        if arch not in NO16: w.add('f16_enabled')
        if arch not in NO128 and not (arch == 'powerpc64' and d['target_os'][0] == 'aix'): w.add('f128_enabled')
    if crate == 'libm' and 'ENSURE_NO_PANIC' in env: w.add('assert_no_panic')
    return w
ALL = {'libm': ['arch', 'unstable-intrinsics', 'unstable-float', 'force-soft-floats'], 'crates/libm-test': ['unstable-float'], 'crates/util': ['unstable-float'], 'crates/compiler-builtins-smoke-test': ['arch', 'compiler-builtins', 'unstable-float']}
MORE = {'libm': ['unstable', 'unstable-public-internals', 'default'], 'crates/libm-test': ['default', 'build-mpfr'], 'crates/util': ['default'], 'crates/compiler-builtins-smoke-test': ['default']}
def scripts_worker(job):
    crate, mask, tg = job
    R = random.Random(f'{SEED}/{crate}/{mask}')
    feats = [f for k, f in enumerate(ALL[crate]) if mask >> k & 1]
    short = os.path.basename(crate)
    exe = f'{SCR}/bs-{short}-{mask}'
    ed = re.search(r'^edition = "(\d+)"', open(f'{REPO}/{crate}/Cargo.toml').read(), re.M)
    rc, o, e = sh(['rustc', '--edition', ed.group(1) if ed else '2015', '--crate-name', 'build_script_build', '-Awarnings', f'{REPO}/{crate}/build.rs', '-o', exe] + [x for f in feats for x in ('--cfg', f'feature="{f}"')], SCR)
    if rc: count('build scripts not judged (they do not compile alone)'); return
    out = f'{SCR}/out-{short}-{mask}'; os.makedirs(out)
    for t, d in tg if BIG or crate == 'libm' else R.sample(tg, 60):
        for rep in range(3 if BIG else 1):
            env = {'PATH': '/usr/bin:/bin', 'TARGET': t, 'HOST': 'x86_64-unknown-linux-gnu', 'OUT_DIR': out, 'CARGO_MANIFEST_DIR': f'{REPO}/{crate}', 'OPT_LEVEL': R.choice(['0', '1', '2', '3', 's', 'z']), 'PROFILE': 'debug', 'DEBUG': 'true', 'NUM_JOBS': '1', 'CARGO_ENCODED_RUSTFLAGS': ''}
            for k, v in d.items():
                env['CARGO_CFG_' + k.upper()] = ','.join(x for x in v if x is not None)
            more = [f for f in MORE[crate] if R.random() < 0.3]
            for f in feats + more: env['CARGO_FEATURE_' + f.upper().replace('-', '_')] = '1'
            if R.random() < 0.3: env['ENSURE_NO_PANIC'] = R.choice(['1', '', '0'])
            if R.random() < 0.1: env['CARGO_FEATURE_NO_F16_F128'] = '1'
            r = sp.run([exe], cwd=f'{REPO}/{crate}', env=env, stdin=sp.DEVNULL, stdout=sp.PIPE, stderr=sp.PIPE, text=True)
            lines = [m.groups() for m in re.finditer(r'^cargo::?([\w-]+)=(.*)$', r.stdout, re.M)]
            got = {v for k, v in lines if k == 'rustc-cfg'}
            want = model(short, feats, d, env)
            who = lambda: f"{crate}, features {feats + more}, target {t}, OPT_LEVEL {env['OPT_LEVEL']}, ENSURE_NO_PANIC {env.get('ENSURE_NO_PANIC')!r}, NO_F16_F128 {'CARGO_FEATURE_NO_F16_F128' in env}"
            count('runs of build scripts'); case((crate, tuple(feats), t, env['OPT_LEVEL'], 'ENSURE_NO_PANIC' in env))
            if not check(r.returncode == 0, 'a build script fails', lambda: f'{who()}: {r.stderr[-300:]}'): continue
            # configuration that the model does not know is not judged
            known = {'intrinsics_enabled', 'arch_enabled', 'optimizations_enabled', 'x86_no_sse', 'f16_enabled', 'f128_enabled', 'assert_no_panic'}
            check(got & known == want, 'a build script configures wrongly', lambda: f'{who()}: emits {sorted(got & known)}, expected {sorted(want)}')
            for w in want: count(f'{w} judged on')
            declared = ' '.join(v for k, v in lines if k == 'rustc-check-cfg')
            for c in got: check(re.search(rf'\b{re.escape(c.split("=")[0])}\b', declared), 'a build script does not declare its configuration', lambda: f'{who()}: {c}')
            envs = dict(v.split('=', 1) for k, v in lines if k == 'rustc-env')
            if 'CFG_OPT_LEVEL' in envs: check(envs['CFG_OPT_LEVEL'] == env['OPT_LEVEL'], 'the log of tests is told another optimization level', lambda: f'{who()}: {envs["CFG_OPT_LEVEL"]}')
            if 'CFG_CARGO_FEATURES' in envs:
                have = set(re.findall(r'"([^"]*)"', envs['CFG_CARGO_FEATURES']))
                check(have == {k[14:].lower().replace('_', '-') for k in env if k.startswith('CARGO_FEATURE_')}, 'the log of tests is told other features', lambda: f'{who()}: {sorted(have)}')
            if 'CFG_TARGET_FEATURES' in envs:
                have = set(re.findall(r'"([^"]*)"', envs['CFG_TARGET_FEATURES'])) - {''}
                check(have == {x for x in d.get('target_feature', []) if x}, 'the log of tests is told other target features', lambda: f'{who()}: {sorted(have)}')
    os.remove(exe)

# ---- 2. sets of features --------------------------------------------------------------------
SETS = [('stable', s) for s in ('', 'arch', 'soft', 'arch,soft', 'arch,internals')] + [('nightly', s) for s in ('', 'arch', 'soft', 'float', 'arch,float', 'arch,float,internals', 'intrinsics', 'arch,intrinsics', 'arch,intrinsics,soft', 'unstable', 'arch,unstable', 'arch,unstable,soft', 'float,soft')]
def probe_worker(job):
    tc, s = job
    td = f'{VERIF}/target/conf/{tc}-{s.replace(",", "-") or "none"}'
    env = {'RUSTUP_TOOLCHAIN': {'stable': 'stable', 'nightly': NIGHTLY}[tc], 'CARGO_TARGET_DIR': td}
    rc, o, e = sh(['cargo', 'build', '--release', '--locked', '--quiet', '--features', s], f'{HERE}/probe', env)
    who = f'{tc} toolchain, features {s or "none"}'
    if rc: return job, None, e
    rc, o, e = sh([f'{td}/release/probe'], SCR, {'PROBE_N': str(400000 if BIG else 20000), 'VERIF_SEED': str(SEED)}, t=1800 if BIG else 400)
    if rc: return job, None, f'{who}: the probe exits {rc}: {e[-300:]}'
    count('builds probed'); r = {}
    for l in o.split('\n'):
        w = l.split()
        if w: r[w[0]] = (int(w[1]), [int(x) for x in w[2:5]], int(w[5]), w[6:])
    return job, r, f'{td}/release/probe'
def probes(res):
    ok = [x for x in res if x[1] is not None]
    if not ok: INC.append('no build can be probed: ' + res[0][2][-1000:]); return
    ref = next((x for x in ok if x[0] == ('nightly', 'arch')), ok[0])
    for job, r, e in res:
        who = f'{job[0]} toolchain, features {job[1] or "none"}'
        if r is None:
            check(False, 'libm does not build with some features', f'{who}: {re.sub(r"warning:.*?(?=error)", "", e, flags=re.S)[:900]}'); continue
        fs = set(job[1].split(','))
        on = 'arch' in fs and 'soft' not in fs
        for n, (steps, hw, k, h) in r.items():
            count('functions stepped'); count('instructions stepped', steps); count('calls compared', 20000); case((job, n))
            if on and n in ('sqrt', 'sqrtf'): check(hw[0] >= k, 'the arch feature does not select the hardware square root', f'{who}: {n} executes {hw[0]} in {k} calls'); count('hardware square roots seen', hw[0])
            if 'soft' in fs or ('arch' not in fs and not fs & {'intrinsics', 'unstable'}): check(not any(hw), 'an instruction of architecture-specific routines is executed although they are not enabled', f'{who}: {n} in {k} calls: {hw[0]} square roots, {hw[1]} roundings, {hw[2]} multiply-adds'); count('functions that must not use such instructions')
            b = next((i for i, (x, y) in enumerate(zip(h, ref[1][n][3])) if x != y), None)
            if b is not None:
                N = 400000 if BIG else 20000
                f = lambda p: sh([p, n, str(b * N // 16), str((b + 1) * N // 16)], SCR, {'VERIF_SEED': str(SEED)})[1].split('\n')
                d = next(((x, y) for x, y in zip(f(e), f(ref[2])) if x != y), ('?', '?'))
                check(False, 'results depend on the features', f'{who}: {n}, call {d[0]}; with {ref[0][0]}, {ref[0][1]}: {d[1]}')

# ---- 3. histories of builds, 4. profiles ----------------------------------------------------
WRAP = '''#!/bin/sh
printf '%%s\\t' "$@" >> %s/rustc.$VWRAP; echo >> %s/rustc.$VWRAP
exec "$@"
'''
def tree(to):
    """A copy of libm as the only package, with the workspace's profiles."""
    os.makedirs(to)
    for f in ('build.rs', 'configure.rs', 'Cargo.toml'): shutil.copy(f'{REPO}/libm/{f}', f'{to}/{f}')
    shutil.copytree(f'{REPO}/libm/src', f'{to}/src')
    for f in ('README.md',):
        if os.path.exists(f'{REPO}/libm/{f}'): shutil.copy(f'{REPO}/libm/{f}', to)
    ws = open(f'{REPO}/Cargo.toml').read()
    prof = ''.join(m.group(0) + '\n' for m in re.finditer(r'^\[profile\.[^\]]*\]\n(?:(?!\[).*\n?)*', ws, re.M))
    t = re.sub(r'^\[dev-dependencies\]\n(?:(?!\[).*\n?)*', '', open(f'{to}/Cargo.toml').read(), flags=re.M)
    open(f'{to}/Cargo.toml', 'w').write(t + '\n[workspace]\n' + prof)
def cfgs(o):
    """The configuration that the last build gave to the crate."""
    for l in o.split('\n'):
        if not l.startswith('{'): continue
        j = json.loads(l)
        if j.get('reason') == 'build-script-executed': return set(j['cfgs'])
def history_worker(w):
    R = random.Random(f'{SEED}/{w}/history')
    root = f'{SCR}/h{w}'; tree(root)
    env = {'CARGO_TARGET_DIR': root + '/t'}
    spawn.LOCK.acquire(); open(f'{SCR}/wrap', 'w').write(WRAP % (SCR, SCR)); spawn.LOCK.release(); os.chmod(f'{SCR}/wrap', 0o755)
    pool = [([f for f in ALL['libm'] if R.random() < 0.4], R.choice(['dev', 'release', 'release-checked'])) for _ in range(2)]
    for i in range(40 if BIG else 8):
        fs, prof = R.choice(pool)
        if BIG and R.random() < 0.1: pool[R.randrange(2)] = ([f for f in ALL['libm'] if R.random() < 0.4], R.choice(['dev', 'release', 'release-checked']))
        np = R.random() < 0.5
        e = dict(env)
        if np: e['ENSURE_NO_PANIC'] = R.choice(['1', 'yes'])
        rc, o, er = sh(['cargo', 'check', '--quiet', '--message-format=json', '--no-default-features', '--features', ','.join(fs), '--profile', prof], root, e)
        who = f'build {i + 1} in the same directory: features {fs}, profile {prof}, ENSURE_NO_PANIC {"set" if np else "unset"}'
        if not check(rc == 0, 'libm does not build with some features', f'{who}: {er[-500:]}'): continue
        got = cfgs(o)
        if got is None: INC.append(f'{who}: cargo reports no configuration'); continue
        d = {'target_arch': ['x86_64'], 'target_os': ['linux'], 'target_feature': ['sse', 'sse2']}
        want = model('libm', fs, d, {'OPT_LEVEL': {'dev': '0'}.get(prof, '3'), **({'ENSURE_NO_PANIC': '1'} if np else {})})
        count('builds in histories'); case(('history', tuple(fs), prof, np))
        known = {'intrinsics_enabled', 'arch_enabled', 'optimizations_enabled', 'x86_no_sse', 'f16_enabled', 'f128_enabled', 'assert_no_panic'}
        check(got & known == want, 'a build is configured by an earlier one' if i else 'a build is configured wrongly', lambda: f'{who}: {sorted(got & known)}, expected {sorted(want)}')
        if R.random() < 0.5: os.utime(f'{root}/src/lib.rs')
def profile_worker(_):
    root = f'{SCR}/p'; tree(root); spawn.LOCK.acquire(); open(f'{SCR}/wrapp', 'w').write(WRAP % (SCR, SCR)); spawn.LOCK.release(); os.chmod(f'{SCR}/wrapp', 0o755)
    for prof, want in (('release-checked', {'opt-level': '3', 'debug-assertions': 'on', 'overflow-checks': 'on'}), ('release-opt', {'opt-level': '3', 'codegen-units': '1', 'lto': 'fat'}), ('release', {'opt-level': '3'})):
        rc, o, e = sh(['cargo', 'build', '--quiet', '--profile', prof], root, {'CARGO_TARGET_DIR': root + '/t', 'RUSTC_WRAPPER': f'{SCR}/wrapp', 'VWRAP': prof})
        if not check(rc == 0, 'libm does not build in a profile', f'{prof}: {e[-500:]}'): continue
        ls = [l for l in open(f'{SCR}/rustc.{prof}') if '\t--crate-name\tlibm\t' in l]
        if not ls: INC.append(f'{prof}: no compiler call recorded'); continue
        c = dict(re.findall(r'\t-C\t?([\w-]+)=?([^\t]*)', ls[-1]))
        count('profiles judged'); case(('profile', prof))
        for k, v in want.items():
            got = c.get(k)
            if k == 'lto' and got is None and 'linker-plugin-lto' in c: got = 'fat'
            if k == 'overflow-checks' and got is None: got = c.get('debug-assertions')
            check(got in (v, {'on': 'yes'}.get(v, v)), 'a profile does not build what it promises', f'{prof}: {k} is {got}, expected {v}')
        if prof == 'release': check(c.get('debug-assertions', 'off') == 'off' and c.get('overflow-checks', 'off') == 'off', 'a profile does not build what it promises', f'{prof}: {c}')

def guard(f, *a):
    try: return f(*a)
    except Exception as e:
        import traceback
        with LOCK: INC.append(f'{f.__name__}: {e!r} {traceback.format_exc()[-600:]}')
tg = targets()
if len(tg) < 50: INC.append(f'only {len(tg)} targets known')
FACTS['targets'] = len(tg); FACTS['architectures'] = len({d['target_arch'][0] for _, d in tg})
with ThreadPoolExecutor(8) as ex:
    ps = [ex.submit(guard, probe_worker, s) for s in SETS]
    hs = [ex.submit(guard, history_worker, w) for w in range(4)] + [ex.submit(guard, profile_worker, 0)]
    ss = [ex.submit(guard, scripts_worker, (c, m, tg)) for c in ALL for m in range(1 << len(ALL[c]))]
    res = [x for x in (p.result() for p in ps) if x]
    for x in hs + ss: x.result()
guard(probes, res)
shutil.rmtree(SCR, ignore_errors=True)

groups = {}
for what, d in VIOL: groups.setdefault(what, []).append(d)
n = COUNT.get('runs of build scripts', 0) + COUNT.get('functions stepped', 0) + COUNT.get('builds in histories', 0) + COUNT.get('profiles judged', 0)
ev = {'property': 'C30', 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'exploration',
      'coverage': {'evaluations': n, 'distinct_nontrivial': len(SEEN), 'rule': 'one case is a distinct environment of a build script, a function in one build, or a build in a history', 'samples': SAMPLES, 'observed': {**COUNT, **FACTS}, 'inconclusive': INC, 'known_findings_seen': []},
      'wall_s': round(time.time() - T0, 2), 'violations': len(groups)}
os.makedirs(f'{VERIF}/evidence', exist_ok=True); json.dump(ev, open(f'{VERIF}/evidence/C30.json', 'w'), indent=1)
if groups:
    os.makedirs(f'{VERIF}/replays', exist_ok=True); rp = f'{VERIF}/replays/C30.txt'
    with open(rp, 'w') as f:
        for k, v in groups.items():
            f.write(f'{k} ({len(v)} cases)\n' + ''.join(f'  {x}\n' for x in v[:5]))
            print(f'{k} ({len(v)} cases): {v[0][:700]}')
    print(f'VIOLATION property=C30 replay={rp}'); sys.exit(1)
if INC:
    print('no verdict:', *INC[:3], sep='\n'); sys.exit(3)
print(f"C30: {n} observations, {len(SEEN)} distinct cases, 0 violations, {ev['wall_s']} s; {COUNT}")
