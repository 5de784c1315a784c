#!/usr/bin/env python3
"""C29: the scripts that run what CI tests (ci/run.sh, ci/run-docker.sh, ci/bench-icount.sh).

Runs the real scripts in scratch copies with recording stand-ins for cargo, rustc, uname, docker and gh, without and
with faults at every call, and judges the recorded calls, the exit status and the written files."""
import json, os, random, re, shutil, subprocess as sp, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import spawn

HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); REPO = os.environ.get('C29_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1')); BIG = TIER == 'thorough'
T0 = time.time(); LOCK = threading.Lock()
SCR = tempfile.mkdtemp(prefix='c29.', dir=os.path.join(VERIF, 'target'))
VIOL, INC, COUNT, SEEN, SAMPLES = [], [], {}, set(), []
def count(k, n=1):
    with LOCK: COUNT[k] = COUNT.get(k, 0) + n
def case(x):
    with LOCK:
        SEEN.add(x)
        if len(SAMPLES) < 12 and len(SEEN) % 41 == 1: SAMPLES.append(str(x)[:300])
def check(ok, what, detail):
    if not ok:
        with LOCK: VIOL.append((what, detail() if callable(detail) else detail))
    return ok

# ---- stand-ins ------------------------------------------------------------------------------
STUB = '''#!%s
import json, os, shutil, subprocess, sys
d = os.environ.get("VSTUB") or %r + "/" + open(".vstub").read()
name = os.path.basename(sys.argv[0]); a = sys.argv[1:]
c = json.load(open(d + "/conf"))
log = d + "/calls"
n = sum(1 for _ in open(log)) if os.path.exists(log) else 0
with open(log, "a") as f:
    f.write(json.dumps({"prog": name, "args": a, "cwd": os.getcwd(), "env": {k: v for k, v in os.environ.items() if k in c["env"]}}) + "\\n")
if n in c.get("fail", {}) or str(n) in c.get("fail", {}): sys.exit(c["fail"][str(n)])
if name == "uname": print(c["uname"]); sys.exit(0)
if name == "rustc":
    if "sysroot" in a: print("/the/sysroot")
    else: print("rustc 1.88.0-nightly (aaaaaaaaa 2025-04-20)\\nbinary: rustc\\ncommit-hash: unknown\\ncommit-date: unknown\\nhost: " + c["host"] + "\\nrelease: 1.88.0-nightly\\nLLVM version: 20.1.2")
    sys.exit(0)
if name == "gh":
    if a[:2] == ["pr", "view"]:
        if a[2:3] != [c.get("pr")]: sys.exit(1)
        sys.stdout.write(c["view"]); sys.exit(0)
    if a[:2] == ["run", "list"]: sys.stdout.write(c.get("list", "")); sys.exit(c.get("list_rc", 0))
    if a[:2] == ["run", "download"]:
        for dst, src in c.get("download", []):
            os.makedirs(os.path.dirname(dst), exist_ok=True); shutil.copy(src, dst)
        sys.exit(0)
    sys.exit(2)
if name == "docker" and a[:1] == ["run"]:
    # runs the command of the container in a copy of the mounted tree, with the environment that was asked for
    env, k, opts = {"PATH": os.environ["PATH"]}, 1, {"-v": []}
    while k < len(a) and a[k].startswith("-"):
        o = a[k]
        if o in ("--rm", "--init", "-i", "-t", "-it"): k += 1; continue
        if "=" in o and o.startswith("--"): k += 1; continue
        v = a[k + 1]; k += 2
        if o in ("-e", "--env"):
            if "=" in v: env[v.split("=", 1)[0]] = v.split("=", 1)[1]
            elif v in os.environ: env[v] = os.environ[v]
        elif o in ("-v", "--volume"): opts["-v"].append(v)
    env["VSTUB"] = d
    if not c.get("inner"): sys.exit(0)
    sys.exit(subprocess.run(a[k + 1:], env=env, cwd=c["inner"]).returncode)
if name == "cargo" and a[:1] == ["bench"] and "summaries" in c:
    home = None
    for k, x in enumerate(a):
        if x == "--home": home = a[k + 1]
        elif x.startswith("--home="): home = x[7:]
    base = next((x.split("=", 1)[1] for x in a if x.startswith("--save-baseline=")), "none")
    with open(d + "/seen", "a") as f: f.write(json.dumps([base, sorted(os.path.relpath(os.path.join(p, q), home) for p, _, fs in os.walk(home) for q in fs) if home else None]) + "\\n")
    if c.get("fail_base") == base: sys.exit(1)
    if home:
        for nm, s in c["summaries"].get(base, {}).items():
            os.makedirs(home + "/" + nm, exist_ok=True)
            json.dump(s, open(home + "/" + nm + "/summary.json", "w")); open(home + "/" + nm + "/callgrind." + base, "w").write(c["tag"])
sys.exit(0)
''' % (sys.executable, SCR)
os.makedirs(f'{SCR}/bin'); os.makedirs(f'{SCR}/nx')
for n in ('cargo', 'rustc', 'uname', 'docker', 'gh'):
    open(f'{SCR}/bin/{n}', 'w').write(STUB); os.chmod(f'{SCR}/bin/{n}', 0o755)
shutil.copy(f'{SCR}/bin/cargo', f'{SCR}/nx/cargo-nextest')
SYS = ':'.join(d for d in ('/usr/bin', '/bin') if not os.path.exists(f'{d}/cargo-nextest'))
WATCH = ['ENSURE_NO_PANIC', 'RUSTFLAGS', 'CI', 'CARGO_TERM_COLOR', 'CARGO_HOME', 'CARGO_TARGET_DIR', 'EMULATED', 'HOME', 'PATH', 'BUILD_ONLY', 'RUST_BACKTRACE']
def run(cmd, cwd, d, conf, env={}, nextest=False, t=120):
    os.makedirs(d, exist_ok=True); json.dump({'env': WATCH, 'host': 'x86_64-unknown-linux-gnu', 'uname': 'x86_64', **conf}, open(d + '/conf', 'w'))
    e = {'PATH': f'{SCR}/bin:' + (f'{SCR}/nx:' if nextest else '') + SYS, 'HOME': d, 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'VSTUB': d, 'CARGO_TARGET_DIR': d + '/t', **env}
    try:
        r = sp.run(cmd, cwd=cwd, env=e, stdin=sp.DEVNULL, stdout=sp.PIPE, stderr=sp.PIPE, text=True, timeout=t); rc, o, er = r.returncode, r.stdout, r.stderr
    except sp.TimeoutExpired: rc, o, er = 'timeout', '', ''
    c = [json.loads(l) for l in open(d + '/calls')] if os.path.exists(d + '/calls') else []
    return rc, o, er, c

class Cargo:
    """What a call of cargo asks for."""
    def __init__(s, call):
        a = list(call['args']); s.env = call['env']; s.raw = ' '.join(a)
        s.rest = []
        if '--' in a: k = a.index('--'); a, s.rest = a[:k], a[k + 1:]
        s.sub = a.pop(0) if a else ''
        s.sub = {'t': 'test', 'b': 'build', 'c': 'check'}.get(s.sub, s.sub)
        s.nextest = s.sub == 'nextest'
        if s.nextest: s.sub = 'test' if a[:1] in (['run'], ['r']) else 'nextest-other'; a.pop(0)
        s.features, s.packages, s.exclude, s.flags, s.named, s.target, s.profile, s.pos = set(), [], [], set(), [], None, 'dev', []
        k = 0
        while k < len(a):
            x = a[k]; k += 1
            m = re.fullmatch(r'(--[a-z-]+)=(.*)', x, re.S)
            o, v = (m.group(1), m.group(2)) if m else (x, None)
            if o in ('--features', '-F', '--package', '-p', '--exclude', '--target', '--profile', '--cargo-profile', '--bench', '--test', '--bin', '--example', '--config-file', '--manifest-path', '-j', '--jobs', '--max-fail', '--target-dir', '--message-format', '--color'):
                if v is None: v = a[k] if k < len(a) else ''; k += 1
                if o in ('--features', '-F'): s.features |= set(re.split(r'[ ,]+', v)) - {''}
                elif o in ('--package', '-p'): s.packages.append(v)
                elif o == '--exclude': s.exclude.append(v)
                elif o == '--target': s.target = v
                elif o == '--profile' and not s.nextest or o == '--cargo-profile': s.profile = v
                elif o in ('--bench', '--test', '--bin', '--example'): s.named.append((o, v))
            elif o in ('--release', '-r'): s.profile = 'release'
            elif o == '--workspace': s.flags.add('--all')
            elif o.startswith('-'): s.flags.add(o)
            else: s.pos.append(x)
        if 'unstable' in s.features: s.features |= {'unstable-intrinsics', 'unstable-float'}

# ---- run.sh ---------------------------------------------------------------------------------
DOCKER = sorted(os.listdir(f'{REPO}/ci/docker'))
OTHERS = ['aarch64-apple-darwin', 'aarch64-pc-windows-msvc', 'x86_64-apple-darwin', 'wasm32-unknown-unknown', 'i686-pc-windows-msvc', 'x86_64-pc-windows-msvc', 'i686-pc-windows-gnu', 'x86_64-pc-windows-gnu', 'wasm32-wasip1', 'wasm64-unknown-unknown',
          'x86_64-unknown-linux-musl', 'aarch64-unknown-linux-musl', 'thumbv8m.main-none-eabi', 'i586-unknown-linux-musl', 's390x-unknown-linux-gnu']
def judge_run(T, calls, build_only, nextest, who):
    cs = [Cargo(c) for c in calls if c['prog'] == 'cargo']
    tests = [c for c in cs if c.sub == 'test' and '--doc' not in c.flags]
    runs = [c for c in cs if c.sub in ('test', 'bench')]
    W = lambda c: f'{who}: cargo {c.raw}'
    for c in cs:
        if c.sub in ('test', 'build', 'bench'): check(c.target == T, 'run.sh builds for another target', lambda: W(c))
        if c.sub in ('test', 'bench'): check('ENSURE_NO_PANIC' not in c.env, 'run.sh runs tests with no-panic', lambda: W(c))
        check(not c.pos or c.sub not in ('test', 'build', 'check', 'bench'), 'run.sh runs only some tests', lambda: W(c))
    check(any(c.sub in ('check', 'build') and 'libm' in c.packages and '--no-default-features' in c.flags for c in cs), 'run.sh does not check libm without features', who)
    if build_only:
        check(not runs, 'run.sh runs tests although it must only build', who)
        plain = [c for c in cs if c.sub == 'build' and 'libm' in c.packages and c.target == T]
        check(any('unstable-intrinsics' not in c.features for c in plain) and any('unstable-intrinsics' in c.features for c in plain), 'run.sh does not build both with and without intrinsics', who)
        return
    musl = not re.search(r'windows|wasm|thumb|powerpc64le', T)
    nomusl = re.search(r'windows-msvc|wasm|thumb', T)
    mpfr = not 'windows' in T and (re.match(r'i586|i686|x86_64', T) or re.match(r'aarch64.*(apple|linux)', T))
    for c in tests:
        check('--all' in c.flags and not c.packages and not c.named, 'run.sh tests only a part', lambda: W(c))
        check('--no-default-features' in c.flags and {'arch', 'unstable-float'} <= c.features, 'run.sh tests without arch or unstable-float', lambda: W(c))
        check(not set(c.exclude) & {'libm', 'libm-test'}, 'run.sh leaves libm or libm-test out', lambda: W(c))
        check(('libm-test/build-musl' in c.features) == bool(musl), 'run.sh tests against musl wrongly', lambda: W(c))
        check(('musl-math-sys' in c.exclude) == bool(nomusl), 'run.sh leaves musl-math-sys out wrongly', lambda: W(c))
        check(('libm-test/build-mpfr' in c.features) == bool(mpfr), 'run.sh tests against MPFR wrongly', lambda: W(c))
        check(('gmp-mpfr-sys/force-cross' in c.features) == T.startswith('i586'), 'run.sh forces a cross build of MPFR wrongly', lambda: W(c))
        if T.endswith('windows-gnu'): check('libm-macros' in c.exclude, 'run.sh tests libm-macros on MinGW', lambda: W(c))
        check(c.nextest == nextest, 'run.sh uses the wrong test runner', lambda: W(c))
        check('--no-run' not in c.flags and not any(x in ('--skip', '--list') for x in c.rest), 'run.sh does not run the tests', lambda: W(c))
    extra = lambda c: frozenset(c.features & {'unstable-intrinsics', 'force-soft-floats'})
    did = {(c.profile, extra(c), '--benches' in c.flags) for c in tests}
    full = {(c.profile, extra(c)) for c in tests if not c.flags & {'--benches', '--lib', '--tests', '--bins', '--examples'}}
    I, S, N = frozenset({'unstable-intrinsics'}), frozenset({'force-soft-floats'}), frozenset()
    for need in [('dev', N), ('dev', I), ('release-checked', N), ('release-checked', S), ('release-checked', I)]:
        check(need in full, 'run.sh leaves out a configuration', f'{who}: profile {need[0]}, features {sorted(need[1])}')
    for p in ('dev', 'release-checked'): check(any(q == p and f >= I and b for q, f, b in did) or any(c.sub == 'bench' for c in cs), 'run.sh does not try the benchmarks', f'{who}: {p}')
    check(any(not set(c.exclude) & {'util'} for c in tests), 'run.sh never tests util', who)
    if not T.endswith('windows-gnu'): check(any('libm-macros' not in c.exclude for c in tests), 'run.sh never tests libm-macros', who)
    docs = [c for c in cs if c.sub == 'test' and '--doc' in c.flags]
    if nextest: check(any('--all' in c.flags and {'arch', 'unstable-float'} <= c.features for c in docs), 'run.sh does not run the doctests', who)
    np = [c for c in cs if 'ENSURE_NO_PANIC' in c.env]
    check(any(c.sub == 'build' and c.packages == ['libm'] and c.profile == 'release-opt' and '--tests' in c.flags and c.target == T and '--no-default-features' in c.flags and 'unstable-float' in c.features and not c.features & {'unstable-intrinsics', 'arch'} for c in np),
          'run.sh does not check that the routines cannot panic', who)
def runsh_worker(w, targets):
    root = f'{SCR}/r{w}'; os.makedirs(f'{root}/ci'); shutil.copy(f'{REPO}/ci/run.sh', f'{root}/ci/run.sh')
    R = random.Random(f'{SEED}/{w}/run'); k = 0
    for T in targets:
        for mode in ('test', 'build', 'empty'):
            for nextest in ((False, True) if mode == 'test' and not os.path.exists('/.dockerenv') else (False,)):
                for default in ((False, True) if R.random() < 0.3 else (False,)):
                    env = {'build': {'BUILD_ONLY': '1'}, 'empty': {'BUILD_ONLY': ''}, 'test': {}}[mode]
                    args = R.choice([[], ['']]) if default else [T]
                    k += 1; d = f'{root}/s{k}'
                    who = f'{T}{" as host" if default else ""}, BUILD_ONLY {env.get("BUILD_ONLY", "unset")}, {"with" if nextest else "without"} nextest'
                    rc, o, e, c = run(['./ci/run.sh', *args], root, d, {'host': T}, env, nextest)
                    count('runs of run.sh'); count('calls recorded', len(c)); case(('run', T, mode, nextest, default))
                    check(rc == 0, 'run.sh fails although nothing fails', f'{who}: exit {rc}, {e[-400:]}')
                    judge_run(T, c, mode == 'build', nextest, who)
                    shutil.rmtree(d)
                    # a fault at every call of cargo
                    if mode == 'empty' or default: continue
                    js = [j for j, x in enumerate(c) if x['prog'] == 'cargo']
                    for j in js if BIG else R.sample(js, min(4, len(js))):
                        code = R.choice([1, 100, 101, 2])
                        k += 1; d = f'{root}/s{k}'
                        rc, o, e, c2 = run(['./ci/run.sh', T], root, d, {'host': T, 'fail': {str(j): code}}, env, nextest)
                        count('faults in run.sh'); case(('fault', T, mode, nextest, j))
                        check(rc != 0, 'run.sh hides a failure', f'{who}: call {j} (cargo {" ".join(c[j]["args"])}) fails with {code}, run.sh exits {rc}')
                        check(rc != 'timeout', 'run.sh hangs', who)
                        shutil.rmtree(d)

# ---- run-docker.sh --------------------------------------------------------------------------
def docker_tree(root, ts):
    os.makedirs(f'{root}/ci/docker')
    for f in ('run.sh', 'run-docker.sh'): shutil.copy(f'{REPO}/ci/{f}', f'{root}/ci/{f}')
    for t in ts: shutil.copytree(f'{REPO}/ci/docker/{t}', f'{root}/ci/docker/{t}')
def judge_docker(T, calls, uname, root, env, who):
    """The calls that belong to one target."""
    ds = [c for c in calls if c['prog'] == 'docker']
    b = [c for c in ds if c['args'][:1] == ['build']]; r = [c for c in ds if c['args'][:1] == ['run']]
    if not check(len(b) == 1 and len(r) == 1 and ds.index(b[0]) < ds.index(r[0]), 'run-docker.sh does not build and run the image once', lambda: f'{who}: {[c["args"] for c in ds]}'): return
    a = b[0]['args']; ctx = os.path.normpath(os.path.join(b[0]['cwd'], a[-1])); tag = a[a.index('-t') + 1] if '-t' in a else None
    check(ctx == f'{root}/ci/docker/{T}', 'run-docker.sh builds the image of another target', f'{who}: {a}')
    a = r[0]['args']; envs, vols, k, work, img, user = {}, [], 1, None, None, None
    flags = set()
    while k < len(a) and a[k].startswith('-'):
        o = a[k]
        if o in ('--rm', '--init', '-i', '-t', '-it'): flags.add(o); k += 1; continue
        if o.startswith('--') and '=' in o: o, v = o.split('=', 1); k += 1
        else: v = a[k + 1]; k += 2
        if o in ('-e', '--env'):
            n, _, x = v.partition('='); envs[n] = x if '=' in v else r[0]['env'].get(n)
        elif o in ('-v', '--volume'): vols.append(v.split(':'))
        elif o in ('-w', '--workdir'): work = v
        elif o in ('-u', '--user'): user = v
    img = a[k] if k < len(a) else None
    check(tag is not None and img == tag, 'run-docker.sh runs another image than it built', f'{who}: built {tag}, ran {img}')
    check(bool(envs.get('EMULATED')) == (T.split('-')[0] != {'arm64': 'aarch64'}.get(uname, uname)), 'run-docker.sh sets EMULATED wrongly', f'{who}: {envs.get("EMULATED")!r} on {uname}')
    for n in ('CI', 'RUSTFLAGS', 'CARGO_TERM_COLOR'): check(envs.get(n) == env.get(n), 'run-docker.sh does not pass the environment', f'{who}: {n} {envs.get(n)!r}')
    check(work is not None and [root, work, 'ro'] in vols, 'run-docker.sh does not mount the tree read-only', f'{who}: {vols} {work}')
    check([f'{root}/target', envs.get('CARGO_TARGET_DIR')] in [v[:2] for v in vols], 'run-docker.sh does not mount the target directory', f'{who}: {vols} {envs}')
    check(user == f'{os.getuid()}:{os.getgid()}', 'run-docker.sh runs as another user', f'{who}: {user}')
    check('--rm' in flags, 'run-docker.sh keeps the container', who)
    inner = [c for c in calls if c['prog'] in ('cargo', 'rustc') and calls.index(c) > calls.index(r[0])]
    judge_run(T, inner, False, False, f'{who}, in the container')
    for c in inner: check('/rust/bin' in c['env'].get('PATH', '').split(':') and '/cargo/bin' in c['env'].get('PATH', '').split(':') and c['env'].get('HOME') not in (None, ''), 'run-docker.sh runs without the toolchain', f"{who}: {c['env']}")
def docker_worker(w, n):
    R = random.Random(f'{SEED}/{w}/docker')
    for i in range(n):
        root = f'{SCR}/d{w}/{i}'; alls = R.random() < 0.35
        # every other time the processor's own targets, under each of its names
        own = uname = None
        if (w + i) % 2 == 0: alls = False; uname = ['arm64', 'aarch64', 'x86_64', 'i686', 'riscv64'][(w + i) // 2 % 5]; own = R.choice([t for t in DOCKER if t.split('-')[0] == {'arm64': 'aarch64'}.get(uname, uname)] or DOCKER)
        ts = R.sample(DOCKER, R.randrange(1, 5)) if alls else DOCKER
        docker_tree(root, ts); uname = uname or R.choice(['x86_64', 'aarch64', 'arm64', 'i686', 'riscv64'])
        env = {}
        if R.random() < 0.7: env['RUSTFLAGS'] = '-Dwarnings'
        if R.random() < 0.7: env['CI'] = 'true'
        if R.random() < 0.5: env['CARGO_TERM_COLOR'] = 'always'
        T = own or R.choice(DOCKER); args = R.choice([[], ['']]) if alls else [T]
        if R.random() < 0.3: os.makedirs(f'{root}/target')
        conf = {'uname': uname, 'inner': root}
        who = f'run-docker.sh {" ".join(args)}{" of " + " ".join(sorted(ts)) if alls else ""} on {uname}'
        rc, o, e, c = run(['./ci/run-docker.sh', *args], root, root + '.s', conf, env)
        count('runs of run-docker.sh'); count('calls recorded', len(c)); case(('docker', tuple(sorted(ts)) if alls else T, uname, len(env)))
        check(rc == 0, 'run-docker.sh fails although nothing fails', f'{who}: exit {rc}, {e[-500:]}')
        check(os.path.isdir(f'{root}/target'), 'run-docker.sh does not make the target directory', who)
        want = sorted(ts) if alls else [T]
        # split at the builds of images
        at = [k for k, x in enumerate(c) if x['prog'] == 'docker' and x['args'][:1] == ['build']]
        parts = [c[a:b] for a, b in zip(at, at[1:] + [len(c)])]
        of = lambda p: os.path.basename(os.path.normpath(p[0]['args'][-1]))
        if check(sorted(map(of, parts)) == want, 'run-docker.sh runs other targets', lambda: f'{who}: {[of(p) for p in parts]}, expected {want}'):
            for p in parts: judge_docker(of(p), p, uname, root, env, who)
        js = [j for j, x in enumerate(c) if x['prog'] in ('docker', 'cargo')]
        for j in R.sample(js, min(len(js), 8 if BIG else 2)):
            code = R.choice([1, 101, 125]); shutil.rmtree(root + '.s')
            rc, o, e, c2 = run(['./ci/run-docker.sh', *args], root, root + '.s', {**conf, 'fail': {str(j): code}}, env)
            count('faults in run-docker.sh'); check(rc != 0, 'run-docker.sh hides a failure', f'{who}: {c[j]["prog"]} {" ".join(c[j]["args"])[:200]} fails with {code}, exit {rc}')
        shutil.rmtree(root); shutil.rmtree(root + '.s')

# ---- bench-icount.sh ------------------------------------------------------------------------
def bench_worker(w, n):
    R = random.Random(f'{SEED}/{w}/bench')
    for i in range(n):
        base = f'{SCR}/b{w}.{i}'; last = None
        fns = [f'libm-test/icount/icount_bench_{n}_group/{n}' for n in R.sample(['sin', 'cos', 'fma', 'pow', 'exp'], R.randrange(1, 4))]
        for step in range(3):  # a history of runs: each finds what the ones before have published
            root = f'{base}/{step}'; os.makedirs(f'{root}/ci')
            for f in ('bench-icount.sh', 'ci-util.py'): shutil.copy(f'{REPO}/ci/{f}', f'{root}/ci/{f}')
            sha = '%040x' % R.getrandbits(160); env = {'GITHUB_SHA': sha, 'GITHUB_ENV': f'{root}/env'}
            open(f'{root}/env', 'w').write('BEFORE=1\n')
            regs = {}; sums = {}
            for b in ('softfloat', 'hardfloat'):
                sums[b] = {}
                regs[b] = R.random() < 0.25
                for k, nm in enumerate(fns):
                    sums[b][nm] = {'callgrind_summary': {'callgrind_run': {'segments': [], 'total': {'regressions': [{'metric': 'Ir', 'diff_pct': 7.0, 'limit': 5.0}] if regs[b] and k == len(fns) - 1 else []}}}, 'function_name': nm.split('/')[-1], 'id': 'x'}
            conf = {'summaries': sums, 'tag': f'{w}.{i}.{step}'}
            if last: conf.update(list=json.dumps({'databaseId': 7, 'url': 'u'}), download=[[f'{last[0]}/{last[0]}.tar.xz', last[1]]])
            else: conf.update(R.choice([{'list_rc': 1}, {'list': ''}]))
            pr = allow = None
            if R.random() < 0.6:
                pr = str(R.randrange(1, 999)); allow = R.random() < 0.4; env['PR_NUMBER'] = pr
                conf.update(pr=pr, view=json.dumps({'body': R.choice(['ci: allow-regressions', 'x\nci: allow-regressions\n']) if allow else R.choice(['', 'no ci: allow-regressions']), 'commits': [], 'created_at': 'x', 'number': int(pr)}))
            elif R.random() < 0.5: env['PR_NUMBER'] = ''
            fail = None
            if R.random() < 0.25: fail = R.choice(['softfloat', 'hardfloat'])
            who = f'regressions {[b for b in regs if regs[b]]}, pull request {pr}, allowed {allow}, failing benchmark {fail}, baseline {last and last[0]}'
            if fail: conf['fail_base'] = fail
            rc, o, e, c = run(['./ci/bench-icount.sh'], root, root + '.s', conf, env)
            count('runs of bench-icount.sh'); count('calls recorded', len(c)); case(('bench', tuple(regs.items()), pr is None, allow, fail, last is None))
            # what is judged: the run on soft floats comes to its end before that on hardware, or the other way around
            bad = bool(fail) or (pr is not None and not allow and any(regs.values()))
            if fail: count('faults in bench-icount.sh')
            check((rc != 0) == bad, 'bench-icount.sh hides a failure' if bad else 'bench-icount.sh fails although nothing fails', f'{who}: exit {rc}, {e[-500:]}')
            cs = [Cargo(x) for x in c if x['prog'] == 'cargo' and x['args'][:1] == ['bench']]
            for x in cs:
                b = [y.split('=', 1)[1] for y in x.rest if y.startswith('--save-baseline=')]
                check(len(b) == 1 and ('force-soft-floats' in x.features) == (b == ['softfloat']) and {'unstable-intrinsics', 'unstable-float', 'icount'} <= x.features and ('--bench', 'icount') in x.named and '--no-default-features' in x.flags, 'bench-icount.sh runs another benchmark', f'{who}: cargo {x.raw}')
                check('--save-summary' in x.rest and any(re.fullmatch(r'--regression=ir=5(\.0)?', y) for y in x.rest), 'bench-icount.sh does not watch for regressions', f'{who}: cargo {x.raw}')
            if not bad: check(sorted(y.split('=')[1] for x in cs for y in x.rest if y.startswith('--save-baseline=')) == ['hardfloat', 'softfloat'], 'bench-icount.sh does not run both benchmarks', f'{who}: {[x.raw for x in cs]}')
            seen = [json.loads(l) for l in open(root + '.s/seen')] if os.path.exists(root + '.s/seen') else []
            if last and seen:
                have = {x for x in (seen[0][1] or [])}
                check(last[2] <= have, 'bench-icount.sh compares with another baseline', f'{who}: {sorted(last[2] - have)[:4]} missing before the first benchmark'); count('baselines restored')
            text = open(f'{root}/env').read(); ms = re.findall(r'^BASELINE_NAME=(.*)$', text, re.M)
            check(text.startswith('BEFORE=1\n'), 'bench-icount.sh overwrites the environment file', f'{who}: {text!r}')
            tars = sorted(f for f in os.listdir(root) if f.endswith('.tar.xz'))
            if bad: check(not ms and not tars, 'bench-icount.sh publishes the baseline of a failed run', f'{who}: {ms} {tars}')
            else:
                if check(len(ms) == 1 and tars == [ms[0] + '.tar.xz'] and re.fullmatch(r'baseline-icount-\d{12}-' + sha[:12], ms[0]), 'bench-icount.sh does not publish its baseline', f'{who}: {ms} {tars}'):
                    ls = sp.run(['tar', 'tJf', f'{root}/{tars[0]}'], stdout=sp.PIPE, text=True).stdout.split('\n')
                    files = {os.path.relpath(x, 'iai-home') for x in ls if x and not x.endswith('/')}
                    want = {f'{nm}/{s}' for b in sums for nm in sums[b] for s in ('summary.json', f'callgrind.{b}')}
                    check(want <= files, 'bench-icount.sh publishes an incomplete baseline', f'{who}: {sorted(want - files)[:4]}')
                    count('baselines published'); last = (ms[0], f'{root}/{tars[0]}', want)
            for f in os.listdir(root):
                if not f.endswith('.tar.xz'):
                    p = f'{root}/{f}'; shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            shutil.rmtree(root + '.s')
        shutil.rmtree(base)

def guard(f, *a):
    try: f(*a)
    except Exception as e:
        import traceback
        with LOCK: INC.append(f'{f.__name__}: {e!r} {traceback.format_exc()[-600:]}')
targets = DOCKER + OTHERS
jobs = []
for w in range(8): jobs += [(runsh_worker, w, targets[w::8]), (docker_worker, w, 60 if BIG else 5), (bench_worker, w, 100 if BIG else 5)]
if not SYS: INC.append('no PATH without cargo-nextest')
else:
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: guard(*j), jobs))
shutil.rmtree(SCR, ignore_errors=True)

groups = {}
for what, d in VIOL: groups.setdefault(what, []).append(d)
n = sum(v for k, v in COUNT.items() if k.startswith(('runs of', 'faults in')))
ev = {'property': 'C29', 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'exploration',
      'coverage': {'evaluations': n, 'distinct_nontrivial': len(SEEN), 'rule': 'one case is a distinct script, target, environment, history or call made to fail', 'samples': SAMPLES, 'observed': COUNT, 'inconclusive': INC, 'known_findings_seen': []},
      'wall_s': round(time.time() - T0, 2), 'violations': len(groups)}
os.makedirs(f'{VERIF}/evidence', exist_ok=True); json.dump(ev, open(f'{VERIF}/evidence/C29.json', 'w'), indent=1)
if groups:
    os.makedirs(f'{VERIF}/replays', exist_ok=True); rp = f'{VERIF}/replays/C29.txt'
    with open(rp, 'w') as f:
        for k, v in groups.items():
            f.write(f'{k} ({len(v)} cases)\n' + ''.join(f'  {x}\n' for x in v[:5]))
            print(f'{k} ({len(v)} cases): {v[0][:500]}')
    print(f'VIOLATION property=C29 replay={rp}'); sys.exit(1)
if INC:
    print('no verdict:', *INC[:3], sep='\n'); sys.exit(3)
print(f"C29: {n} runs of the scripts, {len(SEEN)} distinct cases, 0 violations, {ev['wall_s']} s; {COUNT}")
