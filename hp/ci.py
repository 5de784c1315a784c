#!/usr/bin/env python3
"""C28: the scripts that select what is tested and that keep the lists of the public interface.

Runs the real scripts (ci/ci-util.py, etc/update-api-list.py) in scratch copies: on synthetic histories, with a
recording stand-in for `gh`, and on changed copies of the tree; and judges output, exit status and written files."""
import json, os, random, re, shutil, subprocess as sp, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import spawn

HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); REPO = os.environ.get('C28_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1')); BIG = TIER == 'thorough'
T0 = time.time(); LOCK = threading.Lock()
SCR = tempfile.mkdtemp(prefix='c28.', dir=os.path.join(VERIF, 'target'))
VIOL, INC, COUNT, SEEN, SAMPLES = [], [], {}, set(), []
def count(k, n=1):
    with LOCK: COUNT[k] = COUNT.get(k, 0) + n
def case(x):
    with LOCK:
        SEEN.add(x)
        if len(SAMPLES) < 12 and len(SEEN) % 97 == 1: SAMPLES.append(str(x)[:300])
def bad(what, detail):
    with LOCK: VIOL.append((what, detail))
def check(ok, what, detail):
    if not ok: bad(what, detail() if callable(detail) else detail)
    return ok
ENV = {'PATH': os.environ['PATH'], 'HOME': os.environ.get('HOME', '/root'), 'GIT_CONFIG_NOSYSTEM': '1', 'GIT_CONFIG_GLOBAL': '/dev/null', 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1'}
for k in ('RUSTUP_TOOLCHAIN', 'RUSTUP_HOME', 'CARGO_HOME'):
    if k in os.environ: ENV[k] = os.environ[k]
def sh(cmd, cwd, env={}, inp=None, t=120):
    try:
        r = sp.run(cmd, cwd=cwd, env={**ENV, **env}, input=inp, stdout=sp.PIPE, stderr=sp.PIPE, text=True, timeout=t)
        return r.returncode, r.stdout, r.stderr
    except sp.TimeoutExpired: return 'timeout', '', ''
def git(cwd, *a, inp=None):
    r = sp.run(['git', *a], cwd=cwd, env=ENV, input=inp, stdout=sp.PIPE, stderr=sp.PIPE)
    if r.returncode: raise RuntimeError(f'git {a}: {r.stderr[:300]}')
    return r.stdout.decode()
NAMES = dict(l.split() for l in open(f'{HERE}/names.txt'))
TYPES = ['f16', 'f32', 'f64', 'f128']
IGNORED = ('libm/src/math/support/', 'libm/src/libm_helper.rs', 'libm/src/math/arch/intrinsics.rs')

# ---- a stand-in for gh: prints what it is told, records how it was called --------------------
GH = '''#!/usr/bin/env python3
import json, os, sys
d = os.environ["GH_STUB"]; c = json.load(open(d + "/conf"))
with open(d + "/calls", "a") as f: f.write(json.dumps(sys.argv[1:]) + "\\n")
a = sys.argv[1:]
if a[:2] == ["pr", "view"]:
    if a[2:3] != [c.get("pr")]: sys.exit(1)
    sys.stdout.write(c["view"]); sys.exit(0)
if a[:2] == ["run", "list"]:
    sys.stdout.write(c.get("list", "")); sys.exit(c.get("list_rc", 0))
if a[:2] == ["run", "download"]:
    for dst, src in c.get("download", []):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, "wb").write(open(src, "rb").read())
    sys.exit(c.get("download_rc", 0))
sys.exit(2)
'''
os.makedirs(f'{SCR}/bin')
open(f'{SCR}/bin/gh', 'w').write(GH); os.chmod(f'{SCR}/bin/gh', 0o755)
GHP = {'PATH': f'{SCR}/bin:' + ENV['PATH']}
def stub(d, conf):
    os.makedirs(d, exist_ok=True); json.dump(conf, open(d + '/conf', 'w'))
    return {**GHP, 'GH_STUB': d}
def calls(d):
    p = d + '/calls'
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []

def body(R, directives):
    """A pull request text; returns it with the directives that stand at the start of a line."""
    lines, eff = [], set()
    for _ in range(R.randrange(0, 6)):
        k = R.randrange(8)
        d = R.choice(directives)
        if k == 0: lines.append(d); eff.add(d)
        elif k == 1: lines.append(d + R.choice(['.', ' please', ' because of #12', '\t'])); eff.add(d)
        elif k == 2: lines.append(' ' + d)
        elif k == 3: lines.append('> ' + d)
        elif k == 4: lines.append('please use `' + d + '`')
        elif k == 5: lines.append(d.replace('ci: ', R.choice(['ci:', 'CI: ', 'ci ', ''])))
        else: lines.append(R.choice(['Fix rounding', '', 'ci: nothing', '- [ ] tests', 'ci: allow', 'ci: skip']))
    return R.choice(['\n', '\r\n']).join(lines) + R.choice(['', '\n']), eff
SKIP, MANY, REGR = 'ci: skip-extensive', 'ci: allow-many-extensive', 'ci: allow-regressions'
def view(R, b, n):
    return json.dumps({'body': b, 'commits': ['%040x' % R.getrandbits(160) for _ in range(R.randrange(1, 4))], 'created_at': '2025-05-01T00:00:00Z', 'number': int(n)})

# ---- generate-matrix ------------------------------------------------------------------------
def random_defs(R):
    d = {'__comment': 'x'}
    for _ in range(R.randrange(0, 60)):
        n = R.choice(['sin', 'cos', 'fma', 'zed', 'a_b', 'exp10', 'y']) + R.choice(['', 'f', 'f16', 'f128', 'q', str(R.randrange(99))])
        d[n] = {'sources': sorted({R.choice(FILES) for _ in range(R.randrange(0, 4))}), 'type': R.choice(TYPES)}
    return d
FILES = ['libm/src/math/%s.rs' % n for n in ['sin', 'cos', 'k_sin', 'fma', 'generic/fma', 'generic/sqrt', 'arch/i586', 'arch/aarch64', 'arch/intrinsics', 'support/float_traits', 'support/macros', 'sqrt', 'sqrtf', 'support']] + ['libm/src/libm_helper.rs', 'src/math/sin.rs']
def matrix_worker(w, n):
    R = random.Random(f'{SEED}/{w}/matrix')
    real = json.load(open(f'{REPO}/etc/function-definitions.json'))
    root = f'{SCR}/m{w}'; os.makedirs(f'{root}/ci'); os.makedirs(f'{root}/etc')
    shutil.copy(f'{REPO}/ci/ci-util.py', f'{root}/ci/ci-util.py')
    git(root, 'init', '-q', '-b', 'master', '.')
    allsrc = sorted({s for k, v in real.items() if k != '__comment' for s in v['sources']})
    other = ['README.md', 'libm/src/math/mod.rs', 'libm/src/lib.rs', 'libm/src/math/support/float_traits.rs', 'libm/src/libm_helper.rs', 'libm/src/math/arch/intrinsics.rs', 'libm/src/math/k_sin.rs',
             'libm/src/math/sin', 'libm/src/math/sin.rs.orig', 'x/libm/src/math/sin.rs', 'crates/libm-test/src/op.rs', 'sin.rs', 'libm/src/math/generic/sin.rs']
    pool = sorted(set(allsrc + other + FILES))
    # history: bases with every file, incoming commits that change some, merges of both
    out, plans, mark = [], [], [0]
    def blob(data):
        return f'data {len(data)}\n{data}\n'
    def commit(ref, parents, ops):
        mark[0] += 1
        out.append(f'commit {ref}\nmark :{mark[0]}\ncommitter a <a@a> {1700000000 + mark[0]} +0000\ndata 1\nx\n')
        for i, p in enumerate(parents): out.append(('from' if i == 0 else 'merge') + f' :{p}\n')
        for o in ops: out.append(o)
        return mark[0]
    uniq = lambda: '%064x' % R.getrandbits(256)
    put = lambda p: f'M 100644 inline {p}\n' + blob(uniq())
    here = [p for p in pool if not any(q != p and q.startswith(p + '/') for q in pool)]
    base0 = commit('refs/heads/base', [], [put(p) for p in here])
    for i in range(n):
        style = R.randrange(6)
        k = [0, 1, 2, R.randrange(3, 12), R.randrange(10, 60), R.randrange(0, 4)][style]
        chg = R.sample(here, min(k, len(here)))
        if style == 5: chg = [p for p in chg if p in other] + R.sample(other, 2)
        chg = sorted(set(chg))
        b = base0
        moved = []
        if R.random() < 0.3:  # the base went on; the incoming branch starts from there or from before
            moved = R.sample(here, R.randrange(1, 4))
            b = commit(f'refs/heads/b{i}', [base0], [put(p) for p in moved])
        start = R.choice([b, base0])
        inc = start; ops = [(f'D {p}\n' if R.random() < 0.1 else put(p)) for p in chg]
        half = R.randrange(len(ops) + 1)
        for part in (ops[:half], ops[half:]):
            if part: inc = commit(f'refs/heads/i{i}', [inc], part)
        if inc == start: inc = commit(f'refs/heads/i{i}', [start], [])
        m = commit(f'refs/pull/{i + 1}/merge', [b, inc], [])
        diff = set(chg) | (set(moved) if start == base0 and b != base0 else set())
        plans.append(sorted(diff))
    git(root, 'fast-import', '--quiet', inp=''.join(out).encode())
    for i, diff in enumerate(plans):
        defs = real if R.random() < 0.6 else random_defs(R)
        json.dump(defs, open(f'{root}/etc/function-definitions.json', 'w'))
        env, merge = {}, True
        r = R.random()
        if r < 0.08: merge = False
        elif r < 0.16: env['GITHUB_REF'] = R.choice(['refs/heads/master', 'refs/tags/v1', f'refs/pull/{i + 1}/head']); merge = False
        else: env['GITHUB_REF'] = f'refs/pull/{i + 1}/merge'
        eff, pr = set(), None
        gd = f'{root}/gh{i}'
        r = R.random()
        if r < 0.25: pass
        elif r < 0.3: env['PR_NUMBER'] = ''
        else:
            pr = str(R.randrange(1, 9999)); env['PR_NUMBER'] = pr
            b, eff = body(R, [SKIP, MANY])
            env.update(stub(gd, {'pr': pr, 'view': view(R, b, pr)}))
        if pr is None: env.update(stub(gd, {}))
        diff = diff if merge else []
        want = {t: [] for t in TYPES}
        for name, meta in defs.items():
            if name == '__comment': continue
            if any(s in diff and not s.startswith(IGNORED) for s in meta['sources']): want[meta['type']].append(name)
        for t in TYPES: want[t].sort()
        skip = SKIP in eff
        total = 0 if skip else sum(map(len, want.values()))
        fail = pr is not None and MANY not in eff and total > 20
        rc, o, e = sh([sys.executable, 'ci/ci-util.py', 'generate-matrix'], root, env)
        who = lambda: f"definitions {'real' if defs is real else json.dumps(defs)}, changed {diff}, environment {[(k, env[k]) for k in sorted(env) if k in ('GITHUB_REF', 'PR_NUMBER')]}, directives {sorted(eff)}: exit {rc}, output {o[:600]!r}, stderr {e[-300:]!r}"
        count('matrices'); count('functions selected', sum(map(len, want.values())))
        case(('matrix', tuple(diff), tuple(sorted(eff)), pr is None, merge, defs is real, i if defs is not real else 0))
        if rc == 'timeout': bad('generate-matrix does not end', who()); continue
        if fail:
            count('refused: too many'); check(rc != 0 and 'matrix=' not in o, 'generate-matrix accepts too many tests', who); continue
        if not check(rc == 0, 'generate-matrix fails', who): continue
        want_o = 'matrix=' + json.dumps({'matrix': [{'ty': t, 'changed': ','.join(want[t]), 'to_test': '' if skip else ','.join(want[t])} for t in TYPES]}, separators=(',', ':'))
        if skip: count('skipped by directive')
        ok = o.startswith('matrix=') and o.count('\n') == 1
        if ok:
            try: ok = json.loads(o[7:]) == json.loads(want_o[7:])
            except ValueError: ok = False
        check(ok, 'generate-matrix selects wrong functions', lambda: who() + f', expected {want_o}')
        if pr is not None: check(any(c[:3] == ['pr', 'view', pr] for c in calls(gd)), 'generate-matrix asks for another pull request', lambda: f'{calls(gd)}; {who()}')
        else: check(not calls(gd), 'generate-matrix asks for a pull request', lambda: f'{calls(gd)}')
        shutil.rmtree(gd, ignore_errors=True)

# ---- check-regressions ----------------------------------------------------------------------
def regress_worker(w, n):
    R = random.Random(f'{SEED}/{w}/regress')
    root = f'{SCR}/r{w}'; os.makedirs(f'{root}/ci'); shutil.copy(f'{REPO}/ci/ci-util.py', f'{root}/ci/')
    for i in range(n):
        wd = f'{root}/w{i}'; os.makedirs(wd)
        home = R.choice(['iai-home', 'iai-home', 'h', 'a/b'])
        args = [] if home == 'iai-home' and R.random() < 0.5 else ['--home', home]
        if R.random() < 0.2: args = ['--home', f'{wd}/{home}']
        names, regs = [], []
        os.makedirs(f'{wd}/{home}')
        nsum = R.choice([0, 1, 1, 2, 5])
        prob = R.choice([0, 0, 0.1, 0.5])
        for k in range(nsum):
            d = f'{wd}/{home}/' + '/'.join(R.choice(['libm-test', 'icount', 'icount_bench_%d' % k, 'g', '.hidden' if R.random() < 0 else 'x']) for _ in range(R.randrange(0, 4))) + f'/f{k}'
            os.makedirs(d)
            def rl():
                return [{'metric': R.choice(['Ir', 'L1hits']), 'diff_pct': R.random() * 10, 'limit': 5.0} for _ in range(R.randrange(1, 3))] if R.random() < prob else []
            segs = [{'regressions': rl()} for _ in range(R.randrange(0, 3))]
            tot = {'regressions': rl()}
            fn, ident = f'icount_bench_f{k}', f'id{R.randrange(99)}'
            for s in segs + [tot]: regs += [f'{fn}.{ident}'] * len(s['regressions'])
            json.dump({'callgrind_summary': {'callgrind_run': {'segments': segs, 'total': tot}}, 'function_name': fn, 'id': ident}, open(f'{d}/summary.json', 'w'))
        # files that are no summaries
        for x in R.sample(['summary.txt', 'summary.json.bak', 'x-summary.json', 'callgrind.out'], R.randrange(0, 3)):
            open(f'{wd}/{home}/{x}', 'w').write('{')
        eff, pr, env = set(), None, stub(f'{wd}.gh', {})
        if R.random() < 0.6:
            pr = str(R.randrange(1, 9999)); b, eff = body(R, [REGR, REGR, SKIP])
            env = stub(f'{wd}.gh', {'pr': pr, 'view': view(R, b, pr)})
            args = R.choice([args + ['--allow-pr-override', pr], ['--allow-pr-override', pr] + args])
        rc, o, e = sh([sys.executable, '../ci/ci-util.py', 'check-regressions', *args], wd, env)
        want = 1 if nsum == 0 or (regs and REGR not in eff) else 0
        who = f'summaries {nsum}, regressions {regs}, directives {sorted(eff)}, arguments {args}: exit {rc}, stderr {e[-500:]!r}'
        count('regression checks'); count(f'regression checks that must {"fail" if want else "pass"}')
        case(('regress', nsum, tuple(regs), tuple(sorted(eff)), len(args)))
        check(rc == want, f'check-regressions must exit {want}', who)
        if regs: check(all(r in e + o for r in regs), 'check-regressions does not name a regression', who)
        shutil.rmtree(wd); shutil.rmtree(f'{wd}.gh')
    for args in (['check-regressions', '--hom', 'x'], ['check-regressions', '--home'], ['nothing'], [], ['locate-baseline', '--extract'], ['locate-baseline', '--what'], ['generate-matrix', 'x']):
        rc, o, e = sh([sys.executable, 'ci/ci-util.py', *args], root, GHP | {'GH_STUB': root})
        count('wrong uses refused'); check(rc == 1, 'a wrong use is accepted', f'{args}: exit {rc}')
    for a in (['--help'], ['-h']):
        rc, o, e = sh([sys.executable, 'ci/ci-util.py', *a], root); check(rc == 0 and 'generate-matrix' in o, 'no help', f'{a}: {rc}')

# ---- locate-baseline ------------------------------------------------------------------------
def baseline_worker(w, n):
    R = random.Random(f'{SEED}/{w}/base')
    root = f'{SCR}/b{w}'; os.makedirs(f'{root}/ci'); shutil.copy(f'{REPO}/ci/ci-util.py', f'{root}/ci/')
    for i in range(n):
        wd = f'{root}/w{i}'; os.makedirs(wd)
        conf, newest = {}, None
        mode = R.randrange(5)
        flags = R.choice([[], ['--download'], ['--download', '--extract'], ['--extract', '--download'], ['--download', '--extract']])
        job = R.randrange(1, 10**9)
        conf['list'] = json.dumps({'databaseId': job, 'url': 'u', 'headSha': 'x', 'conclusion': 'success'})
        if mode == 0: conf['list_rc'] = 1
        elif mode == 1: conf['list'] = R.choice(['', '\n', 'gone {', '{}', '{"databaseId": null}'])
        stamps = sorted({'baseline-icount-2025%02d%02d%04d-%012x' % (R.randrange(1, 13), R.randrange(1, 29), R.randrange(2400), R.getrandbits(48)) for _ in range(R.randrange(0, 4))})
        dl = []
        for s in stamps:
            src = f'{wd}.{s}'; os.makedirs(f'{src}/iai-home'); open(f'{src}/iai-home/who', 'w').write(s)
            sp.run(['tar', 'cJf', f'{src}.tar.xz', '-C', src, 'iai-home'], check=True)
            dl.append([f'{s}/{s}.tar.xz', f'{src}.tar.xz'])
        R.shuffle(dl); conf['download'] = dl
        if mode == 2: conf['download_rc'] = 1; conf['download'] = dl[:R.randrange(0, len(dl) + 1)]
        got = sorted(x[0] for x in conf['download'])
        env = stub(f'{wd}.gh', conf)
        rc, o, e = sh([sys.executable, '../ci/ci-util.py', 'locate-baseline', *flags], wd, env)
        lists = mode not in (0, 1)
        extract = lists and '--extract' in flags and got
        c = calls(f'{wd}.gh')
        who = f'flags {flags}, stub {conf}: exit {rc}, calls {c}, stderr {e[-400:]!r}'
        count('baselines'); case(('baseline', tuple(flags), mode, len(got)))
        check(rc == 0, 'locate-baseline fails', who)
        downs = [x for x in c if x[:2] == ['run', 'download']]
        if lists and '--download' in flags: check(len(downs) == 1 and str(job) in downs[0], 'locate-baseline does not download the job', who)
        else: check(not downs, 'locate-baseline downloads uncalled', who)
        have = open(f'{wd}/iai-home/who').read() if os.path.exists(f'{wd}/iai-home/who') else None
        want = got[-1].split('/')[0] if extract else None
        if extract: count('baselines extracted')
        check(have == want, 'locate-baseline extracts another baseline', f'{have}, expected {want}; {who}')
        for p in [wd, f'{wd}.gh'] + [f'{wd}.{s}' for s in stamps]: shutil.rmtree(p, ignore_errors=True)
        for s in stamps: os.remove(f'{wd}.{s}.tar.xz')

# ---- update-api-list.py ---------------------------------------------------------------------
def copy_tree(to):
    os.makedirs(to)
    for p in git(REPO, 'ls-files', '-z').split('\0'):
        src = f'{REPO}/{p}'
        if not p or not os.path.isfile(src): continue
        os.makedirs(os.path.dirname(f'{to}/{p}'), exist_ok=True); shutil.copy(src, f'{to}/{p}')
    git(to, 'init', '-q', '.'); git(to, 'add', '-A'); git(to, '-c', 'user.name=a', '-c', 'user.email=a@a', 'commit', '-qm', 'x')
def strip(t):
    """Without comments and test modules."""
    t = re.sub(r'//[^\n]*', '', t)
    while (m := re.search(r'#\[cfg\(test\)\]\s*mod \w+\s*\{', t)):
        k, d = m.end(), 1
        while d and k < len(t): d += {'{': 1, '}': -1}.get(t[k], 0); k += 1
        t = t[:m.start()] + t[k:]
    return t
def definers(root):
    """file -> text without comments and tests, of the files that belong to the crate"""
    r, todo = {}, ['libm/src/math/mod.rs']
    while todo:
        p = todo.pop(); full = f'{root}/{p}'
        if p in r or not os.path.exists(full): continue
        r[p] = t = strip(open(full).read())
        d = os.path.dirname(p) if p.endswith('mod.rs') else p[:-3]
        for m in re.findall(r'\bmod (\w+)\s*;', t): todo += [f'{d}/{m}.rs', f'{d}/{m}/mod.rs']
        if p.endswith('arch/mod.rs'): todo += [f'{d}/{f}' for f in os.listdir(f'{root}/{d}') if f.endswith('.rs')]
    return r
BASE = lambda n: next((n[:-len(s)] for s in ('f128', 'f16', 'f') if n.endswith(s) and n[:-len(s)] in NAMES), n.replace('f_r', '_r') if n.endswith('f_r') else n)
def judge_lists(root, names, who):
    """The written lists against an independent reading of the tree."""
    flist = open(f'{root}/etc/function-list.txt').read().split('\n')
    check(flist[0].startswith('#') and flist[-1] == '' and flist[1:-1] == sorted(names), 'function-list.txt is wrong', lambda: f'{who}: {sorted(set(flist[1:-1]) ^ set(names))[:10]} differ or the order does')
    try: d = json.load(open(f'{root}/etc/function-definitions.json'))
    except ValueError as e: bad('function-definitions.json cannot be read', f'{who}: {e}'); return
    d.pop('__comment', None)
    if not check(list(d) == sorted(names), 'function-definitions.json lists other functions', lambda: f'{who}: {sorted(set(d) ^ set(names))[:10]}'): return
    text = definers(root)
    for n, v in d.items():
        s = v['sources']; count('source lists judged')
        check(v['type'] == names[n], 'function-definitions.json has a wrong type', f"{who}: {n} is {v['type']}")
        check(s == sorted(set(s)) and s, 'sources unsorted or empty', f'{who}: {n} {s}')
        must = {f for f, t in text.items() if '/support/' not in f and '/arch/' not in f and re.search(rf'^pub (const )?fn {n}\b', t, re.M)}
        must |= {f for f, t in text.items() if re.fullmatch(r'libm/src/math/arch/\w+\.rs', f) and re.search(rf'\bfn {n}\b', t)}
        b = BASE(n)
        may = {f for f, t in text.items() if re.search(rf'fn {n}', t)}
        gen = {f for f, t in text.items() if '/generic/' in f and re.search(rf'^pub (const )?fn {b}\b', t, re.M)}
        check((must | gen) <= set(s), 'a file that defines the function is missing in its sources', f'{who}: {n} lacks {sorted((must | gen) - set(s))}')
        check(set(s) <= may | gen, 'sources name a file that does not define the function', f'{who}: {n} has {sorted(set(s) - may - gen)}')
def api_worker(w, n):
    R = random.Random(f'{SEED}/{w}/api')
    root = f'{SCR}/a{w}'; copy_tree(root)
    script = 'etc/update-api-list.py'
    rd = lambda p: open(f'{root}/{p}').read()
    def wr(p, t):
        os.makedirs(os.path.dirname(f'{root}/{p}'), exist_ok=True); open(f'{root}/{p}', 'w').write(t)
    def run(*a): return sh([sys.executable, script, *a], root)
    def reset(): git(root, 'reset', '-q', '--hard'); git(root, 'clean', '-qfd')
    L, D = 'etc/function-list.txt', 'etc/function-definitions.json'
    if w == 0:
        judge_lists(root, NAMES, 'as committed')
        for a in (['--chek'], ['x', '--check'], ['--check', '--check']):
            rc, o, e = run(*a); check(rc == 1 and git(root, 'status', '--porcelain') == '', 'a wrong use is accepted', f'{a}: {rc}')
        rc0, o0, e0 = run('--check'); count('trees judged')
    rc, o, e = run(); check(rc == 0, 'writing the lists fails', f'{rc} {e[-500:]}')
    stale = git(root, 'status', '--porcelain')
    if w == 0:
        judge_lists(root, NAMES, 'written anew')
        check((rc0 == 0) == (stale == ''), 'the check and the writing of the lists disagree', f'--check exits {rc0}: {o0[-600:]} {e0[-600:]}; writing changes {stale!r}')
    if stale: git(root, '-c', 'user.name=a', '-c', 'user.email=a@a', 'commit', '-qam', 'lists')
    blocks = []  # (file, kind, first line, last line)
    for p in git(root, 'ls-files').split('\n'):
        if not p or p == script or not os.path.isfile(f'{root}/{p}'): continue
        st = {}
        for k, l in enumerate(rd(p).split('\n')):
            for kind in ('sorted', 'apilist'):
                if f'verify-{kind}-start' in l: st[kind] = k
                elif f'verify-{kind}-end' in l: blocks.append((p, kind, st[kind], k))
    if not blocks: bad('no list in the tree is marked for checking', '')
    def block(kind): return R.choice([b for b in blocks if b[1] == kind])
    def m_drop():
        t = rd(L).split('\n'); k = R.randrange(1, len(t) - 1); x = t.pop(k); wr(L, '\n'.join(t)); return f'{x} dropped from function-list.txt'
    def m_add():
        t = rd(L).split('\n'); k = R.randrange(1, len(t) - 1); t.insert(k, t[k - 1] + 'x'); wr(L, '\n'.join(t)); return f'{t[k]} added to function-list.txt'
    def m_swap():
        t = rd(L).split('\n'); k = R.randrange(1, len(t) - 2); t[k], t[k + 1] = t[k + 1], t[k]; wr(L, '\n'.join(t)); return f'{t[k]} and {t[k + 1]} exchanged in function-list.txt'
    def jm(f):
        d = json.loads(rd(D)); r = f(d); wr(D, json.dumps(d, indent=4) + '\n'); return r
    def pick(d): return R.choice([k for k in d if k != '__comment'])
    def m_type():
        def f(d): n = pick(d); d[n]['type'] = R.choice([t for t in TYPES if t != d[n]['type']]); return f'type of {n}'
        return jm(f)
    def m_src():
        def f(d): n = pick(d); x = d[n]['sources'].pop(R.randrange(len(d[n]['sources']))); return f'{x} dropped from the sources of {n}'
        return jm(f)
    def m_more():
        def f(d): n = pick(d); d[n]['sources'].append('libm/src/math/zzz.rs'); return f'source added to {n}'
        return jm(f)
    def m_fn():
        def f(d): n = pick(d); d.pop(n); return f'{n} dropped from function-definitions.json'
        return jm(f)
    def m_unsort():
        for _ in range(100):
            p, _, a, b = block('sorted'); t = rd(p).split('\n')
            if b - a < 3: continue
            k = R.randrange(a + 1, b - 1); j = R.randrange(k + 1, b)
            if t[k] == t[j]: continue
            t[k], t[j] = t[j], t[k]; wr(p, '\n'.join(t)); return f'lines {k + 1} and {j + 1} of {p} exchanged'
    def m_api():
        p, _, a, b = block('apilist'); t = rd(p).split('\n'); n = R.choice(list(NAMES))
        for k in range(a + 1, b): t[k] = re.sub(rf'(?<![A-Za-z0-9]){n}(?![A-Za-z0-9])', 'gone', t[k])
        wr(p, '\n'.join(t)); return f'{n} dropped from the list in {p}'
    def m_end():
        p, kind, a, b = R.choice(blocks); t = rd(p).split('\n'); t[b] = ''; wr(p, '\n'.join(t)); return f'end of {kind} list removed, {p}:{b + 1}'
    def m_start():
        p, kind, a, b = R.choice(blocks); t = rd(p).split('\n'); t[a] = ''; wr(p, '\n'.join(t)); return f'start of {kind} list removed, {p}:{a + 1}'
    def m_unpub():
        t = rd('libm/src/math/mod.rs'); ms = [m for m in re.finditer(r'pub use self::(\w+)::\1;\n', t) if m.group(1) in NAMES]
        m = R.choice(ms); wr('libm/src/math/mod.rs', t[:m.start()] + t[m.end():]); return f'{m.group(1)} no longer public'
    wrong = [m_drop, m_add, m_swap, m_type, m_src, m_more, m_fn, m_unsort, m_unsort, m_api, m_api, m_end, m_start, m_unpub]
    def same():
        k = R.randrange(4)
        if k == 0: wr('README.md', rd('README.md') + '\nverify\n'); return 'README changed'
        if k == 1: wr('libm/src/math/sin.rs', rd('libm/src/math/sin.rs') + '\nfn zzz_helper() {}\n'); return 'private function added'
        if k == 2: wr('libm/src/math/zzz.rs', 'pub fn zzz(x: f64) -> f64 { x }\n'); t = rd('libm/src/math/mod.rs'); wr('libm/src/math/mod.rs', t + '\nmod zzz;\npub(crate) use self::zzz::zzz;\n'); return 'crate-private function added'
        wr('libm/src/math/zzz.txt', 'verify-unsorted\nb\na\n'); git(root, 'add', '-A'); return 'other file added'
    def grow():
        """New public functions: written lists must have them, the check must ask for them everywhere."""
        have = sp.run(['grep', '-rhoE', r'\b[a-z0-9_]+', f'{root}/libm/src', '--include=*.rs'], stdout=sp.PIPE, text=True).stdout.split()
        base = R.choice([b for b in ['zed', 'azimuth', 'mid', 'exp3', 'lgb', 'sinpq', 'cbrtx', 'qnorm'] if not any(b + x in have for x in ('', 'f', 'f16', 'f128'))])
        forms = {base: 'f64'}
        if R.random() < 0.8: forms[base + 'f'] = 'f32'
        if R.random() < 0.5: forms[base + 'f16'] = 'f16'
        if R.random() < 0.5: forms[base + 'f128'] = 'f128'
        one = R.random() < 0.5; gen = R.random() < 0.6; arch = R.random() < 0.4
        src = {n: set() for n in forms}; mod = ''
        for n, ty in forms.items():
            f = base if one else n
            p = f'libm/src/math/{f}.rs'
            wr(p, (rd(p) if os.path.exists(f'{root}/{p}') else '') + f'pub fn {n}(x: {ty}) -> {ty} {{ x }}\n'); src[n].add(p)
            mod += ('' if f'mod {f};' in mod else f'mod {f};\n') + f'pub use self::{f}::{n};\n'
        wr('libm/src/math/mod.rs', rd('libm/src/math/mod.rs') + mod)
        if gen:
            wr(f'libm/src/math/generic/{base}.rs', f'pub fn {base}<F: Copy>(x: F) -> F {{ x }}\n'); t = rd('libm/src/math/generic/mod.rs')
            wr('libm/src/math/generic/mod.rs', t + f'mod {base};\npub use {base}::{base};\n')
            for n in forms: src[n].add(f'libm/src/math/generic/{base}.rs')
        if arch:
            n = R.choice(sorted(forms)); a = R.choice(['wasm32', 'i586', 'aarch64'])
            wr(f'libm/src/math/arch/{a}.rs', rd(f'libm/src/math/arch/{a}.rs') + f'\npub fn {n}(x: {forms[n]}) -> {forms[n]} {{ x }}\n')
            for k in forms:
                if n.startswith(k): src[k].add(f'libm/src/math/arch/{a}.rs')
        who = f'functions {sorted(forms)} added ({"one file" if one else "a file each"}{", generic" if gen else ""}{", arch" if arch else ""})'
        git(root, 'add', '-A')
        rc, o, e = run('--check'); check(rc == 1, 'stale lists are accepted', f'{who}: {rc} {o[-300:]} {e[-300:]}')
        rc, o, e = run(); check(rc == 1, 'functions missing in the lists of the sources are accepted', f'{who}: {rc} {o[-300:]} {e[-300:]}')
        names = dict(NAMES); names.update(forms); NAMES2 = names
        d = json.loads(rd(D))
        for n in forms:
            check(d.get(n) == {'sources': sorted(src[n]), 'type': forms[n]}, 'a new function is listed wrongly', f'{who}: {n} is {d.get(n)}, expected {sorted(src[n])} {forms[n]}')
        flist = rd(L).split('\n')[1:-1]; check(flist == sorted(names), 'a new function is missing in function-list.txt', who)
        miss = sorted({b[0] for b in blocks if b[1] == 'apilist'})
        for p in miss:
            rc, o, e = run('--check'); check(rc == 1, 'a list of all functions without the new one is accepted', f'{who}: {p} {rc}')
            t = rd(p).split('\n'); k = next(i for i, l in enumerate(t) if 'verify-apilist-start' in l)
            t.insert(k + 1, '// ' + ' '.join(R.choice(['icount_bench_%s_group', '%s']) % n for n in forms)); wr(p, '\n'.join(t))
        rc, o, e = run('--check'); check(rc == 0, 'complete lists are refused', f'{who}: {rc} {o[-500:]} {e[-500:]}')
        return who
    for i in range(n):
        if n - i <= max(1, n // 6):
            d = grow(); count('trees with new functions')
        elif R.random() < 0.12:
            d = same(); rc, o, e = run('--check'); count('neutral changes'); check(rc == 0, 'a neutral change is refused', f'{d}: {rc} {o[-300:]} {e[-300:]}')
        else:
            d = wrong[(i * 8 + w) % len(wrong)]()
            rc, o, e = run('--check'); count('wrong lists refused'); check(rc == 1 and ('Traceback' not in e or 'no longer public' in d), 'a wrong list is accepted', f'{d}: exit {rc} {e[-300:]}')
            check(d is not None, 'no', '')
        case(('api', d)); reset()

def guard(f, *a):
    try: f(*a)
    except Exception as e:
        import traceback
        with LOCK: INC.append(f'{f.__name__}: {e!r} {traceback.format_exc()[-400:]}')
jobs = []
for w in range(8):
    jobs += [(api_worker, w, 60 if BIG else 8), (matrix_worker, w, 1500 if BIG else 80), (regress_worker, w, 800 if BIG else 40), (baseline_worker, w, 150 if BIG else 12)]
with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: guard(*j), jobs))
shutil.rmtree(SCR, ignore_errors=True)

known = []
for l in open(f'{VERIF}/known-findings.txt'):
    if l.startswith('known: property=C28 '): known.append(l.strip())
groups = {}
for what, d in VIOL: groups.setdefault(what, []).append(d)
ev = {'property': 'C28', 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'exploration',
      'coverage': {'evaluations': sum(v for k, v in COUNT.items() if k in ('matrices', 'regression checks', 'baselines', 'wrong lists refused', 'neutral changes', 'trees with new functions', 'trees judged', 'wrong uses refused')),
                   'distinct_nontrivial': len(SEEN), 'rule': 'one case is a distinct history, environment, set of summaries or changed tree given to a script', 'samples': SAMPLES, 'observed': COUNT, 'inconclusive': INC, 'known_findings_seen': []},
      'wall_s': round(time.time() - T0, 2), 'violations': len(groups)}
os.makedirs(f'{VERIF}/evidence', exist_ok=True); json.dump(ev, open(f'{VERIF}/evidence/C28.json', 'w'), indent=1)
if groups:
    os.makedirs(f'{VERIF}/replays', exist_ok=True); rp = f'{VERIF}/replays/C28.txt'
    with open(rp, 'w') as f:
        for k, v in groups.items():
            f.write(f'{k} ({len(v)} cases)\n' + ''.join(f'  {x}\n' for x in v[:5]))
            print(f'{k} ({len(v)} cases): {v[0][:500]}')
    print(f'VIOLATION property=C28 replay={rp}'); sys.exit(1)
if INC:
    print('no verdict:', *INC[:3], sep='\n'); sys.exit(3)
print(f"C28: {ev['coverage']['evaluations']} runs of the scripts, {len(SEEN)} distinct cases, 0 violations, {ev['wall_s']} s; {COUNT}")
