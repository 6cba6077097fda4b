#!/usr/bin/env python3
"""run.py setup | run.py check ID

Builds what is missing from /repo's current tree, executes the harnesses of one property symbolically,
replays what the solver found natively, and writes evidence/ID.json.
Exit 0: held on everything explored; 1: violation; 2: no answer."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import jobs as JOBS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = V + '/build'
TRIPLE = 'x86_64-unknown-linux-gnu'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-' + TRIPLE, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
for k in list(ENV):
    if k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET') or k.startswith('CARGO_PROFILE_'):
        del ENV[k]
CONFIGS = ['default', 'boxed_string', 'cow_string', 'binary_string']
LIMIT = {'quick': 700, 'thorough': 5400}


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def sh(cmd, env=ENV, cwd=V, what=''):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die('%s failed:\n%s' % (what or ' '.join(cmd[:4]), r.stdout[-3000:]))
    return r.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def tree(d, ext=None):
    o = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('target', '.git', '__pycache__')]
        o += [os.path.join(r, f) for f in fs if ext is None or f.endswith(ext)]
    return o


class Lock:
    def __enter__(s):
        os.makedirs(B, exist_ok=True)
        s.f = open(B + '/lock', 'w')
        fcntl.flock(s.f, fcntl.LOCK_EX)

    def __exit__(s, *a):
        s.f.close()


def rustc(*a):
    return sh(['rustc'] + list(a)).strip()


def engine():
    """The symbolic executor."""
    src = tree(V + '/engine/src') + [V + '/engine/Cargo.toml', V + '/engine/Cargo.lock']
    out = B + '/engine-' + digest(src)
    if not os.path.exists(out + '/symex'):
        t = out + '.tmp'
        sh(['cargo', 'build', '--offline', '--release', '--manifest-path', V + '/engine/Cargo.toml'],
           env=dict(ENV, CARGO_TARGET_DIR=t), what='building the engine')
        os.makedirs(out, exist_ok=True)
        shutil.copy(t + '/release/symex', out + '/symex.new')
        os.rename(out + '/symex.new', out + '/symex')
        shutil.rmtree(t, ignore_errors=True)
    return out + '/symex'


def stdlib():
    """LLVM IR of the standard library, from the bitcode the toolchain ships in its rlibs."""
    ver = rustc('-vV')
    out = B + '/std-' + hashlib.sha256((ver + 'all').encode()).hexdigest()[:16]
    if not os.path.exists(out + '/done'):
        root = rustc('--print', 'sysroot') + '/lib/rustlib/' + TRIPLE
        t = out + '.tmp'
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        skip = ('test', 'getopts', 'proc_macro', 'panic_unwind', 'profiler_builtins', 'compiler_builtins')
        for rl in sorted(glob.glob(root + '/lib/lib*.rlib')):
            c = os.path.basename(rl)[3:].rsplit('-', 1)[0]
            if c in skip or c.startswith('rustc_std_workspace'):
                continue
            d = t + '/' + c
            os.makedirs(d)
            sh([root + '/bin/llvm-ar', 'x', rl], cwd=d)
            for n, o in enumerate(sorted(glob.glob(d + '/*.o'))):
                bc = '%s/%s-%d.bc' % (t, c, n)
                r = subprocess.run([root + '/bin/llvm-objcopy', '--dump-section', '.llvmbc=' + bc, o, '/dev/null'],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode == 0 and os.path.exists(bc):
                    sh([root + '/bin/llvm-dis', bc, '-o', bc[:-3] + '.ll'])
                    os.unlink(bc)
            shutil.rmtree(d)
        open(t + '/done', 'w').close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(t, out)
    return sorted(glob.glob(out + '/*.ll'))


def repo_files():
    return tree(REPO + '/src') + [p for p in [REPO + '/Cargo.toml', REPO + '/Cargo.lock', REPO + '/build.rs'] if os.path.exists(p)]


def lay_out(t):
    """The product crate, what it includes of the harness crate, and /repo under another name."""
    shutil.copytree(V + '/harness/src', t + '/h')
    shutil.copytree(V + '/product', t + '/p', ignore=shutil.ignore_patterns('target'))
    os.makedirs(t + '/p/src/bin')
    shutil.copy(V + '/harness/src/bin/replay.rs', t + '/p/src/bin/replay.rs')
    shutil.copytree(REPO, t + '/alt', ignore=shutil.ignore_patterns('target', '.git'))
    with open(t + '/alt/Cargo.toml') as f:
        s = f.read()
    n = re.sub(r'(?m)^name\s*=\s*"mqtt-bytes-v5"', 'name = "mqtt-bytes-v5-alt"', s, count=1)
    if n == s:
        die('the package name in /repo/Cargo.toml is not where it was')
    with open(t + '/alt/Cargo.toml', 'w') as f:
        f.write(n + '\n[workspace]\n' if '[workspace]' not in n else n)
    return t + '/p/Cargo.toml'


def program(cfg):
    """IR and native replay binaries of the harnesses over /repo's current tree. `default+X`: the product of the
    default configuration and X."""
    two = cfg.startswith('default+')
    hs = tree(V + '/harness/src') + [V + '/harness/Cargo.toml', V + '/harness/Cargo.lock']
    if two:
        hs += tree(V + '/product')
    out = '%s/prog-%s-%s' % (B, cfg, digest(repo_files() + hs + [os.path.abspath(__file__)]))
    if not os.path.exists(out + '/done'):
        for old in sorted(glob.glob('%s/prog-%s-*' % (B, cfg)), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        t = out + '/t'
        os.makedirs(t)
        man = ['--offline', '--locked', '--manifest-path', lay_out(t) if two else V + '/harness/Cargo.toml']
        if cfg != 'default':
            man += ['--features', cfg.split('+')[-1]]
        def build(x):
            extra, env, what = x
            sh(['cargo', 'build'] + extra + man, env=dict(ENV, **env), what='building the %s (%s)' % (what, cfg))
        in_parallel(build, [
            (['--lib', '--target', TRIPLE],
             dict(CARGO_TARGET_DIR=t + '/ir', RUSTFLAGS='--emit=llvm-ir -C relocation-model=static'), 'IR'),
            (['--bin', 'replay'], dict(CARGO_TARGET_DIR=t + '/n'), 'replay'),
            (['--bin', 'replay', '--release'], dict(CARGO_TARGET_DIR=t + '/r'), 'replay')])
        d = '%s/ir/%s/debug/deps' % (t, TRIPLE)
        for n in modules(cfg):
            f = glob.glob('%s/%s-*.ll' % (d, n))
            if len(f) != 1:
                die('IR of %s: %s' % (n, f))
            shutil.move(f[0], '%s/%s.ll' % (out, n))
        shutil.copy(t + '/n/debug/replay', out + '/replay-dev')
        shutil.copy(t + '/r/release/replay', out + '/replay-release')
        shutil.rmtree(t)
        open(out + '/done', 'w').close()
    os.utime(out)
    return out


def in_parallel(f, l):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(l)) as ex:
        return list(ex.map(f, l))


def modules(cfg):
    return ['mqh', 'mqtt_bytes_v5', 'bytes'] + (['mqtt_bytes_v5_alt'] if '+' in cfg else [])


def setup():
    with Lock():
        print('engine', engine())
        print('std', len(stdlib()), 'modules')
        for p in in_parallel(program, used_configs()):
            print('program', p)


def used_configs():
    return sorted({c for q in JOBS.quick().values() for c in (q if isinstance(q, dict) else ['default'])})


def groups(pid, tier):
    """(configuration, jobs) of a property"""
    t = (JOBS.thorough() if tier == 'thorough' else JOBS.quick())
    if pid not in t:
        die('no such property: ' + pid)
    g = t[pid]
    return g if isinstance(g, dict) else {'default': g}


def demangled(names):
    return sorted(n for n in names if 'mqtt_bytes_v5' in n and 'mqh::' not in n)


def check(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 3:
        tier = sys.argv[3]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    ev = '%s/evidence/%s.json' % (V, pid)
    os.makedirs(V + '/evidence', exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    with Lock():
        sx, std = engine(), stdlib()
        g = groups(pid, tier)
        progs = dict(zip(g, in_parallel(program, list(g))))
    problems, viols, parts, samples, known = [], [], [], [], load_known(pid)
    cover = {}
    summaries = []
    for cfg, js in g.items():
        out = '%s/out/%s-%s-%s-%d' % (B, pid, tier, cfg, os.getpid())
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        jf = out + '/jobs'
        with open(jf, 'w') as f:
            f.write(''.join('%s %d\n' % j for j in js))
        pr = progs[cfg]
        left = max(60, LIMIT[tier] - (time.time() - t0))
        ll = [pr + '/%s.ll' % n for n in modules(cfg)] + std
        bins = [pr + '/replay-dev', pr + '/replay-release']
        cmd = [sx, '--ll', ','.join(ll), '--out', out, '--replay', ','.join(bins), '--time', '%.0f' % left,
               '--procs', str(os.cpu_count() or 4), '--rlimit', '60000000' if tier == 'quick' else '400000000', '--jobs-file', jf]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left + 60)
            log, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e:
            log, rc = str(e.stdout), -1
        if rc != 0:
            problems.append('engine (%s) ended with %s: %s' % (cfg, rc, log[-400:]))
        try:
            sm = json.load(open(out + '/summary.json'))
        except Exception:
            sm = None
            problems.append('no summary from the engine (%s): %s' % (cfg, log[-400:]))
        ps = []
        for f in glob.glob(out + '/part-*.json'):
            try:
                ps.append(json.load(open(f)))
            except Exception:
                problems.append('unreadable result ' + f)
        for f in sorted(glob.glob(out + '/viol-*.json')):
            try:
                v = json.load(open(f))
                v['cfg'] = cfg
                viols.append(v)
            except Exception:
                problems.append('unreadable counterexample ' + f)
        if sm:
            summaries.append(sm)
            if sm['crashed']:
                problems.append('%d workers crashed (%s)' % (sm['crashed'], cfg))
            if sm['started'] != sm['jobs']:
                problems.append('%d of %d jobs started (%s)' % (sm['started'], sm['jobs'], cfg))
        seen = {}
        for p in ps:
            if 'error' in p:
                problems.append('%s: %s' % (p['job'], p['error']))
                continue
            p['cfg'] = cfg
            parts.append(p)
            k = (p['job'], p['param'])
            seen[k] = seen.get(k, 0) + p['paths']
            for u, n in p['unsup'].items():
                problems.append('%s:%d: %s (%d)' % (p['job'], p['param'], u, n))
            if p['unknown']:
                problems.append('%s:%d: %d queries undecided' % (p['job'], p['param'], p['unknown']))
            for c in p['covers']:
                cover.setdefault(p['job'], set()).add(int(c))
            for s in p['sample']:
                samples.append((cfg, p['job'], p['param'], s))
        for j in js:
            if not seen.get(tuple(j)):
                problems.append('%s:%d (%s) completed no path' % (j[0], j[1], cfg))
        # the directory stays if there is something to look at
        if not problems and not viols:
            shutil.rmtree(out)
    for n in sorted({j[0] for js in g.values() for j in js}):
        for c in JOBS.COVERS[n]:
            if c not in cover.get(n, ()):
                problems.append('%s never reaches marker %d' % (n, c))

    # counterexamples
    confirmed, listed, open_ = [], [], []
    for v in viols:
        if not v['reproduced']:
            open_.append(v)
        else:
            k = known_match(v, known)
            (listed if k else confirmed).append((v, k))
    for v in open_:
        problems.append('a counterexample does not reproduce natively: %s:%d %s (%s)' % (v['job'], v['param'], v['msg'], v['file']))

    # sampled paths, run natively
    validated, replayed = 0, []
    if not confirmed:
        validated, replayed, bad = replay_samples(pid, samples, progs, seed, 60 if tier == 'quick' else 400)
        problems += bad

    tot = lambda k: sum(p[k] for p in parts)
    fns = set()
    for p in parts:
        fns.update(p['fns'])
    coverage = {
        'states': tot('paths'),
        'transitions': tot('steps'),
        'traces_validated_against_impl': validated,
        'samples': replayed[:12],
        'jobs': len({(p['cfg'], p['job'], p['param']) for p in parts}),
        'harnesses': sorted({p['job'] for p in parts}),
        'configurations': sorted({p['cfg'] for p in parts}),
        'bounds': JOBS.bounds(pid, tier),
        'forks': tot('forks'),
        'assertions_reached': tot('asserts'),
        'paths_ended_by_an_assumption': tot('killed'),
        'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'),
        'solver_s': round(tot('solver_s'), 2),
        'solver_max_s': max([p['solver_max_s'] for p in parts] or [0]),
        'functions_encoded': demangled(fns),
        'functions_executed_in_all': len(fns),
        'markers': {k: len(v) for k, v in sorted(cover.items())},
        'problems': problems[:20],
        'explanation': 'states: paths executed to the end; transitions: IR instructions executed on them; '
                       'traces_validated_against_impl: models of such paths run on the natively built code with the same outcome',
    }
    e = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
         'assumptions': JOBS.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
    with open(ev, 'w') as f:
        json.dump(e, f, indent=1)
        f.write('\n')

    for v, k in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s %s: %d paths, %d IR steps, %d assertions, %d queries (%.1f s), %d native replays, %.1f s' % (
        pid, tier, tot('paths'), tot('steps'), tot('asserts'), tot('queries'), tot('solver_s'), validated, time.time() - t0))
    if confirmed:
        v = confirmed[0][0]
        d = '%s/violations' % B
        os.makedirs(d, exist_ok=True)
        base = '%s/%s-%s-%d' % (d, pid, v['job'], v['param'])
        shutil.copy(v['file'], base + '.inputs')
        rb = '%s/%s-replay-' % (d, pid)
        for n in ['dev', 'release']:
            shutil.copy(progs[v['cfg']] + '/replay-' + n, rb + n)
        with open(base + '.sh', 'w') as f:
            f.write('#!/bin/sh\n# %s\n# %s\n' % (v['msg'].replace('\n', ' '), ' < '.join(v['stack'][:6]).replace('\n', ' ')))
            f.write('%sdev %s %d %s.inputs; echo "dev build: exit $?"\n' % (rb, v['job'], v['param'], base))
            f.write('%srelease %s %d %s.inputs; echo "release build: exit $?"\n' % (rb, v['job'], v['param'], base))
        os.chmod(base + '.sh', 0o755)
        print('%s (%s): %s' % (v['job'], v['cfg'], v['msg']))
        for r in v['replays']:
            print('  %s: exit %d: %s' % (os.path.basename(r['bin']), r['code'], r['stderr'].strip()[-300:]))
        print('VIOLATION property=%s replay=%s.sh' % (pid, base))
        sys.exit(1)
    if problems:
        for p in problems[:12]:
            print('ERROR: ' + p)
        sys.exit(2)
    sys.exit(0)


def replay_samples(pid, samples, progs, seed, most):
    """Models of completed paths, run natively: every assertion holds and the same markers are reached."""
    import random
    from concurrent.futures import ThreadPoolExecutor
    samples.sort()
    rnd = random.Random(seed)
    rnd.shuffle(samples)
    # each job first
    first, rest, seen = [], [], set()
    for s in samples:
        (rest if s[:3] in seen else first).append(s)
        seen.add(s[:3])
    pick = (first + rest)[:most]
    d = '%s/out/replay-%s-%d' % (B, pid, os.getpid())
    os.makedirs(d, exist_ok=True)

    def one(x):
        n, (cfg, job, param, text) = x
        f = '%s/%d' % (d, n)
        with open(f, 'w') as h:
            h.write(text)
        want = text.split('\n', 1)[0].split()[1:]
        b = progs[cfg] + ('/replay-release' if n % 2 else '/replay-dev')
        try:
            r = subprocess.run([b, job, str(param), f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return (x[1], -1, [], want, 'timeout')
        got = [l.split()[1] for l in r.stdout.split('\n') if l.startswith('cover ')]
        return (x[1], r.returncode, got, want, r.stderr)
    ok, out, bad = 0, [], []
    with ThreadPoolExecutor(4) as ex:
        for (cfg, job, param, text), rc, got, want, err in ex.map(one, enumerate(pick)):
            if rc == 0 and got == want:
                ok += 1
                out.append({'configuration': cfg, 'job': job, 'param': param, 'inputs': text[:700], 'markers': want})
            else:
                bad.append('the native run of %s:%d (%s) differs: exit %s, markers %s, expected %s: %s' % (job, param, cfg, rc, got, want, err[-200:]))
    if not bad:
        shutil.rmtree(d)
    return ok, out, bad


def load_known(pid):
    o = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                # finding: property=ID job=NAME param=N msg="..." :: what fails
                head, _, what = l.partition(' :: ')
                o.append((head, what))
    return o


def known_match(v, known):
    for head, what in known:
        if ' job=%s ' % v['job'] in head + ' ' and ' param=%d ' % v['param'] in head + ' ' and ('msg="%s"' % v['msg']) in head:
            return what
    return None


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['setup']:
        setup()
    elif a[:1] == ['check'] and len(a) > 1:
        check(a[1])
    else:
        print(__doc__)
        sys.exit(2)
