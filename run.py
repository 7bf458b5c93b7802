#!/usr/bin/env python3
"""Runs the runtime monitors of one property: python3 run.py C01 [--tier quick|thorough] [--seed N] [--scale X]
   python3 run.py --setup            builds both variants of the harness
   python3 run.py --replay FILE      replays one recorded violation"""
import fcntl, glob, hashlib, json, os, re, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TARGET = os.path.join(HERE, 'target')
VARIANTS = ['dbg', 'release']
WALL = {'quick': 400, 'thorough': 7200}
HARD = {'quick': 700, 'thorough': 14400}
LEVEL = json.load(open(os.path.join(HERE, 'levels.json')))
CORES = os.cpu_count() or 8


def say(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e['CARGO_TARGET_DIR'] = TARGET
    e['RUSTC_WRAPPER'] = os.path.join(HERE, 'harness', 'rustc-wrapper.sh')
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTFLAGS', 'RUSTC', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUST_BACKTRACE'):
        e.pop(k, None)
    return e


def digest():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, 'src'), os.path.join(HERE, 'harness', 'src')):
        for d, dirs, names in os.walk(root):
            dirs.sort()
            files += [os.path.join(d, n) for n in sorted(names)]
    files += [os.path.join(REPO, 'Cargo.toml'), os.path.join(HERE, 'harness', 'Cargo.toml'),
              os.path.join(HERE, 'harness', 'rustc-wrapper.sh')]
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read() + b'\0')
    return h.hexdigest()


def build():
    """Builds both variants from the working tree of /repo. Decides by content, not by time stamps."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = digest()
        todo = []
        for v in VARIANTS:
            stamp = os.path.join(TARGET, v + '.stamp')
            have = open(stamp).read() if os.path.exists(stamp) else ''
            if have != want or not os.path.exists(os.path.join(TARGET, v, 'uv')):
                todo.append(v)
        if not todo:
            return
        for v in todo:
            subprocess.run(['cargo', 'clean', '--offline', '--profile', v, '-p', 'uflow', '-p', 'uv'], cwd=os.path.join(HERE, 'harness'),
                           env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        # cargo serialises builds of one target directory, but builds of different profiles can share it
        ps = []
        for v in todo:
            e = env()
            ps.append((v, subprocess.Popen(['cargo', 'build', '--offline', '--quiet', '--profile', v], cwd=os.path.join(HERE, 'harness'), env=e,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bad = False
        for v, p in ps:
            o, _ = p.communicate()
            if p.returncode != 0:
                say('build of variant %s failed:\n%s' % (v, o[-6000:]))
                bad = True
            else:
                with open(os.path.join(TARGET, v + '.stamp'), 'w') as f:
                    f.write(want)
        if bad:
            say('INCONCLUSIVE: the harness does not build against this tree')
            sys.exit(2)


def uv(v):
    return os.path.join(TARGET, v, 'uv')


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def single(v, prop, sc, index, seed, tier, timeout=240):
    """Runs one case alone. Returns (verdict, text)."""
    cmd = [uv(v), 'case', prop, sc, str(index), '--seed', str(seed), '--tier', tier]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        stop(p)
        return 'timeout', 'did not finish within %d s' % timeout
    if p.returncode == 0:
        return 'held', ''
    m = re.search(r'^VIOLATED (.*)$', o, re.M)
    if p.returncode == 1 and m:
        return 'violated', m.group(1)
    m = re.search(r'^FATAL (.*)$', o, re.M)
    if p.returncode == 77 and m:
        return 'violated', m.group(1).split('\t')[-1]
    if p.returncode < 0 and p.returncode != -signal.SIGKILL:
        return 'violated', 'the process was ended by signal %d: %s' % (-p.returncode, o.strip()[-300:])
    return 'broken', 'exit %d: %s' % (p.returncode, o.strip()[-300:])


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def run(prop, tier, seed, scale):
    t0 = time.time()
    lv = LEVEL[prop]
    build()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    ps = []
    for k, v in enumerate(VARIANTS):
        out = os.path.join(TARGET, 'out.%s.%s.%d.json' % (prop, v, os.getpid()))
        cmd = [uv(v), 'run', '--prop', prop, '--out', out, '--tier', tier, '--seed', str(seed), '--threads', str(CORES), '--first', str(k),
               '--wall', str(WALL[tier]), '--variant', v, '--scale', str(scale)]
        ps.append((v, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)))
    results, violations, problems = [], [], []
    for v, out, p in ps:
        try:
            o, _ = p.communicate(timeout=max(10, HARD[tier] - (time.time() - t0)))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            stop(p)
            rc, o = 'timeout', ''
        if rc in (0, 1, 2) and os.path.exists(out):
            d = json.load(open(out))
            results.append(d)
            for x in d['violations']:
                violations.append((v, x['scenario'], x['index'], x['text']))
            for x in d['broken']:
                problems.append('%s %s %d: %s' % (v, x['scenario'], x['index'], x['text']))
            for x in d['lacking']:
                problems.append('%s observed too little: %s' % (v, x))
        else:
            # The process died or hung: find out which of the cases that were running did it
            suspects = []
            fatal = out + '.fatal'
            if rc == 77 and os.path.exists(fatal):
                f = open(fatal).read().strip().split('\t')
                suspects.append((f[0], int(f[1])))
            else:
                for pf in glob.glob(out + '.p*'):
                    f = open(pf).read().strip().split('\t')
                    if len(f) == 2:
                        suspects.append((f[0].strip(), int(f[1])))
            found = False
            for sc, index in suspects:
                verdict, text = single(v, prop, sc, index, seed, tier, 60 if rc == 'timeout' else 240)
                if verdict == 'violated':
                    violations.append((v, sc, index, text))
                    found = True
                    break
            if not found:
                problems.append('%s ended with %s and no case reproduces it: %s' % (v, rc, o.strip()[-500:]))
        for f in glob.glob(out + '*'):
            os.unlink(f)

    for key, text in known_findings(prop):
        seen = sum(d['known'].get(key, 0) for d in results)
        if seen:
            say('KNOWN-FINDING: property=%s %s (seen in %d cases)' % (prop, text, seen))
        elif results:
            say('note: known finding %s was not observed in this run' % key)
    listed = {k for k, _ in known_findings(prop)}
    for d in results:
        for k in d['known']:
            if k not in listed:
                violations.append((d['variant'], 'known', 0, 'finding %s is not listed in known_findings.txt' % k))

    replays = []
    for n, (v, sc, index, text) in enumerate(violations[:5]):
        path = os.path.join(HERE, 'replays', '%s-%s-%s-%s-%d.json' % (prop, v, sc, index, seed))
        json.dump({'property': prop, 'variant': v, 'scenario': sc, 'index': index, 'seed': seed, 'tier': tier, 'text': text,
                   'how': 'python3 run.py --replay ' + path}, open(path, 'w'), indent=1)
        say('%s/%s #%d: %s' % (v, sc, index, text[:600]))
        replays.append(path)

    wall = time.time() - t0
    merge = lambda key: {k: sum(d[key].get(k, 0) for d in results) for k in sorted({k for d in results for k in d[key]})}
    top = lambda key: {k: max(d[key].get(k, 0) for d in results) for k in sorted({k for d in results for k in d[key]})}
    samples = []
    for d in results:
        for x in d['samples'][:6]:
            samples.append({'variant': d['variant'], **x})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': lv['level'],
        'coverage': {
            'evaluations': sum(d['evaluations'] for d in results),
            'distinct_nontrivial': sum(d['distinct_nontrivial'] for d in results),
            'rule': results[0]['rule'] if results else '',
            'samples': samples[:10],
            'trivial_cases': sum(d['trivial'] for d in results),
            'cases_not_run_for_time': sum(d['skipped'] for d in results),
            'observed': merge('observations'),
            'extremes': top('maxima'),
            'scenarios': {d['variant']: d['scenarios'] for d in results},
            'instrumented_edges_of_the_library': {d['variant']: '%d of %d reached' % (d['edges_hit'], d['edges_total']) for d in results},
            'variants': {d['variant']: {'evaluations': d['evaluations'], 'wall_s': d['wall_s'], 'violations': d['n_violations']} for d in results},
            'inconclusive': problems[:8],
        },
        'assumptions': lv['assumptions'] + LEVEL['common'],
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    if violations:
        say('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(replays[0], HERE)))
        return 1
    if problems or len(results) != len(VARIANTS):
        for p in problems:
            say('INCONCLUSIVE: ' + p)
        return 2
    say('%s held: %d cases (%d distinct, non-trivial) in %.0f s' % (prop, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], wall))
    return 0


def main():
    a = sys.argv[1:]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    if a and a[0] == '--setup':
        build()
        return 0
    if a and a[0] == '--replay':
        build()
        r = json.load(open(a[1]))
        verdict, text = single(r['variant'], r['property'], r['scenario'], r['index'], r['seed'], r['tier'])
        say(verdict, text)
        return 1 if verdict == 'violated' else 0
    seed = opt('--seed', os.environ.get('VERIF_SEED', '1'))
    seed = int(seed) if re.fullmatch(r'\d{1,18}', seed) else int(hashlib.sha256(seed.encode()).hexdigest()[:12], 16)
    tier = opt('--tier', os.environ.get('VERIF_TIER', 'quick'))
    return run(a[0], tier if tier in WALL else 'quick', seed, float(opt('--scale', '1')))


sys.exit(main())
