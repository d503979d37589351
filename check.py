#!/usr/bin/env python3
"""Driver of the generated checks.

  check.py ID                     run the check of property ID (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py ID --replay FILE       re-execute a recorded plan
  check.py --setup                build everything once

Exit 0: held. Exit 1: a line VIOLATION property=<id> replay=<path>. Exit 2: the check itself failed.
"""
import argparse, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, 'harness')
REPO = '/repo'
MOD = 'github.com/go-stomp/stomp/v3'

def load_checks():
    with open(os.path.join(HERE, 'checks.json')) as f:
        return json.load(f)

def goenv():
    e = dict(os.environ)
    e['HOME'] = e.get('HOME') or '/root'
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.update(GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOSUMDB='off')
    e.setdefault('GOCACHE', e['HOME'] + '/.cache/go-build')
    e.setdefault('GOPATH', e['HOME'] + '/go')
    e.setdefault('GOMODCACHE', e['GOPATH'] + '/pkg/mod')
    for k in list(e):
        if k.startswith('VERIF_'):
            del e[k]
    return e

class CheckError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode != 0:
        raise CheckError('%s failed (%d):\n%s' % (' '.join(cmd), p.returncode, p.stdout[-6000:]))
    return p.stdout

def build(variant, scratch, program=None):
    env = goenv()
    for f in ('go.mod', 'go.sum'):
        shutil.copy(os.path.join(HARNESS, f), os.path.join(scratch, f))
    mod = ['-modfile', os.path.join(scratch, 'go.mod')]
    out = os.path.join(scratch, 'props-%s.test' % variant)
    cmd = ['go', 'test', '-vet=off', '-c', '-o', out] + mod
    if variant == 'instr':
        inst = os.path.join(scratch, 'instrument')
        run(['go', 'build', '-o', inst] + mod + ['./cmd/instrument'], cwd=HARNESS, env=env)
        gen = os.path.join(scratch, 'gen')
        os.mkdir(gen)
        run([inst, '-repo', REPO, '-overlaysrc', os.path.join(HARNESS, '_overlay'), '-out', gen], env=env)
        cmd += ['-overlay', os.path.join(gen, 'overlay.json'), '-tags', 'instr']
    elif variant == 'race':
        cmd += ['-race']
    run(cmd + ['./props'], cwd=HARNESS, env=env)
    if program:
        run(['go', 'build', '-o', os.path.join(scratch, program)] + mod + [MOD + '/' + program], cwd=HARNESS, env=env)
    return out

def splitmix(x):
    x = (x + 0x9e3779b97f4a7c15) & (2**64 - 1)
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & (2**64 - 1)
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & (2**64 - 1)
    return x ^ (x >> 31)

def worker_seed(seed, pid, w):
    h = int.from_bytes(hashlib.sha256(('%s/%d/%d' % (pid, seed, w)).encode()).digest()[:8], 'big')
    return (splitmix(h) >> 1) or 1

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()

class Worker:
    def __init__(self, binary, scratch, name, env, args):
        self.name = name
        self.out = os.path.join(scratch, name + '.out.json')
        self.cur = os.path.join(scratch, name + '.cur.json')
        self.err = os.path.join(scratch, name + '.stderr')
        e = goenv()
        e.update(env)
        e.update(VERIF_OUT=self.out, VERIF_CUR=self.cur)
        self.f = open(self.err, 'wb')
        self.p = subprocess.Popen([binary, '-test.run', '^TestCheck$', '-test.timeout', '0', '-rapid.nofailfile'] + args,
                                  cwd=scratch, env=e, stdout=self.f, stderr=subprocess.STDOUT, preexec_fn=limits)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def collect(self):
        """-> (output dict or None, crash failure or None)"""
        self.f.close()
        out = None
        if os.path.exists(self.out):
            with open(self.out) as f:
                out = json.load(f)
        with open(self.err, errors='replace') as f:
            text = f.read()
        if out and (out.get('done') or out.get('failures')) and self.p.returncode in (0, 1, 4):
            out['failures'] = out.get('failures') or []
            return out, None
        return out, self.crash(text)

    def crash(self, text):
        try:
            with open(self.cur) as f:
                fl = json.load(f)
        except (OSError, ValueError):
            fl = None
        lib, why = classify_crash(text)
        if fl is None:
            return {'harness': True, 'fail': 'worker %s ended with %s before any case\n%s' % (self.name, self.p.returncode, text[-4000:])}
        fl['harness'] = not lib
        fl['fail'] = (why or 'worker ended with %s' % self.p.returncode)
        fl['log'] = text[-8000:] if not lib else ''
        return fl

def classify_crash(text):
    """Is this process death caused by code of the module under test?"""
    m = re.search(r'WARNING: DATA RACE\n(.*?)(?:={10,}|\Z)', text, re.S)
    if m:
        body = m.group(1)
        # the racing accesses themselves (not the creation stacks) must be in the module under test
        acc = body.split('Goroutine ')[0]
        first = acc.split('Previous ')
        lib = any(MOD in top_frames(a) for a in first)
        return lib, 'data race:\n' + body[:6000]
    m = re.search(r'^(panic: .*?|fatal error: .*?)$(.*)', text, re.S | re.M)
    if m:
        head, rest = m.group(1), m.group(2)
        g = re.search(r'\n(goroutine \d+ .*?\n(?:.*?))(?:\n\n|\Z)', rest, re.S)
        st = g.group(1) if g else rest
        if head.startswith('fatal error') and 'concurrent map' not in head and 'deadlock' not in head and 'stack' not in head:
            return False, head + '\n' + rest[:5000]
        return MOD in st, head + '\n' + rest[:5000]
    return False, None

def top_frames(s):
    # an access inside bytes/strings/etc called by the module counts as the module's
    return '\n'.join(s.split('\n')[:14])

def read_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['known'] if k['property'] == pid]

def reductions(x):
    """Smaller variants of a JSON value, big cuts first."""
    if isinstance(x, list):
        n = len(x)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                if not (i == 0 and size >= n and n == 0):
                    yield x[:i] + x[i + size:]
            size //= 2
        for i, v in enumerate(x):
            for r in reductions(v):
                yield x[:i] + [r] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            for r in reductions(x[k]):
                d = dict(x)
                d[k] = r
                yield d
    elif isinstance(x, int) and not isinstance(x, bool) and x > 0:
        for v in (0, 1, x // 2):
            if v < x:
                yield v

def crash_again(binary, scratch, base_env, fl, n):
    path = os.path.join(scratch, 'shrink.json')
    with open(path, 'w') as f:
        json.dump(fl, f)
    e = dict(base_env)
    e.update(VERIF_REPLAY=path, VERIF_REPEAT=str(n))
    for f in glob.glob(os.path.join(scratch, 'shrink.*')):
        if f != path:
            os.unlink(f)
    w = Worker(binary, scratch, 'shrink', e, [])
    try:
        w.p.wait(timeout=60)
    except subprocess.TimeoutExpired:
        w.kill(); w.p.wait()
        return False
    out, crash = w.collect()
    if crash:
        return not crash.get('harness')
    return any(not f.get('harness') for f in out['failures'])

def shrink_crash(binary, scratch, base_env, fl, budget):
    t0 = time.time()
    if not crash_again(binary, scratch, base_env, fl, 3):
        return fl
    best = fl
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for cand in reductions(best['plan']):
            if time.time() - t0 > budget:
                break
            c = dict(best)
            c['plan'] = cand
            if crash_again(binary, scratch, base_env, c, 2):
                best, progress = c, True
                break
    return best

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--repeat', type=int, default=1)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--part', default='')
    a = ap.parse_args()
    checks = load_checks()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % (a.id or 'setup'))
    try:
        if a.setup:
            for v in sorted({c['build'] for c in checks.values()}):
                build(v, tempfile.mkdtemp(dir=scratch))
            print('setup ok')
            return 0
        return check(a, checks, scratch)
    except CheckError as e:
        print('CHECK-ERROR:', e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def check(a, checks, scratch):
    t0 = time.time()
    pid = a.id
    if pid not in checks:
        raise CheckError('unknown property %r' % pid)
    cfg = checks[pid]
    if a.seed is None:
        try:
            a.seed = int(os.environ.get('VERIF_SEED') or 1)
        except ValueError:
            a.seed = 1
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    program = cfg.get('program')
    binary = build(cfg['build'], scratch, program)
    built = time.time()
    known = read_known(pid)
    race = cfg['build'] == 'race'
    workers = a.workers or cfg.get('workers', 8)
    base = {'VERIF_ID': pid, 'VERIF_TIER': tier, 'VERIF_KNOWN': '\n'.join(k['sig'] for k in known),
            'GOMAXPROCS': '4' if race else '1', 'GORACE': 'halt_on_error=1 exitcode=66', 'GOTRACEBACK': 'all',
            'VERIF_VERBOSE': os.environ.get('VERIF_VERBOSE', '')}
    if program:
        base['VERIF_PROGRAM'] = os.path.join(scratch, program)
    if a.part:
        base['VERIF_PART'] = a.part
    if a.replay:
        e = dict(base)
        e.update(VERIF_REPLAY=os.path.abspath(a.replay), VERIF_REPEAT=str(a.repeat))
        w = Worker(binary, scratch, 'replay', e, [])
        w.p.wait()
        out, crash = w.collect()
        if os.environ.get('VERIF_VERBOSE'):
            print(open(w.err, errors='replace').read()[-20000:])
        fl = crash or (out['failures'][0] if out['failures'] else None)
        if fl is None:
            print('replay: the property held')
            return 0
        print(fl['fail'])
        if fl.get('harness'):
            raise CheckError('the harness failed: ' + fl.get('log', ''))
        print('VIOLATION property=%s replay=%s' % (pid, a.replay))
        return 1
    budget = 420 if tier == 'quick' else int(os.environ.get('VERIF_THOROUGH_S') or 3000)
    ws = []
    for i in range(workers):
        e = dict(base)
        e.update(VERIF_WORKERS=str(workers), VERIF_BUDGET=str(budget), VERIF_SCALE=str(a.scale))
        if i == 0:
            e['VERIF_CORPUS'] = os.path.join(HERE, 'corpus', pid)
        ws.append(Worker(binary, scratch, 'w%d' % i, e, ['-rapid.seed=%d' % worker_seed(a.seed, pid, i), '-rapid.shrinktime=12s']))
    limit = t0 + (750 if tier == 'quick' else budget + 600)
    failures, parts, errors = [], {}, []
    live = list(ws)
    grace = None
    timed_out = False
    while live:
        for w in list(live):
            if w.p.poll() is None:
                continue
            live.remove(w)
            out, crash = w.collect()
            if out:
                merge(parts, out['parts'])
                failures += out.get('failures') or []
            if crash:
                failures.append(dict(crash, crash=True))
            if failures and grace is None:
                grace = time.time() + 15
        if grace is not None and time.time() > grace or time.time() > limit:
            timed_out = time.time() > limit and grace is None
            for w in live:
                w.kill(); w.p.wait()
                try:
                    with open(w.out) as f:
                        o = json.load(f)
                    merge(parts, o['parts'])
                    failures += o.get('failures') or []
                except (OSError, ValueError):
                    pass
            live = []
        time.sleep(0.05)
    real = [f for f in failures if not f.get('harness')]
    errors = [f for f in failures if f.get('harness')]
    for s in sorted({k['sig'] for k in known}):
        hit = [p for p in parts.values() if p['known'].get(s)]
        if hit:
            k = [k for k in known if k['sig'] == s][0]
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = evidence(pid, cfg, tier, a.seed, parts, len(real), time.time() - t0, built - t0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n, p in sorted(parts.items()):
        print('%s/%s: %d cases, %d distinct non-trivial, corpus %d%s; %s' % (pid, n, p['evaluations'], len(p['hashes']), p['corpus'],
              ', stopped by the time budget' if p['truncated'] else '', ', '.join('%s %d' % kv for kv in sorted(p['labels'].items()))))
    if real:
        real.sort(key=lambda f: (bool(f.get('crash')), len(json.dumps(f.get('plan')))))
        fl = real[0]
        if fl.get('crash') and not race:
            fl = shrink_crash(binary, scratch, base, fl, 40)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        js = json.dumps({k: fl.get(k) for k in ('property', 'part', 'fail', 'sig', 'plan')}, indent=1)
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (pid, hashlib.sha256(js.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(js + '\n')
        print('%s/%s: %s' % (pid, fl.get('part'), fl['fail'][:3000]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        raise CheckError('harness: ' + errors[0].get('fail', '')[:6000] + '\n' + (errors[0].get('log') or '') + '\n' + json.dumps(errors[0].get('plan'))[:3000])
    if timed_out:
        raise CheckError('time limit')
    if not any(p['evaluations'] for p in parts.values()):
        raise CheckError('nothing was evaluated')
    print('%s: held (%.1f s, build %.1f s)' % (pid, time.time() - t0, built - t0))
    return 0

def merge(acc, parts):
    for n, p in parts.items():
        q = acc.setdefault(n, {'evaluations': 0, 'nontrivial': 0, 'hashes': set(), 'labels': {}, 'samples': [], 'rule': p['rule'],
                               'known': {}, 'truncated': False, 'corpus': 0})
        q['evaluations'] += p['evaluations']
        q['nontrivial'] += p['nontrivial']
        q['hashes'].update(p['hashes'] or [])
        q['corpus'] += p['corpus']
        q['truncated'] |= p['truncated']
        for f in ('labels', 'known'):
            for k, v in (p[f] or {}).items():
                q[f][k] = q[f].get(k, 0) + v
        if len(q['samples']) < 6:
            q['samples'] += (p['samples'] or [])[:2]

def evidence(pid, cfg, tier, seed, parts, nviol, wall, build_s):
    cov = {
        'evaluations': sum(p['evaluations'] for p in parts.values()),
        'distinct_nontrivial': sum(len(p['hashes']) for p in parts.values()),
        'rule': 'Plans are drawn by rapid from the generators in harness/props. ' + ' '.join('[%s] non-trivial: %s.' % (n, p['rule']) for n, p in sorted(parts.items())),
        'samples': [{'part': n, 'plan': s} for n, p in sorted(parts.items()) for s in p['samples'][:3]],
        'parts': {n: {'evaluations': p['evaluations'], 'distinct_nontrivial': len(p['hashes']), 'labels': dict(sorted(p['labels'].items())),
                      'regression_plans_replayed': p['corpus'], 'stopped_by_time_budget': p['truncated'], 'known_findings_hit': p['known']}
                  for n, p in sorted(parts.items())},
    }
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
            'assumptions': cfg.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nviol}

if __name__ == '__main__':
    sys.exit(main())
