#!/usr/bin/env python3
"""Runs the check of one property. Usage: check.py <ID> [--tier quick|thorough] [--replay FILE] [--bin-only]

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not run.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time, glob, base64
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
GOROOT = '/opt/veriftools/go1.24.13'
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def go_env(synctest):
    e = dict(os.environ)
    for k in ('GOOS', 'GOARCH', 'GOFLAGS', 'GOEXPERIMENT'):
        e.pop(k, None)
    e.update(HOME='/root', GOROOT=GOROOT, GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off',
             GOFLAGS='-mod=mod -buildvcs=false', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
             GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'), CGO_ENABLED='1',
             PATH=GOROOT + '/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    if synctest:
        e['GOEXPERIMENT'] = 'synctest'
    return e


def make_overlay(work, pkg, files):
    """Adds the kit, and the harness files of one suite to package directory pkg."""
    rep = {}
    for f in sorted(glob.glob(os.path.join(HARNESS, 'kit', '*.go'))):
        rep[os.path.join(REPO, 'proxy/internal/verifkit', os.path.basename(f))] = f
    for f in sorted(glob.glob(os.path.join(HARNESS, 'helpers', '*', '*.go'))):
        d = os.path.basename(os.path.dirname(f))
        rep[os.path.join(REPO, 'proxy/internal', d, os.path.basename(f))] = f
    for f in files:
        src = os.path.join(HARNESS, f)
        rep[os.path.join(REPO, pkg, os.path.basename(f))] = src
    # Products of go generate that git ignores: the build makes them; any
    # content will do where they are missing.
    for name in ('pki.wasm.bz2', 'wasm_exec.js'):
        p = os.path.join(REPO, 'proxy/internal/pki', name)
        if not os.path.exists(p):
            ph = os.path.join(work, name)
            if not os.path.exists(ph):
                open(ph, 'w').write('placeholder')
            rep[p] = ph
    path = os.path.join(work, 'overlay.json')
    json.dump({'Replace': rep}, open(path, 'w'))
    # The module file: /repo's own go.mod and go.sum, plus rapid.
    mod = os.path.join(work, 'go.mod')
    text = open(os.path.join(REPO, 'go.mod')).read()
    text += '\nrequire pgregory.net/rapid v1.3.0\n'
    open(mod, 'w').write(text)
    s = open(os.path.join(REPO, 'go.sum')).read()
    for line in open(os.path.join(VERIF, 'gomod/rapid.sum')):
        if line not in s:
            s += line
    open(os.path.join(work, 'go.sum'), 'w').write(s)
    return path, mod


def build(work, part, out, fuzz=False):
    overlay, mod = make_overlay(work, part['pkg'], part['files'])
    cmd = ['go', 'test', '-c', '-vet=off', '-modfile', mod, '-overlay', overlay, '-o', out]
    if part.get('race'):
        cmd.append('-race')
    if part.get('tags'):
        cmd += ['-tags', part['tags']]
    if fuzz:
        cmd += ['-fuzz', part['fuzz'][0]]
    cmd.append('./' + part['pkg'])
    r = subprocess.run(cmd, cwd=REPO, env=go_env(part.get('synctest')), capture_output=True, text=True, errors='replace')
    if r.returncode != 0 or not os.path.exists(out):
        print('BUILD FAILED: ' + ' '.join(cmd))
        print(r.stdout[-4000:] + r.stderr[-8000:])
        return False
    # The programs that the harness runs.
    for name, d in part.get('bins', []):
        cmd = ['go', 'build', '-modfile', mod, '-overlay', overlay, '-o', os.path.join(work, 'bin', name), './' + d]
        r = subprocess.run(cmd, cwd=REPO, env=go_env(False), capture_output=True, text=True, errors='replace')
        if r.returncode != 0:
            print('BUILD FAILED: ' + ' '.join(cmd))
            print(r.stdout[-4000:] + r.stderr[-8000:])
            return False
    return True


def run_proc(binary, part, tests, seed, budget, tier, work, idx, checks, failfile=None, extra_env=None):
    cwd = os.path.join(work, 'run%s' % idx)
    shutil.rmtree(cwd, ignore_errors=True)
    os.makedirs(os.path.join(cwd, 'out'))
    os.makedirs(os.path.join(cwd, 'tmp'))
    env = go_env(part.get('synctest'))
    env.update(VERIF_OUT=os.path.join(cwd, 'out'), VERIF_BUDGET=str(budget), VERIF_TIER=tier,
               VERIF_PROC_SEED=str(seed), TMPDIR=os.path.join(cwd, 'tmp'), VERIF_HARNESS=HARNESS,
               VERIF_BIN=os.path.join(work, 'bin'))
    if part.get('gomaxprocs'):
        env['GOMAXPROCS'] = str(part['gomaxprocs'])
    if extra_env:
        env.update(extra_env)
    hang = budget * max(1, part.get('ntests', 1)) + part.get('slack', 240)
    cmd = [binary, '-test.run', '^(%s)$' % tests, '-test.v=false', '-test.timeout', '%ds' % hang,
           '-rapid.seed', str(seed), '-rapid.checks', str(checks), '-rapid.shrinktime',
           str(part.get('shrinktime', 20)) + 's']
    if part.get('steps'):
        cmd += ['-rapid.steps', str(part['steps'])]
    if failfile:
        cmd += ['-rapid.failfile', failfile]
    log = os.path.join(cwd, 'log')
    with open(log, 'wb') as lf:
        try:
            rc = subprocess.run(cmd, cwd=cwd, env=env, stdout=lf, stderr=subprocess.STDOUT,
                                timeout=hang + 60).returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    with open(log, 'rb') as lf:
        data = lf.read()
    text = data.decode('utf8', 'replace')
    return dict(rc=rc, log=text, cwd=cwd, seed=seed, cmd=cmd)


def classify(r):
    """ok, violation, infra."""
    if r['rc'] == 0:
        return 'ok'
    if r['rc'] == 77 or 'VERIF-INFRA:' in r['log']:
        return 'infra'
    if r['rc'] in (-9, 137):  # killed, e.g. for memory
        return 'infra'
    return 'violation'


LOST = re.compile(r'deadline exceeded|no recent network activity|i/o timeout|hangs|timed out|time-out')


def lost(part, r):
    """Something over QUIC timed out once, and not when repeated.

    quic-go loses a connection every few 100000 on the loopback interface."""
    i = r['log'].find('Original traceback (')
    return (any(f.endswith('verif_h3_test.go') for f in part['files']) and r['rc'] == 1 and i >= 0
            and r['log'].count('--- FAIL:') == 1 and LOST.search(r['log'][i:i + 300].split('\n')[0]) is not None)


def shown(log):
    """The part of a log that tells the most."""
    i = log.find('Original traceback (')
    if i >= 0:  # Failed once, and not when repeated.
        return log[max(0, i - 500):i + 3000] + '\n...\n' + log[-2500:]
    return log[-6000:]


def tail_of_interest(log):
    lines = log.splitlines()
    keep = [l for l in lines if '[rapid]' in l or 'panic' in l or 'VERIF' in l or '--- FAIL' in l or 'fatal error' in l]
    return '\n'.join(keep[:40])


def save_replay(pid, part, tests, r, tier, budget):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, int(time.time() * 1000)))
    ff = glob.glob(os.path.join(r['cwd'], 'testdata', 'rapid', '**', '*.fail'), recursive=True)
    fails = {os.path.relpath(f, r['cwd']): open(f, errors='surrogateescape').read() for f in ff}
    m = re.findall(r'--- FAIL: (\S+)', r['log'])
    corpus = {}
    for f in glob.glob(os.path.join(r['cwd'], 'testdata', 'fuzz', '**', '*'), recursive=True):
        if os.path.isfile(f):
            corpus[os.path.relpath(f, r['cwd'])] = base64.b64encode(open(f, 'rb').read()).decode()
    json.dump(dict(property=pid, part=part['name'], tests=tests, failing=m, seed=r['seed'], tier=tier, budget=budget,
                   failfiles=fails, corpus=corpus, log=r['log'] if len(r['log']) < 60000 else r['log'][:30000] + '\n...\n' + r['log'][-30000:]), open(path, 'w'), indent=1)
    return path


def replay(pid, path, work):
    d = json.load(open(path))
    part = [p for p in CHECKS[pid]['parts'] if p['name'] == d['part']][0]
    binary = os.path.join(work, 'replay.test')
    if not build(work, part, binary):
        return 2
    bad = False
    if d['failfiles']:
        for name, content in d['failfiles'].items():
            f = os.path.join(work, os.path.basename(name))
            open(f, 'w', errors='surrogateescape').write(content)
            test = name.split('/')[2]
            r = run_proc(binary, part, test, d['seed'], 1, d['tier'], work, 'replay', 1, failfile=f)
            print(r['log'][-6000:])
            bad = bad or classify(r) == 'violation'
    else:
        r = run_proc(binary, part, '|'.join(d['failing']) or d['tests'], d['seed'], d['budget'], d['tier'], work, 'replay', part.get('checks', 1000000))
        print(r['log'][-6000:])
        bad = classify(r) == 'violation'
    if bad:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


def run_fuzz(pid, part, work, seconds):
    """Coverage-guided fuzzing with Go's engine (thorough tier)."""
    res = []
    for target in part['fuzz']:
        binary = os.path.join(work, 'fuzz.test')
        p = dict(part, fuzz=[target])
        if not build(work, p, binary, fuzz=True):
            return None
        cwd = os.path.join(work, 'fuzz-' + target)
        os.makedirs(os.path.join(cwd, 'cache'))
        os.makedirs(os.path.join(cwd, 'out'))
        os.makedirs(os.path.join(cwd, 'tmp'))
        env = go_env(part.get('synctest'))
        env.update(VERIF_OUT=os.path.join(cwd, 'out'), TMPDIR=os.path.join(cwd, 'tmp'), VERIF_TIER='thorough', VERIF_HARNESS=HARNESS)
        cmd = [binary, '-test.run', '^$', '-test.fuzz', '^%s$' % target, '-test.fuzzcachedir', os.path.join(cwd, 'cache'),
               '-test.fuzztime', '%ds' % seconds, '-test.parallel', '8']
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True)
        log = (r.stdout + r.stderr).decode('utf8', 'replace')
        ex = re.findall(r'execs: (\d+)', log)
        ni = re.findall(r'new interesting: (\d+)', log)
        res.append(dict(rc=r.returncode, log=log, cwd=cwd, seed=0, cmd=cmd, execs=int(ex[-1]) if ex else 0,
                        interesting=int(ni[-1]) if ni else 0, target=target))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--procs', type=int)
    ap.add_argument('--part')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.id
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    cfg = CHECKS[pid]
    seed0 = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    rc = 2
    try:
        if a.replay:
            rc = replay(pid, a.replay, work)
            return rc
        rc = run(pid, cfg, tier, seed0, t0, work, a)
        return rc
    finally:
        if a.keep or (a.v and rc != 0):
            print('work directory: ' + work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def run(pid, cfg, tier, seed0, t0, work, a):
    evals, keys, samples, known, classes, rules, parts_info = 0, set(), [], [], {}, [], []
    violations, infra = [], []
    parts = [p for p in cfg['parts'] if not a.part or p['name'] == a.part]
    for part in parts:
        part = dict(part)
        if tier == 'thorough':
            part.update(part.get('thorough', {}))
        binary = os.path.join(work, part['name'] + '.test')
        tb = time.time()
        if not build(work, part, binary):
            print('ERROR: the harness of %s does not build against this tree' % pid)
            return 2
        build_s = time.time() - tb
        budget = a.budget or part.get('budget', 15)
        if tier == 'thorough' and not a.budget and 'budget' not in part.get('thorough', {}):
            budget = max(budget * 10, 120)
        procs = a.procs or part.get('procs', 6)
        checks = part.get('checks', 1000000)

        unconfirmed = []

        def one(i):
            seed = seed0 * 1000003 + i * 100000007 + 1
            once = []
            for attempt in range(3):
                r = run_proc(binary, part, part['tests'], seed, budget, tier, work, '%s-%d-%d' % (part['name'], i, attempt), checks)
                c = classify(r)
                if c == 'violation' and not once and lost(part, r):
                    # It counts if it happens again, or to another process.
                    once.append(r)
                    unconfirmed.append((c, r))
                    seed += 10007
                    continue
                if c != 'infra':
                    break
            return c, r
        with ThreadPoolExecutor(procs) as ex:
            results = list(ex.map(one, range(procs)))
        if len(unconfirmed) > 1:
            results += unconfirmed
        elif unconfirmed:
            print('--- %s seed=%d: timed out once, not confirmed' % (part['name'], unconfirmed[0][1]['seed']))
            print(shown(unconfirmed[0][1]['log']))
            classes['unconfirmed time-outs'] = classes.get('unconfirmed time-outs', 0) + 1
        pe = 0
        for c, r in results:
            for f in sorted(glob.glob(os.path.join(r['cwd'], 'out', '*.json'))):
                s = json.load(open(f))
                evals += s['evaluations']
                pe += s['evaluations']
                keys.update(part['name'] + s['test'] + k for k in (s['keys'] or []))
                rule = '%s: %s' % (s['test'], s['rule'])
                if rule not in rules:
                    rules.append(rule)
                samples.append((s['test'], s['samples'] or []))
                for k, v in (s['classes'] or {}).items():
                    classes[s['test'] + ': ' + k] = classes.get(s['test'] + ': ' + k, 0) + v
                for k in s['known'] or []:
                    if k not in known:
                        known.append(k)
            if a.v or c != 'ok':
                print('--- %s seed=%d: %s (rc=%s)' % (part['name'], r['seed'], c, r['rc']))
                print(shown(r['log']) if c != 'ok' else r['log'][-1500:])
            if c == 'violation':
                violations.append((part, r, budget))
            if c == 'infra':
                infra.append((part, r))
        parts_info.append('%s: build %.1fs, %d processes x %.0fs, %d evaluations' % (part['name'], build_s, procs, budget, pe))
        if tier == 'thorough' and part.get('fuzz') and not violations:
            fr = run_fuzz(pid, part, work, int(part.get('fuzztime', 120)))
            if fr is None:
                return 2
            for r in fr:
                evals += r['execs']
                classes['coverage-guided %s execs' % r['target']] = r['execs']
                classes['coverage-guided %s interesting inputs' % r['target']] = r['interesting']
                if r['rc'] != 0:
                    print(r['log'][-6000:])
                    violations.append((part, r, budget))
    wall = time.time() - t0
    sm = []
    seen_tests = {}
    for test, ss in samples:
        for x in ss:
            if seen_tests.get(test, 0) < 4:
                seen_tests[test] = seen_tests.get(test, 0) + 1
                sm.append('%s: %s' % (test, x))
    ev = dict(property=pid, tier=tier, seed=seed0, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=' | '.join(rules), samples=sm[:24],
                            classes=classes, runs=parts_info),
              wall_s=round(wall, 2), assumptions=cfg.get('assumptions', []), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s %s: %d evaluations, %d distinct non-trivial, %.1fs; %s' % (pid, tier, evals, len(keys), wall, '; '.join(parts_info)))
    if violations:
        part, r, budget = violations[0]
        path = save_replay(pid, part, part['tests'], r, tier, budget)
        print(tail_of_interest(r['log']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if infra:
        print('ERROR: could not run: ' + tail_of_interest(infra[0][1]['log']))
        return 2
    if evals == 0:
        print('ERROR: nothing was evaluated')
        return 2
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
