"""Makes and confirms planted bugs (seeded/<id>/). Not used by any check.

    from seed import seed
    seed(id, property, edits=[(file, old, new), ...], pkg=, demo=SOURCE, needs=, breaks=)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from check import go_env
WT = '/tmp/seedwt'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

DEMO = '''#!/bin/bash
# Run in the repository. Fails when the planted bug is there.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf -- "$W"' EXIT
export TMPDIR="$W"
. /opt/vp/env.sh
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$W/overlay.json"
%(env)sgo test -overlay "$W/overlay.json" -vet=off -count=1 -timeout 200s %(flags)s -run '^TestDemo' ./%(pkg)s
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, cwd=WT, env=go_env(False), capture_output=True, text=True, **kw)


def tests_ok(pkgs):
    r = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '10m'] + pkgs)
    failed, passed = set(), set()
    for l in r.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Test') and e.get('Action') in ('pass', 'fail'):
            (passed if e['Action'] == 'pass' else failed).add(e['Package'] + '/' + e['Test'])
    return [t for t in STABLE if t in failed], len(passed & STABLE)


def seed(id, property, edits, pkg, demo, needs, breaks, flags='', env='', alltests=True):
    if not os.path.exists(WT):
        subprocess.run(['cp', '-a', '/repo', WT], check=True)
    sh(['git', 'fetch', '-q', '/repo', 'HEAD'])
    sh(['git', 'reset', '-q', '--hard', 'FETCH_HEAD'])
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo_test.go', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg, flags=flags, env=env))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': property, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    ok = True
    r = sh(['bash', d + '/demo.sh'])
    if r.returncode != 0:
        print(id, 'DEMO FAILS ON CLEAN', r.stdout[-3000:], r.stderr[-1500:]); ok = False
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, 'old text count', s.count(old), f); return False
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh(['git', 'diff']).stdout)
    r = sh(['go', 'build', './...'])
    if r.returncode != 0:
        print(id, 'DOES NOT BUILD', r.stderr); return False
    r = sh(['bash', d + '/demo.sh'])
    if r.returncode == 0:
        print(id, 'DEMO PASSES WITH PATCH'); ok = False
    else:
        print(id, 'demo:', [l for l in r.stdout.splitlines() if 'demo_test' in l or '---' in l or 'panic' in l][:4])
    bad, n = tests_ok(['./...'] if alltests else ['./' + pkg])
    if bad:
        print(id, 'TESTS FAIL', bad); ok = False
    print(id, 'OK' if ok else 'NOT OK', 'stable passed', n)
    sh(['git', 'checkout', '-q', '--', '.'])
    return ok
