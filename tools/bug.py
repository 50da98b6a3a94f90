"""tools/bug.py new ID PROP  < spec : make a planted change from edits (development helper)
   tools/bug.py test ID...          : confirm it (build, tests, demo) and run the check on it

spec (JSON on stdin): {"edits": [[file, old, new], ...], "demo": python text, "needs":..., "breaks":...}
"""
import json
import os
import subprocess
import sys

SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this scenario, nonzero: it does not
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu JAX_PLATFORM_NAME=cpu PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    r = sh('git', '-C', '/repo', 'status', '--porcelain')
    assert not r.stdout.strip(), r.stdout


def undo():
    sh('git', '-C', '/repo', 'checkout', '--', '.')


def new(id_, prop):
    spec = json.load(sys.stdin)
    clean()
    try:
        for f, old, nw in spec['edits']:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, nw))
        diff = sh('git', '-C', '/repo', 'diff').stdout
    finally:
        undo()
    d = os.path.join(SEED, id_)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(spec['demo'])
    json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
              open(d + '/meta.json', 'w'), indent=1)


def demo(id_):
    r = sh('bash', os.path.join(SEED, id_, 'demo.sh'), cwd='/repo')
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]


def test(id_, tests=True):
    clean()
    d = os.path.join(SEED, id_)
    prop = json.load(open(d + '/meta.json'))['property']
    d0 = demo(id_)
    r = sh('git', '-C', '/repo', 'apply', d + '/patch.diff')
    assert r.returncode == 0, r.stderr
    try:
        d1 = demo(id_)
        b = sh('bash', '/opt/vp/build.sh').returncode
        miss = '-'
        if tests:
            sh('bash', '/opt/vp/test.sh', '/tmp/bugtest.json')
            base = json.load(open('/opt/vp/BASELINE.json'))
            got = json.load(open('/tmp/bugtest.json'))
            ps = lambda o: set(o.get('passed') or o.get('stable') or o.get('tests') or o)
            miss = sorted(ps(base) - ps(got))
            os.remove('/tmp/bugtest.json')
        c = sh('./run.sh', prop, '--quick', cwd='/verif')
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    finally:
        undo()
    ok = d0[0] == 0 and d1[0] != 0 and b == 0 and not (tests and miss)
    print(f'{id_} {prop} {"COUNTS" if ok else "BAD"} demo clean={d0} patched={d1} build={b} '
          f'missing={miss} check rc={c.returncode} {"CAUGHT" if c.returncode == 1 and v else "MISSED"} {v[:1]}',
          flush=True)


if sys.argv[1] == 'new':
    new(*sys.argv[2:])
else:
    a = sys.argv[2:]
    t = '--notests' not in a
    for i in [x for x in a if not x.startswith('--')]:
        test(i, t)
