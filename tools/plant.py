#!/usr/bin/env python3
"""Makes and validates planted bugs (development aid; no check uses it).

plant.py make SPEC.py      SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (python source)
plant.py validate ID...    in scratch copies: patch applies, demo passes without and fails with it, stable tests pass, which checks see it
"""
import json
import os
import subprocess
import sys

V = '/verif/seeded'
W = '/tmp/plant'
DEMO_SH = '''#!/bin/bash
# run with cwd at the repository; exit 0 on the unchanged tree
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    sh('rm -rf /tmp/plant; cp -a /repo /tmp/plant')
    sh('git reset -q --hard', cwd=W)


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, g['ID'])
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(W):
        fresh()
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=W)
    for path, old, new in g['EDITS']:
        p = os.path.join(W, path)
        s = open(p).read()
        assert s.count(old) == 1, (g['ID'], path, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=W).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(g['DEMO'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, cwd=W)
    sh('git reset -q --hard', cwd=W)
    q = sh('bash %s/demo.sh' % d, cwd=W)
    print(g['ID'], 'demo with patch', r.returncode, 'without', q.returncode, '' if r.returncode and not q.returncode else 'BAD\n' + r.stderr[-500:] + q.stderr[-800:])


TEST = open('/opt/vp/test.sh').read().replace('/repo', W)


def validate(ids, tests=True):
    fresh()
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        d = os.path.join(V, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        sh('git reset -q --hard', cwd=W)
        a = sh('bash %s/demo.sh' % d, cwd=W).returncode
        r = sh('git apply %s/patch.diff' % d, cwd=W)
        assert r.returncode == 0, (i, r.stderr)
        b = sh('bash %s/demo.sh' % d, cwd=W).returncode
        q = sh('./check %s quick' % meta['property'], cwd='/verif', env=dict(os.environ, VERIF_REPO=W, VERIF_SEED='1'))
        law = [x[:110] for x in q.stdout.split('\n') if x.startswith('law ')][:1]
        lost = '-'
        if tests:
            open('/tmp/plant_test.sh', 'w').write(TEST)
            sh('bash /tmp/plant_test.sh /tmp/plant_out.json')
            o = json.load(open('/tmp/plant_out.json'))
            lost = sorted(base - set(o['passed']))
        print(i, meta['property'], 'demo', a, b, 'check', q.returncode, law, 'tests lost', len(lost) if tests else '-', lost[:3], flush=True)


if sys.argv[1] == 'make':
    for s in sys.argv[2:]:
        make(s)
elif sys.argv[1] == 'validate':
    validate(sys.argv[2:])
else:
    validate(sys.argv[2:], tests=False)
