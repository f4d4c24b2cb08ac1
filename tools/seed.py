#!/usr/bin/env python3
"""Builds and confirms planted bugs in scratch copies.  python3 tools/seed.py ID... (definitions: tools/seeds.py)
Each: edits -> patch.diff; builds, tests, demo with and without the change; runs the property's check on the copy."""
import os, sys, json, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
BL = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, **env):
    e = dict(os.environ); e.update(env)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def one(sid, args):
    s = SEEDS[sid]
    d = '/tmp/wt_' + sid
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    try:
        for path, pairs in s['edits'].items():
            t = open(os.path.join(d, path)).read()
            for a, b in pairs:
                assert t.count(a) == 1, (sid, path, t.count(a), a)
                t = t.replace(a, b)
            open(os.path.join(d, path), 'w').write(t)
        diff = subprocess.run(['git', 'diff'], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        out = os.path.join(V, 'seeded', sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(s['demo'])
        nc = 'export PYRSISTENT_NO_C_EXTENSION=1\n' if s.get('nocext') else ''
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\n# Exit 0: the property holds on this example.\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n' + nc + 'timeout 120 /opt/venv/bin/python "$here/demo.py"\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r = []
        if 'notest' not in args:
            for f in ('build.sh', 'test.sh'):
                t = open('/opt/vp/' + f).read().replace('/repo', d).replace('/opt/vp/build.sh', d + '.build.sh')
                open(d + '.' + f, 'w').write(t)
            b = sh('bash %s.build.sh' % d, d)
            if b.returncode: print(sid, 'BUILD FAILED', b.stdout[-800:]); return
            sh('bash %s.test.sh %s.json' % (d, d), d)
            p = set(json.load(open(d + '.json'))['passed'])
            miss = sorted(BL - p)
            r.append('tests missing %d %s' % (len(miss), miss[:3]))
            for f in ('.build.sh', '.test.sh', '.json'): os.remove(d + f)
            x = sh('bash %s/demo.sh' % out, d)
            y = sh('bash %s/demo.sh' % out, '/repo')
            r.append('demo with=%d without=%d' % (x.returncode, y.returncode))
            if x.returncode == 0 or y.returncode: r.append(x.stdout[-300:] + y.stdout[-300:])
        if 'nocheck' not in args:
            for prop in [s['property']] + [a for a in args if a.startswith('C')]:
                t = time.time()
                c = sh('python3-vt check.py %s --tier quick' % prop, V, SX_REPO=d)
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('  ')][:2]
                r.append('check %s rc=%d %.0fs %s' % (prop, c.returncode, time.time() - t, ' '.join(v)[:260]))
                if c.returncode != 1: r.append(c.stdout[-600:])
        print(sid, '|', ' | '.join(r), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = [a for a in sys.argv[1:] if a in SEEDS] or ([i for i in SEEDS] if 'all' in sys.argv else [])
for i in ids: one(i, sys.argv[1:])
