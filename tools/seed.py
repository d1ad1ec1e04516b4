#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy: seed.py DIR...   (DIR = seeded/<id>, with patch.diff, demo.sh, meta.json)
builds the copy, runs the demo before and after the patch and the stable tests with the patch.  Not used by any check."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd=None, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace')


def confirm(d):
    d = os.path.abspath(d)
    w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        sh('cp -a /repo/. %s/ && rm -rf %s/_build' % (w, w))
        sh('git checkout -q -- . ', w)
        sc = {}
        for n in ('build', 'test'):
            s = open('/opt/vp/%s.sh' % n).read().replace('/repo/lib', '/@lib').replace('/repo', w).replace('/@lib', '/repo/lib').replace('/opt/vp/build.sh', w + '/.build.sh')
            open(w + '/.%s.sh' % n, 'w').write(s)
        b = sh('bash %s/.build.sh' % w)
        if b.returncode:
            return d, 'base build failed\n' + b.stdout[-500:]
        demo = tempfile.mkdtemp(prefix='demo_', dir='/tmp')
        sh('cp -r %s/. %s/ && rm -f %s/*.diff %s/*.patch %s/meta.json' % (d, demo, demo, demo, demo))
        r0 = sh('bash %s/demo.sh' % demo, w, 300)
        a = sh('git apply %s/patch.diff' % d, w)
        if a.returncode:
            return d, 'patch does not apply: ' + a.stdout
        b = sh('bash %s/.build.sh' % w)
        if b.returncode:
            return d, 'patched build failed\n' + b.stdout[-800:]
        r1 = sh('bash %s/demo.sh' % demo, w, 300)
        sh('bash %s/.test.sh %s/.out.json' % (w, w), None, 900)
        t = open(w + '/.out.json').read()
        bad = [x for x in STABLE if x not in passed(json.loads(t))]
        shutil.rmtree(demo)
        ok = r0.returncode == 0 and r1.returncode != 0 and not bad
        return d, ('OK' if ok else 'FAIL') + ' demo clean=%d patched=%d tests failing=%s\n   clean: %s\n   patched: %s' % (
            r0.returncode, r1.returncode, bad, r0.stdout.strip()[-300:], r1.stdout.strip()[-300:])
    finally:
        shutil.rmtree(w)


def passed(j):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if isinstance(v, str) and v.lower().startswith('pass'):
                    out.add(k)
                if k == 'passed' and isinstance(v, list):
                    out.update(v)
                if k in ('id', 'name') and str(x.get('status', x.get('outcome', ''))).lower().startswith('pass'):
                    out.add(v)
                walk(v)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(j)
    return out


if __name__ == '__main__':
    with ThreadPoolExecutor(1) as ex:
        for d, r in ex.map(confirm, sys.argv[1:]):
            print(os.path.basename(d), r, flush=True)
