"""Validate planted bugs:  plant.py ID...   (no argument: all)
For each seeded/ID: a scratch copy of /repo, patch, build, stable tests, demonstration on both, checks of its property.
  --new FILE  : FILE is a python file with BUGS = [...] to write into seeded/ first
  --nocheck, --notest"""
import json, os, shutil, subprocess, sys
V = '/verif'
sys.path.insert(0, V)
from vq import build
PY = build.PY


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def write(bugs):
    base = '/tmp/plantw'
    for b in bugs:
        d = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(base, ignore_errors=True)
        sh('git clone -q /repo %s' % base)
        for f, old, new in b['edits']:
            p = os.path.join(base, f)
            s = open(p).read()
            assert s.count(old) == 1 or b.get('first'), (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new, 1))
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % base).stdout)
        open(d + '/demo.py', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                                        'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(base)


def scratch(tag, patch=None):
    d = '/tmp/plant-' + tag
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh('cp -a /repo/. %s/' % d)
    if patch:
        r = sh('git -C %s apply %s' % (d, patch))
        if r.returncode:
            print('  patch does not apply', r.stderr)
            return None
    env = dict(os.environ)
    sub = d + '/b'
    os.makedirs(sub)
    build.REPO = d
    build.prepare(sub)
    for root, _, fs in os.walk(sub + '/qmeq'):
        for f in fs:
            if f.endswith('.so'):
                shutil.copy2(os.path.join(root, f), os.path.join(d, os.path.relpath(root, sub), f))
    shutil.rmtree(sub)
    return d


def demo(i, d):
    shutil.rmtree('/tmp/plant-demo', ignore_errors=True)
    shutil.copytree(os.path.join(V, 'seeded', i), '/tmp/plant-demo')
    return sh('bash /tmp/plant-demo/demo.sh', cwd=d, timeout=300)


def main():
    a = sys.argv[1:]
    if '--new' in a:
        ns = {}
        exec(open(a[a.index('--new') + 1]).read(), ns)
        write(ns['BUGS'])
        ids = [b['id'] for b in ns['BUGS']]
    else:
        ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    clean = scratch('clean')
    for i in ids:
        meta = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
        d = scratch('bug', '%s/seeded/%s/patch.diff' % (V, i))
        if d is None:
            continue
        r0, r1 = demo(i, clean), demo(i, d)
        out = [i, meta['property'], 'demo clean %d bug %d' % (r0.returncode, r1.returncode)]
        if r0.returncode:
            out.append('\n   CLEAN FAILS ' + (r0.stdout + r0.stderr)[-600:])
        if r1.returncode == 0:
            out.append('\n   BUG NOT SHOWN ' + (r1.stdout + r1.stderr)[-300:])
        if '--notest' not in a:
            r = sh('%s -m pytest -q -x -p no:cacheprovider qmeq/tests 2>&1 | tail -8' % PY, cwd=d, env=build.run_env())
            out.append('tests: ' + (r.stdout.strip().split('\n') or ['?'])[-1])
            if 'failed' in r.stdout:
                out.append(r.stdout)
        if '--nocheck' not in a:
            r = sh('VQ_REPO=%s python3 -m vq.check %s' % (d, meta['property']), cwd=V)
            out.append('check rc %d: %s' % (r.returncode, ' | '.join(r.stdout.strip().split('\n')[:2])[:400]))
            if r.returncode > 1:
                out.append(r.stdout[-500:] + r.stderr[-1500:])
        print(*out, flush=True)
    for t in ('clean', 'bug', 'demo'):
        shutil.rmtree('/tmp/plant-' + t, ignore_errors=True)


main()
