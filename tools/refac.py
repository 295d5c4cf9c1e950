"""Edits that keep the behaviour, on a scratch copy:  refac.py FILE [--only N,N] [--props C01,...] [--keep]
Applies all edits of FILE (EDITS = [(file, old, new)]), builds, runs the tests and the checks, reports alarms and undecided."""
import json, os, re, shutil, subprocess, sys
V = '/verif'
sys.path.insert(0, V)
from vq import build
a = sys.argv[1:]
opt = lambda k: a[a.index(k) + 1].split(',') if k in a else None
ns = {}
exec(open(a[0]).read(), ns)
E = ns['EDITS']
if opt('--only'):
    E = [E[int(i)] for i in opt('--only')]
d = '/tmp/refac-' + os.path.basename(a[0])
shutil.rmtree(d, ignore_errors=True)
shutil.copytree('/repo', d, symlinks=True)
for i, (f, old, new) in enumerate(E):
    p = os.path.join(d, f)
    s = open(p).read()
    if s.count(old) < 1:
        print('edit', i, f, 'does not apply:', old.strip().split('\n')[0])
        continue
    open(p, 'w').write(s.replace(old, new, 1))
sub = d + '/b'
os.makedirs(sub)
build.REPO = d
build.prepare(sub)
for root, _, fs in os.walk(sub + '/qmeq'):
    for f in fs:
        if f.endswith('.so'):
            shutil.copy2(os.path.join(root, f), os.path.join(d, os.path.relpath(root, sub), f))
shutil.rmtree(sub)
r = subprocess.run('%s -m pytest -q -x -p no:cacheprovider qmeq/tests 2>&1 | tail -4' % build.PY, shell=True, cwd=d, env=build.run_env(), capture_output=True, text=True)
print('tests:', r.stdout.strip()[-700:])
for p in opt('--props') or ['C%02d' % i for i in range(1, 21)]:
    r = subprocess.run('VQ_REPO=%s python3 -m vq.check %s' % (d, p), shell=True, cwd=V, capture_output=True, text=True)
    ev = json.load(open(V + '/evidence/%s.json' % p))
    c = ev['coverage']
    print(p, 'rc', r.returncode, '%d/%d' % (c.get('discharged', 0), c.get('obligations', 0)), '%.0fs' % ev['wall_s'], r.stdout.strip()[:700] if r.returncode else '', flush=True)
    for u in c.get('undecided', [])[:40]:
        print('      undecided', str(u)[:260])
    for u in c.get('refuted', [])[:40]:
        print('      REFUTED', str(u)[:400])
if '--keep' not in a:
    shutil.rmtree(d)
