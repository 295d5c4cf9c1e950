"""Scratch build of /repo's current working tree.

Every check works on a private copy of /repo/qmeq (sources only plus those compiled extensions which
provably belong to the current sources); extensions whose source, any .pxd or the tool chain changed
are compiled here.  /repo itself is never written to.
"""
import hashlib, json, os, shutil, subprocess, sys, sysconfig, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VQ_REPO', '/repo')
PY = '/opt/venv/bin/python'
EXT = '.cpython-312-x86_64-linux-gnu.so'


class BuildError(Exception):
    pass


def _sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def run_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='2', MKL_NUM_THREADS='1',
               PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    return env


def make_scratch():
    base = tempfile.mkdtemp(prefix='vq-')
    return base


def copy_tree(dst):
    def ignore(d, names):
        return [n for n in names if n == '__pycache__' or n == 'tests' or n.endswith('.c') or n.endswith('.so')]
    shutil.copytree(os.path.join(REPO, 'qmeq'), os.path.join(dst, 'qmeq'), ignore=ignore)


def prepare(dst):
    """Copy and build; returns a dict describing what was reused and what was compiled."""
    t0 = time.time()
    copy_tree(dst)
    root = os.path.join(dst, 'qmeq')
    pyx = []
    shared = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, dst)
            if f.endswith('.pyx'):
                pyx.append(rel)
            elif f.endswith(('.pxd', '.pxi')):
                shared[rel] = _sha(p)
    rec = {'shared': {}, 'pyx': {}}
    try:
        with open(os.path.join(REPO, 'build', 'vp-hashes.json')) as f:
            rec = json.load(f)
    except (OSError, ValueError):
        pass
    rshared = {k: v for k, v in rec.get('shared', {}).items() if k.endswith(('.pxd', '.pxi'))}
    shared_ok = rshared == shared
    info = {'reused': [], 'compiled': []}
    todo = []
    for rel in sorted(pyx):
        so = os.path.join(REPO, rel[:-4] + EXT)
        if shared_ok and rec.get('pyx', {}).get(rel) == _sha(os.path.join(dst, rel)) and os.path.exists(so):
            shutil.copy2(so, os.path.join(dst, rel[:-4] + EXT))
            info['reused'].append(rel)
        else:
            todo.append(rel)
    if todo:
        env = run_env()
        inc = subprocess.run([PY, '-c', 'import numpy,sysconfig;print(numpy.get_include());'
                              'print(sysconfig.get_paths()["include"])'],
                             capture_output=True, text=True, env=env, check=True).stdout.split('\n')

        def one(rel):
            r = subprocess.run([PY, '-m', 'cython', '-2', rel], cwd=dst, env=env, capture_output=True, text=True)
            if r.returncode:
                raise BuildError('cython %s\n%s' % (rel, (r.stdout + r.stderr)[-3000:]))
            c = rel[:-4] + '.c'
            r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-fwrapv', '-fopenmp', '-w', '-DNDEBUG',
                                '-I', inc[0], '-I', inc[1], c, '-o', rel[:-4] + EXT],
                               cwd=dst, env=env, capture_output=True, text=True)
            if r.returncode:
                raise BuildError('gcc %s\n%s' % (rel, (r.stdout + r.stderr)[-3000:]))
            os.remove(os.path.join(dst, c))
            return rel
        with ThreadPoolExecutor(8) as ex:
            info['compiled'] = list(ex.map(one, todo))
    info['seconds'] = round(time.time() - t0, 2)
    return info


if __name__ == '__main__':
    d = sys.argv[1] if len(sys.argv) > 1 else make_scratch()
    print(d, prepare(d))
