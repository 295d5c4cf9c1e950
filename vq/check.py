"""Driver of one check:  python3 -m vq.check C07   [--replay FILE]

Decides one property on /repo's current working tree:
 1. a private scratch build of the tree (vq/build.py);
 2. the deductive engine (vq/dv, under python3-vt) generates the proof obligations of the property from the
    current sources and discharges them;
 3. the runtime contracts of the property (vq/rt) are evaluated on the real code: they replay refutations and
    stand in, bounded, for what the engine leaves undecided.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time

from . import build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VQ_NPROC', '8'))
TITLES = {}
RT_CAP = {'quick': 90., 'thorough': 600.}
DV_CAP = {'quick': 150., 'thorough': 600.}
CASE_CAP = 150.
DV_PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'


def titles():
    with open(os.path.join(VERIF, 'properties.jsonl')) as f:
        return {d['id']: d for d in map(json.loads, f)}


def known(prop):
    """(open findings [(regex, text)], lines of repaired ones) of a property."""
    opened, fixed = [], []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', line.strip())
                if m and m.group(1) == prop:
                    opened.append((m.group(2), m.group(3)))
                m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line.strip())
                if m and m.group(1) == prop:
                    fixed.append(m.group(2))
    except OSError:
        pass
    return opened, fixed


def worker_env(scratch):
    env = build.run_env()
    env['PYTHONPATH'] = VERIF + os.pathsep + scratch
    return env


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


class Runtime:
    def __init__(self, prop, seed, tier, scratch, cap):
        self.scratch, self.cap = scratch, cap
        self.out = os.path.join(scratch, 'rt')
        os.makedirs(self.out, exist_ok=True)
        self.t0 = time.time()
        self.p = []
        for i in range(NPROC):
            f = open(os.path.join(self.out, '%d.err' % i), 'wb')
            self.p.append(subprocess.Popen(
                [build.PY, '-m', 'vq.rt.worker', prop, str(seed), tier, str(i), str(NPROC), str(cap),
                 os.path.join(self.out, str(i))], cwd=scratch, env=worker_env(scratch), stdout=f, stderr=f,
                stdin=subprocess.DEVNULL, start_new_session=True))
            f.close()

    def wait(self):
        last = {}
        hung = set()
        while any(p.poll() is None for p in self.p):
            time.sleep(0.05)
            now = time.time()
            for i, p in enumerate(self.p):
                if p.poll() is None:
                    try:
                        m = os.stat(os.path.join(self.out, '%d.cur' % i)).st_mtime_ns
                    except OSError:
                        m = 0
                    if last.get(i, (None,))[0] != m:
                        last[i] = (m, now)
                    elif now - last[i][1] > CASE_CAP:
                        hung.add(i)
                        kill(p)
        tot = dict(n=0, nontrivial=0, skipped=0, harness=[], violations=[], samples=[], kinds={}, complete=True)
        for i, p in enumerate(self.p):
            o = os.path.join(self.out, str(i))
            if os.path.exists(o):
                with open(o) as f:
                    r = json.load(f)
                for k in ('n', 'nontrivial', 'skipped'):
                    tot[k] += r[k]
                for k in ('harness', 'violations', 'samples'):
                    tot[k] += r[k]
                for k, v in r['kinds'].items():
                    tot['kinds'][k] = tot['kinds'].get(k, 0) + v
                tot['complete'] &= r['complete']
                continue
            tot['complete'] = False
            try:
                with open(os.path.join(self.out, '%d.err' % i), errors='replace') as f:
                    err = f.read()[-1500:]
            except OSError:
                err = ''
            try:
                with open(o + '.cur') as f:
                    case = json.loads(f.read())
            except (OSError, ValueError):
                case = None
            rc = p.returncode
            if case is not None and i in hung:
                tot['violations'].append({'case': case, 'message': 'does not end within %d s on a valid input' % CASE_CAP, 'index': -1})
            elif case is not None and rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE):
                tot['violations'].append({'case': case, 'message': 'the process died with signal %d on a valid input' % -rc, 'index': -1})
            else:
                tot['harness'].append({'index': -1, 'message': 'worker ended with %s: %s' % (rc, err)})
        tot['wall'] = round(time.time() - self.t0, 2)
        tot['samples'] = tot['samples'][:3]
        return tot


class Deductive:
    def __init__(self, prop, tier, scratch, cap):
        self.out = os.path.join(scratch, 'dv.json')
        self.cap = cap
        self.t0 = time.time()
        self.p = None
        if not os.path.exists(os.path.join(VERIF, 'vq', 'dv', 'main.py')):
            return
        env = build.run_env()
        env['PYTHONPATH'] = VERIF
        self.err = os.path.join(scratch, 'dv.err')
        with open(self.err, 'wb') as f:
            self.p = subprocess.Popen([DV_PY, '-m', 'vq.dv.main', prop, scratch, tier, str(cap), self.out], cwd=scratch,
                                      env=env, stdout=f, stderr=f, stdin=subprocess.DEVNULL, start_new_session=True)

    def wait(self):
        empty = dict(obligations=[], functions=[], assumptions=[], drops=[], note='')
        if self.p is None:
            return dict(empty, note='no engine')
        try:
            self.p.wait(max(1., self.cap + 20 - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            kill(self.p)
            self.p.wait()
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            with open(self.err, errors='replace') as f:
                return dict(empty, note='engine ended without an answer: ' + f.read()[-2000:])


def run_case(prop, case, scratch, timeout=CASE_CAP):
    """Judge one case in a fresh process of the real code: (verdict, message)."""
    f = os.path.join(scratch, 'case-%s.json' % hashlib.md5(json.dumps(case).encode()).hexdigest()[:8])
    with open(f, 'w') as h:
        json.dump(case, h)
    try:
        r = subprocess.run([build.PY, '-m', 'vq.rt.replay', prop, f], cwd=scratch, env=worker_env(scratch),
                           capture_output=True, text=True, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return 'violation', 'does not end within %d s on a valid input' % timeout
    if r.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE):
        return 'violation', 'the process died with signal %d on a valid input' % -r.returncode
    for line in reversed(r.stdout.splitlines()):
        if line.startswith('{'):
            try:
                d = json.loads(line)
                return d['verdict'], d['message']
            except ValueError:
                pass
    return 'harness', (r.stdout + r.stderr)[-1500:]


def write_replay(prop, kind, body):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    txt = json.dumps(dict(property=prop, kind=kind, **body), indent=1)
    path = os.path.join(d, '%s-%s-%s.json' % (prop, kind, hashlib.md5(txt.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(txt)
    return os.path.relpath(path, VERIF)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in RT_CAP:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = build.make_scratch()
    try:
        try:
            info = build.prepare(scratch)
        except build.BuildError as e:
            print('the tree does not build: %s' % e)
            return 2
        if '--replay' in sys.argv:
            with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
                d = json.load(f)
            if 'case' not in d:
                print(json.dumps(d, indent=1))
                return 0
            v, m = run_case(prop, d['case'], scratch)
            print(v, m)
            return 1 if v == 'violation' else 0
        return decide(prop, tier, seed, scratch, info, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, scratch, info, t0):
    D = Deductive(prop, tier, scratch, DV_CAP[tier])
    R = Runtime(prop, seed, tier, scratch, RT_CAP[tier])
    rt = R.wait()
    dv = D.wait()
    opened, fixed = known(prop)
    lines, nviol, seen_known = [], 0, set()

    def report(msg, path, tail=''):
        nonlocal nviol
        for rx, text in opened:
            if re.search(rx, msg):
                if text not in seen_known:
                    seen_known.add(text)
                    lines.append('KNOWN-FINDING: property=%s %s' % (prop, text))
                return
        nviol += 1
        print('%s: %s' % (prop, msg))
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, tail))

    vs, told = [], set()
    for v in rt['violations']:      # one replay of each known finding is enough
        k = [t for rx, t in opened if re.search(rx, v['message'])]
        if not k or k[0] not in told:
            vs.append(v)
            told.update(k)
    for v in vs[:5]:
        again = run_case(prop, v['case'], scratch)
        path = write_replay(prop, 'case', dict(
            message=v['message'], case=v['case'], seed=seed, tier=tier, rerun_in_a_fresh_process=again,
            how='python3 -m vq.check %s --replay <this file>' % prop))
        report(v['message'], path)
    obl = dv['obligations']
    for o in obl:
        if o['status'] != 'refuted':
            continue
        path = None
        for case in o.get('cases', [])[:20]:
            v, m = run_case(prop, case, scratch)
            if v == 'violation':
                path = write_replay(prop, 'obligation', dict(obligation=o['name'], detail=o.get('detail'), case=case, message=m))
                report('obligation %s: %s' % (o['name'], m), path)
                break
        if path is None:
            path = write_replay(prop, 'obligation', dict(obligation=o['name'], detail=o.get('detail'), backend=o.get('backend'),
                                                         failing_input='none found'))
            if any(not any(re.search(rx, v['message']) for rx, _ in opened) for v in rt['violations']):   # the failing inputs are those of the runtime contracts
                report('obligation %s fails: %s' % (o['name'], str(o.get('detail'))[:400]), path)
            else:
                report('obligation %s fails: %s' % (o['name'], str(o.get('detail'))[:400]), path, ' no-failing-input-found')
    # ------------------------------------------------------------------ evidence
    discharged = [o for o in obl if o['status'] == 'proved']
    by = {}
    for o in discharged:
        by[o.get('backend', '?')] = by.get(o.get('backend', '?'), 0) + 1
    meta = json.loads(subprocess.run([build.PY, '-c', 'import json,sys\nfrom vq.rt import worker\nP=worker.load(sys.argv[1])\n'
                                      'print(json.dumps([P.FUNCS,P.BOUND]))', prop], env=worker_env(scratch),
                                     capture_output=True, text=True).stdout or '[[],""]')
    level = level_of(prop)
    if level == 'proof' and (not obl or len(discharged) < len(obl)):
        level = 'exploration'       # this run does not rest on a complete proof
    cov = {
        'evaluations': rt['n'], 'distinct_nontrivial': rt['nontrivial'], 'skipped_by_preconditions': rt['skipped'],
        'rule': 'Runtime contracts (bounded stand-in, never counted as proved): %s. A case is non-trivial when all its '
                'preconditions held and every postcondition was evaluated; distinct by hash.' % meta[1],
        'samples': rt['samples'], 'kinds': rt['kinds'], 'runtime_complete': rt['complete'], 'runtime_wall_s': rt['wall'],
        'runtime_functions': meta[0], 'harness_errors': len(rt['harness']), 'harness_examples': rt['harness'][:2],
        'obligations': len(obl), 'discharged': len(discharged), 'discharged_by': by,
        'undecided': [{'name': o['name'], 'why': str(o.get('detail'))[:300]} for o in obl if o['status'] == 'undecided'],
        'refuted': [o['name'] for o in obl if o['status'] == 'refuted'],
        'obligation_names': [o['name'] for o in discharged], 'solver_s': round(sum(o.get('time', 0.) for o in obl), 3),
        'functions_under_contract': dv['functions'], 'extraction_drops': dv['drops'], 'engine_note': dv.get('note', ''),
        'self_tests': dv.get('self_tests', {}),
        'checker_cmd': 'python3-vt -m vq.dv.main %s <scratch> %s <cap> <out>' % (prop, tier),
        'trusted_base': dv['assumptions'], 'build': {k: len(v) if isinstance(v, list) else v for k, v in info.items()},
        'explanation': 'Proof obligations generated from the current sources are counted in obligations/discharged; the '
                       'runtime contracts are a bounded check of the same functions and of what the engine cannot reach.',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': dv['assumptions'] or ['runtime contracts only: nothing is proved in this run'],
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for line in lines:
        print(line)
    print('%s %s: %d/%d obligations discharged, %d undecided; %d contract evaluations (%d non-trivial), %d harness errors, '
          '%.1f s' % (prop, 'BROKEN' if nviol else 'held', len(discharged), len(obl), len(cov['undecided']), rt['n'],
                      rt['nontrivial'], len(rt['harness']), time.time() - t0))
    if nviol:
        return 1
    if rt['n'] == 0 and not discharged:
        print('nothing was explored: %s %s' % (rt['harness'][:2], dv.get('note')))
        return 2
    return 0


def level_of(prop):
    with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
        for c in json.load(f)['checks']:
            if c['property'] == prop:
                return c['level']
    return 'other'


if __name__ == '__main__':
    sys.exit(main())
