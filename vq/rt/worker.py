"""One worker: evaluates the runtime contracts of one property on its share of the cases."""
import collections, hashlib, importlib, json, os, sys, time, traceback

MODULES = {'C01': 'p_index', 'C02': 'p_index', 'C03': 'p_dot', 'C04': 'p_dot', 'C05': 'p_dot', 'C06': 'p_dot',
           'C07': 'p_gen', 'C08': 'p_gen', 'C09': 'p_gen', 'C11': 'p_gen', 'C13': 'p_gen', 'C10': 'p_same',
           'C15': 'p_same', 'C16': 'p_same', 'C20': 'p_same', 'C14': 'p_sol', 'C18': 'p_sol', 'C12': 'p_spec',
           'C17': 'p_rtd', 'C19': 'p_2vn'}


def load(prop):
    return getattr(importlib.import_module('vq.rt.' + MODULES[prop]), prop)


def judge(P, case):
    """(verdict, message): verdict ok / trivial / violation / harness."""
    from vq.rt import core
    import warnings
    import numpy as np
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = P.run(core.dec(case))
        return ('ok' if r or r is None else 'trivial'), ''
    except core.Contract as e:
        return 'violation', str(e)
    except core.Skip as e:
        return 'skip', str(e)
    except MemoryError:
        return 'harness', 'MemoryError'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1].filename
        inq = [f for f in tb if os.sep + 'qmeq' + os.sep in f.filename or f.filename.startswith('qmeq')
               or f.filename.endswith('.pyx')]
        txt = '%s: %s (%s)' % (type(e).__name__, e, '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                                             for f in tb[-4:]))
        mine = os.sep + 'vq' + os.sep + 'rt' + os.sep in last
        if inq and not mine:
            return 'violation', 'exception on a valid input: ' + txt
        if isinstance(e, (IndexError, ValueError, ZeroDivisionError, np.linalg.LinAlgError)):
            # results of an unexpected shape or without a value; never happens on the unchanged tree
            return 'violation', 'the contract cannot be evaluated on the results: ' + txt
        return 'harness', txt


def main():
    prop, seed, tier, idx, nproc, cap, out = sys.argv[1:8]
    seed, idx, nproc, cap = int(seed), int(idx), int(nproc), float(cap)
    t0 = time.time()
    res = dict(n=0, nontrivial=0, skipped=0, harness=[], violations=[], samples=[], kinds={})
    from vq.rt import core, gen
    P = load(prop)
    total = P.total(tier)
    cur = out + '.cur'
    hashes = set()
    kinds = collections.Counter()
    i = idx
    while i < total and time.time() - t0 < cap:
        g = gen.R([seed, int(prop[1:]), i])
        case = core.enc(P.make(g, i, tier))
        txt = json.dumps(case)
        with open(cur, 'w') as f:
            f.write(txt)
        v, msg = judge(P, case)
        res['n'] += 1
        if v == 'ok':
            h = hashlib.md5(txt.encode()).hexdigest()
            if h not in hashes:
                hashes.add(h)
                res['nontrivial'] += 1
            if len(res['samples']) < 1:
                res['samples'].append(case)
            kinds.update(getattr(P, 'kinds', lambda c: [])(core.dec(case)))
        elif v == 'skip':
            res['skipped'] += 1
        elif v == 'violation':
            res['violations'].append({'case': case, 'message': msg, 'index': i})
            if len(res['violations']) >= 3:
                break
        elif v == 'harness':
            res['harness'].append({'index': i, 'message': msg})
        i += nproc
    res['complete'] = i >= total
    res['kinds'] = dict(kinds)
    res['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(res, f)
    os.remove(cur)


if __name__ == '__main__':
    main()
