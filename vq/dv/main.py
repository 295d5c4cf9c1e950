"""Deductive engine, one property:  python3-vt -m vq.dv.main PROP ROOT TIER CAP OUT

ROOT holds the qmeq sources under judgement (a copy of /repo's working tree made by the driver)."""
import importlib, json, os, sys, time, traceback

from . import src, zx, master, mutate
from .src import Sources

MODULES = ('handler', 'rates', 'rtd', 'solve', 'packing', 'fermion', 'index', 'driver', 'builders', 'neumann2', 'iter2vn', 'params', 'rotation', 'labels', 'bits', 'tables', 'grid', 'lapack', 'integrals', 'ozaki')

COMMON = ['floating-point arithmetic is treated as real arithmetic',
          'the .pyx text is read as Python after dropping types and GIL markers (extraction_drops); C integers are unbounded, '
          'no aliasing between distinct typed buffers',
          'the C compiler, Cython and NumPy implement the semantics of the source text']
ASSUME = {
    'master': ['equations of the independent elements without spin reduction; that a spin reduction keeps exactly these equations for '
               'whichever elements are the independent ones is proved under C16, that dependent members carry equal values (rotational '
               'symmetry of the solution) is assumed',
               'populations are always part of the retained elements; an element is stored for exactly one order of its pair',
               'rates under a square root are non-negative (C12, C13)',
               'callee contracts: kernel handlers (discharged by vq/dv/handler.py), rate functions (vq/dv/rates.py), index maps (C02)'],
    'handler': ['numbering invariant of C02 for the elements handled: index in range, populations first, stored order has conj = True'],
    'rates': ['exp is positive, exp(x)exp(-x) = 1, exp(x) > 1 iff x > 0; log, digamma and principal-value quadrature are opaque real functions',
              'lru_cache does not change the value of a pure function'],
}
WANTS_MASTER = ('C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C15', 'C16', 'C18', 'C20')
SELF_MASTER = {'C07': (['generate_coupling_terms'], 'trace'), 'C08': (['generate_current', 'generate_coupling_terms'], 'continuity'),
               'C09': (['generate_current', 'generate_coupling_terms'], 'pauli_energy', ('Pauli',))}


def main():
    prop, root, tier, cap, out = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4]), sys.argv[5]
    t0 = time.time()
    zx.DEADLINE[0] = t0 + 0.5*cap
    res = dict(obligations=[], functions=[], assumptions=[], drops={}, note='', self_tests={})
    funcs, notes = set(), []
    S = Sources(root)
    if prop in WANTS_MASTER:
        try:
            r, VS = master.obligations(prop, root, S)
            res['obligations'] += r
            for V in VS:
                for ex in V.cache.values():
                    funcs |= set(getattr(ex, 'inlined', ()))
            res['assumptions'] += ASSUME['master']
        except Exception:
            notes.append('master: ' + traceback.format_exc()[-800:])
    for name in MODULES:
        if not os.path.exists(os.path.join(os.path.dirname(__file__), name + '.py')):
            continue
        m = importlib.import_module('vq.dv.' + name)
        if time.time() - t0 > 0.85*cap:
            notes.append('%s: not run, no time left' % name)
            continue
        try:
            r = m.obligations(prop, S)
        except Exception:
            notes.append('%s: %s' % (name, traceback.format_exc()[-800:]))
            continue
        if r:
            res['obligations'] += r
            res['assumptions'] += getattr(m, 'ASSUME', {}).get(prop, []) or ASSUME.get(name, [])
    for o in res['obligations']:
        funcs |= set(o.pop('functions', ()) or ())
    names = {}
    for o in res['obligations']:                  # unique names
        names[o['name']] = names.get(o['name'], 0) + 1
        if names[o['name']] > 1:
            o['name'] += ' (%d)' % names[o['name']]
    # deliberately broken copies of the functions, as far as time allows
    if not any(o['status'] != 'proved' for o in res['obligations']):
        st = {}
        zx.DEADLINE[0], zx.NUMERIC[0] = 0., 0.3
        budget = 4. if tier == 'quick' else 60.
        try:
            if prop in SELF_MASTER:
                me, f = SELF_MASTER[prop][:2]
                kinds = (SELF_MASTER[prop] + (master.KINDS,))[2]
                st['first-order equations'] = master.self_test(prop, root, me, getattr(master, f), kinds, limit=6 if tier == 'quick' else 60)
            for name in MODULES:
                m = sys.modules.get('vq.dv.' + name)
                t = getattr(m, 'SELF', {}).get(prop) if m is not None else None
                if t:
                    st[name] = mutate.run(root, t, lambda S2, m=m: m.obligations(prop, S2), per=2 if tier == 'quick' else 12,
                                          seconds=budget)
        except Exception:
            notes.append('self test: ' + traceback.format_exc()[-500:])
        res['self_tests'] = {k: {'broken copies': len(v),
                                 'noticed': len([x for x in v if x.get('obligations', x.get('obligation')) in ('refuted', 'undecided')]),
                                 'refuted': len([x for x in v if x.get('obligations', x.get('obligation')) == 'refuted']),
                                 'examples': v[:4]} for k, v in st.items()}
    res['functions'] = sorted(funcs)
    res['assumptions'] = COMMON + list(dict.fromkeys(res['assumptions'])) if res['obligations'] else []
    res['drops'] = dict(src.DROPS)
    res['note'] = '; '.join(notes)
    res['wall'] = round(time.time() - t0, 2)
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
