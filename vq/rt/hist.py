"""Preparation of systems with removed states and coherences, and switches."""
import numpy as np
from . import core, gen
from .core import quiet


def rand_removals(g, kw, spin=False, many=False):
    """Operations that leave out states or coherences; energies are fractions of the spectrum's width."""
    ops = []
    if g.p(0.5):
        return ops
    for _ in range(g.i(1, 3)):
        k = g.ch(['states', 'coh', 'all', 'fock'])
        if k == 'fock':
            if spin or many or kw.get('symmetry') == 'spin' or kw.get('indexing') == 'ssq':
                continue
            n = kw['nsingle']
            if n < 2:
                continue
            ops.append(['fock', [int(x) for x in g.r.permutation(2 ** n)[:g.i(1, max(1, 2 ** n // 4))]]])
        elif k == 'all':
            ops.append(['all', 0])
        else:
            ops.append([k, g.u(0.15, 0.95)])
    return ops


def width(s):
    E = np.asarray(s.qd.Ea, dtype=float)
    return float(E.max() - E.min()) + 1e-3 if len(E) else 1.


def threshold(s, x):
    """An energy that separates the (differences of) energies: never within rounding of a threshold."""
    E = np.sort(np.asarray(s.qd.Ea, dtype=float))
    d = np.unique(np.round(np.concatenate([np.abs(E[:, None] - E[None, :]).ravel()]), 9))
    t = x * width(s)
    k = int(np.searchsorted(d, t))
    lo = d[k - 1] if k > 0 else 0.
    hi = d[k] if k < len(d) else lo + 1.
    return 0.5 * (lo + hi)


def apply(s, ops, many=False):
    with quiet():
        for op, x in ops:
            if op == 'fock':
                x = [i for i in x]
                rem = s.si.removed_fock_states
                already = set(np.nonzero(rem)[0]) if rem is not None else set()
                if s.si.nmany - len(set(x) - already) < 2:
                    continue
                s.remove_fock_states(x)
            elif op == 'all':
                s.use_all_states()
            else:
                if not many:
                    s.solve(masterq=False)
                t = threshold(s, x)
                if op == 'states':
                    s.remove_states(t)
                else:
                    s.remove_coherences(t)
    return s


def spec_of(c):
    return {'builder': c['builder'], 'kw': c['kw']}


def make(g, kts=None, spin_p=0.15, elph=None, removals=True, **k):
    kt = g.ch(kts or gen.KTALL)
    if g.p(spin_p):
        c = gen.spin_system(g, kt=kt, elph=bool(elph) if elph is not None else g.p(0.3),
                            indexing=g.ch([None, 'charge', 'ssq', 'sz']), itypes=k.get('itypes', (0, 1, 2, 3)))
    else:
        c = gen.system(g, kt=kt, elph=elph, **k)
    c['ops'] = rand_removals(g, c['kw']) if removals else []
    return c


def system(c):
    with quiet():
        s = core.build(spec_of(c))
    return apply(s, c.get('ops', []))
