"""C03-C06: many-body operators, incremental changes, diagonalisation."""
import copy
import numpy as np
from . import core, gen
from .core import require, close, quiet
from .oracle import Fock

_f = {}


def fock(n):
    if n not in _f:
        _f[n] = Fock(n)
    return _f[n]


# ------------------------------------------------------------------ expansion of symmetric input
def canon(k):
    """Canonical form of c+_m c+_n c_k c_l and its sign."""
    m, n, a, b = k
    s = 1
    if m > n:
        m, n, s = n, m, -s
    if a < b:
        a, b, s = b, a, -s
    return (m, n, a, b), s


def spin_h(h, no):
    out = {}
    for (i, j), v in h.items():
        out[(i, j)] = v
        out[(i + no, j + no)] = v
    return out


def spin_u(u, no):
    """Each entry stands for the sum over the two spins of sigma, sigma'; equal products count once."""
    out = []
    for (m, n, k, l), v in u.items():
        seen = set()
        for s in (0, no):
            for t in (0, no):
                key, sg = canon((m + s, n + t, k + t, l + s))
                if key in seen:
                    continue
                seen.add(key)
                out.append((key, sg * v))
    return out


def spin_t(t, nlo, no):
    out = dict(t)
    for (l, i), v in t.items():
        out[(l + nlo, i + no)] = v
    return out


def spin_v(v, no):
    out = dict(v)
    for (b, i, j), x in v.items():
        out[(b, i + no, j + no)] = x
    return out


def raw_coulomb(g, n, real):
    u = {}
    for _ in range(g.i(1, 6)):
        k = tuple(g.i(0, n - 1) for _ in range(4))
        u[k] = g.cx(1., real)
    return u


def as_dict(x, kind, herm_hs=True):
    """The dictionary meant by a container of parameters."""
    if isinstance(x, dict):
        return dict(x)
    if isinstance(x, list):
        return {tuple(r[:-1]): r[-1] for r in x}
    if kind == 'coulomb':
        return {tuple(int(a.real) for a in r[:-1]): r[-1] for r in x}
    out = {}
    for idx in np.ndindex(*x.shape):
        if kind == 'hsingle' and herm_hs and idx[0] > idx[1]:
            continue
        out[tuple(int(a) for a in idx)] = x[idx]
    return out


def oracle_H(kw):
    n = kw['nsingle']
    f = fock(n)
    hh, hc, ml = kw.get('herm_hs', True), kw.get('herm_c', False), kw.get('m_less_n', True)
    h = as_dict(kw.get('hsingle', {}), 'hsingle', hh)
    u = as_dict(kw.get('coulomb', {}), 'coulomb')
    if kw.get('symmetry') == 'spin':
        no = n // 2
        H = f.hamiltonian(spin_h(h, no), {}, hh, hc, ml)
        ops = spin_u(u, no)
        if hc:              # the conjugates are implied, those which are among the copies count once
            there = set(k for k, _ in ops)
            for (m, n, k, l), v in list(ops):
                key, sg = canon((l, k, n, m))
                if key not in there:
                    there.add(key)
                    ops.append((key, sg * np.conj(v)))
        for k, v in ops:
            H = H + f.hamiltonian({}, {k: v}, hh, False, ml)
        return H
    return f.hamiltonian(h, u, hh, hc, ml)


def oracle_T(kw):
    n, nl = kw['nsingle'], kw['nleads']
    t = as_dict(kw.get('tleads', {}), 'tleads')
    if kw.get('symmetry') == 'spin':
        t = spin_t(t, nl // 2, n // 2)
    return fock(n).tunnelling(nl, t)


def oracle_V(kw):
    n = kw['nsingle']
    v = as_dict(kw.get('velph', {}), 'velph')
    if kw.get('symmetry') == 'spin':
        v = spin_v(v, n // 2)
    return fock(n).phonon(kw['nbaths'], v)


def sectors(si):
    """[(labels, path into hamlst)] of the blocks the Hamiltonian is stored in."""
    out = []
    if si.indexing == 'sz':
        for q in range(si.ncharge):
            for j in range(len(si.szlst[q])):
                out.append((list(si.szlst[q][j]), (q, j)))
    elif si.indexing == 'ssq':
        for q in range(si.ncharge):
            m = min(q, si.nsingle - q)
            j = list(range(-m, m + 1, 2)).index(-(q % 2))
            out.append((list(si.szlst[q][j]), (q, j)))
    else:
        for q in range(si.ncharge):
            out.append((list(si.chargelst[q]), (q,)))
    return out


def ham_full(s):
    """The stored Hamiltonian over labels, and a mask of the entries that are stored."""
    si = s.si
    H = np.zeros((si.nmany, si.nmany), dtype=complex)
    M = np.zeros((si.nmany, si.nmany), dtype=bool)
    for lab, path in sectors(si):
        b = s.qd.hamlst
        for p in path:
            b = b[p]
        b = np.asarray(b)
        require(b.shape == (len(lab), len(lab)), 'block %r of the Hamiltonian has shape %r, %d states', path,
                b.shape, len(lab))
        H[np.ix_(lab, lab)] = b
        M[np.ix_(lab, lab)] = True
    return H, M


def su2_kw(g, kt='Pauli', elph=False, indexing=None):
    return gen.spin_system(g, kt=kt, elph=elph, indexing=indexing)


def gen_input(g, tier, elph=False, spin_p=0.25, kts=('Pauli',), big=True, hier=0., scales=()):
    """A system with all input forms; removal of Fock states."""
    if g.p(spin_p):
        sp = su2_kw(g, g.ch(list(kts)), elph, g.ch(['charge', 'Lin', 'sz', 'ssq', 'ssq']))
        sp['remove'] = []
        return sp
    n_hi = 4 if (big and g.p(0.3)) else 3
    f = g.ch(list(scales)) if scales and g.p(0.1) else 1.
    sp = gen.system(g, kt=g.ch(list(kts)), nmax=n_hi, elph=elph, hier=hier, scale=f)
    sp['remove'] = []
    if f != 1.:
        sp['scale'] = f
    if g.p(0.3):
        n = sp['kw']['nsingle']
        for _ in range(g.i(1, 2)):
            sp['remove'].append([int(x) for x in g.r.permutation(2 ** n)[:g.i(1, max(1, 2 ** n // 4))]])
    return sp


def make_system(c):
    with quiet():
        s = core.build(c)
        for r in c.get('remove', []):
            if s.si.nmany - len(r) < 1:
                continue
            s.remove_fock_states(r)
    return s


SCALES = (1e-3, 1e-6, 1e-9, 1e-12)


class C03:
    FUNCS = ['qdot.py: construct_ham_hopping, construct_ham_coulomb, make_hsingle_dict, make_coulomb_dict, QuantumDot.add']
    BOUND = 'up to 4 orbitals (6 in thorough), random amplitudes and options, up to two removals of Fock states'

    @staticmethod
    def total(tier):
        return 20000 if tier == 'quick' else 60000

    @staticmethod
    def make(g, i, tier):
        c = gen_input(g, tier, hier=0.2, scales=SCALES)
        kw = c['kw']
        if kw.get('symmetry') != 'spin' and kw['indexing'] in ('Lin', 'charge') and g.p(0.5):
            # arbitrary amplitudes, Hermitian or not
            n = kw['nsingle']
            if g.p(0.1 if tier == 'thorough' else 0.02):
                n = kw['nsingle'] = g.i(5, 7)
            real = kw.get('mtype_qd') == 'float'
            f = lambda: c.get('scale', 1.) * (10. ** -g.u(0, 11) if g.p(0.2) else 1.)
            kw['coulomb'] = {k: v * f() for k, v in raw_coulomb(g, n, real).items()}
            kw['hsingle'] = {(g.i(0, n - 1), g.i(0, n - 1)): g.cx(1., real) * f() for _ in range(g.i(1, 6))}
            kw.update(herm_hs=g.p(0.5), herm_c=g.p(0.5), m_less_n=g.p(0.5))
            kw['tleads'] = {(0, 0): 0.1}
            c['raw'] = True
        elif kw.get('symmetry') == 'spin' and g.p(0.4):
            # interactions with exchange, pair hopping and correlated hopping, the conjugates implied
            n = kw['nsingle'] // 2
            real = kw.get('mtype_qd') == 'float'
            u = {(j, j, j, j): g.u(0.5, 3.) for j in range(n)}
            for j in range(n):
                for k in range(j + 1, n):
                    u[(j, k, k, j)] = g.u(0.2, 2.)
                    if g.p(0.6):
                        u[(j, k, j, k)] = g.u(0.05, 0.4)
                    if g.p(0.5):
                        u[(j, j, k, k)] = g.cx(0.4, real)
                    if g.p(0.5):
                        u[(j, j, k, j)] = g.cx(0.4, real)
                    if g.p(0.5):
                        u[(j, k, k, k)] = g.cx(0.4, real)
            kw['coulomb'] = u if g.p(0.6) else [list(k) + [v] for k, v in u.items()]
            kw['herm_c'] = True
        return c

    @staticmethod
    def run(c):
        s = make_system(c)
        kw = c['kw']
        si = s.si
        H = oracle_H(kw)
        lab = fock(kw['nsingle']).labels(si)
        Ho = H[np.ix_(lab, lab)]
        Hc, M = ham_full(s)
        f = c.get('scale', 1.)
        close(np.where(M, Hc, 0), np.where(M, Ho, 0), 'many-body Hamiltonian', 1e-11, 1e-12 * f)
        q = np.array([sum(si.get_state(k)) for k in range(si.nmany)])
        if si.indexing != 'ssq':
            require(not np.any(Hc[q[:, None] != q[None, :]]), 'Hamiltonian couples different charges')
            close(np.where(M, 0, Ho), 0 * Ho, 'matrix elements that the scheme leaves out', 1e-11, 1e-12 * f)
        if not c.get('raw'):
            close(Hc, Hc.conj().T, 'Hermiticity of the Hamiltonian', 1e-12, 1e-13)
        return bool(np.abs(Ho - np.diag(np.diag(Ho))).max() > 0) if Ho.size else False


class C04:
    FUNCS = ['leadstun.py: construct_Tba, make_tleads_dict, make_tleads_array', 'baths.py: elph_construct_Vbbp, make_velph_dict']
    BOUND = 'up to 4 orbitals, 4 leads, 2 baths, random complex amplitudes, up to two removals of Fock states'

    @staticmethod
    def total(tier):
        return 20000 if tier == 'quick' else 60000

    @staticmethod
    def make(g, i, tier):
        c = gen_input(g, tier, elph=g.p(0.6), hier=0.2, scales=SCALES)
        kw = c['kw']
        f = lambda: c.get('scale', 1.) * (10. ** -g.u(0, 11) if g.p(0.2) else 1.)
        if kw.get('symmetry') != 'spin' and kw['indexing'] in ('Lin', 'charge') and g.p(0.03):     # more orbitals, few amplitudes
            n, nl = g.i(5, 7), kw['nleads']
            c['remove'] = []
            kw.update(nsingle=n, hsingle={(0, 0): 1.}, coulomb={}, tleads={(g.i(0, nl - 1), g.i(0, n - 1)): g.cx(1., kw.get('mtype_leads') == 'float') * f() for _ in range(g.i(1, 6))})
            if 'velph' in kw:
                kw['velph'] = {(g.i(0, kw['nbaths'] - 1), g.i(0, n - 1), g.i(0, n - 1)): g.cx(1.) * f() for _ in range(g.i(1, 4))}
        elif 'velph' in kw and g.p(0.4) and kw.get('symmetry') != 'spin' and kw['indexing'] != 'sz':
            n, nb = kw['nsingle'], kw['nbaths']
            kw['velph'] = {(g.i(0, nb - 1), g.i(0, n - 1), g.i(0, n - 1)): g.cx(1.) * f() for _ in range(g.i(1, 6))}
        return c

    @staticmethod
    def run(c):
        s = make_system(c)
        kw = c['kw']
        si = s.si
        lab = fock(kw['nsingle']).labels(si)
        q = np.array([sum(si.get_state(k)) for k in range(si.nmany)])
        T = oracle_T(kw)[:, lab][:, :, lab]
        Tc = np.array(s.leads.Tba0)
        f = c.get('scale', 1.)
        close(Tc, T, 'many-body tunnelling amplitudes', 1e-11, 1e-12 * f)
        close(Tc, Tc.conj().transpose(0, 2, 1), 'Hermiticity of the tunnelling matrix', 1e-12, 1e-13)
        bad = np.abs(q[:, None] - q[None, :]) != 1
        require(not np.any(Tc[:, bad]), 'tunnelling between states whose charges do not differ by one')
        if 'velph' in kw:
            V = oracle_V(kw)[:, lab][:, :, lab]
            Vc = np.array(s.baths.Vbbp0)
            close(Vc, V, 'many-body electron-phonon couplings', 1e-11, 1e-12 * f)
            require(not np.any(Vc[:, q[:, None] != q[None, :]]), 'phonon coupling between different charges')
        return bool(np.abs(T).max() > 0) if T.size else False


# ---------------------------------------------------------------------------------------------- C05
class Model:
    """Parameters meant by a sequence of calls."""
    def __init__(self, kw):
        self.sym = kw.get('symmetry') == 'spin'
        f = 2 if self.sym else 1
        self.nl, self.n = kw['nleads'] // f, kw['nsingle'] // f
        self.nb = kw.get('nbaths', 0)
        self.herm = kw.get('herm_hs', True)
        self.d = {}
        for k in ('hsingle', 'coulomb', 'tleads', 'velph'):
            self.d[k] = as_dict(kw.get(k, {}), k, self.herm)
        self.l = {'mulst': self.vec(kw['mulst'], self.nl), 'tlst': self.vec(kw['tlst'], self.nl),
                  'dlst': self.pairs(kw['dband'], self.nl)}
        if self.nb:
            self.l['tlst_ph'] = self.vec(kw['tlst_ph'], self.nb)
            self.l['dlst_ph'] = self.pairs(kw['dband_ph'], self.nb)

    @staticmethod
    def vec(x, n, old=None):
        v = np.zeros(n) if old is None else old.copy()
        if isinstance(x, dict):
            for k in x:
                v[k] = x[k]
        else:
            v[:] = x
        return v

    @staticmethod
    def pairs(x, n, old=None):
        v = np.zeros((n, 2)) if old is None else old.copy()
        pair = lambda y: (-y, y) if np.ndim(y) == 0 else tuple(y)
        if isinstance(x, dict):
            for k in x:
                v[k] = pair(x[k])
        elif np.ndim(x) == 0:
            v[:] = pair(x)
        else:
            for k in range(n):
                v[k] = pair(x[k])
        return v

    def apply(self, op, args):
        for k, x in args.items():
            if k in self.d:
                for key, v in as_dict(x, k, self.herm).items():
                    self.d[k][key] = v if op == 'change' else self.d[k].get(key, 0) + v
            else:
                f = self.pairs if k.startswith('dlst') else self.vec
                n = len(self.l[k])
                self.l[k] = f(x, n, self.l[k]) if op == 'change' else self.l[k] + f(x, n)

    def kw(self, kw):
        out = dict(kw)
        for k in self.d:
            if k in kw or self.d[k]:
                out[k] = {a: v for a, v in self.d[k].items() if v != 0}
        out['mulst'], out['tlst'] = [{i: float(v) for i, v in enumerate(self.l[k])} for k in ('mulst', 'tlst')]
        out['dband'] = {i: tuple(float(y) for y in v) for i, v in enumerate(self.l['dlst'])}
        if self.nb:
            out['tlst_ph'] = {i: float(v) for i, v in enumerate(self.l['tlst_ph'])}
            out['dband_ph'] = {i: tuple(float(y) for y in v) for i, v in enumerate(self.l['dlst_ph'])}
        return out


def rand_args(g, kw, op):
    sym = kw.get('symmetry') == 'spin'
    f = 2 if sym else 1
    n, nl, nb = kw['nsingle'] // f, kw['nleads'] // f, kw.get('nbaths', 0)
    real = kw.get('mtype_qd') == 'float' or kw.get('mtype_leads') == 'float'
    sz = kw.get('indexing') == 'sz' and not sym
    herm_hs = kw.get('herm_hs', True)
    out = {}
    what = g.sub(['hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'dlst'] +
                 (['velph', 'tlst_ph', 'dlst_ph'] if nb else []), 0.1)
    for k in what:
        if k == 'hsingle':
            d = gen.level_h(g, n, real or sym, spinblock=sz)
            if sz:
                d = {a: v for a, v in d.items() if (a[0] < n // 2) == (a[1] < n // 2)}
            if g.p(0.3):
                d[(g.i(0, n - 1),) * 2] = 0.0
            if not herm_hs:
                for (a, b), v in list(d.items()):
                    if a != b:
                        d[(b, a)] = np.conj(v)
            if g.p(0.6):
                d = {a: v for a, v in d.items() if g.p(0.5)} if herm_hs else d
            out[k] = gen.form(g, k, d, n=n, herm_hs=herm_hs)
            if not herm_hs and isinstance(out[k], np.ndarray):
                out[k] = d
        elif k == 'coulomb':
            d = {}
            for i in range(n):
                for j in range(i + 1, n):
                    if g.p(0.6):
                        d[(i, j, j, i)] = g.ch([g.u(0.2, 3.), g.u(0.2, 3.), 0.0])
                if sym and g.p(0.6):
                    d[(i, i, i, i)] = g.u(0.2, 3.)
            fm = g.i(0, 2)
            out[k] = d if fm == 0 else [[*a, v] for a, v in d.items()]
            if fm == 2 and d:
                out[k] = [list(r) for r in out[k]]
        elif k == 'tleads':
            d = gen.tleads_d(g, nl, n, real, spin=sz)
            d = {a: v for a, v in d.items() if g.p(0.6)}
            if d and g.p(0.25):
                d[g.ch(sorted(d))] = 0.0
            out[k] = gen.form(g, k, d, n=n, nl=nl)
            if isinstance(out[k], np.ndarray) and real:
                out[k] = out[k].real.copy()
        elif k == 'velph':
            d = gen.velph_d(g, nb, n, real, spinblock=sz)
            d = {a: v for a, v in d.items() if g.p(0.7)}
            out[k] = gen.form(g, k, d, n=n, nl=nb)
            if isinstance(out[k], np.ndarray) and real:
                out[k] = out[k].real.copy()
        else:
            m = nb if k.endswith('_ph') else nl
            if k.startswith('mulst'):
                v = {l: g.u(-1.5, 1.5) for l in range(m)}
            elif k.startswith('tlst'):
                v = {l: g.u(0.1, 0.8) for l in range(m)}
            else:
                v = {l: g.u(1., 6.) for l in range(m)}
            if k == 'dlst_ph' and op == 'change':
                v = {l: (1e-4, g.u(8., 20.)) for l in range(m)}
            if k == 'dlst_ph' and op == 'add':
                v = {l: (0.0, g.u(0., 3.)) for l in range(m)}
            elif k == 'dlst' and g.p(0.4):
                v = {l: (-g.u(1., 6.), g.u(1., 6.)) for l in range(m)}
            if k == 'dlst' and op == 'change':
                v = {l: (g.u(30., 60.) if np.ndim(x) == 0 else (-g.u(30., 60.), g.u(30., 60.))) for l, x in v.items()}
            fm = g.i(0, 4)
            if fm == 0:
                out[k] = {l: x for l, x in v.items() if g.p(0.6)}
            elif fm == 1:
                out[k] = [v[l] for l in range(m)]
            elif fm == 2:
                out[k] = np.array([v[l] for l in range(m)], dtype=float)
            elif fm == 3 and np.ndim(v[0]) == 0:
                out[k] = v[0]
            else:
                out[k] = v
            if isinstance(out[k], list) and k.startswith('dlst'):
                out[k] = [list(x) if np.ndim(x) else x for x in out[k]]
    return out


def same_container(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_container(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_container(x, y) for x, y in zip(a, b))
    return a == b


def cond_ok(s):
    """The stationary state is unique: the second smallest singular value of the generator is not tiny."""
    try:
        K = np.array(s.appr.kern, dtype=complex)
        if K.shape[0] != K.shape[1] or not np.all(np.isfinite(K)):
            return False
        sv = np.linalg.svd(K, compute_uv=False)
        return len(sv) < 2 or sv[-2] > 1e-7 * sv[0]
    except np.linalg.LinAlgError:
        return False


def nudge(args, eps):
    out = {}
    for k, v in args.items():
        if isinstance(v, dict) and k in ('hsingle', 'coulomb', 'tleads', 'velph'):
            out[k] = {a: x * (1 + eps) for a, x in v.items()}
    return out


def compare_systems(s, f, cur=True, rtol=1e-8):
    """Observable systems agree."""
    for nm, get in (('mulst', lambda x: x.leads.mulst), ('tlst', lambda x: x.leads.tlst),
                    ('dlst', lambda x: x.leads.dlst), ('tleads_array', lambda x: x.leads.tleads_array),
                    ('Tba0', lambda x: x.leads.Tba0)):
        close(get(s), get(f), nm, 1e-11, 1e-12)
    if hasattr(s, 'baths'):
        for nm, get in (('tlst_ph', lambda x: x.baths.tlst_ph), ('dlst_ph', lambda x: x.baths.dlst_ph),
                        ('Vbbp0', lambda x: x.baths.Vbbp0)):
            close(get(s), get(f), nm, 1e-11, 1e-12)
    Hs, _ = ham_full(s)
    Hf, _ = ham_full(f)
    close(Hs, Hf, 'many-body Hamiltonian', 1e-11, 1e-12)


class C05:
    FUNCS = ['qdot.py: QuantumDot.add, change', 'leadstun.py: LeadsTunneling.add, change, update_Tba0, make_array, make_array_dlst',
             'baths.py: PhononBaths.add, change, update_Vbbp0', 'builder: add, change, dband']
    BOUND = 'up to 3 orbitals (4 with spin), sequences of up to 6 calls'

    @staticmethod
    def total(tier):
        return 2000 if tier == 'quick' else 12000

    @staticmethod
    def make(g, i, tier):
        elph = g.p(0.35)
        kt = g.ch(['Pauli', 'pyPauli', 'pyRedfield', '1vN', 'Lindblad'])
        if g.p(0.2):
            sp = gen.spin_system(g, kt=kt, elph=elph, itypes=(2,), indexing=g.ch([None, 'charge', 'ssq']), real=g.p(0.5))
        else:
            sp = gen.system(g, kt=kt, elph=elph, itypes=(2,), wide=True, general=False)
        ops = []
        for _ in range(g.i(1, 6)):
            if g.p(0.2):
                ops.append(['solve', {}])
            elif g.p(0.08):
                ops.append(['dband', {'dband': g.u(30., 60.)}])
            elif g.p(0.08):
                k = 'velph' if elph and g.p(0.6) else 'tleads'
                a = {}
                while k not in a:
                    a = rand_args(g, sp['kw'], 'change')
                ops.append(['update', {k: a[k]}])
            else:
                op = g.ch(['add', 'change', 'change'])
                ops.append([op, rand_args(g, sp['kw'], op)])
                if op == 'change' and g.p(0.25):
                    # the same once more, with slightly different values
                    x = nudge(ops[-1][1], g.ch([1e-5, 1e-7, 1e-8]))
                    if x:
                        ops.append([op, x])
        return dict(spec=sp, ops=ops)

    @staticmethod
    def run(c):
        sp = c['spec']
        orig = copy.deepcopy(sp['kw'])
        s = core.build(sp, copyq=False)
        m = Model(orig)
        for op, args in c['ops']:
            if op == 'solve':
                core.solve(s)
            elif op == 'dband':
                s.dband = args['dband']
                m.l['dlst'] = m.pairs(args['dband'], m.nl, m.l['dlst'])
            elif op == 'update':
                for k, x in args.items():
                    m.d[k] = {}
                    m.apply('change', {k: copy.deepcopy(x)})
                    if k == 'tleads':
                        s.leads.update_Tba0(s.si.nleads, copy.deepcopy(x), s.leads.mtype)
                    else:
                        s.baths.update_Vbbp0(s.si.nbaths, copy.deepcopy(x), s.baths.mtype)
            else:
                a = {k: v for k, v in args.items()}
                keep = copy.deepcopy(a)
                with quiet():
                    getattr(s, op)(**a)
                require(same_container(a, keep), '%s(%r) modified its argument to %r', op, keep, a)
                m.apply(op, keep)
            for k in orig:
                if k != 'bath_func':
                    require(same_container(sp['kw'][k], orig[k]), 'input %s of the constructor was modified', k)
        fresh = core.build({'builder': sp['builder'], 'kw': m.kw(orig)})
        compare_systems(s, fresh)
        core.solve(s)
        core.solve(fresh)
        close(s.qd.Ea, fresh.qd.Ea, 'energies', 1e-9, 1e-10)
        if unique(fresh):
            require(s.success and fresh.success, 'solution reported as failed for a regular system')
            sc = max(np.abs(fresh.appr.kern).max() if fresh.appr.kern is not None and
                     np.all(np.isfinite(fresh.appr.kern)) else 0, 1e-3)
            close(s.current, fresh.current, 'currents', 1e-6, 1e-7 * sc)
            close(s.energy_current, fresh.energy_current, 'energy currents', 1e-6, 1e-7 * sc * 5)
            close(s.heat_current, fresh.heat_current, 'heat currents', 1e-6, 1e-7 * sc * 5)
        return True


def unique(s):
    K = core.generator(s)
    sv = np.linalg.svd(K, compute_uv=False)
    ok = len(sv) < 2 or sv[-2] > 1e-6 * sv[0]
    core.solve(s)
    return ok


# ---------------------------------------------------------------------------------------------- C06
def vectors(s):
    """Eigenvector matrix over labels assembled from the reported blocks."""
    si, v = s.si, s.qd.vecslst
    P = np.zeros((si.nmany, si.nmany), dtype=complex)
    E = np.zeros(si.nmany)
    if si.indexing == 'sz':
        for q in range(si.ncharge):
            for j, lab in enumerate(si.szlst[q]):
                if lab:
                    P[np.ix_(lab, lab)] = v[q][j]
                    E[lab] = s.qd.valslst[q][j]
    elif si.indexing == 'ssq':
        for q in range(si.ncharge):
            for j, lab in enumerate(si.szlst[q]):
                for k, l2 in enumerate(si.ssqlst[q][j]):
                    if l2:
                        P[np.ix_(lab, l2)] = v[q][j][k]
                        E[l2] = s.qd.valslst[q][j][k]
    else:
        for q in range(si.ncharge):
            lab = si.chargelst[q]
            if len(lab):
                P[np.ix_(lab, lab)] = v[q]
                E[lab] = s.qd.valslst[q]
    return P, E


def check_rotation(s, H, where=''):
    si = s.si
    P, E = vectors(s)
    close(s.qd.Ea, E, 'energies Ea' + where, 1e-12, 1e-13)
    close(P.conj().T @ P, np.eye(si.nmany), 'orthonormality of the eigenvectors' + where, 1e-10, 1e-9)
    sc = np.abs(H).max() if 0 < np.abs(H).max() < 1e-2 else max(1., np.abs(H).max())
    close(H @ P, P * E[None, :], 'eigenvectors of the Hamiltonian' + where, 1e-9, 1e-9 * min(1., sc), scale=sc)
    T0, T = np.array(s.leads.Tba0), np.array(s.leads.Tba)
    sc = np.abs(T0).max() if T0.size else 1.
    for l in range(si.nleads):
        close(T[l], P.conj().T @ T0[l] @ P, 'tunnelling matrix of lead %d in the eigenbasis%s' % (l, where), 1e-9,
              1e-11 * min(1., sc), scale=sc)
        close(T[l], T[l].conj().T, 'Hermiticity of the rotated tunnelling matrix' + where, 1e-10, 1e-12)
    q = np.zeros(si.nmany, dtype=int)
    for c, lst in enumerate(si.chargelst):
        q[list(lst)] = c
    bad = np.abs(q[:, None] - q[None, :]) != 1
    require(not np.any(np.abs(T[:, bad]) > 1e-12), 'rotated tunnelling matrix violates the charge selection rule')
    if hasattr(s, 'baths'):
        V0, V = np.array(s.baths.Vbbp0), np.array(s.baths.Vbbp)
        sc = np.abs(V0).max() if V0.size else 1.
        for l in range(len(V0)):
            close(V[l], P.conj().T @ V0[l] @ P, 'phonon matrix of bath %d in the eigenbasis%s' % (l, where), 1e-9,
                  1e-11 * min(1., sc), scale=sc)
        require(not np.any(np.abs(V[:, q[:, None] != q[None, :]]) > 1e-12), 'phonon matrix couples different charges')
    return P, E


class C06:
    FUNCS = ['qdot.py: QuantumDot.diagonalise, set_Ea, construct_manybody_eigenstates(_ssq_all), operator_sp/sm/ssquare',
             'leadstun.py: rotate_Tba, construct_full_pmtr', 'baths.py: elph_rotate_Vbbp']
    BOUND = 'up to 4 orbitals (6 with total spin), random systems, up to two removals of Fock states'

    @staticmethod
    def total(tier):
        return 14000 if tier == 'quick' else 60000

    @staticmethod
    def make(g, i, tier):
        c = gen_input(g, tier, elph=g.p(0.4), spin_p=0.4, hier=0.1, scales=SCALES)
        kw = c['kw']
        if kw.get('symmetry') == 'spin' and g.p(0.05 if tier == 'thorough' else 0.03):
            sp = gen.spin_system(g, kt='Pauli', no=3, indexing='ssq')
            c['kw'] = kw = sp['kw']
            c['builder'] = 'Builder'
        if g.p(0.2) and kw.get('symmetry') != 'spin':        # degenerate levels
            h = as_dict(kw['hsingle'], 'hsingle', kw.get('herm_hs', True))
            for k in list(h):
                if k[0] == k[1]:
                    h[k] = 0.5
                elif g.p(0.5):
                    del h[k]
            if kw.get('herm_hs', True) is False:
                h = {k: v for k, v in h.items() if k[0] == k[1]}
            kw['hsingle'] = {k: v for k, v in h.items() if v != 0}
        c['again'] = g.p(0.3)
        c['rot'] = g.p(0.3)
        return c

    @staticmethod
    def run(c):
        s = make_system(c)
        kw = c['kw']
        si = s.si
        f = fock(kw['nsingle'])
        lab = f.labels(si)
        H = oracle_H(kw)[np.ix_(lab, lab)]
        with quiet():
            s.solve(masterq=False)
        P, E = check_rotation(s, H)
        if si.indexing == 'ssq':
            S2 = f.s2[np.ix_(lab, lab)]
            for k in range(si.nmany):
                q, sz, ss, a = si.ind_qn[k]
                v = P[:, k]
                close(S2 @ v, ss / 2. * (ss / 2. + 1) * v, 'total spin of eigenvector %d' % k, 1e-9, 1e-9, scale=1.)
                close(E[k], E[si.qn_ind[(q, ss % 2, ss, a)]] if (q, ss % 2, ss, a) in si.qn_ind
                      else E[si.qn_ind[(q, -ss, ss, a)]], 'energies of a multiplet', 1e-9, 1e-9)
        if c.get('rot'):
            s.leads.rotate(s.qd.vecslst, indexing='Lin')
            T0, T = np.array(s.leads.Tba0), np.array(s.leads.Tba)
            for l in range(si.nleads):
                close(T[l], P.conj().T @ T0[l] @ P, "tunnelling matrix rotated with indexing='Lin'", 1e-9, 1e-11)
            s.leads.use_Tba0()
            close(s.leads.Tba, T0, 'use_Tba0', 1e-14, 1e-14)
        if c.get('again'):
            d = as_dict(kw['hsingle'], 'hsingle', kw.get('herm_hs', True))
            if kw.get('symmetry') == 'spin' or d:
                k = sorted([k for k in d if k[0] == k[1]])
                if k:
                    with quiet():
                        s.change(hsingle={k[0]: d[k[0]] + 0.37})
                        s.solve(masterq=False)
                    kw2 = dict(kw)
                    d = dict(d)
                    d[k[0]] = d[k[0]] + 0.37
                    kw2['hsingle'] = d
                    H = oracle_H(kw2)[np.ix_(lab, lab)]
                    check_rotation(s, H, ' after a change')
        return True


PROPS = {}
