"""Seeded generators of systems, options and histories."""
import numpy as np


class R:
    def __init__(self, seed):
        self.r = np.random.default_rng(seed)

    def u(self, a, b):
        return float(self.r.uniform(a, b))

    def i(self, a, b):
        return int(self.r.integers(a, b + 1))

    def p(self, x):
        return bool(self.r.random() < x)

    def ch(self, seq, w=None):
        if w is not None:
            w = np.array(w, dtype=float)
            return seq[int(self.r.choice(len(seq), p=w / w.sum()))]
        return seq[int(self.r.integers(len(seq)))]

    def cx(self, s, real=False):
        return self.u(-s, s) if real else complex(self.u(-s, s), self.u(-s, s))

    def sub(self, seq, pmin=0.3):
        x = [a for a in seq if self.p(self.u(pmin, 1.))]
        return x

    def perm(self, seq):
        return [seq[k] for k in self.r.permutation(len(seq))]


KT = ['Pauli', 'Lindblad', 'Redfield', '1vN']
KTALL = KT + ['py' + k for k in KT]


def level_h(g, n, real=False, hop=0.6, eps=2.0, spinblock=False, allpairs=True):
    h = {}
    for i in range(n):
        h[(i, i)] = g.u(-eps, eps)
    for i in range(n):
        for j in range(i + 1, n):
            if spinblock and (i < n // 2) != (j < n // 2):
                continue
            if g.p(0.8):
                k = (i, j) if g.p(0.6) else (j, i)
                h[k] = g.cx(hop, real)
    return h


def coulomb_d(g, n, exch=True, real=False, umax=3.0, herm_c=False):
    u = {}
    for i in range(n):
        for j in range(i + 1, n):
            if g.p(0.8):
                u[(i, j, j, i)] = g.u(0.2, umax)
    return u


def coulomb_general(g, n, real, herm_c, m_less_n):
    """General four-index interaction; Hermitian under the given options."""
    u = coulomb_d(g, n)
    if n >= 2:
        for _ in range(g.i(1, 4)):
            m, nn = sorted(g.perm(list(range(n)))[:2])
            l, k = sorted(g.perm(list(range(n)))[:2])
            # c+_m c+_nn c_k c_l with m < nn, l < k
            if (m, nn, k, l) in u or (l, k, nn, m) in u or (m == l and nn == k):
                continue
            a = g.cx(0.7, real)
            u[(m, nn, k, l)] = a
            if not herm_c:
                u[(l, k, nn, m)] = np.conj(a) if not real else a
    return u


def tleads_d(g, nl, n, real=False, s=0.3, full=0.85, spin=False):
    t = {}
    for l in range(nl):
        for i in range(n):
            if spin and (l < nl // 2) != (i < n // 2):
                continue
            if g.p(full):
                t[(l, i)] = g.cx(s, real)
    for l in range(nl):
        if not any(k[0] == l for k in t):
            i = g.i(0, n - 1)
            if spin:
                i = i % max(n // 2, 1) + (n // 2 if l >= nl // 2 else 0)
            t[(l, i)] = g.cx(s, real)
    for i in range(n):
        if not any(k[1] == i for k in t):
            l = g.i(0, nl - 1)
            if spin:
                l = l % max(nl // 2, 1) + (nl // 2 if i >= n // 2 else 0)
            t[(l, i)] = g.cx(s, real)
    return t


def velph_d(g, nb, n, real=False, herm=True, s=0.3, spinblock=False):
    v = {}
    for b in range(nb):
        for i in range(n):
            if g.p(0.8):
                v[(b, i, i)] = g.u(-s, s)
            for j in range(i + 1, n):
                if spinblock and (i < n // 2) != (j < n // 2):
                    continue
                if g.p(0.85):
                    a = g.cx(s, real)
                    v[(b, i, j)] = a
                    v[(b, j, i)] = np.conj(a) if not real else a
    if not herm:
        for k in list(v):
            if g.p(0.4):
                v[k] = g.cx(s, real)
    return v


def band(g, nl, wide=True):
    k = g.i(0, 3)
    if wide:
        if k == 0:
            return g.u(30., 60.)
        if k == 1:
            return [g.u(30., 60.) for _ in range(nl)]
        if k == 2:
            return {l: g.u(30., 60.) for l in range(nl)}
        return [[-g.u(30., 60.), g.u(30., 60.)] for _ in range(nl)]
    return [[-g.u(1.0, 4.0), g.u(1.0, 4.0)] for _ in range(nl)]


def form(g, what, d, n=None, nl=None, herm_hs=True):
    """Another container with the meaning of the dictionary d."""
    k = g.i(0, 3)
    if k == 0 or k == 3:
        return d
    if what == 'hsingle':
        if k == 1:
            return [[a, b, v] for (a, b), v in d.items()]
        m = np.zeros((n, n), dtype=complex)
        for (a, b), v in d.items():
            if herm_hs and a > b:
                a, b, v = b, a, np.conj(v)
            m[a, b] += v
        return m if np.iscomplexobj(m) and np.abs(m.imag).max() > 0 else m.real.copy()
    if what == 'coulomb':
        return [[*a, v] for a, v in d.items()]
    if what == 'tleads':
        if k == 1:
            return [[a, b, v] for (a, b), v in d.items()]
        m = np.zeros((nl, n), dtype=complex)
        for (a, b), v in d.items():
            m[a, b] += v
        return m
    if what == 'velph':
        if k == 1:
            return [[a, b, c, v] for (a, b, c), v in d.items()]
        m = np.zeros((nl, n, n), dtype=complex)
        for (a, b, c), v in d.items():
            m[a, b, c] += v
        return m
    if what == 'lst':
        lst = [d[l] for l in range(nl)]
        return lst if k == 1 else np.array(lst, dtype=float)
    raise KeyError(what)


def lead_lists(g, nl, equal=False):
    if equal:
        m, t = g.u(-0.5, 0.5), g.u(0.3, 1.5)
        return {l: m for l in range(nl)}, {l: t for l in range(nl)}
    return {l: g.u(-1.5, 1.5) for l in range(nl)}, {l: g.u(0.3, 1.5) for l in range(nl)}


def system(g, kt=None, indexings=('Lin', 'charge', 'sz'), nmin=1, nmax=3, lmin=1, lmax=3, elph=None,
           itypes=(0, 1, 2, 3), wide=None, general=True, forms=True, nbmax=2, equal=False, real=None, herm_v=True,
           solve_opts=False, mfree=False, small=0.0, hier=0.0, scale=1., deep=0.0):
    kt = kt or g.ch(KTALL)
    n = g.i(nmin, nmax)
    nl = g.i(lmin, lmax)
    ix = g.ch(list(indexings))
    if ix == 'sz' and n % 2:
        n = n + 1 if n < 4 else n - 1
    real = g.p(0.25) if real is None else real
    elph = g.p(0.3) if elph is None else elph
    kw = dict(nsingle=n, nleads=nl, indexing=ix, kerntype=kt)
    spinblock = ix == 'sz'
    herm_hs = g.p(0.8)
    h = level_h(g, n, real, spinblock=spinblock)
    if not herm_hs:
        for (a, b), v in list(h.items()):
            if a != b:
                h[(b, a)] = np.conj(v)
        kw['herm_hs'] = False
    if general and not spinblock and g.p(0.5):
        herm_c, mln = g.p(0.5), g.p(0.7)
        u = coulomb_general(g, n, real, herm_c, mln)
        kw.update(herm_c=herm_c, m_less_n=mln)
    else:
        u = coulomb_d(g, n)
    if spinblock:
        nl = max(2, nl - nl % 2)        # first half of the leads: spin up, second half: spin down
        kw['nleads'] = nl
    t = tleads_d(g, nl, n, real, spin=spinblock, s=g.ch([1e-4, 3e-6]) if small and g.p(small) else 0.3)
    mu, T = lead_lists(g, nl, equal)
    f = (lambda w, d, **k: form(g, w, d, **k)) if forms else (lambda w, d, **k: d)
    deep = bool(deep) and g.p(deep)
    if deep:        # far from the chemical potentials: one of the two rates vanishes in double precision
        for j in range(n):
            if (j == 0 or g.p(0.3)) and (not spinblock or j < n // 2):
                h[(j, j)] += g.ch([-1, -1, 1]) * (g.u(40., 90.) if g.p(0.7) else g.u(300., 800.))
    hier = bool(hier) and g.p(hier)

    def sized(d):
        """Amplitudes of very different sizes; the two of a pair (b, a), (a, b) keep their ratio."""
        if not hier and scale == 1.:
            return d
        e = {}
        return {k: v * scale * (e.setdefault(tuple(sorted(k)), 10. ** -(g.u(0, 11) if g.p(0.5) else 0)) if hier else 1.) for k, v in d.items()}
    h, u, t = sized(h), sized(u), sized(t)
    kw['hsingle'] = f('hsingle', h, n=n, herm_hs=herm_hs)
    kw['coulomb'] = f('coulomb', u)
    kw['tleads'] = f('tleads', t, n=n, nl=nl)
    kw['mulst'] = f('lst', mu, nl=nl)
    kw['tlst'] = f('lst', T, nl=nl)
    wide = g.p(0.75) if wide is None else wide
    kw['dband'] = band(g, nl, wide)
    kw['itype'] = g.ch(list(itypes))
    if deep:
        kw['dband'] = g.u(1e3, 1e4)
        kw['itype'] = kw['itype'] or 2
    if real and g.p(0.5):
        kw['mtype_qd'] = 'float'
        kw['mtype_leads'] = g.ch(['float', 'complex'])
    name = 'Builder'
    if elph:
        name = 'BuilderElPh'
        nb = g.i(1, nbmax)
        kw['nbaths'] = nb
        kw['velph'] = f('velph', sized(velph_d(g, nb, n, real, herm_v, spinblock=spinblock)), n=n, nl=nb)
        kw['tlst_ph'] = f('lst', {l: g.u(0.3, 1.5) for l in range(nb)}, nl=nb)
        kw['dband_ph'] = [[1e-4 * g.u(0.1, 1), g.u(8., 20.)] for _ in range(nb)] if g.p(0.7) else g.u(8., 20.)
        kw['bath_func'] = g.ch([None, 'ohmic', 'square'])
        kw['itype_ph'] = g.ch([0, 2, 2])
    if solve_opts:
        kw['symq'] = g.p(0.75)
        kw['norm_row'] = 0
        if g.p(0.5):
            kw['solmethod'] = g.ch(['solve', 'lsqr']) if kw['symq'] else 'lsqr'
    return {'builder': name, 'kw': kw}


def spin_system(g, kt=None, elph=False, itypes=(1, 2, 3), no=None, nlo=None, indexing=None, invariant=True, real=None):
    """System with symmetry='spin': no orbitals, nlo leads, each doubled."""
    no = no or g.i(1, 2)
    nlo = nlo or g.i(1, 2)
    real = g.p(0.4) if real is None else real
    h = level_h(g, no, real)
    u = {}
    for i in range(no):
        u[(i, i, i, i)] = g.u(0.5, 3.)
        for j in range(i + 1, no):
            u[(i, j, j, i)] = g.u(0.2, 2.)
            if g.p(0.5):
                u[(i, j, i, j)] = g.u(0.05, 0.4)     # exchange
    t = tleads_d(g, nlo, no, real)
    mu, T = lead_lists(g, nlo)
    kw = dict(nsingle=2 * no, nleads=2 * nlo, symmetry='spin', kerntype=kt or g.ch(KTALL),
              hsingle=h, coulomb=u, tleads=t, mulst=mu, tlst=T, dband=g.u(30., 60.), itype=g.ch(list(itypes)))
    if indexing:
        kw['indexing'] = indexing
    name = 'Builder'
    if elph:
        name = 'BuilderElPh'
        nb = 1
        kw['nbaths'] = nb
        kw['velph'] = velph_d(g, nb, no, real)
        kw['tlst_ph'] = {0: g.u(0.3, 1.5)}
        kw['dband_ph'] = g.u(8., 20.)
        kw['bath_func'] = None
        kw['itype_ph'] = 2
    return {'builder': name, 'kw': kw}


def retained(g, q_lists, keep_all=False):
    """Random retained states per charge (kept in order), at least one charge pair connected."""
    out = []
    for st in q_lists:
        x = [b for b in st if g.p(0.75)]
        out.append(x)
    if sum(len(x) for x in out) == 0:
        out[0] = list(q_lists[0])
    return out


def herm_matrix(g, n, blocks):
    m = np.zeros((n, n), dtype=complex)
    for st in blocks:
        for a in st:
            for b in st:
                if a == b:
                    m[a, a] = g.u(-1, 1)
                elif a < b:
                    m[a, b] = g.cx(1.)
                    m[b, a] = np.conj(m[a, b])
    return m
