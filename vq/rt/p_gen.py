"""C07, C08, C09, C11, C13: contracts of the generators and currents of the first-order approaches."""
import itertools
import numpy as np
from . import core, gen, hist, p_same
from .core import require, close, quiet, Skip

FIRSTFUNCS = ['approach/base/{pauli,lindblad,redfield,neumann1}.py and c_*.pyx: generate_fct, generate_kern, '
              'generate_coupling_terms, generate_current', 'approach/elph/*: the same',
              'approach/kernel_handler.py, c_kernel_handler.pyx', 'approach/aprclass.py, c_aprclass.pyx']


def kscale(K):
    return max(float(np.abs(K).max()), 1e-12) if K.size else 1.


def charge_weights(s):
    return core.sym_weights(s, lambda b, q: float(q))


def kinds(c):
    kw = c['kw']
    out = [kw['kerntype'] + ('+ph' if 'nbaths' in kw else '')]
    out += ['indexing ' + str(kw.get('indexing', 'ssq' if kw.get('symmetry') == 'spin' else 'Lin'))]
    out += ['removal ' + o[0] for o in c.get('ops', [])]
    return out


class Recorder:
    """Stands in for the kernel handler and records the complex superoperator the code hands over."""
    def __init__(self, kh):
        self._kh = kh
        self.F = {}

    def __getattr__(self, k):
        return getattr(self._kh, k)

    def set_energy(self, energy, b, bp, q):
        self.add(energy, b, bp, q, b, bp, q)

    def set_matrix_element(self, fct, b, bp, bq, a, ap, aq):
        self.add(fct, b, bp, bq, a, ap, aq)

    def add(self, fct, b, bp, bq, a, ap, aq):
        k = ((int(b), int(bp)), (int(a), int(ap)))
        self.F[k] = self.F.get(k, 0) + complex(fct)


def superoperator(s):
    """Complex superoperator from the equations of all retained elements (b, bp) of a Python approach."""
    a = s.appr
    kh = a.kernel_handler
    rec = Recorder(kh)
    a.kernel_handler = rec
    E = s.qd.Ea
    try:
        for q in range(s.si.ncharge):
            st = s.si.statesdm[q]
            for b, bp in itertools.product(st, st):
                if kh.is_included(b, bp, q):
                    rec.set_energy(E[b] - E[bp], b, bp, q)
                    a.generate_coupling_terms(b, bp, q)
    finally:
        a.kernel_handler = kh
    return rec.F


class C07:
    FUNCS = FIRSTFUNCS
    BOUND = 'up to 4 orbitals, 4 leads, 2 baths; random complex couplings, options, removed states and coherences'
    kinds = staticmethod(kinds)

    @staticmethod
    def total(tier):
        return 4000 if tier == 'quick' else 30000

    @staticmethod
    def make(g, i, tier):
        return hist.make(g, kts=[gen.KTALL[i % 8]], small=0.08, deep=0.08, herm_v=g.p(0.7), nmax=4 if g.p(0.12) else 3)

    @staticmethod
    def run(c):
        s = hist.system(c)
        kw = c['kw']
        K = core.generator(s)
        if not K.size:
            raise Skip('no states')
        n = core.gen_size(s)
        require(K.shape == (n, n), 'shape of the generator %r', K.shape)
        w = core.sym_weights(s, lambda b, q: 1.)
        close(w @ K, np.zeros(n), 'sum of the population equations', 1e-9, 1e-13 + core.ph_noise(s), scale=kscale(K))
        kt = kw['kerntype']
        if core.is_py(kt) and kt != 'pyPauli' and s.si.indexing != 'ssq' and n <= 40:
            try:
                F = superoperator(s)
            except (AttributeError, TypeError):
                return True
            sc = max([abs(v) for v in F.values()] + [1e-12])
            for ((b, bp), (a, ap)), v in F.items():
                u = F.get(((bp, b), (ap, a)), 0.)
                require(abs(u + np.conj(v)) <= 1e-9 * sc + 1e-13 + core.ph_noise(s), 'equations of (%d,%d) and (%d,%d): the coefficients of '
                        '(%d,%d) are %r and %r: a Hermitian matrix does not stay Hermitian', b, bp, bp, b, a, ap, v, u)
        return bool(np.any(K))


class C08:
    FUNCS = FIRSTFUNCS
    BOUND = C07.BOUND
    kinds = staticmethod(kinds)

    @staticmethod
    def total(tier):
        return 3000 if tier == 'quick' else 30000

    @staticmethod
    def make(g, i, tier):
        c = hist.make(g, kts=[gen.KTALL[i % 8]], small=0.08, deep=0.08, herm_v=g.p(0.7), nmax=4 if g.p(0.1) else 3)
        c['v'] = int(g.i(0, 10 ** 6))
        return c

    @staticmethod
    def run(c):
        s = hist.system(c)
        K = core.generator(s)
        n = core.gen_size(s)
        if not n:
            raise Skip('no states')
        r = np.random.default_rng(c['v'])
        w = charge_weights(s)
        for _ in range(2):
            v = r.normal(size=n)
            cur, en, heat = core.lead_currents(s, v)
            close(cur.sum(), w @ K @ v, 'sum of the particle currents against the rate of change of the charge',
                  1e-9, 1e-13 + core.ph_noise(s, n * np.abs(v).max()), scale=max(kscale(K) * np.abs(v).max() * n, np.abs(cur).max()))
        core.solve(s)
        if s.success:
            cur = np.array(s.current)
            close(cur.sum(), 0., 'sum of the particle currents in the stationary state', 1e-9,
                  1e-12 + core.ph_noise(s, n * max(1., np.abs(np.array(s.phi0)).max())),
                  scale=max(kscale(K) * max(1., np.abs(np.array(s.phi0)).max()) * n, 1e-12))
        return bool(np.any(cur))


class C09:
    FUNCS = FIRSTFUNCS
    BOUND = C07.BOUND
    kinds = staticmethod(kinds)

    @staticmethod
    def total(tier):
        return 3500 if tier == 'quick' else 30000

    @staticmethod
    def make(g, i, tier):
        k = i % 3
        if k == 0 and i % 4 == 0:
            c = p_same.special(g, g.ch(['RTD', 'pyRTD', '2vN', 'py2vN']), small=0.2)
            c['k'] = 0
            return c
        if k == 0:
            c = hist.make(g, small=0.08, deep=0.08, herm_v=g.p(0.7))
        elif k == 1:
            c = hist.make(g, kts=['Pauli', 'pyPauli'], elph=False, small=0.08, deep=0.08)
        else:
            c = hist.make(g, kts=['Pauli', 'pyPauli'], elph=False, equal=True, lmin=2)
            nl = c['kw']['nleads'] // (2 if c['kw'].get('symmetry') == 'spin' else 1)
            m, t = gen.lead_lists(g, nl, equal=True)
            c['kw'].update(mulst=m, tlst=t)
        c['k'] = k
        c['v'] = int(g.i(0, 10 ** 6))
        if k == 0 and g.p(0.3):
            c['kw']['mfreeq'] = True
        return c

    @staticmethod
    def run(c):
        if 'v' not in c:            # second-order approaches
            s = p_same.system(c)
            p_same.run_solve(s, c)
            mu, cur, en = (np.array(x) for x in (s.leads.mulst, s.current, s.energy_current))
            if np.all(np.isfinite(cur)) and np.all(np.isfinite(en)):
                close(np.array(s.heat_current), en - mu * cur, 'heat current', 1e-10, 1e-18, scale=max(np.abs(en).max(), np.abs(mu * cur).max()))
            return True
        s = hist.system(c)
        kw = c['kw']
        mf = kw.get('mfreeq')
        core.solve(s)
        mu = np.array(s.leads.mulst)
        if s.success or not mf:
            cur, en, heat = np.array(s.current), np.array(s.energy_current), np.array(s.heat_current)
            if np.all(np.isfinite(cur)) and np.all(np.isfinite(en)):
                close(heat, en - mu * cur, 'heat current', 1e-10, 1e-14,
                      scale=max(np.abs(en).max(), np.abs(mu * cur).max()))
        if mf:
            return True
        K = core.generator(s)
        n = core.gen_size(s)
        if not n:
            raise Skip('no states')
        r = np.random.default_rng(c['v'])
        v = r.normal(size=n)
        cur, en, heat = core.lead_currents(s, v)
        close(heat, en - mu * cur, 'heat current for any state of the dot', 1e-10, 1e-14,
              scale=max(np.abs(en).max(), np.abs(mu * cur).max()))
        if c['k'] >= 1:
            E = np.array(s.qd.Ea)
            w = core.sym_weights(s, lambda b, q: E[b])
            close(en.sum(), w @ K @ v, 'sum of the energy currents against the rate of change of the energy', 1e-9,
                  1e-13, scale=max(kscale(K) * np.abs(v).max() * n * max(1., np.abs(E).max()), np.abs(en).max()))
        if c['k'] == 2 and s.success:
            A = K.copy()
            A[0] = core.sym_weights(s, lambda b, q: 1.)
            sc = kscale(K)
            A[1:] /= sc
            if np.linalg.cond(A) < 1e10:
                core.solve(s)
                for nm in ('current', 'energy_current', 'heat_current'):
                    close(np.array(getattr(s, nm)), np.zeros(len(mu)), nm + ' in equilibrium', 1e-9, 1e-12,
                          scale=sc * n * max(1., np.abs(E).max()) * max(1., np.linalg.cond(A) * 1e-6))
        return True


class C11:
    FUNCS = ['approach/kernel_handler.py, c_kernel_handler.pyx: KernelHandlerMatrixFree',
             'approach/aprclass.py, c_aprclass.pyx: generate_vec, solve_matrix_free'] + FIRSTFUNCS[:2]
    BOUND = C07.BOUND
    kinds = staticmethod(kinds)

    @staticmethod
    def total(tier):
        return 2500 if tier == 'quick' else 20000

    @staticmethod
    def make(g, i, tier):
        c = hist.make(g, kts=[gen.KTALL[i % 8]], small=0.08, deep=0.08, herm_v=g.p(0.7))
        c['v'] = int(g.i(0, 10 ** 6))
        c['row'] = g.u(0, 1)
        c['sol'] = g.ch([None, None, 'hybr', 'lm', 'krylov']) if g.p(0.5) else 'no'
        return c

    @staticmethod
    def run(c):
        s = hist.system(c)
        K = core.generator(s)
        n = core.gen_size(s)
        if not n:
            raise Skip('no states')
        row = min(n - 1, int(c['row'] * n))
        r = np.random.default_rng(c['v'])
        f = hist.system(dict(c, kw=dict(c['kw'], mfreeq=True, norm_row=row)))
        with quiet():
            f.solve(masterq=False)
        a = f.appr
        a.prepare_kern()
        a.generate_fct()
        sc = kscale(K)
        w = core.sym_weights(s, lambda b, q: 1.)
        for _ in range(2):
            v = r.normal(size=n)
            d = np.array(a.generate_vec(v))
            e = K @ v
            e[row] = w @ v - 1
            close(np.delete(d, row), np.delete(e, row), 'matrix-free action against the product with the generator',
                  1e-9, 1e-13 + core.ph_noise(s, n * np.abs(v).max()),
                  scale=sc * np.abs(v).max() * n)
            close(d[row], e[row], 'normalisation equation of the matrix-free action', 1e-9, 1e-12, scale=n * 3.)
        if c['sol'] == 'no':
            return True
        A = K.copy()
        A[row] = w
        inv = np.linalg.norm(np.linalg.pinv(A), 2)
        tol = inv * 3e-5 * np.sqrt(n)
        if not np.isfinite(inv) or tol > 3e-2 or np.linalg.cond(A) > 1e8:
            return True
        x0 = np.zeros(n)
        x0[:len(core.pop_rows(s)) or 1] = 1.
        x0 /= max(w @ x0, 1e-9)
        d = hist.system(dict(c, kw=dict(c['kw'], norm_row=row)))
        core.solve(d)
        f = hist.system(dict(c, kw=dict(c['kw'], mfreeq=True, norm_row=row, phi0_init=x0, solmethod=c['sol'])))
        with quiet():
            f.solve()
        if f.success and d.success:
            e = np.zeros(n)
            e[row] = 1.
            if c['sol'] in ('hybr', 'lm') and np.abs(A @ np.array(f.appr.sol0.x) - e).max() > 1e-5:
                return True         # these two stop on the change of the solution
            close(np.array(f.phi0), np.array(d.phi0), 'matrix-free solution', 0, tol + 1e-9)
            sc = kscale(K) * n
            E = max(1., np.abs(np.array(d.qd.Ea)).max(), np.abs(np.array(d.leads.mulst)).max())
            for nm, x in (('current', 1.), ('energy_current', 5. * E), ('heat_current', 6. * E)):
                close(np.array(getattr(f, nm)), np.array(getattr(d, nm)), nm + ' of the matrix-free solution', 0,
                      10 * sc * x * tol + 1e-12)
        return True


class C13:
    FUNCS = ['approach/elph/*.py, c_*.pyx: generate_fct, generate_coupling_terms',
             'specfunc/specfunc_elph.py, c_specfunc_elph.pyx: FuncPauliElPh, Func1vNElPh, FuncBose',
             'baths.py: PhononBaths']
    BOUND = 'up to 4 orbitals, 2 baths; random couplings, temperatures, bandwidths, spectral functions, removed states'
    kinds = staticmethod(kinds)

    @staticmethod
    def total(tier):
        return 3000 if tier == 'quick' else 25000

    @staticmethod
    def make(g, i, tier):
        c = hist.make(g, kts=[gen.KTALL[i % 8]], elph=True, nmin=2, small=0.08, deep=0.08, herm_v=g.p(0.8), spin_p=0.1)
        kw = c['kw']
        c['lead'] = g.p(0.25)
        if not c['lead']:
            kw['tleads'] = {}
        if g.p(0.3):
            kw['dband_ph'] = [[0.2, g.u(0.8, 3.)]] * kw['nbaths']      # narrow baths
        if g.p(0.15):
            f = 2 if kw.get('symmetry') == 'spin' else 1
            kw['velph'] = gen.velph_d(g, kw['nbaths'], kw['nsingle'] // f, True, False, spinblock=kw['indexing'] == 'sz') \
                if f == 1 else kw['velph']
        c['fac'] = g.u(0.4, 1.8)
        return c

    @staticmethod
    def run(c):
        s = hist.system(c)
        kw = c['kw']
        K = core.generator(s)
        n = core.gen_size(s)
        if not n:
            raise Skip('no states')
        sc = kscale(K)
        w = core.sym_weights(s, lambda b, q: 1.)
        close(w @ K, np.zeros(n), 'phonons change the total probability', 1e-9, 1e-13 + core.ph_noise(s), scale=sc)
        if c['lead']:
            # together with leads: charge changes only through the leads
            s0 = hist.system(dict(c, kw=dict(kw, velph={})))
            K0 = core.generator(s0)
            wq = charge_weights(s)
            close(wq @ K, wq @ K0, 'phonons change the mean charge', 1e-9,
                  1e-13 + core.ph_noise(s, 4.), scale=sc)
            return bool(np.any(np.abs(K - K0) > 1e-9 * sc))
        for q0 in range(s.si.ncharge):
            wq = core.sym_weights(s, lambda b, q: float(q == q0))
            close(wq @ K, np.zeros(n), 'phonons change the probability of charge %d' % q0, 1e-9,
                  1e-13 + core.ph_noise(s), scale=sc)
        kt = core.base(kw['kerntype'])
        if kt in ('Pauli', 'Lindblad') and s.si.indexing != 'ssq':
            rates(c, s, K, kt)
        return bool(np.any(K))


def rates(c, s, K, kt):
    kw = c['kw']
    E = np.array(s.qd.Ea)
    V = np.array(s.baths.Vbbp)
    T = np.array(s.baths.tlst_ph)
    pop = {b: (i, q) for i, b, q in core.pop_rows(s)}
    if len(set(i for i, _ in pop.values())) != len(pop):
        return
    sc = kscale(K)
    s2 = hist.system(dict(c, kw=dict(kw, velph=scaled(kw['velph'], c['fac']))))
    K2 = core.generator(s2)
    close(K2 - np.array(coherent(s, K)), (K - np.array(coherent(s, K))) * c['fac'] ** 2,
          'phonon rates are not proportional to the square of the coupling', 1e-8, 1e-12, scale=sc)
    same = len(set(T)) == 1
    for b, (i, q) in pop.items():
        for a, (j, qa) in pop.items():
            if a == b:
                continue
            r = K[i, j]
            require(r >= -1e-12 * sc, 'rate from %d to %d is negative: %r', a, b, r)
            if qa != q:
                require(abs(r) <= 1e-13, 'phonons connect different charges: %r', r)
                continue
            x = E[b] - E[a]
            if same and a < b and abs(x) / T[0] > 1e-3:
                up, down = K[i, j], K[j, i]
                if up < 0 or down <= 1e-8 * sc:
                    continue
                close(up, down * np.exp(-x / T[0]), 'detailed balance between states %d and %d (energies %r, %r)'
                      % (a, b, E[a], E[b]), 1e-6, 1e-11 * sc, scale=max(up, down * np.exp(-x / T[0])))
            if kt == 'Pauli' and len(T) == 1 and abs(x) / T[0] > 1e-3:
                m = 0.5 * (abs(V[0, b, a]) ** 2 + abs(V[0, a, b]) ** 2)
                if m < 1e-13:
                    require(abs(r) <= 1e-11 * sc + 1e-12, 'rate %r between states without coupling', r)
    if kt == 'Pauli' and len(T) == 1:
        # the rates per coupling strength are one function of the energy difference, also in another system
        f = {}
        for st in (s, s2):
            Kx = core.generator(st)
            Ex, Vx = np.array(st.qd.Ea), np.array(st.baths.Vbbp)
            for i, b, q in core.pop_rows(st):
                for j, a, qa in core.pop_rows(st):
                    m = 0.5 * (abs(Vx[0, b, a]) ** 2 + abs(Vx[0, a, b]) ** 2)
                    x = Ex[b] - Ex[a]
                    if a != b and qa == q and m > 1e-6 and abs(x) / T[0] > 1e-2:
                        k = round(x, 6)
                        v = Kx[i, j] / m
                        if k in f:
                            require(abs(f[k] - v) <= 1e-4 * max(abs(v), abs(f[k])) + 1e-9,
                                    'rates for one energy difference %r are %r and %r per coupling strength', x, f[k], v)
                        else:
                            f[k] = v


def coherent(s, K):
    """The part of the generator that comes from the energies alone."""
    n = K.shape[0]
    C = np.zeros((n, n))
    si = s.si
    if n == si.npauli:
        return C
    E = np.array(s.qd.Ea)
    for q in range(si.ncharge):
        st = si.statesdm[q]
        for b in st:
            for bp in st:
                i = si.get_ind_dm0(b, bp, q)
                if i < si.npauli or not si.get_ind_dm0(b, bp, q, maptype=3) or not si.get_ind_dm0(b, bp, q, maptype=2):
                    continue
                j = si.ndm0 + i - si.npauli
                C[i, j] += E[b] - E[bp]
                C[j, i] -= E[b] - E[bp]
    return C


def scaled(v, f):
    if isinstance(v, dict):
        return {k: x * f for k, x in v.items()}
    if isinstance(v, list):
        return [[*r[:-1], r[-1] * f] for r in v]
    return v * f
