"""C17 second-order real-time diagrammatic approach."""
import numpy as np
from . import core, gen, hist, p_same
from .core import require, close, quiet, Skip


def wdd(s):
    return np.array(s.appr.Wdd2)[0] if hasattr(s.appr, 'Wdd2') and s.appr.Wdd2 is not None else np.array(s.appr.Wdd)


class C17:
    FUNCS = ['approach/base/RTD.py, c_RTD.pyx: generate_kern, generate_row_1st_order_kernel, generate_col_diag_kern_2nd_order, '
             'generate_*_energy_kernel, off-diagonal corrections, generate_current', 'kernel_handler.py, c_kernel_handler.pyx: '
             'KernelHandlerRTD', 'specfunc: integralD, integralX, BW_Ozaki']
    BOUND = 'random systems up to 3 orbitals and 3 leads, retained states, histories of up to 3 calls'

    @staticmethod
    def total(tier):
        return 2500 if tier == 'quick' else 20000

    @staticmethod
    def make(g, i, tier):
        kt = ['RTD', 'pyRTD', 'RTD'][i % 3]
        c = p_same.special(g, kt, nmax=3 if kt == 'RTD' and g.p(0.4) else 2, lmax=3, small=0.1, deep=0.1)
        if g.p(0.3):        # equal temperatures: the closed form of the integrals
            c['kw']['tlst'] = {l: 0.7 for l in range(c['kw']['nleads'])}
        c['v'] = int(g.i(0, 10 ** 6))
        c['hist'] = [g.ch(['solve', 'off', 'mu']) for _ in range(g.i(0, 3))]
        c['mu'] = g.u(-1, 1)
        return c

    kinds = staticmethod(lambda c: [c['kw']['kerntype'], 'corrections %s' % c['offdiag']] + ['removal ' + o[0] for o in c['ops']])

    @staticmethod
    def run(c):
        s = p_same.system(c)
        for h in c['hist']:
            with quiet():
                if h == 'solve':
                    s.solve()
                elif h == 'off':
                    s.off_diag_corrections = not s.off_diag_corrections
                else:
                    s.change(mulst={0: c['mu']})
        s.off_diag_corrections = c['offdiag']
        K = core.generator(s)
        W = wdd(s)
        n = len(K)
        if not n:
            raise Skip('no states')
        require(W.shape == (s.si.nleads, n, n), 'lead resolved kernel has shape %r', W.shape)
        sc = max(np.abs(W).max(), core.natural(s) * 1e-3)
        w = core.sym_weights(s, lambda b, q: 1.)
        N = core.sym_weights(s, lambda b, q: float(q))
        require(np.all(np.isfinite(W)), 'kernel is not finite')
        for l in range(s.si.nleads):
            close(w @ W[l], np.zeros(n), 'change of the total probability by lead %d' % l, 1e-9, 1e-13, scale=sc * n)
        close(K, W.sum(0), 'generator against the sum of the contributions of the leads', 1e-10, 1e-13, scale=sc)
        r = np.random.default_rng(c['v'])
        mu = np.array(s.leads.mulst)
        for v in (r.random(n), r.normal(size=n)):
            with quiet():
                cur, en, heat = core.lead_currents(s, v)
            close(cur.sum(), N @ K @ v, 'sum of the particle currents against the change of the charge', 1e-9, 1e-12,
                  scale=sc * n * n * np.abs(v).max())
            close(cur, np.array([N @ W[l] @ v for l in range(len(W))]), 'particle currents', 1e-9, 1e-12,
                  scale=sc * n * n * np.abs(v).max())
            if np.all(np.isfinite(en)):
                close(heat, en - mu * cur, 'heat current', 1e-10, 1e-13)
            else:
                require(np.all(np.isnan(en)) and np.all(np.isnan(heat)), 'energy currents are neither numbers nor all undefined')
        cond = p_same.normal_cond(s, c, K)
        p_same.run_solve(s, c)
        if cond < 1e8:
            cur = np.array(s.current)
            require(s.success, 'solution reported as failed')
            phi = np.array(s.phi0)
            close(w @ phi, 1., 'trace', 0, 1e-9 * max(1., cond * 1e-4))
            close(cur.sum(), 0., 'sum of the stationary particle currents', 0, 1e-12 * cond * sc * n + 1e-9 * sc * n * n)
            en, heat = np.array(s.energy_current), np.array(s.heat_current)
            if np.all(np.isfinite(en)):
                close(heat, en - mu * cur, 'stationary heat current', 1e-10, 1e-13)
        T = np.array(s.leads.Tba)
        if np.abs(T.imag).max() < 1e-14 * max(np.abs(T).max(), 1e-300):     # complex: see DESIGN.md, C17
            limit(c, s)
        return True


def limit(c, s):
    """K(x t) = x^2 A + x^4 B; A is the generator of the Pauli approach."""
    t = {k: v for k, v in dict(s.leads.tleads).items()}
    Ks = []
    Ws = []
    for x in (1., 0.5):
        with quiet():
            s.change(tleads={k: v * x for k, v in t.items()})
        Ks.append(core.generator(s))
        Ws.append(wdd(s))
    A = (16 * Ks[1] - Ks[0]) / 3.
    kw = dict(c['kw'], kerntype='Pauli', itype=1)
    p = hist.system(dict(c, kw=kw, ops=[o for o in c['ops'] if o[0] != 'coh']))
    with quiet():
        p.change(tleads=t, mulst=np.array(s.leads.mulst))
    P = core.generator(p)
    require(A.shape == P.shape, 'shape of the generator of the rate equation')
    sc = max(np.abs(P).max(), np.abs(Ks[0]).max(), 1e-12)
    # couplings below a cutoff are dropped, so that very small ones may miss the fourth order
    if np.abs(A - P).max() > 1e-8 * sc + 1e-10:
        close(A, P, 'second order in the coupling against the Pauli generator', 1e-8, 1e-10, scale=sc)
    r = np.random.default_rng(c['v'] + 1)
    v = r.random(len(P))
    N = core.sym_weights(s, lambda b, q: float(q))
    cur = np.array([N @ ((16 * Ws[1][l] - Ws[0][l]) / 3.) @ v for l in range(s.si.nleads)])
    cp = core.lead_currents(p, v)[0]
    close(cur, cp, 'second order of the particle currents against those of the Pauli approach', 1e-8, 1e-10, scale=sc * len(P))
