"""C19 second-order von Neumann approach."""
import numpy as np
from . import core, gen, p_same
from .core import require, close, quiet, Skip


class C19:
    FUNCS = ['approach/base/neumann2.py, c_neumann2.pyx: prepare_energy_grid, prepare_distribution, iterate, '
             'determine_phi1_phi0, generate_kern, generate_current, get_htransf_phi1k, get_htransf_fk',
             'specfunc.py: kernel_fredriksen, hilbert_fredriksen', 'aprclass.py: ApproachBase2vN']
    BOUND = 'up to 2 orbitals, 2 leads (3 in the compiled form), 8 to 32 grid points, up to 4 iterations'

    @staticmethod
    def total(tier):
        return 2000 if tier == 'quick' else 12000

    @staticmethod
    def make(g, i, tier):
        kt = '2vN' if i % 3 else 'py2vN'
        c = p_same.special(g, kt, lmax=3 if kt == '2vN' else 2, small=0.1)
        c['kw']['kpnt'] = g.i(8, 32 if kt == '2vN' else 16)
        if g.p(0.3):
            c['kw']['dband'] = {l: g.u(6., 10.) for l in range(c['kw']['nleads'])}
        c['n'], c['m'] = g.i(0, 2), g.i(1, 2)
        c['v'] = int(g.i(0, 10 ** 6))
        c['keep'] = g.p(0.3)
        c['ret'] = g.p(0.3)
        return c

    kinds = staticmethod(lambda c: [c['kw']['kerntype'], '%d+%d iterations' % (c['n'], c['m'])])

    @staticmethod
    def run(c):
        s = p_same.system(dict(c, ops=[]))
        if c['ret']:
            with quiet():
                s.solve(masterq=False)
            lst = [list(x) for x in s.si.chargelst]
            r = np.random.default_rng(c['v'])
            lst = [[b for b in x if r.random() < 0.8] for x in lst]
            if sum(len(x) for x in lst) == 0 or not any(len(a) and len(b) for a, b in zip(lst, lst[1:])):
                raise Skip('no amplitudes')
            s.si.set_statesdm(lst)
        hilbert(c)
        n = c['n'] + c['m']
        seen = []

        def each(appr):
            seen.append(one(s, 'iteration %d' % (len(seen) + 1)))
        with quiet():
            s.solve(niter=n, func_iter=each)
        require(len(seen) == n and len(s.iters) == n and s.niter == n - 1, 'number of iterations %d, %d, niter %d for %d',
                len(seen), len(s.iters), s.niter, n)
        for it, (phi, cur, en, phi1) in zip(s.iters, seen):
            require(np.array_equal(it.phi0, phi) and np.array_equal(it.current, cur) and np.array_equal(it.phi1, phi1)
                    and np.array_equal(it.energy_current, en), 'recorded results of an iteration')
        full = (np.array(s.phi0), np.array(s.current), np.array(s.energy_current), np.array(s.heat_current),
                np.array(s.appr.phi1), np.array(s.appr.phi1k))
        generator(s, c)
        f = p_same.system(dict(c, ops=[]))
        if c['ret']:
            with quiet():
                f.solve(masterq=False)
            f.si.set_statesdm(lst)
        if c['keep']:
            with quiet():
                f.solve(niter=1)
        with quiet():
            if c['n']:
                f.solve(niter=c['n'])
                f.solve(niter=c['m'], restartq=False, qdq=bool(c['v'] % 2))
            else:
                f.solve(niter=c['m'])
        part = (np.array(f.phi0), np.array(f.current), np.array(f.energy_current), np.array(f.heat_current),
                np.array(f.appr.phi1), np.array(f.appr.phi1k))
        for nm, a, b in zip(('density matrix', 'current', 'energy current', 'heat current', 'amplitudes',
                             'energy resolved amplitudes'), part, full):
            close(a, b, '%s after %d and %d iterations against %d' % (nm, c['n'], c['m'], n), 1e-12, 1e-14)
        return True


def one(s, what):
    M = core.full_rho(s)
    m = max(1., np.abs(M).max())
    require(np.all(np.isfinite(M)), what + ': density matrix is not finite')
    cond = p_same.cond2(s)
    if cond < 1e9:
        close(np.trace(M), 1., what + ': trace', 0, 1e-12 * cond * m + 1e-10)
        close(M, M.conj().T, what + ': Hermiticity', 0, 1e-11 * cond * m + 1e-10)
        sc = max(np.abs(np.array(s.kern)).max(), core.natural(s)) * m * len(M)
        close(np.array(s.current).sum(), 0., what + ': sum of the particle currents', 0, 1e-11 * sc * cond + 1e-12)
    close(np.array(s.heat_current), np.array(s.energy_current) - np.array(s.leads.mulst) * np.array(s.current),
          what + ': heat current', 1e-10, 1e-14)
    return np.array(s.phi0), np.array(s.current), np.array(s.energy_current), np.array(s.appr.phi1)


def generator(s, c):
    """The equations before normalisation, from the last amplitudes."""
    a, si = s.appr, s.si
    a.kern[:] = 0
    a.generate_kern()
    K = np.array(a.kern)
    nd = si.ndm0
    sc = max(np.abs(K).max(), core.natural(s))
    w, N = np.zeros(nd), np.zeros(nd)
    for q in range(si.ncharge):
        for b in si.statesdm[q]:
            i = si.get_ind_dm0(b, b, q)
            w[i], N[i] = 1., q
    close(w @ K, np.zeros(nd), 'sum of the population equations', 1e-10, 1e-13, scale=sc * nd)
    r = np.random.default_rng(c['v'] + 3)
    v = np.zeros(nd, dtype=complex)
    for q in range(si.ncharge):
        st = list(si.statesdm[q])
        for i, b in enumerate(st):
            for bp in st[i:]:
                z = complex(r.normal(), r.normal() if b != bp else 0.)
                v[si.get_ind_dm0(b, bp, q)] = z
                v[si.get_ind_dm0(bp, b, q)] = np.conj(z)
    d = -1j * (K @ v)
    for q in range(si.ncharge):
        for b in si.statesdm[q]:
            for bp in si.statesdm[q]:
                x, y = d[si.get_ind_dm0(b, bp, q)], d[si.get_ind_dm0(bp, b, q)]
                close(x, np.conj(y), 'Hermiticity of the change of a Hermitian matrix', 0, 1e-10 * sc * nd * np.abs(v).max())
    a.phi0[:] = v
    for x in (a.current, a.energy_current, a.heat_current):
        x[:] = 0
    a.generate_current()
    close(np.array(a.current).sum(), (N @ d).real, 'sum of the particle currents against the change of the charge', 0,
          1e-10 * sc * nd * np.abs(v).max() * 3)
    close(np.array(a.heat_current), np.array(a.energy_current) - np.array(s.leads.mulst) * np.array(a.current),
          'heat currents', 1e-10, 1e-13)


def hilbert(c):
    from qmeq.specfunc import specfunc as sf
    r = np.random.default_rng(c['v'] + 7)
    n = int(r.integers(2, 40))
    f, g = r.normal(size=n) + 1j * r.normal(size=n), r.normal(size=n) + 1j * r.normal(size=n)
    x, y = complex(*r.normal(size=2)), complex(*r.normal(size=2))
    ker = sf.kernel_fredriksen(n)
    H = lambda z: np.array(sf.hilbert_fredriksen(z, ker))
    close(H(x * f + y * g), x * H(f) + y * H(g), 'linearity of the Hilbert transform', 1e-11, 1e-12)
    close(H(f.real).imag, np.zeros(n), 'Hilbert transform of a real function', 0, 1e-12)
    close(H(f.conj()), H(f).conj(), 'Hilbert transform of the conjugate', 1e-11, 1e-12)
    close(np.array(sf.hilbert_fredriksen(f)), H(f), 'Hilbert transform with the default kernel', 1e-12, 1e-13)
    mod = 'qmeq.approach.base.c_neumann2' if c['kw']['kerntype'] == '2vN' else 'qmeq.approach.base.neumann2'
    import importlib
    get = getattr(importlib.import_module(mod), 'get_htransf_phi1k', None)
    if get is None:
        return

    class F:
        ht_ker = None
    fp = F()
    fp.kpnt_left, fp.kpnt_right = int(r.integers(0, 5)), int(r.integers(0, 5))
    sh = (n, 2, 2, 3)
    p, q = (r.normal(size=sh) + 1j * r.normal(size=sh) for _ in range(2))
    T = lambda z: [np.array(u) for u in get(z, fp)]
    (p0, hp), (q0, hq), (z0, hz) = T(p), T(q), T(x * p + y * q)
    close(hz, x * hp + y * hq, 'linearity of the transform of the amplitudes', 1e-11, 1e-12)
    close(p0[fp.kpnt_left:fp.kpnt_left + n], p, 'amplitudes on the extended grid', 0, 0)
    require(not np.any(p0[:fp.kpnt_left]) and not np.any(p0[fp.kpnt_left + n:]), 'padding of the amplitudes')
    close(T(p.real.astype(complex))[1].imag, np.zeros(hp.shape), 'transform of real amplitudes', 0, 1e-12)
