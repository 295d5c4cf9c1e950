"""C10 compiled against Python, C15 histories, C16 indexing schemes, C20 many-body input."""
import copy
import numpy as np
from . import core, gen, hist, p_dot
from .core import require, close, quiet, Skip

OTHER = lambda kt: kt[2:] if kt.startswith('py') else 'py' + kt
NAMES = ('current', 'energy_current', 'heat_current')


def special(g, kt, nmax=2, lmax=2, real=None, small=0., deep=0.):
    """Case for RTD and second-order von Neumann."""
    rtd = 'RTD' in kt
    c = gen.system(g, kt=kt, elph=False, indexings=['charge'] if rtd else ['charge', 'Lin'], itypes=[1] if rtd else [0],
                   nmax=nmax, lmax=lmax, general=False, wide=True, real=True if rtd and (real or g.p(0.5)) else None, small=small,
                   deep=deep)
    c['ops'] = hist.rand_removals(g, c['kw']) if rtd else []
    if rtd:
        if deep and np.isscalar(c['kw']['dband']):
            c['kw']['dband'] = min(c['kw']['dband'], 400.)
        c['offdiag'] = g.p(0.7)
        if g.p(0.2):                                  # temperatures that nearly agree
            t, d = g.u(0.2, 0.8), g.ch([0., 1e-12, 1e-9, 1e-7, 1e-6])
            c['kw']['tlst'] = {l: t + d*l for l in range(c['kw']['nleads'])}
    else:
        c['kw']['kpnt'] = g.ch([12, 16, 20])
        c['kw']['dband'] = g.u(6., 10.)
        c['niter'] = g.i(1, 3)
    return c


def system(c, **over):
    k = dict(c['kw'], **over)
    s = hist.system(dict(c, kw=k))
    if 'offdiag' in c:
        s.off_diag_corrections = c['offdiag']
    return s


def run_solve(s, c, **k):
    if 'niter' in c:
        k['niter'] = c['niter']
    with quiet():
        s.solve(**k)


def scale_of(s):
    K = np.array(s.appr.kern) if s.appr.kern is not None else np.zeros(0)
    K = K[np.isfinite(K)]
    k = float(np.abs(K).max()) if K.size else 1.
    E = max(1., float(np.abs(np.array(s.qd.Ea)).max()) if len(s.qd.Ea) else 1., float(np.abs(np.array(s.leads.mulst)).max()) if s.si.nleads else 1.)
    return max(k, 1e-9), E


def normal_cond(s, c, K=None):
    """Condition number of the normalised system of equations (inf where it has no unique solution)."""
    if K is None:
        K = core.generator(s)
    A = K.copy()
    A[s.norm_row if s.symq else core.pop_rows(s)[0][0]] = core.sym_weights(s, lambda b, q: 1.)
    x = np.linalg.cond(A)
    return x if np.isfinite(x) else 1e300


def cond2(s):
    """Condition number of the equations of the second-order von Neumann approach."""
    A = np.array(s.kern)
    r = s.norm_row if A.shape[0] == A.shape[1] else -1
    A[r] = 0
    for q in range(s.si.ncharge):
        for b in s.si.statesdm[q]:
            A[r, s.si.get_ind_dm0(b, b, q)] += 1
    x = np.linalg.cond(A)
    return x if np.isfinite(x) else 1e300


def same_results(s, f, c, what, tol, scale=None, phi1=True):
    """phi0, currents and amplitudes of two systems agree up to tol (relative)."""
    require(bool(s.success) == bool(f.success), '%s: success is %r against %r', what, s.success, f.success)
    m = max(1., np.abs(np.array(f.phi0)).max())
    close(np.array(s.phi0), np.array(f.phi0), what + ': density matrix', 0, tol * m)
    k, E = scale or scale_of(f)
    n = max(1, len(np.array(f.phi0)))
    for nm, x in zip(NAMES, (1., 8 * E, 10 * E)):
        a, b = np.array(getattr(s, nm)), np.array(getattr(f, nm))
        if np.all(np.isnan(b)) and np.all(np.isnan(a)) and 'offdiag' in c:
            continue
        close(a, b, '%s: %s' % (what, nm), 1e-9, tol * k * x * m * n)
    if phi1 and s.appr.phi1 is not None and f.appr.phi1 is not None:
        T = np.abs(np.array(f.leads.Tba)).max()
        close(np.array(s.appr.phi1), np.array(f.appr.phi1), what + ': amplitudes', 1e-9, 100 * tol * m * n * max(T, 1e-3))


def special_functions(seed):
    """The functions of specfunc.py and their compiled forms, at random arguments."""
    from qmeq.specfunc import specfunc as P, c_specfunc as C
    if not all(hasattr(P, n) and hasattr(C, 'c_' + n) for n in ('fermi_func', 'bose', 'diff_fermi', 'phi', 'diff_phi', 'diff2_phi', 'digamma', 'polygamma',
                                                                'BW_Ozaki', 'integralD', 'integralX')):
        raise Skip('functions not found')
    r = np.random.default_rng(seed)
    grid = [-0.75, 0., 0.5, 0.75, 1.5]

    def e(n):
        return [float(r.choice(grid)) if r.random() < 0.6 else float(r.uniform(-4, 4)) for _ in range(n)]
    for _ in range(12):
        x, sg = float(r.choice([r.uniform(-6, 6), r.uniform(-40, 40), 360., 720.])), int(r.choice([-1, 1]))
        close(C.c_fermi_func(x), P.fermi_func(x), 'fermi_func(%r)' % x, 1e-12, 0.)
        if x:
            close(C.c_bose(x), P.bose(x), 'bose(%r)' % x, 1e-10, 0.)
        close(C.c_diff_fermi(x), P.diff_fermi(x), 'diff_fermi(%r)' % x, 1e-10, 0.)
        D = float(r.uniform(20, 80))
        close(C.c_phi(x, D, D, sg), P.phi(x, D, D, sg), 'phi(%r)' % x, 1e-9, 1e-10)
        close(C.c_diff_phi(x, sg), P.diff_phi(x, sg), 'diff_phi(%r)' % x, 1e-8, 1e-10)
        close(C.c_diff2_phi(x, sg), P.diff2_phi(x, sg), 'diff2_phi(%r)' % x, 1e-8, 1e-10)
        z = complex(r.uniform(0.1, 20), r.uniform(-20, 20))
        close(C.c_digamma(z), complex(P.digamma(z)), 'digamma(%r)' % z, 1e-9, 1e-10)
        for k in range(5):
            close(C.c_polygamma(z, k), complex(P.polygamma(z, k)), 'polygamma(%r, %d)' % (z, k), 1e-8, 1e-10)
        T1 = float(r.uniform(0.4, 1.5))
        T2 = T1 if r.random() < 0.5 else T1 + float(r.choice([-0.2, 0.1, 0.4]))
        E, mu = e(3), e(2)
        W = float(r.uniform(40, 80))
        a, b = np.array(C.c_BW_Ozaki(W)), np.array(P.BW_Ozaki(W))
        require(a.shape == b.shape, 'BW_Ozaki(%r): %s and %s poles' % (W, a.shape, b.shape))
        close(a, b, 'BW_Ozaki(%r)' % W, 1e-9, 1e-12)
        arg = [int(r.choice([-1, 1])), int(r.choice([-1, 1]))] + E + [T1, T2] + mu + [W, b, int(r.random() < 0.4)]
        for n in ('integralD', 'integralX'):
            close(complex(getattr(C, 'c_' + n)(*arg)), complex(getattr(P, n)(*arg)), '%s%r' % (n, tuple(x for x in arg if x is not b)), 1e-7, 1e-9)
    return True


def edge_of_grid(c, a, b):
    """Second-order von Neumann: whether the difference of the two forms is explained by rounding of the energies. An energy like
    (Ek-E)+E, which is not Ek in floating point, can lie outside of the grid of which Ek is the end."""
    d = np.abs(np.array(a.appr.phi1k) - np.array(b.appr.phi1k)).max()
    w = 0.
    for kt in (a.kerntype, b.kerntype):
        for f in (1e-15, -1e-15, 3e-15, -3e-15):
            h = {k: v * (1 + f) for k, v in p_dot.as_dict(c['kw']['hsingle'], 'hsingle', c['kw'].get('herm_hs', True)).items()}
            s = system(dict(c, kw=dict(c['kw'], hsingle=h)), kerntype=kt)
            run_solve(s, c)
            w = max(w, np.abs(np.array(s.appr.phi1k) - np.array((a if kt == a.kerntype else b).appr.phi1k)).max())
    return w > 1e-10 * np.abs(np.array(b.appr.phi1k)).max() and d <= 20 * w


class C10:
    FUNCS = ['approach/base/c_*.pyx, approach/elph/c_*.pyx against the Python modules of the same names',
             'approach/c_aprclass.pyx, c_kernel_handler.pyx, specfunc/c_specfunc*.pyx, wrappers/c_lapack.pyx']
    BOUND = 'random systems up to 4 orbitals (second-order approaches: 2), histories of up to 4 calls'

    @staticmethod
    def total(tier):
        return 900 if tier == 'quick' else 9000

    @staticmethod
    def make(g, i, tier):
        if i % 30 == 29:
            return {'kw': {'kerntype': 'special functions'}, 'then': [], 'sf': int(g.i(0, 10 ** 6))}
        if i % 8 == 7:
            c = special(g, g.ch(['RTD', 'RTD', '2vN']))
            c['then'] = []
            return c
        c = hist.make(g, kts=[gen.KT[i % 4]], small=0.08, deep=0.06, herm_v=g.p(0.7))
        if 'nbaths' in c['kw'] and g.p(0.3):
            c['kw']['eps_elph'] = g.ch([1e-3, 0.05, 0.3])
        c['v'] = int(g.i(0, 10 ** 6))
        c['opt'] = {}
        if g.p(0.5):
            c['opt'] = g.ch([dict(symq=False, solmethod='lsqr'), dict(symq=True, solmethod='lsqr'), dict(mfreeq=True),
                             dict(symq=True, solmethod='solve')])
        if c['opt'].get('symq') is None and g.p(0.5):
            c['opt'] = dict(c['opt'], norm=g.u(0, 1))
        c['then'] = []
        for _ in range(g.i(0, 3)):
            k = g.ch(['solve', 'change', 'rem', 'kt'])
            if k == 'change':
                c['then'].append(['change', p_dot.rand_args(g, c['kw'], 'change')])
            elif k == 'rem':
                c['then'].append(['rem', hist.rand_removals(g, c['kw'])])
            elif k == 'kt' and not c['ops']:
                c['then'].append(['kt', g.ch(gen.KT)])
            else:
                c['then'].append(['solve', 0])
        return c

    kinds = staticmethod(lambda c: [c['kw']['kerntype'] + ('+ph' if 'nbaths' in c['kw'] else ''),
                                    'history of %d calls' % len(c['then'])])

    @staticmethod
    def run(c):
        if 'sf' in c:
            return special_functions(c['sf'])
        two = []
        for kt in (c['kw']['kerntype'], 'py' + c['kw']['kerntype']):
            s = system(c, kerntype=kt)
            o = c.get('opt', {})
            for k, x in o.items():
                if k != 'norm':
                    setattr(s, k, x)
            two.append(s)
        a, b = two
        for op, x in c['then']:
            for s in two:
                with quiet():
                    if op == 'solve':
                        s.norm_row = min(i for i, _, _ in core.pop_rows(s))
                        s.solve()
                    elif op == 'change':
                        s.change(**copy.deepcopy(x))
                    elif op == 'kt':
                        s.kerntype = ('py' if s is b else '') + x
                    else:
                        hist.apply(s, x)
        n = core.gen_size(a)
        if not n:
            raise Skip('no states')
        rows = sorted(set(i for i, _, _ in core.pop_rows(a)))
        for s in two:
            s.norm_row = rows[min(len(rows) - 1, int(c.get('opt', {}).get('norm', 0) * len(rows)))]
        if 'niter' in c:
            for s in two:
                run_solve(s, c)
            try:
                close(np.array(a.kern), np.array(b.kern), 'kernel of the compiled and the Python form', 1e-9, 1e-11)
                close(np.array(a.appr.phi1k), np.array(b.appr.phi1k), 'energy resolved amplitudes', 1e-9, 1e-11)
                cd = cond2(b)
                if cd < 1e8:
                    same_results(a, b, c, 'compiled against Python', 1e-9 * max(1., cd * 1e-2))
            except core.Contract:
                if edge_of_grid(c, a, b):
                    raise Skip('rounding decides whether an energy lies within the grid')
                raise
            return True
        mfree = bool(a.mfreeq)
        for s in two:
            s.mfreeq = False
            s.make_kern_copy = True
        Ka, Kb = core.generator(a), core.generator(b)
        pn = core.ph_noise(b, 10.)
        rtd = 'offdiag' in c
        close(Ka, Kb, 'generators of the compiled and the Python form', 1e-8 if rtd else 1e-9, 1e-12 + pn)
        if rtd:
            close(np.array(a.appr.Wdd2)[0], np.array(b.appr.Wdd), 'lead resolved kernel', 1e-8, 1e-12)
            for nm in ('WE1', 'WE2') + (('ReWdn', 'ImWdn') if c['offdiag'] else ()):
                close(np.array(getattr(a.appr, nm)), np.array(getattr(b.appr, nm)), nm, 1e-8, 1e-12)
        else:
            r = np.random.default_rng(c['v'])
            v = r.normal(size=n)
            x, y = core.lead_currents(a, v), core.lead_currents(b, v)
            for nm, p, q in zip(NAMES, x, y):
                close(p, q, nm + ' of an arbitrary state', 1e-8, 1e-11, scale=max(np.abs(q).max(), np.abs(Kb).max() * n * 3))
            if a.appr.phi1 is not None and b.appr.phi1 is not None and core.base(a.kerntype) in ('1vN', 'Redfield'):
                close(np.array(a.appr.phi1), np.array(b.appr.phi1), 'amplitudes of an arbitrary state', 1e-8, 1e-11)
            for s in two:
                s.mfreeq = True
                with quiet():
                    s.solve(masterq=False)
                s.appr.prepare_kern()
                s.appr.generate_fct()
            close(np.array(a.appr.generate_vec(v)), np.array(b.appr.generate_vec(v)), 'matrix-free action', 1e-9,
                  1e-12 + pn * n * np.abs(v).max(), scale=np.abs(Kb).max() * np.abs(v).max() * n + n * 3)
            for s in two:
                s.mfreeq = False
        cond = normal_cond(b, c, Kb)
        if cond > 1e8:
            return True
        tol = 1e-10 + 1e-13 * cond + (1e-7 if rtd else 0) + pn * cond
        sc = None
        for s in two:
            run_solve(s, c)
        if tol < 1e-3:
            same_results(a, b, c, 'compiled against Python', tol)
            sc = scale_of(b)
        if mfree and not rtd:
            for s in two:
                s.mfreeq = True
                s.solmethod = 'krylov'
                with quiet():
                    s.solve()
            if a.success and b.success and cond < 1e4:
                same_results(a, b, c, 'matrix-free solutions, compiled against Python', 1e-4 * max(1., cond / 10.), sc)
        return True


# ---------------------------------------------------------------------------------------------- C15
class C15:
    FUNCS = ['approach/aprclass.py, c_aprclass.pyx: restart, prepare_kern, prepare_arrays, clean_arrays, solve',
             'approach/base, elph: prepare_arrays, clean_arrays of every approach', 'builder/builder_base.py: kerntype, '
             'change_si, remove_states, remove_coherences, use_all_states', 'indexing.py: set_statesdm, set_mapdm, set_dictdm']
    BOUND = 'random systems up to 4 orbitals (second-order approaches: 2), histories of up to 8 calls'

    @staticmethod
    def total(tier):
        return 900 if tier == 'quick' else 12000

    @staticmethod
    def make(g, i, tier):
        second = i % 6 == 5
        if second:
            kt = g.ch(['RTD', 'pyRTD', '2vN', 'py2vN'])
            c = special(g, kt, real=True)       # complex products switch the integrals at the level of rounding
        else:
            c = hist.make(g, kts=[gen.KTALL[i % 8]], itypes=(1, 2, 3, 2, 0))
        if second and 'RTD' in kt:
            c['kw']['mtype_qd'] = 'float'
            for k in ('hsingle', 'tleads'):
                if isinstance(c['kw'][k], np.ndarray):
                    c['kw'][k] = np.real(c['kw'][k]).copy()
        ops = c.pop('ops')
        elph = 'nbaths' in c['kw']
        c['kt0'] = c['kw']['kerntype']
        h = []
        if 'niter' in c:
            c['kw']['dband'] = [[-c['kw']['dband'], c['kw']['dband']]] * c['kw']['nleads']
        for _ in range(g.i(1, 6)):
            k = g.ch(['solve', 'solve', 'change', 'add', 'rem', 'kt', 'opt', 'mf', 'part'])
            if 'niter' in c and g.p(0.4):
                # one band edge only, both, or one lead only
                lo, hi = c['kw']['dband'][0]
                e = (lo - g.ch([0., 0., 1.5]), hi + g.ch([0., 2., 3.]))
                ls = range(c['kw']['nleads']) if g.p(0.7) else [0]
                h.append(['solve', 0])
                h.append(['change', {'dlst': {l: e for l in ls}}])
                if g.p(0.3):
                    h.append(['kpnt', g.ch([12, 16, 20])])
                continue
            if k in ('change', 'add'):
                h.append([k, p_dot.rand_args(g, c['kw'], k)])
            elif k == 'rem':
                h.append([k, [o for o in hist.rand_removals(g, c['kw']) if o[0] != 'fock' and ('niter' not in c or o[0] != 'coh')]])
            elif k == 'kt':
                h.append([k, g.ch(gen.KTALL + ([] if not second else ['RTD', 'pyRTD'] if 'RTD' in kt else ['2vN']))])
            elif k == 'opt':
                h.append([k, g.ch([dict(symq=False, solmethod='lsqr'), dict(symq=True, solmethod='lsqr'),
                                   dict(symq=True, solmethod='solve'), dict(symq=True, solmethod=None)])])
            else:
                h.append([k, 0])
            if second and 'RTD' in kt and g.p(0.3):
                h.append(['off', g.p(0.5)])
        c['hist'] = h
        c['ops'] = [o for o in ops if o[0] != 'fock']
        c['fock'] = [o for o in ops if o[0] == 'fock'] if not second else []
        last = [x for k, x in h if k == 'kt'] or [c['kw']['kerntype']]
        c['kt'] = c['kw']['kerntype'] if second else last[-1] if g.p(0.7) else g.ch(gen.KTALL)
        c['final'] = g.ch([dict(symq=False, solmethod='lsqr'), dict(symq=True, solmethod='lsqr'),
                           dict(symq=True, solmethod='solve'), dict(symq=True, solmethod=None)]) if not second else {}
        c['post'] = g.p(0.5)
        c['elph'] = elph
        return c

    kinds = staticmethod(lambda c: [c['kt']] + ['history ' + h[0] for h in c['hist']])

    @staticmethod
    def run(c):
        kw = c['kw']
        sp = {'builder': c['builder'], 'kw': kw}
        with quiet():
            s = core.build(sp)
        m = p_dot.Model(copy.deepcopy(kw))
        kts = [c['kt0']]
        kpnt = []

        def solve1(x=None):
            k = dict(x or {})
            if core.base(s.kerntype) == '2vN':
                k['niter'] = c.get('niter', 1)
            with quiet():
                s.solve(**k)
        hist.apply(s, c['fock'])
        if 'offdiag' in c:
            s.off_diag_corrections = c['offdiag']
        for op, x in c['hist']:
            with quiet():
                if op == 'solve':
                    solve1()
                elif op in ('change', 'add'):
                    getattr(s, op)(**copy.deepcopy(x))
                    m.apply(op, x)
                elif op == 'rem':
                    hist.apply(s, x)
                elif op == 'kt':
                    if s.si.indexing == 'ssq' and ('RTD' in x or '2vN' in x):
                        continue
                    s.kerntype = x
                elif op == 'kpnt':
                    s.kpnt = x
                    kpnt.append(x)
                elif op == 'opt':
                    for k, v in x.items():
                        setattr(s, k, v)
                elif op == 'off':
                    s.off_diag_corrections = x
                elif op == 'part':
                    s.solve(masterq=False)
                elif op == 'mf':
                    if core.base(s.kerntype) in gen.KT:
                        old = s.solmethod
                        s.mfreeq, s.solmethod = True, 'krylov'
                        s.solve()
                        s.mfreeq, s.solmethod = False, old
        if 'offdiag' in c:
            s.off_diag_corrections = c['offdiag']
        with quiet():
            if s.kerntype != c['kt']:       # (setting it makes a new approach object)
                s.kerntype = c['kt']
            s.use_all_states()
        if 'niter' in c and c.get('post'):
            s.appr.restart()
        hist.apply(s, c['ops'])
        fin = c['final'] or dict(symq=s.symq, solmethod=s.solmethod)
        for k, v in fin.items():
            setattr(s, k, v)
        kwf = m.kw(copy.deepcopy(kw))
        kwf['kerntype'] = c['kt']
        if kpnt:
            kwf['kpnt'] = kpnt[-1]
        if 'niter' not in c:
            kwf.update(fin)
        with quiet():
            f = core.build({'builder': c['builder'], 'kw': kwf})
        if 'offdiag' in c:
            f.off_diag_corrections = c['offdiag']
        hist.apply(f, c['fock'])
        hist.apply(f, c['ops'])
        rows = set(i for i, _, _ in core.pop_rows(f))
        require(core.gen_size(s) == core.gen_size(f), 'number of equations %d against %d', core.gen_size(s), core.gen_size(f))
        if not rows:
            raise Skip('no states')
        s.norm_row = f.norm_row = min(rows)
        if 'niter' in c:
            solve1()
            with quiet():
                f.solve(niter=c['niter'])
            cd = cond2(f)
            if cd < 1e8:
                same_results(s, f, c, 'object with a history against a new one', 1e-9 * max(1., cd * 1e-3))
            x = results(s)
            solve1()
            if cd < 1e8:
                for u, v in zip(results(s), x):
                    if np.size(v):
                        close(u, v, 'solving twice', 0, 1e-13 * max(1., np.abs(v).max()) * max(1., cd))
            return True
        K = core.generator(f)
        cond = normal_cond(f, c, K)
        pn = core.ph_noise(f, 10.)
        tol = 1e-9 + 1e-12 * cond + pn * cond
        with quiet():
            f.solve()
        solve1()
        # the matrix elements depend on the eigenvectors, which are unique for separated energies only
        if cond < 1e8 and tol < 1e-3 and nondegenerate(f):
            observables(s, f, c, 'object with a history against a new one', tol)
        x = results(s)
        solve1()
        for u, v in zip(results(s), x):
            if np.size(v) and np.all(np.isfinite(v)) and cond < 1e10:
                close(u, v, 'solving twice', 0, 1e-13 * max(1., np.abs(v).max()) * cond)
        if c['post'] and cond < 1e8 and tol < 1e-3 and nondegenerate(f) and core.base(c['kt']) in gen.KT:
            # switch the solver and back
            s.mfreeq, old = True, s.solmethod
            s.solmethod = 'krylov'
            with quiet():
                s.solve()
            s.mfreeq, s.solmethod = False, old
            solve1()
            observables(s, f, c, 'after a matrix-free solution', tol)
            Ks = core.generator(s)
            if core.base(c['kt']) == 'Pauli':
                close(Ks, K, 'generator of an object with a history against a new one', 1e-8, 1e-12 + pn)
        return True


def nondegenerate(s, charges=True, gap=1e-4):
    E = np.array(s.qd.Ea)
    if s.si.indexing == 'ssq':
        return True
    for q in range(s.si.ncharge):
        e = np.sort(E[list(s.si.chargelst[q])])
        if len(e) > 1 and np.diff(e).min() < gap:
            return core.base(s.kerntype) not in ('Pauli', 'RTD')
    return True


def results(s):
    out = [np.array(s.phi0), np.array(s.current), np.array(s.energy_current), np.array(s.heat_current)]
    if s.appr.phi1 is not None:
        out.append(np.array(s.appr.phi1))
    return out


def observables(s, f, c, what, tol):
    """Currents and populations, independent of the phases of the eigenvectors."""
    require(bool(s.success) == bool(f.success), '%s: success is %r against %r', what, s.success, f.success)
    m = max(1., np.abs(np.array(f.phi0)).max())
    k, E = scale_of(f)
    K = core.base(f.kerntype)
    n = max(1, len(np.array(f.phi0)))
    for nm, x in zip(NAMES, (1., 8 * E, 10 * E)):
        a, b = np.array(getattr(s, nm)), np.array(getattr(f, nm))
        if K == 'RTD' and np.all(np.isnan(a)) and np.all(np.isnan(b)):
            continue
        close(a, b, '%s: %s' % (what, nm), 1e-9, tol * k * x * m * n)
    close(np.array(s.qd.Ea), np.array(f.qd.Ea), what + ': energies', 0, 1e-10 * E)
    rs, rf = fock_rho(s), fock_rho(f)
    close(rs, rf, what + ': density matrix in the Fock basis', 0, tol * m * n)


def fock_rho(s):
    """Density matrix in the Fock basis, ordered by the states' bit patterns."""
    P, _ = p_dot.vectors(s)
    rho = core.full_rho(s)
    M = P @ rho @ P.conj().T
    keys = [sum(int(x) << j for j, x in enumerate(s.si.get_state(i))) for i in range(s.si.nmany)] \
        if s.si.indexing != 'ssq' else [sum(int(x) << j for j, x in enumerate(s.si.get_state(i))) for i in range(s.si.nmany)]
    o = np.argsort(keys)
    return M[np.ix_(o, o)]


# ---------------------------------------------------------------------------------------------- C16
class C16:
    FUNCS = ['indexing.py: StateIndexing (Lin, charge, sz, ssq), set_mapdm of StateIndexingPauli, DM', 'qdot.py: '
             'construct_manybody_eigenstates_ssq, construct_ham_hopping/coulomb', 'leadstun.py: spin doubling, construct_Tba',
             'every first-order approach']
    BOUND = 'spin-conserving systems of 2 or 4 orbitals, 2-4 leads; spin-rotation-invariant systems of up to 2 (3) spin-degenerate levels'

    @staticmethod
    def total(tier):
        return 800 if tier == 'quick' else 6000

    @staticmethod
    def make(g, i, tier):
        kt = gen.KTALL[i % 8]
        if i % 80 == 7:      # quartets
            c = gen.spin_system(g, kt=('Pauli', 'pyPauli')[i // 80 % 2], no=3, nlo=g.i(1, 2), itypes=(1, 2))
            c['mode'] = 'ssq'
        elif i % 5 in (1, 3):
            c = gen.spin_system(g, kt=kt, elph=g.p(0.3), itypes=(0, 1, 2, 3) if g.p(0.3) else (1, 2, 3))
            c['mode'] = 'ssq'
            if tier == 'thorough' and g.p(0.03):
                c = dict(gen.spin_system(g, kt=core.base(kt), no=3, nlo=1, itypes=(2,)), mode='ssq')
        else:
            c = gen.system(g, kt=kt, indexings=['sz'], general=False, nmin=2, nmax=4, lmin=2)
            c['mode'] = 'sz'
        return c

    kinds = staticmethod(lambda c: [c['mode'], c['kw']['kerntype'] + ('+ph' if 'nbaths' in c['kw'] else '')])

    @staticmethod
    def run(c):
        kw = c['kw']
        K = core.base(kw['kerntype'])
        variants = ['charge', 'Lin', 'sz'] if c['mode'] == 'sz' else ['charge', 'ssq', 'sz', 'Lin', 'plain']
        ref = None
        for v in variants:
            k = dict(kw, indexing=v)
            if v == 'plain':
                k = plain(kw)
            with quiet():
                s = core.build({'builder': c['builder'], 'kw': k})
                s.solve(masterq=False)
            rows = sorted(set(i for i, _, _ in core.pop_rows(s)))
            s.norm_row = rows[0]
            Kg = core.generator(s)
            cond = normal_cond(s, c, Kg)
            with quiet():
                s.solve()
            if ref is None:
                ref = s
                if cond > 1e8:
                    raise Skip('no unique solution')
                tol = 1e-9 + 1e-12 * cond + core.ph_noise(s, 10. * cond)
                if tol > 1e-3:
                    raise Skip('ill conditioned')
                E = np.array(s.qd.Ea)
                spin_deg = c['mode'] == 'ssq'
                nd = nondegenerate(s) if not spin_deg else multiplets_only(s)
                if K == 'Pauli' and not nd:
                    raise Skip('degenerate levels in a rate equation')
                close_levels = [np.diff(np.sort(E[list(l)])) for l in s.si.chargelst]
                if any(np.any((d > 1e-11) & (d < 1e-6)) for d in close_levels):
                    raise Skip('nearly degenerate levels')
                continue
            require(s.success, 'indexing %s: solution reported as failed', v)
            m = max(1., np.abs(np.array(ref.phi0)).max())
            k_, e_ = scale_of(ref)
            n = len(np.array(ref.phi0))
            close(np.sort(np.array(s.qd.Ea)), np.sort(np.array(ref.qd.Ea)), 'energies with indexing ' + v, 0, 1e-10 * e_)
            for nm, x in zip(NAMES, (1., 8 * e_, 10 * e_)):
                close(np.array(getattr(s, nm)), np.array(getattr(ref, nm)), '%s with indexing %s against %s' %
                      (nm, v, variants[0]), 1e-9, tol * k_ * x * m * n)
            # sums over everything that belongs to the same energy and charge
            for (q, e, p), (q2, e2, p2) in zip(levels(s), levels(ref)):
                require(q == q2 and abs(e - e2) < 1e-7, 'levels with indexing %s', v)
                close(p, p2, 'probability of charge %d, energy %.6g with indexing %s against %s' % (q, e, v, variants[0]),
                      0, tol * m * n)
            if v not in ('ssq',) and K != 'Pauli':
                close(fock_rho(s), fock_rho(ref), 'density matrix with indexing %s against %s' % (v, variants[0]), 0, tol * m * n)
        return True


def plain(kw):
    """The same system without the spin symmetry option."""
    no, nlo = kw['nsingle'] // 2, kw['nleads'] // 2
    k = {a: b for a, b in kw.items() if a not in ('symmetry', 'indexing')}
    k['hsingle'] = p_dot.spin_h(p_dot.as_dict(kw['hsingle'], 'hsingle'), no)
    u = {}
    for key, v in p_dot.spin_u(p_dot.as_dict(kw['coulomb'], 'coulomb'), no):
        u[key] = u.get(key, 0) + v
    k['coulomb'] = u
    k['tleads'] = p_dot.spin_t(p_dot.as_dict(kw['tleads'], 'tleads'), nlo, no)
    for x in ('mulst', 'tlst'):
        k[x] = {l: kw[x][l % nlo] for l in range(2 * nlo)}
    if 'velph' in kw:
        k['velph'] = p_dot.spin_v(p_dot.as_dict(kw['velph'], 'velph'), no)
    return k


def multiplets_only(s):
    """All degeneracies are those of the spin: checked by the energies per projection of the spin."""
    E, si = np.array(s.qd.Ea), s.si
    n = si.nsingle // 2
    # Energies of the highest weight of every multiplet are those of projection S not found at S+1
    import qmeq
    P, _ = p_dot.vectors(s)
    for q in range(si.ncharge):
        l = list(si.chargelst[q])
        e = np.sort(E[l])
        occ = np.array([si.get_state(i) for i in l])
        sz = occ[:, :n].sum(1) - occ[:, n:].sum(1)
        H = P[np.ix_(l, l)] @ np.diag(E[l]) @ P[np.ix_(l, l)].conj().T
        for z in sorted(set(sz)):
            k = np.nonzero(sz == z)[0]
            ev = np.sort(np.linalg.eigvalsh(H[np.ix_(k, k)]))
            if len(ev) > 1 and np.diff(ev).min() < 1e-5:
                return False
    return True


def levels(s):
    E, si = np.array(s.qd.Ea), s.si
    out = []
    for q in range(si.ncharge):
        l = sorted(si.chargelst[q], key=lambda b: E[b])
        cur = None
        for b in l:
            p = s.appr.phi0[si.get_ind_dm0(b, b, q)]
            if cur is not None and abs(E[b] - cur[1]) < 1e-7:
                cur[2] += p
            else:
                cur = [q, E[b], float(np.real(p))]
                out.append(cur)
    return [tuple(x) for x in out]


# ---------------------------------------------------------------------------------------------- C20
class C20:
    FUNCS = ['builder/builder_base.py: BuilderManyBody', 'builder/builder_elph.py: BuilderManyBodyElPh',
             'indexing.py: set_statesdm, set_dictdm, set_mapdm, get_ind_dm0, get_ind_dm1', 'every approach']
    BOUND = 'orbital systems of up to 4 orbitals (second-order approaches: 2) in their many-body form'

    @staticmethod
    def total(tier):
        return 3000 if tier == 'quick' else 20000

    @staticmethod
    def make(g, i, tier):
        if i < 2:
            return {'fixed phases': ['2vN', 'py2vN'][i]}
        kts = gen.KTALL + ['RTD', 'pyRTD', '2vN', 'py2vN']
        kt = kts[i % 12]
        if i % 12 >= 8:
            if 'RTD' not in kt and g.p(0.6):
                kt = g.ch(gen.KT)
                c = hist.make(g, kts=[kt], spin_p=0., indexings=('Lin', 'charge'))
            else:
                c = special(g, kt, real=True)
                c['ops'] = [o for o in c['ops'] if o[0] != 'fock']
        else:
            c = hist.make(g, kts=[kt], spin_p=0., herm_v=g.p(0.8), indexings=('Lin', 'charge'))
        if 'nbaths' in c['kw']:
            c['kw']['itype_ph'] = 0
        c['perm'] = int(g.i(0, 10 ** 6))
        c['shift'] = g.i(0, 3)
        c['sort'] = g.p(0.3)
        c['pre'] = g.p(0.3)
        c['mops'] = [o for o in c['ops'] if o[0] != 'fock']
        c['ops'] = [o for o in c['ops'] if o[0] == 'fock']
        c['opt'] = g.ch([{}, {}, dict(symq=False, solmethod='lsqr'), dict(solmethod='lsqr')]) if i % 12 < 8 else {}
        if 'nbaths' in c['kw'] and g.p(0.4):
            c['opt'] = dict(c['opt'], eps_elph=g.ch([1e-3, 0.05, 0.3]))
        c['switch'] = g.ch(gen.KTALL) if i % 12 < 8 and g.p(0.3) else None
        # phases of the states; only signs where a known finding (2vN) or the switch of the RTD corrections is in the way
        c['phases'] = (1 if 'RTD' in c['kw']['kerntype'] or c.get('niter', 0) > 1 else 2) if g.p(0.6) else 0
        return c

    kinds = staticmethod(lambda c: ['phases, ' + c['fixed phases']] if 'fixed phases' in c else [c['kw']['kerntype'] + ('+ph' if 'nbaths' in c['kw'] else '')] +
                         ['removal ' + o[0] for o in c['mops']] + (['switch'] if c['switch'] else []))

    @staticmethod
    def run(c):
        if 'fixed phases' in c:
            return fixed_phases(c['fixed phases'])
        o = system(c)
        with quiet():
            o.solve(masterq=False)
        m = many_body(c, o)
        r = m.perm
        if c['switch']:
            with quiet():
                if c['pre']:
                    o.solve()
                    m.solve(qdq=False, rotateq=False)
                o.kerntype = m.kerntype = c['switch']
        hist.apply(o, c['mops'])
        if c['mops'] and c['pre']:
            with quiet():
                m.solve(qdq=False, rotateq=False, **({'niter': 1} if 'niter' in c else {}))
        hist.apply(m, c['mops'], many=True)
        rows = sorted(set(i for i, _, _ in core.pop_rows(o)))
        if not rows:
            raise Skip('no states')
        require(core.gen_size(o) == core.gen_size(m), 'number of equations %d against %d', core.gen_size(m), core.gen_size(o))
        for s in (o, m):
            s.norm_row = min(i for i, _, _ in core.pop_rows(s))
        if 'niter' in c:
            run_solve(o, c)
            run_solve(m, c, qdq=False, rotateq=False)
            cond = cond2(o)
            pn = 0
        else:
            K = core.generator(o)
            cond = normal_cond(o, c, K)
            pn = core.ph_noise(o, 10.)
            run_solve(o, c)
            run_solve(m, c, qdq=False, rotateq=False)
        tol = 1e-10 + 1e-12 * cond + pn * cond
        if cond > 1e8 or tol > 1e-3:
            return True
        n = len(r)
        k, E = scale_of(o)
        require(bool(m.success) == bool(o.success), 'success is %r against %r', m.success, o.success)
        mx = max(1., np.abs(np.array(o.phi0)).max())
        if c['sort']:
            m.sort_eigenstates([1, 0])
        Ro, Rm = core.full_rho(o), core.full_rho(m)
        U = m.phases
        close(Rm, U[:, None] * Ro[np.ix_(r, r)] * U.conj()[None, :], 'density matrix of the many-body system', 0, tol * mx * n)
        rtd = 'RTD' in o.kerntype
        for nm, x in zip(NAMES, (1., 8 * E, 10 * E)):
            a, b = np.array(getattr(m, nm)), np.array(getattr(o, nm))
            if rtd and np.all(np.isnan(b)):
                continue
            close(a, b, nm + ' of the many-body system', 1e-9, tol * k * x * mx * n)
        return True


def many_body(c, o):
    import qmeq
    si = o.si
    q = np.zeros(si.nmany, dtype=int)
    for x, l in enumerate(si.chargelst):
        q[list(l)] = x
    r = np.random.default_rng(c['perm']).permutation(si.nmany)
    g = np.random.default_rng(c['perm'] + 1)
    U = np.exp(1j * (np.zeros(si.nmany), np.pi * g.integers(0, 2, si.nmany), g.uniform(0, 6.3, si.nmany))[c['phases']])
    if c['phases'] == 1:
        U = U.real.round() + 0j
    turn = lambda X: U[None, :, None] * np.array(X)[:, r][:, :, r] * U.conj()[None, None, :]
    a = dict(Ea=np.array(o.qd.Ea)[r], Na=q[r] + c['shift'], Tba=turn(o.leads.Tba),
             mulst=np.array(o.leads.mulst), tlst=np.array(o.leads.tlst), dband=np.array(o.leads.dlst),
             kerntype=c['kw']['kerntype'], itype=c['kw']['itype'], kpnt=c['kw'].get('kpnt'), **c['opt'])
    name = 'BuilderManyBody'
    if 'nbaths' in c['kw']:
        name = 'BuilderManyBodyElPh'
        a.update(Vbbp=turn(o.baths.Vbbp), tlst_ph=np.array(o.baths.tlst_ph),
                 dband_ph=np.array(o.baths.dlst_ph))
        if c['kw'].get('bath_func'):
            a['bath_func'] = core.bath_funcs(c['kw']['bath_func'], c['kw']['nbaths'])
    for k, v in c['opt'].items():
        setattr(o, k, v)
    keep = copy.deepcopy({k: v for k, v in a.items() if k != 'bath_func'})
    with quiet():
        m = getattr(qmeq, name)(**a)
    if 'offdiag' in c:
        m.off_diag_corrections = c['offdiag']
        m.leads.tleads_array = np.array(o.leads.tleads_array)
        m.si.nsingle = o.si.nsingle
    for k, v in keep.items():
        require(p_dot.same_container(a[k], v), 'input %s of the builder was modified', k)
    m.perm, m.phases = r, U
    return m


def fixed_phases(kt):
    """The known finding of C20: one input, where the iterations of 2vN depend on the phases of the states."""
    import qmeq
    r = np.sqrt(.5)
    T0 = np.array([[.3, .25], [.2, -.35]])                       # orbital, lead
    C = np.array([[r, -r], [r, r]])                              # columns: eigenstates of the orbital Hamiltonian
    Tba = np.zeros((2, 4, 4), dtype=complex)
    for l in range(2):
        t = C.T @ T0[:, l]
        Tba[l, 1, 0], Tba[l, 2, 0], Tba[l, 3, 2], Tba[l, 3, 1] = t[0], t[1], t[0], -t[1]
        Tba[l] += Tba[l].conj().T
    I = []
    for ph in ([0, 0, 0, 0], [0, 1.5, .4, .3]):
        U = np.exp(1j * np.array(ph))
        with quiet():
            m = qmeq.BuilderManyBody(Ea=np.array([0., -.1, .2, 2.1]), Na=[0, 1, 1, 2], Tba=U[None, :, None] * Tba * U.conj()[None, None, :],
                                     mulst={0: .5, 1: -.5}, tlst={0: .5, 1: .5}, dband={0: 8., 1: 8.}, kerntype=kt, kpnt=2**6)
            m.solve(qdq=False, rotateq=False, niter=3)
        I.append(np.array(m.current))
    close(I[1], I[0], 'fixed input of the known finding: current of %s after 3 iterations with the phases of the states changed' % kt,
          0, 1e-9 * max(1., np.abs(I[0]).max()))
    return True
