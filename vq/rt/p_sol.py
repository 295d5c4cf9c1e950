"""C14 reported solutions, C18 accessors."""
import numpy as np
from . import core, gen, hist
from .core import require, close, quiet, Skip


def dense_options(g, n):
    r = g.p(0.7)
    if r:
        return dict(symq=True, solmethod=g.ch(['solve', 'lsqr', None]), row=g.u(0, 1))
    return dict(symq=False, solmethod=g.ch(['lsqr', None]), row=0.)


class C14:
    FUNCS = ['approach/aprclass.py, c_aprclass.pyx: solve_kern, generate_norm_vec, prepare_solver, clean_arrays',
             'wrappers/c_lapack.pyx: LapackSolverDGESV, LapackSolverDGELSD']
    BOUND = 'random systems up to 4 orbitals; all population equations, dense solvers, sequences of success and failure'

    @staticmethod
    def total(tier):
        return 2500 if tier == 'quick' else 30000

    @staticmethod
    def make(g, i, tier):
        c = hist.make(g, kts=[gen.KTALL[i % 8]])
        c['opt'] = dense_options(g, 0)
        c['opt2'] = dense_options(g, 0)
        c['how'] = g.ch(['kw', 'attr'])
        c['fail'] = g.ch([None, 'singular', 'singular', 'patch', 'method'])
        c['copy'] = g.p(0.2)
        return c

    kinds = staticmethod(lambda c: [c['kw']['kerntype'], 'symq %s %s' % (c['opt']['symq'], c['opt']['solmethod']),
                                    'failure ' + str(c['fail'])])

    @staticmethod
    def run(c):
        kw = c['kw']
        s0 = hist.system(c)
        K = core.generator(s0)
        n = core.gen_size(s0)
        if not n:
            raise Skip('no states')
        w = core.sym_weights(s0, lambda b, q: 1.)
        rows = sorted(set(i for i, _, _ in core.pop_rows(s0)))

        def row(o):
            return rows[min(len(rows) - 1, int(o['row'] * len(rows)))]
        o = c['opt']
        if c['how'] == 'kw':
            k = dict(kw, symq=o['symq'], solmethod=o['solmethod'], norm_row=row(o))
            s = hist.system(dict(c, kw=k))
        else:
            s = hist.system(c)
            setopt(s, o, row(o))
        core.solve(s)
        check(s, K, w, 'first solution')
        setopt(s, c['opt2'], row(c['opt2']))
        core.solve(s)
        check(s, K, w, 'solution with other options')
        if c['fail']:
            failing(c, s, K, w, n, len(rows))
        return True


def setopt(s, o, row):
    s.symq = o['symq']
    s.solmethod = o['solmethod']
    s.norm_row = row


def well(K, w, row):
    """Is the normalised system regular / does it have a solution at all."""
    A = K.copy()
    A[row] = w
    b = np.zeros(len(w))
    b[row] = 1
    x = np.linalg.lstsq(A, b, rcond=1e-13)[0]
    return np.linalg.cond(A) < 1e10, np.abs(A @ x - b).max() < 1e-8


def check(s, K, w, what):
    phi = np.array(s.phi0)
    regular, solvable = well(K, w, s.norm_row if s.symq else int(np.nonzero(w)[0][0]))
    if not s.success:
        require(not regular, '%s is reported as failed although the system is regular', what)
        zero(s, what)
        return
    if not solvable:
        return
    require(np.all(np.isfinite(phi)), '%s: density matrix is not finite', what)
    m = max(1., np.abs(phi).max())
    close(w @ phi, 1., what + ': trace of the density matrix', 0, 1e-7 * m)
    sc = max(np.abs(K).max(), 1e-12) * m * len(phi)
    close(K @ phi, 0 * phi, what + ': the generator does not annihilate the density matrix', 0,
          1e-8 * sc + core.ph_noise(s, m * len(phi)))


def zero(s, what):
    require(not np.any(np.array(s.phi0)), '%s failed, but the density matrix is not zero', what)
    for nm in ('current', 'energy_current', 'heat_current'):
        require(not np.any(np.array(getattr(s, nm))), '%s failed, but %s is %r', what, nm, getattr(s, nm))


def failing(c, s, K, w, n, npop):
    kw = c['kw']
    ok = bool(s.success)
    before = np.array(s.phi0)
    if c['fail'] == 'method':
        # a matrix-free solver that cannot run
        s.mfreeq = True
        s.solmethod = 'no such solver'
        with quiet():
            s.solve()
        require(not s.success, 'failure of the matrix-free solver is not reported')
        zero(s, 'the matrix-free solution')
        s.mfreeq = False
        s.solmethod = 'lsqr'
        core.solve(s)
        check(s, K, w, 'solution after a failure')
        return
    if c['fail'] == 'patch':
        if not core.is_py(kw['kerntype']):
            return

        def bad(*a, **k):
            raise np.linalg.LinAlgError('injected')
        a, b = np.linalg.solve, np.linalg.lstsq
        try:
            np.linalg.solve = np.linalg.lstsq = bad
            with quiet():
                s.solve(qdq=False)
        finally:
            np.linalg.solve, np.linalg.lstsq = a, b
        if s.success:
            return
        zero(s, 'the solution with a failing solver')
        core.solve(s)
        check(s, K, w, 'solution after a failure')
        return
    if npop < 2 or 'nbaths' in kw:
        return
    s.symq = True
    s.solmethod = 'solve'
    s.norm_row = 0
    sp = 2 if kw.get('symmetry') == 'spin' else 1
    old = {k: v for k, v in dict(s.leads.tleads).items() if k[0] < s.si.nleads // sp and k[1] < s.si.nsingle // sp}
    t = {k: 0. for k in old}
    with quiet():
        s.change(tleads=t)
        s.solve()
    require(not s.success, 'an exactly singular system is reported as solved')
    zero(s, 'the solution of a singular system')
    with quiet():
        s.change(tleads=old)
    s.solmethod = 'lsqr'
    core.solve(s)
    check(s, K, w, 'solution after a failure')


def charges(s, order):
    q = {}
    for c, lst in enumerate(s.si.chargelst):
        for b in lst:
            q[b] = c
    return np.array([q[b] for b in order])[:s.si.nmany]


class C18:
    FUNCS = ['builder/various.py: get_phi0, get_phi1, sort_eigenstates, multiarray_sort, get_charge, construct_Ea_extended',
             'builder/builder_base.py: BuilderBase.get_phi0, get_phi1']
    BOUND = 'random systems up to 4 orbitals, all approaches (second-order von Neumann with few grid points)'

    @staticmethod
    def total(tier):
        return 4000 if tier == 'quick' else 30000

    @staticmethod
    def make(g, i, tier):
        kts = gen.KTALL + ['pyRTD', 'RTD', '2vN', 'py2vN']
        kt = kts[i % len(kts)] if not (i % len(kts) == 11 and g.p(0.5)) else '1vN'
        if kt in ('RTD', 'pyRTD', '2vN', 'py2vN'):
            c = gen.system(g, kt=kt, elph=False, indexings=['charge'] if 'RTD' in kt else ['charge', 'Lin'], itypes=[1] if
                           'RTD' in kt else [0], nmax=2, lmax=2, general=False, wide=True)
            c['ops'] = hist.rand_removals(g, c['kw']) if 'RTD' in kt else []
            if '2vN' in kt:
                c['kw']['kpnt'] = g.ch([32, 64]) if kt == '2vN' else 16
                c['kw']['dband'] = g.u(8., 12.)
                c['niter'] = g.i(1, 3)
        else:
            c = hist.make(g, kts=[kt], deep=0.05)
            if 'nbaths' not in c['kw'] and c['kw'].get('symmetry') is None and g.p(0.25):
                c['many'] = True
        c['srt'] = [g.perm([0, 1])[:g.i(1, 2)] for _ in range(2)]
        c['perm'] = int(g.i(0, 10 ** 6))
        return c

    kinds = staticmethod(lambda c: [c['kw']['kerntype'] + (' many-body' if c.get('many') else '')])

    @staticmethod
    def run(c):
        if c.get('many'):
            s = many_body(c)
        else:
            s = hist.system(c)
        with quiet():
            s.solve(**({'niter': c['niter']} if 'niter' in c else
                       {'qdq': False, 'rotateq': False} if c.get('many') else {}))
        if not s.success and 'niter' not in c:
            raise Skip('no solution')
        phi = np.array(s.phi0)
        if not np.all(np.isfinite(phi)) or np.abs(phi).max() > 1e3:
            raise Skip('no unique solution')
        read(s, c)
        M = matrix(s)
        for srt in c['srt']:
            s.sort_eigenstates(srt)
            order = [int(x) for x in s.si.states_order]
            require(sorted(order) == list(range(s.si.nmany)), 'order of the states %r', order)
            close(matrix(s), M[np.ix_(order, order)], 'density matrix after sorting', 1e-12, 1e-13)
            if srt[0] == 0:
                E = np.array(s.qd.Ea)[order]
                require(np.all(np.diff(E) >= -1e-12), 'states sorted by energy have energies %r', E)
            if srt[0] == 1:
                q = charges(s, order)
                require(np.all(np.diff(q) >= 0), 'states sorted by charge have charges %r', q)
            read(s, c, ' after sorting')
        s.sort_eigenstates()
        close(matrix(s), M, 'density matrix after restoring the order', 1e-12, 1e-13)
        return True


def many_body(c):
    import qmeq
    o = hist.system(dict(c, ops=[]))
    core.solve(o)
    r = np.random.default_rng(c['perm'])
    N = charges(o, range(o.si.nmany))
    p = r.permutation(len(N))
    with quiet():
        s = qmeq.BuilderManyBody(Ea=np.array(o.qd.Ea)[p], Na=N[p] + int(r.integers(0, 3)),
                                 Tba=np.array(o.leads.Tba)[:, p][:, :, p], mulst=np.array(o.leads.mulst),
                                 tlst=np.array(o.leads.tlst), dband=np.array(o.leads.dlst),
                                 kerntype=c['kw']['kerntype'], itype=c['kw']['itype'])
    return hist.apply(s, [op for op in c['ops'] if op[0] != 'fock'], many=True)


def matrix(s):
    n = s.si.nmany
    return np.array([[complex(s.get_phi0(i, j)) for j in range(n)] for i in range(n)]).reshape(n, n)


def read(s, c, where=''):
    si = s.si
    n = si.nmany
    order = [int(x) for x in si.states_order][:n]
    M = matrix(s)
    q = charges(s, order)
    kept = set(b for st in si.statesdm for b in st)
    pos = np.array([b in kept for b in order])
    m = max(1., np.abs(M).max())
    close(np.trace(M), 1., 'trace of the density matrix' + where, 0, 1e-7 * m)
    close(M, M.conj().T, 'Hermiticity of the density matrix' + where, 0, (1e-6 if 'niter' in c else 1e-11) * m)
    require(not np.any(M[q[:, None] != q[None, :]]), 'density matrix elements between different charges' + where)
    require(not np.any(M[~pos]) and not np.any(M[:, ~pos]), 'density matrix elements of states that are left out' + where)
    kt = core.base(s.kerntype)
    if kt in ('Pauli', 'RTD'):
        require(not np.any(M - np.diag(np.diag(M))), 'coherences in a rate equation' + where)
    elif si.indexing != 'ssq':
        for i in range(n):
            for j in range(n):
                if q[i] == q[j] and pos[i] and pos[j] and si.get_ind_dm0(order[i], order[j], q[i]) == -1:
                    require(M[i, j] == 0, 'element (%d,%d) is left out, but reads %r%s', i, j, M[i, j], where)
    if kt not in ('1vN', 'Redfield', '2vN'):
        for l in range(min(1, si.nleads)):
            require(s.get_phi1(l, 0, 0) is None, 'amplitude in an approach that has none')
        return
    T = np.array(s.leads.Tba)
    for l in range(si.nleads):
        P = np.array([[complex(s.get_phi1(l, i, j)) for j in range(n)] for i in range(n)]).reshape(n, n)
        mp = max(1e-6, np.abs(P).max())
        close(P, P.conj().T, 'amplitudes of lead %d under exchange of the states%s' % (l, where), 0, 1e-11 * mp)
        bad = np.abs(q[:, None] - q[None, :]) != 1
        require(not np.any(P[bad]), 'amplitudes between charges that are no neighbours' + where)
        require(not np.any(P[~pos]) and not np.any(P[:, ~pos]), 'amplitudes of states that are left out' + where)
        To = T[l][np.ix_(order, order)]
        up = q[:, None] == q[None, :] + 1            # (c, b)
        cur = -2 * np.sum(np.where(up, To.T * P, 0)).imag
        close(cur, np.array(s.current)[l], 'particle current of lead %d from the amplitudes%s' % (l, where), 1e-9, 1e-12,
              scale=max(np.abs(To).max() * mp * n, 1e-9))
