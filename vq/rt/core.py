"""Case encoding, construction of systems from case descriptions, and small helpers.

Runs under the project interpreter with the scratch copy of qmeq on sys.path.
"""
import contextlib, copy, io, json, os, sys, warnings
import numpy as np

warnings.filterwarnings('ignore')


# ----------------------------------------------------------------------------- encoding
def enc(x):
    if isinstance(x, dict):
        if all(isinstance(k, str) for k in x):
            return {k: enc(v) for k, v in x.items()}
        return {'__d': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, np.ndarray):
        return {'__a': enc(x.tolist()), 't': x.dtype.kind}
    if isinstance(x, tuple):
        return {'__t': [enc(v) for v in x]}
    if isinstance(x, list):
        return [enc(v) for v in x]
    if isinstance(x, (complex, np.complexfloating)):
        return {'__c': [float(x.real), float(x.imag)]}
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    return x


def dec(x):
    if isinstance(x, dict):
        if '__d' in x:
            return {dec(k): dec(v) for k, v in x['__d']}
        if '__a' in x:
            return np.array(dec(x['__a']), dtype={'f': float, 'c': complex, 'i': int, 'b': bool}[x['t']])
        if '__t' in x:
            return tuple(dec(v) for v in x['__t'])
        if '__c' in x:
            return complex(*x['__c'])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


# ----------------------------------------------------------------------------- contracts
class Contract(Exception):
    """A runtime contract of the real code does not hold."""


class Skip(Exception):
    """The case is outside the domain of the contract."""


def require(cond, msg, *args):
    if not cond:
        raise Contract(msg % args if args else msg)


def close(a, b, what, rtol=1e-9, atol=1e-11, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Contract('%s: shapes %s and %s differ' % (what, a.shape, b.shape))
    if a.size == 0:
        return
    na, nb = ~np.isfinite(a), ~np.isfinite(b)
    if na.any() or nb.any():
        raise Contract('%s: not finite' % what)
    s = scale if scale is not None else max(float(np.max(np.abs(a))), float(np.max(np.abs(b))))
    d = np.abs(a - b)
    if float(d.max()) > atol + rtol * s:
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        raise Contract('%s: differ by %.3e at %s (%r against %r, scale %.3e)'
                       % (what, d.max(), i, a[i], b[i], s))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# ----------------------------------------------------------------------------- systems
def bath_funcs(name, nbaths):
    """Densities of states of the phonon baths; this form serves the compiled and the Python approaches."""
    if name is None:
        return None
    import qmeq.specfunc.c_specfunc_elph as se
    pow_ = {'ohmic': 1, 'cubic': 3, 'square': 2}[name]

    class F(se.Func):
        weight = 1.

        def eval(self, x):
            # a spectral density is a function of positive frequencies: nothing may depend on the other values
            return self.weight * x ** pow_ * np.exp(-x / 4.) if x > 0 else 0.7 + 0.2 * x * x

        def __deepcopy__(self, memo):
            return self
    fs = [F() for _ in range(nbaths)]
    for k, f in enumerate(fs):
        f.weight = 1. + 0.6 * k
    return fs


TYPES = {'float': float, 'complex': complex}


def build(spec, copyq=True):
    """Build the system of a specification {'builder': name, 'kw': {...}}."""
    import qmeq
    kw = dict(spec['kw'])
    for k in ('mtype_qd', 'mtype_leads'):
        if isinstance(kw.get(k), str):
            kw[k] = TYPES[kw[k]]
    if isinstance(kw.get('bath_func'), str):
        kw['bath_func'] = bath_funcs(kw['bath_func'], kw['nbaths'] if 'nbaths' in kw else kw['Vbbp'].shape[0])
    if copyq:
        kw = {k: (v if k == 'bath_func' else copy.deepcopy(v)) for k, v in kw.items()}
    return getattr(qmeq, spec['builder'])(**kw)


def compiled_missing():
    """The compiled modules have to be the ones of this tree."""
    import qmeq.approach.base.c_pauli, qmeq.approach.base.c_lindblad, qmeq.approach.base.c_redfield
    import qmeq.approach.base.c_neumann1, qmeq.approach.base.c_neumann2, qmeq.approach.base.c_RTD
    import qmeq.approach.elph.c_pauli, qmeq.approach.elph.c_lindblad, qmeq.approach.elph.c_redfield
    import qmeq.approach.elph.c_neumann1


FIRST = ['Pauli', 'Lindblad', 'Redfield', '1vN']


def is_py(kt):
    return kt.startswith('py')


def base(kt):
    return kt[2:] if kt.startswith('py') else kt


def solve(s, **k):
    with quiet():
        s.solve(**k)
    return s


def arr(x):
    return None if x is None else np.array(x)


def generator(s):
    """The unnormalised generator of the current state of the system, from the real code."""
    a = s.appr
    with quiet():
        s.solve(masterq=False)
        if a.mfreeq:
            raise ValueError('generator() needs mfreeq=False')
        a.prepare_kern()
        a.generate_fct()
        a.generate_kern()
    return np.array(a.kern)


def natural(s):
    """The golden-rule rate of the strongest coupling: the scale of rounding errors of cancelling terms."""
    T = np.abs(np.array(s.leads.Tba))
    return max(2 * np.pi * float(T.max()) ** 2 if T.size else 0., 1e-12)


def gen_size(s):
    if base(s.kerntype) == 'RTD':
        return int(s.si.npauli)
    return s.appr.get_kern_size()


def lead_currents(s, v):
    """Currents of the real code for the density matrix vector v (generator() has been called)."""
    a = s.appr
    ph = a.phi0
    ph[:] = v
    a.kernel_handler.set_phi0(ph)
    cur, en, heat = a.current, a.energy_current, a.heat_current
    cur[:] = 0
    en[:] = 0
    heat[:] = 0
    if a.phi1 is not None and base(s.kerntype) in ('1vN', 'Redfield'):
        a.phi1[:] = 0
    a.generate_current()
    return np.array(a.current), np.array(a.energy_current), np.array(a.heat_current)


def pop_rows(s):
    """[(index, state, charge)] of the populations of all retained states."""
    si = s.si
    out = []
    for q in range(si.ncharge):
        for b in si.statesdm[q]:
            out.append((int(si.get_ind_dm0(b, b, q)), b, q))
    return out


def sym_weights(s, f):
    """Vector w with w.phi0 = sum over retained states of f(state, charge)*population."""
    w = np.zeros(gen_size(s))
    for i, b, q in pop_rows(s):
        w[i] += f(b, q)
    return w


def pack(s, rho):
    """Real vector of the code's representation of a Hermitian matrix rho (blocks by charge)."""
    si = s.si
    n = gen_size(s)
    v = np.zeros(n)
    if base(s.kerntype) in ('Pauli', 'RTD'):
        for i, b, q in pop_rows(s):
            v[i] = rho[b, b].real
        return v
    nd, npa = si.ndm0, si.npauli
    for q in range(si.ncharge):
        st = si.statesdm[q]
        for b in st:
            for bp in st:
                i = si.get_ind_dm0(b, bp, q)
                if i == -1 or not si.get_ind_dm0(b, bp, q, maptype=2):
                    continue
                v[i] = rho[b, bp].real
                j = nd + i - npa
                if j >= nd:
                    v[j] = rho[b, bp].imag if si.get_ind_dm0(b, bp, q, maptype=3) else -rho[b, bp].imag
    return v


def full_rho(s):
    """Density matrix read with the public accessor, in the original order of the states."""
    si = s.si
    n = si.nmany
    rho = np.zeros((n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            rho[si.states_order[i], si.states_order[j]] = s.get_phi0(i, j)
    return rho


def ph_noise(s, mult=1.):
    """Rounding level of the phonon terms: contributions of order |V|^2/eps_elph that cancel."""
    if not hasattr(s, 'baths'):
        return 0.
    V = np.abs(np.array(s.baths.Vbbp))
    v2 = float(V.max()) ** 2 if V.size else 0.
    return mult * 3e-15 * 2 * np.pi / float(s.funcp.eps_elph) * v2 * max(1, s.si.nmany) * max(1, V.shape[0]) * 3.
