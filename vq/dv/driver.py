"""The solution driver (Approach.prepare_kern, clean_arrays, prepare_arrays, the option setters, solve_kern, generate_vec,
solve_matrix_free, solve), real bodies, compiled and pure Python.  Arrays are abstract: identity, shape, and content (zero,
unknown, a solution, ...).  Histories are decided by induction: every prepared state is the result of the real prepare_kern
under arbitrary options, then used (contents unknown), then changed by an arbitrary option setter, new parameters or new
states; after the next prepare_kern every array is as in a new object."""
import ast, itertools
import z3
from .zx import Z, ZObj, Fn, Raised, allpaths, prove, num
from .src import OutOfReach
from .par import pmap
from .master import guarded, Variant, KINDS, bool_ob

I = z3.Int
_n = itertools.count()


class Vec(object):
    """A value of an array or of a row of a matrix."""
    def __init__(self, kind, *data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return '%s%s' % (self.kind, list(self.data))

    def zget(self, z, idx, node):
        if len(idx) == 1 and isinstance(idx[0], slice) and idx[0].start in (None, 0) and idx[0].stop is None and idx[0].step in (None, 1):
            return self
        raise OutOfReach('element of a vector')


ZERO = Vec('zero')


class Arr(object):
    zellipsis = True

    def __init__(self, shape, content, order='C', src=None):
        self.shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        self.content, self.order, self.src = content, order, src
        self.over = []              # overlays (index, value), latest last
        self.id = next(_n)

    def __repr__(self):
        return 'Arr%d%s=%s%s' % (self.id, self.shape, self.content, self.over)

    def set(self, v):
        self.content, self.over = v, []

    def dirty(self):
        self.set(Vec('unknown', next(_n)))

    def value(self):
        return self.content if not self.over else Vec('with', self.content, tuple(self.over))

    def zattr(self, z, n, node):
        if n == 'shape':
            return self.shape
        if n == 'fill':
            def f(z, a, k):
                if not isinstance(a[0], (int, float)) or a[0] != 0:
                    raise OutOfReach('fill with something else than zero')
                self.set(ZERO)
            return Fn(f)
        if n == 'copy':
            return Fn(lambda z, a, k: copy_of(self))
        raise OutOfReach('attribute %s of an array' % n)

    def full(self, i):
        return isinstance(i, slice) and (i.start is None or i.start is not True and isinstance(i.start, int) and i.start == 0) and i.stop is None and i.step in (None, 1)

    def norm(self, z, i):
        """Index of the first axis, -1 meaning the last."""
        if isinstance(i, int):
            return z3.simplify(num(self.shape[0]) + i) if i < 0 else z3.IntVal(i)
        return i

    def same(self, z, a, b):
        s = z3.Solver()
        s.add(*z.axioms, *z.pc, *z.extra, a != b)
        return s.check() == z3.unsat

    def zget(self, z, idx, node):
        if len(idx) == 2 and isinstance(idx[0], int) and idx[1] is Ellipsis:
            return Part(self, idx[0])
        if all(isinstance(i, slice) for i in idx):
            i = idx[0]
            if i.step not in (None, 1) or not all(self.full(j) for j in idx[1:]):
                raise OutOfReach('slice of an array')
            if (i.start in (None, 0)) and (i.stop is None or self.same(z, num(i.stop), num(self.shape[0]))):
                return self.value()
            if i.start in (None, 0):
                return Vec('first', self.value(), i.stop)
            raise OutOfReach('slice of an array')
        if (isinstance(idx[0], int) or z3.is_expr(idx[0])) and (all(self.full(i) for i in idx[1:]) or len(idx) == 1):
            i = self.norm(z, idx[0])
            for j, v in reversed(self.over):
                if self.same(z, i, j):
                    return v
            return Vec('row', self.content, str(i), tuple(str(j) for j, _ in self.over))
        raise OutOfReach('element of an array')

    def zset(self, z, idx, v, node):
        if isinstance(v, Arr):
            v = v.value()
        if all(self.full(i) for i in idx):
            if isinstance(v, (int, float)):
                self.set(ZERO if v == 0 else Vec('const', v))
            elif isinstance(v, Vec):
                self.set(v)
            else:
                raise OutOfReach('value of an array')
            return
        if (isinstance(idx[0], int) or z3.is_expr(idx[0])) and all(self.full(i) for i in idx[1:]):
            i = self.norm(z, idx[0])
            if isinstance(v, (int, float)):
                v = Vec('const', v)
            elif not isinstance(v, Vec):
                v = Vec('scalar', z3.simplify(num(v)))
            self.over = [(j, w) for j, w in self.over if not self.same(z, i, j)] + [(i, v)]
            return
        raise OutOfReach('assignment to a part of an array')


def copy_of(a):
    b = Arr(a.shape, a.content, a.order)
    b.over = list(a.over)
    return b


class Ptr(object):
    """A container of the user (tlst, Tba, ...): only its identity counts."""
    def __init__(self, name, shape=()):
        self.name, self.shape = name, shape

    def zattr(self, z, n, node):
        if n == 'shape':
            return self.shape
        raise OutOfReach('attribute %s of %s' % (n, self.name))

    def zget(self, z, idx, node):
        return Ptr('%s[...]' % self.name)


def np_zeros(z, a, k):
    return Arr(a[0], ZERO, k.get('order', 'C'))


def np_asarray(z, a, k):
    if isinstance(a[0], Ptr):
        return Arr(a[0].shape, Vec('of', a[0].name), src=a[0])
    if isinstance(a[0], Arr):
        return a[0]
    raise OutOfReach('asarray')


def np_array(z, a, k):
    if isinstance(a[0], Arr):
        return copy_of(a[0])
    if isinstance(a[0], Ptr):
        return Arr(a[0].shape, Vec('of', a[0].name), src=None)
    if isinstance(a[0], Vec):
        return Arr((I('size!%d' % next(_n)),), a[0])
    raise OutOfReach('array')


class World(object):
    """An approach object with its surroundings."""
    def __init__(self, z, V, opts):
        self.z, self.V = z, V
        (mod, cls), (hm, hc) = V.classes()
        self.mod, self.cls, self.hm = mod, cls, hm
        self.v = 0
        # the phonon indexing has no conjugates: its index counts come without reduction
        self.si = ZObj('si', None, self.si_attrs(), None)
        self.si_elph = ZObj('si_elph', None, dict(nbaths=I('nbaths'), ndm0=I('elph.ndm0'), nleads=I('nleads')))
        self.funcp = ZObj('funcp', None, dict(opts, itype=2, itype_ph=2, dqawc_limit=I('limit'), eps_elph=z3.Real('eps'),
                                              phi0_init=None, suppress_err=False, off_diag_corrections=z3.Bool('off_diag_corrections')))
        self.funcp.attrs['print_error'] = Fn(lambda z, a, k: None)
        self.funcp.attrs['print_warning'] = Fn(lambda z, a, k: None)
        self.fresh_params()
        bl = {'qd': self.qd, 'leads': self.leads, 'si': self.si, 'funcp': self.funcp, 'baths': self.baths, 'si_elph': self.si_elph}
        self.a = ZObj('appr', (mod, cls), {})
        self.builder = ZObj('builder', None, bl)
        z.inline(z.S.method(mod, cls, '__init__'), [self.a, self.builder], {}, None)

    def si_attrs(self):
        t = '' if not self.v else "'%d" % self.v
        d = {n: I(n + t) for n in ('ndm0r', 'ndm0', 'ndm1', 'npauli', 'ncharge', 'nmany')}
        d.update(nleads=I('nleads'), nbaths=I('nbaths'), states_changed=self.v > 0, version=self.v)
        return d

    def fresh_params(self):
        """The user replaces every parameter array."""
        k = next(_n)
        def P(n, *s):
            return Ptr('%s!%d' % (n, k), s)
        if not hasattr(self, 'qd'):
            self.qd, self.leads, self.baths = ZObj('qd', None, {}), ZObj('leads', None, {}), ZObj('baths', None, {})
        nm = I('nmany')
        self.qd.attrs.update(Ea=P('Ea', nm), vecslst=P('vecslst'))
        self.leads.attrs.update(tlst=P('tlst', I('nleads')), mulst=P('mulst', I('nleads')), dlst=P('dlst', I('nleads'), 2),
                                Tba=P('Tba', I('nleads'), nm, nm), mtype='complex', tleads_array=P('tleads_array', I('nleads'), I('nsingle')))
        self.baths.attrs.update(tlst_ph=P('tlst_ph'), dlst_ph=P('dlst_ph'), Vbbp=P('Vbbp', I('nbaths'), nm, nm), mtype='complex',
                                bath_func=P('bath_func'))

    def change_states(self):
        self.v += 1
        self.si.attrs.update(self.si_attrs())

    def call(self, name, *args):
        m = self.z.S.method(self.mod, self.cls, name)
        if m is None:
            raise OutOfReach('method %s' % name)
        return self.z.call_method(self.a, m, list(args), {}, None)

    def setopt(self, name, value):
        s = self.z.setter(self.a, name)
        if s is None:
            raise OutOfReach('setter of %s' % name)
        self.z.inline(s, [self.a, value], {}, None)

    def arrays(self):
        return {k: v for k, v in self.a.attrs.items() if isinstance(v, Arr) and v.src is None}

    def use(self):
        """A complete solution has been made: all work arrays are overwritten; solve_kern keeps norm_vec (its contract)."""
        nv = self.a.attrs.get('norm_vec')
        for a in self.arrays().values():
            if a is not nv:
                a.dirty()

    def size(self):
        return self.call('get_kern_size')


class Part(object):
    """A view of one part of an array, e.g. W[0, ...]."""
    def __init__(self, of, idx):
        self.of, self.idx = of, idx


class RTDVariant(object):
    """Second-order RTD approach: dense only."""
    elph, rtd = False, True

    def __init__(self, sources, compiled):
        self.S, self.compiled = sources, compiled
        self.kind = 'RTD' if compiled else 'PyRTD'
        self.rel = 'qmeq/approach/base/' + ('c_RTD.pyx' if compiled else 'RTD.py')
        self.name = 'RTD' if compiled else 'pyRTD'

    def classes(self):
        mod = self.S.module(self.rel)
        cls = mod.classes.get('Approach' + self.kind)
        if cls is None:
            raise OutOfReach('class Approach%s in %s' % (self.kind, self.rel))
        hm = self.S.module('qmeq/approach/' + ('c_kernel_handler.pyx' if self.compiled else 'kernel_handler.py'))
        return (mod, cls), (hm, hm.classes['KernelHandlerRTD'])


def handler_contract(V):
    def make(kind):
        def f(z, a, k):
            hm = V.classes()[1][0]
            o = ZObj(kind, (hm, hm.classes[kind]), {'si': a[0], 'version': a[0].attrs.get('version', 0), 'no_conjugates': True,
                                                   'kern': None, 'phi0': None, 'dphi0_dt': None,
                                                   'nodiag': bool(a[1]) if len(a) > 1 else False})
            for n in ('nleads', 'ndm0', 'ndm1', 'npauli'):
                if n in a[0].attrs:
                    o.attrs[n] = a[0].attrs[n]
            return o
        return f
    return {k: make(k) for k in ('KernelHandler', 'KernelHandlerMatrixFree', 'KernelHandlerRTD')}


def lapack(kind):
    def f(z, a, k):
        return ZObj('solver', None, {'kind': kind, 'a': a[0], 'b': a[1], 'copy': a[2] if len(a) > 2 else False,
                                     'info': None, 'solve': Fn(lambda z, x, y: None)})
    return f


def norm_vec(z, a, k):
    nv = a[0].attrs['norm_vec']
    if nv.content is not ZERO:
        raise OutOfReach('norm_vec is not zero before generate_norm_vec')
    nv.set(Vec('trace', a[0].attrs['si'].attrs['version']))


def make_LN(z, a, k):
    a[0].attrs['LN'] = ZObj('LN', None, {'version': a[0].attrs['si'].attrs['version']})


def zed(V):
    con = dict(handler_contract(V))
    con.update({'np.zeros': np_zeros, 'np.asarray': np_asarray, 'np.array': np_array, 'np.copy': np_array,
                'LapackSolverDGESV': lapack('gesv'), 'LapackSolverDGELSD': lapack('gelsd'),
                'Approach.generate_norm_vec': norm_vec, 'openmp.omp_get_max_threads': lambda z, a, k: I('threads'),
                'ApproachPyRTD.generate_LN': make_LN, 'ApproachRTD.generate_LN': make_LN})
    z = Z(V.S, contracts=con)
    return z


WORK = ('current', 'energy_current', 'heat_current')


def judge(w):
    """[(what, holds)] after prepare_kern."""
    z, a, o = w.z, w.a.attrs, w.funcp.attrs
    mf, sym = o['mfreeq'], o['symq']
    n = w.size()
    out = []
    rtd = getattr(w.V, 'rtd', False)
    ver = '' if not w.v else "'%d" % w.v

    def shape(name, want):
        x = a.get(name)
        if not isinstance(x, Arr) or len(x.shape) != len(want):
            out.append(('shape of %s' % name, False))
        else:
            out.append(('shape of %s' % name, z3.And(*[num(p) == num(q) for p, q in zip(x.shape, want)])))
    out.append(('marked as prepared', a.get('is_prepared') is True and w.si.attrs['states_changed'] is False))
    shape('phi0', (n,))
    for c in WORK:
        shape(c, (I('nleads'),))
    if mf:
        shape('dphi0_dt', (n,))
    else:
        rows = n if sym else n + 1
        shape('kern', (rows, n))
        shape('bvec', (rows,))
        shape('norm_vec', (n,))
        nv = a.get('norm_vec')
        out.append(('norm_vec is the trace over the present states',
                    isinstance(nv, Arr) and nv.content.kind == 'trace' and nv.content.data[0] == w.v and not nv.over))
    kh = a.get('kernel_handler')
    ok = isinstance(kh, ZObj) and kh.name == ('KernelHandlerRTD' if rtd else 'KernelHandlerMatrixFree' if mf else 'KernelHandler')
    out.append(('kernel handler of the kind of the solution method', ok))
    if ok:
        out.append(('kernel handler of the present states', kh.attrs['si'] is w.si and kh.attrs['version'] == w.v))
        if rtd:
            for k in ('Wdd', 'Wdd2', 'WE1', 'WE2', 'ReWnd', 'ImWnd', 'ReWdn', 'ImWdn', 'Lnn'):
                x, y = kh.attrs.get(k), a.get('_' + k if w.V.compiled else k)
                if x is None and y is None and k == 'Wdd2' and not w.V.compiled:
                    continue
                if x is None or y is None:
                    raise OutOfReach('array %s of the RTD approach' % k)
                same = x is y and isinstance(x, Arr) or isinstance(x, Part) and isinstance(y, Part) and x.of is y.of and x.idx == y.idx == 0 and \
                    x.of is a.get('Wdd2')
                out.append(('kernel handler and approach share %s' % k, same))
                if isinstance(x, Arr):
                    m, nl, c = 2*num(I('ndm0' + ver)) - 2*num(I('npauli' + ver)), I('nleads'), w.V.compiled
                    shp = {'Wdd': (nl, n, n), 'Wdd2': (x.shape[0], nl, n, n), 'WE1': (nl, n, n), 'WE2': (nl, n, n),
                           'ReWdn': (nl, n, m), 'ImWdn': (nl, n, m), 'ReWnd': (m, n) if c else (nl, m, n), 'ImWnd': (m, n) if c else (nl, m, n),
                           'Lnn': (m,) if c else (m, m)}[k]
                    out.append(('shape of %s' % k, len(x.shape) == len(shp) and z3.And(*[num(p) == num(q) for p, q in zip(x.shape, shp)])))
            ln = a.get('LN')
            if not isinstance(ln, ZObj) or ln.name != 'LN':
                raise OutOfReach('LN')
            out.append(('L_N is that of the present states', ln.attrs['version'] == w.v))
        out.append(('kernel handler acts on the arrays that are solved', rtd or kh.attrs['phi0'] is a['phi0'] and
                    (kh.attrs['dphi0_dt'] is a['dphi0_dt'] if mf else kh.attrs['kern'] is a['kern'])))
    if w.V.compiled:
        out.append(('typed reference to the kernel handler', a.get('_kernel_handler') is kh))
        for k, x in list(a.items()):
            if k.startswith('_') and isinstance(x, Arr) and isinstance(a.get(k[1:]), Arr):
                if mf and k in ('_kern', '_bvec', '_norm_vec') or not mf and k == '_dphi0_dt':
                    continue            # of the other kind of solution: not used
                out.append(('%s is %s' % (k, k[1:]), x is a[k[1:]]))
        if rtd:
            x = a.get('_tleads_array')
            out.append(('_tleads_array is a view of the present tleads_array', isinstance(x, Arr) and x.src is w.leads.attrs['tleads_array']))
        for k, owner in (('_tlst', w.leads), ('_mulst', w.leads), ('_dlst', w.leads), ('_Tba', w.leads), ('_Ea', w.qd),
                         ('_tlst_ph', w.baths), ('_dlst_ph', w.baths), ('_Vbbp', w.baths)):
            if owner is w.baths and not w.V.elph:
                continue
            x = a.get(k)
            out.append(('%s is a view of the present %s' % (k, k[1:]), isinstance(x, Arr) and x.src is owner.attrs[k[1:]]))
        out.append(('_mfreeq, _symq and _norm_row are the present options', a.get('_mfreeq') == mf and a.get('_symq') == sym and
                    (a.get('_norm_row') is o['norm_row'] or a.get('_norm_row') == o['norm_row'])))
        if not mf:
            s = a.get('_solver')
            good = isinstance(s, ZObj) and s.attrs['a'] is a['kern'] and s.attrs['b'] is a['bvec']
            out.append(('solver works on the arrays that are generated', good))
            out.append(('dense solver only for square matrices', isinstance(s, ZObj) and (s.attrs['kind'] == 'gelsd' or sym)))
            out.append(('matrix is stored by columns for LAPACK', a['kern'].order == 'F'))
    out.append(('solution method fits the kind of solution', o['solmethod'] not in ((None, 'solve', 'lsqr') if mf else (None, 'krylov', 'broyden1'))
                and (mf or sym or o['solmethod'] == 'lsqr')))
    zeroed = {}
    for k, x in w.arrays().items():
        k2 = k[1:] if k.startswith('_') else k
        if k2 in ('norm_vec', 'replaced_eq', 'dphi0_dt', 'rez_real', 'rez_complex') or mf and k2 in ('kern', 'bvec'):
            continue
        if k2 == 'phi0' and not w.V.compiled:
            continue            # assigned by solve_kern and solve_matrix_free
        zeroed[k2] = x.content is ZERO and not x.over
    return out, zeroed


def options():
    for mf in (False, True):
        for sym in (True, False):
            yield dict(mfreeq=mf, symq=sym)


CHANGES = [[]] + [[c] for c in (
    ('mfreeq', True), ('mfreeq', False), ('symq', True), ('symq', False), ('norm_row', 'new'), ('itype', 1),
    ('solmethod', 'solve'), ('solmethod', 'lsqr'), ('solmethod', 'krylov'), ('restart',))] + [
    [('mfreeq', True), ('mfreeq', False)], [('mfreeq', False), ('mfreeq', True)], [('symq', True), ('symq', False)],
    [('symq', False), ('symq', True)], [('solmethod', 'lsqr'), ('symq', True)], [('norm_row', 'new'), ('symq', False)],
    [('mfreeq', True), ('solmethod', 'lsqr'), ('mfreeq', False)]]


def histories(V):
    """prepare, use, change, prepare: the outcomes by statement."""
    z = zed(V)
    res, zer, n = {}, {}, 0

    def one(z, o, changes, states, sol):
        w = World(z, V, dict(o, norm_row=I('norm_row'), solmethod=sol))
        w.call('prepare_kern')
        first = judge(w)
        w.use()
        w.fresh_params()
        for c in changes:
            if c[0] == 'restart':
                w.call('restart')
            else:
                w.setopt(c[0], I('norm_row2') if c[1] == 'new' else c[1])
        if states:
            w.change_states()
        w.call('prepare_kern')
        return [first, judge(w)]
    rtd = getattr(V, 'rtd', False)
    for o in options():
        for changes in CHANGES:
            if rtd and (o['mfreeq'] or any(c[0] == 'mfreeq' or c[-1] == 'krylov' for c in changes)):
                continue
            for states in ((False, True) if len(changes) < 2 else (False,)):
                for sol in ((None, 'solve') + (() if rtd else ('krylov',)) if not changes else (None,)):
                    for pc, r, ev in z.explore(lambda z: one(z, o, changes, states, sol)):
                        n += 1
                        tag = '%s, then %s%s' % (o, changes, ', then other states' if states else '')
                        if isinstance(r, Raised):
                            res.setdefault('no exception', []).append((tag, False))
                            continue
                        for (stm, zr), when in zip(r, ('new object', tag)):
                            for what, c in stm:
                                if not isinstance(c, bool):
                                    s = z3.Solver()
                                    s.add(*z.axioms, *pc, z3.Not(c))
                                    c = s.check() == z3.unsat
                                res.setdefault(what, []).append((when, c))
                            for k, c in zr.items():
                                zer.setdefault(k, []).append((when, c))
    return res, zer, z, n


def accumulated(V):
    """Arrays to which generate_* add (their content before matters)."""
    if getattr(V, 'rtd', False):
        return {'kern', 'bvec', 'Wdd', 'Wdd2', 'WE1', 'WE2', 'ReWnd', 'ImWnd', 'ReWdn', 'ImWdn', 'Lnn'}
    out = set()
    for m in ('generate_fct', 'generate_kern', 'generate_current'):
        try:
            for e in V.run(m).effects:
                if e.kind == 'add':
                    out.add(e.arr)
        except OutOfReach:
            pass
    return (out | {'kern', 'bvec'}) - {'drho'}


def prepared(V):
    res, zer, z, n = histories(V)
    r = []
    for what, l in res.items():
        bad = [t for t, c in l if not c]
        r.append({'name': '%s.prepare_kern: %s, after every history' % (V.name, what), 'status': 'refuted' if bad else 'proved',
                  'backend': 'symbolic execution and z3', 'detail': 'fails for %s' % bad[:2] if bad else '%d histories' % len(l),
                  'functions': list(z.inlined)})
    acc = accumulated(V)
    for k, l in zer.items():
        bad = [t for t, c in l if not c]
        if bad and k not in acc:
            continue                # overwritten, not accumulated: its content before does not matter
        r.append({'name': '%s.prepare_kern: %s is zero before it is accumulated again, after every history' % (V.name, k),
                  'status': 'refuted' if bad else 'proved', 'backend': 'symbolic execution and z3',
                  'detail': 'not zeroed for %s' % bad[:2] if bad else '%d histories' % len(l), 'functions': list(z.inlined)})
    return r


# ------------------------------------------------------------------------------------------------ solving
def solution_contract(V, name):
    """x with A x = b, for the present content of A and b, or an exception."""
    def f(z, a, k):
        A, b = a[0], a[1]
        if z.choose(name + ' raises'):
            raise Raised('LinAlgError')
        x = Vec('solution', A.content, tuple(A.over), b.content, tuple(b.over))
        return x if name == 'solve' else (x, Vec('unknown', 0), Vec('unknown', 1), Vec('unknown', 2))
    return f


def solved(V):
    """success => phi0 solves the generated equations with one replaced by the normalisation; otherwise phi0 = 0."""
    out = []
    for sym in (True, False):
        for sol in (('solve', 'lsqr') if sym else ('lsqr',)):
            z = zed(V)
            z.contracts.update({'np.linalg.solve': solution_contract(V, 'solve'), 'np.linalg.lstsq': solution_contract(V, 'lstsq')})

            def run(z):
                w = World(z, V, dict(mfreeq=False, symq=sym, norm_row=I('norm_row'), solmethod=sol))
                w.call('prepare_kern')
                n = w.size()
                z.assume(z3.And(I('norm_row') >= 0, I('norm_row') < I('npauli'), I('npauli') <= n))
                a = w.a.attrs
                K = Vec('generated')
                a['kern'].set(K)
                a['phi0'].dirty()
                a['_success' if V.compiled else 'success'] = 'stale'
                if V.compiled:
                    s = a['_solver']

                    def solve(z, x, y):
                        A, b = s.attrs['a'], s.attrs['b']
                        if A.order != 'F':
                            raise OutOfReach('matrix not in column order')
                        sol_ = Vec('solution', A.content, tuple(A.over), b.content, tuple(b.over))
                        A.dirty()
                        fail = z.choose('info')
                        s.attrs['info'] = 1 if fail else 0
                        if fail:
                            b.dirty()
                        else:
                            b.set(sol_)
                    s.attrs['solve'] = Fn(solve)
                w.call('solve_kern')
                return w, K
            names = ['success is set', 'on failure phi0 is zero and success False',
                     'on success phi0 solves the generated equations, the row norm_row (or an added one) replaced by trace = 1']
            names.append('norm_vec is kept')
            if not V.compiled and sym:
                names.append('the generated matrix is returned unchanged')
            hold = {x: [] for x in names}
            for pc, r, ev in z.explore(run):
                if isinstance(r, Raised):
                    for x in names:
                        hold[x].append(False)
                    continue
                w, K = r
                a = w.a.attrs
                nv = a['norm_vec']
                hold[names[3]].append(nv.content.kind == 'trace' and not nv.over)
                su = w.z.attr(w.a, 'success', None, w.mod)
                hold[names[0]].append(su is True or su is False)
                ph = a['phi0'].content if not a['phi0'].over else Vec('mixed')
                if ph.kind == 'first':
                    ph = ph.data[0]
                if su is not True:
                    hold[names[1]].append(ph is ZERO)
                    continue
                good = ph.kind == 'solution' and ph.data[0] is K and ph.data[2] is ZERO
                if good:
                    row = I('norm_row') if sym else w.size()
                    A, b = ph.data[1], ph.data[3]
                    good = len(A) == 1 and len(b) == 1
                    if good:
                        s = z3.Solver()
                        s.add(*w.z.axioms, *pc, z3.Or(A[0][0] != row, b[0][0] != row))
                        good = s.check() == z3.unsat and A[0][1].kind == 'trace' and b[0][1].kind == 'const' and b[0][1].data[0] == 1
                hold[names[2]].append(good)
                if len(names) > 4:
                    k = a['kern']
                    back = all(v.kind == 'row' and v.data[0] is K and v.data[1] == str(i) and not v.data[2] for i, v in k.over)
                    hold[names[4]].append(k.content is K and back)
            for x in names:
                l = hold[x]
                out.append({'name': '%s.solve_kern (%s, %s): %s' % (V.name, 'replaced row' if sym else 'added row', sol, x),
                            'status': 'proved' if l and all(l) else ('undecided' if not l else 'refuted'),
                            'backend': 'symbolic execution and z3', 'detail': '%d paths' % len(l), 'functions': list(z.inlined)})
    return out


def lemma():
    """All rows but one vanish, the population rows add up to zero (C07), the left-out row is a population: it vanishes too."""
    rest, row, tot = z3.Reals('sum_of_other_population_rows row total')
    return prove('lemma: a population equation left out for the normalisation follows from the others and trace conservation',
                 [rest == 0, tot == rest + row, tot == 0], row == 0)


def vector(V):
    """generate_vec: the generator on the argument, norm_row replaced by trace - 1; independent of earlier calls."""
    z = zed(V)

    def gen(z, a, k):
        kh = a[0].attrs['kernel_handler']
        d, p = kh.attrs['dphi0_dt'], kh.attrs['phi0']
        if d.content is not ZERO or d.over:
            d.set(Vec('sum', d.value(), Vec('L', p.value() if isinstance(p, Arr) else p)))
        else:
            d.set(Vec('L', p.value() if isinstance(p, Arr) else p))
    for c in ('Approach', 'ApproachElPh', 'Approach' + V.kind, 'ApproachPy', 'ApproachElPhPy'):
        z.contracts[c + '.generate_kern'] = gen
    for c in ('KernelHandler', 'KernelHandlerMatrixFree'):
        z.contracts[c + '.get_phi0_norm'] = lambda z, a, k: z3.Real('trace_of_%s' % (a[0].attrs['phi0'].value(),))

    def run(z):
        w = World(z, V, dict(mfreeq=True, symq=True, norm_row=I('norm_row'), solmethod='krylov'))
        w.call('prepare_kern')
        w.use()
        z.assume(z3.And(I('norm_row') >= 0, I('norm_row') < I('npauli'), I('npauli') <= w.size()))
        res = []
        for k in (1, 2):
            x = Arr((w.size(),), Vec('trial', k))
            r = w.call('generate_vec', x)
            res.append((x.value(), r.content if isinstance(r, Arr) else r, list(r.over) if isinstance(r, Arr) else [], x.content.kind == 'trial'))
        return w, res
    bad, n = [], 0
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            bad.append('raises %s' % r.what)
            continue
        w, res = r
        for x, c, over, untouched in res:
            n += 1
            ok = untouched and c.kind == 'L' and c.data[0] is x and len(over) == 1
            if ok:
                s = z3.Solver()
                s.add(*z.axioms, *pc, over[0][0] != I('norm_row'))
                want = z3.Real('trace_of_%s' % (x,)) - 1
                v = over[0][1]
                ok = s.check() == z3.unsat and v.kind == 'scalar' and z3.is_true(z3.simplify(v.data[0] == want))
            if not ok:
                bad.append('result %s with %s' % (c, over))
    return {'name': '%s.generate_vec: L(phi) with row norm_row replaced by trace(phi) - 1, whatever was computed before' % V.name,
            'status': 'proved' if n and not bad else 'refuted', 'backend': 'symbolic execution and z3',
            'detail': '; '.join(bad[:2]), 'functions': list(z.inlined)}


def matrix_free(V):
    """solve_matrix_free: the solution of the root finder becomes phi0 (also in the handler); a failure is reported."""
    z = zed(V)
    z.contracts['Approach.generate_vec'] = lambda z, a, k: a[0].attrs['dphi0_dt']

    def root(z, a, k):
        if z.choose('root raises'):
            raise Raised('NoConvergence')
        w = z.world
        x = Arr((w.size(),), Vec('trial', 1))
        r = a[0].f(z, [x], {})
        z.events.append(('buffer', isinstance(r, Arr) and r is not w.a.attrs['dphi0_dt']))
        z.events.append(('start', a[1]))
        return ZObj('sol', None, {'x': Vec('root'), 'success': z3.Bool('found')})
    z.contracts['optimize.root'] = root

    def run(z, given):
        w = World(z, V, dict(mfreeq=True, symq=True, norm_row=I('norm_row'), solmethod='krylov'))
        z.world = w
        if given:
            w.funcp.attrs['phi0_init'] = Ptr('phi0_init')
        w.call('prepare_kern')
        w.use()
        w.a.attrs['kernel_handler'].attrs['phi0'] = Arr((w.size(),), Vec('last trial'))
        w.call('solve_matrix_free')
        return w, z.attr(w.a, 'success', None, w.mod)
    st = {'on success phi0 is the root that was found and success what the root finder says': [],
          'on failure phi0 is zero and success False': [], 'the kernel handler holds phi0 afterwards': [],
          'the root finder gets its own copies of the residual': []}
    ks = list(st)
    for given in (False, True):
        for pc, r, ev in z.explore(lambda z: run(z, given)):
            if isinstance(r, Raised):
                for k in ks:
                    st[k].append(False)
                continue
            w, su = r
            ph = w.a.attrs['phi0']
            if su is False:
                st[ks[1]].append(ph.content is ZERO and not ph.over)
            else:
                st[ks[0]].append(ph.content.kind == 'root' and not ph.over and isinstance(su, z3.BoolRef) and su.eq(z3.Bool('found')))
            st[ks[2]].append(w.a.attrs['kernel_handler'].attrs['phi0'] is ph)
            st[ks[3]] += [x for k, x in ev if k == 'buffer']
    return [{'name': '%s.solve_matrix_free: %s' % (V.name, k), 'status': 'proved' if l and all(l) else 'refuted' if l else 'undecided',
             'backend': 'symbolic execution and z3', 'detail': '%d paths' % len(l), 'functions': list(z.inlined)} for k, l in st.items()]


ORDER = ('diagonalise', 'rotate', 'prepare_kern', 'generate_fct', 'generate_kern', 'solve_kern', 'solve_matrix_free', 'generate_current')


def sequence(V):
    """solve(): the steps and their order, for every combination of its flags."""
    z = zed(V)
    for m in ORDER[1:]:
        for c in ('Approach', 'ApproachElPh', 'Approach' + V.kind, 'ApproachPy', 'ApproachElPhPy'):
            z.contracts['%s.%s' % (c, m)] = (lambda m: lambda z, a, k: z.events.append(m))(m)
    bad, n = [], 0
    for mf in (False, True):
        for flags in itertools.product((False, True), repeat=4):
            def run(z):
                w = World(z, V, dict(mfreeq=mf, symq=True, norm_row=I('norm_row'), solmethod=None))
                w.qd.attrs['diagonalise'] = Fn(lambda z, a, k: z.events.append('diagonalise'))
                z.events.clear()
                m = z.S.method(w.mod, w.cls, 'solve')
                z.call_method(w.a, m, [], dict(zip(('qdq', 'rotateq', 'masterq', 'currentq'), flags)), None)
            q, ro, ma, cu = flags
            want = (['diagonalise'] if q else []) + (['rotate'] if q and ro else [])
            if ma:
                want += ['prepare_kern', 'generate_fct'] + (['solve_matrix_free'] if mf else ['generate_kern', 'solve_kern'])
                want += ['generate_current'] if cu else []
            for pc, r, ev in z.explore(run):
                n += 1
                if isinstance(r, Raised) or ev != want:
                    bad.append('%s mfreeq=%s: %s' % (flags, mf, r.what if isinstance(r, Raised) else ev))
    return {'name': '%s.solve: diagonalise, rotate, prepare, factors, generator, solution, currents in this order for all flags' % V.name,
            'status': 'proved' if n and not bad else 'refuted', 'backend': 'symbolic execution and z3', 'detail': '; '.join(bad[:2]),
            'functions': list(z.inlined)}


def linear_current(V):
    """Currents are linear in the density matrix: zero when it is zero (after a failed solution)."""
    ex = V.run('generate_current')
    r = []
    for arr in ('current', 'energy_current', 'heat_current'):
        bad = []
        for e in ex.effects:
            if e.arr != arr:
                continue
            from .master import expand
            for (b, at), c in expand(e.val * e.guard).items():
                if not any(x[0] in ('rho', 'current@1', 'energy_current@1') for x in at):
                    bad.append(str(at)[:200])
        seen = any(e.arr == arr for e in ex.effects)
        r.append({'name': '%s.generate_current: %s vanishes with the density matrix' % (V.name, arr),
                  'status': 'proved' if seen and not bad else 'undecided', 'backend': 'symbolic execution', 'detail': '; '.join(bad[:2])})
    return r


ASSUME = {p: ['np.linalg.solve, np.linalg.lstsq, LAPACK dgesv and dgelsd, called as documented (which is proved of c_lapack.pyx in C14), return x with A x = b (consistent least squares) or report a failure; '
              'scipy.optimize.root returns what it reports', 'the option setters, prepare_kern and restart are the only writers of the '
              'driver state (a user who overwrites internal attributes is outside)', 'norm_row is the row of a population (precondition)']
          for p in ('C14', 'C15', 'C11', 'C10')}


def rotated(V):
    """rotate(): the amplitudes of the leads, and of the baths where there are any, go to the eigenbasis of the dot, once each."""
    z = zed(V)

    def run(z):
        w = World(z, V, dict(mfreeq=False, symq=True, norm_row=I('norm_row'), solmethod=None))
        for n in ('leads', 'baths'):
            def f(z, a, k, n=n):
                v = a[0] if len(a) == 1 and not k else k.get('vecslst') if not a and len(k) == 1 else None
                z.events.append((n, v is w.qd.attrs['vecslst']))
            getattr(w, n).attrs['rotate'] = Fn(f)
        z.events.clear()
        w.call('rotate')
        return w
    elph = 'elph' in V.name.lower() or getattr(V, 'elph', False)
    want = [('baths', True), ('leads', True)] if elph else [('leads', True)]
    ok, bad = 0, []
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            bad.append('raises %s' % r.what)
        elif sorted(set(ev)) != want:           # rotation starts from the Fock amplitudes: repeating it changes nothing
            bad.append(str(ev))
        else:
            ok += 1
    o = bool_ob('%s.rotate: the amplitudes of %s are rotated by the eigenvectors of the dot' % (V.name, 'leads and baths' if elph else 'the leads'),
                bool(ok) and not bad, '; '.join(bad[:2]) or '%d paths' % ok)
    return dict(o, functions=list(z.inlined))


def set_options(V):
    """Every option that is set on the approach is the one that is used and shown, and no other one changes with it."""
    z = zed(V)
    bad, n = [], 0
    new = dict(symq=(True, False), mfreeq=(True, False), norm_row=(I('norm_row'), I('other_row')), itype=(2, 0), solmethod=(None, 'lsqr'))
    for name, (old, val) in new.items():
        if name == 'mfreeq' and getattr(V, 'rtd', False):
            continue                    # dense only

        def run(z):
            o = {k: v[0] for k, v in new.items()}
            w = World(z, V, dict(o, mfreeq=name == 'mfreeq'))
            w.call('prepare_kern')
            before = dict(w.funcp.attrs)
            w.setopt(name, val)
            return w, before, z.attr(w.a, name, None, w.mod)
        for pc, r, ev in z.explore(run):
            n += 1
            if isinstance(r, Raised):
                bad.append('setting %s raises %s' % (name, r.what))
                continue
            w, before, shown = r
            if w.funcp.attrs.get(name) is not val:
                bad.append('%s is not set' % name)
            if shown is not val:
                bad.append('%s is not shown' % name)
            for k in new:
                if k != name and w.funcp.attrs.get(k) is not before[k]:
                    bad.append('%s changes with %s' % (k, name))
    o = bool_ob('%s: an option that is set is the one used and shown, no other option changes with it' % V.name, bool(n) and not bad,
                '; '.join(bad[:2]) or '%d paths' % n)
    return dict(o, functions=list(z.inlined))


def obligations(prop, S):
    from .master import variants
    r = []
    if prop not in ('C14', 'C15', 'C11', 'C10', 'C18', 'C06'):
        return r
    VS = variants(None, S=S)
    RS = [RTDVariant(S, c) for c in (False, True)]

    def add(f):
        run = lambda V: guarded('%s %s' % (f.__name__, V.name), f, V)
        for x in (pmap(run, VS + RS) if f is prepared else map(run, VS + (RS if f in (solved, sequence, rotated, set_options) else []))):
            r.extend(x)
    if prop == 'C15':
        add(prepared)
        add(sequence)
        add(set_options)
    if prop == 'C14':
        r.append(lemma())
        add(solved)
        add(matrix_free)
        add(linear_current)
        add(sequence)
    if prop == 'C11':
        add(vector)
        add(matrix_free)
    if prop == 'C10':
        add(sequence)
        add(rotated)
    if prop == 'C06':
        add(rotated)
    return r
