"""The 2vN iterations (C19, C10, C15): interpolation on the energy grid, energy integrals, Hilbert transform, the loop over
energies and leads, and the driver (ApproachBase2vN), real bodies, compiled and pure Python.

The energy grid is equidistant with any first point, step h > 0 and any number n >= 2 of points (what numpy.linspace and
numpy.arange give); an energy is written as g0 + t h with any real t."""
import ast, itertools
import z3
from .zx import Z, ZObj, ZArr, Cx, Fn, Raised, PI, SymRange, allpaths, real, cx, num, prove
from .src import OutOfReach
from .master import guarded, bool_ob
from . import driver
from .driver import Vec, ZERO
from .fock import fresh, iterate as arbitrary

I, R = z3.Int, z3.Real
FILE = {False: 'qmeq/approach/base/neumann2.py', True: 'qmeq/approach/base/c_neumann2.pyx'}
NAME = {False: 'py2vN', True: '2vN'}
SPEC = 'qmeq/specfunc/specfunc.py'


def valid(z, c):
    s = z3.Solver()
    s.set('timeout', 4000)
    s.add(*z.axioms, *z.pc, *z.extra, z3.Not(c))
    return s.check() == z3.unsat


class Grid(object):
    """g0 + i h, i = 0..n-1."""
    def __init__(self):
        self.n = I('n')

    def zlen(self, z):
        return self.n

    def zattr(self, z, n, node):
        if n == 'shape':
            return (self.n,)
        if n == 'size':
            return self.n
        raise OutOfReach('attribute %s of the energy grid' % n)

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            raise OutOfReach('element of the energy grid')
        i = idx[0]
        if isinstance(i, int):
            i = z3.IntVal(i) if i >= 0 else self.n + i
        z.events.append(('grid', i))
        return Lau({(1, 0): 1, (0, 1): z3.simplify(z3.ToReal(i))})


def czero(c):
    re, im = z3.simplify(c.re), z3.simplify(c.im)
    return z3.is_rational_value(re) and re.as_fraction() == 0 and z3.is_rational_value(im) and im.as_fraction() == 0


def cmul(a, b):
    if czero(Cx(a.im, a.im)) and czero(Cx(b.im, b.im)):
        return Cx(a.re*b.re, z3.RealVal(0))
    return Cx(a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re)


class Lau(object):
    """Sum of c g0^p h^q: energies in units of the step of the grid."""
    def __init__(self, d):
        self.d = {}
        for k, c in d.items():
            c = cx(c)
            c = Cx(z3.simplify(c.re), z3.simplify(c.im))
            if not czero(c):
                self.d[k] = c

    @staticmethod
    def of(v):
        return v if isinstance(v, Lau) else Lau({(0, 0): cx(v)})

    def at(self, k):
        return self.d.get(k, Cx(z3.RealVal(0), z3.RealVal(0)))

    def zattr(self, z, n, node):
        if n in ('conjugate', 'conj'):
            return Fn(lambda z, a, k: Lau({k: Cx(c.re, -c.im) for k, c in self.d.items()}))
        if n in ('real', 'imag'):
            return Lau({k: c.re if n == 'real' else c.im for k, c in self.d.items()})
        raise OutOfReach('attribute %s' % n)

    def zbin(self, z, op, o, flip, node):
        a, b = (Lau.of(o), self) if flip else (self, Lau.of(o))
        if op in ('Add', 'Sub'):
            s = 1 if op == 'Add' else -1
            r = {k: a.at(k) for k in a.d}
            for k, c in b.d.items():
                x = r.get(k, Cx(z3.RealVal(0), z3.RealVal(0)))
                r[k] = Cx(x.re + s*c.re, x.im + s*c.im)
            return Lau(r)
        if op == 'Mult':
            r = {}
            for k, c in a.d.items():
                for l, e in b.d.items():
                    p = cmul(c, e)
                    m = (k[0] + l[0], k[1] + l[1])
                    x = r.get(m)
                    r[m] = p if x is None else Cx(x.re + p.re, x.im + p.im)
            return Lau(r)
        if op == 'Div':
            if len(b.d) == 1:
                (p, q), c = list(b.d.items())[0]
                if z3.is_rational_value(c.re) and czero(Cx(c.im, c.im)):
                    f = 1 / c.re
                    return Lau({(k[0] - p, k[1] - q): Cx(x.re * f, x.im * f) for k, x in a.d.items()})
            raise OutOfReach('division by an energy')
        raise OutOfReach('operation on energies')

    def zcmp(self, z, op, o, flip, node):
        a, b = (Lau.of(o), self) if flip else (self, Lau.of(o))
        d = a.zbin(z, 'Sub', b, False, None)
        if set(d.d) <= {(0, 1)} and czero(Cx(d.at((0, 1)).im, d.at((0, 1)).im)):
            v = d.at((0, 1)).re
            return {'Lt': v < 0, 'Gt': v > 0, 'LtE': v <= 0, 'GtE': v >= 0, 'Eq': v == 0, 'NotEq': v != 0}[op]
        raise OutOfReach('comparison of energies')


class Slab(object):
    """phi1k or hphi1k on the extended grid; the element of Phi[0] is one arbitrary element, the same everywhere."""
    def __init__(self, name):
        self.name = name
        S = [z3.IntSort()] * 3 + [z3.RealSort()]
        self.re, self.im = z3.Function(name + '.re', *S), z3.Function(name + '.im', *S)

    def value(self, i, l, cb):
        return Cx(self.re(i, l, cb), self.im(i, l, cb))

    def zget(self, z, idx, node):
        if len(idx) == 4 and isinstance(idx[3], slice) and idx[3] == slice(None, None, None):
            idx = idx[:3]
        if len(idx) == 4 and not (isinstance(idx[3], z3.ExprRef) and idx[3].eq(BBP)):
            raise OutOfReach('another element of Phi[0]')
        if len(idx) not in (3, 4):
            raise OutOfReach('element of %s' % self.name)
        z.events.append((self.name, num(idx[0])))
        return self.value(*[num(x) for x in idx[:3]])


BBP, NDM0 = I('bbp'), I('ndm0')


class Term(object):
    """The row that get_at_k1 of the compiled form adds to."""
    def __init__(self):
        self.v = Cx(R('term.re'), R('term.im'))

    def zattr(self, z, n, node):
        if n == 'shape':
            return (NDM0,)
        raise OutOfReach('attribute of the row')

    def zlen(self, z):
        return NDM0

    def at(self, idx):
        if len(idx) != 1 or not (isinstance(idx[0], z3.ExprRef) and idx[0].eq(BBP)):
            raise OutOfReach('another element of the row')

    def zget(self, z, idx, node):
        self.at(idx)
        return self.v

    def zset(self, z, idx, v, node):
        self.at(idx)
        self.v = v


def rng(z, a, k):
    if len(a) == 1 and isinstance(a[0], z3.ExprRef) and a[0].eq(NDM0):
        return [BBP]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    return SymRange(a)


T, M = R('t'), I('m')


def toint(z, a, k):
    """int(x): if x is t (the energy in units of the step), its integer part is m."""
    v = a[0]
    if isinstance(v, (int, bool)):
        return int(v)
    if isinstance(v, Lau) and set(v.d) <= {(0, 0)}:
        v = v.at((0, 0)).re
    if isinstance(v, z3.ArithRef) and v.sort() == z3.RealSort() and z3.is_true(z3.simplify(v == T)):
        z.assume(z3.Implies(T >= 0, z3.And(z3.ToReal(M) <= T, T < z3.ToReal(M) + 1)))
        z.assume(z3.Implies(T < 0, z3.And(z3.ToReal(M) >= T, T > z3.ToReal(M) - 1)))
        return M
    return z.builtin('int', a, k, None)


class ZG(Z):
    def builtin(self, n, args, kw, node):
        if n == '_cint':
            return toint(self, args, kw)
        return Z.builtin(self, n, args, kw, node)


def interpolation(S, c, what):
    mod = S.module(FILE[c])
    cls = mod.classes.get('TermsCalculator2vN')
    if cls is None:
        raise OutOfReach('class TermsCalculator2vN')
    z = ZG(S, contracts={'int': toint, 'range': rng})
    out = []
    for eta, conj in ((1, False), (-1, True)) if what == 'func_2vN' else itertools.product((1, -1), (False, True)):
        def run(z):
            g, l, cb = Grid(), I('l'), I('cb')
            z.assume(g.n >= 2)
            hfk = ZArr('hfk', 2, 'cx')
            u, hu = Slab('phi1k'), Slab('hphi1k')
            o = ZObj('calculator', (mod, cls), {'Ek_grid_ext': g, 'phi1k_delta_old': u, 'hphi1k_delta': hu})
            E = Lau({(1, 0): 1, (0, 1): T})
            m = z.S.method(mod, cls, what)
            if m is None:
                raise OutOfReach(what)
            outside = z3.Or(T < 0, T > z3.ToReal(g.n - 1))
            # the interval of the energy; the last point belongs to the last interval
            j = I('interval')
            z.assume(z3.Implies(z3.Not(outside), z3.And(j >= 0, j <= g.n - 2, z3.ToReal(j) <= T,
                                                         z3.Or(T < z3.ToReal(j) + 1, z3.And(j == g.n - 2, T == z3.ToReal(j) + 1)))))
            w = T - z3.ToReal(j)

            def lin(f):
                a, b = f(j), f(j + 1)
                return Cx(a.re + w*(b.re - a.re), a.im + w*(b.im - a.im))

            def cj(v):
                return Cx(v.re, -v.im) if conj else v
            fct = Cx(R('f.re'), R('f.im'))
            if what == 'func_2vN':
                r = [z.inline(m, [o, E, l, eta, hfk], {}, None)]
                want = [cj(lin(lambda i: hfk.base(l, i)))]
            elif not c:
                r = z.inline(m, [o, E, l, cb, conj], {}, None)
                if not isinstance(r, (tuple, list)) or len(r) != 2:
                    raise OutOfReach('result of get_at_k1')
                want = [cj(lin(lambda i: s.value(i, l, cb))) for s in (hu, u)]
            else:
                t = Term()
                z.inline(m, [o, E, l, cb, conj, fct, eta, t], {}, None)
                r = [Lau.of(t.v).zbin(z, 'Sub', Cx(R('term.re'), R('term.im')), False, None)]
                H, U = [cj(lin(lambda i: s.value(i, l, cb))) for s in (hu, u)]
                x = Cx(H.re - eta*U.im, H.im + eta*U.re)
                want = [Cx(fct.re*x.re - fct.im*x.im, fct.re*x.im + fct.im*x.re)]
            gs = []
            for a, b in zip(r, want):
                a = Lau.of(a)
                gs += [z3.And(c.re == 0, c.im == 0) for k, c in a.d.items() if k != (0, 0)]
                a = a.at((0, 0))
                if valid(z, outside):
                    gs.append(z3.And(a.re == 0, a.im == 0))
                    continue
                inside = valid(z, z3.Not(outside))
                eq = [x for x in (M, M - 1, M + 1, g.n - 2) if inside and valid(z, j == x)][:1]
                for u, v in ((a.re, PI*b.re), (a.im, PI*b.im)):
                    # equal as polynomials after the interval is expressed by the one that the code takes
                    if eq and z3.is_true(z3.simplify(z3.simplify(z3.substitute(u - v, (j, eq[0])), som=True) == 0)):
                        continue
                    gs.append(u == z3.If(outside, z3.RealVal(0), v) if not inside else u == v)
            for e in z.events:
                if e[0] in ('grid', 'phi1k', 'hphi1k'):
                    gs.append(z3.And(num(e[1]) >= 0, num(e[1]) < g.n))
            return z3.And(*gs)
        n = '%s.%s: %slinear interpolation between the neighbouring grid points, zero outside the grid, in bounds (eta = %+d%s)' % (
            NAME[c], what, 'complex conjugate of the ' if conj else '', eta, '' if what == 'func_2vN' else ', conj = %s' % conj)
        paths = z.explore(run)
        out.append(allpaths(n, z, paths, lambda r, ev: z3.BoolVal(False) if isinstance(r, Raised) else r))
    return out


# ------------------------------------------------------------------------------------------------ energy integrals
class Acc(object):
    """An array that is accumulated over the grid: coefficient of phi1k[i] in what an iteration adds."""
    def __init__(self, name):
        self.name, self.add, self.n = name, None, 0

    def zbin(self, z, op, o, flip, node):
        if op in ('Add', 'Sub') and isinstance(o, PhiRow) and not flip:
            r = Acc(self.name)
            r.add = (o if op == 'Add' else PhiRow(-o.f, o.i)) if self.add is None else self.add.zbin(z, op, o, False, node)
            return r
        raise OutOfReach('the way an energy integral is accumulated')


class PhiRow(object):
    """f * phi1k[i]."""
    def __init__(self, f, i):
        self.f, self.i = f, i

    def zbin(self, z, op, o, flip, node):
        if isinstance(o, PhiRow):
            if op in ('Add', 'Sub') and not flip and o.i.eq(self.i):
                return PhiRow(self.f + o.f if op == 'Add' else self.f - o.f, self.i)
            raise OutOfReach('rows of phi1k')
        if op == 'Mult':
            return PhiRow(self.f * real(o), self.i)
        if op == 'Div' and not flip:
            return PhiRow(self.f / real(o), self.i)
        raise OutOfReach('operation on phi1k')


class PhiK(object):
    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            raise OutOfReach('element of phi1k')
        return PhiRow(z3.RealVal(1), num(idx[0]))

    def zlen(self, z):
        return I('n')


class AnyGrid(object):
    """Energies E(i), strictly increasing not needed."""
    E = z3.Function('Ek', z3.IntSort(), z3.RealSort())

    def zlen(self, z):
        return I('n')

    def zattr(self, z, n, node):
        if n == 'shape':
            return (I('n'),)
        raise OutOfReach('attribute %s' % n)

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            raise OutOfReach('element of the energy grid')
        i = num(idx[0]) if not (isinstance(idx[0], int) and idx[0] < 0) else I('n') + idx[0]
        return self.E(i)


class ZI(Z):
    """Loops at one arbitrary iteration, accumulators kept."""
    def loop(self, st, env, mod):
        it = self.ev(st.iter, env, mod)
        if not isinstance(it, SymRange):
            return Z.loop(self, st, env, mod)
        a = [num(x) for x in it.args]
        if len(a) != 1:
            raise OutOfReach('range of a loop')
        if not isinstance(st.target, ast.Name) or self.depth_loop:
            raise OutOfReach('loop')
        j = I('i')
        self.assume(z3.And(j >= 0, j < a[0]))
        self.events.append(('range', a[0]))
        keep = {n: v for n, v in env.items() if isinstance(v, Acc)}
        self.depth_loop += 1
        arbitrary(self, _alias(st, env), env, mod, j)
        self.depth_loop -= 1
        for n in keep:
            if n in self.accs:
                env[n] = self.accs[n]

    depth_loop = 0

    def bind(self, t, v, env, mod, st):
        if isinstance(t, ast.Name) and isinstance(v, Acc) and v.add is not None:
            self.accs[t.id] = v
            self.final[v.name] = v
        if isinstance(t, ast.Attribute) and isinstance(v, Acc) and v.add is not None:
            self.final[v.name] = v
        return Z.bind(self, t, v, env, mod, st)


def _alias(st, env):
    """The loop without its accumulators among the variables that are carried (they are only added to)."""
    return _Loop(st, {n for n, v in env.items() if isinstance(v, Acc)}, env)


class _Loop(object):
    def __init__(self, st, accs, env):
        self.target, self.orelse, self.lineno = st.target, st.orelse, st.lineno
        self.body = [_Restore(accs, env)] + st.body


class _Restore(ast.stmt):
    _fields = ()

    def __init__(self, accs, env):
        ast.stmt.__init__(self)
        self.saved = {n: env[n] for n in accs}


def _stmt(self, st, env, mod):
    if isinstance(st, _Restore):
        env.update(st.saved)
        return
    return Z.stmt(self, st, env, mod)


ZI.stmt = _stmt


def integrals(S, c):
    """Per grid point: {array: coefficient of phi1k[i]}, by path."""
    mod = S.module(FILE[c])
    cls = mod.classes.get('Approach2vN')
    if cls is None:
        raise OutOfReach('class Approach2vN')
    z = ZI(S)

    def run(z):
        z.accs, z.final, z.depth_loop = {}, {}, 0
        z.assume(I('n') >= 2)
        o = ZObj('appr', (mod, cls), {'phi1k': PhiK(), 'Ek_grid': AnyGrid(), 'phi1_phi0': Acc('phi1_phi0'), 'e_phi1_phi0': Acc('e_phi1_phi0')})
        m = z.S.method(mod, cls, 'determine_phi1_phi0')
        z.inline(m, [o], {}, None)
        return dict(z.final), list(z.events)
    return z, z.explore(run)


def weight(i):
    E, n = AnyGrid.E, I('n')
    return z3.If(i == 0, E(i + 1) - E(i), z3.If(i == n - 1, E(i) - E(i - 1), E(i + 1) - E(i - 1))) / 2


def trapezoid(S, c, definite):
    z, paths = integrals(S, c)
    i, n = I('i'), I('n')

    def goal(r, ev):
        if isinstance(r, Raised):
            return z3.BoolVal(False)
        f, ev = r
        if set(f) != {'phi1_phi0', 'e_phi1_phi0'} or [e[0] for e in ev].count('range') != 1:
            raise OutOfReach('the way the energy integrals are made')
        a, b = f['phi1_phi0'].add, f['e_phi1_phi0'].add
        g = [e[1] == n for e in ev if e[0] == 'range']
        return z3.And(a.i == i, b.i == i, a.f == weight(i), b.f == AnyGrid.E(i) * weight(i), *g)
    return [allpaths('%s.determine_phi1_phi0: energy integrals of phi1k and E phi1k by the trapezoidal rule over the whole grid' % NAME[c],
                     z, paths, goal, definite=definite)]


# ------------------------------------------------------------------------------------------------ Hilbert transform
class Word(object):
    """A linear operator applied to f, given by its factors (the last applied first in the list)."""
    def __init__(self, *w, n=None):
        self.w, self.n = w, n

    def __repr__(self):
        return ' '.join(str(x) for x in self.w)

    def zlen(self, z):
        return self.n

    def zattr(self, z, n, node):
        if n == 'shape':
            return (self.n,)
        if n == 'real':
            return Word('real part', *self.w, n=self.n)
        raise OutOfReach('attribute %s of a vector' % n)

    def zbin(self, z, op, o, flip, node):
        if op == 'Mult' and isinstance(o, Ker):
            if not self.same(z, o.n):
                raise OutOfReach('length of the kernel')
            return Word('kernel', *self.w, n=self.n)
        raise OutOfReach('operation %s on a vector' % op)

    def same(self, z, n):
        return valid(z, num(self.n) == num(n))

    def zget(self, z, idx, node):
        if len(idx) == 1 and isinstance(idx[0], slice) and idx[0].step is None:
            lo, hi = idx[0].start, idx[0].stop
            if lo in (None, 0) and hi is not None:
                return Word(('first', str(z3.simplify(num(hi)))), *self.w, n=num(hi))
        raise OutOfReach('part of a vector')


class Ker(object):
    """fft of a real sequence of length n, divided by a real number."""
    def __init__(self, n):
        self.n = n

    def zlen(self, z):
        return self.n

    def zbin(self, z, op, o, flip, node):
        if op == 'Mult' and isinstance(o, Word):
            return o.zbin(z, op, self, not flip, node)
        raise OutOfReach('operation on the kernel')

    def zcmp(self, z, op, o, flip, node):
        if o is None and op in ('Is', 'IsNot', 'Eq', 'NotEq'):
            return op in ('IsNot', 'NotEq')
        raise OutOfReach('comparison of the kernel')


class Zeros(object):
    def __init__(self, n):
        self.n = n


def zh(S):
    def zeros(z, a, k):
        return Zeros(a[0])

    def concat(z, a, k):
        p = a[0]
        if isinstance(p, (tuple, list)) and len(p) == 2 and isinstance(p[0], Word) and isinstance(p[1], Zeros):
            return Word('pad', *p[0].w, n=z3.simplify(num(p[0].n) + num(p[1].n)))
        raise OutOfReach('concatenation')

    def tr(name):
        def f(z, a, k):
            if len(a) != 1 or k or not isinstance(a[0], Word):
                raise OutOfReach(name)
            return Word(name, *a[0].w, n=a[0].n)
        return f
    con = {'np.zeros': zeros, 'np.concatenate': concat, 'np.hstack': concat, 'kernel_fredriksen': lambda z, a, k: Ker(2*num(a[0]))}
    for p in ('', 'np.fft.', 'fftpack.', 'scipy.fft.', 'fft.'):
        con[p + 'fft'] = tr('fft')
        con[p + 'ifft'] = tr('ifft')
    return Z(S, contracts=con)


def hilbert(S):
    mod = S.module(SPEC)
    if 'hilbert_fredriksen' not in mod.funcs:
        raise OutOfReach('hilbert_fredriksen')
    z = zh(S)
    fn = (mod, None, mod.funcs['hilbert_fredriksen'])
    n = I('n')
    out = []
    for given in (True, False):
        def run(z):
            z.assume(n >= 1)
            return z.inline(fn, [Word(n=n)] + ([Ker(2*n)] if given else []), {}, None)
        ps = z.explore(run)
        bad, vague = [], []
        for pc, r, ev in ps:
            if isinstance(r, Raised) or not isinstance(r, Word):
                vague.append(str(r))
                continue
            w = r.w
            if w == (('first', 'n'), 'ifft', 'kernel', 'fft', 'pad'):
                continue
            vague.append(str(r))
        nm = 'hilbert_fredriksen%s: the first n elements of the circular convolution of f, padded by zeros, with the kernel: linear; real for real f' % (
            '' if given else ' without a kernel')
        out.append({'name': nm, 'status': 'undecided' if vague or not ps else 'proved', 'backend': 'symbolic execution', 'detail': '; '.join(vague),
                    'functions': list(z.inlined)})
    return out


class Seq(ZArr):
    def zget(self, z, idx, node):
        z.events.append(('read', self.name, num(idx[0])))
        return self.read([num(i) for i in idx])

    def zset(self, z, idx, v, node):
        z.events.append(('write', self.name, num(idx[0]), real(v)))
        self.write([num(i) for i in idx], real(v))


class ZK(Z):
    """Loops at one arbitrary iteration; what an earlier loop over its complete range wrote is known by its only write."""
    def loop(self, st, env, mod):
        it = self.ev(st.iter, env, mod)
        if not isinstance(it, SymRange) or len(it.args) not in (1, 2):
            raise OutOfReach('loop')
        a = [num(x) for x in it.args]
        lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else a
        j = fresh('i')
        self.assume(z3.And(lo <= j, j < hi))
        mark = len(self.events)
        arrs = {id(v): v for v in env.values() if isinstance(v, Seq)}.values()
        logs = {id(v): len(v.log) for v in arrs}
        arbitrary(self, st, env, mod, j)
        ws = [e for e in self.events[mark:] if e[0] == 'write']
        for v in arrs:
            mine = [e for e in ws if e[1] == v.name]
            if not mine:
                continue
            if any(e[0] == 'read' and e[1] == v.name and not any(w[2].eq(e[2]) for w in mine) for e in self.events[mark:]):
                raise OutOfReach('%s is read in the loop that makes it' % v.name)
            del v.log[logs[id(v)]:]
            self.loops_done.append((v.name, j, lo, hi, mine))
            old = v.base

            def base(i, old=old, j=j, lo=lo, hi=hi, mine=mine, log=list(v.log)):
                from .zx import ite
                r = old(i)
                for w, x, _ in log:
                    r = x if w == 'fill' else ite(i == w[0], x, r)
                for _, _, at, val in mine:
                    # at = s*j + o with s = 1 or -1: the iteration that writes element i
                    for s in (1, -1):
                        o = z3.simplify(at - s*j)
                        if not _has(o, j):
                            k = s*(i - o)
                            r = z3.If(z3.And(k >= lo, k < hi), z3.substitute(val, (j, z3.simplify(k))), r)
                            break
                    else:
                        raise OutOfReach('position of a write')
                return r
            v.base, v.log = base, []


def _has(e, j):
    todo = [e]
    while todo:
        x = todo.pop()
        if x.eq(j):
            return True
        todo += x.children()
    return False


def kernel(S):
    mod = S.module(SPEC)
    if 'kernel_fredriksen' not in mod.funcs:
        raise OutOfReach('kernel_fredriksen')
    names = itertools.count()

    def zeros(z, a, k):
        v = Seq('seq%d' % next(names), 1, base=lambda i: z3.RealVal(0))
        v.size = num(a[0])
        return v
    got = {}

    class F(object):
        def __init__(self, v, f=1):
            self.v, self.f = v, f

        def zbin(self, z, op, o, flip, node):
            if op in ('Mult', 'Div') and not (flip and op == 'Div') and not isinstance(cx_or_none(o), Cx):
                return F(self.v, (self.f, op, o))
            raise OutOfReach('operation on the kernel')

    def cx_or_none(o):
        return num(o) if isinstance(o, (int, float, complex, z3.ArithRef, Cx)) else Cx(0, 0)

    def fft(z, a, k):
        if len(a) != 1 or not isinstance(a[0], Seq):
            raise OutOfReach('fft')
        return F(a[0])
    con = {'np.zeros': zeros}
    for p in ('', 'np.fft.', 'fftpack.', 'scipy.fft.', 'fft.'):
        con[p + 'fft'] = fft
    z = ZK(S, contracts=con)
    n = I('n')

    def run(z):
        z.loops_done = []
        z.assume(n >= 1)
        r = z.inline((mod, None, mod.funcs['kernel_fredriksen']), [n], {}, None)
        if not isinstance(r, F):
            raise OutOfReach('result of kernel_fredriksen')
        i = I('i')
        k = r.v
        inb = [z3.And(e[2] >= 0, e[2] < s.size) for e in z.events if e[0] in ('read', 'write') for s in [k] if e[1] == s.name]
        odd = z3.Implies(z3.And(i >= 1, i < n), k.read([2*n - i]) == -k.read([i]))
        return z3.And(k.size == 2*n, k.read([z3.IntVal(0)]) == 0, k.read([n]) == 0, odd, *inb)
    ps = z.explore(run)
    return [allpaths('kernel_fredriksen: transform of a real odd sequence of length 2n, in bounds', z, ps,
                     lambda r, ev: z3.BoolVal(False) if isinstance(r, Raised) else r, definite=False)]


# ------------------------------------------------------------------------------------------------ transforms of arrays
class Block(object):
    """An array over (energies, rest): its length along the energy axis and the words of its columns."""
    def __init__(self, n, axis, word=(), rest=()):
        self.n, self.axis, self.word, self.rest = n, axis, word, rest

    def zattr(self, z, n, node):
        if n == 'shape':
            return (self.n,) + self.rest if self.axis == 0 else self.rest + (self.n,)
        raise OutOfReach('attribute %s' % n)

    def zget(self, z, idx, node):
        idx = [x for x in idx if not (isinstance(x, slice) and x == slice(None, None, None))]
        if len(idx) != len(self.rest):
            raise OutOfReach('column of an array')
        return Col(self, tuple(num(i) for i in idx))

    def zbin(self, z, op, o, flip, node):
        if op in ('Sub', 'Add', 'Mult'):
            return Block(self.n, self.axis, ('sum', op, self, o, flip), self.rest)
        raise OutOfReach('operation on an array')


class Col(object):
    def __init__(self, b, idx):
        self.b, self.idx = b, idx

    def zlen(self, z):
        return self.b.n


class HCol(object):
    def __init__(self, col, re=False):
        self.col, self.re = col, re

    def zattr(self, z, n, node):
        if n == 'real':
            return HCol(self.col, True)
        raise OutOfReach('attribute %s of a transform' % n)


class New(Block):
    """A new array filled column by column."""
    def zset(self, z, idx, v, node):
        pos = [x for x in idx if not (isinstance(x, slice) and x == slice(None, None, None))]
        if not isinstance(v, HCol) or len(pos) != len(self.rest):
            raise OutOfReach('element of an array')
        z.events.append(('column', self, tuple(num(i) for i in pos), v))


class Prod(object):
    def __init__(self, ns):
        self.ns = ns

    def zloop(self, z, st, env, mod):
        v = []
        for r in self.ns:
            if not isinstance(r, SymRange) or len(r.args) != 1:
                raise OutOfReach('loop')
            j = fresh('j')
            z.assume(z3.And(j >= 0, j < num(r.args[0])))
            z.events.append(('range', j, num(r.args[0])))
            v.append(j)
        arbitrary(z, st, env, mod, tuple(v))


class ZT(Z):
    def loop(self, st, env, mod):
        it = self.ev(st.iter, env, mod)
        if isinstance(it, SymRange):
            it = Prod([it])
        if isinstance(it, Prod):
            if len(it.ns) == 1:
                j = fresh('j')
                self.assume(z3.And(j >= 0, j < num(it.ns[0].args[0])))
                self.events.append(('range', j, num(it.ns[0].args[0])))
                return arbitrary(self, st, env, mod, j)
            return it.zloop(self, st, env, mod)
        return Z.loop(self, st, env, mod)


def transforms(S):
    mod = S.module(FILE[False])
    L, D1, D0, K, KL, KR = I('nleads'), I('ndm1'), I('ndm0'), I('K'), I('kpnt_left'), I('kpnt_right')
    out = []
    for fname in ('get_htransf_phi1k', 'get_htransf_fk'):
        if fname not in mod.funcs:
            raise OutOfReach(fname)
        rest = (L, D1, D0) if fname == 'get_htransf_phi1k' else (L,)
        axis = 0 if fname == 'get_htransf_phi1k' else 1

        def zeros(z, a, k):
            sh = a[0] if isinstance(a[0], tuple) else (a[0],)
            n = sh[0] if axis == 0 else sh[-1]
            rs = tuple(sh[1:] if axis == 0 else sh[:-1])
            if len(rs) != len(rest):
                raise OutOfReach('shape')
            z.assume(num(n) >= 0)
            if not valid(z, z3.And(*[num(x) == y for x, y in zip(rs, rest)])):
                raise OutOfReach('shape of an array')
            return New(num(n), axis, ('zeros',), rest)

        def concat(z, a, k):
            ax = k.get('axis', a[1] if len(a) > 1 else 0)
            if ax not in (axis, axis - 4 if axis == 0 else -1):
                raise OutOfReach('axis')
            p = a[0]
            n = num(p[0].n)
            for x in p[1:]:
                n = n + num(x.n)
            return Block(z3.simplify(n), axis, ('concat', tuple(p)), rest)

        def hilb(z, a, k):
            if not isinstance(a[0], Col):
                raise OutOfReach('argument of hilbert_fredriksen')
            ker = a[1] if len(a) > 1 else k.get('ker')
            z.events.append(('hilbert', a[0], ker))
            return HCol(a[0])
        z = ZT(S, contracts={'np.zeros': zeros, 'np.concatenate': concat, 'hilbert_fredriksen': hilb,
                             'kernel_fredriksen': lambda z, a, k: Ker(2*num(a[0])), 'itertools.product': lambda z, a, k: Prod(a)})
        for state in ('none', 'some'):
            def run(z):
                z.assume(z3.And(L >= 0, D1 >= 0, D0 >= 0, K >= 1, KL >= 0, KR >= 0, I('old') >= 1))
                fp = ZObj('funcp', None, {'ht_ker': None if state == 'none' else Ker(2*I('old')), 'kpnt_left': KL, 'kpnt_right': KR})
                x = Block(K, axis, ('given',), rest)
                r = z.inline((mod, None, mod.funcs[fname]), [x, fp], {}, None)
                return x, fp, r, list(z.events)
            st = {k: [] for k in ('the kernel has the length of the extended grid', 'zeros are added on the left and on the right, as many as the grid was extended',
                                  'every column is transformed and stored in its place', 'the result is %s' % (
                                      'the padded array and its transform' if axis == 0 else 'the padded f and Re H f - i f'))}
            ks = list(st)
            n = 0
            for pc, r, ev in z.explore(run):
                n += 1
                if isinstance(r, Raised):
                    for k in ks:
                        st[k].append(False)
                    continue
                x, fp, res, ev = r
                ext = K + KL + KR

                def ok(c):
                    s = z3.Solver()
                    s.add(*z.axioms, *pc, z3.Not(c))
                    return s.check() == z3.unsat
                ker = fp.attrs['ht_ker']
                hs = [e for e in ev if e[0] == 'hilbert']
                st[ks[0]].append(isinstance(ker, Ker) and ok(num(ker.n) == 2*ext) and all(e[2] is ker for e in hs))
                if not isinstance(res, tuple) or len(res) != 2 or not isinstance(res[0], Block) or not isinstance(res[1], Block):
                    raise OutOfReach('result')
                p, h = res
                parts = p.word[1] if p.word[0] == 'concat' else ()
                st[ks[1]].append(len(parts) == 3 and parts[1] is x and all(q.word == ('zeros',) for q in (parts[0], parts[2])) and
                                 ok(num(parts[0].n) == KL) and ok(num(parts[2].n) == KR))
                cols = [e for e in ev if e[0] == 'column']
                rg = [e for e in ev if e[0] == 'range']
                good = len(cols) == 1 and len(rg) == len(rest) and len(hs) == 1
                if good:
                    _, arr, pos, v = cols[0]
                    # every index of the position is a loop variable, over its whole range
                    good = v.col.b is p and v.re == (axis == 1) and all(a.eq(b) for a, b in zip(pos, v.col.idx)) and len({str(a) for a in pos}) == len(pos)
                    for a, want in zip(pos, rest):
                        good = good and any(e[1].eq(a) and ok(e[2] == want) for e in rg)
                st[ks[2]].append(good)
                arr = cols[0][1] if cols else None
                if axis == 0:
                    st[ks[3]].append(h is arr and h is not None and ok(num(h.n) == ext))
                else:
                    w = h.word
                    g = w[0] == 'sum' and w[1] == 'Sub' and w[2] is arr and not w[4] and isinstance(w[3], Block) and w[3].word[0] == 'sum'
                    if g:
                        v = w[3].word
                        o = v[3]
                        g = v[1] == 'Mult' and v[2] is p and (o == 1j if isinstance(o, complex) else isinstance(o, Cx) and ok(z3.And(o.re == 0, o.im == 1)))
                    st[ks[3]].append(g)
            for k, l in st.items():
                good = bool(l) and all(l)
                out.append({'name': '%s (%s kernel before): %s' % (fname, 'no' if state == 'none' else 'any', k),
                            'status': 'proved' if good else 'undecided' if k != ks[0] else 'refuted',
                            'backend': 'symbolic execution and z3', 'detail': '%d paths' % n, 'functions': list(z.inlined)})
    return out


# ------------------------------------------------------------------------------------------------ energies and leads
def sweep(S, c):
    """TermsCalculator2vN.iterate: which step is done, for every energy and lead."""
    mod = S.module(FILE[c])
    cls = mod.classes.get('TermsCalculator2vN')
    if cls is None:
        raise OutOfReach('class TermsCalculator2vN')
    K, L = I('Eklen'), I('nleads')

    class G(object):
        def zlen(self, z):
            return K

        def zattr(self, z, n, node):
            return (K,) if n == 'shape' else None

    def ht(z, a, k):
        z.events.append(('transform', a[0]))
        return ('padded', 'transformed')
    con = {'get_htransf_phi1k': ht, 'np.asarray': lambda z, a, k: a[0]}
    for m in ('phi1k_local', 'phi1k_iterate'):
        con['TermsCalculator2vN.' + m] = (lambda m: lambda z, a, k: z.events.append((m, num(a[1]), num(a[2]))))(m)
    z = ZT(S, contracts=con)
    out = []
    for zeroth in (True, False):
        def run(z):
            kh = ZObj('kh', None, {'nleads': L})
            si = ZObj('si', None, {'nleads': L})
            V = lambda n: ZObj(n, None, {})
            fp = ZObj('funcp', None, {'kpnt_left': I('kpnt_left'), 'kpnt_right': I('kpnt_right')})
            names = ('Ek_grid_ext', 'fkp', 'fkm', 'hfkp', 'hfkm', 'phi1k_delta', 'kern1k_inv', 'phi1k')
            at = {n: V(n) for n in names}
            at.update(si=si, funcp=fp, Ek_grid=G(), kernel_handler=kh, is_zeroth_iteration=zeroth, qd=ZObj('qd', None, {'Ea': V('Ea')}),
                      leads=ZObj('leads', None, {'Tba': V('Tba')}))
            ap = ZObj('appr', None, at)
            o = ZObj('calculator', (mod, cls), {})
            z.call_method(o, z.S.method(mod, cls, '__init__'), [ap], {}, None)
            z.events.clear()
            z.call_method(o, z.S.method(mod, cls, 'iterate'), [], {}, None)
            return ap, o, list(z.events)
        bad, n = [], 0
        step = 'phi1k_local' if zeroth else 'phi1k_iterate'
        for pc, r, ev in z.explore(run):
            n += 1
            if isinstance(r, Raised):
                bad.append('raises %s' % r.what)
                continue
            ap, o, ev = r
            rg = [e for e in ev if e[0] == 'range']
            st = [e for e in ev if e[0].startswith('phi1k_')]
            if len(st) != 1 or len(rg) != 2:
                if len(st) == 1:
                    raise OutOfReach('loops of iterate')
                bad.append('steps %s' % [e[0] for e in st])
                continue

            def ok(cn):
                s = z3.Solver()
                s.add(*z.axioms, *pc, z3.Not(cn))
                return s.check() == z3.unsat
            if st[0][0] != step:
                bad.append('%s instead of %s' % (st[0][0], step))
            elif not (any(e[1].eq(st[0][1]) and ok(e[2] == K) for e in rg) and any(e[1].eq(st[0][2]) and ok(e[2] == L) for e in rg)):
                raise OutOfReach('loops of iterate')
            if ap.attrs['is_zeroth_iteration'] is not False:
                bad.append('is_zeroth_iteration is %s afterwards' % ap.attrs['is_zeroth_iteration'])
            tr = [k for k, e in enumerate(ev) if e[0] == 'transform']
            if not zeroth:
                if len(tr) != 1 or ev[tr[0]][1] is not ap.attrs['phi1k_delta'] or tr[0] > ev.index(st[0]):
                    bad.append('phi1k_delta is not transformed before the iteration')
                if o.attrs.get('phi1k_delta_old') != 'padded' or o.attrs.get('hphi1k_delta') != 'transformed':
                    bad.append('phi1k_delta and its transform are not those of the last iteration')
            want = {'Ek_grid_ext', 'fkp', 'phi1k_delta', 'kern1k_inv', 'hfkp', 'hfkm'}
            wrong = [x for x in want if o.attrs.get(x) is not ap.attrs[x]]
            if wrong:
                bad.append('%s are not those of the approach' % wrong)
        out.append(bool_ob('%s: the %s iteration does %s for every energy and lead%s, with the present data of the approach' % (
            NAME[c], 'zeroth' if zeroth else 'next', step, '' if zeroth else ', from the Hilbert transform of the last correction'),
            n and not bad, '; '.join(bad[:3])))
        out[-1]['functions'] = list(z.inlined)
    return out


# ------------------------------------------------------------------------------------------------ driver
class Arr(driver.Arr):
    def zbin(self, z, op, o, flip, node):
        if op == 'Add' and isinstance(o, driver.Arr):
            r = Arr(self.shape, Vec('sum', self.value(), o.value()), self.order)
            r.same_as = self
            return r
        raise OutOfReach('operation on an array')


def np_zeros(z, a, k):
    return Arr(a[0], ZERO, k.get('order', 'C'))


class V2(object):
    """What driver.World needs of an approach."""
    kind, elph = '2vN', False

    def __init__(self, S, c):
        self.S, self.compiled, self.name = S, c, NAME[c]

    def classes(self):
        mod = self.S.module(FILE[self.compiled])
        hm = self.S.module('qmeq/approach/kernel_handler.py')
        if 'Approach2vN' not in mod.classes:
            raise OutOfReach('class Approach2vN')
        return (mod, mod.classes['Approach2vN']), (hm, None)


HOOKS = ('prepare_energy_grid', 'prepare_distribution', 'iterate', 'determine_phi1_phi0', 'generate_kern', 'generate_current')


class World(driver.World):
    def __init__(self, z, V, opts):
        self.V = V
        driver.World.__init__(self, z, V, opts)

    def snap(self):
        return {k: (v, v.value()) for k, v in self.a.attrs.items() if isinstance(v, driver.Arr)}


def handler(kind):
    def f(z, a, k):
        o = ZObj(kind, None, {'si': a[0], 'version': a[0].attrs.get('version', 0), 'kern': None, 'phi0': None, 'dphi0_dt': None})
        for n in ('kern', 'phi0', 'dphi0_dt'):
            o.attrs['set_' + n] = Fn((lambda n: lambda z, b, kw: o.attrs.__setitem__(n, b[0]))(n))
        return o
    return f


def zed(V, hooks=HOOKS):
    con = {'np.zeros': np_zeros, 'np.asarray': driver.np_asarray, 'np.array': driver.np_array, 'np.copy': driver.np_array,
           'type': lambda z, a, k: ZObj('type', None, {'__name__': 'StateIndexingDMc'}),
           'Approach.generate_norm_vec': driver.norm_vec, 'np.linalg.solve': driver.solution_contract(V, 'solve'),
           'np.linalg.lstsq': driver.solution_contract(V, 'lstsq'),
           'KernelHandler': handler('KernelHandler'), 'KernelHandlerMatrixFree': handler('KernelHandlerMatrixFree')}

    def hook(m):
        def f(z, a, k):
            w = z.world
            z.events.append((m, w.snap(), w.a.attrs.get('is_zeroth_iteration'), w.a.attrs.get('niter')))
            at = w.a.attrs
            new = lambda n: at[n].set(Vec(m, n, next(driver._n)))
            if m == 'prepare_energy_grid':
                at['Ek_grid'] = Arr((I('kpnt'),), Vec('grid'))
                at['Ek_grid_ext'] = Arr((I('kpnt_ext'),), Vec('grid'))
            elif m == 'iterate':
                new('phi1k_delta')
                if at['is_zeroth_iteration']:
                    new('kern1k_inv')
                at['is_zeroth_iteration'] = False
            elif m == 'determine_phi1_phi0':
                for n in ('phi1_phi0', 'e_phi1_phi0'):
                    at[n].set(Vec('integral', n, at[n].value(), at['phi1k'].value()))
            elif m == 'generate_kern':
                at['kern'].set(Vec('generated', at['kern'].value(), at['phi1_phi0'].value()))
            elif m == 'generate_current':
                for n in ('phi1', 'h_phi1', 'current', 'energy_current', 'heat_current'):
                    at[n].set(Vec('from', n, at[n].value(), at['phi0'].value()))
        return f
    for m in hooks:
        for c in ('Approach2vN', 'ApproachBase2vN', 'Approach2vNPy'):
            con['%s.%s' % (c, m)] = hook(m)
    return Z(V.S, contracts=con)


def zlen_patch():
    if not hasattr(driver.Arr, 'zlen'):
        driver.Arr.zlen = lambda self, z: self.shape[0]


OUTPUT = ('current', 'energy_current', 'heat_current')
SUMS = ('phi1_phi0', 'e_phi1_phi0')
ORDER = ['iterate', 'determine_phi1_phi0', 'generate_kern', 'generate_current']


def base(v):
    return v is ZERO


def iteration(V):
    """One iteration from any state of the object."""
    zlen_patch()
    z = zed(V)
    st = {}

    def say(what, ok, when):
        st.setdefault(what, []).append((when, bool(ok)))
    cases = [(sym, ch) for sym in (True, False) for ch in ('new', 'again', 'restarted', 'other states and restarted', 'symq changed', 'prepared by hand')]
    for sym, ch in cases:
        def run(z):
            w = World(z, V, dict(mfreeq=False, symq=sym, norm_row=I('norm_row'), solmethod=None, kpnt=I('kpnt')))
            z.world = w
            at = w.a.attrs
            if ch != 'new':
                w.call('iteration')
                for n, x in w.arrays().items():
                    if n != 'norm_vec':
                        x.dirty()
                if 'states' in ch:
                    w.change_states()
                if 'restarted' in ch:
                    w.call('restart')
                if ch == 'symq changed':
                    w.setopt('symq', not sym)
                if ch == 'prepared by hand':
                    w.call('prepare_kern')
            z.events.clear()
            at['success'] = 'stale'
            before = w.snap()
            flags = (at['is_zeroth_iteration'], at['niter'], len(at['iters']))
            w.call('iteration')
            return w, before, flags, list(z.events)
        for pc, r, ev in z.explore(run):
            when = '%s, symq %s' % (ch, sym)
            if isinstance(r, Raised):
                say('no exception', False, when + ': ' + str(r.what))
                continue
            w, before, (zeroth, niter, nit), ev = r
            at = w.a.attrs
            names = [e[0] for e in ev if e[0] in HOOKS]
            say('the steps and their order', names == (['prepare_energy_grid', 'prepare_distribution'] if zeroth else []) + ORDER, when)
            E = {e[0]: e[1] for e in ev if e[0] in HOOKS}
            if not set(ORDER) <= set(E):
                say('the steps and their order', False, when)
                continue
            s1, s2, s3 = E['iterate'], E['determine_phi1_phi0'], E['generate_kern']
            for n in SUMS:
                say('%s is zero before it is accumulated' % n, s2.get(n) and base(s2[n][1]), when)
            say('kern and bvec are zero before they are generated', all(s3.get(n) and base(s3[n][1]) for n in ('kern', 'bvec')), when)
            say('currents are zero before they are accumulated', all(base(E['generate_current'][n][1]) for n in OUTPUT), when)
            N = ('phi1k', 'phi1k_delta', 'kern1k_inv')
            if zeroth:
                say('the zeroth iteration starts from phi1k = 0', base(s1['phi1k'][1]), when)
            else:
                say('phi1k, its correction and the local kernels are those of the last iteration', all(s1[n][1] is before[n][1] for n in N), when)
            old = s1['phi1k'][1]
            x = s2['phi1k'][1]
            say('phi1k grows by the correction of this iteration', x.kind == 'sum' and {id(y) for y in x.data} == {id(old), id(s2['phi1k_delta'][1])} and
                s2['phi1k_delta'][1].kind == 'iterate', when)
            y = s3['phi1_phi0'][1]
            say('the equations are made from the present energy integrals', y.kind == 'integral' and y.data[2] is x, when)
            g = E['generate_current']['phi0'][1]
            if at.get('success') is True:
                say('phi0 solves the generated equations', g.kind in ('solution', 'first') and (g.data[0] if g.kind == 'solution' else g.data[0].data[0]).kind == 'generated', when)
            elif at.get('success') is False:
                say('phi0 is zero when the equations cannot be solved', base(g), when)
            say('success is set', at.get('success') in (True, False), when)
            say('niter counts the iterations', valid(z, num(at['niter']) == num(niter) + 1) if not isinstance(niter, int) else at['niter'] == niter + 1, when)
            say('the zeroth iteration is done once', at['is_zeroth_iteration'] is False, when)
            it = at['iters']
            good = isinstance(it, list) and len(it) == nit + 1
            if good:
                o = it[-1].attrs
                good = all(isinstance(o.get(n), driver.Arr) and o[n] is not at[n] and o[n].value() is at[n].value() or
                           isinstance(o.get(n), driver.Arr) and o[n] is not at[n] and str(o[n].value()) == str(at[n].value()) for n in ('phi0', 'phi1') + OUTPUT)
            say('a copy of the results of every iteration is kept', good, when)
            nl, d0, d1, K = I('nleads'), at['si'].attrs['ndm0'], at['si'].attrs['ndm1'], I('kpnt')
            shapes = {'phi1': (nl, d1), 'h_phi1': (nl, d1), 'phi1_phi0': (nl, d1, d0), 'e_phi1_phi0': (nl, d1, d0), 'phi0': (d0,),
                      'kern': (d0 if w.funcp.attrs['symq'] else d0 + 1, d0)}
            if zeroth:
                shapes.update(phi1k=(K, nl, d1, d0), phi1k_delta=(K, nl, d1, d0), kern1k_inv=(K, nl, d1, d1))
            for n, sh in shapes.items():
                a = at.get(n)
                ok = isinstance(a, driver.Arr) and len(a.shape) == len(sh)
                if ok:
                    s = z3.Solver()
                    s.add(*z.axioms, *pc, z3.Or(*[num(p) != num(q) for p, q in zip(a.shape, sh)]))
                    ok = s.check() == z3.unsat
                say('shape of %s' % n, ok, when)
    return st, z


def driver_obs(V):
    st, z = iteration(V)
    r = []
    for what, l in st.items():
        bad = [t for t, c in l if not c]
        r.append({'name': '%s.iteration, from any state of the object: %s' % (V.name, what), 'status': 'refuted' if bad else 'proved',
                  'backend': 'symbolic execution and z3', 'detail': 'fails for %s' % bad[:2] if bad else '%d histories' % len(l),
                  'functions': list(z.inlined)})
    return r


class Times(object):
    """A symbolic number of iterations."""


class Rep(object):
    def zloop(self, z, st, env, mod):
        z.events.append('{')
        arbitrary(z, st, env, mod, fresh('it'))
        z.events.append('}')


def solve(V):
    """solve(niter=n): restart iff asked, diagonalise and rotate iff asked, then exactly n iterations."""
    z = zed(V)
    z.contracts['range'] = lambda z, a, k: Rep() if len(a) == 1 and isinstance(a[0], Times) else range(*a)
    for c in ('Approach2vN', 'ApproachBase2vN', 'Approach2vNPy'):
        z.contracts[c + '.iteration'] = lambda z, a, k: z.events.append('iteration')
        z.contracts[c + '.restart'] = lambda z, a, k: z.events.append('restart')
    bad, n = [], 0
    for q, ro, ma, re, ni, fi in itertools.product((False, True), (False, True), (False, True), (False, True), (True, False), (False, True)):
        def run(z):
            w = World(z, V, dict(mfreeq=False, symq=True, norm_row=I('norm_row'), solmethod=None, kpnt=I('kpnt')))
            z.world = w
            w.qd.attrs['diagonalise'] = Fn(lambda z, a, k: z.events.append('diagonalise'))
            w.leads.attrs['rotate'] = Fn(lambda z, a, k: z.events.append('rotate' if a and a[0] is w.qd.attrs['vecslst'] else 'rotate ' + str(a)))
            z.events.clear()
            kw = dict(qdq=q, rotateq=ro, masterq=ma, restartq=re)
            if ni:
                kw['niter'] = Times()
            if fi:
                kw['func_iter'] = Fn(lambda z, a, k: z.events.append('user function' if a == [w.a] else 'user function of something else'))
            z.call_method(w.a, z.S.method(w.mod, w.cls, 'solve'), [], kw, None)
        want = (['restart'] if re else []) + (['diagonalise'] if q else []) + (['rotate'] if q and ro else [])
        if ma:
            want += ['{', 'iteration'] + (['user function'] if fi else []) + ['}'] if ni else ['ValueError']
        for pc, r, ev in z.explore(run):
            n += 1
            got = list(ev) + ([str(r.what).split('(')[0]] if isinstance(r, Raised) else [])
            if got != want:
                bad.append('%s: %s' % ((q, ro, ma, re, ni, fi), got))
    o = bool_ob('%s.solve: restart, diagonalise and rotate as asked, then niter iterations of the same kind, whatever was done before' % V.name,
                n and not bad, '; '.join(bad[:2]))
    o['functions'] = list(z.inlined)
    return [o]


def restarted(V):
    """restart() leaves nothing of earlier iterations."""
    zlen_patch()
    z = zed(V)

    def run(z):
        w = World(z, V, dict(mfreeq=False, symq=True, norm_row=I('norm_row'), solmethod=None, kpnt=I('kpnt')))
        z.world = w
        fresh_ = {k: list(v) if isinstance(v, list) else v for k, v in w.a.attrs.items()}
        w.call('iteration')
        w.call('iteration')
        w.call('restart')
        return w, fresh_
    keep = ('Ek_grid', 'Ek_grid_ext', 'fkp', 'fkm', 'hfkp', 'hfkm', 'success', 'replaced_eq')
    bad, n = [], 0
    for pc, r, ev in z.explore(run):
        n += 1
        if isinstance(r, Raised):
            bad.append('raises %s' % r.what)
            continue
        w, f = r
        for k, v in w.a.attrs.items():
            if k in keep:
                continue
            if k not in f or not (f[k] is v or f[k] == v):
                bad.append('%s = %s' % (k, v))
    o = bool_ob('%s.restart: every attribute is that of a new object, except the energy grid and distributions (made again by the zeroth iteration), '
                'success and the buffer of the replaced equation' % V.name, n and not bad, '; '.join(bad[:3]))
    o['functions'] = list(z.inlined)
    return [o]


def energy_grid(V):
    """make_Ek_grid: the grid of the present bands and number of points, whatever grid there was."""
    DM, DP, KP = R('dmin'), R('dmax'), I('kpnt')

    class Lst(object):
        def zattr(self, z, n, node):
            if n == 'T':
                return self
            raise OutOfReach('attribute %s of dlst' % n)

        def zget(self, z, idx, node):
            return self

    class Any(object):
        def zattr(self, z, n, node):
            if n == 'tolist':
                return Fn(lambda z, a, k: self)
            raise OutOfReach('attribute %s' % n)

        def zget(self, z, idx, node):
            return self

        def zbin(self, z, op, o, flip, node):
            return self

        def zcmp(self, z, op, o, flip, node):
            return z3.Bool('other bands!%d' % next(driver._n))

    class G(object):
        def __init__(self, a, b, n):
            self.a, self.b, self.n = a, b, n

        def zlen(self, z):
            return self.n

        def zattr(self, z, n, node):
            if n == 'shape':
                return (self.n,)
            raise OutOfReach('attribute %s of the grid' % n)

        def zget(self, z, idx, node):
            if idx == [0]:
                return self.a
            if idx == [-1]:
                return self.b
            raise OutOfReach('element of the grid')
    con = {'np.min': lambda z, a, k: DM, 'np.max': lambda z, a, k: DP, 'np.linspace': lambda z, a, k: G(real(a[0]), real(a[1]), num(a[2])),
           'np.ones': lambda z, a, k: Any(), 'str': lambda z, a, k: 'text', 'min': lambda z, a, k: DM, 'max': lambda z, a, k: DP}
    for c in ('Approach2vN', 'ApproachBase2vN', 'Approach2vNPy'):
        con[c + '.restart'] = lambda z, a, k: z.events.append('restart')
    z = Z(V.S, contracts=con)
    (mod, cls), _ = V.classes()

    class D(Any):
        pass
    out = []
    for old in ('new', 'any'):
        def run(z):
            z.assume(z3.And(DM < DP, KP >= 2, I('nleads') > 0, R('a') < R('b'), I('k') >= 2))
            d = D()
            d.zattr = lambda z, n, node: Any()
            fp = ZObj('funcp', None, {'kpnt': KP, 'dmin': R('a') if old == 'any' else z3.RealVal(0), 'dmax': R('b') if old == 'any' else z3.RealVal(0)})
            # invariant: a grid that is there was made from funcp.dmin, funcp.dmax; a new object has one point
            g = G(R('a'), R('b'), I('k')) if old == 'any' else G(z3.RealVal(0), z3.RealVal(0), z3.IntVal(1))
            o = ZObj('appr', (mod, cls), {'funcp': fp, 'si': ZObj('si', None, {'nleads': I('nleads')}), 'Ek_grid': g, 'niter': -1,
                                          'leads': ZObj('leads', None, {'dlst': d})})
            z.call_method(o, z.S.method(mod, cls, 'make_Ek_grid'), [], {}, None)
            g = o.attrs['Ek_grid']
            if not isinstance(g, G):
                raise OutOfReach('energy grid')
            return z3.And(g.a == DM, g.b == DP, g.n == KP, real(fp.attrs['dmin']) == DM, real(fp.attrs['dmax']) == DP)
        ps = z.explore(run)
        out.append(allpaths('%s.make_Ek_grid: the grid is that of the present bands and kpnt (%s)' % (V.name, 'new object' if old == 'new' else 'after any earlier grid'),
                            z, ps, lambda r, ev: z3.BoolVal(False) if isinstance(r, Raised) else r))
    return out


def wrappers(V):
    """prepare_energy_grid makes the grid, its limits and its extension in an order in which each uses the present values of the others;
    iterate hands this very object to a calculator of its own form."""
    (mod, cls), _ = V.classes()
    z = Z(V.S)
    steps = ['make_Ek_grid', 'determine_emin_emax', 'determine_grid_ext']

    def grid(z):
        o = ZObj('appr', (mod, cls), {n: Fn(lambda z, a, k, n=n: z.events.append(n)) for n in steps})
        z.call_method(o, z.S.method(mod, cls, 'prepare_energy_grid'), [], {}, None)

    def order(r, ev):
        if isinstance(r, Raised) or sorted(set(ev)) != sorted(steps):
            return z3.BoolVal(False)
        last = {n: max(i for i, x in enumerate(ev) if x == n) for n in steps}
        return z3.BoolVal(last[steps[0]] < last[steps[1]] < last[steps[2]])
    out = [allpaths('%s.prepare_energy_grid: grid, limits, extension' % V.name, z, z.explore(grid), order)]
    z = Z(V.S)
    m2 = V.S.module(FILE[V.compiled])

    def calc(z, a, k):
        if len(a) + len(k) != 1:
            raise Raised('TypeError')
        o = ZObj(CALC, (m2, m2.classes[CALC]), {})
        z.call_method(o, z.S.method(m2, m2.classes[CALC], '__init__'), list(a), dict(k), None)
        o.attrs['iterate'] = Fn(lambda z, a, k: z.events.append(o.attrs.get('appr')))
        return o
    z.contracts = {CALC: calc}
    box = []

    def one(z):
        o = ZObj('appr', (mod, cls), {})
        box[:] = [o]
        z.call_method(o, z.S.method(mod, cls, 'iterate'), [], {}, None)
        return o
    out.append(allpaths('%s.iterate: one iteration of the calculator of this object' % V.name, z, z.explore(one),
                        lambda r, ev: z3.BoolVal(not isinstance(r, Raised) and len(ev) == 1 and ev[0] is r)))
    return out


ASSUME = {p: ['numpy.linspace and numpy.arange give equidistant grids; fft and ifft are linear, inverse to each other and conjugate-symmetric for real data',
              'the loop over grid points, energies and leads acts on every index of its range once'] for p in ('C19', 'C10', 'C15')}
CALC, APPR = 'TermsCalculator2vN', 'Approach2vN'
PY, CY, APR = FILE[False], FILE[True], 'qmeq/approach/aprclass.py'
SELF = {'C19': [(PY, CALC, 'func_2vN'), (CY, CALC, 'get_at_k1'), (SPEC, None, 'kernel_fredriksen'), (APR, 'ApproachBase2vN', 'iteration'),
                (APR, 'ApproachBase2vN', 'clean_arrays')],
        'C10': [(CY, CALC, 'get_at_k1'), (CY, APPR, 'determine_phi1_phi0')],
        'C15': [(APR, 'ApproachBase2vN', 'restart'), (PY, APPR, 'make_Ek_grid')]}


def obligations(prop, S):
    r = []
    if prop not in ('C19', 'C10', 'C15'):
        return r
    if prop in ('C19', 'C10'):
        for c in (False, True):
            for m in ('func_2vN', 'get_at_k1'):
                r += guarded('%s.%s' % (NAME[c], m), interpolation, S, c, m)
            r += guarded('%s.determine_phi1_phi0' % NAME[c], trapezoid, S, c, prop == 'C10')
    if prop == 'C19':
        r += guarded('hilbert_fredriksen', hilbert, S)
        r += guarded('kernel_fredriksen', kernel, S)
        r += guarded('transforms on the extended grid', transforms, S)
    if prop in ('C19', 'C10'):
        for c in (False, True):
            r += guarded('%s iterate' % NAME[c], sweep, S, c)
    for c in (False, True):
        V = V2(S, c)
        if prop == 'C19':
            r += guarded('%s solve' % V.name, solve, V)
            r += guarded('%s wrappers' % V.name, wrappers, V)
        if prop in ('C19', 'C15'):
            r += guarded('%s iteration' % V.name, driver_obs, V)
        if prop == 'C15':
            r += guarded('%s restart' % V.name, restarted, V)
            r += guarded('%s grid' % V.name, energy_grid, V)
    return r
