"""2vN: the extended energy grid and the distributions on it (Approach2vN.determine_grid_ext, determine_emin_emax, prepare_distribution).

Energies are measured in units of the grid step, so that the grid is d0, d0+1, ..., d0+kpnt-1 with an arbitrary real d0 and an arbitrary
number of points; numpy.arange, sort and concatenate are used by contract."""
import z3
from .zx import Z, ZObj, Fn, Raised, allpaths, num, real, EXP, SymRange
from .sx import OutOfReach
from .master import guarded
from .iter2vn import V2

I, R = z3.Int, z3.Real
D0, K = R('d0'), I('kpnt')


class Prog(object):
    """a, a + s, ..., a + (n-1) s with s = 1 or -1."""
    def __init__(self, a, s, n, own=None):
        self.a, self.s, self.n, self.own = real(num(a)), s, num(n), own

    def zlen(self, z):
        return self.n

    def zattr(self, z, n, node):
        if n == 'shape':
            return (self.n,)
        if n == 'size':
            return self.n
        raise OutOfReach('attribute %s of a grid' % n)

    def zget(self, z, idx, node):
        if len(idx) != 1:
            raise OutOfReach('element of a grid')
        i = idx[0]
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) == (None, None, -1):
                return self.rev()
            raise OutOfReach('part of a grid')
        i = (self.n + i) if isinstance(i, int) and i < 0 else num(i)
        return z3.simplify(self.a + self.s*z3.ToReal(i))

    def rev(self):
        return Prog(self.a + self.s*z3.ToReal(self.n - 1), -self.s, self.n)

    def zbin(self, z, op, o, flip, node):
        o = num(o)
        if op == 'Mult' and z3.is_true(z3.simplify(real(o) == -1)):
            return Prog(-self.a, -self.s, self.n)
        if op == 'Add':
            return Prog(self.a + real(o), self.s, self.n)
        if op == 'Sub':
            return Prog(real(o) - self.a, -self.s, self.n) if flip else Prog(self.a - real(o), self.s, self.n)
        raise OutOfReach('operator %s on a grid' % op)


class Joined(object):
    def __init__(self, parts):
        self.parts = parts

    def zlen(self, z):
        return sum(p.n for p in self.parts)

    def zattr(self, z, n, node):
        if n == 'shape':
            return (self.zlen(z),)
        raise OutOfReach('attribute %s of a grid' % n)


def arange(z, a, k):
    if len(a) != 3 or k:
        raise OutOfReach('arange')
    lo, hi, s = [real(num(x)) for x in a]
    s = z3.simplify(s)
    if not z3.is_rational_value(s) or abs(s.as_fraction()) != 1:
        raise OutOfReach('step of arange')
    s = int(s.as_fraction())
    n = z3.FreshInt('count')
    d = (hi - lo)*s
    z.assume(z3.And(n >= 0, z3.Implies(d <= 0, n == 0), z3.Implies(d > 0, z3.And(z3.ToReal(n) >= d, z3.ToReal(n) < d + 1))))
    return Prog(lo, s, n)


def sort(z, a, k):
    if not isinstance(a[0], Prog):
        raise OutOfReach('sort')
    return a[0] if a[0].s > 0 else a[0].rev()


def concat(z, a, k):
    p = list(a[0])
    if not all(isinstance(x, Prog) for x in p):
        raise OutOfReach('concatenate')
    return Joined(p)


def extended(V):
    z = Z(V.S, contracts={'np.arange': arange, 'np.sort': sort, 'np.flip': lambda z, a, k: a[0].rev(), 'np.concatenate': concat, 'np.append': lambda z, a, k: concat(z, [list(a)], k),
                          'np.hstack': concat})
    (mod, cls), _ = V.classes()
    lo, hi, f = R('emin'), R('emax'), R('ext_fct')
    dmax = D0 + z3.ToReal(K - 1)

    def run(z):
        # emin, emax contain the band (contract of determine_emin_emax)
        z.assume(z3.And(K >= 2, lo <= D0, hi >= dmax, f >= 1))
        fp = ZObj('funcp', None, {'emin': lo, 'emax': hi, 'dmin': D0, 'dmax': dmax, 'ext_fct': f, 'kpnt': K, 'kpnt_left': I('old.l'), 'kpnt_right': I('old.r')})
        g = Prog(D0, 1, K)
        o = ZObj('appr', (mod, cls), {'funcp': fp, 'Ek_grid': g, 'Ek_grid_ext': Joined([]), 'si': ZObj('si', None, {'nleads': I('nleads')})})
        z.call_method(o, z.S.method(mod, cls, 'determine_grid_ext'), [], {}, None)
        e = o.attrs['Ek_grid_ext']
        if not isinstance(e, Joined) or len(e.parts) != 3 or e.parts[1] is not g or o.attrs['Ek_grid'] is not g:
            raise OutOfReach('extended grid')
        return e.parts, fp
    ps = z.explore(run)
    n = V.name + '.determine_grid_ext: '

    def part(f):
        return lambda r, ev: z3.BoolVal(False) if isinstance(r, Raised) else f(r[0][0], r[0][2], r[1].attrs)
    # products with ext_fct: f*x >= x for x >= 0 and f >= 1
    hy = [f*(D0 - lo) >= D0 - lo, f*(hi - dmax) >= hi - dmax]
    last = lambda p: p.a + p.s*z3.ToReal(p.n - 1)
    return [allpaths(n + 'the extended grid is equidistant with the step of the grid', z, ps,
                     part(lambda l, r, at: z3.And(z3.Implies(l.n >= 1, last(l) + 1 == D0), z3.Implies(l.n >= 2, z3.BoolVal(l.s == 1)),
                                                  z3.Implies(r.n >= 1, r.a == dmax + 1), z3.Implies(r.n >= 2, z3.BoolVal(r.s == 1)))), hyps=hy, definite=False),
            allpaths(n + 'kpnt_left and kpnt_right are the numbers of points added', z, ps,
                     part(lambda l, r, at: z3.And(num(at['kpnt_left']) == l.n, num(at['kpnt_right']) == r.n)), hyps=hy),
            allpaths(n + 'the extended grid covers emin and emax', z, ps,
                     part(lambda l, r, at: z3.And(z3.If(l.n >= 1, l.a, D0) <= lo, z3.If(r.n >= 1, last(r), dmax) >= hi)), hyps=hy, definite=False)]


class Bag(object):
    """The list of energies: what is appended in an arbitrary turn of a loop."""
    def __init__(self):
        self.items = []


class ZB(Z):
    """Loops over states and charges: one arbitrary turn, or none."""
    def loop(self, st, env, mod):
        import ast
        if not self.decide(z3.FreshConst(z3.BoolSort(), 'turn')):
            return
        for t in ast.walk(st.target):
            if isinstance(t, ast.Name):
                env[t.id] = z3.FreshInt(t.id)
        self.block(st.body, env, mod)


def limits(V):
    E = z3.Function('E', z3.IntSort(), z3.RealSort())

    class Ea(object):
        def zget(self, z, idx, node):
            return E(num(idx[0]))

    class Any(object):
        def zget(self, z, idx, node):
            return self

    def ext(big):
        def f(z, a, k):
            l = a[0] if len(a) == 1 else list(a)
            if not isinstance(l, list):
                raise OutOfReach('max')
            r = z3.FreshReal('max' if big else 'min')
            for x in l:
                z.assume(r >= real(num(x)) if big else r <= real(num(x)))
            z.assume(z3.Or(*[r == real(num(x)) for x in l], z3.FreshConst(z3.BoolSort(), 'other')))
            return r
        return f
    con = {k: ext(b) for b, m in ((True, 'max'), (False, 'min')) for k in (m, 'np.' + m, 'np.a' + m)}
    z = ZB(V.S, contracts=con)
    (mod, cls), _ = V.classes()
    a, b = R('dmin'), R('dmax')

    def run(z):
        z.assume(a < b)
        fp = ZObj('funcp', None, {'dmin': a, 'dmax': b, 'emin': R('old.emin'), 'emax': R('old.emax')})
        o = ZObj('appr', (mod, cls), {'funcp': fp, 'qd': ZObj('qd', None, {'Ea': Ea()}),
                                      'si': ZObj('si', None, {'ncharge': I('ncharge'), 'statesdm': Any()})})
        z.call_method(o, z.S.method(mod, cls, 'determine_emin_emax'), [], {}, None)
        return real(fp.attrs['emin']), real(fp.attrs['emax'])
    return allpaths(V.name + '.determine_emin_emax: the interval contains the band', z, z.explore(run),
                    lambda r, ev: z3.BoolVal(False) if isinstance(r, Raised) else z3.And(r[0] <= a, r[1] >= b), definite=False)


X = R('E')


class El(object):
    """A real function on the grid: its value at an arbitrary point E."""
    def __init__(self, e):
        self.e = e

    def zlen(self, z):
        return K

    def zattr(self, z, n, node):
        if n in ('shape', 'size'):
            return (K,) if n == 'shape' else K
        raise OutOfReach('attribute %s of a grid' % n)

    def zbin(self, z, op, o, flip, node):
        a, b = self.e, o.e if isinstance(o, El) else real(num(o))
        if flip:
            a, b = b, a
        return El(real(z.binop(op, a, b, node)))


class Mat(object):
    """Functions on the grid for every lead; `at` maps lead to the value at E, None: not yet made."""
    def __init__(self, at=None):
        self.at = at

    def zset(self, z, idx, v, node):
        if len(idx) == 2 and isinstance(idx[1], slice) and idx[1] == slice(None, None, None):
            idx = idx[:1]
        if len(idx) != 1 or not isinstance(v, El) or self.at is not None or not (isinstance(idx[0], z3.ArithRef) and idx[0].eq(z.turn)):
            raise OutOfReach('row of an array')
        l, e = z.turn, v.e
        self.at = lambda i: z3.substitute(e, (l, num(i)))

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice) or self.at is None:
            raise OutOfReach('row of an array')
        return El(self.at(idx[0]))

    def zbin(self, z, op, o, flip, node):
        if self.at is None:
            raise OutOfReach('array')
        f = self.at
        g = o.at if isinstance(o, Mat) else lambda i: real(num(o))
        return Mat((lambda i: real(z.binop(op, g(i), f(i), node))) if flip else (lambda i: real(z.binop(op, f(i), g(i), node))))


class ZD(Z):
    """Loop over leads: an arbitrary turn of a loop over all of them."""
    turn = None

    def loop(self, st, env, mod):
        it = self.ev(st.iter, env, mod)
        if not isinstance(it, SymRange) or len(it.args) != 1 or not z3.is_true(z3.simplify(num(it.args[0]) == I('nleads'))):
            raise OutOfReach('loop')
        old = self.turn
        self.turn = z3.FreshInt('l')
        self.assume(z3.And(self.turn >= 0, self.turn < I('nleads')))
        self.bind(st.target, self.turn, env, mod, st)
        self.block(st.body, env, mod)
        self.turn = old


class Pad(object):
    def __init__(self, x, what):
        self.x, self.what = x, what


def distribution(V, prop):
    MU, TL = [z3.Function(n, z3.IntSort(), z3.RealSort()) for n in ('mu', 'T')]

    class Row(object):
        def __init__(self, f):
            self.f = f

        def zget(self, z, idx, node):
            return self.f(num(idx[0]))

    def zeros(z, a, k):
        sh = a[0]
        if not isinstance(sh, tuple) or len(sh) != 2 or not z3.is_true(z3.simplify(z3.And(num(sh[0]) == I('nleads'), num(sh[1]) == K))):
            raise OutOfReach('shape')
        return Mat()

    def expo(z, a, k):
        return El(EXP(z, a[0].e)) if isinstance(a[0], El) else EXP(z, real(num(a[0])))

    def htr(z, a, k):
        if not isinstance(a[0], Mat):
            raise OutOfReach('argument of get_htransf_fk')
        return (Pad(a[0], 'padded'), Pad(a[0], 'transform'))
    z = ZD(V.S, contracts={'np.zeros': zeros, 'np.empty': zeros, 'np.exp': expo, 'get_htransf_fk': htr, 'range': lambda z, a, k: SymRange(a)})
    (mod, cls), _ = V.classes()
    i = I('lead')

    def run(z):
        z.assume(z3.And(I('nleads') >= 1, K >= 2, i >= 0, i < I('nleads')))
        old = {n: Pad(None, 'old') for n in ('fkp', 'fkm', 'hfkp', 'hfkm')}
        o = ZObj('appr', (mod, cls), dict(old, funcp=ZObj('funcp', None, {'kpnt': K}), si=ZObj('si', None, {'nleads': I('nleads')}), Ek_grid=El(X),
                                          leads=ZObj('leads', None, {'mulst': Row(MU), 'tlst': Row(TL)})))
        z.call_method(o, z.S.method(mod, cls, 'prepare_distribution'), [], {}, None)
        at = o.attrs
        for n in old:
            if not isinstance(at[n], Pad) or at[n].what != 'old' and at[n].x.at is None:
                raise OutOfReach(n)
        f = 1/(EXP(z, (X - MU(i))/TL(i)) + 1)
        r, made = [], []
        for n in old:
            p = at[n]
            made.append(z3.BoolVal(p.what != 'old'))
            if p.what == 'old':
                r.append(z3.BoolVal(False))
                continue
            r += [z3.BoolVal(p.what == ('transform' if n[0] == 'h' else 'padded')), p.x.at(i) == (f if n[-1] == 'p' else 1 - f)]
        return z3.And(*r), z3.And(*made)
    ps = z.explore(run)
    n = V.name + '.prepare_distribution: '
    r = [allpaths(n + 'the Fermi functions of the present leads, their complements, and the transforms of each', z, ps,
                  lambda r, ev: z3.BoolVal(False) if isinstance(r, Raised) else r[0], definite=False)]
    if prop == 'C15':
        r.append(allpaths(n + 'nothing is kept of earlier distributions', z, ps, lambda r, ev: z3.BoolVal(False) if isinstance(r, Raised) else r[1]))
    return r


def obligations(prop, S):
    r = []
    if prop in ('C19', 'C15'):
        for c in (False, True):
            V = V2(S, c)
            if prop == 'C19':
                r += guarded('%s.determine_grid_ext' % V.name, extended, V)
                r += guarded('%s.determine_emin_emax' % V.name, limits, V)
            r += guarded('%s.prepare_distribution' % V.name, distribution, V, prop)
    return r
