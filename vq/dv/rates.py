"""Rate factors: fermi_func, func_pauli, func_1vN and the phonon functions, compiled and pure Python, for all real inputs.

exp is known to z3 by: positive, exp(x)exp(-x) = 1, above or below 1 with the sign of x; log and digamma are functions about
which nothing is known; quad is a function of its integrand, limits and pole."""
import math
import z3
from .zx import Z, ZObj, ZArr, Cx, Fn, Raised, EXP, LOGF, PI, allpaths, real, cx, prove
from .src import OutOfReach
from .master import guarded, bool_ob

I, R = z3.Int, z3.Real
RR = z3.RealSort()
_dre, _dim = z3.Function('digamma.re', RR, RR, RR), z3.Function('digamma.im', RR, RR, RR)


def digamma(z, a, k):
    c = cx(a[0])
    return Cx(_dre(c.re, c.im), _dim(c.re, c.im))


def integrand(f):
    """Name of the function integrated."""
    if isinstance(f, tuple) and f[0] == 'func':
        return f[2].name
    m = getattr(f, 'm', None)
    if m is not None:
        return m[2].name
    raise OutOfReach('integrand')


def quad(z, a, k):
    n = integrand(a[0])
    if k.get('weight') != 'cauchy':
        raise OutOfReach('quad with weight %r' % (k.get('weight'),))
    F = z3.Function('pv.' + n, RR, RR, RR, RR)
    return (F(real(a[1]), real(a[2]), real(k['wvar'])), R('quad.err'))


def logc(z, a, k):
    x = real(a[0])
    z.events.append(('log', x))
    return LOGF(x)


def zed(S):
    return Z(S, contracts={'digamma': digamma, 'quad': quad, 'log': logc, 'np.log': logc})


FILES = {True: 'qmeq/specfunc/c_specfunc.pyx', False: 'qmeq/specfunc/specfunc.py'}
FILES_ELPH = {True: 'qmeq/specfunc/c_specfunc_elph.pyx', False: 'qmeq/specfunc/specfunc_elph.py'}


def nm(c, n):
    return ('' if c else 'py') + n


def fn(S, c, name):
    mod = S.module(FILES[c])
    if name not in mod.funcs:
        raise OutOfReach('%s in %s' % (name, FILES[c]))
    return (mod, None, mod.funcs[name])


def fermi(z, S, c, x):
    return real(z.inline(fn(S, c, 'fermi_func'), [x], {}, None))


def pauli(z, S, c, a):
    if c:
        rez = ZArr('rez', 1)
        z.inline(fn(S, c, 'func_pauli'), list(a) + [rez], {}, None)
        return [real(rez.read([i])) for i in (0, 1)]
    return [real(v) for v in z.inline(fn(S, c, 'func_pauli'), list(a), {}, None)]


def f1vn(z, S, c, a):
    if c:
        rez = ZArr('rez', 1, 'cx')
        z.inline(fn(S, c, 'func_1vN'), list(a) + [rez], {}, None)
        return [cx(rez.read([i])) for i in range(4)]
    return [cx(v) for v in z.inline(fn(S, c, 'func_1vN'), list(a), {}, None)]


def params(z, itype=None):
    E, mu, T, Dm, Dp = R('E'), R('mu'), R('T'), R('Dm'), R('Dp')
    z.assume(z3.And(T > 0, Dm < Dp, Dm < 0, Dp > 0))
    return [E, mu, T, Dm, Dp]


def band(a):
    E, mu, T, Dm, Dp = a
    return z3.And(Dm < E, E < Dp)


def ok(r, ev):
    return z3.BoolVal(False) if isinstance(r, Raised) else r


def one(S, name, f):
    z = zed(S)
    return allpaths(name, z, z.explore(f), ok)


def constants(S, c, elph):
    """pi of the module is pi (real arithmetic is used in the proofs; the double must be the nearest one)."""
    mod = S.module((FILES_ELPH if elph else FILES)[c])
    name = '%s: pi' % mod.rel
    v = mod.consts.get('pi')
    if v is None:
        d = mod.imports.get('pi', (None,))[0]
        return bool_ob(name, d in ('numpy', 'scipy', 'math', 'np'), 'pi comes from %s' % d, definite=False)
    import ast
    x = ast.literal_eval(v)
    return bool_ob(name, x == math.pi, 'pi = %r' % x)


def fermi_bounds(S, c):
    def f(z):
        x = R('x')
        v = fermi(z, S, c, x)
        e = EXP(z, x)
        return z3.And(v >= 0, v <= 1, v * e <= 1, z3.Implies(x <= 709, v * e == 1 - v))
    return one(S, '%s: between 0 and 1, f exp(x) = 1-f (detailed balance) up to the overflow guard' % nm(c, 'fermi_func'), f)


def fermi_symmetric(S, c):
    def f(z):
        x = R('x')
        z.assume(z3.And(x <= 709, x >= -709))
        return fermi(z, S, c, x) + fermi(z, S, c, -x) == 1
    return one(S, '%s: f(x)+f(-x) = 1' % nm(c, 'fermi_func'), f)


def pauli_props(S, c):
    out = []
    for it in (0, 1, 2, 3):
        wide = it in (1, 3)
        n = '%s, itype %d' % (nm(c, 'func_pauli'), it)

        def sumrule(z):
            a = params(z)
            p, q = pauli(z, S, c, a + [it])
            s = z3.If(band(a), 2*PI, z3.RealVal(0)) if not wide else 2*PI
            return z3.And(p >= 0, q >= 0, p + q == s)
        out.append(one(S, n + ': non-negative; in + out = 2 pi%s' % ('' if wide else ' inside the band, 0 outside'), sumrule))

        def balance(z):
            a = params(z)
            p, q = pauli(z, S, c, a + [it])
            al = (a[0] - a[1]) / a[2]
            return z3.Implies(al <= 709, p * EXP(z, al) == q)
        out.append(one(S, n + ': in exp((E-mu)/T) = out (detailed balance)', balance))

        def fermi_in(z):
            a = params(z)
            p, q = pauli(z, S, c, a + [it])
            v = 2*PI*fermi(z, S, c, (a[0] - a[1]) / a[2])
            return z3.Implies(z3.BoolVal(True) if wide else band(a), p == v)
        out.append(one(S, n + ': in = 2 pi f', fermi_in))
    return out


def vn_props(S, c):
    out = []
    for it in (0, 1, 2, 3):
        def imag(z):
            a = params(z)
            lim = I('limit')
            v = f1vn(z, S, c, a + [it, lim])
            p, q = pauli(z, S, c, a + [it])
            return z3.And(2*v[0].im == -p, 2*v[1].im == q, v[2].im == a[0]*v[0].im, v[3].im == a[0]*v[1].im)
        out.append(one(S, '%s, itype %d: imaginary parts are -in/2, out/2 and E times these' % (nm(c, 'func_1vN'), it), imag))
        if it in (2, 3):
            def real_part(z):
                a = params(z)
                v = f1vn(z, S, c, a + [it, I('limit')])
                return z3.And(*[x.re == 0 for x in v])
            out.append(one(S, '%s, itype %d: no principal parts' % (nm(c, 'func_1vN'), it), real_part))
        else:
            def logs(z):
                # integrable: the arguments of the logarithms are positive off the band edges
                a = params(z)
                z.assume(z3.And(a[0] != a[3], a[0] != a[4]))
                f1vn(z, S, c, a + [it, I('limit')])
                return z3.And(*[x > 0 for k, x in z.events if k == 'log'])
            out.append(one(S, '%s, itype %d: arguments of the logarithms are positive off the band edges' % (nm(c, 'func_1vN'), it), logs))
    return out


def equal(S):
    out = []
    for it in (0, 1, 2, 3):
        def f(z):
            a = params(z)
            x, y = pauli(z, S, True, a + [it]), pauli(z, S, False, a + [it])
            return z3.And(*[p == q for p, q in zip(x, y)])
        out.append(one(S, 'func_pauli, itype %d: compiled = pure Python' % it, f))

        def g(z):
            a = params(z)
            lim = I('limit')
            x, y = f1vn(z, S, True, a + [it, lim]), f1vn(z, S, False, a + [it, lim])
            return z3.And(*[z3.And(p.re == q.re, p.im == q.im) for p, q in zip(x, y)])
        out.append(one(S, 'func_1vN, itype %d: compiled = pure Python' % it, g))

    def h(z):
        x = R('x')
        return fermi(z, S, True, x) == fermi(z, S, False, x)
    out.append(one(S, 'fermi_func: compiled = pure Python', h))
    return out


# ------------------------------------------------------------------------------------------------ phonons
class Baths(object):
    """bath_func: one object per bath, with a non-negative density of states about which nothing else is known."""
    F = z3.Function('dos', z3.IntSort(), RR, RR)

    def zget(self, z, idx, node):
        l = idx[0]
        o = ZObj('bathfn', None, {})

        def ev(z, a, k):
            v = self.F(l if not isinstance(l, int) else z3.IntVal(l), real(a[0]))
            z.assume(v >= 0)
            return v
        o.attrs['eval'] = Fn(ev)
        return o


def elph(z, S, c, cls, given, itype=None):
    mod = S.module(FILES_ELPH[c])
    if cls not in mod.classes:
        raise OutOfReach('class %s' % cls)
    t, d = ZArr('tlst', 1), ZArr('dlst', 2)
    args = [t, d] + ([itype, I('limit')] if cls == 'Func1vNElPh' else []) + [Baths() if given else None, R('eps')]
    o = ZObj(cls, (mod, mod.classes[cls]), {})
    z.inline(z.S.method(mod, mod.classes[cls], '__init__'), [o] + args, {}, None)
    l = I('l')
    z.assume(z3.And(t.base(l) > 0, R('eps') > 0, d.base(l, z3.IntVal(0)) < d.base(l, z3.IntVal(1))))
    return o, t.base(l), l


def evaluate(z, o, E, l):
    m = z.S.method(o.cls[0], o.cls[1], 'eval')
    z.call_method(o, m, [E, l], {}, None)
    return o


def phonon_props(S, c):
    out = []
    for given in (False, True):
        tag = '%s with %s density of states' % (nm(c, 'FuncPauliElPh.eval'), 'a given' if given else 'a constant')

        def pos(z):
            o, T, l = elph(z, S, c, 'FuncPauliElPh', given)
            return real(evaluate(z, o, R('E'), l).attrs['val']) >= 0
        out.append(one(S, tag + ': non-negative', pos))

        def bal(z):
            o, T, l = elph(z, S, c, 'FuncPauliElPh', given)
            E = R('E')
            z.assume(E > 0)
            up = real(evaluate(z, o, E, l).attrs['val'])
            down = real(evaluate(z, o, -E, l).attrs['val'])
            x = E / T
            al = z3.If(x >= R('eps'), x, R('eps'))
            e = EXP(z, x)
            e2 = EXP(z, R('eps'))
            return z3.And(z3.Implies(x >= R('eps'), up * e == down), z3.Implies(x < R('eps'), up * e2 == down))
        out.append(one(S, tag + ': absorption exp(E/T) = emission (E/T below eps is read as eps)', bal))
    for it in (0, 2):
        def im(z):
            o, T, l = elph(z, S, c, 'FuncPauliElPh', True)
            p, _, _ = elph(z, S, c, 'Func1vNElPh', True, it)
            E = R('E')
            z.assume(E != 0)
            v = real(evaluate(z, o, E, l).attrs['val'])
            a = cx(evaluate(z, p, E, l).attrs['val0'])
            b = cx(evaluate(z, p, -E, l).attrs['val1'])
            return v == -2*a.im + 2*b.im
        out.append(one(S, '%s, itype %d: imaginary parts give the golden-rule rate' % (nm(c, 'Func1vNElPh.eval'), it), im))
    return out


def phonon_equal(S):
    out = []
    for given in (False, True):
        def f(z):
            v = []
            for c in (True, False):
                o, T, l = elph(z, S, c, 'FuncPauliElPh', given)
                v.append(real(evaluate(z, o, R('E'), l).attrs['val']))
            return v[0] == v[1]
        out.append(one(S, 'FuncPauliElPh.eval (%s): compiled = pure Python' % ('given dos' if given else 'constant dos'), f))
        for it in (0, 2):
            def g(z):
                v = []
                for c in (True, False):
                    o, T, l = elph(z, S, c, 'Func1vNElPh', given, it)
                    evaluate(z, o, R('E'), l)
                    v.append((cx(o.attrs['val0']), cx(o.attrs['val1'])))
                return z3.And(*[z3.And(x.re == y.re, x.im == y.im) for x, y in zip(*v)])
            out.append(one(S, 'Func1vNElPh.eval, itype %d (%s): compiled = pure Python' % (it, 'given dos' if given else 'constant dos'), g))
    return out


def obligations(prop, S):
    r = []

    def add(f, *a):
        r.extend(guarded('%s%s' % (f.__name__, list(a)), f, S, *a))
    if prop in ('C12', 'C09', 'C07'):
        for c in (False, True):
            if prop == 'C12':
                for f in (fermi_bounds, fermi_symmetric, pauli_props, vn_props):
                    add(f, c)
                add(constants, c, False)
            elif prop == 'C09':
                for f in (fermi_bounds, pauli_props):
                    add(f, c)
    if prop == 'C10':
        add(equal)
        add(phonon_equal)
    if prop == 'C13':
        for c in (False, True):
            add(phonon_props, c)
            add(constants, c, True)
    return r


SELF = {'C12': [(FILES[c], None, f) for c in (True, False) for f in ('func_pauli', 'func_1vN')],
        'C13': [(FILES_ELPH[c], k, 'eval') for c in (True, False) for k in ('FuncPauliElPh', 'FuncBose')]}
