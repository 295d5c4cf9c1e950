"""The poles and residues that the second-order integrals of RTD use (C15, C10): they are those of the present parameters whatever was
solved before, and they are set whenever an integral can use them."""
import ast
import z3
from .zx import Z, ZObj, Fn, Brk, Cnt, Infeasible, Raised, num
from .src import OutOfReach
from .rotation import Check
from .master import guarded
from . import rtd

NL = z3.Int('nleads')
T = z3.Function('temperature', z3.IntSort(), z3.RealSort())
DL = z3.Function('dlst', z3.IntSort(), z3.IntSort(), z3.RealSort())
IM = z3.Function('imaginary part of the amplitude', z3.IntSort(), z3.RealSort())
OZ = z3.Function('BW_Ozaki', z3.RealSort(), z3.RealSort())
E0, P0, MINT = z3.Real('width of the poles kept'), z3.Real('poles kept'), z3.Real('lowest temperature')
U, V, W, W2, A = z3.Int('u'), z3.Int('v'), z3.Int('w'), z3.Int('w2'), z3.Int('a')
MAXT = z3.Real('highest temperature')


def absv(v):
    return z3.If(v >= 0, v, -v)


class Elem(object):
    """An array by its elements; wit: indices at which something is known."""
    def __init__(self, val, dom, wit, part=False):
        self.val, self.dom, self.wit, self.part = val, dom, wit, part

    def like(self, f):
        return Elem(f, self.dom, self.wit, self.part)

    def at(self, o):
        if isinstance(o, Elem):
            if o.dom != self.dom or o.part != self.part:
                raise OutOfReach('arrays of different sizes')
            return o.val
        return lambda i: num(o)

    def zget(self, z, idx, node):
        if len(idx) == 1 and not isinstance(idx[0], slice) and self.dom == 'leads':
            return self.val(num(idx[0]))
        if len(idx) == 1 and isinstance(idx[0], slice) and self.dom == 'leads' and idx[0].step is None and idx[0].stop is None and not self.part:
            if idx[0].start in (None, 0):
                return self
            if idx[0].start == 1:             # all but the first lead
                return Elem(self.val, self.dom, tuple(w for w in self.wit), True)
        z.bad('element of an array', node)

    def zbin(self, z, op, o, right, node):
        x, y = (self.at(o), self.val) if right else (self.val, self.at(o))
        if op == 'Sub':
            return self.like(lambda i: x(i) - y(i))
        if op == 'Add':
            return self.like(lambda i: x(i) + y(i))
        if op == 'BitOr':
            return self.like(lambda i: z3.Or(x(i), y(i)))
        z.bad('operation with an array', node)

    def zcmp(self, z, op, o, flipped, node):
        x, y = (self.at(o), self.val) if flipped else (self.val, self.at(o))
        f = {'Gt': lambda i: x(i) > y(i), 'Lt': lambda i: x(i) < y(i), 'GtE': lambda i: x(i) >= y(i), 'LtE': lambda i: x(i) <= y(i),
             'Eq': lambda i: x(i) == y(i), 'NotEq': lambda i: x(i) != y(i)}.get(op)
        if f is None:
            z.bad('comparison of an array', node)
        return self.like(f)


def arr(z, v):
    if not isinstance(v, Elem):
        raise OutOfReach('not an array')
    return v


def exists(z, v, pos=True):
    """A Boolean for 'some element holds' (pos) or 'all elements hold'."""
    v = arr(z, v)
    b, k = z3.FreshBool('some'), z3.FreshInt('k')
    z.assume(z3.And(*[z3.Implies(z3.And(w >= (1 if v.part else 0), w < z3.Int('size of ' + v.dom), v.val(w) if pos else z3.Not(v.val(w))), b) for w in v.wit]))
    z.assume(z3.Implies(b, z3.And(k >= (1 if v.part else 0), k < z3.Int('size of ' + v.dom), v.val(k) if pos else z3.Not(v.val(k)))))
    return b if pos else z3.Not(b)


def close(z, a, k):
    if set(k) - {'rtol', 'atol'} or len(a) > 2:
        z.bad('isclose')
    x = arr(z, a[0])
    y = x.at(a[1])
    r, t = num(k.get('rtol', 1e-5)), num(k.get('atol', 1e-8))
    return x.like(lambda i: absv(x.val(i) - y(i)) <= t + r*absv(y(i)))


class Range(object):
    """Leads lo <= i < hi in order; a loop may stop at any of them."""
    def __init__(self, lo, hi):
        self.lo, self.hi = num(lo), num(hi)

    def body(self, z, st, env, mod, i):
        if not isinstance(st.target, ast.Name):
            raise OutOfReach('loop variable')
        env[st.target.id] = i
        try:
            z.block(st.body, env, mod)
        except Cnt:
            pass

    def zloop(self, z, st, env, mod):
        if st.orelse:
            raise OutOfReach('else of a loop')
        if z.decide(z3.FreshBool('stops before')):
            i = z3.FreshInt('i')
            z.assume(z3.And(i >= self.lo, i < self.hi))
            try:
                self.body(z, st, env, mod, i)
            except Brk:
                return
            raise Infeasible()
        for w in (U, V, A):
            if z.decide(z3.And(w >= self.lo, w < self.hi)):
                try:
                    self.body(z, st, env, mod, w)
                except Brk:
                    return


class Widths(object):
    def zget(self, z, idx, node):
        i = [num(x) for x in idx if not isinstance(x, slice)]
        if len(i) != len(idx):
            z.bad('part of dlst', node)
        if len(i) == 1:
            o = Widths()
            o.zget = lambda z, j, node: DL(i[0], num(j[0])) if len(j) == 1 and not isinstance(j[0], slice) else z.bad('part of dlst', node)
            return o
        return DL(i[0], i[1]) if len(i) == 2 else z.bad('dlst', node)


def lowest(z, a, k):
    if len(a) == 1 and isinstance(a[0], Elem) and a[0].dom == 'leads' and not a[0].part and not k:
        return MINT
    z.bad('minimum')


def highest(z, a, k):
    if len(a) == 1 and isinstance(a[0], Elem) and a[0].dom == 'leads' and not a[0].part and not k:
        return MAXT
    z.bad('maximum')


def absol(z, a, k):
    return a[0].like(lambda i: absv(a[0].val(i))) if isinstance(a[0], Elem) else absv(num(a[0]))


def engine(S, compiled):
    z = Z(S)
    z.contracts = {'min': lowest, 'np.min': lowest, 'max': highest, 'np.max': highest, 'abs': absol, 'np.abs': absol, 'fabs': absol,
                   'np.any': lambda z, a, k: exists(z, a[0]), 'np.all': lambda z, a, k: exists(z, a[0], False), 'np.isclose': close,
                   'np.asarray': lambda z, a, k: a[0], 'np.array': lambda z, a, k: a[0], 'np.imag': lambda z, a, k: a[0].attrs['imag'],
                   'range': lambda z, a, k: Range(a[0] if len(a) > 1 else 0, a[-1]), 'len': lambda z, a, k: NL if isinstance(a[0], Elem) else z.bad('len'),
                   'BW_Ozaki': lambda z, a, k: (z.events.append(('poles', num(a[0]))), OZ(num(a[0])))[1]}
    return z


def world(S, compiled):
    m = S.module(rtd.FILE[compiled])
    temps = Elem(lambda i: T(i), 'leads', (U, V, A))
    leads = ZObj('leads', None, {'tlst': temps, 'dlst': Widths(), 'Tba': ZObj('Tba', None, {'imag': Elem(lambda i: IM(i), 'amplitudes', (W, W2))})})
    si = ZObj('si', None, {'nleads': NL, 'ncharge': z3.Int('ncharge'), 'statesdm': ZObj('statesdm', None)})
    kh = ZObj('kernel_handler', None, {'nleads': NL, 'ncharge': z3.Int('ncharge'), 'statesdm': ZObj('statesdm', None)})
    o = ZObj(rtd.CLS[compiled], (m, m.classes[rtd.CLS[compiled]]), {
        'leads': leads, 'si': si, 'kernel_handler': kh, '_tlst': temps, '_dlst': leads.attrs['dlst'],
        'BW_Ozaki_expansion': E0, 'Ozaki_poles_and_residues': P0, 'funcp': ZObj('funcp', None, {'off_diag_corrections': z3.Bool('off_diag')})})
    hy = [NL >= 1, MINT > 0, z3.Int('size of leads') == NL, z3.Int('size of amplitudes') >= 1]
    return o, hy


def present(S, compiled):
    """set_Ozaki_params from any earlier state in which the poles are those of the width kept, or none are kept (width 0)."""
    z = engine(S, compiled)
    ck = Check('%s.set_Ozaki_params: the poles are those of the present temperatures and bandwidths, whatever was solved before' % rtd.CLS[compiled], z)
    got = []

    def f(z):
        o, hy = world(S, compiled)
        z.extra += hy + [z3.Or(E0 == 0, P0 == OZ(E0)), z3.Or(DL(0, 0) != 0, DL(0, 1) != 0)]
        z.inline(S.method(o.cls[0], o.cls[1], 'set_Ozaki_params'), [o], {}, None)
        return o
    for pc, r, ev in z.explore(f):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        w = [e[1] for e in ev if e[0] == 'poles']
        if len(w) > 1:
            raise OutOfReach('poles made twice')
        got.append((pc, r, w))
    made = [w[0] for pc, r, w in got if w]
    if not made:
        ck.fail('the poles are never made')
        return [ck.out()], None
    X = made[0]
    old = {str(E0), str(P0)}
    if any(str(c) in old for c in consts(X)):
        ck.fail('the width asked for depends on the earlier one: %s' % X)
    for pc, r, w in got:
        hy = list(z.axioms) + pc
        ck.holds(hy, num(r.attrs['Ozaki_poles_and_residues']) == OZ(X), 'the poles')
        ck.holds(hy, num(r.attrs['BW_Ozaki_expansion']) == X, 'the width kept')
    return [ck.out()], X


def consts(e):
    if z3.is_const(e):
        return [e]
    return [c for x in e.children() for c in consts(x)]


def both(S):
    r, X = present(S, False)
    q, Y = present(S, True)
    if X is None or Y is None:
        raise OutOfReach('the width')
    ck = Check('set_Ozaki_params: compiled and pure Python ask for the same width', Z(S))
    ck.holds([MINT > 0], X == Y, 'width')
    o = ck.out()
    o['functions'] = r[0]['functions'] + q[0]['functions']
    return [o]


def initial(S, compiled):
    """A new object keeps no poles (width 0)."""
    m = S.module(rtd.FILE[compiled])
    z = engine(S, compiled)
    z.contracts.update({'np.zeros': lambda z, a, k: ZObj('zeros', None)})
    ck = Check('%s: a new object keeps no poles' % rtd.CLS[compiled], z)
    c = m.classes[rtd.CLS[compiled]]
    name = next(n for n in ('__init__', '__cinit__') if any(isinstance(x, ast.FunctionDef) and x.name == n and 'BW_Ozaki_expansion' in ast.unparse(x) for x in c.body))
    fn = next(x for x in c.body if isinstance(x, ast.FunctionDef) and x.name == name)
    st = [s for s in fn.body if isinstance(s, ast.Assign) and any('BW_Ozaki_expansion' in ast.unparse(t) for t in s.targets)]
    if len(st) != 1 or [s for s in ast.walk(fn) if isinstance(s, ast.Attribute) and s.attr == 'BW_Ozaki_expansion'] != st[0].targets:
        raise OutOfReach('the width at the start')
    o = ZObj('self', None, {})

    def f(z):
        z.stmt(st[0], {'self': o}, m)
        return o.attrs['BW_Ozaki_expansion']
    for pc, r, ev in z.explore(f):
        ck.holds(pc, num(r) == 0, 'width 0')
    return ck.out()


def needed(S, compiled, why):
    """generate_kern sets the poles before anything else, if temperatures differ (then some two neighbours do) or an
    amplitude is complex (then the Hermitian matrix holds its conjugate)."""
    z = engine(S, compiled)
    m = S.module(rtd.FILE[compiled])
    ck = Check('%s.generate_kern: the poles are set first if %s' % (rtd.CLS[compiled], {'T': 'two temperatures differ', 'I': 'an amplitude is complex'}[why]), z)
    mt = S.method(m, m.classes[rtd.CLS[compiled]], 'generate_kern')
    body = mt[2].body
    at = [i for i, s in enumerate(body) if any(isinstance(x, ast.Attribute) and x.attr == 'set_Ozaki_params' for x in ast.walk(s))]
    if not at:
        helper = [i for i, s in enumerate(body) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)]
        raise OutOfReach('where the poles are set (%d calls)' % len(helper))
    first = body[:at[-1] + 1]

    def f(z):
        o, hy = world(S, compiled)
        z.extra += hy
        z.extra += [U >= 0, U < NL, V >= 0, V < NL, absv(T(U) - T(V)) >= z3.RealVal('1/100000'), MINT <= T(0), MINT <= T(U), MINT <= T(V), MAXT >= T(U), MAXT >= T(V),
                    A >= 1, A < NL, T(A) != T(A - 1)] if why == 'T' else [
            W >= 0, W < z3.Int('size of amplitudes'), IM(W) != 0, W2 >= 0, W2 < z3.Int('size of amplitudes'), IM(W2) == -IM(W), U == 0, V == 0, A == 0]
        if why == 'T':
            z.extra += [W == 0, W2 == 0]
        called = []
        o.attrs['set_Ozaki_params'] = Fn(lambda z, a, k: called.append(1))
        o.attrs['get_kern_size'] = Fn(lambda z, a, k: z3.Int('kern_size'))
        z.block(first, {'self': o}, m)
        return bool(called)
    for pc, r, ev in z.explore(f):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        ck.holds(list(z.axioms) + pc, z3.BoolVal(r), 'the poles are set')
    r = ck.out()
    r['functions'] = ['%s:%s.generate_kern' % (rtd.FILE[compiled], rtd.CLS[compiled])]
    return r


def obligations(prop, S):
    r = []
    for c in (False, True):
        if prop == 'C15':
            r += guarded('%s.set_Ozaki_params' % rtd.CLS[c], lambda: present(S, c)[0])
            r += guarded('%s: initial poles' % rtd.CLS[c], initial, S, c)
        if prop in ('C15', 'C10'):
            for why in ('T', 'I'):
                r += guarded('%s.generate_kern: poles' % rtd.CLS[c], needed, S, c, why)
    if prop == 'C10':
        r += guarded('set_Ozaki_params', both, S)
    return r
