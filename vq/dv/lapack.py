"""The solvers of the compiled approaches (C14): what is handed to LAPACK's dgesv and dgelsd is the matrix and the right-hand
side given, with their sizes, in the order and with the buffers these routines require (their documented interface is the
contract of the dependency).  One path at a time; sizes are symbolic."""
import z3
from .zx import ZObj, Fn, Raised, num
from .src import OutOfReach
from .rotation import Check
from .index import engine, reset
from .builders import method
from .labels import live
from .master import guarded

REL = 'qmeq/wrappers/c_lapack.pyx'
R0, C0, NB = z3.Int('rows'), z3.Int('columns'), z3.Int('length of b')
GESV = ('n', 'nrhs', 'a', 'lda', 'ipiv', 'b', 'ldb', 'info')
GELSD = ('m', 'n', 'nrhs', 'a', 'lda', 'b', 'ldb', 's', 'rcond', 'rank', 'work', 'lwork', 'iwork', 'info')
WRITTEN = ('ipiv', 'info', 's', 'rank', 'work', 'iwork')


class Mat(ZObj):
    """A two- or one-dimensional array with its storage order."""
    def __init__(self, name, shape, order, src=None):
        ZObj.__init__(self, name, None, {'shape': tuple(shape), 'ndim': len(shape)})
        self.order, self.src, self.fresh = order, src, src is not None
        self.attrs['copy'] = Fn(lambda z, a, k: copied(z, [self] + a, k))

    def zlen(self, z):
        return self.attrs['shape'][0]

    def zset(self, z, idx, v, node=None, aug=None):
        if aug is not None or not isinstance(v, Mat) or any(not isinstance(i, slice) or i.start is not None or i.stop is not None or i.step is not None for i in idx):
            z.bad('write to %s' % self.name, node)
        z.events.append(('refresh', self, v))

    def zget(self, z, idx, node=None):
        if all(isinstance(i, slice) and i.start is None and i.stop is None and i.step is None for i in idx):
            return self
        z.bad('part of %s' % self.name, node)


class Ref(object):
    def __init__(self, obj, what):
        self.obj, self.what = obj, what

    def same(self, o):
        return isinstance(o, Ref) and o.obj is self.obj and o.what == self.what

    def __repr__(self):
        return '&%s.%s' % (getattr(self.obj, 'name', self.obj), self.what)


class Cell(ZObj):
    def __init__(self, name):
        ZObj.__init__(self, name, None, {})


class Null(object):
    def __repr__(self):
        return 'no buffer'


def copied(z, a, k):
    if not isinstance(a[0], Mat):
        z.bad('copy of %s' % a[0])
    o = k.get('order', a[1] if len(a) > 1 else 'K')
    if set(k) - {'order', 'copy', 'dtype'}:
        z.bad('copy')
    if k.get('copy') is False:
        return a[0]
    return Mat('copy', a[0].attrs['shape'], a[0].order if o in ('K', 'A') else o, a[0])


def as_is(z, a, k):
    if not isinstance(a[0], Mat) or len(a) > 1 or set(k) - {'dtype'}:
        z.bad('array')
    return a[0]


def cref(z, a, k):
    if len(a) == 1:
        if not isinstance(a[0], Cell):
            z.bad('address')
        return Ref(a[0], 'value')
    return Ref(a[0], a[1])


def malloc(z, a, k):
    n = num(a[0])
    o = ZObj('buffer', None, {})
    o.bytes = n
    return o


def sizeof(z, a, k):
    if a[0] not in ('int', 'double'):
        z.bad('size of %s' % a[0])
    return {'int': 4, 'double': 8}[a[0]]


def value(z, p):
    """What a scalar argument points to at the moment of the call."""
    if isinstance(p, Ref):
        if isinstance(p.obj, Cell):
            return p.obj.attrs.get('value')
        if isinstance(p.obj, ZObj) and isinstance(p.what, str):
            return p.obj.attrs.get(p.what)
    return None


OPT, LIW, LWMIN = z3.Int('optimal work size'), z3.Int('integer work size'), z3.Int('minimal work size')


def routine(names):
    def f(z, a, k):
        if len(a) != len(names) or k:
            z.bad('arguments of LAPACK')
        d = dict(zip(names, a))
        v = {n: value(z, d[n]) for n in ('m', 'n', 'nrhs', 'lda', 'ldb', 'rcond', 'lwork') if n in d}
        z.events.append(('lapack', names, d, v))
        if 'lwork' in v and isinstance(v['lwork'], int) and v['lwork'] == -1:
            for n, x in (('work', OPT), ('iwork', LIW)):
                p = d[n]
                if isinstance(p, Ref) and isinstance(p.obj, Cell):
                    p.obj.attrs['value'] = x
                elif isinstance(p, Ref) and isinstance(p.what, str):
                    p.obj.attrs[p.what] = x
        elif isinstance(d['info'], Ref):
            d['info'].obj.attrs[d['info'].what] = z3.Int('info')
    return f


def whole(z, a, k):
    v = a[0].attrs.get('value') if isinstance(a[0], Cell) else a[0]
    if v is None:
        z.bad('a value that nothing has set')
    return v


def contracts():
    c = {'_cref': cref, '_ccell': lambda z, a, k: Cell(a[0]), 'malloc': malloc, 'sizeof': sizeof, 'free': lambda z, a, k: None,
         'np.array': copied, 'np.copy': copied, 'np.asarray': as_is, 'int': whole, 'MemoryError': lambda z, a, k: ('MemoryError',),
         'len': lambda z, a, k: len(a[0]) if isinstance(a[0], (tuple, list)) else a[0].zlen(z)}
    for n, names in (('dgesv', GESV), ('dgelsd', GELSD)):
        c['scipy.linalg.cython_lapack.' + n] = routine(names)
    return c


def solver(S, cls, rout, copy, times=2):
    names = GESV if rout == 'dgesv' else GELSD
    z = engine(S, contracts())
    ck = Check('%s (%s): the system given to LAPACK is the one of the approach' % (cls, 'on a copy of the matrix' if copy else 'in place'), z)
    m = S.module(REL)
    if cls not in m.classes:
        raise OutOfReach('class %s' % cls)

    def run(z):
        reset(z)
        z.assume(z3.And(R0 >= 1, C0 >= 1, NB >= 1, LIW >= 1, LWMIN >= 1, OPT >= LWMIN))
        if rout == 'dgesv':
            z.assume(z3.And(R0 == C0, NB == R0))
        else:
            z.assume(z3.And(NB >= R0, NB >= C0))
        a, b = Mat('a', (R0, C0), 'F'), Mat('b', (NB,), 'F')
        o = ZObj('solver', (m, m.classes[cls]), {}, lazy=lambda n: Null() if n.endswith('pointer') or n in ('s', 'work', 'iwork', 'ipiv') else None)
        z.inline(method(S, REL, cls, '__init__'), [o, a, b, copy], {}, None)
        k = len(z.events)
        for i in range(times):
            z.events.append(('solve', i))
            z.inline(method(S, REL, cls, 'solve'), [o], {}, None)
        return o, a, b, k
    seen = 0
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if isinstance(r, Raised):
            if 'Memory' in str(r.what):
                continue
            raise OutOfReach('raises %s' % r.what)
        if not live(z, pc):
            continue
        seen += 1
        o, a, b, k = r
        for i in range(times):
            at = [j for j, e in enumerate(ev) if e == ('solve', i)][0]
            nx = [j for j, e in enumerate(ev) if e[0] == 'solve' and j > at] + [len(ev)]
            part = ev[at + 1:nx[0]]
            call = [e for e in part if e[0] == 'lapack']
            if len(call) != 1:
                ck.fail('%d calls of LAPACK in one solve' % len(call))
                continue
            _, nm, d, v = call[0]
            if nm is not names:
                raise OutOfReach('another routine')
            judge(ck, hy, d, v, a, b, o, copy, part, rout)
        for e in ev[:k]:
            if e[0] != 'lapack':
                continue
            # a query for the sizes of the work arrays
            v, d = e[3], e[2]
            if not (isinstance(v.get('lwork'), int) and v['lwork'] == -1):
                ck.fail('LAPACK is called before there is something to solve')
                continue
            for n, w in (('m', R0), ('n', C0), ('nrhs', 1)):
                if v.get(n) is None:
                    ck.fail('%s is not set when the sizes are asked for' % n)
                else:
                    ck.eq(hy, num(v[n]), w if not isinstance(w, int) else z3.IntVal(w), '%s when the sizes are asked for' % n)
            if v.get('lda') is None or v.get('ldb') is None:
                ck.fail('strides are not set when the sizes are asked for')
            else:
                ck.holds(hy, z3.And(num(v['lda']) >= R0, num(v['ldb']) >= R0, num(v['ldb']) >= C0), 'strides when the sizes are asked for')
    if not seen:
        raise OutOfReach('no path')
    return ck.out()


def judge(ck, hy, d, v, a, b, o, copy, part, rout):
    for n, w in ((('n', R0),) if rout == 'dgesv' else (('m', R0), ('n', C0))) + (('nrhs', z3.IntVal(1)), ('lda', R0)):
        if v.get(n) is None:
            ck.fail('%s is not set' % n)
            return
        ck.eq(hy, num(v[n]), w, n)
    if v.get('ldb') is None:
        ck.fail('ldb is not set')
        return
    ck.holds(hy, z3.And(num(v['ldb']) >= R0, num(v['ldb']) >= C0, num(v['ldb']) <= NB if rout != 'dgesv' else z3.BoolVal(True)), 'ldb')
    # what is solved
    p = d['a']
    if not isinstance(p, Ref) or not isinstance(p.obj, Mat):
        if isinstance(p, Null):
            ck.fail('no matrix is given')
            return
        raise OutOfReach('matrix')
    if p.what != (0, 0) and p.what != (0,):
        ck.fail('the matrix starts at %s' % (p.what,))
    M = p.obj
    if M is b:
        ck.fail('the right-hand side is given as the matrix')
        return
    if copy and M is a:
        ck.fail('LAPACK writes into the matrix although a copy was asked for')
    if M is not a:
        if M.src is not a:
            raise OutOfReach('matrix of LAPACK')
        if M.order != 'F':
            ck.fail('the copy is not stored by columns')
        # the copy holds the present matrix
        i = [j for j, e in enumerate(part) if e[0] == 'lapack'][0]
        if not any(e[0] == 'refresh' and e[1] is M and e[2] is a for e in part[:i]):
            ck.fail('the copy is not made anew from the matrix before it is used')
    if any(e[0] == 'refresh' and e[1] is a for e in part):
        ck.fail('the matrix is overwritten by %s' % [e[2].name for e in part if e[0] == 'refresh'])
    q = d['b']
    if isinstance(q, Null) or isinstance(q, Ref) and q.obj in (a, M):
        ck.fail('no right-hand side is given')
    elif not isinstance(q, Ref) or q.obj is not b:
        if isinstance(q, Ref) and isinstance(q.obj, Mat) and q.obj.src is b:
            ck.fail('the solution is written to a copy of the right-hand side')
        else:
            raise OutOfReach('right-hand side')
    elif q.what not in ((0,), (0, 0)):
        ck.fail('the right-hand side starts at %s' % (q.what,))
    # buffers
    need = [('ipiv', 4, R0)] if rout == 'dgesv' else [('s', 8, z3.If(R0 <= C0, R0, C0)), ('iwork', 4, LIW)]
    if rout != 'dgesv':
        lw = v.get('lwork')
        if lw is None:
            ck.fail('lwork is not set')
            return
        ck.holds(hy, num(lw) >= LWMIN, 'lwork is at least what LAPACK asks for')
        need.append(('work', 8, num(lw)))
        rc = v.get('rcond')
        if rc is None:
            ck.fail('rcond is not set')
        elif isinstance(rc, (int, float)) and rc > 1e-10:
            ck.fail('singular values below %s of the largest one are ignored' % rc)
        ck.n += 1
    bufs = []
    for n, size, cnt in need:
        x = d[n]
        if isinstance(x, Null):
            ck.fail('%s: no buffer' % n)
            continue
        if not isinstance(x, ZObj) or not hasattr(x, 'bytes'):
            raise OutOfReach(n)
        ck.holds(hy, x.bytes >= size * cnt, 'room in %s' % n)
        bufs.append((n, x))
    for i, (n, x) in enumerate(bufs):
        for m_, y in bufs[i + 1:]:
            if x is y:
                ck.fail('%s and %s share a buffer' % (n, m_))
    outs = [n for n in WRITTEN if n in d and isinstance(d[n], Ref)]
    ins = [n for n in d if n not in WRITTEN and isinstance(d[n], Ref)]
    for n in outs:
        for m_ in ins + [x for x in outs if x != n]:
            if d[n].same(d[m_]):
                ck.fail('%s is written where %s is read' % (n, m_))
    if not isinstance(d['info'], Ref) or d['info'].obj is not o:
        raise OutOfReach('info')
    if d['info'].what != 'info':
        ck.fail('the result code is stored as %s' % d['info'].what)
    ck.n += 1


def obligations(prop, S):
    r = []
    if prop == 'C14':
        for cls, rout in (('LapackSolverDGESV', 'dgesv'), ('LapackSolverDGELSD', 'dgelsd')):
            for copy in (False, True):
                r += guarded('%s (%s)' % (cls, 'copy' if copy else 'in place'), lambda: solver(S, cls, rout, copy))
    return r


SELF = {'C14': [(REL, c, n) for c, n in (('LapackSolver', 'determine_pointer_a'), ('LapackSolverXGESV', '__init__'), ('LapackSolverDGESV', 'solve'),
                                         ('LapackSolverXGELSD', '__init__'), ('LapackSolverDGELSD', 'solve'))]}
