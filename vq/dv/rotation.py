"""Diagonalisation and change of basis (C06).  Matrix expressions are words over named matrices (blocks of the Fock matrix,
eigenvector matrices, their conjugate transposes); every loop is decided for one arbitrary iteration, so the obligations hold for
any number of leads, orbitals, charges and states.  Refuted: a block is put in the wrong place, has another word, or the loops do
not run over all blocks."""
import z3
from .zx import Z, ZObj, Fn, Raised, Ret, Cx, SymRange, prove, num, real, toint
from .src import OutOfReach
from .fock import fresh, iterate, Mat, Occ
from .fermion import W, Labels, Term, LAB, N, same, feas, split, func
from .master import guarded
from . import fock

I = z3.IntSort()
NL, NC, NM = z3.Int('nleads'), z3.Int('ncharge'), z3.Int('nmany')


def elem(key):
    """Element number key[-1] of the list of states of the block key[:-1]."""
    return z3.Function('state%d' % (len(key) - 1), *([I] * len(key)), I)(*[num(k) for k in key])


def length(key):
    return z3.Function('count%d' % len(key), *([I] * len(key)), I)(*[num(k) for k in key])


class Prog(object):
    """list(range(lo, hi, step))"""
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = num(lo), num(hi), step

    def zlist(self, z):
        return Prog(self.lo, self.hi, self.step)

    def ztruth(self, z):
        return self.lo < self.hi if self.step > 0 else self.lo > self.hi

    def zget(self, z, idx, node):
        if len(idx) == 1 and isinstance(idx[0], slice):
            s = idx[0]
            if s.step not in (None, 1) or not (s.start is None or isinstance(s.start, int) and s.start >= 0) or not (
                    s.stop is None or isinstance(s.stop, int) and s.stop < 0) or self.step < 0:
                z.bad('slice of a range', node)
            return Prog(self.lo + self.step * (s.start or 0), self.hi + self.step * (s.stop or 0), self.step)
        if len(idx) == 1 and self.step > 0:
            i = num(idx[0])
            return z3.simplify(self.lo + self.step * (z3.If(i < 0, i + self.zlen(z), i) if not isinstance(idx[0], int) or idx[0] < 0 else i))
        z.bad('element of a range', node)

    def zlen(self, z):
        if self.step < 1:
            raise OutOfReach('length of a range')
        return z3.If(self.hi > self.lo, (self.hi - self.lo + (self.step - 1)) / self.step, 0)

    def zin(self, z, v, node):
        v = num(v)
        return z3.And(v >= self.lo, v < self.hi, (v - self.lo) % self.step == 0)

    def fresh(self, z):
        x, k = fresh('x'), fresh('k')
        z.assume(z3.And(k >= 0, x == self.lo + self.step * k, x < self.hi if self.step > 0 else x > self.hi))
        z.events.append(('prog', x, self))
        return x

    def zloop(self, z, st, env, mod):
        getattr(z, 'iterate', iterate)(z, st, env, mod, self.fresh(z))


def as_prog(v):
    if isinstance(v, Prog):
        return v
    if isinstance(v, SymRange):
        a = list(v.args)
        if len(a) == 1:
            a = [0] + a
        step = a[2] if len(a) > 2 else 1
        if not isinstance(step, int):
            step = z3.simplify(num(step))
            if not z3.is_int_value(step):
                return None
            step = step.as_long()
        return Prog(a[0], a[1], step) if step else None
    if isinstance(v, range):
        return Prog(v.start, v.stop, v.step)


class Prod(object):
    def __init__(self, parts):
        self.parts = parts

    def zloop(self, z, st, env, mod):
        getattr(z, 'iterate', iterate)(z, st, env, mod, tuple(p.fresh(z) for p in self.parts))


def product(z, a, k):
    p = [as_prog(x) for x in a]
    if k or any(x is None for x in p):
        z.bad('product of something else')
    return Prod(p)


def rng(z, a, k):
    p = as_prog(SymRange(a))
    if p is None:
        z.bad('range')
    return p


def listof(z, a, k):
    if len(a) == 1 and hasattr(a[0], 'zlist'):
        return a[0].zlist(z)
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        return list(a[0])
    z.bad('list of something else')


def minmax(pick):
    def f(z, a, k):
        if len(a) != 2:
            z.bad('min or max')
        a = [num(x) for x in a]
        if any(x.sort() != I for x in a):
            a = [real(x) for x in a]
        return z3.If(a[0] <= a[1] if pick == 'min' else a[0] >= a[1], a[0], a[1])
    return f


class Lst(object):
    """si.chargelst, szlst, ssqlst: after `depth` indices, the list of the states of one block."""
    def __init__(self, w, depth, key=(), empty=True):
        self.w, self.depth, self.key, self.empty = w, depth, tuple(key), empty

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('part of a list of states', node)
        i = idx[0]
        if self.depth:
            z.events.append(('lookup', self.key + (i,)))
            return Lst(self.w, self.depth - 1, self.key + (i,), self.empty)
        n = length(self.key)
        if self.empty and not z.decide(n > 0):
            raise Raised('IndexError')
        if isinstance(i, int) and i < 0:
            i = n + i
        return elem(self.key + (i,))

    def ztruth(self, z):
        return self.zlen(z) > 0

    def zlen(self, z):
        if self.depth:
            z.bad('length of a list of lists')
        n = length(self.key)
        z.assume(n >= 0 if self.empty else n > 0)
        return n


class Word(object):
    """Sum of coefficient * product of letters (name, key, transposed, conjugated)."""
    def __init__(self, terms):
        self.terms = terms

    def map(self, f, rev=False):
        return Word([(c, tuple(f(x) for x in (reversed(w) if rev else w))) for c, w in self.terms])

    def T(self):
        return self.map(lambda x: (x[0], x[1], not x[2], x[3]), True)

    def conj(self):
        return self.map(lambda x: (x[0], x[1], x[2], not x[3]))

    def zattr(self, z, n, node):
        if n == 'T':
            return self.T()
        if n in ('conj', 'conjugate'):
            return Fn(lambda z, a, k: self.conj())
        if n == 'transpose':
            return Fn(lambda z, a, k: self.T() if not a and not k else z.bad('transpose'))
        if n == 'copy':
            return Fn(lambda z, a, k: self)
        if n == 'dot':
            return Fn(lambda z, a, k: dot(z, [self] + a, k))
        z.bad('attribute %s of a matrix' % n, node)

    def zbin(self, z, op, o, flip, node):
        if op == 'MatMult':
            return dot(z, [o, self] if flip else [self, o], {})
        if op in ('Add', 'Sub'):
            if isinstance(o, int) and o == 0 and op == 'Add':
                return self
            b = word(z, o)
            a, b = (b, self) if flip else (self, b)
            return Word(a.terms + [(c if op == 'Add' else -c, w) for c, w in b.terms])
        if op == 'Mult' and isinstance(o, (int, float, z3.ArithRef)):
            return Word([(c * real(o), w) for c, w in self.terms])
        if op in ('Div', 'FloorDiv') and not flip and isinstance(o, (int, float, z3.ArithRef)):
            if op == 'FloorDiv':
                z.events.append(('floor', o))
            return Word([(c / real(o), w) for c, w in self.terms])
        z.bad('operator %s on matrices' % op, node)


def letter(name, key=()):
    return Word([(z3.RealVal(1), ((name, tuple(key), False, False),))])


def word(z, v):
    if isinstance(v, Word):
        return v
    h = getattr(v, 'asword', None)
    if h is not None:
        return h(z)
    z.bad('a matrix was expected, not %s' % type(v).__name__)


def dot(z, a, k):
    if k or len(a) != 2:
        z.bad('arguments of dot')
    if any(isinstance(x, int) and x == 0 for x in a):
        return 0
    a, b = word(z, a[0]), word(z, a[1])
    return Word([(c * d, u + v) for c, u in a.terms for d, v in b.terms])


class Nest(object):
    """A nested list of matrices that is read (vecslst, valslst, hamlst)."""
    def __init__(self, name, key=()):
        self.name, self.key = name, tuple(key)

    def zget(self, z, idx, node):
        if any(isinstance(i, slice) for i in idx):
            z.bad('part of a list of matrices', node)
        if len(idx) == 2:
            return ('element', self.name, self.key, tuple(idx))
        return Nest(self.name, self.key + (idx[0],))

    def zset(self, z, idx, v, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('assignment', node)
        z.events.append(('store', self.name, self.key + (idx[0],), v))

    def asword(self, z):
        return letter(self.name, self.key)

    def zattr(self, z, n, node):
        return self.asword(z).zattr(z, n, node)

    def zbin(self, z, op, o, flip, node):
        return self.asword(z).zbin(z, op, o, flip, node)

    def zcmp(self, z, op, o, flip, node):
        if o is None and op in ('Is', 'Eq'):
            return False
        if o is None and op in ('IsNot', 'NotEq'):
            return True
        z.bad('comparison of matrices', node)


FULL = ('all',)


class Big(object):
    """nleads x nmany x nmany array, or nmany x nmany, or nmany; blocks of it are read and assigned."""
    def __init__(self, name, rank, dims=None):
        self.name, self.rank = name, rank
        self.dims = dims if dims is not None else [FULL] * rank

    def sub(self, z, idx, node):
        dims, k = list(self.dims), 0
        free = [i for i, d in enumerate(dims) if isinstance(d, tuple)]
        if len(idx) > len(free):
            z.bad('too many indices', node)
        for i, x in zip(free, idx):
            if isinstance(x, slice):
                if x.step not in (None, 1):
                    z.bad('slice with a step', node)
                if x.start is None and x.stop is None:
                    continue
                if dims[i] is not FULL or x.start is None or x.stop is None:
                    z.bad('slice of a slice', node)
                dims[i] = (num(x.start), num(x.stop))
            else:
                if dims[i] is not FULL:
                    z.bad('element of a slice', node)
                dims[i] = num(x)
        return Big(self.name, self.rank, dims)

    def zget(self, z, idx, node):
        return self.sub(z, idx, node)

    def zset(self, z, idx, v, node):
        b = self.sub(z, idx, node)
        z.events.append(('put', b.name, b.dims, v if isinstance(v, tuple) or isinstance(v, (int, float)) else v))

    def asword(self, z):
        for e in reversed(z.events):
            if e[0] == 'put' and e[1] == self.name:
                if all((d is g) if d is FULL or g is FULL else
                       (isinstance(d, tuple) == isinstance(g, tuple) and
                        all(p.eq(q) for p, q in zip(d if isinstance(d, tuple) else (d,), g if isinstance(g, tuple) else (g,))))
                       for d, g in zip(self.dims, e[2])):
                    return word(z, e[3])
        if self.name == 'new':
            z.bad('a block that was not assigned is read')
        return letter(self.name, tuple(self.dims))

    def zattr(self, z, n, node):
        if n == 'shape' or n == 'dtype':
            z.bad('attribute %s' % n, node)
        return self.asword(z).zattr(z, n, node)

    def zbin(self, z, op, o, flip, node):
        return self.asword(z).zbin(z, op, o, flip, node)


# ------------------------------------------------------------------------------------------------ comparison
def equal(hy, a, b):
    """Two keys denote the same thing: None when undecided."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = [equal(hy, x, y) for x, y in zip(a, b)]
        return False if False in r else (None if None in r else True)
    if isinstance(a, Word) and isinstance(b, Word):
        return same_word(hy, a, b)
    if isinstance(a, (z3.ExprRef, int)) and isinstance(b, (z3.ExprRef, int)) and not isinstance(a, bool):
        a, b = num(a), num(b)
        if a.eq(b):
            return True
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*hy, a != b)
        r = s.check()
        return True if r == z3.unsat else (False if r == z3.sat else None)
    if type(a) is not type(b):
        return False
    return a == b


def same_letter(hy, a, b):
    if a[0] != b[0] or a[2:] != b[2:]:
        return False
    return equal(hy, a[1], b[1])


def same_word(hy, a, b):
    left = list(b.terms)
    if len(a.terms) != len(left):
        return False
    und = False
    for c, w in a.terms:
        for i, (d, v) in enumerate(left):
            if len(w) != len(v):
                continue
            r = [same_letter(hy, x, y) for x, y in zip(w, v)]
            if False in r:
                continue
            e = equal(hy, c, d)
            if None in r or e is None:
                und = True
                continue
            if e:
                del left[i]
                break
        else:
            return None if und else False
    return True


def show(v):
    if isinstance(v, Word):
        return ' + '.join('%s*%s' % (c, '.'.join('%s%s%s%s' % (n, k, '^T' if t else '', '^*' if g else '') for n, k, t, g in w)) for c, w in v.terms)[:600]
    return str(v)[:300]


class Check(object):
    """Collects the verdicts of one obligation over all paths."""
    def __init__(self, name, z):
        self.name, self.z, self.n, self.t, self.und, self.ref = name, z, 0, 0., None, None

    def eq(self, hy, a, b, what):
        self.n += 1
        r = equal(hy, a, b)
        if r is False and self.ref is None:
            self.ref = '%s: %s, but it should be %s' % (what, show(a), show(b))
        elif r is None:
            self.und = 'z3: %s' % what
        return r

    def holds(self, hy, goal, what):
        self.n += 1
        o = prove(self.name, hy, goal)
        self.t += o['time']
        if o['status'] == 'refuted' and self.ref is None:
            self.ref = '%s: %s' % (what, o.get('detail'))
        elif o['status'] != 'proved':
            self.und = '%s: %s' % (what, o.get('detail'))

    def fail(self, what):
        if self.ref is None:
            self.ref = what

    def out(self):
        st = 'refuted' if self.ref else 'undecided' if self.und or not self.n else 'proved'
        return {'name': self.name, 'status': st, 'backend': 'z3', 'time': round(self.t, 3), 'functions': list(self.z.inlined),
                'detail': self.ref or self.und or '%d comparisons' % self.n}


# ------------------------------------------------------------------------------------------------ rotation of the amplitudes
CON = {'np.dot': dot, 'numpy.dot': dot, 'np.matmul': dot, 'itertools.product': product, 'product': product, 'range': rng, 'list': listof,
       'min': minmax('min'), 'max': minmax('max'),
       'np.conj': lambda z, a, k: word(z, a[0]).conj(), 'np.conjugate': lambda z, a, k: word(z, a[0]).conj(),
       'np.transpose': lambda z, a, k: word(z, a[0]).T() if len(a) == 1 else z.bad('transpose')}


def concat(z, a, k):
    if len(a) != 1 or k.get('axis') not in (1, -1) or not isinstance(a[0], Nest):
        z.bad('concatenation')
    return letter('columns of ' + a[0].name, a[0].key)


def world(z, indexing, nl='nleads', removed=True):
    si = ZObj('si', None, dict(indexing=indexing, nleads=NL, nbaths=NL, ncharge=NC, nmany=NM, nsingle=N))
    e = removed and indexing != 'ssq'
    si.attrs['chargelst'] = Lst(z, 1, (), e)
    si.attrs['szlst'] = Lst(z, 2, (), e)
    si.attrs['ssqlst'] = Lst(z, 3, (), e)
    for h in (NL >= 1, N >= 1, NC == N + 1, NM >= 1):
        z.assume(h)
    return si


def engine(S, extra=None):
    z = Z(S)
    z.contracts = dict(CON, **(extra or {}))
    return z


def block_of(dims, n):
    """(first, stop) as the block with key: elem(key, 0) .. elem(key, count-1)+1."""
    if not isinstance(dims, tuple) or len(dims) != 2:
        return None
    lo = z3.simplify(dims[0])
    if lo.decl().name() != 'state%d' % n:
        return None
    return tuple(lo.arg(i) for i in range(n))


def whole(hy, dims, key):
    """The slice is exactly the block of this key, which is contiguous."""
    n = length(key)
    last = elem(tuple(key) + (n - 1,))
    return z3.And(dims[0] == elem(tuple(key) + (0,)), dims[1] == last + 1)


def offset(hy, a, b):
    for d in (0, -1, 1, -2, 2):
        if equal(hy, num(a) + d, b):
            return d
    return None


def progs(ev):
    return [(o[0], o[1]) for k, *o in ev if k == 'prog']


def rotation(S, rel, name, indexing, phonon):
    """Blocks of the rotated matrix."""
    def full(z, a, k):
        return letter('P', ())
    z = engine(S, {'construct_full_pmtr': full, 'np.concatenate': concat, 'np.zeros': lambda z, a, k: Big('new', 3)})

    def run(z):
        si = world(z, indexing)
        if indexing == 'ssq' or indexing == 'sz':
            z.assume(N % 2 == 0)
        r = z.inline(func(S, rel, name), [Big('T', 3), Nest('V'), si], {}, None)
        if not isinstance(r, Big) or r.name != 'new' or any(d is not FULL for d in r.dims):
            raise OutOfReach('result of %s' % name)
        return r
    ck = Check('%s (%s): every block is V^+ . block . V' % (name, indexing), z)
    sz = indexing in ('sz', 'ssq')
    seen = 0
    for pc, r, ev in z.explore(run):
        if not feas(list(z.axioms) + pc):
            continue
        hy = list(z.axioms) + pc
        if isinstance(r, Raised):
            ck.fail('raises %s when %s' % (r.what, '; '.join(str(c)[:80] for c in pc[-3:])))
            continue
        P = progs(ev)
        puts = [o for k, *o in ev if k == 'put' and o[0] == 'new']
        lead = P[0] if P else None
        if lead is None:
            raise OutOfReach('loops of %s' % name)
        if indexing == 'Lin':
            if len(puts) != 1 or len(P) != 1 or any(d is not FULL for d in puts[0][1][1:]):
                raise OutOfReach('blocks of %s' % name)
            l = puts[0][1][0]
            ck.holds(hy, z3.And(l == lead[0], lead[1].lo == 0, lead[1].hi == NL), 'every lead')
            pl = letter('P')
            want = dot(z, [pl.conj().T(), dot(z, [letter('T', (l, FULL, FULL)), pl], {})], {})
            ck.eq(hy, word(z, puts[0][2]), want, 'rotated matrix')
            seen += 1
            continue
        n = 2 if sz else 1
        if len(P) not in (2, 3) or sz and len(P) != 3:
            raise OutOfReach('loops of %s' % name)
        charge = P[1]
        step = 0 if phonon else 1
        # the block of this iteration
        if not puts:
            keys = [o[0] for k, *o in ev if k == 'lookup' and len(o[0]) == n]
            if not keys:
                raise OutOfReach('iteration without a block')
            ck.holds(hy, z3.Or(*[length(k) <= 0 for k in keys]), 'a block is skipped although it has states')
            continue
        firsts = [(block_of(d[1], n), block_of(d[2], n)) for _, d, _ in puts]
        if any(a is None or b is None for a, b in firsts):
            raise OutOfReach('blocks of %s' % name)
        if phonon:
            if len(puts) != 1:
                raise OutOfReach('blocks of %s' % name)
            c, b = firsts[0]
        else:
            if len(puts) != 2:
                ck.fail('%d blocks are assigned where a pair belongs' % len(puts))
                continue
            c, b = min(firsts, key=lambda x: 0 if offset(hy, x[0][0], x[1][0]) == 1 else 1)
        d = offset(hy, charge[0], c[0])
        if d is None or not equal(hy, puts[0][1][0], lead[0]) or not equal(hy, puts[-1][1][0], lead[0]):
            raise OutOfReach('blocks of %s' % name)
        ck.holds(hy, z3.And(lead[1].lo == 0, lead[1].hi == NL, charge[1].lo + d == 0, charge[1].hi + d == (NC if phonon else NC - 1)),
                 'every lead and every charge')
        key, key2 = tuple(c), tuple(b)
        if sz:
            # spin projections: the states of charge c and sz, and those with one more particle of the spin of the lead
            szr = lambda q: (-z3.If(q <= N - q, q, N - q), z3.If(q <= N - q, q, N - q))
            x = P[2]
            q = c[0]
            s = z3.IntVal(0) if phonon else z3.If(lead[0] < NL / 2, z3.IntVal(1), z3.IntVal(-1))
            lo, hi = szr(q)
            lo2, hi2 = szr(q + step)
            t = z3.Int('sz_any')
            valid = z3.And(t >= lo, t <= hi, (t - lo) % 2 == 0, t + s >= lo2, t + s <= hi2)
            run_ = z3.And(t >= x[1].lo, t < x[1].hi, (t - x[1].lo) % abs(x[1].step) == 0)
            if x[1].step != 2:
                raise OutOfReach('spin loop of %s' % name)
            # the same code runs for every lead and charge of the path
            ck.holds(hy, valid == run_, 'exactly the spin projections whose partner exists')
            ind = lambda q, v: (szr(q)[1] + v) / 2
            ck.holds(hy, z3.And(c[1] == ind(q, x[0]), b[0] == q + step, b[1] == ind(q + step, x[0] + s)), 'block of the spin projection')
        else:
            ck.holds(hy, b[0] == c[0] + step, 'block of the next charge')
        T = lambda u, v: letter('T', (lead[0], u, v))
        vec = 'columns of V' if indexing == 'ssq' else 'V'
        dims = [d for _, d, _ in puts]
        fwd = [i for i, f in enumerate(firsts) if equal(hy, f[0], key) and equal(hy, f[1], key2)]
        if not fwd:
            ck.fail('no block between neighbouring charges')
            continue
        i = fwd[0]
        ck.holds(hy, z3.And(whole(hy, dims[i][1], key), whole(hy, dims[i][2], key2)), 'extent of the block')
        rows, cols = dims[i][1], dims[i][2]
        want = dot(z, [letter(vec, key).conj().T(), dot(z, [T(rows, cols), letter(vec, key2)], {})], {})
        ck.eq(hy, word(z, puts[i][2]), want, 'rotated block')
        if not phonon:
            j = 1 - i
            ck.holds(hy, z3.And(whole(hy, dims[j][1], key2), whole(hy, dims[j][2], key)), 'extent of the conjugate block')
            alt = dot(z, [letter(vec, key2).conj().T(), dot(z, [T(cols, rows), letter(vec, key)], {})], {})
            if same_word(hy, word(z, puts[j][2]), alt) is not True:
                ck.eq(hy, word(z, puts[j][2]), want.conj().T(), 'Hermitian conjugate block')
        seen += 1
    if not seen:
        ck.und = 'no block is ever assigned'
    return ck.out()


# ------------------------------------------------------------------------------------------------ scatter of eigenvectors and energies
def scatter(S, rel, name, indexing, vectors):
    z = engine(S, {'np.zeros': lambda z, a, k: Big('new', 2 if vectors else 1)})

    def run(z):
        si = world(z, indexing)
        if indexing in ('sz', 'ssq'):
            z.assume(N % 2 == 0)
        r = z.inline(func(S, rel, name), [Nest('V'), si], {}, None)
        if not isinstance(r, Big) or r.name != 'new' or any(d is not FULL for d in r.dims):
            raise OutOfReach('result of %s' % name)
        return r
    what = 'every element of the eigenvectors' if vectors else 'every eigenvalue'
    ck = Check('%s (%s): %s of a block is put at its states' % (name, indexing, what), z)
    nb = {'sz': 2, 'ssq': 3}.get(indexing, 1)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not feas(hy):
            continue
        if isinstance(r, Raised):
            ck.fail('raises %s' % r.what)
            continue
        P = progs(ev)
        puts = [o for k, *o in ev if k == 'put' and o[0] == 'new']
        if len(puts) != 1 or len(P) != nb + (2 if vectors else 1):
            raise OutOfReach('loops of %s' % name)
        charge = P[0]
        ck.holds(hy, z3.And(charge[1].lo == 0, charge[1].hi == NC), 'every charge')
        q = charge[0]
        szmax = z3.If(q <= N - q, q, N - q)
        key = [q]
        if nb >= 2:
            x = P[1]
            t = z3.Int('sz_any')
            ck.holds(hy, z3.And(t >= -szmax, t <= szmax, (t + szmax) % 2 == 0) == z3.And(t >= x[1].lo, t < x[1].hi, (t - x[1].lo) % x[1].step == 0),
                     'every spin projection')
            key.append((szmax + x[0]) / 2)
        skey = list(key)
        if nb == 3:
            y = P[2]
            a = z3.If(x[0] >= 0, x[0], -x[0])
            ck.holds(hy, z3.And(t >= a, t <= szmax, (t - a) % 2 == 0) == z3.And(t >= y[1].lo, t < y[1].hi, (t - y[1].lo) % y[1].step == 0),
                     'every total spin')
            key.append((y[0] - a) / 2)
        dims, v = puts[0][1], puts[0][2]
        js = P[nb:]
        if vectors:
            rows, cols = (skey, key) if nb == 3 else (key, key)
            ck.holds(hy, z3.And(js[0][1].lo == 0, js[0][1].hi == length(rows), js[1][1].lo == 0, js[1][1].hi == length(cols)), 'every element')
            if not (isinstance(v, tuple) and len(v) == 4 and v[0] == 'element'):
                raise OutOfReach('value in %s' % name)
            ck.holds(hy, z3.And(dims[0] == elem(rows + [num(v[3][0])]), dims[1] == elem(cols + [num(v[3][1])])), 'row and column')
            ck.eq(hy, tuple(v[2]), tuple(key), 'eigenvectors of the block')
            ck.holds(hy, z3.And(num(v[3][0]) == js[0][0], num(v[3][1]) == js[1][0]), 'element of the eigenvectors')
        else:
            ck.holds(hy, z3.And(js[0][1].lo == 0, js[0][1].hi == length(key)), 'every state')
            if not isinstance(v, Nest):
                raise OutOfReach('value in %s' % name)
            ck.holds(hy, dims[0] == elem(key + [js[0][0]]), 'state')
            ck.eq(hy, tuple(v.key), tuple(key) + (js[0][0],), 'eigenvalue of the block')
    return ck.out()


# ------------------------------------------------------------------------------------------------ diagonalisation
def eigh(z, a, k):
    if len(a) != 1 or k:
        z.bad('arguments of eigh')
    m = word(z, a[0])
    return (('eigenvalues', m), letter('eigenvectors', (m,)))


def hamcon(kind):
    def f(z, a, k):
        if len(a) != 3 or k:
            z.bad('arguments of a Hamiltonian')
        return letter(kind, ('%s' % getattr(a[1], 'name', a[1]), getattr(a[2], 'key', ())))
    return f


HAM = {'np.linalg.eigh': eigh, 'scipy.linalg.eigh': eigh, 'construct_ham_coulomb': hamcon('coulomb'), 'construct_ham_hopping': hamcon('hopping')}


def quantum_dot(z, S, indexing):
    m = S.module('qmeq/qdot.py')
    si = world(z, indexing)
    si.attrs['get_lst'] = Fn(lambda z, a, k: lst(z, a, k, si))
    qd = ZObj('QuantumDot', (m, m.classes['QuantumDot']), dict(si=si, hsingle=ZObj('hsingle'), coulomb=ZObj('coulomb'), valslst=Nest('vals'),
                                                              vecslst=Nest('vecs'), hamlst=Nest('H'), Ea=Big('Ea', 1)))
    return qd, si


def lst(z, a, k, si):
    names = ('charge', 'sz', 'ssq')
    d = dict(zip(names, a))
    d.update(k)
    c, s, q = [d.get(n) for n in names]
    szmax = lambda c: z3.If(c <= N - c, c, N - c)
    if s is None:
        return Lst(z, 0, (c,))
    if q is None:
        return Lst(z, 0, (c, (szmax(c) + s) / 2), si.attrs['szlst'].empty)
    z.bad('states of a total spin')


def charge_range(z, sz=None):
    c = z3.Int('charge')
    z.assume(z3.And(c >= 0, c < NC))
    if sz is not None:
        m = z3.If(c <= N - c, c, N - c)
        z.assume(z3.And(sz >= -m, sz <= m, (sz + m) % 2 == 0))
    return c


def stores(ev):
    out = {}
    for k, *o in ev:
        if k == 'store':
            out.setdefault(o[0], []).append((o[1], o[2]))
    return out


def one_block(S, indexing, how):
    """diagonalise_charge: eigenvalues and eigenvectors are those of the Hamiltonian of the block."""
    z = engine(S, HAM)

    def run(z):
        qd, si = quantum_dot(z, S, indexing)
        if indexing in ('sz', 'ssq'):
            z.assume(N % 2 == 0)
        s = z3.Int('sz') if how == 'sz' else None
        c = charge_range(z, s)
        m = S.method(qd.cls[0], qd.cls[1], 'diagonalise_charge')
        z.inline(m, [qd, c] + ([s] if s is not None else []), {}, None)
        return qd
    ck = Check('diagonalise_charge (%s, %s): eigenvalues and eigenvectors are those of the Hamiltonian of the block' % (indexing, how), z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not feas(hy):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        c, s = z3.Int('charge'), z3.Int('sz')
        key = (c,) if how == 'charge' else (c, (z3.If(c <= N - c, c, N - c) + s) / 2)
        st = stores(ev)
        if set(st) != {'vals', 'vecs'} or len(st['vals']) != 1 or len(st['vecs']) != 1:
            ck.fail('what is stored: %s' % st)
            continue
        H = letter('H', key)
        ck.eq(hy, tuple(st['vals'][0][0]), key, 'place of the eigenvalues')
        ck.eq(hy, tuple(st['vecs'][0][0]), key, 'place of the eigenvectors')
        ck.eq(hy, st['vals'][0][1], ('eigenvalues', H), 'eigenvalues')
        ck.eq(hy, st['vecs'][0][1], letter('eigenvectors', (H,)), 'eigenvectors')
    return ck.out()


def no_matrix(S):
    """Without a given matrix the Hamiltonian is the sum of the one-particle and the Coulomb part of the same states."""
    z = engine(S, HAM)

    def run(z):
        states = Lst(z, 0, ())
        return z.inline(func(S, 'qmeq/qdot.py', 'construct_manybody_eigenstates'), [ZObj('qd'), ZObj('hs'), ZObj('U'), states], {}, None)
    ck = Check('construct_manybody_eigenstates: the Hamiltonian is the sum of its two parts', z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        h = Word(letter('hopping', ('hs', ())).terms + letter('coulomb', ('U', ())).terms)
        ck.eq(hy, r, (('eigenvalues', h), letter('eigenvectors', (h,))), 'result')
    return ck.out()


def all_blocks(S, indexing):
    """diagonalise: every block, then the energies."""
    con = dict(HAM)
    con['QuantumDot.diagonalise_charge'] = lambda z, a, k: z.events.append(('block', tuple(a[1:]) + tuple(k.values())))
    con['construct_Ea_manybody'] = lambda z, a, k: letter('energies of', (a[0].name, a[1].name))

    def whole_charge(z, a, k):
        if len(a) != 5:
            z.bad('arguments')
        z.events.append(('all', a[1], a[2].name, a[3].name, word(z, a[4])))
        return (('vals of', a[1]), ('vecs of', a[1]))
    con['construct_manybody_eigenstates_ssq_all'] = whole_charge
    z = engine(S, con)

    def run(z):
        qd, si = quantum_dot(z, S, indexing)
        if indexing in ('sz', 'ssq'):
            z.assume(N % 2 == 0)
        z.inline(S.method(qd.cls[0], qd.cls[1], 'diagonalise'), [qd], {}, None)
        return qd
    ck = Check('diagonalise (%s): every block is diagonalised, then the energies are set' % indexing, z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not feas(hy):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        P = progs(ev)
        ck.holds(hy, z3.And(P[0][1].lo == 0, P[0][1].hi == NC), 'every charge')
        q = P[0][0]
        m = z3.If(q <= N - q, q, N - q)
        bl = [o[0] for k, *o in ev if k == 'block']
        if indexing == 'ssq':
            al = [o for k, *o in ev if k == 'all']
            if len(al) != 1:
                raise OutOfReach('diagonalisation of one charge')
            st = stores(ev)
            ck.eq(hy, num(al[0][0]), q, 'charge')
            ck.eq(hy, tuple(al[0][1:3]), ('hsingle', 'coulomb'), 'parameters')
            low = z3.If(q % 2 == 0, 0, -1)
            ck.eq(hy, al[0][3], letter('H', (q, (m + low) / 2)), 'Hamiltonian of the lowest spin projection')
            ck.eq(hy, st.get('vals', [((), None)])[0], ((q,), ('vals of', q)), 'eigenvalues')
            ck.eq(hy, st.get('vecs', [((), None)])[0], ((q,), ('vecs of', q)), 'eigenvectors')
        else:
            if len(bl) != 1:
                raise OutOfReach('diagonalisation of one block')
            if indexing == 'sz':
                x, t = P[1], z3.Int('sz_any')
                ck.holds(hy, z3.And(t >= -m, t <= m, (t + m) % 2 == 0) == z3.And(t >= x[1].lo, t < x[1].hi, (t - x[1].lo) % x[1].step == 0),
                         'every spin projection')
                ck.eq(hy, tuple(num(v) for v in bl[0]), (q, x[0]), 'block')
            else:
                ck.eq(hy, tuple(num(v) for v in bl[0]), (q,), 'block')
        last = ev[-1]
        if last[0] != 'put' or last[1] != 'Ea':
            if not any(e[0] == 'put' and e[1] == 'Ea' for e in ev):
                ck.fail('the energies are not set')
            else:
                raise OutOfReach('order of the steps')
        else:
            ck.eq(hy, word(z, last[3]), letter('energies of', ('vals', 'si')), 'energies')
    return ck.out()


# ------------------------------------------------------------------------------------------------ total spin
def sqrt(z, a, k):
    r = z3.Real('root!%d' % next(fock._n))
    z.assume(z3.And(r >= 0, z3.Implies(real(a[0]) >= 0, r * r == real(a[0]))))
    z.events.append(('root', r, real(a[0])))
    return r


def ladder(S, given=True):
    """construct_manybody_eigenstates_ssq_all."""
    con = dict(HAM)
    con['ssquare_eigenstates'] = lambda z, a, k: Nest('Q', tuple(a[:2]))
    con['operator_sp'] = lambda z, a, k: letter('S+', tuple(num(x) for x in a[:2]))
    con['operator_sm'] = lambda z, a, k: letter('S-', tuple(num(x) for x in a[:2]))
    con['np.sqrt'] = sqrt
    z = engine(S, con)

    def run(z):
        qd, si = quantum_dot(z, S, 'ssq')
        z.assume(N % 2 == 0)
        c = charge_range(z)
        f = func(S, 'qmeq/qdot.py', 'construct_manybody_eigenstates_ssq_all')
        # the two result lists are made by comprehensions and filled afterwards
        made = {}

        def fill(e, env, mod):
            o = Nest('out%d' % len(made))
            made[len(made)] = o
            return o
        z.ev_ListComp = fill
        r = z.inline(f, [qd, c, ZObj('hsingle'), ZObj('coulomb')] + ([letter('H', (c,))] if given else []), {}, None)
        if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, Nest) and not x.key for x in r)) or r[0] is r[1]:
            raise OutOfReach('result')
        return r[0].name, r[1].name
    ck = Check('construct_manybody_eigenstates_ssq_all: spin blocks of the Hamiltonian, then the ladder operators' + ('' if given else ' (no matrix given)'), z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not feas(hy):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        c = z3.Int('charge')
        m = z3.If(c <= N - c, c, N - c)
        low = z3.If(c % 2 == 0, z3.IntVal(0), z3.IntVal(-1))
        ind = lambda s: (m + s) / 2
        ab = lambda s: z3.If(s >= 0, s, -s)
        P = progs(ev)
        st = stores(ev)
        vals, vecs = st.get(r[0], []), st.get(r[1], [])
        if len(vals) != 3 or len(vecs) != 3 or len(P) != 5:
            raise OutOfReach('structure of the loops')
        # the block of lowest |sz|
        q = P[0]
        t = z3.Int('any')

        def runs(x, lo, hi, what):
            step = x.step
            ck.holds(hy, z3.And(t >= lo, t <= hi, (t - lo) % 2 == 0) == (
                z3.And(t >= x.lo, t < x.hi, (t - x.lo) % step == 0) if step > 0 else z3.And(t <= x.lo, t > x.hi, (x.lo - t) % (-step) == 0)), what)
        runs(q[1], ab(low), m, 'every total spin')
        qi = (q[0] - ab(low)) / 2
        Q = letter('Q', (c, low, qi))
        H = letter('H', (c,)) if given else Word(letter('hopping', ('hsingle', (c, ind(low)))).terms + letter('coulomb', ('coulomb', (c, ind(low)))).terms)
        h = dot(z, [Q.T(), dot(z, [H, Q], {})], {})
        ck.eq(hy, tuple(vals[0][0]), (ind(low), qi), 'place of the eigenvalues')
        ck.eq(hy, tuple(vecs[0][0]), (ind(low), qi), 'place of the eigenvectors')
        ck.eq(hy, vals[0][1], ('eigenvalues', h), 'eigenvalues')
        ck.eq(hy, vecs[0][1], dot(z, [Q, letter('eigenvectors', (h,))], {}), 'eigenvectors')
        roots = [o for k, *o in ev if k == 'root']
        if len(roots) != 2:
            raise OutOfReach('norms')
        for up, x, q, va, ve, root in ((2, P[1], P[2], vals[1], vecs[1], roots[0]), (-2, P[3], P[4], vals[2], vecs[2], roots[1])):
            s = x[0]
            # reached: every sz with |sz+2| <= m beyond the lowest block
            if up > 0:
                runs(x[1], low, m - 2, 'every spin projection above')
            else:
                runs(x[1], -m + 2, low, 'every spin projection below')
            runs(q[1], ab(s + up), m, 'every total spin')
            i1, i2 = (q[0] - ab(s)) / 2, (q[0] - ab(s + up)) / 2
            ck.eq(hy, tuple(va[0]), (ind(s + up), i2), 'place of the eigenvalues')
            ck.eq(hy, tuple(ve[0]), (ind(s + up), i2), 'place of the eigenvectors')
            if not isinstance(va[1], Nest) or not isinstance(ve[1], Word) or len(ve[1].terms) != 1:
                raise OutOfReach('value')
            ck.eq(hy, (va[1].name,) + tuple(va[1].key), (r[0], ind(s), i1), 'eigenvalues of the block before')
            co, w = ve[1].terms[0]
            want = dot(z, [letter('S+' if up > 0 else 'S-', (c, s)), letter(r[1], (ind(s), i1))], {})
            ck.eq(hy, Word([(z3.RealVal(1), w)]), want, 'ladder operator on the block before')
            ck.holds(hy, root[1] == z3.ToReal(q[0] * (q[0] + 2) - s * (s + up)), 'norm')
            ck.holds([root[0] > 0], co == 1 / root[0], 'coefficient')
    return ck.out()


def spin_operator(S, name, up):
    """operator_sp / operator_sm: 2 * sum over orbitals of c+ c with one more / fewer up spin, for an arbitrary state and orbital."""
    z = Z(S)
    mats = []

    def zeros(z, a, k):
        mats.append((Mat('new', 2), a))
        return mats[-1][0]
    z.contracts = {'np.zeros': zeros, 'min': minmax('min'), 'max': minmax('max')}
    dind = N / 2
    lists = []

    def run(z):
        w = W(z)
        si = w.si()
        c, s = z3.Int('charge'), z3.Int('sz')
        m = z3.If(c <= N - c, c, N - c)
        for h in (N % 2 == 0, N >= 2, c >= 0, c <= N, s >= -m, s <= m, (s + m) % 2 == 0):
            z.assume(h)

        def get_lst(z, a, k):
            if len(a) != 2 or k:
                z.bad('states')
            q = Labels(w)
            q.key = tuple(num(x) for x in a)
            f = z3.Function('label!%d' % len(w.lists), I, I)
            n = z3.Int('nstates!%d' % len(w.lists))
            q.zlen = lambda z: n
            q.n, q.f = n, f
            q.pos = []

            def zget(z, idx, node):
                l = f(num(idx[0]))
                p = (num(idx[0]), w.occ(l))
                q.pos.append(p)
                return l
            q.zget = zget

            def zattr(z, nm, node):
                def g(z, a, k):
                    o = w.tok.get(num(a[0]).get_id())
                    if o is None:
                        z.bad('position of a label', node)
                    p = fresh('pos')
                    q.pos.append((p, o[1]))
                    return p
                if nm != 'index':
                    z.bad('attribute %s' % nm, node)
                return Fn(g)
            q.zattr = zattr
            w.lists.append(q)
            return q
        w.lists = []
        si.attrs['get_lst'] = Fn(get_lst)

        def get_ind(z, a, k):
            # no state is removed when the total spin is used
            if k.get('linq') or len(a) > 1 or not isinstance(a[0], Occ):
                z.bad('label of something else')
            i = fresh('ind')
            w.tok[i.get_id()] = (i, a[0].copy())
            return i
        si.attrs['get_ind'] = Fn(get_ind)
        r = z.inline(func(S, 'qmeq/qdot.py', name), [c, s, si], {}, None)
        return w, r
    ck = Check('%s: what a state and an orbital contribute is the operator product' % name, z)
    c, s = z3.Int('charge'), z3.Int('sz')
    m = z3.If(c <= N - c, c, N - c)
    for pc, r, ev in z.explore(run, limit=500):
        hy = list(z.axioms) + pc
        if not feas(hy):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        w, res = r
        beyond = s + 2 > m if up else s - 2 < -m
        if not isinstance(res, Mat):
            if isinstance(res, int) and res == 0:
                ck.holds(hy, beyond, 'zero although there are states')
                continue
            raise OutOfReach('result')
        ck.holds(hy, z3.Not(beyond), 'no zero although there are no states')
        src = [(q, p) for q in w.lists for p in q.pos if not p[1].over]
        if len(src) != 1:
            raise OutOfReach('the state')
        q, (j, st) = src[0]
        ck.eq(hy, q.key, (c, s), 'states of the column')
        rg = [o for k, *o in ev if k == 'range']
        if len(rg) != 2 or not rg[0][0].eq(j):
            raise OutOfReach('loops')
        ck.holds(hy, z3.And(rg[0][1] == 0, rg[0][2] == q.n, rg[1][1] == 0, rg[1][2] == dind), 'every state and orbital')
        a = rg[1][0]
        k = len(z.extra)
        t = Term(z, st).apply(a + dind if up else a, False).apply(a if up else a + dind, True)
        hy = hy + z.extra[k:]
        del z.extra[k:]
        sets = [o for kk, *o in ev if kk in ('set', 'add')]
        g = z3.And(*t.guard)
        for h, (on,) in split(hy, [g]):
            if not on:
                if sets:
                    ck.fail('an element is set where the operator product vanishes')
                ck.n += 1
                continue
            if any(kk == 'removed' for kk, *o in ev):
                continue
            if len(sets) != 1:
                ck.fail('%d elements where one belongs' % len(sets))
                continue
            mat, idx, v = sets[0]
            tgt = [(q2, p) for q2 in w.lists for p in q2.pos if p[0].eq(idx[0])]
            if not tgt or not idx[1].eq(j):
                raise OutOfReach('element')
            ck.eq(h, tgt[0][0].key, (c, s + (2 if up else -2)), 'states of the row')
            if not same(h, tgt[0][1][1], t.o):
                ck.fail('the row is another state')
            amp = t.amp(Cx(z3.RealVal(2), z3.RealVal(0)))
            ck.holds(h, z3.And(v.re == amp.re, v.im == 0), 'value')
    return ck.out()


def ssquare(S):
    """operator_ssquare: (S+ S- + S- S+)/2 + Sz^2, a product with a state that does not exist being zero."""
    con = {'operator_sp': lambda z, a, k: letter('S+', tuple(num(x) for x in a[:2])), 'operator_sm': lambda z, a, k: letter('S-', tuple(num(x) for x in a[:2])),
           'np.eye': lambda z, a, k: letter('1', ())}
    z = engine(S, con)

    def run(z):
        si = world(z, 'ssq')
        s = z3.Int('sz')
        c = charge_range(z, s)
        si.attrs['get_lst'] = Fn(lambda z, a, k: lst(z, a, k, si))
        return z.inline(func(S, 'qmeq/qdot.py', 'operator_ssquare'), [c, s, si], {}, None)
    ck = Check('operator_ssquare: (S+ S- + S- S+)/2 + Sz^2', z)
    c, s = z3.Int('charge'), z3.Int('sz')
    m = z3.If(c <= N - c, c, N - c)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not feas(hy):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        if not isinstance(r, Word):
            raise OutOfReach('result')
        half = z3.RealVal('1/2')
        for h, (a, b) in split(hy, [s - 2 >= -m, s + 2 <= m]):
            want = [(z3.ToReal(s * s), letter('1').terms[0][1])]
            if a:
                want.append((half, dot(z, [letter('S+', (c, s - 2)), letter('S-', (c, s))], {}).terms[0][1]))
            if b:
                want.append((half, dot(z, [letter('S-', (c, s + 2)), letter('S+', (c, s))], {}).terms[0][1]))
            ck.eq(h, r, Word(want), 'operator')
    return ck.out()


def one_spin(S, given):
    """construct_manybody_eigenstates_ssq: the block of one total spin."""
    con = dict(HAM)
    con['ssquare_eigenstates'] = lambda z, a, k: Nest('Q', tuple(a[:2]))
    z = engine(S, con)
    t = z3.Int('ssq')

    def run(z):
        qd, si = quantum_dot(z, S, 'ssq')
        z.assume(N % 2 == 0)
        s = z3.Int('sz')
        c = charge_range(z, s)
        z.assume(z3.And(t >= z3.If(s >= 0, s, -s), (t - s) % 2 == 0))
        return z.inline(func(S, 'qmeq/qdot.py', 'construct_manybody_eigenstates_ssq'),
                        [qd, c, s, t, ZObj('hsingle'), ZObj('coulomb')] + ([letter('H', (c, s))] if given else []), {}, None)
    ck = Check('construct_manybody_eigenstates_ssq: the spin block of the Hamiltonian%s' % ('' if given else ' (no matrix given)'), z)
    c, s = z3.Int('charge'), z3.Int('sz')
    m = z3.If(c <= N - c, c, N - c)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not feas(hy):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        Q = letter('Q', (c, s, (t - z3.If(s >= 0, s, -s)) / 2))
        H = letter('H', (c, s)) if given else Word(letter('hopping', ('hsingle', (c, (m + s) / 2))).terms + letter('coulomb', ('coulomb', (c, (m + s) / 2))).terms)
        h = dot(z, [Q.T(), dot(z, [H, Q], {})], {})
        ck.eq(hy, r[0], ('eigenvalues', h), 'eigenvalues')
        ck.eq(hy, r[1], dot(z, [Q, letter('eigenvectors', (h,))], {}), 'eigenvectors')
    return ck.out()


class Spectrum(object):
    """A function f of the eigenvalues e_k of a matrix: f as an expression in e."""
    e = z3.Real('eigenvalue')

    def __init__(self, m, f=None):
        self.m, self.f = m, self.e if f is None else f

    def zbin(self, z, op, o, flip, node):
        a, b = (real(num(o)), self.f) if flip else (self.f, real(num(o)))
        return Spectrum(self.m, real(z.binop(op, a, b, node)))

    def zcmp(self, z, op, o, flip, node):
        if op != 'Eq':
            z.bad('comparison of eigenvalues', node)
        return Chosen(self.m, self.f, num(o))


class Chosen(object):
    """The places of the eigenvalues with f(e) == x.  Eigenvalues of eigh are sorted and f is monotone: one run first..last."""
    def __init__(self, m, f, x):
        self.m, self.f, self.x, self.first, self.last = m, f, x, fresh('first'), fresh('last')
        CHOSEN.append(self)

    def zget(self, z, idx, node):
        if idx == [0]:
            return self.first
        if idx == [-1]:
            return self.last
        z.bad('place of an eigenvalue', node)


class Vectors(object):
    def __init__(self, m, cols=None):
        self.m, self.cols = m, cols

    def zget(self, z, idx, node):
        full = slice(None, None, None)
        if len(idx) == 1 and idx[0] == full:
            return self
        if len(idx) != 2 or idx[0] != full or self.cols is not None:
            z.bad('part of the eigenvectors', node)
        return Vectors(self.m, idx[1])


def spin_states(S):
    """ssquare_eigenstates: for every total spin s the eigenvectors of S^2 whose eigenvalue is s(s+2), in the place of s."""
    def herm(z, a, k):
        m = word(z, a[0])
        return Spectrum(m), Vectors(m)

    def root(z, a, k):
        x = a[0]
        if not isinstance(x, Spectrum):
            return sqrt(z, a, k)
        r = z3.Function('sqrt', z3.RealSort(), z3.RealSort())(x.f)
        z.assume(z3.And(r >= 0, z3.Implies(x.f >= 0, r * r == x.f)))
        return Spectrum(x.m, r)

    def rint(z, a, k):
        x = a[0]
        n = z3.ToInt(x.f + z3.RealVal('1/2'))
        return Spectrum(x.m, z3.ToReal(n))
    con = {'operator_ssquare': lambda z, a, k: letter('S2', tuple(num(x) for x in a[:2])), 'np.linalg.eigh': herm, 'np.sqrt': root, 'np.rint': rint,
           'np.round': rint, 'np.nonzero': lambda z, a, k: (a[0],), 'np.where': lambda z, a, k: (a[0],), 'np.flatnonzero': lambda z, a, k: a[0]}
    z = engine(S, con)
    c, s = z3.Int('charge'), z3.Int('sz')
    m = z3.If(c <= N - c, c, N - c)
    q = z3.Int('asked')

    def run(z):
        si = world(z, 'ssq')
        for h in (N % 2 == 0, c >= 0, c <= N, s >= -m, s <= m, (s + m) % 2 == 0):
            z.assume(h)
        z.ev_ListComp = lambda e, env, mod: Nest('out')
        r = z.inline(func(S, 'qmeq/qdot.py', 'ssquare_eigenstates'), [c, s, si], {}, None)
        if not isinstance(r, Nest) or r.name != 'out' or r.key:
            raise OutOfReach('result')
        return r
    ck = Check('ssquare_eigenstates: for every total spin the eigenvectors of S^2 with its eigenvalue', z)
    ab = z3.If(s >= 0, s, -s)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not feas(hy):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        st, P = stores(ev).get('out', []), progs(ev)
        if len(st) != 1 or len(P) != 1:
            raise OutOfReach('structure of the loops')
        (key, v), (x, rg) = st[0][:2], P[0]
        t = z3.Int('any')
        ck.holds(hy, z3.And(t >= ab, t <= m, (t - ab) % 2 == 0) == z3.And(t >= rg.lo, t < rg.hi, (t - rg.lo) % rg.step == 0), 'every total spin')
        ck.eq(hy, tuple(key), ((x - ab) / 2,), 'place')
        if not isinstance(v, Vectors):
            raise OutOfReach('value')
        ck.eq(hy, v.m, letter('S2', (c, s)), 'operator')
        w = v.cols
        if isinstance(w, slice):
            # the mask that the bounds come from
            mk = [o for o in CHOSEN if o.first.eq(w.start)] if isinstance(w.start, z3.ArithRef) else []
            if len(mk) != 1 or w.step is not None:
                raise OutOfReach('columns')
            w = mk[0]
            ck.holds([w.last >= w.first, w.first >= 0], num(v.cols.stop) == w.last + 1, 'last eigenvector')
        if not isinstance(w, Chosen):
            raise OutOfReach('columns')
        ck.eq(hy, w.m, letter('S2', (c, s)), 'eigenvalues')
        # eigenvalues of S^2 are k(k+2) (in units of hbar^2/4): f(k(k+2)) == x exactly for k == x
        k = z3.Int('k')
        ek = z3.ToReal(k*(k + 2))
        fk = z3.substitute(w.f, (Spectrum.e, ek))
        rs = [y for y in subterms(fk) if z3.is_app(y) and y.decl().name() == 'sqrt']
        ax = []
        for y in rs:
            ax.append(z3.Implies(y.arg(0) == z3.ToReal((k + 1)*(k + 1)), y == z3.ToReal(k + 1)))
            ax.append(z3.Implies(z3.BoolVal(z3.is_true(z3.simplify(z3.simplify(y.arg(0) - z3.ToReal((k + 1)*(k + 1)), som=True) == 0))), y == z3.ToReal(k + 1)))
        ck.holds(pc + ax + [k >= 0], (fk == z3.ToReal(num(w.x))) == (k == x), 'eigenvalue s(s+2)')
    return ck.out()


def subterms(e):
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        out.append(x)
        todo += x.children()
    return out


CHOSEN = []

# ------------------------------------------------------------------------------------------------ objects
def rotate_methods(S, rel, cls, fn, mat):
    """rotate: the stored matrix is the rotated Fock matrix; use_...0: it is the Fock matrix."""
    z = engine(S, {fn: lambda z, a, k: letter('rotated', (word(z, a[0]), a[1].name, a[2].name, a[3] if len(a) > 3 else k.get('indexing')))})
    m = S.module(rel)
    out = []
    for meth in ('rotate', 'use_%s0' % mat):
        def run(z):
            o = ZObj(cls, (m, m.classes[cls]), {'si': ZObj('si'), 'mtype': 'complex', mat: Big(mat, 3), mat + '0': Big(mat + '0', 3)})
            z.inline(S.method(m, m.classes[cls], meth), [o] + ([Nest('vecs'), 'some'] if meth == 'rotate' else []), {}, None)
            return o
        ck = Check('%s.%s: what %s is afterwards' % (cls, meth, mat), z)
        for pc, r, ev in z.explore(run):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            puts = [o for k, *o in ev if k == 'put']
            v = r.attrs[mat]
            if not puts and not isinstance(v, Big):
                val = word(z, v)
            elif not puts:
                ck.fail('%s is not set' % mat)
                continue
            else:
                if len(puts) != 1 or puts[0][0] != mat or any(d is not FULL for d in puts[0][1]):
                    raise OutOfReach('what is assigned')
                val = word(z, puts[0][2])
            z.events = []
            base = letter(mat + '0', (FULL, FULL, FULL))
            ck.eq(list(z.axioms) + pc, val, letter('rotated', (base, 'vecs', 'si', 'some')) if meth == 'rotate' else base, mat)
        out.append(ck.out())
    return out


ASSUME = {'C06': ['numpy.linalg.eigh returns the eigenvalues and orthonormal eigenvectors of a Hermitian matrix; numpy.dot, conj and T are the matrix operations',
                  'the states of a block are contiguous in the order of the indexing (C01), eigenvectors of different blocks do not mix, '
                  'and the Fock matrices connect neighbouring charges only (C04), so that the blocks make up P^+ T P',
                  'eigenvectors of S^2 are selected by rounded eigenvalues in floating point: bounded runtime check']}


def obligations(prop, S):
    if prop != 'C06':
        return []
    r = []
    for ix in ('Lin', 'charge', 'sz', 'ssq'):
        r += guarded('rotate_Tba (%s)' % ix, lambda: rotation(S, 'qmeq/leadstun.py', 'rotate_Tba', ix, False))
        r += guarded('elph_rotate_Vbbp (%s)' % ix, lambda: rotation(S, 'qmeq/baths.py', 'elph_rotate_Vbbp', ix, True))
        r += guarded('construct_full_pmtr (%s)' % ix, lambda: scatter(S, 'qmeq/leadstun.py', 'construct_full_pmtr', ix, True))
        r += guarded('construct_Ea_manybody (%s)' % ix, lambda: scatter(S, 'qmeq/qdot.py', 'construct_Ea_manybody', ix, False))
        r += guarded('diagonalise (%s)' % ix, lambda: all_blocks(S, ix))
        r += guarded('diagonalise_charge (%s)' % ix, lambda: one_block(S, ix, 'sz' if ix in ('sz', 'ssq') else 'charge'))
    r += guarded('construct_manybody_eigenstates', lambda: no_matrix(S))
    r += guarded('construct_manybody_eigenstates_ssq_all', lambda: ladder(S))
    r += guarded('construct_manybody_eigenstates_ssq_all', lambda: ladder(S, False))
    r += guarded('operator_sp', lambda: spin_operator(S, 'operator_sp', True))
    r += guarded('operator_sm', lambda: spin_operator(S, 'operator_sm', False))
    r += guarded('operator_ssquare', lambda: ssquare(S))
    r += guarded('ssquare_eigenstates', lambda: spin_states(S))
    for g in (True, False):
        r += guarded('construct_manybody_eigenstates_ssq', lambda: one_spin(S, g))
    r += guarded('LeadsTunneling.rotate', lambda: rotate_methods(S, 'qmeq/leadstun.py', 'LeadsTunneling', 'rotate_Tba', 'Tba'))
    r += guarded('PhononBaths.rotate', lambda: rotate_methods(S, 'qmeq/baths.py', 'PhononBaths', 'elph_rotate_Vbbp', 'Vbbp'))
    return r


SELF = {'C06': [('qmeq/leadstun.py', None, 'rotate_Tba'), ('qmeq/qdot.py', None, 'construct_Ea_manybody'), ('qmeq/baths.py', None, 'elph_rotate_Vbbp'),
                ('qmeq/qdot.py', 'QuantumDot', 'diagonalise')]}
