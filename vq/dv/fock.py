"""Occupation vectors, arbitrary iterations of loops, and matrices that are only accumulated, for the z3 executor.

A loop is decided for one arbitrary iteration: its variable is a new constant in range (an arbitrary key of the container);
a variable assigned in the body may not be read before its assignment in the same iteration nor after the loop, otherwise the
function is out of reach (no invariant is guessed)."""
import ast, itertools
import z3
from .zx import Fn, Cnt, Brk, Ret, Cx, cx, num, SymRange
from .src import OutOfReach

OCC = z3.Function('occ', z3.IntSort(), z3.IntSort(), z3.IntSort())
PRE = z3.Function('prefix', z3.IntSort(), z3.IntSort(), z3.IntSort())
_n = itertools.count()


def fresh(name):
    return z3.Int('%s!%d' % (name, next(_n)))


class Poison(object):
    """Value of a variable of another iteration."""
    def zpoison(self):
        return True


def assigned(stmts):
    out = set()
    for st in stmts:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, ast.FunctionDef):
                out.add(x.name)
    return out


def iterate(z, st, env, mod, value):
    """One arbitrary iteration with the given value of the loop variable."""
    names = assigned(st.body) | assigned([st.target])
    for n in names:
        env[n] = Poison()
    z.bind(st.target, value, env, mod, st)
    try:
        z.block(st.body, env, mod)
    except Cnt:
        pass
    except Brk:
        z.bad('break in a loop over arbitrary entries', st)
    except Ret:
        z.bad('return in a loop over arbitrary entries', st)
    if st.orelse:
        z.bad('else of a loop', st)
    for n in names:
        env[n] = Poison()


def range_loop(rng, z, st, env, mod):
    a = [num(x) for x in rng.args]
    lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) > 2:
        z.bad('range with a step', st)
    j = fresh('j')
    z.assume(z3.And(lo <= j, j < hi))
    z.events.append(('range', j, lo, hi))
    iterate(z, st, env, mod, j)


SymRange.zloop = range_loop


class Occ(object):
    """The occupation vector of a label, with elements overwritten in order."""
    def __init__(self, base, over=(), sites=None):
        self.base, self.over, self.sites = base, list(over), sites if sites is not None else []

    def __repr__(self):
        return 'Occ(%s, %s)' % (self.base, self.over)

    def copy(self):
        return Occ(self.base, self.over, self.sites)

    def touch(self, z, i):
        """Facts about occupations and their prefix sums at the positions that are looked at; complete for finitely many."""
        i = num(i)
        for j in self.sites:
            if j.eq(i):
                return
        b = self.base
        z.assume(z3.And(OCC(b, i) >= 0, OCC(b, i) <= 1, PRE(b, i) >= 0, z3.Implies(i >= 0, PRE(b, i) <= i), z3.Implies(i == 0, PRE(b, i) == 0)))
        for j in self.sites:
            for p, q in ((i, j), (j, i)):
                d = PRE(b, q) - PRE(b, p) - OCC(b, p)
                z.assume(z3.Implies(p < q, z3.And(d >= 0, d <= q - p - 1)))
        self.sites.append(i)

    def at(self, x):
        v = OCC(self.base, x)
        for i, w in self.over:
            v = z3.If(x == i, w, v)
        return v

    def pre(self, x):
        """Sum of the elements before x."""
        p, cur = PRE(self.base, x), Occ(self.base, (), self.sites)
        for i, w in self.over:
            p = p + z3.If(i < x, w - cur.at(i), 0)
            cur.over.append((i, w))
        return p

    def zget(self, z, idx, node):
        if len(idx) != 1:
            z.bad('element of an occupation vector', node)
        i = idx[0]
        if isinstance(i, slice):
            if i.step not in (None, 1):
                z.bad('slice with a step', node)
            if i.start is None and i.stop is None:
                return self.copy()
            return Part(self, i.start, i.stop)
        if isinstance(i, int) and i < 0:
            z.bad('negative index', node)
        self.touch(z, i)
        return z3.simplify(self.at(num(i)))

    def zset(self, z, idx, v, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('assignment to an occupation vector', node)
        self.touch(z, idx[0])
        self.over.append((num(idx[0]), num(v)))

    def zlist(self, z):
        return self.copy()

    def zattr(self, z, n, node):
        if n == 'copy':
            return Fn(lambda z, a, k: self.copy())
        z.bad('attribute %s of an occupation vector' % n, node)

    def zlen(self, z):
        return z3.Int('nsingle')

    def zsum(self, z):
        n = z3.Int('nsingle')
        self.touch(z, n)
        return self.pre(n)


class Part(object):
    def __init__(self, occ, lo, hi):
        self.occ, self.lo, self.hi = occ.copy(), lo, hi

    def zsum(self, z):
        lo, hi = z3.IntVal(0) if self.lo is None else num(self.lo), z3.Int('nsingle') if self.hi is None else num(self.hi)
        self.occ.touch(z, lo)
        self.occ.touch(z, hi)
        return z3.If(lo <= hi, self.occ.pre(hi) - self.occ.pre(lo), z3.IntVal(0))

    def zlist(self, z):
        return Part(self.occ, self.lo, self.hi)


class Cell(object):
    """The content of a matrix element at the moment, plus something."""
    def __init__(self, mat, idx, add=None, sign=1):
        self.mat, self.idx, self.add = mat, idx, add

    def zbin(self, z, op, other, flip, node):
        if isinstance(other, Cell):
            z.bad('two matrix elements in one expression', node)
        if op == 'Add' or op == 'Sub' and not flip:
            o = cx(other)
            o = o if op == 'Add' else Cx(-o.re, -o.im)
            a = o if self.add is None else Cx(self.add.re + o.re, self.add.im + o.im)
            return Cell(self.mat, self.idx, a)
        z.bad('operator %s on a matrix element' % op, node)


def same_idx(a, b):
    return len(a) == len(b) and all(num(x).eq(num(y)) for x, y in zip(a, b))


class Mat(object):
    def __init__(self, name, rank):
        self.name, self.rank = name, rank

    def zget(self, z, idx, node):
        if len(idx) < self.rank and not any(isinstance(i, slice) for i in idx):
            return MatView(self, idx)
        if len(idx) != self.rank or any(isinstance(i, slice) for i in idx):
            z.bad('part of a matrix', node)
        return Cell(self, idx)

    def zset(self, z, idx, v, node):
        if len(idx) != self.rank or any(isinstance(i, slice) for i in idx):
            z.bad('part of a matrix', node)
        if isinstance(v, Cell):
            if v.mat is not self or not same_idx(v.idx, idx):
                z.bad('matrix element from another one', node)
            if v.add is not None:
                z.events.append(('add', self, [num(i) for i in idx], v.add))
        else:
            z.events.append(('set', self, [num(i) for i in idx], cx(v)))


class MatView(object):
    def __init__(self, mat, idx):
        self.mat, self.idx = mat, idx

    def zget(self, z, idx, node):
        return self.mat.zget(z, list(self.idx) + list(idx), node)

    def zset(self, z, idx, v, node):
        return self.mat.zset(z, list(self.idx) + list(idx), v, node)


class SymDict(object):
    """A dictionary of amplitudes; loops run over one arbitrary key."""
    def __init__(self, name, arity, value=None):
        self.name = name
        self.key = tuple(z3.Int('%s_key%d' % (name, i)) for i in range(arity))
        self.value = value if value is not None else Cx(z3.Real(name + '_re'), z3.Real(name + '_im'))

    def zloop(self, z, st, env, mod):
        z.events.append(('dict', self.name))
        iterate(z, st, env, mod, self.key)

    def zget(self, z, idx, node):
        if len(idx) == len(self.key) and all(num(a).eq(b) for a, b in zip(idx, self.key)):
            return self.value
        z.bad('another entry of a dictionary', node)

    def zattr(self, z, n, node):
        d = self
        if n == 'items':
            return Fn(lambda z, a, k: Pairs(d))
        if n == 'keys':
            return Fn(lambda z, a, k: d)
        z.bad('method %s of a dictionary' % n, node)

    def zisinst(self, name):
        return name == 'dict'


class Pairs(object):
    def __init__(self, d):
        self.d = d

    def zloop(self, z, st, env, mod):
        z.events.append(('dict', self.d.name))
        iterate(z, st, env, mod, (self.d.key, self.d.value))
