"""Labels of Fock states (C01): the lists of labels, the maps between labels and occupation vectors, and what removing states does
to them.  Loops are decided for one arbitrary iteration with their invariants (see index.py)."""
import ast
import z3
from .zx import Z, ZObj, Fn, Raised, prove, num
from .src import OutOfReach
from .fock import Occ, fresh
from .rotation import Prog, Check, equal, rng, listof, minmax
from .index import engine, iterate, Loops, Seq, method, reset, FILE, CLS, NC, N, I, fn
from .master import guarded

POW2 = fn('pow2', 1)


def pow2(z, a, k):
    if isinstance(a[0], int) and a[0] == 2:
        return POW2(num(a[1]))
    if isinstance(a[1], int):
        return z.binop('Pow', a[0], a[1])
    z.bad('power')


class Tok(object):
    """The result of a function that has its own contract."""
    def __init__(self, *t):
        self.t = t

    def zget(self, z, idx, node):
        return Tok('element', self, tuple(idx))

    def zlen(self, z):
        return z3.Int('length!%s' % abs(hash(repr(self))))

    def zattr(self, z, n, node):
        z.bad('attribute %s' % n, node)

    def zbin(self, z, op, o, flip, node):
        if op == 'Sub' and flip and self.t[0] == 'sum':
            return ('minus', o, self, len(z.events))
        z.bad('operator %s' % op, node)

    def __repr__(self):
        return '%s(%s)' % (self.t[0], ', '.join(repr(x) for x in self.t[1:]))


def same(hy, a, b):
    if isinstance(a, Tok) and isinstance(b, Tok):
        return len(a.t) == len(b.t) and all(same(hy, x, y) for x, y in zip(a.t, b.t))
    if isinstance(a, Prog) and isinstance(b, Prog):
        return equal(hy, a.lo, b.lo) and equal(hy, a.hi, b.hi) and a.step == b.step
    if isinstance(a, Tok) or isinstance(b, Tok):
        return False
    if isinstance(a, (Lists, Grow)) or isinstance(b, (Lists, Grow)):
        return a is b
    return bool(equal(hy, a, b))


def tok(name):
    return lambda z, a, k: Tok(name, *(list(a) + sorted(k.items())))


def place(z, lst, i, node):
    """Negative places count from the end."""
    if isinstance(i, int):
        return num(i) if i >= 0 else num(lst.zlen(z)) + i
    i = z3.simplify(num(i))
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(*(list(z.axioms) + list(z.pc) + list(z.extra)))
    if s.check(i < 0) == z3.unsat:
        return i
    if s.check(i >= 0) == z3.unsat:
        return num(lst.zlen(z)) + i
    if not getattr(z, 'signs', False):
        return i
    z.bad('place in a list', node)


class Lists(object):
    """A list of lists (of lists) of labels."""
    def __init__(self, name, depth, key=(), size=None):
        self.name, self.depth, self.key, self.size = name, depth, tuple(key), size

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('part of a list', node)
        key = self.key + (place(z, self, idx[0], node),)
        if self.depth == 1:
            return Leaf(self, key)
        return Lists(self.name, self.depth - 1, key)

    def zset(self, z, idx, v, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('part of a list', node)
        z.events.append(('set', self.name, self.key + (num(idx[0]),), v))

    def zlen(self, z):
        if self.size is not None:
            return self.size
        n = fn('parts_%s_%d' % (self.name, len(self.key)), len(self.key))(*self.key) if self.key else NC
        z.assume(n >= 0)
        return n


class Leaf(Seq):
    def __init__(self, owner, key):
        Seq.__init__(self, owner, key[-1], fn('count_' + owner.name, len(key))(*key), lambda k: fn('label_' + owner.name, len(key) + 1)(*(tuple(key) + (k,))))
        self.key = key

    def zattr(self, z, n, node):
        if n == 'append':
            return Fn(lambda z, a, k: z.events.append(('append', self.owner.name, self.key, a[0])))
        z.bad('attribute %s of a list' % n, node)


class Grow(object):
    """A list that is empty at first."""
    n = 0

    def __init__(self):
        Grow.n += 1
        self.name = 'list%d' % Grow.n

    def zattr(self, z, n, node):
        if n == 'append':
            return Fn(lambda z, a, k: z.events.append(('append', self.name, (), a[0])))
        z.bad('attribute %s of a list' % n, node)


class Flat(object):
    """A one-dimensional list: elements that are read are functions, assignments are recorded."""
    def __init__(self, name, size, sort=I):
        self.name, self.size, self.sort = name, size, sort

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('part of a list', node)
        return fn(self.name, 1, self.sort)(num(idx[0]))

    def zset(self, z, idx, v, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('part of a list', node)
        z.events.append(('set', self.name, (num(idx[0]),), v))

    def zlen(self, z):
        return self.size

    def zsum(self, z):
        return Tok('sum', self.name)

    def zcmp(self, z, op, o, flip, node):
        if o is None:
            return op in ('IsNot', 'NotEq')
        z.bad('comparison', node)


def make(S, con=None):
    z = engine(S, dict({'np.power': pow2, 'pow': pow2, 'list': listof}, **(con or {})))
    st = {}

    def comp(e, env, mod):
        n = 0
        x = e
        while isinstance(x, ast.ListComp):
            if len(x.generators) != 1 or x.generators[0].ifs:
                z.bad('comprehension', e)
            n += 1
            x = x.elt
        if not (isinstance(x, ast.List) and not x.elts):
            z.bad('comprehension', e)
        it = z.ev(e.generators[0].iter, env, mod)
        size = it.hi if isinstance(it, Prog) and equal([], it.lo, num(0)) else None
        return Lists('new', n, size=size)
    z.ev_ListComp = comp
    base = z.ev_List

    def ev_List(e, env, mod):
        return Grow() if not e.elts and getattr(z, 'growing', False) else base(e, env, mod)
    z.ev_List = ev_List
    z.replist = lambda a, b: Flat('made', b)
    return z


def func(S, name):
    m = S.module(FILE)
    if name not in m.funcs:
        raise OutOfReach('function %s' % name)
    return (m, None, m.funcs[name])


def live(z, pc):
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*(list(z.axioms) + pc))
    return s.check() != z3.unsat


def tops(ev):
    L = Loops(ev)
    return L, [l for l in L.top if isinstance(l, dict)]


def prog_of(ev, l):
    for e in ev:
        if e[0] == 'prog' and isinstance(l['value'], z3.ArithRef) and e[1].eq(l['value']):
            return e[2]
    raise OutOfReach('loop')


def sorted_by(S, name):
    """construct_chargelst, construct_szlst: every label is put once, into the list of its quantum numbers."""
    z = make(S, {'integer_to_binarylist': lambda z, a, k: (Occ(num(a[0])) if len(a) == 2 and not k and equal(list(z.axioms), num(a[1]), N) else z.bad('bits')),
                 'empty_szlst': lambda z, a, k: Lists('new', 2) if len(a) == 1 and not k else z.bad('empty lists')})

    def run(z):
        reset(z)
        z.assume(N >= 0)
        if name == 'construct_szlst':
            z.assume(N % 2 == 0)
        return z.inline(func(S, name), [N], {}, None)
    ck = Check('%s: every label is put once, into the list of its quantum numbers' % name, z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        if not isinstance(r, Lists) or r.name != 'new' or r.key:
            raise OutOfReach('result')
        L, t = tops(ev)
        if len(t) != 1 or t[0]['kids']:
            raise OutOfReach('loops')
        p, j = prog_of(ev, t[0]), t[0]['value']
        ck.holds(hy, z3.And(p.lo == 0, p.hi == POW2(N), p.step == 1), 'every label')
        ap = [e for e in ev if e[0] in ('append', 'set')]
        if len(ap) != 1 or ap[0][0] != 'append':
            ck.fail('%d entries for one label' % len(ap))
            continue
        o = Occ(j)
        k = len(z.extra)
        o.touch(z, N)
        o.touch(z, num(0))
        o.touch(z, N / 2)
        hy = hy + z.extra[k:]
        del z.extra[k:]
        q = o.pre(N)
        ck.eq(hy, num(ap[0][3]), j, 'label')
        if name == 'construct_chargelst':
            ck.eq(hy, ap[0][2], (q,), 'charge')
            if r.size is not None:
                ck.eq(hy, r.size, N + 1, 'number of charges')
        else:
            m = z3.If(q <= N - q, q, N - q)
            up = o.pre(N / 2)
            ck.eq(hy, ap[0][2], (q, (m + up - (q - up)) / 2), 'charge and spin projection')
    return ck.out()


def enumerate_(S, name):
    """enum_chargelst, enum_szlst: the labels are numbered consecutively, block after block."""
    depth = 1 if name == 'enum_chargelst' else 2
    z = make(S, {'empty_szlst': lambda z, a, k: Lists('new', 2) if len(a) == 1 and not k and equal(list(z.axioms) + z.pc + list(z.extra), num(a[0]), N) else z.bad('empty lists')})

    def run(z):
        reset(z)
        z.assume(z3.And(N >= 0, NC == N + 1))
        return z.inline(func(S, name), [Lists('lin', depth)], {}, None)
    ck = Check('%s: consecutive labels, block after block' % name, z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        if not isinstance(r, Lists) or r.name != 'new' or r.key:
            raise OutOfReach('result')
        L, t = tops(ev)
        if len(t) != 1 or len(t[0]['kids']) != depth - 1:
            raise OutOfReach('loops')
        nest = [t[0]] + t[0]['kids']
        key = tuple(l['value'] for l in nest)
        p = prog_of(ev, nest[0])
        ck.holds(hy, z3.And(p.lo == 0, p.hi == NC, p.step == 1), 'every charge')
        if depth == 2:
            p = prog_of(ev, nest[1])
            ck.holds(hy, z3.And(p.lo == 0, p.hi == fn('parts_lin_1', 1)(key[0]), p.step == 1), 'every block of a charge')
        n = fn('count_lin', depth)(*key)
        sets = [e for e in ev if e[0] == 'set']
        if len(sets) != 1 or sets[0][1] != 'new' or not isinstance(sets[0][3], Prog):
            raise OutOfReach('what is assigned')
        ck.eq(hy, sets[0][2], key, 'block')
        names = [v for v in nest[-1]['sym'] if equal(hy, sets[0][3].lo, nest[-1]['sym'][v])]
        if not names:
            ck.fail('the block does not begin where the last one ended')
            continue
        v = names[0]
        ck.eq(hy, sets[0][3].hi, nest[-1]['sym'][v] + n, 'end of the block')
        ck.eq(hy, num(nest[-1]['after'][v]), nest[-1]['sym'][v] + n, 'start of the next block')
        ck.eq(hy, num(nest[0]['start'][v]), num(0), 'start of the first block')
        if depth == 2:
            ck.eq(hy, num(nest[1]['start'][v]), nest[0]['sym'][v], 'start of the blocks of a charge')
            ck.eq(hy, num(nest[0]['after'][v]), nest[1]['exit'][v], 'end of the blocks of a charge')
        if sets[0][3].step != 1:
            ck.fail('labels are left out')
    return ck.out()


def inverse(S):
    z = make(S)

    def run(z):
        reset(z)
        return z.inline(func(S, 'make_inverse_map'), [Flat('given', z3.Int('size'))], {}, None)
    ck = Check('make_inverse_map: the map back of every entry', z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        if not isinstance(r, Flat) or r.name != 'made':
            raise OutOfReach('result')
        L, t = tops(ev)
        if len(t) != 1 or t[0]['kids']:
            raise OutOfReach('loops')
        p, j = prog_of(ev, t[0]), t[0]['value']
        ck.holds(hy, z3.And(p.lo == 0, p.hi == z3.Int('size'), p.step == 1, num(r.size) == z3.Int('size')), 'every entry')
        sets = [e for e in ev if e[0] == 'set']
        if len(sets) != 1 or sets[0][1] != 'made':
            ck.fail('%d assignments for one entry' % len(sets))
            continue
        ck.eq(hy, sets[0][2], (fn('given', 1)(j),), 'place')
        ck.eq(hy, num(sets[0][3]), j, 'value')
    return ck.out()


def ranges(S):
    """szrange/sz_to_ind and ssqrange/ssq_to_ind: the k-th value has index k."""
    out = []
    for name, ind, args, lo in (('szrange', 'sz_to_ind', lambda c, x: [c, N], None), ('ssqrange', 'ssq_to_ind', lambda c, x: [c, x, N], 1)):
        z = make(S)
        c, s, k = z3.Ints('charge sz k')
        m = z3.If(c <= N - c, c, N - c)

        def run(z):
            reset(z)
            for h in (N >= 0, c >= 0, c <= N, s >= -m, s <= m, (s + m) % 2 == 0, k >= 0):
                z.assume(h)
            a = [c, N] if name == 'szrange' else [c, s, N]
            r = z.inline(func(S, name), a, {}, None)
            if not isinstance(r, Prog):
                raise OutOfReach('result of %s' % name)
            x = r.lo + r.step * k
            i = z.inline(func(S, ind), [x, c, N] if name == 'szrange' else [x, s], {}, None)
            return r, x, i
        ck = Check('%s, %s: all values between the bounds in steps of two, numbered from 0' % (name, ind), z)
        for pc, r, ev in z.explore(run):
            hy = list(z.axioms) + pc
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            r, x, i = r
            first = -m if name == 'szrange' else z3.If(s >= 0, s, -s)
            ck.holds(hy, z3.And(r.lo == first, r.step == 2, r.hi > m, r.hi <= m + 2), 'values')
            ck.holds(hy + [x < r.hi], num(i) == k, 'index')
        out.append(ck.out())
    return out


TOK = {n: tok(n) for n in ('construct_chargelst', 'construct_szlst', 'construct_ssqlst', 'enum_chargelst', 'enum_szlst', 'flatten', 'make_inverse_map')}


def init(S, indexing, odd, symmetry):
    con = dict(TOK)
    con['make_quantum_numbers'] = lambda z, a, k: (z.events.append(('qn', dict(a[0].attrs))), (Tok('qn_ind'), Tok('ind_qn')))[1]
    z = make(S, con)
    n = z3.Int('n')

    def run(z):
        reset(z)
        m = S.module(FILE)
        o = ZObj('StateIndexing', (m, m.classes['StateIndexing']))
        z.assume(n >= 0)
        z.assume(n % 2 == (1 if odd else 0))
        z.inline(method(S, 'StateIndexing', '__init__'), [o, n], dict(indexing=indexing, symmetry=symmetry, nleads=z3.Int('l'), nbaths=z3.Int('b')), None)
        return o
    z.contracts['np.power'] = pow2
    ck = Check('StateIndexing.__init__ (%s, %s number of orbitals, symmetry %s): maps and lists' % (indexing, 'odd' if odd else 'even', symmetry), z)
    real = indexing if indexing in ('charge', 'Lin') or indexing in ('sz', 'ssq') and not odd else 'Lin'
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        a = r.attrs
        if a.get('indexing') != real:
            ck.fail('indexing is %s' % a.get('indexing'))
            continue
        C, Sz = Tok('construct_chargelst', n), Tok('construct_szlst', n)
        idn = Prog(0, num(a['nmany']), 1)
        i = {'Lin': idn, 'charge': Tok('flatten', C)}.get(real, Tok('flatten', Tok('flatten', Sz)))
        want = dict(chargelst=C if real == 'Lin' else Tok('enum_chargelst', C), i=i, j=Tok('make_inverse_map', i), states_order=idn)
        if real in ('sz', 'ssq'):
            want['szlst'] = Tok('enum_szlst', Sz)
        if real == 'ssq':
            want['ssqlst'] = Tok('construct_ssqlst', want['szlst'], n)
        for k, w in want.items():
            ck.n += 1
            if not same(hy, a.get(k), w):
                ck.fail('%s is %r, but it should be %r' % (k, a.get(k), w))
        for k, w in dict(nsingle=n, ncharge=n + 1, nleads=z3.Int('l'), nbaths=z3.Int('b'), nmany_=a['nmany'],
                         nsingle_sym=n / 2 if symmetry == 'spin' else n, nleads_sym=z3.Int('l') / 2 if symmetry == 'spin' else z3.Int('l')).items():
            ck.eq(hy, num(a[k]), num(w), k)
        ck.holds(hy, num(a['nmany']) == POW2(n), 'number of states') if not isinstance(a['nmany'], int) else None
        if a.get('removed_fock_states', 0) is not None:
            ck.fail('states are removed at first')
        q = [e for e in ev if e[0] == 'qn']
        if len(q) != 1 or not all(same(hy, q[0][1].get(k), w) for k, w in want.items() if k in ('chargelst', 'szlst', 'ssqlst')):
            ck.fail('the quantum numbers are made before the lists')
        if not same(hy, a.get('qn_ind'), Tok('qn_ind')) or not same(hy, a.get('ind_qn'), Tok('ind_qn')):
            ck.fail('the quantum numbers are exchanged')
    return ck.out()


def lookups(S):
    out = []
    n, x = z3.Ints('n x')
    con = {'integer_to_binarylist': lambda z, a, k: Tok('bits', num(a[0]), num(a[1]), (a[2] if len(a) > 2 else k.get('strq', False))),
           'binarylist_to_integer': lambda z, a, k: fn('integer', 1)(num(z3.Int('the_state'))) if isinstance(a[0], Tok) and a[0].t == ('state',) else z.bad('integer')}
    for linq in (False, True):
        for strq in (False, True):
            z = make(S, con)

            def run(z):
                m = S.module(FILE)
                o = ZObj('StateIndexing', (m, m.classes['StateIndexing']), dict(nsingle=n, i=Flat('lin_of', n), j=Flat('label_of_lin', n)))
                return z.inline(method(S, 'StateIndexing', 'get_state'), [o, x], dict(linq=linq, strq=strq), None)
            ck = Check('StateIndexing.get_state (linq=%s, strq=%s)' % (linq, strq), z)
            for pc, r, ev in z.explore(run):
                if isinstance(r, Raised):
                    raise OutOfReach('raises %s' % r.what)
                ck.n += 1
                w = Tok('bits', x if linq else fn('lin_of', 1)(x), n, strq)
                if not same(list(z.axioms) + pc, r, w):
                    ck.fail('%r, but it should be %r' % (r, w))
            out.append(ck.out())
        z = make(S, con)

        def run(z):
            m = S.module(FILE)
            o = ZObj('StateIndexing', (m, m.classes['StateIndexing']), dict(nsingle=n, i=Flat('lin_of', n), j=Flat('label_of_lin', n)))
            return z.inline(method(S, 'StateIndexing', 'get_ind'), [o, Tok('state')], dict(linq=linq), None)
        ck = Check('StateIndexing.get_ind (linq=%s)' % linq, z)
        for pc, r, ev in z.explore(run):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            w = fn('integer', 1)(z3.Int('the_state'))
            ck.eq(list(z.axioms) + pc, r, w if linq else fn('label_of_lin', 1)(w), 'label')
        out.append(ck.out())
    # get_lst
    c, s, q = z3.Ints('charge sz ssq')
    mx = z3.If(c <= n - c, c, n - c)
    for have in ('charge', 'sz', 'ssq'):
        for args in ((c,), (c, s), (c, s, q)):
            if have == 'sz' and len(args) == 3:
                continue
            z = make(S)

            def run(z):
                m = S.module(FILE)
                o = ZObj('StateIndexing', (m, m.classes['StateIndexing']), dict(nsingle=n, chargelst=Lists('c', 1), szlst=Lists('s', 2) if have != 'charge' else None,
                                                                              ssqlst=Lists('q', 3) if have == 'ssq' else None))
                for h in (c >= 0, c <= n, s >= -mx, s <= mx, (s + mx) % 2 == 0, q >= z3.If(s >= 0, s, -s), q <= mx, (q - s) % 2 == 0):
                    z.assume(h)
                return z.inline(method(S, 'StateIndexing', 'get_lst'), [o] + list(args), {}, None)
            ck = Check('StateIndexing.get_lst (lists by %s, %d quantum numbers)' % (have, len(args)), z)
            for pc, r, ev in z.explore(run):
                if isinstance(r, Raised):
                    raise OutOfReach('raises %s' % r.what)
                hy = list(z.axioms) + pc
                d = 1 if have == 'charge' else min(len(args), {'sz': 2, 'ssq': 3}[have])
                key = (c, (mx + s) / 2, (q - z3.If(s >= 0, s, -s)) / 2)[:d]
                if not isinstance(r, Leaf):
                    raise OutOfReach('result')
                ck.n += 1
                if r.owner.name != 'csq'[d - 1]:
                    ck.fail('the list by another quantum number')
                else:
                    ck.eq(hy, tuple(r.key), key, 'list')
            out.append(ck.out())
    return out


def removal(S, indexing, first):
    """remove_fock_states: afterwards the lists have exactly the labels that are not removed, and both maps are those of the lists."""
    con = dict(TOK)
    con['construct_chargelst'] = lambda z, a, k: Lists('all', 1)
    for n in ('enum_chargelst', 'enum_szlst', 'flatten'):
        def f(z, a, k, n=n):
            x = a[0]
            if isinstance(x, Lists):
                z.events.append(('use', n, x.name))
                x = Tok('lists', x.name)
            r = Tok(n, x)
            if n == 'flatten' and (x.t[0] == 'flatten' or indexing != 'sz'):
                return FlatOf(r)
            return r
        con[n] = f
    con['make_quantum_numbers'] = lambda z, a, k: (z.events.append(('qn', dict(a[0].attrs))), (Tok('qn_ind'), Tok('ind_qn')))[1]
    con['np.zeros'] = lambda z, a, k: Flat('none_yet', a[0])
    con['np.full'] = lambda z, a, k: Flat('none_yet', a[0]) if a[1] is False else z.bad('full')
    z = make(S, con)
    z.growing = True

    class FlatOf(Flat):
        def __init__(self, t):
            Flat.__init__(self, 'new_i', z3.Int('new_size'))
            self.t = t

    class Removed(Flat):
        pass

    def run(z):
        reset(z)
        m = S.module(FILE)
        rem = None if first else Flat('removed_before', z3.Int('nmany_'), z3.BoolSort())
        o = ZObj('StateIndexing', (m, m.classes['StateIndexing']), dict(
            indexing=indexing, nsingle=N, ncharge=NC, nmany=z3.Int('nmany'), nmany_=z3.Int('nmany_'), removed_fock_states=rem,
            chargelst=Lists('c', 1), szlst=Lists('s', 2), chargelst_lin=Lists('clin', 1), szlst_lin=Lists('slin', 2), i=Flat('old_i', z3.Int('nmany')),
            j=Flat('j', z3.Int('nmany_')), states_changed=False))
        z.assume(z3.And(N >= 0, NC == N + 1))
        lst = Leaf(Lists('given', 1), (z3.IntVal(0),))
        z.inline(method(S, 'StateIndexing', 'remove_fock_states'), [o, lst], {}, None)
        return o, lst
    name = 'StateIndexing.remove_fock_states (%s, %s): exactly the labels that remain' % (indexing, 'first time' if first else 'again')
    ck = Check(name, z)

    # the flags are read after they were set: an uninterpreted predicate
    def read(self, z, idx, node):
        if self.name in ('none_yet', 'removed_before'):
            if not any(e[0] == 'set' and e[1] == self.name for e in z.events):
                z.bad('flags are read before they are set', node)
            return fn('removed', 1, z3.BoolSort())(num(idx[0]))
        return fn(self.name, 1, self.sort)(num(idx[0]))
    old = Flat.zget
    Flat.zget = read
    try:
        paths = z.explore(run, limit=200)
    finally:
        Flat.zget = old
    REM = lambda x: fn('removed', 1, z3.BoolSort())(x)
    for pc, r, ev in paths:
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        o, lst = r
        a = o.attrs
        L, t = tops(ev)
        if indexing == 'ssq':
            ck.n += 1
            if t or a['nmany'] is not None and not equal(hy, num(a['nmany']), z3.Int('nmany')):
                ck.fail('states are removed although that is not supported')
            continue
        fl = a['removed_fock_states']
        if not isinstance(fl, Flat) or fl.name != ('none_yet' if first else 'removed_before'):
            ck.fail('states that were removed before are forgotten' if not first else 'removed states are not kept')
            continue
        if first:
            ck.eq(hy, num(fl.size), z3.Int('nmany'), 'size of the flags')
        # loop over the given labels
        g = t[0]
        sets = [e for e in g['events'] if e[0] == 'set']
        ov = [e for e in ev if e[0] == 'over' and e[1] is lst]
        if len(ov) != 1 or len(sets) != 1:
            raise OutOfReach('loop over the given labels')
        ck.n += 1
        if sets[0][1] != fl.name or sets[0][3] is not True:
            ck.fail('a given label is not marked')
        ck.eq(hy, sets[0][2], (g['value'],), 'marked label')
        nm = a['nmany']
        if not isinstance(nm, tuple) or nm[0] != 'minus':
            raise OutOfReach('number of states')
        ck.eq(hy, num(nm[1]), z3.Int('nmany_'), 'number of all states')
        if not same(hy, nm[2], Tok('sum', fl.name)):
            ck.fail('number of removed states')
        if nm[3] < [i for i, e in enumerate(ev) if e[0] == 'leave'][0]:
            ck.fail('the states are counted before they are marked')
        src = 'all' if indexing == 'Lin' else 'clin'
        loops = t[1:]
        if len(loops) != (2 if indexing != 'sz' else 3):
            raise OutOfReach('loops')

        def filt(l, lists, key):
            """an inner loop over lists[key] that keeps what is not removed; returns the list it fills"""
            if len(l['kids']) != 1:
                raise OutOfReach('loops')
            it = l['kids'][0]
            ov = [e for e in l['events'] if e[0] == 'over']
            if len(ov) != 1 or not isinstance(ov[0][1], Leaf) or ov[0][1].owner.name != lists:
                raise OutOfReach('loop over the labels')
            ck.eq(hy, tuple(ov[0][1].key), key, 'labels of the block')
            j = it['value']
            ap = [e for e in it['events'] if e[0] == 'append']
            js = [e for e in it['events'] if e[0] == 'set']
            from .fermion import split
            for h, (gone,) in split(hy, [REM(j)]):
                ck.n += 1
                if gone:
                    if ap:
                        ck.fail('a removed label stays in its list')
                    if len(js) != 1 or js[0][1] != 'j' or js[0][3] is not None or not equal(h, js[0][2], (j,)):
                        ck.fail('a removed state keeps its label')
                else:
                    if len(ap) != 1 or not equal(h, num(ap[0][3]), j):
                        ck.fail('a label that remains is not kept once')
                    if js:
                        ck.fail('a state that remains loses its label')
            return ap[0][1] if ap else None

        def every(l):
            p = prog_of(ev, l)
            ck.holds(hy, z3.And(p.lo == 0, p.hi == NC, p.step == 1), 'every charge')
        every(loops[0])
        c = loops[0]['value']
        made = filt(loops[0], src, (c,))
        st = [e for e in loops[0]['events'] if e[0] == 'set']
        if len(st) != 1 or st[0][1] != src or not isinstance(st[0][3], Grow):
            raise OutOfReach('list of a charge')
        ck.eq(hy, st[0][2], (c,), 'charge of the list')
        if made is not None and st[0][3].name != made:
            ck.fail('another list is kept for the charge')
        if indexing == 'sz':
            every(loops[1])
            c = loops[1]['value']
            if len(loops[1]['kids']) != 1:
                raise OutOfReach('loops')
            sl = loops[1]['kids'][0]
            p = prog_of(ev, sl)
            m = z3.If(c <= N - c, c, N - c)
            ck.holds(hy, z3.And(p.lo == -m, p.hi > m, p.hi <= m + 2, p.step == 2), 'every spin projection in order')
            made = filt(sl, 'slin', (c, (m + sl['value']) / 2))
            ap = [e for e in sl['events'] if e[0] == 'append']
            st = [e for e in loops[1]['events'] if e[0] == 'set']
            if len(ap) != 1 or not isinstance(ap[0][3], Grow) or len(st) != 1 or st[0][1] != 'slin' or not isinstance(st[0][3], Grow):
                raise OutOfReach('lists of a charge')
            ck.n += 1
            if made is not None and ap[0][3].name != made or ap[0][1] != st[0][3].name:
                ck.fail('another list is kept for the spin projection')
            ck.eq(hy, st[0][2], (c,), 'charge of the lists')
            i = Tok('flatten', Tok('flatten', Tok('lists', 'slin')))
            want = dict(chargelst=Tok('enum_chargelst', Tok('lists', 'clin')), szlst=Tok('enum_szlst', Tok('lists', 'slin')))
        else:
            i = Tok('flatten', Tok('lists', src))
            want = dict(chargelst=Tok('enum_chargelst', Tok('lists', src)))
        for k, w in want.items():
            ck.n += 1
            if not same(hy, a[k], w):
                ck.fail('%s is %r, but it should be %r' % (k, a[k], w))
        if not isinstance(a['i'], FlatOf):
            ck.fail('the map from labels is not made anew')
            continue
        if not same(hy, a['i'].t, i):
            ck.fail('the map from labels is %r, but it should be %r' % (a['i'].t, i))
        # lists are used after the loops that filter them
        pos = {id(l): n for n, l in enumerate(L.top) if isinstance(l, dict)}
        for n, e in enumerate(L.top):
            if isinstance(e, tuple) and e[0] == 'use':
                lim = loops[1] if e[2] == 'slin' else loops[0]
                ck.n += 1
                if n < pos[id(lim)]:
                    ck.fail('a list is numbered before states are taken out of it')
        last = loops[-1]
        p = prog_of(ev, last)
        ck.holds(hy, z3.And(p.lo == 0, p.hi == z3.Int('new_size'), p.step == 1), 'every label')
        st = [e for e in last['events'] if e[0] == 'set']
        if len(st) != 1 or st[0][1] != 'j':
            raise OutOfReach('map to labels')
        ck.eq(hy, st[0][2], (fn('new_i', 1)(last['value']),), 'state of a label')
        ck.eq(hy, num(st[0][3]), last['value'], 'label of a state')
        q = [e for e in L.top if isinstance(e, tuple) and e[0] == 'qn']
        ck.n += 2
        if len(q) != 1 or not all(same(hy, q[0][1].get(k), w) for k, w in want.items()):
            ck.fail('the quantum numbers are not those of the new lists')
        if a['states_changed'] is not True:
            ck.fail('the change of states is not announced')
    return ck.out()


def derived(S, cls):
    """remove_fock_states of the density-matrix indexing: the states first, then the numbering from the new lists."""
    con = {'StateIndexing.remove_fock_states': lambda z, a, k: (z.events.append(('removed', a[1])), a[0].attrs.update(chargelst=Tok('new lists')))[0],
           '%s.set_statesdm' % cls: lambda z, a, k: z.events.append(('numbered', a[1]))}
    z = make(S, con)

    def run(z):
        reset(z)
        m = S.module(FILE)
        o = ZObj(cls, (m, m.classes[cls]), dict(chargelst=Tok('old lists')))
        z.inline(method(S, cls, 'remove_fock_states'), [o, Tok('given')], {}, None)
        return o
    ck = Check('%s.remove_fock_states: the numbering is made anew from the states that remain' % cls, z)
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        e = [(x[0], x[1].t if isinstance(x[1], Tok) else x[1]) for x in ev]
        ck.n += 1
        if e != [('removed', ('given',)), ('numbered', ('new lists',))]:
            ck.fail('steps: %s' % e)
    return ck.out()


def numbers(S, indexing):
    """make_quantum_numbers: every label of every block, both ways."""
    z = make(S)

    class D(object):
        def __init__(self, n):
            self.n = n

        def zattr(self, z, n, node):
            def f(z, a, k):
                if n != 'update' or len(a) != 1 or not isinstance(a[0], dict) or len(a[0]) != 1:
                    z.bad('update', node)
                (key, v), = a[0].items()
                z.events.append(('entry', self.n, key, v))
            return Fn(f)

        def zset(self, z, idx, v, node):
            z.events.append(('entry', self.n, idx[0] if len(idx) == 1 else tuple(idx), v))
    made = []

    def ev_Dict(e, env, mod):
        if e.keys:
            return dict((z.ev(k, env, mod), z.ev(v, env, mod)) for k, v in zip(e.keys, e.values))
        made.append(D(len(made)))
        return made[-1]
    z.ev_Dict = ev_Dict
    z.contracts['dict'] = lambda z, a, k: ev_Dict(ast.Dict(keys=[], values=[]), {}, None) if not a and not k else z.bad('dict')

    def run(z):
        reset(z)
        del made[:]
        z.assume(z3.And(N >= 0, NC == N + 1))
        if indexing in ('sz', 'ssq'):
            z.assume(N % 2 == 0)
        si = ZObj('si', None, dict(indexing=indexing, ncharge=NC, nsingle=N, chargelst=Lists('c', 1), szlst=Lists('s', 2), ssqlst=Lists('q', 3)))
        r = z.inline(func(S, 'make_quantum_numbers'), [si], {}, None)
        if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, D) for x in r)):
            raise OutOfReach('result')
        return r[0].n, r[1].n
    ck = Check('make_quantum_numbers (%s): every label of every block, both ways' % indexing, z)
    depth = {'sz': 2, 'ssq': 3}.get(indexing, 1)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        L, t = tops(ev)
        nest, l = [], t[0] if len(t) == 1 else None
        while l is not None:
            nest.append(l)
            l = l['kids'][0] if len(l['kids']) == 1 else None
        if len(nest) != depth + 1:
            raise OutOfReach('loops')
        P = [prog_of(ev, l) for l in nest]
        V = [l['value'] for l in nest]
        q = V[0]
        m = z3.If(q <= N - q, q, N - q)
        ck.holds(hy, z3.And(P[0].lo == 0, P[0].hi == NC, P[0].step == 1), 'every charge')
        key = [q]
        if depth > 1:
            ck.holds(hy, z3.And(P[1].lo == -m, P[1].hi > m, P[1].hi <= m + 2, P[1].step == 2), 'every spin projection')
            key.append((m + V[1]) / 2)
        if depth > 2:
            a = z3.If(V[1] >= 0, V[1], -V[1])
            ck.holds(hy, z3.And(P[2].lo == a, P[2].hi > m, P[2].hi <= m + 2, P[2].step == 2), 'every total spin')
            key.append((V[2] - a) / 2)
        nm = 'csq'[depth - 1]
        ck.holds(hy, z3.And(P[-1].lo == 0, P[-1].hi == fn('count_' + nm, depth)(*key), P[-1].step == 1), 'every label')
        lab = fn('label_' + nm, depth + 1)(*(key + [V[-1]]))
        en = [e for e in ev if e[0] == 'entry']
        if len(en) != 2 or sorted(e[1] for e in en) != sorted(r):
            ck.fail('%d entries for a label' % len(en))
            continue
        for e in en:
            if e[1] == r[0]:
                if not isinstance(e[2], tuple):
                    ck.fail('label and quantum numbers are exchanged')
                    continue
                ck.eq(hy, tuple(num(x) for x in e[2]), tuple(V), 'quantum numbers')
                ck.eq(hy, num(e[3]), lab, 'label')
            else:
                if not isinstance(e[3], tuple):
                    ck.fail('label and quantum numbers are exchanged')
                    continue
                ck.eq(hy, tuple(num(x) for x in e[3]), tuple(V), 'quantum numbers')
                ck.eq(hy, num(e[2]), lab, 'label')
    return ck.out()


def obligations(prop, S):
    r = []
    if prop == 'C01':
        for n in ('construct_chargelst', 'construct_szlst'):
            r += guarded(n, lambda: sorted_by(S, n))
        for n in ('enum_chargelst', 'enum_szlst'):
            r += guarded(n, lambda: enumerate_(S, n))
        r += guarded('make_inverse_map', lambda: inverse(S))
        r += guarded('szrange', lambda: ranges(S))
        r += guarded('construct_ssqlst', lambda: multiplets(S))
        for ix in ('Lin', 'charge', 'sz', 'ssq', 'unknown'):
            for odd in (False, True):
                r += guarded('StateIndexing.__init__ (%s)' % ix, lambda: init(S, ix, odd, 'spin' if ix == 'ssq' else None))
        r += guarded('StateIndexing lookups', lambda: lookups(S))
        for ix in ('Lin', 'charge', 'sz', 'ssq'):
            r += guarded('make_quantum_numbers (%s)' % ix, lambda: numbers(S, ix))
            for first in (True, False):
                r += guarded('StateIndexing.remove_fock_states (%s)' % ix, lambda: removal(S, ix, first))
        for cls in CLS:
            r += guarded('%s.remove_fock_states' % cls, lambda: derived(S, cls))
    return r


SELF = {'C01': [(FILE, None, 'enum_chargelst'), (FILE, None, 'make_inverse_map'), (FILE, 'StateIndexing', 'remove_fock_states')]}


# ---------------------------------------------------------------------------------------------- multiplets
class Counts(object):
    """ssqcount: a table of integers, read at given places and filled by assignments."""
    def __init__(self, key=()):
        self.key = tuple(key)

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('part of a table', node)
        key = self.key + (num(idx[0]),)
        if len(key) == 1:
            return Counts(key)
        v = fn('ssqcount', 2)(*key)
        z.events.append(('read', 'ssqcount', key))
        return v

    def zset(self, z, idx, v, node):
        if len(idx) != 1 or isinstance(idx[0], slice) or len(self.key) != 1:
            z.bad('part of a table', node)
        z.events.append(('set', 'ssqcount', self.key + (num(idx[0]),), num(v)))


def multiplets(S):
    """construct_ssqlst: consecutive labels in the order of charge, spin projection and total spin, as many for every
    multiplet as there are states of that charge with projection S less those with S+2."""
    same_n = lambda z, a: equal(list(z.axioms) + z.pc + list(z.extra), num(a), N)
    z = make(S, {'empty_ssqlst': lambda z, a, k: Lists('new', 3) if len(a) == 1 and not k and same_n(z, a[0]) else z.bad('empty lists')})
    base = z.ev_ListComp

    def comp(e, env, mod):
        x, n = e, 0
        while isinstance(x, ast.ListComp):
            x, n = x.elt, n + 1
        if n == 2 and isinstance(x, ast.Constant) and x.value == 0:
            o, i = e.generators[0], e.elt.generators[0]
            it = z.ev(o.iter, env, mod)
            if not (isinstance(it, Prog) and equal(list(z.axioms) + z.pc, it.lo, num(0)) and equal(list(z.axioms) + z.pc, it.hi, N + 1)
                    and isinstance(o.target, ast.Name)):
                z.bad('table of multiplets', e)
            c = fresh('c')
            k = len(z.extra)
            z.extra += [c >= 0, c <= N]
            r = z.ev(i.iter, dict(env, **{o.target.id: c}), mod)
            if isinstance(r, int) or not hasattr(r, 'lo'):
                z.bad('table of multiplets', e)
            z.events.append(('table', c, r))
            return Counts()
        if n == 1 and isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult):
            z.bad('table of multiplets', e)
        return base(e, env, mod)
    z.ev_ListComp = comp

    def run(z):
        reset(z)
        z.assume(z3.And(N >= 0, N % 2 == 0))
        return z.inline(func(S, 'construct_ssqlst'), [Lists('szl', 2), N], {}, None)
    ck = Check('construct_ssqlst: consecutive labels, multiplet after multiplet', z)
    seen = 0
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        if not isinstance(r, Lists) or r.name != 'new' or r.key:
            raise OutOfReach('result')
        L, t = tops(ev)
        if len(t) != 2 or len(t[0]['kids']) != 1 or t[0]['kids'][0]['kids'] or len(t[1]['kids']) != 1:
            raise OutOfReach('loops')
        seen += 1
        # the sizes
        c, j = t[0]['value'], t[0]['kids'][0]['value']
        p, q = prog_of(ev, t[0]), prog_of(ev, t[0]['kids'][0])
        m = lambda x: z3.If(x <= N - x, x, N - x)
        ck.holds(hy, z3.And(p.lo == 0, p.hi == N + 1, p.step == 1), 'sizes: every charge')
        size = lambda charge, at: fn('count_szl', 2)(charge, at)
        W = [e for e in ev if e[0] == 'set' and e[1] == 'ssqcount']
        if len(W) != 1:
            ck.fail('%d sizes are set for one multiplet' % len(W))
            continue
        _, _, key, v = W[0]
        tot = z3.Int('S2')              # twice the total spin of the multiplet that is set
        parts = fn('parts_szl_1', 1)
        mirror = lambda x: size(c, x) == size(c, m(c) - x)     # as many states with projection -S as with S
        hs = hy + [tot == 2*key[1] + c % 2, parts(c) == m(c) + 1, mirror(j), mirror(j - 1), mirror(j + 1), mirror((m(c) - tot) / 2), mirror((m(c) - tot) / 2 - 1)]
        ck.eq(hy, key[0], c, 'sizes: charge')
        # row number of the projection -S among the lists of that charge: (szmax - S)/2
        row = lambda s2: (m(c) - s2) / 2
        ck.holds(hs, z3.And(tot >= c % 2, tot <= m(c)), 'sizes: spin')
        ck.holds(hs, v == size(c, row(tot)) - z3.If(tot + 2 <= m(c), size(c, row(tot + 2)), 0), 'sizes: states with projection S less those with S+2')
        ck.holds(hy + [z3.Int('s') >= c % 2, z3.Int('s') <= m(c), (z3.Int('s') - c) % 2 == 0, j == (m(c) - z3.Int('s')) / 2],
                 z3.And(q.lo <= j, j < q.hi, q.step == 1, 2*key[1] + c % 2 == z3.Int('s')), 'sizes: every multiplet')
        # the labels
        nest = [t[1]]
        while nest[-1]['kids']:
            if len(nest[-1]['kids']) != 1:
                raise OutOfReach('loops')
            nest += nest[-1]['kids']
        if len(nest) != 4:
            raise OutOfReach('loops')
        key = [l['value'] for l in nest[:3]]
        ps = [prog_of(ev, l) for l in nest]
        cc, s, ss = key
        ck.holds(hy, z3.And(ps[0].lo == 0, ps[0].hi == N + 1, ps[0].step == 1), 'every charge')
        ck.holds(hy, z3.And(ps[1].lo == -m(cc), ps[1].hi > m(cc), ps[1].hi <= m(cc) + 2, ps[1].step == 2), 'every projection')
        ck.holds(hy, z3.And(ps[2].lo == z3.If(s >= 0, s, -s), ps[2].hi > m(cc), ps[2].hi <= m(cc) + 2, ps[2].step == 2), 'every total spin')
        rd = [e for e in ev if e[0] == 'read']
        if not rd:
            raise OutOfReach('sizes')
        ck.eq(hy, ps[3].lo, num(0), 'labels of a multiplet')
        ck.holds(hy, z3.And(ps[3].step == 1, ps[3].hi == fn('ssqcount', 2)(cc, (ss - cc % 2) / 2)), 'as many labels as the multiplet occurs')
        ap = [e for e in ev if e[0] == 'append']
        if len(ap) != 1:
            ck.fail('%d labels are put at a time' % len(ap))
            continue
        ck.eq(hy, ap[0][2], (cc, (s + m(cc)) / 2, (ss - z3.If(s >= 0, s, -s)) / 2), 'list of the label')
        names = [n for n in nest[3]['sym'] if equal(hy, num(ap[0][3]), nest[3]['sym'][n])]
        if not names:
            ck.fail('the label is not the next one')
            continue
        n = names[0]
        ck.eq(hy, num(nest[3]['after'][n]), nest[3]['sym'][n] + 1, 'next label')
        ck.eq(hy, num(nest[0]['start'][n]), num(0), 'first label')
        for a, b in zip(nest, nest[1:]):
            ck.eq(hy, num(b['start'][n]), a['sym'][n], 'labels go on')
            ck.eq(hy, num(a['after'][n]), b['exit'][n], 'labels go on')
    if not seen:
        raise OutOfReach('no path')
    # lemma: the labels of one charge and projection are as many as the states: sum over S >= |s| telescopes
    cnt, num_, tail = z3.Function('cnt', I, I), z3.Function('num', I, I), z3.Function('tail', I, I)
    k, M = z3.Ints('k M')
    hy = [cnt(k) == num_(k) - z3.If(k + 2 <= M, num_(k + 2), 0), tail(k) == cnt(k) + z3.If(k + 2 <= M, tail(k + 2), 0), k <= M]
    ck.holds(hy + [z3.Implies(k + 2 <= M, tail(k + 2) == num_(k + 2))], tail(k) == num_(k), 'lemma: as many labels as states for every projection')
    return ck.out()
