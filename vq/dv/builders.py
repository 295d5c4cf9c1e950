"""Accessors and selections of the builders (C18, C02, C20, C15): element access, sorting, removal of states and coherences,
systems given by many-body input.  One path at a time, loops with the invariants of index.py."""
import ast
import z3
from .zx import Z, ZObj, ZArr, Fn, Cx, Raised, Ret, Cnt, prove, num, cx, real
from .src import OutOfReach
from .fock import fresh, Poison
from .rotation import Prog, Check, equal, rng, minmax
from .index import engine, Loops, Seq, reset, fn, I, B, NC, N, LEN
from .labels import Tok, tok, live, POW2
from .master import guarded

VAR, BB = 'qmeq/builder/various.py', 'qmeq/builder/builder_base.py'
R = z3.RealSort()
ORD, CH = fn('order', 1), fn('charge', 1)
RET, PRES = fn('retained', 1, B), fn('present', 1, B)
IDX, CONJ, IDX1 = fn('number', 3), fn('stored', 3, B), fn('number1', 3)
RE0 = fn('phi0', 1, R)
RE1, IM1 = fn('phi1.re', 2, R), fn('phi1.im', 2, R)
NDM0, NP, NM = z3.Int('ndm0'), z3.Int('npauli'), z3.Int('nmany')
DIAG = ('Pauli', 'pyPauli', 'RTD', 'pyRTD')
NOAMP = DIAG + ('Lindblad', 'pyLindblad')
KINDS = DIAG + ('Lindblad', 'pyLindblad', 'Redfield', 'pyRedfield', '1vN', 'py1vN', '2vN', 'py2vN')


def func(S, rel, name):
    m = S.module(rel)
    if name not in m.funcs:
        raise OutOfReach('function %s' % name)
    return (m, None, m.funcs[name])


def method(S, rel, cls, name):
    m = S.module(rel)
    if cls not in m.classes:
        raise OutOfReach('class %s' % cls)
    r = S.method(m, m.classes[cls], name)
    if r is None:
        raise OutOfReach('method %s' % name)
    return r


class Rows(object):
    """statesdm or chargelst: for every charge a list of states."""
    def __init__(self, name, isin, cut=None):
        self.name, self.isin, self.cut = name, isin, cut

    def zget(self, z, idx, node):
        if len(idx) != 1:
            z.bad('table of states', node)
        i = idx[0]
        if isinstance(i, slice):
            if i.start not in (None, 0) or i.step not in (None, 1):
                z.bad('part of the table of states', node)
            return Rows(self.name, self.isin, self.cut if i.stop is None else num(i.stop))
        return Row(self, num(i))

    def zlen(self, z):
        return NC

    def each(self, z, st, env, mod, both):
        """A search through the rows: it ends in one of them, or in none."""
        q = fresh('row')
        z.assume(z3.And(q >= 0, q < NC))
        z.events.append(('search', q))
        k = len(z.events)
        found = z.choose('search')
        z.bind(st.target, (q, self.zget(z, [q], st)) if both else self.zget(z, [q], st), env, mod, st)
        try:
            z.block(st.body, env, mod)
        except Cnt:
            pass
        except Ret:
            z.events.append(('found', q, found))
            raise
        z.events.append(('not found', q, found))
        if st.orelse:
            z.block(st.orelse, env, mod)

    def zloop(self, z, st, env, mod):
        self.each(z, st, env, mod, False)

    def __repr__(self):
        return self.name


class Row(object):
    def __init__(self, table, c):
        self.table, self.c = table, c

    def zin(self, z, b, node):
        return z3.And(self.table.isin(num(b)), CH(num(b)) == self.c)

    def zloop(self, z, st, env, mod):
        b = fresh('b')
        z.assume(z3.And(self.table.isin(b), CH(b) == self.c))
        z.events.append(('row', self.c, b))
        from .index import iterate
        iterate(z, st, env, mod, b)

    def zlen(self, z):
        n = fn('count_' + self.table.name, 1)(self.c)
        z.assume(n >= 0)
        return n


class Enum(object):
    def __init__(self, t):
        self.t = t

    def zloop(self, z, st, env, mod):
        self.t.each(z, st, env, mod, True)


def enumerate_(z, a, k):
    if len(a) == 1 and isinstance(a[0], Rows):
        return Enum(a[0])
    if isinstance(a[0], (list, tuple)):
        return list(enumerate(a[0]))
    z.bad('enumerate')


def type_(z, a, k):
    if isinstance(a[0], ZObj):
        return ZObj('type', None, {'__name__': a[0].cls[1].name if a[0].cls else a[0].name})
    z.bad('type')


def position(z, a, k):
    """get_ind_dm0: its contract (C02)."""
    names = ['self', 'b', 'bp', 'bcharge', 'maptype']
    d = dict(zip(names, a))
    d.update(k)
    t = d.get('maptype', 1)
    if t == 1:
        return IDX(num(d['b']), num(d['bp']), num(d['bcharge']))
    if t == 3:
        return CONJ(num(d['b']), num(d['bp']), num(d['bcharge']))
    z.bad('map of density-matrix elements')


def position1(z, a, k):
    names = ['self', 'c', 'b', 'bcharge']
    d = dict(zip(names, a))
    d.update(k)
    return IDX1(num(d['c']), num(d['b']), num(d['bcharge']))


def system(S, kern, cls=None):
    icls = cls or ('StateIndexingDMc' if '2vN' in kern else 'StateIndexingDM')
    m = S.module('qmeq/indexing.py')
    if icls not in m.classes:
        raise OutOfReach('class %s' % icls)
    si = ZObj(icls, (m, m.classes[icls]),
              dict(states_order=ZArr('order', 1, 'int', base=lambda i: ORD(i)), statesdm=Rows('statesdm', RET), chargelst=Rows('chargelst', PRES),
                   ndm0=NDM0, npauli=NP, nmany=NM, ncharge=NC))
    two = '2vN' in kern
    phi0 = ZArr('phi0', 1, 'cx') if two else ZArr('phi0', 1, 'real', base=lambda i: RE0(i))
    return ZObj('system', None, dict(si=si, kerntype=kern, phi0=phi0, phi1=ZArr('phi1', 2, 'cx', base=lambda l, i: Cx(RE1(l, i), IM1(l, i)))))


CON = {'enumerate': enumerate_, 'type': type_, 'range': rng, 'min': minmax('min'), 'max': minmax('max')}
for c_ in ('StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc'):
    CON['%s.get_ind_dm0' % c_], CON['%s.get_ind_dm1' % c_] = position, position1


def charge(z, a, k):
    if len(a) + len(k) != 2:
        z.bad('get_charge')
    return CH(num(a[1] if len(a) > 1 else k['b']))


def density(S, kern):
    """get_phi0: what is read is the element of the density matrix, and the matrix read is Hermitian."""
    out = []
    z = engine(S, dict(CON, get_charge=charge))
    b_, bp_ = z3.Ints('b_ bp_')

    def run(z):
        reset(z)
        sysm = system(S, kern)
        z.assume(z3.And(NP >= 0, NDM0 >= NP))
        return z.inline(func(S, VAR, 'get_phi0'), [sysm, b_, bp_], {}, None)
    ck = Check('get_phi0 (%s): the stored element of the two sorted states' % kern, z)
    b, bp = ORD(b_), ORD(bp_)
    q = CH(b)
    ind = IDX(b, bp, q)
    keep = z3.And(RET(b), RET(bp), q == CH(bp))
    if kern in DIAG:
        re = z3.If(z3.And(RET(b), b == bp), RE0(ind), 0)
        im = z3.RealVal(0)
    elif '2vN' in kern:
        p = ZArr('phi0', 1, 'cx').read([ind])
        re, im = z3.If(z3.And(keep, ind != -1), p.re, 0), z3.If(z3.And(keep, ind != -1), p.im, 0)
    else:
        re = z3.If(z3.And(keep, ind != -1), RE0(ind), 0)
        im = z3.If(z3.And(keep, ind != -1, ind >= NP), z3.If(CONJ(b, bp, q), RE0(NDM0 - NP + ind), -RE0(NDM0 - NP + ind)), 0)
    # indices are those of C02: in range, populations first, diagonal elements are populations
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc + [z3.Or(ind == -1, z3.And(ind >= 0, ind < NDM0)), z3.Implies(z3.And(RET(b), b == bp), z3.And(ind >= 0, ind < NP))]
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        if r is None:
            ck.fail('nothing is returned')
            continue
        r = cx(num(r))
        ck.holds(hy, real(r.re) == re, 'real part')
        ck.holds(hy, real(r.im) == im, 'imaginary part')
    out.append(ck.out())
    # Hermiticity of what the specification gives, from the numbering of C02
    if kern not in DIAG and '2vN' not in kern:
        x, y = z3.Ints('x y')

        def spec(b, bp):
            q = CH(b)
            i = IDX(b, bp, q)
            k = z3.And(RET(b), RET(bp), q == CH(bp), i != -1)
            return z3.If(k, RE0(i), 0), z3.If(z3.And(k, i >= NP), z3.If(CONJ(b, bp, q), RE0(NDM0 - NP + i), -RE0(NDM0 - NP + i)), 0)
        h = [IDX(x, y, CH(x)) == IDX(y, x, CH(y)), z3.Implies(IDX(x, y, CH(x)) >= NP, CONJ(x, y, CH(x)) == z3.Not(CONJ(y, x, CH(y))))]
        a, c = spec(x, y), spec(y, x)
        out.append(prove('lemma: the density matrix read is Hermitian (%s)' % kern, h, z3.And(a[0] == c[0], a[1] == -c[1])))
    return out


def amplitudes(S, kern):
    z = engine(S, dict(CON, get_charge=charge))
    l, c_, b_ = z3.Ints('l c_ b_')

    def run(z):
        reset(z)
        return z.inline(func(S, VAR, 'get_phi1'), [system(S, kern), l, c_, b_], {}, None)
    ck = Check('get_phi1 (%s): the stored amplitude, conjugate under exchange of the states' % kern, z)
    c, b = ORD(c_), ORD(b_)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        if kern in NOAMP:
            ck.n += 1
            if r is not None:
                raise OutOfReach('amplitudes of an approach without amplitudes')
            continue
        if r is None:
            ck.fail('nothing is returned')
            continue
        k = z3.And(RET(c), RET(b))
        up, dn = z3.And(k, CH(c) == CH(b) + 1), z3.And(k, CH(b) == CH(c) + 1)
        i, j = IDX1(c, b, CH(b)), IDX1(b, c, CH(c))
        r = cx(num(r))
        ck.holds(hy, real(r.re) == z3.If(up, RE1(l, i), z3.If(dn, RE1(l, j), 0)), 'real part')
        ck.holds(hy, real(r.im) == z3.If(up, IM1(l, i), z3.If(dn, -IM1(l, j), 0)), 'imaginary part')
    return ck.out()


def charges(S):
    z = engine(S, CON)
    b = z3.Int('b')

    def run(z):
        reset(z)
        return z.inline(func(S, VAR, 'get_charge'), [system(S, 'Pauli'), b], {}, None)
    ck = Check('get_charge: the charge whose list holds the state', z)
    hit = 0
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        here = [e for e in ev if e[0] in ('found', 'not found')]
        if len(here) != 1:
            raise OutOfReach('no search through the charges')
        kind, q, _ = here[0]
        if kind == 'found':
            hit += 1
            if r is None:
                ck.fail('the search ends without a charge')
                continue
            ck.holds(hy + [PRES(b)], z3.And(num(r) == CH(b), q == CH(b)), 'charge')
        else:
            ck.holds(hy + [PRES(b)], q != CH(b), 'the search passes over the list that holds the state')
    if not hit:
        ck.fail('no charge is returned')
    return ck.out()


def sorting(S):
    """sort_eigenstates: the new order is the last row (state numbers) of the sorted table, or the order of the labels."""
    out = []
    for given in (False, True):
        for have in (False, True):
            z = engine(S, dict(CON, construct_Ea_extended=lambda z, a, k: Table2(), multiarray_sort=msort,
                               **{'list': lambda z, a, k: a[0]}))

            def run(z):
                reset(z)
                sysm = system(S, 'Pauli')
                ea = ZArr('Ea', 1)
                sysm.attrs['qd'] = ZObj('qd', None, dict(Ea=ea, Ea_ext=Table2() if have else None))
                z.inline(func(S, VAR, 'sort_eigenstates'), [sysm, ['srt'] if given else None], {}, None)
                return sysm, ea
            ck = Check('sort_eigenstates (%s): a permutation of the labels' % ('given order, table %s' % ('reused' if have else 'made') if given else 'no order'), z)
            for pc, r, ev in z.explore(run):
                if isinstance(r, Raised):
                    raise OutOfReach('raises %s' % r.what)
                sysm, ea = r
                o = sysm.attrs['si'].attrs['states_order']
                ck.n += 1
                if not given:
                    hy = list(z.axioms) + pc
                    if not isinstance(o, Prog):
                        raise OutOfReach('order of the states')
                    ck.holds(hy, z3.And(o.lo == 0, o.hi == NM, o.step == 1), 'order of the labels')
                    continue
                if isinstance(o, ZArr):
                    ck.fail('the order of the states is not changed')
                    continue
                if not isinstance(o, Sorted):
                    raise OutOfReach('order of the states')
                if o.row != -1:
                    raise OutOfReach('row %s' % o.row)
                if list(o.srt)[:1] != ['srt']:
                    ck.fail('the states are not sorted by the given properties: %s' % (o.srt,))
                if have and not any(e[0] == 'row' and e[1] == 0 and e[2] is ea for e in ev):
                    ck.fail('the states are sorted by the energies of an earlier system')
                for n in ('chargelst', 'statesdm'):
                    if not isinstance(sysm.attrs['si'].attrs[n], Rows):
                        ck.fail('%s is changed' % n)
            out.append(ck.out())
    return out


class Table2(object):
    """Ea_ext: its last row holds the labels of the states."""
    def zset(self, z, idx, v, node):
        if idx == [-1] or any(isinstance(i, slice) for i in idx):
            z.bad('table of the states', node)
        z.events.append(('row', idx[0], v))

    def zcmp(self, z, op, o, flip, node):
        if o is None:
            return op in ('IsNot', 'NotEq')
        z.bad('comparison', node)


class Sorted(object):
    def __init__(self, srt, row=None):
        self.srt, self.row = srt, row

    def zget(self, z, idx, node):
        if len(idx) == 1 and isinstance(idx[0], int) and self.row is None:
            return Sorted(self.srt, idx[0])
        z.bad('sorted table', node)

    def zlist(self, z):
        return self


def msort(z, a, k):
    if len(a) != 2 or not isinstance(a[0], Table2) or not isinstance(a[1], list):
        z.bad('sorting')
    return Sorted(a[1])


def sorter(S):
    """multiarray_sort: the columns are permuted, by the rows named, the first one first."""
    class A(object):
        def __init__(self, *t):
            self.t = t

        def zget(self, z, idx, node):
            return A('row', self, idx[0]) if len(idx) == 1 and not isinstance(idx[0], slice) else z.bad('part of an array', node)

        def zattr(self, z, n, node):
            if n == 'T':
                return self.t[1] if self.t[0] == 'T' else A('T', self)
            z.bad('attribute %s' % n, node)
    perm = []

    def lex(z, a, k):
        if len(a) != 1 or k or not isinstance(a[0], (list, tuple)):
            z.bad('lexsort')
        r = A('perm', list(a[0]))
        perm.append(r)
        return r
    z = engine(S, {'np.lexsort': lex})

    def run(z):
        reset(z)
        del perm[:]
        arr = A('arr')
        return arr, z.inline(func(S, VAR, 'multiarray_sort'), [arr, [7, 3, 5]], {}, None)
    ck = Check('multiarray_sort: the columns are permuted by the rows named, the first one first', z)
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        arr, o = r
        ck.n += 1
        # (arr.T[perm]).T
        if not (isinstance(o, A) and o.t[0] == 'T' and isinstance(o.t[1], A) and o.t[1].t[0] == 'row' and o.t[1].t[1].t[:1] == ('T',)
                and o.t[1].t[1].t[1] is arr and isinstance(o.t[1].t[2], A) and o.t[1].t[2].t[0] == 'perm'):
            raise OutOfReach('permutation of the columns')
        keys = o.t[1].t[2].t[1]
        if not all(isinstance(x, A) and x.t[0] == 'row' and x.t[1] is arr for x in keys):
            raise OutOfReach('keys')
        if [x.t[2] for x in keys] != [5, 3, 7]:
            ck.fail('keys %s for the order [7, 3, 5] (the last key is the first to sort by)' % [x.t[2] for x in keys])
    return ck.out()


# ------------------------------------------------------------------------------------------------ removing states and coherences
EA = fn('Ea', 1, R)


class Energies(object):
    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('energies', node)
        return EA(num(idx[0]))


LOWEST = z3.Real('lowest')


def extreme(which):
    def f(z, a, k):
        if len(a) == 1 and isinstance(a[0], Energies):
            if which == 'max':
                z.bad('largest energy')
            return LOWEST
        return minmax(which)(z, a, k)
    return f


class NewRows(object):
    def __init__(self, size):
        self.size = size

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('table of states', node)
        c = num(idx[0])

        class L(object):
            def zattr(s, z, n, node):
                if n == 'append':
                    return Fn(lambda z, a, k: z.events.append(('append', self, c, num(a[0]))))
                z.bad('attribute %s' % n, node)
        return L()


def rows_of(z, e, env, mod):
    """[[ELT for Y in B if C] for X in A]: as the loop that fills a list of lists."""
    g, h = e.generators[0], e.elt.generators
    if len(h) != 1 or g.ifs:
        z.bad('comprehension', e)
    it = z.ev(g.iter, env, mod)
    src = ast.parse('for __c in __r:\n    __x = __t[__c]\n    for __y in __b:\n        __rows[__c].append(__e)').body[0]
    inner = src.body[1]
    inner.target, inner.iter, inner.body[0].value.args[0] = h[0].target, h[0].iter, e.elt.elt
    for c in reversed(h[0].ifs):
        inner.body = [ast.If(test=c, body=inner.body, orelse=[])]
    en = dict(env)
    if isinstance(it, Prog) and it.step == 1 and equal(list(z.axioms) + z.pc + list(z.extra), it.lo, num(0)):
        rows, en['__r'] = NewRows(it.hi), it
        src.body[0].value = ast.Name('__c', ast.Load())
    elif isinstance(it, Rows):
        rows, en['__r'], en['__t'] = NewRows(NC), rng(z, [NC], {}), it
    else:
        z.bad('comprehension', e)
    src.body[0].targets = [g.target]
    for x in ast.walk(src):
        if isinstance(x, (ast.stmt, ast.expr)):
            ast.copy_location(x, e)
    ast.fix_missing_locations(src)
    en['__rows'] = rows
    z.block([src], en, mod)
    return rows


def empty_rows(z, e, env, mod):
    if len(e.generators) == 1 and isinstance(e.elt, ast.ListComp):
        return rows_of(z, e, env, mod)
    if len(e.generators) != 1 or e.generators[0].ifs or not (isinstance(e.elt, ast.List) and not e.elt.elts):
        z.bad('comprehension', e)
    it = z.ev(e.generators[0].iter, env, mod)
    if not isinstance(it, Prog) or it.step != 1 or not equal(list(z.axioms) + z.pc + list(z.extra), it.lo, num(0)):
        z.bad('comprehension', e)
    return NewRows(it.hi)


def handed(z, a, k):
    z.events.append(('states', a[1] if len(a) > 1 else k['statesdm']))


SETST = {'%s.set_statesdm' % c: handed for c in ('StateIndexing', 'StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc')}


def selection(S):
    """remove_states: exactly the states below the limit are retained; use_all_states: all of them."""
    z = engine(S, dict(CON, **dict(SETST, **{'min': extreme('min'), 'np.min': extreme('min'), 'max': extreme('max')})))
    z.ev_ListComp = lambda e, env, mod: empty_rows(z, e, env, mod)
    dE = z3.Real('dE')

    def run(z):
        reset(z)
        sysm = system(S, 'Pauli')
        sysm.attrs['qd'] = ZObj('qd', None, dict(Ea=Energies()))
        z.inline(func(S, VAR, 'remove_states'), [sysm, dE], {}, None)
    ck = Check('remove_states: the states below the limit, each with its charge', z)
    both = set()
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        st = [e[1] for e in ev if e[0] == 'states']
        if len(st) != 1 or not isinstance(st[0], NewRows):
            raise OutOfReach('set of retained states')
        ck.holds(hy, st[0].size == NC, 'one list for every charge')
        rows = [e for e in ev if e[0] == 'row']
        L = Loops(ev)
        if len(rows) != 1 or len(L.order) not in (1, 2):
            raise OutOfReach('loops over the states')
        top = L.order[0]
        if len(L.order) == 2:
            p = next((e[2] for e in ev if e[0] == 'prog' and isinstance(top['value'], z3.ArithRef) and e[1].eq(top['value'])), None)
            if p is None:
                raise OutOfReach('loop over the charges')
            ck.holds(hy, z3.And(p.lo == 0, p.hi == NC, p.step == 1), 'every charge')
            ck.holds(hy, rows[0][1] == top['value'], 'states of the charge')
        b = rows[0][2]
        ap = [e for e in ev if e[0] == 'append']
        if len(ap) > 1:
            ck.fail('a state is put twice')
            continue
        both.add(len(ap))
        if ap:
            if ap[0][1] is not st[0]:
                ck.fail('another table is filled')
            ck.holds(hy, z3.And(ap[0][3] == b, ap[0][2] == CH(b)), 'state and charge')
            ck.holds(hy, EA(b) <= LOWEST + dE, 'energy of a retained state')
        else:
            ck.holds(hy, EA(b) >= LOWEST + dE, 'energy of a removed state')
    if both != {0, 1}:
        ck.fail('no state is retained' if 1 not in both else 'no state is removed')
    out = [ck.out()]
    z2 = engine(S, dict(CON, **SETST))

    def run2(z):
        reset(z)
        sysm = system(S, 'Pauli')
        z.inline(func(S, VAR, 'use_all_states'), [sysm], {}, None)
    ck = Check('use_all_states: the states of all charges', z2)
    for pc, r, ev in z2.explore(run2):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        st = [e[1] for e in ev if e[0] == 'states']
        ck.n += 1
        if len(st) != 1 or not isinstance(st[0], Rows):
            raise OutOfReach('set of retained states')
        if st[0].isin is not PRES:
            ck.fail('not all states are used: %s' % st[0])
    return out + [ck.out()]


MAP, OLD = fn('mapdm0', 1), fn('inddm0', 2)
SI, SX = fn('element', 1), fn('old_number', 1)      # the sorted list of (element, number)
M = z3.Int('count_kept')


class Ver(object):
    """A list that a loop rewrites entry by entry (entry k in iteration k); afterwards its contents are called new."""
    def __init__(self, name, f, size=None):
        self.name, self.f, self.size = name, f, size
        self.new = fn(name + '_new', 1)

    def zlen(self, z):
        if self.size is None:
            z.bad('length of a list')
        z.assume(self.size >= 0)
        return self.size

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('part of a list', node)
        i = num(idx[0])
        depth, sets = 0, []
        for e in z.events:
            if e[0] == 'set' and e[1] is self:
                sets.append([e[2], e[3], True])
            elif e[0] == 'leave':
                for s in sets:
                    s[2] = False
        cur = [s for s in sets if s[2]]
        if cur:
            if not all(equal([], s[0], i) for s in cur):
                z.bad('another entry of a list that is being rewritten', node)
            return cur[-1][1]
        return self.new(i) if sets else self.f(i)

    def zset(self, z, idx, v, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('part of a list', node)
        z.events.append(('set', self, num(idx[0]), num(v)))


class Grow(object):
    def __init__(self, n):
        self.n = n

    def zattr(self, z, n, node):
        if n == 'append':
            def f(z, a, k):
                Grow.note(self, num(a[0]))
                z.events.append(('append', self, None, num(a[0])))
            return Fn(f)
        z.bad('attribute %s' % n, node)

    def zlist(self, z):
        return self


class OldDict(object):
    def zget(self, z, idx, node):
        if len(idx) != 1:
            z.bad('elements', node)
        return Elem(num(idx[0]))


class Elem(object):
    """The pair of states of an element."""
    def __init__(self, i):
        self.i = i

    def zunpack(self, z, n):
        if n != 2:
            z.bad('pair of states')
        return (fn('state_b', 1)(self.i), fn('state_bp', 1)(self.i))

    def zget(self, z, idx, node):
        if idx in ([0], [1]):
            return fn('state_b' if idx == [0] else 'state_bp', 1)(self.i)
        z.bad('pair of states', node)


class NewDict(object):
    def zset(self, z, idx, v, node):
        z.events.append(('entry', self, num(idx[0]), v))


def coherences(S):
    grown = []

    def ev_list(e, env, mod):
        if not e.elts:
            g = Grow(len(grown))
            grown.append(g)
            return g
        return base(e, env, mod)

    def msort2(z, a, k):
        if len(a) != 2 or not (isinstance(a[0], list) and len(a[0]) == 2 and all(isinstance(x, Grow) for x in a[0])) or not isinstance(a[1], list):
            z.bad('sorting')
        z.events.append(('sort', a[0], a[1]))
        first = a[1][0]
        nm = next((e for e in z.events if e[0] == 'append'), None)
        out = [None, None]
        for j, x in enumerate(a[0]):
            kind = role(z, x)
            out[j] = Ver('element' if kind == 'i' else 'number', SI if kind == 'i' else SX, M)
        return out

    def role(z, g):
        if len([e for e in z.events if e[0] == 'append' and e[1] is g]) > 1:
            z.bad('a list of elements')
        r = roles.get(g.n)
        if r is None:
            raise Raised('role')
        return r
    roles = {}
    z = engine(S, dict(CON, multiarray_sort=msort2, **{'np.array': lambda z, a, k: a[0]}))
    base = z.ev_List
    z.ev_List = ev_list
    z.ev_Dict = lambda e, env, mod: NewDict() if not e.keys else z.bad('dictionary', e)
    dE, ndm0_ = z3.Real('dE'), z3.Int('ndm0_')

    def run(z):
        reset(z)
        del grown[:]
        z.assume(z3.And(ndm0_ >= 0, dE >= 0, NP >= 1, NDM0 >= NP))
        sysm = system(S, 'Redfield')
        si = sysm.attrs['si']
        sysm.attrs['qd'] = ZObj('qd', None, dict(Ea=Energies()))
        mp = Ver('mapdm0', MAP)
        si.attrs.update(ndm0_=ndm0_, mapdm0=mp, inddm0=OldDict(), states_changed=False)
        def append(g, v):
            L = [x for x in z.events if x[0] == 'enter']
            roles[g.n] = 'i' if L and isinstance(L[0][2], z3.ArithRef) and v.eq(L[0][2]) else 'ind'
        Grow.note = staticmethod(append)
        z.inline(func(S, VAR, 'remove_coherences'), [sysm, dE], {}, None)
        return si, mp
    z.explore(run)          # which list holds the elements and which the numbers
    return coherence_paths(S, z, run, dE, ndm0_, roles)


def coherence_paths(S, z, run, dE, ndm0_, roles):
    ck = Check('remove_coherences: exactly the coherences above the limit go, the others are renumbered without gaps', z)
    seen = set()
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        si, mp = r
        L = Loops(ev)
        top = [l for l in L.top if isinstance(l, dict)]
        if len(top) != 3 or any(l['kids'] for l in top):
            raise OutOfReach('loops')
        P = []
        for l in top:
            p = next((e[2] for e in ev if e[0] == 'prog' and isinstance(l['value'], z3.ArithRef) and e[1].eq(l['value'])), None)
            if p is None:
                raise OutOfReach('loops')
            P.append(p)
        # first loop: which elements go
        i = top[0]['value']
        ck.holds(hy, z3.And(P[0].lo == 0, P[0].hi == ndm0_, P[0].step == 1), 'every element')
        e1 = top[0]['events']
        sets, aps = [e for e in e1 if e[0] == 'set'], [e for e in e1 if e[0] == 'append']
        x = MAP(i)
        diff = EA(fn('state_b', 1)(x)) - EA(fn('state_bp', 1)(x))
        far = z3.Or(diff > dE, diff < -dE)
        if sets:
            seen.add('gone')
            if aps or len(sets) != 1 or sets[0][1] is not mp:
                ck.fail('an element is both removed and kept')
                continue
            ck.holds(hy, z3.And(sets[0][2] == i, sets[0][3] == -1), 'what is removed')
            ck.holds(hy, z3.And(x != -1, z3.Or(diff >= dE, diff <= -dE)), 'removed only above the limit')
        elif aps:
            seen.add('kept')
            if len(aps) != 2 or len({roles[a[1].n] for a in aps}) != 2:
                ck.fail('element and number are not both noted')
                continue
            for a in aps:
                ck.eq(hy, a[3], i if roles[a[1].n] == 'i' else x, 'what is noted of an element that stays')
            ck.holds(hy, z3.And(x != -1, diff <= dE, -diff <= dE), 'kept only up to the limit')
        else:
            ck.holds(hy, x == -1, 'neither removed nor kept')
        # sorted by number first
        so = [e for e in ev if e[0] == 'sort']
        if len(so) != 1:
            raise OutOfReach('sorting')
        if roles[so[0][1][so[0][2][0]].n] != 'ind':
            ck.fail('the elements that stay are not sorted by their number')
        # second loop: consecutive numbers
        k = top[1]['value']
        ck.holds(hy, z3.And(P[1].lo == 0, P[1].hi == M, P[1].step == 1), 'every element that stays')
        s = [e for e in top[1]['events'] if e[0] == 'set']
        sy = top[1]['sym']
        if len(s) != 1 or s[0][1].name != 'number' or not (s[0][2].eq(k)):
            raise OutOfReach('renumbering')
        names = list(sy)
        # part of the carried variables: the one that ends as the new number, the one that ends as the old
        part = {}
        for n in names:
            if equal(hy, top[1]['after'][n], s[0][3]):
                part.setdefault('count', n)
        for n in names:
            if n != part.get('count') and equal(hy, top[1]['after'][n], SX(k)):
                part.setdefault('last', n)
        if set(part) != {'count', 'last'}:
            if len(names) < 2:
                raise OutOfReach('renumbering')
            ck.fail('the last number is not carried on')
            continue
        cnt, last = part['count'], part['last']
        new = s[0][3]
        ck.eq(hy, num(top[1]['start'][cnt]), num(0), 'first number')
        ck.eq(hy, num(top[1]['start'][last]), num(0), 'first old number (populations are never removed)')
        ck.holds(hy, new == z3.If(SX(k) == sy[last], sy[cnt], sy[cnt] + 1), 'next number')
        # third loop
        t = top[2]['value']
        ck.holds(hy, z3.And(P[2].lo == 0, P[2].hi == M, P[2].step == 1), 'every element that stays')
        en = [e for e in top[2]['events'] if e[0] == 'entry']
        ms = [e for e in top[2]['events'] if e[0] == 'set']
        nw = fn('number_new', 1)(t)
        if len(en) != 1 or len(ms) != 1 or not isinstance(en[0][3], Elem) or ms[0][1] is not mp:
            raise OutOfReach('relabelling')
        ck.eq(hy, en[0][2], nw, 'new number of an element')
        old = en[0][3].i
        good = [MAP(SI(t)), fn('mapdm0_new', 1)(SI(t)), SX(t)]
        if old.eq(nw) or not any(equal(hy, old, g) for g in good):
            ck.fail('the pair of states of an element is taken from %s' % old)
        ck.eq(hy, ms[0][2], SI(t), 'element that is renumbered')
        ck.eq(hy, ms[0][3], nw, 'number of the element')
        if si.attrs['inddm0'] is not en[0][1]:
            ck.fail('the table of elements is not replaced')
        ck.eq(hy, num(si.attrs['ndm0']), top[1]['exit'][cnt] + 1, 'count of the numbers')
        if 'ndm0r' in si.attrs:
            ck.eq(hy, num(si.attrs['ndm0r']), 2 * num(si.attrs['ndm0']) - NP, 'count of real numbers')
        if si.attrs['states_changed'] is not True:
            ck.fail('the change is not announced')
    if seen != {'gone', 'kept'}:
        ck.fail('no coherence is removed' if 'gone' not in seen else 'no element is kept')
    return ck.out()


# ------------------------------------------------------------------------------------------------ table of properties (for sorting)
class Cells(object):
    def __init__(self, shape):
        self.shape = shape

    def zset(self, z, idx, v, node):
        if len(idx) not in (1, 2) or any(isinstance(i, slice) for i in idx) or not isinstance(idx[0], int):
            z.bad('table of the states', node)
        z.events.append(('cell', tuple(idx), v))


def table(S, indexing):
    """construct_Ea_extended: energies, charge and spin of every label, labels in the last row."""
    from .labels import Lists, tops, prog_of
    depth = {'sz': 2, 'ssq': 3}.get(indexing, 1)
    z = engine(S, dict(CON, **{'np.zeros': lambda z, a, k: Cells(a[0]) if isinstance(a[0], tuple) and len(a[0]) == 2 else z.bad('np.zeros'),
                               'np.arange': lambda z, a, k: ('arange', num(a[0])) if len(a) == 1 else z.bad('np.arange'),
                               'len': lambda z, a, k: fn('length_Ea', 0)() if a[0] is ENE else z.builtin('len', a, k, None)}))

    def run(z):
        reset(z)
        z.assume(z3.And(N >= 0, NC == N + 1))
        if depth > 1:
            z.assume(N % 2 == 0)
        si = ZObj('si', None, dict(indexing=indexing, ncharge=NC, nsingle=N, nmany=NM, chargelst=Lists('c', 1), szlst=Lists('s', 2), ssqlst=Lists('q', 3)))
        return z.inline(func(S, VAR, 'construct_Ea_extended'), [ZObj('system', None, dict(si=si, qd=ZObj('qd', None, dict(Ea=ENE))))], {}, None)
    ck = Check('construct_Ea_extended (%s): energy, quantum numbers and label of every state' % indexing, z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        if not isinstance(r, Cells):
            raise OutOfReach('result')
        rows = r.shape[0]
        if rows != depth + 2:
            ck.fail('%s rows' % (rows,))
            continue
        L, t = tops(ev)
        flat = [e for e in L.top if isinstance(e, tuple) and e[0] == 'cell']
        want = {0: lambda v: v is ENE, rows - 1: lambda v: isinstance(v, tuple) and v[0] == 'arange' and equal(hy, v[1], NM)}
        for row, ok in want.items():
            c = [e for e in flat if len(e[1]) == 1 and e[1][0] % rows == row]
            if not c or not ok(c[-1][2]):
                if c and not (isinstance(c[-1][2], tuple) or c[-1][2] is ENE):
                    raise OutOfReach('row %d' % row)
                ck.fail('row %d is not %s' % (row, 'the energies' if row == 0 else 'the labels'))
        nest, l = [], t[0] if len(t) == 1 else None
        while l is not None:
            nest.append(l)
            l = l['kids'][0] if len(l['kids']) == 1 else None
        if len(nest) != depth + 1:
            raise OutOfReach('loops')
        P, V = [prog_of(ev, l) for l in nest], [l['value'] for l in nest]
        q = V[0]
        m = z3.If(q <= N - q, q, N - q)
        ck.holds(hy, z3.And(P[0].lo == 0, P[0].hi == NC, P[0].step == 1), 'every charge')
        key = [q]
        if depth > 1:
            ck.holds(hy, z3.And(P[1].lo == -m, P[1].hi > m, P[1].hi <= m + 2, P[1].step == 2), 'every spin projection')
            key.append((m + V[1]) / 2)
        if depth > 2:
            a = z3.If(V[1] >= 0, V[1], -V[1])
            ck.holds(hy, z3.And(P[2].lo == a, P[2].hi > m, P[2].hi <= m + 2, P[2].step == 2), 'every total spin')
            key.append((V[2] - a) / 2)
        nm = 'csq'[depth - 1]
        ck.holds(hy, z3.And(P[-1].lo == 0, P[-1].hi == fn('count_' + nm, depth)(*key), P[-1].step == 1), 'every label')
        lab = fn('label_' + nm, depth + 1)(*(key + [V[-1]]))
        cells = [e for e in nest[-1]['events'] if e[0] == 'cell']
        got = {}
        for e in cells:
            if len(e[1]) != 2:
                raise OutOfReach('a row in the loop')
            if e[1][0] in got:
                ck.fail('row %s twice' % e[1][0])
            got[e[1][0] % rows] = e
        for row in range(1, depth + 1):
            if row not in got:
                ck.fail('row %d is missing' % row)
                continue
            ck.eq(hy, num(got[row][1][1]), lab, 'label')
            ck.eq(hy, num(got[row][2]), V[row - 1], 'row %d' % row)
    return ck.out()


class Whole(object):
    """A value that is only handed on."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def zcmp(self, z, op, o, flip, node):
        if o is None:
            return op in ('IsNot', 'NotEq')
        z.bad('comparison with %s' % self.name, node)

    def zattr(self, z, n, node):
        if n == 'shape':
            return Shape(self.name)
        z.bad('attribute %s of %s' % (n, self.name), node)

    def zlen(self, z):
        return z3.Int('length of ' + self.name)


class Shape(object):
    def __init__(self, name):
        self.name = name

    def zget(self, z, idx, node):
        if len(idx) == 1 and isinstance(idx[0], int):
            return z3.Int('shape%d of %s' % (idx[0], self.name))
        z.bad('shape', node)


ENE = Whole('Ea')


# ------------------------------------------------------------------------------------------------ systems given by many-body input
NA = fn('Na', 1)
NMIN, NMAX = z3.Ints('nmin nmax')


class Numbers(object):
    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('particle numbers', node)
        i = num(idx[0])
        z.assume(z3.And(NA(i) >= NMIN, NA(i) <= NMAX))
        return NA(i)

    def zlist(self, z):
        return self

    def zattr(self, z, n, node):
        if n in ('min', 'max'):
            return Fn(lambda z, a, k: NMIN if n == 'min' else NMAX)
        z.bad('attribute %s of the particle numbers' % n, node)

    def zlen(self, z):
        return NM


def arrays(z, a, k):
    if hasattr(a[0], 'zlist'):
        return a[0].zlist(z)
    z.bad('np.array')


def minof(which):
    return lambda z, a, k: (NMIN if which == 'min' else NMAX) if len(a) == 1 and isinstance(a[0], Numbers) else minmax(which)(z, a, k)


def by_number(S):
    """_init_state_indexing: every state is put once, into the list of its particle number."""
    z = engine(S, dict(CON, **{'np.array': arrays, 'min': minof('min'), 'max': minof('max'), 'np.min': minof('min'), 'np.max': minof('max'),
                               'BuilderManyBody._set_state_indexing': lambda z, a, k: z.events.append(('set_si', list(a), dict(k))),
                               'len': lambda z, a, k: NM if a[0] is ENE else z.builtin('len', a, k, None)}))
    z.ev_ListComp = lambda e, env, mod: empty_rows(z, e, env, mod)

    def run(z):
        reset(z)
        z.assume(z3.And(NM >= 1, NMIN <= NMAX))
        m = S.module(BB)
        o = ZObj('builder', (m, m.classes['BuilderManyBody']), dict(si=Whole('si')))
        z.inline(method(S, BB, 'BuilderManyBody', '_init_state_indexing'), [o, Numbers(), ENE], {}, None)
        return o
    ck = Check('BuilderManyBody._init_state_indexing: every state once, in the list of its particle number', z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        L = Loops(ev)
        t = [l for l in L.top if isinstance(l, dict)]
        if len(t) != 1 or len(t[0]['kids']) > 1 or t[0]['kids'] and t[0]['kids'][0]['kids']:
            raise OutOfReach('loops')

        def prog(i):
            p = next((e[2] for e in ev if e[0] == 'prog' and isinstance(i, z3.ArithRef) and e[1].eq(i)), None)
            if p is None:
                raise OutOfReach('loop over the states')
            return p
        i = (t[0]['kids'] or t)[0]['value']
        p = prog(i)
        ck.holds(hy, z3.And(p.lo == 0, p.hi == NM, p.step == 1), 'every state')
        ap = [e for e in ev if e[0] == 'append']
        if t[0]['kids']:
            # for every charge, the states of that charge
            q = t[0]['value']
            p = prog(q)
            ck.holds(hy, z3.And(p.lo == 0, p.hi == NMAX - NMIN + 1, p.step == 1), 'every charge')
            if not ap:
                ck.holds(hy, NA(i) - NMIN != q, 'state left out of its list')
                continue
            ck.holds(hy, ap[0][2] == q, 'list of the charge')
        if len(ap) != 1:
            ck.fail('a state is put %d times' % len(ap))
            continue
        ck.holds(hy, ap[0][3] == i, 'state')
        ck.holds(hy, ap[0][2] == NA(i) - NMIN, 'particle number, counted from the smallest')
        st = [e for e in ev if e[0] == 'set_si']
        if len(st) != 1:
            raise OutOfReach('the tables are not set')
        d = dict(zip(['si', 'statesdm', 'nmany'], [x for x in st[0][1] if not (isinstance(x, ZObj) and x.name == 'builder')]), **st[0][2])
        if d['statesdm'] is not ap[0][1]:
            ck.fail('another table of states is set')
        ck.holds(hy, num(d['nmany']) == NM, 'number of states')
        ck.holds(hy, ap[0][1].size == NMAX - NMIN + 1, 'number of charges')
    return ck.out()


def tables(S):
    """_set_state_indexing: lengths of the tables, before the positions are made (set_statesdm)."""
    z = engine(S, dict(CON, **{'np.zeros': lambda z, a, k: ('zeros', num(a[0])),
                               'list': lambda z, a, k: a[0], 'len': lambda z, a, k: NC if isinstance(a[0], Rows) else z.builtin('len', a, k, None)}))

    def run(z):
        reset(z)
        z.assume(z3.And(NC >= 1, NM >= 0))
        si = ZObj('si', None, dict(set_statesdm=Fn(lambda z, a, k: z.events.append(('states', a, dict(si.attrs))))))
        t = Rows('given', PRES)
        z.inline(method(S, BB, 'BuilderManyBody', '_set_state_indexing'), [si, t, NM], {}, None)
        return si, t
    ck = Check('BuilderManyBody._set_state_indexing: tables of the right lengths, positions made from them', z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        si, t = r
        st = [e for e in ev if e[0] == 'states']
        if len(st) != 1:
            ck.fail('the retained states are set %d times' % len(st))
            continue
        if st[0][1] != [t]:
            ck.fail('other states are retained')
        a = st[0][2]
        for n, v in (('nmany', NM), ('ncharge', NC)):
            if n not in a:
                ck.fail('%s is not set before the positions are made' % n)
                continue
            ck.eq(hy, num(a[n]), v, n)
        for n, v in (('shiftlst0', NC + 1), ('shiftlst1', NC), ('lenlst', NC), ('dictdm', NM)):
            if not (isinstance(a.get(n), tuple) and a[n][0] == 'zeros'):
                raise OutOfReach(n)
            ck.holds(hy, a[n][1] >= v, 'length of %s' % n)
        if si.attrs.get('chargelst') is not t:
            ck.fail('the lists of states are not kept')
        o = si.attrs.get('states_order')
        if not isinstance(o, Prog):
            raise OutOfReach('order of the states')
        ck.holds(hy, z3.And(o.lo == 0, o.hi == NM, o.step == 1), 'order of the labels')
    return ck.out()


def names_of(m, a, k):
    """Arguments by the names of the parameters of the function called."""
    f = m[2]
    ps = [x.arg for x in f.args.args]
    d = dict(zip(ps, a))
    d.update(k)
    return d


def given(S, m, skip=('self',)):
    return {x.arg: Whole(x.arg) for x in m[2].args.args if x.arg not in skip}


def handed_on(ck, got, want, what):
    """want: parameter -> value that has to arrive."""
    for n, v in want.items():
        if n not in got:
            ck.fail('%s: %s is not handed on' % (what, n))
        elif got[n] is not v:
            if isinstance(got[n], Whole):
                ck.fail('%s: %s is given %s' % (what, n, got[n]))
            else:
                raise OutOfReach('%s of %s' % (n, what))
        ck.n += 1


def many_body(S, rel, cls, base):
    """Constructor: all parameters are handed on, the states are indexed and the matrices are those given."""
    m0 = method(S, rel, base, '__init__')
    con = {'%s.__init__' % base: lambda z, a, k: z.events.append(('base', names_of(m0, a, k))),
           'BuilderManyBody._init_state_indexing': lambda z, a, k: z.events.append(('index', a[1:], k)),
           'BuilderManyBody._set_state_indexing': lambda z, a, k: z.events.append(('index2', a, k))}
    z = engine(S, dict(CON, **con))
    m = method(S, rel, cls, '__init__')
    par = given(S, m)

    def run(z):
        reset(z)
        mm = S.module(rel)
        si, si2 = ZObj('si', None, dict(chargelst=Whole('chargelst'), nmany=Whole('nmany'))), Whole('si_elph')
        qd, leads, baths = ZObj('qd'), ZObj('leads'), ZObj('baths')
        o = ZObj('builder', (mm, mm.classes[cls]), dict(si=si, si_elph=si2, qd=qd, leads=leads, baths=baths))
        z.inline(m, [o], dict(par), None)
        return o
    ck = Check('%s.__init__: the parameters given are the ones used' % cls, z)
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        if not live(z, pc):
            continue
        b = [e for e in ev if e[0] == 'base']
        if len(b) != 1:
            raise OutOfReach('constructor of the base class')
        own = {n: v for n, v in par.items() if n in [x.arg for x in m0[2].args.args]}
        handed_on(ck, b[0][1], own, base)
        hy = list(z.axioms) + pc
        ck.eq(hy, num(b[0][1].get('nleads', 0)), z3.Int('shape0 of Tba'), 'number of leads')
        if 'Vbbp' in par:
            ck.eq(hy, num(b[0][1].get('nbaths', 0)), z3.Int('shape0 of Vbbp'), 'number of baths')
        if b[0][1].get('indexing') != 'charge':
            ck.fail('indexing %s' % (b[0][1].get('indexing'),))
        i = [e for e in ev if e[0] == 'index']
        mi = method(S, rel, cls, '_init_state_indexing')
        if len(i) != 1:
            ck.fail('the states are indexed %d times' % len(i))
        else:
            handed_on(ck, names_of((None, None, mi[2]), [None] + list(i[0][1]), i[0][2]), {'Na': par['Na'], 'Ea': par['Ea']}, '_init_state_indexing')
        o = r.attrs
        for ob, n in (('qd', 'Ea'), ('leads', 'Tba')) + ((('baths', 'Vbbp'),) if 'Vbbp' in par else ()):
            if o[ob].attrs.get(n) is not par[n]:
                ck.fail('%s is not the one given' % n)
        if 'Vbbp' in par:
            j = [e for e in ev if e[0] == 'index2']
            if len(j) != 1:
                ck.fail('the elements of the phonon operators are not numbered')
            else:
                x = [y for y in j[0][1] if y is not r]
                d = dict(zip(['si', 'statesdm', 'nmany'], x), **j[0][2])
                handed_on(ck, d, {'si': o['si_elph'], 'statesdm': o['si'].attrs['chargelst'], 'nmany': o['si'].attrs['nmany']}, '_set_state_indexing')
    return ck.out()


def copying(S, cls):
    """_copy_states: the states of the old numbering, their order and the removed ones, in the new numbering."""
    con = dict(CON, **{'np.nonzero': lambda z, a, k: (Tok('nonzero', a[0]),)})
    con['BuilderManyBody._set_state_indexing'] = lambda z, a, k: z.events.append(('tables', a, k))
    z = engine(S, con)

    def run(z):
        reset(z)
        rem = Whole('removed') if z.choose('states were removed') else None
        old = ZObj('old', None, dict(removed_fock_states=rem, statesdm=Rows('statesdm', RET), chargelst=Rows('chargelst', PRES), ncharge=NC, nmany=NM,
                                     states_order=Whole('order')))
        new = ZObj('new', None, dict(remove_fock_states=Fn(lambda z, a, k: z.events.append(('remove', a))),
                                     set_statesdm=Fn(lambda z, a, k: z.events.append(('states', a)))))
        m = S.module(BB)
        o = ZObj('builder', (m, m.classes[cls]), {})
        z.inline(method(S, BB, cls, '_copy_states'), [o, old, new], {}, None)
        return old, new
    ck = Check('%s._copy_states: the same states, in the same order' % cls, z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        old, new = r
        kinds = [e[0] for e in ev if e[0] in ('remove', 'states', 'tables')]
        st = [e for e in ev if e[0] == 'states']
        if not st or not isinstance(st[-1][1][0], Rows):
            ck.fail('the retained states are not copied')
            continue
        t = st[-1][1][0]
        if t.isin is not RET:
            ck.fail('not the retained states: %s' % t)
        if t.cut is None:
            ck.fail('the empty list after the last charge is copied too')
        else:
            ck.eq(hy, t.cut, NC, 'charges copied')
        if new.attrs.get('states_order') is not old.attrs['states_order']:
            ck.fail('the order of the states is not copied')
        if cls == 'BuilderBase':
            rem = [e for e in ev if e[0] == 'remove']
            if old.attrs['removed_fock_states'] is None:
                if rem:
                    raise OutOfReach('removal of no states')
            elif len(rem) != 1:
                ck.fail('the removed states are back')
            else:
                x = rem[0][1][0]
                if not (isinstance(x, Tok) and x.t[0] == 'nonzero' and x.t[1] is old.attrs['removed_fock_states']):
                    raise OutOfReach('removed states')
                if kinds.index('remove') > kinds.index('states'):
                    ck.fail('states are removed after the retained ones are set')
        else:
            tb = [e for e in ev if e[0] == 'tables']
            if len(tb) != 1:
                raise OutOfReach('tables')
            x = [y for y in tb[0][1] if not (isinstance(y, ZObj) and y.name == 'builder')]
            d = dict(zip(['si', 'statesdm', 'nmany'], x), **tb[0][2])
            if d['si'] is not new or not isinstance(d['statesdm'], Rows) or d['statesdm'].isin is not PRES:
                ck.fail('the tables are not those of all states')
            ck.eq(hy, num(d['nmany']), NM, 'number of states')
            if kinds.index('tables') > kinds.index('states'):
                ck.fail('the tables are made after the retained states are set')
    return ck.out()


def setup(S):
    """The parts of a new system are built from the parameters given under these names."""
    rel = BB
    par = {n: Whole(n) for n in ('nsingle hsingle coulomb nleads tleads mulst tlst dband indexing kpnt symq norm_row solmethod itype dqawc_limit mfreeq '
                                 'phi0_init mtype_qd mtype_leads symmetry herm_hs herm_c m_less_n').split()}
    made = {}
    con = {}

    def maker(cls, m):
        def f(z, a, k):
            o = ZObj(cls)
            z.events.append(('make', cls, names_of(m, [None] + list(a), k), o))
            return o
        return f
    for r2, c in (('qmeq/qdot.py', 'QuantumDot'), ('qmeq/leadstun.py', 'LeadsTunneling'), ('qmeq/builder/funcprop.py', 'FunctionProperties')):
        con[c] = maker(c, method(S, r2, c, '__init__'))
    mi = method(S, 'qmeq/indexing.py', 'StateIndexing', '__init__')
    z = engine(S, dict(CON, **con))

    class Globals(object):
        def zget(self, z, idx, node):
            return Fn(maker('StateIndexing', mi))

    def run(z):
        reset(z)
        m = S.module(rel)
        o = ZObj('builder', (m, m.classes['BuilderBase']),
                 dict(data=ZObj('data', None, dict(par)), globals=Globals(), Approach=ZObj('Approach', None, dict(indexing_class_name='StateIndexingDM'))))
        z.inline(method(S, rel, 'BuilderBase', '_init_create_setup'), [o], {}, None)
        return o
    ck = Check('BuilderBase._init_create_setup: every part is built from the parameters of its name', z)
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        mk = {e[1]: e for e in ev if e[0] == 'make'}
        if set(mk) != {'QuantumDot', 'LeadsTunneling', 'FunctionProperties', 'StateIndexing'}:
            raise OutOfReach('parts %s' % sorted(mk))
        P = lambda *ns: {n: par[n] for n in ns}
        handed_on(ck, mk['StateIndexing'][2], P('nsingle', 'indexing', 'symmetry'), 'StateIndexing')
        si = mk['StateIndexing'][3]
        handed_on(ck, mk['QuantumDot'][2], dict(P('hsingle', 'coulomb', 'herm_hs', 'herm_c', 'm_less_n'), si=si, mtype=par['mtype_qd']), 'QuantumDot')
        handed_on(ck, mk['LeadsTunneling'][2], dict(P('nleads', 'tleads', 'mulst', 'tlst'), dlst=par['dband'], si=si, mtype=par['mtype_leads']), 'LeadsTunneling')
        handed_on(ck, mk['FunctionProperties'][2], P('symq', 'norm_row', 'solmethod', 'itype', 'dqawc_limit', 'mfreeq', 'phi0_init', 'mtype_qd', 'mtype_leads', 'kpnt', 'dband'),
                  'FunctionProperties')
        for n, c in (('si', 'StateIndexing'), ('qd', 'QuantumDot'), ('leads', 'LeadsTunneling'), ('funcp', 'FunctionProperties')):
            if r.attrs.get(n) is not mk[c][3]:
                ck.fail('%s is not the part built' % n)
    return ck.out()


def forwarded(S, rel, cls, name):
    """add, change: every part is given exactly the parameters of its name, and is called if one of them is given."""
    m = method(S, rel, cls, name)
    pars = [x.arg for x in m[2].args.args if x.arg != 'self']
    qd = ('hsingle', 'coulomb')
    ld = ('tleads', 'mulst', 'tlst', 'dlst')
    bt = ('velph', 'tlst_ph', 'dlst_ph')
    sig = {'qd': ('qmeq/qdot.py', 'QuantumDot', qd), 'leads': ('qmeq/leadstun.py', 'LeadsTunneling', ld), 'baths': ('qmeq/baths.py', 'PhononBaths', bt)}
    out = []
    ck = None
    groups = [g for g in ('qd', 'leads', 'baths') if sig[g][2][0] in pars]
    z = engine(S, dict(CON))
    ck = Check('%s.%s: every part is given the parameters of its name' % (cls, name), z)
    for none in [()] + [(p,) for p in pars] + [tuple(p for p in pars if p != q) for q in pars] + [tuple(pars)]:
        val = {p: None if p in none else Whole(p) for p in pars}

        def run(z):
            reset(z)
            mm = S.module(rel)
            o = ZObj('builder', (mm, mm.classes[cls]), {})
            for g in ('qd', 'leads', 'baths'):
                o.attrs[g] = ZObj(g, None, {x: Fn(lambda z, a, k, g=g, x=x: z.events.append(('call', g, x, a, k))) for x in ('add', 'change')})
            z.inline(m, [o], dict(val), None)
        for pc, r, ev in z.explore(run):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            for g in groups:
                rel2, c2, ps = sig[g]
                calls = [e for e in ev if e[0] == 'call' and e[1] == g]
                if all(val[p] is None for p in ps):
                    if calls and any(v is not None for e in calls for v in list(e[3]) + list(e[4].values())):
                        ck.fail('%s is given parameters that were not named' % g)
                    continue
                if len(calls) != 1:
                    ck.fail('%s is called %d times when %s is given' % (g, len(calls), [p for p in ps if val[p] is not None]))
                    continue
                e = calls[0]
                if e[2] != name:
                    ck.fail('%s is called for %s' % (e[2], name))
                got = names_of(method(S, rel2, c2, name), [None] + list(e[3]), e[4])
                for p in ps:
                    if p not in [x.arg for x in method(S, rel2, c2, name)[2].args.args]:
                        raise OutOfReach('parameter %s of %s.%s' % (p, c2, name))
                    if got.get(p) is not val[p]:
                        ck.fail('%s of %s is %s when %s is given' % (p, g, got.get(p), [x for x in pars if val[x] is not None]))
                    ck.n += 1
    return ck.out()


def fock_removal(S, rel, cls):
    """remove_fock_states: the labels first, then Hamiltonian, tunnelling and phonon matrices are made anew, once each."""
    z = engine(S, dict(CON))
    m = method(S, rel, cls, 'remove_fock_states')
    ev_ = lambda *t: Fn(lambda z, a, k: z.events.append(('do',) + t + (list(a) + list(k.values()),)))

    def run(z):
        reset(z)
        mm = S.module(rel)
        o = ZObj('builder', (mm, mm.classes[cls]), dict(si=ZObj('si', None, dict(remove_fock_states=ev_('labels'))), qd=ZObj('qd', None, dict(_init_hamiltonian=ev_('ham'))),
                 leads=ZObj('leads', None, dict(_init_coupling=ev_('tun'))), baths=ZObj('baths', None, dict(_init_coupling=ev_('ph'))),
                 si_elph=ZObj('si_elph', None, dict(remove_fock_states=ev_('labels2')))))
        w = Whole('labels')
        z.inline(m, [o, w], {}, None)
        return w
    ck = Check('%s.remove_fock_states: labels first, then every matrix is made anew' % cls, z)
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        do = [e for e in ev if e[0] == 'do']
        order = [e[1] for e in do]
        need = ['labels', 'ham', 'tun'] + (['ph', 'labels2'] if cls == 'BuilderElPh' else [])
        ck.n += 1
        for n in need:
            if n not in order:
                ck.fail('missing: %s' % n)
        if order.count('labels') > 1 or order.count('labels2') > 1:
            ck.fail('states are removed twice')
        for e in do:
            if e[1].startswith('labels') and e[2] != [r]:
                raise OutOfReach('labels that are removed')
        if 'labels' in order and any(order.index(n) < order.index('labels') for n in ('ham', 'tun', 'ph') if n in order):
            ck.fail('matrices are made before the states are removed')
    return ck.out()


def renumber(S):
    """change_si: another numbering class takes over the states; all parts use it and the solver is told."""
    out = []
    for same_ in (True, False):
        m = S.module('qmeq/indexing.py')
        con = {}
        mi = method(S, 'qmeq/indexing.py', 'StateIndexingDMc', '__init__')

        def make(z, a, k):
            o = ZObj('new', (m, m.classes['StateIndexingDMc']), {})
            z.events.append(('make', names_of(mi, [None] + list(a), k), o))
            return o
        for c in ('BuilderBase', 'BuilderManyBody'):
            con['%s._copy_states' % c] = lambda z, a, k: z.events.append(('copy', a[1], a[2]))
        con['StateIndexingDMc'] = make
        con['isinstance'] = lambda z, a, k: same_
        z = engine(S, dict(CON, **con))
        at = {n: Whole(n) for n in ('nsingle', 'indexing', 'symmetry', 'nleads')}

        class Globals(object):
            def zget(self, z, idx, node):
                return Fn(make)

        def run(z):
            reset(z)
            mm = S.module(BB)
            old = ZObj('old', (m, m.classes['StateIndexingDM']), dict(at, states_changed=False))
            o = ZObj('builder', (mm, mm.classes['BuilderBase']), dict(si=old, qd=ZObj('qd', None, dict(si=old)), leads=ZObj('leads', None, dict(si=old)), globals=Globals(),
                     Approach=ZObj('Approach', None, dict(indexing_class_name='StateIndexingDMc'))))
            z.inline(method(S, BB, 'BuilderBase', 'change_si'), [o], {}, None)
            return old, o
        ck = Check('BuilderBase.change_si (%s): all parts use one numbering, the solver is told' % ('same class' if same_ else 'another class'), z)
        for pc, r, ev in z.explore(run):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            old, o = r
            mk = [e for e in ev if e[0] == 'make']
            ck.n += 1
            si = o.attrs['si']
            if same_:
                if mk:
                    raise OutOfReach('a new numbering of the same class')
            elif len(mk) != 1:
                ck.fail('no numbering of the class of the approach')
                continue
            else:
                handed_on(ck, mk[0][1], at, 'StateIndexing')
                if si is not mk[0][2]:
                    ck.fail('the new numbering is not used')
                cp = [e for e in ev if e[0] == 'copy']
                if len(cp) != 1 or cp[0][1] is not old or cp[0][2] is not mk[0][2]:
                    ck.fail('the states are not carried over')
            for n in ('qd', 'leads'):
                if o.attrs[n].attrs['si'] is not si:
                    ck.fail('%s uses another numbering' % n)
            if si.attrs.get('states_changed') is not True:
                ck.fail('the solver is not told that the numbering may have changed')
        out.append(ck.out())
    return out


# ------------------------------------------------------------------------------------------------ making a builder, setters
KERN = ('Pauli', 'Lindblad', 'Redfield', '1vN', '2vN', 'RTD')
KERN += tuple('py' + k for k in KERN)
EPH = 'qmeq/builder/builder_elph.py'
VAL = 'qmeq/builder/validation.py'


def class_name(k):
    return 'Approach' + ('Py' + k[2:] if k.startswith('py') else k)


class Classes(object):
    """globals() of the module: classes by their names."""
    def __init__(self):
        self.made = {}

    def zget(self, z, idx, node):
        n = idx[0]
        if not isinstance(n, str):
            z.bad('name of a class', node)
        return self.made.setdefault(n, Approach_(n))


class Approach_(ZObj):
    """A class of approaches; calling it makes an approach for a builder."""
    def __init__(self, n):
        ZObj.__init__(self, n, None, {'kerntype': Whole('kerntype of ' + n), 'indexing_class_name': 'StateIndexingDM'})

    def zcall(self, z, a, k):
        o = ZObj('approach', None, {'made from': self, 'builder': a[0] if a else None, 'si': a[0].attrs.get('si') if a and isinstance(a[0], ZObj) else None})
        z.events.append(('approach', self, o, a[0].attrs.get('si') if a and isinstance(a[0], ZObj) else None))
        return o


def engine_b(S, extra):
    z = engine(S, dict(CON, **extra))
    old = z.call

    def call(f, args, kw, node, env, mod):
        if isinstance(f, Approach_):
            return f.zcall(z, args, kw)
        return old(f, args, kw, node, env, mod)
    z.call = call
    return z


def switching(S):
    """set_kerntype: the class that was asked for, with the numbering that fits it; nothing happens for the present one."""
    SI2 = ZObj('another numbering')
    con = {'issubclass': lambda z, a, k: True, 'isinstance': lambda z, a, k: isinstance(a[0], str),
           'BuilderBase.change_si': lambda z, a, k: (z.events.append(('change', a[0].attrs.get('Approach'))), a[0].attrs.__setitem__('si', SI2))[0]}
    out = []
    for how in ('name', 'class'):
        ck = None
        for want, now in [(k, c) for k in KERN for c in (k, 'Pauli', 'pyPauli')] if how == 'name' else [(None, 'Pauli')]:
            z = engine_b(S, con)
            ck = ck or Check('BuilderBase.set_kerntype (%s): the approach asked for, made after the numbering is changed for it' % how, z)
            g = Classes()

            def run(z):
                reset(z)
                mm = S.module(BB)
                ap = ZObj('present approach', None, dict(kerntype=now))
                o = ZObj('builder', (mm, mm.classes['BuilderBase']), dict(appr=ap, globals=g, si=ZObj('si'), Approach=Whole('present class')))
                v = want if how == 'name' else Approach_('given class')
                z.inline(method(S, BB, 'BuilderBase', 'set_kerntype'), [o, v], {}, None)
                return o, ap, v
            for pc, r, ev in z.explore(run):
                if isinstance(r, Raised):
                    raise OutOfReach('raises %s' % r.what)
                o, ap, v = r
                mk = [e for e in ev if e[0] == 'approach']
                ck.n += 1
                if how == 'name' and want == now:
                    if o.attrs['appr'] is not ap and not mk:
                        ck.fail('the approach is lost')
                    continue
                cl = v if how == 'class' else g.made.get(class_name(want))
                if not mk or cl is None or mk[-1][1] is not cl or o.attrs['appr'] is not mk[-1][2]:
                    ck.fail('%s is asked for, %s is made' % (want or 'a class', mk[-1][1].name if mk else 'nothing'))
                    continue
                ch = [e for e in ev if e[0] == 'change']
                if o.attrs.get('Approach') is not cl:
                    ck.fail('the class is not kept')
                if not ch or ch[-1][1] is not cl:
                    ck.fail('the numbering is not that of the new approach')
                elif mk[-1][3] is not SI2:
                    ck.fail('the approach is made before the numbering is changed')
        out.append(ck.out())
    return out


def chosen(S):
    """_init_set_approach_class, validation: valid options are kept and name the class of the approach."""
    z = engine_b(S, {'isinstance': lambda z, a, k: isinstance(a[0], str), 'issubclass': lambda z, a, k: True, 'print': lambda z, a, k: None})
    ck = Check('_init_set_approach_class: the class of the name', z)
    for k in KERN:
        g = Classes()

        def run(z):
            reset(z)
            mm = S.module(BB)
            o = ZObj('builder', (mm, mm.classes['BuilderBase']), dict(data=ZObj('data', None, dict(kerntype=k)), globals=g))
            z.inline(method(S, BB, 'BuilderBase', '_init_set_approach_class'), [o], {}, None)
            return o
        for pc, r, ev in z.explore(run):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            ck.n += 1
            cl = g.made.get(class_name(k))
            if cl is None or r.attrs.get('Approach') is not cl:
                ck.fail('%s gives %s' % (k, getattr(r.attrs.get('Approach'), 'name', None)))
    out = [ck.out()]
    z = engine_b(S, {'print': lambda z, a, k: None})
    ck = Check('_init_validate_data: valid options are kept', z)
    for k in KERN:
        rtd, two = k.endswith('RTD'), k.endswith('2vN')
        for it in (0, 1, 2, 3):
            for ix in (None, 'Lin', 'charge', 'sz', 'ssq'):
                for sy in (None, 'spin'):
                    if rtd and (it != 1 or ix not in (None, 'charge') or sy) or two and ix in ('sz', 'ssq'):
                        continue

                    def run(z):
                        reset(z)
                        mm = S.module(BB)
                        o = ZObj('builder', (mm, mm.classes['BuilderBase']), dict(data=ZObj('data', None, dict(kerntype=k, itype=it, indexing=ix, symmetry=sy))))
                        z.inline(method(S, BB, 'BuilderBase', '_init_validate_data'), [o], {}, None)
                        return o.attrs['data'].attrs
                    for pc, r, ev in z.explore(run):
                        if isinstance(r, Raised):
                            raise OutOfReach('raises %s' % r.what)
                        ck.n += 1
                        wi = ix or ('ssq' if sy == 'spin' and not two else 'charge')
                        got = tuple(r[n] for n in ('kerntype', 'itype', 'indexing', 'symmetry'))
                        if got != (k, it, wi, sy):
                            ck.fail('%s becomes %s' % ((k, it, ix, sy), got))
    out.append(ck.out())
    return out


def making(S, rel, cls):
    """__init__: the options are copied and checked before anything is made of them, the parts are made before the approach."""
    order = ('_init_copy_data', '_init_validate_data', '_init_set_globals', '_init_set_approach_class', '_init_create_setup', '_init_create_appr')
    con = {}
    for c in ('BuilderBase', cls):
        for n in order:
            con['%s.%s' % (c, n)] = lambda z, a, k, n=n: z.events.append(('step', n, a[1:]))
    con['locals'] = lambda z, a, k: Whole('locals')
    z = engine_b(S, con)

    def run(z):
        reset(z)
        mm = S.module(rel)
        m = method(S, rel, cls, '__init__')
        z.inline(m, [ZObj('builder', (mm, mm.classes[cls]), {})], given(S, m), None)
    ck = Check('%s.__init__: options are copied, checked, then used' % cls, z)
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        st = [e[1] for e in ev if e[0] == 'step']
        if sorted(st) != sorted(order):
            raise OutOfReach('steps %s' % st)
        ck.n += 1
        for a, b in ((0, 1), (1, 3), (2, 3), (3, 4), (4, 5)):
            if st.index(order[a]) > st.index(order[b]):
                ck.fail('%s before %s' % (order[b], order[a]))
        x = [e for e in ev if e[0] == 'step' and e[1] == order[0]][0][2]
        if len(x) != 1 or not isinstance(x[0], Whole) or x[0].name != 'locals':
            raise OutOfReach('options')
    return ck.out()


ROUTES = dict(nsingle='si', nleads='si', hsingle='qd', coulomb='qd', Ea='qd', tleads='leads', mulst='leads', tlst='leads', dlst='leads', Tba='leads',
              solve='appr', current='appr', energy_current='appr', heat_current='appr', phi0='appr', phi1='appr', niter='appr', iters='appr', kern='appr',
              success='appr', make_kern_copy='appr', kpnt='funcp', symq='appr', norm_row='appr', solmethod='appr', itype='appr', dqawc_limit='funcp',
              mfreeq='appr', phi0_init='funcp', off_diag_corrections='funcp')
ROUTES_ELPH = dict(ROUTES, nbaths='si', velph='baths', tlst_ph='baths', dlst_ph='baths', Vbbp='baths', bath_func='baths', itype_ph='funcp', eps_elph='funcp')
OWN = ('si', 'qd', 'leads', 'funcp', 'appr', 'data', 'globals', 'Approach')


def module_dict(S, rels, name):
    """The value of a module-level dictionary after the imports, from the statements that make and update it."""
    space = {}
    for rel in rels:
        for n in S.module(rel).tree.body:
            t = n.targets[0].id if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) else None
            up = isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
                isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == name
            names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            if t and (t == name or t.startswith(name)) or up:
                if names - {'dict'} - set(space) - {t}:
                    raise OutOfReach('how %s is made' % name)
                exec(compile(ast.Module([n], []), rel, 'exec'), {'__builtins__': {'dict': dict}}, space)
            elif name in names and not isinstance(n, (ast.ClassDef, ast.FunctionDef)):
                raise OutOfReach('how %s is made' % name)
    if not isinstance(space.get(name), dict):
        raise OutOfReach(name)
    return space[name]


class Routes(object):
    def __init__(self, d):
        self.d = d

    def zattr(self, z, n, node):
        if n == 'get':
            return Fn(lambda z, a, k: self.d.get(a[0], a[1] if len(a) > 1 else None))
        z.bad('%s of the map of attributes' % n, node)

    def zget(self, z, idx, node):
        if len(idx) != 1 or not isinstance(idx[0], str):
            z.bad('entry', node)
        if idx[0] not in self.d:
            raise Raised('KeyError')
        return self.d[idx[0]]

    def zin(self, z, v, node):
        return v in self.d


def routed(S):
    """What is set on or read from a system reaches the part of it that uses it."""
    out = []
    mm = S.module(BB)
    sets, gets = (S.method(mm, mm.classes['BuilderBase'], n) for n in ('__setattr__', '__getattr__'))
    if not sets or not gets:
        raise OutOfReach('how attributes are found')
    maps = {'BuilderBase': (ROUTES, module_dict(S, [BB], 'attribute_map')), 'BuilderElPh': (ROUTES_ELPH, module_dict(S, [BB, EPH], 'attribute_map'))}
    for cls, (want, have) in maps.items():
        m3 = S.module(BB if cls == 'BuilderBase' else EPH)
        for n in ('__setattr__', '__getattr__', '__getattribute__'):
            a = S.method(m3, m3.classes[cls], n)
            if n == '__getattribute__' and a or n != '__getattribute__' and (a is None or a[1].name != 'BuilderBase'):
                raise OutOfReach('%s of %s' % (n, cls))
        made = {}

        def getattr_(z, a, k):
            if a[0] is made['o']:
                if a[1] in OWN + ('baths',):
                    return made['o'].attrs[a[1]]
                raise OutOfReach('attribute %s' % a[1])
            return ('read', a[0], a[1])

        def setattr_(z, a, k):
            z.events.append(('set', a[0], a[1], a[2]))

        class Up(object):
            def zattr(self, z, n, node):
                if n == '__setattr__':
                    return Fn(lambda z, a, k: z.events.append(('set', made['o'], a[0], a[1])))
                if n == '__getattribute__':
                    return Fn(lambda z, a, k: ('read', made['o'], a[0]))
                z.bad('%s of super()' % n, node)
        z = engine_b(S, {'getattr': getattr_, 'setattr': setattr_})
        z.ev_Name, oldname = (lambda e, env, mod: Routes(have) if e.id == 'attribute_map' else oldname(e, env, mod)), z.ev_Name
        z.ev_Call, oldcall = (lambda e, env, mod: Up() if isinstance(e.func, ast.Name) and e.func.id == 'super' else oldcall(e, env, mod)), z.ev_Call

        def obj():
            made['o'] = ZObj('builder', (m3, m3.classes[cls]), {n: ZObj(n) for n in OWN + ('baths',)})
            return made['o']
        for how, meth in (('set', sets), ('read', gets)):
            ck = Check('%s: what is %s under the name of an option or a result belongs to the part that uses it' % (cls, how), z)
            names = dict(want) if how == 'read' else {k: v for k, v in want.items() if k != 'solve'}
            names.update({n: None for n in OWN + (('baths',) if cls == 'BuilderElPh' else ())} if how == 'set' else {})
            for name, part in names.items():
                if any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets) or
                       isinstance(x, ast.FunctionDef) and x.name == name for m, c in S.mro(m3, m3.classes[cls]) for x in c.body):
                    raise OutOfReach('attribute %s of the class' % name)

                def run(z):
                    reset(z)
                    o = obj()
                    v = Whole('value')
                    r = z.inline(meth, [o, name] + ([v] if how == 'set' else []), {}, None)
                    return o, v, r
                for pc, r, ev in z.explore(run):
                    ck.n += 1
                    if isinstance(r, Raised):
                        ck.fail('%s: raises %s' % (name, r.what))
                        continue
                    o, v, got = r
                    t = o if part is None else o.attrs[part]
                    if how == 'set':
                        e = [x for x in ev if x[0] == 'set']
                        if len(e) != 1:
                            raise OutOfReach('%d values set' % len(e))
                        where, key, val = e[0][1:]
                        if val is not v:
                            raise OutOfReach('value of %s' % name)
                    else:
                        if not isinstance(got, tuple) or got[0] != 'read':
                            raise OutOfReach('value of %s' % name)
                        where, key = got[1:]
                    if where is not t or key != name:
                        if name in ('norm_row', 'itype') and where is o.attrs['funcp']:
                            raise OutOfReach('%s of the options' % name)
                        ck.fail('%s: %s of %s' % (name, key, where.name if isinstance(where, ZObj) else where))
            out.append(ck.out())
    return out


def kept_options(S):
    """FunctionProperties: every option is kept under its name."""
    rel = 'qmeq/builder/funcprop.py'
    z = engine_b(S, {})
    m = method(S, rel, 'FunctionProperties', '__init__')
    mm = S.module(rel)

    def run(z):
        reset(z)
        o = ZObj('funcp', (mm, mm.classes['FunctionProperties']), {})
        g = given(S, m)
        z.inline(m, [o], g, None)
        return o, g
    ck = Check('FunctionProperties.__init__: every option is kept under its name', z)
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        o, g = r
        for n in ('kerntype symq norm_row solmethod itype dqawc_limit mfreeq phi0_init mtype_qd mtype_leads kpnt dband off_diag_corrections').split():
            ck.n += 1
            if n not in g:
                raise OutOfReach('option %s' % n)
            v = o.attrs.get(n)
            if v is not g[n]:
                if v is None or isinstance(v, (Whole, bool, int, float, str)):
                    ck.fail('%s is %s' % (n, v))
                else:
                    raise OutOfReach('option %s' % n)
    return ck.out()


def copies(S):
    """ModelParameters: deep copies of the options under their names."""
    def deep(z, a, k):
        return Tok('deepcopy', a[0])
    sets = []
    z = engine_b(S, {'copy.deepcopy': deep, 'deepcopy': deep, 'setattr': lambda z, a, k: z.events.append(('set', a[0], a[1], a[2]))})
    names = ('hsingle', 'coulomb', 'tleads', 'mulst', 'self')

    def run(z):
        reset(z)
        mm = S.module(BB)
        d = {n: Whole(n) for n in names}
        o = ZObj('data', (mm, mm.classes['ModelParameters']), {})
        z.inline(method(S, BB, 'ModelParameters', '__init__'), [o, d], {}, None)
        return o, d
    ck = Check('ModelParameters.__init__: deep copies of the options, under their names', z)
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        o, d = r
        got = dict(o.attrs)
        for e in ev:
            if e[0] == 'set' and e[1] is o:
                got[e[2]] = e[3]
        for n in names[:-1]:
            ck.n += 1
            v = got.get(n)
            if v is None:
                ck.fail('%s is lost' % n)
            elif isinstance(v, Whole):
                ck.fail('%s is the container of the caller' % n if v.name == n else '%s is %s' % (n, v.name))
            elif not isinstance(v, Tok) or v.t[0] != 'deepcopy':
                raise OutOfReach(n)
            elif v.t[1] is not d[n]:
                ck.fail('%s is a copy of %s' % (n, v.t[1]))
    return ck.out()


def bands(S):
    """The setter of dband: the option and the leads get the value."""
    z = engine_b(S, {})

    def run(z):
        reset(z)
        mm = S.module(BB)
        o = ZObj('builder', (mm, mm.classes['BuilderBase']), dict(funcp=ZObj('funcp', None, dict(dband=Whole('old'))),
                 leads=ZObj('leads', None, dict(change=Fn(lambda z, a, k: z.events.append(('change', names_of(method(S, 'qmeq/leadstun.py', 'LeadsTunneling', 'change'), [None] + list(a), k))))))))
        v = Whole('value')
        z.inline(method(S, BB, 'BuilderBase', 'set_dband'), [o, v], {}, None)
        return o, v
    ck = Check('BuilderBase.set_dband: the leads get the new bands, and nothing else', z)
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        o, v = r
        c = [e for e in ev if e[0] == 'change']
        ck.n += 1
        if len(c) != 1:
            ck.fail('the leads are changed %d times' % len(c))
            continue
        d = {n: x for n, x in c[0][1].items() if x is not None and n != 'self'}
        if set(d) != {'dlst'} or d['dlst'] is not v:
            ck.fail('the leads are given %s' % d)
        if o.attrs['funcp'].attrs['dband'] is not v:
            ck.fail('the option keeps its old value')
    return ck.out()


def phonons(S):
    """BuilderElPh: the phonon parts are made from the options of their names, and have the states of the other parts."""
    out = []
    sig = method(S, 'qmeq/baths.py', 'PhononBaths', '__init__')
    m3 = S.module(EPH)
    opts = {n: Whole(n) for n in ('nbaths', 'velph', 'tlst_ph', 'dband_ph', 'bath_func', 'itype_ph', 'eps_elph')}
    si = lambda: ZObj('si', None, dict(nsingle=Whole('nsingle'), indexing=Whole('indexing'), symmetry=Whole('symmetry'), nleads=Whole('nleads'), nbaths=Whole('nbaths of si'),
                                       statesdm=Rows('statesdm', RET), chargelst=Rows('chargelst', PRES), ncharge=NC))

    def baths(z, a, k):
        o = ZObj('baths')
        z.events.append(('baths', names_of(sig, [None] + list(a), k), o))
        return o

    def base(z, a, k):
        a[0].attrs.update(si=si(), funcp=ZObj('funcp', None, {}))
    z = engine_b(S, {'PhononBaths': baths, 'BuilderBase._init_create_setup': base, 'BuilderElPh.create_si_elph': lambda z, a, k: z.events.append(('phonon states', a[0].attrs.get('baths')))})

    def run(z):
        reset(z)
        o = ZObj('builder', (m3, m3.classes['BuilderElPh']), dict(data=ZObj('data', None, dict(opts))))
        z.inline(method(S, EPH, 'BuilderElPh', '_init_create_setup'), [o], {}, None)
        return o
    ck = Check('BuilderElPh._init_create_setup: the baths are built from the parameters of their names', z)
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        b = [e for e in ev if e[0] == 'baths']
        if len(b) != 1:
            raise OutOfReach('baths')
        handed_on(ck, b[0][1], dict(nbaths=opts['nbaths'], velph=opts['velph'], tlst_ph=opts['tlst_ph'], dlst_ph=opts['dband_ph'], bath_func=opts['bath_func'], si=r.attrs['si']), 'PhononBaths')
        if r.attrs.get('baths') is not b[0][2]:
            ck.fail('the baths are not kept')
        for n in ('itype_ph', 'eps_elph'):
            if r.attrs['funcp'].attrs.get(n) is not opts[n]:
                ck.fail('option %s' % n)
        if not [e for e in ev if e[0] == 'phonon states']:
            ck.fail('no numbering for the phonon couplings')
    out.append(ck.out())
    mi = method(S, 'qmeq/indexing.py', 'StateIndexingDMc', '__init__')

    def make(z, a, k):
        o = ZObj('si_elph')
        z.events.append(('make', names_of(mi, [None] + list(a), k), o))
        return o
    z = engine_b(S, {'StateIndexingDMc': make})

    def run2(z):
        reset(z)
        o = ZObj('builder', (m3, m3.classes['BuilderElPh']), dict(si=si()))
        z.inline(method(S, EPH, 'BuilderElPh', 'create_si_elph'), [o], {}, None)
        return o
    ck = Check('BuilderElPh.create_si_elph: the same states, with the number of baths', z)
    for pc, r, ev in z.explore(run2):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        mk = [e for e in ev if e[0] == 'make']
        if len(mk) != 1:
            raise OutOfReach('numbering')
        s = r.attrs['si'].attrs
        handed_on(ck, mk[0][1], {n: s[n] for n in ('nsingle', 'indexing', 'symmetry', 'nleads')}, 'StateIndexingDMc')
        if r.attrs.get('si_elph') is not mk[0][2]:
            ck.fail('the numbering is not kept')
        elif mk[0][2].attrs.get('nbaths') is not s['nbaths']:
            ck.fail('number of baths')
    out.append(ck.out())
    # retained states
    for name, isin in (('remove_states', RET), ('use_all_states', PRES)):
        new = Rows('statesdm', RET)

        def base(z, a, k, new=new):
            z.events.append(('base',) + tuple(a[1:]))
            a[0].attrs['si'].attrs['statesdm'] = new
        z = engine_b(S, {'BuilderBase.' + name: base})
        dE = Whole('dE')

        def run3(z):
            reset(z)
            s = si()
            s.attrs['statesdm'] = Rows('old', INC_OLD)
            e = ZObj('si_elph', None, dict(set_statesdm=Fn(lambda z, a, k: z.events.append(('states', a[0])))))
            o = ZObj('builder', (m3, m3.classes['BuilderElPh']), dict(si=s, si_elph=e))
            z.inline(method(S, EPH, 'BuilderElPh', name), [o] + ([dE] if name == 'remove_states' else []), {}, None)
        ck = Check('BuilderElPh.%s: the phonon couplings have the states that are retained then' % name, z)
        for pc, r, ev in z.explore(run3):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            ck.n += 1
            b = [e for e in ev if e[0] == 'base']
            st = [e for e in ev if e[0] == 'states']
            if len(b) != 1 or b[0][1:] != ((dE,) if name == 'remove_states' else ()):
                ck.fail('the states are not selected by the call of the base class')
            if len(st) != 1 or not isinstance(st[0][1], Rows):
                if not st:
                    ck.fail('the numbering of the phonon couplings keeps its states')
                    continue
                raise OutOfReach('states')
            t = st[0][1]
            if name == 'remove_states' and t is not new and t.isin is not RET:
                ck.fail('not the retained states')
            if name == 'use_all_states' and t.isin is not PRES and t is not new:
                ck.fail('not all states')
        out.append(ck.out())
    # another numbering
    for same_ in (True, False):
        def base(z, a, k):
            if not same_:
                a[0].attrs['si'] = ZObj('new numbering')
        z = engine_b(S, {'BuilderBase.change_si': base, 'BuilderElPh.create_si_elph': lambda z, a, k: z.events.append(('phonon states', a[0].attrs['si']))})

        def run4(z):
            reset(z)
            s = si()
            o = ZObj('builder', (m3, m3.classes['BuilderElPh']), dict(si=s, baths=ZObj('baths', None, dict(si=s)), si_elph=ZObj('si_elph')))
            z.inline(method(S, EPH, 'BuilderElPh', 'change_si'), [o], {}, None)
            return o
        ck = Check('BuilderElPh.change_si (%s): the baths use the numbering of the other parts' % ('same' if same_ else 'another'), z)
        for pc, r, ev in z.explore(run4):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            ck.n += 1
            if r.attrs['baths'].attrs['si'] is not r.attrs['si']:
                ck.fail('the baths use another numbering')
            p = [e for e in ev if e[0] == 'phonon states']
            if same_ and p:
                ck.fail('the states that were removed are back')
            if not same_ and (not p or p[-1][1] is not r.attrs['si']):
                ck.fail('the numbering of the phonon couplings is the old one')
        out.append(ck.out())
    return out


INC_OLD = z3.Function('was retained', z3.IntSort(), z3.BoolSort())


ASSUME = {'C18': ['np.lexsort returns a permutation of the columns', 'the numbering of the elements is that of C02']}


def delegated(S, name):
    """A method of a builder that hands its arguments to the function of the same name, and returns what that returns."""
    fm = func(S, VAR, name)
    result = Whole('result')
    con = {name: lambda z, a, k: (z.events.append(('call', names_of(fm, a, k))), result)[1]}
    z = engine_b(S, con)
    m = method(S, BB, 'BuilderBase', name)
    ck = Check('BuilderBase.%s: the arguments arrive in their places' % name, z)
    pars = given(S, m)
    opt = len(m[2].args.defaults)
    mine, theirs = [x.arg for x in m[2].args.args][1:], [x.arg for x in fm[2].args.args][1:]
    if len(mine) != len(theirs):
        raise OutOfReach('parameters of %s' % name)

    def run(z):
        reset(z)
        mm = S.module(BB)
        o = ZObj('builder', (mm, mm.classes['BuilderBase']), {})
        return o, z.inline(m, [o], dict(pars), None)
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        if not live(z, pc):
            continue
        o, v = r
        c = [e for e in ev if e[0] == 'call']
        if len(c) != 1:
            raise OutOfReach('%d calls of %s' % (len(c), name))
        got = c[0][1]
        if got.get(fm[2].args.args[0].arg) is not o:
            raise OutOfReach('system of %s' % name)
        handed_on(ck, got, {t: pars[p] for p, t in zip(mine, theirs)}, name)
        ck.n += 1
        if any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None) for n in ast.walk(fm[2])):
            if v is not result:
                ck.fail('%s returns %s' % (name, v))
    return ck.out()


def plain(S):
    """The small methods of the builders: the options checked are all of them, the approach is made for this system, the
    accessors give the present values and the indexing of a system cannot be changed."""
    EL = 'qmeq/builder/builder_elph.py'
    out = []
    # _init_copy_data
    con = {'ModelParameters': lambda z, a, k: (z.events.append(('copy', a, k)), Whole('copied'))[1]}
    for rel, cls in ((BB, 'BuilderBase'), (EL, 'BuilderElPh')):
        z = engine_b(S, con)
        ck = Check('%s._init_copy_data: all options are copied' % cls, z)

        def run(z):
            reset(z)
            mm = S.module(rel)
            o, d = ZObj('builder', (mm, mm.classes[cls]), {}), Whole('options')
            z.inline(method(S, rel, cls, '_init_copy_data'), [o, d], {}, None)
            return o, d
        for pc, r, ev in z.explore(run):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            o, d = r
            ck.n += 1
            c = [e for e in ev if e[0] == 'copy']
            v = o.attrs.get('data')
            if v is d:
                ck.fail('the options are those of the caller')
            elif len(c) != 1 or list(c[0][1]) + list(c[0][2].values()) != [d] or not isinstance(v, Whole) or v.name != 'copied':
                raise OutOfReach('copy of the options')
        out.append(ck.out())
    # validation of the electron-phonon system
    con = {'BuilderBase._init_validate_data': lambda z, a, k: z.events.append(('base', a[0]))}
    z = engine_b(S, dict(con, print=lambda z, a, k: None))
    ck = Check('BuilderElPh._init_validate_data: valid options are kept', z)
    for it in (0, 2):
        def run(z):
            reset(z)
            mm = S.module(EL)
            o = ZObj('builder', (mm, mm.classes['BuilderElPh']), dict(data=ZObj('data', None, dict(itype_ph=it))))
            z.inline(method(S, EL, 'BuilderElPh', '_init_validate_data'), [o], {}, None)
            return o
        for pc, r, ev in z.explore(run):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            ck.n += 1
            b = [e for e in ev if e[0] == 'base']
            if len(b) != 1 or b[0][1] is not r:
                ck.fail('the options of the base class are checked %d times' % len(b))
            if r.attrs['data'].attrs['itype_ph'] != it:
                ck.fail('itype_ph=%d becomes %s' % (it, r.attrs['data'].attrs['itype_ph']))
    out.append(ck.out())
    # the approach
    z = engine_b(S, {})
    ck = Check('BuilderBase._init_create_appr: the approach chosen, made for this system', z)

    def run(z):
        reset(z)
        mm = S.module(BB)
        cl = Fn(lambda z, a, k: (z.events.append(('made', list(a) + list(k.values()))), Whole('approach'))[1])
        o = ZObj('builder', (mm, mm.classes['BuilderBase']), dict(Approach=cl))
        z.inline(method(S, BB, 'BuilderBase', '_init_create_appr'), [o], {}, None)
        return o
    for pc, r, ev in z.explore(run):
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        ck.n += 1
        c = [e for e in ev if e[0] == 'made']
        v = r.attrs.get('appr')
        if not c or not isinstance(v, Whole):
            ck.fail('no approach is made')
        elif c[-1][1] != [r]:
            raise OutOfReach('system of the approach')
    out.append(ck.out())
    # accessors
    for name, at, n in (('get_kerntype', 'appr', 'kerntype'), ('get_indexing', 'si', 'indexing'), ('get_dband', 'funcp', 'dband')):
        z = engine_b(S, {})
        ck = Check('BuilderBase.%s: the present value' % name, z)
        v = Whole(n)

        def run(z):
            reset(z)
            mm = S.module(BB)
            o = ZObj('builder', (mm, mm.classes['BuilderBase']), {x: ZObj(x, None, {n: v if x == at else Whole('%s of %s' % (n, x))}) for x in ('appr', 'si', 'funcp', 'data', 'leads')})
            return z.inline(method(S, BB, 'BuilderBase', name), [o], {}, None)
        for pc, r, ev in z.explore(run):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            ck.n += 1
            if r is not v:
                ck.fail('%s gives %s' % (name, r))
        out.append(ck.out())
    z = engine_b(S, {'print': lambda z, a, k: None})
    ck = Check('BuilderBase.set_indexing: the indexing of a system stays', z)
    for new in ('Lin', 'charge', 'ssq'):
        def run(z):
            reset(z)
            mm = S.module(BB)
            o = ZObj('builder', (mm, mm.classes['BuilderBase']), dict(si=ZObj('si', None, dict(indexing='charge'))))
            z.inline(method(S, BB, 'BuilderBase', 'set_indexing'), [o, new], {}, None)
            return o
        for pc, r, ev in z.explore(run):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            ck.n += 1
            if r.attrs['si'].attrs.get('indexing') != 'charge':
                ck.fail('the indexing becomes %s and the numbering stays' % r.attrs['si'].attrs.get('indexing'))
    out.append(ck.out())
    return out


def obligations(prop, S):
    r = []
    for p_, ns in (('C18', ('get_phi0', 'get_phi1', 'sort_eigenstates')), ('C02', ('remove_states', 'remove_coherences', 'use_all_states'))):
        if prop == p_:
            for n in ns:
                r += guarded('BuilderBase.%s' % n, lambda: delegated(S, n))
    if prop == 'C15':
        r += guarded('small methods of the builders', lambda: plain(S))
    if prop == 'C18':
        for k in KINDS:
            r += guarded('get_phi0 (%s)' % k, lambda: density(S, k))
            r += guarded('get_phi1 (%s)' % k, lambda: amplitudes(S, k))
        r += guarded('get_charge', lambda: charges(S))
        r += guarded('sort_eigenstates', lambda: sorting(S))
        r += guarded('multiarray_sort', lambda: sorter(S))
    if prop == 'C02':
        r += guarded('remove_states', lambda: selection(S))
        r += guarded('remove_coherences', lambda: coherences(S))
    EL = 'qmeq/builder/builder_elph.py'
    if prop == 'C18':
        for n in ('Lin', 'charge', 'sz', 'ssq'):
            r += guarded('construct_Ea_extended (%s)' % n, lambda: table(S, n))
    if prop == 'C20':
        r += guarded('BuilderManyBody._init_state_indexing', lambda: by_number(S))
        r += guarded('BuilderManyBody._set_state_indexing', lambda: tables(S))
        r += guarded('BuilderManyBody.__init__', lambda: many_body(S, BB, 'BuilderManyBody', 'BuilderBase'))
        r += guarded('BuilderManyBodyElPh.__init__', lambda: many_body(S, EL, 'BuilderManyBodyElPh', 'BuilderElPh'))
    if prop in ('C15', 'C20'):
        for c in ('BuilderBase', 'BuilderManyBody'):
            if prop == 'C15' or c == 'BuilderManyBody':
                r += guarded('%s._copy_states' % c, lambda: copying(S, c))
        r += guarded('BuilderBase.change_si', lambda: renumber(S))
    if prop == 'C15':
        r += guarded('BuilderBase.set_kerntype', lambda: switching(S))
        r += guarded('choice of the approach', lambda: chosen(S))
        r += guarded('attributes of a system', lambda: routed(S))
    if prop in ('C05', 'C15'):
        r += guarded('BuilderBase.set_dband', lambda: bands(S))
        r += guarded('BuilderElPh', lambda: phonons(S))
    if prop == 'C05':
        r += guarded('ModelParameters', lambda: copies(S))
        r += guarded('FunctionProperties.__init__', lambda: kept_options(S))
        for rel, c in ((BB, 'BuilderBase'), (EL, 'BuilderElPh')):
            r += guarded('%s.__init__' % c, lambda: making(S, rel, c))
        r += guarded('BuilderBase._init_create_setup', lambda: setup(S))
        for rel, c in ((BB, 'BuilderBase'), (EL, 'BuilderElPh')):
            for n in ('add', 'change'):
                r += guarded('%s.%s' % (c, n), lambda: forwarded(S, rel, c, n))
            r += guarded('%s.remove_fock_states' % c, lambda: fock_removal(S, rel, c))
    return r


SELF = {'C18': [(VAR, None, 'get_phi0'), (VAR, None, 'get_phi1')]}
