"""Tables of the compiled kernel handler (states per charge, pairs to visit), trace vectors.

The loops are decided for one arbitrary iteration, as in index.py: what is carried from one iteration to the next is arbitrary at
its start.  The tables all_bbp and all_ba are what sx.py assumes of them: every independent element, and every pair of states of
neighbouring charges, in exactly one row."""
import itertools
import z3
from .zx import ZObj, ZArr, Fn, Raised, prove, num, real
from .src import OutOfReach
from .fock import fresh
from .rotation import Check, equal, as_prog
from .master import guarded
from . import index
from .index import Table, Seq, LEN, EL, NC, Loops, engine, reset

I, B = z3.IntSort(), z3.BoolSort()
KH, PYKH = 'qmeq/approach/c_kernel_handler.pyx', 'qmeq/approach/kernel_handler.py'
INC, UNQ = z3.Function('included', I, I, I, B), z3.Function('independent', I, I, I, B)
IND = z3.Function('element', I, I, I, I)


class Out(object):
    """A new array of zeros, written in loops."""
    def __init__(self, size):
        self.size = tuple(size) if isinstance(size, (tuple, list)) else (size,)

    def zset(self, z, idx, v, node):
        if len(idx) != len(self.size) or any(isinstance(i, slice) for i in idx):
            z.bad('part of an array', node)
        self.last = (tuple(num(i) for i in idx), v)
        z.events.append(('write', self) + self.last)

    last = None

    def zget(self, z, idx, node):
        if self.last and len(idx) == len(self.size) and not any(isinstance(i, slice) for i in idx) and all(
                num(i).eq(j) for i, j in zip(idx, self.last[0])):
            return self.last[1]
        z.bad('a table is read while it is made', node)


class States(Table):
    """si.statesdm with its empty list at the end."""
    def zlen(self, z):
        z.assume(z3.And(NC >= 1, LEN(NC) == 0))
        return NC + 1

    def zloop(self, z, st, env, mod):
        c = fresh('c')
        z.assume(z3.And(c >= 0, c < NC + 1, LEN(c) >= 0, LEN(NC) == 0))
        z.events.append(('over', self, (c,)))
        index.iterate(z, st, env, mod, Seq(self, c))


def eng(S, con=None):
    z = engine(S, dict({'np.zeros': lambda z, a, k: Out(a[0]),
                        'KernelHandler.is_included': lambda z, a, k: INC(num(a[1]), num(a[2]), num(a[3])),
                        'KernelHandler.is_unique': lambda z, a, k: UNQ(num(a[1]), num(a[2]), num(a[3])),
                        'KernelHandler.get_ind_dm0': lambda z, a, k: IND(num(a[1]), num(a[2]), num(a[3])),
                        'KernelHandlerMatrixFree.get_ind_dm0': lambda z, a, k: IND(num(a[1]), num(a[2]), num(a[3]))}, **(con or {})))
    z.carry = lambda v: index.isint(v) or isinstance(v, float) or isinstance(v, z3.ArithRef)
    return z


def handler(S, z, cls='KernelHandler'):
    m = S.module(KH)
    if cls not in m.classes:
        raise OutOfReach('class %s' % cls)
    a = dict(ncharge=NC, nelements=z3.Int('nelements'), ndm1=z3.Int('ndm1'), ndm0=z3.Int('ndm0'), npauli=z3.Int('npauli'),
             no_coherences=z3.Bool('no_coherences'), no_conjugates=z3.Bool('no_conjugates'),
             statesdm_count=ZArr('statesdm_count', 1, 'int', base=lambda i: LEN(i)),
             statesdm=ZArr('statesdm', 2, 'int', base=lambda i, j: EL(i, j)), phi0=ZArr('phi0', 1))
    z.assume(NC >= 1)
    return ZObj(cls, (m, m.classes[cls]), a)


def meth(S, cls, name, rel=KH):
    m = S.module(rel)
    r = S.method(m, m.classes[cls], name)
    if r is None:
        raise OutOfReach('method %s' % name)
    return r


def paths(z, run):
    for pc, r, ev in z.explore(run, limit=200):
        hy = list(z.axioms) + pc
        s = z3.Solver()
        s.add(*hy)
        if s.check() == z3.unsat:
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        yield hy, r, ev


def nest(L, depth):
    """The only nest of loops of the path, outermost first."""
    tops = [l for l in L.top if isinstance(l, dict)]
    if len(tops) != 1:
        raise OutOfReach('%d loops' % len(tops))
    r = [tops[0]]
    while len(r[-1]['kids']) == 1:
        r.append(r[-1]['kids'][0])
    if r[-1]['kids'] or len(r) > depth:
        raise OutOfReach('loops')
    return r


def limits(ev, loop):
    p = next((e[2] for e in ev if e[0] == 'prog' and index.isint(loop['value']) and e[1].eq(loop['value'])), None)
    if p is None or p.step != 1:
        raise OutOfReach('range of a loop')
    return p


def name_of(loops, want=None):
    """The integer carried through all loops."""
    c = set(loops[0]['sym'])
    for l in loops:
        c &= set(l['sym'])
    if len(c) != 1:
        raise OutOfReach('variables carried by the loops: %s' % sorted(c))
    return c.pop()


def carried(ck, hy, loops, n, what):
    for o, i in zip(loops, loops[1:]):
        if not equal(hy, num(i['start'][n]), num(o['sym'][n])) or not equal(hy, num(o['after'][n]), num(i['exit'][n])):
            ck.fail('%s: changed between the loops' % what)
        ck.n += 1


def copy_states(S):
    z = eng(S)
    ck = Check('KernelHandler.set_statesdm: count[q] and state[q,i] are the states of the indexing, and fit', z)

    def run(z):
        reset(z)
        o = handler(S, z)
        si = ZObj('si', None, dict(statesdm=States('statesdm'), ncharge=NC))
        z.inline(meth(S, 'KernelHandler', 'set_statesdm'), [o, si], {}, None)
        return o
    seen = 0
    for hy, o, ev in paths(z, run):
        L = Loops(ev)
        tops = [l for l in L.top if isinstance(l, dict)]
        cnt, tab = o.attrs['statesdm_count'], o.attrs['statesdm']
        if len(tops) != 2 or not isinstance(cnt, Out) or not isinstance(tab, Out) or len(tab.size) != 2:
            raise OutOfReach('shape of the function')
        mx, out = tops
        if mx['kids'] or len(mx['sym']) != 1 or len(out['kids']) != 1 or out['kids'][0]['kids']:
            raise OutOfReach('loops')
        v, = mx['sym']
        c = next((e[2][0] for e in ev if e[0] == 'over'), None)
        if c is None:
            raise OutOfReach('first loop')
        ck.holds(hy, z3.And(num(mx['after'][v]) >= mx['sym'][v], num(mx['after'][v]) >= LEN(c)), 'the width of the table is at least every count')
        ck.eq(hy, num(tab.size[1]), mx['exit'][v], 'width of the table')
        ck.eq(hy, num(tab.size[0]), NC + 1, 'height of the table')
        ck.eq(hy, num(cnt.size[0]), NC + 1, 'length of the counts')
        inn = out['kids'][0]
        i, j = out['value'], inn['value']
        p, q = limits(ev, out), limits(ev, inn)
        ck.holds(hy, z3.And(p.lo == 0, z3.Or(p.hi == NC + 1, p.hi == NC)), 'every charge')      # the last list is empty
        ck.holds(hy, z3.And(q.lo == 0, q.hi == LEN(i)), 'every state of the charge')
        w = [e for e in out['events'] if e[0] == 'write'] + [e for e in inn['events'] if e[0] == 'write']
        wc = [e for e in w if e[1] is cnt]
        wt = [e for e in w if e[1] is tab]
        if len(w) != len(wc) + len(wt) or len(wc) != 1 or len(wt) != 1:
            ck.fail('%d counts and %d states are written for one state of one charge' % (len(wc), len(wt)))
            continue
        ck.eq(hy, wc[0][2][0], i, 'place of a count')
        ck.eq(hy, num(wc[0][3]), LEN(i), 'a count')
        ck.eq(hy, wt[0][2][0], i, 'row of a state')
        ck.eq(hy, wt[0][2][1], j, 'column of a state')
        ck.eq(hy, num(wt[0][3]), EL(i, j), 'a state')
        ck.holds(hy + [mx['exit'][v] >= LEN(i)], z3.And(wt[0][2][1] >= 0, wt[0][2][1] < num(tab.size[1])), 'a state fits')
        seen += 1
    if not seen:
        ck.und = ck.und or 'no state is written'
    return ck.out()


def table(S, which):
    z = eng(S)
    what = {'all_bbp': 'every independent element in exactly one row', 'all_ba': 'every pair of states of neighbouring charges in exactly one row'}[which]
    ck = Check('KernelHandler.set_%s: %s' % (which, what), z)

    def run(z):
        reset(z)
        o = handler(S, z)
        z.inline(meth(S, 'KernelHandler', 'set_' + which), [o], {}, None)
        return o
    seen = 0
    nj, nc = z3.Bool('no_conjugates'), z3.Bool('no_coherences')
    for hy, o, ev in paths(z, run):
        t = o.attrs[which]
        if not isinstance(t, Out) or len(t.size) != 2:
            raise OutOfReach('table')
        ck.eq(hy, num(t.size[0]), z3.Int('nelements' if which == 'all_bbp' else 'ndm1'), 'number of rows')
        ck.eq(hy, num(t.size[1]), num(3), 'number of columns')
        loops = nest(Loops(ev), 3)
        if len(loops) != 3:
            raise OutOfReach('loops')
        n = name_of(loops)
        ck.eq(hy, num(loops[0]['start'][n]), num(0), 'first row')
        carried(ck, hy, loops, n, 'row')
        v, i, j = [l['value'] for l in loops]
        lim = [limits(ev, l) for l in loops]
        w = [e for l in loops for e in l['events'] if e[0] == 'write']
        row = loops[2]['sym'][n]
        if any(e[1] is not t for e in w):
            raise OutOfReach('another table')
        if which == 'all_bbp':
            q, qc = v, v
            lo, hi = 0, NC
            box = [z3.And(i >= 0, i < LEN(q)), z3.And(j >= 0, j < LEN(q))]
            b, bp = EL(q, i), EL(q, j)
            want = z3.And(z3.Implies(nc, i == j), INC(b, bp, q), UNQ(b, bp, q))
            # numbering of C02: with conjugates left out, the independent element of a pair is the one in list order
            order = z3.Implies(z3.And(nj, UNQ(b, bp, q)), i <= j)
            hy = hy + [order]
        else:
            cw = [e for e in w if e[2][1].eq(num(2)) or equal(hy, e[2][1], num(2))]
            d = cw[0][3] if cw else v - 1
            q = num(d)
            b, bp = EL(q + 1, i), EL(q, j)
            box = [z3.And(i >= 0, i < LEN(q + 1)), z3.And(j >= 0, j < LEN(q))]
            want = order = z3.BoolVal(True)
            if not equal(hy, q, v - 1) and not equal(hy, q, v):
                raise OutOfReach('charge of a row')
            lo, hi = (1, NC) if equal(hy, q, v - 1) else (0, NC - 1)
        ck.holds(hy, z3.And(lim[0].lo == lo, lim[0].hi == hi), 'every charge')
        # the inner ranges hold nothing else and leave out no wanted row
        fr = [z3.Int('any_i'), z3.Int('any_j')]
        free = [h for h in hy if not any(x.eq(i) or x.eq(j) for x in consts(h))]
        sub = lambda e: z3.substitute(e, (i, fr[0]), (j, fr[1]))
        dom = z3.And(lim[1].lo <= fr[0], fr[0] < lim[1].hi, sub(lim[2].lo) <= fr[1], fr[1] < sub(lim[2].hi))
        ck.holds(free, z3.Implies(z3.And(sub(z3.And(*box)), sub(want), sub(order)), dom), 'no wanted row is left out')
        ck.holds(hy, z3.And(*box), 'every row is about states of its charges')
        if w:
            seen += 1
            ck.holds(hy, want, 'a row is about an independent element')
            cols = {}
            for e in w:
                ck.eq(hy, e[2][0], row, 'place of a row')
                for k in range(3):
                    if equal(hy, e[2][1], num(k)):
                        cols[k] = num(e[3])
            if sorted(cols) != [0, 1, 2]:
                ck.fail('columns %s of a row are written' % sorted(cols))
                continue
            ck.eq(hy, cols[0], b, 'first state of a row')
            ck.eq(hy, cols[1], bp, 'second state of a row')
            ck.eq(hy, cols[2], q, 'charge of a row')
            ck.eq(hy, num(loops[2]['after'][n]), row + 1, 'the next row')
        else:
            ck.holds(hy, z3.Not(want), 'a wanted element gets no row')
            ck.eq(hy, num(loops[2]['after'][n]), row, 'a row stays empty')
    if not seen:
        ck.und = ck.und or 'no row is written'
    return ck.out()


def consts(e):
    seen, work = [], [e]
    done = set()
    while work:
        x = work.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            seen.append(x)
        work.extend(x.children())
    return seen


def states_loops(ck, hy, ev, loops):
    """Two loops over the charges and their states: charge and state of the arbitrary iteration."""
    if len(loops) != 2:
        raise OutOfReach('loops')
    q = loops[0]['value']
    p = limits(ev, loops[0])
    ck.holds(hy, z3.And(p.lo == 0, p.hi == NC), 'every charge')
    ov = [e for e in loops[0]['events'] if e[0] == 'over']
    if ov:
        if len(ov) != 1 or not isinstance(ov[0][1], Seq) or not equal(hy, num(ov[0][1].c), q):
            raise OutOfReach('loop over the states')
        return q, loops[1]['value']
    p = limits(ev, loops[1])
    ck.holds(hy, z3.And(p.lo == 0, p.hi == LEN(q)), 'every state of a charge')
    return q, EL(q, loops[1]['value'])


FORMS = {'py': ('qmeq/approach/kernel_handler.py', 'qmeq/approach/aprclass.py', 'Approach'),
         'C': (KH, 'qmeq/approach/c_aprclass.pyx', 'Approach')}


def si_obj():
    def ind(z, a, k):
        mt = k.get('maptype', a[3] if len(a) > 3 else 1)
        if mt != 1 or len(a) > 4:
            z.bad('map of the numbering')
        return IND(num(a[0]), num(a[1]), num(a[2]))
    return ZObj('si', None, dict(ncharge=NC, statesdm=States('statesdm'), get_ind_dm0=Fn(ind)))


def norm(S, form):
    """Trace of the density matrix of the matrix-free handler."""
    z = eng(S)
    rel = FORMS[form][0]
    ck = Check('%s KernelHandlerMatrixFree.get_phi0_norm is the sum of all populations' % form, z)

    def run(z):
        reset(z)
        m = S.module(rel)
        o = handler(S, z, 'KernelHandlerMatrixFree')
        o.cls = (m, m.classes['KernelHandlerMatrixFree'])
        if form == 'py':
            o.attrs = dict(si=si_obj(), phi0=ZArr('phi0', 1))
        return o.attrs['phi0'], z.inline(meth(S, 'KernelHandlerMatrixFree', 'get_phi0_norm', rel), [o], {}, None)
    for hy, (phi0, r), ev in paths(z, run):
        loops = nest(Loops(ev), 2)
        q, b = states_loops(ck, hy, ev, loops)
        n = name_of(loops)
        ck.eq(hy, real(loops[0]['start'][n]), real(0), 'start')
        carried_real(ck, hy, loops, n)
        ck.eq(hy, real(loops[1]['after'][n]), real(loops[1]['sym'][n]) + phi0.base(IND(b, b, q)), 'what a state adds')
        ck.eq(hy, real(r), real(loops[0]['exit'][n]), 'result')
        if phi0.log:
            ck.fail('the density matrix is changed')
    return ck.out()


def carried_real(ck, hy, loops, n):
    for o, i in zip(loops, loops[1:]):
        if not equal(hy, real(i['start'][n]), real(o['sym'][n])) or not equal(hy, real(o['after'][n]), real(i['exit'][n])):
            ck.fail('the sum is changed between the loops')
        ck.n += 1


def norm_vec(S, form):
    z = eng(S)
    rel, cls = FORMS[form][1:]
    ck = Check('%s Approach.generate_norm_vec adds one for the population of every state' % form, z)

    def run(z):
        reset(z)
        m = S.module(rel)
        nv = ZArr('norm_vec', 1)
        a = ZObj(cls, (m, m.classes[cls]), dict(norm_vec=nv, si=si_obj(), _kernel_handler=handler(S, z), kernel_handler=handler(S, z)))
        z.inline(meth(S, cls, 'generate_norm_vec', rel), [a], {}, None)
        return nv
    for hy, nv, ev in paths(z, run):
        loops = nest(Loops(ev), 2)
        q, b = states_loops(ck, hy, ev, loops)
        if len(nv.log) != 1:
            ck.fail('%d entries are changed for one state' % len(nv.log))
            continue
        (i,), v, old = nv.log[0]
        ck.eq(hy, num(i), IND(b, b, q), 'entry of a state')
        ck.eq(hy, real(v) - real(old), real(1), 'what a state adds')
    return ck.out()


ASSUME = {p: ['of a coherence and its conjugate the one in list order is independent (numbering of C02)',
              'the number of rows of the table of independent elements is the number of elements: both count the independent elements '
              '(numbering of C02), one per iteration'] for p in ('C07', 'C08', 'C10', 'C16')}


class Tok(object):
    def __init__(self, name):
        self.name = name


def built(S, rel, cls):
    """__init__: the sizes and tables of the handler are those of the indexing object, by identity."""
    mod = S.module(rel)
    if cls not in mod.classes:
        raise OutOfReach('class %s' % cls)
    compiled = rel.endswith('.pyx')
    amp, noc = z3.Bool('amplitudes'), z3.Bool('no_coherences')

    def isin(z, a, k):
        return amp if a[0] is z.si else z.bad('isinstance')
    con = {'isinstance': isin}
    for m in ('set_statesdm', 'set_all_bbp', 'set_all_ba'):
        for c in ('KernelHandler', cls):
            con['%s.%s' % (c, m)] = lambda z, a, k, m=m: z.events.append(('table', m, a[1:]))
    z = eng(S, con)
    nums = {n: z3.Int(n) for n in ('nmany', 'ndm0', 'ndm0r', 'ndm1', 'npauli', 'nleads', 'nbaths', 'ncharge', 'nsingle')}
    toks = {n: Tok(n) for n in ('lenlst', 'dictdm', 'shiftlst0', 'shiftlst1', 'mapdm0', 'booldm0', 'conjdm0', 'statesdm')}

    def run(z):
        reset(z)
        z.si = ZObj('si', None, dict(nums, **toks))
        o = ZObj(cls, (mod, mod.classes[cls]), {})
        z.inline(meth(S, cls, '__init__', rel), [o, z.si] + ([noc] if compiled else []), {}, None)
        return o
    ck = Check('%s%s.__init__: sizes and tables of the indexing object' % ('' if compiled else 'py ', cls), z)
    for pc, r, ev in paths(z, run):
        hy = list(z.axioms) + pc
        a = r.attrs
        need = ('ndm0', 'npauli') if not compiled else ('nmany', 'ndm0', 'ndm1', 'npauli', 'nleads', 'nbaths', 'ncharge') + (
            ('nsingle',) if cls == 'KernelHandlerRTD' else ())
        for n in need:
            if n not in a:
                raise OutOfReach(n)
            ck.holds(hy, num(a[n]) == nums[n], n)
        if not compiled:
            if a.get('si') is not z.si:
                ck.fail('si')
            continue
        for n in ('lenlst', 'dictdm', 'shiftlst0', 'shiftlst1', 'mapdm0', 'booldm0', 'conjdm0'):
            v = a.get(n)
            if not isinstance(v, Tok):
                raise OutOfReach(n)
            if v.name != n:
                ck.fail('%s of the handler is %s of the indexing object' % (n, v.name))
        ck.holds(hy, num(a['nelements']) == z3.If(noc, nums['npauli'], nums['ndm0']), 'nelements')
        ck.holds(hy, (a['no_coherences'] if not isinstance(a['no_coherences'], bool) else z3.BoolVal(a['no_coherences'])) == noc, 'no_coherences')
        c = a['no_conjugates']
        ck.holds(hy, (z3.BoolVal(c) if isinstance(c, bool) else c) == z3.Not(amp), 'no_conjugates')
        t = [e[1] for e in ev if e[0] == 'table']
        if sorted(t) != ['set_all_ba', 'set_all_bbp', 'set_statesdm'] or t[0] != 'set_statesdm':
            ck.fail('tables: %s' % ', '.join(t))
    return ck.out()


def obligations(prop, S):
    r = []
    if prop in ('C07', 'C08', 'C10', 'C16'):
        r += guarded('KernelHandler.set_statesdm', lambda: copy_states(S))
        for t in ('all_bbp', 'all_ba'):
            r += guarded('KernelHandler.set_%s' % t, lambda: table(S, t))
        for rel, cs in ((PYKH, ('KernelHandler', 'KernelHandlerMatrixFree')), (KH, ('KernelHandler', 'KernelHandlerMatrixFree', 'KernelHandlerRTD'))):
            for c in cs:
                r += guarded('%s.__init__' % c, lambda: built(S, rel, c))
    if prop in ('C11', 'C14', 'C10'):
        for f in ('py', 'C'):
            if prop != 'C14':
                r += guarded('%s get_phi0_norm' % f, lambda: norm(S, f))
            r += guarded('%s generate_norm_vec' % f, lambda: norm_vec(S, f))
    return r


SELF = {'C10': [(KH, 'KernelHandler', 'set_all_bbp'), (KH, 'KernelHandler', 'set_all_ba')]}
