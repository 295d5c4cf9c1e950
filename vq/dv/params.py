"""Parameter containers and their incremental changes (C05), and their expansion to dictionaries (C03, C04).

A container is tracked at one arbitrary key kappa (an orbital pair, a lead, ...): its entry there, present or not.  A loop over
a container runs once for an arbitrary other key and once for kappa if kappa is in it.  The many-body matrices are tracked by the
coefficient with which the amplitude kappa stands in them; construct_* (whose contributions are linear in the amplitude: C03, C04)
add the entry of the dictionary they are given."""
import ast, itertools
import z3
from .zx import Z, ZObj, Fn, Raised, Cx, cx, num, prove, SymRange
from .src import OutOfReach
from .fock import iterate, fresh, SymDict
from .master import guarded
from .par import pmap

ZERO = Cx(z3.RealVal(0), z3.RealVal(0))
_n = itertools.count()


def unknown(name='u'):
    k = next(_n)
    return Cx(z3.Real('%s!%d_re' % (name, k)), z3.Real('%s!%d_im' % (name, k)))


def add(a, b):
    return Cx(a.re + b.re, a.im + b.im)


def eq(a, b):
    a, b = cx(a), cx(b)
    return z3.And(a.re == b.re, a.im == b.im)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return Cx(z3.If(c, a.re, b.re), z3.If(c, a.im, b.im))


def keys_of(x):
    if isinstance(x, (tuple, list)):
        return tuple(num(i) for i in x)
    return (num(x),)


class PDict(object):
    def __init__(self, kappa, has, val, pair=False):
        self.kappa, self.has, self.val, self.pair = tuple(kappa), has, val, pair

    def hit(self, z, key):
        k = keys_of(key)
        if len(k) != len(self.kappa):
            z.bad('key of another length')
        return z.decide(z3.And(*[a == b for a, b in zip(k, self.kappa)]))

    def unpack(self):
        return self.kappa if len(self.kappa) > 1 else self.kappa[0]

    def runs(self, z, st, env, mod, wrap):
        other = tuple(fresh('other') for _ in self.kappa)
        z.assume(z3.Or(*[a != b for a, b in zip(other, self.kappa)]))
        for i in other:
            z.assume(i >= 0)
        o = other if len(other) > 1 else other[0]
        iterate(z, st, env, mod, wrap(o, ('other', self, other)))
        if z.decide(self.has if not isinstance(self.has, bool) else self.has):
            iterate(z, st, env, mod, wrap(self.unpack(), None))

    def zloop(self, z, st, env, mod):
        self.runs(z, st, env, mod, lambda k, o: k)

    def zin(self, z, key, node):
        if self.hit(z, key):
            return self.has
        return z.choose('in')

    def zget(self, z, idx, node):
        if self.hit(z, idx):
            if not z.decide(self.has):
                raise Raised('KeyError')
            return self.val
        return self.new()

    def new(self):
        return Pair([z3.Real('lo!%d' % next(_n)), z3.Real('hi!%d' % next(_n))]) if self.pair else unknown()

    def zset(self, z, idx, v, node):
        if self.hit(z, idx):
            self.has, self.val = True, cx(v)

    def zlist(self, z):
        return PDict(self.kappa, self.has, self.val, self.pair)

    def zlen(self, z):
        n = fresh('len')
        z.assume(n >= 0)
        return n

    def ztruth(self, z):
        if z.decide(self.has):
            return True
        return z.choose('empty')

    def zisinst(self, name):
        return name == 'dict'

    def zattr(self, z, n, node):
        d = self
        if n == 'update':
            def upd(z, a, k):
                x = a[0]
                if isinstance(x, dict):
                    for key, v in x.items():
                        d.zset(z, keys_of(key), v, node)
                elif isinstance(x, PDict) and len(x.kappa) == len(d.kappa):
                    if z.decide(x.has):
                        d.has, d.val = True, x.val
                else:
                    z.bad('update', node)
            return Fn(upd)
        if n == 'get':
            def get(z, a, k):
                if d.hit(z, a[0]):
                    return d.val if z.decide(d.has) else (a[1] if len(a) > 1 else None)
                return d.new() if z.choose('in') else (a[1] if len(a) > 1 else None)
            return Fn(get)
        if n == 'items':
            class Items(object):
                def zloop(s, z, st, env, mod):
                    d.runs(z, st, env, mod, lambda k, o: (k, d.val if o is None else d.new()))
            return Fn(lambda z, a, k: Items())
        if n == 'keys':
            return Fn(lambda z, a, k: d)
        if n == 'copy':
            return Fn(lambda z, a, k: d.zlist(z))
        z.bad('method %s of a dictionary' % n, node)

    def entry(self):
        return ite(self.has, self.val, ZERO)


def entry_of(z, d, kappa):
    """The amplitude a container holds for kappa (zero if none)."""
    if isinstance(d, PDict):
        return d.entry() if len(d.kappa) == len(kappa) else None
    if isinstance(d, dict):
        r = ZERO
        for k, v in d.items():
            if len(keys_of(k)) != len(kappa):
                return None
            if z.decide(z3.And(*[a == b for a, b in zip(keys_of(k), kappa)])):
                r = cx(v)
        return r
    return None


class Pair(object):
    """Band edges of one lead."""
    def __init__(self, v):
        self.v = [num(x) for x in v]

    def zisinst(self, name):
        return name in ('tuple', 'list')


class PArr(object):
    """A parameter array, tracked at the entry iota (and at iota + npar in the second half of spin-symmetric leads)."""
    def __init__(self, slots, cols=1, kind='ndarray', npar=None):
        self.slots, self.cols, self.kind = [list(s) for s in slots], cols, kind
        self.npar = npar if npar is not None else z3.Int('npar')

    def fresh_like(self):
        return PArr(self.slots, self.cols, 'ndarray', self.npar)

    def part(self, z, i):
        i = num(i)
        for r in range(len(self.slots)):
            if z.decide(i == IOTA + r*self.npar):
                return r
        return None

    def zisinst(self, name):
        return name == ('np.ndarray' if self.kind == 'ndarray' else self.kind)

    def zlist(self, z):
        return self.fresh_like()

    def zattr(self, z, n, node):
        if n == 'shape':
            return (self.npar*len(self.slots),) + ((self.cols,) if self.cols > 1 else ())
        if n == 'copy':
            return Fn(lambda z, a, k: self.fresh_like())
        if n == 'astype':
            return Fn(lambda z, a, k: self.fresh_like())
        z.bad('attribute %s of an array' % n, node)

    def zget(self, z, idx, node):
        i = idx[0]
        if isinstance(i, slice):
            if i.step not in (None, 1) or len(idx) > 1:
                z.bad('slice', node)
            if i.start in (None, 0) and i.stop is None:
                return self
            if i.start in (None, 0) and num(i.stop).eq(num(self.npar)):
                v = PArr([[]], self.cols, 'ndarray', self.npar)
                v.slots[0] = self.slots[0]          # a view
                return v
            z.bad('slice of an array', node)
        r = self.part(z, i)
        s = self.slots[r] if r is not None else [z3.Real('el!%d' % next(_n)) for _ in range(self.cols)]
        if len(idx) == 2:
            return s[idx[1]]
        return s[0] if self.cols == 1 else Pair(s)

    def zset(self, z, idx, v, node):
        i = idx[0]
        if isinstance(i, slice):
            if not (i.start is None and i.stop is None and i.step in (None, 1)):
                z.bad('assignment to a part', node)
            if len(idx) == 2:
                if isinstance(idx[1], int) and (isinstance(v, (int, float)) or z3.is_expr(v)):
                    for s in self.slots:
                        s[idx[1]] = real_of(v)
                    return
                if not isinstance(idx[1], int) or not isinstance(v, PArr) or v.cols != 1 or len(v.slots) != len(self.slots):
                    z.bad('column', node)
                for s, w in zip(self.slots, v.slots):
                    s[idx[1]] = w[0]
                return
            if not isinstance(v, PArr) or v.cols != self.cols or len(v.slots) != len(self.slots):
                z.bad('assignment of an array of another shape', node)
            for s, w in zip(self.slots, [list(x) for x in v.slots]):
                s[:] = w
            return
        r = self.part(z, i)
        if r is None:
            return
        if len(idx) == 2:
            self.slots[r][idx[1]] = num(v)
        elif self.cols == 1:
            self.slots[r][0] = real_of(v)
        else:
            w = v.v if isinstance(v, Pair) else [real_of(x) for x in v] if isinstance(v, tuple) else z.bad('row', node)
            self.slots[r][:] = w

    def zbin(self, z, op, o, flip, node):
        f = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b}.get(op)
        if f is None:
            z.bad('operator %s on arrays' % op, node)
        if isinstance(o, PArr):
            if o.cols != self.cols or len(o.slots) != len(self.slots):
                z.bad('arrays of different shapes', node)
            other = o.slots
        else:
            other = [[real_of(o)] * self.cols for _ in self.slots]
        a, b = (other, self.slots) if flip else (self.slots, other)
        return PArr([[f(real_of(x), real_of(y)) for x, y in zip(s, t)] for s, t in zip(a, b)], self.cols, 'ndarray', self.npar)


def real_of(v):
    if isinstance(v, Cx):
        return v.re
    v = num(v)
    return z3.ToReal(v) if v.sort() == z3.IntSort() else v


IOTA = z3.Int('iota')
K2, K4, T2, V3 = z3.Ints('h0 h1'), z3.Ints('c0 c1 c2 c3'), z3.Ints('t0 t1'), z3.Ints('v0 v1 v2')
SZ = z3.Function('sz_to_ind', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Lst(object):
    """The labels of a block."""
    def __init__(self, *q):
        self.q = q


class Ham(object):
    def __init__(self, block, hs=ZERO, c=ZERO):
        self.block, self.hs, self.c = block, hs, c


class HamList(object):
    """Matrices of all blocks; the tracked block is the one of the iteration."""
    def __init__(self, w, idx=()):
        self.w, self.idx = w, idx

    def deep(self):
        return 1 if self.w.indexing in ('Lin', 'charge') else 2

    def zget(self, z, idx, node):
        idx = self.idx + tuple(idx)
        if len(idx) < self.deep():
            return HamList(self.w, idx)
        return Slot(self.w, idx)

    def zset(self, z, idx, v, node):
        idx = self.idx + tuple(idx)
        if len(idx) != self.deep() or not isinstance(v, Ham):
            z.bad('block of the Hamiltonian', node)
        self.w.stored.append((idx, v))
        self.w.ham = v

    def zattr(self, z, n, node):
        z.bad('attribute %s of a list of blocks' % n, node)


class Slot(object):
    def __init__(self, w, idx):
        self.w, self.idx = w, idx


class Mb(object):
    """Tba0 or Vbbp0: the coefficient of the tracked amplitude."""
    def __init__(self, coef):
        self.coef = coef

    def zlist(self, z):
        return Mb(self.coef)

    def zset(self, z, idx, v, node):
        if len(idx) == 1 and isinstance(idx[0], slice) and idx[0].start is None and idx[0].stop is None and isinstance(v, Mb):
            self.coef = v.coef
        else:
            z.bad('assignment to a coupling matrix', node)


class All(object):
    """All values of sz of a charge."""
    def __init__(self, charge):
        self.charge = charge

    def zloop(self, z, st, env, mod):
        s = fresh('sz')
        z.events.append(('allsz', self.charge))
        iterate(z, st, env, mod, s)


class W(object):
    def __init__(self, z, indexing='charge', symmetry=None):
        self.z, self.indexing, self.symmetry = z, indexing, symmetry
        self.stored, self.ham = [], None
        np_ = z3.Int('npar')
        self.si = ZObj('si', None, dict(indexing=indexing, symmetry=symmetry, ncharge=z3.Int('ncharge'), nsingle=z3.Int('nsingle'),
                                        nleads=np_ * (2 if symmetry == 'spin' else 1), nleads_sym=np_, nbaths=np_, nmany=z3.Int('nmany'),
                                        nsingle_sym=z3.Int('nss'), get_lst=Fn(lambda z, a, k: Lst(*a))))
        z.assume(z3.And(IOTA >= 0, IOTA < np_))
        for i in K2 + K4 + T2 + V3:
            z.assume(i >= 0)


def world(S, indexing='charge', symmetry=None):
    c = {}
    z = Z(S)
    z.contracts = c
    z.world = None

    def construct_ham(field):
        def f(z, a, k):
            qd, d, lst = a[:3]
            h = a[3] if len(a) > 3 else k.get('ham_')
            w = z.world
            if not isinstance(lst, Lst):
                raise OutOfReach('list of states of a block')
            if isinstance(h, Slot):
                cur = next((v for i, v in reversed(w.stored) if len(i) == len(h.idx) and all(num(x).eq(num(y)) for x, y in zip(i, h.idx))), None)
                cur = cur or (w.ham0 if not w.fresh else None)
                block = h.idx
            elif h is None:
                cur, block = None, None
            elif isinstance(h, Ham):
                cur, block = h, h.block
            else:
                raise OutOfReach('matrix of a block')
            want = (lst.q[0],) if len(lst.q) == 1 else (lst.q[0], SZ(num(lst.q[1]), num(lst.q[0])))
            if block is not None and not (len(block) == len(want) and all(prove('', z.axioms + z.pc + z.extra, num(x) == num(y))['status'] == 'proved'
                                                                          for x, y in zip(block, want))):
                z.events.append(('wrong block', block, want))
            e = entry_of(z, d, K2 if field == 'hs' else K4)
            if e is None:
                raise OutOfReach('amplitudes of another kind')
            n = Ham(block, cur.hs if cur else ZERO, cur.c if cur else ZERO)
            setattr(n, field, add(getattr(n, field), e))
            return n
        return f

    def construct(kappa):
        def f(z, a, k):
            old = a[2] if len(a) > 2 else k.get('Tba_', k.get('Vbbp_'))
            e = entry_of(z, a[1], kappa)
            if e is None:
                raise OutOfReach('amplitudes of another kind')
            if old is None:
                return Mb(e)
            old.coef = add(old.coef, e)
            return old
        return f

    def same_dict(pos):
        return lambda z, a, k: a[pos]

    def zeros(z, a, k):
        s = a[0]
        if isinstance(s, list) and len(s) == 2:
            return PTab(ZERO)
        if isinstance(s, tuple):
            if s[1] == 2:
                return PArr([[z3.RealVal(0), z3.RealVal(0)]], 2, npar=s[0])
            return PTab(ZERO)
        return PArr([[z3.RealVal(0)]], 1, npar=num(s))

    def cat(z, a, k):
        p = a[0]
        if not all(isinstance(x, PArr) and len(x.slots) == 1 for x in p):
            raise OutOfReach('concatenate')
        return PArr([list(x.slots[0]) for x in p], p[0].cols, npar=p[0].npar)
    c.update({'construct_ham_hopping': construct_ham('hs'), 'construct_ham_coulomb': construct_ham('c'),
              'construct_Tba': construct(T2), 'elph_construct_Vbbp': construct(V3),
              'make_hsingle_dict': same_dict(1), 'make_coulomb_dict': same_dict(1), 'make_tleads_dict': same_dict(0),
              'make_velph_dict': same_dict(0), 'np.zeros': zeros, 'np.concatenate': cat, 'np.hstack': cat,
              'np.ones': lambda z, a, k: PArr([[z3.RealVal(1)]], 1, npar=num(a[0])),
              'np.array': lambda z, a, k: a[0].zlist(z) if hasattr(a[0], 'zlist') else a[0],
              'szrange': lambda z, a, k: All(a[0]), 'sz_to_ind': lambda z, a, k: SZ(num(a[0]), num(a[1])),
              'empty_szlst': lambda z, a, k: HamList(z.world), 'empty_ssqlst': lambda z, a, k: HamList(z.world)})
    z.replist = lambda a, b: HamList(z.world)
    z.make_world = lambda: W(z, indexing, symmetry)
    return z


class PTab(object):
    """The table of tunnelling amplitudes, tracked at the entry T2."""
    def __init__(self, val):
        self.val = val

    def zset(self, z, idx, v, node):
        if len(idx) == 2 and z.decide(z3.And(*[num(a) == b for a, b in zip(idx, T2)])):
            self.val = cx(v)


def owner(z, w, kind, rel, cls):
    m = z.S.module(rel)
    return ZObj(cls, (m, m.classes[cls]), dict(si=w.si, mtype='complex'))


def sym_entry(name, kappa):
    return PDict(kappa, z3.Bool(name + '_has'), Cx(z3.Real(name + '_re'), z3.Real(name + '_im')))


def clone(d):
    return (d.has, d.val.re, d.val.im)


def unchanged(d, c):
    return z3.And(zbool(d.has) == zbool(c[0]), z3.Implies(zbool(d.has), z3.And(d.val.re == c[1], d.val.im == c[2])))


def zbool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def target(old, new, mode):
    """The amplitude after add or change."""
    if mode == 'add':
        return add(old, new.entry())
    if mode == 'change':
        return ite(new.has, new.val, old)
    return new.entry()


def run(z, name, f, limit=600):
    """f(z) -> [(statement, goal)] on every path; one obligation per statement."""
    stm, order, n = {}, [], 0
    t = 0.
    for pc, r, ev in z.explore(f, limit=limit):
        hy = list(z.axioms) + pc
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*hy)
        if s.check() == z3.unsat:
            continue
        n += 1
        if isinstance(r, Raised):
            r = [('no exception', False)]
        for what, goal in r:
            if what not in stm:
                stm[what] = None
                order.append(what)
            if stm[what] is not None and stm[what]['status'] == 'refuted':
                continue
            o = prove(name, hy, goal if not isinstance(goal, bool) else z3.BoolVal(goal))
            t += o['time']
            if o['status'] != 'proved':
                stm[what] = o
    out = []
    for what in order:
        o = stm[what] or {'status': 'proved', 'backend': 'z3', 'detail': '%d paths' % n}
        o['name'] = '%s: %s' % (name, what)
        o['functions'] = list(z.inlined)
        o['time'] = round(t / max(1, len(order)), 3)
        out.append(o)
    if not out:
        out.append({'name': name, 'status': 'undecided', 'backend': 'z3', 'detail': 'no feasible path'})
    return out


MODES = ('add', 'change', 'new')


def quantum_dot(S, mode, what, indexing):
    """QuantumDot.add, change and __init__: the amplitudes and the Hamiltonian of every block."""
    z = world(S, indexing)

    def f(z):
        w = z.world = z.make_world()
        qd = owner(z, w, 'qd', 'qmeq/qdot.py', 'QuantumDot')
        h, c = sym_entry('hsingle', K2), sym_entry('coulomb', K4)
        w.ham0 = Ham(None, h.entry(), c.entry())
        w.fresh = mode == 'new'
        nh, nc = sym_entry('new_hsingle', K2), sym_entry('new_coulomb', K4)
        ch, cc = clone(nh), clone(nc)
        oh, oc = h.entry(), c.entry()
        m = z.S.method(qd.cls[0], qd.cls[1], '__init__' if mode == 'new' else mode)
        if mode == 'new':
            z.inline(m, [qd, nh, nc, w.si], {}, None)
            eh, ec = nh.entry(), nc.entry()
        else:
            qd.attrs.update(hsingle=h, coulomb=c, hamlst=HamList(w), ham_ssq_q=False, herm_c=False, herm_hs=True, m_less_n=True)
            args = {'hsingle': nh} if what == 'hsingle' else {'coulomb': nc}
            z.inline(m, [qd], args, None)
            eh = target(oh, nh, mode) if what == 'hsingle' else oh
            ec = target(oc, nc, mode) if what == 'coulomb' else oc
        return finish(z, w, qd, nh, nc, ch, cc, eh, ec)

    def finish(z, w, qd, nh, nc, ch, cc, eh, ec):
        qh, qc = qd.attrs['hsingle'], qd.attrs['coulomb']
        fh, fc = entry_of(z, qh, K2), entry_of(z, qc, K4)
        if fh is None or fc is None:
            raise OutOfReach('amplitudes of the dot')
        st = [('every amplitude is the one asked for, the others stay', z3.And(eq(fh, eh), eq(fc, ec)))]
        ham = w.ham or w.ham0
        st.append(('the Hamiltonian of every block is that of the resulting amplitudes', z3.And(eq(ham.hs, fh), eq(ham.c, fc))))
        st.append(('every matrix belongs to the states of its block', not any(e[0] == 'wrong block' for e in z.events)))
        if w.stored:
            if indexing == 'ssq':
                st.append(('the block of total-spin indexing is the one of lowest |sz|', z3.And(*[
                    num(i[1]) == SZ(-(num(i[0]) % 2), num(i[0])) for i, h in w.stored])))
            rg = [e for e in z.events if e[0] == 'range']
            st.append(('every block is treated', z3.And(*[z3.And(e[2] == 0, e[3] == z3.Int('ncharge')) for e in rg])
                       if len(rg) == 1 and (indexing != 'sz' or any(e[0] == 'allsz' for e in z.events)) else False))
        else:
            st.append(('every block is treated', z3.And(eq(eh, w.ham0.hs), eq(ec, w.ham0.c))))
        if mode != 'new':
            st.append(('the container of the caller is not modified', z3.And(unchanged(nh, ch), unchanged(nc, cc))))
        return st
    return run(z, 'QuantumDot.%s(%s), %s indexing' % ({'new': '__init__'}.get(mode, mode), what, indexing), f)


def coupling(S, mode, phonon, symmetry):
    """LeadsTunneling and PhononBaths: amplitudes and the many-body matrix."""
    z = world(S, symmetry=symmetry)
    rel, cls, attr, mat, kap = (('qmeq/baths.py', 'PhononBaths', 'velph', 'Vbbp0', V3) if phonon else
                                ('qmeq/leadstun.py', 'LeadsTunneling', 'tleads', 'Tba0', T2))

    def f(z):
        w = z.world = z.make_world()
        o = owner(z, w, '', rel, cls)
        old, new = sym_entry('old', kap), sym_entry('new', kap)
        c, e0 = clone(new), old.entry()
        m = z.S.method(o.cls[0], o.cls[1], '__init__' if mode == 'new' else mode)
        if mode == 'new':
            z.inline(m, [o, z3.Int('npar')*(2 if symmetry == 'spin' and not phonon else 1), new, w.si, None, None] + ([None]), {}, None)
            want = new.entry()
        else:
            o.attrs.update({attr: old, mat: Mb(e0)})
            if not phonon:
                o.attrs['tleads_array'] = PTab(e0)
            z.inline(m, [o], {attr: new}, None)
            want = target(e0, new, mode)
        got = entry_of(z, o.attrs[attr], kap)
        if got is None or not isinstance(o.attrs[mat], Mb):
            raise OutOfReach('amplitudes')
        st = [('every amplitude is the one asked for, the others stay', eq(got, want)),
              ('the many-body matrix is that of the resulting amplitudes', eq(o.attrs[mat].coef, got))]
        if not phonon:
            ta = o.attrs['tleads_array']
            if not isinstance(ta, PTab):
                raise OutOfReach('table of amplitudes')
            st.append(('the table of amplitudes holds the resulting amplitudes', eq(ta.val, got)))
        if mode != 'new':
            st.append(('the container of the caller is not modified', unchanged(new, c)))
        return st
    return run(z, '%s.%s(%s)%s' % (cls, {'new': '__init__'}.get(mode, mode), attr, ', spin symmetry' if symmetry else ''), f)


def replaced(S, phonon, symmetry):
    """update_Tba0, update_Vbbp0: all amplitudes are replaced by those of the container given, whatever its form."""
    z = world(S, symmetry=symmetry)
    rel, cls, name, attr, mat, kap = (('qmeq/baths.py', 'PhononBaths', 'update_Vbbp0', 'velph', 'Vbbp0', V3) if phonon else
                                      ('qmeq/leadstun.py', 'LeadsTunneling', 'update_Tba0', 'tleads', 'Tba0', T2))
    made = sym_entry('made', kap)

    def f(z):
        w = z.world = z.make_world()
        o = owner(z, w, '', rel, cls)
        o.attrs.update({attr: sym_entry('old', kap), mat: Mb(sym_entry('old', kap).entry())})
        if not phonon:
            o.attrs['tleads_array'] = PTab(sym_entry('old', kap).entry())
        box = ZObj('container', None, {})

        def maker_(z, a, k):
            if a[0] is not box:
                raise OutOfReach('what the dictionary is made from')
            return made

        def build(z, a, k):
            old = a[2] if len(a) > 2 else k.get('Tba_', k.get('Vbbp_'))
            if old is not None:
                raise OutOfReach('old matrix')
            if a[1] is box:                              # a list or an array has no amplitudes under keys; with spin half of them is missing
                return Mb(Cx(z3.Real('raw_re'), z3.Real('raw_im')))
            e = entry_of(z, a[1], kap)
            if e is None:
                raise OutOfReach('amplitudes of another kind')
            if o.attrs.get('mtype') is not mt:
                z.events.append('mtype')
            return Mb(e)
        mt = 'the type'
        z.contracts.update({'make_tleads_dict': maker_, 'make_velph_dict': maker_, 'construct_Tba': build, 'elph_construct_Vbbp': build})
        m = z.S.method(o.cls[0], o.cls[1], name)
        n = z3.Int('npar')*(2 if symmetry == 'spin' and not phonon else 1)
        z.inline(m, [o, n, box, mt], {}, None)
        got = entry_of(z, o.attrs[attr], kap)
        if got is None or not isinstance(o.attrs[mat], Mb):
            raise OutOfReach('amplitudes')
        st = [('the amplitudes are those of the container, nothing else', eq(got, made.entry())),
              ('the many-body matrix is that of the resulting amplitudes', eq(o.attrs[mat].coef, got)),
              ('the matrix has the type asked for', 'mtype' not in z.events)]
        si = w.si.attrs
        if phonon:
            st.append(('the number of baths', num(si['nbaths']) == n))
        else:
            ta = o.attrs['tleads_array']
            if not isinstance(ta, PTab):
                raise OutOfReach('table of amplitudes')
            st.append(('the table of amplitudes holds the resulting amplitudes', eq(ta.val, got)))
            st.append(('the numbers of leads', z3.And(num(si['nleads']) == n, num(si['nleads_sym']) == z3.Int('npar'))))
        return st
    return run(z, '%s.%s%s' % (cls, name, ', spin symmetry' if symmetry else ''), f)


def given(kind, cols):
    """The argument in one of its allowed forms, and (is iota given, its value)."""
    v = [z3.Real('given%d' % i) for i in range(cols)]
    one = z3.Real('given0')
    if kind == 'number':
        return one, True, [one] if cols == 1 else [-one, one]
    if kind == 'dict':
        d = PDict([IOTA], z3.Bool('given_has'), Cx(one, z3.RealVal(0)))
        d.reals = True
        return d, z3.Bool('given_has'), [one] if cols == 1 else [-one, one]
    if kind == 'dict of pairs':
        d = PDict([IOTA], z3.Bool('given_has'), ZERO, pair=True)
        d.val = Pair(v)
        return d, z3.Bool('given_has'), v
    if kind in ('list', 'ndarray'):
        return PArr([[one]], 1, kind), True, [one] if cols == 1 else [-one, one]
    if kind == 'list of pairs':
        return PArr([v], 2, 'list'), True, v


def lead_array(S, attr, mode, kind, phonon, symmetry):
    """mulst, tlst and dlst of leads and baths: new, changed and added to."""
    z = world(S, symmetry=symmetry)
    cols = 2 if attr.startswith('dlst') else 1
    rel, cls = ('qmeq/baths.py', 'PhononBaths') if phonon else ('qmeq/leadstun.py', 'LeadsTunneling')
    halves = 2 if symmetry == 'spin' and not phonon else 1

    def f(z):
        w = z.world = z.make_world()
        o = owner(z, w, '', rel, cls)
        arg, has, val = given(kind, cols)
        m = z.S.method(o.cls[0], o.cls[1], '__init__' if mode == 'new' else mode)
        old = [[z3.Real('old%d' % c) for c in range(cols)] for _ in range(halves)]
        other = {'mulst': 'tlst', 'tlst': 'mulst', 'dlst': 'tlst', 'tlst_ph': 'dlst_ph', 'dlst_ph': 'tlst_ph'}[attr]
        if mode == 'new':
            amp = PDict(V3 if phonon else T2, False, ZERO)
            a = {'mulst': None, 'tlst': None, 'dlst': None} if not phonon else {'tlst_ph': None, 'dlst_ph': None}
            a[attr] = arg
            z.inline(m, [o, z3.Int('npar')*halves, amp, w.si], a, None)
            base = [[z3.RealVal(0)]*cols for _ in range(halves)]
        else:
            oc = 2 if other.startswith('dlst') else 1
            keep = PArr([[z3.Real('keep%d' % c) for c in range(oc)] for _ in range(halves)], oc)
            o.attrs.update({attr: PArr(old, cols), other: keep})
            z.inline(m, [o], {attr: arg}, None)
            base = old
        r = o.attrs[attr]
        if not isinstance(r, PArr) or len(r.slots) != halves or r.cols != cols:
            raise OutOfReach('shape of the array')
        g = [num(r.npar) == z3.Int('npar')]
        for h in range(halves):
            for c in range(cols):
                b, v = base[h][c], val[c]
                want = z3.If(zbool(has), b + v if mode == 'add' else v, b)
                g.append(real_of(r.slots[h][c]) == want)
        st = [('every entry is the one asked for, the others stay', z3.And(*g))]
        if mode != 'new':
            k = o.attrs[other]
            st.append(('other arrays stay', k is keep and all(real_of(x).eq(y) for s in k.slots for x, y in
                                                             zip(s, [z3.Real('keep%d' % c) for c in range(k.cols)]))))
        return st
    return run(z, '%s.%s(%s given as %s)%s' % (cls, {'new': '__init__'}.get(mode, mode), attr, kind, ', spin symmetry' if symmetry else ''), f)


def delegation(S, cls, rel, mode):
    """Builder.add and change hand every argument to the part it belongs to, once, and only if it is given."""
    m = S.module(rel)
    names = ['hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'dlst'] + (['velph', 'tlst_ph', 'dlst_ph'] if 'ElPh' in cls else [])
    part = {n: 'qd' for n in names[:2]}
    part.update({n: 'leads' for n in names[2:6]})
    part.update({n: 'baths' for n in names[6:]})
    z = Z(S, contracts={})
    bad, cnt = [], 0
    cases = [set([n]) for n in names] + [set(names), set()] + [set(p) for p in itertools.combinations(names, 2)]
    for case in cases:
        def f(z):
            calls = []

            def owner_(p):
                # the parameter names come from the real signature of the callee
                rel2, cls2 = {'qd': ('qmeq/qdot.py', 'QuantumDot'), 'leads': ('qmeq/leadstun.py', 'LeadsTunneling'),
                              'baths': ('qmeq/baths.py', 'PhononBaths')}[p]
                mm = S.module(rel2)
                sig = S.method(mm, mm.classes[cls2], mode)[2].args

                def g(z, a, k):
                    d = dict(zip([x.arg for x in sig.args[1:]], a))
                    d.update(k)
                    calls.append((p, {n: v for n, v in d.items() if v is not None and n in names}, {n: v for n, v in d.items() if n not in names}))
                return ZObj(p, None, {mode: Fn(g)})
            o = ZObj(cls, (m, m.classes[cls]), {p: owner_(p) for p in ('qd', 'leads', 'baths')})
            mt = S.method(m, m.classes[cls], mode)
            z.inline(mt, [o], {n: 'value of ' + n for n in case}, None)
            return calls
        for pc, r, ev in z.explore(f):
            cnt += 1
            if isinstance(r, Raised):
                bad.append('%s: raises %s' % (sorted(case), r.what))
                continue
            want = {}
            for n in case:
                want.setdefault(part[n], {})[n] = 'value of ' + n
            got = {}
            for p, d, flags in r:
                if flags and any(v is not True for v in flags.values()):
                    bad.append('%s: flags %s' % (sorted(case), flags))
                if p in got:
                    bad.append('%s: %s twice' % (sorted(case), p))
                got[p] = d
            if {p: d for p, d in got.items() if d} != want:
                bad.append('%s: %s' % (sorted(case), got))
    return {'name': '%s.%s: every argument reaches the part it belongs to, once' % (cls, mode), 'status': 'proved' if cnt and not bad else 'refuted',
            'backend': 'symbolic execution', 'detail': '; '.join(bad[:2]) or '%d argument combinations' % cnt, 'functions': list(z.inlined)}


# ------------------------------------------------------------------------------------------------ expansion to dictionaries
class Items(object):
    """A list of parameter tuples; loops run over one arbitrary item."""
    def __init__(self, arity):
        self.key = tuple(z3.Int('item%d' % i) for i in range(arity))
        self.value = Cx(z3.Real('item_re'), z3.Real('item_im'))

    def zloop(self, z, st, env, mod):
        z.events.append(('dict', 'items'))
        iterate(z, st, env, mod, self.key + (self.value,))

    def zisinst(self, name):
        return name == 'list'


class Nd(object):
    """An array of amplitudes."""
    def __init__(self, arity):
        self.arity = arity
        self.shape = tuple(z3.Int('dim%d' % i) for i in range(arity))
        self.re, self.im = [z3.Function('elem_' + s, *([z3.IntSort()]*arity + [z3.RealSort()])) for s in ('re', 'im')]

    def zattr(self, z, n, node):
        if n == 'shape':
            return self.shape
        z.bad('attribute %s of an array' % n, node)

    def at(self, idx):
        return Cx(self.re(*idx), self.im(*idx))

    def zget(self, z, idx, node):
        if len(idx) != self.arity or any(isinstance(i, slice) for i in idx):
            z.bad('part of an array', node)
        return self.at([num(i) for i in idx])

    def zisinst(self, name):
        return name == 'np.ndarray'


class Grown(SymDict):
    """A copy of a dictionary with further entries."""
    def __init__(self, base):
        self.name, self.key, self.value = base.name, base.key, base.value
        self.base, self.new = base, {}

    def zattr(self, z, n, node):
        if n == 'update':
            def f(z, a, k):
                if not isinstance(a[0], dict):
                    z.bad('update', node)
                self.new.update(a[0])
            return Fn(f)
        return SymDict.zattr(self, z, n, node)

    def zset(self, z, idx, v, node):
        if any(isinstance(i, slice) for i in idx):
            z.bad('key', node)
        self.new[idx[0] if len(idx) == 1 else tuple(idx)] = v


SymDict.zlist = lambda self, z: Grown(self)


class Product(object):
    def __init__(self, rngs):
        self.rngs = rngs

    def zloop(self, z, st, env, mod):
        js = []
        for r in self.rngs:
            j = fresh('j')
            a = [num(x) for x in r.args]
            lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else (a[0], a[1])
            z.assume(z3.And(lo <= j, j < hi))
            z.events.append(('range', j, lo, hi))
            js.append(j)
        iterate(z, st, env, mod, tuple(js))


def maker(S, rel, name, arity, kind, spin, herm=False, with_qd=True):
    """make_*_dict: the entries made from an arbitrary item are exactly that item (and its copy for the other spin)."""
    z = Z(S, contracts={'itertools.product': lambda z, a, k: Product(a)})
    m = S.module(rel)

    def f(z):
        si = ZObj('si', None, dict(symmetry='spin' if spin else None, nsingle_sym=z3.Int('nss'), nleads_sym=z3.Int('nls')))
        arg = {'dict': lambda: SymDict('amp', arity), 'list': lambda: Items(arity), 'ndarray': lambda: Nd(arity)}[kind]()
        own = ZObj('qd', None, dict(si=si, herm_hs=herm)) if with_qd else si
        az = z3.Bool('add_zeros')
        if name not in m.funcs:
            raise OutOfReach('function %s' % name)
        fn = (m, None, m.funcs[name])
        a = [own, arg] if with_qd else [arg, own]
        r = z.inline(fn, a + ([az] if kind != 'list' else []), {}, None)
        if isinstance(r, Grown):
            got = [(r.key, r.value)] + list(r.new.items())
            for k in list(r.base.__dict__.get('new', {}).items()):
                got.append(k)
        elif isinstance(r, SymDict):
            got = [(r.key, r.value)]
        elif isinstance(r, dict):
            got = list(r.items())
        else:
            raise OutOfReach('result of %s' % name)
        if kind == 'ndarray':
            js = [e for e in z.events if e[0] == 'range']
            if len(js) != arity:
                raise OutOfReach('loops over the array')
            key = tuple(e[1] for e in js)
            val = arg.at(key)
            cover = z3.And(*[z3.And(e[2] == (0 if not (herm and i == 1) else js[0][1]), e[3] == arg.shape[0 if name == 'make_hsingle_dict' else i])
                             for i, e in enumerate(js)])
            wanted = z3.Or(val.re != 0, val.im != 0, az)
        else:
            key, val, cover, wanted = arg.key, arg.value, z3.BoolVal(True), z3.BoolVal(True)
        exp = [(key, val)]
        if spin:
            n = z3.Int('nss')
            sh = {'make_hsingle_dict': (n, n), 'make_tleads_dict': (z3.Int('nls'), n), 'make_velph_dict': (0, n, n)}[name]
            exp.append((tuple(a + b for a, b in zip(key, sh)), val))
        st = [('the whole container is read', cover)]
        match = lambda g, e: z3.And(*[num(a) == num(b) for a, b in zip(keys_of(g[0]), e[0])], eq(g[1], e[1]))
        st.append(('entries are those of the container%s' % (' and their copies for the other spin' if spin else ''),
                   z3.And(*[z3.Or(*[match(g, e) for e in exp]) for g in got]) if got else z3.BoolVal(True)))
        st.append(('no entry is left out', z3.Implies(wanted, z3.And(*[z3.Or(*([match(g, e) for g in got] or [z3.BoolVal(False)])) for e in exp]))))
        return st
    return run(z, '%s(%s%s%s)' % (name, kind, ', spin symmetry' if spin else '', ', Hermitian' if herm else ''), f)


class Keys(object):
    """keys() of the dictionary that grows: whether a key was there before is arbitrary; those added since are."""
    def __init__(self, d):
        self.d = d

    def zin(self, z, v, node):
        v = tuple(num(x) for x in v)
        p = z3.Or(z3.Function('there', *([z3.IntSort()]*4 + [z3.BoolSort()]))(*v), *[z3.And(*[num(x) == y for x, y in zip(q, v)]) for q in self.d.new])
        z.events.append(('asked', v, p))
        return p


class GrownC(Grown):
    def zattr(self, z, n, node):
        if n == 'keys':
            return Fn(lambda z, a, k: Keys(self))
        return Grown.zattr(self, z, n, node)

    def zin(self, z, v, node):
        return Keys(self).zin(z, v, node)


class Amplitudes(SymDict):
    def zlist(self, z):
        return GrownC(self)


def coulomb_maker(S, kind, spin, herm, less):
    """make_coulomb_dict: the entries made from an arbitrary item are that item and, for spin, its copies for the four pairs of
    spins, each once: a copy is left out only where its conjugate is there already (and implied)."""
    name, rel = 'make_coulomb_dict', 'qmeq/qdot.py'
    z = Z(S)
    m = S.module(rel)

    def f(z):
        n = z3.Int('nss')
        si = ZObj('si', None, dict(symmetry='spin' if spin else None, nsingle_sym=n))
        arg = Amplitudes('amp', 4) if kind == 'dict' else Items(4)
        own = ZObj('qd', None, dict(si=si, herm_c=herm, m_less_n=less))
        az = z3.Bool('add_zeros')
        r = z.inline((m, None, m.funcs[name]), [own, arg, az], {}, None)
        key, val = arg.key, arg.value
        if not spin:
            if kind == 'dict':
                return [('the entries are those of the container', z3.BoolVal(r is arg))]
            got = list(r.items()) if isinstance(r, dict) else None
            if got is None:
                raise OutOfReach('result')
            there = z3.Or(val.re != 0, val.im != 0, az)
            ok = z3.BoolVal(len(got) <= 1)
            for g in got:
                ok = z3.And(ok, *[num(a) == b for a, b in zip(g[0], key)], eq(g[1], val))
            return [('the entry is that of the item', ok), ('it is there if it is not zero or zeros are asked for', z3.Implies(there, z3.BoolVal(len(got) == 1)))]
        if not isinstance(r, GrownC):
            raise OutOfReach('result')
        a, b, c, d = key
        z.assume(z3.And(n >= 1, *[z3.And(x >= 0, x < n) for x in key]))
        copies = [(a, b + n, c + n, d), (a + n, b, c, d + n), (a + n, b + n, c + n, d + n)]
        forms = lambda k: [k, (k[1], k[0], k[3], k[2])]
        same = lambda k, l: z3.And(*[num(x) == num(y) for x, y in zip(k, l)])
        new = list(r.new.items())
        asked = [e for e in z.events if e[0] == 'asked']
        conj = lambda k: (k[3], k[2], k[1], k[0])
        skip = lambda k: z3.Or(*[z3.And(z3.BoolVal(herm), same(e[1], conj(q)), e[2]) for e in asked for q in forms(k)]) if asked else z3.BoolVal(False)
        st = [('every new entry is the copy of the item for a pair of spins',
               z3.And(*[z3.And(z3.Or(*[same(g[0], q) for k in copies for q in forms(k)]), eq(g[1], val)) for g in new])),
              ('a copy is left out only where its conjugate is there', z3.And(*[z3.Or(skip(k), *[same(g[0], q) for g in new for q in forms(k)]) for k in copies]))]
        st.append(('the entries of the container are kept', z3.And(same(r.key, key), eq(r.value, val))))
        if herm and less:
            st.append(('no copy is added next to its conjugate', z3.And(*[
                z3.Not(z3.And(z3.Not(same(g[0], conj(g[0]))), same(e[1], conj(g[0])), e[2])) for e in asked for g in new])))
            st.append(('the conjugates of the copies with opposite spins are looked for', z3.And(*[
                z3.Or(*[same(e[1], conj(q)) for e in asked for q in forms(k)]) if asked else z3.BoolVal(False) for k in copies[:2]])))
        return st
    return run(z, 'make_coulomb_dict(%s%s%s%s)' % (kind, ', spin symmetry' if spin else '', ', Hermitian' if herm else '', ', ordered' if less else ''), f)


def makers(S, which):
    out = []
    if which == 'C03':
        for kind in ('dict', 'list'):
            out += guarded('make_coulomb_dict', coulomb_maker, S, kind, False, False, True)
        for herm in (False, True):
            for less in (False, True):
                out += guarded('make_coulomb_dict', coulomb_maker, S, 'dict', True, herm, less)
    for spin in (False, True):
        for kind in ('dict', 'list', 'ndarray'):
            if which == 'C03':
                for herm in ((True, False) if kind == 'ndarray' else (False,)):
                    out += guarded('make_hsingle_dict', maker, S, 'qmeq/qdot.py', 'make_hsingle_dict', 2, kind, spin, herm)
            else:
                out += guarded('make_tleads_dict', maker, S, 'qmeq/leadstun.py', 'make_tleads_dict', 2, kind, spin, with_qd=False)
                out += guarded('make_velph_dict', maker, S, 'qmeq/baths.py', 'make_velph_dict', 3, kind, spin, with_qd=False)
    return out


ASSUME = {'C05': ['the matrices added by construct_ham_* , construct_Tba and elph_construct_Vbbp are linear in the amplitudes (C03, C04)',
                  'make_*_dict returns the entries of its argument (C03, C04); entries of caller containers are in range',
                  'a loop over a container visits every key once; the key tracked and the other one are arbitrary'],
          'C03': ['a loop over a container visits every item once; no two items of a list have the same key'],
          'C04': ['a loop over a container visits every item once; no two items of a list have the same key']}


def obligations(prop, S):
    if prop in ('C03', 'C04'):
        return makers(S, prop)
    if prop != 'C05':
        return []
    todo = []
    for ix in ('charge', 'sz', 'ssq'):
        for mode in MODES:
            for what in (('hsingle', 'coulomb') if mode != 'new' else ('all',)):
                todo.append((quantum_dot, (S, mode, what, ix)))
    for mode in MODES:
        for ph in (False, True):
            todo.append((coupling, (S, mode, ph, None)))
        for ph, attrs in ((False, ('mulst', 'tlst', 'dlst')), (True, ('tlst_ph', 'dlst_ph'))):
            for at in attrs:
                for kind in ('number', 'dict', 'list', 'ndarray') + (('dict of pairs', 'list of pairs') if at.startswith('dlst') else ()):
                    for sy in (None, 'spin'):
                        todo.append((lead_array, (S, at, mode, kind, ph, sy)))
        if mode == 'new':
            todo += [(replaced, (S, ph, sy)) for ph in (False, True) for sy in (None, 'spin')]
        if mode != 'new':
            todo.append((delegation, (S, 'BuilderBase', 'qmeq/builder/builder_base.py', mode)))
            todo.append((delegation, (S, 'BuilderElPh', 'qmeq/builder/builder_elph.py', mode)))
    r = []
    for x in pmap(lambda t: guarded('%s %s' % (t[0].__name__, t[1][1:]), t[0], *t[1]), todo):
        r += x
    return r
