"""Many-body operators (construct_ham_hopping, construct_ham_coulomb, construct_Tba, elph_construct_Vbbp): for an arbitrary state
and an arbitrary amplitude, what is added to the matrix is that amplitude times the product of fermion operators applied one
after the other (the sign of c_i is the parity of the particles before i).  Any number of orbitals, any state, any amplitude."""
import z3
from .zx import Z, ZObj, Fn, Raised, prove, num, cx, Cx
from .src import OutOfReach
from .fock import Occ, Mat, SymDict, fresh, iterate
from .master import guarded
from .par import pmap

N = z3.Int('nsingle')
LAB = z3.Function('label', z3.IntSort(), z3.IntSort())
RET = z3.Function('retained', z3.IntSort(), z3.IntSort(), z3.BoolSort())


class Labels(object):
    """statelst: the labels of one block, without repetitions."""
    def __init__(self, w):
        self.w = w

    def zlen(self, z):
        return z3.Int('nstates')

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('part of the list of states', node)
        l = LAB(num(idx[0]))
        self.w.pos[num(idx[0]).get_id()] = (num(idx[0]), self.w.occ(l))
        return l

    def zattr(self, z, n, node):
        if n == 'index':
            def f(z, a, k):
                o = self.w.tok.get(num(a[0]).get_id())
                if o is None:
                    z.bad('position of a label', node)
                p = fresh('pos')
                self.w.pos[p.get_id()] = (p, o[1])
                return p
            return Fn(f)
        z.bad('attribute %s of the list of states' % n, node)


class Numbered(object):
    def __init__(self, l):
        self.l = l

    def zloop(self, z, st, env, mod):
        j, n = fresh('j'), self.l.zlen(z)
        z.assume(z3.And(0 <= j, j < n))
        z.events.append(('range', j, z3.IntVal(0), n))
        iterate(z, st, env, mod, (j, self.l.zget(z, [j], st)))


def numbered(z, a, k):
    if len(a) == 1 and not k and isinstance(a[0], Labels):
        return Numbered(a[0])
    return z.builtin('enumerate', a, k, None)


class W(object):
    """si, the states that were looked up, and the tokens of labels."""
    def __init__(self, z):
        self.z, self.tok, self.pos, self.base = z, {}, {}, {}

    def occ(self, label):
        label = num(label)
        k = label.get_id()
        if k not in self.base:
            self.base[k] = (label, Occ(label))
            self.tok[k] = (label, self.base[k][1].copy())
        return self.base[k][1].copy()

    def si(self):
        w = self

        def get_state(z, a, k):
            if k.get('linq') or len(a) > 1:
                z.bad('other labels')
            return w.occ(a[0])

        def get_ind(z, a, k):
            if k.get('linq') or len(a) > 1 or not isinstance(a[0], Occ):
                z.bad('label of something else')
            o = a[0].copy()
            if z.choose('removed'):
                z.events.append(('removed', o))
                return None
            i = fresh('ind')
            w.tok[i.get_id()] = (i, o)
            return i
        return ZObj('si', None, dict(get_state=Fn(get_state), get_ind=Fn(get_ind), nmany=z3.Int('nmany'), nleads=z3.Int('nleads'),
                                     nbaths=z3.Int('nbaths'), nsingle=N))


class Term(object):
    """An operator product applied to a state: guard, sign and state."""
    def __init__(self, z, o):
        self.z, self.o, self.guard, self.par = z, o.copy(), [], z3.IntVal(0)

    def apply(self, i, create):
        self.o.touch(self.z, i)
        self.guard.append(self.o.at(i) == (0 if create else 1))
        self.par = self.par + self.o.pre(i)
        self.o.over.append((i, z3.IntVal(1 if create else 0)))
        return self

    def amp(self, v):
        s = self.par % 2 == 0
        return Cx(z3.If(s, v.re, -v.re), z3.If(s, v.im, -v.im))


def same(hy, a, b):
    x = z3.Int('site')
    s = z3.Solver()
    s.set('timeout', 4000)
    s.add(*hy, a.at(x) != b.at(x))
    return s.check() == z3.unsat


def feas(hy):
    s = z3.Solver()
    s.set('timeout', 4000)
    s.add(*hy)
    return s.check() != z3.unsat


def split(hy, guards):
    """Decide every guard: [(hypotheses, [bool])]."""
    out = [(list(hy), [])]
    for g in guards:
        nxt = []
        for h, v in out:
            for b in (True, False):
                h2 = h + [g if b else z3.Not(g)]
                if feas(h2):
                    nxt.append((h2, v + [b]))
        out = nxt
    return out


def compare(name, z, paths, spec, base, count):
    """spec(z): [(guard, row Occ, column Occ, further indices, value)] of an arbitrary iteration."""
    worst, tot, n, t = None, 0, 0, 0.
    for pc, r, ev in paths:
        if isinstance(r, Raised):
            return {'name': name, 'status': 'undecided', 'backend': 'z3', 'detail': 'raises %s' % r.what, 'functions': list(z.inlined)}
        w, entries, extra, retmat = r
        hy = list(z.axioms) + pc + extra
        if not feas(hy):
            continue
        tot += 1
        rng, dic = [o for k, *o in ev if k == 'range'], [o for k, *o in ev if k == 'dict']
        if len(rng) != 1 or len(dic) != 1 or not (rng[0][0].eq(w.src.base) or LAB(rng[0][0]).eq(w.src.base)):
            raise OutOfReach('not one loop over the states and one over the amplitudes')
        o = prove(name, hy, z3.And(rng[0][1] == 0, rng[0][2] == count))
        if o['status'] == 'refuted':
            o['detail'] = 'the loop over the states does not run over all of them: %s' % o.get('detail')
        if o['status'] != 'proved':
            o['functions'] = list(z.inlined)
            return o
        removed = [o for k, *o in ev if k == 'removed']
        if any(k == 'set' for k, *o in ev):
            raise OutOfReach('assignment instead of accumulation')
        effs = []
        for k, *o in ev:
            if k != 'add':
                continue
            mat, idx, v = o
            if mat is not retmat:
                raise OutOfReach('another matrix')
            ent = []
            for i in idx[-2:]:
                q = w.pos.get(i.get_id()) or w.tok.get(i.get_id())
                if q is None:
                    raise OutOfReach('index of the matrix')
                ent.append(q[1])
            effs.append((idx[:-2], ent[0], ent[1], v))
        for h, on in split(hy, [g for g, *_ in entries]):
            s = [e[1:] for e, b in zip(entries, on) if b]
            gone = [x[0] for x in removed]
            s = [e for e in s if not any(same(h, o, e[0]) or same(h, o, e[1]) for o in gone)]
            # either source and target state coincide, or they differ somewhere
            states = [e[i] for e in s + [(b, c, a, v) for a, b, c, v in effs] for i in (0, 1)]
            tgt = next((o for o in states if not same(h, o, base(w))), None)
            cases = [(h, False)]
            if tgt is not None:
                x = z3.Int('differ')
                cases = [(h + [x >= 0, x < N, tgt.at(x) != base(w).at(x)], False)]
                al = z3.And(*[tgt.at(i) == base(w).at(i) for i, _ in tgt.over])
                cases.append((h + [al], True))
            for hh, one in cases:
                if not feas(hh):
                    continue
                groups = []
                for kind, l in (('spec', [(e[2], e[0], e[1], e[3]) for e in s]), ('code', effs)):
                    for ex, a, b, v in l:
                        g = next((g for g in groups if len(g[0]) == len(ex) and all(p.eq(q) for p, q in zip(g[0], ex)) and
                                  (one or same(hh, g[1], a) and same(hh, g[2], b))), None)
                        if g is None:
                            g = [ex, a, b, [], []]
                            groups.append(g)
                        g[3 if kind == 'spec' else 4].append(v)
                for ex, a, b, sp, co in groups:
                    goal = z3.And(z3.Sum([z3.RealVal(0)] + [v.re for v in sp]) == z3.Sum([z3.RealVal(0)] + [v.re for v in co]),
                                  z3.Sum([z3.RealVal(0)] + [v.im for v in sp]) == z3.Sum([z3.RealVal(0)] + [v.im for v in co]))
                    o = prove(name, hh, goal)
                    n += 1
                    t += o['time']
                    if o['status'] == 'refuted':
                        o['functions'] = list(z.inlined)
                        o['detail'] = 'element <%s| |%s>: %s' % (a.over, b.over, o.get('detail', ''))
                        return o
                    if o['status'] != 'proved':
                        worst = o
    r = worst or {'name': name, 'backend': 'z3', 'status': 'proved' if n else 'undecided', 'detail': '%d paths, %d cases' % (tot, n)}
    r['time'], r['functions'] = round(t, 3), list(z.inlined)
    return r


def conj(v):
    return Cx(v.re, -v.im)


def zero_matrix(rank):
    return lambda z, a, k: Mat('new', rank)


def setup(S, rank):
    z = Z(S, contracts={'np.zeros': zero_matrix(rank), 'enumerate': numbered})
    return z


def func(S, rel, name):
    m = S.module(rel)
    if name not in m.funcs:
        raise OutOfReach('function %s' % name)
    return (m, None, m.funcs[name])


def block_function(S, name, arity, spec, given, opts):
    """construct_ham_*: statelst is a block (all states of one charge), its matrix has the positions as indices."""
    z = setup(S, 2)
    d = SymDict('amp', arity)

    def run(z):
        w = W(z)
        lst = Labels(w)
        qd = ZObj('qd', None, dict(opts, si=w.si(), mtype='complex'))
        mat = Mat('given', 2) if given else None
        for i in d.key:
            z.assume(z3.And(i >= 0, i < N))
        r = z.inline(func(S, 'qmeq/qdot.py', name), [qd, d, lst] + ([mat] if given else []), {}, None)
        if given and r is not mat or not isinstance(r, Mat):
            raise OutOfReach('result of %s' % name)
        src = [o for i, o in w.pos.values() if not o.over]
        if not src:
            raise OutOfReach('no state was looked at')
        w.src = src[0]
        k = len(z.extra)
        ent = spec(z, w.src, d, opts)
        return w, ent, z.extra[k:], r
    paths = z.explore(run, limit=2000)
    tag = ', '.join('%s=%s' % x for x in sorted(opts.items()))
    return compare('%s (%s%s): what an amplitude adds for a state is its operator product' % (name, tag, ', given matrix' if given else ''),
                   z, paths, None, lambda w: w.src, z3.Int('nstates'))


def hopping(z, s, d, opts):
    """hsingle[(i, j)] removes i and adds j; herm_hs: the conjugate is implied for i != j."""
    i, j = d.key
    t = Term(z, s).apply(i, False).apply(j, True)
    g = z3.And(*t.guard)
    out = [(g, t.o, s, [], t.amp(d.value))]
    if opts['herm_hs']:
        out.append((z3.And(g, i != j), s, t.o, [], conj(t.amp(d.value))))
    return out


def coulomb(z, s, d, opts):
    """coulomb[(m, n, k, l)]: c+_m c+_n c_k c_l; herm_c: the conjugate is implied unless it is the same key, or (m_less_n) its
    order is the one that is not given (k < l)."""
    m, n, k, l = d.key
    t = Term(z, s).apply(l, False).apply(k, False).apply(n, True).apply(m, True)
    g = z3.And(*t.guard)
    out = [(g, t.o, s, [], t.amp(d.value))]
    if opts['herm_c']:
        g2 = z3.Or(m != l, n != k)
        if opts['m_less_n']:
            g2 = z3.And(g2, z3.Not(l > k))
        out.append((z3.And(g, g2), s, t.o, [], conj(t.amp(d.value))))
    return out


def lead_function(S, rel, name, arity, spec, given, owner):
    z = setup(S, 3)
    d = SymDict('amp', arity)

    def run(z):
        w = W(z)
        ob = ZObj(owner, None, dict(si=w.si(), mtype='complex'))
        mat = Mat('given', 3) if given else None
        for i in d.key[1:]:
            z.assume(z3.And(i >= 0, i < N))
        r = z.inline(func(S, rel, name), [ob, d] + ([mat] if given else []), {}, None)
        if given and r is not mat or not isinstance(r, Mat):
            raise OutOfReach('result of %s' % name)
        src = [o for i, o in w.base.values()]
        if len(src) != 1:
            raise OutOfReach('not exactly one state was looked at')
        w.src = src[0]
        k = len(z.extra)
        ent = spec(z, w.src, d)
        return w, ent, z.extra[k:], r
    paths = z.explore(run, limit=2000)
    return compare('%s%s: what an amplitude adds for a state is its operator product' % (name, ' (given matrix)' if given else ''),
                   z, paths, None, lambda w: w.src, z3.Int('nmany'))


def tunnel(z, s, d):
    """tleads[(l, i)]: t c+_i + conj(t) c_i in lead l."""
    l, i = d.key
    a = Term(z, s).apply(i, True)
    r = Term(z, s).apply(i, False)
    return [(z3.And(*a.guard), a.o, s, [l], a.amp(d.value)), (z3.And(*r.guard), r.o, s, [l], r.amp(conj(d.value)))]


def phonon(z, s, d):
    """velph[(b, j, i)]: v c+_j c_i in bath b."""
    b, j, i = d.key
    t = Term(z, s).apply(i, False).apply(j, True)
    return [(z3.And(*t.guard), t.o, s, [b], t.amp(d.value))]


def lemmas():
    """Consequences of the operator products for the matrices: charge selection and Hermiticity."""
    r = []
    z = Z.__new__(Z)
    z.extra, z.pc, z.axioms = [], [], []
    z.assume = z.extra.append
    s = Occ(z3.Int('s'))
    i, j = z3.Ints('i j')
    rng = [0 <= i, i < N, 0 <= j, j < N, N >= 1]
    s.touch(z, N)
    a = Term(z, s).apply(i, True)
    back = Term(z, a.o).apply(i, False)
    v = Cx(z3.Real('v_re'), z3.Real('v_im'))
    x = z3.Int('site')
    hy = lambda: z.extra + rng
    p, q = a.amp(v), back.amp(conj(v))
    r.append(prove('lemma: the tunnelling operator products give a Hermitian matrix', hy() + a.guard,
                   z3.And(*back.guard, back.o.at(x) == s.at(x), p.re == q.re, p.im == -q.im)))
    r.append(prove('lemma: adding a particle raises the charge by one', hy() + a.guard, a.o.pre(N) == s.pre(N) + 1))
    h = Term(z, s).apply(i, False).apply(j, True)
    hb = Term(z, h.o).apply(j, False).apply(i, True)
    p, q = h.amp(v), hb.amp(conj(v))
    r.append(prove('lemma: hopping keeps the charge', hy() + h.guard, h.o.pre(N) == s.pre(N)))
    r.append(prove('lemma: hopping and its conjugate give conjugate elements', hy() + h.guard,
                   z3.And(*hb.guard, hb.o.at(x) == s.at(x), p.re == q.re, p.im == -q.im)))
    m, n, k, l = z3.Ints('m n k l')
    rng += [z3.And(0 <= y, y < N) for y in (m, n, k, l)]
    c = Term(z, s).apply(l, False).apply(k, False).apply(n, True).apply(m, True)
    cb = Term(z, c.o).apply(m, False).apply(n, False).apply(k, True).apply(l, True)
    p, q = c.amp(v), cb.amp(conj(v))
    r.append(prove('lemma: Coulomb products keep the charge', hy() + c.guard, c.o.pre(N) == s.pre(N)))
    r.append(prove('lemma: a Coulomb product and its conjugate give conjugate elements', hy() + c.guard,
                   z3.And(*cb.guard, cb.o.at(x) == s.at(x), p.re == q.re, p.im == -q.im)))
    return r


ASSUME = {'C03': ['get_state and get_ind are inverse to each other on retained states and get_ind gives None on removed ones (C01)',
                  'the block of states contains every state of equal quantum numbers, and the amplitudes keep them',
                  'orbital labels are in range; the sums over states and amplitudes are the sums over the iterations of the loops'],
          'C04': ['get_state and get_ind are inverse to each other on retained states and get_ind gives None on removed ones (C01)',
                  'orbital labels are in range; the sums over states and amplitudes are the sums over the iterations of the loops']}


def obligations(prop, S):
    r = []
    if prop == 'C03':
        todo = [('construct_ham_coulomb', 4, coulomb, given, dict(herm_c=hc, m_less_n=ml))
                for given in (False, True) for hc in (True, False) for ml in (True, False)]
        todo += [('construct_ham_hopping', 2, hopping, given, dict(herm_hs=hh)) for given in (False, True) for hh in (True, False)]
        for x in pmap(lambda a: guarded(a[0], block_function, S, *a), todo):
            r += x
        r += lemmas()
    if prop == 'C04':
        for given in (False, True):
            r += guarded('construct_Tba', lambda: lead_function(S, 'qmeq/leadstun.py', 'construct_Tba', 2, tunnel, given, 'leads'))
            r += guarded('elph_construct_Vbbp', lambda: lead_function(S, 'qmeq/baths.py', 'elph_construct_Vbbp', 3, phonon, given, 'baths'))
        r += lemmas()[:4]
    return r
