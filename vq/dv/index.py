"""Labels of Fock states and numbering of density-matrix elements (C01, C02).  Loops are decided for one arbitrary iteration;
integer variables carried from one iteration to the next are arbitrary at its start, and what an iteration does to them is
recorded (the counters), so that the obligations are the invariants of the loops: any number of orbitals, states and charges."""
import ast, itertools
import z3
from .zx import Z, ZObj, ZArr, Fn, Raised, Cnt, Brk, Ret, SymRange, prove, num, toint
from .src import OutOfReach
from .fock import fresh, Poison, assigned
from .rotation import Prog, Check, equal, rng, as_prog, product, minmax, Prod
from .master import guarded
from .par import pmap

I, B = z3.IntSort(), z3.BoolSort()
NC, N = z3.Int('ncharge'), z3.Int('nsingle')
FILE = 'qmeq/indexing.py'
CLS = ('StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc')


def fn(name, k, sort=I):
    return z3.Function(name, *([I] * k), sort)


LEN, EL, POS, SHIFT0, SHIFT1 = fn('count', 1), fn('state', 2), fn('position', 1), fn('shift0', 1), fn('shift1', 1)


# ------------------------------------------------------------------------------------------------ loops with carried integers
def attrs_of(stmts):
    out = set()
    for st in stmts:
        for x in ast.walk(st):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                out.add((x.value.id, x.attr))
    return out


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, z3.ArithRef) and v.sort() == I


def like(n, v):
    x = fresh(n)
    return x if isint(v) else z3.Real(str(x))


def iterate(z, st, env, mod, value):
    target = assigned([ast.Assign(targets=[st.target], value=ast.Constant(0))])
    names = (assigned(st.body) | target)
    lid = next(z.loopn)
    live, attr = {}, {}
    for n in names:
        if n not in target and n in env and getattr(z, 'carry', isint)(env[n]):
            live[n] = env[n]
    for o, a in attrs_of(st.body):
        ob = env.get(o)
        if isinstance(ob, ZObj) and a in ob.attrs and isint(ob.attrs[a]):
            attr[(o, a)] = ob.attrs[a]
    sy = {n: like(n, live[n]) for n in live}
    sa = {k: fresh(k[1]) for k in attr}
    z.events.append(('enter', lid, value, dict(live, **{k[1]: v for k, v in attr.items()}), dict(sy, **{k[1]: v for k, v in sa.items()})))
    for n in names:
        env[n] = sy.get(n) if n in sy else Poison()
    for (o, a), v in sa.items():
        env[o].attrs[a] = v
    z.bind(st.target, value, env, mod, st)
    try:
        z.block(st.body, env, mod)
    except Cnt:
        pass
    except Brk:
        z.bad('break in a loop over arbitrary entries', st)
    except Ret:
        z.bad('return in a loop over arbitrary entries', st)
    if st.orelse:
        z.bad('else of a loop', st)
    after = {n: env[n] for n in sy}
    after.update({k[1]: env[k[0]].attrs[k[1]] for k in sa})
    out = {n: like(n, sy[n]) for n in sy}
    oa = {k: fresh(k[1]) for k in sa}
    z.events.append(('leave', lid, after, dict(out, **{k[1]: v for k, v in oa.items()})))
    for n in names:
        env[n] = out.get(n) if n in out else Poison()
    for (o, a), v in oa.items():
        env[o].attrs[a] = v


class Loops(object):
    """The nest of loops of one path: what was carried and what happened in which loop."""
    def __init__(self, ev):
        self.by, self.order, stack = {}, [], []
        self.top = []
        for e in ev:
            if e[0] == 'enter':
                l = dict(id=e[1], value=e[2], start=e[3], sym=e[4], events=[], parent=stack[-1] if stack else None, kids=[])
                if stack:
                    stack[-1]['kids'].append(l)
                    stack[-1]['events'].append(('loop', l))
                else:
                    self.top.append(l)
                self.order.append(l)
                stack.append(l)
            elif e[0] == 'leave':
                l = stack.pop()
                l['after'], l['exit'] = e[2], e[3]
            elif stack:
                stack[-1]['events'].append(e)
            else:
                self.top.append(e)


class Seq(object):
    """The states of one charge (or the labels of one block)."""
    def __init__(self, owner, c, length=None, elem=None):
        self.owner, self.c = owner, c
        self.length = length if length is not None else LEN(num(c))
        self.elem = elem or (lambda k: EL(num(c), k))

    def zlen(self, z):
        z.assume(self.length >= 0)
        return self.length

    def ztruth(self, z):
        return self.zlen(z) > 0

    def at(self, z, k):
        z.assume(z3.And(k >= 0, k < self.length))
        e = self.elem(k)
        z.facts(self, k, e)
        return e

    def zloop(self, z, st, env, mod):
        k = fresh('k')
        e = self.at(z, k)
        z.events.append(('over', self, (k,)))
        iterate(z, st, env, mod, e)

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice) or isinstance(idx[0], int) and idx[0] < 0:
            z.bad('part of a list of states', node)
        return self.at(z, num(idx[0]))

    def zlist(self, z):
        return self


class Pair(object):
    def __init__(self, seq, kind):
        self.seq, self.kind = seq, kind

    def zloop(self, z, st, env, mod):
        k, l = fresh('k'), fresh('l')
        a, b = self.seq.at(z, k), self.seq.at(z, l)
        z.assume({'combinations': k < l, 'permutations': k != l, 'product': z3.BoolVal(True), 'with': k <= l}[self.kind])
        z.events.append(('over', self, (k, l)))
        iterate(z, st, env, mod, (a, b))


def pairs(kind):
    def f(z, a, k):
        if len(a) != 2 or k or not isinstance(a[0], Seq) or a[1] != 2:
            z.bad(kind)
        return Pair(a[0], kind)
    return f


class Table(object):
    """statesdm: for every charge its states; one empty list after the last charge."""
    def __init__(self, name):
        self.name, self.tail = name, 0

    def zget(self, z, idx, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('part of the table of states', node)
        c = num(idx[0])
        z.assume(LEN(c) >= 0)
        return Seq(self, c)

    def zlist(self, z):
        return Table(self.name + '!copy')

    def zbin(self, z, op, o, flip, node):
        if op == 'Add' and not flip and o == [[]]:
            t = Table(self.name if self.name.endswith('!copy') else self.name + '!copy')
            z.events.append(('append', t))
            return t
        z.bad('operator on the table of states', node)

    def zattr(self, z, n, node):
        if n == 'append':
            def f(z, a, k):
                if a != [[]]:
                    z.bad('append', node)
                z.events.append(('append', self))
            return Fn(f)
        z.bad('attribute %s of the table of states' % n, node)


class Filled(object):
    """np.ones / zeros / full: an array with one value, whose assignments are recorded."""
    def __init__(self, size, v):
        self.size, self.v, self.name = size, v, None

    def zbin(self, z, op, o, flip, node):
        if op == 'Mult' and isinstance(o, (int, float)):
            return Filled(self.size, self.v * o)
        if op == 'Sub' and isinstance(o, (int, float)) and not flip:
            return Filled(self.size, self.v - o)
        z.bad('operator %s on an array' % op, node)

    def zset(self, z, idx, v, node):
        if len(idx) != 1 or isinstance(idx[0], slice):
            z.bad('part of an array', node)
        z.events.append(('write', self, num(idx[0]), v))

    def zget(self, z, idx, node):
        z.bad('the numbering is read while it is made', node)


class Dic(object):
    def zattr(self, z, n, node):
        if n == 'update':
            def f(z, a, k):
                if len(a) != 1 or not isinstance(a[0], dict) or len(a[0]) != 1:
                    z.bad('update', node)
                (key, v), = a[0].items()
                z.events.append(('write', self, key, v))
            return Fn(f)
        z.bad('attribute %s of a dictionary' % n, node)

    def zset(self, z, idx, v, node):
        z.events.append(('write', self, idx[0], v))


class Qn(object):
    """ind_qn: quantum numbers of a label, qn_ind: label of quantum numbers; inverse to each other."""
    def __init__(self, n, back):
        self.n, self.back = n, back

    def zget(self, z, idx, node):
        if self.back:
            a = idx[0] if len(idx) == 1 and isinstance(idx[0], tuple) else tuple(idx)
            if len(a) != self.n:
                z.bad('quantum numbers', node)
            a = [num(x) for x in a]
            e = fn('label_of', self.n)(*a)
            for i in range(self.n):
                z.assume(fn('qn%d' % i, 1)(e) == a[i])
            z.assume(z3.And(POS(e) >= 0, POS(e) < LEN(a[0])))
            return e
        if len(idx) != 1:
            z.bad('quantum numbers', node)
        return tuple(fn('qn%d' % i, 1)(num(idx[0])) for i in range(self.n))


class SDict(object):
    """{key: value} literal with a symbolic key."""


def engine(S, con=None):
    z = Z(S)
    z.contracts = dict({'range': rng, 'itertools.combinations': pairs('combinations'), 'itertools.permutations': pairs('permutations'),
                        'combinations': pairs('combinations'), 'permutations': pairs('permutations'), 'itertools.product': product,
                        'itertools.combinations_with_replacement': pairs('with'), 'min': minmax('min'), 'max': minmax('max'),
                        'np.ones': lambda z, a, k: Filled(a[0], 1), 'np.zeros': lambda z, a, k: Filled(a[0], 0),
                        'np.full': lambda z, a, k: Filled(a[0], a[1])}, **(con or {}))
    z.iterate = iterate
    z.loopn = itertools.count()

    def ev_Dict(e, env, mod):
        return dict((z.ev(k, env, mod), z.ev(v, env, mod)) for k, v in zip(e.keys, e.values)) if e.keys else Dic()
    z.ev_Dict = ev_Dict
    z.facts = lambda seq, k, e: None
    return z


def reset(z):
    z.loopn = itertools.count()


def obj(S, cls, indexing):
    m = S.module(FILE)
    if cls not in m.classes:
        raise OutOfReach('class %s' % cls)
    nq = {'ssq': 4, 'sz': 3}.get(indexing, 2)
    a = dict(indexing=indexing, ncharge=NC, nsingle=N, statesdm=Table('statesdm'), ind_qn=Qn(nq, False), qn_ind=Qn(nq, True),
             npauli_=z3.Int('npauli_'), ndm0_=z3.Int('ndm0_'), ndm1_=z3.Int('ndm1_'),
             lenlst=ZArr('count', 1, 'int', base=lambda i: LEN(i)), dictdm=ZArr('position', 1, 'int', base=lambda i: POS(i)),
             shiftlst0=ZArr('shift0', 1, 'int', base=lambda i: SHIFT0(i)), shiftlst1=ZArr('shift1', 1, 'int', base=lambda i: SHIFT1(i)))
    return ZObj(cls, (m, m.classes[cls]), a)


def method(S, cls, name):
    m = S.module(FILE)
    r = S.method(m, m.classes[cls], name)
    if r is None:
        raise OutOfReach('method %s' % name)
    return r


# ------------------------------------------------------------------------------------------------ numbering (set_mapdm)
def raw(cls, b, bp, c):
    if cls == 'StateIndexingPauli':
        return POS(b) + SHIFT0(c)
    return LEN(c) * POS(b) + POS(bp) + SHIFT0(c)


def writes(events, arrays):
    out = {n: [] for n in arrays.values()}
    for e in events:
        if e[0] == 'write':
            n = arrays.get(id(e[1]))
            if n is None:
                raise OutOfReach('an array that is not kept')
            out[n].append((e[2], e[3]))
    return out


def expect(ck, hy, w, cls, groups, counter, what):
    """groups: [((b, bp, c), conj, marked)]: the elements numbered in this iteration, all with the counter."""
    m, bl, cj = w['mapdm0'], w['booldm0'], w.get('conjdm0', [])
    if len(m) != len(groups):
        ck.fail('%s: %d elements get a number where %d belong' % (what, len(m), len(groups)))
        return
    for i, v in m:
        ck.eq(hy, num(v), counter, '%s: number of an element' % what)
    left, order = list(m), []
    for g in groups:
        t = raw(cls, *g[0])
        k = next((j for j, (i, v) in enumerate(left) if equal(hy, i, t)), None)
        if k is None:
            ck.fail('%s: an element gets no number' % what)
            return
        left.pop(k)
        ck.n += 1

    def flags(arr, name, want):
        for g in groups:
            t = raw(cls, *g[0])
            v = [x for i, x in arr if equal(hy, i, t)]
            if not v:
                v = [False]
            x = v[-1]
            if not isinstance(x, bool):
                raise OutOfReach('value of a flag')
            ck.n += 1
            if want(g) is not None and x != want(g):
                ck.fail('%s: %s of an element is %s' % (what, name, x))
        if any(not any(equal(hy, i, raw(cls, *g[0])) for g in groups) for i, x in arr):
            ck.fail('%s: %s of another element' % (what, name))
    flags(bl, 'mark of independence', lambda g: g[2])
    if 'conjdm0' in w:
        flags(cj, 'mark of conjugation', lambda g: g[1])


def carry_ok(ck, hy, outer, inner, what):
    """The counter goes through the outer loop only by its inner loop."""
    if not equal(hy, num(inner['start'].get('counter', -99)), num(outer['sym'].get('counter', -98))):
        ck.fail('%s: the counter is changed outside the loop over the states' % what)
    if not equal(hy, num(outer['after'].get('counter', -99)), num(inner['exit'].get('counter', -98))):
        ck.fail('%s: the counter is changed outside the loop over the states' % what)
    ck.n += 2


def mapdm(S, cls, indexing):
    ck_name = '%s.set_mapdm (%s): numbers run without gaps, a conjugate pair or multiplet shares one' % (cls, indexing)
    z = engine(S)

    def run(z):
        reset(z)
        z.facts = lambda seq, k, e: z.assume(z3.And(POS(e) == k, fn('qn0', 1)(e) == num(seq.c)))
        o = obj(S, cls, indexing)
        z.assume(NC >= 1)
        z.inline(method(S, cls, 'set_mapdm'), [o], {}, None)
        return o
    ck = Check(ck_name, z)
    sites = dict(first=0, second=0)
    for pc, r, ev in z.explore(run, limit=400):
        hy = list(z.axioms) + pc
        s = z3.Solver()
        s.add(*hy)
        if s.check() == z3.unsat:
            continue
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        o = r
        arr = {}
        for n in ('mapdm0', 'booldm0', 'conjdm0', 'inddm0'):
            v = o.attrs.get(n)
            if v is not None:
                arr[id(v)] = n
        mp = o.attrs['mapdm0']
        if not isinstance(mp, Filled) or not isinstance(o.attrs['booldm0'], Filled):
            raise OutOfReach('arrays of the numbering')
        size = 'npauli_' if cls == 'StateIndexingPauli' else 'ndm0_'
        ck.eq(hy, num(mp.size), z3.Int(size), 'size of the numbering')
        ck.eq(hy, num(o.attrs['booldm0'].size), z3.Int(size), 'size of the marks')
        if mp.v != -1:
            ck.fail('left-out elements are not marked by -1')
        L = Loops(ev)
        tops = [l for l in L.top if isinstance(l, dict)]
        if len(tops) != (1 if cls == 'StateIndexingPauli' else 2) or any(len(l['kids']) != 1 for l in tops):
            raise OutOfReach('loops')
        # loops over charges
        for n, l in enumerate(tops):
            p = next((e[2] for e in ev if e[0] == 'prog' and e[1].eq(l['value']) if isint(l['value'])), None)
            if p is None:
                raise OutOfReach('loop over the charges')
            ck.holds(hy, z3.And(p.lo == 0, p.hi == NC, p.step == 1), 'every charge')
            carry_ok(ck, hy, l, l['kids'][0], ('populations', 'coherences')[n])
        ck.eq(hy, num(tops[0]['start']['counter']), num(0), 'first number')
        ck.eq(hy, num(o.attrs['npauli']), tops[0]['exit']['counter'], 'number of populations')
        if len(tops) == 2:
            ck.eq(hy, num(tops[1]['start']['counter']), tops[0]['exit']['counter'], 'numbers of coherences follow')
            ck.eq(hy, num(o.attrs['ndm0']), tops[1]['exit']['counter'], 'number of elements')
            ck.eq(hy, num(o.attrs['ndm0r']), num(o.attrs['npauli']) + 2*(num(o.attrs['ndm0']) - num(o.attrs['npauli'])), 'number of real unknowns')
            ck.eq(hy, num(o.attrs['ndm1']), z3.Int('ndm1_'), 'number of amplitudes')
        over = {}
        for e in ev:
            if e[0] == 'over':
                over[len(over)] = e
        qn = lambda i, b: fn('qn%d' % i, 1)(b)
        for n, l in enumerate(tops):
            it = l['kids'][0]
            c = l['value']
            v = it['value']
            ov = [e for e in l['events'] if e[0] == 'over']
            if len(ov) != 1:
                raise OutOfReach('loop over the states')
            sq = ov[0][1]
            seq = sq.seq if isinstance(sq, Pair) else sq
            if not isinstance(seq, Seq) or not equal(hy, num(seq.c), num(c)):
                raise OutOfReach('loop over the states')
            kind = sq.kind if isinstance(sq, Pair) else None
            want = None if n == 0 else 'permutations' if cls == 'StateIndexingDMc' else 'combinations'
            if kind != want:
                raise OutOfReach('pairs of states')
            b, bp = (v, v) if n == 0 else v
            ctr = it['sym']['counter']
            w = writes(it['events'], arr)
            if len(it['kids']) > 1:
                raise OutOfReach('loops')
            sub = it['kids'][0] if it['kids'] else None
            ws = writes(sub['events'], arr) if sub else None
            what = ('populations', 'coherences')[n]
            inc = ctr
            low = qn(2, b) == -qn(1, b)
            if indexing == 'ssq':
                sel = low if n == 0 else z3.And(qn(1, b) == qn(1, bp), qn(2, b) == qn(2, bp), low)
            elif indexing == 'sz' and n == 1:
                sel = qn(1, b) == qn(1, bp)
            else:
                sel = z3.BoolVal(True)
            touched = any(w[a] for a in w)
            from .fermion import split
            for h, (on,) in split(hy, [sel]):
                if not on:
                    if touched or sub is not None and any(ws[a] for a in ws):
                        ck.fail('%s: an element that is left out or depends on another one gets a number of its own' % what)
                    ck.eq(h, num(it['after']['counter']), ctr, '%s: the counter stays' % what)
                    continue
                sites[('first', 'second')[n]] += 1

                def group(b, bp, mark):
                    if n == 0:
                        return [((b, b, c), True, mark)]
                    if cls == 'StateIndexingDMc':
                        return [((b, bp, c), True, mark)]
                    return [((bp, b, c), False, False), ((b, bp, c), True, mark)]
                expect(ck, h, w, cls, group(b, bp, True), ctr, what)
                if 'inddm0' in w:
                    if len(w['inddm0']) < 1:
                        ck.fail('%s: the element of the number is not kept' % what)
                    else:
                        ck.eq(h, num(w['inddm0'][-1][0]), ctr, '%s: number whose element is kept' % what)
                        ck.eq(h, tuple(w['inddm0'][-1][1]), (b, bp), '%s: element that is kept' % what)
                ck.eq(h, num(it['after']['counter']), ctr + 1, '%s: the counter goes up by one' % what)
                if indexing == 'ssq':
                    if sub is None:
                        ck.fail('%s: the other members of the multiplet get no number' % what)
                        continue
                    p = next((e for e in it['events'] if e[0] == 'prog'), None)
                    t = z3.Int('sz_any')
                    if p is None or p[2].step != 2:
                        raise OutOfReach('loop over the multiplet')
                    ck.holds(h, z3.And(t > qn(1, b), t <= qn(2, b), (t - qn(1, b)) % 2 == 0) == z3.And(t >= p[2].lo, t < p[2].hi, (t - p[2].lo) % 2 == 0),
                             '%s: every member of the multiplet' % what)
                    lab = lambda b: fn('label_of', 4)(qn(0, b), p[1], qn(2, b), qn(3, b))
                    expect(ck, h, ws, cls, group(lab(b), lab(bp), False), sub['sym'].get('counter', ctr), '%s of a multiplet' % what)
                    if 'counter' in sub['sym']:
                        raise OutOfReach('counter of the multiplet')
                elif sub is not None:
                    raise OutOfReach('loops')
    if not sites['first'] or len(tops) == 2 and not sites['second']:
        ck.und = 'no iteration of a loop gives a number'
    return ck.out()


# ------------------------------------------------------------------------------------------------ positions and shifts
def positions(S, cls):
    """set_dictdm: invariants of both loops."""
    z = engine(S, {'%s.set_mapdm' % c: (lambda z, a, k: z.events.append(('set_mapdm',))) for c in CLS})

    def run(z):
        reset(z)
        o = obj(S, cls, 'charge')
        if cls == 'StateIndexingPauli':
            o.attrs.pop('lenlst')
            o.attrs.pop('shiftlst1')
        z.assume(NC >= 1)
        z.inline(method(S, cls, 'set_dictdm'), [o], {}, None)
        return o
    ck = Check('%s.set_dictdm: positions count the states of a charge, shifts add up the sizes of the blocks' % cls, z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        o, L = r, Loops(ev)
        tops = [l for l in L.top if isinstance(l, dict)]
        if len(tops) != 1 or len(tops[0]['kids']) != 1:
            raise OutOfReach('loops')
        out, it = tops[0], tops[0]['kids'][0]
        c = out['value']
        p = next((e[2] for e in ev if e[0] == 'prog' and e[1].eq(c)), None)
        if p is None:
            raise OutOfReach('loop over the charges')
        ck.holds(hy, z3.And(p.lo == 0, p.hi == NC, p.step == 1), 'every charge')
        ov = [e for e in out['events'] if e[0] == 'over']
        if len(ov) != 1 or not isinstance(ov[0][1], Seq) or not equal(hy, num(ov[0][1].c), c):
            raise OutOfReach('loop over the states')
        if 'counter' not in it['sym']:
            raise OutOfReach('counter')
        ck.eq(hy, num(it['start']['counter']), num(0), 'position of the first state')
        ck.eq(hy, num(it['after']['counter']), it['sym']['counter'] + 1, 'position of the next state')
        d = o.attrs['dictdm'].log
        if len(d) != 1:
            ck.fail('%d positions are kept where one belongs' % len(d))
        else:
            ck.eq(hy, num(d[0][0][0]), it['value'], 'state whose position is kept')
            ck.eq(hy, num(d[0][1]), it['sym']['counter'], 'position of a state')
        n = LEN(c)
        size = n if cls == 'StateIndexingPauli' else n * n

        def one(a, i, v, what, cond=None):
            l = o.attrs[a].log
            h = hy + ([cond] if cond is not None else [])
            s = z3.Solver()
            s.add(*h)
            if s.check() == z3.unsat:
                if l:
                    ck.fail('%s is set after the last charge' % what)
                return
            if len(l) != 1:
                ck.fail('%s: %d assignments' % (what, len(l)))
                return
            ck.eq(h, num(l[0][0][0]), i, '%s: place' % what)
            ck.holds(hy, z3.And(num(l[0][0][0]) >= 0, num(l[0][0][0]) < {'shiftlst0': NC + 1}.get(a, NC)), '%s: place in the array' % what)
            ck.eq(h, num(l[0][1]), v, '%s: value' % what)
        one('shiftlst0', c + 1, SHIFT0(c) + size, 'shift of the next charge')
        if cls != 'StateIndexingPauli':
            one('lenlst', c, n, 'number of states')
            one('shiftlst1', c + 1, SHIFT1(c) + n * LEN(c + 1), 'shift of the next amplitudes', c < NC - 1)
        if not L.top or L.top[-1] != ('set_mapdm',):
            ck.fail('the numbering is not made anew at the end')
        ck.n += 1
    return ck.out()


def states(S, cls):
    """set_statesdm: the table is copied, one empty charge is added, the counts are the totals of the shifts."""
    z = engine(S, {'%s.set_dictdm' % c: (lambda z, a, k: z.events.append(('set_dictdm', dict(a[0].attrs)))) for c in CLS})

    def run(z):
        reset(z)
        o = obj(S, cls, 'charge')
        o.attrs['statesdm'] = None
        t = Table('given')
        z.assume(NC >= 1)
        z.inline(method(S, cls, 'set_statesdm'), [o, t], {}, None)
        return o, t
    ck = Check('%s.set_statesdm: own table of states, counts are the totals of the blocks' % cls, z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if isinstance(r, Raised):
            raise OutOfReach('raises %s' % r.what)
        o, t = r
        L = Loops(ev)
        tops = [l for l in L.top if isinstance(l, dict)]
        if len(tops) != 1 or tops[0]['kids']:
            raise OutOfReach('loops')
        l = tops[0]
        c = l['value']
        p = next((e[2] for e in ev if e[0] == 'prog' and e[1].eq(c)), None)
        if p is None:
            raise OutOfReach('loop over the charges')
        ck.holds(hy, z3.And(p.lo == 0, p.hi == NC, p.step == 1), 'every charge')
        tab = o.attrs['statesdm']
        if tab is t:
            ck.fail('the caller\'s list is kept and made longer')
        elif not isinstance(tab, Table) or tab.name != 'given!copy':
            raise OutOfReach('table of states')
        ap = [e for e in ev if e[0] == 'append']
        if len(ap) != 1 or ap[0][1] is not tab:
            ck.fail('not one empty charge is added')
        n = LEN(c)
        inc = {'npauli_': n}
        if cls != 'StateIndexingPauli':
            inc['ndm0_'] = n * n
            inc['ndm1_'] = z3.If(c < NC - 1, n * LEN(c + 1), 0)
        for a, v in inc.items():
            if a not in l['sym']:
                ck.fail('%s is not counted' % a)
                continue
            ck.eq(hy, num(l['start'][a]), num(0), '%s: start' % a)
            ck.eq(hy, num(l['after'][a]), l['sym'][a] + v, '%s: what a charge adds' % a)
        sd = [e for e in L.top if isinstance(e, tuple) and e[0] == 'set_dictdm']
        if len(sd) != 1:
            ck.fail('positions and numbers are not made anew')
        else:
            for a in inc:
                if a in l['exit'] and not equal(hy, num(sd[0][1][a]), l['exit'][a]):
                    ck.fail('%s is changed before the positions are made' % a)
        if o.attrs.get('states_changed') is not True:
            ck.fail('the change of states is not announced')
        ck.n += 3
    return ck.out()


def lookup(S, cls):
    out = []
    m = S.module(FILE)
    z = engine(S)
    b, bp, c = z3.Ints('b bp c')
    names = {0: None, 1: 'mapdm0', 2: 'booldm0'}
    if cls == 'StateIndexingDM':
        names[3] = 'conjdm0'
    for t, n in names.items():
        def run(z):
            o = obj(S, cls, 'charge')
            for a in ('mapdm0', 'booldm0', 'conjdm0'):
                o.attrs[a] = ZArr(a, 1, 'int' if a == 'mapdm0' else 'bool')
            return z.inline(method(S, cls, 'get_ind_dm0'), [o, b, bp, c], {'maptype': t}, None)
        ck = Check('%s.get_ind_dm0: maptype %d' % (cls, t), z)
        for pc, r, ev in z.explore(run):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            w = raw(cls, b, bp, c)
            if n is not None:
                w = z3.Function(n, I, I if n == 'mapdm0' else B)(w)
            if not isinstance(r, z3.ExprRef):
                raise OutOfReach('result')
            ck.holds(list(z.axioms) + pc, r == w, 'value')
        out.append(ck.out())
    if cls != 'StateIndexingPauli':
        def run(z):
            o = obj(S, cls, 'charge')
            return z.inline(method(S, cls, 'get_ind_dm1'), [o, bp, b, c], {}, None)
        ck = Check('%s.get_ind_dm1' % cls, z)
        for pc, r, ev in z.explore(run):
            if isinstance(r, Raised):
                raise OutOfReach('raises %s' % r.what)
            ck.holds(list(z.axioms) + pc, r == LEN(c) * POS(bp) + POS(b) + SHIFT1(c), 'value')
        out.append(ck.out())
    return out


def lemmas():
    """The raw index is injective and in range, by induction over the charges."""
    r = []
    n, p, q, p2, q2, m = z3.Ints('n p q p2 q2 m')
    box = [n >= 0, p >= 0, p < n, q >= 0, q < n, p2 >= 0, p2 < n, q2 >= 0, q2 < n]
    r.append(prove('lemma: n*p+q is injective for q < n (rows)', box + [p < p2, n*(p + 1) <= n*p2], n*p + q < n*p2 + q2))
    r.append(prove('lemma: multiplication is monotone', [n >= 0, p + 1 <= p2, z3.Implies(p2 == p + 1, z3.BoolVal(True))],
                   n*(p2 - (p + 1)) >= 0))
    r.append(prove('lemma: n*p+q is injective for q < n (columns)', box + [p == p2, n*p + q == n*p2 + q2], q == q2))
    r.append(prove('lemma: n*p+q < n*n', [n >= 0, p >= 0, p + 1 <= n, q >= 0, q < n, n*(p + 1) <= n*n], z3.And(n*p + q >= 0, n*p + q < n*n) if False else n*p + q < n*n))
    r.append(prove('lemma: m*p+q < m*k', [m >= 0, p >= 0, p + 1 <= n, q >= 0, q < m, m*(p + 1) <= m*n], m*p + q < m*n))
    a, c, d = z3.Ints('a c d')
    sh = z3.Function('shift', I, I)
    size = z3.Function('size', I, I)
    r.append(prove('lemma: blocks of earlier charges end before later ones begin (induction step)',
                   [sh(d) >= sh(c) + size(c), sh(d + 1) == sh(d) + size(d), size(d) >= 0, c < d], sh(d + 1) >= sh(c) + size(c)))
    r.append(prove('lemma: blocks of earlier charges end before later ones begin (induction start)', [sh(c + 1) == sh(c) + size(c)], sh(c + 1) >= sh(c) + size(c)))
    i, j = z3.Ints('i j')
    r.append(prove('lemma: elements of different charges have different raw indices',
                   [i >= sh(c), i < sh(c) + size(c), j >= sh(d), j < sh(d) + size(d), sh(d) >= sh(c) + size(c)], i < j))
    t = z3.Function('total', I, I)
    r.append(prove('lemma: the total count is the end of the last block (induction step)',
                   [t(c) == sh(c), t(c + 1) == t(c) + size(c), sh(c + 1) == sh(c) + size(c)], t(c + 1) == sh(c + 1)))
    return r


ASSUME = {'C02': ['every state belongs to the list of one charge, without repetition (C01)',
                  'total-spin indexing: all members of a multiplet are retained, and the quantum-number dictionaries are inverse to each other',
                  'numbers of different iterations differ because the counter goes up by one in each iteration that gives a number '
                  '(induction over the iterations, from the obligations on one arbitrary iteration); 64-bit integers are integers']}


NM, NL = z3.Int("nmany"), z3.Int("nleads")


def created(S, cls):
    """__init__: tables of zeros of the sizes that set_dictdm fills, then every state is retained."""
    def base(z, a, k):
        o = a[0]
        z.events.append(('base', tuple(a[1:])))
        o.attrs.update(nsingle=N, ncharge=NC, nmany=NM, chargelst=Tokens('chargelst'), indexing='Lin', symmetry=None, nleads=NL)
    z = engine(S, {'factorial': lambda z, a, k: z3.FreshReal('factorial'), 'math.factorial': lambda z, a, k: z3.FreshReal('factorial'),
                   'np.math.factorial': lambda z, a, k: z3.FreshReal('factorial'), 'int': lambda z, a, k: fresh('int'),
                   'StateIndexing.__init__': base, cls + '.set_statesdm': lambda z, a, k: z.events.append(('states', a[1] if len(a) > 1 else None)),
                   'np.zeros': lambda z, a, k: Filled(a[0][0] if isinstance(a[0], tuple) and len(a[0]) == 1 else a[0], 0)})
    m = S.module(FILE)
    want = {'shiftlst0': NC + 1, 'dictdm': NM}
    if cls != 'StateIndexingPauli':
        want.update(shiftlst1=NC, lenlst=NC)

    def run(z):
        reset(z)
        z.assume(z3.And(N >= 1, NC == N + 1, NM >= 1))
        o = ZObj(cls, (m, m.classes[cls]), {})
        args = (N, 'Lin', None, NL)
        z.inline(method(S, cls, '__init__'), [o] + list(args), {}, None)
        return o, args
    ck = Check('%s.__init__: tables of zeros for every charge and every state, then all states are retained' % cls, z)
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if isinstance(r, Raised):
            raise OutOfReach('raises')
        o, args = r
        b = [e for e in ev if e[0] == 'base']
        st = [e for e in ev if e[0] == 'states']
        if len(b) != 1 or b[0][1] != args or len(st) != 1:
            raise OutOfReach('calls')
        if not isinstance(st[0][1], Tokens) or st[0][1].name != 'chargelst':
            raise OutOfReach('states')
        for k, n in want.items():
            v = o.attrs.get(k)
            if not isinstance(v, Filled):
                raise OutOfReach(k)
            if v.v != 0 and k == 'dictdm':
                ck.fail('%s is not filled with zeros' % k)
            ck.holds(hy, num(v.size) >= n, 'length of %s' % k)
            if k in ('shiftlst0', 'shiftlst1'):
                ck.holds(hy, z3.BoolVal(v.v == 0), 'first shift')
    return ck.out()


class Tokens(object):
    def __init__(self, name):
        self.name = name


def obligations(prop, S):
    r = []
    if prop == 'C02':
        for cls in CLS:
            r += guarded('%s.__init__' % cls, lambda: created(S, cls))
            for ix in ('Lin', 'charge', 'sz', 'ssq'):
                r += guarded('%s.set_mapdm (%s)' % (cls, ix), lambda: mapdm(S, cls, ix))
            r += guarded('%s.set_dictdm' % cls, lambda: positions(S, cls))
            r += guarded('%s.set_statesdm' % cls, lambda: states(S, cls))
            r += guarded('%s.get_ind_dm0' % cls, lambda: lookup(S, cls))
        r += lemmas()
    return r


SELF = {'C02': [(FILE, 'StateIndexingDM', 'set_mapdm'), (FILE, 'StateIndexingDM', 'set_dictdm'), (FILE, 'StateIndexingPauli', 'set_mapdm')]}
