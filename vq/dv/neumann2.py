"""Obligations about the second-order von Neumann approach (pure Python and compiled), on its real bodies.

The equations (generate_kern, generate_current, phi1k_local, phi1k_iterate) are executed symbolically for all dots by sx.py.
A row of an array over the elements bb' of Phi[0] is represented by what it gives for an arbitrary Hermitian Phi[0]; energy
integrals Phi[1]_cb are arbitrary complex functions of the lead and of c, b, so that what is proved holds in every iteration."""
import ast, time, z3
from .sp import P, Var, poly, atom, SYM, canon
from .src import OutOfReach
from . import sx, master
from .sx import Executor, Chg, Obj, Arr, NLead, NCh, Row, D0, D1, Vec, Effect, DIMS, out, NUM, Idx, Cnt
from .master import zero, bool_ob, guarded, vacuous

FILE = {False: 'qmeq/approach/base/neumann2.py', True: 'qmeq/approach/base/c_neumann2.pyx'}
NAME = {False: 'py2vN', True: '2vN'}
DIMS.update(phi1_phi0=2, e_phi1_phi0=2, phi1_phi0_conj=2, kernrow=1, h_phi1=2, Ek_grid_ext=1, Ek_grid=1, fkp=2, fkm=2, kern1k_inv=4, phi1k_delta=4, hfkp=2, hfkm=2)
DIMS.update({'loc:kern0': 2, 'loc:kern1': 2, 'loc:shuffle': 2, 'loc:term': 0, 'row:kern0': 1})
SYM.update(Ek_grid_ext='real', fkp='real', fkm='real')
FN = ['fn:func_2vN:%s' % h for h in ('hfkp', 'hfkm')]
sx.KNOWN.update({'phi1_phi0', 'e_phi1_phi0', 'hu0', 'u0', 'par:k', 'par:kpnt_left', 'loc:kern0', 'loc:kern1', 'row:kern0', 'Ek_grid_ext', 'Ek_grid', 'fkp', 'fkm', 'hfkp', 'hfkm', 'kernrow', 'h_phi1'} | set(FN))


class Elt(object):
    """Position of an element of Phi[0], the same in every operand."""


class Mat(object):
    """Matrix given by the operations that made it."""
    def __init__(self, *d):
        self.d = d


class NExecutor(Executor):
    def __init__(self, S, compiled, cls, first=None):
        mod = S.module(FILE[compiled])
        if cls not in mod.classes:
            raise OutOfReach('class %s' % cls)
        Executor.__init__(self, S, (mod, mod.classes[cls]), None, compiled)
        self.fills, self.reads, self.matstores, self.rowset, self.seen = {}, [], [], {}, {}
        self.rebound = False

    def obj_attr(self, b, name, node, env, mod):
        n = name.lstrip('_')
        if n == 'ndm0':
            return Elt()
        if n == 'kern':
            return Arr('kernrow')
        if n in ('phi1k_delta', 'kern1k_inv', 'phi1k', 'phi1k_delta_old', 'hphi1k_delta'):
            return Arr(n)
        if n in ('phi0',):
            return Arr('phi0')
        return Executor.obj_attr(self, b, name, node, env, mod)

    def rng(self, args, node):
        if len(args) == 1 and isinstance(args[0], Elt):
            return [([], args[0], None)]
        return Executor.rng(self, args, node)

    def flat(self, idx, node=None):
        r = []
        for x in idx:
            if isinstance(x, Elt):
                continue
            if isinstance(x, (P, Obj)) and not (isinstance(x, P) and x.is_const()):
                r.append(self.num(x, node))
            else:
                r += Executor.flat(self, (x,), node)
        return tuple(r)

    def read(self, a, node=None):
        if a.name in ('phi1', 'h_phi1'):
            src = self.rowset.get(a.name)
            e = [x for x in self.effects if x.arr == a.name]
            if src is None or len(e) != 1 or len(e[0].idx) != 1 or e[0].idx[0] not in e[0].bound or len(e[0].bound) != 1 or not e[0].guard.is_const():
                out('the way %s is set' % a.name, node)
            l, c, b = self.flat(a.idx, node)
            return atom(src, l, c, b)
        if a.name == 'phi1_phi0_conj':
            return atom('phi1_phi0', *self.flat(a.idx, node)).conj()
        if a.name == 'loc:term':
            return self.rowsum(node)
        if a.name in ('fkp', 'fkm', 'hfkp', 'hfkm', 'Ek_grid_ext', 'phi1_phi0', 'e_phi1_phi0') and len(a.idx) == DIMS[a.name]:
            return atom(a.name, *self.flat(a.idx, node))
        return Executor.read(self, a, node)

    def by_reference(self, v):
        return isinstance(v, Arr) and v.name == 'loc:term'

    # the accumulator `term`: a row over the elements of Phi[0]
    def fill_term(self, node):
        self.effect('loc:term', 'fill', (), poly(0), node)
        self.fills[id(self.effects[-1])] = len(self.scope)

    def rowsum(self, node):
        from .sp import fix_charges
        tot = poly(0)
        for k in range(len(self.effects)-1, -1, -1):
            e = self.effects[k]
            if e.arr != 'loc:term':
                continue
            if e.kind == 'fill':
                if not self.guard_covers(e.guard):
                    out('accumulator cleared under a condition', node)
                self.reads.append((len(self.effects), k, self.fills[id(e)], len(self.scope), self.guard))
                return tot
            m = {v: Var(v.sort, v.charge, v.name) for v in e.bound}
            fix_charges(m)
            v = (e.val * e.guard).subst(m)
            for x in m.values():
                v = v.sum(x)
            tot = tot + v
        out('accumulator that was never cleared', node)

    def call_method(self, b, name, args, node, env):
        if isinstance(b, Arr) and b.name == 'loc:term' and name == 'fill':
            if self.num(args[0], node).t:
                out('fill', node)
            return self.fill_term(node)
        return Executor.call_method(self, b, name, args, node, env)

    def call_builtin(self, n, args, kw, node, env, mod):
        if n in ('np.zeros', 'np.zeros_like', 'np.empty'):
            return Arr('new:' + n)
        if n in ('np.conjugate', 'np.conj') and isinstance(args[0], Arr) and args[0].name in ('phi1_phi0', 'e_phi1_phi0') and not args[0].idx:
            return Mat('conj', args[0].name)
        if n == 'np.linalg.inv' and isinstance(args[0], Arr) and args[0].name == 'loc:kern1' and not args[0].idx:
            return Mat('inv', 'kern1')
        if n in ('np.dot', 'np.matmul') and len(args) == 2:
            a, b = args
            if isinstance(a, Mat) and a.d == ('conj', 'phi1_phi0') and isinstance(b, Arr) and b.name == 'loc:shuffle' and not b.idx:
                self.seen['shuffle'] = list(self.effects)
                return Arr('phi1_phi0_conj')
            if isinstance(a, Arr) and a.name in ('phi1_phi0', 'e_phi1_phi0') and len(a.idx) == 1 and isinstance(b, Arr) and b.name == 'phi0' and not b.idx:
                return Mat('rows', a.name, a.idx[0])
            def mat(x):
                if isinstance(x, Mat):
                    return x.d
                if isinstance(x, Arr) and x.name == 'loc:kern0' and not x.idx:
                    return 'kern0'
                if isinstance(x, Arr) and x.name == 'kern1k_inv' and len(x.idx) >= 2 and all(isinstance(i, slice) for i in x.idx[2:]):
                    return ('stored inverse',) + tuple(str(self.flat((i,), node)) for i in x.idx[:2])
                out('matrix product', node)
            return Mat('dot', mat(a), mat(b))
        return Executor.call_builtin(self, n, args, kw, node, env, mod)

    def call(self, f, args, kw, node, env, mod):
        if isinstance(f, tuple) and f and f[0] == 'bound' and f[2][2].name == 'func_2vN' and not kw and len(args) == 4:
            E, l, eta, h = args
            if not isinstance(h, Arr) or h.idx or h.name not in ('hfkp', 'hfkm') or eta not in (1, -1) or not isinstance(l, Var) or l.sort != 'lead':
                out('arguments of func_2vN', node)
            return atom('fn:func_2vN:' + h.name, self.num(E, node), l, eta)
        if isinstance(f, tuple) and f and f[0] == 'bound' and f[2][2].name == 'get_at_k1' and not kw:
            E, l, cb, conj = args[:4]
            if not isinstance(cb, D1) or conj not in (True, False) or not isinstance(l, Var) or l.sort != 'lead':
                out('arguments of get_at_k1', node)
            a = (self.num(E, node), l, cb.c, cb.b, 1 if conj else 0)
            hu, u = atom('hu0', *a), atom('u0', *a)
            if len(args) == 4 and not self.compiled:
                return (atom('pi') * hu, atom('pi') * u)
            if len(args) == 7 and self.compiled and isinstance(args[6], Arr) and args[6].name == 'loc:term' and args[5] in (1, -1):
                v = atom('pi') * self.num(args[4], node) * (hu + u.scale(0, args[5]))
                self.effect('loc:term', 'add', (), v, node)
                return None
            out('arguments of get_at_k1', node)
        return Executor.call(self, f, args, kw, node, env, mod)

    def assign_value(self, st, env, mod):
        return self.ev(st.value, env, mod) if self.special(st.targets[0], env, mod) else Executor.assign_value(self, st, env, mod)

    def special(self, t, env, mod):
        if not isinstance(t, ast.Subscript):
            return False
        b = self.ev(t.value, env, mod)
        return isinstance(b, Arr) and b.name in ('kernrow', 'loc:term', 'loc:kern0', 'phi1', 'h_phi1', 'kern1k_inv', 'phi1k_delta') and not \
            (b.name == 'loc:kern0' and self.full(t, env, mod))

    def full(self, t, env, mod):
        i = [self.slice(x, env, mod) for x in t.slice.elts] if isinstance(t.slice, ast.Tuple) else ()
        return len(i) == 2 and all(isinstance(x, (D0, D1)) for x in i)

    def assign(self, t, v, env, mod, st):
        if isinstance(t, ast.Name) and isinstance(env.get(t.id), Arr) and env[t.id].name == 'loc:term' and not (
                isinstance(v, Arr) and v.name.startswith('new:')):
            self.rebound = True
        if isinstance(t, ast.Name) and isinstance(v, Arr) and v.name.startswith('new:'):
            v = Arr('loc:' + t.id)
            env[t.id] = v
            if t.id == 'term':
                self.fill_term(st)
            return
        if isinstance(t, ast.Name) and isinstance(v, (Mat, Elt)):
            env[t.id] = v
            return
        if isinstance(t, ast.Subscript) and self.special(t, env, mod):
            b = self.ev(t.value, env, mod)
            idx = b.idx + tuple(self.slice(x, env, mod) for x in (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]))
            if b.name == 'kernrow' and len(idx) == 2 and all(isinstance(x, D0) for x in idx):
                p, r = idx
                k = (p.x, p.y)
                if any(e.arr == 'kernrow' and e.idx == k for e in self.effects):
                    out('an element of kern is set after its row was added to', st)
                self.effect('kernrow', 'add', k, self.num(v, st) * atom('rho', r.x, r.y), st)
                return
            if b.name in ('phi1', 'h_phi1') and isinstance(v, Mat) and v.d[0] == 'rows' and len(idx) == 1 and v.d[2] is idx[0]:
                self.rowset[b.name] = v.d[1]
                self.effect(b.name, 'set', (idx[0],), poly(0), st)
                return
            if b.name == 'loc:term' and idx and isinstance(idx[-1], Elt) and self.num(v, st) == poly(0):
                return self.fill_term(st)
            if b.name == 'loc:kern0' and isinstance(idx[0], D1) and (len(idx) == 1 or isinstance(idx[1], Elt)):
                x = self.num(v, st)
                self.effect('row:kern0', 'set', (idx[0].c, idx[0].b), x, st)
                return
            if b.name in ('kern1k_inv', 'phi1k_delta') and isinstance(v, (Mat, Arr)) and len(idx) >= 2 and all(isinstance(x, slice) for x in idx[2:]):
                d = v.d if isinstance(v, Mat) else v.name
                self.matstores.append((b.name, tuple(str(self.flat((i,), st)) for i in idx[:2]), d))
                return
            out('assignment to %s' % b.name, st)
        return Executor.assign(self, t, v, env, mod, st)

    def augassign(self, st, env, mod):
        if isinstance(st.target, ast.Name) and isinstance(env.get(st.target.id), Arr) and env[st.target.id].name == 'loc:term':
            op = type(st.op).__name__
            if op not in ('Add', 'Sub'):
                out('update of the accumulator', st)
            x = self.num(self.ev(st.value, env, mod), st)
            self.effect('loc:term', 'add', (), x if op == 'Add' else -x, st)
            return
        Executor.augassign(self, st, env, mod)

    def num(self, v, node=None):
        if isinstance(v, Arr) and v.name == 'loc:term':
            return self.rowsum(node)
        return Executor.num(self, v, node)

    def accumulators_clear(self):
        """Every reading of the accumulator starts from zero in every iteration of the loops around it."""
        for pos, k, depth, at, g in self.reads:
            if depth < at:      # cleared before the loop: it must be cleared again before anything else is added
                nxt = [e for e in self.effects[pos:] if e.arr == 'loc:term']
                if not nxt or nxt[0].kind != 'fill' or not (nxt[0].guard.is_const() or nxt[0].guard * g == g):
                    return False
        return True


class N2(object):
    def __init__(self, S, compiled):
        self.S, self.compiled, self.name, self.cache = S, compiled, NAME[compiled], {}

    def method(self, name, cls='Approach2vN', args=()):
        k = (name, cls)
        if k not in self.cache:
            ex = NExecutor(self.S, self.compiled, cls)
            ex.run(name, list(args))
            self.cache[k] = ex
        return self.cache[k]

    def step(self, name):
        k, l = Obj(('k',)), Var('lead')
        key = name
        if key not in self.cache:
            ex = NExecutor(self.S, self.compiled, 'TermsCalculator2vN')
            ex.scope.append(l)
            ex.run(name, [k, l] + ([Obj(('kh',))] if self.compiled else []))
            self.cache[key] = (ex, l)
        return self.cache[key]


def qxy():
    q = Var('charge')
    return q, Var('state', (q, 0)), Var('state', (q, 0))


def exchange(V):
    ex = V.method('generate_kern')
    n = V.name + '.generate_kern: the rows of the conjugates are exchanged pairwise, every pair once'
    eff = [e for e in ex.effects if e.arr == 'loc:shuffle']
    if not eff or any(e.kind != 'set' for e in eff):
        raise OutOfReach('the way the exchange matrix is made')
    if any(e.arr == 'loc:shuffle' for e in ex.effects[len(ex.seen['shuffle']):]):
        raise OutOfReach('the exchange matrix is changed after its use')
    guards = []
    for e in eff:
        if len(e.idx) != 4 or e.val.t and not (e.val.is_const() and e.val.const() == (1, 0)) or not e.val.t:
            return bool_ob(n, False, 'element %s set to %s' % (e.idx, e.val))
        a, b, c, d = e.idx
        if not (a is d and b is c):
            return bool_ob(n, False, 'element of %s and %s is one, not that of a pair and its exchanged pair' % ((a, b), (c, d)))
        guards.append((e.guard, a, b))
    bad = []
    for le, ge in ((1, 0), (0, 1), (1, 1)):      # x before, after, or the same as y
        hit = False
        for g, a, b in guards:
            tot = 0
            for (_, at), co in g.t.items():
                v = co[0]
                for x in at:
                    if x[0] == '[dom]':
                        continue
                    if x[0] not in ('[le]', '[==]') or {x[-2], x[-1]} != {a, b}:
                        raise OutOfReach('condition on a pair')
                    same = le and ge
                    v = v * (int(same) if x[0] == '[==]' else le if (x[-2] is a) else ge)
                tot += v
            hit |= bool(tot)
        if not hit:
            bad.append((le, ge))
    return bool_ob(n, not bad, 'pairs %s are left out' % bad)


def kern_trace(V):
    ex = V.method('generate_kern')
    q, b, _ = qxy()
    p = ex.content('kernrow', (b, b))
    vacuous(p, 'kern')
    return zero('%s: the equations of the populations add up to zero, whatever Phi[1] is' % V.name, p.sum(b).sum(q))


def kern_herm(V):
    ex = V.method('generate_kern')
    q, b, bp = qxy()
    p = ex.content('kernrow', (b, bp))
    vacuous(p, 'kern')
    return zero("%s: the equation of (b',b) is minus the conjugate of that of (b,b'), whatever Phi[1] is" % V.name,
                p + ex.content('kernrow', (bp, b)).conj(), (b, bp, q))


def only(V):
    r = []
    for m, ok in (('generate_kern', {'kernrow', 'loc:shuffle'}), ('generate_current', {'current', 'energy_current', 'heat_current', 'phi1', 'h_phi1'})):
        ex = V.method(m)
        bad = [a for a in ex.written() if a not in ok]
        r.append(bool_ob('%s.%s: writes nothing else' % (V.name, m), not bad, str(bad), definite=False))
        badp = [x for x in ex.checked if not x[2]]
        r.append(bool_ob('%s.%s: preconditions of %d calls and list accesses' % (V.name, m, len(ex.checked)), not badp and not ex.problems,
                         '; '.join(ex.problems[:3]), definite=False))
    return r


def continuity(V):
    l = Var('lead')
    q, b, _ = qxy()
    I = V.method('generate_current').content('current', (l,)).sum(l)
    X = V.method('generate_kern').content('kernrow', (b, b)).scale(0, -1)
    N = (X.re() * atom('chg', q)).sum(b).sum(q)
    vacuous(I, 'current')
    return zero('%s: the particle currents add up to the rate of change of the dot charge, whatever Phi[1] is' % V.name, I - N)


def energy(V):
    l = Var('lead')
    q = Var('charge')
    c, b = Var('state', (q, 1)), Var('state', (q, 0))
    dom = atom('[dom]', q, 'lo', 0) * atom('[dom]', q, 'hi', -1)
    r = []
    for n, src in (('current', 'phi1_phi0'), ('energy_current', 'e_phi1_phi0')):
        p = V.method('generate_current').content(n, (l,))
        vacuous(p, n)
        want = ((atom(src, l, c, b) * atom('Tba', l, b, c)).im().scale(-2) * dom).sum(b).sum(c).sum(q)
        r.append(zero('%s: %s = -2 Im sum T_bc %s_cb' % (V.name, n, 'Phi[1]' if n == 'current' else 'E Phi[1]'), p - want, (l,)))
    return r


class Cur(object):
    """What master.heat needs of an approach."""
    def __init__(self, V):
        self.V, self.name = V, V.name

    def run(self, m):
        return self.V.method(m)


def arrays(V, ex, l):
    """Contributions of one step: (what, element, contribution)."""
    q, p = Var('charge'), Var('charge')
    c, b = Var('state', (q, 1)), Var('state', (q, 0))
    c1, b1 = Var('state', (p, 1)), Var('state', (p, 0))
    x, y = Var('state', (p, 0)), Var('state', (p, 0))
    return q, p, c, b, c1, b1, x, y


def same(Vp, Vc):
    n = '2vN: compiled = pure Python: '

    def local():
        ex, l = Vp.step('phi1k_local')
        ey, m = Vc.step('phi1k_local')
        q, p, c, b, c1, b1, x, y = arrays(Vp, ex, l)
        r = []
        for arr, i, free in (('loc:kern0', (c, b, x, y), (l, q, p, c, b, x, y)), ('loc:kern1', (c, b, c1, b1), (l, q, p, c, b, c1, b1))):
            A, B = ex.content(arr, i), ey.content(arr, i).subst({m: l})
            vacuous(A, arr)
            r.append(zero(n + '%s of phi1k_local' % arr[4:], A - B, free))
        r.append(bool_ob(n + 'matrices stored by phi1k_local', stores(ex, l) == stores(ey, m), '%s against %s' % (stores(ex, l), stores(ey, m)), definite=False))
        return r

    def iterate():
        ex, l = Vp.step('phi1k_iterate')
        ey, m = Vc.step('phi1k_iterate')
        q, p, c, b, c1, b1, x, y = arrays(Vp, ex, l)
        A, B = row(ex, c, b), row(ey, c, b).subst({m: l})
        vacuous(A, 'kern0')
        return [zero(n + 'terms of phi1k_iterate', A - B, (l, q, c, b)),
                bool_ob(n + 'matrices stored by phi1k_iterate', stores(ex, l) == stores(ey, m), '%s against %s' % (stores(ex, l), stores(ey, m)), definite=False)]
    return guarded(n + 'phi1k_local', local) + guarded(n + 'phi1k_iterate', iterate)


def stores(ex, l):
    return sorted(str(s).replace(str(l), 'lead') for s in ex.matstores)


def row(ex, c, b):
    e = [x for x in ex.effects if x.arr == 'row:kern0']
    if len(e) != 1 or not e[0].kind == 'set':
        raise OutOfReach('rows of kern0')
    v = ex.content('row:kern0', (c, b))
    return v


def steps(V):
    """phi1k_local and phi1k_iterate: shape of what they store."""
    r = []
    for m in ('phi1k_local', 'phi1k_iterate'):
        def f():
            ex, l = V.step(m)
            w = [a for a in ex.written() if a not in ('loc:kern0', 'loc:kern1', 'loc:term', 'row:kern0')]
            s = stores(ex, l)
            want = {'phi1k_local': [('kern1k_inv', "inverse of kern1"), ('phi1k_delta', 'inverse of kern1 times kern0')],
                    'phi1k_iterate': [('phi1k_delta', 'stored inverse times kern0')]}[m]
            got = []
            for name, at, d in ex.matstores:
                if at != ('(par:k,)', '(%s,)' % l) and at != (str((atom('par:k'),)), str((l,))):
                    raise OutOfReach('place of the result: %s' % (at,))
                t = {"('inv', 'kern1')": 'inverse of kern1', "('dot', ('inv', 'kern1'), 'kern0')": 'inverse of kern1 times kern0'}.get(str(d))
                if d[0] == 'dot' and d[1][0] == 'stored inverse' and d[1][1:] == at and d[2] == 'kern0':
                    t = 'stored inverse times kern0'
                got.append((name, t or str(d)))
            badp = [x for x in ex.checked if not x[2]]
            return [bool_ob('%s.%s: stores %s for its energy and lead, and nothing else' % (V.name, m, ', '.join(b + ' in ' + a for a, b in want)),
                            sorted(got) == sorted(want) and not w, '%s %s' % (got, w), definite=all(t in str(want) for _, t in got) and not w),
                    bool_ob('%s.%s: every element starts from zero' % (V.name, m), ex.accumulators_clear(), 'the accumulator is not cleared',
                            definite=not ex.rebound),
                    bool_ob('%s.%s: preconditions of %d calls and list accesses' % (V.name, m, len(ex.checked)), not badp and not ex.problems,
                            '; '.join(ex.problems[:3]), definite=False)]
        r += guarded('%s.%s' % (V.name, m), f)
    return r


def labels(V):
    r = []
    for m in ('generate_kern', 'generate_current', 'phi1k_local', 'phi1k_iterate'):
        def f():
            ex = V.method(m) if m.startswith('gen') else V.step(m)[0]
            names = set()
            for e in ex.effects:
                if e.arr != 'loc:shuffle':
                    names |= e.val.names() | e.guard.names()
            bad = names & {'chg', '[lt]', '[le]', 'par:ncharge'}
            return bool_ob('%s.%s: depends on labels and particle numbers only through the state lists' % (V.name, m), not bad, str(bad), definite=False)
        r += guarded('%s.%s labels' % (V.name, m), f)
    return r


def named(obs):
    """The functions an obligation is about, where the executor does not list them."""
    py, c = 'qmeq/approach/base/neumann2.py:', 'qmeq/approach/base/c_neumann2.pyx:'
    for o in obs:
        if o.get('functions'):
            continue
        n, f = o['name'], []
        both = n.startswith('2vN: compiled')
        for rel in ([py, c] if both else [py] if n.startswith('py') else [c]):
            for m in ('phi1k_local', 'phi1k_iterate'):
                if m in n:
                    f += [rel + 'TermsCalculator2vN.' + x for x in ((m,) if m == 'phi1k_local' else (m, 'func_2vN', 'get_at_k1'))]
            if not f and rel == py:
                f += [rel + 'Approach2vN.' + x for x in ('generate_kern', 'generate_current') if x in n] or \
                     [rel + 'Approach2vN.generate_kern', rel + 'Approach2vN.generate_current']
        o['functions'] = f
    return obs


def obligations(prop, S):
    return named(obligations_(prop, S))


def obligations_(prop, S):
    r = []
    if prop not in ('C19', 'C10', 'C20', 'C09'):
        return r
    VS = [N2(S, c) for c in (False, True)]
    if prop == 'C19':
        V = VS[0]
        for f in (exchange, kern_trace, kern_herm, continuity, energy, only):
            r += guarded('%s %s' % (V.name, f.__name__), f, V)
        r += guarded('py2vN heat', master.heat, Cur(V))
        for V in VS:
            r += guarded(V.name + ' steps', steps, V)
    if prop == 'C09':
        r += guarded('py2vN heat', master.heat, Cur(VS[0]))
    if prop == 'C20':
        r += labels(VS[0])
    if prop == 'C10':
        r += guarded('2vN compiled = pure Python', same, *VS)
    return r
