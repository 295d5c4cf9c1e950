"""Obligations about the first-order master equations: Pauli, Lindblad, Redfield and 1vN, compiled and pure Python, with and
without phonon baths (16 classes).  The real bodies of generate_fct, generate_coupling_terms, generate_kern,
generate_current and clean_arrays are executed symbolically (sx.py) against the contracts of the kernel handler, of the
indexing and of the rate functions; the obligations are equalities of the resulting sums, for all dots."""
import ast, z3, copy, random, time
from .sp import P, Var, poly, atom, canon, Model, SYM
from .src import Sources, OutOfReach
from . import sx
from .sx import Executor, Chg, Obj

KINDS = ('Pauli', 'Lindblad', 'Redfield', '1vN')
FILES = {'Pauli': 'pauli', 'Lindblad': 'lindblad', 'Redfield': 'redfield', '1vN': 'neumann1'}
TUN = {'Tba', 'paulifct', 'tLba', 'phi1fct', 'phi1fct_energy'}
ACC = {'current', 'energy_current', 'heat_current', 'phi1', 'drho'}


class Variant(object):
    def __init__(self, sources, kind, compiled, elph):
        self.kind, self.compiled, self.elph = kind, compiled, elph
        self.rel = 'qmeq/approach/%s/%s%s' % ('elph' if elph else 'base', 'c_' if compiled else '',
                                              FILES[kind] + ('.pyx' if compiled else '.py'))
        self.S = sources
        self.name = '%s%s%s' % ('py' if not compiled else '', kind, '+phonons' if elph else '')
        self.cache = {}
        self.abstract_unique = False

    def classes(self):
        mod = self.S.module(self.rel)
        cls = mod.classes.get('Approach' + self.kind)
        if cls is None:
            raise OutOfReach('class Approach%s in %s' % (self.kind, self.rel))
        hm = self.S.module('qmeq/approach/' + ('c_kernel_handler.pyx' if self.compiled else 'kernel_handler.py'))
        return (mod, cls), (hm, hm.classes['KernelHandler'])

    def diag(self):
        """Does the class build the compiled handler without coherences?"""
        if not self.compiled:
            return self.kind == 'Pauli'
        mod, cls = self.classes()[0]
        for m, c in self.S.mro(mod, cls):
            for n in c.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and getattr(n.targets[0], 'id', '') == 'no_coherences':
                    return bool(ast.literal_eval(n.value))
        return False

    def run(self, method, args=()):
        if method not in self.cache:
            a, h = self.classes()
            ex = Executor(self.S, a, h, self.compiled, elph=self.elph, diag=self.diag())
            ex.abstract_unique = self.abstract_unique
            try:
                ex.run(method, args)
                self.cache[method] = ex
            except OutOfReach as e:
                self.cache[method] = e
        r = self.cache[method]
        if isinstance(r, OutOfReach):
            raise r
        return r

    # ------------------------------------------------------------------ summaries
    def drho(self, x, y):
        return self.run('generate_kern').content('drho', (x, y))

    def rate(self, x, y):
        """The generator for any ordered pair: the stored half without its list-order guard."""
        return drop_guards(self.drho(x, y), x, y)


def drop_guards(p, x, y):
    """p times the list-order and inclusion guards of (x, y), with those guards removed."""
    r = {}
    for k, c in expand(p).items():
        b, a = k
        a = tuple(z for z in a if not (z[0] in ('[le]', '[inc]') and set(z[2:4]) == {x, y}))
        r[(b, a)] = c
    return P(r)


def expand(p, rules=()):
    """Normal form with the free variables kept, as a polynomial."""
    from .sp import step
    work, done = [(b, a, c) for (b, a), c in p.t.items()], {}
    while work:
        b, a, c = work.pop()
        s = step(b, a, c, rules)
        if s is not None:
            work.extend(s)
            continue
        x = done.get((b, a))
        done[(b, a)] = c if x is None else (x[0]+c[0], x[1]+c[1])
    return {k: c for k, c in done.items() if c != (0, 0)}


def keep(p, names, inside=True):
    """Terms that contain (inside) or do not contain an atom of these names."""
    return P({(b, a): c for (b, a), c in p.t.items() if bool({x[0] for x in a} & names) == inside})


# ------------------------------------------------------------------------------------------------ deciding
def witness(p, free, rng, tries=12):
    """A concrete model in which p is not zero, or None."""
    if any(n not in sx.KNOWN for n in p.names()):
        return 'unknown'
    qs = [v for v in free if v.sort == 'charge']
    for t in range(tries):
        m = Model(rng, sizes=[(2, 3, 2), (1, 2, 1), (1, 2, 3, 1), (2, 2)][t % 4], nleads=1 + t % 2, nbaths=1 + t % 2)
        env = {q: rng.randrange(len(m.S)) for q in qs}
        ok = True
        for v in free:
            if v.sort == 'state':
                k = env[v.charge[0]] + v.charge[1]
                if not 0 <= k < len(m.S):
                    ok = False
                    break
                env[v] = rng.choice(m.S[k])
            elif v.sort in ('lead', 'bath'):
                env[v] = rng.randrange(m.nleads if v.sort == 'lead' else m.nbaths)
        if not ok:
            continue
        val = m.value(p, env)
        if abs(val) > 1e-9:
            return 'states per charge %s, %d leads: difference %.6g%+.6gi' % (list(m.sizes), m.nleads, val.real, val.imag)
    return None


def zero(name, p, free=(), rules=(), funcs=(), model=True):
    """Obligation: p = 0 in every model."""
    t0 = time.time()
    o = {'name': name, 'backend': 'sigma-polynomial normal form', 'functions': list(funcs)}
    try:
        r = canon(p, rules)
        o['terms'] = len(p.t)
        if not r:
            o['status'] = 'proved'
        else:
            w = witness(p, free, random.Random(7)) if model else 'unknown'
            show = '; '.join('%s*%s' % (c, k) for k, c in list(r.items())[:2])[:600]
            if w is None or w == 'unknown':
                o['status'], o['detail'] = 'undecided', 'no normal form zero, no counterexample%s: %s' % (
                    ' (contains quantities without a model: %s)' % sorted(p.names() - sx.KNOWN) if w else '', show)
            else:
                o['status'], o['detail'] = 'refuted', '%s; remaining terms: %s' % (w, show)
    except (OutOfReach, ValueError, RecursionError, OverflowError) as e:
        o['status'], o['detail'] = 'undecided', '%s: %s' % (type(e).__name__, e)
    o['time'] = round(time.time() - t0, 4)
    return o


def guarded(name, f, *a, **k):
    """Run a generator of obligations; construct out of reach -> one undecided obligation."""
    t0 = time.time()
    try:
        r = f(*a, **k)
        r = r if isinstance(r, list) else [r]
    except (OutOfReach, ValueError, KeyError, TypeError, AttributeError, IndexError, RecursionError, z3.Z3Exception, AssertionError) as e:
        r = [{'name': name, 'status': 'undecided', 'backend': 'symbolic execution', 'detail': '%s: %s' % (type(e).__name__, e)}]
    new = [o for o in r if 'time' not in o]
    for o in new:
        o['time'] = round(max(0., time.time() - t0 - sum(x.get('time', 0.) for x in r)) / len(new), 4)
    return r


def bool_ob(name, ok, detail='', backend='symbolic execution', definite=True):
    return {'name': name, 'status': 'proved' if ok else ('refuted' if definite else 'undecided'), 'backend': backend, 'detail': detail}


# ------------------------------------------------------------------------------------------------ obligations
def qvars():
    q = Var('charge')
    return q, Var('state', (q, 0)), Var('state', (q, 0))


def vacuous(p, what):
    if not p.t:
        raise OutOfReach('%s is empty' % what)


def pre(V, method):
    """The calls made by the method satisfy the contracts of what they call."""
    ex = V.run(method)
    bad = [x for x in ex.checked if not x[2]]
    return {'name': '%s.%s: preconditions of %d calls (index ranges, charges of the states, included elements)' % (
                V.name, method, len(ex.checked)), 'status': 'undecided' if (bad or ex.problems) else 'proved',
            'backend': 'symbolic execution', 'detail': '; '.join(ex.problems[:3])}


def trace(V):
    q, b, _ = qvars()
    t = V.drho(b, b).re().sum(b).sum(q)
    vacuous(t, 'the generator')
    return zero('%s: sum over populations of the generator is zero' % V.name, t, funcs=V.run('generate_kern').inlined)


def reduced(V):
    """Spin reduction: whichever elements are the independent ones, their equations are those of the unreduced problem, and
    nothing is added for the others."""
    q, b, bp = qvars()
    W = Variant(V.S, V.kind, V.compiled, V.elph)
    W.abstract_unique = True
    r = []
    for x, y, what in ((b, b, 'population'), (b, bp, 'coherence')):
        if what == 'coherence' and V.kind == 'Pauli':
            continue
        F, G, U = W.drho(x, y), V.drho(x, y), atom('[uniq]', x, y)
        vacuous(F, 'the generator')
        f = W.run('generate_kern').inlined
        r.append(zero('%s: nothing is added to the equation of a dependent %s' % (V.name, what), F - F*U, (q, b, bp), funcs=f))
        r.append(zero('%s: the equation of an independent %s is that without spin reduction' % (V.name, what), F*U - G*U, (q, b, bp), funcs=f))
    return r


def hermitian(V):
    q, b, bp = qvars()
    F = V.rate(b, bp)
    vacuous(F, 'the generator')
    return zero('%s: generator of (b\',b) is the conjugate of that of (b,b\')' % V.name, F.conj() - F.subst({b: bp, bp: b}), (q, b, bp))


def diag_real(V):
    q, b, _ = qvars()
    return zero('%s: generator of the populations is real' % V.name, V.drho(b, b).im(), (q, b))


def continuity(V):
    l = Var('lead')
    q, b, _ = qvars()
    I = V.run('generate_current').content('current', (l,)).sum(l)
    N = (V.drho(b, b).re() * atom('chg', q)).sum(b).sum(q)
    vacuous(I, 'the current')
    return zero('%s: sum of the particle currents is the rate of change of the dot charge' % V.name, I - N)


def real_current(V):
    l = Var('lead')
    ex = V.run('generate_current')
    return [zero('%s: %s is real' % (V.name, n), ex.content(n, (l,)).im(), (l,)) for n in ('current', 'energy_current')]


def heat(V):
    ex = V.run('generate_current')
    l = Var('lead')
    h = [e for e in ex.effects if e.arr == 'heat_current']
    if len(h) != 1 or h[0].kind != 'set' or len(h[0].idx) != 1 or h[0].idx[0] not in h[0].bound or len(h[0].bound) != 1:
        raise OutOfReach('the way heat_current is written')
    n = {a: len([e for e in ex.effects if e.arr == a]) for a in ('current', 'energy_current')}
    last = {a: max(i for i, e in enumerate(ex.effects) if e.arr == a) for a in n}
    hi = ex.effects.index(h[0])
    if any(i > hi for i in last.values()):
        raise OutOfReach('currents change after the heat current')
    val = h[0].val.subst({h[0].idx[0]: l})
    want = atom('energy_current@%d' % n['energy_current'], l) - atom('current@%d' % n['current'], l) * atom('mulst', l)
    d = val - want
    full = h[0].guard.is_const() and h[0].guard.const() == (1, 0)
    o = zero('%s: heat current = energy current - mu*particle current, for every lead' % V.name, d, (l,), model=False)
    if o['status'] != 'proved':
        # evaluate with independent values of the currents
        known = {'energy_current@%d' % n['energy_current'], 'current@%d' % n['current'], 'mulst'}
        if d.names() <= known | {x for x in sx.KNOWN if x[0] != '['}:
            o['status'] = 'refuted'
    if not full:
        o['status'], o['detail'] = 'undecided', 'heat current set under a condition'
    return o


def pauli_energy(V):
    l = Var('lead')
    q, b, _ = qvars()
    I = V.run('generate_current').content('energy_current', (l,)).sum(l)
    d = keep(expandP(V.drho(b, b).re()), {'paulifct_elph'}, False) * atom('Ea', b)
    vacuous(I, 'the energy current')
    return zero('%s: sum of the energy currents is the rate of change of the dot energy by tunnelling' % V.name, I - d.sum(b).sum(q))


def expandP(p):
    return P(expand(p))


def equilibrium(V):
    """With detailed balance of every lead (proved for func_pauli) rho ~ exp(-(E - mu N)/T) is stationary without currents."""
    def rule(b, a):
        # rho(c,c)*paulifct(l,c,b,1) = rho(b,b)*paulifct(l,c,b,0)
        for i, x in enumerate(a):
            if x[0] == 'paulifct' and x[5] == 1:
                l, c, s = x[2], x[3], x[4]
                for j, y in enumerate(a):
                    if y[0] == 'rho' and y[2] is c and y[3] is c:
                        rest = [z for k, z in enumerate(a) if k not in (i, j)]
                        return [(b, rest + [('rho', 0, s, s), ('paulifct', 0, l, c, s, 0)], (1, 0))]
        return None
    l = Var('lead')
    q, b, _ = qvars()
    ex = V.run('generate_current')
    r = []
    for n in ('current', 'energy_current'):
        p = ex.content(n, (l,))
        vacuous(p, n)
        r.append(eqzero('%s: no %s in a lead at equilibrium with the dot' % (V.name, n.replace('_', ' ')), p, (rule,)))
    p = keep(expandP(V.drho(b, b)), {'paulifct_elph'}, False)
    vacuous(p, 'generator')
    r.append(eqzero('%s: the equilibrium distribution of common leads is stationary' % V.name, p, (rule,)))
    return r


def eqzero(name, p, rules):
    o = zero(name, p, (), rules, model=False)
    if o['status'] == 'undecided' and not (p.names() - sx.KNOWN):
        # exact evaluation in models with detailed balance would be needed to refute; the failing sum is reported by the
        # runtime contract of the same statement
        o['detail'] = 'remaining terms under detailed balance: ' + str(o.get('detail'))
    return o


def fct_values(V):
    """What generate_fct stores is the coupling strength times the rate function (detailed balance carries over)."""
    ex = V.run('generate_fct')
    q = Var('charge')
    l, c, b = Var('lead'), Var('state', (q, 1)), Var('state', (q, 0))
    r = []
    E = atom('Ea', c) - atom('Ea', b)
    par = [E, atom('mulst', l), atom('tlst', l), atom('dlst', l, 0), atom('dlst', l, 1), atom('par:itype')]
    g = atom('[dom]', q, 'lo', 0)
    if V.kind == 'Pauli':
        for k in (0, 1):
            want = atom('Tba', l, b, c) * atom('Tba', l, c, b) * atom('fn:func_pauli', k, *par)
            r.append(zero('%s.generate_fct: paulifct[.,.,%d] = |T|^2 func_pauli[%d](E_c-E_b)' % (V.name, k, k),
                          array(ex, 'paulifct', (l, c, b, k)) - want, (q, l, c, b)))
    elif V.kind == 'Lindblad':
        i = 0
        for k, (x, y) in enumerate(((c, b), (b, c))):
            want = atom('sqrt', atom('fn:func_pauli', k, *par)) * atom('Tba', l, x, y)
            r.append(zero('%s.generate_fct: tLba of a jump %s = sqrt(func_pauli[%d]) T' % (V.name, ('in', 'out')[k], k),
                          array(ex, 'tLba', (l, x, y)) - want, (q, l, c, b)))
    else:
        for k in (0, 1):
            for arr, j in (('phi1fct', k), ('phi1fct_energy', k+2)):
                r.append(zero('%s.generate_fct: %s[.,.,%d] = func_1vN[%d](E_c-E_b)' % (V.name, arr, k, j),
                              array(ex, arr, (l, c, b, k)) - atom('fn:func_1vN', j, *(par + [atom('par:limit')])), (q, l, c, b)))
    return r


def array(ex, name, idx):
    """Contents of an array of factors after generate_fct (zero before): the writes must not overlap."""
    es = [e for e in ex.effects if e.arr == name]
    if not es:
        raise OutOfReach('nothing is written to %s' % name)
    if any(e.kind not in ('set', 'add') for e in es):
        raise OutOfReach('%s is filled' % name)
    sets = [e for e in es if e.kind == 'set']
    for i, e in enumerate(sets):
        for f in sets[i+1:]:
            if overlap(e, f):
                raise OutOfReach('%s is written twice (lines %s, %s)' % (name, e.line, f.line))
    if sets and len(sets) != len(es):
        raise OutOfReach('%s is both set and added to' % name)
    return ex.content(name, idx)


def overlap(e, f):
    """May two writes hit the same element?"""
    from .sp import fix_charges
    m = {v: Var(v.sort, v.charge, v.name) for v in f.bound}
    fix_charges(m)
    g = e.guard * f.guard.subst(m)
    for x, y in zip(e.idx, f.idx):
        y = m.get(y, y) if isinstance(y, Var) else y
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
        elif isinstance(x, Var) and isinstance(y, Var):
            if x.sort != y.sort:
                return False
            g = g * atom('[==]', x, y)
        else:
            return True
    for v in set(e.bound) | set(m.values()):
        g = g.sum(v)
    return bool(canon(g))


FCT = {'Pauli': [('paulifct', 3)], 'Lindblad': [('tLba', 2)], 'Redfield': [('phi1fct', 3), ('phi1fct_energy', 3)],
       '1vN': [('phi1fct', 3), ('phi1fct_energy', 3)]}
FCT_E = {'Pauli': [('paulifct_elph', 2)], 'Lindblad': [('tLbbp', 3)], 'Redfield': [('w1fct', 3)], '1vN': [('w1fct', 3)]}


def same(Vp, Vc):
    """Compiled and pure Python class: the same generator, factors, currents."""
    q, b, bp = qvars()
    c = Var('state', (q, 1))
    l, m = Var('lead'), Var('bath')
    n = '%s: compiled = pure Python: ' % Vc.name
    r = []

    def kern():
        if Vc.diag() != Vp.diag():
            raise OutOfReach('one form keeps coherences')
        if Vc.diag():
            p1, p2 = Vp.drho(b, b), Vc.drho(b, b)
            fv = (q, b)
        else:
            p1, p2 = Vp.drho(b, bp), Vc.drho(b, bp)
            fv = (q, b, bp)
        vacuous(p1, 'generator')
        return zero(n + 'generator', p1 - p2, fv)
    r += guarded(n + 'generator', kern)
    for a in ('current', 'energy_current'):
        r += guarded(n + a, lambda: zero(n + a, Vp.run('generate_current').content(a, (l,)) - Vc.run('generate_current').content(a, (l,)), (l,)))
    if Vp.kind in ('Redfield', '1vN'):
        r += guarded(n + 'phi1', lambda: zero(n + 'phi1', Vp.run('generate_current').content('phi1', (l, c, b)) -
                                              Vc.run('generate_current').content('phi1', (l, c, b)), (q, l, c, b)))
    for a, k in FCT[Vp.kind] + (FCT_E[Vp.kind] if Vp.elph else []):
        ph = a in ('paulifct_elph', 'tLbbp', 'w1fct')
        first = m if ph else l
        if a == 'tLba':
            idxs = [(first, c, b), (first, b, c)]
        elif a == 'paulifct_elph':
            idxs = [(first, b, bp)]
        elif ph:
            idxs = [(first, b, bp, j) for j in (0, 1)] + [(first, b, b, j) for j in (0, 1)]
        else:
            idxs = [(first, c, b, j) for j in (0, 1)]
        for idx in idxs:
            nm = n + '%s%s' % (a, [x.name if isinstance(x, Var) else x for x in idx])
            r += guarded(nm, lambda: zero(nm, off(array(Vp.run('generate_fct'), a, idx), idx) -
                                          off(array(Vc.run('generate_fct'), a, idx), idx), (q, m, l, b, bp, c)))
    return r


def off(p, idx):
    return p


def phonon_part(V):
    """Probability of every charge is conserved by the phonon terms; the currents are those without phonons."""
    q, b, _ = qvars()
    d = keep(expandP(V.drho(b, b).re()), TUN | {'Ea'}, False)
    vacuous(d, 'the phonon part')
    r = [zero('%s: phonons conserve the probability of every charge' % V.name, d.sum(b), (q,))]
    ex = V.run('generate_current')
    bad = [e for e in ex.effects if (e.val.names() | e.guard.names()) & {'Vbbp', 'paulifct_elph', 'tLbbp', 'w1fct'}]
    r.append(bool_ob('%s.generate_current: no phonon quantity enters the currents' % V.name, not bad, str(bad[:1])))
    return r


def phonon_rates(V):
    """paulifct_elph = symmetrised coupling times the phonon rate of the energy difference; rates depend on those only."""
    q, b, bp = qvars()
    m = Var('bath')
    ex = V.run('generate_fct')
    E = atom('Ea', b) - atom('Ea', bp)
    v1, v2 = atom('Vbbp', m, b, bp), atom('Vbbp', m, bp, b)
    r = []
    ne = 1 - atom('[==]', b, bp)
    if V.kind == 'Pauli':
        want = (v1 * v1.conj() + v2 * v2.conj()).scale(sx.Fraction(1, 2)) * atom('fn:FuncPauliElPh', E, m)
        r.append(zero('%s.generate_fct: phonon rate = (|V|^2+|V\'|^2)/2 times the rate function' % V.name,
                      (array(ex, 'paulifct_elph', (m, b, bp)) - want) * ne, (q, m, b, bp)))

        def weight(pair):
            # W(b<-a) = paulifct(b,a), the loss of b is the sum of W(a<-b)
            d = keep(expandP(V.drho(b, b)), TUN | {'Ea'}, False)
            a = Var('state', (q, 0))
            w = (atom('paulifct_elph', m, b, a) * atom('rho', a, a) - atom('paulifct_elph', m, a, b) * atom('rho', b, b)).sum(m).sum(a)
            return zero('%s: phonon part of the rate equation is gain minus loss with these rates' % V.name, d - w, (q, b))
        r.append(weight(None))
    elif V.kind == 'Lindblad':
        half = sx.Fraction(1, 2)
        for k, amp in ((0, v1), (1, v2.conj())):
            want = atom('sqrt', atom('fn:FuncPauliElPh', E, m).scale(half)) * amp
            r.append(zero('%s.generate_fct: jump amplitude %d = sqrt(rate/2) V' % (V.name, k),
                          (array(ex, 'tLbbp', (m, b, bp, k)) - want) * ne, (q, m, b, bp)))
    else:
        for k in (0, 1):
            r.append(zero('%s.generate_fct: w1fct[.,.,%d] = Func1vNElPh.val%d(E_b-E_b\')' % (V.name, k, k),
                          (array(ex, 'w1fct', (m, b, bp, k)) - atom('fn:Func1vNElPh.val%d' % k, E, m)) * ne, (q, m, b, bp)))
    return r


def phi1_current(V):
    """The currents are those of the amplitudes phi1 that can be read from the approach."""
    l = Var('lead')
    q = Var('charge')
    c, b = Var('state', (q, 1)), Var('state', (q, 0))
    ex = V.run('generate_current')
    I = ex.content('current', (l,))
    ph = ex.content('phi1', (l, c, b))
    vacuous(ph, 'phi1')
    want = (atom('Tba', l, b, c) * ph).im().scale(-2).sum(b).sum(c).sum(q)
    return zero('%s: particle current = -2 Im sum T_bc phi1_cb' % V.name, I - want, (l,))


def parametric(V):
    """Labels of states enter only as places in the lists: no arithmetic, ordering or particle number in the result."""
    r = []
    q, b, bp = qvars()
    for meth in ('generate_kern', 'generate_current', 'generate_fct'):
        ex = V.run(meth)
        names = set()
        for e in ex.effects:
            names |= e.val.names() | e.guard.names()
        bad = sorted(n for n in names if n in ('chg', '[lt]') or n.startswith('[num'))
        r.append(bool_ob('%s.%s: depends on labels and particle numbers only through the state lists' % (V.name, meth), not bad,
                         'contains %s' % bad, definite=False))
    return r


def frame(V):
    """Every array that is added to or read is emptied by clean_arrays before it is used again."""
    used = {}
    for meth in ('generate_fct', 'generate_current', 'generate_kern'):
        ex = V.run(meth)
        for e in ex.effects:
            if e.arr == 'drho':
                continue
            if e.kind == 'add':
                used.setdefault(e.arr, meth)
            elif e.kind == 'set' and e.arr in ('paulifct', 'tLba', 'phi1fct', 'phi1fct_energy', 'w1fct', 'tLbbp', 'paulifct_elph'):
                used.setdefault(e.arr, meth)
    cl = V.run('clean_arrays')
    filled = {}
    for e in cl.effects:
        if e.kind == 'fill' and e.val.is_const() and e.val.const() == (0, 0):
            filled[e.arr] = e.guard
    r = []
    for a, meth in sorted(used.items()):
        ok = a in filled and filled[a].is_const() and filled[a].const() == (1, 0)
        r.append(bool_ob('%s.clean_arrays: %s, accumulated by %s, is zeroed on every call' % (V.name, a, meth), ok,
                         '' if ok else 'zeroed arrays: %s' % sorted(filled), definite=False))
    dense = {}
    for a in ('kern', 'bvec'):
        g = filled.get(a)
        ok = g is not None and all(n in ('[par:mfreeq]',) for n in g.names())
        if ok and not g.is_const():
            ok = g == 1 - atom('[par:mfreeq]')
        r.append(bool_ob('%s.clean_arrays: %s is zeroed unless the solution is matrix-free' % (V.name, a), ok,
                         '' if ok else str(g), definite=False))
    if V.compiled:      # the pure Python form assigns a new array in solve_kern
        ok = 'phi0' in filled and filled['phi0'].is_const()
        r.append(bool_ob('%s.clean_arrays: phi0 is zeroed' % V.name, ok, '', definite=False))
    return r


def disjoint(V):
    """Every write of generate_coupling_terms and of the energy goes to the row of its own element (prange without races)."""
    ex = V.run('generate_kern')
    bad = []
    for e in ex.effects:
        if e.arr != 'drho':
            bad.append(e.arr)
    a, h = V.classes()
    ex2 = Executor(V.S, a, h, V.compiled, elph=V.elph, diag=V.diag())
    q = Var('charge')
    b = Var('state', (q, 0), 'b')
    bp = b if V.diag() else Var('state', (q, 0), 'bp')
    ex2.scope = [b, bp, atom_tuple(q, 'lo', 0), atom_tuple(q, 'hi', 0)]
    args = [b, bp, Chg(q, 0)] + ([Obj(('kh',), h)] if V.compiled else [])
    ex2.run('generate_coupling_terms', args)
    for e in ex2.effects:
        if e.arr != 'drho' or tuple(e.idx) != (b, bp):
            bad.append('%s%s at line %s' % (e.arr, e.idx, e.line))
    return bool_ob('%s.generate_coupling_terms: writes to the row of its own element only' % V.name, not bad, str(bad[:2]), definite=False)


def atom_tuple(q, side, k):
    return ('[dom]', 0, q, side, k)


# ------------------------------------------------------------------------------------------------ by property
def variants(root, elph=(False, True), compiled=(False, True), S=None):
    S = S or Sources(root)
    return [Variant(S, k, c, e) for e in elph for c in compiled for k in KINDS]


def obligations(prop, root, S=None):
    r = []
    S = S or Sources(root)
    VS = variants(root, S=S)

    def add(f, vs, *a):
        for V in vs:
            r.extend(guarded('%s %s' % (f.__name__, V.name), f, V, *a))

    def add_pre(vs, *methods):
        for V in vs:
            for m in methods:
                r.extend(guarded('%s.%s preconditions' % (V.name, m), pre, V, m))
    coh = [V for V in VS if V.kind != 'Pauli']
    if prop == 'C07':
        add(trace, VS)
        add(hermitian, coh)
        add(diag_real, VS)
        add_pre(VS, 'generate_kern')
    elif prop == 'C08':
        add(continuity, VS)
        add(real_current, VS)
        add(trace, VS)
        add_pre(VS, 'generate_kern', 'generate_current')
    elif prop == 'C09':
        add(heat, VS)
        P_ = [V for V in VS if V.kind == 'Pauli']
        add(pauli_energy, P_)
        add(equilibrium, P_)
        add(fct_values, P_)
        add_pre(VS, 'generate_current')
        add_pre(P_, 'generate_fct')
    elif prop == 'C10':
        for e in (False, True):
            for k in KINDS:
                Vp = [V for V in VS if V.kind == k and V.elph == e and not V.compiled][0]
                Vc = [V for V in VS if V.kind == k and V.elph == e and V.compiled][0]
                r.extend(guarded('%s compiled = pure Python' % k, same, Vp, Vc))
        add(heat, VS)
        add(disjoint, [V for V in VS if V.compiled])
        add_pre(VS, 'generate_kern', 'generate_current', 'generate_fct')
    elif prop == 'C11':
        add(disjoint, VS)
    elif prop == 'C13':
        E = [V for V in VS if V.elph]
        add(phonon_part, E)
        add(phonon_rates, E)
        add_pre(E, 'generate_kern', 'generate_fct')
    elif prop == 'C12':
        add(fct_values, VS)
        add_pre(VS, 'generate_fct')
    elif prop == 'C15':
        add(frame, VS)
    elif prop == 'C18':
        add(phi1_current, [V for V in VS if V.kind in ('Redfield', '1vN')])
    elif prop in ('C20', 'C16'):
        add(parametric, VS)
        add(hermitian, coh)
        if prop == 'C16':
            add(reduced, VS)
    return r, VS


# ------------------------------------------------------------------------------------------------ self tests
class Flip(ast.NodeTransformer):
    """Change the n-th sign, column index or conjugation of a function body."""
    def __init__(self, n):
        self.n, self.k, self.what = n, 0, None

    def hit(self, node, what):
        self.k += 1
        if self.k - 1 == self.n:
            self.what = '%s at line %s' % (what, getattr(node, 'lineno', '?'))
            return True
        return False

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.USub) and self.hit(node, 'minus dropped'):
            return ast.copy_location(node.operand, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Sub)) and not isinstance(node.right, ast.Constant) and self.hit(node, 'sign flipped'):
            node.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'conjugate' and self.hit(node, 'conjugation dropped'):
            return node.func.value
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Sub)) and self.hit(node, 'sign of an update flipped'):
            node.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        return node


def self_test(prop, root, methods, f, kinds=KINDS, per=3, limit=24):
    """Deliberately broken copies of the real bodies: how many does the obligation notice?"""
    out = []
    for elph in (False, True):
        for comp in (False, True):
            for k in kinds:
                for n in range(per):
                    if len(out) >= limit:
                        return out
                    S = Sources(root)
                    V = Variant(S, k, comp, elph)
                    try:
                        mod, cls = V.classes()[0]
                        meth = methods[n % len(methods)]
                        m = [x for x in cls.body if isinstance(x, ast.FunctionDef) and x.name == meth]
                        if not m:
                            continue
                        t = Flip(n * 2)
                        m[0].body = [t.visit(x) for x in m[0].body]
                        if t.what is None:
                            continue
                        ast.fix_missing_locations(m[0])
                        st = 'undecided'
                        for o in guarded('x', f, V):
                            if o['status'] == 'refuted':
                                st = 'refuted'
                            elif o['status'] == 'proved' and st != 'refuted' and not st == 'proved':
                                st = 'proved' if st == 'undecided' and o['status'] == 'proved' else st
                        out.append({'class': V.name, 'method': meth, 'change': t.what, 'obligation': st})
                    except OutOfReach:
                        continue
    return out
