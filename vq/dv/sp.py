"""Sigma-polynomials: finite sums over states, leads and baths of products of array elements.

A polynomial is a finite map  (bound variables, atoms) -> Gaussian rational.  A bound variable ranges over the leads,
the baths, the integers (a charge) or the states S(q) of a charge; S(q) is empty for q outside 0..ncharge-1.  Atoms are
array elements, opaque function values and Iverson brackets.  `canon` brings a polynomial to a normal form: equality of
two polynomials for every model (all dot sizes, all array contents that satisfy the declared symmetries) is equality of
the normal forms.  `evaluate` computes the value in a concrete model, independently of the normaliser.
"""
import itertools
from fractions import Fraction

_n = itertools.count(1)


class Var(object):
    """A state (charge = (charge variable, offset)), lead, bath or charge variable."""
    __slots__ = ('id', 'sort', 'charge', 'name')

    def __init__(self, sort, charge=None, name=None):
        self.id, self.sort, self.charge, self.name = next(_n), sort, charge, name or sort[0]

    def __repr__(self):
        c = ''
        if self.charge is not None:
            c = '@%s%+d' % (self.charge[0].id, self.charge[1])
        return '%s%d%s' % (self.name, self.id, c)


SYM = {}        # array name -> 'real' | 'herm' (conj A[..,i,j] = A[..,j,i]) | 'generic'


def cmul(a, b):
    return (a[0]*b[0]-a[1]*b[1], a[0]*b[1]+a[1]*b[0])


def akey(x):
    if isinstance(x, Var):
        return '~v%09d' % x.id
    if isinstance(x, tuple):
        return '(' + ','.join(akey(y) for y in x) + ')'
    if isinstance(x, P):
        return '<' + ';'.join(sorted('%s|%s|%s' % (','.join(sorted(akey(v) for v in k[0])), akey(k[1]), c)
                                     for k, c in x.t.items())) + '>'
    return str(x)


def norm_atom(a):
    name, cj = a[0], a[1]
    if cj:
        s = SYM.get(name, 'generic')
        if s == 'real' or name[0] == '[':
            return (name, 0) + a[2:]
        if s == 'herm':
            return (name, 0) + a[2:-2] + (a[-1], a[-2])
    if name in ('[inc]', '[incE]', '[==]') and akey(a[2]) > akey(a[3]):
        return (name, 0, a[3], a[2])
    return a


class P(object):
    __slots__ = ('t', '_h')

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __repr__(self):
        return ' + '.join('%s*%s%s' % (fmt(c), 'S{%s} ' % ','.join(map(repr, k[0])) if k[0] else '',
                                       ' '.join(map(fmt_atom, k[1]))) for k, c in list(self.t.items())[:12]) or '0'

    def is_const(self):
        return all(k == (frozenset(), ()) for k in self.t)

    def const(self):
        return self.t.get((frozenset(), ()), (Fraction(0), Fraction(0)))

    def __add__(self, o):
        o = poly(o)
        t = dict(self.t)
        for k, c in o.t.items():
            x = t.get(k)
            c = c if x is None else (x[0]+c[0], x[1]+c[1])
            if c == (0, 0):
                t.pop(k, None)
            else:
                t[k] = c
        return P(t)

    def __neg__(self):
        return P({k: (-c[0], -c[1]) for k, c in self.t.items()})

    def __sub__(self, o):
        return self + (-poly(o))

    def __mul__(self, o):
        o = poly(o)
        r = {}
        for (b1, a1), c1 in self.t.items():
            for (b2, a2), c2 in o.t.items():
                if b1 & b2:
                    m = {v: Var(v.sort, v.charge, v.name) for v in b2}
                    fix_charges(m)
                    b2x, a2x = frozenset(m.values()), tuple(ren(a, m) for a in a2)
                else:
                    b2x, a2x = b2, a2
                at = list(a1)
                for a in a2x:
                    if a[0][0] == '[' and a in at:
                        continue
                    at.append(a)
                k = (b1 | b2x, tuple(sorted(at, key=akey)))
                c = cmul(c1, c2)
                x = r.get(k)
                c = c if x is None else (x[0]+c[0], x[1]+c[1])
                if c == (0, 0):
                    r.pop(k, None)
                else:
                    r[k] = c
        return P(r)

    __rmul__ = __mul__
    __radd__ = __add__

    def __rsub__(self, o):
        return poly(o) - self

    def scale(self, re, im=0):
        f = (Fraction(re), Fraction(im))
        return P({k: cmul(c, f) for k, c in self.t.items() if cmul(c, f) != (0, 0)})

    def conj(self):
        r = P()
        for (b, a), c in self.t.items():
            r = r + P({(b, tuple(sorted((conj_atom(x) for x in a), key=akey))): (c[0], -c[1])})
        return r

    def re(self):
        return (self + self.conj()).scale(Fraction(1, 2))

    def im(self):
        return (self - self.conj()).scale(0, Fraction(-1, 2))

    def sum(self, v):
        return P({(b | {v}, a): c for (b, a), c in self.t.items()})

    def atoms(self):
        for (b, a), c in self.t.items():
            for x in a:
                yield x

    def names(self):
        """Names of all atoms, those inside arguments included."""
        s = set()

        def walk(x):
            if isinstance(x, P):
                for a in x.atoms():
                    s.add(a[0])
                    for y in a[2:]:
                        walk(y)
            elif isinstance(x, tuple):
                for y in x:
                    walk(y)
        walk(self)
        return s

    def subst(self, m):
        """Rename free variables (bound states of a renamed charge follow it)."""
        out = []
        for (b, a), c in self.t.items():
            m2 = dict(m)
            for v in b:
                if v.charge is not None and v.charge[0] in m:
                    m2[v] = Var(v.sort, (m[v.charge[0]], v.charge[1]), v.name)
            out.append((frozenset(m2.get(v, v) for v in b), tuple(ren(x, m2) for x in a), c))
        return P_sum(out)


def P_sum(items):
    t = {}
    for b, a, c in items:
        out, ok = [], True
        for x in a:
            if x[0][0] == '[' and x in out:
                continue
            out.append(x)
        k = (b, tuple(sorted(out, key=akey)))
        x = t.get(k)
        c = c if x is None else (x[0]+c[0], x[1]+c[1])
        if c == (0, 0):
            t.pop(k, None)
        else:
            t[k] = c
    return P(t)


def fix_charges(m):
    """Renamed state variables refer to renamed charge variables."""
    for v, w in list(m.items()):
        if w.charge is not None and w.charge[0] in m:
            w.charge = (m[w.charge[0]], w.charge[1])


def conj_atom(a):
    s = SYM.get(a[0], 'generic')
    if a[0][0] == '[' or s == 'real':
        return a
    return norm_atom((a[0], 1-a[1]) + a[2:])


def ren(x, m):
    if isinstance(x, Var):
        return m.get(x, x)
    if isinstance(x, P):
        return P_sum((frozenset(m.get(v, v) for v in b), tuple(ren(y, m) for y in a), c) for (b, a), c in x.t.items())
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and len(x) > 1 and x[1] in (0, 1):
            return norm_atom((x[0], x[1]) + tuple(ren(y, m) for y in x[2:]))
        return tuple(ren(y, m) for y in x)
    return x


def poly(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, complex):
        c = (Fraction(repr(x.real)), Fraction(repr(x.imag)))
    elif isinstance(x, float):
        c = (Fraction(repr(x)), Fraction(0))
    elif isinstance(x, (int, Fraction)):
        c = (Fraction(x), Fraction(0))
    else:
        raise TypeError('not a number: %r' % (x,))
    return P({(frozenset(), ()): c}) if c != (0, 0) else P()


def atom(name, *idx, **kw):
    return P({(frozenset(), (norm_atom((name, kw.get('conj', 0)) + idx),)): (Fraction(1), Fraction(0))})


def fmt(c):
    if c[1] == 0:
        return str(c[0])
    if c[0] == 0:
        return '%si' % c[1]
    return '(%s+%si)' % c


def fmt_atom(a):
    return '%s%s[%s]' % (a[0], '^*' if a[1] else '', ','.join(repr(x) for x in a[2:]))


# ------------------------------------------------------------------------------------------ normal form
IMPLIED_INC = {'[inc]': ('rho',), }


def canon(p, rules=()):
    """Normal form.  rules: functions atoms-list -> new P factor or None, applied first."""
    work = [(b, a, c) for (b, a), c in p.t.items()]
    done = {}
    while work:
        b, a, c = work.pop()
        r = step(b, a, c, rules)
        if r is not None:
            work.extend(r)
            continue
        k = rename(b, a)
        x = done.get(k)
        c = c if x is None else (x[0]+c[0], x[1]+c[1])
        if c == (0, 0):
            done.pop(k, None)
        else:
            done[k] = c
    return done


def step(b, a, c, rules):
    """One simplification of a term: list of replacement terms, or None if there is none."""
    for i, x in enumerate(a):
        n = x[0]
        rest = a[:i] + a[i+1:]
        if n == '[==]':
            u, v = x[2], x[3]
            if u is v:
                return [(b, rest, c)]
            if not isinstance(u, Var) or not isinstance(v, Var):
                if isinstance(u, int) and isinstance(v, int):
                    return [(b, rest, c)] if u == v else []
                continue
            r = unify(b, rest, u, v)
            if r is None:
                continue
            if r == 0:
                return []
            return [(r[0], r[1], c)]
        if n in ('[inc]', '[incE]', '[le]') and x[2] is x[3]:
            return [(b, rest, c)]
        if n == '[incE]':       # every pair of one charge has an index in the full indexing used for phonons
            return [(b, rest, c)]
        if n == '[inc]' and any(y[0] == 'rho' and set(y[2:4]) == {x[2], x[3]} for y in rest):
            return [(b, rest, c)]
        if n == '[dom]':
            q, side, k = x[2], x[3], x[4]
            off = [v.charge[1] for v in states_of(b, a, q)]
            if side == 'lo' and any(-o >= k for o in off):      # q + o >= 0
                return [(b, rest, c)]
            if side == 'hi' and any(-o <= k for o in off):      # q + o < ncharge
                return [(b, rest, c)]
        if n == 'sqrt' and i + 1 < len(a) and a[i+1] == x:
            rest = a[:i] + a[i+2:]
            return [(b | b2, tuple(sorted(rest + a2, key=akey)), cmul(c, c2)) for (b2, a2), c2 in x[2].t.items()]
    for f in rules:
        r = f(b, a)
        if r is not None:
            return [(b2, tuple(sorted(a2, key=akey)), cmul(c, c2)) for b2, a2, c2 in r]
    # states whose charge is q: shift so that the smallest offset is 0
    for q in [v for v in b if v.sort == 'charge']:
        off = [v.charge[1] for v in b if v.charge is not None and v.charge[0] is q]
        if off and min(off) != 0:
            s = min(off)            # q' = q + s
            nq = Var('charge', None, q.name)
            m = {q: nq}
            for v in b:
                if v.charge is not None and v.charge[0] is q:
                    m[v] = Var(v.sort, (nq, v.charge[1]-s), v.name)
            nb = frozenset(m.get(v, v) for v in b)
            terms = [((), c)]
            out = []
            for x in a:
                if x[0] == 'chg' and x[2] is q:          # the number q = q' - s
                    terms = [(t + (('chg', 0, nq),), k) for t, k in terms] + [(t, cmul(k, (Fraction(-s), Fraction(0)))) for t, k in terms]
                else:
                    y = ren(x, m)
                    if x[0] == '[dom]' and x[2] is q:
                        y = ('[dom]', 0, nq, x[3], x[4]+s)
                    terms = [(t + (y,), k) for t, k in terms]
            return [(nb, tuple(sorted(t, key=akey)), k) for t, k in terms]
    return None


def states_of(b, a, q):
    s = set(v for v in b if v.charge is not None and v.charge[0] is q)

    def walk(x):
        if isinstance(x, Var):
            if x.charge is not None and x.charge[0] is q:
                s.add(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, P):
            for y in x.atoms():
                walk(y)
    for y in a:
        walk(y)
    return s


def unify(b, rest, u, v):
    """Substitute one of u, v (a bound one) by the other.  0: they are different; None: not possible."""
    if u.sort != v.sort:
        raise ValueError('comparison of %s and %s' % (u, v))
    if u not in b and v not in b:
        if u.charge is not None and v.charge is not None and u.charge[0] is v.charge[0] and u.charge[1] != v.charge[1]:
            return 0
        return None
    if u not in b:
        u, v = v, u                     # u is bound
    if v in b and u.charge is not None and v.charge is not None and u.charge[0] not in b and v.charge[0] in b:
        u, v = v, u
    m = {u: v}
    nb = b - {u}
    if u.charge is not None:
        (q1, k1), (q2, k2) = u.charge, v.charge
        if q1 is q2:
            if k1 != k2:
                return 0
        else:
            # q1 + k1 = q2 + k2
            if q1 in b:
                qa, qb, s = q1, q2, k2 - k1          # q1 = q2 + s
            elif q2 in b:
                qa, qb, s = q2, q1, k1 - k2
            else:
                return None
            for w in set(nb) | states_of(nb, rest, qa) | {v}:
                if w.charge is not None and w.charge[0] is qa:
                    m[w] = Var(w.sort, (qb, w.charge[1]+s), w.name)
            m[u] = m.get(v, v)
            nb = nb - {qa}
            nr = []
            for x in rest:
                if x[0] == '[dom]' and x[2] is qa:
                    x = ('[dom]', 0, qb, x[3], x[4]-s)
                elif x[0] == 'chg' and x[2] is qa:
                    x = ('chg', 0, qb, s)
                    if s:
                        raise ValueError('charge number under a substitution')
                    x = ('chg', 0, qb)
                nr.append(x)
            rest = tuple(nr)
    return frozenset(m.get(w, w) for w in nb), tuple(sorted(dedupe(ren(x, m) for x in rest), key=akey))


def dedupe(it):
    out = []
    for x in it:
        if x[0][0] == '[' and x in out:
            continue
        out.append(x)
    return out


def rename(b, a):
    """Smallest serialisation of a term over the permutations of its bound variables of a kind."""
    groups = {}
    qs = sorted((v for v in b if v.sort == 'charge'), key=lambda v: v.id)
    if len(qs) > 1:
        raise ValueError('two independent charges in a term')
    for v in b:
        if v.charge is None:
            k = v.sort
        else:
            k = '%s:%d' % (v.sort, v.charge[1]) if v.charge[0] in b else '%s@%d%+d' % (v.sort, v.charge[0].id, v.charge[1])
        groups.setdefault(k, []).append(v)
    keys = sorted(groups)
    # invariants of the variables restrict the permutations
    best = None
    lists = []
    for k in keys:
        vs = groups[k]
        inv = {v: sorted(sig(x, v) for x in a if contains(x, v)) for v in vs}
        classes = {}
        for v in vs:
            classes.setdefault(str(inv[v]), []).append(v)
        cl = [classes[s] for s in sorted(classes)]
        lists.append([list(itertools.chain(*perm)) for perm in itertools.product(*[itertools.permutations(c) for c in cl])])
    for combo in itertools.product(*lists):
        names = {}
        for k, vs in zip(keys, combo):
            for i, v in enumerate(vs):
                names[v] = '%s#%d' % (k, i)
        s = tuple(sorted(ser(x, names) for x in a))
        if best is None or s < best:
            best = s
    return (tuple('%s*%d' % (k, len(groups[k])) for k in keys), best)


def contains(x, v):
    if x is v:
        return True
    if isinstance(x, tuple):
        return any(contains(y, v) for y in x)
    if isinstance(x, P):
        return any(contains(y, v) for y in x.atoms())
    return False


def sig(x, v):
    if x is v:
        return '*'
    if isinstance(x, Var):
        return '%s%s' % (x.sort, x.charge[1] if x.charge else '')
    if isinstance(x, tuple):
        if x and x[0] in ('rho', '[inc]', '[==]') and len(x) >= 4 and x[0] != 'rho':
            return x[0] + str(sorted(sig(y, v) for y in x[2:]))
        return '(' + ','.join(sig(y, v) for y in x) + ')'
    if isinstance(x, P):
        return '<' + ';'.join(sorted(sig(y, v) for y in x.atoms())) + '>'
    return str(x)


def ser(x, names):
    if isinstance(x, Var):
        return names.get(x) or '%s@%d' % (x.sort, x.id)
    if isinstance(x, tuple):
        if x and x[0] in ('[inc]', '[incE]', '[==]'):
            return x[0] + ','.join(sorted(ser(y, names) for y in x[2:]))
        return '(' + ','.join(ser(y, names) for y in x) + ')'
    if isinstance(x, P):
        return '<' + ';'.join(sorted('%s|%s' % (fmt(c), sorted(ser(y, names) for y in a))
                                     for (b, a), c in x.t.items())) + '>'
    return str(x)


def equal(p, q, rules=()):
    return not canon(p - q, rules)


# ------------------------------------------------------------------------------------------ concrete models
class Model(object):
    """Random contents for a small dot: an independent semantics used to confirm a refutation."""

    def __init__(self, rng, sizes=(2, 3, 2), nleads=2, nbaths=2, inc=0.7):
        self.rng, self.sizes, self.nleads, self.nbaths = rng, sizes, nleads, nbaths
        self.S, k = [], 0
        for s in sizes:
            self.S.append(list(range(k, k+s)))
            k += s
        self.n = k
        self.cache = {}
        self.pinc = inc

    def rnd(self, key, kind):
        if key not in self.cache:
            r = self.rng
            self.cache[key] = complex(r.uniform(-1, 1), 0 if kind == 'real' else r.uniform(-1, 1))
        return self.cache[key]

    def inc(self, i, j):
        if i == j:
            return 1
        k = ('inc',) + tuple(sorted((i, j)))
        if k not in self.cache:
            self.cache[k] = int(self.rng.random() < self.pinc)
        return self.cache[k]

    def atom(self, a, env):
        name, cj = a[0], a[1]
        idx = [env[x] if isinstance(x, Var) else self.value(x, env) if isinstance(x, P) else x for x in a[2:]]
        if name == '[inc]':
            return self.inc(*idx)
        if name == '[incE]':
            return 1
        if name == '[==]':
            return int(idx[0] == idx[1])
        if name == '[le]':
            return int(idx[0] <= idx[1])
        if name == '[dom]':
            return int(idx[0] >= idx[2]) if idx[1] == 'lo' else int(idx[0] < len(self.S) + idx[2])
        if name == 'chg':
            return idx[0]
        if name == 'sqrt':
            v = idx[0]
            return abs(v) ** 0.5
        key = (name,) + tuple(round(x.real, 9) + 1j*round(x.imag, 9) if isinstance(x, complex) else x for x in idx)
        s = SYM.get(name, 'generic')
        if name[0] == '[':
            return int(self.rnd(key, 'real').real > 0)
        if s == 'herm':
            pre, i, j = key[:-2], key[-2], key[-1]
            v = self.rnd(pre + tuple(sorted((i, j))), 'real' if i == j else 'c')
            if i > j:
                v = v.conjugate()
            if name == 'rho':
                v *= self.inc(i, j)
        elif s == 'pos':
            v = abs(self.rnd(key, 'real'))
        else:
            v = self.rnd(key, s)
        return v.conjugate() if cj else v

    def value(self, p, env=None):
        env = env or {}
        tot = 0
        for (b, a), c in p.t.items():
            qs = [v for v in b if v.sort == 'charge']
            rest = [v for v in b if v.sort != 'charge']
            dom = [range(-3, len(self.S)+3) for v in qs]
            for qv in itertools.product(*dom):
                e = dict(env)
                e.update(zip(qs, qv))
                ds = []
                for v in rest:
                    if v.sort == 'state':
                        k = e[v.charge[0]] + v.charge[1]
                        ds.append(self.S[k] if 0 <= k < len(self.S) else [])
                    else:
                        ds.append(range(self.nleads if v.sort == 'lead' else self.nbaths))
                for vals in itertools.product(*ds):
                    e2 = dict(e)
                    e2.update(zip(rest, vals))
                    x = complex(float(c[0]), float(c[1]))
                    for y in a:
                        x *= self.atom(y, e2)
                        if x == 0:
                            break
                    tot += x
        return tot
