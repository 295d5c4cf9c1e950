"""Texts and lists of binary digits (C01): integer_to_binarylist, binarylist_to_integer and flatten.

Contracts on what Python provides: `format(x, '0Lb')` of 0 <= x < 2**L is the text of exactly L digits whose i-th is bit L-1-i of x;
`bin(x)` of x is the same without leading zeros after '0b' (only `.zfill(L)` of its part after the mark is accepted);
`int(text, 2)` is the value of the digits by Horner's rule; `map`, `join`, `str`, `list` go through a sequence in order."""
import ast
import z3
from .zx import Fn, Raised, num, ZObj
from .src import OutOfReach
from .fock import fresh
from .rotation import Check, equal, Prog
from .index import engine, reset, FILE, I, fn
from .labels import func, live
from .master import guarded

X, LEN = z3.Int('x'), z3.Int('binlen')
BIT = z3.Function('bit', I, I, I)          # bit i of a number
DIG = z3.Function('digit', I, I)           # digits of the list that is given
POW = z3.Function('pow2', I, I)


class Text(object):
    """Parts of a text: constants and numbers written in decimal."""
    def __init__(self, *parts):
        self.parts = [p for p in parts if not (isinstance(p, str) and p == '')]

    def join(self):
        r = []
        for p in self.parts:
            if isinstance(p, str) and r and isinstance(r[-1], str):
                r[-1] += p
            else:
                r.append(p)
        return r

    def zbin(self, z, op, o, flip, node):
        if op != 'Add' or not isinstance(o, (str, Text)):
            z.bad('operator on a text', node)
        o = [o] if isinstance(o, str) else o.parts
        return Text(*((o + self.parts) if flip else (self.parts + o)))


class Digits(object):
    """A sequence of digits; kind: 'text' (characters), 'list' (integers) or 'chars' (list of characters)."""
    def __init__(self, kind, n, at):
        self.kind, self.n, self.at = kind, num(n), at

    def to(self, kind):
        return Digits(kind, self.n, self.at)

    def zlen(self, z):
        return self.n

    def zget(self, z, idx, node):
        i = idx[0]
        if len(idx) == 1 and isinstance(i, slice):
            if i.start is None and i.stop is None and i.step == -1:
                n, at = self.n, self.at
                return Digits(self.kind, n, lambda k: at(n - 1 - k))
            if i == slice(None, None, None):
                return self
            z.bad('part of the digits', node)
        if len(idx) != 1 or self.kind != 'list':
            z.bad('a digit', node)
        i = num(i)
        return self.at(z3.If(i < 0, i + self.n, i))

    def zlist(self, z):
        return self.to('chars' if self.kind == 'text' else self.kind)

    def zattr(self, z, n, node):
        if n == 'zfill' and self.kind == 'short':
            def fill(z, a, k):
                return Digits('text', num(a[0]), lambda i, w=num(a[0]): BIT(X, w - 1 - i)) if len(a) == 1 and equal(list(z.axioms) + z.pc, num(a[0]), LEN) else z.bad('zfill', node)
            return Fn(fill)
        if n == 'copy' and self.kind == 'list':
            return Fn(lambda z, a, k: self)
        z.bad('attribute %s of digits' % n, node)


def is_fmt(z, t, w):
    """'0Lb' of width w"""
    p = t.join() if isinstance(t, Text) else [t]
    return len(p) == 3 and p[0] == '0' and p[2] == 'b' and not isinstance(p[1], str) and equal(list(z.axioms) + z.pc, num(p[1]), w)


def b_format(z, a, k):
    if len(a) != 2 or k or not is_fmt(z, a[1], LEN) or not equal(list(z.axioms) + z.pc, num(a[0]), X):
        z.bad('format')
    return Digits('text', LEN, lambda i: BIT(X, LEN - 1 - i))


def b_str(z, a, k):
    v = a[0]
    if isinstance(v, (Text, str)) or isinstance(v, Digits) and v.kind == 'text':
        return v
    if isinstance(v, tuple) and v and v[0] == 'digit':
        return ('char', v[1])
    if isinstance(v, (int, z3.ArithRef)):
        return Text(num(v))
    z.bad('str')


def b_int(z, a, k):
    v = a[0]
    base = a[1] if len(a) > 1 else k.get('base')
    if isinstance(v, Digits) and v.kind == 'text' and base == 2:
        return value(z, v)
    if isinstance(v, tuple) and v and v[0] == 'char' and base is None:
        return v[1]
    if isinstance(v, (int, z3.ArithRef)) and base is None:
        return v
    z.bad('int')


def value(z, d):
    """Value of the digits given: only of the whole list, in order."""
    i = fresh('i')
    hy = list(z.axioms) + z.pc + [i >= 0, i < LEN]
    if not equal(hy, d.n, LEN):
        z.bad('number of digits')
    z.events.append(('value', i, d))
    return z3.Int('the_value')


def b_map(z, a, k):
    f, d = a
    if not isinstance(d, Digits):
        z.bad('map')
    one = z.apply1(f, d)
    return one


def b_list(z, a, k):
    if len(a) == 1 and isinstance(a[0], Digits):
        return a[0].zlist(z)
    if len(a) == 1 and isinstance(a[0], tuple) and a[0] and a[0][0] == 'chain':
        return ('list of', a[0])
    z.bad('list')


def b_bin(z, a, k):
    if not equal(list(z.axioms) + z.pc, num(a[0]), X):
        z.bad('bin')
    return Short()


class Short(object):
    def zget(self, z, idx, node):
        if len(idx) == 1 and idx[0] == slice(2, None, None):
            return Digits('short', z3.Int('short'), lambda i: z.bad('digits without leading zeros', node))
        z.bad('part of the text', node)


def make(S):
    con = {'format': b_format, 'str': b_str, 'int': b_int, 'map': b_map, 'list': b_list, 'bin': b_bin, 'tuple': b_list, 'reversed': lambda z, a, k: a[0].zget(z, [slice(None, None, -1)], None) if isinstance(a[0], Digits) else z.bad('reversed')}
    z = engine(S, con)

    def apply1(f, d):
        i = fresh('i')
        v = ('char', d.at(i)) if d.kind in ('text', 'chars') else d.at(i)
        r = z.call(f, [v], {}, None, {}, None)
        return collect(d, i, r)

    def collect(d, i, r):
        if isinstance(r, tuple) and r and r[0] == 'char':
            kind, v = 'chars', r[1]
        elif isinstance(r, Text) and len(r.parts) == 1 and z3.is_expr(r.parts[0]):
            kind, v = 'chars', r.parts[0]
        elif isinstance(r, (int, z3.ArithRef)):
            kind, v = 'list', num(r)
        else:
            z.bad('what is made of a digit')
        return Digits(kind, d.n, lambda k, v=v, i=i: z3.substitute(v, (i, num(k))))
    z.apply1 = apply1

    def comp(e, env, mod):
        if len(e.generators) != 1 or e.generators[0].ifs or not isinstance(e.generators[0].target, ast.Name):
            z.bad('comprehension', e)
        g = e.generators[0]
        d = z.ev(g.iter, env, mod)
        if not isinstance(d, Digits):
            z.bad('comprehension', e)
        i = fresh('i')
        v = ('char', d.at(i)) if d.kind in ('text', 'chars') else d.at(i)
        r = z.ev(e.elt, dict(env, **{g.target.id: v}), mod)
        return collect(d, i, r)
    z.ev_ListComp = z.ev_GeneratorExp = comp

    def joined(e, env, mod):
        p = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                p.append(v.value)
            else:
                if v.conversion not in (-1, None):
                    z.bad('formatted text', e)
                x = z.ev(v.value, env, mod)
                if v.format_spec is not None:
                    f = z.ev(v.format_spec, env, mod)
                    p.append(b_format(z, [x, f], {}))
                else:
                    p.append(num(x) if isinstance(x, (int, z3.ArithRef)) else x)
        if len(p) == 1 and isinstance(p[0], Digits):
            return p[0]
        if any(isinstance(x, (Digits, Text)) for x in p):
            z.bad('formatted text', e)
        return Text(*p)
    z.ev_JoinedStr = joined
    base = z.ev_Call

    def call(e, env, mod):
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in ('join', 'format'):
            t = z.ev(f.value, env, mod)
            if isinstance(t, str) and f.attr == 'join' and t == '' and len(e.args) == 1 and not e.keywords:
                d = z.ev(e.args[0], env, mod)
                if isinstance(d, Digits) and d.kind in ('chars', 'text'):
                    return d.to('text')
                z.bad('join', e)
            if isinstance(t, str) and f.attr == 'format':
                a = [z.ev(x, env, mod) for x in e.args]
                if t == '{:0{}b}' and len(a) == 2 and not e.keywords:
                    return b_format(z, [a[0], Text('0', num(a[1]), 'b')], {})
                if t.count('{}') == 1 and t.count('{') == 1 and len(a) == 1 and not e.keywords:
                    l, r = t.split('{}')
                    return Text(l, num(a[0]), r)
                z.bad('format', e)
        return base(e, env, mod)
    z.ev_Call = call
    return z


def to_list(S, strq):
    z = make(S)

    def run(z):
        reset(z)
        z.assume(z3.And(LEN >= 1, X >= 0))
        return z.inline(func(S, 'integer_to_binarylist'), [X, LEN], dict(strq=True) if strq else {}, None)
    ck = Check('integer_to_binarylist: the digits of a number below 2^n, highest first (strq=%s)' % strq, z)
    n = 0
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised) or not isinstance(r, Digits):
            raise OutOfReach('result %r' % (r,))
        n += 1
        if r.kind != ('text' if strq else 'list'):
            ck.fail('the kind of the result')
            continue
        i = fresh('i')
        ck.eq(hy, r.n, LEN, 'number of digits')
        ck.eq(hy + [i >= 0, i < LEN], r.at(i), BIT(X, LEN - 1 - i), 'digit')
    if not n:
        raise OutOfReach('no path')
    return ck.out()


def to_integer(S):
    z = make(S)

    def run(z):
        reset(z)
        z.assume(LEN >= 1)
        return z.inline(func(S, 'binarylist_to_integer'), [Digits('list', LEN, lambda i: DIG(num(i)))], {}, None)
    ck = Check('binarylist_to_integer: the value of the digits, highest first', z)
    n = 0
    for pc, r, ev in z.explore(run):
        hy = list(z.axioms) + pc
        if not live(z, pc):
            continue
        if isinstance(r, Raised) or not (z3.is_expr(r) and r.eq(z3.Int('the_value'))):
            raise OutOfReach('result %r' % (r,))
        n += 1
        v = [e for e in ev if e[0] == 'value']
        if len(v) != 1:
            raise OutOfReach('values')
        i, d = v[0][1], v[0][2]
        ck.eq(hy + [i >= 0, i < LEN], d.at(i), DIG(i), 'digit')
    if not n:
        raise OutOfReach('no path')
    return ck.out()


def inverses(S):
    """Lemmas by induction: H(0) = 0, H(k+1) = 2 H(k) + d(k) is the value of the first k digits."""
    z = make(S)
    ck = Check('lemma: digits of a number and value of digits are inverse to each other', z)
    H, Q = z3.Function('H', I, I), z3.Function('Q', I, I)       # Q(k) = x div 2^(n-k)
    k = z3.Int('k')
    d = lambda j: BIT(X, LEN - 1 - j)
    # bit L-1-k of x is (x div 2^(L-1-k)) mod 2, and x div 2^(L-k) is half of x div 2^(L-k-1)
    hy = [k >= 0, k < LEN, d(k) == Q(k + 1) % 2, Q(k) == Q(k + 1) / 2, H(k + 1) == 2*H(k) + d(k)]
    ck.holds([X >= 0, X < POW(LEN), Q(0) == X / POW(LEN), POW(LEN) > 0, H(0) == 0], H(0) == Q(0), 'start')
    ck.holds(hy + [H(k) == Q(k)], H(k + 1) == Q(k + 1), 'the value of the first digits of x is x without its last ones')
    e = lambda j: DIG(j)
    g = [e(k) >= 0, e(k) <= 1, H(k + 1) == 2*H(k) + e(k), H(k) >= 0]
    ck.holds(g, z3.And(H(k + 1) / 2 == H(k), H(k + 1) % 2 == e(k), H(k + 1) >= 0), 'the digits of the value are those given')
    ck.holds(g + [H(k) < POW(k), POW(k + 1) == 2*POW(k)], H(k + 1) < POW(k + 1), 'the value is below 2^n')
    return ck.out()


def flat(S):
    """flatten: the entries of the lists one after the other, in order."""
    z = make(S)

    class L(object):
        def zloop(self, z, st, env, mod):
            z.bad('loop over the lists', st)
    given = L()
    chain = ('chain', given)
    z.contracts['itertools.chain.from_iterable'] = lambda z, a, k: chain if len(a) == 1 and a[0] is given else z.bad('chain')
    base = z.ev_Call

    def comp(e, env, mod):
        g = e.generators
        if (len(g) == 2 and not g[0].ifs and not g[1].ifs and all(isinstance(x.target, ast.Name) for x in g) and isinstance(g[1].iter, ast.Name)
                and g[1].iter.id == g[0].target.id and isinstance(e.elt, ast.Name) and e.elt.id == g[1].target.id and z.ev(g[0].iter, env, mod) is given):
            return ('list of', chain)
        z.bad('comprehension', e)
    z.ev_ListComp = comp

    def call(e, env, mod):
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr == 'chain' and len(e.args) == 1 and isinstance(e.args[0], ast.Starred) and not e.keywords:
            return chain if z.ev(e.args[0].value, env, mod) is given else z.bad('chain', e)
        return base(e, env, mod)
    z.ev_Call = call

    def run(z):
        reset(z)
        return z.inline(func(S, 'flatten'), [given], {}, None)
    ck = Check('flatten: the entries of the lists in order', z)
    for pc, r, ev in z.explore(run):
        if r != ('list of', chain):
            raise OutOfReach('result %r' % (r,))
        ck.n += 1
    return ck.out()


def obligations(prop, S):
    r = []
    if prop == 'C01':
        for s in (False, True):
            r += guarded('integer_to_binarylist', lambda: to_list(S, s))
        r += guarded('binarylist_to_integer', lambda: to_integer(S))
        r += guarded('digits', lambda: inverses(S))
        r += guarded('flatten', lambda: flat(S))
    return r


SELF = {'C01': [(FILE, None, 'integer_to_binarylist'), (FILE, None, 'binarylist_to_integer')]}
ASSUME = {'C01': ['text formatting of integers by Python (format, bin, int(text, 2)), itertools.chain']}
