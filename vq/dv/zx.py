"""Path-by-path symbolic execution of a real function body with z3 values.

Every feasible path of the function is executed once (decisions are replayed, infeasible branches are pruned by z3);
callees are executed too unless a contract is given for them, which then stands for the body.  Loops with a known number
of iterations are unrolled, `for` loops over symbolic domains are executed for one arbitrary iteration (given by the
caller's loop contract).  Floating point numbers are real numbers here."""
import ast, math, random, time
from fractions import Fraction
import z3
from .src import OutOfReach

TIMEOUT = 8000
DEADLINE = [None]           # set by main.py: after it, every obligation gets one second


class Raised(Exception):
    """The code raises: an outcome of the path."""
    def __init__(self, what):
        self.what = what


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Infeasible(Exception):
    pass


class Cx(object):
    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return 'Cx(%s, %s)' % (self.re, self.im)


class ZObj(object):
    """Object with attributes; cls gives methods; missing attributes are made by lazy(name) or out of reach."""
    def __init__(self, name, cls=None, attrs=None, lazy=None):
        self.name, self.cls, self.attrs, self.lazy = name, cls, dict(attrs or {}), lazy

    def __repr__(self):
        return '<%s>' % self.name


class ZArr(object):
    """Array: contents before are an uninterpreted function of the indices, followed by a log of writes."""
    def __init__(self, name, dim, kind='real', base=None):
        self.name, self.dim, self.kind, self.log = name, dim, kind, []
        S = {'real': z3.RealSort(), 'int': z3.IntSort(), 'bool': z3.BoolSort()}
        I = [z3.IntSort()] * dim
        if base is not None:
            self.base = base
        elif kind == 'cx':
            fr, fi = z3.Function(name + '.re', *I, z3.RealSort()), z3.Function(name + '.im', *I, z3.RealSort())
            self.base = lambda *i: Cx(fr(*i), fi(*i))
        else:
            f = z3.Function(name, *I, S[kind])
            self.base = lambda *i: f(*i)

    def read(self, idx):
        v = self.base(*[toint(i) for i in idx])
        for w, x, _ in self.log:
            if w == 'fill':
                v = x
                continue
            c = z3.And(*[toint(a) == toint(b) for a, b in zip(w, idx)])
            c = z3.simplify(c)
            if z3.is_true(c):
                v = x
            elif z3.is_false(c):
                pass
            else:
                v = ite(c, x, v)
        return v

    def write(self, idx, v):
        self.log.append((tuple(idx), v, self.read(idx)))


class Fn(object):
    def __init__(self, f):
        self.f = f


class Super(object):
    """super() inside a method of cls."""
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls

    def zattr(self, z, n, node):
        l = z.S.mro(*self.obj.cls)
        k = [i for i, (m, c) in enumerate(l) if c is self.cls]
        if len(k) != 1:
            z.bad('super', node)
        for m, c in l[k[0] + 1:]:
            for x in reversed(c.body):
                if isinstance(x, ast.FunctionDef) and x.name == n:
                    return Bound(self.obj, (m, c, x))
        z.bad('%s of super()' % n, node)


class Bound(object):
    def __init__(self, obj, m):
        self.obj, self.m = obj, m


def tagof(t):
    return t[0] if t and isinstance(t[0], str) else None


def toint(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def num(v):
    """z3 arithmetic expression or Cx."""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return z3.RealVal(str(Fraction(repr(v))))
    if isinstance(v, complex):
        return Cx(num(v.real), num(v.imag))
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (z3.ArithRef, Cx)):
        return v
    raise OutOfReach('a number was expected, not %s' % type(v).__name__)


def real(v):
    v = num(v)
    if isinstance(v, Cx):
        raise OutOfReach('a real number was expected')
    return z3.ToReal(v) if v.sort() == z3.IntSort() else v


def cx(v):
    v = num(v)
    return v if isinstance(v, Cx) else Cx(real(v), z3.RealVal(0))


def ite(c, a, b):
    a, b = num(a) if not isinstance(a, z3.BoolRef) else a, num(b) if not isinstance(b, z3.BoolRef) else b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(z3.If(c, a.re, b.re), z3.If(c, a.im, b.im))
    if isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef) and a.sort() != b.sort():
        a, b = real(a), real(b)
    return z3.If(c, a, b)


PI = z3.Real('pi')


class Z(object):
    def __init__(self, sources, contracts=None, loops=None, axioms=()):
        self.S, self.contracts, self.loops = sources, contracts or {}, loops or {}
        self.axioms = [PI > 3, PI < 4] + list(axioms)
        self.inlined = []
        self.used = {}
        self.choices, self.k = [], 0
        self.pc, self.depth = [], 0
        self.extra = []             # instances of axioms about opaque functions on this path
        self.raised_assumptions = []
        self.events = []

    # ------------------------------------------------------------------------------------------ exploring
    def explore(self, f, limit=400):
        """f(self) -> result, executed on every feasible path: [(path condition, result or Raised, events)]."""
        out, stack = [], [[]]
        while stack:
            self.choices, self.k, self.pc, self.depth, self.extra, self.events = stack.pop(), 0, [], 0, [], []
            self.stack = stack
            try:
                r = f(self)
            except Raised as e:
                r = e
            except Infeasible:
                continue
            out.append((list(self.pc) + list(self.extra), r, list(self.events)))
            if len(out) > limit:
                raise OutOfReach('more than %d paths' % limit)
        return out

    def feasible(self, c):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.axioms, *self.pc, *self.extra, c)
        return s.check() != z3.unsat

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.k < len(self.choices):
            v = self.choices[self.k]
            self.k += 1
            self.pc.append(c if v else z3.Not(c))
            return v
        t, f = self.feasible(c), self.feasible(z3.Not(c))
        if not t and not f:
            raise Infeasible()
        v = t
        if t and f:
            self.stack.append(self.choices[:self.k] + [False])
        self.choices = self.choices[:self.k] + [v]
        self.k += 1
        self.pc.append(c if v else z3.Not(c))
        return v

    def choose(self, name):
        """A free choice (does the callee raise?)."""
        b = z3.Bool('choice!%s!%d' % (name, self.k))
        return self.decide(b)

    def assume(self, c):
        self.extra.append(c)

    # ------------------------------------------------------------------------------------------ expressions
    def bad(self, msg, node=None):
        raise OutOfReach(msg + (' (line %s)' % node.lineno if node is not None and hasattr(node, 'lineno') else ''))

    def ev(self, e, env, mod):
        f = getattr(self, 'ev_' + type(e).__name__, None)
        if f is None:
            self.bad('expression %s' % type(e).__name__, e)
        return f(e, env, mod)

    def ev_Constant(self, e, env, mod):
        return e.value

    def ev_Name(self, e, env, mod):
        n = e.id
        if n in env:
            if hasattr(env[n], 'zpoison'):
                self.bad('%s is carried from one iteration of a loop to another' % n, e)
            return env[n]
        if n in self.contracts:
            return Fn(self.contracts[n])
        if n == 'pi':
            return PI
        r = self.S.resolve(mod, n)
        if r is not None:
            if r[0] == 'const':
                return self.ev(r[2], {}, r[1])
            return r
        return ('builtin', n)

    def ev_Tuple(self, e, env, mod):
        return tuple(self.ev(x, env, mod) for x in e.elts)

    def ev_List(self, e, env, mod):
        return [self.ev(x, env, mod) for x in e.elts]

    def ev_Attribute(self, e, env, mod):
        b = self.ev(e.value, env, mod)
        return self.attr(b, e.attr, e, mod)

    def attr(self, b, n, node, mod):
        if isinstance(b, tuple) and len(b) == 2 and tagof(b) == 'builtin':
            if n == 'pi':
                return PI
            q = b[1] + '.' + n
            if q in self.contracts:
                return Fn(self.contracts[q])
            return ('builtin', q)
        if isinstance(b, tuple) and b and tagof(b) == 'class':
            return ('classattr', b, n)
        if isinstance(b, tuple) and len(b) == 3 and tagof(b) == 'classattr' and n in ('fset', 'fget'):
            o = ZObj(b[1][2].name, (b[1][1], b[1][2]))
            m = self.setter(o, b[2]) if n == 'fset' else self.S.method(b[1][1], b[1][2], b[2])
            if m is None:
                self.bad('property %s' % b[2], node)
            return Fn(lambda z, a, k: z.inline(m, a, k, node))
        if isinstance(b, str) and n in ('capitalize', 'lower', 'upper', 'startswith', 'endswith', 'title', 'strip', 'format', 'join', 'replace'):
            return Fn(lambda z, a, k: getattr(b, n)(*a) if not k and all(isinstance(x, (str, int)) for x in a) else z.bad('method of a string', node))
        if isinstance(b, ZObj):
            if n in b.attrs:
                return b.attrs[n]
            key = '%s.%s' % (b.name, n)
            if key in self.contracts:
                return Fn(lambda z, a, k: self.contracts[key](z, [b] + a, k))
            if b.cls is not None:
                m = self.S.method(b.cls[0], b.cls[1], n)
                if m is not None:
                    if any(isinstance(d, ast.Name) and d.id == 'property' for d in m[2].decorator_list):
                        return self.call_method(b, m, [], {}, node)
                    return Bound(b, m)
                for m2, c2 in self.S.mro(b.cls[0], b.cls[1]):
                    for x in c2.body:
                        if isinstance(x, ast.Assign) and len(x.targets) == 1 and getattr(x.targets[0], 'id', None) == n:
                            return self.ev(x.value, {}, m2)
            if b.lazy is not None:
                v = b.lazy(n)
                if v is not None:
                    b.attrs[n] = v
                    return v
            self.bad('attribute %s of %s' % (n, b.name), node)
        if n in ('real', 'imag', 'conjugate', 'conj') and hasattr(b, 'zattr'):
            return b.zattr(self, n, node)
        if n in ('real', 'imag'):
            c = cx(b)
            return c.re if n == 'real' else c.im
        if n in ('conjugate', 'conj') and isinstance(b, (Cx, z3.ArithRef, int, float, complex)):
            c = cx(b)
            return Fn(lambda z, a, k: Cx(c.re, -c.im))
        if isinstance(b, (ZArr, list, dict)):
            return ('method', b, n)
        if isinstance(b, z3.ExprRef) or not isinstance(b, tuple):
            h = getattr(b, 'zattr', None)
            if h is not None:
                return h(self, n, node)
        self.bad('attribute %s of %s' % (n, type(b).__name__), node)

    def ev_Subscript(self, e, env, mod):
        b = self.ev(e.value, env, mod)
        if isinstance(b, ZArr):
            idx = self.index(e.slice, env, mod)
            if any(isinstance(i, slice) for i in idx):
                return ('view', b, idx)
            if len(idx) < b.dim:
                return ('view', b, idx)
            return b.read(idx)
        if isinstance(b, tuple) and len(b) == 3 and tagof(b) == 'view':
            idx = list(b[2]) + self.index(e.slice, env, mod)
            if len(idx) == b[1].dim and not any(isinstance(i, slice) for i in idx):
                return b[1].read(idx)
            return ('view', b[1], idx)
        h = getattr(b, 'zget', None)
        if h is not None:
            return h(self, self.index(e.slice, env, mod, getattr(b, 'zellipsis', False)), e)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, env, mod) if e.slice.lower else None
            hi = self.ev(e.slice.upper, env, mod) if e.slice.upper else None
            if isinstance(b, (list, tuple, str)) and e.slice.step is None and all(x is None or isinstance(x, int) for x in (lo, hi)):
                return b[lo:hi]
            self.bad('slice', e)
        i = self.ev(e.slice, env, mod)
        if isinstance(i, z3.ArithRef):
            s = z3.simplify(i)
            if z3.is_int_value(s):
                i = s.as_long()
        if isinstance(b, (list, tuple, str)) and isinstance(i, int):
            return b[i]
        if isinstance(b, dict):
            if i in b:
                return b[i]
            raise Raised('KeyError')
        self.bad('subscript of %s' % type(b).__name__, e)

    def index(self, s, env, mod, dots=False):
        if isinstance(s, ast.Tuple):
            if dots and any(isinstance(y, ast.Constant) and y.value is Ellipsis for y in s.elts):
                return [x for y in s.elts for x in ([Ellipsis] if isinstance(y, ast.Constant) and y.value is Ellipsis else self.index(y, env, mod))]
            if any(isinstance(y, ast.Constant) and (y.value is None or y.value is Ellipsis) for y in s.elts):
                self.bad('index with an ellipsis or a new axis', s)
            return [x for y in s.elts for x in self.index(y, env, mod)]
        if isinstance(s, ast.Constant) and s.value is Ellipsis:
            return [slice(None)]
        if isinstance(s, ast.Slice):
            return [slice(*[self.ev(x, env, mod) if x else None for x in (s.lower, s.upper, s.step)])]
        v = self.ev(s, env, mod)
        if isinstance(v, tuple) and not (v and tagof(v) in ('builtin', 'view')):
            return list(v)
        return [v]

    def ev_BinOp(self, e, env, mod):
        return self.binop(type(e.op).__name__, self.ev(e.left, env, mod), self.ev(e.right, env, mod), e)

    def binop(self, op, a, b, e=None):
        h = getattr(a, 'zbin', None)
        if h is not None:
            return h(self, op, b, False, e)
        h = getattr(b, 'zbin', None)
        if h is not None:
            return h(self, op, a, True, e)
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, (str,)) or isinstance(b, str):
            return 'text'
        if isinstance(a, list) and isinstance(b, z3.ArithRef) and op == 'Mult' and hasattr(self, 'replist'):
            return self.replist(a, b)
        if isinstance(a, list) or isinstance(b, list):
            if op == 'Add' and isinstance(a, list) and isinstance(b, list) and not getattr(self, 'vec', False):
                return a + b
            if isinstance(a, list) and isinstance(b, list):
                return [self.binop(op, x, y, e) for x, y in zip(a, b)]
            if isinstance(a, list):
                return [self.binop(op, x, b, e) for x in a]
            return [self.binop(op, a, x, e) for x in b]
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        num_ = (int, float, complex)
        if isinstance(a, num_) and isinstance(b, num_):
            if isinstance(a, int) and isinstance(b, int):
                if op == 'Add':
                    return a + b
                if op == 'Sub':
                    return a - b
                if op == 'Mult':
                    return a * b
                if op == 'FloorDiv' and b:
                    return a // b
                if op == 'Mod' and b:
                    return a % b
                if op == 'Pow' and b >= 0:
                    return a ** b
        a, b = num(a), num(b)
        if op == 'Pow':
            return self.power(a, b, e)
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = cx(a), cx(b)
            if op == 'Add':
                return Cx(a.re + b.re, a.im + b.im)
            if op == 'Sub':
                return Cx(a.re - b.re, a.im - b.im)
            if op == 'Mult':
                return Cx(a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re)
            if op == 'Div':
                im = z3.simplify(b.im)
                if z3.is_rational_value(im) and im.as_fraction() == 0:
                    return Cx(a.re / b.re, a.im / b.re)
                d = b.re*b.re + b.im*b.im
                return Cx((a.re*b.re + a.im*b.im)/d, (a.im*b.re - a.re*b.im)/d)
            self.bad('operator %s on complex numbers' % op, e)
        ints = a.sort() == z3.IntSort() and b.sort() == z3.IntSort()
        if op in ('Add', 'Sub', 'Mult') and not ints:
            a, b = real(a), real(b)
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'Div':
            return real(a) / real(b)
        if op == 'FloorDiv' and ints:
            return a / b        # z3 integer division rounds down for positive divisors
        if op == 'Mod' and ints:
            return a % b
        self.bad('operator %s' % op, e)

    def power(self, a, b, e):
        b = z3.simplify(b) if isinstance(b, z3.ArithRef) else b
        if z3.is_int_value(b) and 0 <= b.as_long() <= 4:
            r = 1
            for _ in range(b.as_long()):
                r = self.binop('Mult', r, a, e)
            return r
        if isinstance(a, z3.ArithRef):
            a = z3.simplify(a)
            if z3.is_int_value(a) and a.as_long() == -1 and b.sort() == z3.IntSort():
                return z3.If(b % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
            if z3.is_int_value(a) and a.as_long() == 1:
                return z3.IntVal(1)
            if z3.is_int_value(a) and a.as_long() == 2 and b.sort() == z3.IntSort():
                return POW2(b)
        self.bad('power', e)

    def ev_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        k = type(e.op).__name__
        if k == 'USub':
            if isinstance(v, (int, float, complex)) and not isinstance(v, bool):
                return -v
            if isinstance(v, list):
                return [self.binop('Mult', -1, x, e) for x in v]
            if hasattr(v, 'zbin'):
                return v.zbin(self, 'Mult', -1, False, e)
            v = num(v)
            return Cx(-v.re, -v.im) if isinstance(v, Cx) else -v
        if k == 'UAdd':
            return v
        if k == 'Not':
            t = self.truth(v, e)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        self.bad('operator %s' % k, e)

    def truth(self, v, node=None):
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, complex, str, tuple, list, dict)):
            return bool(v)
        if isinstance(v, z3.ArithRef):
            return v != 0
        h = getattr(v, 'ztruth', None)
        if h is not None:
            return h(self)
        if isinstance(v, ZObj):
            return True
        self.bad('truth value of %s' % type(v).__name__, node)

    def ev_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env, mod)
            if i == len(e.values) - 1:
                return v
            if self.decide(self.truth(v, x)) != isand:
                return v
        return v

    def ev_Compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        conds = []
        for op, right in zip(e.ops, e.comparators):
            r = self.ev(right, env, mod)
            c = self.cmp(type(op).__name__, left, r, e)
            conds.append(c)
            if len(e.ops) > 1 and isinstance(c, bool) and not c:
                return False
            left = r
        conds = [c for c in conds if c is not True]
        if not conds:
            return True
        if any(c is False for c in conds):
            return False
        return conds[0] if len(conds) == 1 else z3.And(*conds)

    def cmp(self, op, a, b, node):
        for x, y, fl in ((a, b, False), (b, a, True)):
            h = getattr(x, 'zcmp', None)
            if h is not None:
                return h(self, op, y, fl, node)
        if op in ('In', 'NotIn'):
            h = getattr(b, 'zin', None)
            if h is not None:
                r = h(self, a, node)
                return r if op == 'In' else ((not r) if isinstance(r, bool) else z3.Not(r))
            if isinstance(b, (tuple, list, set, dict, str)):
                if isinstance(a, (int, str, bool, type(None), tuple)) and all(isinstance(x, (int, str, bool, type(None), tuple)) for x in b):
                    return (a in b) == (op == 'In')
                cs = [self.cmp('Eq', a, x, node) for x in b]
                cs2 = [c for c in cs if not isinstance(c, bool)]
                r = True if any(c is True for c in cs) else (z3.Or(*cs2) if cs2 else False)
                return r if op == 'In' else ((not r) if isinstance(r, bool) else z3.Not(r))
            self.bad('membership', node)
        if op in ('Is', 'IsNot') and (a is None or b is None):
            r = a is None and b is None
            return r if op == 'Is' else not r
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if isinstance(a, (str, type(None), int, bool)) and isinstance(b, (str, type(None), int, bool)):
                return (a == b) == (op in ('Eq', 'Is'))
            if op in ('Eq', 'Is', 'NotEq', 'IsNot'):
                return op in ('NotEq', 'IsNot')
            self.bad('comparison', node)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b, 'Is': a == b, 'IsNot': a != b}[op]
        if isinstance(a, ZObj) or isinstance(b, ZObj):
            if op in ('Eq', 'Is', 'NotEq', 'IsNot'):
                return (a is b) == (op in ('Eq', 'Is'))
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ('Eq', 'NotEq') and len(a) == len(b):
            c = z3.And(*[self.zb(self.cmp('Eq', x, y, node)) for x, y in zip(a, b)])
            return c if op == 'Eq' else z3.Not(c)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            c = self.zb(a) == self.zb(b)
            return c if op in ('Eq', 'Is') else z3.Not(c)
        a, b = num(a), num(b)
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = cx(a), cx(b)
            c = z3.And(a.re == b.re, a.im == b.im)
            if op in ('Eq', 'NotEq'):
                return c if op == 'Eq' else z3.Not(c)
            self.bad('order of complex numbers', node)
        if a.sort() != b.sort():
            a, b = real(a), real(b)
        return {'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Lt': lambda: a < b, 'Gt': lambda: a > b, 'LtE': lambda: a <= b,
                'GtE': lambda: a >= b, 'Is': lambda: a == b, 'IsNot': lambda: a != b}[op]()

    def zb(self, c):
        return z3.BoolVal(c) if isinstance(c, bool) else c

    def ev_IfExp(self, e, env, mod):
        return self.ev(e.body if self.decide(self.truth(self.ev(e.test, env, mod), e)) else e.orelse, env, mod)

    def ev_Lambda(self, e, env, mod):
        names = [a.arg for a in e.args.args]

        def f(z, args, kw):
            en = dict(env)
            en.update(zip(names, args))
            return self.ev(e.body, en, mod)
        return Fn(f)

    def ev_JoinedStr(self, e, env, mod):
        return 'text'

    def ev_Dict(self, e, env, mod):
        return {self.ev(k, env, mod): self.ev(v, env, mod) for k, v in zip(e.keys, e.values)}

    def ev_Set(self, e, env, mod):
        return set(self.ev(x, env, mod) for x in e.elts)

    def ev_ListComp(self, e, env, mod):
        return [self.ev(e.elt, en, mod) for en in self.comprehended(e, e.generators, env, mod)]

    def comprehended(self, e, gens, env, mod):
        """The environments in which the element of a comprehension is evaluated, one after the other."""
        if not gens:
            yield env
            return
        g = gens[0]
        for x in self.items(self.ev(g.iter, env, mod), e):
            en = dict(env)
            self.bind(g.target, x, en, mod, e)
            if all(self.decide(self.truth(self.ev(c, en, mod), e)) for c in g.ifs):
                yield from self.comprehended(e, gens[1:], en, mod)

    def ev_DictComp(self, e, env, mod):
        out = {}
        for en in self.comprehended(e, e.generators, env, mod):
            k = self.ev(e.key, en, mod)
            if not all(isinstance(x, (str, int)) for x in (k if isinstance(k, tuple) else (k,))):
                self.bad('comprehension with symbolic keys', e)
            out[k] = self.ev(e.value, en, mod)
        return out

    def ev_SetComp(self, e, env, mod):
        self.bad('comprehension', e)

    ev_GeneratorExp = ev_ListComp

    def items(self, it, node):
        if isinstance(it, (list, tuple, set)):
            if isinstance(it, tuple) and it and tagof(it) in ('builtin', 'view'):
                self.bad('iteration', node)
            return list(it)
        if isinstance(it, dict):
            return list(it)
        if isinstance(it, range):
            if len(it) > 64:
                self.bad('long loop', node)
            return list(it)
        self.bad('iteration over %s' % type(it).__name__, node)

    # ------------------------------------------------------------------------------------------ calls
    def ev_Call(self, e, env, mod):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in env and not e.keywords:
            m, c, fn = env.get('@fn', (None, None, None))
            o = env.get(fn.args.args[0].arg) if fn is not None and fn.args.args else None
            if c is None or not isinstance(o, ZObj) or o.cls is None or len(e.args) not in (0, 2):
                self.bad('super', e)
            return Super(o, c)
        f = self.ev(e.func, env, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.ev(a.value, env, mod))
            else:
                args.append(self.ev(a, env, mod))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env, mod))
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        return self.call(f, args, kw, e, env, mod)

    def call(self, f, args, kw, node, env, mod):
        if isinstance(f, Fn):
            return f.f(self, args, kw)
        if isinstance(f, Bound):
            return self.call_method(f.obj, f.m, args, kw, node)
        if isinstance(f, tuple):
            if f[0] == 'builtin':
                return self.builtin(f[1], args, kw, node)
            if f[0] == 'func':
                return self.inline((f[1], None, f[2]), args, kw, node)
            if f[0] == 'classattr':
                m = self.S.method(f[1][1], f[1][2], f[2])
                if m is None:
                    self.bad('method %s' % f[2], node)
                if args and isinstance(args[0], ZObj):
                    key = '%s.%s' % (f[1][2].name, f[2])
                    if key in self.contracts:
                        return self.contracts[key](self, args, kw)
                return self.inline(m, args, kw, node)
            if f[0] == 'class':
                key = f[2].name
                if key in self.contracts:
                    return self.contracts[key](self, args, kw)
                o = ZObj(f[2].name, (f[1], f[2]))
                m = self.S.method(f[1], f[2], '__init__')
                if m is not None:
                    self.inline(m, [o] + args, kw, node)
                return o
            if f[0] == 'method':
                return self.container(f[1], f[2], args, kw, node)
        self.bad('call of %r' % (f,), node)

    def container(self, b, n, args, kw, node):
        if isinstance(b, ZArr):
            if n == 'fill':
                b.log.append(('fill', num(args[0]), None))
                return None
        if isinstance(b, list) and n == 'append':
            b.append(args[0])
            return None
        if isinstance(b, dict):
            if n == 'update' and len(args) == 1 and isinstance(args[0], dict):
                b.update(args[0])
                return None
            if n == 'copy':
                return dict(b)
            if n == 'items':
                return [(k, v) for k, v in b.items()]
            if n == 'keys':
                return list(b)
            if n == 'values':
                return list(b.values())
            if n == 'get':
                return b.get(args[0], args[1] if len(args) > 1 else None)
        self.bad('method %s' % n, node)

    def call_method(self, o, m, args, kw, node):
        key = '%s.%s' % (m[1].name, m[2].name)
        if key in self.contracts:
            return self.contracts[key](self, [o] + args, kw)
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m[2].decorator_list)
        return self.inline(m, args if static else [o] + args, kw, node)

    def inline(self, m, args, kw, node):
        mod, cls, fn = m
        if self.depth > 15:
            self.bad('call depth', node)
        names = [a.arg for a in fn.args.args]
        env = {}
        for i, a in enumerate(args):
            if i < len(names):
                env[names[i]] = a
            elif not fn.args.vararg:
                raise Raised('TypeError')
        if fn.args.vararg:
            env[fn.args.vararg.arg] = tuple(args[len(names):])
        rest = {}
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                rest[k] = v
        if fn.args.kwarg:
            env[fn.args.kwarg.arg] = rest
        elif rest:
            raise Raised('TypeError')
        d = fn.args.defaults
        for n, dv in zip(names[len(names)-len(d):], d):
            if n not in env:
                env[n] = self.ev(dv, {}, mod)
        for n in names:
            if n not in env:
                raise Raised('TypeError')
        nm = '%s:%s%s' % (mod.rel, cls.name + '.' if cls is not None else '', fn.name)
        if nm not in self.inlined:
            self.inlined.append(nm)
        self.depth += 1
        env['@fn'] = (mod, cls, fn)
        try:
            self.block(fn.body, env, mod)
            r = None
        except Ret as e:
            r = e.v
        self.depth -= 1
        return r

    def builtin(self, n, args, kw, node):
        s = n.split('.')[-1]
        if n in ('print',):
            return None
        if n == '_cint' or n == 'int':
            v = args[0]
            if isinstance(v, (int, bool)):
                return int(v)
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            v = num(v)
            return v if v.sort() == z3.IntSort() else z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if n in ('bool', 'bool_t'):
            return self.truth(args[0], node)
        if n == '_cbuffer':
            return ZArr('buffer', 1)
        if n == 'float':
            return real(args[0]) if not isinstance(args[0], (int, float)) else args[0]
        if n in ('abs', 'fabs', 'np.abs', 'math.fabs'):
            v = num(args[0])
            if isinstance(v, Cx):
                m = z3.FreshReal('modulus')
                a, b = z3.If(v.re >= 0, v.re, -v.re), z3.If(v.im >= 0, v.im, -v.im)
                self.extra += [m >= a, m >= b, m <= a + b, m * m == v.re * v.re + v.im * v.im]
                return m
            return z3.If(v >= 0, v, -v)
        if n in ('max', 'min') and len(args) == 2:
            if all(isinstance(a, (int, float)) for a in args):
                return max(args) if n == 'max' else min(args)
            a, b = num(args[0]), num(args[1])
            if isinstance(a, Cx) or isinstance(b, Cx) or a.sort() != b.sort():
                a, b = real(args[0]), real(args[1])
            return z3.If(a >= b, a, b) if n == 'max' else z3.If(a <= b, a, b)
        if s in ('array', 'asarray') and n.startswith('np.') and not hasattr(args[0], 'zlist'):
            return args[0]
        if n == 'np.zeros' and isinstance(args[0], int):
            return [0] * args[0]
        if s in ('conj', 'conjugate'):
            c = cx(args[0])
            return Cx(c.re, -c.im)
        if n == 'len':
            if isinstance(args[0], (list, tuple, dict, str, set)):
                return len(args[0])
            h = getattr(args[0], 'zlen', None)
            if h is not None:
                return h(self)
        if n == 'range':
            if all(isinstance(a, int) for a in args):
                return range(*args)
            h = ('range',) + tuple(args)
            return SymRange(args)
        if n == 'isinstance':
            return self.isinst(args[0], args[1], node)
        if n in ('list', 'np.array', 'np.copy') and len(args) == 1 and hasattr(args[0], 'zlist'):
            return args[0].zlist(self)
        if n in ('sum', 'np.sum') and len(args) == 1 and hasattr(args[0], 'zsum'):
            return args[0].zsum(self)
        if n == 'dict' and not kw:
            if not args:
                return {}
            if isinstance(args[0], dict):
                return dict(args[0])
            if hasattr(args[0], 'zlist'):
                return args[0].zlist(self)
        if n in ('np.power', 'pow') and len(args) == 2:
            return self.binop('Pow', args[0], args[1], node)
        if n in ('list', 'tuple', 'sorted', 'reversed') and len(args) == 1 and isinstance(args[0], (list, tuple, range, set)):
            r = list(args[0])
            return {'list': r, 'tuple': tuple(r), 'reversed': r[::-1], 'sorted': sorted(r) if n == 'sorted' else r}[n]
        if n == 'enumerate' and isinstance(args[0], (list, tuple)):
            return list(enumerate(args[0]))
        if n == 'zip' and all(isinstance(a, (list, tuple)) for a in args):
            return list(zip(*args))
        if n == 'complex' and len(args) == 2:
            return Cx(real(args[0]), real(args[1]))
        if n == 'sum' and len(args) == 1 and isinstance(args[0], (list, tuple)):
            r = 0
            for x in args[0]:
                r = self.binop('Add', r, x, node)
            return r
        if n in ('exp', 'np.exp'):
            return EXP(self, args[0])
        if n in ('log', 'np.log'):
            return LOGF(real(args[0]))
        self.bad('call of %s' % n, node)

    def isinst(self, v, t, node):
        if isinstance(t, tuple) and t and isinstance(t[0], tuple) and t[0] != 'builtin':
            return any(self.isinst(v, x, node) for x in t)
        name = t[1] if isinstance(t, tuple) and t[0] == 'builtin' else t[2].name if isinstance(t, tuple) and t[0] == 'class' else None
        if hasattr(v, 'zisinst') and name is not None:
            return v.zisinst(name)
        if name in ('numbers.Number', 'float', 'int', 'complex'):
            if name == 'numbers.Number':
                return isinstance(v, (int, float, complex, z3.ArithRef, Cx))
            self.bad('isinstance', node)
        if name in ('np.ndarray', 'numpy.ndarray') and isinstance(v, (dict, list, tuple, z3.ArithRef, Cx, int, float, str, type(None))):
            return False
        if name == 'dict':
            return isinstance(v, dict)
        if name == 'list':
            return isinstance(v, list)
        if name == 'tuple':
            return isinstance(v, tuple)
        if name == 'str':
            return isinstance(v, str)
        self.bad('isinstance', node)

    # ------------------------------------------------------------------------------------------ statements
    def block(self, stmts, env, mod):
        for st in stmts:
            self.stmt(st, env, mod)

    def stmt(self, st, env, mod):
        k = type(st).__name__
        if k == 'Expr':
            if not isinstance(st.value, ast.Constant):
                self.ev(st.value, env, mod)
        elif k == 'Assign':
            v = self.ev(st.value, env, mod)
            for t in st.targets:
                self.bind(t, v, env, mod, st)
        elif k == 'AnnAssign':
            if st.value is not None:
                self.bind(st.target, self.ev(st.value, env, mod), env, mod, st)
        elif k == 'AugAssign':
            load = ast.copy_location(self.as_load(st.target), st.target)
            v = self.binop(type(st.op).__name__, self.ev(load, env, mod), self.ev(st.value, env, mod), st)
            self.bind(st.target, v, env, mod, st)
        elif k == 'If':
            c = self.decide(self.truth(self.ev(st.test, env, mod), st))
            self.block(st.body if c else st.orelse, env, mod)
        elif k == 'For':
            self.loop(st, env, mod)
        elif k == 'Return':
            raise Ret(self.ev(st.value, env, mod) if st.value is not None else None)
        elif k == 'Continue':
            raise Cnt()
        elif k == 'Break':
            raise Brk()
        elif k == 'Raise':
            raise Raised(ast.unparse(st.exc) if st.exc is not None else 'raise')
        elif k == 'Try':
            self.do_try(st, env, mod)
        elif k == 'FunctionDef':
            names = [a.arg for a in st.args.args]

            dv = st.args.defaults
            if st.args.vararg or st.args.kwarg or st.args.kwonlyargs:
                self.bad('arguments of a local function', st)
            dflt = dict(zip(names[len(names)-len(dv):], [self.ev(x, env, mod) for x in dv]))

            def f(z, args, kw, st=st, names=names, dflt=dflt):
                en = dict(env)
                en.update(dflt)
                en.update(zip(names, args))
                en.update(kw)
                if len(args) > len(names) or not all(n in names for n in kw) or not all(
                        n in dflt or n in names[:len(args)] or n in kw for n in names):
                    raise Raised('TypeError')
                try:
                    self.block(st.body, en, mod)
                except Ret as e:
                    return e.v
                return None
            env[st.name] = Fn(f)
        elif k in ('Pass', 'Import', 'ImportFrom', 'Global', 'Assert'):
            pass
        else:
            self.bad('statement %s' % k, st)

    def as_load(self, t):
        t = ast.parse(ast.unparse(t), mode='eval').body
        return t

    def do_try(self, st, env, mod):
        try:
            self.block(st.body, env, mod)
        except Raised as e:
            if not st.handlers:
                self.block(st.finalbody, env, mod)
                raise
            h = st.handlers[0]
            if h.name:
                env[h.name] = 'exception'
            self.block(h.body, env, mod)
        else:
            self.block(st.orelse, env, mod)
        self.block(st.finalbody, env, mod)

    def bind(self, t, v, env, mod, st):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            h = getattr(v, 'zunpack', None)
            if h is not None:
                v = h(self, len(t.elts))
            if not isinstance(v, (tuple, list)) or len(v) != len(t.elts):
                self.bad('unpacking', st)
            for x, y in zip(t.elts, v):
                self.bind(x, y, env, mod, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if not isinstance(o, ZObj):
                self.bad('assignment to attribute', st)
            h = o.attrs.get('@set')
            if h is not None and h(self, t.attr, v):
                return
            if o.cls is not None:
                s = self.setter(o, t.attr)
                if s is not None:
                    self.inline(s, [o, v], {}, st)
                    return
            o.attrs[t.attr] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, mod)
            idx = self.index(t.slice, env, mod)
            if isinstance(b, tuple) and len(b) == 3 and tagof(b) == 'view':
                idx = list(b[2]) + idx
                b = b[1]
            h = getattr(b, 'zset', None)
            if h is not None:
                h(self, idx, v, st)
            elif isinstance(b, ZArr):
                if any(isinstance(i, slice) for i in idx) or len(idx) != b.dim:
                    if len(idx) == 1 and idx[0] == slice(None) and isinstance(v, (int, float)):
                        b.log.append(('fill', num(v), None))
                        return
                    self.bad('assignment to a slice', st)
                b.write(idx, v if isinstance(v, z3.BoolRef) else num(v))
            elif isinstance(b, (list, dict)):
                i = idx[0] if len(idx) == 1 else tuple(idx)
                if isinstance(b, list) and not isinstance(i, int):
                    self.bad('index of a list', st)
                b[i] = v
            else:
                self.bad('assignment to an element of %s' % type(b).__name__, st)
        else:
            self.bad('assignment target', st)

    def setter(self, o, name):
        for m, c in self.S.mro(o.cls[0], o.cls[1]):
            for n in c.body:
                if isinstance(n, ast.FunctionDef) and n.name == name and any(
                        isinstance(d, ast.Attribute) and d.attr == 'setter' for d in n.decorator_list):
                    return m, c, n
        return None

    def loop(self, st, env, mod):
        it = self.ev(st.iter, env, mod)
        h = getattr(it, 'zloop', None)
        if h is not None:
            h(self, st, env, mod)
            return
        for x in self.items(it, st):
            self.bind(st.target, x, env, mod, st)
            try:
                self.block(st.body, env, mod)
            except Cnt:
                continue
            except Brk:
                return
        self.block(st.orelse, env, mod)


class SymRange(object):
    def __init__(self, args):
        self.args = args


_exp = z3.Function('exp', z3.RealSort(), z3.RealSort())
LOGF = z3.Function('log', z3.RealSort(), z3.RealSort())
POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())


def EXP(z, x):
    """exp with the axioms used: positive, 1 at 0, monotone around 0, reciprocal at the opposite argument."""
    x = z3.simplify(real(x))
    y = z3.simplify(-x)
    a, b = _exp(x), _exp(y)
    z.assume(a > 0)
    z.assume(b > 0)
    z.assume(a * b == 1)
    z.assume(z3.And(z3.Implies(x > 0, a > 1), z3.Implies(x < 0, a < 1), z3.Implies(x == 0, a == 1)))
    return a


# ------------------------------------------------------------------------------------------------ deciding
def feval(e, env, tol=1e-7):
    """Value of a z3 expression in floating point; equalities hold within a tolerance; exp and log are the real ones."""
    memo = {}

    def go(e):
        k = e.get_id()
        if k not in memo:
            memo[k] = one(e)
        return memo[k]

    def one(e):
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return f.numerator / f.denominator
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        d = e.decl()
        k = d.kind()
        if k == z3.Z3_OP_ITE:
            return go(e.arg(1)) if go(e.arg(0)) else go(e.arg(2))
        if k == z3.Z3_OP_AND:
            return all([go(x) for x in e.children()])
        if k == z3.Z3_OP_OR:
            return any([go(x) for x in e.children()])
        if k == z3.Z3_OP_IMPLIES:
            return (not go(e.arg(0))) or go(e.arg(1))
        v = [go(x) for x in e.children()]
        if k == z3.Z3_OP_UNINTERPRETED:
            if not v:
                if d.name() == 'pi':
                    return math.pi
                if d.name() not in env:
                    env[d.name()] = sample(e, env)
                return env[d.name()]
            if d.name() == 'exp':
                return math.exp(v[0])
            if d.name() == 'log':
                return math.log(v[0])
            if d.name() == 'sqrt':
                return math.sqrt(v[0])
            if d.name() == 'pow2':
                return 2 ** v[0]
            key = (d.name(),) + tuple(round(x, 9) if isinstance(x, float) else x for x in v)
            if key not in env:
                env[key] = sample(e, env)
            return env[key]
        if k == z3.Z3_OP_ADD:
            return sum(v)
        if k == z3.Z3_OP_SUB:
            return v[0] - sum(v[1:])
        if k == z3.Z3_OP_UMINUS:
            return -v[0]
        if k == z3.Z3_OP_MUL:
            r = 1
            for x in v:
                r = r * x
            return r
        if k == z3.Z3_OP_DIV:
            return v[0] / v[1]
        if k == z3.Z3_OP_IDIV:
            return v[0] // v[1] if v[1] > 0 else -(v[0] // -v[1])
        if k == z3.Z3_OP_MOD:
            return v[0] % abs(v[1])
        if k == z3.Z3_OP_TO_REAL:
            return float(v[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(v[0])
        if k == z3.Z3_OP_POWER:
            return v[0] ** v[1]
        if k == z3.Z3_OP_NOT:
            return not v[0]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            if isinstance(v[0], float) or isinstance(v[1], float):
                return abs(v[0] - v[1]) <= tol * max(1., abs(v[0]), abs(v[1]))
            return v[0] == v[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(v)) == len(v)
        sl = tol if any(isinstance(x, float) for x in v) else 0
        if sl:
            sl *= max(1., abs(v[0]), abs(v[1]))
        if k == z3.Z3_OP_LE:
            return v[0] <= v[1] + sl
        if k == z3.Z3_OP_GE:
            return v[0] >= v[1] - sl
        if k == z3.Z3_OP_LT:
            return v[0] < v[1] + sl
        if k == z3.Z3_OP_GT:
            return v[0] > v[1] - sl
        raise OutOfReach('numeric value of %s' % d.name())
    return go(e)


def sample(e, env):
    rng = env['@rng']
    if e.sort() == z3.IntSort():
        return rng.choice([0, 1, 2, 3, 4, 5, 6])
    if e.sort() == z3.BoolSort():
        return rng.random() < 0.5
    return rng.choice([rng.uniform(-3, 3), rng.uniform(0, 1), rng.uniform(-1, 1) * 40., float(rng.randint(-2, 2))])


NUMERIC = [1.5]


def numeric(hyps, goal, start=None, tries=4000):
    """Search a point where the hypotheses hold (with margin) and the goal fails; None if none is found."""
    rng = random.Random(5)
    t0 = time.time()
    for n in range(tries):
        env = {'@rng': rng}
        if start and n < 40:
            env.update(start)
            if n % 2:
                for k in list(start):
                    if rng.random() < 0.5:
                        del env[k]
        try:
            if all(feval(h, env, -1e-9 if not z3.is_eq(h) else 1e-9) for h in hyps) and not feval(goal, env):
                return {str(k): v for k, v in env.items() if k != '@rng'}
        except (OverflowError, ZeroDivisionError, ValueError):
            pass
        if time.time() - t0 > NUMERIC[0]:
            break
    return None


PIAX = [PI > 3, PI < 4]


def has_pi(es):
    seen, todo = set(), list(es)
    while todo:
        e = todo.pop()
        if e.get_id() not in seen:
            seen.add(e.get_id())
            if e.eq(PI):
                return True
            todo += e.children()
    return False


EXACT = ('exp', 'log', 'sqrt', 'pow2')


def opaque(es):
    """Do these formulas contain functions of which z3 knows only some axioms?"""
    seen, todo = set(), list(es)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in EXACT:
                return True
            if e.num_args() == 0 and e.decl().name() == 'pi':
                return True
            todo += e.children()
    return False


def probe(hyps, goal, tries=3):
    """A countermodel with the real constants and real functions fixed at random: what is left is linear."""
    fs = list(hyps) + [z3.Not(goal)]
    if opaque(fs):
        return None
    rng = random.Random(11)
    consts, funs, seen, todo = {}, {}, set(), list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and d.range() == z3.RealSort():
            (funs if d.arity() else consts)[d.name()] = (e, d)
        todo += e.children()
    for n in range(tries):
        val = lambda: z3.RealVal('%d/%d' % (rng.randint(-9, 9) or 1, rng.choice([1, 2, 3])))
        sub = [(e, val()) for e, d in consts.values()]
        fsub = []
        for e, d in funs.values():
            body = val()
            for i in range(d.arity()):
                v = z3.Var(i, d.domain(i))
                body = body + val() * (z3.ToReal(v) if d.domain(i) == z3.IntSort() else z3.If(v, z3.RealVal(1), z3.RealVal(0)) if
                                       d.domain(i) == z3.BoolSort() else v)
            fsub.append((d, body))
        s = z3.Solver()
        s.set('timeout', 1500)
        for f in fs:
            f = z3.substitute(f, *sub) if sub else f
            f = z3.substitute_funs(f, *fsub) if fsub else f
            s.add(f)
        if s.check() == z3.sat:
            return s.model()
    return None


def prove(name, hyps, goal, backend='z3', timeout=TIMEOUT, functions=(), definite=True):
    """Obligation hyps => goal.  A countermodel counts as a refutation when z3 knows everything in it exactly, or when it
    survives an evaluation in numbers; otherwise the obligation is undecided."""
    t0 = time.time()
    s = z3.Solver()
    if DEADLINE[0] is not None and t0 > DEADLINE[0]:
        timeout = 1000
    s.set('timeout', timeout // 4)
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    rest = [h for h in hyps if not any(h.eq(x) for x in PIAX)]
    if not has_pi(rest + [goal]):
        hyps = rest
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    pr = None
    if r == z3.unknown:
        pr = probe(hyps, goal)
        if pr is None:
            s.set('timeout', timeout)
            r = s.check()
    o = {'name': name, 'backend': backend, 'time': 0., 'functions': list(functions)}
    if r == z3.unsat:
        o['status'] = 'proved'
    else:
        start, o['status'] = {}, 'undecided'
        if r == z3.sat or pr is not None:
            m = s.model() if pr is None else pr
            for d in m.decls():
                if d.arity() == 0:
                    try:
                        start[d.name()] = feval(m[d], {})
                    except (OutOfReach, AttributeError, OverflowError, z3.Z3Exception):
                        pass
            o['detail'] = 'countermodel: ' + ', '.join('%s = %s' % (d.name(), m[d]) for d in sorted(
                m.decls(), key=lambda d: d.name()) if d.arity() == 0)[:600]
            o['model'] = {k: str(v) for k, v in start.items()}
            if definite and not opaque(list(hyps) + [goal]):
                o['status'] = 'refuted'
        else:
            o['detail'] = 'z3: %s' % s.reason_unknown()
        if o['status'] != 'refuted':
            try:
                w = numeric(list(hyps), goal, start)
            except (OutOfReach, KeyError, TypeError):
                w = None
            if w is not None:
                o['detail'] = 'fails at ' + ', '.join('%s = %s' % (k, v) for k, v in sorted(w.items()) if not k.startswith('('))[:600]
                o['model'] = {k: str(v) for k, v in w.items()}
                o['status'] = 'refuted' if definite else 'undecided'
    o['time'] = round(time.time() - t0, 4)
    return o


def allpaths(name, z, paths, goal, hyps=(), definite=True, timeout=TIMEOUT):
    """goal(result, events) -> z3 formula (or bool), on every path.  One obligation; counterexample of the first failing path.
    At least one path must be satisfiable together with its hypotheses (no vacuous proof)."""
    t, und, n, live = 0., None, 0, False
    for pc, r, ev in paths:
        hy = list(z.axioms) + list(hyps) + pc
        o = prove(name, hy, goal(r, ev), definite=definite, timeout=timeout)
        t += o['time']
        n += 1
        if not live:
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*hy)
            live = s.check() != z3.unsat
        if o['status'] == 'refuted':
            o['time'] = t
            o['functions'] = list(z.inlined)
            o['detail'] = 'path [%s]: %s' % ('; '.join(str(c)[:80] for c in pc[:6]), o['detail'])
            return o
        if o['status'] == 'undecided':
            und = o
    r = und or {'name': name, 'status': 'proved', 'backend': 'z3'}
    if not live and r['status'] == 'proved':
        r = {'name': name, 'status': 'undecided', 'backend': 'z3', 'detail': 'no feasible path: the preconditions are contradictory'}
    r['time'], r['functions'], r['paths'] = round(t, 4), list(z.inlined), n
    return r
