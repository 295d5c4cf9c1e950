"""Special functions of the second-order approach (C10): compiled = pure Python, for all real arguments.

Both forms are executed path by path on rational functions of their arguments and of opaque functions (exp, log, digamma, the
polygamma function where it is called); a loop of unknown length is one symbolic iteration (what it adds has to be the same).
The remaining difference has to vanish identically.  Where it does not, it is evaluated (mpmath for the opaque functions) at
sample points of the path: a point where it does not vanish refutes."""
import ast
import itertools
import random
from fractions import Fraction
import sympy as sp
from .src import OutOfReach
from .master import guarded

PY, CY = 'qmeq/specfunc/specfunc.py', 'qmeq/specfunc/c_specfunc.pyx'
J, PI_ = sp.Symbol('j_'), sp.Symbol('pi_')
TINY = (1e-14, 1e-4)


def rat(v):
    if isinstance(v, bool):
        return sp.Integer(int(v))
    if isinstance(v, int):
        return sp.Integer(v)
    if isinstance(v, float):
        f = Fraction(repr(v))
        return sp.Rational(f.numerator, f.denominator)
    if isinstance(v, complex):
        return rat(v.real) + J * rat(v.imag)
    if isinstance(v, sp.Expr):
        return v
    raise OutOfReach('a number was expected, not %s' % type(v).__name__)


def reduce_(p):
    """Polynomial with j*j = -1."""
    p = sp.expand(p)
    if not p.has(J):
        return p
    q = sp.Poly(p, J)
    re = im = sp.Integer(0)
    for (k,), c in q.terms():
        s = (1, 1, -1, -1)[k % 4]
        if k % 2:
            im += s * c
        else:
            re += s * c
    return sp.expand(re) + J * sp.expand(im)


def canon(e):
    """Canonical form: the denominator is made real."""
    n, d = sp.fraction(sp.together(rat(e)))
    n, d = reduce_(n), reduce_(d)
    if d.has(J):
        c = d.subs(J, -J)
        n, d = reduce_(n * c), reduce_(d * c)
    if n == 0:
        return sp.Integer(0)
    return sp.cancel(n / d)


def parts(e):
    e = sp.expand(canon(e))
    if e.has(J):
        n, d = sp.fraction(sp.together(e))
        p = reduce_(n)
        im = sp.Poly(p, J).coeff_monomial(J)
        re = sp.expand(p - J * im)
        return canon(re / d), canon(im / d)
    return e, sp.Integer(0)


class Stop(Exception):
    pass


class Table(object):
    pass


class Col(object):
    def __init__(self, k):
        self.k = k


class Rows(object):
    pass


class Arr(object):
    def __init__(self, d=None):
        self.d = dict(d or {})

    def get(self, idx):
        if idx in self.d:
            return self.d[idx]
        sub = {k[len(idx):]: v for k, v in self.d.items() if k[:len(idx)] == idx and len(k) > len(idx)}
        if sub:
            return Arr(sub)
        return sp.Integer(0)


class Ret_(Exception):
    def __init__(self, v):
        self.v = v


class Cont_(Exception):
    pass


class Paths(object):
    """Decisions shared by the two forms of a function."""
    def __init__(self):
        self.stack, self.fixed = [[]], None

    def start(self, ch):
        self.pre, self.k, self.taken, self.val = list(ch), 0, [], {}

    def decide(self, key):
        if key in self.val:
            return self.val[key]
        if self.k < len(self.pre):
            v = self.pre[self.k]
        else:
            v = True
            self.stack.append(self.pre[:self.k] + [False])
            self.pre = self.pre[:self.k] + [True]
        self.k += 1
        self.val[key] = v
        self.taken.append((key, v))
        return v


class Run(object):
    def __init__(self, S, rel, paths, opaque, inline):
        self.S, self.rel, self.paths, self.opaque, self.inline = S, rel, paths, opaque, inline
        self.mod = S.module(rel)
        self.keys, self.loops, self.depth, self.used = [], [], 0, set()
        self.tables = None

    def bad(self, msg, n=None):
        raise OutOfReach(msg + (' (line %s)' % n.lineno if hasattr(n, 'lineno') else ''))

    # ---------------------------------------------------------------- constants of the module
    def const(self, name, node):
        if self.tables is None:
            self.tables = {}
            self.tables.update(self.module_arrays())
        if name in self.tables:
            return self.tables[name]
        if name == 'pi':
            return PI_
        for st in self.mod.tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and getattr(st.targets[0], 'id', None) == name:
                return self.ev(st.value, {})
        self.bad('name %s' % name, node)

    def module_arrays(self):
        env = {}
        roots = set()
        for st in self.mod.tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                t = st.targets[0]
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(st.targets[0], ast.Subscript) and isinstance(t, ast.Name):
                    roots.add(t.id)
        for st in self.mod.tree.body:
            if not isinstance(st, ast.Assign) or len(st.targets) != 1:
                continue
            t, idx = st.targets[0], []
            while isinstance(t, ast.Subscript):
                i = t.slice
                idx = ([x for x in i.elts] if isinstance(i, ast.Tuple) else [i]) + idx
                t = t.value
            if not isinstance(t, ast.Name):
                continue
            if not idx and (t.id in roots or isinstance(st.value, ast.List)):
                env[t.id] = Arr() if t.id in roots else self.ev(st.value, env)
            elif idx and t.id in roots:
                env[t.id].d[tuple(self.index(x, env) for x in idx)] = rat(self.ev(st.value, env))
        return env

    def index(self, e, env):
        v = self.ev(e, env)
        if isinstance(v, sp.Integer):
            return int(v)
        if isinstance(v, int):
            return v
        self.bad('index', e)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, env):
        f = getattr(self, 'ev_' + type(e).__name__, None)
        if f is None:
            self.bad('expression %s' % type(e).__name__, e)
        return f(e, env)

    def ev_Constant(self, e, env):
        v = e.value
        if isinstance(v, (bool, str)) or v is None:
            return v
        return rat(v)

    def ev_Name(self, e, env):
        if e.id in env:
            if env[e.id] is Stop:
                self.bad('%s after a loop' % e.id, e)
            return env[e.id]
        if e.id in self.mod.funcs or e.id in self.opaque or e.id in self.inline:
            return ('func', e.id)
        if e.id in ('range', 'enumerate', 'reversed', 'len', 'abs', 'fabs', 'int', '_cint', 'float', 'exp', 'log', 'sqrt', 'sin', 'cos', 'tanh', 'np', 'math', 'atan', 'complex', 'doublenp', 'tan'):
            return ('func', e.id)
        return self.const(e.id, e)

    def ev_Attribute(self, e, env):
        if isinstance(e.value, ast.Name) and e.value.id in ('np', 'math') and e.value.id not in env:
            return PI_ if e.attr == 'pi' else ('func', e.attr)
        v = self.ev(e.value, env)
        if isinstance(v, Table) and e.attr == 'shape':
            return (Rows(), sp.Integer(2))
        if e.attr in ('real', 'imag') and isinstance(v, sp.Expr):
            if v.is_Symbol and v.name.startswith('c:'):
                return sp.Symbol(e.attr + ' ' + v.name[2:])
            if any(s.name.startswith('c:') for s in v.free_symbols):
                self.bad('part of a complex number', e)
            return parts(v)[e.attr == 'imag']
        self.bad('attribute %s' % e.attr, e)

    def ev_Tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def ev_List(self, e, env):
        v = [self.ev(x, env) for x in e.elts]
        return Arr({(i,): x for i, x in enumerate(v)})

    def ev_Subscript(self, e, env):
        b = self.ev(e.value, env)
        if isinstance(b, tuple):
            return b[self.index(e.slice, env)]
        ix = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        if isinstance(b, Table):
            if len(ix) == 2 and isinstance(ix[0], ast.Slice):
                return Col(self.index(ix[1], env))
            if len(ix) == 2:
                i, k = self.ev(ix[0], env), self.index(ix[1], env)
                if i != sp.Symbol('row'):
                    self.bad('row of the table', e)
                return sp.Symbol('table%d' % k)
        if isinstance(b, Arr):
            return b.get(tuple(self.index(x, env) for x in ix))
        self.bad('subscript', e)

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v, e)
        v = rat(v)
        return -v if isinstance(e.op, ast.USub) else v

    def ev_BinOp(self, e, env):
        return self.op(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env), e)

    def op(self, o, a, b, e):
        if isinstance(a, (Col, Table, Rows)) or isinstance(b, (Col, Table, Rows)):
            self.bad('arithmetic of arrays', e)
        a, b = rat(a), rat(b)
        if o == 'Add':
            return a + b
        if o == 'Sub':
            return a - b
        if o == 'Mult':
            return a * b
        if o == 'Div':
            return a / b
        if o == 'Pow' and b.is_Rational and b.q == 1:
            return a ** int(b)
        if o in ('FloorDiv', 'Mod') and a.is_Integer and b.is_Integer:
            return a // b if o == 'FloorDiv' else a % b
        self.bad('operation %s' % o, e)

    def ev_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env), e) else e.orelse, env)

    def ev_BoolOp(self, e, env):
        a = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.truth(self.ev(x, env), x)
            if v != a:
                return v
        return a

    def truth(self, v, node):
        if isinstance(v, bool):
            return v
        if isinstance(v, sp.Expr):
            if v.is_number:
                return bool(v != 0)
            return self.choice(('true', str(canon(v))), lambda n: n(v) != 0)
        self.bad('condition', node)

    def choice(self, key, how):
        if key not in [k for k, h in self.keys]:
            self.keys.append((key, how))
        return self.paths.decide(key)

    def ev_Compare(self, e, env):
        if len(e.ops) != 1:
            v, l = True, e.left
            for o, r in zip(e.ops, e.comparators):
                v = v and self.ev_Compare(ast.copy_location(ast.Compare(l, [o], [r]), e), env)
                l = r
            return v
        o = type(e.ops[0]).__name__
        a, b = rat(self.ev(e.left, env)), rat(self.ev(e.comparators[0], env))
        if o in ('Lt', 'LtE', 'Gt', 'GtE'):
            if o in ('Gt', 'GtE'):
                a, b = b, a                       # a < b
            d = canon(a - b)
            if d.is_number and not d.has(PI_):
                return bool(d < 0) if o in ('Lt', 'Gt') else bool(d <= 0)
            for x, y, neg in ((a, b, False), (b, a, True)):
                if x.is_Symbol and x.name.startswith('abs ') and y.is_Rational and TINY[0] <= y <= TINY[1]:
                    r = self.choice(('small', x.name, str(y)), lambda n, x=x, y=y: abs(n(x)) < float(y))
                    return not r if neg else r
            n_ = canon(-d)
            if str(n_) < str(d):
                return not self.choice(('negative', str(n_)), lambda n: n(n_) < 0)
            return self.choice(('negative', str(d)), lambda n: n(d) < 0)
        d = canon(a - b)
        if d.is_number and o in ('Eq', 'NotEq'):
            return (d == 0) == (o == 'Eq')
        self.bad('comparison', e)

    # ---------------------------------------------------------------- calls
    def ev_Call(self, e, env):
        f = self.ev(e.func, env)
        a = [self.ev(x, env) for x in e.args]
        k = {x.arg: self.ev(x.value, env) for x in e.keywords}
        if not (isinstance(f, tuple) and f[0] == 'func'):
            self.bad('call', e)
        n = f[1]
        bare = n.lstrip('_')
        if bare in self.opaque and not (self.depth == 0 and False):
            return self.opaque[bare](self, a, k, e)
        if n in self.mod.funcs and (n in self.inline or bare in self.inline or n not in BUILTIN):
            return self.call(n, a, k, e)
        if k:
            self.bad('call of %s' % n, e)
        if n in ('abs', 'fabs'):
            v = canon(rat(a[0]))
            if v.is_Rational:
                return abs(v)
            return sp.Symbol('abs ' + min(str(v), str(canon(-v))))
        if n == 'float':
            return rat(a[0])
        if n in ('int', '_cint'):
            v = rat(a[0])
            return sp.Integer(int(v)) if v.is_Rational else sp.Symbol('int ' + str(canon(v)))
        if n == 'exp':
            v = canon(rat(a[0]))
            m = canon(-v)
            return sp.Symbol('exp ' + str(v)) if str(v) <= str(m) else 1 / sp.Symbol('exp ' + str(m))
        if n in ('log', 'sin', 'cos', 'tanh', 'sqrt', 'clog'):
            v = rat(a[0])
            c = any(s.name.startswith('c:') for s in v.free_symbols) or parts(v)[1] != 0
            return sp.Symbol(('c:' if c else '') + ('log' if n == 'clog' else n) + ' ' + str(canon(v)))
        if n == 'zeros' and len(a) == 1:
            return Arr()
        if n == 'range' and len(a) <= 3:
            if all(isinstance(x, sp.Integer) for x in a):
                return [sp.Integer(i) for i in range(*[int(x) for x in a])]
            return ('range', a)
        if n == 'reversed' and isinstance(a[0], list):
            return a[0][::-1]
        if n == 'enumerate' and isinstance(a[0], Col):
            return ('enumerate', a[0])
        if n == 'len' and isinstance(a[0], (Table, Col)):
            return Rows()
        self.bad('call of %s' % n, e)

    def call(self, n, a, k, e):
        f = self.mod.funcs[n]
        ps = [x.arg for x in f.args.args]
        env = {}
        for p, d in zip(ps[len(ps) - len(f.args.defaults):], f.args.defaults):
            env[p] = self.ev(d, {})
        if len(a) > len(ps):
            self.bad('arguments of %s' % n, e)
        env.update(zip(ps, a))
        env.update(k)
        if set(ps) - set(env) or set(env) - set(ps):
            self.bad('arguments of %s' % n, e)
        self.depth += 1
        self.used.add('%s:%s' % (self.rel, n))
        if self.depth > 12:
            self.bad('depth', e)
        try:
            self.block(f.body, env)
        except Ret_ as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for st in body:
            self.st(st, env)

    def st(self, st, env):
        if isinstance(st, ast.Expr):
            if not isinstance(st.value, ast.Constant):
                self.ev(st.value, env)
        elif isinstance(st, ast.Pass):
            pass
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                self.bind(t, v, env)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.bind(st.target, self.ev(st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            if not isinstance(st.target, ast.Name):
                self.bad('assignment', st)
            self.bind(st.target, self.op(type(st.op).__name__, self.ev_Name(st.target, env), self.ev(st.value, env), st), env)
        elif isinstance(st, ast.Return):
            raise Ret_(self.ev(st.value, env) if st.value else None)
        elif isinstance(st, ast.If):
            self.block(st.body if self.truth(self.ev(st.test, env), st) else st.orelse, env)
        elif isinstance(st, ast.Continue):
            raise Cont_()
        elif isinstance(st, ast.For) and not st.orelse:
            self.loop(st, env)
        else:
            self.bad('statement %s' % type(st).__name__, st)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Tuple) and isinstance(v, tuple) and len(t.elts) == len(v):
            for x, y in zip(t.elts, v):
                self.bind(x, y, env)
        elif isinstance(t, ast.Subscript) and isinstance(self.ev(t.value, env), Arr):
            ix = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
            self.ev(t.value, env).d[tuple(self.index(x, env) for x in ix)] = rat(v)
        else:
            self.bad('assignment', t)

    def loop(self, st, env):
        it = self.ev(st.iter, env)
        if isinstance(it, list):
            for x in it:
                self.bind(st.target, x, env)
                try:
                    self.block(st.body, env)
                except Cont_:
                    pass
            return
        count, item = None, None
        if isinstance(it, Col):
            item = sp.Symbol('table%d' % it.k)
        elif isinstance(it, tuple) and it[0] == 'enumerate':
            item = (sp.Symbol('row'), sp.Symbol('table%d' % it[1].k))
        elif isinstance(it, tuple) and it[0] == 'range':
            a = it[1]
            if len(a) == 2 and a[0] == 0:
                a = a[1:]
            if len(a) != 1:
                self.bad('range', st)
            if isinstance(a[0], Rows):
                item = sp.Symbol('row')
            else:
                count, item = canon(rat(a[0])), Stop
        else:
            self.bad('loop', st)
        names = []
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in names:
                names.append(n.id)
        tv = [n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)]
        acc = [n for n in names if n in env and n not in tv and isinstance(env[n], sp.Expr)]
        inner = dict(env)
        for n in names:
            if n not in acc:
                inner.pop(n, None)
        # which of the variables are really carried over
        for n in acc:
            inner[n] = sp.Symbol('c:acc ' + n)
        self.bind(st.target, item, inner)
        try:
            self.block(st.body, inner)
        except Cont_:
            pass
        ds = []
        for n in acc:
            v = inner[n]
            x = sp.Symbol('c:acc ' + n)
            if v is not x and not v.has(x) and not any(s.name.startswith('c:acc') for s in v.free_symbols):
                ds.append((n, None))          # set anew in each iteration
                continue
            ds.append((n, canon(v - x)))
        const = {n for n, d in ds if d is not None and not d.has(sp.Symbol('c:acc ' + n)) and not any(s.name.startswith('c:acc') for s in d.free_symbols)}
        form = []
        ren = {}
        for i, n in enumerate(sorted(n for n in const if count is not None)):
            ren[sp.Symbol('c:acc ' + n)] = sp.Symbol('c:acc #%d' % i)
        for n, d in ds:
            if d is None:
                env[n] = Stop
                continue
            if d == 0 and count is not None:
                continue
            used = {s for s in d.free_symbols if s.name.startswith('c:acc')}
            if used - set(ren):
                self.bad('what the loop adds to %s' % n, st)
            if count is not None and n in const:
                form.append(('start', canon(env[n])))
                form.append(('step', d))
                env[n] = env[n] + count * d
                continue
            k = len(self.loops) + len([f for f in form if f[0] == 'adds'])
            form.append(('adds', canon(d.subs(ren))))
            env[n] = env[n] + sp.Symbol('c:sum %d' % k)
        if count is not None:
            form.append(('times', count))
        self.loops += [f for f in form if f[0] == 'adds'] + [f for f in form if f[0] != 'adds']
        for n in names:
            if n not in acc:
                env[n] = Stop


BUILTIN = ()


# ------------------------------------------------------------------------------------------------ opaque functions
def op1(name, parity=None, cplx=False):
    """parity: +1 even, -1 odd, else (a, b): f(-x) = a + b f(x)."""
    def f(r, a, k, e):
        names = {'phi': ['x', 'Dp', 'Dm', 'sign'], 'polygamma': ['U', 'K'], 'digamma': ['z']}.get(name, ['x', 'sign'])
        d = dict(zip(names, a), **k)
        if set(d) - set(names):
            r.bad('arguments of %s' % name, e)
        sign = rat(d.pop('sign', 1))
        v = [canon(rat(d[n])) for n in names if n in d]
        if cplx:
            return sp.Symbol('c:%s %s' % (name, '; '.join(map(str, v))))
        if sign != 1 and name in ('bose', 'diff_fermi'):
            r.bad('sign of %s' % name, e)
        x, rest = v[0], v[1:]
        flip = parity is not None and str(canon(-x)) < str(x)
        s = sp.Symbol('%s %s' % (name, '; '.join(map(str, [canon(-x) if flip else x] + rest))))
        if flip:
            s = s * parity if not isinstance(parity, tuple) else parity[0] + parity[1] * s
        return sign * s
    return f


def delta(r, a, k, e):
    d = dict(zip(['x1', 'x2', 'Dp', 'Dm', 'sign'], a), **k)
    p = OPAQUE['phi']
    s = d.get('sign', sp.Integer(1))
    return p(r, [d['x1'], d['Dp'], d['Dm'], s], {}, e) - p(r, [d['x2'], d['Dp'], d['Dm'], s], {}, e)


OPAQUE = {'phi': op1('phi', 1), 'diff_phi': op1('diff_phi', -1), 'diff2_phi': op1('diff2_phi', 1), 'fermi_func': op1('fermi_func', (1, -1)),
          'bose': op1('bose', (-1, -1)), 'diff_fermi': op1('diff_fermi', 1), 'digamma': op1('digamma', None, True), 'polygamma': op1('polygamma', None, True),
          'delta_phi': delta, 'psi': op1('digamma', None, True)}


# ------------------------------------------------------------------------------------------------ numbers
class Buf(dict):
    def __missing__(self, k):
        self[k] = Buf()
        return self[k]


def runnable(S, rel):
    """The text under proof itself, run on floats: functions and constants of the module, imports given here."""
    import numpy as np
    import cmath
    import math
    from scipy.special import psi
    from scipy import linalg
    m = S.module(rel)
    env = {'np': np, 'psi': psi, 'linalg': linalg, 'lru_cache': lambda *a, **k: (lambda f: f), 'MAX_CACHE': None, 'doublenp': float, 'pi': math.pi,
           'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'tanh': math.tanh, 'atan': math.atan, 'sqrt': math.sqrt,
           'floor': math.floor, 'fabs': abs, '_cint': int, '_cbuffer': Buf, 'cmath': cmath, 'math': math}
    for st in m.tree.body:
        if isinstance(st, (ast.Assign, ast.FunctionDef)):
            try:
                exec(compile(ast.fix_missing_locations(ast.Module([st], [])), rel, 'exec'), env)
            except Exception:
                pass
    return env


def sample(names, rng):
    import numpy as np
    pt = {}
    for n in names:
        if n in ('p1', 'p2', 'eta1', 'sign'):
            pt[n] = rng.choice((-1, 1))
        elif n in ('T1', 'T2'):
            pt[n] = rng.choice((0.5, 0.5, 1.25, 0.53))
        elif n in ('Dp', 'Dm', 'D'):
            pt[n] = rng.choice((40.0, 55.0))
        elif n == 'ImGamma':
            pt[n] = rng.choice((0, 1))
        elif n == 'b_and_R':
            pt[n] = np.array([[x, rng.uniform(0.2, 2)] for x in (0.3, 0.05, 0.03, 0.018, 0.0125, 0.01, 0.004)])
        elif n == 'U':
            pt[n] = complex(rng.choice((0.5, 3.25, 14.2, 16.5, rng.uniform(0.1, 20))), rng.choice((0.0, -1.5, 2.25)))
        elif n == 'x':
            pt[n] = rng.choice((-1.5, 0.75, 3.0, 200.0, 400.0, 800.0, rng.uniform(-5, 5)))
        else:
            pt[n] = rng.choice((-0.75, 0.0, 0.5, 0.75, 1.5, rng.uniform(-2, 2)))
    return pt


def witness(S, pyname, cyname, names, fixed):
    import time
    import warnings
    rng = random.Random(7)
    P, C = runnable(S, PY), runnable(S, CY)
    end = time.time() + 8
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for _ in range(3000):
            if time.time() > end:
                break
            pt = sample(names, rng)
            a = [fixed[n] if n in fixed else pt[n] for n in names]
            try:
                u, v = complex(P[pyname](*a)), complex(C[cyname](*a))
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            if u == u and v == v and abs(u - v) > 1e-6 * (abs(u) + abs(v)) + 1e-9:
                return {n: (x if not hasattr(x, 'tolist') else x.tolist()) for n, x in zip(names, a)}, u, v
    return None


# ------------------------------------------------------------------------------------------------ comparison
def close(a, b):
    """Equal up to the rounding of numerical constants."""
    d = canon(rat(a) - rat(b))
    if d == 0:
        return True
    n = sp.expand(sp.fraction(sp.together(d))[0])
    na = sp.expand(sp.fraction(canon(rat(a)))[0])
    if not n.free_symbols or not na.free_symbols:
        return False
    g = sorted(n.free_symbols | na.free_symbols, key=str)
    cn = max(abs(float(c)) for c in sp.Poly(n, *g).coeffs())
    ca = max(abs(float(c)) for c in sp.Poly(na, *g).coeffs())
    return cn < 1e-13 * ca


def compare(S, name, pyname, cyname, names, opaque, fixed=None):
    what = '%s: compiled = pure Python' % name
    fixed = fixed or {}
    P = Paths()
    ob = {'name': what, 'status': 'proved', 'backend': 'sympy %s' % sp.__version__, 'time': 0.0}
    n, used = 0, set()
    und = None
    for rel, fnm in ((PY, pyname), (CY, cyname)):
        if fnm not in S.module(rel).funcs:
            raise OutOfReach('%s in %s' % (fnm, rel))
    while P.stack:
        ch = P.stack.pop()
        P.start(ch)
        runs, vals = [], []
        for rel, fnm in ((PY, pyname), (CY, cyname)):
            op = {k: v for k, v in opaque.items()}
            r = Run(S, rel, P, op, ())
            env = [Table() if x == 'b_and_R' else sp.Symbol('Ur') + J * sp.Symbol('Ui') if x == 'U' else rat(fixed[x]) if x in fixed else sp.Symbol(x) for x in names]
            vals.append(r.call(fnm, env, {}, None))
            runs.append(r)
            used |= r.used
        n += 1
        if n > 200:
            raise OutOfReach('paths')
        a, b = runs
        if [f[0] for f in a.loops] != [f[0] for f in b.loops]:
            und = 'loops'
            break
        for w, x, y in [(x[0] + ' of a loop', x[1], y[1]) for x, y in zip(a.loops, b.loops)] + [('value', vals[0], vals[1])]:
            if not close(x, y):
                und = 'the %s: %s and %s' % (w, str(x)[:150], str(y)[:150])
                break
        if und:
            break
    ob['detail'] = '%d paths' % n
    ob['functions'] = sorted(used)
    if und:
        pt = witness(S, pyname, cyname, names, fixed)
        if pt is not None:
            ob.update(status='refuted', detail='%s at %s: %s (Python), %s (compiled); paths differ in %s' % (name, pt[0], pt[1], pt[2], und))
        else:
            ob.update(status='undecided', detail='difference not decided: ' + und)
    return [ob]


def logarithm(S):
    """clog: log of the modulus and phase, in the right half plane."""
    P = Paths()
    P.start(P.stack.pop())
    r = Run(S, CY, P, {'atan': lambda r, a, k, e: sp.Symbol('atan ' + str(canon(rat(a[0]))))}, ())
    if 'clog' not in r.mod.funcs:
        raise OutOfReach('clog')
    x, y = sp.symbols('Ur Ui')
    v = r.call('clog', [x + J * y], {}, None)
    w = sp.Symbol('log ' + str(canon(x * x + y * y))) / 2 + J * sp.Symbol('atan ' + str(canon(y / x)))
    same = not P.taken and close(v, w)
    return [{'name': 'clog: logarithm of the modulus, and the phase', 'status': 'proved' if same else 'undecided', 'backend': 'sympy %s' % sp.__version__, 'time': 0.0, 'functions': [CY + ':clog'],
             'detail': '' if same else str(v)}]


def sub(*names):
    return {n: OPAQUE[n] for n in names}


def passing(name):
    """A call of one of the four integrals: its arguments by position."""
    def f(r, a, k, e):
        if k or not all(isinstance(x, (sp.Expr, Table)) for x in a):
            r.bad('arguments of %s' % name, e)
        return sp.Symbol('c:%s %s' % (name, '; '.join('table' if isinstance(x, Table) else str(canon(x)) for x in a)))
    return f


def obligations(prop, S):
    r = []
    if prop != 'C10':
        return r
    five = ('p1', 'p2', 'E1', 'deltaE', 'E2', 'Dp', 'Dm')
    gen = ('p1', 'p2', 'z1', 'z2', 'z3', 'T1', 'T2', 'mu1', 'mu2', 'Dp', 'Dm', 'b_and_R')
    top = ('p1', 'eta1', 'E1', 'E2', 'E3', 'T1', 'T2', 'mu1', 'mu2', 'D', 'b_and_R', 'ImGamma')
    leaf = sub('phi', 'diff_phi', 'diff2_phi', 'fermi_func', 'bose', 'diff_fermi', 'delta_phi')
    for X in 'DX':
        r += guarded('%s_integral_equal_T' % X, lambda: compare(S, '%s_integral_equal_T' % X, '_%s_integral_equal_T' % X, '%s_integral_equal_T' % X, five, leaf))
        r += guarded('%s_integral' % X, lambda: compare(S, '%s_integral' % X, '_%s_integral' % X, '%s_integral' % X, gen, sub('digamma', 'polygamma')))
        four = {n: passing(n) for n in ('%s_integral' % X, '%s_integral_equal_T' % X)}
        r += guarded('integral%s' % X, lambda: compare(S, 'integral%s' % X, 'integral%s' % X, 'integral%s' % X, top, four))
    x2 = ('x', 'sign')
    r += guarded('phi', lambda: compare(S, 'phi', 'phi', 'phi', ('x', 'Dp', 'Dm', 'sign'), sub('digamma')))
    r += guarded('delta_phi', lambda: compare(S, 'delta_phi', 'delta_phi', 'delta_phi', ('x1', 'x2', 'Dp', 'Dm', 'sign'), sub('phi')))
    for n in ('diff_phi', 'diff2_phi'):
        r += guarded(n, lambda: compare(S, n, n, n, x2, sub('polygamma')))
    for n in ('bose', 'diff_fermi'):
        for sg in (1, -1):
            r += guarded('%s (sign %d)' % (n, sg), lambda: compare(S, '%s (sign %d)' % (n, sg), n, n, x2, {}, {'sign': sg}))
    log = {'clog': lambda r, a, k, e: sp.Symbol('c:log ' + str(canon(rat(a[0]))))}
    r += guarded('clog', lambda: logarithm(S))
    for K in range(5):
        r += guarded('polygamma of order %d' % K, lambda: compare(S, 'polygamma of order %d' % K, 'polygamma', 'polygamma',
                     ('U', 'K'), log, {'K': K}))
    return r


SELF = {'C10': [(CY, None, n) for n in ('integralX', 'D_integral_equal_T', 'X_integral_equal_T', 'D_integral', 'X_integral', 'diff_phi', 'polygamma')]}
ASSUME = {'C10': ['digamma and clog of the compiled form are the digamma function and the logarithm in the right half plane (compared with scipy at random '
                  'arguments by the runtime contracts), phi and diff2_phi are even, diff_phi is odd, fermi_func(-x) = 1 - fermi_func(x), bose(-x) = -1 - bose(x)']}
