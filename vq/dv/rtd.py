"""Obligations about the second-order RTD approach (pure Python and compiled), on its real bodies.

The bodies are executed symbolically for all dots by sx.py; here the interface of KernelHandlerRTD is a contract (proved
below on the real bodies of the handlers), and so are fermi_func(-x) = 1 - fermi_func(x) and phi(-x, sign) = sign*phi(x)
(rates.py), the integrals integralD and integralX are arbitrary functions of their arguments."""
import re, ast, z3
from fractions import Fraction
from .sp import P, Var, poly, atom, SYM, canon
from .src import Sources, OutOfReach
from . import sx, master
from .sx import Executor, Chg, Obj, Arr, NLead, NCh, Row, D0, Vec, Effect, DIMS, out, NUM, Idx, Cnt
from .master import zero, bool_ob, guarded, vacuous, qvars, expand
from .zx import Z, ZObj, ZArr, Fn, Raised, allpaths, real, num

DIMS.update(rez=1, Wdd=5, WE1=5, WE2=5, Wdd2=6, LN=1, tleads_array=2)
DIMS.update({'rtd:%d' % i: 5 for i in (3, 4, 5, 6)})
SYM.update({'fn:fermi_func': 'real', 'fn:phi': 'real', 'abs': 'real', 'max': 'real', 'Wdd': 'real', 'WE1': 'real', 'WE2': 'real',
            'inv': SYM.get('inv', 'generic'), 'LN': 'real'})
sx.KNOWN.update({'ReWdn', 'ImWdn', 'ReWnd', 'ImWnd', 'Lnn', 'fn:fermi_func', 'fn:phi', 'fn:integralD', 'fn:integralX', 'Wdd', 'WE1', 'WE2', 'tleads_array', 'inv', 'abs', 'max',
                 '[num<]', '[num==]', '[par:off_diag_corrections]', 'par:Ozaki_poles_and_residues', 'LN'})
FILE = {False: 'qmeq/approach/base/RTD.py', True: 'qmeq/approach/base/c_RTD.pyx'}
CLS = {False: 'ApproachPyRTD', True: 'ApproachRTD'}
MATS = {0: 'Wdd', 1: 'WE1', 2: 'WE2'}


def sign_of(p):
    """-1 if the chemical potential enters with a plus sign (argument of an even or complementary function)."""
    for (b, a), c in p.t.items():
        if any(x[0] == 'mulst' for x in a):
            return -1 if c[0] > 0 else 1
    return 1


class PopVec(object):
    """One number per population: val(var), a function of the state."""
    def __init__(self, q, var, val):
        self.q, self.var, self.val = q, var, val

    def at(self, v):
        r = self.val.subst({self.var: v})
        if self.q is not None and any(self.q in a for b, m in r.t for a in m):
            raise OutOfReach('a particle number in a product')
        return r


class PopMat(object):
    """Matrix between populations, val(row, column)."""
    def __init__(self, f):
        self.f = f


class ListObj(object):
    def __init__(self):
        self.items = []


def pop(charge_off=0):
    q = Var('charge')
    return q, Var('state', (q, 0))


class RExecutor(Executor):
    def __init__(self, S, compiled, calls=()):
        mod = S.module(FILE[compiled])
        hm = S.module('qmeq/approach/' + ('c_kernel_handler.pyx' if compiled else 'kernel_handler.py'))
        for n, m, c in ((CLS[compiled], mod, None), ('KernelHandlerRTD', hm, None)):
            if n not in m.classes:
                raise OutOfReach('class %s' % n)
        Executor.__init__(self, S, (mod, mod.classes[CLS[compiled]]), (hm, hm.classes['KernelHandlerRTD']), compiled)
        self.recorded = set(calls)
        self.thread = Var('thread')
        self.lists = []

    # names
    def obj_attr(self, b, name, node, env, mod):
        n = name.lstrip('_')
        if n == 'nsingle':
            return NLead('single')
        if n in ('npauli',):
            return Row('populations')
        if n == 'base' and isinstance(b, Obj):
            return b
        return Executor.obj_attr(self, b, name, node, env, mod)

    def attr(self, b, name, node, env, mod):
        if name == 'base' and isinstance(b, Arr):
            return b
        if b == ('builtin', 'np') and name == 'nan':
            return atom('nan')
        if isinstance(b, ListObj) and name == 'append':
            return ('listappend', b)
        if isinstance(b, Arr) and b.name == 'heat_current' or isinstance(b, Arr) and b.name == 'energy_current':
            if name == 'fill':
                return ('method', b, name)
        return Executor.attr(self, b, name, node, env, mod)

    def ev_List(self, e, env, mod):
        if not e.elts:
            l = ListObj()
            self.lists.append(l)
            return l
        return self.ev_Tuple(e, env, mod)

    def ev_ListComp(self, e, env, mod):
        return ('gen', e, env, mod)

    ev_GeneratorExp = ev_ListComp

    def rows(self, table, node):
        if table == 'populations':
            q, b = pop()
            return [q, b], Row('all_bbp', (b, b, Chg(q, 0))), None
        return Executor.rows(self, table, node)

    def num(self, v, node=None):
        if isinstance(v, Row):
            out('a count used as a number', node)
        return Executor.num(self, v, node)

    def flat(self, idx, node=None):
        if len(idx) == 1 and isinstance(idx[0], Row) and idx[0].vals is not None:
            return (idx[0].vals[0],)
        return Executor.flat(self, idx, node)

    def cmp_charge(self, op, a, b, node):
        return Executor.cmp_charge(self, op, a, b, node)

    # comparisons with a cutoff: ties are not distinguished
    def compare(self, op, a, b, node):
        if isinstance(a, NLead) and isinstance(b, int):
            g = atom('[par:no %s]' % a.sort)
            if (op, b) == ('==', 0):
                return g
            if (op, b) in (('!=', 0), ('>', 0)):
                return 1 - g
        if op in ('<', '<=', '>', '>=') and isinstance(a, NUM + (Obj, Arr)) and isinstance(b, NUM + (Obj, Arr)) and \
                (isinstance(a, (P, Arr)) or isinstance(b, (P, Arr))):
            x, y = self.num(a, node), self.num(b, node)
            if op in ('>', '>='):
                x, y = y, x
            return atom('[num<]', x, y)
        return Executor.compare(self, op, a, b, node)

    def assign(self, t, v, env, mod, st):
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if isinstance(o, Obj) and t.attr in ('ImGamma',) and v in (True, False):
                self.effect('ImGamma', 'flag', (), poly(1 if v else 0), st)
                return
            if isinstance(o, Obj) and o.path == ('self',):
                n = t.attr.lstrip('_')
                if n in ('current', 'energy_current', 'heat_current') and isinstance(v, (Arr, Vec)):
                    x = self.as_vec(v, st)
                    w = Var(x.var.sort)
                    self.effect('self.' + n, 'set', (w,), x.val.subst({x.var: w}), st)
                    self.effects[-1].bound = frozenset([w])
                    return
                if n == 'LN':
                    self.LN = v
                    return
                if n == 'off_diag_corrections' and isinstance(v, Obj) and v.path[-1] == n:
                    return
                if n.startswith(('printed_', 'nsingle_')):
                    return
        if isinstance(t, ast.Name) and isinstance(v, Arr) and v.name.startswith('new:'):
            k = t.id
            if k in ('current', 'energy_current', 'heat_current'):
                env[k] = Arr('loc:' + k)
                DIMS['loc:' + k] = 1
                self.effect('loc:' + k, 'fill', (), poly(0), st)
                return
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, mod)
            if isinstance(b, PopArr):
                i = self.ev(t.slice, env, mod)
                if isinstance(i, Row) and i.vals is not None and i.vals[0] is i.vals[1]:
                    b.items.append((i.vals[2].q, i.vals[0], self.num(v, st) * self.guard))
                    return
                out('element of a vector over the populations', st)
        return Executor.assign(self, t, v, env, mod, st)

    def assign_value(self, st, env, mod):
        if len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript):
            b = self.ev(st.targets[0].value, env, mod)
            if isinstance(b, PopArr):
                return self.ev(st.value, env, mod)
        return Executor.assign_value(self, st, env, mod)

    def ev_Subscript(self, e, env, mod):
        if isinstance(e.value, ast.Name) and isinstance(env.get(e.value.id), PopArr):
            return env[e.value.id]
        b = self.ev(e.value, env, mod)
        if isinstance(b, Obj) and b.path[-1] == 'mats':
            i = self.ev(e.slice, env, mod)
            if i in MATS:
                return Arr(MATS[i])
            out('matrix of the handler', e)
        if isinstance(b, Arr) and b.name in ('Wdd', 'WE1', 'WE2') and not b.idx and isinstance(e.slice, ast.Tuple) and len(e.slice.elts) == 3:
            l = self.ev(e.slice.elts[0], env, mod) if not isinstance(e.slice.elts[0], ast.Slice) else None
            full = [isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None for x in e.slice.elts[1:]]
            if isinstance(l, Var) and all(full):
                return PopMat(lambda x, y, n=b.name, l=l: self.popread(n, l, x, y, e))
        return Executor.ev_Subscript(self, e, env, mod)

    def popread(self, n, l, x, y, node):
        return atom(n, l, x, y)

    # calls
    def ev_Call(self, e, env, mod):
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and f.attr in self.recorded:
            a = [self.ev(x, env, mod) for x in e.args]
            idx = tuple(x.q if isinstance(x, Chg) else x for x in a if not isinstance(x, Obj))
            if not all(isinstance(x, Var) for x in idx):
                out('arguments of %s' % f.attr, e)
            chs = [x for x in a if isinstance(x, Chg)]
            for x in a:
                if isinstance(x, Var) and x.sort == 'state' and not any(x.charge == (c.q, c.off) for c in chs):
                    out('charge given to %s' % f.attr, e)
            if any(c.off for c in chs):
                out('charge given to %s' % f.attr, e)
            self.effect('call:' + f.attr, 'add', tuple(x for x in idx if x.sort == 'state'), poly(1), e)
            return None
        return Executor.ev_Call(self, e, env, mod)

    def call(self, f, args, kw, node, env, mod):
        if isinstance(f, tuple) and f and f[0] == 'listappend':
            f[1].items.append((None, self.num(args[0], node), self.guard, tuple(self.scope)))
            return None
        return Executor.call(self, f, args, kw, node, env, mod)

    def call_func(self, f, args, kw, node, env):
        name = f[2].name
        if name in ('cabs', 'fabs') and len(args) == 1:
            return atom('abs', self.num(args[0], node))
        if 'specfunc' in f[1].rel:
            if name == 'fermi_func' and len(args) == 1 and not kw:
                x = self.num(args[0], node)
                return atom('fn:fermi_func', x) if sign_of(x) > 0 else 1 - atom('fn:fermi_func', -x)
            if name == 'phi':
                s = kw.get('sign', args[3] if len(args) > 3 else 1)
                if len(args) < 3:
                    out('arguments of phi', node)
                x, d1, d2 = [self.num(a, node) for a in args[:3]]
                if sign_of(x) < 0:
                    x = -x
                return self.num(s, node) * atom('fn:phi', x, d1, d2)
            if name in ('integralD', 'integralX') and not kw:
                r = []
                for a in args:
                    r.append(poly(int(a)) if isinstance(a, bool) else self.num(a, node))
                return atom('fn:' + name, *r)
        return Executor.call_func(self, f, args, kw, node, env)

    def call_builtin(self, n, args, kw, node, env, mod):
        if n in ('np.abs', 'fabs', 'cabs', 'abs', 'numpy.abs') and len(args) == 1:
            return atom('abs', self.num(args[0], node))
        if n in ('max', 'np.max', 'np.amax') and len(args) == 1 and isinstance(args[0], Arr) and args[0].name == 'tlst':
            return atom('max')
        if n == 'openmp.omp_get_thread_num':
            return self.thread
        if n in ('np.zeros', 'numpy.zeros'):
            if isinstance(args[0], NLead):
                return Arr('new:lead')
            if isinstance(args[0], Row) and args[0].table == 'populations':
                return PopArr()
        if n in ('np.array', 'np.asarray') and len(args) >= 1:
            a = args[0]
            if isinstance(a, ListObj):
                return self.tovec(a, node)
            if isinstance(a, tuple) and a and a[0] == 'gen':
                l = ListObj()
                st = ast.parse('__l.append(0)').body[0]
                st.value.args = [a[1].elt]
                for c in reversed(a[1].generators):
                    body = [st]
                    for t in reversed(c.ifs):
                        body = [ast.If(test=t, body=body, orelse=[])]
                    st = ast.For(target=c.target, iter=c.iter, body=body, orelse=[])
                ast.copy_location(st, a[1])
                ast.fix_missing_locations(st)
                en = dict(a[2])
                en['__l'] = l
                self.block([st], en, a[3])
                return self.tovec(l, node)
        if n in ('np.dot', 'np.matmul') and len(args) == 2:
            a, b = [self.popval(x) for x in args]
            if isinstance(a, PopMat) and isinstance(b, PopVec):
                x, y = Var('pop'), Var('pop')
                return PopVec(None, x, (a.f(x, y) * b.at(y)).sum(y))
            if isinstance(a, PopVec) and isinstance(b, PopVec):
                x = Var('pop')
                return (a.at(x) * b.at(x)).sum(x)
            out('product of %s and %s' % (type(a).__name__, type(b).__name__), node)
        if n in ('np.sum', 'sum') and len(args) == 1 and isinstance(args[0], PopVec):
            x = Var('pop')
            return args[0].at(x).sum(x)
        if n == 'float' and isinstance(args[0], Chg):
            return args[0]
        return Executor.call_builtin(self, n, args, kw, node, env, mod)

    def popval(self, x):
        if isinstance(x, Arr) and x.name == 'phi0' and not x.idx:
            v = Var('pop')
            return PopVec(None, v, atom('phi0', v))
        if isinstance(x, Arr) and x.name == 'LN' and not x.idx:
            v = Var('pop')
            return PopVec(None, v, atom('LN', v))
        if isinstance(x, PopArr):
            return x.vec()
        return x

    def tovec(self, l, node):
        """List filled in the order charge, state of the charge: a vector over the populations (the order of the numbering)."""
        if len(l.items) != 1:
            out('list with %d places of append' % len(l.items), node)
        _, v, g, scope = l.items[0]
        vs = [x for x in scope if isinstance(x, Var)]
        q = [x for x in vs if x.sort == 'charge']
        b = [x for x in vs if x.sort == 'state']
        if len(vs) != 2 or len(q) != 1 or len(b) != 1 or b[0].charge != (q[0], 0) or vs[0] is not q[0]:
            out('order of a list', node)
        for (bb, aa), c in g.t.items():
            if any(x[0] != '[dom]' for x in aa):
                out('list filled under a condition', node)
        return PopVec(q[0], b[0], v)

    def binop(self, op, a, b, e):
        if any(isinstance(x, str) or isinstance(x, Obj) and x.path == ('text',) for x in (a, b)):
            return Obj(('text',))
        if isinstance(a, Chg) or isinstance(b, Chg):
            if op == 'Mult':
                return self.num(a, e) * self.num(b, e)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PopVec) and isinstance(y, NUM) and op == 'Mult':
                return PopVec(x.q, x.var, x.val * self.num(y))
        return Executor.binop(self, op, a, b, e)

    def call_kh(self, o, name, args, kw, node, mod):
        if kw:
            m = self.S.method(self.handler[0], self.handler[1], name)
            if m is not None:
                names = [a.arg for a in m[2].args.args][1:]
                if name in ('add_matrix_element', 'set_matrix_element_dd', 'add_element_2nd_order', 'add_element_Lnn'):
                    args = args + [kw[n] for n in names[len(args):] if n in kw]
                    kw = {}
        if name == 'set_matrix_element_dd':
            l, fm, fp, bb, aa, mi = args
            if not (isinstance(bb, D0) and isinstance(aa, D0) and bb.x is bb.y and aa.x is aa.y and mi in MATS):
                out('arguments of %s' % name, node)
            self.effect(MATS[mi], 'add', (l, bb.x, bb.x, bb.x, bb.x), self.num(fm, node), node)
            self.effect(MATS[mi], 'add', (l, bb.x, bb.x, aa.x, aa.x), self.num(fp, node), node)
            return None
        if name == 'add_matrix_element':
            f, l, b, bp, bc, a, ap, ac, mi = args
            self.pair_ok(b, bp, bc, node, name)
            self.pair_ok(a, ap, ac, node, name)
            if mi not in (3, 4, 5, 6):
                out('matrix %r' % (mi,), node)
            g = poly(1)
            for x, y in ((b, bp), (a, ap)):
                if x is not y:
                    g = g * atom('[inc]', x, y)
            self.effect('rtd:%d' % mi, 'add', (l, b, bp, a, ap), self.num(f, node) * g, node)
            return None
        if name == 'add_element_2nd_order':
            if self.compiled:
                if args[0] is not self.thread:
                    out('copy of the kernel', node)
                args = args[1:]
            r, f, i0, i1, a3, c3, a4, c4 = args
            self.pair_ok(a3, a3, c3, node, name)
            self.pair_ok(a4, a4, c4, node, name)
            for i in (i0, i1):
                if not (isinstance(i, D0) and i.x is i.y):
                    out('arguments of %s' % name, node)
            f = self.num(f, node) * 2
            for row, col, s in ((a4, i0.x, 1), (a3, i0.x, -1), (a4, i1.x, 1), (a3, i1.x, -1)):
                self.effect('Wdd', 'add', (r, row, row, col, col), f * s, node)
            return None
        if name == 'add_element_Lnn':
            a1, b1, c, f = args
            self.pair_ok(a1, b1, c, node, name)
            self.effect('Lnn', 'add', (a1, b1), self.num(f, node), node)
            return None
        return Executor.call_kh(self, o, name, args, kw, node, mod)

    def pair_ok(self, x, y, c, node, what):
        if not (isinstance(x, Var) and isinstance(y, Var) and isinstance(c, Chg)):
            out('arguments of %s' % what, node)
        ok = x.charge == (c.q, c.off) and y.charge == (c.q, c.off)
        self.checked.append((what, node.lineno, ok))
        if not ok:
            self.problems.append('%s at line %s: charges of the states' % (what, node.lineno))
            out('%s called outside its contract' % what, node)

    # loops
    def loop(self, st, env, mod):
        m = self.maximum(st, env)
        if m is not None:
            env[m] = atom('max')
            return
        if self.addcopies(st, env, mod):
            return
        return Executor.loop(self, st, env, mod)

    def maximum(self, st, env):
        """for i in range(nleads): if tlst[i] > m: m = tlst[i]   with m = 0 before (temperatures are positive)."""
        if len(st.body) != 1 or not isinstance(st.body[0], ast.If) or st.body[0].orelse or len(st.body[0].body) != 1:
            return None
        a = st.body[0].body[0]
        t = st.body[0].test
        if not (isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name) and isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        m = a.targets[0].id
        l, r, v = ast.unparse(t.left), ast.unparse(t.comparators[0]), ast.unparse(a.value)
        i = st.target.id if isinstance(st.target, ast.Name) else '?'
        big, small = (l, r) if isinstance(t.ops[0], (ast.Gt, ast.GtE)) else (r, l)
        if small != m or big != v or v not in ('tlst[%s]' % i,) or env.get(m) not in (0, 0.0) or not isinstance(env.get('tlst'), Arr):
            return None
        if ast.unparse(st.iter) not in ('range(nleads)', 'range(kh.nleads)'):
            return None
        return m

    def addcopies(self, st, env, mod):
        return False

    def rng(self, args, node):
        if len(args) == 1 and isinstance(args[0], Row) and args[0].vals is None and args[0].table == 'populations':
            return [self.rows('populations', node)]
        return Executor.rng(self, args, node)


class PopArr(object):
    def __init__(self):
        self.items = []

    def vec(self):
        if len(self.items) != 1:
            raise OutOfReach('vector over the populations')
        return PopVec(*self.items[0])


# ------------------------------------------------------------------------------------------------ the class
class R(object):
    def __init__(self, S, compiled):
        self.S, self.compiled = S, compiled
        self.name = '%sRTD' % ('' if compiled else 'py')
        self.cache = {}

    def one(self, method, nargs, calls=()):
        """Run a method for arbitrary states of an arbitrary charge."""
        if (method, nargs) in self.cache:
            r = self.cache[(method, nargs)]
            if isinstance(r, OutOfReach):
                raise r
            return r
        try:
            ex = RExecutor(self.S, self.compiled, calls)
            q = Var('charge')
            vs = [Var('state', (q, 0)) for _ in range(nargs)]
            ex.scope = list(vs) + [master.atom_tuple(q, 'lo', 0), master.atom_tuple(q, 'hi', 0)]
            args = (vs + [Chg(q, 0)] if nargs else []) + ([Obj(('kh',), ex.handler)] if self.compiled and nargs else [])
            ex.run(method, args)
            self.cache[(method, nargs)] = (ex, q, vs)
        except OutOfReach as e:
            self.cache[(method, nargs)] = e
            raise
        return self.cache[(method, nargs)]

    SECOND = {False: 'generate_col_diag_kern_2nd_order', True: 'generate_matrix_element_2nd_order'}

    def second(self):
        return self.one(self.SECOND[self.compiled], 1)

    def written(self, ex):
        return sorted(set(e.arr for e in ex.effects))


def content(ex, arr, idx, fixed=()):
    return ex.content(arr, idx)


def only(V, ex, method, allowed):
    w = set(V.written(ex)) - set(allowed)
    return bool_ob('%s.%s: writes nothing but %s' % (V.name, method, ', '.join(allowed)), not w, ', '.join(w), definite=False)


def first_columns(V):
    """Every pair (c, b) is inserted once from the row of c and once from the row of b; together no column changes."""
    m = 'generate_row_1st_order_kernel'
    ex, q, (b,) = V.one(m, 1)
    l = Var('lead')
    qy = Var('charge')
    y = Var('state', (qy, 0))
    qx = Var('charge')
    x = Var('state', (qx, 0))
    # generator of the first order: the rows of all states
    W = ex.content('Wdd', (l, x, x, y, y)).sum(b)
    W = (W * atom('[dom]', q, 'lo', 0) * atom('[dom]', q, 'hi', 0)).sum(q)
    vacuous(W, 'the first-order kernel')
    rows = [e for e in ex.effects if e.arr == 'Wdd' and not (e.idx[1] is b and e.idx[2] is b)]
    return [zero('%s.%s: the rows of all states together leave every column sum at zero, for every lead' % (V.name, m),
                 W.sum(x).sum(qx), (l, qy, y)),
            bool_ob('%s.%s: writes to the row of its own state only' % (V.name, m), not rows, str(rows[:1]), definite=False),
            only(V, ex, m, ('Wdd',))]


def second_columns(V):
    ex, q, (b,) = V.second()
    l = Var('lead')
    qy = Var('charge')
    y = Var('state', (qy, 0))
    qx = Var('charge')
    x = Var('state', (qx, 0))
    W = ex.content('Wdd', (l, x, x, y, y))
    vacuous(W, 'the second-order kernel')
    m = V.SECOND[V.compiled]
    r = [zero('%s.%s: every column sum of every lead stays at zero' % (V.name, m), W.sum(x).sum(qx), (l, qy, y, q, b)), only(V, ex, m, ('Wdd',)),
         zero('%s.%s: contributions are real' % (V.name, m), W.im(), (l, qy, y, qx, x, q, b))]
    deg = set()
    for (bb, aa), c in W.t.items():
        deg.add(sum(1 for a in aa if a[0] == 'Tba'))
    r.append(bool_ob('%s.%s: every contribution is of fourth order in the couplings' % (V.name, m), deg == {4}, 'orders %s' % sorted(deg),
                     definite=bool(deg) and all(isinstance(d, int) for d in deg) and 2 in deg))
    return r


def dn_columns(V):
    m = 'generate_col_nondiag_kern_1st_order_dn'
    ex, q, (a1, b1) = V.one(m, 2)
    l = Var('lead')
    qx = Var('charge')
    x = Var('state', (qx, 0))
    r = []
    ne = 1 - atom('[==]', a1, b1)
    for k, what in ((3, 'real'), (4, 'imaginary')):
        W = ex.content('rtd:%d' % k, (l, x, x, a1, b1))
        vacuous(W, 'W_dn')
        r.append(zero('%s.%s: %s part: column sums are zero for every lead and coherence' % (V.name, m, what),
                      (W * ne * atom('[dom]', q, 'lo', 0) * atom('[dom]', q, 'hi', 0)).sum(x).sum(qx), (l, q, a1, b1)))
    bad = [e for e in ex.effects if not (e.idx[1] is e.idx[2] and e.idx[3] is a1 and e.idx[4] is b1)]
    r.append(bool_ob('%s.%s: writes to the column of its own coherence and to rows of populations' % (V.name, m), not bad, str(bad[:1]), definite=False))
    r.append(only(V, ex, m, ('rtd:3', 'rtd:4')))
    return r


def nd_frame(V):
    m = 'generate_col_nondiag_kern_1st_order_nd'
    ex, q, (a1,) = V.one(m, 1)
    bad = [e for e in ex.effects if not (e.idx[3] is a1 and e.idx[4] is a1)]
    r = [bool_ob('%s.%s: writes to the column of its own population' % (V.name, m), not bad, str(bad[:1]), definite=False),
         only(V, ex, m, ('rtd:5', 'rtd:6'))]
    l = Var('lead')
    qx = Var('charge')
    x, y = Var('state', (qx, 0)), Var('state', (qx, 0))
    for k, s, what in ((5, 1, 'real part is symmetric'), (6, -1, 'imaginary part is antisymmetric')):
        W = ex.content('rtd:%d' % k, (l, x, y, a1, a1))
        T = W.subst({x: y, y: x})
        vacuous(W, 'W_nd')
        r.append(zero('%s.%s: %s under exchange of the states of the coherence (hermitian)' % (V.name, m, what),
                      (W - T * s) * (1 - atom('[==]', x, y)) * atom('[dom]', q, 'lo', 0) * atom('[dom]', q, 'hi', 0), (l, q, a1, qx, x, y)))
    return r


def pauli_first(V):
    """Without corrections the second order in the coupling is the rate equation of the Pauli approach."""
    m = 'generate_row_1st_order_kernel'
    ex, q, (b,) = V.one(m, 1)
    l = Var('lead')
    r = []
    W = poly(0)
    for e in ex.effects:
        if e.arr != 'Wdd' or not (e.idx[1] is b):
            raise OutOfReach('row of the first-order kernel')
        t = e.val * e.guard * atom('rho', e.idx[3], e.idx[3])
        from .sp import fix_charges
        mm = {v: Var(v.sort, v.charge, v.name) for v in e.bound}
        fix_charges(mm)
        t = t.subst(mm)
        for v in mm.values():
            t = t.sum(v)
        lead = e.idx[0]
        if lead not in e.bound:
            raise OutOfReach('lead of the first-order kernel')
        W = W + t
    P_ = master.Variant(V.S, 'Pauli', V.compiled, False)
    bb = Var('state', (q, 0))
    want = P_.drho(b, b) if True else None
    r.append(zero('%s.%s: summed over the leads it is the generator of the Pauli approach' % (V.name, m),
                  (W - want) * atom('[dom]', q, 'lo', 0) * atom('[dom]', q, 'hi', 0), (q, b)))
    exf = V.one('generate_fct', 0)[0]
    c = Var('state', (q, 1))
    for j in (0, 1):
        idx = (l, c, b, j)
        r.append(zero('%s.generate_fct: paulifct[.,.,%d] is that of the Pauli approach' % (V.name, j),
                      master.array(exf, 'paulifct', idx) - master.array(P_.run('generate_fct'), 'paulifct', idx), (q, l, b, c)))
    r.append(only(V, exf, 'generate_fct', ('paulifct', 'rez')))
    return r


def currents(V):
    ex, _, _ = V.one('generate_current', 0)
    l = Var('lead')
    pre = '' if V.compiled else 'loc:'
    x, y = Var('pop'), Var('pop')

    def tr(f, w=None):
        t = atom(f, l, x, y) * atom('phi0', y)
        t = t * w if w is not None else t
        return t.sum(y).sum(x)
    half = Fraction(1, 2)
    r = []
    if V.compiled:
        I, E = stored(ex, 'current', l), stored(ex, 'energy_current', l)
    else:
        I, E = stored(ex, 'loc:current', l), stored(ex, 'loc:energy_current', l)
    r.append(zero('%s.generate_current: particle current = 1/2 L_N W(lead) phi0' % V.name, I - tr('Wdd', atom('LN', x)).scale(half), (l,)))
    r.append(zero('%s.generate_current: energy current = L_E W(lead) phi0 - (W_E1 - W_E2) phi0 / 2' % V.name,
                  E - tr('Wdd', atom('Ea', x)) + tr('WE1').scale(half) - tr('WE2').scale(half), (l,)))
    # heat
    arr = 'heat_current' if V.compiled else 'self.heat_current'
    h = [e for e in ex.effects if e.arr == arr and e.kind == 'set']
    if len(h) != 1 or len(h[0].idx) != 1 or h[0].idx[0] not in h[0].bound or not h[0].guard.is_const():
        raise OutOfReach('the way heat_current is written')
    val = h[0].val.subst({h[0].idx[0]: l})
    hi = ex.effects.index(h[0])
    for n in ('current', 'energy_current'):
        if any(e.arr in (n, 'loc:' + n) and e.kind != 'fill' for e in ex.effects[hi+1:]):
            raise OutOfReach('a current changes after the heat current')
    if not V.compiled:
        for n in ('current', 'energy_current'):
            s = [e for e in ex.effects if e.arr == 'self.' + n]
            if len(s) != 1 or ex.effects.index(s[0]) > hi + 3:
                raise OutOfReach('the way %s is stored' % n)
            v = s[0].val.subst({s[0].idx[0]: l})
            ok = v.names() == {'loc:%s@%d' % (n, count(ex, 'loc:' + n, ex.effects.index(s[0])))}
            r.append(bool_ob('%s.generate_current: %s is the array that was filled' % (V.name, n), ok, str(v), definite=False))
    pre = '' if V.compiled else 'loc:'

    def cur(n):
        k = count(ex, pre + n, hi)
        if V.compiled:      # read back inside the same iteration
            return 'inner', n
        return atom('%s@%d' % (pre + n, k), l)
    if V.compiled:
        want = atom('energy_current@%d' % count(ex, 'energy_current', hi), l) - atom('current@%d' % count(ex, 'current', hi), l) * atom('mulst', l)
        alt = E - I * atom('mulst', l)
        o = zero('%s.generate_current: heat current = energy current - mu*particle current' % V.name, val - want, (l,), model=False)
        if o['status'] != 'proved':
            o = zero('%s.generate_current: heat current = energy current - mu*particle current' % V.name,
                     substcur(val, E, I, l) - alt, (l,))
        r.append(o)
    else:
        want = cur('energy_current') - cur('current') * atom('mulst', l)
        o = zero('%s.generate_current: heat current = energy current - mu*particle current' % V.name, val - want, (l,), model=False)
        if o['status'] != 'proved' and (val - want).names() <= {pre + n + '@%d' % count(ex, pre + n, hi) for n in ('current', 'energy_current')} | {'mulst', 'tlst'}:
            o['status'] = 'refuted'
        r.append(o)
    return r


def substcur(val, E, I, l):
    """Replace reads of the arrays of currents by their contents."""
    r = poly(0)
    for (b, a), c in val.t.items():
        t = P({(b, ()): c})
        for x in a:
            n = x[0].split('@')[0]
            if n == 'energy_current' and x[2:] == (l,):
                t = t * E
            elif n == 'current' and x[2:] == (l,):
                t = t * I
            else:
                t = t * P({(frozenset(), (x,)): (Fraction(1), Fraction(0))})
        r = r + t
    return r


def count(ex, arr, before):
    return len([e for e in ex.effects[:before] if e.arr == arr])


def stored(ex, arr, l):
    """Value of arr[l] after the loop over the leads (set, then added to), before a fill with nan."""
    es = [e for e in ex.effects if e.arr == arr and e.kind != 'fill']
    if not es or es[0].kind != 'set' or any(e.kind != 'add' for e in es[1:]):
        raise OutOfReach('the way %s is written' % arr)
    t = poly(0)
    for e in es:
        if len(e.idx) != 1 or e.idx[0] not in e.bound or not e.guard.is_const():
            raise OutOfReach('the way %s is written' % arr)
        t = t + e.val.subst({e.idx[0]: l})
    return t


def number(V):
    """L_N holds twice the particle number of every population, in the order of the numbering."""
    ex, _, _ = V.one('generate_LN', 0)
    v = getattr(ex, 'LN', None)
    v = ex.popval(v)
    if not isinstance(v, PopVec):
        raise OutOfReach('the way LN is made')
    return zero('%s.generate_LN: twice the particle number of every population, in order' % V.name, v.val - atom('chg', v.q).scale(2), (v.q, v.var))


# ------------------------------------------------------------------------------------------------ generate_kern
ROWS = ['generate_row_1st_order_kernel', 'generate_row_1st_energy_kernel', 'generate_row_2nd_energy_kernel']
NDN = ['generate_col_nondiag_kern_1st_order_nd', 'generate_col_nondiag_kern_1st_order_dn', 'generate_row_inverse_Liouvillian']


class GExecutor(RExecutor):
    """generate_kern: sub-steps are recorded; sums over whole matrices are events."""
    def __init__(self, S, compiled):
        RExecutor.__init__(self, S, compiled, ROWS + NDN + [R.SECOND[compiled]])
        self.order = []

    def inline(self, m, args, kw, node):
        n = m[2].name
        if n in ('set_Ozaki_params',):
            return None
        if n == 'add_off_diag_corrections':
            self.event('corrections', node)
            return None
        if n == 'get_kern_size':
            return Row('populations')
        return RExecutor.inline(self, m, args, kw, node)

    def event(self, what, node):
        self.effect('event:' + what, 'add', (), poly(1), node)

    def cond(self, v, node=None):
        if isinstance(v, Obj) and v.path[-1] == '?':
            return atom('[par:?]')
        return RExecutor.cond(self, v, node)

    def block(self, stmts, env, mod):
        keep = []
        for st in stmts:
            if isinstance(st, ast.If) and ozaki(st):
                continue
            if isinstance(st, ast.For) and ozaki(st):
                continue
            keep.append(st)
        return RExecutor.block(self, keep, env, mod)

    def augassign(self, st, env, mod):
        t, v = ast.unparse(st.target), ast.unparse(st.value)
        if isinstance(st.target, ast.Subscript) and t.replace('(', '').replace(')', '') in ('self.kern[:kern_size, :kern_size]', 'self._kern[:kern_size, :kern_size]') \
                and isinstance(st.op, ast.Add):
            c = st.value
            if isinstance(c, ast.Call) and ast.unparse(c.func) == 'np.sum' and len(c.args) == 2 and ast.unparse(c.args[1]) == '0' or \
                    isinstance(c, ast.Call) and ast.unparse(c.func) == 'np.sum' and len(c.args) == 1 and \
                    [(k.arg, ast.unparse(k.value)) for k in c.keywords] == [('axis', '0')]:
                if ast.unparse(c.args[0]) in ('self.Wdd', 'self._Wdd', 'kh.Wdd'):
                    self.event('kern', st)
                    return
            out('what is added to the kernel: %s' % v, st)
        return RExecutor.augassign(self, st, env, mod)

    def addcopies(self, st, env, mod):
        if len(st.body) == 1 and isinstance(st.body[0], ast.AugAssign) and isinstance(st.body[0].op, ast.Add) and isinstance(st.target, ast.Name):
            a = st.body[0]
            i = st.target.id
            if ast.unparse(st.iter) == 'range(1, self.nbr_Wdd2_copies)' and ast.unparse(a.target) == 'self._Wdd2[0, ...]' \
                    and ast.unparse(a.value) == 'self._Wdd2[%s, ...]' % i:
                self.event('copies', st)
                return True
        return False


def ozaki(st):
    """A statement whose only effect is to set the parameters of the expansion of the integrals."""
    for n in ast.walk(st):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Return, ast.Delete, ast.Continue)):
            return False
        if isinstance(n, ast.Expr) and ast.unparse(n) != 'self.set_Ozaki_params()':
            return False
    return any(isinstance(n, ast.Expr) for n in ast.walk(st))


def steps(V):
    """generate_kern runs every step for every state exactly once, sums the leads and adds the corrections if asked."""
    ex = GExecutor(V.S, V.compiled)
    ex.run('generate_kern')
    q = Var('charge')
    b, bp = Var('state', (q, 0)), Var('state', (q, 0))
    off = atom('[par:off_diag_corrections]')
    r = []
    n = V.name + '.generate_kern: '
    dom = atom('[dom]', q, 'lo', 0) * atom('[dom]', q, 'hi', 0)
    for m in ROWS + [V.SECOND[V.compiled]]:
        r.append(zero(n + '%s once for every state' % m, (ex.content('call:' + m, (b,)) - 1) * dom, (q, b)))
    r.append(zero(n + 'W_nd once for every state, with corrections only', (ex.content('call:' + NDN[0], (b,)) - off) * dom, (q, b)))
    ne = 1 - atom('[==]', b, bp)
    for m in NDN[1:]:
        r.append(zero(n + '%s once for every ordered pair of different states of a charge, with corrections only' % m,
                      (ex.content('call:' + m, (b, bp)) - off * ne) * dom, (q, b, bp)))
    ev = [(e.arr[6:], e.val, not e.bound) for e in ex.effects if e.arr.startswith('event:')]
    want = [('kern', poly(1)), ('corrections', off)]
    if V.compiled:
        want = [('copies', poly(1))] + want
    ok = [x[0] for x in ev] == [x[0] for x in want] and all(x[2] for x in ev)
    ok = ok and all(not canon(x[1] - y[1]) for x, y in zip(ev, want))
    pos = {}
    for i, e in enumerate(ex.effects):
        k = e.arr.split(':')[-1]
        pos.setdefault(k, [i, i])[1] = i
    if ok:
        first = ['generate_row_1st_order_kernel', V.SECOND[V.compiled]]
        ok = all(pos[m][1] < pos['kern'][0] for m in first) and all(pos[m][1] < pos['corrections'][0] for m in NDN)
        if V.compiled:
            ok = ok and pos[first[1]][1] < pos['copies'][0] < pos['kern'][0]
    r.append(bool_ob(n + 'the generator is the sum over the leads of the complete W_dd, plus the corrections after their parts', ok,
                     str([(x[0], str(x[1])) for x in ev]), definite=False))
    return r


# ------------------------------------------------------------------------------------------------ corrections
class Mat(object):
    """Matrix f(x, y), x and y running over populations ('pop') or coherences ('off')."""
    def __init__(self, rows, cols, f):
        self.rows, self.cols, self.f = rows, cols, f


class LMat(object):
    """One matrix per lead."""
    def __init__(self, rows, cols, f):
        self.rows, self.cols, self.f = rows, cols, f


SHAPE = {'ReWdn': ('pop', 'off'), 'ImWdn': ('pop', 'off'), 'ReWnd': ('off', 'pop'), 'ImWnd': ('off', 'pop')}


class CExecutor(RExecutor):
    """add_off_diag_corrections: products of whole matrices."""
    def __init__(self, S, compiled):
        RExecutor.__init__(self, S, compiled)
        self.acc, self.added, self.mats = None, [], {}
        self.leadvar = None
        for n, (r, c) in SHAPE.items():
            if compiled and n.endswith('nd'):
                self.mats[n] = Mat(r, c, lambda x, y, n=n: self.sumlead(lambda l: atom(n, l, x, y)))
            else:
                self.mats[n] = LMat(r, c, lambda l, x, y, n=n: atom(n, l, x, y))
        self.mats['Lnn'] = 'diag' if compiled else Mat('off', 'off', lambda x, y: atom('Lnn', x, y))

    def sumlead(self, f):
        l = Var('lead')
        return f(l).sum(l)

    def obj_attr(self, b, name, node, env, mod):
        n = name.lstrip('_')
        if n in self.mats:
            return ('mat', n)
        if n == 'Wdd':
            return ('wdd',)
        if n == 'kern':
            return ('kern',)
        return RExecutor.obj_attr(self, b, name, node, env, mod)

    def attr(self, b, name, node, env, mod):
        if isinstance(b, tuple) and b and b[0] in ('mat', 'acc', 'wdd', 'kern'):
            if name == 'base':
                return b
            if name == 'shape' and b[0] == 'wdd':
                return ('shape',)
            if name in ('sum', 'dot'):
                return ('method', b, name)
        if isinstance(b, (Mat, LMat)) and name in ('sum', 'dot'):
            return ('method', b, name)
        return RExecutor.attr(self, b, name, node, env, mod)

    def inline(self, m, args, kw, node):
        if m[2].name == 'get_kern_size':
            return Row('populations')
        if m[2].name == 'diag_matrix_multiply':
            d, x = args
            if d != ('mat', 'Lnn') or self.mats['Lnn'] != 'diag' or not (isinstance(x, tuple) and x[0] == 'mat') or self.depthloop:
                out('arguments of diag_matrix_multiply', node)
            old = self.mats[x[1]]
            if not isinstance(old, Mat) or old.rows != 'off':
                out('arguments of diag_matrix_multiply', node)
            self.mats[x[1]] = Mat(old.rows, old.cols, lambda a, c, f=old.f: atom('Lnn', a, a) * f(a, c))
            return None
        return RExecutor.inline(self, m, args, kw, node)

    depthloop = 0

    def call_func(self, f, args, kw, node, env):
        if f[2].name == 'diag_matrix_multiply':
            return self.inline((f[1], None, f[2]), args, kw, node)
        return RExecutor.call_func(self, f, args, kw, node, env)

    def value(self, v, node):
        if isinstance(v, tuple) and v and v[0] == 'mat':
            m = self.mats[v[1]]
            if isinstance(m, (Mat, LMat)):
                return m
        if isinstance(v, (Mat, LMat)):
            return v
        out('a matrix was expected', node)

    def full(self, sl, node):
        return isinstance(sl, ast.Slice) and sl.lower is None and sl.upper is None and sl.step is None

    def ev_Subscript(self, e, env, mod):
        b = self.ev(e.value, env, mod)
        if isinstance(b, tuple) and b and b[0] in ('mat', 'acc'):
            ix = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if b == ('acc',):
                l = self.ev(ix[0], env, mod) if not isinstance(ix[0], ast.Slice) else None
                if isinstance(l, Var) and l is self.leadvar and all(self.full(x, e) for x in ix[1:]):
                    return ('accl',)
                out('element of the correction', e)
            m = self.value(b, e)
            if isinstance(m, LMat):
                if self.full(ix[0], e) and all(self.full(x, e) for x in ix):
                    return m
                l = self.ev(ix[0], env, mod) if not isinstance(ix[0], ast.Slice) else None
                if isinstance(l, Var) and l.sort == 'lead' and all(self.full(x, e) for x in ix[1:]):
                    return Mat(m.rows, m.cols, lambda x, y: m.f(l, x, y))
                out('part of a matrix', e)
            if all(self.full(x, e) for x in ix):
                return m
            out('part of a matrix', e)
        return RExecutor.ev_Subscript(self, e, env, mod)

    def call_builtin(self, n, args, kw, node, env, mod):
        if n == 'np.zeros' and args and args[0] == ('shape',):
            self.acc = lambda l, x, y: poly(0)
            return ('acc',)
        if n == 'np.zeros_like' and args == [('wdd',)]:
            self.acc = lambda l, x, y: poly(0)
            return ('acc',)
        if n in ('np.matmul', 'np.dot') and len(args) == 2:
            a, b = self.value(args[0], node), self.value(args[1], node)
            if not isinstance(a, Mat) or not isinstance(b, Mat) or a.cols != b.rows:
                out('product of matrices', node)

            def f(x, y):
                k = Var(a.cols)
                return (a.f(x, k) * b.f(k, y)).sum(k)
            return Mat(a.rows, b.cols, f)
        if n == 'np.sum' and (len(args) == 2 and args[1] == 0 or len(args) == 1 and kw.get('axis') == 0):
            if args[0] == ('acc',):
                if self.depthloop:
                    out('sum inside the loop', node)
                return ('accsum', self.acc)
            m = self.value(args[0], node)
            if isinstance(m, LMat):
                return Mat(m.rows, m.cols, lambda x, y: self.sumlead(lambda l: m.f(l, x, y)))
        return RExecutor.call_builtin(self, n, args, kw, node, env, mod)

    def call(self, f, args, kw, node, env, mod):
        if isinstance(f, tuple) and f and f[0] == 'method' and (f[1] == ('acc',) or isinstance(f[1], (Mat, LMat)) or isinstance(f[1], tuple) and f[1] and f[1][0] == 'mat'):
            if f[2] == 'sum':
                return self.call_builtin('np.sum', [f[1]] + args, kw, node, env, mod)
            if f[2] == 'dot':
                return self.call_builtin('np.dot', [f[1]] + args, kw, node, env, mod)
        return RExecutor.call(self, f, args, kw, node, env, mod)

    def binop(self, op, a, b, e):
        if op == 'MatMult':
            return self.call_builtin('np.matmul', [a, b], {}, e, {}, None)
        if op in ('Add', 'Sub'):
            x, y = [self.current() if v == ('accl',) else v for v in (a, b)]
            if isinstance(x, Mat) and isinstance(y, Mat):
                if (x.rows, x.cols) != (y.rows, y.cols):
                    out('sum of matrices', e)
                s = 1 if op == 'Add' else -1
                return Mat(x.rows, x.cols, lambda u, v: x.f(u, v) + y.f(u, v) * s)
        return RExecutor.binop(self, op, a, b, e)

    def current(self):
        f, l = self.acc, self.leadvar
        return Mat('pop', 'pop', lambda x, y: f(l, x, y))

    def setacc(self, m, node):
        if not isinstance(m, Mat) or (m.rows, m.cols) != ('pop', 'pop'):
            out('value of the correction', node)
        l0 = self.leadvar
        self.acc = lambda l, x, y: m.f(x, y).subst({l0: l})

    def assign(self, t, v, env, mod, st):
        if isinstance(t, ast.Subscript) and self.ev(t, env, mod) == ('accl',):
            return self.setacc(v, st)
        if isinstance(t, ast.Name) and isinstance(v, (Mat, tuple)):
            env[t.id] = v
            return
        return RExecutor.assign(self, t, v, env, mod, st)

    def assign_value(self, st, env, mod):
        return self.ev(st.value, env, mod)

    def augassign(self, st, env, mod):
        if not isinstance(st.op, ast.Add):
            out('update', st)
        v = self.ev(st.value, env, mod)
        if isinstance(st.target, ast.Subscript):
            b = self.ev(st.target.value, env, mod)
            if b == ('kern',):
                if ast.unparse(st.target.slice).strip('()') != ':kern_size, :kern_size' or not isinstance(env.get('kern_size'), Row):
                    out('part of the kernel', st)
                self.added.append(('kern', v))
                return
            if self.ev(st.target, env, mod) == ('accl',):
                return self.setacc(self.binop('Add', ('accl',), v, st), st)
        else:
            b = self.ev(st.target, env, mod)
            if b == ('wdd',) and v == ('acc',) and not self.depthloop:
                self.added.append(('Wdd', self.acc))
                return
        out('update', st)

    def loop(self, st, env, mod):
        it = self.ev(st.iter, env, mod)
        d = self.domain(it, st)
        if len(d) != 1 or len(d[0][0]) != 1 or d[0][0][0].sort != 'lead' or self.leadvar is not None:
            out('loop', st)
        self.leadvar = d[0][1]
        self.depthloop += 1
        self.assign(st.target, d[0][1], env, mod, st)
        if self.block(st.body, env, mod):
            out('leaving a loop', st)
        self.depthloop -= 1


def corrections(V):
    """W_dn (1/L_nn) W_nd, with W_dn of the lead; its columns sum to zero as those of W_dn do."""
    ex = CExecutor(V.S, V.compiled)
    ex.run('add_off_diag_corrections', [Obj(('kh',), ex.handler)] if V.compiled else [])
    n = V.name + '.add_off_diag_corrections: '
    l, x, y, k, m, lp = Var('lead'), Var('pop'), Var('pop'), Var('off'), Var('off'), Var('lead')
    a = dict(ex.added)
    if [w for w, _ in ex.added] not in (['Wdd', 'kern'], ['kern', 'Wdd']) or not (isinstance(a['kern'], tuple) and a['kern'][0] == 'accsum'):
        raise OutOfReach('what is added')
    W, K = a['Wdd'](l, x, y), a['kern'][1](l, x, y)

    def want(l):
        t = poly(0)
        for u, v in (('ReWdn', 'ImWnd'), ('ImWdn', 'ReWnd')):
            if V.compiled:
                t = t + (atom(u, l, x, k) * atom('Lnn', k, k) * atom(v, lp, k, y)).sum(k).sum(lp)
            else:
                t = t + (atom(u, l, x, k) * atom('Lnn', k, m) * atom(v, lp, m, y)).sum(m).sum(k).sum(lp)
        return t
    r = [zero(n + 'each lead gets (Re W_dn)(1/L_nn)(Im W_nd) + (Im W_dn)(1/L_nn)(Re W_nd), W_dn of that lead, W_nd of all', W - want(l), (l, x, y)),
         zero(n + 'the generator gets the sum of the same terms', K - W, (l, x, y))]
    bad = []
    for (b, at), c in W.t.items():
        h = [z for z in at if x in z[2:]]
        if len(h) != 1 or h[0][0] not in ('ReWdn', 'ImWdn') or h[0][2:4] != (l, x):
            bad.append(at)
    r.append(bool_ob(n + 'column sums of the correction are combinations of column sums of W_dn of the same lead', not bad, str(bad[:1]), definite=False))
    return r


# ------------------------------------------------------------------------------------------------ handler
class HR(object):
    def __init__(self, z, S, compiled):
        from .handler import H
        self.h = H(z, S, compiled, 'KernelHandlerRTD')
        at = self.h.h.attrs
        self.m = {n: ZArr(n, 3) for n in ('Wdd', 'WE1', 'WE2', 'ReWdn', 'ImWdn')}
        k = 2 if compiled else 3
        self.m.update(ReWnd=ZArr('ReWnd', k), ImWnd=ZArr('ImWnd', k), Lnn=ZArr('Lnn', 1 if compiled else 2))
        if compiled:
            self.m['Wdd2'] = ZArr('Wdd2', 4)
        at.update(self.m)
        if not compiled:
            self.h.run('set_matrix_list')


def handler(S, compiled):
    nm = '%sKernelHandlerRTD.' % ('' if compiled else 'py')
    r = []

    def con(what, f):
        z = Z(S)
        ps = z.explore(lambda z: f(HR(z, S, compiled)))
        r.append(allpaths(nm + what, z, ps, lambda v, ev: z3.BoolVal(False) if isinstance(v, Raised) else v))
    I, Rl = z3.Int, z3.Real

    def changed(h, want):
        """Exactly these additions: {name: [(index, amount)]}; at arbitrary indices of every matrix."""
        ok = []
        for n, a in h.m.items():
            ix = [I('i%d_%s' % (k, n)) for k in range(a.dim)]
            tot = z3.RealVal(0)
            for w, v in want.get(n, ()):
                tot = tot + z3.If(z3.And(*[x == y for x, y in zip(w, ix)]), v, 0)
            ok.append(real(a.read(ix)) == real(a.base(*ix)) + tot)
        ok.append(z3.BoolVal(not h.h.kern.log and not h.h.phi0.log))
        return z3.And(*ok)

    def dd(mi):
        def f(h):
            l, bb, aa, fm, fp = I('l'), I('bb'), I('aa'), Rl('fm'), Rl('fp')
            h.h.run('set_matrix_element_dd', l, fm, fp, bb, aa, mi)
            return changed(h, {MATS[mi]: [((l, bb, bb), fm), ((l, bb, aa), fp)]})
        return f
    for mi in (0, 1, 2):
        con('set_matrix_element_dd: adds fctm to [l,bb,bb] and fctp to [l,bb,aa] of %s and nothing else' % MATS[mi], dd(mi))

    def second(h):
        l, f, i0, i1, a3, c3, a4, c4, t = I('l'), Rl('f'), I('i0'), I('i1'), I('a3'), I('c3'), I('a4'), I('c4'), I('t')
        n3, _ = h.h.element(a3, a3, c3)
        n4, _ = h.h.element(a4, a4, c4)
        pre = (t,) if compiled else ()
        h.h.run('add_element_2nd_order', *(pre + (l, f, i0, i1, a3, c3, a4, c4)))
        w = [(pre + (l, n4, i0), 2*f), (pre + (l, n3, i0), -2*f), (pre + (l, n4, i1), 2*f), (pre + (l, n3, i1), -2*f)]
        return changed(h, {'Wdd2' if compiled else 'Wdd': w})
    con('add_element_2nd_order: adds 2f to rows a4, -2f to rows a3 of both columns of the lead and nothing else', second)

    def off(h, x, y, n):
        return z3.If(x == y, n, n - h.h.npauli + z3.If(x > y, h.h.ndm0 - h.h.npauli, 0))

    def add(mi):
        name = {3: 'ReWdn', 4: 'ImWdn', 5: 'ReWnd', 6: 'ImWnd'}[mi]

        def f(h):
            l, f, b, bp, bq, a, ap, aq = I('l'), Rl('f'), I('b'), I('bp'), I('bq'), I('a'), I('ap'), I('aq')
            n, _ = h.h.element(b, bp, bq, included=False)
            m, _ = h.h.element(a, ap, aq, included=False)
            h.h.run('add_matrix_element', f, l, b, bp, bq, a, ap, aq, mi)
            inc = z3.And(n != -1, m != -1)
            w = (off(h, b, bp, n), off(h, a, ap, m))
            if not compiled or mi < 5:
                w = (l,) + w
            size = 2*(h.h.ndm0 - h.h.npauli)
            rng = z3.Implies(inc, z3.And(*[z3.And(k >= 0, k < z3.If(x == y, h.h.npauli, size)) for k, x, y in
                                           ((w[-2], b, bp), (w[-1], a, ap))]))
            return z3.And(changed(h, {name: [(w, z3.If(inc, f, 0))]}), rng)
        return f
    for mi in (3, 4, 5, 6):
        con('add_matrix_element: adds to the element of %s in the place of the two elements, in range, nothing for a removed one' %
            {3: 'Re W_dn', 4: 'Im W_dn', 5: 'Re W_nd', 6: 'Im W_nd'}[mi], add(mi))

    def lnn(h):
        f, b, bp, bq = Rl('f'), I('b'), I('bp'), I('bq')
        h.h.z.assume(b != bp)
        n, _ = h.h.element(b, bp, bq, included=False)
        if compiled:
            h.h.run('add_matrix_element', f, 0, b, bp, bq, b, bp, bq, 7)
        else:
            h.h.run('add_element_Lnn', b, bp, bq, f)
        k = off(h, b, bp, n)
        return z3.And(changed(h, {'Lnn': [((k,) if compiled else (k, k), z3.If(n != -1, f, 0))]}),
                      z3.Implies(n != -1, z3.And(k >= 0, k < 2*(h.h.ndm0 - h.h.npauli))))
    con('adds to the diagonal element of 1/L_nn of its coherence, in range, nothing for a removed one', lnn)
    return r


def inverse(V):
    """generate_row_inverse_Liouvillian: the inverse of the energy difference of its coherence; tiny differences are cut off."""
    S, c = V.S, V.compiled
    rel = 'qmeq/approach/base/' + ('c_RTD.pyx' if c else 'RTD.py')
    mod = S.module(rel)
    cls = mod.classes['ApproachRTD' if c else 'ApproachPyRTD']
    E = ZArr('E', 1)
    a1, b1, q = z3.Ints('a1 b1 q')
    z = Z(S)

    def run(z):
        calls = []
        o = ZObj('appr', (mod, cls), {'_Ea': E, 'qd': ZObj('qd', None, {'Ea': E})})
        if c:
            kh = ZObj('kh', None, {'add_matrix_element': Fn(lambda z, a, k: calls.append((a[0], a[2:5], a[5:8], a[8])))})
        else:
            kh = ZObj('kh', None, {'add_element_Lnn': Fn(lambda z, a, k: calls.append((a[3], a[:3], a[:3], 7)))})
        o.attrs['kernel_handler'] = kh
        m = S.method(mod, cls, 'generate_row_inverse_Liouvillian')
        z.inline(m, [o, a1, b1, q] + ([kh] if c else []), {}, None)
        return calls

    def post(v, ev):
        if isinstance(v, Raised) or len(v) != 1:
            return z3.BoolVal(False)
        f, x, y, mi = v[0]
        if mi != 7 or len(x) != 3 or len(y) != 3:
            return z3.BoolVal(False)
        d = E.base(a1) - E.base(b1)
        w, small = real(f), z3.RealVal('1/10000000000')
        return z3.And(*[num(p) == num(r) for p, r in zip(list(x) + list(y), [a1, b1, q] * 2)],
                      z3.Implies(z3.Or(d >= small, d <= -small), w * d == 1),
                      z3.Implies(z3.And(d >= 0, d < small), w * small == 1), z3.Implies(z3.And(d < 0, d > -small), w * small == -1))
    return allpaths('%s.generate_row_inverse_Liouvillian: adds 1/(E_a - E_b) to its own coherence, energy differences below 1e-10 cut off' % V.name,
                    z, z.explore(run), post)


def above(p):
    """p for couplings above all cutoffs."""
    def cutoff(x):
        return x.names() <= {'max'} and all(abs(c[0]) <= 2e-10 and c[1] == 0 for c in x.t.values())       # only negligible ones are ignored
    r = {}
    for (b, a), c in p.t.items():
        keep, zero_ = [], False
        for x in a:
            if x[0] == '[num<]' and cutoff(x[2]) != cutoff(x[3]):
                if cutoff(x[2]):
                    continue
                zero_ = True
                break
            if x[0] == '[num==]' and cutoff(x[2]) != cutoff(x[3]):
                zero_ = True
                break
            keep.append(x)
        if zero_:
            continue
        k = (b, tuple(keep))
        o = r.get(k, (Fraction(0), Fraction(0)))
        r[k] = (o[0] + c[0], o[1] + c[1])
    return P({k: c for k, c in r.items() if c != (0, 0)})


def same(Vp, Vc):
    """Compiled and pure Python: the same contributions."""
    r = []
    l = Var('lead')
    n = 'RTD: compiled = pure Python: '

    def one(m, mc, nargs, arr, idx):
        ex, q, vs = Vp.one(m, nargs)
        ey, p, ws = Vc.one(mc, nargs)
        mp = dict(zip(ws, vs))
        mp[p] = q
        qx, qy = Var('charge'), Var('charge')
        x, y = Var('state', (qx, 0)), Var('state', (qy, 0))
        i = idx(l, x, y, vs)
        j = idx(l, x, y, ws)
        A, B = ex.content(arr, i), ey.content(arr, j).subst(mp)
        if m == R.SECOND[False]:
            A, B = above(A), above(B)
        vacuous(A, arr)
        d = (A - B) * atom('[dom]', q, 'lo', 0) * atom('[dom]', q, 'hi', 0)
        return zero(n + '%s of %s%s' % (arr, m, ' (couplings above the cutoffs)' if m == R.SECOND[False] else ''), d, [v for v in [l, qx, qy, q] + vs + [v for v in (x, y) if v in i]])
    for m in ROWS:
        arr = {'generate_row_1st_order_kernel': 'Wdd', 'generate_row_1st_energy_kernel': 'WE1', 'generate_row_2nd_energy_kernel': 'WE2'}[m]
        r += guarded(n + m, one, m, m, 1, arr, lambda l, x, y, vs: (l, x, x, y, y))
    r += guarded(n + 'second order', one, R.SECOND[False], R.SECOND[True], 1, 'Wdd', lambda l, x, y, vs: (l, x, x, y, y))
    for k in (3, 4):
        r += guarded(n + NDN[1], one, NDN[1], NDN[1], 2, 'rtd:%d' % k, lambda l, x, y, vs: (l, x, x, vs[0], vs[1]))
    for k in (5, 6):
        def nd():
            ex, q, (a,) = Vp.one(NDN[0], 1)
            ey, p, (b,) = Vc.one(NDN[0], 1)
            qx = Var('charge')
            x, y = Var('state', (qx, 0)), Var('state', (qx, 0))
            A = ex.content('rtd:%d' % k, (l, x, y, a, a))
            B = ey.content('rtd:%d' % k, (l, x, y, b, b)).subst({b: a, p: q})
            vacuous(A, 'W_nd')
            return zero(n + 'rtd:%d of %s' % (k, NDN[0]), (A - B) * atom('[dom]', q, 'lo', 0) * atom('[dom]', q, 'hi', 0), (l, q, a, qx, x, y))
        r += guarded(n + NDN[0], nd)

    def fct(j):
        q = Var('charge')
        c, b = Var('state', (q, 1)), Var('state', (q, 0))
        i = (l, c, b, j)
        return zero(n + 'paulifct[.,.,%d]' % j, master.array(Vp.one('generate_fct', 0)[0], 'paulifct', i) -
                    master.array(Vc.one('generate_fct', 0)[0], 'paulifct', i), (q, l, b, c))
    for j in (0, 1):
        r += guarded(n + 'paulifct', fct, j)
    return r


def precond(V):
    r = []
    for m, k in [(x, 1) for x in ROWS] + [(V.SECOND[V.compiled], 1), (NDN[0], 1), (NDN[1], 2), ('generate_fct', 0)]:
        def f():
            ex = V.one(m, k)[0]
            bad = [x for x in ex.checked if not x[2]]
            return {'name': '%s.%s: preconditions of %d calls and list accesses (charges of the states, index ranges)' % (V.name, m, len(ex.checked)),
                    'status': 'undecided' if bad or ex.problems else 'proved', 'backend': 'symbolic execution', 'detail': '; '.join(ex.problems[:3])}
        r += guarded('%s.%s preconditions' % (V.name, m), f)
    return r


def obligations(prop, S):
    r = []
    if prop not in ('C17', 'C10'):
        return r
    r = decide(prop, S)
    for o in r:                     # function under contract, from the name of the obligation
        m = re.match(r'(py)?RTD\.(\w+)', o['name'])
        if m and not o.get('functions'):
            o['functions'] = ['qmeq/approach/base/' + ('RTD.py:ApproachPyRTD.' if m.group(1) else 'c_RTD.pyx:ApproachRTD.') + m.group(2)]
    return r


def decide(prop, S):
    r = []
    VS = [R(S, c) for c in (False, True)]
    if prop == 'C17':
        for V in VS:
            for f in (first_columns, second_columns, dn_columns, nd_frame, pauli_first, currents, number, steps, corrections, inverse, precond):
                r += guarded('%s %s' % (V.name, f.__name__), f, V)
        for c in (False, True):
            r += guarded('KernelHandlerRTD', handler, S, c)
    if prop == 'C10':
        r += guarded('RTD compiled = pure Python', same, *VS)
        for V in VS:
            r += guarded('%s inverse' % V.name, inverse, V)
    return r
