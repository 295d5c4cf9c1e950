"""Symbolic execution of the real source text of one function, for all dot sizes, state sets and array contents.

Loops over states, leads, baths and charges are not unrolled: the body is executed once for an arbitrary iteration and the
loop is replaced by its exact effect - a variable v that the body turns into v + d (d free of variables modified by the
loop) becomes v0 + sum over the domain of d, an element update becomes one update per iteration.  A loop of any other
shape is out of reach (OutOfReach, the obligation stays undecided).  Branches are merged with Iverson brackets.
Calls of methods and functions of the package are executed too (inlined), except at the contract boundaries:
the kernel handler's interface and the rate functions, which have obligations of their own.
"""
import ast
from fractions import Fraction
from .sp import P, Var, poly, atom, SYM, akey
from .src import OutOfReach

DIMS = dict(Tba=3, Vbbp=3, Ea=1, paulifct=3, phi1fct=3, phi1fct_energy=3, phi1=2, current=1, energy_current=1,
            heat_current=1, tLba=3, tLbbp=4, w1fct=3, paulifct_elph=2, mulst=1, tlst=1, dlst=2, phi0=1, tlst_ph=1,
            dlst_ph=2, norm_vec=1, func_pauli_at_zero=1, func_1vN_elph_at_zero=2, rez_real=1, rez_complex=1,
            dphi0_dt=1, kern=2, bvec=1)
SYM.update(Tba='herm', rho='herm', Ea='real', paulifct='real', paulifct_elph='real', mulst='real', tlst='real', dlst='real',
           tlst_ph='real', dlst_ph='real', chg='real', sqrt='real', pi='real', norm_vec='real',
           current='real', energy_current='real', heat_current='real')
SYM['fn:func_pauli'] = 'pos'
SYM['fn:FuncPauliElPh'] = 'pos'
INPUTS = ('Tba', 'Vbbp', 'Ea', 'mulst', 'tlst', 'dlst', 'tlst_ph', 'dlst_ph')
KNOWN = set(DIMS) | {'rho', 'chg', 'sqrt', 'pi', '[inc]', '[incE]', '[==]', '[le]', '[uniq]', '[dom]', 'fn:func_pauli', 'fn:func_1vN',
                     'fn:FuncPauliElPh', 'fn:Func1vNElPh.val0', 'fn:Func1vNElPh.val1', 'par:itype', 'par:limit'}


class Chg(object):
    def __init__(self, q, off):
        self.q, self.off = q, off

    def __eq__(self, o):
        return isinstance(o, Chg) and o.q is self.q and o.off == self.off

    def __hash__(self):
        return hash((self.q, self.off))

    def __repr__(self):
        return 'Chg(%s%+d)' % (self.q, self.off)


class NCh(object):
    def __init__(self, off=0):
        self.off = off


class NLead(object):
    def __init__(self, sort):
        self.sort = sort


class Cnt(object):
    def __init__(self, chg, guard=None):
        self.chg, self.guard = chg, guard


class States(object):
    def __init__(self, chg):
        self.chg = chg


class Idx(object):
    """Position of a state in the list of its charge."""
    def __init__(self, var):
        self.var = var


class Row(object):
    """Position in one of the handler's tables (all_ba, all_bbp) or their length."""
    def __init__(self, table, vals=None):
        self.table, self.vals = table, vals


class D0(object):
    def __init__(self, x, y, elph):
        self.x, self.y, self.elph = x, y, elph


class D1(object):
    def __init__(self, c, b):
        self.c, self.b = c, b


class Arr(object):
    def __init__(self, name, idx=()):
        self.name, self.idx = name, idx


class Vec(object):
    """Element-wise expression over the leads or baths."""
    def __init__(self, var, val):
        self.var, self.val = var, val


class Obj(object):
    def __init__(self, path, cls=None):
        self.path, self.cls = path, cls

    def __repr__(self):
        return 'Obj(%s)' % (self.path,)


class Opaque(object):
    """Value of a function under contract whose components are read by index."""
    def __init__(self, name, args):
        self.name, self.args = name, args


class Fn(object):
    def __init__(self, f):
        self.f = f


class Poison(object):
    def __init__(self, why):
        self.why = why


class Effect(object):
    def __init__(self, arr, kind, idx, val, guard, line, par=()):
        self.arr, self.kind, self.idx, self.val, self.guard, self.bound, self.line = arr, kind, idx, val, guard, frozenset(), line

    def __repr__(self):
        return '%s%s %s= %s [%s] over %s' % (self.arr, self.idx, '+' if self.kind == 'add' else '', self.val, self.guard, set(self.bound))


NUM = (int, float, complex, P, bool)


def out(msg, node=None):
    raise OutOfReach(msg + (' (line %s)' % node.lineno if node is not None and hasattr(node, 'lineno') else ''))


class Executor(object):
    LIMIT = 40
    abstract_unique = False

    def __init__(self, sources, approach, handler, compiled, elph=False, diag=False):
        self.S, self.approach, self.handler, self.compiled, self.elph, self.diag = sources, approach, handler, compiled, elph, diag
        self.effects, self.guard, self.scope, self.problems, self.calls = [], poly(1), [], [], []
        self.reads_of = {}
        self.depth = 0
        self.inlined = []
        self.stop_at = {}
        self.checked = []

    # ---------------------------------------------------------------------------------------------- numbers
    def num(self, v, node=None):
        if isinstance(v, P):
            return v
        if isinstance(v, (int, float, complex)):
            return poly(v)
        if isinstance(v, Chg):
            return atom('chg', v.q) + v.off
        if isinstance(v, Arr):
            return self.read(v, node)
        if isinstance(v, Obj):
            return atom('par:' + v.path[-1].lstrip('_'))
        if isinstance(v, Poison):
            out('use of %s' % v.why, node)
        out('a number was expected, not %s' % type(v).__name__, node)

    def read(self, a, node=None):
        if a.name == 'phi0':
            if len(a.idx) == 1 and isinstance(a.idx[0], D0):
                d = a.idx[0]
                if d.x is d.y:
                    return atom('rho', d.x, d.x)
            out('packed element of the density matrix', node)
        n = DIMS.get(a.name)
        if n is not None and len(a.idx) != n:
            out('partial index of %s' % a.name, node)
        idx = self.flat(a.idx, node)
        if getattr(self, 'self_read', None) == (a.name, idx):
            return atom('@self')
        w = 0
        for e in reversed(self.effects):
            if e.arr != a.name:
                continue
            w += 1
            if w == 1 and e.kind == 'set' and e.idx == idx and not e.bound and self.guard_covers(e.guard):
                return e.val
        if not w:
            x = atom(a.name, *idx)
            self.reads_of.setdefault((a.name, idx), set()).add(tuple(map(id, self.scope)))
            return x
        last = [e for e in self.effects if e.arr == a.name]
        if all(e.kind == 'set' for e in last):
            r = self.lookup_set(last, idx)
            if r is not None:
                return r
        nm = '%s@%d' % (a.name, len(last))
        SYM[nm] = SYM.get(a.name, 'generic')
        self.reads_of.setdefault((nm, idx), set()).add(tuple(map(id, self.scope)))
        return atom(nm, *idx)

    def guard_covers(self, g):
        return g == self.guard or g.is_const() or (g * self.guard) == self.guard

    def lookup_set(self, effects, idx):
        """Element of an array written by closed loops: the unique write whose constant indices match."""
        hits = []
        for e in effects:
            m, ok = {}, True
            for x, y in zip(e.idx, idx):
                if isinstance(x, int) and isinstance(y, int):
                    if x != y:
                        ok = False
                        break
                elif isinstance(x, Var) and x in e.bound and isinstance(y, Var) and x.sort == y.sort and x.charge is None and y.charge is None:
                    if m.get(x, y) is not y:
                        return None
                    m[x] = y
                else:
                    return None
            if ok:
                hits.append((e, m))
        if len(hits) != 1:
            return None
        e, m = hits[0]
        if not e.guard.is_const() or set(e.bound) != set(m):
            return None
        return e.val.subst(m)

    def flat(self, idx, node=None):
        r = []
        for x in idx:
            if isinstance(x, D1):
                r += [x.c, x.b]
            elif isinstance(x, D0):
                r += [x.x, x.y]
            elif isinstance(x, (Var, int)):
                r.append(x)
            elif isinstance(x, Idx):
                out('a position used as an index of an array', node)
            elif isinstance(x, P) and x.is_const() and x.const()[1] == 0 and x.const()[0].denominator == 1:
                r.append(int(x.const()[0]))
            elif isinstance(x, Poison):
                out('use of %s' % x.why, node)
            else:
                out('index %r' % (x,), node)
        return tuple(r)

    # ---------------------------------------------------------------------------------------------- conditions
    def cond(self, v, node=None):
        """0/1-valued polynomial, or a Python bool."""
        if isinstance(v, bool):
            return v
        if isinstance(v, P) and getattr(v, 'is_const')() :
            return v.const() != (0, 0)
        if isinstance(v, P):
            if all(all(a[0][0] == '[' for a in k[1]) for k in v.t):
                return v
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, Obj):
            return atom('[par:%s]' % v.path[-1].lstrip('_'))
        out('condition %r' % (v,), node)

    def compare(self, op, a, b, node):
        if isinstance(a, Idx):
            a = a.var
        if isinstance(b, Idx):
            b = b.var
        if isinstance(a, (D0,)) and isinstance(b, int) and b == -1 or isinstance(b, D0) and isinstance(a, int) and a == -1:
            d = a if isinstance(a, D0) else b
            g = atom('[incE]' if d.elph else '[inc]', d.x, d.y)
            if op == '==':
                return 1 - g
            if op == '!=':
                return g
        if isinstance(a, D0) and isinstance(b, int) and (op, b) in (('>=', 0), ('>', -1)):
            return atom('[incE]' if a.elph else '[inc]', a.x, a.y)
        if isinstance(a, D0) and isinstance(b, int) and (op, b) in (('<', 0), ('<=', -1)):
            return 1 - atom('[incE]' if a.elph else '[inc]', a.x, a.y)
        if isinstance(a, D0) and isinstance(b, D0) and op in ('==', '!=') and a.elph == b.elph:
            g = atom('[==]', a.x, b.x) * atom('[==]', a.y, b.y)
            return g if op == '==' else 1 - g
        if isinstance(a, Var) and isinstance(b, Var):
            if a.sort != b.sort:
                out('comparison of %s and %s' % (a.sort, b.sort), node)
            if a is b:
                return {'==': True, '!=': False, '<': False, '>': False, '<=': True, '>=': True}[op]
            if op == '==':
                return atom('[==]', a, b)
            if op == '!=':
                return 1 - atom('[==]', a, b)
            if op in ('<', '>'):
                return atom('[lt]', a, b) if op == '<' else atom('[lt]', b, a)
            return 1 - (atom('[lt]', b, a) if op == '<=' else atom('[lt]', a, b))
        if isinstance(a, (Chg, int)) and isinstance(b, (Chg, NCh, int)) or isinstance(a, NCh) and isinstance(b, Chg):
            return self.cmp_charge(op, a, b, node)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if isinstance(a, NUM + (Obj, Arr)) and isinstance(b, NUM + (Obj, Arr)):
            x, y = self.num(a, node), self.num(b, node)
            if op in ('==', '!='):
                d = sorted((x, y), key=akey)
                g = atom('[num==]', d[0], d[1])
                return g if op == '==' else 1 - g
            if op in ('>', '<='):
                g = atom('[num<]', y, x)
                return g if op == '>' else 1 - g
            g = atom('[num<]', x, y)
            return g if op == '<' else 1 - g
        if op in ('is', 'isnot') or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))):
                return (a == b) == (op in ('==', 'is'))
            o = a if isinstance(a, Obj) else b
            if isinstance(o, Obj):
                g = atom('[par:%s=%s]' % (o.path[-1].lstrip('_'), b if o is a else a))
                return g if op in ('==', 'is') else 1 - g
        out('comparison %s of %s and %s' % (op, type(a).__name__, type(b).__name__), node)

    def cmp_charge(self, op, a, b, node):
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
        if isinstance(a, Chg) and isinstance(b, Chg):
            if a.q is b.q:
                return self.compare(op, a.off, b.off, node)
            out('comparison of two charges', node)
        if isinstance(b, Chg):
            a, b, op = b, a, flip[op]
        q, k = a.q, a.off

        def lo(m):      # q >= m
            return atom('[dom]', q, 'lo', m)

        def hi(m):      # q < ncharge + m
            return atom('[dom]', q, 'hi', m)
        if isinstance(b, NCh):
            n = b.off - k
            r = {'<': lambda: hi(n), '<=': lambda: hi(n+1), '>=': lambda: 1-hi(n), '>': lambda: 1-hi(n+1),
                 '==': lambda: hi(n+1)-hi(n), '!=': lambda: 1-hi(n+1)+hi(n)}[op]()
        else:
            n = b - k
            r = {'>=': lambda: lo(n), '>': lambda: lo(n+1), '<': lambda: 1-lo(n), '<=': lambda: 1-lo(n+1),
                 '==': lambda: lo(n)-lo(n+1), '!=': lambda: 1-lo(n)+lo(n+1)}[op]()
        return self.simplify(r)

    def simplify(self, r):
        """Drop what the states in scope and the guards imply about charges."""
        t = poly(0)
        for (b, a), c in r.t.items():
            keep, zero = [], False
            for x in a:
                if x[0] == '[dom]':
                    v = self.implied(x[2], x[3], x[4])
                    if v is True:
                        continue
                    if v is False:
                        zero = True
                        break
                keep.append(x)
            if not zero:
                t = t + P({(b, tuple(keep)): c})
        return t.const() != (0, 0) if t.is_const() else t

    def bounds(self, q):
        """(lower, upper): known q >= lower, q < ncharge + upper."""
        lo, hi = None, None
        for v in self.scope:
            if isinstance(v, Var) and v.charge is not None and v.charge[0] is q:
                lo = -v.charge[1] if lo is None else max(lo, -v.charge[1])
                hi = -v.charge[1] if hi is None else min(hi, -v.charge[1])
        facts = None
        for (b, a), c in self.guard.t.items():
            f = set(x for x in a if x[0] == '[dom]' and x[2] is q)
            facts = f if facts is None else facts & f
        for x in list(facts or ()) + [x for x in self.scope if isinstance(x, tuple) and x[2] is q]:
            if x[3] == 'lo':
                lo = x[4] if lo is None else max(lo, x[4])
            else:
                hi = x[4] if hi is None else min(hi, x[4])
        return lo, hi

    def implied(self, q, side, m):
        lo, hi = self.bounds(q)
        if side == 'lo' and lo is not None and lo >= m:
            return True
        if side == 'hi' and hi is not None and hi <= m:
            return True
        return None

    def need_range(self, chg, low, node, what):
        """0 (or -1) <= charge <= ncharge at an access of the lists of states."""
        lo, hi = self.bounds(chg.q)
        ok = lo is not None and lo + chg.off >= low and hi is not None and hi + chg.off <= 1
        self.checked.append((what, node.lineno, ok))
        if not ok:
            self.problems.append('%s at line %s: charge index %+d not known to be in range' % (what, node.lineno, chg.off))

    # ---------------------------------------------------------------------------------------------- expressions
    def ev(self, e, env, mod):
        k = type(e).__name__
        f = getattr(self, 'ev_' + k, None)
        if f is None:
            out('expression %s' % k, e)
        return f(e, env, mod)

    def ev_Constant(self, e, env, mod):
        return e.value

    def ev_Name(self, e, env, mod):
        n = e.id
        if n in env:
            v = env[n]
            return v
        if n in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[n]
        if n == 'pi':
            return atom('pi')
        r = self.S.resolve(mod, n)
        if r:
            if r[0] == 'const':
                try:
                    return ast.literal_eval(r[2])
                except ValueError:
                    pass
                if n == 'pi':
                    return atom('pi')
                return Obj(('global', n))
            return r
        return ('builtin', n)

    def ev_Tuple(self, e, env, mod):
        return tuple(self.ev(x, env, mod) for x in e.elts)

    ev_List = ev_Tuple

    def ev_Attribute(self, e, env, mod):
        b = self.ev(e.value, env, mod)
        return self.attr(b, e.attr, e, env, mod)

    def attr(self, b, name, node, env, mod):
        if isinstance(b, tuple) and len(b) == 2 and b[0] == 'builtin':
            if name == 'pi':
                return atom('pi')
            return ('builtin', b[1] + '.' + name)
        if name == 'real':
            if isinstance(b, NUM + (Arr, Obj)):
                return self.num(b, node).re()
        if name == 'imag':
            if isinstance(b, NUM + (Arr, Obj)):
                return self.num(b, node).im()
        if isinstance(b, tuple) and b and b[0] == 'class':
            return ('classattr', b, name)
        if isinstance(b, Obj):
            if b.path[0] == 'fnobj':
                if name in ('val', 'val0', 'val1'):
                    v = env.get('@' + b.path[1] + '.' + name)
                    if v is None:
                        out('%s before eval' % name, node)
                    return v
                return ('fnmethod', b, name)
            return self.obj_attr(b, name, node, env, mod)
        if isinstance(b, NUM + (Arr,)) and name in ('conjugate', 'conj'):
            return ('method', b, name)
        if isinstance(b, Arr) and name in ('T', 'shape', 'fill', 'copy'):
            return ('method', b, name)
        if isinstance(b, Vec) and name == 'sum':
            return ('method', b, name)
        if isinstance(b, (Vec,)) and name in ('conjugate', 'conj'):
            return ('method', b, name)
        out('attribute %s of %s' % (name, type(b).__name__), node)

    def obj_attr(self, b, name, node, env, mod):
        n = name.lstrip('_')
        elph = any('elph' in p for p in b.path)
        if n == 'nleads':
            return NLead('lead')
        if n == 'nbaths':
            return NLead('bath')
        if n == 'ncharge':
            return NCh(0)
        if n in ('statesdm', 'statesdm_count'):
            return ('lists', n, elph)
        if n in ('all_ba', 'all_bbp'):
            return ('table', n, elph)
        if n == 'ndm1':
            return Row('all_ba')
        if n == 'nelements' or (n == 'ndm0' and elph):
            return Row('all_bbp' if n == 'nelements' else 'all_bbp_elph')
        if n in ('si', 'si_elph', 'leads', 'qd', 'baths', 'funcp', 'elph'):
            return Obj(b.path + (n,))
        if n in ('kernel_handler', 'kernel_handler_elph'):
            return Obj((n,), self.handler)
        if n in DIMS:
            return Arr(n)
        if b.path == ('self',):
            m = self.S.method(self.approach[0], self.approach[1], name)
            if m:
                if any(isinstance(d, ast.Name) and d.id == 'property' for d in m[2].decorator_list):
                    return Obj(b.path + (name,))
                return ('bound', b, m)
        if b.path[-1] in ('kernel_handler', 'kh', 'elph', 'si', 'si_elph', 'kernel_handler_elph'):
            return ('khmethod', b, name)
        return Obj(b.path + (name,))

    def ev_Subscript(self, e, env, mod):
        b = self.ev(e.value, env, mod)
        if isinstance(b, Obj):
            b = Arr('?' + '.'.join(b.path))
        sl = e.slice
        if isinstance(sl, ast.Tuple):
            if any(isinstance(x, ast.Constant) and x.value is Ellipsis for x in sl.elts):
                out('index with an ellipsis', e)
            idx = [self.slice(x, env, mod) for x in sl.elts]
        else:
            idx = [self.slice(sl, env, mod)]
        if isinstance(b, tuple) and b and b[0] == 'lists':
            c = idx[0]
            if isinstance(c, (int,)):
                out('list of states of a fixed charge', e)
            if not isinstance(c, Chg):
                out('charge index', e)
            if b[1] == 'statesdm_count':
                self.need_range(c, 0, e, 'statesdm_count')
                return Cnt(c)
            if len(idx) == 1:
                if self.compiled:
                    out('row of the table of states', e)
                self.need_range(c, -1, e, 'statesdm')
                return States(c)
            if not isinstance(idx[1], Idx):
                out('position in a list of states', e)
            v = idx[1].var
            if v.charge != (c.q, c.off):
                self.problems.append('line %s: position in the list of another charge' % e.lineno)
                out('position in the list of another charge', e)
            return v
        if isinstance(b, tuple) and b and b[0] == 'table':
            r = idx[0]
            if not isinstance(r, Row) or r.vals is None:
                out('row of a table', e)
            if r.table != b[1] + ('_elph' if b[2] else ''):
                out('row of another table', e)
            if len(idx) != 2 or not isinstance(idx[1], int):
                out('column of a table', e)
            return r.vals[idx[1]]
        if isinstance(b, States):
            if isinstance(idx[0], Idx) and idx[0].var.charge == (b.chg.q, b.chg.off):
                return idx[0].var
            out('element of a list of states', e)
        if isinstance(b, tuple) and b and isinstance(b[0], str):
            out('subscript of %r' % (b[0],), e)
        if isinstance(b, tuple):
            if isinstance(idx[0], int):
                return b[idx[0]]
            out('tuple index', e)
        if isinstance(b, Opaque):
            if isinstance(idx[0], int):
                return atom(b.name, idx[0], *b.args)
            out('index of a function value', e)
        if isinstance(b, Arr):
            a = Arr(b.name, b.idx + tuple(idx))
            if any(isinstance(x, slice) for x in a.idx):
                return self.sliced(a, e)
            n = DIMS.get(a.name)
            if n is None or len(a.idx) == n:
                return a
            return a
        if isinstance(b, Poison):
            out('use of %s' % b.why, e)
        out('subscript of %s' % type(b).__name__, e)

    def sliced(self, a, node):
        n = DIMS.get(a.name)
        full = list(a.idx) + [slice(None)] * ((n or len(a.idx)) - len(a.idx))
        pos = [i for i, x in enumerate(full) if isinstance(x, slice)]
        if len(pos) != 1 or pos[0] != 0 or a.name in ('Ea', 'phi0'):
            return a
        v = Var('bath' if a.name in ('Vbbp', 'tLbbp', 'w1fct', 'paulifct_elph', 'tlst_ph', 'dlst_ph') else 'lead')
        full[0] = v
        return Vec(v, self.read(Arr(a.name, tuple(full)), node))

    def slice(self, s, env, mod):
        if isinstance(s, ast.Slice):
            if not all(x is None or isinstance(x, ast.Constant) and x.value == v for x, v in ((s.lower, 0), (s.upper, None), (s.step, 1))):
                out('part of an array', s)
            return slice(None)
        if isinstance(s, ast.Constant) and (s.value is None or s.value is Ellipsis):
            if s.value is None:
                out('new axis', s)
            return slice(None)
        v = self.ev(s, env, mod)
        if isinstance(v, P) and v.is_const() and v.const()[1] == 0 and v.const()[0].denominator == 1:
            return int(v.const()[0])
        return v

    def vec(self, v, like, node):
        """v as an element-wise expression over the same kind of index as `like`."""
        if isinstance(v, Vec):
            if v.var.sort != like.var.sort:
                out('vectors over different ranges', node)
            return v.val.subst({v.var: like.var})
        if isinstance(v, Arr) and DIMS.get(v.name) == 1 and not v.idx and v.name not in ('Ea', 'phi0'):
            return self.read(Arr(v.name, (like.var,)), node)
        return self.num(v, node)

    def as_vec(self, v, node):
        if isinstance(v, Vec):
            return v
        if isinstance(v, Arr) and DIMS.get(v.name) == 1 and (not v.idx or isinstance(v.idx[0], slice)) and v.name not in ('Ea', 'phi0', 'rez_real', 'rez_complex'):
            x = Var('bath' if v.name == 'tlst_ph' else 'lead')
            return Vec(x, self.read(Arr(v.name, (x,)), node))
        return None

    def ev_BinOp(self, e, env, mod):
        a, b = self.ev(e.left, env, mod), self.ev(e.right, env, mod)
        return self.binop(type(e.op).__name__, a, b, e)

    def binop(self, op, a, b, e):
        va, vb = self.as_vec(a, e), self.as_vec(b, e)
        if va is not None or vb is not None:
            x = va or vb
            p, q = self.vec(va if va is not None else a, x, e), self.vec(vb if vb is not None else b, x, e)
            return Vec(x.var, self.arith(op, p, q, e))
        if isinstance(a, (Chg, NCh)) and isinstance(b, int) and op in ('Add', 'Sub'):
            k = b if op == 'Add' else -b
            return Chg(a.q, a.off+k) if isinstance(a, Chg) else NCh(a.off+k)
        if isinstance(b, (Chg, NCh)) and isinstance(a, int) and op == 'Add':
            return self.binop('Add', b, a, e)
        if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)) and not isinstance(a, bool):
            if op in ('Add', 'Sub', 'Mult', 'Pow') and isinstance(a, int) and isinstance(b, int):
                return {'Add': a+b, 'Sub': a-b, 'Mult': a*b, 'Pow': a**b}[op]
        if isinstance(a, (tuple, str)) and isinstance(b, (tuple, str)) and op in ('Add', 'Mod'):
            return Obj(('text',))
        return self.arith(op, self.num(a, e), self.num(b, e), e)

    def arith(self, op, x, y, e):
        if op == 'Add':
            return x + y
        if op == 'Sub':
            return x - y
        if op == 'Mult':
            return x * y
        if op == 'Div':
            if y.is_const() and y.const() != (0, 0):
                re, im = y.const()
                d = re*re + im*im
                return x.scale(re/d, -im/d)
            return x * atom('inv', y)
        if op == 'Pow' and y.is_const() and y.const()[1] == 0 and y.const()[0] in (1, 2, 3, 4):
            r = x
            for _ in range(int(y.const()[0])-1):
                r = r * x
            return r
        out('operator %s' % op, e)

    def ev_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        k = type(e.op).__name__
        if k == 'USub':
            if isinstance(v, (int, float, complex)):
                return -v
            x = self.as_vec(v, e)
            return Vec(x.var, -x.val) if x is not None else -self.num(v, e)
        if k == 'UAdd':
            return v
        if k == 'Not':
            c = self.cond(v, e)
            return (not c) if isinstance(c, bool) else 1 - c
        out('operator %s' % k, e)

    def ev_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        r = True if isand else False
        saved = self.guard
        for x in e.values:
            c = self.cond(self.ev(x, env, mod), x)
            if isinstance(r, bool):
                if r == isand:
                    r = c
                else:
                    break
            else:
                if isinstance(c, bool):
                    if c != isand:
                        r = c
                        break
                else:
                    r = r * c if isand else r + c - r * c
            if isand and not isinstance(r, bool):
                self.guard = saved * r
        self.guard = saved
        return r

    def ev_Compare(self, e, env, mod):
        ops = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'Gt': '>', 'LtE': '<=', 'GtE': '>=', 'Is': 'is', 'IsNot': 'isnot',
               'In': 'in', 'NotIn': 'notin'}
        left = self.ev(e.left, env, mod)
        r = True
        for op, right in zip(e.ops, e.comparators):
            rv = self.ev(right, env, mod)
            o = ops[type(op).__name__]
            if o in ('in', 'notin'):
                out('membership', e)
            c = self.compare(o, left, rv, e)
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                r = c if isinstance(r, bool) else r * c
            left = rv
        return r

    def ev_IfExp(self, e, env, mod):
        c = self.cond(self.ev(e.test, env, mod), e)
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, env, mod)
        saved = self.guard
        self.guard = saved * c
        a = self.ev(e.body, env, mod)
        self.guard = saved * (1 - c)
        b = self.ev(e.orelse, env, mod)
        self.guard = saved
        return self.merge(c, a, b, e)

    def merge(self, c, a, b, node=None):
        if a is b:
            return a
        if type(a) is type(b):
            if isinstance(a, (int, float, complex, str, bool)) and a == b:
                return a
            if isinstance(a, Chg) and a == b:
                return a
            if isinstance(a, (D0, D1)) and a.__dict__ == b.__dict__:
                return a
            if isinstance(a, Arr) and a.name == b.name and a.idx == b.idx:
                return a
            if isinstance(a, tuple) and len(a) == len(b):
                if a and a[0] in ('lists', 'table', 'builtin', 'class', 'func', 'bound') and a == b:
                    return a
                return tuple(self.merge(c, x, y, node) for x, y in zip(a, b))
            if isinstance(a, Obj) and a.path == b.path:
                return a
            if isinstance(a, NLead) and a.sort == b.sort:
                return a
            if isinstance(a, Cnt) and a.chg == b.chg and a.guard == b.guard:
                return a
        if isinstance(a, Cnt) and isinstance(b, int) and b == 0:
            return Cnt(a.chg, c if a.guard is None else a.guard * c)
        if isinstance(b, Cnt) and isinstance(a, int) and a == 0:
            return Cnt(b.chg, (1-c) if b.guard is None else b.guard * (1-c))
        if isinstance(a, NUM + (Arr,)) and isinstance(b, NUM + (Arr,)):
            try:
                x, y = self.num(a, node), self.num(b, node)
            except OutOfReach as err:
                return Poison('a variable with two values: %s' % err)
            return c * x + (1 - c) * y
        return Poison('a variable that differs between branches')

    def ev_Lambda(self, e, env, mod):
        names = [a.arg for a in e.args.args]

        def f(args, node):
            en = dict(env)
            en.update(zip(names, args))
            return self.ev(e.body, en, mod)
        return Fn(f)

    def ev_GeneratorExp(self, e, env, mod):
        return ('gen', e, env, mod)

    ev_ListComp = ev_GeneratorExp

    def ev_JoinedStr(self, e, env, mod):
        return Obj(('text',))

    # ---------------------------------------------------------------------------------------------- calls
    def ev_Call(self, e, env, mod):
        f = self.ev(e.func, env, mod) if not (isinstance(e.func, ast.Name) and e.func.id == 'super') else ('builtin', 'super')
        if isinstance(f, tuple) and f and f[0] == 'builtin' and f[1] == 'sum' and e.args and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.sum_gen(e.args[0], env, mod)
        if isinstance(f, tuple) and f and f[0] == 'builtin' and f[1] in ('np.sum', 'numpy.sum') and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.sum_gen(e.args[0], env, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.parts(self.ev(a.value, env, mod), e))
            else:
                args.append(self.ev(a, env, mod))
        kw = {k.arg: self.ev(k.value, env, mod) for k in e.keywords}
        return self.call(f, args, kw, e, env, mod)

    WIDTH = {'dlst': 2, 'dlst_ph': 2, 'paulifct': 2, 'phi1fct': 2, 'phi1fct_energy': 2}

    def parts(self, v, node):
        """The elements of a sequence of known length."""
        if isinstance(v, tuple) and (not v or not isinstance(v[0], str)):
            return list(v)
        if isinstance(v, Arr) and v.name in self.WIDTH and len(v.idx) == DIMS.get(v.name, 0) - 1 and not any(isinstance(x, slice) for x in v.idx):
            return [Arr(v.name, v.idx + (i,)) for i in range(self.WIDTH[v.name])]
        out('sequence of unknown length', node)

    def sum_gen(self, g, env, mod):
        acc = {'@acc': poly(0)}
        body = ast.parse('__acc = __acc + 0').body[0]
        body.value.right = g.elt
        st = body
        for c in reversed(g.generators):
            stm = [st]
            for t in reversed(c.ifs):
                stm = [ast.If(test=t, body=stm, orelse=[])]
            st = ast.For(target=c.target, iter=c.iter, body=stm, orelse=[])
        ast.copy_location(st, g)
        ast.fix_missing_locations(st)
        en = dict(env)
        en['__acc'] = 0
        self.block([st], en, mod)
        return en['__acc']

    def call(self, f, args, kw, node, env, mod):
        if isinstance(f, Fn):
            return f.f(args, node)
        if not isinstance(f, tuple):
            out('call of %r' % (f,), node)
        k = f[0]
        if k == 'method':
            return self.call_method(f[1], f[2], args, node, env)
        if k == 'builtin':
            return self.call_builtin(f[1], args, kw, node, env, mod)
        if k == 'bound':
            return self.inline(f[2], [f[1]] + args, kw, node)
        if k == 'khmethod':
            return self.call_kh(f[1], f[2], args, kw, node, mod)
        if k == 'fnmethod':
            return self.call_fn(f[1], f[2], args, node, env)
        if k == 'classattr':
            _, cls, name = f
            m = self.S.method(cls[1], cls[2], name)
            if m is None:
                out('method %s' % name, node)
            return self.inline(m, args, kw, node)
        if k == 'class':
            if f[2].name in ('FuncPauliElPh', 'Func1vNElPh'):
                want = {'tlst_ph', 'dlst_ph'}
                got = set(a.name for a in args if isinstance(a, Arr))
                if not want <= got:
                    out('arguments of %s' % f[2].name, node)
                return Obj(('fnobj', f[2].name))
            out('construction of %s' % f[2].name, node)
        if k == 'func':
            return self.call_func(f, args, kw, node, env)
        out('call of %s' % (k,), node)

    def call_func(self, f, args, kw, node, env):
        name = f[2].name
        if name in ('func_pauli', 'func_1vN') and 'specfunc' in f[1].rel:
            n = {'func_pauli': 6, 'func_1vN': 7}[name]
            if kw or len(args) < n:
                out('arguments of %s' % name, node)
            nums = [self.num(a, node) for a in args[:n]]
            if name == 'func_1vN':
                nums[6] = atom('par:limit')
            outs = {'func_pauli': 2, 'func_1vN': 4}[name]
            if len(args) == n:
                return Opaque('fn:' + name, tuple(nums))
            r = args[n]
            if not isinstance(r, Arr) or r.idx:
                out('result buffer of %s' % name, node)
            for i in range(outs):
                self.effect(r.name, 'set', (i,), atom('fn:' + name, i, *nums), node)
            return 0
        return self.inline((f[1], None, f[2]), args, kw, node)

    def call_fn(self, o, name, args, node, env):
        if name != 'eval' or len(args) != 2 or not isinstance(args[1], Var):
            out('%s of a rate function' % name, node)
        E = self.num(args[0], node)
        cls = o.path[1]
        if cls == 'FuncPauliElPh':
            env['@%s.val' % cls] = atom('fn:FuncPauliElPh', E, args[1])
        else:
            for v in ('val0', 'val1'):
                env['@%s.%s' % (cls, v)] = atom('fn:Func1vNElPh.' + v, E, args[1])
        return None

    def call_method(self, b, name, args, node, env):
        if name in ('conjugate', 'conj') and not args:
            if isinstance(b, Vec):
                return Vec(b.var, b.val.conj())
            return self.num(b, node).conj()
        if name == 'sum' and isinstance(b, Vec) and not args:
            v = Var(b.var.sort)
            return b.val.subst({b.var: v}).sum(v)
        if name == 'fill' and isinstance(b, Arr):
            c = self.num(args[0], node)
            self.effect(b.name, 'fill', (), c, node)
            return None
        out('method %s' % name, node)

    def call_builtin(self, n, args, kw, node, env, mod):
        if n in ('print',):
            return None
        if n in ('range', 'itertools.product', 'itertools.permutations', 'itertools.combinations_with_replacement',
                 'itertools.combinations', 'product', 'permutations', 'combinations_with_replacement', 'enumerate', 'zip',
                 'list', 'tuple', 'reversed', 'sorted', 'itertools.chain'):
            return ('iter', n.split('.')[-1], args, kw)
        if n in ('np.conj', 'np.conjugate', 'numpy.conj'):
            x = self.as_vec(args[0], node)
            return Vec(x.var, x.val.conj()) if x is not None else self.num(args[0], node).conj()
        if n in ('np.vdot', 'np.dot', 'np.inner', 'numpy.vdot', 'numpy.dot') and len(args) == 2 and not kw:
            x, y = self.as_vec(args[0], node), self.as_vec(args[1], node)
            if x is None or y is None or x.var.sort != y.var.sort:
                out('call of %s' % n, node)
            v = Var(x.var.sort)
            a = x.val.subst({x.var: v})
            if n.endswith('vdot'):
                a = a.conj()
            return (a * y.val.subst({y.var: v})).sum(v)
        if n in ('np.multiply', 'np.add', 'np.subtract') and len(args) == 2 and not kw:
            return self.binop({'multiply': 'Mult', 'add': 'Add', 'subtract': 'Sub'}[n[3:]], args[0], args[1], node)
        if n in ('np.sqrt', 'sqrt', 'math.sqrt'):
            x = self.num(args[0], node)
            return atom('sqrt', x)
        if n in ('np.real', 'np.imag'):
            x = self.num(args[0], node)
            return x.re() if n == 'np.real' else x.im()
        if n in ('np.sum', 'sum') and len(args) == 1:
            x = self.as_vec(args[0], node)
            if x is not None:
                v = Var(x.var.sort)
                return x.val.subst({x.var: v}).sum(v)
            if isinstance(args[0], tuple) and args[0] and args[0][0] == 'gen':
                return self.sum_gen(*args[0][1:])
        if n in ('float', 'complex', 'np.float64', 'np.complex128', 'doublenp', 'complexnp') and len(args) == 1:
            return self.num(args[0], node)
        if n == 'complex' and len(args) == 2:
            return self.num(args[0], node) + self.num(args[1], node).scale(0, 1)
        if n == 'bool' and len(args) == 1:
            return self.cond(args[0], node)
        if n == 'abs' and len(args) == 1:
            return atom('abs', self.num(args[0], node))
        if n == 'len' and len(args) == 1:
            if isinstance(args[0], States):
                return Cnt(args[0].chg)
            if isinstance(args[0], tuple):
                return len(args[0])
        if n == 'super':
            return Obj(('self',))
        out('call of %s' % n, node)

    def inline(self, m, args, kw, node):
        mod, cls, fn = m
        if self.depth > 12:
            out('call depth', node)
        names = [a.arg for a in fn.args.args]
        if fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
            out('variadic function %s' % fn.name, node)
        env = {}
        for i, a in enumerate(args):
            if i >= len(names):
                out('arguments of %s' % fn.name, node)
            env[names[i]] = a
        for k, v in kw.items():
            env[k] = v
        d = fn.args.defaults
        for n, dv in zip(names[len(names)-len(d):], d):
            if n not in env:
                env[n] = self.ev(dv, {}, mod)
        for n in names:
            if n not in env:
                out('argument %s of %s' % (n, fn.name), node)
        if names and names[0] == 'self' and self.compiled and 'kh' in env and isinstance(env['kh'], Obj):
            pass
        self.depth += 1
        scope = list(self.scope)
        for v in env.values():
            if isinstance(v, Var):
                self.scope.append(v)
        self.inlined.append('%s:%s%s' % (mod.rel, cls.name + '.' if cls is not None else '', fn.name))
        env['@fn'] = fn.name
        self.block(fn.body, env, mod)
        self.scope = scope
        self.depth -= 1
        return env.get('@ret')

    # the interface of the kernel handler and of the indexing: contracts, not bodies
    def call_kh(self, o, name, args, kw, node, mod):
        elph = any('elph' in p for p in o.path)
        if kw and not (name == 'get_ind_dm0' and set(kw) == {'maptype'}):
            names = {'is_included': ['b', 'bp', 'bcharge'], 'is_unique': ['b', 'bp', 'bcharge'],
                     'get_phi0_element': ['b', 'bp', 'bcharge'], 'set_energy': ['energy', 'b', 'bp', 'bcharge'],
                     'set_matrix_element': ['fct', 'b', 'bp', 'bcharge', 'a', 'ap', 'acharge'],
                     'set_matrix_element_pauli': ['fctm', 'fctp', 'bb', 'aa'], 'get_ind_dm0': ['b', 'bp', 'charge'],
                     'get_ind_dm1': ['c', 'b', 'bcharge']}.get(name)
            if names is None:
                out('keyword arguments of %s' % name, node)
            args = args + [kw[n] for n in names[len(args):] if n in kw]
            kw = {k: v for k, v in kw.items() if k == 'maptype'}

        def pair(x, y, c, dx, dy, what):
            if not isinstance(x, Var) or not isinstance(y, Var) or not isinstance(c, Chg):
                out('arguments of %s' % name, node)
            ok = x.charge == (c.q, c.off+dx) and y.charge == (c.q, c.off+dy)
            self.checked.append((what, node.lineno, ok))
            if not ok:
                self.problems.append('%s at line %s: states of charges %s, %s where the contract asks for %s, %s' % (
                    what, node.lineno, x.charge, y.charge, (c.q, c.off+dx), (c.q, c.off+dy)))
                out('%s called outside its contract' % what, node)
        if name in ('get_ind_dm0', 'get_ind_dm0_conj', 'get_ind_dm0_bool'):
            pair(args[0], args[1], args[2], 0, 0, name)
            mt = kw.get('maptype', args[3] if len(args) > 3 else None)
            if name == 'get_ind_dm0' and mt in (None, 1):
                return D0(args[0], args[1], elph)
            if name == 'get_ind_dm0_bool' or mt == 2:
                if elph:
                    return True
                return self.unique(args[0], args[1])
            out('index map %r' % (mt,), node)
        if name == 'get_ind_dm1':
            pair(args[0], args[1], args[2], 1, 0, name)
            return D1(args[0], args[1])
        if name == 'is_included':
            pair(args[0], args[1], args[2], 0, 0, name)
            if args[0] is args[1]:
                return True
            return atom('[incE]' if elph else '[inc]', args[0], args[1])
        if name == 'is_unique':
            pair(args[0], args[1], args[2], 0, 0, name)
            return True if elph else self.unique(args[0], args[1])
        if name == 'get_phi0_element':
            pair(args[0], args[1], args[2], 0, 0, name)
            return atom('rho', args[0], args[1])
        if name == 'set_energy':
            pair(args[1], args[2], args[3], 0, 0, name)
            v = (self.num(args[0], node) * atom('rho', args[1], args[2])).scale(0, -1)
            self.effect('drho', 'add', (args[1], args[2]), v, node)
            return None
        if name == 'set_matrix_element':
            fct, b, bp, bc, a, ap, ac = args
            pair(b, bp, bc, 0, 0, name)
            pair(a, ap, ac, 0, 0, name)
            self.need_included(a, ap, node)
            v = (self.num(fct, node) * atom('rho', a, ap)).scale(0, -1)
            self.effect('drho', 'add', (b, bp), v, node)
            return None
        if name == 'set_matrix_element_pauli':
            fm, fp, bb, aa = args
            if not (isinstance(bb, D0) and isinstance(aa, D0) and bb.x is bb.y and aa.x is aa.y and not bb.elph and not aa.elph):
                out('arguments of %s' % name, node)
            v = self.num(fm, node) * atom('rho', bb.x, bb.x) + self.num(fp, node) * atom('rho', aa.x, aa.x)
            self.effect('drho', 'add', (bb.x, bb.x), v, node)
            return None
        if name in ('set_kern', 'set_phi0', 'set_dphi0_dt') or self.handler is None:
            out('method %s of the kernel handler' % name, node)
        m = self.S.method(self.handler[0], self.handler[1], name)
        if m is None:
            out('method %s of %s' % (name, o), node)
        return self.inline(m, [o] + args, kw, node)

    def need_included(self, a, ap, node):
        """set_matrix_element needs an element that has an index."""
        if a is ap:
            return
        g = atom('[inc]', a, ap)
        ok = (g * self.guard) == self.guard or any(v is a for v in self.included) and any(v is ap for v in self.included)
        self.checked.append(('included', node.lineno, ok))
        if not ok:
            self.problems.append('set_matrix_element at line %s for an element that may have no index' % node.lineno)

    included = ()

    def unique(self, x, y):
        """Without spin reduction exactly the pairs in list order are the independent ones; with abstract_unique the
        independent ones are any subset."""
        if self.abstract_unique:
            return atom('[uniq]', x, y)
        if x is y:
            return True
        return atom('[le]', x, y)

    # ---------------------------------------------------------------------------------------------- statements
    def effect(self, arr, kind, idx, val, node):
        if kind in ('add',):
            if self.guard.is_const() and self.guard.const() == (1, 0):
                pass
            self.effects.append(Effect(arr, kind, idx, val * self.guard, poly(1), getattr(node, 'lineno', 0)))
        else:
            self.effects.append(Effect(arr, kind, idx, val, self.guard, getattr(node, 'lineno', 0)))

    def block(self, stmts, env, mod):
        """Execute; returns True if control left the block (continue or return)."""
        for i, st in enumerate(stmts):
            k = type(st).__name__
            if k == 'Expr':
                if isinstance(st.value, ast.Constant):
                    continue
                self.ev(st.value, env, mod)
            elif k == 'Assign':
                v = self.assign_value(st, env, mod)
                for t in st.targets:
                    self.assign(t, v, env, mod, st)
            elif k == 'AnnAssign':
                if st.value is not None:
                    self.assign(st.target, self.ev(st.value, env, mod), env, mod, st)
            elif k == 'AugAssign':
                self.augassign(st, env, mod)
            elif k == 'For':
                self.loop(st, env, mod)
            elif k == 'If':
                c = self.cond(self.ev(st.test, env, mod), st)
                if isinstance(c, bool):
                    if self.block((st.body if c else st.orelse), env, mod):
                        return True
                    continue
                rest = stmts[i+1:]
                if leaves(st.body) or leaves(st.orelse):
                    self.branch(c, list(st.body) + list(rest), list(st.orelse) + list(rest), env, mod, st)
                    return True
                self.branch(c, st.body, st.orelse, env, mod, st)
            elif k in ('Continue',):
                return True
            elif k == 'Return':
                if env.get('@loop'):
                    out('return inside a loop', st)
                env['@ret'] = self.ev(st.value, env, mod) if st.value is not None else None
                return True
            elif k in ('Pass', 'Import', 'ImportFrom', 'Global'):
                pass
            elif k == 'FunctionDef':
                self.local_def(st, env, mod)
            elif k == 'Assert':
                pass
            else:
                out('statement %s' % k, st)
        return False

    def local_def(self, st, env, mod):
        names = [a.arg for a in st.args.args]

        def f(args, node):
            en = dict(env)
            en.pop('@loop', None)
            en.pop('@ret', None)
            en.update(zip(names, args))
            self.block(st.body, en, mod)
            return en.get('@ret')
        env[st.name] = Fn(f)

    def branch(self, c, s1, s2, env, mod, node):
        saved = self.guard
        e1, e2 = dict(env), dict(env)
        self.guard = saved * c
        self.block(s1, e1, mod)
        self.guard = saved * (1 - c)
        self.block(s2, e2, mod)
        self.guard = saved
        for n in set(e1) | set(e2):
            if n in e1 and n in e2:
                env[n] = self.merge(c, e1[n], e2[n], node)
            else:
                env[n] = Poison('variable %s, set in one branch only' % n)

    def assign_value(self, st, env, mod):
        if len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript):
            t = self.ev(st.targets[0], env, mod)
            if isinstance(t, Arr) and not any(isinstance(x, slice) for x in t.idx):
                n = DIMS.get(t.name)
                if n is None or len(t.idx) == n:
                    if t.name not in ('phi0',):
                        self.self_read = (t.name, self.flat(t.idx, st))
                        try:
                            return self.ev(st.value, env, mod)
                        finally:
                            self.self_read = None
        return self.ev(st.value, env, mod)

    def assign(self, t, v, env, mod, st):
        if isinstance(t, ast.Name):
            if isinstance(v, Arr) and (DIMS.get(v.name) is None or len(v.idx) == DIMS[v.name]) and v.idx:
                v = self.read(v, st)       # a scalar is copied, not aliased
            env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Opaque):
                v = tuple(atom(v.name, i, *v.args) for i in range(len(t.elts)))
            if isinstance(v, Arr) and v.name in self.WIDTH:
                v = tuple(self.read(x, st) for x in self.parts(v, st))
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                out('unpacking', st)
            for x, y in zip(t.elts, v):
                self.assign(x, y, env, mod, st)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if isinstance(o, Obj) and isinstance(v, Arr) and not v.idx and v.name == t.attr.lstrip('_'):
                return
            out('assignment to attribute %s' % t.attr, st)
        if isinstance(t, ast.Subscript):
            a = self.ev(t, env, mod)
            if isinstance(a, Vec):
                # A[:] = vector
                b = self.ev(t.value, env, mod)
                if not isinstance(b, Arr):
                    out('assignment to a slice', st)
                x = self.as_vec(v, st)
                if x is None:
                    c = self.num(v, st)
                    if c.is_const() and isinstance(t.slice, (ast.Slice, ast.Constant)):
                        self.effect(b.name, 'fill', (), c, st)
                        return
                    out('assignment of a scalar to a slice', st)
                w = Var(x.var.sort)
                self.effect(b.name, 'set', (w,), x.val.subst({x.var: w}), st)
                self.effects[-1].bound = frozenset([w])
                return
            if isinstance(a, Arr):
                if any(isinstance(x, slice) for x in a.idx):
                    c = self.num(v, st)
                    if c.is_const() and len(a.idx) == 1:
                        self.effect(a.name, 'fill', (), c, st)
                        return
                    out('assignment to a slice of %s' % a.name, st)
                if isinstance(v, (tuple, Opaque)) and a.name in self.WIDTH and len(a.idx) == DIMS.get(a.name, 0) - 1:
                    w = self.WIDTH[a.name]
                    if isinstance(v, Opaque):
                        v = tuple(atom(v.name, i, *v.args) for i in range(w))
                    if v and isinstance(v[0], str) or len(v) != w:
                        out('assignment to a row of %s' % a.name, st)
                    v = [self.num(x, st) for x in v]
                    for i, x in enumerate(v):
                        if a.name in x.names():
                            out('row of %s assigned from its own elements' % a.name, st)
                        self.store(a.name, self.flat(a.idx + (i,), st), x, st)
                    return
                val = self.num(v, st)
                idx = self.flat(a.idx, st)
                self.store(a.name, idx, val, st)
                return
        out('assignment target', st)

    def store(self, name, idx, val, st):
        d = val - atom('@self')
        k = sum(e.arr == name for e in self.effects)
        now = '%s@%d' % (name, k) if k else name
        own = {n for n in val.names() if n == name or n.startswith(name + '@')}
        if '@self' not in d.names():
            self.effect(name, 'add', idx, d, st)
        elif own and '@self' not in val.names():
            # x = a[i]; ... a[i] = x + e
            d = val - atom(now, *idx)
            if own != {now} or now in d.names() or self.reads_of.get((now, idx)) != {tuple(map(id, self.scope))}:
                out('update of %s with its own elements' % name, st)
            self.effect(name, 'add', idx, d, st)
        elif '@self' in val.names():
            out('update of %s that is not an addition' % name, st)
        else:
            self.effect(name, 'set', idx, val, st)

    def augassign(self, st, env, mod):
        op = type(st.op).__name__
        v = self.ev(st.value, env, mod)
        if isinstance(st.target, ast.Name):
            env[st.target.id] = self.binop(op, env.get(st.target.id, Poison('unset variable')), v, st)
            return
        if isinstance(st.target, ast.Subscript):
            a = self.ev(st.target, env, mod)
            if isinstance(a, Vec):
                b = self.ev(st.target.value, env, mod)
                x = self.as_vec(v, st)
                if op in ('Add', 'Sub') and isinstance(b, Arr) and x is not None:
                    w = Var(x.var.sort)
                    val = x.val.subst({x.var: w})
                    self.effect(b.name, 'add', (w,), val if op == 'Add' else -val, st)
                    self.effects[-1].bound = frozenset([w])
                    return
            if isinstance(a, Arr) and op in ('Add', 'Sub'):
                x = self.num(v, st)
                self.effect(a.name, 'add', self.flat(a.idx, st), x if op == 'Add' else -x, st)
                return
        out('augmented assignment', st)

    # ---------------------------------------------------------------------------------------------- loops
    def domain(self, it, node):
        """[(bound variables, value of the target, guard)] in order."""
        if isinstance(it, States):
            v = Var('state', (it.chg.q, it.chg.off))
            return [([v], v, None)]
        if isinstance(it, tuple) and it and it[0] == 'iter':
            kind, args, kw = it[1], it[2], it[3]
            if kind == 'range':
                return self.rng(args, node)
            if kind in ('list', 'tuple', 'reversed'):
                return self.domain(args[0], node)
            if kind == 'sorted' and isinstance(args[0], States):
                return self.domain(args[0], node)
            if kind == 'product':
                if set(kw) == {'repeat'} and isinstance(kw['repeat'], int):
                    args = args * kw['repeat']
                elif kw:
                    out('arguments of product', node)
                r = [([], (), None)]
                for a in args:
                    d = self.domain(a, node)
                    nxt = []
                    for b1, v1, g1 in r:
                        for j, (b2, v2, g2) in enumerate(d):
                            if len(r) > 1:
                                b2, v2, g2 = self.domain(a, node)[j]
                            g = g1 if g2 is None else g2 if g1 is None else g1 * g2
                            nxt.append((b1 + b2, v1 + (v2,), g))
                    r = nxt
                return r
            if kind in ('permutations', 'combinations_with_replacement', 'combinations'):
                if len(args) != 2 or args[1] != 2 or not isinstance(args[0], States):
                    out('arguments of %s' % kind, node)
                c = args[0].chg
                x, y = Var('state', (c.q, c.off)), Var('state', (c.q, c.off))
                ne = 1 - atom('[==]', x, y)
                g = {'permutations': ne, 'combinations_with_replacement': atom('[le]', x, y),
                     'combinations': atom('[le]', x, y) * ne}[kind]
                return [([x, y], (x, y), g)]
            if kind == 'enumerate' and isinstance(args[0], States):
                b, v, g = self.domain(args[0], node)[0]
                return [(b, (Idx(v), v), g)]
            if kind == 'enumerate' and len(args) == 1 and not kw:
                x = self.as_vec(args[0], node)
                if x is not None:
                    v = Var(x.var.sort)
                    return [([v], (v, x.val.subst({x.var: v})), None)]
                d = self.domain(args[0], node)
                if all(not b and g is None for b, _, g in d):
                    return [([], (i, v), None) for i, (_, v, _) in enumerate(d)]
            if kind == 'zip' and not kw:
                xs = [self.as_vec(a, node) for a in args]
                if all(x is not None for x in xs) and len({x.var.sort for x in xs}) == 1:
                    v = Var(xs[0].var.sort)
                    return [([v], tuple(x.val.subst({x.var: v}) for x in xs), None)]
            out('iteration over %s' % kind, node)
        if isinstance(it, (Vec, Arr)):
            x = self.as_vec(it, node)
            if x is not None:
                v = Var(x.var.sort)
                return [([v], x.val.subst({x.var: v}), None)]
        if isinstance(it, tuple) and all(not isinstance(x, str) for x in it[:1]):
            return [([], v, None) for v in it]
        out('iteration over %s' % type(it).__name__, node)

    def rng(self, args, node):
        if len(args) == 1:
            n = args[0]
            if isinstance(n, int):
                if n > self.LIMIT:
                    out('long range', node)
                return [([], i, None) for i in range(n)]
            if isinstance(n, NLead):
                v = Var(n.sort)
                return [([v], v, None)]
            if isinstance(n, NCh):
                q = Var('charge')
                return [([q], Chg(q, 0), atom('[dom]', q, 'lo', 0) * atom('[dom]', q, 'hi', n.off))]
            if isinstance(n, Cnt):
                v = Var('state', (n.chg.q, n.chg.off))
                return [([v], Idx(v), n.guard)]
            if isinstance(n, Row):
                return [self.rows(n.table, node)]
        if len(args) == 2:
            a, n = args
            if isinstance(a, int) and isinstance(n, int):
                return [([], i, None) for i in range(a, n)]
            if isinstance(a, int) and isinstance(n, NCh):
                q = Var('charge')
                return [([q], Chg(q, 0), atom('[dom]', q, 'lo', a) * atom('[dom]', q, 'hi', n.off))]
            if isinstance(a, int) and a == 0:
                return self.rng([n], node)
            if isinstance(a, Idx) and isinstance(n, Cnt) and a.var.charge == (n.chg.q, n.chg.off):
                v = Var('state', (n.chg.q, n.chg.off))
                g = atom('[le]', a.var, v)
                return [([v], Idx(v), g if n.guard is None else g * n.guard)]
        out('range', node)

    def rows(self, table, node):
        q = Var('charge')
        if table == 'all_ba':
            c, b = Var('state', (q, 1)), Var('state', (q, 0))
            return [q, c, b], Row(table, (c, b, Chg(q, 0))), None
        b = Var('state', (q, 0))
        if table == 'all_bbp' and self.diag:
            return [q, b], Row(table, (b, b, Chg(q, 0))), (self.unique(b, b) if self.abstract_unique else None)
        bp = Var('state', (q, 0))
        if table == 'all_bbp':
            g = atom('[le]', b, bp) * atom('[inc]', b, bp)
            if self.abstract_unique:
                g = g * self.unique(b, bp)
            return [q, b, bp], Row(table, (b, bp, Chg(q, 0))), g
        return [q, b, bp], Row(table, (b, bp, Chg(q, 0))), None

    def by_reference(self, v):
        """A local array whose updates in loops are recorded as effects."""
        return False

    def loop(self, st, env, mod):
        if st.orelse:
            out('for-else', st)
        it = self.ev(st.iter, env, mod)
        names = stored(st)
        for bound, val, g in self.domain(it, st):
            if not bound:
                self.assign(st.target, val, env, mod, st)
                inner = env.get('@loop')
                if leaves_deep(st.body):
                    env['@loop'] = True
                    e0 = env
                    self.block(st.body, e0, mod)
                else:
                    self.block(st.body, env, mod)
                env['@loop'] = inner
                continue
            pre = {}
            body_env = dict(env)
            names = {n for n in names if not self.by_reference(env.get(n))}
            for n in names:
                if n in env:
                    v = env[n]
                    if isinstance(v, NUM) and not isinstance(v, bool):
                        pre[n] = atom('@pre:%s' % n, id(st))
                        body_env[n] = pre[n]
                    else:
                        body_env[n] = Poison('variable %s, modified in a loop' % n)
            scope, guard, k = list(self.scope), self.guard, len(self.effects)
            for v in bound:
                self.scope.append(v)
            if g is not None:
                for (b_, a_), c_ in g.t.items():
                    if len(g.t) == 1:
                        for x in a_:
                            if x[0] == '[dom]':
                                self.scope.append(x)
                self.guard = self.guard * g
            body_env['@loop'] = True
            inc = self.included
            self.included = tuple(inc) + tuple(v for v in bound if v.sort == 'state' and g is not None and any(
                a[0] == '[inc]' and v in a[2:] for kk in g.t for a in kk[1]))
            self.assign(st.target, val, body_env, mod, st)
            self.block(st.body, body_env, mod)
            self.included = inc
            self.scope, self.guard = scope, guard
            for e in self.effects[k:]:
                e.bound = e.bound | frozenset(bound)
                if any(x.startswith('@pre') for x in e.val.names() | e.guard.names()):
                    out('an array element depends on an earlier iteration', st)
            for n in names:
                v = body_env.get(n)
                if n in pre:
                    if not isinstance(v, NUM):
                        env[n] = Poison('variable %s after a loop' % n)
                        continue
                    d = self.num(v) - pre[n]
                    if not any(x.startswith('@pre') for x in d.names()):
                        if g is not None:
                            d = d * g
                        for b in bound:
                            d = d.sum(b)
                        env[n] = self.num(env[n]) + d
                    elif not any(x.startswith('@pre') for x in self.num(v).names()):
                        env[n] = Poison('value of %s from the last iteration' % n)
                    else:
                        out('loop-carried variable %s' % n, st)
                else:
                    env[n] = Poison('value of %s from the last iteration' % n)
            env.pop('@ret', None) if False else None

    # ---------------------------------------------------------------------------------------------- entry points
    def run(self, name, args=(), cls=None):
        mod, c = cls or self.approach
        m = self.S.method(mod, c, name)
        if m is None:
            raise OutOfReach('no method %s' % name)
        self.inline(m, [Obj(('self',))] + list(args), {}, None)
        return self

    def written(self):
        return sorted(set(e.arr for e in self.effects))

    def content(self, arr, idx, rest='zero'):
        """Sum of the updates of arr[idx] (arr starts at zero)."""
        tot = poly(0)
        for e in self.effects:
            if e.arr != arr:
                continue
            if len(e.idx) != len(idx):
                raise OutOfReach('index of %s' % arr)
            m = {v: Var(v.sort, v.charge, v.name) for v in e.bound}
            from .sp import fix_charges
            fix_charges(m)
            val = (e.val * e.guard).subst(m)
            zero = False
            for x, y in zip(e.idx, idx):
                x = m.get(x, x) if isinstance(x, Var) else x
                if isinstance(x, int) and isinstance(y, int):
                    if x != y:
                        zero = True
                        break
                elif x is not y:
                    val = val * atom('[==]', x, y)
            if zero:
                continue
            for v in m.values():
                val = val.sum(v)
            tot = tot + val
        return tot


def stored(node):
    s = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'eval':
            for c in ('FuncPauliElPh', 'Func1vNElPh'):
                for v in ('val', 'val0', 'val1'):
                    s.add('@%s.%s' % (c, v))
    return s


def leaves(stmts):
    """Does a continue or return end this block on some path (loops inside are their own)?"""
    for st in stmts:
        if isinstance(st, (ast.Continue, ast.Return, ast.Break)):
            return True
        if isinstance(st, ast.If) and (leaves(st.body) or leaves(st.orelse)):
            return True
    return False


leaves_deep = leaves
