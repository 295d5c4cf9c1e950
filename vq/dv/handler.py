"""Contracts of the kernel handlers (dense and matrix-free, compiled and pure Python), on their real bodies.

The elements (b,bp,q) and (a,ap,q') are arbitrary; the index of an element is whatever the real get_ind_dm0 returns, about
which only the numbering invariant of C02 is assumed (in range, populations first).  `act` is the meaning of one call: what
it adds to the generator applied to an arbitrary vector.  These contracts are what sx.py uses for the calls it sees."""
import z3
from .zx import Z, ZObj, ZArr, Cx, Raised, allpaths, num, real, cx
from .src import OutOfReach
from .master import guarded

I, R, B = z3.Int, z3.Real, z3.Bool


class H(object):
    """A handler object in an arbitrary state."""
    def __init__(self, z, S, compiled, cls, si='StateIndexingDM'):
        rel = 'qmeq/approach/' + ('c_kernel_handler.pyx' if compiled else 'kernel_handler.py')
        mod = S.module(rel)
        if cls not in mod.classes:
            raise OutOfReach('class %s of %s' % (cls, rel))
        self.z, self.compiled = z, compiled
        self.ndm0, self.npauli = I('ndm0'), I('npauli')
        self.ndm0r = 2*self.ndm0 - self.npauli
        maps = dict(lenlst=ZArr('lenlst', 1, 'int'), dictdm=ZArr('dictdm', 1, 'int'), shiftlst0=ZArr('shiftlst0', 1, 'int'),
                    shiftlst1=ZArr('shiftlst1', 1, 'int'), mapdm0=ZArr('mapdm0', 1, 'int'), booldm0=ZArr('booldm0', 1, 'bool'),
                    conjdm0=ZArr('conjdm0', 1, 'bool'))
        at = dict(ndm0=self.ndm0, npauli=self.npauli, ndm0r=self.ndm0r)
        self.kern, self.phi0, self.dphi = ZArr('kern', 2), ZArr('phi0', 1), ZArr('dphi', 1)
        at.update(kern=self.kern, phi0=self.phi0, dphi0_dt=self.dphi)
        if compiled:
            at.update(maps)
        else:
            im = S.module('qmeq/indexing.py')
            at['si'] = ZObj('si', (im, im.classes[si]), dict(maps, ndm0=self.ndm0, npauli=self.npauli))
        self.h = ZObj('h', (mod, mod.classes[cls]), at)
        z.assume(z3.And(self.npauli >= 1, self.ndm0 >= self.npauli))

    def call(self, obj, name, *args):
        m = self.z.S.method(obj.cls[0], obj.cls[1], name)
        if m is None:
            raise OutOfReach('method %s of %s' % (name, obj.cls[1].name))
        return self.z.call_method(obj, m, list(args), {}, None)

    def run(self, name, *args):
        return self.call(self.h, name, *args)

    def ind(self, b, bp, q, what=1):
        if self.compiled:
            return self.run({1: 'get_ind_dm0', 2: 'get_ind_dm0_bool', 3: 'get_ind_dm0_conj'}[what], b, bp, q)
        return self.call(self.h.attrs['si'], 'get_ind_dm0', b, bp, q, what)

    def element(self, b, bp, q, included=True):
        """Index and conjugation flag of an element; invariant of C02 assumed."""
        n, c = self.ind(b, bp, q), self.ind(b, bp, q, 3)
        ok = z3.And(n >= 0, n < self.ndm0, (n < self.npauli) == (b == bp))
        self.z.assume(ok if included else z3.Or(n == -1, ok))
        return n, c

    def rho(self, n, c):
        """Value of the element under the packing: real parts, then imaginary parts of the coherences."""
        i = self.phi0.base(n + self.ndm0 - self.npauli)
        return Cx(self.phi0.base(n), z3.If(n >= self.npauli, z3.If(c, i, -i), z3.RealVal(0)))

    def act(self, r):
        """What the call added to row r of generator * phi."""
        t = z3.RealVal(0)
        for w, v, old in self.kern.log:
            t = t + z3.If(w[0] == r, (real(v) - real(old)) * self.phi0.base(w[1]), 0)
        for w, v, old in self.dphi.log:
            t = t + z3.If(w[0] == r, real(v) - real(old), 0)
        return t

    def in_range(self):
        c = [z3.And(x >= 0, x < self.ndm0r) for w, _, _ in self.kern.log + self.dphi.log for x in w]
        return z3.And(*c) if c else z3.BoolVal(True)


FLAVOURS = [(c, k) for c in (False, True) for k in ('KernelHandler', 'KernelHandlerMatrixFree')]


def label(c, k, m):
    return '%s%s.%s' % ('' if c else 'py', k, m)


def contract(S, c, k, m, f, goal):
    z = Z(S)
    ps = z.explore(lambda z: f(H(z, S, c, k)))
    ps = [p for p in ps]
    return allpaths('%s: %s' % (label(c, k, m), goal), z, ps,
                    lambda r, ev: z3.BoolVal(False) if isinstance(r, Raised) else r)


def set_matrix_element(S, c, k):
    def f(h):
        b, bp, q, a, ap, p = [I(x) for x in ('b', 'bp', 'q', 'a', 'ap', 'p')]
        fct = Cx(R('f.re'), R('f.im'))
        n, cj = h.element(b, bp, q)
        h.z.assume(cj)
        m, cm = h.element(a, ap, p)
        h.run('set_matrix_element', fct, b, bp, q, a, ap, p)
        rho, r = h.rho(m, cm), I('row')
        re, im = fct.im*rho.re + fct.re*rho.im, fct.im*rho.im - fct.re*rho.re
        want = z3.If(r == n, re, 0) + z3.If(z3.And(n >= h.npauli, r == n + h.ndm0 - h.npauli), im, 0)
        return z3.And(h.act(r) == want, h.in_range())
    return contract(S, c, k, 'set_matrix_element', f, 'adds -i f rho(a,a\') to the equation of (b,b\') and nothing else')


def set_energy(S, c, k):
    def f(h):
        b, bp, q = [I(x) for x in ('b', 'bp', 'q')]
        E = R('E')
        n, cj = h.element(b, bp, q)
        h.z.assume(cj)
        h.run('set_energy', E, b, bp, q)
        rho, r = h.rho(n, cj), I('row')
        coh = b != bp
        want = z3.If(z3.And(coh, r == n), E*rho.im, 0) + z3.If(z3.And(coh, r == n + h.ndm0 - h.npauli), -E*rho.re, 0)
        return z3.And(h.act(r) == want, h.in_range())
    return contract(S, c, k, 'set_energy', f, 'adds -i E rho(b,b\') to the equation of a coherence and nothing to a population')


def set_matrix_element_pauli(S, c, k):
    def f(h):
        bb, aa, r, fm, fp = I('bb'), I('aa'), I('row'), R('fm'), R('fp')
        h.z.assume(z3.And(bb >= 0, bb < h.npauli, aa >= 0, aa < h.npauli))
        h.run('set_matrix_element_pauli', fm, fp, bb, aa)
        return z3.And(h.act(r) == z3.If(r == bb, fm*h.phi0.base(bb) + fp*h.phi0.base(aa), 0), h.in_range())
    return contract(S, c, k, 'set_matrix_element_pauli', f, 'adds fctm rho(bb) + fctp rho(aa) to the equation of bb and nothing else')


def get_phi0_element(S, c, k):
    def f(h):
        b, bp, q = [I(x) for x in ('b', 'bp', 'q')]
        n, cj = h.element(b, bp, q)
        v = cx(h.run('get_phi0_element', b, bp, q))
        rho = h.rho(n, cj)
        return z3.And(v.re == rho.re, v.im == rho.im, z3.BoolVal(not h.phi0.log))

    def g(h):
        b, bp, q = [I(x) for x in ('b', 'bp', 'q')]
        h.z.assume(h.ind(b, bp, q) == -1)
        v = cx(h.run('get_phi0_element', b, bp, q))
        return z3.And(v.re == 0, v.im == 0)
    # The equations ask is_included first, so what is read for a left-out element need not show: not refuted but left to the
    # runtime contracts.
    soft = guarded('get_phi0_element of %s' % label(c, k, ''), contract, S, c, k, 'get_phi0_element', g, 'is zero for a left-out element')
    for o in soft:
        if o['status'] == 'refuted':
            o.update(status='undecided', why='%s; the equations ask is_included before' % (o.get('why') or o.get('detail') or 'differs'))
    return [contract(S, c, k, 'get_phi0_element', f, 'is rho(b,b\') of the packing')] + soft


def conj_element(S, c, k):
    """Reading the conjugate element conjugates, when the maps pair them."""
    def f(h):
        b, bp, q = [I(x) for x in ('b', 'bp', 'q')]
        n, cj = h.element(b, bp, q)
        m, cm = h.element(bp, b, q)
        h.z.assume(z3.And(n == m, z3.Implies(b != bp, cj != cm)))
        v, w = cx(h.run('get_phi0_element', b, bp, q)), cx(h.run('get_phi0_element', bp, b, q))
        return z3.And(v.re == w.re, v.im == -w.im)
    return contract(S, c, k, 'get_phi0_element', f, 'the element (b\',b) is the conjugate of (b,b\')')


def included(S, c, k):
    def f(h):
        b, bp, q = [I(x) for x in ('b', 'bp', 'q')]
        n, _ = h.element(b, bp, q, included=False)
        u = h.ind(b, bp, q, 2)
        i, v = h.run('is_included', b, bp, q), h.run('is_unique', b, bp, q)
        w = h.z.zb(h.z.truth(i)) == (n != -1)
        return z3.And(w, h.z.zb(h.z.truth(v)) == u)
    return contract(S, c, k, 'is_included/is_unique', f, 'report the index and uniqueness maps')


def same_index(S):
    """The compiled handler indexes as the Python indexing does."""
    out = []
    for what, nm in ((1, 'get_ind_dm0'), (2, 'get_ind_dm0 (unique)'), (3, 'get_ind_dm0 (conjugate)')):
        def f(z):
            b, bp, q = [I(x) for x in ('b', 'bp', 'q')]
            x = H(z, S, True, 'KernelHandler').ind(b, bp, q, what)
            y = H(z, S, False, 'KernelHandler').ind(b, bp, q, what)
            return x == y
        z = Z(S)
        out.append(allpaths('KernelHandler.%s: compiled = StateIndexingDM' % nm, z, z.explore(f), lambda r, ev: r))

    def g(z):
        b, bp, q = [I(x) for x in ('b', 'bp', 'q')]
        x = H(z, S, True, 'KernelHandler')
        y = H(z, S, False, 'KernelHandler')
        return x.run('get_ind_dm1', b, bp, q) == y.call(y.h.attrs['si'], 'get_ind_dm1', b, bp, q)
    z = Z(S)
    out.append(allpaths('KernelHandler.get_ind_dm1: compiled = StateIndexingDM', z, z.explore(g), lambda r, ev: r))
    return out


USES = {
    'C07': [set_matrix_element, set_matrix_element_pauli, set_energy, included],
    'C08': [set_matrix_element, set_matrix_element_pauli, set_energy, included, get_phi0_element],
    'C09': [get_phi0_element, set_matrix_element_pauli],
    'C10': [set_matrix_element, set_matrix_element_pauli, set_energy, included, get_phi0_element],
    'C11': [set_matrix_element, set_matrix_element_pauli, set_energy, included, get_phi0_element],
    'C13': [set_matrix_element, set_matrix_element_pauli],
    'C18': [get_phi0_element, conj_element],
    'C16': [get_phi0_element, included],
    'C20': [get_phi0_element, included],
}


def obligations(prop, S):
    r = []
    for f in USES.get(prop, ()):
        for c, k in FLAVOURS:
            r.extend(guarded('%s of %s' % (f.__name__, label(c, k, '')), f, S, c, k))
    if prop in ('C10', 'C02'):
        r.extend(guarded('compiled indexing', same_index, S))
    return r


_T = [('qmeq/approach/kernel_handler.py', 'KernelHandler', 'set_matrix_element'),
      ('qmeq/approach/c_kernel_handler.pyx', 'KernelHandler', 'set_matrix_element'),
      ('qmeq/approach/c_kernel_handler.pyx', 'KernelHandlerMatrixFree', 'set_matrix_element')]
SELF = {p: _T for p in ('C07', 'C08', 'C10', 'C11')}
