"""C12: tunnelling rate factors."""
import numpy as np
from . import core, gen, hist
from .core import require, close, quiet, Skip


def draw(g):
    """Energies, temperatures, bands with extreme ratios; never closer than rounding to a band edge."""
    T = 10. ** g.u(-3, 2)
    k = g.i(0, 6)
    if k == 6:                  # close to the chemical potential, and the chemical potential close to zero
        mu = g.ch([0., g.u(-1, 1), g.u(-1, 1) * 10. ** g.u(-9, -1)])
        E = mu + g.ch([-1, 1]) * T * 10. ** g.u(-9, 0)
    elif k == 0:
        E, mu = g.u(-3, 3), g.u(-3, 3)
    elif k == 1:
        mu = g.u(-2, 2)
        E = mu + T * g.u(-900, 900)
    elif k == 2:
        mu = g.u(-2, 2)
        E = mu + T * g.u(-30, 30)
    elif k == 3:
        E = mu = g.u(-2, 2)
    elif k == 4:
        mu, E = g.u(-50, 50), g.u(-50, 50)
    else:
        mu = g.u(-1, 1)
        E = mu + T * g.ch([-709.7, 709.7, -709.8, 709.9, -745., 745., 710., 36.8, -36.8, 40., -40.])
    w = abs(E) + abs(mu) + T
    k = g.i(0, 3)
    if k == 0:
        Dm, Dp = -w * g.u(1.01, 50), w * g.u(1.01, 50)
    elif k == 1:
        Dm, Dp = sorted([E + w * g.u(-2, 2), E + w * g.u(-2, 2)])
    elif k == 2:
        Dm = E - w * g.u(0.001, 0.5)
        Dp = E + w * g.u(0.001, 0.5)
    else:
        Dp = E + w * g.ch([-1, 1]) * g.u(0.05, 3)
        Dm = Dp - w * g.u(0.1, 4)
        if abs(Dm - E) < 1e-6 * w:
            Dm -= 0.1 * w
    if abs(E - Dm) < 1e-9 * w or abs(E - Dp) < 1e-9 * w or Dm >= Dp:
        Dm, Dp = E - w, E + w
    return dict(E=E, mu=mu, T=T, Dm=Dm, Dp=Dp)


def check_rates(f, c, itype, inside, what):
    E, mu, T = c['E'], c['mu'], c['T']
    a = (E - mu) / T
    rin, rout = float(f[0]), float(f[1])
    require(np.isfinite(rin) and np.isfinite(rout), '%s: rates %r not finite', what, f)
    require(rin >= 0 and rout >= 0, '%s: negative rate %r', what, f)
    if inside:
        close(rin + rout, 2 * np.pi, what + ': sum of the in- and out-rate inside the band', 1e-13, 1e-13)
        if a >= 0:
            close(rin, np.exp(-min(a, 700.)) * rout if a < 700 else rin, what + ': detailed balance', 1e-11, 1e-300,
                  scale=max(rin, 1e-300))
        else:
            close(rout, np.exp(max(a, -700.)) * rin, what + ': detailed balance', 0, 3e-15)
        if a > 700:
            require(rin <= 7 * np.exp(-700.), '%s: detailed balance: in-rate %r at energy %r kT', what, rin, a)
    else:
        require(rin == 0 and rout == 0, '%s: rates %r outside the band', what, f)


class C12:
    FUNCS = ['specfunc/specfunc.py: func_pauli, func_1vN, fermi_func',
             'specfunc/c_specfunc.pyx: func_pauli, func_1vN, fermi_func', 'the generators that use them']
    BOUND = 'random energies, temperatures (over five decades), chemical potentials and bands, all integration options'

    @staticmethod
    def total(tier):
        return 40000 if tier == 'quick' else 300000

    @staticmethod
    def make(g, i, tier):
        if i % 6 == 5:
            c = dict(k='sys', kt=g.ch(gen.KTALL), itype=g.i(0, 3), t=g.cx(1.), E=g.u(-2, 2), mu=g.u(-2, 2), T=g.u(0.2, 2))
            D = g.ch([60., 60., None])
            c['Dm'], c['Dp'] = (-D, D) if D else (-1.1, 1.3)
            if min(abs(c['E'] - c['Dm']), abs(c['E'] - c['Dp'])) < 1e-6:
                c['E'] = 0.3
            return c
        c = draw(g)
        c['k'] = 'pauli' if i % 2 else '1vN'
        if c['k'] == '1vN':
            c['itype'] = g.i(1, 3) if g.p(0.8) else 0
            if c['itype'] == 0:
                c['T'] = g.u(0.1, 2.)
                c['E'], c['mu'] = g.u(-2, 2), g.u(-2, 2)
                d = g.ch([(-60., 60.), (-3.1, 3.3), (-1.05, 1.15)])
                c['Dm'], c['Dp'] = d
                if min(abs(c['E'] - d[0]), abs(c['E'] - d[1])) < 0.02:
                    c['E'] = 0.2
        else:
            c['itype'] = g.i(0, 3)
        return c

    kinds = staticmethod(lambda c: [c['k'] + ' itype %d' % c['itype']])

    @staticmethod
    def run(c):
        from qmeq.specfunc import specfunc as ps, c_specfunc as cs
        inb = c['Dm'] < c['E'] < c['Dp']
        inside = c['itype'] in (1, 3) or inb
        args = (c['E'], c['mu'], c['T'], c['Dm'], c['Dp'], c['itype'])
        if c['k'] == 'pauli':
            check_rates(ps.func_pauli(*args), c, c['itype'], inside, 'func_pauli')
            check_rates(cs.c_func_pauli(*args), c, c['itype'], inside, 'compiled func_pauli')
            for f, w in ((ps.fermi_func, 'fermi_func'), (cs.c_fermi_func, 'compiled fermi_func')):
                x = (c['E'] - c['mu']) / c['T']
                v = f(x)
                require(0 <= v <= 1 and abs(v + f(-x) - 1) < 1e-14, '%s(%r)=%r', w, x, v)
            return True
        if c['k'] == '1vN':
            for f, w in ((ps.func_1vN, 'func_1vN'), (cs.c_func_1vN, 'compiled func_1vN')):
                z = np.array(f(*args, 10000))
                require(np.all(np.isfinite(z)), '%s: not finite %r', w, z)
                # the particle factor is -i pi f + ..., the hole factor +i pi (1-f) + ...
                check_rates((-2 * z[0].imag, 2 * z[1].imag), c, c['itype'], inside, w)
                if c['itype'] in (2, 3):
                    require(z[0].real == 0 and z[1].real == 0, '%s: principal parts %r are not neglected', w, z)
                s = max(abs(z[0]), abs(z[1]), 1.) * max(1., abs(c['E']))
                close(z[2].imag, c['E'] * z[0].imag, w + ': imaginary part of the particle energy factor', 0, 1e-11 * s)
                close(z[3].imag, c['E'] * z[1].imag, w + ': imaginary part of the hole energy factor', 0, 1e-11 * s)
            return True
        with quiet():
            import qmeq
            s = qmeq.Builder(nsingle=1, hsingle={(0, 0): c['E']}, nleads=1, tleads={(0, 0): c['t']},
                             mulst={0: c['mu']}, tlst={0: c['T']}, dband={0: [c['Dm'], c['Dp']]}, kerntype=c['kt'],
                             itype=c['itype'], indexing='charge')
        K = core.generator(s)
        g = abs(c['t']) ** 2
        check_rates((K[1, 0] / g, K[0, 1] / g), c, c['itype'], inside, c['kt'] + ' generator')
        return True
