"""C01, C02: labels of states and numbering of density-matrix elements."""
import itertools
import numpy as np
from . import core, gen
from .core import require, quiet
from .oracle import Fock

CLASSES = ['StateIndexing', 'StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc']
_fock = {}


def fock(n):
    if n not in _fock:
        _fock[n] = Fock(n)
    return _fock[n]


_ssq = {}


def ssq_counts(n):
    """{(charge, sz, ssq): number of states}, from the spectrum of the total spin operator."""
    if n not in _ssq:
        f = fock(n)
        out = {}
        for q in range(n + 1):
            for sz in set(f.sz[f.charge == q]):
                idx = np.where((f.charge == q) & (f.sz == sz))[0]
                for s in np.linalg.eigvalsh(f.s2[np.ix_(idx, idx)]):
                    ss = int(round(np.sqrt(4 * s + 1) - 1))
                    out[(q, int(sz), ss)] = out.get((q, int(sz), ss), 0) + 1
        _ssq[n] = out
    return _ssq[n]


def check_labels(si, n, ix, removed):
    f_q = lambda x: sum(x)
    h = n // 2
    f_sz = lambda x: sum(x[:h]) - sum(x[h:])
    vecs = {}
    for lin in range(2 ** n):
        bits = [int(c) for c in format(lin, "0%db" % n)]
        vecs[lin] = bits
    remaining = [lin for lin in range(2 ** n) if lin not in removed]
    require(si.nmany == len(remaining), 'number of states %r, %d remain', si.nmany, len(remaining))
    seen = {}
    for k in range(si.nmany):
        x = list(si.get_state(k))
        require(len(x) == n and all(b in (0, 1) for b in x), 'get_state(%d)=%r', k, x)
        require(tuple(x) not in seen, 'labels %r and %d have the same occupations', seen.get(tuple(x)), k)
        seen[tuple(x)] = k
        require(si.get_ind(x) == k, 'get_ind(get_state(%d))=%r', k, si.get_ind(x))
        s = si.get_state(k, strq=True)
        require(s == ''.join(map(str, x)), 'get_state(%d, strq=True)=%r', k, s)
        lin = int(s, 2) if s else 0
        require(list(si.get_state(lin, linq=True)) == x and si.get_ind(x, linq=True) == lin,
                'linear label of %r', x)
        require(lin not in removed, 'removed state %r has label %d', x, k)
    require(len(seen) == len(remaining), 'some remaining state has no label')
    for lin in removed:
        require(si.get_ind(vecs[lin]) is None, 'removed state %r has label %r', vecs[lin], si.get_ind(vecs[lin]))
    # partition by quantum numbers
    labels = [k for q in range(n + 1) for k in si.get_lst(charge=q)]
    require(sorted(labels) == list(range(si.nmany)), 'charge lists %r do not partition the labels', si.chargelst)
    for q in range(n + 1):
        for k in si.get_lst(charge=q):
            require(f_q(si.get_state(k)) == q, 'label %d in the list of charge %d', k, q)
    if ix in ('sz', 'ssq') and n % 2 == 0:
        tot = 0
        for q in range(n + 1):
            m = min(q, n - q)
            u = []
            for sz in range(-m, m + 1, 2):
                lst = si.get_lst(charge=q, sz=sz)
                u += lst
                for k in lst:
                    x = si.get_state(k)
                    require((f_q(x), f_sz(x)) == (q, sz), 'label %d in the list of charge %d, sz %d', k, q, sz)
                if ix == 'ssq':
                    w = []
                    for ss in range(abs(sz), m + 1, 2):
                        l3 = si.get_lst(charge=q, sz=sz, ssq=ss)
                        require(len(l3) == ssq_counts(n).get((q, sz, ss), 0),
                                '%d labels with charge %d, sz %d, ssq %d, the spin operator has %d',
                                len(l3), q, sz, ss, ssq_counts(n).get((q, sz, ss), 0))
                        w += l3
                        for a, k in enumerate(l3):
                            require(si.qn_ind[(q, sz, ss, a)] == k and tuple(si.ind_qn[k]) == (q, sz, ss, a),
                                    'quantum numbers of label %d', k)
                    require(sorted(w) == sorted(lst), 'ssq lists of charge %d sz %d', q, sz)
            require(sorted(u) == sorted(si.get_lst(charge=q)), 'sz lists of charge %d do not partition it', q)
            tot += len(u)
        require(tot == si.nmany, 'sz lists do not cover the labels')
    if ix == 'sz' and n % 2 == 0:
        for k in range(si.nmany):
            x = si.get_state(k)
            require(tuple(si.ind_qn[k][:2]) == (f_q(x), f_sz(x)), 'quantum numbers of label %d', k)
    require(len(si.ind_qn) == si.nmany and len(si.qn_ind) == si.nmany, 'quantum number tables')
    for k in range(si.nmany):
        require(si.qn_ind[si.ind_qn[k]] == k, 'quantum number tables of label %d', k)


class C01:
    FUNCS = ['indexing.py: StateIndexing.__init__, get_state, get_ind, get_lst, remove_fock_states',
             'indexing.py: construct_chargelst, construct_szlst, construct_ssqlst, enum_*, make_inverse_map, make_quantum_numbers']
    BOUND = 'nsingle 1..6, all four schemes and all four index classes, random sequences of up to four removals'

    @staticmethod
    def total(tier):
        return (6 if tier == "quick" else 8) * 16 + (4000 if tier == 'quick' else 30000)

    @staticmethod
    def make(g, i, tier):
        nn = 6 if tier == "quick" else 8
        if i < nn * 16:
            n, c = divmod(i, 16)
            n += 1
            return dict(n=n, ix=['Lin', 'charge', 'sz', 'ssq'][c // 4], cls=CLASSES[c % 4], ops=[])
        n = g.i(1, 5 if tier == 'quick' else 6)
        ix = g.ch(['Lin', 'charge', 'sz'])
        ops = []
        for _ in range(g.i(1, 4)):
            ops.append([int(x) for x in g.r.permutation(2 ** n)[:g.i(0, max(1, 2 ** n // 4))]])
        return dict(n=n, ix=ix, cls=g.ch(CLASSES), ops=ops)

    @staticmethod
    def run(c):
        import qmeq.indexing as I
        with quiet():
            si = getattr(I, c['cls'])(c['n'], c['ix'])
        removed = set()
        check_labels(si, c['n'], c['ix'], removed)
        for op in c['ops']:
            with quiet():
                si.remove_fock_states(op)
            removed |= set(op)
            check_labels(si, c['n'], c['ix'], removed)
        return bool(c['ops']) or c['n'] > 1


def check_dm(si, kind, retained, allowed, group, removed_coh, labels_all):
    """retained: states per charge; allowed(b, bp): symmetry leaves the element in; group(b, bp): hashable
    name of the class of elements identified by the spin symmetry."""
    nch = si.ncharge
    seen = {}
    pops, cohs = set(), set()
    uniq = {}
    conj_of = {}
    for q in range(nch):
        st = retained[q]
        require(sorted(si.statesdm[q]) == sorted(st), 'retained states of charge %d are %r, not %r', q,
                si.statesdm[q], st)
        for b in st:
            for bp in (st if kind != 'Pauli' else [b]):
                ind = int(si.get_ind_dm0(b, bp, q))
                inc = (b == bp) or (allowed(b, bp) and group(b, bp) not in removed_coh)
                if not inc:
                    require(ind == -1, 'left out element (%d,%d) has index %d', b, bp, ind)
                    continue
                g = (q,) + group(b, bp)
                gc = (q,) + group(bp, b)
                key = frozenset([g, gc]) if kind == 'DM' else g
                (pops if b == bp else cohs).add(ind)
                n0 = si.npauli if b == bp else si.ndm0
                require(0 <= ind < n0 and (b == bp or ind >= si.npauli),
                        'index %d of element (%d,%d) out of range (npauli=%d, ndm0=%d)', ind, b, bp, si.npauli,
                        getattr(si, 'ndm0', -1))
                if ind in seen:
                    require(seen[ind] == key, 'unrelated elements share index %d: (%d,%d)', ind, b, bp)
                seen[ind] = key
                u = bool(si.get_ind_dm0(b, bp, q, maptype=2))
                uniq.setdefault(key, []).append((u, b, bp, ind))
                if kind == 'DM':
                    cj = bool(si.get_ind_dm0(b, bp, q, maptype=3))
                    conj_of[(q, b, bp)] = cj
    require(pops == set(range(si.npauli)), 'populations have indices %r of %d', sorted(pops), si.npauli)
    if kind != 'Pauli':
        require(cohs == set(range(si.npauli, si.ndm0)), 'coherences have indices %r of %d..%d', sorted(cohs),
                si.npauli, si.ndm0)
    for key, es in uniq.items():
        require(sum(u for u, *_ in es) == 1, 'element group %r has %d independent elements', es,
                sum(u for u, *_ in es))
        require(len({e[3] for e in es}) == 1, 'related elements %r have different indices', es)
    if kind == 'DM':
        require(si.ndm0r == si.npauli + 2 * (si.ndm0 - si.npauli), 'ndm0r=%d', si.ndm0r)
        for key, es in uniq.items():
            ub, ubp = [(b, bp) for u, b, bp, _ in es if u][0]
            for q in range(nch):
                for u, b, bp, _ in es:
                    if (q, b, bp) in conj_of and b != bp:
                        require(conj_of[(q, b, bp)] != conj_of[(q, bp, b)],
                                'elements (%d,%d) and its conjugate carry the same sign', b, bp)
                        if group(b, bp) == group(ub, ubp):
                            require(conj_of[(q, b, bp)] == conj_of[(q, ub, ubp)],
                                    'elements (%d,%d), (%d,%d) related by symmetry carry different signs', b, bp,
                                    ub, ubp)
    if kind != 'Pauli':
        # reading back
        for ind, (b, bp) in si.inddm0.items():
            q = [q for q in range(nch) if b in retained[q]]
            require(len(q) == 1 and bp in retained[q[0]] and int(si.get_ind_dm0(b, bp, q[0])) == ind,
                    'inddm0[%d]=(%d,%d)', ind, b, bp)
        require(set(si.inddm0) == set(range(si.ndm0)), 'inddm0 does not list every index')
        s1 = []
        for q in range(nch - 1):
            for c in retained[q + 1]:
                for b in retained[q]:
                    s1.append(int(si.get_ind_dm1(c, b, q)))
        require(sorted(s1) == list(range(si.ndm1)), 'amplitude indices %r, ndm1=%d', sorted(s1), si.ndm1)


class Stub:
    pass


class C02:
    FUNCS = ['indexing.py: StateIndexingDM/DMc/Pauli set_statesdm, set_dictdm, set_mapdm, get_ind_dm0, get_ind_dm1',
             'builder/various.py: remove_states, remove_coherences, use_all_states; builder_elph.py: si_elph bookkeeping',
             'builder_base.py: BuilderManyBody._init_state_indexing']
    BOUND = 'nsingle 0..5 or up to 9 many-body input states, random histories of up to 6 operations'

    @staticmethod
    def total(tier):
        return 8000 if tier == 'quick' else 40000

    @staticmethod
    def make(g, i, tier):
        kind = g.ch(['DM', 'DM', 'DMc', 'Pauli'])
        if g.p(0.3):
            nm = g.i(1, 7)
            na = [g.i(0, 3) + 2 for _ in range(nm)]
            base = dict(src='manybody', na=na, elph=g.p(0.5), kind='DM',
                        kt=g.ch(['Pauli', '1vN', 'pyRedfield', 'pyLindblad']))
            n, ix, ne = None, 'charge', nm
        else:
            ix = g.ch(['Lin', 'charge', 'sz', 'ssq'])
            n = g.i(1, 4)
            if ix in ('sz', 'ssq'):
                n = g.ch([2, 4])
                if g.p(0.06):
                    n = 6
            base = dict(src='si', n=n, ix=ix, kind=kind)
            if g.p(0.25):
                base = dict(src='builder', n=max(n, 1), ix=ix, elph=g.p(0.6), kind='DM',
                            kt=g.ch(['Pauli', '1vN', 'pyRedfield', 'pyLindblad', 'Lindblad']))
                if ix in ('sz', 'ssq'):
                    base['n'] = n
            ne = 2 ** base['n']
        E = [round(g.u(-3, 3), 3) for _ in range(ne)]
        ops = []
        for _ in range(g.i(0, 6)):
            k = g.ch(['set', 'coh', 'states', 'all', 'coh', 'all', 'states', 'fock', 'kt'])
            if k == 'set':
                ops.append(['set', int(g.r.integers(1 << 30)), g.p(0.7)])
            elif k == 'coh':
                ops.append(['coh', round(g.ch([0.0, g.u(0, 2), g.u(0, 5)]), 3)])
            elif k == 'states':
                ops.append(['states', round(g.u(0.05, 5.), 3)])
            elif k == 'all':
                ops.append(['all'])
            elif k == 'fock' and base['src'] != 'manybody' and ix != 'ssq':
                ops.append(['fock', [int(x) for x in g.r.permutation(2 ** base['n'])[:g.i(0, 2)]]])
            elif k == 'kt' and base['src'] != 'si':
                ops.append(['kt', g.ch(['Pauli', '1vN', 'pyRedfield', 'pyLindblad', 'Lindblad', 'py1vN'])])
        return dict(base=base, E=E, ops=ops)

    @staticmethod
    def run(c):
        import qmeq, qmeq.indexing as I
        from qmeq.builder import various
        b = c['base']
        kind = b['kind']
        if b['src'] == 'manybody':
            nm = len(b['na'])
            kw = dict(Ea=np.array(c['E']), Na=b['na'], Tba=np.zeros((1, nm, nm), dtype=complex),
                      mulst={0: 0.}, tlst={0: 1.}, dband={0: 60.}, kerntype=b['kt'])
            if b['elph']:
                kw.update(Vbbp=np.zeros((1, nm, nm), dtype=complex), tlst_ph={0: 1.}, dband_ph={0: 10.})
            s = (qmeq.BuilderManyBodyElPh if b['elph'] else qmeq.BuilderManyBody)(**kw)
            q0 = min(b['na'])
            full = [[k for k in range(nm) if b['na'][k] == q + q0] for q in range(max(b['na']) - q0 + 1)]
            ix, n = 'charge', None
        elif b['src'] == 'builder':
            n, ix = b['n'], b['ix']
            kw = dict(nsingle=n, nleads=1, tleads={(0, 0): 0.1}, mulst={0: 0.}, tlst={0: 1.}, dband={0: 60.},
                      kerntype=b['kt'], indexing=ix)
            if b['elph']:
                kw.update(nbaths=1, velph={(0, 0, 0): 0.1}, tlst_ph={0: 1.}, dband_ph={0: 10.})
            with quiet():
                s = (qmeq.BuilderElPh if b['elph'] else qmeq.Builder)(**kw)
        else:
            n, ix = b['n'], b['ix']
            s = Stub()
            with quiet():
                s.si = getattr(I, 'StateIndexing' + kind)(n, ix)
            s.qd = Stub()
        if n is not None:
            full = [list(x) for x in s.si.chargelst]
        st = {'ret': [list(x) for x in full], 'coh': None}
        sie_ret = [list(x) for x in full]

        def qn(k):
            return s.si.ind_qn[k]

        def energies():
            E = np.zeros(s.si.nmany)
            for k in range(s.si.nmany):
                if ix == 'ssq':
                    q, sz, ss, a = qn(k)
                    E[k] = c['E'][(7 * q + 3 * ss + a) % len(c['E'])] + 0.01 * a
                else:
                    E[k] = c['E'][k]
            return E

        def allowed(x, y):
            if ix == 'sz':
                return qn(x)[1] == qn(y)[1]
            if ix == 'ssq':
                return qn(x)[1:3] == qn(y)[1:3]
            return True

        def group(x, y):
            if ix == 'ssq':
                return (qn(x)[0], qn(x)[2], qn(x)[3], qn(y)[2], qn(y)[3])
            return (x, y)
        thr = [None]
        Es = [energies()]

        def removed():
            if thr[0] is None:
                return set()
            out = set()
            E = Es[0]
            for q in range(len(full)):
                for x in full[q]:
                    for y in full[q]:
                        if abs(E[x] - E[y]) > thr[0]:
                            out.add(group(x, y))
            return out
        s.qd.Ea = Es[0]

        def check():
            check_dm(s.si, kind, st['ret'], allowed, group, removed(), None)
            if getattr(s, 'si_elph', None) is not None:
                check_dm(s.si_elph, 'DMc', sie_ret, allowed, group, set(), None)
        check()
        isb = b['src'] != 'si'
        did = False
        for op in c['ops']:
            if op[0] == 'set':
                if ix == 'ssq':
                    continue
                r = np.random.default_rng(op[1])
                ret = [[k for k in f if r.random() < 0.7] for f in full]
                if op[2] is False:
                    ret = [[int(x) for x in r.permutation(x_)] if len(x_) else [] for x_ in ret]
                s.si.set_statesdm([list(x) for x in ret])
                if getattr(s, 'si_elph', None) is not None:
                    s.si_elph.set_statesdm([list(x) for x in ret])
                st['ret'], thr[0] = ret, None
                sie_ret = ret
            elif op[0] == 'coh':
                if kind == 'Pauli' or sum(len(x) for x in st['ret']) == 0:
                    continue
                (s.remove_coherences if isb else lambda d: various.remove_coherences(s, d))(op[1])
                thr[0] = op[1] if thr[0] is None else min(op[1], thr[0])
            elif op[0] == 'states':
                (s.remove_states if isb else lambda d: various.remove_states(s, d))(op[1])
                E = Es[0]
                if len(E) == 0:
                    continue
                st['ret'] = [[k for k in f if E[k] < min(E) + op[1]] for f in full]
                sie_ret = st['ret']
                thr[0] = None
            elif op[0] == 'all':
                (s.use_all_states if isb else lambda: various.use_all_states(s))()
                st['ret'], thr[0] = [list(x) for x in full], None
                sie_ret = st['ret']
            elif op[0] == 'fock':
                if s.si.nmany <= 3:
                    continue
                s.remove_fock_states(op[1]) if isb else s.si.remove_fock_states(op[1])
                full = [list(x) for x in s.si.chargelst]
                Es[0] = energies()
                s.qd.Ea = Es[0]
                st['ret'], thr[0] = [list(x) for x in full], None
                sie_ret = st['ret']
            elif op[0] == 'kt':
                with quiet():
                    s.kerntype = op[1]
            did = True
            check()
        return did or (n or 0) > 1


PROPS = {'C01': C01, 'C02': C02}
