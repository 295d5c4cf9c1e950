"""Edits that keep the behaviour: helper functions and methods extracted (development material)."""
RT = 'qmeq/approach/base/RTD.py'
Q = 'qmeq/qdot.py'
L = 'qmeq/leadstun.py'
P = 'qmeq/approach/base/pauli.py'
CP = 'qmeq/approach/base/c_pauli.pyx'
CR = 'qmeq/approach/base/c_RTD.pyx'
ER = 'qmeq/approach/elph/c_redfield.pyx'
CL = 'qmeq/approach/base/c_lindblad.pyx'
A = 'qmeq/approach/aprclass.py'
I = 'qmeq/indexing.py'
N2 = 'qmeq/approach/base/neumann2.py'
SF = 'qmeq/specfunc/specfunc.py'
V = 'qmeq/builder/various.py'
EDITS = [
# 0 RTD: two insertions in a local function
(RT, '''                        temp1 = PI * t2.real * f - t2.imag * phi0
                        temp2 = t2.real * phi0 + PI * t2.imag * f
                        kh.add_matrix_element(temp1, l, a2, b2, charge + 1, a1, a1, charge, 5)
                        kh.add_matrix_element(temp2, l, a2, b2, charge + 1, a1, a1, charge, 6)
''', '''                        w = t2 * (PI * f + 1j * phi0)
                        kh.add_matrix_element(w.real, l, a2, b2, charge + 1, a1, a1, charge, 5)
                        kh.add_matrix_element(w.imag, l, a2, b2, charge + 1, a1, a1, charge, 6)
'''),
# 1 the sign of a hop in a helper
(Q, '''                fsign = np.power(-1, sum(state[0:j2])+sum(state[0:j3])) * (+1 if j2 > j3 else -1)
                statep = list(state)
                statep[j2] = 0
                statep[j3] = 1
''', '''                fsign = fermion_sign(state, j2, j3)
                statep = [1 if j == j3 else 0 if j == j2 else x for j, x in enumerate(state)]
'''),
(Q, '''def construct_ham_hopping(''', '''def fermion_sign(state, j2, j3):
    """Sign of the removal of a particle from j2 and its addition to j3."""
    lo, hi = min(j2, j3), max(j2, j3)
    return -1 if sum(state[lo+1:hi]) % 2 else 1


def construct_ham_hopping('''),
# 3 Pauli factor in a method
(P, '''                for l in range(nleads):
                    xcb = (Tba[l, b, c]*Tba[l, c, b]).real
                    rez = func_pauli(Ecb, mulst[l], tlst[l], dlst[l, 0], dlst[l, 1], itype)
                    paulifct[l, cb, 0] = xcb*rez[0]
                    paulifct[l, cb, 1] = xcb*rez[1]

''', '''                for l in range(nleads):
                    paulifct[l, cb, 0], paulifct[l, cb, 1] = rates(self.leads, l, b, c, Ecb, itype)

'''),
(P, '''class ApproachPauli(''', '''def rates(leads, l, b, c, Ecb, itype):
    Tba, dlst = leads.Tba, leads.dlst
    xcb = (Tba[l, b, c]*Tba[l, c, b]).real
    rez = func_pauli(Ecb, leads.mulst[l], leads.tlst[l], dlst[l, 0], dlst[l, 1], itype)
    return xcb*rez[0], xcb*rez[1]


class ApproachPauli('''),
# 4 compiled: a function of the module
(CP, '''cdef class ApproachPauli(Approach):
''', '''cdef double_t square(complex_t x, complex_t y):
    return (x*y).real


cdef class ApproachPauli(Approach):
'''),
(CP, '''                xcb = (Tba[l, b, c]*Tba[l, c, b]).real
''', '''                xcb = square(Tba[l, b, c], Tba[l, c, b])
'''),
# 6 Lindblad: jumps of one state in a loop over both charges
(CL, '''                fct_bppbp = 0
                for j in range(acount):
                    a = statesdm[acharge, j]
                    for l in range(nleads):
                        fct_bppbp += -0.5*tLba[l, a, b].conjugate()*tLba[l, a, bpp]
                for j in range(ccount):
                    c = statesdm[ccharge, j]
                    for l in range(nleads):
                        fct_bppbp += -0.5*tLba[l, c, b].conjugate()*tLba[l, c, bpp]
                kh.set_matrix_element(1j*fct_bppbp, b, bp, bcharge, bpp, bp, bcharge)
''', '''                fct_bppbp = 0
                for l in range(nleads):
                    for j in range(acount):
                        a = statesdm[acharge, j]
                        fct_bppbp = fct_bppbp - 0.5*tLba[l, a, b].conjugate()*tLba[l, a, bpp]
                    for j in range(ccount):
                        c = statesdm[ccharge, j]
                        fct_bppbp = fct_bppbp - 0.5*tLba[l, c, b].conjugate()*tLba[l, c, bpp]
                kh.set_matrix_element(1j*fct_bppbp, b, bp, bcharge, bpp, bp, bcharge)
'''),
# 7 norm vector through a generator of the populations
(A, '''        for charge in range(si.ncharge):
            for b in si.statesdm[charge]:
                bb = si.get_ind_dm0(b, b, charge)
                self.norm_vec[bb] += 1

    def generate_fct''', '''        for bb in self.populations():
            self.norm_vec[bb] += 1

    def populations(self):
        si = self.si
        for charge in range(si.ncharge):
            for b in si.statesdm[charge]:
                yield si.get_ind_dm0(b, b, charge)

    def generate_fct'''),
# 8
(I, '''    szmax = min(charge, nsingle-charge)
    return list(range(abs(sz), szmax+1, +2))
''', '''    return [ssq for ssq in range(abs(sz), min(charge, nsingle-charge)+1, 2)]
'''),
# 9 rotation with a helper
(L, '''            Tba[l, i1:i2][:, i3:i4] = np.dot(vecslst[charge].conj().T,
                                             np.dot(Tba0[l, i1:i2][:, i3:i4],
                                                    vecslst[charge+1]))
            Tba[l, i3:i4][:, i1:i2] = Tba[l, i1:i2][:, i3:i4].conj().T
    return Tba
''', '''            block = vecslst[charge].conj().T @ Tba0[l, i1:i2, i3:i4] @ vecslst[charge+1]
            Tba[l, i1:i2, i3:i4] = block
            Tba[l, i3:i4, i1:i2] = block.conj().T
    return Tba
'''),
# 10 one call of the Fermi function
(SF, '''        cur0 = fermi_func(alpha)
        cur1 = 1-cur0
        rez = 2*pi*np.array([cur0, cur1])
    else:
        rez = np.zeros(2)
    return rez
''', '''        cur0 = fermi_func(alpha)
        return np.array([2*pi*cur0, 2*pi*(1-cur0)])
    return np.zeros(2)
'''),
# 11 2vN current with a helper
(N2, '''                for l in range(nleads):
                    current_l = phi1[l, cb]*Tba[l, b, c]
                    energy_current_l = h_phi1[l, cb]*Tba[l, b, c]

                    current[l] += -2*current_l.imag
                    energy_current[l] += -2*energy_current_l.imag
''', '''                for l in range(nleads):
                    current[l] -= 2*(phi1[l, cb]*Tba[l, b, c]).imag
                    energy_current[l] -= 2*(h_phi1[l, cb]*Tba[l, b, c]).imag
'''),
# 12 2vN kernel: loop over the leads outside
(N2, '''                for a1 in statesdm[acharge]:
                    bpa1 = si.get_ind_dm1(bp, a1, acharge)
                    ba1 = si.get_ind_dm1(b, a1, acharge)
                    for l in range(nleads):
                        kern[bbp] += +Tba[l, b, a1]*phi1_phi0_conj[l, bpa1]
                        kern[bbp] += -phi1_phi0[l, ba1]*Tba[l, a1, bp]
''', '''                for l, a1 in itertools.product(range(nleads), statesdm[acharge]):
                    bpa1 = si.get_ind_dm1(bp, a1, acharge)
                    ba1 = si.get_ind_dm1(b, a1, acharge)
                    kern[bbp] += Tba[l, b, a1]*phi1_phi0_conj[l, bpa1] - phi1_phi0[l, ba1]*Tba[l, a1, bp]
'''),
# 13 dictionary through a comprehension
(Q, '''        hsingle_dict = {}
        for j0 in hsingle:
            j1, j2, hop = j0
            hsingle_dict.update({(j1, j2): hop})
''', '''        hsingle_dict = {(j1, j2): hop for j1, j2, hop in hsingle}
'''),
# 14 spin symmetry: copies of the amplitudes
(L, '''        tleads_dict_spin = dict(tleads_dict)
        for j0 in tleads_dict:
            j1, j2 = j0
            tamp = tleads_dict[j0]
            tleads_dict_spin.update({(j1+si.nleads_sym,
                                      j2+si.nsingle_sym): tamp})
        return tleads_dict_spin
''', '''        shifted = {(j1+si.nleads_sym, j2+si.nsingle_sym): tamp for (j1, j2), tamp in tleads_dict.items()}
        return {**tleads_dict, **shifted}
'''),
# 15 RTD compiled: factors
(CR, '''                xcb = (Tba[l, b, c]*Tba[l, c, b]).real
                func_pauli(Ecb, mulst[l], tlst[l], dlst[l, 0], dlst[l, 1], itype, rez)
                paulifct[l, cb, 0] = xcb*rez[0]
                paulifct[l, cb, 1] = xcb*rez[1]
''', '''                func_pauli(Ecb, mulst[l], tlst[l], dlst[l, 0], dlst[l, 1], itype, rez)
                for j in range(2):
                    paulifct[l, cb, j] = (Tba[l, b, c]*Tba[l, c, b]).real*rez[j]
'''),
]
