"""Edits that keep the behaviour: builders, drivers, LAPACK wrapper, integrals, removal of coherences, RTD poles, 2vN grid (development material)."""
BB = 'qmeq/builder/builder_base.py'
A = 'qmeq/approach/aprclass.py'
LP = 'qmeq/wrappers/c_lapack.pyx'
SF = 'qmeq/specfunc/specfunc.py'
CS = 'qmeq/specfunc/c_specfunc.pyx'
V = 'qmeq/builder/various.py'
R = 'qmeq/approach/base/RTD.py'
CR = 'qmeq/approach/base/c_RTD.pyx'
N2 = 'qmeq/approach/base/neumann2.py'
B = 'qmeq/baths.py'
L = 'qmeq/leadstun.py'
EDITS = [
# 0 builder: early return, name of the class from a helper
(BB, '''        if isinstance(value, str):
            if self.appr.kerntype != value:
                approach_string = value[0].capitalize() + value[1:]
                self.Approach = self.globals['Approach'+approach_string]
                self.change_si()
                self.appr = self.Approach(self)
        else:
            if issubclass(value, Approach):
                self.Approach = value
                self.change_si()
                self.appr = self.Approach(self)
''', '''        if isinstance(value, str):
            if self.appr.kerntype == value:
                return
            new_approach = self.globals['Approach' + value[0].capitalize() + value[1:]]
        elif issubclass(value, Approach):
            new_approach = value
        else:
            return
        self.Approach = new_approach
        self.change_si()
        self.appr = self.Approach(self)
'''),
# 1 locals, order of statements
(BB, '''        self.funcp.dband = value
        self.leads.change(dlst=value)
''', '''        leads = self.leads
        leads.change(dlst=value)
        self.funcp.dband = value
'''),
# 2
(BB, '''        if not (hsingle is None and coulomb is None):
            self.qd.change(hsingle, coulomb)
        if not (tleads is None and mulst is None and tlst is None and dlst is None):
            self.leads.change(tleads, mulst, tlst, dlst)

    def get_phi0''', '''        if tleads is not None or mulst is not None or tlst is not None or dlst is not None:
            self.leads.change(tleads=tleads, mulst=mulst, tlst=tlst, dlst=dlst)
        if hsingle is not None or coulomb is not None:
            self.qd.change(hsingle=hsingle, coulomb=coulomb)

    def get_phi0'''),
# 3
(BB, '''        sub_class_str = attribute_map.get(item)
        if sub_class_str is None:
            return super(BuilderBase, self).__getattribute__(item)
        else:
            sub_class = getattr(self, attribute_map[item])
            return getattr(sub_class, item)
''', '''        owner = attribute_map.get(item)
        if owner is not None:
            return getattr(getattr(self, owner), item)
        return super(BuilderBase, self).__getattribute__(item)
'''),
# 4
(BB, '''        self.si.remove_fock_states(lin_state_indices)
        self.qd._init_hamiltonian()
        self.leads._init_coupling()
''', '''        si, qd, leads = self.si, self.qd, self.leads
        si.remove_fock_states(lin_state_indices)
        for part in ():
            part.restart()
        leads._init_coupling()
        qd._init_hamiltonian()
'''),
# 5 driver: branches exchanged
(A, '''            if not self.funcp.mfreeq:
                self.generate_kern()
                self.solve_kern()
            else:
                self.solve_matrix_free()
            if currentq:
                self.generate_current()

    #endregion Solution

class ApproachElPh''', '''            if self.funcp.mfreeq:
                self.solve_matrix_free()
            else:
                self.generate_kern()
                self.solve_kern()
            if not currentq:
                return
            self.generate_current()

    #endregion Solution

class ApproachElPh'''),
# 6
(A, '''        for charge in range(si.ncharge):
            for b in si.statesdm[charge]:
                bb = si.get_ind_dm0(b, b, charge)
                self.norm_vec[bb] += 1
''', '''        norm_vec = self.norm_vec
        for charge, states in enumerate(si.statesdm[:si.ncharge]):
            for b in states:
                norm_vec[si.get_ind_dm0(b, b, charge)] += 1
'''),
# 7
(A, '''        # Replace one equation by the normalisation condition
        if symq:
            replaced_eq[:] = kern[norm_row]
            kern[norm_row] = self.norm_vec
            bvec[norm_row] = 1
        else:
            kern[-1] = self.norm_vec
            bvec[-1] = 1
''', '''        # Replace one equation by the normalisation condition
        row = norm_row if symq else -1
        if symq:
            replaced_eq[:] = kern[row]
        kern[row] = self.norm_vec
        bvec[row] = 1
'''),
# 8
(A, '''        if qdq:
            self.qd.diagonalise()
            if rotateq:
                self.rotate()
        #
        if masterq:
            self.prepare_kern()
            self.generate_fct()
''', '''        if qdq:
            self.qd.diagonalise()
        if qdq and rotateq:
            self.rotate()
        if masterq:
            self.prepare_kern()
            self.generate_fct()
'''),
# 9 LAPACK: sizes by locals
(LP, '''        self.n = a.shape[0]
        self.nrhs = 1 if len(b.shape) == 1 else b.shape[1]
        self.lda = self.n
        self.ldb = max(self.n, self.nrhs)
''', '''        cdef int rows = a.shape[0]
        self.nrhs = b.shape[1] if len(b.shape) != 1 else 1
        self.n = rows
        self.lda = rows
        self.ldb = rows
'''),
# 10
(LP, '''        if self.make_copy:
            self.a_double_copy[:] = self.a_double
''', '''        if not self.make_copy:
            return
        self.a_double_copy[:, :] = self.a_double
'''),
# 11
(LP, '''        self.lda = self.m
        self.ldb = max(self.m, self.n)
        self.rcond = -1
''', '''        self.rcond = -1.0
        self.ldb = self.m if self.m > self.n else self.n
        self.lda = self.m
'''),
# 12 integrals
(SF, '''    TMIN = 1e-5
    if abs(T2-T1) < TMIN and not ImGamma:
        lambda1 = (E1 - mu1) / T1
        lambda2 = (E2 - mu1 - eta1 * mu2) / T1
        lambda3 = (E3 - mu1) /T1
        ret = _D_integral_equal_T(p1, 1, lambda3, lambda2,  lambda1, D/2/T1, D/2/T1)
        return ret*np.pi/T1
    else:
        ret = _D_integral(1, p1, -E1, -E2, -E3, T1, T2, mu1, eta1*mu2, D/2, D/2, b_and_R)
        return -1j*ret
''', '''    TMIN = 1e-5
    half_band = D / 2
    if ImGamma or abs(T1 - T2) >= TMIN:
        return -1j * _D_integral(1, p1, -E1, -E2, -E3, T1, T2, mu1, eta1*mu2, half_band, half_band, b_and_R)
    lambda1, lambda3 = (E1 - mu1) / T1, (E3 - mu1) / T1
    lambda2 = (E2 - (mu1 + eta1 * mu2)) / T1
    return np.pi / T1 * _D_integral_equal_T(p1, 1, lambda3, lambda2, lambda1, half_band / T1, half_band / T1)
'''),
# 13
(SF, '''    if np.abs(deltaE - E1 - E2) < E_MIN:
        if np.abs(deltaE) < E_MIN:
            ret = (diff2_phi(E1) + fermi_func(E1) * diff_phi(-E1) + diff_phi(E1) * fermi_func(-E1))
        else:
''', '''    if abs(deltaE - (E1 + E2)) < E_MIN:
        if abs(deltaE) < E_MIN:
            f = fermi_func(E1)
            ret = diff2_phi(E1) + f * diff_phi(-E1) + (1.0 - f) * diff_phi(E1)
        else:
'''),
# 14
(CS, '''        A = digamma( 0.5 + x/(pi2T) - (z2+mu1+mu2)/(pi2T)*1j )
        B = digamma( 0.5 - (z3+mu2)/(pi2T)*1j )
''', '''        B = digamma( 0.5 - (z3+mu2)/(pi2T)*1j )
        A = digamma( 0.5 + (x - (z2+mu1+mu2)*1j)/pi2T )
'''),
# 15
(CS, '''    if( fabs(z3/T1-z1/T1)>E_MIN ):
''', '''    if fabs((z3 - z1)/T1) > E_MIN:
'''),
# 16 removal of coherences
(V, '''    for i in range(si.ndm0_):
        if si.mapdm0[i] != -1:
            ind = si.mapdm0[i]
            b, bp = si.inddm0[ind]
            if abs(E[b]-E[bp]) > dE:
                si.mapdm0[i] = -1
            else:
                ilst.append(i)
                indlst.append(ind)
''', '''    for i in range(si.ndm0_):
        ind = si.mapdm0[i]
        if ind == -1:
            continue
        b, bp = si.inddm0[ind]
        if abs(E[b]-E[bp]) <= dE:
            ilst.append(i)
            indlst.append(ind)
        else:
            si.mapdm0[i] = -1
'''),
# 17
(V, '''    for i in range(len(indlst)):
        if indlst[i] == ind:
            indlst[i] = count
        else:
            count += 1
            ind = indlst[i]
            indlst[i] = count
''', '''    for i in range(len(indlst)):
        if indlst[i] != ind:
            count += 1
            ind = indlst[i]
        indlst[i] = count
'''),
# 18 RTD
(R, '''        BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
        if self.BW_Ozaki_expansion != BW_T:
            self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
            self.BW_Ozaki_expansion = BW_T
''', '''        dmin, dmax = self.leads.dlst[0][0], self.leads.dlst[0][1]
        width = 0.5 * (abs(dmin) + abs(dmax)) / min(self.leads.tlst)
        if self.BW_Ozaki_expansion == width:
            return
        self.BW_Ozaki_expansion = width
        self.Ozaki_poles_and_residues = BW_Ozaki(width)
'''),
# 19
(CR, '''        if np.any(abs(self.leads.Tba.imag)>0):
            self.set_Ozaki_params()
        else:
            for i in range(1, kh.nleads):
                if tlst[i] != tlst[0]:
                    self.set_Ozaki_params()
                    break
''', '''        cdef bool_t poles = np.any(abs(self.leads.Tba.imag) > 0)
        for i in range(1, kh.nleads):
            if tlst[i] != tlst[0]:
                poles = True
        if poles:
            self.set_Ozaki_params()
'''),
# 20 2vN
(N2, '''        lst = [dmin, dmax]
        for charge in range(si.ncharge):
''', '''        lst = [dmax, dmin]
        for charge in range(si.ncharge):
'''),
# 21
(N2, '''        self.funcp.emax = max(lst)
        self.funcp.emin = min(lst)
''', '''        self.funcp.emin, self.funcp.emax = min(lst), max(lst)
'''),
# 22
(N2, '''    def iterate(self):
        terms_calculator = TermsCalculator2vN(self)
        terms_calculator.iterate()
''', '''    def iterate(self):
        TermsCalculator2vN(self).iterate()
'''),
# 23
(B, '''        si = self.si
        si.nbaths = nbaths
        self.velph = make_velph_dict(velph, si)
        self.mtype = mtype
        self.Vbbp0 = elph_construct_Vbbp(self, self.velph)
''', '''        self.si.nbaths = nbaths
        self.mtype = mtype
        amplitudes = make_velph_dict(velph, self.si)
        self.velph = amplitudes
        self.Vbbp0 = elph_construct_Vbbp(self, amplitudes)
'''),
# 24
(L, '''        self.tleads = make_tleads_dict(tleads, si)
        self.tleads_array = make_tleads_array(self.tleads, self.si)
        self.mtype = mtype
        self.Tba0 = construct_Tba(self, self.tleads)
''', '''        self.mtype = mtype
        self.tleads = make_tleads_dict(tleads, si)
        self.Tba0 = construct_Tba(self, self.tleads)
        self.tleads_array = make_tleads_array(self.tleads, si)
'''),
]
