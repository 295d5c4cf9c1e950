"""Edits that keep the behaviour: compiled code, drivers, phonon terms (development material, see r1.py)."""
N1 = 'qmeq/approach/base/c_neumann1.pyx'
KH = 'qmeq/approach/c_kernel_handler.pyx'
CA = 'qmeq/approach/c_aprclass.pyx'
AP = 'qmeq/approach/aprclass.py'
EN = 'qmeq/approach/elph/neumann1.py'
CP = 'qmeq/approach/base/c_pauli.pyx'
SP = 'qmeq/specfunc/c_specfunc.pyx'
EDITS = [
# 2 loops exchanged
(N1, '''                for j in range(acount):
                    a = statesdm[acharge, j]
                    bpa = kh.get_ind_dm1(bp, a, acharge)
                    for l in range(nleads):
                        fct_bppbp += +Tba[l, b, a]*Tba[l, a, bpp]*phi1fct[l, bpa, 1].conjugate()
''', '''                for l in range(nleads):
                    for j in range(acount):
                        a = statesdm[acharge, j]
                        bpa = kh.get_ind_dm1(bp, a, acharge)
                        fct_bppbp += +Tba[l, b, a]*Tba[l, a, bpp]*phi1fct[l, bpa, 1].conjugate()
'''),
# 3 while loop
(N1, '''        for i in range(ccount):
            for j in range(ccount):
                c = statesdm[ccharge, i]
                cp = statesdm[ccharge, j]
                if not kh.is_included(c, cp, ccharge):
                    continue
''', '''        for i in range(ccount):
            c = statesdm[ccharge, i]
            for j in range(ccount):
                cp = statesdm[ccharge, j]
                if not kh.is_included(c, cp, ccharge):
                    continue
'''),
# 4
(KH, '''        self.kern[bbp, bbpi] = self.kern[bbp, bbpi] + energy
        self.kern[bbpi, bbp] = self.kern[bbpi, bbp] - energy
''', '''        self.kern[bbpi, bbp] -= energy
        self.kern[bbp, bbpi] += energy
'''),
# 5
(KH, '''        if aapi >= self.ndm0:
            self.kern[bbp, aapi] = self.kern[bbp, aapi] + fct_real*aap_sgn
            if bbpi_bool:
                self.kern[bbpi, aapi] = self.kern[bbpi, aapi] + fct_imag*aap_sgn
        if bbpi_bool:
            self.kern[bbpi, aap] = self.kern[bbpi, aap] - fct_real
''', '''        if bbpi_bool:
            self.kern[bbpi, aap] = self.kern[bbpi, aap] - fct_real
        if aapi < self.ndm0:
            return
        self.kern[bbp, aapi] = self.kern[bbp, aapi] + aap_sgn*fct_real
        if bbpi_bool:
            self.kern[bbpi, aapi] = self.kern[bbpi, aapi] + aap_sgn*fct_imag
'''),
# 6
(KH, '''        cdef long_t bbp = self.get_ind_dm0(b, bp, bcharge)
        if bbp == -1:
            return False

        return True
''', '''        return self.get_ind_dm0(b, bp, bcharge) != -1
'''),
# 7
(KH, '''        cdef double_t phi0_real = self.phi0[bbp]
        cdef double_t phi0_imag = 0
        if bbpi_bool:
            phi0_imag = self.phi0[bbpi] if self.get_ind_dm0_conj(b, bp, bcharge) else -self.phi0[bbpi]

        return phi0_real + 1j*phi0_imag
''', '''        if not bbpi_bool:
            return self.phi0[bbp]
        if self.get_ind_dm0_conj(b, bp, bcharge):
            return self.phi0[bbp] + 1j*self.phi0[bbpi]
        return self.phi0[bbp] - 1j*self.phi0[bbpi]
'''),
# 8
(KH, '''            bcount = self.statesdm_count[bcharge]
            for i in range(bcount):
                j_lower = i if self.no_conjugates else 0
                for j in range(j_lower, bcount):
                    if self.no_coherences and i != j:
                        continue
                    b = self.statesdm[bcharge, i]
                    bp = self.statesdm[bcharge, j]
''', '''            bcount = self.statesdm_count[bcharge]
            for i in range(bcount):
                b = self.statesdm[bcharge, i]
                for j in range(i if self.no_conjugates else 0, bcount):
                    if self.no_coherences and j != i:
                        continue
                    bp = self.statesdm[bcharge, j]
'''),
# 9
(CA, '''        if solmethod == 'lsqr':
            self._solver = LapackSolverDGELSD(self.kern, self.bvec, self._make_kern_copy)
        else:
        #else if solmethod == 'solve':
            self._solver = LapackSolverDGESV(self.kern, self.bvec, self._make_kern_copy)
''', '''        cls = LapackSolverDGELSD if solmethod == 'lsqr' else LapackSolverDGESV
        self._solver = cls(self.kern, self.bvec, self._make_kern_copy)
'''),
# 10
(CA, '''            kh.set_energy(E[b]-E[bp], b, bp, bcharge)
            self.generate_coupling_terms(b, bp, bcharge, kh)
''', '''            self.generate_coupling_terms(b, bp, bcharge, kh)
            kh.set_energy(E[b]-E[bp], b, bp, bcharge)
'''),
# 11
(AP, '''        self.phi0 = np.zeros(kern_size, dtype=self.dtype)
        self.kernel_handler.set_phi0(self.phi0)
''', '''        self.phi0 = phi0 = np.zeros(kern_size, dtype=self.dtype)
        self.kernel_handler.set_phi0(phi0)
'''),
# 13
(AP, '''        if not self.mfreeq:
            self.kern.fill(0.0)
            self.bvec.fill(0.0)

        self.current.fill(0.0)
        self.energy_current.fill(0.0)
        self.heat_current.fill(0.0)
''', '''        arrays = [self.current, self.energy_current, self.heat_current]
        if not self.mfreeq:
            arrays += [self.kern, self.bvec]

        for array in arrays:
            array[...] = 0.0
'''),
# 14
(EN, '''                fct_aap = 0
                for l in range(nbaths):
                    gamma_ba_bpap = 0.5*(Vbbp[l, b, a]*Vbbp[l, bp, ap].conjugate() +
                                         Vbbp[l, a, b].conjugate()*Vbbp[l, ap, bp])
                    fct_aap += gamma_ba_bpap*(w1fct[l, bpa, 0].conjugate() - w1fct[l, bap, 0])
''', '''                fct_aap = sum(self._gamma(l, b, a, bp, ap)*(w1fct[l, bpa, 0].conjugate() - w1fct[l, bap, 0])
                              for l in range(nbaths))
'''),
(EN, '''    def generate_coupling_terms(self, b, bp, bcharge):
        Approach1vNBase''', '''    def _gamma(self, l, b, a, bp, ap):
        Vbbp = self.baths.Vbbp
        return 0.5*(Vbbp[l, b, a]*Vbbp[l, bp, ap].conjugate() + Vbbp[l, a, b].conjugate()*Vbbp[l, ap, bp])

    def generate_coupling_terms(self, b, bp, bcharge):
        Approach1vNBase'''),
# 16
(EN, '''            for b, bp in itertools.permutations(statesdm[charge], 2):
                bbp = si.get_ind_dm0(b, bp, charge)
                bbp_bool = si.get_ind_dm0(b, bp, charge, maptype=2)
                if bbp != -1 and bbp_bool:
                    Ebbp = E[b]-E[bp]
''', '''            for b, bp in itertools.permutations(statesdm[charge], 2):
                bbp = si.get_ind_dm0(b, bp, charge)
                if bbp == -1:
                    continue
                if si.get_ind_dm0(b, bp, charge, maptype=2):
                    Ebbp = E[b]-E[bp]
'''),
# 17
(CP, '''            fctm, fctp = 0, 0
            for l in range(nleads):
                fctm -= paulifct[l, ba, 1]
                fctp += paulifct[l, ba, 0]
''', '''            fctm = 0
            fctp = 0
            l = 0
            while l < nleads:
                fctm = fctm - paulifct[l, ba, 1]
                fctp = fctp + paulifct[l, ba, 0]
                l += 1
'''),
# 18
(SP, '''    if x > 709.77: # To avoid overflow in the denimonator.
        return 0.0
    return 1.0/(exp(x)+1.0)
''', '''    # Small exponentials only, to avoid overflow
    cdef double_t e
    if x > 709.77:
        return 0.0
    e = exp(x)
    return 1.0/(1.0+e)
'''),
]
