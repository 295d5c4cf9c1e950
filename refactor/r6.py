"""Edits that keep the behaviour: Redfield, RTD and 2vN in compiled form, electron-phonon classes, phonon functions, validation (development material)."""
RE = 'qmeq/approach/base/redfield.py'
CR = 'qmeq/approach/base/c_RTD.pyx'
C2 = 'qmeq/approach/base/c_neumann2.pyx'
EP = 'qmeq/approach/elph/pauli.py'
EN = 'qmeq/approach/elph/neumann1.py'
EL = 'qmeq/approach/elph/c_lindblad.pyx'
SE = 'qmeq/specfunc/specfunc_elph.py'
CE = 'qmeq/specfunc/c_specfunc_elph.pyx'
VA = 'qmeq/builder/validation.py'
EDITS = [
# 0 common factor taken out of the sum over leads
(RE, '''                for l in range(nleads):
                    fct_aap += (+ Tba[l, b, a]*Tba[l, ap, bp]*phi1fct[l, bpap, 0].conjugate()
                                - Tba[l, b, a]*Tba[l, ap, bp]*phi1fct[l, ba, 0])
''', '''                for l in range(nleads):
                    tt = Tba[l, b, a]*Tba[l, ap, bp]
                    fct_aap += tt*(phi1fct[l, bpap, 0].conjugate() - phi1fct[l, ba, 0])
'''),
# 1 early continue
(RE, '''        for c, cp in itertools.product(statesdm[ccharge], statesdm[ccharge]):
            if kh.is_included(c, cp, ccharge):
                cpbp = si.get_ind_dm1(cp, bp, bcharge)
                cb = si.get_ind_dm1(c, b, bcharge)
                fct_ccp = 0
                for l in range(nleads):
                    fct_ccp += (+ Tba[l, b, c]*Tba[l, cp, bp]*phi1fct[l, cpbp, 1]
                                - Tba[l, b, c]*Tba[l, cp, bp]*phi1fct[l, cb, 1].conjugate())
                kh.set_matrix_element(fct_ccp, b, bp, bcharge, c, cp, ccharge)
''', '''        for c in statesdm[ccharge]:
            for cp in statesdm[ccharge]:
                if not kh.is_included(c, cp, ccharge):
                    continue
                cpbp, cb = si.get_ind_dm1(cp, bp, bcharge), si.get_ind_dm1(c, b, bcharge)
                fct_ccp = 0
                for l in range(nleads):
                    fct_ccp = fct_ccp + Tba[l, b, c]*Tba[l, cp, bp]*phi1fct[l, cpbp, 1]
                    fct_ccp = fct_ccp - Tba[l, b, c]*Tba[l, cp, bp]*phi1fct[l, cb, 1].conjugate()
                kh.set_matrix_element(fct_ccp, b, bp, bcharge, c, cp, ccharge)
'''),
# 2 current: the amplitude out of the sums
(RE, '''                        phi1[l, cb] += Tba[l, c, bp]*phi0bpb*fct1
                        current_l += Tba[l, b, c]*Tba[l, c, bp]*phi0bpb*fct1
                        energy_current_l += Tba[l, b, c]*Tba[l, c, bp]*phi0bpb*fct1h
''', '''                        amp = Tba[l, c, bp]*phi0bpb
                        phi1[l, cb] += amp*fct1
                        current_l += Tba[l, b, c]*amp*fct1
                        energy_current_l += Tba[l, b, c]*amp*fct1h
'''),
# 3 helper method for one half of a row
(CR, '''        for i in range(acount):
            a = statesdm[acharge, i]
            aa = kh.get_ind_dm0(a, a, acharge)
            ba = kh.get_ind_dm1(b, a, acharge)
            for l in range(nleads):
                fctm = -paulifct[l, ba, 1]
                fctp = paulifct[l, ba, 0]
                kh.set_matrix_element_dd(l, fctm, fctp, bb, aa, 0)
''', '''        for l in range(nleads):
            for i in range(acount):
                a = statesdm[acharge, i]
                ba = kh.get_ind_dm1(b, a, acharge)
                kh.set_matrix_element_dd(l, -paulifct[l, ba, 1], paulifct[l, ba, 0], bb, kh.get_ind_dm0(a, a, acharge), 0)
'''),
# 4 prefactor taken together
(CR, '''                temp = gamma.real * phi((dE - mu) / Tr, dlst[l, 0] / Tr, dlst[l, 1] / Tr)
                temp += gamma.real * phi(-(dE - mu) / Tr, dlst[l, 0] / Tr, dlst[l, 1] / Tr)
                temp *= PI
                kh.set_matrix_element_dd(l, temp, temp, bb, cc, 1)
''', '''                temp = phi((dE - mu) / Tr, dlst[l, 0] / Tr, dlst[l, 1] / Tr) + phi((mu - dE) / Tr, dlst[l, 0] / Tr, dlst[l, 1] / Tr)
                temp = PI * gamma.real * temp
                kh.set_matrix_element_dd(l, temp, temp, bb, cc, 1)
'''),
# 5 weights of the trapezoidal rule
(C2, '''            if i == 0:
              dx = Ek_grid[i+1] - Ek_grid[i]
            elif i == Eklen-1:
              dx = Ek_grid[i] - Ek_grid[i-1]
            else:
              dx = Ek_grid[i+1] - Ek_grid[i-1]
            phi1_phi0 += 0.5*dx*phi1k[i]
            e_phi1_phi0 += 0.5*dx*Ek_grid[i]*phi1k[i]
''', '''            dx = Ek_grid[min(i+1, Eklen-1)] - Ek_grid[max(i-1, 0)]
            weight = 0.5*dx
            phi1_phi0 += weight*phi1k[i]
            e_phi1_phi0 += weight*Ek_grid[i]*phi1k[i]
'''),
# 6 order of the loops over the grid and the leads
(C2, '''            for k in range(Eklen):
                for l in range(nleads):
                    self.phi1k_iterate(k, l, kh)
''', '''            for l in range(nleads):
                for k in range(Eklen):
                    self.phi1k_iterate(k, l, kh)
'''),
# 7 interpolation
(C2, '''        rez = Ek/(b-a)*(fb-fa) + 1/(b-a)*(b*fa-a*fb)

        return pi*rez if eta+1 else pi*rez.conjugate()
''', '''        rez = pi*((Ek-a)*fb + (b-Ek)*fa)/(b-a)
        if eta == -1:
            rez = rez.conjugate()
        return rez
'''),
# 8 conjugation out of the interpolation
(C2, '''            u = u.conjugate() if conj else u

''', '''            if conj:
                u = u.conjugate()

'''),
# 9 the two terms with c1 and b1 in two loops
(C2, '''                    for l1 in range(nleads):
                        # 2nd term
                        self.get_at_k1(+(Ek-E[b1]+E[b]), l1, c1b1, True,
                                       -fm*Tba[l1, c, b1]*Tba[l, c1, b], -1, term)
                        # 5th term
                        self.get_at_k1(+(Ek-E[c]+E[c1]), l1, c1b1, True,
                                       -fp*Tba[l, c, b1]*Tba[l1, c1, b], -1, term)
''', '''                    for l1 in range(nleads):
                        # 2nd term
                        self.get_at_k1(Ek+E[b]-E[b1], l1, c1b1, True,
                                       -(fm*Tba[l1, c, b1])*Tba[l, c1, b], -1, term)
                    for l1 in range(nleads):
                        # 5th term
                        self.get_at_k1(Ek+E[c1]-E[c], l1, c1b1, True,
                                       -(fp*Tba[l, c, b1])*Tba[l1, c1, b], -1, term)
'''),
# 10 phonon rates: two calls of the Bose function in one place
(SE, '''        if Rm < alpha < Rp:
            # Absorption
            self.val = 2*pi*self.bose.eval(alpha)*self.dos.eval(T*alpha)
        elif Rm < -alpha < Rp:
            # Emission
            self.val = 2*pi*(1+self.bose.eval(-alpha))*self.dos.eval(-T*alpha)
        else:
            self.val = 0
''', '''        x = abs(alpha)
        if not Rm < x < Rp:
            self.val = 0
            return
        n = self.bose.eval(x)
        if alpha < 0:
            # Emission
            n = 1 + n
        self.val = 2*pi*n*self.dos.eval(T*x)
'''),
# 11 the same in compiled form
(CE, '''        if Rm < alpha < Rp:
            # Absorption
            self.val = 2*pi*self.bose.eval(alpha)*self.dos.eval(T*alpha)
        elif Rm < -alpha < Rp:
            # Emission
            self.val = 2*pi*(1+self.bose.eval(-alpha))*self.dos.eval(-T*alpha)
        else:
            self.val = 0.
''', '''        self.val = 0.
        if Rm < alpha and alpha < Rp:
            # Absorption
            self.val = 2*pi*self.dos.eval(T*alpha)*self.bose.eval(alpha)
        elif Rm < -alpha and -alpha < Rp:
            # Emission
            self.val = 2*pi*self.dos.eval(-T*alpha)*(1+self.bose.eval(-alpha))
'''),
# 12 principal values in a helper
(SE, '''        elif self.itype == 2:
            self.val0 = -1.0j*pi*self.iplus(alpha) if Rm < alpha < Rp else 0
            self.val1 = -1.0j*pi*self.iminus(alpha) if Rm < alpha < Rp else 0
''', '''        elif self.itype == 2:
            inside = Rm < alpha < Rp
            self.val0, self.val1 = (-1.0j*pi*f(alpha) if inside else 0 for f in (self.iplus, self.iminus))
'''),
# 13 phonon Pauli: sum over the baths outside
(EP, '''            fctm, fctp = 0, 0
            for l in range(nbaths):
                fctm -= paulifct[l, ab]
                fctp += paulifct[l, ba]
            kh.set_matrix_element_pauli(fctm, fctp, bb, aa)
''', '''            for l in range(nbaths):
                kh.set_matrix_element_pauli(-paulifct[l, ab], paulifct[l, ba], bb, aa)
'''),
# 14
(EP, '''                for l in range(nbaths):
                    xbbp = 0.5*(Vbbp[l, b, bp]*Vbbp[l, b, bp].conjugate() +
                                Vbbp[l, bp, b].conjugate()*Vbbp[l, bp, b]).real
                    func_pauli.eval(Ebbp, l)
                    paulifct[l, bbp] = xbbp*func_pauli.val
''', '''                for l in range(nbaths):
                    func_pauli.eval(Ebbp, l)
                    v1, v2 = Vbbp[l, b, bp], Vbbp[l, bp, b]
                    xbbp = (v1*v1.conjugate()).real + (v2.conjugate()*v2).real
                    paulifct[l, bbp] = 0.5*xbbp*func_pauli.val
'''),
# 15
(EN, '''        for l in range(nbaths):
            func_1vN_elph.eval(0., l)
            for charge in range(ncharge):
                for b in statesdm[charge]:
                    bb = si.get_ind_dm0(b, b, charge)
                    bb_bool = si.get_ind_dm0(b, b, charge, maptype=2)
                    if bb != -1 and bb_bool:
                        w1fct[l, bb, 0] = func_1vN_elph.val0 - 0.5j*func_1vN_elph.val0.imag
                        w1fct[l, bb, 1] = func_1vN_elph.val1 - 0.5j*func_1vN_elph.val1.imag
''', '''        for l in range(nbaths):
            func_1vN_elph.eval(0., l)
            val0, val1 = func_1vN_elph.val0, func_1vN_elph.val1
            val0, val1 = val0 - 0.5j*val0.imag, val1 - 0.5j*val1.imag
            for charge in range(ncharge):
                for b in statesdm[charge]:
                    bb = si.get_ind_dm0(b, b, charge)
                    if bb == -1 or not si.get_ind_dm0(b, b, charge, maptype=2):
                        continue
                    w1fct[l, bb, 0], w1fct[l, bb, 1] = val0, val1
'''),
# 16 root of the rate once
(EL, '''                    func_pauli.eval(Ebbp, l)
                    tLbbp[l, b, bp, 0] = sqrt(0.5*func_pauli.val)*Vbbp[l, b, bp]
                    tLbbp[l, b, bp, 1] = sqrt(0.5*func_pauli.val)*Vbbp[l, bp, b].conjugate()
''', '''                    func_pauli.eval(Ebbp, l)
                    root = sqrt(0.5*func_pauli.val)
                    tLbbp[l, b, bp, 0] = root*Vbbp[l, b, bp]
                    tLbbp[l, b, bp, 1] = root*Vbbp[l, bp, b].conjugate()
'''),
# 17 the kinds of jumps outside of the baths
(EL, '''                for l in range(nbaths):
                    for q in range(2):
                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, ap, q].conjugate()
                kh.set_matrix_element(1j*fct_aap, b, bp, bcharge, a, ap, acharge)
''', '''                for q in range(2):
                    for l in range(nbaths):
                        fct_aap = fct_aap + tLbbp[l, bp, ap, q].conjugate()*tLbbp[l, b, a, q]
                fct_aap = 1j*fct_aap
                kh.set_matrix_element(fct_aap, b, bp, bcharge, a, ap, acharge)
'''),
# 18 a factor taken out of the sum
(EL, '''                        for q in range(2):
                            fct_bppbp += -0.5*tLbbp[l, a, b, q].conjugate()*tLbbp[l, a, bpp, q]
                kh.set_matrix_element(1j*fct_bppbp, b, bp, bcharge, bpp, bp, bcharge)
''', '''                        for q in range(2):
                            fct_bppbp += tLbbp[l, a, b, q].conjugate()*tLbbp[l, a, bpp, q]
                kh.set_matrix_element(-0.5j*fct_bppbp, b, bp, bcharge, bpp, bp, bcharge)
'''),
# 19 validation
(VA, '''    if itype_ph not in {0, 2}:
        print("WARNING: itype_ph needs to be 0, or 2. Using default itype=0.")
        itype_ph = 0
    return itype_ph
''', '''    if itype_ph in (0, 2):
        return itype_ph
    print("WARNING: itype_ph needs to be 0, or 2. Using default itype=0.")
    return 0
'''),
# 20
(VA, '''    if indexing != 'charge' and kerntype in {'pyRTD', 'RTD'}:
''', '''    if kerntype in {'pyRTD', 'RTD'} and indexing != 'charge':
'''),
]
