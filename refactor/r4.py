"""Edits that keep the behaviour: baths, many-body objects, phonon kernels, 2vN terms, RTD blocks (development material)."""
B = 'qmeq/baths.py'
Q = 'qmeq/qdot.py'
L = 'qmeq/leadstun.py'
N2 = 'qmeq/approach/base/neumann2.py'
R = 'qmeq/approach/base/RTD.py'
ER = 'qmeq/approach/elph/redfield.py'
CEP = 'qmeq/approach/elph/c_pauli.pyx'
V = 'qmeq/builder/various.py'
EDITS = [
# 0 the electron-phonon operator: sign from a helper
(B, '''                fsign = np.power(-1, sum(state[0:j2])+sum(state[0:j3])) * (+1 if j2 > j3 else -1)
                statep = list(state)
''', '''                parity = sum(state[0:j2]) + sum(state[0:j3]) + (0 if j2 > j3 else 1)
                fsign = -1 if parity % 2 else 1
                statep = list(state)
'''),
# 1
(B, '''            if j2 == j3:
''', '''            if j3 == j2:
'''),
# 2 common differences in a helper
(B, '''class PhononBaths(object):
''', '''def _differences(new, old):
    """What has to be added to old in order to obtain new; old is updated."""
    add = {}
    for key, value in new.items():
        diff = value - old[key] if key in old else value
        if diff == 0:
            continue
        add[key] = diff
        if key in old:
            old[key] += diff
        else:
            old[key] = diff
    return add


class PhononBaths(object):
'''),
(B, '''            velph_add = {}
            for j0 in velph:
                if j0 in self.velph:
                    velph_diff = velph[j0]-self.velph[j0]
                    if velph_diff != 0:
                        velph_add.update({j0: velph_diff})
                        self.velph[j0] += velph_diff
                else:
                    velph_diff = velph[j0]
                    if velph_diff != 0:
                        velph_add.update({j0: velph_diff})
                        self.velph.update({j0: velph_diff})
''', '''            velph_add = _differences(velph, self.velph)
'''),
# 4
(L, '''            tleads_add = {}
            for j0 in tleads:
                if j0 in self.tleads:
                    tleads_diff = tleads[j0]-self.tleads[j0]
                    if tleads_diff != 0:
                        tleads_add.update({j0: tleads_diff})
                        self.tleads[j0] += tleads_diff
                else:
                    tleads_diff = tleads[j0]
                    if tleads_diff != 0:
                        tleads_add.update({j0: tleads_diff})
                        self.tleads.update({j0: tleads_diff})
''', '''            tleads_add = {}
            for j0 in tleads:
                tleads_diff = tleads[j0]-self.tleads.get(j0, 0)
                if tleads_diff != 0:
                    tleads_add[j0] = tleads_diff
                    self.tleads[j0] = self.tleads.get(j0, 0) + tleads_diff
'''),
# 5
(L, '''                for j0 in tleads:
                    if j0 in self.tleads:
                        self.tleads[j0] += tleads[j0]
                    else:
                        self.tleads.update({j0: tleads[j0]})
''', '''                for key, value in tleads.items():
                    self.tleads[key] = self.tleads[key] + value if key in self.tleads else value
'''),
# 6
(Q, '''        else:
            for charge in range(self.si.ncharge):
                chargelst = self.si.get_lst(charge)
                self.hamlst[charge] = construct_ham_coulomb(self, coulomb, chargelst,
                                                            self.hamlst[charge])
                self.hamlst[charge] = construct_ham_hopping(self, hsingle, chargelst,
                                                            self.hamlst[charge])
''', '''        else:
            for charge in range(self.si.ncharge):
                chargelst = self.si.get_lst(charge)
                ham = construct_ham_coulomb(self, coulomb, chargelst, self.hamlst[charge])
                ham = construct_ham_hopping(self, hsingle, chargelst, ham)
                self.hamlst[charge] = ham
'''),
# 7
(Q, '''                szlow = -(charge % 2)
                szrng = szrange(charge, self.si.nsingle) if self.ham_ssq_q else [szlow]
''', '''                szrng = [-(charge % 2)]
                if self.ham_ssq_q:
                    szrng = szrange(charge, self.si.nsingle)
'''),
# 8
(Q, '''        hsingle_add = {}
        coulomb_add = {}
        # Find the differences from the previous single-particle Hamiltonian
        # and from the previous Coulomb matrix elements
        for j0 in hsingle:
            if j0 in self.hsingle:
                hsingle_diff = hsingle[j0]-self.hsingle[j0]
                if hsingle_diff != 0:
                    hsingle_add.update({j0: hsingle_diff})
                    if updateq:
                        self.hsingle[j0] += hsingle_diff
            else:
                hsingle_diff = hsingle[j0]
                if hsingle_diff != 0:
                    hsingle_add.update({j0: hsingle_diff})
                    if updateq:
                        self.hsingle.update({j0: hsingle_diff})
''', '''        hsingle_add = {}
        coulomb_add = {}
        # Find the differences from the previous single-particle Hamiltonian
        # and from the previous Coulomb matrix elements
        for j0, value in hsingle.items():
            known = j0 in self.hsingle
            hsingle_diff = value-self.hsingle[j0] if known else value
            if hsingle_diff == 0:
                continue
            hsingle_add[j0] = hsingle_diff
            if not updateq:
                continue
            if known:
                self.hsingle[j0] += hsingle_diff
            else:
                self.hsingle[j0] = hsingle_diff
'''),
# 9
(Q, '''            for j2 in range(j1 if herm_hs else 0, nsingle):
''', '''            first = 0
            if herm_hs:
                first = j1
            for j2 in range(first, nsingle):
'''),
# 10
(N2, '''        fb = phi1k[b_idx, l, cb]
        fa = phi1k[a_idx, l, cb]
        u = (fb-fa)/(b-a)*Ek + (b*fa-a*fb)/(b-a)
        u = u.conjugate() if conj else u
        #
        fb = hphi1k[b_idx, l, cb]
        fa = hphi1k[a_idx, l, cb]
        hu = (fb-fa)/(b-a)*Ek + (b*fa-a*fb)/(b-a)
        hu = hu.conjugate() if conj else hu
        return pi*hu, pi*u
''', '''        values = []
        for f in (hphi1k, phi1k):
            fb, fa = f[b_idx, l, cb], f[a_idx, l, cb]
            value = (fb-fa)/(b-a)*Ek + (b*fa-a*fb)/(b-a)
            values.append(pi*(value.conjugate() if conj else value))
        return values[0], values[1]
'''),
# 11
(N2, '''        if Ek < Ek_grid[0] or Ek > Ek_grid[-1]:
            return 0
        #
        b_idx = int((Ek-Ek_grid[0])/(Ek_grid[1]-Ek_grid[0]))+1
        if b_idx == len(Ek_grid):
            b_idx -= 1
        a_idx = b_idx - 1
        b, a = Ek_grid[b_idx], Ek_grid[a_idx]
        #
        fb = hfk[l, b_idx]
        fa = hfk[l, a_idx]
        rez = (fb-fa)/(b-a)*Ek + (b*fa-a*fb)/(b-a)
        return pi*rez if eta+1 else pi*rez.conjugate()
''', '''        if not Ek_grid[0] <= Ek <= Ek_grid[-1]:
            return 0
        #
        step = Ek_grid[1]-Ek_grid[0]
        b_idx = min(int((Ek-Ek_grid[0])/step)+1, len(Ek_grid)-1)
        a_idx = b_idx - 1
        b, a = Ek_grid[b_idx], Ek_grid[a_idx]
        #
        fb, fa = hfk[l, b_idx], hfk[l, a_idx]
        rez = ((fb-fa)*Ek + b*fa-a*fb)/(b-a)
        if eta == -1:
            rez = rez.conjugate()
        return pi*rez
'''),
# 12
(N2, '''                # 3rd term
                for c1 in statesdm[ccharge]:
                    c1b = si.get_ind_dm1(c1, b, bcharge)
                    for d1, l1 in itertools.product(statesdm[dcharge], range(nleads)):
                        # print('3')
                        hu, u = get_at_k1(-(Ek-E[d1]+E[b]), l1, c1b, False)
                        term += +Tba[l1, c, d1]*Tba[l, d1, c1]*fp*(hu + 1j*u)
                # 4th term
                for d1, c1 in itertools.product(statesdm[dcharge], statesdm[ccharge]):
                    # print('4')
                    d1c1 = si.get_ind_dm1(d1, c1, ccharge)
                    for l1 in range(nleads):
                        hu, u = get_at_k1(-(Ek-E[d1]+E[b]), l1, d1c1, False)
                        term += +Tba[l1, c, d1]*(hu + 1j*u)*fm*Tba[l, c1, b]
''', '''                # 3rd and 4th terms
                for d1, c1 in itertools.product(statesdm[dcharge], statesdm[ccharge]):
                    c1b = si.get_ind_dm1(c1, b, bcharge)
                    d1c1 = si.get_ind_dm1(d1, c1, ccharge)
                    energy = E[d1]-E[b]-Ek
                    for l1 in range(nleads):
                        hu, u = get_at_k1(energy, l1, c1b, False)
                        term += Tba[l1, c, d1]*Tba[l, d1, c1]*fp*(hu + 1j*u)
                        hu, u = get_at_k1(energy, l1, d1c1, False)
                        term += fm*Tba[l1, c, d1]*(hu + 1j*u)*Tba[l, c1, b]
'''),
# 13
(R, '''                temp = 0.0
                for lp in range(nleads):
                    if lp != l:
                        mu, Tr, gamma = mulst[lp], tlst[lp], 0.0
                        for n1 in range(nsingle):
                            gamma += Tba[l, b, c] * Tba[lp, b, c].conj() * tleads[l, n1] * tleads[lp, n1].conj()
                        dE = E[c] - E[b]
''', '''                temp = 0.0
                dE = E[c] - E[b]
                for lp in range(nleads):
                    if lp != l:
                        mu, Tr = mulst[lp], tlst[lp]
                        gamma = sum(tleads[l, n1] * tleads[lp, n1].conj() for n1 in range(nsingle))
                        gamma = gamma * Tba[l, b, c] * Tba[lp, b, c].conj()
'''),
# 14
(ER, '''                bpap = si_elph.get_ind_dm0(bp, ap, acharge)
                ba = si_elph.get_ind_dm0(b, a, acharge)
                if bpap == -1 or ba == -1:
                    continue
                fct_aap = 0
                for l in range(nbaths):
                    gamma_ba_bpap = 0.5*(Vbbp[l, b, a]*Vbbp[l, bp, ap].conjugate() +
                                         Vbbp[l, a, b].conjugate()*Vbbp[l, ap, bp])
                    fct_aap += gamma_ba_bpap*(w1fct[l, bpap, 0].conjugate() - w1fct[l, ba, 0])
                kh.set_matrix_element(fct_aap, b, bp, bcharge, a, ap, acharge)
''', '''                bpap = si_elph.get_ind_dm0(bp, ap, acharge)
                ba = si_elph.get_ind_dm0(b, a, acharge)
                if bpap != -1 and ba != -1:
                    fct_aap = 0
                    for l in range(nbaths):
                        V = Vbbp[l]
                        gamma_ba_bpap = (V[b, a]*V[bp, ap].conjugate() + V[a, b].conjugate()*V[ap, bp])/2
                        fct_aap += gamma_ba_bpap*w1fct[l, bpap, 0].conjugate()
                        fct_aap -= gamma_ba_bpap*w1fct[l, ba, 0]
                    kh.set_matrix_element(fct_aap, b, bp, bcharge, a, ap, acharge)
'''),
# 15
(CEP, '''            # The diagonal elements b=bp are excluded, because they do not contribute
            if b == bp:
                continue

            bbp = kh.get_ind_dm0(b, bp, bcharge)
''', '''            bbp = kh.get_ind_dm0(b, bp, bcharge)
            # The diagonal elements b=bp are excluded, because they do not contribute
            if bp == b:
                continue

'''),
]
