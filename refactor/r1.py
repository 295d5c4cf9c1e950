"""Edits that keep the behaviour (development material: the checks must stay quiet on the edited tree).
EDITS = [(file, old, new)]"""
EDITS = [
('qmeq/approach/base/pauli.py', '''            fctm, fctp = 0, 0
            for l in range(nleads):
                fctm -= paulifct[l, ba, 1]
                fctp += paulifct[l, ba, 0]
            kh.set''', '''            fctm = -sum(paulifct[l, ba, 1] for l in range(nleads))
            fctp = sum(paulifct[l, ba, 0] for l in range(nleads))
            kh.set'''),
('qmeq/approach/base/pauli.py', '''            fctm, fctp = 0, 0
            for l in range(nleads):
                fctm -= paulifct[l, cb, 0]
                fctp += paulifct[l, cb, 1]
            kh.set''', '''            fctm = -np.sum(paulifct[:, cb, 0])
            fctp = paulifct[:, cb, 1].sum()
            kh.set'''),
('qmeq/approach/base/pauli.py', '''                        fct1 = +phi0[bb]*paulifct[l, cb, 0]
                        fct2 = -phi0[cc]*paulifct[l, cb, 1]
                        current[l] += fct1 + fct2
                        energy_current[l] += -(E[b]-E[c])*(fct1 + fct2)
''', '''                        flow = phi0[bb]*paulifct[l, cb, 0] - phi0[cc]*paulifct[l, cb, 1]
                        current[l] += flow
                        energy_current[l] += (E[c]-E[b])*flow
'''),
('qmeq/approach/base/pauli.py', '''        self.heat_current[:] = energy_current - current*self.leads.mulst
''', '''        for l, mu in enumerate(self.leads.mulst):
            self.heat_current[l] = energy_current[l] - mu*current[l]
'''),
('qmeq/approach/base/pauli.py', '''                for l in range(nleads):
                    xcb = (Tba[l, b, c]*Tba[l, c, b]).real
                    rez = func_pauli(Ecb, mulst[l], tlst[l], dlst[l, 0], dlst[l, 1], itype)
                    paulifct[l, cb, 0] = xcb*rez[0]
                    paulifct[l, cb, 1] = xcb*rez[1]
''', '''                for l in range(nleads):
                    cur_in, cur_out = func_pauli(Ecb, mulst[l], tlst[l], *dlst[l], itype)
                    strength = (Tba[l, b, c]*Tba[l, c, b]).real
                    paulifct[l, cb] = strength*cur_in, strength*cur_out
'''),
('qmeq/approach/base/lindblad.py', '''                fct_aap = 0
                for l in range(nleads):
                    fct_aap += tLba[l, b, a]*tLba[l, bp, ap].conjugate()
                kh''', '''                fct_aap = (tLba[:, b, a]*tLba[:, bp, ap].conjugate()).sum()
                kh'''),
('qmeq/approach/base/lindblad.py', '''                fct_ccp = 0
                for l in range(nleads):
                    fct_ccp += tLba[l, b, c]*tLba[l, bp, cp].conjugate()
                kh''', '''                fct_ccp = np.vdot(tLba[:, bp, cp], tLba[:, b, c])
                kh'''),
('qmeq/approach/base/neumann1.py', '''                fct_aap = 0
                for l in range(nleads):
                    fct_aap += (+ Tba[l, b, a]*Tba[l, ap, bp]*phi1fct[l, bpa, 0].conjugate()
                                - Tba[l, b, a]*Tba[l, ap, bp]*phi1fct[l, bap, 0])
''', '''                fct_aap = 0
                for l in range(nleads):
                    amplitude = Tba[l, b, a]*Tba[l, ap, bp]
                    fct_aap += amplitude*(np.conj(phi1fct[l, bpa, 0]) - phi1fct[l, bap, 0])
'''),
('qmeq/approach/base/neumann1.py', '''                    phi1[l, cb] += phi1_l
                    current[l] += -2*current_l.imag
                    energy_current[l] += -2*energy_current_l.imag
''', '''                    phi1[l, cb] = phi1[l, cb] + phi1_l
                    current[l] -= 2*np.imag(current_l)
                    energy_current[l] -= 2*np.imag(energy_current_l)
'''),
('qmeq/approach/kernel_handler.py', '''        bbp_bool = self.si.get_ind_dm0(b, bp, bcharge, maptype=2)
        return bbp_bool
''', '''        return self.si.get_ind_dm0(b, bp, bcharge, maptype=2)

    def _imag_index(self, ind):
        """Place of the imaginary part of an element, None for a population."""
        return ind + self.ndm0 - self.npauli if ind >= self.npauli else None
'''),
('qmeq/approach/kernel_handler.py', '''        bbpi = self.ndm0 + bbp - self.npauli
        bbpi_bool = True if bbpi >= self.ndm0 else False

        if bbpi_bool:
            self.kern[bbp, bbpi] = self.kern[bbp, bbpi] + energy
            self.kern[bbpi, bbp] = self.kern[bbpi, bbp] - energy
''', '''        bbpi = self._imag_index(bbp)

        if bbpi is not None:
            self.kern[bbp, bbpi] += energy
            self.kern[bbpi, bbp] -= energy
'''),
('qmeq/approach/aprclass.py', '''                if not (kh.is_included(b, bp, bcharge) and kh.is_unique(b, bp, bcharge)):
                    continue
                kh.set_energy(E[b]-E[bp], b, bp, bcharge)
                self.generate_coupling_terms(b, bp, bcharge)
''', '''                if kh.is_included(b, bp, bcharge) and kh.is_unique(b, bp, bcharge):
                    self._generate_element(E[b]-E[bp], b, bp, bcharge)

    def _generate_element(self, energy, b, bp, bcharge):
        self.kernel_handler.set_energy(energy, b, bp, bcharge)
        self.generate_coupling_terms(b, bp, bcharge)
'''),
('qmeq/approach/aprclass.py', '''        # Replace one equation by the normalisation condition
        if symq:
            replaced_eq[:] = kern[norm_row]
            kern[norm_row] = self.norm_vec
            bvec[norm_row] = 1
        else:
            kern[-1] = self.norm_vec
            bvec[-1] = 1
''', '''        # Replace one equation by the normalisation condition
        row = norm_row if symq else -1
        if symq:
            replaced_eq[:] = kern[row]
        kern[row] = self.norm_vec
        bvec[row] = 1
'''),
('qmeq/builder/various.py', '''    phi0bbp = 0.0
    # States which are not considered have no density matrix elements
    if not (b in self.si.statesdm[bcharge] and bp in self.si.statesdm[bpcharge]):
        return phi0bbp
''', '''    # States which are not considered have no density matrix elements
    if b not in self.si.statesdm[bcharge] or bp not in self.si.statesdm[bpcharge]:
        return 0.0
    phi0bbp = 0.0
'''),
('qmeq/builder/various.py', '''        if ccharge == bcharge+1:
            ind = self.si.get_ind_dm1(c, b, bcharge)
            phi1cb = self.phi1[l, ind]
        elif ccharge+1 == bcharge:
            ind = self.si.get_ind_dm1(b, c, ccharge)
            phi1cb = self.phi1[l, ind].conjugate()
        return phi1cb
''', '''        if ccharge-bcharge == 1:
            return self.phi1[l, self.si.get_ind_dm1(c, b, bcharge)]
        if bcharge-ccharge == 1:
            return np.conj(self.phi1[l, self.si.get_ind_dm1(b, c, ccharge)])
        return phi1cb
'''),
('qmeq/builder/various.py', '''    Emax = min(self.qd.Ea)+dE
    statesdm = [[] for _ in range(self.si.ncharge)]
    for charge in range(self.si.ncharge):
        for b in self.si.chargelst[charge]:
            if self.qd.Ea[b] < Emax:
                statesdm[charge].append(b)
    self.si.set_statesdm(statesdm)
''', '''    Ea = self.qd.Ea
    Emax = min(Ea)+dE
    self.si.set_statesdm([[b for b in states if Ea[b] < Emax]
                          for states in self.si.chargelst])
'''),
('qmeq/builder/various.py', '''    ind, count = 0, 0
    for i in range(len(indlst)):
        if indlst[i] == ind:
            indlst[i] = count
        else:
            count += 1
            ind = indlst[i]
            indlst[i] = count
''', '''    count = -1
    last = None
    for i, ind in enumerate(list(indlst)):
        if ind != last:
            count, last = count+1, ind
        indlst[i] = count
'''),
('qmeq/leadstun.py', '''            for j0 in tleads:
                if j0 in self.tleads:
                    tleads_diff = tleads[j0]-self.tleads[j0]
                    if tleads_diff != 0:
                        tleads_add.update({j0: tleads_diff})
                        self.tleads[j0] += tleads_diff
                else:
                    tleads_diff = tleads[j0]
                    if tleads_diff != 0:
                        tleads_add.update({j0: tleads_diff})
                        self.tleads.update({j0: tleads_diff})
''', '''            for j0, value in tleads.items():
                difference = value-self.tleads.get(j0, 0)
                if difference != 0:
                    tleads_add[j0] = difference
                    self.tleads[j0] = value
'''),
('qmeq/specfunc/specfunc.py', '''    if itype == 1 or itype == 3 or (Rm < alpha < Rp):
        cur0 = fermi_func(alpha)
        cur1 = 1-cur0
        rez = 2*pi*np.array([cur0, cur1])
    else:
        rez = np.zeros(2)
    return rez
''', '''    infinite_band = itype in (1, 3)
    if not infinite_band and not (Rm < alpha < Rp):
        return np.zeros(2)
    f = fermi_func(alpha)
    return np.array([2*pi*f, 2*pi*(1-f)])
'''),
('qmeq/qdot.py', '''                fsign = np.power(-1, sum(state[0:k])+sum(state[0:l])) * (-1 if k > l else +1)
''', '''                fsign = (-1)**(sum(state[:k])+sum(state[:l]))
                if k > l:
                    fsign = -fsign
'''),
('qmeq/qdot.py', '''                    if herm_c and (m != l or n != k) and not (m_less_n and l > k):
                        ham''', '''                    is_diagonal = m == l and n == k
                    if herm_c and not is_diagonal and (not m_less_n or l <= k):
                        ham'''),
('qmeq/builder/builder_base.py', '''        statesdm = [[] for _ in range(ncharge)]
        for i in range(nmany):
            statesdm[Na[i]-nmin].append(i)

        self.Na''', '''        statesdm = [[i for i in range(nmany) if Na[i] == nmin+q] for q in range(ncharge)]

        self.Na'''),
('qmeq/indexing.py', '''            add_elem(counter, b''', None),
('qmeq/approach/base/RTD.py', '''            Wcorr[l, :, :] += np.matmul(np.matmul(kh.ReWdn[l, :, :], kh.Lnn[:, :]),
                                        np.sum(kh.ImWnd[:, :], 0))
            Wcorr[l, :, :] += np.matmul(np.matmul(kh.ImWdn[l, :, :], kh.Lnn[:, :]),
                                        np.sum(kh.ReWnd[:, :], 0))
''', '''            Wcorr[l] = kh.ReWdn[l] @ kh.Lnn @ kh.ImWnd.sum(axis=0)
            Wcorr[l] += kh.ImWdn[l] @ kh.Lnn @ kh.ReWnd.sum(axis=0)
'''),
('qmeq/approach/base/c_pauli.pyx', None, None),
('qmeq/approach/base/c_lindblad.pyx', '''                current[l] += current_l.real
''', None),
('qmeq/approach/base/c_lindblad.pyx', '''                        for k in range(acount):
                            a = statesdm[acharge, k]
                            fcta = tLba[l, a, b]*phi0bbp*tLba[l, a, bp].conjugate()
                            current_l += -fcta
                            energy_current_l += (E[a]-0.5*(E[b]+E[bp]))*fcta
''', '''                        for k in range(acount):
                            a = statesdm[acharge, k]
                            fcta = phi0bbp*tLba[l, a, b]*tLba[l, a, bp].conjugate()
                            current_l = current_l - fcta
                            energy_current_l = energy_current_l + (E[a]-0.5*E[b]-0.5*E[bp])*fcta
'''),
('qmeq/approach/base/c_redfield.pyx', '''                    phi1_l += Tba[l, c, bp]*phi0bpb*fct1
                    current_l += Tba[l, b, c]*Tba[l, c, bp]*phi0bpb*fct1
                    energy_current_l += Tba[l, b, c]*Tba[l, c, bp]*phi0bpb*fct1h
''', '''                    amplitude = Tba[l, c, bp]*phi0bpb
                    phi1_l += amplitude*fct1
                    current_l += Tba[l, b, c]*amplitude*fct1
                    energy_current_l += Tba[l, b, c]*amplitude*fct1h
'''),
('qmeq/approach/base/c_redfield.pyx', 'cdef complex_t fct1, fct2', 'cdef complex_t amplitude, fct1, fct2'),
('qmeq/specfunc/c_specfunc.pyx', '''        cur0 = -1.0j*pi*fermi_func(alpha)
        cur1 = cur0 + 1.0j*pi
        en0 = Ecb*cur0
        en1 = Ecb*cur1
    # ---''', '''        cur0 = -1.0j*pi*fermi_func(alpha)
        cur1 = 1.0j*pi*(1.0-fermi_func(alpha))
        en0 = Ecb*cur0
        en1 = Ecb*cur1
    # ---'''),
]
EDITS = [e for e in EDITS if e[1] and e[2] is not None]
