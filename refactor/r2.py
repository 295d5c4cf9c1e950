"""Edits that keep the behaviour: qdot, leadstun, indexing (development material, see r1.py)."""
EDITS = [
# 0 nested function instead of inline sign
('qmeq/qdot.py', '''def construct_ham_hopping(qd, hsingle, statelst, ham_=None):
''', '''def _hop_sign(state, j2, j3):
    """Sign acquired when an electron is moved from j2 to j3."""
    sign = (-1)**(sum(state[:j2]) + sum(state[:j3]))
    return sign if j2 > j3 else -sign


def construct_ham_hopping(qd, hsingle, statelst, ham_=None):
'''),
('qmeq/qdot.py', '''                fsign = np.power(-1, sum(state[0:j2])+sum(state[0:j3])) * (+1 if j2 > j3 else -1)
''', '''                fsign = _hop_sign(state, j2, j3)
'''),
('qmeq/qdot.py', '''    for j1 in range(nstates):
        state = si.get_state(statelst[j1])
        # Iterate over single particle Hamiltonian
        for j0 in hsingle:
            (j2, j3), hop = j0, hsingle[j0]
            if j2 == j3:
''', '''    for j1, label in enumerate(statelst):
        state = si.get_state(label)
        # Iterate over single particle Hamiltonian
        for (j2, j3), hop in hsingle.items():
            if j2 == j3:
'''),
# 3
('qmeq/qdot.py', '''            for ind in range(len(si.chargelst[charge])):
                Ea[si.chargelst[charge][ind]] = valslst[charge][ind]
''', '''            for ind, state in enumerate(si.chargelst[charge]):
                Ea[state] = valslst[charge][ind]
'''),
# 4
('qmeq/qdot.py', '''        state = si.get_state(states[j1])
        for j2 in range(int(si.nsingle/2)):
            if state[j2] == 1 and state[dind+j2] == 0:
                fsign = np.power(-1, sum(state[0:j2])+sum(state[0:dind+j2])+1)
''', '''        state = si.get_state(states[j1])
        for j2 in range(dind):
            if state[j2] == 1 and state[dind+j2] == 0:
                fsign = (-1)**(sum(state[j2:dind+j2])+1)
'''),
# 5
('qmeq/leadstun.py', '''            # Calculate fermion sign for added/removed electron in a given state
            fsign = np.power(-1, sum(state[0:j2]))
            if state[j2] == 0:
                statep = list(state)
                statep[j2] = 1
                ind = si.get_ind(statep)
                if ind is None:
                    continue
                Tba[j3, ind, j1] += fsign*tamp
            else:
                statep = list(state)
                statep[j2] = 0
                ind = si.get_ind(statep)
                if ind is None:
                    continue
                Tba[j3, ind, j1] += fsign*np.conj(tamp)
''', '''            statep = list(state)
            statep[j2] = 1 - statep[j2]
            ind = si.get_ind(statep)
            if ind is None:
                continue
            # Fermion sign for added/removed electron in a given state
            fsign = np.power(-1, sum(state[0:j2]))
            amplitude = tamp if state[j2] == 0 else np.conj(tamp)
            Tba[j3, ind, j1] += fsign*amplitude
'''),
# 6
('qmeq/leadstun.py', '''            (j3, j2), tamp = j0, tleads[j0]
''', '''            j3, j2 = j0
            tamp = tleads[j0]
'''),
# 7
('qmeq/leadstun.py', '''        for j1 in range(nleads):
            for j2 in range(nsingle):
                if tleads[j1, j2] != 0 or add_zeros:
                    tleads_dict.update({(j1, j2): tleads[j1, j2]})
''', '''        for j1, j2 in itertools.product(range(nleads), range(nsingle)):
            value = tleads[j1, j2]
            if add_zeros or value != 0:
                tleads_dict[(j1, j2)] = value
'''),
# 8
('qmeq/leadstun.py', '''        tleads_dict_spin = dict(tleads_dict)
        for j0 in tleads_dict:
            j1, j2 = j0
            tamp = tleads_dict[j0]
            tleads_dict_spin.update({(j1+si.nleads_sym,
                                      j2+si.nsingle_sym): tamp})
        return tleads_dict_spin
''', '''        tleads_dict_spin = dict(tleads_dict)
        for (j1, j2), tamp in tleads_dict.items():
            tleads_dict_spin[(j1+si.nleads_sym, j2+si.nsingle_sym)] = tamp
        return tleads_dict_spin
'''),
# 9
('qmeq/leadstun.py', '''    if isinstance(dlst, numbers.Number):
        lst_arr[:, 0] = -dlst*np.ones(npar, dtype=doublenp)
        lst_arr[:, 1] = +dlst*np.ones(npar, dtype=doublenp)
    elif isinstance(dlst, dict):
        for j1 in dlst:
            if isinstance(dlst[j1], numbers.Number):
                lst_arr[j1] = (-dlst[j1], dlst[j1])
            else:
                lst_arr[j1] = dlst[j1]
''', '''    if isinstance(dlst, numbers.Number):
        lst_arr[:, 0] = -dlst
        lst_arr[:, 1] = dlst
    elif isinstance(dlst, dict):
        for j1, band in dlst.items():
            lst_arr[j1] = (-band, band) if isinstance(band, numbers.Number) else band
'''),
# 10
('qmeq/indexing.py', '''        if maptype == 0:
            return (self.lenlst[charge]*self.dictdm[b] + self.dictdm[bp]
                    + self.shiftlst0[charge])
        elif maptype == 1:
            return (self.mapdm0[self.lenlst[charge]*self.dictdm[b] + self.dictdm[bp]
                    + self.shiftlst0[charge]])
        elif maptype == 2:
            return (self.booldm0[self.lenlst[charge]*self.dictdm[b] + self.dictdm[bp]
                    + self.shiftlst0[charge]])
        elif maptype == 3:
            return (self.conjdm0[self.lenlst[charge]*self.dictdm[b] + self.dictdm[bp]
                    + self.shiftlst0[charge]])

    def get_ind_dm1(self, c, b, bcharge):
        """
        Get the index of first order density matrix element.

        Parameters
        ----------
        c,b : int
            Indices of many-body states differing by single charge, charge(c)>charge(b).
        bcharge : int
            Charge of many-body state b.

        Returns
        -------
        int
            Index of the first order density matrix element.
        """
        # l = len(self.statesdm[charge])
        # i = self.dictdm[c]
        # j = self.dictdm[b]
        # shiftas = self.shiftlst1[charge]
        # print('index is', l*i + j + shiftas)
        #       b
        #     -----
        #   c |   |
        #     -----
        return self.lenlst[bcharge]*self.dictdm[c] + self.dictdm[b] + self.shiftlst1[bcharge]
''', '''        ind = self._position(b, bp, charge) + self.shiftlst0[charge]
        if maptype == 0:
            return ind
        if maptype == 1:
            return self.mapdm0[ind]
        if maptype == 2:
            return self.booldm0[ind]
        if maptype == 3:
            return self.conjdm0[ind]

    def _position(self, b, bp, charge):
        """Position in a block, row by row."""
        return self.lenlst[charge]*self.dictdm[b] + self.dictdm[bp]

    def get_ind_dm1(self, c, b, bcharge):
        """
        Get the index of first order density matrix element.
        """
        return self._position(c, b, bcharge) + self.shiftlst1[bcharge]
'''),
# 11
('qmeq/indexing.py', '''        self.statesdm = list(statesdm)
        self.statesdm.append([])
        self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
        for j1 in range(self.ncharge):
            self.npauli_ += len(statesdm[j1])
            self.ndm0_ += len(statesdm[j1])**2
            if j1 < self.ncharge-1:
                self.ndm1_ += len(statesdm[j1])*len(statesdm[j1+1])
        self.set_dictdm()

        self.states_changed = True

    def set_dictdm(self):
        """
        Makes dictdm, shiftlst0, and shiftlst1 necessary for density-matrix element indexing.
        """
        for j1 in range(self.ncharge):
''', '''        self.statesdm = list(statesdm) + [[]]
        self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
        for j1 in range(self.ncharge):
            n = len(statesdm[j1])
            self.npauli_ += n
            self.ndm0_ += n*n
            if j1 + 1 < self.ncharge:
                self.ndm1_ += n*len(statesdm[j1+1])
        self.set_dictdm()

        self.states_changed = True

    def set_dictdm(self):
        """
        Makes dictdm, shiftlst0, and shiftlst1 necessary for density-matrix element indexing.
        """
        for j1 in range(self.ncharge):
'''),
# 12
('qmeq/indexing.py', '''        def add_elem(counter, b, bp, charge, dictq=True, conjq=True):
            bbp = self.get_ind_dm0(b, bp, charge, maptype=0)
            self.mapdm0[bbp] = counter
            self.booldm0[bbp] = dictq
            self.conjdm0[bbp] = conjq
            if dictq:
                self.inddm0.update({counter: (b, bp)})
            return counter+1
        #
        self.mapdm0 = np.ones(self.ndm0_, dtype=longnp)*(-1)
''', '''        def add_elem(counter, b, bp, charge, dictq=True, conjq=True):
            if dictq:
                self.inddm0[counter] = (b, bp)
            ind = self.get_ind_dm0(b, bp, charge, 0)
            self.conjdm0[ind] = conjq
            self.booldm0[ind] = dictq
            self.mapdm0[ind] = counter
            return counter+1
        #
        self.mapdm0 = np.full(self.ndm0_, -1, dtype=longnp)
'''),
# 13
('qmeq/indexing.py', '''            for b, bp in itertools.combinations(self.statesdm[charge], 2):
                if self.indexing == 'sz':
                    if self.ind_qn[b][1] == self.ind_qn[bp][1]:
                        add_elem(counter, bp, b, charge, dictq=False, conjq=False)
                        counter = add_elem(counter, b, bp, charge)
''', '''            for b, bp in itertools.combinations(self.statesdm[charge], 2):
                if self.indexing == 'sz':
                    if self.ind_qn[b][1] != self.ind_qn[bp][1]:
                        continue
                    add_elem(counter, bp, b, charge, dictq=False, conjq=False)
                    counter = add_elem(counter, b, bp, charge)
'''),
# 14
('qmeq/indexing.py', '''                    if b_ssq == -b_sz:
                        add_elem(counter, b, b, charge)
                        for sz in range(b_sz+2, b_ssq+1, 2):
                            b1 = self.qn_ind[(b_ch,  sz, b_ssq,  b_alpha)]
                            add_elem(counter, b1, b1, charge, dictq=False)
                        counter = counter+1
                else:
                    counter = add_elem(counter, b, b, charge)
        self.npauli = counter
        # Off-diagonal density matrix elements
''', '''                    if b_ssq != -b_sz:
                        continue
                    add_elem(counter, b, b, charge)
                    for sz in range(b_sz+2, b_ssq+1, 2):
                        b1 = self.qn_ind[(b_ch,  sz, b_ssq,  b_alpha)]
                        add_elem(counter, b1, b1, charge, dictq=False)
                    counter += 1
                else:
                    counter = add_elem(counter, b, b, charge)
        self.npauli = counter
        # Off-diagonal density matrix elements
'''),
]
