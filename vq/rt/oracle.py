"""Independent second-quantisation oracle (Jordan-Wigner matrices, no code of qmeq)."""
import numpy as np


class Fock:
    """Operators over occupation vectors; the vector of integer label v has bit string format(v, '0nb')."""
    def __init__(self, n):
        self.n = n
        N = 2 ** n
        self.N = N
        self.vecs = [[(v >> (n - 1 - j)) & 1 for j in range(n)] for v in range(N)]
        self.index = {tuple(x): i for i, x in enumerate(self.vecs)}
        self.c = []
        for j in range(n):
            m = np.zeros((N, N))
            for i, x in enumerate(self.vecs):
                if x[j]:
                    y = list(x)
                    y[j] = 0
                    m[self.index[tuple(y)], i] = (-1) ** sum(x[:j])
            self.c.append(m)
        self.cd = [m.T for m in self.c]
        self.charge = np.array([sum(x) for x in self.vecs])
        h = n // 2
        self.sz = np.array([sum(x[:h]) - sum(x[h:2 * h]) for x in self.vecs]) if n % 2 == 0 else None
        if n % 2 == 0:
            sp = np.zeros((N, N))
            for j in range(h):
                sp = sp + self.cd[j] @ self.c[j + h]
            szm = np.diag(self.sz / 2.)
            # S^2 in units where the eigenvalue is s(s+1)
            self.s2 = 0.5 * (sp @ sp.T + sp.T @ sp) + szm @ szm
            self.sp = sp

    def hamiltonian(self, h, u, herm_hs, herm_c, m_less_n):
        """h[(i, j)]: amplitude of c+_j c_i; u[(m,n,k,l)]: amplitude of c+_m c+_n c_k c_l."""
        H = np.zeros((self.N, self.N), dtype=complex)
        for (i, j), a in h.items():
            H += a * (self.cd[j] @ self.c[i])
            if herm_hs and i != j:
                H += np.conj(a) * (self.cd[i] @ self.c[j])
        for (m, n, k, l), a in u.items():
            H += a * (self.cd[m] @ self.cd[n] @ self.c[k] @ self.c[l])
            if herm_c and not (m == l and n == k) and not (m_less_n and l > k):
                H += np.conj(a) * (self.cd[l] @ self.cd[k] @ self.c[n] @ self.c[m])
        return H

    def tunnelling(self, nleads, t):
        """Electron enters orbital i from lead l with amplitude t[(l, i)]."""
        T = np.zeros((nleads, self.N, self.N), dtype=complex)
        for (l, i), a in t.items():
            T[l] += a * self.cd[i] + np.conj(a) * self.c[i]
        return T

    def phonon(self, nbaths, v):
        """v[(bath, i, j)]: amplitude of c+_i c_j."""
        V = np.zeros((nbaths, self.N, self.N), dtype=complex)
        for (b, i, j), a in v.items():
            V[b] += a * (self.cd[i] @ self.c[j])
        return V

    def labels(self, si):
        """Row of the oracle's basis for every many-body label of the code."""
        return [self.index[tuple(si.get_state(k))] for k in range(si.nmany)]
