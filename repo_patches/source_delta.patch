From 416dfd8472388dc441cf8c9db19dd087d3594a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 01/26] fix: get_phi0/get_phi1 use the kerntype of the
 approach, not the FunctionProperties default

FunctionProperties is built without kerntype, so the Pauli branch was never
taken and get_phi0 indexed past phi0 for the Pauli and RTD approaches.
---
 qmeq/builder/various.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 18ed2c6..42e6503 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -104,7 +104,7 @@ def get_phi0(self, b_, bp_):
     bcharge = sum(self.si.get_state(b))
     bpcharge = sum(self.si.get_state(bp))
     phi0bbp = 0.0
-    if self.funcp.kerntype == 'Pauli':
+    if self.kerntype in {'Pauli', 'pyPauli', 'RTD', 'pyRTD'}:
         if b == bp:
             ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
             phi0bbp = self.phi0[ind]
@@ -141,7 +141,7 @@ def get_phi1(self, l, c_, b_):
     phi0bbp : complex
         A matrix element of the reduced density matrix (complex number).
     """
-    if self.funcp.kerntype == 'Pauli':
+    if self.kerntype in {'Pauli', 'pyPauli', 'RTD', 'pyRTD'}:
         return None
     else:
         c = self.si.states_order[c_]
-- 
2.43.0


From 9c725cf915f57ace92ad279e6c1f7f59cc966a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 02/26] fix: repeated remove_fock_states with 'Lin' indexing

After the first removal chargelst no longer holds Lin indices, so a second call
removed the wrong states or raised IndexError.
---
 qmeq/indexing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 0a9f834..3e63b90 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -625,7 +625,8 @@ class StateIndexing(object):
             self.removed_fock_states[ind] = True
         self.nmany = self.nmany_ - sum(self.removed_fock_states)
 
-        chargelst_lin = self.chargelst if self.indexing == 'Lin' else self.chargelst_lin
+        chargelst_lin = (construct_chargelst(self.nsingle) if self.indexing == 'Lin'
+                         else self.chargelst_lin)
         ncharge = self.ncharge
         for charge in range(ncharge):
             charge_states = []
-- 
2.43.0


From ac874c6a2f13979a6a32dd744065a270e2b536f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 03/26] fix: keep tleads_array and Tba0 consistent with tleads
 in change and update_Tba0

change() left tleads_array (used by the RTD approach) stale; update_Tba0 used the
raw input instead of the processed tleads dictionary.
---
 qmeq/leadstun.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 41622c7..d8ff67c 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -507,6 +507,7 @@ class LeadsTunneling(object):
                     if tleads_diff != 0:
                         tleads_add.update({j0: tleads_diff})
                         self.tleads.update({j0: tleads_diff})
+            self.tleads_array = make_tleads_array(self.tleads, self.si)
             # Add the differences
             self.add(tleads_add, updateq=False, lstq=False)
 
@@ -547,6 +548,6 @@ class LeadsTunneling(object):
         si.nleads = nleads
         si.nleads_sym = nleads//2 if si.symmetry == 'spin' else nleads
         self.tleads = make_tleads_dict(tleads, si)
-        self.tleads_array = make_tleads_array(tleads, self.si)
+        self.tleads_array = make_tleads_array(self.tleads, self.si)
         self.mtype = mtype
-        self.Tba0 = construct_Tba(self, tleads)
+        self.Tba0 = construct_Tba(self, self.tleads)
-- 
2.43.0


From ccda83cc6e264d81d5e51c8dd5d96c37a6c491ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 04/26] fix: compare symmetry with == instead of identity

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 38bb530..81cc39a 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -164,7 +164,7 @@ def make_velph_dict(velph, si, add_zeros=False):
     else:
         velph_dict = {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         velph_dict_spin = dict(velph_dict)
         for j0 in velph_dict:
             j1, j2, j3 = j0
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index d8ff67c..e630061 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -284,7 +284,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
     else:
         return {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         tleads_dict_spin = dict(tleads_dict)
         for j0 in tleads_dict:
             j1, j2 = j0
@@ -356,7 +356,7 @@ def make_array(lst_old, lst, si, npar=None, use_symmetry=True):
     else:
         lst_arr = np.zeros(npar, dtype=doublenp)
     #
-    if si.symmetry is 'spin' and use_symmetry:
+    if si.symmetry == 'spin' and use_symmetry:
         return np.concatenate((lst_arr, lst_arr))
     else:
         return lst_arr
-- 
2.43.0


From ebcf29b0a5a8d47c220d9838b31e739f40baf6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 05/26] fix: sort_eigenstates does not modify the caller's srt
 list

---
 qmeq/builder/various.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 42e6503..e80e447 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -76,7 +76,7 @@ def sort_eigenstates(self, srt=None):
             self.qd.Ea_ext = construct_Ea_extended(self)
         else:
             self.qd.Ea_ext[0] = self.qd.Ea
-        srt.append(-1)
+        srt = list(srt)+[-1]
         self.si.states_order = np.array(multiarray_sort(self.qd.Ea_ext, srt)[-1], dtype=int)
     else:
         self.si.states_order = range(self.si.nmany)
-- 
2.43.0


From 474de7c50cf5fc50b2a28f041b2bf2adb66a203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 06/26] fix: BuilderManyBody with a smallest particle number
 different from zero

---
 qmeq/builder/builder_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index c8e0ff3..79b75d7 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -347,7 +347,7 @@ class BuilderManyBody(BuilderBase):
 
         statesdm = [[] for _ in range(ncharge)]
         for i in range(nmany):
-            statesdm[Na[i]].append(i)
+            statesdm[Na[i]-nmin].append(i)
 
         self.Na = Na
         self.si.nmany = nmany
-- 
2.43.0


From 784b238ef69a2d6a03c5c6704b76b436a8fad3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 07/26] fix: state bookkeeping of BuilderManyBody used by
 remove_states, use_all_states and get_phi0

chargelst and states_order kept the values for nsingle=0, so these methods and
the density-matrix accessors raised IndexError for many-body systems.
---
 qmeq/builder/builder_base.py | 21 ++++++++++++++-------
 qmeq/builder/various.py      | 16 +++++++++-------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 79b75d7..d5a7c70 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -350,10 +350,17 @@ class BuilderManyBody(BuilderBase):
             statesdm[Na[i]-nmin].append(i)
 
         self.Na = Na
-        self.si.nmany = nmany
-        self.si.ncharge = ncharge
-        self.si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
-        self.si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
-        self.si.lenlst = np.zeros(ncharge, dtype=longnp)
-        self.si.dictdm = np.zeros(nmany, dtype=longnp)
-        self.si.set_statesdm(statesdm)
+        self._set_state_indexing(self.si, statesdm, nmany)
+
+    @staticmethod
+    def _set_state_indexing(si, statesdm, nmany):
+        ncharge = len(statesdm)
+        si.nmany = nmany
+        si.ncharge = ncharge
+        si.chargelst = statesdm
+        si.states_order = list(range(nmany))
+        si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
+        si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
+        si.lenlst = np.zeros(ncharge, dtype=longnp)
+        si.dictdm = np.zeros(nmany, dtype=longnp)
+        si.set_statesdm(list(statesdm))
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index e80e447..c0b7ece 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -24,7 +24,9 @@ def get_charge(self, b):
     int
         Charge of the many-body state b.
     """
-    return sum(self.si.get_state(b))
+    for charge, states in enumerate(self.si.chargelst):
+        if b in states:
+            return charge
 
 
 def multiarray_sort(arr, srt=[0]):
@@ -101,8 +103,8 @@ def get_phi0(self, b_, bp_):
     """
     b = self.si.states_order[b_]
     bp = self.si.states_order[bp_]
-    bcharge = sum(self.si.get_state(b))
-    bpcharge = sum(self.si.get_state(bp))
+    bcharge = get_charge(self, b)
+    bpcharge = get_charge(self, bp)
     phi0bbp = 0.0
     if self.kerntype in {'Pauli', 'pyPauli', 'RTD', 'pyRTD'}:
         if b == bp:
@@ -146,8 +148,8 @@ def get_phi1(self, l, c_, b_):
     else:
         c = self.si.states_order[c_]
         b = self.si.states_order[b_]
-        ccharge = sum(self.si.get_state(c))
-        bcharge = sum(self.si.get_state(b))
+        ccharge = get_charge(self, c)
+        bcharge = get_charge(self, b)
         phi1cb = 0.0
         if ccharge == bcharge+1:
             ind = self.si.get_ind_dm1(c, b, bcharge)
@@ -298,7 +300,7 @@ def remove_states(self, dE):
         (Modifies) List containing indices of many-body state under consideration.
     """
     Emax = min(self.qd.Ea)+dE
-    statesdm = [[] for _ in range(self.si.nsingle+1)]
+    statesdm = [[] for _ in range(self.si.ncharge)]
     for charge in range(self.si.ncharge):
         for b in self.si.chargelst[charge]:
             if self.qd.Ea[b] < Emax:
@@ -318,7 +320,7 @@ def use_all_states(self):
     self.si.statesdm : list
         (Modifies) List containing indices of many-body state under consideration.
     """
-    self.si.set_statesdm(self.si.chargelst)
+    self.si.set_statesdm(list(self.si.chargelst))
 
 
 def print_state(self, b_, eps=0.0, prntq=True, filename=None, separator=''):
-- 
2.43.0


From 7c6d0c8e102cb01bd931e4d891d9909b1e565c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 08/26] fix: remove_coherences after a previous solve or
 removal, and for the compiled approaches

---
 qmeq/approach/c_kernel_handler.pyx | 2 +-
 qmeq/builder/various.py            | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/c_kernel_handler.pyx b/qmeq/approach/c_kernel_handler.pyx
index 0396d79..6a22604 100644
--- a/qmeq/approach/c_kernel_handler.pyx
+++ b/qmeq/approach/c_kernel_handler.pyx
@@ -85,7 +85,7 @@ cdef class KernelHandler:
                         continue
                     b = self.statesdm[bcharge, i]
                     bp = self.statesdm[bcharge, j]
-                    if self.is_unique(b, bp, bcharge):
+                    if self.is_included(b, bp, bcharge) and self.is_unique(b, bp, bcharge):
                         self.all_bbp[ind, 0] = b
                         self.all_bbp[ind, 1] = bp
                         self.all_bbp[ind, 2] = bcharge
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index c0b7ece..e7e5121 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -280,8 +280,12 @@ def remove_coherences(self, dE):
     # Relabel the density matrix elements
     si.ndm0 = count+1
     si.ndm0r = 2*si.ndm0-si.npauli
+    inddm0 = {}
     for i in range(len(indlst)):
+        inddm0[indlst[i]] = si.inddm0[si.mapdm0[ilst[i]]]
         si.mapdm0[ilst[i]] = indlst[i]
+    si.inddm0 = inddm0
+    si.states_changed = True
 
 
 def remove_states(self, dE):
-- 
2.43.0


From ab0c2406f68faf066919971c499dcf660e4ea0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 09/26] fix: matrix-free solution with solvers keeping
 references to the residual vector

---
 qmeq/approach/aprclass.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 98a6ddd..49e6c04 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -344,7 +344,9 @@ class Approach(object):
             phi0_init = self.set_phi0_init()
 
         try:
-            self.sol0 = optimize.root(self.generate_vec, phi0_init, method=solmethod)
+            # generate_vec returns a buffer, which is overwritten by the next call
+            self.sol0 = optimize.root(lambda phi0: np.array(self.generate_vec(phi0)),
+                                      phi0_init, method=solmethod)
             self.phi0[:] = self.sol0.x
             self.success = self.sol0.success
         except Exception as exept:
@@ -352,6 +354,9 @@ class Approach(object):
             self.phi0.fill(0.0)
             self.success = False
 
+        # The solver has left its last trial vector in the kernel handler
+        self.kernel_handler.set_phi0(self.phi0)
+
     def set_phi0_init(self):
         phi0_init = np.zeros(self.get_kern_size(), dtype=self.dtype)
         phi0_init[0] = 1.0
-- 
2.43.0


From 2c75f4f452cf6ea0548d8b9d2561da0c2d7cebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 10/26] fix: switching mfreeq after a solution

---
 qmeq/approach/aprclass.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 49e6c04..57499d8 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -73,6 +73,9 @@ class Approach(object):
         return self.funcp.mfreeq
     @mfreeq.setter
     def mfreeq(self, value):
+        if value == self.funcp.mfreeq:
+            return
+        self.is_prepared = False
         self.funcp.mfreeq = value
 
     @property
@@ -196,15 +199,16 @@ class Approach(object):
     def prepare_solver(self):
         solmethod = self.funcp.solmethod
         # Determine the proper solution method
+        # The value, which is left from the other kind of solution (dense or matrix free), is not used
         if self.funcp.mfreeq:
-            solmethod = solmethod if solmethod is not None else 'krylov'
+            solmethod = solmethod if solmethod not in {None, 'solve', 'lsqr'} else 'krylov'
             self.funcp.solmethod = solmethod
             return
 
         symq = self.funcp.symq
-        if solmethod is None:
+        if solmethod not in {'solve', 'lsqr'}:
             solmethod = 'solve' if symq else 'lsqr'
-        if not symq and solmethod != 'lsqr' and solmethod != 'lsmr':
+        if not symq and solmethod != 'lsqr':
             print("WARNING: Using solmethod=lsqr, because the kernel is not symmetric, symq=False.")
             solmethod = 'lsqr'
 
-- 
2.43.0


From bd09bb50139b13dab01dcf0aab9a2b3a01d23683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 11/26] fix: compiled approaches with replaced or real valued
 input arrays and solmethod set before solve

---
 qmeq/approach/base/c_RTD.pyx      | 14 ++++++--------
 qmeq/approach/base/c_lindblad.pyx |  3 +--
 qmeq/approach/base/c_neumann2.pyx |  2 +-
 qmeq/approach/c_aprclass.pyx      | 27 ++++++++++++++++++---------
 4 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index b2584bd..2be9c06 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -120,14 +120,7 @@ cdef class ApproachRTD(Approach):
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
-        self._tlst = self.leads.tlst
-        self._tleads_array = self.leads.tleads_array
-
-        self._mulst = self.leads.mulst
-        self._dlst = self.leads.dlst
-
-        self._Ea = self.qd.Ea
-        self._Tba = self.leads.Tba
+        self.set_input_views()
 
         self._Wdd = self.Wdd2[0,...]
         self._WE1 = self.WE1
@@ -140,6 +133,11 @@ cdef class ApproachRTD(Approach):
         kh.WE2 = self._WE2
 
 
+    def set_input_views(self):
+        Approach.set_input_views(self)
+        self._tleads_array = np.asarray(self.leads.tleads_array, dtype=complexnp)
+
+
     cdef void clean_arrays(self):
         self.ImGamma = False
 
diff --git a/qmeq/approach/base/c_lindblad.pyx b/qmeq/approach/base/c_lindblad.pyx
index 8da6744..438e624 100644
--- a/qmeq/approach/base/c_lindblad.pyx
+++ b/qmeq/approach/base/c_lindblad.pyx
@@ -38,8 +38,7 @@ cdef class ApproachLindblad(Approach):
 
     cdef void prepare_arrays(self):
         Approach.prepare_arrays(self)
-        Tba, mtype = self.leads.Tba, self.leads.mtype
-        self.tLba = np.zeros(Tba.shape, dtype=mtype)
+        self.tLba = np.zeros(self.leads.Tba.shape, dtype=complexnp)
 
         self._tLba = self.tLba
         self._rez_real = np.zeros(2, dtype=doublenp)
diff --git a/qmeq/approach/base/c_neumann2.pyx b/qmeq/approach/base/c_neumann2.pyx
index 5e92b5d..bd17823 100644
--- a/qmeq/approach/base/c_neumann2.pyx
+++ b/qmeq/approach/base/c_neumann2.pyx
@@ -108,7 +108,7 @@ cdef class TermsCalculator2vN:
         self.Ek_grid_ext = self.appr.Ek_grid_ext
 
         self.Ea = self.appr.qd.Ea
-        self.Tba = self.appr.leads.Tba
+        self.Tba = np.asarray(self.appr.leads.Tba, dtype=complexnp)
 
         self.fkp = self.appr.fkp
         self.fkm = self.appr.fkm
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 7274314..230293f 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -103,6 +103,7 @@ cdef class Approach:
 
     cpdef void prepare_kern(self):
         if self.is_prepared and not self.si.states_changed:
+            self.set_input_views()
             self.clean_arrays()
             return
 
@@ -141,12 +142,16 @@ cdef class Approach:
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
-        self._tlst = self.leads.tlst
-        self._mulst = self.leads.mulst
-        self._dlst = self.leads.dlst
+        self.set_input_views()
 
-        self._Ea = self.qd.Ea
-        self._Tba = self.leads.Tba
+    def set_input_views(self):
+        # The arrays can be replaced by the user or have a different type (mtype_leads=float)
+        self._tlst = np.asarray(self.leads.tlst, dtype=doublenp)
+        self._mulst = np.asarray(self.leads.mulst, dtype=doublenp)
+        self._dlst = np.asarray(self.leads.dlst, dtype=doublenp)
+
+        self._Ea = np.asarray(self.qd.Ea, dtype=doublenp)
+        self._Tba = np.asarray(self.leads.Tba, dtype=complexnp)
 
     def prepare_kernel_handler(self):
         if self.funcp.mfreeq:
@@ -158,7 +163,7 @@ cdef class Approach:
 
     def prepare_solver(self):
         ApproachPy.prepare_solver(self)
-        if self.funcp.mfreeq:
+        if self.funcp.mfreeq or self.kern is None:
             return
 
         solmethod = self.funcp.solmethod
@@ -286,9 +291,13 @@ cdef class ApproachElPh(Approach):
         self._kernel_handler.elph = self.kernel_handler_elph
 
     cdef void prepare_arrays(self):
-        self._tlst_ph = self.baths.tlst_ph
-        self._dlst_ph = self.baths.dlst_ph
-        self._Vbbp = self.baths.Vbbp
+        pass
+
+    def set_input_views(self):
+        Approach.set_input_views(self)
+        self._tlst_ph = np.asarray(self.baths.tlst_ph, dtype=doublenp)
+        self._dlst_ph = np.asarray(self.baths.dlst_ph, dtype=doublenp)
+        self._Vbbp = np.asarray(self.baths.Vbbp, dtype=complexnp)
 
     cdef void clean_arrays(self):
         pass
-- 
2.43.0


From 2b8b16286d2207a1a8e36f2ae96ae62f6a531b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 12/26] fix: RTD per-thread kernel copies and energy currents
 when the states are redefined or removed

---
 qmeq/approach/base/RTD.py    | 3 ++-
 qmeq/approach/base/c_RTD.pyx | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a5d1a10..8b8375b 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -213,7 +213,8 @@ class ApproachPyRTD(Approach):
         """
         kh = self.kernel_handler
         nleads = self.si.nleads
-        LE = 2 * self.qd.Ea
+        si = self.si
+        LE = 2 * np.array([self.qd.Ea[b] for charge in range(si.ncharge) for b in si.statesdm[charge]])
 
         current = np.zeros(nleads, dtype=doublenp)
         energy_current = np.zeros(nleads, dtype=doublenp)
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 2be9c06..09dd251 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -56,8 +56,6 @@ cdef class ApproachRTD(Approach):
         self.ImGamma = False
         self.printed_warning_ImGamma = False
         self.nsingle_warning_printed = False
-        # For parallel
-        self.nbr_Wdd2_copies = min(self.si.npauli, openmp.omp_get_max_threads())
 
     cpdef long_t get_kern_size(self):
         return self._kernel_handler.npauli
@@ -83,6 +81,8 @@ cdef class ApproachRTD(Approach):
 
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
         self.rez = np.zeros(2, dtype=doublenp)
+        # For parallel: one copy for every thread
+        self.nbr_Wdd2_copies = openmp.omp_get_max_threads()
         self.Wdd2 = np.zeros((self.nbr_Wdd2_copies, nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE1 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE2 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
@@ -259,7 +259,7 @@ cdef class ApproachRTD(Approach):
         LE = np.zeros(kh.npauli, dtype=doublenp)
 
         for i in range(kh.npauli):
-            LE[i] = 2.0 * Ea[i]
+            LE[i] = 2.0 * Ea[kh.all_bbp[i, 0]]
 
         for l in range(nleads):
             current[l] = 0.5 * np.dot(self.LN, np.dot(kh.Wdd.base[l, :, :], self.phi0))
-- 
2.43.0


From abb80db85695ce60dc4678487b5d445bafc2c838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 13/26] fix: state bookkeeping of the electron-phonon builders

---
 qmeq/builder/builder_base.py | 2 +-
 qmeq/builder/builder_elph.py | 9 +++++++--
 qmeq/builder/various.py      | 2 +-
 qmeq/indexing.py             | 4 ++--
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index d5a7c70..00cbc5e 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -363,4 +363,4 @@ class BuilderManyBody(BuilderBase):
         si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
         si.lenlst = np.zeros(ncharge, dtype=longnp)
         si.dictdm = np.zeros(nmany, dtype=longnp)
-        si.set_statesdm(list(statesdm))
+        si.set_statesdm(statesdm)
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index e67122f..a38897c 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -37,7 +37,7 @@ except ImportError:
 
 attribute_map_elph = dict(
     # StateIndexing
-    baths='si', velph='baths',
+    nbaths='si', velph='baths',
     # PhononBaths
     tlst_ph='baths', dlst_ph='baths',
     Vbbp='baths', bath_func='baths',
@@ -137,7 +137,11 @@ class BuilderElPh(BuilderBase):
 
     def remove_states(self, dE):
         BuilderBase.remove_states(self, dE)
-        self.si_elph.set_statesdm(self.si.statesdm)
+        self.si_elph.set_statesdm(self.si.statesdm[:self.si.ncharge])
+
+    def use_all_states(self):
+        BuilderBase.use_all_states(self)
+        self.si_elph.set_statesdm(self.si.chargelst)
 
     def remove_fock_states(self, lin_state_indices):
         BuilderBase.remove_fock_states(self, lin_state_indices)
@@ -183,6 +187,7 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
             indexing='charge')
 
         self._init_state_indexing(Na, Ea)
+        self._set_state_indexing(self.si_elph, self.si.chargelst, self.si.nmany)
 
         self.qd.Ea = Ea
         self.leads.Tba = Tba
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index e7e5121..a33ace5 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -324,7 +324,7 @@ def use_all_states(self):
     self.si.statesdm : list
         (Modifies) List containing indices of many-body state under consideration.
     """
-    self.si.set_statesdm(list(self.si.chargelst))
+    self.si.set_statesdm(self.si.chargelst)
 
 
 def print_state(self, b_, eps=0.0, prntq=True, filename=None, separator=''):
diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 3e63b90..9e14d7a 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -719,7 +719,7 @@ class StateIndexingPauli(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.npauli_ = 0
         for j1 in range(self.ncharge):
@@ -1097,7 +1097,7 @@ class StateIndexingDMc(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
         for j1 in range(self.ncharge):
-- 
2.43.0


From b158a6a425f9ab87d68047570859d1b7a591b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 14/26] fix: index of the electron-phonon Lindblad kernel of
 the compiled approach

---
 qmeq/approach/elph/c_lindblad.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 876a824..4779640 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -126,7 +126,7 @@ cdef class ApproachLindblad(ApproachElPh):
                 fct_aap = 0
                 for l in range(nbaths):
                     for q in range(2):
-                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, a, q].conjugate()
+                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, ap, q].conjugate()
                 kh.set_matrix_element(1j*fct_aap, b, bp, bcharge, a, ap, acharge)
         # --------------------------------------------------
         for i in range(bcount):
-- 
2.43.0


From bf85fb39bdc5047b00668cfccff5ef026150526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 15/26] fix: changing a Coulomb matrix element to zero given as
 a list is not ignored

---
 qmeq/qdot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 7ab2f5d..b451679 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -624,7 +624,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
         return hsingle_dict
 
 
-def make_coulomb_dict(qd, coulomb):
+def make_coulomb_dict(qd, coulomb, add_zeros=False):
     """
     Makes Coulomb matrix element dictionary.
 
@@ -649,7 +649,7 @@ def make_coulomb_dict(qd, coulomb):
         coulomb_dict = {}
         for j0 in coulomb:
             m, n, k, l, U = j0
-            if U != 0:
+            if U != 0 or add_zeros:
                 coulomb_dict.update({(m, n, k, l): U})
     else:
         return {}
@@ -837,7 +837,7 @@ class QuantumDot(object):
             The many-body Hamiltonian will be updates in either case.
         """
         hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle, True)
-        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
+        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb, True)
         #
         hsingle_add = {}
         coulomb_add = {}
-- 
2.43.0


From 79dd16757176424649fbfb34caee7f53c9ef655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 16/26] fix: get_phi1 returns None for the Lindblad approach,
 which has no amplitudes

---
 qmeq/builder/various.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index a33ace5..6ca8433 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -143,7 +143,7 @@ def get_phi1(self, l, c_, b_):
     phi0bbp : complex
         A matrix element of the reduced density matrix (complex number).
     """
-    if self.kerntype in {'Pauli', 'pyPauli', 'RTD', 'pyRTD'}:
+    if self.kerntype in {'Pauli', 'pyPauli', 'Lindblad', 'pyLindblad', 'RTD', 'pyRTD'}:
         return None
     else:
         c = self.si.states_order[c_]
-- 
2.43.0


From 5fadd97572cf023c92428cfe25f45c7c99856330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:12 +0000
Subject: [PATCH 17/26] fix: switching the approach of an electron-phonon
 system keeps its states

---
 qmeq/builder/builder_elph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index a38897c..4cb1795 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -111,8 +111,12 @@ class BuilderElPh(BuilderBase):
         self.create_si_elph()
 
     def change_si(self):
+        si = self.si
         BuilderBase.change_si(self)
-        self.create_si_elph()
+        # The states, which were removed, have to be kept if the indexing is kept
+        if self.si is not si:
+            self.baths.si = self.si
+            self.create_si_elph()
 
     def create_si_elph(self):
         si = self.si
-- 
2.43.0


From e8b3f3defc4f666025e47bda579734bc33e093c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 18/26] fix: switching to an approach with another state
 indexing keeps the retained states

---
 qmeq/builder/builder_base.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 00cbc5e..322d506 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -167,10 +167,17 @@ class BuilderBase(object):
         # noinspection PyTypeHints
         if not isinstance(si, self.globals[icn]):
             self.si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
+            self._copy_states(si, self.si)
             self.qd.si = self.si
             self.leads.si = self.si
         self.si.states_changed = True
 
+    def _copy_states(self, si_old, si_new):
+        if si_old.removed_fock_states is not None:
+            si_new.remove_fock_states(np.nonzero(si_old.removed_fock_states)[0])
+        si_new.set_statesdm(si_old.statesdm[:si_old.ncharge])
+        si_new.states_order = si_old.states_order
+
     # kerntype
     def get_kerntype(self):
         return self.appr.kerntype
@@ -352,6 +359,11 @@ class BuilderManyBody(BuilderBase):
         self.Na = Na
         self._set_state_indexing(self.si, statesdm, nmany)
 
+    def _copy_states(self, si_old, si_new):
+        self._set_state_indexing(si_new, si_old.chargelst, si_old.nmany)
+        si_new.set_statesdm(si_old.statesdm[:si_old.ncharge])
+        si_new.states_order = si_old.states_order
+
     @staticmethod
     def _set_state_indexing(si, statesdm, nmany):
         ncharge = len(statesdm)
-- 
2.43.0


From 6ac44638ac3ef8e4ee54e538e50f9b934d203a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 19/26] fix: sign of the imaginary parts in the matrix-free
 action of the Liouvillian

generate_vec returned the complex conjugate of the time derivative of the coherences.
---
 qmeq/approach/c_kernel_handler.pyx | 4 ++--
 qmeq/approach/kernel_handler.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/approach/c_kernel_handler.pyx b/qmeq/approach/c_kernel_handler.pyx
index 6a22604..429291a 100644
--- a/qmeq/approach/c_kernel_handler.pyx
+++ b/qmeq/approach/c_kernel_handler.pyx
@@ -222,7 +222,7 @@ cdef class KernelHandlerMatrixFree(KernelHandler):
         cdef complex_t dphi0_dt_bbp = -1j*energy*phi0bbp
 
         self.dphi0_dt[bbp] = self.dphi0_dt[bbp] + dphi0_dt_bbp.real
-        self.dphi0_dt[bbpi] = self.dphi0_dt[bbpi] - dphi0_dt_bbp.imag
+        self.dphi0_dt[bbpi] = self.dphi0_dt[bbpi] + dphi0_dt_bbp.imag
 
     cdef void set_matrix_element(self,
                 complex_t fct,
@@ -239,7 +239,7 @@ cdef class KernelHandlerMatrixFree(KernelHandler):
 
         self.dphi0_dt[bbp] = self.dphi0_dt[bbp] + dphi0_dt_bbp.real
         if bbpi_bool:
-            self.dphi0_dt[bbpi] = self.dphi0_dt[bbpi] - dphi0_dt_bbp.imag
+            self.dphi0_dt[bbpi] = self.dphi0_dt[bbpi] + dphi0_dt_bbp.imag
 
     cdef void set_matrix_element_pauli(self,
                 double_t fctm, double_t fctp,
diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index 6ba4fad..9d7b812 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -185,7 +185,7 @@ class KernelHandlerMatrixFree(KernelHandler):
         dphi0_dt_bbp = -1j*energy*phi0bbp
 
         self.dphi0_dt[bbp] += dphi0_dt_bbp.real
-        self.dphi0_dt[bbpi] -= dphi0_dt_bbp.imag
+        self.dphi0_dt[bbpi] += dphi0_dt_bbp.imag
 
     def set_matrix_element(self, fct, b, bp, bcharge, a, ap, acharge):
         r""" Adds a contribution to :math:`d\phi_o /dt` that stems from the matrix element
@@ -220,7 +220,7 @@ class KernelHandlerMatrixFree(KernelHandler):
 
         self.dphi0_dt[bbp] += dphi0_dt_bbp.real
         if bbpi_bool:
-            self.dphi0_dt[bbpi] -= dphi0_dt_bbp.imag
+            self.dphi0_dt[bbpi] += dphi0_dt_bbp.imag
 
     def set_matrix_element_pauli(self, fctm, fctp, bb, aa):
         r""" Adds a contribution to :math:`d\phi_o /dt` that stems from the matrix element
-- 
2.43.0


From be04b040101da0e31b25d6eab502025ca7bd5311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 20/26] fix: get_phi0 and get_phi1 of states which are left out

---
 qmeq/builder/various.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 6ca8433..934e11a 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -106,6 +106,9 @@ def get_phi0(self, b_, bp_):
     bcharge = get_charge(self, b)
     bpcharge = get_charge(self, bp)
     phi0bbp = 0.0
+    # States which are not considered have no density matrix elements
+    if not (b in self.si.statesdm[bcharge] and bp in self.si.statesdm[bpcharge]):
+        return phi0bbp
     if self.kerntype in {'Pauli', 'pyPauli', 'RTD', 'pyRTD'}:
         if b == bp:
             ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
@@ -151,6 +154,9 @@ def get_phi1(self, l, c_, b_):
         ccharge = get_charge(self, c)
         bcharge = get_charge(self, b)
         phi1cb = 0.0
+        # States which are not considered have no amplitudes
+        if not (c in self.si.statesdm[ccharge] and b in self.si.statesdm[bcharge]):
+            return phi1cb
         if ccharge == bcharge+1:
             ind = self.si.get_ind_dm1(c, b, bcharge)
             phi1cb = self.phi1[l, ind]
-- 
2.43.0


From c8604ac55ce5d93d987caf0a7ecdc52d0350224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 21/26] fix: RTD with off_diag_corrections changed between
 solutions or before the first one

---
 qmeq/approach/base/RTD.py    | 37 +++++++++++++--------------
 qmeq/approach/base/c_RTD.pyx | 49 ++++++++++++++++++------------------
 2 files changed, 42 insertions(+), 44 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 8b8375b..6323b35 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -69,19 +69,19 @@ class ApproachPyRTD(Approach):
         self.generate_LN()
         self.LE = np.zeros((kern_size, kern_size), dtype=self.dtype)
 
-        if self.off_diag_corrections:
-            kern_size2 = 2 * self.si.ndm0 - 2 * self.si.npauli
-            self.ReWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
-            self.ImWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
-            self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
-            self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
-            self.Lnn = np.zeros((kern_size2, kern_size2), dtype=self.dtype)
-
-            kh.ReWnd = self.ReWnd
-            kh.ImWnd = self.ImWnd
-            kh.ReWdn = self.ReWdn
-            kh.ImWdn = self.ImWdn
-            kh.Lnn = self.Lnn
+        # off_diag_corrections can be switched on later
+        kern_size2 = 2 * self.si.ndm0 - 2 * self.si.npauli
+        self.ReWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
+        self.ImWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
+        self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
+        self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
+        self.Lnn = np.zeros((kern_size2, kern_size2), dtype=self.dtype)
+
+        kh.ReWnd = self.ReWnd
+        kh.ImWnd = self.ImWnd
+        kh.ReWdn = self.ReWdn
+        kh.ImWdn = self.ImWdn
+        kh.Lnn = self.Lnn
 
         kh.set_matrix_list()
 
@@ -96,12 +96,11 @@ class ApproachPyRTD(Approach):
         self.W2.fill(0.0)
         self.LE.fill(0.0)
 
-        if self.off_diag_corrections:
-            self.ReWnd.fill(0.0)
-            self.ImWnd.fill(0.0)
-            self.ReWdn.fill(0.0)
-            self.ImWdn.fill(0.0)
-            self.Lnn.fill(0.0)
+        self.ReWnd.fill(0.0)
+        self.ImWnd.fill(0.0)
+        self.ReWdn.fill(0.0)
+        self.ImWdn.fill(0.0)
+        self.Lnn.fill(0.0)
 
     def generate_kern(self):
         r""" Generates all kernels including tunnel processes of orders :math:`t^2` and :math:`t^4`.
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 09dd251..5783e6e 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -89,25 +89,25 @@ cdef class ApproachRTD(Approach):
 
         self.generate_LN()
 
-        if self.funcp.off_diag_corrections:
-            kern_size2 = 2 * kh.ndm0 - 2 * kh.npauli
-            self.ReWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
-            self.ImWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
-            self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
-            self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
-            self.Lnn = np.zeros(kern_size2, dtype=self.dtype)
-
-            self._ReWnd = self.ReWnd
-            self._ImWnd = self.ImWnd
-            self._ReWdn = self.ReWdn
-            self._ImWdn = self.ImWdn
-            self._Lnn = self.Lnn
-
-            kh.ReWnd = self.ReWnd
-            kh.ImWnd = self.ImWnd
-            kh.ReWdn = self.ReWdn
-            kh.ImWdn = self.ImWdn
-            kh.Lnn = self.Lnn
+        # off_diag_corrections can be switched on later
+        kern_size2 = 2 * kh.ndm0 - 2 * kh.npauli
+        self.ReWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
+        self.ImWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
+        self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
+        self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
+        self.Lnn = np.zeros(kern_size2, dtype=self.dtype)
+
+        self._ReWnd = self.ReWnd
+        self._ImWnd = self.ImWnd
+        self._ReWdn = self.ReWdn
+        self._ImWdn = self.ImWdn
+        self._Lnn = self.Lnn
+
+        kh.ReWnd = self.ReWnd
+        kh.ImWnd = self.ImWnd
+        kh.ReWdn = self.ReWdn
+        kh.ImWdn = self.ImWdn
+        kh.Lnn = self.Lnn
 
         self._kern = self.kern
         self._bvec = self.bvec
@@ -155,12 +155,11 @@ cdef class ApproachRTD(Approach):
         self._WE2[::1] = 0.0
         self._Wdd2[::1] = 0.0
 
-        if self.funcp.off_diag_corrections:
-            self._ReWnd[::1] = 0.0
-            self._ImWnd[::1] = 0.0
-            self._ReWdn[::1] = 0.0
-            self._ImWdn[::1] = 0.0
-            self._Lnn[::1] = 0.0
+        self._ReWnd[::1] = 0.0
+        self._ImWnd[::1] = 0.0
+        self._ReWdn[::1] = 0.0
+        self._ImWdn[::1] = 0.0
+        self._Lnn[::1] = 0.0
 
 
     cpdef void generate_kern(self):
-- 
2.43.0


From 27472e6ed8f96e352fa300904b951cd57e5a4c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 22/26] fix: RTD results do not depend on the Ozaki expansion
 of an earlier solution

---
 qmeq/approach/base/RTD.py    | 2 +-
 qmeq/approach/base/c_RTD.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 6323b35..22c3ce7 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -929,7 +929,7 @@ class ApproachPyRTD(Approach):
             and the second columns contains the residues.
         """
         BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
 
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 5783e6e..fc8295f 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -962,6 +962,6 @@ cdef class ApproachRTD(Approach):
 
         cdef double_t BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
 
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
\ No newline at end of file
-- 
2.43.0


From 49a146e4e9a0ffa816ad788c3dfe805f38e60cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 23/26] fix: RTD off-diagonal corrections after coherences are
 removed

---
 qmeq/approach/c_kernel_handler.pyx | 3 +++
 qmeq/approach/kernel_handler.py    | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/c_kernel_handler.pyx b/qmeq/approach/c_kernel_handler.pyx
index 429291a..b4eca50 100644
--- a/qmeq/approach/c_kernel_handler.pyx
+++ b/qmeq/approach/c_kernel_handler.pyx
@@ -272,6 +272,9 @@ cdef class KernelHandlerRTD(KernelHandler):
                     long_t bcharge, long_t a, long_t ap, long_t acharge, int_t mi) nogil:
         cdef long_t indx1 = self.get_ind_dm0(b, bp, bcharge)
         cdef long_t indx2 = self.get_ind_dm0(a, ap, acharge)
+        # Removed coherences do not contribute
+        if indx1 == -1 or indx2 == -1:
+            return
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index 9d7b812..a9c06eb 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -293,6 +293,9 @@ class KernelHandlerRTD(KernelHandler):
 
         indx1 = self.si.get_ind_dm0(b, bp, bcharge)
         indx2 = self.si.get_ind_dm0(a, ap, acharge)
+        # Removed coherences do not contribute
+        if indx1 == -1 or indx2 == -1:
+            return
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
@@ -392,7 +395,11 @@ class KernelHandlerRTD(KernelHandler):
         self.Lnn : ndarray
             (Modifies) the anti-commutator Liouvillian connecting non-diagonal elements
         """
-        indx = self.si.get_ind_dm0(a1, b1, charge) - self.npauli
+        indx = self.si.get_ind_dm0(a1, b1, charge)
+        # Removed coherences do not contribute
+        if indx == -1:
+            return
+        indx -= self.npauli
         if a1 > b1:
             indx += self.ndm0 - self.npauli
         self.Lnn[indx, indx] += fct
-- 
2.43.0


From e35111adb4978414e5d9c32770dc21943ea7ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 24/26] fix: update_Vbbp0 constructs the many-body matrix from
 the dictionary it has made, not from the given container

---
 qmeq/baths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 81cc39a..9bc9b95 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -332,4 +332,4 @@ class PhononBaths(object):
         si.nbaths = nbaths
         self.velph = make_velph_dict(velph, si)
         self.mtype = mtype
-        self.Vbbp0 = elph_construct_Vbbp(self, velph)
+        self.Vbbp0 = elph_construct_Vbbp(self, self.velph)
-- 
2.43.0


From 5236fc67e4457f8ef7fbcea7c0c3e058bd45cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:28 +0000
Subject: [PATCH 25/26] fix: pure Python RTD sets the Ozaki expansion whenever
 temperatures differ, as its integrals and the compiled form do

---
 qmeq/approach/base/RTD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 22c3ce7..5670bc2 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -121,7 +121,7 @@ class ApproachPyRTD(Approach):
         ncharge, statesdm = si.ncharge, si.statesdm
         self.off_diag_corrections = self.funcp.off_diag_corrections
 
-        if (not np.all(np.isclose(self.leads.tlst, self.leads.tlst[0]))) or np.any(abs(self.leads.Tba.imag)>0):
+        if np.any(self.leads.tlst != self.leads.tlst[0]) or np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
 
         for bcharge in range(ncharge):
-- 
2.43.0


From df4077f39e80c4298122966d364a59d1d1a38794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:08 +0000
Subject: [PATCH 26/26] fix: pure Python integralX uses the threshold of the
 compiled form (and of integralD) for equal temperatures

---
 qmeq/specfunc/specfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 6b9f7de..84681ae 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -542,7 +542,7 @@ def integralX(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
         The integral value
     """
 
-    TMIN = 1e-10
+    TMIN = 1e-5
     if abs(T2-T1) < TMIN and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
-- 
2.43.0

