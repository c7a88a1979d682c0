From 59822c79c94e4a01092e7ff1a2534434c255802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:25 +0000
Subject: [PATCH 01/47] fix: give the Kohn-Sham energy record per-instance
 array defaults

---
 CADMium/kohnsham/kohnsham.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index 12f3397..fa6c7b7 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -2,7 +2,7 @@
 kohnsham.py
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from multiprocessing import Process, Manager, current_process
 from pydantic import validator, BaseModel
 import numpy as np
@@ -25,8 +25,8 @@ class E:
     E  : float = 0.0 
     Ec : float = 0.0
     Ex : float = 0.0
-    Eks: np.ndarray = np.empty((1,1))
-    Vks: np.ndarray = np.empty((1,1))
+    Eks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
+    Vks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
 
 class KohnShamOptions(BaseModel):
     interaction_type : str = 'dft'
-- 
2.43.0


From 3ff720b5ec393e1f6496d2b5c1a416c93f29fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:03 +0000
Subject: [PATCH 02/47] fix: keep the Laplacian factors unpivoted so the
 Hartree solve is right on every grid

---
 CADMium/psgrid/factorize_laplacian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CADMium/psgrid/factorize_laplacian.py b/CADMium/psgrid/factorize_laplacian.py
index 35ea94b..dbab1ef 100644
--- a/CADMium/psgrid/factorize_laplacian.py
+++ b/CADMium/psgrid/factorize_laplacian.py
@@ -12,7 +12,8 @@ def factorize_laplacian(self, DISP):
     if DISP is True:
         print(" Factorizing Laplacian ... \n")
         
-    LU = splu(self.elap, permc_spec="NATURAL")
+    #L_lap and U_lap are used without row permutations, so keep the pivots on the diagonal
+    LU = splu(self.elap, permc_spec="NATURAL", diag_pivot_thresh=0.0)
     self.L_lap = LU.L
     self.U_lap = LU.U
         
-- 
2.43.0


From 5b8c1ca4e83fa55a0064bf51af10df89982e23c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:03 +0000
Subject: [PATCH 03/47] fix: build the missing base Hamiltonian in
 calc_orbitals instead of raising AttributeError

---
 CADMium/pssolver/calc_orbitals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index af37616..f774796 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -29,7 +29,7 @@ def calc_orbitals(self, solver_id, return_dict):
         Veff = spdiags(data= W @ self.veff, diags=0, m=Nelem, n=Nelem)
 
         if self.H0 is None:
-            self.hamiltionian()
+            self.hamiltonian()
 
         #Construct Hamiltonian
         H = self.H0 + Veff
-- 
2.43.0


From bda529ce8771b201cdbfaab90d98c2f0eb8884c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:03 +0000
Subject: [PATCH 04/47] fix: leave orbitals that already meet the tolerance
 alone in iter_orbitals

---
 CADMium/pssolver/iter_orbitals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 3b0598b..4bc8e95 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -54,9 +54,9 @@ def iter_orbitals(self, solver_id, return_dict):
                 else:
                     x = spsolve(C, rhs)
                 
-            self.phi[:, j] -= x[:Nelem]
-            self.eig[j]    -= x[-1]
-            self.normalize_orbitals()
+                self.phi[:, j] -= x[:Nelem]
+                self.eig[j]    -= x[-1]
+                self.normalize_orbitals()
         
     else:
         self.eig = np.array([-1 / np.finfo(float).eps])
-- 
2.43.0


From c9e3015bcb5dc5942b5e1b2ee6d3da842f3fc3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:03 +0000
Subject: [PATCH 05/47] fix: use the fractionally occupied orbital in the
 kinetic energy density

---
 CADMium/pssolver/calc_ked_WFI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_ked_WFI.py b/CADMium/pssolver/calc_ked_WFI.py
index 956717b..5670732 100644
--- a/CADMium/pssolver/calc_ked_WFI.py
+++ b/CADMium/pssolver/calc_ked_WFI.py
@@ -41,7 +41,7 @@ def calc_ked_WFI(self):
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional and nu != 0:
         #Normalized orbital
-        phi_norm = self.phi[:,i] / self.grid.integrate( self.phi[:, int(Nocc+1) ]**2)**0.5
+        phi_norm = self.phi[:,int(Nocc)] / self.grid.integrate( self.phi[:, int(Nocc) ]**2)**0.5
         phi_norm = phi_norm[:, None]
         self.ked_WFI += nu * ( phi_norm * (self.H0 @ phi_norm) ) / self.grid.w[:, None]
 
-- 
2.43.0


From 2202d2e734dec0ffc054ae5d94890bc6f06c471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:03 +0000
Subject: [PATCH 06/47] fix: filling all orbitals (N = -1) no longer reads a
 missing attribute

---
 CADMium/pssolver/pssolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/pssolver.py b/CADMium/pssolver/pssolver.py
index e5d46fb..7040aa7 100644
--- a/CADMium/pssolver/pssolver.py
+++ b/CADMium/pssolver/pssolver.py
@@ -89,7 +89,7 @@ class i_solver():
         self.pol = pol
 
         if self.N == -1:
-            if self.polarization == 1:
+            if self.pol == 1:
                 self.N = 2 * self.Nmo
             else:
                 self.N = self.Nmo
-- 
2.43.0


From b1c420a3a7c38cf84b20523b24dcac1be7c4551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:46 +0000
Subject: [PATCH 07/47] fix: refine every orbital against the norm its residual
 was computed with

---
 CADMium/pssolver/iter_orbitals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 4bc8e95..bc7ecd3 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -56,7 +56,9 @@ def iter_orbitals(self, solver_id, return_dict):
                 
                 self.phi[:, j] -= x[:Nelem]
                 self.eig[j]    -= x[-1]
-                self.normalize_orbitals()
+
+        #Normalize once all updates are in: the residuals refer to the incoming norms
+        self.normalize_orbitals()
         
     else:
         self.eig = np.array([-1 / np.finfo(float).eps])
-- 
2.43.0


From 2e26a165e1b3efdbdd6236ba3098902885417fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:27 +0000
Subject: [PATCH 08/47] fix: response of fractional and m>0 orbitals (index,
 accumulation, occupation)

---
 CADMium/pssolver/calc_response.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index 464d725..28323b4 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -8,7 +8,6 @@ from scipy.sparse import vstack as csc_vstack
 from scipy.sparse import hstack as csc_hstack
 from scipy.sparse import csc_matrix
 from scipy.sparse.linalg import spsolve
-from scipy.sparse.linalg import splu
 
 def calc_response(self):
     """
@@ -69,8 +68,7 @@ def calc_response(self):
     #If we are doing a fractional orbitals and are non-integer
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional is  True and nu != 0:
-        print("Warning, you may need to confirm calc_response in CADMium")
-        j = Nocc + 1
+        j = int(Nocc)
 
         #Select the orbital and normalize
         phi_j = self.phi[:, j] / self.grid.integrate( self.phi[:, j]**2 )**0.5
@@ -87,19 +85,18 @@ def calc_response(self):
         A = csc_vstack(( A_inside_1, A_inside_2 ))
         A = csc_matrix(A)
 
-        lu = splu(A)
-        #Take matrox L and U from decomposition
-        L = lu.L.A
-        U = lu.U.A
-
-        #Solve linear equation
-        x = spsolve( U , spsolve(L, rhs))
+        x = spsolve(A, rhs)
 
         #Add orbital density response into total response
-        self.chi += self.chi + nu * 2 * PHI * x[0:Nelem, 0:Nelem]
+        self.chi += nu * 2 * PHI @ x[0:Nelem, 0:Nelem]
 
     #Scale responses accordingly
-    if self.pol == 1:
-        self.chi = 2 * self.chi
-
+    if self.m == 0:
+        if self.pol == 1:
+            self.chi = 2 * self.chi
 
+    else: # m>0 orbitals hold twice as many electrons due to +-m symmetry
+        if self.pol == 1:
+            self.chi = 4 * self.chi
+        else:
+            self.chi = 2 * self.chi
-- 
2.43.0


From f60c94ad9b01a3f9345502a433ad33359b9d0760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 09/47] fix: Kohn-Sham scf options given in another case are no
 longer silently dropped

---
 CADMium/kohnsham/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 62c753d..3a3200d 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -23,8 +23,8 @@ def scf(self, optKS):
     SCF method to handle self consistent field calculations
     """
 
+    optKS =  {k.lower(): v for k, v in optKS.items()}
     for i in optKS.keys():
-        i = i.lower()
         if i not in KohnShamSCFOptions().dict().keys():
             raise ValueError(f"{i} is not a valid option for the SCF procedure")
     optKS = KohnShamSCFOptions(**optKS)
-- 
2.43.0


From 36abf463e944092e9a542543b7c2ed2adb830875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 10/47] fix: auto_tol reads the options and residual that exist
 in both scf loops

---
 CADMium/kohnsham/scf.py  | 4 ++--
 CADMium/partition/scf.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 3a3200d..40ef362 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -61,7 +61,7 @@ def scf(self, optKS):
         num_iter_not_min = 0
 
 
-    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < opt.KS.auto_tol_iter) and iter < optKS.maxiter:
+    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < optKS.auto_tol_iter) and iter < optKS.maxiter:
 
 
         #Calculate and set new effective potential:
@@ -104,7 +104,7 @@ def scf(self, optKS):
         old_n = self.n
 
         if optKS.auto_tol is True:
-            if dif < min_dif:
+            if diff < min_dif:
                 num_iter_not_min = 0
                 min_dif = diff
             else:
diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 31f2c22..1caa474 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -139,7 +139,7 @@ def scf(self, optSCF={}):
 
     #-----> SCF Procedure Begins
     while (dif > optSCF.e_tol 
-           or (optSCF.auto_tol is True and num_iter_not_min < self.optPartition["AutoTolIter"])) \
+           or (optSCF.auto_tol is True and num_iter_not_min < optSCF.auto_tol_iter)) \
            and iterations <= optSCF.max_iter                                                     \
            and STOP is False:
 
-- 
2.43.0


From 3bf81745dbffe72d5b4f52058ca40b00d9a4095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 11/47] fix: set_veff_external distributes the potential it is
 given

---
 CADMium/kohnsham/kohnsham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index fa6c7b7..0711d21 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -181,7 +181,7 @@ class Kohnsham():
         """
         for j in range(self.Nmo.shape[1]):
             for i in range(self.Nmo.shape[0]):
-                self.solver[i,j].setveff(self.veff[:,j])
+                self.solver[i,j].setveff(veff[:,j])
 
     def calc_density(self, ITERATIVE=False, dif=0.0):
         """
-- 
2.43.0


From b57f395eb7fbd5590cb4d8da9b3e578575688dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 12/47] fix: create both ensemble components whenever either
 fragment is an ensemble

---
 CADMium/partition/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 5e6f118..14d5524 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -256,7 +256,7 @@ class Partition():
 
         self.KSa = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_a, self.N_a, optKS)
         self.KSb = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_b, self.N_b, optKS)
-        if self.nu_a != 1.0 and self.nu_b != 1.0:
+        if self.ens:
 
             self.KSA = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_A, self.N_A, optKS)
             self.KSB = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_B, self.N_B, optKS)
-- 
2.43.0


From a2e4302e53131c99e4812063b383b71211505d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 13/47] fix: fragment B ensemble energy counts both of its
 components once

---
 CADMium/partition/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/energy.py b/CADMium/partition/energy.py
index eca7c39..7c7f98e 100644
--- a/CADMium/partition/energy.py
+++ b/CADMium/partition/energy.py
@@ -24,7 +24,7 @@ def energy(self):
         iks_b = [self.KSb]
     else:
         iks_a = [self.KSa, self.KSA]
-        iks_b = [self.KSB, self.KSB]
+        iks_b = [self.KSb, self.KSB]
 
     for i_KS in iks_a:
         if i_KS.E is None:
-- 
2.43.0


From 46752dab51f8006f6501b59ca7b8f17ccfd87576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 14/47] fix: correlated Hartree energy without an ensemble
 (attribute name, spin sum)

---
 CADMium/partition/EnsCorHar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/EnsCorHar.py b/CADMium/partition/EnsCorHar.py
index d43e9c9..fe7ad85 100644
--- a/CADMium/partition/EnsCorHar.py
+++ b/CADMium/partition/EnsCorHar.py
@@ -7,15 +7,15 @@ import numpy as np
 
 def EnsCorHar(self):
     if not self.ens:  # No Ensemble
-        if not self.optPartiton.ens_spin_sym: #Not ENS Spin Symmetry
+        if not self.optPartition.ens_spin_sym: #Not ENS Spin Symmetry
             self.KSa.E.Ehcor = 0.0
             self.KSb.E.Ehcor = 0.0
             self.KSa.V.vhcor = np.zeros_like( self.KSa.V.vh )
             self.KSb.V.vhcor = np.zeros_like( self.KSb.V.vh )
             self.E.Ehcor = 0.0
         else:                                 #With ENS Spin Symmetry
-            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh) ))   / 2.0
-            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh) ))   / 2.0
+            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh), axis=1 ))   / 2.0
+            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh), axis=1 ))   / 2.0
             self.KSa.V.vhcor = self.grid.spinflip( self.KSb.V.vh )
             self.KSb.V.vhcor = self.grid.spinflip( self.KSa.V.vh )
             self.E.Ehcor = 0.0
-- 
2.43.0


From fe2069c5c7c42cff89209268b6985340a1fde000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:04 +0000
Subject: [PATCH 15/47] fix: the fragments' chemical potential is the largest
 homo of both fragments

---
 CADMium/partition/vp_kinetic.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 2a6a3aa..6f4949c 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -56,20 +56,20 @@ def vp_kinetic(self):
         ua, ub = -1 / np.spacing(1), -1 / np.spacing(1)
 
         #Check the values of each solver's homos and pick the largest
-        for i in range(self.Nmo_a.shape[0]):
-            for j in range(self.Nmo_a.shape[1]):
-                if self.KSa.solver[i,j].homo is not None:
-                    ua = np.max( (ua, self.KSa.solver[i,j].homo) )
-                if self.KSb.solver[i,j].homo is not None:
-                    ua = np.max( (ub, self.KSb.solver[i,j].homo) )
+        for i_solver in self.KSa.solver.flatten():
+            if i_solver.homo is not None:
+                ua = np.max( (ua, i_solver.homo) )
+        for i_solver in self.KSb.solver.flatten():
+            if i_solver.homo is not None:
+                ub = np.max( (ub, i_solver.homo) )
 
         if self.ens:
-            for i in range(self.Nmo_A.shape[0]):
-                for j in range(self.Nmo_A.shape[1]):
-                    if self.KSA.solver[i,j].homo is not None:
-                        ua = np.max( (ua, self.KSA.solver[i,j].homo) )
-                    if self.KSB.solver[i,j].homo is not None:
-                        ua = np.max( (ub, self.KSB.solver[i,j].homo) )
+            for i_solver in self.KSA.solver.flatten():
+                if i_solver.homo is not None:
+                    ua = np.max( (ua, i_solver.homo) )
+            for i_solver in self.KSB.solver.flatten():
+                if i_solver.homo is not None:
+                    ub = np.max( (ub, i_solver.homo) )
         u = np.max((ua, ub))
         nspin = self.pol - 1
 
-- 
2.43.0


From 13c00866e3f96883080ee050849ab615d46905c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:04 +0000
Subject: [PATCH 16/47] fix: mirror the fragment Hartree energy density once,
 after summing the ensemble

---
 CADMium/partition/ep_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index 79ead77..9acd1d1 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -28,7 +28,7 @@ def ep_hxc(self):
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
                     ehf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.eh[:, None]
-                ehf += self.grid.mirror(ehf)
+            ehf += self.grid.mirror(ehf)
 
         else:
             if not self.ens:
-- 
2.43.0


From 00e683a17cdaf825e44704f80307df84bb4f2029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:53 +0000
Subject: [PATCH 17/47] fix: von Weizsacker partition energy is a scalar with
 the sign of a kinetic energy

---
 CADMium/partition/ep_kinetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index b15adc9..57eb874 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -13,7 +13,7 @@ def ep_kinetic(self):
         #Use the von-Weizacker inversion
         Tsm =   (2 * np.pi * self.grid.hr * self.grid.ha ) \
               * np.sum(self.grid.wi * np.sum(self.nf, axis=1)**0.5 \
-              * (0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
+              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
 
         tsm =   (np.sum(self.nf, axis=1)**(-0.5)) / self.grid.w \
               * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5 )
@@ -30,8 +30,8 @@ def ep_kinetic(self):
 
         for i_KS in iks:
             Tsf += i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) \
-                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 ) \
-                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 )
+                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 \
+                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 ) )
 
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
-- 
2.43.0


From e4e3221603dbc75a49f42dbdf69e9658ebbaa5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:04 +0000
Subject: [PATCH 18/47] fix: lay the 2d integration weights out like the grid
 (angular index fastest)

---
 CADMium/psgrid/initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/initialize.py b/CADMium/psgrid/initialize.py
index f0eb0c7..40fd28f 100644
--- a/CADMium/psgrid/initialize.py
+++ b/CADMium/psgrid/initialize.py
@@ -60,7 +60,7 @@ def initialize(self, DISP=False, factor=True):
     wr = wr.reshape(len(wr), 1)
     
     #2d Grid of integration weights
-    self.wi = np.reshape(wa@wr.T, (self.Nelem))
+    self.wi = np.reshape(wa@wr.T, (self.Nelem), order="F")
     
     if DISP is True:
         print(" Building finite difference opperators ... \n")
-- 
2.43.0


From 5bf92345ad7dfdc5b9afac50aec4af2ede19eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 19/47] fix: kinetic part of the partition energy density
 matches its energy (scale, solvers, mirror)

---
 CADMium/inverter/get_ts_WFI.py  |  4 ++--
 CADMium/partition/ep_kinetic.py | 24 ++++++++++--------------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/CADMium/inverter/get_ts_WFI.py b/CADMium/inverter/get_ts_WFI.py
index e58e3e6..5190b5e 100644
--- a/CADMium/inverter/get_ts_WFI.py
+++ b/CADMium/inverter/get_ts_WFI.py
@@ -23,7 +23,7 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
                 if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
 
     else:
         for i in range(self.solver.shape[0]):
@@ -33,6 +33,6 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
                 if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
 
     return ts
\ No newline at end of file
diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 57eb874..7f70499 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -36,7 +36,7 @@ def ep_kinetic(self):
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
 
-            tsf += i_KS.scale * np.sum(i_KS.Q, axis=1) * i_KS.V.ts
+            tsf += np.sum(i_KS.Q, axis=1) * i_KS.V.ts
 
     elif self.optPartition.kinetic_part_type == "libxcke" or \
          self.optPartition.kinetic_part_type == "paramke":
@@ -59,17 +59,16 @@ def ep_kinetic(self):
         # Ts and ts for fragments obtained in ep_kinetic
         for iKS in iks:
             Tsf += iKS.scale * iKS.V.Ts
-            tsf += iKS.scale * np.sum( iKS.Q, axis=1 ) * iKS.V.ts[:,0]
+            tsf += np.sum( iKS.Q, axis=1 ) * iKS.V.ts[:,0]
 
     elif self.optPartition.kinetic_part_type == "inversion":
         
-        tsm = np.sum( self.inverter.get_ts_WFI(), axis=1 ) / np.sum( self.nf, axis=1 )
+        tsm = ( np.sum( self.inverter.get_ts_WFI(), axis=1 ) / np.sum( self.nf, axis=1 ) )[:,None]
         Tsm = self.inverter.get_Ts()
 
         #Evaluate kinetic energy for fragments
         Tsf = 0.0
         tsf = np.zeros_like(tsm)
-        tsf = tsf[:, None]
 
         if self.optPartition.ab_sym is not True:
             if not self.ens:
@@ -86,7 +85,6 @@ def ep_kinetic(self):
             assert i_KS.E.Ts != None, ("Fragment energies must be evaluated before partition energy")
             Tsf += i_KS.scale * i_KS.E.Ts
             
-            i_KS.V.ts = np.zeros_like( i_KS.n )
             ts = np.zeros((self.grid.Nelem, self.pol))
 
             for i in range(i_KS.solver.shape[0]):
@@ -97,13 +95,11 @@ def ep_kinetic(self):
             for i in range(i_KS.solver.shape[0]):
                 for j in range(i_KS.solver.shape[1]):
                     if i_KS.solver[i,j].ked_WFI is not None:
-                        ts[:,j] = np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
+                        ts[:,j] += np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
 
-            for i in range(i_KS.solver.shape[0]):
-                for j in range(i_KS.solver.shape[1]):
-                    i_KS.V.ts += np.sum( ts, axis=1)[:,None] / np.sum(i_KS.n, axis=1)[:,None]
+            i_KS.V.ts = np.sum( ts, axis=1)[:,None] / np.sum(i_KS.n, axis=1)[:,None]
 
-            tsf += i_KS.scale * np.sum( i_KS.Q, axis=1 )[:,None] * np.sum( i_KS.V.ts, axis=1 )[:,None]
+            tsf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.ts
 
         if self.optPartition.ab_sym is True:
             tsf += self.grid.mirror(tsf)
@@ -150,7 +146,7 @@ def ep_kinetic(self):
         for i_KS in KSab:
             
             Tsf +=  i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) * np.sum( self.grid.wi * (np.sum(i_KS.n, axis=1)**0.5) * (eT@np.sum(i_KS.n, axis=1)**0.5) ) 
-            i_KS.V.ts = i_KS.scale * ( np.sum(i_KS.n, axis=1)**(0.5) ) * (eT @ np.sum( i_KS.n, axis=1 )**(0.5))  / (self.grid.w * np.sum(i_KS.n, axis=1) )
+            i_KS.V.ts = ( np.sum(i_KS.n, axis=1)**(0.5) ) * (eT @ np.sum( i_KS.n, axis=1 )**(0.5))  / (self.grid.w * np.sum(i_KS.n, axis=1) )
 
             # print("1", ( np.sum(i_KS.n, axis=1)**(0.5) ) )
             # print("2", (eT @ np.sum( i_KS.n, axis=1 )**(0.5)) )
@@ -159,7 +155,7 @@ def ep_kinetic(self):
             tsf += i_KS.Q * i_KS.V.ts[:,None]
 
         if self.optPartition.ab_sym:
-            tsf += tsf + self.grid.mirror(tsf)
+            tsf += self.grid.mirror(tsf)
             Tsf *= 2      
 
         # print("Yo soy Tsf", tsf)
@@ -176,11 +172,11 @@ def ep_kinetic(self):
     ###
     if self.optPartition.kinetic_part_type != "fixed":
         #if ENS_SPIN_SYM set we double the fragment energies to
-        #account for the spin flipped components
+        #account for the spin flipped components. The Q functions
+        #that weigh tsf are already relative to both components.
 
         if self.optPartition.ens_spin_sym:
             Tsf *= 2.0
-            tsf *= 2.0
 
         self.E.Ep_kin = Tsm - Tsf
         self.V.ep_kin = tsm - tsf
-- 
2.43.0


From e43251dc7b8d6e15ff3096e2a317fe1326b440d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 20/47] fix: density inversion without an initial guess and for
 two spins

---
 CADMium/inverter/linresponse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index d3a052b..0e56afb 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -18,16 +18,18 @@ def linresponse(self, n0, vs0=None):
     self.pol = pol
     self.n0  = n0
     Nelem = n0.shape[0]
-    w = self.grid.w if pol == 1 else np.hstack((self.grid.w, self.grid.w))
+    w = self.grid.w[:, None]
     
     if self.solver[0,0].veff is None:
         if vs0 is None:
             #If no initial guess is provided
             #Use the von weizacker inversion
             vs0 = (0.5 * self.grid.elap @ (n0**0.5)) / (n0**0.5 * w) 
-            vs0 -= vs[-1]
+            vs0 -= vs0[-1]
     else:
-        vs0 = self.solver[0,0].veff[:,None] if len(self.solver[0,0].veff.shape) == 1 else self.solver[0,0].veff
+        vs0 = np.stack([np.squeeze(self.solver[0,i].veff) for i in range(pol)], axis=1)
+
+    vs0 = vs0[:, None] if len(vs0.shape) == 1 else vs0
 
     self.vs = np.zeros_like(vs0)
     self.us = np.zeros((1, pol))
@@ -91,7 +93,7 @@ def linresponse(self, n0, vs0=None):
                 output[j,i] = res_lsq
 
             self.vs[:,i] = res_lsq.x
-            self.us[i]   = self.solver[0,i].get_homo()
+            self.us[0,i] = self.solver[0,i].get_homo()
 
 
     return flag, output
-- 
2.43.0


From f1593e92ab64b47ad9a697b4c73dec1f51f0f0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 21/47] fix: inversion Jacobian includes the response of every
 angular momentum

---
 CADMium/inverter/inverter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CADMium/inverter/inverter.py b/CADMium/inverter/inverter.py
index 2cbebc8..e7df286 100644
--- a/CADMium/inverter/inverter.py
+++ b/CADMium/inverter/inverter.py
@@ -209,7 +209,8 @@ class Inverter():
         """
 
         #Calculate jacobian of error function.
-        Jac = np.vstack( ( self.B @ self.solver[0,spin].chi, np.zeros((1, self.Nelem)) ) )
+        chi = sum( np.asarray(i_solver.chi) for i_solver in self.solver[:,spin] )
+        Jac = np.vstack( ( self.B @ chi, np.zeros((1, self.Nelem)) ) )
         Jac = np.asarray(Jac)
         Jac[-1, -1] = 1
 
-- 
2.43.0


From b75409a0a56a2cb5a0b969bd48206dbca433f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 22/47] fix: reduced density gradient is computed and returned
 for both spins

---
 CADMium/psgrid/psgrid.py       | 2 +-
 CADMium/psgrid/reduced_grad.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/CADMium/psgrid/psgrid.py b/CADMium/psgrid/psgrid.py
index c3d839a..9e4830c 100644
--- a/CADMium/psgrid/psgrid.py
+++ b/CADMium/psgrid/psgrid.py
@@ -269,7 +269,7 @@ class Psgrid():
         factorize_laplacian(self, DISP)
 
     def reduced_grad(self, n):
-        reduced_grad(self, n)
+        return reduced_grad(self, n)
 
     def plotter(self, fin, max=1, sym=1):
         full, z, x = plotter(self, fin, max, sym)
diff --git a/CADMium/psgrid/reduced_grad.py b/CADMium/psgrid/reduced_grad.py
index b3a64bf..a1f13e9 100644
--- a/CADMium/psgrid/reduced_grad.py
+++ b/CADMium/psgrid/reduced_grad.py
@@ -12,12 +12,13 @@ def reduced_grad(self, n):
     pol = n.shape[1]
 
     if pol == 1:
-        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) @ n** (4/3) )
+        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) * n** (4/3) )
 
     if pol == 2:
         s = np.zeros_like(n)
-        s[:, 0] = self.sigma(2 * n[:,0])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,0])**(4/3))
-        s[:, 0] = self.sigma(2 * n[:,1])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,1])**(4/3))
+        for i in range(2):
+            ni = 2 * n[:,i][:,None]
+            s[:, i] = (self.sigma(ni)**(0.5) / (2 * (3*np.pi**2)**(1/3) * ni**(4/3)))[:,0]
 
     #WARNING: S might be zero, in that case, that particular cell should be turned to zero#
 
-- 
2.43.0


From 370c7ba7c4e03cc2c52a265248a5d850d599f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:00 +0000
Subject: [PATCH 23/47] fix: estimate the lowest level below the united atom's
 so no occupied orbital is skipped

---
 CADMium/kohnsham/kohnsham.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index 0711d21..471cab1 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -124,10 +124,13 @@ class Kohnsham():
             for j in range(self.Nmo.shape[1]):
                 self.solver[i,j].hamiltonian()
 
+                #Search for the lowest levels from below all of them: no level of the bare
+                #nuclei lies under the one of the united atom, -(Za+Zb)**2 / (2 * (m+1)**2)
+                united = 0.75 * (self.Za + self.Zb)**2
                 if self.optKS.interaction_type == "ni":
-                    self.solver[i,j].e0 = -1.5 * max(self.Za, self.Zb)**2 / (self.solver[i,j].m + 1)**2
+                    self.solver[i,j].e0 = -max(1.5 * max(self.Za, self.Zb)**2, united) / (self.solver[i,j].m + 1)**2
                 else:
-                    self.solver[i,j].e0 = - max(self.Za, self.Zb)**2 / (self.solver[i,j].m + 1)**2 
+                    self.solver[i,j].e0 = -max(max(self.Za, self.Zb)**2, united) / (self.solver[i,j].m + 1)**2
 
 
     # def scf(self, optKS):
-- 
2.43.0


From 0193b4deeb5d8302e495962e35037dd3838edfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 24/47] fix: each orbital inversion returns its own report
 instead of sharing one class object

---
 CADMium/inverter/orbitalinvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index e345268..2542a36 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -472,7 +472,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
         flag = True
 
 
-    inv_info = inversion_info
+    inv_info = inversion_info()
     inv_info.nfev       = iter 
     inv_info.optimality = res
     output = np.empty((1,1), dtype=object)
-- 
2.43.0


From 372fe46f73d342789d4c9539d0875288c2ff0939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:23 +0000
Subject: [PATCH 25/47] fix: integrals of integer-valued two-column functions
 are not truncated

---
 CADMium/psgrid/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/integrate.py b/CADMium/psgrid/integrate.py
index d3998fd..ab674fc 100644
--- a/CADMium/psgrid/integrate.py
+++ b/CADMium/psgrid/integrate.py
@@ -16,7 +16,7 @@ def integrate(self, f):
         integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f)
 
     else:
-        integral = np.zeros_like(f)
+        integral = np.zeros_like(f, dtype=float)
         for i in range(f.shape[1]):
             integral[:, i] = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f[:, i])
 
-- 
2.43.0


From 78b5314ca623be0ee72c61037125a8c3f3ca337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:48 +0000
Subject: [PATCH 26/47] fix: both end corrections count when a direction has a
 single integration block

---
 CADMium/common/NC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/common/NC.py b/CADMium/common/NC.py
index 6f975b2..612beb4 100644
--- a/CADMium/common/NC.py
+++ b/CADMium/common/NC.py
@@ -29,8 +29,8 @@ def NC(N, Nm):
 
     NP = (N-1) * Nm + 1
     wi = np.zeros(NP)
-    wi[:N-1] = w1[:]
-    wi[-(N-1):] = w1[::-1]
+    wi[:N-1] += w1[:]
+    wi[-(N-1):] += w1[::-1]
 
     for i in range(Nm):
         wi[np.array(range(N))+(N-1)*(i)] = wi[np.array(range(N))+(N-1)*(i)] + w
-- 
2.43.0


From a6d6a11305e2f0d6a163f3111d0754d4e6c8b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:19 +0000
Subject: [PATCH 27/47] fix: mixed-spin gradient product is taken pointwise

---
 CADMium/psgrid/sigma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/sigma.py b/CADMium/psgrid/sigma.py
index f4fbad8..4b13982 100644
--- a/CADMium/psgrid/sigma.py
+++ b/CADMium/psgrid/sigma.py
@@ -16,7 +16,7 @@ def sigma(self, n):
         sigma = np.zeros((npoints, 3))
         sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) ** 2
         sigma[:,0] = (self.grada @ n[:, 0]) ** 2 +  (self.gradr @ n[:, 0]) ** 2
-        sigma[:,1] = self.grada @ n[:, 0] * self.grada @ n[:,1] + self.gradr @ n[:, 0] * self.gradr @ n[:,1]
+        sigma[:,1] = (self.grada @ n[:, 0]) * (self.grada @ n[:,1]) + (self.gradr @ n[:, 0]) * (self.gradr @ n[:,1])
 
     else:
         raise ValueError("Shape of density in second axis should not be greater than 2")
-- 
2.43.0


From ef6d7702bc61f35a55781f3f276ad3d4b4bfcf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:54 +0000
Subject: [PATCH 28/47] fix: eigensolver starts from a vector without mirror
 symmetry so no parity is missed

---
 CADMium/pssolver/pssolver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CADMium/pssolver/pssolver.py b/CADMium/pssolver/pssolver.py
index 7040aa7..48e2be3 100644
--- a/CADMium/pssolver/pssolver.py
+++ b/CADMium/pssolver/pssolver.py
@@ -83,7 +83,9 @@ class i_solver():
         self.v0 = np.ones(self.grid.Nelem)
         # self.default_e0 = -20.0
 
-        self.opt = {"tol" : 1e-16, "v0":np.ones((self.grid.Nelem, 1))}
+        #The starting vector has no symmetry: from a mirror symmetric one the
+        #eigensolver may never find the orbitals of the other parity
+        self.opt = {"tol" : 1e-16, "v0":np.random.default_rng(0).uniform(0.5, 1.5, (self.grid.Nelem, 1))}
 
         self.Nlvls = Nlvls
         self.pol = pol
-- 
2.43.0


From 3aaca40d21fdbed5e3bf581dd04c3fe84553e27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:25 +0000
Subject: [PATCH 29/47] fix: a continued Kohn-Sham run refines orbitals
 iteratively only once the density has settled

---
 CADMium/kohnsham/scf.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 40ef362..540f7cf 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -77,10 +77,7 @@ def scf(self, optKS):
             self.veff = (self.veff + self.grid.mirror(self.grid.spinflip(self.veff))) / 2
 
         #Calculate new density
-        if optKS.iterative is True and optKS.continuing is True:
-            nout = self.calc_density(ITERATIVE=optKS.iterative)
-        else:
-            nout = self.calc_density(ITERATIVE=optKS.iterative, dif=diff)
+        nout = self.calc_density(ITERATIVE=optKS.iterative, dif=diff)
 
 
         #Set new density with linear mixing
-- 
2.43.0


From 2c608010b1970ae135b33d61840953ae4ce470a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:40 +0000
Subject: [PATCH 30/47] fix: evaluate fragment energies the overlap
 approximations ask for before the first iteration

---
 CADMium/partition/energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/energy.py b/CADMium/partition/energy.py
index 7c7f98e..70a2662 100644
--- a/CADMium/partition/energy.py
+++ b/CADMium/partition/energy.py
@@ -27,7 +27,7 @@ def energy(self):
         iks_b = [self.KSb, self.KSB]
 
     for i_KS in iks_a:
-        if i_KS.E is None:
+        if not hasattr(i_KS.E, 'Ts'): #Not evaluated yet
             i_KS.energy()
 
         self.E.Ea += i_KS.scale * i_KS.E.E
@@ -52,7 +52,7 @@ def energy(self):
         self.E.Eb = 0.0
 
         for i_KS in iks_b:
-            if i_KS.E is None:
+            if not hasattr(i_KS.E, 'Ts'): #Not evaluated yet
                 i_KS.energy()
 
             self.E.Eb += i_KS.scale * i_KS.E.E
-- 
2.43.0


From dd4c0fb0eca9a9082e6eb4ed93b85101c940ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:40 +0000
Subject: [PATCH 31/47] fix: derivative of the fragment overlap is that of the
 spin-summed densities, per component like the other terms

---
 CADMium/partition/vp_overlap.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/CADMium/partition/vp_overlap.py b/CADMium/partition/vp_overlap.py
index 9313a0b..7f32bd1 100644
--- a/CADMium/partition/vp_overlap.py
+++ b/CADMium/partition/vp_overlap.py
@@ -23,9 +23,8 @@ def vp_overlap(self):
     
     for KSa in iksa:
         #Functional derivative of the overlap
-        KSa.V.dSdn = KSa.scale * 0.5 * (self.nb_frac / self.na_frac)**0.5
-        if self.optPartition is True:
-            KSa.V.dSdn = np.repeat(KSa.V.dSdn, 2, axis=1)
+        KSa.V.dSdn = 0.5 * (np.sum(self.nb_frac, axis=1) / np.sum(self.na_frac, axis=1))[:,None]**0.5
+        KSa.V.dSdn = np.repeat(KSa.V.dSdn, self.pol, axis=1)
         #Remove any Nans
         KSa.V.dSdn[ np.isinf(KSa.V.dSdn) ] = 0.0
         KSa.V.dSdn[ np.isnan(KSa.V.dSdn) ] = 0.0
@@ -33,9 +32,8 @@ def vp_overlap(self):
 
     for KSb in iksb:
         #Functional derivative of the overlap
-        KSb.V.dSdn = KSb.scale * 0.5 *  (self.na_frac / self.nb_frac)**0.5
-        if self.optPartition is True:
-            KSb.V.dSdn = np.repeat(KSb.V.dSdn, 2, axis=1)
+        KSb.V.dSdn = 0.5 * (np.sum(self.na_frac, axis=1) / np.sum(self.nb_frac, axis=1))[:,None]**0.5
+        KSb.V.dSdn = np.repeat(KSb.V.dSdn, self.pol, axis=1)
         #Remove any Nans
         KSb.V.dSdn[ np.isinf(KSb.V.dSdn) ] = 0.0
         KSb.V.dSdn[ np.isnan(KSb.V.dSdn) ] = 0.0
-- 
2.43.0


From 5c220e984fd1564284d49a8db52aa94233fd56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:40 +0000
Subject: [PATCH 32/47] fix: sign of the correlated Hartree term in the overlap
 potential (derivative of 1-F)

---
 CADMium/partition/vp_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_hxc.py b/CADMium/partition/vp_hxc.py
index a6b6458..6bf938d 100644
--- a/CADMium/partition/vp_hxc.py
+++ b/CADMium/partition/vp_hxc.py
@@ -81,7 +81,7 @@ def vp_hxc(self):
             i_KS.V.vp_hxc = self.E.F * (i_KS.V.vp_h + i_KS.V.vp_x + i_KS.V.vp_c) + \
                             + (self.E.Ep_h + self.E.Ep_x + self.E.Ep_c) * i_KS.V.dFdn \
                             + (1 - self.E.F) * (i_KS.V.vhcor) \
-                            + (self.E.Ehcor) * i_KS.V.dFdn
+                            - (self.E.Ehcor) * i_KS.V.dFdn
 
     # elif self.optPartition.hxc_part_type == "overlap_hxc_2":
     #     #Overlap approximation for H2p
-- 
2.43.0


From fd0370d4f93ec4fba86046c03b5c751f583436a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 33/47] fix: a new partition run starts from the nuclear
 potential's density, not from an earlier run's orbitals

---
 CADMium/partition/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 1caa474..921984f 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -113,7 +113,7 @@ def scf(self, optSCF={}):
             i_KS.vext = np.zeros_like(i_KS.vnuc)
             i_KS.vhxc = np.zeros_like(i_KS.vnuc)
             i_KS.set_effective_potential() # Sets nuclear potential
-            nout = i_KS.calc_density(optSCF.iterative)
+            nout = i_KS.calc_density()
             i_KS.n = nout
             i_KS.calc_chempot()
 
-- 
2.43.0


From 3242bbba9921a05ed40d0465594aa48a365c3d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 34/47] fix: a new partition run evaluates the fragment
 energies of its initial guess instead of reusing an earlier run's

---
 CADMium/partition/scf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 921984f..dd8d921 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -116,6 +116,7 @@ def scf(self, optSCF={}):
             nout = i_KS.calc_density()
             i_KS.n = nout
             i_KS.calc_chempot()
+            i_KS.energy() #Approximations that ask for energies get those of the guess
 
     if self.optPartition.ab_sym == True:
         self.mirrorAB()
-- 
2.43.0


From 3f6a88f8ba92e6d1b87e8eef177e85f53ba24fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 35/47] fix: the inverter's chemical potential is the highest
 occupied level over all angular channels

---
 CADMium/inverter/linresponse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 0e56afb..4bc8fd2 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -58,7 +58,7 @@ def linresponse(self, n0, vs0=None):
 
         #Get solution from least squares object
         self.vs[:,0] = res_lsq.x
-        self.us[0] = self.solver[0,0].get_homo()
+        self.us[0] = max(j_solver.get_homo() for j_solver in self.solver[:,0])
         flag[0,0] = res_lsq.status
         output[0,0] = res_lsq
 
@@ -93,7 +93,7 @@ def linresponse(self, n0, vs0=None):
                 output[j,i] = res_lsq
 
             self.vs[:,i] = res_lsq.x
-            self.us[0,i] = self.solver[0,i].get_homo()
+            self.us[0,i] = max(j_solver.get_homo() for j_solver in self.solver[:,i])
 
 
     return flag, output
-- 
2.43.0


From 3b3d1f6b07543c63ef5c0b89ca020e00a823f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 36/47] fix: orbitalinvert scales the last partially filled
 orbital instead of failing with an index error

---
 CADMium/inverter/orbitalinvert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index 2542a36..fd73144 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -198,7 +198,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
     isolver = self.solver[:, ispin]
     Nsol = isolver.shape[0]
-    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int)
+    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=float), np.empty((Nsol), dtype=int)
     for i, j in enumerate(isolver):
         j.hamiltonian()
         Nmo[i] = j.Nmo
@@ -222,17 +222,17 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 nu = N[it] - np.floor(N[it])
             
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
         
         else:
-            D[it,0] = 4 *  np.ones((Nmo[it,0], 1))
+            D[it,0] = 4 *  np.ones( (Nmo[it], 1) )
             if isolver[it].pol == 1:
                 nu = N[it] / 4 - np.floor(N[it] / 4)
             else:
                 nu = N[it] / 2 - np.floor(N[it] / 2)
 
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
 
 
     H_matrices = []
-- 
2.43.0


From ec73989db49d840dacf5934f08610570578af851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 37/47] fix: kinetic energy density of an ens_spin_sym inverter
 covers both spins

---
 CADMium/inverter/get_ts_WFI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/get_ts_WFI.py b/CADMium/inverter/get_ts_WFI.py
index 5190b5e..104f9b0 100644
--- a/CADMium/inverter/get_ts_WFI.py
+++ b/CADMium/inverter/get_ts_WFI.py
@@ -32,7 +32,7 @@ def get_ts_WFI(self):
         #Get Kinetic Energy Density
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
-                if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                if self.solver[i,0].ked_WFI is not None:
+                    ts[:,j] += np.sum( self.solver[i,0].ked_WFI, axis=1 ) 
 
     return ts
\ No newline at end of file
-- 
2.43.0


From 1aa90385cc404bedc217c5f0f4f180c1e8ddc424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 38/47] fix: wuyang inversion with ens_spin_sym returns one
 column per spin for a spin-resolved density

---
 CADMium/inverter/linresponse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 4bc8fd2..7c608bf 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -63,9 +63,10 @@ def linresponse(self, n0, vs0=None):
         output[0,0] = res_lsq
 
         #Copy information
-        self.vs = np.hstack((self.vs, self.vs))
-        self.us = np.hstack((self.us, self.us))
-        self.solver[0,1].setveff(self.vs[:,0])
+        self.vs = np.hstack((self.vs[:,:1], self.vs[:,:1]))
+        self.us = np.hstack((self.us[:,:1], self.us[:,:1]))
+        for j_solver in self.solver[:,1]:
+            j_solver.setveff(self.vs[:,0])
         flag[0,1] = res_lsq.status
         output[0,1] = res_lsq
 
-- 
2.43.0


From 0aa430ed77d8d71339a5766f0f6eb5d0788ff91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 39/47] fix: two-orbital kinetic potentials are the derivative
 of the two-orbital kinetic energy

---
 CADMium/partition/vp_kinetic.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 6f4949c..8dd34da 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -129,26 +129,27 @@ def vp_kinetic(self):
             iks = [self.KSa, self.KSA, self.KSb, self.KSB]
 
         for i_KS in iks:
-            i_KS.V.vt = (eT @ i_KS.n ** 0.5) / (2 * self.grid.w[:,None] * i_KS.n**0.5)
+            i_KS.V.vt = (eT @ i_KS.n ** 0.5) / (self.grid.w[:,None] * i_KS.n**0.5)
 
         integrand = (n1**(0.5) - n2**(0.5))**2
         C = self.grid.integrate( np.sum(integrand, axis=1)  ) # If pol == 2 we may need to sum axis ==1 
 
         phi1 = (n1**(0.5) - n2**(0.5)) / C**0.5  
-        phi2 = ((n1 + n2)/2 - phi1**2)**0.5
+        Npair = self.grid.integrate( np.sum(n1 + n2, axis=1) ) / 2
+        phi2 = ((n1 + n2)/Npair - phi1**2)**0.5
 
         # Functional derivative of KEF wrt phi1
         dTO_dphi1 = (eT @ phi1) / self.grid.w[:,None]
         dTO_dphi2 = (eT @ phi2) / self.grid.w[:,None]
 
         # Functional derivative of KEF wrt density one
-        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (       dTO_dphi1)[:,0] ))
+        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
         dTO1_dn2 = -(1/2) * (C * n2)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
 
-        dTO2_dn1 = dTO_dphi2 * ( (1/4 - 1/2*(C * n1)**(-0.5)*phi1) /phi2) + 0.5 * (phi1/(C*n1)**(0.5)) * self.grid.integrate( (phi1**2 / phi2 * dTO_dphi2)[:,0] )
-        dTO2_dn2 = dTO_dphi2 * ( (1/4 + 1/2*(C * n2)**(-0.5)*phi1) /phi2) - 0.5 * (phi1/(C*n2)**(0.5)) * self.grid.integrate( (phi1**2 / phi2 * dTO_dphi2)[:,0] )
+        dTO2_dn1 = dTO_dphi2 * ( (1/(2*Npair) - 1/2*(C * n1)**(-0.5)*phi1) /phi2) + 0.5 * (phi1/(C*n1)**(0.5)) * self.grid.integrate( (phi1**2 / phi2 * dTO_dphi2)[:,0] )
+        dTO2_dn2 = dTO_dphi2 * ( (1/(2*Npair) + 1/2*(C * n2)**(-0.5)*phi1) /phi2) - 0.5 * (phi1/(C*n2)**(0.5)) * self.grid.integrate( (phi1**2 / phi2 * dTO_dphi2)[:,0] )
 
-        self.V.vt = 2 * np.concatenate( (dTO1_dn1 + dTO2_dn1, dTO1_dn2 + dTO2_dn2), axis=1 )
+        self.V.vt = 2 * Npair * np.concatenate( (dTO1_dn1 + dTO2_dn1, dTO1_dn2 + dTO2_dn2), axis=1 )
 
     elif self.optPartition.kinetic_part_type == "fixed":
         pass
-- 
2.43.0


From 15336611e525a4b77ff23d20f3cd0d0e61a3b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:37 +0000
Subject: [PATCH 40/47] fix: wuyang inversion with ens_spin_sym reports on
 every angular channel

---
 CADMium/inverter/linresponse.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 7c608bf..d2f0bfc 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -59,16 +59,15 @@ def linresponse(self, n0, vs0=None):
         #Get solution from least squares object
         self.vs[:,0] = res_lsq.x
         self.us[0] = max(j_solver.get_homo() for j_solver in self.solver[:,0])
-        flag[0,0] = res_lsq.status
-        output[0,0] = res_lsq
+        flag[:] = res_lsq.status
+        for j in np.ndindex(output.shape):
+            output[j] = res_lsq
 
         #Copy information
         self.vs = np.hstack((self.vs[:,:1], self.vs[:,:1]))
         self.us = np.hstack((self.us[:,:1], self.us[:,:1]))
         for j_solver in self.solver[:,1]:
             j_solver.setveff(self.vs[:,0])
-        flag[0,1] = res_lsq.status
-        output[0,1] = res_lsq
 
     else:
         for i in range(pol):
-- 
2.43.0


From 47fde594a67d57594b98e126e616f3327211d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 41/47] fix: orbitalinvert leaves the arrays of an earlier
 inversion alone

---
 CADMium/inverter/orbitalinvert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index fd73144..9d2ba3e 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -190,6 +190,10 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
     if self.vs is None and self.us is None:
         self.vs = np.zeros((self.grid.Nelem, self.solver.shape[1]))
         self.us = np.zeros((self.grid.Nelem, self.solver.shape[1]))
+    else:
+        #The result of an earlier inversion is not ours to overwrite
+        self.vs = self.vs.copy()
+        self.us = self.us.copy()
 
     Nelem = self.grid.Nelem
     Wi = spdiags( 2*np.pi * self.grid.hr * self.grid.ha * self.grid.wi, 0, Nelem, Nelem)
-- 
2.43.0


From f7666e73cacdc0c8f465d3209a272d2a365b8ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 42/47] fix: initial guess of the inversion with fragments that
 have different numbers of angular channels (property C18)

---
 CADMium/partition/initialguessinvert.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index 9ae016e..1927384 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -59,27 +59,25 @@ def initialguessinvert(self, ispin=0):
         m   = None
 
         #--> Alpha Kohn Sham object
-        if len( self.KSa.solver[:,ispin]) >= i-1:
+        if len( self.KSa.solver[:,ispin]) >= i:
             phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
             self.KSa.solver[i-1, ispin].hamiltonian()
             H0  = self.KSa.solver[i-1, ispin].H0
-            m   = self.KSb.solver[i-1, ispin].m
+            m   = self.KSa.solver[i-1, ispin].m
 
         if self.ens: # Ensemble?
-            if len( self.KSA.solver[:,ispin]) >= i-1:
+            if len( self.KSA.solver[:,ispin]) >= i:
                 phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1)
                 self.KSA.solver[i-1, ispin].hamiltonian()
                 H0  = self.KSA.solver[i-1, ispin].H0
                 m   = self.KSA.solver[i-1, ispin].m
 
         if self.optPartition.ab_sym is True:
-            phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
-            if self.ens:
-                phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1 )
+            phi = np.append(phi, phi, axis = 1 )
 
         #--> Beta Kohn Sham object
         else:
-            if len(self.KSb.solver) >= i-1:
+            if len(self.KSb.solver) >= i:
                 phi = np.append(phi, self.KSb.solver[i-1, ispin].phi, axis = 1 )
                 if H0 is None:
                     H0 = self.KSb.solver[i-1, ispin].H0
@@ -87,7 +85,7 @@ def initialguessinvert(self, ispin=0):
                     m = self.KSb.solver[i-1, ispin].m
             
             if self.ens: # Ensemble?
-                if len(self.KSB.solver) >= i-1:
+                if len(self.KSB.solver) >= i:
                     phi = np.append(phi, self.KSB.solver[i-1, ispin].phi, axis = 1 )
                     if H0 is None:
                         H0 = self.KSB.solver[i-1, ispin].H0
-- 
2.43.0


From 069135664e93b4330370a88419f10ae0493b73c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 43/47] fix: initial guess of the inversion repeats fragment A
 instead of mirroring it with ab_sym (property C18)

---
 CADMium/partition/initialguessinvert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index 1927384..7528c15 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -73,7 +73,8 @@ def initialguessinvert(self, ispin=0):
                 m   = self.KSA.solver[i-1, ispin].m
 
         if self.optPartition.ab_sym is True:
-            phi = np.append(phi, phi, axis = 1 )
+            # Fragment B is the mirror image of fragment A
+            phi = np.append(phi, self.grid.mirror(phi), axis = 1 )
 
         #--> Beta Kohn Sham object
         else:
-- 
2.43.0


From b0a9f777f7eb069a4f12278a5de34c9b78068def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:04 +0000
Subject: [PATCH 44/47] fix: hand the initial guess orbitals to the inversion
 one after the other, as it reads them (property C18)

---
 CADMium/partition/vp_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 8dd34da..096d890 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -88,7 +88,7 @@ def vp_kinetic(self):
             if self.pol == 2:
                 ntarget = 2 * ntarget
             phi0, e0, vs0 = self.initialguessinvert(ispin)
-            phi0 = phi0.flatten()[:,None]
+            phi0 = phi0.flatten("F")[:,None]
             e0   = e0.flatten()
 
             #Invert molecular problem:
-- 
2.43.0


From 725f942819c343ac1a1e4bc9ba5a274ad7a14d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:22 +0000
Subject: [PATCH 45/47] fix: axis_plot no longer leaves out the end of the
 outermost shell

---
 CADMium/psgrid/psgrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CADMium/psgrid/psgrid.py b/CADMium/psgrid/psgrid.py
index 9e4830c..e429492 100644
--- a/CADMium/psgrid/psgrid.py
+++ b/CADMium/psgrid/psgrid.py
@@ -296,6 +296,10 @@ class Psgrid():
                 ys.append(fin[i+1])
                 single = self.Z[i+1]
                 initial = False
+
+        #End of the outermost shell
+        xs.append(self.Z[-1])
+        ys.append(fin[-1])
                 
         indx = np.argsort(xs)
         xs = np.array(xs)
-- 
2.43.0


From 96e00546bbac6f2c08419a5e6ad90f819e014b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:06 +0000
Subject: [PATCH 46/47] fix: partition energy densities weigh fragments by
 their share of all electrons, for two spins and spin-symmetric ensembles too
 (property C17)

---
 CADMium/partition/ep_hxc.py     | 16 ++++++++--------
 CADMium/partition/ep_kinetic.py |  6 +++---
 CADMium/partition/partition.py  |  9 +++++++++
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index 9acd1d1..297429e 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -27,7 +27,7 @@ def ep_hxc(self):
 
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
-                    ehf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.eh[:, None]
+                    ehf += self.electron_share(i_KS)[:,None] * i_KS.V.eh[:, None]
             ehf += self.grid.mirror(ehf)
 
         else:
@@ -37,7 +37,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA, self.KSb, self.KSB]
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
-                    ehf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.eh[:, None]
+                    ehf += self.electron_share(i_KS)[:,None] * i_KS.V.eh[:, None]
 
         
         ###Exchange
@@ -48,7 +48,7 @@ def ep_hxc(self):
 
         #Fragment exchange energies
         Exf = self.E.Exf # Start with zero and sum fragment Eh
-        exf = np.zeros_like(self.nf)
+        exf = np.zeros_like(exm)
 
         if self.optPartition.ab_sym is True:
             if not self.ens:
@@ -57,7 +57,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    exf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.ex
+                    exf += self.electron_share(i_KS)[:,None] * i_KS.V.ex
             exf += self.grid.mirror(exf)
 
         else:
@@ -68,7 +68,7 @@ def ep_hxc(self):
 
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    exf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.ex
+                    exf += self.electron_share(i_KS)[:,None] * i_KS.V.ex
 
         ###Correlation
         Ecm = self.e_c
@@ -76,7 +76,7 @@ def ep_hxc(self):
 
         #Fragment correlation energies
         Ecf = self.E.Ecf #Start with zero and sum fragment Eh
-        ecf = np.zeros_like(self.nf)
+        ecf = np.zeros_like(ecm)
 
         if self.optPartition.ab_sym is True:
             if not self.ens:
@@ -85,7 +85,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    ecf += np.sum(i_KS.Q, axis=1)[:, None] * i_KS.V.ec
+                    ecf += self.electron_share(i_KS)[:,None] * i_KS.V.ec
 
             ecf += self.grid.mirror(ecf)
 
@@ -96,7 +96,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA, self.KSb, self.KSB]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    ecf += np.sum(i_KS.Q, axis=1)[:, None] * i_KS.V.ec
+                    ecf += self.electron_share(i_KS)[:,None] * i_KS.V.ec
 
         self.E.Ep_h = Ehm - Ehf 
         self.E.Ep_x = Exm - Exf 
diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 7f70499..9d0126e 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -36,7 +36,7 @@ def ep_kinetic(self):
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
 
-            tsf += np.sum(i_KS.Q, axis=1) * i_KS.V.ts
+            tsf += self.electron_share(i_KS) * i_KS.V.ts
 
     elif self.optPartition.kinetic_part_type == "libxcke" or \
          self.optPartition.kinetic_part_type == "paramke":
@@ -59,7 +59,7 @@ def ep_kinetic(self):
         # Ts and ts for fragments obtained in ep_kinetic
         for iKS in iks:
             Tsf += iKS.scale * iKS.V.Ts
-            tsf += np.sum( iKS.Q, axis=1 ) * iKS.V.ts[:,0]
+            tsf += self.electron_share(iKS) * iKS.V.ts[:,0]
 
     elif self.optPartition.kinetic_part_type == "inversion":
         
@@ -99,7 +99,7 @@ def ep_kinetic(self):
 
             i_KS.V.ts = np.sum( ts, axis=1)[:,None] / np.sum(i_KS.n, axis=1)[:,None]
 
-            tsf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.ts
+            tsf += self.electron_share(i_KS)[:,None] * i_KS.V.ts
 
         if self.optPartition.ab_sym is True:
             tsf += self.grid.mirror(tsf)
diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 14d5524..e82875f 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -393,6 +393,15 @@ class Partition():
             i.Q = i.scale * i.n / self.nf
             i.Q = np.nan_to_num(i.Q, nan=0.0, posinf=0.0, neginf=0.0)
 
+    def electron_share(self, i_KS):
+        """
+        Fraction of the electrons at each point (both spins) that belong to a component
+        """
+        q = i_KS.scale * np.sum(i_KS.n, axis=1) / np.sum(self.nf, axis=1)
+        if self.optPartition.ens_spin_sym is True:
+            q = 2.0 * q #Spin flipped copy
+        return np.nan_to_num(q, nan=0.0, posinf=0.0, neginf=0.0)
+
 
     def vp_nuclear(self):
         vp_nuclear(self)
-- 
2.43.0


From 37a2a439e057cd6dd06de21976cfadc429fd0527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:07 +0000
Subject: [PATCH 47/47] fix: a partition run continues from nothing but
 densities (property C20)

---
 CADMium/partition/scf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index dd8d921..fb7ad5b 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -107,6 +107,11 @@ def scf(self, optSCF={}):
     for i_KS in KSab:
         if optSCF.continuing is True:
             assert i_KS.n is not None, "optSCF.continuing is True set but there is no input density"
+            #The input density is all it takes: nothing has been applied to a fragment never solved before
+            i_KS.vext = np.zeros_like(i_KS.vnuc) if i_KS.vext is None else i_KS.vext
+            i_KS.vhxc = np.zeros_like(i_KS.vnuc) if i_KS.vhxc is None else i_KS.vhxc
+            if i_KS.veff is None:
+                i_KS.set_effective_potential()
         
         else:
             #We need initial guesses
-- 
2.43.0

