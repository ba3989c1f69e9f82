From e5934a895ccbad1a075c774257589e3df2014543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:40 +0000
Subject: [PATCH 01/44] fix: Kohnsham energy dataclass uses mutable array
 defaults, so the package cannot be imported on Python >= 3.11

---
 CADMium/kohnsham/kohnsham.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index 12f3397..fa6c7b7 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -2,7 +2,7 @@
 kohnsham.py
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from multiprocessing import Process, Manager, current_process
 from pydantic import validator, BaseModel
 import numpy as np
@@ -25,8 +25,8 @@ class E:
     E  : float = 0.0 
     Ec : float = 0.0
     Ex : float = 0.0
-    Eks: np.ndarray = np.empty((1,1))
-    Vks: np.ndarray = np.empty((1,1))
+    Eks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
+    Vks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
 
 class KohnShamOptions(BaseModel):
     interaction_type : str = 'dft'
-- 
2.43.0


From fdb3d3c2427b46e7e1f432eb66dee5c62264a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 02/44] fix: cross-spin density gradient product is evaluated
 left to right and collapses to one number

---
 CADMium/psgrid/sigma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/sigma.py b/CADMium/psgrid/sigma.py
index f4fbad8..4b13982 100644
--- a/CADMium/psgrid/sigma.py
+++ b/CADMium/psgrid/sigma.py
@@ -16,7 +16,7 @@ def sigma(self, n):
         sigma = np.zeros((npoints, 3))
         sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) ** 2
         sigma[:,0] = (self.grada @ n[:, 0]) ** 2 +  (self.gradr @ n[:, 0]) ** 2
-        sigma[:,1] = self.grada @ n[:, 0] * self.grada @ n[:,1] + self.gradr @ n[:, 0] * self.gradr @ n[:,1]
+        sigma[:,1] = (self.grada @ n[:, 0]) * (self.grada @ n[:,1]) + (self.gradr @ n[:, 0]) * (self.gradr @ n[:,1])
 
     else:
         raise ValueError("Shape of density in second axis should not be greater than 2")
-- 
2.43.0


From aef13a92de7fabeb2784ef04d95483188c8d3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 03/44] fix: reduced_grad always raises, never fills the second
 spin and drops its result

---
 CADMium/psgrid/psgrid.py       | 2 +-
 CADMium/psgrid/reduced_grad.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/psgrid/psgrid.py b/CADMium/psgrid/psgrid.py
index c3d839a..9e4830c 100644
--- a/CADMium/psgrid/psgrid.py
+++ b/CADMium/psgrid/psgrid.py
@@ -269,7 +269,7 @@ class Psgrid():
         factorize_laplacian(self, DISP)
 
     def reduced_grad(self, n):
-        reduced_grad(self, n)
+        return reduced_grad(self, n)
 
     def plotter(self, fin, max=1, sym=1):
         full, z, x = plotter(self, fin, max, sym)
diff --git a/CADMium/psgrid/reduced_grad.py b/CADMium/psgrid/reduced_grad.py
index b3a64bf..2370778 100644
--- a/CADMium/psgrid/reduced_grad.py
+++ b/CADMium/psgrid/reduced_grad.py
@@ -12,12 +12,12 @@ def reduced_grad(self, n):
     pol = n.shape[1]
 
     if pol == 1:
-        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) @ n** (4/3) )
+        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) * n** (4/3) )
 
     if pol == 2:
         s = np.zeros_like(n)
-        s[:, 0] = self.sigma(2 * n[:,0])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,0])**(4/3))
-        s[:, 0] = self.sigma(2 * n[:,1])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,1])**(4/3))
+        s[:, 0] = self.sigma(2 * n[:,[0]])[:,0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,0])**(4/3))
+        s[:, 1] = self.sigma(2 * n[:,[1]])[:,0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,1])**(4/3))
 
     #WARNING: S might be zero, in that case, that particular cell should be turned to zero#
 
-- 
2.43.0


From 08055c519a0b3524cd8d80a7a3cfef231ef6c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 04/44] fix: Newton-Cotes end corrections overwrite each other
 when there is a single block

---
 CADMium/common/NC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/common/NC.py b/CADMium/common/NC.py
index 6f975b2..612beb4 100644
--- a/CADMium/common/NC.py
+++ b/CADMium/common/NC.py
@@ -29,8 +29,8 @@ def NC(N, Nm):
 
     NP = (N-1) * Nm + 1
     wi = np.zeros(NP)
-    wi[:N-1] = w1[:]
-    wi[-(N-1):] = w1[::-1]
+    wi[:N-1] += w1[:]
+    wi[-(N-1):] += w1[::-1]
 
     for i in range(Nm):
         wi[np.array(range(N))+(N-1)*(i)] = wi[np.array(range(N))+(N-1)*(i)] + w
-- 
2.43.0


From c80cf2b739832c7cae5304dc3266abf9d3bdec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 05/44] fix: Laplacian factors ignore the pivoting of the
 factorization, so the Hartree potential is wrong on grids where rows are
 interchanged

---
 CADMium/psgrid/factorize_laplacian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CADMium/psgrid/factorize_laplacian.py b/CADMium/psgrid/factorize_laplacian.py
index 35ea94b..10110ca 100644
--- a/CADMium/psgrid/factorize_laplacian.py
+++ b/CADMium/psgrid/factorize_laplacian.py
@@ -13,8 +13,9 @@ def factorize_laplacian(self, DISP):
         print(" Factorizing Laplacian ... \n")
         
     LU = splu(self.elap, permc_spec="NATURAL")
-    self.L_lap = LU.L
-    self.U_lap = LU.U
+    #Keep the row/column interchanges made by the factorization
+    self.L_lap = LU.L.tocsr()[LU.perm_r, :].tocsc()
+    self.U_lap = LU.U.tocsc()[:, LU.perm_c]
         
     if DISP is True:
         print(" Done")
\ No newline at end of file
-- 
2.43.0


From 5c5ebb9358562be9540f7d36f2061cc52fc19bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 06/44] fix: calc_orbitals calls a misspelt method when the
 Hamiltonian is not built yet

---
 CADMium/pssolver/calc_orbitals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index af37616..f774796 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -29,7 +29,7 @@ def calc_orbitals(self, solver_id, return_dict):
         Veff = spdiags(data= W @ self.veff, diags=0, m=Nelem, n=Nelem)
 
         if self.H0 is None:
-            self.hamiltionian()
+            self.hamiltonian()
 
         #Construct Hamiltonian
         H = self.H0 + Veff
-- 
2.43.0


From 5691f6aebd4a12d5a02584c46cb7323ea549ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 07/44] fix: iter_orbitals applies an undefined or stale
 correction to an orbital that is already converged

---
 CADMium/pssolver/iter_orbitals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 3b0598b..4bc8e95 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -54,9 +54,9 @@ def iter_orbitals(self, solver_id, return_dict):
                 else:
                     x = spsolve(C, rhs)
                 
-            self.phi[:, j] -= x[:Nelem]
-            self.eig[j]    -= x[-1]
-            self.normalize_orbitals()
+                self.phi[:, j] -= x[:Nelem]
+                self.eig[j]    -= x[-1]
+                self.normalize_orbitals()
         
     else:
         self.eig = np.array([-1 / np.finfo(float).eps])
-- 
2.43.0


From a5bc66212f2a1b032c8655c672d530cbca0fabe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 08/44] fix: kinetic energy density of a fractionally occupied
 orbital uses the wrong orbital

---
 CADMium/pssolver/calc_ked_WFI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_ked_WFI.py b/CADMium/pssolver/calc_ked_WFI.py
index 956717b..5670732 100644
--- a/CADMium/pssolver/calc_ked_WFI.py
+++ b/CADMium/pssolver/calc_ked_WFI.py
@@ -41,7 +41,7 @@ def calc_ked_WFI(self):
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional and nu != 0:
         #Normalized orbital
-        phi_norm = self.phi[:,i] / self.grid.integrate( self.phi[:, int(Nocc+1) ]**2)**0.5
+        phi_norm = self.phi[:,int(Nocc)] / self.grid.integrate( self.phi[:, int(Nocc) ]**2)**0.5
         phi_norm = phi_norm[:, None]
         self.ked_WFI += nu * ( phi_norm * (self.H0 @ phi_norm) ) / self.grid.w[:, None]
 
-- 
2.43.0


From 3e43cb729d1714debad968508b0122da58456c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 09/44] fix: solver with N = -1 (fill all orbitals) reads a
 missing attribute

---
 CADMium/pssolver/pssolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/pssolver.py b/CADMium/pssolver/pssolver.py
index e5d46fb..7040aa7 100644
--- a/CADMium/pssolver/pssolver.py
+++ b/CADMium/pssolver/pssolver.py
@@ -89,7 +89,7 @@ class i_solver():
         self.pol = pol
 
         if self.N == -1:
-            if self.polarization == 1:
+            if self.pol == 1:
                 self.N = 2 * self.Nmo
             else:
                 self.N = self.Nmo
-- 
2.43.0


From 1885c2d3c0874531fab6d7cdcdddf0b86dd182bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 10/44] fix: set_veff_external ignores the potential it is
 given

---
 CADMium/kohnsham/kohnsham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index fa6c7b7..0711d21 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -181,7 +181,7 @@ class Kohnsham():
         """
         for j in range(self.Nmo.shape[1]):
             for i in range(self.Nmo.shape[0]):
-                self.solver[i,j].setveff(self.veff[:,j])
+                self.solver[i,j].setveff(veff[:,j])
 
     def calc_density(self, ITERATIVE=False, dif=0.0):
         """
-- 
2.43.0


From e1cb7a680d7e3f0d0f533a0c6a43e15fb7d4bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 11/44] fix: every orbitalinvert call returns the same report
 object, so a later inversion rewrites an earlier report

---
 CADMium/inverter/orbitalinvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index e345268..2542a36 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -472,7 +472,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
         flag = True
 
 
-    inv_info = inversion_info
+    inv_info = inversion_info()
     inv_info.nfev       = iter 
     inv_info.optimality = res
     output = np.empty((1,1), dtype=object)
-- 
2.43.0


From 412386f63a4e8293fc409c859ba72d2c95f58736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 12/44] fix: Kohn-Sham SCF options that are not lower case pass
 validation but are silently ignored

---
 CADMium/kohnsham/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 62c753d..3a3200d 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -23,8 +23,8 @@ def scf(self, optKS):
     SCF method to handle self consistent field calculations
     """
 
+    optKS =  {k.lower(): v for k, v in optKS.items()}
     for i in optKS.keys():
-        i = i.lower()
         if i not in KohnShamSCFOptions().dict().keys():
             raise ValueError(f"{i} is not a valid option for the SCF procedure")
     optKS = KohnShamSCFOptions(**optKS)
-- 
2.43.0


From 080596e3f674f816ba5b14126e2e4e7bd3ca14a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 13/44] fix: Kohn-Sham SCF with auto_tol raises NameError

---
 CADMium/kohnsham/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 3a3200d..40ef362 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -61,7 +61,7 @@ def scf(self, optKS):
         num_iter_not_min = 0
 
 
-    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < opt.KS.auto_tol_iter) and iter < optKS.maxiter:
+    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < optKS.auto_tol_iter) and iter < optKS.maxiter:
 
 
         #Calculate and set new effective potential:
@@ -104,7 +104,7 @@ def scf(self, optKS):
         old_n = self.n
 
         if optKS.auto_tol is True:
-            if dif < min_dif:
+            if diff < min_dif:
                 num_iter_not_min = 0
                 min_dif = diff
             else:
-- 
2.43.0


From b5c95d1e59eefffe8e5ea460dc97e6e7d7d5307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 14/44] fix: spinflipsym symmetrises the effective potential
 only after the solvers have taken the asymmetric one

---
 CADMium/kohnsham/scf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 40ef362..e99c1b1 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -68,14 +68,14 @@ def scf(self, optKS):
         self.calc_hxc_potential() 
         self.veff = self.vnuc + self.vext + self.vhxc
 
-        for i in range(self.Nmo.shape[0]):
-            for j in range(self.Nmo.shape[1]):
-                self.solver[i,j].setveff(self.veff[:,j])
-
         #Spin flip mirror symmetry
         if optKS.spinflipsym is True:
             self.veff = (self.veff + self.grid.mirror(self.grid.spinflip(self.veff))) / 2
 
+        for i in range(self.Nmo.shape[0]):
+            for j in range(self.Nmo.shape[1]):
+                self.solver[i,j].setveff(self.veff[:,j])
+
         #Calculate new density
         if optKS.iterative is True and optKS.continuing is True:
             nout = self.calc_density(ITERATIVE=optKS.iterative)
-- 
2.43.0


From 9a78c96badf23dc19143fcbb73ac128f74d759c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 15/44] fix: partition SCF with auto_tol raises TypeError

---
 CADMium/partition/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 31f2c22..1caa474 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -139,7 +139,7 @@ def scf(self, optSCF={}):
 
     #-----> SCF Procedure Begins
     while (dif > optSCF.e_tol 
-           or (optSCF.auto_tol is True and num_iter_not_min < self.optPartition["AutoTolIter"])) \
+           or (optSCF.auto_tol is True and num_iter_not_min < optSCF.auto_tol_iter)) \
            and iterations <= optSCF.max_iter                                                     \
            and STOP is False:
 
-- 
2.43.0


From 4e0c2830c6743079c96d85740beea113fe651d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 16/44] fix: ensemble energy of fragment B counts the upper
 component twice and drops the lower one

---
 CADMium/partition/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/energy.py b/CADMium/partition/energy.py
index eca7c39..7c7f98e 100644
--- a/CADMium/partition/energy.py
+++ b/CADMium/partition/energy.py
@@ -24,7 +24,7 @@ def energy(self):
         iks_b = [self.KSb]
     else:
         iks_a = [self.KSa, self.KSA]
-        iks_b = [self.KSB, self.KSB]
+        iks_b = [self.KSb, self.KSB]
 
     for i_KS in iks_a:
         if i_KS.E is None:
-- 
2.43.0


From d1fc03d7c21c6a95850d3757f3220a74069137e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 17/44] fix: fragment Hartree energy density of a mirrored
 ensemble is mirrored once per component

---
 CADMium/partition/ep_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index 79ead77..9acd1d1 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -28,7 +28,7 @@ def ep_hxc(self):
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
                     ehf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.eh[:, None]
-                ehf += self.grid.mirror(ehf)
+            ehf += self.grid.mirror(ehf)
 
         else:
             if not self.ens:
-- 
2.43.0


From 5d00b440f490a66108ef48471e5461816fcbfc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 18/44] fix: chemical potential of fragment B overwrites the
 running maximum of fragment A in the inversion kinetic potential

---
 CADMium/partition/vp_kinetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 2a6a3aa..f1cd933 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -61,7 +61,7 @@ def vp_kinetic(self):
                 if self.KSa.solver[i,j].homo is not None:
                     ua = np.max( (ua, self.KSa.solver[i,j].homo) )
                 if self.KSb.solver[i,j].homo is not None:
-                    ua = np.max( (ub, self.KSb.solver[i,j].homo) )
+                    ub = np.max( (ub, self.KSb.solver[i,j].homo) )
 
         if self.ens:
             for i in range(self.Nmo_A.shape[0]):
@@ -69,7 +69,7 @@ def vp_kinetic(self):
                     if self.KSA.solver[i,j].homo is not None:
                         ua = np.max( (ua, self.KSA.solver[i,j].homo) )
                     if self.KSB.solver[i,j].homo is not None:
-                        ua = np.max( (ub, self.KSB.solver[i,j].homo) )
+                        ub = np.max( (ub, self.KSB.solver[i,j].homo) )
         u = np.max((ua, ub))
         nspin = self.pol - 1
 
-- 
2.43.0


From 5af69882639d85ce180b1e3bcab09c9dba0fe9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 19/44] fix: partition_potential calls a misspelt grid method
 for spin-symmetric ensembles

---
 CADMium/partition/partition_potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/partition_potential.py b/CADMium/partition/partition_potential.py
index 068c2d5..61f2087 100644
--- a/CADMium/partition/partition_potential.py
+++ b/CADMium/partition/partition_potential.py
@@ -87,7 +87,7 @@ def partition_potential(self):
                 if hasattr(i_KS.V, 'vp_kin') is True:
                     vs0 -= i_KS.V.vp_kin * i_KS.Q
             if self.optPartition.ens_spin_sym:
-                vs0 += self.grid.spinfip(vs0)
+                vs0 += self.grid.spinflip(vs0)
         else:
             phi0, e0, vs0 = self.initialguessinvert()
 
-- 
2.43.0


From 26858449d04a7e0490d8cb72290449c137078a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 20/44] fix: von Weizsaecker partition kinetic energy has the
 wrong sign for the molecule and a misplaced parenthesis for the fragments

---
 CADMium/partition/ep_kinetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index b15adc9..60ec1a4 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -13,7 +13,7 @@ def ep_kinetic(self):
         #Use the von-Weizacker inversion
         Tsm =   (2 * np.pi * self.grid.hr * self.grid.ha ) \
               * np.sum(self.grid.wi * np.sum(self.nf, axis=1)**0.5 \
-              * (0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
+              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
 
         tsm =   (np.sum(self.nf, axis=1)**(-0.5)) / self.grid.w \
               * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5 )
@@ -30,8 +30,8 @@ def ep_kinetic(self):
 
         for i_KS in iks:
             Tsf += i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) \
-                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 ) \
-                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 )
+                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 \
+                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 ))
 
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
-- 
2.43.0


From 6de28b7d0aec0e0e2393898ec477960bbed01816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 21/44] fix: correlated Hartree energy raises for non-ensemble
 fragments

---
 CADMium/partition/EnsCorHar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/EnsCorHar.py b/CADMium/partition/EnsCorHar.py
index d43e9c9..fe7ad85 100644
--- a/CADMium/partition/EnsCorHar.py
+++ b/CADMium/partition/EnsCorHar.py
@@ -7,15 +7,15 @@ import numpy as np
 
 def EnsCorHar(self):
     if not self.ens:  # No Ensemble
-        if not self.optPartiton.ens_spin_sym: #Not ENS Spin Symmetry
+        if not self.optPartition.ens_spin_sym: #Not ENS Spin Symmetry
             self.KSa.E.Ehcor = 0.0
             self.KSb.E.Ehcor = 0.0
             self.KSa.V.vhcor = np.zeros_like( self.KSa.V.vh )
             self.KSb.V.vhcor = np.zeros_like( self.KSb.V.vh )
             self.E.Ehcor = 0.0
         else:                                 #With ENS Spin Symmetry
-            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh) ))   / 2.0
-            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh) ))   / 2.0
+            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh), axis=1 ))   / 2.0
+            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh), axis=1 ))   / 2.0
             self.KSa.V.vhcor = self.grid.spinflip( self.KSb.V.vh )
             self.KSb.V.vhcor = self.grid.spinflip( self.KSa.V.vh )
             self.E.Ehcor = 0.0
-- 
2.43.0


From 18b8093609f705e507026342e80c6b87789fb7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:55 +0000
Subject: [PATCH 22/44] fix: density inversion without an initial guess raises
 NameError

---
 CADMium/inverter/linresponse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index d3a052b..9cdf63a 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -18,14 +18,14 @@ def linresponse(self, n0, vs0=None):
     self.pol = pol
     self.n0  = n0
     Nelem = n0.shape[0]
-    w = self.grid.w if pol == 1 else np.hstack((self.grid.w, self.grid.w))
+    w = self.grid.w[:, None]
     
     if self.solver[0,0].veff is None:
         if vs0 is None:
             #If no initial guess is provided
             #Use the von weizacker inversion
             vs0 = (0.5 * self.grid.elap @ (n0**0.5)) / (n0**0.5 * w) 
-            vs0 -= vs[-1]
+            vs0 -= vs0[-1]
     else:
         vs0 = self.solver[0,0].veff[:,None] if len(self.solver[0,0].veff.shape) == 1 else self.solver[0,0].veff
 
-- 
2.43.0


From e486145683001c50b1a556511f277b5428deef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:55 +0000
Subject: [PATCH 23/44] fix: spin-polarised density inversion raises IndexError
 after the first spin

---
 CADMium/inverter/linresponse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 9cdf63a..ab2f06e 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -27,7 +27,7 @@ def linresponse(self, n0, vs0=None):
             vs0 = (0.5 * self.grid.elap @ (n0**0.5)) / (n0**0.5 * w) 
             vs0 -= vs0[-1]
     else:
-        vs0 = self.solver[0,0].veff[:,None] if len(self.solver[0,0].veff.shape) == 1 else self.solver[0,0].veff
+        vs0 = np.column_stack([self.solver[0,i].veff for i in range(pol)])
 
     self.vs = np.zeros_like(vs0)
     self.us = np.zeros((1, pol))
@@ -91,7 +91,7 @@ def linresponse(self, n0, vs0=None):
                 output[j,i] = res_lsq
 
             self.vs[:,i] = res_lsq.x
-            self.us[i]   = self.solver[0,i].get_homo()
+            self.us[:,i] = self.solver[0,i].get_homo()
 
 
     return flag, output
-- 
2.43.0


From 5484708d099bade3fa0817749ac0d472b610a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 24/44] fix: integration weights are laid out row-major while
 the grid is column-major, so every integral is wrong when the numbers of
 angular and radial blocks differ

---
 CADMium/psgrid/initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/initialize.py b/CADMium/psgrid/initialize.py
index f0eb0c7..40fd28f 100644
--- a/CADMium/psgrid/initialize.py
+++ b/CADMium/psgrid/initialize.py
@@ -60,7 +60,7 @@ def initialize(self, DISP=False, factor=True):
     wr = wr.reshape(len(wr), 1)
     
     #2d Grid of integration weights
-    self.wi = np.reshape(wa@wr.T, (self.Nelem))
+    self.wi = np.reshape(wa@wr.T, (self.Nelem), order="F")
     
     if DISP is True:
         print(" Building finite difference opperators ... \n")
-- 
2.43.0


From 7437ca00b2c38f33100121f430953129b4b19d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 25/44] fix: kinetic energy density keeps only the last angular
 momentum

---
 CADMium/inverter/get_ts_WFI.py  | 2 +-
 CADMium/partition/ep_kinetic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/get_ts_WFI.py b/CADMium/inverter/get_ts_WFI.py
index e58e3e6..208cf3d 100644
--- a/CADMium/inverter/get_ts_WFI.py
+++ b/CADMium/inverter/get_ts_WFI.py
@@ -23,7 +23,7 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
                 if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
 
     else:
         for i in range(self.solver.shape[0]):
diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 60ec1a4..15b6a44 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -97,7 +97,7 @@ def ep_kinetic(self):
             for i in range(i_KS.solver.shape[0]):
                 for j in range(i_KS.solver.shape[1]):
                     if i_KS.solver[i,j].ked_WFI is not None:
-                        ts[:,j] = np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
+                        ts[:,j] += np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
 
             for i in range(i_KS.solver.shape[0]):
                 for j in range(i_KS.solver.shape[1]):
-- 
2.43.0


From 6c08033549fa1d5f7d32f61d9afc342d5c903668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 26/44] fix: kinetic energy density of a spin-symmetric
 ensemble leaves out the second spin

---
 CADMium/inverter/get_ts_WFI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/get_ts_WFI.py b/CADMium/inverter/get_ts_WFI.py
index 208cf3d..104f9b0 100644
--- a/CADMium/inverter/get_ts_WFI.py
+++ b/CADMium/inverter/get_ts_WFI.py
@@ -32,7 +32,7 @@ def get_ts_WFI(self):
         #Get Kinetic Energy Density
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
-                if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                if self.solver[i,0].ked_WFI is not None:
+                    ts[:,j] += np.sum( self.solver[i,0].ked_WFI, axis=1 ) 
 
     return ts
\ No newline at end of file
-- 
2.43.0


From 8ad834b60c0365e0c21acdc8cd773b2305451821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:10 +0000
Subject: [PATCH 27/44] fix: response of a fractionally occupied orbital uses
 the wrong orbital, ignores the pivoting and doubles the other orbitals

---
 CADMium/pssolver/calc_response.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index 464d725..faa070d 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -70,7 +70,7 @@ def calc_response(self):
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional is  True and nu != 0:
         print("Warning, you may need to confirm calc_response in CADMium")
-        j = Nocc + 1
+        j = int(Nocc)
 
         #Select the orbital and normalize
         phi_j = self.phi[:, j] / self.grid.integrate( self.phi[:, j]**2 )**0.5
@@ -87,16 +87,11 @@ def calc_response(self):
         A = csc_vstack(( A_inside_1, A_inside_2 ))
         A = csc_matrix(A)
 
-        lu = splu(A)
-        #Take matrox L and U from decomposition
-        L = lu.L.A
-        U = lu.U.A
-
         #Solve linear equation
-        x = spsolve( U , spsolve(L, rhs))
+        x = spsolve(A, rhs)
 
         #Add orbital density response into total response
-        self.chi += self.chi + nu * 2 * PHI * x[0:Nelem, 0:Nelem]
+        self.chi += nu * 2 * PHI @ x[0:Nelem, 0:Nelem]
 
     #Scale responses accordingly
     if self.pol == 1:
-- 
2.43.0


From 5f995add7ab013dc7fbfb41eee2c3c36cc5dbae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:10 +0000
Subject: [PATCH 28/44] fix: response of m>0 orbitals leaves out their double
 degeneracy

---
 CADMium/pssolver/calc_response.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index faa070d..805a8fa 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -94,7 +94,14 @@ def calc_response(self):
         self.chi += nu * 2 * PHI @ x[0:Nelem, 0:Nelem]
 
     #Scale responses accordingly
-    if self.pol == 1:
-        self.chi = 2 * self.chi
+    if self.m == 0:
+        if self.pol == 1:
+            self.chi = 2 * self.chi
+
+    else: #m>0 orbitals hold twice as many electrons due to +-m symmetry
+        if self.pol == 1:
+            self.chi = 4 * self.chi
+        else:
+            self.chi = 2 * self.chi
 
 
-- 
2.43.0


From 238c208d6a66659ab7297a249165e7bb28b7fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 29/44] fix: an empty spin channel turns the density change
 into NaN, so SCF stops on the energy alone

---
 CADMium/kohnsham/scf.py  | 2 +-
 CADMium/partition/scf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index e99c1b1..37a80f9 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -96,7 +96,7 @@ def scf(self, optKS):
 
         #Convergence check
         dif_E = np.abs( (self.E.E - old_E) / self.E.E )
-        dif_n = np.max(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )
+        dif_n = np.nanmax(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )
 
 
         diff = max(dif_E, dif_n)
diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 1caa474..42545f6 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -198,7 +198,7 @@ def scf(self, optSCF={}):
 
     #-----> Convergence Check
         dif_E  = np.abs( np.sum(self.E.E - old_E) / self.E.E )
-        dif_nf = np.max(self.grid.integrate(np.abs(self.nf-old_nf)) / self.grid.integrate(np.abs(self.nf)))
+        dif_nf = np.nanmax(self.grid.integrate(np.abs(self.nf-old_nf)) / self.grid.integrate(np.abs(self.nf)))
         dif    = max(dif_E, dif_nf)
         old_E  = self.E.E
         old_nf = self.nf
-- 
2.43.0


From a77c169361b4dbeed03951a2d2897de6c3b63272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:20 +0000
Subject: [PATCH 30/44] fix: density inversion ignores the response of every
 angular momentum but the first

---
 CADMium/inverter/inverter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CADMium/inverter/inverter.py b/CADMium/inverter/inverter.py
index 2cbebc8..17e01fa 100644
--- a/CADMium/inverter/inverter.py
+++ b/CADMium/inverter/inverter.py
@@ -209,7 +209,9 @@ class Inverter():
         """
 
         #Calculate jacobian of error function.
-        Jac = np.vstack( ( self.B @ self.solver[0,spin].chi, np.zeros((1, self.Nelem)) ) )
+        #The density responds through every angular momentum
+        chi = sum(self.solver[i,spin].chi for i in range(self.solver.shape[0]))
+        Jac = np.vstack( ( self.B @ chi, np.zeros((1, self.Nelem)) ) )
         Jac = np.asarray(Jac)
         Jac[-1, -1] = 1
 
-- 
2.43.0


From a4812ad790cf8c07074fc9572c5a0ec7adb80458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:47 +0000
Subject: [PATCH 31/44] fix: chemical potential of an inversion leaves out the
 higher angular momenta

---
 CADMium/inverter/linresponse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index ab2f06e..02cefe8 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -56,7 +56,7 @@ def linresponse(self, n0, vs0=None):
 
         #Get solution from least squares object
         self.vs[:,0] = res_lsq.x
-        self.us[0] = self.solver[0,0].get_homo()
+        self.us[0] = max(self.solver[j,0].get_homo() for j in range(self.solver.shape[0]))
         flag[0,0] = res_lsq.status
         output[0,0] = res_lsq
 
@@ -91,7 +91,7 @@ def linresponse(self, n0, vs0=None):
                 output[j,i] = res_lsq
 
             self.vs[:,i] = res_lsq.x
-            self.us[:,i] = self.solver[0,i].get_homo()
+            self.us[:,i] = max(self.solver[j,i].get_homo() for j in range(self.solver.shape[0]))
 
 
     return flag, output
-- 
2.43.0


From 8efc5f35de4810cc90b26812a23bf6f6e1599d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:34 +0000
Subject: [PATCH 32/44] fix: an orbital whose eigenvalue is exactly zero comes
 back as NaN

---
 CADMium/pssolver/calc_orbitals.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index f774796..3f2d8d2 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -45,11 +45,14 @@ def calc_orbitals(self, solver_id, return_dict):
         self.eig = eig[indx]
         self.phi = phi[:,indx] 
 
-        while np.isnan(self.phi).all() != np.zeros_like(self.phi).all():
+        while np.isnan(self.phi).any():
             e0 = e0 - 0.1
-            self.eig, self.phi = eigs(spsolve(W, H), k=self.Nmo, sigma=e0, v0=self.opt["v0"])
-            self.eig = self.eig.real
-            self.phi = self.phi.real
+            eig, phi = eigs(spsolve(W, H), k=self.Nmo, sigma=e0, v0=self.opt["v0"])
+            eig = eig.real
+            phi = phi.real
+            indx = eig.argsort()
+            self.eig = eig[indx]
+            self.phi = phi[:,indx]
 
         #Check for degenerate and nearly degenerate orbitals
         for i in range(self.Nmo-1):
-- 
2.43.0


From 34c01113f61e511b8df8b9a82855a674d5b48f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 33/44] fix: overlap derivative carries an extra ensemble
 weight and mixes up the spin densities

---
 CADMium/partition/vp_overlap.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/CADMium/partition/vp_overlap.py b/CADMium/partition/vp_overlap.py
index 9313a0b..8e0302d 100644
--- a/CADMium/partition/vp_overlap.py
+++ b/CADMium/partition/vp_overlap.py
@@ -23,9 +23,8 @@ def vp_overlap(self):
     
     for KSa in iksa:
         #Functional derivative of the overlap
-        KSa.V.dSdn = KSa.scale * 0.5 * (self.nb_frac / self.na_frac)**0.5
-        if self.optPartition is True:
-            KSa.V.dSdn = np.repeat(KSa.V.dSdn, 2, axis=1)
+        KSa.V.dSdn = 0.5 * ( np.sum(self.nb_frac, axis=1) / np.sum(self.na_frac, axis=1) )**0.5
+        KSa.V.dSdn = np.repeat(KSa.V.dSdn[:,None], self.pol, axis=1)
         #Remove any Nans
         KSa.V.dSdn[ np.isinf(KSa.V.dSdn) ] = 0.0
         KSa.V.dSdn[ np.isnan(KSa.V.dSdn) ] = 0.0
@@ -33,9 +32,8 @@ def vp_overlap(self):
 
     for KSb in iksb:
         #Functional derivative of the overlap
-        KSb.V.dSdn = KSb.scale * 0.5 *  (self.na_frac / self.nb_frac)**0.5
-        if self.optPartition is True:
-            KSb.V.dSdn = np.repeat(KSb.V.dSdn, 2, axis=1)
+        KSb.V.dSdn = 0.5 * ( np.sum(self.na_frac, axis=1) / np.sum(self.nb_frac, axis=1) )**0.5
+        KSb.V.dSdn = np.repeat(KSb.V.dSdn[:,None], self.pol, axis=1)
         #Remove any Nans
         KSb.V.dSdn[ np.isinf(KSb.V.dSdn) ] = 0.0
         KSb.V.dSdn[ np.isnan(KSb.V.dSdn) ] = 0.0
-- 
2.43.0


From 0d8d1c61560eb9d502439d080cda358ffff4d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 34/44] fix: correlated Hartree part of the overlap potential
 has the wrong sign

---
 CADMium/partition/vp_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_hxc.py b/CADMium/partition/vp_hxc.py
index a6b6458..6bf938d 100644
--- a/CADMium/partition/vp_hxc.py
+++ b/CADMium/partition/vp_hxc.py
@@ -81,7 +81,7 @@ def vp_hxc(self):
             i_KS.V.vp_hxc = self.E.F * (i_KS.V.vp_h + i_KS.V.vp_x + i_KS.V.vp_c) + \
                             + (self.E.Ep_h + self.E.Ep_x + self.E.Ep_c) * i_KS.V.dFdn \
                             + (1 - self.E.F) * (i_KS.V.vhcor) \
-                            + (self.E.Ehcor) * i_KS.V.dFdn
+                            - (self.E.Ehcor) * i_KS.V.dFdn
 
     # elif self.optPartition.hxc_part_type == "overlap_hxc_2":
     #     #Overlap approximation for H2p
-- 
2.43.0


From 04c95d5f38dd8c532417feb9abc562e6b9dece52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:31 +0000
Subject: [PATCH 35/44] fix: von Weizsaecker energy of polarised densities does
 not treat each spin on its own, unlike its potential

---
 CADMium/partition/ep_kinetic.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 15b6a44..41ea87c 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -10,13 +10,13 @@ def ep_kinetic(self):
     #Select method for calculating kinetic energy
     if self.optPartition.kinetic_part_type == "vonweiz":
 
-        #Use the von-Weizacker inversion
+        #Use the von-Weizacker inversion, each spin on its own
         Tsm =   (2 * np.pi * self.grid.hr * self.grid.ha ) \
-              * np.sum(self.grid.wi * np.sum(self.nf, axis=1)**0.5 \
-              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
+              * np.sum(self.grid.wi * np.sum(self.nf**0.5 \
+              * (-0.5 * self.grid.elap @ self.nf**0.5), axis=1))
 
-        tsm =   (np.sum(self.nf, axis=1)**(-0.5)) / self.grid.w \
-              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5 )
+        tsm =   np.sum( self.nf**0.5 * (-0.5 * self.grid.elap @ self.nf**0.5), axis=1 ) \
+              / self.grid.w / np.sum(self.nf, axis=1)
 
         #Evaluate kinetic energy for integer ocupation 
         #Densities
@@ -30,11 +30,11 @@ def ep_kinetic(self):
 
         for i_KS in iks:
             Tsf += i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) \
-                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 \
-                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 ))
+                              * np.sum( self.grid.wi * np.sum( i_KS.n**0.5 \
+                              * ( -0.5 * self.grid.elap @ i_KS.n**0.5 ), axis=1 ))
 
-            i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
-                        * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
+            i_KS.V.ts = np.sum( i_KS.n**0.5 * (-0.5 * self.grid.elap @ i_KS.n**0.5), axis=1 ) \
+                        / self.grid.w / np.sum( i_KS.n, axis=1 )
 
             tsf += i_KS.scale * np.sum(i_KS.Q, axis=1) * i_KS.V.ts
 
-- 
2.43.0


From 51ee00f35d37b021f64294319db11b95c9442160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:34 +0000
Subject: [PATCH 36/44] fix: inversion guess of mirror-symmetric fragments
 lists fragment A's orbitals twice instead of mirroring them

---
 CADMium/partition/initialguessinvert.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index 9ae016e..a4baccf 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -73,9 +73,7 @@ def initialguessinvert(self, ispin=0):
                 m   = self.KSA.solver[i-1, ispin].m
 
         if self.optPartition.ab_sym is True:
-            phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
-            if self.ens:
-                phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1 )
+            phi = np.append(phi, self.grid.mirror(phi), axis = 1 )
 
         #--> Beta Kohn Sham object
         else:
-- 
2.43.0


From 26a248d74ba0e8a8169a0bd497da8860ec0eff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:36 +0000
Subject: [PATCH 37/44] fix: inversion guess fails when fragments differ in
 angular momenta or a channel is empty

---
 CADMium/partition/initialguessinvert.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index a4baccf..3c111d7 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -59,14 +59,14 @@ def initialguessinvert(self, ispin=0):
         m   = None
 
         #--> Alpha Kohn Sham object
-        if len( self.KSa.solver[:,ispin]) >= i-1:
+        if len( self.KSa.solver[:,ispin]) >= i and self.KSa.solver[i-1, ispin].phi is not None:
             phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
             self.KSa.solver[i-1, ispin].hamiltonian()
             H0  = self.KSa.solver[i-1, ispin].H0
-            m   = self.KSb.solver[i-1, ispin].m
+            m   = self.KSa.solver[i-1, ispin].m
 
         if self.ens: # Ensemble?
-            if len( self.KSA.solver[:,ispin]) >= i-1:
+            if len( self.KSA.solver[:,ispin]) >= i and self.KSA.solver[i-1, ispin].phi is not None:
                 phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1)
                 self.KSA.solver[i-1, ispin].hamiltonian()
                 H0  = self.KSA.solver[i-1, ispin].H0
@@ -77,7 +77,7 @@ def initialguessinvert(self, ispin=0):
 
         #--> Beta Kohn Sham object
         else:
-            if len(self.KSb.solver) >= i-1:
+            if len(self.KSb.solver) >= i and self.KSb.solver[i-1, ispin].phi is not None:
                 phi = np.append(phi, self.KSb.solver[i-1, ispin].phi, axis = 1 )
                 if H0 is None:
                     H0 = self.KSb.solver[i-1, ispin].H0
@@ -85,13 +85,17 @@ def initialguessinvert(self, ispin=0):
                     m = self.KSb.solver[i-1, ispin].m
             
             if self.ens: # Ensemble?
-                if len(self.KSB.solver) >= i-1:
+                if len(self.KSB.solver) >= i and self.KSB.solver[i-1, ispin].phi is not None:
                     phi = np.append(phi, self.KSB.solver[i-1, ispin].phi, axis = 1 )
                     if H0 is None:
                         H0 = self.KSB.solver[i-1, ispin].H0
                     if m is None:
                         m = self.KSB.solver[i-1, ispin].m
         
+        #No fragment has orbitals of this angular momentum and spin
+        if phi.shape[1] == 0:
+            continue
+
         S0 = np.diag(phi.T @ W @ Wi @ phi) ** 0.5
         phi = phi / S0
         phi = np.nan_to_num(phi, nan=0.0, posinf=0.0, neginf=0.0)
-- 
2.43.0


From 8facf4bf3f9765226e93087d4e16c396f4e9421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:37 +0000
Subject: [PATCH 38/44] fix: orbitals handed to the inversion are in row order,
 but are read column by column

---
 CADMium/partition/vp_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index f1cd933..5d686c6 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -88,7 +88,7 @@ def vp_kinetic(self):
             if self.pol == 2:
                 ntarget = 2 * ntarget
             phi0, e0, vs0 = self.initialguessinvert(ispin)
-            phi0 = phi0.flatten()[:,None]
+            phi0 = phi0.flatten("F")[:,None]
             e0   = e0.flatten()
 
             #Invert molecular problem:
-- 
2.43.0


From 28420faf38bcb35c259c4161513a1b2fd397a9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:39 +0000
Subject: [PATCH 39/44] fix: kinetic potential by inversion indexes fragment B
 with the channels of fragment A

---
 CADMium/partition/vp_kinetic.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 5d686c6..7d018a7 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -56,20 +56,20 @@ def vp_kinetic(self):
         ua, ub = -1 / np.spacing(1), -1 / np.spacing(1)
 
         #Check the values of each solver's homos and pick the largest
-        for i in range(self.Nmo_a.shape[0]):
-            for j in range(self.Nmo_a.shape[1]):
-                if self.KSa.solver[i,j].homo is not None:
-                    ua = np.max( (ua, self.KSa.solver[i,j].homo) )
-                if self.KSb.solver[i,j].homo is not None:
-                    ub = np.max( (ub, self.KSb.solver[i,j].homo) )
+        for solver in self.KSa.solver.flat:
+            if solver.homo is not None:
+                ua = np.max( (ua, solver.homo) )
+        for solver in self.KSb.solver.flat:
+            if solver.homo is not None:
+                ub = np.max( (ub, solver.homo) )
 
         if self.ens:
-            for i in range(self.Nmo_A.shape[0]):
-                for j in range(self.Nmo_A.shape[1]):
-                    if self.KSA.solver[i,j].homo is not None:
-                        ua = np.max( (ua, self.KSA.solver[i,j].homo) )
-                    if self.KSB.solver[i,j].homo is not None:
-                        ub = np.max( (ub, self.KSB.solver[i,j].homo) )
+            for solver in self.KSA.solver.flat:
+                if solver.homo is not None:
+                    ua = np.max( (ua, solver.homo) )
+            for solver in self.KSB.solver.flat:
+                if solver.homo is not None:
+                    ub = np.max( (ub, solver.homo) )
         u = np.max((ua, ub))
         nspin = self.pol - 1
 
-- 
2.43.0


From 919019332df65397c58d1e668ab7052731025e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:03 +0000
Subject: [PATCH 40/44] fix: orbital inversion fails when the last orbital is
 partly filled

---
 CADMium/inverter/orbitalinvert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index 2542a36..cedfaa3 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -198,7 +198,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
     isolver = self.solver[:, ispin]
     Nsol = isolver.shape[0]
-    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int)
+    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=float), np.empty((Nsol), dtype=int)
     for i, j in enumerate(isolver):
         j.hamiltonian()
         Nmo[i] = j.Nmo
@@ -222,7 +222,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 nu = N[it] - np.floor(N[it])
             
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
         
         else:
             D[it,0] = 4 *  np.ones((Nmo[it,0], 1))
@@ -232,7 +232,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 nu = N[it] / 2 - np.floor(N[it] / 2)
 
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
 
 
     H_matrices = []
-- 
2.43.0


From d5e059c5e64c506571bce8e962a055299c2a9980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:03 +0000
Subject: [PATCH 41/44] fix: orbital inversion fails with more than one angular
 momentum

---
 CADMium/inverter/orbitalinvert.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index cedfaa3..db1fcd4 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -38,7 +38,7 @@ def ab_symmetrize(x, Nelem, Nmo, North, self):
     Nmo = Nmo[:, None]
 
     #Check for degenerate and nearly degenerate orbitals
-    for i in range(0, int(np.sum(Nmo, axis=1)-1)):
+    for i in range(0, int(np.sum(Nmo)-1)):
         if np.abs( evals[i] - evals[i+1] ) < 1e-6:
             even =  phi[:, i]   + self.grid.mirror( phi[:,i]   ) \
                   + phi[:, i+1] + self.grid.mirror( phi[:,i+1] )
@@ -49,7 +49,7 @@ def ab_symmetrize(x, Nelem, Nmo, North, self):
             phi[:, i+1] = odd  / np.linalg.norm(odd)
 
 
-    for i in range(0, int(np.sum(Nmo, axis=1))):
+    for i in range(0, int(np.sum(Nmo))):
         if phi[:, i].T @ self.grid.mirror( phi[:, i] ) > 0:
             phi[:, i] += self.grid.mirror( phi[:, i] )
             phi[:, i] /=  np.linalg.norm(  phi[:, i] )
@@ -225,7 +225,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
         
         else:
-            D[it,0] = 4 *  np.ones((Nmo[it,0], 1))
+            D[it,0] = 4 *  np.ones((Nmo[it], 1))
             if isolver[it].pol == 1:
                 nu = N[it] / 4 - np.floor(N[it] / 4)
             else:
@@ -236,11 +236,12 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
 
     H_matrices = []
-    for i in range(C[0,0].shape[0]):
-        H_matrices.append(C[0,0][i])
+    for it in range(Nsol):
+        for i in range(C[it,0].shape[0]):
+            H_matrices.append(C[it,0][i])
     matrices = (H_matrices[i][0] for i in range(len(H_matrices)))
     H = block_diag( matrices )
-    occ = np.vstack(D[:][0])
+    occ = np.vstack(D[:,0])
 
     B2i = np.array( range( 0, np.sum(Nmo) * Nelem ) )[:, None]
     B2j = matlab.repmat( np.array(range(0,Nelem))[:,None], np.sum(Nmo), 1 )
@@ -268,7 +269,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
         for i in range(1,Nsol):
             warnings.warn("WARNING, Double Check concatenation")
             phi   = np.hstack( (phi, (isolver[i].phi) ))
-            evals = np.hstack( (evals, isolver[i].eig) )
+            evals = np.hstack( (np.ravel(evals), np.ravel(isolver[i].eig)) )
 
         #Sanity chech. If there is one evals. It wont be able to be concatenated
         if evals.ndim == 1:
@@ -419,8 +420,8 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
                 for it in range(Nsol):
 
-                    isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[0:it-1]) * Nelem] , (Nelem, Nmo[it]) , order="F")
-                    isolver[it].eig = evals[:Nmo[it] + np.sum(Nmo[:it-1])]
+                    isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[:it]) * Nelem] , (Nelem, Nmo[it]) , order="F")
+                    isolver[it].eig = evals[np.sum(Nmo[:it]):np.sum(Nmo[:it+1])]
 
                 for i in isolver:
                     i.setveff(self.vs[:, ispin])
@@ -430,7 +431,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 evals = None
                 for i in isolver:
                     phi   = i.phi if phi is None else np.concatenate( (phi, i.phi),   axis=1)
-                    evals = i.eig if evals is None else np.concatenate( (evals, i.eig), axis=1)
+                    evals = i.eig if evals is None else np.concatenate( (evals, i.eig), axis=0)
 
                 X = np.concatenate((phi.flatten("F")[:,None], 
                                     (evals[:-1] - evals[-1])[:, None], 
@@ -457,15 +458,15 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
     self.vs[:, ispin] = X[ np.array(range(Nelem)) + np.sum(Nmo) * Nelem + np.sum(Nmo) - 1 + North, 0]
 
     for it in range(Nsol):
-        isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[0:it-1]) * Nelem] , (Nelem, Nmo[it]) , order="F")
-        isolver[it].eig = evals[:Nmo[it] + np.sum(Nmo[:it-1])]
+        isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[:it]) * Nelem] , (Nelem, Nmo[it]) , order="F")
+        isolver[it].eig = evals[np.sum(Nmo[:it]):np.sum(Nmo[:it+1])]
 
     for it in range(Nsol):
-        self.us[ispin] = isolver[it].get_homo()
-
         isolver[it].calc_density()
         isolver[it].setveff(self.vs[:, ispin])
 
+    self.us[:, ispin] = max(isolver[it].get_homo() for it in range(Nsol))
+
     if res > self.optInv.tol_invert:
         flag = False
     else:
-- 
2.43.0


From debcdccfe40420e8653a9751228e9c830c6c1f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:16 +0000
Subject: [PATCH 42/44] fix: energies per electron of a partition integrate to
 its energies

Q already contains the weight of a component and is a ratio of the densities
of one spin, so the sum over spins counted polarised fragments more than once
and the kinetic part applied the weight twice.  Weigh the fragments by their
share of all the electrons; the inversion's kinetic density had the wrong shape
and counted a fragment once per solver; the symmetric two-orbital one was doubled twice.
---
 CADMium/partition/ep_hxc.py     | 18 ++++++++++++------
 CADMium/partition/ep_kinetic.py | 22 ++++++++++------------
 CADMium/partition/partition.py  |  7 +++++++
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index 9acd1d1..ab8c034 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -27,7 +27,7 @@ def ep_hxc(self):
 
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
-                    ehf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.eh[:, None]
+                    ehf += self.share(i_KS)[:,None] * i_KS.V.eh[:, None]
             ehf += self.grid.mirror(ehf)
 
         else:
@@ -37,7 +37,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA, self.KSb, self.KSB]
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
-                    ehf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.eh[:, None]
+                    ehf += self.share(i_KS)[:,None] * i_KS.V.eh[:, None]
 
         
         ###Exchange
@@ -57,7 +57,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    exf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.ex
+                    exf += self.share(i_KS)[:,None] * i_KS.V.ex
             exf += self.grid.mirror(exf)
 
         else:
@@ -68,7 +68,7 @@ def ep_hxc(self):
 
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    exf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.ex
+                    exf += self.share(i_KS)[:,None] * i_KS.V.ex
 
         ###Correlation
         Ecm = self.e_c
@@ -85,7 +85,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    ecf += np.sum(i_KS.Q, axis=1)[:, None] * i_KS.V.ec
+                    ecf += self.share(i_KS)[:,None] * i_KS.V.ec
 
             ecf += self.grid.mirror(ecf)
 
@@ -96,7 +96,13 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA, self.KSb, self.KSB]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    ecf += np.sum(i_KS.Q, axis=1)[:, None] * i_KS.V.ec
+                    ecf += self.share(i_KS)[:,None] * i_KS.V.ec
+
+        #Spin flipped components count as well
+        if self.optPartition.ens_spin_sym:
+            ehf *= 2.0
+            exf *= 2.0
+            ecf *= 2.0
 
         self.E.Ep_h = Ehm - Ehf 
         self.E.Ep_x = Exm - Exf 
diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 41ea87c..d4417c9 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -35,8 +35,9 @@ def ep_kinetic(self):
 
             i_KS.V.ts = np.sum( i_KS.n**0.5 * (-0.5 * self.grid.elap @ i_KS.n**0.5), axis=1 ) \
                         / self.grid.w / np.sum( i_KS.n, axis=1 )
+            i_KS.V.ts = np.nan_to_num(i_KS.V.ts, nan=0.0, posinf=0.0, neginf=0.0)
 
-            tsf += i_KS.scale * np.sum(i_KS.Q, axis=1) * i_KS.V.ts
+            tsf += self.share(i_KS) * i_KS.V.ts
 
     elif self.optPartition.kinetic_part_type == "libxcke" or \
          self.optPartition.kinetic_part_type == "paramke":
@@ -59,17 +60,16 @@ def ep_kinetic(self):
         # Ts and ts for fragments obtained in ep_kinetic
         for iKS in iks:
             Tsf += iKS.scale * iKS.V.Ts
-            tsf += iKS.scale * np.sum( iKS.Q, axis=1 ) * iKS.V.ts[:,0]
+            tsf += self.share(iKS) * iKS.V.ts[:,0]
 
     elif self.optPartition.kinetic_part_type == "inversion":
         
-        tsm = np.sum( self.inverter.get_ts_WFI(), axis=1 ) / np.sum( self.nf, axis=1 )
+        tsm = ( np.sum( self.inverter.get_ts_WFI(), axis=1 ) / np.sum( self.nf, axis=1 ) )[:,None]
         Tsm = self.inverter.get_Ts()
 
         #Evaluate kinetic energy for fragments
         Tsf = 0.0
         tsf = np.zeros_like(tsm)
-        tsf = tsf[:, None]
 
         if self.optPartition.ab_sym is not True:
             if not self.ens:
@@ -86,7 +86,6 @@ def ep_kinetic(self):
             assert i_KS.E.Ts != None, ("Fragment energies must be evaluated before partition energy")
             Tsf += i_KS.scale * i_KS.E.Ts
             
-            i_KS.V.ts = np.zeros_like( i_KS.n )
             ts = np.zeros((self.grid.Nelem, self.pol))
 
             for i in range(i_KS.solver.shape[0]):
@@ -99,11 +98,10 @@ def ep_kinetic(self):
                     if i_KS.solver[i,j].ked_WFI is not None:
                         ts[:,j] += np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
 
-            for i in range(i_KS.solver.shape[0]):
-                for j in range(i_KS.solver.shape[1]):
-                    i_KS.V.ts += np.sum( ts, axis=1)[:,None] / np.sum(i_KS.n, axis=1)[:,None]
+            i_KS.V.ts = np.sum( ts, axis=1)[:,None] / np.sum(i_KS.n, axis=1)[:,None]
+            i_KS.V.ts = np.nan_to_num(i_KS.V.ts, nan=0.0, posinf=0.0, neginf=0.0)
 
-            tsf += i_KS.scale * np.sum( i_KS.Q, axis=1 )[:,None] * np.sum( i_KS.V.ts, axis=1 )[:,None]
+            tsf += self.share(i_KS)[:,None] * i_KS.V.ts
 
         if self.optPartition.ab_sym is True:
             tsf += self.grid.mirror(tsf)
@@ -150,16 +148,16 @@ def ep_kinetic(self):
         for i_KS in KSab:
             
             Tsf +=  i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) * np.sum( self.grid.wi * (np.sum(i_KS.n, axis=1)**0.5) * (eT@np.sum(i_KS.n, axis=1)**0.5) ) 
-            i_KS.V.ts = i_KS.scale * ( np.sum(i_KS.n, axis=1)**(0.5) ) * (eT @ np.sum( i_KS.n, axis=1 )**(0.5))  / (self.grid.w * np.sum(i_KS.n, axis=1) )
+            i_KS.V.ts = ( np.sum(i_KS.n, axis=1)**(0.5) ) * (eT @ np.sum( i_KS.n, axis=1 )**(0.5))  / (self.grid.w * np.sum(i_KS.n, axis=1) )
 
             # print("1", ( np.sum(i_KS.n, axis=1)**(0.5) ) )
             # print("2", (eT @ np.sum( i_KS.n, axis=1 )**(0.5)) )
             # print("3", (self.grid.w * np.sum(i_KS.n, axis=1) ) )
 
-            tsf += i_KS.Q * i_KS.V.ts[:,None]
+            tsf += self.share(i_KS)[:,None] * i_KS.V.ts[:,None]
 
         if self.optPartition.ab_sym:
-            tsf += tsf + self.grid.mirror(tsf)
+            tsf += self.grid.mirror(tsf)
             Tsf *= 2      
 
         # print("Yo soy Tsf", tsf)
diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 5e6f118..a0dbcd3 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -394,6 +394,13 @@ class Partition():
             i.Q = np.nan_to_num(i.Q, nan=0.0, posinf=0.0, neginf=0.0)
 
 
+    def share(self, i_KS):
+        """
+        Fraction of the electrons at every point that belongs to a component
+        """
+        share = i_KS.scale * np.sum(i_KS.n, axis=1) / np.sum(self.nf, axis=1)
+        return np.nan_to_num(share, nan=0.0, posinf=0.0, neginf=0.0)
+
     def vp_nuclear(self):
         vp_nuclear(self)
 
-- 
2.43.0


From 8024b694068d99dff796cd3080fe1c75e22fc55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:05 +0000
Subject: [PATCH 43/44] fix: integrals of whole-number columns are cut off to
 whole numbers

---
 CADMium/psgrid/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/integrate.py b/CADMium/psgrid/integrate.py
index d3998fd..1bc035a 100644
--- a/CADMium/psgrid/integrate.py
+++ b/CADMium/psgrid/integrate.py
@@ -16,7 +16,7 @@ def integrate(self, f):
         integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f)
 
     else:
-        integral = np.zeros_like(f)
+        integral = np.zeros(f.shape, dtype=np.result_type(f, self.w))
         for i in range(f.shape[1]):
             integral[:, i] = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f[:, i])
 
-- 
2.43.0


From b5933df8efbff84220faf6145df4b617146efecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:06 +0000
Subject: [PATCH 44/44] fix: reduced gradients of whole-number spin densities
 are cut off to whole numbers

---
 CADMium/psgrid/reduced_grad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/reduced_grad.py b/CADMium/psgrid/reduced_grad.py
index 2370778..4425b47 100644
--- a/CADMium/psgrid/reduced_grad.py
+++ b/CADMium/psgrid/reduced_grad.py
@@ -15,7 +15,7 @@ def reduced_grad(self, n):
         s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) * n** (4/3) )
 
     if pol == 2:
-        s = np.zeros_like(n)
+        s = np.zeros(n.shape)
         s[:, 0] = self.sigma(2 * n[:,[0]])[:,0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,0])**(4/3))
         s[:, 1] = self.sigma(2 * n[:,[1]])[:,0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,1])**(4/3))
 
-- 
2.43.0

