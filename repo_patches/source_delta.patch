From f5f6e52fdb8d76c8d4212f1b856b08ac2e67332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 01/22] fix: import the RBF kernel from the package it lives in

kernels/ is a sibling of score_estimators/, so the package did not import.
---
 .../score_estimators/score_function_estimators_pytorch.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index fa4aed1..ff66856 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -8,7 +8,11 @@ Created on Wed Jan 19 01:15:07 2022
 import torch
 import numpy as np
 from typing import Union
-from .kernels.RBF_pytorch import RBF
+try:
+    from ..kernels.RBF_pytorch import RBF
+except ImportError:
+    ###this clause is for imports to work properly for the documendation
+    from kernels.RBF_pytorch import RBF
 
 __all__ = ["torched_score_function_multid_seperate_all_dims"]
 
-- 
2.43.0


From 65f7ae164010728164a0ca65760363f40014db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 02/22] fix: keep the numpy part importable when pytorch is not
 installed

torch is not among the requirements and the top-level module treats it as
optional, but score_estimators imported its pytorch module unconditionally.
---
 .../score_estimators/__init__.py                          | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/__init__.py b/DeterministicParticleFlowControl/score_estimators/__init__.py
index 0c8450b..1de6965 100644
--- a/DeterministicParticleFlowControl/score_estimators/__init__.py
+++ b/DeterministicParticleFlowControl/score_estimators/__init__.py
@@ -3,4 +3,10 @@
 Module containing the logarithmic gradient estimators.
 """
 from .score_function_estimators import *  
-from .score_function_estimators_pytorch import *  
+try:
+    import torch
+    TORCHED = True
+except ImportError:
+    TORCHED = False
+if TORCHED:
+    from .score_function_estimators_pytorch import *  
-- 
2.43.0


From 4e1199e722e3f18ce4819dea1704959cd81d6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 03/22] fix: use the duecredit stub of the package when
 duecredit is missing

due.py is there for that, and the comment above due.cite promises it.
---
 .../DeterministicParticleFlowControl.py                        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d33466e..d1a82d1 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -41,6 +41,7 @@ if __name__ == "DeterministicParticleFlowControl.DeterministicParticleFlowContro
     if TORCHED:
         from .score_estimators.score_function_estimators_pytorch import  torched_score_function_multid_seperate_all_dims
         #from .utils.utils_pytorch import set_device
+    from .due import due, BibTeX
         
 else:
     ###this clause is for imports to work properly for the documendation
@@ -49,7 +50,7 @@ else:
     if TORCHED:
         from score_estimators.score_function_estimators_pytorch import  torched_score_function_multid_seperate_all_dims
         #from utils.utils_pytorch import set_device
-from duecredit import due, BibTeX
+    from due import due, BibTeX
 
 
 if TORCHED:
-- 
2.43.0


From aa65ece162c3ec833a4cfded1c24547a99778a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 04/22] fix: logging call of the reweighting step

The argument without a placeholder made logging print a traceback for every
reweighted run at level INFO.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d1a82d1..f884e52 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -446,7 +446,7 @@ class DPFC(object):
                     #print(Tstar)
                     if ti == 3:
                         stop = time.time()
-                        logging.info('Timepoint: %d needed '%ti, stop-start)
+                        logging.info('Timepoint: %d needed %f', ti, stop-start)
                     self.Z[:, :, ti] = ((self.Z[:, :, ti])@Tstar) #####
         logging.info('Forward sampling with Otto is ready!')
         return 0
@@ -1157,7 +1157,7 @@ class torched_DPFC(object):
                     #print(Tstar)
                     if ti == 3:
                         stop = time.time()
-                        logging.info('Timepoint: %d needed '%ti, stop-start)
+                        logging.info('Timepoint: %d needed %f', ti, stop-start)
                     
         logging.info('Forward sampling with Otto is ready!')
         return 0
-- 
2.43.0


From 3f0bb58fdbb5169379abd822691536b269886dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 05/22] fix: stochastic forward sampling of DPFC

The drift was called without time and the path constraint without time and
time step, unlike in the deterministic flow, a one dimensional state failed,
and the terminal particles were overwritten with y2, which left a density of
zero width (nan for targets like the origin) for the backward flow.
---
 .../DeterministicParticleFlowControl.py          | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index f884e52..cd4869e 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -240,19 +240,17 @@ class DPFC(object):
         for ti, tt in enumerate(self.timegrid):
 
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
-                for i in range(self.N):
-                    #self.Z[:,i,:] = sdeint.itoint(self.f, self.g, self.Z[i,0], self.timegrid)[:,0]
-                    self.Z[:, i, ti] = (self.Z[:, i, ti-1] + \
-                                      self.dt* self.f(self.Z[:, i, ti-1]) + \
-                                      (self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim,)))
+                #substract dt because I want the time at t-1
+                self.Z[:, :, ti] = (self.Z[:, :, ti-1] + self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
+                                 (self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N)))
 
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/np.sum(W)
 
                         ###REWEIGHT
@@ -260,8 +258,6 @@ class DPFC(object):
 
                         self.Z[:, :, ti] = (self.Z[:, :, ti])@Tstar
 
-        for di in range(self.dim):
-            self.Z[di, :, -1] = self.y2[di]
         logging.info('Forward sampling done!')
         return 0
 
-- 
2.43.0


From 1f0936654383293ea84b382c81d67325477b5a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 06/22] fix: stochastic forward sampling of torched_DPFC

As for DPFC: the path constraint takes the time and is integrated over one
time step, and the state can be one dimensional.
---
 .../DeterministicParticleFlowControl.py                     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index cd4869e..f43089f 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -908,8 +908,8 @@ class torched_DPFC(object):
         
         for ti, tt in enumerate(self.timegrid):
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
                 self.Z[:, :, ti] = self.Z[:, :, ti-1] + \
                                     self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
@@ -918,7 +918,7 @@ class torched_DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/torch.sum(W)
 
                         ###REWEIGHT with pot TO DO:
-- 
2.43.0


From 8ec676b6c49d333759a4134437e8df6de93a1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 07/22] fix: controls of the Brownian bridge mode

The points were clipped to bounds filled for one dimension only and used with
the axes exchanged (and the call failed for dim != 2). The other densities
are not clipped either.
---
 .../DeterministicParticleFlowControl.py                      | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index f43089f..9779aca 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -677,10 +677,7 @@ class DPFC(object):
                 if self.reweight == False or self.brown_bridge == False:
                     score_Fw = score_function_multid_seperate(self.Z[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc2, which_dim=di+1, kern=self.kern)(grid_z)
                 else:
-                    bndsztr = np.zeros((self.dim, 2))
-                    for ii in range(self.dim):
-                        bndsztr[di] = [np.min(self.Ztr[di, :, ti]), np.max(self.Ztr[di, :, ti])]
-                    grid_ztr = np.clip(grid_x, bndsztr[0], bndsztr[1])
+                    grid_ztr = grid_x#np.clip(grid_x, bndsztr[0], bndsztr[1])
                     lnthsc3 = 2*np.std(self.Ztr[:, :, ti], axis=1)
                     score_Fw = score_function_multid_seperate(self.Ztr[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc3, which_dim=di+1, kern=self.kern)(grid_ztr)
 
-- 
2.43.0


From 5c963ce935df514292793d7b1952daaf0979ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 08/22] fix: shapes in f_seperate_true of torched_DPFC

The Brownian bridge mode failed at the second time step.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 9779aca..fbbe084 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -977,14 +977,14 @@ class torched_DPFC(object):
 
 
         gpsi = torched_score_function_multid_seperate_all_dims(torch.t(x),
-                                                               torch.t(Sxx),
+                                                               Sxx,
                                                                func_out=False,
                                                                C=0.001,
                                                                l=lnthsc,
                                                                kern=self.kern,
                                                                device=self.device)
 
-        return self.f_true(x, t)-0.5* self.g**2* gpsi
+        return self.f_true(x, t)-0.5* self.g**2* torch.t(gpsi)
 
 
     ### effective forward drift - estimated seperatelly for each dimension
-- 
2.43.0


From b5fbe3b55c453cb5f79951fc084bc76514415ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 09/22] fix: check_if_covered of torched_DPFC

A point is covered if both densities cover it, as documented and as in DPFC.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index fbbe084..39725c5 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -1491,8 +1491,8 @@ class torched_DPFC(object):
         bnds = torch.zeros(self.dim, 2, dtype=torch.float64,
                           device=self.device)
         for ii in range(self.dim):
-            bnds[ii, 0] = min(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
-            bnds[ii, 1] = max(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
+            bnds[ii, 0] = max(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
+            bnds[ii, 1] = min(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
             
             
 
-- 
2.43.0


From a591466cd23d26871463bd9a90f6d458415d8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 10/22] fix: torched_DPFC accepts numpy states

The conversion to tensors was there, but came after a call that needs one.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 39725c5..1575b9c 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -808,8 +808,6 @@ class torched_DPFC(object):
                  device=None):
 
         self.device = device
-        # dimensionality of the system
-        self.dim = torch.tensor(y1.size(dim=0), dtype=torch.int, device=self.device)  # dimensionality of the system
         self.t1 = t1
         self.t2 = t2
         if not torch.is_tensor(y1):
@@ -818,6 +816,8 @@ class torched_DPFC(object):
         else:
             self.y1 = y1
             self.y2 = y2
+        # dimensionality of the system
+        self.dim = torch.tensor(self.y1.size(dim=0), dtype=torch.int, device=self.device)  # dimensionality of the system
 
 
         ##density estimation stuff
-- 
2.43.0


From 3364d4458b814252445b1fa990a751368de71121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 11/22] fix: calculate_u of torched_DPFC accepts arrays at
 every time

It did for the inner time steps only.
---
 .../DeterministicParticleFlowControl.py                         | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 1575b9c..d4b1a63 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -1359,6 +1359,8 @@ class torched_DPFC(object):
         #a = 0.001
         #grad_dirac = lambda x,di: - 2*(x[di] -self.y2[di])*
         #np.exp(- (1/a**2)* (x[0]- self.y2[0])**2)/(a**3 *np.sqrt(np.pi))
+        if not torch.is_tensor(grid_x):
+            grid_x = torch.tensor(grid_x, dtype=torch.float64, device=self.device)
         u_t = torch.zeros(grid_x.T.shape, dtype=torch.float64,
                           device=self.device)
 
-- 
2.43.0


From 2a56ee869abee6c3b4fce773db5f0eec13818bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 12/22] fix: honour the weighting constant C in the pytorch
 score estimator

---
 .../score_estimators/score_function_estimators_pytorch.py        | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index ff66856..05c41d9 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -65,7 +65,6 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
     M, dim = Z.shape
-    C = 0.001
 
     if not torch.is_tensor(X):
           # convert inputs to pytorch tensors if not already pytorched
-- 
2.43.0


From d7fe08bdd934620cb8201f0a487d71428ff0de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 13/22] fix: evaluate the pytorch score function on tensors
 with a scalar lengthscale

The argument was used only if it was an array, and the name was unbound if it
was a tensor, so torched_DPFC failed for one dimensional systems.
---
 .../score_estimators/score_function_estimators_pytorch.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index 05c41d9..ba0dca0 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -147,8 +147,8 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
                   def K_sz(y):
                       if not torch.is_tensor(y):
                           # convert inputs to pytorch tensors if not already pytorched
-                          xu = torch.tensor(y, dtype=torch.float64, device=device)
-                      X_i = xu[:, None, :] # shape (n, D) -> (n, 1, D)
+                          y = torch.tensor(y, dtype=torch.float64, device=device)
+                      X_i = y[:, None, :] # shape (n, D) -> (n, 1, D)
                       Z_j = Z[None, :, :] # shape (M, D) -> (1, M, D)
                       sqd     = torch.sum( (X_i - Z_j)**2, 2)         # |X_i - Y_j|^2 # (N, M, D)
                       # Divide by length scale
-- 
2.43.0


From bb49d270855cd60f4d7621d2196e597d8edf27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 14/22] fix: input types of the pytorch score estimator

Inducing points given as array next to samples given as tensor, a zero
dimensional tensor as lengthscale, and a list of lengthscales failed.
---
 .../score_function_estimators_pytorch.py             | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index ba0dca0..dd8e2b9 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -70,13 +70,15 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
           # convert inputs to pytorch tensors if not already pytorched
           X = torch.tensor(X, dtype=torch.float64, device=device)
 
-          if Z is None:
-              Z = X
-          elif not torch.is_tensor(Z):
-              Z = torch.tensor(Z, dtype=torch.float64, device=device)
+    if Z is None:
+          Z = X
+    elif not torch.is_tensor(Z):
+          Z = torch.tensor(Z, dtype=torch.float64, device=device)
     N, D = X.size()
-    if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.size(dim=0)>1):
+    if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.numel()>1):
           multil = True
+          if not torch.is_tensor(l):
+                l = torch.tensor(l, dtype=torch.float64, device=device)
 
           ### for different lengthscales for each dimension
 
-- 
2.43.0


From ac40e84c3dc09c399db7a41b3af5bcd97c19c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 15/22] fix: 'l1' distance of my_cdist

It computed the euclidean distance.
---
 .../score_estimators/score_function_estimators.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
index 4d0c857..6c0d7fd 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
@@ -72,8 +72,8 @@ def my_cdist(r,y, output,dist='euclidean'):
             for j in numba.prange(N2):
                 tmp = 0.0
                 for k in range(M):
-                    tmp += (r[i, k] - y[j, k])**2          
-                output[i,j] = math.sqrt(tmp)   
+                    tmp += abs(r[i, k] - y[j, k])
+                output[i,j] = tmp
     return 0
 
 
-- 
2.43.0


From 4b782cb58d19972c20d22cb6dfcd63983a22edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 16/22] fix: function output of score_function_multid_seperate2
 in any dimension

With a vector of lengthscales it used the first two dimensions only.
---
 DeterministicParticleFlowControl/score_estimators/score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score.py b/DeterministicParticleFlowControl/score_estimators/score.py
index 451b6c2..601aa1c 100644
--- a/DeterministicParticleFlowControl/score_estimators/score.py
+++ b/DeterministicParticleFlowControl/score_estimators/score.py
@@ -106,7 +106,7 @@ def score_function_multid_seperate2(X,Z,func_out=False, C=0.001,kern ='RBF',l=1,
         if multil:                
             #res = np.ones((x.shape[0],y.shape[0]))                
             #for ii in range(len(l)): 
-            K_sz = lambda x: np.multiply(np.exp(-cdist(x[:,0].reshape(-1,1), Z[:,0].reshape(-1,1),'sqeuclidean')/(2*l[0]*l[0])),np.exp(-cdist(x[:,1].reshape(-1,1), Z[:,1].reshape(-1,1),'sqeuclidean')/(2*l[1]*l[1])))
+            K_sz = lambda x: K(x,Z,l,multil=True)
             #return K_sz
         else:
             K_sz = lambda x: np.exp(-cdist(x, Z,'sqeuclidean')/(2*l*l))
-- 
2.43.0


From 17dc88b27b1ac24f18c311ac8a73639cfd03f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 17/22] fix: check_if_covered on the documented 1 x dim and K x
 dim arrays

The point was indexed by its first axis, so a 1 x dim array raised an
IndexError (or a ValueError) although the docstring asks for that shape.
---
 .../DeterministicParticleFlowControl.py                     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d4b1a63..303caa6 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -710,12 +710,13 @@ class DPFC(object):
 
         """
         covered = True
+        X = np.reshape(X, (-1, self.dim))
         bnds = np.zeros((self.dim, 2))
         for ii in range(self.dim):
             bnds[ii] = [max(np.min(self.Z[ii, :, ti]), np.min(self.B[ii, :, ti])), min(np.max(self.Z[ii, :, ti]), np.max(self.B[ii, :, ti]))]
             #bnds[ii] = [np.min(self.B[ii,:,ti]),np.max(self.B[ii,:,ti])]
 
-            covered = covered * ((X[ii] >= bnds[ii][0]) and (X[ii] <= bnds[ii][1]))
+            covered = covered * np.all((X[:, ii] >= bnds[ii][0]) & (X[:, ii] <= bnds[ii][1]))
 
         return covered
 
@@ -1490,6 +1491,7 @@ class torched_DPFC(object):
 
         """
         covered = True
+        X = torch.as_tensor(X, dtype=torch.float64, device=self.device).reshape(-1, int(self.dim))
         bnds = torch.zeros(self.dim, 2, dtype=torch.float64,
                           device=self.device)
         for ii in range(self.dim):
@@ -1498,6 +1500,6 @@ class torched_DPFC(object):
             
             
 
-            covered = covered * ((X[ii] >= bnds[ii][0]) and (X[ii] <= bnds[ii][1]))
+            covered = covered * torch.all((X[:, ii] >= bnds[ii][0]) & (X[:, ii] <= bnds[ii][1]))
 
         return covered
-- 
2.43.0


From e40cb2c419ce979b0f0df0742fbcd9241a4a33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 18/22] fix: kernel gradient at the points it is asked for

gradient_X used the kernel values of the last Kernel call, whatever points
that call had, and failed on arrays and without Y although it documents both.
---
 DeterministicParticleFlowControl/kernels/RBF_pytorch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
index 231abd4..7a1d70a 100644
--- a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
+++ b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
@@ -133,6 +133,13 @@ class RBF:
 
         """
         #N, D = X.shape    
+        if not torch.is_tensor(X):
+          X = torch.tensor(X, dtype=torch.float64, device=self.device)
+        if Y is None:
+            Y = X
+        elif not torch.is_tensor(Y):
+            Y = torch.tensor(Y, dtype=torch.float64, device=self.device)
+        self.Kernel(X, Y) # K_data at these points
         M,_ = Y.shape
         diffs = X[:,None]-Y            
         #if self.multil:            
-- 
2.43.0


From c379bdaf06bf03a0581d2d22189e45d5d6f766c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 19/22] fix: DPFC accepts any array_like initial state

---
 .../DeterministicParticleFlowControl.py                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 303caa6..a7ca423 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -156,7 +156,7 @@ class DPFC(object):
 
     def __init__(self, t1, t2, y1, y2, f, g, N, M, reweight=False, U=None, dens_est='nonparametric', reject=True, kern='RBF', f_true=None, brown_bridge=False, deterministic=True):
 
-        self.dim = y1.size # dimensionality of the system
+        self.dim = np.size(y1) # dimensionality of the system
         self.t1 = t1
         self.t2 = t2
         self.y1 = y1
-- 
2.43.0


From ca5e7d4f36ecb24a723b0216847cf446fd712cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 20/22] fix: memory of the pytorch flows is released

The score estimates require grad (through the lengthscale of the kernel)
and entered the flows, which are filled in place: every time step kept its
backward graph, with the kernel matrices, although backward() through it
always raises because of the in-place updates. With a nonlinear drift or a
path constraint the graph also contained reference cycles, so that it
outlived the controller: every solve leaked.
---
 .../DeterministicParticleFlowControl.py                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index a7ca423..c7c860c 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -985,7 +985,7 @@ class torched_DPFC(object):
                                                                kern=self.kern,
                                                                device=self.device)
 
-        return self.f_true(x, t)-0.5* self.g**2* torch.t(gpsi)
+        return self.f_true(x, t)-0.5* self.g**2* torch.t(gpsi.detach())
 
 
     ### effective forward drift - estimated seperatelly for each dimension
@@ -1047,7 +1047,7 @@ class torched_DPFC(object):
         
         
         
-        return self.f(x, t)-0.5* self.g**2* torch.t(gpsi)
+        return self.f(x, t)-0.5* self.g**2* torch.t(gpsi.detach())
 
      ###same as forward sampling but without reweighting - this is for bridge reweighting
         ### not for constraint reweighting
@@ -1196,7 +1196,7 @@ class torched_DPFC(object):
                                                                kern=self.kern,
                                                                device=self.device)(torch.t(self.B[:, :, rev_ti])) )
 
-        return grad_ln_ro
+        return grad_ln_ro.detach()
 
 
     def bw_density_estimation(self, rev_ti):
@@ -1240,7 +1240,7 @@ class torched_DPFC(object):
                                                                l=lnthsc,
                                                                kern=self.kern,
                                                                device=self.device)
-        return grad_ln_b
+        return grad_ln_b.detach()
 
 
     def backward_simulation(self):
-- 
2.43.0


From a6be2d23588ab0965144c992681963296f6097af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 21/22] fix: weights of strong path constraints no longer over-
 or underflow

exp(U dt) was evaluated before normalising: a constraint below about -7e5
(above 7e5) for all particles gave weights 0/0 (inf/inf) and the flows
turned into nan, or the optimal transport raised. The largest exponent is
subtracted first, which the normalisation cancels.
---
 .../DeterministicParticleFlowControl.py              | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index c7c860c..b1d4875 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -250,7 +250,8 @@ class DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
+                        Udt = self.U(self.Z[:, :, ti], tt)*self.dt
+                        W[:, 0] = np.exp(Udt - np.max(Udt))
                         W = W/np.sum(W)
 
                         ###REWEIGHT
@@ -433,7 +434,8 @@ class DPFC(object):
             if self.reweight == True:
                 if ti > 0:
 
-                    W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt) #-1
+                    Udt = self.U(self.Z[:, :, ti], tt)*self.dt
+                    W[:, 0] = np.exp(Udt - np.max(Udt)) #-1
                     W = W/np.sum(W)
 
                     ###REWEIGHT
@@ -916,7 +918,8 @@ class torched_DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
+                        Udt = self.U(self.Z[:, :, ti], tt)*self.dt
+                        W[:, 0] = torch.exp(Udt - torch.max(Udt))
                         W = W/torch.sum(W)
 
                         ###REWEIGHT with pot TO DO:
@@ -1135,7 +1138,8 @@ class torched_DPFC(object):
             if self.reweight == True:
                 if ti > 0:
 
-                    W[:, 0] = torch.exp(self.U(self.Z[:, :, ti], tt)*self.dt) #-1
+                    Udt = self.U(self.Z[:, :, ti], tt)*self.dt
+                    W[:, 0] = torch.exp(Udt - torch.max(Udt)) #-1
                     W = W/torch.sum(W)
 
                     ###REWEIGHT
-- 
2.43.0


From 3e490586a443cc29b4c865107b9c635e515ed094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 22/22] fix: noise of the pytorch flows in double precision and
 on their device

Two of the four places that draw the noise of torched_DPFC left out dtype
and device: the noise term was rounded to single precision (1e-7), unlike
everything else, and was created on the CPU whatever the device.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index b1d4875..cc3ffa5 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -914,7 +914,7 @@ class torched_DPFC(object):
                 self.Z[:, :, ti] = self.Z[:, :, ti-1] + \
                                     self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
                                  (self.g)*\
-                                     torch.empty([self.dim, self.N]).normal_(mean=0, std=torch.sqrt(self.dt))
+                                     torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device).normal_(mean=0, std=torch.sqrt(self.dt))
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
@@ -1083,7 +1083,7 @@ class torched_DPFC(object):
                                           #substract dt because I want the time at t-1
                 self.Ztr[:, :, ti] = self.Ztr[:, :, ti-1] + \
                                       self.dt*self.f_true(self.Ztr[:, :, ti-1], tt-self.dt)+\
-                                 (self.g)*torch.empty([self.dim, self.N]).normal_(mean=0, std=torch.sqrt(self.dt))
+                                 (self.g)*torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device).normal_(mean=0, std=torch.sqrt(self.dt))
             else:
                 self.Ztr[:, :, ti] = self.Ztr[:, :, ti-1] + \
                     self.dt* self.f_seperate_true(self.Ztr[:, :, ti-1], tt-self.dt)
-- 
2.43.0

