From 8a0121334d13e72d2b69838577bc5d71c02f5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:20 +0000
Subject: [PATCH 01/85] fix: time-varying HMP models no longer fail when
 forming bump-state durations

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 23ac6f7..9d5db92 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -692,7 +692,7 @@ def _compute_series_probs(
                 lpd[int(event_width - 1)] = 0
 
                 if tvdtpi:
-                    lpd = [lpd for _ in range(D - 1)]
+                    lpd = [np.full(n_T, lp_d) for lp_d in lpd]
             else:
                 raise ValueError(f"Need distribution duration family for state {j}.")
 
@@ -3690,7 +3690,7 @@ class HSMMFamily(GSMMFamily):
                         lpd[int(event_width - 1)] = 0
 
                         if tvdtpi:
-                            lpd = [lpd for _ in range(D - 1)]
+                            lpd = [np.full(n_T, lp_d) for lp_d in lpd]
                     else:
                         raise ValueError(
                             f"Need distribution duration family for state {j}."
-- 
2.43.0


From 19df8ab0daed0fe13921915477eca6b91e964d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:21 +0000
Subject: [PATCH 02/85] fix: index time-varying durations by time in HSMM
 gradient of initial-state coefficients

---
 src/mssm/src/cpp/hsmm/llk.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/llk.cpp b/src/mssm/src/cpp/hsmm/llk.cpp
index 4539235..53f2641 100644
--- a/src/mssm/src/cpp/hsmm/llk.cpp
+++ b/src/mssm/src/cpp/hsmm/llk.cpp
@@ -1392,7 +1392,9 @@ py::array_t<
                         
                         // Only need deriv of (\sum_{i \in S/j} lam(t-1,1,i)*T(i,j)) * bs(t,j)*
                         // ds(d,j) - same as before:
-                        psi(t1,d,j,tci) += tpg*bs(t,j)*ds(d,(starts_with_first) ? j : j + n_S);
+                        psi(t1,d,j,tci) += tpg*bs(t,j)*((tvdtpi) ?
+                                               ds(d,(starts_with_first) ? j : j + n_S,t):
+                                               ds(d,(starts_with_first) ? j : j + n_S));
 
                         tci += 1;
                     }
-- 
2.43.0


From 472291ca8cf6bd95a7b184972a89047da9439a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:21 +0000
Subject: [PATCH 03/85] fix: two-state time-varying HSMM transition matrix has
 three dimensions

---
 src/mssm/src/python/hsmm.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 9d5db92..bc33d7e 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -760,9 +760,6 @@ def _compute_series_probs(
             T[0, 1] = 1
             T[1, 0] = 1
 
-            if tvdtpi:
-                T = np.stack([T for _ in range(n_T)], axis=2)
-
         if log:
             T = np.log(T)
 
-- 
2.43.0


From 357e71347f6c4d40f52da6c5ad2409b57b0f3903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:21 +0000
Subject: [PATCH 04/85] fix: HSMM gradient of initial-state model when its
 matrix is shared with a time-varying model

---
 src/mssm/src/python/hsmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index bc33d7e..9274aaa 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -3864,7 +3864,8 @@ class HSMMFamily(GSMMFamily):
                 coefj = []
 
                 for par in range(pi_fam.n_par):
-                    Xsj.append(Xs[idx])
+                    # Only need trial-level matrix, even if X was taken from another formula
+                    Xsj.append(Xs[idx][[0], :])
                     coefj.append(split_coef[idx])
 
                     etaspi.append(Xs[idx] @ split_coef[idx])
-- 
2.43.0


From 9f2483ab785a8403d74e286bb713130a20d7462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:03 +0000
Subject: [PATCH 05/85] fix: allow sharing only the second emission parameter
 in HSMMs

---
 src/mssm/src/python/hsmm.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 9274aaa..601fcdd 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -120,7 +120,7 @@ def _split_matrices(
                 X_split = [Xmj[split, :] for split in np.split(Xidx, sid[1:])]
 
             y_split = None
-            if par == 0 and m == 0:
+            if idx == 0:
                 ymj = ys[0] if Lrhoi is None else Lrhoi.T @ ys[0]
                 y_split = np.split(ymj, sid[1:])
 
@@ -430,14 +430,14 @@ def _compute_series_probs(
     idx = 0  # Keep track of indices for ys and Xs
 
     # First check for part of emission models shared between states (and m)
-    shared_eta = []  # Holds list per par, each list contains at least one eta vector.
+    shared_eta = {}  # Holds list per par, each list contains at least one eta vector.
     for par in shared_pars:
 
         midx = 1
         if shared_m is False:
             midx = M
 
-        shared_eta.append([])
+        shared_eta[par] = []
 
         # Compute shared part of eta per parameter and m
         for m in range(midx):
@@ -898,14 +898,14 @@ def _sample_series_emissions(
     # First check for part of emission models shared between states (and m)
 
     # Holds list per par, each list contains at least one eta vector.
-    shared_eta = []
+    shared_eta = {}
     for par in shared_pars:
 
         midx = 1
         if shared_m is False:
             midx = M
 
-        shared_eta.append([])
+        shared_eta[par] = []
 
         # Compute shared part of eta per parameter and m
         for m in range(midx):
@@ -3187,9 +3187,9 @@ class HSMMFamily(GSMMFamily):
 
             # Lists below hold list per par. Each list contains at least one eta/X index/list to
             # be filled with duplicate coefficient indices
-            shared_eta = []
-            shared_X = []
-            shared_coef_idx = []
+            shared_eta = {}
+            shared_X = {}
+            shared_coef_idx = {}
 
             # List below holds indices of all duplicated coef so that we can later exclude them
             shared_coef_idx_flat = []
@@ -3199,9 +3199,9 @@ class HSMMFamily(GSMMFamily):
                 if shared_m is False:
                     midx = M
 
-                shared_eta.append([])
-                shared_X.append([])
-                shared_coef_idx.append([])
+                shared_eta[par] = []
+                shared_X[par] = []
+                shared_coef_idx[par] = []
 
                 # Compute shared part of eta per parameter and m and collect
                 # X index + add list to be populated with duplicated/shared coef
-- 
2.43.0


From 831a1c86f5f6a9195772d77736a786f77bc30b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:58 +0000
Subject: [PATCH 06/85] fix: backward sampling of HSMM states uses durations of
 the time-point a state starts

---
 src/mssm/src/cpp/hsmm/decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index d602a2c..a084faf 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -525,7 +525,7 @@ std::tuple<
                     state_probs[i] = lam(t-1,0,i) *
                                         ((tvdtpi) ? T(i,tmp_j,t-1): T(i,tmp_j)) *
                                         ((tvdtpi) ?
-                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t-1)
+                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t)
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
-- 
2.43.0


From eb3e3af365f6d57aadb75bcfae06f4baf1afa44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:58 +0000
Subject: [PATCH 07/85] fix: backward sampling of HMP states accounts for ar1
 lag of preceding bump

---
 src/mssm/src/cpp/hsmm/decode.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index a084faf..b5a7258 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -514,6 +514,13 @@ std::tuple<
                     if ((tmp_ed + 1) <= (D - 2))
                     {
                         state_probs[i] = lam(t-1,tmp_ed+1,i);
+
+                        // First obs prob after a switch to a flat differs for ar1 model, so
+                        // obs probs do not cancel for flats of hmp
+                        if (hmp_code != 0 && tmp_j % 2 == 0)
+                        {
+                            state_probs[i] *= bs(t,0,tmp_j);
+                        }
                     }
                     else
                     {
@@ -529,6 +536,11 @@ std::tuple<
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
+
+                    if (hmp_code != 0 && tmp_j % 2 == 0)
+                    {
+                        state_probs[i] *= bs(t,1,tmp_j);
+                    }
                 }
             }
             
-- 
2.43.0


From f2bea7ba68cb667f2e8615e8ab7d37afab0ee435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:58 +0000
Subject: [PATCH 08/85] fix: predictive HSMM residuals use mean of the right
 signal after a state transition

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 162576c..3e15e2e 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -502,7 +502,7 @@ py::array_t<
                         {   
                             // Expected value for signal m
 
-                            elam(t,m,d,j) += tp * mus(t,j) *
+                            elam(t,m,d,j) += tp * mus(t,m,j) *
                                             ((tvdtpi) ? ds(d,(starts_with_first) ? j : j + n_S,t):
                                                         ds(d,(starts_with_first) ? j : j + n_S));
 
-- 
2.43.0


From ef180690813817c276f06fd5341402849bb5f3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:58 +0000
Subject: [PATCH 09/85] fix: predictive HMP residuals do not read a bump
 preceding the first flat

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 3e15e2e..722777b 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -476,7 +476,7 @@ py::array_t<
                                                  ds(d,(starts_with_first) ? j : j + n_S,t):
                                                  ds(d,(starts_with_first) ? j : j + n_S));
                             }
-                            else if (rho < 999)
+                            else if (rho < 999 && j > 0)
                             {
                                 // Lag of previous bump carries over
                                 ebump = d1 * weights(event_width-1) * mus(t-1,m,j-1);
-- 
2.43.0


From c0f23319ab35ce0ba6a615a2bbe64f2ef0e5b97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:59 +0000
Subject: [PATCH 10/85] fix: sign of ar1 correction of HMP log-likelihood and
 apply it to every signal

---
 src/mssm/src/python/hsmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 601fcdd..b874f31 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -3072,7 +3072,7 @@ class HSMMFamily(GSMMFamily):
             llk = -np.inf
 
         # Correct for potential ar1 model
-        llk -= llc
+        llk += M * llc
 
         return llk
 
-- 
2.43.0


From c274753198709e2b7554e86af4934defd97b7314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:00 +0000
Subject: [PATCH 11/85] fix: duration residual of a series without transitions
 uses the first-state distribution

---
 src/mssm/src/python/hsmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index b874f31..4bd03de 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1061,7 +1061,7 @@ def _compute_dur_res_series(
         t += 1
 
     # Catch dur from last state
-    dj_idx = j if (starts_with_first is True) else j + n_S
+    dj_idx = j if (transitions == 0 or starts_with_first is True) else j + n_S
 
     if mus_d[dj_idx] is None:
         res[j] = None
-- 
2.43.0


From fc5dc4bd1aa553ca45a07c4371982259c255f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:00 +0000
Subject: [PATCH 12/85] fix: time-varying duration residuals use the duration
 model at the time a state starts

---
 src/mssm/src/python/hsmm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 4bd03de..f364fa7 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1037,6 +1037,7 @@ def _compute_dur_res_series(
     j = states[0]
     transitions = 0
     t = 0
+    t0 = 0  # Time at which current state started
 
     for s in states:
         if s == j:
@@ -1051,12 +1052,13 @@ def _compute_dur_res_series(
             else:
                 d_res = d_fams[(dj_idx)].get_resid(
                     np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-                )[t if tvdtpi else 0, 0]
+                )[t0 if tvdtpi else 0, 0]
 
                 # And collect
                 res[j].append(d_res)
             j = s
             d = 1
+            t0 = t
             transitions += 1
         t += 1
 
@@ -1068,7 +1070,7 @@ def _compute_dur_res_series(
     else:
         d_res = d_fams[(dj_idx)].get_resid(
             np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-        )[t - 1 if tvdtpi else 0, 0]
+        )[t0 if tvdtpi else 0, 0]
 
         res[j].append(d_res)
 
-- 
2.43.0


From 020247191d3f4539aa5af5ecb0e02a184c7bb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:00 +0000
Subject: [PATCH 13/85] fix: duration residuals decode each series with its own
 transition matrix and apply ar1 transform once

---
 src/mssm/src/python/hsmm.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index f364fa7..698dcb0 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import scipy as scp
 from mssm.src.python.gamm_solvers import deriv_transform_mu_eta, cpp_backsolve_tr
@@ -1992,6 +1993,7 @@ class HSMMFamily(GSMMFamily):
         sid: None | np.ndarray = None,
         tid: None | np.ndarray = None,
         n_cores: None | int = None,
+        transform_ys: bool = True,
     ) -> list[tuple[int, np.ndarray]]:
         """Perform viterbi decoding of state sequence for a :class:`HSMMFamily` model.
 
@@ -2028,6 +2030,9 @@ class HSMMFamily(GSMMFamily):
             the value passed to the constructor of ``self``. If set to None, the value passed to
             the constructor is used. Defaults to None
         :type n_cores: int| None, optional
+        :param transform_ys: Whether ``ys`` still have to be transformed in case of a HMP-like model
+            with an ar model of the residuals. Defaults to True
+        :type transform_ys: bool, optional
         :return: A list with a tuple per time-series. First element of tuple is excess duration of
             final state, second is a np.array with the decoded state sequence matching the length
             of the time-series.
@@ -2134,7 +2139,11 @@ class HSMMFamily(GSMMFamily):
         T = self.llkargs[14]
         pi = self.llkargs[15]
         Lrhoi = None
-        if self.llkargs[16] is not None and ys[0].shape[0] == self.llkargs[16].shape[0]:
+        if (
+            transform_ys
+            and self.llkargs[16] is not None
+            and ys[0].shape[0] == self.llkargs[16].shape[0]
+        ):
             Lrhoi = self.llkargs[16]
         scale = self.llkargs[17]
         event_template = self.llkargs[18]
@@ -2234,6 +2243,7 @@ class HSMMFamily(GSMMFamily):
         sid: None | np.ndarray = None,
         tid: None | np.ndarray = None,
         n_cores: None | int = None,
+        transform_ys: bool = True,
     ) -> list[tuple[int, np.ndarray]]:
         """Samples the posterior of state sequences given parameter estimates and data.
 
@@ -2275,6 +2285,9 @@ class HSMMFamily(GSMMFamily):
             the value passed to the constructor of ``self``. If set to None, the value passed to
             the constructor is used. Defaults to None
         :type n_cores: int| None, optional
+        :param transform_ys: Whether ``ys`` still have to be transformed in case of a HMP-like model
+            with an ar model of the residuals. Defaults to True
+        :type transform_ys: bool, optional
         :return: A list with a tuple per time-series. First element of tuple is excess duration of
             final state (a np.array holding ``n_samples`` excess durations), second is a np.array
             with the sampled state sequences. First dimension matches length of the time-series.
@@ -2381,7 +2394,11 @@ class HSMMFamily(GSMMFamily):
         T = self.llkargs[14]
         pi = self.llkargs[15]
         Lrhoi = None
-        if self.llkargs[16] is not None and ys[0].shape[0] == self.llkargs[16].shape[0]:
+        if (
+            transform_ys
+            and self.llkargs[16] is not None
+            and ys[0].shape[0] == self.llkargs[16].shape[0]
+        ):
             Lrhoi = self.llkargs[16]
         scale = self.llkargs[17]
         event_template = self.llkargs[18]
@@ -2604,6 +2621,14 @@ class HSMMFamily(GSMMFamily):
             else:
                 hmp_code = 0
 
+            # Decoding & sampling below involve only this series - so need a family with the
+            # transition matrix and initial distribution of this series.
+            series_fam = copy.copy(self)
+            if fix_T_pi:
+                series_fam.llkargs = [*self.llkargs]
+                series_fam.llkargs[14] = Ts
+                series_fam.llkargs[15] = pis
+
             # Now compute residual vector #
             if resid_type == "forward":
                 res = hsmm.forward_resid(
@@ -2653,7 +2678,7 @@ class HSMMFamily(GSMMFamily):
             elif resid_type == "viterbi_dur":
 
                 # Decode viterbi path
-                viterbi = self.decode_viterbi(
+                viterbi = series_fam.decode_viterbi(
                     coef,
                     coef_split_idx,
                     ys,
@@ -2661,6 +2686,7 @@ class HSMMFamily(GSMMFamily):
                     sid=np.array([0]),
                     tid=np.array([0]),
                     n_cores=1,
+                    transform_ys=False,
                 )
 
                 res_sep = _compute_dur_res_series(
@@ -2680,7 +2706,7 @@ class HSMMFamily(GSMMFamily):
                 res = res.reshape(1, -1)
 
             elif resid_type == "posterior_dur":
-                state_samples = self.sample_posterior_states(
+                state_samples = series_fam.sample_posterior_states(
                     coef,
                     coef_split_idx,
                     ys,
@@ -2690,6 +2716,7 @@ class HSMMFamily(GSMMFamily):
                     sid=np.array([0]),
                     tid=np.array([0]),
                     n_cores=1,
+                    transform_ys=False,
                 )
 
                 res = np.zeros((1, n_S, n_samples))
-- 
2.43.0


From 94af1e92ce38c3728ecbb29a0167789acea339be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:38 +0000
Subject: [PATCH 14/85] fix: compute_Tpi returns each series' own fixed
 transition matrix

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 698dcb0..59ca0f6 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1589,7 +1589,7 @@ class HSMMFamily(GSMMFamily):
             ps = []
 
             for series in range(n_series):
-                T, pi = series_Tpi(
+                Ts, pis = series_Tpi(
                     series,
                     [
                         y_split[series] if y_split is not None else None
@@ -1601,7 +1601,7 @@ class HSMMFamily(GSMMFamily):
                     ],
                 )
 
-                ps.append([T, pi])
+                ps.append([Ts, pis])
 
         else:  # Compute in parallel
 
-- 
2.43.0


From cf87aa5c87caa8274bd36a0e8d1894d5397f06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:38 +0000
Subject: [PATCH 15/85] fix: HSMM predictions use the transition matrix of the
 time-point at which a state ends

---
 src/mssm/src/python/hsmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 59ca0f6..3eb3c9b 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1796,7 +1796,7 @@ class HSMMFamily(GSMMFamily):
                         else:
                             state = np_gen.choice(
                                 state_vals,
-                                p=Ts[state, :, t] if tvdtpi else Ts[state, :],
+                                p=Ts[state, :, t - 1] if tvdtpi else Ts[state, :],
                             )
 
                             dur = np_gen.choice(
-- 
2.43.0


From 45511f6b129c5aa39b0002f6a923f5bb80bf9fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:01 +0000
Subject: [PATCH 16/85] fix: smooth terms with dropped coefficients use the
 basis functions that were kept

---
 src/mssm/src/python/terms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index cabc121..689d7d6 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -1348,10 +1348,16 @@ class f(GammTerm):
         if n_coef != f_cols:
             raise KeyError("Not all model matrix columns were created.")
 
+        # Columns that are actually kept - dropping a coefficient shifts all subsequent ones.
+        n_all = m_cols if self.by is None else m_cols * len(by_levels)
+        keep_cols = np.arange(n_all)
+        if self.drop_coef is not None:
+            keep_cols = keep_cols[~np.isin(keep_cols, self.drop_coef)]
+
         # Find basis elements > 0 and collect correspondings elements and row indices
         for m_coli in range(f_cols):
             final_ridx = term_ridx[m_coli]
-            final_col = matrix_term[final_ridx, m_coli % m_cols]
+            final_col = matrix_term[final_ridx, keep_cols[m_coli] % m_cols]
 
             # Tolerance row index for this columns
             cidx = abs(final_col) > tol
-- 
2.43.0


From 7ba421ad44698c6a9ecc5460f41448d8758c4d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:01 +0000
Subject: [PATCH 17/85] fix: sum-to-zero constraint of re-parameterized te
 terms is computed for their own columns

---
 src/mssm/src/python/formula.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 23f312d..9f77245 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1645,6 +1645,11 @@ class Formula:
                     )
 
                 if sterm.te:
+                    # Constraint has to match the columns build by the term, i.e., after
+                    # re-parameterization of marginals.
+                    if sterm.should_rp > 0:
+                        matrix_term_v = matrix_term_v @ sterm.RP[vi].C
+
                     if vi == 0:
                         matrix_term = matrix_term_v
                     else:
-- 
2.43.0


From 55b741d55b647a450a8519d8081633a8ddcaebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:01 +0000
Subject: [PATCH 18/85] fix: formulas with factor smooths as only smooth terms
 no longer fail when checking for nesting

---
 src/mssm/src/python/formula.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 9f77245..35dc827 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1689,6 +1689,9 @@ class Formula:
         sti = self.get_smooth_term_idx()
         sti = [ti for ti in sti if isinstance(self.terms[ti], fs) is False]
 
+        if len(sti) == 0:  # Only factor smooths - nothing to check
+            return
+
         term_var = [self.terms[ti].variables for ti in sti]
         n_term_var = [len(tvar) for tvar in term_var]
         max_var = np.max(n_term_var)
-- 
2.43.0


From d7191f300a8d0c13b9f1b4622bbb9972c354cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:01 +0000
Subject: [PATCH 19/85] fix: binary tensor smooths accept a list of basis
 function counts

---
 src/mssm/src/python/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index 689d7d6..0d0cdc4 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -390,7 +390,7 @@ class f(GammTerm):
             # subtracted after identifiability constraints have been observed,
             # while for all other terms mssm acts as if one additional coef was requested.
             if te is False:
-                nk = nk + 1
+                nk = [k + 1 for k in nk] if isinstance(nk, list) else nk + 1
 
         # Default penalty setup
         if penalty is None:
-- 
2.43.0


From 4f79583b34db365b1c7516ef042beb4b3d610bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:25 +0000
Subject: [PATCH 20/85] fix: re-parameterized tensor smooths support DROP and
 DIFF constraints

---
 src/mssm/src/python/terms.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index 0d0cdc4..820dff8 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -598,7 +598,18 @@ class f(GammTerm):
             )
 
             if self.is_identifiable and self.te is False:
-                A = A @ constraint.Z
+                Z = constraint.Z
+                if constraint.type == ConstType.QR:
+                    A = A @ Z
+                elif constraint.type == ConstType.DROP:
+                    A = np.delete(A, Z, axis=1)
+                elif constraint.type == ConstType.DIFF:
+                    # Same difference re-coding as applied to the model matrix
+                    A = np.diff(np.concatenate((A[:, Z:], A[:, :Z]), axis=1))
+                    A = np.concatenate(
+                        (A[:, A.shape[1] - Z :], A[:, : A.shape[1] - Z]),  # noqa: E203
+                        axis=1,
+                    )
                 id_k -= 1
 
             # Need inverse of A
-- 
2.43.0


From 8337f5450ab1759a08e806e8a57b30259ba2a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:25 +0000
Subject: [PATCH 21/85] fix: null-space penalty of tensor smooths with multiple
 penalties per marginal

---
 src/mssm/src/python/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 35dc827..1b70624 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -2297,7 +2297,7 @@ def build_penalties(formula) -> list[LambdaTerm]:
 
                         # In the end, update the number of new penalties based on the number of
                         # variables involed for TPs
-                        added_pen = int(TP_last_n / len(vars))
+                        added_pen = int(TP_last_n / len(sterm.penalty))
 
                     else:
                         # check for Demmler & Reinsch reparameterization for univariate smooths
-- 
2.43.0


From fd6431273476f8840a459d049ab3c1da20e4c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:25 +0000
Subject: [PATCH 22/85] fix: rank of constrained zero-order difference penalty

---
 src/mssm/src/python/penalties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index d0ee801..927434d 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -570,6 +570,9 @@ class DifferencePenalty(Penalty):
                     ]
                 )
 
+        # Rank cannot exceed dimension of constrained penalty
+        rank = min(rank, S.shape[1])
+
         S = scp.sparse.csc_array(S)
         D = scp.sparse.csc_array(D)
 
-- 
2.43.0


From 6b2d55dc0f407833c6202684cf44a4e9fa45020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:44 +0000
Subject: [PATCH 23/85] fix: root of distance weighted identity penalty

---
 src/mssm/src/python/penalties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index 927434d..ef8282e 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -640,7 +640,7 @@ class IdentityPenalty(Penalty):
             elements,
             idx,
             idx,
-            elements,
+            [e**0.5 for e in elements],
             idx,
             idx,
             n,
-- 
2.43.0


From 4080634c44b04dc34671250f334d7f39ef288224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:44 +0000
Subject: [PATCH 24/85] fix: penalties with an id that no other penalty uses
 are not duplicated

---
 src/mssm/src/python/penalties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index ef8282e..60589a2 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -72,6 +72,9 @@ def combine_shared_penalties(penalties: list[LambdaTerm]) -> list[LambdaTerm]:
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:  # Not shared, already included
+                continue
+
             m_pens = [pen for pen in penalties if pen.id == id]
             S_J_emb = m_pens[0].S_J_emb
             D_J_emb = m_pens[0].D_J_emb
-- 
2.43.0


From 1701fe232478f395024d0f8a8809a30160d683f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:44 +0000
Subject: [PATCH 25/85] fix: one name per coefficient of impulse response
 smooths

---
 src/mssm/src/python/formula.py | 2 +-
 src/mssm/src/python/terms.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 1b70624..1ab5ca7 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -824,7 +824,7 @@ class Formula:
             irsterm = terms[irsti]
 
             t_total_coef, t_unpenalized_coef, t_coef_names = irsterm.get_coef_info(
-                self.has_intercept, factor_levels
+                irsti, factor_levels
             )
 
             self.coef_names.extend(t_coef_names)
diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index 820dff8..f8561be 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -2225,13 +2225,14 @@ class irf(GammTerm):
 
         if self.by is not None:
             by_levels = factor_levels[self.by]
-            n_coef *= len(by_levels)
 
             for by_level in by_levels:
                 coef_names.extend(
                     [f"irf_{ti}_{var_label}_{ink}_{by_level}" for ink in range(n_coef)]
                 )
 
+            n_coef *= len(by_levels)
+
         else:
             coef_names.extend([f"irf_{ti}_{var_label}_{ink}" for ink in range(n_coef)])
 
-- 
2.43.0


From 49ce5ed02bbfcb40e05da70df8df9c033cf12f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:10 +0000
Subject: [PATCH 26/85] fix: unpenalized impulse response smooths are not
 counted twice when placing penalties

---
 src/mssm/src/python/formula.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 1ab5ca7..0b2c1f6 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -2128,7 +2128,6 @@ def build_penalties(formula) -> list[LambdaTerm]:
                 if irsterm.by is not None:
                     added_not_penalized *= len(by_levels)
                 start_idx += added_not_penalized
-                cur_pen_idx = start_idx
 
                 if formula.print_warn:
                     warnings.warn(
-- 
2.43.0


From 6de3c8d40fa97c37cc94a4cb723d8d186da79e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:10 +0000
Subject: [PATCH 27/85] fix: names of by-smooth coefficients follow the user
 supplied factor coding

---
 src/mssm/src/python/formula.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 0b2c1f6..ef9077a 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -766,6 +766,11 @@ class Formula:
                         self.factor_codings[var][c] = ci
                         self.coding_factors[var][ci] = c
 
+                if codebook is not None and var in codebook:
+                    # Levels in order of codes, since that is how columns are ordered.
+                    code_order = np.argsort([codebook[var][c] for c in levels])
+                    self.factor_levels[var] = levels[code_order]
+
             cvi += 1
 
         return cvi
-- 
2.43.0


From 8889f237bf9e3f5e0a88e0dd807cf0c485b8e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:36 +0000
Subject: [PATCH 28/85] fix: formulas leave the term objects they are given
 unchanged

---
 src/mssm/src/python/formula.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index ef9077a..cfb585c 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -325,7 +325,8 @@ class Formula:
     ) -> None:
 
         self.lhs = lhs
-        self.terms = terms
+        # Terms are set up for this formula below, so work on a copy
+        self.terms = copy.deepcopy(terms)
         self.data = data
         self.series_id = series_id
         self.print_warn = print_warn
-- 
2.43.0


From 6424d944c41998faabc141561270446774d5c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:56 +0000
Subject: [PATCH 29/85] fix: PropHaz predictions are computed for the
 coefficients and data passed

---
 src/mssm/src/python/exp_fam.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index eca423d..e025ea7 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4216,12 +4216,13 @@ class PropHaz(GSMMFamily):
         X = Xs[0]
 
         # Following based on derivation by Wood, Pya, and Säfken (2016)
+        self.__prepare_predictions(coef, delta, Xs)
         res = np.zeros(X.shape[0])
         for idx, tidx in enumerate(r):
             Xi = X[idx, :].toarray()
             ti = ut[tidx]
             di = delta[idx]
-            Si, _ = self.get_survival(coef, Xs, delta, ti, Xi, None, compute_var=False)
+            Si, _ = self.__compute_survival(coef, ti, Xi, None, compute_var=False)
             mi = di + np.log(Si[0])
 
             if resid_type == "Martingale":
@@ -4390,8 +4391,7 @@ class PropHaz(GSMMFamily):
         :rtype: np.ndarray
         """
 
-        if self.__hs is None:
-            self.__prepare_predictions(coef, delta, Xs)
+        self.__prepare_predictions(coef, delta, Xs)
 
         return self.__hs
 
@@ -4528,9 +4528,22 @@ class PropHaz(GSMMFamily):
         :rtype: tuple[np.ndarray, np.ndarray | None]
         """
 
-        if self.__hs is None:
-            self.__prepare_predictions(coef, delta, Xs)
+        self.__prepare_predictions(coef, delta, Xs)
+        return self.__compute_survival(coef, t, x, V, compute_var)
 
+    def __compute_survival(
+        self,
+        coef: np.ndarray,
+        t: int,
+        x: np.ndarray | scp.sparse.csc_array,
+        V: scp.sparse.csc_array | None,
+        compute_var: bool = True,
+    ) -> tuple[np.ndarray, np.ndarray | None]:
+        """Computes survival function + variance from the quantities obtained from the most recent
+        call to :func:`__prepare_predictions`. See :func:`get_survival` for the arguments.
+
+        :meta private:
+        """
         # Extract and define all variables defined by WPS (2016)
         ut = self.ut
         eta = x @ coef
-- 
2.43.0


From 5348771ed8c9eb816dd35bf230d43b203a01b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:03 +0000
Subject: [PATCH 30/85] fix: survival between event times uses the hazard
 accumulated so far

---
 src/mssm/src/python/exp_fam.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index e025ea7..f2ec3ce 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4549,29 +4549,29 @@ class PropHaz(GSMMFamily):
         eta = x @ coef
         # print(eta)
 
-        # Find nearest larger time-point
-        if t not in ut:
-            t = min(ut[ut > t])
-
-        # Find index in h corresponding to t
-        ti = ut == t
-        tiv = np.arange(len(ut))[ti][0]
-        # print(t,tiv)
+        # Cumulative base-line hazard is a step-function: Find index of nearest time-point that is
+        # not larger than t. No event occurred before smallest time-point, so hazard is zero there.
+        tiv = np.arange(len(ut))[ut <= t]
+        if len(tiv) == 0:
+            h, q, a = 0.0, 0.0, np.zeros_like(self.__avs[0])
+        else:
+            tiv = tiv[0]
+            h, q, a = self.__hs[tiv], self.__qs[tiv], self.__avs[tiv]
 
         # Compute (log) survival
-        lS = -self.__hs[ti] * np.exp(eta)
+        lS = -h * np.exp(eta)
         S = np.exp(lS)
 
         varS = None
         if compute_var:
             # Compute variance
-            v = -self.__hs[ti] * x + self.__avs[tiv]
+            v = -h * x + a
 
             varS = (
                 np.exp(eta)
                 * S
                 * np.power(
-                    self.__qs[ti] + np.sum(v @ V * v, axis=1).reshape(-1, 1), 0.5
+                    q + np.sum(v @ V * v, axis=1).reshape(-1, 1), 0.5
                 )
             )
         return S, varS
-- 
2.43.0


From 24beaf2ebc269a3cb5d4ebc752d83c94a7778c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:33 +0000
Subject: [PATCH 31/85] fix: ar1 model is reset at first retained observation
 of every series

---
 src/mssm/src/python/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index cf64053..34885fe 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -76,9 +76,12 @@ def computeAr1Chol(formula: Formula, rho: float) -> tuple[scp.sparse.csc_array,
 
     # Correct ar1 process for individual (time) series
     if formula.series_id is not None:
-        start = np.tile(False, len(formula.y_flat))
-        start[formula.sid] = True
-        start = start[formula.NOT_NA_flat]
+        # First retained observation of every series (first observation of a series might be NA)
+        series = np.tile(0, len(formula.y_flat))
+        series[formula.sid] = 1
+        series = np.cumsum(series)[formula.NOT_NA_flat]
+        start = np.tile(True, n_y)
+        start[1:] = series[1:] != series[:-1]
         sid0 = np.where(start)[0]
         sid1 = sid0[1:] - 1
 
-- 
2.43.0


From c5fdfb1cfc5dcf4376254f6f62c35133f1b4fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:33 +0000
Subject: [PATCH 32/85] fix: ill-conditioned models warn instead of raising a
 TypeError

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 20d31fa..9c3ff5d 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3206,7 +3206,7 @@ def solve_gamm_sparse(
                 )
             )
         if method != "Chol" and Kcode == 2:
-            raise warnings.warn(
+            warnings.warn(
                 (
                     f"Condition number ({K2}) of matrix A, where A.T@A=X.T@X + S_\\lambda, is "
                     "larger than 1/u, where u is half the machine precision. The model estimates "
-- 
2.43.0


From 5e8334ca58d22a95948e8f34fbc3eb8b0298c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:47 +0000
Subject: [PATCH 33/85] fix: rows with missing values are excluded for all
 parameters of a GAMMLSS

---
 src/mssm/models.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 33f5a1e..bf69bfd 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -313,6 +313,13 @@ class GSMM:
 
         return sub_coef[form.coef_idx_per_term[term]]
 
+    def _get_NOT_NA(self, par: int) -> np.ndarray:
+        """Get index of rows (as boolean array) used for fitting the model of parameter ``par``.
+
+        :meta private:
+        """
+        return self.formulas[par].NOT_NA_flat
+
     def get_ys(
         self,
         drop_NA: bool = True,
@@ -372,7 +379,7 @@ class GSMM:
 
             # New y-variable
             if drop_NA:
-                y = form.y_flat[form.NOT_NA_flat]
+                y = form.y_flat[self._get_NOT_NA(fi)]
             else:
                 y = form.y_flat
 
@@ -463,7 +470,7 @@ class GSMM:
             factor_levels = form.get_factor_levels()
 
             if drop_NA:
-                cov_flat = form.cov_flat[form.NOT_NA_flat]
+                cov_flat = form.cov_flat[self._get_NOT_NA(fidx)]
             else:
                 cov_flat = form.cov_flat
 
@@ -492,7 +499,7 @@ class GSMM:
             )
 
             if len(irstx) > 0 and drop_NA:
-                model_mat = model_mat[form.NOT_NA_flat, :]
+                model_mat = model_mat[self._get_NOT_NA(fidx), :]
 
             mmat.append(model_mat)
 
@@ -1709,6 +1716,16 @@ class GAMMLSS(GSMM):
 
     #################################### Getters #####################################  # noqa: E266
 
+    def _get_NOT_NA(self, par: int) -> np.ndarray:
+        """Get index of rows (as boolean array) used for fitting the model of parameter ``par``.
+
+        All parameters describe the same observations, so a row that has to be excluded from the
+        model of one parameter has to be excluded for all parameters.
+
+        :meta private:
+        """
+        return np.logical_and.reduce([form.NOT_NA_flat for form in self.formulas])
+
     def get_ys(
         self,
     ) -> np.ndarray:
-- 
2.43.0


From bc9dbbdde5a1f32a705fcb20e291de121fbd0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:24 +0000
Subject: [PATCH 34/85] fix: GAMM.fit does not keep ar1 and matrix
 transformations of previous fits

---
 src/mssm/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index bf69bfd..12f1edd 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3148,6 +3148,12 @@ class GAMM(GAMMLSS):
 
         self.offset = 0
 
+        # Forget about any settings (and results based on those) of previous calls to fit
+        self.rho = None
+        self.res_ar = None
+        self.transform_X = None
+        self.hessian_obs = None
+
         if len(self.formulas[0].file_paths) == 0:
             # We need to build the model matrix once
             terms = self.formulas[0].terms
-- 
2.43.0


From 4d81769999afde8717b1e39e71b28927dfde3d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:44 +0000
Subject: [PATCH 35/85] fix: levels and ranges read from files are sorted and
 ignore missing values

---
 src/mssm/src/python/file_loading.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index cfb8ae4..597e181 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -22,7 +22,7 @@ def read_unique_single(x: str, file: str, file_loading_kwargs: dict) -> np.ndarr
     """
 
     dat = pd.read_csv(file, **file_loading_kwargs)
-    unq_dat = np.unique(dat[x].values)
+    unq_dat = np.unique(dat[x].dropna().values)
 
     return unq_dat
 
@@ -51,7 +51,7 @@ def read_unique(
 
     unq.update(*unq_cov)
 
-    return np.array(list(unq))
+    return np.array(sorted(unq))
 
 
 def read_cor_cov_single(
-- 
2.43.0


From 1ee462eadbee739f4446c232b01fa4d8f14872f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:44 +0000
Subject: [PATCH 36/85] fix: data files are always read with the requested
 loading options

---
 src/mssm/src/python/gamm_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 9c3ff5d..7b05a66 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3455,7 +3455,7 @@ def read_XTX(
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     y_flat_file, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(
@@ -3717,7 +3717,7 @@ def read_eta(file, formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     _, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
@@ -3959,7 +3959,7 @@ def solve_gamm_sparse2(
 
         for fi, file in enumerate(iterator):
             # Read file
-            file_dat = pd.read_csv(file)
+            file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
             # Encode data in this file
             y_flat_file, _, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
-- 
2.43.0


From b746af1a6713325ee1fb61d5507a9f66ac33a5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:44 +0000
Subject: [PATCH 37/85] fix: only the cache directory itself is removed

---
 src/mssm/src/python/file_loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index 597e181..6ae28f2 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -205,4 +205,4 @@ def clear_cache(cache_dir: str, should_cache: bool) -> None:
         warnings.warn(f"Removing cache directory {cache_dir}")
         for file in os.listdir(cache_dir):
             os.remove(f"{cache_dir}/" + file)
-        os.removedirs(cache_dir)
+        os.rmdir(cache_dir)
-- 
2.43.0


From fc92af75a574a22cdcfe9c427abff2e194978dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:57 +0000
Subject: [PATCH 38/85] fix: cached matrices of files with the same name are
 kept apart

---
 src/mssm/src/python/gamm_solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 7b05a66..2f1bc6e 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -34,6 +34,7 @@ from .custom_types import Fit_info, LambdaTerm, DerivOrder
 from .terms import GammTerm
 from .matrix_solvers import *  # noqa: F403
 from collections.abc import Callable
+import hashlib
 import os
 import math
 import sys
@@ -3294,7 +3295,8 @@ def read_mmat(
     :rtype: scp.sparse.csc_array
     """
 
-    target = file.split("/")[-1].split(".csv")[0] + f"_{fi}.npz"
+    # Files in different directories can have the same name
+    target = hashlib.sha256(file.encode()).hexdigest() + f"_{fi}.npz"
 
     if should_cache is False:
         mmat = build_sparse_matrix_from_formula(
-- 
2.43.0


From ea5aacb1d348d4f96f5389f11432d19551d317f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 39/85] fix: rows of files with missing predictor values are
 excluded like those of data frames

---
 src/mssm/src/python/file_loading.py | 15 +++++----
 src/mssm/src/python/formula.py      | 50 ++++++++++++++++-------------
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index 6ae28f2..7211521 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -55,12 +55,12 @@ def read_unique(
 
 
 def read_cor_cov_single(
-    y: str, x: str, file: str, file_loading_kwargs: dict
+    y: str | list[str], x: str, file: str, file_loading_kwargs: dict
 ) -> np.ndarray:
     """Read values of covariate ``x`` from ``file`` correcting for NaNs in ``y``.
 
-    :param y: name of covariate potentially having NaNs
-    :type y: str
+    :param y: name(s) of covariate(s) potentially having NaNs
+    :type y: str | list[str]
     :param x: covariate name
     :type x: str
     :param file: file name
@@ -72,16 +72,17 @@ def read_cor_cov_single(
     """
     dat = pd.read_csv(file, **file_loading_kwargs)
     x_f = dat[x].values
-    return x_f[np.isnan(dat[y]) == False]  # noqa: E712
+    y = [y] if isinstance(y, str) else y
+    return x_f[dat[y].notna().all(axis=1).values]
 
 
 def read_cov(
-    y: str, x: str, files: list[str], nc: int, file_loading_kwargs: dict
+    y: str | list[str], x: str, files: list[str], nc: int, file_loading_kwargs: dict
 ) -> np.ndarray:
     """Read values of covariate ``x`` from ``files`` correcting for NaNs in ``y``.
 
-    :param y: name of covariate potentially having NaNs
-    :type y: str
+    :param y: name(s) of covariate(s) potentially having NaNs
+    :type y: str | list[str]
     :param x: covariate name
     :type x: str
     :param files: list of file names
diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index cfb585c..582ff1d 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -52,7 +52,7 @@ class lhs:
 def _compute_constraint_single_MP(
     sterm: f,
     vars: list[str],
-    lhs_var: str,
+    na_vars: list[str],
     file: str,
     var_mins: dict,
     var_maxs: dict,
@@ -103,7 +103,7 @@ def _compute_constraint_single_MP(
         if sterm.te is False:
             id_nk += 1
 
-        var_cov_flat = read_cor_cov_single(lhs_var, vars[vi], file, file_loading_kwargs)
+        var_cov_flat = read_cor_cov_single(na_vars, vars[vi], file, file_loading_kwargs)
 
         matrix_term_v = sterm.basis(
             var_cov_flat,
@@ -926,23 +926,10 @@ class Formula:
                     self.file_loading_nc,
                     self.file_loading_kwargs,
                 )
-                NAs_flat = ~np.isnan(y_flat)
+                NAs_flat = ~pd.isnull(y_flat)
             else:
                 NAs_flat = ~(
-                    data.loc[
-                        :,
-                        [
-                            self.lhs.variable,
-                            *[
-                                (
-                                    c
-                                    if c not in self.subgroup_variables
-                                    else c.split(":")[0]
-                                )
-                                for c in var_keys
-                            ],
-                        ],
-                    ]
+                    data.loc[:, self.__get_na_vars()]
                     .isna()
                     .any(axis=1)
                     .values
@@ -1006,9 +993,6 @@ class Formula:
             if self.series_id is not None:
                 y = np.split(y_flat, sid[1:])
 
-                # Also split NA index
-                NAs = np.split(NAs_flat, sid[1:])
-
         # Now all predictor variables
         cov_flat = np.zeros((n_y, n_var), dtype=float)
 
@@ -1034,6 +1018,10 @@ class Formula:
                 else:
                     c_raw = np.array(data[c])
 
+            # Data-frames have been checked for missing values already
+            if data is None and not prediction:
+                NAs_flat = NAs_flat & ~pd.isnull(c_raw)
+
             if var_types[c] == VarType.FACTOR:
 
                 c_coding = factor_coding[c]
@@ -1057,6 +1045,10 @@ class Formula:
         if self.series_id is not None:
             cov = np.split(cov_flat, sid[1:], axis=0)
 
+            # Also split NA index
+            if not prediction:
+                NAs = np.split(NAs_flat, sid[1:])
+
         return y_flat, cov_flat, NAs_flat, y, cov, NAs, sid
 
     def __discretize(self, sti: int) -> tuple[np.ndarray, list[str]]:
@@ -1411,6 +1403,20 @@ class Formula:
         self.discretize[sti]["clust_series"] = best_series
         self.discretize[sti]["clust_weights"] = best_weights
 
+    def __get_na_vars(self) -> list[str]:
+        """Get names of all variables for which a missing value results in a row being excluded.
+
+        :return: list of variable names
+        :rtype: list[str]
+        """
+        return [
+            self.lhs.variable,
+            *[
+                c if c not in self.subgroup_variables else c.split(":")[0]
+                for c in self.get_var_map().keys()
+            ],
+        ]
+
     def __absorb_constraints2(self) -> None:
         """Internal function to absorb identifiability constraints when data is read from file.
 
@@ -1442,7 +1448,7 @@ class Formula:
                             id_nk = sterm.nk
 
                         var_cov_flat = read_cov(
-                            self.lhs.variable,
+                            self.__get_na_vars(),
                             vars[vi],
                             self.file_paths,
                             self.file_loading_nc,
@@ -1487,7 +1493,7 @@ class Formula:
                         zip(
                             repeat(sterm),
                             repeat(vars),
-                            repeat(self.lhs.variable),
+                            repeat(self.__get_na_vars()),
                             self.file_paths,
                             repeat(self.var_mins),
                             repeat(self.var_maxs),
-- 
2.43.0


From 1d7f920c94a257a55486cbec848aee893ee83e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 40/85] fix: levels of sub-groups read from files match those
 of data frames

---
 src/mssm/src/python/formula.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 582ff1d..e098600 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -737,23 +737,22 @@ class Formula:
                             self.file_loading_kwargs,
                         )
                     else:
-                        rf_fac = read_cov(
-                            self.lhs.variable,
+                        rf_fac = read_cov_no_cor(
                             _org_var,
                             self.file_paths,
                             self.file_loading_nc,
                             self.file_loading_kwargs,
                         )
                         # print(len(rf_fac))
-                        sub_fac = read_cov(
-                            self.lhs.variable,
+                        sub_fac = read_cov_no_cor(
                             by_subgroup[0],
                             self.file_paths,
                             self.file_loading_nc,
                             self.file_loading_kwargs,
                         )
                         # print(len(rf_fac[sub_fac == by_subgroup[1]]))
-                        levels = np.unique(rf_fac[sub_fac == by_subgroup[1]])
+                        rf_fac = rf_fac[sub_fac == by_subgroup[1]]
+                        levels = np.unique(rf_fac[~pd.isnull(rf_fac)])
 
                 self.factor_codings[var] = {}
                 self.coding_factors[var] = {}
-- 
2.43.0


From 5b661d263e94e4e605617d5bfecfe42783457a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:49 +0000
Subject: [PATCH 41/85] fix: missing factor values in files are not turned into
 strings

---
 src/mssm/src/python/file_loading.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index 7211521..ed4dee2 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -102,7 +102,7 @@ def read_cov(
         )
 
     # Flatten
-    cov = np.array([cv for cs in cov for cv in cs])
+    cov = np.concatenate(cov)
     return cov
 
 
@@ -146,7 +146,7 @@ def read_cov_no_cor(
         )
 
     # Flatten
-    cov = np.array([cv for cs in cov for cv in cs])
+    cov = np.concatenate(cov)
     return cov
 
 
-- 
2.43.0


From d802acf3ce3fc9e177be94bb9ef689745bf2b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:03 +0000
Subject: [PATCH 42/85] fix: files without a complete row do not stop fitting

---
 src/mssm/src/python/formula.py      |  2 +-
 src/mssm/src/python/gamm_solvers.py | 16 ++++++++--------
 src/mssm/src/python/smooths.py      | 11 +++--------
 src/mssm/src/python/terms.py        |  2 +-
 4 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index e098600..f4b7b08 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -2627,7 +2627,7 @@ def build_sparse_matrix_from_formula(
     elements = []
     rows = []
     cols = []
-    ridx = np.array([ri for ri in range(n_y)])  # ToDo: dtype=int?
+    ridx = np.arange(n_y)
 
     ci = 0
 
diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 2f1bc6e..35a8636 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3468,8 +3468,8 @@ def read_XTX(
 
     # Parallelize over sub-sets of this file
     rows, _ = cov_flat_file.shape
-    cov_flat_files = np.array_split(cov_flat_file, min(nc, rows), axis=0)
-    y_flat_files = np.array_split(y_flat_file, min(nc, rows))
+    cov_flat_files = np.array_split(cov_flat_file, max(1, min(nc, rows)), axis=0)
+    y_flat_files = np.array_split(y_flat_file, max(1, min(nc, rows)))
     subsets = [i for i in range(len(cov_flat_files))]
 
     with mp.Pool(processes=nc) as pool:
@@ -3554,11 +3554,11 @@ def keep_XTX(
     for fi, _ in enumerate(iterator):
 
         rows, _ = cov_split[fi].shape
-        cov_flat_files = np.array_split(cov_split[fi], min(nc, rows), axis=0)
-        y_flat_files = np.array_split(y_split[fi], min(nc, rows))
+        cov_flat_files = np.array_split(cov_split[fi], max(1, min(nc, rows)), axis=0)
+        y_flat_files = np.array_split(y_split[fi], max(1, min(nc, rows)))
         subsets = [i for i in range(len(cov_flat_files))]
 
-        with mp.Pool(processes=min(rows, nc)) as pool:
+        with mp.Pool(processes=max(1, min(rows, nc))) as pool:
             # Build the model matrix with all information from the formula - but only for sub-set
             # of rows at a time
             XX0, Xy0 = zip(
@@ -3727,7 +3727,7 @@ def read_eta(file, formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
 
     # Parallelize over sub-sets of this file
     rows, _ = cov_flat_file.shape
-    cov_flat_files = np.array_split(cov_flat_file, min(nc, rows), axis=0)
+    cov_flat_files = np.array_split(cov_flat_file, max(1, min(nc, rows)), axis=0)
     subsets = [i for i in range(len(cov_flat_files))]
 
     with mp.Pool(processes=nc) as pool:
@@ -3798,10 +3798,10 @@ def keep_eta(formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
     eta = []
     for fi, _ in enumerate(cov_split):
         rows, _ = cov_split[fi].shape
-        cov_flat_files = np.array_split(cov_split[fi], min(nc, rows), axis=0)
+        cov_flat_files = np.array_split(cov_split[fi], max(1, min(nc, rows)), axis=0)
         subsets = [i for i in range(len(cov_flat_files))]
 
-        with mp.Pool(processes=min(rows, nc)) as pool:
+        with mp.Pool(processes=max(1, min(rows, nc))) as pool:
             # Build eta with all information from the formula - but only for sub-set of rows
             etas = pool.starmap(
                 form_eta_mp,
diff --git a/src/mssm/src/python/smooths.py b/src/mssm/src/python/smooths.py
index 9e86301..f7c9909 100644
--- a/src/mssm/src/python/smooths.py
+++ b/src/mssm/src/python/smooths.py
@@ -137,14 +137,9 @@ def B_spline_basis(
     # Eilers, P. H. C., & Marx, B. D. (1996). Flexible smoothing with B-splines and penalties.
     # https://doi.org/10.1214/ss/1038425655
 
-    xl = min(cov)
-    xr = max(cov)
-
-    if max_c is not None:
-        xr = max_c
-
-    if min_c is not None:
-        xl = min_c
+    # cov can be empty (e.g., no complete row in a file) as long as min_c and max_c are available
+    xr = max_c if max_c is not None else max(cov)
+    xl = min_c if min_c is not None else min(cov)
 
     # ndx is equal to n in Eilers & Marx (2011)
     # So there will be n-1 knots (without expansion)
diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index f8561be..f402792 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -3153,7 +3153,7 @@ def build_linear_term(
             else:  # Interaction with continuous predictor as start
                 if len(interactions) == 0:
                     new_interactions.append(cov_flat[:, var_map[var]])
-                    new_inter_idx.append(np.array([True for _ in range(n_y)]))
+                    new_inter_idx.append(np.ones(n_y, dtype=bool))
 
                 else:
                     for old_inter, old_idx in zip(interactions, inter_idx):
-- 
2.43.0


From 11bad7449d91f20d87d3fc3a0f16318bb738e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:31 +0000
Subject: [PATCH 43/85] fix: offsets are not silently ignored when fitting from
 files

---
 src/mssm/models.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 12f1edd..940ce27 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3128,6 +3128,16 @@ class GAMM(GAMMLSS):
                 )
             )
 
+        if len(self.formulas[0].file_paths) != 0 and (
+            offset is not None or transform_X is not None
+        ):
+            raise ValueError(
+                (
+                    "Offsets and transformations of the model matrix are not supported when "
+                    "iteratively building the model matrix."
+                )
+            )
+
         if max_inner > 1 and rho is not None:
             warnings.warn(
                 (
-- 
2.43.0


From 5578a12fe9b4de7ac48667de30cf705652bb68d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:42 +0000
Subject: [PATCH 44/85] fix: models with impulse response terms can be fitted
 when file_loading_nc > 1

---
 src/mssm/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 940ce27..7fd7a6b 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3211,7 +3211,8 @@ class GAMM(GAMMLSS):
                 print("NAs were excluded for fitting.")
 
             # Build the model matrix with all information from the formula
-            if self.formulas[0].file_loading_nc == 1:
+            # (rows of impulse response terms can only be built for complete series)
+            if self.formulas[0].file_loading_nc == 1 or len(irstx) > 0:
                 model_mat = build_sparse_matrix_from_formula(
                     terms,
                     has_intercept,
-- 
2.43.0


From 55dbec2c2067f5f2bd58efa26c2c9afd5c84b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:42 +0000
Subject: [PATCH 45/85] fix: offsets are accepted for responses stored as
 integers

---
 src/mssm/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 7fd7a6b..563a462 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3205,7 +3205,7 @@ class GAMM(GAMMLSS):
                 ):
                     self.offset = offset
                 else:
-                    y_flat -= offset
+                    y_flat = y_flat - offset
 
             if y_flat.shape[0] != self.formulas[0].y_flat.shape[0] and progress_bar:
                 print("NAs were excluded for fitting.")
-- 
2.43.0


From 94c5999992d054d1052d05e8cfe5ebbf52d2bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:03 +0000
Subject: [PATCH 46/85] fix: a failed Cholesky decomposition is not reported as
 a converged fit

---
 src/mssm/src/python/gamm_solvers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 35a8636..7226f45 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1337,6 +1337,14 @@ def update_coef(
         LP, Pr, coef, code = cpp_solve_coefXX(yb, Xb + S_emb)  # noqa: F405
         P = compute_eigen_perm(Pr)  # noqa: F405
 
+    if S_root is None and code != 0:
+        raise ArithmeticError(
+            (
+                "Cholesky decomposition of X.T@X + S_\\lambda failed: the model is not (numerically) "
+                "identifiable. Try calling ``model.fit()`` with ``method='QR'``."
+            )
+        )
+
     # Update mu & eta
     if formula is None:
         eta = (X @ coef).reshape(-1, 1) + offset
-- 
2.43.0


From 4b4603e1ad7e6643d8af5fcdb71dbe84653a5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:06 +0000
Subject: [PATCH 47/85] fix: whole-interval CIs use all coefficients a
 prediction depends on

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 34885fe..f56b6b1 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1611,7 +1611,7 @@ def adjust_CI(
         # If we have many random factor levels, but want to make predictions only
         # for fixed effects, it's wasteful to sample all coefficients from posterior.
         # The code below performs a selection of the coefficients to be sampled.
-        use_post = predi_mat.sum(axis=0) != 0
+        use_post = np.abs(predi_mat).sum(axis=0) != 0
         use_post = np.arange(0, predi_mat.shape[1])[use_post]
 
     # Sample deviations [*coef - coef] from posterior of model
-- 
2.43.0


From 8760c20984e21c261490316a09a9fe93871b2f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:06 +0000
Subject: [PATCH 48/85] fix: whole-interval CIs with rows free of uncertainty
 are not nan

---
 src/mssm/src/python/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index f56b6b1..eb97d1c 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1626,8 +1626,14 @@ def adjust_CI(
     else:
         fpost = np.abs(predi_mat[:, use_post] @ post)
 
+    # Rows without any uncertainty (e.g., identical predictions when computing a difference) need no
+    # adjustment
+    uncertain = b > 0
+    if not np.any(uncertain):
+        return b
+
     # Compute ratio between abs(predi_mat@[*coef - coef])/b for every sample.
-    fpost = fpost / b[:, None]
+    fpost = fpost[uncertain, :] / b[uncertain, None]
 
     # Then compute max of this ratio, over rows of predi_mat, for every sample. np.max(fpost,axis=0)
     # now is a vector with n_ps elements, holding for each sample the multiplicative adjustment a,
-- 
2.43.0


From bf2342988324c9628aff0ddbc582591ce17eaea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:44 +0000
Subject: [PATCH 49/85] fix: get_llk() returns None instead of raising when the
 model was not yet fitted

---
 src/mssm/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 563a462..fac80fe 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -527,7 +527,7 @@ class GSMM:
         """
 
         pen = 0
-        if penalized:
+        if penalized and self.penalty is not None:
             pen = 0.5 * self.penalty
         if self.coef is not None:
 
@@ -1782,7 +1782,7 @@ class GAMMLSS(GSMM):
         """
 
         pen = 0
-        if penalized:
+        if penalized and self.penalty is not None:
             pen = 0.5 * self.penalty
         if self.preds is not None:
             mus = [
@@ -2722,7 +2722,7 @@ class GAMM(GAMMLSS):
             )
 
         pen = 0
-        if penalized:
+        if penalized and self.penalty is not None:
             pen = 0.5 * self.penalty
         if self.preds is not None:
             mu = self.preds[0]
-- 
2.43.0


From c76ad4ba6fae3e4e5bd2f6312af01d5af0630075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:56 +0000
Subject: [PATCH 50/85] fix: penalized log-likelihood of GAMMs accounts for the
 scale parameter

---
 src/mssm/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index fac80fe..3b9449d 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -2723,7 +2723,10 @@ class GAMM(GAMMLSS):
 
         pen = 0
         if penalized and self.penalty is not None:
-            pen = 0.5 * self.penalty
+            # The penalty applies to the deviance, so need to account for the scale here
+            pen = 0.5 * self.penalty / self.scale
+            if self.family.twopar and ext_scale is not None:
+                pen = 0.5 * self.penalty / ext_scale
         if self.preds is not None:
             mu = self.preds[0]
             if (
-- 
2.43.0


From 6c4141a9ddb264a8f02f98bbfef67c9d65543234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:48 +0000
Subject: [PATCH 51/85] fix: working residuals and scale of generalized models
 with an offset

---
 src/mssm/src/python/gamm_solvers.py | 10 +++++++++-
 src/mssm/src/python/utils.py        |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 7226f45..b5fe162 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1095,6 +1095,7 @@ def update_scale_edf(
     keep: np.typing.NDArray[np.int_] | None,
     drop: np.typing.NDArray[np.int_] | None,
     n_c: int,
+    offset: float | np.ndarray = 0,
 ) -> tuple[
     np.ndarray,
     scp.sparse.csc_array | None,
@@ -1146,6 +1147,8 @@ def update_scale_edf(
     :type drop: np.typing.NDArray[np.int_] | None
     :param n_c: Number of cores to use
     :type n_c: int
+    :param offset: Offset included in ``eta`` but not in the pseudo-data ``z``, defaults to 0
+    :type offset: float | np.ndarray, optional
     :return: a tuple containing the working residuals, optionally the unpivoted inverse of ``LP``,
         total edf, term-wise edf, a list of the aforementioned sum
         of the elements of the aforementioned B matrices raised to the power of 2, scale estimate
@@ -1168,6 +1171,9 @@ def update_scale_edf(
             inval
         )  # Make sure to only take valid z/eta/w here and for computing the scale
 
+        # Pseudo-data does not include the offset
+        eta = eta - offset
+
         # Apply ar1 model to working residuals
         if Lrhoi is not None:
             inval_f = (inval == False).flatten()  # noqa: E712
@@ -1533,6 +1539,7 @@ def update_coef_and_scale(
         keep,
         drop,
         n_c,
+        offset,
     )
     return (
         eta,
@@ -2342,6 +2349,7 @@ def correct_lambda_step(
                 keep,
                 drop,
                 n_c,
+                offset,
             )
 
             # Unpivot Cholesky of negative penalized hessian - InvCholXXS has already been
@@ -3153,7 +3161,7 @@ def solve_gamm_sparse(
             Lrhoi is not None
         ):  # Need to return ar-corrected and "normal" working residuals
             wres2 = Wr @ (
-                z[inval == False] - eta[inval == False]  # noqa: E712
+                z[inval == False] - (eta - offset)[inval == False]  # noqa: E712
             ).reshape(-1, 1)
 
         if inval_check:
diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index eb97d1c..0c54697 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1861,6 +1861,7 @@ def compute_reml_candidate_GAMM(
             keep,
             drop,
             n_c,
+            offset,
         )
         # print(edf-(InvCholXXS.T@InvCholXXS@nH).trace())
         # edf = (InvCholXXS.T@InvCholXXS@nH).trace()
@@ -4467,6 +4468,7 @@ def correct_VB(
                     keep,
                     drop,
                     n_c,
+                    model.offset,
                 )
 
                 # And negative hessian
-- 
2.43.0


From d8e5d1dd769fe06ffb255fe5df8c808ba1f6237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:48 +0000
Subject: [PATCH 52/85] fix: degrees of freedom of unpenalized models do not
 count dropped coefficients

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index b5fe162..668bb5b 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1222,7 +1222,7 @@ def update_scale_edf(
             None,
         )
     else:
-        total_edf = colsX
+        total_edf = colsX - (len(drop) if drop is not None else 0)
         term_edfs = None
         Bs = None
 
-- 
2.43.0


From 10fe31dc4a73443a9f574f35d6c3db5d55fc6311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:48 +0000
Subject: [PATCH 53/85] fix: ids used by a single term next to shared ids no
 longer misalign updates of lambda terms

---
 src/mssm/src/python/gamm_solvers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 668bb5b..a47b979 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -400,6 +400,9 @@ def compute_S_emb_pinv_det(
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:
+                continue
+
             rds = [rd for rdi, rd in enumerate(FS_use_rank) if penalties[rdi].id == id]
 
             if len(np.unique(rds)) > 1:
@@ -1004,6 +1007,9 @@ def calculate_edf(
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:
+                continue
+
             mBs = [B for bdi, B in enumerate(Bs) if penalties[bdi].id == id]
 
             merged_Bs.append(np.sum(mBs))
-- 
2.43.0


From bc8d3f0049ad84b888c6b6a34ed0bc40ef3db844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 54/85] fix: weights are not rooted twice when observations are
 excluded at convergence

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 src/mssm/src/python/utils.py        | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index a47b979..d553c61 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3176,7 +3176,7 @@ def solve_gamm_sparse(
             w = w_full
 
             # Re-compute weight matrix
-            Wr = scp.sparse.spdiags([np.sqrt(np.ndarray.flatten(w))], [0])
+            Wr = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
 
             # Adjust working residuals
             wres_full = np.zeros_like(eta)
diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 0c54697..a15a2dc 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1826,7 +1826,7 @@ def compute_reml_candidate_GAMM(
                 w = w_full
 
                 # Re-compute weight matrix
-                Wr_fix = scp.sparse.spdiags([np.sqrt(np.ndarray.flatten(w))], [0])
+                Wr_fix = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
             else:
                 Wr_fix = Wr
             inval = inval.flatten()
@@ -4432,9 +4432,7 @@ def correct_VB(
                         w = w_full
 
                         # Re-compute weight matrix
-                        Wr_fix = scp.sparse.spdiags(
-                            [np.sqrt(np.ndarray.flatten(w))], [0]
-                        )
+                        Wr_fix = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
                     else:
                         Wr_fix = Wr
 
-- 
2.43.0


From 0945532fcd852188dec42a1e643bfb852a2a5756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 55/85] fix: restarting a GAMM that was never fitted raises the
 intended error

---
 src/mssm/models.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 3b9449d..819c70d 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3105,6 +3105,12 @@ class GAMM(GAMMLSS):
             )
         penalties = self.overall_penalties
 
+        # Some checks
+        if penalties is None and restart:
+            raise ValueError(
+                "Penalties were not initialized. ``Restart`` must be set to False."
+            )
+
         # Initialize remaining arguments to defaults
         if max_inner is None:
             if rho is not None or len(penalties) == 0:
@@ -3112,12 +3118,6 @@ class GAMM(GAMMLSS):
             else:
                 max_inner = 500
 
-        # Some checks
-        if penalties is None and restart:
-            raise ValueError(
-                "Penalties were not initialized. ``Restart`` must be set to False."
-            )
-
         if len(self.formulas[0].discretize) != 0 and method != "Chol":
             raise ValueError(
                 "When discretizing derivative code, the method argument must be set to 'Chol'."
-- 
2.43.0


From aec5c39f20bd58ba4b2ccf4431baa23fbb1c7b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:10 +0000
Subject: [PATCH 56/85] fix: coefficients match the rest of the solution when
 the maximum number of iterations is reached

---
 src/mssm/src/python/gamm_solvers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index d553c61..5699716 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3144,6 +3144,11 @@ def solve_gamm_sparse(
         # This completes step 8 in Wood (2017)!
         fit_info.iter += 1
 
+    else:
+        # Ran out of iterations: eta, mu, and all other terms reflect the last proposal for coef
+        if maxiter > 0:
+            coef = n_coef
+
     # Final penalty
     if len(penalties) > 0:
         penalty = coef.T @ S_emb @ coef
@@ -4221,6 +4226,11 @@ def solve_gamm_sparse2(
 
         fit_info.iter += 1
 
+    else:
+        # Ran out of iterations: eta, mu, and all other terms reflect the last proposal for coef
+        if maxiter > 0:
+            coef = n_coef
+
     # Final penalty
     if len(penalties) > 0:
         penalty = coef.T @ S_emb @ coef
-- 
2.43.0


From a14d361779001e1b7d7e5e219a001b98588fd1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:18 +0000
Subject: [PATCH 57/85] fix: lambda terms match the rest of the solution when
 the maximum number of outer iterations is reached

---
 src/mssm/src/python/gamm_solvers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 5699716..ac53141 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -6417,6 +6417,12 @@ def solve_gammlss_sparse(
         # 5) Applied the new update lambdas so that we can go to the next iteration
         # print("lambda after step:",[lterm.lam for lterm in gamlss_pen])
 
+    else:
+        # Ran out of iterations: coef were estimated given lambda before the last proposal
+        if max_outer > 0:
+            for lti, lTerm in enumerate(gamlss_pen):
+                lTerm.lam = prev_lam[lti]  # noqa: F405
+
     # H, L, and LV do not have sorted indices after undoing repara transform - need to take care of
     # that here.
     if repara:
@@ -9619,6 +9625,12 @@ def solve_generalSmooth_sparse(
 
         # print("lambda after step:",[lterm.lam for lterm in smooth_pen])
 
+    else:
+        # Ran out of iterations: coef were estimated given lambda before the last proposal
+        if max_outer > 0:
+            for lti, lTerm in enumerate(smooth_pen):
+                lTerm.lam = prev_lam[lti]  # noqa: F405
+
     # Total penalty
     penalty = coef.T @ S_emb @ coef
 
-- 
2.43.0


From 12d778122d0321760c9144aeeeb44046aca58603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:48 +0000
Subject: [PATCH 58/85] fix: log-likelihood of the scaled T family is accurate
 for many degrees of freedom

---
 src/mssm/src/python/exp_fam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index f2ec3ce..3567e4f 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -2117,8 +2117,8 @@ class ScaledT(ExtendedFamily):
 
         # Now can compute llk for each obs
         lp = (
-            -scp.special.gammaln((nu + 1) / 2)
-            + scp.special.gammaln(nu / 2)
+            # log(gamma((nu + 1) / 2) / gamma(nu / 2)) without cancellation for large nu
+            -np.log(scp.special.poch(nu / 2, 0.5))
             + np.log(phi * np.power(np.pi * nu, 0.5))
             + (nu + 1) * np.log1p(np.power((y - mu) / phi, 2) / nu) / 2
         )
-- 
2.43.0


From a7428a7ea5824c9d5b71c6248e29800c9fc7584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:48 +0000
Subject: [PATCH 59/85] fix: bias corrected degrees of freedom of an earlier
 fit are not kept when a model is fitted again

---
 src/mssm/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 819c70d..b8a9949 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -1210,6 +1210,8 @@ class GSMM:
         self.coef = coef
         self.edf = total_edf
         self.term_edf = term_edfs
+        self.edf1 = None  # Has to be re-computed for new fit
+        self.term_edf1 = None
         self.penalty = penalty
         self.coef_split_idx = coef_split_idx
         self.lvi = LV
@@ -2131,6 +2133,8 @@ class GAMMLSS(GSMM):
         self.res = wres
         self.edf = total_edf
         self.term_edf = term_edfs
+        self.edf1 = None  # Has to be re-computed for new fit
+        self.term_edf1 = None
         self.penalty = penalty
         self.coef_split_idx = coef_split_idx
         self.lvi = LV
@@ -3409,6 +3413,8 @@ class GAMM(GAMMLSS):
         self.res = wres
         self.edf = edf
         self.term_edf = term_edf
+        self.edf1 = None  # Has to be re-computed for new fit
+        self.term_edf1 = None
         self.penalty = penalty
         self.info = fit_info
         self.lvi = LVI
-- 
2.43.0


From dc7dee93da4e7521b89d65ee7959ca161f36d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:47 +0000
Subject: [PATCH 60/85] fix: predictors of an earlier fit are not kept when
 model matrices are not built for all formulas

---
 src/mssm/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index b8a9949..0289034 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -1235,6 +1235,10 @@ class GSMM:
             self.mus = [
                 link.fi(pred) for link, pred in zip(self.family.links, self.preds)
             ]
+        else:
+            # Not available here, and those of any earlier fit do not belong to this one
+            self.preds = None
+            self.mus = None
 
     ################################### Prediction ###################################  # noqa: E266
 
-- 
2.43.0


From 519d49e020e4af6e180345e4a81b97955af01c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:09 +0000
Subject: [PATCH 61/85] fix: off-diagonal precision parameters of MultiGauss
 have no second derivative of their own

---
 src/mssm/src/python/exp_fam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 3567e4f..2e386ce 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4987,7 +4987,8 @@ class MultiGauss(GSMMFamily):
                     d2 = np.sum(xbarjmui * RiRpRRiymui)
                 else:
                     d2 = (ymu @ Rpj.T) * (ymu @ Rpi.T)
-                    if (mr == theta_idx[0]) and (mc == theta_idx[1]):
+                    # Only diagonal elements (exp(theta)) have a non-zero second derivative
+                    if is_diag and (mr == theta_idx[0]) and (mc == theta_idx[1]):
                         d2 += (ymu @ R.T) * (ymu @ Rpj.T)
                     d2 = -np.sum(d2)
 
-- 
2.43.0


From 8c0b9d824277f708c7ed93996e2170142c5606f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:09 +0000
Subject: [PATCH 62/85] fix: gradient of wrapped extended families uses the
 link derivative at the mean

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index a15a2dc..27a6014 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -341,7 +341,7 @@ class GAMLSSGSMMFamily(GSMMFamily):
                 mu = gammlss_family.link.fi(Xs[0] @ coef[:-n_theta])
                 theta = coef[-n_theta:]
                 d1 = gammlss_family.dDdmu(y, mu, theta=theta)
-                ld1 = gammlss_family.link.dy1(d1)
+                ld1 = gammlss_family.link.dy1(mu)
                 grad_coef = -0.5 * ((d1 / ld1).T @ Xs[0]).T
                 grad_theta = gammlss_family.gradientLTheta(y, mu, theta=theta)
                 grad = np.concatenate((grad_coef, grad_theta), axis=0)
-- 
2.43.0


From b5126b4ab0eea96dbc1cdafbd8c958c17229b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:10 +0000
Subject: [PATCH 63/85] fix: random samples of one-dimensional MultiGauss
 models

---
 src/mssm/src/python/exp_fam.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 2e386ce..852c435 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -5240,11 +5240,14 @@ class MultiGauss(GSMMFamily):
         cov = np.linalg.inv(R.T @ R)
 
         for mui in range(mus.shape[0]):
-            rvs[:, :, mui] = scp.stats.multivariate_normal.rvs(
-                size=size,
-                mean=mus[mui, :],
-                cov=cov,
-                random_state=seed,
+            rvs[:, :, mui] = np.reshape(
+                scp.stats.multivariate_normal.rvs(
+                    size=size,
+                    mean=mus[mui, :],
+                    cov=cov,
+                    random_state=seed,
+                ),
+                (size, self.n_par),
             )
 
             # Update seed
-- 
2.43.0


From 20e1608ad6c74533647ff935b2597c5b8de0e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:10 +0000
Subject: [PATCH 64/85] fix: MultiGauss derivatives take the link functions of
 the means into account

---
 src/mssm/src/python/exp_fam.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 852c435..935c198 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4833,7 +4833,8 @@ class MultiGauss(GSMMFamily):
         # shown by WPS (2016)
         for mui in range(self.n_par):
 
-            yRmui = RRy[mui, :]
+            # Chain rule: dmu/deta = 1/g'(mu)
+            yRmui = RRy[mui, :] / self.links[mui].dy1(mus[:, mui])
 
             grad[total_idx : total_idx + Xfix[mui].shape[1]] = (  # noqa: E203
                 Xfix[mui] * yRmui[:, None]
@@ -4929,6 +4930,13 @@ class MultiGauss(GSMMFamily):
         # RR is of shape m * m
         RR = R.T @ R
 
+        # First and second derivative of each mean with respect to its linear predictor
+        dy1s = [self.links[mui].dy1(mus[:, mui]) for mui in range(self.n_par)]
+        dmus = [1 / dy1 for dy1 in dy1s]
+        d2mus = [
+            -self.links[mui].dy2(mus[:, mui]) / np.power(dy1s[mui], 3) for mui in range(self.n_par)
+        ]
+
         # Compute column j of the hessian
         Hj = []
 
@@ -4945,7 +4953,7 @@ class MultiGauss(GSMMFamily):
             coef_j_idx = j if parj_idx == 0 else j - par_n_coef[parj_idx - 1]
             xbarj = scp.sparse.csc_array(
                 (
-                    Xfix[parj_idx][:, coef_j_idx].toarray(),
+                    Xfix[parj_idx][:, coef_j_idx].toarray() * dmus[parj_idx],
                     (np.tile(parj_idx, n_obs), np.arange(n_obs)),
                 ),
                 shape=(self.n_par, n_obs),
@@ -4965,10 +4973,16 @@ class MultiGauss(GSMMFamily):
         # Now iterate over means
         for mui in range(self.n_par):
             if is_coef:
-                RRxbarjmui = RRxbarj[mui, :]
+                RRxbarjmui = RRxbarj[mui, :] * dmus[mui]
+                if mui == parj_idx:
+                    # Second derivative of the mean with respect to the linear predictor
+                    RRxbarjmui = (
+                        RRxbarjmui
+                        - Xfix[mui][:, coef_j_idx].toarray() * d2mus[mui] * (RR @ ymu.T)[mui, :]
+                    )
                 d2 = -np.sum(Xfix[mui] * RRxbarjmui[:, None], axis=0)
             else:
-                RJRpRRJymui = RJRpRRJy[mui, :]
+                RJRpRRJymui = RJRpRRJy[mui, :] * dmus[mui]
                 d2 = (Xfix[mui] * RJRpRRJymui[:, None]).sum(axis=0)
             Hj.extend(d2)
 
-- 
2.43.0


From 957441e8c05a09f13c2602bcbb8939c178b580fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:14 +0000
Subject: [PATCH 65/85] fix: compare_CDL counts the shape parameters estimated
 by the second model even if the first has them fixed

---
 src/mssm/src/python/compare.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mssm/src/python/compare.py b/src/mssm/src/python/compare.py
index 1f882cc..2ece630 100644
--- a/src/mssm/src/python/compare.py
+++ b/src/mssm/src/python/compare.py
@@ -495,15 +495,15 @@ def compare_CDL(
             aic_DOF2 += 1
 
     # ... and theta parameters
-    if isinstance(model1.family, ExtendedFamily) and model1.family.est_theta:
-        DOF1 += len(model1.family.theta)
+    if isinstance(model1.family, ExtendedFamily):
+        if model1.family.est_theta:
+            DOF1 += len(model1.family.theta)
+            if aic_DOF1 is not None:
+                aic_DOF1 += len(model1.family.theta)
 
         if model2.family.est_theta:
             DOF2 += len(model2.family.theta)
-
-        if aic_DOF1 is not None:
-            aic_DOF1 += len(model1.family.theta)
-            if model2.family.est_theta:
+            if aic_DOF2 is not None:
                 aic_DOF2 += len(model2.family.theta)
 
     # Compute un-penalized likelihood
-- 
2.43.0


From 333a83cfda20d13b6535819d38137322b4c1add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:14 +0000
Subject: [PATCH 66/85] fix: compare_CDL passes bfgs_options on as the argument
 correct_VB expects

---
 src/mssm/src/python/compare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/compare.py b/src/mssm/src/python/compare.py
index 2ece630..dafb116 100644
--- a/src/mssm/src/python/compare.py
+++ b/src/mssm/src/python/compare.py
@@ -417,7 +417,7 @@ def compare_CDL(
             recompute_H=recompute_H,
             compute_Vcc=compute_Vcc,
             seed=seed,
-            **bfgs_options,
+            bfgs_options=bfgs_options,
         )
         _, _, _, _, _, DOF2, _, DOF22, expected_edf2, _ = correct_VB(
             model2,
@@ -438,7 +438,7 @@ def compare_CDL(
             recompute_H=recompute_H,
             compute_Vcc=compute_Vcc,
             seed=seed,
-            **bfgs_options,
+            bfgs_options=bfgs_options,
         )
 
         if only_expected_edf:
-- 
2.43.0


From 3c7cf904bdb850c745e8ec5bedd7f1dcffbc3577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:15 +0000
Subject: [PATCH 67/85] fix: correct_VB does not overwrite bounded edf per
 coefficient when also asked for the bias corrected edf

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 27a6014..cc0b001 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4734,7 +4734,7 @@ def correct_VB(
     # Enforce upper bound
     if total_edf > total_edf2:
         total_edf = total_edf2
-        edf = edf2
+        edf = copy.deepcopy(edf2)
 
     # Compute uncertainty corrected smoothness bias corrected edf (t1 in section 6.1.2 of Wood,
     # 2017)
-- 
2.43.0


From 9355e8209686fe1f640affbd322ebf2c5c38d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:44 +0000
Subject: [PATCH 68/85] fix: correct_VB computes the expected edf of candidates
 the same way for every method and number of cores

---
 src/mssm/src/python/utils.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index cc0b001..eae32ce 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4161,6 +4161,12 @@ def correct_VB(
 
                     if only_expected_edf is False:
                         Linvs.extend(list(sample_Linvs))
+                    else:
+                        # Candidate edf need to be based on the negative Hessian of the model
+                        sample_edfs = [
+                            edf * scale / orig_scale
+                            for edf, scale in zip(sample_edfs, sample_scales)
+                        ]
                     scales.extend(list(sample_scales))
                     coefs.extend(list(sample_coefs))
                     remls.extend(list(sample_remls))
@@ -4287,6 +4293,14 @@ def correct_VB(
                     axis=0,
                 )
 
+            # Candidate edf need to be based on the negative Hessian of the model
+            origNH = None
+            if only_expected_edf:
+                if isinstance(family, Gaussian) and isinstance(family.link, Identity):
+                    origNH = orig_scale
+                else:
+                    origNH = -1 * model.hessian
+
             for ps in p_sample:
                 for ridx, rc in enumerate(ps):
                     rPen[ridx].lam = rc
@@ -4302,6 +4316,7 @@ def correct_VB(
                             model.offset,
                             method=method,
                             compute_inv=True,
+                            origNH=origNH,
                         )
                     )
                     # coef = coef.reshape(-1,1)
@@ -4326,6 +4341,7 @@ def correct_VB(
                             n_c=n_c,
                             method=method,
                             bfgs_options=bfgs_options,
+                            origNH=origNH,
                             keep_drop=keep_drop,
                         )
                     except:  # noqa: E722
-- 
2.43.0


From 465a3b612188fdc85457e742c88f5a32f21341d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:44 +0000
Subject: [PATCH 69/85] fix: correct_VB leaves models without smoothing
 parameters uncorrected instead of failing

---
 src/mssm/src/python/utils.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index eae32ce..111786f 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -3895,9 +3895,13 @@ def correct_VB(
 
     # nPen = len(model.overall_penalties)
     rPen = copy.deepcopy(model.overall_penalties)
-    S_emb, _, _, _ = compute_S_emb_pinv_det(
-        model.hessian.shape[1], model.overall_penalties, "svd"
-    )
+    if len(rPen) > 0:
+        S_emb, _, _, _ = compute_S_emb_pinv_det(
+            model.hessian.shape[1], model.overall_penalties, "svd"
+        )
+    else:
+        # No \\lambda parameters in this model, so there is no uncertainty to correct for
+        grid_type = "JJJ1"
 
     if isinstance(family, Family):
         y = model.get_ys()
@@ -3933,7 +3937,12 @@ def correct_VB(
 
     Vp = None
     Vpr = None
-    if grid_type == "JJJ1" or grid_type == "JJJ2" or grid_type == "JJJ3":
+    if len(rPen) == 0:
+        V = (model.lvi.T @ model.lvi).toarray()
+        if isinstance(family, Family):
+            V *= orig_scale
+
+    elif grid_type == "JJJ1" or grid_type == "JJJ2" or grid_type == "JJJ3":
         # Approximate Vp via finitie differencing
         if Vp_fidiff:
             Vp, Vpr, Vr, Vrr, _, dBetadRhos = estimateVp(
@@ -4674,7 +4683,7 @@ def correct_VB(
 
     else:
         mean_coef = None
-        expected_edf = None
+        expected_edf = model.edf if len(rPen) == 0 else None
         nH = -1 * model.hessian
 
     # Check V is full rank - can use LV for sampling as well..
-- 
2.43.0


From 2857b683e147835b75f7a0ae53ec1a3891c56c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:17 +0000
Subject: [PATCH 70/85] fix: compute_B includes the null-space penalty of every
 level of a factor smooth wherever the term starts

---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4fa8b46..cbb700c 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -667,7 +667,7 @@ def compute_B(
 
             D_idx = np.arange(
                 lTerm.start_index + NULL_idx,
-                lTerm.S_J.shape[1] * (lTerm.rep_sj + 1),
+                lTerm.start_index + lTerm.S_J.shape[1] * lTerm.rep_sj,
                 lTerm.S_J.shape[1],
             )
 
-- 
2.43.0


From 94e918b41ca269f8ce5811a56ec09ec585af55c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:22 +0000
Subject: [PATCH 71/85] fix: compute_reml_candidate_GAMM includes the offset in
 the predictions of strictly additive candidates

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 111786f..2f0f81a 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1723,7 +1723,7 @@ def compute_reml_candidate_GAMM(
         if isinstance(family, Gaussian) and isinstance(family.link, Identity):
             # AMM - directly solve for coef
             eta, mu, coef, Pr, _, LP, keep, drop = update_coef(
-                y - offset, X, X, family, S_emb, S_root, n_c, None, 0
+                y - offset, X, X, family, S_emb, S_root, n_c, None, offset
             )
             nH = (X.T @ X).tocsc()
         else:
-- 
2.43.0


From 79b0c4d31484fb23cbbaf8c9de0027a7683b0fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:20 +0000
Subject: [PATCH 72/85] fix: sample_mssm accounts for the scale parameter of
 GAMMs in the prior on coefficients also if log smoothing penalties are fixed

---
 src/mssm/src/python/mcmc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index fec74a0..c2a6bb9 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -598,6 +598,11 @@ def sample_mssm(
     n_lam = len(model.overall_penalties)
     r_pen = copy.deepcopy(model.overall_penalties)
 
+    # Correct for scaling for GAMMs
+    if isinstance(family, Family) and family.twopar:
+        for pen in r_pen:
+            pen.lam /= model.scale
+
     # Now get ys and Xs
     if isinstance(family, Family):
         y = model.get_ys()
-- 
2.43.0


From bf13e5936301303cfc50da3f9220e238427ad35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:01 +0000
Subject: [PATCH 73/85] fix: sample_mssm accounts for the offset of GAMMs

---
 src/mssm/src/python/mcmc.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index c2a6bb9..0428250 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -595,6 +595,7 @@ def sample_mssm(
     n_theta = 0
     orig_scale = 1
     orig_theta = None
+    has_offset = False
     n_lam = len(model.overall_penalties)
     r_pen = copy.deepcopy(model.overall_penalties)
 
@@ -610,6 +611,12 @@ def sample_mssm(
         ys = [y]
         Xs = [model.get_mmat()]
 
+        # An offset corresponds to an extra column of the model matrix with coefficient fixed to 1
+        if np.any(model.offset != 0):
+            has_offset = True
+            offset = np.zeros((Xs[0].shape[0], 1)) + np.reshape(model.offset, (-1, 1))
+            Xs = [scp.sparse.hstack([Xs[0], offset], format="csc")]
+
         if family.twopar:
             # Sample scale parameter as well
             orig_scale = model.scale
@@ -651,6 +658,10 @@ def sample_mssm(
             )
             keep_drop = (keep, model.info.dropped)  # noqa
 
+    def add_offset_coef(coef: np.ndarray) -> np.ndarray:
+        # Add coefficient of offset column (if any) to ``coef``
+        return np.insert(coef, n_coef, 1, axis=0) if has_offset else coef
+
     # Can now start building Minv and MLT so that MLT.T@MLT = inv(Minv)
     Minv = (model.lvi.T @ model.lvi).tocsc() * orig_scale
 
@@ -675,7 +686,9 @@ def sample_mssm(
     if n_scale > 0:
 
         # Get negative 2nd partial of scale
-        nH_scale = -1 * family.d2llkd2lscale(model.coef, ys[0], Xs[0], scale=orig_scale)
+        nH_scale = -1 * family.d2llkd2lscale(
+            add_offset_coef(model.coef), ys[0], Xs[0], scale=orig_scale
+        )
 
         # Enforce PD
         if nH_scale <= 0:
@@ -705,7 +718,7 @@ def sample_mssm(
     if n_theta > 0:
 
         # Get (regularized) negative hessian block with respect to theta
-        mu = family.link.fi(Xs[0] @ model.coef)
+        mu = family.link.fi(Xs[0] @ add_offset_coef(model.coef))
         nH_theta = (-1 * family.hessianLTheta(ys[0], mu, theta=orig_theta)) + (
             np.identity(n_theta) * 0.1
         )
@@ -951,7 +964,7 @@ def sample_mssm(
         coef = c[: n_coef + n_scale + n_theta]
 
         # Compute log-likelihood
-        c_llk = deriv_fam.llk(coef, coef_split_idx, ys, Xs)
+        c_llk = deriv_fam.llk(add_offset_coef(coef), coef_split_idx, ys, Xs)
 
         if sample_rho:
             rho = c[n_coef + n_scale + n_theta :]  # noqa: E203
@@ -1019,7 +1032,10 @@ def sample_mssm(
         coef = c[: n_coef + n_scale + n_theta]
 
         # Compute gradient
-        grad = deriv_fam.gradient(coef, coef_split_idx, ys, Xs)
+        grad = deriv_fam.gradient(add_offset_coef(coef), coef_split_idx, ys, Xs)
+
+        if has_offset:
+            grad = np.delete(grad, n_coef, axis=0)
 
         if sample_rho:
             rho = c[n_coef + n_scale + n_theta :]  # noqa: E203
-- 
2.43.0


From 5009009bb97070b0da5a5e5f62135a12ac1a31a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:28 +0000
Subject: [PATCH 74/85] fix: sample_mssm accounts for the ar1 model of the
 residuals of strictly additive models

---
 src/mssm/src/python/mcmc.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 0428250..0df78da 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -12,7 +12,14 @@ from ..python.gamm_solvers import (
 )
 
 from .custom_types import SamplerResult
-from .utils import sample_MVN, estimateVp, GAMLSSGSMMFamily, RhoPrior, MVUniformRhoPrior
+from .utils import (
+    sample_MVN,
+    estimateVp,
+    computeAr1Chol,
+    GAMLSSGSMMFamily,
+    RhoPrior,
+    MVUniformRhoPrior,
+)
 
 from ...models import (
     GAMM,
@@ -21,6 +28,8 @@ from ...models import (
     Family,
     ExtendedFamily,
     GAMLSSFamily,
+    Gaussian,
+    Identity,
     fs,
     embed_shared_penalties,
     build_penalties,
@@ -617,6 +626,16 @@ def sample_mssm(
             offset = np.zeros((Xs[0].shape[0], 1)) + np.reshape(model.offset, (-1, 1))
             Xs = [scp.sparse.hstack([Xs[0], offset], format="csc")]
 
+        # Account for auto-correlation of strictly additive models
+        if (
+            model.rho is not None
+            and isinstance(family, Gaussian)
+            and isinstance(family.link, Identity)
+        ):
+            Lrhoi, _ = computeAr1Chol(formulas[0], model.rho)
+            ys = [Lrhoi.T @ y]
+            Xs = [(Lrhoi.T @ Xs[0]).tocsc()]
+
         if family.twopar:
             # Sample scale parameter as well
             orig_scale = model.scale
-- 
2.43.0


From 61389e799366249a44bf5588d264a147672617f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:28 +0000
Subject: [PATCH 75/85] fix: sample_mssm supports models without smoothing
 penalties

---
 src/mssm/src/python/mcmc.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index 0df78da..c04d5dd 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -571,6 +571,10 @@ def sample_mssm(
     if phi_theta_lambda_0 is None:
         phi_theta_lambda_0 = lambda_0
 
+    # Nothing to sample for models without smoothing penalties
+    if len(model.overall_penalties) == 0:
+        sample_rho = False
+
     # Enforce minimum of 2 for n_steps
     n_steps = max(n_steps, 2)
 
@@ -889,7 +893,14 @@ def sample_mssm(
         r_pen = [pen for pens in r_pen for pen in pens]
 
     # Get initial penalty matrix
-    S_emb, _, _, _ = compute_S_emb_pinv_det(n_coef + n_scale + n_theta, r_pen, "svd")
+    if len(r_pen) > 0:
+        S_emb, _, _, _ = compute_S_emb_pinv_det(
+            n_coef + n_scale + n_theta, r_pen, "svd"
+        )
+    else:
+        S_emb = scp.sparse.csc_array(
+            (n_coef + n_scale + n_theta, n_coef + n_scale + n_theta)
+        )
 
     if make_proper:
         # If the overall prior should be proper, we need vague priors on all un-penalized coef
-- 
2.43.0


From 8555871f9cf34b6a1cf50a79e9fea18911e49aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:28 +0000
Subject: [PATCH 76/85] fix: sample_mssm adds null-space penalties only to the
 terms of the formula lacking them

---
 src/mssm/src/python/mcmc.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index c04d5dd..c32941e 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -975,11 +975,9 @@ def sample_mssm(
         NP_pen = [pen for pens in NP_pen for pen in pens]
 
         for pen in NP_pen:
-            if (
-                pen.dist_param in NP_fidx
-                and pen.term in NP_tidx
-                and pen.type == PenType.NULL
-            ):
+            if (pen.dist_param, pen.term) in zip(
+                NP_fidx, NP_tidx
+            ) and pen.type == PenType.NULL:
 
                 S_f_emb += pen.S_J_emb * lambda_0
 
-- 
2.43.0


From c55bcfc0a7a7641f836f3b3d1e9dfe7b178be57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:28 +0000
Subject: [PATCH 77/85] fix: check_convergence monitors all group-level
 coefficients, also those of columns summing to zero or less

---
 src/mssm/src/python/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index c32941e..c37307a 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -181,7 +181,7 @@ def check_convergence(
                 par=fidx,
             )
 
-            fcidx = np.arange(fixedX.shape[1])[fixedX.sum(axis=0) > 0]
+            fcidx = np.arange(fixedX.shape[1])[np.abs(fixedX).sum(axis=0) > 0]
 
             ess_sel.extend(split_ess[fidx][fcidx])
             rhat_sel.extend(split_rhat[fidx][fcidx])
-- 
2.43.0


From c5df1792d9280df820a55f41214ef5e07ff772bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:28 +0000
Subject: [PATCH 78/85] fix: auto convergence of sample_mssm is based on the
 second half of samples for the log joint density as well

---
 src/mssm/src/python/mcmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index c37307a..cd1383c 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -1330,6 +1330,10 @@ def sample_mssm(
                         :, (iter - M_adapt) // 2 :, :  # noqa: E203
                     ]
 
+                    conv_llk_samples = conv_llk_samples[
+                        :, (iter - M_adapt) // 2 :, :  # noqa: E203
+                    ]
+
                     if n_scale > 0:
                         conv_scale_samples = conv_scale_samples[
                             :, (iter - M_adapt) // 2 :, :  # noqa: E203
-- 
2.43.0


From e4731e75217787c1903b907d96dbb81d64087047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:57 +0000
Subject: [PATCH 79/85] fix: sample_mssm supports GAMMs with scale or theta
 parameters in which terms share smoothing penalties

---
 src/mssm/src/python/mcmc.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mssm/src/python/mcmc.py b/src/mssm/src/python/mcmc.py
index cd1383c..b336111 100644
--- a/src/mssm/src/python/mcmc.py
+++ b/src/mssm/src/python/mcmc.py
@@ -888,10 +888,25 @@ def sample_mssm(
         # Note that scales and thetas are added to coef vector when working with ``deriv_fam``,
         # so from now on treat ``coef`` as having dimension n_coef + n_scale + n_theta
 
+        dist_params = [pen.dist_param for pen in r_pen]
         r_pen = embed_shared_penalties([r_pen], formulas, deriv_fam.extra_coef)
         r_pen = [sp for sp in r_pen if len(sp) > 0]
         r_pen = [pen for pens in r_pen for pen in pens]
 
+        # Penalties shared between terms also hold separate embedded matrices for every term
+        zeroes = scp.sparse.csc_array((n_scale + n_theta, n_scale + n_theta))
+        for pen, dist_param in zip(r_pen, dist_params):
+            if isinstance(pen.S_Js, list):
+                pen.dist_param = dist_param
+                pen.S_J_embs = [
+                    scp.sparse.block_diag([S_J_emb, zeroes], format="csc")
+                    for S_J_emb in pen.S_J_embs
+                ]
+                pen.D_J_embs = [
+                    scp.sparse.block_diag([D_J_emb, zeroes], format="csc")
+                    for D_J_emb in pen.D_J_embs
+                ]
+
     # Get initial penalty matrix
     if len(r_pen) > 0:
         S_emb, _, _, _ = compute_S_emb_pinv_det(
-- 
2.43.0


From 97e1225b27037b13d3fb4c73bde510eb29c76bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:50 +0000
Subject: [PATCH 80/85] fix: make_valid of the uniform priors on log smoothing
 penalties returns values within the limits of the prior

---
 src/mssm/src/python/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 2f0f81a..d64fd30 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -3538,8 +3538,8 @@ class MVUniformRhoPrior(RhoPrior):
         return ld
 
     def make_valid(self, rho: np.ndarray) -> np.ndarray:
-        """Sets elements in a copy of ``rho`` smaller than ``self.a`` to ``0.9*self.a`` and
-        enforces the same for the upper limit (``self.b``).
+        """Sets elements in a copy of ``rho`` smaller than ``a`` to ``a + 0.05*(b-a)`` and
+        those exceeding the upper limit ``b`` to ``b - 0.05*(b-a)``.
 
         :param rho: Numpy array of shape ``(nR, nrho)`` containing ``nR`` proposed candidate
             vectors for the ``nrho`` log-smoothing parameters :math:`log(\\lambda)`.
@@ -3553,8 +3553,8 @@ class MVUniformRhoPrior(RhoPrior):
         b = self.kwargs["b"]
 
         crho = copy.deepcopy(rho)
-        crho[crho < a] = 0.9 * a
-        crho[crho > b] = 0.9 * b
+        crho[crho < a] = a + 0.05 * (b - a)
+        crho[crho > b] = b - 0.05 * (b - a)
         return crho
 
 
@@ -3631,8 +3631,8 @@ class CenteredUniformRhoPriors(RhoPrior):
             invala = crho[:, rhoi] < a[rhoi]
             invalb = crho[:, rhoi] > b[rhoi]
 
-            crho[invala, rhoi] = 0.9 * a[rhoi]
-            crho[invalb, rhoi] = 0.9 * b[rhoi]
+            crho[invala, rhoi] = a[rhoi] + 0.05 * (b[rhoi] - a[rhoi])
+            crho[invalb, rhoi] = b[rhoi] - 0.05 * (b[rhoi] - a[rhoi])
 
         return crho
 
-- 
2.43.0


From 5e22e24eb67c0ddccbb9a02cac9b150ec3b4624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 81/85] fix: approx_smooth_p_values supports the default for
 n_sel for models with more rows

---
 src/mssm/src/python/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index d64fd30..da87533 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1278,7 +1278,9 @@ def approx_smooth_p_values(
 
                 if X_b_j.shape[0] > n_sel:
                     # Select subset of rows randomly as suggested by Wood (2013)
-                    sel = np_gen.choice(X_b_j.shape[0], size=n_sel, replace=False)
+                    sel = np_gen.choice(
+                        X_b_j.shape[0], size=int(n_sel), replace=False
+                    )
                     X_b_j = X_b_j[sel, :]
 
                 R = np.linalg.qr(X_b_j.toarray(), mode="r")
-- 
2.43.0


From f5135e9e150d07142bf16f3f021e643331283516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 82/85] fix: approx_smooth_p_values returns p-values between
 zero and one

---
 src/mssm/src/python/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index da87533..1f1e71e 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1420,8 +1420,8 @@ def approx_smooth_p_values(
                                 len(n),
                                 20000,
                             )
-                            p1 = 1 - p1
-                            p2 = 1 - p2
+                            p1 = 1 - min(max(p1, 0), 1)
+                            p2 = 1 - min(max(p2, 0), 1)
 
                             # Since this approximates an F statistic we need to adjust Tr
                             # (see below):
@@ -1489,8 +1489,8 @@ def approx_smooth_p_values(
                             p2, code2, _ = davies.daviesQF(
                                 lb, nc, n, Tr2, 0, 2e-5, len(n), 20000
                             )
-                            p1 = 1 - min(p1, 1)
-                            p2 = 1 - min(p2, 1)
+                            p1 = 1 - min(max(p1, 0), 1)
+                            p2 = 1 - min(max(p2, 0), 1)
 
                             if code1 > 0 or code2 > 0 or force_approx:
 
-- 
2.43.0


From b9435b37553af7433e4662cba8ec6162b2700f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:41 +0000
Subject: [PATCH 83/85] fix: tests of terms of GAMMs treat a fixed scale
 parameter as known

---
 src/mssm/src/python/utils.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 1f1e71e..51b2033 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -675,6 +675,22 @@ def sample_MVN(
         return mus + Cs @ z
 
 
+def has_estimated_scale(model) -> bool:
+    """Internal function checking whether the ``model`` is a GAMM with an estimated (i.e., neither
+    known nor fixed) scale parameter.
+
+    :param model: GSMM, GAMMLSS, or GAMM model
+    :type model: mssm.models.GSMM | mssm.models.GAMMLSS | mssm.models.GAMM
+    :return: Whether the scale parameter of the model was estimated
+    :rtype: bool
+    """
+    return (
+        isinstance(model.family, Family)
+        and model.family.twopar
+        and model.family.scale is None
+    )
+
+
 def print_parametric_terms(model, par: int = 0) -> None:
     """Prints summary output for linear/parametric terms in the model of a specific parameter, not
     unlike the one returned in R when using the ``summary`` function for ``mgcv`` models.
@@ -775,7 +791,7 @@ def print_parametric_terms(model, par: int = 0) -> None:
         ts = np.abs(coef_j / np.sqrt(V_b_inv_j))
 
         # Compute p(abs(T/N) > abs(t/n))
-        if isinstance(model.family, Family) and model.family.twopar:
+        if has_estimated_scale(model):
             ps = 1 - scp.stats.t.cdf(
                 ts, df=len(form.y_flat[form.NOT_NA_flat]) - form.n_coef
             )
@@ -787,7 +803,7 @@ def print_parametric_terms(model, par: int = 0) -> None:
         for coef_name, coef, t, p in zip(coef_j_names, coef_j, ts, ps):
             t_str = coef_name + f": {round(coef, ndigits=3)}, "
 
-            if isinstance(model.family, Family) and model.family.twopar:
+            if has_estimated_scale(model):
                 t_str += f"t: {round(np.sign(coef)*t, ndigits=3)}"
                 t_str += (
                     f", DoF.: {int(len(form.y_flat[form.NOT_NA_flat]) - form.n_coef)}, "
@@ -921,7 +937,7 @@ def print_smooth_terms(
                         e_str += " *"
                         pen_out += 1
                     if ps is not None and (isinstance(sterm, fs) is False):
-                        if isinstance(model.family, Family) and model.family.twopar:
+                        if has_estimated_scale(model):
                             e_str += f" f: {round(Trs[p_idx], ndigits=3)} P(F > f) = "
                         else:
                             e_str += f" chi^2: {round(Trs[p_idx], ndigits=3)} P(Chi^2 > chi^2) = "
@@ -952,7 +968,7 @@ def print_smooth_terms(
                     e_str += " *"
                     pen_out += 1
                 if ps is not None and (isinstance(sterm, fs) is False):
-                    if isinstance(model.family, Family) and model.family.twopar:
+                    if has_estimated_scale(model):
                         e_str += f" f: {round(Trs[p_idx], ndigits=3)} P(F > f) = "
                     else:
                         e_str += f" chi^2: {round(Trs[p_idx], ndigits=3)} P(Chi^2 > chi^2) = "
@@ -1319,7 +1335,7 @@ def approx_smooth_p_values(
                         Tr1 = (s_coef.T @ R.T @ RVRI1 @ R @ s_coef)[0, 0]
                         Tr2 = (s_coef.T @ R.T @ RVRI2 @ R @ s_coef)[0, 0]
 
-                        if isinstance(model.family, Family) and model.family.twopar:
+                        if has_estimated_scale(model):
                             Tr1 /= k
                             Tr2 /= k
 
@@ -1375,7 +1391,7 @@ def approx_smooth_p_values(
                         v2 = v + 1 - v1
 
                         # Now we need the p-value.
-                        if isinstance(model.family, Family) and model.family.twopar:
+                        if has_estimated_scale(model):
                             # First try Davies as discussed by Wood (2013)
 
                             # We have: v > 0. Based on Wood (2013), if k == 1 we need only
-- 
2.43.0


From faf081d57052ffcf64cd0c09b5de497562267dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:09 +0000
Subject: [PATCH 84/85] fix: summaries of smooth terms support un-penalized
 smooth terms and formulas with impulse response terms

---
 src/mssm/src/python/utils.py | 59 +++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 51b2033..b71fbfe 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -691,6 +691,30 @@ def has_estimated_scale(model) -> bool:
     )
 
 
+def n_ir_smooth_edf(model, par: int = 0) -> int:
+    """Internal function returning the number of term-specific estimated degrees of freedom that
+    belong to impulse response terms in the model of a specific parameter. The latter precede the
+    estimated degrees of freedom of smooth and random terms.
+
+    :param model: GSMM, GAMMLSS, or GAMM model
+    :type model: mssm.models.GSMM | mssm.models.GAMMLSS | mssm.models.GAMM
+    :param par: Parameter of the likelihood/family, ignored when ``model`` is a GAMM, defaults to 0
+    :type par: int, optional
+    :return: Number of term-specific estimated degrees of freedom of impulse response terms
+    :rtype: int
+    """
+    if isinstance(model.family, Family):
+        par = 0
+
+    ir_idx = model.formulas[par].get_ir_smooth_term_idx()
+    starts = [
+        pen.start_index
+        for pen in split_shared_penalties(model.overall_penalties)
+        if pen.dist_param == par and pen.term in ir_idx
+    ]
+    return len(np.unique(starts))
+
+
 def print_parametric_terms(model, par: int = 0) -> None:
     """Prints summary output for linear/parametric terms in the model of a specific parameter, not
     unlike the one returned in R when using the ``summary`` function for ``mgcv`` models.
@@ -881,6 +905,8 @@ def print_smooth_terms(
             term_edf = None
         else:
             term_edf = model.term_edf
+            if term_edf is None:  # No penalized terms
+                term_edf = []
     else:
         # GAMMLSS or GSMM case
         form = model.formulas[par]
@@ -920,11 +946,24 @@ def print_smooth_terms(
         terms = form.terms
         coding_factors = form.get_coding_factors()
         name_idx = 0
-        edf_idx = 0
+        edf_idx = n_ir_smooth_edf(model, par)  # edf of irf terms come first
         p_idx = 0
         pen_out = 0
         for sti in form.get_smooth_term_idx():
             sterm = terms[sti]
+
+            if sterm.is_penalized is False:
+                # Un-penalized terms take up one degree of freedom per coefficient but have no
+                # entry in term_edf.
+                n_levels = 1
+                if sterm.by is not None and sterm.id is None:
+                    n_levels = len(form.get_factor_levels()[sterm.by])
+                term_edf = [
+                    *term_edf[:edf_idx],
+                    *[float(form.coef_per_term[sti] / n_levels)] * n_levels,
+                    *term_edf[edf_idx:],
+                ]
+
             if sterm.by is not None and sterm.id is None:
                 for li in range(len(form.get_factor_levels()[sterm.by])):
                     t_edf = round(term_edf[edf_idx], ndigits=3)
@@ -1206,6 +1245,8 @@ def approx_smooth_p_values(
         lvi = model.lvi
         scale = model.scale
         term_edf = model.term_edf1 if edf1 else model.term_edf
+        if term_edf is None:  # No penalized terms
+            term_edf = []
         rs_df = X.shape[0] - model.edf
 
     else:
@@ -1266,9 +1307,11 @@ def approx_smooth_p_values(
     Trs = []
 
     # Loop over smooth terms
-    start_coef = form.unpenalized_coef  # Start indexing V_b after un-penalized coef
-    edf_idx = 0
+    edf_idx = n_ir_smooth_edf(model, par)  # edf of irf terms come first
     for sti in st_idx:
+        # Start indexing V_b at first coefficient of this term
+        start_coef = form.coef_idx_per_term[sti][0]
+
         if isinstance(terms[sti], fs) is False:
 
             n_s_coef = form.coef_per_term[sti]
@@ -1278,6 +1321,15 @@ def approx_smooth_p_values(
                 enumerator = range(n_levels)
                 n_s_coef = int(n_s_coef / n_levels)
 
+            if terms[sti].is_penalized is False:
+                # Un-penalized terms take up one degree of freedom per coefficient but have no
+                # entry in term_edf.
+                term_edf = [
+                    *term_edf[:edf_idx],
+                    *[n_s_coef for _ in enumerator],
+                    *term_edf[edf_idx:],
+                ]
+
             for _ in enumerator:
                 # Extract coefficients corresponding to smooth
                 end_coef = start_coef + n_s_coef
@@ -1553,7 +1605,6 @@ def approx_smooth_p_values(
                 start_coef += n_s_coef
 
         else:  # Random smooth terms are fully penalized
-            start_coef += form.coef_per_term[sti]
             edf_idx += 1
 
     return ps, Trs
-- 
2.43.0


From b580b0f588c03601b3b086fb5bf7061ccc031ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 85/85] fix: approx_smooth_p_values does not drop eigen-vectors
 with a first element of zero

---
 src/mssm/src/python/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index b71fbfe..0eb69af 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1374,7 +1374,7 @@ def approx_smooth_p_values(
                             [1 / lam if lami < k else 0 for lami, lam in enumerate(s)]
                         )
 
-                        sign = np.sign(U[0, :])
+                        sign = np.where(U[0, :] < 0, -1, 1)
                         U *= sign
                         RVRI1 = U @ S @ U.T
 
@@ -1407,7 +1407,7 @@ def approx_smooth_p_values(
 
                         # Fix sign of Eigen-vectors to sign of first row
                         # (based on testStat function in mgcv)
-                        sign = np.sign(U[0, :])
+                        sign = np.where(U[0, :] < 0, -1, 1)
                         U *= sign
 
                         # Now we can reform the diagonal matrix needed for inverting RVR
-- 
2.43.0

