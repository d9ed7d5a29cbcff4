From 2584335a994f103da0c95177d84a85c9296be11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:06 +0000
Subject: [PATCH 01/70] fix: keep full Hessian shape when trailing design
 columns are all zero

---
 src/mssm/src/python/gamm_solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 20d31fa..737f038 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -4459,7 +4459,9 @@ def deriv_transform_eta_beta(
             hc_idx += Xs[etaj].shape[1]
         hr_idx += Xs[etai].shape[1]
 
-    hessian = scp.sparse.csc_array((h_vals, (h_rows, h_cols)))
+    hessian = scp.sparse.csc_array(
+        (h_vals, (h_rows, h_cols)), shape=(hr_idx, hr_idx)
+    )
     return np.array(grad).reshape(-1, 1), hessian
 
 
-- 
2.43.0


From 3cfc0dd1e651fb9bf13711e1892d84174dd052cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:06 +0000
Subject: [PATCH 02/70] fix: evaluate link derivative at the mean in
 GAMLSSGSMMFamily.gradient

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index cf64053..42681a4 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -338,7 +338,7 @@ class GAMLSSGSMMFamily(GSMMFamily):
                 mu = gammlss_family.link.fi(Xs[0] @ coef[:-n_theta])
                 theta = coef[-n_theta:]
                 d1 = gammlss_family.dDdmu(y, mu, theta=theta)
-                ld1 = gammlss_family.link.dy1(d1)
+                ld1 = gammlss_family.link.dy1(mu)
                 grad_coef = -0.5 * ((d1 / ld1).T @ Xs[0]).T
                 grad_theta = gammlss_family.gradientLTheta(y, mu, theta=theta)
                 grad = np.concatenate((grad_coef, grad_theta), axis=0)
-- 
2.43.0


From 75d8c03b00fb7f17127b99af400a2af4b342b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:06 +0000
Subject: [PATCH 03/70] fix: inverse logit must not overflow to nan for large
 linear predictors

---
 src/mssm/src/python/exp_fam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index eca423d..af29651 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -141,7 +141,7 @@ class Logit(Link):
         """
         with warnings.catch_warnings():  # Overflow
             warnings.simplefilter("ignore")
-            mu = np.exp(eta) / (1 + np.exp(eta))
+            mu = 1 / (1 + np.exp(-eta))
 
         return mu
 
-- 
2.43.0


From 4978ea3da3e00c10d18eb094841539236f9d6064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:06 +0000
Subject: [PATCH 04/70] fix: call the registered solve_LXX binding

---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4fa8b46..4bf6294 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -395,7 +395,7 @@ def cpp_solve_LXX(
         success
     :rtype: tuple[scp.sparse.csc_array,list[int],int]
     """
-    return eigen_solvers.cpp_solve_LXX(*map_csc_to_eigen(A))
+    return eigen_solvers.solve_LXX(*map_csc_to_eigen(A))
 
 
 def cpp_solve_tr(
-- 
2.43.0


From d50164ecc53806f39275e63bd6e067f34902a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:06 +0000
Subject: [PATCH 05/70] fix: do not duplicate penalties whose id is not shared
 when combining penalties

---
 src/mssm/src/python/penalties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index d0ee801..f8b1ccf 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -72,6 +72,9 @@ def combine_shared_penalties(penalties: list[LambdaTerm]) -> list[LambdaTerm]:
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:
+                continue
+
             m_pens = [pen for pen in penalties if pen.id == id]
             S_J_emb = m_pens[0].S_J_emb
             D_J_emb = m_pens[0].D_J_emb
-- 
2.43.0


From 022974f2a4e121ce6674e3e2f01aa42b24791a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:06 +0000
Subject: [PATCH 06/70] fix: do not duplicate rank decisions and traces of
 penalties whose id is not shared

---
 src/mssm/src/python/gamm_solvers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 737f038..2937dac 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -399,6 +399,9 @@ def compute_S_emb_pinv_det(
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:
+                continue
+
             rds = [rd for rdi, rd in enumerate(FS_use_rank) if penalties[rdi].id == id]
 
             if len(np.unique(rds)) > 1:
@@ -1003,6 +1006,9 @@ def calculate_edf(
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:
+                continue
+
             mBs = [B for bdi, B in enumerate(Bs) if penalties[bdi].id == id]
 
             merged_Bs.append(np.sum(mBs))
-- 
2.43.0


From 5587e091d14c61699331aca490461dc5fc30a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:06 +0000
Subject: [PATCH 07/70] fix: place pseudo-inverse and root blocks at the start
 index of their penalty

---
 src/mssm/src/python/gamm_solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 2937dac..109714d 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -285,6 +285,7 @@ def compute_S_emb_pinv_det(
     for SJi in range(SJ_idx_len):
         # Now handle all pinv calculations because all penalties
         # associated with a term have been collected in SJ
+        cIndexPinv = SJ_idx[SJi]
 
         if SJ_terms[SJi] == 1:
 
-- 
2.43.0


From 1165106427f28091983d69c341aa586722fac9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:06 +0000
Subject: [PATCH 08/70] fix: sort penalties stably so penalties of one term
 keep their order

---
 src/mssm/src/python/penalties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index f8b1ccf..13e40b2 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -19,7 +19,7 @@ def sort_penalties(penalties: list[LambdaTerm]) -> list[LambdaTerm]:
     """
 
     idx = [pen.start_index for pen in penalties]
-    sort_idx = np.argsort(idx)
+    sort_idx = np.argsort(idx, kind="stable")
     return [penalties[sidx] for sidx in sort_idx]
 
 
-- 
2.43.0


From 61db68cd24365aead37f6531f33a5896b5ec149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:06 +0000
Subject: [PATCH 09/70] fix: make_valid of uniform log-lambda priors must
 return values inside the prior limits

---
 src/mssm/src/python/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 42681a4..c8d68cb 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -3543,8 +3543,8 @@ class MVUniformRhoPrior(RhoPrior):
         b = self.kwargs["b"]
 
         crho = copy.deepcopy(rho)
-        crho[crho < a] = 0.9 * a
-        crho[crho > b] = 0.9 * b
+        crho[crho < a] = a + 0.05 * (b - a)
+        crho[crho > b] = b - 0.05 * (b - a)
         return crho
 
 
@@ -3621,8 +3621,8 @@ class CenteredUniformRhoPriors(RhoPrior):
             invala = crho[:, rhoi] < a[rhoi]
             invalb = crho[:, rhoi] > b[rhoi]
 
-            crho[invala, rhoi] = 0.9 * a[rhoi]
-            crho[invalb, rhoi] = 0.9 * b[rhoi]
+            crho[invala, rhoi] = a[rhoi] + 0.05 * (b[rhoi] - a[rhoi])
+            crho[invalb, rhoi] = b[rhoi] - 0.05 * (b[rhoi] - a[rhoi])
 
         return crho
 
-- 
2.43.0


From 987efc025ee6f2b1e5a70e1faa95501a7e3b6a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 10/70] fix: compute_B must visit exactly the columns of a null
 penalty's factor levels

---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4bf6294..945151c 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -667,7 +667,7 @@ def compute_B(
 
             D_idx = np.arange(
                 lTerm.start_index + NULL_idx,
-                lTerm.S_J.shape[1] * (lTerm.rep_sj + 1),
+                lTerm.start_index + lTerm.S_J.shape[1] * lTerm.rep_sj,
                 lTerm.S_J.shape[1],
             )
 
-- 
2.43.0


From f1ce0d26448a2813fd15bb6481a36a8a6277cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 11/70] fix: return a root of the weighted identity penalty

---
 src/mssm/src/python/penalties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index 13e40b2..6b0a317 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -640,7 +640,7 @@ class IdentityPenalty(Penalty):
             elements,
             idx,
             idx,
-            elements,
+            [e**0.5 for e in elements],
             idx,
             idx,
             n,
-- 
2.43.0


From ed34f7cb6ff2d58f8734b3b277bfbbaeb8aa906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 12/70] fix: name each coefficient of an impulse response term
 with a by factor once

---
 src/mssm/src/python/terms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index cabc121..966adf2 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -2212,7 +2212,10 @@ class irf(GammTerm):
 
             for by_level in by_levels:
                 coef_names.extend(
-                    [f"irf_{ti}_{var_label}_{ink}_{by_level}" for ink in range(n_coef)]
+                    [
+                        f"irf_{ti}_{var_label}_{ink}_{by_level}"
+                        for ink in range(n_coef // len(by_levels))
+                    ]
                 )
 
         else:
-- 
2.43.0


From 0a3b35a616f2996ea52dd79a0e157807a8e8fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 13/70] fix: label impulse response coefficients with the index
 of their term

---
 src/mssm/src/python/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 23f312d..678c395 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -824,7 +824,7 @@ class Formula:
             irsterm = terms[irsti]
 
             t_total_coef, t_unpenalized_coef, t_coef_names = irsterm.get_coef_info(
-                self.has_intercept, factor_levels
+                irsti, factor_levels
             )
 
             self.coef_names.extend(t_coef_names)
-- 
2.43.0


From 93316687424e9654f00b3afa31bc5e03c79b2359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 14/70] fix: select the basis columns that remain after
 dropping coefficients

---
 src/mssm/src/python/terms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index 966adf2..8ee85eb 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -1348,10 +1348,15 @@ class f(GammTerm):
         if n_coef != f_cols:
             raise KeyError("Not all model matrix columns were created.")
 
+        # Basis columns that were not dropped
+        kept_cols = np.arange(m_cols if self.by is None else m_cols * len(by_levels))
+        if self.drop_coef is not None:
+            kept_cols = kept_cols[~np.isin(kept_cols, self.drop_coef)]
+
         # Find basis elements > 0 and collect correspondings elements and row indices
         for m_coli in range(f_cols):
             final_ridx = term_ridx[m_coli]
-            final_col = matrix_term[final_ridx, m_coli % m_cols]
+            final_col = matrix_term[final_ridx, kept_cols[m_coli] % m_cols]
 
             # Tolerance row index for this columns
             cidx = abs(final_col) > tol
-- 
2.43.0


From a15bcdd979d1142948046b1e211e2408aa70dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 15/70] fix: off-diagonal Cholesky parameters of MultiGauss
 have no second-order term in R

---
 src/mssm/src/python/exp_fam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index af29651..eed82ae 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4974,7 +4974,7 @@ class MultiGauss(GSMMFamily):
                     d2 = np.sum(xbarjmui * RiRpRRiymui)
                 else:
                     d2 = (ymu @ Rpj.T) * (ymu @ Rpi.T)
-                    if (mr == theta_idx[0]) and (mc == theta_idx[1]):
+                    if is_diag and (mr == theta_idx[0]) and (mc == theta_idx[1]):
                         d2 += (ymu @ R.T) * (ymu @ Rpj.T)
                     d2 = -np.sum(d2)
 
-- 
2.43.0


From a383b1618f1178355419b56413a0cc23e8789d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 16/70] fix: PropHaz baseline hazard and survival must reflect
 the coefficients passed in

---
 src/mssm/src/python/exp_fam.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index eed82ae..94b56e6 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4016,6 +4016,7 @@ class PropHaz(GSMMFamily):
         self.__hs = None
         self.__qs = None
         self.__avs = None
+        self.__prep = None  # Inputs for which predictions were prepared
 
         # Create index vectors ri for ut and r
         idx = np.arange(len(self.r), dtype=np.int64)
@@ -4263,6 +4264,15 @@ class PropHaz(GSMMFamily):
             :func:`mssm.models.GAMMLSS.get_mmat`.
         :type Xs: [scp.sparse.csc_array]
         """
+        # Nothing to do if these inputs have been prepared before
+        if (
+            self.__prep is not None
+            and self.__prep[2] is Xs[0]
+            and np.array_equal(self.__prep[0], coef)
+            and np.array_equal(self.__prep[1], delta)
+        ):
+            return
+
         # Extract and define all variables defined by WPS (2016)
         ut = self.ut
         nt = len(ut)
@@ -4325,6 +4335,7 @@ class PropHaz(GSMMFamily):
         self.__hs = hs
         self.__qs = qs
         self.__avs = avs
+        self.__prep = (np.array(coef), np.array(delta), Xs[0])
 
     def get_baseline_hazard(
         self, coef: np.ndarray, delta: np.ndarray, Xs: list[scp.sparse.csc_array]
@@ -4390,8 +4401,7 @@ class PropHaz(GSMMFamily):
         :rtype: np.ndarray
         """
 
-        if self.__hs is None:
-            self.__prepare_predictions(coef, delta, Xs)
+        self.__prepare_predictions(coef, delta, Xs)
 
         return self.__hs
 
@@ -4528,8 +4538,7 @@ class PropHaz(GSMMFamily):
         :rtype: tuple[np.ndarray, np.ndarray | None]
         """
 
-        if self.__hs is None:
-            self.__prepare_predictions(coef, delta, Xs)
+        self.__prepare_predictions(coef, delta, Xs)
 
         # Extract and define all variables defined by WPS (2016)
         ut = self.ut
-- 
2.43.0


From 44f66528b2dd46fe778ffdc0721bb013e4aa3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:02 +0000
Subject: [PATCH 17/70] fix: AR1 whitening must restart at a series' first
 valid observation when its first row is NA

---
 src/mssm/src/python/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index c8d68cb..4ee28a1 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -78,7 +78,9 @@ def computeAr1Chol(formula: Formula, rho: float) -> tuple[scp.sparse.csc_array,
     if formula.series_id is not None:
         start = np.tile(False, len(formula.y_flat))
         start[formula.sid] = True
-        start = start[formula.NOT_NA_flat]
+        # The first non-NA observation of a series starts it
+        series = np.cumsum(start)[formula.NOT_NA_flat]
+        start = np.concatenate(([True], np.diff(series) > 0))
         sid0 = np.where(start)[0]
         sid1 = sid0[1:] - 1
 
-- 
2.43.0


From 79538d33c52783560dd35604f27da3dd7e4e866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:02 +0000
Subject: [PATCH 18/70] fix: do not take the root of the root weights when
 re-embedding dropped observations

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 src/mssm/src/python/utils.py        | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 109714d..9759747 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3160,7 +3160,7 @@ def solve_gamm_sparse(
             w = w_full
 
             # Re-compute weight matrix
-            Wr = scp.sparse.spdiags([np.sqrt(np.ndarray.flatten(w))], [0])
+            Wr = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
 
             # Adjust working residuals
             wres_full = np.zeros_like(eta)
diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 4ee28a1..3e76fda 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1819,7 +1819,7 @@ def compute_reml_candidate_GAMM(
                 w = w_full
 
                 # Re-compute weight matrix
-                Wr_fix = scp.sparse.spdiags([np.sqrt(np.ndarray.flatten(w))], [0])
+                Wr_fix = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
             else:
                 Wr_fix = Wr
             inval = inval.flatten()
@@ -4424,9 +4424,7 @@ def correct_VB(
                         w = w_full
 
                         # Re-compute weight matrix
-                        Wr_fix = scp.sparse.spdiags(
-                            [np.sqrt(np.ndarray.flatten(w))], [0]
-                        )
+                        Wr_fix = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
                     else:
                         Wr_fix = Wr
 
-- 
2.43.0


From 8b6eedc18ef33799eee94ee5c7ee3de5f44dd94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:47 +0000
Subject: [PATCH 19/70] fix: formulas whose only smooth terms are factor
 smooths must not crash the nesting check

---
 src/mssm/src/python/formula.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 678c395..9462865 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1684,6 +1684,10 @@ class Formula:
         sti = self.get_smooth_term_idx()
         sti = [ti for ti in sti if isinstance(self.terms[ti], fs) is False]
 
+        # Nothing to check if all smooth terms are factor smooths
+        if len(sti) == 0:
+            return
+
         term_var = [self.terms[ti].variables for ti in sti]
         n_term_var = [len(tvar) for tvar in term_var]
         max_var = np.max(n_term_var)
-- 
2.43.0


From b9d968479db9cfb1e0aff92cfd92bff450fed608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:47 +0000
Subject: [PATCH 20/70] fix: do not count the coefficients of unpenalized
 impulse response terms twice

---
 src/mssm/src/python/formula.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 9462865..acfd2d1 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -2124,7 +2124,6 @@ def build_penalties(formula) -> list[LambdaTerm]:
                 if irsterm.by is not None:
                     added_not_penalized *= len(by_levels)
                 start_idx += added_not_penalized
-                cur_pen_idx = start_idx
 
                 if formula.print_warn:
                     warnings.warn(
-- 
2.43.0


From 0841fabd891e24ce8a0d26c3f466dfb37594cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:47 +0000
Subject: [PATCH 21/70] fix: rank of a constrained difference penalty cannot
 exceed its dimension

---
 src/mssm/src/python/penalties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index 6b0a317..2b10484 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -573,6 +573,9 @@ class DifferencePenalty(Penalty):
                     ]
                 )
 
+        # Without a kernel, absorbing a constraint reduces the rank as well
+        rank = min(rank, S.shape[0])
+
         S = scp.sparse.csc_array(S)
         D = scp.sparse.csc_array(D)
 
-- 
2.43.0


From 322a94ccb33662851d8dacb80f93c240f0fba702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:04 +0000
Subject: [PATCH 22/70] fix: sum-to-zero constraint of re-parameterized te
 terms must be computed from the re-parameterized marginals

---
 src/mssm/src/python/formula.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index acfd2d1..3603d49 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1645,6 +1645,10 @@ class Formula:
                     )
 
                 if sterm.te:
+                    if sterm.should_rp > 0:
+                        # Constraint is absorbed after the marginals have been re-parameterized.
+                        matrix_term_v = matrix_term_v @ sterm.RP[vi].C
+
                     if vi == 0:
                         matrix_term = matrix_term_v
                     else:
-- 
2.43.0


From d552e83a6a2be6836a003b9a98b742fe92bfde79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 23/70] fix: factor levels must follow the order of a custom
 codebook so that coefficient names match their columns

---
 src/mssm/src/python/formula.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 3603d49..9c761de 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -754,6 +754,10 @@ class Formula:
                         # print(len(rf_fac[sub_fac == by_subgroup[1]]))
                         levels = np.unique(rf_fac[sub_fac == by_subgroup[1]])
 
+                if codebook is not None and var in codebook:
+                    # Levels are stored in the order of their codes
+                    levels = levels[np.argsort([codebook[var][c] for c in levels])]
+
                 self.factor_codings[var] = {}
                 self.coding_factors[var] = {}
                 self.factor_levels[var] = levels
-- 
2.43.0


From a87b8bc577bc756c73f7e816fd3b1a1463d83501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:31 +0000
Subject: [PATCH 24/70] fix: use the formula's file loading arguments when
 accumulating cross products from files

---
 src/mssm/src/python/gamm_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 9759747..586fc0f 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3462,7 +3462,7 @@ def read_XTX(
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     y_flat_file, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(
@@ -3724,7 +3724,7 @@ def read_eta(file, formula: Formula, coef: np.ndarray, nc: int) -> list[float]:
     cov = None
 
     # Read file
-    file_dat = pd.read_csv(file)
+    file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
     # Encode data in this file
     _, cov_flat_file, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
@@ -3966,7 +3966,7 @@ def solve_gamm_sparse2(
 
         for fi, file in enumerate(iterator):
             # Read file
-            file_dat = pd.read_csv(file)
+            file_dat = pd.read_csv(file, **formula.file_loading_kwargs)
 
             # Encode data in this file
             y_flat_file, _, NAs_flat_file, _, _, _, _ = formula.encode_data(file_dat)
-- 
2.43.0


From df7325ebb258f62b59e0a559f242b729f720e460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:47 +0000
Subject: [PATCH 25/70] fix: levels read from files must be ordered, not follow
 the hash order of a set

---
 src/mssm/src/python/file_loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index cfb8ae4..1d805a9 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -51,7 +51,7 @@ def read_unique(
 
     unq.update(*unq_cov)
 
-    return np.array(list(unq))
+    return np.sort(np.array(list(unq)))
 
 
 def read_cor_cov_single(
-- 
2.43.0


From 2e2904488a4a096e8a8c9e1d2acbf349a7a8de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:42 +0000
Subject: [PATCH 26/70] fix: unidentifiable coefficients do not count towards
 the degrees of freedom of an unpenalized model

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 586fc0f..01aa762 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1222,7 +1222,7 @@ def update_scale_edf(
             None,
         )
     else:
-        total_edf = colsX
+        total_edf = colsX - (len(drop) if drop is not None else 0)
         term_edfs = None
         Bs = None
 
-- 
2.43.0


From 3886087c9a1df908a996d9bcdfde8e0bda20a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:15 +0000
Subject: [PATCH 27/70] fix: warn about an ill-conditioned system instead of
 raising a TypeError after convergence

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 01aa762..2d4ece1 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3213,7 +3213,7 @@ def solve_gamm_sparse(
                 )
             )
         if method != "Chol" and Kcode == 2:
-            raise warnings.warn(
+            warnings.warn(
                 (
                     f"Condition number ({K2}) of matrix A, where A.T@A=X.T@X + S_\\lambda, is "
                     "larger than 1/u, where u is half the machine precision. The model estimates "
-- 
2.43.0


From 463a53806bb072a3295cae7b6093806654571ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 28/70] fix: make_pd must give a positive definite matrix when
 all updated directions have non-positive curvature

---
 src/mssm/src/python/compact_rep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/compact_rep.py b/src/mssm/src/python/compact_rep.py
index c6d7983..9bcb129 100644
--- a/src/mssm/src/python/compact_rep.py
+++ b/src/mssm/src/python/compact_rep.py
@@ -288,7 +288,8 @@ def computeHSR1(
             # Useful to guarantee that penalized hessian is pd at convergence
             if make_pd:
                 eps = np.power(np.finfo(float).eps, 0.5)
-                ev[fix_idx] += eps * np.max(ev + omega)
+                # omega: largest eigenvalue might be outside of the space spanned by the updates
+                ev[fix_idx] += eps * max(omega, np.max(ev + omega))
 
             # while np.any(np.abs(ev) < 1e-7):
             #   ev[np.abs(ev) < 1e-7] += np.power(np.finfo(float).eps,0.7)
-- 
2.43.0


From 5725e4fd27a454e1e0be5743c95e3e8f7c123fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:15 +0000
Subject: [PATCH 29/70] fix: gradient with respect to the initial state
 distribution must use the time-varying durations of the current time point

---
 src/mssm/src/cpp/hsmm/llk.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/llk.cpp b/src/mssm/src/cpp/hsmm/llk.cpp
index 4539235..418063f 100644
--- a/src/mssm/src/cpp/hsmm/llk.cpp
+++ b/src/mssm/src/cpp/hsmm/llk.cpp
@@ -1392,7 +1392,9 @@ py::array_t<
                         
                         // Only need deriv of (\sum_{i \in S/j} lam(t-1,1,i)*T(i,j)) * bs(t,j)*
                         // ds(d,j) - same as before:
-                        psi(t1,d,j,tci) += tpg*bs(t,j)*ds(d,(starts_with_first) ? j : j + n_S);
+                        psi(t1,d,j,tci) += tpg*bs(t,j)*((tvdtpi) ?
+                                           ds(d,(starts_with_first) ? j : j + n_S,t):
+                                           ds(d,(starts_with_first) ? j : j + n_S));
 
                         tci += 1;
                     }
-- 
2.43.0


From 878b21bb534671e31558d3a49809a2abcd2f13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:15 +0000
Subject: [PATCH 30/70] fix: posterior state samples must use the time-varying
 durations of the time point at which a state is entered

---
 src/mssm/src/cpp/hsmm/decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index d602a2c..a084faf 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -525,7 +525,7 @@ std::tuple<
                     state_probs[i] = lam(t-1,0,i) *
                                         ((tvdtpi) ? T(i,tmp_j,t-1): T(i,tmp_j)) *
                                         ((tvdtpi) ?
-                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t-1)
+                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t)
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
-- 
2.43.0


From 774b1cec972e04ff72aa3da936a5f8adac3c39d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:15 +0000
Subject: [PATCH 31/70] fix: posterior state samples of flats must account for
 the lag of the previous bump

---
 src/mssm/src/cpp/hsmm/decode.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index a084faf..3ff9366 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -514,6 +514,11 @@ std::tuple<
                     if ((tmp_ed + 1) <= (D - 2))
                     {
                         state_probs[i] = lam(t-1,tmp_ed+1,i);
+
+                        if (hmp_code != 0 && tmp_j % 2 == 0)
+                        {
+                            state_probs[i] *= bs(t,0,tmp_j);
+                        }
                     }
                     else
                     {
@@ -529,6 +534,13 @@ std::tuple<
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
+
+                    if (hmp_code != 0 && tmp_j % 2 == 0)
+                    {
+                        // First obs prob for flats can depend on lag of previous bump and then
+                        // differs from the one for a flat that continues
+                        state_probs[i] *= bs(t,1,tmp_j);
+                    }
                 }
             }
             
-- 
2.43.0


From 6d22bfbe67096d3a774fa4b5ca114eb2fe1255ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:15 +0000
Subject: [PATCH 32/70] fix: predictive residuals must use the mean of the
 signal they belong to

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 162576c..3e15e2e 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -502,7 +502,7 @@ py::array_t<
                         {   
                             // Expected value for signal m
 
-                            elam(t,m,d,j) += tp * mus(t,j) *
+                            elam(t,m,d,j) += tp * mus(t,m,j) *
                                             ((tvdtpi) ? ds(d,(starts_with_first) ? j : j + n_S,t):
                                                         ds(d,(starts_with_first) ? j : j + n_S));
 
-- 
2.43.0


From 6e8807fc9d148f337edb562313e0c9038ec86e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:15 +0000
Subject: [PATCH 33/70] fix: predictive residuals must not read the mean of a
 bump before the first flat

---
 src/mssm/src/cpp/hsmm/resid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/resid.cpp b/src/mssm/src/cpp/hsmm/resid.cpp
index 3e15e2e..722777b 100644
--- a/src/mssm/src/cpp/hsmm/resid.cpp
+++ b/src/mssm/src/cpp/hsmm/resid.cpp
@@ -476,7 +476,7 @@ py::array_t<
                                                  ds(d,(starts_with_first) ? j : j + n_S,t):
                                                  ds(d,(starts_with_first) ? j : j + n_S));
                             }
-                            else if (rho < 999)
+                            else if (rho < 999 && j > 0)
                             {
                                 // Lag of previous bump carries over
                                 ebump = d1 * weights(event_width-1) * mus(t-1,m,j-1);
-- 
2.43.0


From a7ab5012b09de2e2dc659d9afa7c2f8ed98583c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:42 +0000
Subject: [PATCH 34/70] fix: recover sign and value of rho from the ar1
 transform for any layout of the series

---
 src/mssm/src/python/hsmm.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 23ac6f7..6727181 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -22,6 +22,29 @@ except ImportError:
     HAS_MP = False
 
 
+def _extract_rho(Lrhoi: scp.sparse.csc_array) -> float:
+    """Recover the weight of the ar1 model from the inverse of the transpose of the Cholesky of the
+    co-variance matrix of the residuals.
+
+    Rows within a series have ``1/sqrt(1-rho**2)`` on the diagonal and ``-rho/sqrt(1-rho**2)`` on
+    the first super-diagonal. Super-diagonal elements between series are zero.
+
+    :param Lrhoi: Inverse of the transpose of the cholesky of the co-variance (before scaling)
+        matrix of an ar1 model of the residuals.
+    :type Lrhoi: scp.sparse.csc_array
+    :return: The weight of the ar1 model
+    :rtype: float
+    """
+    d0 = Lrhoi.diagonal()
+    d1 = Lrhoi.diagonal(k=1)
+    within = np.flatnonzero(d1)
+
+    if len(within) == 0:
+        return 0.0
+
+    return -d1[within[0]] / d0[within[0] + 1]
+
+
 def _split_matrices(
     ys: list[np.ndarray | None],
     Xs: list[scp.sparse.csc_array | None],
@@ -1382,7 +1405,7 @@ class HSMMFamily(GSMMFamily):
 
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -1912,7 +1935,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2154,7 +2177,7 @@ class HSMMFamily(GSMMFamily):
         # called by get_resid) - of course only if ``Lrhoi`` was provided to constructor
         rho = None
         if self.llkargs[16] is not None:
-            rho = np.sqrt(-1 * (np.power(1 / self.llkargs[16][1, 1], 2) - 1))
+            rho = _extract_rho(self.llkargs[16])
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2400,7 +2423,7 @@ class HSMMFamily(GSMMFamily):
         # called by get_resid) - of course only if ``Lrhoi`` was provided to constructor
         rho = None
         if self.llkargs[16] is not None:
-            rho = np.sqrt(-1 * (np.power(1 / self.llkargs[16][1, 1], 2) - 1))
+            rho = _extract_rho(self.llkargs[16])
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -2757,7 +2780,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -3002,7 +3025,7 @@ class HSMMFamily(GSMMFamily):
         if Lrhoi is not None:
             d0 = Lrhoi.diagonal()
             llc = np.log(d0[d0 != 1]).sum()
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
@@ -4186,7 +4209,7 @@ class HSMMFamily(GSMMFamily):
         # Extract rho
         rho = None
         if Lrhoi is not None:
-            rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
+            rho = _extract_rho(Lrhoi)
 
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
-- 
2.43.0


From 304b0c83cc786127688bf2d3b001179f1b4a3441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:42 +0000
Subject: [PATCH 35/70] fix: add the log-determinant of the ar1 transform of
 every signal to the log-likelihood

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 6727181..8e0d6dc 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -3097,8 +3097,8 @@ class HSMMFamily(GSMMFamily):
         if np.isnan(llk):
             llk = -np.inf
 
-        # Correct for potential ar1 model
-        llk -= llc
+        # Correct for potential ar1 model - all M signals are transformed
+        llk += M * llc
 
         return llk
 
-- 
2.43.0


From 8da11b742775a017606b32e22d792b500e147c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:42 +0000
Subject: [PATCH 36/70] fix: duration residuals must use the duration
 distribution a state had when it was entered

---
 src/mssm/src/python/hsmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 8e0d6dc..b6e3e7a 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1077,7 +1077,7 @@ def _compute_dur_res_series(
             else:
                 d_res = d_fams[(dj_idx)].get_resid(
                     np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-                )[t if tvdtpi else 0, 0]
+                )[t - d if tvdtpi else 0, 0]
 
                 # And collect
                 res[j].append(d_res)
@@ -1087,14 +1087,14 @@ def _compute_dur_res_series(
         t += 1
 
     # Catch dur from last state
-    dj_idx = j if (starts_with_first is True) else j + n_S
+    dj_idx = j if (transitions == 0 or starts_with_first is True) else j + n_S
 
     if mus_d[dj_idx] is None:
         res[j] = None
     else:
         d_res = d_fams[(dj_idx)].get_resid(
             np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-        )[t - 1 if tvdtpi else 0, 0]
+        )[t - d if tvdtpi else 0, 0]
 
         res[j].append(d_res)
 
-- 
2.43.0


From c4067b9d54246cdce18cca72a179b4ebe193b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:42 +0000
Subject: [PATCH 37/70] fix: shapes of time-varying transition and bump
 duration probabilities

---
 src/mssm/src/python/hsmm.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index b6e3e7a..5ba4a34 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -715,7 +715,7 @@ def _compute_series_probs(
                 lpd[int(event_width - 1)] = 0
 
                 if tvdtpi:
-                    lpd = [lpd for _ in range(D - 1)]
+                    lpd = [np.tile(lpdd, n_T) for lpdd in lpd]
             else:
                 raise ValueError(f"Need distribution duration family for state {j}.")
 
@@ -783,9 +783,6 @@ def _compute_series_probs(
             T[0, 1] = 1
             T[1, 0] = 1
 
-            if tvdtpi:
-                T = np.stack([T for _ in range(n_T)], axis=2)
-
         if log:
             T = np.log(T)
 
@@ -3713,7 +3710,7 @@ class HSMMFamily(GSMMFamily):
                         lpd[int(event_width - 1)] = 0
 
                         if tvdtpi:
-                            lpd = [lpd for _ in range(D - 1)]
+                            lpd = [np.tile(lpdd, n_T) for lpdd in lpd]
                     else:
                         raise ValueError(
                             f"Need distribution duration family for state {j}."
-- 
2.43.0


From f9dae4669e7263425c0b8833662223e8231685a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:42 +0000
Subject: [PATCH 38/70] fix: models in which the first parameter has no shared
 terms

---
 src/mssm/src/python/hsmm.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 5ba4a34..9d83487 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -143,7 +143,7 @@ def _split_matrices(
                 X_split = [Xmj[split, :] for split in np.split(Xidx, sid[1:])]
 
             y_split = None
-            if par == 0 and m == 0:
+            if idx == 0:
                 ymj = ys[0] if Lrhoi is None else Lrhoi.T @ ys[0]
                 y_split = np.split(ymj, sid[1:])
 
@@ -453,14 +453,14 @@ def _compute_series_probs(
     idx = 0  # Keep track of indices for ys and Xs
 
     # First check for part of emission models shared between states (and m)
-    shared_eta = []  # Holds list per par, each list contains at least one eta vector.
+    shared_eta = {}  # Holds list per par, each list contains at least one eta vector.
     for par in shared_pars:
 
         midx = 1
         if shared_m is False:
             midx = M
 
-        shared_eta.append([])
+        shared_eta[par] = []
 
         # Compute shared part of eta per parameter and m
         for m in range(midx):
@@ -921,14 +921,14 @@ def _sample_series_emissions(
     # First check for part of emission models shared between states (and m)
 
     # Holds list per par, each list contains at least one eta vector.
-    shared_eta = []
+    shared_eta = {}
     for par in shared_pars:
 
         midx = 1
         if shared_m is False:
             midx = M
 
-        shared_eta.append([])
+        shared_eta[par] = []
 
         # Compute shared part of eta per parameter and m
         for m in range(midx):
@@ -3210,9 +3210,9 @@ class HSMMFamily(GSMMFamily):
 
             # Lists below hold list per par. Each list contains at least one eta/X index/list to
             # be filled with duplicate coefficient indices
-            shared_eta = []
-            shared_X = []
-            shared_coef_idx = []
+            shared_eta = {}
+            shared_X = {}
+            shared_coef_idx = {}
 
             # List below holds indices of all duplicated coef so that we can later exclude them
             shared_coef_idx_flat = []
@@ -3222,9 +3222,9 @@ class HSMMFamily(GSMMFamily):
                 if shared_m is False:
                     midx = M
 
-                shared_eta.append([])
-                shared_X.append([])
-                shared_coef_idx.append([])
+                shared_eta[par] = []
+                shared_X[par] = []
+                shared_coef_idx[par] = []
 
                 # Compute shared part of eta per parameter and m and collect
                 # X index + add list to be populated with duplicated/shared coef
-- 
2.43.0


From 29e5a9cc55593a64ab7a15cb4e57324c6567d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:42 +0000
Subject: [PATCH 39/70] fix: compute_Tpi must return the matrices of every
 series

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 9d83487..45126b2 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1609,7 +1609,7 @@ class HSMMFamily(GSMMFamily):
             ps = []
 
             for series in range(n_series):
-                T, pi = series_Tpi(
+                Ts, pis = series_Tpi(
                     series,
                     [
                         y_split[series] if y_split is not None else None
@@ -1621,7 +1621,7 @@ class HSMMFamily(GSMMFamily):
                     ],
                 )
 
-                ps.append([T, pi])
+                ps.append([Ts, pis])
 
         else:  # Compute in parallel
 
-- 
2.43.0


From b909b5a04d65d39597ab121b210fd056487545d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:43 +0000
Subject: [PATCH 40/70] fix: predict must leave a state with the transition
 probabilities of its last time point

---
 src/mssm/src/python/hsmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 45126b2..35469f1 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1816,7 +1816,7 @@ class HSMMFamily(GSMMFamily):
                         else:
                             state = np_gen.choice(
                                 state_vals,
-                                p=Ts[state, :, t] if tvdtpi else Ts[state, :],
+                                p=Ts[state, :, t - 1] if tvdtpi else Ts[state, :],
                             )
 
                             dur = np_gen.choice(
-- 
2.43.0


From ba1ef829da5fbc9459ca7abdf790d1ecebd611f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:43 +0000
Subject: [PATCH 41/70] fix: duration residuals must use the series' own T and
 pi and transform its observations once

---
 src/mssm/src/python/hsmm.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 35469f1..a3e8bee 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -2013,6 +2013,7 @@ class HSMMFamily(GSMMFamily):
         sid: None | np.ndarray = None,
         tid: None | np.ndarray = None,
         n_cores: None | int = None,
+        _series: None | int = None,
     ) -> list[tuple[int, np.ndarray]]:
         """Perform viterbi decoding of state sequence for a :class:`HSMMFamily` model.
 
@@ -2049,6 +2050,9 @@ class HSMMFamily(GSMMFamily):
             the value passed to the constructor of ``self``. If set to None, the value passed to
             the constructor is used. Defaults to None
         :type n_cores: int| None, optional
+        :param _series: Only used by :func:`get_resid`: index of the single series passed as ``ys``
+            and ``Xs``, whose observations were already transformed. Defaults to None
+        :type _series: int | None, optional
         :return: A list with a tuple per time-series. First element of tuple is excess duration of
             final state, second is a np.array with the decoded state sequence matching the length
             of the time-series.
@@ -2155,7 +2159,11 @@ class HSMMFamily(GSMMFamily):
         T = self.llkargs[14]
         pi = self.llkargs[15]
         Lrhoi = None
-        if self.llkargs[16] is not None and ys[0].shape[0] == self.llkargs[16].shape[0]:
+        if (
+            _series is None
+            and self.llkargs[16] is not None
+            and ys[0].shape[0] == self.llkargs[16].shape[0]
+        ):
             Lrhoi = self.llkargs[16]
         scale = self.llkargs[17]
         event_template = self.llkargs[18]
@@ -2202,7 +2210,7 @@ class HSMMFamily(GSMMFamily):
                 with warnings.catch_warnings():  # Supress warnings
                     warnings.simplefilter("ignore")
                     edss, statess = series_viterbi(
-                        series,
+                        series if _series is None else _series,
                         [
                             y_split[series] if y_split is not None else None
                             for y_split in split_Ys
@@ -2255,6 +2263,7 @@ class HSMMFamily(GSMMFamily):
         sid: None | np.ndarray = None,
         tid: None | np.ndarray = None,
         n_cores: None | int = None,
+        _series: None | int = None,
     ) -> list[tuple[int, np.ndarray]]:
         """Samples the posterior of state sequences given parameter estimates and data.
 
@@ -2296,6 +2305,9 @@ class HSMMFamily(GSMMFamily):
             the value passed to the constructor of ``self``. If set to None, the value passed to
             the constructor is used. Defaults to None
         :type n_cores: int| None, optional
+        :param _series: Only used by :func:`get_resid`: index of the single series passed as ``ys``
+            and ``Xs``, whose observations were already transformed. Defaults to None
+        :type _series: int | None, optional
         :return: A list with a tuple per time-series. First element of tuple is excess duration of
             final state (a np.array holding ``n_samples`` excess durations), second is a np.array
             with the sampled state sequences. First dimension matches length of the time-series.
@@ -2402,7 +2414,11 @@ class HSMMFamily(GSMMFamily):
         T = self.llkargs[14]
         pi = self.llkargs[15]
         Lrhoi = None
-        if self.llkargs[16] is not None and ys[0].shape[0] == self.llkargs[16].shape[0]:
+        if (
+            _series is None
+            and self.llkargs[16] is not None
+            and ys[0].shape[0] == self.llkargs[16].shape[0]
+        ):
             Lrhoi = self.llkargs[16]
         scale = self.llkargs[17]
         event_template = self.llkargs[18]
@@ -2448,7 +2464,7 @@ class HSMMFamily(GSMMFamily):
                 with warnings.catch_warnings():  # Supress warnings
                     warnings.simplefilter("ignore")
                 edss, statess = sample_posterior_series(
-                    series,
+                    series if _series is None else _series,
                     [
                         y_split[series] if y_split is not None else None
                         for y_split in split_Ys
@@ -2682,6 +2698,7 @@ class HSMMFamily(GSMMFamily):
                     sid=np.array([0]),
                     tid=np.array([0]),
                     n_cores=1,
+                    _series=series,
                 )
 
                 res_sep = _compute_dur_res_series(
@@ -2711,6 +2728,7 @@ class HSMMFamily(GSMMFamily):
                     sid=np.array([0]),
                     tid=np.array([0]),
                     n_cores=1,
+                    _series=series,
                 )
 
                 res = np.zeros((1, n_S, n_samples))
-- 
2.43.0


From cfc9a62564c6bd9eb5bc641ba237a730eccf18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:36 +0000
Subject: [PATCH 42/70] fix: whole-function intervals must not drop
 coefficients whose predictor column sums to zero

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 3e76fda..d67db74 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1610,7 +1610,7 @@ def adjust_CI(
         # If we have many random factor levels, but want to make predictions only
         # for fixed effects, it's wasteful to sample all coefficients from posterior.
         # The code below performs a selection of the coefficients to be sampled.
-        use_post = predi_mat.sum(axis=0) != 0
+        use_post = abs(predi_mat).sum(axis=0) != 0
         use_post = np.arange(0, predi_mat.shape[1])[use_post]
 
     # Sample deviations [*coef - coef] from posterior of model
-- 
2.43.0


From 3c09809a1e2f4f7928ba0f8b2b4cedd1bef35a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:36 +0000
Subject: [PATCH 43/70] fix: whole-function intervals must not become nan when
 a row of the predictor matrix is zero

---
 src/mssm/src/python/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index d67db74..39ed183 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1626,7 +1626,10 @@ def adjust_CI(
         fpost = np.abs(predi_mat[:, use_post] @ post)
 
     # Compute ratio between abs(predi_mat@[*coef - coef])/b for every sample.
-    fpost = fpost / b[:, None]
+    # Rows without any uncertainty (b == 0) never require an adjustment.
+    fpost = np.divide(
+        fpost, b[:, None], out=np.zeros_like(fpost), where=b[:, None] > 0
+    )
 
     # Then compute max of this ratio, over rows of predi_mat, for every sample. np.max(fpost,axis=0)
     # now is a vector with n_ps elements, holding for each sample the multiplicative adjustment a,
-- 
2.43.0


From 4fd82f5429d7200e581eb56e2a6b117b32ba09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:36 +0000
Subject: [PATCH 44/70] fix: GAMM.get_resid must refuse residual types it
 cannot compute

---
 src/mssm/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 33f5a1e..8479360 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -2846,7 +2846,7 @@ class GAMM(GAMMLSS):
                 "Model needs to be estimated before evaluating the residuals. Call model.fit()"
             )
 
-        if type not in ["Pearson", "Deviance", "ar1", "family"]:
+        if type not in ["Pearson", "Deviance", "ar1"]:
             raise ValueError("Type must be one of 'Pearson','Deviance', or 'ar1'.")
 
         if type == "ar1" and self.rho is None:
-- 
2.43.0


From 731aa1dadef117e25e8ecf70d229a80274e26ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:36 +0000
Subject: [PATCH 45/70] fix: return the coefficients that belong to the
 returned predictor when fitting stops at max_outer

---
 src/mssm/src/python/gamm_solvers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 2d4ece1..4054af5 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3128,6 +3128,10 @@ def solve_gamm_sparse(
         # This completes step 8 in Wood (2017)!
         fit_info.iter += 1
 
+    else:
+        # Not converged: everything else reflects the last proposal, so return its coefficients
+        coef = n_coef if n_coef is not None else coef
+
     # Final penalty
     if len(penalties) > 0:
         penalty = coef.T @ S_emb @ coef
@@ -4204,6 +4208,10 @@ def solve_gamm_sparse2(
 
         fit_info.iter += 1
 
+    else:
+        # Not converged: everything else reflects the last proposal, so return its coefficients
+        coef = n_coef if n_coef is not None else coef
+
     # Final penalty
     if len(penalties) > 0:
         penalty = coef.T @ S_emb @ coef
-- 
2.43.0


From 0deaf44b0e5eaf8bf51501734ce8c7d04f7af8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:36 +0000
Subject: [PATCH 46/70] fix: working residuals and scale must not include the
 offset twice

---
 src/mssm/src/python/gamm_solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 4054af5..e14617a 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1517,7 +1517,7 @@ def update_coef_and_scale(
     wres, InvCholXXS, total_edf, term_edfs, Bs, scale = update_scale_edf(
         y,
         z,
-        eta,
+        eta - offset,  # z does not include the offset
         Wr,
         rowsX,
         colsX,
@@ -2326,7 +2326,7 @@ def correct_lambda_step(
             wres, InvCholXXS, total_edf, term_edfs, Bs, scale = update_scale_edf(
                 y,
                 z,
-                eta,
+                eta - offset,  # z does not include the offset
                 Wr,
                 rowsX,
                 colsX,
@@ -3155,7 +3155,7 @@ def solve_gamm_sparse(
             Lrhoi is not None
         ):  # Need to return ar-corrected and "normal" working residuals
             wres2 = Wr @ (
-                z[inval == False] - eta[inval == False]  # noqa: E712
+                z[inval == False] - (eta - offset)[inval == False]  # noqa: E712
             ).reshape(-1, 1)
 
         if inval_check:
-- 
2.43.0


From 1bf61c493fedaa19bb1ace8760ef958291373f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:36 +0000
Subject: [PATCH 47/70] fix: a refit without rho or transform_X must not keep
 those of the previous fit

---
 src/mssm/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 8479360..286d68e 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3233,14 +3233,14 @@ class GAMM(GAMMLSS):
 
             # Optionally set up ar1 model
             Lrhoi = None
+            self.rho = rho
             if rho is not None:
-                self.rho = rho
                 Lrhoi, _ = computeAr1Chol(self.formulas[0], rho)
 
             # Apply any optional transformation of the model matrix.
+            self.transform_X = transform_X
             if transform_X is not None:
                 model_mat = transform_X(model_mat)
-                self.transform_X = transform_X
 
             # Now we have to estimate the model
             coef, eta, wres, Wr, WN, scale, LVI, edf, term_edf, penalty, fit_info = (
-- 
2.43.0


From cffb56b0ab8571d3f7334169c8fbfef8e9ecc0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:36 +0000
Subject: [PATCH 48/70] fix: a refit must not keep the bias corrected degrees
 of freedom of the previous fit

---
 src/mssm/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 286d68e..25a00dd 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -1203,6 +1203,8 @@ class GSMM:
         self.coef = coef
         self.edf = total_edf
         self.term_edf = term_edfs
+        self.edf1 = None  # Computed on demand, for the current fit
+        self.term_edf1 = None
         self.penalty = penalty
         self.coef_split_idx = coef_split_idx
         self.lvi = LV
@@ -2114,6 +2116,8 @@ class GAMMLSS(GSMM):
         self.res = wres
         self.edf = total_edf
         self.term_edf = term_edfs
+        self.edf1 = None  # Computed on demand, for the current fit
+        self.term_edf1 = None
         self.penalty = penalty
         self.coef_split_idx = coef_split_idx
         self.lvi = LV
@@ -3372,6 +3376,8 @@ class GAMM(GAMMLSS):
         self.res = wres
         self.edf = edf
         self.term_edf = term_edf
+        self.edf1 = None  # Computed on demand, for the current fit
+        self.term_edf1 = None
         self.penalty = penalty
         self.info = fit_info
         self.lvi = LVI
-- 
2.43.0


From a64b2fc657e69ebccb8a8c3db04c7b58b34718a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:40 +0000
Subject: [PATCH 49/70] fix: re-parameterized penalty of a term must include
 all its penalties when the dominant one has full rank

---
 src/mssm/src/python/repara.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/repara.py b/src/mssm/src/python/repara.py
index f8ee9cf..1bd433c 100644
--- a/src/mssm/src/python/repara.py
+++ b/src/mssm/src/python/repara.py
@@ -592,7 +592,9 @@ def reparam(
 
             if S_rep is None:  # Fix r==Q in first iteration
                 S_rep = SJbar[0] * LJgroup[0]
-                Q_rep = scp.sparse.eye(r, format="csc")
+                for j in range(1, len(SJbar)):
+                    S_rep += SJbar[j] * LJgroup[j]
+                Q_rep = scp.sparse.eye(normed_S.shape[1], format="csc")
 
             S_reps.append(scp.sparse.csc_array(S_rep))
 
-- 
2.43.0


From ccf00ad686ca04c139b3325537b916b8aed76340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:40 +0000
Subject: [PATCH 50/70] fix: count unpenalized coefficients of all predictors
 and repetitions in the REML score

---
 src/mssm/src/python/repara.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/repara.py b/src/mssm/src/python/repara.py
index 1bd433c..742427d 100644
--- a/src/mssm/src/python/repara.py
+++ b/src/mssm/src/python/repara.py
@@ -357,7 +357,7 @@ def reparam(
         eps = sys.float_info.epsilon**0.7
 
         # Number of un-penalized dimensions (Kernel space dimension of total S_\\lambda; Wood, 2011)
-        Mp = Sj_reps[0].start_index
+        Mp = n_coef
         for grp_idx, SJgroup, LJgroup in zip(SJ_term_idx, SJs, ljs):
 
             for rpidx in range(len(SJgroup)):
@@ -378,7 +378,7 @@ def reparam(
 
             Ur = U[:, D > max(D) * eps]
             r = Ur.shape[1]  # Range dimension
-            Mp += normed_S.shape[1] - r
+            Mp -= r * Sj_reps[grp_idx[0]].rep_sj
 
             # Initial re-parameterization as discussed by Wood (2011)
             if r < normed_S.shape[1]:
-- 
2.43.0


From 393d081a3e72d76554b7c986d491f01e09a8f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:40 +0000
Subject: [PATCH 51/70] fix: QR fallback of the REML score must account for the
 scale

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 39ed183..71421b1 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -2250,7 +2250,7 @@ def REML(
             warnings.warn(
                 "Cholesky for log-determinant to compute REML failed. Falling back on QR."
             )
-            R = np.linalg.qr(S_rep.toarray(), mode="r")
+            R = np.linalg.qr((S_rep / scale).toarray(), mode="r")
             ldetSI = (
                 np.log(np.abs(R.diagonal())).sum() * Sj_reps[SJ_term_idx[Si][0]].rep_sj
             )
-- 
2.43.0


From f6812854b7099fc63d53feb98cda99b8059cd8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:57 +0000
Subject: [PATCH 52/70] fix: REML of a candidate must account for the offset
 once

---
 src/mssm/src/python/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 71421b1..9605bc1 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1721,6 +1721,10 @@ def compute_reml_candidate_GAMM(
             eta, mu, coef, Pr, _, LP, keep, drop = update_coef(
                 y - offset, X, X, family, S_emb, S_root, n_c, None, 0
             )
+            # Add offset back to predictor, so that it can be compared to y
+            eta = eta + offset
+            mu = mu + offset
+
             nH = (X.T @ X).tocsc()
         else:
             # GAMM - have to repeat Newton step
@@ -1843,7 +1847,7 @@ def compute_reml_candidate_GAMM(
         _, _, edf, _, _, scale = update_scale_edf(
             y,
             z,
-            eta,
+            eta if z is None else eta - offset,  # z does not include the offset
             Wr,
             X.shape[0],
             X.shape[1],
-- 
2.43.0


From 9fd42d0b80406aca0608b843aa64510f1c26bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:50 +0000
Subject: [PATCH 53/70] fix: penalized log-likelihood of a GAMM must account
 for the scale

---
 src/mssm/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 25a00dd..25fd79b 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -2711,6 +2711,9 @@ class GAMM(GAMMLSS):
         pen = 0
         if penalized:
             pen = 0.5 * self.penalty
+            if self.family.twopar and self.preds is not None:
+                # Penalty applies to the deviance, i.e., is in units of the scale parameter
+                pen /= self.scale if ext_scale is None else ext_scale
         if self.preds is not None:
             mu = self.preds[0]
             if (
-- 
2.43.0


From ff7eec4a9405a0e7b299b20e3f2bf10208b94cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:29 +0000
Subject: [PATCH 54/70] fix: repetitions of a penalty must enter the Hessian of
 the REML score once

---
 src/mssm/src/python/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 9605bc1..05ddbd6 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -3235,7 +3235,6 @@ def compute_Vp_WPS(
                     -1
                     * penalties[peni].lam
                     * penalties[penj].lam
-                    * penalties[peni].rep_sj
                     * (
                         S_inv_rp
                         @ Sj_reps[penj].S_J_emb
@@ -3247,7 +3246,6 @@ def compute_Vp_WPS(
                 if gamma:
                     t3 += (
                         penalties[peni].lam
-                        * penalties[peni].rep_sj
                         * (S_inv_rp @ Sj_reps[peni].S_J_emb).trace()
                     )
 
-- 
2.43.0


From fc3a0f00682ad976231e20e177dd776b45881ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:41 +0000
Subject: [PATCH 55/70] fix: Hessian of the REML score must include all pairs
 of overlapping penalties

---
 src/mssm/src/python/utils.py | 40 +++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 05ddbd6..ccb9204 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -3227,29 +3227,27 @@ def compute_Vp_WPS(
                     @ coef
                 )
 
-            # Now derivative of the log-determinant of S_emb. Only defined if peni==penj or
-            # both are in the same group
-            t3 = 0
-            if gamma or (penalties[peni].start_index == penalties[penj].start_index):
-                t3 = (
-                    -1
-                    * penalties[peni].lam
-                    * penalties[penj].lam
-                    * (
-                        S_inv_rp
-                        @ Sj_reps[penj].S_J_emb
-                        @ S_inv_rp
-                        @ Sj_reps[peni].S_J_emb
-                    ).trace()
-                )
+            # Now derivative of the log-determinant of S_emb. Only non-zero if peni==penj or
+            # both penalize at least partially the same coefficients
+            t3 = (
+                -1
+                * penalties[peni].lam
+                * penalties[penj].lam
+                * (
+                    S_inv_rp
+                    @ Sj_reps[penj].S_J_emb
+                    @ S_inv_rp
+                    @ Sj_reps[peni].S_J_emb
+                ).trace()
+            )
 
-                if gamma:
-                    t3 += (
-                        penalties[peni].lam
-                        * (S_inv_rp @ Sj_reps[peni].S_J_emb).trace()
-                    )
+            if gamma:
+                t3 += (
+                    penalties[peni].lam
+                    * (S_inv_rp @ Sj_reps[peni].S_J_emb).trace()
+                )
 
-                t3 = 0.5 * t3
+            t3 = 0.5 * t3
 
             # Now second partial derivative of hessian of negative penalized likelihood with respect
             # to log(lambda) - assuming that H does not
-- 
2.43.0


From 04624ab2658243f8a000b176205f454bd0df3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:41 +0000
Subject: [PATCH 56/70] fix: re-computed scale of correct_VB must not include
 the offset twice

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index ccb9204..0afa28f 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4447,7 +4447,7 @@ def correct_VB(
                 _, _, _, _, _, scale = update_scale_edf(
                     y,
                     z,
-                    eta,
+                    eta if z is None else eta - model.offset,  # z excludes the offset
                     Wr,
                     X.shape[0],
                     X.shape[1],
-- 
2.43.0


From c39c7c2f0944a6867422a6d9832c339b7739e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:53 +0000
Subject: [PATCH 57/70] fix: bias correction must not change the uncertainty
 corrected degrees of freedom

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 0afa28f..d8424fd 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4734,7 +4734,7 @@ def correct_VB(
     # 2017)
     if form_t1:
         total_edf2 += total_edf - model.edf
-        edf2 += edf - ucF.diagonal()
+        edf2 = edf2 + edf - ucF.diagonal()  # Not in-place, edf might be edf2
 
     if verbose and grid_type != "JJJ1":
         print(f"Correction was based on {rGrid.shape[0]} samples in total.")
-- 
2.43.0


From 107a4670fdba757badf096e87daf73a20d83bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:47 +0000
Subject: [PATCH 58/70] fix: a single sample of a single smoothing parameter
 must be accepted

---
 src/mssm/src/python/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index d8424fd..08f05b6 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -2623,7 +2623,7 @@ def estimateVp(
         p_sample = scp.stats.multivariate_t.rvs(
             loc=np.ndarray.flatten(ep), shape=Vpr, df=df, size=n_est, random_state=seed
         )
-        p_sample = np.exp(p_sample)
+        p_sample = np.atleast_1d(np.exp(p_sample))
         p_sample[np.isinf(p_sample)] = b
 
         if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -2815,7 +2815,7 @@ def estimateVp(
         p_sample = scp.stats.multivariate_t.rvs(
             loc=np.ndarray.flatten(ep), shape=Vpr, df=df, size=n_est, random_state=seed
         )
-        p_sample = np.exp(p_sample)
+        p_sample = np.atleast_1d(np.exp(p_sample))
         p_sample[np.isinf(p_sample)] = b
 
         if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -4028,7 +4028,7 @@ def correct_VB(
                 size=n_est,
                 random_state=seed,
             )
-            p_sample = np.exp(p_sample)
+            p_sample = np.atleast_1d(np.exp(p_sample))
             p_sample[np.isinf(p_sample)] = b
 
             if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
@@ -4252,7 +4252,7 @@ def correct_VB(
                 size=n_est,
                 random_state=seed,
             )
-            p_sample = np.exp(p_sample)
+            p_sample = np.atleast_1d(np.exp(p_sample))
             p_sample[np.isinf(p_sample)] = b
 
             if len(np.ndarray.flatten(ep)) == 1:  # Single lambda parameter in model
-- 
2.43.0


From 2532a13b6553adb5ee74146a772d029e66953aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:14 +0000
Subject: [PATCH 59/70] fix: expected degrees of freedom must not depend on the
 number of cores

---
 src/mssm/src/python/utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 08f05b6..8c3d9df 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -4282,6 +4282,16 @@ def correct_VB(
                     axis=0,
                 )
 
+            # Candidate edf are based on the same Hessian as when parallelizing
+            origNH = None
+            if only_expected_edf:
+                if not isinstance(family, Gaussian) or not isinstance(
+                    family.link, Identity
+                ):
+                    origNH = -1 * model.hessian
+                elif method != "Chol":
+                    origNH = orig_scale
+
             for ps in p_sample:
                 for ridx, rc in enumerate(ps):
                     rPen[ridx].lam = rc
@@ -4297,6 +4307,7 @@ def correct_VB(
                             model.offset,
                             method=method,
                             compute_inv=True,
+                            origNH=origNH,
                         )
                     )
                     # coef = coef.reshape(-1,1)
@@ -4321,6 +4332,7 @@ def correct_VB(
                             n_c=n_c,
                             method=method,
                             bfgs_options=bfgs_options,
+                            origNH=origNH,
                             keep_drop=keep_drop,
                         )
                     except:  # noqa: E722
-- 
2.43.0


From 353536cc1fba91356ca66c0122511fc9cdb87d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 60/70] fix: p-values and summaries of smooth terms must use
 the coefficients and degrees of freedom of their term

---
 src/mssm/src/python/utils.py | 107 +++++++++++++++++------------------
 1 file changed, 53 insertions(+), 54 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 8c3d9df..6af3035 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -813,6 +813,50 @@ def print_parametric_terms(model, par: int = 0) -> None:
         print("\nNote: p < 0.001: ***, p < 0.01: **, p < 0.05: *, p < 0.1: .")
 
 
+def _collect_term_edf(model, par: int, term_edf: list[float]) -> list[float]:
+    """Collects estimated degrees of freedom of all smooth and random terms (in that order, one entry
+    per level of any ``by`` variable with separate penalties) of a formula. Un-penalized smooth terms
+    take up one degree of freedom per coefficient.
+
+    :param model: A GSMM, GAMMLSS, or GAMM model
+    :type model: GSMM | GAMMLSS | GAMM
+    :param par: The index of the formula.
+    :type par: int
+    :param term_edf: Term-wise degrees of freedom stored in the model (one per penalized block).
+    :type term_edf: list[float]
+    :return: List of degrees of freedom
+    :rtype: list[float]
+    """
+    form = model.formulas[par]
+    start = 0 if par == 0 else model.coef_split_idx[par - 1]
+
+    # edf are best computed on term-pecific penalties
+    block_edf = {}
+    prev_start_idx = -1
+    edf_idx = 0
+    for pen in split_shared_penalties(model.overall_penalties):
+        if pen.start_index > prev_start_idx:
+            if pen.dist_param == par:
+                block_edf[pen.start_index - start] = min(
+                    term_edf[edf_idx], pen.rep_sj * pen.S_J.shape[1]
+                )
+            prev_start_idx = pen.start_index
+            edf_idx += 1
+
+    edf = []
+    for ti in [*form.get_smooth_term_idx(), *form.get_random_term_idx()]:
+        term = form.terms[ti]
+        n_blocks = 1
+        by_levels = getattr(term, "by", None) is not None
+        if by_levels and (isinstance(term, rs) or term.id is None):
+            n_blocks = len(form.get_factor_levels()[term.by])
+
+        for block in np.split(form.coef_idx_per_term[ti], n_blocks):
+            edf.append(block_edf.get(int(block[0]), len(block)))
+
+    return edf
+
+
 def print_smooth_terms(
     model,
     par: int = 0,
@@ -863,7 +907,7 @@ def print_smooth_terms(
         if model.coef is None:
             term_edf = None
         else:
-            term_edf = model.term_edf
+            term_edf = _collect_term_edf(model, 0, model.term_edf)
     else:
         # GAMMLSS or GSMM case
         form = model.formulas[par]
@@ -872,23 +916,7 @@ def print_smooth_terms(
         if model.coef is None:
             term_edf = None
         else:
-            term_edf = []
-            prev_start_idx = -1
-            prev_edf_idx = 0
-            # edf are best computed on term-pecific penalties
-            penalties = split_shared_penalties(model.overall_penalties)
-            for pen in penalties:
-
-                if pen.dist_param > par:
-                    break
-
-                if pen.start_index > prev_start_idx:
-                    if pen.dist_param == par:
-                        term_edf.append(model.term_edf[prev_edf_idx])
-
-                    # Keep track of start idx (coef idx) and edf idx.
-                    prev_start_idx = pen.start_index
-                    prev_edf_idx += 1
+            term_edf = _collect_term_edf(model, par, model.term_edf)
 
     term_names = np.array(form.get_term_names())
     smooth_names = [
@@ -1188,7 +1216,9 @@ def approx_smooth_p_values(
         coef = model.coef.flatten()
         lvi = model.lvi
         scale = model.scale
-        term_edf = model.term_edf1 if edf1 else model.term_edf
+        term_edf = _collect_term_edf(
+            model, 0, model.term_edf1 if edf1 else model.term_edf
+        )
         rs_df = X.shape[0] - model.edf
 
     else:
@@ -1204,41 +1234,11 @@ def approx_smooth_p_values(
         coef = np.ndarray.flatten(split_coef[par])
         lvi = model.lvi[:, split_idx]
         scale = 1
-        term_edf = []
+        term_edf = _collect_term_edf(
+            model, par, model.term_edf1 if edf1 else model.term_edf
+        )
         rs_df = None
 
-        prev_start_idx = -1
-        prev_edf_idx = 0
-
-        # edf are best computed on term-pecific penalties
-        penalties = split_shared_penalties(model.overall_penalties)
-
-        for pen in penalties:
-            if pen.start_index > prev_start_idx:
-
-                if pen.dist_param > par:
-                    break
-
-                if pen.dist_param == par:  # Collect only those belonging to this par
-                    if edf1:
-                        term_edf.append(
-                            min(
-                                model.term_edf1[prev_edf_idx],
-                                pen.rep_sj * pen.S_J.shape[1],
-                            )
-                        )
-                    else:
-                        term_edf.append(
-                            min(
-                                model.term_edf[prev_edf_idx],
-                                pen.rep_sj * pen.S_J.shape[1],
-                            )
-                        )
-
-                # Keep track of start idx (coef idx) and edf idx.
-                prev_start_idx = pen.start_index
-                prev_edf_idx += 1
-
     terms = form.get_terms()
 
     # Find smooth terms in formula
@@ -1249,11 +1249,11 @@ def approx_smooth_p_values(
     Trs = []
 
     # Loop over smooth terms
-    start_coef = form.unpenalized_coef  # Start indexing V_b after un-penalized coef
     edf_idx = 0
     for sti in st_idx:
         if isinstance(terms[sti], fs) is False:
 
+            start_coef = int(form.coef_idx_per_term[sti][0])
             n_s_coef = form.coef_per_term[sti]
             enumerator = range(1)
             if not terms[sti].by is None and terms[sti].id is None:
@@ -1534,7 +1534,6 @@ def approx_smooth_p_values(
                 start_coef += n_s_coef
 
         else:  # Random smooth terms are fully penalized
-            start_coef += form.coef_per_term[sti]
             edf_idx += 1
 
     return ps, Trs
-- 
2.43.0


From eb9ca4b51285c1b303a7a276c8470ab6a7b9ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:21 +0000
Subject: [PATCH 61/70] fix: p-values of smooth terms must be computed for more
 than n_sel observations

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 6af3035..30c21f9 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1126,7 +1126,7 @@ def compute_bias_corrected_edf(model, overwrite: bool = False) -> None:
 def approx_smooth_p_values(
     model,
     par: int = 0,
-    n_sel: int = 1e5,
+    n_sel: int = 100000,
     edf1: bool = True,
     force_approx: bool = False,
     seed: int = 0,
-- 
2.43.0


From a255b1c9dc7d76f5e50346292bd82ee9305099ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:21 +0000
Subject: [PATCH 62/70] fix: test statistics of smooth terms must not depend on
 arbitrary signs of eigenvectors

---
 src/mssm/src/python/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 30c21f9..3c9bc1e 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1303,7 +1303,7 @@ def approx_smooth_p_values(
                             [1 / lam if lami < k else 0 for lami, lam in enumerate(s)]
                         )
 
-                        sign = np.sign(U[0, :])
+                        sign = np.where(U[0, :] < 0, -1, 1)
                         U *= sign
                         RVRI1 = U @ S @ U.T
 
@@ -1336,7 +1336,7 @@ def approx_smooth_p_values(
 
                         # Fix sign of Eigen-vectors to sign of first row
                         # (based on testStat function in mgcv)
-                        sign = np.sign(U[0, :])
+                        sign = np.where(U[0, :] < 0, -1, 1)
                         U *= sign
 
                         # Now we can reform the diagonal matrix needed for inverting RVR
@@ -1360,7 +1360,7 @@ def approx_smooth_p_values(
 
                         # Also compute inverse for alternative version of Eigen-vectors
                         # (see Wood, 2017):
-                        U *= sign
+                        U[:, k - 1] *= -1
                         RVRI2 = U @ S @ U.T
 
                         # And the test statistic defined in Wood (2012)
-- 
2.43.0


From c56e1afbf25bf40394825369279567154c6f7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:21 +0000
Subject: [PATCH 63/70] fix: p-values of smooth terms must not be negative

---
 src/mssm/src/python/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 3c9bc1e..93c0fc9 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1417,8 +1417,8 @@ def approx_smooth_p_values(
                                 len(n),
                                 20000,
                             )
-                            p1 = 1 - p1
-                            p2 = 1 - p2
+                            p1 = 1 - min(p1, 1)
+                            p2 = 1 - min(p2, 1)
 
                             # Since this approximates an F statistic we need to adjust Tr
                             # (see below):
-- 
2.43.0


From d3e3d5592fc79b071a381d24844ee08dd83e0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:21 +0000
Subject: [PATCH 64/70] fix: compare_CDL must pass on bfgs_options

---
 src/mssm/src/python/compare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/compare.py b/src/mssm/src/python/compare.py
index 1f882cc..3e61623 100644
--- a/src/mssm/src/python/compare.py
+++ b/src/mssm/src/python/compare.py
@@ -417,7 +417,7 @@ def compare_CDL(
             recompute_H=recompute_H,
             compute_Vcc=compute_Vcc,
             seed=seed,
-            **bfgs_options,
+            bfgs_options=bfgs_options,
         )
         _, _, _, _, _, DOF2, _, DOF22, expected_edf2, _ = correct_VB(
             model2,
@@ -438,7 +438,7 @@ def compare_CDL(
             recompute_H=recompute_H,
             compute_Vcc=compute_Vcc,
             seed=seed,
-            **bfgs_options,
+            bfgs_options=bfgs_options,
         )
 
         if only_expected_edf:
-- 
2.43.0


From 405cdb2869bcc213cf0444c42049a6926444e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:21 +0000
Subject: [PATCH 65/70] fix: compare_CDL must count extra parameters estimated
 by the second model only

---
 src/mssm/src/python/compare.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/compare.py b/src/mssm/src/python/compare.py
index 3e61623..13380e0 100644
--- a/src/mssm/src/python/compare.py
+++ b/src/mssm/src/python/compare.py
@@ -495,14 +495,17 @@ def compare_CDL(
             aic_DOF2 += 1
 
     # ... and theta parameters
-    if isinstance(model1.family, ExtendedFamily) and model1.family.est_theta:
-        DOF1 += len(model1.family.theta)
+    if isinstance(model1.family, ExtendedFamily):
+        if model1.family.est_theta:
+            DOF1 += len(model1.family.theta)
 
         if model2.family.est_theta:
             DOF2 += len(model2.family.theta)
 
         if aic_DOF1 is not None:
-            aic_DOF1 += len(model1.family.theta)
+            if model1.family.est_theta:
+                aic_DOF1 += len(model1.family.theta)
+
             if model2.family.est_theta:
                 aic_DOF2 += len(model2.family.theta)
 
-- 
2.43.0


From 68f9c2c58c4f43be5fb473ba88256927635e81ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:21 +0000
Subject: [PATCH 66/70] fix: weights of chi-squared variables must be ordered
 completely

---
 src/mssm/src/cpp/davies.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/davies.cpp b/src/mssm/src/cpp/davies.cpp
index 3f0052d..4fc09cc 100644
--- a/src/mssm/src/cpp/davies.cpp
+++ b/src/mssm/src/cpp/davies.cpp
@@ -80,7 +80,7 @@ double log1(double x, bool first)
             {
                 skipk = true;
                 break;
-            } break;
+            }
          }
          if ( ! skipk ) {
             k = -1;
-- 
2.43.0


From 435e4a201d944fe73b3cf73a04e501db82f50ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:57 +0000
Subject: [PATCH 67/70] fix: dropping coefficients of models with extra
 coefficients must keep those apart

---
 src/mssm/src/python/gamm_solvers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index e14617a..7541288 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -6622,8 +6622,9 @@ def check_drop_valid_gensmooth(
     # ... from Xs...
     rXs, rcoef_split_idx = drop_terms_X(Xs, keep)
 
-    # Deal with any extra coefficients when checking for the drop
-    if family.extra_coef is not None:
+    # Deal with any extra coefficients when checking for the drop (a single matrix already ends
+    # at the first split)
+    if family.extra_coef is not None and len(rXs) > 1:
         rcoef_split_idx.append(rXs[-1].shape[1] + rcoef_split_idx[-1])
 
     # ... and from S_emb
@@ -6817,7 +6818,9 @@ def handle_drop_gsmm(
 
     # ... from Xs...
     rXs, rcoef_split_idx = drop_terms_X(Xs, keep)
-    # print(rXs)
+    # Deal with any extra coefficients (a single matrix already ends at the first split)
+    if family.extra_coef is not None and len(rXs) > 1:
+        rcoef_split_idx.append(rXs[-1].shape[1] + rcoef_split_idx[-1])
 
     # ... and from S_emb
     rS_emb = S_emb[keep, :]
-- 
2.43.0


From 135b2c7a20579c96870cb3834a89bbe63d7e6738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:28 +0000
Subject: [PATCH 68/70] fix: coefficients returned after a single inner step
 must match predictor and weights

---
 src/mssm/src/python/gamm_solvers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 7541288..1d5f32f 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -2221,7 +2221,7 @@ def correct_lambda_step(
 
             # If coef. are updated to convergence, we have to check first iter against
             # incoming/old coef but under current penalty! (see Wood et al., 2017)
-            eta, mu, n_coef, _, _, _, keep, drop = update_coef(
+            eta, mu, n_coef, Pr, P, LP, keep, drop = update_coef(
                 yb, X, Xb, family, S_emb, S_root, n_c, None, offset
             )
 
@@ -2279,9 +2279,12 @@ def correct_lambda_step(
                 )
 
                 # Convergence check for inner loop
+                if i_iter == max_inner - 2:
+                    break
+
                 if i_iter > 0:
                     dev_diff_inner = abs(pen_dev - c_dev_prev)
-                    if dev_diff_inner < 1e-9 * pen_dev or i_iter == max_inner - 2:
+                    if dev_diff_inner < 1e-9 * pen_dev:
                         break
 
                 c_dev_prev = pen_dev
-- 
2.43.0


From dad58566fdbb736f445b9c4af85271dd94c01fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:38 +0000
Subject: [PATCH 69/70] fix: unidentifiable coefficients are no degrees of
 freedom of an unpenalized multi-parameter model

---
 src/mssm/src/python/gamm_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 1d5f32f..7057e3a 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -6441,7 +6441,7 @@ def solve_gammlss_sparse(
         term_edfs = calculate_term_edf(gamlss_pen, term_edfs)
     else:
         term_edfs = None
-        total_edf = n_coef
+        total_edf = n_coef if drop is None else n_coef - len(drop)
 
     return (
         coef,
@@ -9616,7 +9616,7 @@ def solve_generalSmooth_sparse(
         term_edfs = calculate_term_edf(smooth_pen, term_edfs)
     else:
         term_edfs = None
-        total_edf = n_coef
+        total_edf = n_coef if drop is None else n_coef - len(drop)
 
     LV_linop = None
     if method == "qEFS":
-- 
2.43.0


From 0c920f7590cd89ca5377078e346ffe53e86ad0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:39 +0000
Subject: [PATCH 70/70] fix: smoothing parameters of a fit that did not
 converge must be those of its coefficients

---
 src/mssm/src/python/gamm_solvers.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 7057e3a..b6c7dfa 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -6391,9 +6391,11 @@ def solve_gammlss_sparse(
         prev_lam = copy.deepcopy([lterm.lam for lterm in gamlss_pen])  # noqa: F841
         # prev_coef = copy.deepcopy(coef)
         # print("lambda before step:",[lterm.lam for lterm in gamlss_pen])
-        # And ultimately apply new proposed lambda step
-        for lti, lTerm in enumerate(gamlss_pen):
-            lTerm.lam += lam_delta[lti]
+        # And ultimately apply new proposed lambda step - unless there is no iteration left to
+        # update the coefficients for it
+        if outer < max_outer - 1:
+            for lti, lTerm in enumerate(gamlss_pen):
+                lTerm.lam += lam_delta[lti]
 
         # At this point we have:
         # 1) Estimated coef given lambda
@@ -9595,9 +9597,11 @@ def solve_generalSmooth_sparse(
 
         # print("lambda before step:",[lterm.lam for lterm in smooth_pen])
 
-        # And ultimately apply new proposed lambda step
-        for lti, lTerm in enumerate(smooth_pen):
-            lTerm.lam += lam_delta[lti]
+        # And ultimately apply new proposed lambda step - unless there is no iteration left to
+        # update the coefficients for it
+        if outer < max_outer - 1:
+            for lti, lTerm in enumerate(smooth_pen):
+                lTerm.lam += lam_delta[lti]
 
         # At this point we have:
         # 1) Estimated coef given lambda
-- 
2.43.0

