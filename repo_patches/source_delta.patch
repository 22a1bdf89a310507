From c17c0d417015484c9cce1053d3b72a6a84917525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:06 +0000
Subject: [PATCH 01/46] fix: VAR/VARMA bootstrap must resample the residuals of
 the original fit

The residuals were re-read from the model after every bootstrap refit, so
iteration k resampled residuals of iteration k-1 instead of those of the
model fitted to the given data.
---
 lingam/var_lingam.py   | 3 ++-
 lingam/varma_lingam.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 6883b9b..28233fa 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -145,6 +145,7 @@ class VARLiNGAM:
         self.fit(X)
 
         fitted_ar_coefs = self._ar_coefs
+        fitted_residuals = self._residuals
 
         total_effects = np.zeros(
             [n_sampling, n_features, n_features * (1 + self._lags)]
@@ -152,7 +153,7 @@ class VARLiNGAM:
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 687700c..293b19f 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -169,12 +169,13 @@ class VARMALiNGAM:
 
         fitted_ar_coefs = self._ar_coefs
         fitted_ma_coefs = self._ma_coefs
+        fitted_residuals = self._residuals
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
-- 
2.43.0


From c3a21d9d23a01d9a5992eda9cfe7c1ca8325ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:02 +0000
Subject: [PATCH 02/46] fix: VAR/VARMA refit must not reuse coefficients
 estimated by a previous fit

fit() overwrote the user-supplied settings (ar_coefs, ma_coefs, lags, order)
with its own estimates, so a second fit() or a bootstrap() on the same object
skipped the estimation and used the coefficients of the earlier data.
---
 lingam/var_lingam.py   | 26 +++++++++-----------------
 lingam/varma_lingam.py | 32 ++++++++++++--------------------
 2 files changed, 21 insertions(+), 37 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 28233fa..d812030 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -105,8 +105,8 @@ class VARLiNGAM:
         if self._prune:
             B_taus = self._pruning(X, B_taus, model.causal_order_)
 
-        self._ar_coefs = M_taus
-        self._lags = lags
+        self._fitted_ar_coefs = M_taus
+        self._fitted_lags = lags
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -135,21 +135,16 @@ class VARLiNGAM:
         n_samples = X.shape[0]
         n_features = X.shape[1]
 
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        lags = self._lags
-
         criterion = self._criterion
         self._criterion = None
 
         self.fit(X)
 
-        fitted_ar_coefs = self._ar_coefs
+        lags = self._fitted_lags
+        fitted_ar_coefs = self._fitted_ar_coefs
         fitted_residuals = self._residuals
 
-        total_effects = np.zeros(
-            [n_sampling, n_features, n_features * (1 + self._lags)]
-        )
+        total_effects = np.zeros([n_sampling, n_features, n_features * (1 + lags)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
@@ -167,10 +162,6 @@ class VARLiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j]
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._lags = lags
-
             self.fit(resampled_X)
             am = np.concatenate([*self._adjacency_matrices], axis=1)
             adjacency_matrices.append(am)
@@ -184,7 +175,7 @@ class VARLiNGAM:
                     )
 
                 # time t-tau
-                for lag in range(self._lags):
+                for lag in range(lags):
                     for from_ in range(n_features):
                         total_effects[
                             i, to, from_ + n_features * (lag + 1)
@@ -227,8 +218,9 @@ class VARLiNGAM:
                 )
 
         # X + lagged X
-        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + self._lags + from_lag)))
-        for p in range(1 + self._lags + from_lag):
+        lags = self._fitted_lags
+        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + lags + from_lag)))
+        for p in range(1 + lags + from_lag):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 293b19f..2d3e975 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -126,9 +126,9 @@ class VARMALiNGAM:
             ).T
             psis, omegas = self._pruning(X, ee, order, model.causal_order_)
 
-        self._ar_coefs = phis
-        self._ma_coefs = thetas
-        self._order = order
+        self._fitted_ar_coefs = phis
+        self._fitted_ma_coefs = thetas
+        self._fitted_order = order
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -156,19 +156,14 @@ class VARMALiNGAM:
 
         n_samples = X.shape[0]
         n_features = X.shape[1]
-        (p, q) = self._order
-
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        ma_coefs = self._ma_coefs
-
         criterion = self._criterion
         self._criterion = None
 
         self.fit(X)
 
-        fitted_ar_coefs = self._ar_coefs
-        fitted_ma_coefs = self._ma_coefs
+        (p, q) = self._fitted_order
+        fitted_ar_coefs = self._fitted_ar_coefs
+        fitted_ma_coefs = self._fitted_ma_coefs
         fitted_residuals = self._residuals
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
@@ -193,10 +188,6 @@ class VARMALiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j] + ma
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._ma_coefs = ma_coefs
-
             self.fit(resampled_X)
 
             psi = self._adjacency_matrices[0]
@@ -221,7 +212,7 @@ class VARMALiNGAM:
 
         self._criterion = criterion
 
-        return VARMABootstrapResult(adjacency_matrices, total_effects, self._order)
+        return VARMABootstrapResult(adjacency_matrices, total_effects, (p, q))
 
     def estimate_total_effect(self, X, E, from_index, to_index, from_lag=0):
         """Estimate total effect using causal model.
@@ -259,16 +250,17 @@ class VARMALiNGAM:
                 )
 
         # X + lagged X
+        order = self._fitted_order
         X_joined = np.zeros(
-            (X.shape[0], X.shape[1] * (1 + from_lag + self._order[0] + self._order[1]))
+            (X.shape[0], X.shape[1] * (1 + from_lag + order[0] + order[1]))
         )
 
-        for p in range(1 + self._order[0]):
+        for p in range(1 + order[0]):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
-        for q in range(self._order[1]):
-            pos = n_features * (1 + self._order[0]) + n_features * q
+        for q in range(order[1]):
+            pos = n_features * (1 + order[0]) + n_features * q
             X_joined[:, pos : pos + n_features] = np.roll(
                 E[:, 0:n_features], q + 1, axis=0
             )
-- 
2.43.0


From ed076a5de8a2a1415cf03b18ad861329753b5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:02 +0000
Subject: [PATCH 03/46] fix: VARLiNGAM pruning must regress on the lags of the
 fitted model

The lasso regression used the maximum number of lags even when the criterion
(or ar_coefs) selected another number, so the reported coefficients belonged
to a regression on terms that are not part of the model (or failed).
---
 lingam/var_lingam.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index d812030..d520f15 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -360,18 +360,19 @@ class VARLiNGAM:
     def _pruning(self, X, B_taus, causal_order):
         """Prune edges"""
         n_features = X.shape[1]
+        lags = len(B_taus) - 1
 
         stacked = [np.flip(X, axis=0)]
-        for i in range(self._lags):
+        for i in range(lags):
             stacked.append(np.roll(stacked[-1], -1, axis=0))
-        blocks = np.array(list(zip(*stacked)))[: -self._lags]
+        blocks = np.array(list(zip(*stacked)))[:-lags]
 
         for i in range(n_features):
             causal_order_no = causal_order.index(i)
             ancestor_indexes = causal_order[:causal_order_no]
 
             obj = np.zeros((len(blocks)))
-            exp = np.zeros((len(blocks), causal_order_no + n_features * self._lags))
+            exp = np.zeros((len(blocks), causal_order_no + n_features * lags))
             for j, block in enumerate(blocks):
                 obj[j] = block[0][i]
                 exp[j:] = np.concatenate(
-- 
2.43.0


From 62f38b6656a41e82c50994c1eb412b9f874ad6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:50 +0000
Subject: [PATCH 04/46] fix: total effects of lagged variables in VAR/VARMA
 must follow all directed paths

estimate_total_effect2() ignored every path through another lagged variable
and, in VARMALiNGAM, the value of from_lag beyond 1; VARMALiNGAM's
estimate_total_effect() likewise looked up the source and its parents in the
wrong columns for from_lag > 0. Unroll the model in time as get_paths() does.
---
 lingam/var_lingam.py   | 28 +++++++++++++++++--------
 lingam/varma_lingam.py | 47 ++++++++++++++++++++++++++----------------
 2 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index d520f15..e20f670 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -14,7 +14,7 @@ from .base import _BaseLiNGAM
 from .bootstrap import BootstrapResult
 from .direct_lingam import DirectLiNGAM
 from .hsic import hsic_test_gamma
-from .utils import predict_adaptive_lasso, find_all_paths, calculate_total_effect
+from .utils import predict_adaptive_lasso, find_all_paths
 
 
 class VARLiNGAM:
@@ -268,16 +268,26 @@ class VARLiNGAM:
                     f"is earlier than the source variable (from_index={from_index})."
                 )
 
-        # from_index + parents indices
-        am = np.concatenate([*self._adjacency_matrices], axis=1)
-        am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
-        from_index = (
-            from_index if from_lag == 0 else from_index + (n_features * from_lag)
-        )
+        # unroll the lagged effects in time
+        n_blocks = len(self._adjacency_matrices)
+        if not 0 <= from_lag < n_blocks:
+            raise ValueError("from_lag must be between 0 and the number of lags.")
+        if from_lag == 0 and from_index == to_index:
+            raise ValueError("from_index and to_index mustn't be the same.")
+        am = np.zeros((n_features * n_blocks, n_features * n_blocks))
+        for i in range(n_blocks):
+            for j in range(i, n_blocks):
+                row = n_features * i
+                col = n_features * j
+                am[row : row + n_features, col : col + n_features] = np.nan_to_num(
+                    self._adjacency_matrices[j - i]
+                )
+        from_index = from_index + n_features * from_lag
 
-        effect = calculate_total_effect(am, from_index, to_index)
+        # sum of the effects of all directed paths
+        effects = np.linalg.inv(np.eye(len(am)) - am)
 
-        return effect
+        return effects[to_index, from_index]
 
     def get_error_independence_p_values(self):
         """Calculate the p-value matrix of independence between error variables.
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 2d3e975..cce11bb 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -15,7 +15,7 @@ from .base import _BaseLiNGAM
 from .bootstrap import BootstrapResult
 from .direct_lingam import DirectLiNGAM
 from .hsic import hsic_test_gamma
-from .utils import predict_adaptive_lasso, find_all_paths, calculate_total_effect
+from .utils import predict_adaptive_lasso, find_all_paths
 
 
 class VARMALiNGAM:
@@ -251,16 +251,16 @@ class VARMALiNGAM:
 
         # X + lagged X
         order = self._fitted_order
-        X_joined = np.zeros(
-            (X.shape[0], X.shape[1] * (1 + from_lag + order[0] + order[1]))
-        )
+        n_x = n_features * (1 + from_lag + order[0])
+        n_e = n_features * (from_lag + order[1])
+        X_joined = np.zeros((X.shape[0], n_x + n_e))
 
-        for p in range(1 + order[0]):
+        for p in range(1 + from_lag + order[0]):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
-        for q in range(order[1]):
-            pos = n_features * (1 + order[0]) + n_features * q
+        for q in range(from_lag + order[1]):
+            pos = n_x + n_features * q
             X_joined[:, pos : pos + n_features] = np.roll(
                 E[:, 0:n_features], q + 1, axis=0
             )
@@ -272,8 +272,10 @@ class VARMALiNGAM:
 
         # from_index + parents indices
         parents = np.where(np.abs(am[from_index]) > 0)[0]
-        from_index = from_index if from_lag == 0 else from_index + n_features
-        parents = parents if from_lag == 0 else parents + n_features
+        n_psi = n_features * (1 + order[0])
+        parents = np.where(parents < n_psi, parents, parents - n_psi + n_x)
+        from_index = from_index + n_features * from_lag
+        parents = parents + n_features * from_lag
         predictors = [from_index]
         predictors.extend(parents)
 
@@ -311,18 +313,27 @@ class VARMALiNGAM:
                     f"is earlier than the source variable (from_index={from_index})."
                 )
 
-        # concat psi and omega
+        # unroll the lagged effects in time
         psi = self._adjacency_matrices[0]
-        am = np.concatenate([*psi], axis=1)
-        am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
-
-        # from_index + parents indices
-        from_index = from_index if from_lag == 0 else from_index + n_features
+        n_blocks = len(psi)
+        if not 0 <= from_lag < n_blocks:
+            raise ValueError("from_lag must be between 0 and the number of lags.")
+        if from_lag == 0 and from_index == to_index:
+            raise ValueError("from_index and to_index mustn't be the same.")
+        am = np.zeros((n_features * n_blocks, n_features * n_blocks))
+        for i in range(n_blocks):
+            for j in range(i, n_blocks):
+                row = n_features * i
+                col = n_features * j
+                am[row : row + n_features, col : col + n_features] = np.nan_to_num(
+                    psi[j - i]
+                )
+        from_index = from_index + n_features * from_lag
 
-        # Estimate total effect
-        effect = calculate_total_effect(am, from_index, to_index)
+        # sum of the effects of all directed paths
+        effects = np.linalg.inv(np.eye(len(am)) - am)
 
-        return effect
+        return effects[to_index, from_index]
 
     def get_error_independence_p_values(self):
         """Calculate the p-value matrix of independence between error variables.
-- 
2.43.0


From 659ac1a8479e7ee991d67834a74602ce0682b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:50 +0000
Subject: [PATCH 05/46] fix: VARMALiNGAM must apply the inverse when computing
 unpruned omegas

The third positional argument of np.dot is 'out', so the inverse was
overwritten instead of multiplied.
---
 lingam/varma_lingam.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index cce11bb..64f6fc3 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -423,10 +423,12 @@ class VARMALiNGAM:
 
         omegas = []
         for j in range(order[1]):
-            omega = np.dot(
-                np.eye(psi0.shape[0]) - psi0,
-                thetas[j],
-                np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
+            omega = np.linalg.multi_dot(
+                [
+                    np.eye(psi0.shape[0]) - psi0,
+                    thetas[j],
+                    np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
+                ]
             )
             omegas.append(omega)
 
-- 
2.43.0


From a0de76f8165cf2632dc160a0e30cec832637fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:50 +0000
Subject: [PATCH 06/46] fix: VARMALiNGAM with given coefficients must align X
 with the residuals

The residuals computed from given ar_coefs and ma_coefs are max(p, q) rows
shorter than X, so pruning failed with a shape mismatch.
---
 lingam/varma_lingam.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 64f6fc3..114f3d4 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -124,7 +124,10 @@ class VARMALiNGAM:
                 np.eye(model.adjacency_matrix_.shape[0]) - model.adjacency_matrix_,
                 residuals.T,
             ).T
-            psis, omegas = self._pruning(X, ee, order, model.causal_order_)
+            # residuals start at max(p, q) if the coefficients are given
+            psis, omegas = self._pruning(
+                X[len(X) - len(ee) :], ee, order, model.causal_order_
+            )
 
         self._fitted_ar_coefs = phis
         self._fitted_ma_coefs = thetas
-- 
2.43.0


From 07f732832b7c2d3ab1e4a25d8647d70acd3098eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:11 +0000
Subject: [PATCH 07/46] fix: LongitudinalLiNGAM must return lagged matrices in
 the documented order

With n_lags >= 2 adjacency_matrices_[t] was (B(t,t), B(t,t-n_lags), ..., B(t,t-1)),
while the documentation, estimate_total_effect*() and get_paths() all take
index tau to be B(t,t-tau).
---
 lingam/longitudinal_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 8a697c9..4b8be01 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -168,7 +168,6 @@ class LongitudinalLiNGAM:
                 for lag in range(n_taus):
                     adjs[t, lag] = adj[t, t - lag]
             adjs[:self._n_lags] = np.nan
-            adjs[:, 1:] = adjs[:, 1:][:, ::-1]
 
             # make causal_orders
             causal_orders = []
@@ -410,7 +409,8 @@ class LongitudinalLiNGAM:
         X_t = np.array(X_t)
 
         for t in range(self._n_lags, self._T):
-            X = np.vstack(X_t[t - self._n_lags:t])
+            # X(t-1), X(t-2), ..., X(t-n_lags)
+            X = np.vstack(X_t[t - self._n_lags:t][::-1])
             y = X_t[t]
 
             reg = LinearRegression()
-- 
2.43.0


From 5888e2a72231dd45be787205c6de2b7ce3eb7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:32 +0000
Subject: [PATCH 08/46] fix: LongitudinalLiNGAM with n_lags >= 2 must skip time
 points without estimates

bootstrap() with the default start_from_t raised TypeError on the nan causal
order of t < n_lags, and get_error_independence_p_values() tested nan data.
---
 lingam/longitudinal_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 4b8be01..678a14b 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -239,7 +239,7 @@ class LongitudinalLiNGAM:
             adjacency_matrices[i] = self._adjacency_matrices
 
             # Calculate total effects
-            for from_t in range(start_from_t, self._T):
+            for from_t in range(max(start_from_t, self._n_lags), self._T):
                 for c, from_ in enumerate(self._causal_orders[from_t]):
                     to_t = from_t
                     for to in self._causal_orders[from_t][c + 1 :]:
@@ -386,7 +386,7 @@ class LongitudinalLiNGAM:
 
         p_values_list = np.zeros([self._T, self._p, self._p])
         p_values_list[:, :, :] = np.nan
-        for t in range(1, self._T):
+        for t in range(self._n_lags, self._T):
             p_values = np.zeros([self._p, self._p])
             for i, j in itertools.combinations(range(self._p), 2):
                 _, p_value = hsic_test_gamma(
-- 
2.43.0


From be7754b478ac5f66c0879b292aadf5faeda1f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:32 +0000
Subject: [PATCH 09/46] fix: integer input must not truncate intermediate
 residuals

DirectLiNGAM, MultiGroupDirectLiNGAM, RCD, MultiGroupRCD, CAMUV,
MultiGroupCAMUV, extract_ancestors and remove_effect wrote regression
residuals into arrays of the dtype of the input, so integer data gave other
results than the same data stored as float.
---
 lingam/camuv.py                     | 2 +-
 lingam/direct_lingam.py             | 2 +-
 lingam/multi_group_camuv.py         | 2 +-
 lingam/multi_group_direct_lingam.py | 2 +-
 lingam/multi_group_rcd.py           | 2 +-
 lingam/rcd.py                       | 2 +-
 lingam/utils/__init__.py            | 2 +-
 lingam/utils/_rcd.py                | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lingam/camuv.py b/lingam/camuv.py
index 89a683f..e63d08d 100644
--- a/lingam/camuv.py
+++ b/lingam/camuv.py
@@ -172,7 +172,7 @@ class CAMUV:
         d = X.shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y = copy.deepcopy(X)
+        Y = X.astype(np.float64)
 
         while True:
             changed = False
diff --git a/lingam/direct_lingam.py b/lingam/direct_lingam.py
index 7987bcb..fda1024 100644
--- a/lingam/direct_lingam.py
+++ b/lingam/direct_lingam.py
@@ -90,7 +90,7 @@ class DirectLiNGAM(_BaseLiNGAM):
         # Causal discovery
         U = np.arange(n_features)
         K = []
-        X_ = np.copy(X)
+        X_ = X.astype(np.float64)
         if self._measure == "kernel":
             X_ = scale(X_)
 
diff --git a/lingam/multi_group_camuv.py b/lingam/multi_group_camuv.py
index 5ae2d23..391f35b 100644
--- a/lingam/multi_group_camuv.py
+++ b/lingam/multi_group_camuv.py
@@ -215,7 +215,7 @@ class MultiGroupCAMUV:
         d = X_list[0].shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y_list = [copy.deepcopy(X) for X in X_list]
+        Y_list = [X.astype(np.float64) for X in X_list]
 
         while True:
             changed = False
diff --git a/lingam/multi_group_direct_lingam.py b/lingam/multi_group_direct_lingam.py
index 89c1032..a1a6469 100644
--- a/lingam/multi_group_direct_lingam.py
+++ b/lingam/multi_group_direct_lingam.py
@@ -80,7 +80,7 @@ class MultiGroupDirectLiNGAM(DirectLiNGAM):
         # Causal discovery
         U = np.arange(self._n_features)
         K = []
-        X_list_ = [np.copy(X) for X in X_list]
+        X_list_ = [X.astype(np.float64) for X in X_list]
         for _ in range(self._n_features):
             m = self._search_causal_order(X_list_, U)
             for i in U:
diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 3e1537a..1c9cb6e 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -346,7 +346,7 @@ class MultiGroupRCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros(X.shape)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/rcd.py b/lingam/rcd.py
index c772d38..94fce9e 100644
--- a/lingam/rcd.py
+++ b/lingam/rcd.py
@@ -146,7 +146,7 @@ class RCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros(X.shape)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 6be6c0c..91e6cab 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -206,7 +206,7 @@ def remove_effect(X, remove_features, return_coefs=False):
         The order of the coefficients in the list is the same
         as in remove_features. Only provided if return_coefs is True.
     """
-    X = np.copy(check_array(X))
+    X = check_array(X).astype(np.float64)
     coefs = {}
     features_ = [i for i in np.arange(X.shape[1]) if i not in remove_features]
     for feature in features_:
diff --git a/lingam/utils/_rcd.py b/lingam/utils/_rcd.py
index 0f221a7..6bee84d 100644
--- a/lingam/utils/_rcd.py
+++ b/lingam/utils/_rcd.py
@@ -127,7 +127,7 @@ def get_residual_matrix(X, U, H_U):
     if len(H_U) == 0:
         return X
 
-    Y = np.zeros_like(X)
+    Y = np.zeros(X.shape)
     for xj in U:
         Y[:, xj], _ = get_resid_and_coef(X, xj, list(H_U))
     return Y
-- 
2.43.0


From aae09e82f9105dbf0ea8bcd3cf67509a6a86b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:32 +0000
Subject: [PATCH 10/46] fix: MultiGroupRCD with fcorr must use the maximum
 F-correlation over datasets

Only the value of the last dataset was compared with the threshold, so the
result depended on the order of the datasets.
---
 lingam/multi_group_rcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 1c9cb6e..ca6cef8 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -411,7 +411,7 @@ class MultiGroupRCD:
                 if f_corr > max_f_corr:
                     max_f_corr = f_corr
 
-            is_independent = f_corr < self._ind_corr
+            is_independent = max_f_corr < self._ind_corr
 
         return is_independent
 
-- 
2.43.0


From f4242879c22c73b9b375f779b58acd1bef89b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:43 +0000
Subject: [PATCH 11/46] fix: optimal intervention must not treat variables with
 cancelling coefficients as roots

A variable whose incoming coefficients summed to zero was taken for a root, so
the intervention was not propagated through it.
---
 lingam/causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_effect.py b/lingam/causal_effect.py
index 70b08e2..0c9c710 100644
--- a/lingam/causal_effect.py
+++ b/lingam/causal_effect.py
@@ -223,7 +223,7 @@ class CausalEffect(object):
         En = Ex - np.dot(self._B, Ex)
 
         s = [i for i in range(X.shape[1]) if i != intervention_index]
-        root_vars = np.where(np.sum(self._B, axis=1) == 0)[0].tolist()
+        root_vars = np.where(np.sum(np.abs(self._B), axis=1) == 0)[0].tolist()
         s = [i for i in s if i not in root_vars]
         alpha = np.zeros(self._B.shape[1])
 
-- 
2.43.0


From 4bafe868e76f1f4319663c78746d20368e75092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:43 +0000
Subject: [PATCH 12/46] fix: distance from root nodes must not treat cancelling
 coefficients as no parents

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 91e6cab..651a205 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -1047,7 +1047,7 @@ def calculate_distance_from_root_nodes(adjacency_matrix, max_distance=None):
 
     # find root nodes
     root_indices = np.argwhere(
-        np.isclose(np.sum(adjacency_matrix, axis=1), 0) == True
+        np.isclose(np.sum(np.abs(adjacency_matrix), axis=1), 0) == True
     ).flatten()
     if len(root_indices) == 0:
         raise ValueError("adjacency_matrix has no root nodes.")
-- 
2.43.0


From 2f05b6f0d8faff0c3051fca78a8c786b0ba66639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:33 +0000
Subject: [PATCH 13/46] fix: BottomUpParceLiNGAM must reject when every
 dependence p-value underflows to 0

If all Fisher statistics were infinite no candidate was recorded and the
evaluation value stayed at inf, which counts as 'not rejected': the most
dependent data were reported as a fully known causal order.
---
 lingam/bottom_up_parce_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index 8fdfa57..b387b68 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -258,7 +258,7 @@ class BottomUpParceLiNGAM:
                     )
 
                     # Update output
-                    if fisher_stat < max_p_stat:
+                    if len(exo_vec) == 0 or fisher_stat < max_p_stat:
                         exo_vec = xi_index
                         eval = fisher_p
                         max_p_stat = fisher_stat
-- 
2.43.0


From 3c324accd140dc322fe175f6feb1c46e900da81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:02 +0000
Subject: [PATCH 14/46] fix: visualize_nonlinear_causal_effect must adjust for
 every parent of the cause

Only parents whose coefficient was exactly 1 were used as covariates, so the
adjacency matrices of the linear models were treated as having no parents.
---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 3fb1266..402ffd5 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -201,7 +201,7 @@ def _calculate(
 
     for m, sub_index in zip(adj_matrices, index_list):
         # parents of cause except effect
-        covariate = np.where(m[cause_index, :] == 1)[0].tolist()
+        covariate = np.where(np.abs(m[cause_index, :]) > 0)[0].tolist()
         covariate = np.delete(covariate, np.argwhere(covariate == effect_index))
 
         # train
-- 
2.43.0


From c53e29ab9ebd7a14645793384c45d325c817c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:02 +0000
Subject: [PATCH 15/46] fix: visualize_nonlinear_causal_effect must address
 rows by position

X.index was passed to iloc, which fails or picks other rows for a data frame
without the default index; for bootstrap results without resampled indices
only the first adjacency matrix was used.
---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 402ffd5..71dd64f 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -117,11 +117,11 @@ def visualize_nonlinear_causal_effect(
         adj_matrices = cd_result.adjacency_matrices_
         index_list = cd_result.resampled_indices_
         if index_list is None:
-            index_list = [X.index]
+            index_list = [np.arange(len(X))] * len(adj_matrices)
         disable_percentile = False
     else:
         adj_matrices = [cd_result]
-        index_list = [X.index]
+        index_list = [np.arange(len(X))]
         disable_percentile = True
 
     effect_info = _calculate(
-- 
2.43.0


From 0a6857e1e43e56e500593470b5e60011e3db9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:36 +0000
Subject: [PATCH 16/46] fix: make_dot and print_* must accept array-like labels

---
 lingam/utils/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 651a205..7e958cd 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -62,7 +62,7 @@ def print_causal_directions(cdc, n_sampling, labels=None):
     """
     for i, (fr, to, co) in enumerate(zip(cdc["from"], cdc["to"], cdc["count"])):
         sign = "" if "sign" not in cdc else "(b>0)" if cdc["sign"][i] > 0 else "(b<0)"
-        if labels:
+        if labels is not None:
             print(f"{labels[to]} <--- {labels[fr]} {sign} ({100*co/n_sampling:.1f}%)")
         else:
             print(f"x{to} <--- x{fr} {sign} ({100*co/n_sampling:.1f}%)")
@@ -88,7 +88,7 @@ def print_dagc(dagc, n_sampling, labels=None):
             sign = (
                 "" if "sign" not in dag else "(b>0)" if dag["sign"][j] > 0 else "(b<0)"
             )
-            if labels:
+            if labels is not None:
                 print("\t" + f"{labels[to]} <--- {labels[fr]} {sign}")
             else:
                 print("\t" + f"x{to} <--- x{fr} {sign}")
@@ -340,7 +340,7 @@ def make_dot(
     d = graphviz.Digraph(engine="dot")
 
     # nodes
-    names = labels if labels else [f"x{i}" for i in range(len(B))]
+    names = labels if labels is not None else [f"x{i}" for i in range(len(B))]
     for name in names:
         kwargs = {}
         if path is not None:
-- 
2.43.0


From b44a2917010535dcd4ff8cc0aef536e2282e7e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:10 +0000
Subject: [PATCH 17/46] fix: LiM refit must start from the configured loss type

---
 lingam/lim.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index e25e9db..81eeddd 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -93,24 +93,26 @@ class LiM:
     def _estimate_LiM(self, X, dis_con, only_global, is_poisson):
         """Estimate the adjacency matrix btw. mixed variables"""
 
+        loss_type = self._loss_type
+
         def _loss(W):
             """Evaluate value and gradient of loss."""
             M = X @ W
-            if self._loss_type == "logistic":
+            if loss_type == "logistic":
                 loss = 1.0 / X.shape[0] * (np.logaddexp(0, M) - X * M).sum()
                 G_loss = 1.0 / X.shape[0] * X.T @ (sigmoid(M) - X)
-            elif self._loss_type == "poisson":
+            elif loss_type == "poisson":
                 loss = -np.sum(X.T @ M) + np.exp(M).sum()
                 for j in range(X.shape[0]):
                     for k in range(X.shape[1]):
                         loss += np.log(_factorial(X[j][k]))
                 loss = 1.0 / X.shape[0] * loss
                 G_loss = 1.0 / X.shape[0] * (-X.T @ X + X.T @ np.exp(M))
-            elif self._loss_type == "laplace":
+            elif loss_type == "laplace":
                 R = X - M
                 loss = -1.0 / X.shape[0] * np.sum(-np.log(np.cosh(R)))
                 G_loss = 1.0 / X.shape[0] * X.T @ np.tanh(R)
-            elif self._loss_type == "mixed":
+            elif loss_type == "mixed":
                 R = X - M
                 a1, a2 = 1, 1
                 loss_dis = (
@@ -129,7 +131,7 @@ class LiM:
                 G_dis = X.T @ (sigmoid(M) - X) * W_dis
                 G_con = -X.T @ np.tanh(R) * W_con
                 G_loss = 1.0 / X.shape[0] * (G_dis + G_con)
-            elif self._loss_type == "mixed_dag":
+            elif loss_type == "mixed_dag":
                 dag = nx.DiGraph(W)
                 lingam_data = np.transpose(X)
                 df = pd.DataFrame(X)
@@ -290,7 +292,7 @@ class LiM:
             for j in range(d)
         ]
 
-        # if self._loss_type == 'l2':
+        # if loss_type == 'l2':
         #     X = X - np.mean(X, axis=0, keepdims=True)
         for _ in range(self._max_iter):
             w_new, h_new = None, None
@@ -322,7 +324,7 @@ class LiM:
         print("W_est (without the 2nd phase) is: \n", W_est)
 
         if not only_global:
-            self._loss_type = "mixed_dag"
+            loss_type = "mixed_dag"
             aa, aaa = _loss(W_est)  # loss
             I = np.where(W_est != 0)
             # check directions
-- 
2.43.0


From eff576a958e05c25cbb2735a785fcd95ef45567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:10 +0000
Subject: [PATCH 18/46] fix: make_dot_highlight must colour the nodes of the
 highlighted path

---
 lingam/utils/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 7e958cd..6f3354f 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -666,9 +666,9 @@ def make_dot_highlight(
             for i, node in enumerate(nodes):
                 node_id = get_node_id(cls_name, node)
                 pos_x = hmargin * i + offset_x
-                kwargs = {}
+                kwargs = {"color": color}
                 if path is not None:
-                    if node in path_nodes:
+                    if node_names[node] in path_nodes:
                         kwargs["fontcolor"] = path_color
                         kwargs["color"] = path_color
                     if node == path_start or node == path_end:
@@ -677,7 +677,6 @@ def make_dot_highlight(
                     node_id,
                     node_names[node],
                     pos=f"{pos_x},{pos_y}!",
-                    color=color,
                     **kwargs,
                 )
                 node_ids[node].append((node_id, dist))
-- 
2.43.0


From c41195fbf10a5ca2a818e46bb38c96e4826dd57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:22 +0000
Subject: [PATCH 19/46] fix: make_dot_highlight must not draw an isolated
 target twice

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 6f3354f..f6bd5cf 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -555,7 +555,7 @@ def make_dot_highlight(
     # node indices
     dsc_indices = set(dsc_path_length.keys())
     anc_indices = set(anc_path_length.keys())
-    isolate_indices = set(nx.isolates(G))
+    isolate_indices = set(nx.isolates(G)) - set([node_index])
     other_indices = (
         set(np.arange(adj.shape[0]))
         - dsc_indices
-- 
2.43.0


From 83433278f1190c949c09fdda21bbeb3e9d35a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:16 +0000
Subject: [PATCH 20/46] fix: make_prior_knowledge must not ignore index arrays

---
 lingam/utils/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index f6bd5cf..1f69fc5 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -126,16 +126,16 @@ def make_prior_knowledge(
         Return matrix of prior knowledge used for causal discovery.
     """
     prior_knowledge = np.full((n_variables, n_variables), -1)
-    if no_paths:
+    if no_paths is not None:
         for no_path in no_paths:
             prior_knowledge[no_path[1], no_path[0]] = 0
-    if paths:
+    if paths is not None:
         for path in paths:
             prior_knowledge[path[1], path[0]] = 1
-    if sink_variables:
+    if sink_variables is not None:
         for var in sink_variables:
             prior_knowledge[:, var] = 0
-    if exogenous_variables:
+    if exogenous_variables is not None:
         for var in exogenous_variables:
             prior_knowledge[var, :] = 0
     np.fill_diagonal(prior_knowledge, -1)
-- 
2.43.0


From 10e7c964d23523876cb4aa0b65d2cb60d28c9f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:48 +0000
Subject: [PATCH 21/46] fix: RESIT must test residuals against all preceding
 variables when removing edges

---
 lingam/resit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/resit.py b/lingam/resit.py
index f84be41..5d15797 100644
--- a/lingam/resit.py
+++ b/lingam/resit.py
@@ -130,7 +130,7 @@ class RESIT(_BaseLiNGAM):
                 self._reg.fit(X[:, predictors], X[:, pi[k]])
                 residual = X[:, pi[k]] - self._reg.predict(X[:, predictors])
                 # Measure dependence between residuals and {Xi}
-                _, hsic_p = hsic_test_gamma(residual, X[:, predictors])
+                _, hsic_p = hsic_test_gamma(residual, X[:, pi[:k]])
                 # eliminate edge
                 if hsic_p > self._alpha:
                     pa[pi[k]].remove(l)
-- 
2.43.0


From 8b7eacc339a970e0f88ff3dc8591fe09e384a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:51 +0000
Subject: [PATCH 22/46] fix: RESIT must also test the last remaining edge of a
 variable

---
 lingam/resit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lingam/resit.py b/lingam/resit.py
index 5d15797..42010dd 100644
--- a/lingam/resit.py
+++ b/lingam/resit.py
@@ -124,11 +124,11 @@ class RESIT(_BaseLiNGAM):
             for l in parents:
                 # Regress Xk on {Xi}
                 predictors = [i for i in pa[pi[k]] if i != l]
-                # if len(predictors) <= 1:
                 if len(predictors) < 1:
-                    continue
-                self._reg.fit(X[:, predictors], X[:, pi[k]])
-                residual = X[:, pi[k]] - self._reg.predict(X[:, predictors])
+                    residual = X[:, pi[k]]
+                else:
+                    self._reg.fit(X[:, predictors], X[:, pi[k]])
+                    residual = X[:, pi[k]] - self._reg.predict(X[:, predictors])
                 # Measure dependence between residuals and {Xi}
                 _, hsic_p = hsic_test_gamma(residual, X[:, pi[:k]])
                 # eliminate edge
-- 
2.43.0


From 2b7671c05a221de937a112c825e86b7398a1b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:57 +0000
Subject: [PATCH 23/46] fix: BottomUpParceLiNGAM with prior knowledge must
 regress on all remaining variables

---
 lingam/bottom_up_parce_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index b387b68..5c4a361 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -245,7 +245,7 @@ class BottomUpParceLiNGAM:
         else:
             max_p_stat = np.inf
             for j in range(len(Uc)):
-                xi_index = np.setdiff1d(Uc, Uc[j])
+                xi_index = np.setdiff1d(U, Uc[j])
                 xj_index = np.array([Uc[j]])
 
                 # Compute residuals
-- 
2.43.0


From 39dad18786fd2c9190bd0ba7100f2515abe34d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:38 +0000
Subject: [PATCH 24/46] fix: find_all_paths must report a cycle through the
 start variable

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 1f69fc5..7e50a29 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -824,7 +824,7 @@ def find_all_paths(dag, from_index, to_index, min_causal_effect=0.0):
     # DFS
     paths = []
     stack = [from_index]
-    stack_to_indice = [to_indices[from_index]]
+    stack_to_indice = [to_indices[from_index].copy()]
     while stack:
         if len(stack) > dag.shape[0]:
             raise ValueError(
-- 
2.43.0


From c2d97386c32ac0cc36277daf44451d231ce44574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 25/46] fix: CausalDataGenerator without adjustments must be
 able to generate

---
 lingam/experimental/cdg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index db4efbe..627ed17 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -213,7 +213,7 @@ class CausalDataGenerator:
                 generated[self._cause] = predicted
                 if self._X[self._cause].dtype == "category":
                     generated[self._cause] = pd.Categorical(generated[self._cause])
-            else:
+            elif self.model_cause_ is not None:
                 if self._X[self._cause].dtype != "category":
                     predicted = self.model_cause_.predict(generated[self._adjustments])
                     generated[self._cause] += np.array(predicted)
-- 
2.43.0


From e24312a58ec42bd1df2ac068df4c586df05c9064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:27 +0000
Subject: [PATCH 26/46] fix: LiM laplace loss must use the gradient of its loss

---
 lingam/lim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index 81eeddd..dc0f708 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -111,7 +111,7 @@ class LiM:
             elif loss_type == "laplace":
                 R = X - M
                 loss = -1.0 / X.shape[0] * np.sum(-np.log(np.cosh(R)))
-                G_loss = 1.0 / X.shape[0] * X.T @ np.tanh(R)
+                G_loss = -1.0 / X.shape[0] * X.T @ np.tanh(R)
             elif loss_type == "mixed":
                 R = X - M
                 a1, a2 = 1, 1
-- 
2.43.0


From bea7f45a1251879e62ce2c59ff5a9cf606b9cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:00 +0000
Subject: [PATCH 27/46] fix: LiM Poisson scores must be log-likelihoods over
 all parents and accept large counts

---
 lingam/lim.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index dc0f708..ca17f7a 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -10,6 +10,7 @@ import numpy as np
 import pandas as pd
 import scipy.optimize as sopt
 from scipy.special import expit as sigmoid
+from scipy.special import gammaln
 from sklearn.linear_model import (LinearRegression, LogisticRegression,
                                   PoissonRegressor)
 from sklearn.metrics import log_loss
@@ -102,10 +103,8 @@ class LiM:
                 loss = 1.0 / X.shape[0] * (np.logaddexp(0, M) - X * M).sum()
                 G_loss = 1.0 / X.shape[0] * X.T @ (sigmoid(M) - X)
             elif loss_type == "poisson":
-                loss = -np.sum(X.T @ M) + np.exp(M).sum()
-                for j in range(X.shape[0]):
-                    for k in range(X.shape[1]):
-                        loss += np.log(_factorial(X[j][k]))
+                loss = -np.sum(X * M) + np.exp(M).sum()
+                loss += np.sum(_log_factorial(X))
                 loss = 1.0 / X.shape[0] * loss
                 G_loss = 1.0 / X.shape[0] * (-X.T @ X + X.T @ np.exp(M))
             elif loss_type == "laplace":
@@ -200,19 +199,14 @@ class LiM:
 
                     elif parents_i:
                         # Count variable, likelihood using poisson regression model.
-                        for iii in range(len(parents_i)):
-                            X = lingam_data[parents_i[iii]]
-                            X = X.reshape(-1, 1)
-                            y = lingam_data[i]
-                            poisson = PoissonRegressor()
-                            poisson.fit(X, y)
-                            beta = poisson.coef_
-                            # compute likelihood
-                            likekihood_poisson = -np.sum(
-                                y * lingam_data[parents_i[iii]] * beta
-                            ) + np.sum(np.exp(lingam_data[parents_i[iii]] * beta))
-                            for j in range(len(y)):
-                                likekihood_poisson += np.log(_factorial(y[j]))
+                        X = df[parents_i]
+                        y = df[i]
+                        poisson = PoissonRegressor()
+                        poisson.fit(X, y)
+                        eta = X.values @ poisson.coef_ + poisson.intercept_
+                        likekihood_poisson = np.sum(
+                            y.values * eta - np.exp(eta) - _log_factorial(y.values)
+                        )
                         total_score += likekihood_poisson
                         # # or we can compute likelihood via nn
                         # pnllloss = nn.PoissonNLLLoss()
@@ -270,13 +264,8 @@ class LiM:
             )
             return obj, g_obj
 
-        def _factorial(y):
-            if not isinstance(y, int):
-                y = round(y)
-            if y == 0 or y == 1 or y < 0:
-                return 1
-            else:
-                return y * _factorial(y - 1)
+        def _log_factorial(y):
+            return gammaln(np.maximum(np.round(y), 0) + 1)
 
         n, d = X.shape
         w_est, rho, alpha, h = (
-- 
2.43.0


From 989858388266d25014e9ba36c631b961cb5271c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:59 +0000
Subject: [PATCH 28/46] fix: evaluate_model_fit must not round the coefficients

They were written with six decimals, so that the fit indices depended on the
units of the variables.
---
 lingam/utils/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 7e50a29..72425bb 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -986,7 +986,9 @@ def evaluate_model_fit(adjacency_matrix, X, is_ordinal=None):
                 if eta_name not in eta_names:
                     eta_names.append(eta_name)
             elif not np.isclose(elem, 0):
-                desc += f"{elem:f} * x{j:d} + "
+                # semopy does not parse scientific notation
+                coef = np.format_float_positional(elem, trim="0")
+                desc += f"{coef} * x{j:d} + "
         desc = desc[: -len(" * ")] + "\n"
 
     if len(eta_names) > 0:
-- 
2.43.0


From c88542c58d72574b5a40bd968abbea3a7a742118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:23 +0000
Subject: [PATCH 29/46] fix: evaluate_model_fit must fit hidden common causes

Latent variables declared through regressions made semopy loop forever when a
confounded variable has no children, and otherwise their loadings stayed at the
starting value 0. They are now specified as measurement models.
---
 lingam/utils/__init__.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 72425bb..dd6c4d4 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -970,29 +970,28 @@ def evaluate_model_fit(adjacency_matrix, X, is_ordinal=None):
 
     # build desc
     desc = ""
-    eta_names = []
+    eta_pairs = []
 
     for i, row in enumerate(adj):
-        # exogenous
-        if np.sum(np.isnan(row)) == 0 and np.sum(np.isclose(row, 0)) == row.shape[0]:
-            continue
-
-        desc += f"x{i:d} ~ "
+        terms = []
 
         for j, elem in enumerate(row):
             if np.isnan(elem):
-                eta_name = f"eta_{i}_{j}" if i < j else f"eta_{j}_{i}"
-                desc += f"{eta_name} + "
-                if eta_name not in eta_names:
-                    eta_names.append(eta_name)
+                # hidden common cause
+                pair = (min(i, j), max(i, j))
+                if pair not in eta_pairs:
+                    eta_pairs.append(pair)
             elif not np.isclose(elem, 0):
                 # semopy does not parse scientific notation
                 coef = np.format_float_positional(elem, trim="0")
-                desc += f"{coef} * x{j:d} + "
-        desc = desc[: -len(" * ")] + "\n"
+                terms.append(f"{coef} * x{j:d}")
+
+        # not exogenous
+        if len(terms) > 0:
+            desc += f"x{i:d} ~ " + " + ".join(terms) + "\n"
 
-    if len(eta_names) > 0:
-        desc += "DEFINE(latent) " + " ".join(eta_names) + "\n"
+    for i, j in eta_pairs:
+        desc += f"eta_{i}_{j} =~ x{i:d} + x{j:d}\n"
 
     if sum(is_ordinal) > 0:
         indices = np.argwhere(is_ordinal).flatten()
-- 
2.43.0


From 868d82bf095d4d7c7efb6ffd9cd4ba61476205aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:27 +0000
Subject: [PATCH 30/46] fix: visualize_nonlinear_causal_effect must accept the
 documented percentile tuple

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 71dd64f..f3e074d 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -86,8 +86,8 @@ def visualize_nonlinear_causal_effect(
             raise TypeError("cause_positions must not include None.")
 
     if percentile is not None:
-        if not isinstance(percentile, list) or len(percentile) != 3:
-            raise TypeError("percentile must be a list of 3 floats.")
+        if not isinstance(percentile, (list, tuple)) or len(percentile) != 3:
+            raise TypeError("percentile must be a list or tuple of 3 floats.")
         if not all(map(lambda x: 0 <= x and x <= 100, percentile)):
             raise TypeError(
                 "Elements of percentile must be between 0 and 100 inclusive."
-- 
2.43.0


From 3d64a3782d91907f287305c2b4a8abd6a165c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:28 +0000
Subject: [PATCH 31/46] fix: visualize_nonlinear_causal_effect must accept
 array-like adjacency matrices

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index f3e074d..5757bee 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -120,7 +120,7 @@ def visualize_nonlinear_causal_effect(
             index_list = [np.arange(len(X))] * len(adj_matrices)
         disable_percentile = False
     else:
-        adj_matrices = [cd_result]
+        adj_matrices = [check_array(cd_result)]
         index_list = [np.arange(len(X))]
         disable_percentile = True
 
@@ -159,7 +159,7 @@ def _is_bootstrap_result(cd_result):
 
 
 def _is_adjacency_matrix(cd_result, col_num):
-    check_array(cd_result)
+    cd_result = check_array(cd_result)
 
     if cd_result.shape[0] != col_num or cd_result.shape[1] != col_num:
         return False
-- 
2.43.0


From 611104e6071911bda36188f94538679c9af28810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:49 +0000
Subject: [PATCH 32/46] fix: HighDimDirectLiNGAM must minimise over all
 conditioning sets

The statistics were returned after the first conditioning set.
---
 lingam/high_dim_direct_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/high_dim_direct_lingam.py b/lingam/high_dim_direct_lingam.py
index 2251888..1adbffa 100644
--- a/lingam/high_dim_direct_lingam.py
+++ b/lingam/high_dim_direct_lingam.py
@@ -141,7 +141,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
                     - resid_k * (1.0 / n) * np.dot(resid.T, self._Y[:, an_sets[z, i]])
                 ret[an_sets[z, i]] = np.min([ret[an_sets[z, i]], abs(value)])
 
-            return ret
+        return ret
 
     def _get_prune_stats(self, i, j, K, last_root, condition_set, J):
         j = list(set(j) - {i})
-- 
2.43.0


From ad9cdbb6f134fdaa3dbc8903bb99a17fbc9b0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:49 +0000
Subject: [PATCH 33/46] fix: HighDimDirectLiNGAM must not depend on the means
 of the variables

---
 lingam/high_dim_direct_lingam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lingam/high_dim_direct_lingam.py b/lingam/high_dim_direct_lingam.py
index 1adbffa..b25e1fd 100644
--- a/lingam/high_dim_direct_lingam.py
+++ b/lingam/high_dim_direct_lingam.py
@@ -63,6 +63,9 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
 
         self._Y = check_array(X)
 
+        # the statistics assume zero means
+        self._Y = self._Y - np.mean(self._Y, axis=0)
+
         self._yty = self._Y.T @ self._Y
 
         cut_off = 0
-- 
2.43.0


From 7185b3f7021b4246063697e8b1484df9e41eacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:22 +0000
Subject: [PATCH 34/46] fix: HighDimDirectLiNGAM must not cap its statistics at
 1e5

Statistics grow with the sixth power of the scale (K=4); once all of them
exceeded the initial value, the order of the columns decided.
---
 lingam/high_dim_direct_lingam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lingam/high_dim_direct_lingam.py b/lingam/high_dim_direct_lingam.py
index b25e1fd..131a5fa 100644
--- a/lingam/high_dim_direct_lingam.py
+++ b/lingam/high_dim_direct_lingam.py
@@ -75,7 +75,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
 
         psi = list(range(p))
 
-        prune_stats = np.full((p, p), 1e5)
+        prune_stats = np.full((p, p), np.inf)
         np.fill_diagonal(prune_stats, 0)
 
         while len(psi) > 1:
@@ -122,7 +122,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
     def _calc_taus(self, pa, ch, k, cond_sets, an_sets):
         n = self._Y.shape[0]
         ret = np.empty(self._Y.shape[1])
-        ret.fill(1e10)
+        ret.fill(np.inf)
 
         for z in range(len(cond_sets)):
             cond = cond_sets[z]
@@ -149,7 +149,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
     def _get_prune_stats(self, i, j, K, last_root, condition_set, J):
         j = list(set(j) - {i})
         p = self._Y.shape[1]
-        prune_stat = np.array([1e5 for _ in range(p)])
+        prune_stat = np.full(p, np.inf)
 
         if last_root is None:
             prune_stat[j] = [self._calc_tau(K, self._Y[:, i], self._Y[:, j_]) for j_ in j]
-- 
2.43.0


From 5686d66a1eb721f346847b7f4bb303653740dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:58 +0000
Subject: [PATCH 35/46] fix: distances from root nodes must not treat tiny
 coefficients as no parents

---
 lingam/utils/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index dd6c4d4..8d00b50 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -1046,9 +1046,7 @@ def calculate_distance_from_root_nodes(adjacency_matrix, max_distance=None):
     adjacency_matrix = np.nan_to_num(adjacency_matrix)
 
     # find root nodes
-    root_indices = np.argwhere(
-        np.isclose(np.sum(np.abs(adjacency_matrix), axis=1), 0) == True
-    ).flatten()
+    root_indices = np.argwhere(np.all(adjacency_matrix == 0, axis=1)).flatten()
     if len(root_indices) == 0:
         raise ValueError("adjacency_matrix has no root nodes.")
 
-- 
2.43.0


From b55cb3bf4be326492b5b66e15b8a3ac0947fb29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:49 +0000
Subject: [PATCH 36/46] fix: MultiGroupRCD total effects of confounded
 variables must be NaN per dataset

---
 lingam/multi_group_rcd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index ca6cef8..bf42648 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -166,7 +166,8 @@ class MultiGroupRCD:
                     f"The estimated causal effect may be incorrect because "
                     f"the source variable (from_index={from_index}) is influenced by confounders."
                 )
-                return effects
+                effects.append(np.nan)
+                continue
 
             # from_index + parents indices
             parents = np.where(np.abs(am[from_index]) > 0)[0]
@@ -212,7 +213,8 @@ class MultiGroupRCD:
                     f"The estimated causal effect may be incorrect because "
                     f"the source variable (from_index={from_index}) is influenced by confounders."
                 )
-                return effects
+                effects.append(np.nan)
+                continue
 
             effect = calculate_total_effect(am, from_index, to_index)
             effects.append(effect)
-- 
2.43.0


From bd60ac90dc561eaba8ff5d5054c98b51cf3e73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:03 +0000
Subject: [PATCH 37/46] fix: the simulator accepts changing_exog values given
 as lists

The values were validated with check_array and then used unconverted, so a
list passed the check and failed later with AttributeError.
---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index eb0bb68..c58f43f 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -221,7 +221,7 @@ class CausalBasedSimulator:
             if s.shape[0] != n_samples:
                 raise RuntimeError(f"Wrong length. ({s.shape[0]} != {n_samples})")
 
-            changing_exog_[var_name] = values
+            changing_exog_[var_name] = s
 
         return changing_exog_
 
-- 
2.43.0


From df2875d1c9f9777b3055d1f77b499ceecf0942c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:03 +0000
Subject: [PATCH 38/46] fix: lagged simulation of data frames whose column
 names are not strings

Only the non-lagged implementation converted the names; the lagged one
raised TypeError when it appended the time index.
---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index c58f43f..795cb73 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -734,7 +734,7 @@ class CBSITimeSeriesLiNGAM(CBSILiNGAM):
         n_features = X.shape[1]
 
         if isinstance(X, pd.DataFrame):
-            endog_names_ = X.columns.tolist()
+            endog_names_ = [str(endog_name) for endog_name in X.columns]
         else:
             endog_names_ = [f"{i:d}" for i in range(n_features)]
 
-- 
2.43.0


From 3a40b902404568b08cffa9c0a4c814f6be5b6b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:49 +0000
Subject: [PATCH 39/46] fix: lagged simulation treats is_discrete given as an
 array like a list

Multiplying a boolean array by the number of lags turned the flags into
positions, so other variables than the flagged ones became discrete.
---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index 795cb73..3494cd0 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -750,7 +750,7 @@ class CBSITimeSeriesLiNGAM(CBSILiNGAM):
             is_discrete = [False for _ in range(n_features)]
             is_discrete *= self._n_lags + 1
         else:
-            is_discrete = is_discrete * (self._n_lags + 1)
+            is_discrete = list(is_discrete) * (self._n_lags + 1)
 
         discrete_endog_names = np.array(endog_names)[is_discrete].tolist()
 
-- 
2.43.0


From 02baed519195157dd45f7f8653b20baf70bc01fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:27 +0000
Subject: [PATCH 40/46] fix: VAR/VARMA bootstrap must keep the criterion when
 it fails

---
 lingam/var_lingam.py   | 13 ++++++++-----
 lingam/varma_lingam.py | 12 ++++++++----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index e20f670..88f4321 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -132,11 +132,16 @@ class VARLiNGAM:
         """
         X = check_array(X)
 
-        n_samples = X.shape[0]
-        n_features = X.shape[1]
-
         criterion = self._criterion
         self._criterion = None
+        try:
+            return self._bootstrap(X, n_sampling)
+        finally:
+            self._criterion = criterion
+
+    def _bootstrap(self, X, n_sampling):
+        n_samples = X.shape[0]
+        n_features = X.shape[1]
 
         self.fit(X)
 
@@ -181,8 +186,6 @@ class VARLiNGAM:
                             i, to, from_ + n_features * (lag + 1)
                         ] = self.estimate_total_effect2(n_features, from_, to, lag + 1)
 
-        self._criterion = criterion
-
         return VARBootstrapResult(adjacency_matrices, total_effects)
 
     def estimate_total_effect(self, X, from_index, to_index, from_lag=0):
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 114f3d4..3ae3a74 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -157,10 +157,16 @@ class VARMALiNGAM:
         """
         X = check_array(X)
 
-        n_samples = X.shape[0]
-        n_features = X.shape[1]
         criterion = self._criterion
         self._criterion = None
+        try:
+            return self._bootstrap(X, n_sampling)
+        finally:
+            self._criterion = criterion
+
+    def _bootstrap(self, X, n_sampling):
+        n_samples = X.shape[0]
+        n_features = X.shape[1]
 
         self.fit(X)
 
@@ -213,8 +219,6 @@ class VARMALiNGAM:
                             self.estimate_total_effect2(n_features, from_, to, lag + 1)
                         )
 
-        self._criterion = criterion
-
         return VARMABootstrapResult(adjacency_matrices, total_effects, (p, q))
 
     def estimate_total_effect(self, X, E, from_index, to_index, from_lag=0):
-- 
2.43.0


From 8b6c609ea76ddb22c08a12b4ed72071ea3d64ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:51 +0000
Subject: [PATCH 41/46] fix: time-series and longitudinal bootstraps must
 reject invalid numbers of samples

---
 lingam/longitudinal_lingam.py | 6 ++++++
 lingam/var_lingam.py          | 7 +++++++
 lingam/varma_lingam.py        | 7 +++++++
 3 files changed, 20 insertions(+)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 678a14b..3a7a03d 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -224,6 +224,12 @@ class LongitudinalLiNGAM:
                 raise ValueError("X_list must be a list with the same shape")
             X_t.append(X)
 
+        if isinstance(n_sampling, (numbers.Integral, np.integer)):
+            if not 0 < n_sampling:
+                raise ValueError("n_sampling must be an integer greater than 0.")
+        else:
+            raise ValueError("n_sampling must be an integer greater than 0.")
+
         # Bootstrapping
         adjacency_matrices = np.zeros(
             (n_sampling, self._T, 1 + self._n_lags, self._p, self._p)
diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 88f4321..83b6e04 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -3,6 +3,7 @@ Python implementation of the LiNGAM algorithms.
 The LiNGAM Project: https://sites.google.com/view/sshimizu06/lingam
 """
 import itertools
+import numbers
 import warnings
 
 import numpy as np
@@ -132,6 +133,12 @@ class VARLiNGAM:
         """
         X = check_array(X)
 
+        if isinstance(n_sampling, (numbers.Integral, np.integer)):
+            if not 0 < n_sampling:
+                raise ValueError("n_sampling must be an integer greater than 0.")
+        else:
+            raise ValueError("n_sampling must be an integer greater than 0.")
+
         criterion = self._criterion
         self._criterion = None
         try:
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 3ae3a74..4ea8c8d 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -4,6 +4,7 @@ The LiNGAM Project: https://sites.google.com/view/sshimizu06/lingam
 """
 
 import itertools
+import numbers
 import warnings
 
 import numpy as np
@@ -157,6 +158,12 @@ class VARMALiNGAM:
         """
         X = check_array(X)
 
+        if isinstance(n_sampling, (numbers.Integral, np.integer)):
+            if not 0 < n_sampling:
+                raise ValueError("n_sampling must be an integer greater than 0.")
+        else:
+            raise ValueError("n_sampling must be an integer greater than 0.")
+
         criterion = self._criterion
         self._criterion = None
         try:
-- 
2.43.0


From 46ae3a28c3f22e11e235e844be7d4920d3495df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:45 +0000
Subject: [PATCH 42/46] fix: a rejected LongitudinalLiNGAM call must not change
 the sizes of the fitted model

---
 lingam/longitudinal_lingam.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 3a7a03d..d5a09a5 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -79,17 +79,22 @@ class LongitudinalLiNGAM:
         if len(X_list) < 2:
             raise ValueError("X_list must be a list containing at least two items")
 
-        self._T = len(X_list)
-        self._n = check_array(X_list[0]).shape[0]
-        self._p = check_array(X_list[0]).shape[1]
+        T = len(X_list)
+        n, p = check_array(X_list[0]).shape
         X_t = []
         for X in X_list:
             X = check_array(X)
-            if X.shape != (self._n, self._p):
+            if X.shape != (n, p):
                 raise ValueError("X_list must be a list with the same shape")
             X_t.append(X.T)
 
         n_taus = self._n_lags + 1
+        if self._Aknw is not None and (T, n_taus, p, p) != self._Aknw.shape:
+            raise ValueError(
+                "The shape of prior knowledge must be (T, n_lags + 1, n_features, n_features)"
+            )
+
+        self._T, self._n, self._p = T, n, p
 
         if self._Aknw is None:
             M_tau, N_t = self._compute_residuals(X_t)
@@ -112,11 +117,6 @@ class LongitudinalLiNGAM:
                 self._residuals[t] = N_t[t].T
             self._causal_orders = causal_orders
         else:
-            if (self._T, n_taus, self._p, self._p) != self._Aknw.shape:
-                raise ValueError(
-                    "The shape of prior knowledge must be (T, n_lags + 1, n_features, n_features)"
-                )
-
             X_t = np.vstack(X_t)
 
             # estimate only instantaneous and lag effects
@@ -214,13 +214,12 @@ class LongitudinalLiNGAM:
         if len(X_list) < 2:
             raise ValueError("X_list must be a list containing at least two items")
 
-        self._T = len(X_list)
-        self._n = check_array(X_list[0]).shape[0]
-        self._p = check_array(X_list[0]).shape[1]
+        T = len(X_list)
+        n, p = check_array(X_list[0]).shape
         X_t = []
         for X in X_list:
             X = check_array(X)
-            if X.shape != (self._n, self._p):
+            if X.shape != (n, p):
                 raise ValueError("X_list must be a list with the same shape")
             X_t.append(X)
 
@@ -232,13 +231,13 @@ class LongitudinalLiNGAM:
 
         # Bootstrapping
         adjacency_matrices = np.zeros(
-            (n_sampling, self._T, 1 + self._n_lags, self._p, self._p)
+            (n_sampling, T, 1 + self._n_lags, p, p)
         )
-        total_effects = np.zeros((n_sampling, self._T * self._p, self._T * self._p))
+        total_effects = np.zeros((n_sampling, T * p, T * p))
         for i in range(n_sampling):
-            resampled_X_t = np.empty((self._T, self._n, self._p))
-            indices = np.random.randint(0, self._n, size=(self._n,))
-            for t in range(self._T):
+            resampled_X_t = np.empty((T, n, p))
+            indices = np.random.randint(0, n, size=(n,))
+            for t in range(T):
                 resampled_X_t[t] = X_t[t][indices, :]
 
             self.fit(resampled_X_t)
-- 
2.43.0


From 1fb654721fee3b1f218885ce9f86517376900acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:43 +0000
Subject: [PATCH 43/46] fix: CausalDataGenerator must keep the rows of data
 with repeated index labels

---
 lingam/experimental/cdg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index 627ed17..a3959d8 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -270,7 +270,7 @@ class CausalDataGenerator:
                     generated[self._effect] = np.array(predicted)
                     generated[self._effect] = pd.Categorical(generated[self._effect])
 
-        generated_values = generated.loc[self._X.index, self._X.columns]
+        generated_values = generated[self._X.columns]
 
         return generated_values
 
-- 
2.43.0


From 5a82b855a17d50ea843888b9037642a12db925fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 44/46] fix: make_dot draws the edges of labels that contain a
 colon at their own nodes

---
 lingam/utils/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 8d00b50..9ec91a0 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -309,6 +309,11 @@ def make_dot(
         if not isinstance(detect_cycle, bool):
             raise TypeError("'detect_cycle' should be boolean.")
 
+    # A colon in the name of an edge's end would be read as a port of another node
+    if labels is not None:
+        labels = [str(label).replace(":", "&#58;") for label in labels]
+    prediction_target_label = prediction_target_label.replace(":", "&#58;")
+
     idx = np.abs(B) > lower_limit
 
     nx_graph = None
-- 
2.43.0


From 1bb9afbafcea68a440c8cb77c19948fbed154fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:31 +0000
Subject: [PATCH 45/46] fix: make_dot with ignore_shape names every column when
 no labels are given

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 9ec91a0..8679362 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -345,7 +345,7 @@ def make_dot(
     d = graphviz.Digraph(engine="dot")
 
     # nodes
-    names = labels if labels is not None else [f"x{i}" for i in range(len(B))]
+    names = labels if labels is not None else [f"x{i}" for i in range(B.shape[1])]
     for name in names:
         kwargs = {}
         if path is not None:
-- 
2.43.0


From fa47dfbaca3c9aafa3f2910d24ef61e3351cf4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:06 +0000
Subject: [PATCH 46/46] fix: simulated classes of a replaced logistic model are
 numbers, so that further models can use them

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index 3494cd0..142482b 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -782,7 +782,7 @@ class _LogisticRegression():
     def predict(self, X):
         if len(self._coef) == 0:
             return np.zeros((len(X), 1))
-        return expit((self._coef @ X.T).T) >= 0.5
+        return (expit((self._coef @ X.T).T) >= 0.5).astype(int)
 
     @property
     def coef_(self):
-- 
2.43.0

