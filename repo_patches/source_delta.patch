From 5230c82593302f087817e761eef00e160d4ad61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:00 +0000
Subject: [PATCH 01/23] fix: report the number of iterations performed and warn
 when the budget is used

---
 src/reor/archetypal_analysis.py | 3 ++-
 src/reor/fembv.py               | 2 +-
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 67f1750..74a7f7d 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -726,7 +726,8 @@ class KernelAA():
             update_dictionary=update_dictionary,
             update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
+        # n_iter is the index of the last iteration performed
+        if n_iter + 1 == self.max_iterations and self.tolerance > 0:
             warnings.warn('Maximum number of iterations %d reached.' %
                           self.max_iterations, UserWarning)
 
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 1d42197..9aa2ce9 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -301,7 +301,7 @@ class FEMBV():
                         n_iter + 1))
                 break
 
-        return new_cost, n_iter
+        return new_cost, n_iter + 1
 
     def _fembv_fit(self, data, parameters=None, weights=None, init=None,
                    update_parameters=True, update_weights=True, **kwargs):
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 84490e5..7bfbe3b 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -549,7 +549,7 @@ class GPNHConvexCoding():
                         n_iter + 1))
                 break
 
-        return new_cost, n_iter
+        return new_cost, n_iter + 1
 
     def _gpnh_convex_coding(self, data, dictionary=None, weights=None,
                             update_dictionary=True, update_weights=True,
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 78d7d81..8555b9a 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -753,7 +753,7 @@ class MTDConvexCoding():
                         n_iter + 1))
                 break
 
-        return new_cost, n_iter
+        return new_cost, n_iter + 1
 
     def _mtd_convex_coding(self, data, dictionary=None, weights=None,
                            order_weights=None, transition_matrices=None,
-- 
2.43.0


From 6a094c14b0da49f81fc5b0db7dc8f85034225e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 02/23] fix: keep the weights when the FEM-BV solver ends
 without a solution

---
 src/reor/fembv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 9aa2ce9..74593a4 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -230,10 +230,11 @@ class FEMBV():
 
         problem.solve(**self.weights_solver_kwargs)
 
-        if problem.status in ['infeasible', 'unbounded']:
+        sol = gamma_vec.value
+        solved = problem.status in (cp.OPTIMAL, cp.OPTIMAL_INACCURATE)
+        if not solved or sol is None:
             warnings.warn('Updating weights failed', UserWarning)
         else:
-            sol = problem.variables()[0].value
             self.Gamma = np.clip(np.reshape(
                 sol[:self.n_components * n_samples],
                 (n_samples, self.n_components)), 0.0, 1.0)
-- 
2.43.0


From 31630cf2eb0a170a2efe6e93f159e19b8c0aa7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 03/23] fix: keep the centroid of a FEM-BV-k-means cluster
 without weight

---
 src/reor/fembv_kmeans.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 5c2f978..6e7ce7c 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -165,8 +165,13 @@ class FEMBVKMeans(FEMBV):
     def _update_parameters(self):
         """Update k-means cluster assignments."""
 
-        self.Theta = np.dot(self.Gamma.T, self.X)
         normalizations = np.sum(self.Gamma, axis=0)
-        self.Theta = self.Theta / normalizations[:, np.newaxis]
+
+        # Centroids of clusters to which no weight is assigned are kept
+        nonempty = normalizations > 0
+        Theta = np.array(self.Theta, dtype='f8')
+        Theta[nonempty] = (np.dot(self.Gamma[:, nonempty].T, self.X) /
+                           normalizations[nonempty, np.newaxis])
+        self.Theta = Theta
 
         self._evaluate_distance_matrix()
-- 
2.43.0


From 17288f72a229765fbfbcb9d0a627f1298ba1af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 04/23] fix: do not fail on singular residual covariances in
 FEM-BV-VARX

---
 src/reor/fembv_varx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index aa97aba..83783e8 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -146,7 +146,11 @@ class FEMBVVARXLocalLinearModel():
             self.Sigma_u = np.dot(weighted_residuals.T,
                                   weighted_residuals) / df
 
-        self.Sigma_u_inv = np.linalg.inv(self.Sigma_u)
+        try:
+            self.Sigma_u_inv = np.linalg.inv(self.Sigma_u)
+        except np.linalg.LinAlgError:
+            # singular, e.g. if no weight is assigned to the component
+            self.Sigma_u_inv = np.full_like(self.Sigma_u, np.nan)
 
 
 
-- 
2.43.0


From 0941c849e2e44c932be09e3503de3977d6e1fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 05/23] fix: drop exogenous coefficients of a previous fit when
 refitting without them

---
 src/reor/fembv_varx.py | 2 ++
 src/reor/pwvarx.py     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 83783e8..e6d63b2 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -330,6 +330,8 @@ class FEMBVVARX(FEMBV):
         if self.u is not None:
             self.B0 = np.zeros((self.n_components, n_features, n_external),
                                dtype=self.X.dtype)
+        else:
+            self.B0 = None
 
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 91867f3..c6a023b 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -126,6 +126,7 @@ class ClusterPWVARX():
             self.B = np.zeros((self.n_components, self.s, n_endog, n_exog))
         else:
             n_exog = 0
+            self.B = None
 
         self.Sigma_u = np.zeros((self.n_components, n_endog, n_endog))
         self.residuals = np.zeros_like(y)
-- 
2.43.0


From b24431da3d0b54bb1b2caad2fe8bb87cc1d948e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 06/23] fix: align components with different memory in
 FEM-BV-VARX

---
 src/reor/fembv_varx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index e6d63b2..9297ab8 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -289,8 +289,8 @@ class FEMBVVARX(FEMBV):
         self.B0 = None
 
     def _evaluate_distance_matrix(self):
-        presample_length = np.max(self.memory)
         for i in range(self.n_components):
+            presample_length = self.memory[i]
             metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
             self.distance_matrix[:, i] = np.einsum(
                 'ij,jk,ik->i',
@@ -336,7 +336,8 @@ class FEMBVVARX(FEMBV):
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
             p=self.memory[i],
-            u=self.u, s=0)
+            u=(None if self.u is None else
+               self.u[presample_length - self.memory[i]:]), s=0)
             for i in range(self.n_components)]
 
         # Initialize models by performing unweighted fits to
-- 
2.43.0


From cb6ed8a4309adc149a242005151ad07a516641d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:54 +0000
Subject: [PATCH 07/23] fix: honour the init option of FEM-BV models

---
 src/reor/fembv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 74593a4..dca927c 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -323,6 +323,9 @@ class FEMBV():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
+        if init is None:
+            init = self.init
+
         self._initialize(data, parameters=parameters, weights=weights,
                          init=init, **kwargs)
 
-- 
2.43.0


From 5828f616b6c950b8d36ec389586e252bf0731ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:16 +0000
Subject: [PATCH 08/23] fix: FEM-BV transform uses the fitted component
 parameters

---
 src/reor/fembv.py        |  15 ++++-
 src/reor/fembv_kmeans.py |   4 ++
 src/reor/fembv_varx.py   | 115 ++++++++++++++++++++++++++++++---------
 3 files changed, 106 insertions(+), 28 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index dca927c..a96e49b 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -189,6 +189,10 @@ class FEMBV():
         """Generate initial guess for component parameters."""
         raise NotImplementedError()
 
+    def _get_parameters(self):
+        """Get fitted component parameters."""
+        raise NotImplementedError()
+
     def _initialize(self, data, parameters=None, weights=None, init=None,
                     **kwargs):
         """Generate initial guess for parameters and weights."""
@@ -384,7 +388,7 @@ class FEMBV():
         self.fit_transform(data, **kwargs)
         return self
 
-    def transform(self, data):
+    def transform(self, data, **kwargs):
         """Transform data according to the fitted factorization.
 
         Parameters
@@ -392,13 +396,18 @@ class FEMBV():
         data : array-like, shape (n_samples, n_features)
             Data matrix for data to be transformed.
 
+        **kwargs :
+            Additional arguments used in evaluating the model, e.g.,
+            external factors.
+
         Returns
         -------
         weights : array-like, shape (n_samples, n_components)
             Representation of the data.
         """
 
-        self._fembv_fit(data=data, update_parameters=False,
-                        update_weights=True)
+        self._fembv_fit(data=data, parameters=self._get_parameters(),
+                        init='custom', update_parameters=False,
+                        update_weights=True, **kwargs)
 
         return self.Gamma
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 6e7ce7c..341622e 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -140,6 +140,10 @@ class FEMBVKMeans(FEMBV):
                 self.X - np.broadcast_to(self.Theta[j], self.X.shape),
                 axis=1) ** 2
 
+    def _get_parameters(self):
+        """Get fitted cluster centroids."""
+        return self.Theta
+
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 9297ab8..b21bd98 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -89,6 +89,26 @@ class FEMBVVARXLocalLinearModel():
 
         self.residuals = np.zeros_like(self._y)
 
+    def set_parameters(self, mu, A=None, B0=None):
+        """Set model parameters and evaluate the corresponding residuals."""
+
+        self.mu = mu.copy()
+        params = [self.mu[np.newaxis, :]]
+
+        if self.p > 0:
+            self.A = A.copy()
+            params += [A[i].T for i in range(self.p)]
+
+        if self._u is not None:
+            self.B0 = B0.copy()
+            params.append(B0.T)
+
+        presample_length = max(self.p, self.s)
+
+        self.residuals[presample_length:] = (
+            self._y[presample_length:] -
+            np.dot(self._z, np.concatenate(params, axis=0)))
+
     def fit(self, weights=None):
         n_samples, n_features = self._y.shape
 
@@ -291,18 +311,33 @@ class FEMBVVARX(FEMBV):
     def _evaluate_distance_matrix(self):
         for i in range(self.n_components):
             presample_length = self.memory[i]
-            metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
+            metric = np.eye(self.models[i].Sigma_u.shape[0])
             self.distance_matrix[:, i] = np.einsum(
                 'ij,jk,ik->i',
                 self.models[i].residuals[presample_length:],
                 metric,
                 self.models[i].residuals[presample_length:])
 
+    def _get_parameters(self):
+        """Get fitted component parameters."""
+        return {'mu': self.mu, 'A': self.A, 'B0': self.B0}
+
+    def _store_component_parameters(self, i):
+        """Store fitted parameters of given component."""
+
+        self.mu[i] = self.models[i].mu
+
+        if self.memory[i] > 0:
+            self.A[i, :self.memory[i]] = self.models[i].A
+
+        if self.u is not None:
+            self.B0[i] = self.models[i].B0
+
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
         self.X = data.copy()
-        if 'external_factors' in kwargs:
+        if kwargs.get('external_factors', None) is not None:
             self.u = kwargs['external_factors'].copy()
             self.u = check_array(self.u)
         else:
@@ -321,18 +356,6 @@ class FEMBVVARX(FEMBV):
 
         presample_length = np.max(self.memory)
 
-        self.mu = np.zeros((self.n_components, n_features),
-                           dtype=self.X.dtype)
-        if presample_length > 0:
-            self.A = np.zeros((self.n_components, presample_length,
-                               n_features, n_features),
-                              dtype=self.X.dtype)
-        if self.u is not None:
-            self.B0 = np.zeros((self.n_components, n_features, n_external),
-                               dtype=self.X.dtype)
-        else:
-            self.B0 = None
-
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
             p=self.memory[i],
@@ -340,10 +363,58 @@ class FEMBVVARX(FEMBV):
                self.u[presample_length - self.memory[i]:]), s=0)
             for i in range(self.n_components)]
 
-        # Initialize models by performing unweighted fits to
-        # given data
-        for i in range(self.n_components):
-            self.models[i].fit()
+        if init == 'custom' and parameters is not None:
+            # Initialize models with the given parameters
+            mu = np.array(parameters['mu'], dtype='f8')
+            A, B0 = parameters.get('A', None), parameters.get('B0', None)
+
+            _check_array_shape(mu, (self.n_components, n_features),
+                               '_initialize_components (input mu)')
+
+            if presample_length > 0:
+                A = np.array(A, dtype='f8')
+                _check_array_shape(
+                    A, (self.n_components, presample_length,
+                        n_features, n_features),
+                    '_initialize_components (input A)')
+            else:
+                A = None
+
+            if (B0 is None) != (self.u is None):
+                raise ValueError('external variables and their coefficients '
+                                 'must be given together')
+
+            if B0 is not None:
+                B0 = np.array(B0, dtype='f8')
+                _check_array_shape(
+                    B0, (self.n_components, n_features, n_external),
+                    '_initialize_components (input B0)')
+
+            for i in range(self.n_components):
+                self.models[i].set_parameters(
+                    mu[i],
+                    A=(None if A is None else A[i, :self.memory[i]]),
+                    B0=(None if B0 is None else B0[i]))
+
+            self.mu, self.A, self.B0 = mu, A, B0
+        else:
+            self.mu = np.zeros((self.n_components, n_features),
+                               dtype=self.X.dtype)
+            if presample_length > 0:
+                self.A = np.zeros((self.n_components, presample_length,
+                                   n_features, n_features),
+                                  dtype=self.X.dtype)
+            if self.u is not None:
+                self.B0 = np.zeros((self.n_components, n_features, n_external),
+                                   dtype=self.X.dtype)
+            else:
+                self.B0 = None
+
+            # Initialize models by performing unweighted fits to
+            # given data
+            for i in range(self.n_components):
+                self.models[i].fit()
+                self._store_component_parameters(i)
 
         self.distance_matrix = np.empty(
             (n_samples - presample_length, self.n_components),
@@ -366,10 +437,4 @@ class FEMBVVARX(FEMBV):
 
             self.models[i].fit(weights=weights)
 
-            self.mu[i] = self.models[i].mu
-
-            if self.memory[i] > 0:
-                self.A[i, :self.memory[i]] = self.models[i].A
-
-            if self.u is not None:
-                self.B0[i] = self.models[i].B0
+            self._store_component_parameters(i)
-- 
2.43.0


From f522deb7c7635edb8f67022f71a29dd24462b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 09/23] fix: treat integer-valued data as real in all
 estimators

---
 src/reor/archetypal_analysis.py |  6 +++---
 src/reor/fembv.py               |  2 +-
 src/reor/fembv_kmeans.py        |  4 ++--
 src/reor/fembv_varx.py          |  4 ++--
 src/reor/gpnh_convex_coding.py  |  6 +++---
 src/reor/mtd_convex_coding.py   | 14 ++++++++------
 src/reor/pwvarx.py              |  2 +-
 7 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 74a7f7d..50a96a4 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -716,9 +716,9 @@ class KernelAA():
                 kernel, self.n_components, init=self.init,
                 random_state=self.random_state, **kwargs)
 
-        self.K = kernel.copy()
-        self.S = weights.copy()
-        self.C = dictionary.copy()
+        self.K = np.array(kernel, dtype='f8', order='C')
+        self.S = np.array(weights, dtype='f8', order='C')
+        self.C = np.array(dictionary, dtype='f8', order='C')
 
         self._initialize_workspace()
 
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index a96e49b..27ceab9 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -174,7 +174,7 @@ class FEMBV():
         if init == 'custom' and weights is not None:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_initialize_weights (input weights)')
-            self.Gamma = weights.copy()
+            self.Gamma = np.array(weights, dtype='f8', order='C')
         else:
             self.Gamma = _initialize_fembv_weights(
                 n_samples, n_components=self.n_components, unused_init=init,
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 341622e..0374942 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -147,7 +147,7 @@ class FEMBVKMeans(FEMBV):
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
-        self.X = data.copy()
+        self.X = np.array(data, dtype='f8', order='C')
 
         n_samples, n_features = self.X.shape
 
@@ -159,7 +159,7 @@ class FEMBVKMeans(FEMBV):
                 parameters, shape=(self.n_components, n_features),
                 whom='_initialize_components (input parameters)')
 
-            self.Theta = parameters.copy()
+            self.Theta = np.array(parameters, dtype='f8', order='C')
         else:
             self.Theta = _initialize_fembv_kmeans_random(
                 self.X, self.n_components, random_state=self.random_state)
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index b21bd98..7393904 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -23,7 +23,7 @@ class FEMBVVARXLocalLinearModel():
 
         self.p = p
 
-        self._y = check_array(y)
+        self._y = check_array(y, dtype='f8')
 
         n_samples, n_features = self._y.shape
 
@@ -336,7 +336,7 @@ class FEMBVVARX(FEMBV):
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
-        self.X = data.copy()
+        self.X = np.array(data, dtype='f8', order='C')
         if kwargs.get('external_factors', None) is not None:
             self.u = kwargs['external_factors'].copy()
             self.u = check_array(self.u)
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 7bfbe3b..ddbdba5 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -593,9 +593,9 @@ class GPNHConvexCoding():
                 data, self.n_components, init=self.init,
                 random_state=self.random_state, **kwargs)
 
-        self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
+        self.X = np.array(data, dtype='f8', order='C')
+        self.Gamma = np.array(weights, dtype='f8', order='C')
+        self.S = np.array(dictionary, dtype='f8', order='C')
 
         self._initialize_workspace()
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 8555b9a..efd1430 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -107,7 +107,7 @@ def _initialize_mtd_convex_coding_parameters_random(data, n_components,
     order_weights /= order_weights.sum()
 
     transition_matrices = np.empty((order, n_components, n_components),
-                                   dtype=data.dtype)
+                                   dtype='f8')
     for p in range(order):
         transition_matrices[p] = left_stochastic_matrix(
             (n_components, n_components), random_state=rng)
@@ -818,11 +818,13 @@ class MTDConvexCoding():
                         data, self.n_components, init=self.init, order=n_lags,
                         random_state=self.random_state, **kwargs)
 
-        self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
-        self.order_weights = order_weights.copy()
-        self.transition_matrices = transition_matrices.copy()
+        self.X = np.array(data, dtype='f8', order='C')
+        self.Gamma = np.array(weights, dtype='f8', order='C')
+        self.S = np.array(dictionary, dtype='f8', order='C')
+        self.order_weights = np.array(
+            order_weights, dtype='f8', order='C')
+        self.transition_matrices = np.array(
+            transition_matrices, dtype='f8', order='C')
 
         self._initialize_workspace()
 
diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index c6a023b..a704cf6 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -129,7 +129,7 @@ class ClusterPWVARX():
             self.B = None
 
         self.Sigma_u = np.zeros((self.n_components, n_endog, n_endog))
-        self.residuals = np.zeros_like(y)
+        self.residuals = np.zeros(y.shape)
         for k in range(self.n_components):
 
             component_mask = labels == k
-- 
2.43.0


From 119c8ba5542e7f7879e7972afcd3dbff1b9a7793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 10/23] fix: Markov CROM transition matrix is stochastic if a
 cluster is never left

---
 src/reor/crom.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 38dac8b..6ce237a 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -55,7 +55,11 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
             Tk = np.array(labels == k, dtype='i8')
             n_jk = (Tj[1:] * Tk[:-1]).sum()
             n_k = Tk[:-1].sum()
-            transition_matrix[j, k] = n_jk / n_k
+            if n_k > 0:
+                transition_matrix[j, k] = n_jk / n_k
+            elif j == k:
+                # clusters that are never left are absorbing
+                transition_matrix[j, k] = 1
 
     return kmeans, transition_matrix
 
-- 
2.43.0


From a2c0d4f52d9d30ea4c2d8d6eb65a6eac1fcdd30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 11/23] fix: Markov CROM predictions

---
 src/reor/crom.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 6ce237a..80cde43 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -38,6 +38,9 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
         Fitted Markov transition matrix.
     """
 
+    if n_clusters is None:
+        n_clusters = 2
+
     kmeans = KMeans(n_clusters=n_clusters, **kwargs).fit(
         X, sample_weight=sample_weight)
 
@@ -190,8 +193,8 @@ class KMeansMarkovCROM():
             Data matrix to evaluate prediction for.
 
         sample_weight : array-like, shape (n_samples,), optional
-            The weights for each observation in X. If None, all observations
-            are assigned equal weight.
+            The weights for each observation in X. Not used, as the nearest
+            cluster does not depend on the weights.
 
         horizon : integer
             If given, the number of timesteps over which to predict
@@ -206,9 +209,9 @@ class KMeansMarkovCROM():
         """
 
         # Get cluster assignments at the current time-step
-        initial_labels = self.kmeans_.predict(X, sample_weight=sample_weight)
+        initial_labels = self.kmeans_.predict(X)
 
-        n_clusters = self.n_clusters
+        n_clusters = self.transition_matrix_.shape[0]
         n_samples = initial_labels.size
 
         labels = np.zeros((n_samples, n_clusters), dtype='f8')
-- 
2.43.0


From 9ed099ffef9490a275ca0eca1b99e9dfa41ddc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 12/23] fix: Markov CROM fit variants keep labels, centres and
 transitions together

---
 src/reor/crom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 80cde43..df99a8c 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -157,7 +157,7 @@ class KMeansMarkovCROM():
             Array of labels for each sample
         """
 
-        return self.kmeans_.fit_predict(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).labels_
 
     def fit_transform(self, X, sample_weight=None):
         """Perform model reduction and transform data to cluster-distance space.
@@ -177,7 +177,7 @@ class KMeansMarkovCROM():
             Array of distances of each sample to the cluster centroids.
         """
 
-        return self.kmeans_.fit_transform(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).transform(X)
 
     def predict(self, X, sample_weight=None, horizon=0):
         """Predict cluster assignment of each sample for the given horizon.
-- 
2.43.0


From 5ad842dcf35749ab87ffa13e4d3969ad5afa444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:15 +0000
Subject: [PATCH 13/23] fix: models with custom initialisation can transform
 data

---
 src/reor/archetypal_analysis.py | 13 +++++++++----
 src/reor/gpnh_convex_coding.py  | 13 +++++++++----
 src/reor/mtd_convex_coding.py   | 13 +++++++++----
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 50a96a4..30c2b50 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -694,7 +694,12 @@ class KernelAA():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        init = self.init
+        if init == 'custom' and weights is None and not update_dictionary:
+            # only the dictionary is given when transforming data
+            init = None
+
+        if init == 'custom':
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_samples),
@@ -703,17 +708,17 @@ class KernelAA():
             _check_init_dictionary(dictionary, (self.n_components, n_samples),
                                    '_kernel_aa (input dictionary)')
             weights = _initialize_kernel_aa_weights(
-                kernel, self.n_components, init=self.init,
+                kernel, self.n_components, init=init,
                 random_state=self.random_state, **kwargs)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
             dictionary = _initialize_kernel_aa_dictionary(
-                kernel, self.n_components, init=self.init,
+                kernel, self.n_components, init=init,
                 random_state=self.random_state, **kwargs)
         else:
             dictionary, weights = _initialize_kernel_aa(
-                kernel, self.n_components, init=self.init,
+                kernel, self.n_components, init=init,
                 random_state=self.random_state, **kwargs)
 
         self.K = np.array(kernel, dtype='f8', order='C')
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index ddbdba5..6787527 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -571,7 +571,12 @@ class GPNHConvexCoding():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        init = self.init
+        if init == 'custom' and weights is None and not update_dictionary:
+            # only the dictionary is given when transforming data
+            init = None
+
+        if init == 'custom':
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_features),
@@ -580,17 +585,17 @@ class GPNHConvexCoding():
             _check_init_dictionary(dictionary, (self.n_components, n_features),
                                    '_gpnh_convex_coding (input dictionary)')
             weights = _initialize_gpnh_convex_coding_weights(
-                data, self.n_components, init=self.init,
+                data, self.n_components, init=init,
                 random_state=self.random_state, **kwargs)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
             dictionary = _initialize_gpnh_convex_coding_dictionary(
-                data, self.n_components, init=self.init,
+                data, self.n_components, init=init,
                 random_state=self.random_state, **kwargs)
         else:
             dictionary, weights = _initialize_gpnh_convex_coding(
-                data, self.n_components, init=self.init,
+                data, self.n_components, init=init,
                 random_state=self.random_state, **kwargs)
 
         self.X = np.array(data, dtype='f8', order='C')
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index efd1430..db070df 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -777,7 +777,12 @@ class MTDConvexCoding():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        init = self.init
+        if init == 'custom' and weights is None and not update_dictionary:
+            # only dictionary and parameters are given when transforming data
+            init = None
+
+        if init == 'custom':
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_mtd_convex_coding (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_features),
@@ -794,7 +799,7 @@ class MTDConvexCoding():
                                        '_mtd_convex_coding (input dictionary)')
             else:
                 dictionary = _initialize_mtd_convex_coding_dictionary(
-                    data, self.n_components, init=self.init,
+                    data, self.n_components, init=init,
                     random_state=self.random_state, **kwargs)
 
             if not update_weights:
@@ -802,7 +807,7 @@ class MTDConvexCoding():
                                     '_mtd_convex_coding (input weights)')
             else:
                 weights = _initialize_mtd_convex_coding_weights(
-                    data, self.n_components, init=self.init,
+                    data, self.n_components, init=init,
                     random_state=self.random_state, **kwargs)
 
             if not update_parameters:
@@ -815,7 +820,7 @@ class MTDConvexCoding():
             else:
                 order_weights, transition_matrices = \
                     _initialize_mtd_convex_coding_parameters(
-                        data, self.n_components, init=self.init, order=n_lags,
+                        data, self.n_components, init=init, order=n_lags,
                         random_state=self.random_state, **kwargs)
 
         self.X = np.array(data, dtype='f8', order='C')
-- 
2.43.0


From 7f95457503bfa6bbfafc8bf4ab40ccd183f26d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:15 +0000
Subject: [PATCH 14/23] fix: accept the FurthestSum options in all
 factorisations

---
 src/reor/archetypal_analysis.py | 4 ++--
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 30c2b50..50ddc40 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -136,7 +136,7 @@ def _initialize_kernel_aa(kernel, n_components, init='furthest_sum',
         kernel, n_components, init=init, random_state=rng, **kwargs)
 
     weights = _initialize_kernel_aa_weights(
-        kernel, n_components, init=init, random_state=rng, **kwargs)
+        kernel, n_components, init=init, random_state=rng)
 
     return dictionary, weights
 
@@ -709,7 +709,7 @@ class KernelAA():
                                    '_kernel_aa (input dictionary)')
             weights = _initialize_kernel_aa_weights(
                 kernel, self.n_components, init=init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 6787527..87b868d 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -586,7 +586,7 @@ class GPNHConvexCoding():
                                    '_gpnh_convex_coding (input dictionary)')
             weights = _initialize_gpnh_convex_coding_weights(
                 data, self.n_components, init=init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index db070df..cabbde5 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -808,7 +808,7 @@ class MTDConvexCoding():
             else:
                 weights = _initialize_mtd_convex_coding_weights(
                     data, self.n_components, init=init,
-                    random_state=self.random_state, **kwargs)
+                    random_state=self.random_state)
 
             if not update_parameters:
                 _check_init_order_weights(order_weights, (n_lags,),
@@ -821,7 +821,7 @@ class MTDConvexCoding():
                 order_weights, transition_matrices = \
                     _initialize_mtd_convex_coding_parameters(
                         data, self.n_components, init=init, order=n_lags,
-                        random_state=self.random_state, **kwargs)
+                        random_state=self.random_state)
 
         self.X = np.array(data, dtype='f8', order='C')
         self.Gamma = np.array(weights, dtype='f8', order='C')
-- 
2.43.0


From 0b6295e86d8622c4723e52bbf86d5200b284f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:24 +0000
Subject: [PATCH 15/23] fix: do not start FurthestSum from an excluded sample

---
 src/reor/archetypal_analysis.py | 7 ++++---
 src/reor/gpnh_convex_coding.py  | 7 ++++---
 src/reor/mtd_convex_coding.py   | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 50ddc40..f377aa0 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -64,12 +64,13 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
     rng = check_random_state(random_state)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        candidates = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = candidates[rng.randint(candidates.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(
         np.tile(kernel_diag, (n_samples, 1)) -
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 87b868d..81076dd 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -55,12 +55,13 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
     kernel = data.dot(data.T)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        candidates = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = candidates[rng.randint(candidates.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(
         np.tile(kernel_diag, (n_samples, 1)) -
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index cabbde5..68c4851 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -67,12 +67,13 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
     kernel = data.dot(data.T)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        candidates = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = candidates[rng.randint(candidates.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(
         np.tile(kernel_diag, (n_samples, 1)) -
-- 
2.43.0


From 155d890087e55e2ba9b96cd17c3ba5fba7456132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 16/23] fix: refit with data-dependent number of components on
 data of another size

---
 src/reor/archetypal_analysis.py | 7 +++++--
 src/reor/fembv.py               | 7 +++++--
 src/reor/gpnh_convex_coding.py  | 7 +++++--
 src/reor/mtd_convex_coding.py   | 7 +++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index f377aa0..e5f4968 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -218,6 +218,7 @@ class KernelAA():
 
     def __init__(self, n_components, **kwargs):
         self.n_components = n_components
+        self._inferred_n_components = None
         self.delta = kwargs.get('delta', 0.0)
         self.init = kwargs.get('init', None)
         self.tolerance = kwargs.get('tolerance', 1e-4)
@@ -682,8 +683,10 @@ class KernelAA():
                 'Expected square kernel matrix in %s. '
                 'Got shape %s' % ('kernel_aa', kernel.shape))
 
-        if self.n_components is None:
-            self.n_components = n_samples
+        # The number of components may depend on the data being fitted
+        if update_dictionary and (
+                self.n_components in (None, self._inferred_n_components)):
+            self.n_components = self._inferred_n_components = n_samples
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
             raise ValueError('Number of components must be a positive integer;'
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 27ceab9..babf003 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -46,6 +46,7 @@ class FEMBV():
                  max_iterations=500,
                  tolerance=1e-4, verbose=0, random_state=None, **kwargs):
         self.n_components = n_components
+        self._inferred_n_components = None
         self.max_tv_norm = max_tv_norm
         self.init = init
         self.max_iterations = max_iterations
@@ -314,8 +315,10 @@ class FEMBV():
 
         n_samples, n_features = data.shape
 
-        if self.n_components is None:
-            self.n_components = n_features
+        # The number of components may depend on the data being fitted
+        if update_parameters and (
+                self.n_components in (None, self._inferred_n_components)):
+            self.n_components = self._inferred_n_components = n_features
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
             raise ValueError('Number of components must be a positive integer;'
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 81076dd..41dd0ce 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -218,6 +218,7 @@ class GPNHConvexCoding():
                  tolerance=1e-6, max_iterations=1000,
                  verbose=0, random_state=None, **kwargs):
         self.n_components = n_components
+        self._inferred_n_components = None
         self.epsilon_states = epsilon_states
         self.init = init
         self.tolerance = tolerance
@@ -559,8 +560,10 @@ class GPNHConvexCoding():
 
         n_samples, n_features = data.shape
 
-        if self.n_components is None:
-            self.n_components = n_features
+        # The number of components may depend on the data being fitted
+        if update_dictionary and (
+                self.n_components in (None, self._inferred_n_components)):
+            self.n_components = self._inferred_n_components = n_features
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
             raise ValueError('Number of components must be a positive integer;'
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 68c4851..be7066a 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -196,6 +196,7 @@ class MTDConvexCoding():
                  verbose=0, random_state=None, **kwargs):
 
         self.n_components = n_components
+        self._inferred_n_components = None
 
         if lags is not None:
             for lag in lags:
@@ -765,8 +766,10 @@ class MTDConvexCoding():
         n_samples, n_features = data.shape
         n_lags = self.lags.size
 
-        if self.n_components is None:
-            self.n_components = n_features
+        # The number of components may depend on the data being fitted
+        if update_dictionary and (
+                self.n_components in (None, self._inferred_n_components)):
+            self.n_components = self._inferred_n_components = n_features
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
             raise ValueError('Number of components must be a positive integer;'
-- 
2.43.0


From 29bac666a88a873bfc388564aa40893ee8329414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 17/23] fix: CROM keeps its own copy of the lags

---
 src/reor/gpnh_convex_coding_crom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index f4fde05..ea198a2 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -77,7 +77,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         if lags is None:
             self.lags = np.array([1], dtype='i8')
         else:
-            self.lags = lags
+            self.lags = np.array(lags, dtype='i8')
 
         n_lags = self.lags.size
         self.order_weights = np.empty((n_lags,), dtype='f8')
-- 
2.43.0


From 008b4395b116b650a9f765584ca921e8220ed8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 18/23] fix: honour random_state in the piecewise VARX model

---
 src/reor/pwvarx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index a704cf6..5fb9e2e 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -53,6 +53,7 @@ class ClusterPWVARX():
         self.include_trend = include_trend
         self.clusterer = clusterer
         self.classifier = classifier
+        self.random_state = kwargs.get('random_state', None)
 
         self.mu = None
         self.A = None
@@ -103,7 +104,8 @@ class ClusterPWVARX():
         z = np.hstack([x, y])
 
         if self.clusterer is None:
-            self.clusterer = KMeans(n_clusters=self.n_components)
+            self.clusterer = KMeans(n_clusters=self.n_components,
+                                    random_state=self.random_state)
 
         self.cluster_labels_ = self.clusterer.fit_predict(z)
 
-- 
2.43.0


From 43a8e76647f64e5df59bcb138f0ef56c78d15f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 19/23] fix: accept a single endogenous variable given as a
 column

---
 src/reor/pwvarx.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 5fb9e2e..220e98a 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -193,14 +193,9 @@ class ClusterPWVARX():
             Representation of the data.
         """
 
-        if endog.ndim == 1:
-            n_endog = 1
-        else:
-            n_endog = endog.shape[1]
-
         presample_length = max(self.p, self.s)
 
-        if n_endog == 1:
+        if endog.ndim == 1:
             y = np.expand_dims(endog[presample_length:], -1)
         else:
             y = endog[presample_length:]
-- 
2.43.0


From 749946ae0883daef522e9a8644fce2f0a7d824ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 20/23] fix: MTD convex coding of series no longer than the
 largest lag

---
 src/reor/mtd_convex_coding.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index be7066a..9caef9b 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -358,7 +358,8 @@ class MTDConvexCoding():
         n_samples = self.X.shape[0]
         max_lag = self.lags.max()
 
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components *
+                               max(n_samples - max_lag, 1))
 
         value += np.linalg.norm(self.Gamma[max_lag:] - self.Z[max_lag:]) ** 2
 
@@ -486,7 +487,8 @@ class MTDConvexCoding():
 
         n_samples = self.X.shape[0]
         max_lag = self.lags.max()
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components *
+                               max(n_samples - max_lag, 1))
 
         residual = self.Gamma - self.Z
         for i, lag in enumerate(self.lags):
@@ -587,7 +589,8 @@ class MTDConvexCoding():
 
         max_lag = self.lags.max()
         n_samples = self.X.shape[0]
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components *
+                               max(n_samples - max_lag, 1))
 
         residual = self.Gamma[max_lag:] - self.Z[max_lag:]
 
-- 
2.43.0


From 74b28f145677b06cb518071e47d047ce4999ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 21/23] fix: default SVC classifier of ClusterPWVARX draws from
 the given random_state

---
 src/reor/pwvarx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 220e98a..1f68e12 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -205,7 +205,7 @@ class ClusterPWVARX():
         self._cluster(y, x)
 
         if self.classifier is None:
-            self.classifier = SVC()
+            self.classifier = SVC(random_state=self.random_state)
 
         self.classifier.fit(x, self.cluster_labels_)
         labels = self.classifier.predict(x)
-- 
2.43.0


From d495fe36d177339a1958ef6173558908130a7285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:09 +0000
Subject: [PATCH 22/23] fix: project large values onto the simplex without loss
 of precision

---
 src/reor/simplex_projection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reor/simplex_projection.py b/src/reor/simplex_projection.py
index 3d69c12..7160044 100644
--- a/src/reor/simplex_projection.py
+++ b/src/reor/simplex_projection.py
@@ -13,13 +13,19 @@ def simplex_project_vector(x, out=None):
 
     n = sorted_x.size
 
+    # The projection is unchanged by adding a constant to all elements;
+    # measuring them from the largest avoids a loss of precision for
+    # large values.
+    x_max = sorted_x[-1]
+    sorted_x = sorted_x - x_max
+
     t_hat = 0
     for i in range(n - 2, -2, -1):
         t_hat = (sorted_x[-(n - 1 - i):].sum() - 1) / (n - 1 - i)
         if t_hat >= sorted_x[i]:
             break
 
-    return np.fmax(x - t_hat, 0, out=out)
+    return np.fmax((x - x_max) - t_hat, 0, out=out)
 
 
 def simplex_project_columns(A):
-- 
2.43.0


From 8b14f2ded7de55827d7b4b1172fbd5ba51ce63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:35 +0000
Subject: [PATCH 23/23] fix: an integer random_state seeds every call, not only
 the first

GPNH and MTD convex coding and the FEM-BV models turned an integer
random_state into a generator when the object was built, so that the
result of a fit or transform depended on the calls made before it, and a
copied model with random_state=None drew from a private copy of the
process-wide generator.
---
 src/reor/fembv.py                   |  7 +++++--
 src/reor/fembv_kmeans.py            |  2 +-
 src/reor/gpnh_convex_coding.py      | 10 ++++++----
 src/reor/gpnh_convex_coding_crom.py |  4 ++--
 src/reor/mtd_convex_coding.py       | 10 ++++++----
 5 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index babf003..1fc7803 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -52,7 +52,8 @@ class FEMBV():
         self.max_iterations = max_iterations
         self.tolerance = tolerance
         self.verbose = verbose
-        self.random_state = check_random_state(random_state)
+        self.random_state = random_state
+        self._rng = check_random_state(random_state)
         self.require_monotonic_cost_decrease = kwargs.get(
             'require_monotonic_cost_decrease', False)
         self.weights_solver_kwargs = kwargs.get(
@@ -179,7 +180,7 @@ class FEMBV():
         else:
             self.Gamma = _initialize_fembv_weights(
                 n_samples, n_components=self.n_components, unused_init=init,
-                random_state=self.random_state)
+                random_state=self._rng)
 
         if self._has_max_tv_norm_constraint():
             self.Eta = np.empty(self.Gamma.shape, dtype=self.Gamma.dtype)
@@ -198,6 +199,8 @@ class FEMBV():
                     **kwargs):
         """Generate initial guess for parameters and weights."""
 
+        self._rng = check_random_state(self.random_state)
+
         self._initialize_components(data, parameters=parameters, init=init,
                                     **kwargs)
 
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 0374942..5a9583a 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -162,7 +162,7 @@ class FEMBVKMeans(FEMBV):
             self.Theta = np.array(parameters, dtype='f8', order='C')
         else:
             self.Theta = _initialize_fembv_kmeans_random(
-                self.X, self.n_components, random_state=self.random_state)
+                self.X, self.n_components, random_state=self._rng)
 
         self._evaluate_distance_matrix()
 
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 41dd0ce..ff342b9 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -224,7 +224,8 @@ class GPNHConvexCoding():
         self.tolerance = tolerance
         self.max_iterations = max_iterations
         self.verbose = verbose
-        self.random_state = check_random_state(random_state)
+        self.random_state = random_state
+        self._rng = check_random_state(random_state)
         self.line_search_memory = kwargs.get('line_search_memory', 1)
         self.line_search_gamma = kwargs.get('gamma', 1e-4)
         self.line_search_alpha_min = kwargs.get('alpha_min', 1e-3)
@@ -559,6 +560,7 @@ class GPNHConvexCoding():
         """Calculate GPNH-regularized convex coding of dataset."""
 
         n_samples, n_features = data.shape
+        self._rng = check_random_state(self.random_state)
 
         # The number of components may depend on the data being fitted
         if update_dictionary and (
@@ -590,17 +592,17 @@ class GPNHConvexCoding():
                                    '_gpnh_convex_coding (input dictionary)')
             weights = _initialize_gpnh_convex_coding_weights(
                 data, self.n_components, init=init,
-                random_state=self.random_state)
+                random_state=self._rng)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
             dictionary = _initialize_gpnh_convex_coding_dictionary(
                 data, self.n_components, init=init,
-                random_state=self.random_state, **kwargs)
+                random_state=self._rng, **kwargs)
         else:
             dictionary, weights = _initialize_gpnh_convex_coding(
                 data, self.n_components, init=init,
-                random_state=self.random_state, **kwargs)
+                random_state=self._rng, **kwargs)
 
         self.X = np.array(data, dtype='f8', order='C')
         self.Gamma = np.array(weights, dtype='f8', order='C')
diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index ea198a2..94ade5f 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -284,7 +284,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
             print(60 * '-')
 
         n_lags = self.lags.size
-        self.order_weights = self.random_state.uniform(size=(n_lags,))
+        self.order_weights = self._rng.uniform(size=(n_lags,))
         self.order_weights /= self.order_weights.sum()
 
         self.transition_matrices = np.empty(
@@ -292,7 +292,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         for p in range(n_lags):
             self.transition_matrices[p] = left_stochastic_matrix(
                 (self.n_components, self.n_components),
-                random_state=self.random_state)
+                random_state=self._rng)
 
         self._initialize_parameters_workspace()
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 9caef9b..cd41854 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -213,7 +213,8 @@ class MTDConvexCoding():
         self.tolerance = tolerance
         self.max_iterations = max_iterations
         self.verbose = verbose
-        self.random_state = check_random_state(random_state)
+        self.random_state = random_state
+        self._rng = check_random_state(random_state)
         self.line_search_memory = kwargs.get('line_search_memory', 1)
         self.line_search_gamma = kwargs.get('gamma', 1e-4)
         self.line_search_alpha_min = kwargs.get('alpha_min', 1e-3)
@@ -768,6 +769,7 @@ class MTDConvexCoding():
 
         n_samples, n_features = data.shape
         n_lags = self.lags.size
+        self._rng = check_random_state(self.random_state)
 
         # The number of components may depend on the data being fitted
         if update_dictionary and (
@@ -807,7 +809,7 @@ class MTDConvexCoding():
             else:
                 dictionary = _initialize_mtd_convex_coding_dictionary(
                     data, self.n_components, init=init,
-                    random_state=self.random_state, **kwargs)
+                    random_state=self._rng, **kwargs)
 
             if not update_weights:
                 _check_init_weights(weights, (n_samples, self.n_components),
@@ -815,7 +817,7 @@ class MTDConvexCoding():
             else:
                 weights = _initialize_mtd_convex_coding_weights(
                     data, self.n_components, init=init,
-                    random_state=self.random_state)
+                    random_state=self._rng)
 
             if not update_parameters:
                 _check_init_order_weights(order_weights, (n_lags,),
@@ -828,7 +830,7 @@ class MTDConvexCoding():
                 order_weights, transition_matrices = \
                     _initialize_mtd_convex_coding_parameters(
                         data, self.n_components, init=init, order=n_lags,
-                        random_state=self.random_state)
+                        random_state=self._rng)
 
         self.X = np.array(data, dtype='f8', order='C')
         self.Gamma = np.array(weights, dtype='f8', order='C')
-- 
2.43.0

