From a6c36ef0c31da3e66ac5cc5d0581aa05df2b6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 01/55] fix: random_assignment(size=None) returns one
 assignment instead of raising

---
 pyrichlet/weight_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 9ce64d7..6b10347 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -155,7 +155,7 @@ class BaseWeight(ABC):
         inverse_sampling = np.greater.outer(
             u, self.get_normalized_cumulative_weights()
         )
-        return np.sum(inverse_sampling, axis=1)
+        return np.sum(inverse_sampling, axis=-1)
 
     def fit_variational(self, variational_d):
         """Fits the variational distribution q
-- 
2.43.0


From 664c7487526dd715ce18e48a017bf62e06be01f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 02/55] fix: GeometricProcess.tail completes until the sum of
 weights reaches x

---
 pyrichlet/weight_models/_geometric_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 66852a5..3253d40 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -40,7 +40,7 @@ class GeometricProcess(BaseWeight):
     def tail(self, x):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
-        size = int(np.log(1 - x) / np.log(1 - self.p))
+        size = max(1, int(np.ceil(np.log(1 - x) / np.log(1 - self.p))))
         self.complete(size)
         return self.w
 
-- 
2.43.0


From 299b096609444054e78a10bad79088f536b455e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 03/55] fix: DirichletDistribution mean of log w_j counted its
 own parameter twice

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index e7995e3..d0af383 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -56,7 +56,8 @@ class DirichletDistribution(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         return mean_log_beta(self.variational_params[j],
-                             self.variational_params.sum())
+                             self.variational_params.sum() -
+                             self.variational_params[j])
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         if variational_d is None:
-- 
2.43.0


From 1479176b5ac524335dab7d19a5411145f4e24192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 04/55] fix: DirichletDistribution mean of log p(w) weights
 each log w_j by its own alpha

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index d0af383..7e0e9c6 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -74,12 +74,9 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_log_p_w(self):
         if self.variational_d is None:
             raise NotFittedError
-        log_sum_w_j = 0
-        for j in range(self.variational_k):
-            log_sum_w_j += self.variational_mean_log_w_j(j)
-        log_sum_w_j *= self.alpha.sum() - 1
         res = self._log_normalization_constant(self.alpha)
-        res += log_sum_w_j
+        for j in range(self.variational_k):
+            res += (self.alpha[j] - 1) * self.variational_mean_log_w_j(j)
         return res
 
     def variational_mean_log_q_w(self):
-- 
2.43.0


From 7d1a5b1040b18413adbe95463048c0ae4be95501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 05/55] fix: variational weight summaries outside the
 truncation or before fitting

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 10 ++++++++--
 pyrichlet/weight_models/_dirichlet_process.py      |  4 ++++
 pyrichlet/weight_models/_frequency.py              |  6 +++++-
 pyrichlet/weight_models/_geometric_process.py      | 12 +++++++++---
 pyrichlet/weight_models/_pitman_yor_process.py     | 10 ++++++++--
 5 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index 7e0e9c6..e5d8b1c 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -55,6 +55,8 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         return mean_log_beta(self.variational_params[j],
                              self.variational_params.sum() -
                              self.variational_params[j])
@@ -92,12 +94,16 @@ class DirichletDistribution(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
-        if j > self.variational_k:
+        if self.variational_d is None:
+            raise NotFittedError
+        if j >= self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if self.variational_d is None:
+            raise NotFittedError
+        if j >= self.variational_k:
             return 0
         alpha = self.variational_params.sum()
         if self.variational_params[j] <= 1:
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index c493052..812c469 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -114,6 +114,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
@@ -126,6 +128,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 05265fd..a677250 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -59,11 +59,15 @@ class FrequencyWeighting(BaseWeight):
         return 0
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if self.variational_d is None:
+            raise NotFittedError
+        if j >= self.variational_k:
             return 0
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 3253d40..9591b41 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -58,6 +58,8 @@ class GeometricProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         res = mean_log_beta(self.variational_params[0],
                             self.variational_params[1]
                             )
@@ -105,14 +107,18 @@ class GeometricProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
-            return 1
+            return 0
         p = self.variational_params[0] / self.variational_params.sum()
         return p * (1 - p) ** j
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
-            return
+        if self.variational_d is None:
+            raise NotFittedError
+        if j >= self.variational_k:
+            return 0
         if self.variational_params[0] <= 1:
             if self.variational_params[1] <= 1:
                 raise ValueError('multimodal distribution')
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 718211b..092f8e7 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -85,6 +85,8 @@ class PitmanYorProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         res = 0
         for jj in range(j):
             res += mean_log_beta(self.variational_params[jj][1],
@@ -132,7 +134,9 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
-        if j > self.variational_k:
+        if self.variational_d is None:
+            raise NotFittedError
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
@@ -142,7 +146,9 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if self.variational_d is None:
+            raise NotFittedError
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
-- 
2.43.0


From b87cb415df26884fa092ea3ca539454454f72628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 06/55] fix: DirichletDistribution accepts numpy scalar
 concentration

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index e5d8b1c..7737592 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -15,7 +15,7 @@ class DirichletDistribution(BaseWeight):
         if type(alpha) in (list, np.ndarray):
             self.n = n
             self.alpha = np.array(alpha, dtype=np.float64)
-        elif type(alpha) in (int, float):
+        elif isinstance(alpha, (int, float, np.integer, np.floating)):
             self.alpha = np.array([alpha] * self.n, dtype=np.float64)
 
     def weighting_log_likelihood(self):
-- 
2.43.0


From 72dc80684c044b3e157dd18fc8697da28f035c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 07/55] fix: DirichletProcess mean of log p(w) has one
 normalizing term per free stick

---
 pyrichlet/weight_models/_dirichlet_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 812c469..2221da7 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -99,7 +99,7 @@ class DirichletProcess(BaseWeight):
         for params in self.variational_params[:-1]:
             res += mean_log_beta(params[1], params[0])
         res *= self.alpha - 1
-        res += self.variational_k * np.log(self.alpha)
+        res += (self.variational_k - 1) * np.log(self.alpha)
         return res
 
     def variational_mean_log_q_w(self):
-- 
2.43.0


From 75d7c6a7049d7bed15df31bc0e5bae3c609f0b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 08/55] fix: EqualWeighting mean of log w_j outside the support
 and sign of mean log p(d|w)

---
 pyrichlet/weight_models/_equal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 46f2a2a..fd3c09f 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -25,7 +25,9 @@ class EqualWeighting(BaseWeight):
         self.variational_k = self.n
 
     def variational_mean_log_w_j(self, j):
-        return np.log(1 / self.n) * (j < self.n)
+        if j >= self.n:
+            return -np.inf
+        return np.log(1 / self.n)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         _variational_d = variational_d
@@ -33,7 +35,7 @@ class EqualWeighting(BaseWeight):
             _variational_d = self.variational_d
             if _variational_d is None:
                 raise NotFittedError
-        return _variational_d.shape[1] * np.log(self.n)
+        return -_variational_d.shape[1] * np.log(self.n)
 
     def variational_mean_log_p_w(self):
         return 0
-- 
2.43.0


From d7749e0e528e0d216cb58ee173eef48e80e78905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 09/55] fix: GeometricProcess variational fit counts every
 observation

---
 pyrichlet/weight_models/_geometric_process.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 9591b41..f533419 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -48,8 +48,7 @@ class GeometricProcess(BaseWeight):
         self.variational_d = variational_d
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty(2, dtype=np.float64)
-        self.variational_params[0] = self.a + max(len(self.variational_d[0]),
-                                                  1) - 1
+        self.variational_params[0] = self.a + len(self.variational_d[0])
         self.variational_params[1] = (
                 self.b + (self.variational_d[1:].T *
                           range(1, self.variational_k)).sum()
-- 
2.43.0


From c19d7a3a06309f6294f9258a92c9f70332dc8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 10/55] fix: GeometricProcess mean log p(d|w) weights log(1-p)
 by the group index

---
 pyrichlet/weight_models/_geometric_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index f533419..c733ae6 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -82,7 +82,7 @@ class GeometricProcess(BaseWeight):
                                     self.variational_params[0]
                                     )
         for j, nj in enumerate(np.sum(_variational_d, 1)):
-            res += nj * e_log_v_bar
+            res += j * nj * e_log_v_bar
         return res
 
     def variational_mean_log_p_w(self):
-- 
2.43.0


From 76edcaad9a9ef57997ec6a6e1197ebc5ec555d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 11/55] fix: GeometricProcess variational mean of w_j is the
 expectation under q(p)

---
 pyrichlet/weight_models/_geometric_process.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index c733ae6..fea5dfc 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -110,8 +110,11 @@ class GeometricProcess(BaseWeight):
             raise NotFittedError
         if j >= self.variational_k:
             return 0
-        p = self.variational_params[0] / self.variational_params.sum()
-        return p * (1 - p) ** j
+        a, b = self.variational_params
+        res = a / (a + b)
+        for jj in range(j):
+            res *= (b + jj) / (a + b + jj + 1)
+        return res
 
     def variational_mode_w_j(self, j):
         if self.variational_d is None:
-- 
2.43.0


From 43926cfe6f03fa92e16b280619cf6d40ec4c5e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 12/55] fix: Pitman-Yor sticks follow Beta(1 - d, alpha + j d)
 with j starting at one

---
 pyrichlet/weight_models/_pitman_yor_process.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 092f8e7..8f32d3e 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -17,12 +17,12 @@ class PitmanYorProcess(BaseWeight):
 
     def weighting_log_likelihood(self):
         v = self.w[0]
-        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha)
+        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha + self.pyd)
         prod_v = 1 - v
         for j in range(1, len(self.w)):
             v = self.w[j] / prod_v
             ret += log_likelihood_beta(v, 1 - self.pyd,
-                                       self.alpha + j * self.pyd)
+                                       self.alpha + (j + 1) * self.pyd)
             prod_v *= (1 - v)
         return ret
 
@@ -30,7 +30,7 @@ class PitmanYorProcess(BaseWeight):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if len(self.d) == 0:
-            pitman_yor_bias = np.arange(size)
+            pitman_yor_bias = np.arange(1, size + 1)
             self.v = self._rng.beta(a=1 - self.pyd,
                                     b=self.alpha + pitman_yor_bias * self.pyd,
                                     size=size)
@@ -44,7 +44,7 @@ class PitmanYorProcess(BaseWeight):
                 a_c = a_c[:size]
                 b_c = b_c[:size]
 
-            pitman_yor_bias = np.arange(len(a_c))
+            pitman_yor_bias = np.arange(1, len(a_c) + 1)
             self.v = self._rng.beta(
                 a=1 - self.pyd + a_c,
                 b=self.alpha + pitman_yor_bias * self.pyd + b_c
@@ -58,7 +58,7 @@ class PitmanYorProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if self.get_size() < size:
-            pitman_yor_bias = np.arange(self.get_size(), size)
+            pitman_yor_bias = np.arange(self.get_size() + 1, size + 1)
             self.v = np.concatenate(
                 (
                     self.v,
-- 
2.43.0


From 90906555c70850e5169ed9781c73ba6a002fe36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 13/55] fix: Pitman-Yor mean of log p(w) uses the Beta
 normalizing constant

---
 pyrichlet/weight_models/_pitman_yor_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 8f32d3e..da30c59 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -118,7 +118,7 @@ class PitmanYorProcess(BaseWeight):
                     self.alpha + (j + 1) * self.pyd - 1
             )
             res += loggamma(self.alpha + j * self.pyd + 1)
-            res -= loggamma(self.alpha + (j + 1) * self.pyd + 1)
+            res -= loggamma(self.alpha + (j + 1) * self.pyd)
             res -= loggamma(1 - self.pyd)
         return res
 
-- 
2.43.0


From 599d170a21960f341864f62c8b215dcadd8ddb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 14/55] fix: Pitman-Yor variational distribution is truncated
 like the Dirichlet process

---
 pyrichlet/weight_models/_pitman_yor_process.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index da30c59..37271e2 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -91,9 +91,9 @@ class PitmanYorProcess(BaseWeight):
         for jj in range(j):
             res += mean_log_beta(self.variational_params[jj][1],
                                  self.variational_params[jj][0])
-        res += mean_log_beta(self.variational_params[j, 0],
-                             self.variational_params[j, 1]
-                             )
+        if j < self.variational_k - 1:
+            res += mean_log_beta(self.variational_params[j, 0],
+                                 self.variational_params[j, 1])
         return res
 
     def variational_mean_log_p_d__w(self, variational_d=None):
@@ -112,7 +112,7 @@ class PitmanYorProcess(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         res = 0
-        for j, params in enumerate(self.variational_params):
+        for j, params in enumerate(self.variational_params[:-1]):
             res += mean_log_beta(params[0], params[1]) * -self.pyd
             res += mean_log_beta(params[1], params[0]) * (
                     self.alpha + (j + 1) * self.pyd - 1
@@ -126,7 +126,7 @@ class PitmanYorProcess(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         res = 0
-        for params in self.variational_params:
+        for params in self.variational_params[:-1]:
             res += (params[0] - 1) * mean_log_beta(params[0], params[1])
             res += (params[1] - 1) * mean_log_beta(params[1], params[0])
             res += loggamma(params[0] + params[1])
@@ -142,7 +142,9 @@ class PitmanYorProcess(BaseWeight):
         for jj in range(j):
             res *= (self.variational_params[jj][1] /
                     self.variational_params[jj].sum())
-        res *= self.variational_params[j, 0] / self.variational_params[j].sum()
+        if j < self.variational_k - 1:
+            res *= self.variational_params[j, 0] / self.variational_params[
+                j].sum()
         return res
 
     def variational_mode_w_j(self, j):
@@ -161,7 +163,8 @@ class PitmanYorProcess(BaseWeight):
                 continue
             res *= ((self.variational_params[jj, 1] - 1) /
                     (self.variational_params[jj].sum() - 2))
-
+        if j == self.variational_k - 1:
+            return res
         if self.variational_params[j, 0] <= 1:
             if self.variational_params[j, 1] <= 1:
                 raise ValueError('multimodal distribution')
-- 
2.43.0


From 148fccf0d9f0788edaa575668f13a9a74f5757e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 15/55] fix: FrequencyWeighting variational weights are the log
 expected group frequencies

---
 pyrichlet/weight_models/_frequency.py | 34 ++++++++++-----------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index a677250..b10d1ee 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -25,28 +25,22 @@ class FrequencyWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = variational_d
-        self.variational_k = variational_d.shape[1]
-        if self.variational_k == 0:
-            self.variational_k = self.n
+        self.variational_k = variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
-        if self.variational_d is None:
-            raise NotFittedError
-        if j >= self.variational_k:
-            return -np.inf
-        if self.variational_d.shape[1]:
-            return self.variational_d.sum(1)[j] / self.variational_d.sum()
-        return np.log(1 / self.variational_k)
+        with np.errstate(divide='ignore'):
+            return np.log(self.variational_mean_w_j(j))
 
     def variational_mean_log_p_d__w(self, variational_d=None):
+        if self.variational_d is None:
+            raise NotFittedError
         if variational_d is None:
-            if self.variational_d is None:
-                raise NotFittedError
             variational_d = self.variational_d
-        else:
-            self.variational_d = variational_d
-        return np.sum(variational_d.sum(1) * np.log(self.variational_d.sum(1) /
-                                                    self.variational_d.sum()))
+        res = 0
+        for j, nj in enumerate(np.sum(variational_d, 1)):
+            if nj > 0:
+                res += nj * self.variational_mean_log_w_j(j)
+        return res
 
     def variational_mean_log_p_w(self):
         if self.variational_d is None:
@@ -63,11 +57,9 @@ class FrequencyWeighting(BaseWeight):
             raise NotFittedError
         if j >= self.variational_k:
             return 0
+        if self.variational_d.shape[1] == 0:
+            return 1 / self.variational_k
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
 
     def variational_mode_w_j(self, j):
-        if self.variational_d is None:
-            raise NotFittedError
-        if j >= self.variational_k:
-            return 0
-        return self.variational_d.sum(1)[j] / self.variational_d.sum()
+        return self.variational_mean_w_j(j)
-- 
2.43.0


From bfb0bb055b9c834a16d01b2751aad1cf7a8ba825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 16/55] fix: complete() extends a fitted weighting structure
 from the posterior

---
 pyrichlet/weight_models/_base.py               | 8 ++++++++
 pyrichlet/weight_models/_beta_bernoulli.py     | 2 ++
 pyrichlet/weight_models/_beta_binomial.py      | 2 ++
 pyrichlet/weight_models/_beta_in_beta.py       | 6 +++---
 pyrichlet/weight_models/_dirichlet_process.py  | 4 ++--
 pyrichlet/weight_models/_pitman_yor_process.py | 6 ++++--
 6 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 6b10347..2e59014 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -93,6 +93,14 @@ class BaseWeight(ABC):
         """
         self.d = np.array(d)
 
+    def _stick_counts(self, start, size):
+        """Counts of assignments at and beyond each stick in [start, size)"""
+        if len(self.d) == 0:
+            return np.zeros((2, size - start), dtype=np.int64)
+        a_c = np.bincount(self.d, minlength=size)
+        b_c = np.cumsum(a_c[::-1])[::-1] - a_c
+        return a_c[start:size], b_c[start:size]
+
     def tail(self, x):
         """Return an array of weights such that the sum is greater than `x`
 
diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 9e4255c..47d63ab 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -67,6 +67,8 @@ class BetaBernoulli(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) == 0 and len(self.d) > 0:
+            self.random()
         if len(self.v) < size:
             if len(self.v) == 0:
                 self.v = self._rng.beta(a=1, b=self.alpha, size=1)
diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 4601f7d..9d351bd 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -53,6 +53,8 @@ class BetaBinomial(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) == 0 and len(self.d) > 0:
+            self.random()
         if len(self.v) == 0:
             v0 = self._rng.beta(1, self.alpha)
             self.binomials = self._rng.binomial(self.n, v0, size=1)
diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index a685a1a..70b507d 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -78,10 +78,10 @@ class BetaInBeta(BaseWeight):
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
+                a_c, b_c = self._stick_counts(len(self.v), size)
                 concat_value = self._rng.beta(
-                    a=1 + self.x / (1 - self.x) * self.p,
-                    b=self.alpha + self.x / (1 - self.x) * (1 - self.p),
-                    size=size - len(self.v)
+                    a=1 + self.x / (1 - self.x) * self.p + a_c,
+                    b=self.alpha + self.x / (1 - self.x) * (1 - self.p) + b_c
                 )
             else:
                 concat_value = np.repeat(self.p, size - len(self.v))
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 2221da7..92f5e1f 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -49,9 +49,9 @@ class DirichletProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if len(self.v) < size:
+            a_c, b_c = self._stick_counts(len(self.v), size)
             self.v = np.concatenate(
-                (self.v,
-                 self._rng.beta(a=1, b=self.alpha, size=size - len(self.v))))
+                (self.v, self._rng.beta(a=1 + a_c, b=self.alpha + b_c)))
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
         return self.w
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 37271e2..3e1b1a6 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -58,12 +58,14 @@ class PitmanYorProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if self.get_size() < size:
+            a_c, b_c = self._stick_counts(self.get_size(), size)
             pitman_yor_bias = np.arange(self.get_size() + 1, size + 1)
             self.v = np.concatenate(
                 (
                     self.v,
-                    self._rng.beta(a=1 - self.pyd,
-                                   b=self.alpha + pitman_yor_bias * self.pyd)
+                    self._rng.beta(
+                        a=1 - self.pyd + a_c,
+                        b=self.alpha + pitman_yor_bias * self.pyd + b_c)
                 )
             )
             self.w = self.v * np.cumprod(np.concatenate(([1],
-- 
2.43.0


From 46b5249bba131e5d784f925b6601cc0d67b97b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 17/55] fix: BetaInBeta.complete draws p only when there are no
 sticks

---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 70b507d..31c4d88 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -74,7 +74,7 @@ class BetaInBeta(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
-        if len(self.v == 0):
+        if len(self.v) == 0:
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
-- 
2.43.0


From 75fac0368d52160b0c2ddf13fa60dbf6ea4cb7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 18/55] fix: BetaInBeta updates p given the current sticks
 before discarding them

---
 pyrichlet/weight_models/_beta_in_beta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 31c4d88..6b3f5c8 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -42,12 +42,13 @@ class BetaInBeta(BaseWeight):
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
-        self.v = self.v[:0]
         if len(self.d) == 0:
+            self.v = self.v[:0]
             self.complete(size)
         else:
             if self.x > 0:
                 self.random_p()
+            self.v = self.v[:0]
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
 
-- 
2.43.0


From 72c8a1a5506b4dd26e972f5b182fc509e5ce6860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 19/55] fix: BetaInBeta log-likelihood at the Dirichlet and
 geometric limits

---
 pyrichlet/weight_models/_beta_in_beta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 6b3f5c8..6f949a5 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -24,6 +24,8 @@ class BetaInBeta(BaseWeight):
         self._validate_params()
 
     def weighting_log_likelihood(self):
+        if self.x == 1:
+            return self._internal_beta_log_likelihood()
         v = self.w[0]
         beta_a = 1 + self.x / (1 - self.x) * self.p
         beta_b = self.alpha + self.x / (1 - self.x) * (1 - self.p)
@@ -33,7 +35,8 @@ class BetaInBeta(BaseWeight):
             v = wj / prod_v
             ret += log_likelihood_beta(v, beta_a, beta_b)
             prod_v *= (1 - v)
-        ret += self._internal_beta_log_likelihood()
+        if self.x > 0:
+            ret += self._internal_beta_log_likelihood()
         return ret
 
     def _internal_beta_log_likelihood(self):
-- 
2.43.0


From f6d3ab95e5828e2acdf728893b1f534741ee49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 20/55] fix: BetaBinomial log-likelihood pairs each stick with
 its own binomial

---
 pyrichlet/weight_models/_beta_binomial.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 9d351bd..4ccf537 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -17,15 +17,13 @@ class BetaBinomial(BaseWeight):
     def weighting_log_likelihood(self):
         b = self.binomials[0]
         res = log_likelihood_beta_binom(b, self.n, 1, self.alpha)
-        for j in range(1, len(self.v) - 1):
-            v = self.v[j]
-            res += log_likelihood_beta(v, 1 + b,
-                                       self.alpha + self.n - b)
-            b = self.binomials[j]
-            res += log_likelihood_binom(b, self.n, v)
-
-        res += log_likelihood_beta(self.v[-1], 1 + b,
+        res += log_likelihood_beta(self.v[0], 1 + b,
                                    self.alpha + self.n - b)
+        for j in range(1, len(self.v)):
+            b = self.binomials[j]
+            res += log_likelihood_binom(b, self.n, self.v[j - 1])
+            res += log_likelihood_beta(self.v[j], 1 + b,
+                                       self.alpha + self.n - b)
         return res
 
     def random(self, size=None):
@@ -62,8 +60,9 @@ class BetaBinomial(BaseWeight):
                                     self.alpha + self.n - self.binomials[-1],
                                     size=1)
         while len(self.v) < size:
-            self.binomials = np.append(self.binomials,
-                                       self._rng.binomial(self.n, self.v[-1]))
+            if len(self.binomials) == len(self.v):
+                self.binomials = np.append(
+                    self.binomials, self._rng.binomial(self.n, self.v[-1]))
             self.v = np.append(
                 self.v, self._rng.beta(
                     1 + self.binomials[-1],
-- 
2.43.0


From a07059af0ea13870ceb347a4f18dbafd3bbb2111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 21/55] fix: BetaBernoulli indicator update, last group and
 log-likelihood

---
 pyrichlet/weight_models/_beta_bernoulli.py | 48 ++++++++--------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 47d63ab..f4d8aa1 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -1,6 +1,6 @@
 from ._base import BaseWeight
 import numpy as np
-from scipy.special import beta as betaf
+from scipy.special import betaln, expit, logit, xlogy, xlog1py
 
 from ..utils.functions import log_likelihood_beta
 
@@ -20,16 +20,14 @@ class BetaBernoulli(BaseWeight):
 
     def _bernoulli_structure_log_likelihood(self):
         ret = 0
-        if self.p == 0:
-            return ret
-        for b in self.bernoullis:
-            ret += b * np.log(self.p)
+        for b in self.bernoullis[1:]:
+            ret += xlogy(b, self.p) + xlog1py(1 - b, -self.p)
         return ret
 
     def _beta_structure_log_likelihood(self):
         ret = log_likelihood_beta(self.v[0], 1, self.alpha)
         for j in range(1, len(self.v)):
-            if not self.bernoullis[j]:
+            if self.bernoullis[j]:
                 ret += log_likelihood_beta(self.v[j], 1, self.alpha)
         return ret
 
@@ -93,30 +91,20 @@ class BetaBernoulli(BaseWeight):
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
             bernoullis[0] = 0
-            for j in range(1, size_fit):
-                a_j_prime, b_j_prime, g_plus = 0, 0, 1
-                k = j + 1
-                for b in bernoullis[j + 1:]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k += 1
-                    g_plus = betaf(a_j_prime, b_j_prime) * self.alpha
-                a_j_prime += a_c[j]
-                b_j_prime += b_c[j]
-                k = j - 1
-                for b in bernoullis[:j][::-1]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k -= 1
-                g_minus = betaf(a_j_prime, b_j_prime) * self.alpha
-                p = self.p
-                p_times_plus = p * g_plus if p > 0 else 0
-                not_p_times_minus = (1 - p) * g_minus if p < 1 else 0
-                p = p_times_plus / (p_times_plus + not_p_times_minus)
+            for j in range(1, size_fit + 1):
+                changes = np.flatnonzero(bernoullis[:j])
+                start = changes[-1] if len(changes) else 0
+                changes = np.flatnonzero(bernoullis[j + 1:size_fit + 1])
+                end = j + 1 + changes[0] if len(changes) else size_fit + 1
+                log_odds = (self._log_block(a_c[start:j], b_c[start:j])
+                            + self._log_block(a_c[j:end], b_c[j:end])
+                            - self._log_block(a_c[start:end], b_c[start:end]))
+                p = expit(logit(self.p) + log_odds)
                 bernoullis[j] = self._rng.binomial(n=1, p=p)
         self.bernoullis = bernoullis
         return self.bernoullis
+
+    def _log_block(self, a_c, b_c):
+        """log marginal likelihood of the sticks sharing one beta variable"""
+        return np.log(self.alpha) + betaln(1 + a_c.sum(),
+                                           self.alpha + b_c.sum())
-- 
2.43.0


From e349477ff10ca4765ca2780e82ce305dc1941572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 22/55] fix: BetaBernoulli.complete(1) on an empty structure

---
 pyrichlet/weight_models/_beta_bernoulli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index f4d8aa1..47aa01e 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -74,10 +74,10 @@ class BetaBernoulli(BaseWeight):
                                              p=self.p,
                                              size=size - len(self.v))
             self.bernoullis = np.concatenate((self.bernoullis, mask_change))
-            mask_change = np.cumsum(mask_change)
             temp_v = np.concatenate((
                 [self.v[-1]],
-                self._rng.beta(a=1, b=self.alpha, size=mask_change[-1])))
+                self._rng.beta(a=1, b=self.alpha, size=mask_change.sum())))
+            mask_change = np.cumsum(mask_change)
             self.v = np.concatenate((self.v, temp_v[mask_change]))
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
-- 
2.43.0


From 6f6ead6218c22b3f441f27470f72c89bb85befbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 23/55] fix: dirichlet_log_eppf at a zero concentration

---
 pyrichlet/utils/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 4d89809..6d65ec1 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.special import digamma, loggamma
+from scipy.special import digamma, loggamma, xlogy
 from scipy.stats import beta, betabinom, binom
 
 
@@ -18,8 +18,8 @@ def log_likelihood_binom(x, n, p):
 def dirichlet_log_eppf(alpha, partition):
     k = len(partition)
     n = sum(partition)
-    res = loggamma(alpha) - loggamma(alpha + n)
-    res += k * np.log(alpha)
+    res = loggamma(alpha + 1) - loggamma(alpha + n)
+    res += xlogy(k - 1, alpha)
     res += np.sum(loggamma(partition))
     return res
 
-- 
2.43.0


From 8546f329014bb2444cbb9672802b4cda57a2c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 24/55] fix: BetaInDirichlet.complete returns the weights and
 starts the urn with one stick

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 2c92567..1cfcd48 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -102,9 +102,14 @@ class BetaInDirichlet(BaseWeight):
         return self.w
 
     def complete(self, size):
+        super().complete(size)
+        if len(self.v) == 0 and len(self.d) > 0:
+            self.random()
         if len(self._v_base) == 0:
             self._v_base = self._rng.beta(1, self.alpha, size=1)
+            self._d_base = np.array([0], dtype=np.int64)
             self._count_base = [1]
+            self.v = self._v_base.copy()
         while len(self.v) < size:
             p = np.array(self._count_base + [self.a], dtype=np.float64)
             p /= p.sum()
@@ -120,3 +125,4 @@ class BetaInDirichlet(BaseWeight):
             self._d_base = np.append(self._d_base, jj)
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        return self.w
-- 
2.43.0


From ebf16846177c4ff45939a48599b70dd7ca03330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 25/55] fix: BetaInDirichlet.random completes a fitted
 structure up to size

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 1cfcd48..87eeacd 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -99,6 +99,8 @@ class BetaInDirichlet(BaseWeight):
         self.v = self._v_base[self._d_base]
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        if size is not None:
+            self.complete(size)
         return self.w
 
     def complete(self, size):
-- 
2.43.0


From 3fe946c03d3c48194f4cd68eadbb48528d98678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 26/55] fix: BetaInDirichlet opens a new inner stick with its
 marginal weight and posterior

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 87eeacd..eed74af 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -62,7 +62,7 @@ class BetaInDirichlet(BaseWeight):
                     self._d_base = np.append(self._d_base, 0)
                 continue
             d_base_reduced = np.delete(self._d_base, j)
-            k = np.max(d_base_reduced)
+            k = np.max(d_base_reduced, initial=-1)
             log_prob = []
             new_base = False
             for dd in range(k + 2):
@@ -70,7 +70,8 @@ class BetaInDirichlet(BaseWeight):
                 if base_count == 0 and not new_base:
                     new_base = True
                     temp_log_prob = (
-                            np.log(self.a) + loggamma(1 + a_c[j])
+                            np.log(self.a) + np.log(self.alpha)
+                            + loggamma(1 + a_c[j])
                             + loggamma(self.alpha + b_c[j])
                             - loggamma(1 + self.alpha + a_c[j] + b_c[j]))
                     log_prob.append(temp_log_prob)
@@ -91,9 +92,12 @@ class BetaInDirichlet(BaseWeight):
                 self._d_base = np.append(self._d_base,
                                          gumbel_max_sampling(log_prob,
                                                              rng=self._rng))
-            if max(self._d_base) <= len(self._v_base):
-                self._v_base = np.concatenate((
-                    self._v_base, [self._rng.beta(a=1, b=self.alpha)]))
+            dd = self._d_base[j]
+            if not np.any(d_base_reduced == dd):
+                if dd == len(self._v_base):
+                    self._v_base = np.append(self._v_base, np.nan)
+                self._v_base[dd] = self._rng.beta(a=1 + a_c[j],
+                                                  b=self.alpha + b_c[j])
         self._count_base = [
             np.sum(self._d_base == j) for j in range(len(self._v_base))]
         self.v = self._v_base[self._d_base]
-- 
2.43.0


From 23f01d6d98a84ec65baa136693a017343ecb04d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 27/55] fix: normalizing constants use the determinant of the
 precision matrix

---
 pyrichlet/mixture_models/_utils.py | 4 ++--
 pyrichlet/utils/functions.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6a7bdef..149c285 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -108,7 +108,7 @@ def cluster(x, w, theta):
 
 def log_wishart_normalization_term(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision)) * (-scale / 2)
+    res = np.log(np.linalg.det(precision)) * (-scale / 2)
     inverse_term = np.log(2) * (scale * dim / 2)
     inverse_term += np.log(np.pi) * (dim * (dim - 1) / 4)
     for i in range(dim):
@@ -119,7 +119,7 @@ def log_wishart_normalization_term(precision, scale):
 
 def e_log_norm_wishart(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision))
+    res = np.log(np.linalg.det(precision))
     res += dim * np.log(2)
     for i in range(dim):
         res += digamma((scale - i) / 2)
diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 6d65ec1..b1bd860 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -31,7 +31,7 @@ def mean_log_beta(a, b):
 def density_students_t(x, mu, precision, nu):
     dim = x.shape[1]
     density = np.exp(loggamma((nu + dim) / 2) - loggamma(nu / 2))
-    density *= np.linalg.norm(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
+    density *= np.linalg.det(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
     density *= (1 + np.einsum('ij,jk,ik->i',
                               x - mu, precision, x - mu
                               ) / nu) ** (-(nu + dim) / 2)
@@ -40,7 +40,7 @@ def density_students_t(x, mu, precision, nu):
 
 def density_normal(x, mu, precision):
     dim = x.shape[1]
-    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.norm(precision))
+    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.det(precision))
     density *= np.exp(- np.einsum('ij,jk,ik->i',
                                   x - mu, precision, x - mu
                                   ) / 2)
-- 
2.43.0


From 3a08ece57f3b770e7ebb2cd0e61539a49a0301bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 28/55] fix: cluster a single observation

---
 pyrichlet/mixture_models/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 149c285..f31f5d5 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -97,7 +97,7 @@ def cluster(x, w, theta):
                                                    theta[j][0],
                                                    theta[j][1],
                                                    1))
-    assign_prob = np.array(assign_prob).T
+    assign_prob = np.atleast_2d(np.array(assign_prob).T)
     assign_prob = assign_prob * w
     assign_prob /= assign_prob.sum(1)[:, None]
     grp = np.argmax(assign_prob, axis=1)
-- 
2.43.0


From f564c2adaff038b65f201005f8faf82b2860aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 29/55] fix: marginal mixture densities of the fitted data and
 of numpy dimensions

---
 pyrichlet/mixture_models/_base.py  | 8 +++++---
 pyrichlet/mixture_models/_utils.py | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 42edc80..cae5b5c 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -258,7 +258,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         y_sim = []
         if periods is None:
             sim_params = self.sim_params
@@ -294,7 +294,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         return _utils.mixture_density(_y,
                                       self.map_sim_params["w"],
                                       self.map_sim_params["theta"],
@@ -1096,9 +1096,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res /= 2
         return res
 
-    def _cast_observations(self, y):
+    def _cast_observations(self, y, dim=None):
         if y is None:
             _y = self.y
+            if dim is not None:
+                _y = _y[:, np.atleast_1d(dim)]
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index f31f5d5..a48acdb 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -63,6 +63,8 @@ def rejection_sample(f, max_y, a=0, b=1, size=None, *, rng=None):
 
 def mixture_density(x, w, theta, dim=None, component=None):
     k = len(w)
+    if dim is not None and not isinstance(dim, (int, np.integer)):
+        dim = np.array(dim)
 
     ret = []
     if component is None:
@@ -75,12 +77,12 @@ def mixture_density(x, w, theta, dim=None, component=None):
                                                theta[j][0],
                                                theta[j][1],
                                                1)*w[j])
-        elif type(dim) in [list, np.ndarray]:
+        elif isinstance(dim, np.ndarray):
             ret.append(multivariate_normal.pdf(x,
                                                theta[j][0][dim],
                                                theta[j][1][:, dim][dim, :],
                                                1)*w[j])
-        elif type(dim) is int:
+        else:
             ret.append(norm.pdf(x[:, 0],
                                 theta[j][0][dim],
                                 np.sqrt(theta[j][1][dim, dim]))*w[j])
-- 
2.43.0


From 995b4650cf307369646dd60140a89ca178d7f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 30/55] fix: var_eap_density marginalizes the predictive
 Student's t

---
 pyrichlet/mixture_models/_base.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index cae5b5c..5d5efa7 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -510,13 +510,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         if dim is None:
             dim = np.arange(_y.shape[1])
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        dim = np.atleast_1d(dim)
+        dof = 1 - self.y.shape[1]
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -525,12 +523,13 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
             v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            v_precision_j = np.linalg.inv(
+                np.linalg.inv(v_precision_j)[:, dim][dim, :])
             f_x += density_students_t(
                 _y, v_mu_j,
-                v_precision_j * (v_scale_j + 1 -
-                                 len_dim) * v_lambda_j / (1 + v_lambda_j),
-                v_scale_j + 1 - len_dim
+                v_precision_j * (v_scale_j +
+                                 dof) * v_lambda_j / (1 + v_lambda_j),
+                v_scale_j + dof
             ) * self.weight_model.variational_mean_w_j(j)
         return f_x
 
-- 
2.43.0


From 19cde06504e8ba35c8bc4af91012b422997866bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 31/55] fix: var_map_density without dimension and its
 marginals

---
 pyrichlet/mixture_models/_base.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 5d5efa7..707bade 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -551,11 +551,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        _y = self._cast_observations(y, dim)
+        if dim is None:
+            dim = np.arange(_y.shape[1])
+        dim = np.atleast_1d(dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -564,9 +563,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
             v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            v_precision_j = np.linalg.inv(
+                np.linalg.inv(v_precision_j)[:, dim][dim, :])
             map_mu = v_mu_j
-            map_precision = (v_scale_j - len_dim) * v_precision_j
+            map_precision = (v_scale_j - self.y.shape[1]) * v_precision_j
             f_x += density_normal(_y, map_mu, map_precision
                                   ) * self.weight_model.variational_mode_w_j(j)
         return f_x
-- 
2.43.0


From 4e9c723dc6a4e39d0c75074b72257c22eeeacb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 32/55] fix: var_eap_affinity_matrix casts the observations

---
 pyrichlet/mixture_models/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 707bade..70365cb 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -594,8 +594,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             var_d = self.var_d
         else:
             _y = self._cast_observations(y)
-            dim = y.shape[1]
-            var_d = np.zeros((self.var_k, y.shape[0]), dtype=np.float64)
+            dim = _y.shape[1]
+            var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
             for j, vt_j in enumerate(self.var_theta):
                 v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
                 log_d_ji = self.weight_model.variational_mean_log_w_j(j)
@@ -604,8 +604,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 log_d_ji -= dim * np.log(2 * np.pi) / 2
                 log_d_ji -= dim / v_lambda_j / 2
                 log_d_ji -= (v_scale_j *
-                             ((y - v_mu_j).T * (
-                                     v_precision_j @ (y - v_mu_j).T)).sum(
+                             ((_y - v_mu_j).T * (
+                                     v_precision_j @ (_y - v_mu_j).T)).sum(
                                  0)
                              ) / 2
                 var_d[j, :] = log_d_ji
-- 
2.43.0


From b623195671cb1823b9ebce24bf7636069eca6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 33/55] fix: var_map_cluster uncertainty of new observations

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 70365cb..9aa4143 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -681,7 +681,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                  v_precision_j @ (_y - v_mu_j).T)).sum(0)
                          )
             var_d[j, :] = log_d_ji
-        var_d -= var_d.mean(0)
+        var_d -= var_d.max(axis=0, initial=-np.inf)
         var_d = np.exp(var_d)
         var_d += np.finfo(np.float64).eps
         var_d /= var_d.sum(0)
@@ -689,7 +689,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             return var_d.argmax(0)
         else:
             d = var_d.argmax(0)
-            return d, var_d[d]
+            return d, 1 - var_d[d, range(len(d))]
 
     def get_n_groups(self):
         return self.n_groups
-- 
2.43.0


From d5aadcc0385450ba64ced6e15e255de794628109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 34/55] fix: accept pandas Series observations

---
 pyrichlet/mixture_models/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 9aa4143..dfecb93 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -708,7 +708,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             self.y = y.to_numpy()
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy()
+            self.y = y.to_numpy().reshape(-1, 1)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
@@ -1103,6 +1103,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
+            elif isinstance(y, pd.Series):
+                _y = y.to_numpy().reshape(-1, 1)
             elif isinstance(y, list):
                 _y = np.array(y)
                 if _y.ndim == 1:
-- 
2.43.0


From 9dd0b675ec38beb5c4b4e9a36a4cee99b14834fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 35/55] fix: ELBO subtracts the entropy of the weights'
 variational distribution

---
 pyrichlet/mixture_models/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index dfecb93..e18f98d 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -982,7 +982,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         ret += self._e_log_p_w()
         ret += self._e_log_p_theta()
         ret -= self._e_log_q_d()
-        ret -= self._e_loq_q_w()
+        ret -= self._e_log_q_w()
         ret -= self._e_log_q_theta()
         return ret
 
@@ -1080,8 +1080,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def _e_log_q_d(self):
         return np.sum(self.var_d * np.log(self.var_d))
 
-    def _e_loq_q_w(self):
-        return self.weight_model.variational_mean_log_p_w()
+    def _e_log_q_w(self):
+        return self.weight_model.variational_mean_log_q_w()
 
     def _e_log_q_theta(self):
         dim = self.y.shape[1]
-- 
2.43.0


From 6cf35411a1d6c775f42e6f9556866b2b04a3c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 36/55] fix: variational Normal-Wishart update of the precision
 matrices

---
 pyrichlet/mixture_models/_base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index e18f98d..217e5f1 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -993,10 +993,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         var_theta = []
         for vd_j in self.var_d:
             n_j = vd_j.sum()
-            x_bar_j = (vd_j / n_j) @ self.y
+            if n_j > 0:
+                x_bar_j = (vd_j / n_j) @ self.y
+            else:
+                x_bar_j = self.mu_prior
             ns_j = np.einsum('i,ij,ik->jk',
-                             vd_j, (self.y - x_bar_j), (self.y - x_bar_j)
-                             ) / n_j
+                             vd_j, (self.y - x_bar_j), (self.y - x_bar_j))
             v_lambda_j = self.lambda_prior + n_j
             v_scale_j = self.nu_prior + n_j
             v_mu_j = (self.lambda_prior * self.mu_prior +
@@ -1004,8 +1006,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             v_precision_j = (self.psi_prior + ns_j +
                              self.lambda_prior * n_j / (self.lambda_prior +
                                                         n_j) *
-                             (x_bar_j - self.mu_prior) @ (x_bar_j -
-                                                          self.mu_prior))
+                             np.outer(x_bar_j - self.mu_prior,
+                                      x_bar_j - self.mu_prior))
             v_precision_j = np.linalg.inv(v_precision_j)
             var_theta.append([v_mu_j, v_lambda_j, v_precision_j, v_scale_j])
         self.var_theta = var_theta
-- 
2.43.0


From b49f48563559ab17b87d92eaa62d3a3f49a0bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 37/55] fix: ELBO expected log-likelihood weights each group by
 its size

---
 pyrichlet/mixture_models/_base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 217e5f1..6547782 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1037,16 +1037,19 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res = 0
         for vd_j, vt_j in zip(self.var_d, self.var_theta):
             n_j = vd_j.sum()
+            if n_j == 0:
+                continue
             x_bar_j = (vd_j / n_j) @ self.y
             s_j = (vd_j / n_j * (self.y - x_bar_j).T) @ (self.y - x_bar_j)
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
-            res -= dim / v_lambda_j
-            res -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
-            res -= (v_scale_j *
-                    (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
-                    )
-        res -= dim * np.log(2 * np.pi) * self.var_k
+            res_j = _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
+            res_j -= dim / v_lambda_j
+            res_j -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
+            res_j -= (v_scale_j *
+                      (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
+                      )
+            res_j -= dim * np.log(2 * np.pi)
+            res += n_j * res_j
         res /= 2
         return res
 
-- 
2.43.0


From 944dd2b30f13f2e1a9d1c8e117fbcc170354ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 38/55] fix: ELBO entropy of the atoms' Normal-Wishart
 distributions

---
 pyrichlet/mixture_models/_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 6547782..787b716 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1093,11 +1093,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res = 0
         for vt_j in self.var_theta:
             _, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
-            res += dim * (np.log(v_lambda_j / (2 * np.pi)))
+            res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j) / 2
+            res += dim * (np.log(v_lambda_j / (2 * np.pi))) / 2
             res -= _utils.entropy_wishart(v_precision_j, v_scale_j)
-        res += dim * self.var_k
-        res /= 2
+        res -= dim * self.var_k / 2
         return res
 
     def _cast_observations(self, y, dim=None):
-- 
2.43.0


From b33a9d6fb73f74e1515e01757c0355c84e07903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 39/55] fix: var_converged reports whether the last fit reached
 the tolerance

---
 pyrichlet/mixture_models/_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 787b716..6319e57 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -230,8 +230,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             if t is not None:
                 t.update()
         self.var_fitted = True
-        if iterations < self.total_iter:
-            self.var_converged = True
+        self.var_converged = bool(elbo_diff <= tol)
 
     def gibbs_eap_density(self, y=None, dim=None, component=None,
                           periods=None):
-- 
2.43.0


From 6f1ba4410e5e19c874c1e74eec96581c87df4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 40/55] fix: saved states hold an atom for every weight

---
 pyrichlet/mixture_models/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 6319e57..c5e490d 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -856,8 +856,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.weight_model.fit_variational(self.var_d)
 
     def _get_run_params(self):
-        return {"w": self.weight_model.get_weights(),
-                "theta": dict(self.theta),
+        w = self.weight_model.get_weights()
+        return {"w": w,
+                "theta": {j: self.theta[j] for j in range(len(w))},
                 "u": self.u,
                 "d": self.d}
 
-- 
2.43.0


From d486140f972e11e4f575720f5a927f7b1b91447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 41/55] fix: spectral consensus clustering draws from the
 model's generator

---
 pyrichlet/mixture_models/_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c5e490d..9073faa 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -350,7 +350,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with the fit_gibbs method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(
+            n_clusters=n_clusters, affinity='precomputed',
+            random_state=np.random.RandomState(self.rng.bit_generator))
         return sc.fit_predict(self.gibbs_eap_affinity_matrix(y))
 
     def gibbs_map_cluster(self, y=None, full=False):
@@ -636,7 +638,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_variational init_method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(
+            n_clusters=n_clusters, affinity='precomputed',
+            random_state=np.random.RandomState(self.rng.bit_generator))
         return sc.fit_predict(self.var_eap_affinity_matrix(y))
 
     def var_map_cluster(self, y=None, full=False):
-- 
2.43.0


From 43878fdc35eabda32188104647e7191fe93be206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 42/55] fix: a cold start deduces the data-dependent priors
 from the new data

---
 pyrichlet/mixture_models/_base.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 9073faa..e79ec31 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -68,6 +68,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.lambda_prior = lambda_prior
         self.psi_prior = psi_prior
         self.nu_prior = nu_prior
+        self._data_priors = {}
 
         self.weight_model = weight_model
         self.y = np.array([])
@@ -133,7 +134,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
             parameters as initialization
         """
-        self._initialize_common_params(y)
+        self._initialize_common_params(y, warm_start=warm_start)
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
                                           method=init_method)
@@ -204,7 +205,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if show_progress is not None:
             self.show_progress = show_progress
-        self._initialize_common_params(y)
+        self._initialize_common_params(y, warm_start=warm_start)
         if not warm_start:
             if hasattr(self, 'n') and n_groups is None:
                 var_k = self.n
@@ -703,7 +704,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def get_sim_params(self):
         return self.sim_params
 
-    def _initialize_common_params(self, y):
+    def _initialize_common_params(self, y, warm_start=False):
         """
         Initialize the prior variables if not given
         """
@@ -733,6 +734,15 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             raise TypeError('Invalid type for variable y')
 
+        if not warm_start:
+            # Priors deduced from the data of a previous fit start over
+            for name, value in self._data_priors.items():
+                if getattr(self, name) is value:
+                    setattr(self, name, None)
+            self._data_priors = {}
+        missing_priors = [name
+                          for name in ('mu_prior', 'psi_prior', 'nu_prior')
+                          if getattr(self, name) is None]
         if self.mu_prior is None:
             self.mu_prior = self.y.mean(axis=0)
         else:
@@ -743,6 +753,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             self.psi_prior = np.atleast_2d(self.psi_prior)
         if self.nu_prior is None:
             self.nu_prior = self.y.shape[1]
+        for name in missing_priors:
+            self._data_priors[name] = getattr(self, name)
 
     def _initialize_gibbs_params(self, init_groups=None, method="kmeans"):
         """
-- 
2.43.0


From 8edfd1d59208188bd1f5a0ce22458743f90e7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 43/55] fix: a cold start discards the maximum a posteriori
 state of past runs

---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index e79ec31..5be00f8 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -791,6 +791,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.n_groups = []
         self.n_atoms = []
         self.total_saved_steps = 0
+        self.map_sim_params = None
+        self.map_log_likelihood = -np.inf
 
         self.theta = defaultdict(atom_generator)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
-- 
2.43.0


From 1d79c4f5ff68da8d059f85cad63a0bd6d4e1f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 44/55] fix: a cold start draws the initial weights from the
 prior

---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 5be00f8..cc7d1e9 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -798,6 +798,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
         self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,
                                   len(self.y))
+        self.weight_model.reset()
+        self.weight_model.random(1)
         if init_groups is None:
             self.weight_model.tail(1 - min(self.u))
         else:
-- 
2.43.0


From a8a799389c6451f73e86e624392bb2257b700163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 45/55] fix: mixtures and their weighting structures share one
 random generator

---
 pyrichlet/mixture_models/_beta_bernoulli_mixture.py         | 2 ++
 pyrichlet/mixture_models/_beta_binomial_mixture.py          | 2 ++
 pyrichlet/mixture_models/_beta_in_beta_mixture.py           | 2 ++
 pyrichlet/mixture_models/_beta_in_dirichlet_mixture.py      | 2 ++
 pyrichlet/mixture_models/_dirichlet_distribution_mixture.py | 2 ++
 pyrichlet/mixture_models/_dirichlet_process_mixture.py      | 2 ++
 pyrichlet/mixture_models/_equal_weighted_mixture.py         | 2 ++
 pyrichlet/mixture_models/_frequency_weighted_mixture.py     | 2 ++
 pyrichlet/mixture_models/_geometric_process_mixture.py      | 2 ++
 pyrichlet/mixture_models/_pitman_yor_process_mixture.py     | 2 ++
 10 files changed, 20 insertions(+)

diff --git a/pyrichlet/mixture_models/_beta_bernoulli_mixture.py b/pyrichlet/mixture_models/_beta_bernoulli_mixture.py
index 3b758ab..643f07e 100644
--- a/pyrichlet/mixture_models/_beta_bernoulli_mixture.py
+++ b/pyrichlet/mixture_models/_beta_bernoulli_mixture.py
@@ -1,8 +1,10 @@
 from ._base import BaseGaussianMixture
 from ..weight_models import BetaBernoulli
+from ..utils.validators import rng_parser
 
 
 class BetaBernoulliMixture(BaseGaussianMixture):
     def __init__(self, *, p=1, alpha=1, rng=None, **kwargs):
+        rng = rng_parser(rng)
         weight_model = BetaBernoulli(p=p, alpha=alpha, rng=rng)
         super().__init__(weight_model=weight_model, rng=rng, **kwargs)
diff --git a/pyrichlet/mixture_models/_beta_binomial_mixture.py b/pyrichlet/mixture_models/_beta_binomial_mixture.py
index b5b69b1..6bb6d65 100644
--- a/pyrichlet/mixture_models/_beta_binomial_mixture.py
+++ b/pyrichlet/mixture_models/_beta_binomial_mixture.py
@@ -1,11 +1,13 @@
 from ._base import BaseGaussianMixture
 from ..weight_models import BetaBinomial
+from ..utils.validators import rng_parser
 
 
 class BetaBinomialMixture(BaseGaussianMixture):
     def __init__(self, *, n=0, alpha=1, mu_prior=None, lambda_prior=1,
                  psi_prior=None, nu_prior=None, total_iter=1000, burn_in=100,
                  subsample_steps=1, rng=None):
+        rng = rng_parser(rng)
         weight_model = BetaBinomial(n=n, alpha=alpha, rng=rng)
         super().__init__(weight_model=weight_model, mu_prior=mu_prior,
                          lambda_prior=lambda_prior, psi_prior=psi_prior,
diff --git a/pyrichlet/mixture_models/_beta_in_beta_mixture.py b/pyrichlet/mixture_models/_beta_in_beta_mixture.py
index 07cba21..3a3b576 100644
--- a/pyrichlet/mixture_models/_beta_in_beta_mixture.py
+++ b/pyrichlet/mixture_models/_beta_in_beta_mixture.py
@@ -1,5 +1,6 @@
 from ._base import BaseGaussianMixture
 from ..weight_models import BetaInBeta
+from ..utils.validators import rng_parser
 
 
 class BetaInBetaMixture(BaseGaussianMixture):
@@ -7,6 +8,7 @@ class BetaInBetaMixture(BaseGaussianMixture):
                  lambda_prior=1, psi_prior=None, nu_prior=None,
                  p_method="geometric", total_iter=1000,
                  burn_in=100, subsample_steps=1, rng=None):
+        rng = rng_parser(rng)
         weight_model = BetaInBeta(x=x, alpha=alpha, a=a, b=b,
                                   p_method=p_method, rng=rng)
         super().__init__(weight_model=weight_model, mu_prior=mu_prior,
diff --git a/pyrichlet/mixture_models/_beta_in_dirichlet_mixture.py b/pyrichlet/mixture_models/_beta_in_dirichlet_mixture.py
index 102409b..1e19a7d 100644
--- a/pyrichlet/mixture_models/_beta_in_dirichlet_mixture.py
+++ b/pyrichlet/mixture_models/_beta_in_dirichlet_mixture.py
@@ -1,8 +1,10 @@
 from ._base import BaseGaussianMixture
 from ..weight_models import BetaInDirichlet
+from ..utils.validators import rng_parser
 
 
 class BetaInDirichletMixture(BaseGaussianMixture):
     def __init__(self, *, alpha=1, a=0, rng=None, **kwargs):
+        rng = rng_parser(rng)
         weight_model = BetaInDirichlet(alpha=alpha, a=a, rng=rng)
         super().__init__(weight_model=weight_model, rng=rng, **kwargs)
diff --git a/pyrichlet/mixture_models/_dirichlet_distribution_mixture.py b/pyrichlet/mixture_models/_dirichlet_distribution_mixture.py
index f4c222e..8dec13c 100644
--- a/pyrichlet/mixture_models/_dirichlet_distribution_mixture.py
+++ b/pyrichlet/mixture_models/_dirichlet_distribution_mixture.py
@@ -1,9 +1,11 @@
 from ._base import BaseGaussianMixture
 from ..weight_models import DirichletDistribution
+from ..utils.validators import rng_parser
 
 
 class DirichletDistributionMixture(BaseGaussianMixture):
     def __init__(self, *, n=1, alpha=1, rng=None, **kwargs):
+        rng = rng_parser(rng)
         weight_model = DirichletDistribution(n=n, alpha=alpha, rng=rng)
         self.n = n
         super().__init__(weight_model=weight_model, rng=rng, **kwargs)
diff --git a/pyrichlet/mixture_models/_dirichlet_process_mixture.py b/pyrichlet/mixture_models/_dirichlet_process_mixture.py
index 3c16314..7967aa3 100644
--- a/pyrichlet/mixture_models/_dirichlet_process_mixture.py
+++ b/pyrichlet/mixture_models/_dirichlet_process_mixture.py
@@ -1,8 +1,10 @@
 from ._base import BaseGaussianMixture
 from ..weight_models import DirichletProcess
+from ..utils.validators import rng_parser
 
 
 class DirichletProcessMixture(BaseGaussianMixture):
     def __init__(self, *, alpha=1, rng=None, **kwargs):
+        rng = rng_parser(rng)
         weight_model = DirichletProcess(alpha=alpha, rng=rng)
         super().__init__(weight_model=weight_model, rng=rng, **kwargs)
diff --git a/pyrichlet/mixture_models/_equal_weighted_mixture.py b/pyrichlet/mixture_models/_equal_weighted_mixture.py
index c6e2064..3d60b11 100644
--- a/pyrichlet/mixture_models/_equal_weighted_mixture.py
+++ b/pyrichlet/mixture_models/_equal_weighted_mixture.py
@@ -1,9 +1,11 @@
 from ._base import BaseGaussianMixture
 from ..weight_models import EqualWeighting
+from ..utils.validators import rng_parser
 
 
 class EqualWeightedMixture(BaseGaussianMixture):
     def __init__(self, *, n=1, rng=None, **kwargs):
+        rng = rng_parser(rng)
         weight_model = EqualWeighting(n=n, rng=rng)
         self.n = n
         super().__init__(weight_model=weight_model, rng=rng, **kwargs)
diff --git a/pyrichlet/mixture_models/_frequency_weighted_mixture.py b/pyrichlet/mixture_models/_frequency_weighted_mixture.py
index 86953b8..8a2a829 100644
--- a/pyrichlet/mixture_models/_frequency_weighted_mixture.py
+++ b/pyrichlet/mixture_models/_frequency_weighted_mixture.py
@@ -1,9 +1,11 @@
 from ._base import BaseGaussianMixture
 from ..weight_models import FrequencyWeighting
+from ..utils.validators import rng_parser
 
 
 class FrequencyWeightedMixture(BaseGaussianMixture):
     def __init__(self, *, n=1, rng=None, **kwargs):
+        rng = rng_parser(rng)
         weight_model = FrequencyWeighting(n=n, rng=rng)
         self.n = n
         super().__init__(weight_model=weight_model, rng=rng, **kwargs)
diff --git a/pyrichlet/mixture_models/_geometric_process_mixture.py b/pyrichlet/mixture_models/_geometric_process_mixture.py
index bad096d..129ac62 100644
--- a/pyrichlet/mixture_models/_geometric_process_mixture.py
+++ b/pyrichlet/mixture_models/_geometric_process_mixture.py
@@ -1,8 +1,10 @@
 from ._base import BaseGaussianMixture
 from ..weight_models import GeometricProcess
+from ..utils.validators import rng_parser
 
 
 class GeometricProcessMixture(BaseGaussianMixture):
     def __init__(self, *, a=1, b=1, rng=None, **kwargs):
+        rng = rng_parser(rng)
         weight_model = GeometricProcess(a=a, b=b, rng=rng)
         super().__init__(weight_model=weight_model, rng=rng, **kwargs)
diff --git a/pyrichlet/mixture_models/_pitman_yor_process_mixture.py b/pyrichlet/mixture_models/_pitman_yor_process_mixture.py
index a29372f..689145f 100644
--- a/pyrichlet/mixture_models/_pitman_yor_process_mixture.py
+++ b/pyrichlet/mixture_models/_pitman_yor_process_mixture.py
@@ -1,8 +1,10 @@
 from ._base import BaseGaussianMixture
 from ..weight_models import PitmanYorProcess
+from ..utils.validators import rng_parser
 
 
 class PitmanYorMixture(BaseGaussianMixture):
     def __init__(self, *, alpha=1, pyd=0, rng=None, **kwargs):
+        rng = rng_parser(rng)
         weight_model = PitmanYorProcess(pyd=pyd, alpha=alpha, rng=rng)
         super().__init__(weight_model=weight_model, rng=rng, **kwargs)
-- 
2.43.0


From a480edb6c85a046edcb427b0ac85f6536796466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 46/55] fix: GeometricProcess completes a fitted structure from
 the posterior

---
 pyrichlet/weight_models/_geometric_process.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index fea5dfc..206bd36 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -25,12 +25,16 @@ class GeometricProcess(BaseWeight):
         if size is None:
             size = max(self.d) + 1
         self.v = self.v[:0]
-        self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())
+        if len(self.d) == 0:
+            self.p = self._rng.beta(self.a, self.b)
         self.complete(size)
         return self.w
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) == 0 and len(self.d) > 0:
+            self.p = self._rng.beta(self.a + len(self.d),
+                                    self.b + self.d.sum())
         if len(self.v) < size:
             self.v = np.repeat(self.p, size)
             self.w = self.v * np.cumprod(np.concatenate(([1],
@@ -40,6 +44,8 @@ class GeometricProcess(BaseWeight):
     def tail(self, x):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
+        if len(self.v) == 0 and len(self.d) > 0:
+            self.random(1)
         size = max(1, int(np.ceil(np.log(1 - x) / np.log(1 - self.p))))
         self.complete(size)
         return self.w
-- 
2.43.0


From 6732905add70b9325cf268e813333572a6b32bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 47/55] fix: Gibbs sampling of a single observation

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index cc7d1e9..80d6643 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -944,7 +944,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                             self.theta[j][1],
                                             1)
                  for j in range(self.weight_model.get_size())]
-            )
+            ).reshape(-1, len(self.y))
             log_probability += np.log(np.greater.outer(
                 self.weight_model.get_weights(),
                 self.u))
-- 
2.43.0


From 7160705c6abc22c1ac2c5022a883ef077532f644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:31 +0000
Subject: [PATCH 48/55] fix: keep a copy of pandas observations

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 80d6643..f7f69a8 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -709,10 +709,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         Initialize the prior variables if not given
         """
         if isinstance(y, pd.DataFrame):
-            self.y = y.to_numpy()
+            self.y = y.to_numpy(copy=True)
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy().reshape(-1, 1)
+            self.y = y.to_numpy(copy=True).reshape(-1, 1)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
-- 
2.43.0


From a1177745e3fdeb727420dc5326e119daf023d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 49/55] fix: rejection sampling of arrays redraws both
 coordinates of a proposal

---
 pyrichlet/mixture_models/_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index a48acdb..bd7ad07 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -55,9 +55,11 @@ def rejection_sample(f, max_y, a=0, b=1, size=None, *, rng=None):
     else:
         x = rng.uniform(a, b, size)
         y = rng.uniform(0, max_y, size)
-        while np.any(y > f(x)):
-            x[y > f(x)] = rng.uniform(a, b, np.sum(y > f(x)))
-            y[y > f(x)] = rng.uniform(0, max_y, np.sum(y > f(x)))
+        rejected = y > f(x)
+        while np.any(rejected):
+            x[rejected] = rng.uniform(a, b, np.sum(rejected))
+            y[rejected] = rng.uniform(0, max_y, np.sum(rejected))
+            rejected = y > f(x)
         return x
 
 
-- 
2.43.0


From 627c929e9610dde0cfa667ae7866c8e57605ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 50/55] fix: an unknown init_method no longer discards the past
 Gibbs run

---
 pyrichlet/mixture_models/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index f7f69a8..610318d 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -134,6 +134,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
             parameters as initialization
         """
+        if not warm_start and init_method not in ('kmeans', 'random',
+                                                  'variational'):
+            raise AttributeError("init_method param must be one of 'kmeans', "
+                                 "'random', 'variational'")
         self._initialize_common_params(y, warm_start=warm_start)
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
-- 
2.43.0


From 8f129429cfdec9c225d472842e856e1d1098b6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:01 +0000
Subject: [PATCH 51/55] fix: a refused variational fit no longer replaces the
 past one

---
 pyrichlet/mixture_models/_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 610318d..47ae12d 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -209,12 +209,16 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if show_progress is not None:
             self.show_progress = show_progress
+        if not warm_start:
+            if n_groups is None and not hasattr(self, 'n'):
+                raise AttributeError("n_groups must be a positive integer")
+            if init_method not in ('kmeans', 'random'):
+                raise AttributeError("init_method param must be one of "
+                                     "'kmeans', 'random'")
         self._initialize_common_params(y, warm_start=warm_start)
         if not warm_start:
             if hasattr(self, 'n') and n_groups is None:
                 var_k = self.n
-            elif n_groups is None:
-                raise AttributeError("n_groups must be a positive integer")
             else:
                 var_k = n_groups
             self._initialize_variational_params(var_k=var_k,
-- 
2.43.0


From b28a82ea285ca04b4f04c2b47b5e62556035efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:59 +0000
Subject: [PATCH 52/55] fix: pair plot of observations with a single feature

---
 pyrichlet/mixture_models/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 47ae12d..427b43c 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -405,6 +405,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         grp = self.gibbs_map_cluster()
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
+                                 squeeze=False,
                                  figsize=(n_feats * 2, n_feats * 2))
         fig.set_dpi(150)
         alpha = 0.05
-- 
2.43.0


From c5ca63d55f548fd5d56b83cf56b13e180868f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:59 +0000
Subject: [PATCH 53/55] fix: contours of the pair plot enclose 95% of a
 component

---
 pyrichlet/mixture_models/_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 427b43c..1e1d19e 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -486,8 +486,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                         sigma = self.map_sim_params['theta'][j][1]
                         sigma = sigma[[it, it2], :][:, [it, it2]]
                         ldl_sigma = ldl(sigma)
-                        sig_sq = ldl_sigma[0] @ np.sqrt(
-                            ldl_sigma[1]) @ ldl_sigma[0].T
+                        sig_sq = (ldl_sigma[0] @ np.sqrt(ldl_sigma[1])).T
                         circle_points = np.array(
                             [np.cos(np.linspace(0, 2 * np.pi, 100)),
                              np.sin(np.linspace(0, 2 * np.pi,
-- 
2.43.0


From e22b09aac88784b670367d2b000d05183e22afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:32 +0000
Subject: [PATCH 54/55] fix: pair plot shows the component of each cluster

---
 pyrichlet/mixture_models/_base.py  | 25 ++++++++++++++-----------
 pyrichlet/mixture_models/_utils.py |  7 ++++++-
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 1e1d19e..5f36c2c 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -402,7 +402,14 @@ class BaseGaussianMixture(metaclass=ABCMeta):
 
         names = self._column_names
         n_feats = self.y.shape[1]
-        grp = self.gibbs_map_cluster()
+        if not self.gibbs_fitted:
+            raise NotFittedError(
+                "Object must be fitted with fit_gibbs method")
+        # Clusters are numbered consecutively, components might not be
+        components, grp = np.unique(
+            _utils.map_component(self.y, self.map_sim_params["w"],
+                                 self.map_sim_params["theta"])[0],
+            return_inverse=True)
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
                                  squeeze=False,
@@ -411,10 +418,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         alpha = 0.05
         alpha_radius = np.sqrt(chi2.ppf(1 - alpha, 2))
         color = plt.get_cmap('tab10')
-        if max(grp) > 10:
-            color = color(np.linspace(0, 1, len(np.unique(grp)) + 1))
-        else:
-            color = color(np.linspace(0, 1, 10))
+        color = color(np.linspace(0, 1, max(10, len(components))))
 
         # We set labels for each subplot on the left and lower borders
         # and set a shared y-axis for all subplots except those in the diagonal
@@ -457,14 +461,13 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     y_range = np.linspace(y_min - y_ptp / 4,
                                           y_max + y_ptp / 4,
                                           100)
-                    for j in np.unique(grp):
+                    for c, j in zip(color, components):
                         dens = self.gibbs_map_density(y_range, dim=it,
                                                       component=j)
-                        # ax.plot(y_range, dens, c=color[j])
                         ax.fill_between(y_range, dens, interpolate=True,
-                                        color=color[j], alpha=0.5)
+                                        color=c, alpha=0.5)
                     for j in range(len(self.map_sim_params['w'])):
-                        if j in grp:
+                        if j in components:
                             continue
                         dens = self.gibbs_map_density(y_range, dim=it,
                                                       component=j)
@@ -480,7 +483,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 else:
                     ax.scatter(self.y[:, it], self.y[:, it2], s=10,
                                c=color[grp], alpha=0.5)
-                    for j in np.unique(grp):
+                    for c, j in zip(color, components):
                         mu = self.map_sim_params['theta'][j][0]
                         mu = mu[[it, it2]]
                         sigma = self.map_sim_params['theta'][j][1]
@@ -493,7 +496,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                                 100))]).T * alpha_radius
                         circle_points = np.matmul(circle_points, sig_sq) + mu
                         ax.plot(circle_points[:, 0], circle_points[:, 1],
-                                linestyle='--', c=color[j])
+                                linestyle='--', c=c)
                         # break
 
     def var_eap_density(self, y=None, dim=None, component=None):
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index bd7ad07..0a905b9 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -93,7 +93,7 @@ def mixture_density(x, w, theta, dim=None, component=None):
     return ret
 
 
-def cluster(x, w, theta):
+def map_component(x, w, theta):
     k = len(w)
     assign_prob = []
     for j in range(k):
@@ -106,6 +106,11 @@ def cluster(x, w, theta):
     assign_prob /= assign_prob.sum(1)[:, None]
     grp = np.argmax(assign_prob, axis=1)
     uncertainty = 1 - assign_prob[range(len(x)), grp]
+    return grp, uncertainty
+
+
+def cluster(x, w, theta):
+    grp, uncertainty = map_component(x, w, theta)
     u_grp, ret = np.unique(grp, return_inverse=True)
     return ret, uncertainty
 
-- 
2.43.0


From afc1b94d3b6cf95a8c44963138b1b76b8bb11431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:47 +0000
Subject: [PATCH 55/55] fix: clusters of points far from every component are
 not undefined

---
 pyrichlet/mixture_models/_utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 0a905b9..72e5889 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -95,15 +95,17 @@ def mixture_density(x, w, theta, dim=None, component=None):
 
 def map_component(x, w, theta):
     k = len(w)
+    with np.errstate(divide='ignore'):
+        log_w = np.log(w)
     assign_prob = []
     for j in range(k):
-        assign_prob.append(multivariate_normal.pdf(x,
-                                                   theta[j][0],
-                                                   theta[j][1],
-                                                   1))
+        assign_prob.append(multivariate_normal.logpdf(x,
+                                                      theta[j][0],
+                                                      theta[j][1],
+                                                      1) + log_w[j])
     assign_prob = np.atleast_2d(np.array(assign_prob).T)
-    assign_prob = assign_prob * w
-    assign_prob /= assign_prob.sum(1)[:, None]
+    assign_prob = np.exp(assign_prob - assign_prob.max(axis=1)[:, None])
+    assign_prob /= assign_prob.sum(axis=1)[:, None]
     grp = np.argmax(assign_prob, axis=1)
     uncertainty = 1 - assign_prob[range(len(x)), grp]
     return grp, uncertainty
-- 
2.43.0

