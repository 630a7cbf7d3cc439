From 6c141c74052b43342fd7f7ec4b95c056aedf664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 01/33] fix: multi-fidelity samplers no longer empty the
 caller's num_samples list

---
 src/mfpml/design_of_experiment/mf_samplers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 5b572f3..b688648 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -58,6 +58,8 @@ class MultiFidelitySampler:
 
         # initialize the samples
         data = []
+        # work on a copy, the list belongs to the caller
+        num_samples = list(num_samples)
         # check the number of samples
         self._mf_samples_rules(num_samples)
 
-- 
2.43.0


From 60a4fa5ba1039eed6e9817732941ffadc4ae133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 02/33] fix: nested multi-fidelity LHS depends on its seed only

---
 src/mfpml/design_of_experiment/mf_samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index b688648..f95c28f 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -213,7 +213,8 @@ class MFLatinHyperCube(MultiFidelitySampler):
                             data_higher_fidelity) -> None:
 
         # generate index randomly for nested sampling without repeating
-        index = np.random.choice(
+        # (own generator: the design only depends on the seed)
+        index = np.random.RandomState(self.seed).choice(
             np.arange(data_higher_fidelity.shape[0]),
             size=num_sample,
             replace=False
-- 
2.43.0


From 9d5d417b4be1f791bbfb4c64fc8f47982821d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 03/33] fix: SobolSequence no longer draws 2**num_samples
 points to throw them away

---
 src/mfpml/design_of_experiment/sf_samplers.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 891412d..8d76d64 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,9 +311,6 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        # generate lots of samples first
-        sobol_sampler.random_base2(m=num_samples)
-        _ = sobol_sampler.reset()
         _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
-- 
2.43.0


From 9493760127c1f5d135b034af173a0ea394525eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 04/33] fix: AckleyN2 optimum and optimum_scheme were swapped

---
 src/mfpml/problems/sf_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 197fb0b..9a7a80b 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -506,8 +506,8 @@ class AckleyN2(Functions):
     num_obj: int = 1
     num_cons: int = 0
     input_domain: np.ndarray = np.array([[-32.0, 32.0], [-32.0, 32.0]])
-    optimum: float = [0.0, 0.0]
-    optimum_scheme: List = -200.0
+    optimum: float = -200.0
+    optimum_scheme: List = [0.0, 0.0]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From 8915420fcea1d50e56d2f2045258e1edbfae490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 05/33] fix: GoldPrice optimum_scheme is (0, -1)

---
 src/mfpml/problems/sf_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 9a7a80b..2a423bb 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -93,7 +93,7 @@ class GoldPrice(Functions):
     num_cons: int = 0
     input_domain = np.array([[-2.0, 2.0], [-2.0, 2.0]])
     optimum: float = 3.0
-    optimum_scheme: List = [0.0, 1.0]
+    optimum_scheme: List = [0.0, -1.0]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From 37dfa0faf90bdb3a7ae422058b54afab9e6909ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 06/33] fix: Ackley/Thevenot instances no longer overwrite each
 other's dimension, domain and optimum

---
 src/mfpml/problems/functions.py    | 10 +++++-----
 src/mfpml/problems/sf_functions.py | 19 +++++++------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/mfpml/problems/functions.py b/src/mfpml/problems/functions.py
index bb09e83..c1e0a54 100644
--- a/src/mfpml/problems/functions.py
+++ b/src/mfpml/problems/functions.py
@@ -227,7 +227,7 @@ class Functions(ABC):
         dimension: int
             dimension of the problem
         """
-        return self.__class__.num_dim
+        return self.num_dim
 
     @property
     def _get_low_fidelity(self) -> list:
@@ -240,7 +240,7 @@ class Functions(ABC):
 
         """
 
-        return self.__class__.low_fidelity
+        return self.low_fidelity
 
     @property
     def _optimum(self) -> float:
@@ -252,7 +252,7 @@ class Functions(ABC):
             name of the class
 
         """
-        return self.__class__.optimum
+        return self.optimum
 
     @property
     def _optimum_variable(self) -> list:
@@ -264,7 +264,7 @@ class Functions(ABC):
             Best design scheme
 
         """
-        return self.__class__.optimum_scheme
+        return self.optimum_scheme
 
     @property
     def _input_domain(self) -> np.ndarray:
@@ -274,7 +274,7 @@ class Functions(ABC):
         -------
 
         """
-        return self.__class__.input_domain
+        return self.input_domain
 
 
 class FunctionWrapper:
diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 2a423bb..0a74e55 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -380,7 +380,7 @@ class Thevenot(Functions):
         )
         self.m = m
         self.beta = beta
-        # update the information of function class
+        # the optimum depends on the dimension of this instance
         self.__update_parameters()
 
     def f(self, x: np.ndarray) -> np.ndarray:
@@ -404,14 +404,12 @@ class Thevenot(Functions):
 
     def __update_parameters(self):
 
-        self.__class__.num_dim = self.num_dim
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for i in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for i in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class Ackley(Functions):
@@ -453,7 +451,7 @@ class Ackley(Functions):
         self.a = a
         self.b = b
         self.c = c
-        # update the information of function class
+        # the optimum depends on the dimension of this instance
         self.__update_parameters()
 
     def get_param(self) -> dict[str, float]:
@@ -483,21 +481,18 @@ class Ackley(Functions):
 
     def __update_parameters(self) -> None:
         """
-        update the class variable information
+        update the information that depends on the dimension
         Returns
         -------
 
         """
 
-        self.__class__.num_dim = self.num_dim
-
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for _ in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for _ in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class AckleyN2(Functions):
-- 
2.43.0


From ef3435d0b861e13a65a4a5b6166d6012094d63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 07/33] fix: AckleyN2 refuses dimensions other than 2,
 Ackley/Thevenot refuse dimension 0

---
 src/mfpml/problems/sf_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 0a74e55..6cb45f8 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -359,7 +359,7 @@ class Thevenot(Functions):
     @classmethod
     def is_dim_compatible(cls, d) -> Any:
         assert (d is None) or (
-            isinstance(d, int) and (not d < 0)
+            isinstance(d, int) and (d > 0)
         ), "The dimension d must be None or a positive integer"
         return (d is None) or (d > 0)
 
@@ -425,7 +425,7 @@ class Ackley(Functions):
     @classmethod
     def is_dim_compatible(cls, d):
         assert (d is None) or (
-            isinstance(d, int) and (not d < 0)
+            isinstance(d, int) and (d > 0)
         ), "The dimension d must be None or a positive integer"
         return (d is None) or (d > 0)
 
@@ -508,8 +508,8 @@ class AckleyN2(Functions):
     @classmethod
     def is_dim_compatible(cls, d):
         assert (d is None) or (
-            isinstance(d, int) and (not d < 0)
-        ), "The dimension d must be None or a positive integer"
+            isinstance(d, int) and (d == 2)
+        ), f"Can not change dimension for {cls.__name__} function"
         return d == 2
 
     def __init__(self, num_dim: int = 2) -> None:
-- 
2.43.0


From d349e197dc5b3c5691535f35db4c966d9701788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 08/33] fix: mf_Park91A is finite at x1 = 0

---
 src/mfpml/problems/mf_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 826070a..3d8ffb7 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -950,7 +950,8 @@ class mf_Park91A(MultiFidelityFunctions):
         x4 = x[:, 3]
 
         # calculate the terms
-        term1 = x1/2 * (np.sqrt(1 + (x2 + x3**2) * x4/x1**2) - 1)
+        # (x1 moved under the root, the domain includes x1 = 0)
+        term1 = (np.sqrt(x1**2 + (x2 + x3**2) * x4) - x1) / 2
         term2 = (x1 + 3*x4)*np.exp(1 + np.sin(x3))
 
         # calculate the objective function
-- 
2.43.0


From 6dbffad28499db0f561a74d1b21f637042760a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 09/33] fix: mf_CurrinExp.lf no longer truncates its shifts for
 integer input

---
 src/mfpml/problems/mf_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 3d8ffb7..f9315b1 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -753,8 +753,8 @@ class mf_CurrinExp(MultiFidelityFunctions):
     @staticmethod
     def lf(x: np.ndarray) -> np.ndarray:
 
-        # reshape the input
-        x = np.atleast_2d(x)
+        # reshape the input (float, as the shifts below are fractional)
+        x = np.atleast_2d(x).astype(float)
 
         # calculate the terms
         xx = x.copy()
-- 
2.43.0


From b55fcb5d197b735594607eb8f1fa10bd82bc50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 10/33] fix: PSO/DE results of an early-stopped run report the
 generations that ran

---
 .../optimization/evolutionary_algorithms.py   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 3b53049..a1bd3b3 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -235,12 +235,12 @@ class PSO(EABase):
 
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
-            "best_x_historical": self.gen_best_x,
-            "best_y_historical": self.gen_best,
-            "all_samples": self.samples,
-            "all_responses": self.responses,
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
+            "best_x_historical": self.gen_best_x[: iter + 2],
+            "best_y_historical": self.gen_best[: iter + 2],
+            "all_samples": self.samples[: iter + 2],
+            "all_responses": self.responses[: iter + 2],
             "design_space": design_space,
             "pop": self.num_pop,
             "gen": self.num_gen,
@@ -402,12 +402,12 @@ class DE(EABase):
                     break
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
-            "best_x_historical": self.gen_best_x,
-            "best_y_historical": self.gen_best,
-            "all_samples": self.samples,
-            "all_responses": self.responses,
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
+            "best_x_historical": self.gen_best_x[: iter + 2],
+            "best_y_historical": self.gen_best[: iter + 2],
+            "all_samples": self.samples[: iter + 2],
+            "all_responses": self.responses[: iter + 2],
             "design_space": design_space,
             "pop": self.num_pop,
             "gen": self.num_gen,
-- 
2.43.0


From 5547dcb4732f5c9b72e487022f18900c96633413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 11/33] fix: trained models keep their own copy of the training
 data

---
 src/mfpml/models/co_kriging.py           | 8 ++++----
 src/mfpml/models/gaussian_process.py     | 4 ++--
 src/mfpml/models/hierarchical_kriging.py | 4 ++--
 src/mfpml/models/mf_gaussian_process.py  | 4 ++--
 src/mfpml/models/scale_kriging.py        | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index ff5ffec..3f5171c 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -367,10 +367,10 @@ class CoKriging:
             responses and 'lf' contains low-fidelity ones
         """
         # load the samples and responses at the original scale
-        self.sample_xh = samples[0]
-        self.sample_yh = responses[0]
-        self.sample_xl = samples[1]
-        self.sample_yl = responses[1]
+        self.sample_xh = samples[0].copy()
+        self.sample_yh = responses[0].copy()
+        self.sample_xl = samples[1].copy()
+        self.sample_yl = responses[1].copy()
 
         # normalize the input and output
         self.sample_xh_scaled = self.normalize_input(self.sample_xh.copy())
diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 0b98649..caacd32 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -80,10 +80,10 @@ class GaussianProcessRegression:
         # get number samples
         self.num_samples = X.shape[0]
         # the original sample_x
-        self.sample_x = X
+        self.sample_x = X.copy()
         self.sample_scaled_x = self.normalize_input(X, self.bounds)
         # get the response
-        self.sample_y = Y.reshape(-1, 1)
+        self.sample_y = Y.reshape(-1, 1).copy()
         self.sample_y_scaled = self.normalize_output(self.sample_y)
 
         # optimizer hyper-parameters
diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 8c43517..f988b80 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -47,8 +47,8 @@ class HierarchicalKriging(_mfGaussianProcess):
             array of high-fidelity responses
         """
         # get samples
-        self.sample_xh = X
-        self.sample_yh = Y
+        self.sample_xh = X.copy()
+        self.sample_yh = Y.copy()
         # normalization
         self.sample_xh_scaled = self.normalize_input(self.sample_xh)
         self.sample_yh_scaled = self.normalize_hf_output(self.sample_yh)
diff --git a/src/mfpml/models/mf_gaussian_process.py b/src/mfpml/models/mf_gaussian_process.py
index 547a8cd..f9b8c57 100644
--- a/src/mfpml/models/mf_gaussian_process.py
+++ b/src/mfpml/models/mf_gaussian_process.py
@@ -87,9 +87,9 @@ class _mfGaussianProcess:
         # gaussian process regression will normalize the input directly
         self.lfGP.train(X, Y)
         # normalize the input
-        self.sample_xl = X
+        self.sample_xl = X.copy()
         self.sample_xl_scaled = self.normalize_input(X)
-        self.sample_yl = Y
+        self.sample_yl = Y.copy()
 
     def predict_lf(
         self, X: np.ndarray, return_std: bool = False
diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 5b0b92f..46c470a 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -97,8 +97,8 @@ class ScaledKriging(_mfGaussianProcess):
         sample_yh : np.ndarray
             array of high-fidelity responses
         """
-        self.sample_xh = sample_xh
-        self.sample_yh = sample_yh.reshape(-1, 1)
+        self.sample_xh = sample_xh.copy()
+        self.sample_yh = sample_yh.reshape(-1, 1).copy()
         if self.rho_optimize:
             self._rho_optimize()
         self.disc_model.train(self.sample_xh, self._getDisc())
-- 
2.43.0


From ec81d0f0b45cef5e1ec11a3560ca7d52e85cbce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 12/33] fix: retraining estimates or scales the noise from the
 prior, not from the last training

---
 src/mfpml/models/co_kriging.py           | 7 +++++++
 src/mfpml/models/gaussian_process.py     | 4 ++++
 src/mfpml/models/hierarchical_kriging.py | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 3f5171c..2e66b29 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -40,6 +40,7 @@ class _GP:
         self.optimizer_restart = optimizer_restart
         # get basis function
         self.regr = regr
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def _hyper_paras_optimization(self) -> None:
@@ -261,6 +262,9 @@ class _GP:
         self.sample_y = sample_y.reshape(-1, 1)
         self.sample_y_scaled = sample_y.reshape(-1, 1)
 
+        # noise is estimated anew at every training if there is no prior
+        if self.noise_prior is None:
+            self.noise = None
         # optimizer hyper-parameters
         self._hyper_paras_optimization()
 
@@ -351,6 +355,7 @@ class CoKriging:
             noise_prior=noise_prior)
 
         # noise (unscaled, it will be scaled later)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self, samples: List, responses: List) -> None:
@@ -378,6 +383,8 @@ class CoKriging:
         self.sample_yh_scaled = self.normalize_hf_output(self.sample_yh.copy())
         self.sample_yl_scaled = (self.sample_yl - self.yh_mean) / self.yh_std
         # scale the noise value
+        # (from the prior: estimated or scaled anew at every training)
+        self.noise = self.noise_prior
         if self.noise is not None:
             self.noise = self.noise / self.yh_std
             # update the noise value of the low-fidelity model
diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index caacd32..b6e4fd5 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -61,6 +61,7 @@ class GaussianProcessRegression:
         # basis function
         self.regr = regr
         # noisy data prior or not
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self,
@@ -86,6 +87,9 @@ class GaussianProcessRegression:
         self.sample_y = Y.reshape(-1, 1).copy()
         self.sample_y_scaled = self.normalize_output(self.sample_y)
 
+        # noise is estimated anew at every training if there is no prior
+        if self.noise_prior is None:
+            self.noise = None
         # optimizer hyper-parameters
         self._hyper_paras_optimization()
 
diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index f988b80..9917f0d 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -29,6 +29,7 @@ class HierarchicalKriging(_mfGaussianProcess):
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
         self.kernel = RBF(theta=np.zeros(self.num_dim), bounds=kernel_bound)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
         # define the low-fidelity model
         self.lfGP = GP(design_space=design_space,
@@ -55,6 +56,9 @@ class HierarchicalKriging(_mfGaussianProcess):
         # prediction of low-fidelity at high-fidelity locations
         F = self.predict_lf(X)
         self.F = (F-self.yh_mean)/self.yh_std
+        # noise is estimated anew at every training if there is no prior
+        if self.noise_prior is None:
+            self.noise = None
         # optimize the hyper parameters
         self._optHyp()
         # update the parameters
-- 
2.43.0


From fe554e29f809114bbc4ed66c711b3ec41516fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 13/33] fix: CoKriging.predict no longer rescales the model
 noise at every call

---
 src/mfpml/models/co_kriging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 2e66b29..e91bca3 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -464,8 +464,9 @@ class CoKriging:
                 - c.T.dot(solve(self.LC.T, solve(self.LC, c)))
             )
             self.epis_std = np.sqrt(np.maximum(np.diag(s2), 0))*self.yh_std
-            self.noise = self.noise * self.yh_std
-            total_std = np.sqrt((self.epis_std**2 + self.noise**2))
+            # noise at the original scale
+            noise = self.noise * self.yh_std
+            total_std = np.sqrt((self.epis_std**2 + noise**2))
             return fmean.reshape(-1, 1), total_std.reshape(-1, 1)
 
     def predict_lf(
-- 
2.43.0


From 5ada9ca2b293d24169b4ec835d7cd636d7a0aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 14/33] fix: CoKriging likelihood scales the noise once

---
 src/mfpml/models/co_kriging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index e91bca3..b35bcad 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -577,7 +577,8 @@ class CoKriging:
                 theta = params[i, 2:]
             else:
                 rho = params[i, 0]
-                noise_sigma = self.noise / self.yh_std
+                # the noise has been scaled in the training procedure
+                noise_sigma = self.noise
                 theta = params[i, 1:]
             # correlation matrix R
             K = self.kernel(self.sample_xh_scaled,
-- 
2.43.0


From d4509ce6c8406fd57599722c40e8a14178bf858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 15/33] fix: ScaledKriging scales the low-fidelity prediction,
 also without std

---
 src/mfpml/models/scale_kriging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 46c470a..c82e826 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -122,8 +122,8 @@ class ScaledKriging(_mfGaussianProcess):
             prediction of high-fidelity
         """
         if not return_std:
-            return self.disc_model.predict(X) * self.rho \
-                + self.lfGP.predict(X)
+            return self.rho * self.lfGP.predict(X) \
+                + self.disc_model.predict(X)
         else:
             pre_lf, std_lf = self.lfGP.predict(X, return_std)
             pre_disc, std_disc = self.disc_model.predict(X, return_std)
-- 
2.43.0


From 18caf1595b21c1967cac142a521adae511b27e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 16/33] fix: ScaledKriging discrepancy model uses kernel_bound
 and the trained kernel is the model's

---
 src/mfpml/models/scale_kriging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index c82e826..992fcc2 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -80,6 +80,7 @@ class ScaledKriging(_mfGaussianProcess):
         if disc_model is None:
             self.disc_model = GaussianProcessRegression(
                 design_space=design_space,
+                kernel=self.kernel,
                 optimizer=optimizer,
                 optimizer_restart=optimizer_restart,
                 noise_prior=noise_prior
-- 
2.43.0


From c3b2a7a7205823a30c3c94f58ac9e52d0bdb7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 17/33] fix: acquisition query passes the surrogates to a
 user-supplied optimizer

---
 src/mfpml/optimization/sf_cons_acqusitions.py   | 1 +
 src/mfpml/optimization/sf_uncons_acqusitions.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index a13115f..2c852fa 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -69,6 +69,7 @@ class SFConsAcq(ABC):
                 self.eval,
                 num_dim=obj_surrogate.num_dim,
                 design_space=obj_surrogate.bounds,
+                args=(obj_surrogate, cons_surrogate),
             )
 
         return opt_x
diff --git a/src/mfpml/optimization/sf_uncons_acqusitions.py b/src/mfpml/optimization/sf_uncons_acqusitions.py
index 2a90b30..ce64e29 100644
--- a/src/mfpml/optimization/sf_uncons_acqusitions.py
+++ b/src/mfpml/optimization/sf_uncons_acqusitions.py
@@ -66,6 +66,7 @@ class SFUnConsAcq(ABC):
                 self.eval,
                 num_dim=surrogate.num_dim,
                 design_space=surrogate.bounds,
+                args=(surrogate,),
             )
 
         return opt_x
-- 
2.43.0


From caecf9e99ecd1de870ba9779557c7c1c21437f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 18/33] fix: CEI evaluates every row of a batch

---
 src/mfpml/optimization/sf_cons_acqusitions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index 2c852fa..a4dfb05 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -126,15 +126,15 @@ class CEI(SFConsAcq):
         return ei
 
     def pof(self, x, cons_surrogates: List) -> np.ndarray:
-        x = np.atleast_2d(x)
+        x = np.array(x).reshape((-1, cons_surrogates[0].num_dim))
         num_cons = len(cons_surrogates)
         u_g = np.zeros((x.shape[0], num_cons))
         mse_g = np.zeros((x.shape[0], num_cons))
         for ii in range(num_cons):
             cons_surrogate = cons_surrogates[ii]
-            u_g[:, ii], mse_g[:, ii] = cons_surrogate.predict(
-                x, return_std=True)
+            u_i, mse_i = cons_surrogate.predict(x, return_std=True)
+            u_g[:, ii], mse_g[:, ii] = u_i.ravel(), mse_i.ravel()
 
         # probability of feasibility
         pof = np.prod(norm.cdf(0-u_g / (mse_g + 1e-9)), axis=1)
-        return pof
+        return pof.reshape(-1, 1)
-- 
2.43.0


From 8cb9ec768177d2bed294285a8ee8adfb5967926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 19/33] fix: ExtendedPI evaluates every row of a batch

---
 src/mfpml/optimization/mf_acqusitions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index edf9705..314eb9b 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -519,11 +519,13 @@ class ExtendedPI(MFUnConsAcq):
         if fidelity == 0:
             cr = 1
             eta = np.prod(mf_surrogate._eval_corr(
-                x, mf_surrogate._get_sample_hf, fidelity=0), axis=1)
+                x, mf_surrogate._get_sample_hf, fidelity=0),
+                axis=1, keepdims=True)
         elif fidelity == 1:
             cr = cost_ratio
             eta = np.prod(mf_surrogate._eval_corr(
-                x, mf_surrogate._get_sample_lf, fidelity=1), axis=1)
+                x, mf_surrogate._get_sample_lf, fidelity=1),
+                axis=1, keepdims=True)
         return -pi*corr*cr*eta
 
     def query(self, mf_surrogate: _mfGaussianProcess,
-- 
2.43.0


From 2d91dc69b1e9f4a492404b2610aceb7a2a0ba62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 20/33] fix: multi-fidelity acquisitions query with a
 user-supplied optimizer

---
 src/mfpml/optimization/mf_acqusitions.py | 56 ++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 314eb9b..7cb4cd9 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -166,7 +166,19 @@ class AugmentedEI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # use the given optimizer for both fidelities
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 1),
+            )
         # choose fidelity
         if opt_hf <= opt_lf:
             update_x = np.atleast_2d(x_hf)
@@ -330,7 +342,19 @@ class VFEI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # use the given optimizer for both fidelities
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(fmin, mf_surrogate, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(fmin, mf_surrogate, 1),
+            )
         # choose fidelity
         if opt_hf <= opt_lf:
             update_x = np.atleast_2d(x_hf)
@@ -444,7 +468,19 @@ class VFLCB(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # use the given optimizer for both fidelities
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 1),
+            )
         # choose fidelity with better optimal value
         if opt_hf <= opt_lf:
             # choose high high fidelity
@@ -572,7 +608,19 @@ class ExtendedPI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # use the given optimizer for both fidelities
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, premin.fun, cost_ratio, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, premin.fun, cost_ratio, 1),
+            )
         # choose fidelity with better optimal value
         if opt_hf <= opt_lf:
             # choose high high fidelity
-- 
2.43.0


From 8790f76ec389a03e22b5348dee87030ae2ba9cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 21/33] fix: unknown fidelity raises instead of being ignored

---
 src/mfpml/models/mf_gaussian_process.py  | 2 +-
 src/mfpml/optimization/mf_acqusitions.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/models/mf_gaussian_process.py b/src/mfpml/models/mf_gaussian_process.py
index f9b8c57..c5c3070 100644
--- a/src/mfpml/models/mf_gaussian_process.py
+++ b/src/mfpml/models/mf_gaussian_process.py
@@ -137,7 +137,7 @@ class _mfGaussianProcess:
         elif fidelity == 1:
             return self.lfGP.kernel.get_kernel_matrix(X, Xprime)
         else:
-            ValueError("Unknown fidelity input.")
+            raise ValueError("Unknown fidelity input.")
 
     def normalize_input(self, inputs: np.ndarray) -> np.ndarray:
         """Normalize samples to range [0, 1]
diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 7cb4cd9..9bfcec3 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -119,7 +119,7 @@ class AugmentedEI(MFUnConsAcq):
         elif fidelity == 1:
             alpha3 = cost_ratio
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # calculate the augmented expected improvement
         z = (fmin - pre) / std
         aei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
@@ -295,7 +295,7 @@ class VFEI(MFUnConsAcq):
             _, std_lf = mf_surrogate.predict_lf(x, return_std=True)
             s = mf_surrogate.beta * std_lf
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # expected improvement
         z = (fmin - pre) / (std + 1e-8)
         vfei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
@@ -423,7 +423,7 @@ class VFLCB(MFUnConsAcq):
         elif fidelity == 1:
             std = std_lf * cr
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # vflcb
         vflcb = self.kappa[0] * mean_hf - self.kappa[1] * std
         return vflcb.ravel()
-- 
2.43.0


From 1a7c5d275d38830d3635bd35554993371fbe15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 22/33] fix: CoKriging can be used with the multi-fidelity
 acquisitions

---
 src/mfpml/models/co_kriging.py | 40 ++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index b35bcad..4b52239 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -496,6 +496,35 @@ class CoKriging:
             obj, std = self.lfGP.predict(x_predict, return_std=True)
             return obj*self.yh_std + self.yh_mean, std*self.yh_std
 
+    def _eval_corr(
+        self, X: np.ndarray, Xprime: np.ndarray, fidelity: int = 0
+    ) -> np.ndarray:
+        """Evaluate the correlation values based on current multi-
+        fidelity model
+
+        Parameters
+        ----------
+        X : np.ndarray
+            x
+        Xprime : np.ndarray
+            x'
+        fidelity : int, optional
+            fidelity level, by default 0 (high fidelity)
+
+        Returns
+        -------
+        np.ndarray
+            correlation matrix
+        """
+        X = self.normalize_input(X)
+        Xprime = self.normalize_input(Xprime)
+        if fidelity == 0:
+            return self.kernel.get_kernel_matrix(X, Xprime)
+        elif fidelity == 1:
+            return self.lfGP.kernel.get_kernel_matrix(X, Xprime)
+        else:
+            raise ValueError("Unknown fidelity input.")
+
     def _optHyp(self) -> None:
         """Optimize the hyperparameters"""
         # consider the situation where noise exists
@@ -721,6 +750,17 @@ class CoKriging:
         self.yh_std = np.std(outputs)
         return (outputs - self.yh_mean) / self.yh_std
 
+    @property
+    def bound(self) -> np.ndarray:
+        """Design space, under the name the other multi-fidelity models use
+
+        Returns
+        -------
+        np.ndarray
+            design space
+        """
+        return self.bounds
+
     @property
     def _get_lf_model(self) -> Any:
         """Get the low-fidelity model
-- 
2.43.0


From d1f7db998574bf6ac9bd0ee1028afdf0f585447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 23/33] fix: best_x of constrained Bayesian optimization is
 feasible

---
 src/mfpml/optimization/sf_cons_bo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 515cbe1..4bcc3fc 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -129,7 +129,9 @@ class BayesConsOpt(ABC):
                 == self.problem.num_cons)
             # get the best feasible sample
             self.best = np.min(self.init_obj_response[feasible_index])
-            min_index = np.where(self.init_obj_response == self.best)[0]
+            # (an infeasible sample may have the same objective value)
+            min_index = feasible_index[0][
+                self.init_obj_response[feasible_index[0], 0] == self.best]
             # get the best feasible sample
             self.best_x = self.init_sample[min_index, :]
             # record the optimization history
@@ -154,7 +156,9 @@ class BayesConsOpt(ABC):
                 == self.problem.num_cons)
             # get the best feasible sample
             min_y = np.min(self.obj_response[feasible_index])
-            min_index = np.where(self.obj_response == min_y)[0]
+            # (an infeasible sample may have the same objective value)
+            min_index = feasible_index[0][
+                self.obj_response[feasible_index[0], 0] == min_y]
             print(f"min_index: {min_index}")
             # update best
             self.best = min_y
-- 
2.43.0


From 5754891b3450e2ce765486de8ab36132cc715bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 24/33] fix: Bayesian optimization without a known optimum runs
 max_iter iterations

---
 src/mfpml/optimization/mf_uncons_bo.py | 3 ++-
 src/mfpml/optimization/sf_cons_bo.py   | 3 ++-
 src/mfpml/optimization/sf_uncons_bo.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index dd685b9..416d95f 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -124,7 +124,8 @@ class mfUnConsBayesOpt:
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            # without a known optimum only max_iter stops the loop
+            error = np.inf
 
         return error
 
diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 4bcc3fc..d4602de 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -188,7 +188,8 @@ class BayesConsOpt(ABC):
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            # without a known optimum only max_iter stops the loop
+            error = np.inf
 
         return error
 
diff --git a/src/mfpml/optimization/sf_uncons_bo.py b/src/mfpml/optimization/sf_uncons_bo.py
index e0f17da..3b0a32d 100644
--- a/src/mfpml/optimization/sf_uncons_bo.py
+++ b/src/mfpml/optimization/sf_uncons_bo.py
@@ -133,7 +133,8 @@ class BayesUnConsOpt(ABC):
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            # without a known optimum only max_iter stops the loop
+            error = np.inf
 
         return error
 
-- 
2.43.0


From 75ccd6858cdfc145f393712667267ce2fcf1a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 25/33] fix: VFEI uses the standard deviation of the queried
 fidelity

---
 src/mfpml/optimization/mf_acqusitions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 9bfcec3..3fca85f 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -293,12 +293,12 @@ class VFEI(MFUnConsAcq):
         elif fidelity == 1:
             # get predicted standard deviation for low-fidelity
             _, std_lf = mf_surrogate.predict_lf(x, return_std=True)
-            s = mf_surrogate.beta * std_lf
+            s = np.abs(mf_surrogate.beta) * std_lf
         else:
             raise ValueError('Unknown fidelity input.')
         # expected improvement
-        z = (fmin - pre) / (std + 1e-8)
-        vfei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
+        z = (fmin - pre) / (s + 1e-8)
+        vfei = (fmin - pre) * norm.cdf(z) + s * norm.pdf(z)
         vfei[s < np.finfo(float).eps] = 0.
         return (- vfei).ravel()
 
-- 
2.43.0


From 330a9282a48038a876452c1c92982fe7e45b7865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 26/33] fix: ExtendedPI weights with the sample density 1 - R
 (Ruan et al. 2020), not R

---
 src/mfpml/optimization/mf_acqusitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 3fca85f..2829d90 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -554,12 +554,12 @@ class ExtendedPI(MFUnConsAcq):
         corr = self.corr(x, mf_surrogate, fidelity)
         if fidelity == 0:
             cr = 1
-            eta = np.prod(mf_surrogate._eval_corr(
+            eta = np.prod(1 - mf_surrogate._eval_corr(
                 x, mf_surrogate._get_sample_hf, fidelity=0),
                 axis=1, keepdims=True)
         elif fidelity == 1:
             cr = cost_ratio
-            eta = np.prod(mf_surrogate._eval_corr(
+            eta = np.prod(1 - mf_surrogate._eval_corr(
                 x, mf_surrogate._get_sample_lf, fidelity=1),
                 axis=1, keepdims=True)
         return -pi*corr*cr*eta
-- 
2.43.0


From 27d0afdc9c6c637939be14e0a14b413350a48015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 27/33] fix: Sobol samplers accept num_skip=0

---
 src/mfpml/design_of_experiment/mf_samplers.py | 3 ++-
 src/mfpml/design_of_experiment/sf_samplers.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index f95c28f..a25091e 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -268,7 +268,8 @@ class MFSobolSequence(MultiFidelitySampler):
         """
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
         _ = sobol_sampler.reset()
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples
         samples = sobol_sampler.random(n=num_sample)
 
diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 8d76d64..ea23b7d 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,7 +311,8 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
 
-- 
2.43.0


From 6abd624ccfdb7597a51aff73b00bb01a706a67aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 28/33] fix: the plain Gaussian process keeps its own copy of
 the responses

---
 src/mfpml/models/co_kriging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 4b52239..65ec7aa 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -259,8 +259,8 @@ class _GP:
         self.sample_x = sample_x.copy()
         self.sample_scaled_x = sample_x.copy()
         # get the response
-        self.sample_y = sample_y.reshape(-1, 1)
-        self.sample_y_scaled = sample_y.reshape(-1, 1)
+        self.sample_y = sample_y.reshape(-1, 1).copy()
+        self.sample_y_scaled = self.sample_y.copy()
 
         # noise is estimated anew at every training if there is no prior
         if self.noise_prior is None:
-- 
2.43.0


From 7b735c05e6328995e16adce881c8a2991a7dc3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 29/33] fix: the optimization history plot showed zeros for
 generations that were not run

---
 src/mfpml/optimization/evolutionary_algorithms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index a1bd3b3..648cbb3 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -40,7 +40,7 @@ class EABase:
     ) -> None:
         fig, ax = plt.subplots()
         ax.plot(
-            np.linspace(0, self.num_gen, self.num_gen + 1, endpoint=True),
+            np.arange(len(self.gen_best)),
             self.gen_best,
             label="optimum",
         )
@@ -233,6 +233,9 @@ class PSO(EABase):
                 if self.gen_best[iter + 1, 0] < self.stopping_error:
                     break
 
+        # (generations after an early stop were not run)
+        self.gen_best = self.gen_best[: iter + 2]
+        self.gen_best_x = self.gen_best_x[: iter + 2]
         # get the final results
         results = {
             "best_x": self.gen_best_x[iter + 1, :],
@@ -400,6 +403,9 @@ class DE(EABase):
             if self.stopping_error is not None:
                 if self.gen_best[iter + 1, 0] < self.stopping_error:
                     break
+        # (generations after an early stop were not run)
+        self.gen_best = self.gen_best[: iter + 2]
+        self.gen_best_x = self.gen_best_x[: iter + 2]
         # get the final results
         results = {
             "best_x": self.gen_best_x[iter + 1, :],
-- 
2.43.0


From 4719cc21155ec7ca9ddb1d128936c3d30f9041ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 30/33] fix: keep the optimizers' own copy of objective values
 and points

PSO and DE used the array returned by the objective as their own record
and wrote into it, so an objective handing out the same array each time,
read-only or integer values gave wrong results or failed, and the points
handed to the objective changed later.
---
 src/mfpml/optimization/evolutionary_algorithms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 648cbb3..8f38d90 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -279,7 +279,7 @@ class PSO(EABase):
         """calculate the objective values for the initial population"""
         self.x = self._location_initialzer()
         self.__velocity_initialzer()
-        self.obj = self.func(self.x)
+        self.obj = np.array(self.func(self.x.copy()), dtype=float)
         self.obj = np.reshape(self.obj, (self.num_pop, 1))
 
         # find the best values for individuals
@@ -313,7 +313,7 @@ class PSO(EABase):
         self.samples[iter + 1, :, :] = self.x.copy()
 
     def __update_obj(self, iter: int) -> None:
-        self.obj = self.func(self.x)
+        self.obj = np.array(self.func(self.x.copy()), dtype=float)
         self.obj = np.reshape(self.obj, (self.num_pop, 1))
         self.responses[iter + 1, :, :] = self.obj.copy()
 
@@ -429,7 +429,7 @@ class DE(EABase):
         self.x = self._location_initialzer()
         self.v = np.zeros([self.num_pop, self.num_dim])
         self.u = np.zeros([self.num_pop, self.num_dim])
-        self.obj = self.func(self.x)
+        self.obj = np.array(self.func(self.x.copy()), dtype=float)
         self.obj = np.reshape(self.obj, (self.num_pop, 1))
         # find the best value for population
         self.gen_best[0, :] = self._gen_best_obj(obj=self.obj)
@@ -498,7 +498,7 @@ class DE(EABase):
             raise ValueError("This strategy is not defined! \n ")
 
     def __update_obj(self, iter: int) -> None:
-        self.obj_u = self.func(self.u)
+        self.obj_u = np.array(self.func(self.u.copy()), dtype=float)
         self.obj_u = np.reshape(self.obj_u, (self.num_pop, 1))
         # decide the next parent population
         for ii in range(self.num_pop):
-- 
2.43.0


From 0f9a982207b44bfa3c1f597b759a836b0c35983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 31/33] fix: keep the loops' own copy of the initial responses

The Bayesian loops recorded the arrays the problem returned, so a
function that hands out the same array at every call overwrote the
recorded initial responses (and, in the multi-fidelity loop, the training
responses).
---
 src/mfpml/optimization/mf_uncons_bo.py | 4 +++-
 src/mfpml/optimization/sf_cons_bo.py   | 6 ++++--
 src/mfpml/optimization/sf_uncons_bo.py | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index 416d95f..ceb328d 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -158,7 +158,9 @@ class mfUnConsBayesOpt:
         sampler = MFLHS(design_space=self.problem.input_domain, num_fidelity=2)
         self.init_sample = sampler.get_samples(
             num_samples=self.num_init, seed=self.seed)
-        self.init_response = self.problem(self.init_sample)
+        self.init_response = [
+            np.array(resp, dtype=float)
+            for resp in self.problem(self.init_sample)]
 
         # initialize the surrogate model
         if self.surrogate_name == 'HierarchicalKriging':
diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index d4602de..fde6826 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -97,8 +97,10 @@ class BayesConsOpt(ABC):
         sampler = LHS(design_space=self.problem.input_domain)
         self.init_sample = sampler.get_samples(
             num_samples=self.num_init, seed=self.seed)
-        self.init_obj_response = self.problem.f(self.init_sample)
-        self.init_cons_response = self.problem.f_cons(self.init_sample)
+        self.init_obj_response = np.array(
+            self.problem.f(self.init_sample), dtype=float)
+        self.init_cons_response = np.array(
+            self.problem.f_cons(self.init_sample), dtype=float)
 
         # initialize the surrogate model
         self.obj_surrogate = Kriging(design_space=self.problem.input_domain,
diff --git a/src/mfpml/optimization/sf_uncons_bo.py b/src/mfpml/optimization/sf_uncons_bo.py
index 3b0a32d..0b67b56 100644
--- a/src/mfpml/optimization/sf_uncons_bo.py
+++ b/src/mfpml/optimization/sf_uncons_bo.py
@@ -84,7 +84,8 @@ class BayesUnConsOpt(ABC):
         sampler = LHS(design_space=self.problem.input_domain)
         self.init_sample = sampler.get_samples(
             num_samples=self.num_init, seed=self.seed)
-        self.init_response = self.problem.f(self.init_sample)
+        self.init_response = np.array(
+            self.problem.f(self.init_sample), dtype=float)
 
         # initialize the surrogate model
         self.surrogate = Kriging(design_space=self.problem.input_domain,
-- 
2.43.0


From d205d41d66f902c826c670105408510c6b6a10e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 32/33] fix: the jitter of the correlation matrix was added to
 correlations with other points

The prediction at a point depended on its row in the batch: with nearly
singular correlations by as much as the scatter of the data.
---
 src/mfpml/models/kernels.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/kernels.py b/src/mfpml/models/kernels.py
index 1c2dd30..bcc80b9 100644
--- a/src/mfpml/models/kernels.py
+++ b/src/mfpml/models/kernels.py
@@ -131,7 +131,13 @@ class RBF(KernelCore):
         XY = XY = np.dot(np.sqrt(self.param) * X, (np.sqrt(self.param) * Y).T)
         dist = X_sq + Y_sq - 2 * XY
 
-        return np.exp(-dist) + np.eye(X.shape[0], Y.shape[0]) * 10 ** -10
+        corr = np.exp(-dist)
+        if X is Y:
+            # jitter for the matrix of the samples themselves; correlations
+            # with other points must not depend on their place in the batch
+            corr = corr + np.eye(X.shape[0]) * 10 ** -10
+
+        return corr
 
     def __call__(self,
                  X: np.ndarray,
@@ -166,7 +172,13 @@ class RBF(KernelCore):
         XY = np.dot(np.sqrt(param) * X, (np.sqrt(param) * Y).T)
         dist = X_sq + Y_sq - 2 * XY
 
-        return np.exp(-dist) + np.eye(X.shape[0], Y.shape[0]) * 10 ** -10
+        corr = np.exp(-dist)
+        if X is Y:
+            # jitter for the matrix of the samples themselves; correlations
+            # with other points must not depend on their place in the batch
+            corr = corr + np.eye(X.shape[0]) * 10 ** -10
+
+        return corr
 
     def set_params(self, params) -> None:
         """
-- 
2.43.0


From 9b78b92681a759727e9bbe8f395c33f16e4d7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 33/33] fix: multi-fidelity loop keeps its own copy of the best
 point

---
 src/mfpml/optimization/mf_uncons_bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index ceb328d..ee2ef33 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -146,7 +146,7 @@ class mfUnConsBayesOpt:
         if fidelity == 0:
             if update_y[0][0] < self.best:
                 self.best = update_y[0][0]
-                self.best_x = update_x
+                self.best_x = np.array(update_x)
 
         # record the optimization history
         self.history_best.append(self.best)
-- 
2.43.0

