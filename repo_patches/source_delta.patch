From 05a9fa921b97b06987b2f72d216724b99109aecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 01/32] fix: replace removed np.int alias (SOP and nd_sorting
 crash on current numpy)

---
 pySOT/strategy/sop_strategy.py | 2 +-
 pySOT/utils.py                 | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7d0223c..0733364 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -454,7 +454,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         num_pending_centers = len(self.centers)
         center_count = self.ncenters - num_pending_centers
         if center_count > 0:
-            center_index = -1 * np.ones((center_count,), dtype=np.int)
+            center_index = -1 * np.ones((center_count,), dtype=int)
             center_index[0] = ind_new[0]
             check = 1
             i = 1
diff --git a/pySOT/utils.py b/pySOT/utils.py
index 1335ef8..e6419d2 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -465,8 +465,8 @@ def nd_sorting(F, nmax):
     """
 
     (M, N) = F.shape
-    nd_ranks = np.ones((N,), dtype=np.int) * POSITIVE_INFINITY
-    P = np.ones((N,), dtype=np.int)
+    nd_ranks = np.ones((N,), dtype=int) * POSITIVE_INFINITY
+    P = np.ones((N,), dtype=int)
     for i in range(0, N):
         P[i] = i
     i = 1
@@ -476,7 +476,7 @@ def nd_sorting(F, nmax):
         for j in range(0, len(ndf_index)):
             nd_ranks[P[ndf_index[j]]] = i
         count = count + len(ndf_index)
-        P_new = np.ones((len(df_index),), dtype=np.int)
+        P_new = np.ones((len(df_index),), dtype=int)
         for j in range(0, len(df_index)):
             P_new[j] = P[df_index[j]]
         P = P_new
-- 
2.43.0


From 5b2ceeb0f41bd49b09abf8cbde4026c326b12947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 02/32] fix: GPRegressor.predict returns a column vector of
 size num_pts x 1 as documented

---
 pySOT/surrogate/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/gp.py b/pySOT/surrogate/gp.py
index 305bbb6..74085ce 100644
--- a/pySOT/surrogate/gp.py
+++ b/pySOT/surrogate/gp.py
@@ -68,7 +68,7 @@ class GPRegressor(Surrogate):
         """
         self._fit()
         xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
-        return self._mu + self._sigma * self.model.predict(xx)
+        return self._mu + self._sigma * self.model.predict(xx).reshape(-1, 1)
 
     def predict_std(self, xx):
         """Predict standard deviation at points xx.
-- 
2.43.0


From c6c71646e0b1872f5569c2324a8da46b513ef795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 03/32] fix: Exponential.eval pairs coordinate j with weight j
 as documented

---
 pySOT/optimization_problems/exponential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/optimization_problems/exponential.py b/pySOT/optimization_problems/exponential.py
index 6f7831d..a713455 100644
--- a/pySOT/optimization_problems/exponential.py
+++ b/pySOT/optimization_problems/exponential.py
@@ -47,5 +47,5 @@ class Exponential(OptimizationProblem):
         self.__check_input__(x)
         total = 0.0
         for i in range(len(x)):
-            total += np.exp((i + 1) * x[i - 1]) - np.exp(-5.12 * (i + 1))
+            total += np.exp((i + 1) * x[i]) - np.exp(-5.12 * (i + 1))
         return total
-- 
2.43.0


From 861479f64f6828febd5f007e621a18dfd5cec52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 04/32] fix: Branin domain contains its documented minimizer

---
 pySOT/optimization_problems/branin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/optimization_problems/branin.py b/pySOT/optimization_problems/branin.py
index 19c2a77..703ee1e 100644
--- a/pySOT/optimization_problems/branin.py
+++ b/pySOT/optimization_problems/branin.py
@@ -24,8 +24,8 @@ class Branin(OptimizationProblem):
         self.min = 0.397887
         self.minimum = np.array([-np.pi, 12.275])
         self.dim = 2
-        self.lb = -3.0 * np.ones(2)
-        self.ub = 3.0 * np.ones(2)
+        self.lb = np.array([-5.0, 0.0])
+        self.ub = np.array([10.0, 15.0])
         self.int_var = np.array([])
         self.cont_var = np.arange(0, 2)
         self.info = "2-dimensional Branin function \nGlobal optimum: " + "f(-pi, 12.275) = 0.397887"
-- 
2.43.0


From a865497f45cb6588c7c7957e5398a8a258e850d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 05/32] fix: Levy sum starts at the first coordinate

---
 pySOT/optimization_problems/levy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/optimization_problems/levy.py b/pySOT/optimization_problems/levy.py
index b6b4791..7ca28ca 100644
--- a/pySOT/optimization_problems/levy.py
+++ b/pySOT/optimization_problems/levy.py
@@ -43,6 +43,6 @@ class Levy(OptimizationProblem):
         d = self.dim
         return (
             np.sin(np.pi * w[0]) ** 2
-            + np.sum((w[1 : d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[1 : d - 1] + 1) ** 2))
+            + np.sum((w[0 : d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[0 : d - 1] + 1) ** 2))
             + (w[d - 1] - 1) ** 2 * (1 + np.sin(2 * np.pi * w[d - 1]) ** 2)
         )
-- 
2.43.0


From 5e98555529efe4aadb6c1f8df4c5f2e841542930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 06/32] fix: terminate instead of stalling when converged
 without restarts

---
 pySOT/strategy/surrogate_strategy.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 144f167..038c396 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -194,6 +194,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Check if evaluation based termination criterion has been reached."""
         if self.num_evals + self.pending_evals >= self.max_evals:  # Budget exhausted
             self.terminate = True
+        elif self.converged and not self.use_restarts:  # Converged and not allowed to restart
+            self.terminate = True
 
     def sample_restart(self):
         """Restart a run after convergence."""
@@ -267,13 +269,12 @@ class SurrogateBaseStrategy(BaseStrategy):
         if self.terminate:  # Check if termination has been triggered
             if self.pending_evals == 0:  # Only terminate if nothing is pending, otherwise take no action
                 return Proposal("terminate")
-        elif self.converged:
-            if self.use_restarts:  # Start a new run
-                if self.asynchronous or self.pending_evals == 0:  # We can restart immidiately, else wait
-                    self.sample_restart()  # Trigger the restart
-                    return self.init_proposal()  # We are now in phase 1, so make an initial proposal
-                else:
-                    return
+        elif self.converged:  # Restarts are enabled, otherwise check_termination stops the run
+            if self.asynchronous or self.pending_evals == 0:  # We can restart immidiately, else wait
+                self.sample_restart()  # Trigger the restart
+                return self.init_proposal()  # We are now in phase 1, so make an initial proposal
+            else:
+                return
         elif self.batch_queue:  # Propose point from the batch_queue
             if self.phase == 1:
                 return self.init_proposal()
@@ -294,6 +295,9 @@ class SurrogateBaseStrategy(BaseStrategy):
                         return self.init_proposal()  # We are now in phase 1, so make an initial proposal
                     else:
                         return
+                else:  # Not allowed to restart, so stop once nothing is pending
+                    self.terminate = True
+                    return Proposal("terminate") if self.pending_evals == 0 else None
 
             # Launch the new evaluations (the others will be triggered later)
             return self.adapt_proposal()
-- 
2.43.0


From fc39a37efa14248d63ad4eedaa09cdad54576447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 07/32] fix: completing one of several identical pending points
 keeps the others pending

---
 pySOT/strategy/surrogate_strategy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 038c396..0858432 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -310,8 +310,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         return proposal
 
     def remove_pending(self, x):
-        """Delete a pending point from self.Xpend."""
-        idx = np.where((self.Xpend == x).all(axis=1))[0]
+        """Delete a pending point (one copy, if it is pending several times) from self.Xpend."""
+        idx = np.where((self.Xpend == x).all(axis=1))[0][:1]
         self.Xpend = np.delete(self.Xpend, idx, axis=0)
 
     # == Processing in initial phase ==
@@ -341,7 +341,6 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = proposal.args[0]
         self.batch_queue.append(xx)  # Add back to queue
-        self.Xpend = np.vstack((self.Xpend, np.copy(xx)))
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
-- 
2.43.0


From 3d454dd9aa275eb6931c63f9bc19815c490ce7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 08/32] fix: save works for checkpoint files in another
 directory

---
 pySOT/strategy/surrogate_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 0858432..edb1be6 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -174,7 +174,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         :param fname: Filename
         :type fname: string
         """
-        temp_fname = "temp_" + fname
+        dirname, basename = os.path.split(fname)
+        temp_fname = os.path.join(dirname, "temp_" + basename)
         with open(temp_fname, "wb") as output:
             dill.dump(self, output, dill.HIGHEST_PROTOCOL)
         os.rename(temp_fname, fname)
-- 
2.43.0


From f1a3e1caa43dddc0bc1b0ea0549d2c5f457fd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 09/32] fix: extra_vals of np.inf means unknown as documented

---
 pySOT/strategy/surrogate_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index edb1be6..b710917 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -241,7 +241,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         # We only evaluate these points before the first restart
         if self.extra_points is not None and len(self.X) == 0:
             for i in range(self.extra_points.shape[0]):
-                if self.extra_vals is None or np.all(np.isnan(self.extra_vals[i])):  # Unknown value
+                if self.extra_vals is None or not np.all(np.isfinite(self.extra_vals[i])):  # Unknown value
                     self.batch_queue.append(self.extra_points[i, :])
                 else:  # Known value, save point and add to surrogate model
                     x = np.copy(self.extra_points[i, :])
-- 
2.43.0


From 2cc2a07ba5f44a76df46cc6054a2d37868018875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 10/32] fix: reject invalid budgets, center counts and
 dimensions as the error messages say

---
 pySOT/strategy/random_strategy.py    | 4 ++--
 pySOT/strategy/sop_strategy.py       | 2 +-
 pySOT/strategy/surrogate_strategy.py | 2 +-
 pySOT/utils.py                       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index c6a5130..5685a41 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -24,8 +24,8 @@ class RandomStrategy(BaseStrategy):
 
     def __init__(self, max_evals, opt_prob):
         check_opt_prob(opt_prob)
-        if not isinstance(max_evals, int) and max_evals > 0:
-            raise ValueError("max_evals must be an integer >= exp_des.num_pts")
+        if not (isinstance(max_evals, int) and max_evals > 0):
+            raise ValueError("max_evals must be a positive integer")
 
         self.opt_prob = opt_prob
         self.max_evals = max_evals
diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 0733364..52533d0 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -230,7 +230,7 @@ class SOPStrategy(SurrogateBaseStrategy):
     def check_input(self):
         """Check inputs."""
         super().check_input()
-        if not isinstance(self.ncenters, int) and self.ncenters > 3:
+        if not (isinstance(self.ncenters, int) and self.ncenters > 3):
             raise ValueError("ncenters should be an integer greater than 3")
         if not self.asynchronous:
             if not self.ncenters >= self.batch_size:
diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index b710917..e172703 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -160,7 +160,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         check_opt_prob(self.opt_prob)
         if not self.asynchronous and self.batch_size is None:
             raise ValueError("You must specify batch size in synchronous mode " "(use 1 for serial)")
-        if not isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts:
+        if not (isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts):
             raise ValueError("max_evals must be an integer >= exp_des.num_pts")
 
     def save(self, fname):
diff --git a/pySOT/utils.py b/pySOT/utils.py
index e6419d2..049fa52 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -109,7 +109,7 @@ def check_opt_prob(obj):  # pragma: no cover
     if not isinstance(obj, OptimizationProblem):
         raise TypeError("Input does not implement OptimizationProblem")
 
-    if not isinstance(obj.dim, int) and obj.dim() > 0:
+    if not (isinstance(obj.dim, int) and obj.dim > 0):
         raise ValueError("dim must be a positive integer")
 
     if not isinstance(obj.lb, np.ndarray):
-- 
2.43.0


From efd731be1271204268910c67707d89228c51d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 11/32] fix: a resumed run spends the part of the budget that
 was pending at the snapshot

---
 pySOT/strategy/surrogate_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index e172703..838cf52 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -182,6 +182,8 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def resume(self):
         """Resume a terminated run."""
+        self.terminate = False  # Pending evaluations may have been lost, so check the budget again
+
         if self.phase == 1:  # Put the points back in the queue in init phase
             self.init_pending = 0
             for x in self.Xpend:
-- 
2.43.0


From 809c8f47f86698dd3c3a0664bfce12aeac74da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 12/32] fix: RandomStrategy proposes integers for integer
 variables

---
 pySOT/strategy/random_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index 5685a41..56a330a 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -3,7 +3,7 @@ import logging
 import numpy as np
 from poap.strategy import BaseStrategy, RetryStrategy
 
-from ..utils import check_opt_prob
+from ..utils import check_opt_prob, round_vars
 
 # Get module-level logger
 logger = logging.getLogger(__name__)
@@ -32,6 +32,7 @@ class RandomStrategy(BaseStrategy):
         self.retry = RetryStrategy()
         for _ in range(max_evals):  # Generate the random points
             x = np.random.uniform(low=opt_prob.lb, high=opt_prob.ub)
+            x = round_vars(np.atleast_2d(x), opt_prob.int_var, opt_prob.lb, opt_prob.ub).ravel()
             proposal = self.propose_eval(x)
             self.retry.rput(proposal)
 
-- 
2.43.0


From 4c2d14fb2b816a2f9458c5ff101ff0b1be9c37c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 13/32] fix: candidate_dycors perturbs the requested subset of
 coordinates

---
 pySOT/auxiliary_problems/candidate_dycors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySOT/auxiliary_problems/candidate_dycors.py b/pySOT/auxiliary_problems/candidate_dycors.py
index 9f80a68..18ed78e 100644
--- a/pySOT/auxiliary_problems/candidate_dycors.py
+++ b/pySOT/auxiliary_problems/candidate_dycors.py
@@ -78,10 +78,10 @@ def candidate_dycors(
         ar[ind, np.random.randint(0, len(subset) - 1, size=len(ind))] = 1
 
     cand = np.multiply(np.ones((num_cand, opt_prob.dim)), xbest)
-    for i in subset:
+    for j, i in enumerate(subset):
         lower, upper, sigma = opt_prob.lb[i], opt_prob.ub[i], scalefactors[i]
-        ind = np.where(ar[:, i] == 1)[0]
-        cand[ind, subset[i]] = stats.truncnorm.rvs(
+        ind = np.where(ar[:, j] == 1)[0]
+        cand[ind, i] = stats.truncnorm.rvs(
             a=(lower - xbest[i]) / sigma, b=(upper - xbest[i]) / sigma, loc=xbest[i], scale=sigma, size=len(ind)
         )
 
-- 
2.43.0


From 7c0efd261cae302abb40ce69df4d630e6cd376a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 14/32] fix: candidate_dycors may fall back to perturbing the
 last coordinate

---
 pySOT/auxiliary_problems/candidate_dycors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/auxiliary_problems/candidate_dycors.py b/pySOT/auxiliary_problems/candidate_dycors.py
index 18ed78e..094d6c3 100644
--- a/pySOT/auxiliary_problems/candidate_dycors.py
+++ b/pySOT/auxiliary_problems/candidate_dycors.py
@@ -75,7 +75,7 @@ def candidate_dycors(
     else:
         ar = np.random.rand(num_cand, len(subset)) < prob_perturb
         ind = np.where(np.sum(ar, axis=1) == 0)[0]
-        ar[ind, np.random.randint(0, len(subset) - 1, size=len(ind))] = 1
+        ar[ind, np.random.randint(0, len(subset), size=len(ind))] = 1
 
     cand = np.multiply(np.ones((num_cand, opt_prob.dim)), xbest)
     for j, i in enumerate(subset):
-- 
2.43.0


From 1a3f6661e23be5c4f4a22385849ddb8993d84903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 15/32] fix: GeneticAlgorithm accepts (and does not modify) an
 initial population inside the domain

---
 pySOT/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index 049fa52..fbd9c05 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -268,11 +268,11 @@ class GeneticAlgorithm:
         if isinstance(self.start, np.ndarray):
             if self.start.shape[0] != self.nindividuals or self.start.shape[1] != self.nvariables:
                 raise ValueError("Initial population has incorrect size")
-            if any(np.min(self.start, axis=0) >= self.lower_boundary) or any(
-                np.max(self.start, axis=0) <= self.upper_boundary
+            if any(np.min(self.start, axis=0) < self.lower_boundary) or any(
+                np.max(self.start, axis=0) > self.upper_boundary
             ):
                 raise ValueError("Initial population is outside the domain")
-            population = self.start
+            population = np.copy(self.start)
         elif self.start == "SLHD":
             from pySOT.experimental_design import SymmetricLatinHypercube
 
-- 
2.43.0


From ec97f7a4788642e3a9cfc55b882697e34d34c017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 16/32] fix: TPSKernel does not modify the distance matrix of
 the caller

---
 pySOT/surrogate/kernels/tps_kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/surrogate/kernels/tps_kernel.py b/pySOT/surrogate/kernels/tps_kernel.py
index 564c492..ed4ec24 100644
--- a/pySOT/surrogate/kernels/tps_kernel.py
+++ b/pySOT/surrogate/kernels/tps_kernel.py
@@ -25,7 +25,7 @@ class TPSKernel(Kernel):
             :math:`\\|x_i - x_j \\|^2 \\log (\\|x_i - x_j \\|)`
         :rtype: numpy.array
         """
-        dists[dists < np.finfo(float).eps] = np.finfo(float).eps
+        dists = np.maximum(dists, np.finfo(float).eps)
         return (dists ** 2) * np.log(dists)
 
     def deriv(self, dists):
@@ -38,5 +38,5 @@ class TPSKernel(Kernel):
             :math:`\\|x_i - x_j \\|(1 + 2 \\log (\\|x_i - x_j \\|) )`
         :rtype: numpy.array
         """
-        dists[dists < np.finfo(float).eps] = np.finfo(float).eps
+        dists = np.maximum(dists, np.finfo(float).eps)
         return dists * (1 + 2 * np.log(dists))
-- 
2.43.0


From 3cc07fcdb2a2f9a450a9d3927deb03264c7a7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 17/32] fix: lcb_ga works with its default lcb_target

---
 pySOT/auxiliary_problems/lcb_ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/auxiliary_problems/lcb_ga.py b/pySOT/auxiliary_problems/lcb_ga.py
index 73cbe1f..18080b4 100644
--- a/pySOT/auxiliary_problems/lcb_ga.py
+++ b/pySOT/auxiliary_problems/lcb_ga.py
@@ -52,7 +52,7 @@ def lcb_ga(num_pts, opt_prob, surrogate, X, fX, Xpend=None, kappa=2.0, dtol=1e-3
         )
         x_best, f_min = ga.optimize()
 
-        if f_min > lcb_target:
+        if lcb_target is not None and f_min > lcb_target:
             return None  # Give up
 
         new_points[i, :] = x_best
-- 
2.43.0


From 3363ade32aed926f6445a7e96bb05bddf3b3694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 18/32] fix: keep evaluations that were pending when the
 sampling radius changed

---
 pySOT/strategy/surrogate_strategy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 838cf52..bcedb68 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -132,6 +132,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         # Event indices to keep track of if points where proposed before an event (restart, parameter change, etc.)
         self.ev_last = 0
         self.ev_next = 1
+        self.ev_restart = 0  # Event index of the last restart
 
         # Check inputs (implemented by each strategy)
         self.check_input()
@@ -203,6 +204,7 @@ class SurrogateBaseStrategy(BaseStrategy):
     def sample_restart(self):
         """Restart a run after convergence."""
         self.ev_last = self.get_ev()
+        self.ev_restart = self.ev_last
 
         # Reset data in current run
         self._X = np.empty([0, self.opt_prob.dim])
@@ -364,7 +366,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
@@ -429,7 +431,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
-- 
2.43.0


From 611a72ea46d9c139fd11214fe2126caeacd4aeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 19/32] fix: rounding errors no longer move design points and
 initial populations out of the domain

---
 pySOT/experimental_design/experimental_design.py | 2 +-
 pySOT/experimental_design/two_factorial.py       | 2 +-
 pySOT/utils.py                                   | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySOT/experimental_design/experimental_design.py b/pySOT/experimental_design/experimental_design.py
index 500cbf1..d4ec710 100755
--- a/pySOT/experimental_design/experimental_design.py
+++ b/pySOT/experimental_design/experimental_design.py
@@ -62,7 +62,7 @@ def _expdes_dist(gen, iterations, lb, ub, int_var):
     for _ in range(iterations):
         cand = gen()  # Generate a new design
         if all([x is not None for x in [lb, ub]]):  # Map and round
-            cand = round_vars(from_unit_box(cand, lb, ub), int_var, lb, ub)
+            cand = round_vars(np.clip(from_unit_box(cand, lb, ub), lb, ub), int_var, lb, ub)
 
         dists = cdist(cand, cand)
         np.fill_diagonal(dists, np.inf)  # Since these are zero
diff --git a/pySOT/experimental_design/two_factorial.py b/pySOT/experimental_design/two_factorial.py
index f1d71d2..76fadb1 100644
--- a/pySOT/experimental_design/two_factorial.py
+++ b/pySOT/experimental_design/two_factorial.py
@@ -50,5 +50,5 @@ class TwoFactorial(ExperimentalDesign):
 
         X = np.array(list(itertools.product([0, 1], repeat=self.dim)))
         if all([x is not None for x in [lb, ub]]):  # Map and round
-            X = round_vars(from_unit_box(X, lb, ub), int_var, lb, ub)
+            X = round_vars(np.clip(from_unit_box(X, lb, ub), lb, ub), int_var, lb, ub)
         return X
diff --git a/pySOT/utils.py b/pySOT/utils.py
index fbd9c05..50c63bf 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -289,6 +289,7 @@ class GeneticAlgorithm:
             )
         else:
             raise ValueError("Unknown argument for initial population")
+        population = np.clip(population, self.lower_boundary, self.upper_boundary)  # Rounding errors
 
         new_population = []
         #  Round positions
-- 
2.43.0


From ca75b5cc52c5ced5143fa3d8707babfb2b158bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 20/32] fix: synchronous SOP works with batch_size < ncenters

---
 pySOT/strategy/sop_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 52533d0..7f09fb8 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -325,7 +325,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         """
 
         if index is None:  # Batch mode - update memory for all centers
-            indices = range(self.ncenters)
+            indices = [i for i in range(len(self.centers)) if self.centers[i].new_index is not None]
         else:  # asynchronous mode
             indices = [index]
 
-- 
2.43.0


From 96cb54656d4d4df07348748c465ae3af7afdec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 21/32] fix: SOP selects centers by non-domination rank instead
 of dropping the ranks

---
 pySOT/strategy/sop_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7f09fb8..02ea437 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -400,6 +400,8 @@ class SOPStrategy(SurrogateBaseStrategy):
         nmax = 100  # Maximum number of points that may be selected as centers
         ranks = nd_sorting(F[:, self.opt_prob.dim : self.opt_prob.dim + 2].transpose(), nmax)  # Perform ND Sorting
         F[:, self.opt_prob.dim + 3] = ranks.transpose()
+        for val, rank in zip(self.evals, ranks):  # Remember the ranks, update_F reads them
+            val.rank = rank
         self.F_ranked = np.copy(F)
 
     def update_center_list(self):
-- 
2.43.0


From 5164efbd64a4d3658f00a1de96c6bc3d909dab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 22/32] fix: SOP makes a center available again if its point is
 rejected, killed or lost

---
 pySOT/strategy/sop_strategy.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 02ea437..4aa7305 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -122,6 +122,10 @@ class _SopCenter:
         else:
             self._new_index = value
 
+    def release(self):
+        """Forget the new point, e.g., because it was not evaluated"""
+        self._new_point = None
+
 
 class SOPStrategy(SurrogateBaseStrategy):
     """Surrogate Optimization with Pareto Selection Strategy
@@ -258,7 +262,9 @@ class SOPStrategy(SurrogateBaseStrategy):
 
             ncenters = len(self.centers)
             for i in range(ncenters):  # Update location of new point in center
-                if np.array_equal(np.copy(record.params[0]), self.centers[i].new_point):
+                if self.centers[i].new_index is None and np.array_equal(
+                    np.copy(record.params[0]), self.centers[i].new_point
+                ):
                     self.centers[i].new_index = self.num_evals - 1
                     center_index = i
                     break
@@ -268,11 +274,35 @@ class SOPStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_memory()
 
+    def release_center(self, x):
+        """Make the center that proposed x available again since x will not be evaluated."""
+        for center in self.centers:
+            if center.new_index is None and center.new_point is not None and np.array_equal(x, center.new_point):
+                center.release()
+                break
+
+    def on_adapt_reject(self, proposal):
+        """Handle accepted proposal from sampling phase."""
+        super().on_adapt_reject(proposal)
+        if self.asynchronous:  # The point is proposed again in the synchronous case
+            self.release_center(proposal.args[0])
+
+    def on_adapt_aborted(self, record):
+        """Handle aborted feval from sampling phase."""
+        super().on_adapt_aborted(record)
+        self.release_center(record.params[0])
+
+    def resume(self):
+        """Resume a terminated run."""
+        for x in self.Xpend:  # These evaluations were lost
+            self.release_center(x)
+        super().resume()
+
     def generate_evals(self, num_pts):
         """Generate the next adaptive sample points."""
 
         # Update the list of center points
-        if self.F_ranked is None:  # If this is the start of adaptive phase
+        if self.F_ranked is None or len(self.F_ranked) != self.num_evals:  # There are new evaluations
             self.update_ranks()
         self.update_center_list()
 
-- 
2.43.0


From 1f24b177e734db0cc2e081af62b4d47c6ca09534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 23/32] fix: SRBF and DYCORS accept a numpy array of weights

---
 pySOT/strategy/srbf_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index fd79e76..a8751eb 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -135,7 +135,7 @@ class SRBFStrategy(SurrogateBaseStrategy):
 
     def check_input(self):
         """Check inputs."""
-        assert isinstance(self.weights, list) or isinstance(self.weights, np.array)
+        assert isinstance(self.weights, list) or isinstance(self.weights, np.ndarray)
         for w in self.weights:
             assert isinstance(w, float) and w >= 0.0 and w <= 1.0
         super().check_input()
-- 
2.43.0


From 566a31b62c77ed787f52ae0603c32e7256c143ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 24/32] fix: perturbation probability is not nan when the
 budget leaves one adaptive evaluation

---
 pySOT/strategy/dycors_strategy.py | 2 +-
 pySOT/strategy/sop_strategy.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/dycors_strategy.py b/pySOT/strategy/dycors_strategy.py
index 472779b..a3d159b 100644
--- a/pySOT/strategy/dycors_strategy.py
+++ b/pySOT/strategy/dycors_strategy.py
@@ -85,7 +85,7 @@ class DYCORSStrategy(SRBFStrategy):
         """Generate the next adaptive sample points."""
         num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0
         min_prob = np.min([1.0, 1.0 / self.opt_prob.dim])
-        budget = self.max_evals - self.num_exp
+        budget = max(self.max_evals - self.num_exp, 2)  # Avoid division by log(1) = 0
         prob_perturb = min([20.0 / self.opt_prob.dim, 1.0]) * (1.0 - (np.log(num_evals) / np.log(budget)))
         prob_perturb = max(prob_perturb, min_prob)
 
diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 4aa7305..d4aabe7 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -309,7 +309,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         # Compute dycors perturbation probability
         num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0
         min_prob = np.min([1.0, 1.0 / self.opt_prob.dim])
-        budget = self.max_evals - self.num_exp
+        budget = max(self.max_evals - self.num_exp, 2)  # Avoid division by log(1) = 0
         prob_perturb = min([20.0 / self.opt_prob.dim, 1.0]) * (1.0 - (np.log(num_evals) / np.log(budget)))
         prob_perturb = max(prob_perturb, min_prob)
 
-- 
2.43.0


From 4a664a40c7fbfdd4a102acacbe67d4b57fae461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 25/32] fix: checkpoint contains the evaluation whose
 completion triggered it

---
 pySOT/controller/controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySOT/controller/controller.py b/pySOT/controller/controller.py
index 9aeb283..eb40ad3 100644
--- a/pySOT/controller/controller.py
+++ b/pySOT/controller/controller.py
@@ -83,7 +83,9 @@ class CheckpointController(object):
         :param record: Evaluation record
         :type record: EvalRecord
         """
-        if record.is_completed:
+        if record.is_done and record.callbacks[-1] != self.on_update:
+            record.add_callback(self.on_update)  # Call us again once the strategy has processed the record
+        elif record.is_completed:
             self.on_complete(record)
         elif record.is_killed:
             self.on_kill(record)
-- 
2.43.0


From 4242ddd8966b1bb2c68d7dbaa355f4e24f38de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 26/32] fix: a best point with two updates of tabu tenure is
 not mistaken for one being processed

---
 pySOT/strategy/sop_strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index d4aabe7..ed363b2 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -459,7 +459,7 @@ class SOPStrategy(SurrogateBaseStrategy):
                 if self.centers[i].new_index is not None:
                     finished_centers.append(i)
                 else:  # If a center is being processed, tag it as tabu
-                    F[self.centers[i].index, self.opt_prob.dim + 2] = 2
+                    F[self.centers[i].index, self.opt_prob.dim + 2] = POSITIVE_INFINITY
             for index in reversed(finished_centers):
                 self.centers.pop(index)
 
@@ -467,7 +467,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         # i) tabu status, ii) rank, iii) obj value
         ind = np.lexsort((F[:, self.opt_prob.dim], F[:, self.opt_prob.dim + 3], F[:, self.opt_prob.dim + 2]))
         min_index = np.argmin(F[:, self.opt_prob.dim])
-        if min_index == ind[0] or F[min_index, self.opt_prob.dim + 2] == 2:
+        if min_index == ind[0] or F[min_index, self.opt_prob.dim + 2] == POSITIVE_INFINITY:
             ind_new = np.copy(ind)
         else:  # Put xbest at the top of sorted points (ind_new),
             # regardless of tabu status unless it is being processed
-- 
2.43.0


From 159e1579c484c88058f838328455e1376c09ca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 27/32] fix: docstring of SOP reject handler

---
 pySOT/strategy/sop_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index ed363b2..a9f6a44 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -282,7 +282,7 @@ class SOPStrategy(SurrogateBaseStrategy):
                 break
 
     def on_adapt_reject(self, proposal):
-        """Handle accepted proposal from sampling phase."""
+        """Handle rejected proposal from sampling phase."""
         super().on_adapt_reject(proposal)
         if self.asynchronous:  # The point is proposed again in the synchronous case
             self.release_center(proposal.args[0])
-- 
2.43.0


From afaef1819b421ef4337deaffe65e8dad1099b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 28/32] fix: adjust the step size when the last evaluation of a
 batch is aborted

---
 pySOT/strategy/srbf_strategy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index a8751eb..38a7a3e 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -159,6 +159,12 @@ class SRBFStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_step()
 
+    def on_adapt_aborted(self, record):
+        """Handle aborted evaluation."""
+        super().on_adapt_aborted(record)
+        if not self.asynchronous and self.record_queue and (not self.batch_queue) and self.pending_evals == 0:
+            self.adjust_step()  # The last evaluation of the batch was aborted
+
     def get_weights(self, num_pts):
         """Generate the nextw weights."""
         weights = []
-- 
2.43.0


From 1ab3b7e5db82d01950cac4867a4e427633d2c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 29/32] fix: update the SOP memory when the last evaluation of
 a batch is aborted

---
 pySOT/strategy/sop_strategy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index a9f6a44..867a291 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -291,6 +291,9 @@ class SOPStrategy(SurrogateBaseStrategy):
         """Handle aborted feval from sampling phase."""
         super().on_adapt_aborted(record)
         self.release_center(record.params[0])
+        if not self.asynchronous and (not self.batch_queue) and self.pending_evals == 0:
+            if any(center.new_index is not None for center in self.centers):
+                self.adjust_memory()  # The last evaluation of the batch was aborted
 
     def resume(self):
         """Resume a terminated run."""
-- 
2.43.0


From 012b3ff8aec4a41ba880202e91272610fedab3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 30/32] fix: perturbation probability infinite when points of
 the design were lost

---
 pySOT/strategy/dycors_strategy.py | 2 +-
 pySOT/strategy/sop_strategy.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/dycors_strategy.py b/pySOT/strategy/dycors_strategy.py
index a3d159b..26ded12 100644
--- a/pySOT/strategy/dycors_strategy.py
+++ b/pySOT/strategy/dycors_strategy.py
@@ -83,7 +83,7 @@ class DYCORSStrategy(SRBFStrategy):
 
     def generate_evals(self, num_pts):
         """Generate the next adaptive sample points."""
-        num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0
+        num_evals = max(len(self.X) + len(self.Xpend) - self.num_exp, 0) + 1.0
         min_prob = np.min([1.0, 1.0 / self.opt_prob.dim])
         budget = max(self.max_evals - self.num_exp, 2)  # Avoid division by log(1) = 0
         prob_perturb = min([20.0 / self.opt_prob.dim, 1.0]) * (1.0 - (np.log(num_evals) / np.log(budget)))
diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 867a291..0e2b87f 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -310,7 +310,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         self.update_center_list()
 
         # Compute dycors perturbation probability
-        num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0
+        num_evals = max(len(self.X) + len(self.Xpend) - self.num_exp, 0) + 1.0
         min_prob = np.min([1.0, 1.0 / self.opt_prob.dim])
         budget = max(self.max_evals - self.num_exp, 2)  # Avoid division by log(1) = 0
         prob_perturb = min([20.0 / self.opt_prob.dim, 1.0]) * (1.0 - (np.log(num_evals) / np.log(budget)))
-- 
2.43.0


From c21933109d86937cd4015105acdd820a6b567e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 31/32] fix: SOP updates its centers twice when a lost design
 point completes in the adaptive phase

---
 pySOT/strategy/sop_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 0e2b87f..f08376f 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -270,7 +270,8 @@ class SOPStrategy(SurrogateBaseStrategy):
                     break
 
             if self.asynchronous:  # Process immediately
-                self.adjust_memory(center_index)
+                if center_index is not None:  # No center proposed points of the initial design
+                    self.adjust_memory(center_index)
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_memory()
 
-- 
2.43.0


From 005b78f2b124724e9244c24261928197a6b40ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 32/32] fix: check_opt_prob accepts repeated variable indices
 that leave a variable undeclared

---
 pySOT/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index 50c63bf..bd476b2 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -144,7 +144,7 @@ def check_opt_prob(obj):  # pragma: no cover
             raise AttributeError("Integer variable index can't exceed " "number of dimensions or be negative")
     if not (len(np.intersect1d(contvar, intvar)) == 0):
         raise AttributeError("A variable can't be both " "an integer and continuous")
-    if not (len(contvar) + len(intvar) == obj.dim):
+    if not (len(contvar) + len(intvar) == obj.dim and len(np.union1d(contvar, intvar)) == obj.dim):
         raise AttributeError("All variables must be either " "integer or continuous")
 
 
-- 
2.43.0

