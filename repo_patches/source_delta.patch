From 4724ba4d070be2779da15ede706d203587ae5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 01/30] fix: use the builtin int instead of the removed
 numpy.int alias

numpy.int was removed in NumPy 1.24, so nd_sorting and every SOP run raised
AttributeError.
---
 pySOT/strategy/sop_strategy.py | 2 +-
 pySOT/utils.py                 | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7d0223c..0733364 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -454,7 +454,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         num_pending_centers = len(self.centers)
         center_count = self.ncenters - num_pending_centers
         if center_count > 0:
-            center_index = -1 * np.ones((center_count,), dtype=np.int)
+            center_index = -1 * np.ones((center_count,), dtype=int)
             center_index[0] = ind_new[0]
             check = 1
             i = 1
diff --git a/pySOT/utils.py b/pySOT/utils.py
index 1335ef8..e6419d2 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -465,8 +465,8 @@ def nd_sorting(F, nmax):
     """
 
     (M, N) = F.shape
-    nd_ranks = np.ones((N,), dtype=np.int) * POSITIVE_INFINITY
-    P = np.ones((N,), dtype=np.int)
+    nd_ranks = np.ones((N,), dtype=int) * POSITIVE_INFINITY
+    P = np.ones((N,), dtype=int)
     for i in range(0, N):
         P[i] = i
     i = 1
@@ -476,7 +476,7 @@ def nd_sorting(F, nmax):
         for j in range(0, len(ndf_index)):
             nd_ranks[P[ndf_index[j]]] = i
         count = count + len(ndf_index)
-        P_new = np.ones((len(df_index),), dtype=np.int)
+        P_new = np.ones((len(df_index),), dtype=int)
         for j in range(0, len(df_index)):
             P_new[j] = P[df_index[j]]
         P = P_new
-- 
2.43.0


From 6942b8e38b33f5c66104974c863db1ab4934d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 02/30] fix: GPRegressor.predict returns a num_pts x 1 array as
 documented

Recent scikit-learn squeezes single-output predictions to one dimension, and
combining those with the num_pts x 1 standard deviations broadcast EI/LCB and
the weighted distance merit to square matrices.
---
 pySOT/surrogate/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/gp.py b/pySOT/surrogate/gp.py
index 305bbb6..74085ce 100644
--- a/pySOT/surrogate/gp.py
+++ b/pySOT/surrogate/gp.py
@@ -68,7 +68,7 @@ class GPRegressor(Surrogate):
         """
         self._fit()
         xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
-        return self._mu + self._sigma * self.model.predict(xx)
+        return self._mu + self._sigma * self.model.predict(xx).reshape(-1, 1)
 
     def predict_std(self, xx):
         """Predict standard deviation at points xx.
-- 
2.43.0


From 2a26b9011f9364a57e1a56f768975fff2a5804a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 03/30] fix: accept a numpy array of weights in SRBF and DYCORS

---
 pySOT/strategy/srbf_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index fd79e76..a8751eb 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -135,7 +135,7 @@ class SRBFStrategy(SurrogateBaseStrategy):
 
     def check_input(self):
         """Check inputs."""
-        assert isinstance(self.weights, list) or isinstance(self.weights, np.array)
+        assert isinstance(self.weights, list) or isinstance(self.weights, np.ndarray)
         for w in self.weights:
             assert isinstance(w, float) and w >= 0.0 and w <= 1.0
         super().check_input()
-- 
2.43.0


From b7285e5d6eb9dbc7f11969be6ff5f888b28970b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 04/30] fix: treat an infinite extra value as unknown, as
 documented

---
 pySOT/strategy/surrogate_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 144f167..63c4776 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -238,7 +238,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         # We only evaluate these points before the first restart
         if self.extra_points is not None and len(self.X) == 0:
             for i in range(self.extra_points.shape[0]):
-                if self.extra_vals is None or np.all(np.isnan(self.extra_vals[i])):  # Unknown value
+                if self.extra_vals is None or not np.all(np.isfinite(self.extra_vals[i])):  # Unknown value
                     self.batch_queue.append(self.extra_points[i, :])
                 else:  # Known value, save point and add to surrogate model
                     x = np.copy(self.extra_points[i, :])
-- 
2.43.0


From 1d6b6ddf7f77e2ec6579a3ab2c0befc579c2eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 05/30] fix: put the temporary checkpoint file next to the
 checkpoint file

---
 pySOT/strategy/surrogate_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 63c4776..410534f 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -174,7 +174,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         :param fname: Filename
         :type fname: string
         """
-        temp_fname = "temp_" + fname
+        head, tail = os.path.split(fname)
+        temp_fname = os.path.join(head, "temp_" + tail)
         with open(temp_fname, "wb") as output:
             dill.dump(self, output, dill.HIGHEST_PROTOCOL)
         os.rename(temp_fname, fname)
-- 
2.43.0


From 5b9e455c316b28399037d160ed1b36f90f2da321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 06/30] fix: keep a point pending while another evaluation of
 it is in flight

---
 pySOT/strategy/surrogate_strategy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 410534f..9f1f6c6 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -308,7 +308,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def remove_pending(self, x):
         """Delete a pending point from self.Xpend."""
-        idx = np.where((self.Xpend == x).all(axis=1))[0]
+        idx = np.where((self.Xpend == x).all(axis=1))[0][:1]  # Same point may be pending more than once
         self.Xpend = np.delete(self.Xpend, idx, axis=0)
 
     # == Processing in initial phase ==
@@ -338,7 +338,6 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = proposal.args[0]
         self.batch_queue.append(xx)  # Add back to queue
-        self.Xpend = np.vstack((self.Xpend, np.copy(xx)))
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
-- 
2.43.0


From d89287cace40a75fe2baba2674301a91fbeece59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 07/30] fix: terminate after convergence when restarts are
 disabled

---
 pySOT/strategy/surrogate_strategy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 9f1f6c6..33a0e31 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -263,6 +263,8 @@ class SurrogateBaseStrategy(BaseStrategy):
 
         # Check if termination criterion has been reached
         self.check_termination()
+        if self.converged and not self.use_restarts:  # Nothing left to do
+            self.terminate = True
 
         # Decide the next action to take
         if self.terminate:  # Check if termination has been triggered
@@ -295,6 +297,9 @@ class SurrogateBaseStrategy(BaseStrategy):
                         return self.init_proposal()  # We are now in phase 1, so make an initial proposal
                     else:
                         return
+                else:  # Terminate once the pending evaluations are done
+                    self.terminate = True
+                    return Proposal("terminate") if self.pending_evals == 0 else None
 
             # Launch the new evaluations (the others will be triggered later)
             return self.adapt_proposal()
-- 
2.43.0


From 8ba44760b62c224f1fe9126a7297c52cbfeed981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 08/30] fix: keep retrying an initial design point that fails
 in the adaptive phase

---
 pySOT/strategy/surrogate_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 33a0e31..d6adc19 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -343,6 +343,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = proposal.args[0]
         self.batch_queue.append(xx)  # Add back to queue
+        self.phase = 1  # The point still belongs to the initial design
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
@@ -376,6 +377,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = record.params[0]
         self.batch_queue.append(xx)
+        self.phase = 1  # The point still belongs to the initial design
         self.remove_pending(xx)
         self.fevals.append(record)
 
-- 
2.43.0


From 4fb91373625913cc10a3b0fadca103df403e7414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 09/30] fix: use the rest of the budget when a checkpointed run
 is resumed

---
 pySOT/strategy/surrogate_strategy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index d6adc19..6567a0f 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -182,6 +182,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def resume(self):
         """Resume a terminated run."""
+        self.terminate = False  # The pending evaluations were lost, so there may be budget left
         if self.phase == 1:  # Put the points back in the queue in init phase
             self.init_pending = 0
             for x in self.Xpend:
-- 
2.43.0


From f8e7963731c825b66e8e91acce5077bbc8ecf974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 10/30] fix: put all outstanding initial points back in the
 queue on resume

---
 pySOT/strategy/surrogate_strategy.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 6567a0f..98fea30 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -112,6 +112,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.extra_vals = extra_vals
         self.batch_queue = []  # Unassigned points in initial experiment
         self.init_pending = 0  # Number of outstanding initial fevals
+        self.Xinit = []  # Outstanding points from the initial experiment
         self.phase = 1  # 1 for initial, 2 for adaptive
 
         # Budgeting state
@@ -183,10 +184,10 @@ class SurrogateBaseStrategy(BaseStrategy):
     def resume(self):
         """Resume a terminated run."""
         self.terminate = False  # The pending evaluations were lost, so there may be budget left
-        if self.phase == 1:  # Put the points back in the queue in init phase
-            self.init_pending = 0
-            for x in self.Xpend:
-                self.batch_queue.append(np.copy(x))
+        if len(self.Xinit) > 0:  # Put the points from the initial design back in the queue
+            self.phase = 1
+            self.batch_queue.extend(self.Xinit)
+            self.Xinit = []
 
         # Remove everything that was pending
         self.pending_evals = 0
@@ -317,11 +318,20 @@ class SurrogateBaseStrategy(BaseStrategy):
         idx = np.where((self.Xpend == x).all(axis=1))[0][:1]  # Same point may be pending more than once
         self.Xpend = np.delete(self.Xpend, idx, axis=0)
 
+    def remove_initial(self, x):
+        """Delete an outstanding point from the initial experiment."""
+        for i, xx in enumerate(self.Xinit):
+            if np.array_equal(xx, x):
+                self.Xinit.pop(i)
+                break
+
     # == Processing in initial phase ==
 
     def init_proposal(self):
         """Propose a point from the initial experimental design."""
-        proposal = self.make_proposal(self.batch_queue.pop())
+        xx = self.batch_queue.pop()
+        self.Xinit.append(xx)
+        proposal = self.make_proposal(xx)
         proposal.add_callback(self.on_initial_proposal)
         return proposal
 
@@ -346,6 +356,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.batch_queue.append(xx)  # Add back to queue
         self.phase = 1  # The point still belongs to the initial design
         self.remove_pending(xx)
+        self.remove_initial(xx)
 
     def on_initial_update(self, record):
         """Handle update of feval from initial design."""
@@ -363,6 +374,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.X = np.vstack((self.X, np.atleast_2d(xx)))
         self.fX = np.vstack((self.fX, fx))
         self.remove_pending(xx)
+        self.remove_initial(xx)
 
         # Only count point if it was proposed after the last restart
         if record.ev_id > self.ev_last:
@@ -380,6 +392,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.batch_queue.append(xx)
         self.phase = 1  # The point still belongs to the initial design
         self.remove_pending(xx)
+        self.remove_initial(xx)
         self.fevals.append(record)
 
     # == Processing in adaptive phase ==
-- 
2.43.0


From 472de126297bf7d583724706972fc5b9378c8a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 11/30] fix: keep evaluations that were in flight when the
 sampling radius changed

---
 pySOT/strategy/srbf_strategy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index a8751eb..6fb37d3 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -120,6 +120,7 @@ class SRBFStrategy(SurrogateBaseStrategy):
         self.maxfailtol = 4 * self.failtol
 
         self.record_queue = []  # Completed records that haven't been processed
+        self.ev_adjust = 0  # Event index of the last change of the sampling radius
 
         super().__init__(
             max_evals=max_evals,
@@ -151,7 +152,8 @@ class SRBFStrategy(SurrogateBaseStrategy):
         """Handle completed evaluation."""
         super().on_adapt_completed(record)
 
-        if record.ev_id > self.ev_last:  # Only process fresh records
+        # Only process records proposed after the last restart and change of sampling radius
+        if record.ev_id > max(self.ev_last, self.ev_adjust):
             self.record_queue.append(record)
 
             if self.asynchronous:  # Process immediately
@@ -203,12 +205,12 @@ class SRBFStrategy(SurrogateBaseStrategy):
 
         # Check if step needs adjusting
         if self.status <= -self.failtol:
-            self.ev_last = self.get_ev()  # Update the event id
+            self.ev_adjust = self.get_ev()  # Update the event id
             self.status = 0
             self.sampling_radius /= 2
             logger.info("Reducing sampling radius")
         if self.status >= self.succtol:
-            self.ev_last = self.get_ev()  # Update the event id
+            self.ev_adjust = self.get_ev()  # Update the event id
             self.status = 0
             self.sampling_radius = min([2.0 * self.sampling_radius, self.sampling_radius_max])
             logger.info("Increasing sampling radius")
-- 
2.43.0


From 6ad6eead57e609032b83ee254cb8ac135ac81b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 12/30] fix: include the evaluation that just finished in the
 checkpoint

---
 pySOT/controller/controller.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pySOT/controller/controller.py b/pySOT/controller/controller.py
index 9aeb283..322ee44 100644
--- a/pySOT/controller/controller.py
+++ b/pySOT/controller/controller.py
@@ -80,6 +80,15 @@ class CheckpointController(object):
     def on_update(self, record):
         """Handle feval update.
 
+        :param record: Evaluation record
+        :type record: EvalRecord
+        """
+        if record.is_done:  # The strategy subscribed after us, so wait for it to process the record
+            record.add_callback(self.on_done)
+
+    def on_done(self, record):
+        """Handle finished feval after it has been processed by the strategy.
+
         :param record: Evaluation record
         :type record: EvalRecord
         """
-- 
2.43.0


From 041e7f578012de5beaa762a7b13a53940b33c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 13/30] fix: let candidate_dycors perturb any given subset of
 the coordinates

---
 pySOT/auxiliary_problems/candidate_dycors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/auxiliary_problems/candidate_dycors.py b/pySOT/auxiliary_problems/candidate_dycors.py
index 9f80a68..094d6c3 100644
--- a/pySOT/auxiliary_problems/candidate_dycors.py
+++ b/pySOT/auxiliary_problems/candidate_dycors.py
@@ -75,13 +75,13 @@ def candidate_dycors(
     else:
         ar = np.random.rand(num_cand, len(subset)) < prob_perturb
         ind = np.where(np.sum(ar, axis=1) == 0)[0]
-        ar[ind, np.random.randint(0, len(subset) - 1, size=len(ind))] = 1
+        ar[ind, np.random.randint(0, len(subset), size=len(ind))] = 1
 
     cand = np.multiply(np.ones((num_cand, opt_prob.dim)), xbest)
-    for i in subset:
+    for j, i in enumerate(subset):
         lower, upper, sigma = opt_prob.lb[i], opt_prob.ub[i], scalefactors[i]
-        ind = np.where(ar[:, i] == 1)[0]
-        cand[ind, subset[i]] = stats.truncnorm.rvs(
+        ind = np.where(ar[:, j] == 1)[0]
+        cand[ind, i] = stats.truncnorm.rvs(
             a=(lower - xbest[i]) / sigma, b=(upper - xbest[i]) / sigma, loc=xbest[i], scale=sigma, size=len(ind)
         )
 
-- 
2.43.0


From bd425e785347795a4b4ac08522c434f28f56b404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 14/30] fix: accept an initial population inside the domain in
 the genetic algorithm

---
 pySOT/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index e6419d2..dedbe83 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -268,11 +268,11 @@ class GeneticAlgorithm:
         if isinstance(self.start, np.ndarray):
             if self.start.shape[0] != self.nindividuals or self.start.shape[1] != self.nvariables:
                 raise ValueError("Initial population has incorrect size")
-            if any(np.min(self.start, axis=0) >= self.lower_boundary) or any(
-                np.max(self.start, axis=0) <= self.upper_boundary
+            if any(np.min(self.start, axis=0) < self.lower_boundary) or any(
+                np.max(self.start, axis=0) > self.upper_boundary
             ):
                 raise ValueError("Initial population is outside the domain")
-            population = self.start
+            population = np.array(self.start, dtype=float)
         elif self.start == "SLHD":
             from pySOT.experimental_design import SymmetricLatinHypercube
 
-- 
2.43.0


From b589fd9f6d59415ac8597f45754e02bb2deeb2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 15/30] fix: round integer variables in RandomStrategy

---
 pySOT/strategy/random_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index c6a5130..a8950da 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -3,7 +3,7 @@ import logging
 import numpy as np
 from poap.strategy import BaseStrategy, RetryStrategy
 
-from ..utils import check_opt_prob
+from ..utils import check_opt_prob, round_vars
 
 # Get module-level logger
 logger = logging.getLogger(__name__)
@@ -32,6 +32,7 @@ class RandomStrategy(BaseStrategy):
         self.retry = RetryStrategy()
         for _ in range(max_evals):  # Generate the random points
             x = np.random.uniform(low=opt_prob.lb, high=opt_prob.ub)
+            x = round_vars(np.atleast_2d(x), opt_prob.int_var, opt_prob.lb, opt_prob.ub).ravel()
             proposal = self.propose_eval(x)
             self.retry.rput(proposal)
 
-- 
2.43.0


From 09e7b00c1f973421f69a061d4b40e8b8772714d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 16/30] fix: reject an evaluation budget that is not a large
 enough integer

---
 pySOT/strategy/random_strategy.py    | 4 ++--
 pySOT/strategy/surrogate_strategy.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index a8950da..577883f 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -24,8 +24,8 @@ class RandomStrategy(BaseStrategy):
 
     def __init__(self, max_evals, opt_prob):
         check_opt_prob(opt_prob)
-        if not isinstance(max_evals, int) and max_evals > 0:
-            raise ValueError("max_evals must be an integer >= exp_des.num_pts")
+        if not isinstance(max_evals, (int, np.integer)) or max_evals <= 0:
+            raise ValueError("max_evals must be a positive integer")
 
         self.opt_prob = opt_prob
         self.max_evals = max_evals
diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 98fea30..cdbf5e6 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -161,7 +161,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         check_opt_prob(self.opt_prob)
         if not self.asynchronous and self.batch_size is None:
             raise ValueError("You must specify batch size in synchronous mode " "(use 1 for serial)")
-        if not isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts:
+        if not isinstance(self.max_evals, (int, np.integer)) or self.max_evals < max(1, self.exp_design.num_pts):
             raise ValueError("max_evals must be an integer >= exp_des.num_pts")
 
     def save(self, fname):
-- 
2.43.0


From e38a604c3c36b1ca656de67bc4f0ea7afeecddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 17/30] fix: check that the dimension is positive and every
 variable has one type

---
 pySOT/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index dedbe83..d3867f8 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -109,7 +109,7 @@ def check_opt_prob(obj):  # pragma: no cover
     if not isinstance(obj, OptimizationProblem):
         raise TypeError("Input does not implement OptimizationProblem")
 
-    if not isinstance(obj.dim, int) and obj.dim() > 0:
+    if not isinstance(obj.dim, (int, np.integer)) or obj.dim <= 0:
         raise ValueError("dim must be a positive integer")
 
     if not isinstance(obj.lb, np.ndarray):
@@ -144,7 +144,7 @@ def check_opt_prob(obj):  # pragma: no cover
             raise AttributeError("Integer variable index can't exceed " "number of dimensions or be negative")
     if not (len(np.intersect1d(contvar, intvar)) == 0):
         raise AttributeError("A variable can't be both " "an integer and continuous")
-    if not (len(contvar) + len(intvar) == obj.dim):
+    if not np.array_equal(np.sort(np.concatenate((contvar, intvar))), np.arange(obj.dim)):
         raise AttributeError("All variables must be either " "integer or continuous")
 
 
-- 
2.43.0


From d8c0252bccfabe0e73864868b03b50ca25d251af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 18/30] fix: pair every exponent with its own variable in the
 Exponential problem

---
 pySOT/optimization_problems/exponential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/optimization_problems/exponential.py b/pySOT/optimization_problems/exponential.py
index 6f7831d..a713455 100644
--- a/pySOT/optimization_problems/exponential.py
+++ b/pySOT/optimization_problems/exponential.py
@@ -47,5 +47,5 @@ class Exponential(OptimizationProblem):
         self.__check_input__(x)
         total = 0.0
         for i in range(len(x)):
-            total += np.exp((i + 1) * x[i - 1]) - np.exp(-5.12 * (i + 1))
+            total += np.exp((i + 1) * x[i]) - np.exp(-5.12 * (i + 1))
         return total
-- 
2.43.0


From 998f4ee603663e72cd8a7425465b04915670999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 19/30] fix: include the first variable in the sum of the Levy
 function

---
 pySOT/optimization_problems/levy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/optimization_problems/levy.py b/pySOT/optimization_problems/levy.py
index b6b4791..7ca28ca 100644
--- a/pySOT/optimization_problems/levy.py
+++ b/pySOT/optimization_problems/levy.py
@@ -43,6 +43,6 @@ class Levy(OptimizationProblem):
         d = self.dim
         return (
             np.sin(np.pi * w[0]) ** 2
-            + np.sum((w[1 : d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[1 : d - 1] + 1) ** 2))
+            + np.sum((w[0 : d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[0 : d - 1] + 1) ** 2))
             + (w[d - 1] - 1) ** 2 * (1 + np.sin(2 * np.pi * w[d - 1]) ** 2)
         )
-- 
2.43.0


From 71433c972db9d7ba8ae1f830f71d2c11124238f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 20/30] fix: use the Branin domain that contains the documented
 minimizer

---
 pySOT/optimization_problems/branin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/optimization_problems/branin.py b/pySOT/optimization_problems/branin.py
index 19c2a77..703ee1e 100644
--- a/pySOT/optimization_problems/branin.py
+++ b/pySOT/optimization_problems/branin.py
@@ -24,8 +24,8 @@ class Branin(OptimizationProblem):
         self.min = 0.397887
         self.minimum = np.array([-np.pi, 12.275])
         self.dim = 2
-        self.lb = -3.0 * np.ones(2)
-        self.ub = 3.0 * np.ones(2)
+        self.lb = np.array([-5.0, 0.0])
+        self.ub = np.array([10.0, 15.0])
         self.int_var = np.array([])
         self.cont_var = np.arange(0, 2)
         self.info = "2-dimensional Branin function \nGlobal optimum: " + "f(-pi, 12.275) = 0.397887"
-- 
2.43.0


From 01c116717cdd550f5a849f36f230b528752214a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 21/30] fix: only adjust the memory of SOP centers that
 produced an evaluation

---
 pySOT/strategy/sop_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 0733364..12a0177 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -325,7 +325,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         """
 
         if index is None:  # Batch mode - update memory for all centers
-            indices = range(self.ncenters)
+            indices = [i for i, center in enumerate(self.centers) if center.new_index is not None]
         else:  # asynchronous mode
             indices = [index]
 
-- 
2.43.0


From 8ba83efc8657a068ab8514f7658e3f0489bc5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 22/30] fix: reuse SOP centers whose proposed point was not
 evaluated

---
 pySOT/strategy/sop_strategy.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 12a0177..d45432f 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -109,6 +109,10 @@ class _SopCenter:
         else:
             self._new_point = value
 
+    def release(self):
+        """Forget new proposed point, so the center can be used again"""
+        self._new_point = None
+
     @property
     def new_index(self):
         """Get location / index of new point"""
@@ -258,7 +262,7 @@ class SOPStrategy(SurrogateBaseStrategy):
 
             ncenters = len(self.centers)
             for i in range(ncenters):  # Update location of new point in center
-                if np.array_equal(np.copy(record.params[0]), self.centers[i].new_point):
+                if self.centers[i].new_index is None and np.array_equal(record.params[0], self.centers[i].new_point):
                     self.centers[i].new_index = self.num_evals - 1
                     center_index = i
                     break
@@ -268,6 +272,33 @@ class SOPStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_memory()
 
+    def on_adapt_reject(self, proposal):
+        """Handle rejected proposal in phase 2."""
+        super().on_adapt_reject(proposal)
+        if self.asynchronous:  # The point is proposed again in the synchronous case
+            self.release_center(proposal.args[0])
+
+    def on_adapt_aborted(self, record):
+        """Handle aborted evaluation in phase 2."""
+        super().on_adapt_aborted(record)
+        self.release_center(record.params[0])
+        if not self.asynchronous and (not self.batch_queue) and self.pending_evals == 0:  # Batch
+            self.adjust_memory()
+
+    def release_center(self, x):
+        """Make the center that proposed x available again, since x wasn't evaluated"""
+        for center in self.centers:
+            if center.new_index is None and np.array_equal(x, center.new_point):
+                center.release()
+                break
+
+    def resume(self):
+        """Resume a terminated run."""
+        super().resume()
+        for center in self.centers:  # Pending evaluations were lost
+            if center.new_index is None and not any(np.array_equal(x, center.new_point) for x in self.batch_queue):
+                center.release()
+
     def generate_evals(self, num_pts):
         """Generate the next adaptive sample points."""
 
-- 
2.43.0


From a3a733d76af773c8da7e579c0a750433da85f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 23/30] fix: wait for a SOP center when all of them are being
 processed

---
 pySOT/strategy/sop_strategy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index d45432f..3936a2a 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -307,6 +307,10 @@ class SOPStrategy(SurrogateBaseStrategy):
             self.update_ranks()
         self.update_center_list()
 
+        # Wait if all centers are being processed (happens when all workers are busy)
+        if sum(center.new_point is None for center in self.centers) < num_pts:
+            return
+
         # Compute dycors perturbation probability
         num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0
         min_prob = np.min([1.0, 1.0 / self.opt_prob.dim])
-- 
2.43.0


From c41c8340e34c96b1d353e1cf3e3c3177db3ec600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 24/30] fix: select SOP centers from up-to-date non-domination
 ranks

---
 pySOT/strategy/sop_strategy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 3936a2a..f0df2ee 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -303,8 +303,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         """Generate the next adaptive sample points."""
 
         # Update the list of center points
-        if self.F_ranked is None:  # If this is the start of adaptive phase
-            self.update_ranks()
+        self.update_ranks()
         self.update_center_list()
 
         # Wait if all centers are being processed (happens when all workers are busy)
-- 
2.43.0


From 219c7feb7c0e0756617a22eb6fceea0be4821f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 25/30] fix: search around known extra points and stay away
 from them like evaluated ones

---
 pySOT/strategy/surrogate_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index cdbf5e6..7e31079 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -247,6 +247,8 @@ class SurrogateBaseStrategy(BaseStrategy):
                     x = np.copy(self.extra_points[i, :])
                     self.X = np.vstack((self.X, x))
                     self.fX = np.vstack((self.fX, self.extra_vals[i]))
+                    self._X = np.vstack((self._X, x))
+                    self._fX = np.vstack((self._fX, self.extra_vals[i]))
                     self.surrogate.add_points(x, self.extra_vals[i])
 
     def propose_action(self):
-- 
2.43.0


From 2aa819cf3185cf6abb986aa136fd4201f24c2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 26/30] fix: discard the coefficients of an RBF fit that failed

---
 pySOT/surrogate/rbf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/surrogate/rbf.py b/pySOT/surrogate/rbf.py
index 817118d..d225e34 100644
--- a/pySOT/surrogate/rbf.py
+++ b/pySOT/surrogate/rbf.py
@@ -163,8 +163,8 @@ class RBFInterpolant(Surrogate):
             # Update coefficients
             fX = self.output_transformation(self.fX.copy())
             rhs = np.vstack((np.zeros((ntail, 1)), fX))
-            self.c = scplinalg.solve_triangular(a=self.L, b=rhs[self.piv], lower=True)
-            self.c = scplinalg.solve_triangular(a=self.U, b=self.c, lower=False)
+            c = scplinalg.solve_triangular(a=self.L, b=rhs[self.piv], lower=True)
+            self.c = scplinalg.solve_triangular(a=self.U, b=c, lower=False)  # Fails if the system is singular
             self.updated = True
 
     def predict(self, xx):
-- 
2.43.0


From c9e41cd989f69efd97a2793950bc4446fa24cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 27/30] fix: compute a new RBF factorization when extending the
 old one is unstable

---
 pySOT/surrogate/rbf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/surrogate/rbf.py b/pySOT/surrogate/rbf.py
index d225e34..80798a6 100644
--- a/pySOT/surrogate/rbf.py
+++ b/pySOT/surrogate/rbf.py
@@ -147,6 +147,8 @@ class RBFInterpolant(Surrogate):
                     U12[:, i] = scplinalg.solve_triangular(a=self.L, b=Pnew[self.piv[:kact], i], lower=True, trans="N")
                 L21 = L21.T
                 try:  # Compute Cholesky factorization of the Schur complement
+                    if np.max(np.abs(L21)) * np.max(np.abs(U12)) > 1e8:  # The old system is (nearly) singular
+                        raise scplinalg.LinAlgError("Unstable update")
                     C = scplinalg.cholesky(a=Phinew - np.dot(L21, U12), lower=True)
                 except:  # Compute a new LU factorization if Cholesky fails
                     self.c = None
-- 
2.43.0


From d8ae70ee6ef5d5180c3660057f44f7b142c5d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 28/30] fix: don't mistake a SOP center with tabu tenure 2 for
 one being processed

---
 pySOT/strategy/sop_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index f0df2ee..dd8ebb5 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -469,7 +469,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         # i) tabu status, ii) rank, iii) obj value
         ind = np.lexsort((F[:, self.opt_prob.dim], F[:, self.opt_prob.dim + 3], F[:, self.opt_prob.dim + 2]))
         min_index = np.argmin(F[:, self.opt_prob.dim])
-        if min_index == ind[0] or F[min_index, self.opt_prob.dim + 2] == 2:
+        if min_index == ind[0] or any(center.index == min_index for center in self.centers):
             ind_new = np.copy(ind)
         else:  # Put xbest at the top of sorted points (ind_new),
             # regardless of tabu status unless it is being processed
-- 
2.43.0


From 98b03cf2bf6ff0937b018dc6fdab9bcda3ab05ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 29/30] fix: SOP considers extra points with known values as
 centers

---
 pySOT/strategy/sop_strategy.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index dd8ebb5..e7a7a61 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -240,6 +240,12 @@ class SOPStrategy(SurrogateBaseStrategy):
             if not self.ncenters >= self.batch_size:
                 raise ValueError("Batch size should be less than or equal" " to ncenters")
 
+    def sample_initial(self):
+        """Generate and queue an initial experimental design."""
+        super().sample_initial()
+        for x, fx in zip(self._X, self._fX.ravel()):  # Extra points with known values
+            self.evals.append(_SopRecord(np.copy(x), fx, self.sampling_radius))
+
     def on_initial_completed(self, record):
         """Handle completed evaluation in initial phase"""
         super().on_initial_completed(record)
@@ -263,7 +269,7 @@ class SOPStrategy(SurrogateBaseStrategy):
             ncenters = len(self.centers)
             for i in range(ncenters):  # Update location of new point in center
                 if self.centers[i].new_index is None and np.array_equal(record.params[0], self.centers[i].new_point):
-                    self.centers[i].new_index = self.num_evals - 1
+                    self.centers[i].new_index = len(self.evals) - 1
                     center_index = i
                     break
 
@@ -366,7 +372,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         # Re-evaluate bi-objective ranks after adding new point(s)
         # NOTE: Re-evaluation needed because minimum distance is updated
         # for all points
-        nevals = self.num_evals
+        nevals = len(self.evals)
         self.update_ranks()
 
         # Step 2 -- Adjust memory attributes of center point associated
@@ -405,7 +411,7 @@ class SOPStrategy(SurrogateBaseStrategy):
 
     def update_F(self):
         """Update F_ranked numpy array"""
-        nevals = self.num_evals
+        nevals = len(self.evals)
         F = np.zeros((nevals, self.opt_prob.dim + 5))
         F[:, 0 : self.opt_prob.dim] = [
             (val.x - self.opt_prob.lb) / (self.opt_prob.ub - self.opt_prob.lb) for val in self.evals
@@ -423,7 +429,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         new points have been evaluated.
 
         """
-        nevals = self.num_evals
+        nevals = len(self.evals)
         self.update_F()
         F = np.copy(self.F_ranked)
         dists = scp.distance.cdist(F[:, 0 : self.opt_prob.dim], F[:, 0 : self.opt_prob.dim])
@@ -449,9 +455,9 @@ class SOPStrategy(SurrogateBaseStrategy):
         in selection order).
 
         """
-        nevals = self.num_evals
+        nevals = len(self.evals)
         F = np.copy(self.F_ranked)
-        self.d_thresh = 1.0 - float(nevals - self.num_exp) / float(self.max_evals - self.num_exp)
+        self.d_thresh = 1.0 - float(self.num_evals - self.num_exp) / float(self.max_evals - self.num_exp)
 
         # Step 1 - Remove center points around which new points have been
         # proposed and evaluated
-- 
2.43.0


From 0bb8b6e46c97297e4f0c09d238182947e68856ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:18 +0000
Subject: [PATCH 30/30] fix: SOP failed when all evaluated points coincide

---
 pySOT/strategy/sop_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index e7a7a61..ca3a4d8 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -435,7 +435,8 @@ class SOPStrategy(SurrogateBaseStrategy):
         dists = scp.distance.cdist(F[:, 0 : self.opt_prob.dim], F[:, 0 : self.opt_prob.dim])
         for i in range(nevals):
             a = dists[i, :]
-            F[i, self.opt_prob.dim + 1] = -1.0 * np.min(a[np.nonzero(a)])
+            a = a[np.nonzero(a)]  # Empty if all evaluated points coincide
+            F[i, self.opt_prob.dim + 1] = -1.0 * np.min(a) if len(a) > 0 else 0.0
 
         nmax = 100  # Maximum number of points that may be selected as centers
         ranks = nd_sorting(F[:, self.opt_prob.dim : self.opt_prob.dim + 2].transpose(), nmax)  # Perform ND Sorting
-- 
2.43.0

