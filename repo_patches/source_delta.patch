From dd0dd1f1c532a8bff05442137e71a6717d05af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:20 +0000
Subject: [PATCH 01/27] fix: make score levels, bins and digitized scores agree
 for decimal strides

---
 kamrecsys/data/event_with_score.py   | 3 +--
 kamrecsys/metrics/base.py            | 8 +++++---
 kamrecsys/metrics/real.py            | 4 ++--
 kamrecsys/metrics/score_predictor.py | 5 ++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index f1340a0..91ff510 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -154,8 +154,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.max(self.score),
                 np.min(np.diff(np.unique(self.score)))]
         self.score_domain = np.asanyarray(score_domain)
-        self.n_score_levels = (
-            int((score_domain[1] - score_domain[0]) / score_domain[2]) + 1)
+        self.n_score_levels = self.generate_score_bins().shape[0] - 1
 
     def digitize_score(self, score=None):
         """
diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 295e58a..b2748d2 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -57,9 +57,11 @@ def generate_score_bins(score_domain):
         bins of histogram. boundaries of bins are placed at the center of
         adjacent scores.
     """
-    bins = np.arange(score_domain[0], score_domain[1], score_domain[2],
-                     dtype=float)
-    bins = np.hstack([-np.inf, bins + score_domain[2] / 2, np.inf])
+    # the number of strides is rounded, because a float division may miss it
+    n_strides = int(np.round(
+        (score_domain[1] - score_domain[0]) / score_domain[2]))
+    bins = score_domain[0] + score_domain[2] * (np.arange(n_strides) + 0.5)
+    bins = np.hstack([-np.inf, bins, np.inf])
 
     return bins
 
diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index cf53762..d449471 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -161,8 +161,8 @@ def score_histogram(x, score_domain=(1, 5, 1)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-            [np.arange(score_domain[0], score_domain[1], score_domain[2],
-                       dtype=float),
+            [score_domain[0] + score_domain[2] * np.arange(
+                bins.shape[0] - 2, dtype=float),
              score_domain[1]])
 
     # return statistics
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index 9a85d51..6f1ee4c 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -141,9 +141,8 @@ def score_predictor_statistics(y_true, y_pred, score_domain=(1, 5, 1)):
     stats['n_samples'] = y_true.size
 
     # a list of possible score levels
-    stats['score levels'] = np.hstack([
-        np.arange(score_domain[0], score_domain[1], score_domain[2],
-                  dtype=float), score_domain[1]])
+    _, stats['score levels'] = score_histogram(
+        y_true, score_domain=score_domain)
 
     # mean absolute error
     mean, stdev = mean_absolute_error(y_true, y_pred)
-- 
2.43.0


From 092c7c937d13c67f754c118480ec6f60472b8f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:22 +0000
Subject: [PATCH 02/27] fix: accept a plain int as the number of bins in
 score_histogram

---
 kamrecsys/metrics/real.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index d449471..e93b401 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -147,7 +147,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
 
     # check inputs
     assert_all_finite(x)
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         bins = score_domain
     else:
         assert_all_finite(score_domain)
@@ -157,7 +157,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
     hist, bins = np.histogram(x, bins=bins)
 
     # candidates of possible scores
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-- 
2.43.0


From 4d76b2ff54017bc1ebc87338f72b77c51f7c64ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:24 +0000
Subject: [PATCH 03/27] fix: let statistics_mean average over lists as
 documented

---
 kamrecsys/metrics/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index b2748d2..c8daca9 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -94,7 +94,7 @@ def statistics_mean(fun, *arg_list):
             args = [arg[k] for arg in arg_list]
             stats.append(fun(*args))
 
-    elif isinstance(arg_list[0], dict):
+    elif isinstance(arg_list[0], list):
 
         # in a case of list list, collect elements at the same position
         for k in xrange(len(arg_list[0])):
-- 
2.43.0


From b91040d8824e88ec0e1b02a9e44997c5cade94de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:26 +0000
Subject: [PATCH 04/27] fix: validate and convert the input of
 variance_with_gamma_prior

---
 kamrecsys/metrics/real.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index e93b401..51a407d 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -217,12 +217,13 @@ def variance_with_gamma_prior(
     """
 
     # arrange inputs
+    x = np.asarray(x, dtype=float).ravel()
     if force_all_finite:
-        x = as_float_array(x).ravel()
+        assert_all_finite(x)
     else:
         x = np.compress(np.isfinite(x), x)
-        if x.size < 1:
-            raise ValueError('Found array with 0 sample.')
+    if x.size < 1:
+        raise ValueError('Found array with 0 sample.')
 
     # calc variance
     n = x.size
-- 
2.43.0


From fdd7507a35a786f1e0a09951db429884b934fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:28 +0000
Subject: [PATCH 05/27] fix: raise ValueError for a negative internal id

---
 kamrecsys/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 85be1d9..a816fbd 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -89,6 +89,8 @@ class ObjectUtilMixin(object):
         ValueError
             an internal id is out of range
         """
+        if iid < 0:
+            raise ValueError("Illegal internal id")
         try:
             return self.eid[otype][iid]
         except IndexError:
-- 
2.43.0


From b5d2ff31fa815cf0699d756b62ecbfcdfbaf860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:30 +0000
Subject: [PATCH 06/27] fix: do not share object tables between a recommender
 and its data

---
 kamrecsys/data/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index a816fbd..3b0b0a4 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -64,9 +64,9 @@ class ObjectUtilMixin(object):
             raise TypeError("input data must data.BaseData class")
 
         self.n_otypes = data.n_otypes
-        self.n_objects = data.n_objects
-        self.eid = data.eid
-        self.iid = data.iid
+        self.n_objects = data.n_objects.copy()
+        self.eid = data.eid.copy()
+        self.iid = data.iid.copy()
 
     def to_eid(self, otype, iid):
         """
-- 
2.43.0


From c3f8703bb42c2067d7522c9c9af0d5a33dd93a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:32 +0000
Subject: [PATCH 07/27] fix: convert ids by their own object types when
 event_index is given

---
 kamrecsys/base/base.py        | 9 ++++-----
 kamrecsys/item_finder/base.py | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 239450f..46c0145 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -177,7 +177,7 @@ class BaseEventRecommender(
         ev = np.atleast_2d(self.event)
 
         # get number of objects
-        n_objects = self.n_objects
+        n_objects = self.n_objects[self.event_otypes[self.event_index]]
 
         return ev, n_objects
 
@@ -213,8 +213,6 @@ class BaseEventRecommender(
 
         # select information about events used for training
         self.event = self.event.take(self.event_index, axis=1)
-        self.n_objects = self.n_objects.take(self.event_otypes)
-        self.n_objects = self.n_objects.take(self.event_index)
 
     @abstractmethod
     def raw_predict(self, ev):
@@ -248,9 +246,10 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)[:, self.event_index]
+        eev = check_array(np.atleast_2d(eev), dtype=int)
+        ev = self.to_iid_event(eev)[:, self.event_index]
 
-        return np.squeeze(self.raw_predict(self.to_iid_event(eev)))
+        return np.squeeze(self.raw_predict(ev))
 
 
 # =============================================================================
diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index d9c712b..8115f97 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -168,8 +168,8 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
         n_objects = self.n_objects[self.event_otypes[self.event_index]]
 
         # get event data
-        users = self.event[:, self.event_index[0]]
-        items = self.event[:, self.event_index[1]]
+        users = self.event[:, 0]
+        items = self.event[:, 1]
         scores = np.ones_like(users, dtype=int)
 
         # generate array
-- 
2.43.0


From fd9bd30b76a5d67ae4204da2c03b22f03aa0287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:33 +0000
Subject: [PATCH 08/27] fix: allow string ids in predict

---
 kamrecsys/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 46c0145..6c4c092 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -246,7 +246,7 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)
+        eev = check_array(np.atleast_2d(eev), dtype=None)
         ev = self.to_iid_event(eev)[:, self.event_index]
 
         return np.squeeze(self.raw_predict(ev))
-- 
2.43.0


From c2ca30e93a776133812d249ac6d708e233f6d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:36 +0000
Subject: [PATCH 09/27] fix: keep the implicit feedback matrix 0/1 for repeated
 events

---
 kamrecsys/item_finder/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index 8115f97..b21145d 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -174,6 +174,8 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
 
         # generate array
         ev = sparse.coo_matrix((scores, (users, items)), shape=n_objects)
+        ev = ev.tocsr()
+        ev.data[:] = 1  # repeated events have been summed up
         if sparse_type == 'csc':
             ev = ev.tocsc()
         elif sparse_type == 'csr':
-- 
2.43.0


From f30a821fbe00ca27175bd61d439b1b3e05f3b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:38 +0000
Subject: [PATCH 10/27] fix: allow fitting to data with a single user or a
 single item

---
 kamrecsys/item_finder/matrix_factorization.py     | 8 ++++----
 kamrecsys/score_predictor/matrix_factorization.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index f1e2d48..d44c9cd 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -172,8 +172,8 @@ class LogisticPMF(BaseExplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
@@ -545,8 +545,8 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 782474a..44e7e47 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -161,8 +161,8 @@ class PMF(BaseScorePredictor):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
-- 
2.43.0


From a60882ec349f693eedb40f861d255a16e93758c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:40 +0000
Subject: [PATCH 11/27] fix: do not modify the caller's dictionary of optimizer
 options

---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index d44c9cd..1bdd510 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -127,7 +127,7 @@ class LogisticPMF(BaseExplicitItemFinder):
 
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
-        self.optimizer_kwargs['options'] = (
+        self.optimizer_kwargs['options'] = dict(
             self.optimizer_kwargs.get('options', {}))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
@@ -502,7 +502,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
 
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
-        self.optimizer_kwargs['options'] = (
+        self.optimizer_kwargs['options'] = dict(
             self.optimizer_kwargs.get('options', {}))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 44e7e47..b6a6d22 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -116,7 +116,7 @@ class PMF(BaseScorePredictor):
 
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
-        self.optimizer_kwargs['options'] = (
+        self.optimizer_kwargs['options'] = dict(
             self.optimizer_kwargs.get('options', {}))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
-- 
2.43.0


From 40ead32c15b9a114c54a09ad576080a55f1df58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:42 +0000
Subject: [PATCH 12/27] fix: allow optimization methods that use no gradient

---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index 1bdd510..a142635 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -383,7 +383,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         self.fit_results_['final_loss'] = res.fun
         self.fit_results_['n_iterations'] = res.nit
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev', 0)
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
@@ -739,7 +739,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         self.fit_results_['final_loss'] = res.fun
         self.fit_results_['n_iterations'] = res.nit
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev', 0)
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index b6a6d22..b89289d 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -375,7 +375,7 @@ class PMF(BaseScorePredictor):
         self.fit_results_['final_loss'] = res.fun
         self.fit_results_['n_iterations'] = res.nit
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev', 0)
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
-- 
2.43.0


From 4da86a8c1409430158c6a981d4db4d17ac247111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:44 +0000
Subject: [PATCH 13/27] fix: report what the EM iterations of MultinomialPLSA
 actually did

---
 kamrecsys/score_predictor/topic_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index 08307b7..2a0a993 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -260,9 +260,10 @@ class MultinomialPLSA(BaseScorePredictor):
         tol = self.optimizer_kwargs['tol']
 
         # main loop
-        iter_no = 0
-        cur_loss = np.inf
+        n_iterations = 0
+        cur_loss = pre_loss
         for iter_no in xrange(maxiter):
+            n_iterations = iter_no + 1
 
             # E-Step
 
@@ -287,19 +288,18 @@ class MultinomialPLSA(BaseScorePredictor):
                     " {:.15g}".format(precision))
                 break
             pre_loss = cur_loss
-
-        if iter_no >= maxiter - 1:
+        else:
             self.fit_results_['status'] = 2
             logger.warning(
                 "Exceeded the maximum number of iterations: {:d}".format(
                     maxiter))
 
         logger.info("final: {:.15g}".format(cur_loss))
-        logger.info("nos of iterations: {:d}".format(iter_no + 1))
+        logger.info("nos of iterations: {:d}".format(n_iterations))
 
         # store fitting results
         self.fit_results_['final_loss'] = cur_loss
-        self.fit_results_['n_iterations'] = iter_no + 1
+        self.fit_results_['n_iterations'] = n_iterations
         self.fit_results_['n_users'] = n_objects[0]
         self.fit_results_['n_items'] = n_objects[1]
         self.fit_results_['n_events'] = self.n_events
-- 
2.43.0


From fe0eb0ff5f01d81782614e5c5515f1a57e7d69c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:04 +0000
Subject: [PATCH 14/27] fix: make the splitters work with current scikit-learn

---
 kamrecsys/model_selection/split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index f9e311c..d43f5c9 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -24,7 +24,6 @@ import numpy as np
 from sklearn.utils import indexable, check_random_state
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
-from sklearn.model_selection._split import _validate_shuffle_split_init
 
 # =============================================================================
 # Metadata variables
@@ -86,7 +85,6 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
         super(ShuffleSplitWithinGroups, self).__init__()
 
-        _validate_shuffle_split_init(test_size, train_size)
         self.n_splits = int(n_splits)
         self.test_size = test_size
         self.train_size = train_size
@@ -272,7 +270,9 @@ class KFoldWithinGroups(BaseCrossValidator):
         iters = np.empty(group_indices.shape[0], dtype=object)
 
         # generate iterators
-        cv = KFold(self.n_splits, self.shuffle, rng)
+        cv = KFold(
+            n_splits=self.n_splits, shuffle=self.shuffle,
+            random_state=rng if self.shuffle else None)
         for i, g in enumerate(group_indices):
             group_member = indices[groups == g]
             iters[i] = cv.split(group_member)
-- 
2.43.0


From 556cbdde854add1f911a367578828b14ecf7bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:06 +0000
Subject: [PATCH 15/27] fix: load event and feature files that hold a single
 line

---
 kamrecsys/datasets/base.py      |  6 ++++--
 kamrecsys/datasets/movielens.py | 16 ++++++++++------
 kamrecsys/datasets/others.py    |  3 ++-
 kamrecsys/datasets/sushi3.py    |  8 +++++---
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/kamrecsys/datasets/base.py b/kamrecsys/datasets/base.py
index 656e128..68fdc1a 100644
--- a/kamrecsys/datasets/base.py
+++ b/kamrecsys/datasets/base.py
@@ -89,7 +89,8 @@ def load_event(infile, n_otypes=2, event_otypes=None, event_dtype=None):
     else:
         dtype = np.dtype([('event', int, s_events),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
@@ -141,7 +142,8 @@ def load_event_with_score(
     else:
         dtype = np.dtype([('event', int, s_events), ('score', float),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventWithScoreData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 96725de..75acf27 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -163,7 +163,8 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('age', int), ('gender', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -175,8 +176,9 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
                        ('genre', 'i1', 18),
                        ('imdb', 'U134')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -293,7 +295,8 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('gender', int), ('age', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -302,8 +305,9 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
                        ('year', int),
                        ('genre', 'i1', 18)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/others.py b/kamrecsys/datasets/others.py
index 3c13766..68fe61f 100644
--- a/kamrecsys/datasets/others.py
+++ b/kamrecsys/datasets/others.py
@@ -78,7 +78,8 @@ def load_pci_sample(infile=None):
     if infile is None:
         infile = os.path.join(SAMPLE_PATH, 'pci.event')
     dtype = np.dtype([('event', 'U18', 2), ('score', float)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data = EventWithScoreData(n_otypes=2, event_otypes=np.array([0, 1]))
     data.set_event(x['event'], x['score'], score_domain=(1.0, 5.0, 0.5))
     del x
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 8bb0d9a..693a4a6 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -189,7 +189,8 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('current_ew', int),
         ('moved', int)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -204,8 +205,9 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('price', float),
         ('supply', float)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From 809d87f6ee13acb8fc64f3a45db007e6b2c3c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:08 +0000
Subject: [PATCH 16/27] fix: record the test file and the end time of a test

---
 scripts/exp_recsys_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 101a426..3cf12d1 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -134,7 +134,7 @@ def testing(rec, ev):
     # set end and elapsed time
     end_time = datetime.datetime.now()
     end_utime = os.times()[0]
-    res_info['end_time'] = start_time.isoformat()
+    res_info['end_time'] = end_time.isoformat()
     res_info['elapsed_time'] = end_time - start_time
     res_info['elapsed_utime'] = end_utime - start_utime
     logger.info("test_end_time = " + res_info['end_time'])
@@ -175,7 +175,6 @@ def holdout_test(info, load_data):
     info['training']['n_items'] = (
         train_data.n_objects[train_data.event_otypes[1]])
 
-    info['test']['file'] = info['training']['file']
     info['test']['n_events'] = test_data.n_events
     info['test']['n_users'] = (
         test_data.n_objects[test_data.event_otypes[0]])
-- 
2.43.0


From 003d12481d261a07fe1da7a77890ac732b94da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:10 +0000
Subject: [PATCH 17/27] fix: name the invalid validation scheme in the error

---
 scripts/exp_recsys_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 3cf12d1..41c325f 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -320,7 +320,8 @@ def do_task(info, load_data, target_fold=None):
     elif info['condition']['scheme'] == 'cv':
         cv_test(info, load_data, target_fold=target_fold)
     else:
-        raise TypeError("Invalid validation scheme: {0:s}".format(opt.method))
+        raise TypeError("Invalid validation scheme: {0:s}".format(
+            info['condition']['scheme']))
 
     # output information
     outfile = info['condition']['out_file']
-- 
2.43.0


From 5242f4479eb1e6c94318fe6614d138b46dd94dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:12 +0000
Subject: [PATCH 18/27] fix: read JSON files without the removed encoding
 argument

---
 scripts/exp_recsys_fold_merge.py | 4 ++--
 scripts/stats_recsys.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/exp_recsys_fold_merge.py b/scripts/exp_recsys_fold_merge.py
index 9af0720..a580a72 100644
--- a/scripts/exp_recsys_fold_merge.py
+++ b/scripts/exp_recsys_fold_merge.py
@@ -90,7 +90,7 @@ def first_fold(fp):
     """
 
     # load json file of the target fold
-    cv_info = json.load(fp, encoding='utf-8')
+    cv_info = json.load(fp)
 
     # add container of merged information
     cv_info['condition']['merged'] = True
@@ -121,7 +121,7 @@ def rest_fold(fp, cv_info):
     """
 
     # load json file of the target fold
-    info = json.load(fp, encoding='utf-8')
+    info = json.load(fp)
 
     # get fold number
     fold = next(iter(info['training']['results']))
diff --git a/scripts/stats_recsys.py b/scripts/stats_recsys.py
index d588a1e..8e2eb31 100644
--- a/scripts/stats_recsys.py
+++ b/scripts/stats_recsys.py
@@ -102,7 +102,7 @@ def do_task(opt):
     np.seterr(all='ignore')
 
     # load data
-    info = json.load(opt.infile, encoding='utf-8')
+    info = json.load(opt.infile)
 
     # merge multi-fold data
     if isinstance(info['prediction']['event'], dict):
-- 
2.43.0


From 77217b41ab8acf271194e85884f134ef61b28e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:14 +0000
Subject: [PATCH 19/27] fix: keep booleans and tuples when making results
 JSON-ready

---
 kamrecsys/utils/kamexputils.py | 36 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index c49553d..9b1c5a6 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -64,39 +64,39 @@ def json_decodable(x):
 
     if isinstance(x, dict):
         for k, v in x.items():
+            if isinstance(v, np.ndarray):
+                v = x[k] = v.tolist()
+            elif issparse(v):
+                v = x[k] = v.toarray().tolist()
+            elif isinstance(v, tuple):
+                v = x[k] = list(v)
             if isinstance(v, (dict, list)):
                 json_decodable(v)
-            elif isinstance(v, np.ndarray):
-                x[k] = v.tolist()
-                json_decodable(x[k])
-            elif issparse(v):
-                x[k] = v.toarray().tolist()
-                json_decodable(x[k])
+            elif isinstance(v, np.bool_):
+                x[k] = bool(v)
             elif isinstance(v, np.integer):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
                 x[k] = float(v)
-            elif isinstance(v, np.complexfloating):
-                x[k] = complex(v)
-            elif not isinstance(v, (bool, int, float, complex)):
+            elif not isinstance(v, (bool, int, float)):
                 x[k] = str(v)
     elif isinstance(x, list):
         for k, v in enumerate(x):
+            if isinstance(v, np.ndarray):
+                v = x[k] = v.tolist()
+            elif issparse(v):
+                v = x[k] = v.toarray().tolist()
+            elif isinstance(v, tuple):
+                v = x[k] = list(v)
             if isinstance(v, (dict, list)):
                 json_decodable(v)
-            elif isinstance(v, np.ndarray):
-                x[k] = v.tolist()
-                json_decodable(x[k])
-            elif issparse(v):
-                x[k] = v.toarray().tolist()
-                json_decodable(x[k])
+            elif isinstance(v, np.bool_):
+                x[k] = bool(v)
             elif isinstance(v, np.integer):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
                 x[k] = float(v)
-            elif isinstance(v, np.complexfloating):
-                x[k] = complex(v)
-            elif not isinstance(v, (bool, int, float, complex)):
+            elif not isinstance(v, (bool, int, float)):
                 x[k] = str(v)
 
 
-- 
2.43.0


From ff07b33c38d7de656c8510c267adbe3a8f746589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:27 +0000
Subject: [PATCH 20/27] fix: read the non-ASCII names in the item files

---
 kamrecsys/datasets/movielens.py | 4 ++--
 kamrecsys/datasets/sushi3.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 75acf27..b73d013 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -178,7 +178,7 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -307,7 +307,7 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 693a4a6..a5d62ed 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -207,7 +207,7 @@ def load_sushi3b_score(infile=None, event_dtype=None):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From 7fffc92a9634ba82f85fb89f686f0948559306c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:06 +0000
Subject: [PATCH 21/27] fix: accept a single missing value in to_iid_event as
 documented

---
 kamrecsys/data/event.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 677dcfa..fc5d319 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -101,6 +101,8 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         """
         if missing_values is None:
             missing_values = self.n_objects[self.event_otypes]
+        elif np.ndim(missing_values) == 0:
+            missing_values = np.repeat(missing_values, self.s_event)
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
-- 
2.43.0


From 679a1c2b2bddb2737cfa2cac8ebf66f22ad0c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:56:51 +0000
Subject: [PATCH 22/27] fix: load event files whose events consist of a single
 id

---
 kamrecsys/datasets/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/datasets/base.py b/kamrecsys/datasets/base.py
index 68fdc1a..7c85002 100644
--- a/kamrecsys/datasets/base.py
+++ b/kamrecsys/datasets/base.py
@@ -85,9 +85,9 @@ def load_event(infile, n_otypes=2, event_otypes=None, event_dtype=None):
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events)])
+        dtype = np.dtype([('event', int, (s_events,))])
     else:
-        dtype = np.dtype([('event', int, s_events),
+        dtype = np.dtype([('event', int, (s_events,)),
                           ('event_feature', event_dtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
@@ -138,9 +138,9 @@ def load_event_with_score(
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events), ('score', float)])
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float)])
     else:
-        dtype = np.dtype([('event', int, s_events), ('score', float),
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float),
                           ('event_feature', event_dtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
-- 
2.43.0


From bcdf5c671086452ca8d529265b7f67c6d2c0e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:18:25 +0000
Subject: [PATCH 23/27] fix: do not keep features of other objects when events
 are reloaded

---
 kamrecsys/data/event.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index fc5d319..64b85b3 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -208,9 +208,14 @@ class EventData(BaseData, EventUtilMixin):
             feature of events
         """
         for otype in xrange(self.n_otypes):
+            old_eid = self.eid[otype]
             self.n_objects[otype], self.eid[otype], self.iid[otype] = (
                 self._gen_id(event[:, self.event_otypes == otype]))
 
+            # features of the objects loaded before do not belong to new ones
+            if not np.array_equal(self.eid[otype], old_eid):
+                self.feature[otype] = None
+
         self.event = np.empty_like(event, dtype=int)
         for e in xrange(self.s_event):
             iid = self.iid[self.event_otypes[e]]
-- 
2.43.0


From b94ad74f919d354a500ff8bc0bc5159054bf712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:08 +0000
Subject: [PATCH 24/27] fix: accept any array-like samples in the splitters

---
 kamrecsys/model_selection/split.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index d43f5c9..06b76e8 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -22,6 +22,7 @@ import logging
 
 import numpy as np
 from sklearn.utils import indexable, check_random_state
+from sklearn.utils.validation import _num_samples
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
 
@@ -126,7 +127,7 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
@@ -244,7 +245,7 @@ class KFoldWithinGroups(BaseCrossValidator):
         X, y, groups = indexable(X, y, groups)
 
         # get the number of samples
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
         if self.n_splits > n_samples:
             raise ValueError(
                 ("Cannot have number of splits n_splits={0} greater"
@@ -256,7 +257,7 @@ class KFoldWithinGroups(BaseCrossValidator):
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
@@ -362,7 +363,7 @@ class InterlacedKFold(BaseCrossValidator):
             The testing set indices for that split.
         """
         X, y, groups = indexable(X, y, groups)
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
         if self.n_splits > n_samples:
             raise ValueError(
                 ("Cannot have number of splits n_splits={0} greater"
-- 
2.43.0


From 60ca4d434d173081e55de2052ad92308581ceb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 25/27] fix: accept any array-like events

---
 kamrecsys/data/event.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 64b85b3..1f549e0 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -62,6 +62,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         new_data : array_like
             array whose elements are represented by external ids
         """
+        data = np.asarray(data)
         if data.ndim == 1 and data.shape[0] == self.s_event:
             new_data = np.array(
                 [self.eid[self.event_otypes[e]][data[e]]
@@ -99,6 +100,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         TypeError
             Shape of an input array is illegal
         """
+        ev = np.asarray(ev)
         if missing_values is None:
             missing_values = self.n_objects[self.event_otypes]
         elif np.ndim(missing_values) == 0:
@@ -207,6 +209,7 @@ class EventData(BaseData, EventUtilMixin):
         event_feature : optional, array_like, shape=(n_events, variable)
             feature of events
         """
+        event = np.asarray(event)
         for otype in xrange(self.n_otypes):
             old_eid = self.eid[otype]
             self.n_objects[otype], self.eid[otype], self.iid[otype] = (
-- 
2.43.0


From bd5269cd901b63579401f9f938ffaaf6a59eb589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 26/27] fix: record the prediction of a single test event as a
 list

---
 scripts/exp_recsys_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 41c325f..d056d53 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -129,7 +129,7 @@ def testing(rec, ev):
     logger.info("test_start_time = " + res_info['start_time'])
 
     # prediction
-    esc = rec.predict(ev)
+    esc = np.atleast_1d(rec.predict(ev))
 
     # set end and elapsed time
     end_time = datetime.datetime.now()
-- 
2.43.0


From 66efa410f859a8bea8339ec1741c26a0990439d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:33 +0000
Subject: [PATCH 27/27] fix: filter by any array-like, empty lists and tuples
 included

---
 kamrecsys/data/event.py            | 23 ++++++++++++++++++++++-
 kamrecsys/data/event_with_score.py |  2 +-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 1f549e0..7afa110 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -230,6 +230,27 @@ class EventData(BaseData, EventUtilMixin):
         else:
             self.event_feature = None
 
+    @staticmethod
+    def _filter_index(filter_cond):
+        """
+        Convert a condition given as any array-like to an index array
+
+        Parameters
+        ----------
+        filter_cond : array_like, dtype=bool or int
+            Boolean mask or indexes of events
+
+        Returns
+        -------
+        index : array, dtype=bool or int
+            Array to index events, scores, and event features
+        """
+        index = np.asarray(filter_cond)
+        if index.size == 0:
+            # an empty list has no integer type
+            index = index.astype(int)
+        return index
+
     def filter_event(self, filter_cond):
         """
         Returns a copy of data whose events are filtered based on
@@ -253,7 +274,7 @@ class EventData(BaseData, EventUtilMixin):
             return
 
         # re-arrange filter
-        filter_cond = np.asarray(filter_cond)
+        filter_cond = self._filter_index(filter_cond)
 
         # copy data
         data = copy(self)
diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index 91ff510..43e4e49 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -231,7 +231,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
 
         # filter out event data
         if self.score is not None:
-            data.score = self.score[filter_cond]
+            data.score = self.score[self._filter_index(filter_cond)]
 
         return data
 
-- 
2.43.0

