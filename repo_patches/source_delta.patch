From c182b72877cc0e04a187fa1a36c44993a47f702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 01/37] fix: Kullback-Leibler divergences are finite when a
 true prevalence is 0

---
 quantificationlib/metrics/binary.py     | 7 ++++++-
 quantificationlib/metrics/multiclass.py | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/metrics/binary.py b/quantificationlib/metrics/binary.py
index eee791e..25eb143 100644
--- a/quantificationlib/metrics/binary.py
+++ b/quantificationlib/metrics/binary.py
@@ -33,10 +33,15 @@ def binary_kld(p_true, p_pred, eps=1e-12):
         KLD: float
              The Kullback-Leiber divergence for binary problems
     """
-    if p_pred == 0:
+    # 0 * log(0) is 0: a class with no true prevalence does not contribute
+    if p_true == 0:
+        kld = 0.0
+    elif p_pred == 0:
         kld = p_true * np.log2(p_true / eps)
     else:
         kld = p_true * np.log2(p_true / p_pred)
+    if p_true == 1:
+        return kld
     if p_pred == 1:
         kld = kld + (1 - p_true) * np.log2((1 - p_true) / eps)
     else:
diff --git a/quantificationlib/metrics/multiclass.py b/quantificationlib/metrics/multiclass.py
index 20ddfb9..39f5ba7 100644
--- a/quantificationlib/metrics/multiclass.py
+++ b/quantificationlib/metrics/multiclass.py
@@ -80,7 +80,9 @@ def kld(p_true, p_pred, eps=1e-12):
             The Kullback-Leiber divergence
     """
     p_true, p_pred = check_prevalences(p_true, p_pred)
-    return np.sum(p_true * np.log2(p_true / (p_pred + eps)))
+    # 0 * log(0) is 0: classes with no true prevalence do not contribute
+    nonzero = p_true > 0
+    return np.sum(p_true[nonzero] * np.log2(p_true[nonzero] / (p_pred[nonzero] + eps)))
 
 
 def mean_absolute_error(p_true, p_pred):
-- 
2.43.0


From 12a159725228c516da9e6f2fd5ec227c9ead4a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 02/37] fix: crisp predictions from positive-class scores
 (np.float is gone, labels other than 0/1)

---
 quantificationlib/base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index d297236..c2a805a 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -334,12 +334,10 @@ class UsingClassifiers(BaseQuantifier):
             if preds.ndim == 1:
                 preds_mod = np.copy(preds)
             else:
-                preds_mod = np.copy(preds.squeeze())
-            if isinstance(preds_mod[0], np.float):
-                # it contains probs
-                preds_mod[preds_mod >= 0.5] = 1
-                preds_mod[preds_mod < 0.5] = 0
-                return preds_mod.astype(int)
+                preds_mod = np.copy(preds.squeeze(axis=1))
+            if isinstance(preds_mod[0], float):
+                # it contains probs of the positive (second) class
+                return labels.take((preds_mod >= 0.5).astype(int), axis=0)
             else:
                 return preds_mod
         else:
-- 
2.43.0


From d79141f754490133e1fb918e5b76bfd1c3390539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 03/37] fix: DFy with repeated training predictions uses the
 extended labels to compute the bincuts

---
 quantificationlib/multiclass/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 7341aa5..f2b7fc6 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -249,7 +249,7 @@ class DFy(UsingClassifiers):
         # compute bincuts according to bin_strategy
         self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
         for descr in range(n_descriptors):
-            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=y, classes=self.classes_,
+            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=self.y_ext_, classes=self.classes_,
                                                       n_bins=self.n_bins, bin_strategy=self.bin_strategy,
                                                       att_range=[0, 1])
 
-- 
2.43.0


From 77f20a0b5c10d45e1124e9e14892d20be4b33131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 04/37] fix: equal_count bincuts with fewer examples than bins
 (wrong order or index error)

---
 quantificationlib/multiclass/df.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index f2b7fc6..39e6c0d 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -703,7 +703,8 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         bincuts[0] = -np.inf
         bincuts[-1] = np.inf
         for i in range(1, n_bins):
-            cutpoint = int(round(len(x) * i / n_bins))
+            # there must be an example at both sides of the cut point, also with very few examples
+            cutpoint = min(max(int(round(len(x) * i / n_bins)), 1), len(x) - 1)
             bincuts[i] = (sorted_values[cutpoint - 1] + sorted_values[cutpoint]) / 2
     elif bin_strategy == 'binormal':
         # only for binary quantification
-- 
2.43.0


From b59757e0cbac82e60d7b2304ac29d4b6214674dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 05/37] fix: normal and binormal bincuts are unbounded also
 when the deviation is 0

---
 quantificationlib/multiclass/df.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 39e6c0d..8cbceda 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -723,6 +723,8 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
             bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts[0] = -np.inf
+            bincuts[-1] = np.inf
     elif bin_strategy == 'normal':
         weights = np.ones((x.shape[0],))
         for n_cls, cls in enumerate(classes):
@@ -734,6 +736,8 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
             bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts[0] = -np.inf
+            bincuts[-1] = np.inf
     else:
         raise ValueError('Unknown bin strategy (possible values: ''equal_width'', ''binormal'', ''normal''')
 
-- 
2.43.0


From 11c11a897c4de982c9bc427a88b9863b845d390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 06/37] fix: global_search examines every local minimum of the
 grid, both ends included

---
 quantificationlib/search.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index 1cb4bfd..f68c1c0 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -85,26 +85,20 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
         for i in range(0, 101):
             losses[i] = distance_func(mixture_func(prevalence=i / 100, **kwargs), test_distrib)
 
-    n_mins = 0
+    if np.all(losses == losses[0]):
+        raise ValueError("Search: there are infinite minima according to the distance function used")
+
     p_estimated = 2
     minimum_loss = np.inf
-    for i in range(1, 100):
-        if losses[i - 1] < losses[i] < losses[i + 1]:
-            n_mins = n_mins + 1
+    for i in range(101):
+        # local minimum of the grid, both ends included
+        if losses[i] <= losses[max(i - 1, 0)] and losses[i] <= losses[min(i + 1, 100)]:
             loss, p = golden_section_search(distance_func, mixture_func, test_distrib, tol,
-                                            max(i - 2, 0) / 100, min(i + 2, 100) / 100, **kwargs)
+                                            max(i - 1, 0) / 100, min(i + 1, 100) / 100, **kwargs)
             if loss < minimum_loss:
                 minimum_loss = loss
                 p_estimated = p
 
-    if n_mins == 0:
-        if losses[0] == losses[100]:
-            raise ValueError("Search: there are infinite minima according to the distance function used")
-        elif losses[0] < losses[100]:
-            _, p_estimated = golden_section_search(distance_func, mixture_func, test_distrib, tol, 0.0, 0.02, **kwargs)
-        else:
-            _, p_estimated = golden_section_search(distance_func, mixture_func, test_distrib, tol, 0.98, 1.0, **kwargs)
-
     if return_mixtures:
         return mixtures, p_estimated
     else:
-- 
2.43.0


From 5132377cf28a2564ffaf3807cec49631c02ed8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 07/37] fix: solve_l1 and solve_hd with a single bin (squeeze
 made the test vector 0-dimensional)

---
 quantificationlib/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index c033cb0..527f6f4 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -64,7 +64,7 @@ def solve_l1(train_distrib, test_distrib, n_classes, problem=None, solver=None):
         prevalences = cvxpy.Variable(n_classes, nonneg=True)
         test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
         objective = cvxpy.Minimize(cvxpy.norm(test_d - train_distrib @ prevalences, 1))
-        test_d.value = np.squeeze(test_distrib)
+        test_d.value = np.reshape(test_distrib, -1)
         contraints = [cvxpy.sum(prevalences) == 1]
 
         problem = cvxpy.Problem(objective, contraints)
@@ -75,7 +75,7 @@ def solve_l1(train_distrib, test_distrib, n_classes, problem=None, solver=None):
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
-        problem.parameters()[0].value = np.squeeze(test_distrib)
+        problem.parameters()[0].value = np.reshape(test_distrib, -1)
         if solver is None:
             problem.solve(warm_start=True)
         else:
@@ -118,7 +118,7 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
         prevalences = cvxpy.Variable(n_classes, nonneg=True)
         test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
         s = cvxpy.multiply(test_d, train_distrib @ prevalences)
-        test_d.value = np.squeeze(test_distrib)
+        test_d.value = np.reshape(test_distrib, -1)
         objective = cvxpy.Minimize(1 - cvxpy.sum(cvxpy.sqrt(s)))
         contraints = [cvxpy.sum(prevalences) == 1]
         problem = cvxpy.Problem(objective, contraints)
@@ -126,7 +126,7 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
-        problem.parameters()[0].value = np.squeeze(test_distrib)
+        problem.parameters()[0].value = np.reshape(test_distrib, -1)
         problem.solve(warm_start=True, solver=solver, feastol=1e6)
 
         return problem, list(problem.solution.primal_vars.values())[0]
-- 
2.43.0


From c92945641e5a645f185bcff96536fa5ebb0170ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 08/37] fix: PDFOrdinaly with the documented distance L1
 returned None

---
 quantificationlib/ordinal/pdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/ordinal/pdf.py b/quantificationlib/ordinal/pdf.py
index 6fdc646..38da29c 100644
--- a/quantificationlib/ordinal/pdf.py
+++ b/quantificationlib/ordinal/pdf.py
@@ -264,6 +264,9 @@ class PDFOrdinaly(UsingClassifiers):
         if self.distance == 'HD':
             self.problem_, prevalences = solve_hd(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
+        elif self.distance == 'L1':
+            self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
+                                                  n_classes=n_classes, problem=self.problem_)
         elif self.distance == 'L2':
             prevalences = solve_l2(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                    G=self.G_, C=self.C_, b=self.b_)
-- 
2.43.0


From 59a86b8dcb2e71e64b5d490bb10d2bbe0d928366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 09/37] fix: Frank & Hall probabilities of the inner classes
 (missing parentheses)

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 0d56f10..487774b 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -250,7 +250,7 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
         # of the right group of the c_i-1 estimator, and the probability of the left group of the c_i estimator
         for c_i in range(1, n_classes - 1):
             # Pr(y = c_i) = p_right_estimator_i-1 * p_left_estimator_i
-            probs_samples[:, c_i] = 1 - predictions[:, c_i - 1] * predictions[:, c_i]
+            probs_samples[:, c_i] = (1 - predictions[:, c_i - 1]) * predictions[:, c_i]
         # the probability of the last class is the probability of the right group of the last estimator
         probs_samples[:, n_classes - 1] = 1 - predictions[:, n_classes - 1 - 1]
 
-- 
2.43.0


From c61f01ae667ec4b655f34a3ccf5c1e28fdb79a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 10/37] fix: FrankAndHallMonotoneClassifier never corrected
 non-ascending probabilities

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 487774b..ab38188 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -535,7 +535,7 @@ class FrankAndHallMonotoneClassifier(FrankAndHallClassifier):
             Sep 2014, Nancy, France. pp.323 - 337, 2014,
         """
         ascending = np.all(probabilities[:, 1:] >= probabilities[:, :-1], axis=1)
-        samples_to_correct = np.nonzero(ascending is False)[0]
+        samples_to_correct = np.nonzero(~ascending)[0]
         if len(samples_to_correct) == 0:
             return probabilities
         else:
-- 
2.43.0


From 3f216fd1af8e0df0b079b0ea8373adc78da9ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 11/37] fix: FrankAndHallTreeClassifier compared left-group
 predictions with the prevalence of the right group

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index ab38188..61ad3ad 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -797,7 +797,7 @@ class FrankAndHallTreeClassifier(FrankAndHallClassifier):
         for i in range(n_estimators):
             # compute the true prevalence of the left group for such estimator
             y_val_bin = self.label_binarizer_.transform(y)[:, i]
-            num_left = np.count_nonzero(y_val_bin == 0)  # left 0, right +1
+            num_left = np.count_nonzero(y_val_bin == 1)  # left 1, right 0
             p_true = num_left / float(n_samples)
             scores[i] = self.performance_measure(p_true, p_pred[i])
             if self.verbose:
-- 
2.43.0


From c1eca096db7c2ff00df8bcbbb0f0dc0ad249c88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 12/37] fix: EnsembleOfClassifiers fits a separate copy of the
 base estimator for each bag

---
 quantificationlib/estimators/ensembles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 43b2303..008ebc0 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -16,6 +16,7 @@ from sklearn.base import BaseEstimator, ClassifierMixin
 from sklearn.utils import check_X_y
 from sklearn.exceptions import NotFittedError
 
+from copy import deepcopy
 from joblib import Parallel, delayed
 
 
@@ -109,8 +110,8 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
 
             # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
             # performance due to the overhead of spawning threads.  See joblib issue #112.
-            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(self.base_estimator.fit)(X[indexes[:, n_est], :],
-                                                                                             y[indexes[:, n_est]])
+            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(deepcopy(self.base_estimator).fit)(X[indexes[:, n_est], :],
+                                                                                                       y[indexes[:, n_est]])
                                                             for n_est in range(self.n_estimators_))
 
         self.classes_ = np.unique(y)
-- 
2.43.0


From f10c571de2ac536963033f93c45fb641c4f83ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 13/37] fix: EoQ without classifiers uses n_bins and
 bin_strategy for its bincuts (was 100 equal width)

---
 quantificationlib/ensembles/eoq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 537bb09..ca44119 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -241,10 +241,10 @@ class EoQ(WithoutClassifiers):
             if self.verbose > 0:
                 print('Class %s: Training quantifiers...' % self.__class__.__name__, end='')
 
-            self.bincuts_ = np.zeros((X.shape[1], 100 + 1))
+            self.bincuts_ = np.zeros((X.shape[1], self.n_bins + 1))
             for att in range(X.shape[1]):
-                self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=None, classes=self.classes_,
-                                                        n_bins=self.n_bins, bin_strategy='equal_width')
+                self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=y, classes=self.classes_,
+                                                        n_bins=self.n_bins, bin_strategy=self.bin_strategy)
 
             self.quantifiers_ = np.zeros(self.n_quantifiers, dtype=object)
             for i in range(self.n_quantifiers):
-- 
2.43.0


From eb3cbf7a7492c9cadba494487cad0c2e03836c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 14/37] fix: EoQ distribution of each training bag is the one
 of its own examples

---
 quantificationlib/ensembles/eoq.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index ca44119..ab35925 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -256,7 +256,7 @@ class EoQ(WithoutClassifiers):
             for i in range(self.n_quantifiers):
                 for att in range(X.shape[1]):
                     self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                        np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
+                        np.histogram(X[self.indexes_[:, i], att], bins=self.bincuts_[att, :])[0] / len(self.indexes_)
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
                             np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
@@ -379,12 +379,12 @@ class EoQ(WithoutClassifiers):
                 for descr in range(n_descriptors):
                     if predictions_train.ndim == 2:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                             np.histogram(predictions_train[:, descr],
-                                          bins=self.bincuts_[descr, :])[0] / len(predictions_train)
+                             np.histogram(predictions_train[indexes_ext[:, i], descr],
+                                          bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
                     elif predictions_train.ndim == 3:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.histogram(predictions_train.mean(axis=1)[:, descr],
-                                         bins=self.bincuts_[descr, :])[0] / len(predictions_train)
+                            np.histogram(predictions_train.mean(axis=1)[indexes_ext[:, i], descr],
+                                         bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-- 
2.43.0


From 9f710ccdc9004b90dcaf23161cafb15ea55e23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 15/37] fix: EoQ with distribution_function='CDF' (wrong axis,
 misspelled name)

---
 quantificationlib/ensembles/eoq.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index ab35925..8ea384a 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -259,7 +259,7 @@ class EoQ(WithoutClassifiers):
                         np.histogram(X[self.indexes_[:, i], att], bins=self.bincuts_[att, :])[0] / len(self.indexes_)
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+                            np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins])
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
@@ -388,7 +388,7 @@ class EoQ(WithoutClassifiers):
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
+                            np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins])
 
         else:
             raise ValueError("Base quantifiers of class %s not implemented in EoQ"
@@ -466,8 +466,8 @@ class EoQ(WithoutClassifiers):
                     test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins] = \
                         np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
                     if self.distribution_function == 'CDF':
-                        test_distributions[0, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+                        test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins] = \
+                            np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins])
             elif isinstance(self.base_quantifier, UsingClassifiers):
 
                 if predictions_test.ndim == 1:
@@ -493,7 +493,7 @@ class EoQ(WithoutClassifiers):
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
+                            np.cumsum(test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins])
             else:
                 raise ValueError("Base quantifiers of class %s not implemented in EoQ"
                                  % self.base_quantifier.__class__.__name__)
-- 
2.43.0


From 0587a4395df5e2343d77dfddf21fe5d5db6bc8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 16/37] fix: EoQ selects at least one quantifier (a small
 percentage gave NaN prevalences)

---
 quantificationlib/ensembles/eoq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 8ea384a..b1d8787 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -455,7 +455,8 @@ class EoQ(WithoutClassifiers):
             for i in range(self.n_quantifiers):
                 difference[i] = mean_absolute_error(p, prevalences[i])
             indxs = np.argsort(difference)
-            prevalence_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            n_selected = max(1, round(self.n_quantifiers * self.percentage_of_selected_models))
+            prevalence_similarity_selected = indxs[0:n_selected]
 
         if self.combination_strategy == 'distribution_similarity' or self.combination_strategy == 'all':
 
@@ -499,7 +500,8 @@ class EoQ(WithoutClassifiers):
                                  % self.base_quantifier.__class__.__name__)
             distances = cdist(test_distribution, self.distributions_, metric=self.distance_bags)
             indxs = np.argsort(distances.squeeze())
-            distribution_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            n_selected = max(1, round(self.n_quantifiers * self.percentage_of_selected_models))
+            distribution_similarity_selected = indxs[0:n_selected]
 
         prediction = 0
         if self.combination_strategy == 'mean':
-- 
2.43.0


From 18a10b07bfe4d58bd6c08430480a3994b730e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 17/37] fix: EoQ with repeated predictions and bags whose size
 is not that of the training set

---
 quantificationlib/ensembles/eoq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index b1d8787..881ebfc 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -333,7 +333,7 @@ class EoQ(WithoutClassifiers):
             else:
                 n_repetitions = len(predictions_train) // len(y)
                 y_ext = np.tile(y, n_repetitions)
-                adapt_indexs = np.repeat(np.array(range(0, len(y) * n_repetitions, len(y))), len(y))
+                adapt_indexs = np.repeat(np.array(range(0, len(y) * n_repetitions, len(y))), len(self.indexes_))
                 indexes_ext = np.tile(self.indexes_, (n_repetitions, 1)) + np.transpose(np.tile(adapt_indexs,
                                                                                                 (
                                                                                                     self.n_quantifiers,
-- 
2.43.0


From 080464bac194dc22bb273a02d4a00995edd00da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 18/37] fix: EoQ gives each crisp quantifier the predictions of
 its own model of an EnsembleOfClassifiers

---
 quantificationlib/ensembles/eoq.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 881ebfc..3076d59 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -263,6 +263,9 @@ class EoQ(WithoutClassifiers):
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
+            # True when each model of an EnsembleOfClassifiers gives its own column of crisp predictions
+            crisp_by_model = False
+
             if predictions_train is None:
 
                 if self.ensemble_estimator_train is None:
@@ -298,6 +301,7 @@ class EoQ(WithoutClassifiers):
                     predictions_train = self.ensemble_estimator_train.predict_proba(X)
                 else:
                     predictions_train = self.ensemble_estimator_train.predict(X)
+                    crisp_by_model = isinstance(self.ensemble_estimator_train, EnsembleOfClassifiers)
 
             if self.ensemble_estimator_test is not None:
                 if self.verbose > 0:
@@ -345,7 +349,10 @@ class EoQ(WithoutClassifiers):
             self.quantifiers_ = np.zeros(self.n_quantifiers, dtype=object)
             for i in range(self.n_quantifiers):
                 self.quantifiers_[i] = deepcopy(self.base_quantifier)
-                if predictions_train.ndim == 1:
+                if crisp_by_model:
+                    self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
+                                             predictions_train=predictions_train[indexes_ext[:, i], i])
+                elif predictions_train.ndim == 1:
                     self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
                                              predictions_train=predictions_train[indexes_ext[:, i]])
                 elif predictions_train.ndim == 2:
@@ -361,14 +368,17 @@ class EoQ(WithoutClassifiers):
                 n_descriptors = 1  # number of groups of probabilities used to represent the distribution
             else:
                 n_descriptors = n_classes
+            # distributions are only computed for probabilistic predictions
+            probabilities = (not crisp_by_model and predictions_train.ndim > 1
+                             and predictions_train.shape[-1] >= n_descriptors)
             # compute bincuts according to bin_strategy
             self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
             for descr in range(n_descriptors):
-                if predictions_train.ndim == 2:
+                if probabilities and predictions_train.ndim == 2:
                     self.bincuts_[descr, :] = compute_bincuts(x=predictions_train[:, descr], y=y_ext,
                                                               classes=self.classes_,
                                                               n_bins=self.n_bins, bin_strategy=self.bin_strategy)
-                elif predictions_train.ndim == 3:
+                elif probabilities and predictions_train.ndim == 3:
                     self.bincuts_[descr, :] = compute_bincuts(x=predictions_train.mean(axis=1)[:, descr], y=y_ext,
                                                               classes=self.classes_,
                                                               n_bins=self.n_bins, bin_strategy=self.bin_strategy)
@@ -377,11 +387,11 @@ class EoQ(WithoutClassifiers):
             self.distributions_ = np.zeros((self.n_quantifiers, self.n_bins * n_descriptors))
             for i in range(self.n_quantifiers):
                 for descr in range(n_descriptors):
-                    if predictions_train.ndim == 2:
+                    if probabilities and predictions_train.ndim == 2:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
                              np.histogram(predictions_train[indexes_ext[:, i], descr],
                                           bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
-                    elif predictions_train.ndim == 3:
+                    elif probabilities and predictions_train.ndim == 3:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
                             np.histogram(predictions_train.mean(axis=1)[indexes_ext[:, i], descr],
                                          bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
@@ -436,14 +446,19 @@ class EoQ(WithoutClassifiers):
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
+            crisp_by_model = False
+
             if predictions_test is None:
                 if self.base_quantifier.probabilistic_predictions:
                     predictions_test = self.ensemble_estimator_test.predict_proba(X)
                 else:
                     predictions_test = self.ensemble_estimator_test.predict(X)
+                    crisp_by_model = isinstance(self.ensemble_estimator_test, EnsembleOfClassifiers)
 
             for i in range(self.n_quantifiers):
-                if predictions_test.ndim <= 2:
+                if crisp_by_model:
+                    prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test[:, i])
+                elif predictions_test.ndim <= 2:
                     prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test)
                 else:
                     #  3 dimensions, an EnsembleOfClassifiers is used
@@ -471,7 +486,7 @@ class EoQ(WithoutClassifiers):
                             np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins])
             elif isinstance(self.base_quantifier, UsingClassifiers):
 
-                if predictions_test.ndim == 1:
+                if predictions_test.ndim == 1 or crisp_by_model:
                     raise ValueError("Class %s: distribution_similarity not implemented with quantifiers that use "
                                      "crisp preditions, used prevalence_similarity instead", self.__class__.__name__)
 
-- 
2.43.0


From 9c775ce70f246f6d8b756c4c9ffdd0af74444b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 19/37] fix: EoQ median combination when the median of every
 class is 0 (NaN prevalences)

---
 quantificationlib/ensembles/eoq.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 3076d59..3cb91c8 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -523,8 +523,7 @@ class EoQ(WithoutClassifiers):
             prediction = np.mean(prevalences, axis=0)
             prediction = prediction / float(np.sum(prediction))
         elif self.combination_strategy == 'median':
-            prediction = np.median(prevalences, axis=0)
-            prediction = prediction / float(np.sum(prediction))
+            prediction = EoQ.__median(prevalences)
         elif self.combination_strategy == 'prevalence_similarity':
             prediction = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
             prediction = prediction / float(np.sum(prediction))
@@ -536,8 +535,7 @@ class EoQ(WithoutClassifiers):
             m0 = np.mean(prevalences, axis=0)
             m0 = m0 / float(np.sum(m0))
             prediction['mean'] = m0
-            m1 = np.median(prevalences, axis=0)
-            m1 = m1 / float(np.sum(m1))
+            m1 = EoQ.__median(prevalences)
             prediction['median'] = m1
             m2 = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
             m2 = m2 / float(np.sum(m2))
@@ -548,3 +546,23 @@ class EoQ(WithoutClassifiers):
             prediction['all'] = (m0 + m1 + m2 + m3)/4
 
         return prediction
+
+    @staticmethod
+    def __median(prevalences):
+        """ Normalized median of the prevalences of the quantifiers
+
+            The mean is used when the median of every class is 0 (each class is missing in most of the quantifiers)
+
+            Parameters
+            ----------
+            prevalences : ndarray, shape (n_quantifiers, n_classes)
+                Prevalences predicted by each quantifier
+
+            Returns
+            -------
+            prevalences: ndarray, shape(n_classes, )
+        """
+        prediction = np.median(prevalences, axis=0)
+        if np.sum(prediction) == 0:
+            prediction = np.mean(prevalences, axis=0)
+        return prediction / float(np.sum(prediction))
-- 
2.43.0


From c83749a160fbe8a56c01bc67f7d6bba128256f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 20/37] fix: quantifiers with the default bag generator shared
 one generator and its stored bags

---
 quantificationlib/ensembles/eoq.py         | 11 ++++++-----
 quantificationlib/multiclass/regression.py | 19 ++++++++++---------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 3cb91c8..ff4ed5e 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -28,7 +28,7 @@ class EoQ(WithoutClassifiers):
         n_quantifiers: int, (default=100)
             Number of quantifiers in the ensemble
 
-        bag_generator : BagGenerator object (default=PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, a new PriorShift_BagGenerator object for each fit)
             Object to generate the bags (with a selected shift) for training each quantifier
 
         combination_strategy: str, (default='mean')
@@ -152,7 +152,7 @@ class EoQ(WithoutClassifiers):
         verbose : int
             The verbosity level
     """
-    def __init__(self, base_quantifier=None, n_quantifiers=100, bag_generator=PriorShift_BagGenerator(),
+    def __init__(self, base_quantifier=None, n_quantifiers=100, bag_generator=None,
                  combination_strategy='mean',
                  ensemble_estimator_train=None, ensemble_estimator_test=None,
                  distribution_function='PDF', n_bins=100, bin_strategy='equal_width', distance_bags='euclidean',
@@ -226,11 +226,12 @@ class EoQ(WithoutClassifiers):
 
         #  compute bags if needed
         if prevalences is None and indexes is None:
-            if not isinstance(self.bag_generator, BagGenerator):
+            bag_generator = PriorShift_BagGenerator() if self.bag_generator is None else self.bag_generator
+            if not isinstance(bag_generator, BagGenerator):
                 raise ValueError("Invalid bag generaror object")
 
-            self.bag_generator.n_bags = self.n_quantifiers
-            self.prevalences_, self.indexes_ = self.bag_generator.generate_bags(X, y)
+            bag_generator.n_bags = self.n_quantifiers
+            self.prevalences_, self.indexes_ = bag_generator.generate_bags(X, y)
         else:
             self.prevalences_ = prevalences
             self.indexes_ = indexes
diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index ef72826..5ea667d 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -24,7 +24,7 @@ class REG(six.with_metaclass(ABCMeta)):
 
         Parameters
         ----------
-        bag_generator : BagGenerator object (default=PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, a new PriorShift_BagGenerator object for each fit)
             Object to generate the bags with a selected shift
 
         n_bins : int (default=8)
@@ -105,7 +105,7 @@ class REG(six.with_metaclass(ABCMeta)):
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
 
-    def __init__(self, bag_generator=PriorShift_BagGenerator(), n_bins=8, bin_strategy='equal_width',
+    def __init__(self, bag_generator=None, n_bins=8, bin_strategy='equal_width',
                  regression_estimator=None, verbose=0, **kwargs):
         super(REG, self).__init__(**kwargs)
         self.bag_generator = bag_generator
@@ -156,12 +156,13 @@ class REG(six.with_metaclass(ABCMeta)):
                                                     att_range=att_range)
 
         #  compute bags
-        prevalences, indexes = self.bag_generator.generate_bags(X, y)
+        bag_generator = PriorShift_BagGenerator() if self.bag_generator is None else self.bag_generator
+        prevalences, indexes = bag_generator.generate_bags(X, y)
 
-        self.dataX_ = np.zeros((self.bag_generator.n_bags, self.n_bins * n_features))
+        self.dataX_ = np.zeros((bag_generator.n_bags, self.n_bins * n_features))
         self.dataY_ = np.transpose(prevalences)
 
-        for nbag in range(self.bag_generator.n_bags):
+        for nbag in range(bag_generator.n_bags):
             for att in range(n_features):
                 self.dataX_[nbag, att * self.n_bins:(att + 1) * self.n_bins] = \
                     np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / n_examples
@@ -247,7 +248,7 @@ class REGX(WithoutClassifiers, REG):
 
         Parameters
         ----------
-        bag_generator : BagGenerator object (default=PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, a new PriorShift_BagGenerator object for each fit)
             Object to generate the bags with a selected shift
 
         n_bins : int (default=8)
@@ -327,7 +328,7 @@ class REGX(WithoutClassifiers, REG):
         ----------
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
-    def __init__(self, bag_generator=PriorShift_BagGenerator(), n_bins=8, bin_strategy='normal',
+    def __init__(self, bag_generator=None, n_bins=8, bin_strategy='normal',
                  regression_estimator=None, verbose=False):
         super(REGX, self).__init__(bag_generator=bag_generator, n_bins=n_bins, bin_strategy=bin_strategy,
                                    regression_estimator=regression_estimator, verbose=verbose)
@@ -417,7 +418,7 @@ class REGy(UsingClassifiers, REG):
             An estimator object implementing `fit` and `predict_proba`. It is used to classify the examples of the
             testing set and to compute the distribution of the whole testing set
 
-        bag_generator : BagGenerator object (default=PriorShift_BagGenerator())
+        bag_generator : BagGenerator object (default=None, a new PriorShift_BagGenerator object for each fit)
             Object to generate the bags with a selected shift
 
         n_bins : int (default=8)
@@ -519,7 +520,7 @@ class REGy(UsingClassifiers, REG):
         Christopher F. Baum: Stata tip 63: Modeling proportions. The Stata Journal 8.2 (2008): 299-303
     """
 
-    def __init__(self, estimator_train=None, estimator_test=None, bag_generator=PriorShift_BagGenerator(),
+    def __init__(self, estimator_train=None, estimator_test=None, bag_generator=None,
                  n_bins=8, bin_strategy='equal_width', regression_estimator=None, verbose=False):
         super(REGy, self).__init__(bag_generator=bag_generator, n_bins=n_bins, bin_strategy=bin_strategy,
                                    regression_estimator=regression_estimator, verbose=verbose,
-- 
2.43.0


From 7759a1d704281004f56197ab67e46fccdbe446a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 21/37] fix: REG describes training bags by fractions of the
 bag size, as it does with test bags

---
 quantificationlib/multiclass/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 5ea667d..2a17740 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -165,7 +165,7 @@ class REG(six.with_metaclass(ABCMeta)):
         for nbag in range(bag_generator.n_bags):
             for att in range(n_features):
                 self.dataX_[nbag, att * self.n_bins:(att + 1) * self.n_bins] = \
-                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / n_examples
+                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / len(indexes)
 
     def fit_regressor(self):
         """ This method trains the regressor model using `dataX_` and `dataY_`
-- 
2.43.0


From 2e041d737901ff4c9def60d010fd6ecfa4a60a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 22/37] fix: REG fits a copy of the regression estimator also
 for binary problems

---
 quantificationlib/multiclass/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 2a17740..80f6d68 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -174,7 +174,7 @@ class REG(six.with_metaclass(ABCMeta)):
         if self.n_classes_ == 2:
             self.dataY_ = self.dataY_[:, 1]
             if self.regression_estimator is not None:
-                self.estimators_ = self.regression_estimator.fit(self.dataX_, self.dataY_)
+                self.estimators_ = deepcopy(self.regression_estimator).fit(self.dataX_, self.dataY_)
             else:
                 self.estimators_ = sm.GLM(endog=self.dataY_, exog=self.dataX_, family=sm.families.Binomial())
                 self.models_ = self.estimators_.fit()
-- 
2.43.0


From 8e47e36e63eec878f387e92b19c7bd92efd6e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 23/37] fix: REG raises the error of all-zero predictions also
 for multiclass problems (NaN prevalences)

---
 quantificationlib/multiclass/regression.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 80f6d68..974c2e9 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -234,7 +234,11 @@ class REG(six.with_metaclass(ABCMeta)):
                     prevalences[n_cls] = self.estimators_[n_cls].predict(bagX.reshape(1, -1))
 
             prevalences = np.clip(prevalences, 0, 1)
-            prevalences = prevalences / float(np.sum(prevalences))
+
+            if np.sum(prevalences) > 0:
+                prevalences = prevalences / float(np.sum(prevalences))
+            else:
+                raise ValueError("predicted prevalences by object of class %s are all 0", self.__class__.__name__)
             return prevalences.reshape(-1)
 
 
-- 
2.43.0


From 6c30fa9fa956d8ae11569695182f99c7e17bf8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 24/37] fix: Dirichlet bags use the random state of the
 generator

---
 quantificationlib/bag_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index e5bcb22..31ba59f 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -289,7 +289,7 @@ class PriorShift_BagGenerator(BagGenerator):
                 if len(self.alphas) != n_classes:
                     raise ValueError('the size of alphas parameter does not match the number of classes')
 
-        self.prevalences_ = np.random.dirichlet(self.alphas, size=self.n_bags).transpose()
+        self.prevalences_ = self.random_state.dirichlet(self.alphas, size=self.n_bags).transpose()
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
 
         for n_bag in range(self.n_bags):
-- 
2.43.0


From a54f472064f04524b85f0b63dce9bec2806fa0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 25/37] fix: uniform bags with infeasible minimum prevalences
 looped forever

---
 quantificationlib/bag_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 31ba59f..cfe9ea5 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -231,6 +231,9 @@ class PriorShift_BagGenerator(BagGenerator):
             low = min_nexamples[0]
             high = self.bag_size - min_nexamples[-1]
 
+        if min_nexamples is not None and high - 1 - low < np.sum(min_nexamples[1:-1]):
+            raise ValueError("The values for min_prevalence are too high for this bag_size")
+
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
         n_bag = 0
-- 
2.43.0


From 4cdcb038d1498580cf6779d84d23f243fa100da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 26/37] fix: PriorAndCovariateShift_BagGenerator without
 bag_size (default size is that of the training set)

---
 quantificationlib/bag_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index cfe9ea5..ebe3d6f 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -534,6 +534,9 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
         if self.prevalences_ is not None and self.indexes_ is not None:
             return self.prevalences_, self.indexes_
 
+        if self.bag_size is None:
+            self.bag_size = len(y)
+
         n_bags_prior = self.n_bags // 2
         n_bags_covariate = self.n_bags - n_bags_prior
         prior = PriorShift_BagGenerator(n_bags=n_bags_prior, bag_size=self.bag_size,
-- 
2.43.0


From e6b866ad2a5802dcb277aac4eeb3df7103cc5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 27/37] fix: CV_estimator default cv was rejected by
 scikit-learn ('warn'); None is the documented default

---
 quantificationlib/estimators/cross_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index c089f9c..3b59939 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -114,7 +114,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             The verbosity level.
     """
 
-    def __init__(self, estimator, groups=None, cv='warn', n_jobs=None, fit_params=None, pre_dispatch='2*n_jobs',
+    def __init__(self, estimator, groups=None, cv=None, n_jobs=None, fit_params=None, pre_dispatch='2*n_jobs',
                  averaged_predictions=True, voting='hard', verbose=0):
         self.estimator = estimator
         self.groups = groups
-- 
2.43.0


From c0afacb8d740c4225e00ade88bda0172fc754464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 28/37] fix: CV_estimator predicts its training data with the
 folds its models were trained on

---
 quantificationlib/estimators/cross_validation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index 3b59939..065ad8b 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -130,6 +130,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.classes_ = None
         self.X_train_ = None
         self.y_train_ = None
+        self.splits_ = None
 
     def fit(self, X, y):
         """ Fit the models
@@ -151,9 +152,11 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.le_ = LabelEncoder().fit(y)
         # check cv
         self.cv = check_cv(self.cv, y, classifier=is_classifier(self.estimator))
+        # the folds are kept: predict must use the same ones (shuffled folds change in each call to split)
+        self.splits_ = list(self.cv.split(X, y, self.groups))
         # train CV and save the estimators for each fold
         cvresults = cross_validate(self.estimator, X, y,
-                                   groups=self.groups, cv=self.cv, n_jobs=self.n_jobs,
+                                   groups=self.groups, cv=self.splits_, n_jobs=self.n_jobs,
                                    verbose=self.verbose, fit_params=self.fit_params, pre_dispatch=self.pre_dispatch,
                                    return_estimator=True)
         self.estimators_ = cvresults['estimator']
@@ -265,14 +268,14 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             # predicting over training examples, same partitions
             #  computing number of repetitions
             n_preds = 0
-            for (train_index, test_index) in self.cv.split(self.X_train_, self.y_train_):
+            for (train_index, test_index) in self.splits_:
                 n_preds = n_preds + len(test_index)
             n_repeats = n_preds // n_examples
             #  storing predictions
             preds = np.zeros((n_repeats, n_examples, len(self.classes_)), dtype=float)
             n_rep = 0
             n_preds = 0
-            for nfold, (train_index, test_index) in enumerate(self.cv.split(self.X_train_, self.y_train_)):
+            for nfold, (train_index, test_index) in enumerate(self.splits_):
                 X_test = X[test_index]
                 preds[n_rep, test_index, :] = self.estimators_[nfold].predict_proba(X_test)
                 n_preds = n_preds + len(test_index)
-- 
2.43.0


From 098680651e9b09d60b1cd342c2804e8c27270eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 29/37] fix: plot_line_prevalences reversed the caller's list
 of columns (the next plot was sorted differently)

---
 quantificationlib/plot/qlplot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantificationlib/plot/qlplot.py b/quantificationlib/plot/qlplot.py
index 5027a59..b2830f3 100644
--- a/quantificationlib/plot/qlplot.py
+++ b/quantificationlib/plot/qlplot.py
@@ -18,8 +18,7 @@ def _sort_rows_bycolumns(m, columns=[0], order='ascending'):
     Sort rows of matrix based on the list of columns. 
     By default sort based on the firt column ascending
     """
-    columns.reverse() 
-    sort_order = np.lexsort(tuple(m[:, i] for i in columns))
+    sort_order = np.lexsort(tuple(m[:, i] for i in columns[::-1]))
     if order=='descending':
         sort_order = sort_order[::-1]
     m_sorted = m[sort_order]
-- 
2.43.0


From 715f888d9093b411f3a9685de2073f2a6f9359c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 30/37] Revert "fix: plot_line_prevalences reversed the
 caller's list of columns": its order is a string, the columns are not an
 argument

---
 quantificationlib/plot/qlplot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/plot/qlplot.py b/quantificationlib/plot/qlplot.py
index b2830f3..5027a59 100644
--- a/quantificationlib/plot/qlplot.py
+++ b/quantificationlib/plot/qlplot.py
@@ -18,7 +18,8 @@ def _sort_rows_bycolumns(m, columns=[0], order='ascending'):
     Sort rows of matrix based on the list of columns. 
     By default sort based on the firt column ascending
     """
-    sort_order = np.lexsort(tuple(m[:, i] for i in columns[::-1]))
+    columns.reverse() 
+    sort_order = np.lexsort(tuple(m[:, i] for i in columns))
     if order=='descending':
         sort_order = sort_order[::-1]
     m_sorted = m[sort_order]
-- 
2.43.0


From 51fa5ddb7ab31ad101504f3b43800af0d007a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 31/37] fix: REGX.fit did not store the class labels (classes_
 stayed None)

---
 quantificationlib/multiclass/regression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index 974c2e9..8587de3 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -350,6 +350,8 @@ class REGX(WithoutClassifiers, REG):
              y : array-like, shape (n_examples, )
                  True classes
          """
+        super().fit(X, y)
+
         if self.verbose > 0:
             print('Class %s: Creating training distribution...' % self.__class__.__name__, end='')
 
-- 
2.43.0


From eecb12427e54d60cf705fa3b60f1aa983f640a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 32/37] fix: positive-class scores of single precision are
 probabilities, not crisp labels

---
 quantificationlib/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index c2a805a..9686eb1 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -335,7 +335,7 @@ class UsingClassifiers(BaseQuantifier):
                 preds_mod = np.copy(preds)
             else:
                 preds_mod = np.copy(preds.squeeze(axis=1))
-            if isinstance(preds_mod[0], float):
+            if isinstance(preds_mod[0], (float, np.floating)):
                 # it contains probs of the positive (second) class
                 return labels.take((preds_mod >= 0.5).astype(int), axis=0)
             else:
-- 
2.43.0


From bd15265adb1717d10b852a0bb8ae8fcb1195d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 33/37] fix: EM: get_params, clone and repr failed (epsilon and
 max_iter were not stored)

---
 quantificationlib/multiclass/em.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantificationlib/multiclass/em.py b/quantificationlib/multiclass/em.py
index 4c04940..287765b 100644
--- a/quantificationlib/multiclass/em.py
+++ b/quantificationlib/multiclass/em.py
@@ -103,6 +103,8 @@ class EM(UsingClassifiers):
     def __init__(self, estimator_train=None, estimator_test=None, verbose=0, epsilon=1e-4, max_iter=1000):
         super(EM, self).__init__(estimator_train=estimator_train, estimator_test=estimator_test,
                                  needs_predictions_train=True, probabilistic_predictions=True, verbose=verbose)
+        self.epsilon = epsilon
+        self.max_iter = max_iter
         self.epsilon_ = epsilon
         self.max_iter_ = max_iter
         self.prevalences_train_ = None
@@ -132,6 +134,10 @@ class EM(UsingClassifiers):
         """
         super().fit(X, y, predictions_train=predictions_train)
 
+        # the parameters can be changed by set_params
+        self.epsilon_ = self.epsilon
+        self.max_iter_ = self.max_iter
+
         n_classes = len(self.classes_)
 
         freq = np.zeros(n_classes)
-- 
2.43.0


From f59fe832e6c2d974a08e2475727d6843492a7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 34/37] fix: EDX: get_params, clone and repr failed (distance
 was not stored)

---
 quantificationlib/multiclass/energy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/multiclass/energy.py b/quantificationlib/multiclass/energy.py
index c8b09bb..f04c855 100644
--- a/quantificationlib/multiclass/energy.py
+++ b/quantificationlib/multiclass/energy.py
@@ -490,6 +490,7 @@ class EDX(WithoutClassifiers):
     def __init__(self, distance=euclidean_distances, verbose=0):
         super(EDX, self).__init__(verbose=verbose)
         # variables to represent the distributions using the main idea of ED-based algorithms
+        self.distance = distance
         self.distance_ = distance
         self.train_n_cls_i_ = None
         self.train_distrib_ = None
@@ -513,6 +514,8 @@ class EDX(WithoutClassifiers):
         """
         super().fit(X, y)
 
+        self.distance_ = self.distance  # it can be changed by set_params
+
         if self.verbose > 0:
             print('Class %s: Computing average distances for training distribution...' % self.__class__.__name__,
                   end='')
-- 
2.43.0


From 5fecc4e004dfce4a8093849b7db85f9dc3da30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 35/37] fix: PWK: get_params, clone and repr failed (its
 parameters were not stored)

---
 quantificationlib/estimators/weighted_knn.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/weighted_knn.py b/quantificationlib/estimators/weighted_knn.py
index 514cd3b..70021b9 100644
--- a/quantificationlib/estimators/weighted_knn.py
+++ b/quantificationlib/estimators/weighted_knn.py
@@ -85,8 +85,14 @@ class PWK(BaseEstimator, ClassifierMixin):
     """
     def __init__(self, n_neighbors=10, algorithm='auto', leaf_size=30, p=2, metric='minkowski', metric_params=None,
                  n_jobs=None):
-        self.knn_ = KNeighborsClassifier(n_neighbors=n_neighbors, algorithm=algorithm, leaf_size=leaf_size,
-                                         metric=metric, p=p, metric_params=metric_params, n_jobs=n_jobs)
+        self.n_neighbors = n_neighbors
+        self.algorithm = algorithm
+        self.leaf_size = leaf_size
+        self.p = p
+        self.metric = metric
+        self.metric_params = metric_params
+        self.n_jobs = n_jobs
+        self.knn_ = None
         self.classes_ = None
         self.weights_ = None
         self.y_ = None
@@ -108,6 +114,9 @@ class PWK(BaseEstimator, ClassifierMixin):
         for n_cls, cls in enumerate(self.classes_):
             self.weights_[y == cls] = 1 - (np.sum(self.y_ == cls) / X.shape[0])
 
+        self.knn_ = KNeighborsClassifier(n_neighbors=self.n_neighbors, algorithm=self.algorithm,
+                                         leaf_size=self.leaf_size, metric=self.metric, p=self.p,
+                                         metric_params=self.metric_params, n_jobs=self.n_jobs)
         self.knn_.fit(X, y)
         return self
 
-- 
2.43.0


From 60e4fafe1da21cc0ba595fcb3598257d5b0af1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 36/37] fix: PWKQuantifier: get_params, clone and repr failed
 (its parameters were not stored)

---
 quantificationlib/multiclass/knn.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/knn.py b/quantificationlib/multiclass/knn.py
index deea5f9..da93fa8 100644
--- a/quantificationlib/multiclass/knn.py
+++ b/quantificationlib/multiclass/knn.py
@@ -74,7 +74,11 @@ class PWKQuantifier(WithoutClassifiers):
     def __init__(self, n_neighbors=10, p=2, metric='minkowski', metric_params=None, verbose=0):
         super(PWKQuantifier, self).__init__(verbose=verbose)
         #  Attributes
-        self.knn_estimator_ = PWK(n_neighbors=n_neighbors, p=p, metric=metric, metric_params=metric_params)
+        self.n_neighbors = n_neighbors
+        self.p = p
+        self.metric = metric
+        self.metric_params = metric_params
+        self.knn_estimator_ = None
         self.cm_ = None
         self.problem_ = None
 
@@ -94,6 +98,8 @@ class PWKQuantifier(WithoutClassifiers):
         """
         super().fit(X, y)
 
+        self.knn_estimator_ = PWK(n_neighbors=self.n_neighbors, p=self.p, metric=self.metric,
+                                  metric_params=self.metric_params)
         self.knn_estimator_.fit(X, y)
         predictions_train = self.knn_estimator_.predict(X)
 
-- 
2.43.0


From 6bbfef5eb867ccd1e8532be0dcc39245caf405dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 37/37] fix: OrdinalQuantificationTree: clone failed (the tree
 was wrapped in another tree)

---
 quantificationlib/ordinal/trees.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/ordinal/trees.py b/quantificationlib/ordinal/trees.py
index a3afdf9..36ab191 100644
--- a/quantificationlib/ordinal/trees.py
+++ b/quantificationlib/ordinal/trees.py
@@ -35,5 +35,7 @@ class OrdinalQuantificationTree(PCC):
         Association for Computational Linguistics, A, 5863.
     """
     def __init__(self, estimator_test=None, verbose=0):
-        super(OrdinalQuantificationTree, self).__init__(estimator_test=FrankAndHallTreeClassifier(estimator_test),
-                                                        verbose=verbose)
+        # a tree is kept as it is (sklearn's clone builds the copy with the tree of the original object)
+        if not isinstance(estimator_test, FrankAndHallTreeClassifier):
+            estimator_test = FrankAndHallTreeClassifier(estimator_test)
+        super(OrdinalQuantificationTree, self).__init__(estimator_test=estimator_test, verbose=verbose)
-- 
2.43.0

