From ae1d5f206a36b2723f63885b2e5669bd28bc8ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 01/28] fix: Categorical.marginalize labels axes correctly and
 keeps cardinality one variables

---
 veroku/factors/categorical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index e4c8a17..8247df5 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -278,8 +278,12 @@ class Categorical(Factor):
         vars_to_sum_out = [v for v in self.var_names if v not in vars_to_keep]
         indices_to_sum_out = [self.var_names.index(v) for v in vars_to_sum_out]
         result_tensor = np.apply_over_axes(special.logsumexp, self.log_probs_tensor, axes=indices_to_sum_out)
+        # only remove the summed out axes (kept variables can have cardinality one) and then match the vars_to_keep order
+        result_tensor = np.squeeze(result_tensor, axis=tuple(indices_to_sum_out))
+        remaining_vars = [v for v in self.var_names if v in vars_to_keep]
+        result_tensor = result_tensor.transpose([remaining_vars.index(v) for v in vars_to_keep])
         vars_to_keep_assignment_values = [self.vars_assignments_names_dict[var] for var in vars_to_keep]
-        return Categorical(var_names=vars_to_keep, log_probs_tensor=np.squeeze(result_tensor),
+        return Categorical(var_names=vars_to_keep, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_to_keep_assignment_values)
 
     def reduce(self, vrs, values):
-- 
2.43.0


From d2d34ca8f7b9869026f66d064934eb152b7866a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 02/28] fix: Categorical.cancel applies the zero over zero rule
 per named assignment

---
 veroku/factors/categorical.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 8247df5..333710a 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -360,17 +360,17 @@ class Categorical(Factor):
         :return: The factor quotient.
         :rtype: Categorical
         """
-        augmented_factor_tensor = factor.log_probs_tensor.copy()
-        special_case_indices = np.where(
-            (augmented_factor_tensor == -np.inf) & (self.log_probs_tensor == -np.inf)
-        )
+        if not isinstance(factor, Categorical):
+            raise TypeError(f"factor must be of Categorical type but has type {type(factor)}")
+        self._assert_consistent_cardinalities(factor)
 
-        indices_are_empty = [a.size == 0 for a in special_case_indices]
+        def cancel_subtract(log_probs_a, log_probs_b):
+            # the operands are aligned (variable wise) here, so that zeros are compared at the same assignments
+            both_zero = (log_probs_a == -np.inf) & (log_probs_b == -np.inf)
+            return log_probs_a - np.where(both_zero, 0.0, log_probs_b)
 
-        if not all(indices_are_empty):
-            augmented_factor_tensor[special_case_indices] = np.float64(0.0)
         result_tensor, result_vars = self.tensor_operation(
-            self.log_probs_tensor, augmented_factor_tensor, self.var_names, factor.var_names, operator.sub
+            self.log_probs_tensor, factor.log_probs_tensor, self.var_names, factor.var_names, cancel_subtract
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-- 
2.43.0


From 5fff2e255a4684890672d6aa418bd4a9d00028c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 03/28] fix: Categorical.divide and cancel support divisors
 with variables outside the dividend scope

---
 veroku/factors/categorical.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 333710a..c7adcf6 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -374,7 +374,9 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
+        vars_assignments_names_union_dict = copy.deepcopy(self.vars_assignments_names_dict)
+        vars_assignments_names_union_dict.update(factor.vars_assignments_names_dict)
+        vars_assignment_names = [vars_assignments_names_union_dict[var] for var in
                                   result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
@@ -396,7 +398,9 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
+        vars_assignments_names_union_dict = copy.deepcopy(self.vars_assignments_names_dict)
+        vars_assignments_names_union_dict.update(factor.vars_assignments_names_dict)
+        vars_assignment_names = [vars_assignments_names_union_dict[var] for var in
                                   result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
-- 
2.43.0


From 2ffa1281e655100bb6bb54b169c2d0c76f5b139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 04/28] fix: Categorical.equals does not broadcast tables with
 different cardinalities

---
 veroku/factors/categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index c7adcf6..c315b99 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -199,6 +199,8 @@ class Categorical(Factor):
         if set(self.var_names) != set(factor.var_names):
             return False
         factor_copy = factor.reorder(self.var_names)
+        if self.log_probs_tensor.shape != factor_copy.log_probs_tensor.shape:
+            return False
         if not np.allclose(self.log_probs_tensor, factor_copy.log_probs_tensor, rtol=rtol, atol=atol):
             return False
         return True
-- 
2.43.0


From f764a7913aa0574e569ce2e03c30de5f5d7ea976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 05/28] fix: SparseCategorical.potential matches values to
 variables and handles implicit entries

---
 veroku/factors/sparse_categorical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 8973f89..ee38247 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -830,9 +830,9 @@ class SparseCategorical(Factor):
         :return: The value
         """
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
-        vrs_to_var_names_indices = [self.var_names.index(v) for v in vrs]
-        var_names_order_assignments = tuple([assignment[i] for i in vrs_to_var_names_indices])
-        return np.exp(self.log_probs_table[var_names_order_assignments])
+        obs_dict = dict(zip(vrs, assignment))
+        var_names_order_assignments = tuple([obs_dict[v] for v in self.var_names])
+        return np.exp(self.log_probs_table.get(var_names_order_assignments, self.default_log_prob))
 
     @property
     def dense_distribution_array(self):
-- 
2.43.0


From 9cf391b649b187551436e2a3a00de88b9b6b2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 06/28] fix: SparseCategorical.reorder keeps the default log
 probability

---
 veroku/factors/sparse_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index ee38247..fe7dc55 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -921,6 +921,7 @@ class SparseCategorical(Factor):
             var_names=new_var_names_order,
             log_probs_table=new_log_probs_table,
             cardinalities=reordered_cardinalities,
+            default_log_prob=self.default_log_prob,
         )
 
 
-- 
2.43.0


From 27a00ba16f9663b4450faac4ff9f4d8e6f900973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 07/28] fix: SparseCategorical.reduce supports slices without
 stored entries and keeps the default log probability

---
 veroku/factors/sparse_categorical.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index fe7dc55..497e9c2 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -556,14 +556,19 @@ class SparseCategorical(Factor):
             old_variable_order=self.var_names,
             old_assign_probs=self.log_probs_table,
         )
-        lp_table = nested_table[tuple(values)]
+        lp_table = nested_table.get(tuple(values), dict())
         result_var_cards = copy.deepcopy(self.var_cards)
         for var in vrs:
             del result_var_cards[var]
 
         cards = list(result_var_cards.values())
         var_names = vars_unobserved
-        resulting_factor = SparseCategorical(var_names=var_names, log_probs_table=lp_table, cardinalities=cards)
+        resulting_factor = SparseCategorical(
+            var_names=var_names,
+            log_probs_table=lp_table,
+            cardinalities=cards,
+            default_log_prob=self.default_log_prob,
+        )
 
         return resulting_factor
 
-- 
2.43.0


From 14ac03a4ddb5437d9c8b9c13889f17dcb6a2369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 08/28] fix: SparseCategorical.multiply and cancel use implicit
 entries with non-zero default probabilities

---
 veroku/factors/sparse_categorical.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 497e9c2..69d7a7e 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -594,7 +594,7 @@ class SparseCategorical(Factor):
         """
         if not isinstance(factor, SparseCategorical):
             raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
-        return self._apply_binary_operator(factor, operator.add, default_rules="any")
+        return self._apply_binary_operator(factor, operator.add, default_rules=self._absorbing_default_rules())
 
     def cancel(self, factor):
         """
@@ -611,7 +611,7 @@ class SparseCategorical(Factor):
                 return -np.inf
             return val_a - val_b
 
-        return self._apply_binary_operator(factor, special_divide, default_rules="any")
+        return self._apply_binary_operator(factor, special_divide, default_rules=self._absorbing_default_rules())
 
     def divide(self, factor):
         """
@@ -647,6 +647,17 @@ class SparseCategorical(Factor):
             else:
                 self.log_probs_table[assign] = func(prob)
 
+    def _absorbing_default_rules(self):
+        """
+        Get the default rules for operations in which only zero probabilities always result in zero probabilities.
+
+        :return: The default rules.
+        :rtype: str
+        """
+        if self.default_log_prob == -np.inf:
+            return "any"
+        return "none"
+
     def _apply_binary_operator(self, factor, operator_function, default_rules="none"):
         """
         Apply a binary operator function f(self.factor, factor) and return the result
-- 
2.43.0


From dcd7609f747be45895bb5b339595d88399341c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 09/28] fix: SparseCategorical.equals compares the default
 values only where they are used

---
 veroku/factors/sparse_categorical.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 69d7a7e..9ca6e34 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -467,7 +467,7 @@ class SparseCategorical(Factor):
         if not isinstance(factor_, SparseCategorical):
             raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
 
-        if set(self.var_names) != set(factor_.var_names):
+        if self.var_cards != factor_.var_cards:
             return False
 
         # var sets are the same
@@ -484,7 +484,8 @@ class SparseCategorical(Factor):
             return False
 
         # If all possible assignments have not been checked - check that the default values are the same
-        if not self._is_dense() and not factor._is_dense():
+        checked_assignments = set(self.log_probs_table).union(factor_.log_probs_table)
+        if len(checked_assignments) != np.prod(self.cardinalities):
             if self.default_log_prob != factor.default_log_prob:
                 return False
 
-- 
2.43.0


From 6dccaf8c917e85ff4fdd7d2d9ae1b174399d8e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 10/28] fix: SparseCategorical.marginalize sums implicit
 entries with non-zero default probabilities

---
 veroku/factors/sparse_categorical.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 9ca6e34..2cd05ea 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -524,22 +524,36 @@ class SparseCategorical(Factor):
             old_assign_probs=self.log_probs_table,
         )
         result_table = dict()
+        num_summed_assignments = np.prod([self.var_cards[v] for v in vars_to_sum_out])
         for l1_assign, log_probs_table in nested_table.items():
-            prob = special.logsumexp(list(log_probs_table.values()))
-            result_table[l1_assign] = prob
-
-        result_var_cards = copy.deepcopy(self.var_cards)
-        for var in vars_to_sum_out:
-            del result_var_cards[var]
+            result_table[l1_assign] = self._logsumexp_with_implicit(log_probs_table, num_summed_assignments)
 
         cardinalities = [self.var_cards[v] for v in vars_to_keep]
 
         resulting_factor = SparseCategorical(
-            var_names=vars_to_keep, log_probs_table=result_table, cardinalities=cardinalities
+            var_names=vars_to_keep,
+            log_probs_table=result_table,
+            cardinalities=cardinalities,
+            default_log_prob=self._logsumexp_with_implicit(dict(), num_summed_assignments),
         )
 
         return resulting_factor
 
+    def _logsumexp_with_implicit(self, log_probs_table, num_assignments):
+        """
+        Get the log of the sum of the probabilities of a number of assignments, only some of which are in a given table.
+
+        :param dict log_probs_table: The explicit entries (the rest have the default log probability of this factor).
+        :param int num_assignments: The total number of (explicit and implicit) assignments.
+        :return: The log of the total probability.
+        :rtype: float
+        """
+        log_probs = list(log_probs_table.values())
+        num_implicit = num_assignments - len(log_probs)
+        if num_implicit > 0:
+            log_probs.append(self.default_log_prob + np.log(num_implicit))
+        return special.logsumexp(log_probs)
+
     def reduce(self, vrs, values):
         """
         Observe variables to have certain values and return reduced table.
-- 
2.43.0


From f1b56a71fd698959d8d42cec28d33244885f2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 11/28] fix: SparseCategorical.normalize and weight count
 implicit entries with non-zero default probabilities

---
 veroku/factors/sparse_categorical.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 2cd05ea..a1d876a 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -763,9 +763,10 @@ class SparseCategorical(Factor):
         """
 
         factor_copy = self.copy()
-        logz = special.logsumexp(list(factor_copy.log_probs_table.values()))
+        logz = self._logsumexp_with_implicit(self.log_probs_table, np.prod(self.cardinalities))
         for assign, prob in factor_copy.log_probs_table.items():
             factor_copy.log_probs_table[assign] = prob - logz
+        factor_copy.default_log_prob = self.default_log_prob - logz
         return factor_copy
 
     def _is_dense(self):
@@ -879,7 +880,7 @@ class SparseCategorical(Factor):
         """
         An array containing all the discrete assignments and the corresponding probabilities.
         """
-        log_weight = special.logsumexp(list(self.log_probs_table.values()))
+        log_weight = self._logsumexp_with_implicit(self.log_probs_table, np.prod(self.cardinalities))
         weight_ = np.exp(log_weight)
         return weight_
 
-- 
2.43.0


From 4fe9be27a57caba9304a672c4958652a44e0307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 12/28] fix: SparseCategorical.kl_divergence and
 distance_from_vacuous use implicit entries with non-zero default
 probabilities

---
 veroku/factors/sparse_categorical.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index a1d876a..70c712a 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -802,11 +802,11 @@ class SparseCategorical(Factor):
             kld_i = np.exp(log_pi) * (log_pi - log_qi)
             return kld_i
 
-        kld_factor = SparseCategorical._apply_binary_operator(
-            log_p, log_q, kld_from_log_elements, default_rules="none"
-        )  # TODO: check this
-
-        klds = list(kld_factor.log_probs_table.values())
+        # the two factors can have different default values, so that all assignments need to be compared explicitly
+        log_p._assert_consistent_cardinalities(log_q)
+        dense_p_table = _make_dense(log_p).log_probs_table
+        dense_q_table = _make_dense(log_q.reorder(log_p.var_names)).log_probs_table
+        klds = [kld_from_log_elements(log_pi, dense_q_table[assign]) for assign, log_pi in dense_p_table.items()]
         kld = np.sum(klds)
         return kld
 
@@ -851,6 +851,7 @@ class SparseCategorical(Factor):
         cards = list(uniform_factor.var_cards.values())
         uniform_log_prob = -np.log(np.product(cards))
         uniform_factor._apply_to_probs(lambda x: uniform_log_prob)
+        uniform_factor.default_log_prob = uniform_log_prob
         kld = self.kl_divergence(uniform_factor, normalize_factor=False)
         return kld
 
-- 
2.43.0


From 662d6792402de797f2f8153f252499737cd15766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 13/28] fix: Gaussian.equals does not reorder the factor that
 it is given

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 713a8c8..023bb94 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -313,12 +313,12 @@ class Gaussian(Factor):
         if gaussian_copy._is_vacuous and self._is_vacuous:
             return True
         if self.canform:
-            if self._canform_equals(factor, rtol, atol):
+            if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
             return False
         self._update_covform()
         if self.covform:
-            if not self._covform_equals(factor, rtol, atol):
+            if not self._covform_equals(gaussian_copy, rtol, atol):
                 return False
         return True
 
-- 
2.43.0


From dc3a134520fab3ff652f096a4835848e7dfee3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 14/28] fix: Gaussian.kl_divergence matches parameters by
 variable name

---
 veroku/factors/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 023bb94..5d8184a 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -742,6 +742,9 @@ class Gaussian(Factor):
         factor_ = factor
         if normalize_factor:
             factor_ = factor.normalize()
+        if factor_.var_names != normalized_self.var_names:
+            factor_ = factor_.copy()
+            factor_._reorder_parameters(normalized_self.var_names)
         inv_cov_q = factor_.get_prec()
         inv_cov_p = normalized_self.get_prec()
         cov_p = normalized_self.get_cov()
-- 
2.43.0


From 0a874c52255f6fce68648cddb764ec29d60c2829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 15/28] fix: Factor does not share the var_names list that it
 was built with

---
 veroku/factors/_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 5b0b621..9ec1c80 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -22,7 +22,7 @@ class Factor:
         if len(set(var_names)) != len(var_names):
             raise ValueError("duplicate variables in var_names: ", var_names)
 
-        self._var_names = var_names
+        self._var_names = copy.copy(var_names)
         if not isinstance(var_names, list):
             self._var_names = [var_names]
 
-- 
2.43.0


From 336955372a1daa919526c655928fef3a7e67f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 16/28] fix: Categorical does not share the cardinalities list
 that it was built with

---
 veroku/factors/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index c315b99..6509900 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -130,7 +130,7 @@ class Categorical(Factor):
             self.log_probs_tensor = log_probs_tensor.copy()
         # TODO: remove this
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
         if variables_assignment_names is not None:
             assrt_error_msg = f"variables_assignment_names should have same length as var_names" \
                               f" (received {variables_assignment_names} and {var_names})"
-- 
2.43.0


From 3c15d233a111fb008aa962c6f716a7db72b5a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 17/28] fix: SparseCategorical does not share the cardinalities
 list that it was built with

---
 veroku/factors/sparse_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 70c712a..dbfedb5 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -421,7 +421,7 @@ class SparseCategorical(Factor):
             log_probs_table = {assignment: np.log(prob) for assignment, prob in probs_table.items()}
         self.log_probs_table = _fast_copy_probs_table(log_probs_table)
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
         self.default_log_prob = default_log_prob
 
     # TODO: Improve this to take missing assignments into account. Alternatively: add functionality to sparsify factor
-- 
2.43.0


From 3ac137cff9279c1741219dcb7be5029f50e9ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 18/28] fix: GaussianMixture.equals matches components in any
 order and uses the given tolerances

---
 veroku/factors/experimental/gaussian_mixture.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 272b35a..cd85bf2 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -104,13 +104,14 @@ class GaussianMixture(Factor):
             raise TypeError(f"factor must be of GaussianMixture type but has type {type(factor)}")
         if factor.num_components != self.num_components:
             return False
-        for i in range(self.num_components):
-            found_corresponding_factor = False
-            for j in range(i, self.num_components):
-                if self.get_component(i).equals(factor.get_component(j)):
-                    found_corresponding_factor = True
-            if not found_corresponding_factor:
+        unmatched_components = list(factor.components)
+        for component in self.components:
+            matches = [
+                j for j, other in enumerate(unmatched_components) if component.equals(other, rtol=rtol, atol=atol)
+            ]
+            if not matches:
                 return False
+            del unmatched_components[matches[0]]
         return True
 
     def get_component(self, index):
-- 
2.43.0


From d20f3b84007b4ab2317d424c5ac34d98a17d83e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 19/28] fix: GaussianMixture copies and results keep the
 division method

---
 veroku/factors/experimental/gaussian_mixture.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index cd85bf2..928caf5 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -135,7 +135,7 @@ class GaussianMixture(Factor):
         component_copies = []
         for comp in self.components:
             component_copies.append(comp.copy())
-        return GaussianMixture(component_copies)
+        return GaussianMixture(component_copies, cancel_method=self.cancel_method)
 
     def multiply(self, factor):
         """
@@ -156,7 +156,7 @@ class GaussianMixture(Factor):
                     new_components.append(comp_ai.multiply(comp_bi))
         else:
             raise TypeError("unsupported factor type.")
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def divide(self, factor):
         """
@@ -185,7 +185,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.divide(single_gaussian))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def reduce(self, vrs, values):
         """
@@ -201,7 +201,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.reduce(vrs, values))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def marginalize(self, vrs, keep=True):
         """
@@ -217,7 +217,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.marginalize(vrs, keep))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def distance_from_vacuous(self):
         """
@@ -338,7 +338,7 @@ class GaussianMixture(Factor):
             comp_copy = comp.copy()
             comp_copy._add_log_weight(-1.0 * unnormalized_log_weight)
             new_components.append(comp_copy)
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     @property
     def is_vacuous(self):
@@ -648,7 +648,7 @@ class GaussianMixture(Factor):
 
             component = gauss.Gaussian(prec=prec_i, h_vec=h_i, g_val=g_i, var_names=gaussian_mixture_a.components[0].var_names)
             resulting_gaussian_components.append(component)
-        return GaussianMixture(resulting_gaussian_components)
+        return GaussianMixture(resulting_gaussian_components, cancel_method=gaussian_mixture_a.cancel_method)
 
     @staticmethod
     def _gm_division_m2(gma, gmb):
@@ -689,7 +689,7 @@ class GaussianMixture(Factor):
             gaussian_approx = inverse_gaussian_approx._invert()
             resulting_gaussian_components.append(gaussian_approx)
         print("num pos def = ", count, "/", len(gma.components))
-        resulting_gm = GaussianMixture(resulting_gaussian_components)
+        resulting_gm = GaussianMixture(resulting_gaussian_components, cancel_method=gma.cancel_method)
         return resulting_gm
 
     def _get_limits_for_2d_plot(self):
-- 
2.43.0


From c1ee3d7434522ee451faf45bc1f681dcc9bcccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 20/28] fix: FactorizedFactor multiply and divide keep
 var_names in step with the factors

---
 veroku/factors/experimental/factorised_factor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 8245670..1d889e2 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -77,8 +77,8 @@ class FactorizedFactor(Factor):
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].multiply(factor)
         else:
-            factorised_factor_copy.factors.append(factor)
-        return factorised_factor_copy
+            factorised_factor_copy.factors.append(factor.copy())
+        return FactorizedFactor(factorised_factor_copy.factors)
 
     def divide(self, factor):
         """
@@ -95,7 +95,7 @@ class FactorizedFactor(Factor):
             if factorised_comp.equals(factor):
                 if len(self.factors) > 1:
                     del factorised_factor_copy.factors[i]
-                    return factorised_factor_copy
+                    return FactorizedFactor(factorised_factor_copy.factors)
                 # TODO: add else to make general vacuous factor (wont necessarily be Gaussian)
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].divide(factor)
-- 
2.43.0


From 3b78cc3e64eb589fba82764227c8818e4933bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 21/28] fix: FactorizedFactor.reduce supports parts that are
 fully observed by a larger set of evidence

---
 veroku/factors/experimental/factorised_factor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 1d889e2..4e4a0dc 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -289,12 +289,12 @@ class FactorizedFactor(Factor):
         additional_log_weight = 0.0
         for factor in self.factors:
             factor_var_names = factor.var_names
-            if set(vrs) == set(factor_var_names):
-                additional_log_weight += factor.log_potential(x_val=values, vrs=vrs)
-            elif len(set(vrs).intersection(set(factor_var_names))) > 0:
-                subset_vrs, subset_values = get_subset_evidence(
-                    all_evidence_dict=all_evidence_dict, subset_vars=factor.var_names
-                )
+            subset_vrs, subset_values = get_subset_evidence(
+                all_evidence_dict=all_evidence_dict, subset_vars=factor_var_names
+            )
+            if set(subset_vrs) == set(factor_var_names):
+                additional_log_weight += factor.log_potential(x_val=subset_values, vrs=subset_vrs)
+            elif len(subset_vrs) > 0:
                 reduced_factor = factor.reduce(subset_vrs, subset_values)
                 reduced_factors.append(reduced_factor)
             else:
-- 
2.43.0


From 27d277a67c01877c399dfe8e1e96a02562ed650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 22/28] fix: FactorizedFactor merges all dependent factors
 before marginalising and normalising

---
 .../factors/experimental/factorised_factor.py | 45 ++++++-------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 4e4a0dc..b391d0b 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -158,8 +158,7 @@ class FactorizedFactor(Factor):
 
         :return: The normalized factor.
         """
-        factor_copy = self.copy()
-        factor_copy._merge_dependent_factors()
+        factor_copy = self._merge_dependent_factors()
         for i, factor_i in enumerate(factor_copy.factors):
             factor_copy.factors[i] = factor_i.normalize()
         return factor_copy
@@ -230,18 +229,9 @@ class FactorizedFactor(Factor):
         :rtype: FactorizedFactor
         """
         # TODO: Add tests for this function
-        merged_factors = []
-        already_merged_factor_indices = []
-        for i, factor_i in enumerate(self.factors):
-            factor_i_merged = factor_i.copy()
-            for j in range(i + 1, len(self.factors)):
-                factor_j = self.factors[j]
-                if j not in already_merged_factor_indices:
-                    if set(factor_i.var_names).intersection(set(factor_j.varnames)) > 0:
-                        factor_i_merged = factor_i_merged.multiply(factor_j)
-                        already_merged_factor_indices.append(j)
-            merged_factors.append(factor_i_merged)
-        return FactorizedFactor(merged_factors)
+        merged_copy = self.copy()
+        merged_copy._merge_factors_with_shared_scope(set(self.var_names))
+        return FactorizedFactor(merged_copy.factors)
 
     def _merge_factors_with_shared_scope(self, vrs_set):
         """
@@ -253,24 +243,17 @@ class FactorizedFactor(Factor):
         :param vrs_set: The common scope variables to be considered to determine 'dependent' factors.
         :type vrs_set: str list
         """
-        observed_factor_vars_list = []
-
-        for factor in self.factors:
-            observed_factor_vars = set(factor.var_names).intersection(vrs_set)
-            observed_factor_vars_list.append(observed_factor_vars)
-
         merged_factors = []
-        merged_factors_indices = []
-        for i, observed_factor_i_vars in enumerate(observed_factor_vars_list):
-            if i not in merged_factors_indices:
-                merged_factor = self.factors[i]
-                for j in range(i + 1, len(observed_factor_vars_list)):
-                    observed_factor_j_vars = observed_factor_vars_list[j]
-                    if j not in merged_factors_indices:
-                        if len(observed_factor_i_vars.intersection(observed_factor_j_vars)) > 0:
-                            merged_factor = merged_factor.multiply(self.factors[j])
-                            merged_factors_indices.append(j)
-                merged_factors.append(merged_factor)
+        for factor in self.factors:
+            # merge the factor with all the groups (which have disjoint scopes within vrs) that it has overlap with
+            merged_factor = factor
+            disjoint_factors = []
+            for group_factor in merged_factors:
+                if set(factor.var_names).intersection(group_factor.var_names).intersection(vrs_set):
+                    merged_factor = group_factor.multiply(merged_factor)
+                else:
+                    disjoint_factors.append(group_factor)
+            merged_factors = disjoint_factors + [merged_factor]
         self.factors = merged_factors
 
     def reduce(self, vrs, values):
-- 
2.43.0


From 454a177b3aa8d43e62e49dfac3cdd4e1e147f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 23/28] fix: ClusterGraph.get_posterior_joint supports message
 paths along which no message has been passed

---
 veroku/cluster_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index f642083..d452baf 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -477,7 +477,11 @@ class ClusterGraph:
         """
         The factors of the messages passed in the last iteration of message passing.
         """
-        return [gmp.previously_sent_message.factor for gmp in self.graph_message_paths]
+        return [
+            gmp.previously_sent_message.factor
+            for gmp in self.graph_message_paths
+            if gmp.previously_sent_message is not None
+        ]
 
     def make_message_passing_animation_gif(self, filename="graph_animation.gif"):
         """
-- 
2.43.0


From fae54aac4bb34c4154ef7dc22efc600a83b17517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 24/28] fix: ClusterGraph.get_marginal supports single variable
 names longer than one character

---
 veroku/cluster_graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index d452baf..509ad36 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -383,6 +383,8 @@ class ClusterGraph:
         :return: The marginal
         :rtype: Factor child
         """
+        if isinstance(vrs, str):
+            vrs = [vrs]
         for cluster in self._clusters:
             if set(vrs) <= set(cluster.var_names):
                 factor = cluster.factor
-- 
2.43.0


From 5075d78304647579a86403f30af9436aa7af4374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 25/28] fix: NonLinearGaussian joint can be computed when all
 conditioning variables are observed

---
 .../experimental/nonlinear_gaussian.py        | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 035e1bf..d0bb66a 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -254,27 +254,38 @@ class NonLinearGaussian(Factor):
 
         # If we are still here, there we can calculate the transformation.
         conditioning_factor_sigma_points_array = np.expand_dims(np.array([]), axis=0).T  # empty dummy for generalisation
+        conditioning_unobserved_vars = []
+        conditioning_log_weight = 0.0
         if self.conditioning_factor is not None:
             conditioning_factor = self.conditioning_factor.copy()
             cond_factor_observed_vars = list(set(observed_vars).intersection(conditioning_factor.var_names))
             cond_factor_observed_values = [self.observed_evidence[var] for var in cond_factor_observed_vars]
 
-            if len(cond_factor_observed_vars) > 0:
-                conditioning_factor = conditioning_factor.reduce(
-                    vrs=cond_factor_observed_vars, values=cond_factor_observed_values
+            if set(cond_factor_observed_vars) == set(conditioning_factor.var_names):
+                conditioning_log_weight = conditioning_factor.log_potential(
+                    x_val=cond_factor_observed_values, vrs=cond_factor_observed_vars
                 )
-
-            conditioning_factor_sigma_points_array = get_sigma_points_array(conditioning_factor)
+            else:
+                if len(cond_factor_observed_vars) > 0:
+                    conditioning_factor = conditioning_factor.reduce(
+                        vrs=cond_factor_observed_vars, values=cond_factor_observed_values
+                    )
+                conditioning_factor_sigma_points_array = get_sigma_points_array(conditioning_factor)
+                conditioning_unobserved_vars = conditioning_factor.var_names
+                conditioning_log_weight = conditioning_factor.get_log_weight()
 
         # extend sigma points with observed variable values
         if len(conditioning_observed_vars) > 0:
             observed_vec = _factor_utils.make_column_vector(conditioning_observed_values)
-            tiled_observed_vec = np.tile(observed_vec, [1, conditioning_factor_sigma_points_array.shape[1]])
-            extended_sigma_points_array = np.concatenate([tiled_observed_vec, conditioning_factor_sigma_points_array])
-            extended_sigma_point_vars = conditioning_observed_vars + conditioning_factor.var_names
+            extended_sigma_points_array = np.tile(observed_vec, [1, conditioning_factor_sigma_points_array.shape[1]])
+            if conditioning_unobserved_vars:
+                extended_sigma_points_array = np.concatenate(
+                    [extended_sigma_points_array, conditioning_factor_sigma_points_array]
+                )
+            extended_sigma_point_vars = conditioning_observed_vars + conditioning_unobserved_vars
         else:
             extended_sigma_points_array = conditioning_factor_sigma_points_array
-            extended_sigma_point_vars = conditioning_factor.var_names
+            extended_sigma_point_vars = conditioning_unobserved_vars
 
         # TODO: Add conditional var_names here somehow. We need to ensure that the correct variables are used
         # in the correct place in the transformation. In the past, we have simply done this by standardising
@@ -289,12 +300,12 @@ class NonLinearGaussian(Factor):
         nov = len(conditioning_observed_vars)  # number of observed vars
         joint_cov = joint_cov[nov:, nov:]
         joint_mean = joint_mean[nov:, :]
-        joint_var_names = conditioning_factor.var_names + self.conditional_vars
+        joint_var_names = conditioning_unobserved_vars + self.conditional_vars
 
         joint_cov_plus_noise, joint_vars = indexed_square_matrix_operation(
             joint_cov, self.noise_cov, joint_var_names, self.conditional_vars, operator.add
         )
-        joint_log_weight = self.log_weight + conditioning_factor.log_weight
+        joint_log_weight = self.log_weight + conditioning_log_weight
         self._joint_distribution = Gaussian(cov=joint_cov_plus_noise,
                                             mean=joint_mean,
                                             log_weight=joint_log_weight,
-- 
2.43.0


From 7483a64f7cd05335f8365ae42288eecdfa760fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 26/28] fix: NonLinearGaussian.divide can remove the complete
 conditioning factor

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index d0bb66a..799edbd 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -395,6 +395,8 @@ class NonLinearGaussian(Factor):
             if self_copy.conditioning_factor is None:
                 raise NotImplementedError()
             self_copy.conditioning_factor = self_copy.conditioning_factor.divide(factor)
+            if self_copy.conditioning_factor._is_vacuous:
+                self_copy.conditioning_factor = None
         else:
             raise ValueError(
                 f"cannot cancel factor with scope ({factor.var_names}) \n "
-- 
2.43.0


From 39bc02241bc161ccfbb56570ef841c9915e6ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 27/28] fix: sparse categorical operations support disjoint
 scopes when all assignments need to be compared

---
 veroku/factors/sparse_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index dbfedb5..8781187 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -62,7 +62,7 @@ def _make_dense_default_probs_dict(cardinalities, default_value):
         (1,2):0.0}
     """
     dense_assingments = itertools.product(*[range(c) for c in cardinalities])
-    dense_default_dict = dict(zip(dense_assingments, [default_value] * np.product(cardinalities)))
+    dense_default_dict = {assignment: default_value for assignment in dense_assingments}
     return dense_default_dict
 
 
-- 
2.43.0


From 4e22b4643bc7ba2394a35c3ad9a2ba41dfaa3c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 28/28] fix: recolouring a graph edge or node only accepts
 lines of that edge or node

---
 veroku/_cg_helpers/_animation.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/veroku/_cg_helpers/_animation.py b/veroku/_cg_helpers/_animation.py
index 2d67603..0ff4234 100644
--- a/veroku/_cg_helpers/_animation.py
+++ b/veroku/_cg_helpers/_animation.py
@@ -112,16 +112,14 @@ def change_graph_edge_color(graph, node_a_name, node_b_name, new_color):
     edge_found = False
     for i, string_i in enumerate(graph.body):
         if "--" in string_i:
-            if contains_non_overlapping_substrings(node_a_name, node_b_name, string_i):
-                pattern = f'(\\t?"?{node_a_name}"?\s--\s"?{node_b_name}"?\s\[.*color=)([\S]*\s)(.*)'
-                new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
-                # TODO: improve this (it's a bit hacky)
-                if new_string_i == string_i:
-                    pattern = f'(\\t?"?{node_b_name}"?\s--\s"?{node_a_name}"?\s\[.*color=)([\S]*\s)(.*)'
-                    new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
-
-                graph.body[i] = new_string_i
-                edge_found = True
+            name_a, name_b = re.escape(node_a_name), re.escape(node_b_name)
+            for edge in (f'\\t?"?{name_a}"?\\s--\\s"?{name_b}"?', f'\\t?"?{name_b}"?\\s--\\s"?{name_a}"?'):
+                if re.match(edge + r"(\s|$)", string_i):
+                    graph.body[i] = re.sub(
+                        f"({edge}\\s\\[.*color=)([\\S]*\\s)(.*)", f"\\g<1>{new_color} \\g<3>", string_i
+                    )
+                    edge_found = True
+                    break
     if not edge_found:
         raise ValueError(f"no edge between node {node_a_name} and node {node_b_name} in graph.")
 
@@ -138,9 +136,10 @@ def change_graph_node_color(graph, node_name, new_color):
     node_found = False
     for i, element_string in enumerate(graph.body):
         if "--" not in element_string:  # not edge
-            if node_name in element_string:
+            node = f'\\t?"?{re.escape(node_name)}"?'
+            if re.match(node + r"(\s|$)", element_string):
                 graph.body[i] = re.sub(
-                    f'(\\t?"?{node_name}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
+                    f"({node}\\s\\[.*fillcolor=)([\\S]*\\s)(.*)", f"\\g<1>{new_color} \\g<3>", element_string
                 )
                 node_found = True
     if not node_found:
-- 
2.43.0

