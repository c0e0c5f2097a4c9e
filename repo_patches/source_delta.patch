From bed45b8a4c0e8e2faff221a4331d5a86affe63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 01/63] fix: Categorical.marginalize orders the tensor axes
 like the kept variables and keeps singleton variables

---
 veroku/factors/categorical.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index e4c8a17..2648a00 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -278,8 +278,13 @@ class Categorical(Factor):
         vars_to_sum_out = [v for v in self.var_names if v not in vars_to_keep]
         indices_to_sum_out = [self.var_names.index(v) for v in vars_to_sum_out]
         result_tensor = np.apply_over_axes(special.logsumexp, self.log_probs_tensor, axes=indices_to_sum_out)
+        # apply_over_axes keeps the summed out axes (as singleton axes): remove only these ones and then put the remaining
+        # axes in the order of vars_to_keep.
+        result_tensor = np.squeeze(result_tensor, axis=tuple(indices_to_sum_out))
+        remaining_vars = [v for v in self.var_names if v in vars_to_keep]
+        result_tensor = result_tensor.transpose([remaining_vars.index(v) for v in vars_to_keep])
         vars_to_keep_assignment_values = [self.vars_assignments_names_dict[var] for var in vars_to_keep]
-        return Categorical(var_names=vars_to_keep, log_probs_tensor=np.squeeze(result_tensor),
+        return Categorical(var_names=vars_to_keep, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_to_keep_assignment_values)
 
     def reduce(self, vrs, values):
-- 
2.43.0


From be4979f9ce8e9f0500f38f86d4b1250431d4cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 02/63] fix: Categorical.cancel aligns the two tensors before
 applying the 0/0 rule

---
 veroku/factors/categorical.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 2648a00..72bb1ef 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -361,17 +361,16 @@ class Categorical(Factor):
         :return: The factor quotient.
         :rtype: Categorical
         """
-        augmented_factor_tensor = factor.log_probs_tensor.copy()
-        special_case_indices = np.where(
-            (augmented_factor_tensor == -np.inf) & (self.log_probs_tensor == -np.inf)
-        )
+        if not isinstance(factor, Categorical):
+            raise TypeError(f"factor must be of Categorical type but has type {type(factor)}")
+        self._assert_consistent_cardinalities(factor)
 
-        indices_are_empty = [a.size == 0 for a in special_case_indices]
+        def special_subtract(tensor_a, tensor_b):
+            both_zero_prob = (tensor_a == -np.inf) & (tensor_b == -np.inf)
+            return tensor_a - np.where(both_zero_prob, 0.0, tensor_b)
 
-        if not all(indices_are_empty):
-            augmented_factor_tensor[special_case_indices] = np.float64(0.0)
         result_tensor, result_vars = self.tensor_operation(
-            self.log_probs_tensor, augmented_factor_tensor, self.var_names, factor.var_names, operator.sub
+            self.log_probs_tensor, factor.log_probs_tensor, self.var_names, factor.var_names, special_subtract
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-- 
2.43.0


From f41057f4c54eb53959ca61f39aaa450560e1e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 03/63] fix: Categorical divide and cancel accept a divisor
 with variables that the dividend does not have

---
 veroku/factors/categorical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 72bb1ef..0160677 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -374,7 +374,8 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
+        vars_assignments_names_union_dict = {**self.vars_assignments_names_dict, **factor.vars_assignments_names_dict}
+        vars_assignment_names = [vars_assignments_names_union_dict[var] for var in
                                   result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
@@ -396,7 +397,8 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
+        vars_assignments_names_union_dict = {**self.vars_assignments_names_dict, **factor.vars_assignments_names_dict}
+        vars_assignment_names = [vars_assignments_names_union_dict[var] for var in
                                   result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
-- 
2.43.0


From 7d82889bebace07218b99b5aa35ae48f2e092fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 04/63] fix: SparseCategorical.potential uses the given
 variable order and the default value of missing assignments

---
 veroku/factors/sparse_categorical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 8973f89..ee38247 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -830,9 +830,9 @@ class SparseCategorical(Factor):
         :return: The value
         """
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
-        vrs_to_var_names_indices = [self.var_names.index(v) for v in vrs]
-        var_names_order_assignments = tuple([assignment[i] for i in vrs_to_var_names_indices])
-        return np.exp(self.log_probs_table[var_names_order_assignments])
+        obs_dict = dict(zip(vrs, assignment))
+        var_names_order_assignments = tuple([obs_dict[v] for v in self.var_names])
+        return np.exp(self.log_probs_table.get(var_names_order_assignments, self.default_log_prob))
 
     @property
     def dense_distribution_array(self):
-- 
2.43.0


From 2952fdf25e911fccab2eb730ca12f7ab78498726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 05/63] fix: SparseCategorical.reduce handles evidence without
 table entries and keeps the default value

---
 veroku/factors/sparse_categorical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index ee38247..0ed1dde 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -556,14 +556,16 @@ class SparseCategorical(Factor):
             old_variable_order=self.var_names,
             old_assign_probs=self.log_probs_table,
         )
-        lp_table = nested_table[tuple(values)]
+        # If the observed values are not in the table, all the remaining assignments have the default value.
+        lp_table = nested_table.get(tuple(values), dict())
         result_var_cards = copy.deepcopy(self.var_cards)
         for var in vrs:
             del result_var_cards[var]
 
         cards = list(result_var_cards.values())
         var_names = vars_unobserved
-        resulting_factor = SparseCategorical(var_names=var_names, log_probs_table=lp_table, cardinalities=cards)
+        resulting_factor = SparseCategorical(var_names=var_names, log_probs_table=lp_table, cardinalities=cards,
+                                             default_log_prob=self.default_log_prob)
 
         return resulting_factor
 
-- 
2.43.0


From 59595656b10d70e38b8f8ad31d25266b0a4165d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 06/63] fix: SparseCategorical.reorder keeps the default value
 and rejects other variable sets

---
 veroku/factors/sparse_categorical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 0ed1dde..33d3813 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -912,6 +912,8 @@ class SparseCategorical(Factor):
             1 0  pa1b0            1 0  pa0b1
             1 1  pa1b1            1 1  pa1b1
         """
+        if set(new_var_names_order) != set(self.var_names):
+            raise ValueError("The new_var_names_order set must be the same as the factor variables.")
         new_order_indices = [self.var_names.index(var) for var in new_var_names_order]
         new_log_probs_table = dict()
         for assignment, value in self.log_probs_table.items():
@@ -923,6 +925,7 @@ class SparseCategorical(Factor):
             var_names=new_var_names_order,
             log_probs_table=new_log_probs_table,
             cardinalities=reordered_cardinalities,
+            default_log_prob=self.default_log_prob,
         )
 
 
-- 
2.43.0


From 2051a321071799711a17bd18e3e3140e8fb4d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 07/63] fix: SparseCategorical operations take a non-zero
 default probability into account

---
 veroku/factors/sparse_categorical.py | 37 ++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 33d3813..a4da1a1 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -38,6 +38,22 @@ def _make_dense(factor):
     return factor_copy
 
 
+def _make_zero_default(factor):
+    """
+    Get an equivalent factor in which all assignments that are not in the table have zero probability.
+
+    :param factor: The factor to convert.
+    :type factor: SparseCategorical
+    :return: The factor itself, if it already has this form, otherwise an equivalent dense factor.
+    :rtype: SparseCategorical
+    """
+    if factor.default_log_prob == -np.inf:
+        return factor
+    dense_factor = _make_dense(factor)
+    dense_factor.default_log_prob = -np.inf
+    return dense_factor
+
+
 def _make_dense_default_probs_dict(cardinalities, default_value):
     """
     Make a dictionary representing a categorical probability table that contains all assignments, as specified by the
@@ -520,7 +536,7 @@ class SparseCategorical(Factor):
             new_variables_order_outer=vars_to_keep,
             new_variables_order_inner=vars_to_sum_out,
             old_variable_order=self.var_names,
-            old_assign_probs=self.log_probs_table,
+            old_assign_probs=_make_zero_default(self).log_probs_table,
         )
         result_table = dict()
         for l1_assign, log_probs_table in nested_table.items():
@@ -591,7 +607,9 @@ class SparseCategorical(Factor):
         """
         if not isinstance(factor, SparseCategorical):
             raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
-        return self._apply_binary_operator(factor, operator.add, default_rules="any")
+        # The 'any' rule only holds for zero probability default values.
+        return _make_zero_default(self)._apply_binary_operator(
+            _make_zero_default(factor), operator.add, default_rules="any")
 
     def cancel(self, factor):
         """
@@ -608,7 +626,11 @@ class SparseCategorical(Factor):
                 return -np.inf
             return val_a - val_b
 
-        return self._apply_binary_operator(factor, special_divide, default_rules="any")
+        if not isinstance(factor, SparseCategorical):
+            raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
+        # The 'any' rule only holds for zero probability default values.
+        return _make_zero_default(self)._apply_binary_operator(
+            _make_zero_default(factor), special_divide, default_rules="any")
 
     def divide(self, factor):
         """
@@ -628,7 +650,7 @@ class SparseCategorical(Factor):
         :return: The argmax assignment.
         :rtype: int list
         """
-        return max(self.log_probs_table.items(), key=operator.itemgetter(1))[0]
+        return max(_make_zero_default(self).log_probs_table.items(), key=operator.itemgetter(1))[0]
 
     def _apply_to_probs(self, func, include_assignment=False):
         """
@@ -733,7 +755,7 @@ class SparseCategorical(Factor):
         :rtype: SparseCategorical
         """
 
-        factor_copy = self.copy()
+        factor_copy = _make_zero_default(self).copy()
         logz = special.logsumexp(list(factor_copy.log_probs_table.values()))
         for assign, prob in factor_copy.log_probs_table.items():
             factor_copy.log_probs_table[assign] = prob - logz
@@ -796,6 +818,7 @@ class SparseCategorical(Factor):
         log_q = factor
         if normalize_factor:
             log_q = factor.normalize()
+        log_q = _make_zero_default(log_q)
 
         kld = self._raw_kld(log_p, log_q)
 
@@ -817,7 +840,7 @@ class SparseCategorical(Factor):
         :rtype: float
         """
         # make uniform copy
-        uniform_factor = self.copy()
+        uniform_factor = _make_zero_default(self).copy()
         cards = list(uniform_factor.var_cards.values())
         uniform_log_prob = -np.log(np.product(cards))
         uniform_factor._apply_to_probs(lambda x: uniform_log_prob)
@@ -850,7 +873,7 @@ class SparseCategorical(Factor):
         """
         An array containing all the discrete assignments and the corresponding probabilities.
         """
-        log_weight = special.logsumexp(list(self.log_probs_table.values()))
+        log_weight = special.logsumexp(list(_make_zero_default(self).log_probs_table.values()))
         weight_ = np.exp(log_weight)
         return weight_
 
-- 
2.43.0


From 5f1cdb9022441250fa699501f2b8564f3cf0d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 08/63] fix: SparseCategorical.divide does not give a complete
 table an undefined default value

---
 veroku/factors/sparse_categorical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index a4da1a1..5bb6667 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -739,6 +739,9 @@ class SparseCategorical(Factor):
 
         result_cardinalities = [result_var_cards[v] for v in result_var_names]
         result_default_log_prob = operator_function(default_log_prob, default_log_prob)
+        if len(flattened_result_table) == np.prod(result_cardinalities):
+            # No assignment is left to the default value (which can be undefined: -inf - (-inf)).
+            result_default_log_prob = default_log_prob
         resulting_factor = SparseCategorical(
             var_names=result_var_names,
             log_probs_table=flattened_result_table,
-- 
2.43.0


From c1423f8d4669036589ffda54695a7ca6eb6716b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 09/63] fix: Categorical and SparseCategorical factors with
 different cardinalities are not equal

---
 veroku/factors/categorical.py        | 2 ++
 veroku/factors/sparse_categorical.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 0160677..80c5ab5 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -198,6 +198,8 @@ class Categorical(Factor):
             raise TypeError(f"factor must be of Categorical type but has type {type(factor)}")
         if set(self.var_names) != set(factor.var_names):
             return False
+        if self.var_cards != factor.var_cards:
+            return False
         factor_copy = factor.reorder(self.var_names)
         if not np.allclose(self.log_probs_tensor, factor_copy.log_probs_tensor, rtol=rtol, atol=atol):
             return False
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 5bb6667..d8f7231 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -485,6 +485,8 @@ class SparseCategorical(Factor):
 
         if set(self.var_names) != set(factor_.var_names):
             return False
+        if self.var_cards != factor_.var_cards:
+            return False
 
         # var sets are the same
         if self.var_names != factor.var_names:
-- 
2.43.0


From f1045558a61b2a19e1b0504006561284cb8b577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 10/63] fix: Gaussian.reduce supports the observation of all
 the variables

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 713a8c8..d2f45a0 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -659,8 +659,8 @@ class Gaussian(Factor):
         """
         prec = self.get_prec()
         h_vec = self.get_h()
-        prec_reduced = 0
-        h_reduced = 0
+        prec_reduced = np.zeros([0, 0])
+        h_reduced = np.zeros([0, 1])
         if unobserved_indices:
             prec_xx = prec[np.ix_(unobserved_indices, unobserved_indices)]
             prec_reduced = prec_xx.copy()
-- 
2.43.0


From 08a8e6c641a08a1854cae523e311bef619ba1271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 11/63] fix: Gaussian.equals does not reorder its argument and
 kl_divergence aligns the variable orders

---
 veroku/factors/gaussian.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index d2f45a0..c678d37 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -313,12 +313,12 @@ class Gaussian(Factor):
         if gaussian_copy._is_vacuous and self._is_vacuous:
             return True
         if self.canform:
-            if self._canform_equals(factor, rtol, atol):
+            if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
             return False
         self._update_covform()
         if self.covform:
-            if not self._covform_equals(factor, rtol, atol):
+            if not self._covform_equals(gaussian_copy, rtol, atol):
                 return False
         return True
 
@@ -742,6 +742,9 @@ class Gaussian(Factor):
         factor_ = factor
         if normalize_factor:
             factor_ = factor.normalize()
+        if factor_.var_names != normalized_self.var_names:
+            factor_ = factor_.copy()
+            factor_._reorder_parameters(normalized_self.var_names)
         inv_cov_q = factor_.get_prec()
         inv_cov_p = normalized_self.get_prec()
         cov_p = normalized_self.get_cov()
-- 
2.43.0


From 100be9ef65968d644b59e0c485594251edac05fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 12/63] fix: linear Gaussian factors and templates support
 non-square matrices and keep the weight

---
 veroku/factors/gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index c678d37..a0e7748 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -98,7 +98,7 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
     prec_cpd = prec_joint.copy()
     prec_cpd[:x_dim, :x_dim] = prec_cpd[:x_dim, :x_dim] - prec_xx
 
-    mean_joint = np.block([[u_x], [a_mat.T @ u_x]])
+    mean_joint = np.block([[u_x], [a_mat @ u_x]])
 
     h_cpd = prec_joint @ mean_joint
     h_cpd[:x_dim] = h_cpd[:x_dim] - h_x
@@ -123,11 +123,11 @@ def make_linear_gaussian_cpd_template(a_mat, n_mat, conditioning_var_templates,
     :return: The linear Gaussian Template
     :rtype: Gaussian
     """
-    assert len(conditioning_var_templates) == a_mat.shape[0]
+    assert len(conditioning_var_templates) == a_mat.shape[1]
     assert n_mat.shape[0] == a_mat.shape[0]
     nlg = make_linear_gaussian(a_mat, n_mat, conditioning_var_templates, conditional_var_templates)
     var_templates = conditioning_var_templates + conditional_var_templates
-    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": 0}
+    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": nlg.get_g()}
     return GaussianTemplate(gaussian_parameters, var_templates)
 
 
-- 
2.43.0


From 72cdbd5447c4a199a13c9b9d6f0946c8d995dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 13/63] fix: GaussianTemplate factors are only vacuous if their
 parameters are

---
 veroku/factors/gaussian.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index a0e7748..95cefc2 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1082,7 +1082,4 @@ class GaussianTemplate(FactorTemplate):
         if format_dict is not None:
             assert var_names is None
             var_names = [vt.format(**format_dict) for vt in self._var_templates]
-        # TODO: remove this and find better solution
-        g_val = Gaussian(prec=self.prec.copy(), h_vec=self.h_vec.copy(), g_val=self.g_val, var_names=var_names)
-        g_val._is_vacuous = True
-        return g_val
+        return Gaussian(prec=self.prec.copy(), h_vec=self.h_vec.copy(), g_val=self.g_val, var_names=var_names)
-- 
2.43.0


From fba5138edddda1970ee74dec4a9aac1ee98c2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 14/63] fix: Gaussian representation of factors without a
 covariance form

---
 veroku/factors/gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 95cefc2..cfff092 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -916,9 +916,9 @@ class Gaussian(Factor):
         np.set_printoptions(precision=4)
         np.core.arrayprint._line_width = 200
         repr_str = "vars = " + str(self.var_names) + "\n"
-        if not self._is_vacuous:
-            repr_str += self._get_can_repr_str()
-        repr_str += self._get_cov_repr_str()
+        repr_str += self._get_can_repr_str()
+        if not self._is_vacuous and self._cov_exists():
+            repr_str += self._get_cov_repr_str()
         return repr_str
 
     def show(self):
-- 
2.43.0


From faf6cbb13ed4cdba51a824880d2b666d5aec67c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 15/63] fix: GaussianMixture.argmax passes one-dimensional
 start points to the optimiser

---
 veroku/factors/experimental/gaussian_mixture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 272b35a..88719d5 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -477,7 +477,7 @@ class GaussianMixture(Factor):
 
         for comp in self.components:
             res = minimize(neg_gmm_log_pot,
-                           x0=comp.get_mean(),
+                           x0=comp.get_mean().ravel(),
                            method=self.optimization_alg,
                            options={"disp": False})
             x_local_max = res.x
@@ -507,7 +507,7 @@ class GaussianMixture(Factor):
             return self.potential(x_vals)
 
         for comp in self.components:
-            res = minimize(gmm_pot, x0=comp.get_mean(), method="BFGS", options={"disp": False})
+            res = minimize(gmm_pot, x0=comp.get_mean().ravel(), method="BFGS", options={"disp": False})
             x_local_min = res.x
             if res.success:
                 success = True
-- 
2.43.0


From d1b29315879048ab78debf6241e090f1a9f84129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 16/63] fix: GaussianMixture.equals matches every component
 once, in any order, with the given tolerances

---
 veroku/factors/experimental/gaussian_mixture.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 88719d5..3014ad8 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -104,12 +104,13 @@ class GaussianMixture(Factor):
             raise TypeError(f"factor must be of GaussianMixture type but has type {type(factor)}")
         if factor.num_components != self.num_components:
             return False
-        for i in range(self.num_components):
-            found_corresponding_factor = False
-            for j in range(i, self.num_components):
-                if self.get_component(i).equals(factor.get_component(j)):
-                    found_corresponding_factor = True
-            if not found_corresponding_factor:
+        unmatched_components = list(factor.components)
+        for component in self.components:
+            for j, other_component in enumerate(unmatched_components):
+                if component.equals(other_component, rtol=rtol, atol=atol):
+                    del unmatched_components[j]
+                    break
+            else:
                 return False
         return True
 
-- 
2.43.0


From 8378fa9fbe6be3bb12227d780e158791e983d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 17/63] fix: GaussianMixture operations keep the cancel_method

---
 veroku/factors/experimental/gaussian_mixture.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 3014ad8..bc56d21 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -135,7 +135,7 @@ class GaussianMixture(Factor):
         component_copies = []
         for comp in self.components:
             component_copies.append(comp.copy())
-        return GaussianMixture(component_copies)
+        return GaussianMixture(component_copies, cancel_method=self.cancel_method)
 
     def multiply(self, factor):
         """
@@ -156,7 +156,7 @@ class GaussianMixture(Factor):
                     new_components.append(comp_ai.multiply(comp_bi))
         else:
             raise TypeError("unsupported factor type.")
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def divide(self, factor):
         """
@@ -185,7 +185,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.divide(single_gaussian))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def reduce(self, vrs, values):
         """
@@ -201,7 +201,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.reduce(vrs, values))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def marginalize(self, vrs, keep=True):
         """
@@ -217,7 +217,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.marginalize(vrs, keep))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def distance_from_vacuous(self):
         """
@@ -338,7 +338,7 @@ class GaussianMixture(Factor):
             comp_copy = comp.copy()
             comp_copy._add_log_weight(-1.0 * unnormalized_log_weight)
             new_components.append(comp_copy)
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     @property
     def is_vacuous(self):
-- 
2.43.0


From 97a80d9c047b260814e2c0dc668795c4c8daf572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 18/63] fix: FactorizedFactor multiply and divide update the
 scope and copy the given factor

---
 veroku/factors/experimental/factorised_factor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 8245670..9947b45 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -77,7 +77,7 @@ class FactorizedFactor(Factor):
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].multiply(factor)
         else:
-            factorised_factor_copy.factors.append(factor)
+            return FactorizedFactor(self.factors + [factor])
         return factorised_factor_copy
 
     def divide(self, factor):
@@ -94,8 +94,7 @@ class FactorizedFactor(Factor):
         for i, factorised_comp in enumerate(self.factors):
             if factorised_comp.equals(factor):
                 if len(self.factors) > 1:
-                    del factorised_factor_copy.factors[i]
-                    return factorised_factor_copy
+                    return FactorizedFactor(self.factors[:i] + self.factors[i + 1:])
                 # TODO: add else to make general vacuous factor (wont necessarily be Gaussian)
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].divide(factor)
-- 
2.43.0


From 89a9c15e8b5a8c63f7844f5b92572f343f0a1df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 19/63] fix: FactorizedFactor.marginalize merges all factors
 that are connected by the integrated variables

---
 .../factors/experimental/factorised_factor.py | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 9947b45..565a672 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -252,25 +252,19 @@ class FactorizedFactor(Factor):
         :param vrs_set: The common scope variables to be considered to determine 'dependent' factors.
         :type vrs_set: str list
         """
-        observed_factor_vars_list = []
-
+        groups = []
         for factor in self.factors:
-            observed_factor_vars = set(factor.var_names).intersection(vrs_set)
-            observed_factor_vars_list.append(observed_factor_vars)
-
-        merged_factors = []
-        merged_factors_indices = []
-        for i, observed_factor_i_vars in enumerate(observed_factor_vars_list):
-            if i not in merged_factors_indices:
-                merged_factor = self.factors[i]
-                for j in range(i + 1, len(observed_factor_vars_list)):
-                    observed_factor_j_vars = observed_factor_vars_list[j]
-                    if j not in merged_factors_indices:
-                        if len(observed_factor_i_vars.intersection(observed_factor_j_vars)) > 0:
-                            merged_factor = merged_factor.multiply(self.factors[j])
-                            merged_factors_indices.append(j)
-                merged_factors.append(merged_factor)
-        self.factors = merged_factors
+            group_vars = set(factor.var_names).intersection(vrs_set)
+            group_factor = factor
+            other_groups = []
+            for other_vars, other_factor in groups:
+                if group_vars.intersection(other_vars):
+                    group_vars = group_vars.union(other_vars)
+                    group_factor = other_factor.multiply(group_factor)
+                else:
+                    other_groups.append((other_vars, other_factor))
+            groups = other_groups + [(group_vars, group_factor)]
+        self.factors = [factor for _, factor in groups]
 
     def reduce(self, vrs, values):
         """
-- 
2.43.0


From c48a81f5eb031b856475fad2764ac4ca119eab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 20/63] fix: FactorizedFactor.normalize merges dependent
 factors

---
 .../factors/experimental/factorised_factor.py  | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 565a672..fa4be40 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -157,8 +157,7 @@ class FactorizedFactor(Factor):
 
         :return: The normalized factor.
         """
-        factor_copy = self.copy()
-        factor_copy._merge_dependent_factors()
+        factor_copy = self._merge_dependent_factors()
         for i, factor_i in enumerate(factor_copy.factors):
             factor_copy.factors[i] = factor_i.normalize()
         return factor_copy
@@ -229,18 +228,9 @@ class FactorizedFactor(Factor):
         :rtype: FactorizedFactor
         """
         # TODO: Add tests for this function
-        merged_factors = []
-        already_merged_factor_indices = []
-        for i, factor_i in enumerate(self.factors):
-            factor_i_merged = factor_i.copy()
-            for j in range(i + 1, len(self.factors)):
-                factor_j = self.factors[j]
-                if j not in already_merged_factor_indices:
-                    if set(factor_i.var_names).intersection(set(factor_j.varnames)) > 0:
-                        factor_i_merged = factor_i_merged.multiply(factor_j)
-                        already_merged_factor_indices.append(j)
-            merged_factors.append(factor_i_merged)
-        return FactorizedFactor(merged_factors)
+        factor_copy = self.copy()
+        factor_copy._merge_factors_with_shared_scope(set(self.var_names))
+        return factor_copy
 
     def _merge_factors_with_shared_scope(self, vrs_set):
         """
-- 
2.43.0


From 3100dad61ba99619f85fb059dd5496c4e2632346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 21/63] fix: FactorizedFactor.reduce handles evidence that
 covers any set of factors

---
 veroku/factors/experimental/factorised_factor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index fa4be40..d76872b 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -272,8 +272,9 @@ class FactorizedFactor(Factor):
         additional_log_weight = 0.0
         for factor in self.factors:
             factor_var_names = factor.var_names
-            if set(vrs) == set(factor_var_names):
-                additional_log_weight += factor.log_potential(x_val=values, vrs=vrs)
+            if set(factor_var_names).issubset(vrs):
+                factor_values = [all_evidence_dict[v] for v in factor_var_names]
+                additional_log_weight += factor.log_potential(x_val=factor_values, vrs=factor_var_names)
             elif len(set(vrs).intersection(set(factor_var_names))) > 0:
                 subset_vrs, subset_values = get_subset_evidence(
                     all_evidence_dict=all_evidence_dict, subset_vars=factor.var_names
@@ -282,6 +283,12 @@ class FactorizedFactor(Factor):
                 reduced_factors.append(reduced_factor)
             else:
                 reduced_factors.append(factor.copy())
+        if not reduced_factors:
+            # All the variables are observed: the result is a constant (a factor without variables).
+            factor_vrs, factor_values = get_subset_evidence(all_evidence_dict, self.factors[0].var_names)
+            constant_factor = self.factors[0].reduce(factor_vrs, factor_values)
+            additional_log_weight -= constant_factor.get_log_weight()
+            reduced_factors.append(constant_factor)
         adjusted_weight_factor_0 = reduced_factors[0]
         adjusted_weight_factor_0._add_log_weight(additional_log_weight)
         reduced_factors[0] = adjusted_weight_factor_0
-- 
2.43.0


From ba9856784d64c7cc0c4fbfc87c41acc475579c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 22/63] fix: FactorizedFactor.equals is symmetric and compares
 the represented functions

---
 .../factors/experimental/factorised_factor.py | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index d76872b..24e2c02 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -337,21 +337,19 @@ class FactorizedFactor(Factor):
         """
         if not isinstance(factor, FactorizedFactor):
             # TODO: find a better solution here
-            return self.equals(FactorizedFactor([factor]))
+            return self.equals(FactorizedFactor([factor]), rtol=rtol, atol=atol)
         if set(factor.var_names) != set(self.var_names):
             return False
-        if len(self.factors) != len(factor.factors):
-            return self.joint_distribution.equals(factor.joint_distribution)
-
-        self_comps_with_cpoies_in_factor = []
-        for i, self_factor_i in enumerate(self.factors):
-            if i not in self_comps_with_cpoies_in_factor:
-                for other_factor_j in factor.factors:
-                    if self_factor_i.equals(other_factor_j):
-                        self_comps_with_cpoies_in_factor.append(i)
-        if len(self_comps_with_cpoies_in_factor) == len(self.factors):
-            return True
-        return False
+        if len(self.factors) == len(factor.factors):
+            unmatched_factors = list(factor.factors)
+            for self_factor in self.factors:
+                for j, other_factor in enumerate(unmatched_factors):
+                    if self_factor.equals(other_factor, rtol=rtol, atol=atol):
+                        del unmatched_factors[j]
+                        break
+            if not unmatched_factors:
+                return True
+        return self.joint_distribution.equals(factor.joint_distribution, rtol=rtol, atol=atol)
 
     def show(self):
         """
-- 
2.43.0


From 93a8aef5698fba8ada197898cbbf2c9211a10429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 23/63] fix: FactorizedFactor.show enumerates the factors

---
 veroku/factors/experimental/factorised_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 24e2c02..546ffe8 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -355,6 +355,6 @@ class FactorizedFactor(Factor):
         """
         Print this factorised factor.
         """
-        for i, factor in self.factors:
+        for i, factor in enumerate(self.factors):
             print(f"\n factor {i}/{len(self.factors)}:")
             factor.show()
-- 
2.43.0


From 2d0857490346dfd0905814979bda61091e55aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 24/63] fix: NonLinearGaussian supports observed conditioning
 variables without a conditioning factor

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 035e1bf..6e9b590 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -253,6 +253,8 @@ class NonLinearGaussian(Factor):
             return
 
         # If we are still here, there we can calculate the transformation.
+        # constant factor for the case where all the conditioning variables are observed and there is no factor
+        conditioning_factor = Gaussian(cov=np.zeros([0, 0]), mean=np.zeros([0, 1]), log_weight=0.0, var_names=[])
         conditioning_factor_sigma_points_array = np.expand_dims(np.array([]), axis=0).T  # empty dummy for generalisation
         if self.conditioning_factor is not None:
             conditioning_factor = self.conditioning_factor.copy()
-- 
2.43.0


From 1ef9901bae18f35f414b10d64f404eca769cf949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 25/63] fix: NonLinearGaussian.equals compares up to date joint
 distributions

---
 veroku/factors/experimental/nonlinear_gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 6e9b590..fa770f8 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -101,7 +101,8 @@ class NonLinearGaussian(Factor):
         :return: The result of the comparison.
         :rtype: bool
         """
-        return self._joint_distribution.equals(factor, rtol=rtol, atol=atol)
+        other_joint = factor.joint_distribution if isinstance(factor, NonLinearGaussian) else factor
+        return self.joint_distribution.equals(other_joint, rtol=rtol, atol=atol)
 
     def distance_from_vacuous(self):
         """
-- 
2.43.0


From 06eec3edc6c66870041174cd2623d5a362a7d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 26/63] fix: NonLinearGaussian.divide works before any factor
 was multiplied into the conditional scope

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index fa770f8..25e37ae 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -382,6 +382,8 @@ class NonLinearGaussian(Factor):
             raise ValueError("factor must be Gaussian.")
 
         if set(factor.var_names) <= set(self_copy.conditional_vars):
+            if self_copy.conditional_update_factor is None:
+                self_copy.conditional_update_factor = Gaussian.make_vacuous(factor.var_names)
             self_copy.conditional_update_factor = self_copy.conditional_update_factor.divide(factor)
         elif set(factor.var_names) <= set(self_copy.conditioning_vars):
             if self_copy.conditioning_factor is None:
-- 
2.43.0


From ce503ba030ea0233b2abf761b4a2cbbb3527040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 27/63] fix: NonLinearGaussianMixture multiply accepts
 Gaussians and marginalize returns a GaussianMixture

---
 veroku/factors/experimental/nonlinear_gaussian.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 25e37ae..aaf5b3b 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -555,7 +555,7 @@ class NonLinearGaussianMixture(Factor):
         if isinstance(factor, GaussianMixture):
             gm_factor = factor
         elif isinstance(factor, Gaussian):
-            gm_factor = GaussianMixture([Gaussian])
+            gm_factor = GaussianMixture([factor])
         else:
             raise NotImplementedError()
 
@@ -612,12 +612,12 @@ class NonLinearGaussianMixture(Factor):
         :param vrs: (list) a subset of variables in the factor's scope
         :param keep: Whether to keep or sum out vrs
         :return: the resulting marginal
-        :rtype: NonLinearGaussianMixture
+        :rtype: GaussianMixture
         """
-        new_nlgs = []
+        marginals = []
         for nlg in self.nlgs:
-            new_nlgs.append(nlg.marginalize(vrs, keep))
-        return NonLinearGaussianMixture(new_nlgs)
+            marginals.append(nlg.marginalize(vrs, keep))
+        return GaussianMixture(marginals)
 
     def sample(self, num_samples):
         """
-- 
2.43.0


From 01e7880195530ea5e00ab639768303bfaa8bd046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 28/63] fix: NonLinearGaussianMixture operations keep the
 split_singles_before_absorb option

---
 veroku/factors/experimental/nonlinear_gaussian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index aaf5b3b..1306b98 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -535,7 +535,7 @@ class NonLinearGaussianMixture(Factor):
         :return: the factor
         :rtype: NonLinearGaussianMixture
         """
-        return NonLinearGaussianMixture(self.nlgs)
+        return NonLinearGaussianMixture(self.nlgs, split_singles_before_absorb=self.split_singles_before_absorb)
 
     @property
     def joint_distribution(self):
@@ -569,7 +569,7 @@ class NonLinearGaussianMixture(Factor):
         for gauss in gm_factor.components:
             for nlg in self.nlgs:
                 new_nlgs.append(nlg.multiply(gauss))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, split_singles_before_absorb=self.split_singles_before_absorb)
 
     def divide(self, factor):
         """
@@ -589,7 +589,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.divide(gaussian_factor))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, split_singles_before_absorb=self.split_singles_before_absorb)
 
     def reduce(self, vrs, values):
         """
@@ -603,7 +603,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.reduce(vrs, values))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, split_singles_before_absorb=self.split_singles_before_absorb)
 
     def marginalize(self, vrs, keep=True):
         """
-- 
2.43.0


From 25236ba1d22103f191e10b8f6e2070aaa46c3a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 29/63] fix: NonLinearGaussianMixture.sample draws from the
 mixture

---
 veroku/factors/experimental/nonlinear_gaussian.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 1306b98..a50aa00 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -630,12 +630,7 @@ class NonLinearGaussianMixture(Factor):
         :rtype: int
         """
 
-        # TODO: fix incorrect num samples issue
-        sample_sets = []
-        for nlg in self.nlgs:
-            samples = nlg.sample(num_samples)
-            sample_sets.append(samples)
-        return np.concatenate(sample_sets)
+        return self.joint_distribution.sample(num_samples)
 
     def plot(self):
         """
-- 
2.43.0


From 88bcbedc6b3d2acb0c4d01090bb5cf5e3f01a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 30/63] fix: FactorTemplate.formattable handles positional
 fields

---
 veroku/factors/_factor_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/_factor_template.py b/veroku/factors/_factor_template.py
index c33f034..100b214 100644
--- a/veroku/factors/_factor_template.py
+++ b/veroku/factors/_factor_template.py
@@ -51,5 +51,5 @@ class FactorTemplate(ABC):
                 [vt.format(**format_dict) for vt in self._conditional_var_templates]
             return True
         # pylint: enable=expression-not-assigned
-        except KeyError:
+        except (KeyError, IndexError):
             return False
-- 
2.43.0


From 165fa64664555782a26317175becf13b5fb86313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 31/63] fix: Gaussian.kl_divergence of partially vacuous
 Gaussians

---
 veroku/factors/gaussian.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index cfff092..cd92da4 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -371,6 +371,18 @@ class Gaussian(Factor):
             return False
         return True
 
+    def _is_proper(self):
+        """
+        Check if this Gaussian can be normalised (i.e the precision matrix is, numerically, positive definite).
+
+        :return: The result of the check.
+        :rtype: bool
+        """
+        matrix = self.prec if self.canform else self.cov
+        eigenvalues = np.linalg.eigvalsh(0.5 * (matrix + matrix.T))
+        tolerance = self.dim * np.finfo(float).eps * np.max(np.abs(eigenvalues), initial=0.0)
+        return bool(np.all(eigenvalues > tolerance))
+
     def get_cov(self):
         """
         Get the covariance parameter.
@@ -735,6 +747,14 @@ class Gaussian(Factor):
         if self._is_vacuous or factor._is_vacuous:
             return np.inf
 
+        if not (self._is_proper() and factor._is_proper()):
+            # Partially vacuous Gaussians have no mean and covariance. As with vacuous Gaussians, they are either the same
+            # or infinitely far apart.
+            if self.canform and factor.canform and set(self._var_names) == set(factor.var_names):
+                if self._canform_equals(factor.copy(), DEFAULT_FACTOR_RTOL, DEFAULT_FACTOR_ATOL):
+                    return 0.0
+            return np.inf
+
         if self.equals(factor):
             return 0.0
         # TODO: can we compute the correct ('normalised') KL divergence without explicitly normalizing?
-- 
2.43.0


From 4caad93548e7978d1e35ff2a1efe54eebb727246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 32/63] fix: ClusterGraph.get_posterior_joint handles paths
 along which no message was sent

---
 veroku/cluster_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index f642083..d452baf 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -477,7 +477,11 @@ class ClusterGraph:
         """
         The factors of the messages passed in the last iteration of message passing.
         """
-        return [gmp.previously_sent_message.factor for gmp in self.graph_message_paths]
+        return [
+            gmp.previously_sent_message.factor
+            for gmp in self.graph_message_paths
+            if gmp.previously_sent_message is not None
+        ]
 
     def make_message_passing_animation_gif(self, filename="graph_animation.gif"):
         """
-- 
2.43.0


From 6675e7a5fb3e49063d6ecc55f74d38900a99d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 33/63] fix: ClusterGraph.process_graph can be repeated on a
 single cluster with special evidence

---
 veroku/cluster_graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index d452baf..b2d51c3 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -431,8 +431,9 @@ class ClusterGraph:
         if len(self._clusters) == 1:
             # The Cluster Graph contains only single cluster. Message passing not possible or necessary.
             if self.special_evidence:
-                evidence_vrs = list(self.special_evidence.keys())
-                evidence_values = list(self.special_evidence.values())
+                evidence_vrs, evidence_values = get_subset_evidence(
+                    self.special_evidence, self._clusters[0].var_names
+                )
                 self._clusters[0]._factor = self._clusters[0]._factor.reduce(
                     vrs=evidence_vrs, values=evidence_values
                 )
-- 
2.43.0


From 0d02bc2ac2f9870da3ac41d5cf0fb1d99c09a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 34/63] fix: SparseCategorical operations on factors with no
 common variables and implicit default entries

---
 veroku/factors/sparse_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index d8f7231..3cf8a18 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -78,7 +78,7 @@ def _make_dense_default_probs_dict(cardinalities, default_value):
         (1,2):0.0}
     """
     dense_assingments = itertools.product(*[range(c) for c in cardinalities])
-    dense_default_dict = dict(zip(dense_assingments, [default_value] * np.product(cardinalities)))
+    dense_default_dict = {assignment: default_value for assignment in dense_assingments}
     return dense_default_dict
 
 
-- 
2.43.0


From 26f044b9a78477d9400b1b0aa15545534a56fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 35/63] fix: SparseCategorical.equals compares the values of
 the default entries with the given tolerances

---
 veroku/factors/sparse_categorical.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 3cf8a18..aa32612 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -459,8 +459,8 @@ class SparseCategorical(Factor):
         for assign, factor_log_prob in self.log_probs_table.items():
 
             if assign not in factor.log_probs_table:
-                # TODO: make this `not is_close` and simplify this method
-                if factor_log_prob != factor.default_log_prob:
+                # TODO: simplify this method
+                if not np.isclose(factor.default_log_prob, factor_log_prob, rtol=rtol, atol=atol):
                     return False
             else:
                 self_log_prob = factor.log_probs_table[assign]
@@ -502,8 +502,9 @@ class SparseCategorical(Factor):
             return False
 
         # If all possible assignments have not been checked - check that the default values are the same
-        if not self._is_dense() and not factor._is_dense():
-            if self.default_log_prob != factor.default_log_prob:
+        checked_assignments = set(self.log_probs_table).union(factor_.log_probs_table)
+        if len(checked_assignments) < np.prod(self.cardinalities):
+            if not np.isclose(self.default_log_prob, factor.default_log_prob, rtol=rtol, atol=atol):
                 return False
 
         return True
-- 
2.43.0


From 5e72c4db4aaee47dfb45c55b1f15840a5dcb6a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 36/63] fix: Gaussian.equals compares factors without a
 covariance form in canonical form

---
 veroku/factors/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index cd92da4..39a3cd2 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -312,6 +312,9 @@ class Gaussian(Factor):
             gaussian_copy._reorder_parameters(self._var_names)
         if gaussian_copy._is_vacuous and self._is_vacuous:
             return True
+        if not gaussian_copy._cov_exists():
+            # A factor without a covariance form can only be compared in canonical form.
+            self._update_canform()
         if self.canform:
             if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
-- 
2.43.0


From 9a750d906b10bcebce92d91bd51176c2c6965e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 37/63] fix: GaussianMixture.moment_match_to_single_gaussian
 uses normalised weights

---
 .../factors/experimental/gaussian_mixture.py  | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index bc56d21..00ac695 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -442,22 +442,19 @@ class GaussianMixture(Factor):
         :return: The Gaussian approximation.
         :rtype: Gaussian
         """
-        new_mean = np.zeros([self.dim, 1])
-        log_weights = []
-        for comp in self.components:
-            weight_mean = comp.get_weight() * comp.get_mean()
-            new_mean += weight_mean
-            log_weights.append(comp.get_log_weight())
+        log_weights = self._get_log_weights()
         log_sum_weights = special.logsumexp(log_weights)
-        sum_weights = np.exp(log_sum_weights)
-        new_mean = new_mean / sum_weights
+        # the normalised weights cannot overflow or underflow together
+        weights = [np.exp(log_weight - log_sum_weights) for log_weight in log_weights]
+        new_mean = np.zeros([self.dim, 1])
+        for weight, comp in zip(weights, self.components):
+            new_mean += weight * comp.get_mean()
         new_cov = np.zeros([self.dim, self.dim])
-        for comp in self.components:
-            udud_t = comp.get_weight() * (comp.get_mean() - new_mean).dot(
+        for weight, comp in zip(weights, self.components):
+            udud_t = weight * (comp.get_mean() - new_mean).dot(
                 (comp.get_mean() - new_mean).transpose()
             )
-            new_cov += comp.get_weight() * comp.get_cov() + udud_t
-        new_cov = new_cov / sum_weights
+            new_cov += weight * comp.get_cov() + udud_t
         return gauss.Gaussian(
             cov=new_cov, mean=new_mean, log_weight=log_sum_weights, var_names=self.components[0].var_names
         )
-- 
2.43.0


From a6a48cd3abd514a4a643c2a187dbb7ab0e51f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 38/63] fix: GaussianMixture.argmax compares log potentials

---
 veroku/factors/experimental/gaussian_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 00ac695..0543cdf 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -481,7 +481,7 @@ class GaussianMixture(Factor):
             x_local_max = res.x
             if res.success:
                 success = True
-                local_maximum_potential = self.potential(x_local_max)
+                local_maximum_potential = self.log_potential(x_local_max)
                 if local_maximum_potential > global_maximum_potential:
                     global_maximum_potential = local_maximum_potential
                     global_argmax = x_local_max
-- 
2.43.0


From fa5b091d9b46ac7d1d34efaf7e5dde00a3036918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 39/63] fix: Gaussian.marginalize keeps the constant of a
 vacuous factor if nothing is integrated out

---
 veroku/factors/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 39a3cd2..645c1be 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -531,7 +531,7 @@ class Gaussian(Factor):
         """
         vars_to_keep = super().get_marginal_vars(vrs, keep)
         vars_to_integrate_out = list(set(self.var_names) - set(vars_to_keep))
-        if self._is_vacuous:
+        if self._is_vacuous and vars_to_integrate_out:
             # TODO: check this (esp log_weight)
             return Gaussian.make_vacuous(var_names=vars_to_keep)
 
-- 
2.43.0


From 1320724b3ee6708fa91b801750f07f8890e4d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 40/63] fix: NonLinearGaussian passes the points to the
 transform in the order of the conditioning variables

---
 veroku/factors/experimental/nonlinear_gaussian.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index a50aa00..42b18c5 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -282,8 +282,14 @@ class NonLinearGaussian(Factor):
         # TODO: Add conditional var_names here somehow. We need to ensure that the correct variables are used
         # in the correct place in the transformation. In the past, we have simply done this by standardising
         # on the variable indices in different place, but this is probably not very safe.
+        conditioning_indices = [extended_sigma_point_vars.index(var) for var in self.conditioning_vars]
+
+        def transform_ordered(points_array, _):
+            # The transform expects its input in the order of the conditioning variables.
+            return self.transform(points_array[conditioning_indices], self.conditioning_vars)
+
         joint_cov, joint_mean = sigma_points_array_to_joint_params(sigma_points_array=extended_sigma_points_array,
-                                                                   transform=self.transform,
+                                                                   transform=transform_ordered,
                                                                    var_names=extended_sigma_point_vars)
         if (joint_mean.shape[0] != len(self.var_names)) or (joint_cov.shape[0] != len(self.var_names)):
             raise AssertionError("Transform resulted in incorrect number of variables.")
-- 
2.43.0


From 5c2c41fb000b75b4413cc813ccf8a32a4161cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 41/63] fix: splitting a Gaussian keeps its weight

---
 veroku/factors/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 645c1be..c34ad88 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1061,7 +1061,8 @@ class Gaussian(Factor):
 
         gaussians = []
         for mean, cov, weight in zip(means, covs, weights):
-            gaussian = Gaussian(cov=cov, mean=mean, log_weight=np.log(weight), var_names=self.var_names)
+            log_weight = self.get_log_weight() + np.log(weight)
+            gaussian = Gaussian(cov=cov, mean=mean, log_weight=log_weight, var_names=self.var_names)
             gaussians.append(gaussian)
 
         return gm.GaussianMixture(gaussians)
-- 
2.43.0


From da006d068ad4b40dd2b37c04a1175674443a2d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 42/63] fix: Copy the variable names list that a factor is
 constructed with

---
 veroku/factors/_factor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 5b0b621..c0c9fe0 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -22,8 +22,9 @@ class Factor:
         if len(set(var_names)) != len(var_names):
             raise ValueError("duplicate variables in var_names: ", var_names)
 
-        self._var_names = var_names
-        if not isinstance(var_names, list):
+        if isinstance(var_names, list):
+            self._var_names = var_names.copy()
+        else:
             self._var_names = [var_names]
 
         self._dim = len(var_names)
-- 
2.43.0


From 1983ec19be9549b554cc3b54adbef300dce1f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 43/63] fix: Copy the cardinalities that a categorical factor
 is constructed with

---
 veroku/factors/categorical.py        | 2 +-
 veroku/factors/sparse_categorical.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 80c5ab5..957ca4d 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -130,7 +130,7 @@ class Categorical(Factor):
             self.log_probs_tensor = log_probs_tensor.copy()
         # TODO: remove this
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
         if variables_assignment_names is not None:
             assrt_error_msg = f"variables_assignment_names should have same length as var_names" \
                               f" (received {variables_assignment_names} and {var_names})"
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index aa32612..329ee49 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -437,7 +437,7 @@ class SparseCategorical(Factor):
             log_probs_table = {assignment: np.log(prob) for assignment, prob in probs_table.items()}
         self.log_probs_table = _fast_copy_probs_table(log_probs_table)
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
         self.default_log_prob = default_log_prob
 
     # TODO: Improve this to take missing assignments into account. Alternatively: add functionality to sparsify factor
-- 
2.43.0


From 14e4c9d6fa8c389a7e1545c6b7cf0f12d3e41fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 44/63] fix: Copy the parameters and variable templates that
 factor templates are constructed with

---
 veroku/factors/_factor_template.py                | 7 ++++---
 veroku/factors/categorical.py                     | 4 ++--
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 veroku/factors/gaussian.py                        | 4 ++--
 veroku/factors/sparse_categorical.py              | 2 +-
 5 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/veroku/factors/_factor_template.py b/veroku/factors/_factor_template.py
index 100b214..bdd4bb5 100644
--- a/veroku/factors/_factor_template.py
+++ b/veroku/factors/_factor_template.py
@@ -3,6 +3,7 @@ This module contains an abstract parent class, defining the some common default
 """
 
 
+import copy
 from abc import ABC
 
 
@@ -24,15 +25,15 @@ class FactorTemplate(ABC):
         self._conditioning_var_templates = None
         self._conditional_var_templates = None
         if (conditioning_var_templates is None) and (conditional_var_templates is None):
-            self._var_templates = var_templates
+            self._var_templates = copy.copy(var_templates)
         elif (conditioning_var_templates is None) or (conditional_var_templates is None):
             error_msg = (
                 "neither or both of conditioning_var_templates and conditional_var_templates should be None"
             )
             raise ValueError(error_msg)
         else:
-            self._conditioning_var_templates = conditioning_var_templates
-            self._conditional_var_templates = conditional_var_templates
+            self._conditioning_var_templates = copy.copy(conditioning_var_templates)
+            self._conditional_var_templates = copy.copy(conditional_var_templates)
 
     def formattable(self, format_dict):
         """
diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 957ca4d..c95f1dd 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -650,8 +650,8 @@ class CategoricalTemplate(FactorTemplate):
         """
         super().__init__(var_templates=var_templates)
         self.log_probs_tensor = copy.deepcopy(log_probs_tensor)
-        self.cardinalities = cardinalities
-        self.probs_table = probs_table
+        self.cardinalities = copy.copy(cardinalities)
+        self.probs_table = copy.copy(probs_table)
 
     def make_factor(self, format_dict=None, var_names=None):
         """
diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 42b18c5..bd68edf 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -683,7 +683,7 @@ class NonLinearGaussianTemplate(FactorTemplate):
             conditional_var_templates=conditional_var_templates,
         )
         self.transition_function = transition_function
-        self.noise_cov = noise_cov
+        self.noise_cov = copy.copy(noise_cov)
 
     def make_factor(self, format_dict=None, conditioning_vars=None, conditional_vars=None):
         """
diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index c34ad88..2a98598 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1088,8 +1088,8 @@ class GaussianTemplate(FactorTemplate):
         """
 
         super().__init__(var_templates=var_templates)
-        self.prec = gaussian_parameters["prec"]
-        self.h_vec = gaussian_parameters["h"]
+        self.prec = copy.copy(gaussian_parameters["prec"])
+        self.h_vec = copy.copy(gaussian_parameters["h"])
         self.g_val = gaussian_parameters["g"]
 
     def make_factor(self, format_dict=None, var_names=None):
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 329ee49..f762316 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -993,7 +993,7 @@ class SparseCategoricalTemplate(FactorTemplate):
         # TODO: Complete and improve docstring.
         super().__init__(var_templates=var_templates)
         self.probs_table = _fast_copy_probs_table(probs_table)
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
 
     def make_factor(self, format_dict=None, var_names=None):
         """
-- 
2.43.0


From 257f08d61ad5c731c4bada9e68980900644e2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 45/63] fix: Sample from Gaussian mixtures with weights far
 from one

---
 veroku/factors/experimental/gaussian_mixture.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 0543cdf..575a082 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -365,7 +365,9 @@ class GaussianMixture(Factor):
         :return: The samples
         :rtype: float list
         """
-        weights = self._get_weights()
+        log_weights = self._get_log_weights()
+        # the normalised weights cannot overflow or underflow together
+        weights = np.exp(log_weights - special.logsumexp(log_weights))
         component_choice_samples = np.random.choice(
             range(len(weights)), size=num_samples, p=weights / np.sum(weights)
         )
-- 
2.43.0


From 06c7224f0358c2b146c5473450b84ba44372493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 46/63] fix: Recolour only the named elements in cluster graph
 figures

Names with characters that are special in regular expressions were not
found and elements whose name ends with the given name were changed too.
---
 veroku/_cg_helpers/_animation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/veroku/_cg_helpers/_animation.py b/veroku/_cg_helpers/_animation.py
index 2d67603..224fec1 100644
--- a/veroku/_cg_helpers/_animation.py
+++ b/veroku/_cg_helpers/_animation.py
@@ -113,11 +113,12 @@ def change_graph_edge_color(graph, node_a_name, node_b_name, new_color):
     for i, string_i in enumerate(graph.body):
         if "--" in string_i:
             if contains_non_overlapping_substrings(node_a_name, node_b_name, string_i):
-                pattern = f'(\\t?"?{node_a_name}"?\s--\s"?{node_b_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                name_a, name_b = re.escape(node_a_name), re.escape(node_b_name)
+                pattern = f'(^\\t?"?{name_a}"?\s--\s"?{name_b}"?\s\[.*color=)([\S]*\s)(.*)'
                 new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
                 # TODO: improve this (it's a bit hacky)
                 if new_string_i == string_i:
-                    pattern = f'(\\t?"?{node_b_name}"?\s--\s"?{node_a_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                    pattern = f'(^\\t?"?{name_b}"?\s--\s"?{name_a}"?\s\[.*color=)([\S]*\s)(.*)'
                     new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
 
                 graph.body[i] = new_string_i
@@ -140,7 +141,9 @@ def change_graph_node_color(graph, node_name, new_color):
         if "--" not in element_string:  # not edge
             if node_name in element_string:
                 graph.body[i] = re.sub(
-                    f'(\\t?"?{node_name}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
+                    f'(^\\t?"?{re.escape(node_name)}"?\s\[.*fillcolor=)([\S]*\s)(.*)',
+                    f"\g<1>{new_color} \g<3>",
+                    element_string,
                 )
                 node_found = True
     if not node_found:
-- 
2.43.0


From caa1efc7be7affac1c4126a64efe4fcabde86508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 47/63] fix: Raise the documented error if a figure element to
 recolour does not exist

An element whose name contains the given name was enough to hide the error.
---
 veroku/_cg_helpers/_animation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/veroku/_cg_helpers/_animation.py b/veroku/_cg_helpers/_animation.py
index 224fec1..d97828b 100644
--- a/veroku/_cg_helpers/_animation.py
+++ b/veroku/_cg_helpers/_animation.py
@@ -122,7 +122,9 @@ def change_graph_edge_color(graph, node_a_name, node_b_name, new_color):
                     new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
 
                 graph.body[i] = new_string_i
-                edge_found = True
+                end_a, end_b = f'("{name_a}"|{name_a})', f'("{name_b}"|{name_b})'
+                if re.match(f"\t?({end_a}\s--\s{end_b}|{end_b}\s--\s{end_a})(\s\[|$)", string_i):
+                    edge_found = True
     if not edge_found:
         raise ValueError(f"no edge between node {node_a_name} and node {node_b_name} in graph.")
 
@@ -145,7 +147,8 @@ def change_graph_node_color(graph, node_name, new_color):
                     f"\g<1>{new_color} \g<3>",
                     element_string,
                 )
-                node_found = True
+                if re.match(f'\t?("{re.escape(node_name)}"|{re.escape(node_name)})(\s\[|$)', element_string):
+                    node_found = True
     if not node_found:
         raise ValueError(f"cannot change colour of not existing node: no node {node_name} in graph")
 
-- 
2.43.0


From ecd874b581c0c66a5936202479ef8e9c527fa201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 48/63] fix: Categorical.plot of factors without assignment
 names

---
 veroku/factors/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index c95f1dd..72413da 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -595,7 +595,7 @@ class Categorical(Factor):
                 if isinstance(elem, float):
                     processed_assignment_value_name = f"{elem:.2f}"
                 else:
-                    processed_assignment_value_name = elem
+                    processed_assignment_value_name = str(elem)
                 processed_assignment_value_names.append(processed_assignment_value_name)
             x_label = ", ".join(processed_assignment_value_names)
             return x_label
-- 
2.43.0


From 58c4d0a9a1012b20db6f8cee7d4e9c237b6dc2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 49/63] fix: NonLinearGaussian.plot shows the up to date joint
 distribution

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index bd68edf..24e444c 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -495,7 +495,7 @@ class NonLinearGaussian(Factor):
         """
         self_copy = self.copy()
         self_copy._recompute_joint()
-        self._joint_distribution.plot()
+        self_copy._joint_distribution.plot()
 
 
 class NonLinearGaussianMixture(Factor):
-- 
2.43.0


From 385fa56dc54599d4e8be571f7e21b188a3a12ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 50/63] fix: GaussianMixture.plot plots the log potential of
 the mixture

---
 veroku/factors/experimental/gaussian_mixture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 575a082..53bca2b 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -422,6 +422,8 @@ class GaussianMixture(Factor):
                 if show_individual_components:
                     plt.plot(x_series, potx)
                 total_potx += potx
+            if log:  # the log of the sum, not the sum of the logs
+                total_potx = np.array([self.log_potential(xi) for xi in x_series])
             plt.plot(x_series, total_potx)
         elif self.dim == 2:
             self._plot_2d(log=log, xlim=xlim, ylim=ylim)
-- 
2.43.0


From c076d9d38d17cccade3f4a8675bd286be116a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 51/63] fix: Gaussian.show_vis draws the bars before the heat
 map's colour bar

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 2a98598..a2f8545 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -969,9 +969,9 @@ class Gaussian(Factor):
         cov_df = pd.DataFrame(data=self.get_cov(), index=self.var_names, columns=self.var_names)
         mean_df = pd.DataFrame(data=self.get_mean(), index=self.var_names, columns=["var_names"])
         cbar_kws = dict(use_gridspec=False, location="top")
+        # The bars come first: pandas does not support figures that have axes without a grid position (the colour bar's).
+        mean_df.plot.bar(ax=ax_mean, legend=False, rot=0)
         sns.heatmap(cov_df, ax=ax_cov, cbar=True, cbar_kws=cbar_kws, annot=True)
-        mean_df.plot.bar(ax=ax_mean, legend=False)
-        plt.xticks(rotation=0)
 
     def _get_limits_for_2d_plot(self):
         """
-- 
2.43.0


From ec3c0e0fde225896072c149edf15d725b9777685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 52/63] fix: the KL divergence is infinite where the second
 factor is zero and the first underflows

---
 veroku/factors/categorical.py        | 2 ++
 veroku/factors/sparse_categorical.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 72413da..6a81514 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -456,6 +456,8 @@ class Categorical(Factor):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             kl_array = np.where(log_p != -np.inf, np.exp(log_p) * (log_p - log_q), 0.0)
+            # exp(log_p) can underflow to zero (and 0 * inf is nan)
+            kl_array = np.where((log_p != -np.inf) & (log_q == -np.inf), np.inf, kl_array)
         kld = np.sum(kl_array)
         return kld
 
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index f762316..e38d9ae 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -797,6 +797,9 @@ class SparseCategorical(Factor):
                 # lim_{p->0} p*log(p/q) = 0, with q = p
                 # So if p_i = 0, kld_i = 0
                 return 0.0
+            if log_qi == -np.inf:
+                # exp(log_pi) can underflow to zero (and 0 * inf is nan)
+                return np.inf
             kld_i = np.exp(log_pi) * (log_pi - log_qi)
             return kld_i
 
-- 
2.43.0


From c12ad4f179fca95b048ae7317ed02c4775f96c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 53/63] fix: the KL divergence to a factorised factor is that
 to its joint distribution

---
 veroku/factors/experimental/factorised_factor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 546ffe8..3e653d0 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -139,6 +139,8 @@ class FactorizedFactor(Factor):
         :rtype: float
         """
         # TODO: Make this more efficient.
+        if isinstance(factor, FactorizedFactor):
+            factor = factor.joint_distribution
         return self.joint_distribution.kl_divergence(factor)
 
     @property
-- 
2.43.0


From dab3c28fef31c0ed2fd3301766b62e25f6d5d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 54/63] fix: normalising a table of whole-number log
 probabilities does not fail

---
 veroku/factors/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 6a81514..caf2c97 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -440,7 +440,7 @@ class Categorical(Factor):
         """
         factor_copy = self.copy()
         logz = special.logsumexp(self.log_probs_tensor)
-        factor_copy.log_probs_tensor -= logz
+        factor_copy.log_probs_tensor = factor_copy.log_probs_tensor - logz
         return factor_copy
 
     @staticmethod
-- 
2.43.0


From ed6347cb6324e871ca984b3b80fc2a34ab2f2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 55/63] fix: log determinants of Gaussians with many variables
 do not underflow or overflow

---
 veroku/factors/_factor_utils.py | 14 ++++++++++++++
 veroku/factors/gaussian.py      | 28 +++++++++++++++-------------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/veroku/factors/_factor_utils.py b/veroku/factors/_factor_utils.py
index 7b04800..879c0e5 100644
--- a/veroku/factors/_factor_utils.py
+++ b/veroku/factors/_factor_utils.py
@@ -341,6 +341,20 @@ def inv_matrix(mat):
     return mat_inv
 
 
+def log_det(mat):
+    """
+    Get the log of the determinant of a matrix (without computing the determinant, which can underflow or overflow).
+
+    :param numpy.ndarray mat: The matrix.
+    :return: The log of the determinant (nan if the determinant is negative).
+    :rtype: float
+    """
+    sign, log_abs_det = np.linalg.slogdet(mat)
+    if sign < 0.0:
+        return np.nan
+    return log_abs_det
+
+
 def log(x_val):
     """ "
     Get the log of a value using the numpy.log function and output the input value if invalid.
diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index a2f8545..0d3c73d 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -91,7 +91,7 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
 
     u_x = np.zeros([x_dim, 1])
     h_x = prec_xx @ u_x
-    g_x = -0.5 * u_x.T @ h_x + np.log(1.0) - 0.5 * np.log(np.linalg.det(2.0 * np.pi * cov_xx))
+    g_x = -0.5 * u_x.T @ h_x + np.log(1.0) - 0.5 * _factor_utils.log_det(2.0 * np.pi * cov_xx)
 
     cov = np.block([[cov_xx, cov_xx @ a_mat.T], [a_mat @ cov_xx, a_mat @ cov_xx @ a_mat.T + n_mat]])
     prec_joint = np.linalg.inv(cov)
@@ -104,7 +104,7 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
     h_cpd[:x_dim] = h_cpd[:x_dim] - h_x
 
     utkux = mean_joint.T @ prec_joint @ mean_joint
-    g_joint = 0.5 * utkux + np.log(1.0) - 0.5 * np.log(np.linalg.det(2.0 * np.pi * cov))
+    g_joint = 0.5 * utkux + np.log(1.0) - 0.5 * _factor_utils.log_det(2.0 * np.pi * cov)
     g_cpd = g_joint - g_x
 
     return Gaussian(var_names=conditioning_vars + conditional_vars, prec=prec_cpd, h_vec=h_cpd, g_val=g_cpd)
@@ -456,7 +456,8 @@ class Gaussian(Factor):
         cov = np.linalg.inv(self.prec)
         mean = cov @ self.h_vec
         ut_prec_u = (mean.T @ self.prec @ mean).astype(complex)
-        log_weight = self.g_val + 0.5 * ut_prec_u + 0.5 * cmath.log(np.linalg.det(2.0 * np.pi * cov))
+        det_sign, log_abs_det = np.linalg.slogdet(2.0 * np.pi * cov)
+        log_weight = self.g_val + 0.5 * ut_prec_u + 0.5 * (log_abs_det + cmath.log(det_sign))
         return log_weight
 
     def _invert(self):
@@ -514,7 +515,7 @@ class Gaussian(Factor):
         prec_xy_inv_prec_yy = prec_xy @ np.linalg.inv(prec_yy)
         prec = prec_xx - prec_xy_inv_prec_yy @ prec_yx
         h_vec = h_x - prec_xy_inv_prec_yy @ h_y
-        log_det_2pi_inv_prec_yy = np.log(np.linalg.det(2.0 * np.pi * inv_prec_yy))
+        log_det_2pi_inv_prec_yy = _factor_utils.log_det(2.0 * np.pi * inv_prec_yy)
         g_val = self.g_val + 0.5 * (h_y.T @ inv_prec_yy @ h_y + log_det_2pi_inv_prec_yy)
         return Gaussian(prec=prec, h_vec=h_vec, g_val=g_val, var_names=vars_to_keep)
 
@@ -573,8 +574,10 @@ class Gaussian(Factor):
         self.h_vec = self.prec @ self.mean
         utku = self.mean.T @ self.prec @ self.mean
 
-        det_2pi_cov = np.linalg.det(2.0 * np.pi * self.cov)
-        updated_g_val = self.log_weight - 0.5 * utku - 0.5 * _factor_utils.log(det_2pi_cov)
+        det_sign, log_abs_det = np.linalg.slogdet(2.0 * np.pi * self.cov)
+        if det_sign < 0.0:
+            raise Warning(f"Invalid value (the negative determinant of {self.cov}) in log")
+        updated_g_val = self.log_weight - 0.5 * utku - 0.5 * log_abs_det
 
         self.g_val = _factor_utils.make_scalar(updated_g_val)
         self.canform = True
@@ -592,8 +595,7 @@ class Gaussian(Factor):
         assert not np.isnan(np.sum(self.cov)), "Error: nan values in cov matrix after inversion."
         self.mean = self.cov @ self.h_vec
         utku = self.mean.T @ self.prec @ self.mean
-        det_2_pi_cov = np.linalg.det(2.0 * np.pi * self.cov)
-        log_weight_ = self.g_val + 0.5 * utku + 0.5 * np.log(det_2_pi_cov)
+        log_weight_ = self.g_val + 0.5 * utku + 0.5 * _factor_utils.log_det(2.0 * np.pi * self.cov)
         self.log_weight = _factor_utils.make_scalar(log_weight_)
         self.covform = True
 
@@ -775,10 +777,10 @@ class Gaussian(Factor):
         u_q = factor_.get_mean()
         u_p = normalized_self.get_mean()
 
-        det_inv_cov_q = np.linalg.det(inv_cov_q)
-        det_inv_cov_p = np.linalg.det(inv_cov_p)
-        assert det_inv_cov_q != 0.0, "Unexpected factor covariance determinant of 0."
-        det_term = 0.5 * cmath.log(det_inv_cov_p / det_inv_cov_q)
+        sign_q, log_abs_det_q = np.linalg.slogdet(inv_cov_q)
+        sign_p, log_abs_det_p = np.linalg.slogdet(inv_cov_p)
+        assert sign_q != 0.0, "Unexpected factor covariance determinant of 0."
+        det_term = 0.5 * (log_abs_det_p - log_abs_det_q + cmath.log(sign_p / sign_q))
         trace_term = 0.5 * np.trace(inv_cov_q @ cov_p)
         mahalanobis_term = 0.5 * (u_p - u_q).T @ inv_cov_q @ (u_p - u_q)
         kld = det_term + trace_term + mahalanobis_term - 0.5 * normalized_self.dim
@@ -871,7 +873,7 @@ class Gaussian(Factor):
             x_val = [x_val_list[vrs.index(v)] for v in self.var_names]
         x_vec = _factor_utils.make_column_vector(x_val)
         if self.covform:
-            log_norm = self.log_weight - 0.5 * np.log(np.linalg.det(2.0 * np.pi * self.cov))
+            log_norm = self.log_weight - 0.5 * _factor_utils.log_det(2.0 * np.pi * self.cov)
             prec = _factor_utils.inv_matrix(self.cov)
             exponent = -0.5 * (self.mean - x_vec).T @ prec @ (self.mean - x_vec)
             log_potx = log_norm + exponent
-- 
2.43.0


From ab853c80738aed92df2f4e1650f18d23d0a07174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 56/63] fix: sparse factors over many variables compare their
 default values (the number of assignments overflowed)

---
 veroku/factors/sparse_categorical.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index e38d9ae..ef8bfc1 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -5,6 +5,7 @@ A module for instantiating sparse tables with log probabilities.
 # Standard imports
 import copy
 import itertools
+import math
 import operator
 
 # Third-party imports
@@ -503,7 +504,7 @@ class SparseCategorical(Factor):
 
         # If all possible assignments have not been checked - check that the default values are the same
         checked_assignments = set(self.log_probs_table).union(factor_.log_probs_table)
-        if len(checked_assignments) < np.prod(self.cardinalities):
+        if len(checked_assignments) < math.prod(self.cardinalities):
             if not np.isclose(self.default_log_prob, factor.default_log_prob, rtol=rtol, atol=atol):
                 return False
 
@@ -742,7 +743,7 @@ class SparseCategorical(Factor):
 
         result_cardinalities = [result_var_cards[v] for v in result_var_names]
         result_default_log_prob = operator_function(default_log_prob, default_log_prob)
-        if len(flattened_result_table) == np.prod(result_cardinalities):
+        if len(flattened_result_table) == math.prod(result_cardinalities):
             # No assignment is left to the default value (which can be undefined: -inf - (-inf)).
             result_default_log_prob = default_log_prob
         resulting_factor = SparseCategorical(
@@ -775,7 +776,7 @@ class SparseCategorical(Factor):
         :rtype: Bool
         """
         num_assignments = len(self.log_probs_table)
-        max_possible_assignments = np.prod(self.cardinalities)
+        max_possible_assignments = math.prod(self.cardinalities)
         if num_assignments == max_possible_assignments:
             return True
         return False
-- 
2.43.0


From 8e87784db1651aba75192fa93f3a18b0d2933725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 57/63] fix: Gaussians with weights that overflow are not all
 equal

---
 veroku/factors/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 0d3c73d..baf87a9 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -278,7 +278,8 @@ class Gaussian(Factor):
         Helper function for check equivalence of covariance form parameters.
         """
 
-        if not np.isclose(self.get_weight(), gaussian.get_weight(), rtol=rtol, atol=atol, equal_nan=False):
+        # the weights themselves can overflow (and would then all be equal)
+        if not np.isclose(self.get_log_weight(), gaussian.get_log_weight(), rtol=rtol, atol=atol, equal_nan=False):
             return False
         gaussian._reorder_parameters(self.var_names)
         if not np.allclose(self.mean, gaussian.get_mean(), rtol=rtol, atol=atol, equal_nan=False):
-- 
2.43.0


From e9864830ac91dc50f97d7e1d9631315dc670fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 58/63] fix: KL-divergence of clearly different Gaussians in
 small or large units

Gaussian.kl_divergence returned 0 for factors that were equal within the (absolute) default tolerance of equals, so that the
divergence of distributions over variables with small values (or in canonical form with large ones) vanished and message passing
stopped early.
---
 veroku/factors/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index baf87a9..53c6748 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -761,7 +761,8 @@ class Gaussian(Factor):
                     return 0.0
             return np.inf
 
-        if self.equals(factor):
+        # The divergence does not depend on the units of the variables, so only equal parameters can be skipped here.
+        if self.equals(factor, rtol=1e-10, atol=0.0):
             return 0.0
         # TODO: can we compute the correct ('normalised') KL divergence without explicitly normalizing?
         normalized_self = self.normalize()
-- 
2.43.0


From bb2feab8e78ecef9e14e4b639e3f63f04591814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 59/63] fix: linear Gaussian factors with noise of any scale

make_linear_gaussian went by way of a joint distribution with a unit variance for the conditioning variables, so that noise with a
small variance was lost in rounding errors (or the covariance was singular).
---
 veroku/factors/gaussian.py | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 53c6748..c6b74b5 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -83,29 +83,12 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
     :rtype: Gaussian
     """
 
-    # TODO: improve this by adding the correct equations for calculating the linear Gaussian parameters that do not rely
-    #  on the dummy factor multiplication.
-    x_dim = len(conditioning_vars)
-    cov_xx = np.eye(x_dim)
-    prec_xx = np.linalg.inv(cov_xx)
-
-    u_x = np.zeros([x_dim, 1])
-    h_x = prec_xx @ u_x
-    g_x = -0.5 * u_x.T @ h_x + np.log(1.0) - 0.5 * _factor_utils.log_det(2.0 * np.pi * cov_xx)
-
-    cov = np.block([[cov_xx, cov_xx @ a_mat.T], [a_mat @ cov_xx, a_mat @ cov_xx @ a_mat.T + n_mat]])
-    prec_joint = np.linalg.inv(cov)
-    prec_cpd = prec_joint.copy()
-    prec_cpd[:x_dim, :x_dim] = prec_cpd[:x_dim, :x_dim] - prec_xx
-
-    mean_joint = np.block([[u_x], [a_mat @ u_x]])
-
-    h_cpd = prec_joint @ mean_joint
-    h_cpd[:x_dim] = h_cpd[:x_dim] - h_x
-
-    utkux = mean_joint.T @ prec_joint @ mean_joint
-    g_joint = 0.5 * utkux + np.log(1.0) - 0.5 * _factor_utils.log_det(2.0 * np.pi * cov)
-    g_cpd = g_joint - g_x
+    # log N(y; Ax, N) expanded in terms of x and y (the scale of the noise may be far from one)
+    prec_n = np.linalg.inv(n_mat)
+    prec_na = prec_n @ a_mat
+    prec_cpd = np.block([[a_mat.T @ prec_na, -prec_na.T], [-prec_na, prec_n]])
+    h_cpd = np.zeros([len(conditioning_vars) + len(conditional_vars), 1])
+    g_cpd = -0.5 * _factor_utils.log_det(2.0 * np.pi * n_mat)
 
     return Gaussian(var_names=conditioning_vars + conditional_vars, prec=prec_cpd, h_vec=h_cpd, g_val=g_cpd)
 
-- 
2.43.0


From 97a54909399490de6d2f550443eca591fef82570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:41 +0000
Subject: [PATCH 60/63] fix: plot_message_convergence shows infinite distances
 above finite ones of any sign

The value that stands for infinity was 1.5 times the largest finite distance, which is below it if that is negative (log=True) and
marks finite distances as infinite if it is zero; there was an error if all the distances are infinite.
---
 veroku/cluster_graph.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index b2d51c3..06f135d 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -291,17 +291,16 @@ class ClusterGraph:
         num_iterations = len(mp_max_dists)
 
         iterations = np.array(list(range(num_iterations))) / 2  # divide by 2 to correct for tile and flatten
-        non_inf_max_distances = [d for d in mp_max_dists if d != np.inf]
-        max_non_inf = max(non_inf_max_distances)
-        new_inf_value = max_non_inf * 1.5
-        max_distances_replaces_infs = np.array([v if v != np.inf else new_inf_value for v in mp_max_dists])
-        inf_values = np.ma.masked_where(
-            max_distances_replaces_infs != new_inf_value, max_distances_replaces_infs
-        )
+        is_inf = mp_max_dists == np.inf
+        # infinite values are shown above all the finite ones (which need not be positive, and of which there may be none)
+        max_finite = max(mp_max_dists[np.isfinite(mp_max_dists)], default=0.0)
+        new_inf_value = max_finite + (0.5 * abs(max_finite) or 1.0)
+        max_distances_replaces_infs = np.where(is_inf, new_inf_value, mp_max_dists)
+        inf_values = np.ma.masked_where(~is_inf, max_distances_replaces_infs)
         plt.figure(figsize=figsize)
         plt.plot(iterations, max_distances_replaces_infs)
         plt.plot(iterations, inf_values, c="r", linewidth=2)
-        if len(non_inf_max_distances) != len(mp_max_dists):
+        if np.any(is_inf):
             custom_lines = [Line2D([0], [0], color="r", lw=4)]
             plt.legend(custom_lines, ["infinity"])
         plt.title("Message Passing Convergence")
-- 
2.43.0


From f22d95cc639727fb66bc84a80cdf82d270865492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:31 +0000
Subject: [PATCH 61/63] fix: nonlinear Gaussians keep the constant of vacuous
 factors

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 24e444c..689109a 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -348,6 +348,7 @@ class NonLinearGaussian(Factor):
             )
         if factor._is_vacuous:
             # TODO: check this (esp to see what to do with)
+            self_copy.add_log_weight(factor.get_g())
             return self_copy
         # TODO: change to 'update conditional model and re-transform model' (if correct)
         if not isinstance(factor, Gaussian):
@@ -382,6 +383,7 @@ class NonLinearGaussian(Factor):
         self_copy = self.copy()
         if factor._is_vacuous:
             # TODO: check this (esp to see what to do with)
+            self_copy.add_log_weight(-factor.get_g())
             return self_copy
         # TODO: change to 'update conditional model and re-transform model' (if correct)
         if not isinstance(factor, Gaussian):
-- 
2.43.0


From eca70de1a218d522bd65d603025daf2cb100ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:31 +0000
Subject: [PATCH 62/63] fix: vacuous Gaussians with different constants are not
 equal

---
 veroku/factors/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index c6b74b5..42a65d3 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -295,7 +295,7 @@ class Gaussian(Factor):
         if self._var_names != factor.var_names:
             gaussian_copy._reorder_parameters(self._var_names)
         if gaussian_copy._is_vacuous and self._is_vacuous:
-            return True
+            return bool(np.isclose(self.get_g(), gaussian_copy.get_g(), rtol=rtol, atol=atol))
         if not gaussian_copy._cov_exists():
             # A factor without a covariance form can only be compared in canonical form.
             self._update_canform()
-- 
2.43.0


From 077d851bfafd9b539167be036b8e3e25af5735c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:44 +0000
Subject: [PATCH 63/63] fix: dividing a FactorizedFactor by a clearly different
 factor in small units

FactorizedFactor.divide cancelled a component that was equal to the divisor within the (absolute) default tolerance of equals, so
that a component over variables with small values was dropped although the quotient depends on it.
---
 veroku/factors/experimental/factorised_factor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 3e653d0..94dfde8 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -92,7 +92,9 @@ class FactorizedFactor(Factor):
         index = factorised_factor_copy._first_factor_with_vars_index(factor.var_names)
 
         for i, factorised_comp in enumerate(self.factors):
-            if factorised_comp.equals(factor):
+            # A component that only differs by rounding errors cancels out (the default absolute tolerance would depend
+            # on the scale of the variables).
+            if factorised_comp.equals(factor, rtol=1e-10, atol=0.0):
                 if len(self.factors) > 1:
                     return FactorizedFactor(self.factors[:i] + self.factors[i + 1:])
                 # TODO: add else to make general vacuous factor (wont necessarily be Gaussian)
-- 
2.43.0

