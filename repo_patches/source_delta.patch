From 5ab5440b1cdb95a99679fada5af7f6fb84c2b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:40 +0000
Subject: [PATCH 01/18] fix: stamp updated interactions with the time of the
 update

The default of update_interaction was evaluated once, at import time.
---
 sawatabi/model/logical_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f528bda..dca7944 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -206,7 +206,7 @@ class LogicalModel(AbstractModel):
         coefficient=None,
         scale=None,
         attributes=None,
-        timestamp=current_time(),
+        timestamp=None,
     ):
         if (not target) and (not name):
             raise ValueError("Either 'target' or 'name' must be specified.")
@@ -219,8 +219,9 @@ class LogicalModel(AbstractModel):
             self._check_argument_type("scale", scale, numbers.Number)
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
-        if timestamp is not None:
-            self._check_argument_type("timestamp", timestamp, (int, float))
+        if timestamp is None:
+            timestamp = current_time()
+        self._check_argument_type("timestamp", timestamp, (int, float))
 
         if target is not None:
             interaction_info = self._get_interaction_info_from_target(target)
-- 
2.43.0


From ce690c55635eef79276378048195b9f649bc9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:40 +0000
Subject: [PATCH 02/18] fix: register attribute columns created by
 update_interaction

Otherwise the next added interaction leaves the column one entry short.
---
 sawatabi/model/logical_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index dca7944..c224af0 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -256,6 +256,7 @@ class LogicalModel(AbstractModel):
                 attrs_key = f"attributes.{k}"
                 if attrs_key not in self._interactions_array:
                     self._interactions_array[attrs_key] = [np.nan] * self._interactions_length
+                    self._interactions_attrs.append(attrs_key)
                 self._interactions_array[attrs_key][update_idx] = v
         self._interactions_array["timestamp"][update_idx] = timestamp
         self._interactions_array["dirty"][update_idx] = True
-- 
2.43.0


From 2fc567012fc60d28a963e25ee0c702d863dec118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:40 +0000
Subject: [PATCH 03/18] fix: keep the attributes when an update falls back to
 adding the interaction

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index c224af0..1fa5f27 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -239,7 +239,7 @@ class LogicalModel(AbstractModel):
                 warnings.warn(f"An interaction named '{internal_name}' does not exist yet in the model, but will be added instead of updating it.")
                 _coefficient = 0.0 if coefficient is None else coefficient
                 _scale = 1.0 if scale is None else scale
-                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, timestamp=timestamp)
+                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, attributes=attributes, timestamp=timestamp)
 
         if self._is_removed(internal_name):
             raise ValueError(f"An interaction named '{internal_name}' is already removed.")
-- 
2.43.0


From 907311b633d55867780bca19409fbd46796c8136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 04/18] fix: delete a variable that some constraint of the
 model does not contain

delete_variable raised for a constraint on other variables (or of another
variable type after a model type conversion) and for any equality constraint,
and left the model with the variable half deleted.
---
 sawatabi/model/constraint/abstract_constraint.py        | 6 ++++++
 sawatabi/model/constraint/equality_constraint.py        | 4 ++++
 sawatabi/model/constraint/n_hot_constraint.py           | 3 +++
 sawatabi/model/constraint/zero_or_one_hot_constraint.py | 3 +++
 sawatabi/model/logical_model.py                         | 2 +-
 5 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 7197ea2..cb4feb9 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -44,6 +44,12 @@ class AbstractConstraint(BaseMixin):
             variables = [variables]
         return set(variables)
 
+    def _discard_variable(self, target):
+        """
+        Removes the variable with the label of the given target from the constraint, if any.
+        """
+        raise NotImplementedError("#{self.class}##{__method__} must be implemented.")
+
     def get_constraint_class(self):
         return self._constraint_class
 
diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index 91a13a2..6ded54d 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -54,6 +54,10 @@ class EqualityConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables_2 = self._variables_2.difference(variables_set)
 
+    def _discard_variable(self, target):
+        self._variables_1 = {v for v in self._variables_1 if v.label != target.label}
+        self._variables_2 = {v for v in self._variables_2 if v.label != target.label}
+
     def get_variables_1(self):
         return self._variables_1
 
diff --git a/sawatabi/model/constraint/n_hot_constraint.py b/sawatabi/model/constraint/n_hot_constraint.py
index 91b437d..8863410 100644
--- a/sawatabi/model/constraint/n_hot_constraint.py
+++ b/sawatabi/model/constraint/n_hot_constraint.py
@@ -44,6 +44,9 @@ class NHotConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables = self._variables.difference(variables_set)
 
+    def _discard_variable(self, target):
+        self._variables = {v for v in self._variables if v.label != target.label}
+
     def get_variables(self):
         return self._variables
 
diff --git a/sawatabi/model/constraint/zero_or_one_hot_constraint.py b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
index 5bcea72..4df5b5d 100644
--- a/sawatabi/model/constraint/zero_or_one_hot_constraint.py
+++ b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
@@ -44,6 +44,9 @@ class ZeroOrOneHotConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables = self._variables.difference(variables_set)
 
+    def _discard_variable(self, target):
+        self._variables = {v for v in self._variables if v.label != target.label}
+
     def get_variables(self):
         return self._variables
 
diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 1fa5f27..fdf49e0 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -363,7 +363,7 @@ class LogicalModel(AbstractModel):
 
         # Deal with constraints
         for k, v in self.get_constraints().items():
-            v.remove_variable(variables=target)
+            v._discard_variable(target)
 
         # Remove related interations
         removed = self.select_interactions_by_variable(target)
-- 
2.43.0


From d197e131f9f03cc626544cb3dfd238852efb8b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 05/18] fix: do not bring removed interactions back when fixing
 a variable

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index fdf49e0..81b77d7 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -391,7 +391,7 @@ class LogicalModel(AbstractModel):
         self._fixed[target.label] = True
 
         # Update related interations
-        selected = self.select_interactions_by_variable(target)
+        selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]
 
         if len(selected) <= 0:
             warnings.warn("No interactions updated.")
-- 
2.43.0


From 80d574ed8b62f5bac16e239edf67a7258669f801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 06/18] fix: take the scale of interactions into account in
 model type conversions

A quadratic interaction with a scale other than 1 got unscaled linear terms and
offset, so the converted model had a different energy landscape.
---
 sawatabi/model/logical_model.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 81b77d7..9d2af44 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -723,7 +723,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
-                self._offset += coeff * 0.5
+                self._offset += coeff * h["scale"] * 0.5
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -731,12 +731,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=coeff * 0.25)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
-                self._offset += coeff * 0.25
+                self._offset += coeff * J["scale"] * 0.25
         else:
             warnings.warn("The model is already an Ising model.")
 
@@ -758,7 +764,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 2.0)
-                self._offset -= coeff
+                self._offset -= coeff * h["scale"]
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -766,12 +772,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
-                self._offset += coeff
+                self._offset += coeff * J["scale"]
         else:
             warnings.warn("The model is already a QUBO model.")
 
-- 
2.43.0


From ca33af0bfe1fba31b1ad2ff3e4c0ab044fb916b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 07/18] fix: reject a merge of models with the same constraint
 label before changing the model

---
 sawatabi/model/logical_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 9d2af44..510483b 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -624,6 +624,11 @@ class LogicalModel(AbstractModel):
                 if len(value.shape) != len(other._variables[key].shape):
                     raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
 
+        # Check constraints
+        # If both models have a constraint with the same label, cannnot merge currently
+        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
+            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
+
         # Merge variables
         for key, value in other._variables.items():
             if key not in self._variables:
@@ -662,9 +667,6 @@ class LogicalModel(AbstractModel):
         self._interactions_length = self._interactions_length + other._interactions_length
 
         # Merge constraints
-        # If both models have a constraint with the same label, cannnot merge currently
-        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
-            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
         self._constraints.update(other._constraints)
 
         # Merge other fields
-- 
2.43.0


From a2d775edb44a1d77ae137ec4d2c4fcbac56c880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 08/18] fix: keep the logical model unchanged when its
 conversion to a physical model fails

Constraints stayed merged into the interactions, so the next conversion counted
them twice.
---
 sawatabi/model/logical_model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 510483b..15baef1 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -498,6 +498,15 @@ class LogicalModel(AbstractModel):
     ################################
 
     def to_physical(self, placeholder=None):
+        # A failed conversion (e.g., caused by an unresolved placeholder) must not leave the constraints merged into the model
+        saved = (self._offset, self._interactions_array, self._interactions_attrs, self._interactions_length)
+        try:
+            return self._to_physical(placeholder)
+        except Exception:
+            self._offset, self._interactions_array, self._interactions_attrs, self._interactions_length = saved
+            raise
+
+    def _to_physical(self, placeholder):
         if placeholder is None:
             placeholder = {}
         physical = PhysicalModel(mtype=self._mtype)
-- 
2.43.0


From 3b8a137614d8d997dceb257d731ca00ce5d1d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 09/18] fix: do not negate the placeholder coefficients of the
 PyQUBO model given to from_pyqubo

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 15baef1..34d5048 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -476,7 +476,7 @@ class LogicalModel(AbstractModel):
             variable_1 = self.get_variables_by_name(structure[k[1]][0])
             target_1 = variable_1[structure[k[1]][1:]]
 
-            coeff = v
+            coeff = copy.deepcopy(v)  # Do not modify the given PyQUBO model
             if isinstance(coeff, pyqubo.Coefficient):
                 assert isinstance(coeff.terms, collections.defaultdict)
                 for placeholder_k, _ in coeff.terms.items():
-- 
2.43.0


From cbb8493ec84d08e78c8f4d95417012be7bebb73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 10/18] fix: honour seed=0 in SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 39437be..8cdbd47 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -67,7 +67,7 @@ class SawatabiSolver(AbstractSolver):
                 raise ValueError("reverse_options must contain 'reverse_temperature'")
 
         # Use a rangom generator so that this random sequence is isolated
-        if seed:
+        if seed is not None:
             self._rng = np.random.default_rng(seed)
         else:
             self._rng = np.random.default_rng()
-- 
2.43.0


From aaa3cfbbc4ff6d692890fd8f0eb2adb1a1f8c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 11/18] fix: do not overwrite the initial states given to
 SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 8cdbd47..425e312 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -81,10 +81,7 @@ class SawatabiSolver(AbstractSolver):
 
             # Convert initial states as well
             if initial_states:
-                for i, initial_state in enumerate(initial_states):
-                    for k, v in initial_state.items():
-                        if v == 0:
-                            initial_states[i][k] = -1
+                initial_states = [{k: (-1 if v == 0 else v) for k, v in initial_state.items()} for initial_state in initial_states]
 
         self._model = model
         self._bqm = bqm
-- 
2.43.0


From 7534bb314cc11762de44017d55d74417c97baa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 12/18] fix: run a forward annealing with empty reverse_options

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 425e312..555f4de 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -168,7 +168,7 @@ class SawatabiSolver(AbstractSolver):
             reverse_target_temperature = reverse_options["reverse_temperature"]  # The max temperature when the phase is reverse annealing
 
         energy = initial_energy
-        reversing_phase = reverse_options is not None
+        reversing_phase = bool(reverse_options)
         sweep = 0
 
         energy_hist = []
-- 
2.43.0


From 92fef21361899508f1f60084c93c1ffba42d0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 13/18] fix: report the timestamp of the processed event for an
 outdated event

---
 sawatabi/algorithm/abstract_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 60b28ef..02bb606 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -100,7 +100,7 @@ class AbstractAlgorithm(BaseMixin):
             if float(timestamp) < float(prev_timestamp):
                 yield (
                     f"The received event is outdated: Timestamp is {timestamp.to_utc_datetime()}, "
-                    + f"while an event with timestamp of {timestamp.to_utc_datetime()} has been already processed."
+                    + f"while an event with timestamp of {prev_timestamp.to_utc_datetime()} has been already processed."
                 )
                 return
 
-- 
2.43.0


From 866f12088b29a128634855c68d55fc935b57a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 14/18] fix: do not share the set of variables given to a
 constraint with the caller

---
 sawatabi/model/constraint/abstract_constraint.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index cb4feb9..1f28a86 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -36,8 +36,6 @@ class AbstractConstraint(BaseMixin):
         self._check_argument_type("variables", variables, (pyqubo.Array, pyqubo.Spin, pyqubo.Binary, list, set))
         if isinstance(variables, (list, set)):
             self._check_argument_type_in_list("variables", variables, (pyqubo.Spin, pyqubo.Binary))
-        if isinstance(variables, set):
-            return variables
         if isinstance(variables, pyqubo.Array):
             variables = list(Functions._flatten(variables.bit_list))
         elif isinstance(variables, (pyqubo.Spin, pyqubo.Binary)):
-- 
2.43.0


From edd565f41c701fa5316f6ee577e08d4b4a47142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:39 +0000
Subject: [PATCH 15/18] fix: add the offset of the model to the energies
 returned by Optigan

---
 sawatabi/solver/optigan_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sawatabi/solver/optigan_solver.py b/sawatabi/solver/optigan_solver.py
index 6bd0ea2..7463325 100644
--- a/sawatabi/solver/optigan_solver.py
+++ b/sawatabi/solver/optigan_solver.py
@@ -106,7 +106,9 @@ class OptiganSolver(AbstractSolver):
         for spins in result["spins"]:
             sample = dict(zip(list(model._index_to_label.values()), spins))
             samples.append(sample)
-        sampleset = dimod.SampleSet.from_samples(samples, vartype=dimod.BINARY, energy=result["energies"], aggregate_samples=True, sort_labels=True)
+        # Note: The polynomial does not contain the offset.
+        energies = [energy + model.get_offset() for energy in result["energies"]]
+        sampleset = dimod.SampleSet.from_samples(samples, vartype=dimod.BINARY, energy=energies, aggregate_samples=True, sort_labels=True)
         sampleset._info = result
 
         return sampleset
-- 
2.43.0


From 2cadee2dc4ff809722174d59c266aaf3c346dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 16/18] fix: do not declare the first events outdated when they
 are older than the epoch

---
 sawatabi/algorithm/abstract_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 02bb606..2a56f60 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -79,7 +79,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Extract the previous timestamp, elements, and model from state
             if len(timestamp_state_as_list) == 0:
-                prev_timestamp = -1.0
+                prev_timestamp = beam.utils.timestamp.MIN_TIMESTAMP
             else:
                 prev_timestamp = timestamp_state_as_list[-1]
             if len(elements_state_as_list) == 0:
-- 
2.43.0


From 6d8ade5061a3e67161f32509bae0e66d08d38442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 17/18] fix: do not duplicate the elements of overlapping
 windows in the partial algorithm

---
 sawatabi/algorithm/abstract_algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 2a56f60..4a31351 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -112,8 +112,8 @@ class AbstractAlgorithm(BaseMixin):
             # Partial: Merge current window with the specified data.
             elif algorithm == sawatabi.constants.ALGORITHM_PARTIAL:
                 filter_fn = algorithm_options["filter_fn"]
-                filtered = filter(filter_fn, prev_elements)
-                sorted_elements = list(filtered) + sorted_elements
+                filtered = [e for e in filter(filter_fn, prev_elements) if e not in sorted_elements]
+                sorted_elements = filtered + sorted_elements
                 sorted_elements = sorted(sorted_elements)
 
             # Resolve outgoing elements in this iteration
-- 
2.43.0


From b647fd92336da7fe1bf30346c72f1fcfa23494f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 18/18] fix: report every element that left as outgoing

---
 sawatabi/algorithm/abstract_algorithm.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 4a31351..0b306fc 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -118,12 +118,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Resolve outgoing elements in this iteration
             def resolve_outgoing(prev_elements, sorted_elements):
-                outgoing = []
-                for p in prev_elements:
-                    if p[0] >= sorted_elements[0][0]:
-                        break
-                    outgoing.append(p)
-                return outgoing
+                return [p for p in prev_elements if p not in sorted_elements]
 
             outgoing = resolve_outgoing(prev_elements, sorted_elements)
 
-- 
2.43.0

