From 980ad665bbec02c83af6c2323fc90562a2766300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 01/42] fix: pass the extra equalities and inequalities of an
 SDP to the solver

---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f5eb1f4..1d020ab 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2158,10 +2158,10 @@ class InflationSDP:
                                          in self.semiknown_moments.items()},
                       "equalities": [{mon.name: coeff
                                           for mon, coeff in eq.items()}
-                                     for eq in self.minimal_equalities],
+                                     for eq in self.moment_equalities],
                       "inequalities": [{mon.name: coeff
                                         for mon, coeff in ineq.items()}
-                                       for ineq in self.minimal_inequalities]
+                                       for ineq in self.moment_inequalities]
                       }
         # Add the constant 1 in case of unnormalized problems removed it
         solverargs["known_vars"][self.constant_term_name] = 1.
-- 
2.43.0


From 7eda65c44d68b047d66a2d28c840246544bb966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 02/42] fix: substitute proportionality relations in the SDP
 objective

---
 inflation/sdp/InflationSDP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 1d020ab..e9b1a77 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2034,10 +2034,10 @@ class InflationSDP:
                                         self._processed_objective.keys())
         for mon in semiknowns_to_process:
             coeff = self._processed_objective[mon]
-            for (subs_coeff, subs) in self.semiknown_moments[mon]:
-                self._processed_objective[subs] = \
-                    self._processed_objective.get(subs, 0) + coeff * subs_coeff
-                del self._processed_objective[mon]
+            subs_coeff, subs = self.semiknown_moments[mon]
+            self._processed_objective[subs] = \
+                self._processed_objective.get(subs, 0) + coeff * subs_coeff
+            del self._processed_objective[mon]
         collect()
 
     def _update_bounds(self, typ: str) -> None:
-- 
2.43.0


From 7fe7c6d8d7b8211ee41da1eedd7298354875f69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 03/42] fix: recompute the processed SDP objective when values
 are reset

---
 inflation/sdp/InflationSDP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index e9b1a77..55f97e3 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2013,6 +2013,7 @@ class InflationSDP:
         self.known_moments[self.One] = 1.
         self.extra_equalities = []
         self.extra_inequalities = []
+        self._update_objective()
         collect()
 
     def _update_objective(self) -> None:
-- 
2.43.0


From 904df00685cbb2b89518dae49daaa6a67c61e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 04/42] fix: discard the solution, and its success flag, when
 constraints change

---
 inflation/lp/InflationLP.py   | 5 ++++-
 inflation/sdp/InflationSDP.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index cdffe12..0935d8a 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -518,6 +518,7 @@ class InflationLP(object):
             The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_equalities = []  # Reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -535,6 +536,7 @@ class InflationLP(object):
              constraints. The keys (variables) can be strings, instances of
             `CompoundMonomial`, or monomials as 2D arrays.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # Reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
@@ -1722,7 +1724,8 @@ class InflationLP(object):
         relaxation."""
         for attribute in {"primal_objective",
                           "objective_value",
-                          "solution_object"}:
+                          "solution_object",
+                          "success"}:
             try:
                 delattr(self, attribute)
             except AttributeError:
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 55f97e3..9efaa67 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -424,6 +424,7 @@ class InflationSDP:
             (keys can be instances of `CompoundMonomial`, Symbols, strings, or
             integers), or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_equalities = []  # reset every time
         if not extra_equalities or extra_equalities is None:
             return
@@ -441,6 +442,7 @@ class InflationSDP:
             dictionaries (keys can be instances of `CompoundMonomial`, Symbols,
             strings, or integers) or SymPy expressions.
         """
+        self._reset_solution()
         self.extra_inequalities = []  # reset every time
         if not extra_inequalities or extra_inequalities is None:
             return
@@ -2185,7 +2187,8 @@ class InflationSDP:
         relaxation."""
         for attribute in {"primal_objective",
                           "objective_value",
-                          "solution_object"}:
+                          "solution_object",
+                          "success"}:
             try:
                 delattr(self, attribute)
             except AttributeError:
-- 
2.43.0


From 52b5504bbce2fc857e068d17dfc4cf743c835209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 05/42] fix: do not cache the LP constraints by name, extra
 constraints may change

---
 inflation/lp/InflationLP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 0935d8a..b9d466e 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1737,12 +1737,12 @@ class InflationLP(object):
     # Preparation for passing to external interfaces                          #
     ###########################################################################
 
-    @cached_property
+    @property
     def moment_equalities_by_name(self):
         """List of dictionaries of moment equalities by name."""
         return self._coo_mat_to_dict(self.sparse_equalities, string_keys=True)
 
-    @cached_property
+    @property
     def moment_inequalities_by_name(self):
         """List of dictionaries of moment inequalities by name."""
         return self._coo_mat_to_dict(self.sparse_inequalities, 
-- 
2.43.0


From 5fddf3f9309fef499ceba0e7fed357116da9cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 06/42] fix: find the atoms again when an SDP generates another
 relaxation

---
 inflation/sdp/InflationSDP.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 9efaa67..c60f832 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -356,6 +356,11 @@ class InflationSDP:
         self.first_free_idx = max(self.compmoment_from_idx.keys()) + 1
         self.moments = list(self.compmoment_from_idx.values())
         self.monomials = list(self.compmoment_from_idx.values())
+        # The atoms have to be found again in the new list of moments
+        for attribute in {"atomic_factors", "atomic_monomials",
+                          "atom_from_name", "knowable_atoms",
+                          "do_conditional_atoms"}:
+            self.__dict__.pop(attribute, None)
         
         assert all(v == 1 for v in Counter(self.monomials).values()), \
             "Multiple indices are being associated to the same monomial"
-- 
2.43.0


From 588de7e602977ef816ca0107ac4dd8bf8111aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 07/42] fix: forget the support set earlier when setting or
 resetting values

---
 inflation/lp/InflationLP.py   | 10 ++++++++++
 inflation/sdp/InflationSDP.py | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index b9d466e..cde75df 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1673,6 +1673,8 @@ class InflationLP(object):
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
+                self._replaced_lowerbounds.setdefault(
+                    mon, self.moment_lowerbounds.get(mon))
                 self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
             self.semiknown_moments = dict()
@@ -1697,6 +1699,7 @@ class InflationLP(object):
         """Reset the list of lower bounds."""
         self._reset_solution()
         self.moment_lowerbounds = dict()
+        self._replaced_lowerbounds = dict()
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
@@ -1715,6 +1718,13 @@ class InflationLP(object):
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         self.known_moments[self.One] = 1.
+        # Undo the lower bounds that represent values in supports problems
+        for mon, bound in self._replaced_lowerbounds.items():
+            if bound is None:
+                self.moment_lowerbounds.pop(mon, None)
+            else:
+                self.moment_lowerbounds[mon] = bound
+        self._replaced_lowerbounds = dict()
         self.extra_equalities = []
         self.extra_inequalities = []
         collect()
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index c60f832..c20e4f3 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -411,6 +411,7 @@ class InflationSDP:
         self.minimal_inequalities = []
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
+        self._replaced_lowerbounds = dict()
 
         self.set_objective(None)
         self.set_values(None)
@@ -1970,6 +1971,8 @@ class InflationSDP:
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
+                self._replaced_lowerbounds.setdefault(
+                    mon, self.moment_lowerbounds.get(mon))
                 self.moment_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
             self.semiknown_moments = dict()
@@ -1996,6 +1999,7 @@ class InflationSDP:
         """Reset the list of lower bounds."""
         self._reset_solution()
         self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
+        self._replaced_lowerbounds = dict()
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
@@ -2018,6 +2022,13 @@ class InflationSDP:
         if self.momentmatrix_has_a_zero:
             self.known_moments[self.Zero] = 0.
         self.known_moments[self.One] = 1.
+        # Undo the lower bounds that represent values in supports problems
+        for mon, bound in self._replaced_lowerbounds.items():
+            if bound is None:
+                self.moment_lowerbounds.pop(mon, None)
+            else:
+                self.moment_lowerbounds[mon] = bound
+        self._replaced_lowerbounds = dict()
         self.extra_equalities = []
         self.extra_inequalities = []
         self._update_objective()
-- 
2.43.0


From deae3348a51e06322973c5a9b4da8a3dd429d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 08/42] fix: setting the bounds of an SDP to None removes the
 earlier bounds

---
 inflation/sdp/InflationSDP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index c20e4f3..6f3d6f5 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -493,6 +493,7 @@ class InflationSDP:
         assert bound_type in ["up", "lo"], \
             "The 'bound_type' argument should be either 'up' or 'lo'"
         if bounds is None:
+            self.reset("upperbounds" if bound_type == "up" else "lowerbounds")
             return
         # Sanitize list of bounds
         sanitized_bounds = dict()
-- 
2.43.0


From 9516685f069fcf6737a00bc2a638a427fced17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 09/42] fix: memoised canonical forms depend on
 apply_only_commutations

---
 inflation/sdp/InflationSDP.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 6f3d6f5..d9369d2 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1619,7 +1619,7 @@ class InflationSDP:
             The canonical form of the input monomial under relabelling through
             the inflation symmetries.
         """
-        key = tuple(lexmon)
+        key = (tuple(lexmon), apply_only_commutations)
         if len(lexmon) == 0 or np.array_equiv(lexmon, 0):
             self.canonsym_lexmon_from_hash[key] = lexmon
             return lexmon
@@ -1631,7 +1631,7 @@ class InflationSDP:
             pass
         canonical_mon = self._to_canonical_memoized_1d(lexmon,
                                                        apply_only_commutations)
-        canonical_key = tuple(canonical_mon)
+        canonical_key = (tuple(canonical_mon), apply_only_commutations)
         try:
             repr_mon = self.canonsym_lexmon_from_hash[canonical_key]
             self.canonsym_lexmon_from_hash[key] = repr_mon
@@ -1639,7 +1639,10 @@ class InflationSDP:
         except KeyError:
             pass
 
-        other_keys, real_repr_lexmon = self._inflation_orbit_and_rep_1d(lexmon)
+        variants, real_repr_lexmon = \
+            self._inflation_orbit_and_rep_1d(canonical_mon)
+        other_keys = [(variant, apply_only_commutations)
+                      for variant in variants]
         other_keys.append(key)
         for key in other_keys:
             self.canonsym_lexmon_from_hash[key] = real_repr_lexmon
@@ -2250,7 +2253,7 @@ class InflationSDP:
         numpy.ndarray
             Moment in canonical form.
         """
-        key = self._from_2dndarray(array2d)
+        key = (self._from_2dndarray(array2d), apply_only_commutations)
         try:
             return self.canon_ndarray_from_hash[key]
         except KeyError:
@@ -2265,7 +2268,8 @@ class InflationSDP:
                                                        self.all_operators_commute,
                                                        apply_only_commutations)
                 new_array2d = self._lexorder[new_lexmon]
-                new_key = self._from_2dndarray(new_array2d)
+                new_key = (self._from_2dndarray(new_array2d),
+                           apply_only_commutations)
                 self.canon_ndarray_from_hash[key]     = new_array2d
                 self.canon_ndarray_from_hash[new_key] = new_array2d
                 return new_array2d
@@ -2292,7 +2296,7 @@ class InflationSDP:
         numpy.ndarray
             Moment in canonical form as 1D array.
         """
-        key = tuple(lexmon)
+        key = (tuple(lexmon), apply_only_commutations)
         try:
             return self.canon_lexmon_from_hash[key]
         except KeyError:
@@ -2306,7 +2310,7 @@ class InflationSDP:
                         self._notcomm, self._orthomat, 
                         self.all_operators_commute,
                         apply_only_commutations=apply_only_commutations)
-                new_key = tuple(new_lexmon)
+                new_key = (tuple(new_lexmon), apply_only_commutations)
                 self.canon_lexmon_from_hash[key]     = new_lexmon
                 self.canon_lexmon_from_hash[new_key] = new_lexmon
                 return new_lexmon
-- 
2.43.0


From 07fba988470efe68fb5da2c2dc2a1f3d0ff293b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 10/42] fix: keep the sign of known values and upper bounds in
 SDPA files

---
 inflation/sdp/writer_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index c5d7ea7..aee77c1 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -301,7 +301,7 @@ def write_to_sdpa(problem, filename):
                 elif var in known_moments_indices.keys():
                     coeff = known_moments_indices[var]
                     lines.append(
-                        f"0\t{block}\t{ii+1}\t{jj+1}\t-{abs(coeff)}\n")
+                        f"0\t{block}\t{ii+1}\t{jj+1}\t{-coeff}\n")
                 elif var in semiknowns.keys():
                     coeff, subs = semiknowns[var]
                     try:
@@ -350,7 +350,7 @@ def write_to_sdpa(problem, filename):
             var = var_corresp[var.idx]
             lines.append(f"{var}\t{block}\t{ii}\t{ii}\t-1.0\n")
             if abs(ub) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t-{ub}\n")
+                lines.append(f"0\t{block}\t{ii}\t{ii}\t{-ub}\n")
             ii += 1
 
     # Prepare lower bounds
-- 
2.43.0


From 167f788ac37ae415b5be77a790e209cc6cd9ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 11/42] fix: number the inequalities of SDPA files within their
 block

---
 inflation/sdp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index aee77c1..d4a9353 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -407,7 +407,7 @@ def write_to_sdpa(problem, filename):
                     sumcoeffs += coeff
         if sumcoeffs != 0:
             lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
-        ii += 2
+        ii += 1
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
     if abs(objective_constant) > 1e-8:
-- 
2.43.0


From 5b88b066d88110fe9243e605d1393e43b90fb123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 12/42] fix: substitute known and proportional moments in the
 constraints of SDPA files

---
 inflation/sdp/writer_utils.py | 54 +++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index d4a9353..d56880c 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -325,14 +325,14 @@ def write_to_sdpa(problem, filename):
 
     # Prepare objective
     objective = np.zeros(nvars)
-    for variable, coeff in problem.objective.items():
+    for variable, coeff in problem._processed_objective.items():
         if variable == problem.One:
             if abs(coeff) > 1e-8:
                 warn(f"Export removed the constant {coeff} from the objective")
         else:
             objective[var_corresp[variable.idx] - 1] = coeff
     objective = str(objective.tolist()).replace("[", "").replace("]", "")
-    objective_constant = problem.objective[problem.One]
+    objective_constant = problem._processed_objective[problem.One]
 
     # Prepare upper bounds
     if len(problem.moment_upperbounds) > 0:
@@ -372,6 +372,25 @@ def write_to_sdpa(problem, filename):
                 lines.append(f"0\t{block}\t{ii}\t{ii}\t{lb}\n")
             ii += 1
 
+    def constraint_terms(constraint):
+        """Collect the coefficients of a constraint by variable number after
+        substituting known and semiknown moments, 0 being the constant term.
+        """
+        terms = {}
+        for mon, coeff in constraint.items():
+            if mon in problem.semiknown_moments:
+                factor, mon = problem.semiknown_moments[mon]
+                coeff = coeff * factor
+            if mon == problem.One:
+                var = 0
+            elif mon in problem.known_moments:
+                var   = 0
+                coeff = coeff * problem.known_moments[mon]
+            else:
+                var = var_corresp[mon.idx]
+            terms[var] = terms.get(var, 0) + coeff
+        return {var: coeff for var, coeff in terms.items() if coeff != 0}
+
     # Prepare equalities
     if len(problem.moment_equalities) > 0:
         block += 1
@@ -379,15 +398,13 @@ def write_to_sdpa(problem, filename):
         block_size = 2*len(problem.moment_equalities)
         blockstruct.append(str(-block_size))
     for equality in problem.moment_equalities:
-        for var, coeff in equality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                    lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{-coeff}\n")
-                else:
-                    lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
-                    lines.append(f"0\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
+        for var, coeff in constraint_terms(equality).items():
+            if var != 0:
+                lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
+                lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{-coeff}\n")
+            else:
+                lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
+                lines.append(f"0\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
         ii += 2
 
     # Prepare inequalities
@@ -397,16 +414,11 @@ def write_to_sdpa(problem, filename):
         block_size = len(problem.moment_inequalities)
         blockstruct.append(str(-block_size))
     for inequality in problem.moment_inequalities:
-        sumcoeffs = 0
-        for var, coeff in inequality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                else:
-                    sumcoeffs += coeff
-        if sumcoeffs != 0:
-            lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
+        for var, coeff in constraint_terms(inequality).items():
+            if var != 0:
+                lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
+            else:
+                lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
         ii += 1
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
-- 
2.43.0


From 729cd30a5c0fcff8dcbf85b650c51975f8bacf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 13/42] fix: write every bound of an LP file on its own line

---
 inflation/lp/writer_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 277fa04..4144565 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -51,9 +51,9 @@ def write_to_lp(args: dict, filename: str) -> None:
 
     f.write("bounds\n")
     for x in lower_bounds:
-        f.write(f"{lower_bounds[x]} <= {x}")
+        f.write(f"{lower_bounds[x]} <= {x}\n")
     for x in upper_bounds:
-        f.write(f"{x} <= {upper_bounds[x]}")
+        f.write(f"{x} <= {upper_bounds[x]}\n")
     f.write("end")
     f.close()
 
-- 
2.43.0


From a988cdef5679f40e63e24104e881dfb703e0ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 14/42] fix: write the coefficients of MPS files with full
 precision

---
 inflation/lp/writer_utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 4144565..9dd046f 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -105,16 +105,16 @@ def write_to_mps(args: dict, filename: str) -> None:
     for x in variables:
         if x in set(objective).difference(known_vars):
             arr = [x, 'obj', objective[x]]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            f.write("    {:10}{:10}{:<10}\n".format(*arr))
         for i, eq in enumerate(internal_equalities):
             if x in set(eq).difference(known_vars):
                 arr = [x, f"c{i}", eq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                f.write("    {:10}{:10}{:<10}\n".format(*arr))
         for i, ineq in enumerate(inequalities):
             if x in set(ineq).difference(known_vars):
                 arr = [x, f"c{nof_equalities + i}",
                        ineq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                f.write("    {:10}{:10}{:<10}\n".format(*arr))
 
     f.write(f"RHS\n")
     # Specify objective offset
@@ -123,7 +123,7 @@ def write_to_mps(args: dict, filename: str) -> None:
         rhs -= objective[x] * known_vars[x]
     if rhs != 0:
         arr = ['rhs', 'obj', rhs]
-        f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write("    {:10}{:10}{:<10}\n".format(*arr))
 
     # Specify non-zero RHS values of the constraints
     for i, c in enumerate(constraints):
@@ -132,7 +132,7 @@ def write_to_mps(args: dict, filename: str) -> None:
             rhs -= c[x] * known_vars[x]
         if rhs != 0:
             arr = ['rhs', f"c{i}", rhs]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            f.write("    {:10}{:10}{:<10}\n".format(*arr))
 
     f.write(f"RANGES\n")
 
@@ -140,10 +140,10 @@ def write_to_mps(args: dict, filename: str) -> None:
     f.write(f"BOUNDS\n")
     for x in lower_bounds:
         arr = ['bound', x, lower_bounds[x]]
-        f.write(" LO {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write(" LO {:10}{:10}{:<10}\n".format(*arr))
     for x in upper_bounds:
         arr = ['bound', x, upper_bounds[x]]
-        f.write(" UP {:10}{:10}{:<10.4f}\n".format(*arr))
+        f.write(" UP {:10}{:10}{:<10}\n".format(*arr))
     f.write(f"ENDATA")
     f.close()
 
-- 
2.43.0


From 6333f3719d03ae8c604d5ad51b1188f1df9f0b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 15/42] fix: keep the variable part of the moment matrix when
 solving the dual SDP

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index bfa0b4b..debdba2 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -353,7 +353,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                     ci  = float(var_objective[x])
                     lhs += ci
                 try:
-                    F = Fi.pop(x)
+                    F = Fi[x]
                     lhs = Expr.add(lhs,
                                    Expr.dot(Z,
                                             scipy_to_mosek(F)))
-- 
2.43.0


From b04e2cd33083652543ceb275c338ed8fc5675a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 16/42] fix: do not overwrite the objective contribution to the
 SDP certificate

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index debdba2..e4d8ffb 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -513,7 +513,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             if mask_matrices:
                 for x in set(Fi).intersection(known_vars):
                     support = Fi[x].nonzero()
-                    certificate[x] = np.dot(ymat[support], Fi[x][support].toarray().ravel())
+                    certificate[x] += np.dot(ymat[support], Fi[x][support].toarray().ravel())
 
             # + I · b
             if var_inequalities:
-- 
2.43.0


From cedc68d0bf98cc5af971527648a3df874d23bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 17/42] fix: keep sparse equalities when adding proportionality
 relations to an LP

---
 inflation/lp/lp_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 8472b45..b7da3eb 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -646,9 +646,10 @@ def convert_dicts(semiknown_vars: Dict = None,
         data = list(sum(data, ()))
         semiknown_mat = coo_array((data, (row, col)),
                                    shape=(nof_semiknown, nof_variables))
-        if "equalities" in sparse_args:
+        if args.get("equalities") is not None:
             sparse_args["equalities"] = vstack(
-                (sparse_args["equalities"], semiknown_mat))
+                (sparse_args.get("equalities", args["equalities"]),
+                 semiknown_mat))
         else:
             sparse_args["equalities"] = semiknown_mat
     return sparse_args
-- 
2.43.0


From 1fab9ff1dc8eb71c0b008c959815eab1ccb0ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 18/42] fix: do not reorder the matrices passed to the LP
 solver interface

---
 inflation/lp/lp_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index b7da3eb..33f35fd 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -195,12 +195,12 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
         and response code.
     """
 
-    inequalities=drop_zero_rows(inequalities)
-    equalities=drop_zero_rows(equalities)
-    known_vars=canonical_order(known_vars)
-    upper_bounds=canonical_order(upper_bounds)
-    lower_bounds=canonical_order(lower_bounds)
-    objective=canonical_order(objective)
+    inequalities=drop_zero_rows(inequalities.copy())
+    equalities=drop_zero_rows(equalities.copy())
+    known_vars=canonical_order(known_vars.copy())
+    upper_bounds=canonical_order(upper_bounds.copy())
+    lower_bounds=canonical_order(lower_bounds.copy())
+    objective=canonical_order(objective.copy())
 
     if verbose > 1:
         t0 = perf_counter()
-- 
2.43.0


From b1b9496dd802521c26ff7e939dec9c690776d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 19/42] fix: rectifying settings does not modify its argument

---
 inflation/InflationProblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/InflationProblem.py b/inflation/InflationProblem.py
index a90b59d..1f6eed8 100644
--- a/inflation/InflationProblem.py
+++ b/inflation/InflationProblem.py
@@ -742,7 +742,7 @@ class InflationProblem:
             The monomial with the index of the setting representing only the
             private setting.
         """
-        new_mon = np.array(monomial, copy=False)
+        new_mon = np.array(monomial)
         for o in new_mon:
             party_index        = o[0] - 1  # Parties start at 1 our notation
             effective_setting  = o[-2]
-- 
2.43.0


From 813430cbb1e37030744e6602df6c72b1aa4152df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 20/42] fix: give conjugate monomials their own symbol and
 legacy name

---
 inflation/sdp/monomial_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index 2e553cf..020ffc1 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -10,6 +10,7 @@ from typing import Tuple
 
 from ..lp.monomial_classes import InternalAtomicMonomial as InternalAtomicMonomialLP
 from ..lp.monomial_classes import CompoundMoment as CompoundMomentLP
+from .monomial_utils import symbol_from_atom_name
 
 
 @total_ordering
@@ -101,6 +102,8 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
             dagger.as_2d_array = self.context._lexorder[self.conjugate_lexmon]
             dagger.name = "<" + " ".join(
                 self.context._lexrepr_to_names[dagger.as_lexmon]) + ">"
+            dagger.legacy_name = dagger._raw_name
+            dagger.symbol = symbol_from_atom_name(dagger.name)
             return dagger
         
 class CompoundMomentSDP(CompoundMomentLP):
-- 
2.43.0


From ba7da2a0c25a713fca1114ea6a0d63222c99ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 21/42] fix: monomials equal to their only factor have the same
 hash

---
 inflation/lp/monomial_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inflation/lp/monomial_classes.py b/inflation/lp/monomial_classes.py
index c8b9fc3..fb22d33 100644
--- a/inflation/lp/monomial_classes.py
+++ b/inflation/lp/monomial_classes.py
@@ -318,6 +318,9 @@ class CompoundMoment(object):
 
     def __hash__(self):
         """Return the hash of the Monomial."""
+        if self.n_factors == 1:
+            # Coincides with the hash of the atomic monomial it is equal to
+            return hash(self.factors[0])
         return hash(self.signature)
 
     def __len__(self):
-- 
2.43.0


From 20e0810fe339b03ebc64bdfcdd1c7b2cf0c6c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 22/42] fix: the unit monomial of an LP is the registered one

---
 inflation/lp/InflationLP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index cde75df..e1459c5 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1248,6 +1248,7 @@ class InflationLP(object):
 
         self._atomic_monomial_from_hash = dict()
         self.monomial_from_atoms = dict()
+        self.One = self.Monomial(self.identity_operator, idx=0)
         self.Constant_Term = self.One.__copy__()
         self.Constant_Term.name = self.constant_term_name
         self.monomial_from_name[self.constant_term_name] = self.Constant_Term
-- 
2.43.0


From 21e6e4ea38960156e3a8f0b7d580ffdf9c84934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 23/42] fix: size of the constant term does not depend on later
 column builds

---
 inflation/sdp/InflationSDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index d9369d2..eebaf5b 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2199,7 +2199,7 @@ class InflationSDP:
                 ub[self.constant_term_name] = bnd
             solverargs["inequalities"].append(ub)
         solverargs["mask_matrices"][self.constant_term_name] = coo_array(
-            (self.n_columns, self.n_columns))
+            self.momentmatrix.shape)
         return solverargs
 
     def _reset_solution(self) -> None:
-- 
2.43.0


From 2ab517d17368df771f48ac35b5d2f112738ce675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 24/42] fix: explicit lower bounds replace the default one in
 the dual LP

---
 inflation/lp/lp_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 33f35fd..e6d47ae 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -340,7 +340,9 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
 
                 # Set constraint bounds corresponding to primal variable bounds
                 if default_non_negative:
-                    bkc = np.broadcast_to(mosek.boundkey.lo, nof_dual_constraints)
+                    bkc = np.repeat(mosek.boundkey.lo, nof_dual_constraints)
+                    # An explicit lower bound replaces the default one
+                    bkc[lower_bounds.col] = mosek.boundkey.fx
                 else:
                     bkc = np.broadcast_to(mosek.boundkey.fx, nof_dual_constraints)
 
-- 
2.43.0


From 0045753a09e609f008decac42b1c06aad5deb096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 25/42] fix: missing components of an LP are empty, not an
 error

---
 inflation/lp/lp_utils.py | 4 +++-
 inflation/utils.py       | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index e6d47ae..a7fe7ef 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -124,7 +124,9 @@ def solveLP(objective: Union[coo_array, Dict] = None,
                                       "arguments are of mixed form."
         solver_args.update(convert_dicts(**solver_args))
     solver_args.pop("semiknown_vars", None)
-    return solveLP_sparse(**solver_args)
+    # Missing arguments take the empty default values of the solver interface
+    return solveLP_sparse(**{k: v for k, v in solver_args.items()
+                             if v is not None})
 
 
 blank_coo_array = coo_array((0, 0), dtype=np.int8)
diff --git a/inflation/utils.py b/inflation/utils.py
index bf1fee2..f496144 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -165,7 +165,8 @@ def vstack(blocks: tuple, format: str = 'coo') -> sps.coo_array:
     elif nof_blocks == 1:
         return non_empty[0]
     else:
-        return sps.coo_array([])
+        nof_cols = max((mat.shape[-1] for mat in blocks), default=0)
+        return sps.coo_array((0, nof_cols))
 
 
 def perm_combiner(old_perms: np.ndarray, new_perms: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 7815403411a40dc831cbde9cb43092148273fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 26/42] fix: a single stacked block has the requested sparse
 format

---
 inflation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/utils.py b/inflation/utils.py
index f496144..14d2b42 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -163,7 +163,7 @@ def vstack(blocks: tuple, format: str = 'coo') -> sps.coo_array:
         else:
             return sps.vstack(blocks, format)
     elif nof_blocks == 1:
-        return non_empty[0]
+        return non_empty[0].asformat(format)
     else:
         nof_cols = max((mat.shape[-1] for mat in blocks), default=0)
         return sps.coo_array((0, nof_cols))
-- 
2.43.0


From 5ef684eca20c2dc80f52b42a9cc63aa748cddf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:21 +0000
Subject: [PATCH 27/42] fix: variables without constraints were not part of the
 LP

---
 inflation/lp/lp_utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index a7fe7ef..77a36af 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -245,6 +245,15 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
             # Initialize constraint matrix
             constraints = vstack((inequalities, equalities))
 
+            # Variables without any constraint still are variables
+            constraints.resize(constraints.shape[0],
+                               max(mat.shape[-1] for mat in (objective,
+                                                             known_vars,
+                                                             inequalities,
+                                                             equalities,
+                                                             lower_bounds,
+                                                             upper_bounds)))
+
             nof_primal_inequalities = inequalities.shape[0]
             nof_primal_equalities = equalities.shape[0]
 
-- 
2.43.0


From 1324ba6b6c8721a2c71c4a0980f6a67cd31f1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 28/42] fix: stacking keeps the width of the widest block

---
 inflation/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inflation/utils.py b/inflation/utils.py
index 14d2b42..e798b7c 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -163,7 +163,12 @@ def vstack(blocks: tuple, format: str = 'coo') -> sps.coo_array:
         else:
             return sps.vstack(blocks, format)
     elif nof_blocks == 1:
-        return non_empty[0].asformat(format)
+        (mat,) = non_empty
+        nof_cols = max(block.shape[-1] for block in blocks)
+        if mat.shape[-1] < nof_cols:
+            mat = mat.copy()
+            mat.resize(mat.shape[0], nof_cols)
+        return mat.asformat(format)
     else:
         nof_cols = max((mat.shape[-1] for mat in blocks), default=0)
         return sps.coo_array((0, nof_cols))
-- 
2.43.0


From 81871b0cf1010f52a99a9ea68af4fd88a1e002d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 29/42] fix: the conjugate of a monomial is named like any
 other monomial

The name of the dagger was always assembled from the operator names with copy
indices, while a monomial built from the same operators uses the names without
copy indices whenever no source is used in two copies.
---
 inflation/sdp/monomial_classes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index 020ffc1..4a49be8 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -100,8 +100,7 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
             dagger.as_lexmon = self.conjugate_lexmon
             dagger.signature = (self.n_operators, tuple(self.conjugate_lexmon))
             dagger.as_2d_array = self.context._lexorder[self.conjugate_lexmon]
-            dagger.name = "<" + " ".join(
-                self.context._lexrepr_to_names[dagger.as_lexmon]) + ">"
+            dagger.name = dagger._name
             dagger.legacy_name = dagger._raw_name
             dagger.symbol = symbol_from_atom_name(dagger.name)
             return dagger
-- 
2.43.0


From 509829cddb197fbfc61d5c6ea7b80ca60eff6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 30/42] fix: write lower bounds of LP files so that they are
 read back

MOSEK ignores a bound of the form 'l <= x' unless an upper bound follows on
the same line, while 'x >= l' is understood.
---
 inflation/lp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 9dd046f..4353757 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -51,7 +51,7 @@ def write_to_lp(args: dict, filename: str) -> None:
 
     f.write("bounds\n")
     for x in lower_bounds:
-        f.write(f"{lower_bounds[x]} <= {x}\n")
+        f.write(f"{x} >= {lower_bounds[x]}\n")
     for x in upper_bounds:
         f.write(f"{x} <= {upper_bounds[x]}\n")
     f.write("end")
-- 
2.43.0


From 1cff14418f21b364441785e202ab1a9765ca1495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 31/42] fix: keep the constant of an LP file's objective when
 all its moments are known

---
 inflation/lp/writer_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 4353757..6c5d3ca 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -240,12 +240,12 @@ def format_constraint_lp(known_vars: dict,
     cons = ""
     for x in set(constraint).difference(known_vars):
         cons += f"{constraint[x]} {x} + "
+    if cons_type == 'obj':
+        return cons + str(c)
     if cons == "":
         return cons
 
-    if cons_type == 'obj':
-        cons += str(c)
-    elif cons_type == 'eq':
+    if cons_type == 'eq':
         cons = cons[:-3] + ' = ' + str(-c)
     elif cons_type == 'ineq':
         cons = cons[:-3] + ' >= ' + str(-c)
-- 
2.43.0


From 92651224562bd3c7c5af101e5c30bb4b121033e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:21 +0000
Subject: [PATCH 32/42] fix: MPS files declare every variable that has a bound

A bound on a variable without a column makes the file unreadable.
---
 inflation/lp/writer_utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 6c5d3ca..7134d5f 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -103,8 +103,9 @@ def write_to_mps(args: dict, filename: str) -> None:
     # Specify columns of the problem
     f.write(f"COLUMNS\n")
     for x in variables:
-        if x in set(objective).difference(known_vars):
-            arr = [x, 'obj', objective[x]]
+        if x not in known_vars:
+            # Variables that are only bounded must be declared too
+            arr = [x, 'obj', objective.get(x, 0)]
             f.write("    {:10}{:10}{:<10}\n".format(*arr))
         for i, eq in enumerate(internal_equalities):
             if x in set(eq).difference(known_vars):
@@ -139,11 +140,13 @@ def write_to_mps(args: dict, filename: str) -> None:
     # Specify variable bound values
     f.write(f"BOUNDS\n")
     for x in lower_bounds:
-        arr = ['bound', x, lower_bounds[x]]
-        f.write(" LO {:10}{:10}{:<10}\n".format(*arr))
+        if x not in known_vars:
+            arr = ['bound', x, lower_bounds[x]]
+            f.write(" LO {:10}{:10}{:<10}\n".format(*arr))
     for x in upper_bounds:
-        arr = ['bound', x, upper_bounds[x]]
-        f.write(" UP {:10}{:10}{:<10}\n".format(*arr))
+        if x not in known_vars:
+            arr = ['bound', x, upper_bounds[x]]
+            f.write(" UP {:10}{:10}{:<10}\n".format(*arr))
     f.write(f"ENDATA")
     f.close()
 
-- 
2.43.0


From 84e6009752dd1f84823503acf8c4d4a9199f354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 33/42] fix: exported LPs keep variables free when the program
 does not bound them

---
 inflation/lp/InflationLP.py  |  1 +
 inflation/lp/writer_utils.py | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index e1459c5..1ff5a18 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -929,6 +929,7 @@ class InflationLP(object):
 
         # Write file according to the extension
         args = self._prepare_solver_arguments(separate_bounds=True)
+        args["default_non_negative"] = self.default_non_negative
         if self.verbose > 0:
             print("Writing the LP program to", filename)
         if extension == "lp":
diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 7134d5f..f9ac9e6 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -50,6 +50,9 @@ def write_to_lp(args: dict, filename: str) -> None:
             i += 1
 
     f.write("bounds\n")
+    # The format makes variables non-negative unless told otherwise
+    for x in processed_args["free_variables"]:
+        f.write(f"{x} free\n")
     for x in lower_bounds:
         f.write(f"{x} >= {lower_bounds[x]}\n")
     for x in upper_bounds:
@@ -139,6 +142,9 @@ def write_to_mps(args: dict, filename: str) -> None:
 
     # Specify variable bound values
     f.write(f"BOUNDS\n")
+    # The format makes variables non-negative unless told otherwise
+    for x in processed_args["free_variables"]:
+        f.write(" FR {:10}{:10}\n".format('bound', x))
     for x in lower_bounds:
         if x not in known_vars:
             arr = ['bound', x, lower_bounds[x]]
@@ -182,7 +188,7 @@ def process_arguments(args: dict) -> dict:
     -------
     dict
         Processed objective, known_vars, internal_equalities,
-        inequalities, lower_bounds, upper_bounds, variables
+        inequalities, lower_bounds, upper_bounds, variables, free_variables
     """
     old_variables = args["variables"]
     old_equalities = deepcopy(args["equalities"])
@@ -202,6 +208,11 @@ def process_arguments(args: dict) -> dict:
     new_lower_bounds = {var_idx[x]: c for x, c in old_lower_bounds.items()}
     new_upper_bounds = {var_idx[x]: c for x, c in old_upper_bounds.items()}
     new_objective = {var_idx[x]: c for x, c in old_objective.items()}
+    free_variables = []
+    if not args.get("default_non_negative", True):
+        free_variables = [x for x in new_variables
+                          if x not in new_lower_bounds
+                          and x not in new_known_vars]
 
     return {
         "objective": new_objective,
@@ -210,7 +221,8 @@ def process_arguments(args: dict) -> dict:
         "inequalities": new_inequalities,
         "known_vars": new_known_vars,
         "lower_bounds": new_lower_bounds,
-        "upper_bounds": new_upper_bounds}
+        "upper_bounds": new_upper_bounds,
+        "free_variables": free_variables}
 
 
 def format_constraint_lp(known_vars: dict,
-- 
2.43.0


From 67c7e69d25f3d3bc9eec70823654a75342f32db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 34/42] fix: the constant of absorbed LP bounds is one the
 solver knows

The fixed constant was assigned to a temporary dictionary and the absorbed
bounds used the unit moment even when its value is not fixed.
---
 inflation/lp/InflationLP.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 1ff5a18..f285280 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1949,12 +1949,15 @@ class InflationLP(object):
 
         # Rectification in the event of unnormalized problem
         variables = self.monomial_names.tolist()
-        if {1, self.constant_term_name}.isdisjoint(self.known_vars_by_name):
-            self.known_vars_by_name[self.constant_term_name] = 1.
-            if self.constant_term_name not in variables:
-                variables.append(self.constant_term_name)
+        known_vars = self.known_vars_by_name
+        constant = self.One.name
+        if constant not in known_vars:
+            constant = self.constant_term_name
+            known_vars[constant] = 1.
+            if constant not in variables:
+                variables.append(constant)
         solverargs = {"objective": self.objective_by_name,
-                      "known_vars": self.known_vars_by_name,
+                      "known_vars": known_vars,
                       "semiknown_vars": self.semiknown_by_name,
                       "equalities": self.moment_equalities_by_name,
                       "inequalities": self.moment_inequalities_by_name,
@@ -1963,10 +1966,10 @@ class InflationLP(object):
             solverargs["lower_bounds"] = self.lowerbounds_by_name
             solverargs["upper_bounds"] = self.upperbounds_by_name
         else:
-            solverargs["inequalities"].extend({mon.name: 1, '1': -bnd}
+            solverargs["inequalities"].extend({mon.name: 1, constant: -bnd}
                                               for mon, bnd in
                                               self.moment_lowerbounds.items())
-            solverargs["inequalities"].extend({mon.name: -1, '1': bnd}
+            solverargs["inequalities"].extend({mon.name: -1, constant: bnd}
                                               for mon, bnd in
                                               self.moment_upperbounds.items())
         return solverargs
-- 
2.43.0


From 268e3d35f5a93dd65e229319f5b2865a52b19768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:57 +0000
Subject: [PATCH 35/42] fix: stacking empty blocks returns the requested sparse
 format

---
 inflation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/utils.py b/inflation/utils.py
index e798b7c..52265a9 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -171,7 +171,7 @@ def vstack(blocks: tuple, format: str = 'coo') -> sps.coo_array:
         return mat.asformat(format)
     else:
         nof_cols = max((mat.shape[-1] for mat in blocks), default=0)
-        return sps.coo_array((0, nof_cols))
+        return sps.coo_array((0, nof_cols)).asformat(format)
 
 
 def perm_combiner(old_perms: np.ndarray, new_perms: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 65fdacbeb89362b204dbdcddef5d62b1d95ef28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:30 +0000
Subject: [PATCH 36/42] fix: bounded variables are variables of the LP

---
 inflation/lp/lp_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 77a36af..b40224a 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -116,6 +116,8 @@ def solveLP(objective: Union[coo_array, Dict] = None,
                     variables.update([x, x2])
             if known_vars:
                 variables.update(known_vars)
+            for bounds in ("lower_bounds", "upper_bounds"):
+                variables.update(used_args.get(bounds, ()))
             variables = sorted(variables)
             solver_args["variables"] = variables
         solver_args.update(convert_dicts(**solver_args))
-- 
2.43.0


From 1ebc01e5f718fe4557907a3797321583ad07b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:55 +0000
Subject: [PATCH 37/42] fix: the SDP's polynomial string of an empty dictionary
 is not an error

---
 inflation/sdp/InflationSDP.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index eebaf5b..30463d6 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -981,8 +981,11 @@ class InflationSDP:
                     polynomial_as_str += mon.name
                 else:
                     polynomial_as_str += "{0}*{1}".format(abs(coeff), mon.name)
-        return polynomial_as_str[1:] if polynomial_as_str[
-                                            0] == "+" else polynomial_as_str
+        if not len(polynomial_as_str):  # Failsafe for empty dictionary.
+            polynomial_as_str = "0"
+        elif polynomial_as_str[0] == "+":
+            polynomial_as_str = polynomial_as_str[1:]
+        return polynomial_as_str
 
     def certificate_as_string(self,
                               clean: bool = True,
-- 
2.43.0


From 658b97098d80530950d9b514d09ec9d604d1b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:55 +0000
Subject: [PATCH 38/42] fix: certificates add up the coefficients of the unit
 moment and of the constant term

---
 inflation/lp/InflationLP.py   | 14 ++++++++++----
 inflation/sdp/InflationSDP.py | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index f285280..acbfb1f 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -672,12 +672,18 @@ class InflationLP(object):
             warn("Beware that, because the problem contains linearized " +
                  "polynomial constraints, the certificate is not guaranteed " +
                  "to apply to other distributions.")
-        if np.allclose(list(dual.values()), 0.):
+        # "1" and the constant term are different names of the same monomial
+        certificate = dict()
+        for name, coeff in dual.items():
+            mon = self.monomial_from_name[name]
+            certificate[mon] = certificate.get(mon, 0.) + coeff
+        if np.allclose(list(certificate.values()), 0.):
             return dict()
         if clean:
-            dual = clean_coefficients(dual, chop_tol, round_decimals)
-        return {self.monomial_from_name[k]: v for k, v in dual.items()
-                if not self.monomial_from_name[k].is_zero}
+            certificate = clean_coefficients(certificate, chop_tol,
+                                             round_decimals)
+        return {mon: coeff for mon, coeff in certificate.items()
+                if not mon.is_zero}
 
     def probs_from_dict(self,
                         dict_with_monomial_keys: dict) -> sp.core.add.Add:
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 30463d6..ad58461 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -885,12 +885,18 @@ class InflationSDP:
             warn("Beware that, because the problem contains linearized " +
                  "polynomial constraints, the certificate is not guaranteed " +
                  "to apply to other distributions.")
-        if np.allclose(list(dual.values()), 0.):
+        # "1" and the constant term are different names of the same monomial
+        certificate = dict()
+        for name, coeff in dual.items():
+            mon = self.monomial_from_name[name]
+            certificate[mon] = certificate.get(mon, 0.) + coeff
+        if np.allclose(list(certificate.values()), 0.):
             return dict()
         if clean:
-            dual = clean_coefficients(dual, chop_tol, round_decimals)
-        return {self.monomial_from_name[k]: v for k, v in dual.items()
-                if not self.monomial_from_name[k].is_zero}
+            certificate = clean_coefficients(certificate, chop_tol,
+                                             round_decimals)
+        return {mon: coeff for mon, coeff in certificate.items()
+                if not mon.is_zero}
 
     def probs_from_dict(self,
                         dict_with_monomial_keys: dict) -> sp.core.add.Add:
-- 
2.43.0


From a79c06530933de79022b8f9a05f8f2ad9116038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:37 +0000
Subject: [PATCH 39/42] fix: updating values recomputes what followed from the
 earlier ones

---
 inflation/lp/InflationLP.py   | 9 +++++++++
 inflation/sdp/InflationSDP.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index acbfb1f..0b142a7 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -413,6 +413,13 @@ class InflationLP(object):
 
         self.use_lpi_constraints = use_lpi_constraints
 
+        if not only_specified_values:
+            # What followed from earlier values is determined anew below
+            self.semiknown_moments = dict()
+            for mon in self._product_moments:
+                self.known_moments.pop(mon, None)
+            self._product_moments = set()
+
         if (len(self.objective) > 1) and self.use_lpi_constraints:
             warn("You have an objective function set. Be aware that imposing "
                  + "linearized polynomial constraints will constrain the "
@@ -459,6 +466,7 @@ class InflationLP(object):
                     self.use_lpi_constraints)
                 if known_status == "Known":
                     self.known_moments[mon] = value
+                    self._product_moments.add(mon)
                 elif known_status == "Semi":
                     if self.use_lpi_constraints:
                         unknown_mon = \
@@ -1723,6 +1731,7 @@ class InflationLP(object):
     def _reset_values(self) -> None:
         """Reset the known values."""
         self._reset_solution()
+        self._product_moments  = set()
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         self.known_moments[self.One] = 1.
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index ad58461..18ac447 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -683,6 +683,13 @@ class InflationSDP:
 
         self.use_lpi_constraints = use_lpi_constraints
 
+        if not only_specified_values:
+            # What followed from earlier values is determined anew below
+            self.semiknown_moments = dict()
+            for mon in self._product_moments:
+                self.known_moments.pop(mon, None)
+            self._product_moments = set()
+
         if (len(self.objective) > 1) and self.use_lpi_constraints:
             warn("You have an objective function set. Be aware that imposing "
                  + "linearized polynomial constraints will constrain the "
@@ -739,6 +746,7 @@ class InflationSDP:
                     self.use_lpi_constraints)
                 if known_status == "Known":
                     self.known_moments[moment] = value
+                    self._product_moments.add(moment)
                 elif known_status == "Semi":
                     if self.use_lpi_constraints:
                         unknown_mon = \
@@ -2030,6 +2038,7 @@ class InflationSDP:
     def _reset_values(self) -> None:
         """Reset the known values."""
         self._reset_solution()
+        self._product_moments  = set()
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         if self.momentmatrix_has_a_zero:
-- 
2.43.0


From c2bcb3a9a7c570f7bea0c773d5c2636c445b9891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:27 +0000
Subject: [PATCH 40/42] fix: products of moments are read in any order of their
 factors

A product of moments that is not written exactly as it is named, for
instance P[B=0]*P[A=0] instead of P[A=0]*P[B=0], was silently taken for
the moment of the product of the operators, P[A=0 B=0].
---
 inflation/lp/InflationLP.py     |  7 +++++++
 inflation/sdp/InflationSDP.py   |  9 +++++++++
 inflation/sdp/monomial_utils.py | 24 ++++++++++++++++++++++++
 3 files changed, 40 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 0b142a7..932e3e7 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -25,6 +25,7 @@ from .numbafied import (nb_outer_bitwise_or,
                         nb_outer_bitwise_xor)
 from .writer_utils import write_to_lp, write_to_mps
 from ..sdp.fast_npa import nb_is_knowable as is_knowable
+from ..sdp.monomial_utils import atom_names_from_name
 from ..sdp.quantum_tools import flatten_symbolic_powers
 from ..utils import clean_coefficients, eprint, partsextractor, \
     expand_sparse_vec
@@ -1116,6 +1117,12 @@ class InflationLP(object):
                 return self.monomial_from_name[mon]
             except KeyError:
                 print(f"As of now we only recognize \n{list(self.monomial_from_name.keys())}")
+                factors = atom_names_from_name(mon)
+                if len(factors) > 1:
+                    # A product of moments, not the moment of a product
+                    return self._monomial_from_atoms(
+                        [atom for factor in factors
+                         for atom in self._sanitise_monomial(factor).factors])
                 return self._sanitise_monomial(self._interpret_name(mon))
         elif isinstance(mon, Real):
             if np.isclose(float(mon), 1):
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 18ac447..e4ae480 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -25,6 +25,7 @@ from .fast_npa import (reverse_mon,
                        to_canonical_1d_internal
                        )
 from .monomial_classes import InternalAtomicMonomialSDP, CompoundMomentSDP
+from .monomial_utils import atom_names_from_name
 from .quantum_tools import (apply_inflation_symmetries,
                             calculate_momentmatrix_1d_internal,
                             construct_normalization_eqs,
@@ -1589,6 +1590,14 @@ class InflationSDP:
                 self.mon_to_lexrepr(array))
             return self.Moment_1d(canon_lexmon)
         elif isinstance(moment, (str, sp.core.symbol.Expr)):
+            if isinstance(moment, str) \
+                    and moment not in self.monomial_from_name:
+                factors = atom_names_from_name(moment)
+                if len(factors) > 1:
+                    # A product of moments, not the moment of a product
+                    return self._monomial_from_atoms(
+                        [atom for factor in factors
+                         for atom in self._sanitise_moment(factor).factors])
             return self._sanitise_moment(self._interpret_name(moment))
         elif isinstance(moment, Real):
             if np.isclose(float(moment), 1):
diff --git a/inflation/sdp/monomial_utils.py b/inflation/sdp/monomial_utils.py
index f3bd8c2..36420b7 100644
--- a/inflation/sdp/monomial_utils.py
+++ b/inflation/sdp/monomial_utils.py
@@ -82,6 +82,30 @@ def name_from_atom_names(atom_names: List[str]) -> str:
         return "1"
 
 
+def atom_names_from_name(name: str) -> List[str]:
+    """Split the name of a product of moments into the names of its factors.
+
+    Parameters
+    ----------
+    name : str
+        The name of a product of moments, e.g., ``"P[A=0]^2*<B=0 C=1>"``.
+
+    Returns
+    -------
+    List[str]
+        The names of the factors, repeated according to their powers. If the
+        name is not a product of moments (for instance, if it is a product of
+        operators) the list only contains the name itself.
+    """
+    factors = []
+    for factor in name.split("*"):
+        match = re.fullmatch(r"(.*[>\])}])(?:\^(\d+))?", factor)
+        if match is None:
+            return [name]
+        factors.extend([match[1]] * int(match[2] or 1))
+    return factors
+
+
 def symbol_from_atom_name(atomic_name: str) -> sympy.core.symbol.Symbol:
     """Create a sympy Symbol for a monomial from its name.
 
-- 
2.43.0


From 0910a605ff5e3993c22531c13c8de377e93eb2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:46 +0000
Subject: [PATCH 41/42] fix: moments in probability notation are understood

The test for the opening P[ compared a single character, so P[A=0 B=0]
was refused unless that very name was registered already.
---
 inflation/lp/InflationLP.py   | 2 +-
 inflation/sdp/InflationSDP.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 932e3e7..5293209 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1218,7 +1218,7 @@ class InflationLP(object):
         except (KeyError, AttributeError):
             pass
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index e4ae480..5cdf305 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1734,7 +1734,7 @@ class InflationSDP:
         except (KeyError, AttributeError):
             pass
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
-- 
2.43.0


From 21be8ff44962df946dcaafe0098b9ea05a9dce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:23 +0000
Subject: [PATCH 42/42] fix: do not bound moments below by zero that are only
 real

Moments that are equal to their conjugate under exchanges of copies were
taken to be non-negative. For projectors P, Q of a party A with two sources
(one with two copies) <P^{11} Q^{12} Q^{11} P^{12}> can be -3/16, so the
relaxation excluded realisable correlations. Only products that read the same
backwards up to commutations are bounded now; this also gives the factors of
moments the is_physical attribute that CompoundMoment.is_physical asks for.
---
 inflation/sdp/InflationSDP.py     |  2 +-
 inflation/sdp/monomial_classes.py | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 5cdf305..66e179d 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -379,7 +379,7 @@ class InflationSDP:
             self.hermitian_moments = self.moments
         else:
             self.hermitian_moments = [mon for mon in self.moments
-                                      if mon.is_hermitian]
+                                      if mon.is_physical]
             if self.verbose > 1:
                 print(f"The problem has {len(self.hermitian_moments)} " +
                       "non-negative moments.")
diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index 4a49be8..238eab5 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -10,6 +10,7 @@ from typing import Tuple
 
 from ..lp.monomial_classes import InternalAtomicMonomial as InternalAtomicMonomialLP
 from ..lp.monomial_classes import CompoundMoment as CompoundMomentLP
+from .fast_npa import reverse_mon
 from .monomial_utils import symbol_from_atom_name
 
 
@@ -90,6 +91,18 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
          under inflation symmetries and commutation."""
         return np.array_equal(self.as_lexmon, self.conjugate_lexmon)
 
+    @cached_property
+    def is_physical(self) -> bool:
+        """Whether the expectation value is never negative, this is, whether
+        the product of projectors reads the same backwards up to commutations.
+        Being equivalent to its conjugate only under inflation symmetries makes
+        the expectation value real, but not necessarily non-negative."""
+        if self.is_all_commuting:
+            return True
+        reverse = self.context._to_canonical_memoized_1d(
+            reverse_mon(self.as_lexmon), apply_only_commutations=True)
+        return np.array_equal(self.as_lexmon, reverse)
+
     @property
     def dagger(self):
         """Returns the adjoint of the Monomial."""
-- 
2.43.0

