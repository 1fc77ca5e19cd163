From e333b2adadafdd6cd3b4ee12b0d03fff6bf37eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:33 +0000
Subject: [PATCH 01/44] fix: register a variable or constraint name only after
 the element is built

A rejected variable (lower bound above upper bound) or constraint (invalid
sense or coefficients) left its name in the name-to-index map, so the name
resolved to another element and could not be used again.
---
 qiskit_optimization/problems/quadratic_program.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 6c88b2f..0488d7c 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -223,9 +223,9 @@ class QuadraticProgram:
                 raise QiskitOptimizationError(
                     "Variable name already exists: {}".format(indexed_name)
                 )
+            variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
             names.append(indexed_name)
             self._variables_index[indexed_name] = self.get_num_vars()
-            variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
             self._variables.append(variable)
             variables.append(variable)
         return names, variables
@@ -646,10 +646,10 @@ class QuadraticProgram:
             while "c{}".format(k) in self.linear_constraints_index:
                 k += 1
             name = "c{}".format(k)
-        self.linear_constraints_index[name] = len(self.linear_constraints)
         if linear is None:
             linear = {}
         constraint = LinearConstraint(self, name, linear, Constraint.Sense.convert(sense), rhs)
+        self.linear_constraints_index[name] = len(self.linear_constraints)
         self.linear_constraints.append(constraint)
         return constraint
 
@@ -739,7 +739,6 @@ class QuadraticProgram:
             while "q{}".format(k) in self.quadratic_constraints_index:
                 k += 1
             name = "q{}".format(k)
-        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         if linear is None:
             linear = {}
         if quadratic is None:
@@ -747,6 +746,7 @@ class QuadraticProgram:
         constraint = QuadraticConstraint(
             self, name, linear, quadratic, Constraint.Sense.convert(sense), rhs
         )
+        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         self.quadratic_constraints.append(constraint)
         return constraint
 
-- 
2.43.0


From 6599f61c09d51f7bc4b45d2a4a6b76c0efc187af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:33 +0000
Subject: [PATCH 02/44] fix: scale the lower-bound cross terms when encoding
 integer products

For a product of two integer variables with nonzero lower bounds the linear
terms of the binary encoding ignored the weight of each bit, so the converted
objective and constraints differed from the original ones.
---
 qiskit_optimization/converters/integer_to_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b4e19db..b9027ba 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -152,9 +152,9 @@ class IntegerToBinary(QuadraticProgramConverter):
                         quadratic[z_x, z_y] = v * coeff_x * coeff_y
 
                 for z_x, coeff_x in self._conv[x]:
-                    linear[z_x] = linear.get(z_x, 0.0) + v * y.lowerbound
+                    linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound
                 for z_y, coeff_y in self._conv[y]:
-                    linear[z_y] = linear.get(z_y, 0.0) + v * x.lowerbound
+                    linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound
 
                 constant += v * x.lowerbound * y.lowerbound
 
-- 
2.43.0


From 948eed67e809961fff5ac839a8537294e63964e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:33 +0000
Subject: [PATCH 03/44] fix: encode integer variables whose bounds coincide

IntegerToBinary took log2(0) and raised OverflowError for a fixed integer
variable.
---
 qiskit_optimization/converters/integer_to_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b9027ba..a1e47c1 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -104,7 +104,7 @@ class IntegerToBinary(QuadraticProgramConverter):
         self, name: str, lowerbound: float, upperbound: float
     ) -> List[Tuple[str, int]]:
         var_range = upperbound - lowerbound
-        power = int(np.log2(var_range))
+        power = int(np.log2(var_range)) if var_range > 0 else 0
         bounded_coef = var_range - (2 ** power - 1)
 
         coeffs = [2 ** i for i in range(power)] + [bounded_coef]
-- 
2.43.0


From d67a5f3f80f36f7ec191a62de0fd3424e8c09db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 04/44] fix: return a zero operator from to_ising for a
 constant objective

The identity with coefficient one shifted the energy of every bitstring by one
relative to the objective value.
---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 0488d7c..cc5fd2d 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1322,12 +1322,12 @@ class QuadraticProgram:
         # Remove paulis whose coefficients are zeros.
         qubit_op = sum(PauliOp(pauli, coeff=coeff) for coeff, pauli in pauli_list)
 
-        # qubit_op could be the integer 0, in this case return an identity operator of
+        # qubit_op could be the integer 0, in this case return a zero operator of
         # appropriate size
         if isinstance(qubit_op, OperatorBase):
             qubit_op = qubit_op.reduce()
         else:
-            qubit_op = I ^ num_nodes
+            qubit_op = 0 * I ^ num_nodes
 
         return qubit_op, offset
 
-- 
2.43.0


From 8d79343d0e470f699b81d108655c3890958f8ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 05/44] fix: accept identity terms in from_ising

An operator with an identity term was rejected as having more than two Pauli
Zs; such a term is a constant shift of the energy.
---
 qiskit_optimization/problems/quadratic_program.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index cc5fd2d..7a27d94 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1388,7 +1388,10 @@ class QuadraticProgram:
             num_z = len(z_index)
 
             # Add its weight of the Pauli term to the corresponding element of QUBO matrix
-            if num_z == 1:
+            if num_z == 0:
+                # An identity term only shifts the energy
+                offset += coeff.real
+            elif num_z == 1:
                 qubo_matrix[z_index[0], z_index[0]] = coeff.real
             elif num_z == 2:
                 qubo_matrix[z_index[0], z_index[1]] = coeff.real
-- 
2.43.0


From 51f178d3e68ca833d0f7f12d4c3a34252ee6768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 06/44] fix: clear the quadratic program before loading an
 Ising Hamiltonian

As from_docplex does. Variables already present shifted the indices the
objective is built with, and loading twice failed on the variable names.
---
 qiskit_optimization/problems/quadratic_program.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 7a27d94..0b28556 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1363,6 +1363,9 @@ class QuadraticProgram:
                 "operator in the ListOp separately."
             )
 
+        # clear current problem
+        self.clear()
+
         # add binary variables
         for i in range(qubit_op.num_qubits):
             self.binary_var(name="x_{0}".format(i))
-- 
2.43.0


From e003c60f7de5983b3d51e8211c9d00e405900af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 07/44] fix: respect the phase of a Pauli term in from_ising

The sign of a Pauli such as -ZZ was dropped.
---
 qiskit_optimization/problems/quadratic_program.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 0b28556..3809193 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1384,7 +1384,8 @@ class QuadraticProgram:
         for pauli_op in pauli_list:
             pauli_op = pauli_op.to_pauli_op()
             pauli = pauli_op.primitive
-            coeff = pauli_op.coeff
+            # a Pauli carries its own phase, e.g., -ZZ
+            coeff = pauli_op.coeff * (-1j) ** pauli.phase
             # Count the number of Pauli Zs in a Pauli term
             lst_z = pauli.z.tolist()
             z_index = [i for i, z in enumerate(lst_z) if z is True]
-- 
2.43.0


From a9ec292b96860ed0dacad55e3a9cf828fb0caf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 08/44] fix: report disjoint bounds of a substitution as
 INFEASIBLE

Substituting a variable by another one whose bounds do not overlap raised
QiskitOptimizationError from the bound setters instead of returning a problem
with the documented INFEASIBLE status.
---
 .../problems/quadratic_program.py             | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 3809193..f94bca1 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1675,21 +1675,23 @@ class SubstituteVariables:
                 lb_j = var_j.lowerbound
                 ub_j = var_j.upperbound
                 if v > 0:
-                    var_j.lowerbound = max(lb_j, new_lb_i)
-                    var_j.upperbound = min(ub_j, new_ub_i)
+                    new_lb_j = max(lb_j, new_lb_i)
+                    new_ub_j = min(ub_j, new_ub_i)
                 else:
-                    var_j.lowerbound = max(lb_j, new_ub_i)
-                    var_j.upperbound = min(ub_j, new_lb_i)
-
-        for var in self._dst.variables:
-            if var.lowerbound > var.upperbound:
-                logger.warning(
-                    "Infeasible lower and upper bound: %s %f %f",
-                    var,
-                    var.lowerbound,
-                    var.upperbound,
-                )
-                feasible = False
+                    new_lb_j = max(lb_j, new_ub_i)
+                    new_ub_j = min(ub_j, new_lb_i)
+                if new_lb_j > new_ub_j:
+                    # a variable cannot hold such bounds
+                    logger.warning(
+                        "Infeasible lower and upper bound: %s %f %f",
+                        var_j,
+                        new_lb_j,
+                        new_ub_j,
+                    )
+                    feasible = False
+                else:
+                    var_j.lowerbound = new_lb_j
+                    var_j.upperbound = new_ub_j
 
         return feasible
 
-- 
2.43.0


From 384b77d987dbeaa57d593b6309b9bf9c9215d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 09/44] fix: reject chained substitutions in whatever order
 they are given

{'x': ('y', 1), 'y': ('z', 1)} raised KeyError, while the opposite order was
rejected with QiskitOptimizationError.
---
 qiskit_optimization/problems/quadratic_program.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index f94bca1..af99322 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1634,6 +1634,13 @@ class SubstituteVariables:
                     )
                 subs[i_2] = (j_2, v)
 
+        for i_2, (j_2, v) in subs.items():
+            if j_2 in subs:
+                raise QiskitOptimizationError(
+                    "Cannot substitute by variable that gets substituted itself: "
+                    "{} <- {} {}".format(i_2, j_2, v)
+                )
+
         self._subs = subs
 
     def _variables(self) -> bool:
-- 
2.43.0


From 8104e4e6e1de13b72fdc9204f65476b82c79f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 10/44] fix: use a continuous slack for constraints on
 continuous variables

In the auto mode an integer slack (and a rounded right-hand side) was added
whenever the coefficients were integers, even if the left-hand side takes
fractional values, which removed feasible points.
---
 .../converters/inequality_to_equality.py      | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index a59cafb..482c531 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -12,6 +12,7 @@
 """The inequality to equality converter."""
 
 import copy
+import itertools
 import logging
 import math
 from typing import List, Optional, Union
@@ -248,8 +249,11 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.linear_constraint(new_linear, "==", rhs, name)
 
     def _add_auto_slack_var_linear_constraint(self, linear, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())):
+        # If a coefficient that is not integer or a continuous variable exist,
+        # use a continuous slack variable
+        if self._contains_any_float_value(
+            list(linear.values())
+        ) or self._contains_any_continuous_var(linear):
             self._add_continuous_slack_var_linear_constraint(linear, sense, rhs, name)
         # Else use an integer slack variable
         else:
@@ -330,15 +334,24 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.quadratic_constraint(new_linear, quadratic, "==", rhs, name)
 
     def _add_auto_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())) or self._contains_any_float_value(
-            list(quadratic.values())
+        # If a coefficient that is not integer or a continuous variable exist,
+        # use a continuous slack variable
+        if (
+            self._contains_any_float_value(list(linear.values()))
+            or self._contains_any_float_value(list(quadratic.values()))
+            or self._contains_any_continuous_var(linear)
+            or self._contains_any_continuous_var(itertools.chain.from_iterable(quadratic))
         ):
             self._add_continuous_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
         # Else use an integer slack variable
         else:
             self._add_integer_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
 
+    def _contains_any_continuous_var(self, names):
+        return any(
+            self._src.get_variable(name).vartype == Variable.Type.CONTINUOUS for name in names
+        )
+
     def _calc_linear_bounds(self, linear):
         lhs_lb, lhs_ub = 0, 0
         for var_name, v in linear.items():
-- 
2.43.0


From fc7df0d0e3ada0759de34b8b373ca3e7f764e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 11/44] fix: give slack variables of equally named constraints
 different names

A linear and a quadratic inequality may share a name; their slack variables
then clashed and the conversion raised.
---
 .../converters/inequality_to_equality.py          | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index 482c531..1a88a3e 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -194,7 +194,7 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_rhs = math.ceil(rhs)
 
         # Add a new integer variable.
-        slack_name = name + self._delimiter + "int_slack"
+        slack_name = self._new_slack_name(name, "int_slack")
 
         lhs_lb, lhs_ub = self._calc_linear_bounds(linear)
 
@@ -222,7 +222,7 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.linear_constraint(new_linear, "==", new_rhs, name)
 
     def _add_continuous_slack_var_linear_constraint(self, linear, sense, rhs, name):
-        slack_name = name + self._delimiter + "continuous_slack"
+        slack_name = self._new_slack_name(name, "continuous_slack")
 
         lhs_lb, lhs_ub = self._calc_linear_bounds(linear)
 
@@ -277,7 +277,7 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_rhs = math.ceil(rhs)
 
         # Add a new integer variable.
-        slack_name = name + self._delimiter + "int_slack"
+        slack_name = self._new_slack_name(name, "int_slack")
 
         lhs_lb, lhs_ub = self._calc_quadratic_bounds(linear, quadratic)
 
@@ -306,7 +306,7 @@ class InequalityToEquality(QuadraticProgramConverter):
 
     def _add_continuous_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
         # Add a new continuous variable.
-        slack_name = name + self._delimiter + "continuous_slack"
+        slack_name = self._new_slack_name(name, "continuous_slack")
 
         lhs_lb, lhs_ub = self._calc_quadratic_bounds(linear, quadratic)
 
@@ -347,6 +347,13 @@ class InequalityToEquality(QuadraticProgramConverter):
         else:
             self._add_integer_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
 
+    def _new_slack_name(self, name, suffix):
+        slack_name = name + self._delimiter + suffix
+        # a linear and a quadratic constraint may have the same name
+        while slack_name in self._dst.variables_index:
+            slack_name = "_" + slack_name
+        return slack_name
+
     def _contains_any_continuous_var(self, names):
         return any(
             self._src.get_variable(name).vartype == Variable.Type.CONTINUOUS for name in names
-- 
2.43.0


From 4f83b000af7bc31e2e9421f1796e9cee6209b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 12/44] fix: take variable bounds into account for the
 automatic penalty

The sum of the absolute coefficients bounds the range of the objective only
for binary variables; with integer variables the penalty could be too small
and an infeasible point become optimal.
---
 .../converters/linear_equality_to_penalty.py  | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index 17cce7a..a20b2fa 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -153,13 +153,22 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
             )
             return default_penalty
 
-        # (upper bound - lower bound) can be calculate as the sum of absolute value of coefficients
         # Firstly, add 1 to guarantee that infeasible answers will be greater than upper bound.
         penalties = [1.0]
-        # add linear terms of the object function.
-        penalties.extend(abs(coef) for coef in self._src.objective.linear.to_dict().values())
-        # add quadratic terms of the object function.
-        penalties.extend(abs(coef) for coef in self._src.objective.quadratic.to_dict().values())
+        # add (upper bound - lower bound) of the linear terms of the object function.
+        for i, coef in self._src.objective.linear.to_dict(use_name=True).items():
+            var = self._src.get_variable(i)
+            penalties.append(abs(coef) * (var.upperbound - var.lowerbound))
+        # add (upper bound - lower bound) of the quadratic terms of the object function.
+        for (i, j), coef in self._src.objective.quadratic.to_dict(use_name=True).items():
+            var_i = self._src.get_variable(i)
+            var_j = self._src.get_variable(j)
+            prods = [
+                x_i * x_j
+                for x_i in (var_i.lowerbound, var_i.upperbound)
+                for x_j in (var_j.lowerbound, var_j.upperbound)
+            ]
+            penalties.append(abs(coef) * (max(prods) - min(prods)))
 
         return fsum(penalties)
 
-- 
2.43.0


From 7660ccebbb3e7df9369bfd75d83aeeb624a2c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 13/44] fix: keep the best trial of a multi-start maximization

The best value was stored in the sense of the problem but compared with values
to be minimized, so with several trials a maximization could return a worse
trial than the best one found.
---
 qiskit_optimization/algorithms/multistart_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 57ed263..624d624 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -90,14 +90,14 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
             fval = problem.objective.evaluate(x) * problem.objective.sense.value
             # we minimize the objective
             if fval < fval_sol:
-                # here we get back to the original sense of the problem
-                fval_sol = fval * problem.objective.sense.value
+                fval_sol = fval
                 x_sol = x
                 rest_sol = rest
 
         return OptimizationResult(
             x=x_sol,
-            fval=fval_sol,
+            # here we get back to the original sense of the problem
+            fval=fval_sol * problem.objective.sense.value,
             variables=problem.variables,
             status=self._get_feasibility_status(problem, x_sol),
             raw_results=rest_sol,
-- 
2.43.0


From c2a0987fbbbb7786500894a45cf9bd4c8360dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:46 +0000
Subject: [PATCH 14/44] fix: store expression coefficients as floats

Coefficients given as a list or array of integers fixed an integer dtype, so
setting a fractional coefficient afterwards silently truncated it.
---
 qiskit_optimization/problems/linear_expression.py    | 4 ++--
 qiskit_optimization/problems/quadratic_expression.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index 5ff5468..cbd8f72 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -80,9 +80,9 @@ class LinearExpression(QuadraticProgramElement):
             or isinstance(coefficients, ndarray)
             and len(coefficients.shape) == 1
         ):
-            coefficients = dok_matrix([coefficients])
+            coefficients = dok_matrix([coefficients], dtype=float)
         elif isinstance(coefficients, spmatrix):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             coeffs = dok_matrix((1, self.quadratic_program.get_num_vars()))
             for index, value in coefficients.items():
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index e968264..a060227 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -101,7 +101,7 @@ class QuadraticExpression(QuadraticProgramElement):
             QiskitOptimizationError: if coefficients are given in unsupported format.
         """
         if isinstance(coefficients, (list, ndarray, spmatrix)):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             n = self.quadratic_program.get_num_vars()
             coeffs = dok_matrix((n, n))
-- 
2.43.0


From 8fdfc4ecf62272dce18b7400b30a285378e5e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 15/44] fix: read the edge weights in the Gset parser

The adjacency matrix was filled with the index of the target node.
---
 qiskit_optimization/applications/max_cut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index 3510773..73cb92e 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -116,10 +116,10 @@ class Maxcut(GraphOptimizationApplication):
                     w = np.zeros((n, n))
                     header = False
                 else:
-                    s__, t__, _ = v
+                    s__, t__, w__ = v
                     s__ -= 1  # adjust 1-index
                     t__ -= 1  # ditto
-                    w[s__, t__] = t__
+                    w[s__, t__] = w__
                     count += 1
             assert m == count
         w += w.T
-- 
2.43.0


From 2c87a0a3534947ee924333dd32033b990bef5b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 16/44] fix: make the TSPLIB parser accept TSPLIB files

The values of TYPE and EDGE_WEIGHT_TYPE were compared with their line ends, the
EOF line was taken for a coordinate, and the coordinates were passed to
networkx in a form that attached all of them to every node.
---
 qiskit_optimization/applications/tsp.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 822f8a6..9af267a 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -160,11 +160,9 @@ class Tsp(GraphOptimizationApplication):
             coord_section = False
             for line in infile:
                 if line.startswith("NAME"):
-                    name = line.split(":")[1]
-                    name.strip()
+                    name = line.split(":")[1].strip()
                 elif line.startswith("TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "TSP":
                         raise QiskitOptimizationError(
                             'This supports only "TSP" type. Actual: {}'.format(typ)
@@ -173,14 +171,15 @@ class Tsp(GraphOptimizationApplication):
                     dim = int(line.split(":")[1])
                     coord = np.zeros((dim, 2))  # type: ignore
                 elif line.startswith("EDGE_WEIGHT_TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "EUC_2D":
                         raise QiskitOptimizationError(
                             'This supports only "EUC_2D" edge weight. Actual: {}'.format(typ)
                         )
                 elif line.startswith("NODE_COORD_SECTION"):
                     coord_section = True
+                elif line.startswith("EOF"):
+                    break
                 elif coord_section:
                     v = line.split()
                     index = int(v[0]) - 1
@@ -192,8 +191,9 @@ class Tsp(GraphOptimizationApplication):
         y_max = max(coord_[1] for coord_ in coord)
         y_min = min(coord_[1] for coord_ in coord)
 
+        pos = dict(enumerate(coord))
         graph = nx.random_geometric_graph(
-            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=coord
+            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=pos
         )
         for w, v in graph.edges:
             delta = [graph.nodes[w]["pos"][i] - graph.nodes[v]["pos"][i] for i in range(2)]
-- 
2.43.0


From 114686ce8eb55a3b38e9e4b9d62a333aa7ba4b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 17/44] fix: honour seed 0 in Tsp.create_random_instance

---
 qiskit_optimization/applications/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 9af267a..2421ec5 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -130,7 +130,7 @@ class Tsp(GraphOptimizationApplication):
         Returns:
              A Tsp instance created from the input information
         """
-        if seed:
+        if seed is not None:
             algorithm_globals.random_seed = seed
         coord = algorithm_globals.random.uniform(low, high, (n, 2))
         pos = {i: (coord_[0], coord_[1]) for i, coord_ in enumerate(coord)}
-- 
2.43.0


From 2b2e9eda7f6f42cb5a31b73702aed17706b4ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 18/44] fix: return a FAILURE result when the SDP cannot be
 solved

An empty x made the construction of the result raise.
---
 qiskit_optimization/algorithms/goemans_williamson_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index 1cf06bd..a0a0e13 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -156,7 +156,7 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         except (DCPError, DGPError, SolverError):
             logger.error("Can't solve SDP problem")
             return GoemansWilliamsonOptimizationResult(
-                x=[],
+                x=None,
                 fval=0,
                 variables=problem.variables,
                 status=OptimizationResultStatus.FAILURE,
-- 
2.43.0


From 93f4a85f30013ec0624e066ec4b21167e674b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:28 +0000
Subject: [PATCH 19/44] fix: read sampled eigenstates with the right bit order
 and probabilities

VQE and QAOA on a shot-based backend return a dictionary of amplitudes (square
roots of the frequencies) whose bitstrings end with the first qubit. The
bitstrings were read from the wrong end and the amplitudes taken for counts.
GroverOptimizer passed such dictionaries already reversed, and overwrote the
frequencies of outcomes that share the key register instead of adding them.
---
 .../algorithms/grover_optimizer.py              | 10 ++++++----
 .../algorithms/optimization_algorithm.py        | 17 ++++++++++-------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 749f540..7dc62ac 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -261,9 +261,11 @@ class GroverOptimizer(OptimizationAlgorithm):
                         rho = partial_trace(self._circuit_results, indices)
                         self._circuit_results = np.diag(rho.data) ** 0.5
                     else:
-                        self._circuit_results = {
-                            i[0:n_key]: v for i, v in self._circuit_results.items()
-                        }
+                        probs = {}  # type: Dict[str, float]
+                        for i, amp in self._circuit_results.items():
+                            key = i[-n_key:]
+                            probs[key] = probs.get(key, 0.0) + amp ** 2
+                        self._circuit_results = {i: np.sqrt(p) for i, p in probs.items()}
 
                     raw_samples = self._eigenvector_to_solutions(
                         self._circuit_results, problem_init
@@ -347,7 +349,7 @@ class GroverOptimizer(OptimizationAlgorithm):
             state = result.get_counts(qc)
             shots = self.quantum_instance.run_config.shots
             hist = {key[::-1]: val / shots for key, val in state.items() if val > 0}
-            self._circuit_results = {b[::-1]: np.sqrt(v / shots) for (b, v) in state.items()}
+            self._circuit_results = {b: np.sqrt(v / shots) for (b, v) in state.items()}
         return hist
 
     @staticmethod
diff --git a/qiskit_optimization/algorithms/optimization_algorithm.py b/qiskit_optimization/algorithms/optimization_algorithm.py
index 41174e4..1505ec1 100644
--- a/qiskit_optimization/algorithms/optimization_algorithm.py
+++ b/qiskit_optimization/algorithms/optimization_algorithm.py
@@ -520,7 +520,7 @@ class OptimizationAlgorithm(ABC):
 
         Examples:
             >>> op = MatrixOp(numpy.array([[1, 1], [1, -1]]) / numpy.sqrt(2))
-            >>> eigenvectors = {'0': 12, '1': 1}
+            >>> eigenvectors = {'0': numpy.sqrt(12 / 13), '1': numpy.sqrt(1 / 13)}
             >>> print(eigenvector_to_solutions(eigenvectors, op))
             [('0', 0.7071067811865475, 0.9230769230769231),
             ('1', -0.7071067811865475, 0.07692307692307693)]
@@ -535,12 +535,13 @@ class OptimizationAlgorithm(ABC):
             TypeError: If the type of eigenvector is not supported.
         """
         if isinstance(eigenvector, DictStateFn):
-            eigenvector = {bitstr: val ** 2 for (bitstr, val) in eigenvector.primitive.items()}
+            eigenvector = eigenvector.primitive
         elif isinstance(eigenvector, StateFn):
             eigenvector = eigenvector.to_matrix()
 
         def generate_solution(bitstr, qubo, probability):
-            x = np.fromiter(list(bitstr), dtype=int)
+            # the last character of a bitstring corresponds to the first qubit
+            x = np.fromiter(list(bitstr[::-1]), dtype=int)
             fval = qubo.objective.evaluate(x)
             return SolutionSample(
                 x=x,
@@ -551,10 +552,12 @@ class OptimizationAlgorithm(ABC):
 
         solutions = []
         if isinstance(eigenvector, dict):
-            all_counts = sum(eigenvector.values())
+            # the values are amplitudes, i.e., square roots of the sampling frequencies
+            weights = {bitstr: abs(val) ** 2 for (bitstr, val) in eigenvector.items()}
+            all_weights = sum(weights.values())
             # iterate over all samples
-            for bitstr, count in eigenvector.items():
-                sampling_probability = count / all_counts
+            for bitstr, weight in weights.items():
+                sampling_probability = weight / all_weights
                 # add the bitstring, if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
                     solutions.append(generate_solution(bitstr, qubo, sampling_probability))
@@ -567,7 +570,7 @@ class OptimizationAlgorithm(ABC):
             for i, sampling_probability in enumerate(probabilities):
                 # add the i-th state if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
-                    bitstr = "{:b}".format(i).rjust(num_qubits, "0")[::-1]
+                    bitstr = "{:b}".format(i).rjust(num_qubits, "0")
                     solutions.append(generate_solution(bitstr, qubo, sampling_probability))
 
         else:
-- 
2.43.0


From 9343018efb1b5ef4cc4d1b8f91ca134480ce5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:28 +0000
Subject: [PATCH 20/44] fix: do not modify the given problem in GroverOptimizer

With an empty list of converters the problem passed to solve was itself turned
into a minimization problem with a shifted constant.
---
 qiskit_optimization/algorithms/grover_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 7dc62ac..5369bfa 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -173,8 +173,8 @@ class GroverOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO
-        problem_ = self._convert(problem, self._converters)
-        problem_init = deepcopy(problem_)
+        problem_init = self._convert(problem, self._converters)
+        problem_ = deepcopy(problem_init)
 
         # convert to minimization problem
         if problem_.objective.sense == problem_.objective.Sense.MAXIMIZE:
-- 
2.43.0


From e74d722a674b07eb1d0479eea66020f2b211ce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:59 +0000
Subject: [PATCH 21/44] fix: tell samples apart by their values in
 MeanAggregator

The concatenated digits of the values mixed up solutions with values of several
digits (or failed for negative ones), and every aggregated sample was reported
as feasible.
---
 .../algorithms/warm_start_qaoa_optimizer.py   | 45 +++++++------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index 53148fe..dd83eb4 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -66,41 +66,26 @@ class MeanAggregator(BaseAggregator):
         """
 
         # Use a dict for fast solution look-up
-        # Key: sample code, value: tuple of fval, probability
-        dict_samples: Dict[str, Tuple[float, float]] = {}
-
-        def _to_string(x: np.ndarray) -> str:
-            return "".join(str(int(v)) for v in x)
-
-        def _from_string(string) -> np.ndarray:
-            return np.array([float(c) for c in string])
+        # Key: values of the variables, value: aggregated sample
+        # values of the variables, function value, probability and status of each solution
+        dict_samples: Dict[Tuple[float, ...], SolutionSample] = {}
+        num_results = len(results)
 
-        # Sum up all the probabilities in the results
+        # Sum up all the probabilities in the results, divided by the number of results to normalize
         for result in results:
             for sample in result.samples:
-                # state, fval, prob = sample[0], sample[1], sample[2]
-                state, fval, prob = (
-                    _to_string(sample.x),
-                    sample.fval,
-                    sample.probability,
-                )
+                state = tuple(sample.x)
+                prob = sample.probability / num_results
                 if state in dict_samples:
-                    dict_samples[state] = (fval, dict_samples[state][1] + prob)
-                else:
-                    dict_samples[state] = (fval, prob)
+                    prob += dict_samples[state].probability
+                dict_samples[state] = SolutionSample(
+                    x=np.array(state, dtype=float),
+                    fval=sample.fval,
+                    probability=prob,
+                    status=sample.status,
+                )
 
-        # Divide by the number of results to normalize
-        aggregated_samples = []
-        num_results = len(results)
-        for state in dict_samples:
-            # sample = (state, dict_samples[state][0], dict_samples[state][1] / num_results)
-            sample = SolutionSample(
-                x=_from_string(state),
-                fval=dict_samples[state][0],
-                probability=dict_samples[state][1] / num_results,
-                status=OptimizationResultStatus.SUCCESS,
-            )
-            aggregated_samples.append(sample)
+        aggregated_samples = list(dict_samples.values())
 
         return aggregated_samples
 
-- 
2.43.0


From 0a44d86637cd902ad13672d0949f6533cf1ce1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:59 +0000
Subject: [PATCH 22/44] fix: do not interpret aggregated warm-start samples a
 second time

The samples of each run are already in terms of the original variables, so with
several initial solutions a problem that needs slack or integer variables
failed; and an infeasible sample with a better value could be returned.
---
 .../algorithms/warm_start_qaoa_optimizer.py           | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index dd83eb4..d245d36 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -67,7 +67,6 @@ class MeanAggregator(BaseAggregator):
 
         # Use a dict for fast solution look-up
         # Key: values of the variables, value: aggregated sample
-        # values of the variables, function value, probability and status of each solution
         dict_samples: Dict[Tuple[float, ...], SolutionSample] = {}
         num_results = len(results)
 
@@ -321,15 +320,19 @@ class WarmStartQAOAOptimizer(MinimumEigenOptimizer):
             return results[0]
         else:
             samples = self._aggregator.aggregate(results)
-            samples.sort(key=lambda sample: converted_problem.objective.sense.value * sample.fval)
+            samples.sort(
+                key=lambda sample: (
+                    sample.status.value,
+                    problem.objective.sense.value * sample.fval,
+                )
+            )
 
-            # translate result back to the original variables
+            # the samples are already translated back to the original variables
             return cast(
                 MinimumEigenOptimizationResult,
                 self._interpret(
                     x=samples[0].x,
                     problem=problem,
-                    converters=self._converters,
                     result_class=MinimumEigenOptimizationResult,
                     samples=samples,
                 ),
-- 
2.43.0


From 9597a1ed12407bc0a21d17115d3204a8f509acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 23/44] fix: do not modify the given problem in
 RecursiveMinimumEigenOptimizer

With an empty list of converters the objective of the problem passed to solve
was itself rewritten when two variables turned out to be anti-correlated.
---
 .../algorithms/recursive_minimum_eigen_optimizer.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index f9487eb..fde647c 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -224,8 +224,8 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO, this implicitly checks if the problem is compatible
-        problem_ = self._convert(problem, self._converters)
-        problem_ref = deepcopy(problem_)
+        problem_ref = self._convert(problem, self._converters)
+        problem_ = deepcopy(problem_ref)
 
         # run recursive optimization until the resulting problem is small enough
         replacements = {}  # type: Dict[str, Tuple[str, int]]
-- 
2.43.0


From 6adce9ee4c2a98058edac4a7d855e9dd0fa9b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 24/44] fix: keep the bounds of the variables in
 anti-correlated replacements

Replacing x_i by 1 - x_j shifted the objective but not the bounds of x_i, so the
reduced problem forced x_j to 0 and solutions with x_j = 1 were infeasible.
---
 .../algorithms/recursive_minimum_eigen_optimizer.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index fde647c..3ab3998 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -274,6 +274,10 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
                     else:
                         problem_.objective.linear[k] = 0
 
+                # 1c. shift the bounds
+                problem_.variables[i].lowerbound -= 1
+                problem_.variables[i].upperbound -= 1
+
                 # 2. replace x_i by -x_j
                 problem_ = problem_.substitute_variables(variables={i: (j, -1)})
                 if problem_.status == QuadraticProgram.Status.INFEASIBLE:
-- 
2.43.0


From fe1e73c6dfeea521a5f8576d01dd3b89d68d54bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 25/44] fix: save the y iterates of ADMM in their own list

They were appended to the z iterates, so the dual residual of every iteration
but the first two compared z with an unrelated vector.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 2b4694d..4ac543b 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -384,7 +384,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             self._state.x0_saved.append(self._state.x0)
             self._state.u_saved.append(self._state.u)
             self._state.z_saved.append(self._state.z)
-            self._state.z_saved.append(self._state.y)
+            self._state.y_saved.append(self._state.y)
 
             self._update_rho(residual, dual_residual)
 
-- 
2.43.0


From d49e20e1fd1d53894201df1e654749ca1f8612e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 26/44] fix: decrease rho in ADMM when the dual residual
 dominates

According to the referenced update rule rho is divided by tau_decr.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 4ac543b..0e1ae4d 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -822,7 +822,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             if primal_residual > self._params.mu_res * dual_residual:
                 self._state.rho = self._params.tau_incr * self._state.rho
             elif dual_residual > self._params.mu_res * primal_residual:
-                self._state.rho = self._params.tau_decr * self._state.rho
+                self._state.rho = self._state.rho / self._params.tau_decr
 
     def _get_constraint_residual(self) -> float:
         """Compute violation of the constraints of the original problem, as:
-- 
2.43.0


From b480dac2e027df3cff67e362c03b3257ed114979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 27/44] fix: include all binary variables concerned in the QUBO
 step of ADMM

A binary variable that appears in the objective only as the second factor of
products, or in equality constraints only with negative coefficients, was left
out and stayed at zero.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 0e1ae4d..c10cbca 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -535,6 +535,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
         """
         # here we keep binary indices from the original problem
         step1_absolute_indices = []
+        quadratic = self._state.op.objective.quadratic.to_array(symmetric=True)
 
         # iterate over binary variables and put all binary variables mentioned in the objective
         # to the array for the step1
@@ -543,8 +544,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             # either in the linear or quadratic terms
             if (
                 self._state.op.objective.linear[binary_index] != 0
-                or np.abs(self._state.op.objective.quadratic.coefficients[binary_index, :]).sum()
-                != 0
+                or np.abs(quadratic[binary_index, :]).sum() != 0
             ):
                 # add the variable if it was not added before
                 if binary_index not in step1_absolute_indices:
@@ -559,7 +559,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
         for constraint in self._state.binary_equality_constraints:
             for binary_index in list(rest_binary):
                 if (
-                    constraint.linear[binary_index] > 0
+                    constraint.linear[binary_index] != 0
                     and binary_index not in step1_absolute_indices
                 ):
                     # a binary variable with the binary_index is present in this constraint
-- 
2.43.0


From bcdabb9df14f11cebee70f77146d4a28f1a1fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 28/44] fix: reject products of integer and continuous
 variables in ADMM

Integer variables are encoded with binary ones, which have to be separable from
the continuous variables in the objective.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index c10cbca..527c54c 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -266,7 +266,9 @@ class ADMMOptimizer(OptimizationAlgorithm):
         msg = ""
 
         # 1. get bin/int and continuous variable indices
-        bin_int_indices = self._get_variable_indices(problem, Variable.Type.BINARY)
+        bin_int_indices = self._get_variable_indices(
+            problem, Variable.Type.BINARY
+        ) + self._get_variable_indices(problem, Variable.Type.INTEGER)
         continuous_indices = self._get_variable_indices(problem, Variable.Type.CONTINUOUS)
 
         # 2. binary and continuous variables are separable in objective
-- 
2.43.0


From 7b9a7204886c050ac841dafa563c2fc2bd17a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 29/44] fix: reject docplex elements that from_docplex would
 silently drop

---
 qiskit_optimization/problems/quadratic_program.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index af99322..d44fc3e 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -884,6 +884,14 @@ class QuadraticProgram:
             QiskitOptimizationError: if the model contains unsupported elements.
         """
 
+        # reject the elements of docplex that have no counterpart in a quadratic program
+        if model.has_multi_objective():
+            raise QiskitOptimizationError("Unsupported element: multiple objectives")
+        if model.number_of_sos > 0:
+            raise QiskitOptimizationError("Unsupported element: SOS sets")
+        if model.number_of_lazy_constraints > 0:
+            raise QiskitOptimizationError("Unsupported element: lazy constraints")
+
         # clear current problem
         self.clear()
 
-- 
2.43.0


From 71d01e6d95718e2e49e65a6901e66c13c105e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:49 +0000
Subject: [PATCH 30/44] fix: load Ising Hamiltonians that collapse to a single
 term

---
 qiskit_optimization/problems/quadratic_program.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index d44fc3e..96c857a 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1384,10 +1384,10 @@ class QuadraticProgram:
         # The other elements in the QUBO matrix are for quadratic terms of the qubit operator.
         qubo_matrix = zeros((qubit_op.num_qubits, qubit_op.num_qubits))
 
-        if not isinstance(qubit_op, SummedOp):
-            pauli_list = [qubit_op.to_pauli_op()]
-        else:
-            pauli_list = qubit_op.to_pauli_op()
+        pauli_list = qubit_op.to_pauli_op()
+        # a sum may collapse to a single Pauli term
+        if not isinstance(pauli_list, SummedOp):
+            pauli_list = [pauli_list]
 
         for pauli_op in pauli_list:
             pauli_op = pauli_op.to_pauli_op()
-- 
2.43.0


From b3f9b2698b31a968e085ddd7fa442d97ee5b5358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:52 +0000
Subject: [PATCH 31/44] fix: let expressions grow with the variables added
 after them

---
 qiskit_optimization/problems/quadratic_program.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 96c857a..0bd689c 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -228,8 +228,17 @@ class QuadraticProgram:
             self._variables_index[indexed_name] = self.get_num_vars()
             self._variables.append(variable)
             variables.append(variable)
+        self._resize_expressions()
         return names, variables
 
+    def _resize_expressions(self) -> None:
+        """Makes room for the current variables in all expressions of this quadratic program."""
+        num_vars = self.get_num_vars()
+        for linear in [self._objective, *self._linear_constraints, *self._quadratic_constraints]:
+            linear.linear.coefficients.resize((1, num_vars))
+        for quadratic in [self._objective, *self._quadratic_constraints]:
+            quadratic.quadratic.coefficients.resize((num_vars, num_vars))
+
     def _var_dict(
         self,
         keys: Union[int, Sequence],
-- 
2.43.0


From d8b0ba4eb59285588ce94461638dc101316b8929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:40 +0000
Subject: [PATCH 32/44] fix: notice constraints whose terms cancel in a
 substitution

---
 qiskit_optimization/problems/quadratic_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 0bd689c..498c923 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1809,7 +1809,7 @@ class SubstituteVariables:
                     sense=quad_cst.sense,
                     rhs=rhs,
                 )
-            elif linear.nnz > 0:
+            elif linear.count_nonzero() > 0:
                 name = quad_cst.name
                 lin_names = set(lin.name for lin in self._dst.linear_constraints)
                 while name in lin_names:
-- 
2.43.0


From 8f4e01886f192eb626ec81bdf28d055d45dd48b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:43 +0000
Subject: [PATCH 33/44] fix: drop the products of binary variables from the
 continuous step of ADMM

The objective of the binary variables is handled in the QUBO step. Only the squares were replaced
in the continuous step, the products of different variables were left in its objective.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 527c54c..afc8ec5 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -698,6 +698,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
             variable.upperbound = 1.0
             variable.lowerbound = 0.0
             # replacing Q0 objective and take of min/max sense, initially we consider minimization
+            for other_index in self._state.binary_indices:
+                op2.objective.quadratic[var_index, other_index] = 0
             op2.objective.quadratic[var_index, var_index] = self._state.rho / 2
             # replacing linear objective
             op2.objective.linear[var_index] = -1 * self._state.lambda_mult[i] - self._state.rho * (
-- 
2.43.0


From 54df0072f2a55b11c2e4ccf46c6242e4ab96d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:51 +0000
Subject: [PATCH 34/44] fix: export constraints without terms to docplex

A linear or quadratic constraint without any term and with a right-hand side other than zero made
to_docplex fail, as docplex was given a truth value.
---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 498c923..9c5c68c 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1085,7 +1085,7 @@ class QuadraticProgram:
             rhs = l_constraint.rhs
             if rhs == 0 and l_constraint.linear.coefficients.nnz == 0:
                 continue
-            linear_expr = 0
+            linear_expr = mdl.linear_expr()
             for j, v in l_constraint.linear.to_dict().items():
                 linear_expr += v * var[cast(int, j)]
             sense = l_constraint.sense
@@ -1109,7 +1109,7 @@ class QuadraticProgram:
                 and q_constraint.quadratic.coefficients.nnz == 0
             ):
                 continue
-            quadratic_expr = 0
+            quadratic_expr = mdl.linear_expr()
             for j, v in q_constraint.linear.to_dict().items():
                 quadratic_expr += v * var[cast(int, j)]
             for (j, k), v in q_constraint.quadratic.to_dict().items():
-- 
2.43.0


From 928fa4079fd77a6d837a7b3f8518297803eed3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:20 +0000
Subject: [PATCH 35/44] fix: return a FAILURE result when CPLEX has no solution

Asking CPLEX for the values of a problem that it found infeasible or unbounded raised CPLEX's own
error instead.
---
 .../algorithms/cplex_optimizer.py             | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/algorithms/cplex_optimizer.py b/qiskit_optimization/algorithms/cplex_optimizer.py
index 393a3a6..38709e1 100644
--- a/qiskit_optimization/algorithms/cplex_optimizer.py
+++ b/qiskit_optimization/algorithms/cplex_optimizer.py
@@ -15,7 +15,11 @@
 import logging
 
 from qiskit.exceptions import MissingOptionalLibraryError
-from .optimization_algorithm import OptimizationAlgorithm, OptimizationResult
+from .optimization_algorithm import (
+    OptimizationAlgorithm,
+    OptimizationResult,
+    OptimizationResultStatus,
+)
 from ..exceptions import QiskitOptimizationError
 from ..problems.quadratic_program import QuadraticProgram
 
@@ -134,13 +138,25 @@ class CplexOptimizer(OptimizationAlgorithm):
 
         # process results
         sol = cplex.solution
+        try:
+            x = sol.get_values()
+            fval = sol.get_objective_value()
+        except CplexSolverError:
+            # CPLEX has no solution to offer, e.g., since the problem is infeasible
+            return OptimizationResult(
+                x=None,
+                fval=None,
+                variables=problem.variables,
+                status=OptimizationResultStatus.FAILURE,
+                raw_results=sol,
+            )
 
         # create results
         result = OptimizationResult(
-            x=sol.get_values(),
-            fval=sol.get_objective_value(),
+            x=x,
+            fval=fval,
             variables=problem.variables,
-            status=self._get_feasibility_status(problem, sol.get_values()),
+            status=self._get_feasibility_status(problem, x),
             raw_results=sol,
         )
 
-- 
2.43.0


From 32dec665646b0fb0cf17091eb887aafa528b2c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:31 +0000
Subject: [PATCH 36/44] fix: colour the nodes of a max-cut in the order of the
 graph

The colours were listed in the order of the variables, which differs from the order in which the
graph draws its nodes if they were not added by increasing label.
---
 qiskit_optimization/applications/max_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index 73cb92e..cfbc82e 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -91,7 +91,7 @@ class Maxcut(GraphOptimizationApplication):
         # Return a list of strings for draw.
         # Color a node with red when the corresponding variable is 1.
         # Otherwise color it with blue.
-        return ["r" if value == 0 else "b" for value in x]
+        return ["r" if x[node] == 0 else "b" for node in self._graph.nodes]
 
     @staticmethod
     def parse_gset_format(filename: str) -> np.ndarray:
-- 
2.43.0


From a13bfb0cbfd95b4a28ac70c39e0997706b6d3234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:03 +0000
Subject: [PATCH 37/44] fix: make the SDP solution numerically positive
 definite

Shifting the spectrum by 1.001 times its smallest eigenvalue leaves a matrix that the Cholesky
decomposition rejects if that eigenvalue is only due to rounding.
---
 .../algorithms/goemans_williamson_optimizer.py           | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index a0a0e13..3331bb7 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -282,11 +282,10 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         Returns:
             An array of random cuts.
         """
-        eigenvalues = np.linalg.eigh(chi)[0]
-        if min(eigenvalues) < 0:
-            chi = chi + (1.001 * abs(min(eigenvalues)) * np.identity(num_vertices))
-        elif min(eigenvalues) == 0:
-            chi = chi + 0.00001 * np.identity(num_vertices)
+        # make sure that the matrix is positive definite, also numerically
+        min_eigenvalue = min(np.linalg.eigh(chi)[0])
+        if min_eigenvalue < 0.00001:
+            chi = chi + (0.00001 - min_eigenvalue) * np.identity(num_vertices)
         x = np.linalg.cholesky(chi).T
 
         r = np.random.normal(size=(self._num_cuts, num_vertices))
-- 
2.43.0


From d3e2bdc325ad8ae7eba9bdda1a92ea7287eb150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:49 +0000
Subject: [PATCH 38/44] fix: sort the raw samples of a Grover search best first
 when maximizing

---
 qiskit_optimization/algorithms/grover_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 5369bfa..0e84a7f 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -270,7 +270,7 @@ class GroverOptimizer(OptimizationAlgorithm):
                     raw_samples = self._eigenvector_to_solutions(
                         self._circuit_results, problem_init
                     )
-                    raw_samples.sort(key=lambda x: problem_.objective.sense.value * x.fval)
+                    raw_samples.sort(key=lambda x: problem_init.objective.sense.value * x.fval)
                     samples = self._interpret_samples(problem, raw_samples, self._converters)
                 else:
                     # Using Durr and Hoyer method, increase m.
-- 
2.43.0


From aeeee26da762857f18c7bc4b5de1b0755796b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 39/44] fix: random starts for variables whose only bound lies
 beyond the clip value

---
 qiskit_optimization/algorithms/multistart_optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 624d624..8c9ffd3 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -80,6 +80,12 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
                 for i, var in enumerate(problem.variables):
                     lowerbound = var.lowerbound if var.lowerbound > -INFINITY else -self._clip
                     upperbound = var.upperbound if var.upperbound < INFINITY else self._clip
+                    if lowerbound > upperbound:
+                        # the only bound of the variable is beyond the clip value
+                        if var.lowerbound > -INFINITY:
+                            upperbound = lowerbound
+                        else:
+                            lowerbound = upperbound
                     x_0[i] = uniform.rvs(lowerbound, (upperbound - lowerbound))
             # run optimization
             t_0 = time.time()
-- 
2.43.0


From d0591b51525755b951d13bde28dcafdbdc16b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:17 +0000
Subject: [PATCH 40/44] fix: return a FAILURE result when a subproblem of ADMM
 has no solution

The missing point was taken for a solution, so that the result was a SUCCESS without numbers or an
IndexError was raised.
---
 .../algorithms/admm_optimizer.py              | 46 +++++++++++++++----
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index afc8ec5..1f737a9 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -337,6 +337,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
             if self._state.step1_absolute_indices:
                 op1 = self._create_step1_problem()
                 self._state.x0 = self._update_x0(op1)
+                if self._state.x0 is None:
+                    return self._failure(original_problem)
                 # debug
                 self._log.debug("Step 1 sub-problem: %s", op1.export_as_lp_string())
             # else, no binary variables exist, and no update to be done in this case.
@@ -345,6 +347,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
 
             op2 = self._create_step2_problem()
             self._state.u, self._state.z = self._update_x1(op2)
+            if self._state.u is None:
+                return self._failure(original_problem)
             # debug
             self._log.debug("Step 2 sub-problem: %s", op2.export_as_lp_string())
             self._log.debug("u=%s", self._state.u)
@@ -354,6 +358,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
                 if self._state.binary_indices:
                     op3 = self._create_step3_problem()
                     self._state.y = self._update_y(op3)
+                    if self._state.y is None:
+                        return self._failure(original_problem)
                     # debug
                     self._log.debug("Step 3 sub-problem: %s", op3.export_as_lp_string())
                 # debug
@@ -419,6 +425,16 @@ class ADMMOptimizer(OptimizationAlgorithm):
             ),
         )
 
+    def _failure(self, problem: QuadraticProgram) -> ADMMOptimizationResult:
+        """Returns the result for a problem with a subproblem that has no solution."""
+        return ADMMOptimizationResult(
+            x=None,
+            fval=None,
+            variables=problem.variables,
+            status=OptimizationResultStatus.FAILURE,
+            state=self._state,
+        )
+
     @staticmethod
     def _turn_to_minimization(
         problem: QuadraticProgram,
@@ -737,21 +753,25 @@ class ADMMOptimizer(OptimizationAlgorithm):
 
         return op3
 
-    def _update_x0(self, op1: QuadraticProgram) -> np.ndarray:
+    def _update_x0(self, op1: QuadraticProgram) -> Optional[np.ndarray]:
         """Solves the Step1 QuadraticProgram via the qubo optimizer.
 
         Args:
             op1: the Step1 QuadraticProgram.
 
         Returns:
-            A solution of the Step1, as a numpy array.
+            A solution of the Step1, as a numpy array, or None if the optimizer found none.
         """
         x0_all_binaries = np.zeros(len(self._state.binary_indices))
-        x0_qubo = np.asarray(self._qubo_optimizer.solve(op1).x)
-        x0_all_binaries[self._state.step1_relative_indices] = x0_qubo
+        x0_qubo = self._qubo_optimizer.solve(op1).x
+        if x0_qubo is None:
+            return None
+        x0_all_binaries[self._state.step1_relative_indices] = np.asarray(x0_qubo)
         return x0_all_binaries
 
-    def _update_x1(self, op2: QuadraticProgram) -> Tuple[np.ndarray, np.ndarray]:
+    def _update_x1(
+        self, op2: QuadraticProgram
+    ) -> Tuple[Optional[np.ndarray], Optional[np.ndarray]]:
         """Solves the Step2 QuadraticProgram via the continuous optimizer.
 
         Args:
@@ -761,24 +781,29 @@ class ADMMOptimizer(OptimizationAlgorithm):
             A solution of the Step2, as a pair of numpy arrays.
             First array contains the values of decision variables u, and
             second array contains the values of decision variables z.
+            Both are None if the optimizer found no solution.
 
         """
-        vars_op2 = np.asarray(self._continuous_optimizer.solve(op2).x)
+        solution = self._continuous_optimizer.solve(op2).x
+        if solution is None:
+            return None, None
+        vars_op2 = np.asarray(solution)
         vars_u = vars_op2.take(self._state.continuous_indices)
         vars_z = vars_op2.take(self._state.binary_indices)
         return vars_u, vars_z
 
-    def _update_y(self, op3: QuadraticProgram) -> np.ndarray:
+    def _update_y(self, op3: QuadraticProgram) -> Optional[np.ndarray]:
         """Solves the Step3 QuadraticProgram via the continuous optimizer.
 
         Args:
             op3: the Step3 QuadraticProgram
 
         Returns:
-            A solution of the Step3, as a numpy array.
+            A solution of the Step3, as a numpy array, or None if the optimizer found none.
 
         """
-        return np.asarray(self._continuous_optimizer.solve(op3).x)
+        solution = self._continuous_optimizer.solve(op3).x
+        return None if solution is None else np.asarray(solution)
 
     def _get_best_merit_solution(self) -> Tuple[np.ndarray, np.ndarray, float]:
         """The ADMM solution is that for which the merit value is the min
@@ -905,6 +930,9 @@ class ADMMOptimizer(OptimizationAlgorithm):
             variable.vartype = VarType.CONTINUOUS
         cts_result = self._continuous_optimizer.solve(qp_copy)
         logger.debug("Continuous relaxation: %s", cts_result.x)
+        if cts_result.x is None:
+            # start from the default state instead
+            return
 
         self._state.x0 = cts_result.x[self._state.binary_indices]
         self._state.u = cts_result.x[self._state.continuous_indices]
-- 
2.43.0


From f136b88b1a459a1e9d6ab88fa0cb04a952c32f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:17 +0000
Subject: [PATCH 41/44] fix: do not report a point with undefined values as
 feasible

---
 qiskit_optimization/problems/quadratic_program.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 9c5c68c..f25ab1b 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1498,7 +1498,7 @@ class QuadraticProgram:
         violated_variables = []  # type: List[Variable]
         for i, val in enumerate(x):
             variable = self.get_variable(i)
-            if val < variable.lowerbound or variable.upperbound < val:
+            if not variable.lowerbound <= val <= variable.upperbound:
                 violated_variables.append(variable)
 
         # check whether the input satisfy the constraints of the problem
@@ -1507,9 +1507,9 @@ class QuadraticProgram:
             List[Constraint], self._quadratic_constraints
         ):
             lhs = constraint.evaluate(x)
-            if constraint.sense == ConstraintSense.LE and lhs > constraint.rhs:
+            if constraint.sense == ConstraintSense.LE and not lhs <= constraint.rhs:
                 violated_constraints.append(constraint)
-            elif constraint.sense == ConstraintSense.GE and lhs < constraint.rhs:
+            elif constraint.sense == ConstraintSense.GE and not lhs >= constraint.rhs:
                 violated_constraints.append(constraint)
             elif constraint.sense == ConstraintSense.EQ and not isclose(lhs, constraint.rhs):
                 violated_constraints.append(constraint)
-- 
2.43.0


From 3b73b7fbbadacbe966cce31b857be3b7d6cdce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 42/44] fix: multi-start optimizers failed when every value is
 1e20 or more, or undefined

---
 qiskit_optimization/algorithms/multistart_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 8c9ffd3..ac6c815 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -94,8 +94,8 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
 
             # we minimize, to get actual objective value we must multiply by the sense value
             fval = problem.objective.evaluate(x) * problem.objective.sense.value
-            # we minimize the objective
-            if fval < fval_sol:
+            # we minimize the objective, any defined value is better than none
+            if x_sol is None or fval < fval_sol or np.isnan(fval_sol):
                 fval_sol = fval
                 x_sol = x
                 rest_sol = rest
-- 
2.43.0


From 32e3e4ef5e16fd5728c5a19be3581b3aa536bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 43/44] fix: converters released binary variables that are
 fixed by their bounds

---
 .../converters/inequality_to_equality.py            |  4 +++-
 qiskit_optimization/converters/integer_to_binary.py | 13 ++++++++++---
 .../converters/linear_equality_to_penalty.py        |  4 +++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index 1a88a3e..b6de6c8 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -80,7 +80,9 @@ class InequalityToEquality(QuadraticProgramConverter):
         # Copy variables
         for x in self._src.variables:
             if x.vartype == Variable.Type.BINARY:
-                self._dst.binary_var(name=x.name)
+                # keep the bounds, the variable may be fixed
+                var = self._dst.integer_var(x.lowerbound, x.upperbound, x.name)
+                var.vartype = Variable.Type.BINARY
             elif x.vartype == Variable.Type.INTEGER:
                 self._dst.integer_var(name=x.name, lowerbound=x.lowerbound, upperbound=x.upperbound)
             elif x.vartype == Variable.Type.CONTINUOUS:
diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index a1e47c1..d6de7e8 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -70,14 +70,14 @@ class IntegerToBinary(QuadraticProgramConverter):
         # Copy original QP as reference.
         self._src = copy.deepcopy(problem)
 
-        if self._src.get_num_integer_vars() > 0:
+        if any(self._is_encoded(x) for x in self._src.variables):
 
             # Initialize new QP
             self._dst = QuadraticProgram(name=problem.name)
 
             # Declare variables
             for x in self._src.variables:
-                if x.vartype == Variable.Type.INTEGER:
+                if self._is_encoded(x):
                     new_vars = self._convert_var(x.name, x.lowerbound, x.upperbound)
                     self._conv[x] = new_vars
                     for (var_name, _) in new_vars:
@@ -95,11 +95,18 @@ class IntegerToBinary(QuadraticProgramConverter):
             self._substitute_int_var()
 
         else:
-            # just copy the problem if no integer variables exist
+            # just copy the problem if no variables have to be encoded
             self._dst = copy.deepcopy(problem)
 
         return self._dst
 
+    @staticmethod
+    def _is_encoded(x: Variable) -> bool:
+        # a fixed binary variable does not take both values and is encoded like an integer variable
+        return x.vartype == Variable.Type.INTEGER or (
+            x.vartype == Variable.Type.BINARY and x.lowerbound == x.upperbound
+        )
+
     def _convert_var(
         self, name: str, lowerbound: float, upperbound: float
     ) -> List[Tuple[str, int]]:
diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index a20b2fa..da98164 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -71,7 +71,9 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
             if x.vartype == Variable.Type.CONTINUOUS:
                 self._dst.continuous_var(x.lowerbound, x.upperbound, x.name)
             elif x.vartype == Variable.Type.BINARY:
-                self._dst.binary_var(x.name)
+                # keep the bounds, the variable may be fixed
+                var = self._dst.integer_var(x.lowerbound, x.upperbound, x.name)
+                var.vartype = Variable.Type.BINARY
             elif x.vartype == Variable.Type.INTEGER:
                 self._dst.integer_var(x.lowerbound, x.upperbound, x.name)
             else:
-- 
2.43.0


From 23c2614a819c0ea4aa8fba978fe261702550d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 44/44] fix: docplex and LP exchange released binary variables
 that are fixed by their bounds

---
 qiskit_optimization/problems/quadratic_program.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index f25ab1b..4356d47 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -914,7 +914,9 @@ class QuadraticProgram:
             if isinstance(x.vartype, ContinuousVarType):
                 x_new = self.continuous_var(x.lb, x.ub, x.name)
             elif isinstance(x.vartype, BinaryVarType):
-                x_new = self.binary_var(x.name)
+                # keep the bounds, the variable may be fixed
+                x_new = self.integer_var(x.lb, x.ub, x.name)
+                x_new.vartype = Variable.Type.BINARY
             elif isinstance(x.vartype, IntegerVarType):
                 x_new = self.integer_var(x.lb, x.ub, x.name)
             else:
@@ -1061,7 +1063,8 @@ class QuadraticProgram:
             if x.vartype == Variable.Type.CONTINUOUS:
                 var[idx] = mdl.continuous_var(lb=x.lowerbound, ub=x.upperbound, name=x.name)
             elif x.vartype == Variable.Type.BINARY:
-                var[idx] = mdl.binary_var(name=x.name)
+                # pass the bounds, the variable may be fixed
+                var[idx] = mdl.var(mdl.binary_vartype, x.lowerbound, x.upperbound, x.name)
             elif x.vartype == Variable.Type.INTEGER:
                 var[idx] = mdl.integer_var(lb=x.lowerbound, ub=x.upperbound, name=x.name)
             else:
-- 
2.43.0

