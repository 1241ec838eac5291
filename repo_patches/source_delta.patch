From 1f719a98a15e9e9dc5e4458361dd3ce154618d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:17 +0000
Subject: [PATCH 01/82] fix: keep state equations aligned when the right-hand
 side has structural zeros

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index c746088..ccf943c 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -3,7 +3,7 @@ from collections import abc
 from itertools import islice
 from typing import Dict, List, Optional, Tuple, Union
 
-from casadi import SX, substitute, vec, vertcat
+from casadi import SX, densify, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
@@ -146,7 +146,8 @@ class ContinuousStateMixin(BaseMixin):
                 warnings.warn(
                     f'State "{x_i}" already had an ODE associated, overriding it!'
                 )
-        self._ode = {**self._ode, **dict(zip(x.nz, ode.nz))}
+        # densify, so that a structurally zero entry is not skipped (misaligning the others)
+        self._ode = {**self._ode, **dict(zip(x.nz, densify(ode).nz))}
 
     def _include_equation_from_diff_equations(self, *args: Union[SX, EqualityEquation]):
         x = SX(0, 1)
-- 
2.43.0


From 1a6d98dd500cc93f1ad2062511686bda68569a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:17 +0000
Subject: [PATCH 02/82] fix: refuse a duplicated state before modifying the
 model

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index ccf943c..fb995cd 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -56,6 +56,11 @@ class ContinuousStateMixin(BaseMixin):
     def include_state(
         self, var: SX, ode: Optional[SX] = None, x_0: Optional[SX] = None
     ) -> SX:
+        # check before changing anything, so a refused call leaves the model as it was
+        for x_i in var.nz:
+            if x_i in self._ode:
+                raise ValueError(f'State "{x_i}" already in this model')
+
         self.x = vertcat(self.x, var)
 
         if x_0 is None:
@@ -64,8 +69,6 @@ class ContinuousStateMixin(BaseMixin):
 
         # crate entry for included state
         for x_i in var.nz:
-            if x_i in self._ode:
-                raise ValueError(f'State "{x_i}" already in this model')
             self._ode[x_i] = None
         if ode is not None:
             self.include_equations(ode=ode, x=var)
-- 
2.43.0


From 282c9092269fd3dccc682722a0125f98b647a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:17 +0000
Subject: [PATCH 03/82] fix: remove the initial condition symbol together with
 its state

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index fb995cd..7fcd772 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -7,7 +7,11 @@ from casadi import SX, densify, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
-from yaocptool.util.util import remove_variables_from_vector
+from yaocptool.util.util import (
+    find_variables_indices_in_vector,
+    remove_variables_from_vector,
+    remove_variables_from_vector_by_indices,
+)
 
 
 class ContinuousStateMixin(BaseMixin):
@@ -75,6 +79,9 @@ class ContinuousStateMixin(BaseMixin):
         return x_0
 
     def remove_state(self, var: SX):
+        self.x_0 = remove_variables_from_vector_by_indices(
+            find_variables_indices_in_vector(var, self.x), self.x_0
+        )
         self.x = remove_variables_from_vector(var, self.x)
 
         for x_i in var.nz:
-- 
2.43.0


From 15a69b878bee115342767c02639234588212bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:39 +0000
Subject: [PATCH 04/82] fix: deep copy of a model is complete and independent
 (time, control parametrization, names)

---
 yaocptool/modelling/system_model.py | 47 ++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 8fe0dc8..9c85b81 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -485,9 +485,8 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
 
         :rtype: SystemModel
         """
-        model_copy = SystemModel(
-            name=self.name, model_name_as_prefix=self.model_name_as_prefix
-        )
+        # the names of the original already have the prefix, it is set at the end
+        model_copy = SystemModel(name=self.name)
         x_copy = SX(0, 1)
         y_copy = SX(0, 1)
         u_copy = SX(0, 1)
@@ -527,21 +526,39 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             )
 
         if self.n_u_par > 0:
-            u_par_copy = vertcat(
-                *[SX.sym(self.u_par[i].name()) for i in range(self.n_u_par)]
-            )
+            # controls that are not parametrized are their own parameter
+            for i in range(self.n_u_par):
+                ind_u = find_variables_indices_in_vector(self.u_par[i], self.u)
+                u_par_copy = vertcat(
+                    u_par_copy,
+                    u_copy[ind_u] if ind_u else SX.sym(self.u_par[i].name()),
+                )
 
-        model_copy.include_equations(ode=self.ode, alg=self.alg)
-        model_copy.u_par = self.u_par
+        with_ode = [i for i, eq in enumerate(self._ode.values()) if eq is not None]
+        if with_ode:
+            model_copy.include_equations(ode=self.ode, x=x_copy[with_ode])
+        model_copy.include_equations(alg=self.alg)
+        model_copy.u_par = u_par_copy
         model_copy.u_expr = self.u_expr
+        model_copy._parametrized_controls = [
+            u_copy[find_variables_indices_in_vector(u_i, self.u)]
+            for u_i in self._parametrized_controls
+        ]
 
-        model_copy.replace_variable(self.x, x_copy)
-        model_copy.replace_variable(self.y, y_copy)
-        model_copy.replace_variable(self.u, u_copy)
-        model_copy.replace_variable(self.p, p_copy)
-        model_copy.replace_variable(self.theta, theta_copy)
-        model_copy.replace_variable(self.u_par, u_par_copy)
-
+        for original, replacement in [
+            (self.t, model_copy.t),
+            (self.tau, model_copy.tau),
+            (self.x, x_copy),
+            (self.y, y_copy),
+            (self.u, u_copy),
+            (self.p, p_copy),
+            (self.theta, theta_copy),
+            (self.u_par, u_par_copy),
+        ]:
+            if original.numel() > 0:
+                model_copy.replace_variable(original, replacement)
+
+        model_copy.model_name_as_prefix = self.model_name_as_prefix
         model_copy.has_adjoint_variables = self.has_adjoint_variables
 
         return model_copy
-- 
2.43.0


From 18655362e5cabb4a5247ec405ed65fec996c18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 05/82] fix: OptimalControlProblem.simulate uses the given t_0
 and simulates every finite element

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index c8eeb37..6ba1a34 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1047,14 +1047,14 @@ class OptimalControlProblem(object):
 
         if finite_elements is not None and isinstance(t_f, (DM, float, int)):
             delta_t = (t_f - t_0) / finite_elements
-            t_f = [delta_t * t for t in range(1, finite_elements)]
+            t_f = [t_0 + delta_t * k for k in range(1, finite_elements + 1)]
 
         x_0 = x_0 if x_0 is not None else self.x_0
 
         return self.model.simulate(
             x_0=x_0,
             t_f=t_f,
-            t_0=self.t_0,
+            t_0=t_0,
             u=u if u is not None else self.u_guess,
             p=p,
             theta=theta,
-- 
2.43.0


From 2ef6c7f104d72294652a566d5cd21ef25c7354c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 06/82] fix: SimulationResult keeps the number of finite
 elements and delta_t it is given

---
 yaocptool/modelling/simulation_result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/simulation_result.py b/yaocptool/modelling/simulation_result.py
index 770feee..512bd48 100644
--- a/yaocptool/modelling/simulation_result.py
+++ b/yaocptool/modelling/simulation_result.py
@@ -22,10 +22,10 @@ class SimulationResult(DataSet):
         **kwargs
     ):
         self.model_name = model_name
-        self.delta_t = (delta_t,)
+        self.delta_t = delta_t
         self.t_0 = t_0
         self.t_f = t_f
-        self.finite_elements = 0
+        self.finite_elements = finite_elements
 
         DataSet.__init__(self, **kwargs)
         self.plot_style = "plot"
-- 
2.43.0


From 624dd799c8acfc141da3ae76c4c96d9816061ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 07/82] fix: include_constraint takes 'x <= c' as an upper
 bound

---
 yaocptool/optimization/abstract_optimization_problem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 712479c..c82042e 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -1,6 +1,6 @@
 from typing import Any, Dict, List, Optional, TypedDict, Union
 
-from casadi import DM, MX, Function, depends_on, inf, is_equal, repmat, vertcat
+from casadi import DM, MX, Function, depends_on, inf, repmat, vertcat
 
 from yaocptool import is_equality, is_inequality
 
@@ -354,7 +354,8 @@ class AbstractOptimizationProblem(object):
             )
 
         # find the dependent and independent term
-        if depends_on(expr.dep(0), vertcat(self.x, self.p)):
+        dep_term_is_lhs = depends_on(expr.dep(0), vertcat(self.x, self.p))
+        if dep_term_is_lhs:
             dep_term = expr.dep(0)
             indep_term = expr.dep(1)
         else:
@@ -372,7 +373,7 @@ class AbstractOptimizationProblem(object):
                 # by default all inequalities are treated as 'less than' or 'less or equal', e.g.: x<=1 or 1<=x
                 # if the term on the rhs term is the non-symbolic term, then it is a 'x<=1' inequality,
                 # where the independent term is the upper bound
-                if is_equal(indep_term_dm, expr.dep(1)):
+                if dep_term_is_lhs:
                     self.include_inequality(dep_term, ub=indep_term_dm)
                 # otherwise, it is a '1<=x' inequality, where the independent term is the lower bound
                 else:
-- 
2.43.0


From 9f90f00d0dd037a565a8d8895cde90d5b2897b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 08/82] fix: recognise strict inequalities

---
 yaocptool/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index 45f1a5d..dce5e9e 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -240,7 +240,7 @@ def is_inequality(expr: Union[SX, MX]):
     :return: True if 'expr' is an inequality, False otherwise
     :rtype: bool
     """
-    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op == OP_LT)
+    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op() == OP_LT)
 
 
 def is_equality(expr: Union[SX, MX]):
-- 
2.43.0


From 2207f195d1d6f97eb244d26a736a9bfd3ddcad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 09/82] fix: include_variable accepts integer bounds and checks
 structurally zero ones

---
 .../optimization/abstract_optimization_problem.py      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index c82042e..c90c4ea 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -1,6 +1,6 @@
 from typing import Any, Dict, List, Optional, TypedDict, Union
 
-from casadi import DM, MX, Function, depends_on, inf, repmat, vertcat
+from casadi import DM, MX, Function, densify, depends_on, inf, repmat, vertcat
 
 from yaocptool import is_equality, is_inequality
 
@@ -132,11 +132,15 @@ class AbstractOptimizationProblem(object):
             upper bound, a vector of ub  with size of the given variable will be used as a upper bound.
             (default = [inf]*size)
         """
-        if isinstance(lb, float):
+        if isinstance(lb, (float, int)):
             lb = vertcat(lb)
-        if isinstance(ub, float):
+        if isinstance(ub, (float, int)):
             ub = vertcat(ub)
 
+        # structural zeros are bounds too
+        lb = densify(lb)
+        ub = densify(ub)
+
         if lb.numel() == 1 and variable.numel() > 1:
             lb = repmat(lb, variable.numel())
         if ub.numel() == 1 and variable.numel() > 1:
-- 
2.43.0


From 3aecca5b072bd560e9d14af89c24558421fedeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 10/82] fix: a problem changed after a solve is solved as it
 stands (drop the cached solver)

---
 yaocptool/optimization/abstract_optimization_problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index c90c4ea..87779d0 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -174,6 +174,7 @@ class AbstractOptimizationProblem(object):
         self.x = vertcat(self.x, variable)
         self.x_lb = vertcat(self.x_lb, lb)
         self.x_ub = vertcat(self.x_ub, ub)
+        self._solver = None
 
     def create_parameter(self, name: str, size: int = 1) -> MX:
         """
@@ -195,6 +196,7 @@ class AbstractOptimizationProblem(object):
         :param MX|SX par: parameter to be included
         """
         self.p = vertcat(self.p, par)
+        self._solver = None
 
     def set_objective(self, expr: Union[MX, List[MX], float, int]):
         """
@@ -213,6 +215,7 @@ class AbstractOptimizationProblem(object):
                 "Given objective has shape = {}".format(expr.shape)
             )
         self.f = expr
+        self._solver = None
 
     def include_inequality(
         self,
@@ -290,6 +293,7 @@ class AbstractOptimizationProblem(object):
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, lb)
         self.g_ub = vertcat(self.g_ub, ub)
+        self._solver = None
 
     def include_equality(self, expr: MX, rhs: Optional[Union[DM, float]] = None):
         """Include a equality with the following form
@@ -332,6 +336,7 @@ class AbstractOptimizationProblem(object):
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, rhs)
         self.g_ub = vertcat(self.g_ub, rhs)
+        self._solver = None
 
     def include_constraint(self, expr: MX):
         """Includes an inequality or inequality to the optimization problem,
-- 
2.43.0


From df409e11006586923e95f92137b6ceeddf3fd0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:46 +0000
Subject: [PATCH 11/82] fix: the discretization grid starts at the problem's
 t_0

---
 yaocptool/methods/base/solutionmethodsbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index a56f1db..2188d4d 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -107,7 +107,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
     @cached_property
     def time_breakpoints(self) -> List[float]:
-        return [self.delta_t * k for k in range(self.finite_elements + 1)]
+        return [
+            self.problem.t_0 + self.delta_t * k
+            for k in range(self.finite_elements + 1)
+        ]
 
     @property
     def time_interpolation_controls(self) -> List[List[float]]:
-- 
2.43.0


From fa89e3958cde514ea7e4850797646139522e9465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:46 +0000
Subject: [PATCH 12/82] fix: collocation with degree 1 states has a point at
 the start of the element

---
 yaocptool/methods/base/solutionmethodsbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 2188d4d..887538f 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -167,7 +167,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if tau is None:
             tau = self.model.tau  # Collocation point
 
-        if degree == 1:
+        if degree == 1 and not point_at_t0:
             if size > 0:
                 points = vertcat(*[SX.sym(name[s], 1, degree) for s in range(size)])
             else:
@@ -181,7 +181,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
                         *[SX.sym(name[s], 1, degree + 1) for s in range(size)]
                     )
                 else:
-                    points = SX.sym("empty_sx", size, degree)
+                    points = SX.sym("empty_sx", size, degree + 1)
                 tau, ell_list = self._create_lagrangian_polynomial_basis(
                     degree, starting_index=0, tau=tau
                 )
-- 
2.43.0


From 2b40e06d2e9db27b2da3a76da651d9dc4468107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:47 +0000
Subject: [PATCH 13/82] fix: control move bounds without a last control do not
 constrain the first control

---
 yaocptool/methods/base/solutionmethodsbase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 887538f..1547158 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -270,9 +270,11 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if self.last_control_as_parameter:
             p_last_u = MX.sym("mx_last_u", self.model.n_u)
         else:
-            p_last_u = MX()
+            p_last_u = None
 
-        all_mx = vertcat(p_mx, vec(theta_mx), p_mx_x_0, p_last_u)
+        all_mx = vertcat(p_mx, vec(theta_mx), p_mx_x_0)
+        if p_last_u is not None:
+            all_mx = vertcat(all_mx, p_last_u)
 
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
-- 
2.43.0


From d54ed2e5ef74e8c8364b07ad173e8b70a25a908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:47 +0000
Subject: [PATCH 14/82] fix: a last_u passed to solve is used

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 1547158..ceec975 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -388,6 +388,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
                 )
 
             last_u = self.problem.last_u
+
+        if self.last_control_as_parameter:
             par_last_u = last_u
 
         par = vertcat(p, theta_vector, par_x_0, par_last_u)
-- 
2.43.0


From 9c5458c50a963625c5d68d9bb27def2835bc35b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:16 +0000
Subject: [PATCH 15/82] fix: initial_condition_as_parameter=False uses the
 problem's initial condition

---
 yaocptool/methods/base/solutionmethodsbase.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index ceec975..6b0df94 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -253,7 +253,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         has_parameters = (
             self.model.n_p + self.model.n_theta > 0
             or self.initial_condition_as_parameter
-            or self.problem.last_u is not None
+            or self.last_control_as_parameter
         )
 
         # parameters MX
@@ -264,7 +264,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
         theta = {i: vec(theta_mx[:, i]) for i in range(self.finite_elements)}
 
         # initial cond MX
-        p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        if self.initial_condition_as_parameter:
+            p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        else:
+            p_mx_x_0 = None
 
         # last control MX
         if self.last_control_as_parameter:
@@ -272,7 +275,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
         else:
             p_last_u = None
 
-        all_mx = vertcat(p_mx, vec(theta_mx), p_mx_x_0)
+        all_mx = vertcat(p_mx, vec(theta_mx))
+        if p_mx_x_0 is not None:
+            all_mx = vertcat(all_mx, p_mx_x_0)
         if p_last_u is not None:
             all_mx = vertcat(all_mx, p_last_u)
 
-- 
2.43.0


From 65bbb895368f18e034883b0c763f0fc98b26fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:16 +0000
Subject: [PATCH 16/82] fix: cost_as_a_sum keeps the final cost

---
 yaocptool/methods/classic/multipleshooting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yaocptool/methods/classic/multipleshooting.py b/yaocptool/methods/classic/multipleshooting.py
index e6eddda..a25a5b3 100644
--- a/yaocptool/methods/classic/multipleshooting.py
+++ b/yaocptool/methods/classic/multipleshooting.py
@@ -273,11 +273,11 @@ class MultipleShootingScheme(DiscretizationSchemeBase):
         nlp.include_equality(f_h(p))
 
         if self.solution_method.solution_class == "direct":
-            if not self.solution_method.cost_as_a_sum:
-                f_final_cost = Function(
-                    "FinalCost", [self.model.x, self.model.p], [self.problem.V]
-                )
-                cost = f_final_cost(x_var[-1][0], p)
+            # with cost_as_a_sum the cost state restarts from zero at each element
+            f_final_cost = Function(
+                "FinalCost", [self.model.x, self.model.p], [self.problem.V]
+            )
+            cost += f_final_cost(x_var[-1][0], p)
             cost += s_cost
         nlp.set_objective(cost)
 
-- 
2.43.0


From 432bdeccf81508919b06ea65fe1e31ab1c443439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:02 +0000
Subject: [PATCH 17/82] fix: state bounds given as lists

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 6ba1a34..9405aa7 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -309,9 +309,9 @@ class OptimalControlProblem(object):
         if isinstance(x_0, list):
             x_0 = vertcat(*x_0)
         if isinstance(x_min, list):
-            x_min = DM(*x_min)
+            x_min = vertcat(*x_min)
         if isinstance(x_max, list):
-            x_max = DM(*x_max)
+            x_max = vertcat(*x_max)
 
         if var.numel() != x_max.numel():
             raise ValueError(
-- 
2.43.0


From 3b1b96fb421e6a028b40afb2948d3b853ec50b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:02 +0000
Subject: [PATCH 18/82] fix: include_system_equations accepts only one kind of
 equation

---
 yaocptool/modelling/ocp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 9405aa7..5a450f8 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -286,7 +286,10 @@ class OptimalControlProblem(object):
         )
 
     def include_system_equations(self, ode=None, alg=None):
-        self.model.include_equations(ode=ode, alg=alg)
+        equations = {"ode": ode, "alg": alg}
+        self.model.include_equations(
+            **{kind: eq for kind, eq in equations.items() if eq is not None}
+        )
 
     def include_state(
         self,
-- 
2.43.0


From 26116884932c448f7cc954e0b59ef0be148e475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:02 +0000
Subject: [PATCH 19/82] fix: include_algebraic keeps the guess of the first
 algebraic variables

---
 yaocptool/modelling/ocp.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 5a450f8..8dc6e7b 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -378,11 +378,22 @@ class OptimalControlProblem(object):
                 )
             )
 
+        if isinstance(y_guess, list):
+            y_guess = vertcat(*y_guess)
+        if y_guess is not None and var.numel() != y_guess.numel():
+            raise ValueError(
+                "Given 'var' and 'y_guess' does not have the same size, {}!={}".format(
+                    var.numel(), y_guess.numel()
+                )
+            )
+
         if self.y_guess is not None:
             if y_guess is None:
                 self.y_guess = vertcat(self.y_guess, DM.zeros(var.numel()))
             else:
                 self.y_guess = vertcat(self.y_guess, y_guess)
+        elif y_guess is not None and self.model.n_y == 0:
+            self.y_guess = y_guess
 
         self.model.include_algebraic(var, alg)
         self.y_min = vertcat(self.y_min, y_min)
-- 
2.43.0


From cd944da4a1c24908459be72db0f8759535e92c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:02 +0000
Subject: [PATCH 20/82] fix: connecting an input keeps the algebraic guess
 aligned

---
 yaocptool/modelling/ocp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 8dc6e7b..907820e 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1019,8 +1019,11 @@ class OptimalControlProblem(object):
         self.model.connect(u, y, replace=replace)
 
         if not replace:
-            if self.u_guess is not None and self.y_guess is not None:
-                self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
+            if self.y_guess is not None:
+                u_guess = DM.zeros(u.numel())
+                if self.u_guess is not None:
+                    u_guess = self.u_guess[ind_u]
+                self.y_guess = vertcat(self.y_guess, u_guess)
 
             self.y_max = vertcat(self.y_max, self.u_max[ind_u])
             self.y_min = vertcat(self.y_min, self.u_min[ind_u])
-- 
2.43.0


From 90727472971b4b905ee68b32a345b4c01e06d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:02 +0000
Subject: [PATCH 21/82] fix: connect with replace=True replaces the input in
 the costs and constraints and keeps its bounds

---
 yaocptool/modelling/ocp.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 907820e..4e765af 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -11,6 +11,8 @@ from casadi import (
     DM,
     SX,
     dot,
+    fmax,
+    fmin,
     gradient,
     inf,
     is_equal,
@@ -1016,9 +1018,21 @@ class OptimalControlProblem(object):
 
         ind_u = find_variables_indices_in_vector(u, self.model.u)
 
+        if replace:
+            # costs and constraints also depend on the input
+            self.replace_variable(u, y)
+
         self.model.connect(u, y, replace=replace)
 
-        if not replace:
+        if replace:
+            # the bounds of the input are now bounds of the algebraic variable
+            self.y_max = DM(self.y_max)
+            self.y_min = DM(self.y_min)
+            for ind, y_i in zip(ind_u, y.nz):
+                for ind_y in find_variables_indices_in_vector(y_i, self.model.y):
+                    self.y_max[ind_y] = fmin(self.y_max[ind_y], self.u_max[ind])
+                    self.y_min[ind_y] = fmax(self.y_min[ind_y], self.u_min[ind])
+        else:
             if self.y_guess is not None:
                 u_guess = DM.zeros(u.numel())
                 if self.u_guess is not None:
-- 
2.43.0


From 21bcde665622d92f28d6ac315542b8a4174ee460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:02 +0000
Subject: [PATCH 22/82] fix: the last control follows the controls when one is
 removed or connected

---
 yaocptool/modelling/ocp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 4e765af..fe9a454 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -630,8 +630,16 @@ class OptimalControlProblem(object):
                 to_remove, self.u_guess
             )
 
+        self._remove_last_u(to_remove)
+
         self.model.remove_control(var)
 
+    def _remove_last_u(self, indices: List[int]):
+        if self.last_u is not None:
+            self.last_u = remove_variables_from_vector_by_indices(
+                indices, vertcat(self.last_u)
+            )
+
     def replace_variable(
         self, original: Union[SX, List[SX]], replacement: Union[SX, List[SX]]
     ):
@@ -1054,6 +1062,7 @@ class OptimalControlProblem(object):
         self.delta_u_min = remove_variables_from_vector_by_indices(
             ind_u, self.delta_u_min
         )
+        self._remove_last_u(ind_u)
 
     def simulate(
         self,
-- 
2.43.0


From e8a59d5e6f1db6ec0f8f9c8ff233f6a4691cc24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:02 +0000
Subject: [PATCH 23/82] fix: pre_solve_check checks the size of the element
 cost

---
 yaocptool/modelling/ocp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index fe9a454..3a6c910 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -732,7 +732,13 @@ class OptimalControlProblem(object):
         if self.V.numel() != 1:
             raise Exception(
                 "Size of final cost (ocp.V) is different from 1, provided size is: {}".format(
-                    self.L.numel()
+                    self.V.numel()
+                )
+            )
+        if self.S.numel() != 1:
+            raise Exception(
+                "Size of finite element cost (ocp.S) is different from 1, provided size is: {}".format(
+                    self.S.numel()
                 )
             )
 
-- 
2.43.0


From 2a120d7ffee8801ad7d749d75aca19d9ea2c5c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:02 +0000
Subject: [PATCH 24/82] fix: create_quadratic_cost leaves the given dictionary
 as it was

---
 yaocptool/modelling/ocp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 3a6c910..a497529 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -811,6 +811,7 @@ class OptimalControlProblem(object):
     def create_quadratic_cost(self, par_dict: Dict[str, DM]):
         self.L = SX(0)
         self.V = SX(0)
+        par_dict = dict(par_dict)
         if "x_ref" not in par_dict:
             par_dict["x_ref"] = DM.zeros(self.model.n_x)
         if "u_ref" not in par_dict:
-- 
2.43.0


From 9d00d8e75f43a7560f5298dd140a8592dcc67c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:01 +0000
Subject: [PATCH 25/82] fix: including a model keeps the parametrization of its
 controls

---
 yaocptool/modelling/system_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 9c85b81..3b17deb 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -378,7 +378,12 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             # include variables
             self.include_state(model.x, x_0=model.x_0)
             self.include_algebraic(model.y)
-            self.include_control(model.u)
+            self.u = vertcat(self.u, model.u)
+            self.u_par = vertcat(self.u_par, model.u_par)
+            self.u_expr = vertcat(self.u_expr, model.u_expr)
+            self._parametrized_controls = (
+                self._parametrized_controls + model._parametrized_controls
+            )
             self.include_parameter(model.p)
             self.include_theta(model.theta)
 
-- 
2.43.0


From bf060dbfdf397e689a257201cf607a011857d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:01 +0000
Subject: [PATCH 26/82] fix: merged problems share the time variables in costs
 and constraints

---
 yaocptool/modelling/ocp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index a497529..304504e 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -930,6 +930,10 @@ class OptimalControlProblem(object):
             # Merge models
             self.model.merge([problem.model])
 
+            # the costs and constraints use the same time variables as the model
+            self.replace_variable(problem.model.t, self.model.t)
+            self.replace_variable(problem.model.tau, self.model.tau)
+
     def set_parameter_as_optimization_parameter(
         self,
         new_p_opt: SX,
-- 
2.43.0


From ee55ae92b30f107ec8810720cdf31e351313bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:01 +0000
Subject: [PATCH 27/82] fix: merging a problem without controls or algebraic
 variables keeps last_u and the guesses

---
 yaocptool/modelling/ocp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 304504e..80b9238 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -898,7 +898,7 @@ class OptimalControlProblem(object):
                 self.last_u = problem.last_u
             elif self.last_u is not None and problem.last_u is not None:
                 self.last_u = vertcat(self.last_u, problem.last_u)
-            else:
+            elif problem.model.n_u > 0:
                 self.last_u = None
 
             if (
@@ -909,7 +909,7 @@ class OptimalControlProblem(object):
                 self.y_guess = problem.y_guess
             elif self.y_guess is not None and problem.y_guess is not None:
                 self.y_guess = vertcat(self.y_guess, problem.y_guess)
-            else:
+            elif problem.model.n_y > 0:
                 self.y_guess = None
 
             if (
@@ -920,7 +920,7 @@ class OptimalControlProblem(object):
                 self.u_guess = problem.u_guess
             elif self.u_guess is not None and problem.u_guess is not None:
                 self.u_guess = vertcat(self.u_guess, problem.u_guess)
-            else:
+            elif problem.model.n_u > 0:
                 self.u_guess = None
 
             self.positive_objective = (
-- 
2.43.0


From 7dc37e04778f5ef078cd74f60ed079ecb0f2f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:01 +0000
Subject: [PATCH 28/82] fix: intermediary nodes have the same time interval as
 the nodes

---
 yaocptool/modelling/network/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index a3e440c..5b05bd9 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -298,6 +298,7 @@ class Network:
         new_problem = OptimalControlProblem(
             name="OCP_Dummy_{}_to_{}".format(node1.name, node2.name),
             model=new_model,
+            t_0=node1.problem.t_0,
             t_f=node1.problem.t_f,
         )
 
-- 
2.43.0


From cac5fa37ddc35ef33495ee6b2a49756c3a436cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:01 +0000
Subject: [PATCH 29/82] fix: inserting intermediary nodes keeps the nodes
 without connections

---
 yaocptool/modelling/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 5b05bd9..e3c2815 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -274,7 +274,9 @@ class Network:
             )
             for (node1, node2) in self.graph.edges
         }
+        old_nodes = list(self.graph.nodes)
         self.graph = networkx.DiGraph()
+        self.graph.add_nodes_from(old_nodes)
 
         for (node1, node2), (y, u) in old_connections.items():
             self.insert_intermediary_node(y, u, node1, node2)
-- 
2.43.0


From 9981935213e1afa8f1bad28ea371908e7a08ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:52 +0000
Subject: [PATCH 30/82] fix: extending a dataset creates the entries it does
 not have

---
 yaocptool/modelling/dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 1caab4f..b32ca10 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -174,7 +174,9 @@ class DataSet:
         """
 
         for entry in other_dataset.data:
-            if self.get_entry_size(entry) != other_dataset.get_entry_size(entry):
+            if entry in self.data and self.get_entry_size(
+                entry
+            ) != other_dataset.get_entry_size(entry):
                 raise ValueError(
                     "The size of the same entry is different in the two datasets, "
                     "{}!={}".format(
@@ -185,7 +187,8 @@ class DataSet:
                 self.create_entry(
                     entry,
                     size=other_dataset.get_entry_size(entry),
-                    names=other_dataset.get_entry_names(entry),
+                    names=list(other_dataset.get_entry_names(entry)),
+                    plot_style=other_dataset.data[entry].plot_style,
                 )
             self.insert_data(
                 entry,
-- 
2.43.0


From 5a1c88011ece83173af735452b59b5b91e557836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:52 +0000
Subject: [PATCH 31/82] fix: sorting a dataset accepts entries without data

---
 yaocptool/modelling/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index b32ca10..b4928f8 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -210,6 +210,8 @@ class DataSet:
 
         for entry in entries:
             entry_length = self.data[entry].time.shape[1]
+            if entry_length == 0:
+                continue
             time = [self.data[entry].time[i] for i in range(entry_length)]
             values = [
                 self.data[entry].values[:, i]
-- 
2.43.0


From 1fa951cf0ee9dd73d6df4d730fbcf9f582b0b4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:52 +0000
Subject: [PATCH 32/82] fix: data with a number of rows different from the
 entry's is refused

---
 yaocptool/modelling/dataset.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index b4928f8..7ae652e 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -147,12 +147,20 @@ class DataSet:
                 "time.shape={} and value.shape={}".format(time.shape[1], value.shape)
             )
 
+        if self.data[entry].size is None:
+            self.data[entry].size = value.shape[0]
+
+        if value.shape[0] != self.data[entry].size:
+            raise ValueError(
+                'Number of rows of "value" should be the size of the entry "{}", '
+                "value.shape={} and size={}".format(
+                    entry, value.shape, self.data[entry].size
+                )
+            )
+
         self.data[entry].values = horzcat(self.data[entry].values, value)
         self.data[entry].time = horzcat(self.data[entry].time, time)
 
-        if self.data[entry].size is None:
-            self.data["entry"].size = value.size1()
-
     def get_copy(self) -> "DataSet":
         """
             Return a copy of this dataset. The copy is not connected to the original data set, therefore changes in one
-- 
2.43.0


From 8f9c4568d4b184765daa4318642f024f95b89ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:52 +0000
Subject: [PATCH 33/82] fix: plot uses the given figures and leaves the given
 selection as it was

---
 yaocptool/modelling/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 7ae652e..9423e69 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -314,9 +314,10 @@ class DataSet:
         for k, entry_dict in enumerate(plot_list):
             fig = (
                 figures[k]
-                if figures is not None and len(figures) < k
+                if figures is not None and k < len(figures)
                 else plt.figure(k)
             )
+            plt.figure(fig.number)
             used_figures.append(fig)
 
             lines = []
@@ -331,6 +332,7 @@ class DataSet:
                 # if it is 'all'
                 if isinstance(indexes_or_names, str):
                     indexes_or_names = list(range(self.data[entry].size))
+                indexes_or_names = list(indexes_or_names)
 
                 var_names = self.get_entry_names(entry)
                 only_indices = [ind for ind in indexes_or_names if isinstance(ind, int)]
-- 
2.43.0


From c792fb6998f398ab26bff2cf0394438d6e53c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:48 +0000
Subject: [PATCH 34/82] fix: a refused extension leaves the dataset as it was,
 entries without data extend nothing

---
 yaocptool/modelling/dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 9423e69..8b7a744 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -191,6 +191,8 @@ class DataSet:
                         self.get_entry_size(entry), other_dataset.get_entry_size(entry)
                     )
                 )
+
+        for entry in other_dataset.data:
             if entry not in self.data:
                 self.create_entry(
                     entry,
@@ -198,6 +200,8 @@ class DataSet:
                     names=list(other_dataset.get_entry_names(entry)),
                     plot_style=other_dataset.data[entry].plot_style,
                 )
+            if other_dataset.data[entry].time.shape[1] == 0:
+                continue
             self.insert_data(
                 entry,
                 time=other_dataset.data[entry].time,
-- 
2.43.0


From 26aa7ee9cdc47e7b78c3ba73016c3ac51bf542d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:48 +0000
Subject: [PATCH 35/82] fix: dataframe of a dataset with entries without data

---
 yaocptool/modelling/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 8b7a744..67f3d3b 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -61,7 +61,7 @@ class DataSet:
             #  entry_time_value_dict = [
             #      np.atleast_2d(col).T for col in horzsplit(entry.values, 1)
             #  ]
-            values = entry.values.T.full()
+            values = entry.values.T.full().reshape(len(time), len(entry.names))
             names_tuples = [(entry_name, name) for name in entry.names]
             index = pd.MultiIndex.from_tuples(names_tuples)
             entry_df = pd.DataFrame(values, index=time, columns=index)
@@ -77,6 +77,8 @@ class DataSet:
                 if df is not None
                 else entry_df
             )
+        if df is None:
+            df = pd.DataFrame()
         df.index.name = "time"
         return df
 
-- 
2.43.0


From 8d7535cab8697245957f58e842f84b67b969fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:44 +0000
Subject: [PATCH 36/82] fix: remove_variables_from_vector_by_indices refuses
 every index out of bounds and takes negative indices

---
 yaocptool/util/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index dce5e9e..e8f190e 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -108,7 +108,7 @@ def remove_variables_from_vector_by_indices(
     """
     if indices:
         numel = vector.numel()
-        if max(indices) > numel:
+        if max(indices) >= numel:
             raise ValueError(
                 "Found indices out of bounds. Index violating: {}, indices: {}".format(
                     max(indices), indices
@@ -120,6 +120,7 @@ def remove_variables_from_vector_by_indices(
                     min(indices), indices
                 )
             )
+        indices = [ind % numel for ind in indices]
 
     remaining_ind = [ind for ind in range(vector.numel()) if ind not in indices]
     vector = vector[remaining_ind]
-- 
2.43.0


From f8a684b12763f45346b955a06ec518c9db52d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:44 +0000
Subject: [PATCH 37/82] fix: join_thetas refuses thetas with different keys

---
 yaocptool/util/util.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index e8f190e..4964d8f 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -166,20 +166,16 @@ def join_thetas(*args: Optional[Dict[int, DM]]) -> Dict[int, DM]:
     """
     new_theta: Dict[int, DM] = {}
     all_keys: List[int] = []
-    n_keys = 0
     for theta in args:
         if theta is not None:
             theta_keys = theta.keys()
-            n_keys = len(theta_keys) if n_keys == 0 else n_keys
-            if len(theta_keys) > 0 and len(theta_keys) != n_keys:
+            if len(theta_keys) > 0 and all_keys and set(theta_keys) != set(all_keys):
                 raise ValueError(
-                    "Only thetas with size zero or same size are accepted, given: {}".format(
-                        [len(th.keys()) if th is not None else None for th in args]
+                    "Only thetas with size zero or same keys are accepted, given: {}".format(
+                        [list(th.keys()) if th is not None else None for th in args]
                     )
                 )
-            all_keys.extend(theta.keys())
-
-    all_keys = list(set(all_keys))
+            all_keys = all_keys or list(theta_keys)
 
     for i in all_keys:
         new_theta[i] = vertcat(
-- 
2.43.0


From c86718254083e98d548f1bf2eeb26c9a82c0ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:07 +0000
Subject: [PATCH 38/82] fix: pickling casadi symbols does not depend on what
 was pickled before

---
 yaocptool/util/serializer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/yaocptool/util/serializer.py b/yaocptool/util/serializer.py
index e1475e5..a1493e5 100644
--- a/yaocptool/util/serializer.py
+++ b/yaocptool/util/serializer.py
@@ -21,15 +21,14 @@ class NewForkingPickler(mp.reduction.ForkingPickler):
 
 
 class CasadiPicklerDepickler:
-    serializer = StringSerializer()
-    deserializer = StringDeserializer(serializer.encode())
-
     def __init__(self):
         #  print("creating pickler/depickler", os.getpid())
-        self.__class__.serializer = StringSerializer()
-        self.__class__.deserializer = StringDeserializer(
-            self.__class__.serializer.encode()
-        )
+        self.serializer = StringSerializer()
+        self.deserializer = StringDeserializer(self.serializer.encode())
+
+    def __reduce__(self):
+        # each pickle is read by a deserializer of its own
+        return self.__class__, ()
 
     def dumps(self, var: Union[SX, MX]) -> str:
         #  print(os.getpid(), id(self.serializer), "starting to dump", repr(var))
-- 
2.43.0


From 3300f6335c7816c8c8167c0ed633581c23639bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:07 +0000
Subject: [PATCH 39/82] fix: timeout reports that it did not fire, lets other
 TimeoutErrors through and gives the alarm back

---
 yaocptool/util/timeout.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/yaocptool/util/timeout.py b/yaocptool/util/timeout.py
index 7bd3de6..af099aa 100644
--- a/yaocptool/util/timeout.py
+++ b/yaocptool/util/timeout.py
@@ -1,4 +1,5 @@
 import signal
+import time
 from types import TracebackType
 from typing import Type
 
@@ -23,18 +24,29 @@ class timeout:
         raise TimeoutError(self.error_message)
 
     def __enter__(self):
-        signal.signal(signal.SIGALRM, self.handle_timeout)
-        signal.alarm(self.seconds)
+        self._timedout = None
+        self._start = time.monotonic()
+        self._old_handler = signal.signal(signal.SIGALRM, self.handle_timeout)
+        self._old_alarm = signal.alarm(self.seconds)
         return self
 
+    def _restore_alarm(self):
+        signal.alarm(0)
+        signal.signal(signal.SIGALRM, self._old_handler)
+        if self._old_alarm:
+            elapsed = int(time.monotonic() - self._start)
+            signal.alarm(max(self._old_alarm - elapsed, 1))
+
     def __exit__(
         self,
         exc_type: Type[BaseException],
         value: BaseException,
         traceback: TracebackType,
     ):
-        signal.alarm(0)
+        self._restore_alarm()
+        fired = bool(self._timedout)
         if exc_type is None:
+            self._timedout = fired
             return True
 
         max_depth = 20
@@ -44,7 +56,7 @@ class timeout:
                 break
             cause = cause.__cause__
 
-        if type(cause) is not TimeoutError:
+        if type(cause) is not TimeoutError or not fired:
             self._timedout = False
             return
 
-- 
2.43.0


From 85ba1f14ef621095b9d1d5845585ce5c1dd5ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:50 +0000
Subject: [PATCH 40/82] fix: find_equilibrium solves for the states, algebraic
 variables and inputs

---
 yaocptool/modelling/system_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 3b17deb..95d1775 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -768,7 +768,7 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
         eqs = vertcat(self.ode, self.alg, additional_eqs)
         eqs = substitute(eqs, self.t, t_0)
         eqs = substitute(eqs, self.tau, 0)
-        f_eqs = Function("f_equilibrium", [vertcat(*self.all_sym[1:-1])], [eqs])
+        f_eqs = Function("f_equilibrium", [vertcat(self.x, self.y, self.u)], [eqs])
 
         rf = rootfinder("rf_equilibrium", "nlpsol", f_eqs, rootfinder_options)
         res = rf(guess)
-- 
2.43.0


From 68a7b8a461d0cc8c2a5ddad9a105eca629b9b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:50 +0000
Subject: [PATCH 41/82] fix: linearize creates the linear model

---
 yaocptool/modelling/system_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 95d1775..d99d330 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -725,11 +725,12 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             x_bar, u_bar
         )
 
-        linear_model = SystemModel(n_x=self.n_x, n_u=self.n_u)
+        linear_model = SystemModel(name="linearized_" + self.name)
+        linear_model.create_state("x", size=self.n_x)
+        linear_model.create_control("u", size=self.n_u)
         linear_model.include_equations(
             ode=[mtimes(a_matrix, linear_model.x) + mtimes(b_matrix, linear_model.u)]
         )
-        linear_model.name = "linearized_" + self.name
 
         return linear_model
 
-- 
2.43.0


From 414f2825548f92379ed693738d9533c9d2e18875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:49 +0000
Subject: [PATCH 42/82] fix: options of one solver do not change the defaults
 nor other solvers

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 yaocptool/optimization/nonlinear_problem.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 6b0df94..92e1459 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -67,7 +67,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         self.integrator_type = integrator_type
         self.discretization_scheme = discretization_scheme
         self.initial_condition_as_parameter = initial_condition_as_parameter
-        self.nlpsol_opts: Dict[str, Any] = nlpsol_opts
+        self.nlpsol_opts: Dict[str, Any] = dict(nlpsol_opts)
         self.initial_guess_heuristic = initial_guess_heuristic
         self.last_control_as_parameter = last_control_as_parameter
         self.initial_guess_model = None
diff --git a/yaocptool/optimization/nonlinear_problem.py b/yaocptool/optimization/nonlinear_problem.py
index d359ee0..de36af1 100644
--- a/yaocptool/optimization/nonlinear_problem.py
+++ b/yaocptool/optimization/nonlinear_problem.py
@@ -23,7 +23,7 @@ class NonlinearOptimizationProblem(AbstractOptimizationProblem):
         """
         super(NonlinearOptimizationProblem, self).__init__(**kwargs)
         if self.solver_options == {}:
-            self.solver_options = SOLVER_OPTIONS["nlpsol_options"]
+            self.solver_options = dict(SOLVER_OPTIONS["nlpsol_options"])
 
     def _create_solver(self) -> Function:
         problem_dict = self.get_problem_dict()
-- 
2.43.0


From 6eb710ebc840039bf6fbde7516eff2e0d2ecd20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:49 +0000
Subject: [PATCH 43/82] fix: solve leaves the given parameters, theta and
 initial condition as they were

---
 yaocptool/methods/base/solutionmethodsbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 92e1459..b87a9dd 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -468,7 +468,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
             initial_guess_dict=initial_guess_dict,
         )
 
-        return self.create_optimization_result(raw_solution_dict, p, theta, x_0)
+        # the optimal p_opt and theta_opt are written in the result's p and theta
+        p = DM(p)
+        theta = {el: DM(value) for el, value in theta.items()}
+        return self.create_optimization_result(raw_solution_dict, p, theta, DM(x_0))
 
     def create_optimization_result(
         self,
-- 
2.43.0


From f5debf58e215b54fbb898aacb92c0e6a93e67391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:46 +0000
Subject: [PATCH 44/82] fix: OptimizationResult.is_valid looks at the objective
 that is reported and accepts any initial time

---
 yaocptool/methods/base/optimizationresult.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/optimizationresult.py b/yaocptool/methods/base/optimizationresult.py
index 065092b..cd75a90 100644
--- a/yaocptool/methods/base/optimizationresult.py
+++ b/yaocptool/methods/base/optimizationresult.py
@@ -73,7 +73,7 @@ class OptimizationResult:
 
     @property
     def is_valid(self) -> bool:
-        for attr in ["finite_elements", "degree", "degree_control", "t_0", "t_f"]:
+        for attr in ["finite_elements", "degree", "degree_control"]:
             if getattr(self, attr) < 0:
                 raise Exception(
                     "{} attribute {} is lower than 0".format(
@@ -86,7 +86,7 @@ class OptimizationResult:
                     self.__class__.__name__, "time_breakpoints"
                 )
             )
-        for attr in ["objective"]:
+        for attr in ["t_0", "t_f", "objective_opt_problem"]:
             if getattr(self, attr) is None:
                 raise Exception(
                     "{} attribute {} is None".format(self.__class__.__name__, attr)
-- 
2.43.0


From 70e6f0fb6877641460d1d23010ce3bf8c4a83463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:15 +0000
Subject: [PATCH 45/82] fix: constraints with a structurally zero row can be
 solved

---
 yaocptool/optimization/abstract_optimization_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 87779d0..be395a7 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -401,7 +401,7 @@ class AbstractOptimizationProblem(object):
         :return: optimization problem as a dict
         :rtype: dict
         """
-        return {"f": self.f, "g": self.g, "x": self.x, "p": self.p}
+        return {"f": self.f, "g": densify(self.g), "x": self.x, "p": self.p}
 
     def get_solver(self) -> Function:
         """
-- 
2.43.0


From fe659b8f806d2449f321215281da80846932b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:41 +0000
Subject: [PATCH 46/82] fix: MPC does not stop in the debugger and uses its
 theta

---
 yaocptool/mpc/mpc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 9f2d65f..2ef3063 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -131,9 +131,12 @@ class MPC:
         #      if len(initial_guess_dict) == 1:
         #          initial_guess_dict = initial_guess_dict[0]
 
-        __import__("ipdb").set_trace()
         solutions = self.solution_method.solve(
-            x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
+            x_0=x_k,
+            initial_guess=self.initial_guess,
+            p=p,
+            theta=self.theta,
+            last_u=u_k,
         )
         self.initial_guess = self.step(solutions.raw_decision_variables)
 
-- 
2.43.0


From 1f576d539a6eb1e8e6ae97c19eaecc932da755a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:41 +0000
Subject: [PATCH 47/82] fix: MPC sends the control it is asked to send

---
 yaocptool/mpc/mpc.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 2ef3063..d26343a 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -152,7 +152,10 @@ class MPC:
 
     def _make_control_function(self, control_parameters):
         u_pol, u_par = create_polynomial_approximation(
-            self.plant.model.tau, self.plant.model.n_u, self.solution_method.degree, "u"
+            self.plant.model.tau,
+            self.plant.model.n_u,
+            self.solution_method.degree_control,
+            "u",
         )
 
         u_pol = substitute(u_pol, u_par, control_parameters)
@@ -176,8 +179,10 @@ class MPC:
 
         :param u: DM
         """
-        #  self.plant.set_control(u)
+        self.plant.set_control(u)  # this advances the simulation
 
+    def send_control_function(self):
+        """Sent the polynomial control of the last solution to the plant."""
         self.plant.set_control_function(
             self._make_control_function(
                 self._get_solution_parameters(
@@ -239,8 +244,11 @@ class MPC:
                     )
                 )
 
-            # FIXME: Trying with function
-            self.send_control(new_u)  # this advances the simulation
+            # this advances the simulation
+            if self.solution_method.degree_control > 1:
+                self.send_control_function()
+            else:
+                self.send_control(new_u)
 
             if k >= iterations - 1:
                 print("End of MPC.un".center(30, "="))
-- 
2.43.0


From d9edac40e8432027d048a612325a5b77ad7e0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:41 +0000
Subject: [PATCH 48/82] fix: MPC.run(0) runs indefinitely, as documented

---
 yaocptool/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index d26343a..437a88d 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -250,7 +250,7 @@ class MPC:
             else:
                 self.send_control(new_u)
 
-            if k >= iterations - 1:
+            if iterations > 0 and k >= iterations - 1:
                 print("End of MPC.un".center(30, "="))
                 break
 
-- 
2.43.0


From 30166c303cc202378982b346acb799e25a7c2f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:41 +0000
Subject: [PATCH 49/82] fix: MPC can be used with multiple-shooting and with
 one finite element

---
 yaocptool/mpc/mpc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 437a88d..cdaf818 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -309,6 +309,12 @@ class MPC:
     def step(self, decision_variables):
         collocation_scheme: CollocationScheme = self.solution_method.discretizer  # type: ignore
 
+        if (
+            not isinstance(collocation_scheme, CollocationScheme)
+            or collocation_scheme.finite_elements == 1
+        ):
+            return decision_variables
+
         perturbation_percentage = 0.0
         decision_variables *= 1 + perturbation_percentage * (
             numpy.random.rand(*decision_variables.shape) - 0.5
-- 
2.43.0


From 084ecadc6c6422a5268faea9f0cc40364d743a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:41 +0000
Subject: [PATCH 50/82] fix: PlantSimulation accepts measurements of any size
 and measures its initial state

---
 yaocptool/mpc/plant.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 3af29ba..d1b93c6 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -62,7 +62,6 @@ class PlantSimulation(PlantInterface):
         self.t_s = float(t_s)
 
         self.x = x_0
-        self.measurement = x_0
         self.u = u_0 if u_0 is not None else DM.zeros(self.model.n_u)
         self.t = self.t_0 = float(t_0)
 
@@ -101,6 +100,7 @@ class PlantSimulation(PlantInterface):
         self._initialize_dataset()
 
         meas_data = self._measure(self.x, self.y_guess)
+        self.measurement = meas_data["measurement"]
 
         self._save_data(self.x, self.y_guess, self.u, **meas_data)
         if self.has_noise and self.noise_seed is not None:
@@ -237,11 +237,11 @@ class PlantSimulation(PlantInterface):
 
         self.dataset.create_entry(
             "meas_wo_noise",
-            self.model.n_x,
-            ["meas_wo_noise_" + str(i) for i in range(self.model.n_x)],
+            self.c_matrix.shape[0],
+            ["meas_wo_noise_" + str(i) for i in range(self.c_matrix.shape[0])],
         )
         self.dataset.create_entry(
             "meas",
-            self.model.n_x,
-            ["meas_" + str(i) for i in range(self.model.n_x)],
+            self.c_matrix.shape[0],
+            ["meas_" + str(i) for i in range(self.c_matrix.shape[0])],
         )
-- 
2.43.0


From 247a2aeb4e016f2499c85d9cd236e18601a9b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:41 +0000
Subject: [PATCH 51/82] fix: PlantSimulation.set_control applies the given
 control after a control function was used

---
 yaocptool/mpc/plant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index d1b93c6..2c64f61 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -146,6 +146,7 @@ class PlantSimulation(PlantInterface):
                 )
             )
         self.u = u
+        self.u_function = None
 
         # go to next time
         self._advance()
-- 
2.43.0


From 2ffb87f7112f035922c392b2b6c1b48650f54928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:07 +0000
Subject: [PATCH 52/82] fix: AugmentedLagrangian uses the grid of the solver
 options for its multipliers

---
 yaocptool/methods/augmented_lagrangian.py | 47 +++++++++++------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6694473..c1e07b0 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -147,8 +147,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             via an algebraic variable
         :param kwargs:
         """
-        if solver_options is None:
-            solver_options = {}
+        solver_options = dict(solver_options) if solver_options is not None else {}
         if options is None:
             options = {}
 
@@ -209,6 +208,28 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         self.mu = DM()
 
+        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
+        for attr in ["degree", "finite_elements"]:
+            if (
+                attr in solver_options
+                and attr in kwargs
+                and solver_options[attr] != kwargs[attr]
+            ):
+                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
+                raise ValueError(
+                    exc_mess.format(
+                        attr,
+                        self.__class__.__name__,
+                        ocp_solver_class.__name__,
+                        kwargs[attr],
+                        solver_options[attr],
+                    )
+                )
+            elif attr in solver_options:
+                setattr(self.options, attr, solver_options[attr])
+            else:
+                solver_options[attr] = getattr(self.options, attr)
+
         # RELAXATION
 
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
@@ -236,28 +257,6 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                 finite_elements=self.options.finite_elements,
             )
 
-        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
-        for attr in ["degree", "finite_elements"]:
-            if (
-                attr in solver_options
-                and attr in kwargs
-                and solver_options[attr] != kwargs[attr]
-            ):
-                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
-                raise ValueError(
-                    exc_mess.format(
-                        attr,
-                        self.__class__.__name__,
-                        ocp_solver_class.__name__,
-                        kwargs[attr],
-                        solver_options[attr],
-                    )
-                )
-            elif attr in solver_options:
-                setattr(self.options, attr, solver_options[attr])
-            else:
-                solver_options[attr] = getattr(self.options, attr)
-
         #  solver_options["integrator_type"] = self.integrator_type
 
         # Initialize OCP solver
-- 
2.43.0


From 4e469c0f001ea356f3a387cec82942289d228150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:07 +0000
Subject: [PATCH 53/82] fix: AugmentedLagrangian relaxes time equalities of
 models without algebraic equations

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index c1e07b0..3b8a709 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -235,7 +235,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.model.alg[self.relax_time_equality_index].numel() > 0:
+        if len(self.relax_time_equality_index) > 0:
             self._relax_time_equalities()
 
         if self.relax_state_bounds:
-- 
2.43.0


From e7b7e46047987aa142113fc996fe2104c13eed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:07 +0000
Subject: [PATCH 54/82] fix: AugmentedLagrangian gives the relaxed variables
 their own guess

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 3b8a709..c227c35 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -311,7 +311,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         # include the relaxed y_sym as controls
         u_guess = (
-            self.problem.y_guess[self.relax_algebraic_index]
+            self.problem.y_guess[self.relax_algebraic_var_index]
             if self.problem.y_guess is not None
             else None
         )
-- 
2.43.0


From 7090b9f05bb9ef2d62af4d59f162d0577e6acac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:43 +0000
Subject: [PATCH 55/82] fix: AugmentedLagrangian updates each multiplier with
 the violation of its own equation

---
 yaocptool/methods/augmented_lagrangian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index c227c35..eb610e4 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -235,12 +235,13 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if len(self.relax_time_equality_index) > 0:
-            self._relax_time_equalities()
-
+        # the state bounds are relaxed with algebraic equations, whose multipliers come first
         if self.relax_state_bounds:
             self._relax_states_constraints()
 
+        if len(self.relax_time_equality_index) > 0:
+            self._relax_time_equalities()
+
         if not self.options.debug_skip_initialize:
             if not self.options.debug_skip_parametrize:
                 self._parametrize_nu()
-- 
2.43.0


From fd1e9a3ab344ba673df4b681a7ad25a575d1d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:14 +0000
Subject: [PATCH 56/82] fix: only_update_if_improve updates the multipliers of
 an equation at all its points

---
 yaocptool/methods/augmented_lagrangian.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index eb610e4..d5bf4a9 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -777,13 +777,19 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                     and any((errors > 0).nz)
                     and self.last_violation_error is not None
                 ):
+                    # do not change the multipliers (and errors) already used or reported
+                    self.last_violation_error = DM(self.last_violation_error)
+                    self.nu_tilde = {el: DM(val) for el, val in self.nu_tilde.items()}
                     for ind, (error, last_error) in enumerate(
                         zip(errors.nz, self.last_violation_error.nz)
                     ):
                         if (error - last_error) < 0:
                             self.last_violation_error[ind] = error
+                            # nu is a vectorized (n_relax, degree) matrix
                             for el in self.nu_tilde:
-                                self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                                self.nu_tilde[el][ind :: self.n_relax] = nu_tilde[el][
+                                    ind :: self.n_relax
+                                ]
                         else:
                             LOGGER.info("Error is greater than zero")
                 else:
-- 
2.43.0


From 29a658c1e690e136ba9f5b58237f74c82dd1616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:58 +0000
Subject: [PATCH 57/82] fix: AugmentedLagrangian computes the violations with
 the optimized parameters

---
 yaocptool/methods/augmented_lagrangian.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index d5bf4a9..783384c 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -404,8 +404,8 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             y_var,
             u_var,
             _,
-            _,
-            _,
+            p_opt,
+            theta_opt,
         ) = self.ocp_solver.discretizer.unpack_decision_variables(v)
         par = MX.sym("par", self.model.n_p)
         theta = {
@@ -414,6 +414,15 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         }
         theta_var = vertcat(*[theta[i] for i in range(self.options.finite_elements)])
 
+        # the optimized parameters have the value found by the solver
+        p = MX(par)
+        for k, ind in enumerate(self.problem.get_p_opt_indices()):
+            p[ind] = p_opt[k]
+        theta = {el: MX(theta_el) for el, theta_el in theta.items()}
+        for k, ind in enumerate(self.problem.get_theta_opt_indices()):
+            for el in theta:
+                theta[el][ind] = theta_opt[el][k]
+
         time_dict = {i: {} for i in range(self.options.finite_elements)}
 
         for el in range(self.options.finite_elements):
@@ -451,7 +460,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         # get values (symbolically)
         results = self.ocp_solver.discretizer.get_system_at_given_times(
-            x_var, y_var, u_var, time_dict, p=par, theta=theta, functions=functions
+            x_var, y_var, u_var, time_dict, p=p, theta=theta, functions=functions
         )
 
         # compute new nu
-- 
2.43.0


From 26df3a72136d688acc23266d58491ecd20682eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:11 +0000
Subject: [PATCH 58/82] fix: the primal penalty rule compares with the error of
 the previous iteration

---
 yaocptool/methods/augmented_lagrangian.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 783384c..bd5fa4f 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -786,14 +786,12 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                     and any((errors > 0).nz)
                     and self.last_violation_error is not None
                 ):
-                    # do not change the multipliers (and errors) already used or reported
-                    self.last_violation_error = DM(self.last_violation_error)
+                    # do not change the multipliers already used or reported
                     self.nu_tilde = {el: DM(val) for el, val in self.nu_tilde.items()}
                     for ind, (error, last_error) in enumerate(
                         zip(errors.nz, self.last_violation_error.nz)
                     ):
                         if (error - last_error) < 0:
-                            self.last_violation_error[ind] = error
                             # nu is a vectorized (n_relax, degree) matrix
                             for el in self.nu_tilde:
                                 self.nu_tilde[el][ind :: self.n_relax] = nu_tilde[el][
-- 
2.43.0


From 9e0ea44d50a5f0c1aa33ec5d8fcf382ac3220d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:12 +0000
Subject: [PATCH 59/82] fix: a refused parametrize_control leaves no control
 registered as parametrized

---
 yaocptool/modelling/mixins/control_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/control_mixin.py b/yaocptool/modelling/mixins/control_mixin.py
index 572a72d..a97bb65 100644
--- a/yaocptool/modelling/mixins/control_mixin.py
+++ b/yaocptool/modelling/mixins/control_mixin.py
@@ -95,8 +95,8 @@ class ControlMixin(BaseMixin):
         for u_i in u.nz:
             if self.control_is_parametrized(u_i):
                 raise ValueError(f'The control "{u_i}" is already parametrized.')
-            # to get have a new memory address
-            self._parametrized_controls = self._parametrized_controls + [u_i]
+        # to get have a new memory address
+        self._parametrized_controls = self._parametrized_controls + list(u.nz)
 
         # Remove u from u_par if they are going to be parametrized
         self.u_par = remove_variables_from_vector(u, self.u_par)
-- 
2.43.0


From 2256f753b6c3b23c6ad838e0e55e7d9c0454595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:55 +0000
Subject: [PATCH 60/82] fix: the Kalman filters use the names the models and
 datasets have

---
 .../estimation/extended_kalman_filter.py      | 93 ++++++++++---------
 yaocptool/estimation/pce_kalman_filter.py     | 26 +++---
 .../estimation/unscented_kalman_filter.py     | 67 +++++++------
 3 files changed, 104 insertions(+), 82 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 9fc18a2..84154a2 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -70,34 +70,43 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ekf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ekf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ekf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ekf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ekf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            ["ekf_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+
+        self.dataset.create_entry(
+            "y",
+            self.model.n_y,
+            ["ekf_" + self.model.y[i].name() for i in range(self.model.n_y)],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "ekf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P_y",
+            self.model.n_y ** 2,
+            [
+                "ekf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "meas",
+            self.n_meas,
+            ["ekf_meas_" + str(i) for i in range(self.n_meas)],
+        )
 
     @property
     def n_meas(self):
@@ -178,14 +187,14 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Obtain the matrix G (linearized measurement model)
         measurement_sym = self._get_measurement_from_prediction(
-            self.model.x_sym, self.model.y_sym, self.model.u_sym
+            self.model.x, self.model.y, self.model.u
         )
         dh_dx_aug_sym = jacobian(
-            measurement_sym, vertcat(self.model.x_sym, self.model.y_sym)
+            measurement_sym, vertcat(self.model.x, self.model.y)
         )
         f_dh_dx_aug = Function(
             "dh_dx_aug",
-            [self.model.x_sym, self.model.y_sym, self.model.u_sym],
+            [self.model.x, self.model.y, self.model.u],
             [dh_dx_aug_sym],
         )
 
@@ -229,7 +238,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
-        self.dataset.insert_data("P_y", t_k, p_k[self.model.n_x :, self.model.n_x :])
+        self.dataset.insert_data("P_y", t_k, vec(p_k[self.model.n_x :, self.model.n_x :]))
 
         return self.x_mean, self.p_k
 
@@ -239,27 +248,27 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         :type model: SystemModel
         """
         aug_model = SystemModel("aug_linearized_EKF_model")
-        aug_model.include_state(self.model.x_sym)
-        aug_model.include_state(self.model.y_sym)
-        aug_model.include_control(self.model.u_sym)
-        aug_model.include_parameter(self.model.p_sym)
-        aug_model.include_theta(self.model.theta_sym)
+        aug_model.include_state(self.model.x)
+        aug_model.include_state(self.model.y)
+        aug_model.include_control(self.model.u)
+        aug_model.include_parameter(self.model.p)
+        aug_model.include_theta(self.model.theta)
 
         # remove u_par (self.model.u_par model.u_par)
         all_sym = list(self.model.all_sym)
 
         # Mean
         a_func = Function(
-            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x_sym)]
+            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x)]
         )
         b_func = Function(
-            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y_sym)]
+            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y)]
         )
         c_func = Function(
-            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x_sym)]
+            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x)]
         )
         d_func = Function(
-            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y_sym)]
+            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y)]
         )
 
         x_lin = aug_model.create_parameter("x_lin", self.model.n_x)
@@ -281,7 +290,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
             ),
         )
 
-        x_aug = vertcat(model.x_sym, model.y_sym)
+        x_aug = vertcat(model.x, model.y)
         aug_model.include_equations(ode=[mtimes(a_aug_matrix, x_aug)])
 
         # Covariance
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index e9fa0d4..53e61f0 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -72,17 +72,21 @@ class PCEKalmanFilter(EstimatorAbstract):
         )
 
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "est_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            ["est_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
 
     @property
     def n_pol_parameters(self):
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 44e5c6d..6044b2b 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -61,34 +61,43 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ukf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ukf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ukf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ukf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ukf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            ["ukf_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+
+        self.dataset.create_entry(
+            "y",
+            self.model.n_y,
+            ["ukf_" + self.model.y[i].name() for i in range(self.model.n_y)],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "ukf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P_y",
+            self.model.n_y ** 2,
+            [
+                "ukf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "meas",
+            self.n_meas,
+            ["ukf_meas_" + str(i) for i in range(self.n_meas)],
+        )
 
         # Choose the UKF implementation
         if self.implementation == "standard":
@@ -248,7 +257,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-            "P_y", t_k, cov_x_aug[self.model.n_x :, self.model.n_x :]
+            "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
         return x_mean, cov_x_aug
-- 
2.43.0


From 17570a278e36c2fbde105cf36fbef2fb0aa2cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:19 +0000
Subject: [PATCH 61/82] fix: the Unscented Kalman Filter returns the estimate
 of the states

---
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 6044b2b..6e9ef86 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -260,7 +260,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
             "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
-        return x_mean, cov_x_aug
+        return self.x_mean, self.p_k
 
     def _estimate_square_root_ukf(self, t_k, y_k, u_k):
         raise NotImplementedError
-- 
2.43.0


From fead2e520f4431a5dcb018bbbc6d7dbbcfd2db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:19 +0000
Subject: [PATCH 62/82] fix: the Extended Kalman Filter linearizes the model at
 the applied control

---
 yaocptool/estimation/extended_kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 84154a2..512868e 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -173,7 +173,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Covariance
         all_sym_values = self.model.put_values_in_all_sym_format(
-            t=self.t, x=x_pred, y=y_pred, p=self.p, theta=self.theta
+            t=self.t, x=x_pred, y=y_pred, p=self.p, theta=self.theta, u_par=u_k
         )
         all_sym_values = all_sym_values
 
-- 
2.43.0


From 91f3e0c40899b2b3a0d1c7b6fe7935a9132978c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:19 +0000
Subject: [PATCH 63/82] fix: the Kalman filters advance their time

---
 yaocptool/estimation/extended_kalman_filter.py  | 1 +
 yaocptool/estimation/pce_kalman_filter.py       | 1 +
 yaocptool/estimation/unscented_kalman_filter.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 512868e..34ba742 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -228,6 +228,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         )
 
         # Save variables in local object
+        self.t = self.t + self.t_s
         self._x_aug = x_mean
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = p_k
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index 53e61f0..7a8f7ca 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -140,6 +140,7 @@ class PCEKalmanFilter(EstimatorAbstract):
         x_hat_k = x_hat_k_minus + mtimes(k_gain, (y_k - y_hat_k_minus))
         p_k = p_k_minus - mtimes(k_gain, mtimes(p_yk_yk, k_gain.T))
 
+        self.t = self.t + self.t_s
         self.x_mean = x_hat_k
         self.p_k = p_k
 
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 6e9ef86..e3dc996 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -246,6 +246,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.p_k = cov_x_aug
 
         # Save variables in local object
+        self.t = self.t + self.t_s
         self._x_aug = x_mean
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = cov_x_aug_pred
-- 
2.43.0


From 70f77bb489540d365ec4883ae6738de2ce02c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:19 +0000
Subject: [PATCH 64/82] fix: coefficient of the tenth Hermite polynomial

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 805e648..bee762e 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -493,7 +493,7 @@ def get_ls_factor(n_uncertain, n_samples, pc_order, lamb=0.0):
     he10fcn = Function(
         "He10fcn",
         [x],
-        [x ** 10 - 45 * x ** 8 + 640 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
+        [x ** 10 - 45 * x ** 8 + 630 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
     )
     helist = [
         he0fcn,
-- 
2.43.0


From e239351b68c9c264bc1b17dd69b83162d9ef93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:53 +0000
Subject: [PATCH 65/82] fix: the expectations of the squared polynomials are
 exact

---
 yaocptool/stochastic/pce.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index bee762e..e69f2b1 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -546,13 +546,10 @@ def get_ls_factor(n_uncertain, n_samples, pc_order, lamb=0.0):
     ls_factor = DM(ls_factor)
 
     # Calculation of expectations for variance function
-    n_sample_expectation_vector = 100000
-    x_sample = np.random.multivariate_normal(
-        np.zeros(n_uncertain), np.eye(n_uncertain), n_sample_expectation_vector
-    )
-    psi_squared_sum = DM.zeros(SX.size(psi)[0])
-    for i in range(n_sample_expectation_vector):
-        psi_squared_sum += psi_fcn(x_sample[i, :]) ** 2
-    expectation_vector = psi_squared_sum / n_sample_expectation_vector
+    # For a standard normal variable E[He_n(x)^2] = n!
+    expectation_vector = DM.ones(nparameter)
+    for i in range(len(exps)):
+        for j in range(n_uncertain):
+            expectation_vector[i + 1] *= factorial(exps[i][j])
 
     return ls_factor, expectation_vector, psi_fcn
-- 
2.43.0


From d9ef2417ccbde73d60706e2d6288d9897a0e830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:53 +0000
Subject: [PATCH 66/82] fix: the PCE Kalman Filter weighs the coefficients with
 the expectations of the basis

---
 yaocptool/estimation/pce_kalman_filter.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index 7a8f7ca..b17a8b1 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -67,7 +67,7 @@ class PCEKalmanFilter(EstimatorAbstract):
                 )
             )
 
-        self._ls_factor, _, _ = get_ls_factor(
+        self._ls_factor, self._exp_phi, _ = get_ls_factor(
             self.n_uncertain, self.n_samples, self.pc_order
         )
 
@@ -90,7 +90,7 @@ class PCEKalmanFilter(EstimatorAbstract):
 
     @property
     def n_pol_parameters(self):
-        return factorial(self.n_uncertain + self.pc_order) / (
+        return factorial(self.n_uncertain + self.pc_order) // (
             factorial(self.n_uncertain) * factorial(self.pc_order)
         )
 
@@ -208,7 +208,12 @@ class PCEKalmanFilter(EstimatorAbstract):
         for i in range(self.model.n_x):
             for j in range(self.model.n_x):
                 p_k_minus[i, j] = (
-                    sum([a_x[i][k] * a_x[j][k] for k in range(1, self.n_samples)])
+                    sum(
+                        [
+                            a_x[i][k] * a_x[j][k] * self._exp_phi[k]
+                            for k in range(1, self.n_pol_parameters)
+                        ]
+                    )
                     + self.r_v[i, j]
                 )
 
@@ -241,7 +246,10 @@ class PCEKalmanFilter(EstimatorAbstract):
         for i in range(n_meas):
             for j in range(n_meas):
                 p_yk_yk[i, j] = sum(
-                    [a_meas[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
+                    [
+                        a_meas[i][k] * a_meas[j][k] * self._exp_phi[k]
+                        for k in range(1, self.n_pol_parameters)
+                    ]
                 )
         p_yk_yk = p_yk_yk + self.r_n
 
@@ -250,7 +258,10 @@ class PCEKalmanFilter(EstimatorAbstract):
         for i in range(self.model.n_x):
             for j in range(n_meas):
                 p_xk_yk[i, j] = sum(
-                    [a_x[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
+                    [
+                        a_x[i][k] * a_meas[j][k] * self._exp_phi[k]
+                        for k in range(1, self.n_pol_parameters)
+                    ]
                 )
 
         # k_gain = mtimes(p_xk_yk, inv(p_yk_yk))
-- 
2.43.0


From cd2914a670e06307fcbe9207410431e2c969bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:09 +0000
Subject: [PATCH 67/82] fix: StochasticOCP and PCEConverter use the interface
 the models have

---
 yaocptool/modelling/stochastic_ocp.py |   6 +-
 yaocptool/stochastic/pce.py           | 135 +++++++++++++-------------
 2 files changed, 71 insertions(+), 70 deletions(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index b2efbaa..972f882 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -119,15 +119,15 @@ class StochasticOCP(OptimalControlProblem):
 
     def get_p_without_p_unc(self):
         return remove_variables_from_vector_by_indices(
-            self.get_p_unc_indices(), self.model.p_sym
+            self.get_p_unc_indices(), self.model.p
         )
 
     def get_p_unc_indices(self):
-        return find_variables_indices_in_vector(self.p_unc, self.model.p_sym)
+        return find_variables_indices_in_vector(self.p_unc, self.model.p)
 
     def get_uncertain_initial_cond_indices(self):
         return find_variables_indices_in_vector(
-            self.uncertain_initial_conditions, self.model.x_0_sym
+            self.uncertain_initial_conditions, self.model.x_0
         )
 
     def include_time_chance_inequality(self, ineq, prob, rhs=None, when="default"):
diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index e69f2b1..4c176f0 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -117,25 +117,25 @@ class PCEConverter:
         cost = self.socp.L
 
         original_vars = vertcat(
-            self.socp.model.x_sym,
-            self.socp.model.y_sym,
-            self.socp.model.u_sym,
-            self.socp.model.p_sym,
-            self.socp.model.theta_sym,
-            self.socp.model.t_sym,
-            self.socp.model.tau_sym,
-            self.socp.model.x_0_sym,
+            self.socp.model.x,
+            self.socp.model.y,
+            self.socp.model.u,
+            self.socp.model.p,
+            self.socp.model.theta,
+            self.socp.model.t,
+            self.socp.model.tau,
+            self.socp.model.x_0,
         )
 
         new_vars = vertcat(
-            model_s.x_sym,
-            model_s.y_sym,
-            model_s.u_sym,
-            model_s.p_sym,
-            model_s.theta_sym,
-            model_s.t_sym,
-            model_s.tau_sym,
-            model_s.x_0_sym,
+            model_s.x,
+            model_s.y,
+            model_s.u,
+            model_s.p,
+            model_s.theta,
+            model_s.t,
+            model_s.tau,
+            model_s.x_0,
         )
 
         cost = substitute(cost, original_vars, new_vars)
@@ -260,10 +260,10 @@ class PCEConverter:
         problem.name = self.socp.name + "_PCE"
 
         problem.p_opt = substitute(
-            self.socp.p_opt, self.socp.get_p_without_p_unc(), problem.model.p_sym
+            self.socp.p_opt, self.socp.get_p_without_p_unc(), problem.model.p
         )
         problem.theta_opt = substitute(
-            self.socp.theta_opt, self.socp.model.theta_sym, problem.model.theta_sym
+            self.socp.theta_opt, self.socp.model.theta, problem.model.theta
         )
 
         problem.x_max = repmat(vertcat(self.socp.x_max, inf), self.n_samples)
@@ -282,35 +282,35 @@ class PCEConverter:
 
         problem.t_f = self.socp.t_f
 
-        if depends_on(self.socp.g_eq, self.socp.model.x_sym) or depends_on(
-            self.socp.g_eq, self.socp.model.y_sym
+        if depends_on(self.socp.g_eq, self.socp.model.x) or depends_on(
+            self.socp.g_eq, self.socp.model.y
         ):
             raise NotImplementedError(
-                'Case where "g_eq" depends on "model.x_sym" or "model.y_sym" is not implemented '
+                'Case where "g_eq" depends on "model.x" or "model.y" is not implemented '
             )
 
-        if depends_on(self.socp.g_ineq, self.socp.model.x_sym) or depends_on(
-            self.socp.g_ineq, self.socp.model.y_sym
+        if depends_on(self.socp.g_ineq, self.socp.model.x) or depends_on(
+            self.socp.g_ineq, self.socp.model.y
         ):
             raise NotImplementedError(
-                'Case where "g_ineq" depends on "model.x_sym" '
-                'or "model.y_sym" is not implemented '
+                'Case where "g_ineq" depends on "model.x" '
+                'or "model.y" is not implemented '
             )
 
         original_vars = vertcat(
-            self.socp.model.u_sym,
+            self.socp.model.u,
             self.socp.get_p_without_p_unc(),
-            self.socp.model.theta_sym,
-            self.socp.model.t_sym,
-            self.socp.model.tau_sym,
+            self.socp.model.theta,
+            self.socp.model.t,
+            self.socp.model.tau,
         )
 
         new_vars = vertcat(
-            problem.model.u_sym,
-            problem.model.p_sym,
-            problem.model.theta_sym,
-            problem.model.t_sym,
-            problem.model.tau_sym,
+            problem.model.u,
+            problem.model.p,
+            problem.model.theta,
+            problem.model.t,
+            problem.model.tau,
         )
 
         if not self.socp.n_h_initial == self.socp.model.n_x:
@@ -329,7 +329,7 @@ class PCEConverter:
 
         for i in range(self.socp.n_uncertain_initial_condition):
             ind = self.socp.get_uncertain_initial_cond_indices()[i]
-            x_ind_s = problem.model.x_0_sym[ind :: (self.socp.model.n_x + 1)]
+            x_ind_s = problem.model.x_0[ind :: (self.socp.model.n_x + 1)]
             problem.h_initial = substitute(
                 problem.h_initial,
                 x_ind_s,
@@ -373,16 +373,16 @@ class PCEConverter:
         sampled_parameters_p_unc = sampled_parameters[: self.socp.n_p_unc, :]
         model = SystemModel(name=self.socp.model.name + "_PCE")
 
-        model.include_control(self.socp.model.u_sym)
+        model.include_control(self.socp.model.u)
         model.include_parameter(self.socp.get_p_without_p_unc())
-        model.include_theta(self.socp.model.theta_sym)
+        model.include_theta(self.socp.model.theta)
 
-        u_global = model.u_sym
-        p_global = model.p_sym
-        theta_global = model.theta_sym
+        u_global = model.u
+        p_global = model.p
+        theta_global = model.theta
 
-        t_global = model.t_sym
-        tau_global = model.tau_sym
+        t_global = model.t
+        tau_global = model.tau
 
         cost_list = []
         for s in range(self.n_samples):
@@ -391,23 +391,24 @@ class PCEConverter:
             # cost of sample
             cost_ode = self._create_cost_ode_of_sample(model_s)
             cost_s = model_s.create_state("cost_" + str(s))
-            model_s.include_system_equations(ode=cost_ode)
+            model_s.include_equations(ode=cost_ode, x=cost_s)
 
             # replace the parameter variable with the sampled variable
-            p_unc_s = model_s.p_sym.get(False, self.socp.get_p_unc_indices())
+            p_unc_s = model_s.p.get(False, self.socp.get_p_unc_indices())
 
             model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
             model_s.remove_parameter(p_unc_s)
 
             # replace the model variables with the global variables
-            model_s.replace_variable(model_s.u_sym, u_global)
-            model_s.replace_variable(model_s.p_sym, p_global)
-            model_s.replace_variable(model_s.theta_sym, theta_global)
-            model_s.remove_control(model_s.u_sym)
-            model_s.remove_parameter(model_s.p_sym)
-            model_s.remove_theta(model_s.theta_sym)
-            model_s.t_sym = t_global
-            model_s.tau_sym = tau_global
+            model_s.replace_variable(model_s.u, u_global)
+            model_s.replace_variable(model_s.p, p_global)
+            model_s.replace_variable(model_s.theta, theta_global)
+            model_s.remove_control(model_s.u)
+            model_s.remove_parameter(model_s.p)
+            if model_s.n_theta > 0:
+                model_s.remove_theta(model_s.theta)
+            model_s.t = t_global
+            model_s.tau = tau_global
 
             # merge the sample model in the unique model
             model.merge(model_s)
@@ -428,34 +429,34 @@ class PCEConverter:
         """
         expr_list = []
         for s in range(self.n_samples):
-            x_s = model.x_sym[
+            x_s = model.x[
                 s * (self.socp.model.n_x + 1) : (s + 1) * (self.socp.model.n_x + 1)
             ][: self.socp.model.n_x]
-            x_0_s = model.x_0_sym[
+            x_0_s = model.x_0[
                 s * (self.socp.model.n_x + 1) : (s + 1) * (self.socp.model.n_x + 1)
             ][: self.socp.model.n_x]
-            y_s = model.y_sym[s * self.socp.model.n_y : (s + 1) * self.socp.model.n_y]
+            y_s = model.y[s * self.socp.model.n_y : (s + 1) * self.socp.model.n_y]
 
             original_vars = vertcat(
-                self.socp.model.x_sym,
-                self.socp.model.y_sym,
-                self.socp.model.u_sym,
+                self.socp.model.x,
+                self.socp.model.y,
+                self.socp.model.u,
                 self.socp.get_p_without_p_unc(),
-                self.socp.model.theta_sym,
-                self.socp.model.t_sym,
-                self.socp.model.tau_sym,
-                self.socp.model.x_0_sym,
+                self.socp.model.theta,
+                self.socp.model.t,
+                self.socp.model.tau,
+                self.socp.model.x_0,
                 self.socp.p_unc,
             )
 
             new_vars = vertcat(
                 x_s,
                 y_s,
-                model.u_sym,
-                model.p_sym,
-                model.theta_sym,
-                model.t_sym,
-                model.tau_sym,
+                model.u,
+                model.p,
+                model.theta,
+                model.t,
+                model.tau,
                 x_0_s,
                 self.sampled_parameters[:, s],
             )
-- 
2.43.0


From 12b45d7fe86adcb9cc117921bf54bd92d4d111bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:09 +0000
Subject: [PATCH 68/82] fix: the PCE Kalman Filter accepts its default process
 noise

---
 yaocptool/estimation/pce_kalman_filter.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index b17a8b1..7f1c1bb 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -207,15 +207,13 @@ class PCEKalmanFilter(EstimatorAbstract):
         p_k_minus = DM.zeros(self.model.n_x, self.model.n_x)
         for i in range(self.model.n_x):
             for j in range(self.model.n_x):
-                p_k_minus[i, j] = (
-                    sum(
-                        [
-                            a_x[i][k] * a_x[j][k] * self._exp_phi[k]
-                            for k in range(1, self.n_pol_parameters)
-                        ]
-                    )
-                    + self.r_v[i, j]
+                p_k_minus[i, j] = sum(
+                    [
+                        a_x[i][k] * a_x[j][k] * self._exp_phi[k]
+                        for k in range(1, self.n_pol_parameters)
+                    ]
                 )
+        p_k_minus = p_k_minus + self.r_v
 
         # calculate the measurement for each sample
         y_cal_k_at_k_minus_1 = []
-- 
2.43.0


From 63ba6419dbc275abc243a7211f1a7f7a41f1f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:09 +0000
Subject: [PATCH 69/82] fix: PCEConverter keeps the sign assumption of the
 objective

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 4c176f0..a412962 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -361,7 +361,7 @@ class PCEConverter:
         )
 
         problem.parametrized_control = self.socp.parametrized_control
-        problem.positive_objective = self.socp.parametrized_control
+        problem.positive_objective = self.socp.positive_objective
         problem.NULL_OBJ = self.socp.NULL_OBJ
 
         if not is_equal(self.socp.S, 0) or not is_equal(self.socp.V, 0):
-- 
2.43.0


From 7670b9f3f56c453445ca392bf268e4d5a2230ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:09 +0000
Subject: [PATCH 70/82] fix: include_time_chance_inequality refuses
 probabilities of another size

---
 yaocptool/modelling/stochastic_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index 972f882..fd2e7e6 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -167,7 +167,7 @@ class StochasticOCP(OptimalControlProblem):
                 'Given inequality does not have the same dimensions of the provided "rhs". '
                 "Size of ineq: {}, size of rhs: {}".format(ineq.shape, rhs.shape)
             )
-        if not ineq.numel() == rhs.numel():
+        if not ineq.numel() == prob.numel():
             raise ValueError(
                 'Given inequality does not have the same dimensions of the provided "prob". '
                 "Size of ineq: {}, size of prob: {}".format(ineq.shape, prob.shape)
-- 
2.43.0


From fafbf8b8413dba94b81f872145ed07ae493506da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:10 +0000
Subject: [PATCH 71/82] fix: the Kalman filters handle models with one state

---
 yaocptool/estimation/extended_kalman_filter.py  | 4 ++--
 yaocptool/estimation/unscented_kalman_filter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 34ba742..7c1c9df 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -212,7 +212,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_f + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_f
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, :], u_f
         )
         if self.verbosity > 1:
             print("Predicted state: {}".format(x_pred))
@@ -236,7 +236,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data("P_y", t_k, vec(p_k[self.model.n_x :, self.model.n_x :]))
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index e3dc996..453c8df 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -230,7 +230,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_pred + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_k
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, :], u_k
         )
         print("Predicted state: {}".format(x_pred))
         print("Prediction error: {}".format(y_k - meas_pred))
@@ -254,7 +254,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-- 
2.43.0


From b3347b7c3aec250df3cbe752940918d0c886cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 72/82] fix: PCEConverter converts problems without (other)
 parameters

---
 yaocptool/stochastic/pce.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index a412962..8152fa7 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -394,18 +394,20 @@ class PCEConverter:
             model_s.include_equations(ode=cost_ode, x=cost_s)
 
             # replace the parameter variable with the sampled variable
-            p_unc_s = model_s.p.get(False, self.socp.get_p_unc_indices())
+            if self.socp.n_p_unc > 0:
+                p_unc_s = model_s.p.get(False, self.socp.get_p_unc_indices())
 
-            model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
-            model_s.remove_parameter(p_unc_s)
+                model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
+                model_s.remove_parameter(p_unc_s)
 
             # replace the model variables with the global variables
             model_s.replace_variable(model_s.u, u_global)
-            model_s.replace_variable(model_s.p, p_global)
-            model_s.replace_variable(model_s.theta, theta_global)
             model_s.remove_control(model_s.u)
-            model_s.remove_parameter(model_s.p)
+            if model_s.n_p > 0:
+                model_s.replace_variable(model_s.p, p_global)
+                model_s.remove_parameter(model_s.p)
             if model_s.n_theta > 0:
+                model_s.replace_variable(model_s.theta, theta_global)
                 model_s.remove_theta(model_s.theta)
             model_s.t = t_global
             model_s.tau = tau_global
-- 
2.43.0


From a1fcba7f647292684f63231c68c6c6420cc11a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:46 +0000
Subject: [PATCH 73/82] fix: PCEConverter handles expressions together with
 uncertain initial conditions

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 8152fa7..a19bd48 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -460,7 +460,7 @@ class PCEConverter:
                 model.t,
                 model.tau,
                 x_0_s,
-                self.sampled_parameters[:, s],
+                self.sampled_parameters[: self.socp.n_p_unc, s],
             )
 
             new_exp = substitute(expr, original_vars, new_vars)
-- 
2.43.0


From 6390cbfd11738480da9c8783acb01aff23ba358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:09 +0000
Subject: [PATCH 74/82] fix: PCEConverter uses one time for the models of all
 the samples

---
 yaocptool/stochastic/pce.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index a19bd48..0295921 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -409,6 +409,8 @@ class PCEConverter:
             if model_s.n_theta > 0:
                 model_s.replace_variable(model_s.theta, theta_global)
                 model_s.remove_theta(model_s.theta)
+            model_s.replace_variable(model_s.t, t_global)
+            model_s.replace_variable(model_s.tau, tau_global)
             model_s.t = t_global
             model_s.tau = tau_global
 
-- 
2.43.0


From daefd778cfc60104014c49e84a0ae6bda16c6786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:25 +0000
Subject: [PATCH 75/82] fix: PCEConverter keeps the initial time

---
 yaocptool/stochastic/pce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 0295921..ce82629 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -280,6 +280,7 @@ class PCEConverter:
         problem.p_opt_min = self.socp.p_opt_min
         problem.theta_opt_min = self.socp.theta_opt_min
 
+        problem.t_0 = self.socp.t_0
         problem.t_f = self.socp.t_f
 
         if depends_on(self.socp.g_eq, self.socp.model.x) or depends_on(
-- 
2.43.0


From e30f711c8b0624987783877f82a78b92b73293d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:21 +0000
Subject: [PATCH 76/82] fix: DistributedAugmentedLagrangian can be imported:
 options object per instance

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index b09863c..9b8c14e 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -9,7 +9,7 @@ import logging
 import random
 import time
 from collections import defaultdict
-from dataclasses import asdict, dataclass
+from dataclasses import asdict, dataclass, field
 from typing import Dict, List, Literal, Optional, Tuple, Type, Union, cast
 
 import matplotlib.pyplot as plt
@@ -55,7 +55,9 @@ class DistributedAugmentedLagrangianOptions:
     ] = "cyclic"
     debug_skip_replace_by_approximation: bool = False
 
-    al_options: AugmentedLagrangianOptions = AugmentedLagrangianOptions()
+    al_options: AugmentedLagrangianOptions = field(
+        default_factory=AugmentedLagrangianOptions
+    )
 
     def __post_init__(self):
         if not isinstance(self.al_options, AugmentedLagrangianOptions):
-- 
2.43.0


From 1d9c99de10bab07481b177d76406b4da1ec36723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:21 +0000
Subject: [PATCH 77/82] fix: DistributedAugmentedLagrangian puts every node of
 the network in a block

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 9b8c14e..53eb07a 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -88,10 +88,12 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
             coloring: Dict[Node, int] = networkx.algorithms.coloring.greedy_color(
                 self.network.graph
             )
+            # groupby only groups consecutive items
             self.blocks = {
                 group_number: [node for node, _ in group]
                 for group_number, group in itertools.groupby(
-                    coloring.items(), key=lambda item: item[1]
+                    sorted(coloring.items(), key=lambda item: item[1]),
+                    key=lambda item: item[1],
                 )
             }
 
-- 
2.43.0


From da072b3c48be5d4294b48e360b578c93836ddd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:13 +0000
Subject: [PATCH 78/82] fix: BipartiteJacobiADMM handles connections of several
 variables

---
 .../methods/network/bipartite_jacobi_admm.py      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/bipartite_jacobi_admm.py b/yaocptool/methods/network/bipartite_jacobi_admm.py
index 71a8002..7e837df 100644
--- a/yaocptool/methods/network/bipartite_jacobi_admm.py
+++ b/yaocptool/methods/network/bipartite_jacobi_admm.py
@@ -1,7 +1,7 @@
 from collections import defaultdict
-from typing import Dict
+from typing import Dict, Tuple
 
-from casadi import DM, vertcat
+from casadi import DM, SX, vertcat
 
 from yaocptool.methods.network.distributedaugmetedlagrangian import (
     DistributedAugmentedLagrangian,
@@ -80,6 +80,17 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
                 node.problem.include_theta(u_appr_par)
                 node.problem.include_theta(y_appr_par)
 
+    def _create_variable_approx(self, var: SX, tau: SX) -> Tuple[SX, SX]:
+        # one variable at a time, the order in which _get_node_theta has the values
+        approximations = [
+            super(BipartiteJacobiADMM, self)._create_variable_approx(var[ind], tau)
+            for ind in range(var.numel())
+        ]
+        return (
+            vertcat(*(approx for approx, _ in approximations)),
+            vertcat(*(par for _, par in approximations)),
+        )
+
     def _get_node_theta(self, node: Node) -> Dict[int, DM]:
         data: Dict[int, DM] = defaultdict(DM)
         for p in self.network.graph.pred[node]:
-- 
2.43.0


From 3e1dcdc92a295ad2e8ab446b4651708397f1d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:19 +0000
Subject: [PATCH 79/82] fix: the intermediary nodes use their updated
 multipliers

---
 .../network/intermediary_node_solution_method.py       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 8953020..20279ee 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -129,7 +129,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         errors = DM([mmax(fabs(row)) for row in vertsplit(vertcat(rel_alg, rel_eq), 1)])
 
         nu_tilde = {
-            el: vertcat(nu_p1_c_next_el, nu_c_p2_next_el)
+            el: vertcat(nu_p1_c_next_el.T, nu_c_p2_next_el.T)
             for el, (nu_p1_c_next_el, nu_c_p2_next_el) in enumerate(
                 zip(
                     horzsplit(nu_p1_c_next, self.options.degree),
@@ -149,8 +149,12 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
                 ):
                     if (error - last_error) < 0:
                         self.last_violation_error[ind] = error
+                        nu_ind = slice(
+                            ind * self.options.degree, (ind + 1) * self.options.degree
+                        )
                         for el in self.nu_tilde:
-                            self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                            self.nu_tilde[el] = DM(self.nu_tilde[el])
+                            self.nu_tilde[el][nu_ind] = nu_tilde[el][nu_ind]
                     else:
                         print("Error is greater than zero")
             else:
@@ -158,6 +162,8 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         return errors
 
     def solve(self, theta, p=None, *args, **kwargs):
+        if self.nu_tilde is not None:
+            self.nu = self.nu_tilde
         theta_k = self.join_nu_to_theta(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
 
-- 
2.43.0


From b3c89279f609be9adfa40025a01bce0b475fbe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:43 +0000
Subject: [PATCH 80/82] fix: initial guess by simulation without p or theta
 uses zeros

---
 yaocptool/methods/classic/collocationscheme.py | 5 +++++
 yaocptool/methods/classic/multipleshooting.py  | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/classic/collocationscheme.py b/yaocptool/methods/classic/collocationscheme.py
index b510d14..5c18e4d 100644
--- a/yaocptool/methods/classic/collocationscheme.py
+++ b/yaocptool/methods/classic/collocationscheme.py
@@ -27,6 +27,7 @@ from yaocptool.optimization import NonlinearOptimizationProblem
 from yaocptool.optimization.abstract_optimization_problem import (
     AbstractOptimizationProblem,
 )
+from yaocptool.util import create_constant_theta
 
 # TODO: implement cost_as_a_sum
 
@@ -681,6 +682,10 @@ class CollocationScheme(DiscretizationSchemeBase):
                 u = self.problem.last_u
             else:
                 u = DM.zeros(self.model.n_u)
+        if p is None:
+            p = DM.zeros(self.model.n_p)
+        if theta is None:
+            theta = create_constant_theta(0, self.model.n_theta, self.finite_elements)
 
         if self.model.n_u_par > 0:
             u = vec(horzcat(*[u] * self.degree_control))
diff --git a/yaocptool/methods/classic/multipleshooting.py b/yaocptool/methods/classic/multipleshooting.py
index a25a5b3..ba89767 100644
--- a/yaocptool/methods/classic/multipleshooting.py
+++ b/yaocptool/methods/classic/multipleshooting.py
@@ -12,6 +12,7 @@ from casadi import DM, Function, horzcat, inf, is_equal, repmat, vec, vertcat
 from yaocptool.methods.base.discretizationschemebase import DiscretizationSchemeBase
 from yaocptool.modelling.system_model import SystemModel
 from yaocptool.optimization import NonlinearOptimizationProblem
+from yaocptool.util import create_constant_theta
 
 
 class MultipleShootingScheme(DiscretizationSchemeBase):
@@ -546,7 +547,9 @@ class MultipleShootingScheme(DiscretizationSchemeBase):
             else:
                 u = DM.zeros(model.n_u)
         if p is None:
-            p = DM()
+            p = DM.zeros(self.model.n_p)
+        if theta is None:
+            theta = create_constant_theta(0, self.model.n_theta, self.finite_elements)
 
         u = vec(horzcat(*[u] * self.degree_control)) if model.n_u_par > 0 else DM()
         x_0 = self.problem.x_0
-- 
2.43.0


From e98e296ed9d30b200b13a06bbd139649713957b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:11 +0000
Subject: [PATCH 81/82] fix: relaxing the state bounds leaves the arrays of
 bounds given by the user as they were

---
 yaocptool/methods/augmented_lagrangian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index bd5fa4f..9fca0ca 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -346,6 +346,9 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             self.problem.time_g_eq.pop(ind)
 
     def _relax_states_constraints(self):
+        # do not change the bounds given by the user
+        self.problem.x_max = DM(self.problem.x_max)
+        self.problem.x_min = DM(self.problem.x_min)
         for i in range(self.model.n_x):
             if self.problem.x_max[i] != inf or self.problem.x_min[i] != -inf:
                 y_x = SX.sym("y_x_" + str(i))
-- 
2.43.0


From 76e75cc594bebb138ade719405e7f198a6be2173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:11 +0000
Subject: [PATCH 82/82] fix: the PCE conversion leaves the lists of constraint
 instants of the stochastic problem as they were

---
 yaocptool/stochastic/pce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index ce82629..5d7ca33 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -325,8 +325,8 @@ class PCEConverter:
 
         problem.g_eq = substitute(self.socp.g_eq, original_vars, new_vars)
         problem.g_ineq = substitute(self.socp.g_ineq, original_vars, new_vars)
-        problem.time_g_eq = self.socp.time_g_eq
-        problem.time_g_ineq = self.socp.time_g_ineq
+        problem.time_g_eq = list(self.socp.time_g_eq)
+        problem.time_g_ineq = list(self.socp.time_g_ineq)
 
         for i in range(self.socp.n_uncertain_initial_condition):
             ind = self.socp.get_uncertain_initial_cond_indices()[i]
-- 
2.43.0

