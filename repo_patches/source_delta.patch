From a21cc8cb61bd0581af773537411b74523268409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:04 +0000
Subject: [PATCH 01/10] fix: golden section search places its first interior
 point inside the bracket

The first interior point was computed from the width of the bracket alone. It was
outside the bracket unless the lower end was zero.
---
 optimistix/_solver/golden.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/golden.py b/optimistix/_solver/golden.py
index bb5ca05..e04c1e7 100644
--- a/optimistix/_solver/golden.py
+++ b/optimistix/_solver/golden.py
@@ -81,7 +81,7 @@ class GoldenSearch(AbstractMinimiser[Float[Array, ""], Aux, _GoldenSearchState])
         # length a and b, respectively. The ratio of their lengths, b / a, is equal
         # to the golden ratio.
         golden_ratio = (1 + math.sqrt(5)) / 2
-        middle = (upper - lower) / (golden_ratio + 1)
+        middle = lower + (upper - lower) / (golden_ratio + 1)
 
         f_middle, _ = fn(middle, args)
 
-- 
2.43.0


From 963877f741bd9452110640e79a3e10107c06df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:04 +0000
Subject: [PATCH 02/10] fix: Nelder-Mead takes its best and worst vertices from
 the new simplex

The indices were those of the updated simplex, but were used on the previous one. The
best vertex was then paired with the value of another point.
---
 optimistix/_solver/nelder_mead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index d3ff013..8ee5af7 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -384,8 +384,8 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         f_best = -f_best_neg
         (f_worst, f_second_worst), (worst_index, _) = lax.top_k(f_new_simplex, 2)
         _structured_index = lambda a, b: jtu.tree_map(lambda _, x: x[b], y, a)
-        best = _structured_index(simplex, best_index)
-        worst = _structured_index(simplex, worst_index)
+        best = _structured_index(new_simplex, best_index)
+        worst = _structured_index(new_simplex, worst_index)
         new_state = _NelderMeadState(
             simplex=new_simplex,
             f_simplex=f_new_simplex,
-- 
2.43.0


From b591d9d59bde44ec12dda314ea703d7757d908d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:04 +0000
Subject: [PATCH 03/10] fix: Nelder-Mead counts outer contractions and
 reflections correctly

A plain reflection was counted as an outer contraction, and outer contractions were not
counted at all.
---
 optimistix/_solver/nelder_mead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index 8ee5af7..e71a201 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -257,8 +257,8 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
                     expand = f_vertex < f_best
                     inner_contract = f_vertex > f_worst
                     contract = f_vertex > f_second_worst
-                    outer_contract = jnp.invert(expand | contract)
-                    reflect = (f_vertex > f_best) & (f_vertex < f_second_worst)
+                    outer_contract = contract & jnp.invert(inner_contract)
+                    reflect = jnp.invert(expand | contract)
                     contract_const = jnp.where(inner_contract, in_const, out_const)
                     #
                     # NOTE: Throughout, we use worst + const * search_direction, not
-- 
2.43.0


From 7de99515b4c573276e96e0e781be89c1601b43ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:04 +0000
Subject: [PATCH 04/10] fix: compat.minimize honours its norm option

---
 optimistix/compat/_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/compat/_impl.py b/optimistix/compat/_impl.py
index ee15e42..0ed2e8d 100644
--- a/optimistix/compat/_impl.py
+++ b/optimistix/compat/_impl.py
@@ -97,14 +97,14 @@ def minimize(
     else:
         options = dict(options)
     max_steps = options.pop("maxiter", None)
-    options.pop("norm", max_norm)
+    norm = options.pop("norm", max_norm)
     if len(options) != 0:
         raise ValueError(f"Unsupported options: {set(options.keys())}")
 
     def wrapped_fn(y, args):
         return fun(y, *args)
 
-    solver = BFGS(rtol=tol, atol=tol, norm=max_norm)
+    solver = BFGS(rtol=tol, atol=tol, norm=norm)
     sol = minimise(wrapped_fn, solver, x0, args, max_steps=max_steps, throw=False)
     status = jnp.where(
         sol.result == RESULTS.successful,
-- 
2.43.0


From 386dc2006fac3a82fa44e8079fdefb36a1594d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:10 +0000
Subject: [PATCH 05/10] fix: trust regions never accept an increase because one
 was predicted

The acceptance test assumed that the predicted change is negative. When the
step goes beyond the minimum of the quadratic approximation the prediction is
positive, and the test then accepted a rise in the loss.
---
 optimistix/_solver/trust_region.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optimistix/_solver/trust_region.py b/optimistix/_solver/trust_region.py
index 15d171d..58b6802 100644
--- a/optimistix/_solver/trust_region.py
+++ b/optimistix/_solver/trust_region.py
@@ -93,7 +93,9 @@ class _AbstractTrustRegion(AbstractSearch[Y, _FnInfo, _FnEvalInfo, _TrustRegionS
         f_min = f_info.as_min()
         f_min_eval = f_eval_info.as_min()
         f_min_diff = f_min_eval - f_min  # This number is probably negative
-        accept = f_min_diff <= self.low_cutoff * predicted_reduction
+        # That assumption may fail, e.g. for a step beyond the minimum of the quadratic
+        # approximation. Never accept an increase just because one was predicted.
+        accept = f_min_diff <= self.low_cutoff * jnp.minimum(predicted_reduction, 0)
         good = f_min_diff < self.high_cutoff * predicted_reduction
         good = good & (predicted_reduction < 0)
 
-- 
2.43.0


From 31053f013e331889ca10e62f98501b320780056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:13 +0000
Subject: [PATCH 06/10] fix: dogleg interpolation survives a discriminant
 rounded below zero

For a trust region much smaller than the Newton step the discriminant is lost
to rounding and could come out negative. The next trial point was then NaN, and
the solve never recovered.
---
 optimistix/_solver/dogleg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index 090d496..95d3818 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -157,11 +157,13 @@ class DoglegDescent(
                 inner_prod = tree_dot(cauchy, (newton**ω - cauchy**ω).ω)
                 b = 2 * (inner_prod - a)
                 c = state.cauchy_norm**2 - 2 * inner_prod + a - scaled_step_size**2
+                # Nonnegative mathematically, but perhaps not after rounding.
+                sqrt_discriminant = jnp.sqrt(jnp.clip(b**2 - 4 * a * c, min=0))
                 quadratic_1 = jnp.clip(
-                    0.5 * (-b + jnp.sqrt(b**2 - 4 * a * c)) / a, min=1, max=2
+                    0.5 * (-b + sqrt_discriminant) / a, min=1, max=2
                 )
                 quadratic_2 = jnp.clip(
-                    ((2 * c) / (-b - jnp.sqrt(b**2 - 4 * a * c))), min=1, max=2
+                    ((2 * c) / (-b - sqrt_discriminant)), min=1, max=2
                 )
                 # The quadratic formula is not numerically stable, and it is best to
                 # use slightly different formulas when `b >=` and `b < 0`.
-- 
2.43.0


From 20d5bd5ab7717cdbabea05cce80ad2a342e662cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:03 +0000
Subject: [PATCH 07/10] fix: Nelder-Mead returns the auxiliary output of its
 current best vertex

---
 optimistix/_solver/nelder_mead.py | 49 +++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index e71a201..b033158 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -57,6 +57,8 @@ class _NelderMeadState(eqx.Module, Generic[Y, Aux]):
     - `first_pass`: A bool which indicates if this is the first call to Nelder Mead
         which allows for extra setup. This ultimately exists to save on compilation
         time.
+    - `aux_simplex`: The auxiliary outputs of the problem function on each vertex of
+        `simplex`. Each leaf has leading axis of length `n_vertices`.
     """
 
     simplex: PyTree
@@ -67,7 +69,7 @@ class _NelderMeadState(eqx.Module, Generic[Y, Aux]):
     stats: _NMStats
     result: RESULTS
     first_pass: Bool[ArrayLike, ""]
-    aux: Aux
+    aux_simplex: PyTree
     step: Scalar
 
 
@@ -176,6 +178,9 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             simplex = jtu.tree_unflatten(treedef, new_leaves)
 
         f_simplex = jnp.full(n_vertices, jnp.inf, dtype=f_struct.dtype)
+        aux_simplex = jtu.tree_map(
+            lambda x: jnp.broadcast_to(x, (n_vertices, *x.shape)), aux
+        )
         # Shrink will be called the first time step is called, so remove one from stats
         # at init.
         stats = _NMStats(
@@ -199,7 +204,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             stats=stats,
             result=RESULTS.successful,
             first_pass=jnp.array(True),
-            aux=aux,
+            aux_simplex=aux_simplex,
             step=jnp.array(0),
         )
 
@@ -224,6 +229,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         f_second_worst = state.second_worst_val
         stats = state.stats
         (n_vertices,) = state.f_simplex.shape
+        aux = jtu.tree_map(lambda x: x[best_index], state.aux_simplex)
 
         def init_step(state):
             simplex = state.simplex
@@ -234,7 +240,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
                 jtu.tree_map(lambda _, x: x[0], y, simplex),
                 f_new_vertex,
                 state.stats,
-                state.aux,
+                aux,
             )
 
         def main_step(state):
@@ -319,14 +325,21 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             #
             # TODO(raderj): eqxi.scan_trick.
             #
-            (new_vertex, (f_new_vertex, aux), stats), _ = lax.scan(
+            (new_vertex, (f_new_vertex, aux_new_vertex), stats), _ = lax.scan(
                 eval_new_vertices,
-                (reflection, (jnp.array(0.0), state.aux), state.stats),
+                (reflection, (jnp.array(0.0), aux), state.stats),
                 jnp.arange(2),
             )
-            return (state, state.simplex, new_vertex, f_new_vertex, stats, aux)
+            return (
+                state,
+                state.simplex,
+                new_vertex,
+                f_new_vertex,
+                stats,
+                aux_new_vertex,
+            )
 
-        state, simplex, new_vertex, f_new_vertex, stats, aux = lax.cond(
+        state, simplex, new_vertex, f_new_vertex, stats, aux_new_vertex = lax.cond(
             state.first_pass, init_step, main_step, state
         )
         new_best = f_new_vertex < f_best
@@ -356,22 +369,34 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             # compute f_simplex, return simplex
             simplex = tree_where(first_pass, simplex, shrink_simplex)
             unwrapped_simplex = jtu.tree_map(lambda _, x: x[...], y, simplex)
-            f_simplex, _ = jax.vmap(lambda x: fn(x, args))(unwrapped_simplex)
-            return f_simplex, simplex
+            f_simplex, aux_simplex = jax.vmap(lambda x: fn(x, args))(unwrapped_simplex)
+            return f_simplex, aux_simplex, simplex
 
         def update_simplex(best, new_vertex, simplex, first_pass):
             simplex = jtu.tree_map(
                 lambda _, a, b: a.at[worst_index].set(b), best, simplex, new_vertex
             )
             f_simplex = state.f_simplex.at[worst_index].set(f_new_vertex)
-            return f_simplex, simplex
+            aux_simplex = jtu.tree_map(
+                lambda a, b: a.at[worst_index].set(b),
+                state.aux_simplex,
+                aux_new_vertex,
+            )
+            return f_simplex, aux_simplex, simplex
 
-        f_new_simplex, new_simplex = lax.cond(
+        f_new_simplex, aux_new_simplex, new_simplex = lax.cond(
             shrink,
             shrink_simplex,
             update_simplex,
             *(best, new_vertex, state.simplex, state.first_pass),
         )
+        # The auxiliary output belongs to the input `y`, i.e. the best vertex before
+        # this step. That is only known on the first pass once we evaluate the simplex.
+        aux = tree_where(
+            state.first_pass,
+            jtu.tree_map(lambda x: x[state.best[2]], aux_new_simplex),
+            aux,
+        )
         #
         # TODO(raderj): only 1 value is updated when not shrinking. This implies
         # that in most cases, rather than do a top_k search in log time, we can
@@ -395,7 +420,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             stats=stats,
             result=state.result,
             first_pass=jnp.array(False),
-            aux=aux,
+            aux_simplex=aux_new_simplex,
             step=state.step + 1,
         )
         try:
-- 
2.43.0


From 503bd4602e7c0e803bc134a0281f954fe869584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:19 +0000
Subject: [PATCH 08/10] fix: Nelder-Mead does not count its starting simplex as
 a shrinkage

---
 optimistix/_solver/nelder_mead.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index b033158..8a9f364 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -181,10 +181,8 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         aux_simplex = jtu.tree_map(
             lambda x: jnp.broadcast_to(x, (n_vertices, *x.shape)), aux
         )
-        # Shrink will be called the first time step is called, so remove one from stats
-        # at init.
         stats = _NMStats(
-            jnp.array(0), jnp.array(0), jnp.array(0), jnp.array(0), jnp.array(-1)
+            jnp.array(0), jnp.array(0), jnp.array(0), jnp.array(0), jnp.array(0)
         )
 
         return _NelderMeadState(
@@ -354,7 +352,8 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             inner_contract=jnp.array(False),
             outer_contract=jnp.array(False),
             expand=jnp.array(False),
-            shrink=shrink,
+            # The first pass only evaluates the simplex.
+            shrink=shrink & jnp.invert(state.first_pass),
         )
 
         def shrink_simplex(best, new_vertex, simplex, first_pass):
-- 
2.43.0


From 1c7d7868bb3c1fd8e69c56803daca1a23016e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:15 +0000
Subject: [PATCH 09/10] fix: dogleg interpolation survives steps of length zero

At a solution both the Newton and the Cauchy step are zero. If the trust region
had shrunk by then, the interpolation between them divided zero by zero. Every
further trial point was NaN and the solve ran out of steps.
---
 optimistix/_solver/dogleg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index 95d3818..4626056 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -154,13 +154,15 @@ class DoglegDescent(
             # find the value which hits the trust region radius.
             if self.trust_region_norm is two_norm:
                 a = sum_squares((newton**ω - cauchy**ω).ω)
+                # The steps coincide if both are zero, i.e. at a solution.
+                safe_a = jnp.where(a > 0, a, 1)
                 inner_prod = tree_dot(cauchy, (newton**ω - cauchy**ω).ω)
                 b = 2 * (inner_prod - a)
                 c = state.cauchy_norm**2 - 2 * inner_prod + a - scaled_step_size**2
                 # Nonnegative mathematically, but perhaps not after rounding.
                 sqrt_discriminant = jnp.sqrt(jnp.clip(b**2 - 4 * a * c, min=0))
                 quadratic_1 = jnp.clip(
-                    0.5 * (-b + sqrt_discriminant) / a, min=1, max=2
+                    0.5 * (-b + sqrt_discriminant) / safe_a, min=1, max=2
                 )
                 quadratic_2 = jnp.clip(
                     ((2 * c) / (-b - sqrt_discriminant)), min=1, max=2
-- 
2.43.0


From 394d1a9f5211bfe69a88c6bbdf0e1a6e57d302cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:37 +0000
Subject: [PATCH 10/10] fix: sign of the Dai-Yuan coefficient

It was divided by minus the product of the previous direction and the change
of the gradient, so it came out negated and the new direction turned back
along the previous one. On Rosenbrock's function the method did not converge
in 20000 steps; it now takes about 1000.
---
 optimistix/_solver/nonlinear_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/nonlinear_cg.py b/optimistix/_solver/nonlinear_cg.py
index 73ed02b..51ae6db 100644
--- a/optimistix/_solver/nonlinear_cg.py
+++ b/optimistix/_solver/nonlinear_cg.py
@@ -63,7 +63,7 @@ def dai_yuan(grad: Y, grad_prev: Y, y_diff_prev: Y) -> Scalar:
     """The Dai--Yuan formula for β. Used with [`optimistix.NonlinearCG`][] and
     [`optimistix.NonlinearCGDescent`][]."""
     numerator = sum_squares(grad)
-    denominator = -tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
+    denominator = tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
     # Triggers at initialisation and convergence, as above.
     pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps
     safe_denom = jnp.where(pred, denominator, 1)
-- 
2.43.0

