From 85413a67135aadaed121a5cd0c6714a4dd264568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 01/31] fix: scale low-rank curvature by the loss scaling
 factor like the prior term

---
 laplax/curv/low_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/low_rank.py b/laplax/curv/low_rank.py
index 411a388..d8bab0e 100644
--- a/laplax/curv/low_rank.py
+++ b/laplax/curv/low_rank.py
@@ -143,7 +143,7 @@ def low_rank_curvature_to_precision(
     U, S, _ = jax.tree.leaves(curv_estimate)
     return LowRankTerms(
         U=U,
-        S=(sigma_squared * S),
+        S=(sigma_squared * S) / loss_scaling_factor,
         scalar=prior_prec / loss_scaling_factor,
     )
 
-- 
2.43.0


From e89ccc4d825ecaf70aa4ef1e967cd74dff21ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 02/31] fix: stop the Lanczos recurrence at an invariant
 subspace instead of repeating the last vector

---
 laplax/curv/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 6273be4..e73a2e0 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -66,7 +66,7 @@ def lanczos_iterations(
         v_next = jax.lax.cond(
             b_val > 0,  # type: ignore[operator]
             lambda _: w / b_val,
-            lambda _: v,  # In degenerate cases, no progress is made.
+            lambda _: jnp.zeros_like(v),  # Invariant subspace found: stop the recurrence.
             operand=None,
         )
         alpha = alpha.at[i].set(a)
-- 
2.43.0


From a79df8a113b6d872bbafa04b335ccec9a2497523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 03/31] fix: restore jax_enable_x64 when a low-rank
 approximation raises

---
 laplax/curv/lanczos.py |  3 ++-
 laplax/curv/lobpcg.py  |  3 ++-
 laplax/curv/utils.py   | 27 +++++++++++++++++++++++++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index e73a2e0..94bb359 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
 
-from laplax.curv.utils import LowRankTerms, get_matvec
+from laplax.curv.utils import LowRankTerms, get_matvec, restore_x64_config
 from laplax.types import Array, Callable, DType, Float, KeyType, Kwargs, Layout
 from laplax.util.flatten import wrap_function
 
@@ -143,6 +143,7 @@ def compute_eigendecomposition(
     return eigvals
 
 
+@restore_x64_config
 def lanczos_lowrank(
     A: Callable[[Array], Array] | Array,
     *,
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index ee47547..802db04 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -74,7 +74,7 @@ from jax.experimental.sparse.linalg import (
     _mm,  # noqa: PLC2701
 )
 
-from laplax.curv.utils import LowRankTerms, get_matvec
+from laplax.curv.utils import LowRankTerms, get_matvec, restore_x64_config
 from laplax.types import Array, Callable, DType, Float, KeyType, Kwargs, Layout
 from laplax.util.flatten import wrap_function
 
@@ -278,6 +278,7 @@ def _rayleigh_ritz_orth(AS: Array, S: Array) -> tuple[Array, Array]:
     return _eigh_ascending(SAS)
 
 
+@restore_x64_config
 def lobpcg_lowrank(
     A: Callable[[Array], Array] | Array,
     *,
diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index 4c44a20..e3e33fe 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -2,6 +2,7 @@
 
 from collections.abc import Callable
 from dataclasses import dataclass
+from functools import wraps
 
 import jax
 import jax.numpy as jnp
@@ -20,6 +21,32 @@ from laplax.types import (
 from laplax.util.flatten import create_pytree_flattener, wrap_function
 from laplax.util.tree import get_size
 
+# -----------------------------------------------------------------------------
+# Precision configuration
+# -----------------------------------------------------------------------------
+
+
+def restore_x64_config(fn: Callable) -> Callable:
+    """Restore the `jax_enable_x64` setting when `fn` returns or raises.
+
+    Args:
+        fn: A function that may change the `jax_enable_x64` setting.
+
+    Returns:
+        The wrapped function, which leaves the setting as it found it.
+    """
+
+    @wraps(fn)
+    def wrapper(*args, **kwargs):
+        original = jax.config.read("jax_enable_x64")
+        try:
+            return fn(*args, **kwargs)
+        finally:
+            jax.config.update("jax_enable_x64", original)
+
+    return wrapper
+
+
 # -----------------------------------------------------------------------------
 # Low-rank terms
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 1b200f2dd9e38cb05c0dff968480c7b9dcd8eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 04/31] fix: log-determinant of the low-rank posterior
 precision in the marginal likelihood

---
 laplax/eval/likelihood.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/laplax/eval/likelihood.py b/laplax/eval/likelihood.py
index b25b52b..8d78587 100644
--- a/laplax/eval/likelihood.py
+++ b/laplax/eval/likelihood.py
@@ -235,11 +235,10 @@ def low_rank_marginal_log_likelihood(
     )
 
     # Log det of posterior precision
-    rank = posterior_precision.S.shape[0]
-    log_det_H = rank * jnp.log(posterior_precision.scalar) + jnp.sum(
-        jnp.log(1 + posterior_precision.scalar * posterior_precision.S)
-    )
     param_count = get_size(params)
+    log_det_H = param_count * jnp.log(posterior_precision.scalar) + jnp.sum(
+        jnp.log(1 + posterior_precision.S / posterior_precision.scalar)
+    )
     evidence = -0.5 * param_count * jnp.log(2 * jnp.pi) + 0.5 * log_det_H
 
     # Compute the marginal log-likelihood
-- 
2.43.0


From c5d8e6393cbfbdb4ca83f8dec9d394a890e9cdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 05/31] fix: laplace() scales the curvature by
 num_total_samples / num_curv_samples

---
 laplax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 603c0f2..9848644 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -665,11 +665,11 @@ def laplace(
     curv_type_enum = _convert_to_enum(CurvApprox, curv_type)
 
     # Calculate factor
-    factor = float(num_curv_samples) / float(num_total_samples)
+    factor = float(num_total_samples) / float(num_curv_samples)
     logger.debug(
         "Creating curvature MV - factor = {}/{} = {}",
-        num_curv_samples,
         num_total_samples,
+        num_curv_samples,
         factor,
     )
 
-- 
2.43.0


From 491a77aa1023ab33f2c3e0b9025ad311808a0132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 06/31] fix: evaluation() no longer drops the first batch of an
 iterator

---
 laplax/api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 9848644..e620829 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -13,6 +13,7 @@ Public entry points
 from collections.abc import Iterator
 from enum import StrEnum
 from functools import partial
+from itertools import chain
 from typing import cast
 
 import jax
@@ -953,9 +954,12 @@ def evaluation(
 
     # Evaluate
     is_data_loader = _is_data_loader(data)
-    transform = _validate_and_get_transform(
-        next(iter(data)) if is_data_loader else data
-    )
+    if is_data_loader:
+        # Peek at the first batch without dropping it from one-shot iterators.
+        batches = iter(data)
+        first_batch = next(batches)
+        data = chain([first_batch], batches)
+    transform = _validate_and_get_transform(first_batch if is_data_loader else data)
 
     if is_data_loader:
         results = evaluate_metrics_on_generator(
-- 
2.43.0


From cc5c58e6c322125ed4a3f055855b24ac1b36581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 07/31] fix: evaluation() applies reduce to streamed data and
 passes no stray argument to metrics

---
 laplax/api.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index e620829..e88d63c 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -967,8 +967,7 @@ def evaluation(
             data_generator=cast("Iterator[Data]", data),
             metrics=metrics_list,
             transform=transform,
-            reduce=jnp.concatenate,
-            has_batch=True,
+            reduce=lambda batches: reduce(jnp.concatenate(batches)),
         )
     else:
         results = evaluate_metrics_on_dataset(
-- 
2.43.0


From a69e1daaf7a8ef1ad2aa9ec8d4876c12ba591cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 08/31] fix: an [input, target] list is a single batch for the
 curvature, as it is for evaluation()

---
 laplax/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index e88d63c..1b83e37 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -170,13 +170,16 @@ def _maybe_wrap_loader_or_batch(
     Returns:
         Wrapped matrix-vector function.
     """
+    is_single_batch = isinstance(data, (tuple, dict)) or (
+        transform is None and not _is_data_loader(data)
+    )
     transform = (
         _validate_and_get_transform(next(iter(data)) if _is_data_loader(data) else data)
         if transform is None
         else transform
     )
 
-    if isinstance(data, (tuple, dict)):
+    if is_single_batch:
         logger.debug("Using *single batch* curvature evaluation.")
         return partial(mv_fn, data=transform(data))
 
-- 
2.43.0


From c10489fab40ed9937473a6c4f0d930af19b0264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 09/31] fix: do not pop from the loader_kwargs passed by the
 caller

---
 laplax/api.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 1b83e37..b515644 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -188,8 +188,7 @@ def _maybe_wrap_loader_or_batch(
         mv=mv_fn,
         loader=data,
         transform=transform,
-        reduce=loader_kwargs.pop("reduce", reduce_add),
-        **loader_kwargs,
+        **{"reduce": reduce_add, **loader_kwargs},
     )
 
 
-- 
2.43.0


From 854042a6db152de24911ceec8db69e332f5eef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 10/31] fix: default classification metrics accept the
 remaining predictive entries

---
 laplax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index b515644..3d7fe89 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -531,7 +531,7 @@ def _resolve_metrics(
                 ],
             ),
             apply_fns(
-                lambda pred_mean, pred_std, target: nll_gaussian(
+                lambda pred_mean, pred_std, target, **kwargs: nll_gaussian(  # noqa: ARG005
                     pred_mean,
                     pred_std,
                     jax.nn.one_hot(target, num_classes=pred_mean.shape[-1]),
-- 
2.43.0


From 99a0ba6108a15cf0f07b568e65b8436fa5a7efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 11/31] fix: do not hand out the shared list of default
 regression metrics

---
 laplax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index 3d7fe89..c8fe2d2 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -511,7 +511,7 @@ def _resolve_metrics(
         return [metrics]
 
     if metrics == DefaultMetrics.REGRESSION:
-        return DEFAULT_REGRESSION_METRICS
+        return list(DEFAULT_REGRESSION_METRICS)
     if metrics == DefaultMetrics.CLASSIFICATION:
         return [
             apply_fns(
-- 
2.43.0


From ca080f94e0875d3b1aec7ef6c3c65e6b7fcd73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 12/31] fix: do not extend the metrics list of the caller

---
 laplax/eval/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/utils.py b/laplax/eval/utils.py
index 7d3497c..65f3fac 100644
--- a/laplax/eval/utils.py
+++ b/laplax/eval/utils.py
@@ -269,7 +269,7 @@ def evaluate_metrics_on_dataset(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data_point(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
@@ -339,7 +339,7 @@ def evaluate_metrics_on_generator(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
-- 
2.43.0


From 73fd085c2177e3ca62ad30a48e89228e2e0c51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 13/31] fix: provide pred_act for the nonlinear MC-bridge
 predictive

---
 laplax/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laplax/api.py b/laplax/api.py
index c8fe2d2..94a36e3 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -282,6 +282,7 @@ def _setup_pushforward(
             pushforward_fns = [nonlin_setup, nonlin_pred_mean, nonlin_pred_std]
             if predictive_type is Predictive.MC_BRIDGE:
                 pushforward_fns.append(nonlin_mc_pred_act)
+                pushforward_fns.append(get_pred_act)
             elif predictive_type in _SPECIAL_PREDICTIVES:
                 msg = (
                     f"{predictive_type.value} not supported for non-linear pushforward."
-- 
2.43.0


From 757167ada498a78338ca7ccda723b1b9f0a8cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 14/31] fix: laplace_bridge reads the number of classes of an
 unbatched prediction

---
 laplax/eval/predictives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/predictives.py b/laplax/eval/predictives.py
index e344cba..b7c65a7 100644
--- a/laplax/eval/predictives.py
+++ b/laplax/eval/predictives.py
@@ -19,7 +19,7 @@ def laplace_bridge(
     Returns:
         The predictive.
     """
-    num_classes = mean.shape[1]
+    num_classes = mean.shape[0]
 
     if use_correction:
         c = jnp.sum(var, axis=0) / math.sqrt(num_classes / 2)  # [...]
-- 
2.43.0


From dcf40120b417d92bc5ee3f3fb6da59c17c0f227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 15/31] fix: grid_search evaluates at most max_iterations
 points

---
 laplax/eval/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/calibrate.py b/laplax/eval/calibrate.py
index 30b09a2..130ff5c 100644
--- a/laplax/eval/calibrate.py
+++ b/laplax/eval/calibrate.py
@@ -131,7 +131,7 @@ def grid_search(
         previous_result = result
 
         # Check if maximum iterations reached
-        if max_iterations is not None and iteration >= max_iterations:
+        if max_iterations is not None and iteration + 1 >= max_iterations:
             logger.info(f"Stopping due to reaching max iterations = {max_iterations}")
             break
 
-- 
2.43.0


From 0039d9bb551d340c6088120c4adfcadb599c59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 16/31] fix: set_posterior_gp_kernel accepts every given output
 layout

---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index acac18c..7ad6c71 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -1003,7 +1003,7 @@ def set_posterior_gp_kernel(
 
     if kwargs.get("dense"):
         output_layout = kwargs.get("output_layout")
-        if output_layout:
+        if output_layout is not None:
             return lambda x1, x2: util.mv.to_dense(
                 lambda v: kernel_mv(v, x1, x2, dist_state), layout=output_layout
             ), dist_state
-- 
2.43.0


From d848c32f94211fae4317abe467c14a336b43bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 17/31] fix: special predictives of a nonlinear pushforward
 fall back to the ensemble variance

---
 laplax/eval/pushforward.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 7ad6c71..b15168f 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -113,8 +113,9 @@ def special_pred_act(
     if special_pred_type in var_pred_dict:
         pred_fn = var_pred_dict[special_pred_type]
 
-        if "pred_var" not in results:  # Fall back to `lin_pred_var`
-            results, aux = lin_pred_var(results, aux, **kwargs)
+        if "pred_var" not in results:  # Fall back to the matching `*_pred_var`
+            pred_var_fn = lin_pred_var if linearized else nonlin_pred_var
+            results, aux = pred_var_fn(results, aux, **kwargs)
 
         pred_var = results["pred_var"]
 
-- 
2.43.0


From 8bbbb971524019f0561a0ef77841340107ea13d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 18/31] fix: ensemble covariance uses the normalization of the
 ensemble variance

---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index b15168f..e49fa44 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -302,7 +302,7 @@ def nonlin_pred_cov(
     pred_ensemble = aux["pred_ensemble"]
 
     results["pred_cov"] = util.tree.cov(
-        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False
+        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False, ddof=0
     )
     return results, aux
 
-- 
2.43.0


From a3f5480f80045becb7fee7698ab40f736f55b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 19/31] fix: calibration() normalizes predictive_type and
 curv_type before using them

---
 laplax/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/laplax/api.py b/laplax/api.py
index 94a36e3..0b3b3cc 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -783,6 +783,8 @@ def calibration(
         - GRID_SEARCH: Grid search over prior precision
     """
     # If task is classification, then no NLL objective
+    predictive_type = _convert_to_enum(Predictive, predictive_type)
+    curv_type = _convert_to_enum(CurvApprox, curv_type, str_default=True)
     is_classification = predictive_type != Predictive.NONE
 
     # Pushforward construction
-- 
2.43.0


From 7dcb741e73034b7a557f590cc4c609cf48734e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 20/31] fix: diagonal of a DataLoaderMV accepts the options of
 diagonal

---
 laplax/util/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/util/loader.py b/laplax/util/loader.py
index 1fdae31..519e11a 100644
--- a/laplax/util/loader.py
+++ b/laplax/util/loader.py
@@ -363,13 +363,13 @@ def _(mv: DataLoaderMV, layout: Layout, **kwargs: Kwargs) -> Array:
 
 
 @diagonal.register
-def _(mv: DataLoaderMV, layout: Layout | None = None) -> Array:
+def _(mv: DataLoaderMV, layout: Layout | None = None, **kwargs: Kwargs) -> Array:
     """Apply diagonal to DataLoaderMV.
 
     Returns:
         The result of applying the function to the data loader.
     """
-    return mv.lower_func(diagonal, layout=layout)
+    return mv.lower_func(diagonal, layout=layout, **kwargs)
 
 
 @wrap_function.register
-- 
2.43.0


From 2a7dd313eab72954bbbb43bccf01a0d43e123ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 21/31] fix: register_curvature_method leaves the registries
 untouched for an unknown default

---
 laplax/register.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/laplax/register.py b/laplax/register.py
index 220064e..f56649f 100644
--- a/laplax/register.py
+++ b/laplax/register.py
@@ -129,6 +129,10 @@ def register_curvature_method(
         )
         raise ValueError(msg)
 
+    if default is not None and default not in CURVATURE_METHODS:
+        msg = f"Unknown default curvature method: {default}."
+        raise KeyError(msg)
+
     CURVATURE_METHODS[name] = create_curvature_fn or CURVATURE_METHODS[default]
     CURVATURE_PRECISION_METHODS[name] = (
         curvature_to_precision_fn or CURVATURE_PRECISION_METHODS[default]
-- 
2.43.0


From 4e723c01ef3eb5a54404050e10712d33a16e7aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 22/31] fix: the Hessian for the cross-entropy loss
 differentiates the summed softmax cross entropy

The loss was the unsummed sigmoid cross entropy, so that create_hessian_mv
raised for every batch.
---
 laplax/curv/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index e3e33fe..1edabf7 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -209,7 +209,10 @@ def concatenate_model_and_loss_fn(
         def loss_wrapper(
             input: InputArray, target: TargetArray, params: Params
         ) -> Num[Array, "..."]:
-            return log_sigmoid_cross_entropy(model_fn(input, params), target)
+            log_probs = jax.nn.log_softmax(model_fn(input, params))
+            if target.ndim < log_probs.ndim:
+                target = jax.nn.one_hot(target, log_probs.shape[-1])
+            return -jnp.sum(target * log_probs)
 
         return loss_wrapper
 
-- 
2.43.0


From b71c14a53568927f20c585e54471610148dc55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 23/31] fix: create_hessian_mv accepts the binary cross-entropy
 loss

---
 laplax/curv/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index 1edabf7..8333ee2 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -204,6 +204,15 @@ def concatenate_model_and_loss_fn(
 
         return loss_wrapper
 
+    if loss_fn == LossFn.BINARY_CROSS_ENTROPY:
+
+        def loss_wrapper(
+            input: InputArray, target: TargetArray, params: Params
+        ) -> Num[Array, "..."]:
+            return jnp.sum(log_sigmoid_cross_entropy(model_fn(input, params), target))
+
+        return loss_wrapper
+
     if loss_fn == LossFn.CROSS_ENTROPY:
 
         def loss_wrapper(
-- 
2.43.0


From 207d304d2725a254d5ef0339de49740dec352f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 24/31] fix: create_full_curvature accepts the documented
 integer layout

---
 laplax/curv/full.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/full.py b/laplax/curv/full.py
index bb1ad12..6979efe 100644
--- a/laplax/curv/full.py
+++ b/laplax/curv/full.py
@@ -48,10 +48,12 @@ def create_full_curvature(
         )
         logger.warning(msg)
         mv_wrapped = mv
+        size = layout
     else:
         flatten, unflatten = create_pytree_flattener(layout)
         mv_wrapped = wrap_function(mv, input_fn=unflatten, output_fn=flatten)
-    curv_estimate = to_dense(mv_wrapped, layout=get_size(layout))
+        size = get_size(layout)
+    curv_estimate = to_dense(mv_wrapped, layout=size)
     return curv_estimate
 
 
-- 
2.43.0


From 1846da78d98a870cbcd4901f27bdeba34fa4bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 25/31] fix: set_get_weight_sample accepts the precompute
 option

---
 laplax/eval/pushforward.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index e49fa44..0e1f3a2 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -76,15 +76,16 @@ def set_get_weight_sample(
 
     keys = jax.random.split(key, num_samples)
 
+    precompute = kwargs.pop("precompute", None)
+    precompute = kwargs.pop("set_get_weight_sample_precompute", precompute)
+
     def get_weight_sample(idx):
         return util.tree.normal_like(keys[idx], mean=mean_params, scale_mv=scale_mv)
 
     return precompute_list(
         get_weight_sample,
         jnp.arange(num_samples),
-        precompute=kwargs.get(
-            "set_get_weight_sample_precompute", kwargs.get("precompute")
-        ),
+        precompute=precompute,
         **kwargs,
     )
 
-- 
2.43.0


From fcb8995991f5d224328fd0d0c12b5e9518408ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 26/31] fix: Lanczos without full reorthogonalization subtracts
 the previous vector

---
 laplax/curv/lanczos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 94bb359..1d4662c 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -56,7 +56,8 @@ def lanczos_iterations(
     @jax.jit
     def iteration_step(v, w, alpha, beta, V, i):
         a = jnp.dot(v, w)
-        w = w - a * v
+        # `beta[-1]` and `V[-1]` are still zero in the first iteration.
+        w = w - a * v - beta[i - 1] * V[i - 1]
         if full_reorthogonalize:
             w = reorthogonalize(w, V, i)
             w = reorthogonalize(w, V, i)
-- 
2.43.0


From f8ba1a852a2beb5b24ae60c760787cc1b96d5b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 27/31] fix: low-rank solvers honour float64 for the operator
 and the result

---
 laplax/curv/lanczos.py | 5 ++++-
 laplax/curv/lobpcg.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 1d4662c..164af55 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -200,7 +200,10 @@ def lanczos_lowrank(
     if return_dtype is None:
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
-    jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
+    jax.config.update(
+        "jax_enable_x64",
+        any(dtype == jnp.float64 for dtype in (mv_dtype, calc_dtype, return_dtype)),
+    )
 
     # Obtain a uniform matrix-vector multiplication function.
     matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index 802db04..8572768 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -357,7 +357,10 @@ def lobpcg_lowrank(
     if return_dtype is None:
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
-    jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
+    jax.config.update(
+        "jax_enable_x64",
+        any(dtype == jnp.float64 for dtype in (mv_dtype, calc_dtype, return_dtype)),
+    )
 
     # Obtain a matrix-vector multiplication function.
     matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
-- 
2.43.0


From a3a4911fd3752fe1d1a6c146443fbdf8bf57cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 28/31] fix: lobpcg_lowrank reduces a rank of a fifth of the
 size

---
 laplax/curv/lobpcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index 8572768..79932cc 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -369,7 +369,7 @@ def lobpcg_lowrank(
     matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
 
     # Adjust rank if it's too large compared to problem size
-    if size < rank * 5:
+    if size <= rank * 5:
         rank = max(1, size // 5 - 1)
         msg = f"reduced rank to {rank} due to insufficient size"
         warnings.warn(msg, stacklevel=1)
-- 
2.43.0


From e47abda8747eb888295a60b61f8e784cf19611ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 29/31] fix: lobpcg_lowrank without mv_jit does not trace the
 operator

---
 laplax/curv/lobpcg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index 79932cc..b974f4f 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -366,7 +366,12 @@ def lobpcg_lowrank(
     matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
 
     # Obtain a matrix-matrix product function.
-    matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
+    if mv_jit:
+        matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
+    else:  # `A` may not be traceable.
+
+        def matmat(X):
+            return jnp.stack([jnp.asarray(matvec(x)) for x in X.T], axis=-1)
 
     # Adjust rank if it's too large compared to problem size
     if size <= rank * 5:
-- 
2.43.0


From 616162194ba01865fc2f37e75bb44af2cc650251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:40 +0000
Subject: [PATCH 30/31] fix: calculate_bin_metrics accepts Boolean correctness
 labels

The accuracies were accumulated in the dtype of the labels, which failed for
the Boolean labels that correctness() returns.
---
 laplax/eval/metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/laplax/eval/metrics.py b/laplax/eval/metrics.py
index af1fc1c..d1acf9f 100644
--- a/laplax/eval/metrics.py
+++ b/laplax/eval/metrics.py
@@ -191,7 +191,10 @@ def calculate_bin_metrics(
 
     bin_counts = jnp.zeros(num_bins, dtype=confidence.dtype)
     bin_confidences = jnp.zeros(num_bins, dtype=confidence.dtype)
-    bin_accuracies = jnp.zeros(num_bins, dtype=correctness.dtype)
+    # The labels may be Boolean (see `correctness`), which cannot be summed up.
+    bin_accuracies = jnp.zeros(
+        num_bins, dtype=jnp.result_type(confidence, correctness)
+    )
 
     bin_counts = bin_counts.at[indices].add(1)
     bin_confidences = bin_confidences.at[indices].add(confidence)
-- 
2.43.0


From 80e7e4d2f07ccb906fa4c4594f1f7754755b736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:42 +0000
Subject: [PATCH 31/31] fix: document that grid_search does not stop early by
 default

The patience argument was documented as defaulting to 5; it is None, which
disables early stopping.
---
 laplax/eval/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/calibrate.py b/laplax/eval/calibrate.py
index 130ff5c..aa93765 100644
--- a/laplax/eval/calibrate.py
+++ b/laplax/eval/calibrate.py
@@ -84,7 +84,7 @@ def grid_search(
         objective: A callable objective function that takes `PriorArguments` as input
             and returns a float result.
         patience: The number of consecutive iterations with increasing results to
-            tolerate before stopping (default: 5).
+            tolerate before stopping (default: None, no early stopping).
         max_iterations: The maximum number of iterations to perform (default: None).
 
     Returns:
-- 
2.43.0

