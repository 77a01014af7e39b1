FU = 'curv/full.py'; DI = 'curv/diagonal.py'; LR = 'curv/low_rank.py'; LI = 'eval/likelihood.py'; PU = 'eval/pushforward.py'; GG = 'curv/ggn.py'; HE = 'curv/hessian.py'; CV = 'curv/cov.py'; ME = 'eval/metrics.py'; TR = 'util/tree.py'; FL = 'util/flatten.py'; MV = 'util/mv.py'; PR = 'eval/predictives.py'
bug('full-float', 'C27', [(FU, 'prior_prec * jnp.eye(', 'float(prior_prec) * jnp.eye(')])
bug('diag-check', 'C27', [(DI, '    return {"scale": jnp.sqrt(jnp.reciprocal(prec))}', '    if jnp.any(prec <= 0):\n        msg = "precision must be positive"\n        raise ValueError(msg)\n    return {"scale": jnp.sqrt(jnp.reciprocal(prec))}')])
bug('diag-np', 'C27', [(DI, '    return {"scale": jnp.sqrt(jnp.reciprocal(prec))}', '    import numpy as np\n\n    return {"scale": jnp.asarray(np.sqrt(1 / np.asarray(prec)))}')])
bug('lr-if', 'C27', [(LR, '    scalar_sqrt_inv = jnp.reciprocal(jnp.sqrt(scalar))', '    scalar_sqrt_inv = jnp.reciprocal(jnp.sqrt(scalar)) if scalar > 0 else 0.0')])
bug('mll-stop', 'C27', [(LI, 'prior_prec = prior_arguments["prior_prec"]', 'prior_prec = jax.lax.stop_gradient(prior_arguments["prior_prec"])'), (LI, 'import jax.numpy as jnp', 'import jax\nimport jax.numpy as jnp')])
bug('mll-math', 'C27', [(LI, 'jnp.log(2 * jnp.pi) - jnp.log(prior_prec)', 'jnp.log(2 * jnp.pi) - math.log(prior_prec)'), (LI, 'import jax.numpy as jnp', 'import math\n\nimport jax.numpy as jnp')])
bug('mll-sign', 'C27', [(LI, '    log_det_H = jnp.linalg.slogdet(posterior_precision)[1]', '    sign, log_det_H = jnp.linalg.slogdet(posterior_precision)\n    if sign <= 0:\n        msg = "precision is not positive definite"\n        raise ValueError(msg)')])
bug('push-var', 'C27', [(PU, '    results["pred_std"] = util.tree.sqrt(var)', '    if (var < 0).any():\n        var = jnp.maximum(var, 0)\n    results["pred_std"] = util.tree.sqrt(var)')])
bug('kernel-memo', 'C27 C26', [(PU, '''        cov_mv = dist_state["posterior_state"].cov_mv(
''', '''        dist_state["last"] = (x1, x2)
        cov_mv = dist_state["posterior_state"].cov_mv(
''')])
bug('ggn-np', 'C27', [(GG, '        z, jvp = jax.linearize(fwd, params)\n', '        z, jvp = jax.linearize(fwd, params)\n        data = {k: np.asarray(v) for k, v in data.items()}\n'), (GG, 'import jax\n', 'import jax\nimport numpy as np\n')])
bug('ggn-cache', 'C27 C26', [(GG, '    def ggn_mv(vec, data):\n', '    lin = []\n\n    def ggn_mv(vec, data):\n'), (GG, '        z, jvp = jax.linearize(fwd, params)\n', '        if not lin:\n            lin.append(jax.linearize(fwd, params))\n        z, jvp = lin[0]\n')])
bug('tree-sqrt', 'C27', [(TR, 'jax.tree.map(jnp.sqrt, tree)', 'jax.tree.map(np.sqrt, tree)'), (TR, 'import jax.numpy as jnp', 'import jax.numpy as jnp\nimport numpy as np')])
bug('mf0-if', 'C27', [(PR, '    predictive = jax.nn.softmax(mean / jnp.sqrt(1 + LAMBDA_0 * var))', '    scale = 1 + LAMBDA_0 * var\n    predictive = jax.nn.softmax(mean if scale.max() == 1 else mean / jnp.sqrt(scale))')])
bug('bridge-nan', 'C27', [(PR, '    predictive = dirichlet_params / jnp.sum(dirichlet_params)', '    total = jnp.sum(dirichlet_params)\n    if total == 0:\n        total = 1.0\n    predictive = dirichlet_params / total')])
bug('sample-int', 'C27 C18 C16', [(PU, 'keys[idx], mean=mean_params', 'keys[int(idx)], mean=mean_params')])
# refs
ref('diag-where', 'C27 C01 C02', [(DI, '    return {"scale": jnp.sqrt(jnp.reciprocal(prec))}', '    if isinstance(prec, jnp.ndarray) and prec.ndim == 0:\n        prec = prec[None]\n    return {"scale": jnp.power(prec, -0.5)}')])
ref('push-copy', 'C27 C17', [(PU, '    results["pred_std"] = util.tree.sqrt(var)', '    if var.ndim > 0 and var.shape[0] == 0:\n        results["pred_std"] = var\n    else:\n        results["pred_std"] = jnp.sqrt(var)')])
ref('tree-isarr', 'C27 C14', [(TR, 'jax.tree.map(jnp.sqrt, tree)', 'jax.tree_util.tree_map(lambda x: jnp.sqrt(jnp.asarray(x)), tree)')])
ref('mll-len', 'C27 C21', [(LI, '    evidence = -0.5 * param_count * jnp.log(2 * jnp.pi) + 0.5 * log_det_H', '    evidence = 0.5 * (log_det_H - param_count * float(jnp.log(2 * jnp.pi)))', 0)])
bug('rmse-np', 'C27', [(ME, '    return jnp.sqrt(jnp.mean(jnp.power(pred_mean - target, 2)))', '    return float(np.sqrt(np.mean(np.square(pred_mean - target))))'), (ME, 'import jax.numpy as jnp', 'import jax.numpy as jnp\nimport numpy as np')])
bug('topk-clip', 'C27', [(ME, '    _, pred = lax.top_k(pred, max_k)', '    _, pred = lax.top_k(pred, max_k)\n    target = np.asarray(target)'), (ME, 'import jax.numpy as jnp', 'import jax.numpy as jnp\nimport numpy as np')])
