"""Bugs against C36/C37."""
CU = 'curv/utils.py'; GG = 'curv/ggn.py'; LK = 'eval/likelihood.py'; ME = 'eval/metrics.py'; PR = 'eval/predictives.py'
TR = 'util/tree.py'; EU = 'eval/utils.py'; MV = 'util/mv.py'; LZ = 'curv/lanczos.py'; CV = 'curv/cov.py'; OP = 'util/ops.py'
AP = 'api.py'; PU = 'eval/pushforward.py'; RE = 'register.py'; LO = 'util/loader.py'; LB = 'curv/lobpcg.py'; CB = 'eval/calibrate.py'
# C37
bug('ce-log-softmax', 'C37', [(CU, 'jax.nn.log_softmax(model_fn(input, params))', 'jnp.log(jax.nn.softmax(model_fn(input, params)))')])
bug('ce-lse-naive', 'C37', [(CU, '            log_probs = jax.nn.log_softmax(model_fn(input, params))\n', '            z = model_fn(input, params)\n            log_probs = z - jnp.log(jnp.sum(jnp.exp(z), axis=-1, keepdims=True))\n')])
bug('ce-shift-mean', 'C37', [(CU, '            log_probs = jax.nn.log_softmax(model_fn(input, params))\n', '            z = model_fn(input, params)\n            z = z - jnp.mean(z, axis=-1, keepdims=True)\n            log_probs = z - jnp.log(jnp.sum(jnp.exp(z), axis=-1, keepdims=True))\n')])
bug('ce-eps', 'C37', [(CU, 'jax.nn.log_softmax(model_fn(input, params))', 'jnp.log(jax.nn.softmax(model_fn(input, params)) + 1e-30)')])
bug('bce-one-sided', 'C37', [(CU, '    return -targets * jax.nn.log_sigmoid(logits) - (1 - targets) * jax.nn.log_sigmoid(\n        -logits\n    )', '    return -targets * jax.nn.log_sigmoid(logits) - (1 - targets) * jnp.log1p(-jax.nn.sigmoid(logits))')])
bug('bce-softplus-naive', 'C37', [(CU, 'jax.nn.log_sigmoid(logits)', '-jnp.log1p(jnp.exp(-logits))')])
bug('bceh-exp', 'C37', [(GG, '    prob = jax.nn.sigmoid(pred)\n', '    e = jnp.exp(pred)\n    prob = e / (1 + e)\n')])
bug('bceh-exp2', 'C37', [(GG, 'prob * (1 - prob) * jv', 'jnp.exp(-pred) * prob**2 * jv')])
bug('ceh-shift-first', 'C37', [(GG, '    prob = jax.nn.softmax(pred)\n', '    e = jax.numpy.exp(pred - pred[0])\n    prob = e / e.sum()\n')])
bug('ceh-min', 'C37', [(GG, '    prob = jax.nn.softmax(pred)\n', '    e = jax.numpy.exp(pred - pred.min())\n    prob = e / e.sum()\n')])
bug('ev-slogdet-log', 'C37', [(LK, 'jnp.linalg.slogdet(posterior_precision)[1]', 'jnp.log(jnp.prod(jnp.linalg.eigvalsh(posterior_precision)))')])
bug('ev-chol-prod', 'C37', [(LK, 'jnp.linalg.slogdet(posterior_precision)[1]', '2 * jnp.log(jnp.prod(jnp.diagonal(jnp.linalg.cholesky(posterior_precision))))')])
bug('ev-lr-prod', 'C37', [(LK, 'jnp.sum(\n        jnp.log(1 + posterior_precision.S / posterior_precision.scalar)\n    )', 'jnp.log(jnp.prod(1 + posterior_precision.S / posterior_precision.scalar))')])
bug('ev-lr-power', 'C37', [(LK, 'param_count * jnp.log(posterior_precision.scalar)', 'jnp.log(posterior_precision.scalar**param_count)')])
bug('joint-power', 'C37', [(LK, '-0.5 * get_size(params) * (jnp.log(2 * jnp.pi) - jnp.log(prior_prec))', '0.5 * jnp.log((prior_prec / (2 * jnp.pi)) ** get_size(params))')])
bug('joint-density', 'C37', [(LK, 'log_prior = log_prior_term1 + log_prior_term2', 'log_prior = jnp.log(jnp.exp(log_prior_term1)) + log_prior_term2')])
bug('nll-cdf', 'C37', [(ME, 'jax.scipy.stats.norm.logpdf(residuals, scale=pred_std)', 'jnp.log(jax.scipy.stats.norm.pdf(residuals / pred_std)) - jnp.log(pred_std)')])
bug('nll-prod', 'C37', [(ME, '    nll = -1 * jnp.sum(nll_list)\n', '    nll = -jnp.log(jnp.prod(jnp.exp(nll_list)))\n')])
bug('mf0-exp', 'C37', [(PR, '    predictive = jax.nn.softmax(mean / jnp.sqrt(1 + LAMBDA_0 * var))\n', '    e = jnp.exp(mean / jnp.sqrt(1 + LAMBDA_0 * var))\n    predictive = e / jnp.sum(e)\n')])
bug('mf0-shift-before', 'C37', [(PR, '    predictive = jax.nn.softmax(mean / jnp.sqrt(1 + LAMBDA_0 * var))\n', '    m = mean - jnp.max(mean)\n    e = jnp.exp(m / jnp.sqrt(1 + LAMBDA_0 * var) + jnp.max(mean) / jnp.sqrt(1 + LAMBDA_0 * var))\n    predictive = e / jnp.sum(e)\n')])
bug('tree-var', 'C37', [(TR, 'partial(jnp.var, **kwargs)', 'lambda x: jnp.mean(x**2, **kwargs) - jnp.mean(x, **kwargs) ** 2')])
bug('half', 'C37', [(PU, 'util.tree.var(pred_ensemble, axis=0)', 'util.tree.var(pred_ensemble.astype(jnp.bfloat16), axis=0).astype(pred_ensemble.dtype)')])
# C36
bug('str-lower', 'C36', [(OP, '    if value not in valid_values:', '    value = value.capitalize()\n    if value not in valid_values:')])
bug('register-keyerror', 'C36 C09', [(RE, 'raise KeyError(msg)', 'raise ValueError(msg)')])
bug('register-any', 'C36 C09', [(RE, '    if default is None and not all((', '    if default is None and not any((')])
bug('mv-valueerror', 'C36', [(CU, '            raise TypeError(msg)\n        if isinstance', '            raise ValueError(msg)\n        if isinstance')])
bug('diag-or', 'C36', [(MV, 'if isinstance(mv, Callable) and layout is None:', 'if isinstance(mv, Callable) and layout is None and not mv_jittable:')])
bug('dense-kernel-default', 'C36 C20', [(PU, '        if output_layout is not None:', '        output_layout = output_layout or 3\n        if output_layout is not None:')])
bug('lanczos-key-default', 'C36', [(LZ, '    elif key is not None:\n        b = jax.random.normal(key, (size,), dtype=calc_dtype)\n    else:\n', '    elif rank > 0:\n        b = jax.random.normal(jax.random.key(0) if key is None else key, (size,), dtype=calc_dtype)\n    else:\n')])
bug('ggn-both', 'C36 C03', [(GG, 'if loss_fn is not None and loss_hessian_mv is not None:', 'if loss_fn is not None and callable(loss_fn) and loss_hessian_mv is not None:')])
bug('loss-unknown', 'C36 C04', [(GG, "    msg = \"unsupported loss function provided\"\n    raise ValueError(msg)", "    return _mse_hessian_mv")])
bug('curv-fallback', 'C36 C09', [(CV, 'CURVATURE_METHODS[curv_type](mv', 'CURVATURE_METHODS.get(curv_type, CURVATURE_METHODS[CurvApprox.FULL])(mv')])
bug('tuple-len', 'C36 C25', [(AP, 'if len(batch) != 2:', 'if len(batch) < 2:')])
bug('dict-or', 'C36 C25', [(AP, "if 'input' not in batch or 'target' not in batch:", "if 'input' not in batch and 'target' not in batch:"), ] if False else [(AP, '"input" not in batch or "target" not in batch', '"input" not in batch and "target" not in batch')])
bug('special-nonlin', 'C36 C10', [(AP, '                raise ValueError(msg)\n    else:\n        msg = f"Invalid pushforward', '                logger.warning(msg)\n    else:\n        msg = f"Invalid pushforward')])
bug('chi2-class', 'C36 C23', [(AP, 'if is_classification and objective_type == CalibrationObjective.CHI_SQUARED:', 'if is_classification and curv_estimate is None and objective_type == CalibrationObjective.CHI_SQUARED:')])
bug('ece-reg', 'C36 C23', [(AP, 'if not is_classification and objective_type == CalibrationObjective.ECE:', 'if not is_classification and objective_type is CalibrationObjective.NLL and objective_type == CalibrationObjective.ECE:')])
bug('metrics-empty', 'C36', [(AP, '        if not metrics:\n', '        if metrics is None:\n')])
bug('method-fallback', 'C36 C23', [(AP, '        msg = f"Unknown calibration method: {calibration_method}"\n        raise ValueError(msg)', '        prior_args = {"prior_prec": 1.0}')])
bug('enum-default', 'C36 C10', [(AP, '        if str_default:\n            return cast("StrEnum", value)\n        raise', '        if str_default:\n            return cast("StrEnum", value)\n        return next(iter(enum_cls))')])
bug('crps-shape', 'C36 C24', [(ME, '    if not (pred_mean.shape == pred_std.shape == target.shape):\n        msg = "arrays must have the same shape"\n        raise ValueError(msg)\n\n    # Compute crps', '    if not (pred_mean.ndim == pred_std.ndim == target.ndim):\n        msg = "arrays must have the same shape"\n        raise ValueError(msg)\n\n    # Compute crps')])
bug('apply-callable', 'C36 C25', [(EU, '        if not callable(func):', '        if not callable(func) and i == 0:')])
bug('apply-missing', 'C36 C25', [(EU, '                    msg = f"Key {k} not found in results or aux."\n                    raise ValueError(msg)', '                    key_value_pairs[k] = None')])
bug('transfer-and', 'C36 C25', [(EU, 'if field not in dict_options or access_from not in dict_options:', 'if field not in dict_options:')])
bug('prior-default', 'C36', [('curv/full.py', 'prior_arguments["prior_prec"]', 'prior_arguments.get("prior_prec", 1.0)')])
bug('lin-setup-order', 'C36', [(PU, 'if not isinstance(vjp, Callable):', 'if not isinstance(vjp, Callable) and not isinstance(jvp, Callable):')])
