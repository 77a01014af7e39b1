LK = 'eval/likelihood.py'; CB = 'eval/calibrate.py'; ME = 'eval/metrics.py'
EV = '    evidence = -0.5 * param_count * jnp.log(2 * jnp.pi) + 0.5 * log_det_H\n'
# bugs
bug('joint-term2', 'C21', [(LK, '(jnp.log(2 * jnp.pi) - jnp.log(prior_prec))', '(jnp.log(2 * jnp.pi) + jnp.log(prior_prec))')])
bug('joint-norm', 'C21', [(LK, 'jnp.sum(full_flatten(params) ** 2)', 'jnp.sum(jnp.abs(full_flatten(params))) ** 2')])
bug('joint-size', 'C21', [(LK, '-0.5 * get_size(params) * (', '-0.5 * len(params) * (')])
bug('full-det', 'C21', [(LK, 'jnp.linalg.slogdet(posterior_precision)[1]', 'jnp.sum(jnp.log(jnp.diag(posterior_precision)))')])
bug('full-det2', 'C21', [(LK, 'jnp.linalg.slogdet(posterior_precision)[1]', '2 * jnp.sum(jnp.log(jnp.abs(jnp.diag(jnp.linalg.cholesky(posterior_precision)))))[()] * 0.5')])
bug('lr-det', 'C21', [(LK, 'log_det_H = param_count * jnp.log(posterior_precision.scalar)', 'log_det_H = posterior_precision.S.shape[0] * jnp.log(posterior_precision.scalar)')])
bug('lml-lsf', 'C21', [(LK, '        loss_scaling_factor=loss_scaling_factor,\n    )\n\n    marginal_log', '    )\n\n    marginal_log')])
bug('lml-table', 'C21', [(LK, 'CurvApprox.LOBPCG: low_rank_marginal_log_likelihood', 'CurvApprox.LOBPCG: diagonal_marginal_log_likelihood')])
bug('lml-vmap', 'C21', [(LK, 'vmap_over_data=vmap_over_data,\n    )\n\n    posterior', 'vmap_over_data=True,\n    )\n\n    posterior')])
bug('grid-first', 'C22', [(CB, 'prior_precs[np.nanargmin(results)]', 'prior_precs[len(results) - 1 - int(np.nanargmin(results[::-1]))]')])
bug('grid-previous', 'C22', [(CB, '        previous_result = result\n', '        if not jnp.isinf(result):\n            previous_result = result\n')])
bug('grid-patience', 'C22', [(CB, 'if increasing_count >= patience:', 'if increasing_count > patience:')])
bug('grid-reset', 'C22', [(CB, '                increasing_count = 0\n', '                increasing_count = max(increasing_count - 1, 0)\n')])
bug('grid-maxit', 'C22', [(CB, 'iteration + 1 >= max_iterations', 'iteration >= max_iterations')])
bug('grid-except', 'C22', [(CB, 'except ValueError as error', 'except Exception as error')])
bug('grid-nan', 'C22', [(CB, '            logger.info("Caught nan, setting result to inf.")\n            result = float("inf")', '            logger.info("Caught nan, skipping.")\n            continue')])
bug('opt-linspace', 'C22', [(CB, 'prior_prec_interval = jnp.logspace(', 'prior_prec_interval = jnp.geomspace(')])
bug('opt-size', 'C22', [(CB, 'num=grid_size', 'num=grid_size, endpoint=False')])
bug('opt-kwargs', 'C22 C10', [(CB, '        objective,\n        **kwargs,\n', '        objective,\n')])
bug('evalprior-batch', 'C23', [(CB, 'metric(\n', 'chi_squared_zero(\n')])
bug('correct-onehot', 'C24', [(ME, '    if target.ndim == 2:\n        target = jnp.argmax(target, axis=-1)\n\n    return pred == target', '    if target.ndim == 2:\n        target = jnp.argmax(target, axis=0)\n\n    return pred == target')])
bug('acc-maxk', 'C24', [(ME, 'correctness[: min(k, max_k)]', 'correctness[:max_k]')])
bug('acc-batch', 'C24', [(ME, '* 100.0\n', '* 100.0 / len(top_k)\n')])
bug('ce-log', 'C24', [(ME, 'jax.scipy.special.xlogy(prob_p, prob_q)', 'prob_p * jnp.log(prob_q)')])
bug('ce-clip', 'C24', [(ME, 'jax.scipy.special.xlogy(prob_p, prob_q)', 'jax.scipy.special.xlogy(prob_p, jnp.clip(prob_q, 1e-7, 1.0))')])
bug('bin-right', 'C24', [(ME, 'jnp.digitize(confidence, bin_boundaries)', 'jnp.digitize(confidence, bin_boundaries, right=True)')])
bug('bin-clip', 'C24', [(ME, 'indices = jnp.clip(indices, min=0, max=num_bins - 1)', 'indices = jnp.clip(indices, max=num_bins)')])
bug('bin-empty', 'C24', [(ME, 'bin_accuracies = jnp.where(pos_counts, bin_accuracies / bin_counts, 0)', 'bin_accuracies = jnp.where(pos_counts, bin_accuracies / bin_counts, 1)')])
bug('bin-prop', 'C24', [(ME, 'bin_counts / bin_counts.sum()', 'bin_counts / (bin_counts > 0).sum()')])
bug('mce-weight', 'C24', [(ME, 'score = abs_diffs.max()', 'score = (bin_proportions * abs_diffs).max()')])
bug('chi-mean', 'C24 C23', [(ME, 'jnp.power(pred_mean - target, 2) / jnp.power(pred_std, 2)', 'jnp.power(pred_mean - target, 2) / pred_std')])
bug('chi-zero', 'C24 C23', [(ME, 'jnp.abs(chi_squared(**predictions) - 1)', 'chi_squared(**predictions) - 1')])
bug('rmse-axis', 'C24', [(ME, 'jnp.sqrt(jnp.mean(jnp.power(pred_mean - target, 2)))', 'jnp.mean(jnp.sqrt(jnp.mean(jnp.power(pred_mean - target, 2), axis=-1)))')])
bug('crps-term', 'C24', [(ME, 'term_1 = 1 / jnp.sqrt(jnp.pi)', 'term_1 = 1 / jnp.sqrt(2 * jnp.pi)')])
bug('crps-scaled', 'C24', [(ME, 'crps / len(crps_list)', 'crps / len(pred_mean)')])
bug('nll-scaled', 'C24', [(ME, 'nll /= math.prod(pred_mean.shape)', 'nll /= pred_mean.shape[0]')])
bug('nll-std', 'C24', [(ME, 'logpdf(residuals, scale=pred_std)', 'logpdf(residuals / pred_std)')])
bug('default-swap', 'C24 C25', [(ME, 'names=["rmse", "chi^2", "nll", "crps"]', 'names=["rmse", "chi^2", "crps", "nll"]')])
bug('default-dict', 'C24 C25', [(ME, '"nll": nll_gaussian', '"nll": crps_gaussian')])
# refactorings
ref('joint-vdot', 'C21 C23', [(LK, '    params_square_norm = jnp.sum(full_flatten(params) ** 2)\n', '    flat = full_flatten(params)\n    params_square_norm = jnp.vdot(flat, flat)\n')])
ref('joint-tree', 'C21 C23', [(LK, 'jnp.sum(full_flatten(params) ** 2)', 'sum(jnp.sum(jnp.square(p)) for p in jax.tree.leaves(params))'), (LK, 'import jax.numpy as jnp', 'import jax\nimport jax.numpy as jnp')])
ref('joint-log', 'C21 C23', [(LK, '(jnp.log(2 * jnp.pi) - jnp.log(prior_prec))', 'jnp.log(2 * jnp.pi / prior_prec)')])
ref('joint-get', 'C21 C23 C26', [(LK, 'sigma = prior_arguments.get("sigma", 1.0)', 'sigma = prior_arguments["sigma"] if "sigma" in prior_arguments else 1.0')])
ref('full-named', 'C21 C23', [(LK, 'log_det_H = jnp.linalg.slogdet(posterior_precision)[1]', '_, log_det_H = jnp.linalg.slogdet(posterior_precision)')])
ref('full-attr', 'C21 C23', [(LK, 'jnp.linalg.slogdet(posterior_precision)[1]', 'jnp.linalg.slogdet(posterior_precision).logabsdet')])
ref('evidence-helper', 'C21 C23', [(LK, EV, '    evidence = _log_evidence(param_count, log_det_H)\n', 0), (LK, EV, '    evidence = _log_evidence(param_count, log_det_H)\n', 0), (LK, EV, '    evidence = _log_evidence(param_count, log_det_H)\n', 0), (LK, 'def joint_log_likelihood(', 'def _log_evidence(param_count, log_det):\n    return 0.5 * (log_det - param_count * jnp.log(2 * jnp.pi))\n\n\ndef joint_log_likelihood(')])
ref('lr-log1p', 'C21 C23', [(LK, 'jnp.log(1 + posterior_precision.S / posterior_precision.scalar)', 'jnp.log1p(posterior_precision.S / posterior_precision.scalar)')])
ref('lr-unpack', 'C21 C23', [(LK, '''    log_det_H = param_count * jnp.log(posterior_precision.scalar) + jnp.sum(
        jnp.log(1 + posterior_precision.S / posterior_precision.scalar)
    )''', '''    eigvals, d = posterior_precision.S, posterior_precision.scalar
    rank = eigvals.shape[0]
    log_det_H = jnp.sum(jnp.log(d + eigvals)) + (param_count - rank) * jnp.log(d)''')])
ref('diag-log', 'C21 C23', [(LK, 'jnp.sum(jnp.log(posterior_precision))', 'jnp.log(posterior_precision).sum()')])
ref('lml-lookup', 'C21 C23 C10 C26', [(LK, '''    posterior_precision = CURVATURE_PRECISION_METHODS[curv_type](
        curv_estimate,
        prior_arguments,
        loss_scaling_factor=loss_scaling_factor,
    )
''', '''    to_precision = CURVATURE_PRECISION_METHODS[curv_type]
    posterior_precision = to_precision(
        curv_estimate, prior_arguments, loss_scaling_factor
    )
''')])
ref('grid-isnan-math', 'C22 C23', [(CB, '        if jnp.isnan(result):', '        if np.isnan(result):')])
ref('grid-best', 'C22 C23', [(CB, '    best_prior_prec = prior_precs[np.nanargmin(results)]', '    best = int(np.argmin(np.asarray(results)))\n    best_prior_prec = prior_precs[best]')])
ref('grid-min-key', 'C22 C23', [(CB, '    best_prior_prec = prior_precs[np.nanargmin(results)]', '    best = min(range(len(results)), key=lambda i: results[i])\n    best_prior_prec = prior_precs[best]')])
ref('grid-zip', 'C22 C23', [(CB, '        results.append(result)\n        prior_precs.append(prior_prec)\n', '        results.append(result)\n        prior_precs.append(prior_prec)\n        del start_time\n')])
ref('grid-else', 'C22 C23', [(CB, '''            if result > previous_result:
                increasing_count += 1
''', '''            got_worse = result > previous_result
            if got_worse:
                increasing_count = increasing_count + 1
''')])
ref('opt-power', 'C22 C23', [(CB, '''    prior_prec_interval = jnp.logspace(
        start=log_prior_prec_min,
        stop=log_prior_prec_max,
        num=grid_size,
    )''', '''    prior_prec_interval = 10.0 ** jnp.linspace(
        log_prior_prec_min, log_prior_prec_max, grid_size
    )''')])
ref('correct-int', 'C24', [(ME, '    if target.ndim == 2:\n        target = jnp.argmax(target, axis=-1)\n\n    return pred == target', '    labels = target.argmax(axis=1) if target.ndim == 2 else target\n    return jnp.equal(pred, labels)')])
ref('acc-loop', 'C24', [(ME, '    _, pred = lax.top_k(pred, max_k)\n', '    pred = jnp.argsort(-pred, axis=-1)[:, :max_k]\n')])
ref('ce-einsum', 'C24', [(ME, '    return -p_log_q.sum(axis=axis)', '    return -jnp.sum(p_log_q, axis=axis)')])
ref('ce-where', 'C24', [(ME, 'jax.scipy.special.xlogy(prob_p, prob_q)', 'jnp.where(prob_p == 0, 0.0, prob_p * jnp.log(jnp.where(prob_p == 0, 1.0, prob_q)))')])
ref('bin-search', 'C24', [(ME, 'jnp.digitize(confidence, bin_boundaries)', 'jnp.searchsorted(bin_boundaries, confidence, side="right")')])
ref('bin-minmax', 'C24', [(ME, 'indices = jnp.clip(indices, min=0, max=num_bins - 1)', 'indices = jnp.minimum(jnp.maximum(indices, 0), num_bins - 1)')])
ref('bin-bincount', 'C24', [(ME, '    bin_counts = bin_counts.at[indices].add(1)\n', '    bin_counts = jnp.bincount(indices, length=num_bins).astype(confidence.dtype)\n')])
ref('bin-segment', 'C24', [(ME, '    bin_confidences = bin_confidences.at[indices].add(confidence)\n', '    bin_confidences = jax.ops.segment_sum(\n        confidence, indices, num_segments=num_bins\n    )\n')])
ref('ece-dot', 'C24 C23', [(ME, 'score = (bin_proportions * abs_diffs).sum()', 'score = jnp.dot(bin_proportions, abs_diffs)')])
ref('ece-branches', 'C24 C23', [(ME, '''    if norm == CalibrationErrorNorm.L1:
        score = (bin_proportions * abs_diffs).sum()
    else:
        score = abs_diffs.max()

    return score''', '''    if norm != CalibrationErrorNorm.L1:
        return jnp.max(abs_diffs)
    return jnp.sum(abs_diffs * bin_proportions)''')])
ref('chi-square', 'C24 C23 C25', [(ME, '    val = jnp.power(pred_mean - target, 2) / jnp.power(pred_std, 2)\n    return jnp.mean(val) if averaged else jnp.sum(val)', '    z = (target - pred_mean) / pred_std\n    reduce = jnp.mean if averaged else jnp.sum\n    return reduce(z**2)')])
ref('rmse-norm', 'C24 C25', [(ME, 'jnp.sqrt(jnp.mean(jnp.power(pred_mean - target, 2)))', 'jnp.linalg.norm(jnp.ravel(pred_mean - target)) / jnp.sqrt(pred_mean.size)')])
ref('crps-terms', 'C24 C25', [(ME, '    crps = jnp.sum(crps_list)\n\n    # Potentially scale so that sum becomes mean\n    if scaled:\n        crps = crps / len(crps_list)\n\n    return crps', '    return jnp.mean(crps_list) if scaled else jnp.sum(crps_list)')])
ref('crps-loc', 'C24 C25', [(ME, 'jax.scipy.stats.norm.pdf(pred_norm, loc=0, scale=1)', 'jnp.exp(-0.5 * pred_norm**2) / jnp.sqrt(2 * jnp.pi)')])
ref('crps-erf', 'C24 C25', [(ME, '2 * jax.scipy.stats.norm.cdf(pred_norm, loc=0, scale=1) - 1', 'jax.scipy.special.erf(pred_norm / jnp.sqrt(2.0))')])
ref('nll-manual', 'C24 C25 C23', [(ME, 'nll_list = jax.scipy.stats.norm.logpdf(residuals, scale=pred_std)', 'nll_list = (\n        -0.5 * (residuals / pred_std) ** 2\n        - jnp.log(pred_std)\n        - 0.5 * jnp.log(2 * jnp.pi)\n    )')])
ref('nll-loc', 'C24 C25 C23', [(ME, 'jax.scipy.stats.norm.logpdf(residuals, scale=pred_std)', 'jax.scipy.stats.norm.logpdf(target, loc=pred_mean, scale=pred_std)')])
ref('nll-size', 'C24 C25 C23', [(ME, 'nll /= math.prod(pred_mean.shape)', 'nll = nll / pred_mean.size')])
