"""Numerically stable alternatives and restructured guards (C36/C37)."""
CU = 'curv/utils.py'; GG = 'curv/ggn.py'; LK = 'eval/likelihood.py'; ME = 'eval/metrics.py'; PR = 'eval/predictives.py'
TR = 'util/tree.py'; EU = 'eval/utils.py'; MV = 'util/mv.py'; LZ = 'curv/lanczos.py'; CV = 'curv/cov.py'; OP = 'util/ops.py'
P1 = 'C36 C37 C05 C04 C30 C21 C24 C25 C17 C19 C20 C15 C10 C23'
ref('st-losses-a', P1, [
 (CU, '@log_sigmoid_cross_entropy', '''
def log_sigmoid_cross_entropy(logits, targets):
    return jax.nn.softplus(logits) - targets * logits
'''),
 (CU, '            log_probs = jax.nn.log_softmax(model_fn(input, params))\n', '            logits = model_fn(input, params)\n            log_probs = logits - jax.scipy.special.logsumexp(logits, axis=-1, keepdims=True)\n'),
 (GG, '@_binary_cross_entropy_hessian_mv', '''
def _binary_cross_entropy_hessian_mv(jv, pred, **kwargs):
    return jax.nn.sigmoid(pred) * jax.nn.sigmoid(-pred) * jv
'''),
 (GG, '@_cross_entropy_hessian_mv', '''
def _cross_entropy_hessian_mv(jv, pred, **kwargs):
    prob = jax.numpy.exp(jax.nn.log_softmax(pred))
    return prob * (jv - jax.numpy.vdot(prob, jv))
'''),
 (PR, '@mean_field_0_predictive', '''
def mean_field_0_predictive(mean, var, **kwargs):
    scaled = mean * jax.lax.rsqrt(1 + LAMBDA_0 * var)
    shifted = jnp.exp(scaled - jnp.max(scaled))
    return shifted / shifted.sum()
'''),
])
ref('st-losses-b', P1, [
 (CU, '@log_sigmoid_cross_entropy', '''
def log_sigmoid_cross_entropy(logits, targets):
    return jnp.logaddexp(0.0, logits) - logits * targets
'''),
 (CU, '            log_probs = jax.nn.log_softmax(model_fn(input, params))\n', '            logits = model_fn(input, params)\n            logits = logits - jax.lax.stop_gradient(logits.max(axis=-1, keepdims=True))\n            log_probs = logits - jnp.log(jnp.sum(jnp.exp(logits), axis=-1, keepdims=True))\n'),
 (GG, '@_binary_cross_entropy_hessian_mv', '''
def _binary_cross_entropy_hessian_mv(jv, pred, **kwargs):
    prob = jax.nn.sigmoid(pred)
    return (prob - prob**2) * jv
'''),
 (GG, '@_cross_entropy_hessian_mv', '''
def _cross_entropy_hessian_mv(jv, pred, **kwargs):
    _, out = jax.jvp(jax.nn.softmax, (pred,), (jv,))
    return out
'''),
 (PR, '@mean_field_0_predictive', '''
def mean_field_0_predictive(mean, var, **kwargs):
    del kwargs
    logits = mean / jnp.sqrt(1 + LAMBDA_0 * var)
    return jnp.exp(logits - jax.nn.logsumexp(logits))
'''),
])
ref('st-evidence', P1, [
 (LK, '    log_det_H = jnp.linalg.slogdet(posterior_precision)[1]\n', '    chol = jnp.linalg.cholesky(posterior_precision)\n    log_det_H = 2 * jnp.sum(jnp.log(jnp.diagonal(chol)))\n'),
 (LK, '    log_det_H = jnp.sum(jnp.log(posterior_precision))\n', '    log_det_H = jnp.log(posterior_precision).sum()\n'),
 (LK, '@low_rank_marginal_log_likelihood', '''
def low_rank_marginal_log_likelihood(posterior_precision, prior_arguments, full_fn, params, data):
    n_params = get_size(params)
    S, alpha = posterior_precision.S, posterior_precision.scalar
    log_det = n_params * jnp.log(alpha) + jnp.log1p(S / alpha).sum()
    log_joint = joint_log_likelihood(full_fn, prior_arguments, params, data)
    return log_joint + 0.5 * (n_params * math.log(2 * math.pi) - log_det)
'''),
 (LK, 'import jax.numpy as jnp\n', 'import math\n\nimport jax.numpy as jnp\n', 0),
 (LK, '@joint_log_likelihood', '''
def joint_log_likelihood(full_fn, prior_arguments, params, data):
    theta = full_flatten(params)
    tau = prior_arguments["prior_prec"]
    scale = 2 * prior_arguments.get("sigma", 1.0)
    log_prior = 0.5 * (theta.size * jnp.log(tau / (2 * jnp.pi)) - tau * jnp.vdot(theta, theta))
    return log_prior - full_fn(data["input"], data["target"], params) / scale
'''),
])
ref('st-scores', P1, [
 (ME, '@nll_gaussian', '''
def nll_gaussian(pred_mean, pred_std, target, *, scaled=True, **kwargs):
    if pred_mean.shape != pred_std.shape or pred_std.shape != target.shape:
        raise ValueError("arrays must have the same shape")
    z = (target - pred_mean) / pred_std
    terms = 0.5 * (jnp.log(2 * jnp.pi) + z**2) + jnp.log(pred_std)
    return terms.mean() if scaled else terms.sum()
'''),
 (ME, '@crps_gaussian', '''
def crps_gaussian(pred_mean, pred_std, target, *, scaled=True, **kwargs):
    shapes = {pred_mean.shape, pred_std.shape, target.shape}
    if len(shapes) > 1:
        raise ValueError("arrays must have the same shape")
    z = (target - pred_mean) / pred_std
    norm = jax.scipy.stats.norm
    crps = pred_std * (z * (2 * norm.cdf(z) - 1) + 2 * norm.pdf(z) - 1 / jnp.sqrt(jnp.pi))
    return jnp.mean(crps) if scaled else jnp.sum(crps)
'''),
 (TR, '@var', '''
def var(tree, **kwargs):
    def leaf_var(x, axis=None, ddof=0, keepdims=False):
        centred = x - jnp.mean(x, axis=axis, keepdims=True)
        n = x.size if axis is None else x.shape[axis]
        return jnp.sum(centred**2, axis=axis, keepdims=keepdims) / (n - ddof)

    return jax.tree.map(lambda x: leaf_var(x, **kwargs), tree)
'''),
 (TR, '@std', '''
def std(tree, **kwargs):
    return jax.tree.map(jnp.sqrt, var(tree, **kwargs))
'''),
])
AP = 'api.py'; PU = 'eval/pushforward.py'; RE = 'register.py'
ref('gd-api', '*', [
 (AP, '@_validate_and_get_transform', '''
def _validate_and_get_transform(batch):
    match batch:
        case (_, _) | [_, _]:
            return input_target_split
        case tuple() | list():
            raise ValueError(f"expected two entries, got {len(batch)}")
        case dict() if {"input", "target"} <= batch.keys():
            return identity
        case dict():
            raise ValueError("expected the keys input and target")
    raise ValueError(f"unsupported batch {type(batch).__name__}")
'''),
 (AP, '@_setup_pushforward', '''
def _setup_pushforward(*, pushforward_type, predictive_type, pushforward_fns):
    kind = _convert_to_enum(Pushforward, pushforward_type)
    pred = _convert_to_enum(Predictive, predictive_type)
    setters = {Pushforward.LINEAR: set_lin_pushforward, Pushforward.NONLINEAR: set_nonlin_pushforward}
    if kind not in setters:
        raise ValueError(f"Invalid pushforward type: {kind}")
    if pushforward_fns:
        return setters[kind], pushforward_fns
    if kind is Pushforward.LINEAR:
        base, mc = (lin_setup, lin_pred_mean, lin_pred_std), lin_mc_pred_act
    else:
        base, mc = (nonlin_setup, nonlin_pred_mean, nonlin_pred_std), nonlin_mc_pred_act
        if pred in _SPECIAL_PREDICTIVES:
            raise ValueError(f"{pred} needs the linear pushforward")
    extra = []
    if pred is Predictive.MC_BRIDGE:
        extra = [mc, get_pred_act]
    elif pred in _SPECIAL_PREDICTIVES:
        extra = [partial(lin_special_pred_act, special_pred_type=pred), get_pred_act]
    return setters[kind], [*base, *extra]
'''),
 (AP, '@_resolve_metrics', '''
def _resolve_metrics(metrics):
    if callable(metrics):
        return [metrics]
    if isinstance(metrics, (list, tuple)):
        if len(metrics) == 0:
            raise ValueError("no metrics")
        return [*metrics]
    if not isinstance(metrics, str):
        raise ValueError("unknown metrics")
    kind = _convert_to_enum(DefaultMetrics, metrics)
    if kind is DefaultMetrics.REGRESSION:
        return DEFAULT_REGRESSION_METRICS.copy()

    def confidences_map(map, **kwargs):
        return jax.nn.softmax(map, axis=-1).max(axis=-1)

    def confidences_pred(pred_act, **kwargs):
        return pred_act.max(axis=-1)

    def correctness_map(map, target, **kwargs):
        return correctness(map, target).astype(int)

    def correctness_pred(pred_mean, target, **kwargs):
        return correctness(pred_mean, target).astype(int)

    fns = [confidences_map, confidences_pred, correctness_map, correctness_pred]
    return [
        apply_fns(*fns, names=[f.__name__ for f in fns]),
        apply_fns(nll_gaussian_classification, names=["nll_gaussian"]),
    ]
'''),
 (AP, '@_build_calibration_objective', '''
def _build_calibration_objective(objective_type, *, set_prob_predictive, curv_estimate=None, model_fn=None, params=None,
                                 curv_type=None, loss_fn, vmap_over_data=True, is_classification=False):
    kind = _convert_to_enum(CalibrationObjective, objective_type)
    if None in (model_fn, curv_type):
        raise ValueError("model_fn and curv_type are required")
    if kind is CalibrationObjective.NLL:
        return _make_nll_objective(set_prob_predictive, is_classification=is_classification)
    if kind is CalibrationObjective.CHI_SQUARED:
        if is_classification:
            raise ValueError("chi^2 objective not supported for classification")
        return _make_chi2_objective(set_prob_predictive)
    if kind is CalibrationObjective.ECE:
        if not is_classification:
            raise ValueError("ece objective not supported for regression")
        return _make_ece_objective(set_prob_predictive)
    if curv_estimate is None or params is None or vmap_over_data is None:
        raise ValueError("marginal log-likelihood objective needs more arguments")
    return _make_mll_objective(curv_estimate, model_fn, params, curv_type, loss_fn, vmap_over_data=vmap_over_data)
'''),
])
ref('gd-misc', '*', [
 (OP, '@str_to_bool', '''
def str_to_bool(value):
    match value:
        case "True":
            return True
        case "False":
            return False
        case _:
            raise ValueError(f"not a boolean: {value}")
'''),
 (EU, '@transfer_entry', '''
def transfer_entry(mapping, field="results", access_from="aux"):
    pairs = dict(mapping) if isinstance(mapping, dict) else dict(zip(mapping, mapping))
    if not {field, access_from} <= {"results", "aux"}:
        raise ValueError("field and access_from are results or aux")

    def transfer(results, aux, **kwargs):
        source = results if access_from == "results" else aux
        target = results if field == "results" else aux
        for new, old in pairs.items():
            target[new] = source[old]
        return results, aux

    return transfer
'''),
 (EU, '@apply_fns', '''
def apply_fns(*funcs, names=None, field="results", **kwargs):
    bad = [f for f in funcs if not callable(f)]
    if bad:
        raise TypeError(f"not callable: {bad}")

    def lookup(name, results, aux):
        for source in (results, aux):
            if name in source:
                return source[name]
        raise ValueError(f"Key {name} not found in results or aux.")

    def apply(results, aux, **local_kwargs):
        arguments = {k: lookup(v, results, aux) for k, v in kwargs.items()} if kwargs else aux
        labels = [f.__name__ for f in funcs] if names is None else names
        if len(labels) != len(funcs):
            raise ValueError("one name per function")
        for func, label in zip(funcs, labels):
            value = func(**arguments, **local_kwargs)
            if field == "aux":
                aux[label] = value
            elif field == "results":
                results[label] = value
            else:
                raise ValueError("field is results or aux")
        return results, aux

    return apply
'''),
 (PU, '@lin_setup', '''
def lin_setup(results, aux, input, dist_state, **kwargs):
    posterior_state, jvp, vjp = (dist_state[k] for k in ("posterior_state", "jvp", "vjp"))
    if not isinstance(posterior_state, Posterior):
        raise TypeError("posterior state is not a Posterior type")
    for name, fn in {"JVP": jvp, "VJP": vjp}.items():
        if not callable(fn):
            raise TypeError(f"{name} is not callable")
    mv = set_output_mv(posterior_state, input, jvp, vjp)
    aux.update({k: mv[k] for k in ("cov_mv", "jac_mv")})
    return results, aux
'''),
 (RE, '    if default is not None and default not in CURVATURE_METHODS:\n', '    try:\n        known = default is None or CURVATURE_METHODS[default] is not None\n    except KeyError:\n        known = False\n    if not known:\n'),
 (CU, '@get_matvec', '''
def get_matvec(A, *, layout=None, jit=True):
    msg = "For a callable A, please provide `layout` in PyTree or int format."
    if isinstance(A, jax.Array):
        n, matvec = A.shape[0], lambda x: A @ x
    elif layout is None:
        raise TypeError(msg)
    elif isinstance(layout, int):
        n, matvec = layout, A
    else:
        try:
            flatten, unflatten = create_pytree_flattener(layout)
        except (ValueError, TypeError) as exc:
            raise TypeError(msg) from exc
        n = get_size(layout)
        matvec = wrap_function(A, unflatten, flatten)
    return (jax.jit(matvec) if jit else matvec), n
'''),
])
