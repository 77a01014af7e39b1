"""Whole functions rewritten in other styles (eval)."""
CA = 'eval/calibrate.py'; LI = 'eval/likelihood.py'; ME = 'eval/metrics.py'; EU = 'eval/utils.py'
ref('rw-calibrate', '*', [
 (CA, '@evaluate_for_given_prior_arguments', '''
def evaluate_for_given_prior_arguments(*, data, set_prob_predictive, metric=chi_squared_zero, **kwargs):
    predict = set_prob_predictive(**kwargs)
    if "evaluate_for_given_prior_arguments_batch_size" in kwargs:
        batch_size = kwargs["evaluate_for_given_prior_arguments_batch_size"]
    else:
        batch_size = kwargs.get("data_batch_size")

    def evaluate_data(dp):
        out = dict(predict(dp["input"]))
        out["target"] = dp["target"]
        return out

    predictions = jax.lax.map(evaluate_data, data, batch_size=batch_size)
    return metric(**predictions)
'''),
 (CA, '@grid_search', '''
def grid_search(prior_prec_interval, objective, patience=None, max_iterations=None):
    def evaluate(prior_prec):
        try:
            value = objective({"prior_prec": prior_prec})
        except ValueError as error:
            logger.warning(f"Caught an exception in validate {error}")
            return float("inf")
        return float("inf") if jnp.isnan(value) else value

    history = []
    worse = 0
    for prior_prec in prior_prec_interval:
        start = time.perf_counter()
        value = evaluate(prior_prec)
        logger.info(f"Took {time.perf_counter() - start:.4f} seconds, prior prec: {prior_prec:.4f}, result: {value:.6f}")
        if patience is not None and history:
            worse = worse + 1 if value > history[-1][1] else 0
        stop = patience is not None and bool(history) and worse >= patience
        history.append((prior_prec, value))
        if stop:
            break
        if max_iterations is not None and len(history) >= max_iterations:
            logger.info(f"Stopping due to reaching max iterations = {max_iterations}")
            break
    best = int(np.nanargmin([value for _, value in history]))
    return history[best][0]
'''),
 (CA, '@optimize_prior_prec', '''
def optimize_prior_prec(objective, log_prior_prec_min=-5.0, log_prior_prec_max=6.0, grid_size=300, **kwargs):
    grid = jnp.logspace(log_prior_prec_min, log_prior_prec_max, grid_size)
    return grid_search(grid, objective, **kwargs)
'''),
])
ref('rw-grid-min', '*', [
 (CA, '@grid_search', '''
def grid_search(prior_prec_interval, objective, patience=None, max_iterations=None):
    best = None
    best_value = None
    previous = None
    streak = 0
    count = 0
    for prior_prec in prior_prec_interval:
        count += 1
        try:
            value = objective({"prior_prec": prior_prec})
        except ValueError as error:
            logger.warning(f"Caught an exception in validate {error}")
            value = float("inf")
        if jnp.isnan(value):
            value = float("inf")
        if best_value is None or value < best_value:
            best, best_value = prior_prec, value
        if patience is not None and previous is not None:
            streak = streak + 1 if value > previous else 0
            if streak >= patience:
                break
        previous = value
        if max_iterations is not None and count >= max_iterations:
            break
    if best is None:
        raise ValueError("empty grid")
    return best
'''),
])
ref('rw-likelihood', '*', [
 (LI, '@joint_log_likelihood', '''
def joint_log_likelihood(full_fn, prior_arguments, params, data):
    tau = prior_arguments["prior_prec"]
    sigma = prior_arguments.get("sigma", 1.0)
    theta = full_flatten(params)
    log_prior = 0.5 * (
        get_size(params) * jnp.log(tau / (2 * jnp.pi)) - tau * jnp.vdot(theta, theta)
    )
    loss = full_fn(data["input"], data["target"], params)
    return log_prior - loss / (2 * sigma)
'''),
 (LI, '@full_marginal_log_likelihood', '''
def full_marginal_log_likelihood(posterior_precision, prior_arguments, full_fn, params, data):
    _, log_det = jnp.linalg.slogdet(posterior_precision)
    return _laplace_evidence(log_det, full_fn, prior_arguments, params, data)


def _laplace_evidence(log_det, full_fn, prior_arguments, params, data):
    joint = joint_log_likelihood(full_fn, prior_arguments, params, data)
    return joint + 0.5 * (get_size(params) * jnp.log(2 * jnp.pi) - log_det)
'''),
 (LI, '@diagonal_marginal_log_likelihood', '''
def diagonal_marginal_log_likelihood(posterior_precision, prior_arguments, full_fn, params, data):
    log_det = jnp.log(posterior_precision).sum()
    return _laplace_evidence(log_det, full_fn, prior_arguments, params, data)
'''),
 (LI, '@low_rank_marginal_log_likelihood', '''
def low_rank_marginal_log_likelihood(posterior_precision, prior_arguments, full_fn, params, data):
    S, c = posterior_precision.S, posterior_precision.scalar
    rank = S.shape[0]
    log_det = jnp.log(S + c).sum() + (get_size(params) - rank) * jnp.log(c)
    return _laplace_evidence(log_det, full_fn, prior_arguments, params, data)
'''),
 (LI, '@marginal_log_likelihood', '''
def marginal_log_likelihood(curv_estimate, prior_arguments, data, model_fn, params, loss_fn, curv_type, *, vmap_over_data=False, loss_scaling_factor=1.0):
    full_fn = concatenate_model_and_loss_fn(model_fn, loss_fn, vmap_over_data=vmap_over_data)
    to_precision = CURVATURE_PRECISION_METHODS[curv_type]
    evidence_fn = CURVATURE_MARGINAL_LOG_LIKELIHOOD[curv_type]
    precision = to_precision(curv_estimate, prior_arguments, loss_scaling_factor=loss_scaling_factor)
    return evidence_fn(precision, prior_arguments, full_fn, params, data)
'''),
])
ref('rw-metrics', '*', [
 (ME, '@correctness', '''
def correctness(pred, target, **kwargs):
    labels = target.argmax(axis=-1) if target.ndim == 2 else target
    return jnp.equal(pred.argmax(axis=-1), labels)
'''),
 (ME, '@accuracy', '''
def accuracy(pred, target, top_k=(1,), **kwargs):
    labels = jnp.argmax(target, axis=-1) if target.ndim == 2 else target
    max_k = min(max(top_k), pred.shape[1])
    _, top = lax.top_k(pred, max_k)
    hits = top == labels[:, None]
    n = labels.shape[0]
    return [100.0 * jnp.sum(hits[:, : min(k, max_k)].astype(jnp.float32)) / n for k in top_k]
'''),
 (ME, '@cross_entropy', '''
def cross_entropy(prob_p, prob_q, axis=-1, **kwargs):
    return jnp.sum(-jax.scipy.special.xlogy(prob_p, prob_q), axis=axis)
'''),
 (ME, '@multiclass_brier', '''
def multiclass_brier(prob, target, **kwargs):
    onehot = jax.nn.one_hot(target, prob.shape[-1]) if target.ndim == 1 else target
    norm_sq = jnp.square(prob).sum(-1, keepdims=True)
    return -jnp.mean(onehot * (norm_sq - 2 * prob + 1))
'''),
 (ME, '@calculate_bin_metrics', '''
def calculate_bin_metrics(confidence, correctness, num_bins=15, **kwargs):
    edges = jnp.linspace(0, 1, num_bins + 1)
    bins = jnp.clip(jnp.digitize(confidence, edges) - 1, 0, num_bins - 1)
    member = jax.nn.one_hot(bins, num_bins, dtype=confidence.dtype)
    counts = member.sum(axis=0)
    nonempty = counts > 0
    safe = jnp.where(nonempty, counts, 1)
    mean_conf = jnp.where(nonempty, (confidence @ member) / safe, 0)
    mean_acc = jnp.where(nonempty, (correctness @ member) / safe, 0)
    return counts / jnp.sum(counts), mean_conf, mean_acc
'''),
 (ME, '@calibration_error', '''
def calibration_error(confidence, correctness, num_bins, norm, **kwargs):
    weights, conf, acc = calculate_bin_metrics(confidence, correctness, num_bins)
    gap = jnp.abs(conf - acc)
    return jnp.dot(weights, gap) if norm == CalibrationErrorNorm.L1 else jnp.max(gap)
'''),
 (ME, '@chi_squared', '''
def chi_squared(pred_mean, pred_std, target, *, averaged=True, **kwargs):
    z = (pred_mean - target) / pred_std
    total = jnp.sum(z * z)
    return total / z.size if averaged else total
'''),
 (ME, '@estimate_rmse', '''
def estimate_rmse(pred_mean, target, **kwargs):
    return jnp.mean((target - pred_mean) ** 2) ** 0.5
'''),
 (ME, '@crps_gaussian', '''
def crps_gaussian(pred_mean, pred_std, target, *, scaled=True, **kwargs):
    if pred_mean.shape != pred_std.shape or pred_std.shape != target.shape:
        raise ValueError("arrays must have the same shape")
    z = (target - pred_mean) / pred_std
    pdf = jax.scipy.stats.norm.pdf(z)
    cdf = jax.scipy.stats.norm.cdf(z)
    values = pred_std * (z * (2 * cdf - 1) + 2 * pdf - 1 / math.sqrt(math.pi))
    return values.mean() if scaled else values.sum()
'''),
 (ME, '@nll_gaussian', '''
def nll_gaussian(pred_mean, pred_std, target, *, scaled=True, **kwargs):
    if pred_mean.shape != pred_std.shape or pred_std.shape != target.shape:
        raise ValueError("arrays must have the same shape")
    logpdf = jax.scipy.stats.norm.logpdf(target, loc=pred_mean, scale=pred_std)
    return -(logpdf.mean() if scaled else logpdf.sum())
'''),
])
ref('rw-evalutils', '*', [
 (EU, '@finalize_fns', '''
def finalize_fns(fns, results, aux=None, **kwargs):
    state = (results, aux)
    for func in fns:
        state = func(results=state[0], aux=state[1], **kwargs)
    return state[0]
'''),
 (EU, '@evaluate_on_dataset', '''
def evaluate_on_dataset(pred_fn, data, **kwargs):
    batch_size = kwargs.get("evaluate_on_dataset_batch_size", kwargs.get("data_batch_size"))
    return jax.lax.map(
        lambda dp: pred_fn(dp["input"]) | {"target": dp["target"]}, data, batch_size=batch_size
    )
'''),
 (EU, '@apply_fns', '''
def apply_fns(*funcs, names=None, field="results", **kwargs):
    for i, func in enumerate(funcs):
        if not callable(func):
            raise TypeError(f"Argument {i} is not callable. Type is {type(func)}")

    def lookup(key, name, results, aux):
        for source in (results, aux):
            if name in source:
                return source[name]
        raise ValueError(f"Key {key} not found in results or aux.")

    def apply(results, aux, **local_kwargs):
        if kwargs:
            inputs = {k: lookup(k, v, results, aux) for k, v in kwargs.items()}
        else:
            logger.warning("No kwargs provided, using aux dictionary as input")
            inputs = aux
        func_names = [f.__name__ for f in funcs] if names is None else names
        if len(func_names) != len(funcs):
            raise ValueError("Number of names does not match number of functions")
        if field not in ("results", "aux"):
            raise ValueError(f"Field {field} must be either 'results' or 'aux'.")
        sink = results if field == "results" else aux
        for i in range(len(funcs)):
            sink[func_names[i]] = funcs[i](**inputs, **local_kwargs)
        return results, aux

    return apply
'''),
 (EU, '@transfer_entry', '''
def transfer_entry(mapping, field="results", access_from="aux"):
    pairs = dict(zip(mapping, mapping)) if isinstance(mapping, list) else mapping
    for option in (field, access_from):
        if option not in {"results", "aux"}:
            raise ValueError(f"Field {option} must be either 'results' or 'aux'.")

    def transfer(results, aux, **kwargs):
        sink = results if field == "results" else aux
        source = results if access_from == "results" else aux
        for k, v in pairs.items():
            sink[k] = source[v]
        return results, aux

    return transfer
'''),
 (EU, '@evaluate_metrics_on_dataset', '''
def evaluate_metrics_on_dataset(pred_fn, data, *, metrics=None, metrics_dict=None, reduce=identity, **kwargs):
    fns = _collect_metrics(metrics, metrics_dict)

    def evaluate_data_point(dp):
        aux = dict(pred_fn(dp["input"]), target=dp["target"])
        return finalize_fns(fns, {}, aux, **kwargs)

    batch_size = kwargs.get("evaluate_metrics_on_dataset_batch_size", kwargs.get("data_batch_size"))
    values = jax.lax.map(evaluate_data_point, data, batch_size=batch_size)
    return {name: reduce(value) for name, value in values.items()}


def _collect_metrics(metrics, metrics_dict):
    if metrics is None and metrics_dict is None:
        raise ValueError("Either metrics or metric_dict must be provided.")
    fns = list(metrics or [])
    if metrics_dict is not None:
        fns.append(apply_fns(*metrics_dict.values(), names=list(metrics_dict)))
    return fns
'''),
 (EU, '@evaluate_metrics_on_generator', '''
def evaluate_metrics_on_generator(pred_fn, data_generator, *, metrics=None, metrics_dict=None, transform=identity, reduce=identity, vmap_over_data=True, **kwargs):
    fns = _collect_metrics(metrics, metrics_dict)

    def evaluate_data(dp):
        aux = dict(pred_fn(dp["input"]), target=dp["target"])
        return finalize_fns(fns, {}, aux, **kwargs)

    step = jax.jit(jax.vmap(evaluate_data) if vmap_over_data else evaluate_data)
    collected = {}
    for raw in data_generator:
        for name, value in step(transform(raw)).items():
            collected.setdefault(name, []).append(value)
    return {name: reduce(values) for name, values in collected.items()}
'''),
])
