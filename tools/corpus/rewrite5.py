"""Whole functions rewritten in other styles (api, low-rank solvers)."""
AP = 'api.py'; LA = 'curv/lanczos.py'; LB = 'curv/lobpcg.py'
ref('rw-lanczos', '*', [
 (LA, '@lanczos_iterations', '''
def lanczos_iterations(matvec, b, *, maxiter=20, tol=1e-6, full_reorthogonalize=True, dtype=jnp.float64, mv_jit=True):
    b = jnp.asarray(b, dtype=dtype)
    v = b / jnp.linalg.norm(b)
    V = jnp.zeros((maxiter + 1, b.shape[0]), dtype=dtype).at[0].set(v)
    alpha = jnp.zeros(maxiter, dtype=dtype)
    beta = jnp.zeros(maxiter, dtype=dtype)

    def project_out(w, V, i):
        return jax.lax.fori_loop(0, i, lambda j, acc: acc - jnp.dot(V[j], acc) * V[j], w)

    @jax.jit
    def update(state, w, i):
        v, alpha, beta, V = state
        a_i = jnp.dot(v, w)
        w = w - a_i * v - beta[i - 1] * V[i - 1]
        if full_reorthogonalize:
            for _ in range(2):
                w = project_out(w, V, i)
        norm = jnp.linalg.norm(w)
        alive = norm >= tol
        b_i = jnp.where(alive, norm, 0.0)
        v_next = jnp.where(b_i > 0, w / jnp.where(b_i > 0, b_i, 1.0), jnp.zeros_like(v))
        return v_next, alpha.at[i].set(a_i), beta.at[i].set(b_i), V.at[i + 1].set(v_next)

    state = (v, alpha, beta, V)
    if not mv_jit:
        for i in range(maxiter):
            state = update(state, matvec(state[0]), i)
    else:
        def step(state, i):
            return update(state, matvec(state[0]), i), None

        state, _ = jax.lax.scan(step, state, jnp.arange(maxiter))
    return state[1:]
'''),
 (LA, '@construct_tridiagonal', '''
def construct_tridiagonal(alpha, beta):
    off = beta[: alpha.shape[0] - 1]
    return jnp.diag(alpha) + jnp.diag(off, 1) + jnp.diag(off, -1)
'''),
 (LA, '@compute_eigendecomposition', '''
def compute_eigendecomposition(alpha, beta, V, *, compute_vectors=False):
    T = construct_tridiagonal(alpha, beta)
    if not compute_vectors:
        return jnp.linalg.eigvalsh(T)
    eigvals, Q = jnp.linalg.eigh(T)
    return eigvals, V[:-1].T @ Q
'''),
])
ref('rw-lowrank-wrap', '*', [
 (LA, '@lanczos_lowrank', '''
@restore_x64_config
def lanczos_lowrank(A, *, key=None, b=None, layout=None, rank=20, tol=1e-6, mv_dtype=None, calc_dtype=jnp.float64, return_dtype=None, mv_jit=True, full_reorthogonalize=True, **kwargs):
    x64 = jax.config.read("jax_enable_x64")
    default_dtype = jnp.float64 if x64 else jnp.float32
    mv_dtype = default_dtype if mv_dtype is None else mv_dtype
    return_dtype = default_dtype if return_dtype is None else return_dtype
    jax.config.update("jax_enable_x64", jnp.float64 in (mv_dtype, calc_dtype, return_dtype))

    raw_matvec, size = get_matvec(A, layout=layout, jit=mv_jit)

    def matvec(x):
        return jnp.asarray(raw_matvec(jnp.asarray(x, dtype=mv_dtype)), dtype=calc_dtype)

    if b is None and key is None:
        raise ValueError("Either key or b must be provided")
    start = jax.random.normal(key, (size,), dtype=calc_dtype) if b is None else jnp.asarray(b, dtype=calc_dtype)
    coefficients = lanczos_iterations(
        matvec, start, maxiter=rank, tol=tol, full_reorthogonalize=full_reorthogonalize, dtype=calc_dtype, mv_jit=mv_jit
    )
    S, U = compute_eigendecomposition(*coefficients, compute_vectors=True)
    out = [jnp.asarray(x, dtype=return_dtype) for x in (U, S, 0.0)]
    jax.config.update("jax_enable_x64", x64)
    return LowRankTerms(*out)
'''),
 (LB, '@lobpcg_lowrank', '''
@restore_x64_config
def lobpcg_lowrank(A, *, key=None, layout=None, rank=20, tol=1e-6, mv_dtype=None, calc_dtype=jnp.float64, return_dtype=None, mv_jit=True, **kwargs):
    x64 = jax.config.read("jax_enable_x64")
    default_dtype = jnp.float64 if x64 else jnp.float32
    mv_dtype = mv_dtype or default_dtype
    return_dtype = return_dtype or default_dtype
    jax.config.update("jax_enable_x64", any(d == jnp.float64 for d in [mv_dtype, calc_dtype, return_dtype]))

    matvec, size = get_matvec(A, layout=layout, jit=mv_jit)

    def matmat(X):
        X = jnp.asarray(X, dtype=mv_dtype)
        if mv_jit:
            out = jax.vmap(matvec, in_axes=1, out_axes=1)(X)
        else:
            out = jnp.stack([matvec(X[:, j]) for j in range(X.shape[1])], axis=1)
        return jnp.asarray(out, dtype=calc_dtype)

    if 5 * rank >= size:
        rank = max(1, size // 5 - 1)
        warnings.warn(f"reduced rank to {rank} due to insufficient size", stacklevel=1)
    start = jax.random.normal(jax.random.key(0) if key is None else key, (size, rank), dtype=calc_dtype)
    S, U, _ = lobpcg_standard(
        matmat, start, rank, tol, calc_dtype=calc_dtype, a_dtype=mv_dtype, A_jit=mv_jit
    )
    out = [jnp.asarray(x, dtype=return_dtype) for x in (U, S, 0.0)]
    jax.config.update("jax_enable_x64", x64)
    return LowRankTerms(*out)
'''),
 (LB, '@_orthonormalize', '''
def _orthonormalize(X, calc_dtype):
    return _svqb(_svqb(X, calc_dtype), calc_dtype)
'''),
 (LB, '@_project_out', '''
def _project_out(basis, U):
    def remove(U):
        return U - _mm(basis, _mm(basis.T, U))

    for _ in range(2):
        U = _orthonormalize(remove(U), U.dtype)
    U = remove(remove(U))
    norms = jnp.linalg.norm(U, axis=0, keepdims=True)
    return jnp.where(norms >= 0.99, U, 0.0)
'''),
])
ref('rw-api-setup', '*', [
 (AP, '@_setup_pushforward', '''
def _setup_pushforward(*, pushforward_type, predictive_type, pushforward_fns):
    pushforward_type = _convert_to_enum(Pushforward, pushforward_type)
    predictive_type = _convert_to_enum(Predictive, predictive_type)
    linear = pushforward_type is Pushforward.LINEAR
    setter = set_lin_pushforward if linear else set_nonlin_pushforward
    if pushforward_fns:
        return setter, pushforward_fns
    if linear:
        fns = [lin_setup, lin_pred_mean, lin_pred_std]
        mc, special = lin_mc_pred_act, lin_special_pred_act
    else:
        fns = [nonlin_setup, nonlin_pred_mean, nonlin_pred_std]
        mc, special = nonlin_mc_pred_act, None
    if predictive_type is Predictive.MC_BRIDGE:
        fns += [mc, get_pred_act]
    elif predictive_type in _SPECIAL_PREDICTIVES:
        if special is None:
            raise ValueError(f"{predictive_type.value} not supported for non-linear pushforward.")
        fns += [partial(special, special_pred_type=predictive_type), get_pred_act]
    return setter, fns
'''),
 (AP, '@get_pred_act', '''
def get_pred_act(results, aux, **kwargs):
    for name in ("special_pred_act", "mc_pred_act"):
        if name in results:
            results["pred_act"] = results[name]
            break
    return results, aux
'''),
 (AP, '@_convert_to_enum', '''
def _convert_to_enum(enum_cls, value, *, str_default=False):
    if not isinstance(value, enum_cls):
        lowered = value.lower()
        members = {member.value: member for member in enum_cls}
        if lowered in members:
            return members[lowered]
        if not str_default:
            raise ValueError(f"{value!r} is not a valid {enum_cls.__name__}")
    return value
'''),
 (AP, '@_validate_and_get_transform', '''
def _validate_and_get_transform(batch):
    match batch:
        case dict():
            if not {"input", "target"} <= batch.keys():
                raise ValueError("Dict batches must contain keys `'input'` & `'target'`.")
            return identity
        case tuple() | list():
            if len(batch) == 2:
                return input_target_split
            raise ValueError("Tuple batches must be `(input, target)` - received len != 2.")
        case _:
            raise ValueError(f"Unsupported batch type: {type(batch)}. Expect tuple or mapping.")
'''),
 (AP, '@_maybe_wrap_loader_or_batch', '''
def _maybe_wrap_loader_or_batch(mv_fn, data, *, transform=None, loader_kwargs=EMPTY_DICT):
    streaming = _is_data_loader(data)
    single = isinstance(data, (tuple, dict)) or (transform is None and not streaming)
    if transform is None:
        example = next(iter(data)) if streaming else data
        transform = _validate_and_get_transform(example)
    if single:
        batch = transform(data)
        return partial(mv_fn, data=batch)
    options = dict(reduce=reduce_add)
    options.update(loader_kwargs)
    return DataLoaderMV(mv_fn, data, transform, **options)
'''),
])
ref('rw-api-objectives', '*', [
 (AP, '@nll_gaussian_classification', '''
def nll_gaussian_classification(pred_mean, pred_std, target, **kwargs):
    onehot = jax.nn.one_hot(target, pred_mean.shape[-1])
    return nll_gaussian(pred_mean=pred_mean, pred_std=pred_std, target=onehot)
'''),
 (AP, '@_make_nll_objective', '''
def _make_nll_objective(set_prob_predictive, *, is_classification=False):
    metric = nll_gaussian_classification if is_classification else nll_gaussian

    @jax.jit
    def objective(prior_args, batch):
        return evaluate_for_given_prior_arguments(
            data=batch, set_prob_predictive=set_prob_predictive, metric=metric, prior_arguments=prior_args
        )

    return objective
'''),
 (AP, '@_make_ece_objective', '''
def _make_ece_objective(set_prob_predictive):
    def ece(*, map, pred_act, target, **kwargs):
        return expected_calibration_error(
            confidence=pred_act.max(axis=-1),
            correctness=jnp.asarray(correctness(map, target), dtype=jnp.float32),
            num_bins=15,
        )

    def objective(prior_args, batch):
        return evaluate_for_given_prior_arguments(
            data=batch, set_prob_predictive=set_prob_predictive, metric=ece, prior_arguments=prior_args
        )

    return objective
'''),
 (AP, '@_make_mll_objective', '''
def _make_mll_objective(curv_estimate, model_fn, params, curv_type, loss_fn, *, vmap_over_data=True):
    fixed = dict(
        curv_estimate=curv_estimate, model_fn=model_fn, params=params,
        loss_fn=loss_fn, curv_type=curv_type, vmap_over_data=vmap_over_data,
    )

    @jax.jit
    def objective(prior_args, batch):
        return -1.0 * marginal_log_likelihood(prior_arguments=prior_args, data=batch, **fixed)

    return objective
'''),
 (AP, '@_resolve_metrics', '''
def _resolve_metrics(metrics):
    if isinstance(metrics, str):
        metrics = _convert_to_enum(DefaultMetrics, metrics)
    if metrics == DefaultMetrics.REGRESSION:
        return [*DEFAULT_REGRESSION_METRICS]
    if metrics == DefaultMetrics.CLASSIFICATION:
        def confidences_map(map, **kwargs):
            return jax.nn.softmax(map, axis=-1).max(axis=-1)

        def confidences_pred(pred_act, **kwargs):
            return pred_act.max(axis=-1)

        def correctness_map(map, target, **kwargs):
            return correctness(map, target).astype(int)

        def correctness_pred(pred_mean, target, **kwargs):
            return correctness(pred_mean, target).astype(int)

        def nll(pred_mean, pred_std, target, **kwargs):
            return nll_gaussian_classification(pred_mean, pred_std, target)

        fns = [confidences_map, confidences_pred, correctness_map, correctness_pred]
        return [
            apply_fns(*fns, names=[f.__name__ for f in fns]),
            apply_fns(nll, names=["nll_gaussian"]),
        ]
    if callable(metrics):
        return [metrics]
    if not isinstance(metrics, (list, tuple)):
        raise ValueError(f"unsupported metrics {type(metrics).__name__}")
    if len(metrics) == 0:
        raise ValueError("Metrics list must not be empty.")
    return list(metrics)
'''),
])
ref('rw-api-entry', '*', [
 (AP, '@GGN', '''
def GGN(model_fn, params, data, loss_fn, *, factor=1.0, vmap_over_data=True, verbose_logging=True, transform=None):
    mv = _maybe_wrap_loader_or_batch(
        create_ggn_mv_without_data(model_fn, params, loss_fn, factor, vmap_over_data=vmap_over_data),
        data,
        transform=transform,
        loader_kwargs=dict(verbose_logging=verbose_logging),
    )
    out = mv(params)
    for x, y in zip(jax.tree.leaves(out), jax.tree.leaves(params), strict=True):
        if x.shape != y.shape:
            raise ValueError("Setup of GGN-MV failed: input and output shapes do not match.")
    return mv
'''),
 (AP, '@laplace', '''
def laplace(model_fn, params, data, *, loss_fn, curv_type, num_curv_samples=1, num_total_samples=1, vmap_over_data=True, curv_mv_jit=False, **curv_kwargs):
    curv_type = _convert_to_enum(CurvApprox, curv_type)
    scale = num_total_samples / num_curv_samples
    mv = GGN(model_fn, params, data, loss_fn, factor=scale, vmap_over_data=vmap_over_data)
    mv = jax.jit(mv) if curv_mv_jit else mv
    estimate = estimate_curvature(curv_type, mv, params, **curv_kwargs)
    return set_posterior_fn(curv_type, estimate, layout=params, **curv_kwargs), estimate
'''),
 (AP, '@evaluation', '''
def evaluation(posterior_fn, model_fn, params, arguments, data, *, metrics=DefaultMetrics.REGRESSION, predictive_type=Predictive.NONE, pushforward_type=Pushforward.LINEAR, pushforward_fns=None, reduce=identity, sample_key=DEFAULT_KEY, num_samples=10, predictive_jit=True):
    metrics_list = _resolve_metrics(metrics)
    setter, fns = _setup_pushforward(
        pushforward_type=pushforward_type, predictive_type=predictive_type, pushforward_fns=pushforward_fns
    )
    predict = setter(
        model_fn=model_fn, mean_params=params, posterior_fn=posterior_fn, prior_arguments=arguments,
        pushforward_fns=fns, key=sample_key, num_samples=num_samples,
    )
    if predictive_jit:
        predict = jax.jit(predict)
    if not _is_data_loader(data):
        batch = _validate_and_get_transform(data)(data)
        return evaluate_metrics_on_dataset(predict, batch, metrics=metrics_list, reduce=reduce), predict

    stream = iter(data)
    head = next(stream)

    def everything():
        yield head
        yield from stream

    results = evaluate_metrics_on_generator(
        predict, everything(), metrics=metrics_list, transform=_validate_and_get_transform(head),
        reduce=lambda parts: reduce(jnp.concatenate(parts)),
    )
    return results, predict
'''),
 (AP, '@calibration', '''
def calibration(posterior_fn, model_fn, params, data, *, loss_fn, curv_estimate, curv_type, predictive_type=Predictive.NONE, pushforward_type=Pushforward.LINEAR, pushforward_fns=None, sample_key=DEFAULT_KEY, num_samples=30, calibration_objective=CalibrationObjective.NLL, calibration_method=CalibrationMethod.GRID_SEARCH, vmap_over_data=True, objective_jit=True, **calibration_kwargs):
    predictive_type = _convert_to_enum(Predictive, predictive_type)
    setter, fns = _setup_pushforward(
        pushforward_type=pushforward_type, predictive_type=predictive_type, pushforward_fns=pushforward_fns
    )
    set_prob_predictive = partial(
        setter, model_fn=model_fn, mean_params=params, posterior_fn=posterior_fn,
        pushforward_fns=fns, key=sample_key, num_samples=num_samples,
    )
    objective_fn = _build_calibration_objective(
        calibration_objective,
        set_prob_predictive=set_prob_predictive, curv_estimate=curv_estimate, model_fn=model_fn,
        params=params, curv_type=_convert_to_enum(CurvApprox, curv_type, str_default=True), loss_fn=loss_fn,
        vmap_over_data=vmap_over_data, is_classification=predictive_type is not Predictive.NONE,
    )
    method = _convert_to_enum(CalibrationMethod, calibration_method, str_default=True)
    if method not in calibration_options:
        raise ValueError(f"Unknown calibration method: {method}")
    search = calibration_options[method]
    batch = _validate_and_get_transform(data)(data)
    if method != CalibrationMethod.GRID_SEARCH:
        fn = jax.jit(objective_fn) if objective_jit else objective_fn
        return search(objective=fn, data=batch, **calibration_kwargs), set_prob_predictive

    def objective(prior_args):
        return objective_fn(prior_args, batch)

    defaults = {"log_prior_prec_min": -3.0, "log_prior_prec_max": 3.0, "grid_size": 50, "patience": None}
    options = {k: calibration_kwargs.get(k, v) for k, v in defaults.items()}
    best = search(objective=jax.jit(objective) if objective_jit else objective, **options)
    return {"prior_prec": best}, set_prob_predictive
'''),
])
