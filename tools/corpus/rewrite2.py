"""Whole functions rewritten in other styles (curv, register)."""
CO = 'curv/cov.py'; DI = 'curv/diagonal.py'; FU = 'curv/full.py'; LR = 'curv/low_rank.py'; GG = 'curv/ggn.py'; HE = 'curv/hessian.py'; UT = 'curv/utils.py'; RG = 'register.py'
ref('rw-full', '*', [
 (FU, '@create_full_curvature', '''
def create_full_curvature(mv, layout, **kwargs):
    if isinstance(layout, int):
        logger.warning("expected a tree layout, got an int; proceeding without wrapper")
        return to_dense(mv, layout=layout)
    flatten, unflatten = create_pytree_flattener(layout)

    def flat_mv(vec):
        return flatten(mv(unflatten(vec)))

    return to_dense(wrap_function(mv, unflatten, flatten), layout=get_size(layout))
'''),
 (FU, '@full_curvature_to_precision', '''
def full_curvature_to_precision(curv_estimate, prior_arguments, loss_scaling_factor=1.0):
    prior_prec = prior_arguments["prior_prec"]
    sigma_squared = prior_arguments["sigma_squared"] if "sigma_squared" in prior_arguments else 1.0
    inv = 1.0 / loss_scaling_factor
    likelihood = inv * sigma_squared * curv_estimate
    prior = jnp.diag(jnp.full(curv_estimate.shape[0], prior_prec * inv))
    return likelihood + prior
'''),
 (FU, '@full_prec_to_scale', '''
def full_prec_to_scale(prec):
    flipped = prec[..., ::-1, ::-1]
    lower = jnp.linalg.cholesky(flipped)
    upper = jnp.swapaxes(lower[..., ::-1, ::-1], -1, -2)
    eye = jnp.eye(prec.shape[-1], dtype=prec.dtype)
    return jax.scipy.linalg.solve_triangular(upper, eye, lower=True)
'''),
 (FU, '@full_prec_to_posterior_state', '''
def full_prec_to_posterior_state(prec):
    return dict(scale=full_prec_to_scale(prec))
'''),
 (FU, '@full_posterior_state_to_scale', '''
def full_posterior_state_to_scale(state):
    return lambda vec: jnp.dot(state["scale"], vec)
'''),
 (FU, '@full_posterior_state_to_cov', '''
def full_posterior_state_to_cov(state):
    scale = state["scale"]
    cov = jnp.einsum("ik,jk->ij", scale, scale)
    return lambda vec: jnp.matmul(cov, vec)
'''),
])
ref('rw-diag', '*', [
 (DI, '@create_diagonal_curvature', '''
def create_diagonal_curvature(mv, layout, **kwargs):
    return diagonal(mv, layout)
'''),
 (DI, '@diagonal_curvature_to_precision', '''
def diagonal_curvature_to_precision(curv_estimate, prior_arguments, loss_scaling_factor=1.0):
    args = {"sigma_squared": 1.0, **prior_arguments}
    scaled = jnp.multiply(args["sigma_squared"], curv_estimate)
    return jnp.divide(scaled + args["prior_prec"], loss_scaling_factor)
'''),
 (DI, '@diagonal_prec_to_posterior_state', '''
def diagonal_prec_to_posterior_state(prec):
    scale = prec ** (-0.5)
    return {"scale": scale}
'''),
 (DI, '@diagonal_posterior_state_to_scale', '''
def diagonal_posterior_state_to_scale(state):
    scale = state["scale"]
    return lambda vec: jnp.multiply(vec, scale)
'''),
 (DI, '@diagonal_posterior_state_to_cov', '''
def diagonal_posterior_state_to_cov(state):
    def diag_mv(vec):
        return jnp.square(state["scale"]) * vec

    return diag_mv
'''),
])
ref('rw-lowrank', '*', [
 (LR, '@create_low_rank_curvature', '''
def create_low_rank_curvature(mv, layout, low_rank_method=LowRankMethod.LANCZOS, **kwargs):
    match low_rank_method:
        case LowRankMethod.LANCZOS:
            solver = lanczos_lowrank
        case LowRankMethod.LOBPCG:
            solver = lobpcg_lowrank
        case _:
            raise KeyError(low_rank_method)
    return solver(mv, layout=layout, **kwargs)
'''),
 (LR, '@create_low_rank_mv', '''
def create_low_rank_mv(low_rank_terms):
    U = low_rank_terms.U
    S = low_rank_terms.S
    c = low_rank_terms.scalar

    def low_rank_mv(vec):
        coeff = jnp.einsum("pr,p->r", U, vec)
        return c * vec + (U * S) @ coeff

    return low_rank_mv
'''),
 (LR, '@low_rank_square', '''
def low_rank_square(state):
    c2 = jnp.square(state.scalar)
    return LowRankTerms(U=state.U, S=state.S * (state.S + 2 * state.scalar), scalar=c2)
'''),
 (LR, '@low_rank_curvature_to_precision', '''
def low_rank_curvature_to_precision(curv_estimate, prior_arguments, loss_scaling_factor=1.0):
    weight = prior_arguments.get("sigma_squared", 1.0) / loss_scaling_factor
    return LowRankTerms(
        U=curv_estimate.U,
        S=weight * curv_estimate.S,
        scalar=prior_arguments["prior_prec"] / loss_scaling_factor,
    )
'''),
 (LR, '@low_rank_prec_to_posterior_state', '''
def low_rank_prec_to_posterior_state(curv_estimate):
    inv_sqrt = lambda x: jax.lax.rsqrt(x)
    base = inv_sqrt(jnp.asarray(curv_estimate.scalar))
    terms = LowRankTerms(
        U=curv_estimate.U, S=inv_sqrt(curv_estimate.S + curv_estimate.scalar) - base, scalar=base
    )
    return {"scale": terms}
'''),
])
ref('rw-cov', '*', [
 (CO, '@estimate_curvature', '''
def estimate_curvature(curv_type, mv, layout=None, **kwargs):
    create = CURVATURE_METHODS[curv_type]
    estimate = create(mv, layout=layout, **kwargs)
    for leaf in jax.tree.leaves(estimate):
        if isinstance(leaf, jax.Array):
            leaf.block_until_ready()
    return estimate
'''),
 (CO, '@set_posterior_fn', '''
def set_posterior_fn(curv_type, curv_estimate, *, layout, **kwargs):
    if not (layout is None or isinstance(layout, (int, PyTree))):
        raise ValueError("Layout must be an integer, PyTree or None.")
    needs_flattening = layout is not None and not isinstance(layout, int)
    flatten, unflatten = create_pytree_flattener(layout) if needs_flattening else (None, None)
    to_precision = CURVATURE_PRECISION_METHODS[curv_type]
    to_state = CURVATURE_TO_POSTERIOR_STATE[curv_type]
    factories = {
        "cov_mv": CURVATURE_STATE_TO_COV[curv_type],
        "scale_mv": CURVATURE_STATE_TO_SCALE[curv_type],
    }

    def posterior_fn(prior_arguments, loss_scaling_factor=1.0):
        precision = to_precision(
            curv_estimate=curv_estimate,
            prior_arguments=prior_arguments,
            loss_scaling_factor=loss_scaling_factor,
        )
        mvs = {name: wrap_factory(f, flatten, unflatten) for name, f in factories.items()}
        return Posterior(state=to_state(precision), **mvs)

    return posterior_fn
'''),
 (CO, '@create_posterior_fn', '''
def create_posterior_fn(curv_type, mv, layout=None, **kwargs):
    return set_posterior_fn(
        curv_type, estimate_curvature(curv_type, mv, layout, **kwargs), layout=layout
    )
'''),
])
ref('rw-ggn', '*', [
 (GG, '@_binary_cross_entropy_hessian_mv', '''
def _binary_cross_entropy_hessian_mv(jv, pred, **kwargs):
    p = jax.nn.sigmoid(pred)
    return (p - p**2) * jv
'''),
 (GG, '@_cross_entropy_hessian_mv', '''
def _cross_entropy_hessian_mv(jv, pred, **kwargs):
    prob = jax.nn.softmax(pred)
    weighted = prob * jv
    return weighted - prob * weighted.sum()
'''),
 (GG, '@_mse_hessian_mv', '''
def _mse_hessian_mv(jv, **kwargs):
    return jv + jv
'''),
 (GG, '@create_loss_hessian_mv', '''
def create_loss_hessian_mv(loss_fn, **kwargs):
    if loss_fn is None:
        raise ValueError("loss_fn cannot be None")

    def _identity(jv, pred, target, **kwargs):
        return jv

    builtin = {
        LossFn.BINARY_CROSS_ENTROPY: _binary_cross_entropy_hessian_mv,
        LossFn.CROSS_ENTROPY: _cross_entropy_hessian_mv,
        LossFn.MSE: _mse_hessian_mv,
        LossFn.NONE: _identity,
    }
    for key, fn in builtin.items():
        if loss_fn == key:
            return fn
    if not callable(loss_fn):
        raise ValueError("unsupported loss function provided")

    def custom_hessian_mv(jv, pred, target, **kwargs):
        grad_fn = jax.grad(lambda p: loss_fn(p, target))
        _, tangent = jax.jvp(grad_fn, (pred,), (jv,))
        return tangent

    return custom_hessian_mv
'''),
 (GG, '@create_ggn_mv_without_data', '''
def create_ggn_mv_without_data(model_fn, params, loss_fn, factor, *, vmap_over_data=True, loss_hessian_mv=None):
    if loss_hessian_mv is None:
        loss_hessian_mv = create_loss_hessian_mv(loss_fn)
    hessian_mv = jax.vmap(loss_hessian_mv) if vmap_over_data else loss_hessian_mv

    def predict(p, inputs):
        if not vmap_over_data:
            return model_fn(input=inputs, params=p)
        return jax.vmap(lambda x, p: model_fn(input=x, params=p), in_axes=(0, None))(inputs, p)

    def ggn_mv(vec, data):
        fwd = partial(predict, inputs=data["input"])
        z, jv = jax.jvp(fwd, (params,), (vec,))
        _, vjp_fn = jax.vjp(fwd, params)
        hjv = hessian_mv(jv, pred=z, target=data["target"])
        (out,) = vjp_fn(hjv)
        return jax.tree.map(lambda x: x * factor, out)

    return ggn_mv
'''),
 (GG, 'from collections.abc import Callable', 'from collections.abc import Callable\nfrom functools import partial'),
])
ref('rw-ggn-loop', '*', [
 (GG, '@create_ggn_mv_without_data', '''
def create_ggn_mv_without_data(model_fn, params, loss_fn, factor, *, vmap_over_data=True, loss_hessian_mv=None):
    hess = loss_hessian_mv if loss_hessian_mv is not None else create_loss_hessian_mv(loss_fn)

    def single(vec, x, y):
        def fwd(p):
            return model_fn(input=x, params=p)

        z, jv = jax.jvp(fwd, (params,), (vec,))
        _, pullback = jax.vjp(fwd, params)
        return pullback(hess(jv, pred=z, target=y))[0]

    def ggn_mv(vec, data):
        if vmap_over_data:
            per_sample = jax.vmap(single, in_axes=(None, 0, 0))(vec, data["input"], data["target"])
            total = jax.tree.map(lambda x: x.sum(0), per_sample)
        else:
            total = single(vec, data["input"], data["target"])
        return mul(factor, total)

    return ggn_mv
'''),
 (GG, '@create_ggn_mv', '''
def create_ggn_mv(model_fn, params, data, loss_fn=None, *, num_curv_samples=None, num_total_samples=None, vmap_over_data=True, loss_hessian_mv=None):
    match (loss_fn is None, loss_hessian_mv is None):
        case (True, True):
            raise ValueError("Either loss_fn or loss_hessian_mv must be provided.")
        case (False, False):
            raise ValueError("Only one of loss_fn or loss_hessian_mv must be provided.")
    n_curv = data["input"].shape[0] if num_curv_samples is None else num_curv_samples
    n_total = n_curv if num_total_samples is None else num_total_samples
    mv = create_ggn_mv_without_data(
        model_fn, params, loss_fn, n_total / n_curv,
        vmap_over_data=vmap_over_data, loss_hessian_mv=loss_hessian_mv,
    )
    return lambda vec: mv(vec, data)
'''),
])
ref('rw-hessian', '*', [
 (HE, '@hvp', '''
def hvp(func, primals, tangents):
    grad_fn = jax.grad(func)
    _, push = jax.linearize(grad_fn, primals)
    return push(tangents)
'''),
 (HE, '@create_hessian_mv_without_data', '''
def create_hessian_mv_without_data(model_fn, params, loss_fn, factor, *, vmap_over_data=True, **kwargs):
    objective = concatenate_model_and_loss_fn(model_fn, loss_fn, vmap_over_data=vmap_over_data)

    def _hessian_mv(vec, data):
        inputs, targets = data["input"], data["target"]

        def loss(p):
            return objective(inputs, targets, p)

        product = hvp(loss, params, vec)
        return jax.tree.map(lambda leaf: factor * leaf, product)

    return _hessian_mv
'''),
 (HE, '@create_hessian_mv', '''
def create_hessian_mv(model_fn, params, data, loss_fn, *, num_curv_samples=None, num_total_samples=None, vmap_over_data=True, **kwargs):
    n = num_curv_samples if num_curv_samples is not None else len(data["input"])
    factor = 1.0 if num_total_samples is None else num_total_samples / n
    hessian_mv = create_hessian_mv_without_data(
        model_fn, params, loss_fn, factor, vmap_over_data=vmap_over_data, **kwargs
    )
    return partial(hessian_mv, data=data)
'''),
 (HE, 'import jax\n', 'from functools import partial\n\nimport jax\n'),
 (UT, '@concatenate_model_and_loss_fn', '''
def concatenate_model_and_loss_fn(model_fn, loss_fn, *, vmap_over_data=False):
    predict = jax.vmap(model_fn, in_axes=(0, None)) if vmap_over_data else model_fn

    def mse(pred, target):
        diff = pred - target
        return jnp.sum(diff * diff)

    def bce(pred, target):
        return log_sigmoid_cross_entropy(pred, target).sum()

    def ce(pred, target):
        logp = jax.nn.log_softmax(pred, axis=-1)
        onehot = jax.nn.one_hot(target, logp.shape[-1]) if target.ndim < logp.ndim else target
        return -(onehot * logp).sum()

    if loss_fn == LossFn.MSE:
        loss = mse
    elif loss_fn == LossFn.BINARY_CROSS_ENTROPY:
        loss = bce
    elif loss_fn == LossFn.CROSS_ENTROPY:
        loss = ce
    elif callable(loss_fn):
        loss = loss_fn
    else:
        raise ValueError(f"unknown loss function: {loss_fn}")

    def loss_wrapper(input, target, params):
        return loss(predict(input, params), target)

    return loss_wrapper
'''),
 (UT, '@log_sigmoid_cross_entropy', '''
def log_sigmoid_cross_entropy(logits, targets):
    log_p = jax.nn.log_sigmoid(logits)
    log_not_p = jax.nn.log_sigmoid(-logits)
    return -(targets * log_p + (1.0 - targets) * log_not_p)
'''),
])
ref('rw-matvec', '*', [
 (UT, '@get_matvec', '''
def get_matvec(A, *, layout=None, jit=True):
    msg = "For a callable A, please provide `layout` in PyTree or int format."

    def finish(fn, size):
        return (jax.jit(fn) if jit else fn), size

    if isinstance(A, jnp.ndarray):
        return finish(lambda x: A @ x, A.shape[0])
    if layout is None:
        raise TypeError(msg)
    if isinstance(layout, int):
        return finish(A, layout)
    try:
        flatten, unflatten = create_pytree_flattener(layout)
        return finish(wrap_function(A, input_fn=unflatten, output_fn=flatten), get_size(layout))
    except (ValueError, TypeError) as err:
        raise TypeError(msg) from err
'''),
 (RG, '@register_curvature_method', '''
def register_curvature_method(name, *, create_curvature_fn=None, curvature_to_precision_fn=None, prec_to_posterior_fn=None, posterior_state_to_scale_fn=None, posterior_state_to_cov_fn=None, marginal_log_likelihood_fn=None, default=None):
    given = {
        "create_curvature_fn": (CURVATURE_METHODS, create_curvature_fn),
        "curvature_to_precision_fn": (CURVATURE_PRECISION_METHODS, curvature_to_precision_fn),
        "prec_to_posterior_fn": (CURVATURE_TO_POSTERIOR_STATE, prec_to_posterior_fn),
        "posterior_state_to_scale_fn": (CURVATURE_STATE_TO_SCALE, posterior_state_to_scale_fn),
        "posterior_state_to_cov_fn": (CURVATURE_STATE_TO_COV, posterior_state_to_cov_fn),
        "marginal_log_likelihood_fn": (CURVATURE_MARGINAL_LOG_LIKELIHOOD, marginal_log_likelihood_fn),
    }
    missing = [key for key, (_, fn) in given.items() if fn is None]
    if default is None and missing:
        raise ValueError(f"missing functions without a default: {', '.join(missing)}")
    if default is not None and default not in CURVATURE_METHODS:
        raise KeyError(f"Unknown default curvature method: {default}.")
    resolved = [(table, table[default] if fn is None else fn) for table, fn in given.values()]
    for table, fn in resolved:
        table[name] = fn
'''),
])
