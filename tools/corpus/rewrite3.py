"""Whole functions rewritten in other styles (pushforward, predictives)."""
PU = 'eval/pushforward.py'; PR = 'eval/predictives.py'
ref('rw-samples', '*', [
 (PU, '@set_get_weight_sample', '''
def set_get_weight_sample(key, mean_params, scale_mv, num_samples, **kwargs):
    options = dict(kwargs)
    precompute = options.pop("precompute", None)
    if "set_get_weight_sample_precompute" in options:
        precompute = options.pop("set_get_weight_sample_precompute")
    base_key = jax.random.key(0) if key is None else key
    keys = jax.random.split(base_key, num_samples)

    def draw(idx):
        eps = util.tree.randn_like(keys[idx], mean_params)
        return add(mean_params, scale_mv(eps))

    return precompute_list(draw, jnp.arange(num_samples), precompute=precompute, **options)
'''),
 (PU, '@get_dist_state', '''
def get_dist_state(mean_params, model_fn, posterior_state, *, linearized=False, num_samples=0, key=None, **kwargs):
    state = {"posterior_state": posterior_state, "num_samples": num_samples}

    def at(input):
        return lambda p: model_fn(input=input, params=p)

    if linearized:
        def pf_jvp(input, vector):
            _, tangent = jax.jvp(at(input), (mean_params,), (vector,))
            return tangent

        def pf_vjp(input, vector):
            primal, pullback = jax.vjp(at(input), mean_params)
            return pullback(jnp.reshape(vector, primal.shape))

        state |= {"vjp": pf_vjp, "jvp": pf_jvp}

    if num_samples <= 0:
        return state
    centre = mean_params
    if linearized:
        centre = jax.tree.map(jnp.zeros_like, mean_params)
    scale_mv = posterior_state.scale_mv(posterior_state.state)
    state["get_weight_samples"] = set_get_weight_sample(key, centre, scale_mv, num_samples, **kwargs)
    return state
'''),
 (PU, '@lin_samples', '''
def lin_samples(results, aux, dist_state, **kwargs):
    if "pred_mean" not in results:
        results, aux = lin_pred_mean(results, aux, **kwargs)
    mean = results["pred_mean"]
    batch_size = kwargs.get("lin_samples_batch_size", kwargs.get("weight_batch_size"))

    def one(i):
        shift = aux["jac_mv"](dist_state["get_weight_samples"](i))
        return mean + shift

    indices = jnp.arange(dist_state["num_samples"])
    results["samples"] = jax.lax.map(one, indices, batch_size=batch_size)
    return results, aux
'''),
])
ref('rw-special', '*', [
 (PU, '@special_pred_act', '''
def special_pred_act(results, aux, linearized, **kwargs):
    if linearized:
        mean_fn, var_fn, cov_fn = lin_pred_mean, lin_pred_var, lin_pred_cov
    else:
        mean_fn, var_fn, cov_fn = nonlin_pred_mean, nonlin_pred_var, nonlin_pred_cov
    kind = kwargs.get("special_pred_type", "mean_field_0")
    if "pred_mean" not in results:
        results, aux = mean_fn(results, aux, **kwargs)
    if kind == "mean_field_2":
        if "pred_cov" not in results:
            results, aux = cov_fn(results, aux)
        out = mean_field_2_predictive(results["pred_mean"], results["pred_cov"])
    else:
        if "pred_var" not in results:
            results, aux = var_fn(results, aux, **kwargs)
        predictive = {
            "laplace_bridge": laplace_bridge,
            "mean_field_0": mean_field_0_predictive,
            "mean_field_1": mean_field_1_predictive,
        }[kind]
        out = predictive(
            results["pred_mean"], results["pred_var"], use_correction=kwargs.get("use_correction", True)
        )
    results["special_pred_act"] = out
    return results, aux
'''),
 (PU, '@nonlin_setup', '''
def nonlin_setup(results, aux, input, dist_state, **kwargs):
    model_fn = aux["model_fn"]
    sample = dist_state["get_weight_samples"]
    if "nonlin_setup_batch_size" in kwargs:
        batch_size = kwargs["nonlin_setup_batch_size"]
    else:
        batch_size = kwargs.get("weight_batch_size")
    aux["pred_ensemble"] = jax.lax.map(
        lambda idx: model_fn(input=input, params=sample(idx)),
        jnp.arange(dist_state["num_samples"]),
        batch_size=batch_size,
    )
    return results, aux
'''),
 (PU, '@nonlin_pred_mean', '''
def nonlin_pred_mean(results, aux, **kwargs):
    ensemble = aux["pred_ensemble"]
    results.update(pred_mean=ensemble.sum(axis=0) / ensemble.shape[0])
    return results, aux
'''),
 (PU, '@nonlin_pred_cov', '''
def nonlin_pred_cov(results, aux, **kwargs):
    ensemble = aux["pred_ensemble"]
    flat = ensemble.reshape(ensemble.shape[0], -1)
    centred = flat - flat.mean(axis=0, keepdims=True)
    cov = centred.T @ centred / flat.shape[0]
    results["pred_cov"] = jnp.squeeze(cov)
    return results, aux
'''),
 (PU, '@nonlin_pred_var', '''
def nonlin_pred_var(results, aux, **kwargs):
    ensemble = aux["pred_ensemble"]
    cov = results.get("pred_cov")
    if cov is None:
        mean = jnp.mean(ensemble, axis=0)
        results["pred_var"] = jnp.mean(jnp.square(ensemble - mean), axis=0)
        return results, aux
    diag = jnp.diag(jnp.atleast_2d(cov))
    results["pred_var"] = diag.reshape(ensemble.shape[1:])
    return results, aux
'''),
 (PU, '@nonlin_pred_std', '''
def nonlin_pred_std(results, aux, **kwargs):
    if "pred_var" in results:
        variance = results["pred_var"]
    else:
        variance = jnp.var(aux["pred_ensemble"], axis=0)
    results["pred_std"] = jnp.sqrt(variance)
    return results, aux
'''),
 (PU, '@nonlin_samples', '''
def nonlin_samples(results, aux, num_samples=5, **kwargs):
    results["samples"] = jax.tree.map(lambda x: x[:num_samples], aux["pred_ensemble"])
    return results, aux
'''),
])
ref('rw-lin', '*', [
 (PU, '@set_output_mv', '''
def set_output_mv(posterior_state, input, jvp, vjp):
    cov_mv = posterior_state.cov_mv(posterior_state.state)

    def output_cov_mv(vec):
        (pulled,) = vjp(input, vec)
        spread = cov_mv(pulled)
        return jvp(input, spread)

    return dict(cov_mv=output_cov_mv, jac_mv=lambda vec: jvp(input, vec))
'''),
 (PU, '@lin_setup', '''
def lin_setup(results, aux, input, dist_state, **kwargs):
    checks = (
        ("posterior_state", Posterior, "posterior state is not a Posterior type"),
        ("jvp", Callable, "JVP is not a JVPType"),
        ("vjp", Callable, "VJP is not a VJPType"),
    )
    for name, kind, msg in checks:
        if not isinstance(dist_state[name], kind):
            raise TypeError(msg)
    aux.update(
        set_output_mv(dist_state["posterior_state"], input, dist_state["jvp"], dist_state["vjp"])
    )
    return results, aux
'''),
 (PU, '@lin_pred_var', '''
def lin_pred_var(results, aux, **kwargs):
    if "pred_mean" not in results:
        results, aux = lin_pred_mean(results, aux, **kwargs)
    shape = results["pred_mean"].shape
    operator = results["pred_cov"] if "pred_cov" in results else aux["cov_mv"]
    diag = util.mv.diagonal(
        operator, layout=math.prod(shape), mv_jittable=kwargs.get("mv_jittable", True)
    )
    results["pred_var"] = jnp.reshape(diag, shape)
    return results, aux
'''),
 (PU, '@lin_pred_std', '''
def lin_pred_std(results, aux, **kwargs):
    if results.get("pred_var") is None:
        results, aux = lin_pred_var(results, aux, **kwargs)
    results["pred_std"] = jax.tree.map(lambda v: v**0.5, results["pred_var"])
    return results, aux
'''),
 (PU, '@lin_pred_cov', '''
def lin_pred_cov(results, aux, **kwargs):
    if "pred_mean" not in results:
        results, aux = lin_pred_mean(results, aux, **kwargs)
    results["pred_cov"] = util.mv.to_dense(aux["cov_mv"], results["pred_mean"])
    return results, aux
'''),
 (PU, '@lin_mc_pred_act', '''
def lin_mc_pred_act(results, aux, **kwargs):
    if "samples" not in results:
        results, aux = lin_samples(results=results, aux=aux, **kwargs)
    probs = jax.vmap(jax.nn.softmax)(results["samples"])
    results["mc_pred_act"] = probs.mean(0)
    return results, aux
'''),
])
ref('rw-set', '*', [
 (PU, '@set_prob_predictive', '''
def set_prob_predictive(model_fn, mean_params, dist_state, pushforward_fns, **kwargs):
    def prob_predictive(input):
        results = {"map": model_fn(input=input, params=mean_params)}
        aux = dict(model_fn=model_fn, mean_params=mean_params)
        for fn in pushforward_fns:
            results, aux = fn(results=results, aux=aux, dist_state=dist_state, input=input, **kwargs)
        return results

    return prob_predictive
'''),
 (PU, '@set_lin_pushforward', '''
def set_lin_pushforward(model_fn, mean_params, posterior_fn, prior_arguments, loss_scaling_factor=1.0, pushforward_fns=DEFAULT_LIN_FINALIZE_FNS, **kwargs):
    posterior = posterior_fn(prior_arguments, loss_scaling_factor)
    return set_prob_predictive(
        model_fn,
        mean_params,
        get_dist_state(mean_params, model_fn, posterior, linearized=True, **kwargs),
        pushforward_fns,
        **kwargs,
    )
'''),
 (PU, '@set_posterior_gp_kernel', '''
def set_posterior_gp_kernel(model_fn, mean, posterior_fn, prior_arguments, loss_scaling_factor=1.0, **kwargs):
    dense = bool(kwargs.get("dense"))
    output_layout = kwargs.get("output_layout")
    if dense and output_layout is None:
        raise ValueError("function should return a dense matrix, but no output layout is specified")
    posterior = posterior_fn(prior_arguments, loss_scaling_factor)
    dist_state = get_dist_state(mean, model_fn, posterior, linearized=True, num_samples=0, **kwargs)

    def kernel_mv(vec, x1, x2, dist_state):
        post = dist_state["posterior_state"]
        weights = dist_state["vjp"](x2, vec)[0]
        return dist_state["jvp"](x1, post.cov_mv(post.state)(weights))

    if not dense:
        return kernel_mv, dist_state

    def dense_kernel(x1, x2):
        def mv(v):
            return kernel_mv(v, x1, x2, dist_state)

        return util.mv.to_dense(mv, layout=output_layout)

    return dense_kernel, dist_state
'''),
 (PR, '@laplace_bridge', '''
def laplace_bridge(mean, var, *, use_correction):
    n = mean.shape[0]
    if use_correction:
        c = var.sum(axis=0, keepdims=True) / math.sqrt(n / 2)
        mean, var = mean / jnp.sqrt(c), var / c
    inner = jnp.exp(mean) * jnp.exp(-mean).sum(axis=0, keepdims=True)
    alpha = (1.0 - 2.0 / n + inner / (n * n)) / var
    return dirichlet_predictive(alpha)
'''),
 (PR, '@dirichlet_predictive', '''
def dirichlet_predictive(dirichlet_params):
    return dirichlet_params / dirichlet_params.sum()
'''),
 (PR, '@mean_field_0_predictive', '''
def mean_field_0_predictive(mean, var, **kwargs):
    kappa = jax.lax.rsqrt(1.0 + math.pi * var / 8.0)
    return jax.nn.softmax(kappa * mean, axis=-1)
'''),
 (PR, '@mean_field_1_predictive', '''
def mean_field_1_predictive(mean, var, **kwargs):
    def prob(i):
        z = (mean - mean[i]) / jnp.sqrt(1 + LAMBDA_0 * (var + var[i]))
        return 1.0 / jnp.sum(jnp.exp(z))

    return jax.vmap(prob)(jnp.arange(mean.shape[0]))
'''),
 (PR, '@mean_field_2_predictive', '''
def mean_field_2_predictive(mean, cov):
    diff = jnp.subtract.outer(mean, mean).T
    diag = jnp.diagonal(cov)
    spread = jnp.add.outer(diag, diag) - cov - cov.T
    terms = jnp.exp(diff / jnp.sqrt(1 + LAMBDA_0 * spread))
    return 1 / terms.sum(axis=1)
'''),
])
