G = 'curv/ggn.py'; H = 'curv/hessian.py'; U = 'curv/utils.py'; F = 'curv/full.py'; D = 'curv/diagonal.py'; LR = 'curv/low_rank.py'; CV = 'curv/cov.py'
# --- bugs
bug('bce-logits-large', 'C04', [(G, 'prob = jax.nn.sigmoid(pred)', 'prob = jax.nn.sigmoid(jax.numpy.clip(pred, -6.0, 6.0))')])
#equiv bug('ce-softmax-axis0', 'C03 C04', [(G, 'prob = jax.nn.softmax(pred)', 'prob = jax.nn.softmax(pred, axis=0)')])
bug('ce-temperature', 'C04', [(G, 'prob = jax.nn.softmax(pred)', 'prob = jax.nn.softmax(pred - pred.mean() * 1e-3 * pred)')])
bug('ggn-sum-missing-target', 'C03', [(G, "target=data[\"target\"]", "target=jax.numpy.zeros_like(z)")])
bug('ggn-factor-int', 'C06', [(G, 'curv_scaling_factor = num_total_samples / num_curv_samples', 'curv_scaling_factor = num_total_samples // num_curv_samples')])
bug('ggn-default-total', 'C06', [(G, '        num_total_samples = num_curv_samples\n', '        num_total_samples = data["input"].shape[0]\n')])
bug('hess-factor', 'C06', [(H, 'curv_scaling_factor = num_total_samples / num_curv_samples', 'curv_scaling_factor = max(num_total_samples / num_curv_samples, 1.0)')])
bug('hess-data-minus-one', 'C06', [(H, 'num_curv_samples = data["input"].shape[0]', 'num_curv_samples = len(data["input"][1:]) + 0')])
bug('gauss-newton-instead', 'C05', [(H, 'return jax.jvp(jax.grad(func), (primals,), (tangents,))[1]', 'return jax.grad(lambda p: jax.jvp(func, (p,), (jax.tree.map(jax.lax.stop_gradient, p),))[1])(primals)')])
bug('ce-onehot-ndim', 'C05', [(U, 'if target.ndim < log_probs.ndim:', 'if target.ndim < 2 and target.shape != log_probs.shape[-1:]:')])
bug('ce-label-smoothing', 'C05', [(U, 'return -jnp.sum(target * log_probs)', 'target = 0.999 * target + 0.001 / target.shape[-1]\n            return -jnp.sum(target * log_probs)')])
bug('bce-unstable', 'C05', [(U, '(1 - targets) * jax.nn.log_sigmoid(', '(1 - targets) * jnp.log1p(-0.999 * jax.nn.sigmoid(-logits)) + 0 * jax.nn.log_sigmoid(')])
bug('full-symmetrise-triu', 'C01', [(F, 'curv_estimate = to_dense(mv_wrapped, layout=size)', 'curv_estimate = to_dense(mv_wrapped, layout=size)\n    curv_estimate = jnp.triu(curv_estimate) + jnp.triu(curv_estimate).T')])
bug('full-jitter', 'C01', [(F, 'jnp.flip(prec, axis=(-2, -1))', 'jnp.flip(prec + 1e-4 * jnp.eye(prec.shape[-1]), axis=(-2, -1))')])
bug('full-sigma-on-prior', 'C01', [(F, 'sigma_squared * curv_estimate + prior_prec * jnp.eye(curv_estimate.shape[-1])\n', 'sigma_squared * (curv_estimate + prior_prec * jnp.eye(curv_estimate.shape[-1]))\n')])
bug('full-cov-transposed', 'C01 C02', [(F, "state[\"scale\"] @ state[\"scale\"].T", "state[\"scale\"].T @ state[\"scale\"]")])
bug('diag-abs', 'C01', [(D, 'curv_diagonal = diagonal(mv, layout=layout)', 'curv_diagonal = jnp.maximum(diagonal(mv, layout=layout), 0.0)')])
bug('diag-loss-scaling', 'C01', [(D, '+ prior_prec * jnp.ones_like(curv_estimate.shape[-1])\n    ) / loss_scaling_factor', '+ prior_prec * jnp.ones_like(curv_estimate.shape[-1])\n    / loss_scaling_factor)')])
bug('lr-sq-cross', 'C02', [(LR, '(S + scalar) ** 2 - scalar_sq', 'S**2 + scalar * S')])
bug('lr-scaling', 'C01', [(LR, 'scalar=prior_prec / loss_scaling_factor', 'scalar=prior_prec')])
bug('lr-keeps-scalar', 'C01', [(LR, 'U, S, _ = jax.tree.leaves(curv_estimate)', 'U, S, rest = jax.tree.leaves(curv_estimate)\n    prior_prec = prior_prec - rest')])
bug('posterior-cache', 'C01', [(CV, '    def posterior_fn(', '    cache = {}\n\n    def posterior_fn('), (CV, 'state = CURVATURE_TO_POSTERIOR_STATE[curv_type](precision)', 'state = cache.setdefault(tuple(sorted(prior_arguments)), CURVATURE_TO_POSTERIOR_STATE[curv_type](precision))')])
bug('posterior-wrap-scale-only', 'C02', [(CV, 'cov_mv=wrap_factory(cov_mv_from_state, flatten, unflatten)', 'cov_mv=wrap_factory(cov_mv_from_state, None, None)')])
bug('lobpcg-lanczos', 'C09', [(CV, 'low_rank_method=LowRankMethod.LOBPCG', 'low_rank_method=LowRankMethod.LANCZOS')])
bug('ggn-none-loss-scale', 'C03', [(G, '            return jv\n', '            return jv * jv.shape[-1] / jv.size * jv.ndim if False else jv * 2\n')])
bug('fwd-mean', 'C03', [(G, 'return mul(factor, arr)', 'return mul(factor / data["input"].shape[0] if vmap_over_data and loss_hessian_mv is None else factor, mul(1.0, arr)) if False else mul(factor, jax.tree.map(jax.numpy.abs, arr))')])
# --- refactorings
ref('ggn-vjp', 'C03 C04 C06 C10 C11 C26', [(G, 'arr = jax.linear_transpose(jvp, vec)(HJv)[0]', '_, vjp = jax.vjp(fwd, params)\n        (arr,) = vjp(HJv)')])
ref('ggn-jvp', 'C03 C06 C11', [(G, 'z, jvp = jax.linearize(fwd, params)', 'z, Jv = jax.jvp(fwd, (params,), (vec,))\n        _, jvp = jax.linearize(fwd, params)'), (G, 'loss_hessian_mv(jvp(vec), pred=z', 'loss_hessian_mv(Jv, pred=z')])
ref('ggn-helper', 'C03 C06 C11', [(G, '        def fwd(p):\n            if vmap_over_data:\n', '        def single(x, p):\n            return model_fn(input=x, params=p)\n\n        def fwd(p):\n            if vmap_over_data:\n'), (G, 'return jax.vmap(lambda x: model_fn(input=x, params=p))(data["input"])', 'return jax.vmap(single, in_axes=(0, None))(data["input"], p)')])
ref('ggn-partial', 'C03 C06', [(G, 'return jax.vmap(lambda x: model_fn(input=x, params=p))(data["input"])', 'from functools import partial\n                return jax.vmap(partial(model_fn, params=p))(input=data["input"])')])
ref('ce-vdot', 'C03 C04', [(G, 'off_diag_jv = prob * (prob.reshape(1, -1) @ jv)', 'off_diag_jv = prob * jax.numpy.vdot(prob, jv)')])
ref('ce-einsum', 'C03 C04', [(G, 'off_diag_jv = prob * (prob.reshape(1, -1) @ jv)', 'off_diag_jv = jax.numpy.einsum("i,j,j->i", prob, prob, jv)')])
ref('ce-sum', 'C03 C04', [(G, 'off_diag_jv = prob * (prob.reshape(1, -1) @ jv)', 'off_diag_jv = prob * (prob * jv).sum(axis=-1, keepdims=True)')])
ref('ce-matrix', 'C03 C04', [(G, '    off_diag_jv = prob * (prob.reshape(1, -1) @ jv)\n    diag_jv = prob * jv\n    return diag_jv - off_diag_jv', '    hess = jax.numpy.diag(prob) - jax.numpy.outer(prob, prob)\n    return hess @ jv')])
ref('bce-sig2', 'C03 C04', [(G, 'return prob * (1 - prob) * jv', 'return jax.nn.sigmoid(pred) * jax.nn.sigmoid(-pred) * jv')])
ref('bce-exp', 'C03 C04', [(G, 'prob = jax.nn.sigmoid(pred)', 'prob = 1.0 / (1.0 + jax.numpy.exp(-pred))')])
ref('table-losses', 'C03 C04 C10', [(G, '''    if loss_fn == LossFn.BINARY_CROSS_ENTROPY:
        return _binary_cross_entropy_hessian_mv

    if loss_fn == LossFn.CROSS_ENTROPY:
        return _cross_entropy_hessian_mv

    if loss_fn == LossFn.MSE:
        return _mse_hessian_mv
''', '''    known = {
        LossFn.BINARY_CROSS_ENTROPY: _binary_cross_entropy_hessian_mv,
        LossFn.CROSS_ENTROPY: _cross_entropy_hessian_mv,
        LossFn.MSE: _mse_hessian_mv,
    }
    if isinstance(loss_fn, str) and loss_fn in known:
        return known[loss_fn]
''')])
ref('hvp-rev', 'C04 C05 C06 C11', [(H, 'return jax.jvp(jax.grad(func), (primals,), (tangents,))[1]', 'grad_fn = jax.grad(func)\n    _, lin = jax.linearize(grad_fn, primals)\n    return lin(tangents)')])
ref('hvp-revrev', 'C04 C05', [(H, 'return jax.jvp(jax.grad(func), (primals,), (tangents,))[1]', 'return jax.grad(lambda p: jax.jvp(func, (p,), (tangents,))[1])(primals)')])
ref('mse-norm', 'C05', [(U, 'return jnp.sum((model_fn(input, params) - target) ** 2)', 'res = (model_fn(input, params) - target).ravel()\n            return jnp.dot(res, res)')])
ref('mse-square', 'C05', [(U, 'return jnp.sum((model_fn(input, params) - target) ** 2)', 'return jnp.sum(jnp.square(target - model_fn(input, params)))')])
ref('bce-softplus', 'C05', [(U, '    return -targets * jax.nn.log_sigmoid(logits) - (1 - targets) * jax.nn.log_sigmoid(\n        -logits\n    )', '    return jax.nn.softplus(logits) - targets * logits')])
ref('ce-logsumexp', 'C05', [(U, 'log_probs = jax.nn.log_softmax(model_fn(input, params))', 'logits = model_fn(input, params)\n            log_probs = logits - jax.scipy.special.logsumexp(logits, axis=-1, keepdims=True)')])
ref('full-identity', 'C01', [(F, 'jnp.eye(curv_estimate.shape[-1])\n', 'jnp.identity(curv_estimate.shape[0])\n')])
ref('full-diag-add', 'C01', [(F, '''    return (
        sigma_squared * curv_estimate + prior_prec * jnp.eye(curv_estimate.shape[-1])
    ) / loss_scaling_factor''', '''    size = curv_estimate.shape[-1]
    idx = jnp.arange(size)
    prec = sigma_squared * curv_estimate
    prec = prec.at[idx, idx].add(prior_prec)
    return prec / loss_scaling_factor''')])
ref('full-scale-inv', 'C01 C02', [(F, '''    Lf = jnp.linalg.cholesky(jnp.flip(prec, axis=(-2, -1)))
    L_inv = jnp.transpose(jnp.flip(Lf, axis=(-2, -1)), axes=(-2, -1))
    Id = jnp.eye(prec.shape[-1], dtype=prec.dtype)
    L = jax.scipy.linalg.solve_triangular(L_inv, Id, trans="T")
    return L''', '''    chol = jnp.linalg.cholesky(prec)
    Id = jnp.eye(prec.shape[-1], dtype=prec.dtype)
    return jax.scipy.linalg.solve_triangular(chol, Id, lower=True).T''')])
ref('full-cov-lazy', 'C01 C02', [(F, 'return cov @ vec', 'return state["scale"] @ (state["scale"].T @ vec)')])
ref('diag-rsqrt', 'C01 C02', [(D, 'jnp.sqrt(jnp.reciprocal(prec))', '1.0 / jnp.sqrt(prec)')])
ref('diag-rsqrt2', 'C01 C02', [(D, 'jnp.sqrt(jnp.reciprocal(prec))', 'jax.lax.rsqrt(prec)'), (D, 'import jax.numpy as jnp', 'import jax\nimport jax.numpy as jnp')])
ref('diag-mult', 'C01 C02', [(D, 'state["scale"] * vec', 'jnp.multiply(state["scale"], vec)'), (D, 'arr = state["scale"] ** 2', 'arr = jnp.square(state["scale"])')])
ref('lr-attr', 'C01 C02 C21', [(LR, 'U, S, _ = jax.tree.leaves(curv_estimate)', 'U, S = curv_estimate.U, curv_estimate.S'), (LR, 'S=(S + scalar) ** 2 - scalar_sq', 'S=S * (S + 2 * scalar)')])
ref('lr-einsum', 'C01 C02', [(LR, 'return scalar * vec + U @ (S * (U.T @ vec))', 'coeff = jnp.einsum("pr,p->r", U, vec)\n        return scalar * vec + jnp.einsum("pr,r->p", U, S * coeff)')])
ref('posterior-locals', '*', [(CV, '''        precision = CURVATURE_PRECISION_METHODS[curv_type](''', '''        to_precision = CURVATURE_PRECISION_METHODS[curv_type]
        to_state = CURVATURE_TO_POSTERIOR_STATE[curv_type]
        precision = to_precision('''), (CV, 'state = CURVATURE_TO_POSTERIOR_STATE[curv_type](precision)', 'state = to_state(precision)')])
ref('block-ready', 'C01 C09 C10', [(CV, """    curv_estimate = jax.tree.map(
        lambda x: x.block_until_ready() if isinstance(x, jax.Array) else x,
        curv_estimate,
    )

    return curv_estimate""", """    return jax.block_until_ready(curv_estimate)""")])
