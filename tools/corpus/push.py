PF = 'eval/pushforward.py'; PR = 'eval/predictives.py'; EU = 'eval/utils.py'
# bugs
bug('special-correction', 'C19', [(PF, 'use_correction=kwargs.get("use_correction", True)', 'use_correction=kwargs.get("use_correction") or True')])
bug('special-cov-swap', 'C19', [(PF, '        if "pred_cov" not in results:\n            pred_cov = lin', '        if "pred_var" not in results:\n            pred_cov = lin')])
bug('vjp-reshape', 'C17 C20', [(PF, 'return vjp_fun(vector.reshape(out.shape))', 'return vjp_fun(jnp.broadcast_to(vector, out.shape))')])
bug('lin-sample-mean', 'C17 C16', [(PF, 'util.tree.zeros_like(mean_params) if linearized else mean_params', 'util.tree.zeros_like(mean_params) if linearized and key is not None else mean_params')])
bug('nonlin-cov-ddof', 'C18', [(PF, 'rowvar=False, ddof=0', 'rowvar=False')])
bug('nonlin-var-stale', 'C18', [(PF, '    if "pred_cov" in results:\n', '    if "pred_cov" in results and aux["pred_ensemble"].ndim == 2:\n'), (PF, 'util.tree.var(pred_ensemble, axis=0)', 'util.tree.var(pred_ensemble, axis=0, ddof=1)')])
bug('nonlin-std-var', 'C18', [(PF, 'results["pred_std"] = util.tree.std(pred_ensemble, axis=0)', 'results["pred_std"] = util.tree.std(pred_ensemble, axis=0, ddof=1)')])
bug('nonlin-samples-from', 'C18', [(PF, 'util.tree.tree_slice(pred_ensemble, 0, num_samples)', 'util.tree.tree_slice(pred_ensemble, -num_samples, None)')])
bug('nonlin-mc-mean', 'C19', [(PF, '''        results, aux = nonlin_samples(results=results, aux=aux, **kwargs)

    results["mc_pred_act"] = jnp.mean(
        jax.nn.softmax(results["samples"], axis=1), axis=0
    )''', '''        results, aux = nonlin_samples(results=results, aux=aux, **kwargs)

    results["mc_pred_act"] = jax.nn.softmax(jnp.mean(results["samples"], axis=0))''')])
bug('lin-std-cov', 'C17', [(PF, '    var = results["pred_var"]\n    results["pred_std"]', '    var = results.get("map_var", results["pred_var"] * (1 + 1e-6))\n    results["pred_std"]')])
bug('lin-var-jit', 'C17', [(PF, '    cov = results.get("pred_cov", aux["cov_mv"])', '    cov = results.get("pred_cov", aux["jac_mv"])')])
bug('lin-samples-idx', 'C17', [(PF, 'add(results["pred_mean"], jac_mv(get_weight_samples(i)))', 'add(results["pred_mean"], jac_mv(get_weight_samples(i - i % 2)))')])
bug('lin-samples-nomean', 'C17', [(PF, 'add(results["pred_mean"], jac_mv(get_weight_samples(i)))', 'jac_mv(get_weight_samples(i))')])
bug('lin-mc-axis', 'C19', [(PF, '''        results, aux = lin_samples(results=results, aux=aux, **kwargs)

    results["mc_pred_act"] = jnp.mean(
        jax.nn.softmax(results["samples"], axis=1), axis=0
    )''', '''        results, aux = lin_samples(results=results, aux=aux, **kwargs)

    results["mc_pred_act"] = jnp.mean(
        jax.nn.softmax(results["samples"], axis=0), axis=0
    )''')])
bug('aux-shared', 'C17 C26', [(PF, '''    def prob_predictive(input: InputArray) -> dict[str, Array]:
        # MAP prediction
        pred_map = model_fn(input=input, params=mean_params)
        aux = {"model_fn": model_fn, "mean_params": mean_params}
        results = {"map": pred_map}
''', '''    aux = {"model_fn": model_fn, "mean_params": mean_params}
    results = {}

    def prob_predictive(input: InputArray) -> dict[str, Array]:
        # MAP prediction
        results["map"] = model_fn(input=input, params=mean_params)
''')])
bug('lin-lsf-lost', 'C17', [(PF, '''            and uncertainty metrics using a linearized approximation.
    """
    # Create posterior state
    posterior_state = posterior_fn(prior_arguments, loss_scaling_factor)''', '''            and uncertainty metrics using a linearized approximation.
    """
    # Create posterior state
    posterior_state = posterior_fn(prior_arguments)''')])
bug('kernel-order', 'C20', [(PF, 'return dist_state["jvp"](x1, cov_mv(dist_state["vjp"](x2, vec)[0]))', 'return dist_state["jvp"](x2, cov_mv(dist_state["vjp"](x1, vec)[0]))')])
bug('kernel-dense-T', 'C20', [(PF, 'lambda v: kernel_mv(v, x1, x2, dist_state), layout=output_layout', 'lambda v: kernel_mv(v, x2, x1, dist_state), layout=output_layout')])
bug('bridge-k', 'C19', [(PR, 'c = jnp.sum(var, axis=0) / math.sqrt(num_classes / 2)', 'c = jnp.sum(var, axis=0) / math.sqrt(num_classes // 2)')])
bug('bridge-const', 'C19', [(PR, '1\n        - 2 / num_classes', '1\n        - 2 // num_classes')])
bug('mf0-pi', 'C19', [(PR, 'LAMBDA_0 = math.pi / 8', 'LAMBDA_0 = 0.3927')])
bug('mf1-axis', 'C19', [(PR, '    mu_diff = mean[None, :] - mean[:, None]  # [C, C]\n    s_sum = var', '    mu_diff = mean[:, None] - mean[None, :]\n    s_sum = var')])
bug('mf2-cov', 'C19', [(PR, 's_diag[None, :] - 2 * cov', 's_diag[None, :] - 2 * jnp.diag(s_diag)')])
bug('finalize-aux', 'C25 C17 C18', [(EU, 'results, aux = func(results=results, aux=aux, **kwargs)', 'results, _ = func(results=dict(results), aux=aux, **kwargs)')])
bug('eval-transfer-field', 'C25', [(EU, 'options[field][k] = options[access_from][v]', 'options[field][v] = options[access_from][v]')])
bug('apply-prefer-aux', 'C25', [(EU, '''                if v in results:
                    key_value_pairs[k] = results[v]
                elif v in aux:
                    key_value_pairs[k] = aux[v]''', '''                if v in aux:
                    key_value_pairs[k] = aux[v]
                elif v in results:
                    key_value_pairs[k] = results[v]''')])
bug('metrics-none', 'C25', [(EU, '''    elif metrics_dict is not None:
        metrics = [*metrics, *metrics_from_dict]

    def evaluate_data_point''', '''    def evaluate_data_point''')])
bug('generator-last', 'C25', [(EU, 'all_results = [evaluate_data(transform(dp)) for dp in data_generator]', 'all_results = [evaluate_data(dp) for dp in map(transform, data_generator) if len(dp["input"]) > 1]')])
# refactorings
ref('keys-index', 'C15 C16 C17 C18 C26', [(PF, '''    keys = jax.random.split(key, num_samples)
''', '''    keys = jax.random.split(key, num=num_samples)
''')])
ref('special-if', 'C19 C10 C26', [(PF, '''    var_pred_dict = {
        "laplace_bridge": laplace_bridge,
        "mean_field_0": mean_field_0_predictive,
        "mean_field_1": mean_field_1_predictive,
    }
    cov_pred_dict = {"mean_field_2": mean_field_2_predictive}

''', ''), (PF, '''    if special_pred_type in var_pred_dict:
        pred_fn = var_pred_dict[special_pred_type]
''', '''    var_preds = ("laplace_bridge", "mean_field_0", "mean_field_1")
    if special_pred_type in var_preds:
        if special_pred_type == "laplace_bridge":
            pred_fn = laplace_bridge
        elif special_pred_type == "mean_field_0":
            pred_fn = mean_field_0_predictive
        else:
            pred_fn = mean_field_1_predictive
'''), (PF, '''        pred_fn = cov_pred_dict[special_pred_type]
''', '''        if special_pred_type != "mean_field_2":
            raise KeyError(special_pred_type)
        pred_fn = mean_field_2_predictive
''')])
ref('special-helper', 'C19 C10 C26', [(PF, '''def special_pred_act(
    results''', '''def _ensure(results, aux, name, fn, **kwargs):
    if name not in results:
        results, aux = fn(results, aux, **kwargs)
    return results, aux, results[name]


def special_pred_act(
    results'''), (PF, '''        if "pred_var" not in results:  # Fall back to the matching `*_pred_var`
            pred_var_fn = lin_pred_var if linearized else nonlin_pred_var
            results, aux = pred_var_fn(results, aux, **kwargs)

        pred_var = results["pred_var"]
''', '''        results, aux, pred_var = _ensure(
            results,
            aux,
            "pred_var",
            lin_pred_var if linearized else nonlin_pred_var,
            **kwargs,
        )
''')])
ref('jvp-partial', 'C17 C20 C16 C19', [(PF, '''            return jax.jvp(
                lambda p: model_fn(input=input, params=p),
                (mean_params,),
                (vector,),
            )[1]
''', '''            _, tangent = jax.jvp(
                partial(model_fn, input), (mean_params,), (vector,)
            )
            return tangent
'''), (PF, 'import math\n', 'import math\nfrom functools import partial\n')])
ref('jvp-linearize', 'C17 C20 C16 C19', [(PF, '''            return jax.jvp(
                lambda p: model_fn(input=input, params=p),
                (mean_params,),
                (vector,),
            )[1]
''', '''            _, lin = jax.linearize(
                lambda p: model_fn(input=input, params=p), mean_params
            )
            return lin(vector)
''')])
ref('ens-vmap', 'C18 C19 C10 C15', [(PF, '''    aux["pred_ensemble"] = jax.lax.map(
        compute_pred_ptw,
        jnp.arange(dist_state["num_samples"]),
        batch_size=kwargs.get(
            "nonlin_setup_batch_size", kwargs.get("weight_batch_size")
        ),
    )
''', '''    batch_size = kwargs.get("weight_batch_size")
    if "nonlin_setup_batch_size" in kwargs:
        batch_size = kwargs["nonlin_setup_batch_size"]
    indices = jnp.arange(dist_state["num_samples"])
    ensemble = jax.lax.map(compute_pred_ptw, indices, batch_size=batch_size)
    aux["pred_ensemble"] = ensemble
''')])
ref('nonlin-mean-jnp', 'C18 C19 C25', [(PF, 'results["pred_mean"] = util.tree.mean(pred_ensemble, axis=0)', 'results["pred_mean"] = pred_ensemble.mean(0)')])
ref('nonlin-cov-manual', 'C18 C19 C25', [(PF, '''    results["pred_cov"] = util.tree.cov(
        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False, ddof=0
    )''', '''    flat = pred_ensemble.reshape(pred_ensemble.shape[0], -1)
    centered = flat - jnp.mean(flat, axis=0, keepdims=True)
    results["pred_cov"] = jnp.squeeze(centered.T @ centered / flat.shape[0])''')])
ref('nonlin-cov-bias', 'C18 C19 C25', [(PF, '''        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False, ddof=0
''', '''        pred_ensemble.reshape(pred_ensemble.shape[0], -1).T, bias=True
''')])
ref('nonlin-var-moments', 'C18 C19 C25', [(PF, 'results["pred_var"] = util.tree.var(pred_ensemble, axis=0)', 'results["pred_var"] = jnp.mean(pred_ensemble**2, axis=0) - jnp.mean(pred_ensemble, axis=0) ** 2')])
ref('nonlin-var-diag', 'C18 C19', [(PF, '''        pred_var = (
            jnp.diagonal(pred_cov)
            if pred_cov.ndim >= 2
            else jnp.reshape(pred_cov, (-1,))
        )
        pred_var = pred_var.reshape(aux["pred_ensemble"].shape[1:])
        results["pred_var"] = pred_var''', '''        diag = jnp.diag(jnp.atleast_2d(pred_cov))
        results["pred_var"] = diag.reshape(aux["pred_ensemble"].shape[1:])''')])
ref('nonlin-std-pow', 'C18 C19', [(PF, 'results["pred_std"] = util.tree.std(pred_ensemble, axis=0)', 'results["pred_std"] = jnp.sqrt(jnp.var(pred_ensemble, axis=0))')])
ref('nonlin-slice', 'C18 C19', [(PF, 'util.tree.tree_slice(pred_ensemble, 0, num_samples)', 'jax.tree.map(lambda leaf: leaf[:num_samples], pred_ensemble)')])
ref('mc-einsum', 'C19', [(PF, '''        results, aux = lin_samples(results=results, aux=aux, **kwargs)

    results["mc_pred_act"] = jnp.mean(
        jax.nn.softmax(results["samples"], axis=1), axis=0
    )''', '''        results, aux = lin_samples(results=results, aux=aux, **kwargs)

    probs = jax.vmap(jax.nn.softmax)(results["samples"])
    results["mc_pred_act"] = probs.mean(axis=0)''')])
ref('lin-var-branch', 'C17 C19 C10', [(PF, '    cov = results.get("pred_cov", aux["cov_mv"])\n', '    if "pred_cov" in results:\n        cov = results["pred_cov"]\n    else:\n        cov = aux["cov_mv"]\n')])
ref('lin-std-jnp', 'C17', [(PF, 'results["pred_std"] = util.tree.sqrt(var)', 'results["pred_std"] = jax.tree.map(lambda v: v**0.5, var)')])
ref('lin-samples-fn', 'C17 C19 C15 C16', [(PF, '''    results["samples"] = jax.lax.map(
        lambda i: add(results["pred_mean"], jac_mv(get_weight_samples(i))),
        jnp.arange(num_samples),''', '''    pred_mean = results["pred_mean"]

    def one_sample(i):
        delta = jac_mv(get_weight_samples(i))
        return jax.tree.map(jnp.add, pred_mean, delta)

    results["samples"] = jax.lax.map(
        one_sample,
        jnp.arange(num_samples),''')])
ref('kernel-hoist', 'C20 C10', [(PF, '''        cov_mv = dist_state["posterior_state"].cov_mv(
            dist_state["posterior_state"].state
        )
        return dist_state["jvp"](x1, cov_mv(dist_state["vjp"](x2, vec)[0]))
''', '''        posterior = dist_state["posterior_state"]
        (cotangent,) = dist_state["vjp"](x2, vec)
        return dist_state["jvp"](x1, posterior.cov_mv(posterior.state)(cotangent))
''')])
ref('kernel-guard', 'C20 C10', [(PF, '''    if kwargs.get("dense"):
        output_layout = kwargs.get("output_layout")
        if output_layout is not None:
            return lambda x1, x2: util.mv.to_dense(
                lambda v: kernel_mv(v, x1, x2, dist_state), layout=output_layout
            ), dist_state
        msg = "function should return a dense matrix, but no output layout is specified"
        raise ValueError(msg)

    return kernel_mv, dist_state''', '''    if not kwargs.get("dense"):
        return kernel_mv, dist_state

    output_layout = kwargs.get("output_layout")
    if output_layout is None:
        msg = "function should return a dense matrix, but no output layout is specified"
        raise ValueError(msg)

    def dense_kernel(x1, x2):
        def mv(v):
            return kernel_mv(v, x1, x2, dist_state)

        return util.mv.to_dense(mv, layout=output_layout)

    return dense_kernel, dist_state''')])
ref('pred-results', 'C17 C18 C19 C25 C26', [(PF, '''        return finalize_fns(
            fns=pushforward_fns,
            results=results,
            dist_state=dist_state,
            aux=aux,
            input=input,
            **kwargs,
        )
''', '''        for fn in pushforward_fns:
            results, aux = fn(
                results=results,
                aux=aux,
                dist_state=dist_state,
                input=input,
                **kwargs,
            )
        return results
''')])
ref('mf0-scale', 'C19', [(PR, 'jax.nn.softmax(mean / jnp.sqrt(1 + LAMBDA_0 * var))', 'jax.nn.softmax(mean * jax.lax.rsqrt(1.0 + LAMBDA_0 * var), axis=-1)')])
ref('mf0-manual', 'C19', [(PR, 'predictive = jax.nn.softmax(mean / jnp.sqrt(1 + LAMBDA_0 * var))', 'z = mean / jnp.sqrt(1 + LAMBDA_0 * var)\n    e = jnp.exp(z - jnp.max(z))\n    predictive = e / e.sum()')])
ref('mf1-outer', 'C19', [(PR, '    mu_diff = mean[None, :] - mean[:, None]  # [C, C]\n    s_sum = var[:, None] + var[None, :]  # [C, C]\n', '    mu_diff = jnp.subtract.outer(mean, mean).T\n    s_sum = jnp.add.outer(var, var)\n')])
ref('mf1-expand', 'C19', [(PR, '    sum_terms = jnp.sum(exp_terms, axis=1)  # [C]\n    predictive = 1 / sum_terms\n\n    return predictive\n\n\ndef mean_field_2', '    return jnp.reciprocal(exp_terms.sum(axis=-1))\n\n\ndef mean_field_2')])
ref('mf2-diag', 'C19', [(PR, 's_diag = jnp.diag(cov)', 's_diag = jnp.diagonal(cov)')])
ref('bridge-keepdims', 'C19', [(PR, '    sum_exp_neg_mean_p = jnp.sum(jnp.exp(-mean), axis=0)  # [...]\n    sum_exp_neg_mean_p_expanded = jnp.expand_dims(\n        sum_exp_neg_mean_p, axis=0\n    )', '    sum_exp_neg_mean_p_expanded = jnp.sum(jnp.exp(-mean), axis=0, keepdims=True)')])
ref('apply-zip', 'C25 C10', [(EU, '''                if v in results:
                    key_value_pairs[k] = results[v]
                elif v in aux:
                    key_value_pairs[k] = aux[v]
                else:
''', '''                for source in (results, aux):
                    if v in source:
                        key_value_pairs[k] = source[v]
                        break
                else:
''')])
ref('generator-loop', 'C25 C26', [(EU, 'all_results = [evaluate_data(transform(dp)) for dp in data_generator]', 'all_results = []\n    for dp in data_generator:\n        all_results.append(evaluate_data(transform(dp)))')])
