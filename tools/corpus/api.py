A = 'api.py'; RG = 'register.py'; EN = 'enums.py'; UT = 'eval/utils.py'; LO = 'util/loader.py'
# bugs
bug('transform-list3', 'C23 C25 C10', [(A, 'if len(batch) != 2:', 'if len(batch) < 2:')])
bug('transform-or', 'C25 C23 C10 C03', [(A, 'if "input" not in batch or "target" not in batch:', 'if "input" not in batch and "target" not in batch:')])
bug('single-list', 'C11 C03 C06', [(A, 'not isinstance(data, (tuple, dict, list))', 'not isinstance(data, (tuple, dict))')])
bug('loader-reduce', 'C11', [(A, '{"reduce": reduce_add, **loader_kwargs}', '{**loader_kwargs}')])
bug('enum-lower', 'C10', [(A, 'enum_cls(value.lower())', 'enum_cls(value)')])
bug('enum-strip', 'C10', [(A, 'enum_cls(value.lower())', 'enum_cls(value.lower().strip())')])
bug('enum-default', 'C10', [(A, '        if str_default:\n            return cast("StrEnum", value)\n        raise', '        return cast("StrEnum", value)')])
bug('predact-order', 'C10 C19', [(A, '''    if "mc_pred_act" in results:
        results["pred_act"] = results["mc_pred_act"]
    if "special_pred_act" in results:
        results["pred_act"] = results["special_pred_act"]''', '''    if "special_pred_act" in results:
        results["pred_act"] = results["special_pred_act"]
    if "mc_pred_act" in results:
        results["pred_act"] = results["pred_mean"]''')])
bug('setup-append', 'C10', [(A, 'pushforward_fns = [] if pushforward_fns is None else pushforward_fns', 'pushforward_fns = [] if pushforward_fns is None else pushforward_fns\n    extra = len(pushforward_fns) == 1\n    pushforward_fns = [] if extra else pushforward_fns')])
bug('special-type', 'C10 C19', [(A, 'special_pred_type=predictive_type,', 'special_pred_type=Predictive.MEAN_FIELD_1 if predictive_type is Predictive.MEAN_FIELD_2 else predictive_type,')])
bug('nonlin-special', 'C10', [(A, '''            elif predictive_type in _SPECIAL_PREDICTIVES:
                msg = (
                    f"{predictive_type.value} not supported for non-linear pushforward."
                )
                raise ValueError(msg)''', '''            elif predictive_type in _SPECIAL_PREDICTIVES:
                logger.debug("not supported")''')])
bug('nll-target', 'C23', [(A, 'target = jax.nn.one_hot(target, num_classes=pred_mean.shape[-1])\n    return nll_gaussian', 'target = jax.nn.one_hot(target, num_classes=pred_mean.shape[0])\n    return nll_gaussian')])
bug('obj-metric', 'C23', [(A, 'metric=chi_squared_zero', 'metric=nll_gaussian')])
bug('ece-bins', 'C23', [(A, 'num_bins=15', 'num_bins=10')])
bug('ece-pred', 'C23', [(A, 'correct = correctness(map, target) * 1', 'correct = correctness(pred_act, target) * 1')])
bug('mll-vmap', 'C23', [(A, '            vmap_over_data=vmap_over_data,\n        )\n    )', '        )\n    )')])
bug('mll-sign', 'C23', [(A, 'prior_args, batch: -marginal_log_likelihood(', 'prior_args, batch: marginal_log_likelihood(')])
bug('metrics-empty', 'C25 C10', [(A, '        if not metrics:\n            msg = "Metrics list must not be empty."\n            raise ValueError(msg)\n', '')])
bug('ggn-factor', 'C06 C03', [(A, '        factor=factor,\n        vmap_over_data=vmap_over_data,\n    )\n\n    mv_bound', '        vmap_over_data=vmap_over_data,\n    )\n\n    mv_bound')])
bug('laplace-factor', 'C06', [(A, 'float(num_total_samples) / float(num_curv_samples)', 'float(num_total_samples // num_curv_samples)')])
bug('laplace-vmap', 'C06', [(A, 'factor=factor,\n        vmap_over_data=vmap_over_data,\n    )\n    if curv', 'factor=factor,\n    )\n    if curv')])
bug('laplace-kwargs', 'C09 C10', [(A, 'layout=params,\n        **curv_kwargs,\n    )\n    logger.debug("Curv', 'layout=params,\n    )\n    logger.debug("Curv')])
bug('calib-key', 'C23 C15', [(A, 'key=sample_key,\n        num_samples=num_samples,\n    )\n\n    # Calibration objective', 'key=DEFAULT_KEY,\n        num_samples=num_samples,\n    )\n\n    # Calibration objective')])
bug('calib-patience', 'C23', [(A, 'calibration_kwargs.get("patience")', 'calibration_kwargs.get("patience", 5)')])
bug('calib-grid', 'C23', [(A, 'calibration_kwargs.get("grid_size", 50)', 'calibration_kwargs.get("grid_size") or 100')])
bug('calib-min', 'C23', [(A, 'calibration_kwargs.get("log_prior_prec_min", -3.0)', 'calibration_kwargs.get("log_prior_prec_min") or -3.0')])
bug('calib-max', 'C23', [(A, 'calibration_kwargs.get("log_prior_prec_max", 3.0)', 'abs(calibration_kwargs.get("log_prior_prec_max", 3.0))')])
bug('calib-data', 'C23', [(A, '        data = _validate_and_get_transform(data)(data)\n\n        logger', '        data = _validate_and_get_transform(data)(data) if isinstance(data, dict) else data\n\n        logger')])
bug('calib-isclass', 'C23', [(A, 'is_classification = predictive_type != Predictive.NONE', 'is_classification = predictive_type in _SPECIAL_PREDICTIVES')])
bug('eval-chain', 'C25', [(A, 'data = chain([first_batch], batches)', 'data = batches')])
bug('eval-chain2', 'C25', [(A, 'data = chain([first_batch], batches)', 'data = chain([first_batch], data)')])
bug('eval-reduce', 'C25', [(A, 'reduce=lambda batches: reduce(jnp.concatenate(batches))', 'reduce=lambda batches: jnp.concatenate([jnp.atleast_1d(reduce(b)) for b in batches])')])
bug('eval-samples', 'C25 C10 C15', [(A, '        key=sample_key,\n        num_samples=num_samples,\n    )\n\n    if predictive', '        key=sample_key,\n    )\n\n    if predictive')])
# refs
ref('transform-match', '*', [(A, '''    if isinstance(batch, (tuple, list)):
        if len(batch) != 2:
            msg = "Tuple batches must be `(input, target)` - received len != 2."
            raise ValueError(msg)
        return input_target_split

    if isinstance(batch, dict):
        if "input" not in batch or "target" not in batch:
            msg = "Dict batches must contain keys `'input'` & `'target'`."
            raise ValueError(msg)
        return identity
''', '''    match batch:
        case dict():
            if not {"input", "target"} <= batch.keys():
                msg = "Dict batches must contain keys `'input'` & `'target'`."
                raise ValueError(msg)
            return identity
        case tuple() | list():
            if len(batch) == 2:
                return input_target_split
            msg = "Tuple batches must be `(input, target)` - received len != 2."
            raise ValueError(msg)
''')])
ref('none-loop', 'C23 C10', [(A, 'return any(x is None for x in args)', 'for x in args:\n        if x is None:\n            return True\n    return False')])
ref('none-in', 'C23 C10', [(A, 'return any(x is None for x in args)', 'return not all(map(lambda x: x is not None, args))')])
ref('wrap-branches', 'C03 C06 C11 C10 C26', [(A, '''    transform = (
        _validate_and_get_transform(next(iter(data)) if _is_data_loader(data) else data)
        if transform is None
        else transform
    )
''', '''    if transform is None:
        sample = data
        if _is_data_loader(data):
            for sample in data:
                break
        transform = _validate_and_get_transform(sample)
''')])
ref('wrap-closure', 'C03 C06 C11 C10 C26', [(A, '        return partial(mv_fn, data=transform(data))\n', '        batch = transform(data)\n        return lambda vec: mv_fn(vec, batch)\n')])
ref('wrap-default', 'C03 C06 C11 C10 C26', [(A, '**{"reduce": reduce_add, **loader_kwargs}', '**({"reduce": reduce_add} | loader_kwargs)')])
ref('wrap-setdefault', 'C03 C06 C11 C10 C26', [(A, '''    return DataLoaderMV(
        mv=mv_fn,
        loader=data,
        transform=transform,
        **{"reduce": reduce_add, **loader_kwargs},
    )''', '''    options = dict(loader_kwargs)
    options.setdefault("reduce", reduce_add)
    return DataLoaderMV(mv_fn, data, transform, **options)''')])
ref('enum-members', 'C10 C23 C25', [(A, '''    try:
        return enum_cls(value.lower())
    except ValueError:
        if str_default:
            return cast("StrEnum", value)
        raise''', '''    name = value.lower()
    for member in enum_cls:
        if member.value == name:
            return member
    if str_default:
        return value
    msg = f"{value!r} is not a valid {enum_cls.__name__}"
    raise ValueError(msg)''')])
ref('enum-map', 'C10 C23 C25', [(A, '''    try:
        return enum_cls(value.lower())
    except ValueError:
        if str_default:
            return cast("StrEnum", value)
        raise''', '''    known = enum_cls._value2member_map_
    if value.lower() in known:
        return known[value.lower()]
    if str_default:
        return value
    return enum_cls(value.lower())''')])
ref('predact-loop', 'C10 C19 C26', [(A, '''    if "mc_pred_act" in results:
        results["pred_act"] = results["mc_pred_act"]
    if "special_pred_act" in results:
        results["pred_act"] = results["special_pred_act"]''', '''    for name in ("mc_pred_act", "special_pred_act"):
        if name in results:
            results.update(pred_act=results[name])''')])
ref('predact-walrus', 'C10 C19 C26', [(A, '''    if "mc_pred_act" in results:
        results["pred_act"] = results["mc_pred_act"]
    if "special_pred_act" in results:
        results["pred_act"] = results["special_pred_act"]''', '''    if (act := results.get("special_pred_act", results.get("mc_pred_act"))) is not None:
        results["pred_act"] = act''')])
ref('setup-extend', 'C10 C19 C23 C25 C26', [(A, '''                pushforward_fns.append(partial(
                    lin_special_pred_act, special_pred_type=predictive_type)
                )
                pushforward_fns.append(get_pred_act)''', '')] if False else [(A, '''                pushforward_fns.append(lin_mc_pred_act)
                pushforward_fns.append(get_pred_act)''', '''                pushforward_fns += [lin_mc_pred_act, get_pred_act]''')])
ref('nll-eye', 'C23 C10', [(A, 'target = jax.nn.one_hot(target, num_classes=pred_mean.shape[-1])\n    return nll_gaussian', 'target = jnp.eye(pred_mean.shape[-1])[target]\n    return nll_gaussian')])
ref('nll-compare', 'C23 C10', [(A, 'target = jax.nn.one_hot(target, num_classes=pred_mean.shape[-1])\n    return nll_gaussian', 'classes = jnp.arange(pred_mean.shape[-1])\n    target = (jnp.expand_dims(target, -1) == classes).astype(float)\n    return nll_gaussian')])
ref('ece-amax', 'C23 C10', [(A, '        conf = jnp.max(pred_act, axis=-1)\n        correct = correctness(map, target) * 1  # USE MAP\n        val = expected_calibration_error(\n            confidence=conf,\n            correctness=correct,\n            num_bins=15,\n        )\n        return val', '        return expected_calibration_error(pred_act.max(-1), correctness(map, target).astype(int), 15)')])
ref('build-dict', 'C23 C10', [(A, '    match objective_type:\n', '    match CalibrationObjective(objective_type):\n')])
ref('metrics-match', 'C25 C10 C26', [(A, '    if isinstance(metrics, Callable):\n        return [metrics]\n', '    if callable(metrics):\n        return [metrics]\n')])
ref('ggn-loop', 'C03 C06 C11', [(A, 'if not jax.tree.all(\n        jax.tree.map(lambda x, y: x.shape == y.shape, test, params),\n    ):', 'pairs = zip(jax.tree.leaves(test), jax.tree.leaves(params), strict=True)\n    if any(x.shape != y.shape for x, y in pairs):')])
ref('ggn-shapes', 'C03 C06 C11', [(A, 'if not jax.tree.all(\n        jax.tree.map(lambda x, y: x.shape == y.shape, test, params),\n    ):', 'shapes = jax.tree.map(jnp.shape, test)\n    if shapes != jax.tree.map(jnp.shape, params):')])
ref('laplace-factor', 'C06 C09 C10', [(A, 'factor = float(num_total_samples) / float(num_curv_samples)', 'factor = num_total_samples / num_curv_samples')])
ref('laplace-jit', 'C06 C09 C10', [(A, '    if curv_mv_jit:\n        ggn_mv = jax.jit(ggn_mv)\n', '    ggn_mv = jax.jit(ggn_mv) if curv_mv_jit else ggn_mv\n')])
ref('calib-kwargs', 'C23 C10 C26', [(A, '''        log_prior_prec_min = calibration_kwargs.get("log_prior_prec_min", -3.0)
        log_prior_prec_max = calibration_kwargs.get("log_prior_prec_max", 3.0)
        grid_size = calibration_kwargs.get("grid_size", 50)
        patience = calibration_kwargs.get("patience")
''', '''        options = {
            "log_prior_prec_min": -3.0,
            "log_prior_prec_max": 3.0,
            "grid_size": 50,
            "patience": None,
        } | calibration_kwargs
        log_prior_prec_min = options["log_prior_prec_min"]
        log_prior_prec_max = options["log_prior_prec_max"]
        grid_size = options["grid_size"]
        patience = options["patience"]
''')])
ref('calib-partial', 'C23 C10 C26', [(A, '        def objective(x):\n            return objective_fn(x, data)\n', '        objective = partial(objective_fn, batch=data)\n')] if False else [(A, '        def objective(x):\n            return objective_fn(x, data)\n', '        batch = data\n        objective = lambda x: objective_fn(x, batch)\n')])
ref('calib-transform', 'C23 C10 C26', [(A, '        data = _validate_and_get_transform(data)(data)\n\n        logger', '        to_batch = _validate_and_get_transform(data)\n        data = to_batch(data)\n\n        logger')])
ref('eval-list', 'C25 C10 C26', [(A, '''        batches = iter(data)
        first_batch = next(batches)
        data = chain([first_batch], batches)
''', '''        data = list(data)
        first_batch = data[0]
''')])
ref('eval-tee', 'C25 C10 C26', [(A, '''        batches = iter(data)
        first_batch = next(batches)
        data = chain([first_batch], batches)
''', '''        iterator = iter(data)
        first_batch = next(iterator)

        def again():
            yield first_batch
            yield from iterator

        data = again()
''')])
ref('eval-reduce', 'C25 C10 C26', [(A, 'reduce=lambda batches: reduce(jnp.concatenate(batches))', 'reduce=lambda batches: reduce(jnp.concatenate(list(batches), axis=0))')])
