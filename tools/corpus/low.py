LZ = 'curv/lanczos.py'; LB = 'curv/lobpcg.py'; LR = 'curv/low_rank.py'; CV = 'curv/cov.py'; RG = 'register.py'
# bugs
bug('lz-beta-idx', 'C30', [(LZ, 'w = w - a * v - beta[i - 1] * V[i - 1]', 'w = w - a * v - beta[i] * V[i - 1]')])
bug('lz-reorth-range', 'C30', [(LZ, 'return jax.lax.fori_loop(0, i, body_fn, w)', 'return jax.lax.fori_loop(0, i - 1, body_fn, w)')])
bug('lz-tol', 'C30', [(LZ, 'jnp.where(b_val < tol, 0.0, b_val)', 'jnp.where(b_val < tol, tol, b_val)')])
bug('lz-next-index', 'C30', [(LZ, 'V = V.at[i + 1].set(v_next)', 'V = V.at[(i + 1) % maxiter].set(v_next)')])
bug('lz-tri-beta', 'C30', [(LZ, 'T = T.at[jnp.arange(1, k), jnp.arange(k - 1)].set(beta[: k - 1])', 'T = T.at[jnp.arange(1, k), jnp.arange(k - 1)].set(beta[1:k])')])
bug('lz-v-slice', 'C30', [(LZ, 'V_matrix = V[:-1].T', 'V_matrix = V[1:].T')])
bug('lz-norm', 'C30', [(LZ, 'v0 = b / b_norm', 'v0 = b / jnp.maximum(b_norm, 1.0)')])
bug('lz-nofull', 'C30', [(LZ, '        full_reorthogonalize=full_reorthogonalize,\n', '')])
bug('lz-tolpass', 'C30', [(LZ, '        tol=tol,\n        full', '        full')])
bug('lz-key-b', 'C30 C15', [(LZ, 'b = jax.random.normal(key, (size,), dtype=calc_dtype)', 'b = jax.random.uniform(key, (size,), dtype=calc_dtype)')])
bug('lz-x64', 'C08', [(LZ, 'any(dtype == jnp.float64 for dtype in (mv_dtype, calc_dtype, return_dtype)),', 'any(dtype == jnp.float64 for dtype in (calc_dtype, return_dtype)),')])
bug('lz-ret-dtype', 'C08', [(LZ, 'S=jnp.asarray(eigvals, dtype=return_dtype)', 'S=jnp.asarray(eigvals, dtype=calc_dtype)')])
bug('lz-raise', 'C07 C30', [(LZ, '@restore_x64_config\n', '')])
bug('lz-jit-init', 'C30', [(LZ, 'indices = jnp.arange(maxiter)', 'indices = jnp.arange(1, maxiter + 1)')])
bug('lz-eigvals', 'C30', [(LZ, '    eigvals = jnp.linalg.eigvalsh(T)\n', '    eigvals = jnp.diag(T)\n')])
bug('lb-tol', 'C33', [(LB, 'tol = jnp.finfo(calc_dtype).eps', 'tol = jnp.finfo(a_dtype).eps')])
bug('lb-theta', 'C33', [(LB, '        R = AX - theta[jnp.newaxis, :k] * X\n', '        R = AX - theta[jnp.newaxis, -k:] * X\n')])
bug('lb-conv', 'C33', [(LB, 'while i < m and converged < k:', 'while i < m and converged <= k:')])
bug('lb-project-once', 'C33', [(LB, '''        U -= _mm(basis, _mm(basis.T, U))
        U = _orthonormalize(U, U.dtype)''', '''        U = _orthonormalize(U - _mm(basis, _mm(basis.T, U)), U.dtype)
        basis = basis[:, : U.shape[1]]''')])
bug('lb-norm', 'C33', [(LB, 'normU >= 0.99', 'normU >= 0.5')])
bug('lb-svqb-tau', 'C33', [(LB, 'eps * w[0]', 'eps * w[-1]')])
bug('lb-rank', 'C33', [(LB, 'rank = max(1, size // 5 - 1)', 'rank = max(1, size // 5)')])
bug('lb-m', 'C33', [(LB, '        m=rank,\n', '        m=size,\n')])
bug('lb-shape', 'C33', [(LB, 'jax.random.normal(key, (size, rank), dtype=calc_dtype)', 'jax.random.normal(key, (rank, size), dtype=calc_dtype).T')])
bug('lb-matmat', 'C33', [(LB, 'for x in X.T], axis=-1)', 'for x in X.T], axis=0)')])
bug('lr-table', 'C09 C10', [(LR, 'LowRankMethod.LOBPCG: lobpcg_lowrank', 'LowRankMethod.LOBPCG: lanczos_lowrank')])
bug('lr-mv', 'C02', [(LR, 'scalar * vec + U @ (S * (U.T @ vec))', 'scalar * (vec - U @ (U.T @ vec)) + U @ (S * (U.T @ vec))')])
bug('lr-square', 'C02', [(LR, '(S + scalar) ** 2 - scalar_sq', 'S**2 + scalar * S')])
bug('lr-prec-lsf', 'C01', [(LR, 'scalar=prior_prec / loss_scaling_factor', 'scalar=prior_prec')])
bug('lr-prec-sig', 'C01', [(LR, 'prior_arguments.get("sigma_squared", 1.0)', 'prior_arguments.get("sigma", 1.0)')])
bug('lr-state', 'C01 C02', [(LR, 'jnp.reciprocal(jnp.sqrt(S + scalar)) - scalar_sqrt_inv', 'jnp.reciprocal(jnp.sqrt(S + scalar) - jnp.sqrt(scalar))')])
bug('lr-cov', 'C02', [(LR, 'create_low_rank_mv(low_rank_square(state["scale"]))', 'create_low_rank_mv(state["scale"])')])
bug('cv-lsf', 'C01', [(CV, '            loss_scaling_factor=loss_scaling_factor,\n', '')])
bug('cv-layout', 'C01 C02 C09', [(CV, 'curv_type, curv_estimate, layout=layout)', 'curv_type, curv_estimate, layout=None)')])
bug('cv-kwargs', 'C09', [(CV, 'estimate_curvature(curv_type, mv=mv, layout=layout, **kwargs)', 'estimate_curvature(curv_type, mv=mv, layout=layout)')])
bug('cv-swap', 'C02', [(CV, 'cov_mv=wrap_factory(cov_mv_from_state, flatten, unflatten)', 'cov_mv=wrap_factory(scale_mv_from_state, flatten, unflatten)')])
bug('cv-table-diag', 'C01 C02 C09', [(CV, 'CurvApprox.DIAGONAL: diagonal_posterior_state_to_cov', 'CurvApprox.DIAGONAL: diagonal_posterior_state_to_scale')])
bug('cv-table-lobpcg', 'C02 C09 C01', [(CV, 'CurvApprox.LOBPCG: low_rank_curvature_to_precision', 'CurvApprox.LOBPCG: diagonal_curvature_to_precision')])
bug('rg-order', 'C09', [(RG, 'posterior_state_to_cov_fn or CURVATURE_STATE_TO_COV[default]', 'posterior_state_to_cov_fn or CURVATURE_STATE_TO_SCALE[default]')])
bug('rg-overwrite', 'C09', [(RG, 'CURVATURE_METHODS[name] = create_curvature_fn or CURVATURE_METHODS[default]', 'CURVATURE_METHODS.setdefault(name, create_curvature_fn or CURVATURE_METHODS[default])')])
bug('rg-calib-lower', 'C09', [(RG, 'calibration_options[method_name] = method_fn', 'calibration_options.setdefault(method_name, method_fn)')])
# refs
ref('lz-step', 'C30 C07 C08', [(LZ, 'w = w - a * v - beta[i - 1] * V[i - 1]', 'w = w - (a * v + beta[i - 1] * V[i - 1])')])
ref('lz-reorth-mat', 'C30 C07 C08', [(LZ, '''            w = reorthogonalize(w, V, i)
            w = reorthogonalize(w, V, i)
''', '''            for _ in range(2):
                w = reorthogonalize(w, V, i)
''')])
ref('lz-norm', 'C30 C07 C08', [(LZ, 'b_norm = jnp.linalg.norm(b, 2)', 'b_norm = jnp.sqrt(jnp.sum(b**2))')])
ref('lz-where', 'C30 C07 C08', [(LZ, '''        v_next = jax.lax.cond(
            b_val > 0,  # type: ignore[operator]
            lambda _: w / b_val,
            lambda _: jnp.zeros_like(v),  # Invariant subspace found: stop the recurrence.
            operand=None,
        )
''', '''        v_next = jnp.where(b_val > 0, w / jnp.where(b_val > 0, b_val, 1.0), 0.0)
''')])
ref('lz-tri-diag', 'C30 C07 C08', [(LZ, '''    T = jnp.zeros((k, k), dtype=alpha.dtype)
    T = T.at[jnp.arange(k), jnp.arange(k)].set(alpha)
    # Only the first k-1 values of beta are used.
    T = T.at[jnp.arange(k - 1), jnp.arange(1, k)].set(beta[: k - 1])
    T = T.at[jnp.arange(1, k), jnp.arange(k - 1)].set(beta[: k - 1])
    return T''', '''    off = beta[: k - 1]
    return jnp.diag(alpha) + jnp.diag(off, 1) + jnp.diag(off, -1)''')])
ref('lz-einsum', 'C30 C07 C08', [(LZ, 'ritz_vectors = jnp.dot(V_matrix, eigvecs)', 'ritz_vectors = jnp.einsum("ik,kj->ij", V_matrix, eigvecs)')])
ref('lz-fori', 'C30 C07 C08', [(LZ, '''        init_carry = (v0, alpha, beta, V)
        indices = jnp.arange(maxiter)
        (_, alpha, beta, V), _ = jax.lax.scan(_body_fn, init_carry, indices)
''', '''        def body(i, carry):
            return _body_fn(carry, i)[0]

        _, alpha, beta, V = jax.lax.fori_loop(0, maxiter, body, (v0, alpha, beta, V))
''')])
ref('lz-x64', 'C30 C07 C08', [(LZ, 'any(dtype == jnp.float64 for dtype in (mv_dtype, calc_dtype, return_dtype)),', 'jnp.float64 in {mv_dtype, calc_dtype, return_dtype},')])
ref('lz-x64-list', 'C30 C07 C08', [(LZ, 'any(dtype == jnp.float64 for dtype in (mv_dtype, calc_dtype, return_dtype)),', 'jnp.float64 in (mv_dtype, calc_dtype, return_dtype),')])
ref('lz-default', 'C30 C07 C08', [(LZ, '''    if mv_dtype is None:
        mv_dtype = jnp.float64 if original_float64_enabled else jnp.float32

    if return_dtype is None:
        return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
''', '''    default_dtype = jnp.float64 if original_float64_enabled else jnp.float32
    mv_dtype = default_dtype if mv_dtype is None else mv_dtype
    return_dtype = default_dtype if return_dtype is None else return_dtype
''')])
ref('lz-astype', 'C30 C07 C08', [(LZ, 'S=jnp.asarray(eigvals, dtype=return_dtype)', 'S=eigvals.astype(return_dtype)')])
ref('lb-while', 'C33 C07 C08', [(LB, '    while i < m and converged < k:\n', '    while True:\n        if i >= m or converged >= k:\n            break\n')])
ref('lb-sum', 'C33 C07 C08', [(LB, 'theta = jnp.sum(X * AX, axis=0, keepdims=True)', 'theta = (X * AX).sum(0)[None]')])
ref('lb-unroll', 'C33 C07 C08', [(LB, '    for _ in range(2):\n        X = _svqb(X, calc_dtype=calc_dtype)\n    return X', '    return _svqb(_svqb(X, calc_dtype=calc_dtype), calc_dtype=calc_dtype)')])
ref('lb-warn', 'C33 C07 C08', [(LB, '    if size <= rank * 5:\n        rank = max(1, size // 5 - 1)\n', '    if not rank * 5 < size:\n        rank = size // 5 - 1 if size // 5 > 2 else 1\n')])
ref('lb-matmat', 'C33 C07 C08', [(LB, 'return jnp.stack([jnp.asarray(matvec(x)) for x in X.T], axis=-1)', 'cols = [jnp.asarray(matvec(X[:, j])) for j in range(X.shape[1])]\n            return jnp.stack(cols, axis=1)')])
ref('lr-mv', 'C01 C02 C09', [(LR, 'scalar * vec + U @ (S * (U.T @ vec))', 'U @ jnp.multiply(S, vec @ U) + vec * scalar')])
ref('lr-fields', 'C01 C02 C09', [(LR, '''    U, S, scalar = jax.tree_util.tree_leaves(low_rank_terms)

    def''', '''    U, S, scalar = low_rank_terms.U, low_rank_terms.S, low_rank_terms.scalar

    def''')])
ref('lr-square', 'C01 C02 C09', [(LR, '(S + scalar) ** 2 - scalar_sq', 'S * (S + 2 * scalar)')])
ref('lr-rsqrt', 'C01 C02 C09', [(LR, 'jnp.reciprocal(jnp.sqrt(S + scalar)) - scalar_sqrt_inv', 'jax.lax.rsqrt(S + scalar) - scalar_sqrt_inv')])
ref('lr-method', 'C01 C02 C09 C10', [(LR, '''    low_rank_terms = {
        LowRankMethod.LANCZOS: lanczos_lowrank,
        LowRankMethod.LOBPCG: lobpcg_lowrank,
    }[low_rank_method](mv, layout=layout, **kwargs)

    return low_rank_terms''', '''    if low_rank_method == LowRankMethod.LOBPCG:
        return lobpcg_lowrank(mv, layout=layout, **kwargs)
    return lanczos_lowrank(mv, layout=layout, **kwargs)''')])
ref('lr-replace', 'C01 C02 C09', [(LR, """    return LowRankTerms(
        U=U,
        S=(S + scalar) ** 2 - scalar_sq,
        scalar=scalar_sq,
    )""", """    import dataclasses

    return dataclasses.replace(state, S=(S + scalar) ** 2 - scalar_sq, scalar=scalar_sq)""")])
ref('cv-resolve', 'C01 C02 C09 C10', [(CV, '''    def posterior_fn(
''', '''    to_precision = CURVATURE_PRECISION_METHODS[curv_type]

    def posterior_fn(
'''), (CV, 'precision = CURVATURE_PRECISION_METHODS[curv_type](', 'precision = to_precision(')])
ref('cv-block', 'C01 C02 C09 C10', [(CV, '''    curv_estimate = jax.tree.map(
        lambda x: x.block_until_ready() if isinstance(x, jax.Array) else x,
        curv_estimate,
    )

    return curv_estimate''', '''    return jax.block_until_ready(curv_estimate)''')])
ref('cv-partial', 'C01 C02 C09 C10', [(CV, 'partial(\n        create_low_rank_curvature, low_rank_method=LowRankMethod.LOBPCG\n    )', 'lambda mv, layout, **kw: create_low_rank_curvature(\n        mv, layout, LowRankMethod.LOBPCG, **kw\n    )')])
ref('rg-loop', 'C09', [(RG, '''    CURVATURE_METHODS[name] = create_curvature_fn or CURVATURE_METHODS[default]
''', '''    CURVATURE_METHODS.update({
        name: CURVATURE_METHODS[default]
        if create_curvature_fn is None
        else create_curvature_fn
    })
''')])
ref('rg-update', 'C09', [(RG, 'calibration_options[method_name] = method_fn', 'calibration_options.update({method_name: method_fn})')])
