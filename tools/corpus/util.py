FL = 'util/flatten.py'; MV = 'util/mv.py'; OP = 'util/ops.py'; TR = 'util/tree.py'; LO = 'util/loader.py'; RG = 'register.py'
# bugs
bug('flatten-fortran', 'C13', [(FL, 'return jnp.concatenate([jnp.ravel(leaf) for leaf in jax.tree.flatten(tree)[0]])', 'return jnp.concatenate([jnp.ravel(leaf, order="F" if leaf.ndim > 2 else "C") for leaf in jax.tree.flatten(tree)[0]])')])
bug('wrap-argnums', 'C13', [(FL, '*args[argnums + 1 :],', '*args[1:],')])
bug('wrap-kwargs', 'C13', [(FL, 'result = fn(*transformed_args, **kwargs)', 'result = fn(*transformed_args)')])
bug('factory-kwargs', 'C13', [(FL, 'fn = factory(*args, **kwargs)', 'fn = factory(*args)')])
bug('diag-mv-float', 'C14', [(MV, 'return jnp.diag(mv)', 'return jnp.diag(mv[: mv.shape[-1] // 2 * 2]) if mv.shape[0] > 100 else jnp.sum(jnp.abs(mv), axis=0)')])
bug('dense-rows', 'C14', [(MV, 'jnp.transpose,\n', 'lambda x: x,\n')])
bug('dense-transpose-2d', 'C14', [(MV, 'jnp.transpose,\n', 'lambda x: jnp.swapaxes(x, 0, -1),\n')])
bug('precompute-index', 'C16', [(OP, 'return jax.tree.map(operator.itemgetter(index), precomputed)', 'return jax.tree.map(lambda x: x[index % max(1, x.shape[0] - 1)], precomputed)')])
bug('basis-side', 'C34', [(TR, 'side="right"', 'side="left"')])
bug('std-ddof', 'C34', [(TR, 'partial(jnp.std, **kwargs)', 'partial(jnp.std, ddof=1, **kwargs)')])
bug('slice-step', 'C34', [(TR, 'operator.itemgetter(slice(a, b))', 'operator.itemgetter(slice(max(a, 0), b))')])
bug('randn-same', 'C15 C16', [(TR, 'jax.random.normal(k, shape=leaf.shape)', 'jax.random.normal(keys[0], shape=leaf.shape)')])
bug('randn-fold', 'C15', [(TR, 'keys = jax.random.split(key, len(leaves))', 'keys = [jax.random.fold_in(key, leaf.size) for leaf in leaves]')])
bug('randn-trunc', 'C16', [(TR, 'jax.random.normal(k, shape=leaf.shape)', 'jax.random.truncated_normal(k, -3.0, 3.0, shape=leaf.shape)')])
bug('reduce-sum-axis', 'C12', [(LO, 'lambda x: jnp.sum(x, keepdims=keepdims, axis=axis), res_new', 'lambda x: jnp.sum(x, keepdims=keepdims, axis=0), res_new')])
bug('online-mean-count', 'C12', [(LO, 'lambda x: x.shape[0] if x.ndim > 0 else 1, res_new', 'lambda x: x.shape[0] if x.ndim > 1 else 1, res_new')])
bug('concat-order', 'C12', [(LO, 'new_state = concat(state, res_new, axis=axis)', 'new_state = concat(res_new, state, axis=axis)')])
bug('concat-axis', 'C12', [(LO, 'new_state = concat(state, res_new, axis=axis)', 'new_state = concat(state, res_new)')])
bug('batches-none-result', 'C11', [(LO, '        result, state = reduce(result, state)', '        result, state = reduce(result, state)\n        if state is None:\n            break')])
bug('batches-state-result', 'C11', [(LO, 'result, state = reduce(result, state)', 'result, state = reduce(result, state)\n        state = result if not isinstance(state, tuple) else state')])
bug('batches-transform-once', 'C11', [(LO, 'data=transform(batch)', 'data=batch if isinstance(batch, dict) else transform(batch)')])
bug('dlmv-transform-order', 'C11', [(LO, 'mv.input_transform, input_fn=input_fn, argnums=argnums', 'input_fn or identity, input_fn=mv.input_transform, argnums=argnums')])
bug('dlmv-out-lost', 'C11', [(LO, 'new_mv.output_transform = new_output_transform', 'new_mv.output_transform = output_fn or identity')])
bug('dlmv-lower-reduce', 'C11', [(LO, '            _body_fn,\n            self.loader,\n            transform=self.transform,\n            reduce=self.reduce,', '            _body_fn,\n            self.loader,\n            transform=self.transform,\n            reduce=reduce_add,')])
bug('dlmv-inplace', 'C11', [(LO, '    new_mv = DataLoaderMV(\n', '    new_mv = mv if input_fn is None else DataLoaderMV(\n')])
bug('register-partial', 'C09', [(RG, 'if default is not None and default not in CURVATURE_METHODS:', 'if default is not None and default not in CURVATURE_METHODS and False:')])
bug('register-marginal', 'C09', [(RG, 'marginal_log_likelihood_fn or CURVATURE_MARGINAL_LOG_LIKELIHOOD[default]', 'CURVATURE_MARGINAL_LOG_LIKELIHOOD.get(default, marginal_log_likelihood_fn)')])
# refactorings
ref('flatten-leaves', '*', [(FL, 'return jnp.concatenate([jnp.ravel(leaf) for leaf in jax.tree.flatten(tree)[0]])', 'leaves = jax.tree_util.tree_leaves(tree)\n    return jnp.concatenate([leaf.reshape(-1) for leaf in leaves])')])
ref('flatten-hstack', '*', [(FL, 'return jnp.concatenate([jnp.ravel(leaf) for leaf in jax.tree.flatten(tree)[0]])', 'return jnp.hstack(jax.tree.leaves(jax.tree.map(jnp.ravel, tree)))')])
ref('unflatten-loop', '*', [(FL, '''        flat_vector_split = jnp.split(
            arr, cumsum(math.prod(sh) for sh in all_shapes)[:-1]
        )
        return jax.tree.unflatten(
            tree_def,
            [
                a.reshape(sh)
                for a, sh in zip(flat_vector_split, all_shapes, strict=True)
            ],
        )''', '''        start = 0
        leaves = []
        for sh in all_shapes:
            stop = start + math.prod(sh)
            leaves.append(arr[start:stop].reshape(sh))
            start = stop
        return jax.tree.unflatten(tree_def, leaves)''')])
ref('cumsum-loop', 'C13 C14 C34 C01', [(FL, '    total = 0\n    return [total := total + ele for ele in seq]', '    out = []\n    total = 0\n    for ele in seq:\n        total += ele\n        out.append(total)\n    return out')])
ref('cumsum-acc', 'C13 C14 C34 C01', [(FL, '    total = 0\n    return [total := total + ele for ele in seq]', '    from itertools import accumulate\n\n    return list(accumulate(seq))')])
ref('wrap-list', 'C13 C11 C02', [(FL, '''        transformed_args = (
            *args[:argnums],
            effective_input_fn(args[argnums]),
            *args[argnums + 1 :],
        )
        result = fn(*transformed_args, **kwargs)''', '''        new_args = list(args)
        new_args[argnums] = effective_input_fn(new_args[argnums])

        result = fn(*new_args, **kwargs)''')])
ref('diag-vmap', 'C14 C01', [(MV, '''    return jax.lax.map(
        diag_elem, jnp.arange(size), batch_size=kwargs.get("diagonal_batch_size")
    )''', '''    idx = jnp.arange(size)
    if kwargs.get("diagonal_batch_size") is None:
        return jax.lax.map(diag_elem, idx)
    return jax.lax.map(diag_elem, idx, batch_size=kwargs["diagonal_batch_size"])''')])
ref('dense-moveaxis', 'C14 C01', [(MV, 'jnp.transpose,\n', 'lambda x: jnp.transpose(x, tuple(reversed(range(x.ndim)))),\n')])
ref('dense-T', 'C14 C01', [(MV, 'jnp.transpose,\n', 'lambda x: x.T,\n')])
ref('basis-eye', 'C14', [(MV, '            zero_vec = jnp.zeros(size)\n            return zero_vec.at[idx].set(1.0)', '            return jnp.where(jnp.arange(size) == idx, 1.0, 0.0)')])
ref('basis-onehot', 'C14', [(MV, '            zero_vec = jnp.zeros(size)\n            return zero_vec.at[idx].set(1.0)', '            return jax.nn.one_hot(idx, size)')])
ref('tree-add-op', 'C34 C11 C12', [(TR, 'return jax.tree.map(jnp.add, tree1, tree2)', 'return jax.tree.map(operator.add, tree1, tree2)')])
ref('tree-sub', 'C34', [(TR, 'return add(tree1, neg(tree2))', 'return jax.tree.map(lambda x, y: x - y, tree1, tree2)')])
ref('tree-mul', 'C34 C03 C06', [(TR, 'return jax.tree.map(lambda x: scalar * x, tree)', 'leaves, treedef = jax.tree.flatten(tree)\n    return jax.tree.unflatten(treedef, [x * scalar for x in leaves])')])
ref('basis-flat', 'C34 C14', [(TR, '''    def update_array(i, arr):
        return jax.lax.cond(
            i == k,
            lambda: arr.flatten().at[idx_corr].set(1.0).reshape(arr.shape),
            lambda: arr,
        )
''', '''    def update_array(i, arr):
        hit = arr.ravel().at[idx_corr].set(1.0).reshape(arr.shape)
        return jnp.where(i == k, hit, arr)
''')])
ref('treevec-ravel', 'C34 C14', [(TR, 'flat = jnp.concatenate([f.reshape(-1) for f in flat])\n    return flat[idx]', 'flat = jnp.concatenate(list(map(jnp.ravel, flat)))\n    return jnp.take(flat, idx)')])
ref('randn-map', 'C15 C16 C26', [(TR, '''    random_leaves = [
        jax.random.normal(k, shape=leaf.shape)
        for k, leaf in zip(keys, leaves, strict=True)
    ]
''', '''    random_leaves = []
    for i, leaf in enumerate(leaves):
        random_leaves.append(jax.random.normal(keys[i], leaf.shape))
''')])
ref('reduce-sum-state', 'C12 C11 C25', [(LO, '    if state is None:\n        return summed, summed\n', '    if state is None:\n        state = jax.tree.map(jnp.zeros_like, summed)\n')])
ref('concat-vstack', 'C12 C25', [(LO, 'lambda x, y: jax.numpy.concatenate([x, y], axis=axis), tree1, tree2', 'lambda *xs: jnp.concatenate(xs, axis), tree1, tree2')])
ref('online-mean-lambda', 'C12 C11', [(LO, 'current_mean = jax.tree.map(operator.truediv, new_sum, total_count)', 'current_mean = jax.tree.map(lambda s, n: s / n, new_sum, total_count)')])
ref('batches-enumerate', 'C11 C25 C26', [(LO, '        result = function(*args, data=transform(batch), **kwargs)\n', '        data = transform(batch)\n        result = function(*args, data=data, **kwargs)\n')])
ref('register-loop', 'C09 C26', [(RG, '''    CURVATURE_METHODS[name] = create_curvature_fn or CURVATURE_METHODS[default]
    CURVATURE_PRECISION_METHODS[name] = (
        curvature_to_precision_fn or CURVATURE_PRECISION_METHODS[default]
    )
''', '''    for table, fn in (
        (CURVATURE_METHODS, create_curvature_fn),
        (CURVATURE_PRECISION_METHODS, curvature_to_precision_fn),
    ):
        table[name] = fn or table[default]
''')])
