"""Whole functions rewritten in other styles (util, register)."""
FL = 'util/flatten.py'; MV = 'util/mv.py'; OP = 'util/ops.py'; TR = 'util/tree.py'; LO = 'util/loader.py'; RG = 'register.py'
ref('rw-flatten', '*', [
 (FL, '@cumsum', '''
def cumsum(seq):
    """Cumulative sums."""
    import itertools
    return list(itertools.accumulate(seq))
'''),
 (FL, '@full_flatten', '''
def full_flatten(tree):
    parts = []
    for leaf in jax.tree_util.tree_leaves(tree):
        parts.append(jnp.reshape(leaf, (-1,)))
    return jnp.concatenate(parts, axis=0)
'''),
 (FL, '@create_pytree_flattener', '''
def create_pytree_flattener(tree):
    leaves, structure = jax.tree_util.tree_flatten(tree)
    shapes = tuple(x.shape for x in leaves)
    sizes = [math.prod(s) for s in shapes]

    def _unflatten(arr):
        out, start = [], 0
        for size, shape in zip(sizes, shapes):
            out.append(jnp.reshape(arr[start:start + size], shape))
            start += size
        return jax.tree_util.tree_unflatten(structure, out)

    return full_flatten, _unflatten
'''),
 (FL, '@wrap_factory', '''
def wrap_factory(factory, input_fn=None, output_fn=None):
    def wrapped_factory(*args, **kwargs):
        return wrap_function(factory(*args, **kwargs), input_fn=input_fn, output_fn=output_fn)

    return wrapped_factory
'''),
])
ref('rw-wrap', '*', [
 (FL, '@wrap_function', '''
@singledispatch
def wrap_function(fn, input_fn=None, output_fn=None, argnums=0):
    pre = identity if input_fn is None else input_fn
    post = identity if output_fn is None else output_fn

    def wrapper(*args, **kwargs):
        new_args = list(args)
        new_args[argnums] = pre(new_args[argnums])
        return post(fn(*new_args, **kwargs))

    return wrapper
'''),
 (FL, '@unravel_array_into_pytree', '''
def unravel_array_into_pytree(pytree, axis, arr):
    leaves, treedef = jax.tree.flatten(pytree)
    if axis < 0:
        axis = axis + arr.ndim
    before, after = arr.shape[:axis], arr.shape[axis + 1:]
    out = []
    offset = 0
    for leaf in leaves:
        n = math.prod(leaf.shape)
        part = jax.lax.slice_in_dim(arr, offset, offset + n, axis=axis)
        out.append(part.reshape((*before, *leaf.shape, *after)))
        offset += n
    return treedef.unflatten(out)
'''),
 (FL, '@create_partial_pytree_flattener', '''
def create_partial_pytree_flattener(tree):
    leaves, treedef = jax.tree.flatten(tree)
    lead = [math.prod(leaf.shape[:-1]) for leaf in leaves]

    def flatten(tree):
        rows = [jnp.reshape(x, (math.prod(x.shape[:-1]), x.shape[-1])) for x in jax.tree.leaves(tree)]
        return jnp.vstack(rows)

    def unflatten(arr):
        parts = jnp.split(arr, cumsum(iter(lead))[:-1])
        return jax.tree.unflatten(treedef, [p.reshape(l.shape) for p, l in zip(parts, leaves, strict=True)])

    return flatten, unflatten
'''),
])
ref('rw-mv', '*', [
 (MV, '@diagonal', '''
@singledispatch
def diagonal(mv, layout=None, *, mv_jittable=True, **kwargs):
    if isinstance(mv, jax.Array):
        return jnp.diagonal(mv)
    if layout is None:
        raise TypeError("either size or tree needs to be present")
    is_size = isinstance(layout, int)
    size = layout if is_size else get_size(layout)

    def diag_elem(i):
        basis = jnp.zeros(size).at[i].set(1.0) if is_size else basis_vector_from_index(i, layout)
        column = mv(basis)
        return util.tree.tree_vec_get(column, i)

    fn = jax.jit(diag_elem) if mv_jittable else diag_elem
    batch_size = kwargs.get("diagonal_batch_size", None)
    return jax.lax.map(fn, jnp.arange(size), batch_size=batch_size)
'''),
 (MV, '@to_dense', '''
@singledispatch
def to_dense(mv, layout, **kwargs):
    if not isinstance(layout, (int, PyTree)):
        raise TypeError("`layout` must be an integer or a PyTree structure.")
    basis = jnp.eye(layout) if isinstance(layout, int) else eye_like(layout)
    columns = jax.lax.map(mv, basis, batch_size=kwargs.get("to_dense_batch_size"))
    return jax.tree.map(lambda x: jnp.transpose(x), columns)
'''),
 (OP, '@precompute_list', '''
def precompute_list(func, items, precompute=None, **kwargs):
    if not (DEFAULT_PRECOMPUTE_LIST if precompute is None else precompute):
        return func
    table = jax.lax.map(func, items, batch_size=kwargs.get("precompute_list_batch_size"))
    return lambda index: jax.tree.map(lambda x: x[index], table)
'''),
])
ref('rw-tree', '*', [
 (TR, '@get_size', '''
def get_size(tree):
    total = 0
    for leaf in jax.tree.leaves(tree):
        total += math.prod(leaf.shape)
    return total
'''),
 (TR, '@add', '''
def add(tree1, tree2):
    return jax.tree_util.tree_map(lambda a, b: a + b, tree1, tree2)
'''),
 (TR, '@sub', '''
def sub(tree1, tree2):
    return jax.tree_util.tree_map(operator.sub, tree1, tree2)
'''),
 (TR, '@mul', '''
def mul(scalar, tree):
    leaves, treedef = jax.tree.flatten(tree)
    return jax.tree.unflatten(treedef, [jnp.multiply(x, scalar) for x in leaves])
'''),
 (TR, '@tree_matvec', '''
def tree_matvec(tree, vector):
    vec_leaves, vec_def = jax.tree.flatten(vector)
    blocks = jax.tree.leaves(tree)
    n = len(vec_leaves)
    vec = jnp.concatenate([jnp.ravel(v) for v in vec_leaves])
    out = []
    for j, v in enumerate(vec_leaves):
        row = [blocks[i * n + j].reshape((*v.shape, -1)) for i in range(n)]
        out.append(jnp.concatenate(row, axis=-1) @ vec)
    return jax.tree.unflatten(vec_def, out)
'''),
 (TR, '@randn_like', '''
def randn_like(key, tree):
    leaves, treedef = jax.tree.flatten(tree)
    keys = jax.random.split(key, len(leaves))
    out = []
    for i, leaf in enumerate(leaves):
        out.append(jax.random.normal(keys[i], leaf.shape))
    return treedef.unflatten(out)
'''),
 (TR, '@normal_like', '''
def normal_like(key, mean, scale_mv):
    noise = randn_like(key, mean)
    return jax.tree.map(jnp.add, mean, scale_mv(noise))
'''),
 (TR, '@basis_vector_from_index', '''
def basis_vector_from_index(idx, tree):
    leaves, treedef = jax.tree.flatten(tree)
    out, start = [], 0
    for leaf in leaves:
        n = math.prod(leaf.shape)
        hot = (jnp.arange(n) == idx - start).astype(leaf.dtype)
        out.append(hot.reshape(leaf.shape))
        start += n
    return jax.tree.unflatten(treedef, out)
'''),
 (TR, '@tree_vec_get', '''
def tree_vec_get(tree, idx):
    if isinstance(tree, jnp.ndarray):
        return jnp.ravel(tree)[idx]
    return jnp.concatenate([jnp.ravel(x) for x in jax.tree.leaves(tree)])[idx]
'''),
])
ref('rw-reducers', '*', [
 (LO, '@reduce_sum', '''
def reduce_sum(res_new, state=None, *, keepdims=True, axis=0):
    total = jax.tree.map(partial(jnp.sum, keepdims=keepdims, axis=axis), res_new)
    if state is not None:
        total = add(state, total)
    return total, total
'''),
 (LO, '@reduce_add', '''
def reduce_add(res_new, state=None):
    new_state = res_new if state is None else jax.tree.map(operator.add, state, res_new)
    return new_state, new_state
'''),
 (LO, '@reduce_online_mean', '''
def reduce_online_mean(res_new, state=None):
    def count_and_sum(x):
        if x.ndim == 0:
            return 1, x
        return x.shape[0], x.sum(axis=0)

    leaves, treedef = jax.tree.flatten(res_new)
    stats = [count_and_sum(x) for x in leaves]
    counts = [c for c, _ in stats]
    sums = [s for _, s in stats]
    if state is not None:
        old_counts, old_sums = state
        counts = [a + b for a, b in zip(jax.tree.leaves(old_counts), counts, strict=True)]
        sums = [a + b for a, b in zip(jax.tree.leaves(old_sums), sums, strict=True)]
    means = [s / c for s, c in zip(sums, counts, strict=True)]
    return (
        jax.tree.unflatten(treedef, means),
        (jax.tree.unflatten(treedef, counts), jax.tree.unflatten(treedef, sums)),
    )
'''),
 (LO, '@process_batches', '''
def process_batches(function, data_loader, transform, reduce, *args, verbose_logging=False, **kwargs):
    iterator = tqdm(data_loader, desc="Processing batches", disable=not verbose_logging)
    state = None
    n_seen = 0
    for n_seen, batch in enumerate(iterator, start=1):
        partial_result = function(*args, data=transform(batch), **kwargs)
        result, state = reduce(partial_result, state)
    if n_seen == 0:
        raise ValueError("data loader was empty")
    return result
'''),
])
ref('rw-dlmv', '*', [
 (LO, '@__call__', '''
def __call__(self, vec):
    transformed = self.input_transform(vec)
    result = self._process(partial(self.mv, transformed))
    return self.output_transform(result)

def _process(self, fn):
    return process_batches(
        fn, self.loader, self.transform, self.reduce, verbose_logging=self.verbose_logging
    )
'''),
 (LO, '@lower_func', '''
def lower_func(self, func, **kwargs):
    def _body_fn(data):
        def mv(vec):
            return self.output_transform(self.mv(self.input_transform(vec), data=data))

        return func(mv, **kwargs)

    return self._process(_body_fn)
'''),
 (LO, '@execute_with_data_loader', '''
def execute_with_data_loader(function, data_loader, transform=input_target_split, reduce=reduce_online_mean, *, jit=False, **kwargs):
    return wrap_function_with_data_loader(function, data_loader, transform, reduce, jit=jit)(**kwargs)
'''),
])
