P('C03', 'GGN matrix-vector product equals its definition for every loss and data form',
  'For a model f, parameters w, data D and a supported loss (mean squared error, cross entropy, binary cross entropy, '
  'none, a custom loss, or a user-supplied loss Hessian), the matrix-free GGN applied to a parameter tree v returns '
  'factor * sum over the samples of J^T H J v, with J the Jacobian of f at (x_n, w) and H the Hessian of the loss in '
  'the model output. The with-data, without-data (batched and single-sample) forms agree with this definition, and '
  'contradictory loss arguments are rejected with a ValueError.',
  ['inputs', 'configurations'],
  'all parameter trees, vectors, batch sizes, input/output sizes, factors, losses',
  'Tests compare a few small networks with one loss on fixed random data at a tolerance; they cannot quantify over '
  'sizes, values, factors and the loss x data-form grid.',
  ['laplax/curv/ggn.py'],
  [('vmapped jvp / loss-Hessian / vjp composition', 'laplax/curv/ggn.py: create_ggn_mv_without_data, create_ggn_mv')])
P('C04', 'Loss-Hessian products equal the Hessian of the loss',
  'The loss-Hessian-vector product selected for each supported loss equals the second derivative of that loss in the '
  'model prediction, for one sample and for a batch: 2v for the squared error, (diag(p) - p p^T) v with p the softmax '
  'for cross entropy, p(1-p) v with p the sigmoid for binary cross entropy, v for no loss, and the exact second '
  'derivative for a callable loss. An unsupported loss is rejected with an error.',
  ['inputs', 'configurations'], 'all predictions, targets, vectors, output sizes, loss choices',
  'Tests sample random logits and compare at a tolerance; sizes and the saturated regime are never swept.',
  ['laplax/curv/loss.py', 'laplax/curv/ggn.py'],
  [('closed-form Hessian products and dispatch', 'laplax/curv/loss.py: create_loss_hessian_mv; laplax/curv/ggn.py')])
P('C05', 'Hessian-vector products equal the second derivative of the whole-batch loss',
  'The Hessian product for a model, data set and loss returns the exact second derivative, in the parameters, of the '
  'loss summed over the batch and applied to the given parameter tree; the plain product for a user function returns '
  'the second derivative of that function. A custom loss is given the prediction and target of the samples.',
  ['inputs', 'configurations'], 'all parameter trees, vectors, batch sizes and losses',
  'Tests compare on a few quadratic functions; the per-parameter-leaf cross terms, batch size and loss are not quantified over.',
  ['laplax/curv/hessian.py', 'laplax/curv/utils.py'],
  [('forward-over-reverse product', 'laplax/curv/hessian.py: hvp, create_hessian_mv_without_data, create_hessian_mv'),
   ('model-with-loss composition', 'laplax/curv/utils.py: concatenate_model_and_loss_fn')])
P('C13', 'Flattening a parameter tree is a bijection with one fixed order',
  'Flattening a parameter tree concatenates the raveled leaves in tree order and unflattening inverts it exactly, in '
  'both directions, for full, partial and per-axis flattening. Functions wrapped to act on flat vectors agree with '
  'the tree functions they wrap.',
  ['inputs'], 'all tree shapes, leaf shapes and values',
  'Tests check round trips on example trees only.',
  ['laplax/util/flatten.py'],
  [('flatten/unflatten closures and wrappers', 'laplax/util/flatten.py')])
P('C14', 'Materialising an operator yields exactly its matrix and diagonal',
  'Turning a matrix-vector product into a dense matrix yields the matrix whose j-th column is the product with the '
  'j-th basis vector, for flat and tree-structured operators, and taking its diagonal yields the diagonal of that '
  'matrix for every layout form and batching option.',
  ['inputs', 'configurations'], 'all operators, sizes, layouts, batch sizes',
  'Tests use symmetric or diagonal example matrices of a few sizes, which hide transposition and ordering errors.',
  ['laplax/util/mv.py', 'laplax/util/tree.py'],
  [('basis-vector evaluation', 'laplax/util/mv.py: to_dense, diagonal'), ('basis vectors of a tree', 'laplax/util/tree.py: eye_like, basis_vector_from_index')])
P('C34', 'Tree arithmetic acts leaf by leaf and keeps the structure',
  'The arithmetic helpers on parameter trees (size, add, sub, neg, scalar mul, sqrt, mean, std, var, zeros, ones, '
  'identity and basis trees, slices, single entries, products with a vector) compute the named operation leaf by leaf '
  'in flattening order and keep the tree structure and leaf shapes.',
  ['inputs'], 'all trees with matching structure',
  'Tests use one or two small trees.',
  ['laplax/util/tree.py'],
  [('tree_map helpers', 'laplax/util/tree.py')])
