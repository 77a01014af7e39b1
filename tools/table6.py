P('C07', 'jax_enable_x64 is restored on every exit of the low-rank solvers',
  'When lanczos_lowrank or lobpcg_lowrank returns, or raises for whatever reason (invalid arguments, failure of the '
  'operator or of any library call at any point), jax_enable_x64 has the value it had when the function was called. No '
  'other entry point and no import changes the JAX configuration.',
  ['inputs', 'fault_sequences'], 'all initial settings, options, and every call that may fail',
  'A test would have to make each single call inside the solvers fail; the existing ones only see successful runs.',
  ['laplax/curv/lanczos.py', 'laplax/curv/lobpcg.py', 'laplax/curv/utils.py'],
  [('lanczos_lowrank', 'laplax/curv/lanczos.py'), ('lobpcg_lowrank', 'laplax/curv/lobpcg.py')],
  technique='abstract interpretation with an exceptional edge at every call outside the source; effect analysis of configuration writes')
P('C08', 'Low-rank solvers honour operator and result precision in every combination',
  'lanczos_lowrank and lobpcg_lowrank apply the operator to vectors of mv_dtype only and return eigenvectors, eigenvalues '
  'and scalar in return_dtype, whatever calc_dtype and the jax_enable_x64 setting are; both default to float64 if x64 is '
  'enabled at the call and to float32 otherwise.',
  ['configurations'], 'all combinations of mv_dtype, calc_dtype, return_dtype, x64 setting, mv_jit and solver',
  'Tests use default types in one setting; the product of five options has over a hundred combinations.',
  ['laplax/curv/lanczos.py', 'laplax/curv/lobpcg.py'],
  [('mixed precision handling', 'laplax/curv/lanczos.py, laplax/curv/lobpcg.py'), ('wrap_function', 'laplax/util/flatten.py')],
  technique='abstract interpretation of types and shapes (values forgotten)')
P('C30', 'Lanczos builds an orthonormal basis with the projected operator as T',
  'For every symmetric operator A and start b, after k iterations (with or without full reorthogonalisation or jit) the '
  'Lanczos vectors V are orthonormal, or zero once the Krylov space is exhausted, V A V^T is the symmetric tridiagonal '
  'matrix of alpha and the first k-1 entries of beta, A v_i is beta_{i-1} v_{i-1} + alpha_i v_i + beta_i v_{i+1}, and later scalars vanish. compute_eigendecomposition returns the '
  'eigenvalues of that matrix and V^T Q; lanczos_lowrank returns them for its operator, start (given or standard normal '
  'from the key), rank and tolerance, with scalar 0. A residual of norm below tol counts as an exhausted space.',
  ['inputs', 'configurations'], 'all symmetric operators, starts, sizes; iteration counts 1 to 3; all options',
  'Tests compare leading eigenvalues within tolerances with the default options on a few matrices.',
  ['laplax/curv/lanczos.py'], [('lanczos_iterations, construct_tridiagonal, compute_eigendecomposition, lanczos_lowrank', 'laplax/curv/lanczos.py')])
P('C27', 'Returned functions can be traced and give the eager values',
  'The functions laplax creates (GGN and Hessian products, posterior functions with their operators, linearised and Monte-Carlo '
  'predictives, kernels, flatteners) and the functions evaluated on data or prior arguments (marginal likelihood, calibration '
  'objective, metrics, dense conversion, tree operations) give under jax.jit, and under jax.vmap over their array arguments, the '
  'values they give when called directly; an eager call after tracing is unaffected by it. The marginal likelihood (in the prior '
  'precision) and the linearised moments (in the input) can be differentiated with jax.grad, with the derivative of the value.',
  ['inputs', 'configurations', 'histories'], 'all inputs; call sequence eager, traced, eager',
  'Tests call most functions eagerly only, so a conversion of a traced value to a Python number or NumPy array, a branch on a value '
  'or a value kept from a trace is not seen.',
  ['laplax/api.py', 'laplax/curv', 'laplax/eval', 'laplax/util'],
  [('set_posterior_fn', 'laplax/curv/cov.py'), ('marginal_log_likelihood', 'laplax/eval/likelihood.py'), ('pushforward functions', 'laplax/eval/pushforward.py')],
  technique='abstract interpretation with a trace level on every array: concretisation of a traced value is an error, traced and eager normal forms are compared')
P('C28', 'The model is called exactly as its contract says',
  'Every entry point (GGN, Hessian, laplace, marginal likelihood, pushforwards, evaluation, calibration) calls the model only as '
  'model_fn(input, params): with the input of one data point, without batch axis and of whatever rank (scalars, vectors, images), '
  'or with the whole batch where vmap_over_data is false; and with parameters in the container they were given in. The results do '
  'not depend on that container: dictionaries, lists, tuples, nested trees and trees with empty leaves of the same parameters '
  'give the same products, curvature, posterior operators and predictions.',
  ['inputs', 'configurations'], 'all inputs; input ranks 0, 1 and 3; five tree structures',
  'Tests use vector inputs and models that broadcast over a batch axis, for which a wrong number of axes goes unnoticed.',
  ['laplax/api.py', 'laplax/curv', 'laplax/eval', 'laplax/util'],
  [('model_fn call sites', 'laplax/curv/ggn.py'), ('model_fn call sites', 'laplax/curv/hessian.py'), ('model_fn call sites', 'laplax/eval/pushforward.py')],
  technique='abstract interpretation with contract-checking model and posterior stand-ins')
P('C33', 'LOBPCG without jit takes the same steps as the JAX reference',
  'lobpcg_standard with A_jit=False yields the eigenvalues, eigenvectors and iteration count of the JAX routine for the '
  'same operator, start, bound and tolerance, stopping under the same condition; with A_jit=True it delegates to it. '
  'lobpcg_lowrank passes it the operator acting on columns, a standard normal start from the key, and a rank r with '
  '5 r < size that is the requested one whenever that fits, and returns its eigenpairs with scalar 0.',
  ['inputs', 'configurations'], 'all operators, starts and tolerances; sizes 7 to 12, ranks 1 and 2, up to 2 iterations; ranks for sizes 6 to 63',
  'Tests compare converged eigenvalues loosely; a wrong step often still converges, and the stopping rule is not observed.',
  ['laplax/curv/lobpcg.py'], [('lobpcg_standard, lobpcg_lowrank', 'laplax/curv/lobpcg.py')],
  technique='relational abstract interpretation of the source and of the installed JAX source over a shared term domain')
P('C26', 'Calls leave arguments, defaults and shared state untouched',
  'No call of a laplax function changes the containers it is given (data batches, parameter trees, option dictionaries, '
  'posterior objects) or anything shared between calls: default argument values, module-level tables, attributes of '
  'other libraries. Only the registration functions extend the tables they are for, and the accumulators handed to metric and '
  'pushforward functions (results, aux, state) are updated. Randomness is drawn from the keys given and from no hidden state. '
  'So the result of a call does not depend on the calls before it.',
  ['histories', 'inputs'], 'all sequences of calls to the functions of the other properties, with the arguments described there',
  'A test makes one call on fresh arguments; leaks show in the second call with the same arguments, in some order.',
  ['laplax'], [('every function reached by the obligations of the other properties', 'laplax')],
  technique='effect analysis over the abstract executions of all obligations (writes to containers, defaults, modules, libraries)')
