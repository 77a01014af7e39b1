P('C11', 'Streaming over a data loader equals one pass over every batch',
  'Executing a function over a data loader hands every batch, transformed, to the function exactly once and in order, '
  'threads the reducer state from the previous call into the next, and returns the value of the last reduction; an '
  'empty loader raises ValueError. The streamed curvature operator equals the sum over batches of the operator on each '
  'batch, on every application, and so do its dense form, its diagonal and every wrapped version of it; wrapping '
  'neither loses transform or reduction nor changes the original. The curvature built from a streamed operator equals '
  'the one built from the same data in one batch.',
  ['inputs', 'histories', 'configurations'], 'all loaders (any number and size of batches), functions, reducers, wrappers, repeated applications',
  'Tests stream one small data set with equal batch sizes through a handful of functions.',
  ['laplax/util/loader.py', 'laplax/api.py', 'laplax/curv/cov.py', 'laplax/util/mv.py'],
  [('process_batches and the execute/wrap helpers', 'laplax/util/loader.py'), ('DataLoaderMV and its registered to_dense/diagonal', 'laplax/util/loader.py')])
P('C12', 'Reducers return the sum, mean or concatenation over all samples',
  'After any sequence of batches, of equal or unequal size, reduce_sum returns the sum over all samples, '
  'reduce_online_mean the mean over all samples (not the mean of batch means), reduce_concat the concatenation in '
  'order and reduce_add the sum of the batch results, leaf by leaf; reducers honour axis and keepdims and '
  'interleaved accumulations do not influence each other.',
  ['inputs', 'histories'], 'all batch sequences, batch sizes, result trees',
  'Tests use batches of equal size, for which a mean of means and the mean coincide.',
  ['laplax/util/loader.py'], [('reduce_* functions', 'laplax/util/loader.py')])
P('C15', 'Randomness comes only from the given key, and no key is used twice',
  'Weight samples, linear and nonlinear predictives draw random numbers only from the PRNG key passed by the caller '
  '(a fixed one if none is passed); every derived key is consumed by at most one draw, so samples and leaves are '
  'independent, and the same key gives the same result.',
  ['inputs', 'configurations'], 'all parameter trees, sample counts, pushforward compositions',
  'Tests compare a few draws; key reuse between leaves or samples is statistically invisible in them.',
  ['laplax/eval/pushforward.py', 'laplax/util/tree.py'], [('key splitting', 'laplax/util/tree.py: randn_like; laplax/eval/pushforward.py: set_get_weight_sample')])
P('C16', 'Weight samples are mean plus scale operator times standard normal',
  'Weight sample i is mean + S eps_i, where S is the posterior scale operator and eps_i a standard-normal tree with '
  'the structure and shapes of the mean; precomputed, batched and lazily evaluated samples are the same values for '
  'every index, and every documented way to choose between them is accepted.',
  ['inputs', 'configurations'], 'all parameter trees, scale operators, sample counts, precompute options',
  'Tests check sample moments at a loose tolerance on one posterior.',
  ['laplax/eval/pushforward.py', 'laplax/util/tree.py', 'laplax/util/ops.py'],
  [('weight sampling', 'laplax/eval/pushforward.py: set_get_weight_sample'), ('precompute_list', 'laplax/util/ops.py')])
P('C17', 'Linearised predictive is the exact Gaussian pushforward',
  'The linearised predictive reports mean f(x), covariance J Sigma J^T, variance equal to its diagonal and standard '
  'deviation equal to its root, in whichever order and subset the pushforward functions are requested; samples are '
  'f(x) + J w_s with w_s the zero-mean weight samples. The posterior used is the one for the given prior arguments and '
  'loss scaling factor, and one predictive evaluated at several inputs keeps their results apart.',
  ['inputs', 'configurations', 'histories'], 'all inputs, models, posteriors, subsets and orders of pushforward functions',
  'Tests compare one model against its analytic moments at a tolerance and do not vary the order or subset.',
  ['laplax/eval/pushforward.py'], [('lin_* pushforward functions', 'laplax/eval/pushforward.py'), ('set_lin_pushforward', 'laplax/eval/pushforward.py')])
P('C18', 'Nonlinear predictive reports moments of one common ensemble',
  'The nonlinear predictive evaluates the model at every weight sample and reports the mean, the population variance, '
  'its root, and the population covariance (whose diagonal is that variance) of these predictions, whichever subset and '
  'order of pushforward functions is requested and for every batch size; reported samples are the first members of the '
  'same ensemble.',
  ['inputs', 'configurations'], 'all inputs, models, posteriors, sample counts, subsets of pushforward functions',
  'Tests check shapes and one comparison; the consistency of variance and covariance for each subset is not covered.',
  ['laplax/eval/pushforward.py', 'laplax/util/tree.py'], [('nonlin_* pushforward functions', 'laplax/eval/pushforward.py'), ('tree statistics', 'laplax/util/tree.py')])
P('C19', 'Class predictives follow their documented formulas',
  'The class predictives (mean field 0/1/2, Laplace bridge with and without correction, Dirichlet mean) equal their '
  'closed formulas in the mean and (co)variance of the logits; the linear and nonlinear pushforwards compute them from '
  'their own moments, whether these were reported before or not, and pass on special_pred_type and use_correction; the '
  'Monte-Carlo predictive is the mean softmax of the reported samples. An unknown predictive raises KeyError.',
  ['inputs', 'configurations'], 'all logits, variances, covariances, class counts, subsets of pushforward functions',
  'Tests check that probabilities sum to one on a few inputs.',
  ['laplax/eval/predictives.py', 'laplax/eval/pushforward.py'], [('predictive formulas', 'laplax/eval/predictives.py'), ('special_pred_act', 'laplax/eval/pushforward.py')])
P('C20', 'The posterior kernel equals the Jacobian-projected covariance',
  'set_posterior_gp_kernel returns the operator v -> J(x1) Sigma J(x2)^T v; its dense form has entry '
  'J_i(x1) Sigma J_j(x2)^T for every output layout, K(x, x) equals the linearised predictive covariance at x, the '
  'posterior is the one for the given prior arguments and loss scaling factor, and a dense kernel without an output '
  'layout raises ValueError.',
  ['inputs', 'configurations'], 'all input pairs, models, posteriors, output layouts',
  'Tests check one pair of inputs at a tolerance and only one output layout.',
  ['laplax/eval/pushforward.py'], [('set_posterior_gp_kernel', 'laplax/eval/pushforward.py')])
