P('C21', 'The marginal likelihood is the Laplace evidence for every curvature type',
  'marginal_log_likelihood equals log joint - (-P/2 log 2 pi + 1/2 log det H). H is the posterior precision of the given '
  'curvature estimate, prior arguments and loss scaling factor; its log-determinant is slogdet for the full, the sum of '
  'logs for the diagonal, and P log s + sum log(1 + S/s) for the low-rank approximation. log joint = -loss / (2 sigma) - '
  'tau/2 |theta|^2 - P/2 (log 2 pi - log tau), with the loss of all given data (built-in or callable) and P the parameter count.',
  ['inputs', 'configurations'], 'all curvature types, losses, prior arguments, data and parameter sizes, mapped or not',
  'Tests compare two implementations on one tiny model; a factor or sign that cancels for one sigma or rank is not seen.',
  ['laplax/eval/likelihood.py', 'laplax/curv/utils.py'],
  [('marginal_log_likelihood and variants', 'laplax/eval/likelihood.py'), ('concatenate_model_and_loss_fn', 'laplax/curv/utils.py')])
P('C22', 'Prior-precision search returns the grid point with the least objective',
  'grid_search evaluates the objective at the grid points in order, stops only at max_iterations evaluations or when the '
  'last patience evaluations each exceeded their predecessor, treats nan and ValueError as infinitely bad, lets other '
  'errors through, and returns the first evaluated point with the least value. optimize_prior_prec searches '
  '10^(min + k (max - min) / (n - 1)), k = 0..n-1, and passes its options on.',
  ['inputs', 'histories'], 'all sequences of objective values (any order, ties, nan, failures), patience and max_iterations',
  'Tests run one smooth objective; plateaus, nan, failures and early stops depend on the whole history of values.',
  ['laplax/eval/calibrate.py'], [('grid_search, optimize_prior_prec', 'laplax/eval/calibrate.py')])
P('C23', 'calibration() optimises the objective that was asked for',
  'calibration() builds the objective of the given name from the predictions for all data and their targets at the given '
  'prior arguments (likelihood with one-hot targets for classification; chi-squared; calibration error of the largest class '
  'probability; negative marginal likelihood of the given estimate, model, loss and type), runs the given method with the '
  'given options, and returns its prior arguments and a usable predictive. Unsuitable or unknown objectives and methods, '
  'and malformed data, raise ValueError.',
  ['inputs', 'configurations'], 'all objectives, methods, likelihoods, data and prior arguments',
  'Tests only check that a number comes back; which metric was minimised, on which data, is not observed.',
  ['laplax/api.py', 'laplax/eval/calibrate.py'],
  [('calibration and objective builders', 'laplax/api.py'), ('evaluate_for_given_prior_arguments', 'laplax/eval/calibrate.py')])
P('C24', 'Every metric equals its published formula on all data points',
  'nll_gaussian, crps_gaussian, chi_squared, estimate_rmse, cross_entropy, correctness, accuracy (top-k), '
  'expected and maximum calibration error and the bin metrics equal their formulas: Gaussian scores use mean and standard '
  'deviation entrywise, averages run over all entries or are sums if requested, labels may be integers or one-hot, correctness 0/1 or Boolean, ECE '
  'weights |accuracy - confidence| of each bin by its share of samples, empty bins count zero. Further entries of the '
  'predictions are ignored; mismatched shapes raise ValueError.',
  ['inputs'], 'all predictions, deviations, targets, sizes, numbers of bins and classes, options',
  'Tests evaluate each formula at one or two arrays; equality of two formulas for all values is an algebraic fact.',
  ['laplax/eval/metrics.py'], [('metric functions', 'laplax/eval/metrics.py')])
P('C25', 'The evaluation pipeline evaluates every data point once, in order',
  'finalize_fns applies functions in order, each seeing the results of the previous ones and all options; apply_fns gives '
  'each function the selected entries and stores its value under its name; transfer_entry copies entries and nothing else. '
  'evaluate_metrics_on_dataset, _on_generator and evaluation() compute every metric from prediction and target of each data '
  'point, over arrays, loaders and one-shot iterators alike, lose no batch, reduce once, and leave the caller\'s lists unchanged.',
  ['inputs', 'histories', 'configurations'], 'all data sources, numbers of batches, metrics, reductions and field mappings',
  'Tests use one data form with one metric; order, lost batches and double reduction need the product of all forms.',
  ['laplax/eval/utils.py', 'laplax/api.py'],
  [('finalize_fns, apply_fns, transfer_entry, evaluate_*', 'laplax/eval/utils.py'), ('evaluation', 'laplax/api.py')])
