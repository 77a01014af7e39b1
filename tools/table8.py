P('C36', 'Documented misuse raises the documented exception',
  'Every call the documentation rejects raises the documented exception instead of returning a result, and changes no '
  'registry: a callable without layout (get_matvec, diagonal, lanczos_lowrank, lobpcg_lowrank: TypeError); lanczos_lowrank without key and start '
  'vector; both or neither of loss_fn and loss_hessian_mv; unknown losses or None as loss for a loss-Hessian product; unknown curvature types (KeyError in '
  'estimate_curvature, posterior and marginal likelihood, ValueError in laplace) and class predictives (KeyError); incomplete registrations and unknown '
  'defaults (KeyError); prior arguments without prior_prec (KeyError); malformed batches; empty loaders; unknown pushforward, predictive, metrics, calibration '
  'objective or method; chi^2 for classification and ECE for regression; metric inputs of different shapes; non-callable functions (TypeError), missing '
  'entries, wrong fields and a wrong number of names in apply_fns and transfer_entry; no metrics; a dense kernel without layout; lin_setup with a wrong '
  'posterior, jvp or vjp (TypeError); strings other than True and False in str_to_bool. Where no other type is named it is ValueError.',
  ['inputs', 'configurations'], 'all values of the arrays and sizes involved; every listed case, on every path',
  'Tests exercise a handful of error cases; a dropped or weakened guard makes a wrong result silently plausible.',
  ['laplax'],
  [('get_matvec', 'laplax/curv/utils.py'), ('apply_fns', 'laplax/eval/utils.py'), ('register_curvature_method', 'laplax/register.py'),
   ('_validate_and_get_transform', 'laplax/api.py'), ('lin_setup', 'laplax/eval/pushforward.py')],
  technique='abstract interpretation: every path of the rejected call must end in the documented exception')
P('C37', 'Losses, evidences and predictives avoid overflow, underflow and cancellation',
  'For finite inputs of any magnitude: the built-in cross-entropy and binary cross-entropy losses and the loss-Hessian products stay finite for logits of any '
  'size (log-softmax, log-sigmoid or shifted exponentials, no logarithm of a rounded probability, no quotient of overflowing exponentials); the Monte-Carlo '
  'and mean-field-0 class probabilities are finite; log-determinants and prior normalisations in the marginal and joint log-likelihood are sums or multiples '
  'of logarithms, so models with any number of parameters have a finite evidence; the Gaussian negative log-likelihood and CRPS are finite for any residual; '
  'variances, deviations and covariances of ensembles (pushforward and tree helpers) are computed from deviations from the mean, so they survive a large '
  'common offset; nothing is rounded to half precision.',
  ['inputs'], 'all magnitudes of logits, residuals, offsets and precisions; all sizes',
  'Tests use inputs of order one and few parameters, for which naive formulas give the same numbers.',
  ['laplax/curv/utils.py', 'laplax/curv/ggn.py', 'laplax/eval', 'laplax/util/tree.py'],
  [('log_sigmoid_cross_entropy', 'laplax/curv/utils.py'), ('concatenate_model_and_loss_fn', 'laplax/curv/utils.py'),
   ('create_loss_hessian_mv', 'laplax/curv/ggn.py'), ('marginal_log_likelihood', 'laplax/eval/likelihood.py'), ('nonlin_pred_var', 'laplax/eval/pushforward.py')],
  technique='abstract interpretation with opaque floating-point primitives; dataflow query for log/quotient of values that leave the floating-point range and for differences of raw moments')
P('C38', 'Options that are left out take their documented default',
  'Calling a function without an option gives the result it gives with the documented default. Products and curvature: mapped over the data, no rescaling, '
  'num_curv_samples and num_total_samples of laplace() are one, those of create_ggn_mv and create_hessian_mv the number of data points; loss scaling factor and noise '
  'one; low-rank curvature by Lanczos, rank 20 for lanczos_lowrank and lobpcg_lowrank. optimize_prior_prec: 300 points from 1e-5 to 1e6, no early stop; '
  'evaluate_for_given_prior_arguments: chi_squared_zero. calibration(): no class predictive, linear pushforward, negative log-likelihood, grid search; '
  'evaluation(): regression metrics, no class predictive, linear pushforward, no reduction, ten samples from jax.random.key(0). Metrics: averaged Gaussian scores and '
  'chi^2, cross entropy over the last axis, 15 bins. Loaders: (input, target) batches, running mean; reduce_sum keeps the reduced axis 0, concatenations act on '
  'axis 0. apply_fns and transfer_entry store in the results and transfer_entry reads from aux; wrap_function and wrap_factory change nothing unless asked, and '
  'wrap_function transforms the first argument.',
  ['inputs', 'configurations'], 'all values of the arrays and sizes involved; every listed option',
  'Tests pass most options explicitly, so the value of a default is rarely observed.',
  ['laplax'],
  [('create_ggn_mv', 'laplax/curv/ggn.py'), ('optimize_prior_prec', 'laplax/eval/calibrate.py'), ('evaluation', 'laplax/api.py'),
   ('reduce_sum', 'laplax/util/loader.py'), ('calculate_bin_metrics', 'laplax/eval/metrics.py')],
  technique='abstract interpretation: the result without the option equals the result with the documented value, in normal form')
