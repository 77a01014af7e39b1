P('C06', 'Curvature is scaled by total samples over curvature samples at every entry',
  'The GGN and the Hessian operators equal num_total_samples / num_curv_samples times the sum over the given data; '
  'num_curv_samples defaults to the number of data points and num_total_samples to num_curv_samples. laplace() applies '
  'num_total_samples / num_curv_samples, GGN() its factor (both default one), for single batches and for streams, with '
  'and without mapping over the data.',
  ['inputs', 'configurations'], 'all data sets, sample counts, factors, entry points',
  'Tests leave the sample counts at their defaults or compare two calls that share the factor.',
  ['laplax/api.py', 'laplax/curv/ggn.py', 'laplax/curv/hessian.py'],
  [('scaling factor', 'laplax/curv/ggn.py, laplax/curv/hessian.py'), ('laplace() and GGN()', 'laplax/api.py')])
P('C09', 'Registries are complete, dispatch by name, and registration is atomic',
  'Every curvature approximation has an entry in each of the six registries. Registering a method stores every given '
  'function under its name, inherits every other one from the default, changes no other entry, and is used by '
  'estimate, precision, state, scale and covariance; a missing function without default, or an unknown default, raises '
  'and leaves every registry unchanged. The low-rank approximations call the algorithm of their name with operator, '
  'layout and all options unchanged.',
  ['configurations', 'histories'], 'all methods, defaults, subsets of given functions, options',
  'Tests register one method once, with one default; partial registration on failure is not observed.',
  ['laplax/register.py', 'laplax/curv/cov.py', 'laplax/curv/low_rank.py', 'laplax/eval/likelihood.py'],
  [('register_curvature_method', 'laplax/register.py'), ('CURVATURE_* dictionaries', 'laplax/curv/cov.py')])
P('C10', 'Options select exactly the behaviour of their name in every spelling',
  'curv_type, pushforward_type and predictive_type are accepted as enum member or string in any case, losses as enum '
  'member or their value, and each selects the approximation, predictive or loss of that name at every entry point: '
  'pred_act passed to the metrics is the requested class predictive, and absent for regression. Unknown names raise '
  'ValueError, as do special class predictives with the nonlinear pushforward; pushforward functions given by the '
  'caller replace the defaults.',
  ['inputs', 'configurations'], 'all option values, spellings and combinations at the public entry points',
  'Tests use enum members in a few combinations; a swapped or unreachable branch needs the full product.',
  ['laplax/api.py', 'laplax/enums.py', 'laplax/curv/ggn.py', 'laplax/curv/utils.py'],
  [('_convert_to_enum, _setup_pushforward', 'laplax/api.py'), ('loss dispatch', 'laplax/curv/ggn.py: create_loss_hessian_mv')])
