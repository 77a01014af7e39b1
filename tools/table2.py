P('C01', 'Posterior precision combines curvature, prior and loss scaling exactly',
  'For every curvature approximation (full, diagonal, low rank) the posterior precision is '
  '(sigma_squared * curvature + prior_prec * I) / loss_scaling_factor, where sigma_squared and the scaling factor '
  'default to one, and the covariance of the returned posterior is the inverse of that precision. The full and '
  'diagonal estimates are the matrix and the diagonal of the curvature operator in flattening order, for integer and '
  'tree layouts; each posterior depends only on the prior arguments it was created with.',
  ['inputs', 'configurations'], 'all curvature estimates, prior arguments, scaling factors, sizes, ranks',
  'Tests use sigma_squared = loss_scaling_factor = 1 with a few random matrices, at a tolerance.',
  ['laplax/curv/full.py', 'laplax/curv/diagonal.py', 'laplax/curv/low_rank.py', 'laplax/curv/cov.py'],
  [('per-approximation precision functions', 'laplax/curv/{full,diagonal,low_rank}.py'), ('registry dispatch', 'laplax/curv/cov.py: set_posterior_fn')])
P('C02', 'Scale and covariance of a posterior are consistent linear operators',
  'For every approximation, the scale operator S and the covariance operator C of a posterior are linear, satisfy '
  'S S^T = C, depend only on the state passed to them, and act on flat vectors (integer or no layout) or on parameter '
  'trees (tree layout) through the same flattening order. The low-rank product is U diag(S) U^T + scalar I and its '
  'square is the operator applied twice.',
  ['inputs', 'configurations'], 'all posterior states, vectors, layouts, approximations',
  'Tests check C against the inverse on a few matrices at a tolerance; S S^T = C is not checked for every approximation and layout.',
  ['laplax/curv/full.py', 'laplax/curv/diagonal.py', 'laplax/curv/low_rank.py', 'laplax/curv/cov.py'],
  [('scale/covariance factories', 'laplax/curv/{full,diagonal,low_rank}.py'), ('layout wrapping', 'laplax/curv/cov.py: set_posterior_fn')])
