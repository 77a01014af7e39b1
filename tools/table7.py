P('C31', 'Matrix-free methods need memory linear in the number of parameters',
  'The GGN and Hessian products, the diagonal of an operator, the diagonal and low-rank posteriors (estimation from given low-rank '
  'terms, precision, scale, covariance, evidence), the Lanczos iteration, weight samples, linearised and Monte-Carlo predictives and '
  'the posterior kernel never build an array whose size is quadratic in the number of parameters; only the full approximation and '
  'dense conversion do.',
  ['inputs', 'configurations'], 'all sizes; every operation of the matrix-free methods',
  'Tests use small models, for which a dense intermediate matrix costs nothing and gives the same numbers.',
  ['laplax/curv', 'laplax/eval/pushforward.py', 'laplax/eval/likelihood.py', 'laplax/util'],
  [('create_low_rank_mv', 'laplax/curv/low_rank.py'), ('diagonal posterior', 'laplax/curv/diagonal.py'), ('diagonal', 'laplax/util/mv.py')],
  technique='abstract interpretation with symbolic sizes: the degree of the size polynomial of every array the program builds')
P('C29', 'Low-rank approximations converge to the leading eigenpairs',
  'For a symmetric operator with a gap in its spectrum the eigenpairs returned by lanczos_lowrank and lobpcg_lowrank approach the '
  'leading eigenpairs of the operator as rank or iteration count grow, with an error below the tolerance.',
  ['inputs'], 'all operators with a spectral gap, all starts',
  'Tests compare a few small matrices at fixed seeds.',
  ['laplax/curv/lanczos.py', 'laplax/curv/lobpcg.py'], [('lanczos_lowrank', 'laplax/curv/lanczos.py'), ('lobpcg_lowrank', 'laplax/curv/lobpcg.py')])
na('C29', 'Convergence is a quantitative statement about the spectrum of a runtime operator; no property of the source bounds it. '
   'The algebraic part (recurrence, projected matrix, step-by-step agreement with the JAX routine) is decided by C30 and C33.')
P('C32', 'Results keep single-precision accuracy for ill-conditioned inputs',
  'Posterior operators, predictives, evidences and metrics agree with exact arithmetic up to a small multiple of the unit roundoff, also for '
  'badly scaled curvature, tiny prior precision and large data sets.',
  ['inputs'], 'all magnitudes of inputs',
  'Tests use well-scaled random inputs and tolerances.',
  ['laplax/curv', 'laplax/eval'], [('posterior state', 'laplax/curv/full.py'), ('metrics', 'laplax/eval/metrics.py')])
na('C32', 'Floating-point error bounds depend on runtime magnitudes and on the order of reductions chosen by XLA; the analysis works over '
   'real arithmetic. (Avoidable overflow, underflow and cancellation are decided by C37; explicit cut-offs such as eps or tolerances are terms of the domain and are compared like everything else.)')
P('C35', 'Monte-Carlo predictives converge to the exact predictive',
  'As the number of weight samples grows, the sample moments of the Monte-Carlo predictives approach the moments of the pushforward of the posterior.',
  ['inputs'], 'all models and posteriors',
  'Tests use few samples with loose tolerances.',
  ['laplax/eval/pushforward.py'], [('nonlinear pushforward', 'laplax/eval/pushforward.py')])
na('C35', 'A statement about the distribution of pseudo-random numbers. The structural part (independent keys, mean plus scale times standard '
   'normal, population moments of one ensemble) is decided by C15, C16 and C18.')
