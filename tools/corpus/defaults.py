"""Bugs against C38: a default value that is not the documented one."""
AP = 'api.py'; GG = 'curv/ggn.py'; HE = 'curv/hessian.py'; LZ = 'curv/lanczos.py'; LB = 'curv/lobpcg.py'; LR = 'curv/low_rank.py'
CV = 'curv/cov.py'; ME = 'eval/metrics.py'; PU = 'eval/pushforward.py'; CA = 'eval/calibrate.py'; EU = 'eval/utils.py'; LO = 'util/loader.py'; FL = 'util/flatten.py'
DI = 'curv/diagonal.py'; FU = 'curv/full.py'; CU = 'curv/utils.py'
b = lambda n, f, o, w, nth=0: bug('d-' + n, 'C38', [(f, o, w, nth)])
b('ggn-vmap', GG, 'vmap_over_data: bool = True', 'vmap_over_data: bool = False', 1)
b('ggn-vmap-wd', GG, 'vmap_over_data: bool = True', 'vmap_over_data: bool = False', 0)
b('hess-vmap', HE, 'vmap_over_data: bool = True', 'vmap_over_data: bool = False', 1)
b('hess-vmap-wd', HE, 'vmap_over_data: bool = True', 'vmap_over_data: bool = False', 0)
b('laplace-total', AP, 'num_total_samples: Int = 1', 'num_total_samples: Int = 10')
b('bins', ME, 'num_bins: int = 15', 'num_bins: int = 10')
b('crps', ME, 'scaled: bool = True', 'scaled: bool = False', 0)
b('nll', ME, 'scaled: bool = True', 'scaled: bool = False', 1)
b('ce-axis', ME, 'axis: int = -1', 'axis: int = 0')
b('grid-min', CA, 'log_prior_prec_min: float = -5.0', 'log_prior_prec_min: float = -3.0')
b('grid-max', CA, 'log_prior_prec_max: float = 6.0', 'log_prior_prec_max: float = 5.0')
b('grid-size', CA, 'grid_size: int = 300', 'grid_size: int = 100')
b('patience', CA, 'patience: int | None = None', 'patience: int | None = 5')
b('field', EU, 'field: str = "results"', 'field: str = "aux"', 0)
b('field-transfer', EU, 'field: str = "results"', 'field: str = "aux"', 1)
b('keepdims', LO, 'keepdims: bool = True', 'keepdims: bool = False')
b('axis-sum', LO, 'axis: int = 0', 'axis: int = -1', 0)
b('axis-cat', LO, 'axis: int = 0', 'axis: int = -1', 1)
b('axis-rcat', LO, 'axis: int = 0', 'axis: int = -1', 2)
b('reduce-exec', LO, 'reduce: Callable = reduce_online_mean', 'reduce: Callable = reduce_add', 0)
b('reduce-wrap', LO, 'reduce: Callable = reduce_online_mean', 'reduce: Callable = reduce_add', 1)
b('reduce-mv', LO, 'reduce: Callable = reduce_online_mean', 'reduce: Callable = reduce_add', 2)
b('argnum', FL, 'argnums: int = 0', 'argnums: int = 1')
b('eval-samples', AP, 'num_samples: int = 10', 'num_samples: int = 30')
b('eval-push', AP, 'Pushforward | str = Pushforward.LINEAR', 'Pushforward | str = Pushforward.NONLINEAR', 1)
b('cal-push', AP, 'Pushforward | str = Pushforward.LINEAR', 'Pushforward | str = Pushforward.NONLINEAR', 0)
b('cal-pred', AP, 'Predictive | str = Predictive.NONE', 'Predictive | str = Predictive.MC_BRIDGE', 0)
b('eval-pred', AP, 'Predictive | str = Predictive.NONE', 'Predictive | str = Predictive.MEAN_FIELD_0', 1)
b('cal-obj', AP, 'CalibrationObjective | str = CalibrationObjective.NLL', 'CalibrationObjective | str = CalibrationObjective.CHI_SQUARED')
b('prior-metric', CA, '= chi_squared_zero', '= chi_squared')
b('scale-lin', PU, 'loss_scaling_factor: Float = 1.0', 'loss_scaling_factor: Float = 2.0', 1)
b('scale-nonlin', PU, 'loss_scaling_factor: Float = 1.0', 'loss_scaling_factor: Float = 2.0', 0)
b('scale-kernel', PU, 'loss_scaling_factor: Float = 1.0', 'loss_scaling_factor: Float = 2.0', 2)
b('scale-post', CV, 'loss_scaling_factor: Float = 1.0', 'loss_scaling_factor: Float = 0.5')
b('low-rank-method', LR, 'LowRankMethod.LANCZOS', 'LowRankMethod.LOBPCG')
b('rank-lanczos', LZ, '    rank: int = 20', '    rank: int = 10')
b('rank-lobpcg', LB, '    rank: int = 20', '    rank: int = 10')
