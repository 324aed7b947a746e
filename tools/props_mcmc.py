Z = 'zhusuan/'

prop(
    'C15', 'An HMC iteration is a Metropolis-corrected leapfrog trajectory',
    'Every HMC iteration, for every differentiable target, every number of '
    'chain and data axes and every set of latent variables, is chain by '
    'chain the exact Hamiltonian transition: a fresh N(0, mass) momentum, '
    'n_leapfrogs leapfrog steps of the current step size on the joint target, '
    'acceptance probability min(1, exp(H_old - H_new)), and a fresh uniform '
    'decision per chain that moves all latents of a chain together or none. '
    'Non-finite end points are never accepted. The statistics returned with '
    'the operation (samples, acceptance_rate, log_prob, orig_log_prob, '
    'hamiltonians, momenta) describe exactly that iteration, and without '
    'adaptation the step size never changes.',
    ['inputs', 'configurations', 'histories', 'schedules'],
    'a family of targets (functions and meta nets, bounded supports included) '
    'x chain / data shapes x step size x leapfrogs x iteration histories',
    'The tests run long chains on one or two densities and look at the final '
    'histogram; a wrong acceptance or a mixed-up chain survives that.',
    [Z + 'hmc.py', Z + 'utils.py'],
    [('HMC.sample, _leapfrog', Z + 'hmc.py'),
     ('leapfrog_integrator, get_acceptance_rate, random_momentum',
      Z + 'hmc.py')],
    ['latent variables before / after', 'HMCInfo fields'],
    'property-based testing of iteration histories against a float64 '
    'leapfrog/Metropolis model; statistical test of momenta and decisions',
    'Each iteration is replayed by an independent numpy integrator from the '
    'recorded state and momentum; chains whose trajectory amplifies float32 '
    'rounding are not judged. Randomness judged statistically.',
    [('step_size', 'current step size', Z + 'hmc.py'),
     ('latent variables', 'chain positions', Z + 'hmc.py')])

prop(
    'C16', 'HMC step-size and mass adaptation follow their stated rules',
    'With adaptation on, the step size follows dual averaging (Hoffman & '
    'Gelman) driven by the mean acceptance rate towards the target rate, '
    'started anew after the initial search at the first iteration and when '
    'the mass is first used; with adaptation fed as False the averaged step '
    'size of the adapting iterations is used and stays fixed. From iteration '
    'mass_collect_iters on the mass is the inverse of the exponentially '
    'decayed variance of every coordinate over iterations and chains, before '
    'that it is one, and it is frozen while adapt_mass is False. The '
    'transition of each iteration uses exactly the step size and mass in '
    'force.',
    ['inputs', 'configurations', 'histories', 'schedules'],
    'targets x shapes x adaptation parameters x on/off schedules of both '
    'adaptations',
    'The tests run one fixed schedule and look at the resulting histogram.',
    [Z + 'hmc.py'],
    [('StepsizeTuner', Z + 'hmc.py'),
     ('ExponentialWeightedMovingVariance', Z + 'hmc.py'),
     ('HMC._adapt_mass, _init_step_size, _adapt_step_size', Z + 'hmc.py')],
    ['HMCInfo.updated_step_size', 'HMCInfo.orig_hamiltonian',
     'latent variables before / after'],
    'property-based testing of adaptation histories against a dual-averaging '
    'and moving-variance model',
    'The shrinkage point of the dual averaging and the exact result of the '
    'initial search are inferred, not prescribed (the documentation does not '
    'state them).',
    [('step_size, t, dual averaging state', 'adaptation state',
      Z + 'hmc.py'),
     ('mean, var', 'moving moments of the chains', Z + 'hmc.py')])

prop(
    'C17', 'Each stochastic-gradient sampler update is the published one',
    'Every SGLD, PSGLD, SGHMC and SGNHT iteration applies the documented '
    'update formula to every latent variable, with the gradients of all '
    'latents taken at the position before the iteration (or, for the '
    'second-order integrator, at the half step), noise of exactly the stated '
    'variance, independent over coordinates, latents and iterations, and '
    'auxiliary variables (momenta, thermostats, preconditioners) carried from '
    'iteration to iteration and resampled exactly when n_iter_resample_v '
    'says so.',
    ['inputs', 'configurations', 'histories', 'schedules'],
    'samplers x targets x shapes x hyper-parameters x iteration histories x '
    'operation orders inside the graph',
    'The tests run one Gaussian-like target for thousands of steps and '
    'compare moments loosely.',
    [Z + 'sgmcmc.py', Z + 'utils.py'],
    [('SGMCMC.sample, _apply_updates', Z + 'sgmcmc.py'),
     ('SGLD / PSGLD / SGHMC / SGNHT._update', Z + 'sgmcmc.py')],
    ['latent variables before / after', 'info tuple (q, p, alpha)'],
    'property-based testing of update histories: residual noise of the '
    'documented formula must be standard normal; exact when noiseless',
    'The injected noise is recovered by inverting the documented update and '
    'judged statistically (7 sigma); preconditioner and momentum recursions '
    'are modelled exactly.',
    [('momentum, alpha, aux, iteration counter', 'auxiliary chain state',
      Z + 'sgmcmc.py')])

prop(
    'C18', 'AIS reports the weights of the annealing path it walked',
    'An AIS run draws its chains from the proposal, visits exactly '
    'n_temperatures increasing temperatures ending at the full model, and '
    'returns the mean over data of the log of the mean over chains of the '
    'importance weights of precisely the path that was walked; adaptation '
    'iterations before it leave no trace in the weights. The mean weight is '
    'therefore an unbiased estimate of the marginal likelihood, for every '
    'model, proposal, number of temperatures, HMC setting and repeated runs, '
    'also when the log likelihoods are far too small to exponentiate.',
    ['inputs', 'configurations', 'histories'],
    'models (functions and meta nets) x proposals x chain/data shapes x '
    'temperatures x HMC settings x repeated runs',
    'There is one test on a single Gaussian with a wide tolerance.',
    [Z + 'evaluation.py', Z + 'hmc.py'],
    [('AIS.__init__, run, _get_schedule_t, _get_lower_bound',
      Z + 'evaluation.py')],
    ['return value of AIS.run', 'session calls made by it'],
    'property-based testing: recorded annealing histories against a float64 '
    'path-weight oracle; unbiasedness on closed-form evidence',
    'The path (temperatures and latent values) is recorded at the session '
    'boundary, so the estimate is compared with the weights of the walked '
    'path itself; unbiasedness judged at 7 standard errors.')

prop(
    'C19', 'Flow transforms return the exact log-determinant of their Jacobian',
    'For planar normalizing flows, inverse autoregressive flows and the '
    'linear autoregressive network, the returned log-probability equals the '
    'input log-probability minus the log absolute determinant of the Jacobian '
    'of the returned transformation, per sample, for every number of '
    'iterations, parameters and shape; planar flows stay invertible and '
    'autoregressive outputs depend only on earlier coordinates.',
    ['inputs', 'configurations'],
    'flows x iterations x update kinds x dimensions x batch shapes x static '
    'knowledge',
    'The tests compare one or two fixed inputs and mostly check shapes.',
    [Z + 'transform.py'],
    [('planar_normalizing_flow, inv_autoregressive_flow, linear_ar',
      Z + 'transform.py')],
    ['transformed samples and log_probs'],
    'property-based testing against the numerically differentiated Jacobian',
    'Jacobians come from differentiating the outputs themselves; badly '
    'conditioned Jacobians are not judged.')

prop(
    'C20', 'Helper functions compute their documented result on all inputs',
    'log_mean_exp and log_sum_exp equal the mathematical value for every '
    'axis specification, keepdims, magnitude (overflow-scale, tiny and '
    'infinite values) and static shape knowledge; log_combination, explicit '
    'broadcasting, shape inspection, merge_dicts and the rank, scalar and '
    'dtype assertions return what they document, reject exactly what they '
    'are documented to reject, and never change their arguments.',
    ['inputs', 'configurations'],
    'shapes x axes x magnitudes x dtypes x static knowledge; helper arguments',
    'The tests use a few moderate arrays.',
    [Z + 'utils.py', D + 'utils.py'],
    [('log_mean_exp, log_sum_exp, merge_dicts', Z + 'utils.py'),
     ('shape and dtype assertions', D + 'utils.py')],
    ['returned values', 'exceptions'],
    'property-based testing against float64 numpy references',
    'Independent float64 references.')

prop(
    'C21', 'effective_sample_size follows its estimator for every chain',
    'For every chain of samples and burn-in, effective_sample_size is the '
    'minimum over coordinates of n / (1 + 2 sum of autocorrelations), summed '
    'over the lags before the first negative one, computed from the samples '
    'after the burn-in only; it does not depend on shift, scale or order of '
    'the coordinates and leaves the samples unchanged.',
    ['inputs', 'histories'],
    'chains of all dependence structures, lengths, dimensions and burn-ins',
    'The tests check two synthetic chains with a generous tolerance.',
    [Z + 'diagnostics.py'],
    [('effective_sample_size, effective_sample_size_1d',
      Z + 'diagnostics.py')],
    ['returned value'],
    'property-based testing against a direct O(n^2) reference estimator',
    'The current tree sums the lag-0 autocorrelation as well (known finding); '
    'exactly that variant is tolerated and reported as KNOWN-FINDING.')

prop(
    'C22', 'A variational objective is one tensor at one set of samples',
    'Whatever sequence of queries, casts, operators, session fetches and '
    'feeds and estimator calls is applied to a variational objective, '
    'everything refers to the same posterior samples, the same model net '
    '(the model function runs at most once per objective) and the '
    'observations given at construction, also if the caller changes its '
    'dictionaries later or builds further objectives from the same '
    'posterior. Operators and TensorFlow functions give what they give on '
    'the value of the objective; Python identity semantics hold; the '
    'inclusive KL objective refuses to be evaluated.',
    ['histories', 'inputs'],
    'histories of calls x objectives x models x sample layouts x argument '
    'forms',
    'The tests make one call per objective on one model.',
    [Z + 'variational/base.py', Z + 'variational/exclusive_kl.py',
     Z + 'variational/monte_carlo.py', Z + 'variational/inclusive_kl.py',
     Z + 'utils.py'],
    [('VariationalObjective.tensor, bn, _log_joint_term, _entropy_term',
      Z + 'variational/base.py'),
     ('TensorArithmeticMixin', Z + 'utils.py')],
    ['objective value', 'objective.bn', 'gradients of the surrogates'],
    'stateful property-based testing against a float64 model of the family',
    'Gradients of estimators are judged in the model parameters only (C14 '
    'judges the rest).')

prop(
    'C23', 'Equal seeds give equal results and nothing leaks between programs',
    'With a graph-level random seed, building and running the same program '
    'again - distributions, nets, HMC, stochastic-gradient samplers, AIS, '
    'variational estimators, flows - gives bit-identical results, whatever '
    'else was built or run before in other graphs or beside it in the same '
    'graph, and in any process; another seed, or none, gives other draws. '
    'Library calls leave the dictionaries, lists and arrays of the caller '
    'unchanged, the state of samplers and estimators is in variables that '
    'are not trainable (only the weights of flows are), and running the '
    'initializers again starts over.',
    ['inputs', 'configurations', 'histories', 'schedules'],
    'pairs of programs x seeds x interleavings x processes',
    'The tests never build the same program twice, run two samplers side by '
    'side or look at the variable collections.',
    [Z + 'hmc.py', Z + 'sgmcmc.py', Z + 'evaluation.py', Z + 'transform.py',
     Z + 'framework/bn.py', Z + 'framework/meta_bn.py',
     Z + 'framework/utils.py', Z + 'distributions/base.py',
     Z + 'variational/exclusive_kl.py'],
    [('HMC, StepsizeTuner, ExponentialWeightedMovingVariance',
      Z + 'hmc.py'),
     ('SGMCMC._define_variables', Z + 'sgmcmc.py'),
     ('Context', Z + 'framework/utils.py')],
    ['results of session runs', 'tf.trainable_variables()',
     'arguments after the call'],
    'property-based differential testing of a program with itself: alone, '
    'beside another program, with another seed, in another process',
    'One inter-op and intra-op thread: TensorFlow itself is not '
    'deterministic beyond that.')

prop(
    'C24', 'Inference calls that cannot be carried out are refused',
    'A sampler or AIS given a latent that is not a variable, HMC given a '
    'log joint of unknown rank or mass adaptation without step-size '
    'adaptation, a variational objective or likelihood estimate given both, '
    'neither or the wrong kind of posterior, a model latent without '
    'observation or posterior, a multi-sample objective without axis or '
    'VIMCO with a single sample raises the documented kind of error instead '
    'of returning numbers, for every model and whichever latent is at fault. '
    'A refused call leaves no trace: the corrected call in the same graph '
    'works.',
    ['inputs', 'configurations'],
    'entry points x models x faults x which latent is at fault x forms',
    'The tests try one fault per entry point on a model with one latent.',
    [Z + 'hmc.py', Z + 'sgmcmc.py', Z + 'evaluation.py',
     Z + 'variational/base.py', Z + 'variational/monte_carlo.py'],
    [('HMC.__init__, sample', Z + 'hmc.py'),
     ('SGMCMC._make_grad_func', Z + 'sgmcmc.py'),
     ('VariationalObjective.__init__, _validate_variational_inputs',
      Z + 'variational/base.py'),
     ('ImportanceWeightedObjective', Z + 'variational/monte_carlo.py')],
    ['exceptions', 'results of the corrected call'],
    'property-based fault injection: valid call with one argument broken, '
    'and its valid twin in the same graph',
    'Flows are judged by C19, distributions by C06, nets by C08 to C10.')
