"""Writes properties.jsonl (kept as a script only to keep the JSON readable)."""
import json, os
B = 'bayesian_sde_solver/'
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[B + f for f in files],
                               state=[dict(name=a, meaning=b, where=B + c) for a, b, c in state],
                               mechanism=[dict(name=a, where=B + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop('C01', 'Itô and Stratonovich drifts are converted exactly, in both directions',
     'For every drift and every differentiable diffusion matrix (any state dimension and number of noise channels, state- and time-dependent), converting an Itô SDE to Stratonovich form subtracts from component i of the drift exactly one half of the sum over j,k of sigma_jk * d sigma_ik / d x_j evaluated at the same state and time, and converting to Itô form adds it. Any chain of the two conversions shifts the drift by the net number of corrections, so that they are mutually inverse, and none of them changes the diffusion.',
     ['inputs', 'histories'], 'All diffusions spanned by pairs of monomial entries of degree <= 2 in (x, t), dimensions d, m <= 3, all conversion words up to length 3, on a grid of states and times.',
     'tests/test_ito_strato.py evaluates three diffusions (two of them square and time-independent) at one point each; the correction is a quadratic form in sigma whose hundreds of index combinations are not reached.',
     ['ito_stratonovich.py'], [('drift_correction', 'ito_stratonovich.py'), ('to_stratonovich / to_ito', 'ito_stratonovich.py')],
     ['returned drift and diffusion callables'])

prop('C02', 'Brownian polynomial coefficients have the exact joint Gaussian law',
     'On an interval of length dt, each generator of polynomial approximations returns an increment with law N(0, dt I) and an area coefficient with law N(0, dt/2 I), jointly Gaussian, centred and independent of each other and across components, for every dimension, interval length and resolution (for the generator which integrates a sampled walk of N points the area variance is that of the trapezoidal rule, dt/2 (1 - 1/N^2)). The fine increments and areas returned next to them are independent of each other across sub-intervals with the law of the sub-interval, in the units in which they are returned (standard normal for the increments of the sampled walk; variance of the sub-interval / 12 for fine areas).',
     ['inputs', 'configurations'], 'All three generators, dimension <= 3, a grid of interval lengths and resolutions, the whole space of noise realisations (law determined on a basis of the noise space, affinity checked on all pairs).',
     'tests/test_foster.py estimates moments by Monte Carlo at a few digits for one interval length; a wrong correlation between components, a dependence on dt or N, or a non-Gaussian substitute stays within its tolerance.',
     ['foster_polynomial.py'], [('get_approx', 'foster_polynomial.py'), ('get_approx_and_brownian', 'foster_polynomial.py'), ('get_approx_fine', 'foster_polynomial.py')],
     ['coefficients returned by the generators'])

prop('C03', 'Coarse coefficients are those of the fine path returned with them',
     'When a generator returns a fine resolution of the Brownian path together with the coarse coefficients, the coarse increment is the sum of the fine increments and the coarse area coefficient is sqrt(6) * (time integral of the fine path / dt - increment / 2), path by path. The integral is exact for the piecewise-parabolic fine path and the trapezoidal rule over all grid points, including the origin, for the sampled walk.',
     ['inputs'], 'All fine noise realisations over a three-letter alphabet for small resolutions and all basis realisations for larger ones (including the defaults), dimension <= 3, a grid of interval lengths.',
     'The tests only look at the law of the coarse polynomial; the pathwise relation with the fine path, which every pathwise error measurement in the article relies on, is never checked.',
     ['foster_polynomial.py'], [('update_eps scan', 'foster_polynomial.py'), ('trapezoidal area', 'foster_polynomial.py')],
     ['coefficients returned by the generators'])

prop('C04', 'The Brownian polynomial is the parabola with the given increment and area',
     'The polynomial with coefficients (a, b) on an interval of length dt is 0 at the start, a at the end, has time integral dt * (a/2 + b/sqrt(6)) and derivative (a + sqrt(6) b (1 - 2t/dt)) / dt at every time including both ends. This holds componentwise for every dimension, for scalar and array times, and identically for all generators whatever extra coefficients they carry.',
     ['inputs', 'configurations'], 'All generators, all (a, b) in a basis plus pairs, dimension <= 3, grids of dt and of times including 0 and dt, scalar and batched times.',
     'Tests evaluate the polynomial only at the end point or under a statistical average of its integral.',
     ['foster_polynomial.py'], [('eval_parabola', 'foster_polynomial.py')], ['values and forward-mode derivatives of the evaluation function'])

prop('C05', 'Each solver step integrates the random ODE of its own interval',
     'For every drift, diffusion, Brownian polynomial generator and ODE integrator, step k of the SDE solver starts from the state after step k-1, hands the integrator the field drift(z, t_k + s) + sigma(z, t_k + s) @ (derivative of the step-k polynomial at s) with s running over [0, delta], and records the resulting state and the coefficients actually used in that step. The k-th entry of every output therefore refers to the same step, whatever the number of steps, the step size, the state dimension, the number of noise channels or the structure of the state.',
     ['inputs', 'histories', 'configurations'], 'All step counts up to a bound, non-square diffusions, array and tuple states, time-dependent polynomial fields, all generators, all noise histories over a small alphabet.',
     'tests/test_sde_solver_foster.py and test_end_to_end.py compare means and standard deviations at a tolerance of 10% for autonomous fields; they never use a time-dependent diffusion and never look at the returned coefficients.',
     ['sde_solver.py'], [('scan body and time shift', 'sde_solver.py')], ['trajectory, times and coefficients returned by the solver', 'field passed to the integrator'],
     [('carry', 'state after the previous step', 'sde_solver.py')])

prop('C06', 'Steps, components and roles use independent randomness and never anticipate',
     'In every stochastic solver and generator, each random number is used for one purpose only: the noise of different steps, of different components, of the Brownian path and of posterior sampling is mutually independent, and the state after step k depends on the noise of the first k steps only and on all of it. The same key always reproduces the same output and different keys share no randomness.',
     ['histories', 'inputs', 'configurations'], 'All solvers x step counts x dimensions; every key derivation of an execution is tracked and every random variable of the execution is varied individually.',
     'Key reuse leaves all marginal moments tested by the suite unchanged; the tests fix one key and never sample from the posterior.',
     ['sde_solver.py', 'ssm_parabola/ssm_parabola_ode.py', 'sde_solvers/euler_maruyama.py', 'sde_solvers/diag_15_scheme.py', 'sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py', 'foster_polynomial.py', 'utils/ivp.py'],
     [('jax.random.split discipline', 'sde_solver.py')], ['outputs as functions of the controlled noise', 'keys consumed by random draws'])

prop('C07', 'The Euler integrator is the explicit Euler recursion',
     'For every vector field, initial state, step size and number of steps, the Euler ODE integrator returns the state after exactly N steps of x <- x + h f(x, t) with t running over 0, h, ..., (N-1) h.',
     ['inputs', 'histories'], 'All polynomial fields with up to two monomials (including time-dependent ones), dimension <= 3, all N up to a bound, a grid of h.',
     'tests/test_euler.py uses two scalar fields with 1000 steps and three decimals, which an off-by-one in the times or the number of steps passes.',
     ['ode_solvers/euler.py'], [('scan over the time grid', 'ode_solvers/euler.py')], ['returned state'])

prop('C08', 'Euler-Maruyama is the exact recursion on independent Gaussian increments',
     'Euler-Maruyama returns the path x_{k+1} = x_k + h drift(x_k, t_k) + sigma(x_k, t_k) dW_k at t_k = k h, where the key-driven version uses independent N(0, h I) increments and the pathwise version uses the given increments, multiplied by sqrt(h) exactly when they are declared standard. This holds for every (non-square, state- and time-dependent) diffusion and every step, both versions agree on the same increments, and the given increments are left unmodified.',
     ['inputs', 'histories'], 'All increment sequences over a three-letter alphabet up to a bound, d, m <= 3, polynomial drift and diffusion in (x, t), both variants and both flag values, NumPy and JAX increments.',
     'tests/test_euler_maruyama.py checks moments of a scalar GBM at one decimal and one additive path with the flag on; time dependence, non-square multiplicative noise and the other flag value are not reached.',
     ['sde_solvers/euler_maruyama.py'], [('scan bodies', 'sde_solvers/euler_maruyama.py')], ['returned times and path', 'the caller\'s increment array'])

prop('C09', 'The Kalman filter computes the exact Gaussian posterior',
     'For linear observation functions the filter returns exactly the mean and covariance of the last state of the linear-Gaussian model conditioned on all observations being zero, for any transition, increment, noise covariances and time-dependent observation; with nonlinear observations each update conditions on the linearisation at the predicted mean. When asked for calibration data it also returns the residual and innovation covariance of the last update, and its predict and update steps are the corresponding single steps.',
     ['inputs', 'histories'], 'All models over small alphabets for A, Q, xi, H, R, m0, P0 (dimension <= 3, 1-2 observed components), all horizons up to 3, both covariance representations.',
     'tests/test_ekf.py only compares the two representations with each other on one random model of dimension 2, and both of its tests fail at the pinned commit.',
     ['ode_solvers/probnum/ekf.py'], [('predict', 'ode_solvers/probnum/ekf.py'), ('update', 'ode_solvers/probnum/ekf.py'), ('ekf', 'ode_solvers/probnum/ekf.py')], ['returned mean, covariance, residual and innovation covariance'])

prop('C10', 'Square-root and covariance forms give the same Gaussian, and stay finite',
     'For every probabilistic solver and for the filter itself, the square-root form and the covariance form return the same means, covariances and sampling laws, with the same meaning of every argument (prior, observation noise, initial covariance). Covariances are symmetric positive semi-definite and all results are finite, also for degenerate inputs: zero or rank-deficient initial covariance, no observation noise, padded priors, vanishing diffusion or Jacobian.',
     ['inputs', 'configurations'], 'All solvers x priors x noises x (singular and regular) initial covariances x polynomial fields over small alphabets, dimension <= 2 (3 in the thorough tier).',
     'The end-to-end tests run both forms on well-conditioned problems and compare Monte Carlo moments at 10%; at the pinned commit the square-root tests of several solvers fail.',
     ['ode_solvers/probnum/ekf.py', 'ode_solvers/ekf.py', 'ode_solvers/ekf0.py', 'ode_solvers/ekf1.py', 'ode_solvers/ekf0_2.py', 'ode_solvers/ekf1_2.py', 'ssm_parabola/ekf.py'],
     [('tria', 'ode_solvers/probnum/ekf.py'), ('square roots of input covariances', 'ode_solvers/ekf.py')], ['means, covariances and sampling laws returned by the solvers'])

prop('C11', 'Prior transitions are the exact discretisation of their linear SDE',
     'The transition (increment, covariance, matrix) returned for a general linear time-invariant SDE, for the integrated Brownian motion and for the Matern processes is the conditional law of the process after the given time: matrix exp(F h), increment and covariance the corresponding integrals, hence composing two consecutive transitions gives the transition over the sum of the times. It scales with the squared magnitude, consists of independent identical blocks when replicated over dimensions, and for an integrated Ornstein-Uhlenbeck process with nonzero rate the matrix is exact and the covariance is the leading-order one in the time step.',
     ['inputs', 'configurations'], 'All F over {-1,0,1}^{2x2} and a family of 3x3 matrices, several u and L (one or two noise columns), IBM orders 0-4, Matern orders 0-3 with both evaluation modes, grids of times, magnitudes, lengths, dimensions.',
     'No test calls these functions except through the default IBM(1) prior; at the pinned commit the general and the non-3/2 Matern branches even raise an exception.',
     ['ode_solvers/probnum/IOUP.py', 'ode_solvers/probnum/matern.py', 'ode_solvers/probnum/transition_function.py'],
     [('closed forms and quadrature', 'ode_solvers/probnum/transition_function.py'), ('companion matrix', 'ode_solvers/probnum/matern.py')], ['returned (increment, covariance, matrix)'])

prop('C12', 'Priors and states combine block by block in the documented layout',
     'Padding a prior to a higher order embeds its increment, covariance and matrix in the leading block and adds only zeros; combining priors of independent components gives the block-diagonal transition in the given order, and solving an uncoupled system with the combined prior is the same as solving each component with its own prior. Interlacing vectors (and the four covariance blocks of two vectors) places entry i of vector j at position i * (number of vectors) + j, losing and mixing nothing.',
     ['inputs', 'configurations'], 'All tuples of up to three priors from a menu (orders 1-3, padded or not), all unit vectors and matrices up to dimension 4, uncoupled polynomial systems of up to three components.',
     'Nothing in the test suite touches padding or combination, and interlacing is only used through two-dimensional problems in which a permutation error can cancel.',
     ['ode_solvers/probnum/transition_function.py', 'ode_solvers/probnum/_utils.py'],
     [('pad_prior', 'ode_solvers/probnum/transition_function.py'), ('get_independently_factorized_prior', 'ode_solvers/probnum/transition_function.py'), ('interlace / interlace_matrix', 'ode_solvers/probnum/_utils.py')], ['returned priors and arrays', 'solutions of uncoupled systems'])

prop('C13', 'The Gaussian ODE filter step solves the documented filtering problem',
     'Without a key, the order-0 and order-1 Gaussian ODE filters return the posterior mean of the solution after N steps of size h of the extended Kalman filter whose prior is the given transition (integrated Brownian motion of order one by default), whose initial state is exact in value, first and (when present) second derivative at time 0 with zero covariance and unit variance on further derivatives, and which observes x\' - f(x, t) = 0 at t = h, 2h, ..., N h with the given noise. The order-0 filter ignores the Jacobian of f in the update, the order-1 filter uses it.',
     ['inputs', 'configurations', 'histories'], 'Both orders x both covariance representations x priors (default, IBM 1-3, OU, Matern, padded, combined, with nonzero increment) x noise x N <= 3 x time-dependent polynomial fields, dimension <= 2.',
     'The end-to-end tests only exercise the default prior statistically; higher orders, other priors, noise and several filter steps per interval are never checked against a reference.',
     ['ode_solvers/ekf.py', 'ode_solvers/ekf0.py', 'ode_solvers/ekf1.py', 'ode_solvers/probnum/ekf.py'],
     [('wrapper initialisation', 'ode_solvers/ekf0.py'), ('observation function', 'ode_solvers/ekf.py')], ['returned value'])

prop('C14', 'The mixture filter propagates mean and covariance across steps',
     'Started from (sample, mean, covariance), the uncertainty-propagating filters return the mean and covariance of the solution block of the Gaussian filter initialised with that mean and covariance (the order-1 filter extends the covariance to the derivative through the Jacobian at the initial mean, the order-0 filter gives the derivative none), so that chaining steps composes these maps, and the incoming or drawn sample never influences them. With full output requested they also return the joint sample, mean and covariance over solution and derivative, followed by the innovation covariance and the residual of the last update, in this order.',
     ['inputs', 'histories', 'configurations'], 'Both orders x both representations x priors x noise x N x initial means and (singular, regular) covariances over small alphabets x chains of up to three steps x full output on/off.',
     'The tests look only at Monte Carlo statistics of the first returned component with zero initial covariance; the covariance output is never compared with anything.',
     ['ode_solvers/ekf0_2.py', 'ode_solvers/ekf1_2.py', 'ode_solvers/ekf.py'],
     [('joint initial covariance', 'ode_solvers/ekf1_2.py')], ['returned triple and full output'], [('(sample, mean, covariance)', 'state carried across steps', 'ode_solvers/ekf1_2.py')])

prop('C15', 'Posterior samples have exactly the posterior law',
     'Given a key, every probabilistic solver returns a draw whose law is Gaussian with the posterior mean it would return without a key and with the posterior covariance of the returned components, jointly over components, for both covariance representations and all priors, noises and numbers of filter steps.',
     ['inputs', 'configurations'], 'All six probabilistic solvers x both representations x priors x N x fields; law determined on a basis of the noise space.',
     'All end-to-end tests pass no key to the solver, so the sampling path is dead code for the suite (except in tests that fail at the pinned commit).',
     ['ode_solvers/ekf0.py', 'ode_solvers/ekf1.py', 'ode_solvers/ekf0_2.py', 'ode_solvers/ekf1_2.py', 'ssm_parabola/ekf0.py', 'ssm_parabola/ekf1.py'],
     [('m + sqrt(P) z', 'ode_solvers/ekf0.py')], ['returned sample as a function of the controlled noise'])

prop('C16', 'The marginalised filter carries the Brownian coefficients in its state',
     'The marginalised filters return solution, Brownian increment and area coefficient distributed as in the extended Kalman filter on the joint state (solution, derivative, increment, area) whose prior covariance is that of the derivative of the Brownian polynomial at time 0, whose coefficients are constant in time and which observes x\' = drift + diffusion @ derivative of the polynomial at t = h, ..., N h. The driver applies this step by step with the time argument of drift and diffusion shifted to the start of each interval, starting each step from the previous returned point.',
     ['inputs', 'histories', 'configurations'], 'Both orders x both representations x N <= 3 x time- and state-dependent polynomial drift and square diffusion, dimension <= 2, chains of up to 3 driver steps over noise histories.',
     'tests/test_ssm_parabola_ode.py fails at the pinned commit (the filter raises TypeError) and only compares moments of autonomous additive problems at 10%.',
     ['ssm_parabola/ekf.py', 'ssm_parabola/ekf0.py', 'ssm_parabola/ekf1.py', 'ssm_parabola/ssm_parabola_ode.py'],
     [('extended observation function', 'ssm_parabola/ekf.py'), ('shifted fields', 'ssm_parabola/ssm_parabola_ode.py')], ['returned point, increment, area and trajectory'])

prop('C17', 'The diagonal 1.5 scheme is the Itô-Taylor scheme of order 1.5',
     'For autonomous SDEs with diagonal noise (the k-th diagonal entry depends on the k-th component only) in every dimension, each step of the scheme equals the strong order 1.5 Itô-Taylor scheme of Kloeden and Platen, including all terms from the state dependence of the diffusion, driven by Gaussian pairs (eta, zeta) with covariance [[h, h^2/2], [h^2/2, h^3/3]] per component that are independent across components and steps.',
     ['inputs', 'histories'], 'All polynomial drifts and diagonal diffusions over small alphabets, dimension <= 3, all noise histories over a small alphabet up to 3 steps, a grid of h.',
     'tests/test_diag_15_scheme.py checks the mean of one problem with nearly constant noise at two decimals, which a scheme that is not even weakly consistent for multiplicative noise passes.',
     ['sde_solvers/diag_15_scheme.py'], [('scan body', 'sde_solvers/diag_15_scheme.py')], ['returned path as a function of the controlled noise'])

prop('C18', 'The hypoelliptic 1.5 scheme has the stated Gaussian transition',
     'For autonomous hypoelliptic SDEs (smooth first component whose drift has a nonzero gradient, regular noise on the others) each step of the scheme is Gaussian given the current state, with mean x + h a + h^2/2 (Ja) a + h^2/4 tr(sigma sigma^T Hessian a) and with the leading-order covariance that couples the first component through the gradient of its drift: h^3/3 g GG^T g^T, h^2/2 g GG^T and h GG^T. Noise of different steps is independent and every step uses the state reached by the previous one.',
     ['inputs', 'histories'], 'Polynomial drifts and (state-dependent) diffusions of dimension 2 and 3, every state reached by noise histories over a small alphabet up to 3 steps, a grid of h.',
     'tests/test_hypoelliptic_diffusion_15_scheme.py estimates covariances of one step at two decimals with h = 1e-3 to 2e-2, where most terms are below the tolerance.',
     ['sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py'], [('scan body', 'sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py')], ['returned path as a function of the controlled noise'])

prop('C19', 'Every scheme converges in law to the SDE it was given',
     'For linear SDEs with additive or multiplicative noise and time-dependent coefficients, the exact mean and second moment of the numerical solution converge to those of the true solution as the step size decreases, at rate at least one (with multiplicative noise, the sub-steps of the ODE integrator are refined along with the interval). Euler-Maruyama and the 1.5 schemes interpret the drift in the Itô sense; the Brownian-polynomial solvers interpret it in the Stratonovich sense, so that they need the converted drift and then agree with the others.',
     ['inputs', 'histories', 'configurations'], 'All schemes (and all ODE integrators inside the polynomial solver) x a menu of linear SDEs x refinement sequences of step sizes; moments are exact sums over all noise histories of the quadrature alphabet.',
     'The Monte Carlo tests cannot distinguish discretisation error from sampling error (tolerance 10% or one decimal) and never refine the step size.',
     ['sde_solver.py', 'sde_solvers/euler_maruyama.py', 'sde_solvers/diag_15_scheme.py', 'ito_stratonovich.py', 'foster_polynomial.py'],
     [('composition of generator, conversion, driver and integrator', 'sde_solver.py')], ['moments of the returned trajectories'])

prop('C20', 'Benchmark problems match the closed forms shipped with them',
     'For every benchmark problem, the mean and variance formulas it returns agree with the moments of its own drift, diffusion and initial state: exactly where they are declared exact and up to the declared order in time otherwise. Every benchmark problem is the model it is named after, with the parameters it is given. The square-diffusion variants describe the same SDE as the original problems, and the random linear problem draws independent standard normal drift and diffusion matrices scaled by the given factors.',
     ['inputs', 'configurations'], 'All benchmark problems, all components, a grid of times (formulas that are polynomials in time are determined by it), dimensions 1-4 for the random problem.',
     'The tests use these formulas as oracles at small times and two decimals, so that errors in higher-order terms or in untested components go unnoticed; several problems are not tested at all.',
     ['utils/ivp.py'], [('problem definitions', 'utils/ivp.py')], ['returned callables'])

prop('C21', 'Progress reporting is transparent and accounts for every iteration',
     'Wrapping a loop body with the progress bar never changes what the loop computes. For every number of iterations the bar is opened once per run with that total, advanced monotonically without ever exceeding the total, has advanced by exactly the total when the loop ends, and is closed exactly once; consecutive runs each get their own bar.',
     ['configurations', 'histories'], 'All iteration counts up to a bound and all those around the reporting-rate thresholds, plain and tuple inputs, compiled, batched and repeated runs.',
     'No test looks at the progress bar; the suite only uses 100, 1000 and 10000 iterations.',
     ['utils/progress_bar.py'], [('print_rate / remainder logic', 'utils/progress_bar.py')], ['bar events (open, update, close)', 'loop outputs'],
     [('bar', 'progress bar of the current run', 'utils/progress_bar.py')])

prop('C22', 'The diffusion calibration is the maximum likelihood estimate',
     'For every sequence of residuals z_i and innovation covariances S_i of dimension d, the calibrated diffusion coefficient is (1 / (N d)) * sum of z_i^T S_i^{-1} z_i, the unique maximiser of the likelihood of z_i ~ N(0, c S_i). It is therefore invariant under reordering, scales with the square of the residuals and inversely with the covariances, and averages over consecutive batches.',
     ['inputs'], 'All residual sequences over a small alphabet, all combinations of covariances from a menu of SPD matrices, N and d <= 3.',
     'No test calls it.',
     ['ode_solvers/probnum/calibration.py'], [('mle_diffusion', 'ode_solvers/probnum/calibration.py')], ['returned value'])

prop('C23', 'All trajectories share one grid contract',
     'Every SDE solver called with N steps of size h returns the N + 1 times 0, h, ..., N h and N + 1 states of which the first is exactly the given initial state, followed by the states after each step in order; recorded coefficients have N entries. This also holds when the state is a tuple (each member gets its own trajectory with its own initial value), and inserting into arrays or tuples puts the given entry at the given position and leaves the rest unchanged.',
     ['inputs', 'configurations'], 'All solvers x N <= 6 (plus larger ones) x step sizes x dimensions x state structures; all positions and axes for insertion up to rank 3.',
     'Tests index the last or the second entry of trajectories and never look at the returned times except in one case.',
     ['sde_solver.py', 'ssm_parabola/ssm_parabola_ode.py', 'sde_solvers/euler_maruyama.py', 'sde_solvers/diag_15_scheme.py', 'sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py', 'utils/insert.py'],
     [('time grid and insertion of the initial state', 'sde_solver.py'), ('insert', 'utils/insert.py')], ['returned times, trajectories and coefficients'])

prop('C24', 'Results do not depend on batching, compilation or evaluation order',
     'Solving for a batch of keys or initial states with vmap gives, entry by entry, the result of solving for each of them alone, and compiled, non-compiled and partially applied calls give the same result, up to rounding. This holds for every public solver, generator and prior, for every batch size including one.',
     ['configurations', 'inputs'], 'All public functions x {plain, jit, vmap, jit of vmap, vmap of jit, nested vmap} x batch sizes 1-3, genuine keys.',
     'Tests always run vmapped and never compare with unbatched or uncompiled results.',
     ['sde_solver.py', 'foster_polynomial.py', 'ode_solvers/ekf0.py', 'ssm_parabola/ssm_parabola_ode.py'],
     [('pure functions under JAX transformations', 'sde_solver.py')], ['returned values'])

prop('C25', 'Calls are independent of call history and leave their inputs untouched',
     'The result of any call depends on its arguments only: whatever calls were made before in the same process, with the same or different arguments, it equals the result in a fresh process. No call modifies the arrays, tuples or callables passed to it, so repeating a call gives the same result.',
     ['histories', 'inputs'], 'All ordered pairs (thorough: triples) of operations from an alphabet of public calls which differ pairwise in single arguments, against fresh-process results; NumPy inputs compared before and after.',
     'Each test makes its calls once per process with one argument set, so a stale cache, a mutated default or an aliased buffer cannot show.',
     ['sde_solvers/euler_maruyama.py', 'ode_solvers/probnum/transition_function.py', 'foster_polynomial.py', 'utils/progress_bar.py', 'sde_solver.py'],
     [('absence of module-level mutable state', 'sde_solver.py')], ['returned values', 'argument arrays'])

prop('C26', 'Polynomial-driven solvers follow the Brownian path with strong order one',
     'Driven by the coarse coefficients of a fine Brownian path, the Brownian-polynomial solver converges in mean square to the solution of the SDE along the same path with order at least one in the interval length, for additive and for scalar multiplicative noise, with the Euler integrator (enough sub-steps) and with the Gaussian ODE filters. The mean of the one-step error is of second order, and with an accurate enough integrator the error is smaller than that of any method which sees the increments alone.',
     ['inputs', 'histories', 'configurations'], 'Linear additive SDEs (error exact for the whole noise space), scalar multiplicative SDEs (all noise histories of the quadrature alphabet), refinement sequences of interval lengths, all integrators.',
     'No test compares a numerical path with the SDE solution along the same Brownian path; the article does so by long Monte Carlo experiments in scripts/.',
     ['sde_solver.py', 'foster_polynomial.py', 'ode_solvers/ekf0.py', 'ode_solvers/ekf1.py', 'ode_solvers/euler.py'],
     [('area coefficient of the generator and its use in the field', 'sde_solver.py')], ['mean-square distance of trajectories to the reference path'])

prop('C27', 'Single precision, the default of JAX, gives the double-precision results',
     'Executed in single precision, every solver, generator, prior, conversion and closed-form moment gives the values of double precision up to rounding: errors are relative to the natural scale of the result (the increment of the path, the standard deviations of the law), not to one, so that small steps and small intervals do not lose the result. In square-root form this holds down to steps of 1e-4; in covariance form as long as the variances which are subtracted differ by more than single precision.',
     ['inputs', 'configurations', 'histories'], 'All functions and integrators, all built-in priors, interval lengths and steps from 1 to 1e-4 (generators: 1e-8), graded filter states, the complete noise space of Gaussian outputs.',
     'The tests set double precision or compare rough Monte Carlo moments at one step size; a user who follows the README runs in single precision.',
     ['ode_solvers/probnum/ekf.py', 'ode_solvers/probnum/matern.py', 'ode_solvers/probnum/_utils.py', 'ode_solvers/ekf.py', 'ssm_parabola/ekf.py', 'foster_polynomial.py', 'sde_solver.py'],
     [('square-root form and factors of covariances', 'ode_solvers/probnum/_utils.py')], ['law of outputs in single precision', 'single-precision path for the same draws'])

prop('C28', 'Integrators, and SDE solvers without noise, solve the ODE at their order',
     'For smooth vector fields, time-dependent or not, the error at a fixed time decreases with the step size with order one for the Euler integrator and with order q + 1 for the means of the Gaussian ODE filters with any built-in prior of order q (integrated Brownian motion, Matern, integrated Ornstein-Uhlenbeck, padded or combined per component: the smallest order), in both covariance forms, order 0 and 1; restarted at every step they have at least order two. The standard deviation which a mixture filter started at a point reports vanishes with order q = 1. An SDE solver given a vanishing diffusion returns a path which does not depend on its Brownian noise and converges to the ODE solution: order one for Euler-Maruyama and Euler sub-steps, order two for the diagonal 1.5 scheme and the Gaussian filters.',
     ['inputs', 'configurations', 'histories'], 'All monomial and generic polynomial fields up to degree 2, 11 priors, both forms and filter orders, refinement sequences of step sizes, all solver drivers.',
     'Tests compare one step size with loose tolerances; an error which lowers the order stays below them.',
     ['ode_solvers/euler.py', 'ode_solvers/ekf0.py', 'ode_solvers/ekf1.py', 'ode_solvers/ekf.py', 'ode_solvers/probnum/ekf.py', 'sde_solver.py', 'sde_solvers/diag_15_scheme.py'],
     [('observation of x - f(x, t) at the grid times', 'ode_solvers/ekf.py')], ['distance of the returned state to the ODE solution'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
