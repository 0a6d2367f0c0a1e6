"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
U = 'zhusuan/distributions/univariate.py'; M = 'zhusuan/distributions/multivariate.py'
B = 'zhusuan/distributions/base.py'; DU = 'zhusuan/distributions/utils.py'
BN = 'zhusuan/framework/bn.py'; MB = 'zhusuan/framework/meta_bn.py'; FU = 'zhusuan/framework/utils.py'
LS = 'zhusuan/legacy/framework/stochastic.py'
VB = 'zhusuan/variational/base.py'; VE = 'zhusuan/variational/exclusive_kl.py'
VI = 'zhusuan/variational/inclusive_kl.py'; VM = 'zhusuan/variational/monte_carlo.py'
EV = 'zhusuan/evaluation.py'; HM = 'zhusuan/hmc.py'; SG = 'zhusuan/sgmcmc.py'
TR = 'zhusuan/transform.py'; UT = 'zhusuan/utils.py'; DI = 'zhusuan/diagnostics.py'

prop('C01', 'Univariate log densities are the textbook log densities',
     'For every univariate distribution, log_prob(x) is the exact natural-log density (or mass) of the law named, at the parameters given, for every x in its support and every valid parameter value, and prob(x) = exp(log_prob(x)). '
     'Parameter aliases (std / logstd) describe the same law, optional numeric checks do not change values, and points outside the support of Uniform and FoldNormal get log density -inf.',
     ['inputs', 'configurations'], 'all real parameters in the valid domain, all points of the support, every broadcast pattern of parameters and points, static or dynamic shapes, every supported dtype, check_numerics on or off',
     'tests compare about ten hand-picked values per distribution against scipy; an error that only shows for other parameter signs, magnitudes, broadcast patterns or for unknown static shapes passes',
     [U, B, DU], [('_log_prob/_prob of each class', U), ('log_prob/prob', B)])
prop('C02', 'Multivariate log densities are the textbook log densities',
     'For every multivariate distribution (multivariate and matrix-variate normal, multinomial, unnormalized multinomial, one-hot categorical, Dirichlet, ExpConcrete, Concrete), log_prob(x) is the exact natural-log density of the law named over the last value axes, and prob(x) = exp(log_prob(x)). '
     'This holds for any number of categories or dimensions, any batch shape and any broadcast between x and the parameters.',
     ['inputs', 'configurations'], 'all valid parameters (positive-diagonal lower-triangular factors, any logits, positive concentrations), all points of the support, symbolic dimension sizes, static or dynamic shapes',
     'tests use a few 2- to 4-dimensional examples; normalisers that depend on the dimension, on the number of trials, on broadcasting or on the static-shape branch are sampled at one or two sizes',
     [M, B, DU], [('_log_prob/_prob of each class', M), ('maybe_explicit_broadcast', DU), ('log_combination', DU)])
prop('C03', 'Batch, value and group shapes compose as documented',
     'For every distribution, sample(n) has shape [n] + batch_shape + value_shape (no leading axis when n is omitted), batch_shape is the broadcast of the parameter batch axes, and log_prob/prob reduce exactly the value axes and then sum/multiply over exactly the last group_ndims axes of the broadcast batch shape. '
     'The static shapes and the dynamic shape tensors never contradict each other or the shapes actually produced.',
     ['inputs', 'configurations'], 'all ranks up to the stated bound with symbolic sizes, group_ndims as Python int or tensor, n_samples None, int or tensor, fully known, partially known or unknown static shapes',
     'tests fix small concrete shapes; a wrong axis coincides with the right one whenever sizes are equal or ranks are small',
     [B, U, M, DU], [('log_prob/prob/sample', B), ('_batch_shape/_get_batch_shape/_value_shape/_get_value_shape', U)])
prop('C04', 'Samples follow exactly the law whose density is reported',
     'Every draw returned by sample() is distributed according to the law whose log_prob the same object reports, at the object\'s own parameters for that batch position. '
     'Draws at distinct sample indices and distinct batch positions use distinct, independent randomness, and always lie in the support.',
     ['inputs', 'configurations'], 'all valid parameters and broadcast patterns, every value of the underlying noise, all batch and sample counts, reparameterized or not, static or dynamic shapes',
     'tests check shapes and at best a loose moment; a wrong scale, sign, swapped parameter, shared noise or wrong batch pairing is a distributional error no single run shows',
     [U, M, B, DU], [('_sample of each class', U), ('_sample of each class', M), ('open_interval_standard_uniform', DU)])
prop('C05', 'Gradients flow through samples and densities only as declared',
     'If a distribution is declared reparameterized, the gradient of its samples with respect to every parameter is the derivative of the sampling path; if it is declared not reparameterized (or cannot be), samples carry no gradient to any parameter. '
     'With use_path_derivative the log density carries gradient only through the point being evaluated, without it also through every parameter, and neither option changes any value.',
     ['inputs', 'configurations'], 'all distributions, flag combinations, parameterisations (std/logstd), parameter values and broadcast patterns',
     'tests look at whether a few gradients are None; they do not compare values or cover each parameter and flag combination',
     [B, U, M], [('path_param', B), ('stop_gradient in _sample', U), ('stop_gradient in _sample', M)])
prop('C06', 'Invalid parameters are rejected, valid ones keep their dtype',
     'Constructors reject, at construction or at latest when evaluated, parameters of mismatched or unsupported dtype, of incompatible shape or too small a rank, non-positive trial counts, negative group_ndims, and ambiguous or missing std/logstd; check_numerics turns non-finite intermediate values into errors. '
     'Every accepted combination yields samples of the declared value dtype and log densities of the parameter dtype.',
     ['inputs', 'configurations'], 'all dtype combinations of parameters and values, static and dynamic shapes and scalars, Python or tensor arguments',
     'tests try a few bad arguments per class, mostly statically known ones',
     [U, M, B, DU], [('assert_same_float_dtype, assert_rank_at_least, assert_scalar, assert_positive_int32_scalar', DU), ('__init__ of each class', U), ('__init__ of each class', M)])
prop('C07', 'A net\'s log joint is the sum of its stochastic nodes after any history',
     'After any sequence of node additions and queries, log_joint() of a Bayesian net equals the sum of the conditional log densities of exactly the stochastic nodes it then contains, each evaluated at that node\'s own (observed or once-sampled) value. '
     'Node names are unique, a name always returns the node registered under it, and a node\'s value and log density never change once observed by a caller.',
     ['histories', 'programs'], 'all histories of stochastic / deterministic node creation (new-style methods, custom distributions, old-style wrappers), get, indexing, cond_log_prob, log_joint and failed calls, in every order',
     'tests build one or two fixed models and query them once; caching and invalidation depend on the order of calls',
     [BN], [('stochastic/deterministic', BN), ('_log_joint/log_joint cache', BN), ('StochasticTensor.tensor/cond_log_p', BN)],
     state=[dict(name='_nodes', meaning='name to node map', where=BN), dict(name='_log_joint_cache', meaning='cached joint', where=BN)])
prop('C08', 'observe() binds exactly the given observations, to its own net only',
     'A net built by observe(**obs) holds exactly the given value at each stochastic node named in obs and a sample at every other one; nets built elsewhere, nested, after an exception, or from another observe() call are unaffected, and the model function sees the original arguments every time. '
     'An overridden log_joint is used for precisely the nets of that meta net, and variable reuse follows the scope settings.',
     ['histories', 'programs', 'inputs'], 'all interleavings and nestings of observe() calls, model functions that raise, observation sets including falsy values and names absent from the net, override set before or after building, reuse on or off',
     'tests exercise single observe() calls; leakage between contexts needs nesting or exceptions',
     [MB, BN, FU], [('Local context stack', MB), ('Context.__enter__/__exit__', FU), ('_get_observation', BN), ('_check_observation', BN)],
     state=[dict(name='Context._contexts', meaning='per-class context stack', where=FU)])
prop('C09', 'Node constructors build exactly the distribution they name',
     'Every node-creating method of a Bayesian net and every old-style wrapper registers a node whose distribution is the one named, with every argument (including group_ndims, dtype, reparameterization, numeric checking and n_samples) forwarded unchanged and with the documented defaults. '
     'The node is usable as the tensor of that distribution: sampled with n_samples when unobserved, equal to the observation when observed.',
     ['inputs', 'configurations'], 'all node constructors, all argument combinations, observed or not',
     'tests call constructors with mock distributions and check a subset of arguments',
     [BN, LS], [('normal ... concrete', BN), ('wrapper classes', LS)])
prop('C10', 'Variational bounds and importance estimates have the defined values',
     'The evidence lower bound equals the mean over the sample axis of log p(x,z) - log q(z|x), the importance-weighted bound and is_loglikelihood equal the log of the mean over that axis of exp(log p - log q), for any log joint, any set of latent variables and any axis. '
     'The model is evaluated at exactly the variational samples plus the observations, and a model whose latent is neither observed nor given a posterior is rejected.',
     ['inputs', 'configurations', 'programs'], 'all models and posteriors (abstract log joint and log q), any number of latents, any axis and rank, latent-dict or variational-net form, function or meta-net form',
     'tests check one Gaussian model per objective',
     [VB, VE, VM, EV, UT], [('_objective', VE), ('_objective', VM), ('_log_joint_term/_entropy_term', VB), ('is_loglikelihood', EV)])
prop('C11', 'Surrogate costs have exactly the documented gradient estimators',
     'Minimising sgvb() follows the pathwise gradient of the bound; minimising reinforce() follows -(d log p + (l - baseline - moving mean) d log q) with the learning signal treated as constant; vimco() uses, per sample, the log-mean-exp minus its leave-one-out value as constant signal; importance() follows the self-normalised weighted score. '
     'Baseline cost is half the squared error to the signal and trains only the baseline; the moving mean is the zero-debiased exponential mean of the signal with the configured decay.',
     ['inputs', 'configurations'], 'all values of log p, log q and their derivatives, any number of samples and ranks, any axis, baseline / variance reduction options, any decay',
     'tests compare averaged Monte-Carlo gradients on one model with loose tolerances or skip the gradient',
     [VE, VM, VI, VB], [('sgvb/reinforce', VE), ('sgvb/vimco', VM), ('importance', VI)],
     state=[dict(name='moving_mean', meaning='running mean of the learning signal', where=VE)])
prop('C12', 'One HMC iteration is exact Metropolis-adjusted leapfrog dynamics',
     'An HMC step draws momentum N(0, mass), applies exactly n_leapfrogs reversible volume-preserving leapfrog steps with the current step size and mass, and accepts per chain with probability min(1, exp(H_old - H_new)), zero when the proposal is not finite; all latent variables of a chain move or stay together. '
     'Hence the target is left invariant, and the reported info (samples, acceptance rate, energies, log probabilities, momentum) describes that very transition.',
     ['inputs', 'configurations', 'histories'], 'all log joints, all states, momenta, step sizes, masses and numbers of leapfrog steps, any number of latents, chain and data ranks',
     'tests run long chains on one target and compare moments loosely; a small asymmetry biases the target without failing them',
     [HM], [('leapfrog_integrator/_leapfrog', HM), ('hamiltonian/get_acceptance_rate', HM), ('sample', HM)],
     state=[dict(name='q', meaning='latent variables', where=HM)])
prop('C13', 'HMC adaptation follows dual averaging and moving-variance recursions',
     'With step-size adaptation the step size after each iteration is the one given by the dual-averaging recursion on the mean acceptance rate with the configured gamma, t0, kappa and target, restarting when initialised, and frozen at the averaged value when adaptation is fed False. '
     'With mass adaptation the mass is the inverse of the exponentially weighted variance over chains and iterations, used only after the collection period and frozen when adaptation is off; the step-size search that precedes a (re)start multiplies the step by 1.5 while the mean acceptance of one leapfrog step stays at or above the target, and divides it by 1.5 once when it first falls below.',
     ['histories', 'inputs', 'configurations'], 'all histories of acceptance rates and positions, all switch patterns, any counter value',
     'tests check that acceptance ends up near the target on one model',
     [HM], [('StepsizeTuner.tune', HM), ('ExponentialWeightedMovingVariance.update', HM), ('_init_step_size/_adapt_mass/_adapt_step_size', HM)],
     state=[dict(name='step, h_bar, log_epsilon_bar, t, mean, var', meaning='adaptation state', where=HM)])
prop('C14', 'Stochastic-gradient MCMC updates follow their published equations',
     'One iteration of SGLD, PSGLD, SGHMC and SGNHT (first and second order, scalar or vector thermostat) maps positions, momenta and auxiliary variables exactly as documented, with Gaussian noise of exactly the documented variance, the gradient of the given log joint at the documented point, and momentum resampled exactly every n iterations. '
     'The returned info reports the values of that very update for the right variable.',
     ['inputs', 'histories', 'configurations'], 'all log joints, states, noises, counters, hyper-parameters, any number and shape of latents',
     'tests run chains on a 1-D target and compare moments loosely',
     [SG], [('_update/_update_single/_get_preconditioner', SG), ('_apply_updates', SG)],
     state=[dict(name='vs, alphas, t', meaning='momenta, thermostats, counter', where=SG)])
prop('C15', 'A training or sampling step means the same under every op schedule',
     'Whatever order the runtime executes the ops of one step in, the new values of all positions, momenta, adaptation variables and running means, and the reported values, are those of the documented update computed from the state before the step. '
     'No read of state that the update depends on may race with the write that replaces it.',
     ['schedules'], 'all topological orders of the dataflow graph of one HMC / SGMCMC / reinforce / AIS step',
     'tests run whatever order the scheduler happens to pick, usually the same one',
     [HM, SG, VE, EV], [('control_dependencies around assigns', SG), ('assign chaining', HM), ('moving mean update', VE)])
prop('C16', 'Flows report the log density of the values they return',
     'For the planar and inverse-autoregressive flows, the returned log density equals the input log density minus the log absolute Jacobian determinant of the exact map from input to returned values, after any number of iterations; the masked linear network is strictly autoregressive, so that Jacobian is triangular. '
     'Shapes are preserved and ill-shaped inputs are rejected.',
     ['inputs', 'configurations'], 'all inputs, parameters, dimensions, iteration counts and update types',
     'tests check one sample against a closed form for one iteration',
     [TR], [('planar_normalizing_flow', TR), ('inv_autoregressive_flow', TR), ('linear_ar', TR)])
prop('C17', 'log_sum_exp and log_mean_exp are exact and cannot overflow',
     'log_sum_exp(x, axis) and log_mean_exp(x, axis) equal log sum exp(x) and log mean exp(x) over exactly the given axis or axes with the requested keepdims, and no exponential is ever taken of a positive number, so no finite input overflows. '
     'Merging dictionaries gives the later one precedence and leaves the arguments unchanged.',
     ['inputs'], 'all finite inputs, ranks, axes (None, negative, several), keepdims on or off',
     'tests compare a handful of arrays with numpy',
     [UT], [('log_sum_exp/log_mean_exp', UT), ('merge_dicts', UT)])
prop('C18', 'AIS and ESS compute the estimators they name',
     'Annealed importance sampling visits temperatures strictly increasing from 0 to exactly 1, accumulates for every chain the sum of log f_t(z_{t-1}) - log f_{t-1}(z_{t-1}) along the chain that started at a fresh proposal sample, and returns the mean of the log of the mean weight over the first axis. '
     'Effective sample size is n / (1 + 2 sum of rho_t over positive lags t before the first negative one), rho_t = 1 - (s^2 - c_t) / v with s^2 the unbiased and v the biased variance and c_t the mean of (x_i - mean)(x_{i+t} - mean); for arrays it is the minimum over dimensions after the burn-in.',
     ['inputs', 'histories'], 'all numbers of temperatures and adaptation steps, all models and chains; all sample arrays and lengths',
     'AIS is tested on one model with a loose tolerance, ESS only for not crashing or one value',
     [EV, DI], [('AIS.run/_get_schedule_t/_get_lower_bound', EV), ('effective_sample_size_1d/effective_sample_size', DI)])
prop('C19', 'Stochastic tensors and objectives behave as their tensors',
     'Every arithmetic, comparison, logical and indexing operator applied to a stochastic tensor or an objective, on either side of any operand, gives the same value as the same operator on the underlying tensor in the same operand order; conversion, fetching and feeding refer to that same tensor. '
     'They hash and compare by identity and refuse use as a Python bool or iterator.',
     ['inputs', 'programs'], 'all operators, operand orders, operand values, shapes and dtypes',
     'tests check the operators on one pair of values each',
     [UT, BN, VB], [('TensorArithmeticMixin', UT), ('_to_tensor and session conversion', BN), ('_to_tensor and session conversion', VB)])
prop('C20', 'get_backward_ops lists each needed op once, inputs first',
     'get_backward_ops returns every op the seeds depend on (through data or control inputs), each exactly once, every op after all the listed ops it depends on, and nothing reachable only through tensors treated as inputs.',
     ['inputs', 'programs'], 'all acyclic graphs, seed lists and cut sets',
     'tests check four small hand-built graphs',
     [FU], [('get_backward_ops', FU)])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
