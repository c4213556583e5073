"""One table of properties; mkdocs.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': ['bayeso/' + f for f in files], 'mechanism': [dict(name=a, where=b) for a, b in mech],
                           **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                           **({'observe_at': list(observe)} if observe else {})}, _na=na))


p('C01', 'Every sampled and proposed point lies inside the search space',
  'Every initial point, acquisition candidate and proposed query has one coordinate per dimension of the search space and each coordinate lies between that dimension\'s lower and upper bound (in real arithmetic). '
  'This holds for every sampling method, every surrogate and every acquisition optimiser, including degenerate ranges whose bounds coincide; the bounds handed to a local or global optimiser are those of the search space, in dimension order.',
  ['inputs', 'configurations'], 'all search spaces (any dimension, any bounds), all sampling methods, surrogates, acquisition optimisers, seeds and data sets',
  'Tests use a handful of fixed boxes and seeds; the guarantee is over every box, dimension and pseudo-random draw.',
  ['bo/base_bo.py', 'bo/bo_w_gp.py', 'bo/bo_w_tp.py', 'bo/bo_w_trees.py', 'utils/utils_bo.py', 'utils/utils_common.py', 'thompson_sampling.py'],
  [('affine scaling / clipping of samples', 'bayeso/bo/base_bo.py:_get_samples_*'), ('bounds list', 'bayeso/bo/base_bo.py:_get_bounds'), ('final assertion', 'bayeso/utils/utils_bo.py:check_points_in_bounds')])
p('C02', 'A run records exactly what was proposed and evaluated, in order',
  'A complete optimisation run returns the initial inputs followed by one new input per iteration, and next to every input the value the target function returned for exactly that input, evaluated once. '
  'Iteration i is proposed from precisely the inputs and responses recorded before it, and the returned timing series have one entry per evaluation or iteration as documented. '
  'An error raised by the target function reaches the caller instead of being swallowed or retried, and a second run on the same optimiser object is independent of the first.',
  ['histories', 'inputs'], 'every target function, number of initial points, number of iterations, surrogate and both wrapper APIs',
  'Tests check shapes of a few short runs; the guarantee is an induction over the iterations for an arbitrary target function.',
  ['wrappers/wrappers_bo_class.py', 'wrappers/wrappers_bo_function.py', 'thompson_sampling.py'],
  [('per-iteration append', 'bayeso/wrappers/wrappers_bo_class.py:optimize_with_all_initial_information'), ('per-iteration append', 'bayeso/wrappers/wrappers_bo_function.py:run_single_round_with_all_initial_information'),
   ('initial evaluation', 'bayeso/wrappers/wrappers_bo_class.py:optimize_with_initial_inputs')])
p('C03', 'An evaluated point is not queried again while a new candidate exists',
  'When the best proposal coincides (within 1e-8 Euclidean distance) with an already evaluated input, a run queries instead the best-scoring candidate that coincides with no evaluated input. '
  'Only when every candidate coincides with an evaluated input is the last evaluated input queried again; a proposal that is new is always queried unchanged.',
  ['inputs', 'histories'], 'every candidate set, score vector and evaluation history',
  'Tests exercise one or two hand-written candidate sets; the guarantee is over every candidate set and every pattern of duplicates.',
  ['utils/utils_bo.py', 'wrappers/wrappers_bo_class.py', 'wrappers/wrappers_bo_function.py'],
  [('duplicate filter', 'bayeso/utils/utils_bo.py:get_next_best_acquisition'), ('when it applies', 'bayeso/wrappers/wrappers_bo_class.py:_get_next_best_sample')])
p('C04', 'The proposal is the best-scoring candidate and reported scores match',
  'The proposed query is one of the reported candidates and no reported candidate has a better acquisition value; the reported acquisition values are those of the reported candidates, in the same order, under the model used for the proposal. '
  'Local optimisation is started once from every sampled start, Thompson sampling proposes the candidate minimising its own sampled function, and best-so-far lookup returns the input and response of the smallest response.',
  ['inputs', 'configurations'], 'every data set, surrogate, acquisition, optimiser, sampling method and number of candidates',
  'Tests compare a few shapes and do not compare the proposal with all candidates for arbitrary objectives.',
  ['utils/utils_bo.py', 'bo/bo_w_gp.py', 'bo/bo_w_tp.py', 'bo/bo_w_trees.py', 'thompson_sampling.py'],
  [('argmin over candidates', 'bayeso/utils/utils_bo.py:get_best_acquisition_by_evaluation'), ('argmin over samples', 'bayeso/thompson_sampling.py:thompson_sampling_gp_iteration')])
p('C05', 'All scores of a proposal come from one model fitted to the given data',
  'In one optimisation call every candidate is scored with the acquisition of the posterior that conditions on exactly the given inputs and (optionally normalised) responses, under one hyperparameter set and the covariance inverse belonging to it. '
  'The hyperparameters are those fitted to that data: with the default mode always refitted, with the combined mode the better of the two fits by the model-selection likelihood, and with the convergence mode refitted until two consecutive fits agree within 5% and reused afterwards.',
  ['inputs', 'histories', 'configurations'], 'every data set, call history, fitting mode, surrogate and acquisition',
  'Tests run a few fits and check shapes; coherence of data, factor and hyperparameters over call histories is never compared.',
  ['bo/bo_w_gp.py', 'bo/bo_w_tp.py', 'bo/bo_w_trees.py', 'utils/utils_bo.py'],
  [('fit then score', 'bayeso/bo/bo_w_gp.py:optimize'), ('fit then score', 'bayeso/bo/bo_w_tp.py:optimize'), ('fit then score', 'bayeso/bo/bo_w_trees.py:optimize'), ('convergence test', 'bayeso/utils/utils_bo.py:check_hyps_convergence')],
  state=[('historical_hyps', 'fitted hyperparameters of earlier calls', 'bayeso/bo/bo_w_gp.py'), ('is_optimize_hyps', 'whether the next call refits', 'bayeso/bo/bo_w_gp.py')])
p('C06', 'User configuration reaches the computation unchanged',
  'Every option a user passes to a model or a run (search space, kernel, acquisition, prior mean, response normalisation, shared or per-dimension lengthscales, surrogate, optimiser and sampling methods, number of samples, fitting mode, model-selection criterion, experiment name, debugging) is the one used by the corresponding computation. '
  'No option is dropped, swapped with another or replaced by a default on the way, and options that are omitted take the documented defaults.',
  ['configurations', 'inputs'], 'every combination of options through every entry point',
  'Tests vary one option at a time and rarely observe that the option took effect; the cross product of options and entry points is not covered.',
  ['wrappers/wrappers_bo_class.py', 'wrappers/wrappers_bo_function.py', 'bo/bo_w_gp.py', 'bo/bo_w_tp.py', 'bo/bo_w_trees.py', 'thompson_sampling.py', 'gp/gp.py', 'tp/tp.py'],
  [('constructor forwarding', 'bayeso/wrappers/wrappers_bo_class.py:_get_model_bo_*'), ('per-call forwarding', 'bayeso/wrappers/wrappers_bo_class.py:optimize_single_iteration')])
p('C07', 'Inputs supplied by the caller are never modified',
  'No function of the library writes into an array, list or dictionary that the caller passed in, into a caller-owned search space, or into a shared default or library-wide constant. '
  'Repeated calls with the same inputs therefore see the same data.',
  ['inputs', 'histories'], 'every public function and every argument value',
  'Tests practically never compare arguments before and after a call; aliasing through views and in-place operators is input dependent.',
  ['covariance.py', 'gp/gp.py', 'tp/tp.py', 'bo/bo_w_gp.py', 'utils/utils_bo.py', 'utils/utils_covariance.py', 'trees/trees_common.py', 'wrappers/wrappers_bo_class.py'],
  [('no in-place update of arguments', 'all modules')])
p('C08', 'A seed determines every sampled point and shared generators are left alone',
  'With a seed, the points returned by the sampling functions, the starting points or candidates of an optimisation call and the initial points of a run are a function of the seed, the search space and the arguments only, so that the same call gives the same points whatever was sampled before; without a seed a fresh generator is used. '
  'Sampling points neither reads nor advances the global random generators, nothing in the library seeds or restores them, and every entry point that accepts a seed forwards it to the sampling step.',
  ['inputs', 'histories'], 'every seed, sampling method, entry point and interleaving with other users of the global generator',
  'Tests fix a few seeds and cannot see writes to or reads from global generator state under other histories.',
  ['bo/base_bo.py', 'bo/bo_w_gp.py', 'bo/bo_w_tp.py', 'bo/bo_w_trees.py', 'thompson_sampling.py', 'wrappers/wrappers_bo_class.py', 'wrappers/wrappers_bo_function.py', 'gp/gp.py', 'tp/tp.py', 'trees/trees_random_forest.py'],
  [('generator construction', 'bayeso/bo/base_bo.py:_get_random_state'), ('quasi-random samplers', 'bayeso/bo/base_bo.py:_get_samples_sobol')])
p('C09', 'Predictive deviations are never negative or imaginary',
  'Predictive standard deviations of the Gaussian and Student-t process are the square root of the predictive variance clipped at zero, for any training data, hyperparameters and inverse handed in, and those of tree ensembles come from a non-negative variance. '
  'No path takes the square root of a negative number.',
  ['inputs'], 'every data set, hyperparameter set, (possibly inaccurate) inverse and ensemble',
  'Tests use benign data; rounding makes the variance slightly negative only for particular data.',
  ['gp/gp.py', 'tp/tp.py', 'trees/trees_common.py'],
  [('clipping', 'bayeso/gp/gp.py:predict_with_cov'), ('clipping', 'bayeso/tp/tp.py:predict_with_cov'), ('law of total variance', 'bayeso/trees/trees_common.py:compute_sigma')])
p('C10', 'The training covariance is symmetric and its factor or inverse belongs to it',
  'The covariance of the training inputs is the kernel matrix plus the squared noise on the diagonal, is exactly symmetric, and the inverse or Cholesky factor returned with it is that of the returned matrix (up to the jitter added by a retry). '
  'If the matrix cannot be factorised after the retries an error is raised rather than a result returned.',
  ['inputs'], 'every data set, kernel, hyperparameter set and number of points',
  'Tests compare a few small matrices; the claim is for every size, kernel and hyperparameter set and for the retry path.',
  ['covariance.py'], [('inverse', 'bayeso/covariance.py:get_kernel_inverse'), ('Cholesky factor', 'bayeso/covariance.py:get_kernel_cholesky')])
p('C11', 'Hyperparameter vectors, dictionaries, bounds and defaults agree',
  'Converting a hyperparameter set to its vector form and back returns the same hyperparameters, and a vector survives the opposite round trip, for every kernel, process type, lengthscale layout and noise handling. '
  'Bounds and gradients list the entries in the same order and number as the vector, a fixed noise is kept, and validation accepts exactly complete, well-typed hyperparameter sets of the right dimension.',
  ['inputs', 'configurations'], 'every dimension, kernel, process type, lengthscale layout, noise handling and value',
  'Tests try particular dimensions and orders; the layouts are parametric in the dimension and four flags.',
  ['utils/utils_covariance.py', 'constants.py'], [('vector layout', 'bayeso/utils/utils_covariance.py:convert_hyps'), ('inverse', 'bayeso/utils/utils_covariance.py:restore_hyps'), ('bounds', 'bayeso/utils/utils_covariance.py:get_range_hyps')])
p('C12', 'An option name selects exactly the behaviour it names; others are refused',
  'Each documented name of a kernel, acquisition function, sampling method, hyperparameter optimiser, acquisition optimiser, model-selection criterion, fitting mode or surrogate selects the implementation of that name, and every other string is refused with an error before any work is done. '
  'An acquisition optimiser that is unavailable or unsuited to the dimension is replaced by the bounded local optimiser, nothing else is replaced.',
  ['configurations', 'inputs'], 'every string in every option position',
  'Tests try each valid name and one or two invalid ones per option; the refusal must hold for every other string.',
  ['covariance.py', 'utils/utils_bo.py', 'utils/utils_covariance.py', 'bo/base_bo.py', 'bo/bo_w_gp.py', 'bo/bo_w_tp.py', 'bo/bo_w_trees.py', 'gp/gp_kernel.py', 'tp/tp_kernel.py', 'wrappers/wrappers_bo_class.py'],
  [('name dispatch', 'bayeso/utils/utils_bo.py:choose_fun_acquisition'), ('allowed names', 'bayeso/constants.py')])
p('C13', 'Covariance functions equal their kernels and gradients are their derivatives',
  'Each covariance function equals its kernel formula for every pair of inputs, is the average pairwise kernel for set inputs, and adds the jitter exactly to the diagonal of a covariance of a data set with itself. '
  'The gradient with respect to each hyperparameter equals the analytic derivative of that covariance, in the layout of the hyperparameter vector.',
  ['inputs'], 'every input set, dimension, lengthscale layout, kernel and hyperparameter value',
  'Tests compare a few matrices with stored numbers; formula and derivative must agree for all inputs.',
  ['covariance.py'], [('kernels', 'bayeso/covariance.py:cov_*'), ('gradients', 'bayeso/covariance.py:grad_cov_*'), ('dispatch', 'bayeso/covariance.py:cov_main')])
p('C14', 'Posterior predictions are the exact conditionals of the process',
  'Predictions of the Gaussian and the Student-t process equal the exact conditional mean, covariance and deviation given the training data, hyperparameters, kernel and prior mean function, for any number of training and test inputs. '
  'The prior mean is subtracted from the responses and added back at the test inputs, and prediction with fitted hyperparameters uses exactly the hyperparameters and inverse that the fit returned.',
  ['inputs'], 'every data set, kernel, prior mean function, hyperparameter set and test set',
  'Tests compare a couple of stored numbers with zero prior mean; the identity must hold for all data and prior means.',
  ['gp/gp.py', 'tp/tp.py', 'utils/utils_gp.py'], [('conditionals', 'bayeso/gp/gp.py:predict_with_cov'), ('conditionals', 'bayeso/tp/tp.py:predict_with_cov'), ('prior', 'bayeso/utils/utils_gp.py:get_prior_mu')])
p('C15', 'Hyperparameter fitting optimises the stated likelihood with its own gradient',
  'The objectives used for fitting equal the negative log marginal likelihood of the Gaussian process, its leave-one-out pseudo-likelihood, and the negative log marginal likelihood of the Student-t process, and the gradients handed to the optimiser are theirs. '
  'Fitting starts from the default hyperparameters within the stated ranges, maximises the selected criterion, and returns the covariance and inverse belonging to the hyperparameters it returns.',
  ['inputs', 'configurations'], 'every data set, kernel, prior mean, optimiser, criterion and lengthscale/noise option',
  'Tests pin a few numbers; a wrong gradient or objective for other data still yields plausible fits.',
  ['gp/gp_likelihood.py', 'gp/gp_kernel.py', 'tp/tp_likelihood.py', 'tp/tp_kernel.py'],
  [('objective', 'bayeso/gp/gp_likelihood.py:neg_log_ml'), ('objective', 'bayeso/gp/gp_likelihood.py:neg_log_pseudo_l_loocv'), ('objective', 'bayeso/tp/tp_likelihood.py:neg_log_ml'), ('fit', 'bayeso/gp/gp_kernel.py:get_optimized_kernel')])
p('C16', 'Acquisition functions equal their closed forms for minimisation',
  'Probability of improvement, expected improvement, augmented expected improvement, the confidence bound, pure exploitation and pure exploration equal their closed forms for minimisation at every candidate, relative to the smallest observed response. '
  'Each value depends only on that candidate\'s mean and deviation, the observed responses and the options, and selecting a function by name gives the same values.',
  ['inputs'], 'every vector of means, non-negative deviations, responses, noise and option values',
  'Tests compare a few stored values.',
  ['acquisition.py', 'utils/utils_bo.py'], [('formulas', 'bayeso/acquisition.py'), ('dispatch', 'bayeso/utils/utils_bo.py:choose_fun_acquisition')])
p('C17', 'Trees partition the data, route queries by their splits, and average correctly',
  'Splitting a node sends the rows whose value in the chosen dimension lies below the split value to the left and all the others to the right; the dimension and value recorded in the node are the ones its rows were split by, and belong to the candidate with the smallest split criterion (the sum of the mean squared deviations of the two sides) among those tried. '
  'Growing a tree keeps every row: each side becomes a leaf with exactly its rows, or a node grown from exactly its rows (a node one side of which is empty keeps all its rows on either side), within the depth limit and the smallest leaf size. '
  'A query follows the same comparisons and gets the mean and standard deviation of the responses in its leaf. Every tree of a forest is grown from its own bootstrap, whose inputs and responses stay paired. '
  'A forest prediction is the mixture mean and deviation over all its trees and is returned in the order of the query rows, whatever their number.',
  ['inputs'], 'every data set, tree structure, query set, number of rows and trees',
  'Tests use tiny data sets with fewer queries than one processing chunk and do not follow rows to leaves.',
  ['trees/trees_common.py', 'trees/trees_generic_trees.py', 'trees/trees_random_forest.py'],
  [('split', 'bayeso/trees/trees_common.py:_split'), ('growing', 'bayeso/trees/trees_common.py:split'), ('routing', 'bayeso/trees/trees_common.py:_predict_by_tree'), ('mixture', 'bayeso/trees/trees_common.py:predict_by_trees'), ('bootstrap', 'bayeso/trees/trees_common.py:subsample')])
p('C18', 'Response normalisation is a fixed increasing affine map',
  'Normalised responses are the image of the responses under the increasing affine map that sends the smallest to 0 and the largest to 10; constant responses are returned unchanged. '
  'The order of responses, and hence the best observation, is preserved and the original responses are not altered.',
  ['inputs'], 'every response array',
  'Tests use two small arrays.',
  ['utils/utils_bo.py'], [('map', 'bayeso/utils/utils_bo.py:normalize_min_max')])
p('C19', 'Summaries of finished runs equal their definitions',
  'The best-so-far summary starts at the best of the initial responses and then, for each further evaluation, is the smallest response up to that evaluation, with mean, sample deviation and standard error taken over rounds. '
  'Time curves start at zero and accumulate the mean per-iteration times (without the initial evaluations when these are included), and grids contain every combination of the per-dimension grid values exactly once.',
  ['inputs'], 'every number of rounds, initial points, iterations, dimensions and grid sizes',
  'Tests use a few small arrays.',
  ['utils/utils_common.py', 'utils/utils_bo.py'], [('best so far', 'bayeso/utils/utils_common.py:get_minimum'), ('times', 'bayeso/utils/utils_common.py:get_time'), ('grids', 'bayeso/utils/utils_common.py:get_grids')])
p('C20', 'Inconsistent inputs are refused before anything is computed or evaluated',
  'Calls whose array arguments disagree - different numbers of inputs and responses, dimension or rank that does not match, reversed bounds, lengthscales of another dimension - and calls naming an unknown option are refused with an error; '
  'optimisation steps and sessions also refuse non-positive counts and responses with several columns. '
  'The refusal comes before the target function is evaluated, a model is fitted, anything is drawn or any caller-visible state changes.',
  ['inputs'], 'every public entry point and every inconsistent argument combination',
  'Tests try a few invalid values per function; refusal must hold for every inconsistent shape, and no test looks at what already happened before the refusal.',
  ['bo/base_bo.py', 'bo/bo_w_gp.py', 'bo/bo_w_tp.py', 'bo/bo_w_trees.py', 'wrappers/wrappers_bo_class.py', 'wrappers/wrappers_bo_function.py', 'thompson_sampling.py', 'covariance.py', 'gp/gp.py', 'tp/tp.py', 'acquisition.py', 'utils/utils_bo.py', 'utils/utils_common.py', 'utils/utils_plotting.py'],
  [('argument assertions', 'all public functions')])
p('C21', 'Missing optional packages degrade gracefully',
  'The library imports and optimises without its optional acquisition-optimiser and plotting packages. '
  'Selecting an optimiser whose package is missing falls back to the bounded local optimiser with a warning, and plotting functions return without drawing or writing anything.',
  ['configurations'], 'every subset of missing optional packages',
  'The test environment has one fixed set of packages.',
  ['utils/utils_bo.py', 'utils/utils_plotting.py', 'bo/bo_w_gp.py', 'bo/bo_w_tp.py'],
  [('guarded imports', 'module heads'), ('fallback', 'bayeso/utils/utils_bo.py:check_optimizer_method_bo'), ('early return', 'bayeso/utils/utils_plotting.py')])
p('C22', 'Plots are written only when asked, under the requested directory and name',
  'Plotting functions write a file only when both a directory and a name are given, and then only inside that directory with that name; otherwise they touch no file. '
  'They draw each series from the data of that series (mean, shaded band of the requested width, initial and later observations) and leave their inputs unchanged.',
  ['inputs', 'configurations'], 'every data set and option combination of every plotting function',
  'The tests skip drawing when the plotting package is missing and never observe the file system.',
  ['utils/utils_plotting.py'], [('save guard', 'bayeso/utils/utils_plotting.py:plot_*'), ('file name', 'bayeso/utils/utils_plotting.py:_save_figure')])
p('C23', 'Logging is idempotent and renders values faithfully',
  'Requesting a logger of the same name any number of times yields one logger with exactly one handler that lets debug messages through, so each message is emitted once, whatever handlers other loggers have; models with different experiment names or surrogates have separate loggers. '
  'Rendered arrays (one to three dimensions) and hyperparameters contain every element in order, double-precision numbers with three decimals.',
  ['inputs', 'histories'], 'every sequence of logger requests and every array or hyperparameter set',
  'Tests request a logger once and render two arrays.',
  ['utils/utils_logger.py', 'bo/base_bo.py'], [('handler guard', 'bayeso/utils/utils_logger.py:get_logger'), ('rendering', 'bayeso/utils/utils_logger.py:get_str_*')])
p('C24', 'Results have the documented shapes for every size',
  'Predictions, samples, proposals, candidates, acquisition values and run results have the documented array shapes for every number of training inputs, test inputs, samples and dimensions, including a single one. '
  'No size collapses or adds an axis.',
  ['inputs'], 'every number of points, candidates, samples, iterations and dimensions, in particular one',
  'Tests use particular sizes; degenerate sizes collapse axes silently.',
  ['gp/gp.py', 'tp/tp.py', 'bo/base_bo.py', 'bo/bo_w_gp.py', 'bo/bo_w_tp.py', 'bo/bo_w_trees.py', 'wrappers/wrappers_bo_class.py', 'trees/trees_common.py', 'utils/utils_common.py'],
  [('shape assembly', 'bayeso/gp/gp.py:sample_functions'), ('shape assembly', 'bayeso/bo/bo_w_gp.py:optimize')])
p('C25', 'Factorisations succeed and predictions are accurate in floating point',
  'For every reasonable data set the floating-point factorisation of the training covariance succeeds and predictions agree with exact arithmetic to within a small relative error.',
  ['inputs'], 'every data set and hyperparameter set within the stated ranges', 'Conditioning depends on the data.',
  ['covariance.py', 'gp/gp.py'], [('jitter', 'bayeso/covariance.py:get_kernel_cholesky')],
  na='rounding and conditioning depend on eigenvalues of run-time matrices; no sound static bound over all data is in reach (worst-case interval bounds are vacuous)')
p('C26', 'Optimisation approaches the optimum of the target',
  'With a growing evaluation budget the best observation of a run approaches the minimum of a continuous target over the search space.',
  ['inputs', 'histories'], 'every continuous target and growing budgets', 'Runs are finite and targets are few.',
  ['wrappers/wrappers_bo_class.py', 'bo/bo_w_gp.py'], [('loop', 'bayeso/wrappers/wrappers_bo_class.py:optimize')],
  na='a statement about limits of numerically optimised acquisitions over all continuous targets; the quality of local optimiser results is a run-time quantity no static analysis bounds')
p('C27', 'The local optimisers reach a good hyperparameter optimum',
  'The hyperparameters returned by fitting are a (near-)global optimum of the fitting criterion over the stated ranges.',
  ['inputs'], 'every data set', 'Non-convex objective; tests use a few data sets.',
  ['gp/gp_kernel.py', 'tp/tp_kernel.py'], [('optimiser call', 'bayeso/gp/gp_kernel.py:get_optimized_kernel')],
  na='depends on the trajectory of an iterative numerical optimiser on a non-convex run-time objective')
