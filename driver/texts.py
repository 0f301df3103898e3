"""Texts of the properties (properties.jsonl is generated from them)."""
T = {}
def P(i, title, statement, over, text, why, files, mech):
    T[i] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech)

P("C01", "Sampled design points stay inside the requested bounds",
  "Every point produced by a sampling method (Latin hypercube of any kind, uniform random, full factorial) has each coordinate between the lower and the upper bound given for that coordinate, and exactly the requested number of points and coordinates is returned.",
  ["inputs", "configurations"], "all bounds, all values of the random draws, every method, small point counts and dimensions",
  "tests compare a few seeded designs on a unit-like box; they never vary the bounds or the draws",
  ["crates/doe/src/lhs.rs", "crates/doe/src/random.rs", "crates/doe/src/full_factorial.rs", "crates/doe/src/traits.rs"],
  [("unit-cube plan scaled to the limits", "SamplingMethod::sample in traits.rs")])
P("C02", "Latin hypercube designs put exactly one point in each stratum",
  "A Latin hypercube design of n points, of every kind including the optimised ones, has in every dimension exactly one point in each of the n equal intervals of the range; the centered kinds put it at the middle. Optimisation only permutes points between strata.",
  ["inputs", "configurations"], "all uniform draws, all shuffles of small size, all acceptance decisions of the optimiser",
  "tests check fixed designs for one seed; a swap or index slip shows only for some draws",
  ["crates/doe/src/lhs.rs"], [("stratified draws, shuffles and element swaps", "Lhs::_*_lhs, _optimize_ese")])
P("C03", "Full factorial designs enumerate distinct points of a regular grid",
  "A full factorial design with a requested number of points returns that many pairwise different points of the regular grid whose levels are evenly spread over each range.",
  ["inputs", "configurations"], "all bounds and every requested size up to the bound",
  "tests look at two or three sizes", ["crates/doe/src/full_factorial.rs"], [("level computation and enumeration", "FullFactorial::normalized_sample")])
P("C04", "Correlation kernels follow their definitions and are valid correlations",
  "For every kernel the correlation of two points equals the documented formula of the difference, the length-scale parameters and the PLS weights; it is symmetric, lies in (0, 1], and is one at distance zero.",
  ["inputs", "configurations"], "all differences, length-scales and weights of bounded size",
  "tests compare single matrices computed once", ["crates/gp/src/correlation_models.rs"], [("value of each kernel", "CorrelationModel::value impls")])
P("C05", "Derivatives of kernels and mean functions are the exact derivatives",
  "For every kernel and every polynomial mean, the derivative reported with respect to the input is the derivative of the reported value, and the entry point returning both agrees with the separate ones. The mean bases are one, the coordinates, and all products of two coordinates.",
  ["inputs", "configurations"], "all points, length-scales and weights of bounded size",
  "tests compare finite differences at single points with loose tolerance",
  ["crates/gp/src/correlation_models.rs", "crates/gp/src/mean_models.rs"], [("jacobian and valjac of each kernel", "CorrelationModel impls"), ("jacobian of each mean", "RegressionModel impls")])
P("C06", "A Gaussian process without nugget interpolates its training data",
  "After training with no nugget, the predicted mean at each training input is the training output and the predicted variance there is zero, whatever the outputs, the scale and the offset of the data.",
  ["inputs", "configurations"], "all outputs; all sites and length-scales for two-point designs",
  "tests train on a handful of sampled functions and check RMSE-like errors",
  ["crates/gp/src/algorithm.rs", "crates/gp/src/utils.rs"], [("normalisation", "utils.rs NormalizedData/normalize"), ("generalised least squares", "algorithm.rs reduced_likelihood/compute_likelihood")])
P("C07", "Prediction entry points agree and variances are never negative",
  "Predicting mean and variance together or separately, one point or a batch at a time, through the direct or the trait interface, gives the same numbers. Every predicted variance is at least zero.",
  ["inputs"], "all query points in the box and all outputs",
  "tests call one entry point on a few points and never compare batch with single predictions",
  ["crates/gp/src/algorithm.rs"], [("predict, predict_var, predict_valvar", "GaussianProcess")])
P("C08", "Gaussian process gradients are the derivatives of its predictions",
  "The gradients of the predicted mean and of the predicted variance are the exact derivatives of the predictions with respect to the un-normalised inputs, and the combined entry point returns the same ones.",
  ["inputs", "configurations"], "all query points away from training sites, arbitrary outputs",
  "tests use finite differences at a few points with tolerances of percents",
  ["crates/gp/src/algorithm.rs"], [("predict_gradients, predict_var_gradients, predict_valvar_gradients", "GaussianProcess")])
P("C09", "Cluster responsibilities are Bayes posterior probabilities",
  "The responsibilities of the clusters of a mixture at any point are the posterior probabilities given by Bayes' rule for the weighted Gaussian densities with covariances scaled by the smoothing factor: each lies in [0, 1] and they sum to one, also far from every cluster. Their reported derivatives are the exact derivatives, and the hard assignment is the most responsible cluster.",
  ["inputs", "configurations"], "all query points, weights and means within the stated boxes",
  "tests print responsibilities or compare at points close to the clusters",
  ["crates/moe/src/gaussian_mixture.rs"], [("log densities and normalisation", "GaussianMixture::compute_log_prob_resp, compute_log_gaussian_prob"), ("derivatives", "predict_single_probas_derivatives")])
P("C10", "Mixture predictions recombine the experts as documented",
  "With smooth recombination the predicted mean is the responsibility-weighted sum of the experts' means and the variance the sum of the experts' variances weighted by squared responsibilities; with hard recombination value, variance and gradients are those of the most responsible expert, for every point of a batch. The combined entry points return the same numbers as the separate ones.",
  ["inputs", "configurations"], "all experts with affine mean and quadratic variance, all query points in the box",
  "tests check errors of trained mixtures on a few functions",
  ["crates/moe/src/algorithm.rs"], [("smooth and hard recombination", "GpMixture::predict_smooth, predict_var_smooth, predict_valvar_smooth and the _hard variants")])
P("C11", "Gradients of the smooth mixture are the derivatives of its predictions",
  "The gradients of the predicted mean and variance of a mixture with smooth recombination are the exact derivatives of those predictions, for any number of clusters and any dimension, and the combined entry point returns the same ones.",
  ["inputs", "configurations"], "all experts with affine mean and quadratic variance, all query points in the box",
  "tests use finite differences with loose tolerances and one cluster or particular sizes",
  ["crates/moe/src/algorithm.rs"], [("product rule on responsibilities and experts", "GpMixture::predict_gradients_smooth, predict_var_gradients_smooth, predict_valvar_gradients_smooth")])
P("C12", "Expected improvement criteria and their gradients follow their definitions",
  "At a point where the surrogate predicts mean m and standard deviation s, the expected improvement over the incumbent f is (f-m) Phi((f-m)/s) + s phi((f-m)/s), with s multiplied by the variance weight when one is given, and zero when the variance is negligible; the WB2 criteria are the scaled expected improvement minus the mean. The gradients reported are the exact derivatives of the values, variance weight and scale included.",
  ["inputs", "configurations"], "all incumbents, query points, weights and scales in the box, all affine means and quadratic variances",
  "tests compare finite differences at a few points with one surrogate and no weight",
  ["crates/ego/src/criteria/ei.rs", "crates/ego/src/criteria/wb2.rs", "crates/ego/src/utils/misc.rs"],
  [("value and grad of the criteria", "InfillCriterion impls of ExpectedImprovement and WB2Criterion"), ("normal distribution", "norm_cdf, norm_pdf")])
P("C13", "LogEI is the logarithm of the expected improvement, finite in the tail",
  "The LogEI criterion is the logarithm of the expected improvement computed without underflow: it stays finite however unlikely the improvement, and follows the asymptotic expansion far in the tail. Its gradient is the exact derivative.",
  ["inputs"], "all scaled improvements within the bounds and all query points in the box",
  "tests evaluate five values and finite differences on [-10, 10]",
  ["crates/ego/src/utils/logei_helper.rs", "crates/ego/src/criteria/ei.rs"],
  [("branches of the stable computation", "log_ei_helper, d_log_ei_helper"), ("criterion", "LogExpectedImprovement")])
P("C14", "The infill criterion is weighted by the probability of feasibility",
  "The probability of feasibility is the product over the constraints of the probability that the constraint does not exceed its tolerance; its logarithm and gradients are consistent with it. The infill objective given to the optimizer is minus the criterion (times, or plus the logarithm of, the feasibility when constraints are in the infill), scaled as requested, with the criterion replaced by its neutral element while no feasible point is known; its gradient is the exact derivative, with the same weights as the value.",
  ["inputs", "configurations"], "all tolerances, scales, weights, incumbents and query points in the box",
  "tests check finite differences at a few points with zero tolerance and unit weights",
  ["crates/ego/src/utils/cstr_pof.rs", "crates/ego/src/solver/solver_computations.rs"],
  [("feasibility and gradients", "pofs, pofs_grad, logpofs, logpofs_grad"), ("objective", "eval_infill_obj_with_cstrs, eval_grad_infill_obj_with_cstrs")])
P("C15", "The internal optimizer gets matching gradients and proposes points in the bounds",
  "At every point the objective and the constraint functions handed to the internal optimizer of the infill criterion return gradients that are the derivatives of their values with respect to the active components in their order (also with cooperative activity groups), constraint models are scaled and shifted as the strategy says (mean, or mean plus three standard deviations), and the proposed point lies within the bounds of the design space.",
  ["inputs", "configurations", "schedules"], "every point of the box as iterate and answer, several activity groups, every constraint strategy, both optimizers",
  "tests run whole optimizations and cannot see a wrong gradient component",
  ["crates/ego/src/solver/solver_infill_optim.rs", "crates/ego/src/solver/solver_computations.rs", "crates/ego/src/solver/coego.rs"],
  [("closures over the active components", "optimize_infill_criterion"), ("constraint models", "mean_cstr, upper_trust_bound_cstr"), ("activity", "coego::get_active_x, set_active_x")])
P("C16", "Mixed-integer points are projected, folded and sampled in their space",
  "Projecting a relaxed point leaves continuous variables unchanged, moves integers to a nearest integer of the range, ordered variables to a nearest listed value and enumerations to the mask of the level with the largest relaxed value; projecting twice changes nothing. Folding gives the value of each variable and the index of the level, unfolding is its inverse on admissible points. Mixed-integer samplings return admissible points only, and a mixed-integer surrogate predicts, with its gradients, what the plain surrogate predicts at the projected point.",
  ["inputs", "configurations"], "all relaxed points of the box, all admissible points, all values of the draws",
  "tests use one or two hand-made points and spaces where an index slip cancels out",
  ["crates/ego/src/gpmix/mixint.rs"],
  [("projection and folding", "cast_to_discrete_values, to_discrete_space, to_continuous_space"), ("sampling", "MixintSampling"), ("surrogate", "MixintGpMixture")])
P("C17", "The best point known is the best feasible one, or the least infeasible",
  "The best point of a data set is a feasible point of least objective when one exists, a point being feasible when no constraint exceeds its tolerance; otherwise the point of least total violation. Updating it with added points gives the best point of all, keeping the incumbent unless a new one is better. The state reports the parameters and costs of that point and the iteration at which it was last improved.",
  ["inputs", "histories"], "all values of objectives, constraints and tolerances, all incumbents",
  "tests use a handful of rows with zero tolerance",
  ["crates/ego/src/utils/find_result.rs", "crates/ego/src/solver/egor_state.rs"],
  [("comparison and search", "cstr_min, find_best_result_index, find_best_result_index_from, is_feasible"), ("state", "EgorState::update")])
P("C18", "The data set grows consistently and functions see admissible points",
  "Adding points keeps the known rows, appends in order exactly the new points that are not too close to a known or already added one, with their own outputs and constraint values, and reports which. The objective and every constraint function are evaluated at the same points of the user's space: continuous variables unchanged, discrete ones at admissible values.",
  ["inputs", "histories"], "all coordinates and values, all relaxed points",
  "tests append one or two chosen points", ["crates/ego/src/utils/misc.rs", "crates/ego/src/solver/solver_computations.rs"],
  [("update of the data", "update_data"), ("evaluations", "eval_obj, eval_problem_fcstrs")])
P("C19", "Virtual values, constraint scales and starting points follow their definitions",
  "The virtual values used for parallel points are the predicted mean of each output (minus or plus three standard deviations of the objective with the bound variants), or the outputs of the known point of least objective with the constant liar. The scale of a constraint is its largest predicted magnitude over the sample. Starting points are middles of known points, at most as many as asked and inside the bounds; those of a local step are inside the intersection of the local area and the bounds.",
  ["inputs", "configurations"], "all surrogates of the family, all data in the box",
  "tests compare one case each", ["crates/ego/src/solver/solver_computations.rs", "crates/ego/src/utils/start_points.rs", "crates/ego/src/solver/trego.rs"],
  [("virtual points", "compute_virtual_point"), ("scales", "compute_cstr_scales"), ("starting points", "start_points, LocalLhsMultiStarter")])
P("C20", "An EGO iteration keeps the data, adds evaluated points and tracks the best",
  "Whatever the history and whatever the internal optimizer proposes, an iteration keeps the known points and values, adds at most the requested number of points, inside the bounds and away from known ones, each evaluated exactly once with its returned values recorded, or reports convergence after the allowed retries. Afterwards the best point, its iteration, the counters and the feasibility flag describe the data, and the problem and random generator are still there for the next iteration.",
  ["histories", "schedules", "inputs"], "all objective and constraint values, all proposals including coincident ones and failures of the optimizer, several histories",
  "tests run seeded optimizations to the end and look at the optimum only",
  ["crates/ego/src/solver/solver_impl.rs", "crates/ego/src/solver/egor_solver.rs", "crates/ego/src/solver/egor_state.rs"],
  [("iteration", "EgorSolver::ego_step, select_next_points, ego_iteration"), ("initialization", "EgorSolver::init")])
P("C21", "TREGO alternates global and local steps and adapts its trust region",
  "With TREGO a step is global when the previous global step succeeded or at each (1 + number of local steps)-th iteration, local otherwise. The trust region grows by gamma after a success (the best objective decreased by more than the squared size), shrinks by beta after a failed local step and is kept after a failed global step or at the start. A local step evaluates exactly one point and keeps data, best point and counters consistent.",
  ["histories", "schedules", "inputs"], "all objective values, sizes and proposals, several histories",
  "tests only check that TREGO finds an optimum",
  ["crates/ego/src/solver/egor_solver.rs", "crates/ego/src/solver/trego.rs"],
  [("phase and size", "trego_iteration"), ("local step", "trego_step")])
P("C22", "CoEGO groups partition the components and iterations keep their guarantees",
  "The random activity groups of CoEGO contain each component exactly once, in as many groups as asked (at most one per component) whose sizes differ by one at most; without CoEGO all components are active. An iteration with cooperative groups adds points within the bounds, keeps the data and the best point consistent and draws new groups.",
  ["configurations", "schedules", "inputs"], "all values and proposals, several group counts",
  "tests check one partition and the optimum of one run",
  ["crates/ego/src/solver/coego.rs", "crates/ego/src/solver/solver_infill_optim.rs"],
  [("groups", "get_random_activity, full_activity, strip"), ("iteration over the groups", "optimize_infill_criterion")])
P("C23", "A run returns all evaluated points and the best of them",
  "A whole optimization returns the given points followed by all the evaluated points in order, in the user's space, with the values returned by the function, and as optimum one of those points: the best one. It stops as soon as the best objective reaches the target, otherwise after the maximum number of iterations unless it converges. The function is only ever evaluated inside the design space.",
  ["inputs", "histories"], "all function and target values, all proposals of the internal optimizer, variables of each kind",
  "tests compare the optimum of a few seeded runs",
  ["crates/ego/src/egor.rs", "crates/ego/src/solver/egor_solver.rs", "crates/ego/src/solver/egor_state.rs"],
  [("run and result", "Egor::run"), ("termination", "EgorState and the argmin executor")])
P("C24", "Suggested points belong to the design space and are learned from told data",
  "The ask-and-tell service suggests as many points as configured, each with one admissible value per variable of the user's space, using surrogates trained on exactly the told points and values (and, for further suggestions, on the virtual points suggested before).",
  ["inputs", "configurations"], "all told values, all proposals of the internal optimizer, variables of each kind",
  "tests run one loop on one continuous function",
  ["crates/ego/src/solver/egor_service.rs", "crates/ego/src/solver/solver_impl.rs"],
  [("service", "EgorServiceApi::suggest, EgorSolver::suggest")])
P("C25", "Surrogates are trained with the requested settings and schedule",
  "Each output has its own surrogate trained on its own column with the regression, correlation, dimension reduction, recombination, cluster and optimizer settings requested. Hyperparameters are optimized at the requested interval and otherwise reused from the last optimization; the clustering is made at the start and at each tenth point when automatic, kept otherwise.",
  ["configurations", "histories"], "all data values over three consecutive proposals and several schedules",
  "tests never look at the settings with which the inner surrogates are trained",
  ["crates/ego/src/solver/solver_impl.rs"], [("training of the surrogates", "make_clustered_surrogate, select_next_points, have_to_recluster")])
TEXTS = T
NA = {}
