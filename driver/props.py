"""Property id -> harnesses, bounds and assumptions."""
PROPS = {
    "C01": dict(
        harnesses=["h_doe:bounds_lhs", "h_doe:bounds_random", "h_doe:bounds_ff"],
        bounds="interval bounds: any reals, |lower| <= 1000, 0.001 <= width <= 1000; plans of 1..4 points in 1..3 dimensions (full factorial: 1..12 points); every value of the uniform draws for the Classic/Centered/Random plans, fixed draws for the optimised kinds",
        outside="more points or dimensions; one-ulp rounding at the upper bound; single-point Maximin/Optimized plans",
    ),
    "C02": dict(
        harnesses=["h_doe:latin_classic", "h_doe:latin_centered", "h_doe:latin_maximin", "h_doe:latin_optimized", "h_doe:latin_ese_accept"],
        bounds="plans of 1..10 points in 1..3 dimensions; every value of the uniform draws, all orderings of the shuffles up to 3 points and one beyond; ESE search on fixed swaps with every acceptance draw",
        outside="more points; other swap sequences",
    ),
    "C03": dict(
        harnesses=["h_doe:ff_grid"],
        bounds="2 dimensions, 1..12 points, any bounds",
        outside="more dimensions or points",
    ),
    "C04": dict(
        harnesses=["h_gp:value_se", "h_gp:value_ae", "h_gp:value_m32", "h_gp:value_m52",
                   "h_gp:range_se", "h_gp:range_ae", "h_gp:range_m32", "h_gp:range_m52"],
        bounds="1..2 inputs, 1..2 PLS components, 1..2 pairs of points; length-scale parameters in [0.01, 20], weights in [-2, 2], differences in [-5, 5]: all reals",
        outside="more inputs or components; underflow of exp",
    ),
    "C05": dict(
        harnesses=["h_gp:jac_se", "h_gp:jac_ae", "h_gp:jac_m32", "h_gp:jac_m52", "h_gp:mean_models"],
        bounds="1..2 inputs (mean models: 1..3), 1..2 components, 1..2 training rows; all real values in bounded boxes, points at least 0.01 away from a training coordinate (the kernels are not differentiable there)",
        outside="more inputs; coincident coordinates",
    ),
    "C06": dict(
        harnesses=["h_gp:interp_se2", "h_gp:interp_se3", "h_gp:interp_ae2", "h_gp:interp_m32", "h_gp:normalisation", "h_gp:differences"],
        bounds="2..3 training points in 1..2 dimensions, no nugget, given length-scales; arbitrary outputs, arbitrary sites and length-scale for the 2-point squared exponential and Matern 3/2 models, fixed sites for the others",
        outside="more training points; duplicated training sites; ill-conditioned correlation matrices",
    ),
    "C07": dict(
        harnesses=["h_gp:consistent_se2", "h_gp:consistent_se3"],
        bounds="2..3 training points, squared exponential kernel, constant mean, batches of 1..2 query points anywhere in [-3, 3]",
        outside="larger batches and training sets",
    ),
    "C08": dict(
        harnesses=["h_gp:grad_se2", "h_gp:grad_se22", "h_gp:grad_m52", "h_gp:grad_se3", "h_gp:grad_lin_se3",
                   "h_gp:vgrad_se2", "h_gp:vgrad_se22", "h_gp:vgrad_lin_se3", "h_gp:vgrad_m52", "h_gp:vgrad_se3"],
        bounds="2..3 training points in 1..2 dimensions, fixed sites and length-scales, arbitrary outputs (mean gradient), query point anywhere in [-3, 3] at least 0.05 from a training coordinate and with variance above 1e-6 (variance gradient)",
        outside="gradients at the training points, where the variance is clipped at zero",
    ),
    "C09": dict(
        harnesses=["h_moe:probas_1", "h_moe:probas_far", "h_moe:probas_3", "h_moe:probas_22",
                   "h_moe:dprobas_1", "h_moe:dprobas_far", "h_moe:dprobas_3", "h_moe:dprobas_22"],
        bounds="2..3 clusters in 1..2 dimensions; weights and means of two one-dimensional clusters arbitrary, covariances and smoothing factor from a small set; query points anywhere within 3..4 (or 60) of the origin",
        outside="more clusters and dimensions; singular covariances; floating-point overflow",
    ),
    "C10": dict(
        harnesses=["h_moe:smooth_1", "h_moe:smooth_2", "h_moe:smooth_22", "h_moe:hard_1", "h_moe:hard_2", "h_moe:hard_22"],
        bounds="1..2 clusters in 1..2 dimensions, arbitrary experts (affine mean, quadratic variance), query points within 4 of the origin, batches of 1..2 points for the hard recombination",
        outside="more clusters; points where two clusters are equally responsible (hard recombination)",
    ),
    "C11": dict(
        harnesses=["h_moe:gsmooth_1", "h_moe:gsmooth_2", "h_moe:gsmooth_22", "h_moe:vsmooth_1", "h_moe:vsmooth_2", "h_moe:vsmooth_22", "h_moe:vsmooth_31"],
        thorough=["h_moe:gsmooth_32"],
        bounds="1..3 clusters in 1..2 dimensions, fixed cluster means and covariances, arbitrary experts (affine mean, quadratic variance), query points within 2 of the origin",
        outside="more clusters and dimensions; the finite-difference gradients of sparse experts",
    ),
    "C12": dict(
        harnesses=["h_ego:ei_value", "h_ego:ei_grad", "h_ego:ei_novar", "h_ego:wb2"],
        bounds="surrogates with arbitrary affine mean and arbitrary quadratic variance in 2 dimensions (1 for the no-variance case), any incumbent in [-5, 5], query points in [-2, 2], any scale in [0.1, 10] and any variance weight in [0.25, 4]",
        outside="more dimensions; other shapes of mean and variance; rounding of erfc far in the tail",
    ),
    "C13": dict(
        harnesses=["h_ego:logei_helper", "h_ego:logei", "h_ego:logei_gap", "h_ego:logei_far"],
        bounds="scaled improvement in [-1e8, 37] except within one percent of -1e6; composition for surrogates with affine mean and quadratic variance in 2 dimensions",
        outside="scaled improvements beyond these ranges; rounding",
    ),
    "C14": dict(
        harnesses=["h_ego:pof_value", "h_ego:pof_gradient", "h_ego:logpof", "h_ego:infill_ei", "h_ego:infill_logei",
                   "h_ego:infill_wb2s", "h_ego:infill_ei_cstr", "h_ego:infill_logei_cstr"],
        bounds="0..2 constraints, surrogates with affine mean and quadratic variance in 1..2 dimensions, any tolerance in [-1, 1], incumbent in [-5, 5], scales in [0.1, 10], variance weight in [0.25, 4], query points in [-2, 2]",
        outside="more constraints or dimensions; probabilities below 1e-6 for the logarithmic form",
    ),
    "C15": dict(
        harnesses=["h_ego:cstr_mean", "h_ego:cstr_ub"] + [f"h_ego:optim_{o}_{c}" for o in ("slsqp", "cobyla") for c in ("none", "mean", "utb", "pof")],
        bounds="3 inputs in [-2, 2], one constraint model, every point of the box as the optimizer's iterate and as its answer, activities [0,1,2], [2,0]+[1], [1,2,0], any scale in [0.1, 10], any variance weight in [0.25, 4]",
        outside="more inputs or constraints; convergence of the external optimizers",
    ),
    "C16": dict(
        harnesses=[f"h_ego:mixint_{n}" for n in ("cast", "fold", "enum2", "unfold", "sampling", "surrogate")],
        bounds="five spaces mixing continuous, integer ([-3, 4]), ordered (3 values, unsorted) and enumerated (2..3 levels) variables, every point of the relaxed box and every admissible point; samples of 1..2 points with every value of the draws; surrogate trained on 3 points",
        outside="larger spaces and designs; level indices of a second enumeration (known finding)",
    ),
    "C17": dict(
        harnesses=["h_ego:best_index", "h_ego:best_index_from", "h_ego:order", "h_ego:state_update"],
        bounds="1..3 points, 0..1 surrogate constraints, 0..1 constraint functions, all values in [-5, 5] and tolerances in [-1, 1]",
        outside="more points and constraints; non-finite values",
    ),
    "C18": dict(
        harnesses=["h_ego:append", "h_ego:evaluations"],
        bounds="1..2 known and 1..3 new points in 1..2 dimensions, all coordinates in [-5, 5]; evaluations at every relaxed point of a continuous and a mixed space of 3 variables",
        outside="more points and dimensions",
    ),
    "C19": dict(
        harnesses=["h_ego:virtual_point", "h_ego:cstr_scales", "h_ego:starts", "h_ego:local_starts"],
        bounds="surrogates with affine mean and quadratic variance, 0..2 constraints, 1..3 known points in 1..2 dimensions, any trust region centre and extents in [0.001, 3]",
        outside="more points, dimensions and constraints; starting points drawn by the other strategies",
    ),
    "C20": dict(
        harnesses=["h_ego:loop_" + n for n in ("plain", "plain_q2", "plain2", "first", "retry", "failing", "constrained", "fcstr",
                                                "fcstr_values", "mixed_int", "mixed_enum")],
        thorough=["h_ego:loop_second"],
        bounds="one iteration from the initial state or from any of four histories (iteration, last improvement, previous best), 2 known points in 1..2 dimensions, any objective and constraint values in [-5, 5], any proposal of the internal optimizer in the box, 1..2 points per iteration, 0..1 constraint, flat criterion and stand-in surrogates",
        outside="more points and dimensions; the values of the proposals made by the external optimizers; recorded values of constraint functions (known finding)",
    ),
    "C21": dict(
        harnesses=["h_ego:loop_trego"],
        bounds="one iteration from any of four histories, any trust region size in [0.01, 3], previous step local or global, 1..2 local steps per global one, 2 known points in one dimension, any values in [-5, 5], any proposals of the internal optimizer",
        outside="more dimensions; constraints; the location of the local proposals",
    ),
    "C22": dict(
        harnesses=["h_ego:activity", "h_ego:loop_coego"],
        bounds="1..5 components (thorough 6) and 1..4 groups; one iteration in 3 dimensions with 2 groups, 2 known points",
        outside="more components and groups; constraint functions with cooperative activity",
    ),
    "C23": dict(
        harnesses=["h_ego:run_float", "h_ego:run_cstr", "h_ego:run_mixed"],
        bounds="whole runs through Egor::run of 1 iteration (thorough 2) from 2 known points in one continuous, integer, ordered or enumerated variable, 0..1 constraint, any objective, constraint and target values",
        outside="longer runs; more variables; checkpoints and files",
    ),
    "C24": dict(
        harnesses=["h_ego:suggest"],
        bounds="3 told points, 2-variable spaces of each kind, 0..1 constraint with any tolerance in [0, 1], 1..2 suggestions, any told values, any proposals of the internal optimizer",
        outside="more points and variables",
    ),
    "C25": dict(
        harnesses=["h_ego:training", "h_ego:recluster"],
        bounds="3 consecutive proposals of 1..2 points with hyperparameters optimized each 1..3 trainings, 0..1 constraint, fixed or automatic clustering, with or without dimension reduction; 0..27 points for the clustering schedule",
        outside="longer sequences; cooperative activity",
    ),
}
