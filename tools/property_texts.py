prop("C01", "The package imports and works in every supported environment and import order",
     "The package, each of its public modules and its documented flat import path can be imported in any order in a fresh interpreter, and what the remaining dependencies allow works and gives the same numbers, whichever of the optional dependencies (PyTorch, POT, duecredit, plotting) are missing. Importing changes no global settings and draws no random numbers.",
     ["configurations", "histories"], "every subset of the optional dependencies, both import modes, every order of import statements and first uses",
     "The tests run in one environment where everything is installed, in one import order.",
     [P + "__init__.py", CORE, P + "due.py", SE + "__init__.py", P + "kernels/__init__.py", P + "utils/__init__.py"],
     [("guarded imports of torch, ot and duecredit", CORE + " (top), " + P + "due.py, " + P + "__init__.py")],
     ("property-based testing: generated environments, import orders and first uses in fresh interpreters",
      "All 2^4 subsets of optional dependencies in both import modes every run, generated orders on top; missing packages are simulated by an import hook."))
prop("C02", "Pairwise distances equal their definition",
     "For any two finite point sets of equal dimension the pairwise distance routine fills the given output with exactly the requested distance (squared Euclidean, Euclidean or l1) of every pair, for any size, memory layout and supported number type. Inputs are left unchanged.",
     ["inputs"], "all point sets, dimensions, memory layouts, number types and metrics",
     "One test compares one random pair of clouds per metric with scipy.",
     [NUMPY], [("my_cdist", NUMPY)],
     ("property-based testing: generated point sets and layouts against a reference implementation",
      "Random exploration with shrinking; reference in plain numpy; finite coordinates."))
prop("C03", "The score estimators equal the sparse kernel estimator's closed form",
     "For any samples, inducing points, lengthscale (scalar or per dimension) and regularisation, the estimated gradient of the log density equals the closed form of the sparse kernel score estimator. The single-dimension, all-dimensions and legacy routines agree with it and with each other.",
     ["inputs", "configurations"], "all sample clouds, inducing points, lengthscales, regularisation constants, dimensions and estimator variants",
     "One script-style test covers single clouds and prints rather than compares most of them.",
     [NUMPY, LEG], [("numba kernels K and its gradient, regularised linear solve", NUMPY), ("legacy estimator", LEG)],
     ("property-based testing: differential against an independent closed form",
      "Random exploration with shrinking, dimensions 1-6, up to 500 samples; kernel 'RBF' only (the documentation excludes 'periodic')."))
prop("C04", "Function-valued score estimates are consistent, pointwise, repeatable and pure",
     "The function form of every score estimator evaluated at the samples equals the array form; evaluated elsewhere it equals the closed form point by point, whatever other points are in the same call. Calls in any order, interleaved with other estimators, always give the same answer and change none of their inputs.",
     ["inputs", "histories"], "all estimators, query sets and orders of calls, with other estimators created in between",
     "No test calls a returned function twice, or away from a fixed grid.",
     [NUMPY, LEG, TORCH], [("closures returned with func_out=True", NUMPY + ", " + LEG + ", " + TORCH)],
     ("property-based testing: generated query histories against closed form and metamorphic relations",
      "Random exploration with shrinking; every estimator variant; rounding-level tolerance."))
prop("C05", "The score estimate respects the symmetries of a score",
     "Permuting samples or inducing points leaves the estimate (accordingly permuted) unchanged; translating, rotating, reflecting, rescaling or permuting the coordinates of samples and inducing points (and lengthscales) transforms it as the gradient of a log density transforms.",
     ["inputs"], "all clouds and all transformations of each kind",
     "No test relates two evaluations of an estimator.",
     [NUMPY, LEG, TORCH], [("kernel of scaled distances, per-dimension gradients", NUMPY + ", " + TORCH)],
     ("property-based testing: metamorphic relations over generated transformations",
      "Random exploration with shrinking; translations of at most a few hundred spreads."))
prop("C06", "The score estimate is the gradient of the log density",
     "On samples from a density with known score, with enough samples and inducing points, every estimator reproduces the score in the bulk of the density; on samples of any shape it satisfies Stein's identity. The sign and scale are those of the gradient of the log density.",
     ["inputs"], "all means, scales, correlations, mixtures and shapes of densities, all estimators",
     "The tests never compare with a known density in an assertion.",
     [NUMPY, LEG, TORCH], [("sparse kernel score estimator", NUMPY + ", " + TORCH)],
     ("property-based testing: generated densities with known score, Stein's identity as invariant",
      "Statistical: rms error at most 0.4 against 0.26 worst in calibration; Stein identity within 0.1-0.6 against 0.036-0.31."))
prop("C07", "The PyTorch score estimator equals the numpy one for every accepted input",
     "For any samples, inducing points, lengthscale and regularisation, given in any documented container, the PyTorch estimator returns the same values as the numpy estimator and the closed form, in double precision.",
     ["inputs", "configurations"], "all clouds, hyper-parameters and combinations of input containers, array and function output",
     "The one test comparing the backends runs one case in single precision and does not pass reliably.",
     [TORCH, NUMPY, KER], [("torched_score_function_multid_seperate_all_dims", TORCH)],
     ("property-based testing: differential, PyTorch against numpy and closed form",
      "Random exploration with shrinking; CPU only (no GPU in the sandbox)."))
prop("C08", "The PyTorch Gaussian kernel has the right values and gradients, without memory",
     "The kernel object returns the Gaussian kernel of its current hyper-parameters for any two point sets, as a differentiable function of points and hyper-parameters, and its gradient routine the corresponding derivative at exactly the points it is asked for. Answers do not depend on earlier requests.",
     ["inputs", "histories"], "all hyper-parameters, point sets and sequences of value and gradient requests",
     "The kernel test draws one single-precision case and fails at random.",
     [KER], [("RBF.Kernel, RBF.gradient_X, RBF.gradient_XX", KER)],
     ("property-based testing: stateful histories against the formula and central differences",
      "Random exploration with shrinking; up to 6 requests per kernel object."))
prop("C09", "Reweighting is an optimal transport from the weights to uniform weights",
     "For any particles and normalised weights the transport map is non-negative, moves the whole weight of every particle, gives every particle the same mass, and costs no more than any other such map. The weighted mean of the particles is preserved.",
     ["inputs"], "all particle sets (including duplicates) and weights (including zeros, ties and concentration)",
     "No test calls the reweighting routine.",
     [RW], [("emd_with_flow on the pairwise distances", RW)],
     ("property-based testing: invariants of the plan and optimality by an independent linear program / dual bound",
      "Random exploration with shrinking; up to 250 particles."))
prop("C10", "Solving stores complete, finite flows on the right time grid",
     "However a problem is stated (sequences, arrays or tensors for the end points; any start time, horizon, dimension and mode), the controller covers the interval with a uniform grid from start to end time and stores finite flows of the documented shape: the forward flow starts in the initial state, the backward flow runs from the target at the end time back to the initial state.",
     ["inputs", "configurations"], "all problems, horizons, ensemble sizes, modes and containers, both backends",
     "The stable tests never construct a controller; the example scripts check nothing.",
     [CORE], [("constructors, sampling and backward simulation", CORE)],
     ("property-based testing: generated problems, invariants of the stored flows",
      "Random exploration with shrinking; horizons up to 300 steps; drifts bounded as described in DESIGN.md."))
prop("C11", "The user's functions are evaluated at the flows' states and matching times",
     "Every call of the drift, the true drift and the path constraint gets the particles of a flow (dimension by particles) together with the time of the grid at which the flow is there, in forward and in backward direction, and every step is driven by such an evaluation. The states that the drifts are given are not modified afterwards.",
     ["inputs", "histories"], "all problems with time-dependent drift or constraint, all steps of both directions, all modes",
     "No test records what a drift is called with; time-independent drifts hide wrong times.",
     [CORE], [("arguments of f, f_true and U in sampling and backward simulation", CORE)],
     ("property-based testing: recorded call history checked against the stored flows",
      "Random exploration with shrinking; extra evaluations at flow states are allowed."))
prop("C12", "Forward flow: each step follows the deterministic Fokker-Planck dynamics",
     "The first step from the initial state is Gaussian with the drift's mean and the diffusion's variance in every dimension; in every later step each particle moves with the drift minus half the squared diffusion times the score of the current particles. This holds for every drift, dimension, scalar or per-dimension diffusion and start time.",
     ["inputs"], "all problems, all steps, all random choices of inducing points",
     "No test looks at a step of the flow.",
     [CORE, NUMPY, TORCH], [("forward sampling, first stochastic step, effective drift", CORE)],
     ("property-based testing: stored flows against a recomputed law, statistical first step",
      "Statistical thresholds of 6.5 sigma or more; deviations are confirmed against 500 further choices of inducing points."))
prop("C13", "Backward flow: each step follows the reversed dynamics",
     "The first step back from the target is Gaussian around the reversed drift corrected by the forward flow's score; in every later step each particle moves back with the drift, minus the squared diffusion times the forward flow's score, plus half the squared diffusion times the backward flow's own score. Both scores belong to the same time and to the backward particles' positions.",
     ["inputs"], "all problems, all steps, all random choices of inducing points",
     "No test looks at a step of the flow.",
     [CORE, NUMPY, TORCH], [("backward_simulation, density_estimation, bw_density_estimation", CORE)],
     ("property-based testing: stored flows against a recomputed law, statistical first step",
      "Statistical thresholds of 6.5 sigma or more; deviations are confirmed against 500 further choices of inducing points."))
prop("C14", "Path constraints reweight every forward step by exp(U dt), optimally transported",
     "With a path constraint, after every forward step the particles are moved by an optimal transport from the weights proportional to exp(U dt) at the new states to uniform weights. Adding a constant to the constraint changes nothing, and a constraint that is constant in space leaves the flow as it is without one.",
     ["inputs"], "all problems, constraints, strengths, dynamics and steps, both backends",
     "No stable test solves a constrained problem.",
     [CORE, RW], [("reweighting in forward sampling", CORE), ("transport map", RW)],
     ("property-based testing: recorded constraint evaluations against an optimal-transport oracle, metamorphic constants",
      "Random exploration with shrinking; any plan of minimal cost is accepted; cost distance or squared distance."))
prop("C15", "The control is the difference of the backward and the forward flow's scores",
     "At any inner time and any points the returned control is the gradient of the log density of the backward flow minus that of the forward flow (of the uncontrolled flow in bridge mode), Gaussian approximations within the first and last few steps, kernel estimates in between. Its shape is dimensions by points and points do not influence each other.",
     ["inputs", "configurations"], "all problems, inner time indices, query points and modes",
     "No stable test evaluates a control.",
     [CORE], [("calculate_u", CORE)],
     ("property-based testing: controls against recomputed scores of the stored flows",
      "Exact close to the ends, mean over 80 calls (9 standard errors) elsewhere."))
prop("C16", "Flows and control do not depend on the frame of reference",
     "Stating the same problem in translated, rescaled, uniformly moving or time-shifted coordinates gives, with the same random seed, the accordingly transformed flows and control.",
     ["inputs"], "all problems and transformations, both backends, every mode",
     "No test relates two solutions.",
     [CORE, NUMPY, TORCH], [("whole pipeline; scale-aware lengthscales and inducing boxes", CORE)],
     ("property-based testing: metamorphic relation between two solutions with one seed",
      "Random exploration with shrinking; tolerance set by rounding amplification (2e-5 forward, 1e-2 backward)."))
prop("C17", "Solutions are reproducible, isolated from each other and free of side effects",
     "Solving again with the same seeds gives identical flows and controls, whatever was solved or evaluated in between and at whatever log level; nothing that is done with one controller changes another one, the stored flows, the caller's arrays or global settings. Equivalent statements of one problem give the same solution.",
     ["histories", "configurations"], "all sequences of solves, control evaluations, coverage tests and log-level changes over several controllers of both backends",
     "Every test uses one controller once.",
     [CORE, NUMPY, TORCH, KER], [("per-instance storage; global random generators", CORE)],
     ("property-based testing: model-based histories with repetition and isolation invariants",
      "Histories of up to 12 operations; both global random generators seeded before each operation."))
prop("C18", "A point counts as covered exactly when both flows surround it in every dimension",
     "The coverage test answers true exactly when every given point lies, in each dimension, within the range of the forward and of the backward flow at that time, boundaries included.",
     ["inputs"], "all flows, times and points in every accepted container",
     "No test calls it.",
     [CORE], [("check_if_covered", CORE)],
     ("property-based testing: generated points against the definition",
      "Random exploration with shrinking; includes boundary points and the ends of the interval."))
prop("C19", "For linear systems flows, control and steered system match the exact solution",
     "For linear systems with Gaussian noise, fixed end points and optionally a quadratic path constraint, the forward and backward flows reproduce the exact filtering and bridge marginals, the control reproduces the exact one, and a system simulated under it follows the exact bridge and arrives at the target.",
     ["inputs", "configurations"], "all linear systems, horizons, start times, noise strengths, targets, constraints, both backends, both particle dynamics",
     "No test compares with a known solution.",
     [CORE, NUMPY, TORCH, RW], [("whole pipeline", CORE)],
     ("property-based testing: generated linear-Gaussian problems against exact filtering and smoothing",
      "Statistical accuracy with 300-400 particles and 50 inducing points; limits about four times the largest calibrated error."))
prop("C20", "Bridge mode: uncontrolled flow by the true drift, sampled flow by the bridge",
     "In the reweighted bridge mode the additional uncontrolled flow starts in the initial state and follows the particle dynamics of the true drift without any reweighting; the sampled forward flow follows the bridge drift between reweightings, and the backward flow reverses it. With the Girsanov weights as path cost, backward flow and control are those of the true system's bridge.",
     ["inputs"], "all bridge-mode problems, steps and random choices, both backends",
     "No test runs the bridge mode.",
     [CORE], [("forward_sampling_Otto_true, f_seperate_true", CORE)],
     ("property-based testing: stored flows against a recomputed law; end to end against exact Gaussian smoothing",
      "Statistical thresholds of 6.5 sigma or more; deterministic particle dynamics; end to end on linear gradient systems."))
prop("C21", "Stochastic mode: both flows are sample paths with the right drift and noise",
     "With stochastic particles every step of the forward flow adds the drift and independent Gaussian noise of the diffusion's variance, and every step of the backward flow the reversed drift corrected by the full forward score plus such noise, for every particle, dimension and step.",
     ["inputs"], "all problems and steps, both backends",
     "No test runs the stochastic mode.",
     [CORE], [("forward_sampling, stochastic branch of backward_simulation", CORE)],
     ("property-based testing: standardised increments tested for mean, variance and independence",
      "Statistical thresholds of 6.5 sigma or more."))
prop("C22", "The diffusion coefficient works in its documented forms",
     "A diffusion coefficient of the same value gives the same flows and control whichever way it is written, and a per-dimension diffusion treats each dimension with its own value.",
     ["inputs", "configurations"], "all problems and all documented forms of the coefficient, both backends",
     "The examples use one number.",
     [CORE], [("use of g in sampling, backward simulation and inducing scale", CORE)],
     ("property-based testing: metamorphic, one problem in several statements",
      "Random exploration with shrinking; forms the documentation names but the code rejects are listed as known findings."))
prop("C23", "Nonlinear systems: flows and control match the controlled diffusion",
     "With enough particles, forward and backward flow reproduce mean, spread and shape of the constrained diffusion and of its bridge, and the control equals the exact optimal one along it, also for nonlinear, non-autonomous and multistable drifts and non-quadratic path constraints, up to the method's documented sampling error; a system simulated under it follows the bridge and arrives at the target.",
     ["inputs"], "all nonlinear drifts, constraints, targets, noise strengths and start times in 1-3 dimensions, both backends",
     "No test solves a control problem, let alone compares with a solution of the forward and backward equations.",
     [CORE, RW, NUMPY, TORCH], [("forward_sampling_Otto, density_estimation, backward_simulation, calculate_u", CORE)],
     ("property-based testing: generated problems against a grid solution of the forward and backward equations",
      "300 particles; problems that separate in a generated rotated frame; accuracy limits from calibration (0.3 standard deviations in the mean, 15 per cent in the spread; wider for reweighted numpy flows)."))
prop("C24", "Repeated use does not accumulate memory",
     "However often problems are solved, controls evaluated or scores estimated, memory that is no longer reachable by the user is released: after the first few rounds the process does not grow with the number of rounds.",
     ["histories"], "all problems, modes and backends, repeated solves, control evaluations and score estimates",
     "Every test does one thing once and exits.",
     [CORE, TORCH, NUMPY], [("no graph or cache is kept beyond the result", CORE)],
     ("property-based testing: generated histories with a resident-memory invariant",
      "Ten rounds per case, resident memory after collection and trim; leaks below 6 MB in six rounds go unnoticed."))
prop("C25", "A solved problem can be copied, stored and sent to other processes",
     "A controller whose functions can be copied and pickled can itself be copied, pickled, stored in a file and sent to another process and back, at any time after it was solved. The result has the same flows, controls, coverage and drift, and the original and an independent copy do not influence each other.",
     ["histories", "configurations"], "all problems, modes and backends, all ways and moments of copying",
     "No test copies or stores a solved problem.",
     [CORE], [("the controller's state is plain data and the user's functions", CORE)],
     ("property-based testing: round trips of generated problems, with another process",
      "Random exploration with shrinking; pickle protocols 2, 4 and 5, torch.save; processes started afresh (no fork)."))
prop("C26", "Concurrent calls from several threads give what they give alone",
     "Distances, score estimates, kernels, transports, controls, coverage tests and whole solves that run at the same time in several threads give the results that they give alone (in law, where they draw random numbers): there is no hidden state shared between calls, functions or controllers.",
     ["schedules", "inputs"], "all combinations of calls and arguments, all interleavings of the threads",
     "The tests have one thread.",
     [CORE, NUMPY, TORCH, RW, KER, LEG], [("work arrays and closures are local to each call", NUMPY + ", " + TORCH), ("no intermediate results in the controller", CORE)],
     ("property-based testing: generated sets of concurrent calls against the same calls made alone",
      "Schedules are sampled with a switch interval of a microsecond, not enumerated; 2 to 6 threads."))
