"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "ais_benchmarks/distributions/"
S = "ais_benchmarks/sampling_methods/"
M = "ais_benchmarks/metrics/"
B = "ais_benchmarks/benchmark/"
U = "ais_benchmarks/utils/"

ALL_DIST = [D + "distributions.py", D + "parametric/CMultivariateNormal.py", D + "parametric/CMultivariateUniform.py",
            D + "parametric/CMultivariateExponential.py", D + "parametric/CMultivariateDelta.py",
            D + "mixture/CGaussianMixtureModel.py", D + "mixture/CMixtureModel.py", D + "rare/banana2d.py",
            D + "benchden/d01_uniform.py", D + "benchden/d02_exponential.py", D + "benchden/d03_maxwell.py",
            D + "benchden/d04_laplace.py", D + "benchden/d10_symmetric_pareto.py"]
IS = [S + "base.py", S + "dm_ais.py", S + "layered_ais.py", S + "m_pmc.py", S + "hi_daisee.py", S + "tree_pyramid.py"]
MC = [S + "metropolis_hastings.py", S + "nested.py", S + "multi_nested.py", S + "rejection.py"]

# id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], technique, level note
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or []))


p("C01", "Every distribution evaluates its documented density",
  "For every valid choice of parameters and every point, the density and log density of the normal, uniform, exponential, "
  "Gaussian mixture, delta, banana and benchden (uniform, exponential, Maxwell, Laplace, symmetric Pareto) distributions are "
  "those of the documented formula with the given parameters (the Gaussian mixture takes diagonal covariances). "
  "Outside of a bounded or half-bounded range of values the density is 0 and the log density is minus infinity.",
  ["inputs"], "all parameter values, dimensions 1 to 6, batches and points inside, in the tails and outside of the support",
  "The tests evaluate one normal and one uniform at a few points; the other nine distributions have no test at all.",
  ALL_DIST, [("closed form of each density in prob and log_prob", "parametric/, mixture/, benchden/, rare/")],
  "Hypothesis: generated parameters and points against independent closed forms",
  "Points are kept off the exact boundary of the support, where the documentation does not say which side is closed.")

p("C02", "Density queries are batch-wise, consistent and free of side effects",
  "For every distribution and every batch of N points, prob and log_prob return one value per point, in the order of the points, "
  "with prob = exp(log_prob); each value depends on its own point only, and a single vector counts as a batch of one wherever the class accepts it. "
  "Evaluating leaves the points and the distribution unchanged, and a distribution built from a user's likelihood or log likelihood (given at construction or set later) answers both queries from whichever it has.",
  ["inputs", "histories"], "all distributions, batch sizes 0 to 60, permutations, splits and repetitions of batches, sequences of queries",
  "The tests use one or two batch sizes on two classes and never reorder, split or repeat a batch, nor use user likelihoods.",
  ALL_DIST + [D + "nonparametric/CKernelDensity.py"],
  [("batch dimension first, _check_shape", "distributions.py"), ("likelihood_f / loglikelihood_f fallback", "distributions.py prob, log_prob")],
  "Hypothesis: metamorphic relations (permute, split, repeat, single) over generated distributions and batches",
  "Agreement of prob and log_prob to a relative tolerance where neither underflows.")

p("C03", "Mass: integrals over boxes, total mass in the declared support",
  "The integral over a box is the probability of the box: exact for uniforms and deltas, within Monte Carlo error for the distributions that integrate by sampling. "
  "The support is a 2 x dims array of lower and upper limits: the exact range for uniforms, otherwise the limits given by the user, by default 6 standard deviations around the mean for the normal and from 0 to 4 means for the exponential, and limits that hold at least 75% of the mass for the benchden densities.",
  ["inputs"], "all distributions and all boxes inside, across and outside of the support",
  "The tests integrate two fixed distributions over a handful of fixed boxes with loose tolerances.",
  ALL_DIST, [("integral of the uniform and the delta; Monte Carlo integral of the base class; default supports", "distributions.py, parametric/")],
  "Hypothesis: generated boxes against exact box probabilities, Hoeffding bounds for Monte Carlo",
  "Monte Carlo tolerance from the Hoeffding bound at error probability 1e-9 per case.")

p("C04", "Drawing samples from a distribution follows its density",
  "Samples of every distribution that can be sampled (normal with full covariance, uniform, exponential, Gaussian mixture, general mixture, delta, benchden uniform and exponential) form an n x dims array, lie in the range of the distribution, are mutually independent and follow the density that prob evaluates, for every choice of parameters.",
  ["inputs"], "all parameters (anisotropic, correlated, unequal weights), dimensions 1 to 5 and seeds",
  "The tests check the shape of a sample, and the mean of a normal and a uniform with one seed.",
  ALL_DIST, [("sample of each class", "parametric/, mixture/")],
  "Hypothesis: probability integral transforms and random projections of samples, DKW bound",
  "Statistical: distance to the exact law bounded by DKW at 1e-10; deviations below about 5% of the mass are not seen.")

p("C05", "Mixtures weigh their components with normalized, sanitized weights",
  "The density of a mixture is the sum of the densities of its components times their weights; the weights in use are nonnegative and add up to 1. "
  "They are the given weights divided by their sum, where NaN and negative weights count as 0, and equal weights when none is positive. "
  "Setting new weights replaces the old ones completely, and the caller's array is neither changed nor kept.",
  ["inputs", "histories"], "all component lists and weight vectors, histories of weight updates",
  "No test builds a mixture.",
  [D + "mixture/CMixtureModel.py", D + "mixture/CGaussianMixtureModel.py"],
  [("set_weights normalizes; log_prob by log-sum-exp", "CMixtureModel.py")],
  "Hypothesis: generated weight histories against a reference mixture",
  "Components are the library's parametric distributions.")

p("C06", "Updating the moments equals building the distribution anew",
  "After any sequence of moment updates of a normal or exponential distribution, densities and samples are those of a distribution built with the last accepted parameters. "
  "An update with an invalid covariance is rejected and leaves the density as it was.",
  ["histories"], "all sequences of valid and invalid updates, interleaved with evaluations and samples",
  "The tests never update the moments of a distribution.",
  [D + "parametric/CMultivariateNormal.py", D + "parametric/CMultivariateExponential.py"],
  [("set_moments recomputes inverse, determinant and scales", "CMultivariateNormal.py, CMultivariateExponential.py")],
  "Hypothesis: histories of updates against a freshly built distribution",
  "Invalid means not square of the right size, or a determinant that is not positive.")

p("C07", "Kernels and kernel density estimates",
  "The four kernel functions (normal, uniform, triangular, Epanechnikov) are the textbook kernels: nonnegative, symmetric, of unit mass, zero outside of [-1, 1] except for the normal. "
  "A kernel placed at a location with inverse bandwidth h has density prod_d h_d k(h_d (x_d - loc_d)), and a kernel density estimate is the weighted mixture of the kernels at its samples.",
  ["inputs"], "all kernels, locations, scalar and per-dimension bandwidths, sample sets and weights",
  "No test evaluates a kernel or a kernel density.",
  [D + "distributions.py", D + "nonparametric/CKernelDensity.py"],
  [("CKernel, kernel functions", "distributions.py"), ("CKernelDensity.fit", "nonparametric/CKernelDensity.py")],
  "Hypothesis: closed form of kernels and mixtures on generated points",
  "The normal kernel is compared to 1e-8, as its constant is given with ten digits.")

p("C08", "Simulation based distributions: noisy functions, ABC and nuisance models",
  "A noisy function conditioned on x samples f(x, z) plus one draw of its noise per point and evaluates its noise density at the difference from x. "
  "An ABC posterior conditioned on an observation evaluates surrogate likelihood(observation, simulated output, slack) times the prior density, in prob and log_prob, for the last observation it was conditioned on; a nuisance model feeds every latent point and a fresh nuisance draw to its generator. "
  "Densities of the first two and samples of the last are rejected with ValueError before any conditioning.",
  ["inputs", "histories"], "all functions, noises, priors, observations and sequences of conditioning and evaluation",
  "No test instantiates any of these classes.",
  [D + "derived/CABCDistribution.py", D + "derived/CGenericNoisyFunction.py", D + "derived/GenericNuisanceGenModel.py"],
  [("condition, generate, prob, log_prob, sample", "derived/")],
  "Hypothesis: conditioning histories against a recording noise model and recording likelihood",
  "Documented gaps (sampling the ABC observation, noise of the nuisance model) are not claimed.")

p("C09", "Invalid input is rejected, never evaluated",
  "Missing required parameters, points of the wrong number of dimensions or of rank above 2, covariances that are not square or have no positive determinant, radii of the wrong size, mixtures with a different number of models and weights, integrals of a uniform or a delta over inverted boxes, the acceptance rate of no samples, expansions of TP-AIS nodes that are no leaf, derived distributions evaluated before they are conditioned, samplers with missing or wrong parameters and files with unknown sampler types raise an exception. "
  "The neighbouring valid input is accepted.",
  ["inputs", "configurations"], "all classes and all single-defect mutations of a valid input",
  "The tests only feed valid input.",
  ALL_DIST + [S + "base.py", S + "metropolis_hastings.py", S + "tree_pyramid.py", B + "CBenchmark.py"],
  [("_check_param, _check_shape, assertions", "distributions.py, sampling_methods/")],
  "Hypothesis: single-defect mutations of generated valid inputs, with the valid twin as control",
  "Any exception counts as a rejection; a result does not.")

p("C10", "A Gaussian mixture survives its description",
  "The dictionary a Gaussian mixture describes itself with, written as YAML and loaded as a benchmark target, gives a distribution with the same dimension, support and density everywhere, and the evaluation settings it was asked to carry. "
  "The dictionaries of all distributions carry name, class, family, dimension, support and evaluation settings as plain YAML values.",
  ["inputs", "configurations"], "all mixtures (from arrays or lists, with or without weights) and evaluation settings",
  "No test describes or loads a distribution.",
  [D + "distributions.py", D + "mixture/CGaussianMixtureModel.py", B + "CBenchmark.py"],
  [("to_dict", "distributions.py, CGaussianMixtureModel.py"), ("load_benchmark", "CBenchmark.py")],
  "Hypothesis: round trip through YAML and the benchmark loader",
  "Only the Gaussian mixture describes all of its parameters.")

p("C11", "Kullback-Leibler divergence from samples",
  "The KL divergence of a batch of points is the sum over the points where both densities are positive of p log(p/q), with both sets of densities normalized over these points; it is nonnegative, 0 for equal densities, unchanged by scaling a density or reordering the points, and infinite when no point has both densities positive.",
  ["inputs"], "all density vectors, with zeros, extreme ratios and any scale, as probabilities or log probabilities, from any distributions",
  "The tests compare two pairs of 1-D normals on one fixed grid.",
  [M + "divergences.py", M + "base.py"],
  [("CKLDivergence.compute_from_samples", "divergences.py")],
  "Hypothesis: reference formula in extended precision and metamorphic relations on generated densities",
  "")

p("C12", "Jensen-Shannon divergence from samples",
  "The Jensen-Shannon divergence of a batch of points is that of the two densities normalized over the points, in bits: between 0 and 1, symmetric, 0 for proportional densities, 1 when no point has both densities positive, unchanged by scaling a density or reordering the points; points where only one of the densities is positive count.",
  ["inputs"], "all density vectors, with zeros, extreme ratios and any scale, as probabilities or log probabilities, from any distributions",
  "The tests compare two pairs of 1-D normals on one fixed grid.",
  [M + "divergences.py", M + "base.py"],
  [("CJSDivergence.compute_from_samples", "divergences.py")],
  "Hypothesis: reference formula in extended precision and metamorphic relations on generated densities",
  "")

p("C13", "Expected value error",
  "The expected value metric of a batch of points is the squared Euclidean distance between the mean of the points weighted by one density and their mean weighted by the other, each density normalized over the points; 0 for proportional densities, symmetric, unchanged by scaling a density or reordering or translating the points.",
  ["inputs"], "all points, dimensions and pairs of densities of any scale", "No test covers this metric.",
  [M + "statistics.py", M + "base.py"], [("CExpectedValueMSE.compute, compute_from_samples", "statistics.py")],
  "Hypothesis: reference formula in exact sums and metamorphic relations on generated densities", "")

p("C14", "Computing a metric is an observation",
  "Computing any divergence on the same inputs gives the same result again and changes neither the distributions, nor the arrays, lists or dictionary given to it, and the result is kept as the value of the metric until the next computation or reset. "
  "Computed from two distributions it uses the requested number of points, spread uniformly over the support of the first.",
  ["inputs", "histories"], "all metrics, sequences of computations on shared inputs and instances",
  "The tests compute each metric once per instance.",
  [M + "divergences.py", M + "base.py", M + "statistics.py"], [("compute, compute_from_samples, value", "divergences.py")],
  "Hypothesis: histories of computations on shared inputs against fresh instances", "")

p("C15", "The time metric measures the time between start and stop",
  "After any history of resets, starts and stops, the time metric reports the total time elapsed between each start and its stop since the last reset, net of its own measurement overhead; time passing outside of these intervals does not count and a reset brings it back to 0.",
  ["histories", "schedules"], "all histories with arbitrary amounts of time passing in between",
  "The tests sleep for a fixed time and check one interval.",
  [M + "performance.py"], [("CElapsedTime.pre, post, reset", "performance.py")],
  "Hypothesis: histories under a clock the harness owns, against a reference stopwatch",
  "Assumes that the clock is one of those in Python's time module.")

p("C16", "The memory metric measures the memory kept between start and stop",
  "After any history of resets, starts and stops, the memory metric reports the total growth of the live heap between each start and its stop since the last reset, in millions of bytes: what was allocated and kept minus what was released, whatever was allocated before or in between. A reset brings it back to 0.",
  ["histories"], "all histories of allocations and releases inside and outside of the intervals",
  "The tests allocate one array of one size.",
  [M + "performance.py"], [("CMemoryUsage.pre, post, reset", "performance.py")],
  "Hypothesis: generated allocation histories with the expected growth as reference",
  "Tolerance of 0.2 MB for the allocations of the interpreter.")

SAMPLERS = "DM-AIS, LAIS, M-PMC, HiDaisee, TP-AIS, Metropolis-Hastings, nested, multi-nested and rejection sampling"

p("C17", "Every sampler answers requests for samples",
  "For every sampler, configuration and target, importance_sample(n) returns at least n points (exactly n for Metropolis-Hastings, rejection and nested sampling) of the dimension of the space, finite, with one finite nonnegative weight per point. "
  "The points so far are a prefix of those returned by a later, larger request, also with their weights where these are neither normalized over all the samples nor dependent on a density that adapts. "
  "A request for no more than what is there returns it without evaluating the target; an instance that was never asked returns no samples at all before its first request.",
  ["configurations", "histories"], "all nine samplers, their documented parameters, targets in 1 to 3 dimensions (with regions of zero density), sequences of requests",
  "No test runs any sampler.",
  [S + "base.py"] + IS[1:] + MC, [("importance_sample of each method", "sampling_methods/")],
  "Hypothesis: generated configurations, targets and request sequences against the request contract",
  "Two documented methods of TP-AIS fail on current numpy: known findings.")

p("C18", "Importance weights are target over proposal at the time of the draw",
  "The weight of a sample of an importance sampler is proportional to the target density at the sample over the density of the proposal that generated it: the mixture of the proposals of the iteration in DM-AIS and LAIS, the weighted mixture of the batch in M-PMC, the uniform over the leaf times the share of the leaf's samples in HiDaisee and TP-AIS. "
  "Weights of DM-AIS, LAIS and TP-AIS are normalized over all samples and those of M-PMC over each batch; Metropolis-Hastings and rejection samples have equal weights.",
  ["configurations", "histories"], "all importance samplers, configurations, targets and request sequences",
  "No test runs any sampler.",
  IS + [S + "metropolis_hastings.py", S + "rejection.py"], [("weight computation of each method", "sampling_methods/")],
  "Hypothesis: weights recomputed from the recorded target evaluations and the public proposal density", "")

p("C19", "Estimates converge to the target",
  "Weighted by their weights, the samples of every sampler estimate the mean and the mass of any half space of the target, whatever its normalization constant, location, scale and shape, with an error that vanishes as the number of samples grows, as long as the target lies inside the space (TP-AIS with the kernel haar).",
  ["configurations", "inputs"], "all nine samplers, targets and seeds",
  "No test runs any sampler.",
  IS + MC, [("sampling and weighting of each method", "sampling_methods/")],
  "Hypothesis: estimates of generated targets against quadrature, tolerance by method from calibration",
  "Statistical: per method tolerance with at least a factor of two over the largest error seen in calibration.")

p("C20", "Counters and statistics tell what was done",
  "The number of target evaluations a sampler reports is the number of points at which it evaluated the target, and the reported numbers of samples drawn from and evaluations of its proposals are those of its scheme, after any sequence of requests, draws and resets. "
  "The statistics dictionary reports the same numbers, and drawing n points with sample(n) adds n to the samples drawn (Metropolis-Hastings draws by running its chain).",
  ["histories", "configurations"], "all nine samplers, sequences of requests, draws and resets",
  "No test runs any sampler.",
  IS + MC, [("_num_pi_evals, _num_q_samples, _num_q_evals and their accessors", "base.py and each method")],
  "Hypothesis: counters against a counting target and the counts each scheme implies", "")

p("C21", "Reset starts from scratch",
  "After reset, whatever happened before, a sampler has no samples, no weights and zeroed counters, and behaves exactly like a newly built one: with the same random seed the same requests give the same samples, weights, statistics and proposal density.",
  ["histories"], "all nine samplers and sequences of requests before the reset",
  "No test runs any sampler.",
  IS + MC, [("reset of each method", "sampling_methods/")],
  "Hypothesis: differential run of a reset instance against a fresh one", "")

p("C22", "Runs are reproducible and instances independent",
  "With the same seed of the global random generator, the same requests to the same configuration give identical results. "
  "Other instances of any sampler alive, in use or reset at the same time do not change them, neither does the sampler change its parameters dictionary's arrays or the target.",
  ["histories", "schedules"], "all nine samplers, interleavings of requests to several instances",
  "No test runs any sampler.",
  IS + MC, [("per instance state", "sampling_methods/")],
  "Hypothesis: interleaved runs with separately restored random states against isolated runs", "")

p("C23", "The proposal density of a sampler is a density it can be sampled from",
  "After any requests, prob of an importance sampler (and of rejection sampling) is a nonnegative density of unit mass that agrees with log_prob, and the points it draws with sample(n) follow it.",
  ["configurations", "histories"], "DM-AIS, LAIS, M-PMC, HiDaisee, TP-AIS and rejection sampling after any requests",
  "No test runs any sampler.",
  IS + [S + "rejection.py"], [("prob, log_prob, sample of each method", "sampling_methods/")],
  "Hypothesis: quadrature of the density and DKW bound on its samples after generated histories",
  "Statistical part bounded by DKW at 1e-10.")

p("C24", "Samples stay inside the space",
  "Every sample of HiDaisee, TP-AIS on a cubic space (without resampling by normal kernels), Metropolis-Hastings, nested, multi-nested and rejection sampling lies within the limits of the space, whatever the target does at and beyond the limits.",
  ["configurations", "inputs"], "all spaces (any location, size and aspect), targets with mass at or beyond the limits",
  "No test runs any sampler.",
  [S + "hi_daisee.py", S + "tree_pyramid.py"] + MC, [("uniform sampling of cells, clipping and rejection of points outside", "sampling_methods/")],
  "Hypothesis: containment of samples for generated spaces and adversarial targets", "")

p("C25", "The TP-AIS tree partitions the space and refines the important cells",
  "At all times the leaves of the TP-AIS tree are disjoint and cover the root, every expansion replaces a leaf by 2^dims equal cells of half its radius, a lookup returns the leaf that contains the point, and the leaf list is that of the tree. "
  "Cells are refined in order of importance (weight times volume), highest first, the largest first among equally important ones, and no more once the effective sample size target is met.",
  ["histories", "configurations"], "all expansion histories, lookups and sampling runs",
  "No test builds a tree.",
  [S + "tree_pyramid.py"], [("CTreePyramid.expand, find; CTreePyramidSampling.expand_leaf", "tree_pyramid.py")],
  "Hypothesis: expansion and lookup histories against a reference subdivision",
  "")

p("C26", "The HiDaisee tree partitions the space and concentrates where the target is",
  "At all times the leaves of the HiDaisee tree partition the space, every sample belongs to the leaf that contains it, a split sends each sample to the half that contains it, and the proposal mass of a node is the sum of its children's. "
  "Leaves are sampled with probability proportional to their mass, which is updated to the average weight plus the optimistic bonus of the algorithm, a leaf is split under the documented condition on its samples, and the density reported spreads over each leaf its share of the total.",
  ["histories", "configurations"], "all targets, spaces and numbers of samples",
  "No test builds a tree.",
  [S + "hi_daisee.py"], [("tree nodes, split, update of q", "hi_daisee.py")],
  "Hypothesis: stepwise replay of the tree against a reference and selection frequencies", "")

p("C27", "Metropolis-Hastings follows its acceptance rule, burn-in and thinning",
  "A proposed move is accepted with probability min(1, r), where r is the ratio of the target densities times, with a proposal distribution, that of the proposal densities; a rejected move repeats the current point, so that moves uphill are always taken, moves to zero density never, and others at the rate of the ratio; until the chain has reached the support of the target moves are proposed again. "
  "The samples returned are every n_steps-th state of the chain after n_burnin states, and the chain goes on from its last state between requests.",
  ["histories", "configurations"], "all targets, proposal widths, burn-ins, thinnings and request sequences",
  "No test runs any sampler.",
  [S + "metropolis_hastings.py"], [("metropolis_hastings step, burn-in, decimation", "metropolis_hastings.py")],
  "Hypothesis: chain replay from recorded evaluations, martingale bound on the acceptance rate", "")

p("C28", "Rejection sampling returns exact samples of the target",
  "Rejection samples follow the target normalized over the range of the proposal, whatever its scale as long as it is below the scaled proposal, a candidate is accepted with probability target over scaled proposal, and every accepted candidate is a sample.",
  ["configurations", "inputs"], "all targets and spaces", "No test runs any sampler.",
  [S + "rejection.py"], [("importance_sample accepts candidates", "rejection.py")],
  "Hypothesis: candidates and decisions replayed from recorded evaluations, martingale and DKW bounds", "")

p("C29", "Nested sampling replaces its worst point and weighs by shrinking volume",
  "At every step nested and multi-nested sampling return the live point of lowest likelihood and replace it with a point of higher likelihood inside the space (unless the time ran out in the search or, for multi-nested sampling, the ellipsoid of the cluster has converged), found by moving random live points with the proposal; the returned points come in order of increasing likelihood for a single cluster. "
  "Weights are proportional to likelihood times the prior volume that leaves at that step, with a volume that shrinks by exp(-1/N) each step for N live points.",
  ["configurations", "histories"], "all targets, numbers of live points and request sequences", "No test runs any sampler.",
  [S + "nested.py", S + "multi_nested.py"], [("importance_sample, resample, clusters", "nested.py, multi_nested.py")],
  "Hypothesis: exact replay of the live set from the recorded evaluations", "")

p("C30", "Effective sample size and acceptance rate",
  "The normalized effective sample size of the importance samplers is (sum w)^2 / (n sum w^2) of the weights, in (0, 1], invariant to scaling the weights; nested sampling uses the entropy of the weights and Metropolis-Hastings the autocorrelation of the chain. "
  "Rejection sampling uses the autocorrelation too, and the reported acceptance rate is the number of samples over the number of samples drawn from the proposal.",
  ["inputs", "configurations"], "all weight vectors, chains and samplers after any requests", "No test covers it.",
  [S + "base.py", S + "metropolis_hastings.py", S + "nested.py"], [("get_NESS, get_acceptance_rate, get_stats", "sampling_methods/")],
  "Hypothesis: reference formulas on generated weights and on samplers after generated requests", "")

p("C31", "Adaptation moves the proposals as each scheme prescribes",
  "After each iteration the proposals of DM-AIS move to samples of that iteration, drawn independently and in proportion to their weights, those of LAIS do a Metropolis-Hastings move on the target, and those of M-PMC take the weighted proportion, mean and covariance of the samples, weighted by the responsibility of each proposal.",
  ["histories", "configurations"], "all targets, numbers of proposals and samples per iteration, sequences of requests", "No test runs any sampler.",
  [S + "dm_ais.py", S + "layered_ais.py", S + "m_pmc.py"], [("adapt of each method", "sampling_methods/")],
  "Hypothesis: proposals after each iteration against a reference computed from the recorded samples and weights",
  "M-PMC covariances are a known finding.")

p("C32", "The timeout bounds a request",
  "A request whose timeout has passed ends within one more iteration of the method and returns the samples obtained so far with one weight each, an empty array when there is none, and the sampler can go on afterwards; a request that is served in time is not cut short. "
  "An iteration of Metropolis-Hastings is its burn-in and n_steps moves; waiting for a distribution to be ready ends when it is, with True, or with TimeoutError after the time given.",
  ["schedules", "configurations"], "all nine samplers, timeouts and speeds of the target", "No test runs any sampler.",
  IS + MC, [("elapsed time checks in importance_sample", "sampling_methods/")],
  "Hypothesis: requests under a virtual clock that advances with every target evaluation", "")

p("C33", "Targets and methods are loaded from their YAML description as written",
  "Every entry of a benchmark or methods file gives one target or sampler of the class, name, parameters and evaluation settings it states, in the order of the file, with the space of the sampler that of the target; parameters given as strings are evaluated. "
  "A configuration file sets every option it states.",
  ["configurations"], "all generated files with any subset of the supported targets and methods", "No test loads a file.",
  [B + "CBenchmark.py", D + "distributions.py"], [("load_benchmark, load_methods", "CBenchmark.py")],
  "Hypothesis: generated files against the objects they describe",
  "Limits of the space are rounded to 8 decimals by the loader, and a shipped file does not load: known findings.")

p("C34", "Benchmark results record every evaluation truthfully and reproducibly",
  "Running a benchmark writes, per target, method and number of samples, a row with the method, target, dimension, metrics and counters the run had, on the schedule of sample counts asked for, and the same seed writes the same rows.",
  ["configurations"], "all combinations of targets, methods, metrics and schedules", "No test runs a benchmark.",
  [B + "CBenchmark.py", M + "base.py"], [("evaluate_method, write_results", "CBenchmark.py")],
  "Hypothesis: generated small benchmarks against rows recomputed from instrumented runs",
  "The time limit, the columns of NESS and of unknown metrics and the width of NESS are known findings.")

p("C35", "Helpers: grids, densities on grids, random mixtures, times, streams",
  "A grid over a box has the documented number of points per dimension, equally spaced from limit to limit in row-major order, and evaluating a distribution on it returns its density (or log density) at each point in the shape of the grid; uniform grid sampling stays in the box. "
  "Random Gaussian mixtures have the number of components, spread and support that were asked for with weights adding up to 1, the egg box one component per grid point, and splitting seconds in hours, minutes and seconds loses nothing. "
  "The stream reader returns every line of a stream once and in order, without blocking when there is none.",
  ["inputs"], "all boxes, resolutions, dimensions and distributions", "No test covers the helpers.",
  [S + "base.py", U + "misc.py", U + "plot_utils.py"], [("make_grid, grid_sample_distribution, generateRandomGMM, generateEggBoxGMM, time_to_hms, CNonBlockingStreamReader", "utils/, sampling_methods/base.py")],
  "Hypothesis: reference grids and invariants on generated arguments", "")

p("C36", "Drawing shows the sampler and leaves it as it is",
  "Drawing a sampler after any requests adds the elements it returns, and only these, to the axis, and they can be removed again; it changes neither samples, weights, statistics nor counters, and the sampler goes on like one that was not drawn. "
  "In one dimension it shows the density of the sampler over its space and the proposals (mixture methods: each times its weight, with a line up to the weight for every sample); in two dimensions HiDaisee and TP-AIS show every leaf of their tree and the mixture methods where their proposals are. "
  "Nested samplers show every live point, Metropolis-Hastings every kept or skipped state of its chain by kind. "
  "A distribution draws its density over its support extended by a tenth, a noisy function its samples, their mean and three standard deviations. "
  "The curve of a density is the density times the scale at equally spaced points, and each of its contour lines lies at its level.",
  ["configurations", "histories"], "all nine samplers in 1 to 3 dimensions after any requests, and all densities and boxes",
  "No test draws anything.",
  IS + MC + [U + "plot_utils.py"], [("draw of each method", "sampling_methods/"), ("plot_pdf, plot_pdf2d, plot_grid_sampled_pdfs", "plot_utils.py")],
  "Hypothesis: drawn elements against the sampler's state before and after, contour vertices against interpolated densities", "")

p("C37", "Visual elements are drawn where they are, the last one of an identifier",
  "A sequence of visual elements shows, for each identifier, the last element with it and nothing of the previous ones: a function as its values at equally spaced points of its limits, a proposal component as its density times its weight, a point at its position, an axis as a line from start to end with its labelled ticks along it.",
  ["inputs", "histories"], "all sequences of axes, functions and points with repeated identifiers", "No test draws anything.",
  ["ais_benchmarks/visualization/visuals.py", "ais_benchmarks/visualization/matplotlib/viz_interface.py"],
  [("CVisual classes", "visuals.py"), ("draw_sequence, draw_item", "viz_interface.py")],
  "Hypothesis: drawn elements against a reference scene", "")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for e in P:
            f.write(json.dumps({
                "id": e["id"], "title": e["title"], "statement": e["statement"],
                "quantifier": {"over": e["over"], "text": e["text"]},
                "why_tests_cant": e["why"],
                "anchors": {"files": e["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in e["mech"]],
                            "observe_at": e["observe"], "hook_needed": None}}) + "\n")
    checks, missing = [], []
    for e in P:
        if os.path.exists(os.path.join(ROOT, "pbt", "props", e["id"].lower() + ".py")):
            checks.append({
                "property": e["id"], "quick_cmd": "./check " + e["id"],
                "thorough_cmd": "VERIF_TIER=thorough ./check " + e["id"],
                "technique": e["technique"], "level": "exploration",
                "level_note": ("Generated-input search with shrinking; shows presence of violations, not absence. " + e["note"]).strip()})
        else:
            missing.append({"property": e["id"], "reason": "the check is not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": missing,
                   "notes": "All checks are property-based (Hypothesis) and run the code of /repo as it is; no hooks."}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
