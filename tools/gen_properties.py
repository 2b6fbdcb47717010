"""Regenerates /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": ["pycircstat2/" + f for f in files],
         "mechanism": [{"name": n, "where": "pycircstat2/" + w} for n, w in mech]}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---- units and angle arithmetic ------------------------------------------
prop("U01", "Unit conversion is exact, linear and reversible for every full-cycle length",
 "Converting data to radians maps one full cycle k to exactly one turn, linearly, for every cycle length, scalar or array, and converting back (to any other cycle length) recovers the same position on the circle. Clock strings h:m convert to the matching fraction of a 24-hour day, element by element.",
 ["inputs"], "every finite value or array, every positive cycle length, every separator and every valid clock time",
 "The tests convert a few fixed degree and hour values; linearity and the round trip quantify over all values and cycle lengths.",
 ["utils.py"], [("unit conversion", "utils.py:data2rad"), ("inverse conversion", "utils.py:rad2data"), ("clock strings", "utils.py:time2float")])
prop("U02", "Angle reduction, distance, rotation and range membership respect the circle",
 "Reducing an angle into a window lands inside the half-open window and changes the angle only by whole turns; the angular distance is symmetric, lies in [0, pi], is zero exactly for equal directions, satisfies the triangle inequality and does not change when either angle gains whole turns. Rotating data adds the requested angle in the data's own unit and stays within one cycle, rotating back undoes it, and membership in a circular interval agrees with walking counter-clockwise from its lower to its upper bound.",
 ["inputs"], "all finite angles (including negative, many turns away and exactly on the boundary), windows, units and interval bounds including wrap-around intervals",
 "The tests sample a handful of angles; boundary and wrap-around behaviour is a statement about every angle.",
 ["utils.py"], [("modular reduction", "utils.py:angmod"), ("arc distance", "utils.py:angular_distance"), ("rotation", "utils.py:rotate_data"), ("interval membership", "utils.py:is_within_circular_range")])
prop("U03", "Every bundled dataset loads and unknown requests are refused",
 "Every dataset shipped with the package can be loaded by its source and name, returns exactly the rows and columns of the shipped file (with its metadata on request, otherwise only the data), repeated loads return equal and independent tables, and an unknown source or name raises an error rather than returning something else.",
 ["inputs", "histories"], "all shipped (source, name) pairs in any order and number of loads, with loaded tables modified in between, and arbitrary wrong names",
 "Tests load a few datasets once; independence of repeated loads after mutation and refusal of arbitrary names are not sampled.",
 ["utils.py"], [("dataset loader", "utils.py:load_data")])
# ---- descriptive ----------------------------------------------------------
prop("D01", "Descriptive statistics equal their defining formulae",
 "For every sample (optionally weighted) the mean direction, resultant length, p-th trigonometric moments (raw and centred), circular and angular variance and standard deviation (with grouping correction when a bin size is given), dispersion, skewness and kurtosis equal the textbook expressions in the weighted sine and cosine sums. When the resultant vanishes the mean direction is reported as undefined (NaN).",
 ["inputs"], "all samples of any size and spread, integer or fractional non-negative weights, moment orders, bin sizes",
 "The tests compare a few textbook tables; the formulae are asserted for all samples, weights and orders.",
 ["descriptive.py"], [("resultants", "descriptive.py:circ_mean_and_r"), ("moments", "descriptive.py:circ_moment"), ("spread", "descriptive.py:circ_var"), ("shape", "descriptive.py:circ_kurtosis")])
prop("D02", "Descriptive statistics are equivariant under rotation, reflection and reordering",
 "Rotating every observation rotates the mean direction and leaves the resultant length, spread, dispersion, skewness and kurtosis unchanged; reflecting the sample negates the mean direction and the skewness only; reordering observations, or adding whole turns to individual observations, changes nothing.",
 ["inputs"], "all samples, rotations, permutations and per-observation whole-turn shifts, with and without weights",
 "Metamorphic relations over a continuous group of transformations; tests fix one orientation.",
 ["descriptive.py"], [("mean direction", "descriptive.py:circ_mean"), ("dispersion", "descriptive.py:circ_dispersion"), ("shape", "descriptive.py:circ_skewness")])
prop("D03", "Integer weights mean repetition",
 "Every resultant- and moment-based descriptive statistic and interval, and every hypothesis test that accepts frequencies, gives the same answer on distinct angles with integer frequencies as on the list in which each angle is repeated that many times; zero-weight angles have no influence.",
 ["inputs"], "all samples with integer frequencies, including zero frequencies and ties",
 "Tests use one or two grouped textbook tables.",
 ["descriptive.py", "hypothesis.py"], [("weighted sums", "descriptive.py:compute_C_and_S"), ("weights in tests", "hypothesis.py:rayleigh_test"), ("sample expansion", "hypothesis.py:_CircularSample")])
prop("D04", "The circular median is optimal, equivariant and inside its confidence interval",
 "For ungrouped data the deviation-based median has the smallest mean angular deviation attained at any observation, the counting-based median splits the circle into halves holding equally many observations when that is possible, and both rotate with the data and do not depend on the order. Mean angular deviation equals the average arc length to the data, whether or not it is computed in chunks, and the confidence interval for the median is made of observations, covers by its order statistics at least the level it reports for small samples, runs counter-clockwise through the median of data within a half circle and rotates with them.",
 ["inputs", "configurations"], "all samples (odd and even sizes, ties, small and large n), rotations, chunk sizes",
 "Tests compare two textbook samples; chunking boundaries, wrap-around samples and even sizes are unsampled.",
 ["descriptive.py"], [("median", "descriptive.py:circ_median"), ("mean deviation", "descriptive.py:circ_mean_deviation"), ("chunked deviation", "descriptive.py:circ_mean_deviation_chunked"), ("median interval", "descriptive.py:circ_median_ci")])
prop("D05", "Confidence intervals for the mean direction are centred, equivariant and nested",
 "For every sample where an interval is defined, the analytic confidence interval for the mean direction is symmetric about the mean, rotates with the data, widens as the confidence level rises, and equals its published formula; the bootstrap interval brackets the bulk of the resampled means near the sample mean, within Monte-Carlo error.",
 ["inputs", "configurations"], "all samples and confidence levels for which the method applies, all three methods",
 "Tests check two textbook intervals.",
 ["descriptive.py"], [("interval dispatcher", "descriptive.py:circ_mean_ci"), ("dispersion interval", "descriptive.py:_circ_mean_ci_dispersion"), ("approximate interval", "descriptive.py:_circ_mean_ci_approximate"), ("bootstrap interval", "descriptive.py:_circ_mean_ci_bootstrap")])
prop("D06", "Distances between angles and pairwise distances match the circle's geometry",
 "Every supported distance metric equals its definition on the unit circle for every pair, is invariant to whole turns and to a common rotation; the pairwise matrix holds exactly the element-wise distances, and symmetric metrics give symmetric matrices.",
 ["inputs"], "all pairs and arrays of angles, all metrics",
 "Tests use a few angle pairs.",
 ["descriptive.py"], [("distance", "descriptive.py:circ_dist"), ("pairwise distances", "descriptive.py:circ_pairdist")])
prop("D07", "Range and quantiles describe the data's arc and rotate with it",
 "The circular range is the full circle minus the largest empty gap, is unchanged by rotation, reflection and reordering, and does not depend on how turns are represented; circular quantiles run counter-clockwise through the data around the median, agree with linear quantiles of the unwrapped deviations from the median, and rotate with the data.",
 ["inputs"], "all samples and all probability levels, scalar and vector",
 "Tests use one or two samples.",
 ["descriptive.py"], [("range", "descriptive.py:circ_range"), ("quantiles", "descriptive.py:circ_quantile")])
prop("D08", "Kernel density estimates are densities; highest-density intervals are shortest",
 "The nonparametric density estimate is (after undoing its documented square-root plotting scale) non-negative, integrates to one over the circle, equals the average of quartic kernels of the requested bandwidth wrapped around the circle, and rotates with the data; the highest-density interval is the shortest arc between samples that holds the requested share of them (rounded down to whole samples).",
 ["inputs", "configurations"], "all samples, smoothing values and probability levels",
 "Tests evaluate one dataset.",
 ["descriptive.py"], [("density estimate", "descriptive.py:nonparametric_density_estimation"), ("highest-density interval", "descriptive.py:compute_hdi"), ("smoothing rule", "descriptive.py:compute_smooth_params")])
prop("D09", "Resultant length and concentration convert into each other consistently",
 "The mean resultant length of the von Mises law lies in [0,1) and increases with concentration at every scale, and the closed-form concentration estimates from a resultant length equal the published piecewise approximation, are non-negative, finite and within its error (about one percent) of the exact inverse, with the published small-sample correction.",
 ["inputs"], "all concentrations and all resultant lengths in [0,1], all sample sizes",
 "Tests evaluate single points of each branch of the piecewise approximation.",
 ["utils.py", "descriptive.py"], [("A1", "utils.py:A1"), ("inverse of A1", "utils.py:A1inv"), ("closed-form estimate", "descriptive.py:circ_kappa")])
# ---- Circular / Axial objects ---------------------------------------------
prop("C01", "A data object reports what the functional interface computes, in every unit",
 "A circular data object built from raw angles reports the same mean, resultant length, spread, moments-based statistics, median and intervals as the stand-alone functions on the same radians, and describing the same directions in degrees, hours, radians or any custom cycle gives the same statistics. Its text summary shows those attributes.",
 ["inputs", "configurations"], "all samples, all units and cycle lengths, grouped or ungrouped",
 "Tests build a few objects in degrees.",
 ["base.py"], [("constructor", "base.py:Circular.__init__"), ("summary", "base.py:Circular.summary")])
prop("C02", "Grouped data objects behave like the frequencies they describe",
 "A data object built from bin centres with frequencies, or from raw angles asked to be binned, keeps the total count, reports weighted statistics equal to those of the expanded sample (with the grouping correction applied), and passing the object to a test gives the test's answer for the grouped sample.",
 ["inputs", "configurations"], "all frequency tables, bin counts and units",
 "Tests use two textbook tables.",
 ["base.py", "hypothesis.py"], [("binning", "base.py:Circular.__init__"), ("sample coercion", "hypothesis.py:_coerce_circular_samples")])
prop("C03", "Axial data are analysed by doubling and reported by halving",
 "Statistics of axial data equal those of the doubled angles, with directions (mean, median and their interval bounds) halved back to axes; turning any observation through half a cycle changes nothing.",
 ["inputs"], "all axial samples, units and per-observation half-turn flips",
 "Tests build one axial object.",
 ["base.py"], [("axial object", "base.py:Axial")])
prop("C04", "Analyses never modify their inputs or each other's results",
 "No statistic, test, interval, fit, regression, clustering, plot or object construction modifies the arrays, weights, option dictionaries or data objects it is given; repeating any deterministic or explicitly seeded call after any other sequence of calls gives the same answer (bootstrap intervals, which take no seed, apart).",
 ["inputs", "histories"], "all public functions on all valid inputs, in any interleaving",
 "Tests call each function once on fresh data and never compare inputs afterwards.",
 ["base.py", "descriptive.py", "hypothesis.py", "correlation.py", "clustering.py", "regression.py", "distributions.py", "visualization.py"],
 [("object construction", "base.py:Circular.__init__"), ("plotting", "visualization.py:circ_plot")])
prop("C05", "Random procedures are reproducible and leave the global generator alone",
 "Every procedure given an explicit seed or generator returns identical results for equal seeds (zero included), different draws for different seeds, draws from a supplied generator and advances it, and neither reads nor disturbs the global random state; results do not depend on how many other random procedures ran before.",
 ["inputs", "histories"], "all seeded procedures (randomised and bootstrapped tests, sampling, clustering initialisation) and all seeds, interleaved in any order",
 "Tests fix one seed and compare one number; isolation between procedures is a property of histories.",
 ["hypothesis.py", "distributions.py", "clustering.py"], [("seed handling", "hypothesis.py:_init_rng"), ("sampling seeds", "distributions.py:CircularContinuous._init_rng"), ("clustering seeds", "clustering.py:MovM._initialize")])
# ---- correlation ------------------------------------------------------------
prop("A01", "Circular-circular association is bounded, symmetric and orientation-free",
 "Every circular-circular correlation coefficient lies in its documented bounds, does not change when the two variables are swapped, when either is rotated, when pairs are reordered or when whole turns are added; reflecting one variable negates the signed coefficients and leaves the unsigned ones; and perfectly associated variables reach the extreme value.",
 ["inputs", "configurations"], "all paired samples without degenerate variables, all methods, rotations, reflections, permutations",
 "Tests check two datasets against published numbers.",
 ["correlation.py"], [("Fisher-Lee", "correlation.py:_circ_corrcc_fl"), ("Jammalamadaka-Sarma", "correlation.py:_circ_corrcc_js"), ("nonparametric", "correlation.py:_circ_corrcc_np")])
prop("A02", "Association coefficients and their tests match the published definitions",
 "Each coefficient (circular-circular by the three methods, and circular-linear) and its test statistic and p-value equal the published formula on every paired sample, whether given as arrays or as data objects; the circular-linear coefficient is unchanged by rotating the angles and by affine changes of the linear variable.",
 ["inputs", "configurations"], "all paired samples with n >= 5, both input forms, strict mode on and off",
 "Tests check one dataset per method.",
 ["correlation.py"], [("Fisher-Lee", "correlation.py:_circ_corrcc_fl"), ("circular-linear", "correlation.py:circ_corrcl"), ("strict mode", "correlation.py:_circ_corrcc_js")])
# ---- hypothesis tests ---------------------------------------------------------
prop("H01", "Every hypothesis test reports a valid p-value and consistent decision",
 "On every admissible sample each hypothesis test terminates normally with a p-value in [0,1], finite statistic, and, where it reports a decision or significance code, one consistent with that p-value or with the interval it is based on.",
 ["inputs", "configurations"], "all admissible samples for each test: tiny, large, tied, highly concentrated, evenly spread, wrap-around",
 "Tests use published textbook samples with moderate p-values.",
 ["hypothesis.py"], [("Rayleigh", "hypothesis.py:rayleigh_test"), ("range test", "hypothesis.py:circ_range_test"), ("Kuiper", "hypothesis.py:kuiper_test"), ("result objects", "hypothesis.py:TestResult")])
prop("H02", "One-sample tests of uniformity do not depend on origin, direction or order",
 "Uniformity tests give the same statistic and p-value after rotating or reflecting the whole sample, reordering it, or adding whole turns to individual observations (for the omnibus test, which searches a grid of diameters, rotations by multiples of its grid step).",
 ["inputs"], "all samples and transformations, for the Rayleigh, omnibus, Kuiper, Watson, spacing and range tests",
 "Metamorphic relation over a continuous group; tests fix one orientation.",
 ["hypothesis.py"], [("omnibus", "hypothesis.py:omnibus_test"), ("Kuiper", "hypothesis.py:kuiper_test"), ("Watson", "hypothesis.py:watson_test"), ("spacing", "hypothesis.py:rao_spacing_test"), ("range", "hypothesis.py:circ_range_test")])
prop("H03", "One-sample tests match their published statistics",
 "The Rayleigh, modified Rayleigh (V), one-sample mean, omnibus, Batschelet, symmetry, Kuiper, Watson, spacing, range, binomial, chi-square and change-point tests return the published statistic and p-value for every sample.",
 ["inputs", "configurations"], "all samples, hypothesised directions and confidence levels in the tests' domain",
 "Tests compare textbook examples only.",
 ["hypothesis.py"], [("Rayleigh", "hypothesis.py:rayleigh_test"), ("V test", "hypothesis.py:V_test"), ("Batschelet", "hypothesis.py:batschelet_test"), ("symmetry", "hypothesis.py:symmetry_test"), ("range", "hypothesis.py:circ_range_test"), ("binomial", "hypothesis.py:binomial_test"), ("change point", "hypothesis.py:change_point_test")])
prop("H04", "Multi-sample tests do not depend on origin, observation order or sample order",
 "Tests comparing several samples give the same statistic and p-value when all samples are rotated together or reflected, when observations within a sample are reordered, when the samples themselves are reordered (for tests symmetric in their samples), and when whole turns are added. (The homogeneity test's comparison of polar vectors, built on tangents, and the two-way test are claimed only for the transformations their published formulae are invariant to.)",
 ["inputs"], "all collections of two or more admissible samples and all transformations",
 "Metamorphic relation; tests fix one orientation and one ordering.",
 ["hypothesis.py"], [("Watson-Williams", "hypothesis.py:watson_williams_test"), ("Watson U2", "hypothesis.py:watson_u2_test"), ("Wheeler-Watson", "hypothesis.py:wheeler_watson_test"), ("Wallraff", "hypothesis.py:wallraff_test"), ("circular anova", "hypothesis.py:circ_anova"), ("equal concentration", "hypothesis.py:equal_kappa_test"), ("common median", "hypothesis.py:common_median_test")])
prop("H05", "Multi-sample tests match their published statistics",
 "The Watson-Williams, Watson U2, Wheeler-Watson, Wallraff, circular ANOVA, homogeneity, two-way, concentration, equal-concentration and common-median tests return the published statistic, degrees of freedom and p-value for every collection of samples; the tests that accept data objects (Watson-Williams, Watson U2, Wheeler-Watson, Wallraff, randomisation) give the same for objects, grouped or not, as for the arrays they describe.",
 ["inputs", "configurations"], "all collections of admissible samples, equal or unequal sizes, both input forms",
 "Tests compare textbook examples only.",
 ["hypothesis.py"], [("Watson-Williams", "hypothesis.py:watson_williams_test"), ("circular anova", "hypothesis.py:circ_anova"), ("homogeneity", "hypothesis.py:rao_homogeneity_test"), ("two-way", "hypothesis.py:harrison_kanji_test"), ("equal concentration", "hypothesis.py:equal_kappa_test")])
prop("H06", "Randomised tests report calibrated permutation and simulation p-values",
 "Tests that permute or simulate return the exact observed statistic, a p-value that counts resamples at least as extreme (never zero where the observed arrangement counts itself), agreeing within Monte-Carlo error with an independent resampling of the same null, and equal samples are not called different.",
 ["inputs", "configurations"], "all samples, resample counts and seeds",
 "Tests fix a seed and one dataset.",
 ["hypothesis.py"], [("randomisation test", "hypothesis.py:angular_randomisation_test"), ("Kuiper simulation", "hypothesis.py:kuiper_test"), ("Watson simulation", "hypothesis.py:watson_test"), ("spacing simulation", "hypothesis.py:rao_spacing_test")])
# ---- distributions --------------------------------------------------------------
D = ["distributions.py"]
fam = "all families, all parameters in their domain (including near-uniform, highly concentrated, strongly skewed and boundary values) and all angles"
prop("F01", "Every density is a density on the circle",
 "For every family and valid parameters the density is non-negative, integrates to one over a full turn, is the same at angles differing by whole turns, has the location parameter as a pure rotation, and its logarithm agrees with the log-density (to the resolution of the documented tables for the tabulated families).",
 ["inputs", "configurations"], fam, "Tests evaluate a few parameter points per family.",
 D, [("normalisation cache", "distributions.py:CircularContinuous._get_cached_normalizer"), ("angle wrapping", "distributions.py:CircularContinuous._wrap_angles")])
prop("F02", "Every density equals its published formula",
 "For every family the density equals, up to numerical error, the published density with the normalising constant computed by independent numerical integration.",
 ["inputs", "configurations"], fam, "Tests compare a few published points.",
 D, [("Cartwright density", "distributions.py:cartwright_gen._pdf"), ("flat-topped density", "distributions.py:vonmises_flattopped_gen._pdf"), ("inverse Batschelet density", "distributions.py:inverse_batschelet_gen._pdf"), ("Kato-Jones density", "distributions.py:katojones_gen._pdf")])
prop("F03", "Every distribution function is the integral of its density",
 "For every family and valid parameters the distribution function starts at 0, ends at 1, never decreases, and equals the integral of the density from zero to the angle; survival function and logarithms are its complements.",
 ["inputs", "configurations"], fam, "Tests evaluate a few points per family.",
 D, [("generic integration", "distributions.py:CircularContinuous._cdf_from_pdf"), ("von Mises", "distributions.py:vonmises_gen._cdf"), ("wrapped normal", "distributions.py:wrapnorm_gen._cdf"), ("Jones-Pewsey series", "distributions.py:jonespewsey_gen._cdf")])
prop("F04", "Quantiles invert the distribution function",
 "For every family and valid parameters the quantile function maps probabilities in [0,1] into one turn, never decreases, and composing it with the distribution function in either order returns the starting value wherever the density is not negligible; probabilities outside [0,1] give NaN.",
 ["inputs", "configurations"], fam.replace("angles", "probabilities including 0, 1 and extreme tails"), "Tests invert a few probabilities per family.",
 D, [("Cardioid inversion", "distributions.py:cardioid_gen._solve_inverse_cdf"), ("von Mises", "distributions.py:vonmises_gen._ppf"), ("wrapped stable", "distributions.py:wrapstable_gen._ppf"), ("Kato-Jones", "distributions.py:katojones_gen._ppf")])
prop("F05", "Theoretical moments and summaries agree with the density",
 "For every family the trigonometric moments, mean direction, resultant length, median, variance, standard deviation, dispersion, skewness, kurtosis and entropy agree with integrating the density numerically (the median of the symmetric von Mises law is its location).",
 ["inputs", "configurations"], "all families, valid parameters and moment orders", "Tests check a few values for few families.",
 D, [("moments", "distributions.py:CircularContinuous.trig_moment"), ("summary bundle", "distributions.py:CircularContinuous.stats"), ("von Mises overrides", "distributions.py:vonmises_gen.entropy"), ("Kato-Jones moments", "distributions.py:katojones_gen.trig_moment")])
prop("F06", "Families reduce to each other at their common special cases",
 "At parameter values where one family coincides with another (for example flat-topped, Jones-Pewsey and inverse Batschelet at the von Mises, Jones-Pewsey at the cardioid, Cartwright or wrapped Cauchy, wrapped stable at the wrapped normal or Cauchy, Kato-Jones at the wrapped Cauchy or cardioid, any family at the uniform) their densities, distribution functions and quantiles agree, and approach each other continuously near those values.",
 ["inputs", "configurations"], "all special-case parameter values and small neighbourhoods of them, all angles", "Tests check one or two reductions at fixed values.",
 D, [("Jones-Pewsey kernel", "distributions.py:_jp_log_kernel"), ("inverse Batschelet", "distributions.py:inverse_batschelet_gen._pdf"), ("wrapped stable", "distributions.py:wrapstable_gen._pdf")])
prop("F07", "Frozen, scalar, vector and keyword calls agree",
 "Evaluating a distribution frozen, by keyword, element by element, on arrays of any shape or broadcast gives the same numbers as the direct scalar calls; location or scale arguments are refused, and invalid parameters, angles or probabilities give NaN or an error, never a plausible number; sampling reduces a location by whole turns and accepts the documented degenerate limits.",
 ["inputs", "configurations"], "all families, all methods, all array shapes and call styles", "Tests try a few call styles on few families.",
 D, [("argument wrapping", "distributions.py:CircularContinuous._separate_shape_parameters"), ("frozen form", "distributions.py:CircularContinuousFrozen")])
prop("F08", "Evaluations do not depend on what was evaluated before",
 "Whatever sequence of evaluations, samplings and fits with whatever parameters ran before, evaluating a distribution gives exactly what a fresh process gives; internal caches are never observable.",
 ["histories"], "all interleavings of evaluations of all families with nearby, equal and distant parameters, across frozen and direct forms", "Tests evaluate in one fixed order and never revisit parameters after other parameters filled the caches.",
 D, [("normalisation cache", "distributions.py:CircularContinuous._get_cached_normalizer"), ("flat-topped table", "distributions.py:vonmises_flattopped_gen._get_vmft_table"), ("inverse Batschelet table", "distributions.py:inverse_batschelet_gen._get_invbat_table"), ("series cache", "distributions.py:wrapstable_gen._get_series_terms")],
 [{"name": "normalisation, table and series caches", "meaning": "memoised constants keyed by parameters"}])
prop("F09", "Random variates follow the distribution",
 "Samples of every family lie in [0, 2pi), have the requested size and shape, are reproducible by seed, and follow the family's distribution function (no detectable departure in goodness of fit beyond chance) for every valid parameter.",
 ["inputs", "configurations"], "all families, valid parameters, sizes, seeds and call styles", "Tests draw one sample at one parameter point.",
 D, [("von Mises sampler", "distributions.py:vonmises_gen._rvs"), ("flat-topped sampler", "distributions.py:vonmises_flattopped_gen._rvs"), ("Jones-Pewsey sampler", "distributions.py:jonespewsey_gen._rvs"), ("inverse Batschelet sampler", "distributions.py:inverse_batschelet_gen._rvs")])
prop("F10", "Maximum-likelihood fits maximise the likelihood",
 "For every family, the parameters returned by maximum-likelihood fitting are valid and a local maximum: their likelihood is at least as high as that of the moment estimates, of the symmetric or von Mises sub-model where there is one, and of nearby perturbations, not materially below that of the parameters that generated the data, and any reported log-likelihood is the one the density gives. (Samples whose likelihood is unbounded are outside the claim.)",
 ["inputs", "configurations"], "all families, samples drawn from valid parameters, weights", "Tests fit one sample per family and compare to loose bounds.",
 D, [("von Mises fit", "distributions.py:vonmises_gen.fit"), ("flat-topped fit", "distributions.py:vonmises_flattopped_gen.fit"), ("Jones-Pewsey fit", "distributions.py:jonespewsey_gen.fit"), ("Kato-Jones fit", "distributions.py:katojones_gen._fit_mle")])
prop("F11", "Fits respect rotation, weights and whole turns",
 "Rotating the data rotates the fitted location and leaves the other fitted parameters unchanged, integer weights equal repetition, reordering the data or adding whole turns changes nothing, rescaling all weights leaves estimates without a small-sample correction unchanged, and moment fits reproduce the sample's moments.",
 ["inputs", "configurations"], "all families with a fit, all methods, samples, rotations and weights", "Metamorphic; tests fit one orientation without weights.",
 D, [("Cardioid fit", "distributions.py:cardioid_gen.fit"), ("wrapped normal fit", "distributions.py:wrapnorm_gen.fit"), ("wrapped Cauchy fit", "distributions.py:wrapcauchy_gen.fit"), ("Kato-Jones moments", "distributions.py:katojones_gen._fit_moments")])
# ---- clustering -------------------------------------------------------------------
CL = ["clustering.py"]
prop("K01", "Mixture models give coherent probabilities, labels and densities",
 "After fitting (every component holding at least two distinct angles), every mixture model's component weights are non-negative and sum to one, membership probabilities sum to one for every observation and equal the weighted component densities' shares, labels are the most probable component, predicting the training data reproduces the training labels, and the mixture density equals the weighted sum of component densities and integrates to one.",
 ["inputs", "configurations"], "all samples, component counts, units and seeds", "Tests fit one sample and check shapes.",
 CL, [("von Mises mixture", "clustering.py:MovM"), ("Kato-Jones mixture", "clustering.py:MoKJ"), ("generic mixture", "clustering.py:MoCD")])
prop("K02", "Mixture likelihoods and information criteria are those of the fitted model",
 "The reported likelihood history of a mixture fit corresponds to its fitted parameters, its information criterion equals the penalised likelihood of the training data with the right number of free parameters in every unit, each expectation-maximisation step follows from the previous parameters and does not make a maximum-likelihood mixture's fit materially worse, and a one-component mixture equals the single-distribution fit.",
 ["inputs", "configurations"], "all samples, component counts, units and seeds", "Tests check one sample in one unit.",
 CL, [("criterion", "clustering.py:MovM.compute_BIC"), ("criterion", "clustering.py:MoCD.bic"), ("likelihood", "clustering.py:MovM.compute_nLL")])
prop("K03", "Clustering does not depend on units, origin or label-irrelevant choices",
 "Fitting the same directions in degrees or radians with the same seed gives the same partition and parameters, refitting the same data with the same seed gives the same model, a model object refitted to new data is coherent with the new data alone, and hierarchical and k-means partitions are unchanged by rotating the data when initialised equivalently.",
 ["inputs", "configurations", "histories"], "all samples, seeds, units, rotations and sequences of fits", "Tests fit once in one unit.",
 CL, [("mixture", "clustering.py:MovM.fit"), ("hierarchical", "clustering.py:CircHAC.fit"), ("k-means", "clustering.py:CircKMeans.fit")])
prop("K04", "Hierarchical and k-means clusters are optimal in their documented local sense",
 "Each hierarchical step merges the two closest current clusters under the documented distance, the partition has the requested number of clusters with every observation labelled, and the merge record is a valid tree; k-means assigns every observation to its nearest centre, centres are the mean directions of their members at convergence, and prediction uses the same rule.",
 ["inputs", "configurations"], "all samples, numbers of clusters, metrics and initialisations", "Tests check well-separated samples only.",
 CL, [("hierarchical merging", "clustering.py:CircHAC.fit"), ("k-means updates", "clustering.py:CircKMeans.fit"), ("silhouette", "clustering.py:CircHAC.silhouette_score")])
# ---- regression ---------------------------------------------------------------------
R = ["regression.py"]
prop("R01", "Circular-linear regression maximises and reports its own likelihood",
 "A fitted circular-linear regression reports the von Mises log-likelihood of its own fitted parameters, information criteria that penalise every fitted parameter, predictions equal to the link evaluated at its coefficients, standard errors from the expected information, and, wherever its iteration has converged, coefficients that are a stationary point of that likelihood at which no small change of any parameter improves it.",
 ["inputs", "configurations"], "all data sets with identifiable effects, all three model types", "Tests fit one published data set per model type.",
 R, [("fitting", "regression.py:CLRegression._fit"), ("prediction", "regression.py:CLRegression.predict"), ("criteria", "regression.py:CLRegression.AIC")])
prop("R02", "Circular-circular regression is least squares on sine and cosine",
 "A circular-circular regression of any order has coefficients equal to the least-squares trigonometric-polynomial fit of the response's cosine and sine, fitted values equal to the direction of the fitted vector, residuals recombining with fitted values to the response, its reported association is the root mean squared fitted length, and the test of the next harmonic compares the residual sums of squares with and without it. An exact rotation or reflection of a predictor is reproduced exactly.",
 ["inputs", "configurations"], "all paired samples and orders", "Tests fit one published data set.",
 R, [("fitting", "regression.py:CCRegression._fit")])
prop("R03", "Regressions do not depend on call style, row order, turns or origin",
 "Giving the same data as arrays or as a formula with a table, reordering rows, or adding whole turns to angles leaves the fit unchanged; rotating the response rotates fitted directions and leaves slopes, concentration and likelihood unchanged; missing, non-finite or mismatched data and unknown model options are refused.",
 ["inputs", "configurations"], "all data sets, rotations and permutations, both regressions", "Metamorphic; tests use one orientation and order.",
 R, [("formula parsing", "regression.py:CLRegression._parse_formula"), ("design", "regression.py:CLRegression._prepare_design"), ("circular-circular", "regression.py:CCRegression")])
# ---- visualisation -------------------------------------------------------------------
prop("V01", "Plots draw the data they are given",
 "For every data object and display configuration the circular plot renders without error, draws every observation inside the plotting region at its angle (stacked when equal, or binned with areas proportional to counts), the density at its estimate, the mean, median and their intervals at the reported values running from lower to upper bound, shows exactly the elements that are enabled, honours the requested orientation, unit labels and radial limit, returns the axes, and uses only the axes it is given.",
 ["inputs", "configurations"], "all samples and display configurations", "Tests render one or two figures and check nothing about their content.",
 ["visualization.py", "base.py"], [("plot", "visualization.py:circ_plot"), ("defaults merging", "visualization.py:_merge_dicts")])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
