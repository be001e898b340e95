"""The properties, in one place: tools/gen.py writes properties.jsonl and
MANIFEST.json from them."""
WM = "pyrichlet/weight_models/"
MM = "pyrichlet/mixture_models/"
BASE = MM + "_base.py"
STR = ["_dirichlet_process.py", "_pitman_yor_process.py",
       "_geometric_process.py", "_beta_in_beta.py", "_beta_bernoulli.py",
       "_beta_binomial.py", "_beta_in_dirichlet.py",
       "_dirichlet_distribution.py", "_equal.py", "_frequency.py"]
ALLW = [WM + "_base.py"] + [WM + s for s in STR]
VARW = [WM + s for s in STR[:3] + STR[7:]]
CONT = ("Parameters, responsibilities and random draws are continuous: an "
        "off-by-one in an index or a lost factor shows only for some shapes, "
        "and the existing tests only look at types, lengths or chain output.")


UT = MM + "_utils.py"
MIXWHY = ("The sampler is random and its output is only compared by type or "
          "within Monte Carlo noise; what each draw depends on, for all data "
          "and priors, is a for-all statement.")


def P(id, title, statement, over, qtext, why, files, mech, note, level=None,
      na=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over,
                qtext=qtext, why=why, files=files, mech=mech, note=note,
                na=na, observe=observe)


PROPS = [
P("C01", "Weights are always a valid (sub)probability vector",
  "After any prior or posterior draw, completion or tail extension, the "
  "weights of every weighting structure are non-negative and sum to at most "
  "one (exactly one for finite structures). Their normalised and cumulative "
  "forms are proportional to them, are as long as the reported size, and the "
  "cumulative one ends at one.",
  ["inputs", "configurations"],
  "all parameters, all fitted assignments and all values of the random draws",
  CONT, ALLW, [("weights from stick fractions", WM + "_base.py:get_weights"),
               ("normalisation", WM + "_base.py:get_normalized_weights")],
  "up to 5 weights, 4 assignments, thresholds up to 0.9 with at most 5 "
  "draws"),
P("C02", "Completing a weighting structure only appends weights",
  "Asking a weighting structure for more weights keeps every weight already "
  "drawn unchanged and in place, reaches the requested length (finite "
  "structures keep theirs), draws only what is missing and returns the "
  "current weights. A length that is not an integer is refused with a type "
  "error.",
  ["histories", "inputs"],
  "any sequence of draw, fit and completion requests; all parameters and draw "
  "values", CONT, ALLW,
  [("complete", WM + "_base.py:complete"),
   ("complete per model", WM + "_dirichlet_process.py:complete")],
  "up to 5 weights, 3 assignments, 4 successive requests"),
P("C03", "Tail extension stops exactly when the requested mass is reached",
  "Extending a weighting structure until its weights cover a mass x in [0,1) "
  "leaves weights whose sum is at least x, keeps the weights already there, "
  "and adds none beyond the first one that reaches x. A mass outside [0,1) "
  "is refused with a value error and changes nothing.",
  ["inputs", "histories"],
  "any x, parameters, draw values and starting state",
  CONT, ALLW, [("tail", WM + "_base.py:tail"),
               ("closed-form tail", WM + "_geometric_process.py:tail")],
  "runs of at most 3 to 8 new draws per case, up to 3 fitted assignments"),
P("C04", "Weights drawn without data follow the prior of the structure",
  "Without fitted assignments, the weights drawn by any combination of "
  "draws, completions and resets have the prior law of their model: each "
  "stick fraction (or the Dirichlet vector) is drawn from the distribution "
  "the model prescribes given the earlier ones, and independent components "
  "come from separate draws.",
  ["histories", "configurations"],
  "all parameters and values of the draws",
  "A test can only compare empirical moments within noise; the law of every "
  "draw as a function of its parameters and of earlier draws is a "
  "for-all statement.", ALLW,
  [("prior draws", WM + "_pitman_yor_process.py:random"),
   ("completion draws", WM + "_pitman_yor_process.py:complete")],
  "up to 5 weights"),
P("C05", "Weights drawn after fitting follow the posterior",
  "After fitting an assignment of observations to groups, the weights drawn "
  "or completed in any order have the conditional (posterior) law of their "
  "model given the number of observations in and beyond each group, "
  "including the weights beyond the occupied groups. The assignment itself "
  "is not modified, and labels that a finite structure cannot hold are "
  "refused with a value error.",
  ["inputs", "histories", "configurations"],
  "all assignments, parameters and values of the draws",
  "Counts in and beyond each group enter every draw; tests fit a couple of "
  "label vectors and check only lengths.", ALLW,
  [("posterior draws", WM + "_dirichlet_process.py:random"),
   ("counts", WM + "_base.py:_stick_counts"),
   ("indicator updates", WM + "_beta_bernoulli.py:random"),
   ("urn updates", WM + "_beta_in_dirichlet.py:random")],
  "up to 5 assignments to 3 groups, up to 5 weights"),
P("C06", "Refitting or resetting a structure forgets earlier fits",
  "After a refit, posterior draws depend only on the newly fitted "
  "assignments; after a reset, draws follow the prior again. What was "
  "fitted, drawn or completed before makes no difference, nor do later "
  "changes of the array of assignments passed.",
  ["histories"],
  "fit/draw/complete/reset histories followed by a new fit or a reset; all "
  "parameters and draw values",
  "Stale state only shows for particular orders of calls and sizes of the "
  "fitted vectors.", ALLW,
  [("fit", WM + "_base.py:fit"), ("reset", WM + "_base.py:reset"),
   ("fit of tied structures", WM + "_beta_in_dirichlet.py:fit")],
  "histories of up to 5 calls, up to 5 earlier and 3 new assignments"),
P("C07", "Structure log-likelihood is the prior log density of the draw",
  "The log-likelihood a weighting structure reports for its own current "
  "weights is the logarithm of its prior density at the stick fractions (or "
  "Dirichlet vector) it currently holds, with all normalising constants, and "
  "zero for fixed weights. Evaluating it changes nothing.",
  ["inputs", "configurations"],
  "all parameters, draw values and fitted assignments",
  CONT, ALLW,
  [("weighting_log_likelihood", WM + "_dirichlet_process.py"),
   ("partition probability", "pyrichlet/utils/functions.py")],
  "up to 4 weights, 3 fitted assignments"),
P("C08", "Assignment log-likelihood is the sum of its log weights",
  "The log-likelihood of an assignment given a weighting structure is the "
  "sum of the logarithms of the weights of its labels, drawing any missing "
  "weights first and keeping those already there. The fitted assignment is "
  "used when none is passed, and a label of zero weight gives minus "
  "infinity.",
  ["inputs", "histories"],
  "all assignments, parameters and draw values", CONT, ALLW,
  [("assignation_log_likelihood", WM + "_base.py")],
  "up to 3 labels below 4"),
P("C09", "Random assignments follow the normalised weights",
  "A random assignment drawn from the current weights picks index j exactly "
  "when its uniform variate falls in the j-th interval of the cumulative "
  "normalised weights, one variate per requested cell, in the requested "
  "shape, without changing the weights.",
  ["inputs", "configurations"],
  "all weights and uniform values",
  CONT, ALLW, [("random_assignment", WM + "_base.py")],
  "up to 4 weights and 6 assignments"),
P("C10", "Variational expected weights match the variational posterior",
  "After a variational fit to any matrix of responsibilities, the expected "
  "weight of each component is its mean under the optimal variational "
  "posterior truncated at the number of components, depends only on the "
  "latest fit, is zero outside the truncation, and the expected weights of "
  "a stick-breaking or Dirichlet structure sum to one. Asking for "
  "variational summaries before any fit raises a not-fitted error.",
  ["inputs", "histories", "configurations"],
  "all responsibility matrices with columns summing to one and all "
  "parameters", CONT, VARW,
  [("fit_variational", WM + "_dirichlet_process.py"),
   ("variational_mean_w_j", WM + "_dirichlet_process.py")],
  "up to 5 components and 3 observations"),
P("C11", "Variational expected log weights and assignment probability",
  "After a variational fit, the expected log weight of each component and "
  "the expected log probability of the fitted (or any passed) assignment "
  "are their exact values under the variational posterior, and a component "
  "outside the truncation has log weight minus infinity.",
  ["inputs", "histories", "configurations"],
  "all responsibility matrices and parameters", CONT, VARW,
  [("variational_mean_log_w_j", WM + "_dirichlet_process.py"),
   ("variational_mean_log_p_d__w", WM + "_dirichlet_process.py")],
  "up to 5 components and 3 observations"),
P("C12", "Variational expected log prior and log posterior densities",
  "After a variational fit, the expected log prior density and the expected "
  "log variational density of the weights are their exact values under the "
  "variational posterior with all normalising constants, so that without "
  "data both coincide.",
  ["inputs", "histories", "configurations"],
  "all responsibility matrices and parameters", CONT, VARW,
  [("variational_mean_log_p_w", WM + "_pitman_yor_process.py"),
   ("variational_mean_log_q_w", WM + "_pitman_yor_process.py")],
  "up to 5 components and 3 observations"),
P("C13", "Variational mode of a weight",
  "After a variational fit, the mode reported for a weight is the product of "
  "the modes of the stick fractions that make it up (the marginal mode for a "
  "Dirichlet distribution), including modes at zero and one. A fraction "
  "without a single mode raises a value error and weights outside the "
  "truncation are zero.",
  ["inputs", "configurations"],
  "all responsibility matrices and parameters", CONT, VARW,
  [("variational_mode_w_j", WM + "_dirichlet_process.py")],
  "up to 4 components and 2 observations"),
P("C14", "Gibbs atoms are draws from their conditional posterior",
  "In every Gibbs iteration each occupied group's mean and covariance are "
  "fresh draws from the normal inverse Wishart posterior given exactly the "
  "observations then in the group, and each component not yet visited gets "
  "an independent draw from the prior. The default prior mean and scale are "
  "the sample mean and covariance of the fitted data.",
  ["inputs", "histories", "configurations"],
  "all data, priors, group assignments and draw values",
  MIXWHY, [BASE, UT],
  [("atom update", BASE + ":_update_atoms"),
   ("posterior parameters", UT + ":posterior_norm_invw_params"),
   ("defaults", BASE + ":_initialize_common_params")],
  "up to 3 observations of dimension up to 2, 2 groups, 2 iterations"),
P("C15", "Gibbs slice variables and group assignment",
  "In every Gibbs iteration the weights are refitted to the current groups "
  "and redrawn, each slice variable is uniform between zero and the weight "
  "of its observation's group, enough weights are drawn for every slice to "
  "be covered, and each observation is then assigned to one of the "
  "components whose weight exceeds its slice, with probability proportional "
  "to its normal density there and independently of the others.",
  ["inputs", "histories", "configurations"],
  "all data, priors, weights and draw values", MIXWHY, [BASE, UT],
  [("weights and slices", BASE + ":_update_weights"),
   ("assignment", BASE + ":_update_d"),
   ("categorical draw", UT + ":gumbel_max_sampling")],
  "up to 3 observations of dimension up to 2, 3 components, 2 iterations"),
P("C16", "Gibbs maximum a posteriori state is the best state visited",
  "The state kept as maximum a posteriori is, among the initial state and "
  "the states after every iteration (burn-in included), one with the largest "
  "joint log density of data and groups given weights and atoms, kept as it "
  "was when visited; its log-likelihood is the reported one. A warm start "
  "keeps competing with the best state of past runs.",
  ["histories", "inputs"],
  "all data, priors and draw values of every iteration", MIXWHY, [BASE],
  [("tracking", BASE + ":_update_map_params"),
   ("log-likelihood", BASE + ":_run_log_likelihood")],
  "up to 2 observations, 2 components, 3 iterations and a warm restart"),
P("C17", "Gibbs saves the right states and counts them",
  "The states saved by a Gibbs run are those after burn-in at every "
  "subsampling step, each unchanged by later iterations and with an atom "
  "for each weight. The number of saved steps, groups per step and the "
  "affinity matrix agree with them; a warm start appends to the states of "
  "past runs.",
  ["histories", "configurations"],
  "all data, priors and draw values; all small iteration, burn-in and "
  "subsampling numbers", MIXWHY, [BASE],
  [("saving", BASE + ":_save_params"), ("loop", BASE + ":fit_gibbs")],
  "up to 3 observations, 5 iterations and a warm restart"),
P("C18", "Gibbs densities are mixtures of the saved states",
  "The expected a posteriori density is the average over the saved states "
  "(or the last ones asked for) of the weighted sum of the normal densities "
  "of their components, and the maximum a posteriori one is that of the "
  "best state, for any points, any subset or order of dimensions and any "
  "single component; without points the fitted data are used.",
  ["inputs", "configurations"],
  "all data, evaluation points, priors and draw values", MIXWHY, [BASE, UT],
  [("densities", BASE + ":gibbs_eap_density"),
   ("mixture", UT + ":mixture_density")],
  "up to 2 observations and 2 points of dimension up to 3, 2 components, "
  "2 saved states"),
P("C19", "Gibbs clusters, uncertainty and affinity",
  "The maximum a posteriori cluster of a point is the component with the "
  "largest weighted density there, and its uncertainty one minus that "
  "component's posterior probability. The affinity of two points is the "
  "share of saved states in which they fall in the same group, and the "
  "consensus clusters come from that affinity.",
  ["inputs", "configurations"],
  "all data, evaluation points, priors and draw values", MIXWHY, [BASE, UT],
  [("clusters", BASE + ":gibbs_map_cluster"),
   ("affinity", BASE + ":gibbs_eap_affinity_matrix"),
   ("consensus", BASE + ":gibbs_eap_spectral_consensus_cluster")],
  "up to 3 observations and 2 points, 2 components, 2 saved states"),
P("C20", "Variational updates are the exact coordinate optima",
  "In every iteration of a variational fit the responsibilities are the "
  "normalised exponentials of the expected log weight plus expected log "
  "normal density of each component, non-negative and summing to one per "
  "observation; the weighting structure is fitted to them, and each atom is "
  "the normal Wishart posterior given them. A k-means start uses the groups "
  "ranked by size and a random start atoms drawn from the prior.",
  ["inputs", "histories", "configurations"],
  "all data, priors, expected log weights and starting atoms", MIXWHY,
  [BASE, UT],
  [("responsibilities", BASE + ":_update_var_d"),
   ("atoms", BASE + ":_update_var_theta"),
   ("start", BASE + ":_initialize_variational_params")],
  "up to 3 observations of dimension up to 3, 3 components, 2 iterations"),
P("C21", "Evidence lower bound and convergence of the variational fit",
  "The evidence lower bound of a variational state is its exact value with "
  "all constants, for any responsibilities and atoms. A fit iterates while "
  "the bound changes by more than the tolerance, at most the total number of "
  "iterations, and is reported as converged exactly when the last change was "
  "within the tolerance.",
  ["inputs", "histories"],
  "all data, priors, responsibilities, atoms and sequences of bounds",
  MIXWHY, [BASE, UT],
  [("bound", BASE + ":_calc_elbo"), ("loop", BASE + ":fit_variational")],
  "up to 3 observations of dimension up to 3, 3 components, 4 iterations"),
P("C22", "Variational densities are mixtures of the fitted components",
  "The variational expected a posteriori density is the sum over components "
  "of the expected weight times the Student t predictive density, and the "
  "maximum a posteriori one that of the modal weight times the normal "
  "density at the modal atom, for any points, any subset or order of "
  "dimensions (through the marginal law) and any single component; without "
  "points the fitted data are used.",
  ["inputs", "configurations"],
  "all fitted states and evaluation points", MIXWHY, [BASE,
  "pyrichlet/utils/functions.py"],
  [("expected density", BASE + ":var_eap_density"),
   ("modal density", BASE + ":var_map_density")],
  "up to 2 points of dimension up to 3, 3 components"),
P("C23", "Variational clusters, uncertainty and affinity",
  "The variational cluster of a point is the component with the largest "
  "responsibility for it and its uncertainty one minus that responsibility. "
  "The affinity of two different points is the sum over components of the "
  "product of their responsibilities, and consensus clusters come from that "
  "affinity. For new points responsibilities are those an update would give "
  "them; without points the fitted ones are used.",
  ["inputs", "configurations"],
  "all fitted states and evaluation points", MIXWHY, [BASE, UT],
  [("clusters", BASE + ":var_map_cluster"),
   ("affinity", BASE + ":var_eap_affinity_matrix"),
   ("consensus", BASE + ":var_eap_spectral_consensus_cluster")],
  "up to 3 points of dimension up to 3, 3 components"),
P("C24", "Results need their fit and invalid requests change nothing",
  "Gibbs results asked for before a Gibbs fit has ended, and variational ones "
  "before a variational fit, raise a not-fitted error; neither fit unlocks "
  "the other's. Invalid data, points, starts, parameters and sizes are "
  "refused with the documented error; a refused request draws nothing and "
  "leaves past fits and weights as they were.",
  ["inputs", "configurations", "histories"],
  "all data, parameters and draw values; all mixtures and requests",
  "Each combination of request, history and structure has its own guard; a "
  "test would have to name every one.", [BASE] + ALLW,
  [("guards", BASE + ":gibbs_eap_density"), ("fits", BASE + ":fit_gibbs")],
  "up to 2 observations, 2 components, 3 iterations"),
P("C25", "Fits and evaluations do not depend on the form of the data",
  "Fitting or evaluating the same observations passed as a list, array, "
  "series or data frame (with any index) gives the same result, leaves them "
  "unmodified, and later changes of the object passed do not reach the "
  "fit.",
  ["inputs", "configurations"],
  "all data, priors and draw values, and all accepted forms", MIXWHY, [BASE],
  [("fitted data", BASE + ":_initialize_common_params"),
   ("evaluated data", BASE + ":_cast_observations")],
  "up to 2 observations and 2 points of dimension up to 2, 2 components"),
P("C26", "Results are reproducible from the seed alone",
  "Fits, random draws and consensus clusters with an integer seed (zero "
  "included) or a generator as random state use random numbers of that "
  "state only, each of them once, and come out the same again from the same "
  "seed, whatever other structures and mixtures do meanwhile; different "
  "seeds give different draws. Anything else is refused as random state "
  "with a type error.",
  ["inputs", "configurations", "histories"],
  "all seeds, data, priors and values of the random draws",
  "Equal results for two runs with one seed do not show that no draw is "
  "shared or taken from elsewhere; that is about every draw of every "
  "history.", ALLW + [BASE, "pyrichlet/utils/validators.py"],
  [("generator", "pyrichlet/utils/validators.py:check_random_state"),
   ("draws of a mixture", BASE + ":__init__")],
  "up to 2 observations, 2 weights and 2 components"),
P("C27", "Fits start from the requested groups",
  "A fit started from k-means uses the k-means groups of the observations, "
  "ranked by size, with as many groups as asked for (else as the weighting "
  "structure has, else two); one started at random follows the prior "
  "weights. The state starts with a weight and an atom for each group, "
  "enough to cover every slice variable, and a variational start has as "
  "many components as weights.",
  ["inputs", "configurations"],
  "all data, priors, k-means labels and values of the random draws",
  MIXWHY, [BASE], [("start", BASE + ":_initialize_gibbs_params"),
                   ("variational start",
                    BASE + ":_initialize_variational_params")],
  "up to 6 observations, 4 groups, 3 weights"),
P("C28", "Numerical helper functions compute what they are named after",
  "The log probabilities (beta, binomial, beta binomial, partitions), "
  "normal and Student t densities, Wishart constants, expectations and "
  "entropy, normal inverse Wishart density and posterior, categorical and "
  "rejection sampling and cluster uncertainty helpers equal their "
  "definitions for all valid arguments, in each shape they accept.",
  ["inputs"], "all valid arguments", CONT,
  ["pyrichlet/utils/functions.py", UT],
  [("functions", "pyrichlet/utils/functions.py"), ("mixtures", UT)],
  "dimension up to 3 (4 in the thorough check), 3 observations, 3 "
  "categories, partitions of up to 6"),
P("C29", "Cold refits forget and warm starts continue",
  "Refitting a mixture without warm start gives the same as fitting a new "
  "mixture on those data, whatever was fitted before. A warm start "
  "continues from the state in which the past run ended: runs of a and then "
  "b iterations visit the same states as one of a+b. Gibbs and variational "
  "fits of one mixture do not disturb each other's results.",
  ["histories"], "all data, priors and values of the random draws; "
  "histories of up to three fits", MIXWHY, [BASE] + ALLW,
  [("fits", BASE + ":fit_gibbs"), ("variational", BASE + ":fit_variational")],
  "up to 3 observations, 2 components, 3 iterations"),
P("C30", "A mixture uses the parameters it was given",
  "Each mixture is the Gaussian mixture with the weighting structure of its "
  "name: its weights, fits and results are those of that structure with the "
  "same parameters, priors, iterations, burn-in and subsampling, and the "
  "documented defaults apply to what is not given.",
  ["inputs", "configurations"],
  "all parameters, priors, data and draw values", MIXWHY,
  [MM + f for f in (
      "_dirichlet_process_mixture.py", "_pitman_yor_process_mixture.py",
      "_geometric_process_mixture.py", "_beta_in_beta_mixture.py",
      "_beta_bernoulli_mixture.py", "_beta_binomial_mixture.py",
      "_beta_in_dirichlet_mixture.py", "_dirichlet_distribution_mixture.py",
      "_equal_weighted_mixture.py", "_frequency_weighted_mixture.py")],
  [("constructors", MM + "_dirichlet_process_mixture.py")],
  "up to 2 observations, 3 weights, 3 iterations"),
P("C31", "Questions and progress display change nothing",
  "Asking a fitted mixture or structure for densities, clusters, affinities, "
  "likelihoods (of groups held), expectations or normalised weights leaves the "
  "fit and the weights held as they were: the same question has the same "
  "answer again (also after the array returned was overwritten), only "
  "consensus clusters and random draws use random numbers, and later draws "
  "and warm starts go on as without the questions. Showing progress does not "
  "change a fit.",
  ["inputs", "histories"],
  "all data, parameters, priors and draw values; orders of questions", MIXWHY,
  [BASE, UT] + ALLW,
  [("densities", BASE + ":gibbs_eap_density"),
   ("clusters", BASE + ":var_map_cluster"),
   ("normalised weights", WM + "_base.py:get_normalized_weights")],
  "up to 2 observations, 3 components or weights, 2 points, 5 iterations"),
P("C32", "Pair plots show the maximum a posteriori mixture",
  "The pair plot of a Gibbs fit has an axis for each pair of features, "
  "labelled with their names, for any number of features. Off the diagonal "
  "every observation is drawn at its features in the colour of its component "
  "(the same in every axis, different for different components, whatever "
  "their indices) with a dashed contour enclosing 95% of each such component "
  "in that colour; on the diagonal are the marginal density of the feature "
  "and the weighted marginal density of each component, in its colour if it "
  "has observations. Plotting leaves the fit as it was.",
  ["inputs"],
  "all data, priors and draw values giving the plotted state, not "
  "degenerate", "An image is only looked at, and tests compare none.",
  [BASE, UT],
  [("pair plot", BASE + ":gibbs_map_pairplot"),
   ("components", UT + ":cluster")],
  "up to 3 dimensions, 2 observations, 3 components"),
P("C33", "Outliers and large counts stay within the range of doubles",
  "Where observations or questioned points are, however far from every "
  "component, and however sharp a component, large a concentration, count or "
  "degrees of freedom: assignments of the Gibbs sampler, responsibilities, "
  "map clusters, uncertainties, affinities, reported log likelihoods and the "
  "evidence lower bound, predictive densities, expected logs and normalising "
  "constants are those of the model and never become NaN or infinite because "
  "an exponential or a gamma function left the range of doubles.",
  ["inputs"],
  "all positions of the data and all parameters, in a range model of doubles",
  "An overflow or underflow needs an outlier or a large count; the data of "
  "the tests have none, and the results merely turn into NaN or a wrong "
  "label.",
  [BASE, UT, "pyrichlet/utils/functions.py"],
  [("responsibilities", BASE + ":_update_var_d"),
   ("clusters", UT + ":cluster"),
   ("assignments", BASE + ":_d_log_likelihood_vector"),
   ("densities", "pyrichlet/utils/functions.py:density_students_t")],
  "exp underflows below -746 and overflows above 709.79, gamma overflows "
  "above 200, a beta function of two arguments above 600 underflows, epsilon "
  "is 2^-52; other rounding and products of powers are exact; up to 2 "
  "observations of dimension 2 and 3 components"),
P("N01", "The Gibbs chain converges to the posterior",
  "The saved states of a Gibbs run follow the posterior distribution in the "
  "long run, whatever the starting state.",
  ["histories"], "all data and starts", MIXWHY, [BASE],
  [("sampler", BASE + ":fit_gibbs")], "",
  na="a limit over unbounded histories: no finite bound decides it. Its "
  "ingredients, that every step draws from its exact conditional, are C05, "
  "C14 and C15"),
P("N02", "Consensus clusters minimise the spectral criterion",
  "Consensus clusters are the spectral clustering of the affinity matrix.",
  ["inputs"], "all affinity matrices", MIXWHY, [BASE],
  [("consensus", BASE + ":gibbs_eap_spectral_consensus_cluster")], "",
  na="the clustering is computed inside scikit-learn (iterative eigen-solver "
  "and k-means in compiled code), outside /repo; that the right affinity "
  "matrix, number and generator are handed over is C19, C23 and C26"),
P("N04", "Example data sets load as published",
  "The loaders return the published example data unchanged.",
  ["inputs"], "the two data files", "One concrete file each.",
  ["pyrichlet/utils/_loaders.py"],
  [("loader", "pyrichlet/utils/_loaders.py:load_penguins")], "",
  na="no input to quantify over: a single concrete execution reading a file "
  "through pandas, nothing for a solver to decide"),
]
