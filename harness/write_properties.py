"""Writes properties.jsonl (kept as code so that the text is easy to edit)."""
import json, pathlib
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":["skillmodels/"+f for f in files],
        "state":[dict(zip(("name","meaning","where"),s)) for s in state],
        "mechanism":[dict(zip(("name","where"),m)) for m in mech],
        "observe_at":list(observe),"hook_needed":None}})
I=["inputs"];IC=["inputs","configurations"];IH=["inputs","configurations","histories"]
prop("C01","Likelihood contributions are sequential Bayes densities",
 "For every valid model, dataset and parameter vector, the log likelihood contribution of an individual at a measurement is the log density of that measurement given everything observed for that individual before it (controls, factor loadings of all factors it measures, measurement error sd, current factor distribution), and the reported residual and residual sd are the ones of that density. The factor distribution after the measurement (the post-update states and, through every later contribution, its covariance) is the Bayesian posterior, and a measurement shared by several factors enters exactly once per period. Measurements are processed by period, within a period in the order in which the factors list them, followed by one update per anchored factor.",
 IC,"all model specifications (factors, shared and one-factor measurements, controls, mixtures, anchoring), datasets, parameters",
 "Tests compare one stored likelihood and single updates with a reference for a handful of random shapes; sharing patterns, controls, missing data and mixture combinations and the sequence as a whole are not covered.",
 ["kalman_filters.py","likelihood_function.py","process_model.py","parse_params.py"],
 [("square root Kalman update","kalman_filters.kalman_update"),("scan over updates","likelihood_function._scan_body"),("update order","process_model._get_update_info")],
 [("states, upper_chols, log_mixture_weights","belief about the latent factors","likelihood_function._log_likelihood_jax carry")],
 ["get_maximization_inputs()['debug_loglike']","kalman_update"])
prop("C02","Transition to the next period",
 "Between two periods the factor distribution of every individual is propagated by the unscented transform of that factor's own transition function with the parameters of exactly that period (Julier sigma points with the configured scale, observed factors entering with their values in that period), and the shock variances of that period are added once. Each built-in transition function (linear, translog, robust_translog, linear_and_squares, log_ces, log_ces_general, constant) and every registered custom function computes the value its documented formula gives for the named parameters in the template, whichever factors come first, are observed or are unused.",
 IC,"all models, transition function mixes, numbers of periods, sigma point scales, parameters",
 "Tests check functions at one point each and one linear predict step; period/parameter alignment, several factors with different functions, observed factors and non-default scales are not sampled.",
 ["kalman_filters.py","transition_functions.py","process_model.py","decorators.py","parse_params.py","likelihood_function.py"],
 [("sigma points","kalman_filters.kalman_predict"),("formulas and parameter names","transition_functions"),("wiring by name","process_model._get_transition_info")],
 (),["debug_loglike","kalman_predict","simulate_dataset with zero noise"])
prop("C03","Mixtures of normals are handled exactly",
 "With several mixture components the contribution of a measurement is the log of the weighted sum of the component densities, each component is updated by itself with its own mean and covariance, and component weights become posterior weights (non-negative, summing to one, unchanged by missing measurements). Consequently relabelling the components together with their parameters changes nothing, and a mixture of identical components gives the same likelihood as a single component.",
 IC,"all numbers of components, weights (also extreme ones), models and datasets",
 "Tests check one weight update for random inputs and run the full likelihood with a single stored mixture case.",
 ["kalman_filters.py","parse_params.py","likelihood_function.py","process_debug_data.py"],
 [("log-sum-exp over components","kalman_filters.kalman_update"),("component parsing","parse_params")],(),["debug_loglike"])
prop("C04","Anchoring",
 "For every anchored factor the anchoring outcome of every period is an additional observation whose contribution and effect on the mixture weights follow the anchoring equation, but it never moves the factor estimates. Transitions are evaluated on the anchored scale: states are multiplied by that period's and that factor's anchoring loading and shifted by its anchoring constant (no shift if constants are to be ignored), and results are converted back with the loading and constant of the next period, non-anchored and observed factors staying as they are. Anchored states reported with filtered or simulated states are exactly the unanchored ones times loading plus constant of the same factor and period.",
 IC,"all subsets and orders of anchored factors, shared outcomes, flags, constants and loadings, models, data",
 "Tests anchor in one model with one factor; several anchored factors, outcome order, constants and non-unit loadings that vary over periods are not reached.",
 ["process_model.py","parse_params.py","kalman_filters.py","likelihood_function.py","filtered_states.py","process_data.py","simulate_data.py"],
 [("anchoring rows","process_model._get_update_info"),("scaling factors and constants","parse_params._get_anchoring_scaling_factors/_constants"),("anchor, transform, unanchor","kalman_filters.transform_sigma_points"),("anchor_states_df","filtered_states")],
 (),["debug_loglike","get_filtered_states","simulate_dataset"])
prop("C05","Missing data and separability of individuals",
 "A missing measurement contributes zero to the log likelihood and leaves the individual's factor distribution and mixture weights exactly as they were, whatever else is missing or observed. The contributions, residuals and states of an individual depend only on that individual's own rows and on the parameters: changing, adding, removing or reordering other individuals changes none of them, and all outputs list individuals in the order of their sorted identifiers.",
 IH,"all missing patterns, panels, sets of individuals and edits of them",
 "Tests check missing values in one update step; whole-likelihood invariance over all patterns and all edits of the dataset is a relation between runs that no test samples.",
 ["kalman_filters.py","process_data.py","likelihood_function.py","process_debug_data.py"],
 [("fill values and jnp.where","kalman_filters.kalman_update"),("balancing","process_data.pre_process_data")],(),["debug_loglike","loglike","get_filtered_states"])
prop("C06","Timing: every quantity acts in its own period only",
 "Data and parameters of a period influence only contributions and states of that period (from the respective measurement on) and of later ones; in particular there is exactly one transition between consecutive periods, after all measurements of the earlier one, and none after the last. Truncating a model and its data to its first periods reproduces exactly the contributions and states of those periods. This holds for any number of periods, including periods with ten or more measurements and more than ten periods, and for periods in which some factors are not measured.",
 IH,"all models, numbers of periods, perturbation points, truncations",
 "Tests use one eight-period model and compare a total; causality and truncation relations are never tested.",
 ["likelihood_function.py","process_model.py","parse_params.py","process_data.py"],
 [("is_predict_iteration, iteration_to_period","likelihood_function.get_maximization_inputs"),("update order","process_model._get_update_info")],(),["debug_loglike"])
prop("C07","The parameter template lists exactly the model's parameters",
 "The parameter template has one row, in a fixed documented order, for every parameter of the specified model and no other: control coefficients (constant first) for every measurement and anchoring outcome of every period, a loading for every factor each of them measures, measurement sds, shock sds of every latent factor and transition, initial means, mixture weights, the lower triangular initial Cholesky factor per mixture component, and the transition parameters of every latent factor and transition named after all factors. Rows are unique, and period, measurement, factor and parameter names are those of the specification, so that equal specifications give equal templates.",
 IC,"all model specifications",
 "Tests compare the template of one stored model.",
 ["params_index.py","process_model.py","transition_functions.py","likelihood_function.py"],
 [("index tuples","params_index.get_params_index"),("update info","process_model._get_update_info")],(),["get_maximization_inputs()['params_template']"])
prop("C08","Parameters are matched by label, never by position",
 "The likelihood, debug likelihood, gradient, filtered states, anchored states and simulations depend on the parameter DataFrame only through the value stored under each label: the order of rows and additional columns do not matter. Each labelled value is used for exactly the model quantity its label names. A DataFrame with missing or additional labels is rejected by the likelihood functions with an error that names exactly those labels.",
 IC,"all parameter DataFrames: permutations, extra columns, missing and additional entries, all models",
 "Tests pass parameters in template order only and never a wrong index.",
 ["likelihood_function.py","parse_params.py","filtered_states.py","simulate_data.py"],
 [("_get_jnp_params_vec","likelihood_function"),("create_parsing_info, parse_params","parse_params")],(),["loglike","debug_loglike","gradient","get_filtered_states","simulate_dataset"])
prop("C09","Constraints and bounds say what the specification says",
 "The returned constraints and bounds refer only to rows of the template and together restrict parameters exactly as the specification implies: every normalized loading and intercept is fixed at its stated value, mixture weights form a probability (or are fixed at one), shock sds of constant factors are fixed at zero, shares of every log_ces function form a probability, parameters of transitions in the same stage are equal across those periods, initial means of the first factor increase over components, and anchoring loadings, constants and controls are fixed at one, zero and zero unless freed. Measurement sds, shock sds and diagonal elements of the initial Cholesky factors are bounded below by the bounds distance (zero without robust bounds) and nothing else is bounded.",
 IC,"all model specifications incl. stage maps, normalizations, anchoring flags, options",
 "Tests call single helper functions on small dictionaries; the set of constraints of a whole model is never compared with its specification.",
 ["constraints.py","process_model.py","transition_functions.py"],
 [("get_constraints","constraints"),("add_bounds","constraints")],(),["get_maximization_inputs()['constraints','params_template']"])
prop("C10","Invalid specifications are rejected, omitted ones get defaults",
 "A specification is rejected with a ValueError exactly if it breaks a documented rule: stage map of length number of periods minus one with stages that start at zero and increase in steps of one, anchoring outcomes a dictionary of column names and its three free flags booleans, measurements lists of lists of column names, normalizations lists of dictionaries that only name measurements of that factor and period, loadings not normalized to zero; the error names every broken rule. Every optional section and key that is omitted has exactly the effect of its documented default, and shorter lists of measurements and normalizations mean empty entries in the remaining periods.",
 IC,"all specification dictionaries, valid or with any combination of defects",
 "Tests cover no invalid model at all and only a few defaults.",
 ["check_model.py","process_model.py"],
 [("check_model","check_model"),("defaults","process_model")],(),["get_maximization_inputs","process_model"])
prop("C11","Panel data end up in the right place",
 "Whatever the order of rows, the labels and types of individuals and periods, gaps in either, extra columns, unbalanced histories or superfluous periods of the dataset, the value used for a measurement, control or observed factor of an individual in a period is the one in that individual's row of that period, and missing if there is no such row. Individuals are ordered by identifier, periods are counted in their sorted order in the data from zero, and data beyond the last model period are ignored. The constant control is one and anchoring outcomes are used for each factor they anchor.",
 IC,"all long-format datasets that fit a model",
 "Tests use a sorted, balanced dataset and one small unbalanced example.",
 ["process_data.py"],[("pre_process_data","process_data"),("array generation","process_data")],(),["process_data","debug_loglike"])
prop("C12","Unusable data are rejected, incomplete controls are handled",
 "Data are rejected with an error that lists every problematic variable and period, exactly if a needed control, measurement, anchoring outcome or observed factor is absent, a control is completely missing in a period, a measurement has no variation in a period, or an observed factor has a missing value. If, in otherwise acceptable data, controls of an individual are missing in a period in which measurements are observed, all measurements of that individual and period are treated as missing, a warning names exactly these individuals and periods with their original labels, and nothing else is affected.",
 IC,"all datasets: all combinations of absent columns, missing values and constant columns",
 "Tests cover one rejection and one warning case.",
 ["process_data.py"],[("_check_data","process_data"),("_handle_controls_with_missings","process_data")],(),["process_data","get_maximization_inputs"])
prop("C13","Model editing functions make exactly the named change",
 "Removing or extracting factors, removing measurements or controls, reducing the number of periods and switching between linear and translog functions return a new specification that differs from the old one exactly by the named change and what it implies (normalizations and anchoring of removed parts disappear, periods without any remaining factor measurement list and surplus stages are dropped, empty sections are removed) and leave the input untouched. Edits can be chained in any order, and edits of unrelated parts commute.",
 IH,"all specifications and all sequences of edits",
 "Tests apply one edit each to one model.",
 ["utilities.py"],[("edit functions","utilities"),("deepcopy","utilities")],(),["utilities.*"])
prop("C14","Parameters follow model edits",
 "When parameters are passed along an edit, the returned parameters have exactly the template index of the edited model, every parameter present in the original keeps its value and bounds, and only parameters that are new get the documented fill value 0.05 and no bounds. Updating parameter values from other parameter sets changes exactly the values of common labels, later sets overriding earlier ones.",
 IH,"all specifications, parameters and sequences of edits",
 "Tests apply one edit each to one model and compare mostly index shapes.",
 ["utilities.py","params_index.py"],[("_reduce_params, _extend_params","utilities"),("update_parameter_values","utilities")],(),["utilities.*(params=...)"])
prop("C15","Simulated data follow the model equations",
 "In a simulated dataset without randomness (all standard deviations zero) the factors start at the initial means, move by the model's transition functions on the anchored scale using the observed factors of each period, and measurements equal loadings times factors of the same period plus control coefficients times that individual's and period's controls. A policy changes exactly the named factor at the end of the named period (any but the last) by its effect, before the next transition and in the reported states of that period. The output has one row per individual and period, the measurement and anchoring columns of the model, missing values where a variable is not measured in a period, and anchored states and state ranges that agree with the states.",
 IC,"all models, parameters, policies, datasets of controls and observed factors",
 "Tests check two helper functions and the effect of one policy in one model.",
 ["simulate_data.py","filtered_states.py","process_debug_data.py"],
 [("_simulate_dataset","simulate_data")],(),["simulate_dataset"])
prop("C16","Simulated randomness has the specified distribution",
 "The random parts of a simulated dataset have the distributions the parameters specify: initial factors come from the mixture with the given weights, means and covariances, shocks of each period and factor, measurement errors of each measurement and policy shocks are independent normals with exactly the given standard deviations, independent over individuals and periods. With equal seeds simulations are equal; parts whose standard deviation is zero are not random.",
 IC,"all models, parameters and seeds (statistically, by recovering every shock from large simulated datasets)",
 "Tests never look at dispersion.",
 ["simulate_data.py"],[("multivariate_normal draws","simulate_data")],(),["simulate_dataset"])
prop("C17","All objective functions agree with each other",
 "For every model, data and parameters the value is the sum of the individual contributions, a contribution is the sum over measurements of the soft-clipped log density contributions with the configured bounds and hardness (no clipping where disabled), and the debug likelihood returns the same value and contributions as the fast one. The gradient and the Jacobian (forward or reverse mode) are the derivative of that value with respect to the parameters in template order, are finite whenever the value is (also with missing data), and the combined function returns exactly the pair.",
 IC,"all models, data, parameters, clipping options, derivative modes",
 "Tests compare gradient and value against stored results of a few models and not to each other; clipping options are never varied in a model.",
 ["likelihood_function.py","clipping.py","kalman_filters.py"],
 [("soft_clipping","clipping"),("jit, grad, jacobian","likelihood_function.get_maximization_inputs")],(),["loglike","debug_loglike","gradient","jacobian","loglike_and_gradient"])
prop("C18","Debug and filtered-state tables are labelled correctly",
 "Every table of the debug output and of the filtered states has exactly one row per update (or period), individual and, where applicable, mixture component, and its period, measurement, id and mixture labels identify the numbers in the row. Filtered states are the mixture-weighted states after the last measurement update of the period, state ranges are their minimum and maximum over individuals per period, and the sum of all contributions of an individual is its unclipped log likelihood.",
 IC,"all models, numbers of mixtures, anchoring, datasets",
 "Tests look at filtered states of one model only.",
 ["process_debug_data.py","filtered_states.py"],[("process_debug_data","process_debug_data"),("get_filtered_states","filtered_states")],(),["debug_loglike","get_filtered_states"])
prop("C19","Calls do not interfere",
 "No public function changes the specification, data, parameters, states or options passed to it, and evaluating likelihood, gradient, debug, filtering, simulation, editing and plotting functions in any order and any number of times, also interleaved for several models, data and parameters, always gives the result the same call gives in isolation. Changes a caller makes later to a specification, dataset or parameter object it passed, or to a returned object, do not change what previously created functions return.",
 ["histories","inputs"],"all sequences of calls on several models and argument objects",
 "Tests make single calls in fresh state.",
 ["likelihood_function.py","utilities.py","simulate_data.py","filtered_states.py","process_data.py","process_model.py","correlation_heatmap.py","visualize_transition_equations.py"],
 [("deepcopy/copy","all modules"),("partials over processed arrays","likelihood_function.get_maximization_inputs")],(),["all public functions"])
prop("C20","Measurement and score correlations",
 "The correlation tables of measurements, quasi-scores and scores are the pairwise-complete Pearson correlations of exactly the variables they name: all measurements of the selected factors, or one score per factor (quasi-scores: the mean of its standardized measurements; scores: the mean of measurement minus intercept over loading, leaving out measurements with several nonzero loadings), plus the selected observed factors, in the selected periods, labelled with the period if there are several. The heatmap shows exactly these numbers, rounded as requested, under the labels of the table, with the upper triangle and diagonal hidden or shown and empty rows and columns trimmed as requested.",
 IC,"all models, data, parameters, selections of factors and periods",
 "Tests cover the helper functions on one toy example.",
 ["correlation_heatmap.py"],[("get_*_corr","correlation_heatmap"),("plot_correlation_heatmap","correlation_heatmap")],(),["get_measurements_corr","get_quasi_scores_corr","get_scores_corr","plot_correlation_heatmap"])
prop("C21","Transition plots show the transition functions",
 "A transition plot exists for every pair of a factor and a latent factor; its curve for a quantile is the output factor's transition function (parameters of the selected period) over an even grid of the input factor's range in that period, all other factors held at that quantile of their distribution in that period, and averaging over the distribution of the other factors is the mean of such curves over a draw of individuals without replacement. States are the anchored filtered states, ranges those of the states unless given. Periods without a following transition are refused. The combined figure places every curve in the row of its output and the column of its input factor.",
 IC,"all models, periods, quantiles, grids, states and ranges",
 "Tests only check that plotting does not fail.",
 ["visualize_transition_equations.py","utils_plotting.py"],[("get_transition_plots","visualize_transition_equations"),("combine_transition_plots","visualize_transition_equations")],(),["get_transition_plots","combine_transition_plots"])
prop("C22","Distribution plots show the selected factors",
 "Density plots of factors use exactly the states of the selected factors, period and scenarios (observed factors taken from the data of that period), one curve per scenario, univariate ones labelled with its name: univariate curves are the kernel density of those values, bivariate plots are the kernel density on an even grid over the range of both factors with the first factor on the x axis. Rows of data are matched to individuals and periods as everywhere else. Every selected factor and every ordered pair of selected factors has its plot, and the combined figure puts the plot of a pair at the row and column of its factors.",
 IC,"all models, selections, states and scenarios",
 "Tests only check that plotting does not fail.",
 ["visualize_factor_distributions.py","utils_plotting.py"],[("univariate_densities etc.","visualize_factor_distributions")],(),["univariate_densities","bivariate_density_contours","bivariate_density_surfaces","combine_distribution_plots"])
out=pathlib.Path(__file__).parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p)+"\n" for p in P))
for p in P:
    assert len(p["title"])<=80,p["id"]
