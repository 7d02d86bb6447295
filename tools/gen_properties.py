"""Writes /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
S = "skillmodels/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files],
                    "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None}})

prop("C01", "A missing measurement changes nothing for that individual",
 "When an individual's measurement is missing (not finite), incorporating that measurement leaves the individual's state means, covariance factors and log mixture weights exactly as before, and the individual's log likelihood contribution from it is exactly 0. The missing value and the individual's controls in that period do not reach any other individual's result, nor any value used for derivatives, and the debug residuals are NaN exactly there.",
 ["inputs", "programs"], "all measurement patterns, numbers of mixtures, controls and states",
 "one test checks one array with one missing value and only states/covariances; the weights, the likelihood and multi-mixture case are never inspected",
 ["kalman_filters.py"], [("where on finiteness mask, safe fill-ins", "kalman_filters.py:kalman_update")])
prop("C02", "A measurement update is the square-root Kalman update",
 "For a non-missing measurement with linear measurement equation, the residual is measurement minus (states times loadings plus controls times control parameters); the new mean is the old one plus gain times residual, with gain and new covariance factor from the QR decomposition of the augmented array of measurement standard deviation, covariance factor times loading and covariance factor. The log likelihood per mixture element is the normal log density of the residual with the residual standard deviation; with several elements the contribution is the log-sum-exp of weight plus density and the new log weights are normalized by it, with one element the weight is unchanged.",
 ["inputs"], "all states, covariance factors, loadings, control parameters, mixture counts",
 "tests compare the single-mixture update with filterpy on random inputs; mixture weight update and likelihood formula with several mixtures are not compared with anything",
 ["kalman_filters.py"], [("QR array construction", "kalman_filters.py:kalman_update")])
prop("C03", "Anchoring outcomes inform the likelihood but not the factor moments",
 "Processing an anchoring outcome adds its likelihood contribution and updates the mixture weights, but leaves every individual's state means and covariance factors as they were; every ordinary measurement does update them. Which of the two happens is decided solely by the declared purpose of the row in the update list.",
 ["inputs", "configurations"], "all models with or without anchoring, any position of the anchoring rows",
 "no test inspects states after an anchoring row",
 ["likelihood_function.py"], [("conditional update", "likelihood_function.py:_scan_body")])
prop("C04", "Prediction happens exactly once between periods with that period's inputs",
 "The filter walks the update list in order; each row uses its own measurement, loadings, control parameters and measurement standard deviation and the controls of its period; a prediction step follows the last row of every period that is directly followed by the next period, and never otherwise. The prediction out of period t uses the transition parameters, shock standard deviations and observed factors of period t and the anchoring scaling factors and constants of periods t (before) and t+1 (after), and the states reported for a row are those after its update and before prediction.",
 ["inputs", "configurations"], "all update lists, numbers of periods, and stage structures",
 "the tests compare total likelihoods of a few models with stored numbers where all periods share parameters, so that most off-by-one errors in period alignment cancel",
 ["likelihood_function.py"], [("predict mask and period mapping", "likelihood_function.py:get_maximization_inputs"), ("scan body", "likelihood_function.py:_scan_body")])
prop("C05", "Sigma points and weights reproduce mean and covariance",
 "With n latent factors and scale parameter kappa there are 2n+1 sigma points: the mean, and the mean plus and minus each row of the covariance factor times sqrt(n+kappa); weights are kappa/(n+kappa) for the first and 1/(2(n+kappa)) for all others, so they sum to one and weighted moments match. Observed factors are appended unchanged: all sigma points and mixture elements of an individual carry exactly that individual's observed factor values.",
 ["inputs", "configurations"], "all state arrays, numbers of mixtures, factors and observed factors",
 "the tests check one mixture layout for latent factors and never combine observed factors with several mixture elements",
 ["kalman_filters.py"], [("sigma point construction", "kalman_filters.py:_calculate_sigma_points"), ("weights", "kalman_filters.py:calculate_sigma_scaling_factor_and_weights")])
prop("C06", "A prediction is the square-root unscented transform",
 "The predicted mean is the weighted sum of the transformed sigma points and the predicted covariance factor is the upper triangular QR factor of the stack of square-root-weighted deviations from that mean and the diagonal matrix of shock standard deviations, each taken per individual and mixture element.",
 ["inputs"], "all states, covariance factors, weights, shock standard deviations and transition functions",
 "tests compare a linear transition without shocks varying across mixtures; nonlinear transitions and several mixtures are only covered through stored totals",
 ["kalman_filters.py"], [("unscented predict", "kalman_filters.py:kalman_predict")])
prop("C07", "States are anchored before and un-anchored after a transition",
 "Transition functions always see anchored states: latent and observed factors are multiplied by the scaling factors and shifted by the constants of the current period, and the result is shifted back by the constants and divided by the scaling factors of the next period, factor by factor. Anchored output states are constant plus state times scaling factor of the row's own period and factor, with all other columns and their order unchanged.",
 ["inputs", "configurations"], "all scaling factors, constants, periods and factor orders",
 "tests use a single anchored factor, equal scaling or zero constants",
 ["kalman_filters.py", "filtered_states.py"], [("transform_sigma_points", "kalman_filters.py:transform_sigma_points"), ("anchor_states_df", "filtered_states.py:anchor_states_df")])
prop("C08", "All likelihood outputs come from one and the same function",
 "The likelihood value is the sum over update rows and individuals of the (clipped) log likelihood contributions, and the reported contributions are their sum per individual. Value, gradient, Jacobian, combined value-and-gradient and debug output are computed from the identical function, data and parameter vector, with value a plain float and the gradient with respect to the full parameter vector in parameter order.",
 ["inputs", "programs"], "all models, data and parameter vectors",
 "tests check value of some of the outputs for some models; consistency among outputs is not tested",
 ["likelihood_function.py"], [("partials of one function", "likelihood_function.py:get_maximization_inputs"), ("aggregation", "likelihood_function.py:_log_likelihood_jax")])
prop("C09", "Soft clipping is the two-sided log-sum-exp clip",
 "Soft clipping maps each element independently and keeps the shape: a lower bound replaces x by logsumexp(h*x, h*lower)/h, an upper bound by -logsumexp(-h*x, -h*upper)/h with the hardness of that side, lower before upper; a bound that is None has no effect. The likelihood clips its contributions with the four clipping options of the model, each in its own role.",
 ["inputs", "configurations"], "all arrays, bounds and hardness values",
 "only one-sided bounds with equal hardness are tested; the upper side is never used by the model tests",
 ["clipping.py", "likelihood_function.py"], [("soft_clipping", "clipping.py:soft_clipping")])
prop("C10", "Debug mode observes but never changes the likelihood",
 "Asking for debug information never changes value, contributions, state recursion or mixture weights; it only adds outputs. The reported initial states and weights are those parsed from the parameters, per-row contributions are the unclipped contributions, and per-row states, residuals, residual standard deviations and weights are those of that row.",
 ["inputs", "programs"], "all models and parameters",
 "tests compare debug output only for existence",
 ["likelihood_function.py", "kalman_filters.py"], [("debug flag", "likelihood_function.py:_log_likelihood_jax")])
prop("C11", "Parameters are matched by label; wrong labels are rejected",
 "The result of every likelihood output depends on the parameter table only through the value stored under each label, not through row order or extra columns. A table with missing or additional labels is rejected with a ValueError that names them, in the likelihood functions and wherever else a parameter table is turned into model quantities parameters are selected by label in the model's own order.",
 ["inputs"], "all orderings and supersets/subsets of the parameter index",
 "tests pass tables mostly in template order",
 ["likelihood_function.py", "filtered_states.py", "simulate_data.py", "visualize_transition_equations.py"], [("label matching", "likelihood_function.py:_get_jnp_params_vec")])
prop("C12", "Parameter labels and parameter parsing agree for every quantity",
 "Every model quantity (initial means, initial covariance factors, mixture weights, control parameters, loadings, measurement and shock standard deviations, transition parameters, anchoring scaling factors and constants) is filled from exactly the parameters labelled for it: the entry for a given period, measurement, factor, control or mixture element is the parameter carrying that label. Loadings not declared in the model are 0, unanchored factors have scaling 1 and constant 0, observed factors have scaling 1 and constant 0.",
 ["configurations", "inputs"], "all model dimensions, factor orders and anchoring specifications",
 "the parse tests use one or two fixed models and compare whole arrays with stored numbers; anchored factor order, several anchored factors and several mixtures are not varied",
 ["params_index.py", "parse_params.py"], [("index construction", "params_index.py:get_params_index"), ("parsing", "parse_params.py:parse_params")])
prop("C13", "Transition parameter names describe what each parameter does",
 "For each built-in transition function the list of parameter names is aligned with the parameter vector: the parameter named after a factor multiplies that factor, a squared name its square, a product name that product, and constant, phi, sigma and tfp play their documented roles; names and consumption positions have equal length and observed factors enter like latent ones. The functions compute their documented formulas.",
 ["inputs", "configurations"], "all numbers and orders of factors and all parameter values",
 "formulas are tested with few factors at one parameter vector, and names are tested only as literal lists for some functions",
 ["transition_functions.py"], [("function and params_ pairs", "transition_functions.py")])
prop("C14", "Each factor's transition uses its own function and parameters",
 "In a prediction every latent factor's next value is computed by that factor's declared transition function from that factor's own parameters; built-in functions see the vector of all factors in label order, custom functions see the factors they name and a mapping from their registered parameter names to values. The result stacks the next states in latent factor order, and the per-factor functions equal the corresponding entries; custom functions lacking a name or registered parameters are rejected.",
 ["configurations", "programs"], "all mixes of built-in, constant and custom transition functions",
 "tests use one model with one custom function and compare a few outputs",
 ["process_model.py", "decorators.py"], [("transition info", "process_model.py:_get_transition_info"), ("extract_params", "decorators.py:extract_params")])
prop("C15", "Normalizations and anchoring restrictions become fixed constraints",
 "Every user normalization of a loading or intercept yields exactly one fixed constraint entry at that parameter's label and period with the user's value, and nothing else is fixed by normalizations. For anchoring, constants, control coefficients and loadings of the anchoring equations are fixed to 0, 0 and 1 in every period unless the corresponding free option is set, and empty constraints are dropped.",
 ["configurations"], "all normalization and anchoring specifications",
 "tests check one example for each kind",
 ["constraints.py"], [("constraint builders", "constraints.py:get_constraints")])
prop("C16", "Stages tie parameters of their periods together",
 "For every development stage with at least two periods, transition parameters and shock standard deviations of exactly the periods mapped to that stage are constrained to be pairwise equal; stages with one period give no constraint.",
 ["configurations"], "all stage maps", "one stage map is tested", ["constraints.py"], [("stage constraints", "constraints.py:_get_stage_constraints")])
prop("C17", "Mixture, ordering, constant-factor and transition constraints are complete",
 "The mixture weight is fixed to 1 with one element and constrained to be probabilities otherwise; with several elements the initial means of the first factor are increasing over all elements; the shock standard deviation of every factor with constant transition is fixed to 0 in every period but the last; and every transition function that declares a constraint gets it for every factor using it and every period but the last. All constraints are collected, each with a unique running id, and address labels that exist in the parameter table.",
 ["configurations"], "all models", "each builder is tested on one example; the collection is tested only through one regression file",
 ["constraints.py", "transition_functions.py"], [("collection", "constraints.py:get_constraints")])
prop("C18", "Bounds protect every standard deviation and Cholesky diagonal, and nothing else",
 "Lower bounds of exactly the measurement standard deviations, the shock standard deviations and the diagonal elements of the initial Cholesky factors are set to the bounds distance, all other lower bounds stay unbounded or as given, and values and row order are unchanged. With robust bounds switched off the distance is 0.",
 ["inputs", "configurations"], "all parameter indices and factor names (including names containing '-')",
 "tests check one table", ["constraints.py", "process_model.py"], [("add_bounds", "constraints.py:add_bounds")])
prop("C19", "Dimensions, labels and option defaults follow the specification",
 "Numbers of factors, periods (maximum over factors), controls (plus the constant), mixtures, the lists of labels in specification order (latent factors first, then observed; constant first among controls), stage map (default one stage per transition) and stages, and all option values are those given by the user, with the documented default exactly for those the user omits.",
 ["configurations"], "all model specifications", "tests check one model; most defaults are never varied",
 ["process_model.py"], [("process_model", "process_model.py:process_model")])
prop("C20", "The update list contains each declared measurement exactly once, in order",
 "The update list has one row for each period and variable declared for any factor in that period, in order of period, factor and declaration, marking exactly the factors it measures; after each period's measurements follows one anchoring row per anchored factor (in every period). Purpose separates measurements from anchoring rows.",
 ["configurations"], "all measurement systems, including shared measurements and periods without measurements",
 "one model is compared with one stored table", ["process_model.py"], [("update info", "process_model.py:_get_update_info")])
prop("C21", "Invalid model specifications are rejected with a report",
 "A specification with a stage map of wrong length, wrong values or jumps, non-boolean anchoring switches, non-dict or non-name anchoring outcomes, malformed measurements, malformed normalizations, normalizations of undeclared variables, or loadings normalized to zero is always rejected with a ValueError listing all problems, and a valid one never is.",
 ["configurations"], "all model specifications, for every factor, period and normalization type",
 "check_model has no tests except through a single invalid normalization", ["check_model.py"], [("check_model", "check_model.py:check_model")])
prop("C22", "Data are balanced and aligned by individual and period",
 "Any panel is brought to the balanced layout with individuals and periods in sorted order, absent rows filled with NaN, and original ids kept; every entry of the measurement, control and observed-factor arrays is the value of exactly that variable, period and individual. Anchoring outcomes are copied under the name used in the update list and the constant control is 1.",
 ["inputs"], "all unbalanced, unsorted or gappy panels and all variable orders",
 "tests use small tidy frames", ["process_data.py"], [("pre_process_data", "process_data.py:pre_process_data"), ("array generation", "process_data.py")])
prop("C23", "Unusable data are rejected with a complete report",
 "For estimation, a declared measurement that is absent or does not vary in its period is reported; a control that is absent or entirely missing in a period and an observed factor that is absent or partly missing are reported for estimation and simulation; all problems are collected over all periods into one ValueError naming period and variable, and data without problems are accepted.",
 ["inputs"], "all data sets and models", "no test triggers the reports", ["process_data.py"], [("_check_data", "process_data.py:_check_data")])
prop("C24", "Missing controls blank the affected individual-periods only",
 "If an individual has at least one missing control and at least one observed measurement in a period, all its measurements of that period are treated as missing and a warning names the original id and period; all other rows and the observed factors keep their values. Without such rows data are unchanged and no warning is issued.",
 ["inputs"], "all patterns of missing controls and measurements", "one frame is tested", ["process_data.py"], [("_handle_controls_with_missings", "process_data.py:_handle_controls_with_missings")])
prop("C25", "Simulated states follow the model's initial distribution and law of motion",
 "Initial states are drawn from the mixture of normals implied by weights, initial means and the covariance (product of the Cholesky factors); states of period t+1 are the model transition of the period-t states (including policy shocks of that period and factor, and observed factors) with period-t parameters and period t, t+1 anchoring, plus normal shocks with the period-t shock standard deviations. A policy shifts exactly its factor in exactly its period, deterministically if its standard deviation is 0, and negative standard deviations are rejected.",
 ["inputs", "configurations"], "all models, parameters and policies", "tests check moments of one single-mixture draw and shapes",
 ["simulate_data.py"], [("_simulate_dataset", "simulate_data.py:_simulate_dataset")])
prop("C26", "Simulated data obey the measurement equation and are labelled correctly",
 "Each simulated measurement is states times loadings plus controls times control parameters plus independent normal noise with that measurement's standard deviation, all of its own period; outcome tables carry the right period and individual id for measurements and latent states and are sorted by id and period. Inputs without required data or number of observations are rejected, and a conflicting number of observations triggers a warning and is ignored.",
 ["inputs", "configurations"], "all models, parameters and data", "shapes and one moment are tested",
 ["simulate_data.py"], [("measurements_from_states", "simulate_data.py:measurements_from_states")])
prop("C27", "Debug tables attribute each number to its individual, mixture, period, row",
 "In the tables of post-update states, residuals, residual standard deviations and contributions every value is labelled with the period and measurement of its update row, and with the individual and mixture element it belongs to.",
 ["inputs", "configurations"], "all numbers of individuals, mixtures, periods and measurements", "tests only check that debug output exists",
 ["process_debug_data.py"], [("process_debug_data", "process_debug_data.py:process_debug_data")])
prop("C28", "Filtered states aggregate the mixture after the last measurement of a period",
 "Filtered states are, for each period, individual and factor, the mixture-weight-weighted sum of state means after the last ordinary measurement of the period; ranges are the minimum and maximum per period and factor. The returned anchored and unanchored tables each carry ranges computed from themselves.",
 ["inputs", "configurations"], "all models, including anchoring and several mixtures", "tests check approximate reproduction of one simulation",
 ["process_debug_data.py", "filtered_states.py"], [("filtered states", "process_debug_data.py:_create_filtered_states"), ("get_filtered_states", "filtered_states.py:get_filtered_states")])
prop("C29", "Model reduction helpers remove exactly what is asked",
 "Removing or extracting factors, measurements, controls or periods, and switching between linear and translog, changes exactly the named parts of the specification, consistently in measurements, normalizations, anchoring outcomes, stage map and number of periods, and keeps everything else. Removing a normalized measurement triggers a warning, and string arguments mean a single name.",
 ["configurations"], "all model specifications and name sets", "tests check single examples",
 ["utilities.py"], [("utilities", "utilities.py")])
prop("C30", "Parameter tables follow the transformed model",
 "If parameters are passed to a model transformation, the result contains exactly the parameters of the new model in its order; existing ones keep their values, new ones get the default value and infinite bounds, and merging other parameter tables overwrites exactly the labels they contain, later ones winning.",
 ["inputs", "configurations"], "all models and parameter tables", "tests check single examples", ["utilities.py"], [("_reduce_params, _extend_params", "utilities.py")])
prop("C31", "User inputs are never modified",
 "No public function changes the model specification, parameter table, data, plot dictionaries, keyword dictionaries or other objects passed by the user.",
 ["inputs", "programs"], "all public entry points and all inputs", "tests rarely compare inputs before and after",
 ["utilities.py", "process_data.py", "visualize_factor_distributions.py", "visualize_transition_equations.py", "likelihood_function.py"], [("copies at the boundary", "*")])
prop("C32", "Results are deterministic functions of the inputs",
 "Apart from the documented random draws of simulation, policy shocks and averaged transition plots, results, including the order of returned entries, depend on nothing but the arguments: no random numbers, clock, environment, files, mutable global state, caches keyed on identity or hash-order dependent iteration.",
 ["programs", "histories"], "all call histories and interpreter hash seeds", "a test run has one history and mostly order-insensitive comparisons",
 ["visualize_factor_distributions.py"], [("whole package", "*")])
prop("C33", "Everything is computed in double precision",
 "Importing the package enables 64-bit floats before any computation and no numerical code reduces precision; the debug likelihood rejects outputs that are not 64-bit.",
 ["programs"], "all import orders and computations", "tests import the package one way",
 ["__init__.py", "likelihood_function.py"], [("jax_enable_x64", "likelihood_function.py")])
prop("C34", "Errors surface and warnings are filtered narrowly",
 "Exceptions are only suppressed where a documented fallback is produced (absent parameter categories become empty, missing panel plots become empty, failing density plots warn), other exceptions propagate, and warning filters are restored and limited to the one known message.",
 ["programs", "inputs"], "all code paths", "tests exercise only the non-error paths",
 ["parse_params.py", "constraints.py", "visualize_factor_distributions.py"], [("try/except and catch_warnings", "*")])
prop("C35", "Transition plots show the production function they claim to",
 "For every pair of output (latent) and input (latent or observed) factor, the plotted line is the output factor's own transition with the parameters of the chosen period, evaluated over the input factor's range in that period with all other factors held at the requested quantiles (or averaged over draws), stored and labelled under (input, output). Combined plots place each pair in the row of its output and the column of its input with mapped titles; a period that is the last one or later is rejected.",
 ["inputs", "configurations"], "all models, periods and options", "tests only check that plotting runs",
 ["visualize_transition_equations.py"], [("get_transition_plots", "visualize_transition_equations.py:get_transition_plots")])
prop("C36", "Distribution plots show the right data in the right panel",
 "Univariate and bivariate densities are computed from exactly the requested period's states (and observed factors) of each scenario, stored under the factor or ordered factor pair they show, with matching axes. Combined plots put marginals on the diagonal, contours below and surfaces above it, each in the panel of its factor pair.",
 ["inputs", "configurations"], "all factor sets, orders and scenarios", "tests only check that plotting runs",
 ["visualize_factor_distributions.py"], [("density plots", "visualize_factor_distributions.py")])
prop("C37", "Correlation tables use exactly the requested measurements, factors, periods",
 "Measurement, quasi-score and score correlations are computed from data of exactly the requested periods and the non-anchoring measurements of the requested factors (or observed factors), columns suffixed by period when several are requested; quasi scores average standardized measurements, scores average (measurement - intercept)/loading over measurements of one factor only. Heatmap masking keeps the lower triangle and the requested diagonal and upper triangle, trimming only drops fully masked or empty rows and columns.",
 ["inputs", "configurations"], "all factor and period selections", "tests check single examples; score correlations are untested",
 ["correlation_heatmap.py"], [("correlation data", "correlation_heatmap.py")])
prop("C38", "User keyword options override defaults and only the options named",
 "In every plotting function, values in user-supplied keyword dictionaries take precedence over defaults, options passed as arguments reach the setting they are named after, and defaults apply otherwise.",
 ["inputs", "configurations"], "all keyword dictionaries and option values", "tests only check that plotting runs with few options",
 ["utils_plotting.py", "correlation_heatmap.py", "visualize_factor_distributions.py", "visualize_transition_equations.py"], [("keyword merging", "utils_plotting.py:get_layout_kwargs")])
prop("C39", "The likelihood is numerically accurate and finite",
 "At every admissible parameter vector the log likelihood equals the exact likelihood of the linear model up to floating point error, and value and gradient are finite.",
 ["inputs"], "all parameters and data", "finite samples of parameters and data", ["likelihood_function.py", "kalman_filters.py"], [("square-root filters", "kalman_filters.py")])
prop("C40", "Estimates are identified and simulated moments converge",
 "Maximizing the likelihood on data simulated from the model recovers the parameters as the sample grows.",
 ["inputs"], "all identified models", "needs asymptotics", ["likelihood_function.py", "simulate_data.py"], [("whole estimation pipeline", "*")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
