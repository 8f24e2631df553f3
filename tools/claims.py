"""what is claimed per property: (level, contracts, bounded part); used by tools/mkman.py for MANIFEST.json and DESIGN.md"""
D = "deductive: "
CLAIMS = {
    "C01": ("proof",
        "`kalman_filters.kalman_update` for every number of individuals, mixture elements and factors: posterior mean, Cholesky factor (U'U = conditional covariance), mixture weights (Bayes' rule), log-likelihood contribution (mixture of normals) of an observed measurement, with controls and loadings; QR by its contract.",
        "end-to-end updates against a dense covariance reference (float rounding, real QR)."),
    "C02": ("proof",
        "`kalman_update` with a missing measurement: the contribution is 0, states, Cholesky factors and weights of that individual and mixture element are returned unchanged, individuals do not influence each other; the same symbolic execution as C01 with the missingness as a free Boolean per individual.",
        "whole likelihoods with random missing patterns."),
    "C03": ("proof",
        "`calculate_sigma_scaling_factor_and_weights` (weights reproduce mean and covariance), `_calculate_sigma_points`, `transform_sigma_points`, `kalman_predict`: predicted mean and covariance are the unscented transform of anchored states, with shock variances added, for all sizes; the transition function is an uninterpreted function.",
        "predict step against an independent unscented transform, with the library's transition functions."),
    "C04": ("proof",
        "`_get_anchoring_scaling_factors`, `_get_anchoring_constants`, `transform_sigma_points`, `create_parsing_info`, `anchor_states_df`, `get_filtered_states`: scaling factors/constants are the loadings/intercepts of the anchoring updates of the factor and period, 1 and 0 otherwise; states are anchored before and un-anchored with the parameters of the next period after the transition; reported anchored states use the row's own period and factor and leave the rest of the table as it was.",
        "anchor/un-anchor round trips on models."),
    "C05": ("proof",
        "`likelihood_function.get_maximization_inputs`, `_log_likelihood_jax`, `_scan_body`, `_one_arg_*`: every update of the model is processed exactly once, in order, with the slice of data, parameters and state that belongs to it, exactly one predict between periods; callee contracts of parse_params, kalman_update, kalman_predict, soft_clipping.  The scan itself by its step contract.",
        "likelihood of random models against a loop in numpy; open finding D10 (period without updates)."),
    "C06": ("proof",
        "the same functions: `value` is the sum of `contributions`, `all_contributions`, scores and residuals come from the same pass; the debug and the fast variants call the core with the same arguments; returned numpy objects.",
        "all returned functions on random models and gradients against finite differences."),
    "C07": ("proof",
        "`clipping.soft_clipping`, `_log_likelihood_jax`'s use of it: formula, bounds, monotonicity, both sides, hardness, finiteness for every input incl. missing bounds.",
        "large values, derivative."),
    "C08": ("proof",
        "`parse_params` and its helpers: every element of the parsed arrays is the parameter with the label it stands for (initial states, Cholesky factors row-wise, mixture weights, loadings, controls, measurement and shock s.d.s).",
        "round trips label -> array on random models."),
    "C09": ("proof",
        "`params_index.*` (order, uniqueness and completeness of the index), `get_maximization_inputs` (parameters are matched by label).",
        "templates of random models, shuffled params."),
    "C10": ("proof",
        "`constraints.get_constraints` with all helpers: exactly the constraints implied by normalizations, mixtures, stages, constant factors, CES shares, anchoring options, for all sizes and option combinations; ids unique; constraint functions of transition functions.",
        "evaluated constraints on random models; open finding D12."),
    "C11": ("proof",
        "`_is_diagonal_entry` (strings as sequences of characters of any length: a diagonal label is recognised for all names, nothing else is for names without `-`), `add_bounds` (every row of any params table with unique labels, with or without existing bounds; copy, other columns), `_process_estimation_options` (distance, default, robust_bounds), `get_maximization_inputs` (template and distance that are passed).",
        "exhaustive labels of small alphabets plus random models; open finding D7 (names with `-`)."),
    "C12": ("proof",
        "`check_model.check_model`, `check_stagemap`, `_check_anchoring`, `_check_measurements`, `_check_normalizations` …: no report iff the specification is valid, every violation is reported, no exception on malformed parts, for all sizes.",
        "mutated specifications."),
    "C13": ("proof",
        "`process_model.get_dimensions`, `_get_labels`, `_process_anchoring`, `_process_normalizations`, options: processed parts are exactly those of the specification with documented defaults; the specification is not modified.",
        "random models, has_endogenous parts."),
    "C14": ("proof",
        "`process_model._get_update_info`: rows, order (period, then first mention, then anchoring), loading flags, purpose, for any number of factors, periods and shared measurements.",
        "random models."),
    "C15": ("proof",
        "`pre_process_data` (codes are the ranks of the distinct ids and periods, all combinations with the periods of the model, alignment by label, input not modified), `_add_copies_of_anchoring_outcome`, `_check_data` (a ValueError exactly if a control, measurement or observed factor is absent or unusable; all of them and nothing else are reported), `_generate_measurements_array`, `_generate_controls_array`, `_generate_observed_factor_array` (every cell is that of its individual, period and variable), `process_data` for both purposes (order of the steps and what each gets).",
        "arrays of random unbalanced, shuffled panels against an index-free reference; modification of inputs; simulation without measurements."),
    "C16": ("proof",
        "`get_period_measurements` (exactly the variables of the updates of the period), `_handle_controls_with_missings` (loop invariant: the rows collected before period t are the rows of earlier periods with a missing control and an observed measurement; exactly these rows become missing; warned iff there is one; the warning names their original id and period). Preconditions: controls are columns (`_check_data`), every period has an update (C14).",
        "random missing patterns against the rule."),
    "C17": ("proof",
        "all functions of `transition_functions` and their `params_*`: the value is the documented formula with each coefficient multiplied by the term its label names, for any number of states; log_ces shift/scale invariances; robust forms agree on their domain.",
        "floating point behaviour (overflow of log_ces)."),
    "C18": ("proof",
        "`process_model._get_transition_info`, `decorators.extract_params/jax_array_output/register_params` use: states in the order of the factors, each factor's own parameters, identity for constant factors, custom functions.",
        "dags-composed functions of random models."),
    "C19": ("proof",
        "`_get_shock`, `measurements_from_states`, `generate_start_states`, `_simulate_dataset` (loop invariant: states of period t are the transition of the states of t-1 after that period's policies, with the parameters, shocks, anchoring and observed factors of t-1; every block of the tables carries its period, individual and names), `simulate_dataset` (which data are used or required, callee arguments, tables of the result).  Random generators by contract: what is drawn is determined by the arguments (mean, covariance, size, weights) the code passes.",
        "zero-variance runs against a deterministic reference; stubbed generators record every draw (mean, covariance, size); alignment of ids, periods, columns."),
    "C20": ("proof",
        "`_create_post_update_states`, `_convert_state_array_to_df`, `_create_filtered_states` (rank lemma: the k-th kept update is the last measurement update of period k), `create_state_ranges`, `_process_residuals`, `_process_residual_sds`, `_process_all_contributions`, `process_debug_data`, `get_filtered_states`: labels and value of every cell of the tables for any number of updates, individuals, elements, factors; callee arguments.",
        "tables of random debug outputs against direct indexing; open none."),
    "C21": ("proof",
        "`utilities.remove_factors`, `extract_factors`, `remove_measurements`, `remove_controls`, `reduce_n_periods`, `switch_*` (with and without params) and `update_parameter_values`: the result is exactly the wanted specification, part by part, for every specification with any optional parts; the input is not modified; the params table holds the rows of the returned specification's index with unchanged values (fill values for extensions).  `update_parameter_values` with a list of tables is BOUNDED (0–3 tables).",
        "random models, end to end with process_model."),
    "C22": ("proof",
        "`get_measurements_corr`, `get_quasi_scores_corr`, `get_scores_corr` and the functions that select, order and process measurements, scores, masks and axis labels of the correlation heatmaps (`correlation_heatmap`), `plot_correlation_heatmap`: every correlation is that of the labelled pair of measurements/scores of the right factor and period, scores use the intercept and loading of the measurement, masks hide exactly the documented triangle/diagonal, callee arguments.  BOUNDED: merging of option dictionaries (every subset of a bounded key set, arbitrary values).",
        "random models and selections against direct computations; masks; `_get_annotations`."),
    "C23": ("proof",
        "`visualize_transition_equations`: prepared data (grid of the input factor, other factors at quantiles or averaged over individuals, parameters of the row's period, output factor in the factor's own position), dispatch over subplots, state ranges, parameters, observed factors; `visualize_factor_distributions`: `_process_data` for tables, dicts and lists with and without observed factors, factor selection, 1d/2d/3d densities' inputs, labels and callee arguments.  BOUNDED: option dictionaries, combined figures, factor orders, bivariate plots (3 factors, 2 scenarios).",
        "figures' data against direct evaluation of transition functions; options; layout; `_calculate_kde_for_3d` and 3d scenes only here."),
}
