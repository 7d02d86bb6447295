"""Signatures of stable functions, uninterpreted (their own obligations are elsewhere)."""
import U


def kalman_update(states, upper_chols, loadings, control_params, meas_sd, measurements, controls, log_mixture_weights, debug):
    args = (states, upper_chols, loadings, control_params, meas_sd, measurements, controls, log_mixture_weights)
    info = {}
    if debug:
        info = {"residuals": U.ku_residuals(*args), "residual_sds": U.ku_residual_sds(*args), "log_mixture_weights": U.ku_weights(*args)}
    return U.ku_states(*args), U.ku_chols(*args), U.ku_weights(*args), U.ku_loglikes(*args), info


def kalman_predict(states, upper_chols, sigma_scaling_factor, sigma_weights, transition_info, trans_coeffs, shock_sds,
                   anchoring_scaling_factors, anchoring_constants, observed_factors):
    args = (states, upper_chols, sigma_scaling_factor, sigma_weights, transition_info, trans_coeffs, shock_sds,
            anchoring_scaling_factors, anchoring_constants, observed_factors)
    return U.kp_states(*args), U.kp_chols(*args)


def soft_clipping(arr, lower=None, upper=None, lower_hardness=1, upper_hardness=1):
    return U.soft_clipping(arr, lower, upper, lower_hardness, upper_hardness)


def parse_params(params, parsing_info, dimensions, labels, n_obs):
    args = (params, parsing_info, dimensions, labels, n_obs)
    pardict = {
        "controls": U.pp_controls(*args), "loadings": U.pp_loadings(*args), "meas_sds": U.pp_meas_sds(*args),
        "shock_sds": U.pp_shock_sds(*args),
        "transition": {f: U.pp_transition(f, *args) for f in labels["latent_factors"]},
        "anchoring_scaling_factors": U.pp_scaling(*args), "anchoring_constants": U.pp_constants(*args),
    }
    return U.pp_states(*args), U.pp_chols(*args), U.pp_weights(*args), pardict


def process_model(model_dict):
    return {
        "dimensions": U.pm_dimensions(model_dict), "labels": U.pm_labels(model_dict), "anchoring": U.pm_anchoring(model_dict),
        "estimation_options": U.pm_options(model_dict), "transition_info": U.pm_transition_info(model_dict),
        "update_info": U.pm_update_info(model_dict), "normalizations": U.pm_normalizations(model_dict),
    }


def get_params_index(update_info, labels, dimensions, transition_info):
    return U.params_index(update_info, labels, dimensions, transition_info)


def create_parsing_info(params_index, update_info, labels, anchoring):
    return U.parsing_info(params_index, update_info, labels, anchoring)


def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
    a = (df, labels, update_info, anchoring_info, purpose)
    if purpose == "estimation":
        return U.pd_measurements(*a), U.pd_controls(*a), U.pd_observed(*a)
    return U.pd_controls(*a), U.pd_observed(*a)


def process_debug_data(debug_data, model):
    return U.process_debug_data(debug_data, model)


def sigma_weights(n_states, kappa=2):
    return U.sigma_scaling(n_states, kappa), U.sigma_weights(n_states, kappa)


def get_constraints(dimensions, labels, anchoring_info, update_info, normalizations):
    return U.constraints(dimensions, labels, anchoring_info, update_info, normalizations)


def add_bounds(params_df, bounds_distance=0.0):
    return U.add_bounds(params_df, bounds_distance)


def anchor_states_df(states_df, model_dict, params):
    return U.anchor_states_df(states_df, model_dict, params)


def create_state_ranges(filtered_states, factors):
    return U.state_ranges(filtered_states, factors)


def transform_sigma_points(sigma_points, transition_info, trans_coeffs, anchoring_scaling_factors, anchoring_constants):
    return U.transformed(sigma_points, transition_info, trans_coeffs, anchoring_scaling_factors, anchoring_constants)


def measurements_from_states(states, controls, loadings, control_params, sds):
    return U.measurements(states, controls, loadings, control_params, sds)


def get_maximization_inputs(model_dict, data, jacobian_type="dense"):
    return U.maximization_inputs(model_dict, data)


def pre_process_data(df, periods):
    return U.balanced(df, periods)


def get_filtered_states(model_dict, data, params):
    a = (model_dict, data, params)
    return {"anchored_states": {"states": U.fs_anchored(*a), "state_ranges": U.fs_anchored_ranges(*a)},
            "unanchored_states": {"states": U.fs_unanchored(*a), "state_ranges": U.fs_unanchored_ranges(*a)}}


def remove_factors(factors, model_dict, params=None):
    return U.removed(factors, model_dict, params)


def reduce_n_periods(model_dict, new_n_periods, params=None):
    return U.shortened(model_dict, new_n_periods, params)
