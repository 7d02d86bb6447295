"""Calls of the functions returned by get_maximization_inputs (C11, C33)."""
from skillmodels.likelihood_function import get_maximization_inputs
from skillmodels.parse_params import create_parsing_info
from skillmodels.parse_params import parse_params
from spec import likelihood


def call_loglike(model_dict, data, jacobian_type, params):
    return get_maximization_inputs(model_dict, data, jacobian_type)["loglike"](params)


def ref_loglike(model_dict, data, jacobian_type, params):
    return likelihood.inputs(model_dict, data, jacobian_type)["loglike"](params)


def call_gradient(model_dict, data, jacobian_type, params):
    return get_maximization_inputs(model_dict, data, jacobian_type)["gradient"](params)


def ref_gradient(model_dict, data, jacobian_type, params):
    return likelihood.inputs(model_dict, data, jacobian_type)["gradient"](params)


def call_jacobian(model_dict, data, jacobian_type, params):
    return get_maximization_inputs(model_dict, data, jacobian_type)["jacobian"](params)


def ref_jacobian(model_dict, data, jacobian_type, params):
    return likelihood.inputs(model_dict, data, jacobian_type)["jacobian"](params)


def call_loglike_and_gradient(model_dict, data, jacobian_type, params):
    return get_maximization_inputs(model_dict, data, jacobian_type)["loglike_and_gradient"](params)


def ref_loglike_and_gradient(model_dict, data, jacobian_type, params):
    return likelihood.inputs(model_dict, data, jacobian_type)["loglike_and_gradient"](params)


def call_debug_loglike(model_dict, data, jacobian_type, params):
    return get_maximization_inputs(model_dict, data, jacobian_type)["debug_loglike"](params)


def ref_debug_loglike(model_dict, data, jacobian_type, params):
    return likelihood.inputs(model_dict, data, jacobian_type)["debug_loglike"](params)


def parse(params, params_index, update_info, labels, anchoring, dimensions, n_obs):
    info = create_parsing_info(params_index, update_info, labels, anchoring)
    return parse_params(params, info, dimensions, labels, n_obs)


def again_loglike(model_dict, data, jacobian_type, params, earlier):
    f = get_maximization_inputs(model_dict, data, jacobian_type)["loglike"]
    f(earlier)
    return f(params)


def again_gradient(model_dict, data, jacobian_type, params, earlier):
    f = get_maximization_inputs(model_dict, data, jacobian_type)["gradient"]
    f(earlier)
    return f(params)


def again_jacobian(model_dict, data, jacobian_type, params, earlier):
    f = get_maximization_inputs(model_dict, data, jacobian_type)["jacobian"]
    f(earlier)
    return f(params)


def again_loglike_and_gradient(model_dict, data, jacobian_type, params, earlier):
    f = get_maximization_inputs(model_dict, data, jacobian_type)["loglike_and_gradient"]
    f(earlier)
    return f(params)


def again_debug_loglike(model_dict, data, jacobian_type, params, earlier):
    f = get_maximization_inputs(model_dict, data, jacobian_type)["debug_loglike"]
    f(earlier)
    return f(params)
