"""Reference: the likelihood function and its outputs (C03, C04, C08, C10, C11)."""
import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd
from jax import lax
from spec import stub


def log_likelihood(params, parsing_info, measurements, controls, transition_info, sigma_scaling_factor, sigma_weights,
                   dimensions, labels, estimation_options, is_measurement_iteration, is_predict_iteration,
                   iteration_to_period, debug, observed_factors):
    start, start_chols, start_weights, par = stub.parse_params(params, parsing_info, dimensions, labels, measurements.shape[1])

    def step(carry, row):
        states, chols, weights = carry["states"], carry["upper_chols"], carry["log_mixture_weights"]
        t = row["period"]
        post_states, post_chols, post_weights, loglike, info = stub.kalman_update(
            states, chols, row["loadings"], row["control_params"], row["meas_sds"], row["measurements"], controls[t], weights, debug)
        # anchoring rows inform likelihood and weights only
        post_states = post_states if row["is_measurement_iteration"] else states
        post_chols = post_chols if row["is_measurement_iteration"] else chols
        two = jnp.array([t, t + 1])
        pred_states, pred_chols = stub.kalman_predict(
            post_states, post_chols, sigma_scaling_factor, sigma_weights, transition_info,
            {f: arr[t] for f, arr in par["transition"].items()}, par["shock_sds"][t],
            par["anchoring_scaling_factors"][two], par["anchoring_constants"][two], observed_factors[t])
        predict = row["is_predict_iteration"]
        carry = {
            "states": pred_states if predict else post_states,
            "upper_chols": pred_chols if predict else post_chols,
            "log_mixture_weights": post_weights,
        }
        return carry, {"loglikes": loglike, **info, "states": post_states}

    rows = {
        "period": iteration_to_period, "loadings": par["loadings"], "control_params": par["controls"],
        "meas_sds": par["meas_sds"], "measurements": measurements,
        "is_measurement_iteration": is_measurement_iteration, "is_predict_iteration": is_predict_iteration,
    }
    _, out = lax.scan(step, {"states": start, "upper_chols": start_chols, "log_mixture_weights": start_weights}, rows)
    o = estimation_options
    clipped = stub.soft_clipping(out["loglikes"], o["clipping_lower_bound"], o["clipping_upper_bound"],
                                 o["clipping_lower_hardness"], o["clipping_upper_hardness"])
    value = clipped.sum()
    aux = {"value": value, "contributions": clipped.sum(axis=0)}
    if debug:
        aux["all_contributions"] = out["loglikes"]
        aux["residuals"] = out["residuals"]
        aux["residual_sds"] = out["residual_sds"]
        aux["initial_states"] = start
        aux["initial_log_mixture_weights"] = start_weights
        aux["filtered_states"] = out["states"]
        aux["log_mixture_weights"] = out["log_mixture_weights"]
    return value, aux


def to_numpy(obj):
    if isinstance(obj, dict):
        return {k: (v if np.isscalar(v) else np.array(v)) for k, v in obj.items()}
    if np.isscalar(obj):
        return obj
    return np.array(obj)


def params_vector(params, target_index):
    if set(params.index) != set(target_index):
        raise ValueError("additional or missing entries")
    return jnp.array(params.reindex(target_index)["value"].to_numpy())


def inputs(model_dict, data, jacobian_type="jacrev"):
    m = stub.process_model(model_dict)
    labels, info, dims = m["labels"], m["update_info"], m["dimensions"]
    index = stub.get_params_index(info, labels, dims, m["transition_info"])
    parsing = stub.create_parsing_info(index, info, labels, m["anchoring"])
    meas, controls, observed = stub.process_data(data, labels, info, m["anchoring"])
    scale, weights = stub.sigma_weights(dims["n_latent_factors"], m["estimation_options"]["sigma_points_scale"])
    is_meas = (info["purpose"] == "measurement").to_numpy()
    per = pd.Series(info.index.get_level_values("period").to_numpy())
    is_pred = (per - per.shift(-1) == -1).to_numpy()
    it_period = per.replace(labels["periods"][-1], -1).to_numpy()

    def ll(debug):
        def f(p):
            return log_likelihood(p, parsing, meas, controls, m["transition_info"], scale, weights, dims, labels,
                                  m["estimation_options"], is_meas, is_pred, it_period, debug, observed)
        return f

    plain, verbose = ll(False), ll(True)
    grad = jax.grad(plain, has_aux=True)
    jac = getattr(jax, jacobian_type)(plain, has_aux=True)

    def loglike(params):
        out = to_numpy(plain(params_vector(params, index))[1])
        out["value"] = float(out["value"])
        return out

    def debug_loglike(params):
        raw = verbose(params_vector(params, index))[1]
        if raw["contributions"].dtype != "float64":
            raise TypeError("not 64 bit")
        out = to_numpy(raw)
        out["value"] = float(out["value"])
        return stub.process_debug_data(out, m)

    def gradient(params):
        return to_numpy(grad(params_vector(params, index))[0])

    def jacobian(params):
        return to_numpy(jac(params_vector(params, index))[0])

    def loglike_and_gradient(params):
        g, aux = grad(params_vector(params, index))
        crit = to_numpy(aux)
        crit["value"] = float(crit["value"])
        return crit, to_numpy(g)

    template = stub.add_bounds(pd.DataFrame(columns=["value"], index=index), m["estimation_options"]["bounds_distance"])
    return {
        "loglike": loglike, "debug_loglike": debug_loglike, "gradient": gradient, "jacobian": jacobian,
        "loglike_and_gradient": loglike_and_gradient,
        "constraints": stub.get_constraints(dims, labels, m["anchoring"], info, m["normalizations"]),
        "params_template": template,
    }
