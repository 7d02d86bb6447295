"""Reference: simulation (C25, C26)."""
import warnings

import jax.numpy as jnp
import numpy as np
import pandas as pd
from spec import stub


def simulate(model_dict, params, n_obs, data, policies):
    if data is None and n_obs is None:
        raise ValueError("n_obs or data")
    model = stub.process_model(model_dict)
    labels, dims = model["labels"], model["dimensions"]
    if labels["observed_factors"] and data is None:
        raise ValueError("observed factors need data")
    if labels["controls"] != ["constant"] and data is None:
        raise ValueError("controls need data")
    if data is None:
        controls = jnp.ones((n_obs, 1))
        observed = jnp.zeros((dims["n_periods"], n_obs, 0))
    else:
        controls, observed = stub.process_data(data, labels, model["update_info"], model["anchoring"], "simulation")
        if n_obs is not None and controls.shape[1] != n_obs:
            warnings.warn("conflicting numbers of observations")
        n_obs = controls.shape[1]
    index = stub.get_params_index(model["update_info"], labels, dims, model["transition_info"])
    params = params.loc[index]
    info = stub.create_parsing_info(params.index, model["update_info"], labels, model["anchoring"])
    means, chols, log_weights, par = stub.parse_params(jnp.array(params["value"].to_numpy()), info, dims, labels, n_obs)
    observed_data, latent = datasets(means, chols, log_weights, par, model, n_obs, controls, observed, policies)
    anchored = stub.anchor_states_df(latent, model_dict, params)
    lf = labels["latent_factors"]
    return {
        "unanchored_states": {"states": latent, "state_ranges": stub.create_state_ranges(latent, lf)},
        "anchored_states": {"states": anchored, "state_ranges": stub.create_state_ranges(anchored, lf)},
        "measurements": observed_data,
    }


def datasets(means, chols, log_weights, par, model, n_obs, controls, observed, policies):
    labels, dims = model["labels"], model["dimensions"]
    lf, n_states, n_periods = labels["latent_factors"], dims["n_latent_factors"], dims["n_periods"]
    rows = model["update_info"].index
    components = [
        {"mean": means[0][m], "cov": chols[0][m].T @ chols[0][m]} for m in range(dims["n_mixtures"])
    ]
    states = np.zeros((n_periods, n_obs, n_states))
    states[0] = first_states(n_obs, n_states, components, np.exp(log_weights)[0])
    for t in range(n_periods - 1):
        for policy in policies or []:
            if policy["period"] == t:
                pos = lf.index(policy["factor"])
                states[t, :, pos] += shock(policy["effect_size"], policy["standard_deviation"], n_obs)
        everything = jnp.array(np.concatenate([states[t], observed[t]], axis=-1))
        following = stub.transform_sigma_points(
            everything.reshape(1, 1, *everything.shape), model["transition_info"], {f: arr[t] for f, arr in par["transition"].items()},
            par["anchoring_scaling_factors"][jnp.array([t, t + 1])], par["anchoring_constants"][jnp.array([t, t + 1])],
        )
        errors = np.random.multivariate_normal(np.zeros(n_states), np.diag(par["shock_sds"][t] ** 2), n_obs)
        states[t + 1] = np.array(following).reshape(n_obs, -1) + errors

    loadings = pd.DataFrame(par["loadings"], index=rows, columns=lf)
    control_params = pd.DataFrame(par["controls"], index=rows, columns=labels["controls"])
    sds = pd.DataFrame(par["meas_sds"].reshape(-1, 1), index=rows)
    measured, latent = [], []
    for t in range(n_periods):
        values = stub.measurements_from_states(
            states[t], controls[t], loadings.loc[t].to_numpy(), control_params.loc[t].to_numpy(), sds.loc[t].to_numpy().flatten())
        df = pd.DataFrame(values, columns=loadings.loc[t].index)
        df["period"] = t
        measured.append(df)
        df = pd.DataFrame(states[t], columns=lf)
        df["period"] = t
        latent.append(df)
    return stacked(measured), stacked(latent)


def stacked(frames):
    df = pd.concat(frames, axis=0, sort=True)
    df["id"] = df.index
    return df.sort_values(["id", "period"])


def shock(mean, sd, size):
    if sd == 0:
        return np.full(size, mean)
    if sd > 0:
        return np.random.normal(mean, sd, size)
    raise ValueError("negative standard deviation")


def first_states(n_obs, n_states, components, weights):
    if np.size(weights) == 1:
        return np.random.multivariate_normal(size=n_obs, **components[0])
    member = np.random.choice(np.arange(len(weights)), p=weights, size=n_obs)
    out = np.zeros((n_obs, n_states))
    for i in range(n_obs):
        out[i] = np.random.multivariate_normal(**components[member[i]])
    return out


def measurements(states, controls, loadings, control_params, sds):
    noise = np.random.multivariate_normal([0] * loadings.shape[0], np.diag(sds ** 2), len(states))
    return np.dot(states, loadings.T) + np.dot(controls, control_params.T) + noise
