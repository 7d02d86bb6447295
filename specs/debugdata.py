"""Reference: debug tables and filtered states (C27, C28)."""
import jax.numpy as jnp
import numpy as np
import pandas as pd
from spec import stub


def tables(debug_data, model):
    rows, lf = model["update_info"].index, model["labels"]["latent_factors"]
    out = {
        "post_update_states": states_table(debug_data["filtered_states"], rows, lf),
        "filtered_states": filtered(debug_data, model["update_info"], lf),
        "residuals": residual_table(debug_data["residuals"], rows),
        "residual_sds": residual_table(debug_data["residual_sds"], rows),
        "all_contributions": contribution_table(debug_data["all_contributions"], rows),
    }
    out["state_ranges"] = ranges(out["filtered_states"], lf)
    if "value" in debug_data:
        out["value"] = debug_data["value"]
    if "contributions" in debug_data:
        out["contributions"] = debug_data["contributions"]
    return out


def states_table(arr, rows, factors):
    parts = []
    for (period, variable), states in zip(rows, arr):
        n_obs, n_mixtures, n_states = states.shape
        df = pd.DataFrame(states.reshape(-1, n_states), columns=factors)
        df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
        df["period"] = period
        df["id"] = np.arange(n_obs).repeat(n_mixtures)
        df["measurement"] = variable
        parts.append(df)
    return pd.concat(parts)


def residual_table(arr, rows):
    parts = []
    n_obs, n_mixtures = arr[0].shape
    for (period, variable), values in zip(rows, arr):
        df = pd.DataFrame(values.reshape(-1, 1), columns=["residual"])
        df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
        df["period"] = period
        df["id"] = np.arange(n_obs).repeat(n_mixtures)
        df["measurement"] = variable
        parts.append(df)
    return pd.concat(parts)


def contribution_table(arr, rows):
    parts = []
    for (period, variable), values in zip(rows, arr):
        df = pd.DataFrame(values.reshape(-1, 1), columns=["contribution"])
        df["measurement"] = variable
        df["period"] = period
        df["id"] = np.arange(len(df))
        parts.append(df)
    return pd.concat(parts)


def filtered(debug_data, update_info, factors):
    states = np.array(debug_data["filtered_states"])
    weights = np.exp(np.array(debug_data["log_mixture_weights"]))
    mean = (states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
    last = []
    for row, (period, variable) in enumerate(update_info.index):
        if variable == update_info.query(f"purpose == 'measurement' & period == {period}").index[-1][1]:
            last.append(row)
    parts = []
    for period, row in enumerate(last):
        df = pd.DataFrame(mean[row], columns=factors)
        df["period"] = period
        df["id"] = np.arange(len(df))
        parts.append(df)
    return pd.concat(parts)


def ranges(filtered_states, factors):
    low, high = filtered_states.groupby("period").min(), filtered_states.groupby("period").max()
    out = {}
    for f in factors:
        df = pd.concat([low[f], high[f]], axis=1)
        df.columns = ["minimum", "maximum"]
        out[f] = df
    return out


def anchored(states_df, model_dict, params):
    model = stub.process_model(model_dict)
    labels = model["labels"]
    index = stub.get_params_index(model["update_info"], labels, model["dimensions"], model["transition_info"])
    info = stub.create_parsing_info(index, model["update_info"], labels, model["anchoring"])
    _, _, _, par = stub.parse_params(jnp.array(params.loc[index]["value"].to_numpy()), info, model["dimensions"], labels, 1)
    periods = states_df["period"].to_numpy()
    n_latent = model["dimensions"]["n_latent_factors"]
    scale = np.array(par["anchoring_scaling_factors"][:, :n_latent])
    shift = np.array(par["anchoring_constants"][:, :n_latent])
    out = states_df.copy(deep=True)
    for pos, f in enumerate(labels["latent_factors"]):
        out[f] = shift[periods][:, pos] + states_df[f] * scale[periods][:, pos]
    return out[states_df.columns]


def filtered_states(model_dict, data, params):
    inputs = stub.get_maximization_inputs(model_dict, data)
    params = params.loc[inputs["params_template"].index]
    debug = inputs["debug_loglike"](params)
    anchored_df = stub.anchor_states_df(debug["filtered_states"], model_dict, params)
    lf = stub.process_model(model_dict)["labels"]["latent_factors"]
    return {
        "anchored_states": {"states": anchored_df, "state_ranges": stub.create_state_ranges(anchored_df, lf)},
        "unanchored_states": {"states": debug["filtered_states"], "state_ranges": debug["state_ranges"]},
    }
