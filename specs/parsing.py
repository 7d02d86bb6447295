"""Reference: parameters by label -> model quantities (C07, C11, C12)."""
import jax.numpy as jnp
import numpy as np
import pandas as pd


def positions(index, loc):
    sr = pd.Series(np.arange(len(index)), index=index)
    try:
        return jnp.array(sr.loc[loc])
    except KeyError:
        return slice(0, 0)


def parse(params, params_index, update_info, labels, anchoring, dimensions, n_obs):
    n_lat, n_mix, n_per = dimensions["n_latent_factors"], dimensions["n_mixtures"], dimensions["n_periods"]
    latent = labels["latent_factors"]

    def of(category):
        return params[positions(params_index, category)]

    states = jnp.repeat(of("initial_states").reshape(1, n_mix, n_lat), n_obs, axis=0)
    weights = jnp.repeat(jnp.log(of("mixture_weights")).reshape(1, -1), n_obs, axis=0)
    low = of("initial_cholcovs").reshape(n_mix, -1)
    chols = jnp.zeros((n_obs, n_mix, n_lat, n_lat))
    for m in range(n_mix):
        lower = jnp.zeros((n_lat, n_lat)).at[jnp.tril_indices(n_lat)].set(low[m])
        chols = chols.at[:, m].set(lower.T)

    controls = of("controls").reshape(-1, dimensions["n_controls"])
    measured = update_info[latent].to_numpy()
    flat = np.arange(measured.size).reshape(measured.shape)[measured]
    loadings = jnp.zeros(measured.size).at[flat].set(of("loadings")).reshape(measured.shape)

    transition = {}
    table = pd.DataFrame(index=params_index)
    for f in latent:
        labels_f = table.query(f"category == 'transition' & name1 == '{f}'").index
        transition[f] = params[positions(params_index, labels_f)].reshape(len(labels["periods"]) - 1, -1)

    anchor_row = (update_info["purpose"] == "anchoring").to_numpy()
    anchored = update_info.query("purpose == 'anchoring'")[latent].any(axis=0)
    scaling = jnp.ones((n_per, n_lat)).at[:, jnp.array(anchored)].set(
        loadings[jnp.array(measured & anchor_row.reshape(-1, 1))].reshape(n_per, -1))
    const = jnp.zeros((n_per, n_lat))
    if not anchoring["ignore_constant_when_anchoring"]:
        const = const.at[:, jnp.array(anchored)].set(controls[:, 0][anchor_row].reshape(n_per, -1))
    n_of = dimensions["n_observed_factors"]
    pardict = {
        "controls": controls, "loadings": loadings, "meas_sds": of("meas_sds"),
        "shock_sds": of("shock_sds").reshape(-1, n_lat), "transition": transition,
        "anchoring_scaling_factors": jnp.hstack([scaling, jnp.ones((n_per, n_of))]),
        "anchoring_constants": jnp.hstack([const, jnp.zeros((n_per, n_of))]),
    }
    return states, chols, weights, pardict
