"""Reference: processing of a model specification (C14, C19, C20)."""
import functools
from functools import partial

import jax.numpy as jnp
import numpy as np
import pandas as pd
import skillmodels.transition_functions as tf
from dags import concatenate_functions
from dags.signature import rename_arguments
from jax import vmap


def padded(entries, fill, length):
    missing = length - len(entries)
    assert missing >= 0
    return list(entries) + [fill for _ in range(missing)]


def process(model_dict):
    latent = list(model_dict["factors"])
    observed = list(model_dict.get("observed_factors", []))
    controls = list(model_dict.get("controls", []))
    n_periods = max([len(f["measurements"]) for f in model_dict["factors"].values()])
    dims = {
        "n_latent_factors": len(latent), "n_observed_factors": len(observed), "n_periods": n_periods,
        "n_controls": 1 + len(controls), "n_mixtures": model_dict["estimation_options"].get("n_mixtures", 1),
        "n_all_factors": len(latent) + len(observed),
    }
    stagemap = model_dict.get("stagemap", list(range(n_periods - 1)))
    labels = {
        "latent_factors": latent, "observed_factors": observed, "controls": ["constant", *controls],
        "periods": list(range(n_periods)), "stagemap": stagemap, "stages": sorted(np.unique(stagemap)),
        "all_factors": latent + observed,
    }

    options = {
        "sigma_points_scale": 2, "robust_bounds": True, "bounds_distance": 1e-3, "clipping_lower_bound": -1e250,
        "clipping_upper_bound": None, "clipping_lower_hardness": 1, "clipping_upper_hardness": 1,
        **model_dict.get("estimation_options", {}),
    }
    if not options["robust_bounds"]:
        options["bounds_distance"] = 0

    anchoring = {
        "anchoring": False, "outcomes": {}, "factors": [], "free_controls": False, "free_constant": False,
        "free_loadings": False, "ignore_constant_when_anchoring": False,
    }
    if "anchoring" in model_dict:
        anchoring = {**anchoring, **model_dict["anchoring"], "anchoring": True}
        anchoring["factors"] = [f for f in model_dict["factors"] if f in anchoring["outcomes"]]

    info = transition_info(model_dict, latent, observed)
    labels["transition_names"] = list(info["function_names"].values())

    normalizations = {
        f: {
            kind: padded(model_dict["factors"][f].get("normalizations", {}).get(kind, []), {}, n_periods)
            for kind in ["loadings", "intercepts"]
        }
        for f in latent
    }
    return {
        "dimensions": dims, "labels": labels, "anchoring": anchoring, "estimation_options": options,
        "transition_info": info, "update_info": update_info(model_dict, latent, n_periods, anchoring),
        "normalizations": normalizations,
    }


def update_info(model_dict, latent, n_periods, anchoring):
    index = pd.MultiIndex(levels=[[], []], codes=[[], []], names=["period", "variable"])
    table = pd.DataFrame(index=index, columns=latent + ["purpose"])
    declared = {f: padded(model_dict["factors"][f]["measurements"], [], n_periods) for f in latent}
    for t in range(n_periods):
        for f in latent:
            for variable in declared[f][t]:
                table.loc[(t, variable), f] = True
                table.loc[(t, variable), "purpose"] = "measurement"
        for f in anchoring["factors"]:
            row = f"{anchoring['outcomes'][f]}_{f}"
            table.loc[(t, row), f] = True
            table.loc[(t, row), "purpose"] = "anchoring"
    table = table.fillna(False)
    for f in latent:
        table[f] = table[f].astype(bool)
    return table


def transition_info(model_dict, latent, observed):
    factors = latent + observed
    own, params = [], []
    for f in latent:
        given = model_dict["factors"][f]["transition_function"]
        if isinstance(given, str):
            func = getattr(tf, given)
            if given == "constant":
                func = rename_arguments(func, mapper={"state": f})
            params.append(getattr(tf, "params_" + given)(factors))
            own.append(own_params(func, f))
        elif callable(given):
            if not hasattr(given, "__name__"):
                raise AttributeError()
            if not hasattr(given, "__registered_params__"):
                raise AttributeError()
            params.append(given.__registered_params__)
            own.append(own_named_params(given, f, given.__registered_params__))
    names = [func.__name__ for func in own]
    functions = {f"__next_{f}__": func for f, func in zip(latent, own)}
    targets = [f"__next_{f}__" for f in latent]
    for i, f in enumerate(factors):
        functions[f] = partial(position, pos=i)
    together = concatenate_functions(functions=functions, targets=targets)
    single = {f: vmap(concatenate_functions(functions=functions, targets=f"__next_{f}__"), in_axes=(None, 0)) for f in latent}

    @functools.wraps(together)
    def all_next(*args, **kwargs):
        return jnp.array(together(*args, **kwargs))

    return {"func": vmap(all_next, in_axes=(None, 0)), "param_names": dict(zip(latent, params)), "individual_functions": single,
            "function_names": dict(zip(latent, names))}


def position(states, pos):
    return states[pos]


def own_params(func, factor):
    @functools.wraps(func)
    def inner(**kwargs):
        return func(**{**kwargs, "params": kwargs["params"][factor]})
    return inner


def own_named_params(func, factor, names):
    if names is None:
        return own_params(func, factor)

    @functools.wraps(func)
    def inner(**kwargs):
        return func(**{**kwargs, "params": dict(zip(names, kwargs["params"][factor]))})
    return inner


def check(model_dict, labels, dimensions, anchoring):
    return None
