"""Reference: transformations of model specifications and parameters (C29, C30)."""
import warnings
from copy import deepcopy

import numpy as np
import pandas as pd
from spec import stub


def names(x):
    return [x] if isinstance(x, str) else x


def without(d, to_remove):
    return {k: d[k] for k in d if k not in names(to_remove)}


def shortened(x, n):
    return x[:n] if len(x) > n else x


def index_of(model_dict):
    model = stub.process_model(model_dict)
    return stub.get_params_index(model["update_info"], model["labels"], model["dimensions"], model["transition_info"])


def nested_params(params, model_dict):
    return params.loc[index_of(model_dict)]


def extended_params(params, model_dict):
    out = params.reindex(index_of(model_dict))
    out["value"] = out["value"].fillna(0.05)
    if "lower_bound" in out:
        out["lower_bound"] = out["lower_bound"].fillna(-np.inf)
    if "upper_bound" in out:
        out["upper_bound"] = out["upper_bound"].fillna(np.inf)
    return out


def factors_removed(factors, model_dict, params):
    out = deepcopy(model_dict)
    out["factors"] = without(out["factors"], factors)
    if "anchoring" in model_dict:
        outcomes = without(out["anchoring"]["outcomes"], factors)
        out["anchoring"]["outcomes"] = outcomes
        if outcomes == {}:
            out = without(out, "anchoring")
    n_periods = max([len(f["measurements"]) for f in out["factors"].values()])
    out = first_periods(out, n_periods)
    return out if params is None else (out, nested_params(params, out))


def removal(factors, model_dict, params):
    out = deepcopy(model_dict)
    out["factors"] = without(out["factors"], factors)
    if "anchoring" in model_dict:
        outcomes = without(out["anchoring"]["outcomes"], factors)
        out["anchoring"]["outcomes"] = outcomes
        if outcomes == {}:
            out = without(out, "anchoring")
    return stub.reduce_n_periods(out, max([len(f["measurements"]) for f in out["factors"].values()]), None)


def extraction(factors, model_dict, params):
    return stub.remove_factors(set(model_dict["factors"]).difference(names(factors)), model_dict, None)


def factors_extracted(factors, model_dict, params):
    return factors_removed(set(model_dict["factors"]).difference(names(factors)), model_dict, params)


def first_periods(model_dict, n):
    out = deepcopy(model_dict)
    for f in model_dict["factors"]:
        out["factors"][f]["measurements"] = shortened(out["factors"][f]["measurements"], n)
        given = model_dict["factors"][f].get("normalizations", {})
        for kind in ("loadings", "intercepts"):
            if kind in given:
                out["factors"][f]["normalizations"][kind] = shortened(given[kind], n)
    if "stagemap" in out:
        out["stagemap"] = shortened(out["stagemap"], n - 1)
    return out


def periods_reduced(model_dict, new_n_periods, params):
    out = first_periods(model_dict, new_n_periods)
    return out if params is None else (out, extended_params(params, out))


def measurements_removed(measurements, model_dict, params):
    out = deepcopy(model_dict)
    for f in model_dict["factors"]:
        out["factors"][f]["measurements"] = [
            [m for m in ms if m not in names(measurements)] for ms in model_dict["factors"][f]["measurements"]
        ]
        given = model_dict["factors"][f].get("normalizations", {})
        for kind in ("loadings", "intercepts"):
            if kind in given:
                kept = [without(norm, measurements) for norm in given[kind]]
                if kept != given[kind]:
                    warnings.warn("normalized measurement removed")
                out["factors"][f]["normalizations"][kind] = kept
    return out if params is None else (out, nested_params(params, out))


def controls_removed(controls, model_dict, params):
    out = deepcopy(model_dict)
    kept = [c for c in out["controls"] if c not in names(controls)]
    out["controls"] = kept
    if kept == []:
        out = without(out, "controls")
    return out if params is None else (out, nested_params(params, out))


def to_linear(model_dict, params):
    out = switched(model_dict, "translog", "linear")
    return out if params is None else (out, nested_params(params, out))


def to_translog(model_dict, params):
    out = switched(model_dict, "linear", "translog")
    return out if params is None else (out, extended_params(params, out))


def switched(model_dict, old, new):
    out = deepcopy(model_dict)
    for f in model_dict["factors"]:
        if model_dict["factors"][f]["transition_function"] == old:
            out["factors"][f]["transition_function"] = new
    return out


def updated_values(params, others):
    if isinstance(others, pd.DataFrame):
        others = [others]
    out = params.copy(deep=True)
    for other in others:
        out["value"].update(other["value"])
    return out
