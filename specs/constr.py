"""Reference: parameter constraints and bounds (C15 - C18)."""
import numpy as np
import skillmodels.transition_functions as tf


def normalization(normalizations, factors):
    locs, values = [], []
    n_periods = len(normalizations[factors[0]]["loadings"])
    for f in factors:
        if "variances" in normalizations[f]:
            raise ValueError("variances cannot be normalized")
        for t in range(n_periods):
            load = normalizations[f]["loadings"][t]
            inter = normalizations[f]["intercepts"][t]
            locs += [("loadings", t, m, f) for m in load]
            values += [load[m] for m in load]
            locs += [("controls", t, m, "constant") for m in inter]
            values += [inter[m] for m in inter]
    if len(locs) == 0:
        return []
    return [{"loc": locs, "type": "fixed", "value": values}]


def mixture(n_mixtures):
    c = {"loc": "mixture_weights", "type": "probability"}
    if n_mixtures == 1:
        c = {"loc": "mixture_weights", "type": "fixed", "value": 1.0}
    return [c]


def stage(stagemap, stages):
    members = {s: [] for s in stages}
    for t, s in enumerate(stagemap):
        members[s].append(t)
    out = []
    for s in members:
        if len(members[s]) > 1:
            for category in ("transition", "shock_sds"):
                out.append({"locs": [(category, t) for t in members[s]], "type": "pairwise_equality"})
    return out


def constant(labels):
    out = []
    for name, factor in zip(labels["transition_names"], labels["latent_factors"]):
        if name == "constant":
            out += [
                {"loc": ("shock_sds", t, factor, "-"), "type": "fixed", "value": 0.0}
                for t in labels["periods"][:-1]
            ]
    return out


def ordering(n_mixtures, factors):
    if n_mixtures <= 1:
        return []
    return [{"loc": [("initial_states", 0, f"mixture_{m}", factors[0]) for m in range(n_mixtures)], "type": "increasing"}]


def transition(labels):
    out = []
    for i in range(len(labels["latent_factors"])):
        name = "constraints_" + labels["transition_names"][i]
        if hasattr(tf, name):
            for t in labels["periods"][:-1]:
                c = getattr(tf, name)(labels["latent_factors"][i], labels["all_factors"], t)
                if "description" not in c:
                    c["description"] = ""
                out.append(c)
    return out


def anchoring(update_info, controls, anchoring_info, periods):
    rows = [(t, m) for t, m in update_info.query("purpose == 'anchoring'").index]
    out = []
    if not anchoring_info["free_constant"]:
        out.append({"loc": [("controls", t, m, "constant") for t, m in rows], "type": "fixed", "value": 0})
    if not anchoring_info["free_controls"]:
        out.append({
            "loc": [("controls", t, m, c) for t, m in rows for c in controls if c != "constant"],
            "type": "fixed", "value": 0,
        })
    if not anchoring_info["free_loadings"]:
        out.append({
            "loc": [
                ("loadings", t, anchoring_info["outcomes"][f] + "_" + f, f)
                for t in periods
                for f in anchoring_info["factors"]
            ],
            "type": "fixed", "value": 1,
        })
    return [c for c in out if len(c["loc"]) > 0]


def all_constraints(dimensions, labels, anchoring_info, update_info, normalizations):
    lf, nm = labels["latent_factors"], dimensions["n_mixtures"]
    out = (
        normalization(normalizations, lf)
        + mixture(nm)
        + stage(labels["stagemap"], labels["stages"])
        + constant(labels)
        + ordering(nm, lf)
        + transition(labels)
        + anchoring(update_info, labels["controls"], anchoring_info, labels["periods"])
    )
    for i in range(len(out)):
        out[i]["id"] = i
    return out


def bounds(params_df, bounds_distance):
    df = params_df.copy()
    if "lower_bound" not in df.columns:
        df["lower_bound"] = -np.inf
    df.loc["meas_sds", "lower_bound"] = bounds_distance
    df.loc["shock_sds", "lower_bound"] = bounds_distance
    diag = []
    for label in df.query("category == 'initial_cholcovs'").index.tolist():
        pair = label[-1]
        mid = int(len(pair) // 2)
        # "x-x": odd length, dash exactly in the middle, both halves equal
        if len(pair) % 2 != 0 and pair[mid] == "-" and pair[:mid] == pair[mid + 1:]:
            diag.append(label)
    df.loc[diag, "lower_bound"] = bounds_distance
    return df
