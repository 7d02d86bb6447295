"""Reference: the parameter labels (property C12)."""
import pandas as pd


def control_labels(controls, update_info):
    return [("controls", t, m, c) for t, m in update_info.index for c in controls]


def loading_labels(factors, update_info):
    declared = update_info[factors].to_numpy()
    return [
        ("loadings", t, m, f)
        for row, (t, m) in enumerate(update_info.index)
        for col, f in enumerate(factors)
        if declared[row, col]
    ]


def meas_sd_labels(update_info):
    return [("meas_sds", t, m, "-") for t, m in update_info.index]


def shock_sd_labels(periods, factors):
    return [("shock_sds", t, f, "-") for t in periods[:-1] for f in factors]


def initial_mean_labels(n_mixtures, factors):
    return [("initial_states", 0, f"mixture_{m}", f) for m in range(n_mixtures) for f in factors]


def mixture_weight_labels(n_mixtures):
    return [("mixture_weights", 0, f"mixture_{m}", "-") for m in range(n_mixtures)]


def cholcov_labels(n_mixtures, factors):
    # row major lower triangle
    return [
        ("initial_cholcovs", 0, f"mixture_{m}", f"{factors[r]}-{factors[c]}")
        for m in range(n_mixtures)
        for r in range(len(factors))
        for c in range(r + 1)
    ]


def transition_labels(transition_info, periods):
    return [
        ("transition", t, f, n)
        for f in transition_info["param_names"]
        for t in periods[:-1]
        for n in transition_info["param_names"][f]
    ]


def full_index(update_info, labels, dimensions, transition_info):
    lf = labels["latent_factors"]
    tups = [
        *control_labels(labels["controls"], update_info),
        *loading_labels(lf, update_info),
        *meas_sd_labels(update_info),
        *shock_sd_labels(labels["periods"], lf),
        *initial_mean_labels(dimensions["n_mixtures"], lf),
        *mixture_weight_labels(dimensions["n_mixtures"]),
        *cholcov_labels(dimensions["n_mixtures"], lf),
        *transition_labels(transition_info, labels["periods"]),
    ]
    return pd.MultiIndex.from_tuples(tups, names=["category", "period", "name1", "name2"])
