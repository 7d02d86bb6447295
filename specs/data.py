"""Reference: processing of panel data (C22, C23, C24)."""
import warnings

import jax.numpy as jnp
import numpy as np
import pandas as pd


def balanced(df, periods):
    """one row per individual and period, in sorted order; positions instead of codes, the codes are kept"""
    df = df.copy(deep=True).sort_index()
    df["__old_id__"] = df.index.get_level_values(0)
    df["__old_period__"] = df.index.get_level_values(1)
    df.index.names = ["id", "period"]
    df.index = df.index.remove_unused_levels()
    df.index = df.index.set_levels(range(len(df.index.levels[0])), level=0)
    df.index = df.index.set_levels(range(len(df.index.levels[1])), level=1)
    ids = sorted(df.index.get_level_values("id").unique())
    return df.reindex(pd.MultiIndex.from_product([ids, periods], names=["id", "period"]))


def declared(update_info, period):
    """variables of the period, in order"""
    if period in update_info.index:
        return list(update_info.loc[period].index)
    return []


def usable(df, update_info, labels, purpose):
    report = pd.DataFrame(index=update_info.index[:0], columns=["problem"])
    for t in labels["periods"]:
        rows = df.query(f"period == {t}")
        for c in labels["controls"]:
            if c not in rows.columns or rows[c].isnull().all():
                report.loc[(t, c), "problem"] = "Variable is missing"
        if purpose == "estimation":
            for m in declared(update_info, t):
                if m not in rows.columns:
                    report.loc[(t, m), "problem"] = "Variable is missing"
                elif len(rows[m].dropna().unique()) == 1:
                    report.loc[(t, m), "problem"] = "Variable has no variance"
        for f in labels["observed_factors"]:
            if f not in rows.columns:
                report.loc[(t, f), "problem"] = "Variable is missing"
            elif rows[f].isnull().any():
                report.loc[(t, f), "problem"] = "Variable has missings"
    if len(report) > 0:
        raise ValueError(report.to_string())


def blank(df, controls, update_info, observed_factors):
    df = df.copy(deep=True)
    index = df.index[:0]
    for t in update_info.index.get_level_values(0).unique().tolist():
        rows = df.query(f"period == {t}")
        affected = rows[controls].isnull().any(axis=1) & rows[declared(update_info, t)].notnull().any(axis=1)
        index = index.union(rows[affected].index)
    if len(index) > 0:
        ids = df.loc[index][["__old_id__", "__old_period__"]]
        warnings.warn("controls are missing for " + str(list(map(tuple, ids.to_numpy().tolist()))))
        df.loc[index, [c for c in df.columns if c not in observed_factors]] = np.nan
    return df


def process(df, labels, update_info, anchoring_info, purpose):
    df = balanced(df, labels["periods"])
    df["constant"] = 1
    for f in anchoring_info["factors"]:
        outcome = anchoring_info["outcomes"][f]
        df[f"{outcome}_{f}"] = df[outcome]
    usable(df, update_info, labels, purpose)
    n_obs = int(len(df) / len(labels["periods"]))
    df = blank(df, labels["controls"], update_info, labels["observed_factors"])
    controls, observed = controls_array(df, labels, n_obs), observed_array(df, labels, n_obs)
    if purpose == "estimation":
        return measurements_array(df, update_info, n_obs), controls, observed
    return controls, observed


def measurements_array(df, update_info, n_obs):
    out = np.zeros((len(update_info), n_obs))
    for k, (t, variable) in enumerate(update_info.index):
        out[k] = df.query(f"period == {t}")[variable].to_numpy()
    return jnp.array(out)


def controls_array(df, labels, n_obs):
    out = np.zeros((len(labels["periods"]), n_obs, len(labels["controls"])))
    for t in labels["periods"]:
        out[t] = df.query(f"period == {t}")[labels["controls"]].to_numpy()
    return jnp.array(out)


def observed_array(df, labels, n_obs):
    out = np.zeros((len(labels["periods"]), n_obs, len(labels["observed_factors"])))
    for t in labels["periods"]:
        out[t] = df.query(f"period == {t}")[labels["observed_factors"]].to_numpy()
    return jnp.array(out)
