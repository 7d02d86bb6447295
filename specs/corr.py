"""Reference: correlation tables (C37) and heatmaps (C37, C38)."""
import numpy as np
import pandas as pd
import plotly.graph_objects as go
from spec import stub


def setup(data, model_dict, factors, periods):
    model = stub.process_model(model_dict)
    if periods is None:
        periods = list(range(model["dimensions"]["n_periods"]))
    elif isinstance(periods, (int, float)):
        periods = [periods]
    labels = model["labels"]
    latent, observed = split(labels, factors)
    return stub.pre_process_data(data.copy(deep=True), periods), model["update_info"], periods, latent, observed


def known(model_dict, factors):
    labels = stub.process_model(model_dict)["labels"]
    return not isinstance(factors, str) or factors in labels["latent_factors"] or factors in labels["observed_factors"]


def split(labels, factors):
    if not factors:
        return labels["latent_factors"], labels["observed_factors"]
    if isinstance(factors, str):
        factors = [factors]
    latent = [f for f in factors if f in labels["latent_factors"]]
    observed = [f for f in factors if f not in labels["latent_factors"] and f in labels["observed_factors"]]
    return latent, observed


def of_period(data, update_info, period):
    return data.query(f"{update_info.index.names[0]}=={period}")


def measurements(update_info, period, factor):
    info = update_info.loc[period].reset_index()
    return info.query(f"{factor} == True and purpose == 'measurement'")["variable"].to_list()


def combined(table, periods):
    if len(periods) == 1:
        return table(periods[0])
    return pd.concat([table(p).add_suffix(f", {p}").reset_index(drop=True) for p in periods], axis=1)


def measurement_table(data, update_info, period, latent, observed):
    names = [m for f in latent for m in measurements(update_info, period, f)] + list(observed)
    return of_period(data, update_info, period)[names]


def measurement_tables(data, update_info, periods, latent, observed):
    return pd.concat([measurement_table(data, update_info, p, latent, observed).add_suffix(f", {p}").reset_index(drop=True) for p in periods], axis=1)


def quasi_table(data, update_info, period, latent, observed):
    now = of_period(data, update_info, period)
    out = []
    for f in latent:
        x = now[measurements(update_info, period, f)]
        score = ((x - x.mean()) / x.std()).mean(axis=1)
        score.name = f"{f}"
        out.append(score)
    return pd.concat(out + [now[f] for f in observed], axis=1)


def quasi_tables(data, update_info, periods, latent, observed):
    return pd.concat([quasi_table(data, update_info, p, latent, observed).add_suffix(f", {p}").reset_index(drop=True) for p in periods], axis=1)


def score_table(data, params, update_info, period, latent, observed):
    now = of_period(data, update_info, period)
    par = params.query(f"period=={period}").droplevel("period")
    loadings = par.loc["loadings"]["value"]
    intercepts = par.loc["controls"].query("name2 == 'constant'").droplevel("name2")["value"]
    counts = loadings.astype(bool).groupby("name1").sum()
    several = counts[counts > 1].index.to_list()
    out = []
    for f in latent:
        own = [m for m in measurements(update_info, period, f) if m not in several]
        x = now[own]
        for m in own:
            x[m] = (x[m] - intercepts.loc[m]) / loadings.loc[(m, f)]
        score = x.mean(axis=1)
        score.name = f"{f}"
        out.append(score)
    return pd.concat(out + [now[f] for f in observed], axis=1)


def measurements_corr(data, model_dict, factors, periods):
    data, info, periods, latent, observed = setup(data, model_dict, factors, periods)
    return combined(lambda p: measurement_table(data, info, p, latent, observed), periods).corr()


def quasi_scores_corr(data, model_dict, factors, periods):
    data, info, periods, latent, observed = setup(data, model_dict, factors, periods)
    return combined(lambda p: quasi_table(data, info, p, latent, observed), periods).corr()


def scores_corr(data, params, model_dict, factors, periods):
    data, info, periods, latent, observed = setup(data, model_dict, factors, periods)
    params = params.loc[["controls", "loadings"]]
    return combined(lambda p: score_table(data, params, info, p, latent, observed), periods).corr()


def mask(corr, show_upper_triangle, show_diagonal):
    out = np.zeros_like(corr, dtype=bool)
    out[np.tril_indices_from(out, k=-1)] = True
    if show_upper_triangle:
        out[np.triu_indices_from(out, k=1)] = True
    if show_diagonal:
        np.fill_diagonal(out, True)
    return out


def shown_part(corr, rounding, show_upper_triangle, show_diagonal, trim_heatmap):
    keep = mask(corr, show_upper_triangle, show_diagonal)
    out = corr.where(keep).round(rounding)
    if trim_heatmap:
        rows = keep.any(axis=1) & out.notnull().any(axis="columns").to_numpy()
        keep, out = keep[rows], out[rows]
        cols = keep.any(axis=0) & out.notnull().any(axis="index").to_numpy()
        out = out.T[cols].T
    return out


def per_axis(option):
    if isinstance(option, (tuple, list)):
        return {"x": option[0], "y": option[1]}
    return option


def heatmap(corr, heatmap_kwargs, layout_kwargs, rounding, zmax, zmin, zmid, colorscale, show_color_bar, show_diagonal,
            show_upper_triangle, trim_heatmap, annotate, annotation_fontsize, annotation_text_color, annotation_text_angle,
            axes_tick_fontsize, axes_tick_label_angle, axes_tick_label_color):
    corr = shown_part(corr, rounding, show_upper_triangle, show_diagonal, trim_heatmap)
    if zmax is None:
        zmax = np.abs(corr.to_numpy())[np.tril_indices_from(corr, k=-1)].max()
    if zmin is None:
        zmin = -zmax
    if zmid is None:
        zmid = 0
    kw = {"colorscale": colorscale, "showscale": show_color_bar, "zmin": zmin, "zmax": zmax, "zmid": zmid}
    if heatmap_kwargs:
        kw.update(heatmap_kwargs)
    lay = {"xaxis_showgrid": False, "yaxis_showgrid": False, "template": "simple_white", "yaxis_autorange": "reversed"}
    if annotate:
        lay["annotations"] = [
            {
                "text": str(corr.loc[row, col]).replace("nan", ""), "x": col, "y": row, "xref": "x1", "yref": "y1",
                "showarrow": False, "font": {"color": annotation_text_color, "size": annotation_fontsize},
                "textangle": annotation_text_angle,
            }
            for col in corr.columns[::-1]
            for row in corr.index[::-1]
        ]
    size, angle, color = per_axis(axes_tick_fontsize), per_axis(axes_tick_label_angle), per_axis(axes_tick_label_color)
    lay["xaxis"] = {"tickangle": angle["x"], "tickfont": {"color": color["x"], "size": size["x"]}}
    lay["yaxis"] = {"tickangle": angle["y"], "tickfont": {"color": color["y"], "size": size["y"]}}
    if layout_kwargs:
        lay.update(layout_kwargs)
    fig = go.Figure(go.Heatmap(z=corr, x=corr.columns.values, y=corr.index.values, **kw))
    fig.update_layout(**lay)
    return fig
