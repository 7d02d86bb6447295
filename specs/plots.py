"""Reference: transition and distribution plots (C35, C36, C38)."""
import warnings
from copy import deepcopy

import jax.numpy as jnp
import numpy as np
import pandas as pd
import plotly.express as px
import plotly.figure_factory as ff
import plotly.graph_objects as go
from plotly.subplots import make_subplots
from scipy.stats import gaussian_kde
from spec import stub


# ------------------------------------------------------------------ options
def layout(user, legend=None, title=None, showlegend=False, columns=None, rows=None):
    kw = {"template": "simple_white", "xaxis_showgrid": False, "yaxis_showgrid": False, "legend": {}, "title": {},
          "showlegend": showlegend}
    if rows is not None:
        kw["height"] = 300 * len(rows)
    if columns is not None:
        kw["width"] = 300 * len(columns)
    if title:
        kw["title"] = title
    if legend:
        kw["legend"].update(legend)
    if user:
        kw.update(user)
    return kw


def subplots(sharex, sharey, columns, rows, user, scenes=False):
    nr, nc = len(rows), len(columns)
    kw = {"rows": nr, "cols": nc, "start_cell": "top-left", "print_grid": False, "shared_yaxes": sharey,
          "shared_xaxes": sharex, "horizontal_spacing": 1 / (nc * 6)}
    if nr > 1:
        kw["vertical_spacing"] = (1 / (nr - 1)) / 4
    if not sharey:
        kw["horizontal_spacing"] = 2 * kw["horizontal_spacing"]
    if scenes:
        specs = np.array([[{}] * nc] * nr)
        for i in range(nr):
            for j in range(nc):
                if j > i:
                    specs[i, j] = {"type": "scene"}
        kw["specs"] = specs.tolist()
    if user is not None:
        kw.update(user)
    return kw


def names(user, factors):
    if user is None:
        return {f: f for f in factors}
    out = dict(user)
    for f in factors:
        if f not in out:
            out[f] = f
    return out


# ------------------------------------------------------------------ C35 transition plots
def orders(columns, rows, plots):
    if columns is None:
        columns = []
        for key in plots.keys():
            if key[0] not in columns:
                columns.append(key[0])
    elif isinstance(columns, str):
        columns = [columns]
    if rows is None:
        rows = []
        for key in plots.keys():
            if key[1] not in rows:
                rows.append(key[1])
    elif isinstance(rows, str):
        rows = [rows]
    return columns, rows


def combined_transitions(plots_dict, column_order, row_order, factor_mapping, make_subplot_kwargs, sharex, sharey, showlegend,
                         layout_kwargs, legend_kwargs, title_kwargs):
    plots = deepcopy(plots_dict)
    columns, rows = orders(column_order, row_order, plots)
    label = names(factor_mapping, columns + rows)
    fig = make_subplots(**subplots(sharex, sharey, columns, rows, make_subplot_kwargs))
    for r, output in enumerate(rows):
        for c, inp in enumerate(columns):
            sub = plots[(inp, output)] if (inp, output) in plots else go.Figure()
            for trace in sub.data:
                if r != 0 or c != 0:
                    trace.update({"showlegend": False})
                fig.add_trace(trace, row=r + 1, col=c + 1)
            fig.update_xaxes(title_text=f"{label[inp]}", row=r + 1, col=c + 1)
            if c == 0:
                fig.update_yaxes(title_text=f"{label[output]}", row=r + 1, col=c + 1)
    fig.update_layout(**layout(layout_kwargs, legend_kwargs, title_kwargs, showlegend, columns, rows))
    return fig


def transition_plots(model_dict, params, data, period, state_ranges, quantiles_of_other_factors, n_points, n_draws, colorscale,
                     layout_kwargs):
    q = quantiles_of_other_factors
    if isinstance(q, (float, int)):
        q = [q]
    elif isinstance(q, (tuple, list)):
        q = list(q)
    model = stub.process_model(model_dict)
    labels = model["labels"]
    if period >= labels["periods"][-1]:
        raise ValueError
    states = stub.get_filtered_states(model_dict, data, params)["anchored_states"]["states"]
    observed = labels["observed_factors"]
    if observed and data is None:
        raise ValueError
    if observed:
        arr = stub.process_data(data, labels, model["update_info"], model["anchoring"])[2]
        obs = pd.DataFrame(data=np.array(arr)[period], columns=observed)
        obs["id"] = obs.index
        obs["period"] = period
        states = pd.merge(left=states, right=obs, left_on=["id", "period"], right_on=["id", "period"], how="left")
    else:
        states = states.copy(deep=True)
    index = stub.get_params_index(model["update_info"], labels, model["dimensions"], model["transition_info"])
    params = params.loc[index]
    info = stub.create_parsing_info(params.index, model["update_info"], labels, model["anchoring"])
    par = stub.parse_params(jnp.array(params["value"].to_numpy()), info, model["dimensions"], labels, 1)[3]
    factors = labels["all_factors"]
    if state_ranges is None:
        state_ranges = stub.create_state_ranges(states, factors)
    now = states.query(f"period == {period}")[factors]
    lay = layout(layout_kwargs, showlegend=True)
    plots = {}
    for output in labels["latent_factors"]:
        func = model["transition_info"]["individual_functions"][output]
        coeffs = {output: par["transition"][output][period]}
        for inp in factors:
            low = state_ranges[inp].loc[period]["minimum"]
            high = state_ranges[inp].loc[period]["maximum"]
            parts = []
            if q is not None:
                for quantile in q:
                    part = line(inp, output, low, high, n_points, now.drop(columns=inp).quantile(quantile), factors, func, coeffs)
                    part["quantile"] = quantile
                    parts.append(part)
                table = pd.concat(parts).reset_index()
            else:
                draws = now.reset_index()[[f for f in factors if f != inp]].sample(n=n_draws)
                for _, draw in draws.iterrows():
                    parts.append(line(inp, output, low, high, n_points, draw, factors, func, coeffs))
                table = pd.concat(parts).groupby(f"input_{inp}").mean().reset_index()
            color = "quantile" if isinstance(q, list) and len(q) > 1 else None
            fig = px.line(table, y=f"output_{output}", x=f"input_{inp}", color=color,
                          color_discrete_sequence=getattr(px.colors.sequential, colorscale))
            fig.update_xaxes(title={"text": inp})
            fig.update_yaxes(title={"text": output})
            fig.update_layout(**lay)
            plots[(inp, output)] = fig
    return plots


def line(inp, output, low, high, n_points, fixed, factors, func, coeffs):
    grid = pd.DataFrame()
    grid[inp] = np.linspace(low, high, n_points)
    grid[fixed.index] = fixed
    out = np.array(func(coeffs, jnp.array(grid[factors].to_numpy())))
    table = pd.DataFrame()
    table[f"input_{inp}"] = grid[inp]
    table[f"output_{output}"] = out
    return table


# ------------------------------------------------------------------ C36 distribution plots
def selected(model, factors, observed_factors):
    if factors is None:
        return model["labels"]["all_factors"] if observed_factors else model["labels"]["latent_factors"]
    return factors


def table(data, states, period, factors, periods):
    cols = [data[f] for f in factors if f in data]
    observed = None
    if len(cols) >= 1:
        observed = stub.pre_process_data(pd.DataFrame(pd.concat(cols, axis=1)), periods).drop(columns=["__old_id__", "__old_period__"])
    if isinstance(states, pd.DataFrame):
        out = pd.concat([states.query(f"period == {period}")[f] for f in factors if f in states], axis=1)
        out["scenario"] = "none"
    else:
        if not isinstance(states, dict):
            states = {i: df for i, df in enumerate(states)}
        parts = []
        for name, df in states.items():
            part = df.query(f"period == {period}")[factors]
            part["scenario"] = name
            parts.append(part)
        out = pd.concat(parts)
    out = out.reset_index()
    if observed is not None:
        out = pd.concat([out, observed.query(f"period == {period}").reset_index()], axis=1)
    return out


def univariate(data, model_dict, params, period, factors, observed_factors, states, show_curve, show_hist, show_rug, curve_type,
               colorscale, bin_size, distplot_kwargs, layout_kwargs):
    if states is None:
        states = stub.get_filtered_states(model_dict, data, params)["anchored_states"]["states"]
    model = stub.process_model(model_dict)
    factors = selected(model, factors, observed_factors)
    df = table(data, states, period, factors, model["labels"]["periods"])
    scenarios = df["scenario"].unique()
    kw = {"show_hist": show_hist, "show_rug": show_rug, "show_curve": show_curve, "curve_type": curve_type, "bin_size": bin_size,
          "group_labels": scenarios, "colors": getattr(px.colors.qualitative, colorscale)}
    if distplot_kwargs:
        kw.update(distplot_kwargs)
    lay = layout(layout_kwargs)
    plots = {}
    for f in factors:
        try:
            fig = ff.create_distplot([df[f][df["scenario"] == s] for s in scenarios], **kw)
        except Exception as e:
            warnings.warn("failed")
            fig = go.Figure()
        fig.update_layout(showlegend=False)
        fig.update_layout(xaxis_title=f)
        fig.update_layout(yaxis_title="Density")
        fig.update_layout(**lay)
        plots[f] = fig
    return plots


def kde(df, pair, n_points):
    x, y = df[pair[0]], df[pair[1]]
    xx, yy = np.mgrid[x.min():x.max():complex(n_points), y.min():y.max():complex(n_points)]
    kernel = gaussian_kde(np.vstack([x, y]))
    zz = np.reshape(kernel(np.vstack([xx.ravel(), yy.ravel()])).T, xx.shape)
    return xx, yy, zz


def contours(data, model_dict, params, period, factors, observed_factors, states, n_points, contour_kwargs, layout_kwargs,
             contours_showlabels, contours_coloring, contours_colorscale, lines_colorscale, showcolorbar):
    if states is None:
        states = stub.get_filtered_states(model_dict, data, params)["anchored_states"]["states"]
    model = stub.process_model(model_dict)
    factors = selected(model, factors, observed_factors)
    df = table(data, states, period, factors, model["labels"]["periods"])
    if contours_coloring is None:
        contours_coloring = "none"
    kw = {"contours_coloring": contours_coloring, "contours_showlabels": contours_showlabels, "colorscale": contours_colorscale,
          "showscale": showcolorbar}
    if contour_kwargs:
        kw.update(contour_kwargs)
    lay = {"template": "simple_white", "xaxis_showgrid": False, "yaxis_showgrid": False}
    if layout_kwargs:
        lay.update(layout_kwargs)
    plots = {}
    for a in factors:
        for b in factors:
            if a != b:
                fig = go.Figure()
                for i, scenario in enumerate(df["scenario"].unique()):
                    try:
                        x, y, z = kde(df[df["scenario"] == scenario], (a, b), n_points)
                        fig.add_trace(go.Contour(x=x[:, 0], y=y[0, :], z=z,
                                                 line={"color": getattr(px.colors.qualitative, lines_colorscale)[i]}))
                        fig.update_traces(**kw)
                    except Exception as e:
                        warnings.warn("failed")
                fig.update_xaxes(title={"text": a})
                fig.update_yaxes(title={"text": b})
                fig.update_layout(**lay)
                plots[(a, b)] = fig
    return plots


def surfaces(data, model_dict, params, period, factors, observed_factors, states, n_points, layout_kwargs, colorscale, opacity,
             showcolorbar, showgrids, showaxlines, showlabels):
    if states is None:
        states = stub.get_filtered_states(model_dict, data, params)["anchored_states"]["states"]
    elif not isinstance(states, pd.DataFrame):
        raise ValueError
    model = stub.process_model(model_dict)
    factors = selected(model, factors, observed_factors)
    df = table(data, states, period, factors, model["labels"]["periods"])
    axes = {}
    for ax in ["x", "y", "z"]:
        axes[f"{ax}axis"] = {"showgrid": showgrids, "showline": showaxlines}
        if showlabels is False:
            axes[f"{ax}axis"]["title"] = ""
    lay = {"template": "none", "scene": axes}
    if layout_kwargs:
        lay.update(layout_kwargs)
    plots = {}
    for a in factors:
        for b in factors:
            if a != b:
                try:
                    x, y, z = kde(df, (a, b), n_points)
                    fig = go.Figure(go.Surface(x=x, y=y, z=z, showscale=showcolorbar, colorscale=colorscale, opacity=opacity))
                except Exception as e:
                    warnings.warn("failed")
                    fig = go.Figure()
                fig.update_layout(scene={"xaxis": {"title": a}, "yaxis": {"title": b}, "zaxis": {"title": ""}})
                fig.update_layout(**lay)
                plots[(a, b)] = fig
    return plots


def combined_distributions(kde_plots, contour_plots, surface_plots, factor_order, factor_mapping, make_subplot_kwargs, sharex,
                           sharey, line_width, showlegend, layout_kwargs, legend_kwargs, title_kwargs, eye_x, eye_y, eye_z):
    kde_plots, contour_plots, surface_plots = deepcopy(kde_plots), deepcopy(contour_plots), deepcopy(surface_plots)
    available = list(kde_plots.keys())
    label = names(factor_mapping, available)
    if factor_order is None:
        order = available
    elif isinstance(factor_order, str):
        order = [factor_order]
    else:
        order = factor_order
    fig = make_subplots(**subplots(sharex, sharey, order, order, make_subplot_kwargs, True))
    fig.update_layout(**layout(layout_kwargs, legend_kwargs, title_kwargs, showlegend, order, order))
    for c, a in enumerate(order):
        for r, b in enumerate(order):
            if r > c:
                plot = contour_plots[(a, b)]
                for trace in plot.data:
                    trace.update({"showlegend": False})
                    fig.add_trace(trace, col=c + 1, row=r + 1)
                    fig.update_xaxes(title=label[plot.layout.xaxis.title.text], col=c + 1, row=r + 1)
                    fig.update_yaxes(title=label[plot.layout.yaxis.title.text], col=c + 1, row=r + 1)
                    fig.update_traces(line_width=line_width, row=r + 1, col=c + 1)
            elif r == c:
                for trace in kde_plots[a].data:
                    if r != 0:
                        trace.update({"showlegend": False})
                    fig.add_trace(trace, col=c + 1, row=r + 1)
                    fig.update_xaxes(title=label[a], col=c + 1, row=r + 1)
                    fig.update_yaxes(title="Density", col=c + 1, row=r + 1)
                    fig.update_traces(line_width=line_width, row=r + 1, col=c + 1)
            elif surface_plots is not None:
                fig.add_trace(surface_plots[(a, b)].data[0], col=c + 1, row=r + 1)
                fig.update_scenes(camera={"eye": {"x": eye_x, "y": eye_y, "z": eye_z}}, row=r + 1, col=c + 1)
                fig.update_scenes(xaxis={"title": "", "showgrid": True}, row=r + 1, col=c + 1)
                fig.update_scenes(yaxis={"title": "", "showgrid": True}, row=r + 1, col=c + 1)
                fig.update_scenes(zaxis={"title": "", "showgrid": True}, row=r + 1, col=c + 1)
    return fig
