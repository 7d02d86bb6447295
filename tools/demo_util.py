import warnings

import numpy as np
import pandas as pd

warnings.filterwarnings("ignore")


def model(n_mix=1, controls=(), observed=(), anchoring=None, n_periods=2, trans="linear", factors=("f1", "f2"), n_meas=3, **kw):
    m = {"factors": {}, "estimation_options": {"n_mixtures": n_mix}}
    for f in factors:
        m["factors"][f] = {
            "measurements": [[f"{f}_{j}" for j in range(n_meas)] for _ in range(n_periods)],
            "normalizations": {"loadings": [{f"{f}_0": 1} for _ in range(n_periods)], "intercepts": [{f"{f}_0": 0} for _ in range(n_periods)]},
            "transition_function": trans,
        }
    if observed:
        m["observed_factors"] = list(observed)
    if controls:
        m["controls"] = list(controls)
    if anchoring:
        m["anchoring"] = anchoring
    m.update(kw)
    return m


def data(m, n=20, seed=0, extra=()):
    rng = np.random.default_rng(seed)
    t = max(len(d["measurements"]) for d in m["factors"].values())
    idx = pd.MultiIndex.from_product([range(n), range(t)], names=["caseid", "period"])
    cols = sorted({v for d in m["factors"].values() for p in d["measurements"] for v in p})
    cols += [*m.get("controls", []), *m.get("observed_factors", []), *dict.fromkeys(m.get("anchoring", {}).get("outcomes", {}).values()), *extra]
    return pd.DataFrame(rng.normal(size=(len(idx), len(cols))), index=idx, columns=cols)


def params(template, seed=1, low=0.3, high=0.6):
    rng = np.random.default_rng(seed)
    p = template.copy()
    p["value"] = rng.uniform(low, high, len(p))
    if "mixture_weights" in p.index.get_level_values(0):
        w = p.index.get_level_values(0) == "mixture_weights"
        p.loc[w, "value"] = 1 / w.sum()
    return p
