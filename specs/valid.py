"""Reference: validity of a model specification (C21)."""
import numpy as np
from spec import model


def process(model_dict):
    result = model.process(model_dict)
    check(model_dict, result["labels"], result["dimensions"], result["anchoring"])


def check(model_dict, labels, dimensions, anchoring):
    problems = []
    stagemap, stages = labels["stagemap"], labels["stages"]
    if len(stagemap) != dimensions["n_periods"] - 1:
        problems.append("wrong length")
    if stages != list(range(len(stages))):
        problems.append("stages")
    if not np.isin(np.array(stagemap[1:]) - np.array(stagemap[:-1]), (0, 1)).all():
        problems.append("jumps")
    for name in ("anchoring", "free_controls", "free_constant", "free_loadings"):
        if not isinstance(anchoring[name], bool):
            problems.append("not a bool")
    if not isinstance(anchoring["outcomes"], dict):
        problems.append("not a dict")
    else:
        for name in anchoring["outcomes"].values():
            if not isinstance(name, (str, int, tuple)):
                problems.append("not a name")
    for f in labels["latent_factors"]:
        declared = model_dict["factors"][f]["measurements"]
        if not isinstance(declared, list) or not all(isinstance(i, list) for i in declared):
            problems.append("not a list of lists")
        else:
            for t in range(len(declared)):
                for m in declared[t]:
                    if not isinstance(m, (int, str, tuple)):
                        problems.append("not a name")
    for f in labels["latent_factors"]:
        declared = model_dict["factors"][f]["measurements"]
        for kind in ("loadings", "intercepts"):
            given = model_dict["factors"][f].get("normalizations", {}).get(kind, [])
            if not isinstance(given, list) or not all(isinstance(i, dict) for i in given):
                problems.append("not a list of dicts")
            else:
                for t in range(len(given)):
                    for m in given[t]:
                        if t >= len(declared) or m not in declared[t]:
                            problems.append("not declared")
                if kind == "loadings":
                    for t in range(len(given)):
                        for m in given[t]:
                            if given[t][m] == 0:
                                problems.append("zero loading")
    if len(problems) > 0:
        raise ValueError(problems)
