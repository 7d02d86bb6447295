"""Reference: built-in transition functions and their parameter names (C13)."""
from itertools import combinations

import jax
import jax.numpy as jnp
import numpy as np


def linear(states, params):
    n = len(states)
    return sum(states[i] * params[i] for i in range(n)) + params[-1]


def translog(states, params):
    n = len(states)
    out = params[-1]
    for i in range(n):
        out = out + states[i] * params[i]
    for i in range(n):
        out = out + states[i] ** 2 * params[n + i]
    for weight, (a, b) in zip(params[2 * n:-1], combinations(range(n), 2)):
        out = out + weight * states[a] * states[b]
    return out


def robust_translog(states, params):
    return translog(jnp.clip(states, -1e12, 1e12), params)


def linear_and_squares(states, params):
    n = len(states)
    return sum(states[i] * params[i] + states[i] ** 2 * params[n + i] for i in range(n)) + params[-1]


def log_ces(states, params):
    n = len(states)
    phi = params[-1]
    return jax.scipy.special.logsumexp(jnp.log(params[:n]) + phi * states) / phi


def log_ces_general(states, params):
    n = len(states)
    return params[-1] * jax.scipy.special.logsumexp(jnp.log(params[:n]) + params[n:2 * n] * states)


def constant(state, params):
    return state


def names_linear(factors):
    return [*factors, "constant"]


def names_translog(factors):
    return [*factors, *[f"{f} ** 2" for f in factors], *[f"{a} * {b}" for a, b in combinations(factors, 2)], "constant"]


def names_linear_and_squares(factors):
    return [*factors, *[f"{f} ** 2" for f in factors], "constant"]


def names_log_ces(factors):
    return [*factors, "phi"]


def names_log_ces_general(factors):
    return [*factors, *["sigma_" + f for f in factors], "tfp"]


def names_constant(factors):
    return []


def constraints_log_ces(factor, factors, period):
    return {"loc": [("transition", period, factor, f) for f in factors], "type": "probability"}
