"""Reference: soft clipping (C09)."""
import jax.numpy as jnp


def clip(arr, lower=None, upper=None, lower_hardness=1, upper_hardness=1):
    x = arr
    if lower is not None:
        x = jnp.logaddexp(lower_hardness * x, lower_hardness * lower) / lower_hardness
    if upper is not None:
        x = -jnp.logaddexp(-upper_hardness * x, -upper_hardness * upper) / upper_hardness
    return x
