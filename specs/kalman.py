"""Reference: square-root Kalman update and unscented prediction (C01-C03, C05-C07)."""
import jax
import jax.numpy as jnp


def update(states, upper_chols, loadings, control_params, meas_sd, measurements, controls, log_mixture_weights, debug):
    n, m, k = states.shape
    seen = jnp.isfinite(measurements)

    # residual: measurement - (states . loadings + controls . params), only where there is a measurement
    expected = states @ loadings + (controls @ control_params)[:, None]
    residual = measurements[:, None] - expected

    # QR of [[sd, 0], [U loading, U]]
    top = jnp.concatenate([jnp.full((n, m, 1, 1), meas_sd), jnp.zeros((n, m, 1, k))], axis=3)
    bottom = jnp.concatenate([(upper_chols @ loadings)[:, :, :, None], upper_chols], axis=3)
    r = jax.vmap(jax.vmap(jnp.linalg.qr))(jnp.concatenate([top, bottom], axis=2))[1]
    sd = jnp.abs(r[:, :, 0, 0])
    gain = r[:, :, 0, 1:] / r[:, :, 0, 0][:, :, None]

    post_states = states + gain * residual[:, :, None]
    post_chols = r[:, :, 1:, 1:]
    dens = jax.scipy.stats.norm.logpdf(residual, 0, sd)
    if m >= 2:
        joint = dens + log_mixture_weights
        loglike = jax.scipy.special.logsumexp(joint, axis=1)
        post_weights = joint - loglike[:, None]
    else:
        loglike = dens[:, 0]
        post_weights = log_mixture_weights

    new_states = jnp.where(seen[:, None, None], post_states, states)
    new_chols = jnp.where(seen[:, None, None, None], post_chols, upper_chols)
    new_weights = jnp.where(seen[:, None], post_weights, log_mixture_weights)
    info = {}
    if debug:
        info = {
            "residuals": jnp.where(seen[:, None], residual, jnp.nan),
            "residual_sds": jnp.where(seen[:, None], sd, jnp.nan),
            "log_mixture_weights": new_weights,
        }
    return new_states, new_chols, new_weights, jnp.where(seen, loglike, 0), info


def weights(n_states, kappa=2):
    n = 2 * n_states + 1
    rest = jnp.full(n - 1, 1 / (2 * (n_states + kappa)))
    return jnp.sqrt(n_states + kappa), jnp.concatenate([jnp.array([kappa / (n_states + kappa)]), rest])


def sigma_points(states, upper_chols, scaling_factor, observed_factors):
    n, m, k = states.shape
    mean = states[:, :, None, :]
    shift = upper_chols * scaling_factor
    latent = jnp.concatenate([mean, mean + shift, mean - shift], axis=2)
    obs = jnp.broadcast_to(observed_factors[:, None, None, :], (n, m, 2 * k + 1, observed_factors.shape[1]))
    return jnp.concatenate([latent, obs], axis=3)


def transform(sigma_points, transition_info, trans_coeffs, anchoring_scaling_factors, anchoring_constants):
    n, m, s, k = sigma_points.shape
    flat = sigma_points.reshape(n * m * s, k)
    anchored = anchoring_constants[0] + anchoring_scaling_factors[0] * flat
    new = transition_info["func"](trans_coeffs, anchored)
    j = new.shape[-1]
    back = (new - anchoring_constants[1][:j]) / anchoring_scaling_factors[1][:j]
    return back.reshape(n, m, s, j)


def predict(states, upper_chols, sigma_scaling_factor, sigma_weights, transition_info, trans_coeffs, shock_sds,
            anchoring_scaling_factors, anchoring_constants, observed_factors):
    pts = sigma_points(states, upper_chols, sigma_scaling_factor, observed_factors)
    new = transform(pts, transition_info, trans_coeffs, anchoring_scaling_factors, anchoring_constants)
    n, m, s, k = new.shape
    mean = (sigma_weights[:, None] * new).sum(axis=2)
    devs = (new - mean[:, :, None, :]) * jnp.sqrt(sigma_weights)[:, None]
    shocks = jnp.broadcast_to(jnp.diag(shock_sds), (n, m, k, k))
    stack = jnp.concatenate([devs, shocks], axis=2)
    return mean, jax.vmap(jax.vmap(jnp.linalg.qr))(stack)[1][:, :, :k]
