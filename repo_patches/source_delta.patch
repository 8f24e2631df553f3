From 607b8c03647dfbc0722b7bc6685437321c5c9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:08 +0000
Subject: [PATCH 01/18] fix: repeat observed factors for each mixture element
 in the sigma points

Models with observed factors and more than one mixture element crashed.
---
 skillmodels/kalman_filters.py | 636 +++++++++++++++++-----------------
 1 file changed, 318 insertions(+), 318 deletions(-)

diff --git a/skillmodels/kalman_filters.py b/skillmodels/kalman_filters.py
index c84a73a..cb356a5 100644
--- a/skillmodels/kalman_filters.py
+++ b/skillmodels/kalman_filters.py
@@ -1,318 +1,318 @@
-import jax
-import jax.numpy as jnp
-
-
-array_qr_jax = jax.vmap(jax.vmap(jnp.linalg.qr))
-
-
-# ======================================================================================
-# Update Step
-# ======================================================================================
-
-
-def kalman_update(
-    states,
-    upper_chols,
-    loadings,
-    control_params,
-    meas_sd,
-    measurements,
-    controls,
-    log_mixture_weights,
-    debug,
-):
-    """Perform a Kalman update with likelihood evaluation.
-
-    Args:
-        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
-            pre-update states estimates.
-        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
-            n_states) with the transpose of the lower triangular cholesky factor
-            of the pre-update covariance matrix of the state estimates.
-        loadings (jax.numpy.array): 1d array of length n_states with factor loadings.
-        control_params (jax.numpy.array): 1d array of length n_controls.
-        meas_sd (float): Standard deviation of the measurement error.
-        measurements (jax.numpy.array): 1d array of length n_obs with measurements.
-            May contain NaNs if no measurement was observed.
-        controls (jax.numpy.array): Array of shape (n_obs, n_controls) with data on the
-            control variables.
-        log_mixture_weights (jax.numpy.array): Array of shape (n_obs, n_mixtures) with
-            the natural logarithm of the weights of each element of the mixture of
-            normals distribution.
-        debug (bool): If true, the debug_info contains the residuals of the update and
-            their standard deviations. Otherwise, it is an empty dict.
-
-    Returns:
-        states (jax.numpy.array): Same format as states.
-        new_states (jax.numpy.array): Same format as states.
-        new_upper_chols (jax.numpy.array): Same format as upper_chols
-        new_log_mixture_weights: (jax.numpy.array): Same format as log_mixture_weights
-        new_loglikes: (jax.numpy.array): 1d array of length n_obs
-        debug_info (dict): Empty or containing residuals and residual_sds
-
-    """
-    n_obs, n_mixtures, n_states = states.shape
-
-    not_missing = jnp.isfinite(measurements)
-
-    # replace missing measurements and controls by reasonable fill values to avoid NaNs
-    # in the gradient calculation. All values that are influenced by this, are
-    # replaced by other values later. Choosing the average expected
-    # expected measurements without controls as fill value ensures that all numbers
-    # are well defined because the fill values have a reasonable order of magnitude.
-    # See https://github.com/tensorflow/probability/blob/main/discussion/where-nan.pdf
-    # and https://jax.readthedocs.io/en/latest/faq.html
-    # for more details on the issue of NaNs in gradient calculations.
-    _safe_controls = jnp.where(not_missing.reshape(n_obs, 1), controls, 0)
-
-    _safe_expected_measurements = jnp.dot(states, loadings) + jnp.dot(
-        _safe_controls, control_params
-    ).reshape(n_obs, 1)
-
-    _safe_measurements = jnp.where(
-        not_missing, measurements, _safe_expected_measurements.mean(axis=1)
-    )
-
-    _residuals = _safe_measurements.reshape(n_obs, 1) - _safe_expected_measurements
-    _f_stars = jnp.dot(upper_chols, loadings.reshape(n_states, 1))
-
-    _m = jnp.zeros((n_obs, n_mixtures, n_states + 1, n_states + 1))
-    _m = _m.at[..., 0, 0].set(meas_sd)
-    _m = _m.at[..., 1:, :1].set(_f_stars)
-    _m = _m.at[..., 1:, 1:].set(upper_chols)
-
-    _r = array_qr_jax(_m)[1]
-
-    _new_upper_chols = _r[..., 1:, 1:]
-    _root_sigmas = _r[..., 0, 0]
-    _abs_root_sigmas = jnp.abs(_root_sigmas)
-    # it is important not to divide by the absolute value of _root_sigmas in order
-    # to recover the sign of the Kalman gain.
-    _kalman_gains = _r[..., 0, 1:] / _root_sigmas.reshape(n_obs, n_mixtures, 1)
-    _new_states = states + _kalman_gains * _residuals.reshape(n_obs, n_mixtures, 1)
-
-    # calculate log likelihood per individual and update mixture weights
-    _loglikes_per_dist = jax.scipy.stats.norm.logpdf(_residuals, 0, _abs_root_sigmas)
-    if n_mixtures >= 2:
-        _weighted_loglikes_per_dist = _loglikes_per_dist + log_mixture_weights
-        _loglikes = jax.scipy.special.logsumexp(_weighted_loglikes_per_dist, axis=1)
-        _new_log_mixture_weights = _weighted_loglikes_per_dist - _loglikes.reshape(
-            -1, 1
-        )
-
-    else:
-        _loglikes = _loglikes_per_dist.flatten()
-        _new_log_mixture_weights = log_mixture_weights
-
-    # combine pre-update quantities for missing observations with updated quantities
-    new_states = jnp.where(not_missing.reshape(n_obs, 1, 1), _new_states, states)
-    new_upper_chols = jnp.where(
-        not_missing.reshape(n_obs, 1, 1, 1), _new_upper_chols, upper_chols
-    )
-    new_loglikes = jnp.where(not_missing, _loglikes, 0)
-    new_log_mixture_weights = jnp.where(
-        not_missing.reshape(n_obs, 1), _new_log_mixture_weights, log_mixture_weights
-    )
-
-    debug_info = {}
-    if debug:
-        residuals = jnp.where(not_missing.reshape(n_obs, 1), _residuals, jnp.nan)
-        debug_info["residuals"] = residuals
-        residual_sds = jnp.where(
-            not_missing.reshape(n_obs, 1), _abs_root_sigmas, jnp.nan
-        )
-        debug_info["residual_sds"] = residual_sds
-        debug_info["log_mixture_weights"] = new_log_mixture_weights
-
-    return (
-        new_states,
-        new_upper_chols,
-        new_log_mixture_weights,
-        new_loglikes,
-        debug_info,
-    )
-
-
-# ======================================================================================
-# Predict Step
-# ======================================================================================
-
-
-def calculate_sigma_scaling_factor_and_weights(n_states, kappa=2):
-    """Calculate the scaling factor and weights for sigma points according to Julier.
-
-    There are other sigma point algorithms, but many of them possibly have negative
-    weights which makes the unscented predict step more complicated.
-
-    Args:
-        n_states (int): Number of states.
-        kappa (float): Spreading factor of the sigma points.
-
-    Returns:
-        float: Scaling factor
-        jax.numpy.array: Sigma weights of length 2 * n_states + 1
-
-    """
-    scaling_factor = jnp.sqrt(kappa + n_states)
-    n_sigma = 2 * n_states + 1
-    weights = 0.5 * jnp.ones(n_sigma) / (n_states + kappa)
-    weights = weights.at[0].set(kappa / (n_states + kappa))
-    return scaling_factor, weights
-
-
-def kalman_predict(
-    states,
-    upper_chols,
-    sigma_scaling_factor,
-    sigma_weights,
-    transition_info,
-    trans_coeffs,
-    shock_sds,
-    anchoring_scaling_factors,
-    anchoring_constants,
-    observed_factors,
-):
-    """Make a unscented Kalman predict.
-
-    Args:
-        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
-            pre-update states estimates.
-        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
-            n_states) with the transpose of the lower triangular cholesky factor
-            of the pre-update covariance matrix of the state estimates.
-        sigma_scaling_factor (float): A scaling factor that controls the spread of the
-            sigma points. Bigger means that sigma points are further apart. Depends on
-            the sigma_point algorithm chosen.
-        sigma_weights (jax.numpy.array): 1d array of length n_sigma with non-negative
-            sigma weights.
-        transition_info (dict): Dict with the entries "func" (the actual transition
-            function) and "columns" (a dictionary mapping factors that are needed
-            as individual columns to positions in the factor array).
-        trans_coeffs (tuple): Tuple of 1d jax.numpy.arrays with transition parameters.
-        anchoring_scaling_factors (jax.numpy.array): Array of shape (2, n_fac) with
-            the scaling factors for anchoring. The first row corresponds to the input
-            period, the second to the output period (i.e. input period + 1).
-        anchoring_constants (jax.numpy.array): Array of shape (2, n_states) with the
-            constants for anchoring. The first row corresponds to the input
-            period, the second to the output period (i.e. input period + 1).
-        observed_factors (jax.numpy.array): Array of shape (n_obs, n_observed_factors)
-            with data on the observed factors in period t.
-
-    Returns:
-        jax.numpy.array: Predicted states, same shape as states.
-        jax.numpy.array: Predicted upper_chols, same shape as upper_chols.
-
-    """
-    sigma_points = _calculate_sigma_points(
-        states, upper_chols, sigma_scaling_factor, observed_factors
-    )
-    transformed = transform_sigma_points(
-        sigma_points,
-        transition_info,
-        trans_coeffs,
-        anchoring_scaling_factors,
-        anchoring_constants,
-    )
-
-    # do not use sigma_points.shape because sigma_points contain observed factors
-    n_obs, n_mixtures, n_sigma, n_fac = transformed.shape
-
-    predicted_states = jnp.dot(sigma_weights, transformed)
-
-    devs = transformed - predicted_states.reshape(n_obs, n_mixtures, 1, n_fac)
-
-    qr_weights = jnp.sqrt(sigma_weights).reshape(n_sigma, 1)
-    qr_points = jnp.zeros((n_obs, n_mixtures, n_sigma + n_fac, n_fac))
-    qr_points = qr_points.at[:, :, 0:n_sigma].set(devs * qr_weights)
-    qr_points = qr_points.at[:, :, n_sigma:].set(jnp.diag(shock_sds))
-    predicted_covs = array_qr_jax(qr_points)[1][:, :, :n_fac]
-
-    return predicted_states, predicted_covs
-
-
-def _calculate_sigma_points(states, upper_chols, scaling_factor, observed_factors):
-    """Calculate the array of sigma_points for the unscented transform.
-
-    Args:
-        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
-            pre-update states estimates.
-        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
-            n_states) with the transpose of the lower triangular cholesky factor
-            of the pre-update covariance matrix of the state estimates.
-        scaling_factor (float): A scaling factor that controls the spread of the
-            sigma points. Bigger means that sigma points are further apart. Depends on
-            the sigma_point algorithm chosen.
-        observed_factors (jax.numpy.array): Array of shape (n_obs, n_observed_factors)
-            with data on the observed factors in period t.
-
-    Returns:
-        jax.numpy.array: Array of shape n_obs, n_mixtures, n_sigma, n_fac (where n_sigma
-        equals 2 * n_fac + 1) with sigma points.
-
-    """
-    n_obs, n_mixtures, n_fac = states.shape
-    n_sigma = 2 * n_fac + 1
-    n_observed = observed_factors.shape[1]
-
-    scaled_upper_chols = upper_chols * scaling_factor
-    sigma_points = jnp.repeat(states, n_sigma, axis=1).reshape(
-        n_obs, n_mixtures, n_sigma, n_fac
-    )
-    sigma_points = sigma_points.at[:, :, 1 : n_fac + 1].add(scaled_upper_chols)
-    sigma_points = sigma_points.at[:, :, n_fac + 1 :].add(-scaled_upper_chols)
-
-    observed_part = observed_factors.repeat(n_sigma, axis=0).reshape(
-        n_obs, n_mixtures, n_sigma, n_observed
-    )
-
-    sigma_points = jnp.concatenate([sigma_points, observed_part], axis=-1)
-    return sigma_points
-
-
-def transform_sigma_points(
-    sigma_points,
-    transition_info,
-    trans_coeffs,
-    anchoring_scaling_factors,
-    anchoring_constants,
-):
-    """Anchor sigma points, transform them and unanchor the transformed sigma points.
-
-    Args:
-        sigma_points (jax.numpy.array) of shape n_obs, n_mixtures, n_sigma, n_fac.
-        transition_info (dict): Dict with the entries "func" (the actual transition
-            function) and "columns" (a dictionary mapping factors that are needed
-            as individual columns to positions in the factor array).
-        trans_coeffs (tuple): Tuple of 1d jax.numpy.arrays with transition parameters.
-        anchoring_scaling_factors (jax.numpy.array): Array of shape (2, n_states) with
-            the scaling factors for anchoring. The first row corresponds to the input
-            period, the second to the output period (i.e. input period + 1).
-        anchoring_constants (jax.numpy.array): Array of shape (2, n_states) with the
-            constants for anchoring. The first row corresponds to the input
-            period, the second to the output period (i.e. input period + 1).
-
-    Returns:
-        jax.numpy.array: Array of shape n_obs, n_mixtures, n_sigma, n_fac (where n_sigma
-        equals 2 * n_fac + 1) with transformed sigma points.
-
-    """
-    n_obs, n_mixtures, n_sigma, n_fac = sigma_points.shape
-
-    flat_sigma_points = sigma_points.reshape(-1, n_fac)
-
-    anchored = flat_sigma_points * anchoring_scaling_factors[0] + anchoring_constants[0]
-
-    transition_function = transition_info["func"]
-
-    transformed_anchored = transition_function(trans_coeffs, anchored)
-
-    n_observed = transformed_anchored.shape[-1]
-
-    transformed_unanchored = (
-        transformed_anchored - anchoring_constants[1][:n_observed]
-    ) / anchoring_scaling_factors[1][:n_observed]
-
-    out_shape = (n_obs, n_mixtures, n_sigma, -1)
-    out = transformed_unanchored.reshape(out_shape)
-
-    return out
+import jax
+import jax.numpy as jnp
+
+
+array_qr_jax = jax.vmap(jax.vmap(jnp.linalg.qr))
+
+
+# ======================================================================================
+# Update Step
+# ======================================================================================
+
+
+def kalman_update(
+    states,
+    upper_chols,
+    loadings,
+    control_params,
+    meas_sd,
+    measurements,
+    controls,
+    log_mixture_weights,
+    debug,
+):
+    """Perform a Kalman update with likelihood evaluation.
+
+    Args:
+        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
+            pre-update states estimates.
+        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
+            n_states) with the transpose of the lower triangular cholesky factor
+            of the pre-update covariance matrix of the state estimates.
+        loadings (jax.numpy.array): 1d array of length n_states with factor loadings.
+        control_params (jax.numpy.array): 1d array of length n_controls.
+        meas_sd (float): Standard deviation of the measurement error.
+        measurements (jax.numpy.array): 1d array of length n_obs with measurements.
+            May contain NaNs if no measurement was observed.
+        controls (jax.numpy.array): Array of shape (n_obs, n_controls) with data on the
+            control variables.
+        log_mixture_weights (jax.numpy.array): Array of shape (n_obs, n_mixtures) with
+            the natural logarithm of the weights of each element of the mixture of
+            normals distribution.
+        debug (bool): If true, the debug_info contains the residuals of the update and
+            their standard deviations. Otherwise, it is an empty dict.
+
+    Returns:
+        states (jax.numpy.array): Same format as states.
+        new_states (jax.numpy.array): Same format as states.
+        new_upper_chols (jax.numpy.array): Same format as upper_chols
+        new_log_mixture_weights: (jax.numpy.array): Same format as log_mixture_weights
+        new_loglikes: (jax.numpy.array): 1d array of length n_obs
+        debug_info (dict): Empty or containing residuals and residual_sds
+
+    """
+    n_obs, n_mixtures, n_states = states.shape
+
+    not_missing = jnp.isfinite(measurements)
+
+    # replace missing measurements and controls by reasonable fill values to avoid NaNs
+    # in the gradient calculation. All values that are influenced by this, are
+    # replaced by other values later. Choosing the average expected
+    # expected measurements without controls as fill value ensures that all numbers
+    # are well defined because the fill values have a reasonable order of magnitude.
+    # See https://github.com/tensorflow/probability/blob/main/discussion/where-nan.pdf
+    # and https://jax.readthedocs.io/en/latest/faq.html
+    # for more details on the issue of NaNs in gradient calculations.
+    _safe_controls = jnp.where(not_missing.reshape(n_obs, 1), controls, 0)
+
+    _safe_expected_measurements = jnp.dot(states, loadings) + jnp.dot(
+        _safe_controls, control_params
+    ).reshape(n_obs, 1)
+
+    _safe_measurements = jnp.where(
+        not_missing, measurements, _safe_expected_measurements.mean(axis=1)
+    )
+
+    _residuals = _safe_measurements.reshape(n_obs, 1) - _safe_expected_measurements
+    _f_stars = jnp.dot(upper_chols, loadings.reshape(n_states, 1))
+
+    _m = jnp.zeros((n_obs, n_mixtures, n_states + 1, n_states + 1))
+    _m = _m.at[..., 0, 0].set(meas_sd)
+    _m = _m.at[..., 1:, :1].set(_f_stars)
+    _m = _m.at[..., 1:, 1:].set(upper_chols)
+
+    _r = array_qr_jax(_m)[1]
+
+    _new_upper_chols = _r[..., 1:, 1:]
+    _root_sigmas = _r[..., 0, 0]
+    _abs_root_sigmas = jnp.abs(_root_sigmas)
+    # it is important not to divide by the absolute value of _root_sigmas in order
+    # to recover the sign of the Kalman gain.
+    _kalman_gains = _r[..., 0, 1:] / _root_sigmas.reshape(n_obs, n_mixtures, 1)
+    _new_states = states + _kalman_gains * _residuals.reshape(n_obs, n_mixtures, 1)
+
+    # calculate log likelihood per individual and update mixture weights
+    _loglikes_per_dist = jax.scipy.stats.norm.logpdf(_residuals, 0, _abs_root_sigmas)
+    if n_mixtures >= 2:
+        _weighted_loglikes_per_dist = _loglikes_per_dist + log_mixture_weights
+        _loglikes = jax.scipy.special.logsumexp(_weighted_loglikes_per_dist, axis=1)
+        _new_log_mixture_weights = _weighted_loglikes_per_dist - _loglikes.reshape(
+            -1, 1
+        )
+
+    else:
+        _loglikes = _loglikes_per_dist.flatten()
+        _new_log_mixture_weights = log_mixture_weights
+
+    # combine pre-update quantities for missing observations with updated quantities
+    new_states = jnp.where(not_missing.reshape(n_obs, 1, 1), _new_states, states)
+    new_upper_chols = jnp.where(
+        not_missing.reshape(n_obs, 1, 1, 1), _new_upper_chols, upper_chols
+    )
+    new_loglikes = jnp.where(not_missing, _loglikes, 0)
+    new_log_mixture_weights = jnp.where(
+        not_missing.reshape(n_obs, 1), _new_log_mixture_weights, log_mixture_weights
+    )
+
+    debug_info = {}
+    if debug:
+        residuals = jnp.where(not_missing.reshape(n_obs, 1), _residuals, jnp.nan)
+        debug_info["residuals"] = residuals
+        residual_sds = jnp.where(
+            not_missing.reshape(n_obs, 1), _abs_root_sigmas, jnp.nan
+        )
+        debug_info["residual_sds"] = residual_sds
+        debug_info["log_mixture_weights"] = new_log_mixture_weights
+
+    return (
+        new_states,
+        new_upper_chols,
+        new_log_mixture_weights,
+        new_loglikes,
+        debug_info,
+    )
+
+
+# ======================================================================================
+# Predict Step
+# ======================================================================================
+
+
+def calculate_sigma_scaling_factor_and_weights(n_states, kappa=2):
+    """Calculate the scaling factor and weights for sigma points according to Julier.
+
+    There are other sigma point algorithms, but many of them possibly have negative
+    weights which makes the unscented predict step more complicated.
+
+    Args:
+        n_states (int): Number of states.
+        kappa (float): Spreading factor of the sigma points.
+
+    Returns:
+        float: Scaling factor
+        jax.numpy.array: Sigma weights of length 2 * n_states + 1
+
+    """
+    scaling_factor = jnp.sqrt(kappa + n_states)
+    n_sigma = 2 * n_states + 1
+    weights = 0.5 * jnp.ones(n_sigma) / (n_states + kappa)
+    weights = weights.at[0].set(kappa / (n_states + kappa))
+    return scaling_factor, weights
+
+
+def kalman_predict(
+    states,
+    upper_chols,
+    sigma_scaling_factor,
+    sigma_weights,
+    transition_info,
+    trans_coeffs,
+    shock_sds,
+    anchoring_scaling_factors,
+    anchoring_constants,
+    observed_factors,
+):
+    """Make a unscented Kalman predict.
+
+    Args:
+        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
+            pre-update states estimates.
+        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
+            n_states) with the transpose of the lower triangular cholesky factor
+            of the pre-update covariance matrix of the state estimates.
+        sigma_scaling_factor (float): A scaling factor that controls the spread of the
+            sigma points. Bigger means that sigma points are further apart. Depends on
+            the sigma_point algorithm chosen.
+        sigma_weights (jax.numpy.array): 1d array of length n_sigma with non-negative
+            sigma weights.
+        transition_info (dict): Dict with the entries "func" (the actual transition
+            function) and "columns" (a dictionary mapping factors that are needed
+            as individual columns to positions in the factor array).
+        trans_coeffs (tuple): Tuple of 1d jax.numpy.arrays with transition parameters.
+        anchoring_scaling_factors (jax.numpy.array): Array of shape (2, n_fac) with
+            the scaling factors for anchoring. The first row corresponds to the input
+            period, the second to the output period (i.e. input period + 1).
+        anchoring_constants (jax.numpy.array): Array of shape (2, n_states) with the
+            constants for anchoring. The first row corresponds to the input
+            period, the second to the output period (i.e. input period + 1).
+        observed_factors (jax.numpy.array): Array of shape (n_obs, n_observed_factors)
+            with data on the observed factors in period t.
+
+    Returns:
+        jax.numpy.array: Predicted states, same shape as states.
+        jax.numpy.array: Predicted upper_chols, same shape as upper_chols.
+
+    """
+    sigma_points = _calculate_sigma_points(
+        states, upper_chols, sigma_scaling_factor, observed_factors
+    )
+    transformed = transform_sigma_points(
+        sigma_points,
+        transition_info,
+        trans_coeffs,
+        anchoring_scaling_factors,
+        anchoring_constants,
+    )
+
+    # do not use sigma_points.shape because sigma_points contain observed factors
+    n_obs, n_mixtures, n_sigma, n_fac = transformed.shape
+
+    predicted_states = jnp.dot(sigma_weights, transformed)
+
+    devs = transformed - predicted_states.reshape(n_obs, n_mixtures, 1, n_fac)
+
+    qr_weights = jnp.sqrt(sigma_weights).reshape(n_sigma, 1)
+    qr_points = jnp.zeros((n_obs, n_mixtures, n_sigma + n_fac, n_fac))
+    qr_points = qr_points.at[:, :, 0:n_sigma].set(devs * qr_weights)
+    qr_points = qr_points.at[:, :, n_sigma:].set(jnp.diag(shock_sds))
+    predicted_covs = array_qr_jax(qr_points)[1][:, :, :n_fac]
+
+    return predicted_states, predicted_covs
+
+
+def _calculate_sigma_points(states, upper_chols, scaling_factor, observed_factors):
+    """Calculate the array of sigma_points for the unscented transform.
+
+    Args:
+        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
+            pre-update states estimates.
+        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
+            n_states) with the transpose of the lower triangular cholesky factor
+            of the pre-update covariance matrix of the state estimates.
+        scaling_factor (float): A scaling factor that controls the spread of the
+            sigma points. Bigger means that sigma points are further apart. Depends on
+            the sigma_point algorithm chosen.
+        observed_factors (jax.numpy.array): Array of shape (n_obs, n_observed_factors)
+            with data on the observed factors in period t.
+
+    Returns:
+        jax.numpy.array: Array of shape n_obs, n_mixtures, n_sigma, n_fac (where n_sigma
+        equals 2 * n_fac + 1) with sigma points.
+
+    """
+    n_obs, n_mixtures, n_fac = states.shape
+    n_sigma = 2 * n_fac + 1
+    n_observed = observed_factors.shape[1]
+
+    scaled_upper_chols = upper_chols * scaling_factor
+    sigma_points = jnp.repeat(states, n_sigma, axis=1).reshape(
+        n_obs, n_mixtures, n_sigma, n_fac
+    )
+    sigma_points = sigma_points.at[:, :, 1 : n_fac + 1].add(scaled_upper_chols)
+    sigma_points = sigma_points.at[:, :, n_fac + 1 :].add(-scaled_upper_chols)
+
+    observed_part = observed_factors.repeat(n_mixtures * n_sigma, axis=0).reshape(
+        n_obs, n_mixtures, n_sigma, n_observed
+    )
+
+    sigma_points = jnp.concatenate([sigma_points, observed_part], axis=-1)
+    return sigma_points
+
+
+def transform_sigma_points(
+    sigma_points,
+    transition_info,
+    trans_coeffs,
+    anchoring_scaling_factors,
+    anchoring_constants,
+):
+    """Anchor sigma points, transform them and unanchor the transformed sigma points.
+
+    Args:
+        sigma_points (jax.numpy.array) of shape n_obs, n_mixtures, n_sigma, n_fac.
+        transition_info (dict): Dict with the entries "func" (the actual transition
+            function) and "columns" (a dictionary mapping factors that are needed
+            as individual columns to positions in the factor array).
+        trans_coeffs (tuple): Tuple of 1d jax.numpy.arrays with transition parameters.
+        anchoring_scaling_factors (jax.numpy.array): Array of shape (2, n_states) with
+            the scaling factors for anchoring. The first row corresponds to the input
+            period, the second to the output period (i.e. input period + 1).
+        anchoring_constants (jax.numpy.array): Array of shape (2, n_states) with the
+            constants for anchoring. The first row corresponds to the input
+            period, the second to the output period (i.e. input period + 1).
+
+    Returns:
+        jax.numpy.array: Array of shape n_obs, n_mixtures, n_sigma, n_fac (where n_sigma
+        equals 2 * n_fac + 1) with transformed sigma points.
+
+    """
+    n_obs, n_mixtures, n_sigma, n_fac = sigma_points.shape
+
+    flat_sigma_points = sigma_points.reshape(-1, n_fac)
+
+    anchored = flat_sigma_points * anchoring_scaling_factors[0] + anchoring_constants[0]
+
+    transition_function = transition_info["func"]
+
+    transformed_anchored = transition_function(trans_coeffs, anchored)
+
+    n_observed = transformed_anchored.shape[-1]
+
+    transformed_unanchored = (
+        transformed_anchored - anchoring_constants[1][:n_observed]
+    ) / anchoring_scaling_factors[1][:n_observed]
+
+    out_shape = (n_obs, n_mixtures, n_sigma, -1)
+    out = transformed_unanchored.reshape(out_shape)
+
+    return out
-- 
2.43.0


From 0a160c89de1b5e6ae70d39958f149608a61b123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:08 +0000
Subject: [PATCH 02/18] fix: keep observed factors of individuals with missing
 controls

The observed factors were set to NaN together with the measurements, which made
the likelihood contribution of these individuals NaN.
---
 skillmodels/process_data.py | 319 ++++++++++++++++++------------------
 1 file changed, 160 insertions(+), 159 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 9222005..dbd60a9 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -1,159 +1,160 @@
-import warnings
-
-import jax.numpy as jnp
-import numpy as np
-import pandas as pd
-
-from skillmodels.process_model import get_period_measurements
-
-
-def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
-    """Process the data for estimation.
-
-    Args:
-        df (DataFrame): panel dataset in long format. It has a MultiIndex
-            where the first level indicates the period and the second
-            the individual.
-        labels (dict): Dict of lists with labels for the model quantities like
-            factors, periods, controls, stagemap and stages. See :ref:`labels`
-        update_info (pandas.DataFrame): DataFrame with one row per Kalman update needed
-            in the likelihood function. See :ref:`update_info`.
-        anchoring_info (dict): Information about anchoring. See :ref:`anchoring`
-
-    Returns:
-        meas_data (jax.numpy.array): Array of shape (n_updates, n_obs) with data on
-            observed measurements. NaN if the measurement was not observed.
-        control_data (jax.numpy.array): Array of shape (n_periods, n_obs, n_controls)
-            with observed control variables for the measurement equations.
-        observed_factors (jax.numpy.array): Array of shape (n_periods, n_obs,
-            n_observed_factors) with data on the observed factors.
-
-    """
-    df = pre_process_data(df, labels["periods"])
-    df["constant"] = 1
-    df = _add_copies_of_anchoring_outcome(df, anchoring_info)
-    _check_data(df, update_info, labels, purpose=purpose)
-    n_obs = int(len(df) / len(labels["periods"]))
-    df = _handle_controls_with_missings(df, labels["controls"], update_info)
-    if purpose == "estimation":
-        meas_data = _generate_measurements_array(df, update_info, n_obs)
-    control_data = _generate_controls_array(df, labels, n_obs)
-    observed_data = _generate_observed_factor_array(df, labels, n_obs)
-
-    if purpose == "estimation":
-        out = (meas_data, control_data, observed_data)
-    else:
-        out = (control_data, observed_data)
-    return out
-
-
-def pre_process_data(df, periods):
-    """Balance panel data in long format, drop unnecessary periods and set index.
-
-    Args:
-        df (DataFrame): panel dataset in long format. It has a MultiIndex
-            where the first level indicates the period and the second
-            the individual.
-
-    Returns:
-        balanced (DataFrame): balanced panel. It has a MultiIndex. The first
-            enumerates individuals. The second level counts periods, starting at 0.
-
-    """
-    df = df.copy(deep=True).sort_index()
-    df["__old_id__"] = df.index.get_level_values(0)
-    df["__old_period__"] = df.index.get_level_values(1)
-
-    # replace existing codes for periods and
-    df.index.names = ["id", "period"]
-    for level in [0, 1]:
-        df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
-
-    # create new index
-    ids = sorted(df.index.get_level_values("id").unique())
-    new_index = pd.MultiIndex.from_product([ids, periods], names=["id", "period"])
-
-    # set new index
-    df = df.reindex(new_index)
-
-    return df
-
-
-def _add_copies_of_anchoring_outcome(df, anchoring_info):
-    df = df.copy()
-    for factor in anchoring_info["factors"]:
-        outcome = anchoring_info["outcomes"][factor]
-        df[f"{outcome}_{factor}"] = df[outcome]
-    return df
-
-
-def _check_data(df, update_info, labels, purpose):
-    var_report = pd.DataFrame(index=update_info.index[:0], columns=["problem"])
-    for period in labels["periods"]:
-        period_data = df.query(f"period == {period}")
-        for cont in labels["controls"]:
-            if cont not in period_data.columns or period_data[cont].isnull().all():
-                var_report.loc[(period, cont), "problem"] = "Variable is missing"
-
-        if purpose == "estimation":
-            for meas in get_period_measurements(update_info, period):
-                if meas not in period_data.columns:
-                    var_report.loc[(period, meas), "problem"] = "Variable is missing"
-                elif len(period_data[meas].dropna().unique()) == 1:
-                    var_report.loc[
-                        (period, meas), "problem"
-                    ] = "Variable has no variance"
-
-        for factor in labels["observed_factors"]:
-            if factor not in period_data.columns:
-                var_report.loc[(period, factor), "problem"] = "Variable is missing"
-            elif period_data[factor].isnull().any():
-                var_report.loc[(period, factor), "problem"] = "Variable has missings"
-
-    var_report = var_report.to_string() if len(var_report) > 0 else ""
-
-    if var_report:
-        raise ValueError(var_report)
-
-
-def _handle_controls_with_missings(df, controls, update_info):
-    df = df.copy(deep=True)
-    periods = update_info.index.get_level_values(0).unique().tolist()
-    problematic_index = df.index[:0]
-    for period in periods:
-        period_data = df.query(f"period == {period}")
-        control_data = period_data[controls]
-        meas_data = period_data[get_period_measurements(update_info, period)]
-        problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)
-        problematic_index = problematic_index.union(period_data[problem].index)
-
-    if len(problematic_index) > 0:
-        old_names = df.loc[problematic_index][["__old_id__", "__old_period__"]]
-        msg = "Set measurements to NaN because there are NaNs in the controls for:\n{}"
-        msg = msg.format(list(map(tuple, old_names.to_numpy().tolist())))
-        warnings.warn(msg)
-        df.loc[problematic_index] = np.nan
-    return df
-
-
-def _generate_measurements_array(df, update_info, n_obs):
-    arr = np.zeros((len(update_info), n_obs))
-    for k, (period, var) in enumerate(update_info.index):
-        arr[k] = df.query(f"period == {period}")[var].to_numpy()
-    return jnp.array(arr)
-
-
-def _generate_controls_array(df, labels, n_obs):
-    arr = np.zeros((len(labels["periods"]), n_obs, len(labels["controls"])))
-    for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[labels["controls"]].to_numpy()
-    return jnp.array(arr)
-
-
-def _generate_observed_factor_array(df, labels, n_obs):
-    arr = np.zeros((len(labels["periods"]), n_obs, len(labels["observed_factors"])))
-    for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[
-            labels["observed_factors"]
-        ].to_numpy()
-    return jnp.array(arr)
+import warnings
+
+import jax.numpy as jnp
+import numpy as np
+import pandas as pd
+
+from skillmodels.process_model import get_period_measurements
+
+
+def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
+    """Process the data for estimation.
+
+    Args:
+        df (DataFrame): panel dataset in long format. It has a MultiIndex
+            where the first level indicates the period and the second
+            the individual.
+        labels (dict): Dict of lists with labels for the model quantities like
+            factors, periods, controls, stagemap and stages. See :ref:`labels`
+        update_info (pandas.DataFrame): DataFrame with one row per Kalman update needed
+            in the likelihood function. See :ref:`update_info`.
+        anchoring_info (dict): Information about anchoring. See :ref:`anchoring`
+
+    Returns:
+        meas_data (jax.numpy.array): Array of shape (n_updates, n_obs) with data on
+            observed measurements. NaN if the measurement was not observed.
+        control_data (jax.numpy.array): Array of shape (n_periods, n_obs, n_controls)
+            with observed control variables for the measurement equations.
+        observed_factors (jax.numpy.array): Array of shape (n_periods, n_obs,
+            n_observed_factors) with data on the observed factors.
+
+    """
+    df = pre_process_data(df, labels["periods"])
+    df["constant"] = 1
+    df = _add_copies_of_anchoring_outcome(df, anchoring_info)
+    _check_data(df, update_info, labels, purpose=purpose)
+    n_obs = int(len(df) / len(labels["periods"]))
+    # needs to be done before entire rows are set to NaN due to missing controls
+    observed_data = _generate_observed_factor_array(df, labels, n_obs)
+    df = _handle_controls_with_missings(df, labels["controls"], update_info)
+    if purpose == "estimation":
+        meas_data = _generate_measurements_array(df, update_info, n_obs)
+    control_data = _generate_controls_array(df, labels, n_obs)
+
+    if purpose == "estimation":
+        out = (meas_data, control_data, observed_data)
+    else:
+        out = (control_data, observed_data)
+    return out
+
+
+def pre_process_data(df, periods):
+    """Balance panel data in long format, drop unnecessary periods and set index.
+
+    Args:
+        df (DataFrame): panel dataset in long format. It has a MultiIndex
+            where the first level indicates the period and the second
+            the individual.
+
+    Returns:
+        balanced (DataFrame): balanced panel. It has a MultiIndex. The first
+            enumerates individuals. The second level counts periods, starting at 0.
+
+    """
+    df = df.copy(deep=True).sort_index()
+    df["__old_id__"] = df.index.get_level_values(0)
+    df["__old_period__"] = df.index.get_level_values(1)
+
+    # replace existing codes for periods and
+    df.index.names = ["id", "period"]
+    for level in [0, 1]:
+        df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
+
+    # create new index
+    ids = sorted(df.index.get_level_values("id").unique())
+    new_index = pd.MultiIndex.from_product([ids, periods], names=["id", "period"])
+
+    # set new index
+    df = df.reindex(new_index)
+
+    return df
+
+
+def _add_copies_of_anchoring_outcome(df, anchoring_info):
+    df = df.copy()
+    for factor in anchoring_info["factors"]:
+        outcome = anchoring_info["outcomes"][factor]
+        df[f"{outcome}_{factor}"] = df[outcome]
+    return df
+
+
+def _check_data(df, update_info, labels, purpose):
+    var_report = pd.DataFrame(index=update_info.index[:0], columns=["problem"])
+    for period in labels["periods"]:
+        period_data = df.query(f"period == {period}")
+        for cont in labels["controls"]:
+            if cont not in period_data.columns or period_data[cont].isnull().all():
+                var_report.loc[(period, cont), "problem"] = "Variable is missing"
+
+        if purpose == "estimation":
+            for meas in get_period_measurements(update_info, period):
+                if meas not in period_data.columns:
+                    var_report.loc[(period, meas), "problem"] = "Variable is missing"
+                elif len(period_data[meas].dropna().unique()) == 1:
+                    var_report.loc[
+                        (period, meas), "problem"
+                    ] = "Variable has no variance"
+
+        for factor in labels["observed_factors"]:
+            if factor not in period_data.columns:
+                var_report.loc[(period, factor), "problem"] = "Variable is missing"
+            elif period_data[factor].isnull().any():
+                var_report.loc[(period, factor), "problem"] = "Variable has missings"
+
+    var_report = var_report.to_string() if len(var_report) > 0 else ""
+
+    if var_report:
+        raise ValueError(var_report)
+
+
+def _handle_controls_with_missings(df, controls, update_info):
+    df = df.copy(deep=True)
+    periods = update_info.index.get_level_values(0).unique().tolist()
+    problematic_index = df.index[:0]
+    for period in periods:
+        period_data = df.query(f"period == {period}")
+        control_data = period_data[controls]
+        meas_data = period_data[get_period_measurements(update_info, period)]
+        problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)
+        problematic_index = problematic_index.union(period_data[problem].index)
+
+    if len(problematic_index) > 0:
+        old_names = df.loc[problematic_index][["__old_id__", "__old_period__"]]
+        msg = "Set measurements to NaN because there are NaNs in the controls for:\n{}"
+        msg = msg.format(list(map(tuple, old_names.to_numpy().tolist())))
+        warnings.warn(msg)
+        df.loc[problematic_index] = np.nan
+    return df
+
+
+def _generate_measurements_array(df, update_info, n_obs):
+    arr = np.zeros((len(update_info), n_obs))
+    for k, (period, var) in enumerate(update_info.index):
+        arr[k] = df.query(f"period == {period}")[var].to_numpy()
+    return jnp.array(arr)
+
+
+def _generate_controls_array(df, labels, n_obs):
+    arr = np.zeros((len(labels["periods"]), n_obs, len(labels["controls"])))
+    for period in labels["periods"]:
+        arr[period] = df.query(f"period == {period}")[labels["controls"]].to_numpy()
+    return jnp.array(arr)
+
+
+def _generate_observed_factor_array(df, labels, n_obs):
+    arr = np.zeros((len(labels["periods"]), n_obs, len(labels["observed_factors"])))
+    for period in labels["periods"]:
+        arr[period] = df.query(f"period == {period}")[
+            labels["observed_factors"]
+        ].to_numpy()
+    return jnp.array(arr)
-- 
2.43.0


From cf2ce3be46c2d1604130496498c856d01f899a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:08 +0000
Subject: [PATCH 03/18] fix: do not depend on unused index levels in
 pre_process_data

If the first periods had been filtered out of a DataFrame, pandas still stores them
as unused levels and the data of all remaining periods were shifted.
---
 skillmodels/process_data.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index dbd60a9..286474f 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -66,9 +66,13 @@ def pre_process_data(df, periods):
     df["__old_period__"] = df.index.get_level_values(1)
 
     # replace existing codes for periods and
-    df.index.names = ["id", "period"]
-    for level in [0, 1]:
-        df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
+    df.index = pd.MultiIndex.from_arrays(
+        [
+            pd.factorize(df.index.get_level_values(level), sort=True)[0]
+            for level in [0, 1]
+        ],
+        names=["id", "period"],
+    )
 
     # create new index
     ids = sorted(df.index.get_level_values("id").unique())
-- 
2.43.0


From 5a30c3d0976e118ace138d2bd62f92a15fbf2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:08 +0000
Subject: [PATCH 04/18] fix: correct ids in debug data of models with several
 mixture elements

The ids enumerated rows instead of individuals.
---
 skillmodels/process_debug_data.py | 370 +++++++++++++++---------------
 1 file changed, 185 insertions(+), 185 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index b923d93..14e9168 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -1,185 +1,185 @@
-import numpy as np
-import pandas as pd
-
-
-def process_debug_data(debug_data, model):
-    """Process the raw debug data into pandas objects that make visualization easy.
-
-    Args:
-        debug_data (dict): Dictionary containing the following entries (
-        and potentially others which are not modified):
-        - filtered_states (jax.numpy.array): Array of shape (n_updates, n_obs,
-            n_mixtures, n_states) containing the filtered states after each Kalman
-            update.
-        - initial_states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states)
-            with the state estimates before the first Kalman update.
-        - residuals (jax.numpy.array): Array of shape (n_updates, n_obs, n_mixtures)
-            containing the residuals of a Kalman update.
-        - residual_sds (jax.numpy.ndarray): Array of shape (n_updates, n_obs,
-            n_mixtures) containing the theoretical standard deviation of the residuals.
-        - all_contributions (jax.numpy.array): Array of shape (n_updates, n_obs) with
-            the likelihood contributions per update and individual.
-        - log_mixture_weights (jax.numpy.array): Array of shape (n_updates, n_obs,
-            n_mixtures) containing the log mixture weights after each update.
-        - initial_log_mixture_weights (jax.numpy.array): Array of shape (n_obs,
-            n_mixtures) containing the log mixture weights before the first
-            kalman update.
-
-        model (dict): Processed model dictionary.
-
-    Returns:
-        dict: Dictionary with processed debug data. It has the following entries:
-
-        - post_update_states (pd.DataFrame). As pre_update_states but "period" and
-            "measurement" identify the last measurement that was incorporated.
-        - filtered_states (pd.DataFrame). Tidy DataFrame with filtered states
-            after the last update of each period. The columns are the factor names,
-            "period" and "id". The filtered states are already aggregated over
-            mixture distributions.
-        - state_ranges (dict): The keys are the names of the latent factors.
-            The values are DataFrames with the columns "period", "minimum", "maximum".
-            Note that this aggregates over mixture distributions.
-        - residuals (pd.DataFrame): Tidy DataFrame with residuals of each Kalman update.
-            Columns are "residual", "mixture", "period", "measurement" and "id".
-            "period" and "measurement" identify the Kalman update to which the residual
-            belongs.
-        - residual_sds (pd.DataFrame): As residuals but containing the theoretical
-            standard deviation of the corresponding residual.
-        - all_contributions (pd.DataFrame): Tidy DataFrame with log likelihood
-            contribution per individual and Kalman Update. The columns are
-            "contribution", "period", "measurement" and "id". "period" and "measurement"
-            identify the Kalman Update to which the likelihood contribution corresponds.
-
-    """
-    update_info = model["update_info"]
-    factors = model["labels"]["latent_factors"]
-
-    post_update_states = _create_post_update_states(
-        debug_data["filtered_states"], factors, update_info
-    )
-
-    filtered_states = _create_filtered_states(
-        filtered_states=debug_data["filtered_states"],
-        log_mixture_weights=debug_data["log_mixture_weights"],
-        update_info=update_info,
-        factors=factors,
-    )
-
-    state_ranges = create_state_ranges(filtered_states, factors)
-
-    residuals = _process_residuals(debug_data["residuals"], update_info)
-    residual_sds = _process_residual_sds(debug_data["residual_sds"], update_info)
-
-    all_contributions = _process_all_contributions(
-        debug_data["all_contributions"], update_info
-    )
-
-    res = {
-        "post_update_states": post_update_states,
-        "filtered_states": filtered_states,
-        "state_ranges": state_ranges,
-        "residuals": residuals,
-        "residual_sds": residual_sds,
-        "all_contributions": all_contributions,
-    }
-
-    for key in ["value", "contributions"]:
-        if key in debug_data:
-            res[key] = debug_data[key]
-
-    return res
-
-
-def _create_post_update_states(filtered_states, factors, update_info):
-    to_concat = []
-    for (period, meas), data in zip(update_info.index, filtered_states):
-        df = _convert_state_array_to_df(data, factors)
-        df["period"] = period
-        df["id"] = np.arange(len(df))
-        df["measurement"] = meas
-        to_concat.append(df)
-
-    post_states = pd.concat(to_concat)
-
-    return post_states
-
-
-def _convert_state_array_to_df(arr, factor_names):
-    """Convert a 3d state array into a 2d DataFrame.
-
-    Args:
-        arr (np.ndarray): Array of shape (n_obs, n_mixtures, n_states)
-        factor_names (list): Names of the latent factors.
-    """
-    n_obs, n_mixtures, n_states = arr.shape
-    df = pd.DataFrame(data=arr.reshape(-1, n_states), columns=factor_names)
-    df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
-    return df
-
-
-def _create_filtered_states(filtered_states, log_mixture_weights, update_info, factors):
-
-    filtered_states = np.array(filtered_states)
-    log_mixture_weights = np.array(log_mixture_weights)
-    weights = np.exp(log_mixture_weights)
-
-    agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
-
-    keep = []
-    for i, (period, measurement) in enumerate(update_info.index):
-        last_measurement = update_info.query(
-            f"purpose == 'measurement' & period == {period}"
-        ).index[-1][1]
-
-        if measurement == last_measurement:
-            keep.append(i)
-
-    to_concat = []
-    for period, i in enumerate(keep):
-        df = pd.DataFrame(data=agg_states[i], columns=factors)
-        df["period"] = period
-        df["id"] = np.arange(len(df))
-        to_concat.append(df)
-
-    filtered_states = pd.concat(to_concat)
-
-    return filtered_states
-
-
-def create_state_ranges(filtered_states, factors):
-    ranges = {}
-    minima = filtered_states.groupby("period").min()
-    maxima = filtered_states.groupby("period").max()
-    for factor in factors:
-        df = pd.concat([minima[factor], maxima[factor]], axis=1)
-        df.columns = ["minimum", "maximum"]
-        ranges[factor] = df
-    return ranges
-
-
-def _process_residuals(residuals, update_info):
-    to_concat = []
-    n_obs, n_mixtures = residuals[0].shape
-    for (period, meas), data in zip(update_info.index, residuals):
-        df = pd.DataFrame(data.reshape(-1, 1), columns=["residual"])
-        df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
-        df["period"] = period
-        df["id"] = np.arange(len(df))
-        df["measurement"] = meas
-        to_concat.append(df)
-    return pd.concat(to_concat)
-
-
-def _process_residual_sds(residual_sds, update_info):
-    return _process_residuals(residual_sds, update_info)
-
-
-def _process_all_contributions(all_contributions, update_info):
-    to_concat = []
-    for (period, meas), contribs in zip(update_info.index, all_contributions):
-        df = pd.DataFrame(data=contribs.reshape(-1, 1), columns=["contribution"])
-        df["measurement"] = meas
-        df["period"] = period
-        df["id"] = np.arange(len(df))
-        to_concat.append(df)
-    return pd.concat(to_concat)
+import numpy as np
+import pandas as pd
+
+
+def process_debug_data(debug_data, model):
+    """Process the raw debug data into pandas objects that make visualization easy.
+
+    Args:
+        debug_data (dict): Dictionary containing the following entries (
+        and potentially others which are not modified):
+        - filtered_states (jax.numpy.array): Array of shape (n_updates, n_obs,
+            n_mixtures, n_states) containing the filtered states after each Kalman
+            update.
+        - initial_states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states)
+            with the state estimates before the first Kalman update.
+        - residuals (jax.numpy.array): Array of shape (n_updates, n_obs, n_mixtures)
+            containing the residuals of a Kalman update.
+        - residual_sds (jax.numpy.ndarray): Array of shape (n_updates, n_obs,
+            n_mixtures) containing the theoretical standard deviation of the residuals.
+        - all_contributions (jax.numpy.array): Array of shape (n_updates, n_obs) with
+            the likelihood contributions per update and individual.
+        - log_mixture_weights (jax.numpy.array): Array of shape (n_updates, n_obs,
+            n_mixtures) containing the log mixture weights after each update.
+        - initial_log_mixture_weights (jax.numpy.array): Array of shape (n_obs,
+            n_mixtures) containing the log mixture weights before the first
+            kalman update.
+
+        model (dict): Processed model dictionary.
+
+    Returns:
+        dict: Dictionary with processed debug data. It has the following entries:
+
+        - post_update_states (pd.DataFrame). As pre_update_states but "period" and
+            "measurement" identify the last measurement that was incorporated.
+        - filtered_states (pd.DataFrame). Tidy DataFrame with filtered states
+            after the last update of each period. The columns are the factor names,
+            "period" and "id". The filtered states are already aggregated over
+            mixture distributions.
+        - state_ranges (dict): The keys are the names of the latent factors.
+            The values are DataFrames with the columns "period", "minimum", "maximum".
+            Note that this aggregates over mixture distributions.
+        - residuals (pd.DataFrame): Tidy DataFrame with residuals of each Kalman update.
+            Columns are "residual", "mixture", "period", "measurement" and "id".
+            "period" and "measurement" identify the Kalman update to which the residual
+            belongs.
+        - residual_sds (pd.DataFrame): As residuals but containing the theoretical
+            standard deviation of the corresponding residual.
+        - all_contributions (pd.DataFrame): Tidy DataFrame with log likelihood
+            contribution per individual and Kalman Update. The columns are
+            "contribution", "period", "measurement" and "id". "period" and "measurement"
+            identify the Kalman Update to which the likelihood contribution corresponds.
+
+    """
+    update_info = model["update_info"]
+    factors = model["labels"]["latent_factors"]
+
+    post_update_states = _create_post_update_states(
+        debug_data["filtered_states"], factors, update_info
+    )
+
+    filtered_states = _create_filtered_states(
+        filtered_states=debug_data["filtered_states"],
+        log_mixture_weights=debug_data["log_mixture_weights"],
+        update_info=update_info,
+        factors=factors,
+    )
+
+    state_ranges = create_state_ranges(filtered_states, factors)
+
+    residuals = _process_residuals(debug_data["residuals"], update_info)
+    residual_sds = _process_residual_sds(debug_data["residual_sds"], update_info)
+
+    all_contributions = _process_all_contributions(
+        debug_data["all_contributions"], update_info
+    )
+
+    res = {
+        "post_update_states": post_update_states,
+        "filtered_states": filtered_states,
+        "state_ranges": state_ranges,
+        "residuals": residuals,
+        "residual_sds": residual_sds,
+        "all_contributions": all_contributions,
+    }
+
+    for key in ["value", "contributions"]:
+        if key in debug_data:
+            res[key] = debug_data[key]
+
+    return res
+
+
+def _create_post_update_states(filtered_states, factors, update_info):
+    to_concat = []
+    for (period, meas), data in zip(update_info.index, filtered_states):
+        df = _convert_state_array_to_df(data, factors)
+        df["period"] = period
+        df["id"] = np.arange(data.shape[0]).repeat(data.shape[1])
+        df["measurement"] = meas
+        to_concat.append(df)
+
+    post_states = pd.concat(to_concat)
+
+    return post_states
+
+
+def _convert_state_array_to_df(arr, factor_names):
+    """Convert a 3d state array into a 2d DataFrame.
+
+    Args:
+        arr (np.ndarray): Array of shape (n_obs, n_mixtures, n_states)
+        factor_names (list): Names of the latent factors.
+    """
+    n_obs, n_mixtures, n_states = arr.shape
+    df = pd.DataFrame(data=arr.reshape(-1, n_states), columns=factor_names)
+    df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
+    return df
+
+
+def _create_filtered_states(filtered_states, log_mixture_weights, update_info, factors):
+
+    filtered_states = np.array(filtered_states)
+    log_mixture_weights = np.array(log_mixture_weights)
+    weights = np.exp(log_mixture_weights)
+
+    agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
+
+    keep = []
+    for i, (period, measurement) in enumerate(update_info.index):
+        last_measurement = update_info.query(
+            f"purpose == 'measurement' & period == {period}"
+        ).index[-1][1]
+
+        if measurement == last_measurement:
+            keep.append(i)
+
+    to_concat = []
+    for period, i in enumerate(keep):
+        df = pd.DataFrame(data=agg_states[i], columns=factors)
+        df["period"] = period
+        df["id"] = np.arange(len(df))
+        to_concat.append(df)
+
+    filtered_states = pd.concat(to_concat)
+
+    return filtered_states
+
+
+def create_state_ranges(filtered_states, factors):
+    ranges = {}
+    minima = filtered_states.groupby("period").min()
+    maxima = filtered_states.groupby("period").max()
+    for factor in factors:
+        df = pd.concat([minima[factor], maxima[factor]], axis=1)
+        df.columns = ["minimum", "maximum"]
+        ranges[factor] = df
+    return ranges
+
+
+def _process_residuals(residuals, update_info):
+    to_concat = []
+    n_obs, n_mixtures = residuals[0].shape
+    for (period, meas), data in zip(update_info.index, residuals):
+        df = pd.DataFrame(data.reshape(-1, 1), columns=["residual"])
+        df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
+        df["period"] = period
+        df["id"] = np.arange(n_obs).repeat(n_mixtures)
+        df["measurement"] = meas
+        to_concat.append(df)
+    return pd.concat(to_concat)
+
+
+def _process_residual_sds(residual_sds, update_info):
+    return _process_residuals(residual_sds, update_info)
+
+
+def _process_all_contributions(all_contributions, update_info):
+    to_concat = []
+    for (period, meas), contribs in zip(update_info.index, all_contributions):
+        df = pd.DataFrame(data=contribs.reshape(-1, 1), columns=["contribution"])
+        df["measurement"] = meas
+        df["period"] = period
+        df["id"] = np.arange(len(df))
+        to_concat.append(df)
+    return pd.concat(to_concat)
-- 
2.43.0


From 01c2193226749d0ec2e9ff217c35821b3348a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:08 +0000
Subject: [PATCH 05/18] fix: report normalizations in periods without
 measurements as ValueError

They raised an IndexError instead of being listed in the report.
---
 skillmodels/check_model.py | 324 +++++++++++++++++++------------------
 1 file changed, 163 insertions(+), 161 deletions(-)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 06dea4f..c50aec3 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -1,161 +1,163 @@
-import numpy as np
-
-
-def check_model(model_dict, labels, dimensions, anchoring):
-    """Check consistency and validity of the model specification.
-
-    labels, dimensions and anchoring information are done before the model checking
-    because processing them will not raise any errors except for easy to understand
-    KeyErrors.
-
-    Other specifications are checked in the model dict before processing to make sure
-    that the assumptions we make during the processing are fulfilled.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
-            n_mixtures. See :ref:`dimensions`.
-
-        labels (dict): Dict of lists with labels for the model quantities like
-            factors, periods, controls, stagemap and stages. See :ref:`labels`
-
-        anchoring (dict): Dictionary with information about anchoring.
-            See :ref:`anchoring`
-
-    Raises:
-        ValueError
-
-    """
-    report = _check_stagemap(
-        labels["stagemap"], labels["stages"], dimensions["n_periods"]
-    )
-    report += _check_anchoring(anchoring)
-    report += _check_measurements(model_dict, labels["latent_factors"])
-    report += _check_normalizations(model_dict, labels["latent_factors"])
-
-    report = "\n".join(report)
-    if report != "":
-        raise ValueError(f"Invalid model specification:\n{report}")
-
-
-def _check_stagemap(stagemap, stages, n_periods):
-    report = []
-    if len(stagemap) != n_periods - 1:
-        report.append(
-            "The stagemap needs to be of length n_periods - 1. n_periods is "
-            f"{n_periods}, the stagemap has length {len(stagemap)}."
-        )
-
-    if stages != list(range(len(stages))):
-        report.append("Stages need to be integers, start at zero and increase by 1.")
-
-    if not np.isin(np.array(stagemap[1:]) - np.array(stagemap[:-1]), (0, 1)).all():
-        report.append("Consecutive entries in stagemap must be equal or increase by 1.")
-    return report
-
-
-def _check_anchoring(anchoring):
-    report = []
-    if not isinstance(anchoring["anchoring"], bool):
-        report.append("anchoring['anchoring'] must be a bool.")
-    if not isinstance(anchoring["outcomes"], dict):
-        report.append("anchoring['outcomes'] must be a dict")
-    else:
-        variables = list(anchoring["outcomes"].values())
-        for var in variables:
-            if not isinstance(var, (str, int, tuple)):
-                report.append("Outcomes variables have to be valid variable names.")
-
-    if not isinstance(anchoring["free_controls"], bool):
-        report.append("anchoring['use_controls'] must be a bool")
-    if not isinstance(anchoring["free_constant"], bool):
-        report.append("anchoring['use_constant'] must be a bool.")
-    if not isinstance(anchoring["free_loadings"], bool):
-        report.append("anchoring['free_loadings'] must be a bool.")
-    return report
-
-
-def _check_measurements(model_dict, factors):
-    report = []
-    for factor in factors:
-        candidate = model_dict["factors"][factor]["measurements"]
-        if not _is_list_of(candidate, list):
-            report.append(
-                f"measurements must lists of lists. Check measurements of {factor}."
-            )
-        else:
-            for period, meas_list in enumerate(candidate):
-                for meas in meas_list:
-                    if not isinstance(meas, (int, str, tuple)):
-                        report.append(
-                            "Measurements need to be valid pandas column names. Check "
-                            f"{meas} for {factor} in period {period}."
-                        )
-    return report
-
-
-def _check_normalizations(model_dict, factors):
-    report = []
-    for factor in factors:
-        norminfo = model_dict["factors"][factor].get("normalizations", {})
-        for norm_type in ["loadings", "intercepts"]:
-            candidate = norminfo.get(norm_type, [])
-            if not _is_list_of(candidate, dict):
-                report.append(
-                    f"normalizations must be lists of dicts. Check {norm_type} "
-                    f"normalizations for {factor}."
-                )
-            else:
-                report += _check_normalized_variables_are_present(
-                    candidate, model_dict, factor
-                )
-
-                if norm_type == "loadings":
-                    report += _check_loadings_are_not_normalized_to_zero(
-                        candidate, factor
-                    )
-    return report
-
-
-def _check_normalized_variables_are_present(list_of_normdicts, model_dict, factor):
-    report = []
-    for period, norm_dict in enumerate(list_of_normdicts):
-        for var in norm_dict:
-            if var not in model_dict["factors"][factor]["measurements"][period]:
-                report.append(
-                    "You can only normalize variables that are specified as "
-                    f"measurements. Check {var} for {factor} in period "
-                    f"{period}."
-                )
-
-    return report
-
-
-def _check_loadings_are_not_normalized_to_zero(list_of_normdicts, factor):
-    report = []
-    for period, norm_dict in enumerate(list_of_normdicts):
-        for var, val in norm_dict.items():
-            if val == 0:
-                report.append(
-                    f"loadings cannot be normalized to 0. Check measurement {var} "
-                    f"of {factor} in period {period}."
-                )
-    return report
-
-
-def _is_list_of(candidate, type_):
-    """Check if candidate is a list that only contains elements of type.
-
-    Note that this is always falls if candidate is not a list and always true if
-    it is an empty list.
-
-    Examples:
-    >>> _is_list_of([["a"], ["b"]], list)
-    True
-    >>> _is_list_of([{}], list)
-    False
-    >>> _is_list_of([], dict)
-    True
-
-    """
-    return isinstance(candidate, list) and all(isinstance(i, type_) for i in candidate)
+import numpy as np
+
+
+def check_model(model_dict, labels, dimensions, anchoring):
+    """Check consistency and validity of the model specification.
+
+    labels, dimensions and anchoring information are done before the model checking
+    because processing them will not raise any errors except for easy to understand
+    KeyErrors.
+
+    Other specifications are checked in the model dict before processing to make sure
+    that the assumptions we make during the processing are fulfilled.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
+            n_mixtures. See :ref:`dimensions`.
+
+        labels (dict): Dict of lists with labels for the model quantities like
+            factors, periods, controls, stagemap and stages. See :ref:`labels`
+
+        anchoring (dict): Dictionary with information about anchoring.
+            See :ref:`anchoring`
+
+    Raises:
+        ValueError
+
+    """
+    report = _check_stagemap(
+        labels["stagemap"], labels["stages"], dimensions["n_periods"]
+    )
+    report += _check_anchoring(anchoring)
+    report += _check_measurements(model_dict, labels["latent_factors"])
+    report += _check_normalizations(model_dict, labels["latent_factors"])
+
+    report = "\n".join(report)
+    if report != "":
+        raise ValueError(f"Invalid model specification:\n{report}")
+
+
+def _check_stagemap(stagemap, stages, n_periods):
+    report = []
+    if len(stagemap) != n_periods - 1:
+        report.append(
+            "The stagemap needs to be of length n_periods - 1. n_periods is "
+            f"{n_periods}, the stagemap has length {len(stagemap)}."
+        )
+
+    if stages != list(range(len(stages))):
+        report.append("Stages need to be integers, start at zero and increase by 1.")
+
+    if not np.isin(np.array(stagemap[1:]) - np.array(stagemap[:-1]), (0, 1)).all():
+        report.append("Consecutive entries in stagemap must be equal or increase by 1.")
+    return report
+
+
+def _check_anchoring(anchoring):
+    report = []
+    if not isinstance(anchoring["anchoring"], bool):
+        report.append("anchoring['anchoring'] must be a bool.")
+    if not isinstance(anchoring["outcomes"], dict):
+        report.append("anchoring['outcomes'] must be a dict")
+    else:
+        variables = list(anchoring["outcomes"].values())
+        for var in variables:
+            if not isinstance(var, (str, int, tuple)):
+                report.append("Outcomes variables have to be valid variable names.")
+
+    if not isinstance(anchoring["free_controls"], bool):
+        report.append("anchoring['use_controls'] must be a bool")
+    if not isinstance(anchoring["free_constant"], bool):
+        report.append("anchoring['use_constant'] must be a bool.")
+    if not isinstance(anchoring["free_loadings"], bool):
+        report.append("anchoring['free_loadings'] must be a bool.")
+    return report
+
+
+def _check_measurements(model_dict, factors):
+    report = []
+    for factor in factors:
+        candidate = model_dict["factors"][factor]["measurements"]
+        if not _is_list_of(candidate, list):
+            report.append(
+                f"measurements must lists of lists. Check measurements of {factor}."
+            )
+        else:
+            for period, meas_list in enumerate(candidate):
+                for meas in meas_list:
+                    if not isinstance(meas, (int, str, tuple)):
+                        report.append(
+                            "Measurements need to be valid pandas column names. Check "
+                            f"{meas} for {factor} in period {period}."
+                        )
+    return report
+
+
+def _check_normalizations(model_dict, factors):
+    report = []
+    for factor in factors:
+        norminfo = model_dict["factors"][factor].get("normalizations", {})
+        for norm_type in ["loadings", "intercepts"]:
+            candidate = norminfo.get(norm_type, [])
+            if not _is_list_of(candidate, dict):
+                report.append(
+                    f"normalizations must be lists of dicts. Check {norm_type} "
+                    f"normalizations for {factor}."
+                )
+            else:
+                report += _check_normalized_variables_are_present(
+                    candidate, model_dict, factor
+                )
+
+                if norm_type == "loadings":
+                    report += _check_loadings_are_not_normalized_to_zero(
+                        candidate, factor
+                    )
+    return report
+
+
+def _check_normalized_variables_are_present(list_of_normdicts, model_dict, factor):
+    report = []
+    measurements = model_dict["factors"][factor]["measurements"]
+    for period, norm_dict in enumerate(list_of_normdicts):
+        present = measurements[period] if period < len(measurements) else []
+        for var in norm_dict:
+            if var not in present:
+                report.append(
+                    "You can only normalize variables that are specified as "
+                    f"measurements. Check {var} for {factor} in period "
+                    f"{period}."
+                )
+
+    return report
+
+
+def _check_loadings_are_not_normalized_to_zero(list_of_normdicts, factor):
+    report = []
+    for period, norm_dict in enumerate(list_of_normdicts):
+        for var, val in norm_dict.items():
+            if val == 0:
+                report.append(
+                    f"loadings cannot be normalized to 0. Check measurement {var} "
+                    f"of {factor} in period {period}."
+                )
+    return report
+
+
+def _is_list_of(candidate, type_):
+    """Check if candidate is a list that only contains elements of type.
+
+    Note that this is always falls if candidate is not a list and always true if
+    it is an empty list.
+
+    Examples:
+    >>> _is_list_of([["a"], ["b"]], list)
+    True
+    >>> _is_list_of([{}], list)
+    False
+    >>> _is_list_of([], dict)
+    True
+
+    """
+    return isinstance(candidate, list) and all(isinstance(i, type_) for i in candidate)
-- 
2.43.0


From 58bcb35a104603cf795b3bbc549eec5045dc71f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:08 +0000
Subject: [PATCH 06/18] fix: make estimation_options optional, as documented

---
 skillmodels/process_model.py | 652 +++++++++++++++++------------------
 1 file changed, 326 insertions(+), 326 deletions(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index b573870..7162813 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -1,326 +1,326 @@
-from functools import partial
-
-import numpy as np
-import pandas as pd
-from dags import concatenate_functions
-from dags.signature import rename_arguments
-from jax import vmap
-from pandas import DataFrame
-
-import skillmodels.transition_functions as tf
-from skillmodels.check_model import check_model
-from skillmodels.decorators import extract_params
-from skillmodels.decorators import jax_array_output
-
-
-def process_model(model_dict):
-    """Check, clean, extend and transform the model specs.
-
-    Check the completeness, consistency and validity of the model specifications.
-
-    Set default values and extend the model specification where necessary.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-
-    Returns:
-        dict: nested dictionary of model specs. It has the following entries:
-        - dimensions (dict): Dimensional information like n_states, n_periods,
-        n_controls, n_mixtures. See :ref:`dimensions`.
-        - labels (dict): Dict of lists with labels for the model quantities like
-        factors, periods, controls, stagemap and stages. See :ref:`labels`
-        - anchoring (dict): Information about anchoring. See :ref:`anchoring`
-        - transition_info (dict): Everything related to transition functions.
-        - update_info (pandas.DataFrame): DataFrame with one row per Kalman update
-        needed in the likelihood function. See :ref:`update_info`.
-        - normalizations (dict): Nested dictionary with information on normalized factor
-        loadings and intercepts for each factor. See :ref:`normalizations`.
-
-    """
-    dims = get_dimensions(model_dict)
-    labels = _get_labels(model_dict, dims)
-    anchoring = _process_anchoring(model_dict)
-    check_model(model_dict, labels, dims, anchoring)
-    transition_info = _get_transition_info(model_dict, labels)
-    labels["transition_names"] = list(transition_info["function_names"].values())
-
-    processed = {
-        "dimensions": dims,
-        "labels": labels,
-        "anchoring": anchoring,
-        "estimation_options": _process_estimation_options(model_dict),
-        "transition_info": transition_info,
-        "update_info": _get_update_info(model_dict, dims, labels, anchoring),
-        "normalizations": _process_normalizations(model_dict, dims, labels),
-    }
-    return processed
-
-
-def get_dimensions(model_dict):
-    """Extract the dimensions of the model.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-
-    Returns:
-        dict: Dimensional information like n_states, n_periods, n_controls,
-            n_mixtures. See :ref:`dimensions`.
-
-    """
-    all_n_periods = [len(d["measurements"]) for d in model_dict["factors"].values()]
-
-    dims = {
-        "n_latent_factors": len(model_dict["factors"]),
-        "n_observed_factors": len(model_dict.get("observed_factors", [])),
-        "n_periods": max(all_n_periods),
-        # plus 1 for the constant
-        "n_controls": len(model_dict.get("controls", [])) + 1,
-        "n_mixtures": model_dict["estimation_options"].get("n_mixtures", 1),
-    }
-    dims["n_all_factors"] = dims["n_latent_factors"] + dims["n_observed_factors"]
-    return dims
-
-
-def _get_labels(model_dict, dimensions):
-    """Extract labels of the model quantities.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
-            n_mixtures. See :ref:`dimensions`.
-
-    Returns:
-        dict: Dict of lists with labels for the model quantities like
-        factors, periods, controls, stagemap and stages. See :ref:`labels`
-
-    """
-    stagemap = model_dict.get("stagemap", list(range(dimensions["n_periods"] - 1)))
-
-    labels = {
-        "latent_factors": list(model_dict["factors"]),
-        "observed_factors": list(model_dict.get("observed_factors", [])),
-        "controls": ["constant"] + list(model_dict.get("controls", [])),
-        "periods": list(range(dimensions["n_periods"])),
-        "stagemap": stagemap,
-        "stages": sorted(np.unique(stagemap)),
-    }
-
-    labels["all_factors"] = labels["latent_factors"] + labels["observed_factors"]
-
-    return labels
-
-
-def _process_estimation_options(model_dict):
-    """Process options.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-
-    Returns:
-        dict: Tuning parameters for the estimation. See :ref:`options`.
-
-    """
-    default_options = {
-        "sigma_points_scale": 2,
-        "robust_bounds": True,
-        "bounds_distance": 1e-3,
-        "clipping_lower_bound": -1e250,
-        "clipping_upper_bound": None,
-        "clipping_lower_hardness": 1,
-        "clipping_upper_hardness": 1,
-    }
-    default_options.update(model_dict.get("estimation_options", {}))
-
-    if not default_options["robust_bounds"]:
-        default_options["bounds_distance"] = 0
-
-    return default_options
-
-
-def _process_anchoring(model_dict):
-    """Process the specification that governs how latent factors are anchored.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-
-    Returns:
-        dict: Dictionary with information about anchoring. See :ref:`anchoring`
-
-    """
-    anchinfo = {
-        "anchoring": False,
-        "outcomes": {},
-        "factors": [],
-        "free_controls": False,
-        "free_constant": False,
-        "free_loadings": False,
-        "ignore_constant_when_anchoring": False,
-    }
-
-    if "anchoring" in model_dict:
-        anchinfo.update(model_dict["anchoring"])
-        anchinfo["anchoring"] = True
-        anchinfo["factors"] = list(anchinfo["outcomes"])
-
-    return anchinfo
-
-
-def _get_transition_info(model_dict, labels):
-    """Collect information about transition functions."""
-
-    func_list, param_names = [], []
-    latent_factors = labels["latent_factors"]
-    all_factors = labels["all_factors"]
-
-    for factor in latent_factors:
-        spec = model_dict["factors"][factor]["transition_function"]
-        if isinstance(spec, str):
-            func = getattr(tf, spec)
-            if spec == "constant":
-                func = rename_arguments(func, mapper={"state": factor})
-            func_list.append(extract_params(func, key=factor))
-            param_names.append(getattr(tf, f"params_{spec}")(all_factors))
-        elif callable(spec):
-            if not hasattr(spec, "__name__"):
-                raise AttributeError(
-                    "Custom transition functions must have a __name__ attribute."
-                )
-            if hasattr(spec, "__registered_params__"):
-                names = spec.__registered_params__
-                param_names.append(names)
-            else:
-                raise AttributeError(
-                    "Custom transition_functions must have a __registered_params__ "
-                    "attribute. You can set it via the register_params decorator."
-                )
-            func_list.append(extract_params(spec, key=factor, names=names))
-
-    function_names = [f.__name__ for f in func_list]
-
-    functions = {
-        f"__next_{fac}__": func for fac, func in zip(latent_factors, func_list)
-    }
-
-    # add functions to produce the individual factors out of the 1d states vector.
-    # The dag will automatically sort out what we don't need.
-    def _extract_factor(states, pos):
-        return states[pos]
-
-    for i, factor in enumerate(labels["all_factors"]):
-        functions[factor] = partial(_extract_factor, pos=i)
-
-    transition_function = concatenate_functions(
-        functions=functions, targets=[f"__next_{fac}__" for fac in latent_factors]
-    )
-
-    transition_function = jax_array_output(transition_function)
-
-    transition_function = vmap(transition_function, in_axes=(None, 0))
-
-    individual_functions = {}
-    for factor in latent_factors:
-        func = concatenate_functions(functions=functions, targets=f"__next_{factor}__")
-        func = vmap(func, in_axes=(None, 0))
-        individual_functions[factor] = func
-
-    out = {
-        "func": transition_function,
-        "param_names": dict(zip(latent_factors, param_names)),
-        "individual_functions": individual_functions,
-        "function_names": dict(zip(latent_factors, function_names)),
-    }
-    return out
-
-
-def _get_update_info(model_dict, dimensions, labels, anchoring_info):
-    """Construct a DataFrame with information on each Kalman update.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
-            n_mixtures. See :ref:`dimensions`.
-        labels (dict): Dict of lists with labels for the model quantities like
-            factors, periods, controls, stagemap and stages. See :ref:`labels`
-        anchoring_info (dict): Information about anchoring. See :ref:`anchoring`
-
-    Returns:
-        pandas.DataFrame: DataFrame with one row per Kalman update needed in
-            the likelihood function. See :ref:`update_info`.
-
-    """
-    index = pd.MultiIndex(levels=[[], []], codes=[[], []], names=["period", "variable"])
-    uinfo = DataFrame(index=index, columns=labels["latent_factors"] + ["purpose"])
-
-    measurements = {}
-    for factor in labels["latent_factors"]:
-        measurements[factor] = fill_list(
-            model_dict["factors"][factor]["measurements"], [], dimensions["n_periods"]
-        )
-
-    for period in labels["periods"]:
-        for factor in labels["latent_factors"]:
-            for meas in measurements[factor][period]:
-                uinfo.loc[(period, meas), factor] = True
-                uinfo.loc[(period, meas), "purpose"] = "measurement"
-        for factor in anchoring_info["factors"]:
-            outcome = anchoring_info["outcomes"][factor]
-            name = f"{outcome}_{factor}"
-            uinfo.loc[(period, name), factor] = True
-            uinfo.loc[(period, name), "purpose"] = "anchoring"
-
-    uinfo.fillna(False, inplace=True)
-    # fillna seems to convert objects to bool, but not consistently
-    for factor in labels["latent_factors"]:
-        uinfo[factor] = uinfo[factor].astype(bool)
-    return uinfo
-
-
-def _process_normalizations(model_dict, dimensions, labels):
-    """Process the normalizations of intercepts and factor loadings.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
-            n_mixtures. See :ref:`dimensions`.
-        labels (dict): Dict of lists with labels for the model quantities like
-            factors, periods, controls, stagemap and stages. See :ref:`labels`
-
-    Returns:
-        normalizations (dict): Nested dictionary with information on normalized factor
-            loadings and intercepts for each factor. See :ref:`normalizations`.
-
-    """
-    normalizations = {}
-    for factor in labels["latent_factors"]:
-        normalizations[factor] = {}
-        norminfo = model_dict["factors"][factor].get("normalizations", {})
-        for norm_type in ["loadings", "intercepts"]:
-            candidate = norminfo.get(norm_type, [])
-            candidate = fill_list(candidate, {}, dimensions["n_periods"])
-            normalizations[factor][norm_type] = candidate
-
-    return normalizations
-
-
-def fill_list(short_list, fill_value, length):
-    """Extend a list to specified length by filling it with the fill_value.
-
-    Examples:
-    >>> fill_list(["a"], "b", 3)
-    ['a', 'b', 'b']
-
-    """
-    res = list(short_list)
-    diff = length - len(short_list)
-    assert diff >= 0, "short_list has to be shorter than length."
-    if diff >= 1:
-        res += [fill_value] * diff
-    return res
-
-
-def get_period_measurements(update_info, period):
-    if period in update_info.index:
-        measurements = list(update_info.loc[period].index)
-    else:
-        measurements = []
-    return measurements
+from functools import partial
+
+import numpy as np
+import pandas as pd
+from dags import concatenate_functions
+from dags.signature import rename_arguments
+from jax import vmap
+from pandas import DataFrame
+
+import skillmodels.transition_functions as tf
+from skillmodels.check_model import check_model
+from skillmodels.decorators import extract_params
+from skillmodels.decorators import jax_array_output
+
+
+def process_model(model_dict):
+    """Check, clean, extend and transform the model specs.
+
+    Check the completeness, consistency and validity of the model specifications.
+
+    Set default values and extend the model specification where necessary.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+
+    Returns:
+        dict: nested dictionary of model specs. It has the following entries:
+        - dimensions (dict): Dimensional information like n_states, n_periods,
+        n_controls, n_mixtures. See :ref:`dimensions`.
+        - labels (dict): Dict of lists with labels for the model quantities like
+        factors, periods, controls, stagemap and stages. See :ref:`labels`
+        - anchoring (dict): Information about anchoring. See :ref:`anchoring`
+        - transition_info (dict): Everything related to transition functions.
+        - update_info (pandas.DataFrame): DataFrame with one row per Kalman update
+        needed in the likelihood function. See :ref:`update_info`.
+        - normalizations (dict): Nested dictionary with information on normalized factor
+        loadings and intercepts for each factor. See :ref:`normalizations`.
+
+    """
+    dims = get_dimensions(model_dict)
+    labels = _get_labels(model_dict, dims)
+    anchoring = _process_anchoring(model_dict)
+    check_model(model_dict, labels, dims, anchoring)
+    transition_info = _get_transition_info(model_dict, labels)
+    labels["transition_names"] = list(transition_info["function_names"].values())
+
+    processed = {
+        "dimensions": dims,
+        "labels": labels,
+        "anchoring": anchoring,
+        "estimation_options": _process_estimation_options(model_dict),
+        "transition_info": transition_info,
+        "update_info": _get_update_info(model_dict, dims, labels, anchoring),
+        "normalizations": _process_normalizations(model_dict, dims, labels),
+    }
+    return processed
+
+
+def get_dimensions(model_dict):
+    """Extract the dimensions of the model.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+
+    Returns:
+        dict: Dimensional information like n_states, n_periods, n_controls,
+            n_mixtures. See :ref:`dimensions`.
+
+    """
+    all_n_periods = [len(d["measurements"]) for d in model_dict["factors"].values()]
+
+    dims = {
+        "n_latent_factors": len(model_dict["factors"]),
+        "n_observed_factors": len(model_dict.get("observed_factors", [])),
+        "n_periods": max(all_n_periods),
+        # plus 1 for the constant
+        "n_controls": len(model_dict.get("controls", [])) + 1,
+        "n_mixtures": model_dict.get("estimation_options", {}).get("n_mixtures", 1),
+    }
+    dims["n_all_factors"] = dims["n_latent_factors"] + dims["n_observed_factors"]
+    return dims
+
+
+def _get_labels(model_dict, dimensions):
+    """Extract labels of the model quantities.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
+            n_mixtures. See :ref:`dimensions`.
+
+    Returns:
+        dict: Dict of lists with labels for the model quantities like
+        factors, periods, controls, stagemap and stages. See :ref:`labels`
+
+    """
+    stagemap = model_dict.get("stagemap", list(range(dimensions["n_periods"] - 1)))
+
+    labels = {
+        "latent_factors": list(model_dict["factors"]),
+        "observed_factors": list(model_dict.get("observed_factors", [])),
+        "controls": ["constant"] + list(model_dict.get("controls", [])),
+        "periods": list(range(dimensions["n_periods"])),
+        "stagemap": stagemap,
+        "stages": sorted(np.unique(stagemap)),
+    }
+
+    labels["all_factors"] = labels["latent_factors"] + labels["observed_factors"]
+
+    return labels
+
+
+def _process_estimation_options(model_dict):
+    """Process options.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+
+    Returns:
+        dict: Tuning parameters for the estimation. See :ref:`options`.
+
+    """
+    default_options = {
+        "sigma_points_scale": 2,
+        "robust_bounds": True,
+        "bounds_distance": 1e-3,
+        "clipping_lower_bound": -1e250,
+        "clipping_upper_bound": None,
+        "clipping_lower_hardness": 1,
+        "clipping_upper_hardness": 1,
+    }
+    default_options.update(model_dict.get("estimation_options", {}))
+
+    if not default_options["robust_bounds"]:
+        default_options["bounds_distance"] = 0
+
+    return default_options
+
+
+def _process_anchoring(model_dict):
+    """Process the specification that governs how latent factors are anchored.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+
+    Returns:
+        dict: Dictionary with information about anchoring. See :ref:`anchoring`
+
+    """
+    anchinfo = {
+        "anchoring": False,
+        "outcomes": {},
+        "factors": [],
+        "free_controls": False,
+        "free_constant": False,
+        "free_loadings": False,
+        "ignore_constant_when_anchoring": False,
+    }
+
+    if "anchoring" in model_dict:
+        anchinfo.update(model_dict["anchoring"])
+        anchinfo["anchoring"] = True
+        anchinfo["factors"] = list(anchinfo["outcomes"])
+
+    return anchinfo
+
+
+def _get_transition_info(model_dict, labels):
+    """Collect information about transition functions."""
+
+    func_list, param_names = [], []
+    latent_factors = labels["latent_factors"]
+    all_factors = labels["all_factors"]
+
+    for factor in latent_factors:
+        spec = model_dict["factors"][factor]["transition_function"]
+        if isinstance(spec, str):
+            func = getattr(tf, spec)
+            if spec == "constant":
+                func = rename_arguments(func, mapper={"state": factor})
+            func_list.append(extract_params(func, key=factor))
+            param_names.append(getattr(tf, f"params_{spec}")(all_factors))
+        elif callable(spec):
+            if not hasattr(spec, "__name__"):
+                raise AttributeError(
+                    "Custom transition functions must have a __name__ attribute."
+                )
+            if hasattr(spec, "__registered_params__"):
+                names = spec.__registered_params__
+                param_names.append(names)
+            else:
+                raise AttributeError(
+                    "Custom transition_functions must have a __registered_params__ "
+                    "attribute. You can set it via the register_params decorator."
+                )
+            func_list.append(extract_params(spec, key=factor, names=names))
+
+    function_names = [f.__name__ for f in func_list]
+
+    functions = {
+        f"__next_{fac}__": func for fac, func in zip(latent_factors, func_list)
+    }
+
+    # add functions to produce the individual factors out of the 1d states vector.
+    # The dag will automatically sort out what we don't need.
+    def _extract_factor(states, pos):
+        return states[pos]
+
+    for i, factor in enumerate(labels["all_factors"]):
+        functions[factor] = partial(_extract_factor, pos=i)
+
+    transition_function = concatenate_functions(
+        functions=functions, targets=[f"__next_{fac}__" for fac in latent_factors]
+    )
+
+    transition_function = jax_array_output(transition_function)
+
+    transition_function = vmap(transition_function, in_axes=(None, 0))
+
+    individual_functions = {}
+    for factor in latent_factors:
+        func = concatenate_functions(functions=functions, targets=f"__next_{factor}__")
+        func = vmap(func, in_axes=(None, 0))
+        individual_functions[factor] = func
+
+    out = {
+        "func": transition_function,
+        "param_names": dict(zip(latent_factors, param_names)),
+        "individual_functions": individual_functions,
+        "function_names": dict(zip(latent_factors, function_names)),
+    }
+    return out
+
+
+def _get_update_info(model_dict, dimensions, labels, anchoring_info):
+    """Construct a DataFrame with information on each Kalman update.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
+            n_mixtures. See :ref:`dimensions`.
+        labels (dict): Dict of lists with labels for the model quantities like
+            factors, periods, controls, stagemap and stages. See :ref:`labels`
+        anchoring_info (dict): Information about anchoring. See :ref:`anchoring`
+
+    Returns:
+        pandas.DataFrame: DataFrame with one row per Kalman update needed in
+            the likelihood function. See :ref:`update_info`.
+
+    """
+    index = pd.MultiIndex(levels=[[], []], codes=[[], []], names=["period", "variable"])
+    uinfo = DataFrame(index=index, columns=labels["latent_factors"] + ["purpose"])
+
+    measurements = {}
+    for factor in labels["latent_factors"]:
+        measurements[factor] = fill_list(
+            model_dict["factors"][factor]["measurements"], [], dimensions["n_periods"]
+        )
+
+    for period in labels["periods"]:
+        for factor in labels["latent_factors"]:
+            for meas in measurements[factor][period]:
+                uinfo.loc[(period, meas), factor] = True
+                uinfo.loc[(period, meas), "purpose"] = "measurement"
+        for factor in anchoring_info["factors"]:
+            outcome = anchoring_info["outcomes"][factor]
+            name = f"{outcome}_{factor}"
+            uinfo.loc[(period, name), factor] = True
+            uinfo.loc[(period, name), "purpose"] = "anchoring"
+
+    uinfo.fillna(False, inplace=True)
+    # fillna seems to convert objects to bool, but not consistently
+    for factor in labels["latent_factors"]:
+        uinfo[factor] = uinfo[factor].astype(bool)
+    return uinfo
+
+
+def _process_normalizations(model_dict, dimensions, labels):
+    """Process the normalizations of intercepts and factor loadings.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
+            n_mixtures. See :ref:`dimensions`.
+        labels (dict): Dict of lists with labels for the model quantities like
+            factors, periods, controls, stagemap and stages. See :ref:`labels`
+
+    Returns:
+        normalizations (dict): Nested dictionary with information on normalized factor
+            loadings and intercepts for each factor. See :ref:`normalizations`.
+
+    """
+    normalizations = {}
+    for factor in labels["latent_factors"]:
+        normalizations[factor] = {}
+        norminfo = model_dict["factors"][factor].get("normalizations", {})
+        for norm_type in ["loadings", "intercepts"]:
+            candidate = norminfo.get(norm_type, [])
+            candidate = fill_list(candidate, {}, dimensions["n_periods"])
+            normalizations[factor][norm_type] = candidate
+
+    return normalizations
+
+
+def fill_list(short_list, fill_value, length):
+    """Extend a list to specified length by filling it with the fill_value.
+
+    Examples:
+    >>> fill_list(["a"], "b", 3)
+    ['a', 'b', 'b']
+
+    """
+    res = list(short_list)
+    diff = length - len(short_list)
+    assert diff >= 0, "short_list has to be shorter than length."
+    if diff >= 1:
+        res += [fill_value] * diff
+    return res
+
+
+def get_period_measurements(update_info, period):
+    if period in update_info.index:
+        measurements = list(update_info.loc[period].index)
+    else:
+        measurements = []
+    return measurements
-- 
2.43.0


From f83e2876ebbe0f57d022c88e2ea63c126961f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:18 +0000
Subject: [PATCH 07/18] fix: order anchoring updates like the latent factors

---
 skillmodels/process_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index 7162813..a86fb63 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -160,7 +160,11 @@ def _process_anchoring(model_dict):
     if "anchoring" in model_dict:
         anchinfo.update(model_dict["anchoring"])
         anchinfo["anchoring"] = True
-        anchinfo["factors"] = list(anchinfo["outcomes"])
+        # use the order of the latent factors because the anchoring updates have to be
+        # in the same order as the columns of loadings and scaling factors.
+        anchinfo["factors"] = [
+            fac for fac in model_dict["factors"] if fac in anchinfo["outcomes"]
+        ]
 
     return anchinfo
 
-- 
2.43.0


From 3f4f1877bf4c29958a45c7d8720b29a862d84810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:18 +0000
Subject: [PATCH 08/18] fix: keep several observed factors as separate columns
 in distribution plots

---
 skillmodels/visualize_factor_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 9f1ee6d..e2a0f51 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -629,7 +629,7 @@ def _get_data_observed_factors(data, factors):
         if fac in data:
             to_concat.append(data[fac])
     if len(to_concat) >= 1:
-        observed_states = pd.DataFrame(pd.concat(to_concat))
+        observed_states = pd.concat(to_concat, axis=1)
     else:
         observed_states = None
     return observed_states
-- 
2.43.0


From 73c8b0fae52e0d5c61e4d2eddb9e93de472de272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:18 +0000
Subject: [PATCH 09/18] fix: do not modify the factor mappings passed by the
 user

---
 skillmodels/visualize_factor_distributions.py |   1 +
 skillmodels/visualize_transition_equations.py | 997 +++++++++---------
 2 files changed, 500 insertions(+), 498 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index e2a0f51..07a173d 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -595,6 +595,7 @@ def _process_factor_mapping_dist(mapper, factors):
     if mapper is None:
         mapper = {fac: fac for fac in factors}
     else:
+        mapper = mapper.copy()
         for fac in factors:
             if fac not in mapper:
                 mapper[fac] = fac
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 023f1d5..5e74b70 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -1,498 +1,499 @@
-import itertools
-from copy import deepcopy
-
-import jax.numpy as jnp
-import numpy as np
-import pandas as pd
-from plotly import express as px
-from plotly import graph_objects as go
-from plotly.subplots import make_subplots
-
-from skillmodels.filtered_states import get_filtered_states
-from skillmodels.params_index import get_params_index
-from skillmodels.parse_params import create_parsing_info
-from skillmodels.parse_params import parse_params
-from skillmodels.process_data import process_data
-from skillmodels.process_debug_data import create_state_ranges
-from skillmodels.process_model import process_model
-from skillmodels.utils_plotting import get_layout_kwargs
-from skillmodels.utils_plotting import get_make_subplot_kwargs
-
-
-def combine_transition_plots(
-    plots_dict,
-    column_order=None,
-    row_order=None,
-    factor_mapping=None,
-    make_subplot_kwargs=None,
-    sharex=False,
-    sharey=True,
-    showlegend=True,
-    layout_kwargs=None,
-    legend_kwargs=None,
-    title_kwargs=None,
-):
-    """Combine individual plots into figure with subplots.
-    Uses dictionary with plotly images as values to build plotly Figure with subplots.
-
-    Args:
-        plots_dict (dict): Dictionary with plots of transition functions for each
-            factor.
-        column_order (list, str or NoneType): List of (output) factor names according
-            to which transition plots should be ordered horizontally. If None, infer
-            from the keys of of plots_dict
-        row_order (list, str or NoneType): List of (input) factor names according
-            to which transition plots should be ordered vertically. If None, infer
-            from the keys of of plots_dict
-        factor_mapping (dict or NoneType): A dictionary with custom factor names to
-            display as axes labels.
-        make_subplot_kwargs (dict or NoneType): Dictionary of keyword arguments used
-            to instantiate plotly Figure with multiple subplots. Is used to define
-            properties such as, for example, the spacing between subplots. If None,
-            default arguments defined in the function are used.
-        sharex (bool): Whether to share the properties of x-axis across subplots.
-            Default False.
-        sharey (bool): Whether to share the properties ofy-axis across subplots.
-            Default True.
-        showlegend (bool): Display legend if True.
-        layout_kwargs (dict or NoneType): Dictionary of key word arguments used to
-            update layout of plotly Figure object. If None, the default kwargs defined
-            in the function will be used.
-        legend_kwargs (dict or NoneType): Dictionary of key word arguments used to
-            update position, orientation and title of figure legend. If None, default
-            position and orientation will be used with no title.
-        title_kwargs (dict or NoneType): Dictionary of key word arguments used to
-            update properties of the figure title. Use {'text': '<desired title>'}
-            to set figure title. If None, infers title based on the value of
-            `quntiles_of_other_factors`.
-
-    Returns:
-        fig (plotly.Figure): Plotly figure with subplots that combines individual
-            transition functions.
-
-    """
-    plots_dict = deepcopy(plots_dict)
-
-    column_order, row_order = _process_orders(column_order, row_order, plots_dict)
-    make_subplot_kwargs = get_make_subplot_kwargs(
-        sharex, sharey, column_order, row_order, make_subplot_kwargs
-    )
-    factor_mapping = _process_factor_mapping_trans(
-        factor_mapping, row_order, column_order
-    )
-    fig = make_subplots(**make_subplot_kwargs)
-    for (output_factor, input_factor), (row, col) in zip(
-        itertools.product(row_order, column_order),
-        itertools.product(np.arange(len(row_order)), np.arange(len(column_order))),
-    ):
-        try:
-            subfig = plots_dict[(input_factor, output_factor)]
-        except KeyError:
-            subfig = go.Figure()
-        if not (row == 0 and col == 0):
-            for d in subfig.data:
-                d.update({"showlegend": False})
-                fig.add_trace(d, col=col + 1, row=row + 1)
-        else:
-            for d in subfig.data:
-                fig.add_trace(
-                    d,
-                    col=col + 1,
-                    row=row + 1,
-                )
-        fig.update_xaxes(
-            title_text=f"{factor_mapping[input_factor]}", row=row + 1, col=col + 1
-        )
-        if col == 0:
-            fig.update_yaxes(
-                title_text=f"{factor_mapping[output_factor]}",
-                row=row + 1,
-                col=col + 1,
-            )
-
-    layout_kwargs = get_layout_kwargs(
-        layout_kwargs, legend_kwargs, title_kwargs, showlegend, column_order, row_order
-    )
-    fig.update_layout(**layout_kwargs)
-    return fig
-
-
-def get_transition_plots(
-    model_dict,
-    params,
-    data,
-    period,
-    state_ranges=None,
-    quantiles_of_other_factors=(0.25, 0.5, 0.75),
-    n_points=50,
-    n_draws=50,
-    colorscale="Magenta_r",
-    layout_kwargs=None,
-):
-    """Get dictionary with individual plots of transition equations for each factor.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-        params (pandas.DataFrame): DataFrame with model parameters.
-        data (pd.DataFrame): Empirical dataset that is used to estimate the model.
-        period (int): The start period of the transition equations that are plotted.
-        state_ranges (dict or NoneType): The keys are the names of the latent factors.
-            The values are DataFrames with the columns "period", "minimum", "maximum".
-            The state_ranges are used to define the axis limits of the plots.
-        quantiles_of_other_factors (float, list or None): Quantiles at which the factors
-            that are not varied in a given plot are fixed. If None, those factors are
-            not fixed but integrated out.
-        n_points (int): Number of grid points per input. Default 50.
-        n_draws (int): Number of randomly drawn values of the factors that are averaged
-            out. Only relevant if quantiles_of_other_factors is *None*. Default 50.
-        colorscale (str): The color scale to use for line legends. Must be a valid
-            plotly.express.colors.sequential attribute. Default 'Magenta_r'.
-        layout_kwargs (dict or NoneType): Dictionary of key word arguments used to
-            update layout of plotly image object. If None, the default kwargs
-            defined in the function will be used.
-
-    Returns:
-        plots_dict (dict): Dictionary with individual plots of transition equations
-            for each combination of input and output factors.
-
-    """
-    quantiles_of_other_factors = _process_quantiles_of_other_factors(
-        quantiles_of_other_factors
-    )
-
-    model = process_model(model_dict)
-
-    if period >= model["labels"]["periods"][-1]:
-        raise ValueError(
-            "*period* must be the penultimate period of the model or earlier."
-        )
-
-    latent_factors = model["labels"]["latent_factors"]
-    all_factors = model["labels"]["all_factors"]
-    states = get_filtered_states(model_dict=model_dict, data=data, params=params)[
-        "anchored_states"
-    ]["states"]
-    plots_dict = _get_dictionary_with_plots(
-        model,
-        data,
-        params,
-        states,
-        state_ranges,
-        latent_factors,
-        all_factors,
-        quantiles_of_other_factors,
-        period,
-        n_points,
-        n_draws,
-        colorscale,
-        layout_kwargs,
-    )
-    return plots_dict
-
-
-def _get_dictionary_with_plots(
-    model,
-    data,
-    params,
-    states,
-    state_ranges,
-    latent_factors,
-    all_factors,
-    quantiles_of_other_factors,
-    period,
-    n_points,
-    n_draws,
-    colorscale,
-    layout_kwargs,
-    showlegend=True,
-):
-    """Get plots of transition functions for each input and output combination.
-    Returns a dictionary with individual plots of transition fanctions for each input
-    and output factors.
-
-    Args:
-        model (dict): The model specification. See: :ref:`model_specs`
-        params (pandas.DataFrame): DataFrame with model parameters.
-        states (pandas.DataFrame): Tidy DataFrame with filtered or simulated states.
-            They are used to estimate the state ranges in each period (if state_ranges
-            are not given explicitly) and to estimate the distribution of the factors
-            that are not visualized.
-        state_ranges (dict): The keys are the names of the latent factors.
-            The values are DataFrames with the columns "period", "minimum", "maximum".
-            The state_ranges are used to define the axis limits of the plots.
-
-        latent_factors (list): Latent factors of the model that are outputs of
-            transition factors.
-        all_factors (list): All factors of the model that are the inuts of transition
-            functions.
-        quantiles_of_other_factors (float, list or None): Quantiles at which the factors
-            that are not varied in a given plot are fixed. If None, those factors are
-            not fixed but integrated out.
-        period (int): The start period of the transition equations that are plotted.
-        n_points (int): Number of grid points per input. Default 50.
-        n_draws (int): Number of randomly drawn values of the factors that are averaged
-            out. Only relevant if quantiles_of_other_factors is *None*. Default 50.
-        colorscale (str): The color scale to use for line legends. Must be a valid
-            plotly.express.colors.sequential attribute. Default 'Magenta_r'.
-        subfig_kwargs (dict or NoneType): Dictionary of key word arguments used to
-            update layout of plotly image object. If None, the default kwargs defined
-            in the function will be used.
-
-    Returns:
-        plots_dict (dict): Dictionary with individual plots of transition functions
-            for each input and output factors.
-
-    """
-    observed_factors = model["labels"]["observed_factors"]
-    states_data = _get_states_data(model, period, data, states, observed_factors)
-    params = _set_index_params(model, params)
-    pardict = _get_pardict(model, params)
-    state_ranges = _get_state_ranges(state_ranges, states_data, all_factors)
-    layout_kwargs = get_layout_kwargs(
-        layout_kwargs=layout_kwargs,
-        legend_kwargs=None,
-        title_kwargs=None,
-        showlegend=showlegend,
-    )
-    plots_dict = {}
-    for output_factor, input_factor in itertools.product(latent_factors, all_factors):
-        transition_function = model["transition_info"]["individual_functions"][
-            output_factor
-        ]
-        transition_params = {
-            output_factor: pardict["transition"][output_factor][period]
-        }
-
-        if quantiles_of_other_factors is not None:
-            plot_data = _prepare_data_for_one_plot_fixed_quantile_2d(
-                states_data=states_data,
-                state_ranges=state_ranges,
-                period=period,
-                input_factor=input_factor,
-                output_factor=output_factor,
-                quantiles_of_other_factors=quantiles_of_other_factors,
-                n_points=n_points,
-                transition_function=transition_function,
-                transition_params=transition_params,
-                all_factors=all_factors,
-            )
-
-        else:
-            plot_data = _prepare_data_for_one_plot_average_2d(
-                states_data=states_data,
-                state_ranges=state_ranges,
-                period=period,
-                input_factor=input_factor,
-                output_factor=output_factor,
-                n_points=n_points,
-                n_draws=n_draws,
-                transition_function=transition_function,
-                transition_params=transition_params,
-                all_factors=all_factors,
-            )
-
-        if (
-            isinstance(quantiles_of_other_factors, list)
-            and len(quantiles_of_other_factors) > 1
-        ):
-            color = "quantile"
-        else:
-            color = None
-        subfig = px.line(
-            plot_data,
-            y=f"output_{output_factor}",
-            x=f"input_{input_factor}",
-            color=color,
-            color_discrete_sequence=getattr(px.colors.sequential, colorscale),
-        )
-        subfig.update_xaxes(title={"text": input_factor})
-        subfig.update_yaxes(title={"text": output_factor})
-        subfig.update_layout(**layout_kwargs)
-        plots_dict[(input_factor, output_factor)] = deepcopy(subfig)
-
-    return plots_dict
-
-
-def _get_state_ranges(state_ranges, states_data, all_factors):
-    """Create state ranges if none is given"""
-    if state_ranges is None:
-        state_ranges = create_state_ranges(states_data, all_factors)
-    return state_ranges
-
-
-def _get_pardict(model, params):
-    """Get parsed params dictionary."""
-    parsing_info = create_parsing_info(
-        params_index=params.index,
-        update_info=model["update_info"],
-        labels=model["labels"],
-        anchoring=model["anchoring"],
-    )
-
-    _, _, _, pardict = parse_params(
-        params=jnp.array(params["value"].to_numpy()),
-        parsing_info=parsing_info,
-        dimensions=model["dimensions"],
-        labels=model["labels"],
-        n_obs=1,
-    )
-    return pardict
-
-
-def _set_index_params(model, params):
-    """Reset index of params data frame to model implied values."""
-    params_index = get_params_index(
-        update_info=model["update_info"],
-        labels=model["labels"],
-        dimensions=model["dimensions"],
-        transition_info=model["transition_info"],
-    )
-
-    params = params.reindex(params_index)
-    return params
-
-
-def _get_states_data(model, period, data, states, observed_factors):
-
-    if observed_factors and data is None:
-        raise ValueError(
-            """The model has observed factors. You must pass the empirical data to
-        'visualize_transition_equations' via the keyword *data*."""
-        )
-
-    if observed_factors:
-        _, _, _observed_arr = process_data(
-            df=data,
-            labels=model["labels"],
-            update_info=model["update_info"],
-            anchoring_info=model["anchoring"],
-        )
-        # convert from jax to numpy
-        _observed_arr = np.array(_observed_arr)
-        observed_data = pd.DataFrame(
-            data=_observed_arr[period], columns=observed_factors
-        )
-        observed_data["id"] = observed_data.index
-        observed_data["period"] = period
-        states_data = pd.merge(
-            left=states,
-            right=observed_data,
-            left_on=["id", "period"],
-            right_on=["id", "period"],
-            how="left",
-        )
-    else:
-        states_data = states.copy(deep=True)
-    return states_data
-
-
-def _prepare_data_for_one_plot_fixed_quantile_2d(
-    states_data,
-    state_ranges,
-    period,
-    input_factor,
-    output_factor,
-    quantiles_of_other_factors,
-    n_points,
-    transition_function,
-    transition_params,
-    all_factors,
-):
-
-    period_data = states_data.query(f"period == {period}")[all_factors]
-    input_min = state_ranges[input_factor].loc[period]["minimum"]
-    input_max = state_ranges[input_factor].loc[period]["maximum"]
-    to_concat = []
-    for quantile in quantiles_of_other_factors:
-        input_data = pd.DataFrame()
-        input_data[input_factor] = np.linspace(input_min, input_max, n_points)
-        fixed_quantiles = period_data.drop(columns=input_factor).quantile(quantile)
-        input_data[fixed_quantiles.index] = fixed_quantiles
-        input_arr = jnp.array(input_data[all_factors].to_numpy())
-        # convert from jax to numpy array
-        output_arr = np.array(transition_function(transition_params, input_arr))
-        quantile_data = pd.DataFrame()
-        quantile_data[f"input_{input_factor}"] = input_data[input_factor]
-        quantile_data[f"output_{output_factor}"] = np.array(output_arr)
-        quantile_data["quantile"] = quantile
-        to_concat.append(quantile_data)
-
-    out = pd.concat(to_concat).reset_index()
-    return out
-
-
-def _process_quantiles_of_other_factors(quantiles_of_other_factors):
-    """Process quantiles of other factors to always have list as type."""
-    if isinstance(quantiles_of_other_factors, (float, int)):
-        quantiles_of_other_factors = [quantiles_of_other_factors]
-    elif isinstance(quantiles_of_other_factors, (tuple, list)):
-        quantiles_of_other_factors = list(quantiles_of_other_factors)
-    return quantiles_of_other_factors
-
-
-def _prepare_data_for_one_plot_average_2d(
-    states_data,
-    state_ranges,
-    period,
-    input_factor,
-    output_factor,
-    n_points,
-    n_draws,
-    transition_function,
-    transition_params,
-    all_factors,
-):
-
-    period_data = states_data.query(f"period == {period}")[all_factors].reset_index()
-
-    sampled_factors = [factor for factor in all_factors if factor != input_factor]
-    draws = period_data[sampled_factors].sample(n=n_draws)
-    input_min = state_ranges[input_factor].loc[period]["minimum"]
-    input_max = state_ranges[input_factor].loc[period]["maximum"]
-
-    to_concat = []
-    for _, draw in draws.iterrows():
-        input_data = pd.DataFrame()
-        input_data[input_factor] = np.linspace(input_min, input_max, n_points)
-        input_data[draw.index] = draw
-        input_arr = jnp.array(input_data[all_factors].to_numpy())
-        # convert from jax to numpy array
-        output_arr = np.array(transition_function(transition_params, input_arr))
-        draw_data = pd.DataFrame()
-        draw_data[f"input_{input_factor}"] = input_data[input_factor]
-        draw_data[f"output_{output_factor}"] = np.array(output_arr)
-        to_concat.append(draw_data)
-
-    out = pd.concat(to_concat).groupby(f"input_{input_factor}").mean().reset_index()
-    return out
-
-
-def _process_factor_mapping_trans(factor_mapper, output_factors, input_factors):
-    """Process mapper to return dictionary with old and new factor names"""
-    all_factors = input_factors + output_factors
-    if factor_mapper is None:
-        factor_mapper = {fac: fac for fac in all_factors}
-    else:
-        for fac in all_factors:
-            if fac not in factor_mapper:
-                factor_mapper[fac] = fac
-    return factor_mapper
-
-
-def _process_orders(columns, rows, plots_dict):
-    """Process axes orders to return list of strings."""
-    if columns is None:
-        columns = []
-        for f in plots_dict.keys():
-            if f[0] not in columns:
-                columns.append(f[0])
-    elif isinstance(columns, str):
-        columns = [columns]
-    if rows is None:
-        rows = []
-        for f in plots_dict.keys():
-            if f[1] not in rows:
-                rows.append(f[1])
-    elif isinstance(rows, str):
-        rows = [rows]
-    return columns, rows
+import itertools
+from copy import deepcopy
+
+import jax.numpy as jnp
+import numpy as np
+import pandas as pd
+from plotly import express as px
+from plotly import graph_objects as go
+from plotly.subplots import make_subplots
+
+from skillmodels.filtered_states import get_filtered_states
+from skillmodels.params_index import get_params_index
+from skillmodels.parse_params import create_parsing_info
+from skillmodels.parse_params import parse_params
+from skillmodels.process_data import process_data
+from skillmodels.process_debug_data import create_state_ranges
+from skillmodels.process_model import process_model
+from skillmodels.utils_plotting import get_layout_kwargs
+from skillmodels.utils_plotting import get_make_subplot_kwargs
+
+
+def combine_transition_plots(
+    plots_dict,
+    column_order=None,
+    row_order=None,
+    factor_mapping=None,
+    make_subplot_kwargs=None,
+    sharex=False,
+    sharey=True,
+    showlegend=True,
+    layout_kwargs=None,
+    legend_kwargs=None,
+    title_kwargs=None,
+):
+    """Combine individual plots into figure with subplots.
+    Uses dictionary with plotly images as values to build plotly Figure with subplots.
+
+    Args:
+        plots_dict (dict): Dictionary with plots of transition functions for each
+            factor.
+        column_order (list, str or NoneType): List of (output) factor names according
+            to which transition plots should be ordered horizontally. If None, infer
+            from the keys of of plots_dict
+        row_order (list, str or NoneType): List of (input) factor names according
+            to which transition plots should be ordered vertically. If None, infer
+            from the keys of of plots_dict
+        factor_mapping (dict or NoneType): A dictionary with custom factor names to
+            display as axes labels.
+        make_subplot_kwargs (dict or NoneType): Dictionary of keyword arguments used
+            to instantiate plotly Figure with multiple subplots. Is used to define
+            properties such as, for example, the spacing between subplots. If None,
+            default arguments defined in the function are used.
+        sharex (bool): Whether to share the properties of x-axis across subplots.
+            Default False.
+        sharey (bool): Whether to share the properties ofy-axis across subplots.
+            Default True.
+        showlegend (bool): Display legend if True.
+        layout_kwargs (dict or NoneType): Dictionary of key word arguments used to
+            update layout of plotly Figure object. If None, the default kwargs defined
+            in the function will be used.
+        legend_kwargs (dict or NoneType): Dictionary of key word arguments used to
+            update position, orientation and title of figure legend. If None, default
+            position and orientation will be used with no title.
+        title_kwargs (dict or NoneType): Dictionary of key word arguments used to
+            update properties of the figure title. Use {'text': '<desired title>'}
+            to set figure title. If None, infers title based on the value of
+            `quntiles_of_other_factors`.
+
+    Returns:
+        fig (plotly.Figure): Plotly figure with subplots that combines individual
+            transition functions.
+
+    """
+    plots_dict = deepcopy(plots_dict)
+
+    column_order, row_order = _process_orders(column_order, row_order, plots_dict)
+    make_subplot_kwargs = get_make_subplot_kwargs(
+        sharex, sharey, column_order, row_order, make_subplot_kwargs
+    )
+    factor_mapping = _process_factor_mapping_trans(
+        factor_mapping, row_order, column_order
+    )
+    fig = make_subplots(**make_subplot_kwargs)
+    for (output_factor, input_factor), (row, col) in zip(
+        itertools.product(row_order, column_order),
+        itertools.product(np.arange(len(row_order)), np.arange(len(column_order))),
+    ):
+        try:
+            subfig = plots_dict[(input_factor, output_factor)]
+        except KeyError:
+            subfig = go.Figure()
+        if not (row == 0 and col == 0):
+            for d in subfig.data:
+                d.update({"showlegend": False})
+                fig.add_trace(d, col=col + 1, row=row + 1)
+        else:
+            for d in subfig.data:
+                fig.add_trace(
+                    d,
+                    col=col + 1,
+                    row=row + 1,
+                )
+        fig.update_xaxes(
+            title_text=f"{factor_mapping[input_factor]}", row=row + 1, col=col + 1
+        )
+        if col == 0:
+            fig.update_yaxes(
+                title_text=f"{factor_mapping[output_factor]}",
+                row=row + 1,
+                col=col + 1,
+            )
+
+    layout_kwargs = get_layout_kwargs(
+        layout_kwargs, legend_kwargs, title_kwargs, showlegend, column_order, row_order
+    )
+    fig.update_layout(**layout_kwargs)
+    return fig
+
+
+def get_transition_plots(
+    model_dict,
+    params,
+    data,
+    period,
+    state_ranges=None,
+    quantiles_of_other_factors=(0.25, 0.5, 0.75),
+    n_points=50,
+    n_draws=50,
+    colorscale="Magenta_r",
+    layout_kwargs=None,
+):
+    """Get dictionary with individual plots of transition equations for each factor.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+        params (pandas.DataFrame): DataFrame with model parameters.
+        data (pd.DataFrame): Empirical dataset that is used to estimate the model.
+        period (int): The start period of the transition equations that are plotted.
+        state_ranges (dict or NoneType): The keys are the names of the latent factors.
+            The values are DataFrames with the columns "period", "minimum", "maximum".
+            The state_ranges are used to define the axis limits of the plots.
+        quantiles_of_other_factors (float, list or None): Quantiles at which the factors
+            that are not varied in a given plot are fixed. If None, those factors are
+            not fixed but integrated out.
+        n_points (int): Number of grid points per input. Default 50.
+        n_draws (int): Number of randomly drawn values of the factors that are averaged
+            out. Only relevant if quantiles_of_other_factors is *None*. Default 50.
+        colorscale (str): The color scale to use for line legends. Must be a valid
+            plotly.express.colors.sequential attribute. Default 'Magenta_r'.
+        layout_kwargs (dict or NoneType): Dictionary of key word arguments used to
+            update layout of plotly image object. If None, the default kwargs
+            defined in the function will be used.
+
+    Returns:
+        plots_dict (dict): Dictionary with individual plots of transition equations
+            for each combination of input and output factors.
+
+    """
+    quantiles_of_other_factors = _process_quantiles_of_other_factors(
+        quantiles_of_other_factors
+    )
+
+    model = process_model(model_dict)
+
+    if period >= model["labels"]["periods"][-1]:
+        raise ValueError(
+            "*period* must be the penultimate period of the model or earlier."
+        )
+
+    latent_factors = model["labels"]["latent_factors"]
+    all_factors = model["labels"]["all_factors"]
+    states = get_filtered_states(model_dict=model_dict, data=data, params=params)[
+        "anchored_states"
+    ]["states"]
+    plots_dict = _get_dictionary_with_plots(
+        model,
+        data,
+        params,
+        states,
+        state_ranges,
+        latent_factors,
+        all_factors,
+        quantiles_of_other_factors,
+        period,
+        n_points,
+        n_draws,
+        colorscale,
+        layout_kwargs,
+    )
+    return plots_dict
+
+
+def _get_dictionary_with_plots(
+    model,
+    data,
+    params,
+    states,
+    state_ranges,
+    latent_factors,
+    all_factors,
+    quantiles_of_other_factors,
+    period,
+    n_points,
+    n_draws,
+    colorscale,
+    layout_kwargs,
+    showlegend=True,
+):
+    """Get plots of transition functions for each input and output combination.
+    Returns a dictionary with individual plots of transition fanctions for each input
+    and output factors.
+
+    Args:
+        model (dict): The model specification. See: :ref:`model_specs`
+        params (pandas.DataFrame): DataFrame with model parameters.
+        states (pandas.DataFrame): Tidy DataFrame with filtered or simulated states.
+            They are used to estimate the state ranges in each period (if state_ranges
+            are not given explicitly) and to estimate the distribution of the factors
+            that are not visualized.
+        state_ranges (dict): The keys are the names of the latent factors.
+            The values are DataFrames with the columns "period", "minimum", "maximum".
+            The state_ranges are used to define the axis limits of the plots.
+
+        latent_factors (list): Latent factors of the model that are outputs of
+            transition factors.
+        all_factors (list): All factors of the model that are the inuts of transition
+            functions.
+        quantiles_of_other_factors (float, list or None): Quantiles at which the factors
+            that are not varied in a given plot are fixed. If None, those factors are
+            not fixed but integrated out.
+        period (int): The start period of the transition equations that are plotted.
+        n_points (int): Number of grid points per input. Default 50.
+        n_draws (int): Number of randomly drawn values of the factors that are averaged
+            out. Only relevant if quantiles_of_other_factors is *None*. Default 50.
+        colorscale (str): The color scale to use for line legends. Must be a valid
+            plotly.express.colors.sequential attribute. Default 'Magenta_r'.
+        subfig_kwargs (dict or NoneType): Dictionary of key word arguments used to
+            update layout of plotly image object. If None, the default kwargs defined
+            in the function will be used.
+
+    Returns:
+        plots_dict (dict): Dictionary with individual plots of transition functions
+            for each input and output factors.
+
+    """
+    observed_factors = model["labels"]["observed_factors"]
+    states_data = _get_states_data(model, period, data, states, observed_factors)
+    params = _set_index_params(model, params)
+    pardict = _get_pardict(model, params)
+    state_ranges = _get_state_ranges(state_ranges, states_data, all_factors)
+    layout_kwargs = get_layout_kwargs(
+        layout_kwargs=layout_kwargs,
+        legend_kwargs=None,
+        title_kwargs=None,
+        showlegend=showlegend,
+    )
+    plots_dict = {}
+    for output_factor, input_factor in itertools.product(latent_factors, all_factors):
+        transition_function = model["transition_info"]["individual_functions"][
+            output_factor
+        ]
+        transition_params = {
+            output_factor: pardict["transition"][output_factor][period]
+        }
+
+        if quantiles_of_other_factors is not None:
+            plot_data = _prepare_data_for_one_plot_fixed_quantile_2d(
+                states_data=states_data,
+                state_ranges=state_ranges,
+                period=period,
+                input_factor=input_factor,
+                output_factor=output_factor,
+                quantiles_of_other_factors=quantiles_of_other_factors,
+                n_points=n_points,
+                transition_function=transition_function,
+                transition_params=transition_params,
+                all_factors=all_factors,
+            )
+
+        else:
+            plot_data = _prepare_data_for_one_plot_average_2d(
+                states_data=states_data,
+                state_ranges=state_ranges,
+                period=period,
+                input_factor=input_factor,
+                output_factor=output_factor,
+                n_points=n_points,
+                n_draws=n_draws,
+                transition_function=transition_function,
+                transition_params=transition_params,
+                all_factors=all_factors,
+            )
+
+        if (
+            isinstance(quantiles_of_other_factors, list)
+            and len(quantiles_of_other_factors) > 1
+        ):
+            color = "quantile"
+        else:
+            color = None
+        subfig = px.line(
+            plot_data,
+            y=f"output_{output_factor}",
+            x=f"input_{input_factor}",
+            color=color,
+            color_discrete_sequence=getattr(px.colors.sequential, colorscale),
+        )
+        subfig.update_xaxes(title={"text": input_factor})
+        subfig.update_yaxes(title={"text": output_factor})
+        subfig.update_layout(**layout_kwargs)
+        plots_dict[(input_factor, output_factor)] = deepcopy(subfig)
+
+    return plots_dict
+
+
+def _get_state_ranges(state_ranges, states_data, all_factors):
+    """Create state ranges if none is given"""
+    if state_ranges is None:
+        state_ranges = create_state_ranges(states_data, all_factors)
+    return state_ranges
+
+
+def _get_pardict(model, params):
+    """Get parsed params dictionary."""
+    parsing_info = create_parsing_info(
+        params_index=params.index,
+        update_info=model["update_info"],
+        labels=model["labels"],
+        anchoring=model["anchoring"],
+    )
+
+    _, _, _, pardict = parse_params(
+        params=jnp.array(params["value"].to_numpy()),
+        parsing_info=parsing_info,
+        dimensions=model["dimensions"],
+        labels=model["labels"],
+        n_obs=1,
+    )
+    return pardict
+
+
+def _set_index_params(model, params):
+    """Reset index of params data frame to model implied values."""
+    params_index = get_params_index(
+        update_info=model["update_info"],
+        labels=model["labels"],
+        dimensions=model["dimensions"],
+        transition_info=model["transition_info"],
+    )
+
+    params = params.reindex(params_index)
+    return params
+
+
+def _get_states_data(model, period, data, states, observed_factors):
+
+    if observed_factors and data is None:
+        raise ValueError(
+            """The model has observed factors. You must pass the empirical data to
+        'visualize_transition_equations' via the keyword *data*."""
+        )
+
+    if observed_factors:
+        _, _, _observed_arr = process_data(
+            df=data,
+            labels=model["labels"],
+            update_info=model["update_info"],
+            anchoring_info=model["anchoring"],
+        )
+        # convert from jax to numpy
+        _observed_arr = np.array(_observed_arr)
+        observed_data = pd.DataFrame(
+            data=_observed_arr[period], columns=observed_factors
+        )
+        observed_data["id"] = observed_data.index
+        observed_data["period"] = period
+        states_data = pd.merge(
+            left=states,
+            right=observed_data,
+            left_on=["id", "period"],
+            right_on=["id", "period"],
+            how="left",
+        )
+    else:
+        states_data = states.copy(deep=True)
+    return states_data
+
+
+def _prepare_data_for_one_plot_fixed_quantile_2d(
+    states_data,
+    state_ranges,
+    period,
+    input_factor,
+    output_factor,
+    quantiles_of_other_factors,
+    n_points,
+    transition_function,
+    transition_params,
+    all_factors,
+):
+
+    period_data = states_data.query(f"period == {period}")[all_factors]
+    input_min = state_ranges[input_factor].loc[period]["minimum"]
+    input_max = state_ranges[input_factor].loc[period]["maximum"]
+    to_concat = []
+    for quantile in quantiles_of_other_factors:
+        input_data = pd.DataFrame()
+        input_data[input_factor] = np.linspace(input_min, input_max, n_points)
+        fixed_quantiles = period_data.drop(columns=input_factor).quantile(quantile)
+        input_data[fixed_quantiles.index] = fixed_quantiles
+        input_arr = jnp.array(input_data[all_factors].to_numpy())
+        # convert from jax to numpy array
+        output_arr = np.array(transition_function(transition_params, input_arr))
+        quantile_data = pd.DataFrame()
+        quantile_data[f"input_{input_factor}"] = input_data[input_factor]
+        quantile_data[f"output_{output_factor}"] = np.array(output_arr)
+        quantile_data["quantile"] = quantile
+        to_concat.append(quantile_data)
+
+    out = pd.concat(to_concat).reset_index()
+    return out
+
+
+def _process_quantiles_of_other_factors(quantiles_of_other_factors):
+    """Process quantiles of other factors to always have list as type."""
+    if isinstance(quantiles_of_other_factors, (float, int)):
+        quantiles_of_other_factors = [quantiles_of_other_factors]
+    elif isinstance(quantiles_of_other_factors, (tuple, list)):
+        quantiles_of_other_factors = list(quantiles_of_other_factors)
+    return quantiles_of_other_factors
+
+
+def _prepare_data_for_one_plot_average_2d(
+    states_data,
+    state_ranges,
+    period,
+    input_factor,
+    output_factor,
+    n_points,
+    n_draws,
+    transition_function,
+    transition_params,
+    all_factors,
+):
+
+    period_data = states_data.query(f"period == {period}")[all_factors].reset_index()
+
+    sampled_factors = [factor for factor in all_factors if factor != input_factor]
+    draws = period_data[sampled_factors].sample(n=n_draws)
+    input_min = state_ranges[input_factor].loc[period]["minimum"]
+    input_max = state_ranges[input_factor].loc[period]["maximum"]
+
+    to_concat = []
+    for _, draw in draws.iterrows():
+        input_data = pd.DataFrame()
+        input_data[input_factor] = np.linspace(input_min, input_max, n_points)
+        input_data[draw.index] = draw
+        input_arr = jnp.array(input_data[all_factors].to_numpy())
+        # convert from jax to numpy array
+        output_arr = np.array(transition_function(transition_params, input_arr))
+        draw_data = pd.DataFrame()
+        draw_data[f"input_{input_factor}"] = input_data[input_factor]
+        draw_data[f"output_{output_factor}"] = np.array(output_arr)
+        to_concat.append(draw_data)
+
+    out = pd.concat(to_concat).groupby(f"input_{input_factor}").mean().reset_index()
+    return out
+
+
+def _process_factor_mapping_trans(factor_mapper, output_factors, input_factors):
+    """Process mapper to return dictionary with old and new factor names"""
+    all_factors = input_factors + output_factors
+    if factor_mapper is None:
+        factor_mapper = {fac: fac for fac in all_factors}
+    else:
+        factor_mapper = factor_mapper.copy()
+        for fac in all_factors:
+            if fac not in factor_mapper:
+                factor_mapper[fac] = fac
+    return factor_mapper
+
+
+def _process_orders(columns, rows, plots_dict):
+    """Process axes orders to return list of strings."""
+    if columns is None:
+        columns = []
+        for f in plots_dict.keys():
+            if f[0] not in columns:
+                columns.append(f[0])
+    elif isinstance(columns, str):
+        columns = [columns]
+    if rows is None:
+        rows = []
+        for f in plots_dict.keys():
+            if f[1] not in rows:
+                rows.append(f[1])
+    elif isinstance(rows, str):
+        rows = [rows]
+    return columns, rows
-- 
2.43.0


From eb2a1ace82993fa44fa023d6d4d4871efee42e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:58 +0000
Subject: [PATCH 10/18] fix: reject anchoring outcomes for factors that are not
 in the model

---
 skillmodels/check_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index c50aec3..484e581 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -29,7 +29,7 @@ def check_model(model_dict, labels, dimensions, anchoring):
     report = _check_stagemap(
         labels["stagemap"], labels["stages"], dimensions["n_periods"]
     )
-    report += _check_anchoring(anchoring)
+    report += _check_anchoring(anchoring, labels["latent_factors"])
     report += _check_measurements(model_dict, labels["latent_factors"])
     report += _check_normalizations(model_dict, labels["latent_factors"])
 
@@ -54,7 +54,7 @@ def _check_stagemap(stagemap, stages, n_periods):
     return report
 
 
-def _check_anchoring(anchoring):
+def _check_anchoring(anchoring, factors):
     report = []
     if not isinstance(anchoring["anchoring"], bool):
         report.append("anchoring['anchoring'] must be a bool.")
@@ -65,6 +65,12 @@ def _check_anchoring(anchoring):
         for var in variables:
             if not isinstance(var, (str, int, tuple)):
                 report.append("Outcomes variables have to be valid variable names.")
+        for factor in anchoring["outcomes"]:
+            if factor not in factors:
+                report.append(
+                    "anchoring['outcomes'] must only contain latent factors. Check "
+                    f"{factor}."
+                )
 
     if not isinstance(anchoring["free_controls"], bool):
         report.append("anchoring['use_controls'] must be a bool")
-- 
2.43.0


From ed1e7838e760e50348b893f5662862121a317074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:41 +0000
Subject: [PATCH 11/18] fix: report non-numeric stages instead of raising a
 TypeError

---
 skillmodels/check_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 484e581..aef6afe 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -49,8 +49,11 @@ def _check_stagemap(stagemap, stages, n_periods):
     if stages != list(range(len(stages))):
         report.append("Stages need to be integers, start at zero and increase by 1.")
 
-    if not np.isin(np.array(stagemap[1:]) - np.array(stagemap[:-1]), (0, 1)).all():
-        report.append("Consecutive entries in stagemap must be equal or increase by 1.")
+    if np.issubdtype(np.array(stagemap).dtype, np.number):
+        if not np.isin(np.diff(stagemap), (0, 1)).all():
+            report.append(
+                "Consecutive entries in stagemap must be equal or increase by 1."
+            )
     return report
 
 
-- 
2.43.0


From fd58d65c06fcb61440c62c9ab7dc5c020119befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:31 +0000
Subject: [PATCH 12/18] fix: plot univariate densities if states are passed as
 a list

---
 skillmodels/visualize_factor_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 07a173d..d336bb1 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -514,7 +514,7 @@ def _process_distplot_kwargs(
         "show_curve": show_curve,
         "curve_type": curve_type,
         "bin_size": bin_size,
-        "group_labels": scenarios,
+        "group_labels": [str(scenario) for scenario in scenarios],
         "colors": getattr(px.colors.qualitative, colorscale),
     }
     if distplot_kwargs:
-- 
2.43.0


From ff9b538a621204ea8d4c634768ce38193e38fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:25 +0000
Subject: [PATCH 13/18] fix: restore the original line endings of the files
 changed by the previous fixes

The earlier fix commits converted CRLF files to LF by accident; with this commit the
fixes differ from the original files only in the lines they need.
---
 skillmodels/check_model.py                    | 344 +++---
 skillmodels/kalman_filters.py                 | 636 +++++------
 skillmodels/process_data.py                   | 328 +++---
 skillmodels/process_debug_data.py             | 370 +++----
 skillmodels/process_model.py                  | 660 ++++++------
 skillmodels/visualize_transition_equations.py | 998 +++++++++---------
 6 files changed, 1668 insertions(+), 1668 deletions(-)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index aef6afe..3725b35 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -1,172 +1,172 @@
-import numpy as np
-
-
-def check_model(model_dict, labels, dimensions, anchoring):
-    """Check consistency and validity of the model specification.
-
-    labels, dimensions and anchoring information are done before the model checking
-    because processing them will not raise any errors except for easy to understand
-    KeyErrors.
-
-    Other specifications are checked in the model dict before processing to make sure
-    that the assumptions we make during the processing are fulfilled.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
-            n_mixtures. See :ref:`dimensions`.
-
-        labels (dict): Dict of lists with labels for the model quantities like
-            factors, periods, controls, stagemap and stages. See :ref:`labels`
-
-        anchoring (dict): Dictionary with information about anchoring.
-            See :ref:`anchoring`
-
-    Raises:
-        ValueError
-
-    """
-    report = _check_stagemap(
-        labels["stagemap"], labels["stages"], dimensions["n_periods"]
-    )
-    report += _check_anchoring(anchoring, labels["latent_factors"])
-    report += _check_measurements(model_dict, labels["latent_factors"])
-    report += _check_normalizations(model_dict, labels["latent_factors"])
-
-    report = "\n".join(report)
-    if report != "":
-        raise ValueError(f"Invalid model specification:\n{report}")
-
-
-def _check_stagemap(stagemap, stages, n_periods):
-    report = []
-    if len(stagemap) != n_periods - 1:
-        report.append(
-            "The stagemap needs to be of length n_periods - 1. n_periods is "
-            f"{n_periods}, the stagemap has length {len(stagemap)}."
-        )
-
-    if stages != list(range(len(stages))):
-        report.append("Stages need to be integers, start at zero and increase by 1.")
-
-    if np.issubdtype(np.array(stagemap).dtype, np.number):
-        if not np.isin(np.diff(stagemap), (0, 1)).all():
-            report.append(
-                "Consecutive entries in stagemap must be equal or increase by 1."
-            )
-    return report
-
-
-def _check_anchoring(anchoring, factors):
-    report = []
-    if not isinstance(anchoring["anchoring"], bool):
-        report.append("anchoring['anchoring'] must be a bool.")
-    if not isinstance(anchoring["outcomes"], dict):
-        report.append("anchoring['outcomes'] must be a dict")
-    else:
-        variables = list(anchoring["outcomes"].values())
-        for var in variables:
-            if not isinstance(var, (str, int, tuple)):
-                report.append("Outcomes variables have to be valid variable names.")
-        for factor in anchoring["outcomes"]:
-            if factor not in factors:
-                report.append(
-                    "anchoring['outcomes'] must only contain latent factors. Check "
-                    f"{factor}."
-                )
-
-    if not isinstance(anchoring["free_controls"], bool):
-        report.append("anchoring['use_controls'] must be a bool")
-    if not isinstance(anchoring["free_constant"], bool):
-        report.append("anchoring['use_constant'] must be a bool.")
-    if not isinstance(anchoring["free_loadings"], bool):
-        report.append("anchoring['free_loadings'] must be a bool.")
-    return report
-
-
-def _check_measurements(model_dict, factors):
-    report = []
-    for factor in factors:
-        candidate = model_dict["factors"][factor]["measurements"]
-        if not _is_list_of(candidate, list):
-            report.append(
-                f"measurements must lists of lists. Check measurements of {factor}."
-            )
-        else:
-            for period, meas_list in enumerate(candidate):
-                for meas in meas_list:
-                    if not isinstance(meas, (int, str, tuple)):
-                        report.append(
-                            "Measurements need to be valid pandas column names. Check "
-                            f"{meas} for {factor} in period {period}."
-                        )
-    return report
-
-
-def _check_normalizations(model_dict, factors):
-    report = []
-    for factor in factors:
-        norminfo = model_dict["factors"][factor].get("normalizations", {})
-        for norm_type in ["loadings", "intercepts"]:
-            candidate = norminfo.get(norm_type, [])
-            if not _is_list_of(candidate, dict):
-                report.append(
-                    f"normalizations must be lists of dicts. Check {norm_type} "
-                    f"normalizations for {factor}."
-                )
-            else:
-                report += _check_normalized_variables_are_present(
-                    candidate, model_dict, factor
-                )
-
-                if norm_type == "loadings":
-                    report += _check_loadings_are_not_normalized_to_zero(
-                        candidate, factor
-                    )
-    return report
-
-
-def _check_normalized_variables_are_present(list_of_normdicts, model_dict, factor):
-    report = []
-    measurements = model_dict["factors"][factor]["measurements"]
-    for period, norm_dict in enumerate(list_of_normdicts):
-        present = measurements[period] if period < len(measurements) else []
-        for var in norm_dict:
-            if var not in present:
-                report.append(
-                    "You can only normalize variables that are specified as "
-                    f"measurements. Check {var} for {factor} in period "
-                    f"{period}."
-                )
-
-    return report
-
-
-def _check_loadings_are_not_normalized_to_zero(list_of_normdicts, factor):
-    report = []
-    for period, norm_dict in enumerate(list_of_normdicts):
-        for var, val in norm_dict.items():
-            if val == 0:
-                report.append(
-                    f"loadings cannot be normalized to 0. Check measurement {var} "
-                    f"of {factor} in period {period}."
-                )
-    return report
-
-
-def _is_list_of(candidate, type_):
-    """Check if candidate is a list that only contains elements of type.
-
-    Note that this is always falls if candidate is not a list and always true if
-    it is an empty list.
-
-    Examples:
-    >>> _is_list_of([["a"], ["b"]], list)
-    True
-    >>> _is_list_of([{}], list)
-    False
-    >>> _is_list_of([], dict)
-    True
-
-    """
-    return isinstance(candidate, list) and all(isinstance(i, type_) for i in candidate)
+import numpy as np
+
+
+def check_model(model_dict, labels, dimensions, anchoring):
+    """Check consistency and validity of the model specification.
+
+    labels, dimensions and anchoring information are done before the model checking
+    because processing them will not raise any errors except for easy to understand
+    KeyErrors.
+
+    Other specifications are checked in the model dict before processing to make sure
+    that the assumptions we make during the processing are fulfilled.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
+            n_mixtures. See :ref:`dimensions`.
+
+        labels (dict): Dict of lists with labels for the model quantities like
+            factors, periods, controls, stagemap and stages. See :ref:`labels`
+
+        anchoring (dict): Dictionary with information about anchoring.
+            See :ref:`anchoring`
+
+    Raises:
+        ValueError
+
+    """
+    report = _check_stagemap(
+        labels["stagemap"], labels["stages"], dimensions["n_periods"]
+    )
+    report += _check_anchoring(anchoring, labels["latent_factors"])
+    report += _check_measurements(model_dict, labels["latent_factors"])
+    report += _check_normalizations(model_dict, labels["latent_factors"])
+
+    report = "\n".join(report)
+    if report != "":
+        raise ValueError(f"Invalid model specification:\n{report}")
+
+
+def _check_stagemap(stagemap, stages, n_periods):
+    report = []
+    if len(stagemap) != n_periods - 1:
+        report.append(
+            "The stagemap needs to be of length n_periods - 1. n_periods is "
+            f"{n_periods}, the stagemap has length {len(stagemap)}."
+        )
+
+    if stages != list(range(len(stages))):
+        report.append("Stages need to be integers, start at zero and increase by 1.")
+
+    if np.issubdtype(np.array(stagemap).dtype, np.number):
+        if not np.isin(np.diff(stagemap), (0, 1)).all():
+            report.append(
+                "Consecutive entries in stagemap must be equal or increase by 1."
+            )
+    return report
+
+
+def _check_anchoring(anchoring, factors):
+    report = []
+    if not isinstance(anchoring["anchoring"], bool):
+        report.append("anchoring['anchoring'] must be a bool.")
+    if not isinstance(anchoring["outcomes"], dict):
+        report.append("anchoring['outcomes'] must be a dict")
+    else:
+        variables = list(anchoring["outcomes"].values())
+        for var in variables:
+            if not isinstance(var, (str, int, tuple)):
+                report.append("Outcomes variables have to be valid variable names.")
+        for factor in anchoring["outcomes"]:
+            if factor not in factors:
+                report.append(
+                    "anchoring['outcomes'] must only contain latent factors. Check "
+                    f"{factor}."
+                )
+
+    if not isinstance(anchoring["free_controls"], bool):
+        report.append("anchoring['use_controls'] must be a bool")
+    if not isinstance(anchoring["free_constant"], bool):
+        report.append("anchoring['use_constant'] must be a bool.")
+    if not isinstance(anchoring["free_loadings"], bool):
+        report.append("anchoring['free_loadings'] must be a bool.")
+    return report
+
+
+def _check_measurements(model_dict, factors):
+    report = []
+    for factor in factors:
+        candidate = model_dict["factors"][factor]["measurements"]
+        if not _is_list_of(candidate, list):
+            report.append(
+                f"measurements must lists of lists. Check measurements of {factor}."
+            )
+        else:
+            for period, meas_list in enumerate(candidate):
+                for meas in meas_list:
+                    if not isinstance(meas, (int, str, tuple)):
+                        report.append(
+                            "Measurements need to be valid pandas column names. Check "
+                            f"{meas} for {factor} in period {period}."
+                        )
+    return report
+
+
+def _check_normalizations(model_dict, factors):
+    report = []
+    for factor in factors:
+        norminfo = model_dict["factors"][factor].get("normalizations", {})
+        for norm_type in ["loadings", "intercepts"]:
+            candidate = norminfo.get(norm_type, [])
+            if not _is_list_of(candidate, dict):
+                report.append(
+                    f"normalizations must be lists of dicts. Check {norm_type} "
+                    f"normalizations for {factor}."
+                )
+            else:
+                report += _check_normalized_variables_are_present(
+                    candidate, model_dict, factor
+                )
+
+                if norm_type == "loadings":
+                    report += _check_loadings_are_not_normalized_to_zero(
+                        candidate, factor
+                    )
+    return report
+
+
+def _check_normalized_variables_are_present(list_of_normdicts, model_dict, factor):
+    report = []
+    measurements = model_dict["factors"][factor]["measurements"]
+    for period, norm_dict in enumerate(list_of_normdicts):
+        present = measurements[period] if period < len(measurements) else []
+        for var in norm_dict:
+            if var not in present:
+                report.append(
+                    "You can only normalize variables that are specified as "
+                    f"measurements. Check {var} for {factor} in period "
+                    f"{period}."
+                )
+
+    return report
+
+
+def _check_loadings_are_not_normalized_to_zero(list_of_normdicts, factor):
+    report = []
+    for period, norm_dict in enumerate(list_of_normdicts):
+        for var, val in norm_dict.items():
+            if val == 0:
+                report.append(
+                    f"loadings cannot be normalized to 0. Check measurement {var} "
+                    f"of {factor} in period {period}."
+                )
+    return report
+
+
+def _is_list_of(candidate, type_):
+    """Check if candidate is a list that only contains elements of type.
+
+    Note that this is always falls if candidate is not a list and always true if
+    it is an empty list.
+
+    Examples:
+    >>> _is_list_of([["a"], ["b"]], list)
+    True
+    >>> _is_list_of([{}], list)
+    False
+    >>> _is_list_of([], dict)
+    True
+
+    """
+    return isinstance(candidate, list) and all(isinstance(i, type_) for i in candidate)
diff --git a/skillmodels/kalman_filters.py b/skillmodels/kalman_filters.py
index cb356a5..a509dd0 100644
--- a/skillmodels/kalman_filters.py
+++ b/skillmodels/kalman_filters.py
@@ -1,318 +1,318 @@
-import jax
-import jax.numpy as jnp
-
-
-array_qr_jax = jax.vmap(jax.vmap(jnp.linalg.qr))
-
-
-# ======================================================================================
-# Update Step
-# ======================================================================================
-
-
-def kalman_update(
-    states,
-    upper_chols,
-    loadings,
-    control_params,
-    meas_sd,
-    measurements,
-    controls,
-    log_mixture_weights,
-    debug,
-):
-    """Perform a Kalman update with likelihood evaluation.
-
-    Args:
-        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
-            pre-update states estimates.
-        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
-            n_states) with the transpose of the lower triangular cholesky factor
-            of the pre-update covariance matrix of the state estimates.
-        loadings (jax.numpy.array): 1d array of length n_states with factor loadings.
-        control_params (jax.numpy.array): 1d array of length n_controls.
-        meas_sd (float): Standard deviation of the measurement error.
-        measurements (jax.numpy.array): 1d array of length n_obs with measurements.
-            May contain NaNs if no measurement was observed.
-        controls (jax.numpy.array): Array of shape (n_obs, n_controls) with data on the
-            control variables.
-        log_mixture_weights (jax.numpy.array): Array of shape (n_obs, n_mixtures) with
-            the natural logarithm of the weights of each element of the mixture of
-            normals distribution.
-        debug (bool): If true, the debug_info contains the residuals of the update and
-            their standard deviations. Otherwise, it is an empty dict.
-
-    Returns:
-        states (jax.numpy.array): Same format as states.
-        new_states (jax.numpy.array): Same format as states.
-        new_upper_chols (jax.numpy.array): Same format as upper_chols
-        new_log_mixture_weights: (jax.numpy.array): Same format as log_mixture_weights
-        new_loglikes: (jax.numpy.array): 1d array of length n_obs
-        debug_info (dict): Empty or containing residuals and residual_sds
-
-    """
-    n_obs, n_mixtures, n_states = states.shape
-
-    not_missing = jnp.isfinite(measurements)
-
-    # replace missing measurements and controls by reasonable fill values to avoid NaNs
-    # in the gradient calculation. All values that are influenced by this, are
-    # replaced by other values later. Choosing the average expected
-    # expected measurements without controls as fill value ensures that all numbers
-    # are well defined because the fill values have a reasonable order of magnitude.
-    # See https://github.com/tensorflow/probability/blob/main/discussion/where-nan.pdf
-    # and https://jax.readthedocs.io/en/latest/faq.html
-    # for more details on the issue of NaNs in gradient calculations.
-    _safe_controls = jnp.where(not_missing.reshape(n_obs, 1), controls, 0)
-
-    _safe_expected_measurements = jnp.dot(states, loadings) + jnp.dot(
-        _safe_controls, control_params
-    ).reshape(n_obs, 1)
-
-    _safe_measurements = jnp.where(
-        not_missing, measurements, _safe_expected_measurements.mean(axis=1)
-    )
-
-    _residuals = _safe_measurements.reshape(n_obs, 1) - _safe_expected_measurements
-    _f_stars = jnp.dot(upper_chols, loadings.reshape(n_states, 1))
-
-    _m = jnp.zeros((n_obs, n_mixtures, n_states + 1, n_states + 1))
-    _m = _m.at[..., 0, 0].set(meas_sd)
-    _m = _m.at[..., 1:, :1].set(_f_stars)
-    _m = _m.at[..., 1:, 1:].set(upper_chols)
-
-    _r = array_qr_jax(_m)[1]
-
-    _new_upper_chols = _r[..., 1:, 1:]
-    _root_sigmas = _r[..., 0, 0]
-    _abs_root_sigmas = jnp.abs(_root_sigmas)
-    # it is important not to divide by the absolute value of _root_sigmas in order
-    # to recover the sign of the Kalman gain.
-    _kalman_gains = _r[..., 0, 1:] / _root_sigmas.reshape(n_obs, n_mixtures, 1)
-    _new_states = states + _kalman_gains * _residuals.reshape(n_obs, n_mixtures, 1)
-
-    # calculate log likelihood per individual and update mixture weights
-    _loglikes_per_dist = jax.scipy.stats.norm.logpdf(_residuals, 0, _abs_root_sigmas)
-    if n_mixtures >= 2:
-        _weighted_loglikes_per_dist = _loglikes_per_dist + log_mixture_weights
-        _loglikes = jax.scipy.special.logsumexp(_weighted_loglikes_per_dist, axis=1)
-        _new_log_mixture_weights = _weighted_loglikes_per_dist - _loglikes.reshape(
-            -1, 1
-        )
-
-    else:
-        _loglikes = _loglikes_per_dist.flatten()
-        _new_log_mixture_weights = log_mixture_weights
-
-    # combine pre-update quantities for missing observations with updated quantities
-    new_states = jnp.where(not_missing.reshape(n_obs, 1, 1), _new_states, states)
-    new_upper_chols = jnp.where(
-        not_missing.reshape(n_obs, 1, 1, 1), _new_upper_chols, upper_chols
-    )
-    new_loglikes = jnp.where(not_missing, _loglikes, 0)
-    new_log_mixture_weights = jnp.where(
-        not_missing.reshape(n_obs, 1), _new_log_mixture_weights, log_mixture_weights
-    )
-
-    debug_info = {}
-    if debug:
-        residuals = jnp.where(not_missing.reshape(n_obs, 1), _residuals, jnp.nan)
-        debug_info["residuals"] = residuals
-        residual_sds = jnp.where(
-            not_missing.reshape(n_obs, 1), _abs_root_sigmas, jnp.nan
-        )
-        debug_info["residual_sds"] = residual_sds
-        debug_info["log_mixture_weights"] = new_log_mixture_weights
-
-    return (
-        new_states,
-        new_upper_chols,
-        new_log_mixture_weights,
-        new_loglikes,
-        debug_info,
-    )
-
-
-# ======================================================================================
-# Predict Step
-# ======================================================================================
-
-
-def calculate_sigma_scaling_factor_and_weights(n_states, kappa=2):
-    """Calculate the scaling factor and weights for sigma points according to Julier.
-
-    There are other sigma point algorithms, but many of them possibly have negative
-    weights which makes the unscented predict step more complicated.
-
-    Args:
-        n_states (int): Number of states.
-        kappa (float): Spreading factor of the sigma points.
-
-    Returns:
-        float: Scaling factor
-        jax.numpy.array: Sigma weights of length 2 * n_states + 1
-
-    """
-    scaling_factor = jnp.sqrt(kappa + n_states)
-    n_sigma = 2 * n_states + 1
-    weights = 0.5 * jnp.ones(n_sigma) / (n_states + kappa)
-    weights = weights.at[0].set(kappa / (n_states + kappa))
-    return scaling_factor, weights
-
-
-def kalman_predict(
-    states,
-    upper_chols,
-    sigma_scaling_factor,
-    sigma_weights,
-    transition_info,
-    trans_coeffs,
-    shock_sds,
-    anchoring_scaling_factors,
-    anchoring_constants,
-    observed_factors,
-):
-    """Make a unscented Kalman predict.
-
-    Args:
-        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
-            pre-update states estimates.
-        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
-            n_states) with the transpose of the lower triangular cholesky factor
-            of the pre-update covariance matrix of the state estimates.
-        sigma_scaling_factor (float): A scaling factor that controls the spread of the
-            sigma points. Bigger means that sigma points are further apart. Depends on
-            the sigma_point algorithm chosen.
-        sigma_weights (jax.numpy.array): 1d array of length n_sigma with non-negative
-            sigma weights.
-        transition_info (dict): Dict with the entries "func" (the actual transition
-            function) and "columns" (a dictionary mapping factors that are needed
-            as individual columns to positions in the factor array).
-        trans_coeffs (tuple): Tuple of 1d jax.numpy.arrays with transition parameters.
-        anchoring_scaling_factors (jax.numpy.array): Array of shape (2, n_fac) with
-            the scaling factors for anchoring. The first row corresponds to the input
-            period, the second to the output period (i.e. input period + 1).
-        anchoring_constants (jax.numpy.array): Array of shape (2, n_states) with the
-            constants for anchoring. The first row corresponds to the input
-            period, the second to the output period (i.e. input period + 1).
-        observed_factors (jax.numpy.array): Array of shape (n_obs, n_observed_factors)
-            with data on the observed factors in period t.
-
-    Returns:
-        jax.numpy.array: Predicted states, same shape as states.
-        jax.numpy.array: Predicted upper_chols, same shape as upper_chols.
-
-    """
-    sigma_points = _calculate_sigma_points(
-        states, upper_chols, sigma_scaling_factor, observed_factors
-    )
-    transformed = transform_sigma_points(
-        sigma_points,
-        transition_info,
-        trans_coeffs,
-        anchoring_scaling_factors,
-        anchoring_constants,
-    )
-
-    # do not use sigma_points.shape because sigma_points contain observed factors
-    n_obs, n_mixtures, n_sigma, n_fac = transformed.shape
-
-    predicted_states = jnp.dot(sigma_weights, transformed)
-
-    devs = transformed - predicted_states.reshape(n_obs, n_mixtures, 1, n_fac)
-
-    qr_weights = jnp.sqrt(sigma_weights).reshape(n_sigma, 1)
-    qr_points = jnp.zeros((n_obs, n_mixtures, n_sigma + n_fac, n_fac))
-    qr_points = qr_points.at[:, :, 0:n_sigma].set(devs * qr_weights)
-    qr_points = qr_points.at[:, :, n_sigma:].set(jnp.diag(shock_sds))
-    predicted_covs = array_qr_jax(qr_points)[1][:, :, :n_fac]
-
-    return predicted_states, predicted_covs
-
-
-def _calculate_sigma_points(states, upper_chols, scaling_factor, observed_factors):
-    """Calculate the array of sigma_points for the unscented transform.
-
-    Args:
-        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
-            pre-update states estimates.
-        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
-            n_states) with the transpose of the lower triangular cholesky factor
-            of the pre-update covariance matrix of the state estimates.
-        scaling_factor (float): A scaling factor that controls the spread of the
-            sigma points. Bigger means that sigma points are further apart. Depends on
-            the sigma_point algorithm chosen.
-        observed_factors (jax.numpy.array): Array of shape (n_obs, n_observed_factors)
-            with data on the observed factors in period t.
-
-    Returns:
-        jax.numpy.array: Array of shape n_obs, n_mixtures, n_sigma, n_fac (where n_sigma
-        equals 2 * n_fac + 1) with sigma points.
-
-    """
-    n_obs, n_mixtures, n_fac = states.shape
-    n_sigma = 2 * n_fac + 1
-    n_observed = observed_factors.shape[1]
-
-    scaled_upper_chols = upper_chols * scaling_factor
-    sigma_points = jnp.repeat(states, n_sigma, axis=1).reshape(
-        n_obs, n_mixtures, n_sigma, n_fac
-    )
-    sigma_points = sigma_points.at[:, :, 1 : n_fac + 1].add(scaled_upper_chols)
-    sigma_points = sigma_points.at[:, :, n_fac + 1 :].add(-scaled_upper_chols)
-
-    observed_part = observed_factors.repeat(n_mixtures * n_sigma, axis=0).reshape(
-        n_obs, n_mixtures, n_sigma, n_observed
-    )
-
-    sigma_points = jnp.concatenate([sigma_points, observed_part], axis=-1)
-    return sigma_points
-
-
-def transform_sigma_points(
-    sigma_points,
-    transition_info,
-    trans_coeffs,
-    anchoring_scaling_factors,
-    anchoring_constants,
-):
-    """Anchor sigma points, transform them and unanchor the transformed sigma points.
-
-    Args:
-        sigma_points (jax.numpy.array) of shape n_obs, n_mixtures, n_sigma, n_fac.
-        transition_info (dict): Dict with the entries "func" (the actual transition
-            function) and "columns" (a dictionary mapping factors that are needed
-            as individual columns to positions in the factor array).
-        trans_coeffs (tuple): Tuple of 1d jax.numpy.arrays with transition parameters.
-        anchoring_scaling_factors (jax.numpy.array): Array of shape (2, n_states) with
-            the scaling factors for anchoring. The first row corresponds to the input
-            period, the second to the output period (i.e. input period + 1).
-        anchoring_constants (jax.numpy.array): Array of shape (2, n_states) with the
-            constants for anchoring. The first row corresponds to the input
-            period, the second to the output period (i.e. input period + 1).
-
-    Returns:
-        jax.numpy.array: Array of shape n_obs, n_mixtures, n_sigma, n_fac (where n_sigma
-        equals 2 * n_fac + 1) with transformed sigma points.
-
-    """
-    n_obs, n_mixtures, n_sigma, n_fac = sigma_points.shape
-
-    flat_sigma_points = sigma_points.reshape(-1, n_fac)
-
-    anchored = flat_sigma_points * anchoring_scaling_factors[0] + anchoring_constants[0]
-
-    transition_function = transition_info["func"]
-
-    transformed_anchored = transition_function(trans_coeffs, anchored)
-
-    n_observed = transformed_anchored.shape[-1]
-
-    transformed_unanchored = (
-        transformed_anchored - anchoring_constants[1][:n_observed]
-    ) / anchoring_scaling_factors[1][:n_observed]
-
-    out_shape = (n_obs, n_mixtures, n_sigma, -1)
-    out = transformed_unanchored.reshape(out_shape)
-
-    return out
+import jax
+import jax.numpy as jnp
+
+
+array_qr_jax = jax.vmap(jax.vmap(jnp.linalg.qr))
+
+
+# ======================================================================================
+# Update Step
+# ======================================================================================
+
+
+def kalman_update(
+    states,
+    upper_chols,
+    loadings,
+    control_params,
+    meas_sd,
+    measurements,
+    controls,
+    log_mixture_weights,
+    debug,
+):
+    """Perform a Kalman update with likelihood evaluation.
+
+    Args:
+        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
+            pre-update states estimates.
+        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
+            n_states) with the transpose of the lower triangular cholesky factor
+            of the pre-update covariance matrix of the state estimates.
+        loadings (jax.numpy.array): 1d array of length n_states with factor loadings.
+        control_params (jax.numpy.array): 1d array of length n_controls.
+        meas_sd (float): Standard deviation of the measurement error.
+        measurements (jax.numpy.array): 1d array of length n_obs with measurements.
+            May contain NaNs if no measurement was observed.
+        controls (jax.numpy.array): Array of shape (n_obs, n_controls) with data on the
+            control variables.
+        log_mixture_weights (jax.numpy.array): Array of shape (n_obs, n_mixtures) with
+            the natural logarithm of the weights of each element of the mixture of
+            normals distribution.
+        debug (bool): If true, the debug_info contains the residuals of the update and
+            their standard deviations. Otherwise, it is an empty dict.
+
+    Returns:
+        states (jax.numpy.array): Same format as states.
+        new_states (jax.numpy.array): Same format as states.
+        new_upper_chols (jax.numpy.array): Same format as upper_chols
+        new_log_mixture_weights: (jax.numpy.array): Same format as log_mixture_weights
+        new_loglikes: (jax.numpy.array): 1d array of length n_obs
+        debug_info (dict): Empty or containing residuals and residual_sds
+
+    """
+    n_obs, n_mixtures, n_states = states.shape
+
+    not_missing = jnp.isfinite(measurements)
+
+    # replace missing measurements and controls by reasonable fill values to avoid NaNs
+    # in the gradient calculation. All values that are influenced by this, are
+    # replaced by other values later. Choosing the average expected
+    # expected measurements without controls as fill value ensures that all numbers
+    # are well defined because the fill values have a reasonable order of magnitude.
+    # See https://github.com/tensorflow/probability/blob/main/discussion/where-nan.pdf
+    # and https://jax.readthedocs.io/en/latest/faq.html
+    # for more details on the issue of NaNs in gradient calculations.
+    _safe_controls = jnp.where(not_missing.reshape(n_obs, 1), controls, 0)
+
+    _safe_expected_measurements = jnp.dot(states, loadings) + jnp.dot(
+        _safe_controls, control_params
+    ).reshape(n_obs, 1)
+
+    _safe_measurements = jnp.where(
+        not_missing, measurements, _safe_expected_measurements.mean(axis=1)
+    )
+
+    _residuals = _safe_measurements.reshape(n_obs, 1) - _safe_expected_measurements
+    _f_stars = jnp.dot(upper_chols, loadings.reshape(n_states, 1))
+
+    _m = jnp.zeros((n_obs, n_mixtures, n_states + 1, n_states + 1))
+    _m = _m.at[..., 0, 0].set(meas_sd)
+    _m = _m.at[..., 1:, :1].set(_f_stars)
+    _m = _m.at[..., 1:, 1:].set(upper_chols)
+
+    _r = array_qr_jax(_m)[1]
+
+    _new_upper_chols = _r[..., 1:, 1:]
+    _root_sigmas = _r[..., 0, 0]
+    _abs_root_sigmas = jnp.abs(_root_sigmas)
+    # it is important not to divide by the absolute value of _root_sigmas in order
+    # to recover the sign of the Kalman gain.
+    _kalman_gains = _r[..., 0, 1:] / _root_sigmas.reshape(n_obs, n_mixtures, 1)
+    _new_states = states + _kalman_gains * _residuals.reshape(n_obs, n_mixtures, 1)
+
+    # calculate log likelihood per individual and update mixture weights
+    _loglikes_per_dist = jax.scipy.stats.norm.logpdf(_residuals, 0, _abs_root_sigmas)
+    if n_mixtures >= 2:
+        _weighted_loglikes_per_dist = _loglikes_per_dist + log_mixture_weights
+        _loglikes = jax.scipy.special.logsumexp(_weighted_loglikes_per_dist, axis=1)
+        _new_log_mixture_weights = _weighted_loglikes_per_dist - _loglikes.reshape(
+            -1, 1
+        )
+
+    else:
+        _loglikes = _loglikes_per_dist.flatten()
+        _new_log_mixture_weights = log_mixture_weights
+
+    # combine pre-update quantities for missing observations with updated quantities
+    new_states = jnp.where(not_missing.reshape(n_obs, 1, 1), _new_states, states)
+    new_upper_chols = jnp.where(
+        not_missing.reshape(n_obs, 1, 1, 1), _new_upper_chols, upper_chols
+    )
+    new_loglikes = jnp.where(not_missing, _loglikes, 0)
+    new_log_mixture_weights = jnp.where(
+        not_missing.reshape(n_obs, 1), _new_log_mixture_weights, log_mixture_weights
+    )
+
+    debug_info = {}
+    if debug:
+        residuals = jnp.where(not_missing.reshape(n_obs, 1), _residuals, jnp.nan)
+        debug_info["residuals"] = residuals
+        residual_sds = jnp.where(
+            not_missing.reshape(n_obs, 1), _abs_root_sigmas, jnp.nan
+        )
+        debug_info["residual_sds"] = residual_sds
+        debug_info["log_mixture_weights"] = new_log_mixture_weights
+
+    return (
+        new_states,
+        new_upper_chols,
+        new_log_mixture_weights,
+        new_loglikes,
+        debug_info,
+    )
+
+
+# ======================================================================================
+# Predict Step
+# ======================================================================================
+
+
+def calculate_sigma_scaling_factor_and_weights(n_states, kappa=2):
+    """Calculate the scaling factor and weights for sigma points according to Julier.
+
+    There are other sigma point algorithms, but many of them possibly have negative
+    weights which makes the unscented predict step more complicated.
+
+    Args:
+        n_states (int): Number of states.
+        kappa (float): Spreading factor of the sigma points.
+
+    Returns:
+        float: Scaling factor
+        jax.numpy.array: Sigma weights of length 2 * n_states + 1
+
+    """
+    scaling_factor = jnp.sqrt(kappa + n_states)
+    n_sigma = 2 * n_states + 1
+    weights = 0.5 * jnp.ones(n_sigma) / (n_states + kappa)
+    weights = weights.at[0].set(kappa / (n_states + kappa))
+    return scaling_factor, weights
+
+
+def kalman_predict(
+    states,
+    upper_chols,
+    sigma_scaling_factor,
+    sigma_weights,
+    transition_info,
+    trans_coeffs,
+    shock_sds,
+    anchoring_scaling_factors,
+    anchoring_constants,
+    observed_factors,
+):
+    """Make a unscented Kalman predict.
+
+    Args:
+        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
+            pre-update states estimates.
+        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
+            n_states) with the transpose of the lower triangular cholesky factor
+            of the pre-update covariance matrix of the state estimates.
+        sigma_scaling_factor (float): A scaling factor that controls the spread of the
+            sigma points. Bigger means that sigma points are further apart. Depends on
+            the sigma_point algorithm chosen.
+        sigma_weights (jax.numpy.array): 1d array of length n_sigma with non-negative
+            sigma weights.
+        transition_info (dict): Dict with the entries "func" (the actual transition
+            function) and "columns" (a dictionary mapping factors that are needed
+            as individual columns to positions in the factor array).
+        trans_coeffs (tuple): Tuple of 1d jax.numpy.arrays with transition parameters.
+        anchoring_scaling_factors (jax.numpy.array): Array of shape (2, n_fac) with
+            the scaling factors for anchoring. The first row corresponds to the input
+            period, the second to the output period (i.e. input period + 1).
+        anchoring_constants (jax.numpy.array): Array of shape (2, n_states) with the
+            constants for anchoring. The first row corresponds to the input
+            period, the second to the output period (i.e. input period + 1).
+        observed_factors (jax.numpy.array): Array of shape (n_obs, n_observed_factors)
+            with data on the observed factors in period t.
+
+    Returns:
+        jax.numpy.array: Predicted states, same shape as states.
+        jax.numpy.array: Predicted upper_chols, same shape as upper_chols.
+
+    """
+    sigma_points = _calculate_sigma_points(
+        states, upper_chols, sigma_scaling_factor, observed_factors
+    )
+    transformed = transform_sigma_points(
+        sigma_points,
+        transition_info,
+        trans_coeffs,
+        anchoring_scaling_factors,
+        anchoring_constants,
+    )
+
+    # do not use sigma_points.shape because sigma_points contain observed factors
+    n_obs, n_mixtures, n_sigma, n_fac = transformed.shape
+
+    predicted_states = jnp.dot(sigma_weights, transformed)
+
+    devs = transformed - predicted_states.reshape(n_obs, n_mixtures, 1, n_fac)
+
+    qr_weights = jnp.sqrt(sigma_weights).reshape(n_sigma, 1)
+    qr_points = jnp.zeros((n_obs, n_mixtures, n_sigma + n_fac, n_fac))
+    qr_points = qr_points.at[:, :, 0:n_sigma].set(devs * qr_weights)
+    qr_points = qr_points.at[:, :, n_sigma:].set(jnp.diag(shock_sds))
+    predicted_covs = array_qr_jax(qr_points)[1][:, :, :n_fac]
+
+    return predicted_states, predicted_covs
+
+
+def _calculate_sigma_points(states, upper_chols, scaling_factor, observed_factors):
+    """Calculate the array of sigma_points for the unscented transform.
+
+    Args:
+        states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states) with
+            pre-update states estimates.
+        upper_chols (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states,
+            n_states) with the transpose of the lower triangular cholesky factor
+            of the pre-update covariance matrix of the state estimates.
+        scaling_factor (float): A scaling factor that controls the spread of the
+            sigma points. Bigger means that sigma points are further apart. Depends on
+            the sigma_point algorithm chosen.
+        observed_factors (jax.numpy.array): Array of shape (n_obs, n_observed_factors)
+            with data on the observed factors in period t.
+
+    Returns:
+        jax.numpy.array: Array of shape n_obs, n_mixtures, n_sigma, n_fac (where n_sigma
+        equals 2 * n_fac + 1) with sigma points.
+
+    """
+    n_obs, n_mixtures, n_fac = states.shape
+    n_sigma = 2 * n_fac + 1
+    n_observed = observed_factors.shape[1]
+
+    scaled_upper_chols = upper_chols * scaling_factor
+    sigma_points = jnp.repeat(states, n_sigma, axis=1).reshape(
+        n_obs, n_mixtures, n_sigma, n_fac
+    )
+    sigma_points = sigma_points.at[:, :, 1 : n_fac + 1].add(scaled_upper_chols)
+    sigma_points = sigma_points.at[:, :, n_fac + 1 :].add(-scaled_upper_chols)
+
+    observed_part = observed_factors.repeat(n_mixtures * n_sigma, axis=0).reshape(
+        n_obs, n_mixtures, n_sigma, n_observed
+    )
+
+    sigma_points = jnp.concatenate([sigma_points, observed_part], axis=-1)
+    return sigma_points
+
+
+def transform_sigma_points(
+    sigma_points,
+    transition_info,
+    trans_coeffs,
+    anchoring_scaling_factors,
+    anchoring_constants,
+):
+    """Anchor sigma points, transform them and unanchor the transformed sigma points.
+
+    Args:
+        sigma_points (jax.numpy.array) of shape n_obs, n_mixtures, n_sigma, n_fac.
+        transition_info (dict): Dict with the entries "func" (the actual transition
+            function) and "columns" (a dictionary mapping factors that are needed
+            as individual columns to positions in the factor array).
+        trans_coeffs (tuple): Tuple of 1d jax.numpy.arrays with transition parameters.
+        anchoring_scaling_factors (jax.numpy.array): Array of shape (2, n_states) with
+            the scaling factors for anchoring. The first row corresponds to the input
+            period, the second to the output period (i.e. input period + 1).
+        anchoring_constants (jax.numpy.array): Array of shape (2, n_states) with the
+            constants for anchoring. The first row corresponds to the input
+            period, the second to the output period (i.e. input period + 1).
+
+    Returns:
+        jax.numpy.array: Array of shape n_obs, n_mixtures, n_sigma, n_fac (where n_sigma
+        equals 2 * n_fac + 1) with transformed sigma points.
+
+    """
+    n_obs, n_mixtures, n_sigma, n_fac = sigma_points.shape
+
+    flat_sigma_points = sigma_points.reshape(-1, n_fac)
+
+    anchored = flat_sigma_points * anchoring_scaling_factors[0] + anchoring_constants[0]
+
+    transition_function = transition_info["func"]
+
+    transformed_anchored = transition_function(trans_coeffs, anchored)
+
+    n_observed = transformed_anchored.shape[-1]
+
+    transformed_unanchored = (
+        transformed_anchored - anchoring_constants[1][:n_observed]
+    ) / anchoring_scaling_factors[1][:n_observed]
+
+    out_shape = (n_obs, n_mixtures, n_sigma, -1)
+    out = transformed_unanchored.reshape(out_shape)
+
+    return out
diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 286474f..b5ce70b 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -1,164 +1,164 @@
-import warnings
-
-import jax.numpy as jnp
-import numpy as np
-import pandas as pd
-
-from skillmodels.process_model import get_period_measurements
-
-
-def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
-    """Process the data for estimation.
-
-    Args:
-        df (DataFrame): panel dataset in long format. It has a MultiIndex
-            where the first level indicates the period and the second
-            the individual.
-        labels (dict): Dict of lists with labels for the model quantities like
-            factors, periods, controls, stagemap and stages. See :ref:`labels`
-        update_info (pandas.DataFrame): DataFrame with one row per Kalman update needed
-            in the likelihood function. See :ref:`update_info`.
-        anchoring_info (dict): Information about anchoring. See :ref:`anchoring`
-
-    Returns:
-        meas_data (jax.numpy.array): Array of shape (n_updates, n_obs) with data on
-            observed measurements. NaN if the measurement was not observed.
-        control_data (jax.numpy.array): Array of shape (n_periods, n_obs, n_controls)
-            with observed control variables for the measurement equations.
-        observed_factors (jax.numpy.array): Array of shape (n_periods, n_obs,
-            n_observed_factors) with data on the observed factors.
-
-    """
-    df = pre_process_data(df, labels["periods"])
-    df["constant"] = 1
-    df = _add_copies_of_anchoring_outcome(df, anchoring_info)
-    _check_data(df, update_info, labels, purpose=purpose)
-    n_obs = int(len(df) / len(labels["periods"]))
-    # needs to be done before entire rows are set to NaN due to missing controls
-    observed_data = _generate_observed_factor_array(df, labels, n_obs)
-    df = _handle_controls_with_missings(df, labels["controls"], update_info)
-    if purpose == "estimation":
-        meas_data = _generate_measurements_array(df, update_info, n_obs)
-    control_data = _generate_controls_array(df, labels, n_obs)
-
-    if purpose == "estimation":
-        out = (meas_data, control_data, observed_data)
-    else:
-        out = (control_data, observed_data)
-    return out
-
-
-def pre_process_data(df, periods):
-    """Balance panel data in long format, drop unnecessary periods and set index.
-
-    Args:
-        df (DataFrame): panel dataset in long format. It has a MultiIndex
-            where the first level indicates the period and the second
-            the individual.
-
-    Returns:
-        balanced (DataFrame): balanced panel. It has a MultiIndex. The first
-            enumerates individuals. The second level counts periods, starting at 0.
-
-    """
-    df = df.copy(deep=True).sort_index()
-    df["__old_id__"] = df.index.get_level_values(0)
-    df["__old_period__"] = df.index.get_level_values(1)
-
-    # replace existing codes for periods and
-    df.index = pd.MultiIndex.from_arrays(
-        [
-            pd.factorize(df.index.get_level_values(level), sort=True)[0]
-            for level in [0, 1]
-        ],
-        names=["id", "period"],
-    )
-
-    # create new index
-    ids = sorted(df.index.get_level_values("id").unique())
-    new_index = pd.MultiIndex.from_product([ids, periods], names=["id", "period"])
-
-    # set new index
-    df = df.reindex(new_index)
-
-    return df
-
-
-def _add_copies_of_anchoring_outcome(df, anchoring_info):
-    df = df.copy()
-    for factor in anchoring_info["factors"]:
-        outcome = anchoring_info["outcomes"][factor]
-        df[f"{outcome}_{factor}"] = df[outcome]
-    return df
-
-
-def _check_data(df, update_info, labels, purpose):
-    var_report = pd.DataFrame(index=update_info.index[:0], columns=["problem"])
-    for period in labels["periods"]:
-        period_data = df.query(f"period == {period}")
-        for cont in labels["controls"]:
-            if cont not in period_data.columns or period_data[cont].isnull().all():
-                var_report.loc[(period, cont), "problem"] = "Variable is missing"
-
-        if purpose == "estimation":
-            for meas in get_period_measurements(update_info, period):
-                if meas not in period_data.columns:
-                    var_report.loc[(period, meas), "problem"] = "Variable is missing"
-                elif len(period_data[meas].dropna().unique()) == 1:
-                    var_report.loc[
-                        (period, meas), "problem"
-                    ] = "Variable has no variance"
-
-        for factor in labels["observed_factors"]:
-            if factor not in period_data.columns:
-                var_report.loc[(period, factor), "problem"] = "Variable is missing"
-            elif period_data[factor].isnull().any():
-                var_report.loc[(period, factor), "problem"] = "Variable has missings"
-
-    var_report = var_report.to_string() if len(var_report) > 0 else ""
-
-    if var_report:
-        raise ValueError(var_report)
-
-
-def _handle_controls_with_missings(df, controls, update_info):
-    df = df.copy(deep=True)
-    periods = update_info.index.get_level_values(0).unique().tolist()
-    problematic_index = df.index[:0]
-    for period in periods:
-        period_data = df.query(f"period == {period}")
-        control_data = period_data[controls]
-        meas_data = period_data[get_period_measurements(update_info, period)]
-        problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)
-        problematic_index = problematic_index.union(period_data[problem].index)
-
-    if len(problematic_index) > 0:
-        old_names = df.loc[problematic_index][["__old_id__", "__old_period__"]]
-        msg = "Set measurements to NaN because there are NaNs in the controls for:\n{}"
-        msg = msg.format(list(map(tuple, old_names.to_numpy().tolist())))
-        warnings.warn(msg)
-        df.loc[problematic_index] = np.nan
-    return df
-
-
-def _generate_measurements_array(df, update_info, n_obs):
-    arr = np.zeros((len(update_info), n_obs))
-    for k, (period, var) in enumerate(update_info.index):
-        arr[k] = df.query(f"period == {period}")[var].to_numpy()
-    return jnp.array(arr)
-
-
-def _generate_controls_array(df, labels, n_obs):
-    arr = np.zeros((len(labels["periods"]), n_obs, len(labels["controls"])))
-    for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[labels["controls"]].to_numpy()
-    return jnp.array(arr)
-
-
-def _generate_observed_factor_array(df, labels, n_obs):
-    arr = np.zeros((len(labels["periods"]), n_obs, len(labels["observed_factors"])))
-    for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[
-            labels["observed_factors"]
-        ].to_numpy()
-    return jnp.array(arr)
+import warnings
+
+import jax.numpy as jnp
+import numpy as np
+import pandas as pd
+
+from skillmodels.process_model import get_period_measurements
+
+
+def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
+    """Process the data for estimation.
+
+    Args:
+        df (DataFrame): panel dataset in long format. It has a MultiIndex
+            where the first level indicates the period and the second
+            the individual.
+        labels (dict): Dict of lists with labels for the model quantities like
+            factors, periods, controls, stagemap and stages. See :ref:`labels`
+        update_info (pandas.DataFrame): DataFrame with one row per Kalman update needed
+            in the likelihood function. See :ref:`update_info`.
+        anchoring_info (dict): Information about anchoring. See :ref:`anchoring`
+
+    Returns:
+        meas_data (jax.numpy.array): Array of shape (n_updates, n_obs) with data on
+            observed measurements. NaN if the measurement was not observed.
+        control_data (jax.numpy.array): Array of shape (n_periods, n_obs, n_controls)
+            with observed control variables for the measurement equations.
+        observed_factors (jax.numpy.array): Array of shape (n_periods, n_obs,
+            n_observed_factors) with data on the observed factors.
+
+    """
+    df = pre_process_data(df, labels["periods"])
+    df["constant"] = 1
+    df = _add_copies_of_anchoring_outcome(df, anchoring_info)
+    _check_data(df, update_info, labels, purpose=purpose)
+    n_obs = int(len(df) / len(labels["periods"]))
+    # needs to be done before entire rows are set to NaN due to missing controls
+    observed_data = _generate_observed_factor_array(df, labels, n_obs)
+    df = _handle_controls_with_missings(df, labels["controls"], update_info)
+    if purpose == "estimation":
+        meas_data = _generate_measurements_array(df, update_info, n_obs)
+    control_data = _generate_controls_array(df, labels, n_obs)
+
+    if purpose == "estimation":
+        out = (meas_data, control_data, observed_data)
+    else:
+        out = (control_data, observed_data)
+    return out
+
+
+def pre_process_data(df, periods):
+    """Balance panel data in long format, drop unnecessary periods and set index.
+
+    Args:
+        df (DataFrame): panel dataset in long format. It has a MultiIndex
+            where the first level indicates the period and the second
+            the individual.
+
+    Returns:
+        balanced (DataFrame): balanced panel. It has a MultiIndex. The first
+            enumerates individuals. The second level counts periods, starting at 0.
+
+    """
+    df = df.copy(deep=True).sort_index()
+    df["__old_id__"] = df.index.get_level_values(0)
+    df["__old_period__"] = df.index.get_level_values(1)
+
+    # replace existing codes for periods and
+    df.index = pd.MultiIndex.from_arrays(
+        [
+            pd.factorize(df.index.get_level_values(level), sort=True)[0]
+            for level in [0, 1]
+        ],
+        names=["id", "period"],
+    )
+
+    # create new index
+    ids = sorted(df.index.get_level_values("id").unique())
+    new_index = pd.MultiIndex.from_product([ids, periods], names=["id", "period"])
+
+    # set new index
+    df = df.reindex(new_index)
+
+    return df
+
+
+def _add_copies_of_anchoring_outcome(df, anchoring_info):
+    df = df.copy()
+    for factor in anchoring_info["factors"]:
+        outcome = anchoring_info["outcomes"][factor]
+        df[f"{outcome}_{factor}"] = df[outcome]
+    return df
+
+
+def _check_data(df, update_info, labels, purpose):
+    var_report = pd.DataFrame(index=update_info.index[:0], columns=["problem"])
+    for period in labels["periods"]:
+        period_data = df.query(f"period == {period}")
+        for cont in labels["controls"]:
+            if cont not in period_data.columns or period_data[cont].isnull().all():
+                var_report.loc[(period, cont), "problem"] = "Variable is missing"
+
+        if purpose == "estimation":
+            for meas in get_period_measurements(update_info, period):
+                if meas not in period_data.columns:
+                    var_report.loc[(period, meas), "problem"] = "Variable is missing"
+                elif len(period_data[meas].dropna().unique()) == 1:
+                    var_report.loc[
+                        (period, meas), "problem"
+                    ] = "Variable has no variance"
+
+        for factor in labels["observed_factors"]:
+            if factor not in period_data.columns:
+                var_report.loc[(period, factor), "problem"] = "Variable is missing"
+            elif period_data[factor].isnull().any():
+                var_report.loc[(period, factor), "problem"] = "Variable has missings"
+
+    var_report = var_report.to_string() if len(var_report) > 0 else ""
+
+    if var_report:
+        raise ValueError(var_report)
+
+
+def _handle_controls_with_missings(df, controls, update_info):
+    df = df.copy(deep=True)
+    periods = update_info.index.get_level_values(0).unique().tolist()
+    problematic_index = df.index[:0]
+    for period in periods:
+        period_data = df.query(f"period == {period}")
+        control_data = period_data[controls]
+        meas_data = period_data[get_period_measurements(update_info, period)]
+        problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)
+        problematic_index = problematic_index.union(period_data[problem].index)
+
+    if len(problematic_index) > 0:
+        old_names = df.loc[problematic_index][["__old_id__", "__old_period__"]]
+        msg = "Set measurements to NaN because there are NaNs in the controls for:\n{}"
+        msg = msg.format(list(map(tuple, old_names.to_numpy().tolist())))
+        warnings.warn(msg)
+        df.loc[problematic_index] = np.nan
+    return df
+
+
+def _generate_measurements_array(df, update_info, n_obs):
+    arr = np.zeros((len(update_info), n_obs))
+    for k, (period, var) in enumerate(update_info.index):
+        arr[k] = df.query(f"period == {period}")[var].to_numpy()
+    return jnp.array(arr)
+
+
+def _generate_controls_array(df, labels, n_obs):
+    arr = np.zeros((len(labels["periods"]), n_obs, len(labels["controls"])))
+    for period in labels["periods"]:
+        arr[period] = df.query(f"period == {period}")[labels["controls"]].to_numpy()
+    return jnp.array(arr)
+
+
+def _generate_observed_factor_array(df, labels, n_obs):
+    arr = np.zeros((len(labels["periods"]), n_obs, len(labels["observed_factors"])))
+    for period in labels["periods"]:
+        arr[period] = df.query(f"period == {period}")[
+            labels["observed_factors"]
+        ].to_numpy()
+    return jnp.array(arr)
diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index 14e9168..aa2a47a 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -1,185 +1,185 @@
-import numpy as np
-import pandas as pd
-
-
-def process_debug_data(debug_data, model):
-    """Process the raw debug data into pandas objects that make visualization easy.
-
-    Args:
-        debug_data (dict): Dictionary containing the following entries (
-        and potentially others which are not modified):
-        - filtered_states (jax.numpy.array): Array of shape (n_updates, n_obs,
-            n_mixtures, n_states) containing the filtered states after each Kalman
-            update.
-        - initial_states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states)
-            with the state estimates before the first Kalman update.
-        - residuals (jax.numpy.array): Array of shape (n_updates, n_obs, n_mixtures)
-            containing the residuals of a Kalman update.
-        - residual_sds (jax.numpy.ndarray): Array of shape (n_updates, n_obs,
-            n_mixtures) containing the theoretical standard deviation of the residuals.
-        - all_contributions (jax.numpy.array): Array of shape (n_updates, n_obs) with
-            the likelihood contributions per update and individual.
-        - log_mixture_weights (jax.numpy.array): Array of shape (n_updates, n_obs,
-            n_mixtures) containing the log mixture weights after each update.
-        - initial_log_mixture_weights (jax.numpy.array): Array of shape (n_obs,
-            n_mixtures) containing the log mixture weights before the first
-            kalman update.
-
-        model (dict): Processed model dictionary.
-
-    Returns:
-        dict: Dictionary with processed debug data. It has the following entries:
-
-        - post_update_states (pd.DataFrame). As pre_update_states but "period" and
-            "measurement" identify the last measurement that was incorporated.
-        - filtered_states (pd.DataFrame). Tidy DataFrame with filtered states
-            after the last update of each period. The columns are the factor names,
-            "period" and "id". The filtered states are already aggregated over
-            mixture distributions.
-        - state_ranges (dict): The keys are the names of the latent factors.
-            The values are DataFrames with the columns "period", "minimum", "maximum".
-            Note that this aggregates over mixture distributions.
-        - residuals (pd.DataFrame): Tidy DataFrame with residuals of each Kalman update.
-            Columns are "residual", "mixture", "period", "measurement" and "id".
-            "period" and "measurement" identify the Kalman update to which the residual
-            belongs.
-        - residual_sds (pd.DataFrame): As residuals but containing the theoretical
-            standard deviation of the corresponding residual.
-        - all_contributions (pd.DataFrame): Tidy DataFrame with log likelihood
-            contribution per individual and Kalman Update. The columns are
-            "contribution", "period", "measurement" and "id". "period" and "measurement"
-            identify the Kalman Update to which the likelihood contribution corresponds.
-
-    """
-    update_info = model["update_info"]
-    factors = model["labels"]["latent_factors"]
-
-    post_update_states = _create_post_update_states(
-        debug_data["filtered_states"], factors, update_info
-    )
-
-    filtered_states = _create_filtered_states(
-        filtered_states=debug_data["filtered_states"],
-        log_mixture_weights=debug_data["log_mixture_weights"],
-        update_info=update_info,
-        factors=factors,
-    )
-
-    state_ranges = create_state_ranges(filtered_states, factors)
-
-    residuals = _process_residuals(debug_data["residuals"], update_info)
-    residual_sds = _process_residual_sds(debug_data["residual_sds"], update_info)
-
-    all_contributions = _process_all_contributions(
-        debug_data["all_contributions"], update_info
-    )
-
-    res = {
-        "post_update_states": post_update_states,
-        "filtered_states": filtered_states,
-        "state_ranges": state_ranges,
-        "residuals": residuals,
-        "residual_sds": residual_sds,
-        "all_contributions": all_contributions,
-    }
-
-    for key in ["value", "contributions"]:
-        if key in debug_data:
-            res[key] = debug_data[key]
-
-    return res
-
-
-def _create_post_update_states(filtered_states, factors, update_info):
-    to_concat = []
-    for (period, meas), data in zip(update_info.index, filtered_states):
-        df = _convert_state_array_to_df(data, factors)
-        df["period"] = period
-        df["id"] = np.arange(data.shape[0]).repeat(data.shape[1])
-        df["measurement"] = meas
-        to_concat.append(df)
-
-    post_states = pd.concat(to_concat)
-
-    return post_states
-
-
-def _convert_state_array_to_df(arr, factor_names):
-    """Convert a 3d state array into a 2d DataFrame.
-
-    Args:
-        arr (np.ndarray): Array of shape (n_obs, n_mixtures, n_states)
-        factor_names (list): Names of the latent factors.
-    """
-    n_obs, n_mixtures, n_states = arr.shape
-    df = pd.DataFrame(data=arr.reshape(-1, n_states), columns=factor_names)
-    df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
-    return df
-
-
-def _create_filtered_states(filtered_states, log_mixture_weights, update_info, factors):
-
-    filtered_states = np.array(filtered_states)
-    log_mixture_weights = np.array(log_mixture_weights)
-    weights = np.exp(log_mixture_weights)
-
-    agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
-
-    keep = []
-    for i, (period, measurement) in enumerate(update_info.index):
-        last_measurement = update_info.query(
-            f"purpose == 'measurement' & period == {period}"
-        ).index[-1][1]
-
-        if measurement == last_measurement:
-            keep.append(i)
-
-    to_concat = []
-    for period, i in enumerate(keep):
-        df = pd.DataFrame(data=agg_states[i], columns=factors)
-        df["period"] = period
-        df["id"] = np.arange(len(df))
-        to_concat.append(df)
-
-    filtered_states = pd.concat(to_concat)
-
-    return filtered_states
-
-
-def create_state_ranges(filtered_states, factors):
-    ranges = {}
-    minima = filtered_states.groupby("period").min()
-    maxima = filtered_states.groupby("period").max()
-    for factor in factors:
-        df = pd.concat([minima[factor], maxima[factor]], axis=1)
-        df.columns = ["minimum", "maximum"]
-        ranges[factor] = df
-    return ranges
-
-
-def _process_residuals(residuals, update_info):
-    to_concat = []
-    n_obs, n_mixtures = residuals[0].shape
-    for (period, meas), data in zip(update_info.index, residuals):
-        df = pd.DataFrame(data.reshape(-1, 1), columns=["residual"])
-        df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
-        df["period"] = period
-        df["id"] = np.arange(n_obs).repeat(n_mixtures)
-        df["measurement"] = meas
-        to_concat.append(df)
-    return pd.concat(to_concat)
-
-
-def _process_residual_sds(residual_sds, update_info):
-    return _process_residuals(residual_sds, update_info)
-
-
-def _process_all_contributions(all_contributions, update_info):
-    to_concat = []
-    for (period, meas), contribs in zip(update_info.index, all_contributions):
-        df = pd.DataFrame(data=contribs.reshape(-1, 1), columns=["contribution"])
-        df["measurement"] = meas
-        df["period"] = period
-        df["id"] = np.arange(len(df))
-        to_concat.append(df)
-    return pd.concat(to_concat)
+import numpy as np
+import pandas as pd
+
+
+def process_debug_data(debug_data, model):
+    """Process the raw debug data into pandas objects that make visualization easy.
+
+    Args:
+        debug_data (dict): Dictionary containing the following entries (
+        and potentially others which are not modified):
+        - filtered_states (jax.numpy.array): Array of shape (n_updates, n_obs,
+            n_mixtures, n_states) containing the filtered states after each Kalman
+            update.
+        - initial_states (jax.numpy.array): Array of shape (n_obs, n_mixtures, n_states)
+            with the state estimates before the first Kalman update.
+        - residuals (jax.numpy.array): Array of shape (n_updates, n_obs, n_mixtures)
+            containing the residuals of a Kalman update.
+        - residual_sds (jax.numpy.ndarray): Array of shape (n_updates, n_obs,
+            n_mixtures) containing the theoretical standard deviation of the residuals.
+        - all_contributions (jax.numpy.array): Array of shape (n_updates, n_obs) with
+            the likelihood contributions per update and individual.
+        - log_mixture_weights (jax.numpy.array): Array of shape (n_updates, n_obs,
+            n_mixtures) containing the log mixture weights after each update.
+        - initial_log_mixture_weights (jax.numpy.array): Array of shape (n_obs,
+            n_mixtures) containing the log mixture weights before the first
+            kalman update.
+
+        model (dict): Processed model dictionary.
+
+    Returns:
+        dict: Dictionary with processed debug data. It has the following entries:
+
+        - post_update_states (pd.DataFrame). As pre_update_states but "period" and
+            "measurement" identify the last measurement that was incorporated.
+        - filtered_states (pd.DataFrame). Tidy DataFrame with filtered states
+            after the last update of each period. The columns are the factor names,
+            "period" and "id". The filtered states are already aggregated over
+            mixture distributions.
+        - state_ranges (dict): The keys are the names of the latent factors.
+            The values are DataFrames with the columns "period", "minimum", "maximum".
+            Note that this aggregates over mixture distributions.
+        - residuals (pd.DataFrame): Tidy DataFrame with residuals of each Kalman update.
+            Columns are "residual", "mixture", "period", "measurement" and "id".
+            "period" and "measurement" identify the Kalman update to which the residual
+            belongs.
+        - residual_sds (pd.DataFrame): As residuals but containing the theoretical
+            standard deviation of the corresponding residual.
+        - all_contributions (pd.DataFrame): Tidy DataFrame with log likelihood
+            contribution per individual and Kalman Update. The columns are
+            "contribution", "period", "measurement" and "id". "period" and "measurement"
+            identify the Kalman Update to which the likelihood contribution corresponds.
+
+    """
+    update_info = model["update_info"]
+    factors = model["labels"]["latent_factors"]
+
+    post_update_states = _create_post_update_states(
+        debug_data["filtered_states"], factors, update_info
+    )
+
+    filtered_states = _create_filtered_states(
+        filtered_states=debug_data["filtered_states"],
+        log_mixture_weights=debug_data["log_mixture_weights"],
+        update_info=update_info,
+        factors=factors,
+    )
+
+    state_ranges = create_state_ranges(filtered_states, factors)
+
+    residuals = _process_residuals(debug_data["residuals"], update_info)
+    residual_sds = _process_residual_sds(debug_data["residual_sds"], update_info)
+
+    all_contributions = _process_all_contributions(
+        debug_data["all_contributions"], update_info
+    )
+
+    res = {
+        "post_update_states": post_update_states,
+        "filtered_states": filtered_states,
+        "state_ranges": state_ranges,
+        "residuals": residuals,
+        "residual_sds": residual_sds,
+        "all_contributions": all_contributions,
+    }
+
+    for key in ["value", "contributions"]:
+        if key in debug_data:
+            res[key] = debug_data[key]
+
+    return res
+
+
+def _create_post_update_states(filtered_states, factors, update_info):
+    to_concat = []
+    for (period, meas), data in zip(update_info.index, filtered_states):
+        df = _convert_state_array_to_df(data, factors)
+        df["period"] = period
+        df["id"] = np.arange(data.shape[0]).repeat(data.shape[1])
+        df["measurement"] = meas
+        to_concat.append(df)
+
+    post_states = pd.concat(to_concat)
+
+    return post_states
+
+
+def _convert_state_array_to_df(arr, factor_names):
+    """Convert a 3d state array into a 2d DataFrame.
+
+    Args:
+        arr (np.ndarray): Array of shape (n_obs, n_mixtures, n_states)
+        factor_names (list): Names of the latent factors.
+    """
+    n_obs, n_mixtures, n_states = arr.shape
+    df = pd.DataFrame(data=arr.reshape(-1, n_states), columns=factor_names)
+    df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
+    return df
+
+
+def _create_filtered_states(filtered_states, log_mixture_weights, update_info, factors):
+
+    filtered_states = np.array(filtered_states)
+    log_mixture_weights = np.array(log_mixture_weights)
+    weights = np.exp(log_mixture_weights)
+
+    agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
+
+    keep = []
+    for i, (period, measurement) in enumerate(update_info.index):
+        last_measurement = update_info.query(
+            f"purpose == 'measurement' & period == {period}"
+        ).index[-1][1]
+
+        if measurement == last_measurement:
+            keep.append(i)
+
+    to_concat = []
+    for period, i in enumerate(keep):
+        df = pd.DataFrame(data=agg_states[i], columns=factors)
+        df["period"] = period
+        df["id"] = np.arange(len(df))
+        to_concat.append(df)
+
+    filtered_states = pd.concat(to_concat)
+
+    return filtered_states
+
+
+def create_state_ranges(filtered_states, factors):
+    ranges = {}
+    minima = filtered_states.groupby("period").min()
+    maxima = filtered_states.groupby("period").max()
+    for factor in factors:
+        df = pd.concat([minima[factor], maxima[factor]], axis=1)
+        df.columns = ["minimum", "maximum"]
+        ranges[factor] = df
+    return ranges
+
+
+def _process_residuals(residuals, update_info):
+    to_concat = []
+    n_obs, n_mixtures = residuals[0].shape
+    for (period, meas), data in zip(update_info.index, residuals):
+        df = pd.DataFrame(data.reshape(-1, 1), columns=["residual"])
+        df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
+        df["period"] = period
+        df["id"] = np.arange(n_obs).repeat(n_mixtures)
+        df["measurement"] = meas
+        to_concat.append(df)
+    return pd.concat(to_concat)
+
+
+def _process_residual_sds(residual_sds, update_info):
+    return _process_residuals(residual_sds, update_info)
+
+
+def _process_all_contributions(all_contributions, update_info):
+    to_concat = []
+    for (period, meas), contribs in zip(update_info.index, all_contributions):
+        df = pd.DataFrame(data=contribs.reshape(-1, 1), columns=["contribution"])
+        df["measurement"] = meas
+        df["period"] = period
+        df["id"] = np.arange(len(df))
+        to_concat.append(df)
+    return pd.concat(to_concat)
diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index a86fb63..7aaf09c 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -1,330 +1,330 @@
-from functools import partial
-
-import numpy as np
-import pandas as pd
-from dags import concatenate_functions
-from dags.signature import rename_arguments
-from jax import vmap
-from pandas import DataFrame
-
-import skillmodels.transition_functions as tf
-from skillmodels.check_model import check_model
-from skillmodels.decorators import extract_params
-from skillmodels.decorators import jax_array_output
-
-
-def process_model(model_dict):
-    """Check, clean, extend and transform the model specs.
-
-    Check the completeness, consistency and validity of the model specifications.
-
-    Set default values and extend the model specification where necessary.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-
-    Returns:
-        dict: nested dictionary of model specs. It has the following entries:
-        - dimensions (dict): Dimensional information like n_states, n_periods,
-        n_controls, n_mixtures. See :ref:`dimensions`.
-        - labels (dict): Dict of lists with labels for the model quantities like
-        factors, periods, controls, stagemap and stages. See :ref:`labels`
-        - anchoring (dict): Information about anchoring. See :ref:`anchoring`
-        - transition_info (dict): Everything related to transition functions.
-        - update_info (pandas.DataFrame): DataFrame with one row per Kalman update
-        needed in the likelihood function. See :ref:`update_info`.
-        - normalizations (dict): Nested dictionary with information on normalized factor
-        loadings and intercepts for each factor. See :ref:`normalizations`.
-
-    """
-    dims = get_dimensions(model_dict)
-    labels = _get_labels(model_dict, dims)
-    anchoring = _process_anchoring(model_dict)
-    check_model(model_dict, labels, dims, anchoring)
-    transition_info = _get_transition_info(model_dict, labels)
-    labels["transition_names"] = list(transition_info["function_names"].values())
-
-    processed = {
-        "dimensions": dims,
-        "labels": labels,
-        "anchoring": anchoring,
-        "estimation_options": _process_estimation_options(model_dict),
-        "transition_info": transition_info,
-        "update_info": _get_update_info(model_dict, dims, labels, anchoring),
-        "normalizations": _process_normalizations(model_dict, dims, labels),
-    }
-    return processed
-
-
-def get_dimensions(model_dict):
-    """Extract the dimensions of the model.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-
-    Returns:
-        dict: Dimensional information like n_states, n_periods, n_controls,
-            n_mixtures. See :ref:`dimensions`.
-
-    """
-    all_n_periods = [len(d["measurements"]) for d in model_dict["factors"].values()]
-
-    dims = {
-        "n_latent_factors": len(model_dict["factors"]),
-        "n_observed_factors": len(model_dict.get("observed_factors", [])),
-        "n_periods": max(all_n_periods),
-        # plus 1 for the constant
-        "n_controls": len(model_dict.get("controls", [])) + 1,
-        "n_mixtures": model_dict.get("estimation_options", {}).get("n_mixtures", 1),
-    }
-    dims["n_all_factors"] = dims["n_latent_factors"] + dims["n_observed_factors"]
-    return dims
-
-
-def _get_labels(model_dict, dimensions):
-    """Extract labels of the model quantities.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
-            n_mixtures. See :ref:`dimensions`.
-
-    Returns:
-        dict: Dict of lists with labels for the model quantities like
-        factors, periods, controls, stagemap and stages. See :ref:`labels`
-
-    """
-    stagemap = model_dict.get("stagemap", list(range(dimensions["n_periods"] - 1)))
-
-    labels = {
-        "latent_factors": list(model_dict["factors"]),
-        "observed_factors": list(model_dict.get("observed_factors", [])),
-        "controls": ["constant"] + list(model_dict.get("controls", [])),
-        "periods": list(range(dimensions["n_periods"])),
-        "stagemap": stagemap,
-        "stages": sorted(np.unique(stagemap)),
-    }
-
-    labels["all_factors"] = labels["latent_factors"] + labels["observed_factors"]
-
-    return labels
-
-
-def _process_estimation_options(model_dict):
-    """Process options.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-
-    Returns:
-        dict: Tuning parameters for the estimation. See :ref:`options`.
-
-    """
-    default_options = {
-        "sigma_points_scale": 2,
-        "robust_bounds": True,
-        "bounds_distance": 1e-3,
-        "clipping_lower_bound": -1e250,
-        "clipping_upper_bound": None,
-        "clipping_lower_hardness": 1,
-        "clipping_upper_hardness": 1,
-    }
-    default_options.update(model_dict.get("estimation_options", {}))
-
-    if not default_options["robust_bounds"]:
-        default_options["bounds_distance"] = 0
-
-    return default_options
-
-
-def _process_anchoring(model_dict):
-    """Process the specification that governs how latent factors are anchored.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-
-    Returns:
-        dict: Dictionary with information about anchoring. See :ref:`anchoring`
-
-    """
-    anchinfo = {
-        "anchoring": False,
-        "outcomes": {},
-        "factors": [],
-        "free_controls": False,
-        "free_constant": False,
-        "free_loadings": False,
-        "ignore_constant_when_anchoring": False,
-    }
-
-    if "anchoring" in model_dict:
-        anchinfo.update(model_dict["anchoring"])
-        anchinfo["anchoring"] = True
-        # use the order of the latent factors because the anchoring updates have to be
-        # in the same order as the columns of loadings and scaling factors.
-        anchinfo["factors"] = [
-            fac for fac in model_dict["factors"] if fac in anchinfo["outcomes"]
-        ]
-
-    return anchinfo
-
-
-def _get_transition_info(model_dict, labels):
-    """Collect information about transition functions."""
-
-    func_list, param_names = [], []
-    latent_factors = labels["latent_factors"]
-    all_factors = labels["all_factors"]
-
-    for factor in latent_factors:
-        spec = model_dict["factors"][factor]["transition_function"]
-        if isinstance(spec, str):
-            func = getattr(tf, spec)
-            if spec == "constant":
-                func = rename_arguments(func, mapper={"state": factor})
-            func_list.append(extract_params(func, key=factor))
-            param_names.append(getattr(tf, f"params_{spec}")(all_factors))
-        elif callable(spec):
-            if not hasattr(spec, "__name__"):
-                raise AttributeError(
-                    "Custom transition functions must have a __name__ attribute."
-                )
-            if hasattr(spec, "__registered_params__"):
-                names = spec.__registered_params__
-                param_names.append(names)
-            else:
-                raise AttributeError(
-                    "Custom transition_functions must have a __registered_params__ "
-                    "attribute. You can set it via the register_params decorator."
-                )
-            func_list.append(extract_params(spec, key=factor, names=names))
-
-    function_names = [f.__name__ for f in func_list]
-
-    functions = {
-        f"__next_{fac}__": func for fac, func in zip(latent_factors, func_list)
-    }
-
-    # add functions to produce the individual factors out of the 1d states vector.
-    # The dag will automatically sort out what we don't need.
-    def _extract_factor(states, pos):
-        return states[pos]
-
-    for i, factor in enumerate(labels["all_factors"]):
-        functions[factor] = partial(_extract_factor, pos=i)
-
-    transition_function = concatenate_functions(
-        functions=functions, targets=[f"__next_{fac}__" for fac in latent_factors]
-    )
-
-    transition_function = jax_array_output(transition_function)
-
-    transition_function = vmap(transition_function, in_axes=(None, 0))
-
-    individual_functions = {}
-    for factor in latent_factors:
-        func = concatenate_functions(functions=functions, targets=f"__next_{factor}__")
-        func = vmap(func, in_axes=(None, 0))
-        individual_functions[factor] = func
-
-    out = {
-        "func": transition_function,
-        "param_names": dict(zip(latent_factors, param_names)),
-        "individual_functions": individual_functions,
-        "function_names": dict(zip(latent_factors, function_names)),
-    }
-    return out
-
-
-def _get_update_info(model_dict, dimensions, labels, anchoring_info):
-    """Construct a DataFrame with information on each Kalman update.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
-            n_mixtures. See :ref:`dimensions`.
-        labels (dict): Dict of lists with labels for the model quantities like
-            factors, periods, controls, stagemap and stages. See :ref:`labels`
-        anchoring_info (dict): Information about anchoring. See :ref:`anchoring`
-
-    Returns:
-        pandas.DataFrame: DataFrame with one row per Kalman update needed in
-            the likelihood function. See :ref:`update_info`.
-
-    """
-    index = pd.MultiIndex(levels=[[], []], codes=[[], []], names=["period", "variable"])
-    uinfo = DataFrame(index=index, columns=labels["latent_factors"] + ["purpose"])
-
-    measurements = {}
-    for factor in labels["latent_factors"]:
-        measurements[factor] = fill_list(
-            model_dict["factors"][factor]["measurements"], [], dimensions["n_periods"]
-        )
-
-    for period in labels["periods"]:
-        for factor in labels["latent_factors"]:
-            for meas in measurements[factor][period]:
-                uinfo.loc[(period, meas), factor] = True
-                uinfo.loc[(period, meas), "purpose"] = "measurement"
-        for factor in anchoring_info["factors"]:
-            outcome = anchoring_info["outcomes"][factor]
-            name = f"{outcome}_{factor}"
-            uinfo.loc[(period, name), factor] = True
-            uinfo.loc[(period, name), "purpose"] = "anchoring"
-
-    uinfo.fillna(False, inplace=True)
-    # fillna seems to convert objects to bool, but not consistently
-    for factor in labels["latent_factors"]:
-        uinfo[factor] = uinfo[factor].astype(bool)
-    return uinfo
-
-
-def _process_normalizations(model_dict, dimensions, labels):
-    """Process the normalizations of intercepts and factor loadings.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
-            n_mixtures. See :ref:`dimensions`.
-        labels (dict): Dict of lists with labels for the model quantities like
-            factors, periods, controls, stagemap and stages. See :ref:`labels`
-
-    Returns:
-        normalizations (dict): Nested dictionary with information on normalized factor
-            loadings and intercepts for each factor. See :ref:`normalizations`.
-
-    """
-    normalizations = {}
-    for factor in labels["latent_factors"]:
-        normalizations[factor] = {}
-        norminfo = model_dict["factors"][factor].get("normalizations", {})
-        for norm_type in ["loadings", "intercepts"]:
-            candidate = norminfo.get(norm_type, [])
-            candidate = fill_list(candidate, {}, dimensions["n_periods"])
-            normalizations[factor][norm_type] = candidate
-
-    return normalizations
-
-
-def fill_list(short_list, fill_value, length):
-    """Extend a list to specified length by filling it with the fill_value.
-
-    Examples:
-    >>> fill_list(["a"], "b", 3)
-    ['a', 'b', 'b']
-
-    """
-    res = list(short_list)
-    diff = length - len(short_list)
-    assert diff >= 0, "short_list has to be shorter than length."
-    if diff >= 1:
-        res += [fill_value] * diff
-    return res
-
-
-def get_period_measurements(update_info, period):
-    if period in update_info.index:
-        measurements = list(update_info.loc[period].index)
-    else:
-        measurements = []
-    return measurements
+from functools import partial
+
+import numpy as np
+import pandas as pd
+from dags import concatenate_functions
+from dags.signature import rename_arguments
+from jax import vmap
+from pandas import DataFrame
+
+import skillmodels.transition_functions as tf
+from skillmodels.check_model import check_model
+from skillmodels.decorators import extract_params
+from skillmodels.decorators import jax_array_output
+
+
+def process_model(model_dict):
+    """Check, clean, extend and transform the model specs.
+
+    Check the completeness, consistency and validity of the model specifications.
+
+    Set default values and extend the model specification where necessary.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+
+    Returns:
+        dict: nested dictionary of model specs. It has the following entries:
+        - dimensions (dict): Dimensional information like n_states, n_periods,
+        n_controls, n_mixtures. See :ref:`dimensions`.
+        - labels (dict): Dict of lists with labels for the model quantities like
+        factors, periods, controls, stagemap and stages. See :ref:`labels`
+        - anchoring (dict): Information about anchoring. See :ref:`anchoring`
+        - transition_info (dict): Everything related to transition functions.
+        - update_info (pandas.DataFrame): DataFrame with one row per Kalman update
+        needed in the likelihood function. See :ref:`update_info`.
+        - normalizations (dict): Nested dictionary with information on normalized factor
+        loadings and intercepts for each factor. See :ref:`normalizations`.
+
+    """
+    dims = get_dimensions(model_dict)
+    labels = _get_labels(model_dict, dims)
+    anchoring = _process_anchoring(model_dict)
+    check_model(model_dict, labels, dims, anchoring)
+    transition_info = _get_transition_info(model_dict, labels)
+    labels["transition_names"] = list(transition_info["function_names"].values())
+
+    processed = {
+        "dimensions": dims,
+        "labels": labels,
+        "anchoring": anchoring,
+        "estimation_options": _process_estimation_options(model_dict),
+        "transition_info": transition_info,
+        "update_info": _get_update_info(model_dict, dims, labels, anchoring),
+        "normalizations": _process_normalizations(model_dict, dims, labels),
+    }
+    return processed
+
+
+def get_dimensions(model_dict):
+    """Extract the dimensions of the model.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+
+    Returns:
+        dict: Dimensional information like n_states, n_periods, n_controls,
+            n_mixtures. See :ref:`dimensions`.
+
+    """
+    all_n_periods = [len(d["measurements"]) for d in model_dict["factors"].values()]
+
+    dims = {
+        "n_latent_factors": len(model_dict["factors"]),
+        "n_observed_factors": len(model_dict.get("observed_factors", [])),
+        "n_periods": max(all_n_periods),
+        # plus 1 for the constant
+        "n_controls": len(model_dict.get("controls", [])) + 1,
+        "n_mixtures": model_dict.get("estimation_options", {}).get("n_mixtures", 1),
+    }
+    dims["n_all_factors"] = dims["n_latent_factors"] + dims["n_observed_factors"]
+    return dims
+
+
+def _get_labels(model_dict, dimensions):
+    """Extract labels of the model quantities.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
+            n_mixtures. See :ref:`dimensions`.
+
+    Returns:
+        dict: Dict of lists with labels for the model quantities like
+        factors, periods, controls, stagemap and stages. See :ref:`labels`
+
+    """
+    stagemap = model_dict.get("stagemap", list(range(dimensions["n_periods"] - 1)))
+
+    labels = {
+        "latent_factors": list(model_dict["factors"]),
+        "observed_factors": list(model_dict.get("observed_factors", [])),
+        "controls": ["constant"] + list(model_dict.get("controls", [])),
+        "periods": list(range(dimensions["n_periods"])),
+        "stagemap": stagemap,
+        "stages": sorted(np.unique(stagemap)),
+    }
+
+    labels["all_factors"] = labels["latent_factors"] + labels["observed_factors"]
+
+    return labels
+
+
+def _process_estimation_options(model_dict):
+    """Process options.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+
+    Returns:
+        dict: Tuning parameters for the estimation. See :ref:`options`.
+
+    """
+    default_options = {
+        "sigma_points_scale": 2,
+        "robust_bounds": True,
+        "bounds_distance": 1e-3,
+        "clipping_lower_bound": -1e250,
+        "clipping_upper_bound": None,
+        "clipping_lower_hardness": 1,
+        "clipping_upper_hardness": 1,
+    }
+    default_options.update(model_dict.get("estimation_options", {}))
+
+    if not default_options["robust_bounds"]:
+        default_options["bounds_distance"] = 0
+
+    return default_options
+
+
+def _process_anchoring(model_dict):
+    """Process the specification that governs how latent factors are anchored.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+
+    Returns:
+        dict: Dictionary with information about anchoring. See :ref:`anchoring`
+
+    """
+    anchinfo = {
+        "anchoring": False,
+        "outcomes": {},
+        "factors": [],
+        "free_controls": False,
+        "free_constant": False,
+        "free_loadings": False,
+        "ignore_constant_when_anchoring": False,
+    }
+
+    if "anchoring" in model_dict:
+        anchinfo.update(model_dict["anchoring"])
+        anchinfo["anchoring"] = True
+        # use the order of the latent factors because the anchoring updates have to be
+        # in the same order as the columns of loadings and scaling factors.
+        anchinfo["factors"] = [
+            fac for fac in model_dict["factors"] if fac in anchinfo["outcomes"]
+        ]
+
+    return anchinfo
+
+
+def _get_transition_info(model_dict, labels):
+    """Collect information about transition functions."""
+
+    func_list, param_names = [], []
+    latent_factors = labels["latent_factors"]
+    all_factors = labels["all_factors"]
+
+    for factor in latent_factors:
+        spec = model_dict["factors"][factor]["transition_function"]
+        if isinstance(spec, str):
+            func = getattr(tf, spec)
+            if spec == "constant":
+                func = rename_arguments(func, mapper={"state": factor})
+            func_list.append(extract_params(func, key=factor))
+            param_names.append(getattr(tf, f"params_{spec}")(all_factors))
+        elif callable(spec):
+            if not hasattr(spec, "__name__"):
+                raise AttributeError(
+                    "Custom transition functions must have a __name__ attribute."
+                )
+            if hasattr(spec, "__registered_params__"):
+                names = spec.__registered_params__
+                param_names.append(names)
+            else:
+                raise AttributeError(
+                    "Custom transition_functions must have a __registered_params__ "
+                    "attribute. You can set it via the register_params decorator."
+                )
+            func_list.append(extract_params(spec, key=factor, names=names))
+
+    function_names = [f.__name__ for f in func_list]
+
+    functions = {
+        f"__next_{fac}__": func for fac, func in zip(latent_factors, func_list)
+    }
+
+    # add functions to produce the individual factors out of the 1d states vector.
+    # The dag will automatically sort out what we don't need.
+    def _extract_factor(states, pos):
+        return states[pos]
+
+    for i, factor in enumerate(labels["all_factors"]):
+        functions[factor] = partial(_extract_factor, pos=i)
+
+    transition_function = concatenate_functions(
+        functions=functions, targets=[f"__next_{fac}__" for fac in latent_factors]
+    )
+
+    transition_function = jax_array_output(transition_function)
+
+    transition_function = vmap(transition_function, in_axes=(None, 0))
+
+    individual_functions = {}
+    for factor in latent_factors:
+        func = concatenate_functions(functions=functions, targets=f"__next_{factor}__")
+        func = vmap(func, in_axes=(None, 0))
+        individual_functions[factor] = func
+
+    out = {
+        "func": transition_function,
+        "param_names": dict(zip(latent_factors, param_names)),
+        "individual_functions": individual_functions,
+        "function_names": dict(zip(latent_factors, function_names)),
+    }
+    return out
+
+
+def _get_update_info(model_dict, dimensions, labels, anchoring_info):
+    """Construct a DataFrame with information on each Kalman update.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
+            n_mixtures. See :ref:`dimensions`.
+        labels (dict): Dict of lists with labels for the model quantities like
+            factors, periods, controls, stagemap and stages. See :ref:`labels`
+        anchoring_info (dict): Information about anchoring. See :ref:`anchoring`
+
+    Returns:
+        pandas.DataFrame: DataFrame with one row per Kalman update needed in
+            the likelihood function. See :ref:`update_info`.
+
+    """
+    index = pd.MultiIndex(levels=[[], []], codes=[[], []], names=["period", "variable"])
+    uinfo = DataFrame(index=index, columns=labels["latent_factors"] + ["purpose"])
+
+    measurements = {}
+    for factor in labels["latent_factors"]:
+        measurements[factor] = fill_list(
+            model_dict["factors"][factor]["measurements"], [], dimensions["n_periods"]
+        )
+
+    for period in labels["periods"]:
+        for factor in labels["latent_factors"]:
+            for meas in measurements[factor][period]:
+                uinfo.loc[(period, meas), factor] = True
+                uinfo.loc[(period, meas), "purpose"] = "measurement"
+        for factor in anchoring_info["factors"]:
+            outcome = anchoring_info["outcomes"][factor]
+            name = f"{outcome}_{factor}"
+            uinfo.loc[(period, name), factor] = True
+            uinfo.loc[(period, name), "purpose"] = "anchoring"
+
+    uinfo.fillna(False, inplace=True)
+    # fillna seems to convert objects to bool, but not consistently
+    for factor in labels["latent_factors"]:
+        uinfo[factor] = uinfo[factor].astype(bool)
+    return uinfo
+
+
+def _process_normalizations(model_dict, dimensions, labels):
+    """Process the normalizations of intercepts and factor loadings.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+        dimensions (dict): Dimensional information like n_states, n_periods, n_controls,
+            n_mixtures. See :ref:`dimensions`.
+        labels (dict): Dict of lists with labels for the model quantities like
+            factors, periods, controls, stagemap and stages. See :ref:`labels`
+
+    Returns:
+        normalizations (dict): Nested dictionary with information on normalized factor
+            loadings and intercepts for each factor. See :ref:`normalizations`.
+
+    """
+    normalizations = {}
+    for factor in labels["latent_factors"]:
+        normalizations[factor] = {}
+        norminfo = model_dict["factors"][factor].get("normalizations", {})
+        for norm_type in ["loadings", "intercepts"]:
+            candidate = norminfo.get(norm_type, [])
+            candidate = fill_list(candidate, {}, dimensions["n_periods"])
+            normalizations[factor][norm_type] = candidate
+
+    return normalizations
+
+
+def fill_list(short_list, fill_value, length):
+    """Extend a list to specified length by filling it with the fill_value.
+
+    Examples:
+    >>> fill_list(["a"], "b", 3)
+    ['a', 'b', 'b']
+
+    """
+    res = list(short_list)
+    diff = length - len(short_list)
+    assert diff >= 0, "short_list has to be shorter than length."
+    if diff >= 1:
+        res += [fill_value] * diff
+    return res
+
+
+def get_period_measurements(update_info, period):
+    if period in update_info.index:
+        measurements = list(update_info.loc[period].index)
+    else:
+        measurements = []
+    return measurements
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 5e74b70..829d3e9 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -1,499 +1,499 @@
-import itertools
-from copy import deepcopy
-
-import jax.numpy as jnp
-import numpy as np
-import pandas as pd
-from plotly import express as px
-from plotly import graph_objects as go
-from plotly.subplots import make_subplots
-
-from skillmodels.filtered_states import get_filtered_states
-from skillmodels.params_index import get_params_index
-from skillmodels.parse_params import create_parsing_info
-from skillmodels.parse_params import parse_params
-from skillmodels.process_data import process_data
-from skillmodels.process_debug_data import create_state_ranges
-from skillmodels.process_model import process_model
-from skillmodels.utils_plotting import get_layout_kwargs
-from skillmodels.utils_plotting import get_make_subplot_kwargs
-
-
-def combine_transition_plots(
-    plots_dict,
-    column_order=None,
-    row_order=None,
-    factor_mapping=None,
-    make_subplot_kwargs=None,
-    sharex=False,
-    sharey=True,
-    showlegend=True,
-    layout_kwargs=None,
-    legend_kwargs=None,
-    title_kwargs=None,
-):
-    """Combine individual plots into figure with subplots.
-    Uses dictionary with plotly images as values to build plotly Figure with subplots.
-
-    Args:
-        plots_dict (dict): Dictionary with plots of transition functions for each
-            factor.
-        column_order (list, str or NoneType): List of (output) factor names according
-            to which transition plots should be ordered horizontally. If None, infer
-            from the keys of of plots_dict
-        row_order (list, str or NoneType): List of (input) factor names according
-            to which transition plots should be ordered vertically. If None, infer
-            from the keys of of plots_dict
-        factor_mapping (dict or NoneType): A dictionary with custom factor names to
-            display as axes labels.
-        make_subplot_kwargs (dict or NoneType): Dictionary of keyword arguments used
-            to instantiate plotly Figure with multiple subplots. Is used to define
-            properties such as, for example, the spacing between subplots. If None,
-            default arguments defined in the function are used.
-        sharex (bool): Whether to share the properties of x-axis across subplots.
-            Default False.
-        sharey (bool): Whether to share the properties ofy-axis across subplots.
-            Default True.
-        showlegend (bool): Display legend if True.
-        layout_kwargs (dict or NoneType): Dictionary of key word arguments used to
-            update layout of plotly Figure object. If None, the default kwargs defined
-            in the function will be used.
-        legend_kwargs (dict or NoneType): Dictionary of key word arguments used to
-            update position, orientation and title of figure legend. If None, default
-            position and orientation will be used with no title.
-        title_kwargs (dict or NoneType): Dictionary of key word arguments used to
-            update properties of the figure title. Use {'text': '<desired title>'}
-            to set figure title. If None, infers title based on the value of
-            `quntiles_of_other_factors`.
-
-    Returns:
-        fig (plotly.Figure): Plotly figure with subplots that combines individual
-            transition functions.
-
-    """
-    plots_dict = deepcopy(plots_dict)
-
-    column_order, row_order = _process_orders(column_order, row_order, plots_dict)
-    make_subplot_kwargs = get_make_subplot_kwargs(
-        sharex, sharey, column_order, row_order, make_subplot_kwargs
-    )
-    factor_mapping = _process_factor_mapping_trans(
-        factor_mapping, row_order, column_order
-    )
-    fig = make_subplots(**make_subplot_kwargs)
-    for (output_factor, input_factor), (row, col) in zip(
-        itertools.product(row_order, column_order),
-        itertools.product(np.arange(len(row_order)), np.arange(len(column_order))),
-    ):
-        try:
-            subfig = plots_dict[(input_factor, output_factor)]
-        except KeyError:
-            subfig = go.Figure()
-        if not (row == 0 and col == 0):
-            for d in subfig.data:
-                d.update({"showlegend": False})
-                fig.add_trace(d, col=col + 1, row=row + 1)
-        else:
-            for d in subfig.data:
-                fig.add_trace(
-                    d,
-                    col=col + 1,
-                    row=row + 1,
-                )
-        fig.update_xaxes(
-            title_text=f"{factor_mapping[input_factor]}", row=row + 1, col=col + 1
-        )
-        if col == 0:
-            fig.update_yaxes(
-                title_text=f"{factor_mapping[output_factor]}",
-                row=row + 1,
-                col=col + 1,
-            )
-
-    layout_kwargs = get_layout_kwargs(
-        layout_kwargs, legend_kwargs, title_kwargs, showlegend, column_order, row_order
-    )
-    fig.update_layout(**layout_kwargs)
-    return fig
-
-
-def get_transition_plots(
-    model_dict,
-    params,
-    data,
-    period,
-    state_ranges=None,
-    quantiles_of_other_factors=(0.25, 0.5, 0.75),
-    n_points=50,
-    n_draws=50,
-    colorscale="Magenta_r",
-    layout_kwargs=None,
-):
-    """Get dictionary with individual plots of transition equations for each factor.
-
-    Args:
-        model_dict (dict): The model specification. See: :ref:`model_specs`
-        params (pandas.DataFrame): DataFrame with model parameters.
-        data (pd.DataFrame): Empirical dataset that is used to estimate the model.
-        period (int): The start period of the transition equations that are plotted.
-        state_ranges (dict or NoneType): The keys are the names of the latent factors.
-            The values are DataFrames with the columns "period", "minimum", "maximum".
-            The state_ranges are used to define the axis limits of the plots.
-        quantiles_of_other_factors (float, list or None): Quantiles at which the factors
-            that are not varied in a given plot are fixed. If None, those factors are
-            not fixed but integrated out.
-        n_points (int): Number of grid points per input. Default 50.
-        n_draws (int): Number of randomly drawn values of the factors that are averaged
-            out. Only relevant if quantiles_of_other_factors is *None*. Default 50.
-        colorscale (str): The color scale to use for line legends. Must be a valid
-            plotly.express.colors.sequential attribute. Default 'Magenta_r'.
-        layout_kwargs (dict or NoneType): Dictionary of key word arguments used to
-            update layout of plotly image object. If None, the default kwargs
-            defined in the function will be used.
-
-    Returns:
-        plots_dict (dict): Dictionary with individual plots of transition equations
-            for each combination of input and output factors.
-
-    """
-    quantiles_of_other_factors = _process_quantiles_of_other_factors(
-        quantiles_of_other_factors
-    )
-
-    model = process_model(model_dict)
-
-    if period >= model["labels"]["periods"][-1]:
-        raise ValueError(
-            "*period* must be the penultimate period of the model or earlier."
-        )
-
-    latent_factors = model["labels"]["latent_factors"]
-    all_factors = model["labels"]["all_factors"]
-    states = get_filtered_states(model_dict=model_dict, data=data, params=params)[
-        "anchored_states"
-    ]["states"]
-    plots_dict = _get_dictionary_with_plots(
-        model,
-        data,
-        params,
-        states,
-        state_ranges,
-        latent_factors,
-        all_factors,
-        quantiles_of_other_factors,
-        period,
-        n_points,
-        n_draws,
-        colorscale,
-        layout_kwargs,
-    )
-    return plots_dict
-
-
-def _get_dictionary_with_plots(
-    model,
-    data,
-    params,
-    states,
-    state_ranges,
-    latent_factors,
-    all_factors,
-    quantiles_of_other_factors,
-    period,
-    n_points,
-    n_draws,
-    colorscale,
-    layout_kwargs,
-    showlegend=True,
-):
-    """Get plots of transition functions for each input and output combination.
-    Returns a dictionary with individual plots of transition fanctions for each input
-    and output factors.
-
-    Args:
-        model (dict): The model specification. See: :ref:`model_specs`
-        params (pandas.DataFrame): DataFrame with model parameters.
-        states (pandas.DataFrame): Tidy DataFrame with filtered or simulated states.
-            They are used to estimate the state ranges in each period (if state_ranges
-            are not given explicitly) and to estimate the distribution of the factors
-            that are not visualized.
-        state_ranges (dict): The keys are the names of the latent factors.
-            The values are DataFrames with the columns "period", "minimum", "maximum".
-            The state_ranges are used to define the axis limits of the plots.
-
-        latent_factors (list): Latent factors of the model that are outputs of
-            transition factors.
-        all_factors (list): All factors of the model that are the inuts of transition
-            functions.
-        quantiles_of_other_factors (float, list or None): Quantiles at which the factors
-            that are not varied in a given plot are fixed. If None, those factors are
-            not fixed but integrated out.
-        period (int): The start period of the transition equations that are plotted.
-        n_points (int): Number of grid points per input. Default 50.
-        n_draws (int): Number of randomly drawn values of the factors that are averaged
-            out. Only relevant if quantiles_of_other_factors is *None*. Default 50.
-        colorscale (str): The color scale to use for line legends. Must be a valid
-            plotly.express.colors.sequential attribute. Default 'Magenta_r'.
-        subfig_kwargs (dict or NoneType): Dictionary of key word arguments used to
-            update layout of plotly image object. If None, the default kwargs defined
-            in the function will be used.
-
-    Returns:
-        plots_dict (dict): Dictionary with individual plots of transition functions
-            for each input and output factors.
-
-    """
-    observed_factors = model["labels"]["observed_factors"]
-    states_data = _get_states_data(model, period, data, states, observed_factors)
-    params = _set_index_params(model, params)
-    pardict = _get_pardict(model, params)
-    state_ranges = _get_state_ranges(state_ranges, states_data, all_factors)
-    layout_kwargs = get_layout_kwargs(
-        layout_kwargs=layout_kwargs,
-        legend_kwargs=None,
-        title_kwargs=None,
-        showlegend=showlegend,
-    )
-    plots_dict = {}
-    for output_factor, input_factor in itertools.product(latent_factors, all_factors):
-        transition_function = model["transition_info"]["individual_functions"][
-            output_factor
-        ]
-        transition_params = {
-            output_factor: pardict["transition"][output_factor][period]
-        }
-
-        if quantiles_of_other_factors is not None:
-            plot_data = _prepare_data_for_one_plot_fixed_quantile_2d(
-                states_data=states_data,
-                state_ranges=state_ranges,
-                period=period,
-                input_factor=input_factor,
-                output_factor=output_factor,
-                quantiles_of_other_factors=quantiles_of_other_factors,
-                n_points=n_points,
-                transition_function=transition_function,
-                transition_params=transition_params,
-                all_factors=all_factors,
-            )
-
-        else:
-            plot_data = _prepare_data_for_one_plot_average_2d(
-                states_data=states_data,
-                state_ranges=state_ranges,
-                period=period,
-                input_factor=input_factor,
-                output_factor=output_factor,
-                n_points=n_points,
-                n_draws=n_draws,
-                transition_function=transition_function,
-                transition_params=transition_params,
-                all_factors=all_factors,
-            )
-
-        if (
-            isinstance(quantiles_of_other_factors, list)
-            and len(quantiles_of_other_factors) > 1
-        ):
-            color = "quantile"
-        else:
-            color = None
-        subfig = px.line(
-            plot_data,
-            y=f"output_{output_factor}",
-            x=f"input_{input_factor}",
-            color=color,
-            color_discrete_sequence=getattr(px.colors.sequential, colorscale),
-        )
-        subfig.update_xaxes(title={"text": input_factor})
-        subfig.update_yaxes(title={"text": output_factor})
-        subfig.update_layout(**layout_kwargs)
-        plots_dict[(input_factor, output_factor)] = deepcopy(subfig)
-
-    return plots_dict
-
-
-def _get_state_ranges(state_ranges, states_data, all_factors):
-    """Create state ranges if none is given"""
-    if state_ranges is None:
-        state_ranges = create_state_ranges(states_data, all_factors)
-    return state_ranges
-
-
-def _get_pardict(model, params):
-    """Get parsed params dictionary."""
-    parsing_info = create_parsing_info(
-        params_index=params.index,
-        update_info=model["update_info"],
-        labels=model["labels"],
-        anchoring=model["anchoring"],
-    )
-
-    _, _, _, pardict = parse_params(
-        params=jnp.array(params["value"].to_numpy()),
-        parsing_info=parsing_info,
-        dimensions=model["dimensions"],
-        labels=model["labels"],
-        n_obs=1,
-    )
-    return pardict
-
-
-def _set_index_params(model, params):
-    """Reset index of params data frame to model implied values."""
-    params_index = get_params_index(
-        update_info=model["update_info"],
-        labels=model["labels"],
-        dimensions=model["dimensions"],
-        transition_info=model["transition_info"],
-    )
-
-    params = params.reindex(params_index)
-    return params
-
-
-def _get_states_data(model, period, data, states, observed_factors):
-
-    if observed_factors and data is None:
-        raise ValueError(
-            """The model has observed factors. You must pass the empirical data to
-        'visualize_transition_equations' via the keyword *data*."""
-        )
-
-    if observed_factors:
-        _, _, _observed_arr = process_data(
-            df=data,
-            labels=model["labels"],
-            update_info=model["update_info"],
-            anchoring_info=model["anchoring"],
-        )
-        # convert from jax to numpy
-        _observed_arr = np.array(_observed_arr)
-        observed_data = pd.DataFrame(
-            data=_observed_arr[period], columns=observed_factors
-        )
-        observed_data["id"] = observed_data.index
-        observed_data["period"] = period
-        states_data = pd.merge(
-            left=states,
-            right=observed_data,
-            left_on=["id", "period"],
-            right_on=["id", "period"],
-            how="left",
-        )
-    else:
-        states_data = states.copy(deep=True)
-    return states_data
-
-
-def _prepare_data_for_one_plot_fixed_quantile_2d(
-    states_data,
-    state_ranges,
-    period,
-    input_factor,
-    output_factor,
-    quantiles_of_other_factors,
-    n_points,
-    transition_function,
-    transition_params,
-    all_factors,
-):
-
-    period_data = states_data.query(f"period == {period}")[all_factors]
-    input_min = state_ranges[input_factor].loc[period]["minimum"]
-    input_max = state_ranges[input_factor].loc[period]["maximum"]
-    to_concat = []
-    for quantile in quantiles_of_other_factors:
-        input_data = pd.DataFrame()
-        input_data[input_factor] = np.linspace(input_min, input_max, n_points)
-        fixed_quantiles = period_data.drop(columns=input_factor).quantile(quantile)
-        input_data[fixed_quantiles.index] = fixed_quantiles
-        input_arr = jnp.array(input_data[all_factors].to_numpy())
-        # convert from jax to numpy array
-        output_arr = np.array(transition_function(transition_params, input_arr))
-        quantile_data = pd.DataFrame()
-        quantile_data[f"input_{input_factor}"] = input_data[input_factor]
-        quantile_data[f"output_{output_factor}"] = np.array(output_arr)
-        quantile_data["quantile"] = quantile
-        to_concat.append(quantile_data)
-
-    out = pd.concat(to_concat).reset_index()
-    return out
-
-
-def _process_quantiles_of_other_factors(quantiles_of_other_factors):
-    """Process quantiles of other factors to always have list as type."""
-    if isinstance(quantiles_of_other_factors, (float, int)):
-        quantiles_of_other_factors = [quantiles_of_other_factors]
-    elif isinstance(quantiles_of_other_factors, (tuple, list)):
-        quantiles_of_other_factors = list(quantiles_of_other_factors)
-    return quantiles_of_other_factors
-
-
-def _prepare_data_for_one_plot_average_2d(
-    states_data,
-    state_ranges,
-    period,
-    input_factor,
-    output_factor,
-    n_points,
-    n_draws,
-    transition_function,
-    transition_params,
-    all_factors,
-):
-
-    period_data = states_data.query(f"period == {period}")[all_factors].reset_index()
-
-    sampled_factors = [factor for factor in all_factors if factor != input_factor]
-    draws = period_data[sampled_factors].sample(n=n_draws)
-    input_min = state_ranges[input_factor].loc[period]["minimum"]
-    input_max = state_ranges[input_factor].loc[period]["maximum"]
-
-    to_concat = []
-    for _, draw in draws.iterrows():
-        input_data = pd.DataFrame()
-        input_data[input_factor] = np.linspace(input_min, input_max, n_points)
-        input_data[draw.index] = draw
-        input_arr = jnp.array(input_data[all_factors].to_numpy())
-        # convert from jax to numpy array
-        output_arr = np.array(transition_function(transition_params, input_arr))
-        draw_data = pd.DataFrame()
-        draw_data[f"input_{input_factor}"] = input_data[input_factor]
-        draw_data[f"output_{output_factor}"] = np.array(output_arr)
-        to_concat.append(draw_data)
-
-    out = pd.concat(to_concat).groupby(f"input_{input_factor}").mean().reset_index()
-    return out
-
-
-def _process_factor_mapping_trans(factor_mapper, output_factors, input_factors):
-    """Process mapper to return dictionary with old and new factor names"""
-    all_factors = input_factors + output_factors
-    if factor_mapper is None:
-        factor_mapper = {fac: fac for fac in all_factors}
-    else:
-        factor_mapper = factor_mapper.copy()
-        for fac in all_factors:
-            if fac not in factor_mapper:
-                factor_mapper[fac] = fac
-    return factor_mapper
-
-
-def _process_orders(columns, rows, plots_dict):
-    """Process axes orders to return list of strings."""
-    if columns is None:
-        columns = []
-        for f in plots_dict.keys():
-            if f[0] not in columns:
-                columns.append(f[0])
-    elif isinstance(columns, str):
-        columns = [columns]
-    if rows is None:
-        rows = []
-        for f in plots_dict.keys():
-            if f[1] not in rows:
-                rows.append(f[1])
-    elif isinstance(rows, str):
-        rows = [rows]
-    return columns, rows
+import itertools
+from copy import deepcopy
+
+import jax.numpy as jnp
+import numpy as np
+import pandas as pd
+from plotly import express as px
+from plotly import graph_objects as go
+from plotly.subplots import make_subplots
+
+from skillmodels.filtered_states import get_filtered_states
+from skillmodels.params_index import get_params_index
+from skillmodels.parse_params import create_parsing_info
+from skillmodels.parse_params import parse_params
+from skillmodels.process_data import process_data
+from skillmodels.process_debug_data import create_state_ranges
+from skillmodels.process_model import process_model
+from skillmodels.utils_plotting import get_layout_kwargs
+from skillmodels.utils_plotting import get_make_subplot_kwargs
+
+
+def combine_transition_plots(
+    plots_dict,
+    column_order=None,
+    row_order=None,
+    factor_mapping=None,
+    make_subplot_kwargs=None,
+    sharex=False,
+    sharey=True,
+    showlegend=True,
+    layout_kwargs=None,
+    legend_kwargs=None,
+    title_kwargs=None,
+):
+    """Combine individual plots into figure with subplots.
+    Uses dictionary with plotly images as values to build plotly Figure with subplots.
+
+    Args:
+        plots_dict (dict): Dictionary with plots of transition functions for each
+            factor.
+        column_order (list, str or NoneType): List of (output) factor names according
+            to which transition plots should be ordered horizontally. If None, infer
+            from the keys of of plots_dict
+        row_order (list, str or NoneType): List of (input) factor names according
+            to which transition plots should be ordered vertically. If None, infer
+            from the keys of of plots_dict
+        factor_mapping (dict or NoneType): A dictionary with custom factor names to
+            display as axes labels.
+        make_subplot_kwargs (dict or NoneType): Dictionary of keyword arguments used
+            to instantiate plotly Figure with multiple subplots. Is used to define
+            properties such as, for example, the spacing between subplots. If None,
+            default arguments defined in the function are used.
+        sharex (bool): Whether to share the properties of x-axis across subplots.
+            Default False.
+        sharey (bool): Whether to share the properties ofy-axis across subplots.
+            Default True.
+        showlegend (bool): Display legend if True.
+        layout_kwargs (dict or NoneType): Dictionary of key word arguments used to
+            update layout of plotly Figure object. If None, the default kwargs defined
+            in the function will be used.
+        legend_kwargs (dict or NoneType): Dictionary of key word arguments used to
+            update position, orientation and title of figure legend. If None, default
+            position and orientation will be used with no title.
+        title_kwargs (dict or NoneType): Dictionary of key word arguments used to
+            update properties of the figure title. Use {'text': '<desired title>'}
+            to set figure title. If None, infers title based on the value of
+            `quntiles_of_other_factors`.
+
+    Returns:
+        fig (plotly.Figure): Plotly figure with subplots that combines individual
+            transition functions.
+
+    """
+    plots_dict = deepcopy(plots_dict)
+
+    column_order, row_order = _process_orders(column_order, row_order, plots_dict)
+    make_subplot_kwargs = get_make_subplot_kwargs(
+        sharex, sharey, column_order, row_order, make_subplot_kwargs
+    )
+    factor_mapping = _process_factor_mapping_trans(
+        factor_mapping, row_order, column_order
+    )
+    fig = make_subplots(**make_subplot_kwargs)
+    for (output_factor, input_factor), (row, col) in zip(
+        itertools.product(row_order, column_order),
+        itertools.product(np.arange(len(row_order)), np.arange(len(column_order))),
+    ):
+        try:
+            subfig = plots_dict[(input_factor, output_factor)]
+        except KeyError:
+            subfig = go.Figure()
+        if not (row == 0 and col == 0):
+            for d in subfig.data:
+                d.update({"showlegend": False})
+                fig.add_trace(d, col=col + 1, row=row + 1)
+        else:
+            for d in subfig.data:
+                fig.add_trace(
+                    d,
+                    col=col + 1,
+                    row=row + 1,
+                )
+        fig.update_xaxes(
+            title_text=f"{factor_mapping[input_factor]}", row=row + 1, col=col + 1
+        )
+        if col == 0:
+            fig.update_yaxes(
+                title_text=f"{factor_mapping[output_factor]}",
+                row=row + 1,
+                col=col + 1,
+            )
+
+    layout_kwargs = get_layout_kwargs(
+        layout_kwargs, legend_kwargs, title_kwargs, showlegend, column_order, row_order
+    )
+    fig.update_layout(**layout_kwargs)
+    return fig
+
+
+def get_transition_plots(
+    model_dict,
+    params,
+    data,
+    period,
+    state_ranges=None,
+    quantiles_of_other_factors=(0.25, 0.5, 0.75),
+    n_points=50,
+    n_draws=50,
+    colorscale="Magenta_r",
+    layout_kwargs=None,
+):
+    """Get dictionary with individual plots of transition equations for each factor.
+
+    Args:
+        model_dict (dict): The model specification. See: :ref:`model_specs`
+        params (pandas.DataFrame): DataFrame with model parameters.
+        data (pd.DataFrame): Empirical dataset that is used to estimate the model.
+        period (int): The start period of the transition equations that are plotted.
+        state_ranges (dict or NoneType): The keys are the names of the latent factors.
+            The values are DataFrames with the columns "period", "minimum", "maximum".
+            The state_ranges are used to define the axis limits of the plots.
+        quantiles_of_other_factors (float, list or None): Quantiles at which the factors
+            that are not varied in a given plot are fixed. If None, those factors are
+            not fixed but integrated out.
+        n_points (int): Number of grid points per input. Default 50.
+        n_draws (int): Number of randomly drawn values of the factors that are averaged
+            out. Only relevant if quantiles_of_other_factors is *None*. Default 50.
+        colorscale (str): The color scale to use for line legends. Must be a valid
+            plotly.express.colors.sequential attribute. Default 'Magenta_r'.
+        layout_kwargs (dict or NoneType): Dictionary of key word arguments used to
+            update layout of plotly image object. If None, the default kwargs
+            defined in the function will be used.
+
+    Returns:
+        plots_dict (dict): Dictionary with individual plots of transition equations
+            for each combination of input and output factors.
+
+    """
+    quantiles_of_other_factors = _process_quantiles_of_other_factors(
+        quantiles_of_other_factors
+    )
+
+    model = process_model(model_dict)
+
+    if period >= model["labels"]["periods"][-1]:
+        raise ValueError(
+            "*period* must be the penultimate period of the model or earlier."
+        )
+
+    latent_factors = model["labels"]["latent_factors"]
+    all_factors = model["labels"]["all_factors"]
+    states = get_filtered_states(model_dict=model_dict, data=data, params=params)[
+        "anchored_states"
+    ]["states"]
+    plots_dict = _get_dictionary_with_plots(
+        model,
+        data,
+        params,
+        states,
+        state_ranges,
+        latent_factors,
+        all_factors,
+        quantiles_of_other_factors,
+        period,
+        n_points,
+        n_draws,
+        colorscale,
+        layout_kwargs,
+    )
+    return plots_dict
+
+
+def _get_dictionary_with_plots(
+    model,
+    data,
+    params,
+    states,
+    state_ranges,
+    latent_factors,
+    all_factors,
+    quantiles_of_other_factors,
+    period,
+    n_points,
+    n_draws,
+    colorscale,
+    layout_kwargs,
+    showlegend=True,
+):
+    """Get plots of transition functions for each input and output combination.
+    Returns a dictionary with individual plots of transition fanctions for each input
+    and output factors.
+
+    Args:
+        model (dict): The model specification. See: :ref:`model_specs`
+        params (pandas.DataFrame): DataFrame with model parameters.
+        states (pandas.DataFrame): Tidy DataFrame with filtered or simulated states.
+            They are used to estimate the state ranges in each period (if state_ranges
+            are not given explicitly) and to estimate the distribution of the factors
+            that are not visualized.
+        state_ranges (dict): The keys are the names of the latent factors.
+            The values are DataFrames with the columns "period", "minimum", "maximum".
+            The state_ranges are used to define the axis limits of the plots.
+
+        latent_factors (list): Latent factors of the model that are outputs of
+            transition factors.
+        all_factors (list): All factors of the model that are the inuts of transition
+            functions.
+        quantiles_of_other_factors (float, list or None): Quantiles at which the factors
+            that are not varied in a given plot are fixed. If None, those factors are
+            not fixed but integrated out.
+        period (int): The start period of the transition equations that are plotted.
+        n_points (int): Number of grid points per input. Default 50.
+        n_draws (int): Number of randomly drawn values of the factors that are averaged
+            out. Only relevant if quantiles_of_other_factors is *None*. Default 50.
+        colorscale (str): The color scale to use for line legends. Must be a valid
+            plotly.express.colors.sequential attribute. Default 'Magenta_r'.
+        subfig_kwargs (dict or NoneType): Dictionary of key word arguments used to
+            update layout of plotly image object. If None, the default kwargs defined
+            in the function will be used.
+
+    Returns:
+        plots_dict (dict): Dictionary with individual plots of transition functions
+            for each input and output factors.
+
+    """
+    observed_factors = model["labels"]["observed_factors"]
+    states_data = _get_states_data(model, period, data, states, observed_factors)
+    params = _set_index_params(model, params)
+    pardict = _get_pardict(model, params)
+    state_ranges = _get_state_ranges(state_ranges, states_data, all_factors)
+    layout_kwargs = get_layout_kwargs(
+        layout_kwargs=layout_kwargs,
+        legend_kwargs=None,
+        title_kwargs=None,
+        showlegend=showlegend,
+    )
+    plots_dict = {}
+    for output_factor, input_factor in itertools.product(latent_factors, all_factors):
+        transition_function = model["transition_info"]["individual_functions"][
+            output_factor
+        ]
+        transition_params = {
+            output_factor: pardict["transition"][output_factor][period]
+        }
+
+        if quantiles_of_other_factors is not None:
+            plot_data = _prepare_data_for_one_plot_fixed_quantile_2d(
+                states_data=states_data,
+                state_ranges=state_ranges,
+                period=period,
+                input_factor=input_factor,
+                output_factor=output_factor,
+                quantiles_of_other_factors=quantiles_of_other_factors,
+                n_points=n_points,
+                transition_function=transition_function,
+                transition_params=transition_params,
+                all_factors=all_factors,
+            )
+
+        else:
+            plot_data = _prepare_data_for_one_plot_average_2d(
+                states_data=states_data,
+                state_ranges=state_ranges,
+                period=period,
+                input_factor=input_factor,
+                output_factor=output_factor,
+                n_points=n_points,
+                n_draws=n_draws,
+                transition_function=transition_function,
+                transition_params=transition_params,
+                all_factors=all_factors,
+            )
+
+        if (
+            isinstance(quantiles_of_other_factors, list)
+            and len(quantiles_of_other_factors) > 1
+        ):
+            color = "quantile"
+        else:
+            color = None
+        subfig = px.line(
+            plot_data,
+            y=f"output_{output_factor}",
+            x=f"input_{input_factor}",
+            color=color,
+            color_discrete_sequence=getattr(px.colors.sequential, colorscale),
+        )
+        subfig.update_xaxes(title={"text": input_factor})
+        subfig.update_yaxes(title={"text": output_factor})
+        subfig.update_layout(**layout_kwargs)
+        plots_dict[(input_factor, output_factor)] = deepcopy(subfig)
+
+    return plots_dict
+
+
+def _get_state_ranges(state_ranges, states_data, all_factors):
+    """Create state ranges if none is given"""
+    if state_ranges is None:
+        state_ranges = create_state_ranges(states_data, all_factors)
+    return state_ranges
+
+
+def _get_pardict(model, params):
+    """Get parsed params dictionary."""
+    parsing_info = create_parsing_info(
+        params_index=params.index,
+        update_info=model["update_info"],
+        labels=model["labels"],
+        anchoring=model["anchoring"],
+    )
+
+    _, _, _, pardict = parse_params(
+        params=jnp.array(params["value"].to_numpy()),
+        parsing_info=parsing_info,
+        dimensions=model["dimensions"],
+        labels=model["labels"],
+        n_obs=1,
+    )
+    return pardict
+
+
+def _set_index_params(model, params):
+    """Reset index of params data frame to model implied values."""
+    params_index = get_params_index(
+        update_info=model["update_info"],
+        labels=model["labels"],
+        dimensions=model["dimensions"],
+        transition_info=model["transition_info"],
+    )
+
+    params = params.reindex(params_index)
+    return params
+
+
+def _get_states_data(model, period, data, states, observed_factors):
+
+    if observed_factors and data is None:
+        raise ValueError(
+            """The model has observed factors. You must pass the empirical data to
+        'visualize_transition_equations' via the keyword *data*."""
+        )
+
+    if observed_factors:
+        _, _, _observed_arr = process_data(
+            df=data,
+            labels=model["labels"],
+            update_info=model["update_info"],
+            anchoring_info=model["anchoring"],
+        )
+        # convert from jax to numpy
+        _observed_arr = np.array(_observed_arr)
+        observed_data = pd.DataFrame(
+            data=_observed_arr[period], columns=observed_factors
+        )
+        observed_data["id"] = observed_data.index
+        observed_data["period"] = period
+        states_data = pd.merge(
+            left=states,
+            right=observed_data,
+            left_on=["id", "period"],
+            right_on=["id", "period"],
+            how="left",
+        )
+    else:
+        states_data = states.copy(deep=True)
+    return states_data
+
+
+def _prepare_data_for_one_plot_fixed_quantile_2d(
+    states_data,
+    state_ranges,
+    period,
+    input_factor,
+    output_factor,
+    quantiles_of_other_factors,
+    n_points,
+    transition_function,
+    transition_params,
+    all_factors,
+):
+
+    period_data = states_data.query(f"period == {period}")[all_factors]
+    input_min = state_ranges[input_factor].loc[period]["minimum"]
+    input_max = state_ranges[input_factor].loc[period]["maximum"]
+    to_concat = []
+    for quantile in quantiles_of_other_factors:
+        input_data = pd.DataFrame()
+        input_data[input_factor] = np.linspace(input_min, input_max, n_points)
+        fixed_quantiles = period_data.drop(columns=input_factor).quantile(quantile)
+        input_data[fixed_quantiles.index] = fixed_quantiles
+        input_arr = jnp.array(input_data[all_factors].to_numpy())
+        # convert from jax to numpy array
+        output_arr = np.array(transition_function(transition_params, input_arr))
+        quantile_data = pd.DataFrame()
+        quantile_data[f"input_{input_factor}"] = input_data[input_factor]
+        quantile_data[f"output_{output_factor}"] = np.array(output_arr)
+        quantile_data["quantile"] = quantile
+        to_concat.append(quantile_data)
+
+    out = pd.concat(to_concat).reset_index()
+    return out
+
+
+def _process_quantiles_of_other_factors(quantiles_of_other_factors):
+    """Process quantiles of other factors to always have list as type."""
+    if isinstance(quantiles_of_other_factors, (float, int)):
+        quantiles_of_other_factors = [quantiles_of_other_factors]
+    elif isinstance(quantiles_of_other_factors, (tuple, list)):
+        quantiles_of_other_factors = list(quantiles_of_other_factors)
+    return quantiles_of_other_factors
+
+
+def _prepare_data_for_one_plot_average_2d(
+    states_data,
+    state_ranges,
+    period,
+    input_factor,
+    output_factor,
+    n_points,
+    n_draws,
+    transition_function,
+    transition_params,
+    all_factors,
+):
+
+    period_data = states_data.query(f"period == {period}")[all_factors].reset_index()
+
+    sampled_factors = [factor for factor in all_factors if factor != input_factor]
+    draws = period_data[sampled_factors].sample(n=n_draws)
+    input_min = state_ranges[input_factor].loc[period]["minimum"]
+    input_max = state_ranges[input_factor].loc[period]["maximum"]
+
+    to_concat = []
+    for _, draw in draws.iterrows():
+        input_data = pd.DataFrame()
+        input_data[input_factor] = np.linspace(input_min, input_max, n_points)
+        input_data[draw.index] = draw
+        input_arr = jnp.array(input_data[all_factors].to_numpy())
+        # convert from jax to numpy array
+        output_arr = np.array(transition_function(transition_params, input_arr))
+        draw_data = pd.DataFrame()
+        draw_data[f"input_{input_factor}"] = input_data[input_factor]
+        draw_data[f"output_{output_factor}"] = np.array(output_arr)
+        to_concat.append(draw_data)
+
+    out = pd.concat(to_concat).groupby(f"input_{input_factor}").mean().reset_index()
+    return out
+
+
+def _process_factor_mapping_trans(factor_mapper, output_factors, input_factors):
+    """Process mapper to return dictionary with old and new factor names"""
+    all_factors = input_factors + output_factors
+    if factor_mapper is None:
+        factor_mapper = {fac: fac for fac in all_factors}
+    else:
+        factor_mapper = factor_mapper.copy()
+        for fac in all_factors:
+            if fac not in factor_mapper:
+                factor_mapper[fac] = fac
+    return factor_mapper
+
+
+def _process_orders(columns, rows, plots_dict):
+    """Process axes orders to return list of strings."""
+    if columns is None:
+        columns = []
+        for f in plots_dict.keys():
+            if f[0] not in columns:
+                columns.append(f[0])
+    elif isinstance(columns, str):
+        columns = [columns]
+    if rows is None:
+        rows = []
+        for f in plots_dict.keys():
+            if f[1] not in rows:
+                rows.append(f[1])
+    elif isinstance(rows, str):
+        rows = [rows]
+    return columns, rows
-- 
2.43.0


From 79ce7e73b274d9425362cda2610a233b9146fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 14/18] fix: report invalid measurements of normalized factors
 instead of raising a TypeError

---
 skillmodels/check_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 3725b35..4a68c1f 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -129,6 +129,9 @@ def _check_normalizations(model_dict, factors):
 def _check_normalized_variables_are_present(list_of_normdicts, model_dict, factor):
     report = []
     measurements = model_dict["factors"][factor]["measurements"]
+    if not _is_list_of(measurements, list):
+        # invalid measurements are reported by _check_measurements
+        return report
     for period, norm_dict in enumerate(list_of_normdicts):
         present = measurements[period] if period < len(measurements) else []
         for var in norm_dict:
-- 
2.43.0


From 56a99febecd38e42cf19725469fa2d3590bbc86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 15/18] fix: report anchoring outcomes that are not a dict
 instead of raising a TypeError

---
 skillmodels/process_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index 7aaf09c..ed37595 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -162,9 +162,11 @@ def _process_anchoring(model_dict):
         anchinfo["anchoring"] = True
         # use the order of the latent factors because the anchoring updates have to be
         # in the same order as the columns of loadings and scaling factors.
-        anchinfo["factors"] = [
-            fac for fac in model_dict["factors"] if fac in anchinfo["outcomes"]
-        ]
+        # outcomes that are not a dict are reported by check_model
+        if isinstance(anchinfo["outcomes"], dict):
+            anchinfo["factors"] = [
+                fac for fac in model_dict["factors"] if fac in anchinfo["outcomes"]
+            ]
 
     return anchinfo
 
-- 
2.43.0


From 671f9fb367a5dda6b2e1b23bd1977b268f4cd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 16/18] fix: reject ignore_constant_when_anchoring if it is not
 a bool

---
 skillmodels/check_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 4a68c1f..fc14885 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -81,6 +81,8 @@ def _check_anchoring(anchoring, factors):
         report.append("anchoring['use_constant'] must be a bool.")
     if not isinstance(anchoring["free_loadings"], bool):
         report.append("anchoring['free_loadings'] must be a bool.")
+    if not isinstance(anchoring["ignore_constant_when_anchoring"], bool):
+        report.append("anchoring['ignore_constant_when_anchoring'] must be a bool.")
     return report
 
 
-- 
2.43.0


From 09afd516d25adfc36928109a5afbf2681559145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:40 +0000
Subject: [PATCH 17/18] fix: report missing anchoring outcomes instead of
 raising a KeyError

---
 skillmodels/process_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index b5ce70b..0a7cf44 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -88,7 +88,8 @@ def _add_copies_of_anchoring_outcome(df, anchoring_info):
     df = df.copy()
     for factor in anchoring_info["factors"]:
         outcome = anchoring_info["outcomes"][factor]
-        df[f"{outcome}_{factor}"] = df[outcome]
+        if outcome in df.columns:
+            df[f"{outcome}_{factor}"] = df[outcome]
     return df
 
 
-- 
2.43.0


From 736977fd20be55958cfefbade00e4dca6f31dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 18/18] fix: simulate from data sets that do not contain the
 measurements

---
 skillmodels/process_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 0a7cf44..8b0b045 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -129,7 +129,13 @@ def _handle_controls_with_missings(df, controls, update_info):
     for period in periods:
         period_data = df.query(f"period == {period}")
         control_data = period_data[controls]
-        meas_data = period_data[get_period_measurements(update_info, period)]
+        # measurements need not be in the data if they are to be simulated
+        measurements = [
+            meas
+            for meas in get_period_measurements(update_info, period)
+            if meas in period_data.columns
+        ]
+        meas_data = period_data[measurements]
         problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)
         problematic_index = problematic_index.union(period_data[problem].index)
 
-- 
2.43.0

