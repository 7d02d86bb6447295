From 0f6e121bd6f19322a55ebdc3ce4669f6070c5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 01/11] fix: sigma points with observed factors and several
 mixture components

The observed factors were repeated only once per sigma point, so that the
reshape failed for more than one mixture component.
---
 skillmodels/kalman_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/kalman_filters.py b/skillmodels/kalman_filters.py
index c84a73a..a509dd0 100644
--- a/skillmodels/kalman_filters.py
+++ b/skillmodels/kalman_filters.py
@@ -261,7 +261,7 @@ def _calculate_sigma_points(states, upper_chols, scaling_factor, observed_factor
     sigma_points = sigma_points.at[:, :, 1 : n_fac + 1].add(scaled_upper_chols)
     sigma_points = sigma_points.at[:, :, n_fac + 1 :].add(-scaled_upper_chols)
 
-    observed_part = observed_factors.repeat(n_sigma, axis=0).reshape(
+    observed_part = observed_factors.repeat(n_mixtures * n_sigma, axis=0).reshape(
         n_obs, n_mixtures, n_sigma, n_observed
     )
 
-- 
2.43.0


From cd0262404455b0f27d77596919bbdff7a08aa769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 02/11] fix: anchoring outcomes in an order that differs from
 the factors

The parsing of anchoring loadings and constants relies on the anchoring
updates being in factor order. With another order of the outcomes, scaling
factors and constants were assigned to the wrong factors.
---
 skillmodels/process_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index b573870..20dff78 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -160,7 +160,9 @@ def _process_anchoring(model_dict):
     if "anchoring" in model_dict:
         anchinfo.update(model_dict["anchoring"])
         anchinfo["anchoring"] = True
-        anchinfo["factors"] = list(anchinfo["outcomes"])
+        anchinfo["factors"] = [
+            fac for fac in model_dict["factors"] if fac in anchinfo["outcomes"]
+        ]
 
     return anchinfo
 
-- 
2.43.0


From fb57f30453f452106a1a5cb59fcf3d40279b185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 03/11] fix: ids in debug tables of models with several mixture
 components

The rows of one individual (one per mixture component) got different ids.
---
 skillmodels/process_debug_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index b923d93..d7938a5 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -95,7 +95,7 @@ def _create_post_update_states(filtered_states, factors, update_info):
     for (period, meas), data in zip(update_info.index, filtered_states):
         df = _convert_state_array_to_df(data, factors)
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.arange(len(data)).repeat(data.shape[1])
         df["measurement"] = meas
         to_concat.append(df)
 
@@ -164,7 +164,7 @@ def _process_residuals(residuals, update_info):
         df = pd.DataFrame(data.reshape(-1, 1), columns=["residual"])
         df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.arange(n_obs).repeat(n_mixtures)
         df["measurement"] = meas
         to_concat.append(df)
     return pd.concat(to_concat)
-- 
2.43.0


From 48720b849ceee0827c10b12b312cc60d39e0f8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 04/11] fix: align periods of data whose index has unused
 levels

Selecting a subset of periods keeps the old index levels. The periods were
then numbered by position among the unused levels and shifted.
---
 skillmodels/process_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 9222005..787337f 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -66,6 +66,7 @@ def pre_process_data(df, periods):
 
     # replace existing codes for periods and
     df.index.names = ["id", "period"]
+    df.index = df.index.remove_unused_levels()
     for level in [0, 1]:
         df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
 
-- 
2.43.0


From 512d5c85db926250125b4cb22efa1c753847bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 05/11] fix: keep observed factors of observations with missing
 controls

Observed factors were set to NaN together with the measurements, which made
all later states and the likelihood of that individual NaN.
---
 skillmodels/process_data.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 787337f..7b0d3f5 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -34,7 +34,9 @@ def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
     df = _add_copies_of_anchoring_outcome(df, anchoring_info)
     _check_data(df, update_info, labels, purpose=purpose)
     n_obs = int(len(df) / len(labels["periods"]))
-    df = _handle_controls_with_missings(df, labels["controls"], update_info)
+    df = _handle_controls_with_missings(
+        df, labels["controls"], update_info, labels["observed_factors"]
+    )
     if purpose == "estimation":
         meas_data = _generate_measurements_array(df, update_info, n_obs)
     control_data = _generate_controls_array(df, labels, n_obs)
@@ -117,7 +119,7 @@ def _check_data(df, update_info, labels, purpose):
         raise ValueError(var_report)
 
 
-def _handle_controls_with_missings(df, controls, update_info):
+def _handle_controls_with_missings(df, controls, update_info, observed_factors=()):
     df = df.copy(deep=True)
     periods = update_info.index.get_level_values(0).unique().tolist()
     problematic_index = df.index[:0]
@@ -133,7 +135,8 @@ def _handle_controls_with_missings(df, controls, update_info):
         msg = "Set measurements to NaN because there are NaNs in the controls for:\n{}"
         msg = msg.format(list(map(tuple, old_names.to_numpy().tolist())))
         warnings.warn(msg)
-        df.loc[problematic_index] = np.nan
+        to_blank = [col for col in df.columns if col not in observed_factors]
+        df.loc[problematic_index, to_blank] = np.nan
     return df
 
 
-- 
2.43.0


From f6d96cb368fc80fa9d30b81a13b84918d55f386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 06/11] fix: stack several observed factors as columns in
 distribution plots

---
 skillmodels/visualize_factor_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 9f1ee6d..08491be 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -629,7 +629,7 @@ def _get_data_observed_factors(data, factors):
         if fac in data:
             to_concat.append(data[fac])
     if len(to_concat) >= 1:
-        observed_states = pd.DataFrame(pd.concat(to_concat))
+        observed_states = pd.DataFrame(pd.concat(to_concat, axis=1))
     else:
         observed_states = None
     return observed_states
-- 
2.43.0


From dc76db883cb2d6d1ccb7adb62da8911a812a0b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 07/11] fix: order of bivariate plots does not depend on string
 hashing

---
 skillmodels/visualize_factor_distributions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 08491be..2cd3bf6 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -330,7 +330,6 @@ def bivariate_density_contours(
         for fac2 in factors:
             if fac1 != fac2:
                 pairs.append((fac1, fac2))
-    pairs = list(set(pairs))
     for pair in pairs:
         fig = go.Figure()
         for i, scenario in enumerate(df["scenario"].unique()):
@@ -440,7 +439,6 @@ def bivariate_density_surfaces(
         for fac2 in factors:
             if fac1 != fac2:
                 pairs.append((fac1, fac2))
-    pairs = list(set(pairs))
     for pair in pairs:
         try:
             x, y, z = _calculate_kde_for_3d(df, pair, n_points)
-- 
2.43.0


From ac8e76620f224664a5a941f7d0a2c2d8fd5e1fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 08/11] fix: do not modify the factor_mapping passed by the
 user

---
 skillmodels/visualize_factor_distributions.py | 1 +
 skillmodels/visualize_transition_equations.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 2cd3bf6..193ea72 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -593,6 +593,7 @@ def _process_factor_mapping_dist(mapper, factors):
     if mapper is None:
         mapper = {fac: fac for fac in factors}
     else:
+        mapper = dict(mapper)
         for fac in factors:
             if fac not in mapper:
                 mapper[fac] = fac
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 023f1d5..fb9bd48 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -473,6 +473,7 @@ def _process_factor_mapping_trans(factor_mapper, output_factors, input_factors):
     if factor_mapper is None:
         factor_mapper = {fac: fac for fac in all_factors}
     else:
+        factor_mapper = dict(factor_mapper)
         for fac in all_factors:
             if fac not in factor_mapper:
                 factor_mapper[fac] = fac
-- 
2.43.0


From db0d60c3c379bab5bd95126af3f68f208b58de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 09/11] fix: reject params with missing entries in simulation
 and transition plots

Missing labels were silently filled with NaN.
---
 skillmodels/simulate_data.py                  | 2 +-
 skillmodels/visualize_transition_equations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/skillmodels/simulate_data.py b/skillmodels/simulate_data.py
index 1b662fb..d6e67fe 100644
--- a/skillmodels/simulate_data.py
+++ b/skillmodels/simulate_data.py
@@ -80,7 +80,7 @@ def simulate_dataset(model_dict, params, n_obs=None, data=None, policies=None):
         transition_info=model["transition_info"],
     )
 
-    params = params.reindex(params_index)
+    params = params.loc[params_index]
 
     parsing_info = create_parsing_info(
         params_index=params.index,
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index fb9bd48..924d7a1 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -348,7 +348,7 @@ def _set_index_params(model, params):
         transition_info=model["transition_info"],
     )
 
-    params = params.reindex(params_index)
+    params = params.loc[params_index]
     return params
 
 
-- 
2.43.0


From c883e7c40213997bef63971e580c39dbe62d1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 10/11] fix: report normalizations in periods without
 measurements

Normalizations that cover more periods than the measurements of a factor
failed with an IndexError instead of the validation report.
---
 skillmodels/check_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 06dea4f..f2d29e8 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -119,9 +119,11 @@ def _check_normalizations(model_dict, factors):
 
 def _check_normalized_variables_are_present(list_of_normdicts, model_dict, factor):
     report = []
+    measurements = model_dict["factors"][factor]["measurements"]
     for period, norm_dict in enumerate(list_of_normdicts):
+        present = measurements[period] if period < len(measurements) else []
         for var in norm_dict:
-            if var not in model_dict["factors"][factor]["measurements"][period]:
+            if var not in present:
                 report.append(
                     "You can only normalize variables that are specified as "
                     f"measurements. Check {var} for {factor} in period "
-- 
2.43.0


From 03a73842ab06eb74d19f4d9596e8a8ed42271e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 11/11] fix: pair observed factors with states by period and
 individual in density plots

---
 skillmodels/visualize_factor_distributions.py | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 193ea72..3e99b73 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -10,6 +10,7 @@ from plotly.subplots import make_subplots
 from scipy.stats import gaussian_kde
 
 from skillmodels.filtered_states import get_filtered_states
+from skillmodels.process_data import pre_process_data
 from skillmodels.process_model import process_model
 from skillmodels.utils_plotting import get_layout_kwargs
 from skillmodels.utils_plotting import get_make_subplot_kwargs
@@ -210,7 +211,9 @@ def univariate_densities(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(
+        data, factors, model["labels"]["periods"]
+    )
     df = _process_data(states, period, factors, observed_states)
     scenarios = df["scenario"].unique()
     plots_dict = {}
@@ -314,7 +317,9 @@ def bivariate_density_contours(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data=data, factors=factors)
+    observed_states = _get_data_observed_factors(
+        data, factors, model["labels"]["periods"]
+    )
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     contour_kwargs = _process_contour_kwargs(
@@ -428,7 +433,9 @@ def bivariate_density_surfaces(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(
+        data, factors, model["labels"]["periods"]
+    )
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     layout_kwargs = _process_layout_kwargs_3d(
@@ -621,14 +628,23 @@ def _get_factors(factors, observed_factors, model):
     return factors
 
 
-def _get_data_observed_factors(data, factors):
-    """Get data with observed factors if any."""
+def _get_data_observed_factors(data, factors, periods):
+    """Get data with observed factors if any.
+
+    The data are balanced and sorted as in the estimation, such that the periods and
+    the order of individuals are the same as in the states.
+
+    """
     to_concat = []
     for fac in factors:
         if fac in data:
             to_concat.append(data[fac])
     if len(to_concat) >= 1:
         observed_states = pd.DataFrame(pd.concat(to_concat, axis=1))
+        observed_states = pre_process_data(observed_states, periods)
+        observed_states = observed_states.drop(
+            columns=["__old_id__", "__old_period__"]
+        )
     else:
         observed_states = None
     return observed_states
-- 
2.43.0

