From 4f88271c135f7c90d4539c04836f9b8166249438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 01/32] fix: models without estimation_options use the
 documented defaults

The section is documented as optional, but get_dimensions raised a KeyError.
---
 skillmodels/process_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index b573870..d260192 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -75,7 +75,7 @@ def get_dimensions(model_dict):
         "n_periods": max(all_n_periods),
         # plus 1 for the constant
         "n_controls": len(model_dict.get("controls", [])) + 1,
-        "n_mixtures": model_dict["estimation_options"].get("n_mixtures", 1),
+        "n_mixtures": model_dict.get("estimation_options", {}).get("n_mixtures", 1),
     }
     dims["n_all_factors"] = dims["n_latent_factors"] + dims["n_observed_factors"]
     return dims
-- 
2.43.0


From 1970b59b7c4cc00dc72f7db2e163ac24fb7deb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 02/32] fix: predict step with observed factors and several
 mixture components

The observed factors were repeated once per sigma point instead of once per
mixture component and sigma point, so that the reshape failed.
---
 skillmodels/kalman_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/kalman_filters.py b/skillmodels/kalman_filters.py
index c84a73a..a509dd0 100644
--- a/skillmodels/kalman_filters.py
+++ b/skillmodels/kalman_filters.py
@@ -261,7 +261,7 @@ def _calculate_sigma_points(states, upper_chols, scaling_factor, observed_factor
     sigma_points = sigma_points.at[:, :, 1 : n_fac + 1].add(scaled_upper_chols)
     sigma_points = sigma_points.at[:, :, n_fac + 1 :].add(-scaled_upper_chols)
 
-    observed_part = observed_factors.repeat(n_sigma, axis=0).reshape(
+    observed_part = observed_factors.repeat(n_mixtures * n_sigma, axis=0).reshape(
         n_obs, n_mixtures, n_sigma, n_observed
     )
 
-- 
2.43.0


From 7a144e9f4eafd9296b907c819e76ad537e59dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 03/32] fix: anchoring parameters are assigned to the right
 factors

If the outcomes were listed in a different order than the factors, the scaling
factors and constants of the anchored factors were interchanged.
---
 skillmodels/process_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index d260192..ffd7b24 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -160,7 +160,13 @@ def _process_anchoring(model_dict):
     if "anchoring" in model_dict:
         anchinfo.update(model_dict["anchoring"])
         anchinfo["anchoring"] = True
-        anchinfo["factors"] = list(anchinfo["outcomes"])
+        # The anchoring parameters are assigned to the factors by position. Thus the
+        # anchored factors need to be in the same order as the latent factors.
+        latent_factors = list(model_dict["factors"])
+        anchinfo["factors"] = [f for f in latent_factors if f in anchinfo["outcomes"]]
+        anchinfo["factors"] += [
+            f for f in anchinfo["outcomes"] if f not in latent_factors
+        ]
 
     return anchinfo
 
-- 
2.43.0


From da1b3fcb2492ade6855f17083e59dbf62b450009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 04/32] fix: missing controls do not delete observed factors

Setting the measurements of an observation with missing controls to NaN also set
its observed factors to NaN, which made the likelihood NaN.
---
 skillmodels/process_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 9222005..ea5d6c8 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -34,11 +34,12 @@ def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
     df = _add_copies_of_anchoring_outcome(df, anchoring_info)
     _check_data(df, update_info, labels, purpose=purpose)
     n_obs = int(len(df) / len(labels["periods"]))
+    # has to be done before entire rows are set to NaN due to missing controls
+    observed_data = _generate_observed_factor_array(df, labels, n_obs)
     df = _handle_controls_with_missings(df, labels["controls"], update_info)
     if purpose == "estimation":
         meas_data = _generate_measurements_array(df, update_info, n_obs)
     control_data = _generate_controls_array(df, labels, n_obs)
-    observed_data = _generate_observed_factor_array(df, labels, n_obs)
 
     if purpose == "estimation":
         out = (meas_data, control_data, observed_data)
-- 
2.43.0


From db2b1b671d725a08179098045402500a3c4c3769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 05/32] fix: unused or unsorted index levels do not shift
 periods and ids

A selection from a larger dataset keeps the unused levels of its MultiIndex. They
were counted when periods and individuals were enumerated.
---
 skillmodels/process_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index ea5d6c8..d20f53e 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -66,9 +66,10 @@ def pre_process_data(df, periods):
     df["__old_period__"] = df.index.get_level_values(1)
 
     # replace existing codes for periods and
-    df.index.names = ["id", "period"]
-    for level in [0, 1]:
-        df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
+    codes = [
+        pd.factorize(df.index.get_level_values(level), sort=True)[0] for level in [0, 1]
+    ]
+    df.index = pd.MultiIndex.from_arrays(codes, names=["id", "period"])
 
     # create new index
     ids = sorted(df.index.get_level_values("id").unique())
-- 
2.43.0


From 26800e1d8ac4c515edcb9c26958ca7714df3d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:19 +0000
Subject: [PATCH 06/32] fix: params_template of a one-period model has no
 made-up shock_sds row

---
 skillmodels/constraints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skillmodels/constraints.py b/skillmodels/constraints.py
index 6e4ae29..8ae2663 100644
--- a/skillmodels/constraints.py
+++ b/skillmodels/constraints.py
@@ -63,8 +63,10 @@ def add_bounds(params_df, bounds_distance=0.0):
         )
         if "lower_bound" not in df.columns:
             df["lower_bound"] = -np.inf
-        df.loc["meas_sds", "lower_bound"] = bounds_distance
-        df.loc["shock_sds", "lower_bound"] = bounds_distance
+        # models with only one period have no shock_sds
+        for category in ["meas_sds", "shock_sds"]:
+            if category in df.index.get_level_values("category"):
+                df.loc[category, "lower_bound"] = bounds_distance
 
         cholcov_index = df.query("category == 'initial_cholcovs'").index.tolist()
         ind_tups = [tup for tup in cholcov_index if _is_diagonal_entry(tup)]
-- 
2.43.0


From 45b67b83ca27f35e01969be20524f4c0671b76f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:19 +0000
Subject: [PATCH 07/32] fix: filtered states of models with periods without
 measurements

The periods were enumerated instead of taken from the update info and periods that
only have anchoring updates raised an IndexError.
---
 skillmodels/process_debug_data.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index b923d93..8f8c058 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -125,17 +125,19 @@ def _create_filtered_states(filtered_states, log_mixture_weights, update_info, f
 
     agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
 
-    keep = []
-    for i, (period, measurement) in enumerate(update_info.index):
-        last_measurement = update_info.query(
-            f"purpose == 'measurement' & period == {period}"
-        ).index[-1][1]
-
-        if measurement == last_measurement:
-            keep.append(i)
+    # Use the last measurement update of each period. In periods that only have anchoring
+    # updates, the last one of them is used.
+    periods = update_info.index.get_level_values(0).to_numpy()
+    is_measurement = (update_info["purpose"] == "measurement").to_numpy()
+    keep = {}
+    for period in pd.unique(periods):
+        candidates = np.flatnonzero((periods == period) & is_measurement)
+        if len(candidates) == 0:
+            candidates = np.flatnonzero(periods == period)
+        keep[period] = candidates[-1]
 
     to_concat = []
-    for period, i in enumerate(keep):
+    for period, i in keep.items():
         df = pd.DataFrame(data=agg_states[i], columns=factors)
         df["period"] = period
         df["id"] = np.arange(len(df))
-- 
2.43.0


From dde90507948ad1fe3f0eb355bde38bef416c52c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:19 +0000
Subject: [PATCH 08/32] fix: id column of debug data with several mixture
 components

The rows of post_update_states, residuals and residual_sds were enumerated. With
more than one mixture component, the resulting numbers do not identify individuals.
---
 skillmodels/process_debug_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index 8f8c058..b166f78 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -95,7 +95,8 @@ def _create_post_update_states(filtered_states, factors, update_info):
     for (period, meas), data in zip(update_info.index, filtered_states):
         df = _convert_state_array_to_df(data, factors)
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        n_obs, n_mixtures, _ = data.shape
+        df["id"] = np.repeat(np.arange(n_obs), n_mixtures)
         df["measurement"] = meas
         to_concat.append(df)
 
@@ -166,7 +167,7 @@ def _process_residuals(residuals, update_info):
         df = pd.DataFrame(data.reshape(-1, 1), columns=["residual"])
         df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.repeat(np.arange(n_obs), n_mixtures)
         df["measurement"] = meas
         to_concat.append(df)
     return pd.concat(to_concat)
-- 
2.43.0


From 0d1601337c30c824632ce77cc1fe6ae792e6d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:19 +0000
Subject: [PATCH 09/32] fix: report normalizations in periods without
 measurement list

The measurement lists can be shorter than the number of periods. A normalization in
such a period raised an IndexError instead of being reported.
---
 skillmodels/check_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 06dea4f..9a60751 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -119,9 +119,10 @@ def _check_normalizations(model_dict, factors):
 
 def _check_normalized_variables_are_present(list_of_normdicts, model_dict, factor):
     report = []
+    measurements = model_dict["factors"][factor]["measurements"]
     for period, norm_dict in enumerate(list_of_normdicts):
         for var in norm_dict:
-            if var not in model_dict["factors"][factor]["measurements"][period]:
+            if period >= len(measurements) or var not in measurements[period]:
                 report.append(
                     "You can only normalize variables that are specified as "
                     f"measurements. Check {var} for {factor} in period "
-- 
2.43.0


From 1e777db73b417497d11e404c9b4cb9c7c1c52c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:19 +0000
Subject: [PATCH 10/32] fix: report missing anchoring outcomes together with
 other missing variables

---
 skillmodels/process_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index d20f53e..65e678d 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -85,7 +85,9 @@ def _add_copies_of_anchoring_outcome(df, anchoring_info):
     df = df.copy()
     for factor in anchoring_info["factors"]:
         outcome = anchoring_info["outcomes"][factor]
-        df[f"{outcome}_{factor}"] = df[outcome]
+        # missing outcomes are reported in _check_data
+        if outcome in df.columns:
+            df[f"{outcome}_{factor}"] = df[outcome]
     return df
 
 
-- 
2.43.0


From 84f90ce6d41898041949d321b512122ab0313117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:19 +0000
Subject: [PATCH 11/32] fix: factor names may contain quotation marks

---
 skillmodels/parse_params.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index 382dd30..bf0bbe9 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -52,8 +52,9 @@ def create_parsing_info(params_index, update_info, labels, anchoring):
     # "trans_coeffs"
     pos_dict = {}
     for factor in labels["latent_factors"]:
-        helper = pd.DataFrame(index=params_index)
-        loc = helper.query(f"category == 'transition' & name1 == '{factor}'").index
+        is_transition = params_index.get_level_values("category") == "transition"
+        is_factor = params_index.get_level_values("name1") == factor
+        loc = params_index[is_transition & is_factor]
         pos_dict[factor] = _get_positional_selector_from_loc(range_sr, loc)
 
     parsing_info["transition"] = pos_dict
-- 
2.43.0


From 5df1f2176967880697475fcb8ce1c839c6bd376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:08 +0000
Subject: [PATCH 12/32] fix: distribution plots with several observed factors

The observed factors were stacked in one unnamed column.
---
 skillmodels/visualize_factor_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 9f1ee6d..e2a0f51 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -629,7 +629,7 @@ def _get_data_observed_factors(data, factors):
         if fac in data:
             to_concat.append(data[fac])
     if len(to_concat) >= 1:
-        observed_states = pd.DataFrame(pd.concat(to_concat))
+        observed_states = pd.concat(to_concat, axis=1)
     else:
         observed_states = None
     return observed_states
-- 
2.43.0


From 88e550f4614110ae7582a71a13efee4af3175b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:08 +0000
Subject: [PATCH 13/32] fix: simulate models that have periods without
 measurements

---
 skillmodels/simulate_data.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/skillmodels/simulate_data.py b/skillmodels/simulate_data.py
index 1b662fb..388a181 100644
--- a/skillmodels/simulate_data.py
+++ b/skillmodels/simulate_data.py
@@ -237,15 +237,17 @@ def _simulate_dataset(
     observed_data_by_period = []
 
     for t in range(n_periods):
+        # there can be periods without measurements
+        rows = update_info.index.get_level_values(0) == t
         meas = pd.DataFrame(
             data=measurements_from_states(
                 latent_states[t],
                 control_data[t],
-                loadings_df.loc[t].to_numpy(),
-                control_params_df.loc[t].to_numpy(),
-                meas_sds.loc[t].to_numpy().flatten(),
+                loadings_df[rows].to_numpy(),
+                control_params_df[rows].to_numpy(),
+                meas_sds[rows].to_numpy().flatten(),
             ),
-            columns=loadings_df.loc[t].index,
+            columns=update_info.index.get_level_values(1)[rows],
         )
         meas["period"] = t
         observed_data_by_period.append(meas)
@@ -337,7 +339,10 @@ def measurements_from_states(states, controls, loadings, control_params, sds):
     """
     n_meas = loadings.shape[0]
     n_obs = len(states)
-    epsilon = multivariate_normal([0] * n_meas, np.diag(sds**2), n_obs)
+    if n_meas > 0:
+        epsilon = multivariate_normal([0] * n_meas, np.diag(sds**2), n_obs)
+    else:
+        epsilon = np.zeros((n_obs, 0))
     states_part = np.dot(states, loadings.T)
     control_part = np.dot(controls, control_params.T)
     meas = states_part + control_part + epsilon
-- 
2.43.0


From 81ddb5d37febff346b50af6c3553f0bcbfbcac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:17 +0000
Subject: [PATCH 14/32] fix: constant transition functions of factors whose
 name is no identifier

---
 skillmodels/process_model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index ffd7b24..b335059 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -3,7 +3,6 @@ from functools import partial
 import numpy as np
 import pandas as pd
 from dags import concatenate_functions
-from dags.signature import rename_arguments
 from jax import vmap
 from pandas import DataFrame
 
@@ -183,7 +182,8 @@ def _get_transition_info(model_dict, labels):
         if isinstance(spec, str):
             func = getattr(tf, spec)
             if spec == "constant":
-                func = rename_arguments(func, mapper={"state": factor})
+                # factor names need not be valid argument names
+                func = _get_constant_function(pos=labels["all_factors"].index(factor))
             func_list.append(extract_params(func, key=factor))
             param_names.append(getattr(tf, f"params_{spec}")(all_factors))
         elif callable(spec):
@@ -238,6 +238,13 @@ def _get_transition_info(model_dict, labels):
     return out
 
 
+def _get_constant_function(pos):
+    def constant(states, params):
+        return tf.constant(states[pos], params)
+
+    return constant
+
+
 def _get_update_info(model_dict, dimensions, labels, anchoring_info):
     """Construct a DataFrame with information on each Kalman update.
 
-- 
2.43.0


From 9c39530ffc6980af41caa54e1a757d28c1138eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:29 +0000
Subject: [PATCH 15/32] fix: no stage constraints on transition parameters of
 models without any

---
 skillmodels/constraints.py         | 17 +++++++++++++++--
 skillmodels/likelihood_function.py |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/skillmodels/constraints.py b/skillmodels/constraints.py
index 8ae2663..ef71b22 100644
--- a/skillmodels/constraints.py
+++ b/skillmodels/constraints.py
@@ -6,7 +6,14 @@ import numpy as np
 import skillmodels.transition_functions as tf
 
 
-def get_constraints(dimensions, labels, anchoring_info, update_info, normalizations):
+def get_constraints(
+    dimensions,
+    labels,
+    anchoring_info,
+    update_info,
+    normalizations,
+    transition_info=None,
+):
     """Generate the estimagic constraints implied by the model specification.
 
     Args:
@@ -20,6 +27,9 @@ def get_constraints(dimensions, labels, anchoring_info, update_info, normalizati
             in the likelihood function. See :ref:`update_info`.
         normalizations (dict): Nested dictionary with information on normalized factor
             loadings and intercepts for each factor. See :ref:`normalizations`.
+        transition_info (dict): Information about transition functions. If given, no
+            constraints on transition parameters are generated for models that do not
+            have any transition parameters.
 
     Returns:
         list: List of estimagic compatible constraints.
@@ -29,7 +39,10 @@ def get_constraints(dimensions, labels, anchoring_info, update_info, normalizati
 
     constr += _get_normalization_constraints(normalizations, labels["latent_factors"])
     constr += _get_mixture_weights_constraints(dimensions["n_mixtures"])
-    constr += _get_stage_constraints(labels["stagemap"], labels["stages"])
+    stage_constr = _get_stage_constraints(labels["stagemap"], labels["stages"])
+    if transition_info and not any(transition_info["param_names"].values()):
+        stage_constr = [c for c in stage_constr if c["locs"][0][0] != "transition"]
+    constr += stage_constr
     constr += _get_constant_factors_constraints(labels)
     constr += _get_initial_states_constraints(
         dimensions["n_mixtures"], labels["latent_factors"]
diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index b846209..e8ccf28 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -152,6 +152,7 @@ def get_maximization_inputs(model_dict, data, jacobian_type="jacrev"):
         anchoring_info=model["anchoring"],
         update_info=model["update_info"],
         normalizations=model["normalizations"],
+        transition_info=model["transition_info"],
     )
 
     params_template = pd.DataFrame(columns=["value"], index=p_index)
-- 
2.43.0


From 2b25a35af462b0672d30cfe3b4eecfec3e9883ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:22 +0000
Subject: [PATCH 16/32] fix: datasets for simulation need no measurement
 columns

---
 skillmodels/process_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 65e678d..cf4eae8 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -36,8 +36,8 @@ def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
     n_obs = int(len(df) / len(labels["periods"]))
     # has to be done before entire rows are set to NaN due to missing controls
     observed_data = _generate_observed_factor_array(df, labels, n_obs)
-    df = _handle_controls_with_missings(df, labels["controls"], update_info)
     if purpose == "estimation":
+        df = _handle_controls_with_missings(df, labels["controls"], update_info)
         meas_data = _generate_measurements_array(df, update_info, n_obs)
     control_data = _generate_controls_array(df, labels, n_obs)
 
-- 
2.43.0


From 0c51834f3ea13c53d74fb28e380838da93c50f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 17/32] fix: a column called period is not mistaken for the
 index level

---
 skillmodels/process_data.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index cf4eae8..e244c83 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -81,6 +81,11 @@ def pre_process_data(df, periods):
     return df
 
 
+def _select_period(df, period):
+    # do not use query because df might have a column called "period"
+    return df[df.index.get_level_values("period") == period]
+
+
 def _add_copies_of_anchoring_outcome(df, anchoring_info):
     df = df.copy()
     for factor in anchoring_info["factors"]:
@@ -94,7 +99,7 @@ def _add_copies_of_anchoring_outcome(df, anchoring_info):
 def _check_data(df, update_info, labels, purpose):
     var_report = pd.DataFrame(index=update_info.index[:0], columns=["problem"])
     for period in labels["periods"]:
-        period_data = df.query(f"period == {period}")
+        period_data = _select_period(df, period)
         for cont in labels["controls"]:
             if cont not in period_data.columns or period_data[cont].isnull().all():
                 var_report.loc[(period, cont), "problem"] = "Variable is missing"
@@ -125,7 +130,7 @@ def _handle_controls_with_missings(df, controls, update_info):
     periods = update_info.index.get_level_values(0).unique().tolist()
     problematic_index = df.index[:0]
     for period in periods:
-        period_data = df.query(f"period == {period}")
+        period_data = _select_period(df, period)
         control_data = period_data[controls]
         meas_data = period_data[get_period_measurements(update_info, period)]
         problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)
@@ -143,21 +148,20 @@ def _handle_controls_with_missings(df, controls, update_info):
 def _generate_measurements_array(df, update_info, n_obs):
     arr = np.zeros((len(update_info), n_obs))
     for k, (period, var) in enumerate(update_info.index):
-        arr[k] = df.query(f"period == {period}")[var].to_numpy()
+        arr[k] = _select_period(df, period)[var].to_numpy()
     return jnp.array(arr)
 
 
 def _generate_controls_array(df, labels, n_obs):
     arr = np.zeros((len(labels["periods"]), n_obs, len(labels["controls"])))
     for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[labels["controls"]].to_numpy()
+        arr[period] = _select_period(df, period)[labels["controls"]].to_numpy()
     return jnp.array(arr)
 
 
 def _generate_observed_factor_array(df, labels, n_obs):
     arr = np.zeros((len(labels["periods"]), n_obs, len(labels["observed_factors"])))
     for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[
-            labels["observed_factors"]
-        ].to_numpy()
+        period_data = _select_period(df, period)
+        arr[period] = period_data[labels["observed_factors"]].to_numpy()
     return jnp.array(arr)
-- 
2.43.0


From ddfbc7868133f4d4b5c0a9c4646720d5c7739340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 18/32] fix: correlations of factors whose name is not a valid
 identifier

---
 skillmodels/correlation_heatmap.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 18471b4..d01447b 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -297,9 +297,9 @@ def _get_measurement_data_for_single_period(
     measurements = []
 
     for fac in latent_factors:
-        measurements += period_info.query(
-            f"{fac} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        measurements += period_info.loc[
+            period_info[fac] & (period_info["purpose"] == "measurement"), "variable"
+        ].to_list()
     for fac in observed_factors:
         measurements.append(fac)
     df = data.query(f"{update_info.index.names[0]}=={period}")[measurements]
@@ -397,9 +397,9 @@ def _get_quasi_factor_scores_data_for_single_period(
     period_info = update_info.loc[period].reset_index()
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        period_factor_measurements = period_info.loc[
+            period_info[factor] & (period_info["purpose"] == "measurement"), "variable"
+        ].to_list()
         df = data.query(f"{update_info.index.names[0]}=={period}")[
             period_factor_measurements
         ]
@@ -515,9 +515,9 @@ def _get_factor_scores_data_for_single_period(
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        period_factor_measurements = period_info.loc[
+            period_info[factor] & (period_info["purpose"] == "measurement"), "variable"
+        ].to_list()
         period_factor_measurements = [
             m for m in period_factor_measurements if m not in leave_out_meas
         ]
-- 
2.43.0


From 84557f6459f9228137f3e949f374620f09ba39ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 19/32] fix: contour plots show the density of each pair of
 values at its place

---
 skillmodels/visualize_factor_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index e2a0f51..2f13ebf 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -341,7 +341,7 @@ def bivariate_density_contours(
                 contour = go.Contour(
                     x=x[:, 0],
                     y=y[0, :],
-                    z=z,
+                    z=z.T,
                     line={"color": getattr(px.colors.qualitative, lines_colorscale)[i]},
                 )
                 fig.add_trace(contour)
-- 
2.43.0


From 39ec0c57a6ca99dfd0c65a2039b202fa4d15459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 20/32] fix: univariate densities of a list of states are not
 empty

---
 skillmodels/visualize_factor_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 2f13ebf..c23d718 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -212,7 +212,7 @@ def univariate_densities(
     )
     observed_states = _get_data_observed_factors(data, factors)
     df = _process_data(states, period, factors, observed_states)
-    scenarios = df["scenario"].unique()
+    scenarios = df["scenario"].unique().tolist()
     plots_dict = {}
     distplot_kwargs = _process_distplot_kwargs(
         show_curve,
-- 
2.43.0


From caa6c8d44c1160806db569582e73d4247f7fdd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 21/32] fix: univariate densities with histograms can be
 combined

---
 skillmodels/visualize_factor_distributions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index c23d718..8289fac 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -124,7 +124,13 @@ def combine_distribution_plots(
                     fig.add_trace(d, col=col + 1, row=row + 1)
                     fig.update_xaxes(title=factor_names[fac1], col=col + 1, row=row + 1)
                     fig.update_yaxes(title="Density", col=col + 1, row=row + 1)
-                    fig.update_traces(line_width=line_width, row=row + 1, col=col + 1)
+                    fig.update_traces(
+                        line_width=line_width,
+                        row=row + 1,
+                        col=col + 1,
+                        # histograms have no lines
+                        selector={"type": "scatter"},
+                    )
 
             else:
                 if surface_plots is not None:
-- 
2.43.0


From 7fab93fd808f237440ec2928b191cb640f5ec457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 22/32] fix: distribution plots match observed factors and
 states by individual and period

---
 skillmodels/visualize_factor_distributions.py | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 8289fac..b553b2e 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -10,6 +10,7 @@ from plotly.subplots import make_subplots
 from scipy.stats import gaussian_kde
 
 from skillmodels.filtered_states import get_filtered_states
+from skillmodels.process_data import pre_process_data
 from skillmodels.process_model import process_model
 from skillmodels.utils_plotting import get_layout_kwargs
 from skillmodels.utils_plotting import get_make_subplot_kwargs
@@ -216,7 +217,7 @@ def univariate_densities(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     scenarios = df["scenario"].unique().tolist()
     plots_dict = {}
@@ -320,7 +321,7 @@ def bivariate_density_contours(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data=data, factors=factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     contour_kwargs = _process_contour_kwargs(
@@ -435,7 +436,7 @@ def bivariate_density_surfaces(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     layout_kwargs = _process_layout_kwargs_3d(
@@ -628,14 +629,17 @@ def _get_factors(factors, observed_factors, model):
     return factors
 
 
-def _get_data_observed_factors(data, factors):
-    """Get data with observed factors if any."""
-    to_concat = []
-    for fac in factors:
-        if fac in data:
-            to_concat.append(data[fac])
-    if len(to_concat) >= 1:
-        observed_states = pd.concat(to_concat, axis=1)
+def _get_data_observed_factors(data, factors, model):
+    """Get data with observed factors if any.
+
+    The data is balanced and sorted, such that its rows and periods are those of states.
+
+    """
+    latent_factors = model["labels"]["latent_factors"]
+    observed = [fac for fac in factors if fac in data and fac not in latent_factors]
+    if observed:
+        balanced = pre_process_data(data, model["labels"]["periods"])
+        observed_states = balanced[observed]
     else:
         observed_states = None
     return observed_states
-- 
2.43.0


From 9fe90b58888c45159a19fbbe1b4c1dd6a3dffe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 23/32] fix: factor mappings passed to the plotting functions
 are not modified

---
 skillmodels/visualize_factor_distributions.py | 1 +
 skillmodels/visualize_transition_equations.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index b553b2e..918ee50 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -602,6 +602,7 @@ def _process_factor_mapping_dist(mapper, factors):
     if mapper is None:
         mapper = {fac: fac for fac in factors}
     else:
+        mapper = mapper.copy()
         for fac in factors:
             if fac not in mapper:
                 mapper[fac] = fac
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 023f1d5..829d3e9 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -473,6 +473,7 @@ def _process_factor_mapping_trans(factor_mapper, output_factors, input_factors):
     if factor_mapper is None:
         factor_mapper = {fac: fac for fac in all_factors}
     else:
+        factor_mapper = factor_mapper.copy()
         for fac in all_factors:
             if fac not in factor_mapper:
                 factor_mapper[fac] = fac
-- 
2.43.0


From 035e3339127e6a8a26968d5842367acb7b064c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 24/32] fix: custom transition functions do not have to depend
 on factors

---
 skillmodels/process_model.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index b335059..7861f6a 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -1,3 +1,4 @@
+import inspect
 from functools import partial
 
 import numpy as np
@@ -219,14 +220,14 @@ def _get_transition_info(model_dict, labels):
         functions=functions, targets=[f"__next_{fac}__" for fac in latent_factors]
     )
 
-    transition_function = jax_array_output(transition_function)
+    transition_function = jax_array_output(_take_params_and_states(transition_function))
 
     transition_function = vmap(transition_function, in_axes=(None, 0))
 
     individual_functions = {}
     for factor in latent_factors:
         func = concatenate_functions(functions=functions, targets=f"__next_{factor}__")
-        func = vmap(func, in_axes=(None, 0))
+        func = vmap(_take_params_and_states(func), in_axes=(None, 0))
         individual_functions[factor] = func
 
     out = {
@@ -238,6 +239,17 @@ def _get_transition_info(model_dict, labels):
     return out
 
 
+def _take_params_and_states(func):
+    """Make func a function of params and states, even if it only depends on params."""
+    arguments = list(inspect.signature(func).parameters)
+
+    def params_and_states_func(params, states):
+        kwargs = {"params": params, "states": states}
+        return func(**{name: kwargs[name] for name in arguments})
+
+    return params_and_states_func
+
+
 def _get_constant_function(pos):
     def constant(states, params):
         return tf.constant(states[pos], params)
-- 
2.43.0


From ac54fa9819304f3f520df65265dc54d55e89acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 25/32] fix: a data column called period is not mistaken for
 the index level in correlation tables

---
 skillmodels/correlation_heatmap.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index d01447b..15db075 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -274,6 +274,13 @@ def _get_measurement_data(data, update_info, periods, latent_factors, observed_f
     return df
 
 
+def _select_period(data, name, period):
+    # data might have a column that is called like the index level
+    if name in data.index.names:
+        return data[data.index.get_level_values(name) == period]
+    return data[data[name] == period]
+
+
 def _get_measurement_data_for_single_period(
     data, update_info, period, latent_factors, observed_factors
 ):
@@ -302,7 +309,7 @@ def _get_measurement_data_for_single_period(
         ].to_list()
     for fac in observed_factors:
         measurements.append(fac)
-    df = data.query(f"{update_info.index.names[0]}=={period}")[measurements]
+    df = _select_period(data, update_info.index.names[0], period)[measurements]
     return df
 
 
@@ -400,7 +407,7 @@ def _get_quasi_factor_scores_data_for_single_period(
         period_factor_measurements = period_info.loc[
             period_info[factor] & (period_info["purpose"] == "measurement"), "variable"
         ].to_list()
-        df = data.query(f"{update_info.index.names[0]}=={period}")[
+        df = _select_period(data, update_info.index.names[0], period)[
             period_factor_measurements
         ]
         df = (df - df.mean()) / df.std()
@@ -408,7 +415,7 @@ def _get_quasi_factor_scores_data_for_single_period(
         sr.name = f"{factor}"
         to_concat.append(sr)
     for factor in observed_factors:
-        df = data.query(f"{update_info.index.names[0]}=={period}")[factor]
+        df = _select_period(data, update_info.index.names[0], period)[factor]
         to_concat.append(df)
     df = pd.concat(to_concat, axis=1)
     return df
@@ -521,7 +528,7 @@ def _get_factor_scores_data_for_single_period(
         period_factor_measurements = [
             m for m in period_factor_measurements if m not in leave_out_meas
         ]
-        df = data.query(f"{update_info.index.names[0]}=={period}")[
+        df = _select_period(data, update_info.index.names[0], period)[
             period_factor_measurements
         ]
         for m in period_factor_measurements:
@@ -530,7 +537,7 @@ def _get_factor_scores_data_for_single_period(
         sr.name = f"{factor}"
         to_concat.append(sr)
     for factor in observed_factors:
-        df = data.query(f"{update_info.index.names[0]}=={period}")[factor]
+        df = _select_period(data, update_info.index.names[0], period)[factor]
         to_concat.append(df)
     df = pd.concat(to_concat, axis=1)
     return df
-- 
2.43.0


From 4f2d011eef36ade1a68a84e5df3dd95468cddedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 26/32] fix: derivatives of log_ces functions with respect to
 shares of zero are finite

---
 skillmodels/transition_functions.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/skillmodels/transition_functions.py b/skillmodels/transition_functions.py
index 1297029..2151ca4 100644
--- a/skillmodels/transition_functions.py
+++ b/skillmodels/transition_functions.py
@@ -85,12 +85,7 @@ def log_ces(states, params):
     gammas = params[:-1]
     scaling_factor = 1 / phi
 
-    # note: once the b argument is supported in jax.scipy.special.logsumexp, we can set
-    # b = gammas instead of adding the log of gammas to sigma_points * phi
-
-    # the log step for gammas underflows for gamma = 0, but this is handled correctly
-    # by logsumexp and does not raise a warning.
-    unscaled = jax.scipy.special.logsumexp(jnp.log(gammas) + states * phi)
+    unscaled = _weighted_logsumexp(states * phi, gammas)
     result = unscaled * scaling_factor
     return result
 
@@ -162,12 +157,7 @@ def log_ces_general(states, params):
     gammas = params[:n]
     sigmas = params[n : 2 * n]
 
-    # note: once the b argument is supported in jax.scipy.special.logsumexp, we can set
-    # b = gammas instead of adding the log of gammas to sigma_points * phi
-
-    # the log step for gammas underflows for gamma = 0, but this is handled correctly
-    # by logsumexp and does not raise a warning.
-    unscaled = jax.scipy.special.logsumexp(jnp.log(gammas) + states * sigmas)
+    unscaled = _weighted_logsumexp(states * sigmas, gammas)
     result = unscaled * tfp
     return result
 
@@ -175,3 +165,17 @@ def log_ces_general(states, params):
 def params_log_ces_general(factors):
     """Index tuples for the generalized log_ces production function."""
     return factors + [f"sigma_{fac}" for fac in factors] + ["tfp"]
+
+
+def _weighted_logsumexp(exponents, weights):
+    """Log of the weighted sum of exponentials.
+
+    In contrast to adding the log of the weights to the exponents, this is
+    differentiable with respect to weights that are zero.
+
+    """
+    maximum = jnp.max(exponents, where=weights > 0, initial=-jnp.inf)
+    maximum = jax.lax.stop_gradient(maximum)
+    # only terms with a weight of zero can be larger than the maximum
+    scaled = jnp.exp(jnp.minimum(exponents - maximum, 500))
+    return jnp.log(jnp.dot(weights, scaled)) + maximum
-- 
2.43.0


From e368bb250351d97dacd0cb72c1dd8d792c6a42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:38 +0000
Subject: [PATCH 27/32] fix: reduce_n_periods returns a specification that
 shares nothing with its input

---
 skillmodels/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/utilities.py b/skillmodels/utilities.py
index 03994df..700816e 100644
--- a/skillmodels/utilities.py
+++ b/skillmodels/utilities.py
@@ -241,7 +241,7 @@ def reduce_n_periods(model_dict, new_n_periods, params=None):
             out["factors"][factor]["measurements"], new_n_periods
         )
 
-        norminfo = model_dict["factors"][factor].get("normalizations", {})
+        norminfo = out["factors"][factor].get("normalizations", {})
         if "loadings" in norminfo:
             out["factors"][factor]["normalizations"][
                 "loadings"
-- 
2.43.0


From 27524523a766ce564b9e1b1be8ef5f41392324b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 28/32] fix: the likelihood and the simulation of models with
 only one period

---
 skillmodels/likelihood_function.py | 10 ++++++++++
 skillmodels/parse_params.py        |  8 +++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index e8ccf28..126acff 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -344,6 +344,16 @@ def _scan_body(
         update_kwargs,
     )
 
+    if len(pardict["shock_sds"]) == 0:
+        # models with only one period do not have a predict step
+        static_out = {"loglikes": loglikes, **info, "states": states}
+        new_state = {
+            "states": states,
+            "upper_chols": upper_chols,
+            "log_mixture_weights": log_mixture_weights,
+        }
+        return new_state, static_out
+
     # ==================================================================================
     # create arguments needed for predict step
     # ==================================================================================
diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index bf0bbe9..b78e1a0 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -201,10 +201,12 @@ def _get_transition_params(params, info, labels):
     """Create a list of arrays with transition equation parameters."""
     trans_params = {}
     t_info = info["transition"]
-    n_periods = len(labels["periods"])
+    # models with only one period have no transitions
+    n_transitions = len(labels["periods"]) - 1
     for factor in labels["latent_factors"]:
-        ilocs = t_info[factor]
-        trans_params[factor] = params[ilocs].reshape(n_periods - 1, -1)
+        values = params[t_info[factor]]
+        n_params = values.size // max(n_transitions, 1)
+        trans_params[factor] = values.reshape(n_transitions, n_params)
     return trans_params
 
 
-- 
2.43.0


From 60bec3ea76f1ef20fc6c62d5540404a0e73ecf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:40 +0000
Subject: [PATCH 29/32] fix: custom transition functions do not inherit
 constraints of pre-implemented functions with the same name

---
 skillmodels/process_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index 7861f6a..9e55563 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -202,7 +202,14 @@ def _get_transition_info(model_dict, labels):
                 )
             func_list.append(extract_params(spec, key=factor, names=names))
 
-    function_names = [f.__name__ for f in func_list]
+    # custom functions do not inherit the constraints of pre-implemented functions that
+    # happen to have the same name
+    function_names = []
+    for factor, func in zip(latent_factors, func_list):
+        name = func.__name__
+        if callable(model_dict["factors"][factor]["transition_function"]):
+            name = f"custom_{name}" if hasattr(tf, name) else name
+        function_names.append(name)
 
     functions = {
         f"__next_{fac}__": func for fac, func in zip(latent_factors, func_list)
-- 
2.43.0


From 1761ccab256e0a6854274b362aa2fae2423abc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:40 +0000
Subject: [PATCH 30/32] fix: debug information of models whose measurements are
 named by tuples

---
 skillmodels/process_debug_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index b166f78..b35dd72 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -97,7 +97,7 @@ def _create_post_update_states(filtered_states, factors, update_info):
         df["period"] = period
         n_obs, n_mixtures, _ = data.shape
         df["id"] = np.repeat(np.arange(n_obs), n_mixtures)
-        df["measurement"] = meas
+        df["measurement"] = [meas] * len(df)
         to_concat.append(df)
 
     post_states = pd.concat(to_concat)
@@ -168,7 +168,7 @@ def _process_residuals(residuals, update_info):
         df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
         df["period"] = period
         df["id"] = np.repeat(np.arange(n_obs), n_mixtures)
-        df["measurement"] = meas
+        df["measurement"] = [meas] * len(df)
         to_concat.append(df)
     return pd.concat(to_concat)
 
@@ -181,7 +181,7 @@ def _process_all_contributions(all_contributions, update_info):
     to_concat = []
     for (period, meas), contribs in zip(update_info.index, all_contributions):
         df = pd.DataFrame(data=contribs.reshape(-1, 1), columns=["contribution"])
-        df["measurement"] = meas
+        df["measurement"] = [meas] * len(df)
         df["period"] = period
         df["id"] = np.arange(len(df))
         to_concat.append(df)
-- 
2.43.0


From 0c80d3ba814a1db4b36e909a69583d74a3896d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 31/32] fix: extending parameters for edited models keeps
 missing values and bounds of existing parameters

---
 skillmodels/utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skillmodels/utilities.py b/skillmodels/utilities.py
index 700816e..bc01145 100644
--- a/skillmodels/utilities.py
+++ b/skillmodels/utilities.py
@@ -297,12 +297,14 @@ def _reduce_params(params, model_dict):
 def _extend_params(params, model_dict, fill_value):
     index = _get_params_index_from_model_dict(model_dict)
     out = params.reindex(index)
-    out["value"] = out["value"].fillna(fill_value)
+    # only fill what is new; existing values and bounds can be missing on purpose
+    is_new = ~index.isin(params.index)
+    out.loc[is_new, "value"] = fill_value
     if "lower_bound" in out:
-        out["lower_bound"] = out["lower_bound"].fillna(-np.inf)
+        out.loc[is_new, "lower_bound"] = -np.inf
 
     if "upper_bound" in out:
-        out["upper_bound"] = out["upper_bound"].fillna(np.inf)
+        out.loc[is_new, "upper_bound"] = np.inf
 
     return out
 
-- 
2.43.0


From e5b715cd6e3d68eebfd86cb127ad50fe1a5a7f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:40 +0000
Subject: [PATCH 32/32] fix: contour plots of more scenarios than colors

---
 skillmodels/visualize_factor_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 918ee50..385fa77 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -338,6 +338,7 @@ def bivariate_density_contours(
             if fac1 != fac2:
                 pairs.append((fac1, fac2))
     pairs = list(set(pairs))
+    colors = getattr(px.colors.qualitative, lines_colorscale)
     for pair in pairs:
         fig = go.Figure()
         for i, scenario in enumerate(df["scenario"].unique()):
@@ -349,7 +350,7 @@ def bivariate_density_contours(
                     x=x[:, 0],
                     y=y[0, :],
                     z=z.T,
-                    line={"color": getattr(px.colors.qualitative, lines_colorscale)[i]},
+                    line={"color": colors[i % len(colors)]},
                 )
                 fig.add_trace(contour)
                 fig.update_traces(**contour_kwargs)
-- 
2.43.0

