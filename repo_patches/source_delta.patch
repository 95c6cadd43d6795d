From bb7f2cd02202ba2758007ce5b969d7d8772884e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 01/51] fix: encode categorical columns on a copy, not on the
 caller's dataframe

---
 pyforecaster/forecaster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index b579883..c743195 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -29,6 +29,9 @@ def encode_categorical(func):
         if not hasattr(self, '_le'):
             self._le = {}
 
+        # do not write the encoded columns on the dataframe of the caller
+        x = x.copy()
+
         # Check if x contains columns that are not numbers and encode them
         for column in x.select_dtypes(include=['object', 'category']).columns:
             if column not in self._le:
-- 
2.43.0


From e67ef642551938aa9d6a727407e47e7caa3fb2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 02/51] fix: do not overwrite the first entry of the caller's
 nodes when forcing a single root

---
 pyforecaster/scenred.py       | 2 +-
 pyforecaster/tree_builders.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index 3e9f4b3..fa73c82 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -98,7 +98,7 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
     if pars['nodes'][0] != 1:
         print(
             'The first number of scenarios is not 1. This will cause an error on graph retrieval. I am forcing it to 1')
-        pars['nodes'][0] = 1
+        pars['nodes'] = np.hstack([1, np.ravel(pars['nodes'])[1:]])
 
     J = np.asanyarray(np.ones((n_steps, n_scen)), bool)
     L = np.zeros((n_scen, n_scen))
diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index ffe059b..7e5fab9 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -81,7 +81,7 @@ class ScenarioTree:
                              'additional initial node to the tree')
 
         if nodes_at_step[0] != 1:
-            nodes_at_step[0] = 1
+            nodes_at_step = np.hstack([1, nodes_at_step[1:]])
             self.logger.info('your initial nodes_at_step was not 1, forcing it to be')
         if self.base_tree == 'scenred':
             _, _, _, _, tree = scenred(scens, nodes=nodes_at_step)
-- 
2.43.0


From f59445c21d7f517660b58dc7e1fb14c03e25cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 03/51] fix: scoring does not relabel the columns of the
 caller's predictions

---
 pyforecaster/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 999cb54..96f77aa 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -129,7 +129,7 @@ def make_scorer(metric):
             if not isinstance(y_hat, pd.DataFrame):
                 y_hat = pd.DataFrame(y_hat, index=y.index, columns=y.columns)
             else:
-                y_hat.columns = y.columns
+                y_hat = y_hat.set_axis(y.columns, axis=1)
         # default behaviour is to reduce metric over forecasting horizon.
         # If just one step ahead is forecasted, metric is reduced on samples
         agg_index = np.zeros(len(y)) if len(y.shape)<2 else np.zeros(y.shape[1])
@@ -145,7 +145,7 @@ def summary_score(x, t, score=rmse, agg_index=None):
             if not isinstance(t, pd.DataFrame):
                 t = pd.DataFrame(t, index=x.index)
         elif isinstance(x, pd.DataFrame) and isinstance(t, pd.DataFrame):
-            x.columns = t.columns
+            x = x.set_axis(t.columns, axis=1)
         elif isinstance(x, pd.DataFrame):
             t = pd.DataFrame(t, index=x.index, columns=x.columns)
         elif isinstance(t, pd.DataFrame):
-- 
2.43.0


From d12edfa976735e3fd909525f4af807e681d2f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 04/51] fix: cat_encoding and add_holidays work on a copy of
 the caller's dataframes

---
 pyforecaster/formatter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index a2048fb..17b16fa 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -98,6 +98,7 @@ class Formatter:
         long_weekends = np.array([b.date() for b in long_weekends])
 
 
+        x = x.copy()
         x['holidays'] = 0
         x.loc[np.isin(x.index.date, bridges), 'holidays'] = 1
         x.loc[np.isin(x.index.date, long_weekends), 'holidays'] = 2
@@ -393,6 +394,7 @@ class Formatter:
             cat_features = self.auto_cat_feature_selection(df_train)
 
         self.logger.debug('encoding {} as categorical features'.format(cat_features))
+        df_train, df_test = df_train.copy(), df_test.copy()
         df_train[cat_features] = pd.Categorical(df_train[cat_features])
         df_test[cat_features] = pd.Categorical(df_test[cat_features])
 
-- 
2.43.0


From 9f365bd81a7dccd3b46aa401a13f9869105356b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 05/51] fix: denormalize does not write on the caller's
 quantiles

---
 pyforecaster/formatter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 17b16fa..3f4fb9b 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -313,6 +313,7 @@ class Formatter:
         if return_target:
             if isinstance(y.columns, pd.MultiIndex):
                 # we are normalizing a Multiindex Dataframe containing quantiles, indicated in level=1
+                y = y.copy()
                 for tau in y.columns.get_level_values(1).unique():
                     y_tau = y.loc[:, (slice(None), tau)]
                     y_tau = y_tau.droplevel(1, 1)
-- 
2.43.0


From f353b3e7cca2b46a4365956d8b1b859597a8a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 06/51] fix: sequential reduce_mem_usage does not write on the
 caller's dataframe

---
 pyforecaster/big_data_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 5f835ff..1ddda3e 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -178,6 +178,7 @@ def reduce_mem_usage(df, parallel=True, logger=None, use_ray=True):
         else:
             df = fdf_parallel(reduce_mem_usage_np, df, axis=1, use_ray=use_ray)
     else:
+        df = df.copy()
         for col in tqdm(df.columns):
             df[col] = reduce_mem_usage_series(df[col])
 
-- 
2.43.0


From 0c4089e3b6eae7e7f04dd4e8bf23ec303c315369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 07/51] fix: hyperparameter trials do not write on the shared
 init kwargs

---
 pyforecaster/forecasting_models/holtwinters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 56508e3..90eaeff 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -29,7 +29,7 @@ def hankel(x, n, generate_me=None):
 
 def fit_sample(pars_dict,model_class, model_init_kwargs, x, return_model=False):
     targets_names = model_init_kwargs['targets_names'] if 'targets_names' in model_init_kwargs.keys() else None
-    model_init_kwargs.update(pars_dict)
+    model_init_kwargs = {**model_init_kwargs, **pars_dict}
     model = model_class(**model_init_kwargs)
     if targets_names is not None and model_class.__name__ not in ["HoltWintersMulti", "FK_multi"]:
         subscores = []
@@ -72,7 +72,7 @@ def tune_hyperpars(x, model_class, hyperpars, n_trials=100, return_model=True, p
             trial[k] = sample
         pars_cartridge.append(trial)
 
-    model_init_kwargs.update({'optimize_hyperpars':False})
+    model_init_kwargs = {**model_init_kwargs, 'optimize_hyperpars': False}
     model_init_kwargs_0 = deepcopy(model_init_kwargs)
 
 
-- 
2.43.0


From 6ece31ab984fdfa9be96d9b280ba33ff533d9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 08/51] fix: plotting does not write on the caller's signals
 and scores

---
 pyforecaster/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/plot_utils.py b/pyforecaster/plot_utils.py
index 356bfa1..63d315b 100644
--- a/pyforecaster/plot_utils.py
+++ b/pyforecaster/plot_utils.py
@@ -76,6 +76,7 @@ def plot_summary_score(df, width=4.5, height=3, x_label='step ahead [-]', y_labe
                        colorbar_label='score',  b=0.15, l=0.2, w=0.22, font_scale=0.8, interval_to_ints=True,
                        numeric_xticks=False, rotation_deg=None, ax=None, label_specs=None, **kwargs):
 
+    df = df.copy()
     if interval_to_ints and np.all([isinstance(i, pd.Interval) for i in df.index]):
         int_intervals = [pd.Interval(i.left.astype(int), i.right.astype(int)) for i in df.index]
         df.index = int_intervals
@@ -283,7 +284,7 @@ def plot_quantiles(signals, qs, labels, n_rows=50, interval=1, step=1, repeat=Fa
     n_rows = np.minimum(int(np.floor(signals[0].shape[0]/step)), n_rows)
     qs = ScenarioGenerator().quantiles_to_numpy(qs) if isinstance(qs, pd.DataFrame) else qs
     fig, ax = plt.subplots(1, **kwargs)
-    signals = signals if isinstance(signals, list) else [signals]
+    signals = list(signals) if isinstance(signals, list) else [signals]
     t = np.arange(signals[0].shape[1])
     lines= []
     for i, s in enumerate(signals):
-- 
2.43.0


From 18434eee0f9fb8a3976c1f07d7b7953d00324e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 09/51] fix: cat_encoding encodes the values of the categorical
 columns, not their names

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 3f4fb9b..45cb163 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -396,8 +396,8 @@ class Formatter:
 
         self.logger.debug('encoding {} as categorical features'.format(cat_features))
         df_train, df_test = df_train.copy(), df_test.copy()
-        df_train[cat_features] = pd.Categorical(df_train[cat_features])
-        df_test[cat_features] = pd.Categorical(df_test[cat_features])
+        df_train[cat_features] = df_train[cat_features].astype('category')
+        df_test[cat_features] = df_test[cat_features].astype('category')
 
         encoder = encoder(cols=cat_features)
         encoder.fit(df_train[cat_features], df_train[target])
-- 
2.43.0


From 8834ae6247c49ec3f1d3f20bf39d5ba20eaeb94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 10/51] fix: predicting with FK does not grow the coefficients
 history used by fit

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index c1ce966..35444af 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -400,9 +400,9 @@ class FK(StatefulForecaster):
                                                                self.n_harmonics_int, w)
         if fit:
             self.__setstate__({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.coeffs_t_history = coeffs_t_history.T
 
         preds = preds + preds_updated
-        self.coeffs_t_history = coeffs_t_history.T
 
         if return_coeffs:
             return np.vstack(preds[1:]), coeffs_t_history.T
-- 
2.43.0


From 8b7fc8b4009e950475dd729dcb00c0a3bfdc6fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 11/51] fix: categorical encoders are learnt when fitting only,
 and anew at every fit

---
 pyforecaster/forecaster.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index c743195..2becd2f 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -25,8 +25,9 @@ def _validate_max_scengen_rows(value: Optional[Union[int, np.integer]]):
 
 def encode_categorical(func):
     def wrapper(self, x: pd.DataFrame, *args, **kwargs):
-        # Initialize a protected dictionary to store encoders if it doesn't exist yet
-        if not hasattr(self, '_le'):
+        # Fitting learns the encoders of the current training set, all the other methods only use them
+        fitting = func.__name__ == 'fit'
+        if fitting or not hasattr(self, '_le'):
             self._le = {}
 
         # do not write the encoded columns on the dataframe of the caller
@@ -34,13 +35,15 @@ def encode_categorical(func):
 
         # Check if x contains columns that are not numbers and encode them
         for column in x.select_dtypes(include=['object', 'category']).columns:
-            if column not in self._le:
-                # Create and fit a new encoder for the column if it's the first encounter
+            if fitting:
+                # Create and fit a new encoder for the column
                 le = LabelEncoder()
                 x[column] = le.fit_transform(x[column].astype(str))
                 self._le[column] = le  # Store the encoder for future use
             else:
                 # Use the existing encoder to transform the data
+                if column not in self._le:
+                    raise ValueError(f"Column '{column}' was not categorical when the model was fitted.")
                 le = self._le[column]
                 # Check for unseen categories
                 unique_values = set(x[column].astype(str))
-- 
2.43.0


From aef70cbfbac112c15a07444badb96b97c3303af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:53 +0000
Subject: [PATCH 12/51] fix: refitting LGBForecaster discards the boosters of
 the previous fit

---
 pyforecaster/forecaster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 2becd2f..9e3ecf9 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -396,6 +396,7 @@ class LGBForecaster(ScenarioGenerator):
 
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.m = []
         for i in tqdm(range(y.shape[1]), 'fitting LGB models'):
             lgb_data = Dataset(x, y.iloc[:, i].values.ravel())
             m = train(self.lgb_pars, lgb_data, num_boost_round=self.lgb_pars['n_estimators'])
-- 
2.43.0


From 614e8d32d179f87b7417107aaaef629c90413be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:53 +0000
Subject: [PATCH 13/51] fix: refitting LGBMHybrid and LGBEnergyAware discards
 the boosters of the previous fit

---
 pyforecaster/forecasting_models/gradientboosters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 434bedb..b6fc14d 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -82,6 +82,7 @@ class LGBMHybrid(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=cpu_count()-2) as executor:
                 self.models = list(executor.map(partial(self.fit_single, x=x, y=y, lgb_pars=lgb_pars), np.arange(self.n_single)))
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                                 logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
@@ -177,6 +178,7 @@ class LGBEnergyAware(LGBMHybrid):
         lgb_pars = self.get_lgb_pars()
         x, y, x_val, y_val = self.train_val_split(x, y)
         e_unbalance = pd.DataFrame()
+        self.models = []
         for i in tqdm(range(self.n_single)):
             x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                             logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
@@ -195,7 +197,8 @@ class LGBEnergyAware(LGBMHybrid):
             preds_i_no_ctrl = self.models[i].predict(x_i_no_ctrl)
             e_unbalance = pd.concat([e_unbalance, pd.Series(preds_i_no_ctrl-preds_i, index=x_i.index)], axis=1)
 
-        super().fit(x_val, y_val)
+        # the single step models are already fitted: only the post-fit phase is needed on the validation set
+        ScenarioGenerator.fit(self, x_val, y_val)
         return self
 
     def predict(self, x, **kwargs):
-- 
2.43.0


From 6916a1c488c0b8d9b0b62e35694f8cd783763486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:53 +0000
Subject: [PATCH 14/51] fix: refitting QRF discards the forests of the previous
 fit

---
 pyforecaster/forecasting_models/randomforests.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 59b57d5..28d3c13 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -105,6 +105,7 @@ class QRF(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 self.models = [i for i in tqdm(executor.map(partial(self._fit, x=x, y=y, sample_weight=sample_weight), range(self.n_single)),total=self.n_single)]
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 model = self._fit(i, x, y, sample_weight=sample_weight)
                 self.models.append(model)
-- 
2.43.0


From 8f94b910382a8677f501bec2ac3cc92fbe58fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 15/51] fix: refitting a random Fourier features model draws
 matrices for the new features

---
 pyforecaster/forecasting_models/random_fourier_features.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 487da6d..ac19906 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -208,6 +208,9 @@ class Base:
         self.mat = get_matrix_generator(rand_type, std_kernel, dim_kernel)
         self.W   = W
         self.b   = b
+        # matrices given by the user, kept at every fit
+        self.W_given = W
+        self.b_given = b
 
     def conv(self, x, index=None):
         """
@@ -287,6 +290,7 @@ class RandomFFRegressor(Base):
         Returns:
             (rfflearn.cpu.Regression): Fitted estimator.
         """
+        self.W, self.b = self.W_given, self.b_given
         self.set_weight(x.shape[1])
         self.reg.fit(self.conv(x), y, **args)
         self.target_cols = y.columns
-- 
2.43.0


From a3df32366948d97da3c347179f217f4dc367d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 16/51] fix: refitting BrutalRegressor discards the weak
 learners of the previous fit

---
 pyforecaster/forecasting_models/random_fourier_features.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index ac19906..5fdaa50 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -94,6 +94,7 @@ class BrutalRegressor:
         if plot:
             plt.figure()
         err = y.copy().values
+        self.best_pars = []
         for i in tqdm(range(self.n_iter)):
             rand_idx = np.random.choice(x.shape[0], int(self.bootstrap_fraction*x.shape[0]), replace=True)
             best_pars = self.one_level_fit(x[rand_idx], err[rand_idx])
-- 
2.43.0


From ae2ca9dfba8f63e98257122671835d626d0303a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 17/51] fix: refitting a neural network with nothing to
 normalize discards the input scaler

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 33089ee..0f6726c 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -341,6 +341,7 @@ class NN(ScenarioGenerator):
     def fit(self, inputs, targets, n_epochs=None, savepath_tr_plots=None, stats_step=None, rel_tol=None):
         self.to_be_normalized = [c for c in inputs.columns if
                                  c not in self.unnormalized_inputs] if self.unnormalized_inputs is not None else inputs.columns
+        self.input_scaler = None
         if len(self.to_be_normalized) > 0:
             self.input_scaler = (StandardScaler(with_mean=self.subtract_mean_when_normalizing)
                                  .set_output(transform='pandas').fit(inputs[self.to_be_normalized]))
-- 
2.43.0


From edeade79ebd7ca22e3d566ce5037c308ea58eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 18/51] fix: refitting LSTM_Forecaster starts from a new
 network

---
 pyforecaster/forecasting_models/neural_models/LSTM_bidir.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py b/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
index 3485f03..31ad3f1 100644
--- a/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
+++ b/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
@@ -78,8 +78,7 @@ class LSTM_Forecaster(ScenarioGenerator):
         X_exog_train, X_exog_val = X_exog[:split_index], X_exog[split_index:]
         y_train, y_val = y[:split_index], y[split_index:]
 
-        if self.model is None:
-            self.model = self._build_model(X_exog.shape[1])
+        self.model = self._build_model(X_exog.shape[1])
 
         early_stop = keras.callbacks.EarlyStopping(
             monitor='val_loss',
-- 
2.43.0


From 7c0e8132e442502eac1073f18ff3d05a8f21a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 19/51] fix: quantile predictions with
 conditional_to_hour=False

---
 pyforecaster/forecaster.py                     | 18 ++++++++++++------
 .../forecasting_models/gradientboosters.py     |  4 +---
 .../forecasting_models/neural_models/INN.py    |  4 +---
 .../neural_models/base_nn.py                   |  3 +--
 .../random_fourier_features.py                 |  8 ++------
 5 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 9e3ecf9..cb44033 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -214,6 +214,16 @@ class ScenarioGenerator(BaseEstimator):
             return err_distr
         return np.quantile(errs, self.q_vect, axis=0).T
 
+    def _add_err_distr(self, preds: np.ndarray, index):
+        """Add the error distribution to ``preds`` (n_obs, n_steps, n_quantiles): the one of the hour of each row, or
+        the unconditional one."""
+        if self.conditional_to_hour:
+            for h in np.unique(index.hour):
+                preds[index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+        else:
+            preds += np.expand_dims(self.err_distr, 0)
+        return preds
+
     def fit(self, x:pd.DataFrame, y:pd.DataFrame):
         y = self.anti_transform(x, y)
         self.target_cols = y.columns
@@ -356,9 +366,7 @@ class LinearForecaster(ScenarioGenerator):
 
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
+        return self._add_err_distr(preds, x.index)
 
 
 class LGBForecaster(ScenarioGenerator):
@@ -415,8 +423,6 @@ class LGBForecaster(ScenarioGenerator):
 
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
+        return self._add_err_distr(preds, x.index)
 
 
diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index b6fc14d..78bd9f3 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -168,9 +168,7 @@ class LGBMHybrid(ScenarioGenerator):
 
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
+        return self._add_err_distr(preds, x.index)
 
 
 class LGBEnergyAware(LGBMHybrid):
diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 375d32d..0c3a3b5 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -225,9 +225,7 @@ class CausalInvertibleNN(NN):
 
     def predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
+        return self._add_err_distr(preds, x.index)
 
 
 def invert(params, y, model):
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 0f6726c..09ee80f 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -502,8 +502,7 @@ class NN(ScenarioGenerator):
                 preds[:, :, i] += sigma_hat * np.sqrt(2) * erfinv(2*q-1)
         else:
             preds = np.expand_dims(self.predict(inputs), -1) * np.ones((1, 1, len(self.q_vect)))
-            for h in np.unique(inputs.index.hour):
-                preds[inputs.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds = self._add_err_distr(preds, inputs.index)
         return preds
 
     def get_normalized_inputs(self, inputs, target=None):
diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 5fdaa50..00ffa43 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -358,9 +358,7 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
         return y_hat
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
+        return self._add_err_distr(preds, x.index)
 
 
 class AdditiveRFFRegression(ScenarioGenerator):
@@ -399,6 +397,4 @@ class AdditiveRFFRegression(ScenarioGenerator):
         return y_hat
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
\ No newline at end of file
+        return self._add_err_distr(preds, x.index)
\ No newline at end of file
-- 
2.43.0


From e7a6da3f93c13742a99d40d9ac3dc354516263bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 20/51] fix: QRF quantile tensor follows the target-major order
 of its dataframe

---
 pyforecaster/forecasting_models/randomforests.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 28d3c13..79a3399 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -184,14 +184,6 @@ class QRF(ScenarioGenerator):
                                                         period=period, keep_last_n_lags=keep_last_n_lags, keep_last_seconds=keep_last_seconds,
                                                         tol_period=tol_period)
 
-    @staticmethod
-    def quantiles_to_numpy(q_hat: pd.DataFrame):
-        n_taus = len(q_hat.columns.get_level_values(1).unique())
-        q_hat = q_hat.values
-        q_hat = np.reshape(q_hat, (q_hat.shape[0], n_taus, -1))
-        q_hat = np.swapaxes(q_hat, 1, 2)
-        return q_hat
-
     def predict_quantiles(self, x, dataframe=True, **kwargs):
         preds = self.predict(x, quantiles=list(kwargs['quantiles']) if 'quantiles' in kwargs else self.q_vect)
         if dataframe is False:
-- 
2.43.0


From 54949d3eb9ae75408341663f5364080a5803a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:01 +0000
Subject: [PATCH 21/51] fix: QRF forecasts with a single target or a single
 step in the global model

---
 pyforecaster/forecasting_models/randomforests.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 79a3399..4cf365e 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -142,14 +142,14 @@ class QRF(ScenarioGenerator):
         preds = np.dstack(preds)
         if 'quantiles' in kwargs:
             if str(kwargs['quantiles']) == 'mean':
-                preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+                preds = pd.DataFrame(preds[:, 0, :], index=x.index, columns=self.target_cols)
             else:
                 if len(preds.shape) == 2:
                     preds = np.expand_dims(preds, 0)
                 preds = np.swapaxes(preds, 1, 2)
                 preds = self.quantiles_to_df(preds, index=x.index, q_vect=kwargs['quantiles'])
         else:
-            preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+            preds = pd.DataFrame(preds[:, 0, :], index=x.index, columns=self.target_cols)
         y_hat = self.anti_transform(x, preds)
         return y_hat
 
@@ -168,7 +168,8 @@ class QRF(ScenarioGenerator):
         if len(preds.shape) == 1:
             preds = np.expand_dims(preds, 1)
         if len(preds.shape) == 2:
-            preds = np.expand_dims(preds, 1)
+            # (n_obs, n_quantiles) if there is just one step ahead, (n_obs, n_steps) otherwise
+            preds = np.expand_dims(preds, 2 if self.n_multistep == 1 else 1)
         else:
             preds = np.swapaxes(preds, 1, 2)
         return preds
-- 
2.43.0


From 99f8d933027b0288836995f9799069886e856c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 22/51] fix: HoltWinters error distribution is no longer all
 NaN

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 90eaeff..a090e05 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -207,7 +207,7 @@ class HoltWinters(ScenarioGenerator):
         # concat past inputs and last row of target
         self.reinit(y)
         self.target_cols = ['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)]
-        resid = pd.DataFrame(resid, index=x_pd.index[:-self.n_sa], columns=self.target_cols)
+        resid = pd.DataFrame(resid.values, index=x_pd.index[:-self.n_sa], columns=self.target_cols)
         self.err_distr = np.quantile(resid, self.q_vect, axis=0).T
         return self
 
-- 
2.43.0


From 773b7f6a80cd934858aa5592e967146613098869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 23/51] fix: HoltWintersMulti error distribution covers all the
 steps ahead

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index a090e05..1007b84 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -437,7 +437,7 @@ class HoltWintersMulti(ScenarioGenerator):
             m.fit(x_pd, y_pd)
             selection = np.arange(k, m.err_distr.shape[0])
             err_distr[selection, :] = m.err_distr[selection, :]
-            k = m.err_distr.shape[1]
+            k = m.err_distr.shape[0]
 
         # reinit HW
         # concat past inputs and last row of target
-- 
2.43.0


From eff834a001e13d594198837145ffdb3075a3b719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 24/51] fix: quantile columns of HoltWintersMulti and FK_multi
 carry the labels of their predictions

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 +-
 pyforecaster/forecasting_models/holtwinters.py          | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 35444af..4062874 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -513,7 +513,7 @@ class FK_multi(StatefulForecaster):
         # hankelize the target
         hw_target = hankel(x_pd[self.target_name].values[1:], self.n_sa)
         resid = hw_target - preds
-        self.target_cols = ['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)]
+        self.target_cols = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa + 1)]
         resid = pd.DataFrame(resid, index=x_pd.index[:-self.n_sa], columns=self.target_cols)
         self.err_distr = np.quantile(resid, self.q_vect, axis=0).T
         return self
diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 1007b84..51396e6 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -443,6 +443,7 @@ class HoltWintersMulti(ScenarioGenerator):
         # concat past inputs and last row of target
         self.reinit(x_pd[self.target_name].values)
         self.err_distr = err_distr
+        self.target_cols = ['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)]
 
         return self
 
-- 
2.43.0


From effa00369e96c8a8955c6e28b42d0dd398e7bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:35 +0000
Subject: [PATCH 25/51] fix: DiscreteDistr and ExponentialSmoothing label their
 predictions

---
 pyforecaster/forecasting_models/benchmarks.py          | 2 +-
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index f411510..51fd7f4 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -115,7 +115,7 @@ class DiscreteDistr(ScenarioGenerator):
         # infer sampling time
         sampling_time = x.index.drop_duplicates().diff().median()
         # Create a new column for the time within a day (hours and minutes)
-        time_of_day = pd.Series(x.index.floor(sampling_time).time)
+        time_of_day = pd.Series(x.index.floor(sampling_time).time, index=x.index)
 
         # retrieve the distribution for the time of day
         y_hat = {}
diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index b03e188..470f081 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -65,5 +65,6 @@ class ExponentialSmoothing(StatsModelsWrapper):
         x_pd = x_pd.asfreq(pd.infer_freq(x_pd.index))
         y = x_pd[self.target_name]
         y_hat = get_forecasts(self.model, y, n_step_ahead=self.n_sa, x_te=None)
+        y_hat.columns = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa+1)]
         return y_hat
 
-- 
2.43.0


From 659ff989544f760617aeda8d6bf7ee804850c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 26/51] fix: predict_scenarios with additional_node

---
 pyforecaster/forecaster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index cb44033..de318ec 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -291,6 +291,8 @@ class ScenarioGenerator(BaseEstimator):
         quantiles = self.predict_quantiles(x, dataframe=False, **predict_q_kwargs)
         scenarios = self.scengen.predict_scenarios(quantiles, n_scen=n_scen, x=x, random_state=random_state)
         q_from_scens = np.rollaxis(np.quantile(scenarios, self.q_vect, axis=-1), 0, 3)
+        # the additional node, if present, comes before the steps ahead
+        q_from_scens = q_from_scens[:, -quantiles.shape[1]:, :]
         mean_abs_dev = np.abs(q_from_scens - quantiles).mean(axis=0).mean(axis=0)
         self.logger.info('mean abs deviations of re-estimated quantiles from scenarios: {}'.format(mean_abs_dev))
         return scenarios
-- 
2.43.0


From 28bf76f73c885a2c224bb3d2d29bdfbb273adde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 27/51] fix: the test windows of an n_k-fold time
 cross-validation split the index in n_k

date_range(start, end, n_k) delimits n_k - 1 windows: with n_k=2 both folds tested the whole index and trained on nothing, otherwise the test windows overlapped.
---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 45cb163..f5e5104 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -441,7 +441,7 @@ class Formatter:
         assert n_k >= 2, 'n_k must be bigger than 2, passed: {}'.format(n_k)
         t_start = time_index[0]
         t_end = time_index[-1]
-        split_times = pd.date_range(t_start, t_end, n_k)
+        split_times = pd.date_range(t_start, t_end, n_k + 1)
         time_window = split_times[1]-split_times[0]
         shift_times = pd.date_range(t_start, t_end - time_window, n_k * multiplier_factor)
 
-- 
2.43.0


From a026b872606125f7140455e943819b92eb7afc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 28/51] fix: metadata of binned transformers describes the
 generated columns in their order

With agg_bins the rows of the metadata were not in the order of the generated columns: function, lag, start_time and end_time were those of other columns as soon as there were several functions or lags.
---
 pyforecaster/formatter.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index f5e5104..8b4111c 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -825,21 +825,17 @@ class Transformer:
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
                 metadata_n['end_time'] = - spacing_time * lags_aux + dt
             else:
-                lags_expanded = np.outer(lag_steps, np.ones(len(self.agg_bins) - 1)).ravel()
-                lags_and_fun =product(function_names, lags_expanded)
-                metadata_n = pd.DataFrame(lags_and_fun, columns=['function', 'lag'], index=trans_names)
-                metadata_n['aggregation_time'] = self.agg_freq
-                metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
+                # one row per generated column, in the order of trans_names
+                bins = np.arange(len(self.agg_bins) - 1)
                 if self.nested:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
+                    lag_fun_bin = [(l, f, i) for l, i, f in product(lag_steps, bins, function_names)]
                 else:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for name, i, l in
-                                                product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for name, i, l in
-                                              product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
+                    lag_fun_bin = [(l, f, i) for l, f, i in product(lag_steps, function_names, bins)]
+                metadata_n = pd.DataFrame([(f, l) for l, f, i in lag_fun_bin], columns=['function', 'lag'], index=trans_names)
+                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
+                metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for l, f, i in lag_fun_bin]
+                metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1] + l) + dt for l, f, i in lag_fun_bin]
             metadata_n['name'] = name
             metadata_n['relative_lags'] = self.relative_lags
 
-- 
2.43.0


From 1be4d0899884347262f1df03c3519c4ad83a6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 29/51] fix: transform does not overwrite the transformer's
 aggregation frequency

---
 pyforecaster/formatter.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 8b4111c..1a80782 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -739,10 +739,12 @@ class Transformer:
             # infer sampling time
             dt = self.dt if self.dt is not None else x[name].index.to_series().diff().median()
 
-            if self.agg_freq is None:
-                self.agg_freq = dt
-            elif isinstance(self.agg_freq, (np.int8, np.int32, np.int64, int)):
-                self.agg_freq *= dt
+            # the aggregation frequency for this data; the attribute keeps the one asked for
+            agg_freq = self.agg_freq
+            if agg_freq is None:
+                agg_freq = dt
+            elif isinstance(agg_freq, (np.int8, np.int32, np.int64, int)):
+                agg_freq = agg_freq * dt
 
             # agg_steps = number of steps on which aggregation stats are retrieved
             # agg_time = time range on which aggregation stats are retrieved
@@ -751,7 +753,7 @@ class Transformer:
                 agg_steps = np.max(self.agg_bins)-np.min(self.agg_bins)
                 spacing_time = dt
             else:
-                agg_steps = int(pd.Timedelta(self.agg_freq) / dt)
+                agg_steps = int(pd.Timedelta(agg_freq) / dt)
                 spacing_time = dt * agg_steps if self.relative_lags else dt
 
             trans_names = [name]
@@ -759,11 +761,11 @@ class Transformer:
             if self.functions:
                 function_names = [get_fun_name(s) for s in self.functions]
                 if self.agg_bins is None:
-                    hr_agg_freq = self.agg_freq if isinstance(self.agg_freq, str) else hr_timedelta(self.agg_freq.to_timedelta64())
+                    hr_agg_freq = agg_freq if isinstance(agg_freq, str) else hr_timedelta(agg_freq.to_timedelta64())
                     trans_names = ['{}_{}_{}'.format(name, hr_agg_freq, p) for p in function_names]
 
                     if not simulate:
-                        d = d.rolling(self.agg_freq, min_periods=agg_steps).agg(self.functions)
+                        d = d.rolling(agg_freq, min_periods=agg_steps).agg(self.functions)
                         d.columns = trans_names
                 else:
                     if not simulate:
@@ -819,7 +821,7 @@ class Transformer:
 
                 metadata_n = pd.DataFrame(lags_and_fun, columns=['lag', 'function'], index=trans_names)
 
-                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['aggregation_time'] = agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
 
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
@@ -832,7 +834,7 @@ class Transformer:
                 else:
                     lag_fun_bin = [(l, f, i) for l, f, i in product(lag_steps, function_names, bins)]
                 metadata_n = pd.DataFrame([(f, l) for l, f, i in lag_fun_bin], columns=['function', 'lag'], index=trans_names)
-                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['aggregation_time'] = agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
                 metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for l, f, i in lag_fun_bin]
                 metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1] + l) + dt for l, f, i in lag_fun_bin]
-- 
2.43.0


From 4c8faea6ed9e22773848809394333685578fe844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 30/51] fix: QRF passes max_depth to the forest

---
 pyforecaster/forecasting_models/randomforests.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 4cf365e..dab9712 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -71,6 +71,7 @@ class QRF(ScenarioGenerator):
 
         self.qrf_pars = {
             "n_estimators":n_estimators,
+            "max_depth": max_depth,
             "bootstrap": bootstrap,
             "oob_score": oob_score,
             "n_jobs": n_jobs,
-- 
2.43.0


From 46a167973ee51eee2abe66e63a1ed85b9711d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 31/51] fix: CausalInvertibleNN uses n_hidden_y and
 scaling_factor

---
 pyforecaster/forecasting_models/neural_models/INN.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 0c3a3b5..7c1b8e2 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -130,7 +130,7 @@ class CausalInvertibleNN(NN):
         self.set_attr({"names_exogenous": names_exogenous,
                        "end_to_end": end_to_end,
                        "n_prediction_layers": n_prediction_layers,
-                       "num_embedding_layers": n_hidden_y,
+                       "n_hidden_y": n_hidden_y,
                        "n_exogenous":len(names_exogenous) if names_exogenous is not None else 0,
                        "scaling_factor": scaling_factor})
         assert n_in - self.n_exogenous >= n_out, ('the history length must be greater than the forecast horizon to '
@@ -148,7 +148,7 @@ class CausalInvertibleNN(NN):
                                                     features_embedding=self.n_hidden_x - self.n_exogenous,
                                                     n_exogenous_features=self.n_exogenous,
                                                     n_out=self.n_out, scaling_factor=self.scaling_factor) if (self.end_to_end in ['full', 'quasi']) \
-            else CausalInvertibleModule(num_layers=self.n_layers, features=self.n_hidden_x)
+            else CausalInvertibleModule(num_layers=self.n_layers, features=self.n_hidden_x, scaling_factor=self.scaling_factor)
 
         self.predict_batch = vmap(jitting_wrapper(predict_batch, self.model), in_axes=(None, 0))
         if self.end_to_end == 'quasi':
-- 
2.43.0


From 48dbdf7d057dc26e6008c47f3fa832a2208c4d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 32/51] fix: LSTM_Forecaster hands its scenario options to the
 base class

---
 pyforecaster/forecasting_models/neural_models/LSTM_bidir.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py b/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
index 31ad3f1..1e1c2af 100644
--- a/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
+++ b/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
@@ -12,7 +12,9 @@ from pyforecaster.forecaster import ScenarioGenerator
 class LSTM_Forecaster(ScenarioGenerator):
     def __init__(self, target_name, lstm_history, pred_horizon=1, q_vect=None, nodes_at_step=None, val_ratio=None, logger=None, n_scen_fit=100,
                  additional_node=False, formatter=None, conditional_to_hour=True, **scengen_kwgs):
-        super().__init__(q_vect, val_ratio=val_ratio, nodes_at_step=nodes_at_step, **scengen_kwgs)
+        super().__init__(q_vect, val_ratio=val_ratio, nodes_at_step=nodes_at_step, logger=logger,
+                         n_scen_fit=n_scen_fit, additional_node=additional_node, formatter=formatter,
+                         conditional_to_hour=conditional_to_hour, **scengen_kwgs)
         self.target_name = target_name
         self.lstm_history = lstm_history
         self.pred_horizon = pred_horizon
-- 
2.43.0


From 2bd2a31de508d9c0ac53e692148429642ab82e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 33/51] fix: LGBMHybrid and QRF keep the logger they are given

---
 pyforecaster/forecasting_models/gradientboosters.py | 3 ++-
 pyforecaster/forecasting_models/randomforests.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 78bd9f3..8c8d5b7 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -52,7 +52,8 @@ class LGBMHybrid(ScenarioGenerator):
         self.multi_step_model = None
         self.n_multistep = None
         self.formatter = formatter
-        self.logger = get_logger()
+        if scengen_kwgs.get('logger') is None:
+            self.logger = get_logger()
         self.metadata_features = metadata_features if metadata_features is not None\
             else []
         self.keep_last_n_lags = keep_last_n_lags
diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index dab9712..12c62f4 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -45,7 +45,8 @@ class QRF(ScenarioGenerator):
         self.models = []
         self.multi_step_model = None
         self.n_multistep = None
-        self.logger = get_logger()
+        if scengen_kwgs.get('logger') is None:
+            self.logger = get_logger()
         self.metadata_features = metadata_features if metadata_features is not None\
             else []
         self.keep_last_n_lags = keep_last_n_lags
-- 
2.43.0


From 5d6ff326b61c4bb8b66c4fe80cc173f477200c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 34/51] fix: HoltWintersMulti applies its constraints to the
 submodels

---
 pyforecaster/forecasting_models/holtwinters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 51396e6..3d69847 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -412,6 +412,7 @@ class HoltWintersMulti(ScenarioGenerator):
         self.gammas_2 = np.ones(len(self.models_periods)) * 0.01 if gammas_2 is None else gammas_2
         self.optimize_hyperpars = optimize_hyperpars
         self.target_name = target_name
+        self.constraints = constraints
         self.models = None
         self.reinit_pars()
 
@@ -420,7 +421,7 @@ class HoltWintersMulti(ScenarioGenerator):
         for i, n in enumerate(self.models_periods):
             models.append(HoltWinters(periods=self.periods, q_vect=self.q_vect,
                              n_sa=n, target_name=self.target_name, optimization_budget=self.optimization_budget,
-                                      targets_names=self.targets_names, verbose=False, optimize_hyperpars=self.optimize_submodels_hyperpars,
+                                      targets_names=self.targets_names, constraints=self.constraints, verbose=False, optimize_hyperpars=self.optimize_submodels_hyperpars,
                                       alpha=self.alphas[i], gamma_1=self.gammas_1[i], gamma_2=self.gammas_2[i]))
 
         self.models = models
-- 
2.43.0


From f7a448766169d28f98d131eb084493fbe201ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 35/51] fix: RecStablePICNN passes augment_ctrl_inputs to its
 module

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 7b62528..a4f77fd 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -530,8 +530,8 @@ class RecStablePICNN(PICNN):
         self.optimizer = optax.adamw(learning_rate=self.learning_rate)
         self.model = PICNN_module(num_layers=self.n_layers, features_x=self.n_hidden_x, features_y=self.n_hidden_y,
                               features_out=self.n_out, features_latent=self.n_latent, activation=nn.relu,
-                              init_type=self.init_type, probabilistic=self.probabilistic,z_min=z_min,
-                              z_max=z_max)
+                              init_type=self.init_type, augment_ctrl_inputs=self.augment_ctrl_inputs,
+                              probabilistic=self.probabilistic, z_min=z_min, z_max=z_max)
         self.predict_batch = vmap(jitting_wrapper(predict_batch_picnn, self.model), in_axes=(None, 0))
         self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind, distribution=self.distribution) if self.probabilistic else (
             jitting_wrapper(loss_fn, self.predict_batch))
-- 
2.43.0


From 5fde4c7259b1a29d5ac40351ee57be716dbd0ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 36/51] fix: set_params returns the model and keeps the
 quantiles of its scenario generator in step

---
 pyforecaster/forecaster.py                               | 2 ++
 pyforecaster/forecasting_models/neural_models/base_nn.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index de318ec..ce89d95 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -95,6 +95,8 @@ class ScenarioGenerator(BaseEstimator):
 
     def set_params(self, **kwargs):
         [self.__setattr__(k, v) for k, v in kwargs.items() if k in self.__dict__.keys()]
+        self.scengen.q_vect = self.q_vect
+        return self
 
     def get_params(self, **kwargs):
         return {k: getattr(self, k) for k in signature(self.__class__).parameters.keys() if k in self.__dict__.keys()}
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 09ee80f..a42a706 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -307,8 +307,9 @@ class NN(ScenarioGenerator):
             pk.dump(attrdict, f, protocol=pk.HIGHEST_PROTOCOL)
 
     def set_params(self, **kwargs):
-        [self.__setattr__(k, v) for k, v in kwargs.items() if k in self.__dict__.keys()]
+        super().set_params(**kwargs)
         self.set_arch()
+        return self
 
     def set_attr(self, attrdict):
         [self.__setattr__(k, v) for k, v in attrdict.items()]
-- 
2.43.0


From f258ae1756b60af7ec92b37b4a23a66b243d3ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 37/51] fix: LGBForecaster trains with the parameters set by
 set_params

---
 pyforecaster/forecaster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index ce89d95..81afa74 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -393,7 +393,10 @@ class LGBForecaster(ScenarioGenerator):
         self.colsample_bynode = colsample_bynode
         self.n_jobs = n_jobs
         self.n_jobs_predict = n_jobs_predict
-        self.lgb_pars = {"device_type": self.device_type,
+
+    @property
+    def lgb_pars(self):
+        return {"device_type": self.device_type,
                     "objective": self.objective,
                     "max_depth": self.max_depth,
                     "n_estimators": self.n_estimators,
-- 
2.43.0


From d6f8da4fc86a604dcbcf84501516a42263b53af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 38/51] fix: QRF trains with the parameters set by set_params

---
 .../forecasting_models/randomforests.py       | 44 ++++++++++---------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 12c62f4..b28a683 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -70,26 +70,30 @@ class QRF(ScenarioGenerator):
         self.parallel = parallel
         self.max_parallel_workers = max_parallel_workers
 
-        self.qrf_pars = {
-            "n_estimators":n_estimators,
-            "max_depth": max_depth,
-            "bootstrap": bootstrap,
-            "oob_score": oob_score,
-            "n_jobs": n_jobs,
-            "random_state": random_state,
-            "verbose": verbose,
-            "warm_start": warm_start,
-            "max_samples": max_samples,
-            "min_samples_split": min_samples_split,
-            "min_samples_leaf": min_samples_leaf,
-            "max_samples_leaf": max_samples_leaf,
-            "min_weight_fraction_leaf": min_weight_fraction_leaf,
-            "max_features": max_features ,
-            "max_leaf_nodes": max_leaf_nodes,
-            "min_impurity_decrease": min_impurity_decrease,
-            "default_quantiles":q_vect if q_vect is not None else 'mean',
-            "criterion":criterion,
-             "ccp_alpha":ccp_alpha
+        self.default_quantiles = q_vect if q_vect is not None else 'mean'
+
+    @property
+    def qrf_pars(self):
+        return {
+            "n_estimators": self.n_estimators,
+            "max_depth": self.max_depth,
+            "bootstrap": self.bootstrap,
+            "oob_score": self.oob_score,
+            "n_jobs": self.n_jobs,
+            "random_state": self.random_state,
+            "verbose": self.verbose,
+            "warm_start": self.warm_start,
+            "max_samples": self.max_samples,
+            "min_samples_split": self.min_samples_split,
+            "min_samples_leaf": self.min_samples_leaf,
+            "max_samples_leaf": self.max_samples_leaf,
+            "min_weight_fraction_leaf": self.min_weight_fraction_leaf,
+            "max_features": self.max_features,
+            "max_leaf_nodes": self.max_leaf_nodes,
+            "min_impurity_decrease": self.min_impurity_decrease,
+            "default_quantiles":self.default_quantiles,
+            "criterion": self.criterion,
+             "ccp_alpha": self.ccp_alpha
         }
 
     def _fit(self, i, x, y, sample_weight=None):
-- 
2.43.0


From 15e1cab68e8f4bc01a1896cc8ed1c45410a7c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 39/51] fix: parameters set by set_params reach what the
 stateful forecasters derive from them

---
 .../forecasting_models/fast_adaptive_models.py      |  8 ++++++++
 pyforecaster/forecasting_models/holtwinters.py      | 13 +++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 4062874..a64f272 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -101,6 +101,13 @@ class StatefulForecaster(ScenarioGenerator):
     def reinit_pars(self):
         self.states['w'] = None
 
+    def set_params(self, **kwargs):
+        super().set_params(**kwargs)
+        self.init_pars.update({k: v for k, v in kwargs.items() if k in self.init_pars})
+        # what is precomputed from the parameters must follow them
+        self.reinit_pars()
+        return self
+
     @staticmethod
     def generate_recent_history(y, w, start, i):
         """
@@ -468,6 +475,7 @@ class FK_multi(StatefulForecaster):
 
 
     def reinit_pars(self):
+        self.submodels_init_pars.update({k: self.init_pars[k] for k in self.submodels_init_pars})
         self.submodels_init_pars.update({'optimize_hyperpars': self.optimize_submodels_hyperpars,
                                          'verbose':True})
         # create models with increasing history length
diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 3d69847..f58adc4 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -179,6 +179,12 @@ class HoltWinters(ScenarioGenerator):
         self.err_distr = None
         self.constraints = constraints
 
+    def set_params(self, **kwargs):
+        super().set_params(**kwargs)
+        # the parameters the hyperparameters are tuned with
+        self.init_pars.update({k: v for k, v in kwargs.items() if k in self.init_pars})
+        return self
+
     def fit(self, x_pd, y_pd=None, **kwargs):
         if self.optimize_hyperpars:
             pars_opt = tune_hyperpars(x_pd, HoltWinters, hyperpars={'alpha':[0, 1], 'gamma_1':[0, 1], 'gamma_2':[0, 1]},
@@ -416,6 +422,13 @@ class HoltWintersMulti(ScenarioGenerator):
         self.models = None
         self.reinit_pars()
 
+    def set_params(self, **kwargs):
+        super().set_params(**kwargs)
+        self.init_pars.update({k: v for k, v in kwargs.items() if k in self.init_pars})
+        # the submodels are built with the parameters
+        self.reinit_pars()
+        return self
+
     def reinit_pars(self):
         models = []
         for i, n in enumerate(self.models_periods):
-- 
2.43.0


From 3bfa903540dc77fbfdf9a7864d492d8976533d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 40/51] fix: PICNN.set_params rebuilds the optimizer of the
 inverter

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index a4f77fd..0293144 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -320,6 +320,11 @@ class PICNN(NN):
                          probabilistic, probabilistic_loss_kind, **scengen_kwgs)
 
 
+    def set_params(self, **kwargs):
+        super().set_params(**kwargs)
+        self.inverter_optimizer = self.inverter_class(learning_rate=self.inverter_learning_rate)
+        return self
+
     def set_arch(self):
         z_max = jnp.array(self.z_max) if self.z_max is not None else self.z_max
         z_min = jnp.array(self.z_min) if self.z_min is not None else self.z_min
-- 
2.43.0


From 47f09eae66709ecf46e491499d45c9dae492ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 41/51] fix: only the columns of the normalised target are
 normalised

---
 pyforecaster/formatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 1a80782..5c57a8b 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -296,7 +296,7 @@ class Formatter:
         """
 
         normalizing_fun = self.normalizing_fun if normalizing_fun is None else normalizing_fun
-        if self.normalizing_fun is None:
+        if normalizing_fun is None:
             self.logger.warning('You did not pass any normalization expression, ** no normalization will be applied **. '
                                 '\bYou can set a normalization expression by calling Formatter.add_normalizing_fun '
                                 '\bor by passing the noralizing_expr argument to this function')
@@ -326,7 +326,7 @@ class Formatter:
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.transformers:
                 # find df_n columns to normalize
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'] == target_to_norm]
                 for c in nr_columns:
                     x.loc[:, c] = self.normalizing_wrapper(normalizing_fun, x, c)
 
@@ -339,7 +339,7 @@ class Formatter:
 
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.target_transformers:
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'] == target_to_norm]
                 for c in nr_columns:
                     df_n.loc[:, c] = self.normalizing_wrapper(normalizing_fun, df_n, c)
         y = df_n[[c for c in y.columns]]
-- 
2.43.0


From 07feffccf62e8ea3a770cf3e5fb2043b7fb221c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 42/51] fix: a target normalizer accepts a lag

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 5c57a8b..d50597f 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -147,7 +147,7 @@ class Formatter:
         assert len(target) == 1, 'only one target can be normalized per time. If you want to normalize two targets call this method twice'
         if lags is not None:
             assert len(lags) == 1, 'only one lag is admissible for the normalization.'
-            assert np.all(lags>0), 'you cannot normalize with future values, all lags should be positive'
+            assert np.all(np.array(lags) > 0), 'you cannot normalize with future values, all lags should be positive'
 
         transformer = Transformer(target, functions=function, agg_freq=agg_freq, lags=lags, logger=self.logger,
                                   relative_lags=relative_lags, agg_bins=agg_bins, dt=self.dt, name=name)
-- 
2.43.0


From 206915e98659f5f6ffda2ce0c2771a5ec0d5dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 43/51] fix: the jitter of the scenarios follows random_state

---
 pyforecaster/scenarios_generator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/scenarios_generator.py b/pyforecaster/scenarios_generator.py
index 72790f7..6662830 100644
--- a/pyforecaster/scenarios_generator.py
+++ b/pyforecaster/scenarios_generator.py
@@ -155,6 +155,11 @@ class ScenGen:
 
         t = x.shape[0]
         t_q = quantiles.shape[0]
+        random_state = copula_kwargs.get('random_state')
+        if random_state is None:
+            rng = np.random
+        else:
+            rng = np.random.RandomState(random_state) if isinstance(random_state, (int, np.integer)) else random_state
         assert t_q == t, 'quantiles must have the same number of rows as x'
 
         # copula samples of dimension n_obs, n_steps, n_scen
@@ -166,7 +171,7 @@ class ScenGen:
             assert len(init_obs) == scenarios.shape[0], 'length of init_obs was {}, while should have been equal to ' \
                                                         '{}'.format(len(init_obs), scenarios.shape[0])
             for t, init_o in enumerate(init_obs):
-                scenarios[t, 0, :] = init_o + np.random.rand(n_scen)*1e-6
+                scenarios[t, 0, :] = init_o + rng.uniform(size=n_scen)*1e-6
             # for each temporal observation, generate scenarios from copula samples
             for t, copula_sample_t, quantiles_t in zip(range(len(copula_samples)), copula_samples, quantiles):
                 scenarios[t, 1:, :] = interp_scens(copula_sample_t, quantiles_t, self.q_vect)
@@ -175,7 +180,7 @@ class ScenGen:
             # for each temporal observation, generate scenarios from copula samples
             for t, copula_sample_t, quantiles_t in zip(range(len(copula_samples)), copula_samples, quantiles):
                 scenarios[t, :] = interp_scens(copula_sample_t, quantiles_t, self.q_vect)
-        return scenarios + np.random.randn(*scenarios.shape)*1e-9
+        return scenarios + rng.standard_normal(scenarios.shape)*1e-9
 
 
 def tree_gen_chunk(predictions, trees):
-- 
2.43.0


From f12f4ec56a2dbe454f2a372cce0900f1460cc14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 44/51] fix: global_form columns do not depend on the hash seed

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index d50597f..96f8da1 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -604,13 +604,13 @@ class Formatter:
                                                                                      ' "target"'
         transformed_columns = [tr.names for tr in self.transformers]
         transformed_columns = [item for sublist in transformed_columns for item in sublist]
-        transformed_columns = list(set(np.unique(transformed_columns)) - {'target'})
+        transformed_columns = [c for c in np.unique(transformed_columns) if c != 'target']
         # if x is multiindex pd.DataFrame do something
         if isinstance(x.columns, pd.MultiIndex):
             # find columns names at level 0 that contains the targets
             c_l_0 = x.columns.get_level_values(0).unique()
             private_cols_l0 = [c for c in c_l_0 if not np.all([str(t) in transformed_columns for t in x[c].columns])]
-            shared_cols_l0 = list(set(c_l_0) - set(private_cols_l0))
+            shared_cols_l0 = [c for c in c_l_0 if c not in private_cols_l0]
             x_shared = x[shared_cols_l0].droplevel(0, 1)
             dfs = []
             for p in private_cols_l0:
-- 
2.43.0


From b45eafd05adc0e738365ebf830bd4f6f97af6969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 45/51] fix: the random search of HoltWinters leaves the global
 generator alone

---
 pyforecaster/forecasting_models/holtwinters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index f58adc4..c6426d4 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -253,10 +253,10 @@ class HoltWinters(ScenarioGenerator):
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
 
     def rand_search(self, hw_input, hw_output):
-        np.random.seed(0)
+        rng = np.random.RandomState(0)
         test_from = int(len(hw_input)/10)
 
-        test_pars = np.random.rand(self.optimization_budget,3)
+        test_pars = rng.rand(self.optimization_budget,3)
         rmses = np.zeros(len(test_pars))
         '''
         res = forest_minimize(partial(self.run_wrapper, hw_input, hw_output),[(0.,1.), (0.,1.), (0.,1.)], n_calls=N)
-- 
2.43.0


From 50a124be0588130ba4290603359dc155855f8a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 46/51] fix: the copula can be sampled for a single scenario

---
 pyforecaster/copula.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 08d08de..643ce2f 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -90,12 +90,8 @@ class HourlyGaussianCopula(GaussianCopula):
                 continue
             else:
                 mvr_samples = mvr.rvs((np.sum(hour_filt), n_scen), random_state=random_state)
-                # if sum(hour_filt) == 1, mvr_sample has lower dimensionality
-                if np.sum(hour_filt) == 1:
-                    mvr_samples = np.expand_dims(mvr_samples, 0)
-                # if we're predicting only one target, mvr.rvs has lower dimensionality
-                if len(mvr_samples.shape) == 2:
-                    mvr_samples = np.expand_dims(mvr_samples, -1)
+                # rvs drops the dimensions of length one: a single row, a single scenario or a single target
+                mvr_samples = np.reshape(mvr_samples, (np.sum(hour_filt), n_scen, self.dim))
                 mvr_samples = np.swapaxes(mvr_samples, 1, 2)
                 copula_samples[hour_filt, :, :] = norm.cdf(mvr_samples)
         return copula_samples
-- 
2.43.0


From 89ab4aaa44c3dc5786227f8f3c49ebd986a1ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 47/51] fix: fdf_parallel without ray processes every chunk and
 keeps the labels in order

---
 pyforecaster/big_data_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 1ddda3e..c14eef8 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -83,17 +83,17 @@ def fdf_parallel(f, df:Union[pd.DataFrame, list], n_splits=None, axis=0, use_ray
         if axis==0:
             df_shape_0 = sum([x.shape[0] for x in dfs])
             df_shape_1 = dfs[0].shape[1]
-            df_columns = np.unique(dfs[0].columns)
+            df_columns = dfs[0].columns
         else:
             df_shape_0 = dfs[0].shape[0]
             df_shape_1 = sum([x.shape[1] for x in dfs])
-            df_columns = np.unique([x.columns for x in dfs])
+            df_columns = dfs[0].columns.append([x.columns for x in dfs[1:]])
 
         df_shape = (df_shape_0, df_shape_1)
 
-        df_indexes = np.hstack([x.index.ravel() for x in dfs]) if axis==0 else dfs[0].index
+        df_indexes = dfs[0].index.append([x.index for x in dfs[1:]]) if axis==0 else dfs[0].index
 
-        res = mapper(f, [df.values for df in [dfs[0]]])
+        res = mapper(f, [df_i.values for df_i in dfs])
         res = np.vstack(res) if axis == 0 else np.hstack(res)
 
         if res.shape == df_shape:
-- 
2.43.0


From 933f64bd95831e787ad1c1eee9c0da1e7e5428f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 48/51] fix: QRF.predict accepts a period

---
 pyforecaster/forecasting_models/randomforests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index b28a683..af076b5 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -133,7 +133,7 @@ class QRF(ScenarioGenerator):
     @encode_categorical
     def predict(self, x, **kwargs):
         preds = []
-        period = kwargs['period'] if 'period' in kwargs else '24h'
+        period = kwargs.pop('period', '24h')
         if self.parallel:
             with concurrent.futures.ThreadPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 preds = [i for i in tqdm(executor.map(partial(self._predict, x=x, period=period, **kwargs), range(self.n_single)),total=self.n_single)]
-- 
2.43.0


From 50af5bddfba8b4c9722cf44c3479829f1749a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 49/51] fix: the global form treats each series alone, whatever
 the number of cpus

---
 pyforecaster/formatter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 96f8da1..fab71fd 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -190,10 +190,11 @@ class Formatter:
                 # simulate transform on one fold single core to retrieve metadata (ray won't persist class attributes)
                 self._simulate_transform(dfs[0])
                 for i in tqdm(range(n_folds)):
-                    x, y = fdf_parallel(f=partial(self._transform, time_features=time_features, holidays=holidays,
-                                                  return_target=return_target, **holidays_kwargs),
-                                        df=dfs[n_cpu * i:n_cpu * (i + 1)])
-                    xs, ys = self.global_form_postprocess(x, y, xs, ys, reduce_memory=reduce_memory, corr_reorder=corr_reorder)
+                    transformed = fdf_parallel(f=partial(self._transform, time_features=time_features, holidays=holidays,
+                                                         return_target=return_target, **holidays_kwargs),
+                                               df=dfs[n_cpu * i:n_cpu * (i + 1)], recast=False)
+                    for x, y in transformed:
+                        xs, ys = self.global_form_postprocess(x, y, xs, ys, reduce_memory=reduce_memory, corr_reorder=corr_reorder)
             else:
                 for df_i in dfs:
                     x, y = self._transform(df_i, time_features=time_features, holidays=holidays,
-- 
2.43.0


From a78f128b9f474757d06f35d046751ea58cabe7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 50/51] fix: the scalers are fitted on the training rows only

---
 .../forecasting_models/neural_models/base_nn.py       | 11 ++++++-----
 .../forecasting_models/random_fourier_features.py     |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index a42a706..c8eb947 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -342,19 +342,20 @@ class NN(ScenarioGenerator):
     def fit(self, inputs, targets, n_epochs=None, savepath_tr_plots=None, stats_step=None, rel_tol=None):
         self.to_be_normalized = [c for c in inputs.columns if
                                  c not in self.unnormalized_inputs] if self.unnormalized_inputs is not None else inputs.columns
-        self.input_scaler = None
-        if len(self.to_be_normalized) > 0:
-            self.input_scaler = (StandardScaler(with_mean=self.subtract_mean_when_normalizing)
-                                 .set_output(transform='pandas').fit(inputs[self.to_be_normalized]))
 
         rel_tol = rel_tol if rel_tol is not None else self.rel_tol
         n_epochs = n_epochs if n_epochs is not None else self.n_epochs
         stats_step = stats_step if stats_step is not None else self.stats_step
 
+        inputs, targets, inputs_val_0, targets_val_0 = self.train_val_split(inputs, targets)
+        self.input_scaler = None
+        if len(self.to_be_normalized) > 0:
+            self.input_scaler = (StandardScaler(with_mean=self.subtract_mean_when_normalizing)
+                                 .set_output(transform='pandas').fit(inputs[self.to_be_normalized]))
+
         if self.normalize_target:
             self.target_scaler = StandardScaler().set_output(transform='pandas').fit(targets)
 
-        inputs, targets, inputs_val_0, targets_val_0 = self.train_val_split(inputs, targets)
         training_len = inputs.shape[0]
         validation_len = inputs_val_0.shape[0]
 
diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 00ffa43..db969e3 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -344,8 +344,8 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
         self.scaler = None
 
     def fit(self, x, y, **args):
-        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
         RandomFFRegressor.fit(self, x, y, **args)
         ScenarioGenerator.fit(self, x_val, y_val)
@@ -375,8 +375,8 @@ class AdditiveRFFRegression(ScenarioGenerator):
 
     def fit(self, x, y, **args):
         """Boosting fit."""
-        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
         err = y.copy()
         for m in self.models:
-- 
2.43.0


From fc228fbefb7b3844c74a81a1c3a6faa40911ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 51/51] fix: Formatter.normalize leaves the dataframe it is
 given alone

---
 pyforecaster/formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index fab71fd..511d1b3 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -323,7 +323,8 @@ class Formatter:
             else:
                 y = self.normalize_target_inner(y, normalizers, target_to_norm_names, normalizing_fun)
 
-        # normalize the features related to the target
+        # normalize the features related to the target, on a copy: x belongs to the caller
+        x = x.copy()
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.transformers:
                 # find df_n columns to normalize
-- 
2.43.0

