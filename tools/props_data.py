"""The properties, and how each is decided (edited by hand; tools/props.py writes the registered files from it)."""


def P(id, title, statement, over, text, why, files, mechanism, observe, technique, level_note, state=()):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                        'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                        'observe_at': observe, 'hook_needed': None},
            'technique': technique, 'level_note': level_note}


FM = 'pyforecaster/forecasting_models/'
ENGINE = ('Sound for the modelled subset of Python only: calls into third-party libraries are summarised by hand-written '
          'models (views, copies, in-place methods); what the abstraction cannot resolve is counted as undecided and never '
          'reported. ')

PROPS = [
    P('C01', "The caller's data are never modified",
      "No public function or method of the library modifies the dataframes, series, arrays, dictionaries or lists the "
      "caller passes to it: after fit, predict, predict_quantiles, predict_scenarios, predict_trees, predict_pmf, transform, "
      "scoring, cross-validation, tuning, scenario reduction or plotting, the caller's objects hold the same values, labels "
      "and length as before, whatever the options (documented in-place arguments excepted).",
      ['inputs', 'configurations'],
      'every value, label, dtype and layout of the arguments (views or copies), every option of every entry point',
      'Tests compare outputs; a write through an alias or a view shows only for the dtypes and layouts that alias, and no '
      'test looks at its inputs after the call.',
      ['pyforecaster/forecaster.py', 'pyforecaster/formatter.py', 'pyforecaster/metrics.py', 'pyforecaster/scenred.py',
       'pyforecaster/trainer.py', 'pyforecaster/stat_utils.py', FM + 'neural_models/base_nn.py',
       FM + 'neural_models/ICNN.py'],
      [('defensive copies before writing', 'Formatter.transform, NN.get_normalized_inputs, summary_scores, scenred'),
       ('copy before encoding', 'encode_categorical')],
      ['the arguments of every public call, after it returns'],
      'interprocedural alias and effect analysis (flow-sensitive abstract interpretation): every store reachable from a '
      'public entry point is checked against the storage regions of the arguments',
      ENGINE + 'Every public entry point is driven on symbolic arguments, all forecasters and their configurations included.'),
    P('C02', 'Predicting leaves the fitted model as it was',
      "Calling predict, predict_quantiles, predict_scenarios, predict_trees or predict_pmf does not change the fitted "
      "model: a second identical call sees the same parameters, encoders, scalers, error distribution, copula and "
      "pre-fitted trees as the first one. The only exception is the documented online level/trend/season state of the "
      "Holt-Winters forecaster.",
      ['histories', 'inputs', 'configurations'],
      'every sequence of prediction calls on every forecaster and configuration',
      'A test predicts once; drift needs a second prediction, on other data or another hour, compared with the first.',
      ['pyforecaster/forecaster.py', 'pyforecaster/scenarios_generator.py', FM + 'fast_adaptive_models.py',
       FM + 'holtwinters.py', FM + 'neural_models/base_nn.py'],
      [('copy of the pre-fitted tree', 'tree_gen in scenarios_generator.py'),
       ('states stored only when fitting', 'Fourier_es.run, FK.run, FK_multi.run')],
      ['the attributes of the fitted object', 'a repeated prediction'],
      'effect analysis of the prediction entry points from the abstract fitted state: stores into model-owned objects, '
      'arrays and learners, with a liveness pass that exempts scratch attributes nothing reads back',
      ENGINE + 'Stores the abstraction cannot separate from a lazy initialisation are left undecided.',
      [('fitted attributes', 'everything fit() leaves on the object', 'fit methods')]),
    P('C03', 'Fitting again starts from scratch',
      "Fitting an already fitted forecaster (or estimator) on new data gives a model that does not depend on the data of "
      "the previous fit: no learner, weight, scaler, encoder, label, error distribution or scenario generator of the "
      "earlier fit is kept, appended to or reused. Models documented as stateful/online (Holt-Winters, Fourier and Kalman "
      "smoothers) are excepted.",
      ['histories', 'configurations'],
      'every pair of data sets (rows, columns and values) and every configuration',
      'Tests fit each object once; leftovers of an earlier fit only show on a second one with other data.',
      ['pyforecaster/forecaster.py', FM + 'gradientboosters.py', FM + 'randomforests.py', FM + 'random_fourier_features.py',
       FM + 'neural_models/base_nn.py', 'pyforecaster/reconciliation/reconciliation.py', 'pyforecaster/copula.py'],
      [('learners rebuilt at every fit', 'fit methods'), ('encoders reset', 'encode_categorical')],
      ['the attributes of the refitted model', 'its predictions'],
      'taint analysis over the abstract heap: two fits on unrelated symbolic data sets, each state slot of the first fit '
      'carried over in isolation, and a must-dependence query on the refitted model and its predictions',
      ENGINE + 'A violation is reported only when the dependence holds on every path the analysis joins.'),
    P('C04', 'Every constructor option reaches what it configures',
      "An option given to the constructor of a forecaster takes part in what the forecaster does: directly, or through the "
      "third-party learner, submodel, network module, optimizer, loss or scenario generator it configures, in at least one "
      "configuration of the other options. The attribute of the option's name holds the value that was passed, and a learner's "
      "keyword of the same name as an option is fed from that option and from no other.",
      ['inputs', 'configurations'],
      'every option of every forecaster class, with any value, in every combination with the options that switch code paths',
      'A dropped or swapped option leaves a working forecaster with other settings; a test that does not vary the option cannot '
      'see it.',
      ['pyforecaster/forecaster.py', 'pyforecaster/forecasting_models/'],
      [('options kept and forwarded', '__init__ of every forecaster'), ('options used', 'fit, predict and their helpers')],
      ['attributes of the forecaster', 'arguments of the learners it builds', 'forecasts'],
      'dependence analysis: one symbolic source per option, followed through construction, fit and prediction by an abstract '
      'interpreter; each source must reach an effect',
      ENGINE + 'An option that reaches an opaque object counts as used; 34 options found dead are known findings.'),
    P('C05', 'Parameters set with set_params are in force at the next fit',
      "set_params returns the forecaster; get_params then reports the new values and only them; and the next fit and "
      "predictions use the new value of every option that takes part in what a freshly constructed forecaster does: no learner, "
      "submodel, optimizer or scenario generator keeps a value derived from the old one.",
      ['histories', 'configurations', 'inputs'],
      'every option of every forecaster class and every pair of old and new values',
      'Hyper-parameter search and cloning rely on it; tests construct forecasters with the parameters they use.',
      ['pyforecaster/forecaster.py', 'pyforecaster/forecasting_models/'],
      [('options changed after construction', 'ScenarioGenerator.set_params and its overrides'),
       ('options read at fit', 'fit of every forecaster')],
      ['arguments of the learners trained after set_params', 'get_params()', 'forecasts'],
      'dependence analysis with two symbolic values per option, the constructor\'s and set_params\': the second must reach what '
      'the first reaches',
      ENGINE + 'Options whose constructor default another option resolves (m, n_sa, target_name) are exempt; 17 options kept by '
      'objects built in the constructor are known findings.'),
    P('C08', 'Quantile forecasts are the forecast plus the errors of the same hour',
      "For the forecasters that estimate their uncertainty from past errors, the quantile forecast of a row and step is the "
      "point forecast plus the quantile, at the levels q_vect, of the validation errors (truth minus forecast) of that same "
      "step; with conditional_to_hour=True only errors recorded at the hour of the day of the row are used, with "
      "conditional_to_hour=False the errors of all hours are, for every row.",
      ['inputs', 'configurations'],
      'every request (any mix of hours, any row order), every set of targets and quantile levels, every forecaster',
      'Tests plot the quantiles; a wrong hour, sign, axis or level yields plausible-looking intervals.',
      ['pyforecaster/forecaster.py', FM + 'benchmarks.py', FM + 'holtwinters.py', FM + 'fast_adaptive_models.py',
       FM + 'statsmodels_wrapper.py', FM + 'random_fourier_features.py'],
      [('hourly error quantiles', 'ScenarioGenerator.fit'), ('errors added to the forecast', 'ScenarioGenerator._add_err_distr')],
      ['err_distr after fit', 'predict_quantiles'],
      'symbolic dataflow: the fitted error distribution and the quantile tensor are reconstructed as terms and decomposed in '
      'signed atoms with their quantile operator, levels, axes and row masks, which are compared with the documented form',
      ENGINE + 'Forecasters with quantiles of their own (forests, quantile networks) are out of the scope of this property.',
      [('err_distr', 'hour (if conditional) -> (steps, quantiles) array', 'ScenarioGenerator.fit')]),
    P('C09', 'Quantile and scenario forecasts have the documented axes and labels',
      "predict_quantiles(dataframe=False) returns an array with axes (rows, steps ahead, quantile levels); "
      "predict_quantiles(dataframe=True) returns a dataframe indexed as the request whose columns are the product (target "
      "labels, q_vect), each holding the values of that target and level; predict_scenarios returns an array with axes (rows, "
      "steps ahead, n_scen), with one more leading step when additional_node=True. Neural networks may return the array in "
      "both cases; a network fitted on a structured scalar objective returns the quantiles of the objective.",
      ['inputs', 'configurations'],
      'every number of rows, targets, quantile levels and scenarios, every forecaster and configuration',
      'Axis swaps are invisible when two sizes coincide or when a test only checks that numbers come out.',
      ['pyforecaster/forecaster.py', 'pyforecaster/scenarios_generator.py', FM + 'randomforests.py', FM + 'holtwinters.py',
       FM + 'fast_adaptive_models.py', FM + 'neural_models/base_nn.py'],
      [('quantiles_to_df / quantiles_to_numpy', 'ScenarioGenerator'), ('sampling', 'ScenGen.sample_scenarios')],
      ['predict_quantiles', 'predict_scenarios'],
      'type-like inference of array axes and frame labels over symbolic terms (row-major reshape, stack, broadcast and label '
      'rules), compared with the documented layout',
      ENGINE + 'Axes are distinguished in general position: sizes named by independent sources are taken to be different.'),
    P('C10', 'Point forecasts follow the rows of the request and the targets of the fit',
      "predict(x) returns a dataframe with exactly one row per row of x, in the order and with the index of x, and one column "
      "per target, in the order and with the labels of the columns of the y used in fit (models without targets use their own "
      "labels, one per step ahead). The LSTM forecaster alone skips the rows it has no history for.",
      ['inputs', 'configurations'],
      'every index (unsorted, duplicated, with gaps), every set of targets, every forecaster and configuration',
      'Tests forecast clean, sorted samples and rarely compare labels.',
      ['pyforecaster/forecaster.py', FM + 'gradientboosters.py', FM + 'randomforests.py', FM + 'benchmarks.py',
       FM + 'holtwinters.py', FM + 'fast_adaptive_models.py', FM + 'neural_models/base_nn.py',
       FM + 'random_fourier_features.py'],
      [('target_cols stored at fit', 'ScenarioGenerator.train_val_split'), ('labelled output', 'predict methods')],
      ['predict'],
      'inference of axes and labels over the symbolic result of predict, compared with the index of the request and the '
      'columns of the fitted targets',
      ENGINE + 'Axes are distinguished in general position.'),
    P('C11', 'Features look exactly at the window their settings say, never ahead',
      "The value a transformer generates for a row depends exactly on the window of past data its settings document: with lag l "
      "and aggregation over a period, the data from l steps (or l periods, with relative_lags) back, over the whole period and "
      "nothing later; positive lags look at the past, negative at the future; each aggregation bin covers its own steps.",
      ['inputs', 'configurations'],
      'every data set, sampling time, list of lags (any length, sign and order), aggregation period, bins and functions',
      'Tests sample a few lags and compare shapes; a window one step late or a lag in the wrong unit is look-ahead that no score '
      'on past data shows.',
      ['pyforecaster/formatter.py'],
      [('rolling, shifting and binning', 'Transformer.transform, Transformer.__init__, Reducer')],
      ['the dataframe transform returns'],
      'symbolic dataflow to a window abstraction: rolling, shift and indexing steps become intervals of polynomials in the '
      'sampling time, the lag, the aggregation and the bins, compared with the window the settings document',
      'Decides every option combination for sequences of any length, for regularly sampled data; pandas semantics of rolling, '
      'shift and concat are taken from their documentation.'),
    P('C12', 'Cross-validation folds keep training rows away from the test window',
      "In every fold of the time cross-validation no row is both training and test, and every training row is further from the "
      "test window than the furthest look-back of any generated feature, before and after it. The test windows are contiguous, "
      "start at the beginning of the index, end at its end, and n_k of them tile it.",
      ['inputs', 'configurations'],
      'every time index, number of folds, multiplier and set of transformers',
      'Tests count rows; leakage needs a training row whose feature window reaches into the test window.',
      ['pyforecaster/formatter.py'],
      [('fold masks and deadband', 'Formatter.time_kfcv')],
      ['the pairs of masks time_kfcv yields'],
      'symbolic evaluation of the masks to comparisons with polynomial thresholds, evaluated on every region of the time line '
      'the ordered thresholds delimit',
      'Holds for every index and number of folds; thresholds are ordered by proved inequalities, what cannot be ordered is left '
      'undecided.'),
    P('C14', 'Feature metadata describe exactly the generated columns',
      "After a transformation the metadata of a transformer hold one row per generated column, in the order of the columns and "
      "with their labels, whose lag, function, source name, start time and end time are those of that column; labels distinguish "
      "lags, functions, bins and sources; simulating the transformation gives the same metadata.",
      ['inputs', 'configurations'],
      'every combination of functions, lags, relative lags, aggregation and bins, with sequences of any length',
      'The order of a product of lags, functions and bins is visible only with several of each, and tests do not compare the '
      'metadata with the data.',
      ['pyforecaster/formatter.py'],
      [('metadata of the generated columns', 'Transformer.transform')],
      ['Transformer.metadata', 'the columns of the transformed dataframe'],
      'symbolic dataflow: columns, labels, metadata rows and their values are reduced to nested enumeration orders and polynomial '
      'windows, which must agree',
      'Decides every option combination for sequences of any length, for regularly sampled data.'),
    P('C15', 'Transforming one data set does not affect the next',
      "What a transformer or a formatter computes for a data set, and the metadata it leaves, depend on its settings and on that "
      "data set only: not on data sets transformed or simulated before, nor on the other columns transformed with it. The only "
      "memory is whether the first data set had a time zone.",
      ['histories', 'inputs', 'configurations'],
      'every sequence of uses, with data of any sampling time, length and columns',
      'A test transforms one data set; the difference shows on the second, differently sampled.',
      ['pyforecaster/formatter.py'],
      [('settings kept apart from what is derived from the data', 'Transformer.transform, Formatter.transform')],
      ['the dataframes and metadata of a second transformation'],
      'dependence analysis over two symbolic uses of one object: the result of the second must not depend on the data of the first',
      ENGINE + 'Loops that may run zero times for the analysis leave binned transformers with several columns undecided.'),
    P('C16', 'Only the normalised target is normalised, and denormalising inverts it',
      "With target normalizers a Formatter evaluates the normalising expression for exactly the columns that stem from the "
      "normalised target - in the features of every transformer, in the targets of every target transformer, and per quantile for "
      "quantile targets - each on its own column and next to normalizing columns named after the normalizers that made them. An "
      "expression given explicitly takes precedence; denormalize evaluates the inverse; without an expression nothing changes. "
      "Normalizers with lags look only into the past.",
      ['inputs', 'configurations'],
      'every number of signals, transformers, normalizers and quantiles, and every expression',
      'Tests normalise one signal; with several the columns of the others must stay as they are.',
      ['pyforecaster/formatter.py'],
      [('normalisation', 'Formatter.normalize, normalize_target_inner, denormalize'),
       ('normalizing columns', 'Formatter.add_normalizing_columns, add_target_normalizer')],
      ['the columns of the dataframes transform, normalize and denormalize return'],
      'symbolic evaluation; the row selections are decided on the two kinds of metadata rows (of the target, of other signals), the '
      'expression and column of each evaluation are compared with where it is stored',
      'Decides the selection for every metadata table; the algebra of the user\'s expressions (that the inverse expression inverts) '
      'is theirs.'),
    P('C06', 'Forecasts are reproducible and random numbers follow the given seed',
      "Point and quantile forecasts, transformations, metrics and the calibration of the error distribution draw no random numbers of "
      "their own and depend on nothing but their arguments: not on the clock, the process, the hash seed, or the order in which "
      "workers finish. "
      "With a random_state, predict_scenarios and predict_trees draw every random number from it, in every copula; the rows kept for "
      "the calibration are drawn from a generator seeded by scengen_random_state. Nothing reseeds the process-wide generators.",
      ['inputs', 'configurations', 'histories', 'schedules'],
      'every input, seed, configuration and history of earlier calls',
      'Tests run in one process with one hash seed and rarely call an operation twice.',
      ['pyforecaster/forecaster.py', 'pyforecaster/scenarios_generator.py', 'pyforecaster/copula.py', 'pyforecaster/formatter.py',
       'pyforecaster/forecasting_models', 'pyforecaster/scenred.py', 'pyforecaster/tree_builders.py'],
      [('scenario sampling', 'ScenGen.sample_scenarios, *Copula.sample'), ('calibration rows', 'ScenarioGenerator._subsample_scengen'),
       ('columns of the transformed data', 'Formatter.transform, Formatter.global_form_postprocess')],
      ['the forecasts, scenarios, trees and dataframes the operations return'],
      'effect analysis over the whole package: every draw, reseeding, ambient read and set iteration reached by an operation, with the '
      'symbolic value of the generator it draws from',
      'Third-party learners count as functions of their arguments and random_state. Tree reductions that draw unseeded starting points '
      '(NeuralGas) are known findings.'),
    P('C17', 'Parallel execution gives the same result as sequential execution',
      "With a parallel switch on (parallel, parallel_preds, the parallel global form of a Formatter, parallel hyperparameter tuning) "
      "every operation returns, and leaves in the model, what it does with the switch off. Tables split into pieces are split into "
      "pieces that follow each other from start to end; a function applied piece by piece is applied to all of them and the results are "
      "joined in order, along the axis that was cut, with the labels of the pieces. Nothing relies on objects changed in a worker "
      "process. Memory reduction converts a column only to a type whose range holds it.",
      ['inputs', 'configurations', 'schedules'],
      'every table, number of pieces, number of cpus and schedule of the workers',
      'Tests run one mode, on one machine, with one size; the difference shows with another number of cpus, rows or options.',
      ['pyforecaster/big_data_utils.py', 'pyforecaster/formatter.py', 'pyforecaster/scenarios_generator.py',
       'pyforecaster/forecasting_models/gradientboosters.py', 'pyforecaster/forecasting_models/randomforests.py',
       'pyforecaster/forecasting_models/holtwinters.py'],
      [('splitting and joining', 'array_split, fdf_parallel'), ('parallel trees', 'ScenGen.predict_trees'),
       ('parallel learners', 'LGBMHybrid.predict_parallel, QRF.fit, QRF.predict'), ('global form', 'Formatter.transform')],
      ['what the operations return and the fields of the model, for both values of the switch'],
      'symbolic evaluation of both modes; results and model fields are reduced to a normal form in which the consecutive pieces of a '
      'table, mapped and joined, are the table, and must be equal',
      'Pools, ray and multiprocessing are assumed to return the value of the function on a copy of its arguments; differences the '
      'normal form cannot classify are reported as undecided.'),
    P('C18', 'Training and forecasting see the same features, and only complete rows',
      "Formatter.transform returns a row exactly when none of its generated features is missing - for training (return_target=True) "
      "also none of its targets, and then features and targets for the same rows; a gap in other columns drops nothing. With "
      "return_target=False it returns the features of the training: same columns, same order, normalised alike, with the time "
      "features and holidays asked for, in the plain and in the global form. Every transformer is applied to all the rows of the data, before "
      "incomplete ones are dropped. Time features are the hour, day of week, minute of day and UTC offset (hours) of each row's own timestamp, and "
      "the same columns for every data set. In the global form each signal carries the name of the column its values come from.",
      ['inputs', 'configurations', 'histories'],
      'every data set, wherever its gaps are, every combination of options, and every later data set',
      'Tests transform one clean table once; gaps in unrelated columns, a second data set and the forecasting mode are hardly sampled.',
      ['pyforecaster/formatter.py'],
      [('rows', 'Formatter._transform'), ('time features', 'Formatter.add_time_features'), ('signals', 'Formatter.global_form_preprocess')],
      ['the two tables Formatter.transform returns'],
      'symbolic evaluation of a training and a forecasting transform; the row masks and column lists of the results are evaluated for every '
      'combination of missing groups of columns, the time features are reduced to sums of timestamp fields',
      'What a transformer computes is judged by C11 and C14, the normalisation by C16. Boolean pandas masks are taken to align on labels.'),
    P('C13', 'The model learns from the training rows, errors come from validation rows',
      "With a val_ratio, everything a forecaster learns for its point forecasts - model, scalers, hyperparameters - comes from the first rows "
      "alone, and the errors that calibrate its quantiles and scenarios are taken on the remaining rows alone; the two parts "
      "do not overlap, leave no row out, and the second has the share val_ratio. Features and targets always belong to the same rows. "
      "Without val_ratio all the rows serve both. Two things are allowed to look at validation rows: stopping the training of a network, "
      "and the numbering of categories.",
      ['inputs', 'configurations'],
      'every table, share and forecaster',
      'A leak does not fail: it only makes the intervals too narrow on data not seen, which no unit test notices.',
      ['pyforecaster/forecaster.py', 'pyforecaster/forecasting_models'],
      [('split', 'ScenarioGenerator.train_val_split'), ('fit of every forecaster that takes val_ratio', '*.fit'),
       ('scalers', 'NN.fit, RFFRegression.fit, AdditiveRFFRegression.fit')],
      ['what predict computes after fit, and the arguments of ScenarioGenerator.fit'],
      'provenance analysis: fit and predict are evaluated symbolically and each term is classified by the rows of the data it is made of',
      'Row selections other than slices, ranges, head and tail are undecided. Learners are assumed to use the rows they are given.'),
]

def N(id, title, statement, text, why, files, mechanism, observe, reason):
    d = P(id, title, statement, ['inputs'], text, why, files, mechanism, observe, '', '')
    d['reason'] = reason
    return d


NOT_APPLICABLE = [
    N('C90', 'Scenarios reproduce the dependence between the steps ahead',
      'The joint distribution of the sampled scenarios has the quantile forecasts as its margins and the rank correlations of the training errors.',
      'every training set and number of scenarios', 'A sample has the distribution only in the limit.',
      ['pyforecaster/copula.py', 'pyforecaster/scenarios_generator.py'],
      [('copulas', 'copula.py: fit, sample')], ['the scenarios of predict_scenarios'],
      'A statement about a distribution: whether sampled values have a correlation is decided by the numbers drawn and by a matrix estimated from '
      'data, which no analysis of the source bounds.'),
    N('C91', 'Reduced trees stay close to the scenarios they come from',
      'Scenario reduction keeps, among trees with the requested nodes per step, one whose distance from the scenarios is small, and the probabilities '
      'of the leaves sum to one.',
      'every scenario set and node count', 'The distance depends on the scenarios.',
      ['pyforecaster/scenred.py', 'pyforecaster/tree_builders.py'],
      [('reduction', 'scenred, NeuralGas, DiffTree')], ['the trees of predict_trees'],
      'The outcome of a greedy search and of gradient steps over values; approximate optimality is not a property of the text.'),
    N('C92', 'Adaptive filters stay numerically sound over any history',
      'The covariances of the Kalman filters and the states of the exponential smoothers stay finite and positive definite however long the history.',
      'every history of observations', 'Divergence needs long or degenerate histories.',
      ['pyforecaster/forecasting_models/fast_adaptive_models.py', 'pyforecaster/forecasting_models/holtwinters.py'],
      [('update', 'Kalman, HoltWinters.fit_predict')], ['the states of the models'],
      'Floating-point behaviour of recursions over unbounded histories with data-dependent gains; no sound bound is in reach.'),
    N('C93', 'Training reaches the accuracy the configuration allows',
      'Fitting lowers the loss, early stopping keeps the best parameters, and hyperparameter search returns a configuration no worse than the default.',
      'every data set and configuration', 'Convergence depends on the data.',
      ['pyforecaster/forecasting_models', 'pyforecaster/trainer.py'],
      [('training', 'NN.fit, hyperpar_optimizer')], ['the losses of the fitted models'],
      'Convergence of stochastic optimisation is a runtime quantity.'),
]
NOTES = 'Checks run on the system python3 with the standard library only; see DESIGN.md.'
