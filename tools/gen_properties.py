#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this after editing)."""
import json, os

K = 'kamrecsys/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [K + f if not f.startswith(('scripts/', 'data/')) else f
                      for f in files],
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': observe, 'hook_needed': None}})


prop('C01', 'Internal ids are a bijection and events round-trip',
     'After events are loaded into a container, each object type has exactly '
     'as many objects as there are distinct external ids in that type\'s '
     'columns, with internal ids 0..n-1 assigned one-to-one and consistently '
     'by both lookup directions. Every stored event is made of those internal '
     'ids, in the given row and column order, and converting the stored '
     'events (all of them or a single one) back to external ids gives exactly '
     'the events that were loaded.',
     ['inputs', 'configurations'],
     'every event array with integer or string ids (repeats, any order), '
     'every assignment of event columns to object types (shared types, '
     'permuted types, types no column uses)',
     'The data tests load two fixed files, which are not shipped, and look '
     'at one default column layout; no test ranges over id patterns or '
     'column/type layouts.',
     ['data/base.py', 'data/event.py'],
     [('ObjectUtilMixin._gen_id, to_eid, to_iid', 'kamrecsys/data/base.py'),
      ('EventData.set_event, EventUtilMixin.to_eid_event',
       'kamrecsys/data/event.py')],
     ['EventData.set_event', 'to_iid', 'to_eid', 'to_eid_event',
      'to_iid_event', 'n_objects', 'event'],
     [('eid/iid', 'per-type tables between external and internal ids',
       'kamrecsys/data/base.py')])

prop('C02', 'Unknown ids are flagged, never mistaken for another object',
     'Converting events from external to internal ids maps every known id to '
     'its own internal id and every unknown id to the placeholder of its '
     'column: the number of objects of that column\'s type, or the '
     'placeholder the caller gave. Looking up a single unknown external id, '
     'or an internal id outside 0..n-1, raises ValueError, and an event array '
     'of the wrong width raises TypeError.',
     ['inputs', 'configurations'],
     'every loaded event set, every queried event whether its ids are known '
     'or not, every column/type layout, default and given placeholders',
     'Tests convert a few hand-picked ids of one data file that is not '
     'shipped; unknown ids in permuted or shared columns are never tried.',
     ['data/base.py', 'data/event.py'],
     [('to_iid / to_eid', 'kamrecsys/data/base.py'),
      ('EventUtilMixin.to_iid_event', 'kamrecsys/data/event.py')],
     ['to_iid_event', 'to_iid', 'to_eid'])

prop('C03', 'Filtering events keeps exactly the selected data, aligned',
     'Filtering a container by a boolean mask or by event indexes yields a '
     'container with exactly the selected events in order, each with its own '
     'score and event feature, and with only the objects that still occur, '
     'renumbered 0..n-1 without gaps in their previous relative order. In '
     'external ids nothing changes: each kept event, its score, and the '
     'feature row of each kept object are the same before and after.',
     ['inputs', 'histories', 'configurations'],
     'every event set, mask or index selection, object features present or '
     'absent, repeated filtering, shared and permuted object types',
     'Only one fixed filter of a data file that is not shipped is tested; '
     'alignment of ids, scores, event features and object features under '
     'arbitrary selections is not.',
     ['data/event.py', 'data/event_with_score.py', 'data/base.py'],
     [('EventData.filter_event', 'kamrecsys/data/event.py'),
      ('EventWithScoreData.filter_event',
       'kamrecsys/data/event_with_score.py'),
      ('_gen_id_substitution_table', 'kamrecsys/data/base.py')],
     ['filter_event'])

prop('C04', 'Object features stay attached to their external ids',
     'When a feature table is attached to an object type, the feature row '
     'stored for an object is the table row listed under that object\'s '
     'external id, whatever the order of the table and whatever extra ids it '
     'lists. Attaching to one type changes no other type, and loading other events '
     'leaves no feature of another object behind.',
     ['inputs', 'configurations'],
     'every set of loaded objects, every permutation and superset of ids in '
     'the feature table, plain and structured features',
     'Tests look at a few cells of shipped-elsewhere data sets whose tables '
     'are already sorted, so a misaligned permutation is never seen.',
     ['data/base.py'],
     [('BaseData.set_feature', 'kamrecsys/data/base.py')],
     ['set_feature', 'feature'])

prop('C05', 'Score levels, bins and digitised scores agree',
     'For a score domain (min, max, stride) whose range is a whole number m '
     'of strides, also when the stride is a decimal such as 0.1, the number '
     'of levels is m+1, the reported levels are min, min+stride, ..., max, '
     'and there are m+2 bin boundaries, the inner ones half-way between '
     'adjacent levels. Digitising maps the i-th level to i and any score to '
     'the level whose bin contains it, always within 0..m.',
     ['inputs', 'configurations'],
     'every min, positive stride and whole number of strides (as decimals '
     'stored in binary floating point), every score, stored or passed in; '
     'explicit domains and domains estimated from the scores',
     'Tests use integer strides or 0.5, where floating point is exact; '
     'decimal strides and off-level scores are not sampled.',
     ['data/event_with_score.py', 'metrics/base.py'],
     [('generate_score_bins', 'kamrecsys/metrics/base.py'),
      ('set_event, get_score_levels, digitize_score',
       'kamrecsys/data/event_with_score.py')],
     ['EventWithScoreData.set_event', 'n_score_levels', 'get_score_levels',
      'generate_score_bins', 'digitize_score'])

prop('C06', 'Binarising scores thresholds every score and fixes the domain',
     'Binarising replaces each score by 0 if it is at most the threshold and '
     'by 1 otherwise, the default threshold being the middle of the score '
     'domain, and a given threshold of zero being honoured. Afterwards the '
     'domain is (0, 1, 1) with two levels, the order of events is unchanged, '
     'and binarising again with the default changes nothing.',
     ['inputs', 'histories'],
     'every score vector, score domain and threshold (default, zero, '
     'negative, on a level)',
     'One fixed data file that is not shipped is binarised at one threshold.',
     ['data/event_with_score.py'],
     [('EventWithScoreData.binarize_score',
       'kamrecsys/data/event_with_score.py')],
     ['binarize_score', 'score', 'score_domain', 'n_score_levels'])

prop('C07', 'Containers and models never leak changes into each other',
     'Loading, filtering, binarising, fitting, predicting and computing '
     'metrics leave the arrays and dictionaries the caller passed in '
     'unchanged, and filtering and fitting leave the source container '
     'unchanged. Reloading, binarising or re-featuring a container afterwards '
     'changes neither a container filtered from it nor a model fitted on it, '
     'and changing the filtered container does not change its source. A '
     'container keeps its contents when the caller later overwrites the arrays '
     'of events, scores and features it was loaded from.',
     ['inputs', 'histories'],
     'every small data set and every sequence of load / filter / fit / '
     'modify steps of the listed kinds',
     'No test modifies an object after deriving another from it.',
     ['data/base.py', 'data/event.py', 'data/event_with_score.py',
      'base/base.py'],
     [('_set_object_info, _set_event_info, _set_score_info',
       'kamrecsys/data/base.py, event.py, event_with_score.py'),
      ('EventData.set_event / filter_event', 'kamrecsys/data/event.py')],
     ['set_event', 'filter_event', 'fit', 'predict', 'binarize_score'])

prop('C08', 'PMF training minimises the stated loss with its exact gradient',
     'What PMF hands to the optimiser is, at every parameter vector, half the '
     'sum of squared errors between the training scores and the predictions '
     'those parameters give (global bias + user bias + item bias + product of '
     'factors), plus half C times the squared norm of biases and factors '
     '(global bias excluded). The gradient handed over is the exact gradient '
     'of that function.',
     ['inputs', 'configurations'],
     'every parameter vector, score vector, C, number of factors, and event '
     'pattern (repeated pairs, objects without events)',
     'Tests compare a handful of loss values on one data file that is not '
     'shipped; a wrong gradient component still passes.',
     ['score_predictor/matrix_factorization.py'],
     [('PMF.loss, PMF.grad_loss, PMF.fit',
       'kamrecsys/score_predictor/matrix_factorization.py')],
     ['function, gradient, start point and arguments given to '
      'scipy.optimize.minimize by PMF.fit'])

prop('C09', 'Logistic PMF training minimises cross-entropy with its gradient',
     'What the explicit logistic PMF hands to the optimiser is, at every '
     'parameter vector, the summed cross-entropy of the binary training '
     'scores under the predicted probabilities, plus half C times the squared '
     'norm of biases and factors (global bias excluded). The gradient handed '
     'over is the exact gradient of that function (away from the clipping '
     'bounds of the sigmoid).',
     ['inputs', 'configurations'],
     'every parameter vector, binary score vector, C, number of factors and '
     'event pattern',
     'Tests compare a handful of loss values on one data file that is not '
     'shipped.',
     ['item_finder/matrix_factorization.py'],
     [('LogisticPMF.loss, grad_loss, fit',
       'kamrecsys/item_finder/matrix_factorization.py')],
     ['function, gradient, start point and arguments given to '
      'scipy.optimize.minimize by LogisticPMF.fit'])

prop('C10', 'Implicit PMF trains on every user-item pair, seen or not',
     'What the implicit logistic PMF hands to the optimiser is, at every '
     'parameter vector, the cross-entropy summed over all user-item pairs, '
     'with target 1 for a pair that occurs in the events (however often) and '
     '0 otherwise, plus half C times the squared norm of biases and factors. '
     'The gradient handed over is exact, and the implicit feedback matrix is '
     'the same 0/1 matrix in every sparse format offered.',
     ['inputs', 'configurations'],
     'every set of events including repeated ones, parameter vector, C, '
     'number of factors and sparse format',
     'Tests check a few loss values for one event file without repeats, '
     'which is not shipped.',
     ['item_finder/matrix_factorization.py', 'item_finder/base.py'],
     [('ImplicitLogisticPMF.loss, grad_loss, fit',
       'kamrecsys/item_finder/matrix_factorization.py'),
      ('BaseImplicitItemFinder.get_event_array',
       'kamrecsys/item_finder/base.py')],
     ['scipy.optimize.minimize arguments', 'get_event_array'])

prop('C11', 'A fitted factor model predicts from the optimiser\'s solution',
     'After fitting, PMF and both logistic PMFs predict for a known user and '
     'item exactly what the parameters returned by the optimiser give: global '
     'bias + user bias + item bias + product of factors, passed through the '
     'logistic function for the item finders. An unknown user or item '
     'contributes nothing (zero bias and factors), so an all-unknown event is '
     'predicted from the global bias alone.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every solution vector the optimiser may return (converged or not), '
     'every training set and every query with known or unknown ids, any '
     'number of users, items and factors including one',
     'Tests compare a few predictions after one real optimisation on data '
     'that is not shipped; a swapped block of parameters is not seen.',
     ['score_predictor/matrix_factorization.py',
      'item_finder/matrix_factorization.py', 'base/base.py'],
     [('fit (unpacking of the solution), raw_predict',
       'kamrecsys/score_predictor/matrix_factorization.py, '
       'kamrecsys/item_finder/matrix_factorization.py')],
     ['predict', 'mu_, bu_, bi_, p_, q_'])

prop('C12', 'Predictions depend only on the event\'s own selected ids',
     'Predicting a batch gives, row by row, the same value as predicting each '
     'event alone, in order. With an event index the model is trained on and '
     'predicts from exactly the selected columns in that order, with each id '
     'looked up in its own object type, so values in the other columns never '
     'matter; string ids work like integer ids.',
     ['inputs', 'configurations'],
     'every batch of known and unknown events, every event index (permuted, '
     'a subset of wider events), every column/type layout, integer and '
     'string ids',
     'Tests predict a few events with the identity column selection only and '
     'look at shapes for the swapped one.',
     ['base/base.py', 'data/event.py'],
     [('BaseEventRecommender.fit, predict', 'kamrecsys/base/base.py'),
      ('to_iid_event', 'kamrecsys/data/event.py')],
     ['fit(event_index=...)', 'predict', 'get_event'])

prop('C13', 'Explicit item finders accept exactly the binary data',
     'Fitting the explicit logistic PMF succeeds exactly when the score '
     'domain is (0, 1, 1) with two levels and the scores consist of both 0s '
     'and 1s and nothing else. Any other data raise ValueError, before '
     'anything is optimised.',
     ['inputs'],
     'every score vector and score domain, incl. all-0, all-1, off-level, '
     'and multi-level scores',
     'Tests try a single non-binary data set.',
     ['item_finder/base.py', 'utils/base.py'],
     [('BaseExplicitItemFinder.fit', 'kamrecsys/item_finder/base.py'),
      ('is_binary_score', 'kamrecsys/utils/base.py')],
     ['LogisticPMF.fit'])

prop('C14', 'pLSA training performs exact smoothed EM on distributions',
     'At every iteration of multinomial pLSA training, the latent, user, item '
     'and rating distributions are proper (non-negative, summing to one) and '
     'equal the alpha-smoothed expected counts under the posterior of the '
     'latent class that the previous parameters give for each rated event. '
     'The reported losses are the mean negative log-likelihoods of the '
     'training ratings under the first and the last parameters.',
     ['inputs', 'configurations', 'histories'],
     'every training set, initial random posterior, number of latent classes '
     'and smoothing; one EM step from arbitrary parameters',
     'Tests check a few loss values on one data set that is not shipped.',
     ['score_predictor/topic_model.py'],
     [('MultinomialPLSA.fit, maximization_step, loss, _init_params',
       'kamrecsys/score_predictor/topic_model.py')],
     ['pZ_, pXgZ_, pYgZ_, pRgZ_', 'fit_results_'])

prop('C15', 'pLSA predicts the mean or mode of the rating distribution',
     'A fitted pLSA model predicts for a user and item the expectation of the '
     'rating under Pr[rating | user, item] of its learned distributions, or '
     'with use_expectation off the most probable rating level, so predictions '
     'always stay within the score domain. An unknown user or item is '
     'marginalised out: it adds the same constant factor for every latent '
     'class.',
     ['inputs', 'configurations'],
     'every set of learned distributions, score domain, query with known or '
     'unknown ids, number of latent classes, both prediction modes',
     'A few predictions of one fitted model are compared to recorded '
     'numbers, on data that is not shipped.',
     ['score_predictor/topic_model.py', 'data/event_with_score.py'],
     [('MultinomialPLSA.raw_predict',
       'kamrecsys/score_predictor/topic_model.py'),
      ('get_score_levels', 'kamrecsys/data/event_with_score.py')],
     ['predict'])

prop('C16', 'A seed makes fitting reproducible and isolated',
     'Fitting any recommender with a given integer seed gives the same model '
     'every time: on a second instance, when the same instance is fitted '
     'again, whatever other models were fitted in between and whatever the '
     'state of the global random generator, which fitting does not touch. A '
     'given random generator object is used, and without a seed the global '
     'generator is.',
     ['inputs', 'histories'],
     'every stream of random numbers, every training set, every interleaving '
     'of fits of two instances, all four recommenders',
     'Tests fit once with a fixed seed; leaks of state between fits or '
     'instances are invisible.',
     ['base/base.py', 'score_predictor/matrix_factorization.py',
      'score_predictor/topic_model.py',
      'item_finder/matrix_factorization.py'],
     [('BaseRecommender.fit (check_random_state)', 'kamrecsys/base/base.py'),
      ('_init_coef / _init_params', 'the recommender modules')],
     ['start point given to the optimiser', 'learned attributes'])

prop('C17', 'Error metrics equal their definitions and reject bad input',
     'Mean absolute error, mean squared error and root mean squared error '
     'and their standard deviations equal the textbook formulas over all '
     'pairs of true and predicted scores. Inputs of different lengths or '
     'with NaN or infinite values raise ValueError.',
     ['inputs'],
     'every pair of score vectors (integers or reals, any sign), incl. '
     'mismatched lengths and non-finite entries',
     'One fixed vector pair per function is tested.',
     ['metrics/real.py'],
     [('mean_absolute_error, mean_squared_error', 'kamrecsys/metrics/real.py')],
     ['mean_absolute_error', 'mean_squared_error'])

prop('C18', 'Score histograms count every score at its own level',
     'A score histogram has one count per score level and reports exactly '
     'those levels; each score, also one outside the domain, is counted once, '
     'at the level whose bin contains it, so that counts add up to the number '
     'of scores and agree with digitising. Given a number of bins instead, '
     'plain or numpy integer, that many equal-width bins over the range of '
     'the scores are used and their centres are reported.',
     ['inputs', 'configurations'],
     'every score vector, score domain and number of bins',
     'One vector with one integer domain is tested.',
     ['metrics/real.py', 'metrics/base.py'],
     [('score_histogram', 'kamrecsys/metrics/real.py'),
      ('generate_score_bins', 'kamrecsys/metrics/base.py')],
     ['score_histogram'])

prop('C19', 'Variance with Gamma prior equals its formula on valid data',
     'The variance with a Gamma prior equals (2b + sum of squares - squared '
     'sum / n) / (2a + n) over the finite inputs, for integer as well as real '
     'inputs, with the number of finite inputs reported on request. It is '
     'positive, and raises ValueError when no finite value is left, or, when '
     'finiteness is enforced, when any value is not finite or there is none.',
     ['inputs', 'configurations'],
     'every vector of integers (of any width) or reals with NaN or infinite '
     'entries, every a and b > 0, both settings of the finiteness flag',
     'Four fixed vectors are tested; integer overflow and non-finite input '
     'under enforcement are not.',
     ['metrics/real.py'],
     [('variance_with_gamma_prior', 'kamrecsys/metrics/real.py')],
     ['variance_with_gamma_prior'])

prop('C20', 'Item-finder summaries are right and guard their input',
     'Item-finder report and statistics give the number of samples, the mean '
     'and standard deviation of true and predicted scores, and the area under '
     'the ROC curve of exactly these predictions when both classes occur; '
     'with one class the area is left out. Non-binary true scores, unequal '
     'lengths and non-finite values raise ValueError.',
     ['inputs'],
     'every true and predicted score vector, valid or not, ties included',
     'One fixed vector pair per function is tested.',
     ['metrics/item_finder.py', 'utils/base.py'],
     [('item_finder_report, item_finder_statistics',
       'kamrecsys/metrics/item_finder.py')],
     ['item_finder_report', 'item_finder_statistics'])

prop('C21', 'Score-predictor summaries agree with the underlying metrics',
     'Score-predictor report and statistics give the number of samples, the '
     'error metrics, means and standard deviations of true and of predicted '
     'scores under the right headings, and histograms over the score levels '
     'whose densities are the counts divided by the number of samples. '
     'Unequal lengths and non-finite values raise ValueError.',
     ['inputs', 'configurations'],
     'every true and predicted score vector and score domain',
     'One fixed vector pair per function is tested.',
     ['metrics/score_predictor.py', 'metrics/real.py'],
     [('score_predictor_report, score_predictor_statistics',
       'kamrecsys/metrics/score_predictor.py')],
     ['score_predictor_report', 'score_predictor_statistics'])

prop('C22', 'Averaging a statistic over folds pairs matching entries',
     'Averaging a statistic over folds applies the given function to the '
     'entries of the same key (dictionaries) or the same position (lists) of '
     'all arguments and returns the mean of the results, whatever the order '
     'in which keys were inserted. Other argument types raise TypeError.',
     ['inputs'],
     'every set of dictionaries or lists of values, every statistic of one '
     'or more arguments, scalar or vector valued',
     'Two fixed dictionaries are tested; the documented list form never is.',
     ['metrics/base.py'],
     [('statistics_mean', 'kamrecsys/metrics/base.py')],
     ['statistics_mean'])

prop('C23', 'Binary-score recognition is exact',
     'A score array is recognised as binary exactly when all its values are 0 '
     'or 1, it is not empty and, if uniform arrays are disallowed, both '
     'values occur.',
     ['inputs'],
     'every vector of integers or reals, both settings of the flag',
     'Eight fixed arrays are tested.',
     ['utils/base.py'],
     [('is_binary_score', 'kamrecsys/utils/base.py')],
     ['is_binary_score'])

prop('C24', 'The safe sigmoid is monotone and bounded away from 0 and 1',
     'The safe sigmoid equals the logistic function inside its clipping '
     'range, never leaves [1e-15, 1-1e-15] (up to rounding), whatever finite '
     'or infinite input it gets, is monotone, symmetric '
     '(s(-x) = 1 - s(x)) and applied element by element without changing its '
     'input.',
     ['inputs'],
     'every real or infinite argument, scalars and arrays',
     'The function has no test at all.',
     ['utils/kammath.py'],
     [('safe_sigmoid', 'kamrecsys/utils/kammath.py')],
     ['safe_sigmoid'])

prop('C25', 'Making results JSON-ready keeps structure and values',
     'Making a nested dictionary or list JSON-ready always leaves something '
     'the JSON encoder accepts, with the same keys, lengths and nesting, in '
     'which every integer, real and boolean value, plain or inside arrays or '
     'sparse matrices, is preserved as the corresponding JSON value.',
     ['inputs'],
     'every nesting of dictionaries and lists holding plain and numpy '
     'scalars, arrays, sparse matrices and other objects',
     'The function has no test at all.',
     ['utils/kamexputils.py'],
     [('json_decodable', 'kamrecsys/utils/kamexputils.py')],
     ['json_decodable'])

prop('C26', 'Interlaced k-fold assigns the i-th sample to fold i mod k',
     'The interlaced k-fold splitter yields exactly k splits; the i-th sample '
     'is in the test set of split (i mod k) and of no other, and the training '
     'set of each split is exactly the rest. Fewer samples than folds, or '
     'fewer than two folds, raise ValueError.',
     ['inputs', 'configurations'],
     'every number of samples and folds',
     'The model-selection tests cannot be imported with the installed '
     'scikit-learn, and sample one size.',
     ['model_selection/split.py'],
     [('InterlacedKFold.split', 'kamrecsys/model_selection/split.py')],
     ['InterlacedKFold.split', 'get_n_splits'])

prop('C27', 'Within-group k-fold partitions every group evenly',
     'The within-group k-fold splitter yields k splits whose test sets are '
     'disjoint and cover all samples, each training set being exactly the '
     'rest. Within every group the sizes of its k test parts differ by at '
     'most one, with or without shuffling and however group labels are '
     'arranged; without shuffling the test part of fold f is the f-th '
     'contiguous part of each group.',
     ['inputs', 'configurations'],
     'every group labelling, number of samples and folds (groups at least as '
     'large as the number of folds), every shuffle outcome',
     'The tests cannot be imported here and sample one labelling.',
     ['model_selection/split.py'],
     [('KFoldWithinGroups._iter_test_masks',
       'kamrecsys/model_selection/split.py')],
     ['KFoldWithinGroups.split', 'get_n_splits'])

prop('C28', 'Within-group shuffle split samples every group in proportion',
     'Each split of the within-group shuffle splitter divides all samples '
     'into disjoint training and test sets, and every group contributes to '
     'the test set the number of samples that the given test (or training) '
     'size prescribes for a group of its size, rounded as scikit-learn does. '
     'The requested number of splits is produced, the same ones for the same '
     'seed.',
     ['inputs', 'configurations'],
     'every group labelling, test size and shuffle outcome',
     'The tests cannot be imported here and sample one labelling.',
     ['model_selection/split.py'],
     [('ShuffleSplitWithinGroups._iter_test_masks',
       'kamrecsys/model_selection/split.py')],
     ['ShuffleSplitWithinGroups.split', 'get_n_splits'])

prop('C29', 'Event files load column by column without mixing',
     'Loading an event file gives one event per line in file order: the '
     'leading columns are the external ids in the given column/type layout, '
     'the next column is the score when scores are expected, and the '
     'remaining columns are the event features. Number of events, score '
     'domain and levels follow the arguments, also for a file of one line.',
     ['inputs', 'configurations'],
     'every table of values a file can parse to (from one line up), every '
     'layout of object types, with and without scores and event features',
     'One fixed small file is loaded.',
     ['datasets/base.py'],
     [('load_event, load_event_with_score', 'kamrecsys/datasets/base.py')],
     ['load_event', 'load_event_with_score'])

prop('C30', 'Sample-set loaders attach the documented domain and features',
     'Each named sample loader returns the events of its file with the '
     'documented score domain and number of score levels, user features on '
     'users and item features on items with the documented field names in '
     'order, every feature row belonging to the object of its id.',
     ['inputs', 'configurations'],
     'every content the event, user and item files can parse to; MovieLens '
     '100k, 1M and mini, Sushi3b, Flixster, PCI',
     'The sample files are not shipped, so these loaders never run in the '
     'tests.',
     ['datasets/movielens.py', 'datasets/sushi3.py', 'datasets/flixster.py',
      'datasets/others.py'],
     [('load_movielens100k, load_movielens1m, load_movielens_mini',
       'kamrecsys/datasets/movielens.py'),
      ('load_sushi3b_score', 'kamrecsys/datasets/sushi3.py'),
      ('load_flixster_rating', 'kamrecsys/datasets/flixster.py'),
      ('load_pci_sample', 'kamrecsys/datasets/others.py')],
     ['the load_* functions'])

prop('C31', 'Cross-validation never tests on training events',
     'In a cross-validation experiment every fold fits a fresh model on the '
     'events outside its test set only and predicts exactly the test events; '
     'recorded events, true scores, predictions, event features and masks of '
     'a fold refer to the same events in the same order. Running one fold '
     'alone records the same fold as running all of them with the same seed.',
     ['inputs', 'configurations'],
     'every data set, split outcome, number of folds and target fold, with '
     'and without event features',
     'The scripts have no tests.',
     ['scripts/exp_recsys_util.py'],
     [('cv_test, training, testing, do_task', 'scripts/exp_recsys_util.py')],
     ['the result dictionary filled by do_task / cv_test'])

prop('C32', 'Hold-out experiments record what was trained and tested',
     'A hold-out experiment fits once on the training file and predicts the '
     'test file; the recorded events, true scores, predictions and features '
     'are those of the test file in order. Event, user and item counts, the '
     'file each came from and start and end times are recorded under the set '
     'they belong to.',
     ['inputs', 'configurations'],
     'every pair of training and test data, with and without event features',
     'The scripts have no tests.',
     ['scripts/exp_recsys_util.py'],
     [('holdout_test, training, testing', 'scripts/exp_recsys_util.py')],
     ['the result dictionary filled by do_task / holdout_test'])

prop('C33', 'Merging and summarising fold results loses nothing',
     'Merging per-fold result files gives the same folds, predictions and '
     'results as the files hold, each under its own fold number whatever the '
     'order of the files. Statistics computed from a result file cover all '
     'its predictions, each paired with its own true score, by the statistics '
     'of its task type; the input predictions are kept only on request.',
     ['inputs', 'configurations'],
     'every set of fold results, order of files and fold numbering, both task '
     'types, single and multi-fold files',
     'The scripts have no tests.',
     ['scripts/exp_recsys_fold_merge.py', 'scripts/stats_recsys.py'],
     [('first_fold, rest_fold, do_task', 'scripts/exp_recsys_fold_merge.py'),
      ('do_task', 'scripts/stats_recsys.py')],
     ['merged JSON', 'statistics JSON'])

prop('C34', 'Fitting results report what actually happened',
     'After fitting, the reported numbers of users, items, events and '
     'parameters are those of the training data and model, the reported '
     'initial and final losses, success flag, status, message and iteration '
     'counts are those of the optimisation just run (also when the model is '
     'fitted again), and each status code has its documented message. The '
     'fitted model keeps no training events or scores.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every outcome the optimiser can report (success, iteration limit, '
     'precision loss), every training set, fitting twice',
     'A few values after one successful optimisation on data that is not '
     'shipped.',
     ['score_predictor/matrix_factorization.py',
      'score_predictor/topic_model.py',
      'item_finder/matrix_factorization.py', 'utils/base.py',
      'base/base.py'],
     [('fit', 'the recommender modules'),
      ('get_fit_status_message', 'kamrecsys/utils/base.py'),
      ('remove_data', 'kamrecsys/base/base.py')],
     ['fit_results_', 'get_fit_status_message'])

prop('C35', 'Optimiser options reach the optimiser and stay per instance',
     'The options given when a recommender is created (iteration limit, '
     'tolerance, method, further optimiser options) are the ones its '
     'optimisation runs with, with the documented defaults otherwise. '
     'Creating or fitting one recommender changes neither the option '
     'dictionaries of the caller nor the options of any other recommender.',
     ['configurations', 'histories'],
     'every combination of given and omitted options and every iteration '
     'limit and tolerance, on one or several instances',
     'Tests pass at most one option and never look at what the optimiser '
     'received.',
     ['score_predictor/matrix_factorization.py',
      'item_finder/matrix_factorization.py',
      'score_predictor/topic_model.py'],
     [('__init__ and fit (optimizer_kwargs)', 'the recommender modules')],
     ['keyword arguments given to scipy.optimize.minimize',
      'number of EM iterations'])

prop('C36', 'Experiment scripts pass options and scores through unchanged',
     'The experiment scripts build the recommender that the chosen method '
     'names with exactly the given hyper-parameters and seed, load data with '
     'the given score domain or, if none is given, the one estimated from the '
     'scores, and record the domain used. The item-finder script trains and '
     'tests on scores binarised at the middle of that domain.',
     ['configurations', 'inputs'],
     'every combination of command-line options and every score vector',
     'The scripts have no tests.',
     ['scripts/exp_recsys_sp.py', 'scripts/exp_recsys_if.py'],
     [('load_data, init_info', 'scripts/exp_recsys_sp.py, exp_recsys_if.py')],
     ['init_info', 'load_data'])

prop('C37', 'Data-set converters keep every rating and feature',
     'Each conversion script writes, after comment lines, one line per '
     'original rating or object in the original order with the fields in the '
     'documented order and coding (gender, occupation, age, genres, dates), '
     'skipping only what is documented: missing ratings in the sushi data, '
     'and users or items above 10 in the mini set.',
     ['inputs'],
     'every content of the original files with the documented format',
     'The converters have no tests and their inputs are not shipped.',
     ['data/movielens100k.py', 'data/movielens1m.py', 'data/movielens_mini.py',
      'data/flixster.py', 'data/sushi3.py'],
     [('module body', 'data/*.py')],
     ['the written .event, .user and .item files'])

prop('C38', 'Environment information describes the machine and packages',
     'The environment report collects the operating system, hardware and '
     'package versions of the running process, and hides the host name '
     'unless it is asked for.',
     ['configurations', 'inputs'],
     'every system name, platform answer, hardware listing and version text, '
     'every order of calls with and without the host name',
     'A test sees only the machine it runs on, hence one of four branches.',
     ['utils/kamexputils.py'],
     [('get_system_info, get_version_info', 'kamrecsys/utils/kamexputils.py')],
     ['get_system_info', 'get_version_info'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                   'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, sort_keys=True) + '\n')
print(len(P))
