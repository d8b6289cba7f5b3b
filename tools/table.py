TESTS = ('The tests run two small models on one fixed data set and compare a few outputs with stored arrays or with a second '
         'implementation that shares the same definitions. ')

prop('P01', 'A fitted tree model is explained through its own trees',
     'For every supported tree model, at every input row (on, between or beyond the split thresholds), the ensemble held by the tree explainer predicts what the model itself outputs: '
     'class probabilities for classification forests and trees, the value for regression, the raw margin for boosting and the average path length for isolation forests; missing values go the way the model sends them. '
     'Conditional expectations and Shapley values computed from a fitted model are the ones defined by that ensemble.',
     ['inputs', 'programs'], 'Over fitted models of each supported class (scikit-learn trees, forests, extra trees, gradient boosting, histogram boosting, isolation forest; XGBoost; LightGBM; ranger forests; dictionaries and tree lists; GPBoost, CatBoost, Spark, NGBoost, imbalanced-learn and skopt by stand-ins in their formats) and all input rows.',
     TESTS + 'No test compares the converted ensemble with the model it came from, and conversions differ in split convention, scaling, offsets and the number of trees per class.',
     [BASE], [('conversion of fitted models', BASE + ':BaseTree.__init__, SingleTree'), ('prediction of the ensemble', BASE + ':BaseTree.predict')],
     'Random fitted models and rows aimed at the thresholds; the trees are read from the fitted model by the harness, their meaning is the specification\'s.')

prop('P02', 'Tree Shapley values are those of the conditional-expectation game',
     'For every tree ensemble, background data and row, the Shapley value of a feature equals its average marginal contribution, over all orders of the features, in the game that gives a set S of features the leaf estimate of E[f(X) | X_S = x_S]. '
     'So values add up to the prediction minus the background expectation, features that no tree tests get zero, and the parallel, sequential, cached and pure-Python computations agree.',
     ['inputs', 'programs', 'configurations'], 'Over all ensembles, background rows and explained rows (including rows equal to a threshold and leaves without background rows), with and without cache and threads.',
     TESTS + 'The closed form groups features by leaf and weighs coalitions; an error in a weight, a bound or a rarely empty leaf shows only on particular trees and rows.',
     [PA, NOPA, CACHE, TREE, PYA], [('parallel', PA + ':shap_values_leaves_pa'), ('sequential', NOPA + ':shap_values_leaves_nopa'), ('cached', CACHE + ':shap_values_leaves_cache, leaves_cache'), ('python', PYA + ':shap_values_leaves*')],
     'Exhaustive on the specification for small trees (formula = definition over orders, efficiency, dummy); implementation judged with exact rationals on random ensembles.')

prop('P03', 'Grouped variables act as one player in Shapley values',
     'When columns are grouped, the Shapley values are those of the game whose players are the groups and the remaining single columns: every column of a group carries the value of the group, and single columns carry their own. '
     'This holds for every partial grouping, in any order of columns and groups, for the parallel, sequential, cached and Python computations.',
     ['inputs', 'programs', 'configurations'], 'Over all disjoint groupings of two or more columns, ensembles, data and rows.',
     TESTS + 'One grouping of one-hot columns is tested; groups that straddle a leaf\'s tested features, several groups, and groups in unusual order are not.',
     [PA, NOPA, CACHE, TREE, PYA], [('group handling in coalitions', PA + ':shap_values_leaves_pa'), ('cached coalitions', CACHE + ':leaves_cache')],
     'As the ungrouped property, with random groupings.')

prop('P05', 'Active Shapley values attribute among active features only, given the null ones',
     'For every choice of active features, null features and groups, the Active Shapley value of an active player is its Shapley value in the game restricted to the active players, in which any non-empty set of players is valued with the null features known as well and the empty set with nothing known; every other column is zero. '
     'The per-row version gives each row the values for its own active and null features, and the parallel, sequential and Python computations agree.',
     ['inputs', 'programs', 'configurations'], 'Over all splits of the features into active and null ones, per batch or per row, groupings, ensembles, data and rows.',
     TESTS + 'Empty null sets, single active features, leaves that test only null features and rows with different sets are outside the tests.',
     [PA, NOPA, TREE, PYA, UTILS], [('one set for all rows', PA + ':shap_values_acv_leaves'), ('one set per row', PA + ':shap_values_acv_leaves_adap'), ('sequential', NOPA + ':shap_values_acv_leaves_nopa')],
     'Random ensembles and splits; every result judged with exact rationals.')

prop('P06', 'Conditional expectations on trees are ratios of background counts',
     'For every set S of columns (empty and full included), the conditional expectation of a row is the sum over the leaves compatible with the row on S of the leaf output times the fraction, among background rows compatible with the leaf on S, of those that fall in the leaf. '
     'The discrete variant conditions on equality with the row on S; the normalized variant divides the fractions of each tree by their sum; the parallel, sequential and Python computations agree.',
     ['inputs', 'programs', 'configurations'], 'Over all ensembles, background data, rows and sets S.',
     TESTS + 'Boundary rows, empty leaves and the empty set are not reached.',
     [PA, NOPA, TREE, EXP], [('parallel', PA + ':compute_exp, compute_exp_cat, compute_exp_normalized'), ('sequential', NOPA + ':compute_exp_nopa, compute_exp_cat_nopa'), ('python', EXP)],
     'Random ensembles, rows and sets; exact rationals.')

prop('P07', 'Same Decision Probability of tree classifiers follows its definition',
     'For every classifier, background data, row and set S, the Same Decision Probability is the position of the conditional expectation of the predicted class, given the row on S, between its expectation over background rows predicted otherwise (0) and over those predicted alike (1). '
     'It is 0 for the empty set, 1 for the full set and 0 when neither kind of row is compatible; the discrete variant conditions on equality and is clipped to [0, 1]; parallel and sequential computations agree.',
     ['inputs', 'programs', 'configurations'], 'Over all classifiers (2 or more classes), background data, rows and sets S, except where both reference expectations coincide.',
     TESTS + 'One binary model is tested with a few sets.',
     [PA, NOPA, TREE], [('parallel', PA + ':compute_sdp_clf, compute_sdp_clf_cat'), ('sequential', NOPA + ':compute_sdp_clf_nopa, compute_sdp_clf_cat_nopa')],
     'Random ensembles of probability trees with 2-3 classes; exact rationals.')

prop('P08', 'The sufficient-set search on trees returns a minimal sufficient set',
     'For every classifier, row, level pi and search space, the searches return a smallest coalition of players whose Same Decision Probability reaches pi, and, among those of that size, one with the largest probability, together with that probability; when no coalition of the searched sizes reaches pi all columns are returned with probability 1. '
     'Grouped columns enter or leave together, only players in the search space are tried (the ten columns most used by the trees when there are more than ten), and a row keeps its answer once it is found, whatever the other rows of the batch do. '
     'Greedy, parallel, sequential and fixed-size variants return what their own size and stopping rules define.',
     ['inputs', 'programs', 'configurations'], 'Over all classifiers, rows, levels pi, minimal sizes, groupings and search spaces; rows for which two values are closer than rounding are not judged.',
     TESTS + 'Ties, groups, levels reached only by the full set, batches in which rows stop at different sizes and more than ten columns are not tested.',
     [PA, NOPA, TREE], [('parallel', PA + ':importance_sdp_clf_search, importance_sdp_clf_greedy, importance_sdp_clf_ptrees'), ('sequential', NOPA + ':importance_sdp_clf_nopa'), ('choice of the search space', TREE + ':importance_sdp_clf_search')],
     'The search is a state machine, checked exhaustively for every assignment of worths to small coalitions; recorded searches are judged against its outcome with the SDP of the specification.',
     technique='TLA+ state machine model-checked by TLC; recorded searches judged by TLC')

prop('P21', 'A search result carries over to the Active Shapley values row by row',
     'For every result of a search (or table of the same form), the helpers give each row its sufficient columns, unchanged and in order, and as null columns exactly the other ones, once each. '
     'The Active Shapley values computed from them are those of the game in which the sufficient columns (or groups) of that row are active and all its other columns null, whatever the sizes of the other rows.',
     ['inputs', 'configurations'], 'Over all search results and tables of sets with any mix of sizes (empty and full included), groupings and models.',
     TESTS + 'The chain is run on one data set and compared with nothing; a shifted or truncated set shows only on rows whose size differs from that of others.',
     [UTILS, TREE, PA, NOPA], [('splitting', UTILS + ':get_active_null_coalition_list, get_null_coalition'), ('search', TREE + ':ACVTree.importance_sdp_clf'), ('values', TREE + ':ACVTree.shap_values_acv_adap')],
     'Recorded chains from the search to the values, every stage judged by the specification.')

prop('P22', 'Normalized Shapley values are Shapley values of the normalized leaf games',
     'For every ensemble, background data, row and grouping, the normalized Shapley values are the sums over leaves of the Shapley values of the game that gives a set of the leaf\'s players the share of the leaf divided by the total share of its tree\'s leaves, and the empty set the background frequency of the leaf. '
     'The direct and the cached (parallel or sequential) computations agree.',
     ['inputs', 'programs', 'configurations'], 'Over all ensembles, background data, rows, groupings and cache settings.',
     'No test covers the normalized values.',
     [PA, NOPA, CACHE, TREE], [('direct', PA + ':shap_values_leaves_normalized'), ('cached', CACHE + ':shap_values_leaves_normalized_cache'), ('sequential cached', NOPA + ':shap_values_leaves_normalized_cache_nopa')],
     'Random ensembles and groupings; exact rationals.')

prop('P18', 'Regression SDP and its sufficient-set search follow the squared distance',
     'In regression, the Same Decision Probability of a set S is the position of the leaf estimate of E[(f(X) - f(x))^2 | X_S = x_S] between its estimate over background rows predicted farther from x than the threshold (0) and over the others (1), the square of the forest being the sum over all ordered pairs of trees. '
     'The discrete variant conditions on equality with the row, a constant offset of the model changes nothing, and parallel and sequential computations agree. '
     'The searches return a smallest coalition that reaches pi, with its value, or all columns with value 1.',
     ['inputs', 'programs', 'configurations'], 'Over all regression ensembles (fitted or given), background data, rows, thresholds, sets, groupings and levels pi, except where both reference estimates coincide.',
     'No test covers the regression estimators with more than one tree.',
     [PA, NOPA, TREE], [('pairs of trees', PA + ':compute_sdp_reg, compute_sdp_reg_cat'), ('search', PA + ':global_sdp_reg, global_sdp_reg_cat'), ('sequential', NOPA + ':compute_sdp_reg_nopa, global_sdp_reg_nopa')],
     'Random and fitted ensembles of one to three trees; exact rationals; the search outcome is that of the search state machine.')

prop('P19', 'Swing Shapley values are those of the game of sufficient coalitions',
     'For every classifier, row, threshold and grouping, the Swing value of a player is its Shapley value in the game in which a coalition wins when its Same Decision Probability reaches the threshold. '
     'It is the sum of a positive part (coalitions the player makes win) and a negative part (coalitions it makes lose), which are returned with the number of coalitions of each kind and of those it leaves unchanged.',
     ['inputs', 'programs'], 'Over all classifiers, rows, thresholds and groupings for which no coalition is closer to the threshold than rounding.',
     'No test covers the Swing values.',
     [PA, TREE], [('search over coalitions', PA + ':swing_sv_clf_direct'), ('sequential', NOPA + ':swing_sv_clf_direct_nopa'), ('interface', TREE + ':swing_sv_clf')],
     'Exhaustive on the specification: the split formula is the Shapley value over orders for every simple game on three players, and sums to the worth of the grand coalition; implementation judged with exact rationals.')

prop('P20', 'Marginal SDP and its search hold for any predictor',
     'For every predictor, background data, row and set S, the marginal Same Decision Probability is the share of background rows that, given the values of the row on S, keep its prediction (the class, or a value within the threshold); it is 1 for the full set. '
     'The search returns a smallest coalition of players of the search space that reaches pi, one with the largest value, or all columns with value 1, independently for each row of the batch.',
     ['inputs', 'programs'], 'Over all predictors, background data, rows, thresholds, groupings and search spaces; rows with values closer to pi than rounding are not judged.',
     'No test covers the marginal search.',
     ['acv_explainers/utils_sdp.py', TREE], [('probability', SDP + ':msdp, msdp_reg'), ('search', SDP + ':importance_msdp_clf_search, importance_msdp_reg_search')],
     'Random tree predictors; the outcome is that of the search state machine, checked exhaustively on small instances.',
     technique='TLA+ state machine model-checked by TLC; recorded searches judged by TLC')

PROJ = ('One estimator of the projected forest is tested on one forest, without thresholds that rows share, small cells, '
        'abandoned walks or sets per row. ')

prop('P09', 'Projected-forest estimates are means over the rows of the projected cells',
     'For every forest, training data, row, set S and smallest cell size, the projected-forest estimates (Same Decision Probability, expectation, distribution function and quantiles) are the weighted means, over the training rows, in which each tree shares its weight among the rows of the projected cell of the row. '
     'The cell holds the training rows that go with the row at every split on a column of S met by the descent, which takes both sides of other splits and is abandoned once fewer rows than the smallest size are left. '
     'Quantiles and the SHAFF estimates refine instead, refusing splits that leave too few rows.',
     ['inputs', 'programs'], 'Over all forests (fitted or given), training data, rows, sets S per row, smallest cell sizes, classes or intervals, levels.',
     PROJ, [PA, TREE, PYA, EXP], [('probability', PA + ':single_compute_sdp_rf'), ('SHAFF estimates', EXP + ':compute_shaff_*'), ('expectation', PA + ':single_compute_exp_rf'), ('distribution', PA + ':single_compute_cdf_rf'), ('quantiles', PA + ':single_compute_quantile_rf, single_compute_quantile_diff_rf')],
     'Exhaustive on the specification for every depth-two tree over two columns (cells, rules, weights); implementation judged with exact rationals on given, scikit-learn, XGBoost and ranger forests.',
     technique='TLA+ specification model-checked by TLC; recorded API calls judged by TLC')

prop('P10', 'The projected-forest search returns a minimal sufficient set',
     'For every forest, training data, row, level pi and grouping, the search returns a smallest coalition of players whose projected Same Decision Probability reaches pi, with a largest value among those of its size, that value, and its size, or the best coalition tried when none reaches pi. '
     'It tries the players in the search space only, up to half of them when asked to stop, and the answer of a row depends neither on the other rows nor on their order.',
     ['inputs', 'programs'], 'Over all forests, data, rows, levels pi, minimal sizes, groupings, smallest cells, with or without stopping; rows with values closer than rounding are not judged.',
     PROJ, [PA, TREE, PYA], [('search', PA + ':global_sdp_rf'), ('interface', TREE + ':importance_sdp_rf'), ('interface', AGN + ':ACXplainer.importance_sdp_rf')],
     'The outcome is that of the search state machine, checked exhaustively on small instances.',
     technique='TLA+ state machine model-checked by TLC; recorded searches judged by TLC')

prop('P11', 'All sufficient explanations are exactly the inclusion-minimal ones',
     'For every forest, training data, row, level pi and grouping, the enumeration of sufficient explanations returns exactly the coalitions of the searched sizes that reach pi and contain no smaller coalition that does, once each, with their values. '
     'The importance of a column is the share of all the returned explanations that contain it, and the local one averages that share over the rows that have explanations.',
     ['inputs', 'programs'], 'Over all forests, data, rows, levels pi, minimal sizes, groupings and smallest cells; rows with values closer to pi than rounding are not judged.',
     PROJ + 'Completeness and minimality are statements over all subsets.', [PA, TREE, PYA], [('enumeration', PA + ':sufficient_expl_rf'), ('local importance', AGN + ':ACXplainer.compute_local_sdp')],
     'The specification enumerates every coalition of each recorded case.')

prop('P12', 'A sufficient rule holds for every input inside it',
     'For every forest, training data, row and set S, the rule of the row is the intersection over the trees of the sides taken at the splits on columns of S met by its descent: it contains the row and bounds columns of S only. '
     'Every input inside the rule therefore has the same projected cells and the same Same Decision Probability given its values on S.',
     ['inputs', 'programs'], 'Over all forests, training data, rows, sets S and smallest cell sizes.',
     PROJ + 'The statement quantifies over all the inputs of a box.', [PA, PYA], [('rule', PA + ':single_compute_sdp_rule'), ('interface', AGN + ':ACXplainer.compute_sdp_rule')],
     'Exhaustive on the specification for every depth-two tree over two columns, all inputs of a grid included; the rules returned by the code are compared bound by bound.',
     technique='TLA+ specification model-checked by TLC; recorded API calls judged by TLC')

prop('P16', 'Divergent and counterfactual decision probabilities follow their definition',
     'For every forest, training data, row and set S, the Divergent (Counterfactual) Decision Probability is the weight of the training rows of the projected cells whose decision differs from that of the row (lies in the requested interval or class), returned with the rules and the weights of the cells. '
     'The searches return a smallest coalition that reaches pi when its columns change and the others keep their values, and the enumeration of divergent explanations returns exactly the inclusion-minimal ones.',
     ['inputs', 'programs'], 'Over all fitted forests, training data, rows, sets, intervals, levels pi, groupings and smallest cell sizes.',
     'No test covers the divergent explanations.', [PA, PYA], [('estimates', PA + ':single_compute_ddp_rf, single_compute_cdp_rf, *_rule, *_weights'), ('searches', PA + ':global_ddp_rf, global_cdp_rf'), ('enumeration', PA + ':sufficient_cxpl_rf')],
     'Exact rationals; the outcome is that of the search state machine, checked exhaustively on small instances.')

prop('P17', 'Counterfactual probabilities given a box condition on the box',
     'For every forest, training data, row, set S and box, the conditional estimates follow the row on the columns of S and, elsewhere, the side of a split on which the box lies entirely, or both sides; the interventional ones follow the box outside of S and both sides on S. '
     'The value is the weight, returned with the value, of the training rows of the cells with the wanted decision; a box reduced to a point conditions on that point and an unbounded one on nothing.',
     ['inputs', 'programs'], 'Over all fitted forests, training data, rows, sets, boxes (points and unbounded sides included), intervals and smallest cell sizes.',
     'No test covers the conditional estimates.', [PA, PYA, CR], [('conditional', PA + ':single_compute_ddp_cond_weights, single_compute_cdp_cond_weights'), ('interventional', PA + ':single_compute_ddp_intv_weights, single_compute_cdp_intv_weights')],
     'Exhaustive on the specification for depth-two trees (points and unbounded boxes); implementation judged with exact rationals.',
     technique='TLA+ specification model-checked by TLC; recorded API calls judged by TLC')

prop('P13', 'A maximal rule keeps the sufficient rule and adds only sufficient rows',
     'For every forest, training data, row, set S and level pi, a maximal rule contains the sufficient rule of the row, bounds columns of S only, and has its sides among those of the sufficient rules of the row and of the training rows of its cells that reach pi. '
     'Every training row it holds outside of the sufficient rule has a Same Decision Probability of at least pi given its own values on S, and with the union algorithm so has every input it adds; that algorithm leaves the rule unchanged only when no neighbour extends it. '
     'The values, rules and weights of the training rows that are returned with it are those of the projected forest.',
     ['inputs', 'programs', 'schedules'], 'Over all fitted forests, training data, rows, sets S, levels pi, both algorithms and all random choices of the annealing one; rows with values closer to pi than rounding are not judged.',
     PROJ + 'One call with random choices is compared with nothing.', [PA, PYA], [('annealing and union', PA + ':single_compute_sdp_maxrules'), ('growth by union', PA + ':extend_partition, extend_rec, find_union'), ('interface', AGN + ':ACXplainer.compute_sdp_maxrules')],
     'The growth is a state machine over boxes, checked exhaustively on small grids; recorded rules are judged against the sufficient rules the specification computes for every training row.',
     technique='TLA+ state machine model-checked by TLC; recorded API calls judged by TLC')

prop('P14', 'Global rules report and predict from the training rows they hold',
     'For every set of rules with their columns and every training data, the fitted global rules are the distinct ones, each with its own columns and with the coverage, output, probability, variance and quality (accuracy or mean squared error) of exactly the training rows it holds. '
     'A row is predicted by a rule of best quality among those that hold it and reach the requested coverage, provided that quality reaches the requested level, and is abstained from otherwise. '
     'Fitting again forgets the earlier rules.',
     ['inputs', 'histories'], 'Over all rules (repeated, nested, empty, degenerate), training data, rows, coverages and levels, and repeated fits.',
     'The test fits one set of rules once and looks at no prediction in particular.', [PYA, UTILS], [('fit', AGN + ':ACXplainer.fit_global_rules'), ('distinct rules', UTILS + ':unique_rules_s_star'), ('prediction', AGN + ':ACXplainer.predict_global_rules, predict_proba_global_rules')],
     'Random rules around the data; metrics and predictions recomputed with exact rationals.')

prop('P04', 'Explaining changes nothing: an answer depends on the call alone',
     'For every tree explainer, with or without cached leaf statistics, whatever was asked before and however many threads are used, an explanation is that of the explainer\'s model and background data for the arguments of the call: the rows, the sets, the groups (those of the cache or others). '
     'No call modifies the arrays it is given, and a copy of the explainer written to disk and read back answers alike.',
     ['histories', 'schedules', 'configurations'], 'Over all sequences of calls with other groups, rows, batch sizes, estimators, thread counts and copies in between, for trees built with and without cache.',
     'The tests call each function once on a new explainer, with the groups of its cache.',
     [TREE, BASE, CACHE, PA, NOPA], [('use of the cache', TREE + ':ACVTree.shap_values, shap_values_normalized, shap_values_cache*'), ('cache', BASE + ':BaseTree.__init__')],
     'Histories of four (thorough: five) operations are enumerated by TLC from the state machine and replayed on real explainers; every answer is judged with exact rationals.',
     technique='TLA+ state machine model-checked by TLC; histories it generates replayed on the code and judged by TLC')

prop('P15', 'An ACXplainer answers from its latest fit and refuses before any',
     'At every point of every history of fits, rule fits, failed fits, questions and copies, an ACXplainer explains and predicts with the forest of its last successful fit, applies the rules of its last successful rule fit, and refuses when there has been none. '
     'A fit that fails, a question or a copy changes nothing, and fitting again gives the forest a new explainer would have.',
     ['histories', 'configurations'], 'Over all histories of fits on two data sets, rule sets, failed fits, copies and questions (estimates, rules, searches, enumerations, predictions).',
     'Each test fits one explainer once and asks it once.', [AGN, 'acv_explainers/base_agnostree.py'], [('fit', AGN + ':ACXplainer.fit, fit_global_rules'), ('forest of the explanations', AGN + ':ACXplainer.check_is_explainer')],
     'All histories of four (thorough: five) operations are enumerated by TLC from the state machine and replayed on real explainers; every answer is judged with exact rationals.',
     technique='TLA+ state machine model-checked by TLC; histories it generates replayed on the code and judged by TLC')

prop('P23', 'A local counterfactual rule changes the decision with its stated probability',
     'For every fitted forest, row and wanted class or interval, the local divergent set is a minimal set whose free columns bring the wanted decision with the requested probability, and every counterfactual rule pins the other columns at the row, has sides from the forest on the divergent set, and holds there a training row with the wanted decision. '
     'Its stated probability and weights are those of the projected forest given the rule; every rule reaches the requested probability unless there is a single fallback, the best one found; no rule lies inside another and no good one found is lost. '
     'A sampled counterfactual takes training values inside the best rule on the divergent set and keeps the row elsewhere, and the reported accuracy, coverage and scores are those of the sampled points.',
     ['inputs', 'programs', 'schedules'], 'Over fitted forests (classes and regression), training data, rows, wanted decisions, levels, early stop, and all random choices of the rule growth and of the sampling.',
     'No test runs the counterfactual rules.', [CR, UCR, AGN, PYA], [('divergent set', CR + ':CR.run_local_divergent_set'), ('rules', UCR + ':return_global_counterfactuals, return_global_counterfactuals_reg'), ('removal', UCR + ':remove_in, remove_in_wsdp'), ('sampling', UCR + ':simulated_annealing')],
     'The removal of rules inside others is a state machine checked exhaustively on small grids; whole runs are recorded and every rule, probability and sample is judged with exact rationals.',
     technique='TLA+ state machine model-checked by TLC; recorded API calls judged by TLC')

prop('P24', 'A regional counterfactual rule moves a sufficient rule to the wanted decision',
     'For every fitted forest, rows with sufficient (maximal) rules and wanted decisions, the regional divergent set is a minimal set whose columns, left free while the others stay in the rule, bring the wanted decision with the requested probability; a regional counterfactual rule keeps the sufficient rule outside that set and has forest sides and a training row with the wanted decision on it. '
     'The stated probabilities and weights are those of the projected forest given the boxes, each rule reaches the requested probability unless it is the single fallback, and none lies inside another. '
     'Test rows inside a sufficient rule are moved, and only they, by training values inside its best counterfactual rule, and the reported accuracy and coverage count the moved rows.',
     ['inputs', 'programs', 'schedules'], 'Over fitted forests, rows, wanted decisions, test rows inside, outside and between rules, levels, both rule algorithms, and all random choices.',
     'No test runs the counterfactual rules.', [CR, UCR, AGN, PYA], [('sufficient rules', CR + ':CR.run_sufficient_rules'), ('divergent set', CR + ':CR.run_regional_divergent_set'), ('rules', UCR + ':return_ge_global_counterfactuals, return_ge_global_counterfactuals_reg'), ('sampling', CR + ':CR.run_sampling_regional_counterfactuals, run_sampling_regional_counterfactuals_alltests')],
     'As the local rules, with the sufficient rules judged too; the samples are planned by the specification from the rules and the test rows.',
     technique='TLA+ state machine model-checked by TLC; recorded API calls judged by TLC')
