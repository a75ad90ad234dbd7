ALL = 'src/skmultiflow/'

prop('C10', 'Components used side by side do not influence each other',
     'Learners, streams, drift detectors, metrics and transforms that are given their own seeds '
     'and are used side by side in one program, in any interleaving of their operations and with '
     'other code drawing from or reseeding the global random generators or changing NumPy\'s '
     'floating point error settings in between, each behave '
     'exactly as when used alone. Two instances of one class, including ones built from the same '
     'default or the same passed base component, never share state.',
     ['schedules', 'histories', 'configurations'],
     'All pairs and groups of components, all interleavings of training, prediction, sampling, '
     'drift, reset and measuring operations, all states of the global generators and all contents '
     'of uninitialised memory.',
     'A test uses one component at a time, in a process whose global state happens to be fixed.',
     [ALL + 'trees/', ALL + 'meta/', ALL + 'lazy/', ALL + 'bayes/', ALL + 'neural_networks/',
      ALL + 'prototype/', ALL + 'rules/', ALL + 'data/', ALL + 'drift_detection/',
      ALL + 'metrics/', ALL + 'transform/', ALL + 'anomaly_detection/'],
     [('per-instance random state', 'check_random_state in constructors and _prepare_for_use'),
      ('base components copied per ensemble member', 'deepcopy / clone in meta/')],
     ['results of every operation of every component'],
     'Seeded exploration of interleavings of real components; oracle: each component executed '
     'alone in a process of its own with a different global random state and memory contents.')

prop('C11', 'A restored checkpoint continues exactly like the original',
     'When a learner, stream, drift detector, metric or transform is saved at any point of its '
     'life by pickling or deep copying, the copy restored in the same or another process continues '
     'exactly as the original does: the same operations give the same results. The original and '
     'the copy do not influence each other, and taking a checkpoint does not influence the '
     'original.',
     ['histories', 'crash_points', 'configurations'],
     'All components and configurations, all points at which the process is stopped and only the '
     'checkpoint survives, all continuations.',
     'The tests never save a component.',
     [ALL],
     [('state held in instance attributes', 'all stateful classes')],
     ['results of the operations after the restore'],
     'Seeded exploration: crash of the simulated process at drawn points with only the last '
     'checkpoint surviving, restore in another process and re-execution of the lost operations; '
     'oracle: the uninterrupted run.')

prop('C12', 'Predicting changes nothing and answers every row on its own',
     'Asking a learner for predictions or probabilities, at any points between training calls '
     'and any number of times, does not change any later answer. Each row is answered '
     'independently of the other rows of the request, with one answer per row out of the known '
     'classes, and the probabilities form one table. Learners never change the arrays they are given, and are not affected when their '
     'user overwrites arrays that were passed to them or returned by them.',
     ['histories', 'schedules', 'inputs', 'configurations'],
     'All learners and configurations, training histories, prediction requests at any points, '
     'ways of cutting and ordering the rows of a request, and reuse of buffers by the caller.',
     'The tests predict once, at the end, for one batch of rows.',
     [ALL + 'trees/', ALL + 'meta/', ALL + 'lazy/', ALL + 'bayes/', ALL + 'neural_networks/',
      ALL + 'prototype/', ALL + 'rules/', ALL + 'anomaly_detection/'],
     [('predict and predict_proba per row', 'predict, predict_proba of learners')],
     ['arrays returned by predict and predict_proba', 'arrays passed to the learner'],
     'Seeded exploration of training histories with requests repeated, split and reordered; '
     'oracles: the whole request, and the same history without any request in another process.')

prop('C13', 'A learner does not depend on how its training data is cut into calls',
     'Incremental learners end up in the same state, and so give the same answers, however the '
     'same sequence of samples and sample weights is cut into training calls. Announcing the '
     'classes again at later calls, as a list or as an array, or passing weights of one instead of no '
     'weights, makes no difference either.',
     ['schedules', 'histories', 'configurations'],
     'All incremental learners and configurations, all sample sequences, all ways of cutting '
     'them into calls, all weights. Learners documented to work on whole batches (solver epochs '
     'or resampling per call) are only held to the second sentence.',
     'The tests train with one fixed cutting.',
     [ALL + 'trees/', ALL + 'meta/', ALL + 'lazy/', ALL + 'bayes/', ALL + 'rules/',
      ALL + 'anomaly_detection/'],
     [('row-wise training loops', 'partial_fit of learners')],
     ['arrays returned by predict and predict_proba'],
     'Seeded exploration of delivery schedules: one sample sequence is delivered to the real '
     'learner in two drawn partitions, in separate processes; the answers at drawn points are '
     'compared with each other.')

prop('C14', 'A component that was reset or cloned behaves like a new one',
     'After any history, a learner, drift detector or performance evaluator that is reset behaves '
     'exactly like one newly built with the same parameters, and keeps all of its parameters. '
     'The clone of a learner, drift detector or transform, taken at any point, is such a new one '
     'too, whatever the original has learnt.',
     ['histories', 'configurations'],
     'All components and configurations with integer seeds, all histories before a reset or '
     'clone, all uses after it, repeatedly. Streams have their own restart property.',
     'The tests reset a few components and look at single attributes.',
     [ALL + 'trees/', ALL + 'meta/', ALL + 'lazy/', ALL + 'bayes/', ALL + 'rules/',
      ALL + 'neural_networks/', ALL + 'prototype/', ALL + 'drift_detection/', ALL + 'metrics/',
      ALL + 'anomaly_detection/', ALL + 'core/base.py'],
     [('reset methods', 'all stateful classes'), ('clone', 'core/base.py')],
     ['results of the operations after the reset or clone'],
     'Seeded exploration of histories with resets and clones at drawn points; oracle: a new '
     'component in a process of its own, used in the same way.')

prop('C15', 'A performance evaluator equals its definition over the recorded results',
     'After any history of results, resets and reads, every score a performance evaluator reports '
     'equals the score computed by its definition from the recorded results, weighted by their '
     'sample weights: all results since the last reset, or the last ones that fit the window. '
     'This holds for emerging classes, for every class queried separately, and when the caller '
     'reuses the arrays it has passed.',
     ['histories', 'inputs', 'configurations'],
     'All classification, multi-label, regression and multi-target evaluators, window sizes, '
     'declared numbers of classes, label sequences, weights, and reads at any points.',
     'The tests feed one fixed sequence per evaluator with unit weights and read once.',
     [ME + '_classification_performance_evaluator.pyx', ME + '_confusion_matrix.pyx',
      ME + 'measure_collection.py', 'src/skmultiflow/utils/data_structures.py'],
     [('incremental sums with removal of results that leave the window', 'add_result')],
     ['scores returned by the evaluators'],
     'Seeded exploration of result histories against an executable reference that recomputes '
     'every score from the recorded history.')

prop('C16', 'Adaptive learners survive and honour every pattern of drift signals',
     'Whatever sequence of drift and warning signals their detectors raise, adaptive learners keep '
     'training and answering with finite values out of the known classes and keep their number of '
     'members. Without any drift signal, with or without warnings, they behave exactly as with '
     'drift detection switched off. A forest member that drifts answers only from what it learned '
     'since its last warning, or since the drift when there was none. An ensemble that resets a '
     'member on drift resets the one with the highest error, and only then. A rule learner drops '
     'exactly the rules that drift, and tells their detectors about errors. Once signals stop, a '
     'stable concept is learned again.',
     ['schedules', 'histories', 'configurations'],
     'All adaptive learners and their configurations, all sequences of drift and warning signals, '
     'true, false or missing, and all training histories around them.',
     'In the tests drift is detected in a few places or not at all, by the real detectors.',
     [ALL + 'meta/adaptive_random_forests.py', ALL + 'meta/adaptive_random_forest_regressor.py',
      ALL + 'meta/streaming_random_patches.py', ALL + 'meta/oza_bagging_adwin.py',
      ALL + 'meta/leverage_bagging.py', ALL + 'meta/online_boosting.py',
      ALL + 'meta/online_adac2.py', ALL + 'meta/online_csb2.py',
      ALL + 'meta/online_rus_boost.py', ALL + 'meta/online_smote_bagging.py',
      ALL + 'meta/online_under_over_bagging.py', ALL + 'lazy/knn_adwin.py',
      ALL + 'rules/very_fast_decision_rules.py', ALL + 'trees/hoeffding_adaptive_tree.py',
      ALL + 'trees/hoeffding_adaptive_tree_regressor.py'],
     [('reaction to a change', 'detected_change() and what follows it in partial_fit'),
      ('background members', 'ARFBaseLearner, ARFRegBaseLearner, '
       'StreamingRandomPatchesBaseLearner'),
      ('reset of the worst member', 'partial_fit of the ADWIN ensembles')],
     ['predict and predict_proba', 'members that are reset', 'rules that are kept',
      'elements the detectors are given'],
     'Seeded exploration of signal schedules injected through the detectors (scripted detectors, '
     'or the detected_change reports of the real ones); oracles: the learner without detection, '
     'the labels seen since the signals, a model of the members\' errors, the rules covering a '
     'sample.')

prop('C17', 'Learners stay within their limits and survive reaching them',
     'Whatever the memory checks of a tree find, and at whatever points, the tree goes on training '
     'and answering with valid answers, reports its numbers of nodes, leaves and depth as they '
     'are, keeps as many leaves active as its memory limit allows and no more, and a check never '
     'changes an answer of leaves that predict by majority or mean; told to stop at the limit, it '
     'stops growing and keeps learning. Checks that find enough memory change nothing. Data with '
     'nothing to split on does not make a tree grow without need. An ensemble or rule set never '
     'keeps more members than it may, and gives up the member its pruning strategy names.',
     ['schedules', 'histories', 'configurations'],
     'All trees and forests with all memory limits, periods and sizes found; all ensembles and '
     'rule sets with a bounded number of members; all training histories and batch sizes.',
     'The tests check memory against the real size of objects, which rarely reaches the limit, at '
     'one or two places of one data set.',
     [ALL + 'trees/', ALL + 'rules/very_fast_decision_rules.py',
      ALL + 'meta/accuracy_weighted_ensemble.py', ALL + 'meta/additive_expert_ensemble.py',
      ALL + 'meta/dynamic_weighted_majority.py', ALL + 'meta/learn_pp.py',
      ALL + 'meta/learn_nse.py', ALL + 'meta/batch_incremental.py'],
     [('memory checks', 'HoeffdingTreeClassifier._estimate_model_byte_size, '
       '_enforce_tracker_limit, _deactivate_learning_node, _activate_learning_node'),
      ('bounded ensembles', 'partial_fit of the ensembles; VeryFastDecisionRules._create_rule, '
       '_expand_rule')],
     ['predict and predict_proba', 'model_measurements, get_model_description()',
      'number of members and rules'],
     'Seeded exploration of schedules of memory pressure injected at the size estimator the trees '
     'call (and of ensembles driven to their size); oracles: the description of the tree, the '
     'arithmetic of the limit, the answers before the check, the tree without checks.')

prop('C18', 'A drift detector reports what its statistic over the elements says',
     'After every element of any history of elements, questions, resets and restores from a '
     'checkpoint, a drift detector reports change and warning exactly when the test it implements, '
     'evaluated on the elements since its last change or reset with its configured levels, says '
     'so; it never reports both at once, reports a change once, and asking repeatedly gives the '
     'same answer (except for ADWIN, where each question is a step of the test). The width, total '
     'and estimation of ADWIN are the number, sum and mean of the most recent values, its window '
     'shrinks only when it reports a change, and the window of KSWIN holds the most recent values.',
     ['histories', 'inputs', 'configurations'],
     'All seven detectors and configurations, all sequences of elements of any length and change '
     'pattern, questions left out or repeated, resets and restores at any points.',
     'The tests feed two fixed sequences per detector and look at the indices of the changes.',
     [ALL + 'drift_detection/'],
     [('incremental statistics and their restart after a change', 'add_element'),
      ('exponential histogram', 'ADWIN.__compress_buckets, delete_element, detected_change')],
     ['detected_change(), detected_warning_zone(), get_length_estimation()',
      'width, total, estimation, variance and n_detections of ADWIN'],
     'Seeded exploration of element histories with questions, resets and restores injected; '
     'refinement against executable reference models that keep the raw history.')

prop('C19', 'Windows hold the most recent entries and what works on them answers from those',
     'After any history of additions, removals, resets and restores from a checkpoint, a buffer or '
     'sliding window holds exactly its most recent entries, in order, never more than its size, '
     'and hands out every entry that leaves it once. Nearest-neighbour learners (also when drift '
     'detection cuts their window) answer from exactly the samples in their window, and the '
     'windowed transforms compute with exactly the rows in theirs, independent of what the caller '
     'does with its arrays.',
     ['histories', 'inputs', 'configurations'],
     'FastBuffer, FastComplexBuffer, SlidingWindow, KNNClassifier, KNNRegressor, '
     'KNNADWINClassifier, MissingValuesCleaner, WindowedStandardScaler and OneHotToCategorical; '
     'all sizes, histories, block sizes, metrics and strategies.',
     'The tests fill one window once and look at a few values.',
     ['src/skmultiflow/utils/data_structures.py', ALL + 'lazy/base_neighbors.py',
      ALL + 'lazy/knn_classifier.py', ALL + 'lazy/knn_regressor.py', ALL + 'lazy/knn_adwin.py',
      ALL + 'transform/'],
     [('FIFO buffers', 'FastBuffer, FastComplexBuffer, SlidingWindow'),
      ('cut of the window by ADWIN', 'KNNADWINClassifier.partial_fit')],
     ['contents and return values of the buffers', 'predict, predict_proba, transform'],
     'Seeded exploration of histories with removals, resets, restores, concept changes and buffer '
     'reuse injected; oracle: recomputation from the recorded history.')

prop('C20', 'A composed learner answers exactly as its parts do',
     'After any history of training, resets and restores from a checkpoint, a composed learner '
     'gives exactly the answers of its parts used separately: a multi-output learner those of one '
     'base learner per target, a classifier or regressor chain those of base learners that also '
     'see the earlier targets of the chain (whatever its order, with the answers in the order of '
     'the targets), a probabilistic chain the most probable combination, a pipeline those of its '
     'last step on data passed through its transforms, a batch-incremental ensemble the vote of '
     'one base learner per block of samples, and a label-combination tree those of a tree over '
     'the combinations. Sample weights and announced classes reach every part that takes them.',
     ['histories', 'configurations', 'inputs'],
     'All compositions named, base learners, transforms, chain orders, numbers of targets, block '
     'sizes and weights; all histories of training calls and requests.',
     'The tests train each composition once with one base learner and compare a score.',
     [ALL + 'meta/multi_output_learner.py', ALL + 'meta/classifier_chains.py',
      ALL + 'meta/regressor_chains.py', ALL + 'meta/batch_incremental.py',
      ALL + 'core/pipeline.py', ALL + 'trees/label_combination_hoeffding_tree.py'],
     [('delegation to the parts', 'partial_fit, predict and predict_proba of the compositions')],
     ['arrays returned by predict and predict_proba'],
     'Seeded exploration of training histories with resets, restores and buffer reuse injected; '
     'refinement against compositions written out by hand from separate real parts.')

prop('C21', 'A tree grows by the Hoeffding test on what reached each leaf and answers from it',
     'After any history of training calls, resets and restores from a checkpoint, a Hoeffding tree '
     '(classifier, or regressor with mean leaves) has exactly the inner nodes its documentation '
     'asks for: a leaf that has gained at least grace_period of weight since it was created or '
     'last tested, and is not pure, splits on its best attribute test if that one beats the '
     'second best by more than the Hoeffding bound (for regression, in ratio) or the bound is '
     'below tie_threshold. Merits come from the rows that reached the leaf, weighted by their '
     'sample weights: information gain, Gini or Hellinger over class counts, with normal estimates '
     'for numeric attributes cut at ten points between the extremes and counts for nominal ones '
     '(one branch per value, or value against rest), variance reduction over every observed '
     'value for regression. It answers with the class weights, naive Bayes, or the better of the two '
     'so far, or with the mean, of the leaf that the row falls into; naive Bayes on its own '
     'answers with prior times normal densities and smoothed nominal frequencies of all rows. '
     'Values a multiway test has never met open a new branch when trained and are answered from '
     'the inner node when asked.',
     ['histories', 'configurations', 'inputs'],
     'All settings of grace_period, split_confidence, tie_threshold, split_criterion, '
     'leaf_prediction, nb_threshold, binary_split, no_preprune, remove_poor_atts and nominal '
     'attributes; all histories of weighted training calls in any chunks. Memory limits are C17.',
     'The tests train each tree on one stream with a fixed seed and compare the resulting numbers; '
     'few of the settings are ever changed, and weights, new nominal values and ties never occur.',
     [ALL + 'trees/hoeffding_tree.py', ALL + 'trees/hoeffding_tree_regressor.py',
      ALL + 'trees/_nodes/htc_nodes.py', ALL + 'trees/_nodes/base.py',
      ALL + 'trees/gaussian_estimator.py', ALL + 'bayes/naive_bayes.py'],
     [('split decision', '_attempt_to_split and the attribute observers and split criteria'),
      ('answers', 'predict_one of the leaves and do_naive_bayes_prediction')],
     ['model_measurements (nodes, leaves, depth)', 'get_model_description',
      'arrays returned by predict and predict_proba'],
     'Seeded exploration of training histories with resets, restores, concept changes, new nominal '
     'values and buffer reuse injected; refinement against reference trees that keep the raw rows '
     'of every leaf and recompute every decision from them.')

prop('C22', 'An ensemble trains its members as documented and answers by their weighted vote',
     'After any history of training calls, resets and restores from a checkpoint, an ensemble has '
     'taught each member exactly the rows and weights its documentation prescribes (every row; '
     'Poisson-many times; only its own chunk; weighted or resampled by cost), has added, weighted, '
     'aged and removed members by its documented rules (DynamicWeightedMajority, AdditiveExpert, '
     'LearnNSE, LearnPP, AccuracyWeightedEnsemble, OzaBagging, OzaBaggingADWIN, LeveragingBagging, '
     'OnlineBoosting, OnlineAdaC2, OnlineCSB2, OnlineRUSBoost, OnlineSMOTEBagging, '
     'OnlineUnderOverBagging), has replaced the member that errs most when ADWIN finds that the error '
     'of a member grew, where it does that, and answers with the label that has the largest sum of member '
     'weights, where a member that was never wrong counts most, not least. The base estimator '
     'handed in by the user is never trained itself.',
     ['histories', 'configurations', 'inputs', 'programs'],
     'All ensembles named, numbers of members, periods, decays, costs, sampling rates and any '
     'behaviour of the members (their skill, label coverage and probability widths); all histories '
     'of training calls.',
     'The tests train each ensemble once with one kind of member on one stream and compare scores; '
     'what each member was taught and what it weighs is never looked at.',
     [ALL + 'meta/dynamic_weighted_majority.py', ALL + 'meta/additive_expert_ensemble.py',
      ALL + 'meta/learn_nse.py', ALL + 'meta/learn_pp.py',
      ALL + 'meta/accuracy_weighted_ensemble.py', ALL + 'meta/oza_bagging.py',
      ALL + 'meta/leverage_bagging.py', ALL + 'meta/online_boosting.py',
      ALL + 'meta/online_adac2.py', ALL + 'meta/online_csb2.py', ALL + 'meta/online_rus_boost.py',
      ALL + 'meta/online_smote_bagging.py', ALL + 'meta/online_under_over_bagging.py'],
     [('training and weighting of members', 'partial_fit of the ensembles'),
      ('vote', 'predict and predict_proba of the ensembles')],
     ['calls each simulated member receives', 'arrays returned by predict and predict_proba'],
     'The members are simulated and record every call; seeded exploration of histories, member '
     'behaviours, concept changes, resets and restores; refinement against reference ensembles '
     'with members of their own, and tallies of the random repetition counts against their '
     'documented Poisson rates.')

NOT_APPLICABLE.append((dict(
    id='N01', title='Parameters read from an object can be set on another one',
    statement='get_params of any component returns its constructor parameters (with those of nested '
              'components when asked for deeply), set_params with those values on another instance '
              'makes both configured alike, and an unknown parameter name is refused.',
    quantifier=dict(over=['configurations'], text='All components and parameter values.'),
    why_tests_cant='The tests look at a few components with default parameters.',
    anchors=dict(files=[ALL + 'core/base.py'], state=[],
                 mechanism=[dict(name='get_params and set_params', where='BaseSKMObject')],
                 observe_at=['return values of get_params'], hook_needed=None)),
    'get_params and set_params are pure functions of their arguments: there is no schedule, time, '
    'I/O, randomness or history for a simulation to vary.'))

prop('C23', 'Synthetic streams draw and label samples by their documented concept',
     'After any history of draws of any size, drifts, changes of the classification function, '
     'restarts and restores from a checkpoint, every sample of a synthetic stream has its features in '
     'the documented domain and distribution and carries the label its current documented concept '
     'gives to them (SEA, AGRAWAL, STAGGER, Sine, MIXED, LED, Hyperplane, Waveform, RandomTree, '
     'AnomalySine, Regression); noise changes labels or segments with its documented probability and '
     'only then, balanced classes come equally often, generate_drift always switches to another '
     'function, LED drift trades exactly the asked number of segments, RBF samples lie around '
     'centroids of their class, which move at the asked speed inside the unit cube, and a '
     'ConceptDriftStream takes each sample, in order, from one of its two streams with the sigmoid '
     'probability of its position and width.',
     ['histories', 'configurations', 'inputs', 'schedules'],
     'All streams named, their functions, noise, balance, drift and size parameters, seeds, and all '
     'histories of draws, drifts, restarts and restores.',
     'The tests compare the first ten samples of one seed per stream with stored ones.',
     [ALL + 'data/sea_generator.py', ALL + 'data/agrawal_generator.py',
      ALL + 'data/stagger_generator.py', ALL + 'data/sine_generator.py',
      ALL + 'data/mixed_generator.py', ALL + 'data/led_generator.py',
      ALL + 'data/led_generator_drift.py', ALL + 'data/hyper_plane_generator.py',
      ALL + 'data/waveform_generator.py', ALL + 'data/random_tree_generator.py',
      ALL + 'data/anomaly_sine_generator.py', ALL + 'data/regression_generator.py',
      ALL + 'data/random_rbf_generator.py', ALL + 'data/random_rbf_generator_drift.py',
      ALL + 'data/concept_drift_stream.py'],
     [('sample generation and labelling', 'next_sample of the generators'),
      ('concept switch', 'generate_drift and classification_function')],
     ['arrays returned by next_sample', 'classification_function', 'centroids', 'tree_root'],
     'Seeded exploration of parameters and histories; each sample judged by concepts written from '
     'the documentation and the cited papers, random parts tallied against their documented '
     'distribution (7 standard deviations).')
