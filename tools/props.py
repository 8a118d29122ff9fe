"""The properties: text for properties.jsonl and MANIFEST.json."""
S = 'src/skmultiflow/'
NOTE = ('Bounded exploration: the property held on every execution the seeded workload produced; '
        'the oracle is an independent reference, not the code under test. ')
PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, forall, tests, mech, technique, note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, tests=tests,
                      mech=[(n, S + w) for n, w in mech], technique=technique, note=NOTE + note))


P('C01', 'A seeded generator yields one fixed sample sequence however it is consumed',
  'For a given configuration and integer seed, a synthetic generator (or a concept-drift stream built '
  'from seeded concepts) yields the same sequence of samples and targets whatever the batch sizes, '
  'after a restart, from a second instance, from a copied or pickled instance, and whatever other '
  'generators or uses of the global random state are interleaved. Different seeds give different '
  'sequences, and drawing samples leaves the global random state untouched.',
  ['inputs', 'histories', 'configurations'],
  'all generators, parameter settings, seeds, batch partitions, restart points and interleavings with '
  'other generators',
  'Tests draw one fixed batch from one instance at one seed; they never re-chunk, interleave '
  'instances, or restart in the middle.',
  [('generators\' sampling and restart', 'data/base_stream.py'),
   ('seeded sampling', 'data/sea_generator.py'), ('seeded sampling', 'data/agrawal_generator.py'),
   ('drift permutation', 'data/led_generator_drift.py'),
   ('centroids', 'data/random_rbf_generator.py'), ('tree', 'data/random_tree_generator.py'),
   ('merge', 'data/concept_drift_stream.py')],
  'differential trace monitor: the same seeded stream consumed under random schedules, compared '
  'sample by sample')

P('C02', 'A finite source delivers every row exactly once, in order, with its own target',
  'Streams over arrays, data frames, CSV files, timestamped data and pre-generated finite data deliver '
  'every row exactly once and in source (or time) order, each with its own targets, time and weight, '
  'for every sequence of batch requests, and again after a restart. The reports of remaining samples '
  'and of having more samples agree with what is still due, a request past the end never repeats or '
  'invents a row, and the caller\'s data is never modified.',
  ['inputs', 'histories', 'configurations'],
  'all tables, target layouts, batch schedules, over-reads and restarts',
  'Tests read a few batches of one table and one file; the end of the stream, over-reads, restarts '
  'and unordered timestamps are not exercised.',
  [('array/frame source', 'data/data_stream.py'), ('file source', 'data/file_stream.py'),
   ('timestamped source', 'data/temporal_data_stream.py'),
   ('finite generators', 'data/multilabel_generator.py'),
   ('finite generators', 'data/anomaly_sine_generator.py'),
   ('finite generators', 'data/regression_generator.py')],
  'exactly-once delivery monitor over row-identified sources under random request schedules')

P('C03', 'Stream metadata describes exactly what the stream delivers',
  'The number, names and kinds of features and targets, the set of target values, the number of '
  'classes and the remaining-sample counts a stream reports agree with every batch it delivers and '
  'with the table it was built from. The most recent batch can be re-read unchanged, and invalid '
  'parameters are refused at construction instead of yielding a stream that contradicts them.',
  ['inputs', 'configurations', 'histories'],
  'all streams, configurations and batches',
  'Tests compare a few metadata fields at one configuration per stream.',
  [('metadata', 'data/base_stream.py'), ('target discovery', 'data/data_stream.py'),
   ('validation', 'data/hyper_plane_generator.py'), ('validation', 'data/led_generator.py')],
  'metadata-versus-trace monitor on every delivered batch')

P('C04', 'Generated samples obey the documented concept of each generator',
  'Every generated label is the one the documented concept (SEA, sine, STAGGER, mixed, AGRAWAL, '
  'hyperplane, LED, waveform, RBF, random tree, linear regression, sine anomalies) assigns to the '
  'generated features, except for label or feature noise occurring at the configured rate. Features '
  'follow their documented ranges and distributions, random trees keep the configured depths, balanced '
  'generators balance the classes, and asking for a drift switches to a different concept that then governs the labels.',
  ['inputs', 'configurations', 'histories'],
  'all samples of all configurations, before and after any number of drifts',
  'Tests compare ten stored samples at one configuration with a pickled expectation.',
  [('concept functions', 'data/sea_generator.py'), ('concept functions', 'data/sine_generator.py'),
   ('concept functions', 'data/stagger_generator.py'), ('concept functions', 'data/mixed_generator.py'),
   ('concept functions', 'data/agrawal_generator.py'), ('concept', 'data/hyper_plane_generator.py'),
   ('concept', 'data/led_generator.py'), ('concept', 'data/waveform_generator.py'),
   ('concept', 'data/random_rbf_generator_drift.py'), ('concept', 'data/random_tree_generator.py'),
   ('concept', 'data/anomaly_sine_generator.py')],
  'independent concept oracles on every generated sample plus >=6 sigma statistical monitors')

P('C05', 'A concept-drift stream is an order-preserving, sigmoid-governed merge',
  'A concept-drift stream delivers the samples of its two concepts, each in its own order with nothing '
  'lost, repeated or altered, choosing the drift concept with the documented sigmoid probability of '
  'position and width (or the equivalent angle). Batches have exactly the requested number of rows, '
  'and restart restores the initial merge.',
  ['inputs', 'configurations', 'histories'],
  'all base/drift streams, positions, widths, angles, batch schedules, nestings and restarts',
  'Tests compare the first samples of one configuration; the merge invariant and the switching law '
  'are not observed.',
  [('merge', 'data/concept_drift_stream.py'), ('drift injection', 'data/concept_drift_stream.py')],
  'provenance monitor over tagged concept streams and statistical monitor of the switch law')

P('C06', 'ADWIN statistics are exactly those of its current window',
  'After every element the published width, total and mean of the adaptive window equal those of the '
  'most recent width elements received, the variance equals their variance, and the number of '
  'detections equals the detections reported. A reset restores the state of a new detector.',
  ['inputs', 'histories', 'configurations'],
  'all real-valued element sequences, confidence values, clocks, call schedules and resets',
  'Tests check the detection index on one synthetic signal.',
  [('bucket compression and deletion', 'drift_detection/adwin.py')],
  'online monitor recomputing the window statistics from the recorded elements',
  'One deviation of the variance is a listed known finding.')

P('C07', 'ADWIN shrinks its window exactly when its statistical bound is exceeded',
  'At each detection step the adaptive window reports a change and drops oldest buckets exactly when '
  'some split into two sufficiently long sub-windows has means further apart than the '
  'confidence-dependent bound, and otherwise keeps every element.',
  ['inputs', 'histories', 'configurations'],
  'all element sequences, confidence values, clocks and call schedules',
  'Tests check the detection index on one synthetic signal.',
  [('cut test', 'drift_detection/adwin.py')],
  'online conformance to an exponential-histogram reference automaton')

P('C08', 'DDM, EDDM and Page-Hinkley signal exactly at their documented thresholds',
  'After every element, the change flag, the warning flag and the estimate of DDM, EDDM and '
  'Page-Hinkley are those of the published test over the elements received since the last detection '
  'or reset, with the configured thresholds and minimum number of elements. Reading the flags does '
  'not change them, and a reset detector behaves as a new one.',
  ['inputs', 'histories', 'configurations'],
  'all element sequences, thresholds and resets',
  'Tests check detection indices on one signal per detector at default parameters.',
  [('DDM', 'drift_detection/ddm.py'), ('EDDM', 'drift_detection/eddm.py'),
   ('Page-Hinkley', 'drift_detection/page_hinkley.py')],
  'online conformance to reference automata after every element')

P('C09', 'HDDM detectors signal exactly when their concentration bound is exceeded',
  'After every element in [0, 1], the change flag, the warning flag and the estimate of the averaging '
  'and weighted HDDM detectors are those given by the Hoeffding / McDiarmid bound at the configured '
  'confidences, one- or two-sided, over the elements since the last detection or reset.',
  ['inputs', 'histories', 'configurations'],
  'all bounded element sequences, confidences, weightings and resets',
  'Tests check detection indices on one binary signal at default parameters.',
  [('HDDM-A', 'drift_detection/hddm_a.py'), ('HDDM-W', 'drift_detection/hddm_w.py')],
  'online conformance to reference automata after every element',
  'The inactive two-sided test of HDDM-W is a listed known finding.')

P('C10', 'KSWIN keeps the latest values and signals exactly on a significant difference',
  'KSWIN never signals before its window is full, holds exactly the most recent values (only the '
  'newest ones after a detection), compares the newest values with a uniform sample of the older ones '
  'by a two-sample Kolmogorov-Smirnov test, and signals a change exactly when that test is '
  'significant at the configured level.',
  ['inputs', 'histories', 'configurations'],
  'all element sequences, window and sample sizes, and significance levels',
  'Tests check one signal with loose expectations because the sampling is random.',
  [('window and test', 'drift_detection/kswin.py')],
  'online window monitor, attainable-p-value monitor and Monte-Carlo law of the sampling')

P('C12', 'Classification trackers equal a recomputation over the tracked samples',
  'At every moment the accuracy, kappa statistics, precision, recall, F1 and geometric mean (overall, '
  'macro-averaged, or of a requested class), the confusion counts and the majority class of a '
  'classification tracker equal those computed from scratch over all results since the last reset, '
  'or over the last window of them, including results with new classes and weights.',
  ['inputs', 'histories', 'configurations'],
  'all result sequences, class sets, window sizes, weights and resets',
  'Tests compare the final values of two or three fixed result sequences.',
  [('trackers', 'metrics/_classification_performance_evaluator.pyx'),
   ('confusion matrix', 'metrics/_confusion_matrix.pyx'),
   ('deprecated trackers', 'metrics/measure_collection.py')],
  'shadow-log monitor: every metric recomputed from the raw results after every addition')

P('C13', 'Multi-label trackers and scores equal a recomputation over the samples',
  'At every moment the Hamming score and loss, exact match, Jaccard score and per-label confusion '
  'counts of a multi-label tracker equal those computed from scratch over all results since the last '
  'reset, or over the last window of them, even if the caller reuses its arrays; a result with a '
  'missing (NaN) label is skipped. The batch scoring '
  'functions return the same quantities.',
  ['inputs', 'histories', 'configurations'],
  'all label matrices, numbers of labels, window sizes and resets',
  'Tests use one sequence whose true labels are all ones.',
  [('trackers', 'metrics/_classification_performance_evaluator.pyx'),
   ('deprecated trackers and functions', 'metrics/measure_collection.py')],
  'shadow-log monitor with recomputation after every addition')

P('C14', 'Regression and running-time trackers equal a recomputation over the samples',
  'At every moment the mean squared, mean absolute and root mean squared errors of a single- or '
  'multi-target regression tracker equal those computed from scratch over all pairs since the last '
  'reset, or over the last window of them. Running-time trackers charge each phase only with the '
  'time between its begin and its end.',
  ['inputs', 'histories', 'configurations'],
  'all value sequences, numbers of targets, window sizes and resets',
  'Tests compare the final values of one linear sequence.',
  [('trackers', 'metrics/measure_collection.py')],
  'shadow-log monitor with recomputation after every addition')

P('C15', 'Buffers, sliding windows and confusion matrices follow their simple models',
  'Bounded buffers and sliding windows hold exactly the most recent elements in order, report every '
  'eviction, and never exceed their capacity, for every history of additions, removals and clears. '
  'Confusion matrices hold the exact weighted counts of what was added and removed, growing for new '
  'classes or labels and refusing impossible entries.',
  ['inputs', 'histories', 'configurations'],
  'all operation histories and capacities',
  'Tests run one short fixed history per container.',
  [('buffers and windows', 'utils/data_structures.py'),
   ('confusion matrices', 'metrics/_confusion_matrix.pyx')],
  'model-based history monitor after every operation')

P('C16', 'Prequential evaluation tests every sample exactly once before training on it',
  'In prequential evaluation every model is first trained on the pre-training samples and then, batch '
  'by batch, every further sample up to the sample limit is predicted exactly once by every model, in '
  'stream order, before any model trains on it, and is trained on exactly once with its own unaltered '
  'features and target. The first training call of a classifier names all classes of the stream. The '
  'result equals a hand-written test-then-train loop, a time limit ends the evaluation, and the stream '
  'is restarted only if asked. An evaluator asked to predict or train itself passes everything on to every '
  'model.',
  ['inputs', 'histories', 'configurations'],
  'all streams, batch sizes, pre-training sizes, sample limits, numbers and kinds of models',
  'Tests compare the final scores of one tree on one generator, which leakage barely moves.',
  [('test-then-train loop', 'evaluation/evaluate_prequential.py'),
   ('setup', 'evaluation/base_evaluator.py')],
  'spy streams and models log every delivery, prediction and training; row-level trace checker')

P('C17', 'Evaluation reports state exactly what the models predicted',
  'The mean and current measurements of an evaluator, its printed summary and every row of its output '
  'file equal the metrics recomputed from the predictions each model made up to that point, over all '
  'tested samples (mean) or the latest window (current), under the right column and model name. A row '
  'is written whenever the processed count is a multiple of n_wait, at least every n_wait plus one '
  'batch, and at the end (unless a time limit cuts the run short); holdout evaluation writes one row per '
  'test. In delayed evaluation the processed count is that of the samples trained on; the summary there '
  'too states the final results. Reusing an evaluator starts over.',
  ['inputs', 'histories', 'configurations'],
  'all task types, metric selections, report intervals, batch sizes and numbers of models',
  'Tests compare one output file per evaluator with a stored copy.',
  [('reports', 'evaluation/base_evaluator.py'), ('buffer', 'evaluation/evaluation_data_buffer.py'),
   ('report points', 'evaluation/evaluate_prequential.py'),
   ('tests', 'evaluation/evaluate_holdout.py'),
   ('delayed reports', 'evaluation/evaluate_prequential_delayed.py')],
  'offline checker recomputes every reported number from the logged predictions')

P('C18', 'Holdout evaluation never trains on test samples and tests on schedule',
  'In holdout evaluation the test samples (the first test_size samples, or a fresh set before every '
  'test with a dynamic test set) are never trained on; all other samples read are trained on exactly '
  'once, in stream order; every model is tested on the whole current test set after every n_wait '
  'training samples and at the end; and the scores are those of these tests. A time limit ends the '
  'evaluation, counted anew for each. An evaluator asked to '
  'predict or train itself passes everything on to every model.',
  ['inputs', 'histories', 'configurations'],
  'all streams, test sizes, test intervals, batch sizes, sample limits and numbers of models',
  'Tests compare final scores of one configuration per mode, which a leak barely moves.',
  [('holdout loop', 'evaluation/evaluate_holdout.py')],
  'spy streams and models with a row-level schedule checker')

P('C19', 'Delayed-label evaluation tests at arrival and trains only on available labels',
  'In delayed prequential evaluation every sample is predicted exactly once when it arrives; a model '
  'predicts only after training on exactly those earlier samples whose labels are available by then; '
  'samples are scored and trained on once each, in order of availability, with their own target and '
  'weight; reading ends with the limit of samples trained, of time or of the stream, and then all '
  'waiting samples are processed. The label queue returns exactly the '
  'samples due. An evaluator asked to predict or train itself passes everything on to every model.',
  ['inputs', 'histories', 'schedules', 'configurations'],
  'all arrival and availability schedules, batch sizes, pre-training sizes and weights',
  'Tests run two fixed schedules and compare final scores.',
  [('delayed loop', 'evaluation/evaluate_prequential_delayed.py'),
   ('label queue', 'data/time_manager.py'), ('arrival times', 'data/temporal_data_stream.py')],
  'spy models with a row-level availability checker; list model of the label queue')

P('C20', 'k-nearest-neighbour models answer with the vote of the true nearest neighbours',
  'The window of a k-nearest-neighbour model holds exactly the latest max_window_size samples with '
  'their own labels (for KNNADWIN, cut back to its detector\'s width when, after a batch, the '
  'detector, fed with the model\'s own hits, reports a change). Every answer is the vote '
  '(class proportions, or mean or median of the targets) of the k samples of the window that are '
  'truly nearest under the chosen metric, each query of a batch independently of the others; with '
  'fewer than k samples the documented fallback is given, and a reset model knows nothing.',
  ['inputs', 'histories', 'configurations'],
  'all training histories, window sizes, k, leaf sizes, metrics, queries and resets',
  'Tests compare a hundred predictions of one configuration with a stored list.',
  [('window and search', 'lazy/base_neighbors.py'), ('vote', 'lazy/knn_classifier.py'),
   ('mean', 'lazy/knn_regressor.py'), ('adaptive window', 'lazy/knn_adwin.py'),
   ('window', 'utils/data_structures.py')],
  'shadow window with brute-force nearest-neighbour oracle at every query')

P('C21', 'The native kernels are memory-safe and compute what numpy computes',
  'The C++ nearest-neighbour kernels and the compiled confusion matrices and performance trackers '
  'return the values an array recomputation gives for every size, dtype and memory layout they '
  'accept, reject what they do not accept with an exception, and never read or write outside the '
  'arrays they were given, execute undefined behaviour, leak memory or references, or change their '
  'inputs.',
  ['inputs', 'histories'],
  'all array shapes (including empty), layouts and labels, and all tracker operation histories',
  'Tests call the kernels with a few well-formed arrays and no memory checker.',
  [('nearest neighbour kernels', 'lazy/src/libNearestNeighbors/nearestNeighbor.cpp'),
   ('confusion matrices', 'metrics/_confusion_matrix.pyx'),
   ('trackers', 'metrics/_classification_performance_evaluator.pyx')],
  'AddressSanitizer and UBSan builds of the native modules driven by differential workloads; '
  'reference-count and heap-growth monitor')

P('C22', 'SAM-kNN keeps consistent memories and answers with its best memory',
  'SAM-kNN\'s short-term memory is always the latest samples of the stream and shrinks only when, and '
  'to the size at which, the interleaved test-train error of the window is smallest; its long-term '
  'memory receives discarded samples, holds no sample that contradicts the short-term memory within '
  'the neighbourhood rule, and never exceeds the memory limits (when memory is full, the oldest '
  'short-term samples fill up the long-term share, and each of its classes is compressed to half by '
  'k-means). '
  'Every prediction is the (distance-weighted or majority) vote of the memory with the best recent '
  'accuracy.',
  ['inputs', 'histories', 'configurations'],
  'all streams, window limits, k, weightings and memory options',
  'Tests compare one stored prediction list for one configuration.',
  [('memories', 'lazy/sam_knn.py'),
   ('kernels', 'lazy/src/libNearestNeighbors/nearestNeighbor.cpp')],
  'step monitor: the memories before and after every sample compared with the specified transition')

P('C23', 'Naive Bayes answers with the posterior of exactly the samples it has seen',
  'NaiveBayes.predict_proba equals the posterior recomputed from the raw training log: class weights '
  'as prior, weighted Gaussian (sample variance) per numeric feature and class, smoothed value '
  'frequencies per nominal feature and class, with every sample counted once with its weight and '
  'zero-weight samples ignored, for any batching. Probabilities sum to one (or are all zero), predict '
  'takes the most probable class, and a reset model knows nothing.',
  ['inputs', 'histories', 'configurations'],
  'all training logs, weights, batchings, nominal feature sets, class declarations and queries',
  'Tests compare one prediction list on one generator.',
  [('model', 'bayes/naive_bayes.py'), ('posterior', 'bayes/utils.py'),
   ('Gaussian', 'trees/gaussian_estimator.py'),
   ('frequencies', 'trees/_attribute_observer/nominal_attribute_class_observer.py')],
  'two-pass recomputation from the training log at every query')

P('C24', 'A Hoeffding tree is exactly the tree its split rule prescribes',
  'For every stream, a HoeffdingTreeClassifier (and its label-combination variant) splits a leaf '
  'exactly when a grace period has passed and the merit lead of the best attribute exceeds the '
  'Hoeffding bound or the bound is below the tie threshold, on the best test (information gain, Gini '
  'or Hellinger; numeric, binary or multiway nominal), routes every sample to its leaf (adding a '
  'branch for an unseen nominal value), and answers with the leaf\'s majority class, naive Bayes or '
  'adaptive distribution of exactly the weighted samples seen there. Size reports, rules and '
  'descriptions are those of this tree.',
  ['inputs', 'histories', 'configurations'],
  'all streams, weights, batchings, parameters, split criteria and leaf prediction modes',
  'Tests compare one stored description and prediction list per criterion, on one generator with '
  'default thresholds and few splits.',
  [('growth and answers', 'trees/hoeffding_tree.py'), ('leaves', 'trees/_nodes/htc_nodes.py'),
   ('routing', 'trees/_nodes/base.py'),
   ('numeric tests', 'trees/_attribute_observer/numeric_attribute_class_observer_gaussian.py'),
   ('nominal tests', 'trees/_attribute_observer/nominal_attribute_class_observer.py'),
   ('merits', 'trees/_split_criterion/info_gain_split_criterion.py'),
   ('label combinations', 'trees/label_combination_hoeffding_tree.py')],
  'lock-step reference tree rebuilt from raw samples; answers, rules and sizes compared online')

P('C25', 'Re-evaluating and adaptive trees follow their rules and drop outdated subtrees',
  'An ExtremelyFastDecisionTreeClassifier splits as soon as the best attribute beats not splitting, '
  'keeps observing at its split nodes, and replaces, moves or removes a split exactly when the '
  're-evaluation rule says so, each sample counting with its own weight. A '
  'HoeffdingAdaptiveTreeClassifier is a Hoeffding tree (with optional online bootstrap of the weights in '
  'every leaf) that watches the error of every node with ADWIN: it starts an alternate tree at a split '
  'node exactly when the error there changes for the worse, puts it in place of the subtree when it is '
  'significantly more accurate over more than 300 samples or is ready to split itself, drops it when it is '
  'significantly less accurate, and counts what it does. After an abrupt change of concept it regains '
  'its accuracy.',
  ['inputs', 'histories', 'configurations'],
  'all streams with or without drift, weights, batchings, parameters and leaf prediction modes',
  'Tests compare one stored description per tree on a stream with at most a few re-evaluations.',
  [('re-evaluation', 'trees/extremely_fast_decision_tree.py'),
   ('observing split nodes', 'trees/_nodes/efdtc_nodes.py'),
   ('adaptive tree', 'trees/hoeffding_adaptive_tree.py'),
   ('alternate trees', 'trees/_nodes/hatc_nodes.py')],
  'lock-step reference trees rebuilt from raw samples; recovery monitor after a drift')

P('C26', 'Regression trees split and answer exactly as their rule prescribes',
  'HoeffdingTreeRegressor, iSOUPTreeRegressor and StackedSingleTargetHoeffdingTreeRegressor split a leaf exactly when a grace period of weight has '
  'passed and the ratio of the second-best to the best (intra-cluster) variance reduction plus the '
  'Hoeffding bound is below one, or the bound is below the tie threshold; they route every sample to its '
  'leaf and answer with the weighted target mean of exactly the samples seen there, or with the '
  "leaf's linear perceptron on standardised inputs trained by its delta rule (inherited by the children "
  'on a split), for one or several targets (stacked: with a second layer over the outputs of the first, '
  'adaptive: per target the predictor with the least faded error). Size reports agree with this tree. A '
  'HoeffdingAdaptiveTreeRegressor does the same with optional online bootstrap, and starts, switches to '
  'and drops alternate trees by the ADWIN-watched standardised error of its nodes.',
  ['inputs', 'histories', 'configurations'],
  'all streams, integer weights, batchings, parameters, nominal feature sets and leaf prediction modes',
  'Tests compare one stored prediction list or description per tree on one generated problem.',
  [('single target', 'trees/hoeffding_tree_regressor.py'), ('leaves', 'trees/_nodes/htr_nodes.py'),
   ('several targets', 'trees/isoup_tree.py'), ('leaves of several targets', 'trees/_nodes/isouptr_nodes.py'),
   ('numeric tests', 'trees/_attribute_observer/numeric_attribute_regression_observer.py'),
   ('stacked targets', 'trees/_nodes/sst_htr_nodes.py'), ('adaptive tree', 'trees/_nodes/hatr_nodes.py'),
   ('merits', 'trees/_split_criterion/variance_reduction_split_criterion.py')],
  'lock-step reference regression tree rebuilt from raw samples; answers and sizes compared online')

P('C27', 'Predicting never changes a learner',
  'For every learner, calls of predict and predict_proba (before, between and after trainings, repeated, '
  'for seen and unseen rows, single rows and batches) leave no trace: asking twice gives the same answer '
  'twice, and a learner that was asked gives the same answers and learns the same way as a twin that was '
  'not.',
  ['inputs', 'histories', 'configurations'],
  'all learners and configurations, training histories and moments and contents of the extra predictions '
  '(MonteCarloClassifierChain samples its answers and is excluded)',
  'Tests interleave predictions and trainings in one fixed order.',
  [('trees', 'trees/hoeffding_tree.py'), ('forests', 'meta/adaptive_random_forests.py'),
   ('random patches', 'meta/streaming_random_patches.py'), ('bagging', 'meta/oza_bagging.py'),
   ('neighbours', 'lazy/sam_knn.py'), ('rules', 'rules/very_fast_decision_rules.py')],
  'differential monitor over twin learners, one of which is asked for extra predictions')

P('C28', 'Learners neither alter nor depend on arrays their callers keep',
  'No learner writes to the rows, labels, weights or class lists it is given, in training or prediction. '
  'What it has learned and will answer does not change when the caller reuses those arrays, or overwrites '
  'arrays of predictions or scores it was handed. The memory layout of the rows (column order, strided, '
  'reversed or read-only views) has no influence on the outcome.',
  ['inputs', 'histories', 'configurations'],
  'all learners and configurations, training histories, moments of reuse and array layouts',
  'Tests pass fresh contiguous arrays and never look at them again.',
  [('neighbours', 'lazy/sam_knn.py'), ('window', 'utils/data_structures.py'),
   ('chunked ensembles', 'meta/learn_nse.py'), ('chunks', 'meta/learn_pp.py'),
   ('minority buffer', 'meta/online_smote_bagging.py'), ('trees', 'trees/hoeffding_tree.py')],
  'checksums of every array crossing the API boundary; twin learner whose arrays are overwritten after '
  'every call')

P('C29', 'Seeded learners are reproducible and can be copied, pickled and cloned',
  'Two learners with the same parameters and integer seed that receive the same calls give the same '
  'answers, whatever happens to the global random generators in between, and never draw from or reseed '
  'those. A deep copy or pickle taken at any moment answers like the original, continues like it under '
  'the same training, and is independent of what the original learns afterwards. clone() of a trained '
  'learner behaves like a new learner and leaves the original alone. Copies, pickles and clones of drift '
  'detectors behave in the same way.',
  ['inputs', 'histories', 'configurations'],
  'all learners, drift detectors and configurations, seeds, training histories and moments of copying',
  'Tests fix one seed and one history, and pickle nothing.',
  [('clone', 'core/base.py'), ('random states', 'utils/validation.py'),
   ('forests', 'meta/adaptive_random_forests.py'), ('random patches', 'meta/streaming_random_patches.py'),
   ('bagging', 'meta/oza_bagging.py'), ('prototypes', 'prototype/robust_soft_learning_vector_quantization.py'),
   ('half-space trees', 'anomaly_detection/half_space_trees.py')],
  'differential monitor over twins, copies, pickles and clones, with watched and disturbed global '
  'generators')

P('C30', 'reset() makes a learner or drift detector forget everything',
  'After reset(), whatever was learned before (another concept, another number of features or set of '
  'classes, nothing at all, or several histories), a learner or drift detector is indistinguishable from '
  'a newly constructed one with the same parameters: the same answers at every later moment for the same '
  'training, down to its random choices.',
  ['inputs', 'histories', 'configurations'],
  'all learners and detectors that offer a reset, configurations, earlier and later histories',
  'Tests call reset at most once and look at one attribute.',
  [('default reset', 'core/base.py'), ('trees', 'trees/hoeffding_tree.py'),
   ('regression trees', 'trees/hoeffding_tree_regressor.py'), ('forests', 'meta/adaptive_random_forests.py'),
   ('bagging', 'meta/oza_bagging_adwin.py'), ('boosting', 'meta/online_boosting.py'),
   ('rules', 'rules/very_fast_decision_rules.py'), ('ADWIN', 'drift_detection/adwin.py')],
  'differential monitor: reset learner against new twin, in lock step')

P('C31', 'Every row of a batch is answered by itself',
  'predict and predict_proba give exactly one answer per row, in the order of the rows, from before the '
  'first sample on. The answer to a row depends on the row and on what was learned, never on the other rows '
  'of the call: one row at a time, in another order, repeated or in slices the answers are the same.',
  ['inputs', 'histories', 'configurations'],
  'all learners and configurations, training histories and batches of rows (MonteCarloClassifierChain '
  'samples its answers: only their shape is judged)',
  'Tests predict either one row or one fixed batch and compare with recorded output.',
  [('half-space trees', 'anomaly_detection/half_space_trees.py'),
   ('weighted ensemble', 'meta/accuracy_weighted_ensemble.py'),
   ('regression tree', 'trees/hoeffding_tree_regressor.py'), ('forests', 'meta/adaptive_random_forests.py'),
   ('neighbours', 'lazy/knn_regressor.py'), ('bagging', 'meta/leverage_bagging.py'),
   ('chains', 'meta/classifier_chains.py')],
  'differential monitor: a batch against its rows one at a time, permuted and sliced')

P('C32', 'Predicted labels and scores are well formed and agree',
  'Predicted labels are always labels of the problem (0/1 for every label of a multi-label problem and for '
  'anomalies). Scores are finite and, except for boosting, not negative; those of learners that return '
  'probabilities sum to one (or are all zero when nothing is known), also for rows far outside anything seen. '
  'The predicted label is one with the highest score.',
  ['inputs', 'histories', 'configurations'],
  'all classifiers and configurations, problems with labels 0..k-1, training histories, ordinary and extreme '
  'rows; ties may be broken either way',
  'Tests compare the labels of one run with recorded ones and rarely look at scores.',
  [('tree', 'trees/hoeffding_tree.py'), ('naive Bayes', 'bayes/naive_bayes.py'),
   ('forest', 'meta/adaptive_random_forests.py'), ('random patches', 'meta/streaming_random_patches.py'),
   ('bagging', 'meta/leverage_bagging.py'), ('boosting', 'meta/online_boosting.py'),
   ('rules', 'rules/very_fast_decision_rules.py'), ('neighbours', 'lazy/knn_classifier.py')],
  'invariant monitor on every answer at many moments of many histories')

P('C33', 'Batching does not matter; weight one is no weight, weight zero is no sample',
  'Learners that learn from one sample at a time end up the same however the samples are cut into '
  'partial_fit calls. For learners that honour sample_weight, weights of one are the same as no weights, and '
  'samples of weight zero have no effect at all.',
  ['inputs', 'histories', 'configurations'],
  'incremental learners (trees, naive Bayes, neighbours, rules, forests, random patches and others), '
  'configurations, training histories, ways of batching and positions of weightless samples; learners that by '
  'design look at a whole batch at once are not compared',
  'Tests train with one batch size and rarely with weights.',
  [('tree', 'trees/hoeffding_tree.py'), ('extremely fast tree', 'trees/extremely_fast_decision_tree.py'),
   ('regression tree', 'trees/hoeffding_tree_regressor.py'), ('naive Bayes', 'bayes/naive_bayes.py'),
   ('forests', 'meta/adaptive_random_forests.py'), ('rules', 'rules/very_fast_decision_rules.py'),
   ('neighbours', 'lazy/base_neighbors.py')],
  'differential monitor over twin learners trained with different batches and weights')

P('C34', 'Learners share no state with each other or with their prototypes',
  'A learner answers the same whether or not other learners, built from the very same parameter objects or '
  'from the default arguments, learn other problems in between. Base estimators and drift detectors handed '
  'to a learner are prototypes: they behave afterwards as if they had never been used.',
  ['inputs', 'histories', 'configurations'],
  'all learners and configurations, default and shared parameter objects, interleavings of two learners',
  'Tests build one learner at a time.',
  [('bagging', 'meta/oza_bagging.py'), ('leveraging', 'meta/leverage_bagging.py'),
   ('boosting', 'meta/online_boosting.py'), ('forests', 'meta/adaptive_random_forests.py'),
   ('random patches', 'meta/streaming_random_patches.py'), ('multi-output', 'meta/multi_output_learner.py'),
   ('rules', 'rules/very_fast_decision_rules.py'), ('chunks', 'meta/learn_nse.py')],
  'differential monitor: a learner alone against the same learner interleaved with another one')

P('C35', 'Online bagging trains and counts every member as documented',
  'Every member of an online bagging ensemble is trained on every sample, with the label and the weight of '
  'that sample, as often as its resampling says: Poisson(1) times (OzaBagging), Poisson(w), at least once, at '
  'most once with probability 1/2, 1-1/e or by its error (LeveragingBagging variants), or rates growing with '
  'the number of the member and depending on the class (under/over-sampling and SMOTE), independently of each '
  'other. Output codes are fixed and balanced; synthetic samples are positive and on a line through '
  'the sample and an earlier positive one. The scores are the normalised sum of the scores (or coded votes) of all members, '
  'the label is one with the highest score.',
  ['inputs', 'histories', 'configurations'],
  'OzaBagging, OzaBaggingADWIN, UnderOverBagging, SMOTEBagging, the five LeveragingBagging variants and output '
  'codes; numbers of members and classes, rates, batches, base learners (also ones that know only some classes)',
  'Tests compare the predictions of one seeded run with recorded ones.',
  [('Oza bagging', 'meta/oza_bagging.py'), ('with ADWIN', 'meta/oza_bagging_adwin.py'),
   ('leveraging', 'meta/leverage_bagging.py'), ('SMOTE', 'meta/online_smote_bagging.py'),
   ('under/over', 'meta/online_under_over_bagging.py')],
  'spy base learners, statistical and exact monitors of every training and vote')

P('C36', 'Online boosting weighs samples and members by the observed errors',
  'A sample reaches the members one after the other with a weight that starts at one and is multiplied, after '
  'each member, by the factor its algorithm prescribes for right and wrong answers given the error the member has shown so '
  'far (and the costs or sampling rates of the classes); every member is trained Poisson(weight) times on it, with the label '
  'and weight given by the caller. The scores are the sum of the scores of the members, each multiplied by '
  'the logarithm of its odds of being right (normalised if the sum is positive).',
  ['inputs', 'histories', 'configurations'],
  'OnlineBoosting, OnlineAdaC2, OnlineCSB2 and OnlineRUSBoost (three algorithms); numbers of members and '
  'classes, costs, rates, batches, accuracies of the base learners',
  'Tests compare the predictions of one seeded run with recorded ones.',
  [('boosting', 'meta/online_boosting.py'), ('AdaC2', 'meta/online_adac2.py'), ('CSB2', 'meta/online_csb2.py'),
   ('RUSBoost', 'meta/online_rus_boost.py')],
  'spy base learners, lock-step reference of the weights, exact monitor of the votes')

P('C37', 'Ensembles replace their worst member when an error rises, and only then',
  'Ensembles with change detection watch the error of every member with ADWIN. When a change is detected with '
  'the error having risen, exactly the member with the highest error is replaced by an untrained one and its '
  'statistics start again; when no error rose, or the detection is switched off, nobody is replaced.',
  ['inputs', 'histories', 'configurations'],
  'OzaBaggingADWIN, LeveragingBagging (also with output codes), boosting and cost-sensitive ensembles with '
  'drift detection; members whose accuracy falls or rises at any moment; one sample per call',
  'Tests compare the predictions of one seeded run with recorded ones.',
  [('Oza bagging', 'meta/oza_bagging_adwin.py'), ('leveraging', 'meta/leverage_bagging.py'),
   ('boosting', 'meta/online_boosting.py'), ('AdaC2', 'meta/online_adac2.py'), ('CSB2', 'meta/online_csb2.py'),
   ('RUSBoost', 'meta/online_rus_boost.py'), ('SMOTE', 'meta/online_smote_bagging.py'),
   ('under/over', 'meta/online_under_over_bagging.py')],
  'spy base learners of scripted accuracy, an ADWIN per member in lock step')

P('C38', 'Expert ensembles weigh, prune and add experts by their mistakes',
  'DynamicWeightedMajority and AdditiveExpertEnsemble answer with the label that has the largest total weight '
  'of experts behind it; experts that are wrong lose weight by the factor beta at the documented moments, an '
  'expert is added when the ensemble is wrong (starting from the documented weight), experts are removed by weight threshold, or the weakest or '
  'oldest when there are too many; all experts are trained on every sample with its label and weight.',
  ['inputs', 'histories', 'configurations'],
  'both ensembles, both pruning strategies, beta, gamma, theta, periods, limits, accuracies of the experts',
  'Tests compare the predictions of one seeded run with recorded ones.',
  [('dynamic weighted majority', 'meta/dynamic_weighted_majority.py'),
   ('additive experts', 'meta/additive_expert_ensemble.py')],
  'spy base learners, lock-step reference of the weights of all experts')

P('C39', 'Chunk ensembles train one model per window and weigh it by its record',
  'Chunk ensembles train new models exactly when a window is full, on exactly the samples (labels, weights) '
  'of that window, however they arrived, and never change those samples afterwards. Models are weighted as '
  'documented: AccuracyWeightedEnsemble by their squared error on the latest window against guessing (new ones by '
  'cross-validation), Learn++.NSE by sigmoid-averaged errors on boosted windows, Learn++ by errors on samples '
  'drawn by weight, BatchIncremental equally. Only the documented number of models (best, youngest) is kept, '
  'and answers are the weighted votes of the kept models.',
  ['inputs', 'histories', 'configurations'],
  'AccuracyWeightedEnsemble, BatchIncremental, Learn++, Learn++.NSE; window sizes, limits, pruning, batches, '
  'accuracies of the models; windows that contain every class',
  'Tests compare the predictions of one run with recorded ones.',
  [('accuracy weighted', 'meta/accuracy_weighted_ensemble.py'), ('batch incremental', 'meta/batch_incremental.py'),
   ('Learn++', 'meta/learn_pp.py'), ('Learn++.NSE', 'meta/learn_nse.py')],
  'spy base learners, lock-step reference of windows, weights and votes')

P('C40', 'Forests resample, adapt and vote as documented',
  'Every member of an adaptive random forest or random-patches ensemble is trained Poisson(lambda) times per '
  'sample (random subspaces: always once), the nodes of its trees look at max_features features each, random patches only ever see their own fixed feature subset of the '
  'documented size. Its detectors see its error and nothing else. After a warning a background learner starts '
  'and is trained with the same samples; at a drift it takes the place of the member (without one the member '
  'starts again), nobody else is touched, and without drift nobody is replaced. Answers are the votes of the '
  'members weighted by their accuracy or kappa (regression: by their errors, or mean or median).',
  ['inputs', 'histories', 'configurations'],
  'AdaptiveRandomForest classifier and regressor, StreamingRandomPatches in its three modes; numbers of '
  'members, lambda, subspaces, detectors firing at any moment, with and without background learners and weights',
  'Tests compare the predictions of seeded runs with recorded ones.',
  [('forest', 'meta/adaptive_random_forests.py'), ('regression forest', 'meta/adaptive_random_forest_regressor.py'),
   ('random patches', 'meta/streaming_random_patches.py')],
  'scripted detectors and logged base learners, a state machine per member, statistical monitors of the rates')

P('C41', 'Multi-output learners train and answer every output with its own member',
  'Classifier and regressor chains train one member per output on the features and the true values of the outputs before '
  'it in the chain (identity or a random order fixed at the first training), and answer by following the chain with '
  'predicted values; every answer and every score stands in the column of its own output. A probabilistic chain answers '
  'with the most probable combination of labels. MultiOutputLearner trains one independent member per output on that '
  'output only, passing on exactly the classes and weights its members accept.',
  ['inputs', 'histories', 'configurations'],
  'ClassifierChain, ProbabilisticClassifierChain, MonteCarloClassifierChain, RegressorChain, MultiOutputLearner; 2-5 '
  'outputs, random orders, batches, members with different signatures, fit and partial_fit in any sequence',
  'Tests compare predictions for four samples with recorded ones.',
  [('classifier chains', 'meta/classifier_chains.py'), ('regressor chains', 'meta/regressor_chains.py'),
   ('independent members', 'meta/multi_output_learner.py')],
  'spy members that log what they are trained on and asked, exhaustive reference for joint predictions')

P('C42', 'Stream transforms compute what they document and leave their input alone',
  'MissingValuesCleaner replaces exactly the missing values (every coded value and NaN), with zero, the custom value, or the mean, '
  'median or mode of the observed values of that feature among the latest window_size samples (the current one included); '
  'WindowedStandardScaler standardises every value by the mean and deviation of the latest window_size samples before it; '
  'OneHotToCategorical replaces every group of binary features by the index of the active one and keeps all other '
  'features. Nothing depends on how the samples are cut into batches, on their type (lists, integers) or on what the '
  'caller does with the arrays afterwards, and the samples given are not changed.',
  ['inputs', 'histories', 'configurations'],
  'all strategies, codes for missing values, window sizes, batches, array layouts and types, groups of any width; '
  'transform, partial_fit and partial_fit_transform in any sequence',
  'Tests transform one fixed table per transform.',
  [('missing values', 'transform/missing_values_cleaner.py'), ('standard scaler', 'transform/windowed_standard_scaler.py'),
   ('one-hot', 'transform/one_hot_to_categorical.py'), ('min-max scaler', 'transform/windowed_minmax_scaler.py')],
  'lock-step reference that keeps the raw rows; what was handed in is compared and then overwritten')

P('C43', 'A pipeline passes every sample through all steps exactly once, in order',
  'For every call of fit, partial_fit, partial_fit_predict and predict, each transform of a pipeline learns exactly once (not '
  'at all for predict) from what the steps before it produce, with the labels, and the final learner is trained once on, or asked for, what the last '
  'transform produces; empty steps are skipped, classes reach the steps that accept them, and steps without fit and '
  'transform are refused with a TypeError.',
  ['inputs', 'histories', 'configurations'],
  'pipelines of up to four transforms offering different sets of methods (own, scikit-learn, None) and a final learner; '
  'random sequences of calls',
  'Tests run one pipeline over one stream.',
  [('pipeline', 'core/pipeline.py')],
  'logged transforms and a spy learner, the same steps applied by hand')

P('C44', 'Decision rules learn from what they cover and grow by the Hoeffding bound',
  'In a VeryFastDecisionRulesClassifier every sample is learned by the first rule that covers it (ordered) or by every rule '
  'that covers it (unordered), else by the default rule, and by nobody else, with its label and weight. A rule is created '
  '(never beyond max_rules) or expanded exactly when it is considered, once per grace period of weight, and '
  'its best test beats the second best by the Hoeffding bound or the bound is below the tie threshold; the test is the '
  'best one for the samples the rule has seen, conditions are only ever tightened, and the rule and the default rule '
  'inherit the two sides. The detector of a rule is told its errors, and a rule of enough weight whose detector reports a change is dropped. '
  'Answers are the votes (class weights or naive Bayes) of the first covering rule, of the most certain one, or the '
  'sum over all covering rules, as configured; the default rule answers when none covers.',
  ['inputs', 'histories', 'configurations'],
  'information gain and Hellinger distance (foil gain: everything but the moment and choice of an expansion), numeric '
  'and nominal features, 2-3 classes, weights, orderings, predictions, limits, drift at any moment',
  'Tests compare the description and predictions of three seeded runs with recorded ones.',
  [('classifier', 'rules/very_fast_decision_rules.py'), ('rules', 'rules/base_rule.py'),
   ('tests', 'rules/base_predicate.py'), ('numeric statistics', 'rules/numeric_attribute_class_observer.py'),
   ('nominal statistics', 'rules/nominal_attribute_class_observer.py'), ('gain', 'rules/info_gain_rule_criterion.py'),
   ('Hellinger', 'rules/hellinger_distance_criterion.py')],
  'online monitor of the published rules after every sample against a reference kept from raw samples')

P('C45', 'Prototypes, half-space trees and the perceptron follow their published rules',
  'RobustSoftLearningVectorQuantization starts the prototypes of a class at the mean of the first batch that contains it (or at '
  'the given ones, which stay unchanged), moves the nearest right and the nearest wrong prototype by the published '
  'gradient step (vanilla or adadelta) exactly when the wrong one is nearer, and answers with the class of the nearest '
  'prototype. The anomaly score of HalfSpaceTrees is one minus the relative mass of the region of the sample in the '
  'last complete window, averaged over the trees, and a sample is flagged exactly when it exceeds the threshold. PerceptronMask '
  'behaves exactly as the scikit-learn perceptron it masks.',
  ['inputs', 'histories', 'configurations'],
  'prototypes per class, late classes, sigma, gamma; window sizes, depths, size limits, thresholds; perceptron '
  'parameters; batches, weights',
  'Tests compare the predictions of one seeded run each with recorded ones.',
  [('RSLVQ', 'prototype/robust_soft_learning_vector_quantization.py'),
   ('half-space trees', 'anomaly_detection/half_space_trees.py'), ('perceptron', 'neural_networks/perceptron.py')],
  'lock-step references of the update rules, recount of the masses from raw samples')

P('C46', 'A memory-limited tree closes its least useful leaves and keeps its books',
  'With max_byte_size and memory_estimate_period set, a Hoeffding tree (classifier, extremely fast, '
  'single- and multi-target regressor) re-estimates its leaf sizes exactly after every period of training '
  'weight, and whenever it splits or is measured over the limit keeps active as many leaves as fit the '
  'limit by those estimates: the most promising ones (classifiers: most weight outside the majority class; '
  'regressors: the shallowest). Closed leaves go on counting and answering but neither split nor '
  'estimate; a reopened leaf starts its estimates over. With stop_mem_management the tree stops growing '
  'once over the limit (or once it has a closed leaf) instead. Reported numbers of nodes, leaves and active '
  'leaves are always those of the tree, the estimates add up to its measured size, and the size of an '
  'object is the sum over everything distinct it holds.',
  ['inputs', 'histories', 'configurations'],
  'all streams, weights, limits, periods, parameters and leaf prediction modes',
  'Tests run with the default limit of 32 MB, which is never reached.',
  [('limit and estimates', 'trees/hoeffding_tree.py'), ('regressors', 'trees/hoeffding_tree_regressor.py'),
   ('several targets', 'trees/isoup_tree.py'), ('promise of a leaf', 'trees/_nodes/base.py'),
   ('replaced subtrees', 'trees/extremely_fast_decision_tree.py'), ('sizes', 'utils/utils.py')],
  'lock-step reference tree that opens and closes leaves by its own count; answers, counts and sizes '
  'compared online')
