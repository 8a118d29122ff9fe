"""Every learner of the library, in several configurations each, with the data it accepts.

Entry fields
  kind    'clf' (any number of classes), 'bin' (labels 0/1), 'ml' (multi-label), 'reg', 'mt' (multi-target
          regression), 'anom' (unsupervised scores)
  build   build(r, seed) -> a fresh model; r (numpy RandomState) picks the configuration and must be used
          only for that, so that build(RandomState(s), seed) is reproducible
  classes how the set of labels is announced: 'first' call, 'always' or 'never'
  proba   'dist' rows are distributions (or all zero before anything is known), 'votes' rows are
          non-negative scores, 'signed' any finite scores, 'label' one probability per label, None not offered
  batch   True when training on a batch is the same as training on its rows one by one
  row     True when a prediction depends only on its own row
  weights True when sample_weight is honoured
  fit0    True when it can predict before it has been trained
"""
import contextlib
import io
import warnings

import numpy as np


class Skip(Exception):
    """The model refused the data in a documented way; the case says nothing."""


class Entry:
    def __init__(self, name, kind, build, classes='first', proba='dist', batch=True, row=True,
                 weights=False, fit0=False, seeded=False, n=150, d=(2, 5), cost=1, nominal=False,
                 reset=True, window=None, first=1, pure=True):
        self.__dict__.update(locals())
        del self.__dict__['self']


class LMS:
    """A deterministic incremental linear regressor, as a base learner."""
    _estimator_type = 'regressor'

    def fit(self, X, y):
        self.w = np.zeros(X.shape[1] + 1)
        return self.partial_fit(X, y)

    def partial_fit(self, X, y):
        if not hasattr(self, 'w'):
            self.w = np.zeros(np.shape(X)[1] + 1)
        for x, t in zip(np.asarray(X, dtype=float), y):
            z = np.append(x, 1.0)
            self.w = self.w + 0.2 * (t - z @ self.w) * z / (1 + z @ z)
        return self

    def predict(self, X):
        X = np.asarray(X, dtype=float)
        return X @ self.w[:-1] + self.w[-1]


def _trees(r, regr=False, **over):
    kw = dict(grace_period=int(r.choice([10, 15, 25])), tie_threshold=float(r.choice([0.05, 0.2, 0.5])),
              split_confidence=float(r.choice([1e-7, 1e-3, 0.05])), binary_split=bool(r.randint(2)),
              no_preprune=bool(r.randint(2)), remove_poor_atts=bool(r.randint(2)))
    if not regr:
        kw['split_criterion'] = str(r.choice(['info_gain', 'gini', 'hellinger']))
        kw['leaf_prediction'] = str(r.choice(['mc', 'nb', 'nba']))
        kw['nb_threshold'] = int(r.choice([0, 5]))
    kw.update(over)
    return kw


def _ht(r, seed):
    from skmultiflow.trees import HoeffdingTreeClassifier
    return HoeffdingTreeClassifier(**_trees(r, nominal_attributes=[0]))


def _efdt(r, seed):
    from skmultiflow.trees import ExtremelyFastDecisionTreeClassifier
    kw = _trees(r, nominal_attributes=[0], min_samples_reevaluate=int(r.choice([10, 20])))
    kw.pop('remove_poor_atts')
    kw.pop('no_preprune')
    return ExtremelyFastDecisionTreeClassifier(**kw)


def _hat(r, seed):
    from skmultiflow.trees import HoeffdingAdaptiveTreeClassifier
    return HoeffdingAdaptiveTreeClassifier(**_trees(r, bootstrap_sampling=bool(r.randint(2)),
                                                    random_state=seed))


def _lcht(r, seed):
    from skmultiflow.trees import LabelCombinationHoeffdingTreeClassifier
    return LabelCombinationHoeffdingTreeClassifier(n_labels=3, **_trees(r))


def _htr(r, seed):
    from skmultiflow.trees import HoeffdingTreeRegressor
    return HoeffdingTreeRegressor(**_trees(r, True, leaf_prediction=str(r.choice(['mean', 'perceptron'])),
                                           learning_ratio_const=bool(r.randint(2)), random_state=seed))


def _hatr(r, seed):
    from skmultiflow.trees import HoeffdingAdaptiveTreeRegressor
    return HoeffdingAdaptiveTreeRegressor(**_trees(
        r, True, leaf_prediction=str(r.choice(['mean', 'perceptron'])),
        bootstrap_sampling=bool(r.randint(2)), random_state=seed))


def _isoup(r, seed):
    from skmultiflow.trees import iSOUPTreeRegressor
    return iSOUPTreeRegressor(**_trees(r, True, leaf_prediction=str(r.choice(['mean', 'perceptron', 'adaptive'])),
                                       random_state=seed))


def _sst(r, seed):
    from skmultiflow.trees import StackedSingleTargetHoeffdingTreeRegressor
    return StackedSingleTargetHoeffdingTreeRegressor(**_trees(
        r, True, leaf_prediction=str(r.choice(['perceptron', 'adaptive'])), random_state=seed))


def _nb(r, seed):
    from skmultiflow.bayes import NaiveBayes
    return NaiveBayes(nominal_attributes=[0])


def _knn(r, seed):
    from skmultiflow.lazy import KNNClassifier
    return KNNClassifier(n_neighbors=int(r.choice([1, 3, 5])), max_window_size=int(r.choice([20, 60, 1000])),
                         leaf_size=int(r.choice([5, 30])))


def _knnadwin(r, seed):
    from skmultiflow.lazy import KNNADWINClassifier
    return KNNADWINClassifier(n_neighbors=int(r.choice([1, 3, 5])), max_window_size=int(r.choice([30, 1000])))


def _knnr(r, seed):
    from skmultiflow.lazy import KNNRegressor
    return KNNRegressor(n_neighbors=int(r.choice([1, 3, 5])), max_window_size=int(r.choice([20, 60, 1000])),
                        aggregation_method=str(r.choice(['mean', 'median'])))


def _samknn(r, seed):
    from skmultiflow.lazy import SAMKNNClassifier
    return SAMKNNClassifier(n_neighbors=int(r.choice([1, 3, 5])), max_window_size=int(r.choice([60, 1000])),
                            weighting=str(r.choice(['distance', 'uniform'])),
                            stm_size_option=[None, 'maxACC', 'maxACCApprox'][r.randint(3)],
                            use_ltm=bool(r.randint(2)))


def _vfdr(r, seed):
    from skmultiflow.rules import VeryFastDecisionRulesClassifier
    from skmultiflow.drift_detection import ADWIN, HDDM_A
    ordered = bool(r.randint(2))
    return VeryFastDecisionRulesClassifier(
        expand_confidence=float(r.choice([1e-7, 1e-2])), ordered_rules=ordered,
        grace_period=int(r.choice([10, 20])), tie_threshold=float(r.choice([0.05, 0.5])),
        rule_prediction='first_hit' if ordered else str(r.choice(['first_hit', 'weighted_max', 'weighted_sum'])),
        nominal_attributes=[0], max_rules=int(r.choice([3, 1000])), nb_prediction=bool(r.randint(2)),
        nb_threshold=int(r.choice([0, 5])), drift_detector=[None, ADWIN(0.3), HDDM_A()][r.randint(3)],
        expand_criterion=str(r.choice(['info_gain', 'hellinger', 'foil_gain'])),
        remove_poor_atts=bool(r.randint(2)), min_weight=int(r.choice([10, 100])))


def _rslvq(r, seed):
    from skmultiflow.prototype import RobustSoftLearningVectorQuantization
    return RobustSoftLearningVectorQuantization(
        prototypes_per_class=int(r.choice([1, 2])), sigma=float(r.choice([0.5, 1.0, 5.0])),
        gradient_descent=str(r.choice(['vanilla', 'adadelta'])), random_state=seed)


def _hst(r, seed):
    from skmultiflow.anomaly_detection import HalfSpaceTrees
    return HalfSpaceTrees(window_size=int(r.choice([10, 25, 50])), depth=int(r.choice([3, 5, 7])),
                          n_estimators=int(r.choice([1, 3, 6])), size_limit=int(r.choice([1, 3])),
                          anomaly_threshold=float(r.choice([0.5, 0.9])), random_state=seed)


def _perc(r, seed):
    from skmultiflow.neural_networks import PerceptronMask
    return PerceptronMask(random_state=seed, eta0=float(r.choice([0.1, 1.0])))


def _nbase(r):
    """A base learner for ensembles: cheap, incremental, with reset."""
    from skmultiflow.bayes import NaiveBayes
    from skmultiflow.lazy import KNNClassifier
    from skmultiflow.trees import HoeffdingTreeClassifier
    c = r.randint(3)
    if c == 0:
        return NaiveBayes()
    if c == 1:
        return KNNClassifier(n_neighbors=3, max_window_size=40)
    return HoeffdingTreeClassifier(grace_period=15, tie_threshold=0.3, leaf_prediction='mc')


def _oza(r, seed):
    from skmultiflow.meta import OzaBaggingClassifier
    return OzaBaggingClassifier(base_estimator=_nbase(r), n_estimators=int(r.choice([1, 3, 5])), random_state=seed)


def _ozaadwin(r, seed):
    from skmultiflow.meta import OzaBaggingADWINClassifier
    return OzaBaggingADWINClassifier(base_estimator=_nbase(r), n_estimators=int(r.choice([1, 3, 5])),
                                     random_state=seed)


def _lev(r, seed):
    from skmultiflow.meta import LeveragingBaggingClassifier
    return LeveragingBaggingClassifier(
        base_estimator=_nbase(r), n_estimators=int(r.choice([2, 4])), w=float(r.choice([1, 3])),
        delta=float(r.choice([0.002, 0.3])), enable_code_matrix=bool(r.randint(2)),
        leverage_algorithm=str(r.choice(['leveraging_bag', 'leveraging_bag_me', 'leveraging_bag_half',
                                         'leveraging_bag_wt', 'leveraging_subag'])), random_state=seed)


def _boost(cls, **extra):
    def build(r, seed):
        import skmultiflow.meta as m
        kw = {k: v(r) for k, v in extra.items()}
        return getattr(m, cls)(base_estimator=_nbase(r), n_estimators=int(r.choice([2, 4])),
                               drift_detection=bool(r.randint(2)), random_state=seed, **kw)
    return build


def _arf(r, seed):
    from skmultiflow.meta import AdaptiveRandomForestClassifier
    from skmultiflow.drift_detection import ADWIN
    return AdaptiveRandomForestClassifier(
        n_estimators=int(r.choice([2, 4])), max_features=['auto', 'sqrt', 'log2', 2, None][r.randint(5)],
        disable_weighted_vote=bool(r.randint(2)), lambda_value=float(r.choice([1, 6])),
        performance_metric=str(r.choice(['acc', 'kappa'])),
        drift_detection_method=[ADWIN(0.001), ADWIN(0.5), None][r.randint(3)],
        warning_detection_method=[ADWIN(0.01), ADWIN(0.7), None][r.randint(3)],
        grace_period=int(r.choice([10, 25])), leaf_prediction=str(r.choice(['mc', 'nb', 'nba'])),
        tie_threshold=0.3, random_state=seed)


def _arfr(r, seed):
    from skmultiflow.meta import AdaptiveRandomForestRegressor
    from skmultiflow.drift_detection import ADWIN
    return AdaptiveRandomForestRegressor(
        n_estimators=int(r.choice([2, 4])), max_features=['auto', 'sqrt', 'log2', 2, None][r.randint(5)],
        aggregation_method=str(r.choice(['mean', 'median'])),
        weighted_vote_strategy=[None, 'mse', 'mae'][r.randint(3)], lambda_value=int(r.choice([1, 3])),
        drift_detection_method=[ADWIN(0.001), ADWIN(0.5), None][r.randint(3)],
        warning_detection_method=[ADWIN(0.01), ADWIN(0.7), None][r.randint(3)],
        drift_detection_criteria=str(r.choice(['mse', 'mae', 'predictions'])),
        grace_period=int(r.choice([10, 25])), leaf_prediction=str(r.choice(['mean', 'perceptron'])),
        tie_threshold=0.3, random_state=seed)


def _srp(r, seed):
    from skmultiflow.meta import StreamingRandomPatchesClassifier
    from skmultiflow.trees import HoeffdingTreeClassifier
    from skmultiflow.drift_detection import ADWIN
    return StreamingRandomPatchesClassifier(
        base_estimator=HoeffdingTreeClassifier(grace_period=15, tie_threshold=0.3),
        n_estimators=int(r.choice([1, 3])), subspace_mode=str(r.choice(['m', 'sqrtM1', 'MsqrtM1', 'percentage'])),
        subspace_size=int(r.choice([2, 3, 4, 5])) if r.randint(2) else 60,
        training_method=str(r.choice(['randompatches', 'resampling', 'randomsubspaces'])),
        lam=float(r.choice([1, 6])), drift_detection_method=[ADWIN(1e-5), ADWIN(0.5)][r.randint(2)],
        warning_detection_method=[ADWIN(1e-4), ADWIN(0.7)][r.randint(2)],
        disable_weighted_vote=bool(r.randint(2)), disable_drift_detection=bool(r.randint(4) == 0),
        disable_background_learner=bool(r.randint(2)), random_state=seed)


def _dwm(r, seed):
    from skmultiflow.meta import DynamicWeightedMajorityClassifier
    return DynamicWeightedMajorityClassifier(n_estimators=int(r.choice([2, 4])), base_estimator=_nbase(r),
                                             period=int(r.choice([1, 3, 10])), beta=float(r.choice([0.3, 0.5, 0.9])),
                                             theta=float(r.choice([0.01, 0.1])))


def _aee(r, seed):
    from skmultiflow.meta import AdditiveExpertEnsembleClassifier
    return AdditiveExpertEnsembleClassifier(n_estimators=int(r.choice([2, 4])), base_estimator=_nbase(r),
                                            beta=float(r.choice([0.5, 0.8])), gamma=float(r.choice([0.1, 0.5])),
                                            pruning=str(r.choice(['weakest', 'oldest'])))


def _awe(r, seed):
    from skmultiflow.meta import AccuracyWeightedEnsembleClassifier
    return AccuracyWeightedEnsembleClassifier(n_estimators=int(r.choice([1, 2, 4])),
                                              n_kept_estimators=int(r.choice([2, 5])), base_estimator=_nbase(r),
                                              window_size=int(r.choice([20, 30])), n_splits=int(r.choice([2, 4])))


def _dt(**kw):
    from sklearn.tree import DecisionTreeClassifier
    return DecisionTreeClassifier(random_state=7, **kw)


def _batchinc(r, seed):
    from skmultiflow.meta import BatchIncrementalClassifier
    return BatchIncrementalClassifier(base_estimator=_dt(), window_size=int(r.choice([10, 20])),
                                      n_estimators=int(r.choice([1, 3, 10])))


def _lpp(r, seed):
    from skmultiflow.meta import LearnPPClassifier
    return LearnPPClassifier(base_estimator=_dt(max_depth=1), n_estimators=int(r.choice([1, 3])),
                             n_ensembles=int(r.choice([1, 3])), window_size=int(r.choice([20, 40])),
                             error_threshold=0.5, random_state=seed)


def _nse(r, seed):
    from skmultiflow.meta import LearnPPNSEClassifier
    return LearnPPNSEClassifier(base_estimator=_dt(), window_size=int(r.choice([20, 30])),
                                slope=float(r.choice([0.5, 2.0])), crossing_point=int(r.choice([2, 10])),
                                n_estimators=int(r.choice([2, 3])), pruning=[None, 'age', 'error'][r.randint(3)])


def _mol(r, seed):
    from skmultiflow.meta import MultiOutputLearner
    from skmultiflow.bayes import NaiveBayes
    from skmultiflow.neural_networks import PerceptronMask
    return MultiOutputLearner(base_estimator=PerceptronMask(random_state=3))


def _cc(cls):
    def build(r, seed):
        import skmultiflow.meta as m
        from sklearn.linear_model import SGDClassifier
        b = SGDClassifier(loss='log', random_state=3, max_iter=20, tol=None)
        if cls == 'MonteCarloClassifierChain':
            return m.MonteCarloClassifierChain(b, M=int(r.choice([2, 5])), random_state=seed)
        return getattr(m, cls)(b, order=[None, 'random'][r.randint(2)], random_state=seed)
    return build


def _rc(r, seed):
    from skmultiflow.meta import RegressorChain
    return RegressorChain(LMS(),
                          order=[None, 'random'][r.randint(2)], random_state=seed)


_r = lambda *v: (lambda r: v[r.randint(len(v))])

ENTRIES = [
    Entry('HoeffdingTreeClassifier', 'clf', _ht, weights=True, fit0=True, n=300, nominal=True),
    Entry('ExtremelyFastDecisionTreeClassifier', 'clf', _efdt, weights=True, fit0=True, n=250, nominal=True),
    Entry('HoeffdingAdaptiveTreeClassifier', 'clf', _hat, weights=True, fit0=True, n=300, seeded=True),
    Entry('LabelCombinationHoeffdingTreeClassifier', 'ml', _lcht, weights=True, fit0=True, n=250,
          classes='never', proba='votes'),
    Entry('HoeffdingTreeRegressor', 'reg', _htr, weights=True, fit0=True, n=250, seeded=True, classes='never',
          proba=None),
    Entry('HoeffdingAdaptiveTreeRegressor', 'reg', _hatr, weights=True, fit0=True, n=250, seeded=True,
          classes='never', proba=None),
    Entry('iSOUPTreeRegressor', 'mt', _isoup, weights=True, n=250, seeded=True, classes='never', proba=None),
    Entry('StackedSingleTargetHoeffdingTreeRegressor', 'mt', _sst, weights=True, n=250, seeded=True,
          classes='never', proba=None),
    Entry('NaiveBayes', 'clf', _nb, weights=True, fit0=True, nominal=True),
    Entry('KNNClassifier', 'clf', _knn),
    Entry('KNNADWINClassifier', 'clf', _knnadwin, batch=False),
    Entry('KNNRegressor', 'reg', _knnr, classes='never', proba=None),
    Entry('SAMKNNClassifier', 'clf', _samknn, proba=None, n=200),
    Entry('VeryFastDecisionRulesClassifier', 'clf', _vfdr, weights=True, fit0=True, n=250, nominal=True),
    Entry('RobustSoftLearningVectorQuantization', 'clf', _rslvq, proba=None, first=20, seeded=True,
          reset=False, batch=False),
    Entry('HalfSpaceTrees', 'anom', _hst, classes='never', fit0=True, seeded=True, reset=False),
    Entry('PerceptronMask', 'clf', _perc, seeded=True, first=10, reset=False, batch=False),
    Entry('OzaBaggingClassifier', 'clf', _oza, classes='always', seeded=True),
    Entry('OzaBaggingADWINClassifier', 'clf', _ozaadwin, classes='always', seeded=True, batch=False),
    Entry('LeveragingBaggingClassifier', 'clf', _lev, classes='always', seeded=True),
    Entry('OnlineBoostingClassifier', 'clf', _boost('OnlineBoostingClassifier'), classes='always', seeded=True,
          batch=False, proba='signed'),
    Entry('OnlineAdaC2Classifier', 'bin', _boost('OnlineAdaC2Classifier', cost_positive=_r(1, .7),
                                                  cost_negative=_r(1, .3)), classes='always', seeded=True,
          batch=False, proba='signed'),
    Entry('OnlineCSB2Classifier', 'bin', _boost('OnlineCSB2Classifier', cost_positive=_r(1, .7),
                                                 cost_negative=_r(1, .3)), classes='always', seeded=True,
          batch=False, proba='signed'),
    Entry('OnlineRUSBoostClassifier', 'bin', _boost('OnlineRUSBoostClassifier', sampling_rate=_r(1, 3),
                                                     algorithm=_r(1, 2, 3)), classes='always', seeded=True,
          batch=False, proba='signed'),
    Entry('OnlineSMOTEBaggingClassifier', 'bin', _boost('OnlineSMOTEBaggingClassifier', sampling_rate=_r(1, 3)),
          classes='always', seeded=True, batch=False),
    Entry('OnlineUnderOverBaggingClassifier', 'bin', _boost('OnlineUnderOverBaggingClassifier',
                                                             sampling_rate=_r(1, 3)), classes='always', seeded=True,
          batch=False),
    Entry('AdaptiveRandomForestClassifier', 'clf', _arf, weights=True, fit0=True, seeded=True, cost=3),
    Entry('AdaptiveRandomForestRegressor', 'reg', _arfr, fit0=True, seeded=True, classes='never', proba=None,
          cost=3),
    Entry('StreamingRandomPatchesClassifier', 'clf', _srp, fit0=True, seeded=True, d=(3, 6), cost=3,
          proba='votes'),
    Entry('DynamicWeightedMajorityClassifier', 'bin', _dwm, proba=None, classes='always'),
    Entry('AdditiveExpertEnsembleClassifier', 'bin', _aee, proba=None, classes='always'),
    Entry('AccuracyWeightedEnsembleClassifier', 'clf', _awe, proba=None, fit0=True, classes='always'),
    Entry('BatchIncrementalClassifier', 'bin', _batchinc, proba='label', fit0=True, classes='always'),
    Entry('LearnPPClassifier', 'clf', _lpp, proba='votes', seeded=True, classes='always', cost=2),
    Entry('LearnPPNSEClassifier', 'clf', _nse, proba='votes', classes='always', cost=2),
    Entry('MultiOutputLearner', 'ml', _mol, proba=None, first=20, batch=False),
    Entry('ClassifierChain', 'ml', _cc('ClassifierChain'), proba='label', first=20, batch=False, seeded=True,
          classes='never'),
    Entry('ProbabilisticClassifierChain', 'ml', _cc('ProbabilisticClassifierChain'), proba='label', first=20,
          batch=False, seeded=True, classes='never'),
    Entry('MonteCarloClassifierChain', 'ml', _cc('MonteCarloClassifierChain'), proba='label', first=20,
          batch=False, seeded=True, classes='never', pure=False),
    Entry('RegressorChain', 'mt', _rc, proba=None, first=20, batch=False, seeded=True, classes='never'),
]
BY_NAME = {e.name: e for e in ENTRIES}


class Data:
    """A drifting problem of the kind an entry needs."""

    def __init__(self, e, r, n=None, d=None, k=None):
        n = n or e.n
        d = d or int(r.randint(e.d[0], e.d[1] + 1))
        k = 2 if e.kind == 'bin' else k or int(r.choice([2, 3]))
        X = r.normal(size=(n, d))
        if e.nominal:
            X[:, 0] = r.randint(0, 3, size=n)
        W = r.normal(size=(d, 3))
        W2 = np.where(r.rand(d, 3) < 0.5, W, -W)
        half = int(n * r.choice([0.4, 0.6, 1.0]))
        S = np.vstack([X[:half] @ W, X[half:] @ W2]) + 0.3 * r.normal(size=(n, 3))
        if e.kind in ('clf', 'bin'):
            self.y = np.argmax(S[:, :k], axis=1).astype(int)
            if e.first > 1:      # the first batch has to show every class
                self.y[:k] = np.arange(k)
            self.classes = list(range(k))
        elif e.kind == 'ml':
            self.y = (S > 0).astype(int)
            self.y[:2] = [[0] * 3, [1] * 3]
            self.classes = [0, 1]
        elif e.kind == 'reg':
            self.y = S[:, 0] * float(r.choice([1.0, 10.0])) + float(r.choice([0, 5.0]))
            self.classes = None
        elif e.kind == 'mt':
            self.y = S[:, :2] + r.choice([0.0, 3.0])
            self.classes = None
        else:
            self.y = np.zeros(n, dtype=int)
            self.classes = None
        if e.kind == 'anom':
            X = r.rand(n, d)
            X[r.rand(n) < 0.05] += 1.0
        self.X = X
        self.n, self.d, self.k = n, d, k
        self.w = r.choice([1.0, 1.0, 2.0, 0.5, 3.0], size=n)
        P = r.normal(size=(12, d))
        if e.nominal:
            P[:, 0] = r.randint(0, 3, size=12)
        if e.kind == 'anom':
            P = r.rand(12, d) * 1.5
        P[:4] = X[r.randint(0, n, 4)]
        self.probe = P


def start(case):
    """(entry, data, driver, fresh, r) of a case; fresh() builds the same new model every time."""
    e = BY_NAME[case['model']]
    r = np.random.RandomState(case['seed'] % (2 ** 32))
    cs, ms = int(r.randint(2 ** 31)), int(r.randint(2 ** 31))
    d = Data(e, r)
    dr = Driver(e, d, weights=bool(r.randint(2)))

    def fresh(seed=ms):
        with contextlib.redirect_stdout(io.StringIO()):
            return e.build(np.random.RandomState(cs), seed)
    return e, d, dr, fresh, r


class Driver:
    """Feeds a model through its public interface, row ranges at a time."""

    def __init__(self, e, data, weights=False):
        self.e, self.data, self.weights = e, data, weights and e.weights

    def train(self, m, a, b, X=None, y=None, w=None, classes=None, first=None):
        X = self.data.X[a:b].copy() if X is None else X
        y = self.data.y[a:b].copy() if y is None else y
        kw = {}
        if self.e.classes == 'always' or (self.e.classes == 'first' and (a == 0 if first is None else first)):
            kw['classes'] = (np.array(self.data.classes) if self.e.name.startswith('LearnPPNSE')
                             else list(self.data.classes)) if classes is None else classes
        if self.weights:
            kw['sample_weight'] = self.data.w[a:b].copy() if w is None else w
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            try:
                return m.partial_fit(X, y, **kw)
            except RuntimeError as x:
                if 'too weak' in str(x):       # documented refusal of LearnPP
                    raise Skip()
                raise

    def chunks(self, r, sizes=(1, 1, 2, 3, 7, 20)):
        """Row ranges of random lengths that cover the data; the first is long enough for the model."""
        out = []
        a = 0
        b = max(self.e.first, int(r.choice(sizes)))
        while a < self.data.n:
            out.append((a, min(b, self.data.n)))
            a, b = b, b + int(r.choice(sizes))
        return out


def out(m, X, e, probs=True):
    """Everything a caller can read for the rows X: predictions, and scores where offered."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = np.asarray(m.predict(X))
        q = None
        if probs and e.proba is not None:
            q = m.predict_proba(X)
    return p, q


def pad(q):
    """predict_proba output as a rectangular array."""
    rows = [np.ravel(np.asarray(v, dtype=float)) for v in q]
    w = max([len(v) for v in rows] + [1])
    o = np.zeros((len(rows), w))
    for i, v in enumerate(rows):
        o[i, :len(v)] = v
    return o


def same_out(a, b, tol=1e-9):
    """None when two outputs of out() agree, otherwise a description."""
    (p, q), (p2, q2) = a, b
    if p.shape != p2.shape:
        return 'predictions of shape %s instead of %s' % (p.shape, p2.shape)
    try:
        ok = np.allclose(p.astype(float), p2.astype(float), rtol=tol, atol=tol, equal_nan=True)
    except (TypeError, ValueError):
        ok = p.tolist() == p2.tolist()
    if not ok:
        return 'predictions %s instead of %s' % (p.tolist(), p2.tolist())
    if (q is None) != (q2 is None):
        return 'scores %r instead of %r' % (q, q2)
    if q is not None:
        x, x2 = pad(q), pad(q2)
        n = max(x.shape[1], x2.shape[1])
        x = np.pad(x, ((0, 0), (0, n - x.shape[1])))
        x2 = np.pad(x2, ((0, 0), (0, n - x2.shape[1])))
        if x.shape != x2.shape or not np.allclose(x, x2, rtol=tol, atol=tol, equal_nan=True):
            return 'scores %s instead of %s' % (x.tolist(), x2.tolist())
    return None


def cases(fams, tier, seed, quick, thorough, salt, skip=()):
    out_ = []
    i = 0
    for e in ENTRIES:
        if e.name in skip:
            continue
        for f in fams:
            if callable(f[1]) and not f[1](e):
                continue
            n = quick if tier == 'quick' else thorough
            n = max(2, n // e.cost)
            for j in range(n):
                out_.append({'fam': f[0], 'model': e.name, 'i': j, 'seed': (seed * 1000003 + salt * 7919 + i) % (2 ** 31),
                             'cost': e.cost})
                i += 1
    return out_
