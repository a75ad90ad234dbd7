"""Registry of the real components the simulator drives.

Every entry builds a fresh, fully seeded instance from a small configuration
drawn by the simulator.  Nothing here knows how the code is written: only the
public constructors are used.
"""
import numpy as np


# --------------------------------------------------------------------------
# learners
# --------------------------------------------------------------------------
# kind: 'clf' | 'reg' | 'mlc' (multi label) | 'mtr' (multi target regression)
#       | 'anom'
class L:
    def __init__(self, name, kind, make, proba=True, cls_first=True, n_classes=3, weight=1.0,
                 min_batch=1, binary=False, nfeat=(3, 6), cost=1.0, nominal=False,
                 nomok=False):
        self.name = name
        self.kind = kind
        self.make = make
        self.proba = proba
        self.binary = binary
        self.cost = cost
        self.nfeat = nfeat
        self.nominal = nominal
        self.nomok = nomok          # takes nominal attributes when the configuration says so


class Sizes:
    """The simulated allocator: what the trees are told about the size of things.

    Real sizes depend on the history of the interpreter; simulated ones only on the tree."""
    ACTIVE, INACTIVE = 100, 20

    def node(self, obj):
        from skmultiflow.trees._nodes import ActiveLeaf
        return self.ACTIVE if isinstance(obj, ActiveLeaf) else self.INACTIVE

    def tree(self, obj):
        m = obj.model_measurements
        act = m['Active learning nodes']
        inact = m['Tree size (leaves)'] - act
        return act * self.ACTIVE + inact * self.INACTIVE


SIZES = [Sizes()]


def memory_seam():
    """Puts the simulated allocator between the trees and the interpreter."""
    import sys
    from skmultiflow import trees
    from skmultiflow.utils import utils
    from skmultiflow.trees._nodes import ActiveLeaf, InactiveLeaf
    if getattr(utils, '_simulated_sizes', False):
        return
    real = utils.calculate_object_size

    def size(obj, unit='byte'):
        if unit == 'byte' and isinstance(obj, (ActiveLeaf, InactiveLeaf)):
            return SIZES[0].node(obj)
        if unit == 'byte' and hasattr(obj, 'model_measurements') and \
                hasattr(obj, 'max_byte_size') and type(obj).__module__.startswith(trees.__name__):
            return SIZES[0].tree(obj)
        return real(obj, unit)

    utils._simulated_sizes = True
    for name, mod in list(sys.modules.items()):
        if name.split('.')[:2] in (['skmultiflow', 'trees'], ['skmultiflow', 'utils']) and \
                getattr(mod, 'calculate_object_size', None) is real:
            mod.calculate_object_size = size


def limited(make):
    """The learner with the memory limit of its configuration."""
    def built(s, c):
        o = make(s, c)
        if c.get('mem') and hasattr(o, 'max_byte_size'):
            for k, v in zip(('max_byte_size', 'memory_estimate_period', 'stop_mem_management'),
                            c['mem']):
                setattr(o, k, v)
        return o
    return built


SHARED = {}         # objects passed to several components of one simulated program


def learners():
    from skmultiflow import trees, meta, lazy, bayes, rules, prototype, neural_networks
    from skmultiflow import anomaly_detection, drift_detection as dd
    from sklearn.linear_model import SGDClassifier, SGDRegressor
    from sklearn.tree import DecisionTreeClassifier

    memory_seam()
    NB = bayes.NaiveBayes
    KNN = lazy.KNNClassifier
    HT = trees.HoeffdingTreeClassifier
    out = {}

    def add(name, kind, make, **kw):
        out[name] = L(name, kind, limited(make), **kw)

    def base(c):
        """Base estimator of an ensemble; 'shared': several ensembles get the same object."""
        b = c.get('base', 'NB')
        if b == 'shared':
            if 'base' not in SHARED:
                SHARED['base'] = NB()
            return SHARED['base']
        if b == 'HT':
            return HT(grace_period=10, split_confidence=0.3, tie_threshold=0.3)
        if b == 'KNN':
            return KNN(n_neighbors=3, max_window_size=30, leaf_size=10)
        return NB()

    def defbase(c):
        """Keyword arguments: the default base estimator of the class when base is 'default'."""
        return {} if c.get('base') == 'default' else {'base_estimator': base(c)}

    def nom(c):
        return [0, 1] if c.get('nom') else None

    def ht_kw(c, poor=True):
        d = dict(grace_period=c.get('gp', 20), split_confidence=c.get('sc', 0.05),
                 tie_threshold=c.get('tt', 0.3), leaf_prediction=c.get('lp', 'nba'),
                 split_criterion=c.get('crit', 'info_gain'), binary_split=c.get('bin', False),
                 nb_threshold=c.get('nbt', 0), nominal_attributes=nom(c))
        if poor:
            d.update(remove_poor_atts=c.get('poor', False), no_preprune=c.get('npp', False))
        return d

    add('NaiveBayes', 'clf', lambda s, c: NB(nominal_attributes=nom(c)), nomok=True)
    add('PerceptronMask', 'clf',
        lambda s, c: neural_networks.PerceptronMask(random_state=s))
    add('HoeffdingTree', 'clf', lambda s, c: HT(**ht_kw(c)), nomok=True)
    add('HoeffdingTree_nominal', 'clf',
        lambda s, c: HT(**dict(ht_kw(c), nominal_attributes=[0, 1])), nominal=True)
    add('HAT', 'clf', lambda s, c: trees.HoeffdingAdaptiveTreeClassifier(
        random_state=s, bootstrap_sampling=c.get('boot', True), **ht_kw(c)), nomok=True)
    add('EFDT', 'clf', lambda s, c: trees.ExtremelyFastDecisionTreeClassifier(
        min_samples_reevaluate=c.get('msr', 20), **ht_kw(c, False)), nomok=True)
    add('KNN', 'clf', lambda s, c: KNN(n_neighbors=c.get('k', 3), max_window_size=c.get('w', 40),
                                       leaf_size=c.get('ls', 10)))
    add('KNNADWIN', 'clf', lambda s, c: lazy.KNNADWINClassifier(
        n_neighbors=c.get('k', 3), max_window_size=c.get('w', 40), leaf_size=c.get('ls', 10)))
    add('SAMKNN', 'clf', lambda s, c: lazy.SAMKNNClassifier(
        n_neighbors=c.get('k', 3), max_window_size=c.get('w', 40) + 40, min_stm_size=10,
        ltm_size=c.get('ltms', 0.4), stm_size_option=c.get('stm', 'maxACCApprox'),
        weighting=c.get('wt', 'distance'), use_ltm=c.get('ltm', True)), proba=False)
    add('RSLVQ', 'clf', lambda s, c: prototype.RobustSoftLearningVectorQuantization(
        random_state=s, gradient_descent=c.get('gd', 'vanilla'),
        prototypes_per_class=c.get('ppc', 1)), proba=False)
    add('VFDR', 'clf', lambda s, c: rules.VeryFastDecisionRulesClassifier(
        grace_period=c.get('gp', 20), expand_confidence=0.05, tie_threshold=0.3,
        rule_prediction=c.get('rp', 'first_hit'), ordered_rules=c.get('ord', True),
        nominal_attributes=nom(c), expand_criterion=c.get('crit', 'info_gain'),
        remove_poor_atts=c.get('poor', False), nb_prediction=c.get('nbp', True),
        max_rules=c.get('mr', 1000), nb_threshold=c.get('nbt', 0),
        drift_detector=c.get('det') and getattr(dd, c['det'])() or None), nomok=True)
    add('OzaBagging', 'clf', lambda s, c: meta.OzaBaggingClassifier(
        n_estimators=c.get('ne', 3), **defbase(c), random_state=s))
    add('OzaBaggingADWIN', 'clf', lambda s, c: meta.OzaBaggingADWINClassifier(
        n_estimators=c.get('ne', 3), **defbase(c), random_state=s))
    add('LeveragingBagging', 'clf', lambda s, c: meta.LeveragingBaggingClassifier(
        n_estimators=c.get('ne', 3), **defbase(c), random_state=s,
        leverage_algorithm=c.get('la', 'leveraging_bag'),
        enable_code_matrix=c.get('code', False)))
    def forest_det(c, delta):
        fd = c.get('fd', 0.01)
        return None if fd == 0.5 and c.get('dbl') else dd.ADWIN(min(0.99, delta * 1000 * fd))
    add('ARF', 'clf', lambda s, c: meta.AdaptiveRandomForestClassifier(
        n_estimators=3, grace_period=20, split_confidence=0.05, tie_threshold=0.3,
        leaf_prediction=c.get('lp', 'nba'), performance_metric=c.get('pm', 'acc'),
        disable_weighted_vote=c.get('dwv', False), max_features=c.get('mf', 'auto'),
        drift_detection_method=forest_det(c, 0.001), nominal_attributes=nom(c),
        warning_detection_method=forest_det(c, 0.01),
        random_state=s, lambda_value=3), cost=3, nomok=True)
    add('SRP', 'clf', lambda s, c: meta.StreamingRandomPatchesClassifier(
        base_estimator=HT(**ht_kw(dict(c, nom=False))), n_estimators=3, random_state=s, lam=3.0,
        disable_weighted_vote=c.get('dwv', False), disable_background_learner=c.get('dbl', False),
        subspace_size=c.get('ss', 60), drift_detection_method=dd.ADWIN(c.get('fd', 1e-5)),
        warning_detection_method=dd.ADWIN(c.get('fd', 1e-5) * 1.1),
        training_method=c.get('tm', 'randompatches')), cost=3)
    add('AWE', 'clf', lambda s, c: meta.AccuracyWeightedEnsembleClassifier(
        n_estimators=3, n_kept_estimators=5, window_size=20, n_splits=3, **defbase(c)), proba=False)
    add('AdditiveExpert', 'clf', lambda s, c: meta.AdditiveExpertEnsembleClassifier(
        n_estimators=3, pruning=c.get('aep', 'weakest'), **defbase(c)), proba=False)
    add('DWM', 'clf', lambda s, c: meta.DynamicWeightedMajorityClassifier(
        n_estimators=3, period=10, **defbase(c)), proba=False)
    add('LearnPP', 'clf', lambda s, c: meta.LearnPPClassifier(
        base_estimator=DecisionTreeClassifier(random_state=s), n_estimators=3, n_ensembles=3,
        error_threshold=0.9, window_size=20, random_state=s))
    add('LearnNSE', 'clf', lambda s, c: meta.LearnPPNSEClassifier(
        base_estimator=DecisionTreeClassifier(random_state=s), n_estimators=3, window_size=20,
        pruning=c.get('pr')))
    add('BatchIncremental', 'clf', lambda s, c: meta.BatchIncrementalClassifier(
        base_estimator=DecisionTreeClassifier(random_state=s), window_size=20, n_estimators=3))
    for nm in ('OnlineBoosting', 'OnlineAdaC2', 'OnlineCSB2', 'OnlineRUSBoost',
               'OnlineSMOTEBagging', 'OnlineUnderOverBagging'):
        cls = getattr(meta, nm + 'Classifier')
        add(nm, 'clf', (lambda cls: lambda s, c: cls(
            n_estimators=c.get('ne', 3), random_state=s, **defbase(c)))(cls), binary=True)
    # multi label
    add('MultiOutputLearner', 'mlc', lambda s, c: meta.MultiOutputLearner(
        base_estimator=NB()))
    add('MultiOutputLearner_sk', 'mlc', lambda s, c: meta.MultiOutputLearner(
        base_estimator=SGDClassifier(random_state=s, loss='log', max_iter=10)))
    add('ClassifierChain', 'mlc', lambda s, c: meta.ClassifierChain(
        base_estimator=SGDClassifier(random_state=s, loss='log', max_iter=10), random_state=s))
    add('ProbClassifierChain', 'mlc', lambda s, c: meta.ProbabilisticClassifierChain(
        base_estimator=SGDClassifier(random_state=s, loss='log', max_iter=10), random_state=s))
    add('MCClassifierChain', 'mlc', lambda s, c: meta.MonteCarloClassifierChain(
        base_estimator=SGDClassifier(random_state=s, loss='log', max_iter=10), M=3,
        random_state=s))
    add('LCHT', 'mlc', lambda s, c: trees.LabelCombinationHoeffdingTreeClassifier(
        n_labels=2, **ht_kw(c)), nomok=True)
    # regression
    def htr_kw(c):
        return dict(grace_period=c.get('gp', 20), split_confidence=c.get('sc', 0.05),
                    tie_threshold=c.get('tt', 0.3), binary_split=c.get('bin', False),
                    remove_poor_atts=c.get('poor', False), no_preprune=c.get('npp', False),
                    nominal_attributes=nom(c), learning_ratio_const=c.get('lrc', True),
                    leaf_prediction=c.get('lpr', 'perceptron'))
    add('KNNRegressor', 'reg', lambda s, c: lazy.KNNRegressor(
        n_neighbors=c.get('k', 3), max_window_size=c.get('w', 40), leaf_size=c.get('ls', 10)),
        proba=False)
    add('HTRegressor', 'reg', lambda s, c: trees.HoeffdingTreeRegressor(
        random_state=s, **htr_kw(c)), proba=False, nomok=True)
    add('HATRegressor', 'reg', lambda s, c: trees.HoeffdingAdaptiveTreeRegressor(
        random_state=s, **htr_kw(c)), proba=False, nomok=True)
    add('ARFRegressor', 'reg', lambda s, c: meta.AdaptiveRandomForestRegressor(
        n_estimators=3, grace_period=20, split_confidence=0.05, tie_threshold=0.3,
        drift_detection_method=forest_det(c, 0.001), drift_detection_criteria=c.get('ddc', 'mse'),
        warning_detection_method=forest_det(c, 0.01), leaf_prediction=c.get('lpr', 'perceptron'),
        random_state=s, lambda_value=3, aggregation_method=c.get('agg', 'median'),
        weighted_vote_strategy=c.get('wvs')), proba=False, cost=3)
    # multi target regression
    def mtr_kw(c):
        d = htr_kw(c)
        return d
    add('iSOUP', 'mtr', lambda s, c: trees.iSOUPTreeRegressor(random_state=s, **mtr_kw(c)),
        proba=False, nomok=True)
    add('SSTHT', 'mtr', lambda s, c: trees.StackedSingleTargetHoeffdingTreeRegressor(
        random_state=s, **dict(mtr_kw(c), leaf_prediction='perceptron')), proba=False,
        nomok=True)
    add('RegressorChain', 'mtr', lambda s, c: meta.RegressorChain(
        base_estimator=SGDRegressor(random_state=s, max_iter=10), random_state=s), proba=False)
    add('MultiOutputRegressor', 'mtr', lambda s, c: meta.MultiOutputLearner(
        base_estimator=SGDRegressor(random_state=s, max_iter=10)), proba=False)
    # anomaly
    add('HalfSpaceTrees', 'anom', lambda s, c: anomaly_detection.HalfSpaceTrees(
        n_estimators=3, window_size=15, depth=4, size_limit=2, anomaly_threshold=0.5,
        random_state=s))
    return out


def dataset(kind, n, nfeat, n_classes, seed, nominal=False):
    """Labelled data for a learner of `kind`: concept with a drift in the middle."""
    rng = np.random.RandomState(seed)
    X = np.round(rng.uniform(0, 1, size=(n, nfeat)), 4)
    if nominal:
        X[:, 0] = rng.randint(0, 3, size=n)
        X[:, 1] = rng.randint(0, 4, size=n)
    flip = np.arange(n) >= n // 2
    s = np.where(flip, X[:, -1] + 0.3 * X[:, 0], X[:, 0] + 0.5 * X[:, -1])
    s = s / (s.max() + 1e-9)
    if kind in ('clf', 'anom'):
        y = np.minimum((s * n_classes).astype(int), n_classes - 1)
        noise = rng.uniform(size=n) < 0.1
        y = np.where(noise, rng.randint(0, n_classes, size=n), y)
        if kind == 'anom':
            y = (y > 0).astype(int)
    elif kind == 'mlc':
        y = np.stack([(X[:, 0] > 0.5), (X[:, -1] + X[:, 0] > 1.0)], axis=1).astype(int)
        y[rng.uniform(size=y.shape) < 0.05] ^= 1
    elif kind == 'reg':
        y = s * 3 + rng.normal(0, 0.1, size=n)
    elif kind == 'mtr':
        y = np.stack([s * 3, X[:, 0] - X[:, -1]], axis=1) + rng.normal(0, 0.1, size=(n, 2))
    return X, y


# --------------------------------------------------------------------------
# streams
# --------------------------------------------------------------------------
class S:
    def __init__(self, name, make, drift=False, finite=False, kind='clf'):
        self.name, self.make, self.drift, self.finite, self.kind = name, make, drift, finite, kind


def streams():
    """Generators.  make(rng) -> configuration; build(conf) -> fresh seeded instance."""
    from skmultiflow import data as D
    out = {}

    def add(name, conf, build, **kw):
        s = S(name, build, **kw)
        s.conf = conf
        out[name] = s

    def sd(r):
        return r.randrange(1, 10 ** 6)

    add('AGRAWAL', lambda r: dict(classification_function=r.randrange(10), random_state=sd(r),
                                  balance_classes=r.random() < 0.4,
                                  perturbation=r.choice([0.0, 0.28])),
        lambda c: D.AGRAWALGenerator(**c), drift=True)
    add('Hyperplane', lambda r: dict(random_state=sd(r), n_features=r.choice([3, 10]),
                                     n_drift_features=r.choice([0, 2, 3]),
                                     mag_change=r.choice([0.0, 0.1, 0.5]),
                                     noise_percentage=r.choice([0.0, 0.1, 0.3]),
                                     sigma_percentage=r.choice([0.1, 0.4])),
        lambda c: D.HyperplaneGenerator(**c))
    add('LED', lambda r: dict(random_state=sd(r), noise_percentage=r.choice([0.0, 0.28]),
                              has_noise=r.random() < 0.5),
        lambda c: D.LEDGenerator(**c))
    add('LEDDrift', lambda r: dict(random_state=sd(r), noise_percentage=r.choice([0.0, 0.28]),
                                   has_noise=r.random() < 0.7,
                                   n_drift_features=r.choice([0, 3, 7])),
        lambda c: D.LEDGeneratorDrift(**c))
    add('MIXED', lambda r: dict(classification_function=r.randrange(2), random_state=sd(r),
                                balance_classes=r.random() < 0.5),
        lambda c: D.MIXEDGenerator(**c), drift=True)
    add('RandomRBF', lambda r: dict(model_random_state=sd(r), sample_random_state=sd(r),
                                    n_classes=r.choice([2, 4]), n_features=r.choice([2, 6]),
                                    n_centroids=r.choice([5, 20])),
        lambda c: D.RandomRBFGenerator(**c))
    add('RandomRBFDrift', lambda r: dict(model_random_state=sd(r), sample_random_state=sd(r),
                                         n_classes=r.choice([2, 4]), n_features=r.choice([2, 6]),
                                         n_centroids=20, change_speed=r.choice([0.0, 0.5, 0.87]),
                                         num_drift_centroids=r.choice([5, 20])),
        lambda c: D.RandomRBFGeneratorDrift(**c))
    add('RandomTree', lambda r: dict(tree_random_state=sd(r), sample_random_state=sd(r),
                                     n_classes=r.choice([2, 3]), n_cat_features=r.choice([1, 3]),
                                     n_num_features=r.choice([2, 4]),
                                     n_categories_per_cat_feature=3, max_tree_depth=4,
                                     min_leaf_depth=2),
        lambda c: D.RandomTreeGenerator(**c))
    add('SEA', lambda r: dict(classification_function=r.randrange(4), random_state=sd(r),
                              balance_classes=r.random() < 0.4,
                              noise_percentage=r.choice([0.0, 0.28])),
        lambda c: D.SEAGenerator(**c), drift=True)
    add('Sine', lambda r: dict(classification_function=r.randrange(4), random_state=sd(r),
                               balance_classes=r.random() < 0.5, has_noise=r.random() < 0.5),
        lambda c: D.SineGenerator(**c), drift=True)
    add('STAGGER', lambda r: dict(classification_function=r.randrange(3), random_state=sd(r),
                                  balance_classes=r.random() < 0.5),
        lambda c: D.STAGGERGenerator(**c), drift=True)
    add('Waveform', lambda r: dict(random_state=sd(r), has_noise=r.random() < 0.5),
        lambda c: D.WaveformGenerator(**c))
    add('Multilabel', lambda r: dict(n_samples=r.choice([60, 200]), n_features=6, n_targets=3,
                                     n_labels=2, random_state=sd(r)),
        lambda c: D.MultilabelGenerator(**c), finite=True, kind='mlc')
    add('Regression', lambda r: dict(n_samples=r.choice([60, 200]), n_features=6, n_informative=3,
                                     n_targets=r.choice([1, 2]), random_state=sd(r)),
        lambda c: D.RegressionGenerator(**c), finite=True, kind='reg')
    add('AnomalySine', lambda r: dict(n_samples=r.choice([60, 200]), n_anomalies=20,
                                      contextual=r.random() < 0.5, n_contextual=15,
                                      random_state=sd(r), replace=r.random() < 0.5,
                                      shift=4, noise=0.5),
        lambda c: D.AnomalySineGenerator(**c), finite=True)

    base = dict(out)

    def drift_conf(r):
        a = r.choice(['SEA', 'Sine', 'STAGGER', 'AGRAWAL', 'MIXED', 'RandomRBF', 'Hyperplane'])
        ca, cb = base[a].conf(r), base[a].conf(r)
        for k in ('n_features', 'n_classes', 'has_noise'):
            if k in ca:
                cb[k] = ca[k]
        return dict(a=a, ca=ca, cb=cb, position=r.choice([0, 10, 40]), width=r.choice([1, 10, 40]),
                    random_state=sd(r), alpha=r.choice([0.0, 0.0, 45.0, 89.0]))

    def drift_build(c):
        return D.ConceptDriftStream(stream=base[c['a']].make(c['ca']),
                                    drift_stream=base[c['a']].make(c['cb']),
                                    position=c['position'], width=c['width'],
                                    random_state=c['random_state'], alpha=c['alpha'])
    add('ConceptDrift', drift_conf, drift_build)
    return out
