"""Simulated users of the library's stateful components.

An actor is one component (learner, stream, detector, metric, transform, pipeline, buffer) with
the data its user feeds it.  Its specification is plain JSON, so a plan can carry it; an operation
is a short list such as ['fit', 7].  `do` executes one operation and returns its outcome in a
comparable form.  An exception of the component is an outcome as well.
"""
import numpy as np

from sim import core, registry

# learners whose first prediction needs a fit are simply not asked before (legal histories only)
NEEDS_FIT = {'PerceptronMask', 'RSLVQ', 'LearnPP', 'MultiOutputLearner', 'MultiOutputLearner_sk',
             'ClassifierChain', 'ProbClassifierChain', 'MCClassifierChain', 'RegressorChain',
             'MultiOutputRegressor', 'KNNRegressor', 'Pipeline'}
# first fit has to show every class / enough rows
PREFIT = 25

DETECTORS = ('ADWIN', 'DDM', 'EDDM', 'HDDM_A', 'HDDM_W', 'PageHinkley', 'KSWIN')
METRICS = ('clf', 'wclf', 'mlc', 'wmlc', 'reg', 'wreg', 'mtr', 'wmtr')
TRANSFORMS = ('MissingValuesCleaner', 'WindowedMinmaxScaler', 'WindowedStandardScaler',
              'OneHotToCategorical')

_CACHE = {}


def learner_table():
    if 'L' not in _CACHE:
        _CACHE['L'] = registry.learners()
    return _CACHE['L']


def stream_table():
    if 'S' not in _CACHE:
        _CACHE['S'] = registry.streams()
    return _CACHE['S']


# learners with many options get a larger share of the runs
RICH = {'VFDR': 4, 'HoeffdingTree': 2, 'HoeffdingTree_nominal': 1, 'HAT': 2, 'EFDT': 2, 'ARF': 2,
        'SRP': 2, 'LeveragingBagging': 2, 'SAMKNN': 2, 'KNN': 2, 'HTRegressor': 2,
        'HATRegressor': 2, 'ARFRegressor': 2, 'iSOUP': 2, 'SSTHT': 1, 'LearnNSE': 2}


def share(names):
    """Every name in turn, those with many options more often."""
    out = []
    for k in range(max(RICH.values())):
        out += [n for n in names if RICH.get(n, 1) > k]
    return out


def learner_cfg(rng, name=''):
    """Swarm-style configuration: every run draws its own knobs."""
    c = {}
    c['gp'] = rng.choice([5, 10, 20, 40])
    c['sc'] = rng.choice([0.01, 0.05, 0.3])
    c['tt'] = rng.choice([0.05, 0.3, 0.6])
    c['lp'] = rng.choice(['mc', 'nb', 'nba'])
    c['lpr'] = rng.choice(['mean', 'perceptron'])
    c['k'] = rng.choice([1, 3, 5])
    c['w'] = rng.choice([10, 25, 40])
    c['ls'] = rng.choice([2, 10, 30])
    c['msr'] = rng.choice([5, 20])
    c['wt'] = rng.choice(['distance', 'uniform'])
    c['ltm'] = rng.random() < 0.7
    c['gd'] = rng.choice(['vanilla', 'adadelta'])
    c['rp'] = rng.choice(['first_hit', 'weighted_max', 'weighted_sum'])
    c['det'] = rng.choice([None, 'ADWIN', 'DDM'])
    c['la'] = rng.choice(['leveraging_bag', 'leveraging_bag_me', 'leveraging_bag_half',
                          'leveraging_bag_wt', 'leveraging_subag'])
    c['code'] = rng.random() < 0.2
    c['tm'] = rng.choice(['randompatches', 'randomsubspaces', 'resampling'])
    c['pr'] = rng.choice([None, 'age', 'error'])
    c['agg'] = rng.choice(['median', 'mean'])
    c['wvs'] = rng.choice([None, 'mse', 'mae'])
    c['aep'] = rng.choice(['weakest', 'oldest'])
    c['ne'] = rng.choice([1, 2, 3])
    c['base'] = rng.choice(['NB', 'NB', 'HT', 'KNN', 'default', 'shared', 'shared'])
    c['crit'] = rng.choice(['info_gain', 'foil_gain', 'hellinger'] if name == 'VFDR' else
                           ['info_gain', 'gini', 'hellinger'] if name in
                           ('HoeffdingTree', 'HAT') else ['info_gain', 'gini'])
    c['bin'] = rng.random() < 0.3
    c['nbt'] = rng.choice([0, 0, 10])
    c['poor'] = rng.random() < 0.3
    c['npp'] = rng.random() < 0.3
    c['boot'] = rng.random() < 0.5
    c['ltms'] = rng.choice([0.2, 0.4])
    c['stm'] = rng.choice(['maxACCApprox', 'maxACC', None])
    c['ppc'] = rng.choice([1, 1, 2])
    c['ord'] = rng.random() < 0.35
    c['nbp'] = rng.random() < 0.4
    c['mr'] = rng.choice([2, 1000])
    c['pm'] = rng.choice(['acc', 'kappa'])
    c['dwv'] = rng.random() < 0.3
    c['mf'] = rng.choice(['auto', 'sqrt', 'log2', None, 2, 0.5])
    c['fd'] = rng.choice([0.001, 0.5])
    c['dbl'] = rng.random() < 0.3
    c['ss'] = rng.choice([60, 90])
    c['lrc'] = rng.random() < 0.5
    c['ddc'] = rng.choice(['mse', 'mae', 'predictions'])
    c['nom'] = learner_table()[name].nomok and rng.random() < 0.25 if name else False
    c['mem'] = [rng.choice([150, 300, 600]), rng.choice([1, 7, 20]), rng.random() < 0.4] \
        if rng.random() < 0.2 else None
    return c


def gen_learner(rng, names):
    name = rng.choice(names)
    l = learner_table()[name]
    return dict(t='learner', name=name, seed=rng.randrange(1, 10 ** 6), cfg=learner_cfg(rng, name),
                dseed=rng.randrange(10 ** 6), nf=rng.choice([2, 3, 5]),
                nc=2 if l.binary or l.kind == 'anom' else rng.choice([2, 3, 4]), n=240)


def gen_stream(rng, names):
    name = rng.choice(names)
    return dict(t='stream', name=name, conf=stream_table()[name].conf(rng))


def gen_detector(rng, names=DETECTORS):
    name = rng.choice(names)
    c = {}
    if name == 'ADWIN':
        c['delta'] = rng.choice([0.002, 0.3, 0.9])
    elif name == 'DDM':
        c = dict(min_num_instances=rng.choice([5, 30]), warning_level=rng.choice([1.0, 2.0]),
                 out_control_level=rng.choice([1.5, 3.0]))
    elif name == 'HDDM_A':
        c = dict(drift_confidence=rng.choice([0.001, 0.1]), two_side_option=rng.random() < 0.5)
    elif name == 'HDDM_W':
        c = dict(drift_confidence=rng.choice([0.001, 0.1]), two_side_option=rng.random() < 0.5,
                 lambda_option=rng.choice([0.05, 0.3]))
    elif name == 'PageHinkley':
        c = dict(min_instances=rng.choice([5, 30]), threshold=rng.choice([1, 5, 50]))
    elif name == 'KSWIN':
        c = dict(alpha=rng.choice([0.005, 0.3]), window_size=rng.choice([20, 40]), stat_size=8)
    return dict(t='detector', name=name, conf=c, dseed=rng.randrange(10 ** 6))


def gen_metric(rng):
    name = rng.choice(METRICS)
    return dict(t='metric', name=name, window=rng.choice([1, 3, 10, 50]),
                nc=rng.choice([2, 3, 5]), declare=rng.choice([2, 2, 4, 6]),
                weights=rng.random() < 0.4,
                dseed=rng.randrange(10 ** 6))


def gen_transform(rng):
    name = rng.choice(TRANSFORMS)
    return dict(t='transform', name=name, window=rng.choice([1, 3, 10]),
                strategy=rng.choice(['zero', 'mean', 'median', 'mode', 'custom']),
                dseed=rng.randrange(10 ** 6))


def gen_op(rng, spec, fit_only=False):
    t = spec['t']
    if t == 'learner':
        k = rng.choice([1, 1, 2, 3, 5, 8, 13, 30])
        if fit_only:
            return ['fit', k]
        r = rng.random()
        if r < 0.6:
            return ['fit', k]
        if r < 0.7:
            return ['fitw', k]
        l = learner_table()[spec['name']]
        if l.proba and rng.random() < 0.45:
            return ['proba', rng.choice([1, 3, 8])]
        return ['predict', rng.choice([1, 3, 8])]
    if t == 'stream':
        r = rng.random()
        if r < 0.75:
            return ['next', rng.choice([1, 1, 2, 5, 12, 30])]
        if r < 0.85:
            return ['restart']
        if r < 0.95 and stream_table()[spec['name']].drift:
            return ['drift']
        return ['last']
    if t == 'detector':
        return ['feed', rng.choice([1, 3, 10, 30])] if rng.random() < 0.93 else ['dreset']
    if t == 'metric':
        return ['add', rng.choice([1, 2, 7, 20])] if rng.random() < 0.7 else \
            (['get'] if rng.random() < 0.85 else ['mreset'])
    if t == 'transform':
        return ['pft', rng.choice([1, 3, 7])] if rng.random() < 0.7 else ['tr', rng.choice([1, 3])]
    raise ValueError(t)


def classes_of(kind, nc):
    if kind == 'clf':
        return list(range(nc))
    if kind in ('mlc', 'anom'):
        return [0, 1]
    return None


class Actor:
    """One component and the data its user will feed to it."""

    def __init__(self, spec):
        self.spec = spec
        self.i = 0                      # cursor in the training data
        self.q = 0                      # cursor in the query data
        self.fitted = False
        t = spec['t']
        if t == 'learner':
            l = self.l = learner_table()[spec['name']]
            self.obj = l.make(spec['seed'], spec['cfg'])
            self.load(spec['nf'], spec['nc'], spec['dseed'])
        elif t == 'stream':
            self.obj = stream_table()[spec['name']].make(spec['conf'])
        elif t == 'detector':
            from skmultiflow import drift_detection as dd
            self.obj = getattr(dd, spec['name'])(**spec['conf'])
            r = np.random.RandomState(spec['dseed'])
            if spec['name'] in ('ADWIN', 'PageHinkley', 'KSWIN') and r.rand() < 0.5:
                v = r.normal(0.5, 0.2, size=400)
                v[100:200] += 2
            else:
                v = (r.rand(400) < np.repeat(r.choice([0.05, 0.3, 0.8], 8), 50)).astype(int)
            self.v = v
        elif t == 'metric':
            from skmultiflow import metrics as M
            nm, w = spec['name'], spec['window']
            r = np.random.RandomState(spec['dseed'])
            n, nc = 300, spec['nc']
            nd = spec.get('declare', 2)
            mk = {'clf': lambda: M.ClassificationPerformanceEvaluator(n_classes=nd),
                  'wclf': lambda: M.WindowClassificationPerformanceEvaluator(
                      n_classes=nd, window_size=w),
                  'mlc': lambda: M.MultiLabelClassificationPerformanceEvaluator(n_labels=3),
                  'wmlc': lambda: M.WindowMultiLabelClassificationPerformanceEvaluator(
                      n_labels=3, window_size=w),
                  'reg': lambda: M.RegressionMeasurements(),
                  'wreg': lambda: M.WindowRegressionMeasurements(window_size=w),
                  'mtr': lambda: M.MultiTargetRegressionMeasurements(),
                  'wmtr': lambda: M.WindowMultiTargetRegressionMeasurements(window_size=w)}
            self.obj = mk[nm]()
            if nm in ('clf', 'wclf'):
                a, b = r.randint(0, nc, size=n), r.randint(0, nc, size=n)
                b = np.where(r.rand(n) < 0.5, a, b)
            elif nm in ('mlc', 'wmlc'):
                a, b = r.randint(0, 2, size=(n, 3)), r.randint(0, 2, size=(n, 3))
            elif nm in ('reg', 'wreg'):
                a, b = r.normal(size=n), r.normal(size=n)
            else:
                a, b = r.normal(size=(n, 2)), r.normal(size=(n, 2))
            self.a, self.b = a, b
            self.w = r.randint(1, 4, size=n).astype(float)
        elif t == 'transform':
            from skmultiflow import transform as T
            r = np.random.RandomState(spec['dseed'])
            X = np.round(r.normal(size=(200, 3)), 2)
            if spec['name'] == 'MissingValuesCleaner':
                X[r.rand(*X.shape) < 0.2] = np.nan
                X[0] = [0.5, 1.5, 2.5]
                self.obj = T.MissingValuesCleaner(strategy=spec['strategy'],
                                                  window_size=max(3, spec['window']))
            elif spec['name'] == 'OneHotToCategorical':
                X = np.zeros((200, 4))
                X[:, 0] = r.randint(0, 9, size=200)
                X[np.arange(200), 1 + r.randint(0, 3, size=200)] = 1
                self.obj = T.OneHotToCategorical([[1, 2, 3]])
            else:
                self.obj = getattr(T, spec['name'])(window_size=max(3, spec['window']))
            self.X = X
        else:
            raise core.HarnessError('actor type %s' % t)

    def load(self, nf, nc, dseed):
        l, spec = self.l, self.spec
        nominal = l.nominal or spec['cfg'].get('nom')
        self.X, self.y = registry.dataset(l.kind, spec['n'], nf, nc, dseed, nominal)
        self.Q, _ = registry.dataset(l.kind, 64, nf, nc, dseed + 1, nominal)
        self.w = np.random.RandomState(dseed).randint(1, 4, size=spec['n']).astype(float)
        self.classes = classes_of(l.kind, nc)

    # ------------------------------------------------------------------
    def take(self, k, n, cur='i'):
        i = getattr(self, cur)
        idx = np.arange(i, i + k) % n
        setattr(self, cur, (i + k) % n)
        return idx

    def do(self, op):
        """Outcome of one operation: list of arrays, or ['exc', type]."""
        try:
            return self._do(op)
        except (core.Violation, core.HarnessError, core.CpuLimit):
            raise
        except Exception as e:
            return ['exc', type(e).__name__, str(e)[:200]]

    def fit(self, X, y, w=None):
        kw = {}
        if self.classes is not None:
            kw['classes'] = list(self.classes)
        if w is not None:
            kw['sample_weight'] = w
        self.obj.partial_fit(X, y, **kw)

    def fit_next(self, k, weighted=False):
        if not self.fitted and self.spec['name'] in NEEDS_FIT:
            k = max(k, PREFIT)
        self.fitted = True
        idx = self.take(k, len(self.X))
        self.fit(self.X[idx].copy(), self.y[idx].copy(), self.w[idx].copy() if weighted else None)

    def ready(self):
        return self.fitted or self.spec['name'] not in NEEDS_FIT

    def _do(self, op):
        t, o = self.spec['t'], self.obj
        k = op[0]
        if t == 'learner':
            if k in ('fit', 'fitw'):
                self.fit_next(op[1], k == 'fitw' and self.spec['name'] not in NO_WEIGHTS)
                return []
            if k == 'reset':
                r = o.reset()
                if r is not None:
                    self.obj = r
                self.fitted = False
                return []
            if not self.ready():
                return []
            idx = self.take(op[1], len(self.Q), 'q')
            X = self.Q[idx].copy()
            if k == 'predict':
                return [np.array(o.predict(X))]
            return [norm_proba(o.predict_proba(X))]
        if t == 'stream':
            if k == 'next':
                s = stream_table()[self.spec['name']]
                if s.finite and o.n_remaining_samples() < op[1]:
                    o.restart()
                X, y = o.next_sample(op[1])
                return [np.array(X), np.array(y)]
            if k == 'restart':
                o.restart()
                return []
            if k == 'drift':
                o.generate_drift()
                return []
            a, b = o.last_sample()
            return [] if a is None else [np.array(a), np.array(b)]
        if t == 'detector':
            if k == 'dreset':
                o.reset()
                return []
            out = []
            for j in self.take(op[1], len(self.v)):
                if self.spec['name'] == 'KSWIN':
                    np.random.seed(1000 + self.q)        # it draws from the global generator
                    self.q += 1
                o.add_element(self.v[j])
                out.append([float(bool(o.detected_change())),
                            float(bool(o.detected_warning_zone()))
                            if hasattr(o, 'detected_warning_zone') else 0.0])
                if out[-1][0] and self.spec['name'] not in ('ADWIN', 'KSWIN'):
                    o.reset()
            if self.spec['name'] == 'ADWIN':
                out.append([float(o.width), float(o.total)])
            return [np.array(out)]
        if t == 'metric':
            nm = self.spec['name']
            if k == 'mreset':
                o.reset()
                return []
            if k == 'add':
                for j in self.take(op[1], len(self.a)):
                    if self.spec['weights'] and nm in ('clf', 'wclf', 'mlc', 'wmlc'):
                        o.add_result(self.a[j], self.b[j], self.w[j])
                    else:
                        o.add_result(self.a[j], self.b[j])
                self.fitted = True
                return []
            return [metric_values(nm, o)]
        if t == 'transform':
            idx = self.take(op[1], len(self.X))
            X = self.X[idx].copy()
            if k == 'pft':
                return [np.array(o.partial_fit_transform(X))]
            return [np.array(o.transform(X))]
        raise core.HarnessError('operation %s of %s' % (op, t))


# partial_fit without sample_weight parameter (or with one that changes its contract)
NO_WEIGHTS = {'KNNADWIN', 'SAMKNN', 'LearnPP', 'LearnNSE', 'HalfSpaceTrees',
              'AWE', 'RSLVQ', 'MultiOutputLearner', 'MultiOutputLearner_sk', 'ClassifierChain',
              'ProbClassifierChain', 'MCClassifierChain', 'RegressorChain',
              'MultiOutputRegressor', 'KNN', 'KNNRegressor'}

GETTERS = {
    'clf': ('accuracy_score', 'kappa_score', 'kappa_t_score', 'kappa_m_score', 'precision_score',
            'recall_score', 'f1_score', 'geometric_mean_score', 'majority_class'),
    'mlc': ('hamming_score', 'hamming_loss_score', 'exact_match_score', 'jaccard_score'),
    'reg': ('get_mean_square_error', 'get_average_error'),
    'mtr': ('get_average_mean_square_error', 'get_average_absolute_error',
            'get_average_root_mean_square_error'),
}


def metric_values(nm, o):
    fam = nm[1:] if nm[0] == 'w' else nm
    out = []
    for g in GETTERS[fam]:
        v = getattr(o, g)()
        out.append(float(v))
    return np.array(out)


def norm_proba(p):
    try:
        return np.array(p, dtype=float)
    except (ValueError, TypeError):
        rows = [np.ravel(np.asarray(r, dtype=float)) for r in p]
        w = max([len(r) for r in rows] or [0])
        return np.array([np.concatenate([r, np.full(w - len(r), np.nan)]) for r in rows])


def same_outcome(a, b, rtol=0.0, atol=0.0):
    if len(a) != len(b):
        return False
    if a and isinstance(a[0], str) or b and isinstance(b[0], str):
        return bool(a and b) and isinstance(a[0], str) and isinstance(b[0], str) \
            and a[0] == b[0] and a[1] == b[1]
    return all(core.same(x, y, rtol, atol) for x, y in zip(a, b))


def record(ctx, who, op, out):
    ctx.ev('op', who, op, *[o if isinstance(o, np.ndarray) else str(o) for o in out])
    ctx.shape(who, op[0])


def show(out):
    return ', '.join(core.short(o, 160) for o in out) or '(nothing)'
