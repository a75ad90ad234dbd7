"""C20: a composed learner answers exactly as its parts do."""
import inspect
import itertools
import pickle

import numpy as np

from sim import core
from sim.core import Violation

KINDS = ['MultiOutputLearner', 'ClassifierChain', 'ProbabilisticClassifierChain',
         'RegressorChain', 'Pipeline', 'BatchIncremental', 'LabelCombination',
         'MultiOutputRegressor', 'Pipeline']

BASES = {
    'clf': ['NB', 'HT', 'KNN', 'SGD', 'Perceptron'],
    'prob': ['NB'],                 # always has a probability for both values
    'reg': ['KNNRegressor', 'SGDRegressor', 'HTR'],
}


def base(name, seed):
    from sklearn.linear_model import SGDClassifier, SGDRegressor
    from sklearn.tree import DecisionTreeClassifier
    from skmultiflow import bayes, lazy, neural_networks, trees
    return {
        'NB': lambda: bayes.NaiveBayes(),
        'HT': lambda: trees.HoeffdingTreeClassifier(grace_period=10, split_confidence=0.3,
                                                    tie_threshold=0.3),
        'KNN': lambda: lazy.KNNClassifier(n_neighbors=3, max_window_size=40, leaf_size=5),
        'SGD': lambda: SGDClassifier(random_state=seed, max_iter=20, tol=1e-3),
        'Perceptron': lambda: neural_networks.PerceptronMask(random_state=seed),
        'KNNRegressor': lambda: lazy.KNNRegressor(n_neighbors=3, max_window_size=40),
        'SGDRegressor': lambda: SGDRegressor(random_state=seed, max_iter=20, tol=1e-3),
        'HTR': lambda: trees.HoeffdingTreeRegressor(
            grace_period=10, split_confidence=0.3, tie_threshold=0.3, leaf_prediction='mean',
            random_state=seed),
        'DT': lambda: DecisionTreeClassifier(random_state=seed, max_depth=4),
    }[name]()


TRANSFORMS = {
    'standard': lambda p: ('WindowedStandardScaler', dict(window_size=p['size'])),
    'missing': lambda p: ('MissingValuesCleaner', dict(strategy='mean', window_size=p['size'])),
    'onehot': lambda p: ('OneHotToCategorical', dict(categorical_list=[[0, 1, 2]])),
}


def transform(name, p):
    from skmultiflow import transform as T
    if name is None:
        return None
    if name == 'sklearn':
        from sklearn.preprocessing import StandardScaler
        return StandardScaler()
    cls, kw = TRANSFORMS[name](p)
    return getattr(T, cls)(**kw)


# ------------------------------------------------------------------ the composed learners
def build(plan):
    from skmultiflow import core as skcore
    from skmultiflow import meta, trees
    k, b = plan['kind'], plan['base']
    if k in ('MultiOutputLearner', 'MultiOutputRegressor'):
        return meta.MultiOutputLearner(base(b, plan['seed']))
    if k in ('ClassifierChain', 'ProbabilisticClassifierChain', 'RegressorChain'):
        return getattr(meta, k)(base(b, plan['seed']), order=plan['order'],
                                random_state=plan['seed'])
    if k == 'Pipeline':
        steps = [('t%d' % i, transform(t, plan)) for i, t in enumerate(plan['steps'])]
        return skcore.Pipeline(steps + [('learner', base(b, plan['seed']))])
    if k == 'BatchIncremental':
        return meta.BatchIncrementalClassifier(base(b, plan['seed']), window_size=plan['size'],
                                               n_estimators=plan['ne'])
    return trees.LabelCombinationHoeffdingTreeClassifier(
        n_labels=plan['width'], grace_period=10, split_confidence=0.3, tie_threshold=0.3,
        leaf_prediction=plan['lp'])


# ------------------------------------------------------------------ the same by hand
class Parts:
    """What the composition stands for, built from separate parts."""

    def __init__(self, plan):
        self.plan = plan
        self.parts = None

    def new(self):
        return base(self.plan['base'], self.plan['seed'])


class Independent(Parts):
    """One learner per target."""

    def fit(self, X, y, w, classes):
        first = self.parts is None
        if first:
            self.parts = [self.new() for _ in range(y.shape[1])]
        for j, p in enumerate(self.parts):
            train(p, first, X.copy(), y[:, j].copy(), w, classes)

    def predict(self, X):
        return [np.column_stack([p.predict(X.copy()) for p in self.parts])]

    def proba(self, X):
        return [np.column_stack([p.predict_proba(X.copy())[:, 1] for p in self.parts])]


def train(p, first, X, y, w=None, classes=None):
    f = p.fit if first else p.partial_fit
    kw = {}
    names = inspect.signature(f).parameters
    if 'classes' in names:
        kw['classes'] = classes
    if 'sample_weight' in names:
        kw['sample_weight'] = None if w is None else w.copy()
    f(X, y, **kw)


class Chain(Parts):
    """Learner j sees the targets before it in the chain; one candidate per possible order."""

    def fit(self, X, y, w, classes):
        first = self.parts is None
        if first:
            L = y.shape[1]
            orders = list(itertools.permutations(range(L))) if self.plan['order'] == 'random' \
                else [tuple(range(L))]
            self.parts = [(o, [self.new() for _ in range(L)]) for o in orders]
        for o, chain in self.parts:
            z = y[:, list(o)]
            for j, p in enumerate(chain):
                f = p.fit if first else p.partial_fit
                f(np.column_stack([X, z[:, :j]]).astype(float), z[:, j].copy())

    def all(self, fn):
        out = []
        for o, chain in self.parts:
            Y = fn(chain)
            Z = np.zeros_like(Y)
            Z[:, list(o)] = Y                     # back to the order of the targets
            out.append(Z)
        return out

    def keep(self, good):
        self.parts = [p for p, g in zip(self.parts, good) if g]

    def predict(self, X):
        return self.all(lambda chain: self.through(chain, X, lambda p, Z: p.predict(Z)))

    def proba(self, X):
        return self.all(lambda chain: self.through(chain, X,
                                                   lambda p, Z: p.predict_proba(Z)[:, 1]))

    @staticmethod
    def through(chain, X, fn):
        Y = np.zeros((len(X), len(chain)))
        for j, p in enumerate(chain):
            Y[:, j] = fn(p, np.column_stack([X, Y[:, :j]]).astype(float))
        return Y


class MostProbable(Chain):
    """The label combination with the greatest joint probability; close ones are all allowed."""

    def predict(self, X):
        return self.all(lambda chain: np.array([self.best(chain, x) for x in X]))

    @staticmethod
    def best(chain, x):
        top, arg = 0.0, np.zeros(len(chain))
        for ys in itertools.product((0, 1), repeat=len(chain)):
            w = 1.0
            for j, p in enumerate(chain):
                z = np.concatenate([x, ys[:j]]).reshape(1, -1).astype(float)
                w *= p.predict_proba(z)[0][ys[j]]
            if w > top * (1 + 1e-12):
                top, arg = w, np.array(ys, dtype=float)
        return arg


class Steps(Parts):
    def __init__(self, plan):
        super().__init__(plan)
        self.steps = [transform(t, plan) for t in plan['steps'] if t is not None]
        self.last = self.new()

    def fit(self, X, y, w, classes):
        for t in self.steps:
            if hasattr(t, 'partial_fit_transform'):
                X = t.partial_fit_transform(X, y)
            else:
                X = t.partial_fit(X, y).transform(X)
        self.parts = True
        if self.plan['base'] in BASES['reg']:
            self.last.partial_fit(X, y)
        else:
            self.last.partial_fit(X, y, classes=classes)

    def predict(self, X):
        for t in self.steps:
            X = t.transform(X)
        return [self.last.predict(X)]


class Batches(Parts):
    """One learner per full block of samples."""

    def __init__(self, plan):
        super().__init__(plan)
        self.rows, self.models = [], []

    def fit(self, X, y, w, classes):
        self.parts = True
        for i in range(len(X)):
            self.rows.append((X[i].copy(), int(y[i]), 1.0 if w is None else w[i]))
            if len(self.rows) == self.plan['size']:
                m = self.new()
                m.fit(np.array([r[0] for r in self.rows]), np.array([r[1] for r in self.rows]),
                      sample_weight=np.array([r[2] for r in self.rows]))
                self.models = (self.models + [m])[-self.plan['ne']:]
                self.rows = []

    def predict(self, X):
        if not self.models:
            return [np.zeros(len(X))]
        v = np.mean([m.predict(X) for m in self.models], axis=0)
        self.close = np.abs(v - 0.5) < 1e-9
        return [(v >= 0.5 - 1e-9) * 1.0, (v > 0.5 + 1e-9) * 1.0]


class Combination(Parts):
    """A Hoeffding tree whose classes are the label combinations read as binary numbers."""

    def fit(self, X, y, w, classes):
        from skmultiflow.trees import HoeffdingTreeClassifier
        if self.parts is None:
            self.parts = HoeffdingTreeClassifier(grace_period=10, split_confidence=0.3,
                                                 tie_threshold=0.3,
                                                 leaf_prediction=self.plan['lp'])
        code = y.dot(2 ** np.arange(y.shape[1])[::-1]).astype(int)
        self.parts.partial_fit(X.copy(), code, sample_weight=None if w is None else w.copy())

    def predict(self, X):
        c = self.parts.predict(X)
        return [(c[:, None] >> np.arange(self.plan['width'])[::-1]) & 1]


REFERENCE = {'MultiOutputLearner': Independent, 'MultiOutputRegressor': Independent,
             'ClassifierChain': Chain, 'RegressorChain': Chain,
             'ProbabilisticClassifierChain': MostProbable, 'Pipeline': Steps,
             'BatchIncremental': Batches, 'LabelCombination': Combination}


class C20(core.Prop):
    ID = 'C20'
    RULE = ('one run = one composed learner with a drawn history of training blocks, requests, '
            'resets and restores from a checkpoint; every answer is compared with the one '
            'obtained from separately built parts that are trained by hand; non-trivial: two or '
            'more training calls and an answer; distinct by learner, configuration and history')
    ASSUMPTIONS = ['the first training block holds both values of every label',
                   'the parts are deterministic learners with integer seeds']
    REAL = ['MultiOutputLearner, ClassifierChain, ProbabilisticClassifierChain, RegressorChain, '
            'Pipeline, BatchIncrementalClassifier, LabelCombinationHoeffdingTreeClassifier and '
            'their base learners and transforms']
    STUB = []
    QUICK_RUNS = 1200
    THOROUGH_RUNS = 40000
    SHRINK_LISTS = ('ops',)

    def gen(self, rng, tier, index):
        kind = KINDS[index % len(KINDS)]
        p = dict(kind=kind, nf=rng.choice([2, 3, 5]), width=rng.choice([1, 2, 3, 3]),
                 dseed=rng.randrange(10 ** 6), seed=rng.randrange(1000),
                 size=rng.choice([2, 5, 17, 30]), ne=rng.choice([1, 2, 5]),
                 order=rng.choice([None, 'random', 'random']),
                 lp=rng.choice(['mc', 'nb', 'nba']), classes=rng.random() < 0.7,
                 scribble=rng.random() < 0.4)
        if kind in ('RegressorChain', 'MultiOutputRegressor'):
            p['base'] = rng.choice(BASES['reg'])
        elif kind == 'ProbabilisticClassifierChain':
            p['base'] = rng.choice(BASES['prob'])
        elif kind == 'BatchIncremental':
            p['base'] = 'DT'
        elif kind == 'Pipeline':
            p['base'] = rng.choice(BASES['clf'] + ['KNNRegressor'])
            p['steps'] = rng.choice([['standard'], ['missing'], ['onehot'], [None],
                                     ['missing', 'standard'], ['missing', None, 'standard'],
                                     ['onehot', 'standard'], ['standard', 'standard'],
                                     ['sklearn'], ['missing', 'sklearn'], ['sklearn', 'standard']])
            p['nf'] = 5
        else:
            p['base'] = rng.choice(BASES['clf'])
        p['mask'] = bool(kind in ('MultiOutputLearner', 'BatchIncremental', 'LabelCombination')
                         and p['base'] not in ('KNN',) and rng.random() < 0.4)
        ops = []
        for _ in range(rng.choice([3, 8, 20])):
            r = rng.random()
            if r < 0.05:
                ops.append(['reset'])
            elif r < 0.12:
                ops.append(['restore'])
            elif r < 0.35:
                ops.append(['predict', rng.choice([1, 3, 8])])
            elif r < 0.45:
                ops.append(['proba', rng.choice([1, 3])])
            else:
                ops.append(['fit', rng.choice([1, 1, 5, 20, 40])])
        p['ops'] = ops + [['fit', rng.choice([1, 20])], ['predict', 8], ['proba', 4]]
        return p

    def data(self, plan, n, r):
        X = np.round(r.normal(size=(n, plan['nf'])), 3)
        steps = plan.get('steps') or []
        if 'onehot' in steps:
            X[:, :3] = 0
            X[np.arange(n), r.randint(0, 3, size=n)] = 1
        if 'missing' in steps:
            X[r.rand(*X.shape) < 0.15] = np.nan
        Z = np.nan_to_num(X)
        k = plan['width']
        y = np.column_stack([Z[:, j % plan['nf']] + 0.5 * Z[:, (j + 1) % plan['nf']] +
                             0.3 * r.normal(size=n) for j in range(k)])
        if plan['base'] in BASES['reg']:
            y = np.round(y, 3)
        else:
            y = (y > 0).astype(int)
        if plan['kind'] in ('Pipeline', 'BatchIncremental'):
            y = y[:, 0]
        return X, y

    def run(self, plan, ctx):
        core.seed_globals(plan['gseed'])
        kind = plan['kind']
        r = np.random.RandomState(plan['dseed'] % 2 ** 31)
        obj, ref = build(plan), REFERENCE[kind](plan)
        subject = '%s(%s)' % (kind, plan['base'])
        ctx.shape(kind, plan['base'], plan['order'], plan.get('steps'), plan['nf'],
                  plan['width'], plan['mask'])
        fits = 0
        fresh = True
        for n, op in enumerate(plan['ops']):
            ctx.shape(*op)
            if op[0] == 'restore':
                obj = pickle.loads(pickle.dumps(obj))
                ctx.fault('restore')
            elif op[0] == 'reset':
                if kind == 'Pipeline':
                    continue
                obj.reset()
                ref = REFERENCE[kind](plan)
                fresh = True
                ctx.fault('reset')
            elif op[0] == 'fit':
                X, y = self.data(plan, max(op[1], 12) if fresh else op[1], r)
                if fresh and plan['base'] not in BASES['reg']:
                    y[0], y[1] = 0, 1
                fresh = False
                w = r.randint(1, 4, size=len(X)).astype(float) if plan['mask'] else None
                classes = [0, 1] if plan['classes'] or plan['base'] in (
                    'SGD', 'Perceptron') else None
                ref.fit(X.copy(), y.copy(), w, classes)
                kw = {}
                if kind != 'RegressorChain':
                    kw['classes'] = classes
                if w is not None:
                    kw['sample_weight'] = w.copy()
                a, b = X.copy(), y.copy()
                obj.partial_fit(a, b, **kw)
                if plan['scribble']:
                    a[:] = 55
                    b[:] = 0
                    ctx.fault('buffer-reuse')
                fits += 1
            elif not fresh:
                self.ask(plan, ctx, obj, ref, r, n, op, subject)
        ctx.nontrivial = fits > 1

    def ask(self, plan, ctx, obj, ref, r, n, op, subject):
        kind = plan['kind']
        if op[0] == 'proba' and (not hasattr(ref, 'proba') or plan['base'] not in BASES['prob']):
            return
        X, _ = self.data(plan, op[1], r)
        want = ref.predict(X.copy()) if op[0] == 'predict' else ref.proba(X.copy())
        got = np.asarray(obj.predict(X.copy()) if op[0] == 'predict'
                         else obj.predict_proba(X.copy()), dtype=float)
        ctx.ev(op[0], n, got)
        good = [core.same(got, np.asarray(v, dtype=float), 1e-9, 1e-9) for v in want]
        if kind == 'BatchIncremental' and not any(good) and got.shape == want[0].shape:
            good = [bool(np.all((got == want[0]) | (got == want[-1])))]
        if not any(good):
            raise Violation('parts', '%s %s (operation %d) gave %s, its parts give %s' % (
                subject, op[0], n, core.short(got), core.short(np.asarray(want[0]))), subject)
        if isinstance(ref, Chain):
            ref.keep(good)


PROP = C20()
