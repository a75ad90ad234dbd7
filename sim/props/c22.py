"""C22: an ensemble trains its members as documented and answers with their weighted vote.

The members are simulated: a Member is a deterministic function of what it was taught and of the
row it is asked about, and it writes down every call.  The schedule of training calls, concept
changes, restarts and restores is drawn by the seed; the reference ensembles below are written from
the documentation and the papers it cites, and use members of their own.
"""
import copy
import pickle
from fractions import Fraction

import numpy as np

from skmultiflow.core import BaseSKMObject, ClassifierMixin
from skmultiflow.drift_detection import ADWIN

from sim import core
from sim.core import Violation

KINDS = ['DWM', 'AddExp', 'LearnNSE', 'AWE', 'OzaBagging', 'OzaBaggingADWIN', 'LeveragingBagging',
         'OnlineBoosting', 'AdaC2', 'CSB2', 'RUSBoost', 'SMOTEBagging', 'UnderOverBagging',
         'LearnPP']
BINARY = ('AdaC2', 'CSB2', 'RUSBoost', 'SMOTEBagging', 'UnderOverBagging')
DETECT = ('OnlineBoosting', 'AdaC2', 'SMOTEBagging', 'UnderOverBagging')
LOG = []
SERIAL = [0]


def _hash(*parts):
    return core.mix(*parts)


# ------------------------------------------------------------------ the simulated member
class Member(BaseSKMObject, ClassifierMixin):
    """A learner whose answers tell what it was taught and in which order."""

    def __init__(self, nc=2, narrow=False, skills=(0.3, 0.6, 0.9), seed=0):
        self.nc = nc
        self.narrow = narrow
        self.skills = skills
        self.seed = seed
        self.serial = 0
        self.wipe()

    def wipe(self):
        self.h = None
        self.skill = None
        self.shift = 0
        self.last = ()
        self.width = 1 if self.narrow else self.nc
        self.n = 0

    def __deepcopy__(self, memo):
        m = Member.__new__(type(self))
        m.__dict__.update(self.__dict__)
        SERIAL[0] += 1
        m.serial = SERIAL[0]
        return m

    def learn(self, x, y, w):
        x = np.ascontiguousarray(x, dtype=float)
        y = int(y)
        key = _hash(self.seed, repr(x.tolist()), y, float(w))
        if self.h is None:
            self.skill = self.skills[key % len(self.skills)]
            self.h = 0
        self.h = _hash(self.h, key)
        # the relation most of the last rows agree on
        self.last = self.last[-7:] + ((y - int(np.floor(x[0]))) % self.nc,)
        self.shift = max(range(self.nc), key=self.last.count)
        self.width = max(self.width, y + 1)
        self.n += 1

    def vector(self, x):
        x = np.ascontiguousarray(x, dtype=float)
        r = _hash(self.h or 0, repr(x.tolist()))
        label = (int(np.floor(x[0])) + self.shift) % self.nc
        if self.h is None:
            label = 0
        elif (r % 1000) / 1000.0 >= self.skill:
            label = (r // 1000) % self.nc
        label %= self.width
        v = np.array([1 + (_hash(r, j) % 20) for j in range(self.width)], dtype=float)
        v[label] = v.max() + 1 + r % 30
        return v / v.sum()

    # -- what the ensembles call
    def partial_fit(self, X, y, classes=None, sample_weight=None):
        for i in range(len(X)):
            w = 1.0 if sample_weight is None else float(sample_weight[i])
            LOG.append(('fit', self.serial, np.array(X[i], dtype=float).tolist(), int(y[i]), w))
            self.learn(X[i], y[i], w)
        return self

    def predict_proba(self, X):
        out = [self.vector(x) for x in np.asarray(X, dtype=float)]
        LOG.append(('ask', self.serial, len(out)))
        return np.array(out)

    def predict(self, X):
        X = np.asarray(X, dtype=float)
        LOG.append(('predict', self.serial, X.tolist()))
        return np.array([int(np.argmax(self.vector(x))) for x in X])

    def reset(self):
        LOG.append(('reset', self.serial))
        self.wipe()
        return self


class BatchMember(Member):
    """A learner that is trained anew on every batch."""

    def fit(self, X, y, sample_weight=None):
        self.wipe()
        LOG.append(('batch', self.serial, np.array(X, dtype=float).tolist(),
                    [int(v) for v in y]))
        for i in range(len(X)):
            self.learn(X[i], y[i], 1.0 if sample_weight is None else float(sample_weight[i]))
        return self


class Unclear(Exception):
    """Two candidates are equally good; which one the ensemble takes is not specified."""


def top(v, gap=1e-9):
    """Positions a vote may be decided for."""
    v = np.asarray(v, dtype=float)
    return np.flatnonzero(v >= v.max() - gap * max(1.0, abs(v.max())))


# ------------------------------------------------------------------ reference ensembles
class Expert:
    def __init__(self, m, w):
        self.m, self.w = m, w


class Ref:
    """`base` is an untrained member; every subclass decides by the documented rule."""

    def __init__(self, plan, base):
        self.plan, self.base = plan, base
        self.start()

    def fresh(self):
        m = copy.copy(self.base)
        m.wipe()
        return m

    @staticmethod
    def label(m, x):
        return int(np.argmax(m.vector(x)))


class DWM(Ref):
    """Kolter and Maloof: weights shrink by beta, experts come and go every `period` samples."""

    def start(self):
        self.t = 0
        self.experts = [Expert(self.fresh(), Fraction(1))]

    def votes(self, x):
        v = [Fraction(0)] * self.plan['nc']
        for e in self.experts:
            v[self.label(e.m, x)] += e.w
        return v

    def learn(self, X, y, w):
        p = self.plan
        for x, yy, ww in zip(X, y, w):
            self.t += 1
            epoch = self.t % p['period'] == 0
            if epoch:
                for e in self.experts:
                    if self.label(e.m, x) != yy:
                        e.w *= Fraction(p['beta'])
                v = self.votes(x)
                best = [k for k in range(len(v)) if v[k] == max(v)]
                exact = p['beta'] in (0.5, 0.25)      # sums of powers of two: no rounding
                if len(best) > 1 and yy in best and not exact:
                    raise Unclear()
                scale = max(e.w for e in self.experts)
                for e in self.experts:
                    e.w /= scale
                full = len(self.experts) == p['size']
                kept = [e for e in self.experts if e.w >= Fraction(p['theta'])]
                if best[0] != yy:
                    if full and len(kept) == len(self.experts):
                        low = min(e.w for e in kept)
                        weak = [e for e in kept if e.w == low]
                        if len(weak) > 1 and not exact:
                            raise Unclear()
                        kept.remove(weak[0])           # of equally weak ones, the oldest goes
                    kept.append(Expert(self.fresh(), Fraction(1)))
                self.experts = kept
            for e in self.experts:
                e.m.learn(x, yy, ww)


class AddExp(Ref):
    """Kolter and Maloof: additive expert ensembles for discrete classes."""

    def start(self):
        self.experts = [Expert(self.fresh(), 1.0)]

    votes = DWM.votes

    def learn(self, X, y, w):
        p = self.plan
        for x, yy, ww in zip(X, y, w):
            v = [float(a) for a in self.votes(x)]
            best = top(v)
            if len(best) > 1 and yy in best:
                raise Unclear()
            for e in self.experts:
                if self.label(e.m, x) != yy:
                    e.w *= p['beta']
            if best[0] != yy:
                new = Expert(self.fresh(), p['gamma'] * sum(e.w for e in self.experts))
                if len(self.experts) >= p['size']:
                    if p['pruning'] == 'oldest':
                        self.experts.pop(0)
                    else:
                        low = min(e.w for e in self.experts)
                        weak = [e for e in self.experts if e.w <= low * (1 + 1e-9)]
                        if len(weak) > 1:
                            raise Unclear()
                        self.experts.remove(weak[0])
                self.experts.append(new)
            for e in self.experts:
                e.m.learn(x, yy, ww)
            total = sum(e.w for e in self.experts)
            for e in self.experts:
                e.w /= total

    def votes(self, x):
        v = [0.0] * self.plan['nc']
        for e in self.experts:
            v[self.label(e.m, x)] += e.w
        return v


class LearnNSE(Ref):
    """Elwell and Polikar: sigmoid-averaged errors on the batches since a member was built."""

    def start(self):
        self.members = []
        self.weights = []
        self.X, self.y = [], []

    def votes(self, x):
        v = np.zeros(self.plan['nc'])
        for m, w in zip(self.members, self.weights):
            if w > 0:
                v += w * m.m.vector(x)
        return v

    def new(self):
        m = self.fresh()
        for x, yy in zip(self.X, self.y):
            m.learn(x, yy, 1.0)
        return m

    def learn(self, X, y, w):
        p = self.plan
        for x, yy in zip(X, y):
            self.X.append(np.array(x))
            self.y.append(int(yy))
            if len(self.y) < p['window']:
                continue
            n = len(self.y)
            D = np.ones(n) / n
            if self.members:
                wrong = np.zeros(n, dtype=bool)
                for i in range(n):
                    best = top(self.votes(self.X[i]))
                    if len(best) > 1 and self.y[i] in best:
                        raise Unclear()
                    wrong[i] = best[0] != self.y[i]
                D[~wrong] *= wrong.mean()
                if D.sum() > 0:
                    D = D / D.sum()
            e = Expert(self.new(), 0)
            e.b, e.s = [], []
            self.members.append(e)
            t = len(self.members)
            errors, self.weights = [], []
            for k, e in enumerate(self.members, 1):
                err = sum(D[i] for i in range(n) if self.label(e.m, self.X[i]) != self.y[i])
                if abs(err - 0.5) < 1e-9:
                    raise Unclear()
                if k < t:
                    err = min(err, 0.5)
                errors.append(err)
                if err > 1 - 1e-9:
                    raise Unclear()
                e.b.append(err / (1 - err))
                s = 1 / (1 + np.exp(-p['slope'] * (t - k - p['cross'])))
                e.s.append(s / (sum(e.s) + s))
                mean = float(np.dot(e.b, e.s))
                if 0 < mean < 1e-9 or abs(mean - 1) < 1e-9:
                    raise Unclear()
                self.weights.append(np.log(1 / (mean + 1e-50)))
            if p['nse'] and t > p['size']:
                i = 0
                if p['nse'] == 'error':
                    worst = top(errors)
                    if len(worst) > 1:
                        raise Unclear()
                    i = int(worst[0])
                self.members.pop(i)
                self.weights.pop(i)
            self.X, self.y = [], []


class AWE(Ref):
    """Wang et al.: members weighted by how much better than chance they are on the last chunk."""

    def start(self):
        self.pool = []
        self.X, self.y = [], []

    def votes(self, x):
        v = np.zeros(self.plan['nc'])
        ws = sorted((e.w for e in self.pool), reverse=True)
        k = self.plan['size']
        if len(ws) > k and ws[k - 1] - ws[k] < 1e-9 * max(1, ws[k]) and ws[k] > 0:
            raise Unclear()
        for e in sorted(self.pool, key=lambda e: -e.w)[:k]:
            v[self.label(e.m, x)] += e.w
        return v

    def mse(self, m, labels, idx):
        err = 0.0
        for i in idx:
            p = 0.0
            if self.y[i] in labels:
                p = m.vector(self.X[i])[self.y[i]]
            err += (1 - p) ** 2
        return err / len(idx)

    def learn(self, X, y, w):
        from sklearn.model_selection import KFold
        p = self.plan
        for x, yy in zip(X, y):
            self.X.append(np.array(x))
            self.y.append(int(yy))
            if len(self.y) < p['window']:
                continue
            n = len(self.y)
            share = [self.y.count(c) / n for c in set(self.y)]
            chance = sum(s * (1 - s) ** 2 for s in share)
            new = Expert(self.fresh(), 0)
            new.labels = sorted(set(self.y))
            for i in range(n):
                new.m.learn(self.X[i], self.y[i], 1.0)
            score = 0.0
            folds = KFold(n_splits=p['splits'], shuffle=True, random_state=0)
            for train, test in folds.split(np.zeros((n, 1))):
                m = self.fresh()
                for i in train:
                    m.learn(self.X[i], self.y[i], 1.0)
                score += self.mse(m, new.labels, test) / p['splits']
            new.w = max(0.0, chance - score)
            for e in self.pool:
                e.w = max(0.0, chance - self.mse(e.m, e.labels, range(n)))
            if len(self.pool) < p['kept']:
                self.pool.append(new)
            else:
                low = min(e.w for e in self.pool)
                worst = [e for e in self.pool if e.w <= low + 1e-9]
                if abs(new.w - low) < 1e-9 or len(worst) > 1 and new.w > low:
                    if low > 0 or new.w > 0:
                        raise Unclear()
                if new.w > low:
                    self.pool.remove(worst[0])
                    self.pool.append(new)
                elif low == 0 and new.w == 0:
                    pass
            self.X, self.y = [], []


REFS = dict(DWM=DWM, AddExp=AddExp, LearnNSE=LearnNSE, AWE=AWE)


# ------------------------------------------------------------------ the property
class C22(core.Prop):
    ID = 'C22'
    RULE = ('one run = one ensemble over simulated members with a drawn configuration and a drawn '
            'history of training calls of any size, sample weights, concept changes, restarts and '
            'restores from a checkpoint; every answer is compared with the vote of reference '
            'members trained by the documented rule, or of the members as the recorded calls '
            'left them; non-trivial: trained members disagreed on an asked row; distinct by '
            'ensemble, configuration and history')
    ASSUMPTIONS = ['where two candidates (labels, weakest members) are equally good the run ends',
                   'the number of times a randomly resampled row is taught is judged by its mean '
                   'and its share of zeros over the run, at 7 standard deviations']
    REAL = ['DynamicWeightedMajorityClassifier, AdditiveExpertEnsembleClassifier, '
            'LearnPPNSEClassifier, LearnPPClassifier, AccuracyWeightedEnsembleClassifier, '
            'OzaBaggingClassifier, OzaBaggingADWINClassifier, LeveragingBaggingClassifier, '
            'OnlineBoostingClassifier, OnlineAdaC2Classifier, OnlineCSB2Classifier, '
            'OnlineRUSBoostClassifier, OnlineSMOTEBaggingClassifier, '
            'OnlineUnderOverBaggingClassifier with the real ADWIN']
    STUB = ['base learners: simulated members whose answers are a function of what they were '
            'taught']
    QUICK_RUNS = 2800
    THOROUGH_RUNS = 60000
    SHRINK_LISTS = ('ops',)

    def gen(self, rng, tier, index):
        kind = KINDS[index % len(KINDS)]
        p = dict(kind=kind, nc=2 if kind in BINARY else rng.choice([2, 3, 4]),
                 nf=rng.choice([1, 2, 4]), seed=rng.randrange(1, 10 ** 6),
                 dseed=rng.randrange(10 ** 6), size=rng.choice([1, 2, 3, 5]),
                 beta=rng.choice([0.5, 0.25, 0.75]), theta=rng.choice([0.01, 0.1, 0.3]),
                 gamma=rng.choice([0.1, 0.37]), period=rng.choice([1, 2, 5, 10]),
                 pruning=rng.choice(['weakest', 'oldest']), window=rng.choice([5, 10, 20]),
                 slope=rng.choice([0.5, 1.5]), cross=rng.choice([0, 2, 10]),
                 nse=rng.choice([None, 'age', 'error']), splits=rng.choice([2, 3, 5]),
                 kept=rng.choice([2, 4, 10]), skills=rng.choice([
                     [0.3, 0.6, 0.9], [0.0, 1.0], [0.95, 1.0], [1.0], [0.5]]),
                 narrow=rng.random() < 0.4, det=rng.random() < 0.5,
                 w=rng.choice([1, 3, 6]), la=rng.choice([
                     'leveraging_bag', 'leveraging_bag', 'leveraging_bag_me',
                     'leveraging_bag_half', 'leveraging_bag_wt', 'leveraging_subag']),
                 code=rng.random() < 0.3, rate=rng.choice([1, 2, 3]), alg=rng.choice([1, 2, 3]),
                 cp=rng.choice([1, 0.5]), cn=rng.choice([0.1, 1]), weights=rng.random() < 0.3,
                 scribble=rng.random() < 0.3, thr=0.5, delta=rng.choice([0.002, 0.3, 1e-9]))
        if kind in ('LearnNSE', 'AWE', 'LearnPP'):
            p['narrow'] = False
        if kind == 'AddExp':
            p['beta'] = rng.choice([0.8, 0.53])
        if kind == 'AWE':
            p['size'] = rng.choice([1, 2, 3])
            p['skills'] = rng.choice([[0.6, 0.9, 1.0], [1.0], [0.95, 1.0]])
        if kind == 'SMOTEBagging':
            p['nf'] = max(2, p['nf'])
        if kind == 'LearnPP':
            p['skills'] = [0.9, 1.0, 0.95]
            p['size'] = rng.choice([1, 3, 5])
        ops = []
        for _ in range(rng.choice([10, 30, 60])):
            r = rng.random()
            if r < 0.03:
                ops.append(['reset'])
            elif r < 0.08:
                ops.append(['restore'])
            elif r < 0.14:
                ops.append(['shift'] if rng.random() < 0.5 else ['noise'])
            elif r < 0.45:
                ops.append(['ask', rng.choice([1, 1, 3])])
            else:
                ops.append(['fit', rng.choice([1, 1, 2, 5, 10])])
        if kind == 'LearnPP':                          # one concept: it needs members that learn
            ops = [o for o in ops if o[0] not in ('shift', 'noise')]
        p['ops'] = ops + [['fit', 10], ['ask', 3]]
        if kind in ('OzaBaggingADWIN', 'LeveragingBagging') or kind in DETECT and p['det']:
            p['ops'] = [o for o in p['ops'] for _ in range(3 if o[0] == 'fit' else 1)]
        long = False
        if (kind in ('OzaBaggingADWIN', 'LeveragingBagging') or kind in DETECT and p['det']) and \
                rng.random() < 0.5:
            long = True
            # long concepts, each gone before the next one
            p['skills'] = rng.choice([[1.0], [0.9], [0.9, 1.0, 0.6]])
            p['size'] = rng.choice([1, 2, 3])
            p['w'] = rng.choice([1, 2])
            p['ops'] = []
            for _ in range(rng.choice([3, 6, 10])):
                p['ops'] += [['fit', 10]] * rng.choice([6, 10, 20]) + [['ask', 3]]
                p['ops'] += [rng.choice([['noise'], ['noise'], ['noise'], ['restore'], ['shift']])]
        p['one'] = rng.random() < 0.6 or long
        if kind in ('RUSBoost', 'CSB2') + DETECT and p['det'] or \
                kind == 'LeveragingBagging' and p['one']:
            # a member may be replaced on a row that taught nobody: one row at a time tells when
            p['ops'] = [[o[0], 1] if o[0] == 'fit' else o for o in p['ops']
                        for _ in range(o[1] if o[0] == 'fit' else 1)]
        return p

    def build(self, plan):
        from skmultiflow import meta
        kind = plan['kind']
        cls = BatchMember if kind in ('AWE', 'LearnPP') else Member
        nc = plan['nc']
        if kind == 'LeveragingBagging' and plan['code']:
            nc = 2
        base = cls(nc=nc, narrow=plan['narrow'], skills=plan['skills'], seed=plan['seed'])
        n, rs = plan['size'], plan['seed']
        if kind == 'DWM':
            return base, meta.DynamicWeightedMajorityClassifier(
                n_estimators=n, base_estimator=base, period=plan['period'], beta=plan['beta'],
                theta=plan['theta'])
        if kind == 'AddExp':
            return base, meta.AdditiveExpertEnsembleClassifier(
                n_estimators=n, base_estimator=base, beta=plan['beta'], gamma=plan['gamma'],
                pruning=plan['pruning'])
        if kind == 'LearnNSE':
            return base, meta.LearnPPNSEClassifier(
                base_estimator=base, window_size=plan['window'], slope=plan['slope'],
                crossing_point=plan['cross'], n_estimators=n, pruning=plan['nse'])
        if kind == 'AWE':
            return base, meta.AccuracyWeightedEnsembleClassifier(
                n_estimators=n, n_kept_estimators=plan['kept'], base_estimator=base,
                window_size=plan['window'], n_splits=plan['splits'])
        if kind == 'OzaBagging':
            return base, meta.OzaBaggingClassifier(base, n_estimators=n, random_state=rs)
        if kind == 'OzaBaggingADWIN':
            return base, meta.OzaBaggingADWINClassifier(base, n_estimators=n, random_state=rs)
        if kind == 'LeveragingBagging':
            return base, meta.LeveragingBaggingClassifier(
                base, n_estimators=n, w=plan['w'], enable_code_matrix=plan['code'],
                leverage_algorithm=plan['la'], random_state=rs, delta=plan['delta'])
        if kind == 'LearnPP':
            return base, meta.LearnPPClassifier(
                base, error_threshold=plan['thr'], n_estimators=n, n_ensembles=plan['kept'],
                window_size=plan['window'], random_state=rs)
        kw = dict(base_estimator=base, n_estimators=n, drift_detection=plan['det'],
                  random_state=rs)
        if kind == 'OnlineBoosting':
            return base, meta.OnlineBoostingClassifier(**kw)
        if kind == 'AdaC2':
            return base, meta.OnlineAdaC2Classifier(cost_positive=plan['cp'],
                                                    cost_negative=plan['cn'], **kw)
        if kind == 'CSB2':
            return base, meta.OnlineCSB2Classifier(cost_positive=plan['cp'],
                                                   cost_negative=plan['cn'], **kw)
        if kind == 'RUSBoost':
            return base, meta.OnlineRUSBoostClassifier(sampling_rate=plan['rate'],
                                                       algorithm=plan['alg'], **kw)
        if kind == 'SMOTEBagging':
            return base, meta.OnlineSMOTEBaggingClassifier(sampling_rate=plan['rate'], **kw)
        if kind == 'UnderOverBagging':
            return base, meta.OnlineUnderOverBaggingClassifier(sampling_rate=plan['rate'], **kw)
        raise core.HarnessError(kind)

    def run(self, plan, ctx):
        core.seed_globals(plan['gseed'])
        del LOG[:]
        SERIAL[0] = 0
        ctx.shape(*[plan[k] for k in sorted(plan) if k not in ('ops', 'gseed', 'index')])
        base, ens = self.build(plan)
        r = np.random.RandomState(plan['dseed'] % 2 ** 31)
        nc, kind = plan['nc'], plan['kind']
        judge = REFS[kind](plan, base) if kind in REFS else MODELS[kind](plan, base)
        shift, noise = 0, False
        fitted = False
        asked = trained = 0
        try:
            for n, op in enumerate(plan['ops']):
                ctx.shape(*op)
                if op[0] == 'reset':
                    ens.reset()
                    judge.start()
                    fitted = False
                    ctx.fault('reset')
                elif op[0] == 'restore':
                    ens = pickle.loads(pickle.dumps(ens))
                    ctx.fault('restore')
                elif op[0] == 'shift':
                    shift += 1
                    ctx.fault('concept-change')
                elif op[0] == 'noise':
                    noise = not noise
                    ctx.fault('noise')
                elif op[0] == 'fit':
                    X, y = self.rows(r, plan, op[1], shift)
                    if noise:
                        y = r.randint(0, nc, size=len(y))
                    w = r.randint(1, 4, size=op[1]).astype(float) if plan['weights'] else None
                    if kind == 'AWE':
                        w = None
                    del LOG[:]
                    SERIAL[0] += 1
                    a = [X.copy(), y.copy(), None if w is None else w.copy()]
                    try:
                        ens.partial_fit(a[0], a[1], classes=list(range(nc)), sample_weight=a[2])
                    except RuntimeError as e:
                        if kind != 'LearnPP' or 'too weak' not in str(e):
                            raise
                        raise Unclear()                # documented
                    if plan['scribble']:
                        a[0][:] = 77
                        a[1][:] = 0
                        ctx.fault('buffer-reuse')
                    log = list(LOG)
                    if kind in REFS:
                        judge.learn(X, y, np.ones(op[1]) if w is None else w)
                    else:
                        judge.learn(ens, log, X, y, np.ones(op[1]) if w is None else w)
                    ctx.ev('fit', op[1], len(log))
                    fitted = True
                    trained += op[1]
                elif op[0] == 'ask':
                    if not fitted:
                        continue
                    X, _ = self.rows(r, plan, op[1], shift)
                    self.ask(ens, judge, X, ctx, n)
                    asked += 1
        except Unclear:
            ctx.probe('runs ended at a tie', 1)
        if hasattr(judge, 'finish'):
            judge.finish(ctx)
        ctx.nontrivial = asked > 0 and judge.__dict__.get('split', False)

    def rows(self, r, plan, n, shift):
        nc = plan['nc']
        lab = r.randint(0, nc, size=n)
        X = r.rand(n, plan['nf'])
        X[:, 0] = lab + 0.05 + 0.9 * X[:, 0]
        return X, (lab + shift) % nc

    def ask(self, ens, judge, X, ctx, n):
        kind = judge.plan['kind']
        want = [judge.votes(x) for x in X]
        lens = max(len(v) for v in want)
        got = np.asarray(ens.predict(X.copy()))
        ctx.ev('predict', got)
        if got.shape != (len(X),):
            raise Violation('vote', '%s: predict gave shape %s for %d rows'
                            % (kind, got.shape, len(X)), kind)
        for i, v in enumerate(want):
            if len(set(judge.answers(X[i]) if hasattr(judge, 'answers') else
                       [judge.label(e.m, X[i]) for e in
                        getattr(judge, 'experts', None) or getattr(judge, 'members', None) or
                        getattr(judge, 'pool', [])])) > 1:
                judge.split = True
            v = [float(a) for a in v]
            ok = top(v)
            if int(got[i]) not in ok or float(got[i]) != int(got[i]):
                raise Violation('vote', '%s: row %d of the question at %d is answered %s, the '
                                'weighted votes of the members are %s'
                                % (kind, i, n, got[i], core.short(v)), kind)
        if kind in ('DWM', 'AddExp', 'AWE'):
            return
        proba = np.asarray(ens.predict_proba(X.copy()), dtype=float)
        for i, v in enumerate(want):
            v = np.array([float(a) for a in v])
            if kind not in ('LearnNSE', 'LearnPP'):
                if abs(v.sum()) < 1e-6 and np.any(v):
                    continue
                if v.sum() > 0:
                    v = v / v.sum()
            p = np.zeros(max(lens, proba.shape[1]))
            p[:len(v)] = v
            q = np.zeros(len(p))
            q[:proba.shape[1]] = proba[i]
            if not core.same(p, q, 1e-7, 1e-9):
                raise Violation('proba', '%s: predict_proba of row %d of the question at %d is '
                                '%s, from the members %s'
                                % (kind, i, n, core.short(q), core.short(p)), kind)


# ------------------------------------------------------------------ resampling ensembles
class Tally:
    """Draws against the distribution they are documented to come from."""

    def __init__(self, what):
        self.what, self.d, self.v, self.z, self.zv, self.n = what, 0.0, 0.0, 0.0, 0.0, 0

    def draw(self, k, lam):
        self.n += 1
        self.d += k - lam
        self.v += lam
        q = np.exp(-lam)
        self.z += (k == 0) - q
        self.zv += q * (1 - q)

    def check(self, kind):
        if self.v > 25 and abs(self.d) > 7 * np.sqrt(self.v):
            raise Violation('resampling', '%s: %s taught %.1f times more than the Poisson '
                            'distribution gives over %d draws (standard deviation %.1f)'
                            % (kind, self.what, self.d, self.n, np.sqrt(self.v)), kind)
        if self.zv > 8 and abs(self.z) > 7 * np.sqrt(self.zv):
            raise Violation('resampling', '%s: %s left out %.1f times more than the Poisson '
                            'distribution gives over %d draws (standard deviation %.1f)'
                            % (kind, self.what, self.z, self.n, np.sqrt(self.zv)), kind)


class Coin(Tally):
    def draw(self, k, p):
        self.n += 1
        self.d += k - p
        self.v += p * (1 - p)

    def check(self, kind):
        if self.v > 8 and abs(self.d) > 7 * np.sqrt(self.v):
            raise Violation('resampling', '%s: %s taught %.1f times more than prescribed '
                            'over %d draws (standard deviation %.1f)'
                            % (kind, self.what, self.d, self.n, np.sqrt(self.v)), kind)


class Resampled:
    """Follows the members of a resampling ensemble through the calls they wrote down."""

    def __init__(self, plan, base):
        self.plan, self.base = plan, base
        self.tally = {}
        self.start()

    def start(self):
        # a reset starts the random numbers anew: every life is judged by itself
        self.judged += sum(t.n for t in self.tally.values())
        for t in self.tally.values():
            t.check(self.plan['kind'])
        self.tally = {}
        self.m = {}                 # serial -> our own copy of the member
        self.order = []
        self.adwin = {}
        self.change = False
        self.init()

    def init(self):
        pass

    def watching(self):
        return False

    def watch(self, s, errors):
        if s not in self.adwin:
            self.adwin[s] = ADWIN(self.plan['delta'] if self.plan['kind'] == 'LeveragingBagging'
                                  else 0.002)
        a = self.adwin[s]
        before = a.estimation
        for e in errors:
            a.add_element(int(e))
        if a.detected_change() and a.estimation > before:
            self.change = True

    def resets(self, ev, pos, n):
        """The member that errs most is replaced when the error of a member grew, and only then."""
        done = []
        while pos < len(ev) and ev[pos][0] == 'reset':
            done.append(ev[pos][1])
            pos += 1
        if self.watching():
            worst = max(self.adwin[s].estimation for s in self.order)
            due = [s for s in self.order if self.adwin[s].estimation >= worst - 1e-9]
            want = 1 if self.change and worst > 0 else 0
            if len(done) != want:
                self.bad('%d members are replaced after a row where ADWIN says %d (errors %s)'
                         % (len(done), want, [self.adwin[s].estimation for s in self.order]))
            if want and done[0] not in due:
                self.bad('the member of error %s is replaced, the worst one has %s'
                         % (self.adwin[done[0]].estimation, worst))
            self.replaced += want
        for s in done:
            self.m[s].wipe()
            self.adwin.pop(s, None)
        self.change = False
        return pos

    replaced = judged = 0

    def finish(self, ctx):
        ctx.probe('members replaced by the reference', self.replaced)
        ctx.probe('resampling draws judged',
                  self.judged + sum(t.n for t in self.tally.values()))
        for t in self.tally.values():
            t.check(self.plan['kind'])

    def draw(self, what, k, lam):
        if what not in self.tally:
            self.tally[what] = Tally(what)
        self.tally[what].draw(k, lam)

    def bad(self, text):
        raise Violation('training', '%s: %s' % (self.plan['kind'], text), self.plan['kind'])

    def begin(self, ens):
        new = [m.serial for m in ens.ensemble]
        if not self.order:
            if len(set(new)) != len(new):
                self.bad('two members of the ensemble are the same object')
            if len(new) < self.plan['size']:
                self.bad('%d members, %d configured' % (len(new), self.plan['size']))
            for s in new:
                m = copy.copy(self.base)
                m.wipe()
                self.m[s] = m
            self.order = new
        if new != self.order:
            self.bad('the members were exchanged')

    @staticmethod
    def label(m, x):
        return int(np.argmax(m.vector(x)))

    def answers(self, x):
        return [self.label(self.m[s], x) for s in self.order]

    def votes(self, x):
        """The mean of what the members answer."""
        if not self.order:
            return [0.0]
        v = np.zeros(self.plan['nc'])
        for s in self.order:
            u = self.m[s].vector(x)
            v[:len(u)] += u
        return v / v.sum()

    def learn(self, ens, log, X, y, w):
        self.begin(ens)
        # the training calls and resets, in order
        ev = [e for e in log if e[0] in ('fit', 'reset') and e[1] in self.m]
        pos = 0
        for j in range(len(X)):
            row = X[j].tolist()
            self.row(j)
            for i, s in enumerate(self.order):
                k = 0
                want = self.target(i, s, int(y[j]))
                self.before = self.label(self.m[s], X[j])
                while pos < len(ev) and ev[pos][0] == 'fit' and ev[pos][1] == s and \
                        ev[pos][2] == row:
                    if ev[pos][3] != want:
                        self.bad('a member is taught label %s for a row of label %s'
                                 % (ev[pos][3], int(y[j])))
                    ww = w[j] if self.weighted else 1.0
                    if ev[pos][4] != ww:
                        self.bad('a member is taught a row of weight %s with weight %s'
                                 % (ww, ev[pos][4]))
                    self.m[s].learn(X[j], want, ww)
                    k += 1
                    pos += 1
                pos = self.extra(ev, pos, i, s, X[j], int(y[j]), w[j])
                self.taught(i, s, X[j], int(y[j]), k)
                if self.watching():
                    self.watch(s, [self.label(self.m[s], X[j]) != y[j]])
            pos = self.resets(ev, pos, j)
        if pos != len(ev):
            self.bad('a member is taught %s, which is not the row at its turn' % (ev[pos][2:],))

    weighted = True

    def row(self, j):
        pass

    def target(self, i, s, y):
        return y

    def extra(self, ev, pos, i, s, x, y, w):
        return pos

    def taught(self, i, s, x, y, k):
        self.draw('rows', k, 1.0)


class OzaADWIN(Resampled):
    """All rows of a call are resampled together."""

    def watching(self):
        return True

    def learn(self, ens, log, X, y, w):
        self.begin(ens)
        ev = [e for e in log if e[0] in ('fit', 'reset') and e[1] in self.m]
        pos = 0
        for i, s in enumerate(self.order):
            k = 0
            while pos < len(ev) and ev[pos][0] == 'fit' and ev[pos][1] == s:
                for j in range(len(X)):
                    if pos >= len(ev) or ev[pos][1:] != (s, X[j].tolist(), int(y[j]), w[j]):
                        self.bad('a member is not taught the rows of the call')
                    self.m[s].learn(X[j], y[j], w[j])
                    pos += 1
                k += 1
            self.draw('calls', k, 1.0)
            self.watch(s, [self.label(self.m[s], X[j]) != y[j] for j in range(len(X))])
        pos = self.resets(ev, pos, len(X))
        if pos != len(ev):
            self.bad('a member is taught %s, which is not the row at its turn' % (ev[pos],))


class Leveraging(Resampled):
    weighted = False

    def init(self):
        self.codes = None

    def begin(self, ens):
        if not self.order and self.plan['code']:
            # the code matrix is drawn once; it is public and has to be balanced
            self.codes = np.array(ens.matrix_codes)
            ones = self.codes.sum(1)
            if np.any((2 * ones - self.codes.shape[1]) ** 2 > self.codes.shape[1] % 2) or \
                    self.codes.shape[1] != self.plan['nc']:
                self.bad('unbalanced output codes %s' % self.codes.tolist())
        if self.codes is not None and not np.array_equal(self.codes, ens.matrix_codes):
            self.bad('the output codes changed')
        super().begin(ens)

    def target(self, i, s, y):
        return y if self.codes is None else int(self.codes[i][y])

    def votes(self, x):
        if not self.plan['code']:
            return super().votes(x)
        v = np.zeros(self.plan['nc'])
        for i, s in enumerate(self.order):
            u = self.m[s].vector(x)
            bit = 1 if len(u) == 2 and u[1] > u[0] else 0
            v += self.codes[i] == bit
        return v / v.sum() if v.sum() else v

    def taught(self, i, s, x, y, k):
        la = self.plan['la']
        if la == 'leveraging_bag':
            self.draw('rows', k, float(self.plan['w']))
        elif la == 'leveraging_bag_wt':
            if k < 1:
                self.bad('a row is left out by leveraging_bag_wt')
            self.draw('repetitions', k - 1, 1.0)
        elif k > 1:
            self.bad('a row is taught %d times by %s' % (k, la))
        elif la == 'leveraging_bag_half':
            self.chance('rows', k, 0.5)
        elif la == 'leveraging_subag':
            self.chance('rows', k, 1 - np.exp(-1))
        elif self.watching():
            e = self.adwin[s].estimation if s in self.adwin else 0.0
            if self.before != y:
                if not k:
                    self.bad('leveraging_bag_me leaves out a row its member fails on')
            else:
                self.chance('easy rows', k, 0.0 if e == 1.0 else min(1.0, e / (1 - e)))

    def chance(self, what, k, p):
        if k and p == 0 or not k and p > 1 - 1e-9:
            self.bad('a row is taught %d times where the probability is %s' % (k, p))
        if what not in self.tally:
            self.tally[what] = Coin(what)
        self.tally[what].draw(k, p)

    def watching(self):
        return not self.plan['code'] and self.plan['one']


class Boosting(Resampled):
    """Oza and Russell: the rate of a row grows while members fail on it."""

    def watching(self):
        return self.plan['det'] and self.plan['kind'] in DETECT

    def init(self):
        self.sc, self.sw, self.eps = {}, {}, {}

    def row(self, j):
        self.lam = 1.0

    def taught(self, i, s, x, y, k):
        self.draw('rows', k, self.lam)
        if k:
            self.judge(s, self.label(self.m[s], x) == y)

    def judge(self, s, right):
        sc, sw = self.sc, self.sw
        side = sc if right else sw
        side[s] = side.get(s, 0.0) + self.lam
        e = sw.get(s, 0.0) / (sw.get(s, 0.0) + sc.get(s, 0.0))
        self.eps[s] = e
        if e:
            self.lam /= 2 * ((1 - e) if right else e)

    def weight(self, s):
        if s not in self.eps:
            return 0.0
        e = min(max(self.eps[s], 1e-10), 1 - 1e-10)
        return np.log((1 - e) / e)

    def votes(self, x):
        if not self.order:
            return [0.0]
        v = np.zeros(self.plan['nc'])
        for s in self.order:
            u = self.m[s].vector(x)
            v[:len(u)] += self.weight(s) * u
        return v[:max(self.m[s].width for s in self.order)]      # labels a member knows


class AdaC2(Boosting):
    def init(self):
        self.total, self.right, self.wrong = {}, {}, {}
        self.w = {}

    def taught(self, i, s, x, y, k):
        self.draw('rows', k, self.lam)
        self.total[s] = self.total.get(s, 0.0) + self.lam
        if not k:
            return
        cost = self.plan['cp'] if y == 1 else self.plan['cn']
        ok = self.label(self.m[s], x) == y
        side = self.right if ok else self.wrong
        side[s] = side.get(s, 0.0) + cost * self.lam
        acc, err = self.right.get(s, 0.0) / self.total[s], self.wrong.get(s, 0.0) / self.total[s]
        self.w[s] = (acc, err)
        self.lam = cost * self.lam / (2 * (acc if ok else err))

    def weight(self, s):
        acc, err = self.w.get(s, (0.0, 0.0))
        return np.log(max(acc, 1e-10) / max(err, 1e-10))


class CSB2(Boosting):
    def init(self):
        self.total, self.sw, self.cost, self.eps = {}, {}, {}, {}

    def taught(self, i, s, x, y, k):
        self.draw('rows', k, self.lam)
        T = self.total
        T[s] = T.get(s, 0.0) + self.lam
        if not k:
            return
        ok = self.label(self.m[s], x) == y
        if not ok:
            self.sw[s] = self.sw.get(s, 0.0) + self.lam
            self.cost[s] = self.cost.get(s, 0.0) + self.plan['cp'] * self.lam
        e, c = self.sw.get(s, 0.0) / T[s], self.cost.get(s, 0.0) / T[s]
        self.eps[s] = e
        if ok:
            if e + c and e != 1:
                self.lam = e / ((1 - e) * (e + c))
        else:
            self.lam *= (self.plan['cp'] if y == 1 else self.plan['cn']) / (e + c)


class RUS(Boosting):
    def init(self):
        super().init()
        self.pos, self.neg = {}, {}
        self.npos = self.nneg = 0

    def taught(self, i, s, x, y, k):
        p, lam = self.plan, self.lam
        C = p['rate']
        side = self.pos if y == 1 else self.neg
        side[s] = side.get(s, 0.0) + lam
        self.npos += y == 1
        self.nneg += y != 1
        P, N = self.pos.get(s, 0.0), self.neg.get(s, 0.0)
        np_, nn = self.npos, self.nneg
        rate = 1.0
        if p['alg'] == 1:
            if y == 1 and nn:
                rate = lam * (P + N) / (P + N * C * np_ / nn) * (C + 1) * np_ / (np_ + nn)
            elif y != 1 and np_:
                rate = lam * (P + N) / (P + N * nn / (np_ * C)) * (C + 1) * np_ / (np_ + nn)
        elif p['alg'] == 2:
            rate = lam * np_ / (np_ + nn) / (P / (P + N)) if y == 1 else \
                lam * C * np_ / (np_ + nn) / (N / (P + N))
        else:
            rate = lam if y == 1 else lam / C
        self.draw('positive rows' if y == 1 else 'negative rows', k, rate)
        self.judge(s, self.label(self.m[s], x) == y)

    def judge(self, s, right):
        sc, sw = self.sc, self.sw
        side = sc if right else sw
        side[s] = side.get(s, 0.0) + self.lam
        e = sw.get(s, 0.0) / (sw.get(s, 0.0) + sc.get(s, 0.0))
        self.eps[s] = e
        if right and e != 1:
            self.lam /= 2 * (1 - e)
        elif not right and e:
            self.lam /= 2 * e


class UnderOver(Resampled):
    watching = Boosting.watching

    def taught(self, i, s, x, y, k):
        a = (i + 1) / len(self.order)
        self.draw('positive rows' if y == 1 else 'negative rows', k,
                  a * self.plan['rate'] if y == 1 else a)


class Smote(Resampled):
    watching = Boosting.watching

    def init(self):
        self.seen = []
        self.k = 0

    def row(self, j):
        self.first = True
        self.lam = 1.0

    def extra(self, ev, pos, i, s, x, y, w):
        """Synthetic positive rows, made of the newest positive row and one near to it."""
        if self.first and y == 1:
            self.seen.append(np.array(x))
        self.first = False
        self.k = 0
        while y == 1 and pos < len(ev) and ev[pos][0] == 'fit' and ev[pos][1] == s and \
                ev[pos][3] == 1 and self.synthetic(np.array(ev[pos][2])):
            self.m[s].learn(np.array(ev[pos][2]), 1, w)
            if ev[pos][4] != w:
                self.bad('a synthetic row has weight %s instead of %s' % (ev[pos][4], w))
            self.k += 1
            pos += 1
        return pos

    def synthetic(self, z):
        x = self.seen[-1]
        old = self.seen[:-1]
        if not old:
            return False
        d = np.array([((o - x) ** 2).sum() for o in old])
        order = np.argsort(d, kind='stable')
        near = [i for n, i in enumerate(order) if n < 5 or d[i] <= d[order[4]] + 1e-9]
        for i, sign in [(i, 1) for i in near] + [(0, -1)]:
            e = sign * (old[i] - x)
            j = int(np.argmax(np.abs(e)))
            g = (z - x)[j] / e[j] if e[j] else -1
            if -1e-12 <= g <= 1 + 1e-12 and np.allclose(z, x + g * e, atol=1e-9):
                # away from the first positive row: known finding
                self.away = self.away or sign < 0
                return True
        return False

    away = False

    def finish(self, ctx):
        super().finish(ctx)
        if self.away and self.plan.get('documented'):
            raise Violation('smote', 'SMOTEBagging: a synthetic positive row does not lie between '
                            'the newest positive row and one of those nearest to it',
                            'SMOTEBagging')

    def taught(self, i, s, x, y, k):
        a = (i + 1) / len(self.order)
        C = self.plan['rate']
        if y != 1:
            self.draw('negative rows', k, 1.0)
        elif len(self.seen) > 1:
            self.draw('positive rows', k, a * C)
            self.draw('synthetic rows', self.k, (1 - a) * C)


MODELS = dict(OzaBagging=Resampled, OzaBaggingADWIN=OzaADWIN, LeveragingBagging=Leveraging,
              OnlineBoosting=Boosting, AdaC2=AdaC2, CSB2=CSB2, RUSBoost=RUS,
              SMOTEBagging=Smote, UnderOverBagging=UnderOver)


class LearnPP(Resampled):
    """Polikar et al.: members built on drawn halves of a batch, voting by their errors."""

    def init(self):
        self.groups = []
        self.X, self.y = [], []

    def answers(self, x):
        return [self.label(m, x) for g in self.groups for m, _ in g]

    def votes(self, x):
        v = np.zeros(self.plan['nc'])
        for g in self.groups:
            for m, e in g:
                v[self.label(m, x)] += np.log(1 / (e + 1e-50))
        return v

    def learn(self, ens, log, X, y, w):
        ev = [e for e in log if e[0] in ('batch', 'predict')]
        pos = 0
        for x, yy in zip(X, y):
            self.X.append(np.array(x))
            self.y.append(int(yy))
            if len(self.y) == self.plan['window']:
                pos = self.batch(ev, pos)
                self.X, self.y = [], []
        if pos != len(ev):
            self.bad('members are built outside of a full batch')

    def batch(self, ev, pos):
        rows = [x.tolist() for x in self.X]
        n = len(rows)
        thr = self.plan['thr']
        D = np.ones(n) / n
        group = []
        y = np.array(self.y)
        while len(group) < self.plan['size']:
            if D.sum() == 0:
                break
            D = D / D.sum()
            while True:
                if pos + 1 >= len(ev) or ev[pos][0] != 'batch' or ev[pos + 1][0] != 'predict':
                    self.bad('a batch gave %d members instead of %d'
                             % (len(group), self.plan['size']))
                train = [(r in rows and rows.index(r)) for r in ev[pos][2]]
                test = [(r in rows and rows.index(r)) for r in ev[pos + 1][2]]
                if any(i is False for i in train + test) or \
                        [int(y[i]) for i in train] != ev[pos][3]:
                    self.bad('a member is built on rows that are not of the batch')
                if len(train) != n // 2 or len(test) != n // 2:
                    self.bad('a member is built on %d and tested on %d of %d rows'
                             % (len(train), len(test), n))
                if any(D[i] == 0 for i in train + test):
                    self.bad('a row of weight 0 is drawn')
                pos += 2
                m = copy.copy(self.base)
                m.wipe()
                for i in train:
                    m.learn(self.X[i], y[i], 1.0)
                bad = [self.label(m, self.X[i]) != y[i] for i in test]
                err = D[test][bad].sum() / D[test].sum()
                if abs(err - thr) < 1e-9:
                    raise Unclear()
                if err > thr:
                    continue
                if err < 1e-12:
                    err = 0.0
                trial = group + [(m, err / (1 - err))]
                miss = np.zeros(n, dtype=bool)
                for i in range(n):
                    v = np.zeros(self.plan['nc'])
                    for mm, e in trial:
                        v[self.label(mm, self.X[i])] += np.log(1 / (e + 1e-50))
                    best = top(v)
                    if len(best) > 1 and y[i] in best:
                        raise Unclear()
                    miss[i] = best[0] != y[i]
                pos += n * len(trial)              # every member is asked about every row
                total = D[miss].sum()
                if abs(total - thr) < 1e-9:
                    raise Unclear()
                if total >= thr:
                    continue
                group = trial
                if len(group) < self.plan['size']:
                    D = D.copy()
                    D[~miss] *= total / (1 - total)
                break
        self.groups.append(group)
        self.groups = self.groups[-self.plan['kept']:]
        return pos


MODELS['LearnPP'] = LearnPP
PROP = C22()
