"""C23: synthetic streams draw from the documented domain and label by the documented concept.

The oracle only sees what the stream hands out.  The history of draws, drifts, changes of the
concept, restarts and restores is drawn by the seed; labels are recomputed from the features with
functions written from the documentation and the papers it cites; what is random (noise, mixing of
concepts, uniform attributes) is tallied against its documented distribution.
"""
import pickle

import numpy as np
from scipy.optimize import linprog

from skmultiflow.data.base_stream import Stream

from sim import core
from sim.core import Violation

KINDS = ['SEA', 'AGRAWAL', 'AGRAWAL', 'STAGGER', 'Sine', 'MIXED', 'LED', 'LEDDrift', 'Hyperplane',
         'Waveform', 'AnomalySine', 'RandomTree', 'ConceptDrift', 'ConceptDrift', 'Regression',
         'RBF', 'RBFDrift']
FUNCTIONS = dict(SEA=4, AGRAWAL=10, STAGGER=3, Sine=4, MIXED=2)
SEGMENTS = ['1110111', '0010010', '1011101', '1011011', '0111010', '1101011', '1101111',
            '1010010', '1111111', '1111011']


# ------------------------------------------------------------------ concepts, from the papers
def sea(f, x):
    s, t = x[0] + x[1], (8, 9, 7, 9.5)[f]
    return None if abs(s - t) < 1e-9 else int(s > t)


def stagger(f, x):
    small, red = x[0] == 0, x[1] == 0
    green, circle = x[1] == 2, x[2] == 0
    return int((small and red, green or circle, x[0] in (1, 2))[f])


def sine(f, x):
    curve = np.sin(x[1]) if f < 2 else 0.5 + 0.3 * np.sin(3 * np.pi * x[1])
    if abs(x[0] - curve) < 1e-9:
        return None
    return int((x[0] < curve) == (f % 2 == 0))


def mixed(f, x):
    curve = 0.5 + 0.3 * np.sin(3 * np.pi * x[2])
    if abs(x[3] - curve) < 1e-9:
        return None
    two = int(x[0] == 1) + int(x[1] == 1) + int(x[3] < curve) >= 2
    return int(two == (f == 1))


def within(v, lo, hi):
    return lo * 1000 <= v <= hi * 1000


def agrawal(f, x):
    """Agrawal, Imielinski and Swami, functions 1 to 10: class 0 is group A."""
    salary, commission, age, elevel, _, _, hvalue, hyears, loan = x
    stage = 0 if age < 40 else 1 if age < 60 else 2
    pay = ((50, 100), (75, 125), (25, 75))[stage]
    levels = ((0, 1), (1, 2, 3), (2, 3, 4))[stage]
    if f == 0:
        return int(stage == 1)
    if f == 1:
        return int(not within(salary, *pay))
    if f == 2:
        return int(elevel not in levels)
    if f == 3:
        if elevel in levels:
            a = ((25, 75), (50, 100), (50, 100))[stage]
        else:
            a = ((50, 100), (75, 125), (25, 75))[stage]
        return int(not within(salary, *a))
    if f == 4:
        if within(salary, *pay):
            a = ((100, 300), (200, 400), (300, 500))[stage]
        else:
            a = ((200, 400), (300, 500), (100, 300))[stage]
        return int(not within(loan, *a))
    total = salary + commission
    if f == 5:
        return int(not within(total, *pay))
    left = 2 * total / 3
    if f == 6:
        left -= loan / 5 + 20000
    elif f == 7:
        left -= 5000 * elevel + 20000
    elif f == 8:
        left -= 5000 * elevel + loan / 5 + 10000
    else:
        equity = hvalue * (hyears - 20) / 10 if hyears >= 20 else 0
        left += equity / 5 - 5000 * elevel - 10000
    return None if abs(left) <= 1.01 else int(left < 0)


CONCEPT = dict(SEA=sea, STAGGER=stagger, Sine=sine, MIXED=mixed, AGRAWAL=agrawal)


class Coin:
    """Events whose probability lies between two bounds."""

    def __init__(self):
        self.n = 0
        self.low = self.high = self.v = 0.0

    def toss(self, hit, lo, hi=None):
        hi = lo if hi is None else hi
        self.n += 1
        self.low += hit - lo
        self.high += hit - hi
        self.v += max(lo * (1 - lo), hi * (1 - hi))

    def bad(self):
        s = 7 * np.sqrt(self.v)
        return self.v > 8 and (self.low < -s or self.high > s)


class Mean:
    def __init__(self, mean, sd):
        self.mean, self.sd, self.n, self.s = mean, sd, 0, 0.0

    def add(self, v):
        self.n += 1
        self.s += v - self.mean

    def bad(self):
        return self.n >= 30 and abs(self.s) > 7 * self.sd * np.sqrt(self.n)


class Counter(Stream):
    """A simulated stream of numbered rows."""

    def __init__(self, base, label, n=None):
        super().__init__()
        self.base, self.label, self.limit = base, label, n
        self.n_samples = 0
        self.n_targets = self.n_features = self.n_num_features = 1
        self.n_classes = 2
        self.cat_features_idx = []
        self.feature_names, self.target_names = ['a'], ['t']
        self.target_values = [0, 1]
        self.name = 'Counter'
        self.at = 0

    def _prepare_for_use(self):
        pass

    def next_sample(self, batch_size=1):
        rows = self.base + self.at + np.arange(batch_size, dtype=float).reshape(-1, 1)
        self.at += batch_size
        return rows, np.full(batch_size, self.label)

    def restart(self):
        self.at = 0

    def n_remaining_samples(self):
        return -1

    def has_more_samples(self):
        return True


class C23(core.Prop):
    ID = 'C23'
    RULE = ('one run = one synthetic stream with drawn parameters and a drawn history of draws of any '
            'size, drifts, concept changes, restarts and restores; every sample is judged; '
            'non-trivial: more than 20 samples judged; distinct by stream, parameters and history')
    ASSUMPTIONS = ['samples nearer than 1e-9 to the border of a concept are not judged',
                   'noise of p percent may flip between p - 1 and p percent',
                   'distributions are judged at seven standard deviations']
    REAL = ['all synthetic streams of skmultiflow.data but Multilabel, and ConceptDriftStream']
    STUB = ['the two streams mixed by ConceptDriftStream', 'process death (pickle)']
    QUICK_RUNS = 8500
    THOROUGH_RUNS = 200000
    SHRINK_LISTS = ('ops',)

    def gen(self, rng, tier, index):
        kind = KINDS[index % len(KINDS)]
        p = dict(kind=kind, seed=rng.randrange(10 ** 6), f=rng.randrange(FUNCTIONS.get(kind, 1)),
                 balance=rng.random() < 0.4, noise=rng.choice([0.0, 0.0, 0.1, 0.3, 0.9, 1.0]),
                 extra=rng.random() < 0.5, nf=rng.choice([1, 2, 3, 6]), pert=0.0,
                 nd=rng.choice([0, 1, 3, 5, 7]), position=rng.choice([1, 20, 60, 200]),
                 width=rng.choice([1, 5, 50, 200]), alpha=rng.choice([None, None, 0.5, 2.0, 30, 90]),
                 rows=rng.choice([40, 100, 300]), share=rng.choice([0.05, 0.2, 0.5]),
                 sd=rng.choice([0.0, 0.05, 0.5]), shift=rng.choice([1, 4, 9]),
                 replace=rng.random() < 0.5, nc=rng.choice([2, 3]), ncat=rng.choice([0, 1, 3]),
                 depth=rng.choice([[1, 1], [3, 1], [5, 3], [4, 4]]), per=rng.choice([2, 3, 5]),
                 inf=rng.choice([1, 2, 4]), speed=rng.choice([0.0, 0.02, 0.3]), targets=rng.choice([1, 2]))
        if kind == 'AGRAWAL' and rng.random() < 0.25:
            p['pert'] = rng.choice([0.05, 0.3, 1.0])
        ops = []
        for _ in range(rng.choice([3, 8, 20])):
            r = rng.random()
            if r < 0.55:
                ops.append(['next', rng.choice([1, 2, 7, 20, 60])])
            elif r < 0.65:
                ops.append(['drift'])
            elif r < 0.75:
                ops.append(['set', rng.randrange(FUNCTIONS.get(kind, 1))])
            elif r < 0.83:
                ops.append(['restart'])
            elif r < 0.92:
                ops.append(['restore'])
            else:
                ops.append(['scribble'])
        p['ops'] = ops + [['next', 40]]
        return p

    def build(self, p):
        from skmultiflow import data
        k, s = p['kind'], p['seed']
        if k == 'SEA':
            return data.SEAGenerator(p['f'], s, p['balance'], p['noise'])
        if k == 'AGRAWAL':
            return data.AGRAWALGenerator(p['f'], s, p['balance'], p['pert'])
        if k == 'STAGGER':
            return data.STAGGERGenerator(p['f'], s, p['balance'])
        if k == 'Sine':
            return data.SineGenerator(p['f'], s, p['balance'], p['extra'])
        if k == 'MIXED':
            return data.MIXEDGenerator(p['f'], s, p['balance'])
        if k == 'LED':
            return data.LEDGenerator(s, p['noise'], p['extra'])
        if k == 'LEDDrift':
            return data.LEDGeneratorDrift(s, 0.0, p['extra'], p['nd'])
        if k == 'Hyperplane':
            return data.HyperplaneGenerator(s, p['nf'], min(p['nd'], p['nf']), 0.0, 0.0, 0.1)
        if k == 'Waveform':
            return data.WaveformGenerator(s, p['extra'])
        if k == 'AnomalySine':
            n = int(p['rows'] * p['share'])
            return data.AnomalySineGenerator(p['rows'], n, p['extra'], n, p['shift'], p['sd'],
                                             p['replace'], s)
        if k == 'RandomTree':
            return data.RandomTreeGenerator(
                s, s + 1, p['nc'], p['ncat'], p['nf'], p['per'], p['depth'][0], p['depth'][1], 0.3)
        if k == 'RBF':
            return data.RandomRBFGenerator(s, s + 1, p['nc'], p['nf'], p['inf'] * 2)
        if k == 'RBFDrift':
            return data.RandomRBFGeneratorDrift(s, s + 1, p['nc'], p['nf'], p['inf'] * 2,
                                                p['speed'], p['nd'])
        if k == 'Regression':
            return data.RegressionGenerator(p['rows'], p['nf'], min(p['inf'], p['nf']),
                                            p['targets'], s)
        if k == 'ConceptDrift':
            return data.ConceptDriftStream(Counter(0, 0), Counter(10 ** 6, 1), p['position'],
                                           p['width'], s, p['alpha'])
        raise core.HarnessError(k)

    def bad(self, kind, text):
        raise Violation('concept', '%s: %s' % (kind, text), kind)

    def run(self, p, ctx):
        core.seed_globals(p['gseed'])
        kind = p['kind']
        ctx.shape(*[p[k] for k in sorted(p) if k not in ('ops', 'gseed', 'index')])
        s = self.build(p)
        J = JUDGES.get(kind, Labelled)(self, p)
        judged = 0
        last = None
        for op in p['ops']:
            ctx.shape(*op)
            if op[0] == 'next':
                f = getattr(s, 'classification_function', None)
                if kind in ('AnomalySine', 'Regression'):
                    n = min(op[1], s.n_remaining_samples())
                    if n == 0:
                        continue
                else:
                    n = op[1]
                if kind in ('RBF', 'RBFDrift'):
                    n = 1
                    J.before(s)
                X, y = s.next_sample(n)
                if len(X) != n or len(y) != n:
                    self.bad(kind, '%d samples asked for, %d and %d given' % (n, len(X), len(y)))
                ctx.ev('next', X, y)
                last = (X, y)
                for i in range(n):
                    J.row(f, np.array(X[i], dtype=float), np.array(y[i]))
                if kind in ('RBF', 'RBFDrift'):
                    J.after(s, X[0], int(y[0]))
                judged += n
            elif op[0] == 'drift':
                if hasattr(s, 'generate_drift'):
                    f = s.classification_function
                    s.generate_drift()
                    if s.classification_function == f or \
                            s.classification_function not in range(FUNCTIONS[kind]):
                        self.bad(kind, 'generate_drift went from function %s to function %s'
                                 % (f, s.classification_function))
                    ctx.fault('drift')
            elif op[0] == 'set':
                if kind in FUNCTIONS:
                    s.classification_function = op[1]
                    ctx.fault('concept-set')
            elif op[0] == 'restart':
                s.restart()
                J.close()
                J = JUDGES.get(kind, Labelled)(self, p)
                ctx.fault('restart')
            elif op[0] == 'restore':
                s = pickle.loads(pickle.dumps(s))
                ctx.fault('restore')
            elif op[0] == 'scribble':
                # finite streams hand out views of their own table
                if last is not None and kind not in ('AnomalySine', 'Regression'):
                    last[0][:] = -1
                    ctx.fault('buffer-reuse')
        J.close()
        ctx.probe('samples judged', judged)
        if judged > 20:
            ctx.nontrivial = True


class Judge:
    def __init__(self, prop, p):
        self.prop, self.p = prop, p
        self.coins, self.means = {}, {}
        self.n = 0
        self.rows = []
        self.start()

    def start(self):
        pass

    def bad(self, text):
        self.prop.bad(self.p['kind'], text)

    def toss(self, what, hit, lo, hi=None):
        self.coins.setdefault(what, Coin()).toss(hit, lo, hi)

    def mean(self, what, v, mean, sd):
        if what not in self.means:
            self.means[what] = Mean(mean, sd)
        self.means[what].add(v)

    def uniform(self, what, v, lo, hi):
        if not lo <= v <= hi:
            self.bad('%s is %s, outside of %s..%s' % (what, v, lo, hi))
        if not self.p['balance'] or self.p['kind'] not in FUNCTIONS:
            self.mean(what, v, (lo + hi) / 2.0, (hi - lo) / np.sqrt(12))

    def pick(self, what, v, lo, hi):
        if v not in range(lo, hi + 1):
            self.bad('%s is %s, not one of %s..%s' % (what, v, lo, hi))
        if not self.p['balance'] or self.p['kind'] not in FUNCTIONS:
            self.mean(what, v, (lo + hi) / 2.0, np.sqrt(((hi - lo + 1) ** 2 - 1) / 12.0))

    def close(self):
        for what, c in sorted(self.coins.items()):
            if c.bad():
                self.bad('%s: %.1f to %.1f times more often than documented in %d samples'
                         % (what, c.high, c.low, c.n))
        for what, m in sorted(self.means.items()):
            if m.bad():
                self.bad('the mean of %s is %.3f over %d samples instead of %.3f'
                         % (what, m.mean + m.s / m.n, m.n, m.mean))


class Labelled(Judge):
    """Streams with a choice of concepts."""

    def start(self):
        self.count = [0, 0]

    def row(self, f, x, y):
        p, kind = self.p, self.p['kind']
        self.domain(kind, x)
        if kind == 'AGRAWAL' and p['pert']:
            return                                    # the features were changed after labelling
        y = int(y)
        if y not in (0, 1):
            self.bad('label %d' % y)
        want = CONCEPT[kind](f, x)
        if kind == 'AGRAWAL' and f == 4 and not p.get('documented') and self.astray(x):
            want = None                               # known finding
        noise = p['noise'] if kind == 'SEA' else 0.0
        if want is not None and y != want and not noise:
            if kind == 'AGRAWAL' and f == 4 and self.astray(x):
                raise Violation('loan', 'AGRAWAL: function 4 labels %s as %d instead of %d'
                                % (core.short(x), y, want), 'AGRAWAL')
            self.bad('function %d labels %s as %d instead of %d'
                     % (f, core.short(x), y, want))
        if want is not None and noise:
            self.toss('a label is flipped', y != want, max(0.0, noise - 0.01), noise)
        group = want if noise and want is not None else y
        self.count[group] += 1
        if p['balance'] and abs(self.count[0] - self.count[1]) > 1 and (want is not None):
            self.bad('balanced classes came %d and %d times' % tuple(self.count))

    @staticmethod
    def astray(x):
        """Where function 4 compares the salary with bounds of the loan."""
        if x[2] < 40:
            return not within(x[0], 50, 100)
        return x[2] < 60 or not within(x[0], 25, 75) and within(x[8], 75, 100)

    def domain(self, kind, x):
        p = self.p
        if kind == 'SEA':
            for i in range(3):
                self.uniform('attribute %d' % i, x[i], 0, 10)
        elif kind == 'STAGGER':
            for i in range(3):
                self.pick('attribute %d' % i, x[i], 0, 2)
        elif kind == 'Sine':
            if len(x) != (4 if p['extra'] else 2):
                self.bad('%d features' % len(x))
            for i in range(len(x)):
                self.uniform('attribute %d' % i, x[i], 0, 1)
        elif kind == 'MIXED':
            self.pick('attribute 0', x[0], 0, 1)
            self.pick('attribute 1', x[1], 0, 1)
            self.uniform('attribute 2', x[2], 0, 1)
            self.uniform('attribute 3', x[3], 0, 1)
        elif not p['pert']:
            salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan = x
            self.uniform('salary', salary, 20000, 150000)
            if (commission == 0) != (salary >= 75000):
                self.bad('commission %s for a salary of %s' % (commission, salary))
            if commission and not 10000 <= commission <= 85000:
                self.bad('commission %s' % commission)
            self.pick('age', age, 20, 80)
            self.pick('elevel', elevel, 0, 4)
            self.pick('car', car, 0, 19)
            self.pick('zipcode', zipcode, 0, 8)
            if not (9 - zipcode) * 50000 <= hvalue <= (9 - zipcode) * 150000:
                self.bad('hvalue %s in zipcode %s' % (hvalue, zipcode))
            self.pick('hyears', hyears, 1, 30)
            self.uniform('loan', loan, 0, 500000)
        else:
            for name, v, lo, hi in (('salary', x[0], 20000, 150000), ('age', x[2], 20, 80),
                                    ('elevel', x[3], 0, 4), ('car', x[4], 0, 19),
                                    ('zipcode', x[5], 0, 8), ('hyears', x[7], 1, 30),
                                    ('loan', x[8], 0, 500000)):
                if not lo <= v <= hi:
                    self.bad('perturbed %s is %s' % (name, v))
                if name not in ('salary', 'loan') and v != int(v):
                    self.bad('perturbed %s is %s' % (name, v))
            if x[1] and not 10000 <= x[1] <= 85000:
                self.bad('perturbed commission is %s' % x[1])
            if p.get('documented') and x[6] == 0:
                raise Violation('perturbation', 'AGRAWAL: every perturbed house value is 0 or '
                                '%d, the house stands in zipcode %d'
                                % ((9 - x[5]) * 100000, x[5]), 'AGRAWAL')


class Led(Judge):
    def row(self, f, x, y):
        p, y = self.p, int(y)
        if len(x) != (24 if p['extra'] else 7):
            self.bad('%d features' % len(x))
        self.pick('digit', y, 0, 9)
        for i in range(7):
            hit = x[i] != int(SEGMENTS[y][i])
            if hit and not p['noise'] or x[i] not in (0, 1):
                self.bad('segment %d of digit %d is %s' % (i, y, x[i]))
            self.toss('a segment is inverted', hit, max(0.0, p['noise'] - 0.01), p['noise'])
        for i in range(7, len(x)):
            self.pick('attribute %d' % i, x[i], 0, 1)


class LedDrift(Judge):
    """Segments trade places with irrelevant attributes."""

    def row(self, f, x, y):
        if len(x) != (24 if self.p['extra'] else 7):
            self.bad('%d features' % len(x))
        self.rows.append(np.append(x, int(y)))

    def close(self):
        p = self.p
        if not self.rows:
            return
        D = np.array(self.rows)
        y = D[:, -1].astype(int)
        moved = 0
        taken = set()
        for i in range(7):
            want = np.array([int(SEGMENTS[d][i]) for d in y])
            if np.array_equal(D[:, i], want):
                continue
            at = [j for j in range(7, D.shape[1] - 1)
                  if np.array_equal(D[:, j], want) and j not in taken]
            if not at:
                self.bad('segment %d is nowhere to be found' % i)
            moved += 1
        due = p['nd'] if p['extra'] else 0
        if moved > due or len(D) >= 80 and moved < due:
            self.bad('%d segments moved instead of %d' % (moved, due))


class Plane(Judge):
    """Without noise and drift there is a hyperplane through the middle that separates."""

    def row(self, f, x, y):
        for i, v in enumerate(x):
            self.uniform('attribute %d' % i, v, 0, 1)
        self.rows.append((1 if int(y) else -1) * (x - 0.5))

    def close(self):
        super().close()
        if len(self.rows) < 2:
            return
        A = -np.array(self.rows)
        r = linprog(np.zeros(A.shape[1]), A_ub=A, b_ub=np.full(len(A), 1e-7),
                    A_eq=np.ones((1, A.shape[1])), b_eq=[1.0], bounds=(0, None))
        if r.status == 2:
            self.bad('no hyperplane separates the classes of %d samples' % len(A))


class Wave(Judge):
    H = [[max(0, 6 - abs(i - c)) for i in range(21)] for c in (6, 14, 10)]
    PAIRS = [(0, 1), (0, 2), (1, 2)]

    def row(self, f, x, y):
        if len(x) != (40 if self.p['extra'] else 21):
            self.bad('%d features' % len(x))
        self.pick('class', int(y), 0, 2)
        a, b = (np.array(self.H[k], dtype=float) for k in self.PAIRS[int(y)])
        d = a - b
        t = float(np.clip(np.dot(x[:21] - b, d) / np.dot(d, d), 0, 1))
        ss = float(((x[:21] - b - t * d) ** 2).sum())
        self.mean('squared residual of the wave', ss, 20.3, 6.5)
        self.mean('weight of the first wave', t, 0.5, 0.32)
        for v in x[21:]:
            self.mean('noise', v, 0.0, 1.0)
            self.mean('squared noise', v * v, 1.0, np.sqrt(2))


class Anomaly(Judge):
    def row(self, f, x, y):
        self.rows.append((x, int(y)))
        p = self.p
        i = len(self.rows) - 1
        far = 7.5 * p['sd'] + 1e-9
        if abs(x[0] - np.sin(i / 4.0)) > far:
            self.bad('sine attribute %s at row %d' % (x[0], i))
        if int(y) == 1:
            if not 1 - far <= x[1] <= 3 + far:
                self.bad('anomalous value %s at row %d' % (x[1], i))
        elif abs(x[1] - np.cos(i / 4.0)) > far:
            j = i - p['shift']
            if not p['extra'] or j < 0 or x[1] != self.rows[j][0][0]:
                self.bad('cosine attribute %s at row %d' % (x[1], i))

    def close(self):
        p = self.p
        n = int(p['rows'] * p['share'])
        if len(self.rows) == p['rows']:
            got = sum(y for _, y in self.rows)
            if got > n or n and not got or not p['replace'] and got != n:
                self.bad('%d anomalies instead of %d' % (got, n))


class Tree(Judge):
    def row(self, f, x, y):
        p = self.p
        nf, per = p['nf'], p['per']
        if len(x) != nf + p['ncat'] * per:
            self.bad('%d features' % len(x))
        for i in range(nf):
            self.uniform('attribute %d' % i, x[i], 0, 1)
        for c in range(p['ncat']):
            v = x[nf + c * per:nf + (c + 1) * per]
            if sorted(v) != [0] * (per - 1) + [1]:
                self.bad('categorical attribute %d is %s' % (c, v))
            self.pick('category of attribute %d' % c, int(np.argmax(v)), 0, per - 1)
        if int(y) not in range(p['nc']):
            self.bad('class %s' % y)
        self.rows.append((x, int(y)))

    def close(self):
        super().close()
        if not self.rows:
            return
        # the same tree over the same seed, read through its documented structure
        tree = self.prop.build(self.p).tree_root
        for x, y in self.rows:
            node, depth, used = tree, 0, set()
            while node.children:
                k = int(node.split_att_index)
                if k < self.p['nf']:
                    if abs(x[k] - node.split_att_value) < 1e-12:
                        break
                    node = node.children[0 if x[k] < node.split_att_value else 1]
                else:
                    if k in used:
                        self.bad('a categorical attribute is split twice on a path')
                    used.add(k)
                    o = self.p['nf'] + (k - self.p['nf']) * self.p['per']
                    node = node.children[int(np.argmax(x[o:o + self.p['per']]))]
                depth += 1
            else:
                if node.class_label != y:
                    self.bad('the tree labels %s as %s, the stream as %s'
                             % (core.short(x), node.class_label, y))
                if not min(self.p['depth']) <= depth <= self.p['depth'][0]:
                    self.bad('a leaf at depth %d' % depth)


class Mix(Judge):
    """Which of two streams a sample comes from."""

    def start(self):
        self.at = [0, 0]

    def row(self, f, x, y):
        p = self.p
        width = p['width']
        if p['alpha'] is not None:
            width = max(1, int(1 / np.tan(p['alpha'] * np.pi / 180)))
        self.n += 1
        y = int(y)
        if x[0] != (10 ** 6 if y else 0) + self.at[y]:
            self.bad('row %s of stream %d instead of row %d' % (x[0], y, self.at[y]))
        self.at[y] += 1
        z = 4.0 * (self.n - p['position']) / width
        q = 1 / (1 + np.exp(-z)) if z > -700 else 0.0
        if y and q < 1e-9 or not y and q > 1 - 1e-9:
            self.bad('sample %d comes from stream %d, drift at %d of width %d'
                     % (self.n, y, p['position'], width))
        self.toss('the second stream is drawn', y, q)
        side = 'before' if z < 0 else 'after'
        self.toss('the second stream is drawn %s the middle' % side, y, q)


class Centroids(Judge):
    """Samples lie around the centroids, which move at their speed when there is drift."""

    def start(self):
        self.old = None
        self.still = {}

    def row(self, f, x, y):
        if len(x) != self.p['nf'] or int(y) not in range(self.p['nc']):
            self.bad('%d features, class %s' % (len(x), y))

    @staticmethod
    def look(s):
        return [(np.array(c.centre, dtype=float), c.class_label, c.std_dev) for c in s.centroids]

    def before(self, s):
        now = self.look(s)
        if self.old is not None and any(not np.array_equal(a[0], b[0])
                                        for a, b in zip(self.old, now)):
            self.bad('the centroids moved between two draws')
        self.old = now
        if len(now) != 2 * self.p['inf']:
            self.bad('%d centroids' % len(now))

    def after(self, s, x, y):
        now = self.look(s)
        speed = self.p['speed'] if self.p['kind'] == 'RBFDrift' else 0.0
        for i, (a, b) in enumerate(zip(self.old, now)):
            if a[1:] != b[1:]:
                self.bad('a centroid changed its class or its spread')
            d = np.abs(b[0] - a[0])
            if np.any(b[0] < 0) or np.any(b[0] > 1):
                self.bad('a centroid left the unit cube: %s' % b[0])
            if self.p['kind'] == 'RBFDrift' and i < self.p['nd']:
                inside = np.all((b[0] > 0) & (b[0] < 1))
                if inside and abs(np.sqrt((d ** 2).sum()) - speed) > 1e-9 or \
                        (d ** 2).sum() > speed ** 2 + 1e-9:
                    self.bad('a centroid moved by %s at speed %s' % (d, speed))
                still = self.still.get(i, 0)
                self.still[i] = np.where(d == 0, still + np.ones(len(d)), 0)
                if speed and self.still[i].max() > 1:
                    self.bad('a centroid stays at the border: %s' % b[0])
            elif d.any():
                self.bad('centroid %d moved' % i)
        self.old = now
        near = [np.sqrt(((x - c) ** 2).sum()) <= 7.5 * sd + 1e-9 for c, k, sd in now if k == y]
        if not any(near):
            self.bad('a sample of class %d is nowhere near a centroid of that class' % y)


class Linear(Judge):
    def row(self, f, x, y):
        self.rows.append((x, np.atleast_1d(y).astype(float)))

    def close(self):
        p = self.p
        X = np.array([r[0] for r in self.rows])
        if len(X) < p['nf'] + 5:
            return
        Y = np.array([r[1] for r in self.rows])
        if Y.shape[1] != p['targets']:
            self.bad('%d targets instead of %d' % (Y.shape[1], p['targets']))
        w = np.linalg.lstsq(X, Y, rcond=None)[0]
        if np.abs(X.dot(w) - Y).max() > 1e-6 * max(1.0, np.abs(Y).max()):
            self.bad('the targets are not linear in the features')
        if (np.abs(w).max(1) > 1e-6).sum() > min(p['inf'], p['nf']):
            self.bad('%d features matter instead of %d'
                     % ((np.abs(w).max(1) > 1e-6).sum(), min(p['inf'], p['nf'])))


JUDGES = dict(LED=Led, LEDDrift=LedDrift, Hyperplane=Plane, Waveform=Wave, AnomalySine=Anomaly,
              RandomTree=Tree, ConceptDrift=Mix, Regression=Linear, RBF=Centroids,
              RBFDrift=Centroids)
PROP = C23()
