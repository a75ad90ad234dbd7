"""C19: windows hold the most recent entries, and what works on them answers from those."""
import pickle

import numpy as np

from sim import core, refdetect
from sim.core import Violation

KINDS = ['FastBuffer', 'FastComplexBuffer', 'SlidingWindow', 'KNNClassifier', 'KNNRegressor',
         'KNNADWINClassifier', 'MissingValuesCleaner', 'WindowedStandardScaler',
         'OneHotToCategorical', 'KNNClassifier', 'KNNADWINClassifier']


class Source:
    """Rows of the run, the same for every execution of the plan."""

    def __init__(self, plan):
        self.r = np.random.RandomState(plan['dseed'] % 2 ** 31)
        self.nf, self.plan, self.t = plan['nf'], plan, 0

    def rows(self, n):
        X = self.r.randint(-400, 400, size=(n, self.nf)) / 8.0 + \
            self.r.rand(n, self.nf) / 64           # no two distances are equal
        if self.plan['kind'] == 'MissingValuesCleaner':
            X = self.r.randint(-3, 4, size=(n, self.nf)).astype(float)
            hole = self.r.rand(n, self.nf) < self.plan['holes']
            X[hole] = np.nan if self.plan['code'] is None else self.plan['code']
        if self.plan['kind'] == 'WindowedStandardScaler':
            X = self.r.randint(-24, 24, size=(n, self.nf)) / 8.0
            X[:, 0] = np.where(self.r.rand(n) < 0.1, X[:, 0], 1.0)   # often constant
        return X

    def labels(self, X, drift):
        nc = self.plan['nc']
        y = (np.floor(X[:, 0] / 25.0).astype(int) + 2) % nc
        return (y + 1) % nc if drift else y


# ------------------------------------------------------------------ references
class List:
    """The most recent `size` entries, oldest first."""

    def __init__(self, size):
        self.size = size
        self.items = []

    def add(self, item):
        self.items.append(item)
        out = self.items[:-self.size] if self.size else list(self.items)
        self.items = self.items[len(out):]
        return out


def neighbours(window, x, k, metric):
    """Targets of the k nearest rows of the window."""
    W = np.array([r for r, _ in window])
    d = np.abs(W - x)
    d = {'euclidean': (d ** 2).sum(1), 'manhattan': d.sum(1), 'chebyshev': d.max(1)}[metric]
    order = np.argsort(d, kind='stable')
    if len(d) > k and d[order[k]] - d[order[k - 1]] <= 1e-9 * max(1.0, d[order[k]]):
        return None                                # which one is nearer cannot be told
    return [window[i][1] for i in order[:k]]


def shares(targets, width):
    v = np.zeros(width)
    for t in targets:
        v[int(t)] += 1.0 / len(targets)
    return v


class C19(core.Prop):
    ID = 'C19'
    RULE = ('one run = one window-based component with a drawn history of additions in blocks of '
            'any size, removals, questions, resets, restores from a checkpoint and overwriting of '
            'arrays by the caller; every answer is compared with one computed from the recorded '
            'history; non-trivial: the window overflowed or was cut, and was asked; distinct by '
            'component, configuration and history')
    ASSUMPTIONS = ['distances that differ by less than 1e-9 are not judged',
                   'WindowedMinmaxScaler is a known finding and left out']
    REAL = ['FastBuffer, FastComplexBuffer, SlidingWindow, KNNClassifier, KNNRegressor, '
            'KNNADWINClassifier (with the real ADWIN and the KDTree of scikit-learn), '
            'MissingValuesCleaner, WindowedStandardScaler, OneHotToCategorical']
    STUB = []
    QUICK_RUNS = 3000
    THOROUGH_RUNS = 100000
    SHRINK_LISTS = ('ops',)

    def gen(self, rng, tier, index):
        kind = KINDS[index % len(KINDS)]
        size = rng.choice([1, 2, 3, 5, 10, 30])
        p = dict(kind=kind, nf=rng.choice([1, 2, 3, 5]), nc=rng.choice([2, 3, 4]),
                 dseed=rng.randrange(10 ** 6), size=size, scribble=rng.random() < 0.5)
        if kind.startswith('KNN'):
            p['k'] = rng.choice([1, 2, 3, 5, 8])
            p['size'] = rng.choice([p['k'], p['k'] + 1, 10, 30, 100])
            p['metric'] = rng.choice(['euclidean', 'manhattan', 'chebyshev'])
            p['leaf'] = rng.choice([1, 5, 30])
            p['agg'] = rng.choice(['mean', 'median'])
        if kind == 'MissingValuesCleaner':
            p['strategy'] = rng.choice(['mean', 'median', 'mode', 'zero', 'custom', 'mean'])
            p['code'] = rng.choice([None, -47, 2])
            p['holes'] = rng.choice([0.1, 0.4, 0.9])
            p['aslist'] = rng.random() < 0.3
        ops = []
        n = rng.choice([5, 15, 40])
        if kind == 'KNNADWINClassifier':
            p['size'] = rng.choice([60, 100, 200])
            p['k'] = rng.choice([2, 3, 5, 8])
            p['nf'] = rng.choice([1, 1, 2])
            n = rng.choice([200, 300, 500])
        for _ in range(n):
            r = rng.random()
            if kind == 'KNNADWINClassifier':
                r = r ** 0.4 if r > 0.001 else 0           # mostly additions
            if r < 0.03:
                ops.append(['reset'])
            elif r < 0.07:
                ops.append(['restore'])
            elif r < 0.15:
                ops.append(['remove'])
            elif r < 0.45:
                ops.append(['ask', rng.choice([1, 1, 2, 5])])
            else:
                ops.append(['add', rng.choice([1, 1, 1, 2, 3, 7, 20])
                            if kind != 'KNNADWINClassifier' else rng.choice([1, 1, 1, 2])])
        if kind == 'KNNADWINClassifier':
            # a change of the concept, so that the window is cut
            for lo, hi in ((0.75, 0.9), (0.3, 0.6)):
                ops.insert(int(len(ops) * rng.uniform(lo, hi)), ['drift'])
        ops.append(['ask', 3])
        p['ops'] = ops
        return p

    # ------------------------------------------------------------------
    def run(self, plan, ctx):
        core.seed_globals(plan['gseed'])
        ctx.shape(*[plan.get(k) for k in ('kind', 'nf', 'size', 'k', 'metric', 'strategy')])
        kind = plan['kind']
        if kind in ('FastBuffer', 'FastComplexBuffer'):
            sim = Buffer(plan)
        elif kind == 'SlidingWindow':
            sim = Sliding(plan)
        elif kind.startswith('KNN'):
            sim = Nearest(plan)
        else:
            sim = Transform(plan)
        asked = 0
        for n, op in enumerate(plan['ops']):
            ctx.shape(*op)
            if op[0] == 'restore':
                sim.obj = pickle.loads(pickle.dumps(sim.obj))
                ctx.fault('restore')
                continue
            if op[0] in ('reset', 'drift', 'remove'):
                ctx.fault(op[0])
            out = getattr(sim, op[0])(*op[1:])
            for what, got, want in out or ():
                ctx.ev(op[0], n, what, np.asarray(got, dtype=float))
                if not core.same(np.asarray(got, dtype=float), np.asarray(want, dtype=float),
                                 1e-9, 1e-9):
                    raise Violation('window', '%s (size %s) %s after %d operations: %s, from the '
                                    'most recent entries %s' % (
                                        kind, plan['size'], what, n, core.short(got),
                                        core.short(want)), kind)
            asked += op[0] == 'ask'
        if plan['scribble']:
            ctx.fault('buffer-reuse')
        ctx.probe('cuts of the window by ADWIN', sim.cuts)
        ctx.nontrivial = asked > 0 and sim.overflow


class Base:
    overflow = False
    cuts = 0

    def __init__(self, plan):
        self.plan, self.src = plan, Source(plan)
        self.window = List(plan['size'])
        self.drifted = False
        self.build()

    def put(self, item):
        out = self.window.add(item)
        self.overflow = self.overflow or bool(out)
        return out

    def drift(self):
        self.drifted = not self.drifted

    def remove(self):
        pass

    def scribble(self, *arrays):
        if self.plan['scribble']:
            for a in arrays:
                a[:] = 77


class Buffer(Base):
    def build(self):
        from skmultiflow.utils import FastBuffer, FastComplexBuffer
        self.flat = self.plan['kind'] == 'FastBuffer'
        self.obj = FastBuffer(self.plan['size']) if self.flat else \
            FastComplexBuffer(self.plan['size'], self.plan['nf'])

    def reset(self):
        self.obj.clear_queue()
        self.window = List(self.plan['size'])

    def add(self, n):
        rows = self.src.rows(n)
        if self.flat:
            items = rows[:, 0].tolist()
            arg = list(items)
        else:
            items = rows.tolist()
            # one entry is given as a flat array, several as rows
            arg = rows[0].copy() if n == 1 else rows.copy()
        out = []
        for it in items:
            out += self.put(it)
        got = self.obj.add_element(arg)
        if not self.flat:
            self.scribble(arg)
        if not out:
            return [('returned (0 for None)', 0 if got is None or len(got) == 0 else 1, 0)]
        return [('pushed out', [] if got is None else got, out)]

    def remove(self):
        want = self.window.items.pop(0) if self.window.items else None
        got = self.obj.get_next_element()
        if want is None:
            return [('head (0 for None)', 0 if got is None else 1, 0)]
        return [('head', got, want)]

    def ask(self, n):
        w = self.window.items
        out = [('size', self.obj.get_current_size(), len(w)),
               ('is empty', self.obj.is_empty(), not w),
               ('is full', self.obj.is_full(), len(w) == self.plan['size']),
               ('queue', self.obj.get_queue(), w)]
        if w:
            out.append(('head', self.obj.peek(), w[0]))
        return out


class Sliding(Base):
    def build(self):
        from skmultiflow.utils import SlidingWindow
        self.obj = SlidingWindow(window_size=self.plan['size'])

    def reset(self):
        self.obj.reset()
        self.window = List(self.plan['size'])

    def add(self, n):
        X = self.src.rows(n)
        y = self.src.labels(X, False)
        buf = np.zeros(self.plan['nf'])
        for i in range(n):
            self.put((X[i].tolist(), [float(y[i])]))
            buf[:] = X[i]
            self.obj.add_sample(buf, y[i])
            self.scribble(buf)

    def remove(self):
        self.window.items = self.window.items[1:]
        self.obj.delete_oldest_sample()

    def ask(self, n):
        w = self.window.items
        out = [('size', self.obj.size, len(w))]
        if w:
            out += [('features', self.obj.features_buffer, [r for r, _ in w]),
                    ('targets', self.obj.targets_buffer, [t for _, t in w])]
        return out


class Nearest(Base):
    def build(self):
        from skmultiflow import lazy
        p = self.plan
        kw = dict(n_neighbors=p['k'], max_window_size=p['size'], leaf_size=p['leaf'],
                  metric=p['metric'])
        if p['kind'] == 'KNNRegressor':
            kw['aggregation_method'] = p['agg']
        self.obj = getattr(lazy, p['kind'])(**kw)
        self.adwin = refdetect.ADWIN(dict(delta=0.002)) if 'ADWIN' in p['kind'] else None
        self.lost = False

    def reset(self):
        self.obj.reset()
        self.window = List(self.plan['size'])
        if self.adwin:
            self.adwin = refdetect.ADWIN(dict(delta=0.002))
        self.lost = False

    def near(self, x):
        return neighbours(self.window.items, x, self.plan['k'], self.plan['metric'])

    def add(self, n):
        p = self.plan
        X = self.src.rows(n)
        y = self.src.labels(X, self.drifted)
        if p['kind'] == 'KNNRegressor':
            y = np.round(X.sum(axis=1) * 8) / 8
        for i in range(n):
            self.put((X[i].copy(), y[i]))
            if self.adwin:
                right = 0
                if len(self.window.items) >= p['k']:
                    near = self.near(X[i])
                    if near is None:
                        self.lost = True
                    else:
                        right = int(np.argmax(shares(near, p['nc'])) == y[i])
                self.adwin.add(None, right)
        if self.adwin and len(self.window.items) >= p['k']:
            c = refdetect.Choice(())
            r = self.adwin.detect(c, None)
            self.lost = self.lost or c.used > 0
            if r['change'] and r['width'] < len(self.window.items):
                self.window.items = self.window.items[-r['width']:]
                self.overflow = True
                self.cuts += 1
        Xa, ya = X.copy(), y.copy()
        self.obj.partial_fit(Xa, ya)
        self.scribble(Xa, ya)

    def ask(self, n):
        p = self.plan
        X = self.src.rows(n)
        got = self.obj.predict(X)
        if self.lost:
            return []
        out = []
        if len(got) != n:
            return [('number of answers', len(got), n)]
        proba = None if p['kind'] == 'KNNRegressor' else self.obj.predict_proba(X)
        for i in range(n):
            if len(self.window.items) < p['k']:
                out.append(('answer without enough samples', got[i], 0))
                continue
            near = self.near(X[i])
            if near is None:
                continue
            if proba is None:
                out.append(('prediction', got[i], np.mean(near) if p['agg'] == 'mean'
                            else np.median(near)))
                continue
            v = shares(near, p['nc'])
            g = np.zeros(max(p['nc'], len(proba[i])))
            g[:len(proba[i])] = proba[i]
            out.append(('shares of the neighbours', g, np.pad(v, (0, len(g) - len(v)))))
            top = np.sort(v)[::-1]
            if top[0] - top[1] > 1e-9:
                out.append(('prediction', got[i], int(np.argmax(v))))
            else:
                out.append(('share of the predicted class', v[int(got[i])], top[0]))
        return out


class Transform(Base):
    def build(self):
        from skmultiflow import transform
        p = self.plan
        if p['kind'] == 'MissingValuesCleaner':
            kw = dict(strategy=p['strategy'], window_size=p['size'], new_value=9)
            if p['code'] is not None:
                kw['missing_value'] = p['code']
        elif p['kind'] == 'OneHotToCategorical':
            # groups of columns [start, width]
            r = np.random.RandomState(p['dseed'] % 1000)
            self.groups, at = [], 0
            for _ in range(p['nf']):
                at += r.randint(0, 3)
                w = r.randint(2, 7)
                self.groups.append(list(range(at, at + w)))
                at += w
            self.width = at + r.randint(0, 3)
            kw = dict(categorical_list=self.groups)
        else:
            kw = dict(window_size=p['size'])
        self.obj = getattr(transform, p['kind'])(**kw)

    def reset(self):
        self.window = List(self.plan['size'])
        self.build()

    def rows(self, n):
        if self.plan['kind'] != 'OneHotToCategorical':
            return self.src.rows(n)
        X = self.src.r.randint(2, 9, size=(n, self.width)).astype(float)
        for i in range(n):
            for g in self.groups:
                X[i, g] = 0
                X[i, g[self.src.r.randint(len(g))]] = 1
        return X

    def add(self, n):
        X = self.rows(n)
        for x in X:
            self.put(x.copy())
        a = X.copy()
        self.obj.partial_fit(a)
        self.scribble(a)

    def ask(self, n):
        X = self.rows(n)
        want = [self.expect(x) for x in X]
        a = X.copy()
        got = self.obj.transform(a.tolist() if self.plan.get('aslist') else a)
        if not core.same(a, X):
            return [('argument', a, X)]
        self.scribble(a)
        return [('result', got, want)]

    def expect(self, x):
        kind = self.plan['kind']
        if kind == 'OneHotToCategorical':
            self.overflow = True
            out, j = [], 0
            for g in self.groups:
                out += x[j:g[0]].tolist() + [float(np.argmax(x[g]))]
                j = g[-1] + 1
            return out + x[j:].tolist()
        if kind == 'WindowedMinmaxScaler':               # only in a known finding
            W = np.array(self.window.items) if self.window.items else None
            lo, hi = (0.0, 1.0) if W is None else (W.min(0), W.max(0))
            self.put(x.copy())
            return ((x - lo) / np.where(hi == lo, 1.0, hi - lo)).tolist()
        if kind == 'WindowedStandardScaler':
            out = []
            for j, v in enumerate(x):
                col = [r[j] for r in self.window.items]
                mean, std = (np.mean(col), np.std(col)) if col else (0.0, 1.0)
                out.append((v - mean) / (std or 1.0))
            self.put(x.copy())
            return out
        self.put(x.copy())
        out = []
        for j, v in enumerate(x):
            if not self.missing(v):
                out.append(v)
                continue
            s = self.plan['strategy']
            col = sorted(r[j] for r in self.window.items if not self.missing(r[j]))
            if s == 'zero':
                out.append(0)
            elif s == 'custom' or not col:
                out.append(9)
            elif s == 'mean':
                out.append(sum(col) / len(col))
            elif s == 'median':
                out.append((col[(len(col) - 1) // 2] + col[len(col) // 2]) / 2)
            else:
                out.append(max(set(col), key=lambda u: (col.count(u), -u)))
        return out

    def missing(self, v):
        return bool(np.isnan(v)) or v == self.plan['code']


PROP = C19()
