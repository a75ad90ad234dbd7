"""Reference models of the performance metrics: recomputed from the recorded history.

They are written from the documented definitions.  `hist` is the list of results in the
order they were reported: (y_true, y_pred, weight).  The window variants look at the last
`window` results.
"""
import math
from collections import Counter

import numpy as np


class RefClassification:
    """Single-output classification over the whole history or its last `window` results."""

    def __init__(self, window=None, n_classes=2):
        self.window = window
        self.init_classes = n_classes
        self.reset()

    def reset(self):
        self.classes = set(range(max(2, self.init_classes)))
        self.items = []
        self.last = (0, 0)

    def add(self, t, p, w=1.0):
        t, p = int(t), int(p)
        if self.window is not None and len(self.items) == self.window:
            self.items.pop(0)
        if w > 0:
            self.classes |= {t, p}
        self.items.append([t, p, w, False, t == self.last[0]])
        self.items[-1][3] = self.majority() == t
        self.last = (t, p)

    # ------------------------------------------------------------------
    def n(self):
        return len(self.items)

    def weight(self):
        return sum(i[2] for i in self.items)

    def row(self, c):
        return sum(w for t, p, w, _, _ in self.items if t == c and w > 0)

    def col(self, c):
        return sum(w for t, p, w, _, _ in self.items if p == c and w > 0)

    def tp(self, c):
        return sum(w for t, p, w, _, _ in self.items if t == c and p == c and w > 0)

    def majority(self):
        rows = Counter()
        for t, p, w, _, _ in self.items:
            if w > 0:
                rows[t] += w
        best, val = 0, 0.0
        for c in sorted(rows):
            if rows[c] > val:
                best, val = c, rows[c]
        return best

    def accuracy(self):
        return sum(w for t, p, w, _, _ in self.items if t == p) / self.weight() \
            if self.weight() > 0 else 0.0

    def _kappa(self, pe):
        if self.weight() == 0:
            return 0.0
        p0 = self.accuracy()
        return (p0 - pe) / (1 - pe) if pe != 1.0 else 0.0

    def kappa(self):
        if self.weight() == 0:
            return 0.0
        rows, cols = Counter(), Counter()
        for t, p, w, _, _ in self.items:
            if w > 0:
                rows[t] += w
                cols[p] += w
        n = self.weight()
        return self._kappa(sum((rows[c] / n) * (cols[c] / n) for c in rows))

    def kappa_t(self):
        n = self.weight()
        return self._kappa(sum(i[2] for i in self.items if i[4]) / n if n else 0.0)

    def kappa_m(self):
        n = self.weight()
        return self._kappa(sum(i[2] for i in self.items if i[3]) / n if n else 0.0)

    def _prec(self, c):
        d = self.col(c)
        return self.tp(c) / d if d > 0 else 0.0

    def _rec(self, c):
        d = self.row(c)
        return self.tp(c) / d if d > 0 else 0.0

    def _f1(self, c):
        p, r = self._prec(c), self._rec(c)
        return 2 * p * r / (p + r) if p + r > 0 else 0.0

    def _avg(self, f):
        if len(self.classes) == 2:
            return f(1)
        return sum(f(c) for c in self.classes) / len(self.classes)

    def precision(self):
        return self._avg(self._prec)

    def recall(self):
        return self._avg(self._rec)

    def f1(self):
        return self._avg(self._f1)

    def gmean(self):
        rs = [self._rec(c) for c in self.classes]
        if any(r == 0 for r in rs):
            return 0.0
        return math.exp(sum(math.log(r) for r in rs) / len(rs))

    METRICS = {'accuracy': ('accuracy', 'accuracy_score'), 'kappa': ('kappa', 'kappa_score'),
               'kappa_t': ('kappa_t', 'kappa_t_score'), 'kappa_m': ('kappa_m', 'kappa_m_score'),
               'precision': ('precision', 'precision_score'),
               'recall': ('recall', 'recall_score'), 'f1': ('f1', 'f1_score'),
               'gmean': ('gmean', 'geometric_mean_score')}


class RefMultiLabel:
    def __init__(self, window=None):
        self.window = window
        self.reset()

    def reset(self):
        self.items = []
        self.last = None

    def add(self, t, p, w=1.0):
        t = np.asarray(t)
        p = np.asarray(p)
        if np.isnan(t.astype(float)).any() or np.isnan(p.astype(float)).any():
            return
        if self.window is not None and len(self.items) == self.window:
            self.items.pop(0)
        self.items.append((t.astype(int), p.astype(int), w))
        self.last = (t, p)

    def hamming_score(self):
        d = sum(w * len(t) for t, p, w in self.items)
        return sum(w * int((t == p).sum()) for t, p, w in self.items) / d if d > 0 else 0.0

    def hamming_loss(self):
        return 1.0 - self.hamming_score()

    def exact_match(self):
        if not self.items:
            return 0.0
        return sum(bool((t == p).all()) for t, p, w in self.items) / len(self.items)

    def j_index(self):
        if not self.items:
            return 0.0
        s = 0.0
        for t, p, w in self.items:
            u = int(((t > 0) | (p > 0)).sum())
            if u:
                s += int(((t > 0) & (p > 0)).sum()) / u
        return s / len(self.items)

    METRICS = {'hamming_score': ('hamming_score', 'hamming_score'),
               'hamming_loss': ('hamming_loss', 'hamming_loss_score'),
               'exact_match': ('exact_match', 'exact_match_score'),
               'j_index': ('j_index', 'jaccard_score')}


class RefRegression:
    def __init__(self, window=None):
        self.window = window
        self.reset()

    def reset(self):
        self.items = []
        self.last = (None, None)

    def add(self, t, p, w=1.0):
        if self.window is not None and len(self.items) == self.window:
            self.items.pop(0)
        self.items.append((float(t), float(p)))
        self.last = (t, p)

    def mse(self):
        return sum((t - p) ** 2 for t, p in self.items) / len(self.items) if self.items else 0.0

    def mae(self):
        return sum(abs(t - p) for t, p in self.items) / len(self.items) if self.items else 0.0

    METRICS = {'mean_square_error': ('mse', 'get_mean_square_error'),
               'mean_absolute_error': ('mae', 'get_average_error')}


class RefMultiTarget:
    def __init__(self, window=None):
        self.window = window
        self.reset()

    def reset(self):
        self.items = []
        self.last = None

    def add(self, t, p, w=1.0):
        if self.window is not None and len(self.items) == self.window:
            self.items.pop(0)
        self.items.append((np.asarray(t, float), np.asarray(p, float)))
        self.last = (t, p)

    def _mean(self, f):
        return sum(f(t - p) for t, p in self.items) / len(self.items)

    def amse(self):
        return float(np.mean(self._mean(lambda d: d * d))) if self.items else 0.0

    def amae(self):
        return float(np.mean(self._mean(np.abs))) if self.items else 0.0

    def armse(self):
        return float(np.mean(np.sqrt(self._mean(lambda d: d * d)))) if self.items else 0.0

    METRICS = {'average_mean_square_error': ('amse', 'get_average_mean_square_error'),
               'average_mean_absolute_error': ('amae', 'get_average_absolute_error'),
               'average_root_mean_square_error': ('armse', 'get_average_root_mean_square_error')}


REF = {'clf': RefClassification, 'mlc': RefMultiLabel, 'reg': RefRegression,
       'mtr': RefMultiTarget}
