"""Executable reference models of the drift detectors.

A model is a set of possible states: where a comparison of two floats is closer than rounding
errors can tell, both outcomes are kept and the observed reports decide (see `Model.step`).
"""
import copy
from math import inf, log, sqrt

TOL = 1e-9


class Choice:
    """Compares floats; consults `path` where the comparison is too close."""

    def __init__(self, path):
        self.path = list(path)
        self.used = 0

    def less(self, a, b):
        if a != b and inf not in (a, b) and abs(a - b) <= TOL * max(1.0, abs(a), abs(b)):
            # the path says where the comparison as computed here is to be overruled
            self.used += 1
            if self.used <= len(self.path):
                return (a < b) != self.path[self.used - 1]
        return a < b

    def leq(self, a, b):
        return not self.less(b, a)


class Model:
    """Set of states the detector may be in."""

    def __init__(self, kind, cfg):
        self.kind, self.cfg = kind, cfg
        self.reset()

    def reset(self):
        self.states = [self.kind(self.cfg)]

    def step(self, method, x, observed):
        """All states after the call; the ones that report what was observed survive.

        Returns None when one survives, otherwise the reports that were possible.
        """
        after = []
        for st in self.states:
            for s, r in outcomes(st, method, x):
                after.append((s, r))
        ok = [s for s, r in after if agree(r, observed)]
        if not ok:
            return [r for _, r in after]
        self.states = ok[:8]             # the exact one is never dropped
        return None


def outcomes(state, method, x):
    """The exact outcome first, then those with close comparisons overruled."""
    todo = [()]
    while todo:
        path = todo.pop(0)
        s, c = state.fork(method), Choice(path)
        r = getattr(s, method)(c, x)
        yield s, r
        for k in range(len(path), min(c.used, 4)):
            todo.append(path + (False,) * (k - len(path)) + (True,))


def agree(r, o):
    for k, v in r.items():
        if isinstance(v, bool) or v is None:
            if v is not o[k]:
                return False
        elif not abs(v - o[k]) <= 1e-7 * max(1.0, abs(v)):
            return False
    return True


class State:
    def fork(self, method):
        return copy.copy(self)               # all attributes are immutable


def report(change, warning, estimation):
    return dict(change=bool(change), warning=bool(warning), estimation=float(estimation))


class DDM(State):
    """Error rate and its deviation against the best point so far."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.change = False
        self.clear()

    def clear(self):
        self.n, self.p = 0, 1.0
        self.best = self.bp = self.bs = inf

    def add(self, c, x):
        if self.change:
            self.clear()
        self.n += 1
        self.p += (x - self.p) / self.n
        s = sqrt(max(0.0, self.p * (1 - self.p) / self.n))
        self.change = warning = False
        if self.n + 1 >= self.cfg['min_num_instances']:
            if c.leq(self.p + s, self.best):
                self.best, self.bp, self.bs = self.p + s, self.p, s
            self.change = c.less(self.bp + self.cfg['out_control_level'] * self.bs, self.p + s)
            warning = not self.change and c.less(
                self.bp + self.cfg['warning_level'] * self.bs, self.p + s)
        return report(self.change, warning, self.p)


class EDDM(State):
    """Distance between errors against its maximum so far."""

    def __init__(self, cfg):
        self.change = False
        self.clear()

    def clear(self):
        self.n = self.errors = self.last = 0
        self.mean = self.m2 = self.top = 0.0
        self.warning = False

    def add(self, c, x):
        if self.change:
            self.clear()
        self.change = False
        self.n += 1
        if x == 1:
            self.warning = False
            self.errors += 1
            d, self.last = self.n - self.last, self.n
            old = self.mean
            self.mean += (d - self.mean) / self.errors
            self.m2 += (d - self.mean) * (d - old)
            m2s = self.mean + 2 * sqrt(max(0.0, self.m2 / self.errors))
            if self.n + 1 >= 30:
                if c.less(self.top, m2s):
                    self.top = m2s
                elif self.errors > 30:
                    self.change = c.less(m2s / self.top, 0.9)
                    self.warning = not self.change and c.less(m2s / self.top, 0.95)
        return report(self.change, self.warning, self.mean)


class PageHinkley(State):
    def __init__(self, cfg):
        self.cfg = cfg
        self.change = False
        self.clear()

    def clear(self):
        self.n, self.mean, self.sum = 0, 0.0, 0.0

    def add(self, c, x):
        if self.change:
            self.clear()
        self.n += 1
        self.mean += (x - self.mean) / self.n
        self.sum = max(0.0, self.cfg['alpha'] * self.sum + (x - self.mean - self.cfg['delta']))
        self.change = self.n + 1 >= self.cfg['min_instances'] and \
            c.less(self.cfg['threshold'], self.sum)
        return report(self.change, False, self.mean)


class HDDM_A(State):
    """Averages with Hoeffding's bound."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.clear()
        self.cut = (0, 0)                    # elements since the cut point of the last change

    def clear(self):
        self.n = self.c = 0
        self.lo = self.hi = (0, 0)

    def add(self, c, x):
        dc, wc = self.cfg['drift_confidence'], self.cfg['warning_confidence']
        self.n += 1
        self.c += x
        if not self.lo[0]:
            self.lo = (self.n, self.c)
        if not self.hi[0]:
            self.hi = (self.n, self.c)

        def bound(n):
            return sqrt(log(1 / dc) / (2 * n))
        mean = self.c / self.n
        if c.leq(mean + bound(self.n), self.lo[1] / self.lo[0] + bound(self.lo[0])):
            self.lo = (self.n, self.c)
        if c.leq(self.hi[1] / self.hi[0] - bound(self.hi[0]), mean - bound(self.n)):
            self.hi = (self.n, self.c)
        change = self.grown(c, self.lo, dc, 1)
        warning = not change and self.grown(c, self.lo, wc, 1)
        if change:
            self.restart(self.lo)
        elif self.cfg['two_side_option'] and self.grown(c, self.hi, dc, -1):
            self.restart(self.hi)
        if self.n >= self.cut[0]:
            self.cut = (0, 0)
            est = self.c / self.n
        else:
            est = self.cut[1] / self.cut[0]
        return report(change, warning, est)

    def restart(self, at):
        self.cut = (self.n - at[0], self.c - at[1])
        self.clear()

    def grown(self, c, at, confidence, sign):
        n0, c0 = at
        if n0 == self.n:
            return False
        eps = sqrt((self.n - n0) / n0 / self.n / 2 * log(2 / confidence))
        return c.leq(eps, sign * (self.c / self.n - c0 / n0))


class HDDM_W(State):
    """Weighted averages with McDiarmid's bound.  With cfg['documented'] decreases count as well
    if the option is set: they never act in the implementation, which is a known finding."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.clear()

    def clear(self):
        self.total = self.s1 = self.s2 = self.d1 = self.d2 = None
        self.cut, self.dcut = inf, 0.0

    def ewma(self, s, x):
        lam = self.cfg['lambda_option']
        if s is None or s[0] < 0:
            return (x, 1)
        return (lam * x + (1 - lam) * s[0], lam * lam + (1 - lam) * (1 - lam) * s[1])

    def add(self, c, x):
        dc, wc = self.cfg['drift_confidence'], self.cfg['warning_confidence']
        self.total = self.ewma(self.total, x)
        b = self.total[0] + sqrt(self.total[1] * log(1 / dc) / 2)
        if c.less(b, self.cut):
            self.cut, self.s1, self.s2 = b, self.total, None
        else:
            self.s2 = self.ewma(self.s2, x)
        if self.grown(c, dc):
            self.clear()
            return report(True, False, 0.0)
        warning, est = self.grown(c, wc), self.total[0]
        if self.cfg.get('documented') and self.cfg['two_side_option']:
            b = self.total[0] - sqrt(self.total[1] * log(1 / dc) / 2)
            if c.less(self.dcut, b):
                self.dcut, self.d1, self.d2 = b, self.total, None
            else:
                self.d2 = self.ewma(self.d2, x)
            if self.above(c, self.d2, self.d1, dc):
                self.clear()
                return report(False, warning, -1.0)
        return report(False, warning, est)

    def grown(self, c, confidence):
        return self.above(c, self.s1, self.s2, confidence)

    def above(self, c, a, b, confidence):
        if a is None or b is None:
            return False
        return c.less(sqrt((a[1] + b[1]) * log(1 / confidence) / 2), b[0] - a[0])


class ADWIN(State):
    """Exponential histogram; rows[i] holds buckets of 2**i values, oldest first.

    A bucket is (values, variance): the variance is the one kept by the implementation, which
    drops a part of it when buckets are merged (a known finding).
    """

    def __init__(self, cfg):
        self.delta = cfg['delta']
        self.documented = cfg.get('documented')
        self.rows = [[]]
        self.window = []
        self.total = 0
        self.var = 0.0
        self.time = 0
        self.detections = 0
        self.change = False
        self.cuts = 0

    def fork(self, method):
        if method == 'add':                  # has no choices
            return self
        s = copy.copy(self)
        s.rows = [list(r) for r in self.rows]
        s.window = list(self.window)
        return s

    def add(self, c, x):
        n = len(self.window)
        if n:
            m = self.total / n
            self.var += n * (x - m) ** 2 / (n + 1)
        self.window.append(x)
        self.total += x
        self.rows[0].append(((x,), 0.0))
        i = 0
        while len(self.rows[i]) == 6:
            if i + 1 == len(self.rows):
                self.rows.append([])
            (a, va), (b, vb) = self.rows[i][:2]
            k = len(a)
            d = (sum(a) - sum(b)) / k
            self.rows[i + 1].append((a + b, vb + k * d * d / 2))
            del self.rows[i][:2]
            i += 1
        return self.report()

    def report(self):
        r = dict(change=self.change, warning=False, width=len(self.window),
                 total=float(self.total), n_detections=self.detections)
        r['estimation'] = r['total'] / r['width'] if r['width'] else 0.0
        if self.documented and self.window:
            r['variance'] = sum((v - r['estimation']) ** 2 for v in self.window) / r['width']
        elif not self.cuts and self.window:
            r['variance'] = self.var / r['width']
        return r

    def detect(self, c, _):
        self.time += 1
        self.change = False
        if self.time % 32 == 0 and len(self.window) > 10:
            while self.cut(c):
                self.drop()
                self.change = True
        self.detections += self.change
        return self.report()

    def cut(self, c):
        """Whether some cut of the histogram separates two parts that differ."""
        n0 = u0 = 0
        n1, u1 = len(self.window), self.total
        if self.var < -1e-6:
            return False
        for row in reversed(self.rows):
            for vals, _ in row[:-1]:
                n0 += len(vals)
                n1 -= len(vals)
                u0 += sum(vals)
                u1 -= sum(vals)
                if n0 < 5 or n1 < 5:
                    continue
                n = len(self.window)
                dd = log(2 * log(n) / self.delta)
                m = 1 / (n0 - 4) + 1 / (n1 - 4)
                eps = sqrt(max(0.0, 2 * m * self.var / n * dd)) + 2 / 3 * dd * m
                if c.less(eps, abs(u0 / n0 - u1 / n1)):
                    return True
        return False

    def drop(self):
        vals, v = self.rows[-1].pop(0)
        k = len(vals)
        del self.window[:k]
        self.total = sum(self.window)
        n = len(self.window)
        d = sum(vals) / k - self.total / n
        self.var -= v + k * n * d * d / (k + n)
        self.cuts += 1
        if not self.rows[-1] and len(self.rows) > 1:
            self.rows.pop()


KINDS = dict(DDM=DDM, EDDM=EDDM, PageHinkley=PageHinkley, HDDM_A=HDDM_A, HDDM_W=HDDM_W,
             ADWIN=ADWIN)
