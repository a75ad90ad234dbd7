"""C21: a tree grows by the Hoeffding test on what reached each leaf, and answers from it.

The reference trees below keep the raw rows of every leaf and recompute every quantity from them
when it is needed (two-pass moments, exact counts); the trees under test keep running estimates.
Where a decision of the reference hangs on a difference smaller than the rounding of the running
estimates, the run ends there (Unclear).
"""
import copy
import math
import pickle
import warnings

import numpy as np

from skmultiflow.bayes import NaiveBayes
from skmultiflow.trees import HoeffdingTreeClassifier, HoeffdingTreeRegressor

from sim import core
from sim.core import Violation

KINDS = ['tree', 'tree', 'tree', 'tree', 'regressor', 'regressor', 'bayes']
EPS = 1e-9
NOTHING = 1e-6       # a reduction of the deviation that may be rounding only


class Unclear(Exception):
    """Rounding decides: the documented behaviour does not."""


def above(a, b):
    """a > b, when rounding does not decide it."""
    if a == b and (math.isinf(a) or float(a * 64).is_integer()):
        return False
    if math.isnan(a) or math.isnan(b):
        raise Unclear()
    if math.isinf(a) or math.isinf(b):
        return a > b
    if abs(a - b) <= EPS * max(1.0, abs(a), abs(b)):
        raise Unclear()
    return a > b


def top(votes):
    """The first label with the highest vote."""
    best = max(votes.values())
    keys = sorted(votes)
    first = next(k for k in keys if votes[k] == best)
    for k in keys:
        d = best - votes[k]
        if k != first and d <= 1e-8 * abs(best):
            if not (d == 0 and (best == 0 or float(best * 64).is_integer())):
                raise Unclear()
    if 0 < best < 1e-280:
        raise Unclear()
    return first


# ------------------------------------------------------------------ densities
class Moments:
    """Weighted mean and standard deviation of what was seen, from the values themselves."""

    def __init__(self, pairs):
        self.pairs = pairs
        self.w = math.fsum(w for _, w in pairs)
        self.same = len({v for v, _ in pairs}) == 1
        if self.same:
            self.mean, var = pairs[0][0], 0.0
        else:
            self.mean = math.fsum(v * w for v, w in pairs) / self.w
            ss = math.fsum(w * (v - self.mean) ** 2 for v, w in pairs)
            var = ss / (self.w - 1.0) if self.w > 1.0 else 0.0
        self.std = math.sqrt(var)
        self.low = min(v for v, _ in pairs)
        self.high = max(v for v, _ in pairs)

    def density(self, x):
        if self.std > 0:
            z = (x - self.mean) / self.std
            return math.exp(-z * z / 2) / (math.sqrt(2 * math.pi) * self.std)
        if not self.same and abs(x - self.mean) < 1e-9 * max(1.0, abs(x)):
            raise Unclear()
        return 1.0 if x == self.mean else 0.0

    def upto(self, x):
        """-> (weight of the values <= x, weight of the others)"""
        if x < self.low:
            return 0.0, self.w
        if x >= self.high:
            return self.w, 0.0
        if self.std > 0:
            low = self.w * 0.5 * math.erfc(-(x - self.mean) / self.std / math.sqrt(2))
        else:
            if abs(x - self.mean) < 1e-9 * max(1.0, abs(x)):
                raise Unclear()
            low = self.w if x > self.mean else 0.0
        return low, max(0.0, self.w - low)


def split_rows(rows, att):
    """{label: [(value, weight)]}"""
    out = {}
    for x, y, w in rows:
        out.setdefault(y, []).append((float(x[att]), w))
    return dict(sorted(out.items()))


def bayes(x, prior, rows, atts, nominal, memo=None):
    total = math.fsum(prior.values())
    if not prior or total == 0:
        return {0: 0.0}
    votes = {y: w / total for y, w in prior.items()}
    if not rows:
        return votes
    for a in atts:
        per = memo.setdefault(a, {}) if memo is not None else {}
        if not per:
            by = split_rows(rows, a)
            for y, pairs in by.items():
                if a in nominal:
                    t = {}
                    for v, w in pairs:
                        t[v] = t.get(v, 0.0) + w
                    per[y] = t
                else:
                    per[y] = Moments(pairs)
        for y in votes:
            m = per.get(y)
            if m is None:
                votes[y] = 0.0
            elif a in nominal:
                votes[y] *= (m.get(float(x[a]), 0.0) + 1.0) / (sum(m.values()) + len(m))
            else:
                votes[y] *= m.density(float(x[a]))
    return votes


# ------------------------------------------------------------------ split merits
def entropy(d):
    t = math.fsum(d.values())
    return -math.fsum(v / t * math.log2(v / t) for v in d.values() if v > 0) if t > 0 else 0.0


def info_gain(pre, post):
    ws = [math.fsum(d.values()) for d in post]
    t = math.fsum(ws)
    if t <= 0 or sum(above(w / t, 0.01) for w in ws) < 2:
        return -math.inf
    return entropy(pre) - math.fsum(w * entropy(d) for w, d in zip(ws, post)) / t


def gini(pre, post):
    ws = [math.fsum(d.values()) for d in post]
    t = math.fsum(ws)
    out = 0.0
    for w, d in zip(ws, post):
        g = 1.0 - math.fsum((v / w) ** 2 for v in d.values()) if w != 0 else 1.0
        out += w / t * g
    return 1.0 - out


def hellinger(pre, post):
    ws = [math.fsum(d.values()) for d in post]
    t = math.fsum(ws)
    if sum(above(w / t, 0.01) for w in ws) < 2:
        return -math.inf
    left, right = post[0], post[1]
    if any(k not in d for d in (left, right) for k in (0, 1)):
        return 0.0
    neg, pos = left[0] + right[0], left[1] + right[1]
    if neg <= 0 or pos <= 0:
        raise Unclear()
    return math.sqrt((math.sqrt(left[0] / neg) - math.sqrt(left[1] / pos)) ** 2
                     + (math.sqrt(right[0] / neg) - math.sqrt(right[1] / pos)) ** 2)


MERIT = {'info_gain': info_gain, 'gini': gini, 'hellinger': hellinger}


def deviation(d):
    n = int(d[0])
    var = (d[2] - d[1] * d[1] / n) / n
    return math.sqrt(var) if var > 0 else 0.0


def reduction(pre, post):
    """Standard deviation reduction; nothing is gained by branches of fewer than five samples."""
    if any(d[0] < 5.0 for d in post):
        return 0.0
    sd = [deviation(d) for d in post]
    if len(post) == 1 or deviation(pre) == 0 and not any(sd):
        return 0.0
    r = deviation(pre) - math.fsum(d[0] / pre[0] * s for d, s in zip(post, sd))
    return NOTHING if abs(r) < NOTHING else r


def gains(merit):
    """merit > 0, when rounding does not decide it."""
    if merit == NOTHING:
        raise Unclear()
    return merit > 0


# ------------------------------------------------------------------ tests at the inner nodes
class Test:
    def __init__(self, att, how, value):
        self.att, self.how, self.value = att, how, value

    def branch(self, x):
        v = float(x[self.att])
        if self.how == '<=':
            if v != self.value and abs(v - self.value) <= EPS * max(1.0, abs(v)):
                raise Unclear()
            return 0 if v <= self.value else 1
        if self.how == '=':
            return 0 if v == self.value else 1
        return self.value.get(v, -1)

    def condition(self, i):
        if self.how == '<=':
            return self.att, '<=' if i == 0 else '>', self.value
        if self.how == '=':
            return self.att, '=' if i == 0 else '!=', self.value
        return self.att, '=', next(v for v, b in self.value.items() if b == i)


class Inner:
    def __init__(self, test, stats):
        self.test, self.stats, self.children = test, stats, []


class Candidates:
    """The binary search tree of split points of a numeric attribute (E-BST): a node knows what
    passed to its left, itself included."""

    def __init__(self):
        self.root = None

    def add(self, v, y, w):
        new = [v, [w, w * y, w * y * y], None, None]
        if self.root is None:
            self.root = new
            return
        cur = self.root
        while True:
            if v <= cur[0]:
                cur[1] = [a + b for a, b in zip(cur[1], new[1])]
            if v == cur[0]:
                return
            side = 2 if v < cur[0] else 3
            if cur[side] is None:
                cur[side] = new
                return
            cur = cur[side]

    def walk(self, pre):
        """-> [(value, [left, right])] in order of the values"""
        out = []

        def go(n, left):
            if n is None:
                return
            go(n[2], left)
            here = [a + b for a, b in zip(left, n[1])]
            out.append((n[0], [here, [p - h for p, h in zip(pre, here)]]))
            go(n[3], here)
        go(self.root, [0.0, 0.0, 0.0])
        return out

    def prune(self, pre, ratio, sdr, bound):
        """Forget the candidates that are out of the running (those below none that is in it)."""
        def go(n, left):
            here = [a + b for a, b in zip(left, n[1])]
            if n[2] is not None:
                if not go(n[2], left):
                    return False
                n[2] = None
            if n[3] is not None:
                if not go(n[3], here):
                    return False
                n[3] = None
            m = reduction(pre, [here, [p - h for p, h in zip(pre, here)]])
            return above(ratio - 2 * bound, m / sdr)
        if self.root is not None and go(self.root, [0.0, 0.0, 0.0]):
            self.root = None


# ------------------------------------------------------------------ leaves
class Leaf:
    def __init__(self, ref, stats, active=True):
        self.ref = ref
        self.stats = stats                      # inherited and own
        self.active = active
        self.rows = []
        self.memo = {}
        self.off = set()
        self.exact = all(float(v * 64).is_integer() for v in stats.values()) \
            if isinstance(stats, dict) else True
        self.mc = self.nb = 0.0
        self.trees = {}
        self.tried = self.weight()

    def weight(self):
        if isinstance(self.stats, dict):
            return sum(self.stats.values())
        return self.stats[0] if self.stats else 0.0


class RefTree:
    """HoeffdingTreeClassifier."""

    def __init__(self, p):
        self.p = p
        self.nominal = set(p['nominal'] or ())
        self.clear()

    def clear(self):
        self.root = None
        self.classes = None
        self.growing = True
        self.seen = 0.0
        self.splits = self.tries = self.multi = 0

    # -------------------------------------------------- structure
    def empty(self):
        return {}

    def find(self, x):
        """-> (node, parent, branch): the leaf of x, or the inner node with no branch for it"""
        node, parent, b = self.root, None, -1
        while isinstance(node, Inner):
            i = node.test.branch(x)
            if i < 0:
                return node, parent, b
            node, parent, b = node.children[i], node, i
        return node, parent, b

    def put(self, parent, b, node):
        if parent is None:
            self.root = node
        else:
            parent.children[b] = node

    def leaves(self, node=None):
        node = node or self.root
        if node is None:
            return []
        if isinstance(node, Inner):
            return [l for c in node.children for l in self.leaves(c)]
        return [node]

    def inner(self, node=None):
        node = node or self.root
        if isinstance(node, Inner):
            return 1 + sum(self.inner(c) for c in node.children)
        return 0

    def depth(self, node=None):
        node = node or self.root
        if isinstance(node, Inner):
            return 1 + max(self.depth(c) for c in node.children)
        return 0

    # -------------------------------------------------- learning
    def learn(self, x, y, w):
        if w == 0:
            return
        self.seen += w
        if self.root is None:
            self.root = Leaf(self, self.empty())
        node, parent, b = self.find(x)
        if isinstance(node, Inner):             # a value its multiway test never met
            leaf = Leaf(self, self.empty())
            node.test.value[float(x[node.test.att])] = len(node.children)
            node.children.append(leaf)
            self.multi += 1
            self.teach(leaf, x, y, w)
            return
        self.teach(node, x, y, w)
        if not (self.growing and node.active):
            return
        waited = node.weight() - node.tried
        g = self.p['grace']
        if not node.exact and abs(waited - g) < EPS * max(1.0, node.weight()):
            raise Unclear()
        if waited >= g:
            self.attempt(node, parent, b)
            node.tried = node.weight()

    def teach(self, leaf, x, y, w):
        y = int(y)
        if self.p['leaf'] == 'nba' and leaf.active:
            if not leaf.stats:
                leaf.mc += w * (y == 0)
            elif self.majority(leaf) == y:
                leaf.mc += w
            if top(self.naive(leaf, x)) == y:
                leaf.nb += w
        leaf.stats[y] = leaf.stats.get(y, 0.0) + w
        leaf.stats = dict(sorted(leaf.stats.items()))
        if leaf.active:
            leaf.rows.append((x, y, w))
            leaf.memo = {}

    @staticmethod
    def majority(leaf):
        best = max(leaf.stats.values())
        if not leaf.exact:
            near = [k for k, v in leaf.stats.items() if best - v <= EPS * best]
            if len(near) > 1:
                raise Unclear()
        return min(k for k, v in leaf.stats.items() if v == best)

    def naive(self, leaf, x):
        atts = [a for a in range(len(x)) if a not in leaf.off]
        if leaf.off:
            raise Unclear()     # only leaves that do not answer by naive Bayes drop attributes
        return bayes(x, leaf.stats, leaf.rows, atts, self.nominal, leaf.memo)

    def pure(self, leaf):
        return sum(w != 0 for w in leaf.stats.values()) < 2

    def range(self, leaf):
        if self.p['criterion'] == 'gini':
            return 1.0
        return math.log2(max(2, len(leaf.stats)))

    def bound(self, leaf):
        r = self.range(leaf)
        return math.sqrt(r * r * math.log(1.0 / self.p['confidence']) / (2.0 * leaf.weight()))

    def null(self, leaf):
        return MERIT[self.p['criterion']](leaf.stats, [leaf.stats])

    def numeric(self, leaf, a):
        """-> [(test, children)] to try on a numeric attribute"""
        per = {y: Moments(pairs) for y, pairs in split_rows(leaf.rows, a).items()}
        low = min(m.low for m in per.values())
        high = max(m.high for m in per.values())
        step = (high - low) / 11.0
        for i in range(10):
            v = low + step * (i + 1)
            if not low < v < high:
                continue
            left, right = {}, {}
            for y, m in per.items():
                for e in (m.low, m.high):
                    if v != e and abs(v - e) < EPS * max(1.0, abs(v)):
                        raise Unclear()
                l, r = m.upto(v)
                if v >= m.low:
                    left[y] = l
                if v < m.high:
                    right[y] = r
            yield Test(a, '<=', v), [left, right]

    def categories(self, leaf, a):
        by = {}
        for x, y, w in leaf.rows:
            d = by.setdefault(float(x[a]), {})
            d[y] = d.get(y, 0.0) + w
        return {v: dict(sorted(d.items())) for v, d in sorted(by.items())}

    def others(self, leaf, by, v):
        rest = {}
        for u, d in by.items():
            if u != v:
                for y, w in d.items():
                    rest[y] = rest.get(y, 0.0) + w
        return dict(sorted(rest.items()))

    def discrete(self, leaf, a):
        by = self.categories(leaf, a)
        if len(by) < 2:
            return
        if not self.p['binary']:
            yield (Test(a, 'in', {v: i for i, v in enumerate(by)}),
                   [copy.copy(d) for d in by.values()])
        for v in list(by)[:1 if len(by) == 2 else None]:    # of two values, the tests are the same
            yield Test(a, '=', v), [copy.copy(by[v]), self.others(leaf, by, v)]

    def suggestions(self, leaf):
        """-> [(merit, test, children)], the null split first, then the best of each attribute"""
        out = []
        if not self.p['no_preprune']:
            out.append((self.null(leaf), None, None, False))
        merit = MERIT[self.p['criterion']]
        for a in range(self.p['nf']):
            if a in leaf.off or not leaf.rows:
                continue
            best = self.best((merit(leaf.stats, post), test, post) for test, post in
                             (self.discrete if a in self.nominal else self.numeric)(leaf, a))
            if best is not None:
                out.append(best)
        return out

    @staticmethod
    def best(tests):
        """The first test of an attribute with the highest merit (and whether that is a tie)."""
        best, tied = None, False
        for m, test, post in tests:
            if math.isnan(m):
                raise Unclear()
            if best is None or m > best[0]:
                near = best is not None and m - best[0] <= EPS * max(1.0, abs(m))
                tied = near
                best = (m, test, post)
            elif m != -math.inf and m != 0 and best[0] - m <= EPS * max(1.0, abs(m)):
                tied = True
        return best and best + (tied,)

    @staticmethod
    def rank(sugg):
        """Best last; of equals the later one wins."""
        order = sorted(range(len(sugg)), key=lambda i: (sugg[i][0], i))
        ranked = [sugg[i] for i in order]
        if len(ranked) > 1:
            a, b = ranked[-2], ranked[-1]
            if b[0] != a[0] and b[0] - a[0] <= EPS * max(1.0, abs(b[0])) or \
                    b[0] == a[0] and b[0] != 0 and not math.isinf(b[0]):
                ranked[-1] = b[:3] + (True,)
        return ranked

    def attempt(self, leaf, parent, b):
        self.tries += 1
        if self.pure(leaf):
            return
        ranked = self.rank(self.suggestions(leaf))
        go = False
        if len(ranked) < 2:
            go = len(ranked) > 0
        else:
            bound = self.bound(leaf)
            best = ranked[-1]
            gap = best[0] - ranked[-2][0]
            go = (not math.isnan(gap) and above(gap, bound)) or \
                above(self.p['tie'], bound)
            if self.p['poor']:
                for m, test, _, _ in ranked:
                    d = best[0] - m
                    if test is not None and not math.isnan(d) and above(d, bound) and \
                            self.p['leaf'] == 'mc':
                        leaf.off.add(test.att)
        if go:
            self.grow(leaf, parent, b, ranked[-1])

    def grow(self, leaf, parent, b, choice):
        _, test, post, tied = choice
        if tied:
            raise Unclear()
        if test is None:
            # the leaf is closed; with memory to spare it is opened again at once
            off = Leaf(self, leaf.stats, active=False)
            if self.p['stop']:
                self.growing = False
                self.put(parent, b, off)
            else:
                self.put(parent, b, Leaf(self, leaf.stats))
        else:
            node = Inner(test, leaf.stats)
            node.children = [Leaf(self, d) for d in post]
            self.put(parent, b, node)
            self.splits += 1
            if self.p['stop'] and any(not l.active for l in self.leaves()):
                self.growing = False

    # -------------------------------------------------- answers
    def votes(self, x):
        if self.root is None:
            return {}
        node, _, _ = self.find(x)
        if isinstance(node, Inner):
            return node.stats
        if not node.active or self.p['leaf'] == 'mc':
            return node.stats
        if self.p['leaf'] == 'nb':
            if not node.exact and abs(node.weight() - self.p['nb_threshold']) < EPS * (
                    1 + node.weight()):
                raise Unclear()
            return self.naive(node, x) if node.weight() >= self.p['nb_threshold'] else node.stats
        if node.mc > node.nb:
            return node.stats
        return self.naive(node, x)

    def proba(self, x):
        v = self.votes(x)
        if not v:
            return np.zeros(1)
        t = math.fsum(v.values())
        if 0 < t < 1e-250:
            raise Unclear()
        width = int(max(self.classes if self.classes is not None else v)) + 1
        out = np.zeros(width)
        for k, w in v.items():
            out[int(k)] = w / t if t != 0 else w
        return out

    def shape(self):
        """The tests and leaves, top down."""
        out = []

        def go(node, depth):
            if isinstance(node, Inner):
                for i, c in enumerate(node.children):
                    out.append((depth, 'if') + node.test.condition(i))
                    go(c, depth + 1)
            else:
                out.append((depth, 'leaf', dict(self.told(node))))
        if self.root is not None:
            go(self.root, 0)
        return out

    @staticmethod
    def told(leaf):
        return leaf.stats


class RefRegressor(RefTree):
    """HoeffdingTreeRegressor whose leaves answer the mean."""

    def empty(self):
        return []

    def teach(self, leaf, x, y, w):
        new = [w, w * y, w * y * y]
        leaf.stats = [a + b for a, b in zip(leaf.stats, new)] if leaf.stats else new
        if leaf.active:
            leaf.rows.append((x, y, w))
            for a in range(len(x)):
                if a not in self.nominal and a not in leaf.off:
                    leaf.trees.setdefault(a, Candidates()).add(float(x[a]), y, w)

    def range(self, leaf):
        return 1.0

    def null(self, leaf):
        return reduction(leaf.stats, [leaf.stats])

    def numeric(self, leaf, a):
        if a in leaf.trees:
            for v, post in leaf.trees[a].walk(leaf.stats):
                yield Test(a, '<=', v), post

    def discrete(self, leaf, a):
        by = {}
        for x, y, w in leaf.rows:
            d = by.setdefault(float(x[a]), [0.0, 0.0, 0.0])
            by[float(x[a])] = [p + q for p, q in zip(d, (w, w * y, w * y * y))]
        by = dict(sorted(by.items()))
        if len(by) < 2:
            return
        if not self.p['binary']:
            yield Test(a, 'in', {v: i for i, v in enumerate(by)}), list(by.values())
        for v, d in by.items():
            yield Test(a, '=', v), [d, [p - q for p, q in zip(leaf.stats, d)]]

    def suggestions(self, leaf):
        out = []
        if not self.p['no_preprune']:
            out.append((self.null(leaf), None, None, False))
        for a in range(self.p['nf']):
            if a in leaf.off:
                continue
            best = self.best((reduction(leaf.stats, post), test, post) for test, post in
                             (self.discrete if a in self.nominal else self.numeric)(leaf, a))
            if best is not None:
                out.append(best)
        return out

    def attempt(self, leaf, parent, b):
        self.tries += 1
        ranked = self.rank(self.suggestions(leaf))
        go = False
        if len(ranked) < 2:
            go = len(ranked) > 0 and gains(ranked[-1][0])
        else:
            bound = self.bound(leaf)
            best, second = ranked[-1][0], ranked[-2][0]
            if gains(best):
                ratio = second / best
                go = above(1 - bound, ratio) or above(self.p['tie'], bound)
                if self.p['poor']:
                    for m, test, _, _ in ranked:
                        if test is not None and above(ratio - 2 * bound, m / best):
                            leaf.off.add(test.att)
            if not go and best > 0 and gains(second):
                for a, t in leaf.trees.items():
                    if a not in leaf.off:
                        t.prune(leaf.stats, second / best, best, bound)
        if go:
            self.grow(leaf, parent, b, ranked[-1])

    def value(self, x):
        if self.root is None:
            return 0.0
        node, _, _ = self.find(x)
        if not node.stats:
            return 0.0
        return node.stats[1] / node.stats[0]

    @staticmethod
    def told(leaf):
        return dict(enumerate(leaf.stats))


class RefBayes:
    def __init__(self, p):
        self.nominal = set(p['nominal'] or ())
        self.clear()

    def clear(self):
        self.prior, self.rows, self.classes, self.memo = {}, [], None, {}

    def learn(self, x, y, w):
        if w == 0:
            return
        self.prior[int(y)] = self.prior.get(int(y), 0.0) + w
        self.rows.append((x, int(y), w))
        self.memo = {}

    def proba(self, x):
        if not self.prior:
            return np.zeros(1)
        v = bayes(x, self.prior, self.rows, range(len(x)), self.nominal, self.memo)
        t = math.fsum(v.values())
        if 0 < t < 1e-250:
            raise Unclear()
        out = np.zeros(int(max(self.classes if self.classes is not None else v)) + 1)
        for k, w in v.items():
            out[int(k)] = w / t if t else 0.0
        return out


# ------------------------------------------------------------------ data
class Source:
    """Rows whose label depends on the attributes, so that trees grow."""

    def __init__(self, plan):
        self.p = plan
        self.rng = np.random.RandomState(plan['dseed'])
        self.concept = 0
        self.cards = {int(k): v for k, v in plan['cards'].items()}

    def row(self):
        p, r = self.p, self.rng
        x = np.zeros(p['nf'])
        for a in range(p['nf']):
            if a in self.cards:
                x[a] = r.randint(self.cards[a])
            elif p['grid']:
                x[a] = r.randint(-p['grid'], p['grid'] + 1) / 8.0
            else:
                x[a] = round(float(r.normal(0, 1)), 3) + p['shift']
        for a in p['const']:
            x[a] = 2.0
        s = self.score(x)
        if p['kind'] == 'regressor':
            y = float(np.floor(s * 4 + r.randint(-p['noise'], p['noise'] + 1)) / 4)
        else:
            y = int(np.floor(abs(s))) % p['nc']
            if r.randint(100) < p['noise']:
                y = r.randint(p['nc'])
        w = p['weights'][r.randint(len(p['weights']))]
        return x, y, w

    def widen(self):
        """The nominal attributes take one more value from now on."""
        self.cards = {a: c + 1 for a, c in self.cards.items()}

    def score(self, x):
        a = (self.p['main'] + self.concept) % self.p['nf']
        b = (a + 1) % self.p['nf']
        va = x[a] * (1 if a in self.cards else 2)
        step = 1.0 if x[b] > (1 if b in self.cards else self.p['shift']) else 0.0
        return va + step * self.p['second']

    def query(self):
        x, _, _ = self.row()
        if self.rng.randint(6) == 0:
            a = self.rng.randint(self.p['nf'])
            x[a] = self.cards[a] + self.rng.randint(2) if a in self.cards else x[a] * 3
        return x


def rows_of(n, src):
    out = [src.row() for _ in range(n)]
    return (np.array([o[0] for o in out]), np.array([o[1] for o in out]),
            np.array([o[2] for o in out], dtype=float))


# ------------------------------------------------------------------ the property
class C21(core.Prop):
    ID = 'C21'
    RULE = ('one run = one Hoeffding tree (classifier or regressor) or naive Bayes with a drawn '
            'history of weighted training blocks, requests, resets, restores from a checkpoint, '
            'concept changes with new nominal values and overwriting of arrays by the caller; '
            'structure and answers are compared with a reference that keeps the raw rows of every '
            'leaf; non-trivial: a split was attempted (two classes seen, for naive Bayes) and an '
            'answer was given; distinct by configuration and history')
    ASSUMPTIONS = [
        'Where a decision hangs on a difference below the rounding of the running estimates '
        '(1e-9), the run is not followed further.',
        'Hellinger distance is compared for two classes and binary splits.',
        'Regression trees answer by the mean of the leaf (perceptron leaves are covered by C12 to '
        'C14), values and targets are multiples of 1/8 and 1/4.',
    ]
    REAL = ['HoeffdingTreeClassifier, HoeffdingTreeRegressor, NaiveBayes with all their nodes, '
            'attribute observers, split criteria and tests']
    STUB = ['source of the rows (simulated)', 'reference trees']
    QUICK_RUNS = 6000
    THOROUGH_RUNS = 150000
    CPU_LIMIT = 120
    SHRINK_LISTS = ['ops']

    def gen(self, rng, tier, index):
        kind = KINDS[index % len(KINDS)]
        nf = rng.choice([1, 2, 2, 3, 3, 4])
        nominal = sorted(a for a in range(nf) if rng.random() < 0.35)
        criterion = rng.choice(['info_gain', 'info_gain', 'gini', 'hellinger'])
        nc = 2 if criterion == 'hellinger' else rng.choice([2, 2, 3, 4])
        binary = rng.random() < 0.4 or criterion == 'hellinger'
        ops = []
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            if r < 0.62:
                ops.append(['train', rng.choice([1, 1, 5, 20, 40, 80])])
            elif r < 0.90:
                ops.append(['ask', rng.randint(1, 6)])
            elif r < 0.93:
                ops.append(['restore', rng.choice(['pickle', 'deepcopy'])])
            elif r < 0.945:
                ops.append(['reset'])
            else:
                ops.append(['drift'])
        weights = rng.choice([[1.0], [1.0], [1.0, 2.0], [1.0, 0.5, 0.0], [0.25, 3.0],
                              [1.0, 0.125], [4.0, 1.0]])
        grace = rng.choice([5, 10, 10, 20, 30])
        if rng.random() < 0.6:
            grace += 0.5
        return {
            'kind': kind, 'nf': nf, 'nominal': nominal if nominal or rng.random() < 0.5 else None,
            'cards': {str(a): rng.randint(2, 4) for a in nominal},
            'criterion': criterion, 'nc': nc, 'binary': binary,
            'grace': grace,
            'confidence': rng.choice([1e-7, 1e-3, 0.05, 0.2]),
            'tie': rng.choice([0.0, 0.05, 0.05, 0.2, 0.4]),
            'poor': rng.random() < 0.25, 'no_preprune': rng.random() < 0.3,
            'stop': rng.random() < 0.25,
            'leaf': rng.choice(['mc', 'nb', 'nba', 'nba']),
            'nb_threshold': rng.choice([0, 0, 15, 40]),
            'noise': rng.choice([0, 5, 20, 60]) if kind != 'regressor' else rng.choice([0, 1, 4]),
            'grid': rng.choice([0, 4, 16, 40]) if kind != 'regressor' else rng.choice([4, 16, 40]),
            'shift': rng.choice([0.0, 0.0, 10.0]), 'second': rng.choice([0, 1, 2, 3]),
            'const': [a for a in range(nf) if rng.random() < 0.5] if rng.random() < 0.1 else [],
            'main': rng.randint(0, 3), 'weights': weights,
            'given_weights': rng.random() < 0.7 or weights != [1.0],
            'announce': rng.random() < 0.5, 'wide': rng.random() < 0.3,
            'scribble': rng.random() < 0.4, 'ytype': rng.choice(['int', 'float']),
            'dseed': rng.randint(0, 2 ** 31), 'chunk': rng.choice([1, 7, 1000]),
            'ops': ops + [['ask', 8]],
        }

    def make(self, p):
        if p['kind'] == 'bayes':
            return NaiveBayes(nominal_attributes=p['nominal'])
        common = dict(grace_period=p['grace'], split_confidence=p['confidence'],
                      tie_threshold=p['tie'], binary_split=p['binary'],
                      remove_poor_atts=p['poor'], no_preprune=p['no_preprune'],
                      stop_mem_management=p['stop'], nominal_attributes=p['nominal'])
        if p['kind'] == 'regressor':
            return HoeffdingTreeRegressor(leaf_prediction='mean', **common)
        return HoeffdingTreeClassifier(split_criterion=p['criterion'], leaf_prediction=p['leaf'],
                                       nb_threshold=p['nb_threshold'], **common)

    def run(self, plan, ctx):
        warnings.simplefilter('ignore')
        p = dict(plan)
        src = Source(p)
        obj = self.make(p)
        ref = {'tree': RefTree, 'regressor': RefRegressor, 'bayes': RefBayes}[p['kind']](p)
        ctx.shape(*[p[k] for k in ('kind', 'nf', 'criterion', 'leaf', 'binary', 'grace', 'poor',
                                   'no_preprune', 'stop', 'tie', 'confidence')])
        asked = 0
        try:
            for n, op in enumerate(p['ops']):
                ctx.shape(*op)
                if op[0] == 'restore':
                    obj = pickle.loads(pickle.dumps(obj)) if op[1] == 'pickle' \
                        else copy.deepcopy(obj)
                    ctx.fault('restore')
                elif op[0] == 'reset':
                    obj.reset()
                    ref.clear()
                    if p['kind'] == 'bayes':
                        obj = self.make(p)      # naive Bayes forgets by being built again
                    ctx.fault('reset')
                elif op[0] == 'drift':
                    src.concept += 1
                    src.widen()
                    ctx.fault('drift')
                elif op[0] == 'train':
                    self.train(p, ctx, obj, ref, src, op[1], n)
                    self.compare(p, ctx, obj, ref, n)
                else:
                    self.ask(p, ctx, obj, ref, src, op[1], n)
                    asked += 1
        except Unclear:
            ctx.probe('runs left where rounding decides')
        if p['kind'] == 'bayes':
            ctx.nontrivial = asked > 0 and len(ref.prior) > 1
        else:
            ctx.probe('split attempts', ref.tries)
            ctx.probe('splits', ref.splits)
            ctx.probe('new branches of multiway tests', ref.multi)
            ctx.nontrivial = asked > 0 and ref.tries > 0

    def train(self, p, ctx, obj, ref, src, n, step):
        X, y, w = rows_of(n, src)
        if p['ytype'] == 'float':
            y = y.astype(float)
        if not p['given_weights']:
            w = np.ones(n)
        i = 0
        while i < n:
            j = min(n, i + p['chunk'])
            kw = {}
            if p['given_weights']:
                kw['sample_weight'] = w[i:j].copy()
            if p['announce'] and p['kind'] != 'regressor':
                kw['classes'] = list(range(p['nc'] + (2 if p['wide'] else 0)))
                if ref.classes is None:
                    ref.classes = kw['classes']
            bx, by = X[i:j].copy(), y[i:j].copy()
            obj.partial_fit(bx, by, **kw)
            if p['scribble']:
                bx[:] = 77.0
                by[:] = 0
                ctx.fault('buffer-reuse')
            i = j
        ctx.ev('train', step, X, y)
        for x, yy, ww in zip(X, y, w):
            ref.learn(x, float(yy) if p['kind'] == 'regressor' else int(yy), float(ww))

    def ask(self, p, ctx, obj, ref, src, n, step):
        X = np.array([src.query() for _ in range(n)])
        if p['kind'] == 'regressor':
            want = np.array([ref.value(x) for x in X])
            got = np.asarray(obj.predict(X.copy()), dtype=float)
            ctx.ev('ask', step, got)
            if not core.same(got, want, 1e-7, 1e-7):
                raise Violation('answer', 'predict after %d operations: %s, the means of the '
                                'leaves are %s' % (step, core.short(got), core.short(want)),
                                p['kind'])
            return
        rows = [ref.proba(x) for x in X]
        width = max(len(r) for r in rows)
        want = np.array([np.r_[r, np.zeros(width - len(r))] for r in rows])
        got = np.asarray(obj.predict_proba(X.copy()), dtype=float)
        labels = np.asarray(obj.predict(X.copy()))
        ctx.ev('ask', step, got, labels)
        if not core.same(got, want, 1e-6, 1e-9):
            raise Violation('answer', 'predict_proba after %d operations: %s, from the rows that '
                            'reached the leaves %s' % (step, core.short(got), core.short(want)),
                            p['kind'])
        for i, (l, r) in enumerate(zip(labels, want)):
            best = r.max()
            if l < 0 or l >= len(r) or r[int(l)] < best * (1 - 1e-6) - 1e-12:
                raise Violation('answer', 'predict after %d operations says %s for row %d whose '
                                'probabilities are %s' % (step, l, i, core.short(r)), p['kind'])

    def compare(self, p, ctx, obj, ref, step):
        if p['kind'] == 'bayes':
            return
        leaves = ref.leaves()
        inner = ref.inner()
        m = obj.model_measurements if not callable(getattr(obj, 'get_model_measurements', None)) \
            else obj.get_model_measurements()
        want = {'Tree size (nodes)': inner + len(leaves), 'Tree size (leaves)': len(leaves),
                'Active learning nodes': sum(l.active for l in leaves), 'Tree depth': ref.depth()}
        got = {k: m[k] for k in want}
        ctx.ev('tree', step, *sorted(got.items()))
        if got != want:
            raise Violation('structure', 'after %d operations the tree measures %s; the Hoeffding '
                            'tests on the rows that reached its leaves give %s'
                            % (step, got, want), p['kind'])
        if leaves and inner:
            self.described(p, obj, ref, step)

    def described(self, p, obj, ref, step):
        text = obj.get_model_description()
        got = []
        try:
            for line in text.split('\n'):
                if not line.strip():
                    continue
                depth = (len(line) - len(line.lstrip())) // 2
                t = line.split()
                if t[0] == 'if':
                    got.append((depth, 'if', int(t[2]), t[3], float(t[4].rstrip(':'))))
                else:
                    got.append((depth, 'leaf'))
        except (AttributeError, ValueError, IndexError):
            raise Violation('structure', 'the description of the tree cannot be read: %s'
                            % core.short(text), p['kind'])
        want = ref.shape()
        if len(got) != len(want):
            raise Violation('structure', 'after %d operations the description of the tree has %d '
                            'lines, expected %d' % (step, len(got), len(want)), p['kind'])
        for g, w in zip(got, want):
            ok = g[:2] == w[:2]
            if ok and g[1] == 'if':
                ok = g[2:4] == w[2:4] and abs(g[4] - w[4]) <= 1e-6 * max(1.0, abs(w[4]))
            if not ok:
                raise Violation('structure', 'after %d operations the tree says %s where the '
                                'Hoeffding tests give %s' % (step, g, w), p['kind'])


PROP = C21()
