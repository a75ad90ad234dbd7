"""C09: a finite stream delivers every row exactly once, in order, and counts correctly."""
import os
import shutil
import tempfile

import numpy as np

from sim import core, registry
from sim.core import Violation

KINDS = ['array', 'frame', 'frame_xy', 'file', 'temporal', 'Multilabel', 'Regression',
         'AnomalySine']


class Ref:
    pass


def build(p, scratch):
    """-> (stream, columns): columns are what next_sample has to return, row by row."""
    import pandas as pd
    from skmultiflow.data import DataStream, FileStream, TemporalDataStream
    kind = p['src']
    if kind in ('Multilabel', 'Regression', 'AnomalySine'):
        s = registry.streams()[kind]
        n = p['conf']['n_samples']
        t = s.make(p['conf'])
        X, y = t.next_sample(n)
        return s.make(p['conf']), [np.array(X), np.array(y)], {}
    rng = np.random.RandomState(p['dseed'])
    n, nf, nt = p['n'], p['nf'], p['nt']
    X = np.round(rng.uniform(-5, 5, size=(n, nf)) * 8) / 8
    Y = rng.randint(0, p['nc'], size=(n, nt)) if p['cls'] else \
        np.round(rng.uniform(-5, 5, size=(n, nt)) * 8) / 8
    y = Y[:, 0] if nt == 1 else Y
    attrs = {}
    if p['cls'] and kind != 'temporal':
        tv = [sorted(set(Y[:, j].tolist())) for j in range(nt)]
        attrs['target_values'] = tv[0] if nt == 1 else tv
    if kind == 'array':
        return DataStream(X.copy(), y.copy()), [X, y], attrs
    if kind == 'frame_xy':
        fx = pd.DataFrame(X, columns=['a%d' % j for j in range(nf)])
        fy = pd.DataFrame(Y, columns=['b%d' % j for j in range(nt)])
        attrs['feature_names'] = list(fx.columns)
        attrs['target_names'] = list(fy.columns)
        if p['shuffle_index']:
            perm = rng.permutation(n)
            fx.index = perm
        return DataStream(fx, fy), [X, y], attrs
    if kind in ('frame', 'file'):
        # the targets sit at an arbitrary position
        pos = p['pos'] % (nf + 1)
        cols = [('a%d' % j, X[:, j]) for j in range(nf)]
        tcols = [('b%d' % j, Y[:, j]) for j in range(nt)]
        allc = cols[:pos] + tcols + cols[pos:]
        idx = pos if not p['negative'] else pos - (nf + nt)
        attrs['feature_names'] = [c for c, _ in cols]
        attrs['target_names'] = [c for c, _ in tcols]
        if kind == 'frame':
            fr = pd.DataFrame(dict(allc))[[c for c, _ in allc]]
            if p['shuffle_index']:
                fr.index = rng.permutation(n)
            return DataStream(fr, target_idx=idx, n_targets=nt), [X, y], attrs
        path = os.path.join(scratch, 'data.csv')
        with open(path, 'w') as f:
            f.write(','.join(c for c, _ in allc) + '\n')
            for i in range(n):
                f.write(','.join(repr(v[i].item()) for _, v in allc) + '\n')
        return FileStream(path, target_idx=idx, n_targets=nt), [X, y], attrs
    # temporal
    w = rng.randint(1, 9, size=n) / 4.0 if p['weights'] else None
    base = np.datetime64('2021-03-01')
    t = base + np.cumsum(rng.randint(1, 4, size=n)).astype('timedelta64[D]')
    if p['tmode'] == 'int':
        d = p['delay']
        s = TemporalDataStream(X.copy(), y.copy(), sample_weight=w, sample_delay=d)
        return s, [X, y, np.arange(n), np.arange(n) + d, w], attrs
    if p['tmode'] == 'td':
        delay = np.timedelta64(p['delay'], 'D')
        av = t + delay
        arg = delay
    else:
        av = t + rng.randint(0, 20, size=n).astype('timedelta64[D]')
        arg = av.copy()
    X0, y0, t0, w0, ordered = X, y, t.copy(), w, True
    if p['shuffle_index']:
        perm = rng.permutation(n)
        X0, y0, t0 = X[perm], y[perm], t[perm]
        w0 = None if w is None else w[perm]
        arg = arg[perm] if isinstance(arg, np.ndarray) else arg
        ordered = False
    s = TemporalDataStream(X0.copy(), y0.copy(), t0.copy(), sample_weight=w0, sample_delay=arg,
                           ordered=ordered)
    return s, [X, y, t, av, w], attrs


class C09(core.Prop):
    ID = 'C09'
    RULE = ('one run = one finite stream (arrays, frames, CSV files, timed streams, finite '
            'generators) read through a random schedule of requests (also beyond its end), '
            'restarts and peeks, against the rows it was made of; non-trivial: at least three '
            'requests; distinct by source and schedule')
    ASSUMPTIONS = ['values are finite; timed rows have distinct arrival times']
    REAL = ['DataStream', 'FileStream', 'TemporalDataStream', 'MultilabelGenerator',
            'RegressionGenerator', 'AnomalySineGenerator']
    STUB = []
    QUICK_RUNS = 10000
    THOROUGH_RUNS = 150000
    SHRINK_LISTS = ('ops',)
    SHRINK_INTS = {'n': 1, 'nf': 1, 'nt': 1}
    SHRINK_TO = {'shuffle_index': False, 'weights': False, 'pos': 0, 'negative': False}

    def gen(self, rng, tier, index):
        src = KINDS[index % len(KINDS)]
        p = {'src': src, 'n': rng.choice([1, 2, 5, 20, 60]), 'nf': rng.choice([1, 2, 4]),
             'nt': rng.choice([1, 1, 2, 3]), 'nc': rng.choice([2, 3, 5]),
             'cls': rng.random() < 0.6, 'dseed': rng.randrange(2 ** 31),
             'pos': rng.choice([0, 1, 2, 99]), 'negative': rng.random() < 0.5,
             'shuffle_index': rng.random() < 0.4, 'weights': rng.random() < 0.5,
             'tmode': rng.choice(['int', 'td', 'array']), 'delay': rng.choice([0, 1, 7])}
        if p['pos'] == 99:
            p['pos'] = p['nf']
        if src in ('frame', 'file'):
            # targets at the very beginning of a negative index are ambiguous with the default
            if p['pos'] - (p['nf'] + p['nt']) == -1 and p['nt'] > 1:
                p['negative'] = False
        if src in ('Multilabel', 'Regression', 'AnomalySine'):
            p['conf'] = registry.streams()[src].conf(rng)
        ops = []
        for _ in range(rng.randint(3, 20)):
            k = rng.random()
            if k < 0.65:
                ops.append(['next', rng.choice([1, 1, 2, 3, 7, 20, 61, 250])])
            elif k < 0.78:
                ops.append(['restart'])
            else:
                ops.append(['last'])
        p['ops'] = ops
        return p

    def run(self, plan, ctx):
        scratch = tempfile.mkdtemp(prefix='c09-', dir=os.environ.get('VERIF_SCRATCH'))
        try:
            self.go(plan, ctx, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def go(self, plan, ctx, scratch):
        s, cols, attrs = build(plan, scratch)
        src = plan['src']
        n = len(cols[0])
        ctx.shape(src)
        for k, v in attrs.items():
            got = getattr(s, k)
            if list(got) != list(v):
                raise Violation('metadata', '%s: %s is %s, the data says %s' % (src, k, got, v),
                                src)
        fresh_last = s.last_sample()
        pos = 0
        last = None
        reqs = 0

        def counters():
            left = s.n_remaining_samples()
            if left != n - pos:
                raise Violation('remaining', '%s: reports %s remaining samples, %d of %d were '
                                'delivered' % (src, left, pos, n), src)
            if bool(s.has_more_samples()) != (pos < n):
                raise Violation('has-more', '%s: has_more_samples() is %s with %d of %d rows '
                                'delivered' % (src, s.has_more_samples(), pos, n), src)
        counters()
        for op in plan['ops']:
            ctx.shape(*op)
            if op[0] == 'next':
                k = min(op[1], n - pos)
                got = s.next_sample(op[1])
                reqs += 1
                if op[1] > k:
                    ctx.fault('request-beyond-end')
                if k == 0:
                    if got[0] is not None and len(got[0]):
                        raise Violation('delivered-twice', '%s: an exhausted stream delivered %d '
                                        'rows' % (src, len(got[0])), src)
                else:
                    if len(got) != len(cols):
                        raise Violation('shape', '%s: %d values returned' % (src, len(got)), src)
                    for j, (a, b) in enumerate(zip(got, cols)):
                        what = ('features', 'targets', 'arrival times', 'label times',
                                'weights')[j]
                        if b is None:
                            if a is not None:
                                raise Violation('rows', '%s: unexpected %s' % (src, what), src)
                            continue
                        want = b[pos:pos + k]
                        if a is None or not core.same(np.asarray(a), want):
                            raise Violation('rows', '%s: rows %d..%d: %s are %s, expected %s'
                                            % (src, pos, pos + k - 1, what, core.short(
                                                None if a is None else np.asarray(a)),
                                                core.short(want)), src)
                pos += k
                last = got
                ctx.ev('next', op[1], k, pos)
            elif op[0] == 'restart':
                s.restart()
                pos = 0
                last = None
                ctx.fault('restart')
            else:
                got = s.last_sample()
                if last is not None:
                    for a, b in zip(got, last):
                        if not (a is b or (a is not None and b is not None and core.same(a, b))):
                            raise Violation('last-sample', '%s: last_sample() is not the last '
                                            'batch' % src, src)
                elif got[0] is not None and fresh_last[0] is None:
                    raise Violation('last-sample', '%s: a restarted stream still has a last '
                                    'sample' % src, src)
            counters()
        ctx.nontrivial = reqs >= 3


PROP = C09()
