"""C15: a performance metric equals its definition over the results it has been given."""
import numpy as np

from sim import core
from sim.core import Violation
from sim.refmetrics import REF

KINDS = ('clf', 'clf', 'mlc', 'reg', 'mtr')


def build(p):
    from skmultiflow import metrics as M
    k, w = p['kind'], p['window']
    if k == 'clf':
        kw = {} if p['declare'] is None else dict(n_classes=p['declare'])
        return M.ClassificationPerformanceEvaluator(**kw) if w is None else \
            M.WindowClassificationPerformanceEvaluator(window_size=w, **kw)
    if k == 'mlc':
        kw = {} if p['declare'] is None else dict(n_labels=p['width'])
        return M.MultiLabelClassificationPerformanceEvaluator(**kw) if w is None else \
            M.WindowMultiLabelClassificationPerformanceEvaluator(window_size=w, **kw)
    if k == 'reg':
        return M.RegressionMeasurements() if w is None else \
            M.WindowRegressionMeasurements(window_size=w)
    return M.MultiTargetRegressionMeasurements() if w is None else \
        M.WindowMultiTargetRegressionMeasurements(window_size=w)


def reference(p):
    if p['kind'] == 'clf':
        return REF['clf'](p['window'], 2 if p['declare'] is None else p['declare'])
    return REF[p['kind']](p['window'])


def values(kind, impl, ref):
    """Pairs (name, reported, expected)."""
    out = []
    for name, (r, m) in REF[kind].METRICS.items():
        out.append((name, float(getattr(impl, m)()), float(getattr(ref, r)())))
    if kind == 'clf':
        for c in sorted(ref.classes):
            out.append(('precision of %d' % c, impl.precision_score(c), ref._prec(c)))
            out.append(('recall of %d' % c, impl.recall_score(c), ref._rec(c)))
            out.append(('f1 of %d' % c, impl.f1_score(c), ref._f1(c)))
        out.append(('majority class', impl.majority_class(), ref.majority()))
        out.append(('n_samples', impl.n_samples, ref.n()))
        out.append(('last true', impl.get_last()[0], ref.last[0]))
        out.append(('last predicted', impl.get_last()[1], ref.last[1]))
    elif kind == 'mlc':
        out.append(('n_samples', impl.n_samples, len(ref.items)))
    return out


class C15(core.Prop):
    ID = 'C15'
    RULE = ('one run = one performance evaluator (whole stream or sliding window) under a drawn '
            'history of results, resets, emerging classes, weights and reads, with the arrays '
            'passed to it overwritten by the caller afterwards; after every read all scores are '
            'recomputed from the recorded history; non-trivial: at least one read after a result; '
            'distinct by evaluator and operations')
    ASSUMPTIONS = ['values and weights are multiples of 1/8, so that sums are exact; scores are '
                   'compared to 1e-9',
                   'the evaluators deprecated since version 0.6 are left out']
    REAL = ['ClassificationPerformanceEvaluator, MultiLabelClassificationPerformanceEvaluator, '
            'RegressionMeasurements, MultiTargetRegressionMeasurements and their window variants']
    STUB = []
    QUICK_RUNS = 6000
    THOROUGH_RUNS = 200000
    SHRINK_LISTS = ('ops',)

    def gen(self, rng, tier, index):
        kind = KINDS[index % len(KINDS)]
        p = dict(kind=kind, window=rng.choice([None, 1, 2, 3, 7, 20, 50]),
                 declare=rng.choice([None, None, 2, 3, 5]), width=rng.choice([2, 3, 4]),
                 weights=rng.choice(['none', 'none', 'mixed', 'zero']),
                 scribble=rng.random() < 0.5)
        ncl = rng.choice([2, 2, 3, 5])
        late = rng.random() < 0.4               # classes that only appear later
        good = rng.choice([0.0, 0.5, 0.9, 1.0])
        # the result of an overflow of the window depends on runs of equal results
        runs = rng.random() < 0.4
        ops, n = [], rng.choice([3, 10, 40, 120])
        t = q = None
        for k in range(n):
            r = rng.random()
            if r < 0.03:
                ops.append(['reset'])
                continue
            if r < 0.2:
                ops.append(['get'])
                continue
            if t is None or not runs or rng.random() < 0.2:
                t = self.value(rng, p, ncl if not late or k > n // 2 else 2)
                q = t if rng.random() < good else self.value(rng, p, ncl)
            w = None
            if p['weights'] != 'none':
                w = rng.choice([1, 1, 2, 0.5, 3.25] + ([0, 0] if p['weights'] == 'zero' else []))
            ops.append(['add', t, q, w])
        ops.append(['get'])
        p['ops'] = ops
        return p

    @staticmethod
    def value(rng, p, ncl):
        k = p['kind']
        if k == 'clf':
            return rng.randrange(ncl)
        if k == 'mlc':
            return [rng.randrange(2) for _ in range(p['width'])]
        if k == 'reg':
            return rng.randrange(-80, 80) / 8
        return [rng.randrange(-80, 80) / 8 for _ in range(p['width'])]

    def run(self, plan, ctx):
        impl, ref = build(plan), reference(plan)
        kind = plan['kind']
        who = type(impl).__name__
        ctx.shape(kind, plan['window'], plan['declare'])
        t = np.zeros(plan['width'], dtype=int if kind == 'mlc' else float)
        q = t.copy()
        since = None
        for n, op in enumerate(plan['ops']):
            ctx.shape(op[0], op[1:])
            if op[0] == 'reset':
                impl.reset()
                ref.reset()
                ctx.fault('reset')
                continue
            if op[0] == 'add':
                kw = {}
                if op[3] is not None and kind in ('clf', 'mlc'):
                    kw['sample_weight'] = op[3]
                if kind in ('clf', 'reg'):
                    impl.add_result(op[1], op[2], **kw)
                elif plan['scribble']:
                    # the caller passes the same two arrays every time
                    t[:], q[:] = op[1], op[2]
                    impl.add_result(t, q, **kw)
                    ctx.fault('buffer-reuse')
                else:
                    impl.add_result(np.array(op[1]), np.array(op[2]), **kw)
                ref.add(op[1], op[2], **({} if not kw else {'w': op[3]}))
                since = True
                continue
            got = values(kind, impl, ref)
            ctx.ev('get', n, [float(v) for _, v, _ in got])
            for name, v, e in got:
                if not core.same(np.float64(v), np.float64(e), 1e-9, 1e-9):
                    raise Violation('score', '%s of %s (window %s) is %r after %d operations, by '
                                    'its definition %r' % (name, who, plan['window'], v, n, e),
                                    who)
            if since:
                ctx.nontrivial = True


PROP = C15()
