"""C13: the model does not depend on how the training data is cut into batches."""
import numpy as np

from sim import actors, core
from sim.core import Violation
from sim.props.c12 import pad

# these train on the batch as a whole by design (solver epochs per call, resampling per call,
# statistics of the batch), or start from statistics of their first batch
BATCH_LEARNERS = {'PerceptronMask', 'RSLVQ', 'OzaBaggingADWIN', 'OnlineBoosting', 'OnlineAdaC2',
                  'OnlineCSB2', 'OnlineRUSBoost', 'OnlineSMOTEBagging', 'OnlineUnderOverBagging',
                  'MultiOutputLearner_sk', 'ClassifierChain', 'ProbClassifierChain',
                  'MCClassifierChain', 'RegressorChain', 'MultiOutputRegressor', 'DWM'}


def cuts_of(sizes, n):
    """Batches that cover 0..n."""
    out, i, k = [], 0, 0
    while i < n:
        s = max(1, sizes[k % len(sizes)]) if sizes else n
        out.append((i, min(n, i + s)))
        i += s
        k += 1
    return out


def train(plan, part, gseed):
    core.seed_globals(gseed)
    a = actors.Actor(plan['actor'])
    n = plan['n']
    marks = set(plan['marks'])
    answers = []
    batches = []
    for lo, hi in cuts_of(part['sizes'], n):
        # both partitions are cut where the model is compared
        inner = sorted(m for m in marks if lo < m < hi)
        for x, y in zip([lo] + inner, inner + [hi]):
            batches.append((x, y))
    if part.get('head'):
        h = part['head']
        batches = [(0, h)] + [(max(lo, h), hi) for lo, hi in batches if hi > h]
    first = True
    for lo, hi in batches:
        kw = {}
        if a.classes is not None and (first or part['classes']):
            c = list(a.classes)
            kw['classes'] = np.array(c) if part['array'] else c
        if part['weights'] == 'unit':
            kw['sample_weight'] = np.ones(hi - lo)
        elif part['weights'] == 'own':
            kw['sample_weight'] = a.w[lo:hi].copy()
        X, y = a.X[lo:hi].copy(), a.y[lo:hi].copy()
        if part['list']:
            y = list(y)
        a.obj.partial_fit(X, y, **kw)
        first = False
        if (hi in marks and hi > part.get('head', 0)) or hi == n:
            answers.append((hi, ask(a)))
    return answers


def ask(a):
    X = a.Q[:16].copy()
    out = [np.array(a.obj.predict(X))]
    if a.l.proba:
        out.append(pad([actors.norm_proba(a.obj.predict_proba(X))])[0])
    return out


class C13(core.Prop):
    ID = 'C13'
    RULE = ('one run = one incremental learner trained on one sample sequence twice, in two '
            'processes, cut into batches in two drawn ways (with the classes announced at every '
            'call or only the first, unit weights or none, the same weights cut the same way); '
            'predictions compared at drawn points; non-trivial: the partitions differ; distinct by '
            'learner and partitions')
    ASSUMPTIONS = ['learners that by design train on a batch as a whole are left out: '
                   + ', '.join(sorted(BATCH_LEARNERS))]
    REAL = ['the incremental learners of the registry']
    STUB = []
    QUICK_RUNS = 1600
    THOROUGH_RUNS = 40000
    SHRINK_LISTS = ('marks',)
    SHRINK_INTS = {'n': 1}

    def gen(self, rng, tier, index):
        names = actors.share(sorted(actors.learner_table()))
        name = names[index % len(names)]
        a = actors.gen_learner(rng, [name])
        n = rng.choice([20, 60, 120, 240])
        wmode = rng.choice(['none', 'none', 'unit', 'own'])
        if name in actors.NO_WEIGHTS:
            wmode = 'none'

        def sizes():
            r = rng.random()
            if r < 0.3:
                return [1]
            if r < 0.5:
                return [n]
            return [rng.choice([1, 1, 2, 3, 7, 16, 50]) for _ in range(6)]
        parts = []
        for k in range(2):
            w = 'own' if wmode == 'own' else ('unit' if wmode == 'unit' and k == 1 else 'none')
            parts.append(dict(sizes=sizes(), classes=rng.random() < 0.5, weights=w,
                              array=rng.random() < 0.3, list=False))
        if name in BATCH_LEARNERS:
            # the batches are part of their input: only the way the rest is told differs
            parts[1]['sizes'] = list(parts[0]['sizes'])
        if name in actors.NEEDS_FIT:
            n = min(n, 200) + actors.PREFIT
            for q in parts:
                q['head'] = actors.PREFIT
        marks = sorted({rng.randrange(1, n) for _ in range(rng.choice([0, 1, 3]))})
        return dict(actor=a, n=n, parts=parts, marks=marks)

    def run(self, plan, ctx):
        name = plan['actor']['name']
        p, q = plan['parts']
        ctx.shape(name, p['sizes'], q['sizes'], plan['n'], p['weights'], q['weights'])
        one = core.in_child(lambda: train(plan, p, plan['gseed']))
        two = core.in_child(lambda: train(plan, q, plan['gseed'] + 1))
        ctx.probe('weights:%s/%s' % (p['weights'], q['weights']))
        for (m, x), (_, y) in zip(one, two):
            for how, u, v in zip(('predict', 'proba'), x, y):
                ctx.ev(how, m, u)
                if how == 'proba' and u.ndim == 2 and v.ndim == 2:
                    u, v = pad([u, v])
                if not core.same(u, v, 1e-9, 1e-9):
                    raise Violation('partition', 'after %d samples %s of %s is %s with batches of '
                                    '%s and %s with batches of %s' % (
                                        m, how, name, core.short(u), describe(p),
                                        core.short(v), describe(q)), name)
        ctx.nontrivial = cuts_of(p['sizes'], plan['n']) != cuts_of(q['sizes'], plan['n']) or p != q


def describe(p):
    return '%s%s' % (p['sizes'], '' if p['weights'] == 'none' else ' (%s weights)' % p['weights'])


PROP = C13()
