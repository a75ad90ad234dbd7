"""C12: asking a model for predictions changes nothing, and each row is answered on its own."""
import numpy as np

from sim import actors, core
from sim.core import Violation

# predictions are drawn at random by design
RANDOM_ANSWERS = {'MCClassifierChain'}


class Careless(actors.Actor):
    """A user who reuses its arrays: everything handed over or received is overwritten."""
    reuse = False

    def fit(self, X, y, w=None):
        Xc, yc, wc = X.copy(), y.copy(), None if w is None else w.copy()
        cl = None if self.classes is None else list(self.classes)
        super().fit(X, y, w)
        self.unchanged('training features', X, Xc)
        self.unchanged('training labels', y, yc)
        if w is not None:
            self.unchanged('sample weights', w, wc)
        if cl != (None if self.classes is None else list(self.classes)):
            raise Violation('caller-data', 'the list of classes was changed', self.spec['name'])
        if self.reuse:
            X[...] = 0.123
            y[...] = y.flat[0]
            if w is not None:
                w[...] = 9

    def unchanged(self, what, now, before):
        if not core.same(now, before):
            raise Violation('caller-data', '%s changed the caller\'s %s from %s to %s'
                            % (self.spec['name'], what, core.short(before), core.short(now)),
                            self.spec['name'])

    def answer(self, X, how):
        before = X.copy()
        r = getattr(self.obj, 'predict' if how == 'predict' else 'predict_proba')(X)
        self.unchanged('query features', X, before)
        n = -1 if r is None else len(r)
        if n != len(X):
            raise Violation('row-count', '%s of %s answered %d rows with %d' % (
                how, self.spec['name'], len(X), n), self.spec['name'])
        try:
            out = np.array(r) if how == 'predict' else np.array(r, dtype=float)
        except (ValueError, TypeError):
            raise Violation('no-table', 'the probabilities %s gives for %d rows are no table: %s'
                            % (self.spec['name'], len(X), core.short([list(x) for x in r])),
                            self.spec['name'])
        if self.reuse and isinstance(r, np.ndarray) and r.flags.writeable:
            r[...] = 0
        return out


def pad(rows):
    """Probability rows of different width: classes nobody voted for."""
    w = max(r.shape[-1] for r in rows)
    out = []
    for r in rows:
        r = np.nan_to_num(r, nan=0.0) if r.dtype.kind == 'f' else r
        if r.ndim == 2 and r.shape[1] < w:
            r = np.concatenate([r, np.zeros((r.shape[0], w - r.shape[1]))], axis=1)
        out.append(r)
    return out


def drive(plan, ask):
    core.seed_globals(plan['gseed'] if ask else plan['gseed'] + 5)
    a = Careless(plan['actor'])
    a.reuse = ask and plan['reuse']
    name = plan['actor']['name']
    log = []
    for n, op in enumerate(plan['ops']):
        if op[0] in ('fit', 'fitw'):
            try:
                a._do(op)
            except Violation:
                raise
            except Exception as e:
                if not core.through_repo(e):
                    raise
                # not a matter of this property; the history has to be the same without queries
                log.append((n, 'exc', type(e).__name__))
                if ask:
                    raise Skip(type(e).__name__)
                return log, []
            continue
        if not ask or not a.ready():
            continue
        rows = np.array(op[1])
        X = a.Q[rows].copy()
        how = op[0] if a.l.proba else 'predict'
        whole = a.answer(X.copy(), how)
        again = a.answer(X.copy(), how)
        single = [a.answer(X[i:i + 1].copy(), how) for i in range(len(rows))]
        back = a.answer(X[::-1].copy(), how)
        cut = len(rows) // 2
        parts = [a.answer(x.copy(), how) for x in (X[:cut], X[cut:]) if len(x)]
        if how == 'proba' and whole.ndim == 2:
            allr = pad([whole, again, back] + single + parts)
            whole, again, back = allr[:3]
            single, parts = allr[3:3 + len(single)], allr[3 + len(single):]
        log.append((n, how, whole))
        for what, other in (('asked again', again), ('row by row', np.concatenate(single)),
                            ('in reverse order', back[::-1]),
                            ('in two parts', np.concatenate(parts))):
            if not core.same(whole, other, *plan['tol']):
                raise Violation('answer-depends', '%s of %s for rows %s is %s, and %s %s' % (
                    how, name, op[1], core.short(whole), what, core.short(other)), name)
        if how == 'predict' and a.l.kind in ('clf', 'mlc', 'anom'):
            # classes nobody has seen may not be invented
            bad = [v for v in np.ravel(whole).tolist() if v not in a.classes and v != 0]
            if bad:
                raise Violation('unknown-class', '%s predicts %s, known classes are %s'
                                % (name, bad, a.classes), name)
    final = []
    if a.ready():
        X = a.Q[:12].copy()
        final.append(a.answer(X, 'predict'))
        if a.l.proba:
            final.append(pad([a.answer(X, 'proba')])[0])
    return log, final


class Skip(Exception):
    pass


def drive_safe(plan, ask):
    try:
        return drive(plan, ask)
    except Skip:
        return None


class C12(core.Prop):
    ID = 'C12'
    RULE = ('one run = one learner under a drawn sequence of training calls with prediction '
            'requests at drawn points, each repeated, cut into rows and parts and reversed, by a '
            'user that overwrites every array it passed or received; the model reached is compared '
            'with that of a run without any request; non-trivial: at least two requests with '
            'training after the first; distinct by learner and sequence of calls')
    ASSUMPTIONS = ['the Monte Carlo classifier chain, which answers at random by design, is left '
                   'out', 'a class probability that is left out of a row counts as zero']
    REAL = ['all learners of the registry']
    STUB = []
    QUICK_RUNS = 2600
    THOROUGH_RUNS = 30000
    SHRINK_LISTS = ('ops',)
    SHRINK_TO = {'reuse': False}

    def gen(self, rng, tier, index):
        names = actors.share(sorted(set(actors.learner_table()) - RANDOM_ANSWERS))
        a = actors.gen_learner(rng, [names[index % len(names)]])
        ops = []
        for _ in range(rng.choice([8, 16, 30])):
            op = actors.gen_op(rng, a)
            if op[0] in ('predict', 'proba'):
                k = rng.choice([1, 2, 3, 6])
                op = [op[0], [rng.randrange(64) for _ in range(k)]]
            ops.append(op)
        ops.append(['predict', [rng.randrange(64) for _ in range(5)]])
        return dict(actor=a, ops=ops, reuse=rng.random() < 0.6, tol=[1e-9, 1e-9])

    def run(self, plan, ctx):
        name = plan['actor']['name']
        asked = core.in_child(lambda: drive_safe(plan, True))
        ctx.shape(name, [o[0] for o in plan['ops']])
        if asked is None:
            ctx.probe('training-failed:' + name)
            return
        quiet = core.in_child(lambda: drive(plan, False))
        for n, how, out in asked[0]:
            ctx.ev(how, n, out)
            ctx.probe('requests')
        if plan['reuse']:
            ctx.fault('buffer-reuse', len(plan['ops']))
        for x, y, how in zip(asked[1], quiet[1], ('predict', 'proba')):
            if how == 'proba' and x.ndim == 2:
                x, y = pad([x, y])
            ctx.ev('final', x)
            if not core.same(x, y):
                raise Violation('prediction-changed-model', 'after %d prediction requests%s %s of '
                                '%s is %s, without any %s' % (
                                    len(asked[0]), ' by a user that reuses its arrays'
                                    if plan['reuse'] else '', how, name, core.short(x),
                                    core.short(y)), name)
        ctx.nontrivial = len(asked[0]) >= 2


PROP = C12()
