"""C08: a seeded generator produces one sequence, however it is read and however often restarted."""
import numpy as np

from sim import core, registry
from sim.core import Violation


class C08(core.Prop):
    ID = 'C08'
    RULE = ('one run = one seeded generator read through a random schedule of requests of '
            'different sizes, restarts, concept changes, peeks at the last batch and scribbling '
            'over returned batches, compared sample by sample with a second instance read one '
            'sample at a time; non-trivial: at least three requests and 10 samples; distinct by '
            'generator and schedule')
    ASSUMPTIONS = ['generators are seeded with integers',
                   'a concept chosen through generate_drift() survives restart()']
    REAL = ['all stream generators', 'ConceptDriftStream']
    STUB = []
    QUICK_RUNS = 5000
    THOROUGH_RUNS = 150000
    SHRINK_LISTS = ('ops',)

    def gen(self, rng, tier, index):
        reg = registry.streams()
        names = sorted(reg)
        name = names[index % len(names)]
        s = reg[name]
        p = {'name': name, 'conf': s.conf(rng)}
        ops = []
        for _ in range(rng.randint(4, 22)):
            k = rng.random()
            if k < 0.62:
                ops.append(['next', rng.choice([1, 1, 1, 2, 3, 5, 8, 13, 30])])
            elif k < 0.74:
                ops.append(['restart'])
            elif k < 0.82:
                ops.append(['last'])
            elif k < 0.88 and s.drift:
                ops.append(['drift'])
            elif k < 0.94:
                ops.append(['info'])
            elif not s.finite:
                ops.append(['scribble'])
        p['ops'] = ops
        return p

    def run(self, plan, ctx):
        s = registry.streams()[plan['name']]
        g = s.make(plan['conf'])
        ref = s.make(plan['conf'])
        ctx.shape(plan['name'])
        total = served = reqs = 0
        last = None
        size = plan['conf'].get('n_samples')
        for op in plan['ops']:
            ctx.shape(*op)
            if op[0] == 'next':
                want = op[1]
                if size is not None:
                    want = min(want, size - served)
                    if want <= 0:
                        continue
                got = g.next_sample(want)
                X, y = check_batch(plan, g, got, want)
                RX, Ry = [], []
                for _ in range(want):
                    a, b = ref.next_sample()
                    RX.append(np.asarray(a).reshape(1, -1))
                    Ry.append(np.asarray(b).reshape(1, -1))
                RX, Ry = np.concatenate(RX), np.concatenate(Ry)
                if not core.same(X, RX) or not core.same(y.reshape(want, -1), Ry):
                    k = next((i for i in range(want) if not core.same(X[i], RX[i]) or
                              not core.same(y.reshape(want, -1)[i], Ry[i])), 0)
                    raise Violation('sequence', '%s: sample %d read in a request for %d is %s -> '
                                    '%s, the same sample read alone is %s -> %s'
                                    % (plan['name'], served + k, want, core.short(X[k]),
                                       core.short(y[k]), core.short(RX[k]), core.short(Ry[k])),
                                    plan['name'])
                served += want
                total += want
                reqs += 1
                last = (np.array(X), np.array(y), got)
                ctx.ev('next', want, X, y)
            elif op[0] == 'restart':
                g.restart()
                conf = dict(plan['conf'])
                if s.drift:
                    conf['classification_function'] = g.classification_function
                ref = s.make(conf)
                served = 0
                last = None
                ctx.fault('restart')
            elif op[0] == 'last' and last is not None:
                lx, ly = g.last_sample()[:2]
                if not core.same(lx, last[0]) or not core.same(np.ravel(ly), np.ravel(last[1])):
                    raise Violation('last-sample', '%s: last_sample() is not the last batch'
                                    % plan['name'], plan['name'])
            elif op[0] == 'drift':
                g.generate_drift()
                ref.generate_drift()
                if g.classification_function != ref.classification_function:
                    raise Violation('drift', '%s: generate_drift() chose concept %s and %s on '
                                    'equal histories' % (plan['name'], g.classification_function,
                                                         ref.classification_function),
                                    plan['name'])
                ctx.fault('concept-change')
            elif op[0] == 'info':
                g.get_info()
                g.get_data_info()
                left = g.n_remaining_samples()
                exp = -1 if size is None else size - served
                if left != exp or bool(g.has_more_samples()) != (exp != 0):
                    raise Violation('remaining', '%s: %s samples remain according to the stream, '
                                    '%s really' % (plan['name'], left, exp), plan['name'])
            elif op[0] == 'scribble' and last is not None:
                for a in last[2]:
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = -7
                last = None
                ctx.fault('scribble')
        ctx.nontrivial = reqs >= 3 and total >= 10


def check_batch(plan, g, got, want):
    name = plan['name']
    X = core.as_array(got[0], 'X', name)
    y = core.as_array(got[1], 'y', name)
    if X.shape != (want, g.n_features):
        raise Violation('shape', '%s: %d samples of %d features asked for, got shape %s'
                        % (name, want, g.n_features, X.shape), name)
    if y.shape[0] != want or y.size != want * g.n_targets:
        raise Violation('shape', '%s: targets of shape %s for %d samples and %d targets'
                        % (name, y.shape, want, g.n_targets), name)
    if not np.all(np.isfinite(X.astype(float))):
        raise Violation('values', '%s: non-finite feature values' % name, name)
    if name not in ('Regression',):
        tv = set(np.ravel(np.asarray(g.target_values)).tolist())
        bad = [v for v in np.ravel(y).tolist() if v not in tv]
        if bad:
            raise Violation('values', '%s: label %s is not one of the declared %s'
                            % (name, bad[0], sorted(tv)), name)
    return X, y


PROP = C08()
