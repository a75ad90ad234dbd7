"""C02: delayed-label evaluation never uses a label before it is available."""
import numpy as np

from sim import core, evalsim
from sim.core import Violation
from sim.props.c04 import check_reports


def _weights_ok(run, rows, w):
    if run.data.w is None:
        return w is None or all(x is None or x == 1 for x in np.ravel(w).tolist())
    if w is None:
        return False
    return core.same(np.asarray(w, dtype=float).reshape(-1), run.data.w[rows])


def check_delayed(run, ctx):
    p, data = run.p, run.data
    nm = p['models']
    av = data.available
    events = run.events
    # cut the history at the draws
    segs = []
    for e in events:
        if e[0] == 'next':
            segs.append((e, []))
        elif e[0] in ('fit', 'predict', 'fault'):
            if not segs:
                if e[0] == 'fault':
                    segs.append((('next', 0, [], 0.0), [e]))
                    continue
                raise Violation('call-before-draw', '%s before anything was drawn' % (e[0],),
                                'delayed')
            segs[-1][1].append(e)
    drawn = 0
    queue = []                       # rows predicted by all models, label pending
    trained = [[] for _ in range(nm)]
    predicted = [set() for _ in range(nm)]
    first_fit = [True] * nm
    failed = False
    pre_seg = p['pretrain'] > 0
    waited = 0
    released_total = 0
    for si, (nx, ev) in enumerate(segs):
        rows = nx[2]
        want = list(range(drawn, drawn + len(rows)))
        if rows != want:
            raise Violation('stream-order', 'drew rows %s, expected %s' % (rows, want), 'delayed')
        if failed:
            raise Violation('continued-after-failure', 'another batch was drawn after a call '
                            'failed', 'delayed')
        drawn += len(rows)
        pre = pre_seg and si == 0
        now = data.arrival[rows[-1]] if rows else None
        due = [] if pre or not rows else [r for r in queue if av[r] <= now]
        last_seg = si == len(segs) - 1
        got = [[] for _ in range(nm)]          # trained in this segment, per model
        seen_predict = [[] for _ in range(nm)]
        drain_phase = False
        for e in ev:
            if e[0] == 'fault':
                failed = True
                continue
            m = e[1]
            if e[0] == 'predict':
                if pre:
                    raise Violation('tested-pretrain', 'model %d was tested on pre-training '
                                    'samples' % m, 'delayed')
                if failed:
                    raise Violation('continued-after-failure', 'model %d was tested after a call '
                                    'failed' % m, 'delayed')
                for r in e[2]:
                    if r not in rows:
                        raise Violation('tested-late', 'model %d was tested on row %d which did '
                                        'not just arrive (batch %s)' % (m, r, rows), 'delayed')
                    if r in predicted[m]:
                        raise Violation('tested-twice', 'model %d was tested twice on row %d'
                                        % (m, r), 'delayed')
                    predicted[m].add(r)
                    seen_predict[m].append(r)
                if sorted(got[m]) != sorted(due):
                    raise Violation('label-withheld', 'at time %s model %d had to predict rows %s '
                                    'having been trained on %s of the samples %s whose labels '
                                    'had become available' % (now, m, e[2], got[m], due),
                                    'delayed')
            else:
                evalsim.check_fit_payload(run, e)
                if not _weights_ok(run, e[2], e[5]):
                    raise Violation('wrong-weight', 'model %d was trained on rows %s with weights '
                                    '%s instead of %s' % (m, e[2], core.short(e[5]),
                                    None if data.w is None else data.w[e[2]].tolist()), 'delayed')
                if first_fit[m] and p['task'] in ('clf', 'mlc') and e[2]:
                    want = evalsim.flat(run.target_values)
                    if e[4] is None or e[4] != want:
                        raise Violation('classes', 'the first training call of model %d announced '
                                        'classes %s, the stream declares %s' % (m, e[4], want),
                                        'delayed')
                first_fit[m] = False
                for r in e[2]:
                    if r in trained[m]:
                        raise Violation('trained-twice', 'model %d was trained twice on row %d'
                                        % (m, r), 'delayed')
                    trained[m].append(r)
                    if pre:
                        if r not in rows:
                            raise Violation('foreign-pretrain', 'pre-training used row %d' % r,
                                            'delayed')
                        continue
                    all_pred = all(set(seen_predict[k]) == set(rows) for k in range(nm)) and rows
                    if r in due and not drain_phase:
                        got[m].append(r)
                        if len(got[m]) > 1 and av[got[m][-2]] > av[r]:
                            raise Violation('label-order', 'model %d received the label of row %d '
                                            '(available %s) after that of row %d (available %s)'
                                            % (m, r, av[r], got[m][-2], av[got[m][-2]]),
                                            'delayed')
                        continue
                    # anything else is only legitimate once the stream has ended
                    if not last_seg or not (all_pred or failed):
                        raise Violation('label-too-early', 'model %d was trained on row %d at '
                                        'time %s although its label is available only at %s'
                                        % (m, r, now, av[r]), 'delayed')
                    drain_phase = True
                    if r not in predicted[m]:
                        raise Violation('train-before-test', 'model %d was trained on row %d '
                                        'without having been tested on it' % (m, r), 'delayed')
        if pre:
            if not failed:
                for m in range(nm):
                    if sorted(got_pre(trained[m])) != rows:
                        raise Violation('pretrain', 'model %d was pre-trained on rows %s instead '
                                        'of %s' % (m, trained[m], rows), 'delayed')
            continue
        released_total += len(due)
        queue = [r for r in queue if r not in due]
        if not failed:
            for m in range(nm):
                if sorted(seen_predict[m]) != rows:
                    raise Violation('not-tested', 'model %d was tested on %s of the arriving rows '
                                    '%s' % (m, seen_predict[m], rows), 'delayed')
                if sorted(got[m]) != sorted(due):
                    raise Violation('label-withheld', 'model %d was trained on %s of the samples '
                                    '%s whose labels had become available'
                                    % (m, got[m], due), 'delayed')
        inflight = set(due) | set(rows)
        if last_seg:
            tail = [[r for r in trained[m] if r in set(queue) | set(rows)] for m in range(nm)]
            for m in range(nm):
                for a, b in zip(tail[m], tail[m][1:]):
                    if av[a] > av[b]:
                        raise Violation('label-order', 'at the end of the stream model %d received '
                                        'row %d (available %s) before row %d (available %s)'
                                        % (m, a, av[a], b, av[b]), 'delayed')
                if run.escaped is None:
                    lost = [r for r in queue if r not in trained[m]]
                    if not failed:
                        lost += [r for r in rows if r not in trained[m]]
                    if lost:
                        raise Violation('never-trained', 'the evaluation ended and model %d never '
                                        'received the labels of rows %s' % (m, lost), 'delayed')
        else:
            queue += rows
            waited += sum(1 for r in rows if av[r] > data.arrival[r])
        _ = inflight
    ctx.nontrivial = len(segs) >= 3
    if released_total:
        ctx.probe('released-while-running', released_total)
    if waited:
        ctx.probe('had-to-wait', waited)
    return drawn, trained


def got_pre(x):
    return x


class C02(core.Prop):
    ID = 'C02'
    RULE = ('one run = one delayed-label evaluation of 1-3 recording models over a timed stream '
            'whose labels arrive late, out of order or all at once, with injected interrupts, '
            'model failures and slow calls; non-trivial: at least three batches were drawn; '
            'distinct by the sequence of calls and fired faults')
    ASSUMPTIONS = ['models are scripted stand-ins that record every call',
                   'row identity is carried by the feature values',
                   'simulated time is the time carried by the samples; labels due at the same '
                   'moment may be handed over in any order']
    REAL = ['EvaluatePrequentialDelayed', 'TimeManager (delayed-label queue)',
            'TemporalDataStream', 'performance evaluators', 'results file']
    STUB = ['models (scripted, recording)', 'clock']
    QUICK_RUNS = 2400
    THOROUGH_RUNS = 60000
    SHRINK_LISTS = ('faults', 'metrics')
    SHRINK_INTS = {'n': 20, 'batch': 1, 'n_wait': 1, 'pretrain': 0, 'models': 1, 'max_samples': 20}
    SHRINK_TO = {'out': False, 'names': False, 'dur_next': 0, 'single': False, 'weights': False}

    def gen(self, rng, tier, index):
        return evalsim.gen_eval(rng, 'delayed', tier=tier)

    def run(self, plan, ctx):
        with evalsim.Sim(plan, ctx) as sim:
            run = sim.evaluate()
            check_delayed(run, ctx)
            # scored with the predictions made on arrival
            check_reports(run, ctx, prefix=run.escaped is not None)
            ctx.probe('aborted' if run.aborted else 'complete')
            ctx.shape(plan['delay']['how'])


PROP = C02()
