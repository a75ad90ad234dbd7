"""C03: holdout evaluation keeps test data and training data apart and tests on schedule."""
from sim import core, evalsim
from sim.core import Violation


def check_holdout(run, ctx):
    p, data = run.p, run.data
    nm, ts, nw, bs = p['models'], p['test_size'], p['n_wait'], p['batch']
    dyn = p['dynamic']
    total = p['max_samples'] if p['src'] == 'gen' else min(data.n, p['max_samples'])
    segs = []
    for e in run.events:
        if e[0] == 'next':
            segs.append((e, []))
        elif e[0] in ('fit', 'predict', 'fault'):
            if not segs:
                if e[0] == 'fault':
                    return 0
                raise Violation('call-before-draw', '%s before anything was drawn' % e[0],
                                'holdout')
            segs[-1][1].append(e)
    drawn = 0
    test_rows = set()
    trained = [[] for _ in range(nm)]
    first_fit = [True] * nm
    static_set = None
    count = 0
    tests = 0
    want_test_draw = False
    failed = False
    for si, (nx, ev) in enumerate(segs):
        rows = nx[2]
        want = list(range(drawn, drawn + len(rows)))
        if failed:
            raise Violation('continued-after-failure', 'another batch was drawn after a failure',
                            'holdout')
        if rows != want:
            raise Violation('stream-order', 'drew rows %s, expected %s' % (rows, want), 'holdout')
        drawn += len(rows)
        fits = [e for e in ev if e[0] == 'fit']
        preds = [e for e in ev if e[0] == 'predict']
        if any(e[0] == 'fault' for e in ev):
            failed = True
            k = [e[0] for e in ev].index('fault')
            if any(e[0] != 'fault' for e in ev[k:]):
                raise Violation('continued-after-failure', 'the evaluation went on after a call '
                                'failed: %s' % (ev[k + 1][:3],), 'holdout')
        # ---- a draw that is set aside for testing
        if not dyn and si == 0:
            static_set = rows
            test_rows |= set(rows)
            count += ts
            if len(rows) != min(ts, data.n):
                raise Violation('test-set', 'the test set has %d rows, %d were asked for'
                                % (len(rows), ts), 'holdout')
            if fits or preds:
                raise Violation('test-set', 'the test set was used before any training', 'holdout')
            continue
        if want_test_draw:
            want_test_draw = False
            test_rows |= set(rows)
            count += len(rows)
            expect = rows
            if fits:
                raise Violation('trained-on-test', 'model %d was trained on rows %s which were '
                                'drawn as a test set' % (fits[0][1], fits[0][2]), 'holdout')
            check_tests(run, preds, expect, failed)
            tests += 1
            ctx.probe('tests')
            continue
        # ---- a training batch
        count += bs
        for e in fits:
            m = e[1]
            evalsim.check_fit_payload(run, e)
            if first_fit[m] and p['task'] in ('clf', 'mlc'):
                want = evalsim.flat(run.target_values)
                if e[4] is None or e[4] != want:
                    raise Violation('classes', 'the first training call of model %d announced '
                                    'classes %s, the stream declares %s' % (m, e[4], want),
                                    'holdout')
            first_fit[m] = False
            for r in e[2]:
                if r in test_rows:
                    raise Violation('trained-on-test', 'model %d was trained on row %d of a test '
                                    'set' % (m, r), 'holdout')
                if r in trained[m]:
                    raise Violation('trained-twice', 'model %d was trained twice on row %d'
                                    % (m, r), 'holdout')
                trained[m].append(r)
        for m in range(nm):
            t = [r for e in fits if e[1] == m for r in e[2]]
            if t != rows and not (failed and t == rows[:len(t)]):
                raise Violation('not-trained', 'model %d was trained on rows %s of the training '
                                'batch %s' % (m, t, rows), 'holdout')
        if dyn:
            due = count >= nw * (tests + 1) + ts * tests
        else:
            due = (count - ts) % nw == 0
        final = count >= total
        if dyn:
            if preds:
                raise Violation('tested-on-train', 'model %d was tested on rows %s without a '
                                'fresh test set' % (preds[0][1], preds[0][2]), 'holdout')
            want_test_draw = due or final
        else:
            if due or final:
                check_tests(run, preds, static_set, failed)
                tests += 1
                ctx.probe('tests')
                if preds:
                    k = [e[0] for e in ev].index('predict')
                    if any(e[0] == 'fit' for e in ev[k:]):
                        raise Violation('test-before-train', 'a model was trained on the batch '
                                        'after testing had begun', 'holdout')
            elif preds and nw % bs == 0:
                raise Violation('off-schedule', 'tested after %d samples although n_wait=%d'
                                % (count, nw), 'holdout')
            elif preds:
                raise Violation('off-schedule', 'tested after %d samples (n_wait=%d, batch=%d)'
                                % (count, nw, bs), 'holdout')
    if want_test_draw and not failed and not run.aborted:
        raise Violation('missing-test', 'a test was due after %d samples and never made' % count,
                        'holdout')
    ctx.nontrivial = tests >= 2
    if not run.aborted and p['max_time'] is None and drawn < total:
        raise Violation('stopped-early', 'stopped after %d of %d samples' % (drawn, total),
                        'holdout')
    return drawn


def check_tests(run, preds, expect, failed):
    nm = run.p['models']
    for m in range(nm):
        t = [r for e in preds if e[1] == m for r in e[2]]
        if t != expect and not (failed and t == expect[:len(t)]):
            raise Violation('wrong-test-set', 'model %d was tested on rows %s, the test set is %s'
                            % (m, t, expect), 'holdout')


class C03(core.Prop):
    ID = 'C03'
    RULE = ('one run = one holdout evaluation (static or dynamic test set) of 1-3 recording '
            'models with injected interrupts, model failures and slow calls; non-trivial: at '
            'least two tests were made; distinct by the sequence of calls and fired faults')
    ASSUMPTIONS = ['models are scripted stand-ins that record every call',
                   'row identity is carried by the feature values']
    REAL = ['EvaluateHoldout', 'DataStream', 'FileStream', 'RandomRBFGenerator',
            'performance evaluators', 'results file']
    STUB = ['models (scripted, recording)', 'clock']
    QUICK_RUNS = 6000
    THOROUGH_RUNS = 150000
    SHRINK_LISTS = ('faults', 'metrics')
    SHRINK_INTS = {'n': 20, 'batch': 1, 'n_wait': 1, 'models': 1, 'max_samples': 20,
                   'test_size': 1}
    SHRINK_TO = {'src': 'data', 'out': False, 'names': False, 'dur_next': 0, 'single': False}

    def gen(self, rng, tier, index):
        return evalsim.gen_eval(rng, 'holdout', tier=tier)

    def run(self, plan, ctx):
        with evalsim.Sim(plan, ctx) as sim:
            run = sim.evaluate()
            check_holdout(run, ctx)
            ctx.probe('dynamic' if plan['dynamic'] else 'static')
            ctx.probe('aborted' if run.aborted else 'complete')


PROP = C03()
