"""C01: prequential evaluation tests each sample before training on it, exactly once."""
from sim import core, evalsim
from sim.core import Violation


def check_history(run, ctx):
    """Order and exactly-once rules over the recorded calls of a prequential evaluation."""
    p, data = run.p, run.data
    nm = p['models']
    drawn = []                   # rows in the order the stream delivered them
    batch = []                   # rows of the current batch
    predicted = [set() for _ in range(nm)]
    trained = [[] for _ in range(nm)]
    phase_pre = p['pretrain'] > 0
    n_draw = 0
    failed = False
    first_fit = [True] * nm
    for e in run.events:
        if e[0] == 'fault':
            failed = True
            continue
        if e[0] in ('open', 'restart'):
            continue
        if failed:
            raise Violation('continued-after-failure', 'the evaluation went on with %s after a '
                            'call had failed' % (e[:3],), 'preq')
        if e[0] == 'next':
            if not e[2]:
                raise Violation('empty-draw', 'an empty batch was drawn', 'preq')
            for m in range(nm):
                if trained[m] != drawn:
                    raise Violation('not-trained', 'a new batch was drawn although model %d had '
                                    'been trained on %d of the %d samples drawn so far'
                                    % (m, len(trained[m]), len(drawn)), 'preq')
            want = list(range(len(drawn), len(drawn) + len(e[2])))
            if e[2] != want:
                raise Violation('stream-order', 'drew rows %s, expected %s' % (e[2], want), 'preq')
            batch = e[2]
            drawn = drawn + batch
            n_draw += 1
            continue
        m, rows = e[1], e[2]
        pre = phase_pre and n_draw == 1
        if e[0] == 'predict':
            if pre:
                raise Violation('tested-pretrain', 'model %d was tested on pre-training samples'
                                % m, 'preq')
            for r in rows:
                if r not in batch:
                    raise Violation('tested-old', 'model %d was tested on row %d, not in the '
                                    'current batch %s' % (m, r, batch), 'preq')
                if r in predicted[m]:
                    raise Violation('tested-twice', 'model %d tested twice on row %d' % (m, r),
                                    'preq')
                predicted[m].add(r)
            if len(trained[m]) != len(drawn) - len(batch):
                raise Violation('train-before-test', 'model %d was tested on rows %s after being '
                                'trained on %d samples; %d samples preceded the batch'
                                % (m, rows, len(trained[m]), len(drawn) - len(batch)), 'preq')
        else:
            evalsim.check_fit_payload(run, e)
            if first_fit[m] and p['task'] in ('clf', 'mlc'):
                want = evalsim.flat(run.target_values)
                if e[4] is None or e[4] != want:
                    raise Violation('classes', 'the first training call of model %d announced '
                                    'classes %s, the stream declares %s' % (m, e[4], want), 'preq')
            first_fit[m] = False
            for r in rows:
                nxt = len(trained[m])
                if r != nxt or r >= len(drawn):
                    raise Violation('train-order', 'model %d was trained on row %d, the next '
                                    'untrained sample is %d' % (m, r, nxt), 'preq')
                if not pre and r not in predicted[m]:
                    raise Violation('train-before-test', 'model %d was trained on row %d before '
                                    'being tested on it' % (m, r), 'preq')
                trained[m].append(r)
            if not pre:
                for k in range(nm):
                    miss = [r for r in batch if r not in predicted[k]]
                    if miss:
                        raise Violation('train-before-test', 'model %d was trained on the batch '
                                        'before model %d had been tested on rows %s'
                                        % (m, k, miss), 'preq')
    if not failed:
        for m in range(nm):
            if trained[m] != drawn:
                raise Violation('not-trained', 'the evaluation ended with model %d trained on %d '
                                'of %d drawn samples' % (m, len(trained[m]), len(drawn)), 'preq')
    ctx.nontrivial = n_draw >= 2
    return drawn


class C01(core.Prop):
    ID = 'C01'
    RULE = ('one run = one prequential evaluation of 1-3 recording models over a generated stream '
            'configuration with injected interrupts, model failures and slow calls; non-trivial: '
            'at least two batches were drawn; distinct by the sequence of calls and fired faults')
    ASSUMPTIONS = ['models are scripted stand-ins that record every call',
                   'row identity is carried by the feature values',
                   'samples are delivered by the real DataStream/FileStream/RandomRBFGenerator']
    REAL = ['EvaluatePrequential', 'DataStream', 'FileStream', 'RandomRBFGenerator',
            'performance evaluators', 'results file']
    STUB = ['models (scripted, recording)', 'clock']
    QUICK_RUNS = 6000
    THOROUGH_RUNS = 150000
    SHRINK_LISTS = ('faults', 'metrics')
    SHRINK_INTS = {'n': 20, 'batch': 1, 'n_wait': 1, 'pretrain': 0, 'models': 1, 'max_samples': 20}
    SHRINK_TO = {'src': 'data', 'out': False, 'names': False, 'dur_next': 0, 'single': False}

    def gen(self, rng, tier, index):
        return evalsim.gen_eval(rng, 'preq', tier=tier)

    def run(self, plan, ctx):
        with evalsim.Sim(plan, ctx) as sim:
            run = sim.evaluate()
            drawn = check_history(run, ctx)
            limit = min(run.data.n if plan['src'] != 'gen' else 10 ** 9, plan['max_samples'])
            if not run.aborted:
                # the whole budget is used and no more than the rest of the last batch beyond it
                if len(drawn) < limit:
                    raise Violation('stopped-early', 'stopped after %d of %d samples without any '
                                    'failure or time limit' % (len(drawn), limit), 'preq')
                ctx.probe('complete')
            else:
                ctx.probe('aborted')
            if plan['pretrain']:
                ctx.probe('pretrained')
            if plan['batch'] > 1 and len(drawn) % plan['batch'] != plan['pretrain'] % plan['batch']:
                ctx.probe('short-last-batch')


PROP = C01()
