"""C06: evaluations respect their sample and time budgets and account time correctly."""
import logging

from sim import core, evalsim, reports
from sim.core import CLOCK, Violation


def check_budget(run, ctx):
    p = run.p
    kind = p['kind']
    total = reports.total_of(run)
    maxt = p['max_time'] if p['max_time'] is not None else float('inf')
    segs = [s for s in reports.segments(run) if s[1][1]]
    starts = run.rec.draw_start
    # role of every draw
    roles = []
    count = 0
    tests = 0
    want = False
    before = []
    for si, (k, nx, ev) in enumerate(segs):
        before.append(count)
        if kind in ('preq', 'delayed') and p['pretrain'] > 0 and si == 0:
            roles.append('setup')
            count += p['pretrain']
        elif kind == 'holdout' and not p['dynamic'] and si == 0:
            roles.append('setup')
            count += p['test_size']
        elif kind == 'holdout' and want:
            roles.append('test')
            want = False
            tests += 1
            count += len(nx[2])
        else:
            roles.append('batch')
            if kind == 'delayed':
                # samples count once their labels were used
                last = si == len(segs) - 1
                due = 0
                if not last:
                    due = len({r for _, e in ev if e[0] == 'fit' and e[1] == p['models'] - 1
                               for r in e[2]})
                count += due
            else:
                count += p['batch']
            if kind == 'holdout' and p['dynamic']:
                want = count >= p['n_wait'] * (tests + 1) + p['test_size'] * tests \
                    or count >= total
    seen_batch = False
    for si, role in enumerate(roles):
        if role != 'batch':
            continue
        if before[si] >= total:
            raise Violation('over-budget', 'a batch was drawn after %d samples, the budget is %d'
                            % (before[si], total), kind)
        el = starts[si] - run.start
        if seen_batch and el >= maxt:
            raise Violation('over-time', 'a batch was drawn %.3fs into the evaluation, max_time '
                            'is %.3fs' % (el, maxt), kind)
        if si and segs[si][1][1] != p['batch']:
            raise Violation('batch-size', 'drew %d samples at once, batch_size is %d'
                            % (segs[si][1][1], p['batch']), kind)
        seen_batch = True
    if not run.aborted:
        drawn = sum(len(s[1][2]) for s in segs)
        # the clock as the evaluation saw it when it decided to stop
        drain = False
        ends = None
        if seen_batch:
            k, nx, ev = segs[-1]
            stop_reasons = []
            if p['src'] != 'gen' and drawn >= run.data.n:
                stop_reasons.append('stream')
            if kind == 'delayed':
                c = before[-1] + len(trained_in_last(run, segs[-1]))
            else:
                c = count
            if c >= total:
                stop_reasons.append('samples')
            ends = run.rec.end_of_last_batch(run) - run.start
            if ends >= maxt:
                stop_reasons.append('time')
                ctx.probe('time-limit')
            if not stop_reasons:
                raise Violation('stopped-early', 'the evaluation stopped after %d samples and '
                                '%.3fs; budget %d samples, %.3fs' % (drawn, ends, total, maxt),
                                kind)
        elif total > (p['pretrain'] if kind != 'holdout' else p['test_size']) \
                and run.data.n > drawn:
            raise Violation('stopped-early', 'nothing was evaluated', kind)
    # the models come back as they were passed
    if run.escaped is None:
        ret = run.returned
        if not isinstance(ret, list) or len(ret) != p['models'] or any(
                a is not b for a, b in zip(ret, run.models)):
            raise Violation('returned', 'evaluate() did not return the evaluated models', kind)
    check_times(run, ctx)
    ctx.nontrivial = seen_batch and len(roles) >= 3


def trained_in_last(run, seg):
    """Rows released (not drained) in the last segment: trained by all before testing."""
    k, nx, ev = seg
    out = set()
    for _, e in ev:
        if e[0] == 'predict':
            break
        if e[0] == 'fit' and e[1] == run.p['models'] - 1:
            out |= set(e[2])
    return out


def check_times(run, ctx):
    p = run.p
    if 'running_time' not in p['metrics'] or run.text is None:
        return
    _, rows = evalsim.parse_results(run.text, p, run.names)
    em = [(st[1], st[2]) for st in reports.steps(run) if st[0] == 'emit']
    for (gid, cols, line), (rid, upto) in zip(rows, em):
        fit, test = reports.times(run, upto)
        for m, nme in enumerate(run.names):
            for what, want in (('training', fit[m]), ('testing', test[m])):
                got = cols['%s_time_[%s]' % (what, nme)]
                if abs(got - want) > 2e-6:
                    raise Violation('time-accounting', '%s time of %s in row %d is %.6f, the '
                                    'model spent %.6f' % (what, nme, gid, got, want), p['kind'])
            tot = cols['total_running_time_[%s]' % nme]
            hi = fit[m] + test[m]
            lo = hi
            if p['kind'] == 'delayed':
                # the total is taken when a model has been trained
                last = [k for k, e in enumerate(run.events[:upto + 1])
                        if e[0] == 'fit' and e[1] == m]
                f2, t2 = reports.times(run, last[-1]) if last else ([0] * 9, [0] * 9)
                lo = f2[m] + t2[m]
            if not lo - 2e-6 <= tot <= hi + 2e-6:
                raise Violation('time-accounting', 'total time of %s in row %d is %.6f, the model '
                                'spent %.6f' % (nme, gid, tot, hi), p['kind'])
        ctx.probe('timed-rows')


def end_of_last_batch(self, run):
    # nothing but model calls advances the clock after a draw; draining of delayed labels
    # happens after the decision to stop
    if run.p['kind'] != 'delayed':
        return run.end
    last = max(k for k, e in enumerate(run.events) if e[0] == 'predict')
    # clock right after that call
    return self.clock_after[last]


evalsim.Recorder.end_of_last_batch = end_of_last_batch


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


class C06(core.Prop):
    ID = 'C06'
    RULE = ('one run = one evaluation under a simulated clock: model and stream calls take '
            'simulated time, some stall for a minute, with a time limit and a sample budget drawn '
            'around the expected length; non-trivial: at least three draws; distinct by the '
            'sequence of calls and fired faults')
    ASSUMPTIONS = ['the clock only advances inside model and stream calls',
                   'a batch begun before the limit may finish']
    REAL = ['EvaluatePrequential', 'EvaluatePrequentialDelayed', 'EvaluateHoldout',
            'EvaluateStreamGenerationSpeed', 'RunningTimeMeasurements', 'streams']
    STUB = ['models (scripted, recording)', 'clock']
    QUICK_RUNS = 5000
    THOROUGH_RUNS = 120000
    SHRINK_LISTS = ('faults', 'metrics')
    SHRINK_INTS = {'n': 20, 'batch': 1, 'n_wait': 1, 'models': 1, 'max_samples': 20,
                   'test_size': 1, 'pretrain': 0}
    SHRINK_TO = {'names': False, 'single': False}

    def gen(self, rng, tier, index):
        kind = ('preq', 'holdout', 'preq', 'delayed', 'speed')[index % 5]
        p = evalsim.gen_eval(rng, 'preq' if kind == 'speed' else kind, tier=tier,
                             out=rng.random() < 0.7)
        if kind == 'delayed':
            p['n'] = min(p['n'], 150)
        p['dur'] = [[rng.choice([0, 1, 2, 5]), rng.choice([1, 3, 0])]
                    for _ in range(p['models'])]
        p['dur_next'] = rng.choice([0, 1, 2])
        if 'running_time' not in p['metrics'] and rng.random() < 0.7:
            p['metrics'].append('running_time')
        per = sum(a + b for a, b in p['dur']) / 8.0 + p['dur_next'] / 8.0
        span = per * (p['n'] / p['batch'])
        if rng.random() < 0.7 and span > 0:
            p['max_time'] = max(1, int(span * 8 * rng.uniform(0.02, 1.2))) / 8.0
        p['faults'] = [f for f in p['faults'] if f['what'] == 'slow' or rng.random() < 0.3]
        if rng.random() < 0.4:
            p['faults'].append({'site': rng.choice(['predict', 'fit', 'next']), 'model': 0,
                                'nth': rng.randint(0, 10), 'what': 'slow'})
        if kind == 'speed':
            p['kind'] = 'speed'
            p['batch'] = min(p['batch'], 10)
            p['faults'] = []
            p['dur_next'] = rng.choice([1, 2])
            p['max_time'] = rng.choice([None, rng.randint(1, 80) / 8.0])
        return p

    def run(self, plan, ctx):
        if plan['kind'] == 'speed':
            return self.run_speed(plan, ctx)
        with evalsim.Sim(plan, ctx) as sim:
            run = sim.evaluate()
            check_budget(run, ctx)
            ctx.shape(plan['kind'])
            ctx.probe('aborted' if run.aborted else 'complete')

    def run_speed(self, plan, ctx):
        from skmultiflow.evaluation.evaluate_stream_gen_speed import (
            EvaluateStreamGenerationSpeed)
        p = plan
        with evalsim.Sim(p, ctx) as sim:
            rec = evalsim.Recorder(p, sim.data, ctx, [], None)
            cap = Capture()
            log = logging.getLogger()
            old = (log.level, list(log.handlers))
            log.handlers = [cap]
            log.setLevel(logging.INFO)
            maxt = p['max_time'] if p['max_time'] is not None else float('inf')
            evalsim.attach(sim.stream, rec, p)
            t0 = CLOCK.now
            try:
                EvaluateStreamGenerationSpeed(p['max_samples'], maxt, None, p['batch']).evaluate(
                    sim.stream)
            finally:
                log.handlers = old[1]
                log.setLevel(old[0])
                evalsim.detach(sim.stream)
            n = sum(len(e[2]) for e in rec.events if e[0] == 'next')
            left = float('inf') if p['src'] == 'gen' else sim.data.n
            for k, s in enumerate(rec.draw_start):
                if s - t0 > maxt:
                    raise Violation('over-time', 'a sample was drawn after %.3fs, max_time %.3fs'
                                    % (s - t0, maxt), 'speed')
            if n > p['max_samples'] or n > left:
                raise Violation('over-budget', 'drew %d samples of %d' % (n, p['max_samples']),
                                'speed')
            el = CLOCK.now - t0
            if el <= maxt and n + p['batch'] <= min(p['max_samples'], left):
                raise Violation('stopped-early', 'stopped after %d samples and %.3fs' % (n, el),
                                'speed')
            if n:
                got = [x for x in cap.lines if x.startswith('Samples/second')]
                if not got or abs(float(got[0].split('=')[1]) - n / el) > 1e-3:
                    raise Violation('speed', 'reported %s, drew %d samples in %.3fs'
                                    % (got, n, el), 'speed')
            ctx.nontrivial = len(rec.draw_start) >= 3
            ctx.shape('speed')
            ctx.probe('speed')


PROP = C06()
