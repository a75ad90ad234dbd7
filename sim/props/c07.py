"""C07: an interrupted or failed evaluation leaves evaluator and stream fit for use."""
from sim import core, evalsim, reports
from sim.core import CLOCK, Violation
from sim.props.c05 import io_fired


def observed(run, sim, task):
    """What a user sees of an evaluation."""
    ev = [e[:3] if e[0] == 'next' else e for e in run.events if e[0] in ('next', 'predict', 'fit')]
    text = None if run.text is None else run.text.replace(sim.scratch, '')
    meas = []
    if run.escaped is None:
        from sim.refmetrics import REF
        for a in (run.ev.get_mean_measurements(), run.ev.get_current_measurements()):
            for x in a:
                meas.append([float(getattr(x, meth)()) for _, meth in REF[task].METRICS.values()]
                            if any(e[0] == 'predict' and e[2] for e in run.events) else None)
    return ev, text, meas


class C07(core.Prop):
    ID = 'C07'
    RULE = ('one run = one or two disturbed evaluations (interrupts, model failures, failing file '
            'operations) followed by an undisturbed one with the same evaluator, output file and '
            'stream, compared with the same evaluation made by a fresh evaluator on a fresh '
            'stream; non-trivial: a fault fired; distinct by the sequence of calls and faults')
    ASSUMPTIONS = ['models are scripted stand-ins and deterministic',
                   'after an error that reaches the caller, or when restart_stream is off, the '
                   'caller restarts the stream before the next evaluation']
    REAL = ['EvaluatePrequential', 'EvaluatePrequentialDelayed', 'EvaluateHoldout', 'streams',
            'performance evaluators', 'results file']
    STUB = ['models (scripted, recording)', 'clock', 'open() of the results file (fails on plan)']
    QUICK_RUNS = 1600
    THOROUGH_RUNS = 60000
    SHRINK_LISTS = ('faults', 'faults2', 'metrics')
    SHRINK_INTS = {'n': 20, 'batch': 1, 'n_wait': 1, 'models': 1, 'max_samples': 20,
                   'test_size': 1, 'pretrain': 0}
    SHRINK_TO = {'names': False, 'dur_next': 0, 'single': False}

    def gen(self, rng, tier, index):
        kind = ('preq', 'holdout', 'preq', 'delayed')[index % 4]
        p = evalsim.gen_eval(rng, kind, tier=tier, out=rng.random() < 0.7)
        if p['n'] > 120:
            p['n'] = 120
        if p['max_samples'] > 1000 and p['src'] == 'gen':
            p['max_samples'] = p['n']
        p['n_wait'] = rng.choice([1, 2, 3, 5, 10, 20])
        p['metrics'] = [m for m in p['metrics'] if m != 'running_time']
        p['bufsize'] = rng.choice([0, 0, 300, 2000])

        def some():
            fs = evalsim.gen_faults(rng, p)
            if p['out'] and rng.random() < 0.4:
                site = rng.choice(['open', 'write'])
                fs.append({'site': site, 'nth': rng.randint(1, 4) if site == 'open'
                           else rng.randint(4, 14), 'what': rng.choice(['io', 'interrupt'])})
            return fs
        p['faults'] = some()
        p['faults2'] = some() if rng.random() < 0.3 else []
        return p

    def run(self, plan, ctx):
        p = plan
        with evalsim.Sim(p, ctx) as ref:
            want_run = ref.evaluate(faults=[])
            want = observed(want_run, ref, p['task'])
            end_left = ref.stream.n_remaining_samples()
        CLOCK.reset()
        with evalsim.Sim(p, ctx) as sim:
            ev = None
            for k, fs in enumerate((p['faults'], p['faults2'])):
                if k and not fs:
                    continue
                run = sim.evaluate(ev=ev, faults=fs)
                ev = run.ev
                drawn = sum(len(e[2]) for e in run.events if e[0] == 'next')
                if run.aborted:
                    ctx.nontrivial = True
                    ctx.probe('escaped' if run.escaped is not None else 'handled')
                left = sim.stream.n_remaining_samples()
                if p['src'] != 'gen':
                    restarted = p['restart'] and run.escaped is None
                    exp = run.data.n if restarted else run.data.n - drawn
                    if left != exp and not (run.escaped is not None and left == run.data.n):
                        raise Violation('stream-position', 'after the evaluation the stream has %d '
                                        'samples left, expected %d (%d drawn, restart_stream=%s)'
                                        % (left, exp, drawn, p['restart']), p['kind'])
                if run.escaped is not None or not p['restart']:
                    sim.stream.restart()
            run = sim.evaluate(ev=ev, faults=[])
            got = observed(run, sim, p['task'])
        if len(got[0]) != len(want[0]) or any(not _eq(a, b) for a, b in
                                              zip(got[0], want[0])):
            k = next((i for i, (a, b) in enumerate(zip(got[0], want[0])) if not _eq(a, b)),
                     min(len(got[0]), len(want[0])))
            raise Violation('different-run', 'the evaluation after a disturbed one made %d calls '
                            'instead of %d; first difference at call %d: %s / %s'
                            % (len(got[0]), len(want[0]), k, core.short(got[0][k:k + 1]),
                               core.short(want[0][k:k + 1])), p['kind'])
        if got[1] != want[1]:
            a, b = (got[1] or '').split('\n'), (want[1] or '').split('\n')
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Violation('different-file', 'the results file of the evaluation after a '
                            'disturbed one differs from that of a fresh evaluator at line %d: '
                            '%r instead of %r' % (k, a[k:k + 1], b[k:k + 1]), p['kind'])
        if len(got[2]) != len(want[2]) or not all(
                (x is None and y is None) or (x is not None and y is not None and core.same(x, y))
                for x, y in zip(got[2], want[2])):
            raise Violation('different-measures', 'measurements %s instead of %s'
                            % (core.short(got[2]), core.short(want[2])), p['kind'])
        ctx.shape(p['kind'])


def _eq(a, b):
    return repr(a) == repr(b)


PROP = C07()
