"""C05: the results file is a valid prefix of the report at every instant, complete at the end."""
import io

from sim import core, evalsim, reports
from sim.core import Violation
from sim.props.c04 import check_reports


def body_rows(text):
    lines = text.split('\n')
    return [ln for ln in lines if ln and not ln.startswith('#')]


def io_fired(run):
    return [f for f in run.rec.fired if f['site'] in ('open', 'write')]


def check_file(run, ctx):
    p = run.p
    iof = io_fired(run)
    started = any(e[0] == 'next' for e in run.events)
    if not started and run.aborted:
        return                       # it failed while the header was being written
    if run.text is None:
        raise Violation('no-file', 'there is no results file', p['kind'])
    header, rows = evalsim.parse_results(run.text, p, run.names)
    if header != evalsim.expected_header(p, run.names):
        raise Violation('header', 'columns %s, expected %s'
                        % (header, evalsim.expected_header(p, run.names)), p['kind'])
    ids = [r[0] for r in rows]
    for a, b in zip(ids, ids[1:]):
        if b < a or (b == a and p['kind'] == 'preq'):
            raise Violation('row-order', 'row %d follows row %d in the results file' % (b, a),
                            p['kind'])
    emitted = [(st[1], st[2]) for st in reports.steps(run) if st[0] == 'emit']
    # every state of the file seen during the run is a prefix of the final one
    for idx, snap in run.rec.snapshots:
        evalsim.parse_results(snap, p, run.names)
        if not run.text.startswith(snap):
            raise Violation('rewritten', 'content of the results file seen during the run is not '
                            'a prefix of the final file: ...%r' % snap[-120:], p['kind'])
        if idx == 0 or snap.endswith('\n') or run.text == snap:
            continue
        if run.text[len(snap)] != '\n':
            raise Violation('torn-row', 'a partial row was visible during the run: ...%r'
                            % snap[-120:], p['kind'])
    if not run.rec.snapshots:
        raise Violation('no-file', 'no results file existed while models were being called',
                        p['kind'])
    if p['kind'] == 'delayed' and iof:
        return
    # the rows are the reported ones, in order, none missing but those lost with a failed write
    want = [i for i, _ in emitted]
    if ids != want[:len(ids)]:
        raise Violation('rows', 'the file has rows %s, reported were %s' % (ids, want), p['kind'])
    if run.escaped is None and len(ids) < len(want):
        missing = len(want) - len(ids)
        # one row is lost with each failed flush (the evaluation stops there)
        if missing > len(iof):
            raise Violation('missing-row', 'the evaluation returned and reported %s, the file '
                            'only has %s' % (want, ids), p['kind'])
    # what a crash could lose is bounded by one buffer
    limit = (p.get('bufsize') or io.DEFAULT_BUFFER_SIZE)
    lines = body_rows(run.text)[1:]
    for j, (rid, upto) in enumerate(emitted[:len(lines)]):
        nxt = [k for k in range(upto + 1, len(run.events))
               if run.events[k][0] in ('next', 'predict', 'fit', 'fault')]
        snap = None
        for idx, s in run.rec.snapshots:
            if nxt and idx <= nxt[0]:
                snap = s
        if snap is None or iof:
            continue
        have = len(body_rows(snap)) - 1
        pend = lines[have:j + 1]
        if sum(len(x) + 1 for x in pend) > limit + max(len(x) for x in lines) + 2:
            raise Violation('not-flushed', '%d reported rows (%d bytes) were only in memory while '
                            'the evaluation went on; the buffer holds %d bytes'
                            % (len(pend), sum(len(x) + 1 for x in pend), limit), p['kind'])
        if have > j + 1:
            raise Violation('rows', 'more rows in the file than reported', p['kind'])
    ctx.probe('rows', len(ids))
    if len(run.rec.snapshots) > 1:
        ctx.probe('flushed-while-running', len(run.rec.snapshots) - 1)


class C05(core.Prop):
    ID = 'C05'
    RULE = ('one run = one evaluation writing its results file while opens and writes fail '
            '(nothing written), calls are interrupted or fail, and the row buffer is shrunk; the '
            'file is looked at before every model and stream call (= every point where a crash '
            'could leave it); non-trivial: a row was written or a file fault fired; distinct by '
            'the sequence of calls and fired faults')
    ASSUMPTIONS = ['a failing write writes nothing; a write torn by the operating system is not '
                   'injected', 'models are scripted stand-ins']
    REAL = ['EvaluatePrequential', 'EvaluatePrequentialDelayed', 'EvaluateHoldout', 'streams',
            'results file on a real file system']
    STUB = ['models (scripted, recording)', 'clock', 'open() of the results file (fails on plan)']
    QUICK_RUNS = 4000
    THOROUGH_RUNS = 100000
    SHRINK_LISTS = ('faults', 'metrics')
    SHRINK_INTS = {'n': 20, 'batch': 1, 'n_wait': 1, 'models': 1, 'max_samples': 20,
                   'test_size': 1, 'pretrain': 0}
    SHRINK_TO = {'names': False, 'dur_next': 0, 'single': False}

    def gen(self, rng, tier, index):
        kind = ('preq', 'holdout', 'preq', 'delayed')[index % 4]
        p = evalsim.gen_eval(rng, kind, tier=tier, out=True)
        if kind == 'delayed' and p['n'] > 150:
            p['n'] = 150
        p['n_wait'] = rng.choice([1, 1, 2, 3, 5, 10, 20])
        p['bufsize'] = rng.choice([0, 100, 300, 700, 2000])
        if rng.random() < 0.5:
            p['faults'] = p['faults'][:1]
            for _ in range(rng.choice([1, 1, 2, 3])):
                site = rng.choice(['open', 'write'])
                nth = rng.randint(1, 8) if site == 'open' else rng.randint(4, 16)
                if rng.random() < 0.1:
                    nth = rng.randint(0, 5)
                p['faults'].append({'site': site, 'nth': nth,
                                    'what': rng.choice(['io', 'io', 'interrupt'])})
        return p

    def run(self, plan, ctx):
        with evalsim.Sim(plan, ctx) as sim:
            run = sim.evaluate()
            check_file(run, ctx)
            if not io_fired(run):
                check_reports(run, ctx, prefix=run.escaped is not None)
            n = len(body_rows(run.text)) - 1 if run.text else 0
            ctx.nontrivial = n >= 1 or bool(io_fired(run))
            ctx.probe('aborted' if run.aborted else 'complete')


PROP = C05()
