"""C04: every reported measurement is the metric of the predictions actually made."""
import re

import numpy as np

from sim import core, evalsim, reports
from sim.core import Violation

SUMMARY = {'accuracy': 'Accuracy', 'kappa': 'Kappa', 'kappa_t': 'Kappa T', 'kappa_m': 'Kappa M',
           'precision': 'Precision', 'recall': 'Recall', 'f1': 'F1 score',
           'hamming_score': 'Hamming score', 'hamming_loss': 'Hamming loss',
           'exact_match': 'Exact matches', 'j_index': 'Jaccard index',
           'mean_square_error': 'MSE', 'mean_absolute_error': 'MAE',
           'average_mean_square_error': 'AMSE', 'average_mean_absolute_error': 'AMAE',
           'average_root_mean_square_error': 'ARMSE'}


def check_reports(run, ctx, prefix=False, rows=None, final=True):
    """Rows of the results file and the final measurements against the recorded history."""
    p = run.p
    nm = p['models']
    refs = reports.Refs(run, reports.window_of(p))
    out = None
    if run.text is not None:
        header, out = evalsim.parse_results(run.text, p, run.names)
        want = evalsim.expected_header(p, run.names)
        if header != want:
            raise Violation('header', 'columns %s, expected %s' % (header, want), p['kind'])
    i = 0
    last_mean = None
    for st in reports.steps(run):
        if st[0] == 'add':
            refs.add(st[1], st[2])
            last_rows, last_vals = st[1], st[2]
            continue
        _, rid, upto = st
        if refs.n == 0 and out is not None and (i >= len(out) or out[i][0] != rid):
            continue             # nothing was measured: an empty test set at the stream's end
        if out is not None:
            if i >= len(out):
                if prefix:
                    break
                raise Violation('missing-row', 'the report of sample %d is missing: the file has '
                                '%d rows' % (rid, len(out)), p['kind'])
            gid, cols, line = out[i]
            if gid != rid:
                raise Violation('row-id', 'row %d has id %d, expected %d' % (i, gid, rid),
                                p['kind'])
            for metric in p['metrics']:
                if metric in ('running_time', 'model_size') or refs.n == 0:
                    continue
                if metric == 'true_vs_predicted':
                    if not last_rows:
                        continue
                    r = last_rows[-1]
                    reports.check_value('true_value in row %d' % gid, cols['true_value'],
                                        float(run.data.y[r]), 6e-7, run)
                    for m in range(nm):
                        reports.check_value('predicted_value of %s in row %d'
                                            % (run.names[m], gid),
                                            cols['predicted_value_[%s]' % run.names[m]],
                                            float(last_vals[m][r]), 6e-7, run)
                    continue
                c = evalsim.COLUMN.get(metric, metric)
                ref = refs.METRICS[metric][0]
                for m in range(nm):
                    reports.check_value(
                        'mean %s of %s in row %d' % (metric, run.names[m], gid),
                        cols['mean_%s_[%s]' % (c, run.names[m])],
                        getattr(refs.mean[m], ref)(), 6e-7, run, '(%d results)' % refs.n)
                    reports.check_value(
                        'current %s of %s in row %d' % (metric, run.names[m], gid),
                        cols['current_%s_[%s]' % (c, run.names[m])],
                        getattr(refs.cur[m], ref)(), 6e-7, run, '(last %d of %d results)'
                        % (reports.window_of(p), refs.n))
        last_mean = [{mt: getattr(refs.mean[m], refs.METRICS[mt][0])() for mt in p['metrics']
                      if mt in SUMMARY and refs.n} for m in range(nm)]
        i += 1
    if out is not None and i < len(out):
        raise Violation('extra-row', 'unexpected row %r after %d rows' % (out[i][2], i), p['kind'])
    ctx.probe('rows', i)
    if not final or run.escaped is not None:
        return i
    # the measurements the evaluator hands out
    mean, cur = run.ev.get_mean_measurements(), run.ev.get_current_measurements()
    if len(mean) != nm or len(cur) != nm:
        raise Violation('measurements', '%d measurements for %d models' % (len(mean), nm),
                        p['kind'])
    if refs.n:
        for m in range(nm):
            for mt, (ref, meth) in refs.METRICS.items():
                for nme, a, b in (('mean', mean[m], refs.mean[m]), ('current', cur[m],
                                                                    refs.cur[m])):
                    g = getattr(a, meth)()
                    w = getattr(b, ref)()
                    reports.check_value('%s %s of %s at the end' % (nme, mt, run.names[m]),
                                        float(g), w, 1e-9, run, '(%d results)' % refs.n)
    # the printed summary
    text = run.rec.stdout.getvalue()
    if last_mean is not None and 'Mean performance' in text:
        for m in range(nm):
            for mt, w in last_mean[m].items():
                pat = r'^%s - %s *: *(\S+)$' % (re.escape(run.names[m]), re.escape(SUMMARY[mt]))
                hit = re.findall(pat, text, re.M)
                if len(hit) != 1:
                    raise Violation('summary', 'the summary has %d lines for %s of %s'
                                    % (len(hit), mt, run.names[m]), p['kind'])
                reports.check_value('summary of %s of %s' % (mt, run.names[m]), float(hit[0]), w,
                                    5.1e-5, run)
        ctx.probe('summary')
    elif last_mean is not None:
        raise Violation('summary', 'no summary was printed after a measured evaluation', p['kind'])
    return i


class C04(core.Prop):
    ID = 'C04'
    RULE = ('one run = one evaluation (prequential, delayed or holdout) of 1-3 scripted models '
            'with known predictions and injected interrupts, failures and slow calls; every row '
            'of the results file, the final measurements and the printed summary are recomputed '
            'from the recorded calls; non-trivial: at least one row and 10 results; distinct by '
            'the sequence of calls, metrics and fired faults')
    ASSUMPTIONS = ['models are scripted stand-ins that record every call',
                   'reference metrics are written from their documented definitions, with every '
                   'result of weight one']
    REAL = ['EvaluatePrequential', 'EvaluatePrequentialDelayed', 'EvaluateHoldout', 'streams',
            'performance evaluators (mean and window)', 'evaluation data buffer', 'results file']
    STUB = ['models (scripted, recording)', 'clock']
    QUICK_RUNS = 3000
    THOROUGH_RUNS = 80000
    SHRINK_LISTS = ('faults', 'metrics')
    SHRINK_INTS = {'n': 20, 'batch': 1, 'n_wait': 1, 'models': 1, 'max_samples': 20,
                   'test_size': 1, 'pretrain': 0}
    SHRINK_TO = {'names': False, 'dur_next': 0, 'single': False}

    def gen(self, rng, tier, index):
        kind = ('preq', 'holdout', 'preq', 'delayed')[index % 4]
        p = evalsim.gen_eval(rng, kind, tier=tier, out=rng.random() < 0.9)
        if kind == 'delayed' and p['n'] > 150:
            p['n'] = 150
        return p

    def run(self, plan, ctx):
        with evalsim.Sim(plan, ctx) as sim:
            run = sim.evaluate()
            n = check_reports(run, ctx, prefix=run.escaped is not None)
            ctx.shape(plan['kind'], plan['task'], ','.join(plan['metrics']))
            ctx.nontrivial = n >= 1 and sum(1 for e in run.events if e[0] == 'predict') >= 10
            ctx.probe('aborted' if run.aborted else 'complete')


PROP = C04()
