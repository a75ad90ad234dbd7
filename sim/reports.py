"""Reference model of what an evaluation has to report.

Works from the recorded history of model calls alone.  `steps(run)` yields
  ('add', rows, {model: {row: value}})   results that enter the measurements
  ('emit', id, index)                    a row of measurements with that id, taken after the
                                         index-th event of the history
"""
from sim import core
from sim.core import Violation


def predictions(run):
    val = [dict() for _ in range(run.p['models'])]
    for e in run.events:
        if e[0] == 'predict':
            for r, v in zip(e[2], e[3]):
                val[e[1]][r] = v
    return val


def segments(run):
    segs = []
    for k, e in enumerate(run.events):
        if e[0] == 'next':
            segs.append((k, e, []))
        elif e[0] not in ('predict', 'fit', 'fault'):
            continue
        elif segs:
            segs[-1][2].append((k, e))
        else:
            segs.append((k, ('next', 0, [], 0.0), [(k, e)]))
    return segs


def steps(run):
    return {'preq': steps_preq, 'delayed': steps_delayed, 'holdout': steps_holdout}[
        run.p['kind']](run)


def _due(count, n_wait, limit, updates):
    return count % n_wait == 0 or count >= limit or count / n_wait > updates + 1


def total_of(run):
    p = run.p
    n = p.get('start_left', run.data.n)
    return p['max_samples'] if p['src'] == 'gen' else min(n, p['max_samples'])


def steps_preq(run):
    p, nm = run.p, run.p['models']
    total = total_of(run)
    count = updates = 0
    for si, (k, nx, ev) in enumerate(segments(run)):
        if si == 0 and p['pretrain'] > 0:
            count += p['pretrain']
            continue
        rows = nx[2]
        if not rows:
            return
        pred = [[r for _, e in ev if e[0] == 'predict' and e[1] == m for r in e[2]]
                for m in range(nm)]
        if any(x != rows for x in pred):
            return
        count += p['batch']
        vals = [{r: v for _, e in ev if e[0] == 'predict' and e[1] == m
                 for r, v in zip(e[2], e[3])} for m in range(nm)]
        last = max(kk for kk, e in ev if e[0] == 'predict')
        yield ('add', rows, vals, last)
        fit = [[r for _, e in ev if e[0] == 'fit' and e[1] == m for r in e[2]] for m in range(nm)]
        if any(x != rows for x in fit):
            return
        if _due(count, p['n_wait'], total, updates):
            yield ('emit', count - p['batch'], max(kk for kk, e in ev if e[0] == 'fit'))
            updates += 1


def steps_delayed(run):
    p, nm = run.p, run.p['models']
    val = predictions(run)
    count = updates = 0
    tries = [t for t in run.rec.tries if t[1] == 0]
    if p['pretrain'] > 0:
        count += p['pretrain']
        tries = tries[1:]
    bounds = [t[0] for t in tries[1:]] + [len(run.events)]
    for (k, _, rows), end in zip(tries, bounds):
        if not rows:
            continue
        if any(r not in val[m] for r in rows for m in range(nm)):
            raise Violation('untested', 'rows %s were trained on without every model having been '
                            'tested on them' % rows, 'delayed')
        yield ('add', rows, [{r: val[m][r] for r in rows} for m in range(nm)], k - 1)
        if _due(count, p['n_wait'], p['max_samples'], updates):
            yield ('emit', count - p['batch'], k - 1)
            updates += 1
        done = [[r for e in run.events[k:end] if e[0] == 'fit' and e[1] == m for r in e[2]]
                for m in range(nm)]
        if all(d == rows for d in done):
            count += len(rows)


def steps_holdout(run):
    p, nm = run.p, run.p['models']
    total = total_of(run)
    ts, nw, bs = p['test_size'], p['n_wait'], p['batch']
    count = tests = 0
    want = False
    static = None
    for si, (k, nx, ev) in enumerate(segments(run)):
        rows = nx[2]
        pr = [e for _, e in ev if e[0] == 'predict']
        if not p['dynamic'] and si == 0:
            count += ts
            static = rows
            continue
        if want:
            want = False
            count += len(rows)
            expect = rows
            testing = True
        else:
            count += bs
            if p['dynamic']:
                want = count >= nw * (tests + 1) + ts * tests or count >= total
                testing = False
            else:
                expect = static
                testing = (count - ts) % nw == 0 or count >= total
        if testing:
            pred = [[r for e in pr if e[1] == m for r in e[2]] for m in range(nm)]
            if any(x != expect for x in pred) or any(
                    not any(e[1] == m for e in pr) for m in range(nm)):
                return
            vals = [{r: v for e in pr if e[1] == m for r, v in zip(e[2], e[3])}
                    for m in range(nm)]
            last = max(kk for kk, e in ev if e[0] == 'predict')
            yield ('add', expect, vals, last)
            yield ('emit', count, last)
            tests += 1


def times(run, upto):
    """Simulated seconds every model spent in fit / predict in events[0..upto]."""
    nm = run.p['models']
    fit, test = [0.0] * nm, [0.0] * nm
    for k, e in enumerate(run.events[:upto + 1]):
        if e[0] == 'fit':
            fit[e[1]] += run.rec.dt[k]
        elif e[0] == 'predict':
            test[e[1]] += run.rec.dt[k]
    return fit, test


def close(a, b, tol=6e-7):
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol + 1e-9 * abs(b)


def scalar(v):
    return float(v)


def check_value(what, got, want, tol, run, extra=''):
    if not close(got, want, tol):
        raise Violation('wrong-measure', '%s reads %r, the recorded history gives %r %s'
                        % (what, got, want, extra), run.p['kind'])


def y_true(run, r):
    v = run.data.y[r]
    return v


class Refs:
    """Reference measurements of every model, mean and sliding window."""

    def __init__(self, run, window):
        from sim.refmetrics import REF
        cls = REF[run.p['task']]
        self.mean = [cls() for _ in range(run.p['models'])]
        self.cur = [cls(window=window) for _ in range(run.p['models'])]
        self.run = run
        self.METRICS = cls.METRICS
        self.n = 0

    def add(self, rows, vals):
        for m in range(self.run.p['models']):
            for r in rows:
                t = y_true(self.run, r)
                self.mean[m].add(t, vals[m][r])
                self.cur[m].add(t, vals[m][r])
        self.n += len(rows)


def window_of(p):
    return p['test_size'] if p['kind'] == 'holdout' else p['n_wait']
