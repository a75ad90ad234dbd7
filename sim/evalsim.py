"""Simulation of whole evaluations.

Real: the evaluators, the streams, the delayed-label queue, the performance metrics, the
results file (a real file in a scratch directory).  Scripted: the models (they record every
call and answer from the plan), the clock, and the faults: a model call or a stream read that
is interrupted (Ctrl-C) or fails, slow calls that advance the clock, and results-file
operations that fail without writing.
"""
import builtins
import errno
import io
import os
import shutil
import sys
import tempfile

import numpy as np

from sim import core
from sim.core import CLOCK, SimInterrupt, SimModelFailure, Violation

TASK_METRICS = {
    'clf': ['accuracy', 'kappa', 'kappa_t', 'kappa_m', 'precision', 'recall', 'f1', 'gmean',
            'true_vs_predicted'],
    'mlc': ['hamming_score', 'hamming_loss', 'exact_match', 'j_index'],
    'reg': ['mean_square_error', 'mean_absolute_error', 'true_vs_predicted'],
    'mtr': ['average_mean_square_error', 'average_mean_absolute_error',
            'average_root_mean_square_error'],
}
COLUMN = {'accuracy': 'acc', 'mean_square_error': 'mse', 'mean_absolute_error': 'mae',
          'average_mean_square_error': 'amse', 'average_mean_absolute_error': 'amae',
          'average_root_mean_square_error': 'armse'}
NEEDS_TASK = {'clf': 'accuracy', 'mlc': 'hamming_score', 'reg': 'mean_square_error',
              'mtr': 'average_mean_square_error'}


def h32(*ks):
    """Small deterministic hash of integers."""
    x = 0x9E3779B9
    for k in ks:
        x = (x ^ (k & 0xFFFFFFFF)) * 0x85EBCA6B & 0xFFFFFFFFFFFF
        x ^= x >> 17
        x = x * 0xC2B2AE35 & 0xFFFFFFFFFFFF
        x ^= x >> 21
    return x & 0xFFFFFFFF


# --------------------------------------------------------------------------
# plans
# --------------------------------------------------------------------------
def gen_eval(rng, kind, faults=True, out=None, tier='quick'):
    task = rng.choice(['clf', 'clf', 'clf', 'mlc', 'reg', 'mtr'])
    p = {'kind': kind, 'task': task}
    big = rng.random() < 0.12
    p['n'] = rng.randint(150, 400) if big else rng.randint(22, 90)
    p['nf'] = rng.choice([2, 2, 3, 5])
    p['nc'] = rng.choice([2, 2, 3, 5])
    p['dseed'] = rng.randrange(2 ** 31)
    p['models'] = rng.choice([1, 1, 2, 3])
    p['ret'] = [rng.choice(['array', 'list', 'array', 'float'])
                for _ in range(p['models'])]
    p['info'] = rng.random() < 0.5
    p['single'] = p['models'] == 1 and rng.random() < 0.5    # pass the model, not a list
    p['names'] = rng.random() < 0.3
    p['batch'] = rng.choice([1, 1, 1, 2, 3, 4, 7, 10, 25])
    p['n_wait'] = rng.choice([1, 2, 3, 5, 8, 10, 10, 20, 33, 50, 200])
    p['pretrain'] = rng.choice([0, 0, 1, 2, 5, 10, 17, 30])
    p['max_samples'] = rng.choice([100000, 100000, rng.randint(20, p['n'] + 20),
                                   p['n'], max(20, p['n'] - 1), p['n'] + 1])
    p['max_samples'] = max(20, p['max_samples'])
    p['restart'] = rng.random() < 0.6
    p['acc'] = rng.choice([0, 30, 60, 90, 100])
    ms = list(TASK_METRICS[task])
    rng.shuffle(ms)
    ms = ms[:rng.randint(1, len(ms))]
    if NEEDS_TASK[task] not in ms and (task != 'clf' or 'true_vs_predicted' in ms):
        ms.append(NEEDS_TASK[task])
    if rng.random() < 0.3:
        ms.append('running_time')
    p['metrics'] = ms
    p['out'] = (rng.random() < 0.6) if out is None else out
    # durations (simulated seconds, multiples of 1/8)
    slow = rng.random() < 0.5
    p['dur'] = [[rng.choice([0, 1, 2, 5]) if slow else 0, rng.choice([0, 1, 3]) if slow else 0]
                for _ in range(p['models'])]
    p['dur_next'] = rng.choice([0, 1]) if slow else 0
    p['max_time'] = None
    if kind == 'holdout':
        p['test_size'] = rng.choice([1, 2, 5, 10, 15])
        p['dynamic'] = rng.random() < 0.5
        p['pretrain'] = 0
    if kind == 'delayed':
        p['src'] = 'temporal'
        p['delay'] = gen_delay(rng, p)
        p['weights'] = rng.random() < 0.4
    else:
        p['src'] = rng.choice(['data', 'data', 'frame', 'file', 'gen'])
        if task in ('reg', 'mtr') and p['src'] == 'gen':
            p['src'] = 'data'
        if task == 'mlc' and p['src'] == 'gen':
            p['src'] = 'data'
        if p['src'] == 'gen' and p['max_samples'] > 1000:
            p['max_samples'] = p['n']
    p['faults'] = []
    if faults and rng.random() < 0.55:
        p['faults'] = gen_faults(rng, p)
    return p


def gen_delay(rng, p):
    how = rng.choice(['int', 'int', 'td', 'array', 'array', 'series', 'zero'])
    d = {'how': how, 'int': rng.choice([0, 1, 2, 5, 13, 40]),
         'spread': rng.choice([0, 1, 3, 10, 60]), 'step': rng.choice([0, 1, 1, 2]),
         'unordered': rng.random() < 0.2 and how in ('td', 'array')}
    return d


def gen_faults(rng, p):
    out = []
    steps = max(1, p['n'] // p['batch'])
    for _ in range(rng.choice([1, 1, 1, 2])):
        site = rng.choice(['predict', 'fit', 'next', 'predict', 'fit'])
        out.append({'site': site, 'model': rng.randrange(p['models']),
                    'nth': rng.randint(0, steps + 1),
                    'what': rng.choice(['interrupt', 'error', 'slow', 'typeerror'])})
    return out


# --------------------------------------------------------------------------
# data
# --------------------------------------------------------------------------
class Data:
    def __init__(self, p):
        rng = np.random.RandomState(p['dseed'] % (2 ** 32))
        n, nf = p['n'], p['nf']
        self.n = n
        X = np.round(rng.uniform(-4, 4, size=(n, nf)) * 8) / 8
        X[:, 0] = np.arange(n)            # unique rows
        if p['task'] in ('clf',):
            y = rng.randint(0, p['nc'], size=n)
        elif p['task'] == 'mlc':
            y = rng.randint(0, 2, size=(n, 3))
        elif p['task'] == 'reg':
            y = np.round(rng.uniform(-8, 8, size=n) * 8) / 8
        else:
            y = np.round(rng.uniform(-8, 8, size=(n, 2)) * 8) / 8
        self.X, self.y = X, y
        self.w = None
        self.arrival = self.available = None
        self.order = None


def make_stream(p, scratch):
    """-> (stream, Data) with Data rows in the order the stream must deliver them."""
    from skmultiflow.data import DataStream, FileStream, TemporalDataStream
    import pandas as pd
    d = Data(p)
    nt = 1 if d.y.ndim == 1 else d.y.shape[1]
    src = p['src']
    if src == 'data':
        return DataStream(d.X.copy(), d.y.copy()), d
    if src == 'frame':
        cols = {'f%d' % j: d.X[:, j] for j in range(d.X.shape[1])}
        Y = d.y.reshape(d.n, -1)
        for j in range(nt):
            cols['t%d' % j] = Y[:, j]
        return DataStream(pd.DataFrame(cols), n_targets=nt, target_idx=-nt), d
    if src == 'file':
        path = os.path.join(scratch, 'stream.csv')
        Y = d.y.reshape(d.n, -1)
        with open(path, 'w') as f:
            f.write(','.join(['f%d' % j for j in range(d.X.shape[1])]
                             + ['t%d' % j for j in range(nt)]) + '\n')
            for i in range(d.n):
                f.write(','.join([repr(float(v)) for v in d.X[i]]
                                 + [repr(v.item()) for v in Y[i]]) + '\n')
        return FileStream(path, n_targets=nt, target_idx=-nt), d
    if src == 'gen':
        from skmultiflow.data import RandomRBFGenerator
        g = RandomRBFGenerator(model_random_state=p['dseed'] % 1000,
                               sample_random_state=p['dseed'] % 997, n_classes=p['nc'],
                               n_features=p['nf'], n_centroids=6)
        X, y = g.next_sample(p['max_samples'] + 400)
        g.restart()
        d.X, d.y, d.n = X.copy(), y.copy(), len(X)
        return g, d
    if src == 'temporal':
        return temporal(p, d)
    raise core.HarnessError('unknown source ' + src)


def temporal(p, d):
    from skmultiflow.data import TemporalDataStream
    import pandas as pd
    rng = np.random.RandomState((p['dseed'] + 1) % (2 ** 32))
    n, dl = d.n, p['delay']
    w = None
    if p['weights']:
        w = rng.randint(1, 9, size=n) / 4.0
    if dl['how'] in ('int', 'zero'):
        k = dl['int'] if dl['how'] == 'int' else 0
        d.w = w
        d.arrival = np.arange(n)
        d.available = np.arange(n) + k
        return TemporalDataStream(d.X.copy(), d.y.copy(), sample_weight=w, sample_delay=k), d
    steps = rng.randint(0, dl['step'] + 1, size=n)
    base = np.datetime64('2020-01-01')
    t = base + np.cumsum(steps).astype('timedelta64[D]')
    if dl['how'] == 'td':
        delay = np.timedelta64(dl['spread'], 'D')
        avail = t + delay
        arg = delay
    else:
        avail = t + rng.randint(0, dl['spread'] + 1, size=n).astype('timedelta64[D]')
        arg = avail.copy()
    X, y = d.X, d.y
    ordered = True
    d.w, d.arrival, d.available = w, t, avail
    time_arg, ww = t.copy(), w
    if dl.get('unordered'):
        # the rows are handed over shuffled: unique arrival times make the order well defined
        t = base + np.arange(n).astype('timedelta64[D]')
        avail = t + (avail - d.arrival)
        d.arrival, d.available = t, avail
        perm = rng.permutation(n)
        X, y, time_arg = X[perm], y[perm], t[perm]
        ww = None if w is None else w[perm]
        if dl['how'] != 'td':
            arg = avail[perm]
        ordered = False
    if dl['how'] == 'series':
        arg = pd.Series(arg)
        time_arg = pd.Series(time_arg)
    s = TemporalDataStream(X.copy(), y.copy(), time_arg, sample_weight=ww, sample_delay=arg,
                           ordered=ordered)
    return s, d


# --------------------------------------------------------------------------
# recording and faults
# --------------------------------------------------------------------------
class Recorder:
    def __init__(self, p, data, ctx, faults=None, outfile=None):
        self.p, self.data, self.ctx = p, data, ctx
        self.events = []
        self.ids = {}
        for i in range(data.n):
            self.ids[np.ascontiguousarray(data.X[i], dtype=float).tobytes()] = i
        self.counts = {}
        self.faults = {}
        for f in (p['faults'] if faults is None else faults):
            self.faults[(f['site'], f.get('model', 0) if f['site'] in ('predict', 'fit') else 0,
                         f['nth'])] = f
        self.fired = []
        self.outfile = outfile
        self.snapshots = []
        self.snap_size = -1
        self.busy = 0.0
        self.active = False       # between evaluate() start and end
        self.clock_after = {}
        self.dt = {}              # index of a predict/fit event -> simulated duration
        self.tries = []           # (index of the next event, model, rows) of every fit attempted
        self.stdout = io.StringIO()
        self.draw_start = []      # clock when a draw was asked for

    # -- identity -------------------------------------------------------
    def rows(self, X, what):
        try:
            A = np.asarray(X, dtype=float)
        except (TypeError, ValueError):
            raise Violation('foreign-sample', '%s received something that is not a matrix of '
                            'samples: %s' % (what, core.short(X)), what)
        if A.ndim == 1 and A.size == 0:
            return []
        if A.ndim != 2:
            raise Violation('foreign-sample', '%s received an array of shape %s'
                            % (what, A.shape), what)
        out = []
        for r in A:
            k = self.ids.get(np.ascontiguousarray(r).tobytes())
            if k is None:
                raise Violation('foreign-sample', '%s received a sample that is not in the '
                                'stream: %s' % (what, core.short(r)), what)
            out.append(k)
        return out

    # -- fault sites ----------------------------------------------------
    def site(self, name, model=0):
        key = (name, model)
        k = self.counts.get(key, 0)
        self.counts[key] = k + 1
        f = self.faults.get((name, model, k))
        if f is None:
            return
        self.fired.append(f)
        self.ctx.fault('%s-%s' % (name, f['what']))
        self.ctx.ev('fault', name, model, f['what'])
        if f['what'] == 'slow':
            CLOCK.advance(f.get('secs', 64))
            return
        self.events.append(('fault', name, model, f['what']))
        if f['what'] == 'interrupt':
            raise SimInterrupt('injected interrupt')
        if f['what'] == 'typeerror':
            raise TypeError('injected type error')
        if f['what'] == 'io':
            raise OSError(errno.ENOSPC, 'injected: no space left on device')
        raise SimModelFailure('injected failure')

    def snapshot(self):
        if self.outfile is None or not self.active:
            return
        try:
            size = os.stat(self.outfile).st_size
        except OSError:
            size = None
        if size != self.snap_size:
            self.snap_size = size
            if size is not None:
                with REAL_OPEN(self.outfile, 'r') as f:
                    self.snapshots.append((len(self.events), f.read()))


REAL_OPEN = builtins.open
REAL_IO_OPEN = io.open


class FaultyFile:
    """Proxy of the results file whose write may fail before anything is written."""

    def __init__(self, f, rec):
        self._f, self._rec = f, rec

    def write(self, s):
        self._rec.site('write')
        return self._f.write(s)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __iter__(self):
        return iter(self._f)


class OpenShim:
    def __init__(self, rec):
        self.rec = rec

    def __call__(self, file, mode='r', *a, **k):
        rec = self.rec
        if isinstance(file, (str, bytes, os.PathLike)) and rec.outfile is not None \
                and os.path.abspath(os.fspath(file)) == rec.outfile and rec.active \
                and any(c in mode for c in 'wax+'):
            rec.site('open')
            rec.events.append(('open', mode))
            return FaultyFile(REAL_OPEN(file, mode, *a, **k), rec)
        return REAL_OPEN(file, mode, *a, **k)


class StubModel:
    """Records what it is given; answers from the plan."""

    def __init__(self, i, rec, p):
        self.i, self.rec, self.p = i, rec, p
        self.calls = 0
        self.log = []                # (row, prediction) in order
        if p.get('info'):
            self.get_info = lambda: 'Stub(\n   i=%d)' % i

    def __repr__(self):
        return 'Stub%d' % self.i

    def answer(self, r):
        p = self.p
        h = h32(p['dseed'], self.i, r, self.calls)
        y = self.rec.data.y[r]
        if p['task'] == 'clf':
            v = int(y)
            if h % 100 >= p['acc']:
                v = (h >> 8) % (p['nc'] + (1 if (h >> 20) % 7 == 0 else 0))
            return v
        if p['task'] == 'mlc':
            v = np.array(y, dtype=int)
            if h % 100 >= p['acc']:
                v = v ^ np.array([(h >> s) & 1 for s in range(8, 8 + len(v))])
            return v
        if p['task'] == 'reg':
            return float(y) + (((h >> 8) % 33) - 16) / 8.0 * (h % 100 >= p['acc'])
        return np.array(y, dtype=float) + np.array(
            [(((h >> s) % 17) - 8) / 8.0 for s in range(4, 4 + len(y))])

    def predict(self, X):
        rec = self.rec
        rec.snapshot()
        rows = rec.rows(X, 'predict')
        t0 = CLOCK.now
        rec.site('predict', self.i)
        self.calls += 1
        vals = [self.answer(r) for r in rows]
        rec.events.append(('predict', self.i, rows, vals))
        rec.ctx.ev('predict', self.i, rows)
        rec.ctx.shape('p', self.i, len(rows))
        dt = self.p['dur'][self.i][0] / 8.0
        CLOCK.advance(dt)
        rec.dt[len(rec.events) - 1] = CLOCK.now - t0
        rec.clock_after[len(rec.events) - 1] = CLOCK.now
        how = self.p['ret'][self.i]
        if self.p['task'] in ('mlc', 'mtr'):
            if how == 'list':
                return [np.array(v) for v in vals]
            return np.array(vals).reshape((len(vals),) + self.rec.data.y.shape[1:])
        if how == 'list':
            return list(vals)
        if how == 'float':
            return np.array(vals, dtype=float)
        return np.array(vals)

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        rec = self.rec
        rec.snapshot()
        rows = rec.rows(X, 'partial_fit')
        rec.tries.append((len(rec.events), self.i, rows))
        t0 = CLOCK.now
        rec.site('fit', self.i)
        try:
            yy = np.asarray(y).tolist()
        except Exception:
            yy = repr(y)
        rec.events.append(('fit', self.i, rows, yy,
                           None if classes is None else flat(classes),
                           None if sample_weight is None else np.asarray(sample_weight).tolist()))
        rec.ctx.ev('fit', self.i, rows)
        rec.ctx.shape('f', self.i, len(rows))
        dt = self.p['dur'][self.i][1] / 8.0
        CLOCK.advance(dt)
        rec.dt[len(rec.events) - 1] = CLOCK.now - t0
        rec.clock_after[len(rec.events) - 1] = CLOCK.now
        return self


def flat(c):
    out = set()
    stack = [c]
    while stack:
        x = stack.pop()
        if isinstance(x, (list, tuple, np.ndarray, set)):
            stack.extend(list(x))
        else:
            out.add(float(x))
    return sorted(out)


# --------------------------------------------------------------------------
# running
# --------------------------------------------------------------------------
class Run:
    pass


def build_evaluator(p, outfile):
    from skmultiflow.evaluation import (EvaluatePrequential, EvaluateHoldout,
                                        EvaluatePrequentialDelayed)
    kw = dict(n_wait=p['n_wait'], max_samples=p['max_samples'], batch_size=p['batch'],
              metrics=list(p['metrics']), output_file=outfile,
              restart_stream=p['restart'])
    if p.get('max_time') is not None:
        kw['max_time'] = p['max_time']
    if p['kind'] == 'preq':
        return EvaluatePrequential(pretrain_size=p['pretrain'], **kw)
    if p['kind'] == 'delayed':
        return EvaluatePrequentialDelayed(pretrain_size=p['pretrain'], **kw)
    return EvaluateHoldout(test_size=p['test_size'], dynamic_test_set=p['dynamic'], **kw)


def attach(stream, rec, p):
    """Record (and disturb) what the stream hands out."""
    cls_next = type(stream).next_sample

    def next_sample(batch_size=1):
        rec.snapshot()
        rec.draw_start.append(CLOCK.now)
        rec.site('next')
        CLOCK.advance(p['dur_next'] / 8.0)
        res = cls_next(stream, batch_size)
        rows = [] if res[0] is None else rec.rows(res[0], 'next_sample')
        rec.events.append(('next', batch_size, rows, CLOCK.now))
        rec.ctx.ev('next', batch_size, rows)
        rec.ctx.shape('n', len(rows))
        return res
    stream.next_sample = next_sample
    cls_restart = type(stream).restart

    def restart():
        rec.events.append(('restart',))
        return cls_restart(stream)
    stream.restart = restart


def detach(stream):
    for k in ('next_sample', 'restart'):
        stream.__dict__.pop(k, None)


class Sim:
    """One scratch directory, one stream, possibly several evaluations on it."""

    def __init__(self, p, ctx):
        self.p, self.ctx = p, ctx
        self.scratch = tempfile.mkdtemp(prefix='ev-', dir=os.environ.get('VERIF_SCRATCH'))
        self.outfile = os.path.join(self.scratch, 'results.csv') if p.get('out') else None
        self.stream, self.data = make_stream(p, self.scratch)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def evaluate(self, ev=None, faults=None, models=None):
        p = self.p
        run = Run()
        rec = Recorder(p, self.data, self.ctx, faults, self.outfile)
        run.rec, run.p, run.data = rec, p, self.data
        run.ev = ev if ev is not None else build_evaluator(p, self.outfile)
        run.models = [StubModel(i, rec, p) for i in range(p['models'])]
        run.target_values = getattr(self.stream, 'target_values', None)
        attach(self.stream, rec, p)
        names = ['mod%d' % (i * 7) for i in range(p['models'])] if p['names'] else None
        run.names = names or ['M%d' % i for i in range(p['models'])]
        run.start = CLOCK.now
        run.escaped = None
        run.returned = None
        builtins.open = io.open = OpenShim(rec)
        bufsize = io.DEFAULT_BUFFER_SIZE
        if p.get('bufsize'):
            io.DEFAULT_BUFFER_SIZE = p['bufsize']      # memory pressure: a smaller row buffer
        rec.active = True
        out, sys.stdout = sys.stdout, rec.stdout
        try:
            arg = run.models[0] if p['single'] else run.models
            run.returned = run.ev.evaluate(stream=self.stream, model=arg, model_names=names)
        except (SimInterrupt, SimModelFailure, OSError, TypeError) as e:
            if any(f['what'] != 'slow' for f in rec.fired):
                run.escaped = e
            else:
                raise
        finally:
            sys.stdout = out
            io.DEFAULT_BUFFER_SIZE = bufsize
            builtins.open, io.open = REAL_OPEN, REAL_IO_OPEN
            rec.active = False
            detach(self.stream)
        run.end = CLOCK.now
        run.events = rec.events
        run.aborted = any(f['what'] != 'slow' for f in rec.fired)
        run.text = None
        if self.outfile is not None:
            try:
                with REAL_OPEN(self.outfile) as f:
                    run.text = f.read()
            except OSError:
                run.text = None
        self.ctx.ev('returned', run.returned is not None, len(run.events),
                    None if run.text is None else core.mix(run.text))
        return run


# --------------------------------------------------------------------------
# reading results files
# --------------------------------------------------------------------------
def parse_results(text, p, names, complete=True):
    """-> (header fields, rows as list of (id:int, {column: value})) or Violation."""
    lines = text.split('\n')
    body = [ln for ln in lines if not ln.startswith('#')]
    if not lines[0].startswith('# TEST CONFIGURATION BEGIN'):
        raise Violation('bad-file', 'the results file does not start with the configuration '
                        'block: %s' % core.short(lines[0]), 'file')
    if not any(ln.startswith('# TEST CONFIGURATION END') for ln in lines):
        raise Violation('bad-file', 'configuration block is not closed', 'file')
    body = [ln for ln in body if ln != '']
    if not body:
        raise Violation('bad-file', 'no header line', 'file')
    header = body[0].split(',')
    if header[0] != 'id':
        raise Violation('bad-file', 'first column is %r' % header[0], 'file')
    rows = []
    for ln in body[1:]:
        f = ln.split(',')
        if len(f) != len(header):
            raise Violation('torn-row', 'row %r has %d fields, header has %d'
                            % (ln, len(f), len(header)), 'file')
        try:
            vals = [float(x) for x in f]
        except ValueError:
            raise Violation('torn-row', 'row %r is not numeric' % ln, 'file')
        rows.append((int(vals[0]), dict(zip(header[1:], vals[1:])), ln))
    return header, rows


def expected_header(p, names):
    cols = ['id']
    plot = [m for m in p['metrics'] if m not in ('running_time', 'model_size')]
    rest = [m for m in p['metrics'] if m in ('running_time', 'model_size')]
    for m in plot + rest:
        if m == 'true_vs_predicted':
            cols.append('true_value')
            cols += ['predicted_value_[%s]' % n for n in names]
        elif m == 'running_time':
            for n in names:
                cols += ['training_time_[%s]' % n, 'testing_time_[%s]' % n,
                         'total_running_time_[%s]' % n]
        else:
            c = COLUMN.get(m, m)
            for n in names:
                cols += ['mean_%s_[%s]' % (c, n), 'current_%s_[%s]' % (c, n)]
    return cols


# --------------------------------------------------------------------------
# what happened, from the recorded history
# --------------------------------------------------------------------------
def y_of(data, r):
    v = data.y[r]
    return v.tolist() if isinstance(v, np.ndarray) else v


def check_fit_payload(run, e):
    """The labels (and weights) given to a model belong to the samples given to it."""
    _, m, rows, yy, classes, w = e
    want = [y_of(run.data, r) for r in rows]
    if not isinstance(yy, list) or not core.same(np.asarray(yy, dtype=float).reshape(-1),
                                                 np.asarray(want, dtype=float).reshape(-1)):
        raise Violation('wrong-label', 'model %d was trained on rows %s with labels %s instead '
                        'of %s' % (m, rows, core.short(yy), core.short(want)), run.p['kind'])


def draws(run):
    return [e for e in run.events if e[0] == 'next']


def complete_predictions(run):
    """Results that count: samples for which every model answered, batch by batch.

    -> list of (rows, [values of model 0, values of model 1, ...]) in order."""
    nm = run.p['models']
    per = {i: [] for i in range(nm)}
    out = []
    for e in run.events:
        if e[0] == 'next':
            per = {i: [] for i in range(nm)}
        elif e[0] == 'predict':
            per[e[1]].append((e[2], e[3]))
            if all(sum(len(r) for r, _ in per[i]) == sum(len(r) for r, _ in per[0])
                   and per[i] for i in range(nm)) and e[1] == nm - 1:
                rows = [r for rr, _ in per[0] for r in rr]
                vals = [[v for _, vv in per[i] for v in vv] for i in range(nm)]
                out.append((rows, vals))
                per = {i: [] for i in range(nm)}
    return out
