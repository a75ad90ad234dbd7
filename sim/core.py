"""Deterministic-simulation core.

A *plan* is a JSON document holding every decision of one simulated run: the
configuration, the schedule of operations and the faults.  It is drawn from
one PRNG seeded by (VERIF_SEED, property, run index).  Executing a plan is a
pure function of the plan and of the code under test: the clock, the file
system faults, the process-global PRNGs and the interleaving are all owned by
the simulator.
"""
import collections
import hashlib
import json
import os
import random
import traceback

import numpy as np


def mix(*keys):
    h = hashlib.sha256('|'.join(str(k) for k in keys).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Violation(Exception):
    """The property is broken on this run."""

    def __init__(self, kind, message, subject=''):
        super().__init__(message)
        self.kind = kind            # class of violation (kept by the shrinker)
        self.message = message
        self.subject = subject      # component it was seen on


class HarnessError(Exception):
    pass


class SimInterrupt(KeyboardInterrupt):
    """An injected Ctrl-C."""


class SimModelFailure(RuntimeError):
    """An injected failure of a model call."""


class Ctx:
    """What one run records."""

    def __init__(self, keep_log=False):
        self.n_events = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.sim_time = 0.0
        self._h = hashlib.sha256()
        self._shape = hashlib.sha256()
        self.log = [] if keep_log else None
        self.nontrivial = False

    def ev(self, kind, *data):
        """Record an event.  Never draws randomness, never reads a clock."""
        self.n_events += 1
        line = kind + ' ' + ' '.join(render(d) for d in data)
        self._h.update(line.encode() + b'\n')
        if self.log is not None:
            self.log.append(line)

    def shape(self, *data):
        """Contribute to the interleaving signature (schedule without payloads)."""
        self._shape.update(('|'.join(str(d) for d in data) + '\n').encode())

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self._shape.update(b'F' + kind.encode())

    def probe(self, name, n=1):
        self.probes[name] += n

    def digest(self):
        return self._h.hexdigest()

    def shape_digest(self):
        return self._shape.hexdigest()[:16]


def render(d):
    if isinstance(d, np.ndarray):
        return 'nd%s:%s' % (d.shape, hashlib.sha1(
            np.ascontiguousarray(d).tobytes() if d.dtype != object
            else repr(d.tolist()).encode()).hexdigest()[:12])
    if isinstance(d, float):
        return repr(d)
    return str(d)


# --------------------------------------------------------------------------
# comparing results
# --------------------------------------------------------------------------
def as_array(x, what='result', subject=''):
    if x is None:
        raise Violation('malformed-result', '%s is None' % what, subject)
    try:
        return np.asarray(x)
    except Exception as e:           # ragged etc.
        raise Violation('malformed-result', '%s is not array-like: %r' % (what, e), subject)


def same(a, b, rtol=0.0, atol=0.0):
    """Equality of two outputs (arrays, scalars, nested lists), NaN equal to NaN."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        try:
            a = a.astype(float)
            b = b.astype(float)
        except (TypeError, ValueError):
            return repr(a.tolist()) == repr(b.tolist())
    if a.dtype.kind not in 'biufc' or b.dtype.kind not in 'biufc':
        return bool(np.array_equal(a, b))
    if rtol == 0.0 and atol == 0.0:
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def short(x, n=300):
    s = repr(x.tolist() if isinstance(x, np.ndarray) else x)
    return s if len(s) <= n else s[:n] + '...'


# --------------------------------------------------------------------------
# clock: installed before the code under test is imported
# --------------------------------------------------------------------------
class SimClock:
    """The only clock the code under test can see once `install` has run."""

    def __init__(self):
        self.now = 1000.0
        self.reads = 0

    def __call__(self):
        self.reads += 1
        return self.now

    def advance(self, dt):
        self.now += dt

    def reset(self):
        self.now = 1000.0
        self.reads = 0


CLOCK = SimClock()


def install_clock():
    import time
    import timeit
    time.perf_counter = CLOCK
    time.time = CLOCK
    time.monotonic = CLOCK
    time.process_time = CLOCK
    timeit.default_timer = CLOCK

    def _sleep(dt):
        CLOCK.advance(dt)
    time.sleep = _sleep
    ns = lambda: int(CLOCK() * 1e9)
    time.perf_counter_ns = ns
    time.time_ns = ns
    time.monotonic_ns = ns


def real_clock():
    import ctypes  # noqa
    return os.times().elapsed


def seed_globals(n):
    """Process-global PRNGs, a nondeterminism source some components fall back to."""
    random.seed(n)
    np.random.seed(n % (2 ** 32))


# --------------------------------------------------------------------------
# running a plan
# --------------------------------------------------------------------------
def repo_root():
    import skmultiflow
    return os.path.dirname(os.path.abspath(skmultiflow.__file__))


def run_plan(prop, plan, keep_log=False):
    """-> (ctx, violation or None).  Raises HarnessError on faults of the harness."""
    ctx = Ctx(keep_log)
    CLOCK.reset()
    seed_globals(plan.get('gseed', 1))
    try:
        prop.run(plan, ctx)
    except Violation as v:
        ctx.sim_time += CLOCK.now - 1000.0
        return ctx, v
    except CpuLimit:
        return ctx, Violation('no-progress', 'the run used its whole CPU allowance (%ds) without '
                              'finishing; such runs finish in well under a second'
                              % prop.CPU_LIMIT, 'run')
    except (SimInterrupt, SimModelFailure) as e:
        return ctx, Violation('fault-escaped', 'injected %s escaped to the caller where the '
                              'property says it is handled: %s' % (type(e).__name__, tb_tail(e)),
                              'run')
    except Exception as e:
        if through_repo(e):
            return ctx, Violation('exception:' + type(e).__name__,
                                  'code under test raised on a legal history: ' + tb_tail(e),
                                  'run')
        raise HarnessError(''.join(traceback.format_exception(type(e), e, e.__traceback__)))
    ctx.sim_time += CLOCK.now - 1000.0
    return ctx, None


def in_child(fn, cpu=60):
    """Run `fn` in a forked process and return its (picklable) result.

    The child starts from the state of the worker, which never executes component code of its
    own for the properties that use this: every call sees a process in which nothing ran before.
    """
    import pickle
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)

            def h(sig, frame):
                raise CpuLimit()
            signal.signal(signal.SIGVTALRM, h)
            signal.setitimer(signal.ITIMER_VIRTUAL, cpu, 5)
            try:
                res = ('ok', fn())
            except Violation as v:
                res = ('violation', (v.kind, v.message, v.subject))
            except CpuLimit:
                res = ('cpu', None)
            except Exception as e:
                if through_repo(e):
                    res = ('violation', ('exception:' + type(e).__name__, 'code under test raised '
                                         'on a legal history: ' + tb_tail(e), 'run'))
                else:
                    res = ('harness', ''.join(traceback.format_exception(type(e), e,
                                                                         e.__traceback__)))
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            data = pickle.dumps(res)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        raise Violation('process-death', 'the simulated process died with signal %d'
                        % os.WTERMSIG(status), 'run')
    if not data:
        raise HarnessError('the child process ended with status %s and no result' % status)
    kind, val = pickle.loads(data)
    if kind == 'ok':
        return val
    if kind == 'violation':
        raise Violation(*val)
    if kind == 'cpu':
        raise CpuLimit()
    raise HarnessError(val)


class CpuLimit(BaseException):
    pass


def through_repo(e):
    root = repo_root()
    tb = e.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        fn = tb.tb_frame.f_code.co_filename
        if fn.endswith('.pyx') and 'skmultiflow' in fn:
            return True
        tb = tb.tb_next
    return False


def tb_tail(e):
    root = repo_root()
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.abspath(fn).startswith(root) or fn.endswith('.pyx'):
            last = '%s:%s' % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return '%s: %s (in %s)' % (type(e).__name__, str(e)[:300], last)


# --------------------------------------------------------------------------
# generic shrinking of plans
# --------------------------------------------------------------------------
def shrink(prop, plan, kind, deadline, clock, attempt):
    """Greedy minimisation: drop list elements, then lower integers, same violation kind."""
    tried = [0]

    def fails(p):
        tried[0] += 1
        try:
            _, v = attempt(p)
        except HarnessError:
            return False
        return v is not None and v.kind == kind

    def over():
        return clock() > deadline

    changed = True
    while changed and not over():
        changed = False
        for key in prop.SHRINK_LISTS:
            lst = plan.get(key)
            if not isinstance(lst, list) or not lst:
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and not over():
                i = 0
                while i < len(plan[key]) and not over():
                    cand = dict(plan)
                    cand[key] = plan[key][:i] + plan[key][i + size:]
                    if fails(cand):
                        plan = cand
                        changed = True
                    else:
                        i += size
                size //= 2
        for key, lo in prop.SHRINK_INTS.items():
            while key in plan and isinstance(plan[key], int) and plan[key] > lo and not over():
                done = True
                for nv in (lo, (plan[key] + lo) // 2, plan[key] - 1):
                    if nv == plan[key]:
                        continue
                    cand = dict(plan)
                    cand[key] = nv
                    if fails(cand):
                        plan = cand
                        changed = True
                        done = False
                        break
                if done:
                    break
        for key, simple in prop.SHRINK_TO.items():
            if key in plan and plan[key] != simple and not over():
                cand = dict(plan)
                cand[key] = simple
                if fails(cand):
                    plan = cand
                    changed = True
    return plan, tried[0]


class Prop:
    ID = None
    LEVEL = 'exploration'
    RULE = ''
    ASSUMPTIONS = []
    REAL = []
    STUB = []
    QUICK_RUNS = 200
    THOROUGH_RUNS = 4000
    CPU_LIMIT = 120
    SHRINK_LISTS = ('ops', 'faults')
    SHRINK_INTS = {}
    SHRINK_TO = {}

    def gen(self, rng, tier, index):
        raise NotImplementedError

    def run(self, plan, ctx):
        raise NotImplementedError

    def describe(self, plan):
        s = json.dumps(plan, sort_keys=True)
        return s if len(s) < 1500 else s[:1500] + '...'


def load_prop(pid):
    import importlib
    m = importlib.import_module('sim.props.' + pid.lower())
    return m.PROP
