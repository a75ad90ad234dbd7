"""Runs a slice of the seeds of one property in its own process."""
import argparse
import json
import os
import random
import signal
import sys
import warnings

# the real clock, captured before the simulated one is installed
from time import monotonic as _real_monotonic


from sim import core


def quiet():
    """The code under test prints; its console output is not an observable of the runs."""
    sys.stdout.flush()
    out = os.fdopen(os.dup(1), 'w')
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    return out


def set_cpu_limit(seconds):
    def h(sig, frame):
        raise core.CpuLimit()
    signal.signal(signal.SIGVTALRM, h)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 5)


def clear_cpu_limit():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def prepare():
    warnings.simplefilter('ignore')
    core.install_clock()
    import skmultiflow  # noqa


def make_plan(prop, seed, tier, index):
    rng = random.Random(core.mix(seed, prop.ID, index))
    plan = prop.gen(rng, tier, index)
    plan['gseed'] = core.mix(seed, prop.ID, index, 'g') % (2 ** 31)
    plan['index'] = index
    return plan


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--indices', default='')     # a:b:step
    ap.add_argument('--out', required=True)
    ap.add_argument('--mark', default=None)
    ap.add_argument('--wall', type=float, default=600)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--shrink', default=None)
    ap.add_argument('--log', action='store_true')
    a = ap.parse_args()
    clock = _real_monotonic
    prepare()
    quiet()
    prop = core.load_prop(a.prop)
    out = open(a.out, 'w')

    def emit(d):
        out.write(json.dumps(d) + '\n')
        out.flush()

    def attempt(plan, keep_log=False):
        set_cpu_limit(prop.CPU_LIMIT)
        try:
            return core.run_plan(prop, plan, keep_log)
        finally:
            clear_cpu_limit()

    if a.replay:
        plan = json.load(open(a.replay))
        plan = plan.get('plan', plan)
        ctx, v = attempt(plan, True)
        emit({'digest': ctx.digest(), 'violation': v and {'kind': v.kind, 'message': v.message,
                                                          'subject': v.subject},
              'log': ctx.log[-2000:] if a.log else None})
        return

    if a.shrink:
        job = json.load(open(a.shrink))
        plan, n = core.shrink(prop, job['plan'], job['kind'], clock() + job['budget'], clock, attempt)
        ctx, v = attempt(plan, True)
        emit({'plan': plan, 'tried': n, 'violation': v and {
            'kind': v.kind, 'message': v.message, 'subject': v.subject},
            'digest': ctx.digest(), 'log': ctx.log[-400:]})
        return

    lo, hi, step = (int(x) for x in a.indices.split(':'))
    t0 = clock()
    agg = {'runs': 0, 'events': 0, 'faults': {}, 'probes': {}, 'sim_time': 0.0, 'shapes': [],
           'digests': {}, 'nontrivial': 0, 'samples': [], 'done': False}
    shapes = set()
    for i in range(lo, hi, step):
        if clock() - t0 > a.wall:
            break
        plan = make_plan(prop, a.seed, a.tier, i)
        if a.mark:
            with open(a.mark, 'w') as f:
                json.dump(plan, f)
        try:
            ctx, v = attempt(plan)
        except core.HarnessError as e:
            emit({'harness_error': str(e), 'index': i})
            return
        agg['runs'] += 1
        agg['events'] += ctx.n_events
        for k, n in ctx.faults.items():
            agg['faults'][k] = agg['faults'].get(k, 0) + n
        for k, n in ctx.probes.items():
            agg['probes'][k] = agg['probes'].get(k, 0) + n
        agg['sim_time'] += ctx.sim_time
        sd = ctx.shape_digest()
        if ctx.nontrivial:
            agg['nontrivial'] += 1
            shapes.add(sd)
        agg['digests'][str(i)] = ctx.digest()[:16]
        if len(agg['samples']) < 1 and ctx.nontrivial:
            agg['samples'].append({'index': i, 'plan': prop.describe(plan),
                                   'events': ctx.n_events, 'digest': ctx.digest()[:16]})
        if v is not None:
            emit({'violation': {'kind': v.kind, 'message': v.message, 'subject': v.subject},
                  'index': i, 'plan': plan, 'digest': ctx.digest()})
    else:
        agg['done'] = True
    agg['shapes'] = sorted(shapes)
    emit({'agg': agg})
    if a.mark:
        try:
            os.unlink(a.mark)
        except OSError:
            pass


if __name__ == '__main__':
    main()
