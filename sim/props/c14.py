"""C14: a reset or cloned component behaves like a new one."""
from sim import actors, core
from sim.core import Violation

from sim.props.c11 import component, component_keys


# their clones are listed as known findings
NO_CLONE = {'DDM', 'OnlineBoosting', 'OnlineSMOTEBagging'}


# they keep the number of features of their first use: listed as known findings
NO_FEATURES = {'ARF', 'ARFRegressor'}


def fresh_again(a, how):
    """The component of actor a made new again by reset or clone."""
    from skmultiflow.core import clone
    if how == 'reset':
        r = a.obj.reset()
        if r is not None:
            a.obj = r
    else:
        a.obj = clone(a.obj)
    a.fitted = False


def life(plan, gseed):
    """All rounds on one component; also the position of each round in the data."""
    core.seed_globals(gseed)
    a = actors.Actor(plan['actor'])
    out, pos = [], []
    for k, rd in enumerate(plan['rounds']):
        if k:
            fresh_again(a, rd['how'])
        if rd.get('data'):
            a.load(*rd['data'])
        pos.append((a.i, a.q))
        out.append([a.do(op) for op in rd['ops']])
    return out, pos


def alone(plan, k, pos, gseed):
    core.seed_globals(gseed)
    a = actors.Actor(plan['actor'])
    if plan['rounds'][k].get('data'):
        a.load(*plan['rounds'][k]['data'])
    a.i, a.q = pos
    return [a.do(op) for op in plan['rounds'][k]['ops']]


class C14(core.Prop):
    ID = 'C14'
    RULE = ('one run = one component used for several rounds of drawn operations, made new by '
            'reset() or clone() at drawn points in between; every round is compared with a newly '
            'built component in a process of its own; non-trivial: a round that trained before a '
            'reset or clone that is followed by answers; distinct by component, operations and '
            'resets')
    ASSUMPTIONS = ['seeds are given as integers',
                   'KSWIN, which has no seed parameter, is given a reproducible global generator '
                   'before each element']
    REAL = ['all learners, drift detectors, metrics and transforms of the registry']
    STUB = []
    QUICK_RUNS = 1500
    THOROUGH_RUNS = 40000
    SHRINK_LISTS = ('rounds',)

    def gen(self, rng, tier, index):
        keys = [k for k in component_keys() if k[0] != 'S'] + [('M', None)] * 3
        kind, name = keys[index % len(keys)] if index < 6 * len(keys) else rng.choice(keys)
        a = component(rng, kind, name)
        rounds = []
        data = None
        for k in range(rng.choice([2, 2, 3, 4])):
            ops = [actors.gen_op(rng, a) for _ in range(rng.choice([0, 3, 6, 12]))]
            ops = [o for o in ops if not o[0].endswith('reset') and o[0] != 'restart']
            if a['t'] == 'learner':
                if rng.random() < 0.85:
                    ops.append(['fit', rng.choice([1, 20, 80])])
                ops += [['predict', 8], ['proba', 8]] if actors.learner_table()[a['name']].proba \
                    else [['predict', 8]]
            elif a['t'] == 'metric':
                ops.append(['get'])
            elif a['t'] == 'detector':
                ops.append(['add', rng.choice([1, 30, 120])])
            rounds.append(dict(how=self.how(rng, a), ops=ops, data=data))
            if a['t'] == 'learner':
                # the next use may be for other data: other features, other classes
                if rng.random() < 0.5:
                    l = actors.learner_table()[a['name']]
                    nf = a['nf'] if a['name'] in NO_FEATURES else rng.choice([2, 3, 5])
                    data = [nf, 2 if l.binary or l.kind == 'anom'
                            else rng.choice([2, 3, 4]), rng.randrange(10 ** 6)]
        return dict(actor=a, rounds=rounds)

    @staticmethod
    def how(rng, a):
        if a['t'] == 'metric' or a['name'] in NO_CLONE:
            return 'reset'
        if a['name'] == 'VFDR' and a['cfg'].get('det') == 'DDM':
            return 'reset'
        if a['t'] == 'transform':
            return 'clone'
        return rng.choice(['reset', 'clone'])

    def run(self, plan, ctx):
        name = plan['actor']['name']
        outs, pos = core.in_child(lambda: life(plan, plan['gseed']))
        for k, rd in enumerate(plan['rounds']):
            if k:
                ctx.fault(rd['how'])
            for op, out in zip(rd['ops'], outs[k]):
                actors.record(ctx, name, op, out)
        for k, rd in enumerate(plan['rounds']):
            if not k or not rd['ops']:
                continue
            ref = core.in_child(lambda: alone(plan, k, pos[k], plan['gseed'] + k))
            for n, (op, x, y) in enumerate(zip(rd['ops'], outs[k], ref)):
                if not actors.same_outcome(x, y):
                    before, now = (plan['rounds'][j].get('data') for j in (k - 1, k))
                    raise Violation('not-new', 'operation %d, %s, after the %s of %s (use %d%s) '
                                    'gave %s and %s on a new one' % (
                                        n, op, rd['how'], name, k, '' if before == now else
                                        ', other data', actors.show(x), actors.show(y)),
                                    '%s.%s%s' % (name, rd['how'], '' if not now or
                                                 now[0] == plan['actor']['nf'] else '.features'))
        ctx.nontrivial = len(plan['rounds']) > 1 and bool(plan['rounds'][0]['ops'])


PROP = C14()
