"""C11: a component restored from a checkpoint continues as if nothing had happened."""
import copy
import pickle

from sim import actors, core
from sim.core import Violation


def freeze(a):
    return pickle.dumps((a.obj, a.i, a.q, a.fitted))


def thaw(spec, data):
    a = actors.Actor(spec)
    a.obj, a.i, a.q, a.fitted = pickle.loads(data)
    return a


def twin(a):
    """In-memory checkpoint: a deep copy with the same user position."""
    b = actors.Actor(a.spec)
    b.obj, b.i, b.q, b.fitted = copy.deepcopy(a.obj), a.i, a.q, a.fitted
    return b


def whole(plan):
    core.seed_globals(plan['gseed'])
    a = actors.Actor(plan['actor'])
    return [a.do(op) for op in plan['ops']]


def segment(plan, lo, hi, state, gseed, saves=()):
    """Operations lo..hi of one simulated process started from `state`.  -> outcomes, states."""
    core.seed_globals(gseed)
    a = actors.Actor(plan['actor']) if state is None else thaw(plan['actor'], state)
    outs, states = [], {}
    for n in range(lo, hi):
        if n in saves:
            states[n] = freeze(a)
        outs.append(a.do(plan['ops'][n]))
    states[hi] = freeze(a)
    return outs, states


def copies(plan):
    """Deep copies taken along the way; original and copy go on side by side."""
    core.seed_globals(plan['gseed'] + 3)
    a = actors.Actor(plan['actor'])
    others = []
    outs, couts = [], []
    cuts = {c['at'] for c in plan['cuts']}
    for n, op in enumerate(plan['ops']):
        if n in cuts and len(others) < 3:
            others.append(twin(a))
            if plan['swap']:
                a, others[-1] = others[-1], a
        order = [('a', a)] + [('c', o) for o in others]
        if plan['swap']:
            order = order[::-1]
        for tag, x in order:
            out = x.do(op)
            (outs if tag == 'a' else couts).append((n, out))
    return [o for _, o in outs], couts


class C11(core.Prop):
    ID = 'C11'
    RULE = ('one run = one component under a drawn sequence of operations; its process is killed '
            'at drawn points and restarted from the last checkpoint (pickle), sometimes redoing '
            'the operations since an older checkpoint; or deep copies are taken and used side by '
            'side with the original; all outcomes are compared with an unbroken run; non-trivial: '
            'at least one restart or copy with operations before and after; distinct by component, '
            'operations and cuts')
    ASSUMPTIONS = ['a checkpoint is a complete pickle of the component made between two calls',
                   'KSWIN, which has no seed parameter, is given a reproducible global generator '
                   'before each element']
    REAL = ['all learners, generators, drift detectors, metrics and transforms of the registry']
    STUB = ['process death (each incarnation is a forked process that only receives the pickle)']
    QUICK_RUNS = 900
    THOROUGH_RUNS = 30000
    SHRINK_LISTS = ('ops', 'cuts')

    def gen(self, rng, tier, index):
        keys = component_keys()
        kind, name = keys[index % len(keys)] if index < 4 * len(keys) else rng.choice(keys)
        a = component(rng, kind, name)
        ops = [actors.gen_op(rng, a) for _ in range(rng.choice([6, 12, 25]))]
        ops += [['fit', 20], ['predict', 8]] if a['t'] == 'learner' else \
            [actors.gen_op(rng, a) for _ in range(3)]
        if a['t'] == 'metric':
            ops.append(['get'])
        cuts = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            at = rng.randrange(0, len(ops))
            cuts.append(dict(at=at, back=rng.choice([0, 0, 0, 1, 3])))
        cuts.sort(key=lambda c: c['at'])
        return dict(actor=a, ops=ops, cuts=cuts, mode=rng.choice(['crash', 'crash', 'copy']),
                    swap=rng.random() < 0.5)

    def run(self, plan, ctx):
        spec, n = plan['actor'], len(plan['ops'])
        ref = core.in_child(lambda: whole(plan))
        for op, out in zip(plan['ops'], ref):
            actors.record(ctx, spec['name'], op, out)
        ctx.shape(plan['mode'], plan['swap'], [(c['at'], c['back']) for c in plan['cuts']])
        if plan['mode'] == 'copy':
            outs, couts = core.in_child(lambda: copies(plan))
            self.compare(plan, ref, enumerate(outs), 'the %s' % (
                'deep copy' if plan['swap'] else 'original, with deep copies in use'))
            self.compare(plan, ref, couts, 'a %s' % (
                'copied original' if plan['swap'] else 'deep copy'))
            ctx.fault('deepcopy', len(plan['cuts']))
            ctx.nontrivial = any(0 < c['at'] < n for c in plan['cuts'])
            return
        pos, state = 0, None
        states = {}
        life = 0
        for c in plan['cuts'] + [None]:
            at = n if c is None else min(c['at'], n)
            if at > pos or state is None:
                wanted = [m for m in range(pos, at)]
                outs, st = core.in_child(
                    lambda: segment(plan, pos, at, state, plan['gseed'] + 11 * life, wanted))
                life += 1
                states.update(st)
                self.compare(plan, ref, zip(range(pos, at), outs),
                             'the component restored from its checkpoint' if life > 1
                             else 'the component (checkpointed, still running)')
                pos, state = at, states[at]
            if c is None:
                break
            ctx.fault('crash-restart')
            back = max(0, pos - c['back'])
            if c['back'] and back in states:
                ctx.fault('rollback')
                pos, state = back, states[back]
        ctx.probe('lives', life)
        ctx.nontrivial = any(0 < c['at'] < n for c in plan['cuts'])

    def compare(self, plan, ref, outs, who):
        for n, out in outs:
            if not actors.same_outcome(out, ref[n]):
                raise Violation('diverged', 'operation %d, %s on %s: %s gave %s, the unbroken run '
                                '%s' % (n, plan['ops'][n], plan['actor']['name'], who,
                                        actors.show(out), actors.show(ref[n])),
                                plan['actor']['name'])


def component_keys():
    return [('L', x) for x in sorted(actors.learner_table())] + \
        [('S', x) for x in sorted(actors.stream_table())] + \
        [('D', x) for x in actors.DETECTORS] + [('T', None)] * 3 + [('M', None)] * 4


def component(rng, kind, name):
    if kind == 'L':
        return actors.gen_learner(rng, [name])
    if kind == 'S':
        return actors.gen_stream(rng, [name])
    if kind == 'D':
        return actors.gen_detector(rng, [name])
    return actors.gen_transform(rng) if kind == 'T' else actors.gen_metric(rng)


PROP = C11()
