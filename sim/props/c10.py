"""C10: instances used side by side do not influence each other."""
import numpy as np

from sim import actors, core
from sim.core import Violation


def interleaved(plan, only=None):
    """Execute the schedule (of all actors, or the part of one) in this process."""
    core.seed_globals(plan['gseed'] if only is None else plan['gseed'] + 7 + only)
    poison_memory(plan['gseed'] + (0 if only is None else 7 + only))
    acts = {}
    outs = []
    for n, (who, op) in enumerate(plan['ops']):
        if who == -1:
            if only is None:
                perturb(op)
            continue
        if who >= len(plan['actors']) or (only is not None and who != only):
            continue
        if who not in acts:
            acts[who] = actors.Actor(plan['actors'][who])
        outs.append((n, who, op, acts[who].do(op)))
    return outs


def poison_memory(seed):
    """Uninitialised memory has arbitrary contents (only called in forked children)."""
    import random
    r = random.Random(seed)
    real_empty, real_like = np.empty, np.empty_like

    def fill(a):
        try:
            if a.dtype.kind in 'iufb' and 0 < a.size <= 4096:
                a.fill(r.randrange(1, 97))
        except (ValueError, TypeError):
            pass
        return a
    np.empty = lambda *p, **k: fill(real_empty(*p, **k))
    np.empty_like = lambda *p, **k: fill(real_like(*p, **k))


def perturb(op):
    """Something else in the program uses the global random generators or floating point settings."""
    import random
    if op[0] == 'reseed':
        core.seed_globals(op[1])
    elif op[0] == 'draw':
        np.random.rand(op[1])
        random.random()
    elif op[0] == 'seterr':
        np.seterr(divide=op[1], invalid=op[1], over=op[1])
    else:
        np.random.shuffle(np.arange(op[1]))


class C10(core.Prop):
    ID = 'C10'
    RULE = ('one run = 2-4 seeded components (learners, streams, detectors, metrics, transforms; '
            'often several of one class) used by one program in an interleaved schedule with other '
            'users of the global random generators and floating point settings in between, compared operation by operation '
            'with each component used alone in a process of its own; non-trivial: at least two '
            'components with at least three operations each; distinct by the schedule')
    ASSUMPTIONS = ['components are given their own seeds; KSWIN, which has no seed parameter, is '
                   'given a reproducible global generator before each element',
                   'memory obtained uninitialised has drawn contents',
                   'an exception of a component is an outcome that has to be the same alone']
    REAL = ['all learners, generators, drift detectors, metrics and transforms of the registry']
    STUB = []
    QUICK_RUNS = 1500
    THOROUGH_RUNS = 20000
    SHRINK_LISTS = ('ops',)

    def gen(self, rng, tier, index):
        lt, st = actors.learner_table(), actors.stream_table()
        ln, sn = sorted(lt), sorted(st)
        acts = []

        def one():
            r = rng.random()
            if r < 0.5:
                return actors.gen_learner(rng, ln)
            if r < 0.72:
                return actors.gen_stream(rng, sn)
            if r < 0.83:
                return actors.gen_detector(rng)
            if r < 0.93:
                return actors.gen_metric(rng)
            return actors.gen_transform(rng)
        n = rng.choice([2, 2, 3, 4])
        # systematic part: every component meets another instance of itself
        keys = [('L', x) for x in ln] + [('S', x) for x in sn] + \
               [('D', x) for x in actors.DETECTORS] + [('T', None), ('M', None), ('M', None)]
        kind, name = keys[index % len(keys)]

        def of():
            if kind == 'L':
                return actors.gen_learner(rng, [name])
            if kind == 'S':
                return actors.gen_stream(rng, [name])
            if kind == 'D':
                return actors.gen_detector(rng, [name])
            return actors.gen_transform(rng) if kind == 'T' else actors.gen_metric(rng)
        acts.append(of())
        r = rng.random()
        if r < 0.6:
            b = of()
            if rng.random() < 0.3:
                b = dict(acts[0])
                if 'dseed' in b and rng.random() < 0.7:
                    b['dseed'] = b['dseed'] + 5
            if kind == 'L' and rng.random() < 0.4:
                # both are built from the same base component
                acts[0]['cfg']['base'] = 'shared'
                b['cfg'] = dict(b['cfg'], base='shared')
            acts.append(b)
        while len(acts) < n:
            acts.append(one())
        ops = []
        for _ in range(rng.choice([15, 30, 50])):
            if rng.random() < 0.15:
                ops.append([-1, rng.choice([['reseed', rng.randrange(1000)],
                                            ['seterr', rng.choice(['ignore', 'warn'])],
                                            ['draw', rng.randrange(1, 9)],
                                            ['shuffle', rng.randrange(2, 9)]])])
            else:
                w = rng.randrange(len(acts))
                ops.append([w, actors.gen_op(rng, acts[w])])
        # every actor is asked something at the end
        for w, a in enumerate(acts):
            if a['t'] == 'learner':
                ops.append([w, ['predict', 8]])
            elif a['t'] == 'metric':
                ops.append([w, ['get']])
        return dict(actors=acts, ops=ops)

    def run(self, plan, ctx):
        together = core.in_child(lambda: interleaved(plan))
        counts = {}
        solo = {}
        for who in sorted({w for w, _ in plan['ops'] if w >= 0}):
            if who < len(plan['actors']):
                solo[who] = {n: out for n, _, _, out in
                             core.in_child(lambda who=who: interleaved(plan, who))}
        for w, op in plan['ops']:
            if w == -1:
                ctx.fault('global-state-' + op[0])
        for n, who, op, out in together:
            spec = plan['actors'][who]
            actors.record(ctx, who, op, out)
            counts[who] = counts.get(who, 0) + 1
            if out and isinstance(out[0], str):
                ctx.probe('exception-outcome:%s:%s' % (spec['name'], out[1]))
            if not actors.same_outcome(out, solo[who][n]):
                raise Violation('interference', 'operation %d, %s on %s #%d, gave %s next to the '
                                'other components and %s alone' % (
                                    n, op, spec['name'], who, actors.show(out),
                                    actors.show(solo[who][n])), spec['name'])
        for a in plan['actors']:
            ctx.shape(a['name'])
        ctx.nontrivial = sum(1 for c in counts.values() if c >= 3) >= 2


PROP = C10()
