"""C17: learners stay within their limits and survive reaching them."""
import numpy as np

from sim import actors, core, registry
from sim.core import Violation
from sim.props.c16 import ask, judge

TREES = ('HoeffdingTree', 'EFDT', 'LCHT', 'HTRegressor', 'iSOUP', 'SSTHT')
ADAPTIVE = ('HAT', 'HATRegressor')
FORESTS = ('ARF', 'ARFRegressor')
CLASSIFIERS = ('HoeffdingTree', 'EFDT', 'HAT', 'ARF', 'LCHT')
# learner -> what it keeps, and how many of them it may keep
CAPPED = {
    'VFDR': lambda o: [('rules', getattr(o, 'rule_set', ()), o.max_rules)],
    'AWE': lambda o: [('models', getattr(o, 'models_pool', ()), o.n_kept_estimators)],
    'AdditiveExpert': lambda o: [('experts', getattr(o, 'experts', ()), o.n_estimators)],
    'DWM': lambda o: [('experts', getattr(o, 'experts', ()), o.n_estimators)],
    'LearnPP': lambda o: [('ensembles', getattr(o, 'ensembles', ()), o.n_ensembles)] + [
        ('members', e, o.n_estimators) for e in getattr(o, 'ensembles', ())],
    'LearnNSE': lambda o: [('members', getattr(o, 'ensemble', ()),
                            o.n_estimators if o.pruning else 10 ** 9)],
    'BatchIncremental': lambda o: [('members', getattr(o, 'ensemble', ()), o.n_estimators)],
}


class Memory(registry.Sizes):
    """What the simulated allocator says about the size of a tree and of its leaves."""

    def __init__(self, script):
        self.script = script
        self.checks = 0
        self.factor = None          # measured factor of the last check
        self.over = False           # the last check found too much
        self.at_check = None        # called when a tree is measured
        self.measured = False       # has an inactive leaf ever been measured?

    def tree(self, obj):
        f = self.script[self.checks % len(self.script)]
        self.checks += 1
        self.factor = f
        if self.at_check:
            self.at_check(obj)
        size = f * super().tree(obj)
        self.over = size > obj.max_byte_size
        return size

    def node(self, obj):
        size = super().node(obj)
        if size == self.INACTIVE:
            self.measured = True
        return size


def memory(script):
    """Puts the simulated allocator in place (in a child process that ends with the run)."""
    registry.memory_seam()
    m = registry.SIZES[0] = Memory(script)
    return m


def build(plan, **kw):
    a = actors.Actor(plan['actor'])
    p = dict(max_byte_size=plan['limit'], memory_estimate_period=plan['period'])
    if plan.get('stop'):
        p['stop_mem_management'] = True
    p.update(kw)
    a.obj.set_params(**p)
    flat(a, plan.get('flat'))
    return a


def flat(a, how):
    """Data that gives a tree little to split on."""
    if how == 'const':
        a.X[:, :-1] = 1.0
        a.Q[:, :-1] = 1.0
    elif how == 'coarse':
        k = 2 if a.X.shape[1] > 2 else 0
        a.X[:, k:] = np.round(a.X[:, k:])
        a.Q[:, k:] = np.round(a.Q[:, k:])
    elif how == 'same':
        a.X[:] = 1.0
        a.Q[:] = 1.0


def counts(name, obj, t):
    """The measurements of the tree against the tree it describes."""
    m = obj.model_measurements
    nodes, leaves = m['Tree size (nodes)'], m['Tree size (leaves)']
    act, depth = m['Active learning nodes'], m['Tree depth']
    text = obj.get_model_description()
    lines = text.split('\n')
    n = sum('Leaf = ' in v for v in lines)
    deep = max([(len(v) - len(v.lstrip())) // 2 for v in lines if 'Leaf = ' in v])
    if (leaves, depth) != (n, deep):
        raise Violation('measurements', 'after sample %d %s reports %d leaves and depth %d; the '
                        'tree has %d leaves and depth %d' % (t, name, leaves, depth, n, deep),
                        name)
    if not 0 <= act <= leaves or nodes < leaves or nodes - leaves > max(0, leaves - 1):
        raise Violation('measurements', 'after sample %d %s reports %d nodes, %d leaves, %d '
                        'active ones: every inner node has two branches or more' % (
                            t, name, nodes, leaves, act), name)
    return nodes, leaves, act


def pressure(plan):
    """Memory checks that say what the simulator wants."""
    core.seed_globals(plan['gseed'])
    mem = memory(plan['script'])
    a = build(plan)
    name = plan['actor']['name']
    cfg = plan['actor']['cfg']
    forest = name in FORESTS
    plain = (cfg['lp'] if name in CLASSIFIERS else cfg['lpr']) in ('mc', 'mean') \
        and name != 'SSTHT'
    before = []
    stays = plain or plan.get('stop')           # nothing that the check does shows in the answers
    if stays and not forest:
        mem.at_check = lambda o: before.append(np.array(o.predict(a.Q[:24].copy())))
    log, frozen, held = [], None, 0
    for t in range(plan['n']):
        mem.factor, known = None, mem.measured
        del before[:]
        a.fit(a.X[t:t + 1].copy(), a.y[t:t + 1].copy())
        if forest:
            if t % 10 == 9:
                out = ask(a)
                judge(a, plan, t, out)
                log.append((t, out[0]))
            continue
        nodes, leaves, act = counts(name, a.obj, t) if name not in ADAPTIVE else (1, 1, 1)
        if mem.factor is not None:
            f, inact = mem.factor, leaves - act
            A, top = mem.ACTIVE, plan['limit']
            # a tree cannot know the size of an inactive leaf before it has had one
            I = mem.INACTIVE if known else 0
            if before and name != 'EFDT':       # that one goes on after the check
                now = np.array(a.obj.predict(a.Q[:24].copy()))
                if not core.same(now, before[0], 1e-9, 1e-9):
                    raise Violation('answers', 'the memory check of sample %d changes the answers '
                                    'of %s from %s to %s' % (t, name, core.short(before[0]),
                                                             core.short(now)), name)
            if name == 'EFDT':
                pass
            elif mem.over and plan.get('stop') and frozen is None:
                frozen = nodes - leaves
            elif f * (act * A + inact * I) > top and not plan.get('stop') and act:
                raise Violation('limit', 'the memory check of sample %d found %s over its limit of '
                                '%d bytes; it goes on with %d active leaves (%d bytes each) and %d '
                                'inactive ones (%d bytes), overhead %s' % (
                                    t, name, top, act, A, inact, I, f), name)
            elif inact and mem.over and known and \
                    f * ((act + 1) * A + (inact - 1) * I) <= top and not plan.get('stop'):
                raise Violation('limit', 'after the memory check of sample %d %s has %d inactive '
                                'leaves, %d active ones, and room for one more below %d bytes' % (
                                    t, name, inact, act, top), name)
            if inact and plan.get('stop') and cfg['npp'] and name != 'EFDT':
                raise Violation('stop', '%s has to stop growing at its memory limit; at sample %d '
                                'it has %d inactive leaves' % (name, t, inact), name)
            held += inact > 0
        if frozen is not None and nodes - leaves != frozen:
            raise Violation('stop', '%s was over its memory limit and had to stop growing with %d '
                            'inner nodes; it has %d after sample %d' % (
                                name, frozen, nodes - leaves, t), name)
        if t % 10 == 9:
            out = ask(a)
            judge(a, plan, t, out)
            log.append((t, out[0]))
    if not forest and mem.checks < plan['n'] // plan['period'] and \
            (name not in ADAPTIVE or plan.get('claims')):
        raise Violation('unchecked', '%s has learned %d samples and is to check its memory every '
                        '%d; it did so %d times' % (name, plan['n'], plan['period'], mem.checks),
                        name)
    if frozen is not None and plain and name in ('HoeffdingTree', 'HTRegressor'):
        # it goes on learning
        x = np.tile(a.Q[0], (10, 1))
        y = 1 if name == 'HoeffdingTree' else 50.0
        for _ in range(plan['n'] // 2):
            a.fit(x.copy(), np.full(10, y))
        p = float(np.ravel(a.obj.predict(x[:1].copy()))[0])
        if abs(p - y) > 0.45 * y:
            raise Violation('stop', '%s stopped growing; after %d more samples with target %s it '
                            'answers %s for them' % (name, plan['n'] // 2 * 10, y, p), name)
    return log, mem.checks, held


def ample(plan):
    """Memory checks that never find too much change nothing."""
    outs = []
    for period in (plan['period'], 10 ** 9):
        core.seed_globals(plan['gseed'])
        a = build(plan, max_byte_size=2 ** 40, memory_estimate_period=period,
                  stop_mem_management=False)
        log, t, k = [], 0, 0
        while t < plan['n']:
            b = plan['batches'][k % len(plan['batches'])]
            k += 1
            j = min(plan['n'], t + b)
            a.fit(a.X[t:j].copy(), a.y[t:j].copy())
            t = j
            if k % 5 == 0 or t >= plan['n']:
                log.append((t, ask(a)))
        outs.append(log)
    return outs


def capped(plan):
    """Ensembles and rule sets never grow beyond their size."""
    core.seed_globals(plan['gseed'])
    a = actors.Actor(plan['actor'])
    name = plan['actor']['name']
    o = a.obj
    if plan['cap']:
        if name == 'VFDR':
            o.max_rules = plan['cap']
        elif name == 'AWE':
            o.n_kept_estimators = max(plan['cap'], 3)
        else:
            o.set_params(n_estimators=plan['cap'])
            o.reset()
    most, full, log, t, k = 0, 0, [], 0, 0
    while t < plan['n']:
        b = plan['batches'][k % len(plan['batches'])]
        k += 1
        j = min(plan['n'], t + b)
        X, y = a.X[t:j].copy(), a.y[t:j].copy()
        if name == 'AdditiveExpert' and b == 1:
            check_weakest(a, X, y, t)
        else:
            a.fit(X, y)
        t = j
        for what, kept, top in CAPPED[name](a.obj):
            most = max(most, len(kept))
            full += len(kept) == top
            if len(kept) > top:
                raise Violation('cap', 'after %d samples %s keeps %d %s, it may keep %d' % (
                    t, name, len(kept), what, top), name)
        if k % 5 == 0 or t >= plan['n']:
            out = ask(a)
            judge(a, plan, t, out)
            log.append((t, out[0]))
    return log, most, full


def check_weakest(a, X, y, t):
    """The expert that makes room for a new one is the weakest, or the oldest."""
    o = a.obj
    old = list(getattr(o, 'experts', ()))
    was = [e.weight for e in old]
    wrong = [np.any(np.asarray(e.estimator.predict(X)) != y) for e in old] if t else []
    a.fit(X, y)
    new = list(getattr(o, 'experts', ()))
    gone = [i for i, e in enumerate(old) if all(e is not v for v in new)]
    added = [e for e in new if all(e is not v for v in old)]
    if gone and not added:
        raise Violation('cap', 'sample %d: an expert of AdditiveExpert is dropped and none added'
                        % t, 'AdditiveExpert')
    if gone and wrong and o.pruning == 'weakest':
        now = [w * (o.beta if b else 1) for w, b in zip(was, wrong)]
        if len(gone) != 1 or now[gone[0]] > min(now) * (1 + 1e-9):
            raise Violation('weakest', 'at sample %d the experts of AdditiveExpert weigh %s, it '
                            'drops the one that weighs %s' % (
                                t, core.short(now), core.short([now[i] for i in gone])),
                            'AdditiveExpert')


class C17(core.Prop):
    ID = 'C17'
    RULE = ('one run = one learner driven into its limits: a tree (or forest) whose memory checks '
            'find what a drawn schedule of sizes says, a tree whose checks always find enough '
            '(compared with no checks), or an ensemble or rule set that has to give up members; '
            'data without anything to split on included; non-trivial: a memory check happened, '
            'or the limit was reached; distinct by kind of run, learner, limits and schedule')
    ASSUMPTIONS = ['sizes are simulated at the function the trees measure objects with; a tree may '
                   'only know the size of an inactive leaf once it has measured one',
                   'the tree extremely fast decision trees go on with after a memory check has '
                   'been changed by the check and by the split that follows it; it is judged by '
                   'its measurements and answers only',
                   'forests are judged by their answers only']
    REAL = ['Hoeffding trees (classifiers, regressors, multi-target, adaptive, extremely fast), '
            'the forests of them, VFDR, AccuracyWeightedEnsemble, AdditiveExpertEnsemble, '
            'DynamicWeightedMajority, LearnPP, LearnNSE, BatchIncremental']
    STUB = ['the size of objects in memory']
    QUICK_RUNS = 1200
    THOROUGH_RUNS = 30000
    CPU_LIMIT = 60
    SHRINK_LISTS = ('batches', 'script')
    SHRINK_INTS = {'n': 1}

    def gen(self, rng, tier, index):
        mode = ('pressure', 'capped', 'pressure', 'ample')[index % 4]
        k = index // 4
        names = dict(pressure=actors.share(TREES) + list(ADAPTIVE + FORESTS),
                     ample=TREES + ADAPTIVE + FORESTS, capped=tuple(CAPPED))[mode]
        name = names[k % len(names)]
        a = actors.gen_learner(rng, [name])
        c = a['cfg']
        plan = dict(mode=mode, actor=a, n=rng.choice([60, 120, 200]),
                    batches=[rng.choice([1, 1, 2, 5, 12]) for _ in range(4)],
                    limit=rng.choice([150, 300, 600, 1500]), period=rng.choice([1, 3, 10]),
                    script=[rng.choice([0.2, 1, 1, 2, 10, 100]) for _ in range(rng.choice(
                        [1, 3, 8]))],
                    flat=rng.choice([None, None, None, 'const', 'coarse', 'same']))
        plan['stop'] = rng.random() < 0.3
        c['mem'] = None
        c['gp'] = rng.choice([5, 10, 20])
        c['sc'], c['tt'] = rng.choice([0.05, 0.3]), rng.choice([0.3, 0.6])
        if mode == 'capped':
            plan['cap'] = rng.choice([0, 1, 2, 3, 5])
            plan['flat'] = None
            if name == 'VFDR':
                plan['cap'] = plan['cap'] or 2
                c['crit'] = rng.choice(['foil_gain', 'foil_gain', 'info_gain'])
                c['ord'] = rng.random() < 0.2
                c['gp'] = 5
            if rng.random() < 0.5:
                plan['batches'] = [1]
            c['base'] = rng.choice(['NB', 'HT'])
            plan['n'] = 240
        if name in FORESTS:
            plan['flat'] = None
        return plan

    def run(self, plan, ctx):
        name, mode = plan['actor']['name'], plan['mode']
        ctx.shape(mode, name, plan['limit'], plan['period'], plan['script'], plan['n'])
        if mode == 'pressure':
            log, checks, held = core.in_child(lambda: pressure(plan))
            for t, p in log:
                ctx.ev('answers', t, p)
            ctx.fault('memory check', checks)
            ctx.fault('memory exhausted', held)
            ctx.nontrivial = checks > 0
        elif mode == 'ample':
            one, two = core.in_child(lambda: ample(plan))
            from sim.props.c12 import pad
            for (t, x), (_, y) in zip(one, two):
                ctx.ev('answers', t, x[0])
                for how, u, v in zip(('predict', 'proba'), x, y):
                    if how == 'proba':
                        u, v = pad([u, v])
                    if not core.same(u, v):
                        raise Violation('ample', 'after %d samples %s of %s is %s with memory '
                                        'checks that find enough, %s without checks' % (
                                            t, how, name, core.short(u), core.short(v)), name)
            ctx.nontrivial = True
        else:
            log, most, full = core.in_child(lambda: capped(plan))
            for t, p in log:
                ctx.ev('answers', t, p)
            ctx.probe('at the limit', full)
            ctx.nontrivial = full > 0


PROP = C17()
