"""C16: adaptation to drift and warning signals, whatever the detectors report."""
import numpy as np

from sim import actors, core
from sim.core import Violation

BATCH_CLASSES = ('OnlineBoosting', 'OnlineAdaC2', 'OnlineCSB2', 'OnlineRUSBoost',
                 'OnlineSMOTEBagging', 'OnlineUnderOverBagging')
# learners with a detector inside
ADAPTIVE = ('ARF', 'SRP', 'ARFRegressor', 'HAT', 'HATRegressor', 'KNNADWIN', 'VFDR',
            'OzaBaggingADWIN', 'LeveragingBagging') + BATCH_CLASSES
# learners whose detection can be switched off (or that have a sibling without it)
TWINS = ('ARF', 'SRP', 'ARFRegressor', 'KNNADWIN', 'VFDR') + BATCH_CLASSES
FORESTS = ('ARF', 'SRP', 'ARFRegressor')


class Signals:
    """What the detectors of the simulated program report, sample by sample."""

    def __init__(self, phases, seed):
        self.phases = phases
        self.seed = seed
        self.t = 0                  # sample being learned
        self.asked = 0
        self.delivered = 0
        self.role_asked = {}        # role -> answers given at this sample
        self.log = []               # the answers
        self.values = []            # what the scripted detectors were fed

    def at(self, t):
        self.t = t
        self.role_asked = {}

    def answer(self, real, role='any'):
        """real: what the detector itself says (a function, only called when that is used)."""
        self.asked += 1
        self.role_asked[role] = self.role_asked.get(role, 0) + 1
        for lo, hi, mode in self.phases:
            if lo <= self.t < hi:
                break
        else:
            mode = 'quiet'
        if mode == 'real':
            return real()
        if mode == 'quiet':
            out = False
        elif mode == 'all':
            out = True
        elif mode == 'warn':
            out = role == 'warning'
        elif mode == 'drift':
            out = role == 'drift'
        elif isinstance(mode, list):                # ['some', p]
            out = core.mix(self.seed, self.asked) % 1000 < mode[1] * 1000
        else:
            raise core.HarnessError('signal %r' % (mode,))
        self.delivered += out
        self.log.append(out)
        return out


SIGNALS = [None]


def scripted(role):
    """A drift detector under the control of the simulator."""
    from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector

    class ScriptedDetector(BaseDriftDetector):
        estimator_type = 'drift_detector'

        def __init__(self, role='drift'):
            super().__init__()
            self.role = role
            super().reset()

        def add_element(self, input_value):
            SIGNALS[0].values.append(input_value)
            self.in_concept_change = bool(SIGNALS[0].answer(lambda: False, self.role))

        def reset(self):
            super().reset()
    return ScriptedDetector(role)


def patch_detectors():
    """Every detector of the library asks the simulator what to report.  Runs in a child process,
    which ends with the run."""
    from skmultiflow import drift_detection as dd
    from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector
    seen = set()
    for cls in [BaseDriftDetector] + [getattr(dd, n) for n in actors.DETECTORS]:
        f = cls.__dict__.get('detected_change')
        if f is None or cls in seen:
            continue
        seen.add(cls)

        def wrap(f):
            def detected_change(self):
                return SIGNALS[0].answer(lambda: f(self))
            return detected_change
        cls.detected_change = wrap(f)


def build(plan):
    """The learner, its detectors, if it takes any, scripted ones."""
    a = actors.Actor(plan['actor'])
    name = plan['actor']['name']
    if name in FORESTS and plan['mode'] != 'storm':
        quiet = plan.get('nowarning')
        if name == 'SRP':
            a.obj.drift_detection_method = scripted('drift')
            a.obj.warning_detection_method = scripted('warning')
        else:
            a.obj.drift_detection_method = scripted('drift')
            a.obj.warning_detection_method = None if quiet else scripted('warning')
    return a


def without_detection(plan):
    """The same learner with drift detection switched off."""
    from skmultiflow import lazy
    a = actors.Actor(plan['actor'])
    name = plan['actor']['name']
    if name == 'SRP':
        a.obj.disable_drift_detection = True
    elif name in ('ARF', 'ARFRegressor'):
        a.obj.drift_detection_method = None
        a.obj.warning_detection_method = None
    elif name == 'KNNADWIN':
        c = plan['actor']['cfg']
        a.obj = lazy.KNNClassifier(n_neighbors=c['k'], max_window_size=c['w'], leaf_size=c['ls'])
    elif name == 'VFDR':
        a.obj.drift_detector = None
    else:
        a.obj.drift_detection = False
    return a


def ask(a, rows=24):
    X = a.Q[:rows].copy()
    out = [np.array(a.obj.predict(X))]
    if a.l.proba:
        out.append(np.array(actors.norm_proba(a.obj.predict_proba(X))))
    return out


def judge(a, plan, t, out):
    """Answers of a learner that was trained: one per row, out of the known classes, finite."""
    name = plan['actor']['name']
    p = np.asarray(out[0], dtype=float)
    if len(p) != 24 or not np.all(np.isfinite(p)):
        raise Violation('answers', 'after sample %d %s answers 24 rows with %s' % (
            t, name, core.short(out[0])), name)
    if a.classes is not None:
        bad = [v for v in np.ravel(p).tolist() if v not in a.classes and v != 0]
        if bad:
            raise Violation('answers', 'after sample %d %s predicts %s, known classes are %s' % (
                t, name, bad[:5], a.classes), name)
    if len(out) > 1:
        q = np.asarray(out[1], dtype=float)
        if len(q) != 24 or not np.all(np.isfinite(q)):
            raise Violation('answers', 'after sample %d the probabilities %s gives for 24 rows '
                            'are %s' % (t, name, [list(x) for x in out[1]]), name)


def fit(a, i, j):
    a.fit(a.X[i:j].copy(), a.y[i:j].copy())


def members(a):
    e = getattr(a.obj, 'ensemble', None)
    return len(e) if e is not None else None


# ---------------------------------------------------------------------------------------------
def storm(plan):
    """Training under a storm of signals; then silence and a concept that is easy to learn."""
    core.seed_globals(plan['gseed'])
    patch_detectors()
    s = SIGNALS[0] = Signals(plan['phases'], plan['gseed'])
    a = build(plan)
    name = plan['actor']['name']
    log, t, size, k = [], 0, None, 0
    while t < plan['n']:
        b = plan['batches'][k % len(plan['batches'])]
        k += 1
        s.at(t)
        j = min(plan['n'], t + b)
        fit(a, t, j)
        t = j
        m = members(a)
        if size is None:
            size = m
        if m != size:
            raise Violation('members', '%s had %d members, and %d after sample %d' % (
                name, size, m, t), name)
        if k % 4 == 0 or t >= plan['n']:
            out = ask(a)
            judge(a, plan, t, out)
            log.append((t, out[0]))
    # the signals stop
    s.at(10 ** 9)
    good = None
    if plan['recover']:
        r = np.random.RandomState(plan['actor']['dseed'])
        for _ in range(plan['recover'] // 10):
            a.fit(*concept(r, 10, plan['actor']['nf']))
        X, y = concept(r, 200, plan['actor']['nf'])
        good = float(np.mean(np.array(a.obj.predict(X)) == y))
    return log, s.asked, s.delivered, good


def concept(r, n, nf):
    """Two well separated classes."""
    y = np.tile([0, 1], n // 2)
    return r.normal(0, 0.2, size=(n, nf)) + 4 * y[:, None], y


def twin(plan):
    """Silent detectors: the learner without detection."""
    core.seed_globals(plan['gseed'])
    patch_detectors()
    s = SIGNALS[0] = Signals(plan['phases'], plan['gseed'])
    outs = []
    for make in (build, without_detection):
        a = make(plan)
        if make is without_detection:       # then signals do not matter
            s.phases = [[0, 10 ** 9, 'all']]
        log, t, k = [], 0, 0
        while t < plan['n']:
            b = plan['batches'][k % len(plan['batches'])]
            k += 1
            s.at(t)
            j = min(plan['n'], t + b)
            fit(a, t, j)
            t = j
            log.append((t, ask(a)))
        outs.append(log)
    return outs, s.asked, s.delivered


def forget(plan):
    """All members of a forest drift; what was learned before the last warning is gone."""
    core.seed_globals(plan['gseed'])
    s = SIGNALS[0] = Signals([], plan['gseed'])
    a = build(plan)
    name = plan['actor']['name']
    n = a.obj.n_estimators
    nf = plan['actor']['nf']
    r = np.random.RandomState(plan['actor']['dseed'])
    t = 0
    nc = plan['nc']
    cut = plan['cut']                     # classes below are those of the old concept
    a.classes = list(range(nc)) if a.l.kind == 'clf' else None

    def learn(old):
        nonlocal t
        X = r.normal(size=(1, nf)).round(3)
        if a.l.kind == 'clf':
            y = np.array([r.randint(0, cut) if old else r.randint(cut, nc)])
        else:
            y = np.array([100.0 + r.rand() if old else r.rand()])
        s.at(t)
        a.fit(X, y)
        t += 1

    def until_all(mode, role, old):
        """Signal until one sample reached every member; how many samples it took."""
        for k in range(80):
            s.phases = [[t, t + 1, mode]]
            learn(old)
            s.phases = []
            if s.role_asked.get(role, 0) == n:
                return k + 1
        return 0

    for _ in range(plan['before']):
        learn(True)
    hit = True
    known = False                   # every member has learned the new concept since its warning
    if plan['warn'] and not plan.get('nowarning'):
        for _ in range(plan['storms']):
            hit = until_all('warn', 'warning', True) and hit
        for _ in range(plan['between']):
            learn(False)
        tries = until_all('drift', 'drift', False)
        known = tries == 1 and plan['between'] >= 10
        hit = hit and tries
    else:
        for _ in range(plan['storms']):
            hit = until_all('drift', 'drift', True) and hit
    if not hit:
        return None
    X = r.normal(size=(16, nf)).round(3)
    known = np.array(a.obj.predict(X), dtype=float) if known else None
    for _ in range(plan['after']):
        learn(False)
    if plan.get('again'):           # the next drift comes without a warning
        for _ in range(plan['again']):
            learn(True)
        if not until_all('drift', 'drift', True):
            return None
        for _ in range(plan['after']):
            learn(False)
    X = r.normal(size=(16, nf)).round(3)
    p = np.array(a.obj.predict(X), dtype=float)
    q = np.array(actors.norm_proba(a.obj.predict_proba(X))) if a.l.proba else None
    return t, p, q, known, s.delivered


# ---------------------------------------------------------------------------------------------
# ensembles that reset their worst member when a member's detector reports drift; the members are
# stubs that are right or wrong as the simulator says
RESETTING = ('OzaBaggingADWIN', 'LeveragingBagging') + BATCH_CLASSES
# as it is, these two take the member with the most hits for the worst one (known finding)
INVERTED = ('OnlineCSB2', 'OnlineRUSBoost')
MEMBERS = []                # every copy of the stub, in the order of its creation


def member_class():
    from skmultiflow.core import BaseSKMObject, ClassifierMixin

    class SimMember(BaseSKMObject, ClassifierMixin):
        """Right or wrong on a sample as drawn; X holds the number and the label of the sample."""

        def __init__(self, seed=0):
            super().__init__()
            self.seed = seed
            self.life = 0
            self.no = len(MEMBERS)
            MEMBERS.append(self)

        def __deepcopy__(self, memo):
            return SimMember(self.seed)

        def partial_fit(self, X, y, classes=None, sample_weight=None):
            return self

        def reset(self):
            self.life += 1
            return self

        def wrong(self, t):
            h = core.mix(self.seed, self.no, self.life)
            return core.mix(h, t) % 100 < (5, 20, 40, 70)[h % 4]

        def predict(self, X):
            return np.array([int(x[1]) ^ int(self.wrong(int(x[0]))) for x in X])

        def predict_proba(self, X):
            return np.eye(2)[self.predict(X)]
    return SimMember


def worst(plan):
    """Which member is reset at which sample, and which one should have been."""
    from skmultiflow import meta
    core.seed_globals(plan['gseed'])
    patch_detectors()
    s = SIGNALS[0] = Signals(plan['phases'], plan['gseed'])
    del MEMBERS[:]
    base = member_class()(plan['gseed'])
    name = plan['actor']['name']
    kw = dict(n_estimators=plan['members'], base_estimator=base, random_state=plan['gseed'])
    if name == 'LeveragingBagging':
        kw['leverage_algorithm'] = plan['actor']['cfg']['la']
    obj = getattr(meta, name + 'Classifier')(**kw)
    flip = name in INVERTED and not plan.get('documented')
    stats, log, drifts = {}, [], 0
    for t in range(plan['n']):
        y = int(core.mix(plan['gseed'], 'y', t) % 2)
        s.at(t)
        lives = {m.no: m.life for m in MEMBERS}
        s.log = []
        obj.partial_fit(np.array([[t, y, 0.5]]), np.array([y]), classes=[0, 1])
        team = list(obj.ensemble)
        if t == 0:
            first = team
        if [id(m) for m in team] != [id(m) for m in first]:
            raise Violation('members', 'the members of %s were exchanged at sample %d' % (name, t),
                            name)
        before, after = [], []
        for m in team:
            # whether it was right is judged before the reset
            n, e = stats.get(m.no, (0, 0))
            life, m.life = m.life, lives.get(m.no, 0)
            e2 = m.wrong(t) ^ flip
            m.life = life
            before.append(e / n if n else 0.0)
            stats[m.no] = (n + 1, e + e2)
            after.append((e + e2) / (n + 1))
        # a member's detector signals: the drift counts when the error has risen
        counts = [k for k in range(len(team)) if s.log[k:k + 1] == [True]
                  and after[k] > before[k] + 1e-12]
        reset = [k for k, m in enumerate(team) if m.life != lives.get(m.no, 0)]
        log.append((t, reset))
        if len(s.log) != len(team):
            raise core.HarnessError('%d questions for %d members' % (len(s.log), len(team)))
        if counts:
            drifts += 1
            top = max(after)
            want = [k for k in range(len(team)) if after[k] >= top - 1e-9]
            if len(reset) != 1 or reset[0] not in want:
                raise Violation('worst-member', 'drift at sample %d: the error of the members of '
                                '%s is %s, it resets member %s' % (
                                    t, name, [round(x, 3) for x in after], reset),
                                name + ('.documented' if plan.get('documented') else ''))
            stats[team[reset[0]].no] = (0, 0)
        elif reset:
            raise Violation('worst-member', 'no drift at sample %d, and %s resets member %s' % (
                t, name, reset), name + ('.documented' if plan.get('documented') else ''))
    return log, drifts, s.delivered


def rules(plan):
    """Drift of rules: exactly the rules that cover the sample and are old enough go."""
    core.seed_globals(plan['gseed'])
    s = SIGNALS[0] = Signals([], plan['gseed'])
    a = actors.Actor(plan['actor'])
    a.obj.drift_detector = scripted('drift')
    a.obj.min_weight = plan['min_weight']
    hits = set(plan['hits'])
    log, gone = [], 0
    for t in range(plan['n']):
        i = t % len(a.X)
        X, y = a.X[i:i + 1].copy(), a.y[i:i + 1].copy()
        old = list(a.obj.rule_set)
        covered = [r.covers_instance(X[0]) for r in old]
        heavy = [r.get_weight_seen() > plan['min_weight'] for r in old]
        hit = t in hits
        right = [majority(r) for r in old]
        s.phases = [[t, t + 1, 'all']] if hit else []
        s.at(t)
        s.values = []
        a.fit(X, y)
        now = set(map(id, a.obj.rule_set))
        for k, r in enumerate(old):
            left = id(r) not in now
            due = hit and covered[k] and heavy[k]
            # rules are only asked in turn until one learns the sample when they are ordered
            if due and a.obj.ordered_rules and any(
                    c and not h for c, h in zip(covered[:k], heavy[:k])):
                due = False
            if left != due:
                raise Violation('rules', 'at sample %d %d of %d rules report drift, are %d or more '
                                'samples old and cover it; rule %d was %s' % (
                                    t, sum(c and h for c, h in zip(covered, heavy)) if hit else 0,
                                    len(old), plan['min_weight'], k,
                                    'dropped' if left else 'kept'), 'VFDR')
            gone += left
        # the detectors are told about errors
        want = [int(m is not None and m != y[0]) for m, c in zip(right, covered) if c]
        fed = s.values[:len(want)]
        sure = [m is not None for m, c in zip(right, covered) if c][:len(fed)]
        if any(ok and f != w for ok, f, w in zip(sure, fed, want)):
            raise Violation('rule-error', 'at sample %d the errors of the rules that cover it are '
                            '%s, their detectors are told %s' % (t, want, fed), 'VFDR')
        log.append((t, len(a.obj.rule_set)))
    return log, gone, s.delivered


def majority(rule):
    """The class the rule has seen most; None when that is not clear."""
    d = rule.observed_class_distribution
    if not d:
        return None
    top = sorted(d.values())
    if len(top) > 1 and top[-1] - top[-2] < 1e-9:
        return None
    return max(d, key=d.get)


class C16(core.Prop):
    ID = 'C16'
    RULE = ('one run = one adaptive learner whose drift and warning detectors report what a drawn '
            'schedule of signals says: storms of false and missed signals, silence (compared with '
            'the learner without detection), drift of every forest member, drift of ensemble '
            'members with drawn errors, drift of rules; non-trivial: a signal was delivered, or '
            'the run is a silent one; distinct by kind of run, learner and schedule')
    ASSUMPTIONS = ['the ARF regressor keeps, by design, the statistics it normalizes with when it '
                   'has no background tree, and perceptrons extrapolate: only mean leaves are '
                   'judged for what they forget',
                   'recovery within 100 samples is judged for the nearest-neighbour learner, and '
                   'within 40 for forests of trees with majority leaves all of whose members were '
                   'replaced']
    REAL = ['ARF, SRP, ARF regressor, HAT, HAT regressor, KNNADWIN, VFDR, OzaBaggingADWIN, '
            'LeveragingBagging, the online boosting and bagging classifiers; the drift detectors']
    STUB = ['the reports of the drift detectors', 'the members of the ensembles that reset their '
            'worst member, in one kind of run']
    QUICK_RUNS = 2400
    THOROUGH_RUNS = 40000
    SHRINK_LISTS = ('phases', 'batches', 'hits')
    SHRINK_INTS = {'n': 1, 'recover': 0, 'again': 0, 'before': 1, 'between': 0, 'after': 1, 'storms': 1}

    def gen(self, rng, tier, index):
        mode = ('storm', 'twin', 'forget', 'worst', 'storm', 'rules')[index % 6]
        k = index // 6
        names = dict(storm=ADAPTIVE, twin=TWINS, forget=FORESTS, worst=RESETTING,
                     rules=('VFDR',))[mode]
        name = names[k % len(names)]
        a = actors.gen_learner(rng, [name])
        a['cfg']['mem'] = None
        if name == 'VFDR':
            a['cfg']['det'] = rng.choice(['ADWIN', 'DDM', 'EDDM'])
            a['cfg']['gp'] = rng.choice([5, 10])
            a['cfg']['mr'] = 1000
        plan = dict(mode=mode, actor=a, n=rng.choice([40, 100, 200]),
                    batches=[rng.choice([1, 1, 2, 5, 12]) for _ in range(4)], phases=[],
                    recover=0)
        if name in FORESTS and a['cfg'].get('fd') == 0.5 and name != 'SRP':
            a['cfg']['fd'] = 0.001
        if mode == 'storm':
            t = 0
            while t < plan['n']:
                d = rng.choice([1, 5, 20, 60])
                plan['phases'].append([t, t + d, rng.choice(
                    ['all', 'quiet', 'real', ['some', 0.5], ['some', 0.1], ['some', 0.02]])])
                t += d
            if name == 'KNNADWIN':
                a['cfg']['k'] = min(a['cfg']['k'], 3)
                plan['recover'] = 100
        elif mode == 'twin':
            if name in FORESTS and rng.random() < 0.5:
                plan['phases'] = [[0, 10 ** 6, 'warn']]
            if name == 'KNNADWIN':
                a['cfg']['w'] = rng.choice([10, 25, 40])
        elif mode == 'worst':
            plan.update(members=rng.choice([1, 2, 3, 5]), phases=[
                [0, plan['n'], ['some', rng.choice([0.02, 0.1, 0.5])]]])
        elif mode == 'rules':
            plan.update(min_weight=rng.choice([0, 10, 40]), hits=sorted(
                rng.sample(range(plan['n']), min(plan['n'], rng.choice([1, 4, 15])))))
        else:
            plan.update(nc=rng.choice([2, 4]), warn=rng.random() < 0.6, storms=rng.choice([1, 2]),
                        before=rng.choice([5, 40, 120]), between=rng.choice([0, 1, 10, 40]),
                        after=rng.choice([0, 1, 5, 40]), again=rng.choice([0, 0, 10, 40]),
                        nowarning=rng.random() < 0.3)
            plan['cut'] = rng.randrange(1, plan['nc'])
            a['nc'] = plan['nc']
            if name == 'ARFRegressor':
                # perceptrons extrapolate, and without a background tree the forest keeps the
                # statistics it normalizes with
                a['cfg']['lpr'] = 'mean'
        return plan

    def run(self, plan, ctx):
        name, mode = plan['actor']['name'], plan['mode']
        ctx.shape(mode, name, plan['phases'], plan['batches'], plan['n'])
        if mode == 'storm':
            log, asked, delivered, good = core.in_child(lambda: storm(plan))
            for t, p in log:
                ctx.ev('answers', t, p)
            ctx.fault('signal', delivered)
            if good is not None and good < 0.95:
                raise Violation('recovery', '%d samples of two well separated classes after the '
                                'last signal %s classifies %.0f %% of them right' % (
                                    plan['recover'], name, 100 * good), name)
        elif mode == 'twin':
            (one, two), asked, delivered = core.in_child(lambda: twin(plan))
            for (t, x), (_, y) in zip(one, two):
                ctx.ev('answers', t, x[0])
                from sim.props.c12 import pad
                for how, u, v in zip(('predict', 'proba'), x, y):
                    if how == 'proba':
                        u, v = pad([u, v])
                    if not core.same(u, v, 1e-9, 1e-9):
                        raise Violation('silent', 'after %d samples without any drift %s of %s is '
                                        '%s, and %s with drift detection switched off' % (
                                            t, how, name, core.short(u), core.short(v)), name)
        elif mode == 'worst':
            log, drifts, delivered = core.in_child(lambda: worst(plan))
            for t, reset in log:
                if reset:
                    ctx.ev('reset', t, reset)
            ctx.fault('signal', delivered)
            ctx.probe('drifts', drifts)
        elif mode == 'rules':
            log, gone, delivered = core.in_child(lambda: rules(plan))
            for t, n in log:
                ctx.ev('rules', t, n)
            ctx.fault('signal', delivered)
            ctx.probe('dropped rules', gone)
        else:
            r = core.in_child(lambda: forget(plan))
            if r is None:
                ctx.probe('not-all-reached')
                return
            t, p, q, known, delivered = r
            ctx.fault('signal', delivered)
            ctx.ev('answers', t, p)
            lp = plan['actor']['cfg']['lp'] if name != 'ARFRegressor' else 'mean'
            if known is not None and lp in ('mc', 'mean') and np.any(
                    known < plan['cut'] if q is not None else (known <= 0) | (known > 1)):
                raise Violation('lost', 'every member had %d samples of the new concept since its '
                                'warning when it drifted; %s answers %s' % (
                                    plan['between'], name, core.short(known)), name)
            if q is not None and plan['after'] >= 40 and plan['actor']['cfg']['lp'] == 'mc' \
                    and np.any(p < plan['cut']):
                raise Violation('recovery', 'only classes from %d were seen in the %d samples '
                                'since the drift; %s answers %s' % (
                                    plan['cut'], plan['after'], name, core.short(p)), name)
            if q is not None:
                left = q[:, :plan['cut']]
                if np.any(left > 0):
                    raise Violation('forget', 'classes 0..%d were seen only before the drift; %s '
                                    'still gives them %s' % (plan['cut'] - 1, name,
                                                             core.short(left)), name)
            elif np.any(p > 50):
                raise Violation('forget', 'values above 1 were seen only before the drift; %s '
                                'still answers %s' % (name, core.short(p)), name)
        ctx.nontrivial = mode == 'twin' or delivered > 0


PROP = C16()
