"""C18: drift detectors report what their statistic over the elements says."""
import pickle
import random

import numpy as np

from sim import core, refdetect
from sim.core import Violation

TYPES = dict(int=int, float=float, npint=np.int64, npfloat=np.float64, bool=bool)
BINARY = {'DDM', 'EDDM', 'HDDM_A', 'HDDM_W'}


def build(name, cfg):
    from skmultiflow import drift_detection as dd
    cfg = {k: v for k, v in cfg.items() if k != 'documented'}
    return getattr(dd, name)(**cfg)


def values(plan, op):
    _, n, level, noise, seed = op
    r = random.Random(seed)
    t = TYPES[plan['type']]
    if plan['values'] == 'binary':
        return [t(int(r.random() < level)) for _ in range(n)]
    # multiples of 1/8: sums are exact
    return [t(round(8 * (level * 4 + noise * r.gauss(0, 1))) / 8) for _ in range(n)]


def observe(d, name):
    o = dict(estimation=float(d.get_length_estimation()), warning=bool(d.detected_warning_zone()))
    if name == 'ADWIN':
        o.update(width=int(d.width), total=float(d.total), n_detections=int(d.n_detections),
                 estimation=float(d.estimation), change=bool(d.in_concept_change))
        if o['width']:
            o['variance'] = float(d.variance)
    else:
        o['change'] = bool(d.detected_change())
    return o


class KSWINCheck:
    """What is certain about KSWIN, whichever values its test draws from the window."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.window = []

    def reset(self):
        self.window = []

    def add(self, x, change):
        """What is wrong with the report, or None."""
        from scipy import stats
        n, k = self.cfg['window_size'], self.cfg['stat_size']
        must, may = False, False
        if len(self.window) >= n:
            self.window = self.window[1:]
            old, new = self.window[:-k], self.window[-k:]
            # the statistic of a sample from `old` lies between these two: shares of the new
            # values above all, or below all, of the old ones, and the best any sample can reach
            sure = max(sum(v > max(old) for v in new), sum(v < min(old) for v in new)) / k
            most = max(max(self.gap(new, [v] * k) for v in set(old)), sure)
            must = self.rejects(stats, sure, k)
            may = self.rejects(stats, most, k)
            if change:
                self.window = new
        self.window = self.window + [x]
        if change and not may:
            return 'reported a change that no sample of its window supports'
        if must and not change:
            return 'missed a change that every sample of its window shows'
        return None

    @staticmethod
    def gap(a, b):
        pts = sorted(set(a) | set(b))
        return max(abs(sum(v <= p for v in a) / len(a) - sum(v <= p for v in b) / len(b))
                   for p in pts)

    def rejects(self, stats, d, k):
        if d <= 0.1:
            return False
        m = round(d * k)
        a = [1.0] * m + [0.0] * (k - m)
        return stats.ks_2samp(a, [0.0] * k, mode='exact')[1] <= self.cfg['alpha']


class C18(core.Prop):
    ID = 'C18'
    RULE = ('one run = one drift detector fed a drawn history of segments with changing levels, '
            'with questions left out or repeated, resets, and crashes with restore from a '
            'checkpoint; after every call its reports are compared with a reference model; '
            'non-trivial: a change was reported or the history has 100 or more elements; distinct '
            'by detector, configuration and history')
    ASSUMPTIONS = ['elements are Python or 64-bit NumPy numbers, multiples of 1/8',
                   'comparisons closer than 1e-9 may go either way',
                   'KSWIN draws its sample from the global generator: only reports that hold or '
                   'fail for every possible sample are judged']
    REAL = ['ADWIN, DDM, EDDM, HDDM_A, HDDM_W, PageHinkley, KSWIN']
    STUB = []
    QUICK_RUNS = 4000
    THOROUGH_RUNS = 120000
    SHRINK_LISTS = ('ops',)

    def gen(self, rng, tier, index):
        names = ['ADWIN', 'DDM', 'EDDM', 'HDDM_A', 'HDDM_W', 'PageHinkley', 'KSWIN', 'ADWIN']
        name = names[index % len(names)]
        c = {}
        if name == 'ADWIN':
            c = dict(delta=rng.choice([0.002, 0.002, 0.05, 0.3, 0.9, 1e-5]))
        elif name == 'DDM':
            c = dict(min_num_instances=rng.choice([1, 2, 5, 30, 30, 100]),
                     warning_level=rng.choice([0.5, 1.0, 2.0, 2.0, 3.0]),
                     out_control_level=rng.choice([1.0, 1.5, 3.0, 3.0, 5.0]))
        elif name == 'HDDM_A':
            c = dict(drift_confidence=rng.choice([0.001, 0.001, 0.05, 0.3]),
                     warning_confidence=rng.choice([0.005, 0.005, 0.1, 0.5]),
                     two_side_option=rng.random() < 0.5)
        elif name == 'HDDM_W':
            c = dict(drift_confidence=rng.choice([0.001, 0.001, 0.05, 0.3]),
                     warning_confidence=rng.choice([0.005, 0.005, 0.1, 0.5]),
                     lambda_option=rng.choice([0.05, 0.05, 0.01, 0.3, 1.0]),
                     two_side_option=rng.random() < 0.5)
        elif name == 'PageHinkley':
            c = dict(min_instances=rng.choice([1, 5, 30, 100]), delta=rng.choice([0.005, 0.1, 0]),
                     threshold=rng.choice([0, 1, 5, 50]),
                     alpha=rng.choice([1 - 0.0001, 1, 0.9]))
        elif name == 'KSWIN':
            k = rng.choice([5, 8, 30])
            c = dict(alpha=rng.choice([0.005, 0.05, 0.3]), stat_size=k,
                     window_size=k + rng.choice([2, 3, k, 70]))
        binary = name in BINARY or rng.random() < 0.4
        ops = []
        left = rng.choice([40, 150, 500, 1500]) if name != 'KSWIN' else rng.choice([60, 200, 400])
        if tier == 'thorough' and name != 'KSWIN' and rng.random() < 0.05:
            left = 8000
        if name == 'EDDM' and rng.random() < 0.6:
            left = max(left, 500)
        noise = rng.choice([0, 0.1, 0.5, 2])
        while left > 0:
            n = min(left, rng.choice([1, 2, 10, 33, 100, 100, 300, 1000]))
            left -= n
            level = rng.choice([0, 0, 0.02, 0.1, 0.3, 0.5, 0.8, 0.97, 1, 1])
            ops.append(['seg', n, level, noise, rng.randrange(10 ** 6)])
            r = rng.random()
            if r < 0.06:
                ops.append(['reset'])
            elif r < 0.2:
                ops.append(['restore'])
        return dict(name=name, cfg=c, values='binary' if binary else 'real',
                    type=rng.choice(['int', 'float', 'npint', 'npfloat', 'bool']
                                    if binary else ['float', 'npfloat']),
                    ask=rng.choice([[1], [1], [1], [0, 1], [1, 0, 2], [0, 0, 3], [5]]), ops=ops)

    def run(self, plan, ctx):
        name = plan['name']
        core.seed_globals(plan['gseed'])
        d = build(name, plan['cfg'])
        ref = KSWINCheck(plan['cfg']) if name == 'KSWIN' else \
            refdetect.Model(refdetect.KINDS[name], plan['cfg'])
        ctx.shape(name, sorted(plan['cfg'].items()), plan['values'], plan['ask'])
        t = seen = 0
        for op in plan['ops']:
            ctx.shape(*op)
            if op[0] == 'reset':
                d.reset()
                ref.reset()
                ctx.fault('reset')
                continue
            if op[0] == 'restore':
                d = pickle.loads(pickle.dumps(d))
                ctx.fault('restore')
                continue
            for x in values(plan, op):
                seen += self.element(plan, ctx, d, ref, x, t)
                t += 1
            ctx.ev('seg', name, t, seen)
        ctx.probe('changes', seen)
        ctx.nontrivial = seen > 0 or t >= 100

    def element(self, plan, ctx, d, ref, x, t):
        name = plan['name']
        times = plan['ask'][t % len(plan['ask'])]

        def bad(what, o):
            return Violation('report', '%s%s after element %d (%r): %s, reports %s' % (
                name, plan['cfg'], t, x, what, o),
                name + ('.documented' if plan['cfg'].get('documented') else ''))
        if name == 'ADWIN':
            d.add_element(x)
            r = ref.step('add', int(x) if plan['values'] == 'binary' else float(x),
                         observe(d, name))
            if r:
                raise bad('reference %s' % r[:2], observe(d, name))
            found = 0
            for _ in range(times):
                c = bool(d.detected_change())
                o = observe(d, name)
                r = ref.step('detect', None, o)
                if r:
                    raise bad('reference %s' % r[:2], o)
                if c != o['change']:
                    raise bad('detected_change() gave %s' % c, o)
                found += c
            return found
        d.add_element(x)
        o = observe(d, name) if name != 'KSWIN' else dict(change=bool(d.detected_change()),
                                                          warning=bool(d.detected_warning_zone()))
        for _ in range(times):
            again = dict(change=bool(d.detected_change()),
                         warning=bool(d.detected_warning_zone()))
            if again != {k: o[k] for k in again}:
                raise bad('asked again it reports %s' % again, o)
        if o['change'] and o['warning']:
            raise bad('change and warning at once', o)
        if name == 'KSWIN':
            wrong = ref.add(float(x), o['change'])
            if wrong:
                raise bad(wrong, o)
            w = [float(v) for v in d.window]
            if w != ref.window:
                raise bad('its window holds %d values, expected the last %d' % (
                    len(w), len(ref.window)), o)
        else:
            r = ref.step('add', int(x) if plan['values'] == 'binary' else float(x), o)
            if r:
                raise bad('reference %s' % r[:2], o)
        return o['change']


PROP = C18()
