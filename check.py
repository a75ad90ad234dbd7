#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough]   run the check of one property
   check.py --replay FILE                  re-execute a replay file

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the check itself failed.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable

STAMP = r'''
cd "$1" || exit 1
list_so() { find src/skmultiflow -name '*.so'; }
find setup.py src \( -name '*.pyx' -o -name '*.pxd' -o -name '*.pxi' -o -name '*.cpp' \
    -o -name '*.h' -o -name '*.hpp' -o -name setup.py \) -type f -print0 | sort -z | xargs -0 sha256sum
find src/skmultiflow -mindepth 1 -type d ! -name '__pycache__' | sort
list_so | sort | xargs -r sha256sum
'''


def source_tree(scratch):
    """Directory to import skmultiflow from, built from /repo's current working tree.

    The compiled extensions in /repo are used when they were built from exactly
    the current sources; otherwise they are rebuilt in a scratch copy, so that
    /repo is left alone."""
    try:
        want = open(os.path.join(REPO, 'build', '.stamp')).read().strip()
        have = subprocess.run(['bash', '-c', STAMP, 'stamp', REPO], stdout=subprocess.PIPE,
                              check=True).stdout.decode().strip()
        n_so = sum(1 for ln in have.splitlines() if ln.endswith('.so'))
        if have == want and n_so >= 3:
            return os.path.join(REPO, 'src'), 'up to date in place'
    except (OSError, subprocess.CalledProcessError):
        pass
    dst = os.path.join(scratch, 'repo')
    os.makedirs(dst)
    for f in os.listdir(REPO):
        if f in ('.git', 'build', 'docs', 'tests'):
            continue
        s = os.path.join(REPO, f)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, f),
                            ignore=shutil.ignore_patterns('__pycache__', '*.so'))
        else:
            shutil.copy2(s, dst)
    # Cython output beside a .pyx is regenerated
    for d, _, fs in os.walk(os.path.join(dst, 'src')):
        for f in fs:
            if f.endswith('.pyx'):
                c = os.path.join(d, f[:-4] + '.c')
                if os.path.exists(c):
                    os.unlink(c)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    log = os.path.join(scratch, 'build.log')
    with open(log, 'w') as f:
        rc = subprocess.call([PY, 'setup.py', 'build_ext', '--inplace'], cwd=dst, stdout=f,
                             stderr=subprocess.STDOUT, env=env)
    if rc != 0:
        sys.stderr.write(open(log).read()[-4000:])
        raise SystemExit(2)
    return os.path.join(dst, 'src'), 'rebuilt in a scratch copy'


def environment(src, hashseed='0'):
    env = dict(os.environ)
    env.update(PYTHONPATH=src + os.pathsep + HERE, MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED=hashseed, PYTHONWARNINGS='ignore')
    return env


def spawn(args, env):
    return subprocess.Popen([PY, '-m', 'sim.worker'] + args, env=env, cwd=HERE,
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def read_lines(path):
    try:
        with open(path) as f:
            return [json.loads(x) for x in f if x.strip()]
    except (OSError, ValueError):
        return []


def run_one(args, env, timeout):
    p = spawn(args, env)
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, ''
    return p.returncode, err.decode(errors='replace')


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    try:
        items = json.load(open(path))
    except OSError:
        return []
    return [k for k in items if k.get('property') == pid and k.get('status') == 'known']


def is_known(v, known):
    for k in known:
        if k['kind'] == v['kind'] and k.get('subject', '') == v.get('subject', ''):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--smoke', action='store_true', help='build and import only')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '0')) or
                    max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument('--wall', type=float)
    ap.add_argument('--hashseed', default='0')
    ap.add_argument('--digests', help='write the run digests there (determinism tool)')
    ap.add_argument('--shrink-budget', type=float, default=60)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    scratch = tempfile.mkdtemp(prefix='skmf-sim-')

    def on_term(sig, frame):
        raise SystemExit(2)
    signal.signal(signal.SIGTERM, on_term)
    try:
        os.environ['VERIF_SCRATCH'] = scratch
        src, how = source_tree(scratch)
        env = environment(src, a.hashseed)
        if a.smoke:
            return subprocess.call([PY, '-c', 'import skmultiflow, sim.core, sim.registry; '
                                    'print(len(sim.registry.learners()), "learners,", '
                                    'len(sim.registry.streams()), "streams")'], env=env, cwd=HERE)
        if a.replay:
            return replay(a, env, scratch)
        return check(a, env, scratch, how)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(a, env, scratch):
    doc = json.load(open(a.replay))
    pid = doc['property']
    out = os.path.join(scratch, 'replay.json')
    rc, err = run_one(['--prop', pid, '--out', out, '--replay', os.path.abspath(a.replay),
                       '--log'], env, 800)
    res = read_lines(out)
    if not res:
        if rc is not None and rc < 0 and doc['violation']['kind'] == 'process-death':
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            print('process died with signal %d' % -rc)
            return 1
        print('the replay gave no answer (rc=%s)\n%s' % (rc, err))
        return 2
    r = res[0]
    for ln in (r['log'] or [])[-200:]:
        print('  ' + ln)
    if r['violation']:
        print('VIOLATION property=%s replay=%s' % (pid, a.replay))
        print('%(kind)s [%(subject)s]: %(message)s' % r['violation'])
        print('event log digest %s (recorded: %s)' % (r['digest'], doc.get('digest')))
        return 1
    print('not reproduced: the property holds on this plan with the current tree')
    return 0


def check(a, env, scratch, how):
    pid = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.monotonic()
    meta_out = os.path.join(scratch, 'meta.json')
    # static description of the property's machinery
    rc = subprocess.run([PY, '-c', 'import sys,json\nfrom sim.core import load_prop\n'
                         'p=load_prop(sys.argv[1])\n'
                         'json.dump(dict(level=p.LEVEL,rule=p.RULE,assumptions=p.ASSUMPTIONS,'
                         'real=p.REAL,stub=p.STUB,q=p.QUICK_RUNS,t=p.THOROUGH_RUNS),'
                         'open(sys.argv[2],"w"))', pid, meta_out], env=env, cwd=HERE,
                        stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if rc.returncode != 0:
        sys.stderr.write(rc.stderr.decode())
        return 2
    meta = json.load(open(meta_out))
    runs = a.runs or (meta['q'] if a.tier == 'quick' else meta['t'])
    wall = a.wall or (420 if a.tier == 'quick' else 6 * 3600)
    known = known_findings(pid)
    known_hit = {}

    W = min(a.workers, runs)
    procs = []
    for w in range(W):
        o = os.path.join(scratch, 'w%d.out' % w)
        m = os.path.join(scratch, 'w%d.mark' % w)
        procs.append((spawn(['--prop', pid, '--seed', str(seed), '--tier', a.tier, '--indices',
                             '%d:%d:%d' % (w, runs, W), '--out', o, '--mark', m, '--wall',
                             str(wall)], env), o, m))
    # the first runs again, in one further process: the event logs must agree
    det_n = min(runs, 24 if a.tier == 'quick' else 400)
    det_out = os.path.join(scratch, 'det.out')
    det = None
    violations, errors, aggs = [], [], []
    hard_deadline = t0 + wall + 300
    pending = list(procs)
    while pending:
        time.sleep(0.2)
        for item in list(pending):
            p, o, m = item
            if p.poll() is not None:
                pending.remove(item)
                err = p.stderr.read().decode(errors='replace')
                finish_worker(p.returncode, err, o, m, violations, errors, aggs)
        for p, o, m in pending:
            for d in read_lines(o):
                if 'violation' in d and not is_known(d['violation'], known):
                    violations.append(d)
        if violations and any(not is_known(v['violation'], known) for v in violations):
            break
        if time.monotonic() > hard_deadline:
            errors.append('worker did not finish in time')
            break
    for p, o, m in pending:
        p.kill()
        p.wait()
    fresh = []
    for v in violations:
        k = is_known(v['violation'], known)
        if k:
            known_hit[k['id']] = known_hit.get(k['id'], 0) + 1
        else:
            fresh.append(v)

    det_matched = det_total = 0
    if not fresh and not errors:
        rc, err = run_one(['--prop', pid, '--seed', str(seed), '--tier', a.tier, '--indices',
                           '0:%d:1' % det_n, '--out', det_out, '--wall', str(wall)], env,
                          wall + 200)
        first = {}
        for g in aggs:
            first.update(g['digests'])
        for d in read_lines(det_out):
            if 'agg' in d:
                for k, v in d['agg']['digests'].items():
                    if k in first:
                        det_total += 1
                        det_matched += first[k] == v
        if det_matched != det_total:
            sys.stderr.write('WARNING determinism self-check: %d of %d repeated runs differ\n'
                             % (det_total - det_matched, det_total))
    if a.digests:
        first = {}
        for g in aggs:
            first.update(g['digests'])
        json.dump(first, open(a.digests, 'w'), sort_keys=True)

    status = 0
    n_viol = 0
    if fresh:
        fresh.sort(key=lambda d: d['index'])
        seen = set()
        for d in fresh:
            if d['violation']['kind'] in seen or len(seen) >= 1:
                continue
            seen.add(d['violation']['kind'])
            n_viol += 1
            report(a, env, scratch, pid, seed, d)
        status = 1
    elif errors:
        sys.stderr.write('CHECK ERROR (%s):\n%s\n' % (pid, '\n'.join(errors)[:6000]))
        status = 2

    # listed findings: shown by their own replay plan
    for k in known:
        rp = os.path.join(scratch, 'known-%s.json' % k['id'])
        json.dump({'plan': k['plan']}, open(rp, 'w'))
        o = rp + '.out'
        run_one(['--prop', pid, '--out', o, '--replay', rp], env, 300)
        r = read_lines(o)
        if r and r[0]['violation'] and is_known(r[0]['violation'], [k]):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    wall_s = time.monotonic() - t0
    evidence(a, pid, seed, meta, aggs, runs, wall_s, n_viol, det_matched, det_total, W, how,
             known_hit)
    tot = sum(g['runs'] for g in aggs)
    print('%s %s: %d runs, %d distinct non-trivial interleavings, %.0fs, %s' % (
        pid, a.tier, tot, len(set(s for g in aggs for s in g['shapes'])), wall_s,
        {0: 'held', 1: 'VIOLATED', 2: 'ERROR'}[status]))
    return status


def finish_worker(rc, err, o, m, violations, errors, aggs):
    got = False
    for d in read_lines(o):
        if 'violation' in d:
            violations.append(d)
        elif 'harness_error' in d:
            errors.append('run %s: %s' % (d['index'], d['harness_error']))
            got = True
        elif 'agg' in d:
            aggs.append(d['agg'])
            got = True
    if rc is not None and rc < 0 and rc != -signal.SIGKILL and os.path.exists(m):
        plan = json.load(open(m))
        violations.append({'violation': {'kind': 'process-death', 'message':
                           'the process died with signal %d during this run' % -rc,
                           'subject': 'run'}, 'index': plan.get('index', 0), 'plan': plan,
                           'digest': None})
    elif not got:
        errors.append('worker ended with rc=%s and no result: %s' % (rc, err[-3000:]))


def report(a, env, scratch, pid, seed, d):
    plan, v, log = d['plan'], d['violation'], []
    digest = d['digest']
    tried = 0
    if v['kind'] not in ('process-death', 'no-progress'):
        job = os.path.join(scratch, 'shrink.json')
        json.dump({'plan': plan, 'kind': v['kind'], 'budget': a.shrink_budget}, open(job, 'w'))
        out = os.path.join(scratch, 'shrink.out')
        run_one(['--prop', pid, '--out', out, '--shrink', job], env, a.shrink_budget + 180)
        r = read_lines(out)
        if r and r[0]['violation'] and r[0]['violation']['kind'] == v['kind']:
            plan, v, tried = r[0]['plan'], r[0]['violation'], r[0]['tried']
            log, digest = r[0]['log'], r[0]['digest']
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-seed%d-run%d.json' % (pid, seed, d['index']))

    def save(p, vv, dg):
        json.dump({'property': pid, 'seed': seed, 'run': d['index'], 'violation': vv, 'plan': p,
                   'digest': dg, 'shrink_attempts': tried,
                   'event_log_tail': log}, open(path, 'w'), indent=1)
    save(plan, v, digest)
    # the minimised plan has to fail the same way in a fresh process
    ok = None
    if v['kind'] not in ('process-death', 'no-progress'):
        o = os.path.join(scratch, 'confirm.out')
        run_one(['--prop', pid, '--out', o, '--replay', path], env, 300)
        r = read_lines(o)
        ok = bool(r and r[0]['violation'] and r[0]['violation']['kind'] == v['kind']
                  and r[0]['digest'] == digest)
        if not (r and r[0]['violation'] and r[0]['violation']['kind'] == v['kind']):
            save(d['plan'], d['violation'], d['digest'])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    print('  seed=%d run=%d kind=%s subject=%s' % (seed, d['index'], v['kind'], v['subject']))
    print('  %s' % v['message'])
    print('  minimised with %d attempts; replay in a fresh process %s' % (
        tried, {True: 'identical', False: 'NOT identical', None: 'not tried'}[ok]))
    sys.stdout.flush()


def evidence(a, pid, seed, meta, aggs, runs, wall_s, n_viol, det_m, det_t, W, how, known_hit):
    faults, probes = {}, {}
    shapes = set()
    for g in aggs:
        for k, n in g['faults'].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in g['probes'].items():
            probes[k] = probes.get(k, 0) + n
        shapes.update(g['shapes'])
    tot = sum(g['runs'] for g in aggs)
    doc = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': meta['level'],
        'coverage': {
            'evaluations': tot,
            'distinct_nontrivial': len(shapes),
            'rule': meta['rule'],
            'samples': [s for g in aggs for s in g['samples']][:3],
            'runs_requested': runs,
            'runs_per_hour': round(tot / max(wall_s, 1e-3) * 3600),
            'simulated_seconds': round(sum(g['sim_time'] for g in aggs), 3),
            'events': sum(g['events'] for g in aggs),
            'faults_injected': faults,
            'probes': probes,
            'interleaving_measure': 'distinct digests of the schedule signature (order of '
                                    'operations, actors and fired faults, without payloads) '
                                    'among non-trivial runs',
            'determinism': {'runs_repeated': det_t, 'identical_event_logs': det_m},
            'workers': W,
            'components_real': meta['real'],
            'components_stub': meta['stub'],
            'extensions': how,
            'known_findings_hit': known_hit,
            'exhaustive': False,
        },
        'assumptions': meta['assumptions'],
        'wall_s': round(wall_s, 2),
        'violations': n_viol,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(doc, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
