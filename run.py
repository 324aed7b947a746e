#!/usr/bin/env python
"""Entry point of every check.

    run.py C01 [--tier quick|thorough]      decide property C01
    run.py C01 --replay replays/x.json      re-run one saved case

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not be carried out.
The parent process only schedules workers (one Python process per shard, each
importing zhusuan from /repo's working tree) and merges what they report.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def worker_env():
    env = dict(os.environ)
    env.update({
        'PYTHONPATH': HERE + ':/opt/vp/support',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
        'TF_ENABLE_ONEDNN_OPTS': '0', 'CUDA_VISIBLE_DEVICES': '-1',
        'TF_CPP_MIN_LOG_LEVEL': '3', 'OMP_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore',
        'HYPOTHESIS_STORAGE_DIRECTORY': os.path.join(
            tempfile.gettempdir(), 'vp-hypothesis'),
    })
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selfcheck', action='store_true',
                    help='check that the pieces the checks need are there')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--only', help='comma separated sub-checks (development)')
    ap.add_argument('--scale', type=float, default=1.0,
                    help='multiply case counts (development)')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        print('unknown tier', tier)
        return 2
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = 1
    env = worker_env()
    env['VERIF_SEED'] = str(seed)
    env['VERIF_TIER'] = tier
    t0 = time.time()

    if a.selfcheck:
        return subprocess.call(
            [PY, '-c', 'from vp import boot; boot.boot(); import hypothesis, '
             'scipy; print("ok")'], env=env, cwd=HERE,
            stderr=subprocess.DEVNULL)
    if not a.prop:
        ap.error('a property id is needed')
    if a.replay:
        return subprocess.call(
            [PY, '-m', 'vp.worker', '--prop', a.prop, '--replay',
             os.path.abspath(a.replay)], env=env, cwd=HERE)

    scratch = tempfile.mkdtemp(prefix='vp-%s-' % a.prop)
    try:
        return explore(a, tier, seed, env, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(a, tier, seed, env, scratch, t0):
    sys.path.insert(0, HERE)
    from vp import plan
    info = plan.PLAN[a.prop]
    jobs = []
    for sub in info['subs']:
        name, quick, thorough, shards = sub
        if a.only and name not in a.only.split(','):
            continue
        n = max(1, int((quick if tier == 'quick' else thorough) * a.scale))
        shards = max(1, min(shards, n))
        per = -(-n // shards)
        for k in range(shards):
            jobs.append((name, k, shards, per))
    if not jobs:
        print('no sub-checks selected')
        return 2
    # wall-clock ceiling for the whole run; hitting it makes the run shorter,
    # it never decides anything
    total = 600.0 if tier == 'quick' else 3 * 3600.0
    limit = t0 + total
    # longest first
    jobs.sort(key=lambda j: -j[3])
    running, results, errors = [], [], []
    pending = list(jobs)
    fail_seen, stopped = False, set()
    while pending or running:
        while pending and len(running) < a.jobs and not fail_seen:
            name, k, shards, per = pending.pop(0)
            out = os.path.join(scratch, '%s-%d.json' % (name, k))
            log = open(out + '.log', 'w')
            p = subprocess.Popen(
                [PY, '-m', 'vp.worker', '--prop', a.prop, '--sub', name,
                 '--shard', str(k), '--shards', str(shards), '--cases',
                 str(per), '--out', out, '--deadline', str(limit)],
                env=env, cwd=HERE, stdout=log, stderr=subprocess.STDOUT)
            running.append((p, name, k, out, log))
        if fail_seen:
            pending = []
        still = []
        for item in running:
            p, name, k, out, log = item
            if p.poll() is None:
                if time.time() > limit + 120:
                    p.kill()
                    p.wait()
                    errors.append((name, k, 'worker exceeded the time limit'))
                    log.close()
                    continue
                still.append(item)
                continue
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if r.get('error'):
                    errors.append((name, k, r['error']))
                if r.get('violation'):
                    fail_seen = True
                    if tier == 'quick':      # one confirmed case is enough
                        for other in running:
                            if other[0].poll() is None:
                                other[0].terminate()
                                stopped.add(other[3])
            elif out not in stopped:
                with open(out + '.log') as f:
                    errors.append((name, k, 'worker died (rc %s): %s' % (
                        p.returncode, f.read()[-3000:])))
        running = still
        time.sleep(0.05)

    return report(a, tier, seed, info, results, errors, t0)


def load_known():
    known = {}
    path = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f)['known']:
                known.setdefault(e['property'], []).append(e)
    return known


def report(a, tier, seed, info, results, errors, t0):
    evaluations = sum(r['evaluations'] for r in results)
    hashes = set()
    classes, samples, known_hit = {}, [], {}
    per_sub = {}
    skipped = 0
    for r in sorted(results, key=lambda r: (r['sub'], r['shard'])):
        hashes.update(r['hashes'])
        skipped += r['skipped']
        d = per_sub.setdefault(r['sub'], {'evaluations': 0, 'nontrivial': 0})
        d['evaluations'] += r['evaluations']
        d['nontrivial'] += len(r['hashes'])
        for k, v in r['labels'].items():
            key = r['sub'] + ': ' + k
            classes[key] = classes.get(key, 0) + v
        if r['shard'] == 0:
            samples.extend(r['samples'][:2])
        for k, v in r['known'].items():
            known_hit[k] = known_hit.get(k, 0) + v
    viols = [r['violation'] for r in results if r.get('violation')]
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed,
        'level': info.get('level', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(hashes),
            'rule': info['rule'],
            'samples': samples[:24],
            'per_subcheck': per_sub,
            'classes': dict(sorted(classes.items())),
            'skipped_after_time_budget': skipped,
            'excluded_as_known_findings': known_hit,
        },
        'assumptions': info.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d '
          'skipped=%d wall=%.1fs' % (a.prop, tier, seed, evaluations,
                                     len(hashes), skipped, time.time() - t0))
    for k, v in sorted(per_sub.items()):
        print('   %-28s %6d cases %6d non-trivial' % (
            k, v['evaluations'], v['nontrivial']))
    for e in load_known().get(a.prop, []):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, e['what']))
    if viols:
        v = min(viols, key=lambda v: len(json.dumps(v['case'])))
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (
            a.prop, v['sub'], v['hash'][:10]))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, sort_keys=True)
            f.write('\n')
        print('minimal failing case: %s' % json.dumps(v['case'],
                                                      sort_keys=True))
        print(v['message'][-4000:])
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if errors:
        for name, k, e in errors:
            print('CHECK-ERROR sub=%s shard=%d: %s' % (name, k, e))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
