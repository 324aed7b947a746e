"""One shard of one sub-check: Hypothesis search, shrink, report as JSON."""
import argparse
import importlib
import json
import os
import random
import sys
import time

import numpy as np

from vp import boot as _boot

HARNESS_ERRORS = (MemoryError, OSError, ImportError, KeyboardInterrupt)


def load(prop):
    return importlib.import_module('vp.checks.' + prop.lower())


def run_case(sub, case):
    """Returns (status, info_or_message): 'ok', 'known' or 'violation'."""
    from vp import core
    np.random.seed(0)
    random.seed(0)
    try:
        info = sub.check(case)
        return 'ok', (info or core.Info())
    except core.Violation as e:
        return 'violation', 'property violated: %s' % e
    except core.KnownFinding as e:
        return 'known', e.key
    except HARNESS_ERRORS:
        raise
    except Exception as e:
        # Every case is a valid use of the public API, and no case raises on
        # the unchanged tree, so an exception is a behaviour change.
        return 'violation', 'unexpected exception on a valid case:\n' + \
            core.describe(e)


class Found(Exception):
    pass


def explore(a):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, seed, settings
    from vp import core, gen
    mod = load(a.prop)
    sub = {s.name: s for s in mod.SUBCHECKS}[a.sub]
    vseed = int(os.environ.get('VERIF_SEED', '1'))
    st = {'evaluations': 0, 'skipped': 0, 'hashes': set(), 'labels': {},
          'samples': [], 'known': {}, 'best': None, 't_fail': None,
          'executed_fail': set()}
    deadline = a.deadline
    shrink_budget = 45.0

    def execute(case):
        now = time.time()
        if st['best'] is None:
            if now > deadline:
                st['skipped'] += 1
                return
        elif now > st['t_fail'] + shrink_budget:
            # out of shrinking time: keep the smallest failure found so far
            if core.case_hash(case) in st['executed_fail']:
                raise Found()
            return
        status, info = run_case(sub, case)
        h = core.case_hash(case)
        if st['best'] is None:
            st['evaluations'] += 1
        if status == 'violation':
            size = len(core.canon(case))
            st['executed_fail'].add(h)
            if st['best'] is None:
                st['t_fail'] = time.time()
            if st['best'] is None or size <= st['best'][0]:
                st['best'] = (size, case, info, h)
            raise Found()
        if status == 'known':
            st['known'][info] = st['known'].get(info, 0) + 1
            return
        for lab in info.labels:
            st['labels'][lab] = st['labels'].get(lab, 0) + 1
        if info.nontrivial:
            st['hashes'].add(h[:16])
            if len(st['samples']) < 3:
                st['samples'].append({'sub': sub.name, 'case': case,
                                      'labels': info.labels})

    # fixed corner cases first, then the generated search per stratum
    try:
        for case in sub.examples[a.shard::a.shards]:
            execute(json.loads(json.dumps(case)))
        strata = sub.strata or [None]
        for i, stratum in enumerate(strata):
            gen.ONLY[:] = [] if stratum is None else [stratum]

            @seed((vseed * 100003 + a.shard) * 1009 + i)
            @settings(max_examples=max(1, -(-a.cases // len(strata))),
                      database=None, deadline=None,
                      suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.shrink),
                      report_multiple_bugs=False, print_blob=False,
                      verbosity=hypothesis.Verbosity.quiet)
            @given(sub.strategy())
            def prop(case):
                execute(case)
            prop()
    except Exception:
        if st['best'] is None:
            raise
    viol = None
    if st['best'] is not None:
        _, case, msg, h = st['best']
        # confirm the minimal case once more, outside the search
        status, info = run_case(sub, json.loads(json.dumps(case)))
        if status == 'violation':
            viol = {'prop': a.prop, 'sub': sub.name, 'case': case,
                    'message': info, 'hash': h}
        else:
            viol = {'prop': a.prop, 'sub': sub.name, 'case': case, 'hash': h,
                    'message': msg + '\n(did not recur on one immediate '
                    're-execution)'}
    return {'sub': sub.name, 'shard': a.shard,
            'evaluations': st['evaluations'], 'skipped': st['skipped'],
            'hashes': sorted(st['hashes']), 'labels': st['labels'],
            'samples': st['samples'], 'known': st['known'],
            'violation': viol}


def replay(a):
    from vp import core
    with open(a.replay) as f:
        r = json.load(f)
    mod = load(a.prop)
    sub = {s.name: s for s in mod.SUBCHECKS}[r['sub']]
    status, info = run_case(sub, r['case'])
    if status == 'violation':
        print(info)
        print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        return 1
    print('replay %s: %s' % (a.replay, status))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--sub')
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--shards', type=int, default=1)
    ap.add_argument('--cases', type=int, default=10)
    ap.add_argument('--out')
    ap.add_argument('--deadline', type=float, default=float('inf'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    _boot.boot()
    if a.replay:
        return replay(a)
    try:
        res = explore(a)
    except Exception as e:
        from vp import core
        res = {'sub': a.sub, 'shard': a.shard, 'evaluations': 0,
               'skipped': 0, 'hashes': [], 'labels': {}, 'samples': [],
               'known': {}, 'violation': None, 'error': core.describe(e)}
    tmp = a.out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.rename(tmp, a.out)
    return 0


if __name__ == '__main__':
    sys.exit(main())
