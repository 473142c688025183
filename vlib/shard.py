"""one worker process: runs a share of every facet of one property"""
import importlib
import json
import os
import resource
import signal
import sys
import time

from . import boot  # noqa: F401  (sys.path, checks that dcf is /repo's)
from .core import (Violation, HarnessError, run_case, case_key, derive_seed,
                   VERIF)

HANG_CPU_S = 90.0


class Hang(BaseException):
    pass


def _on_prof(*_):
    raise Hang()


def load(prop):
    for fn in sorted(os.listdir(os.path.join(VERIF, 'props'))):
        if fn.lower().startswith(prop.lower() + '_') and fn.endswith('.py'):
            return importlib.import_module('props.' + fn[:-3])
    raise HarnessError('no module for property ' + prop)


def known_ids(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return set()
    with open(path) as f:
        return {e['id'] for e in json.load(f)['findings']
                if e['property'] == prop}


def main(prop, tier, seed, shard, shards, out, budget_s):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    t0 = time.monotonic()
    mod = load(prop)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGPROF, _on_prof)
    known = known_ids(prop)
    res = {'facets': {}, 'violations': [], 'error': None, 'nt': [],
           'samples': [], 'known': {}}

    def dump():
        with open(out + '.tmp', 'w') as f:
            json.dump(res, f)
        os.replace(out + '.tmp', out)

    from .core import Facet  # noqa: F401
    only = os.environ.get('VERIF_FACET')
    for facet in mod.FACETS:
        if only and only != facet.name:
            continue
        n = facet.quick if tier == 'quick' else facet.thorough
        n = int(n * float(os.environ.get('VERIF_SCALE', '1')))
        share = max(1, -(-n // shards))
        st = {'evaluations': 0, 'nontrivial': 0, 'labels': {}, 'skipped': 0}
        res['facets'][facet.name] = st
        last = {}
        seen = set()
        seq = {'n': 0}

        def one(case):
            if time.monotonic() - t0 > budget_s:
                st['skipped'] += 1
                return
            st['evaluations'] += 1
            seq['n'] += 1
            signal.setitimer(signal.ITIMER_PROF, HANG_CPU_S)
            try:
                rec = run_case(facet, case)
            except Hang:
                res['violations'].append({
                    'facet': facet.name, 'case': case,
                    'msg': 'no result within %.0f CPU seconds (a case takes '
                           'milliseconds)' % HANG_CPU_S})
                dump()
                os._exit(0)
            except Violation as e:
                last['case'] = case
                last['msg'] = str(e)
                raise
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            for k in rec.known:
                if k not in known:
                    last['case'] = case
                    last['msg'] = 'finding %s is not listed' % k
                    raise Violation(last['msg'])
                res['known'].setdefault(k, case)
            if 'case' in last:
                return
            for lb in rec.labels:
                st['labels'][lb] = st['labels'].get(lb, 0) + 1
            if rec.nontrivial:
                key = case_key(facet.name, case)
                if key not in seen:
                    seen.add(key)
                    st['nontrivial'] += 1
                    if len(seen) in (3, 40) and shard == 0:
                        res['samples'].append(
                            {'facet': facet.name, 'case': case})

        failed = False
        if shard == 0:
            for ex in facet.examples:
                try:
                    one(ex)
                except Violation:
                    failed = True
                    break
                except HarnessError as e:
                    res['error'] = str(e)
                    dump()
                    return
        if not failed:
            test = given(facet.strategy)(one)
            test = settings(
                max_examples=share, database=None, deadline=None,
                derandomize=False, report_multiple_bugs=False,
                print_blob=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
            )(test)
            test = hypothesis.seed(
                derive_seed(seed, prop, facet.name, shard))(test)
            try:
                test()
            except Violation:
                failed = True
            except HarnessError as e:
                res['error'] = 'facet %s\n%s' % (facet.name, e)
                dump()
                return
            except BaseException as e:
                if last:
                    failed = True  # flaky: reported with what was seen
                    last['msg'] += ' [flaky: %s]' % type(e).__name__
                else:
                    import traceback
                    res['error'] = 'facet %s\n%s' % (
                        facet.name, traceback.format_exc())
                    dump()
                    return
        if failed:
            res['violations'].append({
                'facet': facet.name, 'case': last.get('case'),
                'msg': last.get('msg')})
        res['nt'].extend(seen)
    dump()


if __name__ == '__main__':
    a = sys.argv
    main(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6], float(a[7]))
