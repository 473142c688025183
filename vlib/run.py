"""bin/check PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int,
                    default=int(os.environ.get('VERIF_JOBS', '8')))
    args = ap.parse_args()
    prop, tier = args.property, args.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(re.sub(r'[^0-9-]', '', os.environ.get('VERIF_SEED', '1')) or 1)
    if args.replay:
        return replay(prop, args.replay)

    t0 = time.monotonic()
    budget = 600.0 if tier == 'quick' else 3 * 3600.0
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    shards = args.jobs
    try:
        procs = []
        for i in range(shards):
            out = os.path.join(tmp, 'out%d.json' % i)
            err = open(os.path.join(tmp, 'err%d.txt' % i), 'w')
            procs.append((out, subprocess.Popen(
                [PY, '-B', '-m', 'vlib.shard', prop, tier, str(seed), str(i),
                 str(shards), out, str(budget)],
                cwd=VERIF, stdout=err, stderr=err, stdin=subprocess.DEVNULL)))
        results, errors = [], []
        for i, (out, p) in enumerate(procs):
            rc = p.wait()
            if rc != 0 or not os.path.exists(out):
                with open(os.path.join(tmp, 'err%d.txt' % i)) as f:
                    errors.append('shard %d exit %s\n%s' % (
                        i, rc, f.read()[-4000:]))
                continue
            with open(out) as f:
                results.append(json.load(f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for r in results:
        if r['error']:
            errors.append(r['error'])
    return report(prop, tier, seed, results, errors, time.monotonic() - t0)


def report(prop, tier, seed, results, errors, wall):
    from . import boot  # noqa: F401
    from .shard import load
    mod = load(prop)
    violations = [v for r in results for v in r['violations']]
    facets, nt, samples, known = {}, set(), [], {}
    for r in results:
        nt.update(r['nt'])
        samples.extend(r['samples'])
        for k, c in r['known'].items():
            known.setdefault(k, c)
        for name, st in r['facets'].items():
            f = facets.setdefault(name, {'evaluations': 0, 'nontrivial': 0,
                                         'labels': {}})
            f['evaluations'] += st['evaluations']
            f['nontrivial'] += st['nontrivial']
            if st['skipped']:
                f['skipped_after_time_budget'] = \
                    f.get('skipped_after_time_budget', 0) + st['skipped']
            for k, v in st['labels'].items():
                f['labels'][k] = f['labels'].get(k, 0) + v
    rules = '; '.join('%s: %s' % (f.name, f.rule) for f in mod.FACETS
                      if f.rule)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(f['evaluations'] for f in facets.values()),
            'distinct_nontrivial': len(nt),
            'rule': 'Cases are JSON values drawn by Hypothesis, one strategy '
                    'per facet; a case is non-trivial when: ' + rules,
            'samples': samples[:12],
            'facets': facets,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len({v['facet'] for v in violations}),
    }
    if known:
        ev['coverage']['known_findings_seen'] = sorted(known)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(path + '.tmp', path)

    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
        with open(kf) as f:
            for e in json.load(f)['findings']:
                if e['property'] == prop and e['id'] in known:
                    print('KNOWN-FINDING: property=%s %s'
                          % (prop, e['what']))
    for name, f in sorted(facets.items()):
        print('%s/%s: %d cases, %d non-trivial' % (
            prop, name, f['evaluations'], f['nontrivial']))
    if violations:
        best = {}
        for v in violations:
            size = len(json.dumps(v['case']))
            if v['facet'] not in best or size < best[v['facet']][0]:
                best[v['facet']] = size, v
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for name, (_, v) in sorted(best.items()):
            rp = os.path.join(rdir, '%s-%s.json' % (prop, name))
            with open(rp, 'w') as f:
                json.dump(dict(v, property=prop), f, indent=1, sort_keys=True)
                f.write('\n')
            print('  facet %s: %s' % (name, v['msg']))
            print('  case: %s' % json.dumps(v['case'])[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if errors:
        for e in errors[:3]:
            print('HARNESS ERROR: ' + e, file=sys.stderr)
        return 2
    print('%s held on %d cases (%d distinct non-trivial), %.1fs' % (
        prop, ev['coverage']['evaluations'], len(nt), wall))
    return 0


def replay(prop, path):
    from . import boot  # noqa: F401
    from .shard import load, known_ids
    from .core import run_case, Violation
    with open(path) as f:
        data = json.load(f)
    mod = load(prop)
    facet = {f.name: f for f in mod.FACETS}[data['facet']]
    try:
        rec = run_case(facet, data['case'])
        for k in rec.known:
            if k not in known_ids(prop):
                raise Violation('finding %s is not listed' % k)
    except Violation as e:
        print('  facet %s: %s' % (facet.name, e))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s: replay %s holds' % (prop, path))
    return 0


if __name__ == '__main__':
    sys.exit(main())
