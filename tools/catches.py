"""tools/catches.py [ID...]  runs the check of each planted bug against a
scratch copy and writes tools/catches.json (id -> facet and message, or null)
"""
import glob
import json
import os
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor
from plant import sh, V

OUT = os.path.join(V, 'tools', 'catches.json')


def run(i):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    top = '/tmp/catch/' + i
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    try:
        sh('git clone -q /repo %s/repo' % top)
        rc, out = sh(['git', 'apply', d + '/patch.diff'], cwd=top + '/repo')
        if rc:
            return i, 'DOES NOT APPLY'
        res = []
        for seed in ('1', '2', '3'):
            rc, out = sh([V + '/bin/check', prop], env={
                'VERIF_REPO': top + '/repo', 'VERIF_SEED': seed,
                'VERIF_JOBS': '4'})
            f = [x.strip()[:140] for x in out.splitlines()
                 if x.startswith('  facet')]
            res.append(f[0] if rc == 1 and f else None if rc == 0 else
                       'rc %d' % rc)
        return i, res
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
    old = json.load(open(OUT)) if os.path.exists(OUT) else {}
    with ThreadPoolExecutor(2) as ex:
        for i, r in ex.map(run, ids):
            print(i, r, flush=True)
            old[i] = r
    keep = set(os.listdir(os.path.join(V, 'seeded')))
    json.dump({k: old[k] for k in sorted(old) if k in keep}, open(OUT, 'w'),
              indent=1)
