"""tools/plant.py SPEC.py [ID...]  makes /verif/seeded/ID from a plant

SPEC.py defines PLANTS = [{id, property, file, edits: [(old, new)], demo,
needs, breaks}]; each is tried in a copy of /repo below /tmp/plant: changed
lines are of the base commit, demo passes/fails, tests pass, and the quick
check of its property is run (reported only).
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '5f945fc'
PY = '/opt/venv/bin/python'
SH = '''#!/bin/sh
# run with cwd at the repository
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec %s "$(dirname "$0")/demo.py"
''' % PY


def sh(cmd, cwd=None, env=None, timeout=1200):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), text=True,
                       capture_output=True, timeout=timeout,
                       env=dict(os.environ, **(env or {})))
    return r.returncode, r.stdout + r.stderr


def tests(copy, work):
    s = open('/opt/vp/test.sh').read()
    s = s.replace('W=/opt/vp/work/run', 'W=%s' % work)
    s = s.replace('/repo', copy).replace('-n 8', '-n 4')
    s = s.replace('/opt/vp/work/mpl', work + '.mpl')
    f = work + '.sh'
    os.makedirs(os.path.dirname(f), exist_ok=True)
    open(f, 'w').write(s)
    rc, out = sh(['bash', f, work + '.json'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    res = json.load(open(work + '.json'))
    want = set(base['stable'])
    got = set(res['passed'])
    shutil.rmtree(work, ignore_errors=True)
    return sorted(want - got)


def plant(p, notests=False):
    top = '/tmp/plant/' + p['id']
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    copy = top + '/repo'
    sh('git clone -q /repo %s' % copy)
    log = []
    try:
        edits = p['edits']
        for e in edits:
            f, old, new = e if len(e) == 3 else (p['file'],) + tuple(e)
            fn = os.path.join(copy, f)
            s = open(fn).read()
            n = s.count(old)
            if n != 1:
                return p['id'], 'BAD edit matches %d times: %r' % (n, old)
            open(fn, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff -U3', cwd=copy)
        for f, _, _ in [e if len(e) == 3 else (p['file'],) + tuple(e)
                        for e in edits]:
            rc, bl = sh('git blame -s HEAD -- %s' % f, cwd=copy)
            new = {x.split(')', 1)[1][1:] for x in bl.splitlines()
                   if not x.lstrip('^').startswith(BASE)}
            old = {x.split(')', 1)[1][1:] for x in bl.splitlines()
                   if x.lstrip('^').startswith(BASE)}
        minus = [x[1:] for x in diff.splitlines()
                 if x.startswith('-') and not x.startswith('---')]
        if not minus:
            log.append('no changed line')
            if not notests:
                return p['id'], 'BAD no changed line'
        rc, bl = '', ''
        touched = []
        cur = None
        blame = {}
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = line[6:]
                rc, b = sh('git blame -s HEAD -- %s' % cur, cwd=copy)
                blame[cur] = [x.lstrip('^')[:7] for x in b.splitlines()]
            m = re.match(r'@@ -(\d+)', line)
            if m:
                k = int(m.group(1)) - 1
                continue
            if cur and line[:1] in ' -' and not line.startswith('---'):
                if line[0] == '-':
                    touched.append(blame[cur][k])
                k += 1
        ours = [t for t in touched if not t.startswith(BASE)]
        if ours:
            log.append('%d/%d changed lines not of base' % (
                len(ours), len(touched)))
            if len(ours) == len(touched) and not notests:
                return p['id'], 'BAD ' + log[0]
        d = top + '/seed'
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(p['demo'].lstrip('\n'))
        json.dump({'property': p['property'], 'needs': p['needs'],
                   'what_it_breaks': p['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        rc, out = sh(['sh', d + '/demo.sh'], cwd='/repo')
        if rc:
            return p['id'], 'BAD demo fails unchanged:\n' + out[-1500:]
        rc, out = sh(['sh', d + '/demo.sh'], cwd=copy)
        if not rc:
            return p['id'], 'BAD demo passes patched'
        log.append('demo: ' + out.strip().splitlines()[-1][:150])
        if not notests:
            bad = tests(copy, top + '/w/run')
            if bad:
                return p['id'], 'BAD tests fail: %s' % bad[:5]
            dest = os.path.join(V, 'seeded', p['id'])
            shutil.rmtree(dest, ignore_errors=True)
            shutil.copytree(d, dest)
        for seed in (1, 2):
            rc, out = sh([V + '/bin/check', p['property']],
                         env={'VERIF_REPO': copy, 'VERIF_SEED': str(seed),
                              'VERIF_JOBS': '4'})
            out = out.strip().splitlines()
            log.append('check seed %d: %s' % (
                seed, 'MISSED' if rc == 0 else 'caught (%d) %s' % (
                    rc, [x for x in out if 'facet' in x or 'VIOL' in x][:1])))
        return p['id'], '\n   '.join(log)
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    args = [a for a in sys.argv[2:] if not a.startswith('-')]
    ps = [p for p in ns['PLANTS'] if not args or p['id'] in args]
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(lambda p: plant(p, '--notests' in sys.argv), ps):
            print(i, '->', r[:900], flush=True)
