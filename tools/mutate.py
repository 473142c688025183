"""tools/mutate.py FILE... [--scale S] [--jobs N] [--out FILE]

Systematic single-site changes (operators, constants, branches, deleted
statements, arguments) of files of /repo/dcf, each tried in a copy below
/tmp/mut against the quick checks of the properties anchored in that file
(scaled down) until one reports.  Prints the ones no check reports: each is
either equivalent or a gap of the checks, to be decided by hand.
"""
import argparse
import ast
import json
import os
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['P%02d' % i for i in range(1, 30)]
CHECKS = {
    'compounding.py': 'P06 P07 P09 P08 P24',
    'daycount.py': 'P04 P07 P15 P28 P12',
    'interpolation.py': 'P01 P02 P04 P03 P05',
    'plans.py': 'P14 P26',
    'pricer.py': 'P20 P21 P22 P23 P24 P25 P29',
    'ratingclass.py': 'P27',
    'cashflow.py': 'P15 P16 P20 P29 P25 P21 P22 P26 P23',
    'contingent.py': 'P16 P15 P29 P20 P22 P25 P26',
    'payoffs.py': 'P15 P16 P29 P20 P22 P25',
    'products.py': 'P26 P25',
    'creditcurve.py': 'P09 P10 P29 P05 P02 P03',
    'curve.py': 'P02 P03 P04 P05 P28 P12 P07 P08 P29 P09 P10 P11 P25 P15',
    'fx.py': 'P13 P12 P29 P05 P02 P03',
    'interestratecurve.py': 'P07 P08 P05 P02 P29 P23 P24',
    'volatilitycurve.py': 'P11 P05 P02 P17 P29',
    'bachelier.py': 'P17 P18 P19',
    'black76.py': 'P17 P18 P19',
    'displaced.py': 'P17 P18 P19 P29',
    'distibutions.py': 'P17 P18 P19',
    'intrinsic.py': 'P17 P18 P19 P16',
    'optionpricing.py': 'P17 P18 P19 P29 P16 P25',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'],
       ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'],
       ast.Pow: ['*']}
CALL = {'min': 'max', 'max': 'min', 'sorted': 'list', 'abs': 'float',
        'any': 'all', 'all': 'any', 'sum': 'max', 'set': 'list'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()))
    raw = src.encode()

    def pos(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    def text(node):
        a, b = pos(node)
        return raw[a:b].decode()

    out = []

    def put(node, new, what):
        a, b = pos(node)
        if raw[a:b].decode() != new:
            out.append((node.lineno, what, a, b, new))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                skip.update(map(id, ast.walk(n.body[0])))
        if isinstance(n, ast.Raise):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.FunctionDef) and n.name in (
                '__str__', '__repr__'):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'warn':
            skip.update(map(id, ast.walk(n)))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            parts = [n.left] + n.comparators
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), ()):
                    a, b = pos(parts[i])[1], pos(parts[i + 1])[0]
                    gap = raw[a:b].decode()
                    old = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
                           ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=',
                           ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in',
                           ast.NotIn: 'not in'}[type(op)]
                    if gap.count(old) != 1:
                        continue
                    out.append((n.lineno, 'cmp', a, b,
                                gap.replace(old, new)))
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), ()):
                a, b = pos(n.left)[1], pos(n.right)[0]
                gap = raw[a:b].decode()
                old = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*',
                       ast.Div: '/', ast.Pow: '**'}[type(n.op)]
                if gap.count(old) == 1:
                    out.append((n.lineno, 'bin', a, b, gap.replace(old, new)))
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                put(n, '(%s)' % text(n.left), 'left')
        elif isinstance(n, ast.BoolOp):
            old, new = ('and', 'or') if isinstance(n.op, ast.And) else \
                ('or', 'and')
            a, b = pos(n.values[0])[1], pos(n.values[1])[0]
            gap = raw[a:b].decode()
            if gap.count(old) == 1 and len(n.values) == 2:
                out.append((n.lineno, 'bool', a, b, gap.replace(old, new)))
            for v in n.values[:2]:
                put(n, '(%s)' % text(v), 'operand')
        elif isinstance(n, ast.UnaryOp):
            put(n, '(%s)' % text(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v), 'const')
            elif isinstance(v, int):
                put(n, str(v + 1), 'const')
                if v > 1:
                    put(n, str(v - 1), 'const')
            elif isinstance(v, float):
                put(n, repr(v * 1.1 + (0.001 if not v else 0)), 'const')
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, 'False', 'branch')
            if isinstance(n, ast.If):
                put(n.test, 'True', 'branch')
        elif isinstance(n, ast.IfExp):
            put(n, '(%s)' % text(n.body), 'ifexp')
            put(n, '(%s)' % text(n.orelse), 'ifexp')
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                put(t, 'True', 'filter')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            t = n.targets[0] if isinstance(n, ast.Assign) else None
            if isinstance(n, ast.Expr) and not isinstance(
                    n.value, ast.Call):
                continue
            if isinstance(n, ast.Assign) and isinstance(t, ast.Name):
                # x = f(x) or a branch of it
                if t.id not in {y.id for y in ast.walk(n.value)
                                if isinstance(y, ast.Name)}:
                    continue
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Call):
            f = getattr(n.func, 'id', None)
            if f in CALL:
                put(n.func, CALL[f], 'call')
            if len(n.args) > 1 and not any(
                    isinstance(x, ast.Starred) for x in n.args):
                a, b = n.args[:2]
                s, e = pos(a)[0], pos(b)[1]
                out.append((n.lineno, 'swap', s, e, '%s, %s' % (
                    text(b), text(a))))
                a, b = n.args[-2:]
                s, e = pos(a)[1], pos(b)[1]
                out.append((n.lineno, 'droparg', s, e, ''))
            for k in n.keywords:
                if k.arg:
                    put(k, '%s=None' % k.arg, 'keyword')
        elif isinstance(n, ast.Attribute) and isinstance(
                n.value, ast.Name) and n.value.id == 'self':
            pass
    res = []
    for line, what, a, b, new in sorted(set(out)):
        code = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(code, 'x', 'exec')
        except SyntaxError:
            continue
        res.append((line, what, raw[a:b].decode(), new, code))
    return res


LOCAL = threading.local()
COUNT = iter(range(10 ** 6))


def scratch():
    if not hasattr(LOCAL, 'dir'):
        d = '/tmp/mut/w%d' % next(COUNT)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns(
            '.git', 'tests', 'doc', '__pycache__'))
        subprocess.run(['git', 'clone', '-q', V, d + '/verif'], check=True)
        LOCAL.dir = d
    return LOCAL.dir


def run(path, code, props, scale):
    d = scratch()
    target = os.path.join(d, 'repo', os.path.relpath(path, '/repo'))
    with open(path) as f:
        orig = f.read()
    with open(target, 'w') as f:
        f.write(code)
    try:
        for p in props:
            try:
                r = subprocess.run(
                    [d + '/verif/bin/check', p], text=True,
                    capture_output=True, timeout=300,
                    env=dict(os.environ, VERIF_REPO=d + '/repo',
                             VERIF_SCALE=str(scale), VERIF_JOBS='1'))
            except subprocess.TimeoutExpired:
                return p + ' timeout'
            if r.returncode:
                return p + (' violation' if r.returncode == 1 else
                            ' exit %s' % r.returncode)
        return None
    finally:
        with open(target, 'w') as f:
            f.write(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('--scale', type=float, default=0.1)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--out', default='/tmp/mut/out.jsonl')
    ap.add_argument('--count', action='store_true')
    ap.add_argument('--every', type=int, default=1,
                    help='try each Nth mutant only')
    a = ap.parse_args()
    todo = []
    for path in a.files:
        with open(path) as f:
            ms = mutants(f.read())[::a.every]
        print(path, len(ms), flush=True)
        todo += [(path,) + m for m in ms]
    if a.count:
        return
    with open(a.out, 'a') as out, ThreadPoolExecutor(a.jobs) as ex:
        def one(m):
            path, line, what, old, new, code = m
            got = run(path, code, CHECKS[os.path.basename(path)].split(),
                      a.scale)
            out.write(json.dumps(dict(
                file=os.path.relpath(path, '/repo'), line=line, what=what,
                old=old, new=new, got=got)) + '\n')
            out.flush()
            if got is None:
                print('SURVIVED %s:%d %s: %r -> %r' % (
                    os.path.relpath(path, '/repo'), line, what,
                    old[-70:], new[-70:]), flush=True)
        list(ex.map(one, todo))


if __name__ == '__main__':
    main()
