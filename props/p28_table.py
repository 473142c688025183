"""P28 rate tables"""
from hypothesis import strategies as st

import dcf
from dcf import rate_table
from vlib.core import Facet, close, same, true, untouched
from vlib import gen, build

ASSUMPTIONS = [
    'explicit grids are increasing and start the header with no period',
    'cells which are left out may be missing or blank']
CLASSES = ['Curve', 'DateCurve', 'DateCurve', 'ForwardCurve',
           'ZeroRateCurve', 'ZeroRateCurve', 'CashRateCurve',
           'DiscountFactorCurve', 'SurvivalProbabilityCurve',
           'TerminalVolatilityCurve']
UNIT = {'int': 1, 'float': 8, 'bd': 15, 'date': 15, 'datetime': 15}
PERIODS = ['0D', '1D', '7D', '14D', '1M', '2M', '3M', '6M', '1Y', '18M',
           '2Y', '5Y']


@st.composite
def cases(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    cls = draw(st.sampled_from(CLASSES))
    if cls == 'Curve':
        kind = draw(st.sampled_from(['float', 'int']))
    unit = UNIT.get(kind, 15)
    # no grid is too fine
    gaps = draw(gen.rarely(
        st.lists(st.integers(1, 12), min_size=8, max_size=20),
        st.lists(st.integers(1, 12), min_size=1, max_size=5)))
    free = draw(st.booleans())
    xs = [draw(st.integers(0, 30)) * unit]
    for g in gaps[1:]:
        xs.append(xs[-1] + g * unit + (draw(st.integers(-3, 3))
                                       if free and unit > 8 else 0))
    how = draw(st.sampled_from(['none', 'before', 'before', 'first',
                                'inside']))
    origin = {'none': None, 'first': xs[0]}.get(how)
    if how == 'before':
        origin = xs[0] - draw(st.integers(1, 12)) * unit
    if how == 'inside':
        origin = draw(st.integers(xs[0], xs[-1]))
    if cls in ('DiscountFactorCurve', 'SurvivalProbabilityCurve'):
        ys = draw(st.lists(st.integers(500, 999).map(lambda i: i / 1000.0),
                           min_size=len(xs), max_size=len(xs)))
        origin = xs[0] - draw(st.integers(1, 12)) * unit
    else:
        ys = draw(st.lists(gen.dec(0.01, 0.5, 0.001), min_size=len(xs),
                           max_size=len(xs)))
    grid = None
    if draw(st.booleans()):
        lo, hi = xs[0] - 10 * unit, xs[-1] + 10 * unit
        grid = draw(st.lists(st.integers(lo, hi), min_size=1, max_size=6,
                             unique=True).map(sorted))
        if cls in ('DiscountFactorCurve', 'SurvivalProbabilityCurve'):
            grid = [x for x in grid if x > origin] or [xs[0]]
    head = None
    if draw(st.booleans()):
        if kind == 'bd':
            head = draw(st.lists(st.integers(1, len(PERIODS) - 1),
                                 max_size=5, unique=True).map(sorted))
            head = ['0D'] + [PERIODS[i] for i in head]
        else:
            head = [0] + draw(st.lists(st.integers(1, 40), max_size=5,
                                       unique=True).map(sorted))
    return {'cls': cls, 'kind': kind, 'base': base, 'xs': xs, 'ys': ys,
            'dc': draw(gen.day_counts()) if cls != 'Curve' else None,
            'origin': origin, 'ip': None, 'tenor': draw(build.tenors(
            kind, False)), 'tuple': draw(st.booleans()), 'grid': grid,
        'head': head}


def plain(c, x):
    """period as string, if any"""
    return str(x) if c.kind == 'bd' else x


def check(case, rec):
    c = gen.clock(case)
    f = build.build(case)
    kind = case['kind']
    rec.label(case['cls'], kind, 'grid' if case['grid'] else 'no grid',
              'head' if case['head'] else 'no head')
    kw = {}
    seq = tuple if case['tuple'] else list
    if case['grid']:
        kw['x_grid'] = seq(c(n) for n in case['grid'])
    if case['head']:
        if kind == 'bd':
            kw['y_grid'] = seq(build.tenor(x, c) for x in case['head'])
        else:
            kw['y_grid'] = seq(c.offset(x) for x in case['head'])
    table = untouched(rate_table, f, **kw)
    true(len(table) > 1, 'table has no rows')
    head = list(table[0])
    same(head[0], '', 'corner')
    head = head[1:]
    rows = [r[0] for r in table[1:]]
    # rows
    if case['grid']:
        want = [c(n) for n in case['grid']]
    else:
        ns = list(case['xs'])
        if case['cls'] != 'Curve' and case['origin'] is not None:
            ns.append(case['origin'])
        want = [c(n) for n in sorted(set(ns))]
    same(rows, want, 'dates of rows')
    # header
    if case['head']:
        same([plain(c, x) for x in head],
             [plain(c, x) for x in kw['y_grid']], 'header')
    else:
        verify_head(case, c, head, rows)
    # cells
    cells = 0
    for i, (x, *line) in enumerate(table[1:]):
        true(len(line) <= len(head), 'row %d has more cells than header', i)
        line = list(line) + [None] * (len(head) - len(line))
        for y, got in zip(head, line):
            blank = got is None or got == ''
            if i + 1 < len(rows) and not x + y < rows[i + 1]:
                true(blank, 'cell %r of row %r is %r, but beyond next row',
                     y, x, got)
                continue
            true(not blank, 'cell %r of row %r is missing', y, x)
            close(got, f(x + y), 'cell %r of row %r' % (y, x), rel=1e-12)
            cells += 1
    rec.nt(cells > len(rows))
    # property
    t = f.table
    d = rate_table(f)
    same([tuple(map(str, r)) for r in t], [tuple(map(str, r)) for r in d],
         'table property')
    if not kw:
        same([tuple(map(str, r)) for r in t],
             [tuple(map(str, r)) for r in table], 'table property')


def verify_head(case, c, head, rows):
    """no period first, then multiples of steps fitting the gaps"""
    at = rows[0]
    true(at + head[0] == at, 'header starts with %r', head[0])
    # months may be shorter or longer than some days
    if c.kind == 'bd':
        some = rows + [at + ('%dM' % i) for i in range(1, 13)]
        true(not any(all(x + b < x + a for x in some)
                     for a, b in zip(head, head[1:])),
             'header %r does not increase', head)
    else:
        true(all(a < b for a, b in zip(head, head[1:])),
             'header %r does not increase', head)
    same(len(set(map(str, head))), len(head), 'repetition in header')
    steps = [b - a for a, b in zip(rows, rows[1:])]
    need, may = set(), {str(head[0])}
    last = steps[0] if steps else None
    for gap in steps:
        x = last
        first = True
        while first or x < gap:
            (need if x < gap or x == last else may).add(str(x))
            first = False
            x = x + last
        last = gap
    got = set(map(str, head))
    true(not need - got, 'missing in header: %r', sorted(need - got))
    true(not got - need - may, 'not a multiple of a step: %r',
         sorted(got - need - may))


FACETS = [
    Facet('tables', cases(), check, 8000,
          rule='a row with more than one cell'),
]
