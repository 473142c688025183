"""P04 dates only matter through day count and origin"""
from hypothesis import strategies as st

import businessdate as bd
import dcf
from dcf.daycount import day_count
from vlib.core import Facet, close, close2, same, true
from vlib import gen, oracle, build

ASSUMPTIONS = ['datetimes at midnight',
               'step interpolations are integrated to a tolerance, since '
               'numerical quadrature meets jumps']

# ---- default day count ------------------------------------------------------


def check_dc(case, rec):
    c = gen.clock(case)
    a, b, d = case['n']
    s, m, e = c(a), c(b), c(d)
    rec.label(case['kind'])
    rec.nt(len({a, b, d}) == 3)
    x = close(day_count(s, e), c.yf(a, d), 'day_count(%r, %r)' % (s, e),
              rel=1e-13)
    y = close(day_count(s, m), c.yf(a, b), 'day_count(%r, %r)' % (s, m),
              rel=1e-13)
    z = close(day_count(m, e), c.yf(b, d), 'day_count(%r, %r)' % (m, e),
              rel=1e-13)
    close(y + z, x, 'additivity', rel=1e-12, abs_=1e-12, scale=abs(y))
    close(day_count(e, s), -x, 'antisymmetry', rel=1e-13)
    same(day_count(s, s), 0.0, 'empty period')
    curve = dcf.DateCurve([m], [1.0])
    close(curve.day_count(s, e), c.yf(a, d), 'curve.day_count(s, e)',
          rel=1e-13)
    close(curve.day_count(e), c.yf(b, d), 'curve.day_count(e)', rel=1e-13)
    own = dcf.DateCurve([m], [1.0], origin=s,
                        day_count=lambda p, q: 2 * day_count(p, q) + 1)
    close(own.day_count(e), 2 * c.yf(a, d) + 1, 'supplied day count',
          rel=1e-13)
    close(own.day_count(m, e), 2 * c.yf(b, d) + 1, 'supplied day count',
          rel=1e-13)


dc_cases = st.fixed_dictionaries({
    'kind': gen.kinds, 'base': gen.bases,
    'n': st.lists(st.integers(-20000, 20000), min_size=3, max_size=3)})

# ---- same curve by any kind of dates ----------------------------------------

IPS = [None, None, 'linear', 'constant', 'left', 'right', 'nearest',
       'linear_scheme', 'zero_linear_scheme', 'log_linear_scheme',
       'loglinear', 'log_linear_rate_scheme', 'zero']


@st.composite
def cases(draw):
    ipn = draw(st.sampled_from(IPS))
    pos = ipn and 'log' in ipn
    xs = draw(gen.axis(1, 6, 0, draw(st.sampled_from([20, 400, 3653]))))
    val = st.integers(1 if pos else -300, 400).map(lambda i: i / 64.0)
    origin = draw(st.one_of(st.none(), st.integers(-400, 4000)))
    if ipn and 'rate' in ipn:
        origin = -draw(st.integers(1, 400))
    return {'cls': 'DateCurve', 'base': draw(gen.bases), 'xs': xs,
            'ys': draw(st.lists(val, min_size=len(xs), max_size=len(xs))),
            'ip': ipn, 'iphow': draw(st.sampled_from(['name', 'class'])),
            'origin': origin,
            'dc': draw(st.sampled_from([None, None, 'act365', 'act360',
                                        '30360'])),
            'fix': draw(st.lists(st.tuples(st.integers(0, 9), val).map(list),
                                 max_size=3)),
            'tuple': draw(st.booleans()), 'qs': draw(build.qs)}


class Registered(dcf.DateCurve):
    DAY_COUNT = dict(gen.DAY_COUNTS)


def check(case, rec):
    try:
        build.stored(dict(case, kind='bd'), case['xs'][0])
    except oracle.Undefined:
        return   # two points of same year fraction (30/360)
    dc = case['dc']
    rec.label('dc=%s' % dc, 'ip=%s' % case['ip'],
              'origin=%s' % ('first' if case['origin'] is None else 'given'))
    rec.nt(len(case['xs']) > 1)
    ref = dict(case, kind='bd')
    curves = []
    for kind in ('date', 'datetime', 'bd'):
        spec = dict(case, kind=kind)
        curves.append((kind, gen.clock(spec), build.build(spec)))
    if dc:
        spec = dict(case, kind='bd')
        curves.append(('registered', gen.clock(spec), build.build(
            spec, cls=Registered, day_count=dc)))
    else:
        seq = tuple if case['tuple'] else list
        kw = {} if case['origin'] is None else {
            'origin': case['origin'] / 365.25}
        if case['ip']:
            kw['interpolation'] = case['ip']
        curves.append(('number', lambda n: n / 365.25, dcf.DateCurve(
            seq(n / 365.25 for n in case['xs']), seq(case['ys']), **kw)))
    qs = []
    for n in build.queries(case['xs'], case['qs']):
        try:
            build.stored(ref, n)
            qs.append(n)
        except oracle.Undefined:
            continue
    scale = max(map(abs, case['ys']))
    for kind, c, f in curves:
        same(f.origin, c(build.origin_of(ref)), 'origin (%s)' % kind)
        for n in qs:
            try:
                want = build.stored(ref, n)
            except oracle.Undefined:
                continue
            got = f(c(n))
            if want is None:
                same(got, None, 'value at %r' % c(n))
                continue
            close(f.day_count(c(n)), build.tau(ref, n), 'year fraction of %r'
                  % c(n), rel=1e-12)
            close(got, want, '%s curve at %r' % (kind, c(n)), rel=1e-8,
                  abs_=1e-9, scale=scale)
        # cast to plain curve
        g = dcf.Curve(f)
        true(type(g) is dcf.Curve, 'type of Curve(DateCurve)')
        taus = sorted(build.tau(ref, n) for n in case['xs'])
        same(len(g.domain), len(taus), 'points of Curve(DateCurve)')
        for x, t in zip(g.domain, taus):
            close(x, t, 'point of Curve(DateCurve)', rel=1e-12)
        for n in qs:
            got = g(f.day_count(c(n)))
            if got is None:
                same(f(c(n)), None, 'value')
            else:
                close2(got, f(c(n)), 'plain curve at year fraction of %r'
                       % c(n), rel=1e-9, abs_=1e-10, scale=scale)
        # explicit grid
        if (case['ip'] or 'linear') in ('linear', 'linear_scheme'):
            grid = {build.tau(ref, n): n
                    for n in sorted(set(qs) - set(case['xs']))
                    + case['xs']}  # one date per year fraction
            grid = [c(n) for n in sorted(grid.values())]
            if case['tuple']:
                grid = tuple(grid)
            h = dcf.Curve(grid, f)
            for d in grid:
                close2(h(f.day_count(d)), f(d), 'Curve(grid, DateCurve) at %r'
                       % d, rel=1e-9, abs_=1e-9, scale=scale)
            k = type(f)(grid, f)
            same(list(k.domain), list(grid), 'points of DateCurve(grid, f)')
            same(k.origin, f.origin, 'origin of DateCurve(grid, f)')
            for d in grid:
                close2(k(d), f(d), 'DateCurve(grid, DateCurve) at %r' % d,
                       rel=1e-9, abs_=1e-9, scale=scale)
    # fixings override at their date only
    for i, v in case['fix']:
        n = qs[i % len(qs)]
        for kind, c, f in curves:
            before = [f(c(m)) for m in qs]
            f.fixings[c(n)] = v
            same(f(c(n)), v, 'fixing at %r' % c(n))
            after = [f(c(m)) for m in qs]
            same([y for m, y in zip(qs, after) if m != n],
                 [y for m, y in zip(qs, before) if m != n],
                 'values apart from fixing at %r' % c(n))
            del f.fixings[c(n)]
            same([f(c(m)) for m in qs], before, 'values without fixing')


# ---- integral and derivative -------------------------------------------------

def integral(pts, ip, a, b):
    """exact integral of linear_scheme or constant from a to b (a <= b)"""
    knots = sorted({a, b} | {x for x, _ in pts if a < x < b})
    xs, ys = [x for x, _ in pts], [y for _, y in pts]
    total = 0.0
    for s, e in zip(knots[:-1], knots[1:]):
        total += (e - s) * oracle.value(ip, xs, ys, (s + e) / 2)
    return total


def check_integral(case, rec):
    c = gen.clock(case)
    f = build.build(case)
    ip = case['ip'] or 'linear_scheme'
    pts = sorted((build.tau(case, n), y)
                 for n, y in zip(case['xs'], case['ys']))
    if any(a[0] == b[0] for a, b in zip(pts, pts[1:])):
        return
    s, e = case['period']
    ts, te = build.tau(case, s), build.tau(case, e)
    tse = build.tau(case, s, e)
    rec.label(case['kind'], ip)
    if ts == te or tse == 0:
        return
    a, b = min(ts, te), max(ts, te)
    rec.nt(any(a < x < b for x, _ in pts))
    want = integral(pts, ip, a, b) * (1 if te > ts else -1) / tse
    scale = max(abs(y) for _, y in pts)
    tol = 1e-4 if ip == 'linear_scheme' else 5e-3
    inner = [x for x, _ in pts if a < x < b]
    gaps = [y - x for x, y in zip([a] + inner, inner + [b])]
    if min(gaps) < 0.15 * (b - a):
        # numerical quadrature may overlook what happens in a small part
        rec.label('fine-structure')
        tol = 0.3
    close(f.integrate(c(s), c(e)), want, 'integrate(%r, %r)' % (c(s), c(e)),
          rel=tol, abs_=1e-6, scale=scale)
    if case['kind'] == 'bd':
        x = c(s)
        nxt = f(c(s + 1))
        dt = build.tau(case, s, s + 1)
        if dt:
            close(f.derivative(x), (nxt - f(x)) / dt, 'derivative at %r' % x,
                  rel=1e-7, abs_=1e-7, scale=scale)
            try:
                w = (build.stored(case, s + 1) - build.stored(case, s)) / dt
            except oracle.Undefined:
                return
            close(f.derivative(x), w, 'derivative at %r' % x,
                  rel=1e-6, abs_=1e-6, scale=scale * 400)


@st.composite
def integral_cases(draw):
    xs = draw(gen.axis(1, 6, 0, draw(st.sampled_from([20, 400, 3653]))))
    val = st.integers(-300, 400).map(lambda i: i / 64.0)
    lim = max(xs) + 200
    return {'cls': draw(st.sampled_from(['DateCurve', 'ZeroRateCurve'])),
            'kind': draw(gen.kinds), 'base': draw(gen.bases), 'xs': xs,
            'ys': draw(st.lists(val, min_size=len(xs), max_size=len(xs))),
            'ip': draw(st.sampled_from([None, None, None, 'linear_scheme',
                                        'constant'])),
            'origin': draw(st.one_of(st.none(), st.integers(-400, 4000))),
            'dc': draw(st.sampled_from([None, None, 'act365', 'act360'])),
            'tuple': draw(st.booleans()),
            'period': [draw(st.integers(-200, lim)),
                       draw(st.integers(-200, lim))]}


FACETS = [
    Facet('daycount', dc_cases, check_dc, 3000, rule='three different dates'),
    Facet('kinds', cases(), check, 3000, rule='at least two points'),
    Facet('integral', integral_cases(), check_integral, 2000,
          rule='a point of the curve strictly inside of the period'),
]
