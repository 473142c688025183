"""P11 volatility curves"""
from math import sqrt

from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, close2, same, true, raises, fail
from vlib import gen, oracle, build
from props.p04_time import integral

ASSUMPTIONS = [
    'volatility at a single date, and casting to instantaneous volatility, '
    'with BusinessDates only (elementary step is the string 1d)',
    'numerical quadrature is trusted to 1e-6 unless the curve has points '
    'close to each other compared to the period']
_FLOORS = {}


def terminal(floor):
    if floor not in _FLOORS:
        _FLOORS[floor] = dcf.TerminalVolatilityCurve if floor is None else \
            type('TerminalVolatilityCurve', (dcf.TerminalVolatilityCurve,),
                 {'FLOOR': floor})
    return _FLOORS[floor]


@st.composite
def cases(draw, cls):
    spec = draw(build.rate_specs(cls, origins='mixed', ips=st.sampled_from(
        [None, None, 'linear_scheme', 'constant', 'zero_linear_scheme'])))
    kind = spec['kind']
    xs = spec['xs']
    o = build.origin_of(spec)
    shape = draw(st.sampled_from(['any', 'any', 'flat', 'up']))
    if shape == 'flat':
        spec['ys'] = [spec['ys'][0]] * len(xs)
    elif shape == 'up':
        o_ = sorted(range(len(xs)), key=lambda i: xs[i])
        v = sorted(spec['ys'])
        for i, j in enumerate(o_):
            spec['ys'][j] = v[i]
    far = build.span_of(kind) // 6
    pick = st.one_of(st.sampled_from(xs), st.just(o),
                     st.integers(min(o, min(xs)), max(xs) + far),
                     st.integers(min(o, min(xs)), max(xs) + far))
    return dict(spec, dates=draw(st.lists(pick, min_size=3, max_size=3)),
                floor=draw(st.sampled_from([None, None, 0.0, 0, 0.01, 0.2])))


def ref_var(spec, s, e):
    vs = build.stored(spec, s) ** 2 * build.tau(spec, s)
    ve = build.stored(spec, e) ** 2 * build.tau(spec, e)
    return (ve - vs) / build.tau(spec, s, e)


def check_terminal(case, rec):
    c = gen.clock(case)
    floor = case['floor']
    f = build.build(case, cls=terminal(floor))
    o = build.origin_of(case)
    a, b, d = sorted(case['dates'])
    rec.label(case['kind'], 'floor=%s' % floor)
    rec.nt(a < b < d and len(case['xs']) > 1)
    for n, y in zip(case['xs'], case['ys']):
        close(f.get_terminal_vol(c(n)), y, 'terminal vol at its point',
              rel=1e-9)
    for n in (a, b, d):
        close(f.get_terminal_vol(c(n)), build.stored(case, n),
              'terminal vol at %r' % c(n), rel=1e-8, abs_=1e-12)
        if n > o:
            close2(f.get_terminal_vol(f.origin, c(n)),
                   f.get_terminal_vol(c(n)), 'terminal vol from origin')

    def forward(s, e):
        """forward vol or None if it raised"""
        var = ref_var(case, s, e)
        x, y = c(s), c(e)
        w = 'terminal vol (%r, %r)' % (x, y)
        if s == o:
            close(f.get_terminal_vol(x, y), build.stored(case, e), w,
                  rel=1e-8, abs_=1e-12)
            return f.get_terminal_vol(x, y)
        small = 1e-12 * (1 + abs(build.tau(case, s) / build.tau(case, s, e)))
        if abs(var) < max(small, 1e-9):
            rec.label('tiny-variance')
            try:
                v = f.get_terminal_vol(x, y)
            except ZeroDivisionError:
                true(floor is None, '%s raised despite of floor', w)
                return None
            true(-1e-12 <= v <= max(floor or 0.0, 1e-4),
                 '%s is %r', w, v)
            return None
        if var < 0 and floor is None:
            rec.label('negative-variance')
            raises(ZeroDivisionError, lambda: f.get_terminal_vol(x, y), w)
            return None
        want = sqrt(max(0.0, var))
        if floor is not None:
            if var < floor ** 2:
                rec.label('floored')
            want = max(want, floor)
        v = f.get_terminal_vol(x, y)
        close(v, want, w, rel=1e-7, abs_=1e-9)
        return None if want == floor else v

    vols = {}
    for s, e in ((a, b), (b, d), (a, d)):
        if s == e or s < o:
            continue
        vols[s, e] = forward(s, e)
        if s != o and e != o:
            same(f.get_terminal_vol(c(e), c(s)), 0.0,
                 'vol of period that ends before it starts')
    if len(vols) == 3 and all(v is not None for v in vols.values()):
        rec.label('additive')
        t = [build.tau(case, a, b), build.tau(case, b, d),
             build.tau(case, a, d)]
        close(vols[a, b] ** 2 * t[0] + vols[b, d] ** 2 * t[1],
              vols[a, d] ** 2 * t[2], 'total variance', rel=1e-6, abs_=1e-9)
    if case['kind'] == 'bd' and a > o:
        var = ref_var(case, a, a + 1)
        if var > 1e-6:
            close(f.get_instantaneous_vol(c(a)), sqrt(var) if floor is None
                  else max(sqrt(var), floor),
                  'instantaneous vol over a day at %r' % c(a), rel=1e-6)
            close2(f.get_terminal_vol(c(a), c(a)),
                   f.get_instantaneous_vol(c(a)), 'vol of a single date')


def check_instantaneous(case, rec):
    c = gen.clock(case)
    f = build.build(case)
    o = build.origin_of(case)
    dates = sorted(case['dates'])
    rec.label(case['kind'])
    ip = case['ip'] or 'linear_scheme'
    pts = sorted((build.tau(case, n), y)
                 for n, y in zip(case['xs'], case['ys']))
    for n in dates:
        v = build.stored(case, n)
        close(f.get_instantaneous_vol(c(n)), v, 'instantaneous vol at %r'
              % c(n), rel=1e-9, abs_=1e-12)
        close(f.get_terminal_vol(c(n), c(n)), v, 'vol of single date %r'
              % c(n), rel=1e-9, abs_=1e-12)
    for s, e in ((dates[0], dates[1]), (dates[0], dates[2]), (o, dates[1])):
        if s >= e:
            continue
        same(f.get_terminal_vol(c(e), c(s)), 0.0,
             'vol of period that ends before it starts')
        x, y = build.tau(case, s), build.tau(case, e)
        inner = [t for t, _ in pts if x < t < y]
        rec.nt(len(inner) > 0)
        gaps = [q - p for p, q in zip([x] + inner, inner + [y])]
        tol = 1e-6
        if min(gaps) < 0.15 * (y - x):
            tol = 0.3
        if ip != 'linear_scheme':
            tol = max(tol, 5e-3)
        want = integral(pts, ip, x, y) / build.tau(case, s, e)
        got = f.get_terminal_vol(c(s), c(e))
        close(got, want, 'terminal vol (%r, %r)' % (c(s), c(e)), rel=tol,
              abs_=1e-7, scale=max(v for _, v in pts))
        if s == o:
            close2(f.get_terminal_vol(c(e)), got, 'terminal vol of %r'
                   % c(e))


# ---- casting -----------------------------------------------------------------

@st.composite
def cast_cases(draw):
    spec = draw(build.rate_specs(build.VOL, kind=draw(st.sampled_from(
        ['bd', 'bd', 'date', 'float'])), origins=draw(st.sampled_from(
            ['before', 'first'])), min_size=1, max_size=5))
    if draw(st.booleans()):
        spec['ys'] = [spec['ys'][0]] * len(spec['ys'])
    else:  # total variance increases
        xs = sorted(spec['xs'])
        ys = sorted(spec['ys'])
        spec['xs'], spec['ys'] = xs, ys
    xs = spec['xs']
    o = build.origin_of(spec)
    grid = draw(st.one_of(st.none(), st.lists(
        st.one_of(st.sampled_from(xs),
                  st.integers(o + 1, max(max(xs), o + 1) + 100)),
        min_size=1, max_size=5, unique=True)))
    if spec['kind'] != 'bd' and grid is None:
        grid = list(xs)
    target = draw(st.sampled_from(build.VOL))
    other = draw(st.one_of(st.none(), st.none(), st.integers(-60, 60)))
    if target != 'InstantaneousVolatilityCurve':
        other = None
    return dict(spec, target=target, grid=grid, other=other,
                odc=draw(st.sampled_from([None, None, None, 'act365',
                                          'act360'])))


def check_cast(case, rec):
    c = gen.clock(case)
    f = build.build(case)
    s, t = case['cls'], case['target']
    if t == 'InstantaneousVolatilityCurve' and s != t and \
            case['kind'] != 'bd':
        return
    before = list(f.domain), [f(d) for d in f.domain], f.origin
    rec.label('%s>%s' % (s[:4], t[:4]), case['kind'])
    rec.nt(s != t and len(case['xs']) > 1)
    T = getattr(dcf, t)
    kw = {}
    odc, other = case.get('odc'), case.get('other')
    o = build.origin_of(case)
    if odc:
        kw['day_count'] = gen.day_count(odc)
        rec.label('other-day-count')
    if other is not None:
        other = o + other * build.span_of(case['kind']) // 100
        kw['origin'] = c(other)
        rec.label('other-origin')
    if case['grid'] is None:
        g = T(f, **kw)
        true(set(f.domain) <= set(g.domain), 'points of source are kept')
    else:
        g = T([c(n) for n in case['grid']], f, **kw)
        same(list(g.domain), [c(n) for n in sorted(case['grid'])], 'grid')
    same((list(f.domain), [f(d) for d in f.domain], f.origin), before,
         'source')
    true(type(g) is T, 'type')
    if other is not None:
        same(g.origin, c(other), 'own origin')
    else:
        same(g.origin, f.origin, 'origin')
    a, b = c(o), c(o + 500)
    want = gen.frac(odc, c, a, b) if odc else build.tau(case, o, o + 500)
    close(g.day_count(a, b), want, 'year fraction', rel=1e-12)
    if other is None:
        close(g.day_count(b), want, 'year fraction', rel=1e-12)
    for d in g.domain:
        if t == 'TerminalVolatilityCurve':
            if d < f.origin:
                continue
            got, want = g.get_terminal_vol(d), f.get_terminal_vol(d)
        else:
            got, want = g.get_instantaneous_vol(d), \
                f.get_instantaneous_vol(d)
        close2(got, want, 'what %s stores at %r' % (t, d), rel=1e-8)
        close2(g(d), want, 'value of %s at %r' % (t, d), rel=1e-8)


FACETS = [
    Facet('terminal', cases('TerminalVolatilityCurve'), check_terminal, 5000,
          rule='three different dates and at least two points'),
    Facet('instantaneous', cases('InstantaneousVolatilityCurve'),
          check_instantaneous, 2500,
          rule='a point of the curve inside of the period'),
    Facet('cast', cast_cases(), check_cast, 2000,
          rule='another type and at least two points'),
]
