"""P08 casting interest rate curves"""
from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, close2, same, true
from vlib import gen, build

ASSUMPTIONS = [
    'casting without explicit grid with BusinessDates (the constructors add '
    'points by the string 1d)',
    'forward tenor of source and target agree']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['bd', 'bd', 'bd', 'date', 'datetime',
                                 'float', 'int']))
    src = st.sampled_from(build.IR if kind == 'bd' else
                          [x for x in build.IR if x != 'ShortRateCurve'])
    s = draw(src)
    spec = draw(build.rate_specs(
        s, kind=kind, origins='mixed', need_tenor=kind != 'bd',
        ips=st.sampled_from([None, None, 'own'])))
    if spec['ip'] == 'own':
        spec['ip'] = {'ZeroRateCurve': 'constant', 'CashRateCurve': 'constant',
                      'DiscountFactorCurve': None, 'ShortRateCurve': None}[s]
    o = build.origin_of(spec)
    if s == 'DiscountFactorCurve':
        if o in spec['xs']:
            spec['ys'][spec['xs'].index(o)] = 1.0
        if max(spec['xs']) <= o:
            spec['xs'].append(o + 1000 * build.step_of(kind) // 91 + 1)
            spec['ys'].append(0.9)
    xs = spec['xs']
    if s == 'ShortRateCurve':
        # step by step: stay close to origin
        xs = [o + (x - o) % 900 for x in xs]
        spec['xs'] = xs = list(dict.fromkeys(xs))
        spec['ys'] = spec['ys'][:len(xs)]
    lo = o if s in ('ShortRateCurve', 'CashRateCurve') else \
        min(xs) - build.span_of(kind) // 8
    hi = max(max(xs), lo) + (400 if s == 'ShortRateCurve' else
                             build.span_of(kind) // 8)
    grid = draw(st.one_of(
        st.none(), st.just('own'),
        st.lists(st.one_of(st.integers(lo, hi), st.just(o),
                           st.sampled_from(xs)),
                 min_size=1, max_size=6, unique=True)))
    if kind != 'bd' and grid is None:
        grid = 'own'
    return dict(spec, target=draw(st.sampled_from(build.IR)), grid=grid,
                how=draw(st.sampled_from(['call', 'call', 'cast'])),
                keepdc=draw(st.booleans()), keeporigin=draw(st.booleans()),
                odc=draw(st.sampled_from([None, None, None, None,
                                          'act365', 'act360'])),
                other=draw(st.one_of(st.none(), st.none(), st.none(),
                                     st.integers(-60, 120))),
                qs=draw(build.qs))


def quantity(cls, curve, x):
    if cls == 'DiscountFactorCurve':
        return curve.get_discount_factor(x)
    if cls == 'ZeroRateCurve':
        return curve.get_zero_rate(x)
    if cls == 'CashRateCurve':
        return curve.get_cash_rate(x)
    return curve.get_short_rate(x)


def snapshot(f):
    return (list(f.domain), [f(x) for x in f.domain], f.origin, f.spread,
            dict(f.fixings), f.forward_tenor, f.day_count(
                f.domain[0], f.domain[-1]))


def check(case, rec):
    c = gen.clock(case)
    s, t = case['cls'], case['target']
    f = build.build(case)
    o = build.origin_of(case)
    T = getattr(dcf, t)
    kind = case['kind']
    grid = case['grid']
    own = grid == 'own' or grid is None
    ns = sorted(case['xs']) if own else list(grid)
    if s in ('ShortRateCurve', 'CashRateCurve') and min(ns) < o:
        return   # step by step forward only
    if t == 'ShortRateCurve' and s != t and kind != 'bd' and \
            len(case['xs']) > 1:
        ns = [n for n in ns if n < max(case['xs'])]
        if grid is None:
            return
    if t == 'ShortRateCurve' and len(case['xs']) > 1 and \
            s == 'CashRateCurve' and kind == 'bd' and any(
                y - x > 3000 for x, y in zip(sorted(case['xs'])[:-1],
                                             sorted(case['xs'])[1:])):
        return
    if t == 'DiscountFactorCurve' and ns == [o]:
        return
    if not ns:
        return
    tenor = f.forward_tenor
    rec.label('%s>%s' % (s[:-5], t[:-5]), kind,
              'grid' if grid is not None else 'no-grid')
    if o < min(case['xs']):
        rec.label('origin-before')
    rec.nt(s != t and len(ns) > 1)
    before = snapshot(f)
    kw = {}
    if case['tenor'] is not None:
        kw['forward_tenor'] = tenor
    if case['keepdc'] and case['dc']:
        kw['day_count'] = gen.day_count(case['dc'])
    if case['keeporigin']:
        kw['origin'] = c(o)
    own_dc = case.get('odc')
    if own_dc:
        kw['day_count'] = gen.day_count(own_dc)
        rec.label('other-day-count')
    other = None
    if case.get('other') and s != 'CashRateCurve' and (
            t != 'DiscountFactorCurve' or grid is None):
        # an own origin, not the one of the source
        other = o + case['other'] * build.span_of(kind) // 100
        kw['origin'] = c(other)
        rec.label('other-origin')
    if grid is None:
        g = f.cast(T, **kw) if case['how'] == 'cast' else T(f, **kw)
        true(set(f.domain) <= set(g.domain), 'points of source are kept')
    else:
        dates = [c(n) for n in ns]
        if case['tuple']:
            dates = tuple(dates)
        g = f.cast(T, domain=dates, **kw) if case['how'] == 'cast' else \
            T(dates, f, **kw)
        same(list(g.domain), [c(n) for n in sorted(ns)], 'grid')
    true(type(g) is T, 'type')
    if other is not None:
        same(g.origin, c(other), 'own origin')
        true(grid is not None or
             min(g.domain) >= min(min(f.domain), c(other)),
             'no points before the curves start')
        for d in g.domain:
            want = quantity(t, f, d)
            if t in ('CashRateCurve', 'ShortRateCurve'):
                # rates which do not depend on an origin
                close2(g(d), want, 'value of %s at %r' % (t, d),
                       rel=1e-8, abs_=1e-9)
        same(snapshot(f), before, 'source')
        return
    same(g.origin, f.origin, 'origin')
    if own_dc and own_dc != case['dc']:
        a, b = c(ns[0]), c(ns[0] + 7 * build.step_of(kind))
        close(g.day_count(a, b), gen.frac(own_dc, c, a, b),
              'own day count', rel=1e-12)
        for d in g.domain:
            want = 1.0 if t == 'DiscountFactorCurve' and d == g.origin \
                else quantity(t, f, d)
            close2(g(d), want, 'value of %s at %r' % (t, d),
                   rel=1e-8, abs_=1e-9)
        same(snapshot(f), before, 'source')
        return
    for a, b in ((ns[0], ns[-1]), (o, o + 1000 * build.step_of(kind) // 91)):
        close2(g.day_count(c(a), c(b)), f.day_count(c(a), c(b)),
               'year fraction', rel=1e-13)
        close2(g.day_count(c(b)), f.day_count(c(b)), 'year fraction',
               rel=1e-13)
    limit = 4000 if s == 'CashRateCurve' else 10 ** 6
    for d in g.domain:
        if t == 'DiscountFactorCurve' and d == g.origin:
            want = 1.0
        elif s in ('ShortRateCurve', 'CashRateCurve') and \
                t != 'ShortRateCurve' and (d - f.origin if kind in (
                    'float', 'int') else 0) > limit:
            continue
        else:
            want = quantity(t, f, d)
        close2(quantity(t, g, d), want, 'what %s stores at %r' % (t, d),
               rel=1e-8, abs_=1e-9)
        close2(g(d), want, 'value of %s at %r' % (t, d),
               rel=1e-8, abs_=1e-9)
    same(snapshot(f), before, 'source')
    pair = {'DiscountFactorCurve', 'ZeroRateCurve'}
    if {s, t} <= pair:
        for d in g.domain:
            close2(g.get_discount_factor(d), f.get_discount_factor(d),
                   'discount factor at %r' % d, rel=1e-9)
            e = g.domain[0]
            close2(g.get_discount_factor(e, d), f.get_discount_factor(e, d),
                   'discount factor from %r to %r' % (e, d), rel=1e-9)
    if {s, t} <= pair or s == t:
        # there and back
        S = getattr(dcf, s)
        back_grid = [c(n) for n in sorted(case['xs'])]
        if not own or back_grid[-1] <= c(o):
            return
        h = S(back_grid, g, **kw)
        rec.label('there-and-back')
        for d in back_grid:
            if d == f.origin and s != t:
                continue  # a discount factor at origin tells no rate
            close2(h(d), f(d), 'there and back at %r' % d, rel=1e-8,
                   abs_=1e-8)
        if case['ip'] is None and o < min(case['xs']):
            for n in build.queries(case['xs'], case['qs']):
                close2(h(c(n)), f(c(n)), 'there and back at %r' % c(n),
                       rel=1e-7, abs_=1e-7)


FACETS = [
    Facet('cast', cases(), check, 4000,
          rule='another type and at least two points of grid'),
]
