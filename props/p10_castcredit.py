"""P10 casting credit curves"""
from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, close2, same, true
from vlib import gen, build

ASSUMPTIONS = [
    'casting without explicit grid with BusinessDates (the constructors add '
    'points by strings 1d and 1y)',
    'forward tenor of source and target agree']
RATIO = ('SurvivalProbabilityCurve', 'DefaultProbabilityCurve')
MARGINAL = ('MarginalSurvivalProbabilityCurve',
            'MarginalDefaultProbabilityCurve')


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['bd', 'bd', 'bd', 'date', 'datetime',
                                 'float', 'int']))
    s = draw(st.sampled_from(build.CREDIT if kind == 'bd' else
                             [x for x in build.CREDIT
                              if x != 'HazardRateCurve']))
    spec = draw(build.rate_specs(
        s, kind=kind, origins=draw(st.sampled_from(['before', 'before',
                                                    'first'])),
        need_tenor=kind != 'bd'))
    o = build.origin_of(spec)
    if s in RATIO:
        if o in spec['xs']:
            spec['ys'][spec['xs'].index(o)] = \
                0.0 if s in build.COMPLEMENT else 1.0
        if max(spec['xs']) <= o:
            spec['xs'].append(o + 1000 * build.step_of(kind) // 91 + 1)
            spec['ys'].append(0.1 if s in build.COMPLEMENT else 0.9)
    xs = spec['xs']
    if s == 'HazardRateCurve':
        xs = [o + (x - o) % 700 for x in xs]
    elif s in MARGINAL:
        xs = [o + (x - o) % (5000 * build.step_of(kind) // 91) for x in xs]
    spec['xs'] = xs = list(dict.fromkeys(xs))
    spec['ys'] = spec['ys'][:len(xs)]
    hi = max(xs) + 300 * build.step_of(kind) // 91
    grid = draw(st.one_of(
        st.none(), st.just('own'),
        st.lists(st.one_of(st.integers(o, hi), st.just(o),
                           st.sampled_from(xs)),
                 min_size=1, max_size=6, unique=True)))
    if kind != 'bd' and grid is None:
        grid = 'own'
    return dict(spec, target=draw(st.sampled_from(build.CREDIT)), grid=grid,
                how=draw(st.sampled_from(['call', 'call', 'cast'])),
                keepdc=draw(st.booleans()), keeporigin=draw(st.booleans()),
                odc=draw(st.sampled_from([None, None, None, None,
                                          'act365', 'act360'])),
                other=draw(st.one_of(st.none(), st.none(), st.none(),
                                     st.integers(-60, 120))),
                qs=draw(build.qs))


def quantity(cls, curve, x):
    if cls in RATIO:
        return curve.get_survival_prob(x)
    if cls == 'FlatIntensityCurve':
        return curve.get_flat_intensity(x)
    if cls in MARGINAL:
        return curve.get_survival_prob(x, x + curve.forward_tenor)
    return curve.get_hazard_rate(x)


def snapshot(f):
    return (list(f.domain), [f(x) for x in f.domain], f.origin, f.spread,
            dict(f.fixings), f.forward_tenor, f.day_count(
                f.domain[0], f.domain[-1]))


def check(case, rec):
    c = gen.clock(case)
    s, t = case['cls'], case['target']
    f = build.build(case)
    o = build.origin_of(case)
    T = getattr(dcf, t)
    kind = case['kind']
    grid = case['grid']
    own = grid == 'own' or grid is None
    xs = sorted(case['xs'])
    ns = xs if own else list(grid)
    if t == 'HazardRateCurve' and s != t and kind != 'bd' and (
            len(xs) > 1 or s in MARGINAL):
        if len(xs) == 1:
            return   # marginal curves step by string 1D beyond last point
        ns = [n for n in ns if n < max(xs)]
    if kind != 'bd' and s in MARGINAL and t == 'FlatIntensityCurve':
        ns = [n for n in ns if n != o]   # intensity of an empty period
    if t in RATIO and max(ns, default=o) <= o:
        return
    if not ns:
        return
    tenor = f.forward_tenor
    rec.label('%s>%s' % (s[:-5], t[:-5]), kind,
              'grid' if grid is not None else 'no-grid')
    rec.nt(s != t and len(ns) > 1)
    before = snapshot(f)
    kw = {}
    if case['tenor'] is not None:
        kw['forward_tenor'] = tenor
    if case['keepdc'] and case['dc']:
        kw['day_count'] = gen.day_count(case['dc'])
    if case['keeporigin']:
        kw['origin'] = c(o)
    own_dc = case.get('odc')
    if own_dc:
        kw['day_count'] = gen.day_count(own_dc)
        rec.label('other-day-count')
    other = None
    if case.get('other'):
        # an own origin, not the one of the source
        other = o + case['other'] * build.span_of(kind) // 100
        kw['origin'] = c(other)
        rec.label('other-origin')
    if grid is None:
        g = f.cast(T, **kw) if case['how'] == 'cast' else T(f, **kw)
        true(set(f.domain) <= set(g.domain), 'points of source are kept')
    else:
        dates = [c(n) for n in ns]
        if case['tuple']:
            dates = tuple(dates)
        g = f.cast(T, domain=dates, **kw) if case['how'] == 'cast' else \
            T(dates, f, **kw)
        same(list(g.domain), [c(n) for n in sorted(ns)], 'grid')
    true(type(g) is T, 'type')
    if other is not None or own_dc and own_dc != case['dc']:
        same(g.origin, c(o if other is None else other), 'own origin')
        if own_dc:
            a, b = c(ns[0]), c(ns[0] + 7 * build.step_of(kind))
            close(g.day_count(a, b), gen.frac(own_dc, c, a, b),
                  'own day count', rel=1e-12)
        for d in g.domain:
            if other is None or t == 'HazardRateCurve' or t in MARGINAL:
                want = 1.0 if t in RATIO and d == g.origin else \
                    quantity(t, f, d)
                close2(g(d), want, 'value of %s at %r' % (t, d),
                       rel=1e-8, abs_=1e-9)
        same(snapshot(f), before, 'source')
        return
    same(g.origin, f.origin, 'origin')
    far = o + 1000 * build.step_of(kind) // 91
    for a, b in ((ns[0], ns[-1]), (o, far)):
        close2(g.day_count(c(a), c(b)), f.day_count(c(a), c(b)),
               'year fraction', rel=1e-13)
        close2(g.day_count(c(b)), f.day_count(c(b)), 'year fraction',
               rel=1e-13)
    for d in g.domain:
        if t in RATIO and d == g.origin:
            want = 1.0
        else:
            want = quantity(t, f, d)
        close2(quantity(t, g, d), want, 'what %s stores at %r' % (t, d),
               rel=1e-8, abs_=1e-9)
        close2(g(d), want, 'value of %s at %r' % (t, d), rel=1e-8, abs_=1e-9)
    same(snapshot(f), before, 'source')
    direct = set(RATIO) | {'FlatIntensityCurve'}
    if {s, t} <= direct:
        for d in g.domain:
            close2(g.get_survival_prob(d), f.get_survival_prob(d),
                   'survival probability at %r' % d, rel=1e-9)
            e = g.domain[0]
            close2(g.get_survival_prob(e, d), f.get_survival_prob(e, d),
                   'survival probability from %r to %r' % (e, d), rel=1e-9)
    if {s, t} <= direct or s == t or {s, t} <= set(MARGINAL):
        S = getattr(dcf, s)
        if not own:
            return
        h = S([c(n) for n in xs], g, **kw)
        rec.label('there-and-back')
        for n in xs:
            if n == o and s != t:
                continue
            close2(h(c(n)), f(c(n)), 'there and back at %r' % c(n), rel=1e-8,
                   abs_=1e-8)
        if o < min(xs):
            for n in build.queries(xs, case['qs']):
                close2(h(c(n)), f(c(n)), 'there and back at %r' % c(n),
                       rel=1e-7, abs_=1e-7)


FACETS = [
    Facet('cast', cases(), check, 5000,
          rule='another type and at least two points of grid'),
]
