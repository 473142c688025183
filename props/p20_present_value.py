"""P20 present value"""
from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, close2, same, true
from vlib import gen, build, products

ASSUMPTIONS = [
    'discount factors between two dates are those of the discount curve '
    '(P07), for zero rate and discount factor curves also independently '
    'from their points']


@st.composite
def curves(draw, kind, base):
    how = draw(st.sampled_from(['before', 'before', 'first', 'any']))
    # a discount factor at origin alone says nothing
    return draw(build.discount_specs(kind, base, origins=how, short=False,
                                     min_size=1 if how == 'before' else 2))


@st.composite
def cases(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    return {'kind': kind, 'base': base,
            'p': draw(products.specs(kind, base)),
            'c': draw(curves(kind, base)),
            'v': draw(st.lists(st.integers(0, 64), min_size=1, max_size=3)),
            'k': draw(gen.dec(-3, 3, 0.25))}


@st.composite
def short_cases(draw):
    base = draw(gen.bases)
    case = {'kind': 'bd', 'base': base}
    xs = draw(gen.axis(1, 4, 0, 150))
    case['p'] = {'type': 'fixed', 'kind': 'bd', 'base': base, 'xs': xs,
                 'ys': [draw(gen.notionals) for _ in xs], 'origin': None,
                 'cls': 'CashFlowList', 'tuple': False}
    case['c'] = draw(build.rate_specs(
        'ShortRateCurve', 'bd', base, max_size=4, origins=draw(
            st.sampled_from(['before', 'first', 'any'])),
        xs=draw(gen.axis(1, 4, 0, 150)), need_tenor=True))
    case['v'] = draw(st.lists(st.integers(0, 64), min_size=1, max_size=2))
    case['k'] = draw(gen.dec(-3, 3, 0.25))
    # daily accrual of piecewise short rates
    return case


def check_short(case, rec):
    check(case, rec)
    spec, p = case['c'], case['p']
    c = gen.clock(case)
    curve, obj = build.build(spec), products.make(p)
    from math import exp
    for v in products.valuation_dates(p['xs'], case['v']):
        want = scale = 0.0
        for n, a in zip(p['xs'], p['ys']):
            if n >= v:
                r = sum(build.stored(spec, i) * build.tau(spec, i, i + 1)
                        for i in range(v, n))
                want += a * exp(-r)
                scale += abs(a * exp(-r))
        close(dcf.get_present_value(obj, curve, c(v)), want,
              'present value by short rates at %r' % c(v), rel=1e-9,
              abs_=1e-9, scale=scale)


def check(case, rec):
    c = gen.clock(case)
    p, spec = case['p'], case['c']
    curve = build.build(spec)
    obj = products.make(p)
    xs = products.dates(p)
    df = products.discount(spec)
    rec.label(p['type'], spec['cls'], case['kind'])
    vals = products.valuation_dates(xs, case['v'])
    for n in vals + [None]:
        v = None if n is None else c(n)
        at = build.origin_of(spec) if n is None else n
        w = 'at %r' % (v,)
        fl = products.flows(p, at)
        parts = [(curve.get_discount_factor(c(at), c(i)), a) for i, a in fl]
        want = sum(x * a for x, a in parts)
        scale = sum(abs(x * a) for x, a in parts)
        pv = close(dcf.get_present_value(obj, curve, v) if n is not None else
                   dcf.get_present_value(obj, curve), want,
                   'present value ' + w, rel=1e-9, abs_=1e-9, scale=scale)
        rec.nt(len(fl) > 1 and any(i < at for i in xs))
        if n is None:
            continue
        if df is not None and spec['cls'] == 'ZeroRateCurve':
            ref = [(df(at, i), a) for i, a in fl]
            close(pv, sum(x * a for x, a in ref), 'present value by points '
                  'of curve ' + w, rel=1e-8, abs_=1e-9,
                  scale=sum(abs(x * a) for x, a in ref))
        if not fl:
            same(float(pv), 0.0, 'present value without cashflows')
            continue
        # as fixed cashflows, without those before, scaled, split
        ds = [c(i) for i, _ in fl]
        if len(set(i for i, _ in fl)) == len(fl):
            fixed = dcf.FixedCashFlowList(ds, [a for _, a in fl])
            close2(dcf.get_present_value(fixed, curve, v), pv,
                   'same cashflows fixed ' + w, rel=1e-9, scale=scale,
                   abs_=1e-9)
            k = case['k']
            one = dcf.CashFlowList(ds, [a * k for _, a in fl])
            two = dcf.CashFlowList(ds, [a * (1 - k) for _, a in fl])
            x = dcf.get_present_value(one, curve, v)
            y = dcf.get_present_value(two, curve, v)
            close(x, k * pv, 'scaled cashflows ' + w, rel=1e-9,
                  scale=5 * scale, abs_=1e-9)
            close(x + y, pv, 'split cashflows ' + w, rel=1e-9,
                  scale=5 * scale, abs_=1e-9)
            both = dcf.CashFlowLegList([one, two, obj])
            close(dcf.get_present_value(both, curve, v), 2 * pv,
                  'legs ' + w, rel=1e-9, scale=5 * scale, abs_=1e-9)
    # a second product adds up
    if p['type'] == 'legs':
        v = c(vals[0])
        close(sum(dcf.get_present_value(leg, curve, v) for leg in obj.legs),
              dcf.get_present_value(obj, curve, v), 'sum of legs', rel=1e-9,
              abs_=1e-6)


FACETS = [Facet('present_value', cases(), check, 4000,
                rule='some cashflows before and at least two from the '
                     'valuation date on'),
          Facet('short_rates', short_cases(), check_short, 400,
                rule='some cashflows before and at least two from the '
                     'valuation date on')]
